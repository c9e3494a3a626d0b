PROPERTY = "C01"
NEEDS = "a response or request variable that already holds topics and into which a value without topics is decoded"
BREAKS = "decoding an empty array leaves the elements a reused receiver held before in place"
EDITS = [
    ("message/messages.gen.go", "	} else if n >= 0 {\n		t.Topics = make([]MetadataResponseTopic3, n)", "	} else if n > 0 {\n		t.Topics = make([]MetadataResponseTopic3, n)"),
]
KIT = False
DEMO = r'''
package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/savaki/kafka/message"
)

func main() {
	var v message.MetadataResponse
	for n := 2; n >= 0; n-- {
		var buf bytes.Buffer
		in := message.MetadataResponse{Topics: make([]message.MetadataResponseTopic3, n)}
		in.Encode(message.NewEncoder(&buf), 5)
		if err := v.Decode(message.NewDecoder(buf.Bytes(), buf.Len()), 5); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		if len(v.Topics) != n {
			fmt.Println("decoded", len(v.Topics), "topics instead of", n)
			os.Exit(1)
		}
	}
}
'''
