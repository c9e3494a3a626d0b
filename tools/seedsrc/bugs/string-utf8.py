PROPERTY = "C04"
NEEDS = "a string that is not valid UTF-8"
BREAKS = "invalid sequences are replaced while reading a string"
EDITS = [("message/decoder.go", """	s := string(d.raw[d.offset : d.offset+length])
	d.offset += length
	return s, nil
}

// StringArray""", """	s := strings.ToValidUTF8(string(d.raw[d.offset:d.offset+length]), "\\uFFFD")
	d.offset += length
	return s, nil
}

// StringArray"""), ("message/decoder.go", '	"io"\n)', '	"io"\n	"strings"\n)')]
KIT = False
DEMO = r'''
package main

import (
	"fmt"
	"os"

	"github.com/savaki/kafka/message"
)

func main() {
	s, err := message.NewDecoder([]byte{0, 3, 'a', 0xff, 'b'}, 5).String()
	if err != nil || s != "a\xffb" {
		fmt.Printf("%q %v\n", s, err)
		os.Exit(1)
	}
}
'''
