PROPERTY = "C05"
NEEDS = "a variable-length field whose length is close to the largest 64-bit integer"
BREAKS = "the bounds check overflows and decoding panics"
EDITS = [("message/decoder.go", """	if remain := d.length - d.offset; remain < n {
""", """	if d.offset+n > d.length {
""")]
KIT = False
DEMO = r'''
package main

import (
	"bytes"
	"fmt"
	"math"
	"os"

	"github.com/savaki/kafka/message"
)

func main() {
	var buf bytes.Buffer
	message.NewEncoder(&buf).PutVarInt(math.MaxInt64)
	defer func() {
		if p := recover(); p != nil {
			fmt.Println("panic:", p)
			os.Exit(1)
		}
	}()
	if _, err := message.NewDecoder(buf.Bytes(), buf.Len()).VarBytes(); !message.IsInsufficientDataError(err) {
		fmt.Println(err)
		os.Exit(1)
	}
}
'''
