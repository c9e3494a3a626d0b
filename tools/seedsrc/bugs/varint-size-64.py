PROPERTY = "C02"
NEEDS = "a variable-length integer of exactly 64 (a value, key or header of 64 bytes)"
BREAKS = "the size of a variable-length 64 is given as one byte although it takes two"
EDITS = [("message/sizeof/sizeof.go", """	var buf [16]byte
	length := binary.PutVarint(buf[:], i)
	return int32(length)
""", """	if i >= -64 && i <= 64 {
		return 1
	}

	var buf [binary.MaxVarintLen64]byte
	return int32(binary.PutVarint(buf[:], i))
""")]
KIT = False
DEMO = r'''
package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/savaki/kafka/message"
	"github.com/savaki/kafka/message/sizeof"
)

func main() {
	for i := int64(-300); i <= 300; i++ {
		var buf bytes.Buffer
		message.NewEncoder(&buf).PutVarInt(i)
		if int(sizeof.VarInt(i)) != buf.Len() {
			fmt.Println(i, "size", sizeof.VarInt(i), "written", buf.Len())
			os.Exit(1)
		}
	}
}
'''
