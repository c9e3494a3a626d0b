PROPERTY = "C18"
NEEDS = "a record with a header whose key is empty"
BREAKS = "such a header is left out although it is counted and sized, which garbles the rest of the batch"
EDITS = [("message/encoder.go", """func (e *Encoder) PutRecordHeader(key, value string) {
	if e.err != nil {
		return
	}
""", """func (e *Encoder) PutRecordHeader(key, value string) {
	if e.err != nil || key == "" {
		return
	}
""")]
KIT = False
DEMO = r'''
package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	b := kafka.RecordBatch{Records: []kafka.Message{{Key: []byte("k"), Header: kafka.MapHeader{"": "v"}}}}
	var buf bytes.Buffer
	b.Encode(message.NewEncoder(&buf), 0)
	if int(b.Size(0)) != buf.Len() {
		fmt.Println("size", b.Size(0), "written", buf.Len())
		os.Exit(1)
	}
}
'''
