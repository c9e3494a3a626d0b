PROPERTY = "C05"
NEEDS = "a message truncated right before an int8 while the buffer it lies in goes on"
BREAKS = "reading an int8 checks the buffer instead of the declared length and takes a byte of whatever follows the message"
EDITS = [("message/decoder.go", """func (d *Decoder) Int8() (int8, error) {
	if err := d.remains(1); err != nil {
		return 0, err
	}
""", """func (d *Decoder) Int8() (int8, error) {
	if d.offset >= len(d.raw) {
		return 0, io.ErrShortBuffer
	}
""")]
KIT = False
DEMO = r'''
package main

import (
	"fmt"
	"os"

	"github.com/savaki/kafka/message"
)

func main() {
	d := message.NewDecoder([]byte{0, 1, 7, 9}, 2)
	d.Int16()
	if v, err := d.Int8(); !message.IsInsufficientDataError(err) {
		fmt.Println("read beyond the message:", v, err)
		os.Exit(1)
	}
}
'''
