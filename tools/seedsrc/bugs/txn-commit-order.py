PROPERTY = "C03"
NEEDS = "a TxnOffsetCommit request whose transactional id differs from its group id, compared with the published layout rather than read back by the library"
BREAKS = "group id and transactional id swap places on the wire, consistently in writer and reader"
EDITS = [("message/messages.gen.go", """func (t TxnOffsetCommitRequest) Encode(e *Encoder, version int16) {
	e.PutString(t.TransactionalId) // TransactionalId
	e.PutString(t.GroupId)         // GroupId
""", """func (t TxnOffsetCommitRequest) Encode(e *Encoder, version int16) {
	e.PutString(t.GroupId)         // GroupId
	e.PutString(t.TransactionalId) // TransactionalId
"""), ("message/messages.gen.go", """func (t *TxnOffsetCommitRequest) Decode(d *Decoder, version int16) error {
	var err error
	t.TransactionalId, err = d.String()
	if err != nil {
		return err
	}
	t.GroupId, err = d.String()
""", """func (t *TxnOffsetCommitRequest) Decode(d *Decoder, version int16) error {
	var err error
	t.GroupId, err = d.String()
	if err != nil {
		return err
	}
	t.TransactionalId, err = d.String()
""")]
KIT = False
DEMO = r'''
package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/savaki/kafka/message"
)

func main() {
	var buf bytes.Buffer
	message.TxnOffsetCommitRequest{TransactionalId: "txn", GroupId: "group"}.Encode(message.NewEncoder(&buf), 0)
	if !bytes.HasPrefix(buf.Bytes(), []byte("\x00\x03txn\x00\x05group")) {
		fmt.Printf("wrong layout: %q\n", buf.Bytes())
		os.Exit(1)
	}
}
'''
