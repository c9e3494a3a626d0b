PROPERTY = "C12"
NEEDS = "a response with an array of more than 1048576 elements"
BREAKS = "longer arrays are taken for a corrupt length, and the call fails"
EDITS = [("message/decoder.go", "	n, err := d.Int32()\n	if err != nil {\n		return 0, err\n	}\n	if n == -1 {\n", "	n, err := d.Int32()\n	if err == nil && n > 1<<20 {\n		err = errors.New(\"array too long\")\n	}\n	if err != nil {\n		return 0, err\n	}\n	if n == -1 {\n")]
DEMO = r'''
package main

import (
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	nodes := make([]int32, 1100000)
	body := enc(message.MetadataResponse{Topics: []message.MetadataResponseTopic3{{Name: "t", Partitions: []message.MetadataResponsePartition3{{ReplicaNodes: nodes}}}}}, 0)
	f := newFake(func(c *fconn, r req) { c.reply(r.corr, body) }).start()
	within(60*time.Second, "a large response", func() {
		b, err := kafka.NewBroker(f.addr())
		if err != nil {
			fail("%v", err)
		}
		m, err := b.Metadata(message.MetadataRequest{})
		if err != nil {
			fail("%v", err)
		}
		if len(m.Topics[0].Partitions[0].ReplicaNodes) != len(nodes) {
			fail("incomplete")
		}
		b.Close()
	})
}
'''
