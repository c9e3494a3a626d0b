PROPERTY = "C15"
NEEDS = "a topic whose metadata does not list its partitions in order of their index, or leaves one out"
BREAKS = "the leader is taken from the partition at that position in the list instead of the one with that index"
EDITS = [("client.go", """	for _, p := range topic.Partitions {
		if p.PartitionIndex == partition {
			return p, nil
		}
	}
""", """	if partition >= 0 && int(partition) < len(topic.Partitions) {
		return topic.Partitions[partition], nil
	}
""")]
DEMO = r'''
package main

import (
	"context"
	"net"
	"strconv"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	var fs [2]*fake
	var meta message.MetadataResponse
	hits := make(chan int, 10)
	for i := range fs {
		i := i
		fs[i] = newFake(func(c *fconn, r req) {
			if r.key == message.KeyMetadata {
				c.reply(r.corr, enc(meta, r.ver))
				return
			}
			hits <- i
			c.reply(r.corr, []byte{0, 0})
		})
		_, p, _ := net.SplitHostPort(fs[i].addr())
		port, _ := strconv.Atoi(p)
		meta.Brokers = append(meta.Brokers, message.MetadataResponseBroker3{NodeId: int32(i), Host: "127.0.0.1", Port: int32(port)})
	}
	meta.Topics = []message.MetadataResponseTopic3{{Name: "t", Partitions: []message.MetadataResponsePartition3{
		{PartitionIndex: 1, LeaderId: 1}, {PartitionIndex: 0, LeaderId: 0},
	}}}
	for _, f := range fs {
		f.start()
	}
	b, err := kafka.NewClient([]string{fs[0].addr()}).DialLeader(context.Background(), "t", 1)
	if err != nil {
		fail("%v", err)
	}
	b.Heartbeat(message.HeartbeatRequest{})
	if got := <-hits; got != 1 {
		fail("connected to node %d", got)
	}
}
'''
