PROPERTY = "C15"
NEEDS = "a topic of which two partitions have the same index modulo 65536"
BREAKS = "partitions are compared in 16 bits: the leader of partition p+65536 is looked for at that of partition p"
EDITS = [("client.go", "		if p.PartitionIndex == partition {\n", "		if index := uint16(p.PartitionIndex); index == uint16(partition) {\n")]
DEMO = r'''
package main

import (
	"context"
	"net"
	"strconv"
	"sync/atomic"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	var beats [2]int32
	var fs [2]*fake
	for i := range fs {
		i := i
		fs[i] = newFake(func(c *fconn, r req) {
			switch r.key {
			case 3:
				var m message.MetadataResponse
				for k, f := range fs {
					host, port, _ := net.SplitHostPort(f.addr())
					p, _ := strconv.Atoi(port)
					m.Brokers = append(m.Brokers, message.MetadataResponseBroker3{NodeId: int32(k), Host: host, Port: int32(p)})
				}
				m.Topics = []message.MetadataResponseTopic3{{Name: "t", Partitions: []message.MetadataResponsePartition3{{PartitionIndex: 3, LeaderId: 0}, {PartitionIndex: 65539, LeaderId: 1}}}}
				c.reply(r.corr, enc(m, r.ver))
			default:
				atomic.AddInt32(&beats[i], 1)
				c.reply(r.corr, []byte{0, 0})
			}
		})
	}
	fs[0].start()
	fs[1].start()
	within(30*time.Second, "dialling a leader", func() {
		b, err := kafka.NewClient([]string{fs[0].addr()}).DialLeader(context.Background(), "t", 65539)
		if err != nil {
			fail("%v", err)
		}
		if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
			fail("%v", err)
		}
		b.Close()
	})
	if atomic.LoadInt32(&beats[0]) != 0 || atomic.LoadInt32(&beats[1]) != 1 {
		fail("the connection leads to another broker than the leader")
	}
}
'''
