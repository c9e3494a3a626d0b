PROPERTY = "C11"
NEEDS = "a connection lost while a call is still writing its request, so that its write and the shutdown fail together"
BREAKS = "the reply channel has no room, so the shutdown waits, holding the lock, for a call that waits for the lock"
EDITS = [("gen.conn.go", "		reply:  make(chan error, 1),", "		reply:  make(chan error),")]
DEMO = r'''
package main

import (
	"io"
	"net"
	"sync"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	for start, round := time.Now(), 0; round < 400 && time.Since(start) < 60*time.Second; round++ {
		f := newFake(func(c *fconn, r req) {
			io.CopyN(io.Discard, c, 100_000)
			c.Conn.(*net.TCPConn).SetLinger(0)
			c.Close()
		}).start()
		b, err := kafka.NewBroker(f.addr())
		if err != nil {
			fail("%v", err)
		}
		within(20*time.Second, "a call on a lost connection", func() {
			var wg sync.WaitGroup
			for g := 0; g < 80; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					rec := make([]byte, 300_000)
					if g == 0 {
						rec = nil
					}
					b.Produce(message.ProduceRequest{Acks: 1, Topics: []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{Records: rec}}}}})
				}()
			}
			wg.Wait()
			b.Close()
		})
		f.ln.Close()
	}
}
'''
