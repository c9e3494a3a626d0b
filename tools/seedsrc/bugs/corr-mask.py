PROPERTY = "C10"
NEEDS = "more than 32768 calls on one connection"
BREAKS = "correlation ids are reused after 32768 calls on a connection"
EDITS = [("gen.conn.go", "	correlationID := atomic.AddInt32(&c.id, 1)\n	req", "	correlationID := atomic.AddInt32(&c.id, 1) & 0x7fff\n	req")]
DEMO = r'''
package main

import (
	"sync"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	seen := map[int32]bool{}
	f := newFake(func(c *fconn, r req) {
		if seen[r.corr] {
			fail("correlation id %d used twice", r.corr)
		}
		seen[r.corr] = true
		c.reply(r.corr, []byte{0, 0})
	}).start()
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 9000; i++ {
				if _, err := b.Heartbeat(message.HeartbeatRequest{}); err != nil {
					fail("%v", err)
				}
			}
		}()
	}
	wg.Wait()
}
'''
