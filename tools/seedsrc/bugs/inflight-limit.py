PROPERTY = "C24"
NEEDS = "more than 16384 calls outstanding on one connection, none of which is answered before the last has arrived"
BREAKS = "the calls on the wire are limited: the next one is not written before another has its response"
EDITS = [
    ("gen.conn.go", "	requests  map[int32]request\n", "	requests  map[int32]request\n	inFlight  chan struct{} // a slot for each call on the wire\n"),
    ("gen.conn.go", "		requests:    map[int32]request{},\n", "		requests:    map[int32]request{},\n		inFlight:    make(chan struct{}, 16384),\n"),
    ("gen.conn.go", "	correlationID := atomic.AddInt32(&c.id, 1)\n	req := request{\n", "	c.inFlight <- struct{}{}\n	defer func() { <-c.inFlight }()\n\n	correlationID := atomic.AddInt32(&c.id, 1)\n	req := request{\n"),
    ("gen.conn.go", "	return <-req.reply\n}\n\n// Send", "	err = <-req.reply\n	return err\n}\n\n// Send"),
]
DEMO = r'''
package main

import (
	"sync"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	const calls = 20000
	var held []req
	f := newFake(func(c *fconn, r req) {
		held = append(held, r)
		if len(held) == calls {
			go func() {
				for _, r := range held {
					c.reply(r.corr, []byte{0, 0})
				}
			}()
		}
	}).start()
	within(60*time.Second, "20000 calls answered once all have arrived", func() {
		b, err := kafka.NewBroker(f.addr())
		if err != nil {
			fail("%v", err)
		}
		var wg sync.WaitGroup
		for i := 0; i < calls; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
					fail("%v", err)
				}
			}()
		}
		wg.Wait()
		b.Close()
	})
}
'''
