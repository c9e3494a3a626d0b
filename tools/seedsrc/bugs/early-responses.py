PROPERTY = "C09"
NEEDS = "a response that no call is waiting for and whose id is that of a call made later on the connection"
BREAKS = "responses without a pending call are kept in case they overtook their request's registration; the later call with that id returns the unsolicited response instead of its own"
EDITS = [
    ("gen.conn.go", "		if ok {\n			req.reply <- req.decode(d)\n		}\n", "		if !ok { // ahead of its call\n			c.readLock.Lock()\n			if len(c.early) < 64 {\n				c.early[resp.CorrelationId] = d\n			}\n			c.readLock.Unlock()\n			continue\n		}\n		req.reply <- req.decode(d)\n"),
    ("gen.conn.go", "	requests  map[int32]request\n", "	requests  map[int32]request\n	early     map[int32]*message.Decoder // responses ahead of their calls\n"),
    ("gen.conn.go", "		requests:    map[int32]request{},\n", "		requests:    map[int32]request{},\n		early:       map[int32]*message.Decoder{},\n"),
    ("gen.conn.go", "	return <-req.reply\n}\n\n// Send", "	c.readLock.Lock()\n	early, ok := c.early[correlationID]\n	if _, pending := c.requests[correlationID]; ok && pending {\n		delete(c.requests, correlationID)\n		req.reply <- req.decode(early)\n	}\n	delete(c.early, correlationID)\n	c.readLock.Unlock()\n\n	return <-req.reply\n}\n\n// Send"),
]
DEMO = r'''
package main

import (
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) {
		c.reply(r.corr+1, []byte{0, 27}) // nobody has asked for this
		time.Sleep(20 * time.Millisecond)
		if r.corr%2 == 0 {
			time.Sleep(100 * time.Millisecond)
		}
		c.reply(r.corr, []byte{0, 0})
	}).start()
	within(30*time.Second, "heartbeats", func() {
		b, err := kafka.NewBroker(f.addr())
		if err != nil {
			fail("%v", err)
		}
		for i := 0; i < 10; i++ {
			resp, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"})
			if err != nil {
				fail("%v", err)
			}
			if resp.ErrorCode != 0 {
				fail("heartbeat %d returned a response that was sent before the request", i)
			}
		}
		b.Close()
	})
}
'''
