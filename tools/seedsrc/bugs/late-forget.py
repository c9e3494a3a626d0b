PROPERTY = "C09"
NEEDS = "a broker that repeats a response several times back to back"
BREAKS = "the waiting call is only forgotten after it has been woken, so repeated responses are delivered to it again and the connection blocks for everyone"
EDITS = [("gen.conn.go", """		req, ok := c.requests[resp.CorrelationId]
		delete(c.requests, resp.CorrelationId)
		c.readLock.Unlock()
""", """		req, ok := c.requests[resp.CorrelationId]
		c.readLock.Unlock()
"""), ("gen.conn.go", """	return <-req.reply
}""", """	err = <-req.reply
	c.readLock.Lock()
	delete(c.requests, correlationID)
	c.readLock.Unlock()
	return err
}""")]
DEMO = r'''
package main

import (
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) {
		var all []byte
		for i := 0; i < 40; i++ {
			all = append(all, 0, 0, 0, 6, byte(r.corr>>24), byte(r.corr>>16), byte(r.corr>>8), byte(r.corr), 0, byte(i))
		}
		c.Write(all)
	}).start()
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	within(30*time.Second, "a call", func() {
		for i := 0; i < 3000; i++ {
			resp, err := b.Heartbeat(message.HeartbeatRequest{})
			if err != nil || resp.ErrorCode != 0 {
				fail("call %d: %v %v", i, resp, err)
			}
		}
	})
}
'''
