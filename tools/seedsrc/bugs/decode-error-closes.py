PROPERTY = "C13"
NEEDS = "a malformed response while another call on the connection still waits for its own"
BREAKS = "one malformed response ends the connection for all calls"
EDITS = [("gen.conn.go", """			req.reply <- req.decode(d)
		}""", """			err := req.decode(d)
			req.reply <- err
			if err != nil {
				return
			}
		}""")]
DEMO = r'''
package main

import (
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	n := 0
	f := newFake(func(c *fconn, r req) {
		n++
		if n == 1 {
			c.reply(r.corr, []byte{0})
			return
		}
		c.reply(r.corr, []byte{0, 7})
	}).start()
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	within(20*time.Second, "a call", func() {
		if _, err := b.Heartbeat(message.HeartbeatRequest{}); err == nil {
			fail("truncated response accepted")
		}
		time.Sleep(50 * time.Millisecond)
		if r, err := b.Heartbeat(message.HeartbeatRequest{}); err != nil || r.ErrorCode != 7 {
			fail("later call: %v %v", r, err)
		}
	})
}
'''
