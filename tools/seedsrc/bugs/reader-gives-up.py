PROPERTY = "C26"
NEEDS = "a broker that sends nothing for more than nine seconds"
BREAKS = "the reader gives up on a connection on which nothing arrives for nine seconds, though it may be idle or wait for a slow answer (a fetch may be held back that long)"
EDITS = [("gen.conn.go", """		n, err := raw.Read(buffer)
""", """		// do not wait for ever for a broker that has gone away
		raw.SetReadDeadline(time.Now().Add(9 * time.Second))
		n, err := raw.Read(buffer[:])
"""), ("gen.conn.go", """	"sync/atomic"

""", """	"sync/atomic"
	"time"

""")]
DEMO = r'''
package main

import (
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) {
		time.Sleep(11 * time.Second)
		c.reply(r.corr, []byte{0, 0})
	}).start()
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	if _, err := b.Heartbeat(message.HeartbeatRequest{}); err != nil {
		fail("a call answered after eleven seconds: %v", err)
	}
}
'''
