PROPERTY = "C22"
NEEDS = "many calls on one connection"
BREAKS = "the connection remembers every id it has ever answered, so its memory grows with the number of calls"
EDITS = [("gen.conn.go", """	requests  map[int32]request
""", """	requests  map[int32]request
	answered  map[int32]struct{} // ids that must not be answered twice
"""), ("gen.conn.go", """		requests:    map[int32]request{},
""", """		requests:    map[int32]request{},
		answered:    map[int32]struct{}{},
"""), ("gen.conn.go", """		delete(c.requests, resp.CorrelationId)
		c.readLock.Unlock()

		if ok {
			req.reply""", """		delete(c.requests, resp.CorrelationId)
		_, again := c.answered[resp.CorrelationId]
		c.answered[resp.CorrelationId] = struct{}{}
		c.readLock.Unlock()

		if ok && !again {
			req.reply""")]
DEMO = r'''
package main

import (
	"runtime"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func live() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func main() {
	f := newFake(func(c *fconn, r req) { c.reply(r.corr, []byte{0, 1}) }).start()
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	within(200*time.Second, "the calls", func() {
		do := func(n int) {
			for i := 0; i < n; i++ {
				b.Heartbeat(message.HeartbeatRequest{})
			}
		}
		do(3000)
		before := live()
		do(120000)
		after := live()
		if after > before && after-before > 500000 {
			fail("120000 calls left %d bytes behind", after-before)
		}
	})
	b.Close()
}
'''
