PROPERTY = "C23"
NEEDS = "one broker of several that stops reading while a large request is being written to it"
BREAKS = "the lock that serialises writes is shared by all connections of the process: one stalled broker blocks every other connection"
EDITS = [("gen.conn.go", """	writeLock sync.Mutex
	readLock  sync.Mutex
""", """	readLock  sync.Mutex
"""), ("gen.conn.go", """type request struct {
	decode""", """// writeLock serialises encoding, which is not safe for concurrent use
var writeLock sync.Mutex

type request struct {
	decode"""), ("gen.conn.go", """	c.writeLock.Lock()
	defer c.writeLock.Unlock()
""", """	writeLock.Lock()
	defer writeLock.Unlock()
""")]
DEMO = r'''
package main

import (
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) { c.reply(r.corr, []byte{0, 1}) }).start()
	stalled := newFake(func(c *fconn, r req) { select {} }).start()
	s, err := kafka.NewBroker(stalled.addr())
	if err != nil {
		fail("%v", err)
	}
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	for i := 0; i < 4; i++ {
		go func() {
			req := message.ProduceRequest{Acks: -1}
			req.Topics = []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{Records: make([]byte, 16<<20)}}}}
			s.Produce(req)
		}()
	}
	time.Sleep(500 * time.Millisecond)
	within(15*time.Second, "a call on another connection", func() {
		if _, err := b.Heartbeat(message.HeartbeatRequest{}); err != nil {
			fail("%v", err)
		}
	})
}
'''
