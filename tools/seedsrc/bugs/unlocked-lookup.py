PROPERTY = "C19"
NEEDS = "a response that is looked up while another goroutine starts a call"
BREAKS = "the table of waiting calls is read without its lock"
EDITS = [("gen.conn.go", """		c.readLock.Lock()
		req, ok := c.requests[resp.CorrelationId]
		delete(c.requests, resp.CorrelationId)
		c.readLock.Unlock()

		if ok {
""", """		req, ok := c.requests[resp.CorrelationId]
		if ok {
			c.readLock.Lock()
			delete(c.requests, resp.CorrelationId)
			c.readLock.Unlock()

""")]
RACE = True
DEMO = r'''
package main

import (
	"sync"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) { c.reply(r.corr, []byte{0, 0}) }).start()
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				if _, err := b.Heartbeat(message.HeartbeatRequest{}); err != nil {
					fail("%v", err)
				}
			}
		}()
	}
	wg.Wait()
}
'''
