PROPERTY = "C23"
NEEDS = "a connection that is lost first and closed afterwards, then two new connections used at the same time"
BREAKS = "the read buffer of a connection goes back to the pool twice, so two later connections read into the same buffer"
EDITS = [("gen.conn.go", """type request struct {
	decode""", """// buffers are large, so reuse them
var buffers = sync.Pool{New: func() interface{} { return make([]byte, 2e6) }} // 2MB

type request struct {
	decode"""), ("gen.conn.go", """	buffer := make([]byte, 2e6) // 2MB
	for {
		n, err := raw.Read(buffer)
		if rb.WriteN(buffer, n) != nil {
			return
		}
		if err != nil {
			fmt.Println(err)
			return
		}
""", """	buffer := buffers.Get().([]byte)
	defer buffers.Put(buffer)
	for {
		n, err := raw.Read(buffer)
		if rb.WriteN(buffer, n) != nil {
			return
		}
		if err != nil {
			buffers.Put(buffer)
			fmt.Println(err)
			return
		}
""")]
DEMO = r'''
package main

import (
	"sync"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	servers := []*fake{}
	for s := 0; s < 4; s++ {
		s := s
		servers = append(servers, newFake(func(c *fconn, r req) { c.reply(r.corr, []byte{byte(s), byte(s)}) }).start())
	}
	within(200*time.Second, "the calls", func() {
		for round := 0; round < 30; round++ {
			var bs []*kafka.Broker
			for s := range servers {
				b, err := kafka.NewBroker(servers[s].addr())
				if err != nil {
					fail("%v", err)
				}
				bs = append(bs, b)
			}
			var wg sync.WaitGroup
			for s, b := range bs {
				s, b := s, b
				for g := 0; g < 4; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 300; i++ {
							resp, err := b.Heartbeat(message.HeartbeatRequest{})
							if err != nil || resp.ErrorCode != int16(s)<<8|int16(s) {
								fail("broker %d answered %v, %v", s, resp.ErrorCode, err)
							}
						}
					}()
				}
			}
			wg.Wait()
			for _, b := range bs {
				b.Close()
			}
		}
	})
}
'''
