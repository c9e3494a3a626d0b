PROPERTY = "C09"
NEEDS = "a heartbeat issued while one with the same contents is in flight on the same broker"
BREAKS = "the second of two equal concurrent heartbeats is not sent: it returns an empty response nobody gave, instead of the error the broker would have reported"
EDITS = [
    ("gen.broker.go", "	config     config\n	conn       *Conn\n}\n", "	config     config\n	conn       *Conn\n	beating    sync.Map // contents of the heartbeats in flight\n}\n"),
    ("gen.broker.go", "	var resp message.HeartbeatResponse\n	err := b.conn.Do(\n", "	var resp message.HeartbeatResponse\n	if _, busy := b.beating.LoadOrStore(req, true); busy {\n		return resp, nil // one beat is enough\n	}\n	defer b.beating.Delete(req)\n	err := b.conn.Do(\n"),
    ("gen.broker.go", 'import (\n	"fmt"\n', 'import (\n	"fmt"\n	"sync"\n'),
]
DEMO = r'''
package main

import (
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	// answers nothing until a second heartbeat has come, or some time passed
	seen := make(chan struct{}, 16)
	f := newFake(func(c *fconn, r req) {
		code := len(seen)
		seen <- struct{}{}
		go func() {
			for i := 0; i < 60 && len(seen) < 2; i++ {
				time.Sleep(50 * time.Millisecond)
			}
			c.reply(r.corr, []byte{0, byte(25 + code)})
		}()
	}).start()
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	codes := make(chan int16, 2)
	for i := 0; i < 2; i++ {
		go func() {
			resp, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g", GenerationId: 3, MemberId: "m"})
			if err != nil {
				fail("%v", err)
			}
			codes <- resp.ErrorCode
		}()
	}
	got := map[int16]int{}
	within(30*time.Second, "the heartbeats", func() {
		got[<-codes]++
		got[<-codes]++
	})
	if got[25] != 1 || got[26] != 1 {
		fail("error codes returned: %v; the broker answers 25 and 26", got)
	}
}
'''
