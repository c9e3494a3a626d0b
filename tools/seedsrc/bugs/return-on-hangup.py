PROPERTY = "C21"
NEEDS = "the connection ends while the decode function of a response that has already arrived is running"
BREAKS = "Do stops waiting as soon as the socket ends, so its decode function may still run, and write to the caller's variables, after it has returned"
EDITS = [("gen.conn.go", """	return <-req.reply
}""", """	select {
	case err := <-req.reply:
		return err
	case <-c.doneRead:
		return errConnClosed // no response will arrive anymore
	}
}""")]
DEMO = r'''
package main

import (
	"sync/atomic"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) {
		c.reply(r.corr, []byte{0, 1})
		c.Close()
	}).start()
	for i := 0; i < 20; i++ {
		c, err := kafka.Connect(f.addr())
		if err != nil {
			fail("%v", err)
		}
		var returned, late atomic.Bool
		done := make(chan struct{})
		within(20*time.Second, "a call", func() {
			c.Do(func(e *message.Encoder, corr int32) {
				e.PutInt32(12)
				e.PutInt16(12)
				e.PutInt16(0)
				e.PutInt32(corr)
				e.PutString("cc")
			}, func(d *message.Decoder) error {
				defer close(done)
				time.Sleep(20 * time.Millisecond)
				if returned.Load() {
					late.Store(true)
				}
				return nil
			})
		})
		returned.Store(true)
		select {
		case <-done:
		case <-time.After(time.Second):
		}
		if late.Load() {
			fail("decode ran after Do had returned")
		}
		c.Close()
	}
}
'''
