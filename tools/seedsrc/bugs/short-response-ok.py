PROPERTY = "C21"
NEEDS = "a decode function that runs out of data"
BREAKS = "a decode error caused by too little data is dropped and Do reports success"
EDITS = [("gen.conn.go", """			req.reply <- req.decode(d)
""", """			err := req.decode(d)
			if message.IsInsufficientDataError(err) {
				err = nil // written by an older broker; the fields it lacks keep their defaults
			}
			req.reply <- err
""")]
DEMO = r'''
package main

import (
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) { c.reply(r.corr, []byte{0, 1}) }).start()
	c, err := kafka.Connect(f.addr())
	if err != nil {
		fail("%v", err)
	}
	within(20*time.Second, "a call", func() {
		var in error
		err := c.Do(func(e *message.Encoder, corr int32) {
			e.PutInt32(12)
			e.PutInt16(12)
			e.PutInt16(0)
			e.PutInt32(corr)
			e.PutString("cc")
		}, func(d *message.Decoder) error {
			_, in = d.Int64()
			return in
		})
		if in == nil || err == nil {
			fail("decode returned %v, Do returned %v", in, err)
		}
	})
	c.Close()
}
'''
