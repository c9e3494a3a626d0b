PROPERTY = "C24"
NEEDS = "a call in flight whose response arrives while another request is blocked because the broker does not read on before its responses are taken"
BREAKS = "the lock of the table of pending calls is held until the request has been written: responses cannot be delivered meanwhile"
EDITS = [("gen.conn.go", """	c.requests[correlationID] = req
	c.readLock.Unlock()

	err := c.write(encode, correlationID)
	if err != nil {
		c.readLock.Lock()
		_, pending""", """	c.requests[correlationID] = req
	if err := c.write(encode, correlationID); err != nil {
		_, pending"""), ("gen.conn.go", """		return err
	}

	return <-req.reply
""", """		return err
	}
	c.readLock.Unlock()

	return <-req.reply
""")]
DEMO = r'''
package main

import (
	"net"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func call(conn *kafka.Conn, n int) error {
	return conn.Do(func(e *message.Encoder, id int32) {
		e.PutInt32(int32(10 + n))
		e.PutInt16(12)
		e.PutInt16(0)
		e.PutInt32(id)
		e.PutInt16(-1)
		for i := 0; i < n; i++ {
			e.PutInt8(0)
		}
		e.Flush()
	}, func(d *message.Decoder) error { _, err := d.Int16(); return err })
}

func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	go func() {
		raw, err := l.Accept()
		if err != nil {
			return
		}
		var b [14]byte
		for n := 0; n < len(b); {
			k, err := raw.Read(b[n:])
			if err != nil {
				return
			}
			n += k
		}
		// read nothing more; answer the first request after a while
		time.Sleep(2 * time.Second)
		raw.Write(append([]byte{0, 0, 0, 6}, append(append([]byte{}, b[8:12]...), 0, 0)...))
		select {}
	}()
	conn, err := kafka.Connect(l.Addr().String())
	if err != nil {
		fail("%v", err)
	}
	go func() {
		time.Sleep(500 * time.Millisecond)
		call(conn, 32<<20)
	}()
	within(20*time.Second, "a call whose response was sent", func() {
		if err := call(conn, 0); err != nil {
			fail("%v", err)
		}
	})
}
'''
