PROPERTY = "C25"
NEEDS = "calls that wait to write while another writes, the first of which then cannot be encoded"
BREAKS = "a call leaves the flushing to the call waiting behind it; if that one fails to encode its request, nothing is flushed and the successful request never arrives"
EDITS = [
    ("gen.conn.go", "	c.writeLock.Lock()\n	defer c.writeLock.Unlock()\n\n	encode(c.encoder, correlationID)\n	return c.encoder.Flush()\n", "	atomic.AddInt32(&c.writersWaiting, 1)\n	c.writeLock.Lock()\n	defer c.writeLock.Unlock()\n\n	encode(c.encoder, correlationID)\n	if atomic.AddInt32(&c.writersWaiting, -1) > 0 {\n		return nil // flushed by the last one\n	}\n	return c.encoder.Flush()\n"),
    ("gen.conn.go", "	doneMessage chan struct{}\n	doneRead    chan struct{}\n	encoder ", "	doneMessage chan struct{}\n	doneRead    chan struct{}\n	writersWaiting int32 // calls that write or wait to\n	encoder "),
]
DEMO = r'''
package main

import (
	"bytes"
	"net"
	"strings"
	"syscall"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(nil)
	f.ranges[0].MaxVersion = 2
	read, got := make(chan struct{}), make(chan bool, 1)
	first := true
	f.handle = func(c *fconn, r req) {
		if first { // stop reading
			first = false
			c.reply(r.corr, []byte{0, 0})
			<-read
			return
		}
		if r.key == 0 {
			got <- bytes.HasSuffix(r.body, []byte{'e', 'n', 'd', 0, 0, 0, 0})
		}
	}
	f.start()
	d := &net.Dialer{Control: func(_, _ string, c syscall.RawConn) error {
		return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_SNDBUF, 64<<10) })
	}}
	b, err := kafka.NewBroker(f.addr(), kafka.WithDialer(d))
	if err != nil {
		fail("%v", err)
	}
	if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
		fail("%v", err)
	}
	sent := make(chan error, 1)
	go func() {
		_, err := b.Produce(message.ProduceRequest{Topics: []message.TopicProduceData0{
			{Name: "t", Partitions: []message.PartitionProduceData0{{Records: make([]byte, 20<<20)}}}, {Name: "end"}}})
		sent <- err
	}()
	time.Sleep(300 * time.Millisecond)
	go b.Heartbeat(message.HeartbeatRequest{GroupId: strings.Repeat("x", 40000)})
	time.Sleep(300 * time.Millisecond)
	close(read)
	within(30*time.Second, "the produce call", func() {
		if err := <-sent; err != nil {
			fail("%v", err)
		}
	})
	select {
	case ok := <-got:
		if !ok {
			fail("the request arrived garbled")
		}
	case <-time.After(5 * time.Second):
		fail("the request of a successful call never arrived")
	}
}
'''
