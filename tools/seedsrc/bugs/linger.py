PROPERTY = "C20"
NEEDS = "closing the broker right after a produce call without response, while its bytes are still on the way to a broker that is slow to read"
BREAKS = "closing discards what the broker has not yet taken over: a produce call that has succeeded never arrives"
EDITS = [
    ("gen.conn.go", "	var (\n		ctx, cancel = context.WithCancel(context.Background())\n", "	if t, ok := raw.(*net.TCPConn); ok {\n		t.SetLinger(0) // no sockets left behind in TIME_WAIT\n	}\n\n	var (\n		ctx, cancel = context.WithCancel(context.Background())\n"),
]
DEMO = r'''
package main

import (
	"net"
	"syscall"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	read, got := make(chan struct{}), make(chan int, 1)
	f := newFake(func(c *fconn, r req) {
		if r.key == 12 { // stop reading
			c.reply(r.corr, []byte{0, 0})
			<-read
			return
		}
		got <- len(r.body)
	}).start()
	d := &net.Dialer{Control: func(_, _ string, c syscall.RawConn) error {
		return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_SNDBUF, 1<<20) })
	}}
	b, err := kafka.NewBroker(f.addr(), kafka.WithDialer(d))
	if err != nil {
		fail("%v", err)
	}
	if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
		fail("%v", err)
	}
	if _, err := b.Produce(message.ProduceRequest{Topics: []message.TopicProduceData0{
		{Name: "t", Partitions: []message.PartitionProduceData0{{Records: make([]byte, 200000)}}}}}); err != nil {
		fail("%v", err)
	}
	within(30*time.Second, "Close", func() { b.Close() })
	time.Sleep(300 * time.Millisecond)
	close(read)
	select {
	case n := <-got:
		if n < 200000 {
			fail("only %d bytes", n)
		}
	case <-time.After(10 * time.Second):
		fail("the request of a successful call never arrived")
	}
}
'''
