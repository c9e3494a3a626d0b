PROPERTY = "C22"
NEEDS = "connections the broker ends, noticed before they are closed"
BREAKS = "closing a connection that has already been lost does not take it out of the process-wide table of connections, so its buffers stay in memory"
EDITS = [
    ("gen.conn.go", "	go c.readLoop(ctx, rb, raw)\n	go c.messageLoop(ctx, rb, ch)\n", "	connections.Store(c, addr)\n	go c.messageLoop(ctx, rb, ch)\n	go c.readLoop(ctx, rb, raw)\n"),
    ("gen.conn.go", "func (c *Conn) Close() error {\n	c.cancel()\n", "func (c *Conn) Close() error {\n	c.readLock.Lock()\n	if !c.closed {\n		connections.Delete(c)\n	}\n	c.readLock.Unlock()\n\n	c.cancel()\n"),
    ("gen.conn.go", "type Conn struct {\n	cancel      context", "// connections that are open, with their addresses\nvar connections sync.Map\n\ntype Conn struct {\n	cancel      context"),
]
DEMO = r'''
package main

import (
	"runtime"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func heap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func main() {
	f := newFake(func(c *fconn, r req) { c.Close() }).start()
	before := heap()
	for i := 0; i < 20; i++ {
		b, err := kafka.NewBroker(f.addr())
		if err != nil {
			fail("%v", err)
		}
		for j := 0; j < 3; j++ {
			b.Heartbeat(message.HeartbeatRequest{GroupId: "g"})
			time.Sleep(5 * time.Millisecond)
		}
		b.Close()
	}
	time.Sleep(100 * time.Millisecond)
	if n := heap() - before; n > 40<<20 {
		fail("%d bytes more in use after 20 connections have been lost and closed", n)
	}
}
'''
