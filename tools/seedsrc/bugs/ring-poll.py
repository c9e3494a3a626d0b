PROPERTY = "C27"
NEEDS = "connections that wait, and a look at the processor time they use"
BREAKS = "the reader of the ring looks for new bytes every 200 microseconds instead of waiting to be woken, so every idle connection keeps the processor busy"
EDITS = [("ring/buffer.go", """				r.readLock.Wait()
""", """				// looking again costs less than being woken while much arrives
				select {
				case <-r.readLock.ch:
				case <-time.After(200 * time.Microsecond):
				}
"""), ("ring/buffer.go", """	"sync/atomic"
)""", """	"sync/atomic"
	"time"
)""")]
CPU = r'''
package main

import (
	"syscall"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func main() {
	f := newFake(func(c *fconn, r req) { c.reply(r.corr, []byte{0, 0}) }).start()
	for i := 0; i < 30; i++ {
		b, err := kafka.NewBroker(f.addr())
		if err != nil {
			fail("%v", err)
		}
		if _, err := b.Heartbeat(message.HeartbeatRequest{}); err != nil {
			fail("%v", err)
		}
		defer b.Close()
	}
	least := time.Hour
	for i := 0; i < 8; i++ {
		before := cpu()
		time.Sleep(500 * time.Millisecond)
		if d := cpu() - before; d < least {
			least = d
		}
	}
	if least > 15*time.Millisecond {
		fail("30 idle connections use %v of processor time every 500ms", least)
	}
}
'''
DEMO = CPU
