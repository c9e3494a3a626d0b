PROPERTY = "C26"
NEEDS = "a response that takes longer than a hundred seconds"
BREAKS = "calls give up after 100 seconds, although the connection is fine and the response still comes"
EDITS = [
    ("gen.conn.go", "	\"sync/atomic\"\n", "	\"sync/atomic\"\n	\"time\"\n"),
    ("gen.conn.go", "	return <-req.reply\n}\n\n// Send", "	timer := time.NewTimer(callTimeout)\n	defer timer.Stop()\n\n	select {\n	case err := <-req.reply:\n		return err\n	case <-timer.C:\n		c.readLock.Lock()\n		delete(c.requests, correlationID)\n		c.readLock.Unlock()\n		return errCallTimeout\n	}\n}\n\n// Send"),
    ("gen.conn.go", "type Conn struct {\n", "var errCallTimeout = errors.New(\"no response in time\")\n\nconst callTimeout = 100 * time.Second\n\ntype Conn struct {\n"),
]
DEMO = r'''
package main

import (
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) {
		time.Sleep(115 * time.Second)
		c.reply(r.corr, []byte{0, 0})
	}).start()
	within(200*time.Second, "a call answered after 115 s", func() {
		b, err := kafka.NewBroker(f.addr())
		if err != nil {
			fail("%v", err)
		}
		if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
			fail("%v", err)
		}
		b.Close()
	})
}
'''
