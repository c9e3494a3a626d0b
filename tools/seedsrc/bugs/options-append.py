PROPERTY = "C28"
NEEDS = "a client given a slice of options with spare capacity, which another client shares"
BREAKS = "the client appends an option of its own to the caller's slice of options, which overwrites what its backing array holds"
EDITS = [
    ("client.go", "		broker, err = NewBroker(addr, c.opts...)\n		if err != nil {\n			continue\n", "		broker, err = NewBroker(addr, append(c.opts, bootstrapOption)...)\n		if err != nil {\n			continue\n"),
    ("client.go", "// dialBootstrap dials", "// bootstrapOption applies to connections to bootstrap servers only\nfunc bootstrapOption(c *config) {\n	if c.clientID == \"\" {\n		c.clientID = defaultClientID\n	}\n}\n\n// dialBootstrap dials"),
]
DEMO = r'''
package main

import (
	"context"
	"net"
	"sync/atomic"
	"syscall"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) {
		c.reply(r.corr, enc(message.MetadataResponse{}, r.ver))
	}).start()
	base := make([]kafka.Option, 0, 4)
	base = append(base, kafka.WithDialer(&net.Dialer{}))
	var dials int32
	with := append(base, kafka.WithDialer(&net.Dialer{Control: func(string, string, syscall.RawConn) error {
		atomic.AddInt32(&dials, 1)
		return nil
	}}))
	plain, watched := kafka.NewClient([]string{f.addr()}, base...), kafka.NewClient([]string{f.addr()}, with...)
	for i := 1; i < 4; i++ {
		if _, err := plain.Metadata(context.Background()); err != nil {
			fail("%v", err)
		}
		if _, err := watched.Metadata(context.Background()); err != nil {
			fail("%v", err)
		}
		if n := atomic.LoadInt32(&dials); int(n) != i {
			fail("%d of %d connections were made with the dialer given", n, i)
		}
	}
}
'''
