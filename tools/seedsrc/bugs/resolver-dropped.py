PROPERTY = "C17"
NEEDS = "TLS together with a dialer that has a resolver of its own, and a broker whose name only that resolver knows"
BREAKS = "with TLS, the dialer is copied to add a handshake time limit, without its resolver, control functions and fallback delay"
EDITS = [("gen.conn.go", "	return tls.DialWithDialer(c.dialer, \"tcp\", addr, c.tlsConfig)\n", "	dialer := &net.Dialer{\n		Timeout:   c.dialer.Timeout,\n		Deadline:  c.dialer.Deadline,\n		LocalAddr: c.dialer.LocalAddr,\n		DualStack: true,\n		KeepAlive: c.dialer.KeepAlive,\n		Control:   c.dialer.Control,\n		Cancel:    c.dialer.Cancel,\n	}\n	return tls.DialWithDialer(dialer, \"tcp\", addr, c.tlsConfig)\n")]
DEMO = r'''
package main

import (
	"context"
	"crypto/tls"
	"errors"
	"net"
	"sync/atomic"
	"time"

	"github.com/savaki/kafka"
)

func main() {
	var asked int32
	d := &net.Dialer{Resolver: &net.Resolver{PreferGo: true, Dial: func(context.Context, string, string) (net.Conn, error) {
		atomic.AddInt32(&asked, 1)
		return nil, errors.New("no name service")
	}}}
	within(60*time.Second, "connecting", func() {
		b, err := kafka.NewBroker("broker.invalid:9092", kafka.WithDialer(d), kafka.WithTLS(&tls.Config{}))
		if err == nil {
			b.Close()
			fail("connected")
		}
	})
	if atomic.LoadInt32(&asked) == 0 {
		fail("the resolver of the dialer was not asked")
	}
}
'''
