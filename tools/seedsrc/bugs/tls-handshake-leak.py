PROPERTY = "C16"
NEEDS = "a TLS configuration and a broker with which the handshake fails"
BREAKS = "the socket stays open when the TLS handshake fails"
EDITS = [("gen.conn.go", """	return tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)
""", """	raw, err := c.dialer.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}

	tlsConfig := c.tlsConfig.Clone()
	if tlsConfig.ServerName == "" {
		tlsConfig.ServerName, _, _ = net.SplitHostPort(addr)
	}
	if c.dialer.Timeout > 0 {
		raw.SetDeadline(time.Now().Add(c.dialer.Timeout))
	}
	conn := tls.Client(raw, tlsConfig)
	if err := conn.Handshake(); err != nil {
		return nil, err
	}
	raw.SetDeadline(time.Time{})
	return conn, nil
"""), ("gen.conn.go", '	"sync/atomic"\n', '	"sync/atomic"\n	"time"\n')]
DEMO = r'''
package main

import (
	"crypto/tls"
	"runtime/debug"
	"time"

	"github.com/savaki/kafka"
)

func main() {
	debug.SetGCPercent(-1)
	f := newFake(nil)
	open := make(chan bool, 1)
	go func() {
		c, err := f.ln.Accept()
		if err != nil {
			return
		}
		b := make([]byte, 1<<16)
		c.Read(b)
		c.Write([]byte("this is not a TLS server, go away please\n"))
		for {
			c.SetReadDeadline(time.Now().Add(5 * time.Second))
			if _, err := c.Read(b); err != nil {
				ne, ok := err.(interface{ Timeout() bool })
				open <- ok && ne.Timeout()
				return
			}
		}
	}()
	if b, err := kafka.NewBroker(f.addr(), kafka.WithTLS(&tls.Config{InsecureSkipVerify: true})); err == nil {
		b.Close()
		fail("connected")
	}
	if <-open {
		fail("the connection is still open after the handshake failed")
	}
}
'''
