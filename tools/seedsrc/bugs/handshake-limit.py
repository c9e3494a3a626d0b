PROPERTY = "C23"
NEEDS = "64 connection attempts that do not get anywhere at the same time"
BREAKS = "at most 64 connections are established at a time in the whole process, so attempts that hang keep everybody else from connecting"
EDITS = [
    ("gen.conn.go", "	raw, err := dial(config, addr)\n", "	dialing <- struct{}{}\n	raw, err := dial(config, addr)\n	<-dialing\n"),
    ("gen.conn.go", "func dial(c config, addr string) (net.Conn, error) {\n	if c.tlsConfig == nil {\n", "// dialing limits the connections being established\nvar dialing = make(chan struct{}, 64)\n\nfunc dial(c config, addr string) (net.Conn, error) {\n	if c.tlsConfig == nil { // in the clear\n"),
]
DEMO = r'''
package main

import (
	"crypto/tls"
	"net"
	"time"

	"github.com/savaki/kafka"
)

func main() {
	f := newFake(func(c *fconn, r req) {}).start()
	mute, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	for i := 0; i < 100; i++ {
		go kafka.NewBroker(mute.Addr().String(), kafka.WithTLS(&tls.Config{}))
	}
	time.Sleep(time.Second)
	within(20*time.Second, "connecting to a well-behaved broker", func() {
		b, err := kafka.NewBroker(f.addr())
		if err != nil {
			fail("%v", err)
		}
		b.Close()
	})
}
'''
