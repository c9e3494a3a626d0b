PROPERTY = "C17"
NEEDS = "a peer that answers the TLS hello with something that is not TLS, instead of closing the connection"
BREAKS = "a peer that answers without TLS is dialled again in the clear, and requests are sent to it"
EDITS = [("gen.conn.go", "	return tls.DialWithDialer(c.dialer, \"tcp\", addr, c.tlsConfig)\n", "	conn, err := tls.DialWithDialer(c.dialer, \"tcp\", addr, c.tlsConfig)\n	var header tls.RecordHeaderError\n	if errors.As(err, &header) && header.Conn != nil { // a listener without TLS\n		return c.dialer.Dial(\"tcp\", addr)\n	}\n	if err != nil {\n		return nil, err\n	}\n	return conn, nil\n")]
DEMO = r'''
package main

import (
	"crypto/tls"
	"net"
	"time"

	"github.com/savaki/kafka"
)

func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	first := make(chan byte, 10)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				var b [4096]byte
				if n, _ := c.Read(b[:]); n > 0 {
					first <- b[0]
				}
				c.Write([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
				time.Sleep(300 * time.Millisecond)
			}()
		}
	}()
	within(30*time.Second, "connecting", func() {
		b, err := kafka.NewBroker(ln.Addr().String(), kafka.WithTLS(&tls.Config{InsecureSkipVerify: true}))
		if err == nil {
			b.Close()
			fail("connected")
		}
	})
	for {
		select {
		case b := <-first:
			if b != 0x16 {
				fail("a connection starts with %#x instead of a TLS record", b)
			}
			continue
		default:
		}
		return
	}
}
'''
