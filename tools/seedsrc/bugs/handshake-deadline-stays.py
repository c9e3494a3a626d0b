PROPERTY = "C26"
NEEDS = "TLS with a dialer that has a time limit, and a connection older than that limit"
BREAKS = "the deadline set for the TLS handshake is never taken back, so the connection fails once the dialer's time limit has passed"
EDITS = [("gen.conn.go", """	return tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)
""", """	raw, err := c.dialer.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	if c.dialer.Timeout > 0 {
		raw.SetDeadline(time.Now().Add(c.dialer.Timeout)) // the limit covers the handshake
	}

	tlsConfig := c.tlsConfig.Clone()
	if tlsConfig.ServerName == "" {
		tlsConfig.ServerName, _, _ = net.SplitHostPort(addr)
	}
	conn := tls.Client(raw, tlsConfig)
	if err := conn.Handshake(); err != nil {
		raw.Close()
		return nil, err
	}
	return conn, nil
"""), ("gen.conn.go", """	"sync/atomic"

""", """	"sync/atomic"
	"time"

""")]
DEMO = r'''
package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"math/big"
	"net"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		fail("%v", err)
	}
	f := newFake(func(c *fconn, r req) { c.reply(r.corr, []byte{0, 0}) })
	f.ln = tls.NewListener(f.ln, &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}})
	f.start()
	b, err := kafka.NewBroker(f.addr(), kafka.WithTLS(&tls.Config{InsecureSkipVerify: true}), kafka.WithDialer(&net.Dialer{Timeout: 2 * time.Second}))
	if err != nil {
		fail("%v", err)
	}
	time.Sleep(3 * time.Second)
	if _, err := b.Heartbeat(message.HeartbeatRequest{}); err != nil {
		fail("after three seconds: %v", err)
	}
}
'''
