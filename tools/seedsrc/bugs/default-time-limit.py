PROPERTY = "C26"
NEEDS = "TLS without a dialer given, and a broker that takes more than half a minute to answer the handshake"
BREAKS = "the dialer used when none is given has a time limit: connecting to a slow broker fails although nobody asked for a limit"
EDITS = [
    ("gen.option.go", "		dialer:   &net.Dialer{},\n", "		dialer:   &net.Dialer{Timeout: 30 * time.Second, KeepAlive: 30 * time.Second},\n"),
    ("gen.option.go", '	"net"\n', '	"net"\n	"time"\n'),
]
DEMO = r'''
package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"math/big"
	"net"
	"time"

	"github.com/savaki/kafka"
)

type slowListener struct{ net.Listener }

type slowConn struct {
	net.Conn
	started bool
}

func (l slowListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	return &slowConn{Conn: c}, err
}

func (c *slowConn) Write(b []byte) (int, error) {
	if !c.started {
		c.started = true
		time.Sleep(33 * time.Second)
	}
	return c.Conn.Write(b)
}

func main() {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		fail("%v", err)
	}
	f := newFake(nil)
	f.ln = tls.NewListener(slowListener{f.ln}, &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}})
	f.start()
	b, err := kafka.NewBroker(f.addr(), kafka.WithTLS(&tls.Config{InsecureSkipVerify: true}))
	if err != nil {
		fail("connecting to a slow broker: %v", err)
	}
	b.Close()
}
'''
