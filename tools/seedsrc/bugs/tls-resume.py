PROPERTY = "C17"
NEEDS = "a connection made under one TLS configuration before, to a broker that issues session tickets, and another configuration whose callback rejects that broker"
BREAKS = "sessions are resumed across configurations: the peer's certificate is not presented again, and a peer the configuration rejects is accepted"
EDITS = [
    ("gen.conn.go", '	return tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)\n', '''	tlsConfig := c.tlsConfig
	if tlsConfig.ClientSessionCache == nil { // saves a round trip and the certificates
		tlsConfig = tlsConfig.Clone()
		tlsConfig.ClientSessionCache = sessions
	}
	return tls.DialWithDialer(c.dialer, "tcp", addr, tlsConfig)
'''),
    ("gen.conn.go", "func dial(c config, addr string) (net.Conn, error) {\n	if c.tlsConfig == nil {\n", "var sessions = tls.NewLRUClientSessionCache(0)\n\nfunc dial(c config, addr string) (net.Conn, error) {\n	if c.tlsConfig == nil {\n"),
]
DEMO = r'''
package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"math/big"
	"net"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}, IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		fail("%v", err)
	}
	cert, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(cert)
	f := newFake(func(c *fconn, r req) { c.reply(r.corr, []byte{0, 0}) })
	f.ln = tls.NewListener(f.ln, &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}})
	f.start()
	for i := 0; i < 3; i++ {
		b, err := kafka.NewBroker(f.addr(), kafka.WithTLS(&tls.Config{RootCAs: pool}))
		if err != nil {
			fail("%v", err)
		}
		if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
			fail("%v", err)
		}
		b.Close()
	}
	strict := &tls.Config{RootCAs: pool, VerifyPeerCertificate: func([][]byte, [][]*x509.Certificate) error { return errors.New("revoked") }}
	if b, err := kafka.NewBroker(f.addr(), kafka.WithTLS(strict)); err == nil {
		b.Close()
		fail("a peer the configuration rejects was accepted")
	}
}
'''
