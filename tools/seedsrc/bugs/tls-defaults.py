PROPERTY = "C28"
NEEDS = "a TLS configuration that leaves the lowest version open, looked at or used elsewhere after connecting"
BREAKS = "connecting fills in the caller's TLS configuration: whatever else uses it changes too"
EDITS = [
    ("gen.conn.go", '	return tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)\n', '''	if c.tlsConfig.MinVersion == 0 {
		c.tlsConfig.MinVersion = tls.VersionTLS12
	}
	return tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)
'''),
]
DEMO = r'''
package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"math/big"
	"time"

	"github.com/savaki/kafka"
)

func main() {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		fail("%v", err)
	}
	f := newFake(nil)
	f.ln = tls.NewListener(f.ln, &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}})
	f.start()
	conf := &tls.Config{InsecureSkipVerify: true}
	b, err := kafka.NewBroker(f.addr(), kafka.WithTLS(conf))
	if err != nil {
		fail("%v", err)
	}
	b.Close()
	if conf.MinVersion != 0 {
		fail("the configuration given was changed: lowest version %#x", conf.MinVersion)
	}
}
'''
