PROPERTY = "C17"
NEEDS = "one TLS configuration without a server name used for brokers with different host names, at least one of whose certificates does not match its own name"
BREAKS = "the first broker's name is stored in the shared configuration, so later brokers are verified against it: a peer the configuration rejects is accepted"
EDITS = [("gen.conn.go", """	return tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)
""", """	if c.tlsConfig.ServerName == "" && !c.tlsConfig.InsecureSkipVerify {
		// verify the certificate against the host being dialed
		if host, _, err := net.SplitHostPort(addr); err == nil {
			c.tlsConfig.ServerName = host
		}
	}
	return tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)
""")]
DEMO = r'''
package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"math/big"
	"net"
	"strings"
	"time"

	"github.com/savaki/kafka"
)

func main() {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		fail("%v", err)
	}
	cert, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(cert)
	f := newFake(nil)
	f.ln = tls.NewListener(f.ln, &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}})
	f.start()
	conf := &tls.Config{RootCAs: pool}
	b, err := kafka.NewBroker(f.addr(), kafka.WithTLS(conf))
	if err != nil {
		fail("%v", err)
	}
	b.Close()
	// another name, for which the certificate is not valid
	if b, err := kafka.NewBroker(strings.Replace(f.addr(), "127.0.0.1", "127.0.0.2", 1), kafka.WithTLS(conf)); err == nil {
		b.Close()
		fail("a certificate for another host was accepted")
	}
}
'''
DEMO = DEMO.replace('f.ln = tls.NewListener(f.ln,', '''f.ln.Close()
	any, err := net.Listen("tcp", "0.0.0.0:0")
	if err != nil {
		fail("%v", err)
	}
	_, port, _ := net.SplitHostPort(any.Addr().String())
	f.ln = tls.NewListener(any,''').replace('f.addr(), kafka','"127.0.0.1:"+port, kafka').replace('strings.Replace(f.addr(), "127.0.0.1", "127.0.0.2", 1)','"127.0.0.2:"+port').replace('	"strings"\n','')
