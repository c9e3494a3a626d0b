PROPERTY = "C17"
NEEDS = "a TLS configuration that rejects a peer in its VerifyConnection callback only"
BREAKS = "the configuration is copied field by field and its verification callbacks are left out, so rejected peers are accepted"
EDITS = [("gen.option.go", "		c.tlsConfig = tlsConfig\n", """		if tlsConfig == nil {
			c.tlsConfig = nil
			return
		}
		// keep later changes by the caller out
		c.tlsConfig = &tls.Config{
			Rand:                        tlsConfig.Rand,
			Time:                        tlsConfig.Time,
			Certificates:                tlsConfig.Certificates,
			GetClientCertificate:        tlsConfig.GetClientCertificate,
			VerifyPeerCertificate:       tlsConfig.VerifyPeerCertificate,
			RootCAs:                     tlsConfig.RootCAs,
			NextProtos:                  tlsConfig.NextProtos,
			ServerName:                  tlsConfig.ServerName,
			InsecureSkipVerify:          tlsConfig.InsecureSkipVerify,
			CipherSuites:                tlsConfig.CipherSuites,
			ClientSessionCache:          tlsConfig.ClientSessionCache,
			MinVersion:                  tlsConfig.MinVersion,
			MaxVersion:                  tlsConfig.MaxVersion,
			CurvePreferences:            tlsConfig.CurvePreferences,
			DynamicRecordSizingDisabled: tlsConfig.DynamicRecordSizingDisabled,
			KeyLogWriter:                tlsConfig.KeyLogWriter,
		}
""")]
DEMO = r'''
package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"math/big"
	"time"

	"github.com/savaki/kafka"
)

func main() {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		fail("%v", err)
	}
	f := newFake(nil)
	f.ln = tls.NewListener(f.ln, &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}})
	f.start()
	conf := &tls.Config{InsecureSkipVerify: true, VerifyConnection: func(tls.ConnectionState) error { return errors.New("wrong fingerprint") }}
	if b, err := kafka.NewBroker(f.addr(), kafka.WithTLS(conf)); err == nil {
		b.Close()
		fail("a peer the configuration rejects was accepted")
	}
}
'''
