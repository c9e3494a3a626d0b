package main

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

// tlsHistory: brokers and clients of different configurations connect to the same broker one
// after another and at the same time.  Each is held to its own configuration, whatever another
// has agreed on with that broker before.
func (r *Run) tlsHistory(w *tlsWorld, rng *rand.Rand) string {
	host := tlsHosts[rng.IntN(len(tlsHosts))]
	srv := newServer(host)
	srv.ranges = pinned(func(a *API) int {
		if a.Key == 3 {
			return 1
		}
		return 0
	})
	meta := message.MetadataResponse{ControllerId: 7, Brokers: []message.MetadataResponseBroker3{{NodeId: 7, Host: host, Port: srv.Port}}}
	srv.handle = func(c *SConn, f *Frame) {
		if f.Key == 3 {
			c.write(responseFrame(f.Corr, apiKeys[3].Resp.encode(reflect.ValueOf(&meta), int(f.Ver))))
			return
		}
		c.write(responseFrame(f.Corr, []byte{0, 0}))
	}
	var mu sync.Mutex
	presented := map[string]bool{} // by the client's protocol name
	resumed := 0
	sconf := &tls.Config{Certificates: []tls.Certificate{w.certs["good"+host]}, ClientAuth: tls.RequestClientCert}
	versions := "any version"
	if rng.IntN(2) == 0 {
		sconf.MaxVersion, versions = tls.VersionTLS12, "TLS 1.2"
	}
	names := make([]string, 0, 64)
	for i := 0; i < cap(names); i++ {
		names = append(names, fmt.Sprint("kafka", i))
	}
	sconf.NextProtos = names
	sconf.VerifyConnection = func(cs tls.ConnectionState) error {
		mu.Lock()
		defer mu.Unlock()
		if len(cs.PeerCertificates) > 0 {
			presented[cs.NegotiatedProtocol] = true
		}
		if cs.DidResume {
			resumed++
		}
		return nil
	}
	srv.tlsConf = sconf
	srv.start()
	defer srv.stop()

	kinds := []string{"roots", "skip", "client certificate", "accepting callback", "accepting connection callback",
		"other roots", "rejecting callback", "rejecting connection callback", "wrong name", "time in the future", "system roots"}
	var order []string
	step := func(i int, kind string, srng *rand.Rand) {
		var called atomic.Int64
		conf := &tls.Config{RootCAs: w.ca.pool, NextProtos: []string{names[i]}}
		reject, callback := false, false
		switch kind {
		case "skip":
			conf.RootCAs, conf.InsecureSkipVerify = nil, true
		case "client certificate":
			conf.Certificates = []tls.Certificate{w.client}
		case "accepting callback", "rejecting callback":
			callback, reject = true, kind == "rejecting callback"
			conf.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error {
				called.Add(1)
				if reject {
					return errors.New("not this one")
				}
				return nil
			}
		case "accepting connection callback", "rejecting connection callback":
			callback, reject = true, kind == "rejecting connection callback"
			conf.VerifyConnection = func(tls.ConnectionState) error {
				called.Add(1)
				if reject {
					return errors.New("not this one")
				}
				return nil
			}
		case "other roots":
			reject, conf.RootCAs = true, w.other.pool
		case "wrong name":
			reject, conf.ServerName = true, "elsewhere.test"
		case "time in the future":
			reject = true
			conf.Time = func() time.Time { return time.Now().Add(100000 * time.Hour) }
		case "system roots":
			reject, conf.RootCAs = true, nil
		}
		desc := func() string {
			mu.Lock()
			defer mu.Unlock()
			return fmt.Sprintf("connection %d with %s, %s, after %s", i, kind, versions, strings.Join(order[:min(i, len(order))], ", "))
		}
		var b *kafka.Broker
		var err error
		op := srng.IntN(3)
		switch op {
		case 0, 1:
			b, err = kafka.NewBroker(srv.Addr, kafka.WithTLS(conf))
		case 2:
			b, err = kafka.NewClient([]string{srv.Addr}, kafka.WithTLS(conf)).DialController(context.Background())
		}
		if reject {
			if err == nil {
				r.Violation("a connection was made to a peer its configuration rejects", "%s", desc())
			}
			r.Count("history_rejected", 1)
			return
		}
		if err != nil {
			r.Violation("a connection its configuration allows failed", "%s: %v", desc(), err)
		}
		for k := 0; k < 1+srng.IntN(3); k++ { // also lets the peer's tickets arrive
			if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
				r.Violation("a call failed although its response was sent", "%s: %v", desc(), err)
			}
		}
		b.Close()
		if callback && called.Load() < 1 {
			r.Violation("a callback of the TLS configuration was not asked", "%s", desc())
		}
		mu.Lock()
		has := presented[names[i]]
		mu.Unlock()
		if has != (kind == "client certificate") {
			r.Violation("the identity a peer sees is not that of the configuration", "client certificate %v: %s", has, desc())
		}
		r.Count("history_accepted", 1)
	}
	n := 4 + rng.IntN(8)
	for i := 0; i < n; i++ {
		kind := kinds[rng.IntN(len(kinds))]
		if i == 0 {
			kind = kinds[rng.IntN(5)]
		}
		mu.Lock()
		order = append(order, kind)
		mu.Unlock()
		step(i, kind, rng)
	}
	var wg sync.WaitGroup
	for i := n; i < n+4; i++ {
		kind, srng := kinds[rng.IntN(len(kinds))], rand.New(rand.NewPCG(rng.Uint64(), uint64(i)))
		mu.Lock()
		order = append(order, kind)
		mu.Unlock()
		wg.Add(1)
		go func() { defer wg.Done(); step(i, kind, srng) }()
	}
	r.awaitAll(&wg, "connecting never returned", func() string { return "TLS history" })
	r.Count("history_resumed", int64(resumed))
	slices.Sort(order)
	return fmt.Sprint("history, ", versions, ": ", order)
}
