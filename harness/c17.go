package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"math/rand/v2"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C17"] = checkC17 }

// authority issues certificates.
type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pool *x509.CertPool
}

var serials atomic.Int64

func newAuthority(name string) *authority {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(serials.Add(1)), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Now().Add(-3 * time.Hour), NotAfter: time.Now().Add(24000 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	cert, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(cert)
	return &authority{cert, key, pool}
}

func (a *authority) issue(ip string, names []string, expired, client bool) tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(serials.Add(1)), Subject: pkix.Name{CommonName: "node"},
		NotBefore: time.Now().Add(-2 * time.Hour), NotAfter: time.Now().Add(24000 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, DNSNames: names}
	if expired {
		t.NotAfter = time.Now().Add(-time.Hour)
	}
	if ip != "" {
		t.IPAddresses = []net.IP{net.ParseIP(ip)}
	}
	t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	if client {
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	}
	der, err := x509.CreateCertificate(crand.Reader, t, a.cert, &key.PublicKey, a.key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

// tapped records every byte a client sends on a connection.
type tapped struct {
	net.Conn
	mu  sync.Mutex
	buf []byte
}

func (t *tapped) Read(b []byte) (int, error) {
	n, err := t.Conn.Read(b)
	t.mu.Lock()
	t.buf = append(t.buf, b[:n]...)
	t.mu.Unlock()
	return n, err
}

// onlyTLS checks that bytes are a sequence of TLS records starting with a handshake.
func onlyTLS(b []byte) error {
	for i := 0; len(b) > 0; i++ {
		if b[0] < 0x14 || b[0] > 0x17 || i == 0 && b[0] != 0x16 {
			return fmt.Errorf("record %d has type %#x", i, b[0])
		}
		if len(b) > 1 && b[1] != 3 {
			return fmt.Errorf("record %d has version %#x", i, b[1])
		}
		if len(b) < 5 {
			return nil
		}
		n := int(binary.BigEndian.Uint16(b[3:]))
		if n > 1<<14+2048 {
			return fmt.Errorf("record %d has %d bytes", i, n)
		}
		b = b[min(5+n, len(b)):]
	}
	return nil
}

type tlsWorld struct {
	ca, other   *authority
	client, bad tls.Certificate
	certs       map[string]tls.Certificate
}

var tlsHosts = []string{"127.0.0.1", "127.0.0.2", "127.0.0.3", "127.0.0.4"}
var tlsKinds = []string{"good", "other ca", "other name", "expired", "plaintext", "wants client", "old", "mute", "answers in the clear"}

// inTheClear is what a peer may answer that does not speak TLS, or refuses to.
var inTheClear = []string{
	"HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\nConnection: close\r\n\r\n",
	"\x00\x00\x00\x20\x00\x00\x00\x01\x00\x23\x00\x00\x00\x01\x00\x12\x00\x00\x00\x03\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00",
	"\x15\x03\x01\x00\x02\x02\x28", "\x15\x03\x03\x00\x02\x02\x46", "\x15\x03\x03\x00\x02\x01\x00", "\x15\x03\x01\x00\x02\x02\x50",
	"SSH-2.0-OpenSSH_9.6\r\n", "\xff\xff\xff\xff\xff\xff\xff\xff",
}

func tlsName(ip string) string {
	return "h" + strings.NewReplacer(".", "-", ":", "-").Replace(ip) + ".kafka.test"
}

func newTLSWorld() *tlsWorld {
	w := &tlsWorld{ca: newAuthority("ca"), other: newAuthority("other"), certs: map[string]tls.Certificate{}}
	for _, h := range append([]string{"::1"}, tlsHosts...) {
		w.certs["good"+h] = w.ca.issue(h, []string{"broker.test", tlsName(h)}, false, false)
		w.certs["other ca"+h] = w.other.issue(h, []string{"broker.test", tlsName(h)}, false, false)
		w.certs["other name"+h] = w.ca.issue("127.0.0.99", []string{"else.test"}, false, false)
		w.certs["expired"+h] = w.ca.issue(h, []string{"broker.test", tlsName(h)}, true, false)
	}
	w.client = w.ca.issue("", nil, false, true)
	w.bad = w.other.issue("", nil, false, true)
	return w
}

type tlsNode struct {
	*cnode
	kind string
	mu   sync.Mutex
	snis []string
	alpn [][]string
	vers []uint16
	ciph []uint16
	curv [][]tls.CurveID
	auth int
	taps []*tapped
}

func (w *tlsWorld) server(n *tlsNode, host string) {
	n.cnode.srv.onAccept = func(c *SConn) net.Conn {
		t := &tapped{Conn: c.Conn}
		n.mu.Lock()
		n.taps = append(n.taps, t)
		n.mu.Unlock()
		return t
	}
	if n.kind == "plaintext" || n.kind == "mute" || n.kind == "answers in the clear" {
		return
	}
	conf := &tls.Config{NextProtos: []string{"kafka"}}
	switch n.kind {
	case "wants client":
		conf.Certificates = []tls.Certificate{w.certs["good"+host]}
		conf.ClientAuth, conf.ClientCAs = tls.RequireAndVerifyClientCert, w.ca.pool
	case "old":
		conf.Certificates = []tls.Certificate{w.certs["good"+host]}
		conf.MaxVersion = tls.VersionTLS12
	default:
		conf.Certificates = []tls.Certificate{w.certs[n.kind+host]}
	}
	conf.GetConfigForClient = func(h *tls.ClientHelloInfo) (*tls.Config, error) {
		n.mu.Lock()
		n.snis = append(n.snis, h.ServerName)
		n.alpn = append(n.alpn, h.SupportedProtos)
		n.curv = append(n.curv, h.SupportedCurves)
		n.mu.Unlock()
		return nil, nil
	}
	conf.VerifyConnection = func(cs tls.ConnectionState) error {
		n.mu.Lock()
		n.vers = append(n.vers, cs.Version)
		n.ciph = append(n.ciph, cs.CipherSuite)
		if len(cs.PeerCertificates) > 0 {
			n.auth++
		}
		n.mu.Unlock()
		return nil
	}
	n.cnode.srv.tlsConf = conf
}

type countingWriter struct{ n atomic.Int64 }

func (c *countingWriter) Write(b []byte) (int, error) { c.n.Add(1); return len(b), nil }

// countingCache never resumes a session.
type countingCache struct{ n atomic.Int64 }

func (c *countingCache) Get(string) (*tls.ClientSessionState, bool) { c.n.Add(1); return nil, false }
func (c *countingCache) Put(string, *tls.ClientSessionState)        {}

var errControl = errors.New("refused by the dialer")

func (r *Run) tlsSession(w *tlsWorld, rng *rand.Rand) string {
	cl := &cluster{r: r, rng: rng}
	var nodes []*tlsNode
	kinds := []string{}
	useTLS := rng.IntN(4) > 0
	// some have names that only the resolver of the dialer knows
	named, byName, v6 := resolvers && rng.IntN(4) == 0, false, false
	dns := &names{ips: map[string]string{}}
	for i := 0; i < 3; i++ {
		kind := "good"
		if i == 2 || rng.IntN(3) == 0 {
			kind = tlsKinds[rng.IntN(len(tlsKinds))]
		}
		if !useTLS && (rng.IntN(5) > 0 || kind == "answers in the clear") {
			kind = "plaintext"
		}
		host := tlsHosts[rng.IntN(len(tlsHosts))]
		if ipv6 && rng.IntN(5) == 0 {
			host, v6 = "::1", true
		}
		n := &tlsNode{cnode: &cnode{srv: newServer(host), id: int32(i), host: host}, kind: kind}
		n.port = n.cnode.srv.Port
		if named && rng.IntN(3) > 0 {
			n.host = tlsName(host)
			dns.ips[n.host] = host
			byName = true
		}
		w.server(n, host)
		nodes = append(nodes, n)
		cl.nodes = append(cl.nodes, n.cnode)
		kinds = append(kinds, kind)
	}
	target := int32(rng.IntN(3))
	v := &view{groups: map[string]message.FindCoordinatorResponse{"g": {NodeId: target, Host: nodes[target].host, Port: nodes[target].port}}}
	for _, n := range nodes {
		v.meta.Brokers = append(v.meta.Brokers, message.MetadataResponseBroker3{NodeId: n.id, Host: n.host, Port: n.port})
	}
	v.meta.ControllerId = target
	v.meta.Topics = []message.MetadataResponseTopic3{{Name: "t", Partitions: []message.MetadataResponsePartition3{{LeaderId: target}}}}
	for _, n := range nodes {
		n.view = v
		n.cnode.start(r, rng)
	}
	for _, n := range nodes {
		n.vers, n.cnode.vers[3] = nil, max(1, n.cnode.vers[3])
		n.cnode.srv.mu.Lock()
		n.cnode.srv.ranges = pinned(func(a *API) int { return n.cnode.vers[a.Key] })
		if n.kind == "answers in the clear" {
			say := []byte(inTheClear[rng.IntN(len(inTheClear))])
			n.cnode.srv.raw = func(c *SConn) {
				var b [4096]byte
				for first := true; ; first = false {
					if _, err := c.Conn.Read(b[:]); err != nil {
						return
					}
					if first {
						c.write(say)
					}
				}
			}
		}
		if n.kind == "mute" {
			n.cnode.srv.raw = func(c *SConn) {
				var b [4096]byte
				for {
					if _, err := c.Conn.Read(b[:]); err != nil {
						return
					}
				}
			}
		}
		n.cnode.srv.mu.Unlock()
	}
	// the client's configuration
	conf := &tls.Config{RootCAs: w.ca.pool}
	confName := "roots"
	hasCert, skip, only13 := false, false, false
	var pinCalls atomic.Int64
	reject, past := false, false
	keylog := &countingWriter{}
	cache := &countingCache{}
	if useTLS {
		switch rng.IntN(19) {
		case 0:
			confName, conf.ServerName = "server name", "broker.test"
		case 1:
			confName, conf.InsecureSkipVerify, skip = "skip verification", true, true
		case 2:
			confName, conf.Certificates, hasCert = "client certificate", []tls.Certificate{w.client}, true
		case 3:
			confName, conf.MinVersion, only13 = "TLS 1.3", tls.VersionTLS13, true
		case 4:
			confName, conf.RootCAs = "other roots", w.other.pool
		case 5:
			confName = "callback"
			conf.VerifyConnection = func(tls.ConnectionState) error { pinCalls.Add(1); return nil }
		case 6:
			confName, reject = "rejecting callback", true
			conf.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error {
				pinCalls.Add(1)
				return errors.New("not this one")
			}
		case 7, 8:
			confName, reject = "rejecting connection callback", true
			conf.VerifyConnection = func(tls.ConnectionState) error {
				pinCalls.Add(1)
				return errors.New("not this one")
			}
			if rng.IntN(2) == 0 {
				confName += " without verification"
				conf.InsecureSkipVerify, skip = true, true
			}
		case 9:
			confName, past = "time in the past", true
			conf.Time = func() time.Time { return time.Now().Add(-90 * time.Minute) }
		case 10:
			confName, reject = "time in the future", true
			conf.Time = func() time.Time { return time.Now().Add(100000 * time.Hour) }
		case 11:
			confName, hasCert = "client certificate on demand", true
			conf.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &w.client, nil }
		case 12:
			confName, conf.MaxVersion = "TLS 1.2", tls.VersionTLS12
		case 13:
			confName, conf.CurvePreferences = "curve", []tls.CurveID{tls.CurveP384}
		case 14:
			confName, conf.MaxVersion = "cipher suite", tls.VersionTLS12
			conf.CipherSuites = []uint16{tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384}
		case 15:
			confName, conf.KeyLogWriter = "key log", keylog
		case 16:
			confName, conf.ClientSessionCache = "session cache", cache
		}
		if rng.IntN(3) == 0 {
			conf.NextProtos = []string{"kafka"}
		}
	}
	accept := func(n *tlsNode) bool {
		if !useTLS {
			return n.kind == "plaintext"
		}
		switch {
		case n.kind == "plaintext" || n.kind == "mute" || n.kind == "answers in the clear" || reject:
			return false
		case n.kind == "wants client" && !hasCert:
			return false
		case n.kind == "old" && only13:
			return false
		case skip:
			return true
		case confName == "other roots":
			return n.kind == "other ca"
		}
		return n.kind == "good" || n.kind == "wants client" || n.kind == "old" || n.kind == "expired" && past
	}
	// the dialer
	var controls atomic.Int64
	var opts []kafka.Option
	dialName := "none"
	local := ""
	refuse := false
	d := &net.Dialer{}
	mute := false
	for _, n := range nodes {
		mute = mute || n.kind == "mute" || !useTLS && n.kind != "plaintext"
	}
	controlled := false
	switch rng.IntN(4) {
	case 0:
		if mute || byName {
			break
		}
		dialName = "nil"
		d = nil
	case 1, 2:
		dialName, controlled = "control", true
		if !v6 {
			dialName = "local address and control"
			local = fmt.Sprintf("127.1.%d.%d", rng.IntN(250), 1+rng.IntN(250))
			d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(local)}
		}
		var answer error
		if rng.IntN(8) == 0 {
			dialName, refuse = "refusing control", true
			answer = errControl
		}
		if rng.IntN(2) == 0 {
			d.Control = func(network, address string, c syscall.RawConn) error { controls.Add(1); return answer }
		} else {
			dialName += " with context"
			d.ControlContext = func(ctx context.Context, network, address string, c syscall.RawConn) error {
				controls.Add(1)
				return answer
			}
		}
	}
	also := func(what string) {
		if dialName == "none" {
			dialName = what
		} else {
			dialName += ", " + what
		}
	}
	if byName {
		also("resolver")
		d.Resolver = dns.resolver()
	}
	limited := false
	var deadline time.Time
	if mute {
		// only a time limit ends the handshake with a mute peer
		limited = true
		if rng.IntN(3) > 0 {
			also("time limit")
			d.Timeout = 250 * time.Millisecond
		} else {
			also("deadline")
			deadline = time.Now().Add(300 * time.Millisecond)
			d.Deadline = deadline
		}
	}
	probes := 0
	if d != nil && rng.IntN(5) == 0 {
		also("keep-alive")
		probes = []int{-1, 7200, 9000}[rng.IntN(3)]
		d.KeepAlive = time.Duration(probes) * time.Second
	}
	tlsOpt := kafka.WithTLS(conf)
	if !useTLS {
		confName = "none"
		if rng.IntN(2) == 0 {
			confName = "nil"
			tlsOpt = kafka.WithTLS(nil)
		} else {
			tlsOpt = nil
		}
	}
	if tlsOpt != nil {
		opts = append(opts, tlsOpt)
	}
	if dialName != "none" {
		opts = append(opts, kafka.WithDialer(d))
	}
	rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	// an option given again replaces the earlier one
	var decoys atomic.Int64
	extra := ""
	if rng.IntN(4) == 0 {
		var first []kafka.Option
		if dialName != "none" && rng.IntN(3) > 0 {
			extra += ", replacing a dialer"
			first = append(first, kafka.WithDialer(&net.Dialer{Timeout: time.Nanosecond, Control: func(string, string, syscall.RawConn) error {
				decoys.Add(1)
				return errControl
			}}))
		}
		if tlsOpt != nil && rng.IntN(3) > 0 {
			extra += ", replacing a TLS configuration"
			first = append(first, kafka.WithTLS(&tls.Config{RootCAs: w.other.pool, ServerName: "decoy.test", VerifyConnection: func(tls.ConnectionState) error {
				decoys.Add(1)
				return errControl
			}}))
		}
		opts = append(first, opts...)
		if extra != "" {
			r.Count("options_replaced", 1)
		}
	}
	desc := fmt.Sprintf("nodes %q, designated %d, TLS %s, dialer %s%s", kinds, target, confName, dialName, extra)

	client := kafka.NewClient([]string{nodes[0].addr()}, opts...)
	trail := desc
	for k := 0; k < 4; k++ {
		touched := []*tlsNode{}
		var b *kafka.Broker
		var err error
		expect := true
		what := ""
		viaClient := func(dial bool) {
			expect = accept(nodes[0])
			touched = append(touched, nodes[0])
			if dial && expect {
				touched = append(touched, nodes[target])
				expect = accept(nodes[target])
			}
		}
		var call func()
		raw := false
		switch rng.IntN(6) {
		case 0:
			i := rng.IntN(3)
			what = "NewBroker"
			touched = append(touched, nodes[i])
			expect = accept(nodes[i])
			call = func() { b, err = kafka.NewBroker(nodes[i].addr(), opts...) }
		case 1:
			what = "DialController"
			viaClient(true)
			call = func() { b, err = client.DialController(context.Background()) }
		case 2:
			what = "DialLeader"
			viaClient(true)
			call = func() { b, err = client.DialLeader(context.Background(), "t", 0) }
		case 3:
			what = "DialGroupCoordinator"
			viaClient(true)
			call = func() { b, err = client.DialGroupCoordinator(context.Background(), "g") }
		case 4:
			what = "Metadata"
			viaClient(false)
			call = func() { _, err = client.Metadata(context.Background(), "t") }
		default:
			what, raw = "Connect", true
			i := rng.IntN(3)
			touched = append(touched, nodes[i])
			expect = accept(nodes[i])
			call = func() {
				var c *kafka.Conn
				c, err = kafka.Connect(nodes[i].addr(), opts...)
				if err == nil {
					c.Close()
				}
			}
		}
		if !useTLS && !raw {
			// a TLS server does not answer plaintext but ends the connection; a mute one never answers
			skipIt := false
			for _, n := range touched {
				skipIt = skipIt || n.kind == "mute"
			}
			if skipIt {
				continue
			}
		}
		if refuse {
			expect = false
		}
		late := !deadline.IsZero() && time.Now().After(deadline)
		done := make(chan struct{})
		go func() { defer close(done); call() }()
		r.await(done, "connecting never returned", func() string { return what + ", " + desc })
		trail += fmt.Sprint("; ", what, " ", err == nil)
		if err != nil && expect && !limited { // with a time limit a slow machine is an excuse
			r.Violation("connecting failed although the configuration accepts the peer", "%s: %v; %s", what, err, desc)
		}
		if err == nil && late {
			r.Violation("connecting succeeded after the dialer's deadline", "%s; %s", what, desc)
		}
		if err == nil && !expect {
			// a raw connection does not learn at once that it was refused, nor does one without TLS
			unaware := raw && (!useTLS || touched[0].kind == "wants client")
			if !unaware || refuse {
				r.Violation("connecting succeeded although the configuration rejects the peer", "%s; %s", what, desc)
			}
		}
		if b != nil {
			done := make(chan struct{})
			go func() { defer close(done); _, err = b.Heartbeat(message.HeartbeatRequest{MemberId: "m"}) }()
			r.await(done, "a call never returned", func() string { return desc })
			if err != nil {
				r.Violation("the broker returned is not usable", "%s: %v; %s", what, err, desc)
			}
			if probes != 0 {
				r.judgeKeepAlive(touched[len(touched)-1], probes, desc)
			}
			r.closeBroker(b)
		}
		r.Count(fmt.Sprintf("%s_%v", what, expect), 1)
	}
	if useTLS && (conf.ServerName != "" && confName != "server name" || conf.InsecureSkipVerify != skip) {
		r.Violation("the caller's TLS configuration was changed", "%s: server name %q", desc, conf.ServerName)
	}
	if d != nil && limited && (deadline.IsZero() && d.Timeout != 250*time.Millisecond || d.Deadline != deadline) {
		r.Violation("the caller's dialer was changed", "%s", desc)
	}
	// judge every connection the nodes have seen
	total, spoken := 0, int64(0)
	for _, n := range nodes {
		n.cnode.srv.stop()
		for i, c := range n.cnode.srv.connections() {
			total++
			t := n.taps[i]
			t.mu.Lock()
			sent := append([]byte{}, t.buf...)
			t.mu.Unlock()
			r.Count("bytes_observed", int64(len(sent)))
			if useTLS {
				if c.frames > 0 {
					spoken++
				}
				if err := onlyTLS(sent); err != nil {
					r.Violation("bytes were sent in the clear", "to a %q node: %v: %s; %s", n.kind, err, hx(sent), desc)
				}
				if bytes.Contains(sent, []byte(clientID)) {
					r.Violation("a request was sent in the clear", "to a %q node: %s; %s", n.kind, hx(sent), desc)
				}
				if !accept(n) && c.frames > 0 {
					r.Violation("a request was sent to a peer the configuration rejects", "to a %q node; %s", n.kind, desc)
				}
			}
			if local != "" {
				if ip := c.peer.(*net.TCPAddr).IP.String(); ip != local {
					r.Violation("a connection was not made through the dialer", "it comes from %s instead of %s, to a %q node; %s", ip, local, n.kind, desc)
				}
			}
			r.Count("connections_judged", 1)
		}
		n.mu.Lock()
		for _, s := range n.snis {
			want := conf.ServerName
			if want == "" && net.ParseIP(n.host) == nil {
				want = n.host
			}
			if useTLS && s != want {
				r.Violation("the TLS server name is not the configured one", "%q instead of %q; %s", s, want, desc)
			}
		}
		for _, a := range n.alpn {
			if useTLS && fmt.Sprint(a) != fmt.Sprint(conf.NextProtos) {
				r.Violation("the application protocols are not the configured ones", "%q; %s", a, desc)
			}
		}
		for _, ver := range n.vers {
			if only13 && ver != tls.VersionTLS13 {
				r.Violation("an older TLS version was used than configured", "%x; %s", ver, desc)
			}
		}
		for i, ver := range n.vers {
			if conf.MaxVersion != 0 && ver > conf.MaxVersion {
				r.Violation("a newer TLS version was used than configured", "%x; %s", ver, desc)
			}
			if conf.CipherSuites != nil && n.ciph[i] != conf.CipherSuites[0] {
				r.Violation("another cipher suite was used than configured", "%x; %s", n.ciph[i], desc)
			}
		}
		for _, c := range n.curv {
			if useTLS && conf.CurvePreferences != nil && fmt.Sprint(c) != fmt.Sprint(conf.CurvePreferences) {
				r.Violation("other curves were offered than configured", "%v; %s", c, desc)
			}
		}
		if n.kind == "wants client" && hasCert && n.auth == 0 && len(n.vers) > 0 {
			r.Violation("the configured client certificate was not presented", "%s", desc)
		}
		n.mu.Unlock()
	}
	if confName == "callback" && pinCalls.Load() < spoken {
		r.Violation("a configured verification callback was not called", "%d connections, %d calls; %s", spoken, pinCalls.Load(), desc)
	}
	if confName == "key log" && spoken > 0 && keylog.n.Load() == 0 {
		r.Violation("the configured key log was not used", "%d connections; %s", spoken, desc)
	}
	if confName == "session cache" && cache.n.Load() < spoken {
		r.Violation("the configured session cache was not used", "%d connections, %d lookups; %s", spoken, cache.n.Load(), desc)
	}
	if decoys.Load() > 0 {
		r.Violation("an option was used that a later one replaces", "%s", desc)
	}
	r.Count("config "+confName, 1)
	if byName {
		r.Count("names_resolved", dns.queries.Load())
	}
	if controlled && int(controls.Load()) < total {
		r.Violation("a connection was not made through the dialer", "%d connections, %d passed the dialer's control function; %s", total, controls.Load(), desc)
	}
	if refuse && total > 0 {
		r.Violation("a connection was made that the dialer refused", "%s", desc)
	}
	return trail
}

// judgeKeepAlive looks at the client's end of the connections a node has open.
func (r *Run) judgeKeepAlive(n *tlsNode, probes int, desc string) {
	for _, c := range n.cnode.srv.connections() {
		c.mu.Lock()
		open := c.open
		c.mu.Unlock()
		if !open {
			continue
		}
		for try := 0; try < 50; try++ {
			on, seconds, ok := keepAlive(c.peer.(*net.TCPAddr), c.Conn.LocalAddr().(*net.TCPAddr))
			if !ok {
				time.Sleep(2 * time.Millisecond)
				continue
			}
			if on != (probes > 0) || on && seconds < float64(probes)-600 {
				r.Violation("a connection was not made with the dialer's settings", "keep-alive %v, next probe in %.0f s, configured %d s; %s", on, seconds, probes, desc)
			}
			r.Count("keep_alive_timers_seen", 1)
			break
		}
	}
}

func checkC17(r *Run) {
	requireBindings(r)
	r.rule = "sessions of NewBroker, Connect and every client operation with TLS configurations and dialers against nodes that are trusted, untrusted, expired, misnamed, plaintext, old, mute, answer in the clear or demand a client certificate, and successive and simultaneous connections of different configurations to one node, by IPv4 and IPv6 address and by name; every byte of every connection is recorded at the nodes; distinct by configuration, nodes, operations and outcomes"
	w := newTLSWorld()
	r.Parallel(r.N(700, 25000), func(i int) {
		info := r.tlsSession(w, r.Rng("tls", i))
		r.Case(true, fp(info))
		r.Sampled(func() any { return info })
	})
	r.Parallel(r.N(150, 5000), func(i int) {
		info := r.tlsHistory(w, r.Rng("tls history", i))
		r.Case(true, fp(info))
		r.Sampled(func() any { return info })
	})
}
