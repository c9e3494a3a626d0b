package main

import (
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C23"] = checkC23 }

// echoServer answers heartbeats of group g and generation n, at version 1, with
// throttle time n and an error code that depends on the server and the group.
func echoServer(ver func(a *API) int, code int16, fault func(c *SConn, f *Frame, group string) bool) *Server {
	srv := newServer("127.0.0.1")
	srv.ranges = pinned(ver)
	srv.handle = func(c *SConn, f *Frame) {
		if f.Key != 12 {
			return
		}
		group, gen := heartbeatIDs(f.Body)
		if fault != nil && fault(c, f, group) {
			return
		}
		if f.Ver == 0 {
			body := binary.BigEndian.AppendUint16(nil, uint16(code^int16(gen)))
			c.write(responseFrame(f.Corr, body))
			return
		}
		body := binary.BigEndian.AppendUint32(nil, uint32(gen))
		body = binary.BigEndian.AppendUint16(body, uint16(code^int16(gen)))
		c.write(responseFrame(f.Corr, body))
	}
	return srv
}

// neighbour is one healthy broker connection of the session.
type neighbour struct {
	name string
	b    *kafka.Broker
	code int16
	ver  int
}

func (n *neighbour) call(r *Run, gen int32, pad int, desc string) {
	resp, err := n.b.Heartbeat(message.HeartbeatRequest{GroupId: "healthy", GenerationId: gen, MemberId: strings.Repeat("m", pad)})
	if err != nil {
		r.Violation("a call failed because of what happened to another connection", "call %d on %s: %v\n%s", gen, n.name, err, desc)
	}
	want := int32(0)
	if n.ver > 0 {
		want = gen
	}
	if resp.ThrottleTimeMs != want || resp.ErrorCode != n.code^int16(gen) {
		r.Violation("a call returned a response that belongs to another connection or call", "call %d on %s got %+v, expected throttle %d code %d\n%s", gen, n.name, resp, want, n.code^int16(gen), desc)
	}
}

var faultKinds = []string{
	"peer reset", "peer close", "client close", "garbage", "negative frame", "huge frame", "partial frame", "undecodable",
	"unanswered", "not reading", "over-long string", "flood", "no common version", "silent handshake", "client failures",
}

// faulty does something bad to a connection of its own and leaves it in that state
// until release is closed; it returns once the fault is in effect.
func (r *Run) faulty(rng *rand.Rand, kind string, shared *Server, opts []kafka.Option, release chan struct{}, wg *sync.WaitGroup) {
	inEffect := make(chan struct{}, 64)
	own := echoServer(func(a *API) int { return min(a.LibMax, 1) }, 99, func(c *SConn, f *Frame, group string) bool {
		switch kind {
		case "over-long string":
			return false
		case "peer reset":
			c.reset()
		case "peer close":
			c.Conn.Close()
		case "garbage":
			c.write(newGen(rand.New(rand.NewPCG(1, uint64(f.Seq))), true).bytes(200))
		case "negative frame":
			c.write([]byte{0xff, 0xff, 0xff, 0x00, 0, 0, 0, 1})
		case "huge frame":
			c.write([]byte{0x7f, 0xff, 0xff, 0xff, 0, 0, 0, 1, 2, 3})
		case "partial frame":
			c.write(responseFrame(f.Corr, []byte{1, 2, 3, 4, 5, 6})[:9])
		case "undecodable":
			c.write(responseFrame(f.Corr, []byte{1}))
		case "flood":
			srv := c.srv
			srv.wg.Add(1)
			go func() {
				defer srv.wg.Done()
				chunk := make([]byte, 0, 1<<16)
				for i := int32(0); len(chunk) < 1<<15; i++ {
					chunk = append(chunk, responseFrame(i, []byte{0, 0, 0, 9, 0, 9})...)
				}
				for c.write(chunk) == nil {
					select {
					case <-release:
						return
					default:
						time.Sleep(200 * time.Microsecond)
					}
				}
			}()
		}
		select {
		case inEffect <- struct{}{}:
		default:
		}
		return true
	})
	switch kind {
	case "no common version":
		own.versions = func(c *SConn, f *Frame) {
			c.write(responseFrame(f.Corr, versionsBody([]apiRange{{3, 900, 901}}, int(f.Ver))))
		}
	case "silent handshake":
		own.versions = func(c *SConn, f *Frame) { inEffect <- struct{}{} }
	case "not reading":
		own.raw = func(c *SConn) {
			f, err := c.readFrame()
			if err != nil {
				return
			}
			c.write(responseFrame(f.Corr, versionsBody(own.ranges, int(f.Ver))))
			<-release // never reads again
		}
	}
	own.start()
	addr := own.Addr
	if kind == "client close" {
		addr = shared.Addr // a neighbour of the healthy ones on the same broker
	} else {
		opts = nil
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		<-release
		own.stop()
	}()
	background := func(fn func()) {
		wg.Add(1)
		go func() { defer wg.Done(); fn() }()
	}
	switch kind {
	case "no common version":
		background(func() {
			for i := 0; i < 3; i++ {
				if b, err := kafka.NewBroker(addr); err == nil {
					b.Close()
				}
			}
		})
		return
	case "silent handshake":
		background(func() {
			if b, err := kafka.NewBroker(addr); err == nil {
				b.Close()
			}
		})
		<-inEffect
		return
	case "client failures":
		background(func() {
			ln, _ := net.Listen("tcp", "127.0.0.1:0")
			dead := ln.Addr().String()
			ln.Close()
			c := kafka.NewClient([]string{dead, dead})
			for i := 0; i < 3; i++ {
				c.Metadata(context.Background())
				c.DialLeader(context.Background(), "t", 0)
			}
		})
		return
	}
	b := r.dialBroker(addr, opts...)
	background(func() {
		<-release
		b.Close()
	})
	hb := func(member string) {
		b.Heartbeat(message.HeartbeatRequest{GroupId: "faulty", GenerationId: 1, MemberId: member})
	}
	switch kind {
	case "client close":
		hb("m")
		background(func() { b.Close() })
	case "over-long string":
		hb("m")
		background(func() {
			hb(strings.Repeat("x", 40000))
			hb("m")
		})
	case "not reading":
		for i := 0; i < 4; i++ {
			background(func() {
				var req message.ProduceRequest
				req.Acks = -1
				req.Topics = []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{Records: make([]byte, 8<<20)}}}}
				b.Produce(req)
			})
		}
		time.Sleep(2 * time.Millisecond)
	default:
		for i := 0; i < 1+rng.IntN(3); i++ {
			background(func() { hb("m") })
		}
		<-inEffect
	}
}

func (r *Run) independence(w *tlsWorld, rng *rand.Rand, si int) {
	kinds := []string{}
	for len(kinds) < 1+rng.IntN(4) {
		kinds = append(kinds, faultKinds[rng.IntN(len(faultKinds))])
	}
	desc := fmt.Sprintf("session %d, faults %v", si, kinds)
	r.Doing("%s", desc)
	// healthy brokers: several connections to each of a few servers, at different versions
	var servers []*Server
	var healthy []*neighbour
	nsrv := 1 + rng.IntN(3)
	locals := map[*Server]net.IP{}
	opts := map[*Server][]kafka.Option{}
	options := make([][]kafka.Option, nsrv)
	for i := 0; i < nsrv; i++ {
		ver := rng.IntN(2)
		srv := echoServer(func(a *API) int { return min(a.LibMax, ver) }, int16(1000*(i+1)), nil)
		// options of their own: TLS under either of two authorities, or a local address
		switch rng.IntN(4) {
		case 0, 1:
			kind, pool := "good", w.ca.pool
			if rng.IntN(2) == 0 {
				kind, pool = "other ca", w.other.pool
			}
			srv.tlsConf = &tls.Config{Certificates: []tls.Certificate{w.certs[kind+"127.0.0.1"]}}
			options[i] = []kafka.Option{kafka.WithTLS(&tls.Config{RootCAs: pool})}
			r.Count("tls_servers", 1)
		case 2:
			ip := net.IPv4(127, 0, 0, byte(20+rng.IntN(50)))
			options[i] = []kafka.Option{kafka.WithDialer(&net.Dialer{LocalAddr: &net.TCPAddr{IP: ip}})}
			locals[srv] = ip
		}
		srv.start()
		servers = append(servers, srv)
		opts[srv] = options[i]
		for k := 0; k < 1+rng.IntN(2); k++ {
			healthy = append(healthy, &neighbour{fmt.Sprintf("connection %d to server %d", k, i), r.dialBroker(srv.Addr, options[i]...), int16(1000 * (i + 1)), ver})
		}
	}
	var gen atomic.Int32
	stop := make(chan struct{})
	var wg, fwg sync.WaitGroup
	var calls atomic.Int64
	for hi, h := range healthy {
		for g := 0; g < 2; g++ {
			grng := r.Rng("healthy", si, hi, g)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					pad := 1 + grng.IntN(20)
					if grng.IntN(30) == 0 {
						pad = 5000
					}
					h.call(r, gen.Add(1), pad, desc)
					calls.Add(1)
				}
			}()
		}
	}
	release := make(chan struct{})
	ready := make(chan struct{})
	go func() {
		defer close(ready)
		for _, k := range kinds {
			shared := servers[rng.IntN(len(servers))]
			r.faulty(rng, k, shared, opts[shared], release, &fwg)
		}
	}()
	detail := func() string { return desc }
	r.await(ready, "a connection was affected by another: connecting never returned", detail)
	// with the faults in effect: every healthy connection makes progress, new ones too
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 12; i++ {
			for _, h := range healthy {
				h.call(r, gen.Add(1), 3, desc)
				calls.Add(1)
			}
		}
		for i, srv := range servers {
			b := r.dialBroker(srv.Addr, options[i]...)
			n := &neighbour{fmt.Sprintf("new connection to server %d", i), b, int16(1000 * (i + 1)), healthy[0].ver}
			for _, h := range healthy {
				if h.code == n.code {
					n.ver = h.ver
				}
			}
			for k := 0; k < 3; k++ {
				n.call(r, gen.Add(1), 3, desc)
			}
			b.Close()
		}
	}()
	r.await(done, "a call never returned because of what happened to another connection", detail)
	close(stop)
	r.awaitAll(&wg, "a call never returned because of what happened to another connection", detail)
	close(release)
	r.awaitAll(&fwg, "a faulty connection was never released", detail)
	for _, h := range healthy {
		h.call(r, gen.Add(1), 3, desc)
		r.closeBroker(h.b)
	}
	for _, srv := range servers {
		for _, c := range srv.connections() {
			if err := c.badness(); err != nil && !strings.Contains(err.Error(), "connection ended") {
				r.Violation("a healthy broker received something that is not a request", "%v\n%s", err, desc)
			}
			a, ok := c.peer.(*net.TCPAddr)
			if want := locals[srv]; ok && want != nil && !a.IP.Equal(want) {
				r.Violation("a connection was made with another connection's options", "peer %v, the dialer binds to %v\n%s", a, want, desc)
			}
			if want := locals[srv]; ok && want == nil && a.IP[len(a.IP)-1] >= 20 {
				r.Violation("a connection was made with another connection's options", "peer %v, although no dialer was given\n%s", a, desc)
			}
		}
		srv.stop()
	}
	r.Count("healthy_calls", calls.Load())
	r.Count("healthy_connections", int64(len(healthy)))
	for _, k := range kinds {
		r.Count("fault_"+k, 1)
	}
	r.Case(true, fp(kinds, nsrv, len(healthy)))
	r.Sampled(func() any {
		return map[string]any{"faults": kinds, "servers": nsrv, "healthy": len(healthy), "calls": calls.Load()}
	})
}

func checkC23(r *Run) {
	requireBindings(r)
	r.rule = "sessions in which healthy connections make calls, and new ones are opened, while neighbouring connections in the same process are reset, flooded, stalled, fed garbage, poisoned or closed; distinct by faults and layout, all non-trivial"
	n := r.N(200, 4000)
	w := newTLSWorld()
	for i := 0; i < n; i++ {
		r.independence(w, r.Rng("session", i), i)
	}
}
