package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C23L"] = checkManyConnections }

// fullListener returns an address whose connection attempts neither succeed nor fail.
func fullListener(r *Run) (addr string, release func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return "", nil
	}
	if syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}) != nil || syscall.Listen(fd, 0) != nil {
		syscall.Close(fd)
		return "", nil
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		syscall.Close(fd)
		return "", nil
	}
	addr = fmt.Sprint("127.0.0.1:", sa.(*syscall.SockaddrInet4).Port)
	var held []net.Conn
	release = func() {
		syscall.Close(fd)
		for _, c := range held {
			c.Close()
		}
	}
	for i := 0; i < 8; i++ {
		c, err := net.DialTimeout("tcp", addr, 300*time.Millisecond)
		if err != nil {
			return addr, release
		}
		held = append(held, c)
	}
	release()
	return "", nil
}

// crowd puts n faults of a kind into effect at once (or, for failures, has them all
// behind it) and returns how to end them.
type crowd struct {
	r       *Run
	good    *Server
	w       *tlsWorld
	wg      sync.WaitGroup
	release chan struct{}
	servers []*Server
}

func (c *crowd) mute(fn func(sc *SConn)) *Server {
	s := newServer("127.0.0.1")
	s.raw = fn
	s.start()
	c.servers = append(c.servers, s)
	return s
}

func (c *crowd) background(n int, fn func(i int)) {
	for i := 0; i < n; i++ {
		c.wg.Add(1)
		go func() {
			defer c.wg.Done()
			fn(i)
		}()
	}
}

func (c *crowd) dial(addr string, opts ...kafka.Option) {
	if b, err := kafka.NewBroker(addr, opts...); err == nil {
		<-c.release
		b.Close()
	}
}

// counted calls fn when n have come.
func arrivals(n int) (func(), chan struct{}) {
	var mu sync.Mutex
	done := make(chan struct{})
	left := n
	return func() {
		mu.Lock()
		defer mu.Unlock()
		if left--; left == 0 {
			close(done)
		}
	}, done
}

var crowds = []struct {
	name string
	n    int // default
	max  int // of literals
	put  func(c *crowd, n int) (inEffect chan struct{})
}{
	{"connections in a TLS handshake their peers do not answer", 300, 2500, func(c *crowd, n int) chan struct{} {
		hit, done := arrivals(n)
		s := c.mute(func(sc *SConn) { hit(); io.Copy(io.Discard, sc.Conn) })
		c.background(n, func(int) { c.dial(s.Addr, kafka.WithTLS(&tls.Config{RootCAs: c.w.ca.pool})) })
		return done
	}},
	{"connections in a negotiation their brokers do not answer", 300, 1500, func(c *crowd, n int) chan struct{} {
		hit, done := arrivals(n)
		s := c.mute(func(sc *SConn) { sc.readFrame(); hit(); io.Copy(io.Discard, sc.Conn) })
		c.background(n, func(int) { c.dial(s.Addr) })
		return done
	}},
	{"lookups of clients their brokers do not answer", 300, 1500, func(c *crowd, n int) chan struct{} {
		hit, done := arrivals(n)
		s := newServer("127.0.0.1")
		s.handle = func(sc *SConn, f *Frame) { hit() }
		s.start()
		c.servers = append(c.servers, s)
		c.background(n, func(i int) {
			cl := kafka.NewClient([]string{s.Addr})
			switch i % 3 {
			case 0:
				cl.Metadata(context.Background())
			case 1:
				cl.DialLeader(context.Background(), "t", 0)
			case 2:
				cl.DialGroupCoordinator(context.Background(), "g")
			}
		})
		return done
	}},
	{"connection attempts that neither succeed nor fail", 150, 2500, func(c *crowd, n int) chan struct{} {
		addr, release := fullListener(c.r)
		if addr == "" {
			return nil
		}
		hit, done := arrivals(n)
		cancel := make(chan struct{})
		c.background(1, func(int) {
			<-c.release
			close(cancel)
			release()
		})
		c.background(n, func(i int) {
			d := &net.Dialer{Cancel: cancel, Timeout: 10 * time.Minute}
			d.Control = func(string, string, syscall.RawConn) error { hit(); return nil }
			opts := []kafka.Option{kafka.WithDialer(d)}
			if i%2 == 0 {
				opts = append(opts, kafka.WithTLS(&tls.Config{RootCAs: c.w.ca.pool}))
			}
			c.dial(addr, opts...)
		})
		return done
	}},
	{"connection attempts waiting in their dialer's control function", 150, 2500, func(c *crowd, n int) chan struct{} {
		hit, done := arrivals(n)
		d := &net.Dialer{Control: func(string, string, syscall.RawConn) error {
			hit()
			<-c.release
			return fmt.Errorf("given up")
		}}
		c.background(n, func(int) { c.dial(c.good.Addr, kafka.WithDialer(d)) })
		return done
	}},
	{"connections with a call their brokers do not answer", 300, 1500, func(c *crowd, n int) chan struct{} {
		hit, done := arrivals(n)
		s := newServer("127.0.0.1")
		s.handle = func(sc *SConn, f *Frame) { hit() }
		s.start()
		c.servers = append(c.servers, s)
		c.background(n, func(int) {
			if b, err := kafka.NewBroker(s.Addr); err == nil {
				b.Heartbeat(message.HeartbeatRequest{GroupId: "faulty"})
				b.Close()
			}
		})
		return done
	}},
	{"connections whose brokers do not read a large request", 60, 200, func(c *crowd, n int) chan struct{} {
		hit, done := arrivals(n)
		s := newServer("127.0.0.1")
		s.raw = func(sc *SConn) {
			f, err := sc.readFrame()
			if err != nil {
				return
			}
			sc.write(responseFrame(f.Corr, versionsBody(s.ranges, int(f.Ver))))
			var b [100]byte
			if _, err := io.ReadFull(sc.Conn, b[:]); err == nil {
				hit()
			}
			<-c.release
		}
		s.start()
		c.servers = append(c.servers, s)
		records := make([]byte, 20<<20)
		c.background(n, func(int) {
			if b, err := kafka.NewBroker(s.Addr); err == nil {
				b.Produce(message.ProduceRequest{Acks: 1, Topics: []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{Records: records}}}}})
				b.Close()
			}
		})
		return done
	}},
	{"connections whose callbacks do not return", 150, 1000, func(c *crowd, n int) chan struct{} {
		hit, done := arrivals(n)
		s := newServer("127.0.0.1")
		s.raw = func(sc *SConn) {
			for {
				f, err := sc.readFrame()
				if err != nil {
					return
				}
				sc.write(responseFrame(f.Corr, []byte{0, 1, 2, 3}))
			}
		}
		s.start()
		c.servers = append(c.servers, s)
		c.background(n, func(i int) {
			conn, err := kafka.Connect(s.Addr)
			if err != nil {
				return
			}
			conn.Do(func(e *message.Encoder, corr int32) {
				if i%2 == 0 {
					hit()
					<-c.release
				}
				e.PutInt32(12)
				e.PutInt16(18)
				e.PutInt16(0)
				e.PutInt32(corr)
				e.PutInt16(2)
				e.PutInt16(0x4141)
			}, func(d *message.Decoder) error {
				if i%2 == 1 {
					hit()
					<-c.release
				}
				return nil
			})
			conn.Close()
		})
		return done
	}},
	{"attempts to connect that were refused", 1200, 5000, func(c *crowd, n int) chan struct{} {
		ln, _ := net.Listen("tcp", "127.0.0.1:0")
		dead := ln.Addr().String()
		ln.Close()
		return c.failures(n, func(i int) {
			if i%2 == 0 {
				c.dial(dead)
			} else {
				c.dial(dead, kafka.WithTLS(&tls.Config{}))
			}
		})
	}},
	{"failed TLS handshakes", 400, 2500, func(c *crowd, n int) chan struct{} {
		s := c.mute(func(sc *SConn) { sc.Conn.Write([]byte("no TLS here")) })
		return c.failures(n, func(int) { c.dial(s.Addr, kafka.WithTLS(&tls.Config{RootCAs: c.w.ca.pool})) })
	}},
	{"failed negotiations", 400, 1500, func(c *crowd, n int) chan struct{} {
		s := newServer("127.0.0.1")
		s.versions = func(sc *SConn, f *Frame) {
			if sc.id%2 == 0 {
				sc.Conn.Close()
				return
			}
			sc.write(responseFrame(f.Corr, versionsBody([]apiRange{{3, 900, 901}}, int(f.Ver))))
		}
		s.start()
		c.servers = append(c.servers, s)
		return c.failures(n, func(int) { c.dial(s.Addr) })
	}},
	{"connections lost with a call in flight, and then closed", 400, 1500, func(c *crowd, n int) chan struct{} {
		s := newServer("127.0.0.1")
		s.handle = func(sc *SConn, f *Frame) { sc.reset() }
		s.start()
		c.servers = append(c.servers, s)
		return c.failures(n, func(int) {
			if b, err := kafka.NewBroker(s.Addr); err == nil {
				b.Heartbeat(message.HeartbeatRequest{GroupId: "faulty"})
				b.Close()
			}
		})
	}},
	{"connections lost and never closed", 300, 600, func(c *crowd, n int) chan struct{} {
		s := newServer("127.0.0.1")
		s.handle = func(sc *SConn, f *Frame) { sc.reset() }
		s.start()
		c.servers = append(c.servers, s)
		return c.failures(n, func(int) {
			if b, err := kafka.NewBroker(s.Addr); err == nil {
				b.Heartbeat(message.HeartbeatRequest{GroupId: "faulty"})
			}
		})
	}},
	{"open connections", 1100, 2000, func(c *crowd, n int) chan struct{} {
		return c.failures(n, func(int) {
			b, err := kafka.NewBroker(c.good.Addr)
			if err != nil {
				c.r.Violation("connecting to a well-behaved broker failed with many connections open", "%v", err)
			}
			c.background(1, func(int) {
				<-c.release
				b.Close()
			})
		})
	}},
}

func (c *crowd) failures(n int, fn func(i int)) chan struct{} {
	done := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < n; i += 8 {
				fn(i)
				c.r.progress.Add(1)
			}
		}()
	}
	go func() {
		wg.Wait()
		close(done)
	}()
	return done
}

// checkManyConnections: many neighbours in the same state at once.
func checkManyConnections(r *Run) {
	requireBindings(r)
	r.rule = "hundreds to thousands of neighbouring connections in the same state at once (and as many as the library's literals suggest), while old and new connections, plain and TLS, are used"
	debug.SetGCPercent(50)
	var lim syscall.Rlimit
	files := 4096
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) == nil {
		files = int(min(lim.Cur, 100_000))
	}
	w := newTLSWorld()
	good := echoServer(func(a *API) int { return min(a.LibMax, 1) }, 7, nil)
	good.start()
	secure := echoServer(func(a *API) int { return min(a.LibMax, 1) }, 9, nil)
	secure.tlsConf = &tls.Config{Certificates: []tls.Certificate{w.certs["good127.0.0.1"]}}
	secure.start()
	lookup := newServer("127.0.0.1")
	lookup.handle = func(sc *SConn, f *Frame) {
		if f.Key == 3 {
			sc.write(responseFrame(f.Corr, apiKeys[3].Resp.encode(reflect.ValueOf(&message.MetadataResponse{
				Brokers: []message.MetadataResponseBroker3{{NodeId: 1, Host: good.Host, Port: good.Port}},
				Topics:  []message.MetadataResponseTopic3{{Name: "t", Partitions: []message.MetadataResponsePartition3{{PartitionIndex: 2, LeaderId: 1}}}},
			}), int(f.Ver))))
		}
	}
	lookup.start()
	withTLS := kafka.WithTLS(&tls.Config{RootCAs: w.ca.pool})
	healthy := []*neighbour{
		{"a connection opened before", r.dialBroker(good.Addr), 7, 1},
		{"a TLS connection opened before", r.dialBroker(secure.Addr, withTLS), 9, 1},
	}
	for _, k := range crowds {
		sizes := []int{k.n}
		for _, l := range largeLiterals(k.n, k.max) {
			if len(sizes) < 3 {
				sizes = append(sizes, l+1)
			}
		}
		if r.Thorough() {
			sizes = append(sizes, k.max)
		}
		for _, n := range sizes {
			n = min(n, (files-200)/2)
			desc := fmt.Sprintf("%d %s", n, k.name)
			r.Doing("%s", desc)
			detail := func() string { return desc }
			c := &crowd{r: r, good: good, w: w, release: make(chan struct{})}
			done := k.put(c, n)
			if done == nil {
				r.Count("crowds_unavailable", 1)
				continue
			}
			r.await(done, "a connection was affected by many others: the connections never got as far as they should", detail)
			r.finish("a call never returned because of what happened to other connections", desc, func() {
				for i := 0; i < 3; i++ {
					for _, h := range healthy {
						h.call(r, int32(i), 10, desc)
					}
				}
			})
			for i := 0; i < 3; i++ {
				for k, n := range []*neighbour{{"a new connection", r.dialBroker(good.Addr), 7, 1}, {"a new TLS connection", r.dialBroker(secure.Addr, withTLS), 9, 1}} {
					r.finish("a call never returned because of what happened to other connections", desc, func() { n.call(r, int32(100+k), 5000, desc) })
					r.closeBroker(n.b)
				}
			}
			r.finish("a client's operation never returned because of what happened to other connections", desc, func() {
				b, err := kafka.NewClient([]string{lookup.Addr}).DialLeader(context.Background(), "t", 2)
				if err != nil {
					r.Violation("a client's operation failed because of what happened to other connections", "%v\n%s", err, desc)
				}
				(&neighbour{"a partition's leader", b, 7, 1}).call(r, 7, 3, desc)
				b.Close()
			})
			close(c.release)
			for _, s := range c.servers {
				s.stop()
			}
			c.wg.Wait()
			r.Case(true, fp(k.name, n))
			r.Count("crowd_"+strings.ReplaceAll(k.name, " ", "_"), int64(n))
			r.Max("largest_crowd", int64(n))
			runtime.GC()
		}
	}
	for _, h := range healthy {
		h.call(r, 99, 3, "after all")
		r.closeBroker(h.b)
	}
	good.stop()
	secure.stop()
	lookup.stop()
}
