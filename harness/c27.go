package main

import (
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"net"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"github.com/savaki/kafka/ring"
)

func init() { checks["C27"] = checkC27 }

// cpuTime is the processor time the process has used so far.
func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// A process in which nothing happens uses next to no processor time however busy
// the machine is.  It is busy if it uses more than this share of one core in
// every one of several windows.
const (
	idleWindow  = 500 * time.Millisecond
	idleWindows = 8
	idleShare   = 0.01   // of one core, for the process
	idleEach    = 0.0005 // of one core, for each connection
)

// busy returns the share of a core used in the quietest of several windows.
func (r *Run) busy(limit float64) (float64, []float64) {
	var all []float64
	least := 1e9
	for i := 0; i < idleWindows; i++ {
		t0, c0 := time.Now(), cpuTime()
		time.Sleep(idleWindow)
		share := float64(cpuTime()-c0) / float64(time.Since(t0))
		all = append(all, share)
		least = min(least, share)
		r.progress.Add(1)
		if least < limit {
			break
		}
	}
	return least, all
}

type idleState struct {
	name string
	n    int
	// enter brings a connection into the state; what it returns ends the state and waits
	enter func(s *idleRun, i int) (leave func())
}

type idleRun struct {
	r    *Run
	tls  bool
	srv  *Server
	opts []kafka.Option
	mu   sync.Mutex
	acts map[*SConn]chan struct{} // ends what the broker does on a connection
	mode string
	in   sync.WaitGroup // broker side has reached the state
	stop chan struct{}
}

func (s *idleRun) broker() *kafka.Broker { return s.r.dialBroker(s.srv.Addr, s.opts...) }

func (s *idleRun) conn() *kafka.Conn {
	c, err := kafka.Connect(s.srv.Addr, s.opts...)
	if err != nil {
		s.r.Violation("connecting to a well-behaved broker failed", "%v", err)
	}
	return c
}

func rawRequest(e *message.Encoder, corr int32, n int) {
	e.PutInt32(int32(14 + n))
	e.PutInt16(12)
	e.PutInt16(0)
	e.PutInt32(corr)
	e.PutInt16(0)
	e.PutBytes(make([]byte, n))
}

// pending starts a call that will not be answered for now.
func (s *idleRun) pending(c *kafka.Conn, size int, decode func(*message.Decoder) error) <-chan struct{} {
	done := make(chan struct{})
	go func() {
		defer close(done)
		c.Do(func(e *message.Encoder, corr int32) { rawRequest(e, corr, size) }, decode)
	}()
	return done
}

func (s *idleRun) ended(done <-chan struct{}, what string) {
	s.r.await(done, "a call never returned after its connection was closed", func() string { return what })
}

func (s *idleRun) closeConn(c *kafka.Conn) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		c.Close()
	}()
	s.r.await(done, "closing a connection never returned", func() string { return s.mode })
}

func nothing(d *message.Decoder) error { return nil }

var idleStates = []idleState{
	{"idle after use", 40, func(s *idleRun, i int) func() {
		b := s.broker()
		if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
			s.r.Violation("a call failed", "%v", err)
		}
		s.in.Done()
		return func() { s.r.closeBroker(b) }
	}},
	{"idle after much use", 12, func(s *idleRun, i int) func() {
		b := s.broker()
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 100; k++ {
					if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
						s.r.Violation("a call failed", "%v", err)
					}
				}
			}()
		}
		if _, err := b.SaslAuthenticate(message.SaslAuthenticateRequest{AuthBytes: make([]byte, 3_000_000)}); err != nil {
			s.r.Violation("a call failed", "%v", err)
		}
		wg.Wait()
		s.in.Done()
		return func() { s.r.closeBroker(b) }
	}},
	{"never used", 40, func(s *idleRun, i int) func() {
		c := s.conn()
		s.in.Done()
		return func() { s.closeConn(c) }
	}},
	{"calls outstanding", 20, func(s *idleRun, i int) func() {
		c := s.conn()
		var all []<-chan struct{}
		for k := 0; k < 20; k++ {
			all = append(all, s.pending(c, 10, nothing))
		}
		return func() {
			s.closeConn(c)
			for _, d := range all {
				s.ended(d, "outstanding")
			}
		}
	}},
	{"negotiating", 30, func(s *idleRun, i int) func() {
		done := make(chan struct{})
		go func() {
			defer close(done)
			if b, err := kafka.NewBroker(s.srv.Addr, s.opts...); err == nil {
				b.Close()
			}
		}()
		return func() { s.ended(done, "negotiating") } // the broker closes
	}},
	{"part of a length received", 30, func(s *idleRun, i int) func() { return s.waiting() }},
	{"length received", 30, func(s *idleRun, i int) func() { return s.waiting() }},
	{"part of a message received", 30, func(s *idleRun, i int) func() { return s.waiting() }},
	{"part of a large message received", 8, func(s *idleRun, i int) func() { return s.waiting() }},
	{"broker does not read", 12, func(s *idleRun, i int) func() {
		c := s.conn()
		var all []<-chan struct{}
		for k := 0; k < 3; k++ {
			all = append(all, s.pending(c, 9_000_000, nothing))
		}
		return func() {
			s.closeConn(c)
			for _, d := range all {
				s.ended(d, "broker does not read")
			}
		}
	}},
	{"caller busy while more arrives than is kept", 8, func(s *idleRun, i int) func() {
		c := s.conn()
		release := make(chan struct{})
		done := s.pending(c, 10, func(d *message.Decoder) error {
			s.in.Done()
			<-release
			return nil
		})
		return func() {
			close(release)
			s.closeConn(c)
			s.ended(done, "busy caller")
		}
	}},
	{"broker has closed", 40, func(s *idleRun, i int) func() { return s.abandoned() }},
	{"broker has reset", 40, func(s *idleRun, i int) func() { return s.abandoned() }},
	{"broker has half-closed", 40, func(s *idleRun, i int) func() { return s.abandoned() }},
	{"broker has sent an impossible length", 40, func(s *idleRun, i int) func() { return s.abandoned() }},
	{"broker has sent unknown answers", 40, func(s *idleRun, i int) func() { return s.abandoned() }},
	{"closed by the client", 40, func(s *idleRun, i int) func() {
		c := s.conn()
		done := s.pending(c, 10, nothing)
		s.in.Wait()
		s.closeConn(c)
		s.ended(done, "closed")
		return func() {}
	}},
	{"failed negotiation", 40, func(s *idleRun, i int) func() {
		b, err := kafka.NewBroker(s.srv.Addr, s.opts...)
		if err == nil {
			b.Close()
		}
		return func() {}
	}},
	{"failed calls", 40, func(s *idleRun, i int) func() {
		b := s.broker()
		b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}) // answered with too little
		s.in.Done()
		return func() { s.r.closeBroker(b) }
	}},
}

// waiting is a call whose response has begun to arrive.
func (s *idleRun) waiting() func() {
	c := s.conn()
	done := s.pending(c, 10, nothing)
	return func() {
		s.closeConn(c)
		s.ended(done, s.mode)
	}
}

// abandoned is a connection that the caller still holds while the broker has gone.
func (s *idleRun) abandoned() func() {
	c := s.conn()
	done := s.pending(c, 10, nothing)
	return func() {
		s.closeConn(c)
		s.ended(done, s.mode)
	}
}

// serve is the broker's side of every state.
func (s *idleRun) serve(c *SConn) {
	if t, ok := c.Conn.(*tls.Conn); ok && t.Handshake() != nil {
		return
	}
	switch s.mode {
	case "never used":
		<-s.stop
		return
	case "broker does not read":
		var h [1]byte
		c.Conn.Read(h[:])
		s.in.Done()
		<-s.stop
		return
	}
	for n := 0; ; n++ {
		f, err := c.readFrame()
		if err != nil {
			return
		}
		begin := func(b []byte) { // what is there is all there is
			c.write(b)
			s.in.Done()
		}
		head := func(size int) []byte {
			b := binary.BigEndian.AppendUint32(nil, uint32(size))
			return binary.BigEndian.AppendUint32(b, uint32(f.Corr))
		}
		if f.Key == 18 {
			switch s.mode {
			case "negotiating":
				s.in.Done()
				<-s.stop
				return
			case "failed negotiation":
				c.write(responseFrame(f.Corr, []byte{0}))
				s.in.Done()
				<-s.stop
				return
			}
			c.write(responseFrame(f.Corr, versionsBody(pinned(func(a *API) int { return 0 }), int(f.Ver))))
			continue
		}
		switch s.mode {
		case "idle after much use":
			if f.Key == 36 {
				resp := message.SaslAuthenticateResponse{AuthBytes: make([]byte, 7_000_000)}
				c.write(responseFrame(f.Corr, apiKeys[36].Resp.encode(reflect.ValueOf(&resp), int(f.Ver))))
				continue
			}
			c.write(responseFrame(f.Corr, []byte{0, 0}))
		case "idle after use":
			c.write(responseFrame(f.Corr, []byte{0, 0}))
		case "failed calls":
			c.write(responseFrame(f.Corr, []byte{0}))
		case "calls outstanding":
			if n == 19 {
				s.in.Done()
			}
		case "closed by the client":
			s.in.Done()
		case "part of a length received":
			begin([]byte{0, 0, 1})
		case "length received":
			begin(head(30)[:4])
		case "part of a message received":
			begin(append(head(30), 1, 2, 3))
		case "part of a large message received":
			begin(append(head(40_000_000), make([]byte, 9_000_000)...))
		case "caller busy while more arrives than is kept":
			c.write(responseFrame(f.Corr, []byte{0, 0}))
			go c.write(append(head(40_000_000), make([]byte, 20_000_000)...))
		case "broker has closed":
			c.Conn.Close()
			s.in.Done()
			return
		case "broker has reset":
			c.reset()
			s.in.Done()
			return
		case "broker has half-closed":
			switch t := c.Conn.(type) {
			case *net.TCPConn:
				t.CloseWrite()
			case *tls.Conn:
				t.CloseWrite()
			}
			s.in.Done()
		case "broker has sent an impossible length":
			begin([]byte{0xff, 0xff, 0xff, 0xf0, 1, 2, 3})
		case "broker has sent unknown answers":
			var b []byte
			for k := int32(1000); k < 1100; k++ {
				b = append(b, responseFrame(k, make([]byte, k))...)
			}
			begin(b)
		}
	}
}

func (r *Run) idle(st idleState, withTLS bool, ca *tlsWorld) {
	name := st.name
	n := st.n
	s := &idleRun{r: r, tls: withTLS, mode: st.name, stop: make(chan struct{})}
	s.srv = newServer(tlsHosts[0])
	if withTLS {
		name += ", TLS"
		n = max(4, n/4)
		s.srv.tlsConf = &tls.Config{Certificates: []tls.Certificate{ca.certs["good"+s.srv.Host]}}
		s.opts = append(s.opts, kafka.WithTLS(&tls.Config{RootCAs: ca.ca.pool}))
	}
	r.Doing("%s", name)
	s.srv.raw = s.serve
	s.srv.start()
	s.in.Add(n)
	var wg sync.WaitGroup
	leave := make([]func(), n)
	for i := range leave {
		wg.Add(1)
		go func() {
			defer wg.Done()
			leave[i] = st.enter(s, i)
		}()
	}
	r.awaitAll(&wg, "a connection could not be brought into the state", func() string { return name })
	wg.Add(1)
	go func() {
		defer wg.Done()
		s.in.Wait()
	}()
	r.awaitAll(&wg, "a connection could not be brought into the state", func() string { return name })
	debug.FreeOSMemory() // leaves nothing to collect during the measurement
	time.Sleep(50 * time.Millisecond)
	limit := idleShare + idleEach*float64(n)
	share, all := r.busy(limit)
	lib := 0
	stack := ""
	if share > limit {
		buf := make([]byte, 4<<20)
		buf = buf[:runtime.Stack(buf, true)]
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "savaki/kafka") {
				lib++
				if strings.Contains(g, "[run") || strings.Contains(g, "[sleep") || stack == "" {
					stack = g
				}
			}
		}
	}
	if share > limit {
		r.Violation("connections that only wait use processor time", "%d connections, %s: %.2f of a core at the least in %d windows of %v (%.2f); %d goroutines of the library, one of them:\n%s", n, name, share, len(all), idleWindow, all, lib, clip(stack, 1500))
	}
	r.Max("permille_of_a_core_most", int64(share*1000))
	r.Count("connections_observed", int64(n))
	close(s.stop)
	if st.name == "negotiating" {
		s.srv.stop()
	}
	for _, f := range leave {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	r.awaitAll(&wg, "a connection could not be closed", func() string { return name })
	s.srv.stop()
	r.Case(true, fp(name))
	r.Sampled(func() any { return fmt.Sprintf("%s: %d connections, %.4f of a core", name, n, share) })
}

func checkC27(r *Run) {
	requireBindings(r)
	r.rule = "groups of connections brought into each state in which they can only wait, or are over, then left alone while the processor time of the process is measured; distinct by state and TLS"
	if share, all := r.busy(idleShare); share > idleShare {
		r.Fail("the process uses %.2f of a core before there are any connections (%v)", share, all)
	}
	ca := newTLSWorld()
	rounds := r.N(1, 12)
	for round := 0; round < rounds; round++ {
		r.idleRings()
		for _, st := range idleStates {
			r.idle(st, false, ca)
			r.idle(st, true, ca)
		}
	}
}

// idleRings are rings on which one side waits for the other.
func (r *Run) idleRings() {
	r.Doing("rings")
	const n = 60
	var rings []*ring.Buffer
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		b := ring.New(4 + i%3*100)
		rings = append(rings, b)
		wg.Add(1)
		go func() {
			defer wg.Done()
			buf := make([]byte, 1000)
			switch i % 4 {
			case 0:
				b.ReadN(buf, 1)
			case 1: // some, not all
				b.WriteN(buf, 2)
				b.ReadN(buf, 3)
			case 2:
				b.WriteN(buf, 1000)
			case 3: // closed, both sides return
				b.WriteN(buf, 1)
				b.Close()
				b.ReadN(buf, 9)
				b.WriteN(buf, 1000)
			}
		}()
	}
	time.Sleep(50 * time.Millisecond)
	limit := idleShare + idleEach*n
	if share, all := r.busy(limit); share > limit {
		r.Violation("a ring on which one side only waits uses processor time", "%d rings: %.2f of a core at the least in %d windows of %v (%.2f)", n, share, len(all), idleWindow, all)
	}
	for _, b := range rings {
		b.Close()
	}
	r.awaitAll(&wg, "a closed ring does not let its reader or writer go", func() string { return "" })
	r.Case(true, fp("rings"))
}
