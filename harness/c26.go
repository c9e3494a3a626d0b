package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"reflect"
	"slices"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C26"], checks["C26L"] = checkC26, checkC26L }

// waitCase is one connection on which something takes a long time.
type waitCase struct {
	r        *Run
	rng      *rand.Rand
	d        time.Duration
	kind     string
	options  string
	opts     []kafka.Option
	srv      *Server
	pause    atomic.Bool // the next request is subject to the wait
	paused   atomic.Bool
	position int
	mu       sync.Mutex
	sockets  []int // the client's sockets whose time limits are yet to be looked at
}

// keep remembers a socket the dialer makes.
func (w *waitCase) keep(_, _ string, c syscall.RawConn) error {
	return c.Control(func(fd uintptr) {
		if dup, err := dupCloexec(int(fd)); err == nil {
			w.mu.Lock()
			w.sockets = append(w.sockets, dup)
			w.mu.Unlock()
		}
	})
}

// scaleSockets makes the limits the kernel enforces on the client's sockets run as fast as
// the clocks of the process.
func (w *waitCase) scaleSockets() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, fd := range w.sockets {
		const userTimeout = 18 // TCP_USER_TIMEOUT, milliseconds
		if ms, err := syscall.GetsockoptInt(fd, syscall.IPPROTO_TCP, userTimeout); err == nil {
			w.r.Count("sockets_looked_at", 1)
			if ms > 0 {
				w.r.Count("socket_timeouts", 1)
				syscall.SetsockoptInt(fd, syscall.IPPROTO_TCP, userTimeout, max(1, ms/int(timeScale)))
			}
		}
		syscall.Close(fd)
	}
	w.sockets = nil
}

var waitKinds = []string{"idle", "slow answer", "answer in parts", "slow negotiation", "slow reading", "slow lookup", "others served meanwhile", "large answer in parts", "slow handshake"}

func (w *waitCase) desc() string {
	return fmt.Sprintf("%s of %v, %s, cut at %d", w.kind, w.d, w.options, w.position)
}

func (w *waitCase) beat(b *kafka.Broker) error {
	_, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g", MemberId: "m"})
	return err
}

func (w *waitCase) must(what string, err error) {
	if err != nil {
		w.r.Violation(what, "%s: %v", w.desc(), err)
	}
}

// answer sends a response, in two parts with the wait between them if that is due.
func (w *waitCase) answer(c *SConn, frame []byte) {
	due := w.pause.CompareAndSwap(true, false)
	if !due {
		c.write(frame)
		return
	}
	switch w.kind {
	case "answer in parts", "large answer in parts":
		c.write(frame[:w.position])
		time.Sleep(w.d)
		w.paused.Store(true)
		c.write(frame[w.position:])
	default:
		time.Sleep(w.d)
		w.paused.Store(true)
		c.write(frame)
	}
}

func (w *waitCase) run(ca *tlsWorld) {
	r, rng := w.r, w.rng
	host := tlsHosts[rng.IntN(len(tlsHosts))]
	w.srv = newServer(host)
	w.srv.ranges = pinned(func(a *API) int {
		if a.Key == 3 {
			return 1
		}
		return 0
	})
	for _, o := range []string{"TLS", "time limit", "deadline", "keep-alive"} {
		if rng.IntN(3) > 0 || o == "deadline" && w.kind == "slow lookup" {
			continue // a deadline is absolute: the connection after the lookup would be too late
		}
		w.options += o + " "
	}
	if w.kind == "slow handshake" { // a time limit would cover it
		w.options = "TLS "
		if rng.IntN(2) == 0 {
			w.options += "keep-alive "
		}
	}
	if (w.options == "" || w.options == "TLS ") && rng.IntN(2) == 0 {
		w.options += "default dialer "
	}
	limit := timeScale * time.Duration(300+rng.IntN(300)) * time.Millisecond
	if w.kind == "slow lookup" {
		limit = timeScale * 3 * time.Second // the second connection has no second try
	}
	tlsConf := kafka.WithTLS(&tls.Config{RootCAs: ca.ca.pool})
	if contains(w.options, "TLS") {
		w.srv.tlsConf = &tls.Config{Certificates: []tls.Certificate{ca.certs["good"+host]}}
		w.opts = append(w.opts, tlsConf)
	}
	options := func() []kafka.Option { // time limits are a matter of each connection
		if contains(w.options, "default dialer") {
			return w.opts
		}
		d := &net.Dialer{Control: w.keep}
		if contains(w.options, "time limit") {
			d.Timeout = limit
		}
		if contains(w.options, "deadline") {
			d.Deadline = time.Now().Add(limit)
		}
		if contains(w.options, "keep-alive") {
			d.KeepAlive = 100 * time.Millisecond
		}
		return append(slices.Clone(w.opts), kafka.WithDialer(d))
	}
	limited := contains(w.options, "time limit") || contains(w.options, "deadline")
	if limited && w.d < limit {
		w.d += limit
	}
	meta := message.MetadataResponse{ControllerId: 7, Brokers: []message.MetadataResponseBroker3{{NodeId: 7, Host: host, Port: w.srv.Port}}}
	big := make([]byte, 6_000_000)
	var slowRead atomic.Bool
	defer w.scaleSockets()
	w.srv.versions = func(c *SConn, f *Frame) {
		w.scaleSockets()
		b := responseFrame(f.Corr, versionsBody(w.srv.ranges, int(f.Ver)))
		if w.kind == "slow negotiation" {
			w.answer(c, b)
			return
		}
		c.write(b)
	}
	w.srv.handle = func(c *SConn, f *Frame) {
		switch f.Key {
		case 3:
			w.answer(c, responseFrame(f.Corr, apiKeys[3].Resp.encode(reflect.ValueOf(&meta), int(f.Ver))))
		case 0:
			resp := message.ProduceResponse{}
			w.answer(c, responseFrame(f.Corr, apiKeys[0].Resp.encode(reflect.ValueOf(&resp), int(f.Ver))))
		case 36: // authenticate: a response with a byte field
			resp := message.SaslAuthenticateResponse{AuthBytes: big}
			w.answer(c, responseFrame(f.Corr, apiKeys[36].Resp.encode(reflect.ValueOf(&resp), int(f.Ver))))
		case 11:
			go func() { // answered late while others are served
				time.Sleep(w.d)
				w.paused.Store(true)
				resp := message.JoinGroupResponse{MemberId: "late"}
				c.write(responseFrame(f.Corr, apiKeys[11].Resp.encode(reflect.ValueOf(&resp), int(f.Ver))))
			}()
		default:
			w.answer(c, responseFrame(f.Corr, []byte{0, 0}))
		}
	}
	if w.kind == "slow reading" {
		w.srv.onAccept = func(c *SConn) net.Conn { return &slowReader{Conn: c.Conn, due: &slowRead, w: w} }
	}
	if w.kind == "slow handshake" {
		w.srv.onAccept = func(c *SConn) net.Conn { return &slowHandshake{Conn: c.Conn, w: w} }
	}
	w.srv.start()
	defer w.srv.stop()
	connect := func() *kafka.Broker {
		var b *kafka.Broker
		var err error
		for try := 0; try < 40; try++ { // with a time limit a slow machine is an excuse
			b, err = kafka.NewBroker(w.srv.Addr, options()...)
			if err == nil || !limited || w.kind == "slow negotiation" && w.paused.Load() {
				break
			}
		}
		w.must("connecting to a slow broker failed", err)
		return b
	}
	start := time.Now()
	waited := func() {
		if !w.paused.Load() || time.Since(start) < w.d-timeScale*time.Microsecond {
			r.Violation("a call returned before its response was sent", "%s", w.desc())
		}
	}
	switch w.kind {
	case "slow negotiation", "slow handshake":
		w.pause.Store(true)
		b := connect()
		waited()
		w.must("a call failed on a connection negotiated slowly", w.beat(b))
		r.closeBroker(b)
		return
	case "slow lookup":
		var err error
		var b *kafka.Broker
		for try := 0; try < 40; try++ {
			w.pause.Store(true)
			w.paused.Store(false)
			b, err = kafka.NewClient([]string{w.srv.Addr}, options()...).DialController(context.Background())
			if err == nil || !limited || w.paused.Load() {
				break
			}
		}
		w.must("a lookup failed although it was answered", err)
		waited()
		w.must("a call failed on a connection looked up slowly", w.beat(b))
		r.closeBroker(b)
		return
	}
	b := connect()
	w.must("a call failed", w.beat(b))
	start = time.Now()
	var got []byte
	switch w.kind {
	case "idle":
		time.Sleep(w.d)
	case "slow answer":
		w.pause.Store(true)
		w.must("a call failed although its response was sent", w.beat(b))
		waited()
	case "answer in parts":
		w.position = 1 + rng.IntN(9)
		w.pause.Store(true)
		w.must("a call failed although its response was sent", w.beat(b))
		waited()
	case "large answer in parts":
		w.position = 1 + rng.IntN(len(big))
		w.pause.Store(true)
		resp, err := b.SaslAuthenticate(message.SaslAuthenticateRequest{AuthBytes: []byte("x")})
		w.must("a call failed although its response was sent", err)
		waited()
		got = resp.AuthBytes
		if len(got) != len(big) {
			r.Violation("a response did not arrive complete", "%s: %d bytes of %d", w.desc(), len(got), len(big))
		}
	case "slow reading":
		slowRead.Store(true)
		_, err := b.Produce(message.ProduceRequest{Acks: 1, Topics: []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{Records: make([]byte, 20_000_000)}}}}})
		w.must("a call failed although its response was sent", err)
		waited()
	case "others served meanwhile":
		done := make(chan struct{})
		go func() {
			defer close(done)
			resp, err := b.JoinGroup(message.JoinGroupRequest{GroupId: "g"})
			w.must("a call failed although its response was sent", err)
			if resp.MemberId != "late" {
				r.Violation("a call returned something other than its response", "%s: %+v", w.desc(), resp)
			}
			waited()
		}()
		for end := time.Now().Add(w.d); time.Now().Before(end); time.Sleep(min(timeScale*50*time.Millisecond, w.d/7)) {
			w.must("a call failed while another waited", w.beat(b))
			r.Count("calls_served_meanwhile", 1)
		}
		<-done
	}
	for i := 0; i < 3; i++ {
		w.must("a call failed on a connection that had waited", w.beat(b))
	}
	r.closeBroker(b)
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

func dupCloexec(fd int) (int, error) {
	n, _, errno := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_DUPFD_CLOEXEC, 0)
	if errno != 0 {
		return 0, errno
	}
	return int(n), nil
}

// slowHandshake answers the first message of the handshake late, once.
type slowHandshake struct {
	net.Conn
	w *waitCase
}

func (s *slowHandshake) Write(b []byte) (int, error) {
	if s.w.pause.CompareAndSwap(true, false) {
		time.Sleep(s.w.d)
		s.w.paused.Store(true)
	}
	return s.Conn.Write(b)
}

// slowReader stops reading for a while, once.
type slowReader struct {
	net.Conn
	due  *atomic.Bool
	w    *waitCase
	read int
}

func (s *slowReader) Read(b []byte) (int, error) {
	n, err := s.Conn.Read(b)
	if s.due.Load() {
		s.read += n
		if s.read > 100_000 && s.due.CompareAndSwap(true, false) {
			time.Sleep(s.w.d)
			s.w.paused.Store(true)
		}
	}
	return n, err
}

var _ io.Reader = (*slowReader)(nil)

func checkC26(r *Run) {
	requireBindings(r)
	longest := 31 * time.Second
	if r.Thorough() {
		longest = 15 * time.Minute
	}
	r.rule = "connections that are idle, or whose broker takes long to negotiate, to answer, to complete an answer or to go on reading, for times from milliseconds to " + longest.String() + " and a little beyond every duration in the library's source, with TLS and with dialers whose time limits are shorter; distinct by what took long, how long, and the options"
	times := []time.Duration{50 * time.Millisecond, 350 * time.Millisecond, 1100 * time.Millisecond, 2200 * time.Millisecond, 3300 * time.Millisecond, 5200 * time.Millisecond, 10300 * time.Millisecond, 15300 * time.Millisecond, 20300 * time.Millisecond, 30500 * time.Millisecond}
	if r.Thorough() {
		times = append(times, 45*time.Second, 61*time.Second, 95*time.Second, 122*time.Second, 305*time.Second, 602*time.Second)
	}
	for _, d := range dictTimes {
		if d < time.Millisecond || slices.Contains(times, d) {
			continue
		}
		if d+d/20+200*time.Millisecond <= max(longest, 2*time.Minute) {
			times = append(times, d+d/20+200*time.Millisecond)
		}
	}
	r.waits(times)
}

// checkC26L: the same with clocks, timers and deadlines that run faster, for waits of
// hours and days.
func checkC26L(r *Run) {
	requireBindings(r)
	if timeScale == 1 {
		r.Fail("built without the faster clock")
	}
	r.rule = "the same for hours to days, with the clocks, timers and deadlines of the process running 10,000 times as fast"
	began := time.Now()
	times := []time.Duration{time.Hour, 3 * time.Hour, 10 * time.Hour, 26 * time.Hour}
	longest := 30 * time.Hour
	if r.Thorough() {
		times = append(times, 49*time.Hour, 8*24*time.Hour, 32*24*time.Hour)
		longest = 40 * 24 * time.Hour
	}
	beyond := 0
	for _, d := range dictTimes {
		if d < time.Minute {
			continue
		}
		if d+d/20 > longest {
			beyond++
		} else {
			times = append(times, d+d/20)
		}
	}
	if beyond > 0 {
		r.assume = append(r.assume, fmt.Sprintf("%d durations in the library's source are longer than anything waited for", beyond))
	}
	r.waits(times)
	r.counters["hours_of_process_time"] = int64(time.Since(began).Hours())
}

func (r *Run) waits(times []time.Duration) {
	ca := newTLSWorld()
	var cases []*waitCase
	for i, d := range times {
		reps := 3
		if len(times) > 24 {
			reps = 1
		}
		for k := range waitKinds {
			for rep := 0; rep < reps; rep++ {
				cases = append(cases, &waitCase{r: r, rng: r.Rng("wait", i, k, rep), d: d, kind: waitKinds[k]})
			}
		}
	}
	latest := time.Now().Add(slices.Max(times) + timeScale*10*time.Second)
	go func() { // waiting is progress as long as it is meant
		for time.Now().Before(latest) {
			r.progress.Add(1)
			time.Sleep(timeScale * time.Second)
		}
	}()
	var wg sync.WaitGroup
	for _, w := range cases {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.run(ca)
			r.Case(true, fp(w.desc()))
			r.Count("waited: "+w.kind, 1)
			r.Max("longest_wait_ms", w.d.Milliseconds())
			r.Sampled(func() any { return w.desc() })
		}()
	}
	r.awaitAll(&wg, "a call never returned although its response was sent", func() string { return "" })
}
