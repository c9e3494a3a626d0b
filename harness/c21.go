package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C21"] = checkC21 }

// doCall is one call of Do or Send and what was seen of it.
type doCall struct {
	uid      int64
	pad      int // bytes of padding in the request
	consume  int // what decode does with the response
	slow     time.Duration
	decErr   error
	encodes  atomic.Int32
	decodes  atomic.Int32
	returned atomic.Int32
	corr     atomic.Int32
	decoded  atomic.Int32 // decode finished
}

const (
	consumeAll = iota
	consumeNone
	consumeSome
	consumeBeyond
	consumeFail
	consumeFailEarly
)

// rawSession is one connection used through Do and Send with callbacks of the harness.
type rawSession struct {
	r     *Run
	desc  string
	mu    sync.Mutex
	corrs map[int32]int64 // correlation id -> call
	plan  map[int64][]byte
	sent  map[int64]bool // a response has been sent
	recv  map[int64]int  // whole requests the broker received
	calls map[int64]*doCall
}

func (s *rawSession) frame(e *message.Encoder, corr int32, c *doCall) {
	size := int32(10 + len(clientID) + 8 + c.pad)
	e.PutInt32(size)
	e.PutInt16(12)
	e.PutInt16(0)
	e.PutInt32(corr)
	e.PutString(clientID)
	e.PutInt64(c.uid)
	pad := make([]byte, c.pad)
	for len(pad) > 0 {
		n := min(len(pad), 8)
		if n == 8 {
			e.PutInt64(-1)
		} else {
			e.PutInt8(-1)
			n = 1
		}
		pad = pad[n:]
	}
}

func (s *rawSession) encode(c *doCall) kafka.EncodeFunc {
	return func(e *message.Encoder, corr int32) {
		if n := c.encodes.Add(1); n > 1 {
			s.r.Violation("the encode function of one call ran more than once", "call %d, %s", c.uid, s.desc)
		}
		if c.returned.Load() != 0 {
			s.r.Violation("the encode function ran after its call had returned", "call %d, %s", c.uid, s.desc)
		}
		s.mu.Lock()
		other, used := s.corrs[corr]
		s.corrs[corr] = c.uid
		s.mu.Unlock()
		if used {
			s.r.Violation("two calls on one connection were given the same correlation id", "id %d, calls %d and %d, %s", corr, other, c.uid, s.desc)
		}
		c.corr.Store(corr)
		s.frame(e, corr, c)
	}
}

var errDecode = errors.New("decode error of the caller")

func (s *rawSession) decode(c *doCall) kafka.DecodeFunc {
	return func(d *message.Decoder) error {
		if n := c.decodes.Add(1); n > 1 {
			s.r.Violation("the decode function of one call ran more than once", "call %d, %s", c.uid, s.desc)
		}
		late := func() {
			if c.returned.Load() != 0 {
				s.r.Violation("the decode function ran after its call had returned", "call %d, %s", c.uid, s.desc)
			}
		}
		late()
		if c.encodes.Load() == 0 {
			s.r.Violation("the decode function ran before the encode function", "call %d, %s", c.uid, s.desc)
		}
		if c.slow > 0 {
			time.Sleep(c.slow)
			late()
		}
		s.mu.Lock()
		want, ok := s.plan[c.uid], s.sent[c.uid]
		s.mu.Unlock()
		if !ok {
			s.r.Violation("the decode function ran although no response was sent", "call %d, %s", c.uid, s.desc)
		}
		err := error(nil)
		switch c.consume {
		case consumeAll, consumeBeyond, consumeFail:
			var got []byte
			for {
				v, e := d.Int8()
				if e != nil {
					if c.consume == consumeBeyond {
						err = e
					}
					break
				}
				got = append(got, byte(v))
			}
			if !bytes.Equal(got, want) {
				s.r.Violation("the decode function was given something other than the body of its response", "call %d: got %s, sent %s, %s", c.uid, hx(got), hx(want), s.desc)
			}
			if c.consume == consumeFail {
				err = c.decErr
			}
		case consumeSome:
			for i := 0; i < len(want)/2; i++ {
				v, e := d.Int8()
				if e != nil || byte(v) != want[i] {
					s.r.Violation("the decode function was given something other than the body of its response", "call %d: byte %d is %02x (%v), sent %s, %s", c.uid, i, byte(v), e, hx(want), s.desc)
				}
			}
		case consumeFailEarly:
			err = c.decErr
		}
		c.decErr = err
		late()
		c.decoded.Store(1)
		return err
	}
}

// do makes the call and judges its outcome.
func (s *rawSession) do(conn *kafka.Conn, c *doCall) error {
	s.mu.Lock()
	s.calls[c.uid] = c
	s.mu.Unlock()
	err := conn.Do(s.encode(c), s.decode(c))
	c.returned.Store(1)
	dec, done := c.decodes.Load(), c.decoded.Load()
	switch {
	case dec != done:
		s.r.Violation("a call returned while its decode function was running", "call %d: %v, %s", c.uid, err, s.desc)
	case err == nil && dec == 0:
		s.r.Violation("a call reported success without a response having been decoded", "call %d, %s", c.uid, s.desc)
	case err == nil && c.decErr != nil:
		s.r.Violation("a call reported success although its decode function failed", "call %d: %v, %s", c.uid, c.decErr, s.desc)
	case err == nil && c.encodes.Load() != 1:
		s.r.Violation("a call succeeded although its encode function did not run once", "call %d: ran %d times, %s", c.uid, c.encodes.Load(), s.desc)
	}
	return err
}

func newDoCall(rng *rand.Rand, uid int64) *doCall {
	c := &doCall{uid: uid, consume: rng.IntN(6), decErr: fmt.Errorf("%w %d", errDecode, uid)}
	switch rng.IntN(8) {
	case 0:
		c.pad = rng.IntN(300)
	case 1:
		c.pad = rng.IntN(9000)
	}
	if rng.IntN(6) == 0 {
		c.slow = time.Duration(rng.IntN(400)) * time.Microsecond
	}
	return c
}

func checkC21(r *Run) {
	r.rule = "sessions of goroutines using Do and Send directly, with callbacks that read all, some, none or too much of the response, fail or are slow; answered in any order, twice or not at all, with the connection closed, reset or cut at random moments and with responses that arrive while the request is still being written; distinct by order and outcome of the calls; non-trivial if calls overlapped a fault or a failing callback"
	var uid atomic.Int64
	sessions := r.N(260, 9000)
	for si := 0; si < sessions; si++ {
		rng := r.Rng("session", si)
		profile := perturb(rng)
		r.rawSession(rng, si, profile, &uid)
	}
	calm()
	early := r.N(60, 2000)
	for i := 0; i < early; i++ {
		rng := r.Rng("early", i)
		profile := perturb(rng)
		r.earlyAnswers(rng, i, profile, &uid)
	}
	calm()
	r.earlyReplies(r.N(200, 10_000))
	r.yieldStats()
}

func (r *Run) newRawSession(desc string) *rawSession {
	return &rawSession{r: r, desc: desc, corrs: map[int32]int64{}, plan: map[int64][]byte{}, sent: map[int64]bool{}, recv: map[int64]int{}, calls: map[int64]*doCall{}}
}

func (r *Run) connect(addr string) *kafka.Conn {
	var c *kafka.Conn
	var err error
	done := make(chan struct{})
	go func() {
		defer close(done)
		c, err = kafka.Connect(addr)
	}()
	r.await(done, "connecting never returned", func() string { return addr })
	if err != nil {
		r.Violation("connecting to a listening broker failed", "%v", err)
	}
	return c
}

func (r *Run) rawSession(rng *rand.Rand, si int, profile string, uid *atomic.Int64) {
	end := []string{"graceful", "client close", "peer close", "peer reset", "cut response", "concurrent closes"}[rng.IntN(6)]
	desc := fmt.Sprintf("session %d, end %s, perturbation %s", si, end, profile)
	r.Doing("%s", desc)
	s := r.newRawSession(desc)
	callers, calls := 1+rng.IntN(8), 2+rng.IntN(12)
	total := callers * calls
	endAfter := int64(rng.IntN(total + 1)) // answered calls after which the session ends
	var answered atomic.Int64
	trigger := make(chan struct{})
	var once sync.Once
	check := func() {
		if answered.Load() >= endAfter {
			once.Do(func() { close(trigger) })
		}
	}
	srv := newServer("127.0.0.1")
	srng := r.Rng("server", si)
	var smu sync.Mutex
	var held []*Frame
	var order []byte
	seen, least, most := 0, int32(math.MaxInt32), int32(math.MinInt32)
	ended := false
	answer := func(c *SConn, f *Frame) {
		id := int64(binary.BigEndian.Uint64(f.Body))
		body := newGen(srng, true).bytes(srng.IntN(40))
		s.mu.Lock()
		s.plan[id] = body
		s.sent[id] = true
		s.mu.Unlock()
		order = append(order, byte(id))
		out := responseFrame(f.Corr, body)
		if srng.IntN(6) == 0 { // a second response, with other contents
			out = append(out, responseFrame(f.Corr, []byte("again"))...)
			r.Count("second_responses", 1)
		}
		if srng.IntN(8) == 0 && seen >= 8 && least > 0 && most < 1<<20 {
			out = append(responseFrame(-5, []byte("nobody's")), out...)
		}
		c.write(out)
		answered.Add(1)
		check()
	}
	srv.handle = func(c *SConn, f *Frame) {
		smu.Lock()
		defer smu.Unlock()
		if len(f.Body) < 8 {
			r.Violation("the broker received a request no caller made", "%s: %s", hx(f.Body), desc)
		}
		id := int64(binary.BigEndian.Uint64(f.Body))
		seen++
		least, most = min(least, f.Corr), max(most, f.Corr)
		s.mu.Lock()
		s.recv[id]++
		n := s.recv[id]
		s.mu.Unlock()
		if n > 1 {
			r.Violation("one call was sent more than once", "call %d, %s", id, desc)
		}
		if end != "graceful" && ended && srng.IntN(2) == 0 {
			return
		}
		if int32(id>>32) == 1 { // made with Send
			return
		}
		if srng.IntN(3) == 0 && len(held) < 4 {
			held = append(held, f)
		} else {
			answer(c, f)
		}
		if len(held) > 0 && (srng.IntN(2) == 0 || len(held) >= callers) {
			srng.Shuffle(len(held), func(i, j int) { held[i], held[j] = held[j], held[i] })
			for _, h := range held {
				answer(c, h)
			}
			held = nil
		}
	}
	srv.start()
	conn := r.connect(srv.Addr)
	var wg, closers sync.WaitGroup
	var failed, failing, ok, sends atomic.Int64
	stopFlush := make(chan struct{})
	flusherDone := make(chan struct{})
	go func() { // answers what is held once nothing else comes
		defer close(flusherDone)
		for {
			select {
			case <-stopFlush:
				return
			case <-time.After(2 * time.Millisecond):
			}
			smu.Lock()
			for _, h := range held {
				answer(h.Conn, h)
			}
			held = nil
			smu.Unlock()
		}
	}()
	var ending atomic.Bool
	for g := 0; g < callers; g++ {
		grng := r.Rng("caller", si, g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < calls; i++ {
				if grng.IntN(7) == 0 {
					c := &doCall{uid: 1<<32 | uid.Add(1), pad: grng.IntN(50)}
					s.mu.Lock()
					s.calls[c.uid] = c
					s.mu.Unlock()
					err := conn.Send(s.encode(c))
					c.returned.Store(1)
					if err == nil && c.encodes.Load() != 1 {
						r.Violation("a send succeeded although its encode function did not run once", "ran %d times, %s", c.encodes.Load(), desc)
					}
					if err != nil && !ending.Load() {
						r.Violation("a send failed on a healthy connection", "%v, %s", err, desc)
					}
					sends.Add(1)
					answered.Add(1)
					check()
					continue
				}
				c := newDoCall(grng, uid.Add(1))
				if c.consume >= consumeBeyond {
					failing.Add(1)
				}
				err := s.do(conn, c)
				if !ending.Load() {
					if c.decodes.Load() == 0 {
						r.Violation("a call failed on a healthy connection before its response was decoded", "call %d: %v, %s", c.uid, err, desc)
					}
					if c.decErr != nil && !errors.Is(err, c.decErr) {
						r.Violation("a call did not return the error of its decode function", "call %d: returned %v, decode returned %v, %s", c.uid, err, c.decErr, desc)
					}
					if c.decErr == nil && err != nil {
						r.Violation("a call failed on a healthy connection although its response was decoded", "call %d: %v, %s", c.uid, err, desc)
					}
				}
				if err != nil {
					failed.Add(1)
				} else {
					ok.Add(1)
				}
			}
		}()
	}
	// calls that write nothing wait for the end of the connection, however close to it they
	// are made
	quiet := 0
	if end != "graceful" && rng.IntN(2) == 0 {
		quiet = 1 + rng.IntN(4)
	}
	for g := 0; g < quiet; g++ {
		wg.Add(1)
		after := endAfter - int64(rng.IntN(3))
		pause := time.Duration(rng.IntN(800)) * time.Microsecond
		go func() {
			defer wg.Done()
			for answered.Load() < after && !ending.Load() {
				time.Sleep(20 * time.Microsecond)
			}
			time.Sleep(pause)
			if conn.Do(func(*message.Encoder, int32) {}, func(*message.Decoder) error { return nil }) == nil {
				r.Violation("a call reported success without a response having been decoded", "a call that writes nothing, %s", desc)
			}
			r.Count("calls_that_write_nothing", 1)
		}()
	}
	callersDone := make(chan struct{})
	go func() { wg.Wait(); close(callersDone) }()
	if end == "graceful" {
		r.await(callersDone, "a call never returned although its response was sent", func() string { return desc })
		s.mu.Lock()
		want := len(s.calls)
		s.mu.Unlock()
		// a response is proof that everything written before arrived
		last := newDoCall(rng, uid.Add(1))
		last.consume = consumeAll
		done := make(chan struct{})
		go func() { defer close(done); s.do(conn, last) }()
		r.await(done, "a call never returned although its response was sent", func() string { return desc })
		s.mu.Lock()
		for id := range s.calls {
			if s.recv[id] != 1 {
				r.Violation("a request was not written as one whole frame", "call %d received %d times, %s", id, s.recv[id], desc)
			}
		}
		s.mu.Unlock()
		r.Count("requests_accounted_for", int64(want+1))
	} else {
		select {
		case <-trigger:
		case <-callersDone:
		}
		if quiet > 0 {
			time.Sleep(time.Duration(rng.IntN(400)) * time.Microsecond)
		}
		ending.Store(true)
		smu.Lock()
		ended = true
		h := held
		held = nil
		smu.Unlock()
		scs := srv.connections()
		switch end {
		case "peer close":
			for _, c := range scs {
				c.Conn.Close()
			}
		case "peer reset":
			for _, c := range scs {
				c.reset()
			}
		case "cut response":
			for _, c := range scs {
				c.wmu.Lock() // nothing may be written behind what is cut
				if len(h) > 0 {
					f := responseFrame(h[0].Corr, []byte("never complete"))
					c.Conn.Write(f[:1+rng.IntN(len(f)-1)])
				}
				c.Conn.Close()
				c.wmu.Unlock()
			}
		case "concurrent closes":
			for i := 0; i < 3; i++ {
				closers.Add(1)
				go func() { defer closers.Done(); conn.Close() }()
			}
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			if end == "client close" {
				conn.Close()
			}
			<-callersDone
			closers.Wait()
		}()
		r.await(done, "a call never returned after the connection had ended", func() string { return desc })
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		conn.Close()
		// later calls
		ending.Store(true)
		if rng.IntN(2) == 0 { // also if they write nothing
			nothing := func(e *message.Encoder, corr int32) {}
			if conn.Do(nothing, func(*message.Decoder) error { return nil }) == nil || conn.Send(nothing) == nil {
				r.Violation("a call that writes nothing reported success on a closed connection", "%s", desc)
			}
		}
		for i := 0; i < 2; i++ {
			c := newDoCall(rng, uid.Add(1))
			if s.do(conn, c) == nil {
				r.Violation("a call on a closed connection reported success", "%s", desc)
			}
			if c.decodes.Load() != 0 {
				r.Violation("the decode function ran on a closed connection", "%s", desc)
			}
		}
		c := &doCall{uid: 1<<32 | uid.Add(1)}
		if conn.Send(s.encode(c)) == nil {
			r.Violation("a send on a closed connection reported success", "%s", desc)
		}
		c.returned.Store(1)
	}()
	r.await(done, "closing, or a call after it, never returned", func() string { return desc })
	close(stopFlush)
	<-flusherDone
	srv.stop()
	r.Count("calls", int64(total))
	r.Count("calls_failed", failed.Load())
	r.Count("calls_with_failing_callback", failing.Load())
	r.Count("sends", sends.Load())
	r.Count("end_"+end, 1)
	r.Case(end != "graceful" || failing.Load() > 0, fp(order, end, failed.Load()))
	r.Sampled(func() any {
		return map[string]any{"end": end, "callers": callers, "calls_each": calls, "ok": ok.Load(), "failed": failed.Load(), "perturbation": profile}
	})
}

// earlyAnswers: the broker answers as soon as it has seen the request's header, while
// the client is still writing the rest, and then breaks the connection.
func (r *Run) earlyAnswers(rng *rand.Rand, i int, profile string, uid *atomic.Int64) {
	end := []string{"reset", "close", "drain"}[rng.IntN(3)]
	desc := fmt.Sprintf("early answer %d, then %s, perturbation %s", i, end, profile)
	r.Doing("%s", desc)
	s := r.newRawSession(desc)
	srng := r.Rng("earlyserver", i)
	gap := time.Duration(srng.IntN(600)) * time.Microsecond
	srv := newServer("127.0.0.1")
	srv.raw = func(c *SConn) {
		var h [14]byte
		for n := 0; n < len(h); {
			k, err := c.Conn.Read(h[n:])
			if err != nil {
				return
			}
			n += k
		}
		corr := int32(binary.BigEndian.Uint32(h[8:]))
		s.mu.Lock()
		id := s.corrs[corr]
		body := []byte("early answer")
		s.plan[id] = body
		s.sent[id] = true
		s.mu.Unlock()
		c.write(responseFrame(corr, body))
		time.Sleep(gap)
		switch end {
		case "reset":
			c.reset()
		case "close":
			c.Conn.Close()
		default:
			buf := make([]byte, 1<<20)
			for {
				if _, err := c.Conn.Read(buf); err != nil {
					return
				}
			}
		}
	}
	srv.start()
	conn := r.connect(srv.Addr)
	c := newDoCall(rng, uid.Add(1))
	c.pad = 1 << 20 << rng.IntN(4)
	c.slow = time.Duration(rng.IntN(3)) * 300 * time.Microsecond
	var err error
	done := make(chan struct{})
	go func() { defer close(done); err = s.do(conn, c) }()
	r.await(done, "a call never returned although its connection ended", func() string { return desc })
	if end == "drain" && c.decErr == nil && err != nil {
		r.Violation("a call failed on a healthy connection although its response was decoded", "%v, %s", err, desc)
	}
	done = make(chan struct{})
	go func() { defer close(done); conn.Close() }()
	r.await(done, "closing never returned", func() string { return desc })
	srv.stop()
	r.Count("early_answers", 1)
	if err != nil && c.decodes.Load() == 1 && c.decErr == nil {
		r.Count("early_answers_decoded_before_the_write_failed", 1)
	}
	r.Case(true, fp("early", end, err == nil, c.decodes.Load(), c.pad))
}
