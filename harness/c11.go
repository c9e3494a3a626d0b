package main

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C11"] = checkC11 }

var uids atomic.Int64

// smallAPIs are used where the API does not matter.
func smallAPIs() []*API {
	var out []*API
	for _, k := range []int16{3, 10, 12, 9, 15, 1, 2, 8} {
		out = append(out, apiKeys[k])
	}
	return out
}

// oneCall is a request with the response the broker holds for it.
type oneCall struct {
	a         *API
	ver       int
	req, resp reflect.Value
	body      []byte // encoded response
	key       string
}

func newCall(rng *rand.Rand, a *API, ver int) *oneCall {
	tag := fmt.Sprintf("u%d.", uids.Add(1))
	c := &oneCall{a: a, ver: ver, req: tagged(rng, a.Req, tag, 1), resp: tagged(rng, a.Resp, tag, 2)}
	if a.Name == "Produce" {
		c.req.Elem().FieldByName("Acks").SetInt(1)
	}
	c.body = a.Resp.encode(c.resp, ver)
	c.key = fmt.Sprint(a.Key, "|") + string(a.Req.encode(c.req, ver))
	return c
}

func frameKey(f *Frame) string { return fmt.Sprint(f.Key, "|") + string(f.Body) }

func (r *Run) mustError(what string, err error, detail string) {
	if err == nil {
		r.Violation("a call reported success without a response", "%s: %s", what, detail)
	}
}

func endConn(c *SConn, mode string) {
	switch mode {
	case "close":
		c.Conn.Close()
	case "reset":
		c.reset()
	case "bad length":
		c.write([]byte{0xff, 0xff, 0xff, byte(c.frames)})
	case "half-close", "half-close unread":
		if t, ok := c.Conn.(*net.TCPConn); ok {
			t.CloseWrite()
		}
	case "stall":
	}
}

// afterwards: every later call fails, closing returns, repeatedly and concurrently.
func (r *Run) afterwards(rng *rand.Rand, b *kafka.Broker, desc string, closed bool) {
	later := func(when string) {
		c := newCall(rng, apiKeys[12], apiKeys[12].LibMax)
		_, err := invoke(b, c.a, c.req)
		r.mustError("call "+when, err, desc)
		p := message.ProduceRequest{Acks: 1, Topics: []message.TopicProduceData0{{Name: "t"}}}
		_, err = b.Produce(p)
		r.mustError("call "+when, err, desc)
	}
	if !closed {
		later("after the connection was lost")
	}
	var wg sync.WaitGroup
	for i := 0; i < 1+rng.IntN(3); i++ {
		wg.Add(1)
		go func() { defer wg.Done(); b.Close() }()
	}
	wg.Wait()
	b.Close()
	later("after closing")
}

// cutResponses: n calls in flight, their responses are cut after k bytes.
func (r *Run) cutResponses(rng *rand.Rand, n, k int, mode string) (total int, info string) {
	pool := smallAPIs()
	calls := make([]*oneCall, n)
	index := map[string]int{}
	for i := range calls {
		a := pool[rng.IntN(len(pool))]
		calls[i] = newCall(rng, a, a.LibMax)
		index[calls[i].key] = i
	}
	order := rng.Perm(n)
	complete := make([]bool, n)
	for _, c := range calls {
		total += 8 + len(c.body)
	}
	if k > total {
		k = total
	}
	desc := fmt.Sprintf("%d calls in flight, responses of %d bytes cut after %d by %s, order %v", n, total, k, mode, order)
	srv := newServer("127.0.0.1")
	var frames = make([]*Frame, n)
	var got int
	pos := 0
	for _, i := range order {
		pos += 8 + len(calls[i].body)
		complete[i] = pos <= k
	}
	srng := rand.New(rand.NewPCG(rng.Uint64(), 7))
	cut := make(chan struct{})
	srv.handle = func(c *SConn, f *Frame) {
		if got >= n {
			return // nobody is answered after the cut
		}
		i, ok := index[frameKey(f)]
		if !ok {
			r.Violation("the broker received a request no caller made", "%s: key %d body %s", desc, f.Key, hx(f.Body))
		}
		frames[i] = f
		got++
		if got == n {
			var out []byte
			for _, i := range order {
				out = append(out, responseFrame(frames[i].Corr, calls[i].body)...)
			}
			c.writeSplit(srng, out[:k])
			endConn(c, mode)
			close(cut)
		}
	}
	srv.start()
	defer srv.stop()
	b, err := kafka.NewBroker(srv.Addr)
	if err != nil {
		r.Violation("connecting to a well-behaved broker failed", "%v", err)
	}
	var wg sync.WaitGroup
	okCount := atomic.Int64{}
	for i, c := range calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			resp, err := invoke(b, c.a, c.req)
			if err != nil {
				return
			}
			okCount.Add(1)
			if !complete[i] {
				r.Violation("a call reported success without a complete response", "%s: call %d (%s) returned %s", desc, i, c.a.Name, short(resp.Interface()))
			}
			if df := c.a.Resp.diff(c.resp, resp, c.ver); df != "" {
				r.Violation("a call returned something other than its response", "%s: call %d (%s): %s", desc, i, c.a.Name, df)
			}
		}()
	}
	if mode == "stall" {
		<-cut
		time.Sleep(time.Duration(rng.IntN(300)) * time.Microsecond)
		for i := 0; i < 1+rng.IntN(2); i++ {
			wg.Add(1)
			go func() { defer wg.Done(); b.Close() }()
		}
	}
	wg.Wait()
	r.afterwards(rng, b, desc, mode == "stall")
	r.Count("calls_in_flight_at_a_fault", int64(n))
	r.Count("calls_answered_before_the_fault", okCount.Load())
	return total, fmt.Sprint("cut responses ", n, " ", k, " ", mode, " ", order)
}

// cutRequests: the broker reads k bytes of the requests, then ends the connection or
// stops reading while the client is closed.
func (r *Run) cutRequests(rng *rand.Rand, n, k int, big bool, mode string) string {
	desc := fmt.Sprintf("%d calls, broker stops after %d request bytes (big %v) by %s", n, k, big, mode)
	srv := newServer("127.0.0.1")
	release := make(chan struct{})
	reached := make(chan struct{})
	srv.raw = func(c *SConn) {
		f, err := c.readFrame()
		if err != nil {
			close(reached)
			return
		}
		c.write(responseFrame(f.Corr, versionsBody(srv.ranges, int(f.Ver))))
		io.CopyN(io.Discard, c.Conn, int64(k))
		endConn(c, mode)
		close(reached)
		if mode == "half-close" { // keeps reading
			io.Copy(io.Discard, c.Conn)
			return
		}
		<-release
	}
	srv.start()
	b, err := kafka.NewBroker(srv.Addr)
	if err != nil {
		r.Violation("connecting to a well-behaved broker failed", "%v", err)
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		crng := rand.New(rand.NewPCG(rng.Uint64(), uint64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var err error
			if big && (i == 0 || crng.IntN(3) > 0) { // at least one, so that k bytes are sent
				_, err = b.Produce(message.ProduceRequest{Acks: 1, Topics: []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{Records: make([]byte, 9_000_000)}}}}})
			} else {
				c := newCall(crng, apiKeys[12], apiKeys[12].LibMax)
				_, err = invoke(b, c.a, c.req)
			}
			r.mustError("call in flight", err, desc)
		}()
	}
	if mode == "stall" {
		if rng.IntN(2) == 0 {
			<-reached
		}
		time.Sleep(time.Duration(rng.IntN(2000)) * time.Microsecond)
		for i := 0; i < 1+rng.IntN(3); i++ {
			wg.Add(1)
			go func() { defer wg.Done(); b.Close() }()
		}
	}
	wg.Wait()
	r.afterwards(rng, b, desc, mode == "stall")
	close(release)
	srv.stop()
	r.Count("calls_in_flight_at_a_fault", int64(n))
	return fmt.Sprint("cut requests ", n, k, big, mode)
}

// closeRace: a healthy broker, callers in loops, closes at a random moment.
func (r *Run) closeRace(rng *rand.Rand) string {
	desc := "closing during calls to a healthy broker"
	srv := newServer("127.0.0.1")
	var bk sync.Map
	srv.handle = func(c *SConn, f *Frame) {
		v, ok := bk.Load(frameKey(f))
		if !ok {
			r.Violation("the broker received a request no caller made", "%s: key %d body %s", desc, f.Key, hx(f.Body))
		}
		c.write(responseFrame(f.Corr, v.(*oneCall).body))
	}
	srv.start()
	b, err := kafka.NewBroker(srv.Addr)
	if err != nil {
		r.Violation("connecting to a well-behaved broker failed", "%v", err)
	}
	pool := smallAPIs()
	var wg sync.WaitGroup
	var ok, failed atomic.Int64
	n := 1 + rng.IntN(8)
	delay := time.Duration(rng.IntN(15000)) * time.Microsecond
	for i := 0; i < n; i++ {
		crng := rand.New(rand.NewPCG(rng.Uint64(), uint64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for errs := 0; errs < 3; {
				a := pool[crng.IntN(len(pool))]
				c := newCall(crng, a, a.LibMax)
				bk.Store(c.key, c)
				resp, err := invoke(b, c.a, c.req)
				if err != nil {
					errs++
					failed.Add(1)
					continue
				}
				if errs > 0 {
					r.Violation("a call succeeded after an earlier one failed because of the close", "%s", desc)
				}
				ok.Add(1)
				if df := a.Resp.diff(c.resp, resp, c.ver); df != "" {
					r.Violation("a call returned something other than its response", "%s: %s: %s", desc, a.Name, df)
				}
			}
		}()
	}
	closers := 1 + rng.IntN(3)
	for i := 0; i < closers; i++ {
		wg.Add(1)
		d := delay + time.Duration(rng.IntN(200))*time.Microsecond
		go func() {
			defer wg.Done()
			time.Sleep(d)
			b.Close()
		}()
	}
	wg.Wait()
	r.afterwards(rng, b, desc, true)
	srv.stop()
	r.Count("calls_before_close", ok.Load())
	r.Count("calls_failed_by_close", failed.Load())
	return fmt.Sprint("close race ", n, delay, closers, ok.Load(), failed.Load())
}

// cutHandshake: the response to the version negotiation is cut after k bytes.
func (r *Run) cutHandshake(rng *rand.Rand, k int, mode string) (total int, info string) {
	srv := newServer("127.0.0.1")
	frame := responseFrame(0, versionsBody(srv.ranges, 0))
	total = len(frame)
	if k > total {
		k = total
	}
	srng := rand.New(rand.NewPCG(rng.Uint64(), 7))
	srv.raw = func(c *SConn) {
		if k < 0 { // not even the request is read
			endConn(c, mode)
			return
		}
		f, err := c.readFrame()
		if err != nil {
			return
		}
		full := responseFrame(f.Corr, versionsBody(srv.ranges, int(f.Ver)))
		kk := k
		if k == total {
			kk = len(full)
		}
		c.writeSplit(srng, full[:min(kk, len(full))])
		endConn(c, mode)
		if mode == "half-close" {
			io.Copy(io.Discard, c.Conn)
		}
	}
	srv.start()
	b, err := kafka.NewBroker(srv.Addr)
	if err == nil && k < total {
		r.Violation("connecting succeeded without a complete negotiation", "response of %d bytes cut after %d by %s", total, k, mode)
	}
	if err == nil {
		r.afterwards(rng, b, "handshake", false)
	}
	srv.stop()
	return total, fmt.Sprint("handshake ", k, mode)
}

// connLevel: the same through Connect and Conn.Do.
func (r *Run) connLevel(rng *rand.Rand, mode string) string {
	desc := "raw connection, " + mode
	srv := newServer("127.0.0.1")
	n := 1 + rng.IntN(5)
	answer := rng.IntN(n + 1)
	srv.raw = func(c *SConn) {
		for i := 0; i < n; i++ {
			f, err := c.readFrame()
			if err != nil {
				return
			}
			if i < answer {
				c.write(responseFrame(f.Corr, be(4, int64(f.Corr)*3+1)))
			}
		}
		endConn(c, mode)
		if mode == "half-close" || mode == "stall" {
			io.Copy(io.Discard, c.Conn)
		}
	}
	srv.start()
	c, err := kafka.Connect(srv.Addr)
	if err != nil {
		r.Violation("connecting to a well-behaved broker failed", "%v", err)
	}
	do := func() error {
		var id, v int32
		err := c.Do(func(e *message.Encoder, correlationID int32) {
			id = correlationID
			h := message.RequestHeader{RequestApiKey: 12, CorrelationId: correlationID, ClientId: "x"}
			e.PutInt32(h.Size(1))
			h.Encode(e, 1)
		}, func(d *message.Decoder) error {
			var err error
			v, err = d.Int32()
			return err
		})
		if err == nil && v != id*3+1 {
			r.Violation("a call returned something other than its response", "%s: request %d got %d", desc, id, v)
		}
		return err
	}
	var wg sync.WaitGroup
	var ok atomic.Int64
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if do() == nil {
				ok.Add(1)
			}
		}()
	}
	if mode == "stall" {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(rng.IntN(1000)) * time.Microsecond)
			c.Close()
		}()
	}
	wg.Wait()
	if int(ok.Load()) > answer {
		r.Violation("a call reported success without a response", "%s: %d succeeded, %d were answered", desc, ok.Load(), answer)
	}
	r.mustError("later call", do(), desc)
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); c.Close() }()
	}
	wg.Wait()
	c.Close()
	r.mustError("call after close", do(), desc)
	srv.stop()
	return fmt.Sprint("raw connection ", mode, n, answer, ok.Load())
}

func checkC11(r *Run) {
	requireBindings(r)
	r.rule = "the connection is ended (close, reset, half-close with and without reading on, negative length, stall + client close) at every byte of the responses to 1-5 calls in flight and of the negotiation, at random bytes of small and large requests, and by concurrent closes during healthy traffic; distinct by scenario, cut position, mode and order"
	type scen struct {
		name string
		run  func(rng *rand.Rand) string
	}
	var scens []scen
	modes := []string{"close", "reset", "half-close", "stall"}
	rng := r.Rng("plan")
	reps := r.N(6, 120)
	for rep := 0; rep < reps; rep++ {
		for k := 0; k <= 60; k++ { // every byte of one response, and the start of the next
			for _, m := range modes {
				n := 1
				if rng.IntN(3) == 0 {
					n = 2 + rng.IntN(4)
				}
				scens = append(scens, scen{"cut responses", func(rng *rand.Rand) string { _, s := r.cutResponses(rng, n, k, m); return s }})
			}
		}
		for i := 0; i < 90; i++ {
			m := modes[i%4]
			scens = append(scens, scen{"cut responses", func(rng *rand.Rand) string {
				_, s := r.cutResponses(rng, 2+rng.IntN(7), rng.IntN(700), m)
				return s
			}})
		}
		for i := 0; i < 120; i++ {
			m := append(modes, "half-close unread", "bad length")[i%6]
			scens = append(scens, scen{"cut requests", func(rng *rand.Rand) string {
				big := rng.IntN(4) == 0
				n := 1 + rng.IntN(5)
				k := rng.IntN(45 * n) // the smallest request has more bytes
				if big {
					k = rng.IntN(100_000)
				}
				if rng.IntN(5) == 0 {
					k = 0
				}
				return r.cutRequests(rng, n, k, big, m)
			}})
		}
		for i := 0; i < 70; i++ {
			scens = append(scens, scen{"close race", r.closeRace})
		}
		for k := -1; k <= 302; k++ {
			if rep == 0 && !r.Thorough() && k > 40 && k%4 != 0 && k < 298 {
				continue
			}
			m := modes[rng.IntN(3)]
			scens = append(scens, scen{"handshake", func(rng *rand.Rand) string { _, s := r.cutHandshake(rng, k, m); return s }})
		}
		for i := 0; i < 60; i++ {
			m := modes[i%4]
			scens = append(scens, scen{"raw connection", func(rng *rand.Rand) string { return r.connLevel(rng, m) }})
		}
	}
	rng.Shuffle(len(scens), func(i, j int) { scens[i], scens[j] = scens[j], scens[i] })
	const batch = 10
	for at := 0; at < len(scens); at += batch {
		brng := r.Rng("batch", at)
		profile := perturb(brng)
		r.Doing("scenarios %d.., perturbation %s", at, profile)
		var wg sync.WaitGroup
		var mu sync.Mutex
		pending := map[string]int{}
		for i := at; i < min(at+batch, len(scens)); i++ {
			s := scens[i]
			srng := r.Rng("scenario", i)
			mu.Lock()
			pending[s.name]++
			mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				info := s.run(srng)
				mu.Lock()
				pending[s.name]--
				mu.Unlock()
				r.Case(true, fp(info))
				r.Count(strings.ReplaceAll(s.name, " ", "_"), 1)
				r.Sampled(func() any { return map[string]any{"scenario": info, "perturbation": profile} })
			}()
		}
		r.awaitAll(&wg, "a call or close hangs after the connection failed or was closed", func() string {
			mu.Lock()
			defer mu.Unlock()
			return fmt.Sprint("unfinished: ", pending)
		})
	}
	calm()
	r.yieldStats()
}
