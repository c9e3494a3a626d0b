package main

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"sync"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C20"] = checkC20 }

// produceLog is what the broker has received.
type produceLog struct {
	mu   sync.Mutex
	want map[string]int // key -> how many are still to be received
	sent int
	got  int
}

// filler is cheap, also under the race detector.
func filler(rng *rand.Rand, n int) []byte {
	block := newGen(rng, true).bytes(min(n, 5000))
	out := make([]byte, 0, n)
	for len(out) < n {
		out = append(out, block[:min(len(block), n-len(out))]...)
	}
	return out
}

func unackedRequest(rng *rand.Rand, size int) reflect.Value {
	req := tagged(rng, apiKeys[0].Req, fmt.Sprintf("u%d.", uids.Add(1)), 3)
	req.Elem().FieldByName("Acks").SetInt(0)
	if size == 0 {
		topics := req.Elem().FieldByName("Topics")
		switch rng.IntN(10) {
		case 0: // nothing to produce
			topics.SetZero()
		case 1:
			topics.Set(reflect.MakeSlice(topics.Type(), 0, 0))
		case 2:
			topics.Index(0).FieldByName("Partitions").SetZero()
		case 3:
			req.Elem().SetZero()
		}
	}
	if size > 0 {
		req.Elem().FieldByName("Topics").Index(0).FieldByName("Partitions").Index(0).FieldByName("Records").SetBytes(filler(rng, size))
	}
	return req
}

func (r *Run) unacked(rng *rand.Rand, ver int, mode string) string {
	srv := newServer("127.0.0.1")
	vers := map[int16]int{}
	for _, a := range apis {
		vers[a.Key] = a.LibMax
	}
	vers[0] = ver
	srv.ranges = pinned(func(a *API) int { return vers[a.Key] })
	lg := &produceLog{want: map[string]int{}}
	var bk sync.Map
	slow := rng.IntN(2) == 0
	answers := mode == "mixed" && rng.IntN(5) == 0 // a broker that answers all the same
	srng := rand.New(rand.NewPCG(rng.Uint64(), 5))
	srv.handle = func(c *SConn, f *Frame) {
		k := frameKey(f)
		if int(f.Ver) != vers[f.Key] {
			r.Violation("a request carries another version than the one negotiated", "key %d version %d instead of %d", f.Key, f.Ver, vers[f.Key])
		}
		if f.Key == 0 {
			lg.mu.Lock()
			seq, ok := lg.want[k]
			if ok {
				if seq <= 0 {
					r.Violation("a request without acknowledgement was sent twice", "v%d %s", ver, hx(f.Body))
				}
				lg.want[k]--
				lg.got++
				lg.mu.Unlock()
				if answers {
					var resp message.ProduceResponse
					c.write(responseFrame(f.Corr, apiKeys[0].Resp.encode(reflect.ValueOf(&resp), ver)))
				}
				return
			}
			lg.mu.Unlock()
		}
		v, ok := bk.Load(k)
		if !ok {
			r.Violation("the broker received a request no caller made", "key %d v%d body %s", f.Key, f.Ver, hx(f.Body))
		}
		if slow {
			time.Sleep(time.Duration(srng.IntN(100)) * time.Microsecond)
		}
		c.write(responseFrame(f.Corr, v.(*oneCall).body))
	}
	srv.start()
	b, err := kafka.NewBroker(srv.Addr)
	if err != nil {
		r.Violation("connecting to a well-behaved broker failed", "%v", err)
	}
	send := func(rng *rand.Rand, size int) {
		req := unackedRequest(rng, size)
		k := "0|" + string(apiKeys[0].Req.encode(req, ver))
		lg.mu.Lock()
		lg.want[k]++
		lg.sent++
		lg.mu.Unlock()
		before := deepClone(req.Elem())
		resp, err := invoke(b, apiKeys[0], req)
		if err != nil {
			r.Violation("a produce call without acknowledgement failed", "v%d: %v", ver, err)
		}
		if !reflect.DeepEqual(resp.Elem().Interface(), message.ProduceResponse{}) {
			r.Violation("a produce call without acknowledgement returned a response nobody sent", "v%d: %s", ver, short(resp.Interface()))
		}
		if !reflect.DeepEqual(before.Interface(), req.Elem().Interface()) {
			r.Violation("a produce call changed the caller's request", "v%d", ver)
		}
		r.Count("unacknowledged_produces", 1)
	}
	other := func(rng *rand.Rand) {
		pool := append(smallAPIs(), apiKeys[0])
		a := pool[rng.IntN(len(pool))]
		c := newCall(rng, a, vers[a.Key])
		if a.Key == 0 && rng.IntN(2) == 0 {
			c.req.Elem().FieldByName("Acks").SetInt(-1)
			c.key = "0|" + string(a.Req.encode(c.req, c.ver))
		}
		bk.Store(c.key, c)
		resp, err := invoke(b, a, c.req)
		if err != nil {
			r.Violation("a call next to unacknowledged produces failed", "%s: %v", a.Name, err)
		}
		if df := a.Resp.diff(c.resp, resp, c.ver); df != "" {
			r.Violation("a call next to unacknowledged produces returned something other than its response", "%s: %s", a.Name, df)
		}
		r.Count("other_calls", 1)
	}
	sizes := []int{0, 0, 0, 5, 4000, 4100, 70_000, 1_000_000}
	var wg sync.WaitGroup
	n := 1 + rng.IntN(5)
	for g := 0; g < n; g++ {
		grng := rand.New(rand.NewPCG(rng.Uint64(), uint64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 12; i++ {
				size := sizes[grng.IntN(len(sizes))]
				if size > 100_000 && grng.IntN(4) > 0 {
					size = 0
				}
				if mode == "only" || grng.IntN(2) == 0 {
					send(grng, size)
				} else {
					other(grng)
				}
			}
		}()
	}
	r.awaitAll(&wg, "a produce call without acknowledgement, or a call next to one, never returned", func() string { return fmt.Sprint(mode, " v", ver) })
	// every frame arrives without anybody calling again
	missing := 0
	if !eventually(func() bool {
		lg.mu.Lock()
		defer lg.mu.Unlock()
		missing = lg.sent - lg.got
		return missing == 0
	}) {
		r.Violation("a produce call without acknowledgement returned but its request never reached the broker", "%d of %d missing, v%d", missing, lg.sent, ver)
	}
	// afterwards the connection is as good as before
	wg.Add(1)
	go func() { defer wg.Done(); other(rng); other(rng) }()
	r.awaitAll(&wg, "a call after unacknowledged produces never returned", func() string { return fmt.Sprint(mode, " v", ver) })
	for _, c := range srv.connections() {
		if err := c.badness(); err != nil {
			r.Violation("the request stream is not a sequence of whole frames", "%v", err)
		}
	}
	r.closeBroker(b)
	wg.Add(1)
	go func() {
		defer wg.Done()
		if _, err := invoke(b, apiKeys[0], unackedRequest(rng, 0)); err == nil {
			r.Violation("a produce call without acknowledgement succeeded on a closed connection", "v%d", ver)
		}
	}()
	r.awaitAll(&wg, "a produce call without acknowledgement hangs on a closed connection", func() string { return fmt.Sprint("v", ver) })
	srv.stop()
	return fmt.Sprint(mode, " v", ver, " goroutines ", n, " slow ", slow, " answers ", answers)
}

// unackedFailure: the connection fails before, while or after the request is written.
func (r *Run) unackedFailure(rng *rand.Rand, ver int) string {
	mode := []string{"close", "reset", "half-close", "bad length", "stall"}[rng.IntN(5)]
	srv := newServer("127.0.0.1")
	vers := map[int16]int{}
	for _, a := range apis {
		vers[a.Key] = a.LibMax
	}
	vers[0] = ver
	srv.ranges = pinned(func(a *API) int { return vers[a.Key] })
	k := rng.IntN(200_000)
	if rng.IntN(2) == 0 {
		k = rng.IntN(60)
	}
	release := make(chan struct{})
	srv.raw = func(c *SConn) {
		f, err := c.readFrame()
		if err != nil {
			return
		}
		c.write(responseFrame(f.Corr, versionsBody(srv.ranges, int(f.Ver))))
		io.CopyN(io.Discard, c.Conn, int64(k))
		if mode == "bad length" {
			c.write([]byte{0xff, 0, 0, 0})
		} else {
			endConn(c, mode)
		}
		if mode == "half-close" || mode == "bad length" {
			io.Copy(io.Discard, c.Conn)
			return
		}
		<-release
	}
	srv.start()
	b, err := kafka.NewBroker(srv.Addr)
	if err != nil {
		r.Violation("connecting to a well-behaved broker failed", "%v", err)
	}
	var wg sync.WaitGroup
	for g := 0; g < 1+rng.IntN(3); g++ {
		grng := rand.New(rand.NewPCG(rng.Uint64(), uint64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			size := 300_000
			if mode == "stall" {
				size = 9_000_000
			}
			invoke(b, apiKeys[0], unackedRequest(grng, size)) // either way, but it returns
			if mode == "stall" {
				return
			}
			// the failure is noticed sooner or later, and for good
			small := unackedRequest(grng, 0)
			if !eventually(func() bool { _, err := invoke(b, apiKeys[0], small); return err != nil }) {
				r.Violation("a produce call without acknowledgement keeps succeeding on a failed connection", "v%d after %s", ver, mode)
			}
			if _, err := invoke(b, apiKeys[0], small); err == nil {
				r.Violation("a produce call without acknowledgement succeeds again on a failed connection", "v%d after %s", ver, mode)
			}
		}()
	}
	if mode == "stall" {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(rng.IntN(3000)) * time.Microsecond)
			b.Close()
		}()
	}
	r.awaitAll(&wg, "a produce call without acknowledgement hangs when the connection fails", func() string { return fmt.Sprint("v", ver, " ", mode) })
	r.closeBroker(b)
	if _, err := invoke(b, apiKeys[0], unackedRequest(rng, 0)); err == nil {
		r.Violation("a produce call without acknowledgement succeeded on a closed connection", "v%d", ver)
	}
	close(release)
	srv.stop()
	r.Count("failures_"+mode, 1)
	return fmt.Sprint("failure ", mode, " v", ver, " ", k)
}

// otherAcks: every produce call that asks for an acknowledgement waits for its response.
func (r *Run) otherAcks(ver int, acks []int16) {
	srv := newServer("127.0.0.1")
	srv.ranges = pinned(func(a *API) int {
		if a.Key == 0 {
			return ver
		}
		return a.LibMax
	})
	respond := func(acks int16) *message.ProduceResponse {
		return &message.ProduceResponse{Responses: []message.TopicProduceResponse0{{Name: "t", Partitions: []message.PartitionProduceResponse0{{PartitionIndex: 7, ErrorCode: acks, BaseOffset: int64(acks)}}}}}
	}
	srv.handle = func(c *SConn, f *Frame) {
		body := f.Body
		if ver >= 3 {
			body = body[2+max(0, int(int16(binary.BigEndian.Uint16(body)))):]
		}
		v := int16(binary.BigEndian.Uint16(body))
		c.write(responseFrame(f.Corr, apiKeys[0].Resp.encode(reflect.ValueOf(respond(v)), ver)))
	}
	srv.start()
	b := r.dialBroker(srv.Addr)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < len(acks); i += 4 {
				req := message.ProduceRequest{Acks: acks[i], TimeoutMs: int32(i)}
				if i%3 > 0 {
					req.Topics = []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{PartitionIndex: 7}}}}
				}
				resp, err := b.Produce(req)
				if err != nil {
					r.Violation("a produce call failed although its response was sent", "v%d acks %d: %v", ver, acks[i], err)
				}
				if df := apiKeys[0].Resp.diff(reflect.ValueOf(respond(acks[i])), reflect.ValueOf(&resp), ver); df != "" {
					r.Violation("a produce call that asks for an acknowledgement did not return its response", "v%d acks %d: %s", ver, acks[i], df)
				}
			}
		}()
	}
	r.awaitAll(&wg, "a produce call never returned although its response was sent", func() string { return fmt.Sprint("v", ver) })
	r.Count("acknowledged_produces", int64(len(acks)))
	r.closeBroker(b)
	srv.stop()
}

// acksValues are values other than 0, among them all that are 0 in narrower types.
func acksValues(rng *rand.Rand, n int) []int16 {
	var out []int16
	for v := -1 << 15; v < 1<<15; v += 1 << 8 {
		for _, d := range []int{-1, 0, 1} {
			if x := int16(v + d); x != 0 {
				out = append(out, x)
			}
		}
	}
	for _, x := range dictInts {
		if x := int16(x); x != 0 {
			out = append(out, x)
		}
	}
	for i := 0; i < n; i++ {
		if x := int16(rng.Uint32()); x != 0 {
			out = append(out, x)
		}
	}
	return out
}

// closedRightAfter: what calls that have returned wrote arrives although the connection is
// closed at once and the broker has read nothing of it yet.
func (r *Run) closedRightAfter(rng *rand.Rand, w *tlsWorld, ver int, secure bool) string {
	srv := newServer("127.0.0.1")
	opts := []kafka.Option{}
	if secure {
		srv.tlsConf = &tls.Config{Certificates: []tls.Certificate{w.certs["good127.0.0.1"]}}
		opts = append(opts, kafka.WithTLS(&tls.Config{RootCAs: w.ca.pool}))
	}
	read, ended := make(chan struct{}), make(chan struct{})
	var once sync.Once
	begin := func() { once.Do(func() { close(read) }) }
	var frames []*Frame
	var sc *SConn
	srv.raw = func(c *SConn) {
		defer close(ended)
		sc = c
		f, err := c.readFrame()
		if err != nil {
			return
		}
		c.write(responseFrame(f.Corr, versionsBody(pinned(func(a *API) int {
			if a.Key == 0 {
				return ver
			}
			return a.LibMax
		}), int(f.Ver))))
		<-read
		for {
			f, err := c.readFrame()
			if err != nil {
				return
			}
			frames = append(frames, f)
		}
	}
	srv.start()
	b, err := kafka.NewBroker(srv.Addr, opts...)
	if err != nil {
		r.Violation("connecting to a well-behaved broker failed", "%v", err)
	}
	n := 1 + rng.IntN(6)
	size := []int{0, 3000, 60_000, 300_000}[rng.IntN(4)] / n
	desc := fmt.Sprintf("%d calls of %d bytes, v%d, TLS %v", n, size, ver, secure)
	done := make(chan struct{})
	var want [][]byte
	go func() {
		defer close(done)
		for i := 0; i < n; i++ {
			req := unackedRequest(rng, size)
			body := apiKeys[0].Req.encode(req, ver)
			if _, err := invoke(b, apiKeys[0], req); err != nil {
				r.Violation("a produce call without acknowledgement failed on a healthy connection", "%v, %s", err, desc)
			}
			want = append(want, body)
		}
		b.Close()
	}()
	t := time.NewTimer(3 * time.Second)
	select {
	case <-done:
		r.Count("closed_before_anything_was_read", 1)
	case <-t.C: // does not fit into the buffers in between
	}
	t.Stop()
	begin()
	r.await(done, "produce calls without acknowledgement never returned", func() string { return desc })
	r.await(ended, "the end of a closed connection never arrived", func() string { return desc })
	if len(frames) != len(want) {
		r.Violation("a produce request whose call had succeeded was lost when the connection was closed afterwards", "%d of %d arrived, %v, %s", len(frames), len(want), sc.badness(), desc)
	}
	for i, f := range frames {
		if !bytes.Equal(f.Body, want[i]) {
			r.Violation("a produce request without acknowledgement arrived altered", "request %d, %s", i, desc)
		}
	}
	srv.stop()
	return desc
}

func checkC20(r *Run) {
	requireBindings(r)
	r.rule = "produce calls with acks=0 at every version, of sizes around and far beyond the buffers, alone and mixed with acknowledged produces and other calls from concurrent goroutines, against a broker that does not answer them, and with the connection failing at any byte; distinct by version, mix and failure"
	per := r.N(12, 400)
	for rep := 0; rep < per; rep++ {
		for ver := 0; ver <= apiKeys[0].LibMax; ver++ {
			rng := r.Rng("unacked", rep, ver)
			profile := perturb(rng)
			r.Doing("v%d repetition %d, perturbation %s", ver, rep, profile)
			mode := []string{"mixed", "mixed", "only"}[rep%3]
			info := r.unacked(rng, ver, mode)
			r.Case(true, fp(info, rep))
			r.Sampled(func() any { return map[string]any{"session": info, "perturbation": profile} })
			info = r.unackedFailure(rng, ver)
			r.Case(true, fp(info))
		}
	}
	calm()
	for ver := 0; ver <= apiKeys[0].LibMax; ver++ {
		r.Doing("acks other than 0, v%d", ver)
		r.otherAcks(ver, acksValues(r.Rng("acks", ver), r.N(300, 30000)))
		r.Case(true, fp("acks", ver))
	}
	for i := 0; i < r.N(20, 600); i++ {
		rng := r.Rng("identical", i)
		r.Doing("identical requests, perturbation %s", perturb(rng))
		r.identicalUnacked(rng)
	}
	calm()
	for i := 0; i < r.N(1, 6); i++ {
		r.Doing("frame sizes")
		r.sizeSweep(r.Rng("sizes", i), "unacknowledged", r.N(8300, 70000))
	}
	w := newTLSWorld()
	for i := 0; i < r.N(40, 1500); i++ {
		rng := r.Rng("closed right after", i)
		ver := i % (apiKeys[0].LibMax + 1)
		r.Doing("closed right after, v%d", ver)
		r.Case(true, fp(r.closedRightAfter(rng, w, ver, i%3 == 2), i))
	}
	r.yieldStats()
}
