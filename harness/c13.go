package main

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/savaki/kafka"
)

func init() { checks["C13"] = checkC13 }

const allocBound = 8 << 20

// badBody makes a body that is malformed for the call; must reports whether the
// call has to fail (or the bytes may happen to be acceptable).
func badBody(rng *rand.Rand, c *oneCall) (body []byte, kind string, must bool) {
	var lens []lenPos
	full := c.a.Resp.encodeOpt(c.resp, c.ver, &encOpts{rec: &lens})
	set := func(p lenPos, n int64) []byte {
		b := append([]byte{}, full...)
		if p.Kind == "string" {
			binary.BigEndian.PutUint16(b[p.Off:], uint16(n))
		} else {
			binary.BigEndian.PutUint32(b[p.Off:], uint32(n))
		}
		return b
	}
	switch k := rng.IntN(10); {
	case k < 3 && len(full) > 0:
		return full[:rng.IntN(len(full))], "truncated", true
	case k == 3 && len(full) > 0:
		return full[:len(full)-1], "one byte short", true
	case k == 4 && len(lens) > 0:
		p := lens[rng.IntN(len(lens))]
		return set(p, []int64{-2, -3, -100, -32768, -2147483648}[rng.IntN(map[string]int{"string": 4}[p.Kind]+5*b2i(p.Kind != "string"))]), "negative length", true
	case k == 5 && len(lens) > 0:
		p := lens[rng.IntN(len(lens))]
		return set(p, []int64{32767, 32000, 0x7fffffff, 0x7ffffffe, 0x40000000, 100_000_000, 50_000_000}[rng.IntN(map[string]int{"string": 2}[p.Kind]+7*b2i(p.Kind != "string"))]), "excessive length", true
	case k == 6:
		b := append([]byte{}, full...)
		for i := 0; i < 1+rng.IntN(4) && len(b) > 0; i++ {
			b[rng.IntN(len(b))] = byte(rng.Uint32())
		}
		return b, "altered bytes", false
	case k == 7:
		b := make([]byte, rng.IntN(60))
		for i := range b {
			b[i] = byte(rng.Uint32())
		}
		return b, "random bytes", false
	case k == 8:
		b := make([]byte, rng.IntN(200))
		for i := range b {
			b[i] = 0xff >> (rng.IntN(2) * rng.IntN(2))
		}
		return b, "ones", false
	default:
		if len(full) == 0 {
			return nil, "empty", false
		}
		return nil, "empty", true
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// hostile is one session: well-behaved callers share a connection with victims whose
// responses are malformed; the last act may be a frame length that cannot be valid.
func (r *Run) hostile(rng *rand.Rand, ending string) string {
	srv := newServer("127.0.0.1")
	vers := map[int16]int{}
	for _, a := range apis {
		vers[a.Key] = rng.IntN(a.LibMax + 1)
	}
	srv.ranges = pinned(func(a *API) int { return vers[a.Key] })
	var usable []*API
	for _, a := range apis {
		if a.Key != 18 && hasString(a.Req.Fields, vers[a.Key]) && !a.Req.flexible(vers[a.Key]) {
			usable = append(usable, a)
		}
	}
	type plan struct {
		body     []byte
		prefixed []byte // raw bytes sent before the response
		last     []byte // raw bytes sent instead of anything, ending the session
	}
	var plans sync.Map
	out := make(chan []byte, 1024)
	over := make(chan struct{})
	var ended atomic.Bool
	srng := rand.New(rand.NewPCG(rng.Uint64(), 3))
	srv.raw = func(c *SConn) {
		go func() { // the writer merges and reorders what is due
			for {
				var due [][]byte
				select {
				case b := <-out:
					due = append(due, b)
				case <-over:
					return
				}
				time.Sleep(time.Duration(srng.IntN(120)) * time.Microsecond)
				for len(out) > 0 && len(due) < 6 {
					due = append(due, <-out)
				}
				srng.Shuffle(len(due), func(i, j int) { due[i], due[j] = due[j], due[i] })
				var burst []byte
				for _, b := range due {
					burst = append(burst, b...)
				}
				if c.writeSplit(srng, burst) != nil {
					return
				}
			}
		}()
		for {
			f, err := c.readFrame()
			if err != nil {
				return
			}
			if f.Key == 18 && f.Seq == 0 {
				c.write(responseFrame(f.Corr, versionsBody(srv.ranges, int(f.Ver))))
				continue
			}
			v, ok := plans.Load(frameKey(f))
			if !ok {
				r.Violation("the broker received a request no caller made", "key %d body %s", f.Key, hx(f.Body))
			}
			p := v.(*plan)
			if ended.Load() {
				continue
			}
			if p.last != nil {
				ended.Store(true)
				c.write(p.last)
				if ending == "huge" {
					time.Sleep(2 * time.Millisecond)
					c.Conn.Close()
				}
				continue
			}
			out <- append(append([]byte{}, p.prefixed...), responseFrame(f.Corr, p.body)...)
		}
	}
	srv.start()
	b := r.dialBroker(srv.Addr)
	kinds := ""
	var wg sync.WaitGroup
	var phase atomic.Int32 // 1: the ending may have begun
	healthy := func(hrng *rand.Rand, n int) {
		for i := 0; i < n; i++ {
			a := usable[hrng.IntN(len(usable))]
			c := newCall(hrng, a, vers[a.Key])
			plans.Store(c.key, &plan{body: c.body})
			before := phase.Load()
			_ = before
			resp, err := invoke(b, a, c.req)
			if err != nil {
				if phase.Load() > 0 && ending != "none" {
					return
				}
				r.Violation("a malformed response made another call fail", "%s v%d: %v; session so far: %s", a.Name, c.ver, err, r.current.Load())
			}
			if df := a.Resp.diff(c.resp, resp, c.ver); df != "" {
				r.Violation("a malformed response changed what another call returned", "%s v%d: %s", a.Name, c.ver, df)
			}
			r.Count("healthy_calls", 1)
		}
	}
	for h := 0; h < 3; h++ {
		hrng := rand.New(rand.NewPCG(rng.Uint64(), uint64(h)))
		wg.Add(1)
		go func() { defer wg.Done(); healthy(hrng, 12) }()
	}
	victims := 12
	var vmu sync.Mutex
	for v := 0; v < 3; v++ {
		vrng := rand.New(rand.NewPCG(rng.Uint64(), uint64(v)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < victims/3; i++ {
				a := usable[vrng.IntN(len(usable))]
				c := newCall(vrng, a, vers[a.Key])
				body, kind, must := badBody(vrng, c)
				plans.Store(c.key, &plan{body: body})
				resp, err := invoke(b, a, c.req)
				if must && err == nil {
					r.Violation("a malformed response was reported as success", "%s v%d, %s: body %s returned as %s", a.Name, c.ver, kind, hx(body), short(resp.Interface()))
				}
				vmu.Lock()
				kinds += kind + "/"
				vmu.Unlock()
				r.Count("malformed: "+kind, 1)
				r.Case(true, fp(a.Name, c.ver, kind, body))
				r.Sampled(func() any {
					return map[string]any{"api": a.Name, "version": c.ver, "kind": kind, "body": clip(hx(body), 200), "error": fmt.Sprint(err)}
				})
			}
		}()
	}
	r.awaitAll(&wg, "a call never returned after a malformed response", func() string { return "malformed: " + kinds })
	// later calls still complete
	wg.Add(1)
	go func() { defer wg.Done(); healthy(rng, 2) }()
	r.awaitAll(&wg, "a later call never returned after a malformed response", func() string { return "malformed: " + kinds })

	closed := false
	if ending != "none" {
		var raw []byte
		switch ending {
		case "tiny": // too short for a correlation id: may be skipped or end the connection
			n := rng.IntN(4)
			raw = binary.BigEndian.AppendUint32(nil, uint32(n))
			raw = append(raw, make([]byte, n)...)
		case "negative":
			raw = binary.BigEndian.AppendUint32(nil, uint32([]int32{-1, -2, -4, -1000, -2147483648, -2147483647}[rng.IntN(6)]))
			raw = append(raw, make([]byte, rng.IntN(20))...)
		case "huge":
			raw = binary.BigEndian.AppendUint32(nil, uint32([]int32{0x7fffffff, 0x7ffffff0, 0x40000000, 300_000_000}[rng.IntN(4)]))
			raw = append(raw, make([]byte, rng.IntN(3000))...)
		}
		phase.Store(1)
		n := 1 + rng.IntN(4)
		for i := 0; i < n; i++ {
			a := usable[rng.IntN(len(usable))]
			c := newCall(rng, a, vers[a.Key])
			if ending == "tiny" {
				plans.Store(c.key, &plan{prefixed: raw, body: c.body})
			} else if i == n-1 {
				plans.Store(c.key, &plan{last: raw})
			} else {
				// in flight for ever, unless the ending fails it
				plans.Store(c.key, &plan{last: raw})
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				resp, err := invoke(b, a, c.req)
				if ending == "tiny" {
					if err == nil {
						if df := a.Resp.diff(c.resp, resp, c.ver); df != "" {
							r.Violation("a call returned something other than its response", "after frames of less than 4 bytes: %s: %s", a.Name, df)
						}
					}
				} else if err == nil {
					r.Violation("a call reported success without a response", "frame length %x: %s", raw[:4], short(resp.Interface()))
				}
			}()
		}
		r.awaitAll(&wg, "a call in flight never returned after an invalid frame length", func() string { return fmt.Sprintf("%s %x", ending, raw) })
		closed = ending != "tiny"
		r.Count("frame_length_"+ending, 1)
		r.Case(true, fp(ending, raw, n))
	}
	if closed {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := newCall(rng, apiKeys[12], vers[12])
			plans.Store(c.key, &plan{body: c.body})
			if _, err := invoke(b, c.a, c.req); err == nil {
				r.Violation("a call reported success without a response", "after an invalid frame length")
			}
		}()
		r.awaitAll(&wg, "a later call never returned after an invalid frame length", func() string { return ending })
	}
	r.closeBroker(b)
	close(over)
	srv.stop()
	return kinds
}

// badNegotiation: NewBroker meets a malformed answer.
func (r *Run) badNegotiation(rng *rand.Rand) {
	srv := newServer("127.0.0.1")
	full := versionsBody(srv.ranges, 0)
	var bytes []byte
	kind := rng.IntN(7)
	must := true
	frame := func(corr int32) []byte {
		switch kind {
		case 0:
			return responseFrame(corr, full[:rng.IntN(len(full))])
		case 1: // count of ranges
			b := append([]byte{}, full...)
			binary.BigEndian.PutUint32(b[2:], []uint32{0x7fffffff, 0xfffffffe, 0x80000000, 0x10000000, uint32(len(srv.ranges) + 1)}[rng.IntN(5)])
			return responseFrame(corr, b)
		case 2:
			must = false
			b := make([]byte, rng.IntN(100))
			for i := range b {
				b[i] = byte(rng.Uint32())
			}
			return responseFrame(corr, b)
		case 3:
			return append(binary.BigEndian.AppendUint32(nil, 0x80000000|rng.Uint32()), full...)
		case 4:
			b := responseFrame(corr, full)
			binary.BigEndian.PutUint32(b, 0x7fffffff-uint32(rng.IntN(1000)))
			return b
		case 5: // other protocols
			return []byte([]string{"HTTP/1.1 400 Bad Request\r\n\r\n", "SSH-2.0-OpenSSH_8.9\r\n", "\x15\x03\x01\x00\x02\x02\x16", "220 mail ESMTP\r\n"}[rng.IntN(4)])
		default: // a frame too short for a correlation id, then nothing
			n := rng.IntN(4)
			return append(binary.BigEndian.AppendUint32(nil, uint32(n)), make([]byte, n)...)
		}
	}
	srv.raw = func(c *SConn) {
		f, err := c.readFrame()
		if err != nil {
			return
		}
		bytes = frame(f.Corr)
		c.writeSplit(rng, bytes)
		time.Sleep(100 * time.Microsecond)
		if kind >= 3 && kind != 3 {
			c.Conn.Close()
			return
		}
		c.readFrame() // until the client gives up
	}
	srv.start()
	done := make(chan struct{})
	var b *kafka.Broker
	var err error
	go func() { defer close(done); b, err = kafka.NewBroker(srv.Addr) }()
	r.await(done, "connecting never returned after a malformed negotiation", func() string { return hx(bytes) })
	if err == nil {
		if must {
			r.Violation("connecting succeeded although the negotiation was malformed", "%s", hx(bytes))
		}
		r.closeBroker(b)
	}
	srv.stop()
	r.Case(true, fp("negotiation", kind, bytes))
	r.Count("malformed_negotiations", 1)
}

func totalAlloc() int64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.TotalAlloc)
}

// allocation: what a few hostile bytes can make the client allocate, alone in the process.
func (r *Run) allocation(rng *rand.Rand, i int) {
	srv := newServer("127.0.0.1")
	var raw func(f *Frame) []byte
	a := apis[rng.IntN(len(apis))]
	for a.Key == 18 || a.Resp.flexible(a.LibMax) {
		a = apis[rng.IntN(len(apis))]
	}
	c := newCall(rng, a, a.LibMax)
	name := ""
	end := true
	switch i % 2 {
	case 0:
		lens := []uint32{0x7fffffff, 0x7fffff00, 0x40000000, 0x20000000, 0x10000000, 100 << 20, 64 << 20, 32 << 20, 16 << 20, 16_000_000, 12 << 20, 10_000_000}
		for _, x := range dictLarge {
			if x > allocBound {
				lens = append(lens, uint32(x)-1, uint32(x))
			}
		}
		n := lens[i/2%len(lens)]
		name = fmt.Sprintf("frame length %x", n)
		raw = func(f *Frame) []byte {
			b := responseFrame(f.Corr, c.body)
			binary.BigEndian.PutUint32(b, n)
			return b
		}
	default:
		end = false
		var lens []lenPos
		full := a.Resp.encodeOpt(c.resp, c.ver, &encOpts{rec: &lens})
		var big []lenPos
		for _, p := range lens {
			if p.Kind != "string" {
				big = append(big, p)
			}
		}
		if len(big) == 0 {
			srv.ln.Close()
			return
		}
		p := big[rng.IntN(len(big))]
		n := []uint32{0x7fffffff, 0x10000000, 0x7ffffff, 0x1ffffff}[rng.IntN(4)]
		binary.BigEndian.PutUint32(full[p.Off:], n)
		name = fmt.Sprintf("%s of length %x in %s v%d", p.Path, n, a.Name, c.ver)
		raw = func(f *Frame) []byte { return responseFrame(f.Corr, full) }
	}
	srv.handle = func(sc *SConn, f *Frame) {
		sc.write(raw(f))
		if end {
			time.Sleep(2 * time.Millisecond)
			sc.Conn.Close()
		}
	}
	srv.start()
	b := r.dialBroker(srv.Addr)
	before := totalAlloc()
	done := make(chan struct{})
	var err error
	go func() { defer close(done); _, err = invoke(b, a, c.req) }()
	r.await(done, "a call never returned after a hostile length", func() string { return name })
	if err == nil {
		r.Violation("a malformed response was reported as success", "%s", name)
	}
	grew := totalAlloc() - before
	r.closeBroker(b)
	srv.stop()
	if grew > allocBound {
		r.Violation("a few bytes from the broker made the client allocate out of proportion", "%s: %d bytes allocated", name, grew)
	}
	r.Max("largest_allocation_for_a_hostile_length", grew)
	r.Count("hostile_lengths", 1)
	r.Case(true, fp("alloc", name))
}

func checkC13(r *Run) {
	requireBindings(r)
	r.rule = "malformed responses (truncations, illegal and excessive lengths, altered and random bytes, invalid frame lengths) to victim calls on connections shared with well-behaved calls, and to negotiations; distinct by API, version and bytes sent"
	r.assume = append(r.assume, fmt.Sprintf("allocation out of proportion: more than %d MB for a response of a few bytes", allocBound>>20))
	for i := 0; i < r.N(90, 3000); i++ {
		r.Doing("allocation %d", i)
		r.allocation(r.Rng("alloc", i), i)
	}
	endings := []string{"none", "tiny", "negative", "huge"}
	const par = 6
	for at := 0; at < r.N(150, 6000); at++ {
		r.Doing("hostile sessions %d..", at*par)
		var wg sync.WaitGroup
		for k := 0; k < par; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.hostile(r.Rng("hostile", at*par+k), endings[(at*par+k)%4])
			}()
		}
		wg.Wait()
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() { defer wg.Done(); r.badNegotiation(r.Rng("negotiation", at*8+k)) }()
		}
		wg.Wait()
	}
	if p := r.counters["healthy_calls"]; p == 0 {
		r.Fail("no healthy call observed")
	}
}
