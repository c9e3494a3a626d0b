package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() { checks["C09"] = checkC09 }

// book maps request bodies to the response the simulated broker must give.
type book struct {
	mu sync.Mutex
	m  map[string]entry
}

type entry struct {
	api  *API
	ver  int
	resp []byte
}

func (b *book) put(key int16, body []byte, e entry) bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	k := fmt.Sprint(key, "|") + string(body)
	if _, ok := b.m[k]; ok {
		return false
	}
	b.m[k] = e
	return true
}

func (b *book) get(key int16, body []byte) (entry, bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	e, ok := b.m[fmt.Sprint(key, "|")+string(body)]
	return e, ok
}

type pendingReply struct {
	f    *Frame
	body []byte
}

// shuffler answers requests in an order of its own, with noise in between.
type shuffler struct {
	r        *Run
	rng      *rand.Rand
	book     *book
	callers  *atomic.Int64 // calls that are still to come or in flight
	mu       sync.Mutex
	pending  []pendingReply
	answered []pendingReply
	order    []byte
	window   int
	noise    bool
	lastIn   time.Time
	ids      idRange
}

// idRange is what the ids of a connection have been so far.
type idRange struct {
	first, least, most int64
	n                  int
}

func (i *idRange) note(id int32) {
	v := int64(id)
	if i.n == 0 {
		i.first, i.least, i.most = v, v, v
	}
	i.n++
	i.least, i.most = min(i.least, v), max(i.most, v)
}

// nobodys says whether a call that is in flight or about to be made cannot have this id:
// ids so far have grown from the first one, and it is below them or far above.
func (i *idRange) nobodys(id int32) bool {
	const far = 100_000
	if i.n < 3 || i.least < i.first || i.most-i.least > far || i.most > math.MaxInt32-2*far {
		return false
	}
	return int64(id) < i.least || int64(id) > i.most+far
}

func (s *shuffler) request(f *Frame) {
	e, ok := s.book.get(f.Key, f.Body)
	if !ok {
		s.r.Violation("the broker received a request no caller made", "api key %d version %d correlation id %d body %s", f.Key, f.Ver, f.Corr, hx(f.Body))
	}
	s.mu.Lock()
	s.ids.note(f.Corr)
	s.pending = append(s.pending, pendingReply{f, e.resp})
	s.lastIn = time.Now()
	s.mu.Unlock()
}

// run sends replies until stop is set and nothing is pending.
func (s *shuffler) run(c *SConn, stop *atomic.Bool) {
	for {
		s.mu.Lock()
		n := len(s.pending)
		idle := time.Since(s.lastIn) > 300*time.Microsecond
		if n == 0 && stop.Load() {
			s.mu.Unlock()
			return
		}
		if n == 0 || n < s.window && !idle {
			s.mu.Unlock()
			time.Sleep(50 * time.Microsecond)
			continue
		}
		// take a random subset in random order, merged into one burst
		k := 1 + s.rng.IntN(n)
		s.rng.Shuffle(n, func(i, j int) { s.pending[i], s.pending[j] = s.pending[j], s.pending[i] })
		batch := append([]pendingReply{}, s.pending[:k]...)
		s.pending = append([]pendingReply{}, s.pending[k:]...)
		s.mu.Unlock()
		var out []byte
		noise := 0
		for _, p := range batch {
			if s.noise && s.rng.IntN(3) == 0 {
				if n := s.makeNoise(p); n != nil {
					out = append(out, n...)
					noise++
				}
			}
			out = append(out, responseFrame(p.f.Corr, p.body)...)
			s.answered = append(s.answered, p)
			s.order = append(s.order, byte(p.f.Corr), byte(p.f.Seq))
		}
		s.r.Count("unsolicited_responses", int64(noise))
		if c.writeSplit(s.rng, out) != nil {
			return
		}
	}
}

func (s *shuffler) makeNoise(p pendingReply) []byte {
	f := s.someNoise(p)
	id := int32(binary.BigEndian.Uint32(f[4:]))
	for _, a := range s.answered {
		if a.f.Corr == id {
			return f
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.ids.nobodys(id) {
		return nil
	}
	return f
}

func (s *shuffler) someNoise(p pendingReply) []byte {
	switch s.rng.IntN(5) {
	case 0: // again, with other contents
		if len(s.answered) > 0 {
			a := s.answered[s.rng.IntN(len(s.answered))]
			return responseFrame(a.f.Corr, p.body)
		}
		return responseFrame(-1, p.body)
	case 1: // the same once more
		if len(s.answered) > 0 {
			a := s.answered[s.rng.IntN(len(s.answered))]
			return responseFrame(a.f.Corr, a.body)
		}
		return responseFrame(-7, nil)
	case 2: // ids nobody has used
		return responseFrame(p.f.Corr+1_000_000+int32(s.rng.IntN(1000)), p.body)
	case 3:
		return responseFrame(-p.f.Corr-1, newGen(s.rng, true).bytes(s.rng.IntN(30)))
	default:
		return responseFrame([]int32{-1, -2147483648, 2147483647, p.f.Corr ^ 0x40000000, p.f.Corr | 1<<30}[s.rng.IntN(5)], nil)
	}
}

func checkC09(r *Run) {
	requireBindings(r)
	r.rule = "sessions of 2-12 goroutines sharing one broker, answered in random order, fragmented and merged, with unsolicited and duplicate responses; each response is unique to its request; distinct by reply order, non-trivial if replies were out of order"
	sessions := r.N(90, 2500)
	var uid atomic.Int64
	for si := 0; si < sessions; si++ {
		rng := r.Rng("session", si)
		profile := perturb(rng)
		r.Doing("session %d, perturbation %s", si, profile)
		vers := map[int16]int{}
		ranges := pinned(func(a *API) int {
			v := rng.IntN(a.LibMax + 1)
			vers[a.Key] = v
			return v
		})
		var usable []*API
		for _, a := range apis {
			if a.Key != 18 && hasString(a.Req.Fields, vers[a.Key]) && !a.Req.flexible(vers[a.Key]) {
				usable = append(usable, a)
			}
		}
		bk := &book{m: map[string]entry{}}
		srv := newServer("127.0.0.1")
		srv.ranges = ranges
		sh := &shuffler{r: r, rng: r.Rng("shuffle", si), book: bk, window: 1 + rng.IntN(10), noise: rng.IntN(3) > 0}
		var stop atomic.Bool
		var conn atomic.Value
		srv.versions = func(c *SConn, f *Frame) {
			sh.mu.Lock()
			sh.ids.note(f.Corr)
			sh.mu.Unlock()
			c.write(responseFrame(f.Corr, versionsBody(srv.ranges, int(f.Ver))))
		}
		srv.handle = func(c *SConn, f *Frame) {
			if conn.CompareAndSwap(nil, c) {
				srv.wg.Add(1)
				go func() { defer srv.wg.Done(); sh.run(c, &stop) }()
			}
			sh.request(f)
		}
		srv.start()
		b := r.dialBroker(srv.Addr)
		// a few APIs, so that responses of the same type compete as well
		pool := usable
		if rng.IntN(2) == 0 {
			pool = nil
			for i := 0; i < 1+rng.IntN(3); i++ {
				pool = append(pool, usable[rng.IntN(len(usable))])
			}
		}
		callers, calls := 2+rng.IntN(11), 3+rng.IntN(14)
		if rng.IntN(8) == 0 { // many at once
			callers, calls = 40+rng.IntN(60), 2
		}
		var wg sync.WaitGroup
		for g := 0; g < callers; g++ {
			grng := r.Rng("caller", si, g)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < calls; i++ {
					a := pool[grng.IntN(len(pool))]
					ver := vers[a.Key]
					tag := fmt.Sprintf("u%d.", uid.Add(1))
					req := tagged(grng, a.Req, tag, 2)
					if a.Name == "Produce" {
						req.Elem().FieldByName("Acks").SetInt(-1)
					}
					resp := tagged(grng, a.Resp, tag, 3)
					if grng.IntN(25) == 0 { // a longer one
						fillLongest(resp.Elem(), a.Resp.Fields, strings.Repeat(tag, 400))
					}
					bk.put(a.Key, a.Req.encode(req, ver), entry{a, ver, a.Resp.encode(resp, ver)})
					got, err := invoke(b, a, req)
					if err != nil {
						r.Violation("a call failed although its response was sent", "%s v%d (%s): %v", a.Name, ver, tag, err)
					}
					if df := a.Resp.diff(resp, got, ver); df != "" {
						r.Violation("a call returned something other than the response to its request", "%s v%d, call %s: %s\ngot: %s", a.Name, ver, tag, df, short(got.Interface()))
					}
					r.Count("calls", 1)
				}
			}()
		}
		r.awaitAll(&wg, "a call never returned although its response was sent", func() string {
			return fmt.Sprintf("session %d, %d callers x %d calls, perturbation %s", si, callers, calls, profile)
		})
		stop.Store(true)
		r.closeBroker(b)
		srv.stop()
		for _, c := range srv.connections() {
			if err := c.badness(); err != nil && !strings.Contains(err.Error(), "connection ended") {
				r.Violation("the broker could not make out the requests", "%v", err)
			}
		}
		ooo := 0
		for i := 2; i+1 < len(sh.order); i += 2 {
			if sh.order[i+1] < sh.order[i-1] {
				ooo++
			}
		}
		r.Count("out_of_order_replies", int64(ooo))
		r.Case(ooo > 0, fp(sh.order))
		r.Sampled(func() any {
			return map[string]any{"callers": callers, "calls_each": calls, "apis": len(pool), "perturbation": profile, "out_of_order": ooo, "answered": len(sh.order) / 2}
		})
	}
	for i := 0; i < r.N(2, 60); i++ {
		for _, a := range apis {
			rng := r.Rng("identical", i, int(a.Key))
			r.Doing("identical requests, perturbation %s", perturb(rng))
			r.identical(rng, a)
		}
	}
	calm()
	r.longConnection(r.N(70_000, 600_000), 12)
	r.idBoundaries()
	r.earlyReplies(r.N(400, 20_000))
	r.yieldStats()
}

// fillLongest puts s into the first string or byte field found.
func fillLongest(v reflect.Value, fields []*SField, s string) bool {
	for _, f := range fields {
		fv := v.Field(f.Index)
		switch f.Type {
		case "string":
			fv.SetString(s)
			return true
		case "[]byte":
			fv.SetBytes([]byte(s))
			return true
		case "[]struct":
			if fv.Len() > 0 && fillLongest(fv.Index(0), f.Fields, s) {
				return true
			}
		}
	}
	return false
}
