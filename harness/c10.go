package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
)

func init() { checks["C10"] = checkC10 }

// seenFrames checks the frames of one connection against the calls made on it.
type seenFrames struct {
	mu   sync.Mutex
	corr map[int32]bool
}

func (s *seenFrames) check(r *Run, f *Frame, first bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.corr[f.Corr] {
		r.Violation("a correlation id was used twice on one connection", "id %d, frame %d, api key %d", f.Corr, f.Seq, f.Key)
	}
	s.corr[f.Corr] = true
	if f.NullID || f.ClientID != clientID {
		r.Violation("a request does not carry the client id", "frame %d, api key %d v%d: client id %q", f.Seq, f.Key, f.Ver, f.ClientID)
	}
}

func checkC10(r *Run) {
	requireBindings(r)
	r.rule = "every broker method at every negotiable version with marker and random requests and responses, one at a time and from concurrent goroutines with frames up to several MB, parsed at the broker by an independent codec; distinct by API, version and request body"
	covered := map[string]bool{}
	var cmu sync.Mutex

	// session: the broker pins one version per API
	session := func(label string, si int, vers map[int16]int, drive func(call func(a *API, req, resp reflect.Value))) {
		r.Doing("%s session %d", label, si)
		ranges := pinned(func(a *API) int { return vers[a.Key] })
		srv := newServer("127.0.0.1")
		srv.ranges = ranges
		bk := &book{m: map[string]entry{}}
		seen := &seenFrames{corr: map[int32]bool{}}
		expected := sync.Map{} // api key -> *pendingReq for the sequential part
		type want struct {
			req  reflect.Value
			resp reflect.Value
		}
		srv.versions = func(c *SConn, f *Frame) {
			seen.check(r, f, true)
			if f.Ver != 0 || len(f.Body) != 0 {
				// any version the protocol has would do, but its body is defined
				m := msgMap["ApiVersionsRequest"]
				if int(f.Ver) > m.Max {
					r.Violation("negotiation starts with an unknown version", "ApiVersions v%d", f.Ver)
				}
			}
			c.write(responseFrame(f.Corr, versionsBody(ranges, int(f.Ver))))
		}
		srv.handle = func(c *SConn, f *Frame) {
			seen.check(r, f, false)
			a := apiKeys[f.Key]
			if a == nil {
				r.Violation("a request carries an unknown API key", "key %d, version %d, body %s", f.Key, f.Ver, hx(f.Body))
			}
			if int(f.Ver) != vers[f.Key] {
				r.Violation("a request carries another version than the one negotiated", "%s: version %d, negotiated %d", a.Name, f.Ver, vers[f.Key])
			}
			r.Count("request_bytes", int64(f.Size)+4)
			r.Max("largest_request", int64(f.Size)+4)
			if w, ok := expected.Load(f.Key); ok { // one call at a time
				w := w.(want)
				legacy, flexible := a.Req.acceptable(f.Body, w.req, int(f.Ver))
				if !legacy && !flexible {
					exp := a.Req.encode(w.req, int(f.Ver))
					r.Violation("the request body does not encode the caller's request", "%s v%d: first difference at byte %d\n got %s\nwant %s", a.Name, f.Ver, firstDiff(f.Body, exp), hx(f.Body), hx(exp))
				}
				c.write(responseFrame(f.Corr, a.Resp.encodeOpt(w.resp, int(f.Ver), &encOpts{flex: flexible && !legacy})))
				return
			}
			e, ok := bk.get(f.Key, f.Body)
			if !ok {
				r.Violation("the broker received a request no caller made", "%s v%d correlation id %d, %d bytes, body %s", a.Name, f.Ver, f.Corr, f.Size, hx(f.Body))
			}
			c.write(responseFrame(f.Corr, e.resp))
		}
		srv.start()
		b := r.dialBroker(srv.Addr)
		var concurrent atomic.Bool
		if label == "concurrent" {
			concurrent.Store(true)
		}
		drive(func(a *API, req, resp reflect.Value) {
			ver := vers[a.Key]
			if concurrent.Load() {
				if !bk.put(a.Key, a.Req.encode(req, ver), entry{a, ver, a.Resp.encode(resp, ver)}) {
					r.Fail("request of the harness is not unique")
				}
			} else {
				expected.Store(a.Key, want{req, resp})
			}
			before := deepClone(req.Elem())
			done := make(chan struct{})
			var got reflect.Value
			var err error
			do := func() { got, err = invoke(b, a, req) }
			if concurrent.Load() {
				do()
			} else {
				go func() { defer close(done); do() }()
				r.await(done, "a call never returned although its response was sent", func() string { return fmt.Sprint(a.Name, " v", ver) })
				expected.Delete(a.Key)
			}
			if err != nil {
				r.Violation("a call failed although its response was sent", "%s v%d: %v\nrequest: %s", a.Name, ver, err, short(req.Interface()))
			}
			if df := a.Resp.diff(resp, got, ver); df != "" {
				r.Violation("the response was not returned unchanged", "%s v%d: %s", a.Name, ver, df)
			}
			if !reflect.DeepEqual(before.Interface(), req.Elem().Interface()) {
				r.Violation("a call changed the caller's request", "%s v%d", a.Name, ver)
			}
			r.Case(true, fp(a.Name, ver, a.Req.encode(req, ver)))
			cmu.Lock()
			covered[fmt.Sprint(a.Name, " v", ver)] = true
			cmu.Unlock()
			r.Count("calls", 1)
			r.Sampled(func() any {
				return map[string]any{"api": a.Name, "version": ver, "mode": label, "request": clip(hx(a.Req.encode(req, ver)), 300)}
			})
		})
		r.closeBroker(b)
		srv.stop()
		for _, c := range srv.connections() {
			if err := c.badness(); err != nil && !strings.Contains(err.Error(), "connection ended inside") {
				r.Violation("the request stream is not a sequence of whole frames", "%v", err)
			}
		}
	}

	// 1. one call at a time, every API at every version
	rounds := 0
	for _, a := range apis {
		rounds = max(rounds, a.LibMax+1)
	}
	reps := r.N(2, 40)
	for rep := 0; rep < reps; rep++ {
		for v := 0; v < rounds; v++ {
			rng := r.Rng("seq", rep, v)
			vers := map[int16]int{}
			for _, a := range apis {
				vers[a.Key] = v
				if v > a.LibMax {
					vers[a.Key] = rng.IntN(a.LibMax + 1)
				}
			}
			session("sequential", rep*rounds+v, vers, func(call func(a *API, req, resp reflect.Value)) {
				order := rng.Perm(len(apis))
				for _, i := range order {
					a := apis[i]
					for k := 0; k < 4; k++ {
						g := newGen(rng, k > 0)
						g.budget = 600
						req := g.New(a.Req)
						if k == 3 {
							req = a.Req.New() // the zero value
						}
						if a.Name == "Produce" && req.Elem().FieldByName("Acks").Int() == 0 {
							req.Elem().FieldByName("Acks").SetInt(1)
						}
						g2 := newGen(rng, k > 0)
						g2.budget = 600
						call(a, req, g2.New(a.Resp))
					}
				}
			})
		}
	}
	// 2. concurrent callers, large frames among small ones
	var uid atomic.Int64
	for si := 0; si < r.N(10, 250); si++ {
		rng := r.Rng("conc", si)
		vers := map[int16]int{}
		for _, a := range apis {
			vers[a.Key] = rng.IntN(a.LibMax + 1)
		}
		var usable []*API
		for _, a := range apis {
			if a.Key != 18 && hasString(a.Req.Fields, vers[a.Key]) && !a.Req.flexible(vers[a.Key]) {
				usable = append(usable, a)
			}
		}
		session("concurrent", si, vers, func(call func(a *API, req, resp reflect.Value)) {
			var wg sync.WaitGroup
			callers := 4 + rng.IntN(12)
			for g := 0; g < callers; g++ {
				grng := r.Rng("conccaller", si, g)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 14; i++ {
						a := usable[grng.IntN(len(usable))]
						tag := fmt.Sprintf("u%d.", uid.Add(1))
						size := 0
						switch grng.IntN(12) {
						case 0: // around the size of the write buffer
							a, size = apiKeys[0], 4096-90+grng.IntN(180)
						case 1:
							a, size = apiKeys[0], 70_000+grng.IntN(70_000)
						case 2:
							if grng.IntN(3) == 0 {
								a, size = apiKeys[0], 1_000_000+grng.IntN(3_000_000)
							}
						}
						req := tagged(grng, a.Req, tag, 3)
						if a.Name == "Produce" {
							req.Elem().FieldByName("Acks").SetInt(1)
							if size > 0 {
								rec := newGen(grng, true).bytes(size)
								req.Elem().FieldByName("Topics").Index(0).FieldByName("Partitions").Index(0).FieldByName("Records").SetBytes(rec)
							}
						}
						call(a, req, tagged(grng, a.Resp, tag, 3))
					}
				}()
			}
			r.awaitAll(&wg, "a call never returned although its response was sent", func() string { return fmt.Sprint("session ", si) })
		})
	}
	for i := 0; i < r.N(1, 30); i++ {
		for _, a := range apis {
			r.Doing("identical requests, %s", a.Name)
			r.identical(r.Rng("identical", i, int(a.Key)), a)
		}
	}
	// 3. a connection that lives long
	r.longConnection(r.N(140_000, 2_000_000), 12)
	r.idBoundaries()
	n := 0
	for _, a := range apis {
		n += a.LibMax + 1
	}
	r.counters["api_versions_covered"] = int64(len(covered))
	r.counters["api_versions"] = int64(n)
	if len(covered) != n {
		r.Fail("covered %d of %d api versions", len(covered), n)
	}
}
