package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sync"
	"sync/atomic"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C12"] = checkC12 }

// held is a response a caller keeps, with a snapshot taken when it was returned.
type held struct {
	c    *oneCall
	got  reflect.Value
	snap reflect.Value
}

func checkC12(r *Run) {
	requireBindings(r)
	r.rule = "responses of every API with all kinds of fields are kept while more traffic follows, compared with a deep snapshot, modified and appended to by their owner; single responses of up to 12 MB with sizes around internal buffer sizes, alone and interleaved; distinct by API and response body"
	var large atomic.Int64
	type session struct {
		b    *kafka.Broker
		srv  *Server
		bk   *sync.Map
		vers map[int16]int
	}
	open := func(rng *rand.Rand, latest bool) *session {
		s := &session{bk: &sync.Map{}, vers: map[int16]int{}}
		for _, a := range apis {
			s.vers[a.Key] = a.LibMax
			if !latest {
				s.vers[a.Key] = rng.IntN(a.LibMax + 1)
			}
		}
		s.srv = newServer("127.0.0.1")
		s.srv.ranges = pinned(func(a *API) int { return s.vers[a.Key] })
		s.srv.handle = func(c *SConn, f *Frame) {
			v, ok := s.bk.Load(frameKey(f))
			if !ok {
				r.Violation("the broker received a request no caller made", "key %d body %s", f.Key, hx(f.Body))
			}
			c.write(responseFrame(f.Corr, v.(*oneCall).body))
		}
		s.srv.start()
		s.b = r.dialBroker(s.srv.Addr)
		return s
	}
	call := func(s *session, c *oneCall) *held {
		s.bk.Store(c.key, c)
		before := deepClone(c.req.Elem())
		got, err := invoke(s.b, c.a, c.req)
		s.bk.Delete(c.key)
		if err != nil {
			r.Violation("a call failed although its response was sent", "%s v%d, response of %d bytes: %v", c.a.Name, c.ver, len(c.body), err)
		}
		if df := c.a.Resp.diff(c.resp, got, c.ver); df != "" {
			r.Violation("a response did not arrive complete and unaltered", "%s v%d, response of %d bytes: %s", c.a.Name, c.ver, len(c.body), clip(df, 500))
		}
		if !reflect.DeepEqual(before.Interface(), c.req.Elem().Interface()) {
			r.Violation("a call changed the caller's request", "%s v%d", c.a.Name, c.ver)
		}
		r.Case(len(c.body) > 20, fp(c.a.Name, c.ver, c.body))
		r.Count("response_bytes", int64(len(c.body)))
		r.Max("largest_response", int64(len(c.body)))
		return &held{c, got, deepClone(got.Elem())}
	}
	verify := func(h *held, when string) {
		if !reflect.DeepEqual(h.snap.Interface(), h.got.Elem().Interface()) {
			df := h.c.a.Resp.diff(h.snap, h.got, h.c.ver)
			r.Violation("a returned response changed "+when, "%s v%d: %s", h.c.a.Name, h.c.ver, clip(df, 800))
		}
		r.Count("snapshots_compared", 1)
	}

	// 1. keep, follow with more traffic, compare; modify and check the others
	for si := 0; si < r.N(24, 600); si++ {
		rng := r.Rng("keep", si)
		r.Doing("keep session %d", si)
		s := open(rng, si%2 == 0)
		var usable []*API
		for _, a := range apis {
			if a.Key != 18 && hasString(a.Req.Fields, s.vers[a.Key]) && !a.Req.flexible(s.vers[a.Key]) {
				usable = append(usable, a)
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var keep []*held
		for g := 0; g < 1+rng.IntN(6); g++ {
			grng := r.Rng("keepcaller", si, g)
			wg.Add(1)
			go func() {
				defer wg.Done()
				var mine []*held
				for i := 0; i < 25; i++ {
					a := usable[grng.IntN(len(usable))]
					if grng.IntN(3) == 0 { // byte fields
						a = []*API{apiKeys[1], apiKeys[14], apiKeys[11], apiKeys[36], apiKeys[15]}[grng.IntN(5)]
						if !hasString(a.Req.Fields, s.vers[a.Key]) {
							a = apiKeys[1]
						}
					}
					c := newCall(grng, a, s.vers[a.Key])
					g := newGen(grng, true)
					g.budget = 800
					g.Leaf = func(f *SField, fv reflect.Value) bool {
						if f.Type == "[]byte" {
							fv.SetBytes(g.bytes(grng.IntN(600)))
							return true
						}
						return false
					}
					c.resp = g.New(a.Resp)
					c.body = a.Resp.encode(c.resp, c.ver)
					h := call(s, c)
					mine = append(mine, h)
					for _, o := range mine {
						verify(o, "after more traffic")
					}
					r.Sampled(func() any {
						return map[string]any{"api": a.Name, "version": c.ver, "response_bytes": len(c.body), "held": len(mine)}
					})
				}
				// the owner may do with a response what it likes
				for i, h := range mine {
					if i%2 == 0 {
						scribble(h.got.Elem())
						for j, o := range mine {
							if j%2 == 1 {
								verify(o, "when the owner of another one modified it")
							}
						}
					}
				}
				mu.Lock()
				for i, h := range mine {
					if i%2 == 1 {
						keep = append(keep, h)
					}
				}
				mu.Unlock()
			}()
		}
		r.awaitAll(&wg, "a call never returned although its response was sent", func() string { return fmt.Sprint("keep session ", si) })
		for _, h := range keep {
			verify(h, "after all traffic")
		}
		r.closeBroker(s.b)
		s.srv.stop()
		for _, h := range keep {
			verify(h, "after closing")
		}
	}

	// 2. byte fields of one response do not share storage that its owner can reach
	for i := 0; i < r.N(60, 600); i++ {
		rng := r.Rng("alias", i)
		if i%20 == 0 {
			r.Doing("alias %d", i)
		}
		s := open(rng, true)
		a := apiKeys[1]
		c := newCall(rng, a, s.vers[1])
		c.resp = tagged(rng, a.Resp, "x", 4)
		c.body = a.Resp.encode(c.resp, c.ver)
		h := call(s, c)
		var fields []reflect.Value
		collectBytes(h.got.Elem(), &fields)
		var snaps [][]byte
		for _, f := range fields {
			snaps = append(snaps, append([]byte{}, f.Bytes()...))
		}
		for k, f := range fields {
			grown := append(f.Bytes(), bytes.Repeat([]byte{0xEE}, 64)...)
			grown[0] ^= 0xff
			for j, o := range fields {
				if j != k && !bytes.Equal(o.Bytes(), snaps[j]) {
					r.Violation("appending to one byte field of a response changes another", "fields %d and %d of %d", k, j, len(fields))
				}
			}
			if f.Len() > 0 {
				copy(f.Bytes(), snaps[k])
			}
		}
		r.closeBroker(s.b)
		s.srv.stop()
	}

	// 3. large responses
	sizes := []int{0, 1, 4095, 4096, 65535, 65536, 1_000_000, 1_999_980, 2_000_000, 2_000_001, 2_000_020, 4_000_000, 4_999_960, 4_999_999, 5_000_000, 5_000_001, 5_000_040, 12_000_000}
	if r.Thorough() {
		for around := 1_999_940; around < 2_000_040; around += 3 {
			sizes = append(sizes, around)
		}
	}
	// frames that end exactly at, just before and just after a multiple of any size
	// the library mentions; negative: of the whole payload
	for _, n := range largeLiterals(1000, 6_000_000) {
		for _, k := range []int{1, 2} {
			for _, d := range []int{-4, -1, 0, 1, 4} {
				sizes = append(sizes, -(k*n + d))
			}
		}
	}
	if r.Thorough() {
		sizes = append(sizes, 30_000_000, 64_000_000)
	}
	sessions := r.N(2, 12)
	for si := 0; si < sessions; si++ {
		rng := r.Rng("large", si)
		s := open(rng, true)
		order := rng.Perm(len(sizes))
		var wg sync.WaitGroup
		workers := 1
		if si%2 == 1 {
			workers = 4
		}
		var next atomic.Int64
		for w := 0; w < workers; w++ {
			wg.Add(1)
			wrng := r.Rng("largeworker", si, w)
			go func() {
				defer wg.Done()
				var prev *held
				for {
					i := int(next.Add(1)) - 1
					if i >= len(order) {
						return
					}
					size := sizes[order[i]]
					a := apiKeys[1]
					c := newCall(wrng, a, s.vers[1])
					if size < 0 {
						c.resp = largeFetch(nil)
						size = max(0, -size-4-len(a.Resp.encode(c.resp, c.ver)))
					}
					rec := make([]byte, size)
					key := wrng.Uint64()
					for j := range rec {
						rec[j] = streamByte(key, j)
					}
					c.resp = largeFetch(rec)
					c.body = a.Resp.encode(c.resp, c.ver)
					h := call(s, c)
					if prev != nil {
						verify(prev, "after a large response")
					}
					prev = h
					large.Add(1)
					// a small call in between
					sc := newCall(wrng, apiKeys[12], s.vers[12])
					call(s, sc)
				}
			}()
		}
		r.awaitAll(&wg, "a call with a large response never returned", func() string { return fmt.Sprint("large session ", si) })
		r.closeBroker(s.b)
		s.srv.stop()
	}
	r.counters["large_responses"] = large.Load()
	r.manyElements()
}

func largeFetch(rec []byte) reflect.Value {
	return reflect.ValueOf(&message.FetchResponse{Topics: []message.FetchableTopicResponse1{{Name: "t", Partitions: []message.FetchablePartitionResponse1{{PartitionIndex: 1, Records: rec}, {PartitionIndex: 2, Records: []byte("tail")}}}}})
}

// manyElements: responses that are large because of many elements.
func (r *Run) manyElements() {
	srv := newServer("127.0.0.1")
	var body atomic.Value
	srv.handle = func(c *SConn, f *Frame) { c.write(responseFrame(f.Corr, body.Load().([]byte))) }
	srv.start()
	b := r.dialBroker(srv.Addr)
	for _, n := range []int{1000, 70000, 200000} {
		var resp message.DeleteRecordsResponse
		resp.Topics = make([]message.DeleteRecordsTopicResult21, 1)
		resp.Topics[0].Name = "t"
		for i := 0; i < n; i++ {
			resp.Topics[0].Partitions = append(resp.Topics[0].Partitions, message.DeleteRecordsPartitionResult21{PartitionIndex: int32(i), LowWatermark: int64(i) * 7, ErrorCode: int16(i)})
		}
		a := apiKeys[21]
		body.Store(a.Resp.encode(reflect.ValueOf(&resp), a.LibMax))
		var got message.DeleteRecordsResponse
		var err error
		done := make(chan struct{})
		go func() {
			defer close(done)
			got, err = b.DeleteRecords(message.DeleteRecordsRequest{})
		}()
		r.await(done, "a call with a large response never returned", func() string { return fmt.Sprint(n, " elements") })
		if err != nil {
			r.Violation("a call failed although its response was sent", "%d elements: %v", n, err)
		}
		if df := a.Resp.diff(reflect.ValueOf(&resp), reflect.ValueOf(&got), a.LibMax); df != "" {
			r.Violation("a response did not arrive complete and unaltered", "%d elements: %s", n, df)
		}
		r.Case(true, fp("elements", n))
	}
	r.closeBroker(b)
	srv.stop()
}

// scribble overwrites everything reachable from a response.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			b = b[:cap(b)] // spare capacity belongs to the owner as well
			for i := range b {
				b[i] = ^b[i]
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.String:
		v.SetString("scribbled")
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 0x55)
	}
}

func collectBytes(v reflect.Value, out *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			collectBytes(v.Field(i), out)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			*out = append(*out, v)
			return
		}
		if v.Type().Elem().Kind() == reflect.Struct {
			for i := 0; i < v.Len(); i++ {
				collectBytes(v.Index(i), out)
			}
		}
	}
}
