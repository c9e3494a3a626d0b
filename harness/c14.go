package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"sync"

	"github.com/savaki/kafka"
)

func init() { checks["C14"] = checkC14 }

// negotiable is the reference: the version both sides support, if any.
func negotiable(rg apiRange, libMax int) (int16, bool) {
	v := min(int(rg.max), libMax)
	if v < int(rg.min) || v < 0 {
		return 0, false
	}
	return int16(v), true
}

// negotiate connects to a broker that advertises the given list and checks what the
// client makes of it.
func (r *Run) negotiate(rng *rand.Rand, list []apiRange, probe []*API, label string) {
	want := map[int16]int16{}
	fail := false
	for _, rg := range list {
		if a := apiKeys[rg.key]; a != nil {
			v, ok := negotiable(rg, a.LibMax)
			if !ok {
				fail = true
			}
			want[rg.key] = v
		}
	}
	srv := newServer("127.0.0.1")
	srv.ranges = list
	if rng.IntN(2) == 0 {
		srv.versions = func(c *SConn, f *Frame) {
			c.writeSplit(rng, responseFrame(f.Corr, versionsBody(list, int(f.Ver))))
		}
	}
	resps := map[int16]reflect.Value{}
	for _, a := range probe {
		g := newGen(rng, true)
		g.budget = 100
		resps[a.Key] = g.New(a.Resp)
	}
	var mu sync.Mutex
	used := map[int16]int16{}
	srv.handle = func(c *SConn, f *Frame) {
		a := apiKeys[f.Key]
		if a == nil {
			r.Violation("a request carries an unknown API key", "key %d", f.Key)
		}
		mu.Lock()
		used[f.Key] = f.Ver
		mu.Unlock()
		v := int(f.Ver)
		if v < 0 || v > a.Resp.Max {
			r.Violation("an API is used at a version the library does not have", "%s v%d; advertised %v", a.Name, v, find(list, f.Key))
		}
		c.write(responseFrame(f.Corr, a.Resp.encode(resps[f.Key], v)))
	}
	srv.start()
	defer srv.stop()
	var b *kafka.Broker
	var err error
	done := make(chan struct{})
	go func() { defer close(done); b, err = kafka.NewBroker(srv.Addr) }()
	r.await(done, "connecting never returned", func() string { return fmt.Sprint(label, " ", list) })
	r.Case(len(list) > 0, fp(fmt.Sprint(list)))
	if err != nil {
		if !fail {
			r.Violation("connecting failed although there is a version in common for every API", "%s: %v; advertised %v", label, err, list)
		}
		r.Count("refused", 1)
		return
	}
	if fail {
		r.Violation("connecting succeeded without a version in common", "%s: advertised %v", label, list)
	}
	r.Count("accepted", 1)
	for _, a := range probe {
		w, ok := want[a.Key]
		if !ok {
			continue
		}
		g := newGen(rng, true)
		g.budget = 60
		req := g.New(a.Req)
		if a.Name == "Produce" {
			req.Elem().FieldByName("Acks").SetInt(1)
		}
		var got reflect.Value
		done := make(chan struct{})
		go func() { defer close(done); got, err = invoke(b, a, req) }()
		r.await(done, "a call never returned after negotiation", func() string { return fmt.Sprint(a.Name, " ", list) })
		mu.Lock()
		v, seen := used[a.Key]
		mu.Unlock()
		if !seen {
			r.Violation("a call did not reach the broker", "%s: %v", a.Name, err)
		}
		if v != w {
			r.Violation("an API is not used at the highest version both sides support", "%s: advertised %v, library up to %d, used %d instead of %d", a.Name, find(list, a.Key), a.LibMax, v, w)
		}
		if err != nil {
			r.Violation("a call failed at the negotiated version", "%s v%d: %v", a.Name, v, err)
		}
		if df := a.Resp.diff(resps[a.Key], got, int(v)); df != "" {
			r.Violation("the response is not decoded at the negotiated version", "%s v%d: %s", a.Name, v, df)
		}
		r.Count("versions_checked", 1)
	}
	r.closeBroker(b)
}

func find(list []apiRange, key int16) any {
	for _, rg := range list {
		if rg.key == key {
			return fmt.Sprintf("[%d, %d]", rg.min, rg.max)
		}
	}
	return "not advertised"
}

func okRange(rng *rand.Rand, a *API) (rg apiRange) {
	rg.key = a.Key
	v := rng.IntN(a.LibMax + 1)
	switch rng.IntN(4) {
	case 0: // newer broker
		rg.min, rg.max = int16(v), int16(a.LibMax+1+rng.IntN(8))
	case 1:
		rg.min, rg.max = int16(v), int16(v+rng.IntN(a.LibMax-v+1))
	case 2:
		rg.min, rg.max = 0, int16(v)
	default:
		rg.min = []int16{0, -1, -32768, int16(v), int16(a.LibMax)}[rng.IntN(5)]
		rg.max = []int16{32767, int16(a.LibMax), int16(a.LibMax + 1), 1000}[rng.IntN(4)]
	}
	return
}

func badRange(rng *rand.Rand, a *API) apiRange {
	for {
		var rg apiRange
		rg.key = a.Key
		switch rng.IntN(5) {
		case 0: // only newer versions
			rg.min = int16(a.LibMax + 1 + rng.IntN(5))
			rg.max = rg.min + int16(rng.IntN(5))
		case 1: // empty range
			rg.min = int16(1 + rng.IntN(a.LibMax+3))
			rg.max = int16(rng.IntN(int(rg.min)))
		case 2:
			rg.min, rg.max = -1, -1
		case 3:
			rg.min, rg.max = -32768, int16(-1-rng.IntN(32767))
		default:
			rg.min, rg.max = 32767, int16([]int{32767, -32768, 0, a.LibMax}[rng.IntN(4)])
		}
		if _, ok := negotiable(rg, a.LibMax); !ok {
			return rg
		}
	}
}

func checkC14(r *Run) {
	requireBindings(r)
	r.rule = "lists of version ranges: for each API every (min, max) around the library's range and the extremes of int16, and random lists of known and unknown keys in any order; the versions used are read from the requests; distinct by list"
	// 1. each API, every range around its own
	type job struct {
		a  *API
		rg apiRange
	}
	var jobs []job
	for _, a := range apis {
		var vals []int16
		for v := -2; v <= a.LibMax+3; v++ {
			vals = append(vals, int16(v))
		}
		vals = append(vals, -32768, -100, 100, 32766, 32767)
		for _, lo := range vals {
			for _, hi := range vals {
				jobs = append(jobs, job{a, apiRange{a.Key, lo, hi}})
			}
		}
	}
	rng := r.Rng("jobs")
	rng.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	r.Doing("one API at a time, %d ranges", len(jobs))
	r.Parallel(len(jobs), func(i int) {
		rng := r.Rng("single", i)
		j := jobs[i]
		list := []apiRange{j.rg}
		for k := rng.IntN(3); k > 0; k-- { // company
			o := apis[rng.IntN(len(apis))]
			if o.Key != j.a.Key && find(list, o.Key) == "not advertised" {
				list = append(list, okRange(rng, o))
			}
		}
		rng.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		r.negotiate(rng, list, []*API{j.a}, "single")
	})
	// 2. whole lists
	r.Parallel(r.N(1500, 40000), func(i int) {
		rng := r.Rng("list", i)
		var list []apiRange
		p := []float64{1, 1, 0.9, 0.5, 0.1, 0}[rng.IntN(6)]
		for _, a := range apis {
			if rng.Float64() < p {
				list = append(list, okRange(rng, a))
			}
		}
		if rng.IntN(3) == 0 && len(list) > 0 { // one API without a common version
			at := rng.IntN(len(list))
			list[at] = badRange(rng, apiKeys[list[at].key])
		}
		if rng.IntN(2) == 0 { // keys unknown to the library
			for k := rng.IntN(8); k >= 0; k-- {
				key := []int16{48, 49, 50, 60, 100, 32767, -1, -32768, int16(rng.IntN(1000) + 48)}[rng.IntN(9)]
				if apiKeys[key] == nil && find(list, key) == "not advertised" {
					list = append(list, apiRange{key, int16(rng.IntN(30) - 10), int16(rng.IntN(30) - 10)})
				}
			}
		}
		switch rng.IntN(4) {
		case 0:
			sort.Slice(list, func(i, j int) bool { return list[i].key > list[j].key })
		case 1:
			sort.Slice(list, func(i, j int) bool { return list[i].key < list[j].key })
		default:
			rng.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		}
		probe := append([]*API{}, apis...)
		rng.Shuffle(len(probe), func(i, j int) { probe[i], probe[j] = probe[j], probe[i] })
		r.negotiate(rng, list, probe, "list")
		r.Sampled(func() any { return map[string]any{"advertised": fmt.Sprint(list)} })
	})
	// 3. long lists: what the library knows lies anywhere among many keys it does not know
	lengths := []int{40, 60, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 1000, 1024, 4096, 5000, 10000, 20000, 32000}
	r.Parallel(r.N(60, 1500), func(i int) {
		rng := r.Rng("long list", i)
		var keys []int16
		for k := -32768; k <= 32767; k++ {
			if apiKeys[int16(k)] == nil && (k < 0 || k > 1000) {
				keys = append(keys, int16(k))
			}
		}
		rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		n := lengths[i%len(lengths)]
		list := make([]apiRange, 0, n+len(apis))
		for _, k := range keys[:n] {
			list = append(list, apiRange{k, int16(rng.IntN(30) - 10), int16(rng.IntN(30) - 10)})
		}
		var known []apiRange
		for _, a := range apis {
			known = append(known, okRange(rng, a))
		}
		if rng.IntN(3) == 0 {
			at := rng.IntN(len(known))
			known[at] = badRange(rng, apiKeys[known[at].key])
		}
		list = append(list, known...)
		switch rng.IntN(4) { // otherwise after all the others
		case 0:
			sort.Slice(list, func(i, j int) bool { return list[i].key < list[j].key })
		case 1:
			rng.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		}
		r.negotiate(rng, list, apis, fmt.Sprint("long list ", n))
		r.Count("long_lists", 1)
	})
}
