package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"unsafe"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

// Correlation ids far into the life of a connection cannot be reached by making calls.
// A counter inside the connection is looked for that always equals the last id seen on
// the wire; if there is one, it is advanced to just before each power of two.

type cell struct {
	p     unsafe.Pointer
	bytes uintptr
	path  string
}

//go:norace
func (c cell) load() int64 {
	if c.bytes == 4 {
		return int64(*(*int32)(c.p))
	}
	return *(*int64)(c.p)
}

//go:norace
func (c cell) store(v int64) {
	if c.bytes == 4 {
		*(*int32)(c.p) = int32(v)
	} else {
		*(*int64)(c.p) = v
	}
}

//go:norace
func loadPointer(p unsafe.Pointer) unsafe.Pointer { return *(*unsafe.Pointer)(p) }

// intCells lists the integers of 4 and 8 bytes within a struct of the library and what it points to.
func intCells(t reflect.Type, p unsafe.Pointer, path string, depth int, seen map[unsafe.Pointer]bool, out *[]cell) {
	if depth > 6 {
		return
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		fp := unsafe.Add(p, f.Offset)
		name := path + "." + f.Name
		switch f.Type.Kind() {
		case reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64, reflect.Int, reflect.Uint:
			*out = append(*out, cell{fp, f.Type.Size(), name})
		case reflect.Struct:
			if strings.HasPrefix(f.Type.PkgPath(), libPath) || f.Type.PkgPath() == "sync/atomic" || f.Type.PkgPath() == "" {
				intCells(f.Type, fp, name, depth+1, seen, out)
			}
		case reflect.Pointer:
			e := f.Type.Elem()
			if e.Kind() == reflect.Struct && strings.HasPrefix(e.PkgPath(), libPath) {
				q := loadPointer(fp)
				if q != nil && !seen[q] {
					seen[q] = true
					intCells(e, q, name, depth+1, seen, out)
				}
			} else if k := e.Kind(); k == reflect.Int32 || k == reflect.Uint32 || k == reflect.Int64 || k == reflect.Uint64 {
				if q := loadPointer(fp); q != nil {
					*out = append(*out, cell{q, e.Size(), name})
				}
			}
		}
	}
}

func (r *Run) idBoundaries() {
	r.Doing("correlation ids around powers of two")
	const ver = 1
	srv := newServer("127.0.0.1")
	srv.ranges = pinned(func(a *API) int { return min(a.LibMax, ver) })
	var mu sync.Mutex
	seen := map[int32]int{}
	var last int32
	var held []*Frame
	var heldReady sync.WaitGroup
	const holds = 4
	heldReady.Add(holds)
	var conn *SConn
	answer := func(f *Frame) []byte {
		_, gen := heartbeatIDs(f.Body)
		return responseFrame(f.Corr, []byte{byte(gen >> 24), byte(gen >> 16), byte(gen >> 8), byte(gen), 0, 0})
	}
	note := func(f *Frame) {
		mu.Lock()
		defer mu.Unlock()
		if at, ok := seen[f.Corr]; ok {
			r.Violation("a correlation id was used twice on one connection", "id %d, in frames %d and %d", f.Corr, at, f.Seq)
		}
		seen[f.Corr] = f.Seq
		last = f.Corr
	}
	srv.versions = func(c *SConn, f *Frame) {
		note(f)
		c.write(responseFrame(f.Corr, versionsBody(srv.ranges, int(f.Ver))))
	}
	srv.handle = func(c *SConn, f *Frame) {
		note(f)
		if group, _ := heartbeatIDs(f.Body); group == "held" {
			mu.Lock()
			held = append(held, f)
			conn = c
			mu.Unlock()
			heldReady.Done()
			return
		}
		c.write(answer(f))
	}
	srv.start()
	b := r.dialBroker(srv.Addr)
	var next int32
	call := func(group string, gen int32) {
		resp, err := b.Heartbeat(message.HeartbeatRequest{GroupId: group, GenerationId: gen, MemberId: "m"})
		if err != nil {
			r.Violation("a call failed although its response was sent", "correlation id around %d: %v", last, err)
		}
		if resp.ThrottleTimeMs != gen {
			r.Violation("a call returned something other than the response to its request", "correlation id around %d: call %d got the response to call %d", last, gen, resp.ThrottleTimeMs)
		}
	}
	step := func() int32 { // one call on its own; the id it used
		next++
		done := make(chan struct{})
		go func() { defer close(done); call("g", next) }()
		r.await(done, "a call never returned although its response was sent", func() string { return fmt.Sprint("correlation id around ", last) })
		mu.Lock()
		defer mu.Unlock()
		return last
	}
	var hwg sync.WaitGroup
	for h := 0; h < holds; h++ {
		hwg.Add(1)
		go func() { defer hwg.Done(); call("held", int32(-1-h)) }()
	}
	r.awaitAll(&heldReady, "a request was not written", func() string { return "held calls" })
	var cells []cell
	intCells(reflect.TypeOf(kafka.Broker{}), unsafe.Pointer(b), "Broker", 0, map[unsafe.Pointer]bool{}, &cells)
	for i := 0; i < 6 && len(cells) > 0; i++ {
		id := step()
		var keep []cell
		for _, c := range cells {
			if int32(c.load()) == id {
				keep = append(keep, c)
			}
		}
		cells = keep
	}
	var ids *cell
	for i := range cells {
		old := cells[i].load()
		cells[i].store(old + 1000)
		if step() == int32(old)+1001 {
			ids = &cells[i]
			break
		}
		cells[i].store(old + 1)
	}
	if ids == nil {
		r.Count("correlation_counter_not_found", 1)
	} else {
		r.extra["correlation_counter"] = ids.path
		targets := []int64{}
		for k := 11; k <= 31; k++ {
			targets = append(targets, int64(1)<<k)
		}
		for _, n := range dictLarge {
			targets = append(targets, int64(n))
		}
		for _, n := range []int64{999_999, 1_000_000, 10_000_000, 100_000_000, 1_000_000_000} {
			targets = append(targets, n)
		}
		sortInt64(targets)
		for _, t := range targets {
			if cur := ids.load(); t-4 <= cur || cur < 0 {
				continue
			}
			ids.store(t - 4)
			var wg sync.WaitGroup
			for i := 0; i < 9; i++ {
				next++
				n := next
				wg.Add(1)
				go func() { defer wg.Done(); call("g", n) }()
			}
			r.awaitAll(&wg, "a call never returned although its response was sent", func() string { return fmt.Sprint("correlation ids around ", t) })
			r.Count("correlation_id_boundaries", 1)
			r.Case(true, fp("id boundary", t))
		}
	}
	mu.Lock()
	for _, f := range held {
		conn.write(answer(f))
	}
	mu.Unlock()
	r.awaitAll(&hwg, "a call never returned although its response was sent", func() string { return "held calls" })
	r.closeBroker(b)
	srv.stop()
}

func sortInt64(s []int64) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
