package main

import (
	"fmt"
	"reflect"
	"time"
	"unsafe"

	"github.com/savaki/kafka/ring"
)

// Streams of gigabytes are out of reach of a quick run.  Counters inside the ring that advance by the same amount with every identical step are looked for;
// those of equal value are advanced together to just before the limits of 32 bits, after
// an advance by a small amount has shown that this leaves everything working.

type counters struct {
	cells []cell
	value int64 // at rest
	step  int64
}

// findCounters runs identical steps and groups the cells that grew by the same amount each time.
func findCounters(cells []cell, steps int, step func() bool) []counters {
	prev := make([]int64, len(cells))
	for i, c := range cells {
		prev[i] = c.load()
	}
	delta := make([]int64, len(cells))
	bad := make([]bool, len(cells))
	for s := 0; s < steps; s++ {
		if !step() {
			return nil
		}
		for i, c := range cells {
			v := c.load()
			d := v - prev[i]
			prev[i] = v
			if d <= 0 || s > 0 && d != delta[i] {
				bad[i] = true
			}
			delta[i] = d
		}
	}
	type key struct{ v, d int64 }
	at := map[key]int{}
	var out []counters
	for i, c := range cells {
		if bad[i] {
			continue
		}
		k := key{prev[i], delta[i]}
		if j, ok := at[k]; ok {
			out[j].cells = append(out[j].cells, c)
			continue
		}
		at[k] = len(out)
		out = append(out, counters{[]cell{c}, prev[i], delta[i]})
	}
	return out
}

func (c counters) advance(by int64) {
	for _, x := range c.cells {
		x.store(x.load() + by)
	}
}

func (c counters) String() string {
	s := ""
	for _, x := range c.cells {
		s += " " + x.path
	}
	return s
}

// ringCounters: a ring that has carried gigabytes.
func (r *Run) ringCounters(size int) {
	r.Doing("byte counters of a ring of %d", size)
	// state: what is known to work before a violation is reported
	for attempt := 0; attempt < 4; attempt++ { // one group of counters at a time, each on its own ring
		b := ring.New(size)
		var at string
		pos := 0
		transfer := func(n int) (err error) { // n bytes through the empty ring, by two goroutines
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("panic: %v", p)
				}
			}()
			werr := make(chan error, 1)
			from := pos
			go func() {
				defer func() {
					if p := recover(); p != nil {
						werr <- fmt.Errorf("panic: %v", p)
						b.Close()
					}
				}()
				werr <- b.WriteN(stream(uint64(size), from, n), n)
			}()
			buf := make([]byte, n)
			if err := b.ReadN(buf, n); err != nil {
				return fmt.Errorf("read: %v", err)
			}
			if err := <-werr; err != nil {
				return fmt.Errorf("write: %v", err)
			}
			for i := range buf {
				if buf[i] != streamByte(uint64(size), pos+i) {
					return fmt.Errorf("byte %d is %02x, written was %02x", pos+i, buf[i], streamByte(uint64(size), pos+i))
				}
			}
			pos += n
			r.progress.Add(1)
			return nil
		}
		sure := func(n int) {
			done := make(chan error, 1)
			go func() { done <- transfer(n) }()
			fin := make(chan struct{})
			var err error
			go func() { err = <-done; close(fin) }()
			r.await(fin, "the stream stopped: a read or write never returned", func() string { return at })
			if err != nil {
				r.Violation("the ring delivered wrong bytes", "%v; %s", err, at)
			}
		}
		trial := func(n int) bool { // for finding out: nothing is reported
			done := make(chan error, 1)
			go func() { done <- transfer(n) }()
			select {
			case err := <-done:
				return err == nil
			case <-time.After(3 * time.Second):
				return false
			}
		}
		at = fmt.Sprintf("ring of %d, from the start", size)
		sure(2*size + 1)
		var cells []cell
		intCells(reflect.TypeOf(ring.Buffer{}), unsafe.Pointer(b), "Buffer", 0, map[unsafe.Pointer]bool{}, &cells)
		// a step of a whole number of rings, byte by byte, so that positions stay and counters move
		groups := findCounters(cells, 4, func() bool {
			for i := 0; i < size; i++ {
				sure(1)
			}
			return true
		})
		// a position starts again some time, a counter does not
		for n := 0; n < 500 && len(groups) > 0; n++ {
			sure(997)
			var keep []counters
			for _, g := range groups {
				v := g.cells[0].load()
				same := v > g.value
				for _, c := range g.cells {
					same = same && c.load() == v
				}
				if same {
					g.value = v
					keep = append(keep, g)
				}
			}
			groups = keep
		}
		for i := 0; i < size && len(groups) > 0; i++ { // back to a whole number of rings
			if pos%size != 1%size {
				sure(1)
			}
		}
		if attempt >= len(groups) {
			if attempt == 0 {
				r.Count("rings_without_counters", 1)
			}
			b.Close()
			return
		}
		g := groups[attempt]
		g.advance(g.step * 1000)
		ok := true
		for i := 0; i < 2*size && ok; i++ {
			ok = trial(1)
		}
		if ok = ok && trial(3*size+1); !ok {
			r.Count("rings_with_counters_not_understood", 1)
			b.Close()
			continue
		}
		r.extra["ring_counters"] = g.String()
		for _, k := range []int{15, 16, 24, 31, 32} {
			limit := int64(1) << k
			if g.cells[0].bytes == 4 && k == 32 {
				limit = 1<<32 - 1 // the store truncates
			}
			cur := g.cells[0].load()
			if g.cells[0].bytes == 4 {
				cur = int64(uint32(cur))
			}
			by := (limit - cur - 2*g.step) / g.step * g.step
			if by <= 0 {
				continue
			}
			g.advance(by)
			at = fmt.Sprintf("ring of %d, counter%s around 2^%d", size, g, k)
			for i := 0; i < 2*size; i++ {
				sure(1)
			}
			for i := 0; i < 6; i++ {
				sure(size + i)
			}
			r.Count("ring_counter_boundaries", 1)
			r.Case(true, fp("ring counter", size, k))
		}
		b.Close()
	}
}
