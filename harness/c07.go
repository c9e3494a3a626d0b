package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"github.com/savaki/kafka/ring"
)

func init() {
	checks["C07"] = checkC07
	checks["C08"] = checkC08
}

// streamByte is the byte at position i of the stream with the given key.
func streamByte(key uint64, i int) byte {
	x := (uint64(i) + key) * 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	return byte(x >> 56)
}

type ringCase struct {
	id     int
	size   int
	total  int
	wPlan  []int
	rPlan  []int
	key    uint64
	pauseW int // pause writer every so many operations
	pauseR int
	desc   string
	wDone  bool
	rDone  bool
	at     string
	events []ringEvent
	mu     sync.Mutex
}

type ringEvent struct {
	t    time.Time
	side byte
}

func chunks(rng *rand.Rand, total, size int) []int {
	var out []int
	mode := rng.IntN(7)
	for left := total; left > 0; {
		n := 1
		switch mode {
		case 0:
		case 1:
			n = 1 + rng.IntN(max(1, size/2))
		case 2:
			n = 1 + rng.IntN(3*size)
		case 3:
			n = size
		case 4:
			n = size - 1
		case 5:
			n = []int{0, 1, size - 1, size, size + 1, 2 * size, 2*size + 1}[rng.IntN(7)]
		case 6:
			n = rng.IntN(5)
		}
		n = min(n, left)
		out = append(out, n)
		left -= n
	}
	if rng.IntN(3) == 0 {
		out = append(out, 0)
	}
	return out
}

func newRingCase(rng *rand.Rand, id int) *ringCase {
	sizes := []int{2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 16, 17, 31, 64, 65, 127, 1000}
	c := &ringCase{id: id, size: sizes[rng.IntN(len(sizes))], key: rng.Uint64()}
	c.total = 1 + rng.IntN(min(40*c.size, 900))
	if c.size == 1000 {
		c.total = 500 + rng.IntN(4000)
	}
	c.wPlan = chunks(rng, c.total, c.size)
	c.rPlan = chunks(rng, c.total, c.size)
	if rng.IntN(3) == 0 {
		c.pauseW = 1 + rng.IntN(5)
	}
	if rng.IntN(3) == 0 {
		c.pauseR = 1 + rng.IntN(5)
	}
	c.desc = fmt.Sprintf("ring of %d, %d bytes, %d writes %v, %d reads %v", c.size, c.total, len(c.wPlan), clip(fmt.Sprint(c.wPlan), 200), len(c.rPlan), clip(fmt.Sprint(c.rPlan), 200))
	return c
}

func (c *ringCase) writer(r *Run, b *ring.Buffer, events *[]ringEvent) {
	pos := 0
	for i, n := range c.wPlan {
		data := make([]byte, n+1+i%5)
		for j := 0; j < n; j++ {
			data[j] = streamByte(c.key, pos+j)
		}
		for j := n; j < len(data); j++ {
			data[j] = ^streamByte(c.key, pos+j)
		}
		if err := b.WriteN(data, n); err != nil {
			r.Violation("a write to an open ring failed", "%v at write %d of %s", err, i, c.desc)
		}
		*events = append(*events, ringEvent{time.Now(), 'w'})
		// the argument belongs to the caller again
		for j := range data {
			data[j] = ^data[j]
		}
		pos += n
		if c.pauseW > 0 && i%c.pauseW == 0 {
			time.Sleep(time.Duration(20+i%50) * time.Microsecond)
		}
	}
}

func (c *ringCase) reader(r *Run, b *ring.Buffer, events *[]ringEvent) {
	pos := 0
	var prev, prevCopy []byte
	for i, n := range c.rPlan {
		buf := make([]byte, n+1+i%5)
		for j := range buf {
			buf[j] = ^streamByte(c.key, pos+j) // anything but the right byte
		}
		canary := append([]byte{}, buf[n:]...)
		if err := b.ReadN(buf, n); err != nil {
			r.Violation("a read from an open ring failed", "%v at read %d of %s", err, i, c.desc)
		}
		*events = append(*events, ringEvent{time.Now(), 'r'})
		for j := 0; j < n; j++ {
			if buf[j] != streamByte(c.key, pos+j) {
				r.Violation("the ring delivered wrong bytes", "byte %d of the stream (byte %d of read %d of %d bytes) is %02x, written was %02x\n%s", pos+j, j, i, n, buf[j], streamByte(c.key, pos+j), c.desc)
			}
		}
		if !bytes.Equal(canary, buf[n:]) {
			r.Violation("a read wrote beyond the bytes asked for", "read %d of %d bytes: %s", i, n, c.desc)
		}
		if !bytes.Equal(prev, prevCopy) {
			r.Violation("bytes already read changed later", "before read %d: %s", i, c.desc)
		}
		prev, prevCopy = buf, append([]byte{}, buf...)
		pos += n
		if c.pauseR > 0 && i%c.pauseR == 0 {
			time.Sleep(time.Duration(20+i%50) * time.Microsecond)
		}
	}
}

func mergeEvents(a, b []ringEvent) (string, int) {
	var out []byte
	switches := 0
	for len(a) > 0 || len(b) > 0 {
		var e ringEvent
		if len(b) == 0 || len(a) > 0 && a[0].t.Before(b[0].t) {
			e, a = a[0], a[1:]
		} else {
			e, b = b[0], b[1:]
		}
		if len(out) > 0 && out[len(out)-1] != e.side {
			switches++
		}
		out = append(out, e.side)
	}
	return string(out), switches
}

func checkC07(r *Run) {
	r.rule = "one writer and one reader on a ring of 2 to 1000 bytes with random write and read sizes (0 to 3x the ring), pauses and schedule perturbation, under the race detector; distinct by ring size, plan and merged order of completed operations, non-trivial if the two sides alternated more than twice"
	r.assume = append(r.assume, "one reader and one writer, as the buffer documents")
	batches := r.N(130, 6000)
	for bi := 0; bi < batches; bi++ {
		rng := r.Rng("batch", bi)
		profile := perturb(rng)
		r.Doing("batch %d, perturbation %s", bi, profile)
		var wg sync.WaitGroup
		cases := make([]*ringCase, 24)
		for i := range cases {
			c := newRingCase(rng, i)
			cases[i] = c
			b := ring.New(c.size)
			var we, re []ringEvent
			wg.Add(1)
			go func() {
				defer wg.Done()
				var in sync.WaitGroup
				in.Add(2)
				go func() { defer in.Done(); c.writer(r, b, &we) }()
				go func() { defer in.Done(); c.reader(r, b, &re) }()
				in.Wait()
				c.mu.Lock()
				c.rDone = true
				c.mu.Unlock()
				order, switches := mergeEvents(we, re)
				r.Case(switches > 2, fp(c.size, fmt.Sprint(c.wPlan), fmt.Sprint(c.rPlan), order))
				r.Count("bytes", int64(c.total))
				r.Count("reads_and_writes", int64(len(we)+len(re)))
				r.Sampled(func() any {
					return map[string]any{"ring": c.size, "bytes": c.total, "perturbation": profile, "order": clip(order, 200)}
				})
				b.Close()
			}()
		}
		r.awaitAll(&wg, "the stream stopped: a read or write never returned", func() string { return pendingRings(cases) })
	}
	calm()
	// a large stream through a ring of the size connections use
	for i := 0; i < r.N(2, 20); i++ {
		rng := r.Rng("large", i)
		size := []int{4096, 100000}[i%2]
		c := &ringCase{id: i, size: size, total: size*9 + rng.IntN(size), key: rng.Uint64()}
		for left := c.total; left > 0; {
			n := min(left, 1+rng.IntN(2*size))
			c.wPlan = append(c.wPlan, n)
			left -= n
		}
		for left := c.total; left > 0; {
			n := min(left, 1+rng.IntN(2*size))
			c.rPlan = append(c.rPlan, n)
			left -= n
		}
		c.desc = fmt.Sprintf("large ring of %d, %d bytes", size, c.total)
		b := ring.New(size)
		var wg sync.WaitGroup
		wg.Add(2)
		var we, re []ringEvent
		go func() { defer wg.Done(); c.writer(r, b, &we) }()
		go func() { defer wg.Done(); c.reader(r, b, &re) }()
		r.awaitAll(&wg, "the stream stopped: a read or write never returned", func() string { return c.desc })
		b.Close()
		order, _ := mergeEvents(we, re)
		r.Case(true, fp("large", order, c.total))
		r.Count("bytes", int64(c.total))
	}
	for _, size := range []int{2, 3, 7, 16, 100} {
		r.ringCounters(size)
	}
	r.yieldStats()
}

func pendingRings(cases []*ringCase) string {
	s := ""
	for _, c := range cases {
		c.mu.Lock()
		if !c.rDone {
			s += "unfinished: " + c.desc + "\n"
		}
		c.mu.Unlock()
	}
	return s
}

func checkC08(r *Run) {
	for size := 2; size < 22; size++ {
		r.Doing("measuring the capacity of a ring of %d", size)
		ringCapacity(size)
	}
	r.rule = "scenarios with nothing left to cover up a lost wake-up: alternating conversations over two rings, final pieces of one byte, writers blocked on a full ring released by small reads, and closes at random moments with readers, writers and both blocked; distinct by scenario, sizes and order of completions; all non-trivial"
	batches := r.N(150, 6000)
	for bi := 0; bi < batches; bi++ {
		rng := r.Rng("batch", bi)
		profile := perturb(rng)
		r.Doing("batch %d, perturbation %s", bi, profile)
		var wg sync.WaitGroup
		var mu sync.Mutex
		pending := map[string]bool{}
		for i := 0; i < 24; i++ {
			seed := rng.Uint64()
			kind := rng.IntN(6)
			desc := fmt.Sprintf("scenario %d/%d kind %d seed %d", bi, i, kind, seed)
			mu.Lock()
			pending[desc] = true
			mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				crng := rand.New(rand.NewPCG(seed, 1))
				info := ""
				switch kind {
				case 0, 1:
					info = r.ringConversation(crng, desc)
				case 2:
					info = r.ringFinalPieces(crng, desc)
				case 3:
					info = r.ringMakeRoom(crng, desc)
				default:
					info = r.ringClose(crng, desc)
				}
				mu.Lock()
				delete(pending, desc)
				mu.Unlock()
				r.Case(true, fp(kind, info))
				r.Count([]string{"conversations", "conversations", "final_pieces", "make_room", "closes", "closes"}[kind], 1)
				r.Sampled(func() any { return map[string]any{"scenario": kind, "perturbation": profile, "info": info} })
			}()
		}
		r.awaitAll(&wg, "a waiting read, write or close never returned", func() string {
			mu.Lock()
			defer mu.Unlock()
			return fmt.Sprint("unfinished: ", pending)
		})
	}
	calm()
	r.yieldStats()
}

func wr(r *Run, b *ring.Buffer, data []byte, desc string) {
	if err := b.WriteN(data, len(data)); err != nil {
		r.Violation("a write to an open ring failed", "%v: %s", err, desc)
	}
}

func rd(r *Run, b *ring.Buffer, n int, key uint64, pos int, desc string) {
	buf := make([]byte, n)
	if err := b.ReadN(buf, n); err != nil {
		r.Violation("a read from an open ring failed", "%v: %s", err, desc)
	}
	for i := range buf {
		if buf[i] != streamByte(key, pos+i) {
			r.Violation("a read returned before its bytes were there", "byte %d is %02x, written was %02x: %s", pos+i, buf[i], streamByte(key, pos+i), desc)
		}
	}
}

func stream(key uint64, pos, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = streamByte(key, pos+i)
	}
	return out
}

// ringConversation: two parties answer each other over two rings; whoever is not
// woken stops the conversation for good.
func (r *Run) ringConversation(rng *rand.Rand, desc string) string {
	sizeA, sizeB := 2+rng.IntN(12), 2+rng.IntN(12)
	a, b := ring.New(sizeA), ring.New(sizeB)
	rounds := 5 + rng.IntN(60)
	req, resp := make([]int, rounds), make([]int, rounds)
	for i := range req {
		req[i], resp[i] = 1+rng.IntN(3*sizeA), 1+rng.IntN(3*sizeB)
	}
	piece := 1 + rng.IntN(4)
	key := rng.Uint64()
	send := func(x *ring.Buffer, pos, n int) {
		for n > 0 {
			k := min(piece, n)
			wr(r, x, stream(key, pos, k), desc)
			pos += k
			n -= k
		}
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		in, out := 0, 0
		for i := range req {
			rd(r, a, req[i], key, in, desc)
			in += req[i]
			send(b, out, resp[i])
			out += resp[i]
		}
	}()
	in, out := 0, 0
	for i := range req {
		send(a, out, req[i])
		out += req[i]
		rd(r, b, resp[i], key, in, desc)
		in += resp[i]
	}
	wg.Wait()
	a.Close()
	b.Close()
	return fmt.Sprint("conversation ", sizeA, sizeB, rounds, piece, req)
}

// ringFinalPieces: a reader waits for n bytes which arrive in small pieces, the last
// of them after a pause; nothing follows.
func (r *Run) ringFinalPieces(rng *rand.Rand, desc string) string {
	size := 2 + rng.IntN(20)
	b := ring.New(size)
	n := 1 + rng.IntN(4*size)
	key := rng.Uint64()
	pauses := make([]int, n)
	for i := range pauses {
		if rng.IntN(4) == 0 {
			pauses[i] = rng.IntN(100)
		}
	}
	lastPause := rng.IntN(3) * 200
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		rd(r, b, n, key, 0, desc)
	}()
	for i := 0; i < n; i++ {
		if i == n-1 && lastPause > 0 {
			time.Sleep(time.Duration(lastPause) * time.Microsecond)
		} else if pauses[i] > 0 {
			time.Sleep(time.Duration(pauses[i]) * time.Microsecond)
		}
		wr(r, b, stream(key, i, 1), desc)
	}
	wg.Wait()
	b.Close()
	return fmt.Sprint("final pieces ", size, n, lastPause)
}

// ringCapacity measures how many bytes a ring takes without a reader.  It can only
// come out too small (the writer was slow), never too large.
var (
	ringCapMu sync.Mutex
	ringCaps  = map[int]int{}
)

func ringCapacity(size int) int {
	ringCapMu.Lock()
	defer ringCapMu.Unlock()
	if c, ok := ringCaps[size]; ok {
		return c
	}
	var n atomic.Int32
	b := ring.New(size)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 4*size; i++ {
			if b.WriteN([]byte{1}, 1) != nil {
				return
			}
			n.Add(1)
		}
	}()
	last, since := int32(-1), time.Now()
	for time.Since(since) < 20*time.Millisecond {
		time.Sleep(time.Millisecond)
		if k := n.Load(); k != last {
			last, since = k, time.Now()
		}
	}
	c := int(n.Load())
	b.Close()
	<-done
	if c < 1 || c > size {
		c = max(1, (size-1)/2) // whatever this ring does, other checks judge it
	}
	ringCaps[size] = c
	return c
}

// ringMakeRoom: a writer blocks on the full ring; the reader takes just enough for it
// to finish, in small pieces, and then waits for the writer before it takes the rest;
// over and over on the same ring.
func (r *Run) ringMakeRoom(rng *rand.Rand, desc string) string {
	size := 2 + rng.IntN(20)
	if rng.IntN(3) == 0 {
		size = 2 + rng.IntN(4)
	}
	b := ring.New(size)
	fits := ringCapacity(size) // this much always fits
	key := rng.Uint64()
	piece := 1 + rng.IntN(3)
	pause := rng.IntN(2) * 150
	rounds := 1 + rng.IntN(12)
	base := 0
	for round := 0; round < rounds; round++ {
		left := fits
		if rng.IntN(4) == 0 {
			left = 1 + rng.IntN(fits)
		}
		take := 1 + rng.IntN(2*size)
		if rng.IntN(2) == 0 {
			take = 1 + rng.IntN(3)
		}
		var wg sync.WaitGroup
		wg.Add(1)
		from := base
		go func() {
			defer wg.Done()
			wr(r, b, stream(key, from, take+left), desc)
		}()
		for pos := 0; pos < take; {
			k := min(piece, take-pos)
			if pause > 0 && rng.IntN(3) == 0 {
				time.Sleep(time.Duration(rng.IntN(pause)) * time.Microsecond)
			}
			rd(r, b, k, key, base+pos, desc)
			pos += k
		}
		wg.Wait() // nothing more is read: the writer must be able to finish
		rd(r, b, left, key, base+take, desc)
		base += take + left
	}
	b.Close()
	return fmt.Sprint("make room ", size, rounds, piece, base)
}

// ringClose: reader and writer in any state while the ring is closed, once or often.
func (r *Run) ringClose(rng *rand.Rand, desc string) string {
	size := 2 + rng.IntN(20)
	b := ring.New(size)
	key := rng.Uint64()
	mode := rng.IntN(4) // 0 reader blocked, 1 writer blocked, 2 both streaming, 3 idle
	closers := 1 + rng.IntN(3)
	delay := rng.IntN(300)
	wn, rn := 1+rng.IntN(3*size), 1+rng.IntN(3*size)
	var wg sync.WaitGroup
	if mode == 1 || mode == 2 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for pos, k := 0, 0; k < 4000; k++ {
				if b.WriteN(stream(key, pos, wn), wn) != nil {
					break
				}
				pos += wn
			}
		}()
	}
	if mode == 0 || mode == 2 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for pos, k := 0, 0; k < 4000; k++ {
				buf := make([]byte, rn)
				if b.ReadN(buf, rn) != nil {
					break
				}
				if !bytes.Equal(buf, stream(key, pos, rn)) {
					r.Violation("a read during a close made up bytes", "read of %d at %d: %x, stream %x: %s", rn, pos, buf, stream(key, pos, rn), desc)
				}
				pos += rn
			}
		}()
	}
	for i := 0; i < closers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(delay) * time.Microsecond)
			b.Close()
		}()
	}
	wg.Wait()
	// nothing blocks any more
	for i := 0; i < 3; i++ {
		b.Close()
		b.WriteN(make([]byte, 3*size), []int{1, size, 3 * size}[i])
		b.ReadN(make([]byte, 5*size), []int{5 * size, 1, size}[i])
	}
	return fmt.Sprint("close ", size, mode, closers, delay, wn, rn)
}
