package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C25"] = checkC25 }

// sentCall is one call and when it was made, by the clock of the session.
type sentCall struct {
	uid        int64
	start, end int64
	pad        int
	acked      bool
	err        error
}

// orderSession records the calls on one connection and the requests its broker receives.
type orderSession struct {
	r      *Run
	desc   string
	clock  atomic.Int64
	uids   atomic.Int64
	mu     sync.Mutex
	calls  map[int64]*sentCall
	recv   []int64
	conn   *kafka.Conn
	broker *kafka.Broker
}

func (s *orderSession) call(pad int, acked bool) error {
	c := &sentCall{uid: s.uids.Add(1), pad: pad, acked: acked}
	s.mu.Lock()
	s.calls[c.uid] = c
	s.mu.Unlock()
	c.end = math.MaxInt64
	encode := func(e *message.Encoder, corr int32) {
		e.PutInt32(int32(10 + len(clientID) + 9 + pad))
		e.PutInt16(12)
		e.PutInt16(0)
		e.PutInt32(corr)
		e.PutString(clientID)
		e.PutInt64(c.uid)
		e.PutBool(acked)
		for left := pad; left > 0; {
			if left > 65536 {
				for i := 0; i < 8192; i++ {
					e.PutInt64(c.uid)
				}
				left -= 65536
				continue
			}
			e.PutInt8(0)
			left--
		}
	}
	c.start = s.clock.Add(1)
	var err error
	switch {
	case s.broker != nil && acked:
		_, err = s.broker.Heartbeat(message.HeartbeatRequest{GroupId: "g", GenerationId: int32(c.uid), MemberId: "m"})
	case s.broker != nil:
		_, err = s.broker.Produce(message.ProduceRequest{TimeoutMs: int32(c.uid), Topics: []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{Records: make([]byte, pad)}}}}})
	case acked:
		err = s.conn.Do(encode, func(d *message.Decoder) error { _, err := d.Int64(); return err })
	default:
		err = s.conn.Send(encode)
	}
	end := s.clock.Add(1)
	s.mu.Lock()
	c.end, c.err = end, err
	s.mu.Unlock()
	return err
}

func (s *orderSession) received(f *Frame) (int64, bool) {
	var uid int64
	acked := false
	switch {
	case s.broker == nil:
		if len(f.Body) < 9 {
			s.r.Violation("the request stream is not a sequence of whole frames", "%s: %s", s.desc, hx(f.Body))
		}
		uid = int64(binary.BigEndian.Uint64(f.Body))
		acked = f.Body[8] == 1
	case f.Key == 0:
		uid = int64(binary.BigEndian.Uint32(f.Body[2:]))
	case f.Key == 12:
		_, gen := heartbeatIDs(f.Body)
		uid, acked = int64(gen), true
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if c := s.calls[uid]; c == nil || c.acked != acked {
		s.r.Violation("the broker received a request no caller made", "%s: key %d, number %d", s.desc, f.Key, uid)
	}
	s.recv = append(s.recv, uid)
	return uid, acked
}

// judge compares the order of the calls with the order of arrival.
func (s *orderSession) judge(all bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	pos := map[int64]int{}
	for i, uid := range s.recv {
		if j, ok := pos[uid]; ok {
			s.r.Violation("a request reached the broker twice", "%s: call %d, arrivals %d and %d", s.desc, uid, j, i)
		}
		pos[uid] = i
	}
	// of what arrived later than i, nothing may have returned before i was called
	var later *sentCall
	pairs := int64(0)
	for i := len(s.recv) - 1; i >= 0; i-- {
		c := s.calls[s.recv[i]]
		if later != nil && later.end < c.start {
			s.r.Violation("a request overtook one whose call had returned before", "%s: call %d (%d bytes, answered: %v) returned at %d, call %d (%d bytes, answered: %v) was made at %d and arrived first", s.desc, later.uid, later.pad, later.acked, later.end, c.uid, c.pad, c.acked, c.start)
		}
		if later == nil || c.end < later.end {
			later = c
		}
	}
	// what arrived leaves no gap
	latest := int64(0)
	if n := len(s.recv); n > 0 {
		for _, uid := range s.recv {
			latest = max(latest, s.calls[uid].start)
		}
	}
	var ends, starts []int64
	for uid, c := range s.calls {
		if _, ok := pos[uid]; ok {
			ends, starts = append(ends, c.end), append(starts, c.start)
			continue
		}
		if c.err == nil && c.end != math.MaxInt64 && (all || c.end < latest) {
			s.r.Violation("a request never arrived although its call succeeded and later ones arrived", "%s: call %d (%d bytes, answered: %v)", s.desc, uid, c.pad, c.acked)
		}
	}
	sort.Slice(ends, func(i, j int) bool { return ends[i] < ends[j] })
	for _, st := range starts { // pairs of calls one of which returned before the other was made
		pairs += int64(sort.Search(len(ends), func(i int) bool { return ends[i] >= st }))
	}
	s.r.Count("ordered_pairs_judged", pairs)
	s.r.Count("requests_received", int64(len(s.recv)))
}

func (r *Run) orderRun(rng *rand.Rand) string {
	s := &orderSession{r: r, calls: map[int64]*sentCall{}}
	viaBroker := rng.IntN(2) == 0
	share := []int{0, 1, 4, 9}[rng.IntN(4)] // of ten calls that are answered
	mode := []string{"free", "handed on", "free", "handed on", "cut", "burst"}[rng.IntN(6)]
	slow := rng.IntN(3) == 0
	callers := 1 + rng.IntN(8)
	s.desc = fmt.Sprintf("%d callers, %s, %d of 10 calls answered, slow broker: %v, through a broker: %v", callers, mode, share, slow, viaBroker)

	srv := newServer("127.0.0.1")
	vers := rng.IntN(apiKeys[0].LibMax + 1)
	srv.ranges = pinned(func(a *API) int {
		if a.Key == 0 {
			return vers
		}
		return 0
	})
	cut := int64(-1)
	if mode == "cut" {
		cut = int64(rng.IntN(400_000))
		if rng.IntN(2) == 0 {
			cut = int64(rng.IntN(4000))
		}
	}
	srng := rand.New(rand.NewPCG(rng.Uint64(), 9))
	srv.raw = func(c *SConn) {
		if viaBroker {
			f, err := c.readFrame()
			if err != nil {
				return
			}
			c.write(responseFrame(f.Corr, versionsBody(srv.ranges, int(f.Ver))))
		}
		read := int64(0)
		for {
			if slow && srng.IntN(20) == 0 {
				time.Sleep(time.Duration(srng.IntN(1500)) * time.Microsecond)
			}
			f, err := c.readFrame()
			if err != nil {
				return
			}
			if viaBroker && f.Key == 0 {
				// the request carries its number behind an optional string
				if vers >= 3 {
					f.Body = f.Body[2+max(0, int(int16(binary.BigEndian.Uint16(f.Body)))):]
				}
			}
			uid, acked := s.received(f)
			if acked {
				if viaBroker {
					c.write(responseFrame(f.Corr, []byte{0, 0}))
				} else {
					c.write(responseFrame(f.Corr, binary.BigEndian.AppendUint64(nil, uint64(uid))))
				}
			}
			read += int64(len(f.Body) + 16)
			if cut >= 0 && read > cut {
				if t, ok := c.Conn.(*net.TCPConn); ok && srng.IntN(2) == 0 {
					t.SetLinger(0)
				}
				return
			}
		}
	}
	srv.start()
	if viaBroker {
		s.broker = r.dialBroker(srv.Addr)
	} else {
		c, err := kafka.Connect(srv.Addr)
		if err != nil {
			r.Violation("connecting failed", "%v", err)
		}
		s.conn = c
	}
	sizes := []int{0, 0, 1, 100, 4060, 4096, 5000, 20_000, 70_000}
	if mode == "burst" {
		sizes = []int{0, 0, 0, 0, 3}
	}
	pad := func(rng *rand.Rand) int {
		n := sizes[rng.IntN(len(sizes))]
		if n >= 20_000 && rng.IntN(3) > 0 {
			n = 0
		}
		if rng.IntN(200) == 0 {
			n = 2_500_000
		}
		return n
	}
	one := func(rng *rand.Rand) bool {
		err := s.call(pad(rng), rng.IntN(10) < share)
		if err != nil && cut < 0 {
			r.Violation("a call failed on a healthy connection", "%s: %v", s.desc, err)
		}
		r.Count("calls", 1)
		return err == nil
	}
	var wg sync.WaitGroup
	total := 20 + rng.IntN(120)
	if mode == "burst" {
		total = 1500
	}
	turn := make([]chan int, callers)
	for g := range turn {
		turn[g] = make(chan int, 1)
	}
	for g := 0; g < callers; g++ {
		grng := rand.New(rand.NewPCG(rng.Uint64(), uint64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			if mode != "handed on" {
				for i := 0; i < total/callers+1; i++ {
					if !one(grng) && grng.IntN(3) == 0 {
						return
					}
				}
				return
			}
			// whoever holds the turn calls, and hands it on when the call has returned
			for n := range turn[g] {
				if n < total {
					one(grng)
					turn[(g+1+grng.IntN(callers))%callers] <- n + 1
					continue
				}
				for _, c := range turn {
					close(c)
				}
				return
			}
		}()
	}
	if mode == "handed on" {
		turn[0] <- 0
	}
	r.awaitAll(&wg, "a call never returned", func() string { return s.desc })
	if cut < 0 {
		if !eventually(func() bool { s.mu.Lock(); defer s.mu.Unlock(); return len(s.recv) >= len(s.calls) }) {
			s.judge(true)
		}
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		if s.broker != nil {
			s.broker.Close()
		} else {
			s.conn.Close()
		}
	}()
	r.await(done, "closing never returned", func() string { return s.desc })
	srv.stop()
	s.judge(cut < 0)
	r.Count("connections: "+mode, 1)
	return s.desc
}

// behindIt: a request arrives although another call, which waited to write meanwhile,
// is stuck in its encode function afterwards.
func (r *Run) behindIt(rng *rand.Rand) string {
	srv := newServer("127.0.0.1")
	arrived := make(chan struct{})
	srv.raw = func(c *SConn) {
		for {
			f, err := c.readFrame()
			if err != nil {
				return
			}
			if f.Key == 41 {
				close(arrived)
			}
		}
	}
	srv.start()
	conn, err := kafka.Connect(srv.Addr)
	if err != nil {
		r.Violation("connecting failed", "%v", err)
	}
	frame := func(key int16, pad int, inEncode func()) kafka.EncodeFunc {
		return func(e *message.Encoder, corr int32) {
			inEncode()
			e.PutInt32(int32(10 + len(clientID) + pad))
			e.PutInt16(key)
			e.PutInt16(0)
			e.PutInt32(corr)
			e.PutString(clientID)
			for i := 0; i < pad; i++ {
				e.PutInt8(1)
			}
		}
	}
	in, gate, release, returned := make(chan struct{}), make(chan struct{}), make(chan struct{}), make(chan struct{})
	pad, others := []int{0, 1, 4060, 5000}[rng.IntN(4)], 1+rng.IntN(4)
	desc := fmt.Sprintf("a request of %d bytes, %d calls behind it in their encode functions", pad, others)
	var aErr error
	go func() {
		defer close(returned)
		aErr = conn.Send(frame(41, pad, func() { close(in); <-gate }))
	}()
	<-in
	var wg sync.WaitGroup
	for i := 0; i < others; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if i%2 == 0 {
				conn.Send(frame(42, 0, func() { <-release }))
			} else {
				conn.Do(frame(42, 0, func() { <-release }), func(*message.Decoder) error { return nil })
			}
		}()
	}
	time.Sleep(time.Duration(rng.IntN(3000)) * time.Microsecond)
	close(gate)
	t := time.NewTimer(2 * time.Second)
	defer t.Stop()
	waits := false
	select {
	case <-returned:
	case <-t.C:
		waits = true
	}
	if waits {
		r.Count("sends_that_wait_for_others", 1) // not judged here
	} else if aErr != nil {
		r.Violation("a call failed on a healthy connection", "%s: %v", desc, aErr)
	} else {
		r.await(arrived, "a request whose call succeeded does not arrive before another call is finished", func() string { return desc })
	}
	close(release)
	done := make(chan struct{})
	go func() {
		defer close(done)
		conn.Close()
		wg.Wait()
	}()
	r.await(done, "closing never returned, or a call did not", func() string { return desc })
	<-returned
	srv.stop()
	r.Count("requests_with_others_behind_them", 1)
	return desc
}

// beforeFailure: a request arrives although the next call in line cannot be encoded.
func (r *Run) beforeFailure(rng *rand.Rand) string {
	srv := newServer("127.0.0.1")
	srv.ranges = pinned(func(a *API) int { return min(a.LibMax, 2) })
	read := make(chan struct{})
	arrived := make(chan struct{})
	ended := make(chan struct{})
	srv.raw = func(c *SConn) {
		defer close(ended)
		f, err := c.readFrame()
		if err != nil {
			return
		}
		c.write(responseFrame(f.Corr, versionsBody(srv.ranges, int(f.Ver))))
		<-read
		for {
			f, err := c.readFrame()
			if err != nil {
				return
			}
			switch f.Key {
			case 0:
				c.write(responseFrame(f.Corr, apiKeys[0].Resp.encode(reflect.ValueOf(&message.ProduceResponse{ThrottleTimeMs: 3}), int(f.Ver))))
				close(arrived)
			}
		}
	}
	srv.start()
	b := r.dialBroker(srv.Addr, smallBuffers())
	acks := int16(rng.IntN(2))
	pads := []int{12_000_000, 12_000_000, 12_003_000}[rng.IntN(3)]
	topic := strings.Repeat("x", rng.IntN(3000))
	desc := fmt.Sprintf("a request of %d bytes, acks %d, with a call behind it that cannot be encoded", pads, acks)
	var aErr error
	returned := make(chan struct{})
	go func() {
		defer close(returned)
		_, aErr = b.Produce(message.ProduceRequest{Acks: acks, Topics: []message.TopicProduceData0{
			{Name: "t", Partitions: []message.PartitionProduceData0{{Records: make([]byte, pads)}}}, {Name: topic}}})
	}()
	time.Sleep(time.Duration(2000+rng.IntN(4000)) * time.Microsecond)
	var wg sync.WaitGroup
	for i := 0; i < 1+rng.IntN(3); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b.Heartbeat(message.HeartbeatRequest{GroupId: strings.Repeat("g", 40_000)})
		}()
	}
	time.Sleep(time.Duration(rng.IntN(3000)) * time.Microsecond)
	close(read)
	r.await(returned, "a call never returned because of one behind it", func() string { return desc })
	if aErr == nil {
		done := make(chan struct{})
		go func() {
			defer close(done)
			select {
			case <-arrived:
			case <-ended:
			}
		}()
		r.await(done, "a request whose call succeeded does not arrive", func() string { return desc })
		select {
		case <-arrived:
		default:
			r.Violation("a request whose call succeeded does not arrive", "%s: the connection ended", desc)
		}
	} else {
		r.Count("calls_failed_by_one_behind_them", 1)
	}
	r.closeBroker(b)
	wg.Wait()
	srv.stop()
	r.Count("requests_before_one_that_fails", 1)
	return desc
}

func checkC25(r *Run) {
	requireBindings(r)
	r.rule = "calls with and without a response on one connection, from one or many goroutines that call freely or hand the turn on to each other, with requests below and above every buffer, slow brokers and connections cut at any point; every call's start and end and every arrival is recorded and judged afterwards; distinct by session parameters and order of arrival"
	for i := 0; i < r.N(220, 9000); i++ {
		rng := r.Rng("order", i)
		profile := perturb(rng)
		r.Doing("connection %d, perturbation %s", i, profile)
		info := r.orderRun(rng)
		r.Case(true, fp(info, profile, i))
		r.Sampled(func() any { return map[string]any{"session": info, "perturbation": profile} })
	}
	for i := 0; i < r.N(60, 2000); i++ {
		rng := r.Rng("behind", i)
		profile := perturb(rng)
		var info string
		if i%2 == 0 && r.counters["sends_that_wait_for_others"] < 4 {
			info = r.behindIt(rng)
		} else {
			calm() // megabytes
			info = r.beforeFailure(rng)
		}
		r.Case(true, fp(info, profile, i))
	}
	calm()
	for i := 0; i < r.N(20, 600); i++ {
		rng := r.Rng("identical", i)
		r.Doing("identical requests, perturbation %s", perturb(rng))
		r.identicalUnacked(rng)
	}
	calm()
	for i := 0; i < r.N(1, 6); i++ {
		r.Doing("frame sizes")
		r.sizeSweep(r.Rng("sizes", i), "send", r.N(8300, 70000))
	}
	r.yieldStats()
}
