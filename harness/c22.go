package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
	"weak"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C22"] = checkC22 }

type sentinel struct {
	self *sentinel // keeps it out of the tiny allocator
	data [64]byte
}

type retained struct {
	mu sync.Mutex
	m  map[string][]func() bool // reports whether still alive
}

func (t *retained) add(kind string, alive func() bool) {
	t.mu.Lock()
	t.m[kind] = append(t.m[kind], alive)
	t.mu.Unlock()
}

func watch[T any](t *retained, kind string, p *T) {
	w := weak.Make(p)
	t.add(kind, func() bool { return w.Value() != nil })
}

// alive collects garbage until the numbers no longer fall, or at most for a while.
func (t *retained) alive(limit int) map[string]int {
	var out map[string]int
	deadline := time.Now().Add(20 * time.Second)
	for round := 0; ; round++ {
		runtime.GC()
		out = map[string]int{}
		over := false
		for k, fs := range t.m {
			for _, f := range fs {
				if f() {
					out[k]++
				}
			}
			if out[k] > limit {
				over = true
			}
		}
		if !over && round >= 2 || time.Now().After(deadline) {
			return out
		}
		time.Sleep(time.Duration(round) * 5 * time.Millisecond)
	}
}

const retainLimit = 40

func (r *Run) judgeRetained(t *retained, where string) {
	got := t.alive(retainLimit)
	for k, fs := range t.m {
		n := len(fs)
		r.Count("watched_"+k, int64(n))
		r.Max("max_alive_"+k, int64(got[k]))
		if got[k] > retainLimit && got[k] > n/20 {
			r.Violation("finished calls are not let go", "%s: %d of %d objects (%s) are still reachable after every call has returned", where, got[k], n, k)
		}
	}
}

func liveHeap() int64 {
	var m runtime.MemStats
	best := int64(1) << 62
	for i := 0; i < 4; i++ {
		runtime.GC()
		runtime.ReadMemStats(&m)
		best = min(best, int64(m.HeapAlloc))
	}
	return best
}

func checkC22(r *Run) {
	requireBindings(r)
	r.rule = "connections used for many calls that end in every possible way (answered, undecodable, answered twice, sent without acknowledgement, failed by a close or a lost connection, refused afterwards); weak references watch every callback, request and response, and the live heap is compared before and after; distinct by phase and connection, all non-trivial"
	rounds := r.N(4, 60)
	for i := 0; i < rounds; i++ {
		r.Doing("retained callbacks, round %d", i)
		r.retainedCallbacks(i)
		r.Doing("retained values, round %d", i)
		r.retainedValues(i)
		r.Doing("retained connections, round %d", i)
		r.retainedConnections(i)
	}
	for i := 0; i < r.N(2, 20); i++ {
		r.Doing("retained strings, round %d", i)
		r.retainedStrings(i)
		r.Doing("retained calls that cannot be written, round %d", i)
		r.retainedUnwritable(i)
	}
	r.Doing("memory held by responses")
	for i := 0; i < r.N(2, 20); i++ {
		r.keptResponses(i)
	}
	r.Doing("live heap of a long connection")
	r.heapGrowth(r.N(150_000, 3_000_000))
}

// retainedCallbacks watches what the callbacks given to Do and Send refer to.
func (r *Run) retainedCallbacks(round int) {
	rng := r.Rng("callbacks", round)
	t := &retained{m: map[string][]func() bool{}}
	srv := newServer("127.0.0.1")
	var n atomic.Int64
	hold := make(chan struct{})
	srv.handle = func(c *SConn, f *Frame) {
		k := n.Add(1)
		body := []byte("response body")
		switch f.Ver {
		case 1: // made with Send
			return
		case 2: // the connection ends before it is answered
			select {
			case <-hold:
			default:
			}
			return
		}
		out := responseFrame(f.Corr, body)
		if k%5 == 0 {
			out = append(out, out...)
		}
		if k%7 == 0 {
			out = append(out, responseFrame(f.Corr+3_000_000, body)...)
		}
		c.write(out)
	}
	srv.start()
	conn := r.connect(srv.Addr)
	call := func(conn *kafka.Conn, kind string, ver int16, send bool, bad bool) error {
		s := &sentinel{}
		s.self = s
		watch(t, kind, s)
		e := func(e *message.Encoder, corr int32) {
			s.data[0]++
			e.PutInt32(10 + 2)
			e.PutInt16(12)
			e.PutInt16(ver)
			e.PutInt32(corr)
			e.PutString("cc")
		}
		if send {
			return conn.Send(e)
		}
		return conn.Do(e, func(d *message.Decoder) error {
			s.data[1]++
			if bad {
				return fmt.Errorf("undecodable")
			}
			_, err := d.Int32()
			return err
		})
	}
	calls := 600 + rng.IntN(600)
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < calls/6; i++ {
				call(conn, "callbacks_of_answered_calls", 0, false, false)
				call(conn, "callbacks_of_undecodable_calls", 0, false, true)
				call(conn, "callbacks_of_sends", 1, true, false)
				r.progress.Add(1)
			}
		}()
	}
	r.awaitAll(&wg, "a call never returned although its response was sent", func() string { return "retained callbacks" })
	r.judgeRetained(t, "open connection")
	// calls in flight when the connection ends, and after
	peer := rng.IntN(2) == 0
	var inflight sync.WaitGroup
	for i := 0; i < 300; i++ {
		inflight.Add(1)
		go func() {
			defer inflight.Done()
			call(conn, "callbacks_of_calls_failed_by_a_lost_connection", 2, false, false)
		}()
	}
	time.Sleep(20 * time.Millisecond)
	if peer {
		for _, c := range srv.connections() {
			c.Conn.Close()
		}
	} else {
		wg.Add(1)
		go func() { defer wg.Done(); conn.Close() }()
	}
	r.awaitAll(&inflight, "a call never returned after the connection had ended", func() string { return "retained callbacks" })
	for i := 0; i < 300; i++ {
		call(conn, "callbacks_of_calls_after_the_end", 0, false, false)
		call(conn, "callbacks_of_sends_after_the_end", 1, true, false)
	}
	r.judgeRetained(t, "connection that has ended")
	wg.Add(1)
	go func() { defer wg.Done(); conn.Close() }()
	r.awaitAll(&wg, "closing never returned", func() string { return "retained callbacks" })
	close(hold)
	srv.stop()
	runtime.KeepAlive(conn)
	r.Count("calls", int64(calls*3+900))
	r.Case(true, fp("callbacks", round, peer, calls))
}

// retainedValues watches requests and responses of broker calls.
func (r *Run) retainedValues(round int) {
	t := &retained{m: map[string][]func() bool{}}
	const calls = 800
	const fv, pv = 4, 3
	srv := newServer("127.0.0.1")
	srv.ranges = pinned(func(a *API) int {
		switch a.Key {
		case 0:
			return pv
		case 1:
			return fv
		}
		return 0
	})
	records := make([]byte, 2048)
	records[0] = 7
	var fr message.FetchResponse
	fr.Topics = []message.FetchableTopicResponse1{{Name: "t", Partitions: []message.FetchablePartitionResponse1{{Records: records}}}}
	fetchBody := msgMap["FetchResponse"].encode(reflect.ValueOf(&fr), fv)
	var pr message.ProduceResponse
	produceBody := msgMap["ProduceResponse"].encode(reflect.ValueOf(&pr), pv)
	srv.handle = func(c *SConn, f *Frame) {
		switch f.Key {
		case 1:
			c.write(responseFrame(f.Corr, fetchBody))
		case 0:
			c.write(responseFrame(f.Corr, produceBody))
		}
	}
	srv.start()
	b := r.dialBroker(srv.Addr)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < calls/4; i++ {
				resp, err := b.Fetch(message.FetchRequest{})
				if err != nil || len(resp.Topics) != 1 || len(resp.Topics[0].Partitions) != 1 || len(resp.Topics[0].Partitions[0].Records) != len(records) {
					r.Violation("a call did not return the response that was sent", "Fetch v%d: %v %s", fv, err, short(resp))
				}
				watch(t, "response_payloads", &resp.Topics[0].Partitions[0].Records[0])
				data := make([]byte, 1024)
				watch(t, "request_payloads", &data[0])
				req := message.ProduceRequest{Acks: -1}
				req.Topics = []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{Records: data}}}}
				if _, err := b.Produce(req); err != nil {
					r.Violation("a call failed although its response was sent", "Produce v%d: %v", pv, err)
				}
				r.progress.Add(1)
			}
		}()
	}
	r.awaitAll(&wg, "a call never returned although its response was sent", func() string { return "retained values" })
	r.judgeRetained(t, "open broker")
	r.closeBroker(b)
	srv.stop()
	runtime.KeepAlive(b)
	r.Count("calls", 2*calls)
	r.Case(true, fp("values", round))
}

// retainedConnections watches brokers and connections after they have been closed
// and dropped, and what failed attempts to connect leave behind.
func (r *Run) retainedConnections(round int) {
	rng := r.Rng("connections", round)
	t := &retained{m: map[string][]func() bool{}}
	srv := newServer("127.0.0.1")
	srv.start()
	refuse := newServer("127.0.0.1")
	refuse.versions = func(c *SConn, f *Frame) {
		// no version in common
		c.write(responseFrame(f.Corr, versionsBody([]apiRange{{3, 900, 901}}, int(f.Ver))))
	}
	refuse.start()
	before := liveHeap()
	const conns = 60
	for i := 0; i < conns; i++ {
		if rng.IntN(2) == 0 {
			b := r.dialBroker(srv.Addr)
			watch(t, "brokers", b)
			if rng.IntN(3) > 0 {
				for _, c := range srv.connections() {
					c.Conn.Close()
				}
				if rng.IntN(3) > 0 { // the loss has been noticed
					soon(func() bool { _, err := b.Heartbeat(message.HeartbeatRequest{}); return err != nil })
					r.Count("lost_before_closed", 1)
				}
			}
			r.closeBroker(b)
		} else {
			c := r.connect(srv.Addr)
			watch(t, "connections", c)
			if rng.IntN(3) > 0 {
				for _, c := range srv.connections() {
					c.reset()
				}
				if rng.IntN(3) > 0 {
					soon(func() bool {
						return c.Send(func(*message.Encoder, int32) {}) != nil
					})
					r.Count("lost_before_closed", 1)
				}
			}
			done := make(chan struct{})
			go func() { defer close(done); c.Close() }()
			r.await(done, "closing never returned", func() string { return "" })
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			if b, err := kafka.NewBroker(refuse.Addr); err == nil {
				b.Close() // another property's business
			}
		}()
		r.await(done, "connecting to a broker without a common version never returned", func() string { return "" })
	}
	got := t.alive(2)
	for k, fs := range t.m {
		r.Count("watched_"+k, int64(len(fs)))
		r.Max("max_alive_"+k, int64(got[k]))
		if got[k] > 2 {
			r.Violation("closed connections are not let go", "%d of %d closed %s are still reachable", got[k], len(fs), k)
		}
	}
	srv.stop()
	refuse.stop()
	// each connection owns megabytes of buffers
	grown := liveHeap() - before
	for i := 0; i < 40 && grown > 40<<20; i++ {
		time.Sleep(50 * time.Millisecond)
		grown = liveHeap() - before
	}
	r.Max("max_heap_left_by_closed_connections", grown)
	if grown > 40<<20 {
		r.Violation("closed connections are not let go", "%d bytes more in use after %d connections were closed and %d failed to negotiate", grown, conns, conns)
	}
	r.Case(true, fp("connections", round))
}

// heapGrowth compares the live heap of one connection before and after many calls.
func (r *Run) heapGrowth(calls int) {
	defer debug.SetGCPercent(debug.SetGCPercent(100))
	srv := newServer("127.0.0.1")
	srv.ranges = pinned(func(a *API) int { return 0 })
	srv.handle = func(c *SConn, f *Frame) {
		out := responseFrame(f.Corr, []byte{0, 0})
		if f.Corr%11 == 0 {
			out = append(out, responseFrame(f.Corr, []byte{0, 1})...)
		}
		if f.Corr%13 == 0 {
			out = append(out, responseFrame(-f.Corr, []byte{0, 1})...)
		}
		if f.Corr%17 == 0 {
			out = responseFrame(f.Corr, []byte{0})
		}
		c.write(out)
	}
	srv.start()
	b := r.dialBroker(srv.Addr)
	do := func(n int) {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n/8; i++ {
					b.Heartbeat(message.HeartbeatRequest{GroupId: "g", GenerationId: int32(i), MemberId: "m"})
					r.progress.Add(1)
				}
			}()
		}
		r.awaitAll(&wg, "a call never returned although its response was sent", func() string { return "heap growth" })
	}
	do(4000)
	before := liveHeap()
	do(calls)
	after := liveHeap()
	limit := int64(calls)*4 + 1<<18
	r.Count("calls", int64(calls))
	r.Max("heap_growth_bytes_over_all_calls", after-before)
	if after-before > limit {
		r.Violation("memory grows with the number of calls", "%d bytes more in use after %d calls that have all returned (limit %d)", after-before, calls, limit)
	}
	r.closeBroker(b)
	srv.stop()
	r.Case(true, fp("heap", calls))
}

// keptResponses: a caller keeps many responses; what they hold on to is in proportion
// to their own size, whatever other traffic there was.
func (r *Run) keptResponses(round int) {
	rng := r.Rng("kept", round)
	const fv = 4
	srv := newServer("127.0.0.1")
	srv.ranges = pinned(func(a *API) int { return min(a.LibMax, fv) })
	size := 100 + rng.IntN(400)
	mk := func(n int) []byte {
		var fr message.FetchResponse
		fr.Topics = []message.FetchableTopicResponse1{{Name: "t", Partitions: []message.FetchablePartitionResponse1{{Records: make([]byte, n)}}}}
		return msgMap["FetchResponse"].encode(reflect.ValueOf(&fr), fv)
	}
	small, large := mk(size), mk(200_000)
	srv.handle = func(c *SConn, f *Frame) {
		// the caller says in the replica id which one it wants
		body := small
		if len(f.Body) >= 4 && f.Body[3] == 9 {
			body = large
		}
		c.write(responseFrame(f.Corr, body))
	}
	srv.start()
	b := r.dialBroker(srv.Addr)
	const keep = 1500
	kept := make([][]byte, keep)
	do := func(replica int32) []byte {
		resp, err := b.Fetch(message.FetchRequest{ReplicaId: replica})
		if err != nil || len(resp.Topics) != 1 || len(resp.Topics[0].Partitions) != 1 {
			r.Violation("a call did not return the response that was sent", "Fetch v%d: %v %s", fv, err, short(resp))
		}
		r.progress.Add(1)
		return resp.Topics[0].Partitions[0].Records
	}
	var before, after int64
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 20; i++ {
			do(1)
			do(9)
		}
		before = liveHeap()
		for i := range kept {
			kept[i] = do(1)
			if i%10 == 0 {
				do(9) // not kept
			}
		}
		after = liveHeap()
	}()
	r.await(done, "a call never returned although its response was sent", func() string { return "kept responses" })
	limit := int64(keep)*(4*int64(size)+4096) + 1<<20
	r.Max("bytes_held_per_kept_response", (after-before)/keep)
	if after-before > limit {
		r.Violation("responses hold on to memory out of proportion to their size", "%d kept responses of %d bytes hold %d bytes (limit %d)", keep, size, after-before, limit)
	}
	runtime.KeepAlive(kept)
	r.closeBroker(b)
	srv.stop()
	r.Count("kept_responses", keep)
	r.Case(true, fp("kept", round, size))
}

// longString is a string of its own that no other call has.
func longString(kind string, n int) string {
	return strings.Clone(fmt.Sprintf("%s-%09d-%s", kind, n, "abcdefghijklmnopqrstuvwxyz0123456789"))
}

func (t *retained) str(kind, s string) {
	if len(s) > 30 {
		watch(t, kind, unsafe.StringData(s))
	}
}

// retainedStrings: every name given and every name received is different.
func (r *Run) retainedStrings(round int) {
	t := &retained{m: map[string][]func() bool{}}
	srv := newServer("127.0.0.1")
	srv.ranges = pinned(func(a *API) int {
		switch a.Key {
		case 3:
			return 1
		}
		return 0
	})
	var n atomic.Int64
	srv.handle = func(c *SConn, f *Frame) {
		k := int(n.Add(1))
		var body []byte
		switch f.Key {
		case 3:
			m := message.MetadataResponse{Brokers: []message.MetadataResponseBroker3{{NodeId: 7, Host: srv.Host, Port: srv.Port, Rack: longString("rack", k)}}, ControllerId: 7}
			topics := requestTopics(f.Body)
			if len(topics) == 0 {
				topics = []string{longString("served", k)}
			}
			for _, name := range topics {
				m.Topics = append(m.Topics, message.MetadataResponseTopic3{Name: name, Partitions: []message.MetadataResponsePartition3{{LeaderId: 7, PartitionIndex: 0}}})
			}
			body = apiKeys[3].Resp.encode(reflect.ValueOf(&m), int(f.Ver))
		case 10:
			host := longString("host", k)
			if len(f.Body) > 2 && f.Body[2] == 'g' {
				host = srv.Host
			}
			body = apiKeys[10].Resp.encode(reflect.ValueOf(&message.FindCoordinatorResponse{NodeId: 7, Host: host, Port: srv.Port}), int(f.Ver))
		case 11:
			m := message.JoinGroupResponse{ProtocolName: longString("protocol", k), Leader: longString("leader", k), MemberId: longString("member", k), GenerationId: int32(k)}
			m.Members = append(m.Members, message.JoinGroupResponseMember11{MemberId: longString("other", k)})
			body = apiKeys[11].Resp.encode(reflect.ValueOf(&m), int(f.Ver))
		}
		c.write(responseFrame(f.Corr, body))
	}
	srv.start()
	b := r.dialBroker(srv.Addr)
	client := kafka.NewClient([]string{srv.Addr})
	ctx := context.Background()
	var wg sync.WaitGroup
	fail := func(what string, err error) {
		if err != nil {
			r.Violation("a call failed although its response was sent", "%s: %v", what, err)
		}
	}
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 150; i++ {
				k := (round*4+g)*1000 + i
				name := longString("x-key", k)
				t.str("names_given_to_calls", name)
				c, err := b.FindCoordinator(message.FindCoordinatorRequest{Key: name})
				fail("FindCoordinator", err)
				t.str("strings_in_responses", c.Host)
				jg, mem := longString("joined", k), longString("me", k)
				t.str("names_given_to_calls", jg)
				t.str("names_given_to_calls", mem)
				j, err := b.JoinGroup(message.JoinGroupRequest{GroupId: jg, MemberId: mem})
				fail("JoinGroup", err)
				t.str("strings_in_responses", j.MemberId)
				t.str("strings_in_responses", j.Leader)
				t.str("strings_in_responses", j.ProtocolName)
				if len(j.Members) > 0 {
					t.str("strings_in_responses", j.Members[0].MemberId)
				}
				if i%3 == 0 {
					topic := longString("topic", k)
					t.str("names_given_to_clients", topic)
					m, err := client.Metadata(ctx, topic)
					fail("Metadata", err)
					for _, x := range m.Topics {
						t.str("strings_in_responses", x.Name)
					}
					for _, x := range m.Brokers {
						t.str("strings_in_responses", x.Rack)
					}
					topic = longString("led", k)
					t.str("names_given_to_clients", topic)
					lb, err := client.DialLeader(ctx, topic, 0)
					fail("DialLeader", err)
					lb.Close()
					group := longString("group", k)
					t.str("names_given_to_clients", group)
					gb, err := client.DialGroupCoordinator(ctx, group)
					fail("DialGroupCoordinator", err)
					gb.Close()
				}
				r.progress.Add(1)
			}
		}()
	}
	r.awaitAll(&wg, "a call never returned although its response was sent", func() string { return "retained strings" })
	r.judgeRetained(t, "open broker and client")
	runtime.KeepAlive(client)
	r.closeBroker(b)
	srv.stop()
	r.Case(true, fp("strings", round))
}

// requestTopics reads the topics of a Metadata request of versions 0 and 1.
func requestTopics(b []byte) (out []string) {
	if len(b) < 4 {
		return nil
	}
	n := int(int32(binary.BigEndian.Uint32(b)))
	b = b[4:]
	for i := 0; i < n && len(b) >= 2; i++ {
		l := int(binary.BigEndian.Uint16(b))
		if len(b) < 2+l {
			return
		}
		out = append(out, string(b[2:2+l]))
		b = b[2+l:]
	}
	return
}

// retainedUnwritable: calls are outstanding, and from some moment on nothing can be
// written any more; what fails for that reason is let go all the same.
func (r *Run) retainedUnwritable(round int) {
	rng := r.Rng("unwritable", round)
	t := &retained{m: map[string][]func() bool{}}
	srv := newServer("127.0.0.1")
	srv.handle = func(c *SConn, f *Frame) {} // answers nothing
	srv.start()
	conn := r.connect(srv.Addr)
	outstanding := 1 + (round+rng.IntN(2))%3
	var held sync.WaitGroup
	for i := 0; i < outstanding; i++ {
		held.Add(1)
		go func() {
			defer held.Done()
			conn.Do(func(e *message.Encoder, corr int32) {
				e.PutInt32(10)
				e.PutInt16(12)
				e.PutInt16(0)
				e.PutInt32(corr)
				e.PutString("")
			}, func(*message.Decoder) error { return nil })
		}()
	}
	time.Sleep(10 * time.Millisecond)
	tooLong := strings.Repeat("x", 40_000)
	done := make(chan struct{})
	var calls, failed int
	go func() {
		defer close(done)
		for i := 0; i < 1500; i++ {
			s := &sentinel{}
			s.self = s
			watch(t, "callbacks_of_calls_that_cannot_be_written", s)
			err := conn.Do(func(e *message.Encoder, corr int32) {
				s.data[0]++
				e.PutInt32(10 + 40_000)
				e.PutInt16(12)
				e.PutInt16(0)
				e.PutInt32(corr)
				e.PutString(tooLong)
			}, func(*message.Decoder) error { s.data[1]++; return nil })
			calls++
			if err != nil {
				failed++
			}
			s2 := &sentinel{}
			s2.self = s2
			watch(t, "callbacks_of_sends_that_cannot_be_written", s2)
			conn.Send(func(e *message.Encoder, corr int32) { s2.data[0]++; e.PutString(tooLong) })
			r.progress.Add(1)
		}
	}()
	r.await(done, "a call that cannot be written never returned", func() string { return "retained calls that cannot be written" })
	r.judgeRetained(t, fmt.Sprintf("connection with %d calls outstanding on which nothing can be written", outstanding))
	r.Count("calls_that_could_not_be_written", int64(failed))
	closed := make(chan struct{})
	go func() { defer close(closed); conn.Close() }()
	r.await(closed, "closing never returned", func() string { return "retained calls that cannot be written" })
	r.awaitAll(&held, "a call never returned after the connection had ended", func() string { return "retained calls that cannot be written" })
	srv.stop()
	runtime.KeepAlive(conn)
	r.Case(true, fp("unwritable", round, outstanding, calls))
}
