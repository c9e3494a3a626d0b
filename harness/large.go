package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"reflect"
	"runtime/debug"
	"slices"
	"sync"
	"time"

	"github.com/savaki/kafka/message"
)

func init() {
	checks["C10L"] = checkC10L
	checks["C12L"] = checkC12L
	checks["C09L"] = checkManyOutstanding
	checks["C24L"] = checkManyOutstanding
}

// largeSizes are sizes of records from beyond all buffers to what a length prefix allows;
// overhead is what the payload around them takes.
func (r *Run) largeSizes(overhead int) []int {
	sizes := []int{17_000_000, 40_000_000, 130_000_000, 300_000_000, 550_000_000, 1_100_000_000}
	budget := 8_000_000_000
	if r.Thorough() {
		sizes = append(sizes, 70_000_000, 700_000_000, 1_700_000_000, 2_147_000_000)
		budget *= 5
	}
	for _, n := range largeLiterals(6_000_001, 1_200_000_000) {
		for _, o := range []int{0, overhead, overhead + 4, overhead + 8} {
			sizes = append(sizes, n-o-1, n-o, n-o+1)
		}
	}
	slices.Sort(sizes)
	sizes = slices.Compact(sizes)
	total := 0
	for i, n := range sizes { // as much as there is time for
		if total += n; total > budget {
			r.assume = append(r.assume, fmt.Sprintf("%d sizes were left out", len(sizes)-i))
			return sizes[:i]
		}
	}
	return sizes
}

// pattern fills b with the pattern of a position in a stream.
func pattern(b []byte, at int) {
	for len(b) > 0 {
		i := at % len(respPattern)
		n := copy(b, respPattern[i:])
		// every stretch of the length of the pattern is marked with its position
		if i < 8 {
			for k := i; k < 8 && k-i < n; k++ {
				b[k-i] = byte(uint64(at/len(respPattern)) >> (8 * (7 - k)))
			}
		}
		b, at = b[n:], at+n
	}
}

// differs compares with the pattern.
func differs(b []byte, at int) int {
	want := make([]byte, 1<<20)
	for off := 0; off < len(b); {
		n := min(len(want), len(b)-off)
		pattern(want[:n], at+off)
		if !bytes.Equal(want[:n], b[off:off+n]) {
			return off + firstDiff(want[:n], b[off:off+n])
		}
		off += n
	}
	return -1
}

// writePattern writes n bytes of the pattern in large pieces.
func writePattern(w io.Writer, n int) error {
	buf := make([]byte, 1<<20)
	for at := 0; at < n; {
		k := min(len(buf), n-at)
		pattern(buf[:k], at)
		if _, err := w.Write(buf[:k]); err != nil {
			return err
		}
		at += k
	}
	return nil
}

// around splits an encoding at a byte field of which only the length is replaced.
func around(body []byte, marker []byte, n int) (head, tail []byte) {
	i := bytes.Index(body, marker)
	head = append([]byte{}, body[:i]...)
	binary.BigEndian.PutUint32(head[i-4:], uint32(n))
	return head, body[i+len(marker):]
}

// finish waits for something that no harness goroutine can be expected to move.
func (r *Run) finish(what, detail string, fn func()) {
	done := make(chan struct{})
	go func() { defer close(done); fn() }()
	t := time.NewTimer(20 * time.Second)
	defer t.Stop()
	select { // a dump of all goroutines is dear
	case <-done:
	case <-t.C:
		r.await(done, what, func() string { return detail })
	}
}

// checkC12L: responses larger than most brokers send.
func checkC12L(r *Run) {
	requireBindings(r)
	r.rule = "responses of 17 MB to 1.1 GB (thorough: 2.1 GB) and around every larger size in the library's source, and of up to millions of elements"
	marker := []byte("marker of the records")
	a := apiKeys[1]
	body := a.Resp.encode(largeFetch(marker), a.LibMax)
	srv := newServer("127.0.0.1")
	var size int // of the next response; one caller
	srv.handle = func(c *SConn, f *Frame) {
		if f.Key != 1 {
			c.write(responseFrame(f.Corr, []byte{0, 0, 0, 0, 0, 0}))
			return
		}
		head, tail := around(body, marker, size)
		h := binary.BigEndian.AppendUint32(nil, uint32(4+len(head)+size+len(tail)))
		h = binary.BigEndian.AppendUint32(h, uint32(f.Corr))
		c.wmu.Lock()
		defer c.wmu.Unlock()
		for _, step := range []func() error{
			func() error { _, err := c.Conn.Write(append(h, head...)); return err },
			func() error { return writePattern(c.Conn, size) },
			func() error { _, err := c.Conn.Write(tail); return err },
		} {
			if step() != nil {
				return // the client's affair
			}
		}
	}
	srv.start()
	b := r.dialBroker(srv.Addr)
	r.responseSizes(r.Rng("response sizes"))
	var kept message.FetchResponse
	keptSize := -1
	judge := func(resp message.FetchResponse, size int, when string) {
		if len(resp.Topics) != 1 || len(resp.Topics[0].Partitions) != 2 || string(resp.Topics[0].Partitions[1].Records) != "tail" || resp.Topics[0].Partitions[1].PartitionIndex != 2 {
			r.Violation("a response did not arrive complete and unaltered", "records of %d bytes, %s: what surrounds them differs", size, when)
		}
		rec := resp.Topics[0].Partitions[0].Records
		if len(rec) != size {
			r.Violation("a response did not arrive complete and unaltered", "%d bytes of records instead of %d, %s", len(rec), size, when)
		}
		if i := differs(rec, 0); i >= 0 {
			r.Violation("a response did not arrive complete and unaltered", "records of %d bytes differ at byte %d, %s", size, i, when)
		}
	}
	for _, n := range r.largeSizes(len(body) - len(marker)) {
		size = n
		r.Doing("response with %d bytes of records", size)
		var resp message.FetchResponse
		var err error
		r.finish("a call with a large response never returned", fmt.Sprint(size), func() { resp, err = b.Fetch(message.FetchRequest{}) })
		if err != nil {
			r.Violation("a call failed although its response was sent", "%d bytes of records: %v", size, err)
		}
		judge(resp, size, "when returned")
		if keptSize >= 0 && keptSize < 200_000_000 {
			judge(kept, keptSize, "after another large response")
		}
		kept, keptSize = resp, size
		if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
			r.Violation("a call failed after a large response", "%d bytes: %v", size, err)
		}
		r.Case(true, fp("large", size))
		r.Count("response_bytes", int64(size))
		r.Count("large_responses", 1)
		r.Max("largest_response", int64(size))
		r.Sampled(func() any { return map[string]any{"records_bytes": size} })
	}
	kept = message.FetchResponse{}
	r.closeBroker(b)
	srv.stop()
	debug.FreeOSMemory()

	// many elements: of a struct and of a number
	counts := []int{1_200_000, 3_000_000}
	if r.Thorough() {
		counts = append(counts, 17_000_000, 30_000_000)
	}
	for _, n := range largeLiterals(200_001, 10_000_000) {
		counts = append(counts, n, n+1)
	}
	srv = newServer("127.0.0.1")
	meta := int(apiKeys[3].LibMax)
	var frame []byte
	srv.handle = func(c *SConn, f *Frame) { c.write(responseFrame(f.Corr, frame)) }
	srv.start()
	b = r.dialBroker(srv.Addr)
	for _, n := range counts {
		r.Doing("responses of %d elements", n)
		if n <= 4_000_000 {
			want := message.DeleteRecordsResponse{Topics: []message.DeleteRecordsTopicResult21{{Name: "t", Partitions: make([]message.DeleteRecordsPartitionResult21, n)}, {Name: "u"}}}
			p := want.Topics[0].Partitions
			for i := range p {
				p[i] = message.DeleteRecordsPartitionResult21{PartitionIndex: int32(i), LowWatermark: int64(i) * 7, ErrorCode: int16(i)}
			}
			frame = apiKeys[21].Resp.encode(reflect.ValueOf(&want), apiKeys[21].LibMax)
			var got message.DeleteRecordsResponse
			var err error
			r.finish("a call with a large response never returned", fmt.Sprint(n, " elements"), func() { got, err = b.DeleteRecords(message.DeleteRecordsRequest{}) })
			if err != nil {
				r.Violation("a call failed although its response was sent", "%d elements: %v", n, err)
			}
			if len(got.Topics) != 2 || got.Topics[1].Name != "u" || !slices.Equal(got.Topics[0].Partitions, p) {
				r.Violation("a response did not arrive complete and unaltered", "%d elements", n)
			}
			r.Case(true, fp("structs", n))
		}
		nodes := make([]int32, n)
		for i := range nodes {
			nodes[i] = int32(i) * 3
		}
		want := message.MetadataResponse{ControllerId: 5, Topics: []message.MetadataResponseTopic3{{Name: "t", Partitions: []message.MetadataResponsePartition3{{PartitionIndex: 9, ReplicaNodes: nodes, IsrNodes: []int32{1, 2}}}}}}
		frame = apiKeys[3].Resp.encode(reflect.ValueOf(&want), meta)
		var got message.MetadataResponse
		var err error
		r.finish("a call with a large response never returned", fmt.Sprint(n, " elements"), func() { got, err = b.Metadata(message.MetadataRequest{}) })
		if err != nil {
			r.Violation("a call failed although its response was sent", "%d numbers: %v", n, err)
		}
		if len(got.Topics) != 1 || len(got.Topics[0].Partitions) != 1 || !slices.Equal(got.Topics[0].Partitions[0].ReplicaNodes, nodes) || !slices.Equal(got.Topics[0].Partitions[0].IsrNodes, []int32{1, 2}) {
			r.Violation("a response did not arrive complete and unaltered", "%d numbers", n)
		}
		r.Case(true, fp("numbers", n))
		r.Max("most_elements", int64(n))
	}
	r.closeBroker(b)
	srv.stop()
}

// checkC10L: requests larger than most brokers accept.
func checkC10L(r *Run) {
	requireBindings(r)
	r.rule = "requests of 17 MB to 1.1 GB (thorough: 2.1 GB) and around every larger size in the library's source, read piece by piece at the broker"
	marker := []byte("marker of the records")
	request := func(rec []byte) *message.ProduceRequest {
		return &message.ProduceRequest{Acks: 1, TimeoutMs: 12345, Topics: []message.TopicProduceData0{{Name: "topic", Partitions: []message.PartitionProduceData0{{PartitionIndex: 3, Records: rec}, {PartitionIndex: 4, Records: []byte("tail")}}}}}
	}
	a := apiKeys[0]
	srv := newServer("127.0.0.1")
	body := a.Req.encode(reflect.ValueOf(request(marker)), a.LibMax)
	answer := a.Resp.encode(reflect.ValueOf(&message.ProduceResponse{ThrottleTimeMs: 77}), a.LibMax)
	for i := 0; i < r.N(1, 4); i++ {
		r.Doing("frame sizes")
		r.sizeSweep(r.Rng("sizes", i), "do", r.N(33_000, 150_000))
	}
	want := make(chan int, 1)
	srv.raw = func(c *SConn) {
		f, err := c.readFrame()
		if err != nil {
			return
		}
		last := f.Corr
		c.write(responseFrame(f.Corr, versionsBody(srv.ranges, int(f.Ver))))
		buf := make([]byte, 1<<20)
		for n := range want {
			head, tail := around(body, marker, n)
			total := 10 + len(clientID) + len(head) + n + len(tail)
			var h [4]byte
			if _, err := io.ReadFull(c.Conn, h[:]); err != nil {
				r.Violation("a large request was not written", "records of %d bytes: %v", n, err)
			}
			if got := int32(binary.BigEndian.Uint32(h[:])); int(got) != total {
				r.Violation("a request has a wrong length prefix", "records of %d bytes: %d instead of %d", n, got, total)
			}
			pre := make([]byte, total-n-len(tail))
			if _, err := io.ReadFull(c.Conn, pre); err != nil {
				r.Violation("a large request was not written", "records of %d bytes: %v", n, err)
			}
			q, err := parseFrame(pre)
			if err != nil || q.Key != 0 || int(q.Ver) != a.LibMax || q.ClientID != clientID || q.Corr == last || !bytes.Equal(q.Body, head) {
				r.Violation("the header or the beginning of a large request is wrong", "records of %d bytes: %s, %v", n, hx(pre), err)
			}
			last = q.Corr
			for at := 0; at < n; {
				k := min(len(buf), n-at)
				if m, err := io.ReadFull(c.Conn, buf[:k]); err != nil {
					r.Violation("a large request was not written", "records of %d bytes: ended after %d: %v", n, at+m, err)
				}
				if i := differs(buf[:k], at); i >= 0 {
					r.Violation("the request body does not encode the caller's request", "records of %d bytes differ at byte %d", n, at+i)
				}
				at += k
			}
			end := make([]byte, len(tail))
			if _, err := io.ReadFull(c.Conn, end); err != nil || !bytes.Equal(end, tail) {
				r.Violation("the end of a large request is wrong", "records of %d bytes: %s, %v", n, hx(end), err)
			}
			c.write(responseFrame(q.Corr, answer))
		}
	}
	srv.start()
	b := r.dialBroker(srv.Addr)
	for _, n := range r.largeSizes(10 + len(clientID) + len(body) - len(marker)) {
		r.Doing("request with %d bytes of records", n)
		rec := make([]byte, n)
		pattern(rec, 0)
		want <- n
		var resp message.ProduceResponse
		var err error
		r.finish("a call with a large request never returned", fmt.Sprint(n), func() { resp, err = b.Produce(*request(rec)) })
		if err != nil {
			r.Violation("a call failed although its response was sent", "records of %d bytes: %v", n, err)
		}
		if resp.ThrottleTimeMs != 77 {
			r.Violation("the response was not returned unchanged", "records of %d bytes: %+v", n, resp)
		}
		if i := differs(rec, 0); i >= 0 {
			r.Violation("a call changed the caller's request", "records of %d bytes, at %d", n, i)
		}
		r.Case(true, fp("large", n))
		r.Count("request_bytes", int64(n))
		r.Max("largest_request", int64(n))
		r.Sampled(func() any { return map[string]any{"records_bytes": n} })
	}
	close(want)
	r.closeBroker(b)
	srv.stop()
}

// checkManyOutstanding: more calls outstanding at once than the race detector allows
// goroutines.
func checkManyOutstanding(r *Run) {
	requireBindings(r)
	r.rule = "tens of thousands of calls on one connection (thorough: 300,000) none of which is answered before all requests have arrived, answered in random order"
	counts := []int{9_000, 70_000}
	if r.Thorough() {
		counts = append(counts, 140_000, 300_000)
	}
	for _, n := range largeLiterals(1000, 200_000) {
		if len(counts) < 10 {
			counts = append(counts, n+1)
		}
	}
	for i, n := range counts {
		rng := r.Rng("outstanding", i)
		viaBroker := i%2 == 0
		d := r.openDuplex(rng, viaBroker, false)
		d.desc = fmt.Sprintf("%d calls, none answered before all have arrived, through a broker: %v", n, viaBroker)
		r.Doing("%s", d.desc)
		var wg sync.WaitGroup
		d.spawn(&wg, n, 0, nil, nil)
		var fs []*Frame
		r.finish("a request was not written while other calls were unanswered", d.desc, func() {
			ids := map[int32]bool{}
			for len(fs) < n {
				f := d.frame()
				if ids[f.Corr] {
					r.Violation("a correlation id is used by two outstanding calls", "%s: %d", d.desc, f.Corr)
				}
				ids[f.Corr] = true
				fs = append(fs, f)
			}
		})
		d.answer(fs, 0)
		r.finish("a call never returned although its response was sent", d.desc, wg.Wait)
		r.Max("most_calls_outstanding", int64(n))
		d.desc = "after that"
		d.outstanding(5)
		d.close()
		r.Case(true, fp("outstanding", n, viaBroker))
		r.Sampled(func() any { return map[string]any{"outstanding": n, "through_a_broker": viaBroker} })
	}
}

// earlyReplies: before each response come others, with ids of calls that are still to
// be made; those calls get their own responses all the same.
func (r *Run) earlyReplies(n int) {
	for si := 0; si < 4; si++ {
		rng := r.Rng("early", si)
		d := r.openDuplex(rng, si%2 == 0, false)
		d.desc = fmt.Sprintf("one call after the other, each response preceded by unsolicited ones with ids still to come, through a broker: %v", si%2 == 0)
		r.Doing("%s", d.desc)
		var swg sync.WaitGroup
		swg.Add(1)
		go func() {
			defer swg.Done()
			for i := 0; i < n; i++ {
				f := d.frame()
				real := d.response(f, 0)
				var out []byte
				for k := rng.IntN(4); k > 0; k-- {
					wrong := append([]byte{}, real...)
					ahead := 1 + rng.IntN(3)
					if rng.IntN(3) == 0 {
						ahead = []int{rng.IntN(50), 64, 100, 128, 256, 1000, 1024}[rng.IntN(7)] + 1
					}
					binary.BigEndian.PutUint32(wrong[4:], uint32(f.Corr+int32(ahead)))
					wrong[9+rng.IntN(2)] ^= byte(1 + rng.IntN(255)) // the high bytes of what identifies the call
					out = append(out, wrong...)
					r.Count("responses_before_their_request", 1)
				}
				if d.peer.write(append(out, real...)) != nil {
					return
				}
			}
		}()
		r.finish("a call never returned although its response was sent", d.desc, func() {
			for i := 0; i < n; i++ {
				d.call(0, nil, nil)
			}
		})
		swg.Wait()
		d.close()
		r.Case(true, fp(d.desc, si))
	}
}
