package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"net"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C24"] = checkC24 }

// duplex is one connection whose broker end reads and writes only when told to.
type duplex struct {
	r      *Run
	rng    *rand.Rand
	desc   string
	srv    *Server
	peer   *SConn
	leave  chan struct{}
	conn   *kafka.Conn   // used directly,
	broker *kafka.Broker // or through a broker
	next   atomic.Int64
}

var respPattern = bytes.Repeat([]byte("0123456789abcdef"), 1<<16)

// smallBuffers keeps the kernel from swallowing much of a request or response.  Receive
// buffers stay as they are: a window smaller than a segment makes TCP wait for its timers.
func smallBuffers() kafka.Option {
	return kafka.WithDialer(&net.Dialer{Control: func(network, address string, c syscall.RawConn) error {
		return c.Control(func(fd uintptr) {
			syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_SNDBUF, 128<<10)
		})
	}})
}

func (r *Run) openDuplex(rng *rand.Rand, viaBroker, small bool) *duplex {
	d := &duplex{r: r, rng: rng, srv: newServer("127.0.0.1"), leave: make(chan struct{})}
	got := make(chan *SConn, 1)
	d.srv.ranges = pinned(func(a *API) int { return min(a.LibMax, 1) })
	d.srv.raw = func(c *SConn) {
		if t, ok := c.Conn.(*net.TCPConn); ok && small {
			t.SetWriteBuffer(128 << 10)
		}
		if viaBroker {
			f, err := c.readFrame()
			if err != nil {
				return
			}
			c.write(responseFrame(f.Corr, versionsBody(d.srv.ranges, int(f.Ver))))
		}
		got <- c
		<-d.leave
	}
	d.srv.start()
	var opts []kafka.Option
	if small {
		opts = append(opts, smallBuffers())
	}
	if viaBroker {
		d.broker = r.dialBroker(d.srv.Addr, opts...)
	} else {
		c, err := kafka.Connect(d.srv.Addr, opts...)
		if err != nil {
			r.Violation("connecting failed", "%v", err)
		}
		d.conn = c
	}
	d.peer = <-got
	return d
}

func (d *duplex) close() {
	done := make(chan struct{})
	go func() {
		defer close(done)
		if d.broker != nil {
			d.broker.Close()
		} else {
			d.conn.Close()
		}
	}()
	d.r.await(done, "closing never returned", func() string { return d.desc })
	close(d.leave)
	d.srv.stop()
}

// call makes one request with a pad of that many bytes and checks its response.  The
// hooks, if any, run within the encode and decode functions.
func (d *duplex) call(pad int, inEncode, inDecode func()) {
	uid := d.next.Add(1)
	var err error
	var got int64
	if d.broker != nil {
		if pad > 0 {
			resp, e := d.broker.Produce(message.ProduceRequest{Acks: 1, TimeoutMs: int32(uid), Topics: []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{Records: make([]byte, pad)}}}}})
			got, err = int64(resp.ThrottleTimeMs), e
		} else {
			resp, e := d.broker.Heartbeat(message.HeartbeatRequest{GroupId: "g", GenerationId: int32(uid), MemberId: "m"})
			got, err = int64(resp.ThrottleTimeMs), e
		}
	} else {
		err = d.conn.Do(func(e *message.Encoder, corr int32) {
			if inEncode != nil && uid%2 == 0 {
				inEncode()
			}
			e.PutInt32(int32(10 + len(clientID) + 8 + 4 + pad))
			e.PutInt16(12)
			e.PutInt16(0)
			e.PutInt32(corr)
			e.PutString(clientID)
			if inEncode != nil && uid%2 == 1 {
				inEncode()
			}
			e.PutInt64(uid)
			e.PutBytes(make([]byte, pad))
		}, func(dec *message.Decoder) error {
			if inDecode != nil {
				inDecode()
			}
			v, err := dec.Int64()
			if err != nil {
				return err
			}
			got = v
			rest, err := dec.Bytes()
			for i := 0; i < len(rest); i += len(respPattern) {
				n := min(len(rest)-i, len(respPattern))
				if !bytes.Equal(rest[i:i+n], respPattern[:n]) {
					d.r.Violation("a response arrived altered", "%s", d.desc)
				}
			}
			return err
		})
	}
	if err != nil {
		d.r.Violation("a call failed although its response was sent", "%s: %v", d.desc, err)
	}
	if got != uid {
		d.r.Violation("a call returned something other than the response to its request", "%s: %d instead of %d", d.desc, got, uid)
	}
	d.r.Count("calls", 1)
}

// frame reads one request at the broker.
func (d *duplex) frame() *Frame {
	f, err := d.peer.readFrame()
	if err != nil {
		d.r.Violation("the request stream ended or is not a sequence of whole frames", "%s: %v", d.desc, err)
	}
	d.r.Count("requests_received", 1)
	return f
}

// response answers a request, with that many extra bytes if the call can take them.
func (d *duplex) response(f *Frame, extra int) []byte {
	if d.broker == nil {
		b := append([]byte{}, f.Body[:8]...)
		b = binary.BigEndian.AppendUint32(b, uint32(extra))
		for extra > 0 {
			n := min(extra, len(respPattern))
			b = append(b, respPattern[:n]...)
			extra -= n
		}
		return responseFrame(f.Corr, b)
	}
	var uid uint32
	if f.Key == 0 {
		uid = binary.BigEndian.Uint32(f.Body[2:])
		return responseFrame(f.Corr, binary.BigEndian.AppendUint32([]byte{0, 0, 0, 0}, uid)) // no topics, throttle time
	}
	_, gen := heartbeatIDs(f.Body)
	return responseFrame(f.Corr, append(binary.BigEndian.AppendUint32(nil, uint32(gen)), 0, 0))
}

func (d *duplex) spawn(wg *sync.WaitGroup, n, pad int, inEncode, inDecode func()) {
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); d.call(pad, inEncode, inDecode) }()
	}
}

// frames reads n requests while watching that the client keeps writing.
func (d *duplex) frames(n int, what string) []*Frame {
	var out []*Frame
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < n; i++ {
			out = append(out, d.frame())
		}
	}()
	d.r.await(done, what, func() string { return fmt.Sprintf("%s: %d of %d requests arrived", d.desc, len(out), n) })
	return out
}

// answer writes the responses in some order from a goroutine of the broker.
func (d *duplex) answer(fs []*Frame, extra int) *sync.WaitGroup {
	order := d.rng.Perm(len(fs))
	merged := d.rng.IntN(2) == 0 && len(fs)*extra < 1<<20
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		var out []byte
		for _, i := range order {
			b := d.response(fs[i], extra)
			if merged {
				out = append(out, b...)
			} else if d.peer.write(b) != nil {
				return
			}
		}
		d.peer.write(out)
	}()
	return &wg
}

// outstanding: nothing is answered before every request has arrived.
func (d *duplex) outstanding(n int) {
	d.desc = fmt.Sprintf("%d calls, none answered before all have arrived, through a broker: %v", n, d.broker != nil)
	var wg sync.WaitGroup
	d.spawn(&wg, n, 0, nil, nil)
	fs := d.frames(n, "a request was not written while other calls were unanswered")
	d.answer(fs, 0)
	d.r.awaitAll(&wg, "a call never returned although its response was sent", func() string { return d.desc })
	d.r.Max("most_calls_outstanding", int64(n))
}

// blockedWriter: the broker does not read on before its responses have been taken.
func (d *duplex) blockedWriter(early, late, pad, extra int) {
	d.desc = fmt.Sprintf("%d calls in flight, then %d requests of %d bytes the broker does not read; responses of %d bytes, through a broker: %v", early, late, pad, extra, d.broker != nil)
	var ewg, lwg sync.WaitGroup
	d.spawn(&ewg, early, 0, nil, nil)
	fs := d.frames(early, "a request was not written")
	d.spawn(&lwg, late, pad, nil, nil)
	time.Sleep(time.Duration(1+d.rng.IntN(6)) * time.Millisecond)
	d.answer(fs, extra)
	d.r.awaitAll(&ewg, "a call did not get its response while another request was waiting to be written", func() string { return d.desc })
	fs = d.frames(late, "a request was not written on after the broker had stopped reading for a while")
	d.answer(fs, 0)
	d.r.awaitAll(&lwg, "a call never returned although its response was sent", func() string { return d.desc })
}

// blockedEncode: responses arrive while a request is being encoded.
func (d *duplex) blockedEncode(early int) {
	d.desc = fmt.Sprintf("%d calls in flight while the encode function of another runs", early)
	var ewg, lwg sync.WaitGroup
	d.spawn(&ewg, early, 0, nil, nil)
	fs := d.frames(early, "a request was not written")
	entered, gate := make(chan struct{}), make(chan struct{})
	d.spawn(&lwg, 1, 0, func() { close(entered); <-gate }, nil)
	d.r.await(entered, "the encode function was not called", func() string { return d.desc })
	d.answer(fs, 0)
	d.r.awaitAll(&ewg, "a call did not get its response while another request was being encoded", func() string { return d.desc })
	close(gate)
	d.answer(d.frames(1, "a request was not written"), 0)
	d.r.awaitAll(&lwg, "a call never returned although its response was sent", func() string { return d.desc })
}

// blockedDecode: requests are written while a response is being decoded.
func (d *duplex) blockedDecode(late, pad int) {
	d.desc = fmt.Sprintf("%d calls of %d bytes while the decode function of another runs", late, pad)
	var ewg, lwg sync.WaitGroup
	entered, gate := make(chan struct{}), make(chan struct{})
	d.spawn(&ewg, 1, 0, nil, func() { close(entered); <-gate })
	d.answer(d.frames(1, "a request was not written"), 0)
	d.r.await(entered, "a response was not decoded", func() string { return d.desc })
	d.spawn(&lwg, late, pad, nil, nil)
	fs := d.frames(late, "a request was not written while a response was being decoded")
	close(gate)
	d.answer(fs, 0)
	d.r.awaitAll(&ewg, "a call never returned although its response was sent", func() string { return d.desc })
	d.r.awaitAll(&lwg, "a call never returned although its response was sent", func() string { return d.desc })
}

// strict: the broker reads one request at a time and reads on once its response is out.
func (d *duplex) strict(callers, calls, pad, extra int) {
	d.desc = fmt.Sprintf("%d callers of %d requests of %d bytes, each answered with %d bytes before the next is read, through a broker: %v", callers, calls, pad, extra, d.broker != nil)
	var wg, swg sync.WaitGroup
	for i := 0; i < callers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < calls; k++ {
				d.call(pad, nil, nil)
			}
		}()
	}
	swg.Add(1)
	go func() {
		defer swg.Done()
		for i := 0; i < callers*calls; i++ {
			if d.peer.write(d.response(d.frame(), extra)) != nil {
				d.r.Violation("the client closed the connection", "%s", d.desc)
			}
		}
	}()
	d.r.awaitAll(&wg, "requests and responses wait for each other", func() string { return d.desc })
	swg.Wait()
}

func checkC24(r *Run) {
	requireBindings(r)
	r.rule = "connections whose broker withholds responses until all of up to thousands of requests have arrived, withholds reading until its responses are taken, or does one strictly before the other, with requests and responses far beyond all buffers, and callbacks that block; distinct by scenario and its parameters"
	for i := 0; i < r.N(150, 6000); i++ {
		rng := r.Rng("duplex", i)
		profile := perturb(rng)
		kind := i % 6
		viaBroker := rng.IntN(2) == 0 && kind != 2 && kind != 3
		small := rng.IntN(3) > 0
		r.Doing("connection %d, perturbation %s", i, profile)
		d := r.openDuplex(rng, viaBroker, small)
		size := func() int { // of requests
			if small {
				return []int{200_000, 1_000_000, 3_000_000}[rng.IntN(3)]
			}
			return 12_000_000
		}
		extra := func() int {
			if viaBroker {
				return 0
			}
			n := []int{0, 100, 10_000, 3_000_000, 9_000_000}[rng.IntN(5)]
			if n > 100_000 { // the buffers pass points by the byte
				calm()
				profile = "none"
			}
			return n
		}
		name := ""
		switch kind {
		case 0:
			name = "withheld responses"
			n := 1 + rng.IntN(300)
			if i%24 == 0 {
				n = 1000 + rng.IntN(2000)
				calm()
			}
			d.outstanding(n)
		case 1, 5:
			name = "withheld reading"
			d.blockedWriter(1+rng.IntN(5), 1+rng.IntN(3), size(), extra())
		case 2:
			name = "slow encoding"
			d.blockedEncode(1 + rng.IntN(6))
		case 3:
			name = "slow decoding"
			d.blockedDecode(1+rng.IntN(40), []int{0, 10, 100_000}[rng.IntN(3)])
		case 4:
			name = "one before the other"
			d.strict(1+rng.IntN(5), 1+rng.IntN(3), size()/3, extra())
		}
		// the connection is as good as before
		if rng.IntN(2) == 0 {
			desc := d.desc
			d.outstanding(1 + rng.IntN(4))
			d.desc = desc
		}
		d.close()
		r.Count("connections: "+name, 1)
		r.Case(true, fp(d.desc, profile))
		r.Sampled(func() any { return map[string]any{"scenario": name, "what": d.desc, "perturbation": profile} })
	}
	calm()
	r.yieldStats()
}
