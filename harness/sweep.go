package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"slices"
	"sync"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

// sweepSizes are sizes of whole frames: all small ones, then those around multiples of
// what buffers may have and of the lengths in the library's source.
func (r *Run) sweepSizes(rng *rand.Rand, least, all int) []int {
	var sizes []int
	for n := least; n <= all; n++ {
		sizes = append(sizes, n)
	}
	around := func(n int) {
		for d := -2; d <= 2; d++ {
			if n+d > all {
				sizes = append(sizes, n+d)
			}
		}
	}
	for _, unit := range []int{4096, 16384} {
		for k := 1; k <= 20; k++ {
			around(k * unit)
		}
	}
	for n := 65536; n <= 4<<20; n *= 2 {
		around(n)
	}
	for _, n := range dictLengths {
		around(n)
		around(4 * n)
	}
	slices.Sort(sizes)
	sizes = slices.Compact(sizes)
	if rng.IntN(2) == 0 {
		rng.Shuffle(len(sizes), func(i, j int) { sizes[i], sizes[j] = sizes[j], sizes[i] })
	}
	return sizes
}

// sizeSweep sends one request of each size; every one has to arrive, whole, before the
// next call is made. kind: "unacknowledged" (Broker.Produce), "send", "do".
func (r *Run) sizeSweep(rng *rand.Rand, kind string, all int) {
	srv := newServer("127.0.0.1")
	arrived := make(chan int, 1)
	srv.raw = func(c *SConn) {
		for {
			f, err := c.readFrame()
			if err != nil {
				if bad := c.badness(); bad != nil {
					r.Violation("the broker received something other than whole frames", "%s: %v", kind, bad)
				}
				return
			}
			switch {
			case f.Key == 18:
				c.write(responseFrame(f.Corr, versionsBody(allRanges(), int(f.Ver))))
				continue
			case kind == "do":
				c.write(responseFrame(f.Corr, []byte{7}))
			}
			arrived <- 14 + len(clientID) + len(f.Body)
		}
	}
	srv.start()
	var call func(n int) error
	var closeAll func()
	least := 14 + len(clientID)
	if kind == "unacknowledged" {
		ver := apiKeys[0].LibMax
		b := r.dialBroker(srv.Addr)
		req := func(n int) message.ProduceRequest {
			return message.ProduceRequest{Topics: []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{Records: make([]byte, n)}}}}}
		}
		empty := req(0)
		least += int(empty.Size(int16(ver)))
		call = func(n int) error { _, err := b.Produce(req(n - least)); return err }
		closeAll = func() { r.closeBroker(b) }
	} else {
		conn, err := kafka.Connect(srv.Addr)
		if err != nil {
			r.Violation("connecting to a listening broker failed", "%v", err)
		}
		call = func(n int) error {
			encode := func(e *message.Encoder, corr int32) {
				e.PutInt32(int32(n - 4))
				e.PutInt16(41)
				e.PutInt16(0)
				e.PutInt32(corr)
				e.PutString(clientID)
				rest := n - least
				for ; rest > 0 && n%3 > 0 && rest < 5000; rest -= 1 {
					e.PutInt8(3)
				}
				if rest >= 4 {
					e.PutBytes(make([]byte, rest-4))
					rest = 0
				}
				for ; rest > 0; rest-- {
					e.PutInt8(3)
				}
			}
			if kind == "send" {
				return conn.Send(encode)
			}
			return conn.Do(encode, func(d *message.Decoder) error {
				v, err := d.Int8()
				if err == nil && v != 7 {
					err = fmt.Errorf("response %d", v)
				}
				return err
			})
		}
		closeAll = func() { conn.Close() }
	}
	what := "a request whose call succeeded does not arrive without another call"
	sizes := r.sweepSizes(rng, least, all)
	for _, n := range sizes {
		r.progress.Add(1)
		var err error
		if kind == "do" {
			r.finish("a call never returned although its response would be sent", fmt.Sprint("frame of ", n, " bytes"), func() { err = call(n) })
		} else {
			r.finish("a call that waits for no response never returned", fmt.Sprint("frame of ", n, " bytes"), func() { err = call(n) })
		}
		if err != nil {
			r.Violation("a call failed on a healthy connection", "frame of %d bytes, %s: %v", n, kind, err)
		}
		got := 0
		t := time.NewTimer(15 * time.Second)
		select {
		case got = <-arrived:
		case <-t.C:
			done := make(chan struct{})
			go func() { defer close(done); got = <-arrived }()
			r.await(done, what, func() string { return fmt.Sprintf("frame of %d bytes, %s", n, kind) })
		}
		t.Stop()
		if got != n {
			r.Violation("a request arrived with another length", "%d instead of %d bytes, %s", got, n, kind)
		}
	}
	closeAll()
	srv.stop()
	r.Count("frame_sizes_swept_"+kind, int64(len(sizes)))
	r.Case(true, fp("sweep", kind, rng.Uint64()))
}

// responseSizes has one response of each size, alone or with others in one piece, each
// judged by what its decode function read.
func (r *Run) responseSizes(rng *rand.Rand) {
	srv := newServer("127.0.0.1")
	srv.raw = func(c *SConn) {
		var batch []byte
		for i := 0; ; i++ {
			f, err := c.readFrame()
			if err != nil {
				return
			}
			n := int(binary.BigEndian.Uint32(f.Body))
			body := make([]byte, n)
			pattern(body, n)
			batch = append(batch, responseFrame(f.Corr, body)...)
			if f.Body[4] == 1 { // together with the next one
				continue
			}
			c.write(batch)
			batch = batch[:0]
		}
	}
	srv.start()
	conn, err := kafka.Connect(srv.Addr)
	if err != nil {
		r.Violation("connecting to a listening broker failed", "%v", err)
	}
	call := func(n int, wait byte) ([]byte, error) {
		var got []byte
		encode := func(e *message.Encoder, corr int32) {
			e.PutInt32(int32(10 + len(clientID) + 5))
			e.PutInt16(41)
			e.PutInt16(0)
			e.PutInt32(corr)
			e.PutString(clientID)
			e.PutInt32(int32(n))
			e.PutInt8(int8(wait))
		}
		err := conn.Do(encode, func(d *message.Decoder) error {
			if n >= 4 {
				v, err := d.Int32()
				if err != nil {
					return err
				}
				var h [4]byte
				pattern(h[:], n)
				if want := int32(binary.BigEndian.Uint32(h[:])); v != want {
					return fmt.Errorf("starts with %x instead of %x", v, want)
				}
			}
			for len(got) < max(0, n-4) || n < 4 && len(got) < n {
				v, err := d.Int8()
				if err != nil {
					return err
				}
				got = append(got, byte(v))
			}
			if _, err := d.Int8(); err == nil {
				return errors.New("there is more than was sent")
			}
			return nil
		})
		return got, err
	}
	judge := func(n int, got []byte, err error) {
		at := n
		if n >= 4 {
			at += 4
		}
		if err != nil {
			r.Violation("a call failed although its response was sent", "response of %d bytes: %v", n, err)
		}
		if i := differs(got, at); i >= 0 {
			r.Violation("a response did not arrive complete and unaltered", "response of %d bytes differs at %d", n, i)
		}
	}
	sizes := r.sweepSizes(rng, 0, r.N(8300, 70000))
	for i := 0; i < len(sizes); i++ {
		r.progress.Add(1)
		n := sizes[i]
		if n > 300_000 { // decoded byte by byte here
			continue
		}
		if i%5 == 0 && i+1 < len(sizes) && sizes[i+1] < 300_000 { // two in one piece
			m := sizes[i+1]
			i++
			var a, b []byte
			var ea, eb error
			r.finish("a call never returned although its response was sent", fmt.Sprintf("responses of %d and %d bytes", n, m), func() {
				var wg sync.WaitGroup
				wg.Add(1)
				first := make(chan struct{})
				go func() { defer wg.Done(); close(first); a, ea = call(n, 1) }()
				<-first
				time.Sleep(50 * time.Microsecond)
				b, eb = call(m, 0)
				done := make(chan struct{})
				go func() { wg.Wait(); close(done) }()
				for waiting := true; waiting; { // if the second overtook the first
					select {
					case <-done:
						waiting = false
					case <-time.After(5 * time.Millisecond):
						call(0, 0)
					}
				}
			})
			judge(n, a, ea)
			judge(m, b, eb)
			continue
		}
		var got []byte
		var err error
		r.finish("a call never returned although its response was sent", fmt.Sprintf("response of %d bytes", n), func() { got, err = call(n, 0) })
		judge(n, got, err)
	}
	conn.Close()
	srv.stop()
	r.Count("response_sizes_swept", int64(len(sizes)))
	r.Case(true, fp("response sizes"))
}
