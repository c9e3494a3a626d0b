package main

import (
	"encoding/binary"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

// longConnection makes very many calls on one connection while a few early ones stay
// unanswered all the time, so that ids taken from a small space would meet again.
func (r *Run) longConnection(calls, callers int) {
	r.Doing("long connection of %d calls", calls)
	const ver = 1 // of Heartbeat: throttle time, error code
	srv := newServer("127.0.0.1")
	srv.ranges = pinned(func(a *API) int { return min(a.LibMax, ver) })
	seen := map[int32]int{} // one connection: requests are handled one at a time
	var held []*Frame
	release := make(chan struct{})
	var heldReady sync.WaitGroup
	const holds = 3
	heldReady.Add(holds)
	answer := func(f *Frame) []byte {
		// the generation comes back as throttle time
		body := make([]byte, 6)
		_, gen := heartbeatIDs(f.Body)
		binary.BigEndian.PutUint32(body, uint32(gen))
		return responseFrame(f.Corr, body)
	}
	note := func(f *Frame) {
		if at, ok := seen[f.Corr]; ok {
			r.Violation("a correlation id was used twice on one connection", "id %d, in frames %d and %d", f.Corr, at, f.Seq)
		}
		seen[f.Corr] = f.Seq
	}
	srv.versions = func(c *SConn, f *Frame) {
		note(f)
		c.write(responseFrame(f.Corr, versionsBody(srv.ranges, int(f.Ver))))
	}
	srv.handle = func(c *SConn, f *Frame) {
		note(f)
		if f.Key != 12 || f.Ver != ver {
			r.Violation("the broker received a request no caller made", "api key %d version %d", f.Key, f.Ver)
		}
		if group, _ := heartbeatIDs(f.Body); group == "held" {
			held = append(held, f)
			heldReady.Done()
			if len(held) == holds {
				srv.wg.Add(1)
				go func() {
					defer srv.wg.Done()
					<-release
					for _, f := range held {
						c.write(answer(f))
					}
				}()
			}
			return
		}
		c.write(answer(f))
	}
	srv.start()
	b := r.dialBroker(srv.Addr)
	call := func(b *kafka.Broker, group string, gen int32) {
		resp, err := b.Heartbeat(message.HeartbeatRequest{GroupId: group, GenerationId: gen, MemberId: "m"})
		if err != nil {
			r.Violation("a call failed although its response was sent", "call %d of a long connection: %v", gen, err)
		}
		if resp.ThrottleTimeMs != gen {
			r.Violation("a call returned something other than the response to its request", "on a long connection: call %d got the response to call %d", gen, resp.ThrottleTimeMs)
		}
	}
	var wg, hwg sync.WaitGroup
	for h := 0; h < holds; h++ {
		hwg.Add(1)
		go func() { defer hwg.Done(); call(b, "held", int32(-1-h)) }()
	}
	r.awaitAll(&heldReady, "a request was not written", func() string { return "start of a long connection" })
	var next atomic.Int64
	for g := 0; g < callers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				n := next.Add(1)
				if n > int64(calls) {
					return
				}
				call(b, "g", int32(n))
				r.progress.Add(1)
			}
		}()
	}
	detail := func() string { return fmt.Sprintf("long connection, about %d of %d calls made", next.Load(), calls) }
	r.awaitAll(&wg, "a call never returned although its response was sent", detail)
	close(release)
	r.awaitAll(&hwg, "a call never returned although its response was sent", detail)
	r.closeBroker(b)
	srv.stop()
	r.Count("calls_on_long_connections", int64(calls))
	r.Max("longest_connection_calls", int64(calls))
	r.Count("calls_held_throughout", holds)
}

// heartbeatIDs reads group and generation of a heartbeat request.
func heartbeatIDs(b []byte) (string, int32) {
	if len(b) < 6 {
		return "", 0
	}
	n := int(binary.BigEndian.Uint16(b))
	if len(b) < 6+n {
		return "", 0
	}
	return string(b[2 : 2+n]), int32(binary.BigEndian.Uint32(b[2+n:]))
}
