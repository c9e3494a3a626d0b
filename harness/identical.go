package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"slices"
	"sync"
	"time"

	"github.com/savaki/kafka/message"
)

// identical: calls that cannot be told apart, one after the other and at the same time,
// are as many requests, and each returns a response of its own.
func (r *Run) identical(rng *rand.Rand, a *API) {
	ver := rng.IntN(a.LibMax + 1)
	srv := newServer("127.0.0.1")
	srv.ranges = pinned(func(x *API) int {
		if x == a {
			return ver
		}
		return x.LibMax
	})
	callers, calls := 2+rng.IntN(7), 1+rng.IntN(4)
	total := callers * calls
	var answers [][]byte
	var values []reflect.Value
	seen := map[string]bool{}
	for try := 0; len(answers) < total; try++ {
		v := tagged(rng, a.Resp, fmt.Sprintf("u%d.", uids.Add(1)), 2)
		b := a.Resp.encode(v, ver)
		if !seen[string(b)] || try > 20*total { // some responses can hardly differ
			seen[string(b)] = true
			answers, values = append(answers, b), append(values, v)
		}
	}
	req := tagged(rng, a.Req, fmt.Sprintf("u%d.", uids.Add(1)), 2)
	if a.Name == "Produce" {
		req.Elem().FieldByName("Acks").SetInt(-1)
	}
	body := a.Req.encode(req, ver)
	desc := fmt.Sprintf("%s v%d, %d callers, %d calls each", a.Name, ver, callers, calls)
	var mu sync.Mutex
	received := 0
	delay := time.Duration(rng.IntN(3)) * 700 * time.Microsecond
	srv.handle = func(c *SConn, f *Frame) {
		if f.Key != a.Key || !bytes.Equal(f.Body, body) {
			r.Violation("the broker received a request no caller made", "key %d, %s: %s", f.Key, hx(f.Body), desc)
		}
		mu.Lock()
		i := received
		received++
		mu.Unlock()
		if i >= total {
			r.Violation("one call was sent more than once", "%s", desc)
		}
		go func() {
			time.Sleep(delay)
			c.write(responseFrame(f.Corr, answers[i]))
		}()
	}
	srv.start()
	b := r.dialBroker(srv.Addr)
	got := make([]reflect.Value, total)
	var wg sync.WaitGroup
	for g := 0; g < callers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < total; i += callers {
				resp, err := invoke(b, a, req)
				if err != nil {
					r.Violation("a call failed although its response was sent", "%s: %v", desc, err)
				}
				got[i] = resp
			}
		}()
	}
	r.awaitAll(&wg, "a call never returned although its response was sent", func() string { return desc })
	mu.Lock()
	n := received
	mu.Unlock()
	if n != total {
		r.Violation("calls with equal requests did not all reach the broker", "%d of %d, %s", n, total, desc)
	}
	for _, g := range got { // one answer each
		k := slices.IndexFunc(values, func(v reflect.Value) bool { return a.Resp.diff(v, g, ver) == "" })
		if k < 0 {
			r.Violation("calls with equal requests did not return one response each", "%s: %s", desc, short(g.Interface()))
		}
		values = slices.Delete(values, k, k+1)
	}
	r.closeBroker(b)
	srv.stop()
	r.Count("identical_calls", int64(total))
	r.Case(true, fp("identical", a.Key, ver, callers, calls))
}

// identicalUnacked: equal produce requests without acknowledgement all arrive.
func (r *Run) identicalUnacked(rng *rand.Rand) {
	srv := newServer("127.0.0.1")
	ver := rng.IntN(apiKeys[0].LibMax + 1)
	srv.ranges = pinned(func(x *API) int {
		if x.Key == 0 {
			return ver
		}
		return x.LibMax
	})
	req := unackedRequest(rng, rng.IntN(3)*2500)
	body := apiKeys[0].Req.encode(req, ver)
	n := 0 // only the connection's goroutine, and after the last response
	srv.handle = func(c *SConn, f *Frame) {
		if f.Key == 0 {
			if !bytes.Equal(f.Body, body) {
				r.Violation("the broker received a request no caller made", "%s", hx(f.Body))
			}
			n++
			return
		}
		c.write(responseFrame(f.Corr, []byte{0, 0, 0, 0, byte(n >> 8), byte(n)}))
	}
	srv.start()
	b := r.dialBroker(srv.Addr)
	callers, calls := 1+rng.IntN(6), 1+rng.IntN(20)
	desc := fmt.Sprintf("v%d, %d callers, %d calls each", ver, callers, calls)
	var wg sync.WaitGroup
	for g := 0; g < callers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < calls; i++ {
				if _, err := invoke(b, apiKeys[0], req); err != nil {
					r.Violation("a produce call without acknowledgement failed on a healthy connection", "%s: %v", desc, err)
				}
			}
		}()
	}
	r.awaitAll(&wg, "produce calls without acknowledgement never returned", func() string { return desc })
	var resp message.HeartbeatResponse
	r.finish("a call never returned although its response was sent", desc, func() {
		var err error
		if resp, err = b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
			r.Violation("a call failed although its response was sent", "%s: %v", desc, err)
		}
	})
	if int(resp.ErrorCode) != callers*calls {
		r.Violation("equal produce requests without acknowledgement did not all arrive once", "%d of %d, %s", resp.ErrorCode, callers*calls, desc)
	}
	r.closeBroker(b)
	srv.stop()
	r.Count("identical_unacknowledged_produces", int64(callers*calls))
	r.Case(true, fp("identical unacknowledged", ver, callers, calls))
}
