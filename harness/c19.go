package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"github.com/savaki/kafka/ring"
)

func init() { checks["C19"] = checkC19 }

// The race detector orders what synchronisation orders, also the harness's own: the
// goroutines here share nothing but the library's values between start and end.

// stressServer answers every request at once with a fixed response.
func stressServer(rng *rand.Rand, vers map[int16]int, w *tlsWorld, fault string) *Server {
	srv := newServer("127.0.0.1")
	srv.ranges = pinned(func(a *API) int { return vers[a.Key] })
	bodies := map[int16][]byte{}
	for _, a := range apis {
		g := newGen(rng, true)
		g.budget = 60
		bodies[a.Key] = a.Resp.encode(g.New(a.Resp), vers[a.Key])
	}
	meta := message.MetadataResponse{
		Brokers: []message.MetadataResponseBroker3{{NodeId: 7, Host: srv.Host, Port: srv.Port}},
		Topics:  []message.MetadataResponseTopic3{{Name: "t", Partitions: []message.MetadataResponsePartition3{{LeaderId: 7}}}}, ControllerId: 7}
	bodies[3] = apiKeys[3].Resp.encode(reflect.ValueOf(&meta), vers[3])
	bodies[10] = apiKeys[10].Resp.encode(reflect.ValueOf(&message.FindCoordinatorResponse{NodeId: 7, Host: srv.Host, Port: srv.Port}), vers[10])
	seed := rng.Uint64()
	if w != nil {
		srv.tlsConf = &tls.Config{Certificates: []tls.Certificate{w.certs["good127.0.0.1"]}}
	}
	faultAt := 20 + rng.IntN(200)
	srv.handle = func(c *SConn, f *Frame) {
		crng, _ := c.state.(*rand.Rand)
		if crng == nil {
			crng = rand.New(rand.NewPCG(seed, uint64(c.id)))
			c.state = crng
		}
		if f.Seq > faultAt {
			switch fault {
			case "close":
				c.Conn.Close()
				return
			case "reset":
				c.reset()
				return
			case "half-close":
				endConn(c, fault)
				return
			case "bad length":
				c.write([]byte{0xff, 0xff, 0xff, 0xff})
				return
			}
		}
		body := bodies[f.Key]
		var out []byte
		switch crng.IntN(8) {
		case 0: // unsolicited
			out = responseFrame(f.Corr+int32(1000+crng.IntN(1000)), body)
		case 1: // malformed, so that the call fails
			if len(body) > 0 && f.Key != 3 && f.Key != 10 {
				body = body[:crng.IntN(len(body))]
			}
		case 2: // twice
			out = responseFrame(f.Corr, body)
		}
		out = append(out, responseFrame(f.Corr, body)...)
		c.writeSplit(crng, out)
	}
	return srv.start()
}

// touch reads everything in a value.
func touch(v reflect.Value, sum *int64) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			touch(v.Field(i), sum)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for _, b := range v.Bytes() {
				*sum += int64(b)
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			touch(v.Index(i), sum)
		}
	case reflect.String:
		for _, b := range []byte(v.String()) {
			*sum += int64(b)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		*sum += v.Int()
	}
}

type stressTally struct{ calls, failed, dials int64 }

func (r *Run) stress(rng *rand.Rand, w *tlsWorld) string {
	vers := map[int16]int{}
	for _, a := range apis {
		vers[a.Key] = rng.IntN(a.LibMax + 1)
	}
	vers[3] = max(1, vers[3])
	fault := []string{"none", "none", "close", "reset", "half-close", "bad length"}[rng.IntN(6)]
	useTLS := rng.IntN(4) == 0
	var tw *tlsWorld
	var opts []kafka.Option
	if useTLS {
		tw = w
		opts = append(opts, kafka.WithTLS(&tls.Config{RootCAs: w.ca.pool}))
		if fault == "half-close" {
			fault = "close"
		}
	}
	if rng.IntN(3) == 0 {
		opts = append(opts, kafka.WithDialer(&net.Dialer{Control: func(string, string, syscall.RawConn) error { return nil }}))
	}
	srv := stressServer(rng, vers, tw, fault)
	// requests shared by all goroutines
	reqs := map[int16]reflect.Value{}
	for _, a := range apis {
		g := newGen(rng, true)
		g.budget = 60
		req := g.New(a.Req)
		if a.Name == "Produce" {
			req.Elem().FieldByName("Acks").SetInt(1)
		}
		reqs[a.Key] = req
	}
	big := message.ProduceRequest{Acks: 1, Topics: []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{Records: make([]byte, 10_000)}}}}}
	unacked := message.ProduceRequest{Topics: []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{Records: []byte("abc")}}}}}
	nb := 1 + rng.IntN(3)
	var brokers []*kafka.Broker
	for i := 0; i < nb; i++ {
		b, err := kafka.NewBroker(srv.Addr, opts...)
		if err != nil {
			r.Violation("connecting to a well-behaved broker failed", "%v", err)
		}
		brokers = append(brokers, b)
	}
	raw, err := kafka.Connect(srv.Addr, opts...)
	if err != nil {
		r.Violation("connecting to a well-behaved broker failed", "%v", err)
	}
	boot := []string{srv.Addr}
	for k := rng.IntN(3); k > 0; k-- { // unreachable ones before and after
		boot = append([]string{fmt.Sprintf("127.9.9.%d:1", 1+rng.IntN(3))}, boot...)
	}
	for k := rng.IntN(3); k > 0; k-- {
		boot = append(boot, []string{"127.9.9.1:2", srv.Addr}[rng.IntN(2)])
	}
	client := kafka.NewClient(boot, append(make([]kafka.Option, 0, len(opts)+4), opts...)...)
	batch := kafka.RecordBatch{Records: []kafka.Message{{Key: []byte("k"), Value: make([]byte, 200), Timestamp: time.UnixMilli(1e12), Header: kafka.MapHeader{"a": "b", "c": ""}}, {Offset: 1}}}
	mix := rng.IntN(3) // 0: all APIs, 1: one API, 2: few
	only := apis[rng.IntN(len(apis))]
	gate := make(chan struct{})
	var wg sync.WaitGroup
	callers := 4 + rng.IntN(8)
	tallies := make([]stressTally, callers+6)
	for g := 0; g < callers; g++ {
		crng := rand.New(rand.NewPCG(rng.Uint64(), uint64(g)))
		b := brokers[g%nb]
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			t := &tallies[g]
			var sum int64
			for i := 0; i < 30; i++ {
				a := apis[crng.IntN(len(apis))]
				switch mix {
				case 1:
					a = only
				case 2:
					a = apis[crng.IntN(4)]
				}
				var resp reflect.Value
				var err error
				switch {
				case crng.IntN(12) == 0:
					_, err = b.Produce(unacked)
				case crng.IntN(12) == 0:
					var p message.ProduceResponse
					p, err = b.Produce(big)
					resp = reflect.ValueOf(&p)
				default:
					resp, err = invoke(b, a, reqs[a.Key])
				}
				t.calls++
				if err != nil {
					t.failed++
				}
				if resp.IsValid() {
					touch(resp.Elem(), &sum)
					scribble(resp.Elem())
				}
			}
		}()
	}
	for g := 0; g < 2; g++ { // the shared raw connection
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			t := &tallies[callers+g]
			for i := 0; i < 20; i++ {
				var v message.HeartbeatResponse
				ver := int16(vers[12])
				err := raw.Do(func(e *message.Encoder, correlationID int32) {
					h := message.RequestHeader{RequestApiKey: 12, RequestApiVersion: ver, CorrelationId: correlationID, ClientId: "x"}
					req := message.HeartbeatRequest{GroupId: "g"}
					e.PutInt32(h.Size(1) + req.Size(ver))
					h.Encode(e, 1)
					req.Encode(e, ver)
				}, func(d *message.Decoder) error { return v.Decode(d, ver) })
				t.calls++
				if err != nil {
					t.failed++
				}
			}
		}()
	}
	for g := 0; g < 4; g++ { // the shared client
		crng := rand.New(rand.NewPCG(rng.Uint64(), uint64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			t := &tallies[callers+2+g]
			ctx := context.Background()
			for i := 0; i < 3; i++ {
				batch.Encode(message.NewEncoder(io.Discard), 0)
				batch.Size(0)
				var b *kafka.Broker
				var err error
				switch crng.IntN(6) {
				case 4: // designates none
					b, err = client.DialLeader(ctx, "none", 0)
				case 5:
					b, err = client.DialLeader(ctx, "t", 9)
				case 0:
					b, err = client.DialController(ctx)
				case 1:
					b, err = client.DialLeader(ctx, "t", 0)
				case 2:
					b, err = client.DialGroupCoordinator(ctx, "g")
				default:
					_, err = client.Metadata(ctx, "t", "u")
				}
				t.dials++
				if err != nil {
					t.failed++
				}
				if b != nil {
					b.Heartbeat(message.HeartbeatRequest{})
					b.Close()
				}
			}
		}()
	}
	closing := rng.IntN(3) > 0
	if closing {
		for g := 0; g < 2; g++ {
			d := time.Duration(rng.IntN(6000)) * time.Microsecond
			b := brokers[rng.IntN(nb)]
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				time.Sleep(d)
				b.Close()
				if g == 0 {
					raw.Close()
				}
			}()
		}
	}
	close(gate)
	r.awaitAll(&wg, "a call or close never returned", func() string { return fault })
	for _, b := range brokers {
		b.Close()
	}
	raw.Close()
	srv.stop()
	var sum stressTally
	for _, t := range tallies {
		sum.calls += t.calls
		sum.failed += t.failed
		sum.dials += t.dials
	}
	r.Count("calls", sum.calls)
	r.Count("calls_failed", sum.failed)
	r.Count("client_operations", sum.dials)
	r.Count("sessions_with_fault_"+fault, 1)
	if closing {
		r.Count("sessions_with_closes", 1)
	}
	if useTLS {
		r.Count("sessions_with_tls", 1)
	}
	return fmt.Sprint(callers, nb, fault, mix, only.Name, closing, useTLS, sum)
}

// firstUse: nothing of the library has run in this process yet.  Several goroutines do
// each thing for the first time together.
func (r *Run) firstUse(w *tlsWorld) {
	rng := r.Rng("first use")
	vers := map[int16]int{}
	for _, a := range apis {
		vers[a.Key] = a.LibMax
	}
	srv := stressServer(rng, vers, nil, "none")
	secure := stressServer(rng, vers, w, "none")
	const parties = 8
	type stage struct {
		name string
		run  func(g int)
	}
	var stages []stage
	add := func(name string, f func(g int)) { stages = append(stages, stage{name, f}) }
	dial := func(addr string, opts ...kafka.Option) *kafka.Broker {
		b, err := kafka.NewBroker(addr, opts...)
		if err != nil {
			r.Violation("connecting to a well-behaved broker failed", "%v", err)
		}
		return b
	}
	ctx := context.Background()
	brokers := make([]*kafka.Broker, parties)
	clients := make([]*kafka.Client, parties)
	var shared *kafka.Client
	add("ring", func(g int) {
		b := ring.New(10)
		b.WriteN([]byte("abc"), 3)
		b.ReadN(make([]byte, 3), 3)
		b.Close()
	})
	add("connect", func(g int) {
		c, err := kafka.Connect(srv.Addr)
		if err == nil {
			c.Close()
		}
	})
	add("clients", func(g int) { clients[g] = kafka.NewClient([]string{srv.Addr}) })
	add("failed operations", func(g int) {
		kafka.NewBroker("127.9.9.1:1")
		kafka.NewClient([]string{"127.9.9.1:1"}).Metadata(ctx)
	})
	add("brokers", func(g int) { brokers[g] = dial(srv.Addr) })
	add("tls", func(g int) {
		b := dial(secure.Addr, kafka.WithTLS(&tls.Config{RootCAs: w.ca.pool}))
		b.Close()
	})
	add("dialer", func(g int) {
		b := dial(srv.Addr, kafka.WithDialer(&net.Dialer{Timeout: time.Minute}))
		b.Close()
	})
	closeIt := func(b *kafka.Broker, err error) {
		if err == nil {
			b.Close()
		}
	}
	add("metadata", func(g int) { clients[g].Metadata(ctx) })
	add("controller", func(g int) { closeIt(clients[g].DialController(ctx)) })
	add("leader", func(g int) { closeIt(clients[g].DialLeader(ctx, "t", 0)) })
	add("coordinator", func(g int) { closeIt(clients[g].DialGroupCoordinator(ctx, "g")) })
	add("no leader", func(g int) { closeIt(clients[g].DialLeader(ctx, "nowhere", 0)) })
	for _, op := range []func(){ // a client is shared before its first use
		func() { shared.Metadata(ctx) },
		func() { closeIt(shared.DialController(ctx)) },
		func() { closeIt(shared.DialLeader(ctx, "t", 0)) },
		func() { closeIt(shared.DialGroupCoordinator(ctx, "g")) },
	} {
		add("new client", func(g int) {
			if g == 0 {
				shared = kafka.NewClient([]string{"127.9.9.1:1", srv.Addr}, make([]kafka.Option, 0, 4)...)
			}
		})
		add("shared client", func(g int) { op() })
	}
	add("batch", func(g int) {
		b := kafka.RecordBatch{Records: []kafka.Message{{Key: []byte("k"), Timestamp: time.UnixMilli(1e12), Header: kafka.MapHeader{"a": "b"}}}}
		b.Size(0)
		b.Encode(message.NewEncoder(io.Discard), 0)
	})
	type coder interface {
		Size(int16) int32
		Encode(*message.Encoder, int16)
	}
	for _, m := range msgs {
		g := newGen(rng, true)
		g.budget = 40
		v := g.New(m)
		for _, ver := range []int{m.Max, m.Min} {
			raw := m.encode(v, ver)
			add("codec", func(g int) {
				if c, ok := v.Elem().Interface().(coder); ok {
					c.Size(int16(ver))
					c.Encode(message.NewEncoder(io.Discard), int16(ver))
				}
				d, ok := reflect.New(v.Elem().Type()).Interface().(interface {
					Decode(*message.Decoder, int16) error
				})
				if ok {
					d.Decode(message.NewDecoder(append([]byte{}, raw...), len(raw)), int16(ver))
				}
			})
		}
	}
	one := dial
	var common *kafka.Broker
	add("common broker", func(g int) {
		if g == 0 {
			common = one(srv.Addr)
		}
	})
	for _, a := range apis {
		g := newGen(rng, true)
		g.budget = 40
		req := g.New(a.Req)
		if a.Name == "Produce" {
			req.Elem().FieldByName("Acks").SetInt(1)
		}
		add("call "+a.Name, func(g int) { invoke(common, a, req); invoke(brokers[g], a, req) })
	}
	add("unacknowledged", func(g int) { common.Produce(message.ProduceRequest{}) })
	add("close", func(g int) { brokers[g].Close() })
	add("close together", func(g int) { common.Close() })
	add("after close", func(g int) { common.Heartbeat(message.HeartbeatRequest{}) })
	// a stage begins for all at once; nothing orders the parties within one
	var arrived, open [1000]atomic.Int32
	var wg sync.WaitGroup
	var current atomic.Value
	for g := 0; g < parties; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, s := range stages {
				if arrived[i].Add(1) == parties {
					current.Store(s.name)
					open[i].Store(1)
				}
				for open[i].Load() == 0 {
					runtime.Gosched()
				}
				s.run(g)
				r.progress.Add(1)
			}
		}()
	}
	r.awaitAll(&wg, "a call or close never returned", func() string { return fmt.Sprint("first use: ", current.Load()) })
	srv.stop()
	secure.stop()
	r.Count("first_uses_together", int64(len(stages)))
	r.Case(true, fp("first use"))
}

func checkC19(r *Run) {
	requireBindings(r)
	r.Doing("first use")
	r.firstUse(newTLSWorld())
	r.rule = "sessions in which 10-18 goroutines share brokers, a raw connection and a client, for the same or different APIs and with the same request values, while others close them and the broker answers twice, unasked, malformed or drops the connection; observed by the race detector under perturbed schedules; distinct by configuration and outcome counts"
	w := newTLSWorld()
	for i := 0; i < r.N(150, 8000); i++ {
		rng := r.Rng("stress", i)
		profile := perturb(rng)
		r.Doing("session %d, perturbation %s", i, profile)
		info := r.stress(rng, w)
		r.Case(true, fp(info))
		r.Sampled(func() any { return map[string]any{"session": info, "perturbation": profile} })
	}
	calm()
	r.yieldStats()
}
