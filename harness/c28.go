package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"reflect"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"github.com/savaki/kafka/ring"
)

func init() { checks["C28"] = checkC28 }

// roomy gives every slice in v spare capacity that belongs to the caller as well.
func roomy(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				roomy(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		n := v.Len()
		s := reflect.MakeSlice(v.Type(), n+3, n+3)
		reflect.Copy(s, v)
		for i := 0; i < n+3; i++ {
			if i >= n {
				scribble(s.Index(i))
				if s.Index(i).Kind() == reflect.Uint8 {
					s.Index(i).SetUint(0xA5)
				}
			} else if s.Index(i).Kind() == reflect.Struct {
				roomy(s.Index(i))
			}
		}
		v.Set(s.Slice(0, n))
	}
}

// whole copies v with what lies beyond the length of its slices.
func whole(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				out.Field(i).Set(whole(v.Field(i)))
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		full := v.Slice(0, v.Cap())
		s := reflect.MakeSlice(v.Type(), full.Len(), full.Len())
		if v.Type().Elem().Kind() == reflect.Struct {
			for i := 0; i < full.Len(); i++ {
				s.Index(i).Set(whole(full.Index(i)))
			}
		} else {
			reflect.Copy(s, full)
		}
		out.Set(s)
	default:
		out.Set(v)
	}
	return out
}

func same(a, b reflect.Value) bool { return reflect.DeepEqual(a.Interface(), b.Interface()) }

// ruin overwrites everything a caller can reach from its request.
func ruin(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				ruin(v.Field(i))
			}
		}
	case reflect.Slice:
		full := v.Slice(0, v.Cap())
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := full.Bytes()
			for i := range b {
				b[i] ^= 0x3c
			}
			return
		}
		for i := 0; i < full.Len(); i++ {
			ruin(full.Index(i))
		}
	case reflect.String:
		v.SetString("RUINED")
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 0x2a)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

// tape is all the broker has read from one connection.
type tape struct {
	mu sync.Mutex
	b  []byte
}

type taped struct {
	net.Conn
	t    *tape
	slow bool
}

func (t *taped) Read(b []byte) (int, error) {
	if t.slow {
		time.Sleep(200 * time.Microsecond)
		b = b[:min(len(b), 3000)]
	}
	n, err := t.Conn.Read(b)
	t.t.mu.Lock()
	t.t.b = append(t.t.b, b[:n]...)
	t.t.mu.Unlock()
	return n, err
}

// argumentCase: several goroutines pass the same request value to a broker, then ruin it.
func (r *Run) argumentCase(rng *rand.Rand, ca *tlsWorld, mode string) string {
	srv := newServer(tlsHosts[0])
	vers := map[int16]int{}
	for _, a := range apis {
		vers[a.Key] = rng.IntN(a.LibMax + 1)
	}
	srv.ranges = pinned(func(a *API) int { return vers[a.Key] })
	var opts []kafka.Option
	withTLS := rng.IntN(4) == 0
	if withTLS {
		srv.tlsConf = &tls.Config{Certificates: []tls.Certificate{ca.certs["good"+tlsHosts[0]]}}
		opts = append(opts, kafka.WithTLS(&tls.Config{RootCAs: ca.ca.pool}))
	}
	slow := rng.IntN(3) == 0
	tp := &tape{}
	answers := sync.Map{} // key|body -> response body
	cut := rng.IntN([]int{400, 1200, 5000, 200_000}[rng.IntN(4)])
	release := make(chan struct{})
	var released sync.Once
	letGo := func() { released.Do(func() { close(release) }) }
	srng := rand.New(rand.NewPCG(rng.Uint64(), 3))
	if mode == "cut" {
		srv.raw = func(c *SConn) {
			f, err := c.readFrame()
			if err != nil {
				return
			}
			c.write(responseFrame(f.Corr, versionsBody(srv.ranges, int(f.Ver))))
			tp.mu.Lock()
			tp.b = nil
			tp.mu.Unlock()
			t := &taped{Conn: c.Conn, t: tp, slow: slow}
			c.Conn.SetReadDeadline(time.Now().Add(300 * time.Millisecond)) // the calls may have sent less
			io.CopyN(io.Discard, t, int64(cut))
			endConn(c, []string{"close", "reset"}[srng.IntN(2)])
		}
	} else {
		srv.versions = func(c *SConn, f *Frame) {
			c.Conn = &taped{Conn: c.Conn, t: tp, slow: slow}
			c.write(responseFrame(f.Corr, versionsBody(srv.ranges, int(f.Ver))))
		}
		srv.handle = func(c *SConn, f *Frame) {
			if f.Key == 0 && mode == "unacknowledged" {
				return
			}
			switch mode {
			case "no answer":
				go func() { <-release; c.Conn.Close() }()
			case "malformed answer", "too long": // the long string may be in a field this version does not carry
				c.write(responseFrame(f.Corr, []byte{0x7f}))
			default:
				v, ok := answers.Load(frameKey(f))
				if !ok {
					r.Violation("the broker received a request no caller made", "%s, key %d v%d: %s", mode, f.Key, f.Ver, hx(f.Body))
				}
				c.write(responseFrame(f.Corr, v.([]byte)))
			}
		}
	}
	srv.start()
	b := r.dialBroker(srv.Addr, opts...)
	var expected []*oneCall
	var emu sync.Mutex
	var wg sync.WaitGroup
	names := ""
	for k := 0; k < 6; k++ {
		a := apis[rng.IntN(len(apis))]
		if k%3 == 0 {
			a = apiKeys[[]int16{0, 3, 1, 11, 19, 14}[rng.IntN(6)]]
		}
		if mode == "unacknowledged" {
			a = apiKeys[0]
		}
		ver := vers[a.Key]
		if a.Key == 18 || a.Req.flexible(ver) || a.Req.Flex >= 0 && ver >= a.Req.Flex || !hasString(a.Req.Fields, ver) {
			a, ver = apiKeys[3], vers[3]
		}
		c := newCall(rng, a, ver)
		c.req = tagged(rng, a.Req, fmt.Sprintf("u%d.", uids.Add(1)), 3)
		if a.Key == 0 {
			acks := int64(1)
			if mode == "unacknowledged" {
				acks = 0
			}
			c.req.Elem().FieldByName("Acks").SetInt(acks)
			if rng.IntN(2) == 0 {
				size := []int{10, 4000, 4096, 5000, 70_000, 600_000}[rng.IntN(6)]
				c.req.Elem().FieldByName("Topics").Index(0).FieldByName("Partitions").Index(0).FieldByName("Records").SetBytes(filler(rng, size))
			}
		}
		if mode == "too long" {
			lengthen(c.req.Elem(), rng)
		}
		roomy(c.req.Elem())
		if mode != "too long" {
			raw := a.Req.encode(c.req, ver)
			c.key = fmt.Sprint(a.Key, "|") + string(raw)
			answers.Store(c.key, c.body)
			emu.Lock()
			expected = append(expected, c)
			emu.Unlock()
		}
		names += fmt.Sprint(a.Name, " v", ver, " ")
		sharers := 1 + rng.IntN(3)
		before := whole(c.req.Elem())
		wg.Add(1)
		go func() {
			defer wg.Done()
			var calls sync.WaitGroup
			var over atomic.Bool
			for s := 0; s < sharers; s++ {
				calls.Add(1)
				go func() {
					defer calls.Done()
					_, err := invoke(b, a, c.req)
					if err != nil && (mode == "answered" || mode == "unacknowledged") {
						r.Violation("a call failed although its response was sent", "%s v%d: %v", a.Name, ver, err)
					}
					r.Count("calls", 1)
				}()
			}
			watched := make(chan struct{})
			go func() { // reads all the time: a write by the library is a data race
				defer close(watched)
				for !over.Load() {
					if !same(before, whole(c.req.Elem())) {
						r.Violation("a call modifies its request while it runs", "%s, %s v%d", mode, a.Name, ver)
					}
					runtime.Gosched()
					time.Sleep(50 * time.Microsecond)
				}
			}()
			if mode == "no answer" {
				time.Sleep(time.Duration(srngSleep(ver)) * time.Microsecond)
				letGo()
			}
			calls.Wait()
			over.Store(true)
			<-watched
			if !same(before, whole(c.req.Elem())) {
				after := reflect.New(before.Type())
				after.Elem().Set(whole(c.req.Elem()))
				r.Violation("a call has modified its request", "%s, %s v%d: was %s, is %s", mode, a.Name, ver, short(before.Interface()), short(after.Interface()))
			}
			ruin(c.req.Elem()) // it is the caller's again
			r.Count("requests_reused", 1)
		}()
	}
	r.awaitAll(&wg, "a call never returned", func() string { return mode + " " + names })
	// everything that was sent in the meantime arrives unaltered
	if mode == "unacknowledged" {
		c := newCall(rng, apiKeys[12], vers[12])
		answers.Store(c.key, c.body)
		expected = append(expected, c)
		if _, err := invoke(b, c.a, c.req); err != nil {
			r.Violation("a call failed although its response was sent", "Heartbeat: %v", err)
		}
	}
	letGo()
	r.closeBroker(b)
	srv.stop()
	if mode != "too long" {
		r.judgeTape(tp.b, expected, mode+" "+names)
	}
	return fmt.Sprint(mode, " ", names, " TLS ", withTLS, " slow ", slow)
}

func srngSleep(n int) int { return 300 + n*400 }

// lengthen makes one string of a request too long to be sent.
func lengthen(v reflect.Value, rng *rand.Rand) bool {
	switch v.Kind() {
	case reflect.Struct:
		for _, i := range rng.Perm(v.NumField()) {
			if lengthen(v.Field(i), rng) {
				return true
			}
		}
	case reflect.Slice:
		for i := v.Len() - 1; i >= 0; i-- {
			if lengthen(v.Index(i), rng) {
				return true
			}
		}
	case reflect.String:
		v.SetString(string(make([]byte, 40_000)))
		return true
	}
	return false
}

// judgeTape: what the broker has read consists of the requests as they were when the calls were made.
func (r *Run) judgeTape(b []byte, expected []*oneCall, desc string) {
	byKey := map[string]bool{}
	for _, c := range expected {
		byKey[c.key] = true
	}
	for len(b) > 0 {
		size := -1
		if len(b) >= 4 {
			size = int(int32(binary.BigEndian.Uint32(b)))
		}
		if size >= 0 && len(b) >= 4+size {
			f, err := parseFrame(b[4 : 4+size])
			if err != nil {
				r.Violation("the request stream is not a sequence of whole frames", "%s: %v", desc, err)
			}
			if !byKey[frameKey(f)] && f.Key != 18 {
				r.Violation("a request reached the broker altered", "%s: key %d v%d: %s", desc, f.Key, f.Ver, hx(f.Body))
			}
			r.Count("requests_compared", 1)
			b = b[4+size:]
			continue
		}
		// the connection was cut here
		if len(b) < 4+8+2+len(clientID) {
			return
		}
		key := int16(binary.BigEndian.Uint16(b[4:]))
		part := fmt.Sprint(key, "|") + string(b[4+8+2+len(clientID):])
		for k := range byKey {
			if len(k) >= len(part) && k[:len(part)] == part {
				r.Count("partial_requests_compared", 1)
				return
			}
		}
		r.Violation("a request reached the broker altered", "%s: key %d, the part that arrived before the connection was cut: %s", desc, key, hx([]byte(part)))
	}
}

// clientArguments: what a client is given remains as it was.
func (r *Run) clientArguments(rng *rand.Rand, ca *tlsWorld) string {
	host := tlsHosts[0]
	srv := newServer(host)
	srv.ranges = pinned(func(a *API) int {
		if a.Key == 3 {
			return 1
		}
		return 0
	})
	meta := message.MetadataResponse{ControllerId: 7, Brokers: []message.MetadataResponseBroker3{{NodeId: 7, Host: host, Port: srv.Port}}}
	for i := 0; i < 3; i++ {
		meta.Topics = append(meta.Topics, message.MetadataResponseTopic3{Name: fmt.Sprint("t", i), Partitions: []message.MetadataResponsePartition3{{LeaderId: 7}}})
	}
	spoil := rng.IntN(4) == 0
	srv.handle = func(c *SConn, f *Frame) {
		switch {
		case spoil && f.Key != 12:
			c.write(responseFrame(f.Corr, []byte{1}))
		case f.Key == 3:
			c.write(responseFrame(f.Corr, apiKeys[3].Resp.encode(reflect.ValueOf(&meta), int(f.Ver))))
		case f.Key == 10:
			resp := message.FindCoordinatorResponse{NodeId: 7, Host: host, Port: srv.Port}
			c.write(responseFrame(f.Corr, apiKeys[10].Resp.encode(reflect.ValueOf(&resp), int(f.Ver))))
		default:
			c.write(responseFrame(f.Corr, []byte{0, 0}))
		}
	}
	conf := &tls.Config{RootCAs: ca.ca.pool, NextProtos: append(make([]string, 0, 4), "kafka"), MinVersion: tls.VersionTLS12, CipherSuites: append(make([]uint16, 0, 9), tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256)}
	bare := rng.IntN(2) == 0
	if bare { // what is left at its default may be filled in
		conf = &tls.Config{RootCAs: ca.ca.pool}
	}
	if rng.IntN(3) == 0 {
		conf.ServerName = "broker.test"
	}
	d := &net.Dialer{Timeout: 20 * time.Second, KeepAlive: time.Second, LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 9)}}
	if bare && rng.IntN(2) == 0 {
		d = &net.Dialer{}
	}
	opts := make([]kafka.Option, 0, 5)
	opts = append(opts, kafka.WithDialer(d))
	withTLS := rng.IntN(2) == 0
	if withTLS {
		srv.tlsConf = &tls.Config{Certificates: []tls.Certificate{ca.certs["good"+host]}, NextProtos: []string{"kafka"}}
		opts = append(opts, kafka.WithTLS(conf))
	}
	srv.start()
	down := newServer(host)
	down.ln.Close()
	bootstrap := make([]string, 0, 8)
	for i := rng.IntN(3); i > 0; i-- {
		bootstrap = append(bootstrap, down.Addr)
	}
	bootstrap = append(bootstrap, srv.Addr)
	bootstrap = append(bootstrap, []string{down.Addr, srv.Addr, "unused:1"}[:rng.IntN(4)]...)
	copy(bootstrap[:8][len(bootstrap):], []string{"spare", "spare", "spare", "spare", "spare", "spare", "spare"})

	type state struct {
		bootstrap []string
		topics    []string
		conf      map[string]any
		dialer    map[string]any
		opts      []uintptr
	}
	topics := append(make([]string, 0, 6), "t2", "t0", "t1", "t0")
	copy(topics[:6][4:], []string{"spare", "spare"})
	look := func() state {
		s := state{bootstrap: slices.Clone(bootstrap[:8]), topics: slices.Clone(topics[:6]), conf: exported(conf), dialer: exported(d)}
		for _, o := range opts[:5] {
			s.opts = append(s.opts, reflect.ValueOf(o).Pointer())
		}
		return s
	}
	before := look()
	compare := func(when string) {
		if now := look(); !reflect.DeepEqual(before, now) {
			r.Violation("what a client was given has been modified "+when, "was %+v\n is %+v", before, now)
		}
		r.Count("client_arguments_compared", 1)
	}
	cl := kafka.NewClient(bootstrap, opts...)
	var wg, watch sync.WaitGroup
	var over atomic.Bool
	watch.Add(1)
	go func() {
		defer watch.Done()
		for !over.Load() {
			compare("while calls run")
			time.Sleep(200 * time.Microsecond)
		}
	}()
	ctx := context.Background()
	for g := 0; g < 5; g++ {
		grng := rand.New(rand.NewPCG(rng.Uint64(), uint64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3; i++ {
				var b *kafka.Broker
				var err error
				switch grng.IntN(6) {
				case 0:
					_, err = cl.Metadata(ctx, topics...)
				case 1:
					b, err = cl.DialController(ctx)
				case 2:
					b, err = cl.DialLeader(ctx, topics[grng.IntN(4)], 0)
				case 3:
					b, err = cl.DialGroupCoordinator(ctx, "g")
				case 4:
					b, err = kafka.NewBroker(srv.Addr, opts...)
					if err != nil {
						r.Violation("connecting to a well-behaved broker failed", "%v", err)
					}
				case 5:
					b, err = kafka.NewBroker(down.Addr, opts...)
					if err == nil {
						r.Violation("connecting to an address nobody listens at succeeded", "%s", down.Addr)
					}
					err = nil
				}
				if err != nil && !spoil {
					r.Violation("a client operation failed although the cluster is well", "%v", err)
				}
				if b != nil {
					b.Close()
				}
				r.Count("client_operations", 1)
			}
		}()
	}
	r.awaitAll(&wg, "a client operation never returned", func() string { return "" })
	over.Store(true)
	watch.Wait()
	compare("afterwards")
	srv.stop()
	return fmt.Sprint("client bare ", bare, " TLS ", withTLS, " spoiled ", spoil, " bootstrap ", len(bootstrap))
}

// exported copies the exported fields of a struct, functions as pointers.
func exported(p any) map[string]any {
	v := reflect.ValueOf(p).Elem()
	out := map[string]any{}
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.PkgPath != "" {
			continue
		}
		switch x := v.Field(i); x.Kind() {
		case reflect.Func, reflect.Pointer, reflect.Map, reflect.Chan:
			out[f.Name] = x.Pointer()
			if a, ok := x.Interface().(fmt.Stringer); ok && !x.IsNil() {
				out[f.Name+" value"] = a.String()
			}
		case reflect.Slice:
			if x.IsNil() {
				out[f.Name] = nil
				continue
			}
			full := reflect.MakeSlice(x.Type(), x.Cap(), x.Cap())
			reflect.Copy(full, x.Slice(0, x.Cap()))
			out[f.Name] = full.Interface()
			out[f.Name+" length"] = x.Len()
		case reflect.Interface:
			if a, ok := x.Interface().(fmt.Stringer); ok {
				out[f.Name] = a.String()
			} else {
				out[f.Name] = x.IsNil()
			}
		default:
			out[f.Name] = x.Interface()
		}
	}
	return out
}

// codecArguments: encoding and decoding leave values and input alone and keep nothing.
func (r *Run) codecArguments(m *Msg, ver int, rng *rand.Rand) {
	for k := 0; k < r.N(6, 200); k++ {
		g := newGen(rng, true)
		g.budget = 300
		v := g.New(m)
		roomy(v.Elem())
		want, err := libEncode(v, ver)
		if err != nil {
			r.Violation("encoding to a working stream failed", "%s v%d: %v", m.Name, ver, err)
		}
		before := whole(v.Elem())
		var sink bytes.Buffer
		bw := bufio.NewWriterSize(&sink, []int{16, 4096, 100_000}[k%3])
		e := message.NewEncoder(bw)
		v.Interface().(libMessage).Encode(e, int16(ver))
		if !same(before, whole(v.Elem())) {
			r.Violation("encoding modifies the message", "%s v%d: was %s, is %s", m.Name, ver, short(before.Interface()), short(v.Interface()))
		}
		v.Interface().(libMessage).Size(int16(ver))
		if !same(before, whole(v.Elem())) {
			r.Violation("taking the size modifies the message", "%s v%d: was %s, is %s", m.Name, ver, short(before.Interface()), short(v.Interface()))
		}
		ruin(v.Elem())
		if err := e.Flush(); err != nil || !bytes.Equal(sink.Bytes(), want) {
			r.Violation("what has been encoded changes when the message is reused before it is flushed", "%s v%d: %v\n got %s\nwant %s", m.Name, ver, err, hx(sink.Bytes()), hx(want))
		}
		// decoding reads its input
		input := append(make([]byte, 0, len(want)+40), want...)
		tail := input[len(input):cap(input)]
		for i := range tail {
			tail[i] = 0xA5
		}
		copyOf := slices.Clone(input[:cap(input)])
		lengths := []int{len(input), rng.IntN(len(input) + 1)} // also too short
		for _, n := range lengths {
			out := m.New()
			out.Interface().(libMessage).Decode(message.NewDecoder(input[:n], n), int16(ver))
			if !bytes.Equal(copyOf, input[:cap(input)]) {
				r.Violation("decoding modifies its input", "%s v%d", m.Name, ver)
			}
		}
		r.Count("codec_values", 1)
		r.Case(len(want) > 0, fp(m.Name, ver, want))
	}
}

func (r *Run) batchArguments(rng *rand.Rand, i int) {
	b := genBatch(rng, i)
	for j := range b.Records {
		roomy(reflect.ValueOf(&b.Records[j].Key).Elem())
		roomy(reflect.ValueOf(&b.Records[j].Value).Elem())
	}
	recs := append(make([]kafka.Message, 0, len(b.Records)+2), b.Records...)
	b.Records = recs
	look := func() string { return fmt.Sprintf("%+v", b) + fmt.Sprintf("%+v", b.Records[:cap(b.Records)]) }
	bytesOf := func() (out [][]byte) {
		for _, m := range b.Records {
			out = append(out, slices.Clone(m.Key[:cap(m.Key)]), slices.Clone(m.Value[:cap(m.Value)]))
		}
		return
	}
	before, beforeBytes := look(), bytesOf()
	var want bytes.Buffer
	e := message.NewEncoder(&want)
	b.Encode(e, 2)
	if e.Flush() != nil {
		r.Violation("encoding to a working stream failed", "record batch")
	}
	var sink bytes.Buffer
	e = message.NewEncoder(bufio.NewWriterSize(&sink, 1<<20))
	b.Size(2)
	b.Encode(e, 2)
	if look() != before || !reflect.DeepEqual(beforeBytes, bytesOf()) {
		r.Violation("encoding modifies a record batch", "was %s\n is %s", clip(before, 2000), clip(look(), 2000))
	}
	for _, m := range b.Records {
		for _, x := range [][]byte{m.Key, m.Value} {
			for j := range x {
				x[j] ^= 0xff
			}
		}
	}
	for j := range b.Records {
		b.Records[j] = kafka.Message{}
	}
	if e.Flush() != nil {
		r.Violation("encoding to a working stream failed", "record batch")
	}
	// the order of the headers of a map is free
	pw, ew := parseBatch(want.Bytes())
	pg, eg := parseBatch(sink.Bytes())
	sortHeaders(&pw)
	sortHeaders(&pg)
	if want.Len() != sink.Len() || ew != nil || eg != nil || !reflect.DeepEqual(pw, pg) {
		r.Violation("what has been encoded changes when a record batch is reused before it is flushed", "%v %v\n got %s\nwant %s", ew, eg, hx(sink.Bytes()), hx(want.Bytes()))
	}
	r.Count("record_batches", 1)
}

func sortHeaders(p *parsedBatch) {
	for i := range p.records {
		slices.SortFunc(p.records[i].headers, func(a, b [2]string) int {
			if a[0] != b[0] {
				if a[0] < b[0] {
					return -1
				}
				return 1
			}
			if a[1] < b[1] {
				return -1
			}
			return 1
		})
	}
}

// ringArguments: a ring keeps neither what it is given nor what it fills.
func (r *Run) ringArguments(rng *rand.Rand) {
	size := 2 + rng.IntN(60)
	b := ring.New(size)
	total := 3000
	key := rng.Uint64()
	var wg sync.WaitGroup
	wg.Add(2)
	wrng, rrng := rand.New(rand.NewPCG(rng.Uint64(), 1)), rand.New(rand.NewPCG(rng.Uint64(), 2))
	go func() {
		defer wg.Done()
		buf := make([]byte, 200)
		for pos := 0; pos < total; {
			n := min(total-pos, 1+wrng.IntN(150))
			for i := range buf {
				buf[i] = 0xEE
			}
			for i := 0; i < n; i++ {
				buf[i] = streamByte(key, pos+i)
			}
			snap := slices.Clone(buf)
			if err := b.WriteN(buf, n); err != nil {
				r.Violation("writing to an open ring failed", "%v", err)
			}
			if !bytes.Equal(snap, buf) {
				r.Violation("writing to a ring modifies the bytes given", "ring of %d, %d bytes", size, n)
			}
			for i := range buf {
				buf[i] = 0x11
			}
			pos += n
		}
	}()
	go func() {
		defer wg.Done()
		var kept [][]byte
		for pos := 0; pos < total; {
			n := min(total-pos, 1+rrng.IntN(150))
			buf := make([]byte, n+10)
			for i := range buf {
				buf[i] = 0x77
			}
			if err := b.ReadN(buf, n); err != nil {
				r.Violation("reading from an open ring failed", "%v", err)
			}
			for i := range buf {
				w := byte(0x77)
				if i < n {
					w = streamByte(key, pos+i)
				}
				if buf[i] != w {
					r.Violation("a ring delivers other bytes than it was given", "ring of %d, byte %d of a read of %d at %d: %#x instead of %#x", size, i, n, pos, buf[i], w)
				}
			}
			kept = append(kept, slices.Clone(buf), buf)
			pos += n
		}
		for i := 0; i < len(kept); i += 2 {
			if !bytes.Equal(kept[i], kept[i+1]) {
				r.Violation("a ring modifies a buffer after it has returned it", "ring of %d", size)
			}
		}
	}()
	r.awaitAll(&wg, "a ring transfer never ended", func() string { return fmt.Sprint("ring of ", size) })
	b.Close()
	r.Count("ring_transfers", 1)
}

func checkC28(r *Run) {
	requireBindings(r)
	r.rule = "requests with spare capacity passed to calls by several goroutines at once (answered, unacknowledged, unanswered, malformed answers, connections cut, unencodable) and overwritten as soon as the calls have returned; options, TLS configurations, dialers, bootstrap and topic lists of clients; messages, record batches and rings reused before anything is flushed; distinct by calls and circumstances"
	ca := newTLSWorld()
	modes := []string{"answered", "unacknowledged", "cut", "no answer", "malformed answer", "too long"}
	for i := 0; i < r.N(150, 6000); i++ {
		rng := r.Rng("argument", i)
		mode := modes[i%len(modes)]
		r.Doing("case %d, %s", i, mode)
		info := r.argumentCase(rng, ca, mode)
		r.Case(true, fp(info, i))
		r.Sampled(func() any { return info })
	}
	for i := 0; i < r.N(25, 1000); i++ {
		r.Doing("client %d", i)
		info := r.clientArguments(r.Rng("client", i), ca)
		r.Case(true, fp(info, i))
	}
	r.Doing("rings")
	for i := 0; i < r.N(60, 2000); i++ {
		r.ringArguments(r.Rng("ring", i))
	}
	r.Doing("messages")
	r.Parallel(len(msgs), func(i int) {
		for ver := msgs[i].Min; ver <= msgs[i].Max; ver++ {
			r.codecArguments(msgs[i], ver, r.Rng("codec", i, ver))
		}
	})
	r.Doing("record batches")
	r.Parallel(r.N(800, 20000), func(i int) { r.batchArguments(r.Rng("batch", i), i) })
}
