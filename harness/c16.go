package main

import (
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/yield"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C16"] = checkC16 }

// eventually polls a condition for long enough that only something permanent fails it.
func eventually(cond func() bool) bool {
	for i := 0; i < 1200; i++ {
		if cond() {
			return true
		}
		if i < 50 {
			time.Sleep(200 * time.Microsecond)
		} else {
			time.Sleep(10 * time.Millisecond)
		}
	}
	return cond()
}

// soon waits a moment for something that need not come.
func soon(cond func() bool) {
	for i := 0; i < 100 && !cond(); i++ {
		time.Sleep(time.Millisecond)
	}
}

// libGoroutines returns the goroutines that run or were started by library code.
func libGoroutines() []string {
	s, _ := stacks()
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		for _, line := range strings.Split(g, "\n") {
			if strings.HasPrefix(line, libPath) || strings.HasPrefix(line, "created by "+libPath) {
				out = append(out, g)
				break
			}
		}
	}
	return out
}

// sockets counts the sockets the process has open.
func sockets() int {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range ents {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, "socket:") {
			n++
		}
	}
	return n
}

type heldBroker struct {
	b *kafka.Broker
	n *cnode
}

// releaseClient runs client operations on a cluster and counts connections at the nodes.
func (r *Run) releaseClient(rng *rand.Rand) string {
	cl := newCluster(r, rng)
	spoils := []string{"", "", "", "close", "reset", "half-close", "malformed", "bad length"}
	for _, n := range cl.nodes {
		n.spoil = spoils[rng.IntN(len(spoils))]
	}
	client := kafka.NewClient(cl.boot)
	var held []heldBroker
	trail := ""
	check := func(what string) {
		var wrong string
		ok := eventually(func() bool {
			wrong = ""
			for _, n := range cl.nodes {
				if n.srv == nil {
					continue
				}
				want := 0
				for _, h := range held {
					if h.n == n {
						want++
					}
				}
				if got := n.srv.openConns(); got != want {
					wrong += fmt.Sprintf("%d connections open at %s, %d handed out; ", got, n.addr(), want)
				}
			}
			return wrong == ""
		})
		if !ok {
			r.Violation("the connections open are not those handed to the caller", "after %s: %s\n%s", what, wrong, cl.describe())
		}
		r.Count("connection_counts_checked", 1)
	}
	ctx := context.Background()
	for k := 0; k < 8; k++ {
		var b *kafka.Broker
		var err error
		what := ""
		switch rng.IntN(6) {
		case 0:
			what = "DialController"
			b, err = client.DialController(ctx)
		case 1:
			what = "DialGroupCoordinator"
			b, err = client.DialGroupCoordinator(ctx, groupNames[rng.IntN(len(groupNames))])
		case 2:
			what = "DialLeader"
			topic, part := topicNames[rng.IntN(len(topicNames))], int32(rng.IntN(6))
			if i := cl.first(); i >= 0 && rng.IntN(3) > 0 {
				if ts := cl.bootN[i].view.meta.Topics; len(ts) > 0 {
					t := ts[rng.IntN(len(ts))]
					topic = t.Name
					if len(t.Partitions) > 0 {
						part = t.Partitions[rng.IntN(len(t.Partitions))].PartitionIndex
					}
				}
			}
			b, err = client.DialLeader(ctx, topic, part)
		case 3:
			what = "Metadata"
			_, err = client.Metadata(ctx, "t")
		case 4:
			what = "NewBroker"
			b, err = kafka.NewBroker(cl.nodes[rng.IntN(len(cl.nodes))].addr())
		default:
			what = "Close"
			if len(held) > 0 {
				i := rng.IntN(len(held))
				held[i].b.Close()
				held = append(held[:i], held[i+1:]...)
			}
		}
		if b != nil {
			// who is it connected to?
			member := fmt.Sprintf("m%d", uids.Add(1))
			if _, err := b.Heartbeat(message.HeartbeatRequest{MemberId: member}); err != nil {
				r.Violation("the broker returned is not usable", "%s: %v\n%s", what, err, cl.describe())
			}
			h := heldBroker{b: b}
			for _, n := range cl.nodes {
				n.mu.Lock()
				for _, m := range n.beats {
					if m == member {
						h.n = n
					}
				}
				n.mu.Unlock()
			}
			held = append(held, h)
		}
		out := "ok"
		if err != nil {
			out = "failed"
		}
		trail += what + " " + out + "; "
		r.Count(what+"_"+out, 1)
		check(what + " " + out)
	}
	for len(held) > 0 {
		held[0].b.Close()
		held = held[1:]
		check("Close")
	}
	// all nodes still run: whatever is left is a leak
	check("closing everything")
	cl.stop()
	return trail
}

// releaseBroker closes one broker or raw connection in some state.
func (r *Run) releaseBroker(rng *rand.Rand) string {
	srv := newServer("127.0.0.1")
	state := []string{"idle", "busy", "closed by broker", "reset by broker", "half-closed by broker", "partial frame", "unread data", "bad length", "malformed", "stalled writer"}[rng.IntN(10)]
	calls := rng.IntN(5)
	if state == "busy" || state == "malformed" {
		calls++
	}
	cutAt := rng.IntN(1000)
	started := make(chan struct{})
	acted := make(chan struct{})
	srv.raw = func(c *SConn) {
		f, err := c.readFrame()
		if err != nil {
			return
		}
		c.write(responseFrame(f.Corr, versionsBody(srv.ranges, int(f.Ver))))
		if state == "stalled writer" {
			close(acted)
			<-started
			time.Sleep(20 * time.Millisecond) // requests pile up unread
			for {
				var b [1 << 16]byte
				if _, err := c.Conn.Read(b[:]); err != nil {
					return
				}
			}
		}
		for i := 0; i < calls; i++ {
			f, err = c.readFrame()
			if err != nil {
				return
			}
		}
		switch state {
		case "closed by broker":
			c.Conn.Close()
		case "reset by broker":
			c.reset()
		case "half-closed by broker":
			endConn(c, "half-close")
		case "partial frame":
			b := responseFrame(f.Corr, make([]byte, 1+cutAt/10))
			c.write(b[:cutAt%(len(b)-1)+1])
		case "unread data": // far more than fits any buffer, in one unfinished frame
			b := make([]byte, 3_000_000)
			binary.BigEndian.PutUint32(b, 0x10000000)
			c.write(b)
		case "bad length":
			c.write([]byte{0x80, 0, 0, 1, 0, 0, 0})
		case "malformed":
			c.write(responseFrame(f.Corr, []byte{1}))
		}
		close(acted)
		for {
			if _, err := c.readFrame(); err != nil {
				return
			}
		}
	}
	srv.start()
	var wg sync.WaitGroup
	b, err := kafka.NewBroker(srv.Addr)
	if err != nil {
		r.Violation("connecting to a well-behaved broker failed", "%v", err)
	}
	for i := 0; i < calls; i++ {
		wg.Add(1)
		big := state == "stalled writer"
		go func() {
			defer wg.Done()
			if big {
				b.Produce(message.ProduceRequest{Acks: 1, Topics: []message.TopicProduceData0{{Name: "t", Partitions: []message.PartitionProduceData0{{Records: make([]byte, 9_000_000)}}}}})
				return
			}
			b.Heartbeat(message.HeartbeatRequest{MemberId: "m"})
		}()
	}
	close(started)
	early := rng.IntN(4) == 0
	if !early {
		<-acted
		time.Sleep(time.Duration(rng.IntN(500)) * time.Microsecond)
	}
	for i := 1 + rng.IntN(3); i > 0; i-- {
		wg.Add(1)
		go func() { defer wg.Done(); b.Close() }()
	}
	wg.Wait()
	b.Close()
	if !eventually(func() bool { return srv.openConns() == 0 }) {
		r.Violation("a connection stays open after closing the broker", "state: %s, %d calls", state, calls)
	}
	srv.stop()
	r.Count("closed "+state, 1)
	return fmt.Sprint("broker ", state, calls, early)
}

// releaseConn does the same for Connect and for failing negotiations.
func (r *Run) releaseConn(rng *rand.Rand) string {
	srv := newServer("127.0.0.1")
	mode := []string{"raw", "incompatible", "truncated", "bad length", "closing", "resetting", "half-closing"}[rng.IntN(7)]
	if mode == "incompatible" {
		at := rng.IntN(len(srv.ranges))
		srv.ranges[at] = badRange(rng, apiKeys[srv.ranges[at].key])
	}
	cutAt := rng.IntN(1000)
	srv.versions = func(c *SConn, f *Frame) {
		b := versionsBody(srv.ranges, int(f.Ver))
		switch mode {
		case "truncated":
			b = b[:cutAt%len(b)]
		case "bad length":
			c.write([]byte{0xff, 0xff, 0xff, 0xff})
			return
		case "closing":
			c.Conn.Close()
			return
		case "resetting":
			c.reset()
			return
		case "half-closing":
			endConn(c, "half-close")
			return
		}
		c.write(responseFrame(f.Corr, b))
	}
	srv.start()
	if mode == "raw" {
		c, err := kafka.Connect(srv.Addr)
		if err != nil {
			r.Violation("connecting to a well-behaved broker failed", "%v", err)
		}
		c.Close()
		c.Close()
	} else {
		if b, err := kafka.NewBroker(srv.Addr); err == nil {
			r.Violation("connecting succeeded with an unusable broker", "%s", mode)
			b.Close()
		}
	}
	if !eventually(func() bool { return srv.openConns() == 0 }) {
		r.Violation("a connection stays open", "after a connection attempt: %s", mode)
	}
	srv.stop()
	r.Count("connect "+mode, 1)
	return "connect " + mode
}

// tlsListener serves TLS, or fails to in some way, and watches the TCP connection itself:
// it counts as open until the client has closed it, whatever became of the handshake.
func (r *Run) tlsListener(w *tlsWorld, mode string) *Server {
	srv := newServer("127.0.0.1")
	conf := &tls.Config{Certificates: []tls.Certificate{w.certs["good127.0.0.1"]}}
	switch mode {
	case "other ca":
		conf.Certificates = []tls.Certificate{w.certs["other ca127.0.0.1"]}
	case "other name":
		conf.Certificates = []tls.Certificate{w.certs["other name127.0.0.1"]}
	case "wants client":
		conf.ClientAuth, conf.ClientCAs = tls.RequireAndVerifyClientCert, w.ca.pool
	case "old":
		conf.MaxVersion = tls.VersionTLS12
	}
	srv.raw = func(c *SConn) {
		var b [4096]byte
		switch mode {
		case "mute":
		case "garbage":
			c.Conn.Read(b[:])
			c.Conn.Write([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
		case "closing":
			c.Conn.Read(b[:])
			return
		case "resetting":
			c.Conn.Read(b[:])
			c.reset()
			return
		default:
			hs := tls.Server(c.Conn, conf)
			if hs.Handshake() == nil {
				sc := &SConn{Conn: hs, srv: srv, open: true}
				if mode == "incompatible" {
					sc.srv.versions = func(c *SConn, f *Frame) {
						c.write(responseFrame(f.Corr, versionsBody([]apiRange{{3, 90, 99}}, int(f.Ver))))
					}
				}
				sc.serve()
			}
		}
		for {
			if _, err := c.Conn.Read(b[:]); err != nil {
				return
			}
		}
	}
	return srv.start()
}

// releaseTLS connects over TLS to peers with which the handshake does or does not succeed.
func (r *Run) releaseTLS(w *tlsWorld, rng *rand.Rand) string {
	mode := []string{"good", "other ca", "other name", "wants client", "old", "mute", "garbage", "closing", "resetting", "incompatible"}[rng.IntN(10)]
	srv := r.tlsListener(w, mode)
	conf := &tls.Config{RootCAs: w.ca.pool}
	if mode == "old" {
		conf.MinVersion = tls.VersionTLS13
	}
	opts := []kafka.Option{kafka.WithTLS(conf)}
	if mode == "mute" {
		opts = append(opts, kafka.WithDialer(&net.Dialer{Timeout: 60 * time.Millisecond}))
	} else if rng.IntN(2) == 0 {
		opts = append(opts, kafka.WithDialer(&net.Dialer{}))
	}
	var backup *Server
	what := ""
	outcome := false
	switch rng.IntN(4) {
	case 0:
		what = "Connect"
		c, err := kafka.Connect(srv.Addr, opts...)
		if outcome = err == nil; outcome {
			c.Close()
		}
	case 1:
		what = "NewBroker"
		b, err := kafka.NewBroker(srv.Addr, opts...)
		if outcome = err == nil; outcome {
			b.Close()
		}
	case 2:
		what = "Metadata"
		client := kafka.NewClient([]string{srv.Addr, srv.Addr}, opts...)
		if mode == "good" {
			b, err := kafka.NewBroker(srv.Addr, opts...)
			if outcome = err == nil; outcome {
				b.Close()
			}
			break
		}
		_, err := client.Metadata(context.Background())
		outcome = err == nil
	default:
		// the leader is the odd one, the bootstrap broker is fine
		what = "DialController"
		backup = newServer("127.0.0.1")
		backup.tlsConf = &tls.Config{Certificates: []tls.Certificate{w.certs["good127.0.0.1"]}}
		meta := message.MetadataResponse{ControllerId: 1, Brokers: []message.MetadataResponseBroker3{{NodeId: 1, Host: srv.Host, Port: srv.Port}}}
		backup.handle = func(c *SConn, f *Frame) {
			c.write(responseFrame(f.Corr, msgMap["MetadataResponse"].encode(reflect.ValueOf(&meta), int(f.Ver))))
		}
		backup.start()
		b, err := kafka.NewClient([]string{backup.Addr}, opts...).DialController(context.Background())
		if outcome = err == nil; outcome {
			b.Close()
		}
	}
	desc := fmt.Sprintf("TLS %s with peer %q, succeeded: %v", what, mode, outcome)
	for _, s := range []*Server{srv, backup} {
		if s == nil {
			continue
		}
		if !eventually(func() bool { return s.openConns() == 0 }) {
			r.Violation("a connection stays open", "after %s", desc)
		}
		s.stop()
	}
	r.Count("tls "+mode, 1)
	return desc
}

// lingering returns the library goroutines delayed at an injected point, without those
// in a call of the harness.
func lingering() []string {
	var out []string
	for _, g := range libGoroutines() {
		if strings.Contains(g, "yield.Point(") && strings.Contains(g, "created by "+libPath) {
			out = append(out, g)
		}
	}
	return out
}

// closedMeansEnded: when closing has returned, or connecting has failed, nothing that
// serves the connection still runs.  Each point of the library passed while closing is
// delayed in turn; as one or two statements may follow the signal that a goroutine has
// ended, it takes more of them to tell.
func (r *Run) closedMeansEnded() {
	if yield.Sites() == 0 {
		return
	}
	srv := newServer("127.0.0.1")
	var arrived atomic.Int64
	srv.handle = func(c *SConn, f *Frame) {
		if f.Key == 12 { // part of a response
			c.write(responseFrame(f.Corr, []byte{0, 0})[:9])
		}
		arrived.Add(1)
	}
	srv.start()
	refuse := newServer("127.0.0.1")
	refuse.versions = func(c *SConn, f *Frame) {
		c.write(responseFrame(f.Corr, versionsBody([]apiRange{{3, 900, 901}}, int(f.Ver))))
	}
	refuse.start()
	sites := []int{-1}
	found := map[int]string{}
	for at := 0; at < len(sites); at++ {
		site := sites[at]
		r.Doing("goroutines left by closing, point %d", site)
		var closers []func()
		var calls sync.WaitGroup
		for k := 0; k < 4; k++ {
			b := r.dialBroker(srv.Addr)
			for range k {
				calls.Add(1)
				before := arrived.Load()
				go func() {
					defer calls.Done()
					if k%2 == 0 {
						b.Heartbeat(message.HeartbeatRequest{})
					} else {
						b.LeaveGroup(message.LeaveGroupRequest{})
					}
				}()
				eventually(func() bool { return arrived.Load() > before })
			}
			closers = append(closers, func() { b.Close() })
		}
		closers = append(closers, func() {
			if b, err := kafka.NewBroker(refuse.Addr); err == nil {
				b.Close() // another property's business
			}
		})
		counts := yield.Counts()
		for i, fn := range closers {
			if i == len(closers)-1 && site >= 0 && counts[site] > uint32(50000) {
				continue // a point in a loop over bytes
			}
			yield.Set(0, 0, 1, site, 1, 30*time.Millisecond)
			done := make(chan struct{})
			go func() { defer close(done); fn() }()
			r.await(done, "closing never returned", func() string { return fmt.Sprint("point ", site) })
			if left := lingering(); len(left) > 0 && site >= 0 {
				if _, ok := found[site]; !ok {
					found[site] = fmt.Sprintf("connection %d:\n%s", i, left[0])
				}
			}
			eventually(func() bool { return len(libGoroutines()) <= 40 })
		}
		calls.Wait()
		calm()
		eventually(func() bool { return len(libGoroutines()) == 0 })
		if site < 0 {
			for i, n := range yield.Counts() {
				if n > counts[i] && i < yield.Sites() && n-counts[i] < 3000 {
					sites = append(sites, i)
				}
			}
		}
		r.Count("points_delayed_while_closing", 1)
	}
	r.Max("points_at_which_a_goroutine_outlived_its_close", int64(len(found)))
	if len(found) > 3 {
		for _, g := range found {
			r.Violation("closing returns while goroutines serving the connection still run", "at %d points, one: %s", len(found), g)
		}
	}
	r.Case(true, fp("closed means ended"))
	srv.stop()
	refuse.stop()
}

func checkC16(r *Run) {
	requireBindings(r)
	r.rule = "client operations on random clusters with faults at every stage, brokers closed in every state, failing negotiations; after each operation the connections open at the simulated brokers, after each batch the goroutines of the library and the sockets of the process; distinct by trail of operations and outcomes"
	base := sockets()
	const batch = 8
	for at := 0; at < r.N(90, 4000); at++ {
		profile := perturb(r.Rng("perturb", at))
		r.Doing("batch %d, perturbation %s", at, profile)
		var wg sync.WaitGroup
		for k := 0; k < batch; k++ {
			rng := r.Rng("scenario", at, k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				var info string
				switch k % 4 {
				case 0, 1:
					info = r.releaseClient(rng)
				case 2:
					info = r.releaseBroker(rng)
				default:
					info = r.releaseConn(rng)
				}
				r.Case(true, fp(info))
				r.Sampled(func() any { return info })
			}()
		}
		r.awaitAll(&wg, "an operation or close never returned", func() string { return "" })
		var left []string
		if !eventually(func() bool { left = libGoroutines(); return len(left) == 0 }) {
			r.Violation("goroutines of the library outlive their closed brokers", "%d left, the first:\n%s", len(left), left[0])
		}
		var now int
		if !eventually(func() bool { now = sockets(); return now <= base }) {
			r.Violation("sockets stay open after everything was closed", "%d sockets open, %d at first", now, base)
		}
		r.Count("goroutine_and_socket_checks", 1)
	}
	calm()
	r.closedMeansEnded()
	// TLS, with the collector off: it must not be what closes a forgotten connection
	w := newTLSWorld()
	gc := debug.SetGCPercent(-1)
	for at := 0; at < r.N(12, 300); at++ {
		r.Doing("TLS batch %d", at)
		var wg sync.WaitGroup
		for k := 0; k < batch; k++ {
			rng := r.Rng("tls", at, k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				info := r.releaseTLS(w, rng)
				r.Case(true, fp(info))
				r.Sampled(func() any { return info })
			}()
		}
		r.awaitAll(&wg, "an operation or close never returned", func() string { return "over TLS" })
		var left []string
		if !eventually(func() bool { left = libGoroutines(); return len(left) == 0 }) {
			r.Violation("goroutines of the library outlive their closed brokers", "%d left, the first:\n%s", len(left), left[0])
		}
		var now int
		if !eventually(func() bool { now = sockets(); return now <= base }) {
			r.Violation("sockets stay open after everything was closed", "over TLS: %d sockets open, %d at first", now, base)
		}
		r.Count("goroutine_and_socket_checks", 1)
		runtime.GC()
	}
	debug.SetGCPercent(gc)
	r.yieldStats()
}
