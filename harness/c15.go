package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net"
	"reflect"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C15"] = checkC15 }

// view is what one broker believes about the cluster.
type view struct {
	meta   message.MetadataResponse
	groups map[string]message.FindCoordinatorResponse
}

// cnode is one machine of a simulated cluster.
type cnode struct {
	srv   *Server
	id    int32
	host  string
	port  int32
	dead  bool
	broke bool // accepts connections but is of no use
	view  *view
	vers  map[int16]int
	mu    sync.Mutex
	asked []*Frame // metadata and coordinator requests
	beats []string // members seen in heartbeats
	spoil string   // what happens to lookups, if they are not answered
}

func (n *cnode) addr() string { return net.JoinHostPort(n.host, fmt.Sprint(n.port)) }

type cluster struct {
	r     *Run
	rng   *rand.Rand
	nodes []*cnode
	boot  []string
	bootN []*cnode // nil: an address nobody can be reached at
}

var deadHosts = []string{"127.9.9.1", "127.9.9.2", "127.9.9.3"}

var ipv6 = func() bool {
	ln, err := net.Listen("tcp", "[::1]:0")
	if err == nil {
		ln.Close()
	}
	return err == nil
}()

// localhost by name, if it leads to the IPv4 loopback
var localhost = func() bool {
	as, err := net.LookupHost("localhost")
	for _, a := range as {
		if a == "127.0.0.1" {
			return err == nil
		}
	}
	return false
}()

// setUp decides the versions a node speaks and, if it is of no use, why.
func (n *cnode) setUp(rng *rand.Rand) {
	n.srv.mu.Lock()
	defer n.srv.mu.Unlock()
	n.vers = map[int16]int{}
	for _, a := range apis {
		n.vers[a.Key] = rng.IntN(a.LibMax + 1)
	}
	ranges := pinned(func(a *API) int { return n.vers[a.Key] })
	kind := -1
	if n.broke {
		kind = rng.IntN(4)
	}
	if kind == 0 { // no version in common
		at := rng.IntN(len(ranges))
		ranges[at] = badRange(rng, apiKeys[ranges[at].key])
	}
	n.srv.ranges = ranges
	n.srv.raw = nil
	switch kind {
	case 1: // accepts and closes
		n.srv.raw = func(c *SConn) {}
	case 2: // not a broker
		n.srv.raw = func(c *SConn) {
			c.readFrame()
			c.write([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
		}
	case 3: // truncated negotiation
		n.srv.raw = func(c *SConn) {
			f, err := c.readFrame()
			if err == nil {
				b := versionsBody(ranges, int(f.Ver))
				c.write(responseFrame(f.Corr, b[:len(b)/2]))
				c.readFrame()
			}
		}
	}
}

func (n *cnode) start(r *Run, rng *rand.Rand) {
	n.setUp(rng)
	n.srv.handle = func(c *SConn, f *Frame) {
		switch f.Key {
		case 3, 10:
			n.mu.Lock()
			n.asked = append(n.asked, f)
			spoil := n.spoil
			n.mu.Unlock()
			switch spoil {
			case "close":
				c.Conn.Close()
				return
			case "reset":
				c.reset()
				return
			case "half-close":
				endConn(c, "half-close")
				return
			case "malformed":
				c.write(responseFrame(f.Corr, []byte{0, 0, 0}))
				return
			case "bad length":
				c.write([]byte{0xff, 0xff, 0xff, 0xf0, 0, 0})
				return
			}
		}
		switch f.Key {
		case 3:
			c.write(responseFrame(f.Corr, apiKeys[3].Resp.encode(reflect.ValueOf(&n.view.meta), int(f.Ver))))
		case 10:
			req := message.FindCoordinatorRequest{}
			if err := req.Decode(message.NewDecoder(f.Body, len(f.Body)), f.Ver); err != nil {
				r.Violation("a coordinator request cannot be decoded", "%v: %s", err, hx(f.Body))
			}
			resp, ok := n.view.groups[req.Key]
			if !ok {
				resp = message.FindCoordinatorResponse{ErrorCode: 15, NodeId: -1, Host: "", Port: -1}
			}
			c.write(responseFrame(f.Corr, apiKeys[10].Resp.encode(reflect.ValueOf(&resp), int(f.Ver))))
		case 12:
			req := message.HeartbeatRequest{}
			if err := req.Decode(message.NewDecoder(f.Body, len(f.Body)), f.Ver); err != nil {
				r.Violation("a heartbeat cannot be decoded", "%v: %s", err, hx(f.Body))
			}
			n.mu.Lock()
			n.beats = append(n.beats, req.MemberId)
			n.mu.Unlock()
			c.write(responseFrame(f.Corr, apiKeys[12].Resp.encode(reflect.ValueOf(&message.HeartbeatResponse{}), int(f.Ver))))
		}
	}
	n.srv.start()
}

func newCluster(r *Run, rng *rand.Rand) *cluster {
	cl := &cluster{r: r, rng: rng}
	size := 1 + rng.IntN(6)
	ids := map[int32]bool{}
	for i := 0; i < size; i++ {
		n := &cnode{}
		for {
			n.id = int32(rng.IntN(size * 2))
			switch rng.IntN(8) {
			case 0:
				n.id = 2147483647 - int32(rng.IntN(3))
			case 1:
				n.id = int32(rng.IntN(2000)) + 256
			case 2:
				if len(dictInts) > 0 {
					n.id = max(0, int32(dictInts[rng.IntN(len(dictInts))]))
				}
			case 3, 4: // ids that are the same in a narrower type
				if i > 0 {
					n.id = cl.nodes[rng.IntN(i)].id ^ int32(1)<<[]int{7, 8, 15, 16, 24, 30}[rng.IntN(6)]
				}
			}
			if !ids[n.id] {
				break
			}
		}
		ids[n.id] = true
		n.host = fmt.Sprintf("127.0.0.%d", 1+rng.IntN(6))
		if ipv6 && rng.IntN(4) == 0 {
			n.host = "::1"
		}
		switch {
		case rng.IntN(8) == 0:
			n.dead = true
			n.host, n.port = deadHosts[rng.IntN(len(deadHosts))], int32(1+rng.IntN(65535))
		default:
			n.broke = rng.IntN(8) == 0
			n.srv = newServer(n.host)
			n.port = n.srv.Port
			if n.host == "127.0.0.1" && localhost && rng.IntN(2) == 0 {
				n.host = "localhost"
			}
		}
		cl.nodes = append(cl.nodes, n)
	}
	for _, n := range cl.nodes { // a port that does not exist but is another's in a narrower type
		if o := cl.nodes[rng.IntN(size)]; n.dead && !o.dead && rng.IntN(2) == 0 {
			n.host, n.port = o.host, []int32{o.port + 1<<16, o.port + 1<<20, o.port - 1<<16, -o.port, o.port | -1<<31}[rng.IntN(5)]
			r.Count("ports_out_of_range", 1)
		}
	}
	for _, n := range cl.nodes {
		n.view = cl.newView(n)
		if !n.dead {
			n.start(r, rng)
		}
	}
	// bootstrap list
	for k := rng.IntN(5); k >= 0; k-- {
		switch rng.IntN(6) {
		case 0:
			cl.boot = append(cl.boot, []string{"", "127.0.0.1", "127.9.9.1:1", "127.9.9.2:9092", "[::1", "127.0.0.1:-1", "::1:9092", "127.0.0.1:70000"}[rng.IntN(8)])
			cl.bootN = append(cl.bootN, nil)
		default:
			n := cl.nodes[rng.IntN(len(cl.nodes))]
			cl.boot = append(cl.boot, n.addr())
			if n.dead {
				n = nil
			}
			cl.bootN = append(cl.bootN, n)
		}
	}
	if rng.IntN(12) == 0 { // many addresses, few of them reachable
		n := []int{8, 10, 12, 16, 17, 33, 50, 65, 100, 130, 257, 300}[rng.IntN(12)]
		var dead []string
		for i := 0; i < n; i++ {
			dead = append(dead, fmt.Sprintf("127.9.%d.%d:%d", 1+i/200, 1+i%200, 1+rng.IntN(9)))
		}
		at := rng.IntN(len(cl.boot) + 1)
		if rng.IntN(3) > 0 {
			at = 0
		}
		cl.boot = slices.Insert(cl.boot, at, dead...)
		cl.bootN = slices.Insert(cl.bootN, at, make([]*cnode, n)...)
		r.Count("long_bootstrap_lists", 1)
	}
	return cl
}

var topicNames = []string{"t", "T", "t1", "t10", "orders", "orders-2", "\u00e9t\u00e9", "", "a b"}
var groupNames = []string{"g", "G", "g1", "group", "group-2", ""}

func (cl *cluster) newView(self *cnode) *view {
	rng := cl.rng
	v := &view{groups: map[string]message.FindCoordinatorResponse{}}
	known := []*cnode{}
	for _, n := range cl.nodes {
		if n == self || rng.IntN(6) > 0 {
			known = append(known, n)
		}
	}
	rng.Shuffle(len(known), func(i, j int) { known[i], known[j] = known[j], known[i] })
	for _, n := range known {
		v.meta.Brokers = append(v.meta.Brokers, message.MetadataResponseBroker3{NodeId: n.id, Host: n.host, Port: n.port, Rack: []string{"r", "", "rack-2"}[rng.IntN(3)]})
	}
	if rng.IntN(25) == 0 { // a large cluster, most of it unreachable
		for i := 0; i < 300; i++ {
			v.meta.Brokers = append(v.meta.Brokers, message.MetadataResponseBroker3{NodeId: int32(1_000_000 + i), Host: deadHosts[i%3], Port: int32(1 + i)})
		}
		rng.Shuffle(len(v.meta.Brokers), func(i, j int) {
			v.meta.Brokers[i], v.meta.Brokers[j] = v.meta.Brokers[j], v.meta.Brokers[i]
		})
	}
	v.meta.ThrottleTimeMs = int32(rng.IntN(2) * rng.IntN(1000))
	pick := func() int32 {
		switch rng.IntN(7) {
		case 0:
			return -1
		case 1:
			return []int32{0, 1, 5, 2147483647, -2}[rng.IntN(5)]
		}
		return cl.nodes[rng.IntN(len(cl.nodes))].id
	}
	v.meta.ClusterId = []string{"c", "", "lkc-1"}[rng.IntN(3)]
	v.meta.ControllerId = pick()
	names := append([]string{}, topicNames...)
	if rng.IntN(25) == 0 {
		for i := 0; i < 300; i++ {
			names = append(names, fmt.Sprint("many-", i))
		}
	}
	rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, name := range names[:rng.IntN(len(names)+1)] {
		t := message.MetadataResponseTopic3{Name: name, IsInternal: rng.IntN(4) == 0}
		if rng.IntN(8) == 0 {
			t.ErrorCode = 3
		} else {
			parts := rng.Perm(6)[:rng.IntN(7)]
			if rng.IntN(40) == 0 {
				parts = rng.Perm(300)
			}
			if len(parts) > 0 && rng.IntN(4) == 0 { // the same in a narrower type
				for k := 1 + rng.IntN(3); k > 0; k-- {
					p := parts[rng.IntN(len(parts))] ^ 1<<[]int{7, 8, 15, 16, 24, 30}[rng.IntN(6)]
					if !slices.Contains(parts, p) {
						parts = slices.Insert(parts, rng.IntN(len(parts)+1), p)
					}
				}
			}
			for _, p := range parts {
				pp := message.MetadataResponsePartition3{PartitionIndex: int32(p), LeaderId: pick(), LeaderEpoch: int32(rng.IntN(5))}
				for _, n := range cl.nodes {
					pp.ReplicaNodes = append(pp.ReplicaNodes, n.id)
					pp.IsrNodes = append(pp.IsrNodes, n.id)
				}
				if pp.LeaderId < 0 {
					pp.ErrorCode = 5
				} else if rng.IntN(6) == 0 {
					pp.ErrorCode = 9 // a replica is not available; there is a leader
					pp.OfflineReplicas = []int32{pp.ReplicaNodes[0]}
				}
				t.Partitions = append(t.Partitions, pp)
			}
		}
		v.meta.Topics = append(v.meta.Topics, t)
	}
	for _, g := range groupNames {
		if rng.IntN(5) > 0 {
			n := cl.nodes[rng.IntN(len(cl.nodes))]
			v.groups[g] = message.FindCoordinatorResponse{NodeId: n.id, Host: n.host, Port: n.port}
		}
	}
	return v
}

func (cl *cluster) stop() {
	for _, n := range cl.nodes {
		if n.srv != nil {
			n.srv.stop()
		}
	}
}

// first is the position of the first usable bootstrap address.
func (cl *cluster) first() int {
	for i, n := range cl.bootN {
		if n != nil && !n.broke {
			return i
		}
	}
	return -1
}

func (cl *cluster) byID(v *view, id int32) *cnode {
	for _, b := range v.meta.Brokers {
		if b.NodeId == id {
			for _, n := range cl.nodes {
				if n.host == b.Host && n.port == b.Port {
					return n
				}
			}
		}
	}
	return nil
}

type contact struct {
	n     *cnode
	order int64
}

// contacts lists the connections accepted since mark, in order.
func (cl *cluster) contacts(mark int64) []contact {
	var out []contact
	for _, n := range cl.nodes {
		if n.srv == nil {
			continue
		}
		for _, c := range n.srv.connections() {
			if c.order > mark {
				out = append(out, contact{n, c.order})
			}
		}
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j].order < out[i].order {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func (cl *cluster) describe() string {
	var sb strings.Builder
	for _, n := range cl.nodes {
		fmt.Fprintf(&sb, "node %d at %s dead=%v unusable=%v\n", n.id, n.addr(), n.dead, n.broke)
	}
	fmt.Fprintf(&sb, "bootstrap %q\n", cl.boot)
	if i := cl.first(); i >= 0 {
		fmt.Fprintf(&sb, "first usable %q, Metadata v%d, FindCoordinator v%d, view %+v %+v\n", cl.boot[i], cl.bootN[i].vers[3], cl.bootN[i].vers[10], cl.bootN[i].view.meta, cl.bootN[i].view.groups)
	}
	return sb.String()
}

// op performs one client operation and judges it.
func (cl *cluster) op(client *kafka.Client) {
	r, rng := cl.r, cl.rng
	mark := acceptOrder.Load()
	first := cl.first()
	var v *view
	var via *cnode
	spoiled := false
	if first >= 0 {
		via = cl.bootN[first]
		v = via.view
		if rng.IntN(10) == 0 { // the lookup fails
			spoiled = true
			via.mu.Lock()
			via.spoil = []string{"close", "reset", "half-close", "malformed", "bad length"}[rng.IntN(5)]
			via.mu.Unlock()
			defer func() {
				via.mu.Lock()
				via.spoil = ""
				via.mu.Unlock()
			}()
		}
		via.mu.Lock()
		via.asked = nil
		via.mu.Unlock()
	}
	ctx := context.Background()
	var target *cnode // designated
	designated := false
	var what string
	var call func() (*kafka.Broker, error)
	var checkAsked func(f *Frame)
	switch rng.IntN(4) {
	case 0:
		what = "controller"
		call = func() (*kafka.Broker, error) { return client.DialController(ctx) }
		if v != nil && via.vers[3] >= 1 {
			target = cl.byID(v, v.meta.ControllerId)
		}
		designated = true
	case 1:
		group := groupNames[rng.IntN(len(groupNames))]
		what = fmt.Sprintf("coordinator of %q", group)
		call = func() (*kafka.Broker, error) { return client.DialGroupCoordinator(ctx, group) }
		if v != nil {
			if g, ok := v.groups[group]; ok {
				for _, n := range cl.nodes {
					if n.host == g.Host && n.port == g.Port {
						target = n
					}
				}
			}
		}
		designated = true
		checkAsked = func(f *Frame) {
			req := message.FindCoordinatorRequest{}
			req.Decode(message.NewDecoder(f.Body, len(f.Body)), f.Ver)
			if f.Key != 10 || req.Key != group || req.KeyType != 0 {
				r.Violation("the coordinator of something else was asked for", "%s: request key %d, %+v", what, f.Key, req)
			}
		}
	case 2:
		topic := topicNames[rng.IntN(len(topicNames))]
		part := int32(rng.IntN(7))
		if rng.IntN(12) == 0 {
			part = []int32{-1, 2147483647, 6}[rng.IntN(3)]
		}
		if v != nil && len(v.meta.Topics) > 0 && rng.IntN(3) > 0 {
			t := v.meta.Topics[rng.IntN(len(v.meta.Topics))]
			topic = t.Name
			if len(t.Partitions) > 0 {
				part = t.Partitions[rng.IntN(len(t.Partitions))].PartitionIndex
			}
		}
		what = fmt.Sprintf("leader of %q/%d", topic, part)
		call = func() (*kafka.Broker, error) { return client.DialLeader(ctx, topic, part) }
		if v != nil {
			for _, t := range v.meta.Topics {
				for _, p := range t.Partitions {
					if t.Name == topic && p.PartitionIndex == part {
						target = cl.byID(v, p.LeaderId)
					}
				}
			}
		}
		designated = true
		checkAsked = func(f *Frame) {
			req := message.MetadataRequest{}
			req.Decode(message.NewDecoder(f.Body, len(f.Body)), f.Ver)
			for _, t := range req.Topics {
				if t.Name == topic {
					return
				}
			}
			if len(req.Topics) > 0 {
				r.Violation("metadata was asked for other topics", "%s: %+v", what, req)
			}
		}
	default:
		var topics []string
		for k := rng.IntN(4); k > 0; k-- {
			topics = append(topics, topicNames[rng.IntN(len(topicNames))])
		}
		what = fmt.Sprintf("metadata %q", topics)
		call = func() (*kafka.Broker, error) {
			given := append([]string{}, topics...)
			meta, err := client.Metadata(ctx, topics...)
			if fmt.Sprint(given) != fmt.Sprint(topics) {
				r.Violation("the caller's topics were changed", "%v", topics)
			}
			if err == nil && v != nil {
				want := deepClone(reflect.ValueOf(v.meta))
				if via.vers[3] < 1 { // not carried
					meta.ControllerId = 0
				}
				p := reflect.New(want.Type())
				p.Elem().Set(want)
				if df := apiKeys[3].Resp.diff(p, reflect.ValueOf(&meta), via.vers[3]); df != "" {
					r.Violation("metadata differs from what the broker answered", "v%d: %s\n%s", via.vers[3], df, cl.describe())
				}
			}
			return nil, err
		}
		checkAsked = func(f *Frame) {
			req := message.MetadataRequest{}
			req.Decode(message.NewDecoder(f.Body, len(f.Body)), f.Ver)
			var got []string
			for _, t := range req.Topics {
				got = append(got, t.Name)
			}
			if fmt.Sprint(got) != fmt.Sprint(topics) {
				r.Violation("metadata was asked for other topics", "%s: %+v", what, req)
			}
		}
	}
	var b *kafka.Broker
	var err error
	done := make(chan struct{})
	go func() { defer close(done); b, err = call() }()
	r.await(done, "a client operation never returned", func() string { return what + "\n" + cl.describe() })

	// bootstrap order
	seen := cl.contacts(mark)
	var wantBoot []*cnode
	for i, n := range cl.bootN {
		if first >= 0 && i > first {
			break
		}
		if n != nil {
			wantBoot = append(wantBoot, n)
		}
	}
	// accepting may lag behind dialling when the client gave up at once
	for i := 0; i < 200 && len(seen) < len(wantBoot); i++ {
		time.Sleep(time.Millisecond)
		seen = cl.contacts(mark)
	}
	for i, n := range wantBoot {
		if i >= len(seen) || seen[i].n != n {
			r.Violation("bootstrap addresses are not tried in the order given until one is usable", "%s: expected %s, contacted %s\n%s", what, addrs(wantBoot), addrsC(seen), cl.describe())
		}
	}
	rest := seen[min(len(wantBoot), len(seen)):]
	for _, c := range rest {
		if spoiled && slices.Contains(cl.bootN, c.n) {
			continue // trying another bootstrap broker is no harm
		}
		if spoiled || c.n != target || !designated {
			r.Violation("a broker was contacted that is not designated", "%s: %s contacted, designated %s\n%s", what, c.n.addr(), addrs([]*cnode{target}), cl.describe())
		}
	}
	ok := first >= 0 && !spoiled && (!designated || target != nil && !target.dead && !target.broke)
	if err != nil && ok {
		r.Violation("the operation failed although it designates a reachable broker", "%s: %v\n%s", what, err, cl.describe())
	}
	if err == nil && !ok {
		r.Violation("the operation succeeded although no usable broker is designated", "%s, lookup fails: %v\n%s", what, spoiled, cl.describe())
	}
	if via != nil && checkAsked != nil {
		via.mu.Lock()
		asked := append([]*Frame{}, via.asked...)
		via.mu.Unlock()
		if len(asked) == 0 {
			r.Violation("the first usable bootstrap broker was not asked", "%s\n%s", what, cl.describe())
		}
		for _, f := range asked {
			checkAsked(f)
		}
	}
	if spoiled {
		r.Count("failed_lookups", 1)
	}
	r.Count(strings.Fields(what)[0]+fmt.Sprintf("_ok_%v", err == nil), 1)
	r.Case(true, fp(what, cl.describe()))
	r.Sampled(func() any {
		return map[string]any{"operation": what, "designated": addrs([]*cnode{target}), "contacted": addrsC(seen), "error": fmt.Sprint(err)}
	})
	if b == nil {
		if err == nil && designated {
			r.Violation("neither a broker nor an error was returned", "%s", what)
		}
		return
	}
	if err != nil {
		r.Violation("a broker was returned along with an error", "%s: %v", what, err)
	}
	member := fmt.Sprintf("m%d", uids.Add(1))
	done = make(chan struct{})
	go func() {
		defer close(done)
		_, err = b.Heartbeat(message.HeartbeatRequest{MemberId: member})
	}()
	r.await(done, "a call to a dialled broker never returned", func() string { return what })
	if err != nil {
		r.Violation("the broker returned is not usable", "%s: %v\n%s", what, err, cl.describe())
	}
	for _, n := range cl.nodes {
		n.mu.Lock()
		for _, m := range n.beats {
			if m == member && n != target {
				r.Violation("the connection leads to another broker than the designated one", "%s: %s instead of %s\n%s", what, n.addr(), addrs([]*cnode{target}), cl.describe())
			}
		}
		n.mu.Unlock()
	}
	r.closeBroker(b)
}

// together performs operations of one client from several goroutines at once.
func (cl *cluster) together(client *kafka.Client) {
	r := cl.r
	first := cl.first()
	if first < 0 {
		return
	}
	via := cl.bootN[first]
	v := via.view
	var wg sync.WaitGroup
	for g := 0; g < 2+cl.rng.IntN(5); g++ {
		rng := rand.New(rand.NewPCG(cl.rng.Uint64(), uint64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 6; k++ {
				var target *cnode
				var b *kafka.Broker
				var err error
				what := "controller"
				switch {
				case rng.IntN(3) == 0:
					if via.vers[3] >= 1 {
						target = cl.byID(v, v.meta.ControllerId)
					}
					b, err = client.DialController(context.Background())
				case rng.IntN(2) == 0:
					group := groupNames[rng.IntN(len(groupNames))]
					what = fmt.Sprintf("coordinator of %q", group)
					if g, ok := v.groups[group]; ok {
						for _, n := range cl.nodes {
							if n.host == g.Host && n.port == g.Port {
								target = n
							}
						}
					}
					b, err = client.DialGroupCoordinator(context.Background(), group)
				default:
					topic, part := topicNames[rng.IntN(len(topicNames))], int32(rng.IntN(7))
					if len(v.meta.Topics) > 0 {
						t := v.meta.Topics[rng.IntN(len(v.meta.Topics))]
						topic = t.Name
						if len(t.Partitions) > 0 {
							part = t.Partitions[rng.IntN(len(t.Partitions))].PartitionIndex
						}
					}
					what = fmt.Sprintf("leader of %q/%d", topic, part)
					for _, t := range v.meta.Topics {
						for _, p := range t.Partitions {
							if t.Name == topic && p.PartitionIndex == part {
								target = cl.byID(v, p.LeaderId)
							}
						}
					}
					b, err = client.DialLeader(context.Background(), topic, part)
				}
				ok := target != nil && !target.dead && !target.broke
				if (err == nil) != ok {
					r.Violation("an operation next to others did not lead to the designated broker, or to an error if there is none", "%s: %v, designated %s\n%s", what, err, addrs([]*cnode{target}), cl.describe())
				}
				r.Count("concurrent_operations", 1)
				if b == nil {
					continue
				}
				member := fmt.Sprintf("m%d", uids.Add(1))
				if _, err := b.Heartbeat(message.HeartbeatRequest{MemberId: member}); err != nil {
					r.Violation("the broker returned is not usable", "%s: %v\n%s", what, err, cl.describe())
				}
				target.mu.Lock()
				found := slices.Contains(target.beats, member)
				target.mu.Unlock()
				if !found {
					r.Violation("the connection leads to another broker than the designated one", "%s: not %s\n%s", what, addrs([]*cnode{target}), cl.describe())
				}
				r.closeBroker(b)
			}
		}()
	}
	r.awaitAll(&wg, "a client operation never returned", func() string { return cl.describe() })
}

func addrs(ns []*cnode) string {
	var out []string
	for _, n := range ns {
		if n == nil {
			out = append(out, "none")
		} else {
			out = append(out, n.addr())
		}
	}
	return strings.Join(out, " ")
}

func addrsC(cs []contact) string {
	var out []*cnode
	for _, c := range cs {
		out = append(out, c.n)
	}
	return addrs(out)
}

func checkC15(r *Run) {
	requireBindings(r)
	topicNames = append(topicNames, strings.Repeat("long-", 50), "__consumer_offsets", "t.1", "t_1", "t 1")
	groupNames = append(groupNames, strings.Repeat("g", 249), "console-consumer-1", "g.1")
	for _, s := range dictStrs {
		if len(s) < 60 && len(topicNames) < 60 && !slices.Contains(topicNames, s) && !slices.Contains(groupNames, s) {
			topicNames = append(topicNames, s)
			groupNames = append(groupNames, s)
		}
	}
	r.rule = "random clusters (1-6 nodes on several loopback addresses, reachable, dead or unusable; each node with its own view of brokers, controller, leaders and coordinators, and its own API versions) and bootstrap lists; every client operation judged against the view of the first usable bootstrap broker; distinct by operation and cluster"
	if !ipv6 {
		r.assume = append(r.assume, "no IPv6 loopback: IPv6 brokers not exercised")
	}
	for _, list := range [][]string{nil, {}} {
		c := kafka.NewClient(list)
		_, err := c.Metadata(context.Background())
		_, err2 := c.DialController(context.Background())
		_, err3 := c.DialLeader(context.Background(), "t", 0)
		_, err4 := c.DialGroupCoordinator(context.Background(), "g")
		if err == nil || err2 == nil || err3 == nil || err4 == nil {
			r.Violation("an operation succeeded without any bootstrap address", "%v %v %v %v", err, err2, err3, err4)
		}
		r.Case(true, fp("empty"))
	}
	r.Parallel(r.N(800, 30000), func(i int) {
		cl := newCluster(r, r.Rng("cluster", i))
		given := append([]string{}, cl.boot...)
		client := kafka.NewClient(cl.boot)
		for k := 0; k < 10; k++ {
			cl.op(client)
			if cl.rng.IntN(4) == 0 { // the cluster changes
				for _, n := range cl.nodes {
					nv := cl.newView(n)
					n.mu.Lock()
					n.view = nv
					n.mu.Unlock()
				}
			}
			if cl.rng.IntN(4) == 0 { // nodes are upgraded, downgraded, broken or repaired
				for _, n := range cl.nodes {
					if !n.dead && cl.rng.IntN(2) == 0 {
						n.broke = cl.rng.IntN(6) == 0
						n.setUp(cl.rng)
						r.Count("nodes_set_up_again", 1)
					}
				}
			}
		}
		if cl.rng.IntN(4) == 0 {
			cl.together(client)
		}
		if fmt.Sprint(given) != fmt.Sprint(cl.boot) {
			r.Violation("the caller's bootstrap list was changed", "%v became %v", given, cl.boot)
		}
		cl.stop()
	})
}
