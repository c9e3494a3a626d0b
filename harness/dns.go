package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync/atomic"
)

// names is a name service that exists only behind one resolver.
type names struct {
	ips     map[string]string
	queries atomic.Int64
}

// resolver answers over a stream that leads nowhere else.
func (n *names) resolver() *net.Resolver {
	return &net.Resolver{PreferGo: true, Dial: func(context.Context, string, string) (net.Conn, error) {
		a, b := net.Pipe()
		go n.serve(b)
		return a, nil
	}}
}

func (n *names) serve(c net.Conn) {
	defer c.Close()
	for {
		var h [2]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return
		}
		q := make([]byte, binary.BigEndian.Uint16(h[:]))
		if _, err := io.ReadFull(c, q); err != nil || len(q) < 17 {
			return
		}
		n.queries.Add(1)
		var labels []string
		i := 12
		for i < len(q) && q[i] != 0 {
			k := int(q[i])
			if i+1+k >= len(q) {
				return
			}
			labels = append(labels, string(q[i+1:i+1+k]))
			i += 1 + k
		}
		if i+5 > len(q) {
			return
		}
		kind := binary.BigEndian.Uint16(q[i+1:])
		question := q[12 : i+5]
		ip := net.ParseIP(n.ips[strings.ToLower(strings.Join(labels, "."))])
		var data []byte
		switch {
		case kind == 1 && ip.To4() != nil:
			data = ip.To4()
		case kind == 28 && ip != nil && ip.To4() == nil:
			data = ip
		}
		r := append([]byte{}, q[:2]...)
		code := byte(0)
		if ip == nil {
			code = 3
		}
		r = append(r, 0x84|q[2]&1, 0x80|code, 0, 1, 0, 0, 0, 0, 0, 0)
		r = append(r, question...)
		if data != nil {
			r[7] = 1
			r = append(r, 0xc0, 12)
			r = binary.BigEndian.AppendUint16(r, kind)
			r = append(r, 0, 1, 0, 0, 0, 60)
			r = binary.BigEndian.AppendUint16(r, uint16(len(data)))
			r = append(r, data...)
		}
		if _, err := c.Write(append(binary.BigEndian.AppendUint16(nil, uint16(len(r))), r...)); err != nil {
			return
		}
	}
}

// resolvers reports whether names can be served this way here.
var resolvers = func() bool {
	n := &names{ips: map[string]string{"probe.kafka.test": "127.0.0.7"}}
	as, err := n.resolver().LookupHost(context.Background(), "probe.kafka.test")
	return err == nil && len(as) == 1 && as[0] == "127.0.0.7"
}()

func procAddr(a *net.TCPAddr) string {
	ip := a.IP.To4()
	if ip == nil {
		return "?"
	}
	return fmt.Sprintf("%02X%02X%02X%02X:%04X", ip[3], ip[2], ip[1], ip[0], a.Port)
}

// keepAlive looks up the timer of the client's end of a connection: whether keep-alive
// is on and after how many seconds the next probe is due.
func keepAlive(client, server *net.TCPAddr) (on bool, seconds float64, ok bool) {
	data, err := os.ReadFile("/proc/net/tcp")
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(data), "\n") {
		f := strings.Fields(line)
		if len(f) < 6 || f[1] != procAddr(client) || f[2] != procAddr(server) || f[3] != "01" {
			continue
		}
		kind, when, found := strings.Cut(f[5], ":")
		if !found || kind != "00" && kind != "02" {
			return
		}
		n, err := strconv.ParseInt(when, 16, 64)
		return kind == "02", float64(n) / 100, err == nil
	}
	return
}
