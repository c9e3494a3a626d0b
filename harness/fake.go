package main

import (
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

const clientID = "github.com/savaki/kafka"

// Frame is one request as received by the simulated broker.
type Frame struct {
	Conn     *SConn
	Size     int32
	Key, Ver int16
	Corr     int32
	ClientID string
	NullID   bool
	Body     []byte
	Seq      int // position on the connection
}

// SConn is one connection seen from the broker's side.
type SConn struct {
	net.Conn
	srv    *Server
	id     int
	order  int64 // global accept order
	wmu    sync.Mutex
	mu     sync.Mutex
	frames int
	open   bool
	bytes  int64
	bad    error // the byte stream is not a sequence of frames
	eof    bool
	peer   net.Addr
	state  any
}

var acceptOrder atomic.Int64

// Server is a simulated broker.
type Server struct {
	ln       net.Listener
	Addr     string
	Host     string
	Port     int32
	ranges   []apiRange
	handle   func(c *SConn, f *Frame) // after negotiation
	raw      func(c *SConn)           // takes over the connection entirely
	versions func(c *SConn, f *Frame) // takes over the ApiVersions response
	tlsConf  *tls.Config
	mu       sync.Mutex
	conns    []*SConn
	closed   bool
	wg       sync.WaitGroup
	onAccept func(c *SConn) net.Conn
}

type apiRange struct{ key, min, max int16 }

func allRanges() []apiRange {
	var out []apiRange
	for _, a := range apis {
		out = append(out, apiRange{a.Key, 0, int16(a.LibMax)})
	}
	return out
}

// pinned advertises exactly one version per API.
func pinned(ver func(a *API) int) []apiRange {
	var out []apiRange
	for _, a := range apis {
		v := int16(ver(a))
		out = append(out, apiRange{a.Key, v, v})
	}
	return out
}

func newServer(host string) *Server {
	ln, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
	if err != nil {
		panic(fmt.Sprint("cannot listen on ", host, ": ", err))
	}
	a := ln.Addr().(*net.TCPAddr)
	s := &Server{ln: ln, Addr: net.JoinHostPort(host, fmt.Sprint(a.Port)), Host: host, Port: int32(a.Port), ranges: allRanges()}
	return s
}

func (s *Server) start() *Server {
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			raw, err := s.ln.Accept()
			if err != nil {
				return
			}
			c := &SConn{Conn: raw, srv: s, open: true, order: acceptOrder.Add(1), peer: raw.RemoteAddr()}
			s.mu.Lock()
			closed, takeOver := s.closed, s.raw
			if !closed {
				c.id = len(s.conns)
				s.conns = append(s.conns, c)
			}
			s.mu.Unlock()
			if closed {
				raw.Close()
				continue
			}
			if s.onAccept != nil {
				c.Conn = s.onAccept(c)
			}
			if s.tlsConf != nil {
				c.Conn = tls.Server(c.Conn, s.tlsConf)
			}
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				defer c.gone()
				if takeOver != nil {
					takeOver(c)
					return
				}
				c.serve()
			}()
		}
	}()
	return s
}

func (s *Server) stop() {
	s.mu.Lock()
	s.closed = true
	conns := append([]*SConn{}, s.conns...)
	s.mu.Unlock()
	s.ln.Close()
	for _, c := range conns {
		c.Conn.Close()
	}
	s.wg.Wait()
}

func (s *Server) connections() []*SConn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*SConn{}, s.conns...)
}

func (s *Server) openConns() int {
	n := 0
	for _, c := range s.connections() {
		c.mu.Lock()
		if c.open {
			n++
		}
		c.mu.Unlock()
	}
	return n
}

func (c *SConn) gone() {
	c.Conn.Close()
	c.mu.Lock()
	c.open = false
	c.mu.Unlock()
}

// parseFrame splits a request into header and body.
func parseFrame(b []byte) (*Frame, error) {
	if len(b) < 10 {
		return nil, fmt.Errorf("frame of %d bytes is too short for a request header", len(b))
	}
	f := &Frame{Size: int32(len(b)), Key: int16(binary.BigEndian.Uint16(b)), Ver: int16(binary.BigEndian.Uint16(b[2:])), Corr: int32(binary.BigEndian.Uint32(b[4:]))}
	n := int(int16(binary.BigEndian.Uint16(b[8:])))
	if n == -1 {
		f.NullID = true
		n = 0
	}
	if n < 0 || 10+n > len(b) {
		return nil, fmt.Errorf("client id of length %d in a frame of %d bytes", n, len(b))
	}
	f.ClientID = string(b[10 : 10+n])
	f.Body = b[10+n:]
	return f, nil
}

func (c *SConn) readFrame() (*Frame, error) {
	var h [4]byte
	n, err := io.ReadFull(c.Conn, h[:])
	if err != nil {
		if n > 0 && errors.Is(err, io.ErrUnexpectedEOF) {
			c.setBad(fmt.Errorf("connection ended inside a length prefix"))
		}
		c.mu.Lock()
		c.eof = true
		c.mu.Unlock()
		return nil, err
	}
	size := int32(binary.BigEndian.Uint32(h[:]))
	if size < 10 || size > 256<<20 {
		err := fmt.Errorf("frame %d has length prefix %d", c.frames, size)
		c.setBad(err)
		return nil, err
	}
	b := make([]byte, size)
	if n, err := io.ReadFull(c.Conn, b); err != nil {
		c.setBad(fmt.Errorf("connection ended %d bytes into frame %d of %d bytes: %v", n, c.frames, size, err))
		return nil, err
	}
	f, err := parseFrame(b)
	if err != nil {
		c.setBad(err)
		return nil, err
	}
	f.Conn = c
	c.mu.Lock()
	f.Seq = c.frames
	c.frames++
	c.bytes += int64(size) + 4
	c.mu.Unlock()
	return f, nil
}

func (c *SConn) setBad(err error) {
	c.mu.Lock()
	if c.bad == nil {
		c.bad = err
	}
	c.mu.Unlock()
}

func (c *SConn) badness() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.bad
}

func (c *SConn) serve() {
	for {
		f, err := c.readFrame()
		if err != nil {
			return
		}
		if f.Key == 18 && f.Seq == 0 {
			if c.srv.versions != nil {
				c.srv.versions(c, f)
			} else {
				c.srv.mu.Lock()
				ranges := c.srv.ranges
				c.srv.mu.Unlock()
				c.write(responseFrame(f.Corr, versionsBody(ranges, int(f.Ver))))
			}
			continue
		}
		if c.srv.handle != nil {
			c.srv.handle(c, f)
		}
	}
}

func versionsBody(ranges []apiRange, ver int) []byte {
	var resp message.ApiVersionsResponse
	for _, a := range ranges {
		resp.ApiKeys = append(resp.ApiKeys, message.ApiVersionsResponseKey18{ApiKey: a.key, MinVersion: a.min, MaxVersion: a.max})
	}
	m := msgMap["ApiVersionsResponse"]
	if ver > m.Max {
		ver = m.Max
	}
	return m.encode(reflect.ValueOf(&resp), ver)
}

func responseFrame(corr int32, body []byte) []byte {
	b := make([]byte, 0, 8+len(body))
	b = binary.BigEndian.AppendUint32(b, uint32(4+len(body)))
	b = binary.BigEndian.AppendUint32(b, uint32(corr))
	return append(b, body...)
}

func (c *SConn) write(b []byte) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	_, err := c.Conn.Write(b)
	return err
}

// writeSplit writes b in random pieces.
func (c *SConn) writeSplit(rng *rand.Rand, b []byte) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	mode := rng.IntN(4)
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 0:
			n = 1
			if rng.IntN(50) == 0 || len(b) > 400 {
				n = min(len(b), 1+rng.IntN(200))
			}
		case 1:
			n = min(len(b), 1+rng.IntN(12))
			if len(b) > 400 {
				n = min(len(b), 1+rng.IntN(3000))
			}
		case 2:
			n = min(len(b), 1+rng.IntN(4000))
		}
		if _, err := c.Conn.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if rng.IntN(6) == 0 {
			time.Sleep(time.Duration(rng.IntN(40)) * time.Microsecond)
		}
	}
	return nil
}

// reset ends the connection abruptly.
func (c *SConn) reset() {
	if t, ok := c.Conn.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.Conn.Close()
}

// ---- calls -----------------------------------------------------------------

// invoke calls the broker method of an API.
func invoke(b *kafka.Broker, a *API, req reflect.Value) (resp reflect.Value, err error) {
	out := reflect.ValueOf(b).MethodByName(a.Name).Call([]reflect.Value{reflect.Indirect(req)})
	resp = reflect.New(out[0].Type())
	resp.Elem().Set(out[0])
	if !out[1].IsNil() {
		err = out[1].Interface().(error)
	}
	return
}

// dialBroker connects to a simulated broker; failing to is a violation, as every
// simulated broker that this is used with behaves.
func (r *Run) dialBroker(addr string, opts ...kafka.Option) *kafka.Broker {
	var b *kafka.Broker
	var err error
	done := make(chan struct{})
	go func() {
		defer close(done)
		b, err = kafka.NewBroker(addr, opts...)
	}()
	r.await(done, "connecting to a well-behaved broker never returned", func() string { return addr })
	if err != nil {
		r.Violation("connecting to a well-behaved broker failed", "%v", err)
	}
	return b
}

// closeBroker closes and waits.
func (r *Run) closeBroker(b *kafka.Broker) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		b.Close()
	}()
	r.await(done, "closing a broker never returned", func() string { return "" })
}

// hasString reports whether a schema carries a string at a version.
func hasString(fields []*SField, ver int) bool {
	for _, f := range fields {
		if !f.at(ver) {
			continue
		}
		if f.Type == "string" || f.Type == "[]string" || f.Type == "[]struct" && hasString(f.Fields, ver) {
			return true
		}
	}
	return false
}

// tagged generates a small value whose strings all start with a unique tag.
func tagged(rng *rand.Rand, m *Msg, tag string, maxArr int) reflect.Value {
	g := newGen(rng, true)
	g.Arr = func(f *SField, depth int) int { return 1 + rng.IntN(maxArr) }
	var fix func(v reflect.Value, fields []*SField)
	fix = func(v reflect.Value, fields []*SField) {
		for _, f := range fields {
			fv := v.Field(f.Index)
			switch f.Type {
			case "string":
				s := fv.String()
				fv.SetString(tag + s[:min(len(s), 12)])
			case "[]string":
				for i := 0; i < fv.Len(); i++ {
					fv.Index(i).SetString(tag + fmt.Sprint(i))
				}
			case "[]byte":
				if fv.Len() > 0 {
					copy(fv.Bytes(), tag)
				}
			case "[]struct":
				for i := 0; i < fv.Len(); i++ {
					fix(fv.Index(i), f.Fields)
				}
			}
		}
	}
	v := g.New(m)
	fix(v.Elem(), m.Fields)
	return v
}
