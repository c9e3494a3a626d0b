package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/savaki/kafka/message"
)

func init() {
	checks["C06"] = checkC06
}

// faultWriter is the underlying stream: it records everything and fails once the
// byte at position failAt, or the call number failCall, is to be written.
type faultWriter struct {
	failAt    int // byte position, -1 never
	failCall  int // call number, -1 never
	permanent bool
	partial   bool
	err       error
	data      []byte
	calls     int
	failed    bool
	after     int    // calls after the failure
	afterData []byte // bytes offered after the failure
	flushes   int
	unflushed int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	call := w.calls
	w.calls++
	if w.failed {
		w.after++
		w.afterData = append(w.afterData, p...)
		if w.permanent {
			return 0, w.err
		}
		w.data = append(w.data, p...)
		w.unflushed += len(p)
		return len(p), nil
	}
	if call == w.failCall || w.failAt >= 0 && len(w.data)+len(p) > w.failAt {
		w.failed = true
		n := 0
		if w.partial && w.failAt >= len(w.data) {
			n = w.failAt - len(w.data)
		}
		w.data = append(w.data, p[:n]...)
		return n, w.err
	}
	w.data = append(w.data, p...)
	w.unflushed += len(p)
	return len(p), nil
}

type faultStringWriter struct{ *faultWriter }

func (w faultStringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

type faultFlusher struct{ *faultWriter }

func (w faultFlusher) Flush() error {
	w.flushes++
	w.unflushed = 0
	return nil
}

func checkC06(r *Run) {
	requireBindings(r)
	r.rule = "the underlying stream fails at every byte position and every write call of a message or primitive sequence (transient, permanent, partial), directly, as string writer, as flusher and behind bufio; more values follow; distinct by bytes, position and kind of fault"
	type script struct {
		label string
		put   func(e *message.Encoder)
		want  []byte
	}
	var scripts []script
	rng := r.Rng("scripts")
	// every primitive alone
	for i := 0; i < r.N(300, 6000); i++ {
		p := randPrim(rng)
		if len(p.want) > 400 {
			continue
		}
		scripts = append(scripts, script{"one " + p.kind, p.put, p.want})
	}
	for i := 0; i < r.N(300, 6000); i++ {
		var ps []prim
		var want []byte
		for j := 0; j < 2+rng.IntN(10); j++ {
			p := randPrim(rng)
			if len(p.want) > 120 {
				continue
			}
			ps = append(ps, p)
			want = append(want, p.want...)
		}
		scripts = append(scripts, script{fmt.Sprintf("%d primitives", len(ps)), func(e *message.Encoder) {
			for _, p := range ps {
				p.put(e)
			}
		}, want})
	}
	for _, m := range msgs {
		for ver := m.Min; ver <= m.Max; ver++ {
			if !r.Thorough() && ver != m.Min && ver != m.Max && rng.IntN(2) == 0 {
				continue
			}
			g := newGen(rng, false)
			g.Arr = func(f *SField, depth int) int { return 1 + rng.IntN(2) }
			v := g.New(m)
			raw, err := libEncode(v, ver)
			if err != nil {
				r.Violation("encoding to a working stream failed", "%s v%d: %v", m.Name, ver, err)
			}
			scripts = append(scripts, script{fmt.Sprintf("%s v%d", m.Name, ver), func(e *message.Encoder) {
				v.Interface().(libMessage).Encode(e, int16(ver))
			}, raw})
		}
	}
	// what is put after the failure
	follow := func(e *message.Encoder) {
		for _, p := range []prim{pInt8(1), pVarInt(300), pVarString("follow"), pBytes([]byte("x")), pVarBytes([]byte("yy")), pString("zz"), pInt64s([]int64{1}), pInt32s([]int32{2}), pStrings([]string{"q"}), pHeader("k", "v"), pNullable(nil), pBool(true), pInt16(5), pInt64(6), pArrayLength(1)} {
			p.put(e)
		}
		message.MetadataRequest{Topics: []message.MetadataRequestTopic3{{Name: "t"}}}.Encode(e, 1)
	}
	r.Parallel(len(scripts), func(si int) {
		s := scripts[si]
		rng := r.Rng("run", si)
		// without a failure
		for kind := 0; kind < 4; kind++ {
			fw := &faultWriter{failAt: -1, failCall: -1}
			var sink bytes.Buffer
			var target io.Writer = fw
			switch kind {
			case 1:
				target = faultStringWriter{fw}
			case 2:
				target = faultFlusher{fw}
			case 3:
				target = bufio.NewWriterSize(&sink, 16+rng.IntN(64))
			}
			e := message.NewEncoder(target)
			var err error
			for round := 1; round <= 2; round++ {
				if pa, st := safely(func() { s.put(e); err = e.Flush() }); pa != nil {
					r.Violation("panic while encoding", "%s: %v\n%s", s.label, pa, st)
				}
				got := fw.data
				if kind == 3 {
					got = sink.Bytes()
				}
				if err != nil || !bytes.Equal(got, bytes.Repeat(s.want, round)) || fw.unflushed != 0 && kind == 2 {
					r.Violation("flushing did not push every byte put so far", "%s (stream kind %d, round %d): error %v, %d of %d bytes, unflushed %d", s.label, kind, round, err, len(got), len(s.want)*round, fw.unflushed)
				}
			}
			r.Case(false, 0)
		}
		positions := len(s.want)
		probe := &faultWriter{failAt: -1, failCall: -1}
		pe := message.NewEncoder(probe)
		s.put(pe)
		step := 1
		if positions > 300 && !r.Thorough() {
			step = 1 + positions/300
		}
		try := func(pos, call int, permanent, partial bool, kind int) {
			bang := errors.New("stream failed")
			later := errors.New("a later error")
			fw := &faultWriter{failAt: pos, failCall: call, permanent: permanent, partial: partial, err: bang}
			var target io.Writer = fw
			switch kind {
			case 1:
				target = faultStringWriter{fw}
			case 2:
				target = faultFlusher{fw}
			}
			desc := fmt.Sprintf("%s, stream kind %d, failing at byte %d call %d permanent=%v partial=%v", s.label, kind, pos, call, permanent, partial)
			e := message.NewEncoder(target)
			var err, err2 error
			flushEarly := rng.IntN(2) == 0
			if pa, st := safely(func() {
				s.put(e)
				if flushEarly {
					err = e.Flush()
				}
				fw.err = later // what the stream says from now on
				follow(e)
				if !flushEarly {
					err = e.Flush()
				}
				err2 = e.Flush()
			}); pa != nil {
				r.Violation("panic after a failed write", "%s: %v\n%s", desc, pa, st)
			}
			if !fw.failed {
				return
			}
			if err == nil || !errors.Is(err, bang) {
				r.Violation("a failed write is not reported by flushing", "%s: Flush returned %v", desc, err)
			}
			if err2 == nil || !errors.Is(err2, bang) {
				r.Violation("a failed write is forgotten by a later flush", "%s: second Flush returned %v", desc, err2)
			}
			if fw.after != 0 {
				r.Violation("the encoder writes after a failed write", "%s: %d writes after the failure, bytes %s", desc, fw.after, hx(fw.afterData))
			}
			if !bytes.HasPrefix(s.want, fw.data) {
				r.Violation("the bytes before the failure are wrong", "%s: %s", desc, hx(fw.data))
			}
			r.Case(true, fp(s.want, pos, call, permanent, partial, kind))
		}
		for pos := 0; pos < positions; pos += step {
			for kind := 0; kind < 3; kind++ {
				try(pos, -1, false, rng.IntN(2) == 0, kind)
				try(pos, -1, true, rng.IntN(2) == 0, kind)
			}
		}
		cstep := 1 + probe.calls/300
		for call := 0; call < probe.calls; call += cstep {
			try(-1, call, false, false, rng.IntN(3))
			try(-1, call, true, false, rng.IntN(3))
		}
		// behind bufio, as in a connection
		for pos := 0; pos < positions; pos += step {
			bang := errors.New("socket failed")
			fw := &faultWriter{failAt: pos, failCall: -1, permanent: rng.IntN(2) == 0, partial: true, err: bang}
			bw := bufio.NewWriterSize(fw, 16+rng.IntN(48))
			e := message.NewEncoder(bw)
			s.put(e)
			err := e.Flush()
			if !errors.Is(err, bang) {
				r.Violation("a failed write is not reported by flushing", "%s behind bufio, failing at byte %d: Flush returned %v", s.label, pos, err)
			}
			follow(e)
			if err := e.Flush(); !errors.Is(err, bang) || fw.after != 0 {
				r.Violation("a failed write is forgotten", "%s behind bufio, failing at byte %d: later Flush returned %v, %d writes reached the stream", s.label, pos, err, fw.after)
			}
			r.Case(true, fp("bufio", s.want, pos))
		}
		r.Sampled(func() any { return map[string]any{"script": s.label, "bytes": len(s.want), "write_calls": probe.calls} })
	})
	r.counters["scripts"] = int64(len(scripts))
}
