package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sync"

	"github.com/savaki/kafka/message"
	"github.com/savaki/kafka/message/sizeof"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
	checks["C03"] = checkC03
}

// guarded runs library code and reports a panic as a violation.
func (r *Run) guarded(w work, what string, fn func()) {
	if p, st := safely(fn); p != nil {
		r.Violation("panic while "+what, "%s v%d (%s): %v\nvalue: %s\n%s", w.m.Name, w.ver, w.label, p, short(w.v.Interface()), st)
	}
}

func nontrivial(w work) bool { return w.label != "zero value" }

const trailer = 0x6B61666B61C0FFEE

func checkC01(r *Run) {
	requireBindings(r)
	r.rule = "every message type x every declared version x {zero value, unique markers, each field at each of its boundary values (array lengths to 65537), random nested values}; distinct by type, version and encoding; the zero value is trivial"
	var mu sync.Mutex
	covered := map[string]bool{}
	used := map[*Msg][]reflect.Value{}
	for i, m := range msgs {
		rng := r.Rng("used", i)
		for k := 0; k < 8; k++ {
			used[m] = append(used[m], newGen(rng, k%2 == 1).New(m))
		}
	}
	r.workload("c01", r.N(600, 6000), func(w work) {
		before := deepClone(w.v.Elem())
		var raw []byte
		var encErr error
		r.guarded(w, "sizing", func() { w.v.Interface().(libMessage).Size(int16(w.ver)) })
		if !reflect.DeepEqual(before.Interface(), w.v.Elem().Interface()) {
			r.Violation("sizing changed the value", "%s v%d (%s): %s", w.m.Name, w.ver, w.label, short(before.Interface()))
		}
		r.guarded(w, "encoding", func() { raw, encErr = libEncode(w.v, w.ver) })
		if encErr != nil {
			r.Violation("encoding failed", "%s v%d (%s): %v", w.m.Name, w.ver, w.label, encErr)
		}
		if !reflect.DeepEqual(before.Interface(), w.v.Elem().Interface()) {
			r.Violation("encoding changed the value", "%s v%d (%s): %s", w.m.Name, w.ver, w.label, short(before.Interface()))
		}
		// decode alone, and in the middle of a longer buffer
		pad := int(fp(raw) % 23)
		for round := 0; round < 3; round++ {
			var buf []byte
			if round == 1 {
				buf = append(buf, bytes.Repeat([]byte{0xA5}, pad)...)
			}
			buf = append(buf, raw...)
			if round == 1 {
				var tb bytes.Buffer
				e := message.NewEncoder(&tb)
				e.PutInt64(trailer)
				buf = append(buf, tb.Bytes()...)
			}
			original := append([]byte(nil), buf...)
			got := w.m.New()
			var held, heldCopy reflect.Value
			if round == 2 {
				// a receiver that already holds another value, part of which the
				// program keeps: old := resp; c.Do(ctx, req, &resp)
				old := used[w.m]
				got.Elem().Set(deepClone(old[fp(raw)%uint64(len(old))].Elem()))
				heldCopy = deepClone(got.Elem())
				held = reflect.New(w.m.Type).Elem()
				held.Set(got.Elem())
			}
			var err, perr error
			var tail int64
			var tailErr error
			d := message.NewDecoder(buf, len(buf))
			r.guarded(w, "decoding", func() {
				if round == 1 {
					perr = d.Discard(pad)
				}
				err = got.Interface().(libMessage).Decode(d, int16(w.ver))
				if round == 1 {
					tail, tailErr = d.Int64()
				} else {
					_, tailErr = d.Int8()
				}
			})
			if perr != nil {
				r.Violation("skipping bytes failed", "%v", perr)
			}
			if err != nil {
				r.Violation("decoding what was encoded failed", "%s v%d (%s): %v\nvalue: %s\nbytes: %s", w.m.Name, w.ver, w.label, err, short(w.v.Interface()), hx(raw))
			}
			if round == 2 {
				for _, f := range w.m.Fields {
					if !f.at(w.ver) {
						got.Elem().Field(f.Index).SetZero()
					}
				}
				if df := w.m.diff(w.v, got, w.ver); df != "" {
					r.Violation("value decoded into a used receiver differs from the encoded one", "%s v%d (%s): %s\nvalue: %s\nbytes: %s\nreceiver before: %s", w.m.Name, w.ver, w.label, df, short(w.v.Interface()), hx(raw), short(heldCopy.Interface()))
				}
				if !reflect.DeepEqual(held.Interface(), heldCopy.Interface()) {
					r.Violation("decoding into a receiver changed what was taken out of it earlier", "%s v%d (%s)\nbytes: %s\ntaken out: %s\nnow: %s", w.m.Name, w.ver, w.label, hx(raw), short(heldCopy.Interface()), short(held.Interface()))
				}
			} else if df := w.m.diff(w.v, got, w.ver); df != "" {
				r.Violation("decoded value differs from the encoded one", "%s v%d (%s): %s\nvalue: %s\nbytes: %s", w.m.Name, w.ver, w.label, df, short(w.v.Interface()), hx(raw))
			}
			if round == 1 && (tailErr != nil || tail != trailer) {
				r.Violation("decoding did not consume exactly the bytes encoding wrote", "%s v%d (%s): next value %x (%v)\nbytes: %s", w.m.Name, w.ver, w.label, tail, tailErr, hx(raw))
			}
			if round == 0 && tailErr == nil {
				r.Violation("decoding did not consume all the bytes encoding wrote", "%s v%d (%s)\nbytes: %s", w.m.Name, w.ver, w.label, hx(raw))
			}
			if !bytes.Equal(buf, original) {
				r.Violation("decoding changed the buffer it reads", "%s v%d (%s)", w.m.Name, w.ver, w.label)
			}
		}
		r.Case(nontrivial(w), fp(w.m.Name, w.ver, raw))
		r.Count("bytes_round_tripped", int64(3*len(raw)))
		r.Max("largest_encoding", int64(len(raw)))
		r.Sampled(func() any {
			return map[string]any{"message": w.m.Name, "version": w.ver, "case": w.label, "bytes": hx(raw)}
		})
		mu.Lock()
		k := fmt.Sprint(w.m.Name, " v", w.ver)
		if !covered[k] {
			covered[k] = true
		}
		mu.Unlock()
	})
	r.sequences()
	r.counters["message_versions"] = int64(len(covered))
}

// sequences round-trips runs of different messages on one encoder and one decoder.
func (r *Run) sequences() {
	n := r.N(1500, 40000)
	r.Parallel(n, func(i int) {
		rng := r.Rng("seq", i)
		k := 2 + rng.IntN(6)
		var buf bytes.Buffer
		e := message.NewEncoder(&buf)
		var ws []work
		for j := 0; j < k; j++ {
			m := msgs[rng.IntN(len(msgs))]
			ver := m.Min + rng.IntN(m.Max-m.Min+1)
			g := newGen(rng, rng.IntN(2) == 0)
			w := work{m, ver, g.New(m), "sequence"}
			ws = append(ws, w)
			r.guarded(w, "encoding", func() { w.v.Interface().(libMessage).Encode(e, int16(ver)) })
		}
		if err := e.Flush(); err != nil {
			r.Violation("encoding a sequence failed", "%v", err)
		}
		d := message.NewDecoder(buf.Bytes(), buf.Len())
		for j, w := range ws {
			got := w.m.New()
			var err error
			r.guarded(w, "decoding", func() { err = got.Interface().(libMessage).Decode(d, int16(w.ver)) })
			df := ""
			if err == nil {
				df = w.m.diff(w.v, got, w.ver)
			}
			if err != nil || df != "" {
				r.Violation("a message in a sequence does not round-trip", "message %d of %d, %s v%d: %v %s", j, k, w.m.Name, w.ver, err, df)
			}
		}
		r.Case(true, fp(buf.Bytes()))
		r.Count("sequences", 1)
	})
}

func checkC02(r *Run) {
	requireBindings(r)
	r.rule = "declared size vs bytes written for the values of C01 and for every primitive; distinct by type, version and encoding; the zero value is trivial"
	r.workload("c02", r.N(900, 9000), func(w work) {
		var raw []byte
		var encErr error
		var size int32
		r.guarded(w, "sizing", func() { size = w.v.Interface().(libMessage).Size(int16(w.ver)) })
		r.guarded(w, "encoding", func() { raw, encErr = libEncode(w.v, w.ver) })
		if encErr != nil {
			r.Violation("encoding failed", "%s v%d (%s): %v", w.m.Name, w.ver, w.label, encErr)
		}
		if int(size) != len(raw) {
			r.Violation("declared size differs from the bytes encoded", "%s v%d (%s): size %d, wrote %d bytes\nvalue: %s\nbytes: %s", w.m.Name, w.ver, w.label, size, len(raw), short(w.v.Interface()), hx(raw))
		}
		r.Case(nontrivial(w), fp(w.m.Name, w.ver, raw))
		r.Max("largest_encoding", int64(len(raw)))
		r.Sampled(func() any {
			return map[string]any{"message": w.m.Name, "version": w.ver, "case": w.label, "size": size, "bytes": hx(raw)}
		})
	})
	// primitives
	rng := r.Rng("prim")
	prim := func(name string, size int32, put func(e *message.Encoder)) {
		var buf bytes.Buffer
		e := message.NewEncoder(&buf)
		put(e)
		if err := e.Flush(); err != nil {
			r.Violation("encoding a primitive failed", "%s: %v", name, err)
		}
		if int(size) != buf.Len() {
			r.Violation("size helper differs from the bytes written", "%s: size %d, wrote %d bytes (%s)", name, size, buf.Len(), hx(buf.Bytes()))
		}
		r.Case(true, fp("prim", name, buf.Bytes()))
		r.Count("primitive_sizes", 1)
	}
	prim("Bool", sizeof.Bool, func(e *message.Encoder) { e.PutBool(true) })
	prim("Int8", sizeof.Int8, func(e *message.Encoder) { e.PutInt8(-1) })
	prim("Int16", sizeof.Int16, func(e *message.Encoder) { e.PutInt16(-1) })
	prim("Int32", sizeof.Int32, func(e *message.Encoder) { e.PutInt32(-1) })
	prim("Int64", sizeof.Int64, func(e *message.Encoder) { e.PutInt64(-1) })
	prim("ArrayLength", sizeof.ArrayLength, func(e *message.Encoder) { e.PutArrayLength(3) })
	for _, i := range varInts(rng, r.N(20000, 1000000)) {
		prim("VarInt", sizeof.VarInt(i), func(e *message.Encoder) { e.PutVarInt(i) })
	}
	for _, n := range lengths(rng) {
		b := newGen(rng, true).bytes(n)
		prim("Bytes", sizeof.Bytes(b), func(e *message.Encoder) { e.PutBytes(b) })
		prim("VarBytes", sizeof.VarBytes(b), func(e *message.Encoder) { e.PutVarBytes(b) })
		prim("VarString", sizeof.VarString(string(b)), func(e *message.Encoder) { e.PutVarString(string(b)) })
		if n <= 32767 {
			prim("String", sizeof.String(string(b)), func(e *message.Encoder) { e.PutString(string(b)) })
		}
		prim("Int32Array", sizeof.Int32Array(make([]int32, n)), func(e *message.Encoder) { e.PutInt32Array(make([]int32, n)) })
		prim("Int64Array", sizeof.Int64Array(make([]int64, n)), func(e *message.Encoder) { e.PutInt64Array(make([]int64, n)) })
		ss := make([]string, n)
		for i := range ss {
			ss[i] = string(b[:rng.IntN(min(n, 20)+1)])
		}
		prim("StringArray", sizeof.StringArray(ss), func(e *message.Encoder) { e.PutStringArray(ss) })
	}
	for _, s := range strExtremes {
		prim("String", sizeof.String(s), func(e *message.Encoder) { e.PutString(s) })
		prim("VarString", sizeof.VarString(s), func(e *message.Encoder) { e.PutVarString(s) })
		prim("StringArray", sizeof.StringArray([]string{s, s, ""}), func(e *message.Encoder) { e.PutStringArray([]string{s, s, ""}) })
	}
	prim("Bytes nil", sizeof.Bytes(nil), func(e *message.Encoder) { e.PutBytes(nil) })
	prim("VarBytes nil", sizeof.VarBytes(nil), func(e *message.Encoder) { e.PutVarBytes(nil) })
	prim("Int32Array nil", sizeof.Int32Array(nil), func(e *message.Encoder) { e.PutInt32Array(nil) })
	prim("Int64Array nil", sizeof.Int64Array(nil), func(e *message.Encoder) { e.PutInt64Array(nil) })
	prim("StringArray nil", sizeof.StringArray(nil), func(e *message.Encoder) { e.PutStringArray(nil) })
}

func lengths(rng *rand.Rand) []int {
	var out []int
	for n := 0; n <= 300; n++ {
		out = append(out, n)
	}
	for _, n := range []int{511, 512, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 32766, 32767, 32768, 65535, 65536, 70000} {
		out = append(out, n)
	}
	out = append(out, dictLengths...)
	return out
}

func varInts(rng *rand.Rand, n int) []int64 {
	var out []int64
	for k := 0; k < 64; k++ {
		for d := int64(-3); d <= 3; d++ {
			out = append(out, int64(1)<<k+d, -(int64(1)<<k)+d)
		}
	}
	out = append(out, dictInts...)
	for i := int64(-70000); i < 70000; i += 7 {
		out = append(out, i)
	}
	for i := 0; i < n; i++ {
		out = append(out, int64(rng.Uint64())>>rng.IntN(64))
	}
	return out
}

func checkC03(r *Run) {
	requireBindings(r)
	r.rule = "library bytes vs an independent encoder driven by the published schemas, and library decode of independently encoded bytes with random nulls, for the values of C01; distinct by type, version and encoding; the zero value is trivial"
	var mu sync.Mutex
	flexMode := map[string]string{} // message version -> layout the library uses
	r.workload("c03", r.N(600, 6000), func(w work) {
		var raw []byte
		var encErr error
		r.guarded(w, "encoding", func() { raw, encErr = libEncode(w.v, w.ver) })
		if encErr != nil {
			r.Violation("encoding failed", "%s v%d (%s): %v", w.m.Name, w.ver, w.label, encErr)
		}
		legacy, flexible := w.m.acceptable(raw, w.v, w.ver)
		key := fmt.Sprintf("%s v%d", w.m.Name, w.ver)
		asFlex := false
		if w.m.flexible(w.ver) {
			mode := ""
			switch {
			case flexible:
				mode, asFlex = "flexible", true
			case legacy:
				mode = "legacy"
				r.Known("flexible version laid out without compact lengths and tags: " + key)
			}
			if mode == "" {
				r.Violation("bytes differ from the published layout", "%s (%s): neither the flexible nor the plain layout\nvalue: %s\n  got: %s\nplain: %s", key, w.label, short(w.v.Interface()), hx(raw), hx(w.m.encode(w.v, w.ver)))
			}
			mu.Lock()
			if prev := flexMode[key]; prev != "" && prev != mode {
				mu.Unlock()
				r.Violation("bytes differ from the published layout", "%s (%s): laid out as %s and, for other values, as %s", key, w.label, mode, prev)
			}
			flexMode[key] = mode
			mu.Unlock()
		} else if !legacy {
			want := w.m.encode(w.v, w.ver)
			i := firstDiff(raw, want)
			r.Violation("bytes differ from the published layout", "%s (%s): first difference at byte %d\nvalue: %s\n got: %s\nwant: %s", key, w.label, i, short(w.v.Interface()), hx(raw), hx(want))
		}
		// the other direction
		rng := rand.New(rand.NewPCG(r.Seed, fp(raw)))
		for round := 0; round < 2; round++ {
			o := &encOpts{flex: asFlex}
			if round == 1 {
				if asFlex {
					break
				}
				o.nulls = rng
			}
			enc := w.m.encodeOpt(w.v, w.ver, o)
			got := w.m.New()
			var err, tailErr error
			r.guarded(w, "decoding", func() {
				d := message.NewDecoder(enc, len(enc))
				err = got.Interface().(libMessage).Decode(d, int16(w.ver))
				_, tailErr = d.Int8()
			})
			if err != nil {
				r.Violation("bytes in the published layout are rejected", "%s (%s): %v\nvalue: %s\nbytes: %s", key, w.label, err, short(w.v.Interface()), hx(enc))
			}
			if df := w.m.diff(w.v, got, w.ver); df != "" {
				r.Violation("bytes in the published layout decode to other values", "%s (%s): %s\nbytes: %s", key, w.label, df, hx(enc))
			}
			if tailErr == nil {
				r.Violation("bytes in the published layout are not consumed", "%s (%s)\nbytes: %s", key, w.label, hx(enc))
			}
		}
		r.Case(nontrivial(w), fp(w.m.Name, w.ver, raw))
		r.Sampled(func() any {
			return map[string]any{"message": w.m.Name, "version": w.ver, "case": w.label, "bytes": hx(raw)}
		})
	})
	r.counters["schemas"] = int64(len(msgs))
	nf := 0
	for _, m := range msgs {
		nf += len(leaves(m.Fields))
	}
	r.counters["schema_fields"] = int64(nf)
	// the published keys
	for _, a := range apis {
		r.Case(true, fp("key", a.Name))
	}
}
