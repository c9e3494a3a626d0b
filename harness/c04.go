package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"reflect"

	"github.com/savaki/kafka/message"
)

func init() {
	checks["C04"] = checkC04
}

// prim is one primitive value with an independent encoding.
type prim struct {
	kind string
	v    any
	put  func(e *message.Encoder)
	get  func(d *message.Decoder) (any, error)
	want []byte
}

// zigzag is an independent variable-length encoder.
func zigzag(b []byte, i int64) []byte {
	u := uint64(i) << 1
	if i < 0 {
		u = ^u
	}
	for u >= 0x80 {
		b = append(b, byte(u&0x7f)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

func be(n int, v int64) []byte {
	out := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		out[i] = byte(v)
		v >>= 8
	}
	return out
}

func pInt8(v int8) prim {
	return prim{"int8", v, func(e *message.Encoder) { e.PutInt8(v) }, func(d *message.Decoder) (any, error) { return d.Int8() }, be(1, int64(v))}
}
func pInt16(v int16) prim {
	return prim{"int16", v, func(e *message.Encoder) { e.PutInt16(v) }, func(d *message.Decoder) (any, error) { return d.Int16() }, be(2, int64(v))}
}
func pInt32(v int32) prim {
	return prim{"int32", v, func(e *message.Encoder) { e.PutInt32(v) }, func(d *message.Decoder) (any, error) { return d.Int32() }, be(4, int64(v))}
}
func pInt64(v int64) prim {
	return prim{"int64", v, func(e *message.Encoder) { e.PutInt64(v) }, func(d *message.Decoder) (any, error) { return d.Int64() }, be(8, v)}
}
func pBool(v bool) prim {
	w := []byte{0}
	if v {
		w[0] = 1
	}
	return prim{"bool", v, func(e *message.Encoder) { e.PutBool(v) }, func(d *message.Decoder) (any, error) { return d.Bool() }, w}
}
func pVarInt(v int64) prim {
	return prim{"varint", v, func(e *message.Encoder) { e.PutVarInt(v) }, func(d *message.Decoder) (any, error) { return d.VarInt() }, zigzag(nil, v)}
}
func pString(v string) prim {
	return prim{"string", v, func(e *message.Encoder) { e.PutString(v) }, func(d *message.Decoder) (any, error) { return d.String() }, append(be(2, int64(len(v))), v...)}
}
func pVarString(v string) prim {
	return prim{"varstring", v, func(e *message.Encoder) { e.PutVarString(v) }, func(d *message.Decoder) (any, error) { return d.VarString() }, append(zigzag(nil, int64(len(v))), v...)}
}
func pNullable(v *string) prim {
	w := be(2, -1)
	if v != nil {
		w = append(be(2, int64(len(*v))), *v...)
	}
	return prim{"nullable string", v, func(e *message.Encoder) { e.PutNullableString(v) }, func(d *message.Decoder) (any, error) { return d.NullableString() }, w}
}
func pBytes(v []byte) prim {
	return prim{"bytes", v, func(e *message.Encoder) { e.PutBytes(v) }, func(d *message.Decoder) (any, error) { return d.Bytes() }, append(be(4, int64(len(v))), v...)}
}
func pVarBytes(v []byte) prim {
	w := zigzag(nil, -1)
	if v != nil {
		w = append(zigzag(nil, int64(len(v))), v...)
	}
	return prim{"varbytes", v, func(e *message.Encoder) { e.PutVarBytes(v) }, func(d *message.Decoder) (any, error) { return d.VarBytes() }, w}
}
func pInt32s(v []int32) prim {
	w := be(4, -1)
	if v != nil {
		w = be(4, int64(len(v)))
	}
	for _, x := range v {
		w = append(w, be(4, int64(x))...)
	}
	return prim{"[]int32", v, func(e *message.Encoder) { e.PutInt32Array(v) }, func(d *message.Decoder) (any, error) { return d.Int32Array() }, w}
}
func pInt64s(v []int64) prim {
	w := be(4, -1)
	if v != nil {
		w = be(4, int64(len(v)))
	}
	for _, x := range v {
		w = append(w, be(8, x)...)
	}
	return prim{"[]int64", v, func(e *message.Encoder) { e.PutInt64Array(v) }, func(d *message.Decoder) (any, error) { return d.Int64Array() }, w}
}
func pStrings(v []string) prim {
	w := be(4, -1)
	if v != nil {
		w = be(4, int64(len(v)))
	}
	for _, x := range v {
		w = append(append(w, be(2, int64(len(x)))...), x...)
	}
	return prim{"[]string", v, func(e *message.Encoder) { e.PutStringArray(v) }, func(d *message.Decoder) (any, error) { return d.StringArray() }, w}
}
func pHeader(k, v string) prim {
	w := append(zigzag(nil, int64(len(k))), k...)
	w = append(append(w, zigzag(nil, int64(len(v)))...), v...)
	return prim{"record header", [2]string{k, v}, func(e *message.Encoder) { e.PutRecordHeader(k, v) }, func(d *message.Decoder) (any, error) {
		a, err := d.VarString()
		if err != nil {
			return nil, err
		}
		b, err := d.VarString()
		return [2]string{a, b}, err
	}, w}
}

// pArrayLength is followed by that many bytes, as the reader may insist on them.
func pArrayLength(n int) prim {
	return prim{"array length", n, func(e *message.Encoder) {
		e.PutArrayLength(n)
		for i := 0; i < n; i++ {
			e.PutInt8(int8(i))
		}
	}, func(d *message.Decoder) (any, error) {
		n, err := d.ArrayLength()
		if err == nil && n > 0 {
			err = d.Discard(n)
		}
		return n, err
	}, func() []byte {
		w := be(4, int64(n))
		for i := 0; i < n; i++ {
			w = append(w, byte(i))
		}
		return w
	}()}
}

func samePrim(p prim, got any) bool {
	switch w := p.v.(type) {
	case []byte:
		g, ok := got.([]byte)
		if !ok || !bytes.Equal(w, g) {
			return false
		}
		return p.kind != "varbytes" || (w == nil) == (g == nil)
	case *string:
		g, ok := got.(*string)
		if !ok || (w == nil) != (g == nil) {
			return false
		}
		return w == nil || *w == *g
	default:
		return reflect.DeepEqual(p.v, got) // keeps nil apart from empty
	}
}

func randPrim(rng *rand.Rand) prim {
	g := newGen(rng, true)
	n := func() int {
		switch rng.IntN(8) {
		case 0:
			return 0
		case 1:
			return []int{127, 128, 129, 255, 256, 257, 1000}[rng.IntN(7)]
		}
		return rng.IntN(20)
	}
	switch rng.IntN(15) {
	case 0:
		return pInt8(int8(g.int(8)))
	case 1:
		return pInt16(int16(g.int(16)))
	case 2:
		return pInt32(int32(g.int(32)))
	case 3:
		return pInt64(g.int(64))
	case 4:
		return pBool(rng.IntN(2) == 0)
	case 5:
		return pVarInt(g.int(64))
	case 6:
		return pString(g.string())
	case 7:
		return pVarString(g.string())
	case 8:
		if rng.IntN(3) == 0 {
			return pNullable(nil)
		}
		s := g.string()
		return pNullable(&s)
	case 9:
		return pBytes(g.bytes(n()))
	case 10:
		if rng.IntN(3) == 0 {
			return pVarBytes(nil)
		}
		return pVarBytes(g.bytes(n()))
	case 11:
		if rng.IntN(5) == 0 {
			return pInt32s(nil)
		}
		v := make([]int32, n())
		for i := range v {
			v[i] = int32(g.int(32))
		}
		return pInt32s(v)
	case 12:
		if rng.IntN(5) == 0 {
			return pInt64s(nil)
		}
		v := make([]int64, n())
		for i := range v {
			v[i] = g.int(64)
		}
		return pInt64s(v)
	case 13:
		if rng.IntN(5) == 0 {
			return pStrings(nil)
		}
		v := make([]string, n())
		for i := range v {
			v[i] = g.string()
		}
		return pStrings(v)
	default:
		return pHeader(g.string(), g.string())
	}
}

func (r *Run) primSeq(label string, ps []prim) {
	var buf bytes.Buffer
	e := message.NewEncoder(&buf)
	var want []byte
	for i, p := range ps {
		if pa, st := safely(func() { p.put(e) }); pa != nil {
			r.Violation("panic while encoding a primitive", "%s #%d %s %s: %v\n%s", label, i, p.kind, short(p.v), pa, st)
		}
		want = append(want, p.want...)
	}
	if err := e.Flush(); err != nil {
		r.Violation("encoding primitives failed", "%s: %v", label, err)
	}
	if !bytes.Equal(buf.Bytes(), want) {
		off := firstDiff(buf.Bytes(), want)
		pos := 0
		for i, p := range ps {
			if off < pos+len(p.want) || i == len(ps)-1 {
				r.Violation("a primitive is not in its protocol encoding", "%s #%d %s %s: at byte %d of it\n got: %s\nwant: %s", label, i, p.kind, short(p.v), off-pos, hx(buf.Bytes()[min(pos, buf.Len()):]), hx(p.want))
			}
			pos += len(p.want)
		}
	}
	raw := append(append([]byte{}, want...), 0xAA)
	d := message.NewDecoder(raw, len(want))
	for round := 0; round < 2; round++ {
		for i, p := range ps {
			var got any
			var err error
			if pa, st := safely(func() { got, err = p.get(d) }); pa != nil {
				r.Violation("panic while decoding a primitive", "%s #%d %s %s: %v\n%s", label, i, p.kind, short(p.v), pa, st)
			}
			if err != nil || !samePrim(p, got) {
				r.Violation("a primitive does not read back as written", "%s #%d %s: wrote %s, read %s (type %T, error %v)\nbytes: %s", label, i, p.kind, show(p.v), show(got), got, err, hx(p.want))
			}
		}
		if _, err := d.Int8(); err == nil {
			r.Violation("reading primitives does not consume exactly what was written", "%s", label)
		}
		d.Reset(len(want)) // read it again with the same decoder
	}
	r.Case(true, fp(label, want))
	r.Count("primitives", int64(len(ps)))
	r.Sampled(func() any {
		return map[string]any{"case": label, "kinds": len(ps), "first": ps[0].kind + " " + show(ps[0].v), "bytes": hx(want)}
	})
}

func show(v any) string {
	switch x := v.(type) {
	case *string:
		if x == nil {
			return "null"
		}
		return fmt.Sprintf("%q", short(*x))
	case []byte:
		if x == nil {
			return "null"
		}
		return hx(x)
	}
	if rv := reflect.ValueOf(v); rv.Kind() == reflect.Slice && rv.IsNil() {
		return "null"
	}
	return short(v)
}

func checkC04(r *Run) {
	r.rule = "each primitive at all int8/int16 values, boundary and random values, all lengths 0-300 and around powers of two, nulls, invalid UTF-8, over-long strings, and random sequences on one stream; distinct by bytes"
	rng := r.Rng("prim")
	g := newGen(rng, true)
	for i := -128; i < 128; i++ {
		r.primSeq("int8", []prim{pInt8(int8(i))})
	}
	for i := -32768; i < 32768; i += r.N(3, 1) {
		r.primSeq("int16", []prim{pInt16(int16(i))})
	}
	for _, i := range varInts(rng, r.N(20000, 500000)) {
		r.primSeq("ints", []prim{pInt32(int32(i)), pInt64(i), pVarInt(i), pInt16(int16(i))})
	}
	r.primSeq("bools", []prim{pBool(true), pBool(false), pBool(true)})
	for _, n := range lengths(rng) {
		b := g.bytes(n)
		s := string(b)
		ii, ll, ss := make([]int32, n), make([]int64, n), make([]string, n)
		for i := range ii {
			ii[i], ll[i] = int32(g.int(32)), g.int(64)
			ss[i] = string(b[:rng.IntN(min(n, 9)+1)])
		}
		ps := []prim{pBytes(b), pVarBytes(b), pVarString(s), pInt32s(ii), pInt64s(ll), pStrings(ss), pHeader(s, s), pHeader("", s), pArrayLength(n)}
		if n <= 32767 {
			ps = append(ps, pString(s), pNullable(&s), pStrings([]string{s, "", s}))
		}
		for _, p := range ps {
			r.primSeq(fmt.Sprintf("%s of length %d", p.kind, n), []prim{p, pInt32(0x01020304)})
		}
	}
	long := []int{1_100_000, 3_000_000, 17_000_000, 70_000_000}
	for _, n := range largeLiterals(70_001, 200_000_000) {
		long = append(long, n, n+1)
	}
	for _, n := range long {
		b := make([]byte, n)
		pattern(b, 0)
		for _, p := range []func() prim{
			func() prim { return pBytes(b) }, func() prim { return pVarBytes(b) }, func() prim { return pVarString(string(b)) }, func() prim { return pHeader("k", string(b)) }, func() prim { return pHeader(string(b), "v") },
			func() prim { v := make([]int32, n/4); v[len(v)-1] = 7; return pInt32s(v) }, func() prim { v := make([]int64, n/4); v[len(v)-1] = 7; return pInt64s(v) },
			func() prim { v := make([]string, n/4); v[len(v)-1] = "x"; return pStrings(v) }, func() prim { return pArrayLength(n) },
		} {
			r.primSeq(fmt.Sprint("length ", n), []prim{p(), pInt32(0x01020304)})
		}
		r.Max("longest_value", int64(n))
	}
	for _, s := range append(append([]string{}, strExtremes...), dictStrs...) {
		s := s
		r.primSeq("string extremes", []prim{pString(s), pNullable(&s), pVarString(s), pHeader(s, s), pStrings([]string{s, s}), pBytes([]byte(s)), pVarBytes([]byte(s))})
	}
	r.primSeq("nulls", []prim{pNullable(nil), pVarBytes(nil), pInt32s(nil), pInt64s(nil), pStrings(nil), pInt32s([]int32{}), pInt64s([]int64{}), pStrings([]string{}), pVarBytes([]byte{}), pBytes([]byte{}), pArrayLength(0), pInt8(7)})
	// any non-zero byte is true
	for i := 0; i < 256; i++ {
		v, err := message.NewDecoder([]byte{byte(i)}, 1).Bool()
		if err != nil || v != (i != 0) {
			r.Violation("a bool byte is misread", "byte %d read as %v (%v)", i, v, err)
		}
		r.Case(true, fp("bool", i))
	}
	// null markers of readers whose null is not kept apart
	null32 := []byte{0xff, 0xff, 0xff, 0xff, 9}
	if v, err := message.NewDecoder(null32, 5).Bytes(); err != nil || len(v) != 0 {
		r.Violation("null bytes are misread", "%v %v", v, err)
	}
	if v, err := message.NewDecoder(null32, 5).ArrayLength(); err != nil || v != -1 {
		r.Violation("a null array length is misread", "%v %v", v, err)
	}
	if v, err := message.NewDecoder(null32[:2], 2).String(); err != nil || v != "" {
		r.Violation("a null string is misread", "%q %v", v, err)
	}
	if v, err := message.NewDecoder([]byte{1, 9}, 2).VarString(); err != nil || v != "" {
		r.Violation("a null var string is misread", "%q %v", v, err)
	}
	// strings that do not fit their length prefix
	for _, n := range []int{32768, 32769, 40000, 65534, 65535, 65536, 65537, 65536 + 5, 98304, 131072, 200000} {
		s := string(g.bytes(n))
		for name, put := range map[string]func(e *message.Encoder){
			"string":                 func(e *message.Encoder) { e.PutString(s) },
			"nullable string":        func(e *message.Encoder) { e.PutNullableString(&s) },
			"string array":           func(e *message.Encoder) { e.PutStringArray([]string{"a", s, "b"}) },
			"string array, last":     func(e *message.Encoder) { e.PutStringArray([]string{"a", s}) },
			"string in request":      func(e *message.Encoder) { message.FindCoordinatorRequest{Key: s}.Encode(e, 1) },
			"client id":              func(e *message.Encoder) { message.RequestHeader{ClientId: s}.Encode(e, 1) },
			"string, ints following": func(e *message.Encoder) { e.PutInt32(1); e.PutString(s); e.PutInt32(1); e.PutBytes([]byte{1}) },
		} {
			var buf bytes.Buffer
			e := message.NewEncoder(&buf)
			if pa, st := safely(func() { put(e) }); pa != nil {
				r.Violation("panic while encoding an over-long string", "%s of %d bytes: %v\n%s", name, n, pa, st)
			}
			if e.Flush() == nil {
				r.Violation("a string too long for its length prefix is written", "%s of %d bytes: no error, wrote %d bytes, %s", name, n, buf.Len(), hx(buf.Bytes()[:min(16, buf.Len())]))
			}
			if bytes.Contains(buf.Bytes(), []byte(s[:1000])) {
				r.Violation("a string too long for its length prefix is written", "%s of %d bytes: the string reached the stream", name, n)
			}
			r.Case(true, fp("long", name, n))
			r.Count("over_long_strings", 1)
		}
	}
	n := r.N(30000, 1000000)
	r.Parallel(n, func(i int) {
		rng := r.Rng("seq", i)
		ps := make([]prim, 1+rng.IntN(24))
		for j := range ps {
			ps[j] = randPrim(rng)
		}
		r.primSeq("random sequence", ps)
	})
	_ = binary.MaxVarintLen64
}
