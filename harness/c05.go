package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime/metrics"

	"github.com/savaki/kafka/message"
)

func init() {
	checks["C05"] = checkC05
}

// reader is anything that decodes: a message at a version or a primitive.
type reader struct {
	name string
	read func(d *message.Decoder) (any, error)
}

func messageReader(m *Msg, ver int) reader {
	return reader{fmt.Sprintf("%s v%d", m.Name, ver), func(d *message.Decoder) (any, error) {
		v := m.New()
		err := v.Interface().(libMessage).Decode(d, int16(ver))
		return v.Interface(), err
	}}
}

var primReaders = []reader{
	{"ArrayLength", func(d *message.Decoder) (any, error) { return d.ArrayLength() }},
	{"Bool", func(d *message.Decoder) (any, error) { return d.Bool() }},
	{"Bytes", func(d *message.Decoder) (any, error) { return d.Bytes() }},
	{"Int8", func(d *message.Decoder) (any, error) { return d.Int8() }},
	{"Int16", func(d *message.Decoder) (any, error) { return d.Int16() }},
	{"Int32", func(d *message.Decoder) (any, error) { return d.Int32() }},
	{"Int32Array", func(d *message.Decoder) (any, error) { return d.Int32Array() }},
	{"Int64", func(d *message.Decoder) (any, error) { return d.Int64() }},
	{"Int64Array", func(d *message.Decoder) (any, error) { return d.Int64Array() }},
	{"NullableString", func(d *message.Decoder) (any, error) { return d.NullableString() }},
	{"String", func(d *message.Decoder) (any, error) { return d.String() }},
	{"StringArray", func(d *message.Decoder) (any, error) { return d.StringArray() }},
	{"VarBytes", func(d *message.Decoder) (any, error) { return d.VarBytes() }},
	{"VarInt", func(d *message.Decoder) (any, error) { return d.VarInt() }},
	{"VarString", func(d *message.Decoder) (any, error) { return d.VarString() }},
}

// try decodes data three times, alone and followed by two different poisons that
// lie beyond the declared length, and demands the same outcome without a panic.
func (r *Run) try(rd reader, data []byte, skip int, why string) (any, error) {
	type out struct {
		v     any
		err   string
		e     error
		after string
	}
	run := func(buf []byte, length int) (o out) {
		if pa, st := safely(func() {
			d := message.NewDecoder(buf, length)
			if skip > 0 {
				if err := d.Discard(skip); err != nil {
					r.Violation("skipping bytes failed", "%v", err)
				}
			}
			o.v, o.e = rd.read(d)
			if o.e != nil {
				o.err = o.e.Error()
				o.v = nil
			}
			// how much is left can be observed by reading on
			n := 0
			for n <= length {
				if _, err := d.Int8(); err != nil {
					break
				}
				n++
			}
			if o.e == nil {
				o.after = fmt.Sprint(n)
			}
			if n > length {
				o.after = "endless"
			}
		}); pa != nil {
			r.Violation("decoding panicked", "%s (%s): %v\ninput (length %d of %d): %s\n%s", rd.name, why, pa, length, len(buf), hx(buf[:length]), st)
		}
		return
	}
	exact := append(make([]byte, 0, len(data)), data...)
	a := run(exact[:len(data):len(data)], len(data))
	b := run(append(append([]byte{}, data...), bytes.Repeat([]byte{0x00}, 40)...), len(data))
	c := run(append(append([]byte{}, data...), bytes.Repeat([]byte{0x01, 0xFF, 0x7F}, 14)...), len(data))
	for i, o := range []out{b, c} {
		if a.err != o.err || a.after != o.after || !reflect.DeepEqual(a.v, o.v) {
			r.Violation("decoding depends on bytes beyond the declared length", "%s (%s): alone %s (%s, left %s), followed by poison %d %s (%s, left %s)\ninput: %s", rd.name, why, short(a.v), a.err, a.after, i, short(o.v), o.err, o.after, hx(data))
		}
	}
	if a.after == "endless" {
		r.Violation("decoding reads beyond the declared length", "%s (%s): input %s", rd.name, why, hx(data))
	}
	if a.e != nil {
		r.Count("rejected", 1)
	} else {
		r.Count("accepted", 1)
	}
	return a.v, a.e
}

func setInt(data []byte, off, size int, v int64) []byte {
	out := append([]byte{}, data...)
	copy(out[off:], be(size, v))
	return out
}

func mutate(rng *rand.Rand, data []byte, lens []lenPos) ([]byte, string) {
	out := append([]byte{}, data...)
	why := ""
	for k := 1 + rng.IntN(3); k > 0; k-- {
		switch c := rng.IntN(8); {
		case c < 3 && len(lens) > 0:
			l := lens[rng.IntN(len(lens))]
			size := 4
			if l.Kind == "string" {
				size = 2
			}
			vals := []int64{-1, -2, -3, -128, -32768, -2147483648, 0, 1, int64(l.N) + 1, int64(l.N) - 1, int64(l.N) + 2, int64(len(data)), int64(len(data) - l.Off), int64(len(data) - l.Off - size), 127, 255, 256, 32767, 65535, 1 << 20, 1 << 28, 2147483647}
			if l.Off+size <= len(out) {
				copy(out[l.Off:], be(size, vals[rng.IntN(len(vals))]))
			}
			why += "length field;"
		case c == 3 && len(out) > 0:
			out = out[:rng.IntN(len(out))]
			why += "truncated;"
		case c == 4 && len(out) > 0:
			out[rng.IntN(len(out))] ^= 1 << rng.IntN(8)
			why += "bit flip;"
		case c == 5 && len(out) > 0:
			out[rng.IntN(len(out))] = []byte{0, 1, 0x7f, 0x80, 0xff}[rng.IntN(5)]
			why += "byte;"
		case c == 6 && len(out) > 2:
			i, n := rng.IntN(len(out)), 1+rng.IntN(4)
			if i+n > len(out) {
				n = len(out) - i
			}
			out = append(out[:i:i], out[i+n:]...)
			why += "deletion;"
		default:
			i := rng.IntN(len(out) + 1)
			ins := newGen(rng, true).bytes(1 + rng.IntN(4))
			out = append(out[:i:i], append(ins, out[i:]...)...)
			why += "insertion;"
		}
	}
	return out, why
}

// the prefix clause says data so far is not enough
func (r *Run) prefixes(rd reader, data []byte, rng *rand.Rand, maxCuts int) {
	cut := func(n int) {
		_, err := r.try(rd, data[:n], 0, "prefix")
		if err == nil {
			r.Violation("a strict prefix of a valid encoding is accepted", "%s: %d of %d bytes: %s", rd.name, n, len(data), hx(data[:n]))
		}
		if !message.IsInsufficientDataError(err) {
			r.Violation("a strict prefix of a valid encoding is not reported as insufficient data", "%s: %d of %d bytes: %v\n%s", rd.name, n, len(data), err, hx(data[:n]))
		}
		r.Case(true, fp("prefix", rd.name, data[:n]))
	}
	if len(data) <= maxCuts {
		for n := 0; n < len(data); n++ {
			cut(n)
		}
		return
	}
	for i := 0; i < maxCuts; i++ {
		cut(rng.IntN(len(data)))
	}
	cut(len(data) - 1)
	cut(0)
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func checkC05(r *Run) {
	requireBindings(r)
	r.rule = "every message type x version and every primitive reader on: all strict prefixes of valid encodings, every length field rewritten (negative, too large, off by one), random mutations and random bytes, each with and without bytes beyond the declared length; allocation measured per decode; distinct by reader and input"
	type unit struct {
		m   *Msg
		ver int
	}
	var units []unit
	for _, m := range msgs {
		for ver := m.Min; ver <= m.Max; ver++ {
			units = append(units, unit{m, ver})
		}
	}
	// 1. allocation, measured alone so that the counter is this decode's
	maxRatio := int64(0)
	for ui, u := range units {
		rng := r.Rng("alloc", ui)
		g := newGen(rng, false)
		g.Arr = func(f *SField, depth int) int { return 1 }
		var lens []lenPos
		data := u.m.encodeOpt(g.New(u.m), u.ver, &encOpts{rec: &lens})
		rd := messageReader(u.m, u.ver)
		// a larger body leaves room for larger claims
		for _, pad := range []int{0, 5000} {
			body := append(append([]byte{}, data...), bytes.Repeat([]byte{0}, pad)...)
			for _, l := range lens {
				size := 4
				if l.Kind == "string" {
					size = 2
				}
				for _, v := range []int64{2147483647, 1 << 28, 1 << 24, 1 << 20, 1 << 16, int64(len(body)), int64(len(body) - l.Off - size), 32767, -2147483648, -2, -1000000} {
					in := setInt(body, l.Off, size, v)
					var pa any
					var st string
					a0 := allocated()
					pa, st = safely(func() { rd.read(message.NewDecoder(in, len(in))) })
					a1 := allocated()
					if pa != nil {
						r.Violation("decoding panicked", "%s with %s at %d set to %d: %v\n%s\n%s", rd.name, l.Path, l.Off, v, pa, hx(in), st)
					}
					used := int64(a1 - a0)
					if used > 1<<20+1024*int64(len(in)) {
						r.Violation("decoding allocates memory out of proportion to the message", "%s with the length of %s set to %d: %d bytes allocated for an input of %d bytes\ninput: %s", rd.name, l.Path, v, used, len(in), hx(in))
					}
					if rt := used / int64(len(in)+1); rt > maxRatio {
						maxRatio = rt
					}
					r.Case(true, fp("alloc", rd.name, in))
				}
			}
		}
	}
	r.counters["max_allocated_per_input_byte"] = maxRatio
	for _, rd := range primReaders {
		for _, pad := range []int{0, 100, 5000} {
			for _, head := range [][]byte{be(4, 2147483647), be(4, 1<<28), be(4, 1<<20), be(4, -2147483648), be(4, -2), be(2, 32767), be(2, -32768), zigzag(nil, 1<<40), zigzag(nil, 1<<62), zigzag(nil, -1<<62), zigzag(nil, 1<<31), zigzag(nil, -2), zigzag(nil, 9223372036854775807), zigzag(nil, -9223372036854775808)} {
				in := append(append([]byte{}, head...), make([]byte, pad)...)
				a0 := allocated()
				pa, st := safely(func() { rd.read(message.NewDecoder(in, len(in))) })
				a1 := allocated()
				if pa != nil {
					r.Violation("decoding panicked", "%s: %v\n%s\n%s", rd.name, pa, hx(in), st)
				}
				if used := int64(a1 - a0); used > 1<<20+1024*int64(len(in)) {
					r.Violation("decoding allocates memory out of proportion to the message", "%s: %d bytes allocated for an input of %d bytes: %s", rd.name, used, len(in), hx(in))
				}
				r.Case(true, fp("alloc", rd.name, in))
			}
		}
	}
	// 2. messages
	r.Parallel(len(units), func(ui int) {
		u := units[ui]
		rng := r.Rng("msg", ui)
		rd := messageReader(u.m, u.ver)
		for k := 0; k < r.N(3, 12); k++ {
			g := newGen(rng, k > 0)
			if k == 0 {
				g.Arr = func(f *SField, depth int) int { return 1 + rng.IntN(2) }
			}
			g.budget = 300
			var lens []lenPos
			data := u.m.encodeOpt(g.New(u.m), u.ver, &encOpts{rec: &lens})
			if _, err := r.try(rd, data, 0, "valid"); err != nil {
				r.Violation("a valid encoding is rejected", "%s: %v\n%s", rd.name, err, hx(data))
			}
			r.prefixes(rd, data, rng, r.N(250, 2000))
			// negative lengths
			for li, l := range lens {
				if li > 60 {
					break
				}
				size, lo := 4, int64(-2147483648)
				if l.Kind == "string" {
					size, lo = 2, -32768
				}
				for _, v := range []int64{-2, -3, -100, lo, lo + 1} {
					in := setInt(data, l.Off, size, v)
					if _, err := r.try(rd, in, 0, "negative length"); err == nil {
						r.Violation("a negative length is accepted", "%s: length of %s (%s) set to %d\n%s", rd.name, l.Path, l.Kind, v, hx(in))
					}
					r.Case(true, fp("neg", rd.name, in))
				}
				// longer than what is left
				left := int64(len(data) - l.Off - size)
				in := setInt(data, l.Off, size, left+1)
				if left+1 <= 32767 || size == 4 {
					if _, err := r.try(rd, in, 0, "length beyond the end"); err == nil {
						r.Violation("a length beyond the end of the message is accepted", "%s: length of %s (%s) set to %d with %d bytes left\n%s", rd.name, l.Path, l.Kind, left+1, left, hx(in))
					}
					r.Case(true, fp("beyond", rd.name, in))
				}
			}
			for j := 0; j < r.N(150, 6000); j++ {
				in, why := mutate(rng, data, lens)
				r.try(rd, in, 0, why)
				r.Case(true, fp("mut", rd.name, in))
			}
		}
		for j := 0; j < r.N(40, 2000); j++ {
			in := newGen(rng, true).bytes(rng.IntN(80))
			if rng.IntN(2) == 0 { // mostly zero bytes get further
				for i := range in {
					if rng.IntN(4) > 0 {
						in[i] = 0
					}
				}
			}
			r.try(rd, in, rng.IntN(len(in)+1), "random bytes")
			r.Case(true, fp("rnd", rd.name, in))
			r.Sampled(func() any { return map[string]any{"reader": rd.name, "input": hx(in)} })
		}
	})
	// 3. primitive readers
	r.Parallel(len(primReaders), func(pi int) {
		rd := primReaders[pi]
		rng := r.Rng("prim", pi)
		for j := 0; j < r.N(6000, 300000); j++ {
			p := randPrim(rng)
			if len(p.want) > 600 {
				continue
			}
			in := append([]byte{}, p.want...)
			if rng.IntN(2) == 0 {
				in = newGen(rng, true).bytes(rng.IntN(30))
			}
			switch rng.IntN(4) {
			case 0:
				in, _ = mutate(rng, in, []lenPos{{0, "array", 0, ""}})
			case 1:
				in, _ = mutate(rng, in, []lenPos{{0, "string", 0, ""}})
			case 2:
				in = append(zigzag(nil, []int64{-2, -3, -1 << 31, -1 << 63, 1<<63 - 1, 1 << 31, int64(len(in)), int64(len(in)) + 1}[rng.IntN(8)]), in...)
			}
			skip := 0
			if rng.IntN(3) == 0 {
				skip = rng.IntN(len(in) + 1)
			}
			r.try(rd, in, skip, "primitive")
			r.Case(true, fp("prim", rd.name, in, skip))
		}
		// varints: overlong, unterminated, split by the length
		for n := 0; n <= 24; n++ {
			for _, last := range []byte{0x00, 0x01, 0x02, 0x7f, 0x80, 0xff} {
				in := append(bytes.Repeat([]byte{0xff}, n), last)
				r.try(rd, in, 0, "varint shape")
				r.try(rd, in[:n], 0, "varint shape")
				in = append(bytes.Repeat([]byte{0x80}, n), last)
				r.try(rd, in, 0, "varint shape")
				r.Case(true, fp("varint", rd.name, in))
			}
		}
		// Discard is bounded too
		for n := -3; n < 20; n++ {
			buf := make([]byte, 40)
			var err error
			if pa, st := safely(func() { err = message.NewDecoder(buf, 10).Discard(n) }); pa != nil {
				r.Violation("decoding panicked", "Discard(%d): %v\n%s", n, pa, st)
			}
			if (err == nil) != (n >= 0 && n <= 10) {
				r.Violation("skipping beyond the declared length", "Discard(%d) of 10: %v", n, err)
			}
		}
	})
	// prefixes and negative lengths of single primitives, by type
	type kind struct {
		rd   reader
		make func(rng *rand.Rand) prim
	}
	by := map[string]reader{}
	for _, rd := range primReaders {
		by[rd.name] = rd
	}
	names := map[string]string{"int8": "Int8", "int16": "Int16", "int32": "Int32", "int64": "Int64", "bool": "Bool", "varint": "VarInt", "string": "String", "varstring": "VarString", "nullable string": "NullableString", "bytes": "Bytes", "varbytes": "VarBytes", "[]int32": "Int32Array", "[]int64": "Int64Array", "[]string": "StringArray"}
	rng := r.Rng("primprefix")
	for i := 0; i < r.N(4000, 60000); i++ {
		p := randPrim(rng)
		rd, ok := by[names[p.kind]]
		if !ok || len(p.want) > 3000 {
			continue
		}
		v, err := r.try(rd, p.want, 0, "valid")
		if err != nil || !samePrim(p, v) {
			r.Violation("a valid primitive is rejected or misread", "%s %s: %s %v", p.kind, show(p.v), show(v), err)
		}
		r.prefixes(rd, p.want, rng, 120)
	}
	neg := func(rd reader, in []byte) {
		if _, err := r.try(rd, in, 0, "negative length"); err == nil {
			r.Violation("a negative length is accepted", "%s: %s", rd.name, hx(in))
		}
		r.Case(true, fp("primneg", rd.name, in))
	}
	tail := bytes.Repeat([]byte{0}, 30)
	for _, v := range []int64{-2, -3, -4, -127, -128, -129, -1000, -32767, -32768} {
		neg(by["String"], append(be(2, v), tail...))
		neg(by["NullableString"], append(be(2, v), tail...))
		neg(by["StringArray"], append(append(be(4, 1), be(2, v)...), tail...))
		for _, n := range []string{"Bytes", "Int32Array", "Int64Array", "StringArray", "ArrayLength"} {
			neg(by[n], append(be(4, v), tail...))
			neg(by[n], append(be(4, v*65536), tail...))
		}
		for _, n := range []string{"VarBytes", "VarString"} {
			neg(by[n], append(zigzag(nil, v), tail...))
			neg(by[n], append(zigzag(nil, v<<40), tail...))
		}
	}
	_ = kind{}
}
