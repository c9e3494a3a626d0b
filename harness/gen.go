package main

import (
	"math"
	"math/rand/v2"
	"reflect"
)

// Gen fills message values.  mode 0: unique markers, 1: random with extremes.
type Gen struct {
	r       *rand.Rand
	marker  int64
	budget  int // elements and bytes left
	Extreme bool
	Arr     func(f *SField, depth int) int // array length, -1 for nil
	Leaf    func(f *SField, v reflect.Value) bool
	MaxStr  int
	style   int // of extreme values: 0 mostly the usual sentinels, 1 mostly repeated values, else anything
}

func newGen(r *rand.Rand, extreme bool) *Gen {
	g := &Gen{r: r, Extreme: extreme, budget: 4000, MaxStr: 40, style: 9}
	if extreme {
		g.style = r.IntN(4)
	}
	return g
}

var int64Extremes = []int64{0, 1, -1, 2, -2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
	math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32, math.MaxInt64, math.MinInt64, 0x0102030405060708, -0x0102030405060708}

func (g *Gen) int(bits int) int64 {
	g.marker++
	var v int64
	switch {
	case !g.Extreme:
		// distinct bytes everywhere, distinct between fields
		v = 0x5123456789ABCDEF + g.marker*0x0101010101010101*7
	case g.style == 0 && g.r.IntN(4) > 0:
		v = []int64{0, -1, 1}[g.r.IntN(3)]
	case g.style == 1 && g.r.IntN(4) > 0:
		v = []int64{7, 8}[g.r.IntN(2)]
	case len(dictInts) > 0 && g.r.IntN(6) == 0:
		v = dictInts[g.r.IntN(len(dictInts))]
	case g.r.IntN(3) == 0:
		v = int64Extremes[g.r.IntN(len(int64Extremes))]
	default:
		v = int64(g.r.Uint64()) >> g.r.IntN(64)
	}
	switch bits {
	case 8:
		return int64(int8(v))
	case 16:
		return int64(int16(v))
	case 32:
		return int64(int32(v))
	}
	return v
}

var strExtremes = []string{"", "a", "\x00", "\xff\xfe\xfd", "h\xc3\xa9llo", "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\x80abc\xc0", "tab\tnl\n", "\u2028", " lead", "trail ", "UPPER", "a.b_c-d", "__consumer_offsets", "null", "\r\n", "nul\x00"}

func (g *Gen) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.r.Uint32())
	}
	return b
}

func (g *Gen) string() string {
	g.marker++
	if !g.Extreme {
		return "s" + string(rune('A'+g.marker%26)) + string(g.bytes(int(g.marker%5))) + string(rune('a'+g.marker/26%26))
	}
	if g.style == 0 && g.r.IntN(3) > 0 {
		return []string{"", "", "a"}[g.r.IntN(3)]
	}
	if g.style == 1 && g.r.IntN(4) > 0 {
		return []string{"dup", "dup", "Dup"}[g.r.IntN(3)]
	}
	if len(dictStrs) > 0 && g.r.IntN(10) == 0 {
		return dictStrs[g.r.IntN(len(dictStrs))]
	}
	switch g.r.IntN(6) {
	case 0:
		return ""
	case 1:
		return strExtremes[g.r.IntN(len(strExtremes))]
	case 2:
		n := []int{126, 127, 128, 129, 254, 255, 256, 257, 1000}[g.r.IntN(9)]
		if n > g.budget {
			n = 3
		}
		g.budget -= n
		return string(g.bytes(n))
	}
	return string(g.bytes(g.r.IntN(g.MaxStr)))
}

func (g *Gen) arrLen(f *SField, depth int) int {
	if g.Arr != nil {
		return g.Arr(f, depth)
	}
	if !g.Extreme {
		return 2 + int(g.marker)%2
	}
	n := 0
	switch g.r.IntN(8) {
	case 0:
		n = 0
	case 1:
		return -1
	case 2, 3:
		n = 1
	case 4, 5:
		n = 2
	case 6:
		n = 3 + g.r.IntN(4)
	case 7:
		if depth == 0 || f.Type != "[]struct" {
			n = []int{16, 127, 128, 129, 255, 256, 257}[g.r.IntN(7)]
		} else {
			n = g.r.IntN(12)
		}
	}
	if n > g.budget/4 {
		n = max(0, min(n, g.budget/4, 1))
	}
	g.budget -= n
	return n
}

func (g *Gen) fill(v reflect.Value, fields []*SField, depth int) {
	for _, f := range fields {
		fv := v.Field(f.Index)
		if g.Leaf != nil && g.Leaf(f, fv) {
			continue
		}
		switch f.Type {
		case "bool":
			if g.Extreme {
				fv.SetBool(g.r.IntN(2) == 0)
			} else {
				fv.SetBool(true)
			}
		case "int8":
			fv.SetInt(g.int(8))
		case "int16":
			fv.SetInt(g.int(16))
		case "int32":
			fv.SetInt(g.int(32))
		case "int64":
			fv.SetInt(g.int(64))
		case "string":
			fv.SetString(g.string())
		case "[]byte":
			if g.Extreme && g.r.IntN(5) == 0 {
				if g.r.IntN(2) == 0 {
					fv.SetBytes([]byte{})
				}
			} else if !g.Extreme {
				g.marker++
				fv.SetBytes(g.bytes(3 + int(g.marker%4)))
			} else {
				fv.SetBytes(g.bytes(g.r.IntN(200)))
			}
		default:
			n := g.arrLen(f, depth)
			if n < 0 {
				continue
			}
			s := reflect.MakeSlice(fv.Type(), n, n)
			for i := 0; i < n; i++ {
				switch f.Type {
				case "[]int32":
					s.Index(i).SetInt(g.int(32))
				case "[]int64":
					s.Index(i).SetInt(g.int(64))
				case "[]string":
					s.Index(i).SetString(g.string())
				default:
					g.fill(s.Index(i), f.Fields, depth+1)
				}
			}
			fv.Set(s)
		}
	}
}

func (g *Gen) New(m *Msg) reflect.Value {
	v := m.New()
	g.fill(v.Elem(), m.Fields, 0)
	return v
}

// ---- systematic cases ------------------------------------------------------

// leaves lists every field of a message, nested ones included.
func leaves(fields []*SField) []*SField {
	var out []*SField
	for _, f := range fields {
		out = append(out, f)
		if f.Type == "[]struct" {
			out = append(out, leaves(f.Fields)...)
		}
	}
	return out
}

// focused returns values in which one field takes each of its boundary values and
// everything else is minimal but present (arrays of one element).
func focused(r *rand.Rand, m *Msg, target *SField, big bool, yield func(v reflect.Value, label string)) {
	build := func(set func(fv reflect.Value), label string) {
		g := newGen(r, false)
		g.Arr = func(f *SField, depth int) int { return 1 }
		g.Leaf = func(f *SField, fv reflect.Value) bool {
			if f == target {
				set(fv)
				return true
			}
			return false
		}
		yield(g.New(m), target.Path+"="+label)
	}
	switch target.Type {
	case "bool":
		build(func(fv reflect.Value) { fv.SetBool(true) }, "true")
		build(func(fv reflect.Value) { fv.SetBool(false) }, "false")
	case "int8", "int16", "int32", "int64":
		seen := map[int64]bool{}
		for _, x := range append(append([]int64{}, int64Extremes...), dictInts...) {
			bits := map[string]uint{"int8": 8, "int16": 16, "int32": 32, "int64": 64}[target.Type]
			y := x << (64 - bits) >> (64 - bits)
			if seen[y] {
				continue
			}
			seen[y] = true
			build(func(fv reflect.Value) { fv.SetInt(y) }, "int")
		}
	case "string":
		for _, s := range append(append([]string{}, strExtremes...), dictStrs...) {
			build(func(fv reflect.Value) { fv.SetString(s) }, "string")
		}
		lens := []int{127, 128, 255, 256}
		if big {
			lens = append(lens, within(dictLengths, 32767)...)
			lens = append(lens, 4095, 4096, 4097, 32766, 32767)
		}
		for _, n := range lens {
			s := string(newGen(r, true).bytes(n))
			build(func(fv reflect.Value) { fv.SetString(s) }, "long string")
		}
	case "[]byte":
		build(func(fv reflect.Value) {}, "nil")
		lens := []int{0, 1, 127, 128, 255, 256, 300}
		if big {
			lens = append(lens, dictLengths...)
			lens = append(lens, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 100001)
		}
		for _, n := range lens {
			s := newGen(r, true).bytes(n)
			build(func(fv reflect.Value) { fv.SetBytes(s) }, "bytes")
		}
	default:
		build(func(fv reflect.Value) {}, "nil")
		lens := []int{0, 1, 2, 3, 5, 17}
		if big {
			lens = append(lens, 127, 128, 129, 255, 256, 257, 300, 1025)
			lens = append(lens, within(dictLengths, 5000)...)
			if r.IntN(6) == 0 {
				lens = append(lens, 32767, 32768, 65537)
			}
		}
		for _, n := range lens {
			g := newGen(r, false)
			if n <= 300 && n > 1 {
				g.Extreme = true
			}
			g.Arr = func(f *SField, depth int) int {
				if n > 300 {
					return r.IntN(40) / 39 // mostly empty
				}
				return r.IntN(3)
			}
			build(func(fv reflect.Value) {
				s := reflect.MakeSlice(fv.Type(), n, n)
				for i := 0; i < n; i++ {
					switch target.Type {
					case "[]int32":
						s.Index(i).SetInt(g.int(32))
					case "[]int64":
						s.Index(i).SetInt(g.int(64))
					case "[]string":
						s.Index(i).SetString(g.string())
					default:
						g.budget = 1000
						g.fill(s.Index(i), target.Fields, 1)
					}
				}
				fv.Set(s)
			}, "array")
		}
	}
}

func within(lens []int, limit int) []int {
	var out []int
	for _, n := range lens {
		if n <= limit {
			out = append(out, n)
		}
	}
	return out
}

// workload drives fn over marker, random and focused values of every message at
// every declared version.
type work struct {
	m     *Msg
	ver   int
	v     reflect.Value
	label string
}

func (r *Run) workload(label string, randomPer int, fn func(w work)) {
	type unit struct {
		m   *Msg
		ver int
	}
	var units []unit
	for _, m := range msgs {
		for ver := m.Min; ver <= m.Max; ver++ {
			units = append(units, unit{m, ver})
		}
	}
	r.Parallel(len(units), func(i int) {
		u := units[i]
		rng := r.Rng(label, i)
		fn(work{u.m, u.ver, u.m.New(), "zero value"})
		for k := 0; k < 3; k++ {
			g := newGen(rng, false)
			g.marker = int64(rng.IntN(1000))
			fn(work{u.m, u.ver, g.New(u.m), "markers"})
		}
		big := u.ver == u.m.Max || u.ver == u.m.Min || rng.IntN(4) == 0 || r.Thorough()
		for _, f := range leaves(u.m.Fields) {
			focused(rng, u.m, f, big, func(v reflect.Value, label string) {
				fn(work{u.m, u.ver, v, label})
			})
		}
		for k := 0; k < randomPer; k++ {
			g := newGen(rng, true)
			if k%7 == 6 {
				g.budget = 20000
				g.MaxStr = 300
			}
			fn(work{u.m, u.ver, g.New(u.m), "random"})
		}
	})
}
