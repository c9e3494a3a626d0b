package main

import (
	"bytes"
	_ "embed"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

//go:embed schema.txt
var schemaText string

// SField is one field of a published schema, bound to the library's struct field.
type SField struct {
	Name     string
	Type     string
	Min, Max int
	Fields   []*SField
	Index    int // field of the library's struct
	Path     string
}

func (f *SField) at(ver int) bool { return ver >= f.Min && ver <= f.Max }

// Msg is one message schema bound to the library's type.
type Msg struct {
	Name     string
	Key      int16
	Min, Max int
	Flex     int // first flexible version, -1 if none
	Fields   []*SField
	Type     reflect.Type
	BindErr  string
}

type libMessage interface {
	Size(version int16) int32
	Encode(e *message.Encoder, version int16)
	Decode(d *message.Decoder, version int16) error
}

func (m *Msg) New() reflect.Value { return reflect.New(m.Type) }

func (m *Msg) flexible(ver int) bool { return m.Flex >= 0 && ver >= m.Flex }

// API is one broker method with its request and response.
type API struct {
	Name      string
	Key       int16
	Req, Resp *Msg
	LibMax    int // highest version that is both declared and not flexible
}

var (
	msgs    []*Msg
	msgMap  = map[string]*Msg{}
	apis    []*API
	apiKeys = map[int16]*API{}
)

func parseSchema() {
	type level struct {
		indent int
		fields *[]*SField
	}
	var cur *Msg
	var stack []level
	for _, line := range strings.Split(schemaText, "\n") {
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		indent := len(line) - len(strings.TrimLeft(line, " "))
		p := strings.Fields(line)
		if indent == 0 {
			key, _ := strconv.Atoi(p[1])
			lo, hi, _ := strings.Cut(p[2], "-")
			m := &Msg{Name: p[0], Key: int16(key), Flex: -1}
			m.Min, _ = strconv.Atoi(lo)
			m.Max, _ = strconv.Atoi(hi)
			if fx := strings.TrimPrefix(p[3], "flex="); fx != "-" {
				m.Flex, _ = strconv.Atoi(fx)
			}
			msgs = append(msgs, m)
			msgMap[m.Name] = m
			cur = m
			stack = []level{{0, &m.Fields}}
			continue
		}
		for stack[len(stack)-1].indent >= indent {
			stack = stack[:len(stack)-1]
		}
		f := &SField{Name: p[0], Type: p[1], Max: 32767, Index: -1}
		if lo, hi, ok := strings.Cut(p[2], "-"); ok {
			f.Min, _ = strconv.Atoi(lo)
			f.Max, _ = strconv.Atoi(hi)
		} else {
			f.Min, _ = strconv.Atoi(strings.TrimSuffix(p[2], "+"))
		}
		top := stack[len(stack)-1]
		*top.fields = append(*top.fields, f)
		if f.Type == "[]struct" {
			stack = append(stack, level{indent, &f.Fields})
		}
		_ = cur
	}
}

func bind(t reflect.Type, fields []*SField, path string) string {
	for _, f := range fields {
		f.Path = path + "." + f.Name
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" && strings.EqualFold(t.Field(i).Name, f.Name) {
				f.Index = i
			}
		}
		if f.Index < 0 {
			return fmt.Sprintf("%s has no exported field for schema field %s", t, f.Path)
		}
		ft := t.Field(f.Index).Type
		switch {
		case f.Type == "[]struct":
			if ft.Kind() != reflect.Slice || ft.Elem().Kind() != reflect.Struct {
				return fmt.Sprintf("%s: field type %s, schema says array of struct", f.Path, ft)
			}
			if e := bind(ft.Elem(), f.Fields, f.Path); e != "" {
				return e
			}
		case f.Type == "[]byte":
			if ft != reflect.TypeOf([]byte(nil)) {
				return fmt.Sprintf("%s: field type %s, schema says %s", f.Path, ft, f.Type)
			}
		default:
			if ft.String() != f.Type {
				return fmt.Sprintf("%s: field type %s, schema says %s", f.Path, ft, f.Type)
			}
		}
	}
	return ""
}

func init() {
	parseSchema()
	types := map[string]reflect.Type{
		"RequestHeader":  reflect.TypeOf(message.RequestHeader{}),
		"ResponseHeader": reflect.TypeOf(message.ResponseHeader{}),
	}
	errType := reflect.TypeOf((*error)(nil)).Elem()
	bt := reflect.TypeOf((*kafka.Broker)(nil))
	for i := 0; i < bt.NumMethod(); i++ {
		m := bt.Method(i)
		if m.Type.NumIn() != 2 || m.Type.NumOut() != 2 || m.Type.Out(1) != errType {
			continue
		}
		in, out := m.Type.In(1), m.Type.Out(0)
		if in.Name() == m.Name+"Request" && out.Name() == m.Name+"Response" {
			types[in.Name()] = in
			types[out.Name()] = out
			apis = append(apis, &API{Name: m.Name})
		}
	}
	for _, m := range msgs {
		m.Type = types[m.Name]
		if m.Type == nil {
			m.BindErr = "no broker method uses " + m.Name
			continue
		}
		m.BindErr = bind(m.Type, m.Fields, m.Name)
	}
	for _, a := range apis {
		a.Req, a.Resp = msgMap[a.Name+"Request"], msgMap[a.Name+"Response"]
		if a.Req == nil || a.Resp == nil {
			continue
		}
		a.Key = a.Req.Key
		a.LibMax = a.Req.Max
		// the library cannot encode flexible versions, so those are not supported
		// by it, unless no other version of the API exists
		if a.Req.Flex > 0 {
			a.LibMax = a.Req.Flex - 1
		}
		apiKeys[a.Key] = a
	}
	sort.Slice(apis, func(i, j int) bool { return apis[i].Key < apis[j].Key })
}

// requireBindings fails the run if the schema does not fit the library's types.
func requireBindings(r *Run) {
	for _, m := range msgs {
		if m.BindErr != "" {
			if r.ID == "C03" {
				r.Violation("a field of the published schema cannot be set or read by callers", "%s", m.BindErr)
			}
			r.Fail("cannot bind %s: %s", m.Name, m.BindErr)
		}
	}
	if len(apis) != 48 {
		r.Fail("expected 48 broker methods, found %d", len(apis))
	}
}

// ---- reference codec -------------------------------------------------------

type lenPos struct {
	Off  int
	Kind string // "string", "bytes", "array"
	N    int    // value
	Path string
}

type encOpts struct {
	flex    bool
	nilNull bool       // nil arrays as null, not empty
	nulls   *rand.Rand // null instead of empty at random
	rec     *[]lenPos
}

func (o *encOpts) null(isNil bool) bool {
	if o.nulls != nil {
		return o.nulls.IntN(2) == 0
	}
	return false
}

func refEncode(b []byte, v reflect.Value, fields []*SField, ver int, o *encOpts) []byte {
	for _, f := range fields {
		if !f.at(ver) {
			continue
		}
		fv := v.Field(f.Index)
		switch f.Type {
		case "bool":
			if fv.Bool() {
				b = append(b, 1)
			} else {
				b = append(b, 0)
			}
		case "int8":
			b = append(b, byte(fv.Int()))
		case "int16":
			b = binary.BigEndian.AppendUint16(b, uint16(fv.Int()))
		case "int32":
			b = binary.BigEndian.AppendUint32(b, uint32(fv.Int()))
		case "int64":
			b = binary.BigEndian.AppendUint64(b, uint64(fv.Int()))
		case "string":
			b = refString(b, fv.String(), f.Path, o)
		case "[]byte":
			n := fv.Len()
			if o.flex {
				b = binary.AppendUvarint(b, uint64(n)+1)
			} else {
				if n == 0 && o.null(fv.IsNil()) {
					n = -1
				}
				if o.rec != nil {
					*o.rec = append(*o.rec, lenPos{len(b), "bytes", n, f.Path})
				}
				b = binary.BigEndian.AppendUint32(b, uint32(int32(n)))
			}
			b = append(b, fv.Bytes()...)
		default: // arrays
			n := fv.Len()
			if o.flex {
				b = binary.AppendUvarint(b, uint64(n)+1)
			} else {
				if n == 0 && (o.nilNull && fv.IsNil() && f.Type != "[]struct" || o.null(fv.IsNil())) {
					n = -1
				}
				if o.rec != nil {
					*o.rec = append(*o.rec, lenPos{len(b), "array", n, f.Path})
				}
				b = binary.BigEndian.AppendUint32(b, uint32(int32(n)))
			}
			switch f.Type {
			case "[]int32":
				for i := 0; i < n; i++ {
					b = binary.BigEndian.AppendUint32(b, uint32(fv.Index(i).Int()))
				}
			case "[]int64":
				for i := 0; i < n; i++ {
					b = binary.BigEndian.AppendUint64(b, uint64(fv.Index(i).Int()))
				}
			case "[]string":
				for i := 0; i < n; i++ {
					b = refString(b, fv.Index(i).String(), f.Path, o)
				}
			case "[]struct":
				for i := 0; i < n; i++ {
					b = refEncode(b, fv.Index(i), f.Fields, ver, o)
				}
			default:
				panic("schema type " + f.Type)
			}
		}
	}
	if o.flex {
		b = append(b, 0) // no tagged fields
	}
	return b
}

func refString(b []byte, s string, path string, o *encOpts) []byte {
	if o.flex {
		b = binary.AppendUvarint(b, uint64(len(s))+1)
		return append(b, s...)
	}
	n := len(s)
	if n == 0 && o.null(false) {
		n = -1
	}
	if o.rec != nil {
		*o.rec = append(*o.rec, lenPos{len(b), "string", n, path})
	}
	b = binary.BigEndian.AppendUint16(b, uint16(int16(n)))
	return append(b, s...)
}

// encode lays a value out by the published schema (legacy, non-flexible form).
func (m *Msg) encode(v reflect.Value, ver int) []byte {
	return refEncode(nil, reflect.Indirect(v), m.Fields, ver, &encOpts{})
}

func (m *Msg) encodeOpt(v reflect.Value, ver int, o *encOpts) []byte {
	return refEncode(nil, reflect.Indirect(v), m.Fields, ver, o)
}

// acceptable reports whether raw is a legal layout of v, allowing nil arrays to be
// null or empty, in the legacy or, where the version has one, the flexible form.
func (m *Msg) acceptable(raw []byte, v reflect.Value, ver int) (legacy, flexible bool) {
	legacy = bytes.Equal(raw, m.encodeOpt(v, ver, &encOpts{nilNull: true})) || bytes.Equal(raw, m.encodeOpt(v, ver, &encOpts{}))
	if m.flexible(ver) {
		flexible = bytes.Equal(raw, m.encodeOpt(v, ver, &encOpts{flex: true}))
	}
	return
}

// diff compares got with want at ver: carried fields equal (null equals empty),
// all others zero.  It returns a description of the first difference or "".
func diffFields(want, got reflect.Value, fields []*SField, ver int) string {
	carried := make([]bool, got.NumField())
	for _, f := range fields {
		if !f.at(ver) {
			continue
		}
		carried[f.Index] = true
		w, g := want.Field(f.Index), got.Field(f.Index)
		switch f.Type {
		case "bool", "int8", "int16", "int32", "int64", "string":
			if w.Interface() != g.Interface() {
				return fmt.Sprintf("%s: want %q got %q", f.Path, short(w.Interface()), short(g.Interface()))
			}
		case "[]byte":
			if !bytes.Equal(w.Bytes(), g.Bytes()) {
				return fmt.Sprintf("%s: want %d bytes %s got %d bytes %s", f.Path, w.Len(), hx(w.Bytes()), g.Len(), hx(g.Bytes()))
			}
		default:
			if w.Len() != g.Len() {
				return fmt.Sprintf("%s: want %d elements got %d", f.Path, w.Len(), g.Len())
			}
			for i := 0; i < w.Len(); i++ {
				if f.Type == "[]struct" {
					if d := diffFields(w.Index(i), g.Index(i), f.Fields, ver); d != "" {
						return fmt.Sprintf("[%d] %s", i, d)
					}
				} else if w.Index(i).Interface() != g.Index(i).Interface() {
					return fmt.Sprintf("%s[%d]: want %v got %v", f.Path, i, w.Index(i), g.Index(i))
				}
			}
		}
	}
	for i := range carried {
		if !carried[i] && !got.Field(i).IsZero() && !(got.Field(i).Kind() == reflect.Slice && got.Field(i).Len() == 0) {
			return fmt.Sprintf("%s.%s is not carried by version %d but was set to %v", got.Type(), got.Type().Field(i).Name, ver, short(got.Field(i).Interface()))
		}
	}
	return ""
}

func (m *Msg) diff(want, got reflect.Value, ver int) string {
	return diffFields(reflect.Indirect(want), reflect.Indirect(got), m.Fields, ver)
}

// deepClone copies a message value.
func deepClone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			out.Field(i).Set(deepClone(v.Field(i)))
		}
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		if v.Type().Elem().Kind() == reflect.Struct {
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(deepClone(v.Index(i)))
			}
		} else {
			reflect.Copy(out, v)
		}
	default:
		out.Set(v)
	}
	return out
}

// ---- library codec ---------------------------------------------------------

func libEncode(v reflect.Value, ver int) ([]byte, error) {
	var buf bytes.Buffer
	e := message.NewEncoder(&buf)
	v.Interface().(libMessage).Encode(e, int16(ver))
	err := e.Flush()
	return buf.Bytes(), err
}
