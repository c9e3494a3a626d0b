package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"sort"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func init() { checks["C18"] = checkC18 }

// listHeader is an ordered header that allows duplicate keys.
type listHeader [][2]string

func (l listHeader) Get(key string) (string, bool) {
	for _, kv := range l {
		if kv[0] == key {
			return kv[1], true
		}
	}
	return "", false
}

func (l listHeader) Range(fn func(key, value string)) {
	for _, kv := range l {
		fn(kv[0], kv[1])
	}
}

type parsedRecord struct {
	attributes           int8
	tsDelta, offsetDelta int64
	key, value           []byte // nil is null
	headers              [][2]string
}

type parsedBatch struct {
	baseOffset      int64
	batchLength     int32
	leaderEpoch     int32
	magic           int8
	crc             int32
	attributes      int16
	lastOffsetDelta int32
	firstTs, maxTs  int64
	producerID      int64
	producerEpoch   int16
	baseSequence    int32
	records         []parsedRecord
}

// parser of Kafka's record batch format v2, independent of the library
type rbParser struct {
	b   []byte
	err error
}

func (p *rbParser) take(n int) []byte {
	if p.err == nil && (n < 0 || n > len(p.b)) {
		p.err = fmt.Errorf("need %d bytes, have %d", n, len(p.b))
	}
	if p.err != nil {
		return make([]byte, max(0, min(n, 8)))
	}
	v := p.b[:n]
	p.b = p.b[n:]
	return v
}
func (p *rbParser) int(n int) int64 {
	b := p.take(n)
	var u uint64
	for _, c := range b {
		u = u<<8 | uint64(c)
	}
	return int64(u<<(64-8*n)) >> (64 - 8*n)
}
func (p *rbParser) varint() int64 {
	var u uint64
	for s := uint(0); ; s += 7 {
		c := p.take(1)
		if p.err != nil {
			return 0
		}
		if s > 63 {
			p.err = fmt.Errorf("varint too long")
			return 0
		}
		u |= uint64(c[0]&0x7f) << s
		if c[0] < 0x80 {
			break
		}
	}
	return int64(u>>1) ^ -int64(u&1)
}
func (p *rbParser) varbytes() []byte {
	n := p.varint()
	if n == -1 || p.err != nil {
		return nil
	}
	if n < 0 || n > int64(len(p.b)) {
		p.err = fmt.Errorf("var bytes of length %d, have %d", n, len(p.b))
		return nil
	}
	return append([]byte{}, p.take(int(n))...)
}

func parseBatch(raw []byte) (parsedBatch, error) {
	p := &rbParser{b: raw}
	var out parsedBatch
	out.baseOffset = p.int(8)
	out.batchLength = int32(p.int(4))
	out.leaderEpoch = int32(p.int(4))
	out.magic = int8(p.int(1))
	out.crc = int32(p.int(4))
	out.attributes = int16(p.int(2))
	out.lastOffsetDelta = int32(p.int(4))
	out.firstTs = p.int(8)
	out.maxTs = p.int(8)
	out.producerID = p.int(8)
	out.producerEpoch = int16(p.int(2))
	out.baseSequence = int32(p.int(4))
	n := p.int(4)
	if p.err != nil {
		return out, p.err
	}
	for i := int64(0); i < n; i++ {
		length := p.varint()
		if p.err == nil && (length < 0 || length > int64(len(p.b))) {
			p.err = fmt.Errorf("record %d: length %d, have %d", i, length, len(p.b))
		}
		if p.err != nil {
			return out, p.err
		}
		q := &rbParser{b: p.take(int(length))}
		rec := parsedRecord{attributes: int8(q.int(1)), tsDelta: q.varint(), offsetDelta: q.varint(), key: q.varbytes(), value: q.varbytes()}
		hn := q.varint()
		for j := int64(0); j < hn && q.err == nil; j++ {
			k, v := q.varbytes(), q.varbytes()
			rec.headers = append(rec.headers, [2]string{string(k), string(v)})
		}
		if q.err == nil && hn < 0 {
			q.err = fmt.Errorf("header count %d", hn)
		}
		if q.err == nil && len(q.b) != 0 {
			q.err = fmt.Errorf("%d bytes left in the record", len(q.b))
		}
		if q.err != nil {
			return out, fmt.Errorf("record %d: %w", i, q.err)
		}
		out.records = append(out.records, rec)
	}
	if len(p.b) != 0 {
		return out, fmt.Errorf("%d bytes left after the last record", len(p.b))
	}
	return out, nil
}

var farTimes = []time.Time{{}, time.Unix(0, 0), time.Unix(0, -1), time.Unix(-1, 0), time.UnixMilli(-1),
	time.Date(1, 1, 1, 0, 0, 0, 1e6, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(-500, 2, 3, 4, 5, 6, 789e6, time.UTC),
	time.Unix(1<<31, 0), time.Unix(1<<32, 0), time.Unix(0, 1<<63-1), time.Unix(0, -1<<63), time.Date(2262, 4, 12, 0, 0, 0, 0, time.UTC),
	time.Date(1677, 9, 1, 0, 0, 0, 0, time.UTC), time.Date(20000, 1, 1, 0, 0, 0, 1, time.UTC)}

var manyRecords = []int{8191, 8192, 32767, 32768, 65535, 65536, 70000, 140000, 1_200_000}

func genBatch(rng *rand.Rand, shape int) kafka.RecordBatch {
	g := newGen(rng, true)
	b := kafka.RecordBatch{
		BaseOffset: g.int(64), BatchLength: int32(g.int(32)), PartitionLeaderEpoch: int32(g.int(32)), Magic: 2,
		CRC: int32(g.int(32)), Attributes: int16(g.int(16)), LastOffsetDelta: int32(g.int(32)), MaxTimestamp: g.int(64),
		ProducerId: g.int(64), ProducerEpoch: int16(g.int(16)), BaseSequence: int32(g.int(32)),
	}
	if rng.IntN(3) > 0 {
		b.BaseOffset = rng.Int64N(1 << 40)
	} else if b.BaseOffset < -(1<<62) || b.BaseOffset > 1<<62 {
		b.BaseOffset /= 4
	}
	base := time.Date(2019, 11, 3, 1, 2, 3, 456789012, time.UTC)
	switch rng.IntN(6) {
	case 0:
		base = time.Unix(0, 0)
	case 1:
		base = time.Date(1969, 12, 31, 23, 59, 59, 1e6*int(rng.IntN(1000)), time.UTC)
	case 2:
		base = time.Date(2100, 1, 1, 0, 0, 0, 0, time.FixedZone("x", 3600*5+1800))
	}
	base = base.Add(time.Duration(rng.Int64N(1e12)))
	b.FirstTimestamp = floorMillis(base)
	if rng.IntN(6) == 0 {
		b.FirstTimestamp = g.int(64) / 4
	}
	n := rng.IntN(5)
	switch shape % 12 {
	case 0:
		n = 0
	case 1:
		n = 1
	case 3:
		n = rng.IntN(60)
	case 2:
		n = []int{63, 64, 127, 128, 129, 255, 256, 300}[rng.IntN(8)]
	}
	huge := -1
	if shape < 0 { // many records, or one large one
		huge = -1 - shape
		n = 3
		if huge < len(manyRecords) {
			n = manyRecords[huge]
		}
	}
	blob := func() []byte {
		if n > 1000 {
			return g.bytes(rng.IntN(4))
		}
		switch rng.IntN(8) {
		case 0:
			return nil
		case 1:
			return []byte{}
		case 2:
			if len(dictLengths) > 0 && rng.IntN(4) == 0 {
				return g.bytes(dictLengths[rng.IntN(len(dictLengths))])
			}
			return g.bytes([]int{62, 63, 64, 65, 127, 128, 129, 8191, 8192, 8193, 20000}[rng.IntN(11)])
		}
		return g.bytes(rng.IntN(40))
	}
	str := func() string {
		if rng.IntN(10) == 0 {
			return string(g.bytes([]int{63, 64, 65, 127, 128, 300, 8192, 33000, 70000}[rng.IntN(9)]))
		}
		return g.string()
	}
	for i := 0; i < n; i++ {
		m := kafka.Message{Topic: "t", Partition: int32(i), Key: blob(), Value: blob()}
		m.Offset = b.BaseOffset + int64(i)
		switch rng.IntN(5) {
		case 0:
			m.Offset += rng.Int64N(1 << 33) // compacted
		case 1:
			m.Offset = b.BaseOffset - rng.Int64N(100)
		}
		m.Timestamp = base.Add(time.Duration(rng.Int64N(1e11)))
		switch rng.IntN(8) {
		case 6:
			m.Timestamp = farTimes[rng.IntN(len(farTimes))]
		case 7:
			m.Timestamp = farTimes[rng.IntN(len(farTimes))].Add(time.Duration(rng.Int64N(3e18) - 15e17))
		case 0:
			m.Timestamp = base.Add(-time.Duration(rng.Int64N(1e15)))
		case 1:
			m.Timestamp = base
		case 2: // sub-millisecond steps
			m.Timestamp = base.Add(time.Duration(rng.Int64N(3e6)))
		}
		kind := rng.IntN(6)
		if n > 1000 && rng.IntN(50) > 0 {
			kind = 0
		}
		switch kind {
		case 0:
		case 1:
			m.Header = kafka.MapHeader{}
		case 2:
			m.Header = kafka.MapHeader{str(): str()}
		case 3:
			h := kafka.MapHeader{}
			for j := rng.IntN(70); j >= 0; j-- {
				h[fmt.Sprint("k", j)] = g.string()
			}
			m.Header = h
		case 4:
			var h listHeader
			for j := rng.IntN(5); j >= 0; j-- {
				h = append(h, [2]string{str(), str()})
			}
			m.Header = h
		case 5:
			if i > 0 {
				m.Header = kafka.MapHeader(nil)
			}
		}
		switch huge - len(manyRecords) {
		case 0:
			m.Value = g.bytes(2_100_000 + rng.IntN(9))
		case 1:
			m.Key = g.bytes(17_000_000)
		case 2:
			m.Header = listHeader{{"k", string(g.bytes(2_100_000))}, {string(g.bytes(1_100_000)), "v"}}
		case 3, 4:
			var h listHeader
			for j := []int{33_000, 70_000}[huge-len(manyRecords)-3]; j > 0; j-- {
				h = append(h, [2]string{fmt.Sprint("k", j), "v"})
			}
			m.Header = h
		case 5:
			h := kafka.MapHeader{}
			for j := 66_000; j > 0; j-- {
				h[fmt.Sprint("k", j)] = fmt.Sprint(j)
			}
			m.Header = h
		}
		b.Records = append(b.Records, m)
	}
	return b
}

func floorMillis(t time.Time) int64 {
	ns := int64(t.Nanosecond())
	return t.Unix()*1000 + ns/1e6
}

func checkC18(r *Run) {
	r.rule = "random and boundary batches (0-300 and up to a million records, null/empty/long keys and values, header maps and lists, timestamps before the epoch and below a millisecond, sparse and negative offset deltas), encoded by the library and read by an independent parser; distinct by bytes, non-trivial with at least one record"
	n := r.N(20000, 600000)
	large := len(manyRecords) + 6
	r.Parallel(n+large, func(i int) {
		i -= large
		rng := r.Rng("batch", i)
		b := genBatch(rng, i)
		if i < 0 {
			r.Count("large_batches", 1)
		}
		version := int16(rng.IntN(12))
		var buf bytes.Buffer
		var size int32
		var err error
		if pa, st := safely(func() {
			size = b.Size(version)
			e := message.NewEncoder(&buf)
			b.Encode(e, version)
			err = e.Flush()
		}); pa != nil {
			r.Violation("encoding a record batch panicked", "%v\nbatch: %s\n%s", pa, short(b), st)
		}
		if err != nil {
			r.Violation("encoding a record batch failed", "%v\nbatch: %s", err, short(b))
		}
		raw := buf.Bytes()
		if int(size) != len(raw) {
			r.Violation("declared size of a batch differs from the bytes written", "size %d, wrote %d bytes\nbatch: %s\nbytes: %s", size, len(raw), short(b), hx(raw))
		}
		p, err := parseBatch(raw)
		if err != nil {
			r.Violation("a record batch does not parse", "%v\nbatch: %s\nbytes: %s", err, short(b), hx(raw))
		}
		bad := func(what string, got, want any) {
			r.Violation("a record batch does not carry what it was given", "%s: parsed %v, given %v\nbatch: %s\nbytes: %s", what, short(got), short(want), short(b), hx(raw))
		}
		type pair struct {
			n    string
			g, w any
		}
		for _, x := range []pair{{"base offset", p.baseOffset, b.BaseOffset}, {"batch length", p.batchLength, b.BatchLength}, {"leader epoch", p.leaderEpoch, b.PartitionLeaderEpoch},
			{"magic", p.magic, int8(2)}, {"crc", p.crc, b.CRC}, {"attributes", p.attributes, b.Attributes}, {"last offset delta", p.lastOffsetDelta, b.LastOffsetDelta},
			{"first timestamp", p.firstTs, b.FirstTimestamp}, {"max timestamp", p.maxTs, b.MaxTimestamp}, {"producer id", p.producerID, b.ProducerId},
			{"producer epoch", p.producerEpoch, b.ProducerEpoch}, {"base sequence", p.baseSequence, b.BaseSequence}, {"record count", len(p.records), len(b.Records)}} {
			if x.g != x.w {
				bad(x.n, x.g, x.w)
			}
		}
		for j, m := range b.Records {
			q := p.records[j]
			w := fmt.Sprintf("record %d ", j)
			if q.attributes != 0 {
				bad(w+"attributes", q.attributes, 0)
			}
			if p.firstTs+q.tsDelta != floorMillis(m.Timestamp) {
				bad(w+"timestamp", p.firstTs+q.tsDelta, floorMillis(m.Timestamp))
			}
			if p.baseOffset+q.offsetDelta != m.Offset {
				bad(w+"offset", p.baseOffset+q.offsetDelta, m.Offset)
			}
			if !bytes.Equal(q.key, m.Key) || (q.key == nil) != (m.Key == nil) {
				bad(w+"key", show(q.key), show(m.Key))
			}
			if !bytes.Equal(q.value, m.Value) || (q.value == nil) != (m.Value == nil) {
				bad(w+"value", show(q.value), show(m.Value))
			}
			var want [][2]string
			sorted := false
			switch h := m.Header.(type) {
			case kafka.MapHeader:
				sorted = true
				for k, v := range h {
					want = append(want, [2]string{k, v})
				}
			case listHeader:
				want = h
			}
			got := append([][2]string{}, q.headers...)
			if sorted {
				sort.Slice(got, func(a, b int) bool { return got[a][0] < got[b][0] })
				sort.Slice(want, func(a, b int) bool { return want[a][0] < want[b][0] })
			}
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", append([][2]string{}, want...)) {
				bad(w+"headers", fmt.Sprintf("%q", got), fmt.Sprintf("%q", want))
			}
			r.Count("headers", int64(len(want)))
		}
		r.Case(len(b.Records) > 0, fp(raw))
		r.Count("records", int64(len(b.Records)))
		r.Sampled(func() any { return map[string]any{"records": len(b.Records), "bytes": hx(raw)} })
	})
	_ = binary.MaxVarintLen64
	// MapHeader lookups
	h := kafka.MapHeader{"a": "1", "": "2"}
	if v, ok := h.Get("a"); !ok || v != "1" {
		r.Violation("a header cannot be looked up", "%q %v", v, ok)
	}
	if v, ok := h.Get("b"); ok || v != "" {
		r.Violation("an absent header is found", "%q %v", v, ok)
	}
}
