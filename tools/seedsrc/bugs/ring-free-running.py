PROPERTY = "C07"
NEEDS = "more than 4 GiB through one ring whose size is not a power of two"
BREAKS = "the ring's positions are free-running 32 bit counters taken modulo the size; when they overflow, the position jumps and bytes are lost or repeated"
EDITS = [("ring/buffer.go", "	start     int32  // start position", "	start     uint32 // start position"),
("ring/buffer.go", "	next      int32  // next position", "	next      uint32 // next position"),
("ring/buffer.go", "	size      int32  // size", "	size      uint32 // size"),
("ring/buffer.go", "		size:      int32(size),", "		size:      uint32(size),"),
("ring/buffer.go", "		pos   = atomic.LoadInt32(&r.next)  //", "		pos   = atomic.LoadUint32(&r.next)  //"),
("ring/buffer.go", "		start = atomic.LoadInt32(&r.start) //", "		start = atomic.LoadUint32(&r.start) //"),
("ring/buffer.go", "		for next := incr(pos, r.size); next == start; {\n			atomic.StoreInt32(&r.next, pos)", "		for pos-start == r.size-1 {\n			atomic.StoreUint32(&r.next, pos)"),
("ring/buffer.go", "			start = atomic.LoadInt32(&r.start)\n			if next == start {", "			start = atomic.LoadUint32(&r.start)\n			if pos-start == r.size-1 {"),
("ring/buffer.go", "		r.data[pos] = data[i]\n		pos = incr(pos, r.size)\n	}\n\n	atomic.StoreInt32", "		r.data[pos%r.size] = data[i]\n		pos++\n	}\n\n	atomic.StoreUint32"),
("ring/buffer.go", "		pos  = atomic.LoadInt32(&r.start)\n		next = atomic.LoadInt32(&r.next)", "		pos  = atomic.LoadUint32(&r.start)\n		next = atomic.LoadUint32(&r.next)"),
("ring/buffer.go", "			atomic.StoreInt32(&r.start, pos)\n			r.writeLock", "			atomic.StoreUint32(&r.start, pos)\n			r.writeLock"),
("ring/buffer.go", "			next = atomic.LoadInt32(&r.next)", "			next = atomic.LoadUint32(&r.next)"),
("ring/buffer.go", "		data[i] = r.data[pos]\n		pos = incr(pos, r.size)\n	}\n\n	atomic.StoreInt32", "		data[i] = r.data[pos%r.size]\n		pos++\n	}\n\n	atomic.StoreUint32"),
("ring/buffer.go", """
func incr(pos, size int32) int32 {
	pos++
	if pos == size {
		return 0
	}
	return pos
}
""", ""),
]
DEMO = r'''
package main

import (
	"encoding/binary"
	"time"

	"github.com/savaki/kafka/ring"
)

func main() {
	const size, piece = 1000003, 1 << 20
	const before = 1<<32 - piece/2
	b := ring.New(size)
	within(280*time.Second, "4 GiB through a ring", func() {
		go func() {
			buf := make([]byte, piece)
			for i := 0; i < before; i += piece {
				n := before - i
				if n > piece {
					n = piece
				}
				if b.WriteN(buf, n) != nil {
					fail("a write failed")
				}
			}
		}()
		buf := make([]byte, piece)
		for i := 0; i < before; i += piece {
			n := before - i
			if n > piece {
				n = piece
			}
			if b.ReadN(buf, n) != nil {
				fail("a read failed")
			}
		}
		// as much as the ring takes
		for j := 0; j+8 <= size; j += 8 {
			binary.BigEndian.PutUint64(buf[j:], uint64(j))
		}
		if b.WriteN(buf, size-1) != nil {
			fail("a write failed")
		}
		got := make([]byte, size-1)
		if b.ReadN(got, size-1) != nil {
			fail("a read failed")
		}
		for j := range got {
			if got[j] != buf[j] {
				fail("wrong byte at %d", before+j)
			}
		}
	})
	b.Close()
}
'''
