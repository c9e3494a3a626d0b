PROPERTY = "C07"
NEEDS = "a full ring whose writer runs between the reader giving a slot back and copying it out"
BREAKS = "the reader gives the slots back before it has copied the bytes when all of them are available already, so the writer overwrites an unread byte"
EDITS = [("ring/buffer.go", """		next = atomic.LoadInt32(&r.next)
	)

	for i""", """		next = atomic.LoadInt32(&r.next)
		end  = pos + int32(n)
		all  bool
	)

	// everything is there already, take it at once
	if avail := (next - pos + r.size) % r.size; n <= int(avail) {
		all = true
		if end >= r.size {
			end -= r.size
		}
		atomic.StoreInt32(&r.start, end)
	}

	for i"""), ("ring/buffer.go", """		data[i] = r.data[pos]
		pos = incr(pos, r.size)
	}

	atomic.StoreInt32(&r.start, pos)
""", """		data[i] = r.data[pos]
		pos = incr(pos, r.size)
	}

	if !all {
		atomic.StoreInt32(&r.start, pos)
	}
""")]
KIT = False
RACE = True
DEMO = r'''
package main

import (
	"fmt"
	"os"

	"github.com/savaki/kafka/ring"
)

func main() {
	rb := ring.New(8)
	go func() {
		b := make([]byte, 7)
		var x byte
		for {
			for i := range b {
				x++
				b[i] = x
			}
			if rb.WriteN(b, len(b)) != nil {
				return
			}
		}
	}()
	b := make([]byte, 3)
	var x byte
	for i := 0; i < 200000; i++ {
		rb.ReadN(b, len(b))
		for _, v := range b {
			x++
			if v != x {
				fmt.Println("got", v, "want", x)
				os.Exit(1)
			}
		}
	}
}
'''
