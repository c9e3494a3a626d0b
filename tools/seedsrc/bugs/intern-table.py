PROPERTY = "C22"
NEEDS = "responses with ever different strings over the life of the process"
BREAKS = "decoded strings are interned in a table of the process that never shrinks, so every string ever received stays in memory"
EDITS = [("message/decoder.go", """	s := string(d.raw[d.offset : d.offset+length])
	d.offset += length
	return s, nil
}

// StringArray""", """	s := intern(d.raw[d.offset : d.offset+length])
	d.offset += length
	return s, nil
}

var (
	internLock sync.Mutex
	interned   = map[string]string{}
)

// intern avoids allocating names that repeat from message to message
func intern(raw []byte) string {
	internLock.Lock()
	defer internLock.Unlock()

	if s, ok := interned[string(raw)]; ok {
		return s
	}
	s := string(raw)
	interned[s] = s
	return s
}

// StringArray"""), ("message/decoder.go", '	"io"\n', '	"io"\n	"sync"\n')]
DEMO = r'''
package main

import (
	"encoding/binary"
	"fmt"
	"runtime"

	"github.com/savaki/kafka/message"
)

func main() {
	heap := func() int64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	decode := func(from, to int) {
		for i := from; i < to; i++ {
			s := fmt.Sprintf("a coordinator's host name, number %d", i)
			raw := make([]byte, 8, 100)
			binary.BigEndian.PutUint16(raw[6:], uint16(len(s)))
			raw = append(append(raw, s...), 0, 0, 0, 1)
			var resp message.FindCoordinatorResponse
			if err := resp.Decode(message.NewDecoder(raw, len(raw)), 0); err != nil {
				fail("%v", err)
			}
			if resp.Host != s {
				fail("%q instead of %q", resp.Host, s)
			}
		}
	}
	decode(0, 1000)
	before := heap()
	decode(1000, 301000)
	if grown := heap() - before; grown > 4<<20 {
		fail("300000 responses that nobody holds any more keep %d bytes", grown)
	}
}
'''
