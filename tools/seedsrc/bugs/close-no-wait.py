PROPERTY = "C16"
NEEDS = "a look at the goroutines as soon as closing has returned, with the reader delayed on its way out"
BREAKS = "Close no longer waits for the reader of the connection, which may still be running after Close has returned"
EDITS = [
    ("gen.conn.go", "	<-c.doneMessage\n	<-c.doneRead\n	return c.err", "	<-c.doneMessage // the messages end with the reader\n	return c.err"),
]
DEMO = r'''
package main

import (
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/savaki/kafka"
)

func main() {
	f := newFake(func(c *fconn, r req) {}).start()
	// the reader prints why it ends: hold that up
	r, w, err := os.Pipe()
	if err != nil {
		fail("%v", err)
	}
	stdout := os.Stdout
	os.Stdout = w
	w.Write(make([]byte, 65536))
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	go func() {
		time.Sleep(500 * time.Millisecond)
		buf := make([]byte, 1<<20)
		for {
			if _, err := r.Read(buf); err != nil {
				return
			}
		}
	}()
	b.Close()
	buf := make([]byte, 1<<20)
	s := string(buf[:runtime.Stack(buf, true)])
	os.Stdout = stdout
	if strings.Contains(s, "readLoop") && strings.Contains(s, "Println") {
		fail("Close has returned while the reader still runs:\n%s", s)
	}
}
'''
