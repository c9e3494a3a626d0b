PROPERTY = "C08"
NEEDS = "a single write larger than the ring while the reader already waits"
BREAKS = "a writer that finds the ring full waits without waking the reader: both wait for each other"
EDITS = [("ring/buffer.go", """			// important to store pos prior to releasing readLock
			r.readLock.Release()

			start""", """			start""")]
KIT = False
DEMO = r'''
package main

import (
	"fmt"
	"os"
	"time"

	"github.com/savaki/kafka/ring"
)

func main() {
	rb := ring.New(8)
	done := make(chan struct{})
	go func() {
		b := make([]byte, 100)
		rb.ReadN(b, 100)
		close(done)
	}()
	time.Sleep(100 * time.Millisecond)
	go rb.WriteN(make([]byte, 100), 100)
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fmt.Println("reader and writer wait for each other")
		os.Exit(1)
	}
}
'''
