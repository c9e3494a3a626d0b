PROPERTY = "C08"
NEEDS = "the writer re-checks the ring between the reader's wake-up and its publishing of the new position, and nothing is read afterwards"
BREAKS = "the reader wakes a blocked writer before it publishes the room it made: the writer sees the ring still full and goes back to sleep for good"
EDITS = [("ring/buffer.go", """	atomic.StoreInt32(&r.start, pos)
	r.writeLock.Release()
	return nil
""", """	r.writeLock.Release()
	atomic.StoreInt32(&r.start, pos)
	return nil
""")]
KIT = False
DEMO = r'''
package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/savaki/kafka/ring"
)

func main() {
	var n atomic.Int64
	var wg sync.WaitGroup
	t0 := time.Now()
	runtime.GOMAXPROCS(64) // preemption anywhere
	for g := 0; g < 128; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rb := ring.New(2)
			buf := make([]byte, 1)
			w := make(chan struct{})
			wd := make(chan struct{})
			go func() {
				d := make([]byte, 2)
				for range w {
					rb.WriteN(d, 2)
					wd <- struct{}{}
				}
			}()
			for time.Since(t0) < 40*time.Second {
				w <- struct{}{}
				rb.ReadN(buf, 1)
				select {
				case <-wd:
				case <-time.After(15 * time.Second):
					fmt.Println("writer never woke")
					os.Exit(1)
				}
				rb.ReadN(buf, 1)
				n.Add(1)
			}
		}()
	}
	wg.Wait()
	fmt.Println("ok", n.Load())
}
'''
