PROPERTY = "C08"
NEEDS = "closing while a writer is blocked on a full ring"
BREAKS = "closing does not release a writer that waits for space"
EDITS = [("ring/buffer.go", "		writeLock: newMutex(ctx),", "		writeLock: newMutex(context.Background()),")]
KIT = False
DEMO = r'''
package main

import (
	"fmt"
	"os"
	"time"

	"github.com/savaki/kafka/ring"
)

func main() {
	rb := ring.New(4)
	done := make(chan struct{})
	go func() {
		rb.WriteN(make([]byte, 10), 10)
		close(done)
	}()
	time.Sleep(100 * time.Millisecond)
	rb.Close()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fmt.Println("the writer is still blocked")
		os.Exit(1)
	}
}
'''
