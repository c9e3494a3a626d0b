PROPERTY = "C19"
NEEDS = "two goroutines that open the process's first connections, or create its first client, at the same time"
BREAKS = "the default dialer, now shared by all connections of the process, is created on first use without synchronisation"
EDITS = [("gen.option.go", "		dialer:   &net.Dialer{},\n	}\n	for", "		dialer:   sharedDialer(),\n	}\n	for"),
("gen.option.go", "func buildConfig(", """var defaultDialer *net.Dialer

// sharedDialer is created once it is needed
func sharedDialer() *net.Dialer {
	if defaultDialer == nil {
		defaultDialer = &net.Dialer{}
	}
	return defaultDialer
}

func buildConfig(""")]
RACE = True
DEMO = r'''
package main

import (
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/savaki/kafka"
)

func main() {
	f := newFake(func(c *fconn, r req) { c.Close() }).start()
	var wg sync.WaitGroup
	var ready int32
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < 4 {
				runtime.Gosched()
			}
			if c, err := kafka.Connect(f.addr()); err == nil {
				c.Close()
			}
		}()
	}
	wg.Wait()
}
'''
