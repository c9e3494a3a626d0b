PROPERTY = "C19"
NEEDS = "one client used by several goroutines while a bootstrap address is unreachable"
BREAKS = "the client moves unreachable bootstrap addresses to the end of its list without synchronisation (and no longer tries them in the order given)"
EDITS = [("client.go", """	for _, addr := range c.bootstrap {
		broker, err = NewBroker(addr, c.opts...)
		if err != nil {
			continue
		}
""", """	for i := len(c.bootstrap); i > 0; i-- {
		broker, err = NewBroker(c.bootstrap[0], c.opts...)
		if err != nil {
			// try this one last from now on
			c.bootstrap = append(c.bootstrap[1:], c.bootstrap[0])
			continue
		}
""")]
RACE = True
DEMO = r'''
package main

import (
	"context"
	"sync"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) { c.reply(r.corr, enc(message.MetadataResponse{}, r.ver)) }).start()
	client := kafka.NewClient([]string{"127.0.0.1:1", f.addr(), "127.0.0.1:2"})
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 5; i++ {
				if _, err := client.Metadata(context.Background()); err != nil {
					fail("%v", err)
				}
			}
		}()
	}
	wg.Wait()
}
'''
