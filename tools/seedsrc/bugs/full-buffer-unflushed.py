PROPERTY = "C20"
NEEDS = "a produce request without response whose frame ends exactly at the end of the write buffer"
BREAKS = "a frame that fills the write buffer to the last byte is left there: the call has succeeded but the request arrives only with the next one, if there is one"
EDITS = [
    ("message/encoder.go", "	if f, ok := e.target.(flusher); ok {\n		return f.Flush()\n	}\n", "	f, ok := e.target.(flusher)\n	if !ok {\n		return nil\n	}\n	if w, ok := e.target.(interface{ Available() int }); !ok || w.Available() > 0 {\n		return f.Flush()\n	}\n"),
]
DEMO = r'''
package main

import (
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	got := make(chan int, 8)
	f := newFake(func(c *fconn, r req) {
		got <- len(r.body)
	}).start()
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	for n := 1; n < 8300; n++ {
		_, err := b.Produce(message.ProduceRequest{Topics: []message.TopicProduceData0{
			{Name: "t", Partitions: []message.PartitionProduceData0{{Records: make([]byte, n)}}}}})
		if err != nil {
			fail("%v", err)
		}
		select {
		case <-got:
		case <-time.After(5 * time.Second):
			fail("the request with records of %d bytes does not arrive", n)
		}
	}
}
'''
