PROPERTY = "C28"
NEEDS = "two goroutines that send requests sharing a list of numbers at the same time"
BREAKS = "an int32 array is brought into network order in place, written at once and restored, so whoever else reads it meanwhile (another call with the same request) sees swapped numbers"
EDITS = [("message/encoder.go", """	e.PutArrayLength(length)
	for _, i := range ii {
		e.PutInt32(i)
	}
""", """	e.PutArrayLength(length)
	if length == 0 || e.err != nil {
		return
	}

	// one write instead of one for each element
	raw := (*[1 << 28]byte)(unsafe.Pointer(&ii[0]))[: 4*length : 4*length]
	for i := range ii {
		binary.BigEndian.PutUint32(raw[4*i:], uint32(ii[i]))
	}
	_, e.err = e.target.Write(raw)
	for i := range ii {
		ii[i] = int32(binary.BigEndian.Uint32(raw[4*i:]))
	}
"""), ("message/encoder.go", """	"math"
""", """	"math"
	"unsafe"
""")]
DEMO = r'''
package main

import (
	"sync"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) { c.reply(r.corr, make([]byte, 12)) })
	f.start()
	ids := make([]int32, 4096)
	for i := range ids {
		ids[i] = int32(i)
	}
	request := message.CreateTopicsRequest{Topics: []message.CreatableTopic19{{Name: "t", Assignments: []message.CreatableReplicaAssignment19{{BrokerIds: ids}}}}}
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	done := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for n := 0; n < 3000; n++ {
			b.CreateTopics(request)
		}
		close(done)
	}()
	for {
		select {
		case <-done:
			return
		default:
		}
		for i := range ids {
			if ids[i] != int32(i) {
				fail("the request's list has %d at %d while it is sent", ids[i], i)
			}
		}
	}
}
'''
