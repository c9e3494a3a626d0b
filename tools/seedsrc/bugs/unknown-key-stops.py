PROPERTY = "C14"
NEEDS = "a broker that lists an API unknown to the library before known ones"
BREAKS = "negotiation stops at the first unknown API, the APIs listed after it are used at version 0"
EDITS = [("gen.broker.go", """	for _, apiKey := range apiKeys {
		switch apiKey.ApiKey {
""", """	for i := 0; i < len(apiKeys) && apiKeys[i].ApiKey <= message.KeyOffsetDelete; i++ {
		apiKey := apiKeys[i]
		switch apiKey.ApiKey {
""")]
DEMO = r'''
package main

import (
	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	got := make(chan int16, 1)
	f := newFake(func(c *fconn, r req) {
		got <- r.ver
		c.reply(r.corr, enc(message.HeartbeatResponse{}, r.ver))
	})
	for i := range f.ranges {
		if f.ranges[i].ApiKey == message.KeyHeartbeat {
			f.ranges[i].MaxVersion = 2
		}
	}
	f.ranges = append([]message.ApiVersionsResponseKey18{{ApiKey: 60, MinVersion: 0, MaxVersion: 1}}, f.ranges...)
	f.start()
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	b.Heartbeat(message.HeartbeatRequest{})
	if v := <-got; v != 2 {
		fail("Heartbeat used at version %d", v)
	}
}
'''
