PROPERTY = "C14"
NEEDS = "a broker that advertises more than 128 APIs, with the ones the library knows among the later ones"
BREAKS = "only the first 128 advertised version ranges are looked at; the APIs after that are used at version 0, and a missing common version goes unnoticed"
EDITS = [("gen.broker.go", "	apiVersion, err := negotiateApiVersions(resp.ApiKeys)\n", "	apiKeys := resp.ApiKeys\n	if len(apiKeys) > 128 {\n		apiKeys = apiKeys[:128] // more than there are APIs\n	}\n	apiVersion, err := negotiateApiVersions(apiKeys)\n")]
DEMO = r'''
package main

import (
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) {
		if r.ver != 1 {
			fail("heartbeat at version %d, which the broker does not support", r.ver)
		}
		c.reply(r.corr, make([]byte, 6))
	})
	f.ranges = nil
	for k := int16(0); k < 150; k++ {
		f.ranges = append(f.ranges, message.ApiVersionsResponseKey18{ApiKey: 1000 + k, MaxVersion: 1})
	}
	f.ranges = append(f.ranges, message.ApiVersionsResponseKey18{ApiKey: 12, MinVersion: 1, MaxVersion: 1})
	f.start()
	within(20*time.Second, "a heartbeat", func() {
		b, err := kafka.NewBroker(f.addr())
		if err != nil {
			fail("%v", err)
		}
		if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
			fail("%v", err)
		}
		b.Close()
	})
}
'''
