PROPERTY = "C14"
NEEDS = "a broker whose only versions of DeleteGroups are newer than the library's and whose list has another API after it"
BREAKS = "the failed match for one API is not returned at once and the next API's success overwrites it, so the connection proceeds at version 0 that the broker does not support"
EDITS = [("gen.broker.go", """			av.DeleteGroups, err = matchVersion(apiKey, 0, 1)
			if err != nil {
				return apiVersion{}, err
			}
""", """			av.DeleteGroups, err = matchVersion(apiKey, 0, 1)
"""), ("gen.broker.go", "	return av, nil\n}\n\n// matchVersion", "	return av, err\n}\n\n// matchVersion")]
DEMO = r'''
package main

import (
	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) {})
	for i := range f.ranges {
		if f.ranges[i].ApiKey == message.KeyDeleteGroups {
			f.ranges[i].MinVersion, f.ranges[i].MaxVersion = 7, 9
		}
	}
	f.start()
	if b, err := kafka.NewBroker(f.addr()); err == nil {
		b.Close()
		fail("connected although there is no common version of DeleteGroups")
	}
}
'''
