PROPERTY = "C10"
NEEDS = "a broker with which the version of ListGroups differs from that of DescribeGroups in what the response carries"
BREAKS = "the response to ListGroups is decoded at the version negotiated for DescribeGroups"
EDITS = [("gen.broker.go", "			return (&resp).Decode(d, b.apiVersion.ListGroups)", "			return (&resp).Decode(d, b.apiVersion.DescribeGroups)")]
DEMO = r'''
package main

import (
	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) {
		c.reply(r.corr, enc(message.ListGroupsResponse{ErrorCode: 7, Groups: []message.ListedGroup16{{GroupId: "g"}}}, r.ver))
	})
	for i := range f.ranges {
		if f.ranges[i].ApiKey == message.KeyListGroups {
			f.ranges[i].MaxVersion = 1
		}
	}
	f.start()
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	resp, err := b.ListGroups(message.ListGroupsRequest{})
	if err != nil || resp.ErrorCode != 7 || len(resp.Groups) != 1 {
		fail("%+v %v", resp, err)
	}
}
'''
