PROPERTY = "C12"
NEEDS = "a caller that appends to a byte field of a response while holding a later byte field of the same response"
BREAKS = "byte fields reach into the bytes that follow them, so appending to one changes another"
EDITS = [("message/decoder.go", """	a, b := d.offset, d.offset+length
	v := d.raw[a:b:b] // limit capacity of returned slice
	d.offset += length
	return v, nil
}

// Discard""", """	v := d.raw[d.offset : d.offset+length]
	d.offset += length
	return v, nil
}

// Discard""")]
DEMO = r'''
package main

import (
	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

func main() {
	f := newFake(func(c *fconn, r req) {
		resp := message.DescribeGroupsResponse{Groups: []message.DescribedGroup15{{Members: []message.DescribedGroupMember15{{MemberMetadata: []byte("meta"), MemberAssignment: []byte("assignment")}}}}}
		c.reply(r.corr, enc(resp, r.ver))
	}).start()
	b, err := kafka.NewBroker(f.addr())
	if err != nil {
		fail("%v", err)
	}
	resp, err := b.DescribeGroups(message.DescribeGroupsRequest{})
	if err != nil {
		fail("%v", err)
	}
	m := resp.Groups[0].Members[0]
	_ = append(m.MemberMetadata, "XXXXXXXXXX"...)
	if string(m.MemberAssignment) != "assignment" {
		fail("assignment became %q", m.MemberAssignment)
	}
}
'''
