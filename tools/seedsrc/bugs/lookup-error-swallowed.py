PROPERTY = "C15"
NEEDS = "a bootstrap broker that negotiates and then loses the connection or answers the metadata lookup with a malformed response"
BREAKS = "a failed metadata lookup is taken for an empty cluster: Metadata reports success with no brokers and topics"
EDITS = [("client.go", """		v, err := b.Metadata(req)
		if err != nil {
			return err
		}
""", """		v, err := b.Metadata(req)
		if err != nil {
			return nil
		}
""")]
DEMO = r'''
package main

import (
	"context"

	"github.com/savaki/kafka"
)

func main() {
	f := newFake(func(c *fconn, r req) { c.reply(r.corr, []byte{0, 0}) }).start()
	m, err := kafka.NewClient([]string{f.addr()}).Metadata(context.Background(), "t")
	if err == nil {
		fail("a malformed response gave %+v", m)
	}
}
'''
