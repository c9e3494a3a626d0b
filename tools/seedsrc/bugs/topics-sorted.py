PROPERTY = "C28"
NEEDS = "a list of topics that is not sorted, and a look at it afterwards (or two goroutines that share it)"
BREAKS = "Metadata sorts the list of topics it is given, which is the caller's, in place"
EDITS = [("client.go", """		for _, topic := range topics {
			req.Topics""", """		for _, topic := range distinct(topics) {
			req.Topics"""), ("client.go", """func findPartition(""", """// distinct topics, each is only asked for once
func distinct(topics []string) []string {
	if len(topics) < 2 {
		return topics
	}

	sort.Strings(topics)
	var out []string
	for i, topic := range topics {
		if i == 0 || topic != topics[i-1] {
			out = append(out, topic)
		}
	}
	return out
}

func findPartition("""), ("client.go", """	"net"
""", """	"net"
	"sort"
""")]
DEMO = r'''
package main

import (
	"context"

	"github.com/savaki/kafka"
)

func main() {
	f := newFake(func(c *fconn, r req) { c.Close() }).start()
	topics := []string{"b", "c", "a"}
	kafka.NewClient([]string{f.addr()}).Metadata(context.Background(), topics...)
	if topics[0] != "b" || topics[1] != "c" || topics[2] != "a" {
		fail("the caller's list of topics is now %v", topics)
	}
}
'''
