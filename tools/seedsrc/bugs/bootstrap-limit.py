PROPERTY = "C15"
NEEDS = "more than sixteen bootstrap addresses, the first sixteen unusable"
BREAKS = "an operation gives up after sixteen bootstrap addresses although a later one can be used"
EDITS = [("client.go", "	for _, addr := range c.bootstrap {\n", "	for i, addr := range c.bootstrap {\n		if i == maxAttempts {\n			break\n		}\n"),
("client.go", "func findPartition(", "// maxAttempts limits the number of brokers tried for one operation\nconst maxAttempts = 16\n\nfunc findPartition(")]
DEMO = r'''
package main

import (
	"context"
	"fmt"
	"time"

	"github.com/savaki/kafka"
)

func main() {
	f := newFake(func(c *fconn, r req) {
		// Metadata without brokers or topics, long enough for any version
		c.reply(r.corr, make([]byte, 24))
	}).start()
	var list []string
	for i := 1; i <= 30; i++ {
		list = append(list, fmt.Sprintf("127.9.9.%d:1", i))
	}
	list = append(list, f.addr())
	within(60*time.Second, "Metadata", func() {
		if _, err := kafka.NewClient(list).Metadata(context.Background()); err != nil {
			fail("no usable broker although the last address is one: %v", err)
		}
	})
}
'''
