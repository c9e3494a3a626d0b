PROPERTY = "C04"
NEEDS = "an empty, not null, array of int64"
BREAKS = "an empty int64 array is read back as null"
EDITS = [("message/decoder.go", """	if n == -1 {
		return nil, nil
	}

	items := make([]int64, n)
	for i := 0; i < n; i++ {
		item, err := d.Int64()
		if err != nil {
			return nil, err
		}
		items[i] = item
	}
""", """	var items []int64
	for i := 0; i < n; i++ {
		item, err := d.Int64()
		if err != nil {
			return nil, err
		}
		items = append(items, item)
	}
""")]
KIT = False
DEMO = r'''
package main

import (
	"fmt"
	"os"

	"github.com/savaki/kafka/message"
)

func main() {
	v, err := message.NewDecoder([]byte{0, 0, 0, 0}, 4).Int64Array()
	n, err2 := message.NewDecoder([]byte{255, 255, 255, 255}, 4).Int64Array()
	if err != nil || err2 != nil || v == nil || len(v) != 0 || n != nil {
		fmt.Println(v == nil, n == nil, err, err2)
		os.Exit(1)
	}
}
'''
