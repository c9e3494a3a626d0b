PROPERTY = "C01"
NEEDS = "a fetch response at version 4 or later in which two partitions of one topic both list aborted transactions"
BREAKS = "partitions decoded into a reused element share the backing array of their aborted transactions, so an earlier partition reports those of a later one"
EDITS = [
 ("message/messages.gen.go", """		t.Partitions = make([]FetchablePartitionResponse1, n)
		for i := 0; i < n; i++ {
			var item FetchablePartitionResponse1
			if""", """		t.Partitions = make([]FetchablePartitionResponse1, n)
		var item FetchablePartitionResponse1
		for i := 0; i < n; i++ {
			if"""),
 ("message/messages.gen.go", """			t.Aborted = make([]AbortedTransaction1, n)
			for i := 0; i < n; i++ {
				var item AbortedTransaction1
				if err := (&item).Decode(d, version); err != nil {
					return err
				}
				t.Aborted[i] = item
			}
		}
	}
	if version >= 11 {""", """			t.Aborted = t.Aborted[:0]
			for i := 0; i < n; i++ {
				var item AbortedTransaction1
				if err := (&item).Decode(d, version); err != nil {
					return err
				}
				t.Aborted = append(t.Aborted, item)
			}
		} else {
			t.Aborted = nil
		}
	}
	if version >= 11 {"""),
]
KIT = False
DEMO = r'''
package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"

	"github.com/savaki/kafka/message"
)

func main() {
	part := func(i int32, ids ...int64) message.FetchablePartitionResponse1 {
		p := message.FetchablePartitionResponse1{PartitionIndex: i, Records: []byte{1}}
		for _, id := range ids {
			p.Aborted = append(p.Aborted, message.AbortedTransaction1{ProducerId: id, FirstOffset: id * 10})
		}
		return p
	}
	want := message.FetchResponse{Topics: []message.FetchableTopicResponse1{{Name: "t", Partitions: []message.FetchablePartitionResponse1{part(0, 1, 2), part(1, 3)}}}}
	var buf bytes.Buffer
	want.Encode(message.NewEncoder(&buf), 4)
	var got message.FetchResponse
	if err := got.Decode(message.NewDecoder(buf.Bytes(), buf.Len()), 4); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if !reflect.DeepEqual(want, got) {
		fmt.Printf("want %+v\ngot  %+v\n", want, got)
		os.Exit(1)
	}
}
'''
