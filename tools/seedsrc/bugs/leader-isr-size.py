PROPERTY = "C02"
NEEDS = "a LeaderAndIsr request with a partition whose in-sync replicas are fewer than its replicas"
BREAKS = "the size of a partition state counts the ISR twice and not the replicas, so the declared size differs from the bytes written"
EDITS = [("message/messages.gen.go", """	sz += sizeof.Int32                  // LeaderEpoch
	sz += sizeof.Int32Array(t.Isr)      // Isr
	sz += sizeof.Int32                  // ZkVersion
	sz += sizeof.Int32Array(t.Replicas) // Replicas
	if version >= 3 {
		sz += sizeof.Int32Array(t.AddingReplicas) // AddingReplicas""", """	sz += sizeof.Int32                  // LeaderEpoch
	sz += 2 * sizeof.Int32Array(t.Isr) // Isr, Replicas
	sz += sizeof.Int32                  // ZkVersion
	if version >= 3 {
		sz += sizeof.Int32Array(t.AddingReplicas) // AddingReplicas""")]
KIT = False
DEMO = r'''
package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/savaki/kafka/message"
)

func main() {
	for v := int16(0); v <= 3; v++ {
		p := message.LeaderAndIsrPartitionState4{TopicName: "t", Isr: []int32{1}, Replicas: []int32{1, 2, 3}}
		var buf bytes.Buffer
		p.Encode(message.NewEncoder(&buf), v)
		if int(p.Size(v)) != buf.Len() {
			fmt.Println("version", v, "size", p.Size(v), "written", buf.Len())
			os.Exit(1)
		}
	}
}
'''
