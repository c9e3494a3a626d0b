PROPERTY = "C01"
NEEDS = "a DescribeGroups request whose group names are not in alphabetical order, looked at again after it was encoded"
BREAKS = "encoding sorts the caller's list of groups in place"
EDITS = [("message/messages.gen.go", """	e.PutStringArray(t.Groups) // Groups
	if version >= 3 {
		e.PutBool(t.IncludeAuthorizedOperations) // IncludeAuthorizedOperations""", """	sort.Strings(t.Groups)     // one wire form for one set of groups
	e.PutStringArray(t.Groups) // Groups
	if version >= 3 {
		e.PutBool(t.IncludeAuthorizedOperations) // IncludeAuthorizedOperations"""),
 ("message/messages.gen.go", """import (
	"github""", """import (
	"sort"

	"github""")]
KIT = False
DEMO = r'''
package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/savaki/kafka/message"
)

func main() {
	req := message.DescribeGroupsRequest{Groups: []string{"b", "a"}}
	var buf bytes.Buffer
	req.Encode(message.NewEncoder(&buf), 0)
	if req.Groups[0] != "b" || !bytes.HasSuffix(buf.Bytes(), []byte("\x00\x01b\x00\x01a")) {
		fmt.Printf("%q %q\n", req.Groups, buf.Bytes())
		os.Exit(1)
	}
}
'''
