PROPERTY = "C06"
NEEDS = "a write that fails just for the length prefix of a string on a stream that accepts data again afterwards"
BREAKS = "the string itself is written after its length failed, and the failure is forgotten"
EDITS = [("message/encoder.go", """	e.PutInt16(int16(len(s)))
	if e.err == nil {
		_, e.err = io.WriteString(e.target, s)
	}
""", """	if e.err != nil {
		return
	}

	e.PutInt16(int16(len(s)))
	if len(s) > 0 {
		_, e.err = io.WriteString(e.target, s)
	}
""")]
KIT = False
DEMO = r'''
package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/savaki/kafka/message"
)

type flaky struct {
	n    int
	fail int
	got  []byte
}

var errFirst = errors.New("first")

func (f *flaky) Write(b []byte) (int, error) {
	f.n++
	if f.n == f.fail {
		return 0, errFirst
	}
	f.got = append(f.got, b...)
	return len(b), nil
}

func main() {
	for fail := 1; fail <= 4; fail++ {
		f := &flaky{fail: fail}
		e := message.NewEncoder(f)
		e.PutString("ab")
		at := len(f.got)
		failed := f.n >= fail
		e.PutString("cd")
		if err := e.Flush(); err != errFirst || (failed && at != len(f.got)) || len(f.got) > 2*(fail-1) {
			fmt.Println("write", fail, "failed:", err, len(f.got))
			os.Exit(1)
		}
	}
}
'''
