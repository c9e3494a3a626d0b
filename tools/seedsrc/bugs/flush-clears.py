PROPERTY = "C06"
NEEDS = "values put into the encoder after a failed write has been reported once by Flush"
BREAKS = "Flush forgets the failure it reports, so later values are written after the gap"
EDITS = [("message/encoder.go", """	if e.err != nil {
		return e.err
	}

	if f""", """	if err := e.err; err != nil {
		e.err = nil
		return err
	}

	if f""")]
KIT = False
DEMO = r'''
package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/savaki/kafka/message"
)

type once struct{ n, later int }

func (o *once) Write(b []byte) (int, error) {
	o.n++
	if o.n == 1 {
		return 0, errors.New("once")
	}
	o.later++
	return len(b), nil
}

func main() {
	w := &once{}
	e := message.NewEncoder(w)
	e.PutInt32(1)
	a := e.Flush()
	e.PutInt32(2)
	b := e.Flush()
	if a == nil || b != a || w.later != 0 {
		fmt.Println(a, b, w.later)
		os.Exit(1)
	}
}
'''
