package main

import (
	"fmt"

	zs "github.com/dball/destructive/internal/zsim/simrt"
)

// checkRace judges a run under the race detector.
func (e *env) checkRace(before int) {
	if f := e.out.Failure; f != nil {
		e.report(Viol{Class: f.Class, Op: -1, Msg: f.Msg, Props: []string{"C12", "C13"}})
	}
	for _, r := range e.all() {
		if r.panicked != "" {
			e.report(Viol{Class: "panic." + r.op.Kind, Op: r.op.ID, Msg: "an operation panicked: " + r.panicked, Props: []string{"C12"}})
		}
		if isWrite(r) && r.panicked == "" {
			if r.err == nil {
				e.stats.Accepted++
			} else {
				e.stats.Rejected++
			}
		}
	}
	if n := zs.RaceErrors() - before; n > 0 {
		e.report(Viol{Class: "race", Op: -1, Msg: "the race detector reported a data race", Props: []string{"C12"}})
		_ = fmt.Sprint(n)
	}
}
