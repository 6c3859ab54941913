package main

import (
	"fmt"
	"slices"
	"strings"
)

// compareConfigs runs the case under another configuration and compares the outcomes: the same
// requests must be accepted, and with the same effects but for which ids were issued.
func compareConfigs(e *env) {
	f := simulate(e.c, e.c.Alt)
	defer f.stopLate()
	bad := func(op int, msg string) {
		e.report(Viol{Class: "config", Op: op, Msg: "under another configuration, " + msg, Props: []string{"C19"}})
	}
	if len(f.viols) > 0 {
		bad(-1, f.viols[0].Msg)
		return
	}
	if (e.out.Failure == nil) != (f.out.Failure == nil) {
		bad(-1, "only one run completed")
		return
	}
	as, bs := e.all(), f.all()
	if len(as) != len(bs) {
		bad(-1, fmt.Sprintf("%d operations ran, not %d", len(bs), len(as)))
		return
	}
	ids := map[ID]ID{}
	back := map[ID]ID{}
	pair := func(a, b ID) bool {
		x, ok := ids[a]
		y, ok2 := back[b]
		if ok || ok2 {
			return ok && ok2 && x == b && y == a
		}
		ids[a] = b
		back[b] = a
		return true
	}
	for i := range as {
		a, b := as[i], bs[i]
		switch {
		case a.op.ID != b.op.ID:
			bad(a.op.ID, "the operations ran in another order")
			return
		case a.panicked != "" || b.panicked != "":
			if b.panicked != "" && a.panicked == "" {
				bad(a.op.ID, "an operation panicked: "+b.panicked)
			}
			return
		case (a.err == nil) != (b.err == nil):
			bad(a.op.ID, fmt.Sprintf("the outcome of a request is %v, not %v", errWord(b.err), errWord(a.err)))
			return
		}
		if a.op.Kind == "query" && e.obj != nil {
			// The ids depend on the order in which maps are visited.
			if a.count != b.count || a.found != b.found || (!a.partial && !b.partial && len(a.got) != len(b.got)) {
				bad(a.op.ID, "the answer of a query differs")
				return
			}
			continue
		}
		if a.obj != nil {
			if msg := a.obj.compare(b.obj); msg != "" {
				bad(a.op.ID, msg)
				return
			}
			continue
		}
		if a.op.Kind == "write" && a.err == nil {
			ok := pair(a.res.ID, b.res.ID) && len(a.res.TempIDs) == len(b.res.TempIDs)
			for _, t := range sortedTemps(a.res.TempIDs) {
				ok = ok && pair(a.res.TempIDs[t], b.res.TempIDs[t])
			}
			if !ok {
				bad(a.op.ID, fmt.Sprintf("a request resolved other entities: %d %v, not %d %v", b.res.ID, b.res.TempIDs, a.res.ID, a.res.TempIDs))
				return
			}
		}
		if msg := sameMapped(a.dump, b.dump, ids); msg != "" {
			bad(a.op.ID, "a snapshot differs:"+msg)
			return
		}
		if a.op.Kind != "query" {
			continue
		}
		if a.count != b.count || a.found != b.found {
			bad(a.op.ID, "the answer of a query differs")
			return
		}
		if !a.partial && !b.partial {
			if msg := sameMapped(a.got, b.got, ids); msg != "" {
				bad(a.op.ID, "the answer of a query differs:"+msg)
				return
			}
		}
	}
}

func errWord(err error) string {
	if err == nil {
		return "acceptance"
	}
	return "rejection"
}

// sameMapped compares datums modulo the ids.
func sameMapped(a, b []Datum, ids map[ID]ID) string {
	id := func(x ID) ID {
		if y, ok := ids[x]; ok {
			return y
		}
		return x
	}
	show := func(ds []Datum, f func(ID) ID) (out []string) {
		for _, d := range ds {
			v := d.V
			if x, ok := v.(ID); ok {
				v = f(x)
			}
			out = append(out, fmt.Sprintf("[%d %d %s %d]", f(d.E), f(d.A), vkey(v), f(d.T)))
		}
		slices.Sort(out)
		return
	}
	x, y := show(a, id), show(b, func(x ID) ID { return x })
	if slices.Equal(x, y) {
		return ""
	}
	var msg strings.Builder
	n := 0
	for _, s := range x {
		if _, ok := slices.BinarySearch(y, s); !ok && n < 6 {
			fmt.Fprintf(&msg, " -%s", s)
			n++
		}
	}
	for _, s := range y {
		if _, ok := slices.BinarySearch(x, s); !ok && n < 12 {
			fmt.Fprintf(&msg, " +%s", s)
			n++
		}
	}
	if msg.Len() == 0 {
		fmt.Fprintf(&msg, " %d datums, not %d", len(y), len(x))
	}
	return msg.String()
}
