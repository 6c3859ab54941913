package main

import (
	"slices"

	zs "github.com/dball/destructive/internal/zsim/simrt"
)

// diagnose works out which other properties a violation breaks, by taking away what may have
// caused it.
func diagnose(e *env, v Viol, prop string) (props []string) {
	props = slices.Clone(v.Props)
	c := pinned(e.c, e)
	same := func(d *Case) bool {
		f := evaluate(d)
		return len(f.viols) > 0
	}
	switch prop {
	case "C02":
		// Does it only happen when operations overlap?
		if len(c.Tasks) > 1 && (v.Class[:3] == "con" || v.Class[:3] == "lin" || v.Class[:3] == "inv" || v.Class[:3] == "mod" || v.Class[:3] == "ato" || v.Class[:3] == "seq") && !same(sequential(e)) {
			props = append(props, "C02")
		}
	case "C03":
		// Does it only happen after requests that were rejected?
		d := cloneCase(c)
		if len(c.Tasks) > 1 {
			d = sequential(e)
			if !same(d) {
				break
			}
		}
		if unrejected(d, e, v.Op) && !same(d) {
			props = append(props, "C03")
		}
	case "C12":
		if len(c.Tasks) > 1 && e.out.Failure == nil && (v.Class[:3] == "con" || v.Class[:3] == "lin" || v.Class[:3] == "inv" || v.Class[:3] == "pan" || v.Class[:3] == "sna" || v.Class[:3] == "que") && !same(sequential(e)) {
			props = append(props, "C12")
		}
	case "C13":
		d := cloneCase(c)
		if tame(d) && !same(d) {
			props = append(props, "C13")
		}
	case "C15":
		d := cloneCase(c)
		if unmutated(d) && !same(d) {
			props = append(props, "C15")
		}
	case "C17":
		if c.Domain == "obj" && len(c.Tasks) > 1 && !same(sequential(e)) {
			props = append(props, "C17")
		}
	case "C19":
		d := cloneCase(c)
		d.Degree, d.Attrs, d.Idents, d.Alt = 64, 256, 1024, nil
		eachOp(d, func(o *Op) { o.Map = 0 })
		if !same(d) {
			props = append(props, "C19")
		}
	}
	return
}

// sequential is the case with its operations one after another, in the order that best explains
// the run, or else in that of their invocation.
func sequential(e *env) *Case {
	c := cloneCase(e.c)
	c.Trace = nil
	c.Strat = zs.Strategy{Kind: "seq"}
	c.Alt = nil
	byID := map[int]*Op{}
	nested := map[int]bool{}
	for _, t := range c.Tasks {
		for _, o := range t {
			byID[o.ID] = o
			if o.Nest != nil {
				nested[o.Nest.ID] = true
			}
		}
	}
	var ops []*Op
	take := func(r *Rec) {
		o := byID[r.op.ID]
		if o != nil && r.task >= 0 {
			ops = append(ops, o)
			delete(byID, r.op.ID)
		}
	}
	for _, r := range e.order {
		take(r)
	}
	for _, r := range e.all() {
		take(r)
	}
	for _, o := range ops {
		if o.Mode == "goexit" {
			o.Mode = "break"
		}
	}
	c.Tasks = [][]*Op{ops}
	return c
}

func eachOp(c *Case, f func(o *Op)) {
	var op func(o *Op)
	op = func(o *Op) {
		if o != nil {
			f(o)
			op(o.Nest)
		}
	}
	for _, o := range c.Setup {
		op(o)
	}
	for _, t := range c.Tasks {
		for _, o := range t {
			op(o)
		}
	}
}

// tame removes the misbehaviour of consumers.
func tame(c *Case) (changed bool) {
	eachOp(c, func(o *Op) {
		switch o.Mode {
		case "break", "panic", "pull", "goexit":
			o.Mode = "full"
			changed = true
		}
		if o.Nest != nil {
			o.Nest = nil
			changed = true
		}
	})
	return
}

// unmutated keeps the owners of requests and responses from changing them.
func unmutated(c *Case) (changed bool) {
	eachOp(c, func(o *Op) {
		if o.Mutate || o.Spare > 0 {
			o.Mutate = false
			o.Spare = 0
			changed = true
		}
	})
	return
}

// unrejected removes the requests that were rejected, other than the given one.
func unrejected(c *Case, e *env, except int) (changed bool) {
	rejected := map[int]bool{}
	for _, r := range e.all() {
		if isWrite(r) && (r.err != nil) && r.op.ID != except {
			rejected[r.op.ID] = true
		}
	}
	keep := func(ops []*Op) (kept []*Op) {
		for _, o := range ops {
			if rejected[o.ID] {
				changed = true
				continue
			}
			kept = append(kept, o)
		}
		return
	}
	eachOp(c, func(o *Op) {
		if o.Nest != nil && rejected[o.Nest.ID] {
			o.Nest = nil
			changed = true
		}
	})
	c.Setup = keep(c.Setup)
	for i := range c.Tasks {
		c.Tasks[i] = keep(c.Tasks[i])
	}
	return
}
