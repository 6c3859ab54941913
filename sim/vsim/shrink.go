package main

import (
	"context"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"time"

	zs "github.com/dball/destructive/internal/zsim/simrt"
)

// shrink minimises a failing case while it still violates the property in the same way.
func shrink(self string, r *Replay, fresh bool, better func(*Case, Viol)) {
	prop, prelude := r.Property, r.Prelude
	best, viol := cloneCase(r.Case), r.Violation
	deadline := time.Now().Add(25 * time.Second)
	tries := 0
	try := func(c *Case) bool {
		if time.Now().After(deadline) || tries > 4000 {
			return false
		}
		tries++
		beats.Add(1)
		var v *Viol
		if viol.Class == "crash" || zs.Race || fresh {
			// The detector reports each race but once.
			v = freshTry(self, &Replay{Property: prop, Violation: viol, Case: c, Prelude: prelude})
			if v != nil && zs.Race && viol.Class == "race" {
				v.Msg = viol.Msg
			}
		} else {
			e := evaluate(cloneCase(c))
			v = pickViol(prop, e)
		}
		if v == nil || v.Class != viol.Class {
			return false
		}
		best, viol = c, *v
		better(best, viol)
		return true
	}
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		for _, edit := range edits(best) {
			c := cloneCase(best)
			if !edit(c) {
				continue
			}
			if try(c) {
				changed = true
			}
		}
	}
}

// shrinkFile minimises the case of a file, and rewrites the file with each step.
func shrinkFile(path string) {
	b, err := os.ReadFile(path)
	must(err)
	var r struct {
		Replay
		Fresh bool
	}
	must(json.Unmarshal(b, &r))
	self, err := os.Executable()
	must(err)
	shrink(self, &r.Replay, r.Fresh, func(c *Case, v Viol) {
		r.Case, r.Violation = c, v
		b, err := json.Marshal(&r.Replay)
		must(err)
		must(os.WriteFile(path+".new", b, 0o644))
		must(os.Rename(path+".new", path))
	})
}

// shrinkApart minimises a failing case in a process of its own, which may get stuck.
func shrinkApart(self string, r *Replay, fresh bool) (*Case, Viol) {
	dir, err := os.MkdirTemp("", "vsim")
	must(err)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "case.json")
	b, err := json.Marshal(struct {
		*Replay
		Fresh bool
	}{r, fresh})
	must(err)
	must(os.WriteFile(path, b, 0o644))
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "shrink", path)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0")
	_ = cmd.Run()
	b, err = os.ReadFile(path)
	must(err)
	var x Replay
	must(json.Unmarshal(b, &x))
	return x.Case, x.Violation
}

// edits lists ways to simplify the case. Each reports whether it applies to a copy of what may
// by then be a simpler case.
func edits(c *Case) (es []func(c *Case) bool) {
	// Whole tasks.
	for i := range c.Tasks {
		es = append(es, func(c *Case) bool {
			if i >= len(c.Tasks) || len(c.Tasks[i]) == 0 {
				return false
			}
			c.Tasks[i] = nil
			return true
		})
	}
	// Halves of lists and then single operations, from the end.
	lists := func(c *Case, i int) *[]*Op {
		if i < 0 {
			return &c.Setup
		}
		return &c.Tasks[i]
	}
	for i := -1; i < len(c.Tasks); i++ {
		n := len(*lists(c, i))
		for k := n / 2; k >= 1; k /= 2 {
			for at := n - k; at >= 0; at -= k {
				es = append(es, func(c *Case) bool {
					l := lists(c, i)
					if at+k > len(*l) {
						return false
					}
					*l = append((*l)[:at:at], (*l)[at+k:]...)
					return true
				})
			}
		}
	}
	// The schedule.
	for k := len(c.Trace); k >= 1; k /= 2 {
		for at := len(c.Trace) - k; at >= 0; at -= k {
			es = append(es, func(c *Case) bool {
				if at+k > len(c.Trace) {
					return false
				}
				c.Trace = append(c.Trace[:at:at], c.Trace[at+k:]...)
				return true
			})
		}
	}
	// The parts of the operations.
	for i := -1; i < len(c.Tasks); i++ {
		for j := range *lists(c, i) {
			op := func(c *Case) *Op {
				l := *lists(c, i)
				if j >= len(l) {
					return nil
				}
				return l[j]
			}
			es = append(es, opEdits(op, (*lists(c, i))[j])...)
			if o := (*lists(c, i))[j]; o.Nest != nil {
				es = append(es, opEdits(func(c *Case) *Op {
					o := op(c)
					if o == nil {
						return nil
					}
					return o.Nest
				}, o.Nest)...)
			}
		}
	}
	// Remaining empty tasks may only go last, since the schedule names tasks by position.
	es = append(es, func(c *Case) bool {
		n := len(c.Tasks)
		if n < 2 || len(c.Tasks[n-1]) != 0 {
			return false
		}
		c.Tasks = c.Tasks[:n-1]
		return true
	})
	es = append(es, func(c *Case) bool {
		if c.NProbes == 0 {
			return false
		}
		c.NProbes = 0
		return true
	})
	return
}

func opEdits(get func(c *Case) *Op, o *Op) (es []func(c *Case) bool) {
	add := func(f func(o *Op) bool) {
		es = append(es, func(c *Case) bool {
			o := get(c)
			return o != nil && f(o)
		})
	}
	for _, list := range []func(o *Op) *[]*Claim{
		func(o *Op) *[]*Claim { return &o.Claims },
		func(o *Op) *[]*Claim { return &o.Schema },
	} {
		n := len(*list(o))
		for k := n; k >= 1; k /= 2 {
			for at := n - k; at >= 0; at -= k {
				add(func(o *Op) bool {
					cs := list(o)
					if at+k > len(*cs) {
						return false
					}
					*cs = append((*cs)[:at:at], (*cs)[at+k:]...)
					return true
				})
			}
		}
	}
	for at := len(o.Rets) - 1; at >= 0; at-- {
		add(func(o *Op) bool {
			if at >= len(o.Rets) {
				return false
			}
			o.Rets = append(o.Rets[:at:at], o.Rets[at+1:]...)
			return true
		})
	}
	for at := len(o.Objs) - 1; at >= 0; at-- {
		add(func(o *Op) bool {
			if at >= len(o.Objs) {
				return false
			}
			o.Objs = append(o.Objs[:at:at], o.Objs[at+1:]...)
			return true
		})
	}
	for at := len(o.Dels) - 1; at >= 0; at-- {
		add(func(o *Op) bool {
			if at >= len(o.Dels) {
				return false
			}
			o.Dels = append(o.Dels[:at:at], o.Dels[at+1:]...)
			return true
		})
	}
	for at := range o.Objs {
		es = append(es, objEdits(get, at, o.Objs[at])...)
	}
	add(func(o *Op) bool {
		if o.Map == 0 {
			return false
		}
		o.Map = 0
		return true
	})
	add(func(o *Op) bool {
		if !o.Mutate && o.Spare == 0 {
			return false
		}
		o.Mutate = false
		o.Spare = 0
		return true
	})
	add(func(o *Op) bool {
		if o.Nest == nil {
			return false
		}
		o.Nest = nil
		return true
	})
	add(func(o *Op) bool {
		if o.Yield == 0 {
			return false
		}
		o.Yield = 0
		return true
	})
	add(func(o *Op) bool {
		switch o.Mode {
		case "break", "panic", "pull", "goexit", "twice":
			o.Mode = "full"
			o.N = 0
			return true
		}
		return false
	})
	return
}

// shrinkPrelude minimises the cases that the process must have run before the failing one.
func shrinkPrelude(self, prop string, f *Found) []uint64 {
	deadline := time.Now().Add(40 * time.Second)
	fails := func(p []uint64) bool {
		v := freshTry(self, &Replay{Property: prop, Violation: f.Viol, Case: f.Case, Prelude: p})
		return v != nil && v.Class == f.Viol.Class
	}
	best := slices.Clone(f.Prelude)
	if !fails(best) {
		return best
	}
	for k := len(best) / 2; k >= 1; k /= 2 {
		for at := len(best) - k; at >= 0 && time.Now().Before(deadline); at -= k {
			if at+k > len(best) {
				continue
			}
			p := slices.Delete(slices.Clone(best), at, at+k)
			if fails(p) {
				best = p
			}
		}
	}
	return best
}
