package main

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"slices"
	"strings"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// fakeID is the least of the ids which stand for those that the database would issue.
const fakeID = ID(1) << 50

// fakeResponse makes the response that the plan calls for, but for the ids.
func fakeResponse(p *plan, base ID) *types.Response {
	res := &types.Response{ID: base, TempIDs: map[types.TempID]ID{}}
	ids := map[*tnode]ID{}
	for _, t := range p.temps {
		n := p.class[t].find()
		switch {
		case n.entity != 0:
			res.TempIDs[t] = n.entity
		case n.txn:
			res.TempIDs[t] = base
		default:
			if ids[n] == 0 {
				ids[n] = base + ID(len(ids)) + 1
			}
			res.TempIDs[t] = ids[n]
		}
	}
	return res
}

// judgeObj judges the outcome of a struct request against the model.
func judgeObj(s *State, r *Rec, post *State, issued map[ID]bool) (open bool, upsert bool, v *Viol) {
	s.index()
	post.index()
	o, m := r.obj, r.obj.m
	o.fresh = false
	if r.err != nil && len(o.ids) != 0 {
		return false, false, &Viol{Class: "atom.response", Msg: fmt.Sprintf("a rejected request has ids: %d", o.ids), Props: []string{"C03", "C17"}}
	}
	if r.err != nil && post.canon != s.canon {
		return false, false, &Viol{Class: "atom.rejected", Msg: "a rejected request left a trace:" + diff(s, post), Props: []string{"C03", "C17"}}
	}
	wrong := func(class, msg string, props ...string) (bool, bool, *Viol) {
		slices.Sort(props)
		return false, false, &Viol{Class: class, Msg: msg, Props: slices.Compact(props)}
	}
	if m.bad != "" {
		if r.err == nil {
			return wrong("model.accept", "an invalid request was accepted: "+m.bad, m.props...)
		}
		return
	}
	p1 := planWrite(s, &m.schema, issued)
	verdict := p1.verdictOf()
	reason, props := p1.reason, append(slices.Clone(p1.props), "C17")
	rejectProps := append(p1.rejectProps(), "C16", "C17")
	var p2 *plan
	var want *State
	var res2 *types.Response
	if verdict == vAccept {
		s1, v := p1.post(s, fakeResponse(p1, fakeID))
		if v != nil {
			panic("vsim: " + v.Msg)
		}
		p2 = planWrite(s1, &m.data, issued)
		verdict = p2.verdictOf()
		reason, props = p2.reason, append(slices.Clone(p2.props), "C17")
		rejectProps = append(rejectProps, p2.rejectProps()...)
		if verdict == vAccept && m.open != "" {
			verdict = vOpen
		}
		if verdict == vAccept {
			res2 = fakeResponse(p2, fakeID<<1)
			want, v = p2.post(s1, res2)
			if v != nil {
				panic("vsim: " + v.Msg)
			}
		}
	}
	if r.err != nil {
		if verdict == vAccept {
			return wrong("model.reject", "a valid request was rejected: "+r.err.Error(), rejectProps...)
		}
		return verdict == vOpen, false, nil
	}
	// The ids that it issued must be novel.
	for _, d := range post.ds {
		for _, id := range datumIDs(d) {
			if id == 0 || s.knows(id) {
				continue
			}
			if id < sys.FirstUserID || issued[id] {
				if !m.mentions(id) {
					return wrong("model.fresh", fmt.Sprintf("the id %d of %s is not fresh", id, post.show(d)), "C07", "C17")
				}
			}
		}
	}
	if len(o.ids) != len(m.tops) {
		return wrong("model.ids", fmt.Sprintf("there are %d ids for %d assertions", len(o.ids), len(m.tops)), "C17")
	}
	switch verdict {
	case vReject:
		return wrong("model.accept", "an invalid request was accepted: "+reason, props...)
	case vOpen:
		if p1.v == vReject || (p2 != nil && p2.v == vReject) {
			return true, false, nil
		}
		if v := frameObj(s, post, p1, p2); v != nil {
			return true, false, v
		}
		return true, false, nil
	}
	// What must be the same in both?
	c := newColourer(s)
	c.mention(m)
	claimed := map[ID]bool{}
	for _, d := range want.ds {
		claimed[d.E] = true
		if id, ok := d.V.(ID); ok {
			claimed[id] = true
		}
	}
	ids := map[ID]ID{}
	back := map[ID]ID{}
	for i, top := range m.tops {
		real := ID(o.ids[i])
		var e ID
		switch x := top.(type) {
		case types.ID:
			e = x
		case types.TempID:
			e = res2.TempIDs[x]
			if e == 0 {
				// It has no claims, so is it an entity?
				continue
			}
		}
		if c.knows(e) || e < fakeID {
			if real != e {
				return wrong("model.ids", fmt.Sprintf("the id of assertion %d is %d, not that of the extant entity %d", i, real, e), "C17", "C05", "C16")
			}
			continue
		}
		if real == 0 || c.knows(real) {
			return wrong("model.ids", fmt.Sprintf("the id of assertion %d is %d, which is not that of a new entity", i, real), "C17", "C05", "C07", "C16")
		}
		x, ok := ids[e]
		y, ok2 := back[real]
		if (ok && x != real) || (ok2 && y != e) {
			return wrong("model.ids", fmt.Sprintf("the id of assertion %d is %d, but it is the same entity as one with the id %d, or is not that of %d", i, real, x, y), "C17", "C05", "C16")
		}
		ids[e] = real
		back[real] = e
		c.label(0, e, fmt.Sprint("top", i))
		c.label(1, real, fmt.Sprint("top", i))
	}
	a, b := c.refine(want, post)
	if msg := sameLines(a, b); msg != "" {
		props := append(p2.stateProps(s, want, post), p1.stateProps(s, want, post)...)
		set := map[string]bool{"C16": true, "C17": true}
		for _, p := range props {
			switch p {
			case "C16", "C17":
			case "C05", "C06", "C04", "C11", "C09", "C10":
				set[p] = true
			}
		}
		if kept(s, want, post) {
			set["C18"] = true
			set["C06"] = true
		}
		return wrong("model.state", "a request had the wrong effect:"+msg, sortedKeys(set)...)
	}
	// Is everything about it new?
	o.fresh = m.plain
	classes := map[*tnode]bool{}
	for _, t := range p2.temps {
		n := p2.class[t].find()
		if n.entity != 0 {
			upsert = true
		}
		if n.entity != 0 || classes[n] {
			o.fresh = false
		}
		classes[n] = true
	}
	return false, upsert, nil
}

// kept says whether the request failed to keep something.
func kept(s, want, post *State) bool {
	for _, d := range s.ds {
		k := key{d.E, d.A, vkey(d.V)}
		t, ok := want.ts[k]
		u, ok2 := post.ts[k]
		if ok && (!ok2 || t != u) {
			return true
		}
	}
	return false
}

func datumIDs(d Datum) []ID {
	if id, ok := d.V.(ID); ok {
		return []ID{d.E, d.A, d.T, id}
	}
	return []ID{d.E, d.A, d.T}
}

// knows says whether an id is among the datums.
func (s *State) knows(id ID) bool {
	s.index()
	if s.ids == nil {
		s.ids = map[ID]bool{}
		for _, d := range s.ds {
			for _, id := range datumIDs(d) {
				s.ids[id] = true
			}
		}
	}
	return s.ids[id]
}

// mentions says whether the request mentions the id.
func (m *shredded) mentions(id ID) bool {
	for _, c := range m.data.Claims {
		if c.E == types.ERef(id) || c.V == types.VRef(id) {
			return true
		}
	}
	return false
}

// frameObj checks that an accepted request whose outcome is open removed nothing else.
func frameObj(s, post *State, ps ...*plan) *Viol {
	type ea struct{ e, a ID }
	ok := map[ea]bool{}
	ents := map[ID]bool{}
	for _, p := range ps {
		if p == nil {
			return nil
		}
		for e := range p.rets {
			ents[e] = true
		}
		for i := range p.claims {
			c := &p.claims[i]
			e := c.e
			if c.istempE {
				e = p.class[c.etemp].find().entity
				if e == 0 {
					continue
				}
			}
			ok[ea{e, c.a}] = true
		}
		if p.open != "" {
			// Tempids may then be any of the entities.
			for i := range p.claims {
				c := &p.claims[i]
				if !c.istempE {
					continue
				}
				for e := range s.byE {
					ok[ea{e, c.a}] = true
				}
			}
		}
	}
	for _, d := range s.ds {
		t, has := post.ts[key{d.E, d.A, vkey(d.V)}]
		if (!has || t != d.T) && !ok[ea{d.E, d.A}] && !ents[d.E] {
			return &Viol{Class: "model.frame", Msg: "a request removed or changed a datum it does not mention: " + s.show(d), Props: []string{"C11", "C03", "C17", "C18"}}
		}
	}
	return nil
}

// colourer compares states modulo the ids that one does not know, by refining colours.
type colourer struct {
	known  map[ID]bool
	labels [2]map[ID]string
	// txs says whether transactions are entities like others.
	txs bool
}

func newColourer(s *State) *colourer {
	c := &colourer{known: map[ID]bool{}}
	c.labels[0] = map[ID]string{}
	c.labels[1] = map[ID]string{}
	if s != nil {
		s.knows(0)
		for id := range s.ids {
			c.known[id] = true
		}
	}
	return c
}

func (c *colourer) knows(id ID) bool { return id < sys.FirstUserID || c.known[id] }

// mention says that the ids that the request mentions are known.
func (c *colourer) mention(m *shredded) {
	for _, x := range m.data.Claims {
		if id, ok := x.E.(types.ID); ok {
			c.known[id] = true
		}
		if id, ok := x.V.(types.ID); ok {
			c.known[id] = true
		}
	}
}

func (c *colourer) label(i int, id ID, l string) { c.labels[i][id] += l + " " }

func hashOf(ss ...string) uint64 {
	h := fnv.New64a()
	for _, s := range ss {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// refine returns descriptions of the datums of the states which are equal if the states are.
func (c *colourer) refine(a, b *State) (x, y []string) {
	a.index()
	b.index()
	var colours [2]map[ID]string
	states := [2]*State{a, b}
	tsym := func(i int, t ID) string {
		if c.knows(t) {
			return fmt.Sprint("k", uint64(t))
		}
		if !c.txs {
			return "new"
		}
		return colours[i][t]
	}
	sym := func(i int, id ID) string {
		if c.knows(id) {
			return fmt.Sprint("k", uint64(id))
		}
		return colours[i][id]
	}
	vsym := func(i int, v types.Value) string {
		if id, ok := v.(ID); ok {
			return sym(i, id)
		}
		return vkey(v)
	}
	count := [2]int{}
	for i, s := range states {
		colours[i] = map[ID]string{}
		for _, d := range s.ds {
			for _, id := range datumIDs(d) {
				if !c.knows(id) {
					colours[i][id] = "u" + c.labels[i][id]
				}
			}
		}
	}
	for round := 0; ; round++ {
		var next [2]map[ID]string
		stable := true
		for i, s := range states {
			parts := map[ID][]string{}
			for _, d := range s.ds {
				e, at, v, t := sym(i, d.E), sym(i, d.A), vsym(i, d.V), tsym(i, d.T)
				if !c.knows(d.E) {
					parts[d.E] = append(parts[d.E], "e "+at+" "+v+" "+t)
				}
				if !c.knows(d.A) {
					parts[d.A] = append(parts[d.A], "a "+e+" "+v+" "+t)
				}
				if id, ok := d.V.(ID); ok && !c.knows(id) {
					parts[id] = append(parts[id], "v "+e+" "+at+" "+t)
				}
				if c.txs && !c.knows(d.T) {
					parts[d.T] = append(parts[d.T], "t "+e+" "+at+" "+v)
				}
			}
			next[i] = map[ID]string{}
			distinct := map[string]bool{}
			for id, was := range colours[i] {
				slices.Sort(parts[id])
				n := fmt.Sprintf("%016x", hashOf(append(parts[id], was)...))
				next[i][id] = n
				distinct[n] = true
			}
			if len(distinct) != count[i] {
				stable = false
			}
			count[i] = len(distinct)
		}
		colours = next
		if stable || round > 200 {
			break
		}
	}
	show := func(i int, s *State) (out []string) {
		for _, d := range s.ds {
			a := s.name(d.A)
			if c.knows(d.A) {
				a = sym(i, d.A)
			}
			out = append(out, fmt.Sprintf("[%s %s %s @%s]", sym(i, d.E), a, vsym(i, d.V), tsym(i, d.T)))
		}
		slices.Sort(out)
		return
	}
	return show(0, a), show(1, b)
}

// sameLines says how sorted lists differ.
func sameLines(x, y []string) string {
	if slices.Equal(x, y) {
		return ""
	}
	count := map[string]int{}
	for _, s := range x {
		count[s]++
	}
	for _, s := range y {
		count[s]--
	}
	var b strings.Builder
	n := 0
	for _, s := range sortedKeys(count) {
		if k := count[s]; k != 0 && n < 10 {
			n++
			what := "missing"
			if k < 0 {
				what = "extra"
			}
			fmt.Fprintf(&b, " %s %s", what, s)
		}
	}
	return b.String()
}

// compare compares records of the same operation under different configurations.
func (o *objRec) compare(p *objRec) string {
	if len(o.ids) != len(p.ids) {
		return fmt.Sprintf("a request has %d ids, not %d", len(p.ids), len(o.ids))
	}
	if o.nils != p.nils && o.typ != nil {
		f := &finder{s: o.rec.from.obj.stateOf(), seen: map[findKey]bool{}, types: map[ID]reflect.Type{}}
		f.explore(o.typ.typ, ID(o.id))
		if f.wild == "" {
			return fmt.Sprintf("finding %s found %s, not %s", o.typ.name, p.shown, o.shown)
		}
	}
	if o.rec.dump == nil || p.rec.dump == nil {
		return ""
	}
	c := newColourer(nil)
	c.txs = true
	for i := range o.ids {
		c.label(0, ID(o.ids[i]), fmt.Sprint("top", i))
		c.label(1, ID(p.ids[i]), fmt.Sprint("top", i))
	}
	x, y := c.refine(o.stateOf(), p.stateOf())
	if msg := sameLines(x, y); msg != "" {
		return "a snapshot differs:" + msg
	}
	return ""
}
