package main

import (
	"fmt"
	"slices"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// judgeSchema judges the outcome of a request that has a schema: two steps, of which nobody sees
// the first alone. What ids the first issues is seen in the state after the second only.
func judgeSchema(s *State, req *types.Request, res *types.Response, post *State, issued map[ID]bool) (open bool, v *Viol) {
	s.index()
	post.index()
	if res.Error != nil && post.canon != s.canon {
		return false, &Viol{Class: "atom.rejected", Msg: "a rejected request left a trace:" + diff(s, post), Props: []string{"C03"}}
	}
	p1 := planWrite(s, &types.Request{Claims: req.Schema}, issued)
	verdict := p1.verdictOf()
	reason, props := p1.reason, p1.props
	rejectProps := append(p1.rejectProps(), "C03")
	var p2 *plan
	var want *State
	var res2 *types.Response
	if verdict == vAccept {
		s1, v := p1.post(s, fakeResponse(p1, fakeID))
		if v != nil {
			panic("vsim: " + v.Msg)
		}
		p2 = planWrite(s1, &types.Request{Claims: req.Claims, Retractions: req.Retractions}, issued)
		verdict = p2.verdictOf()
		reason, props = p2.reason, p2.props
		rejectProps = append(rejectProps, p2.rejectProps()...)
		if verdict == vAccept {
			res2 = fakeResponse(p2, fakeID<<1)
			want, v = p2.post(s1, res2)
			if v != nil {
				panic("vsim: " + v.Msg)
			}
		}
	}
	wrong := func(class, msg string, props ...string) (bool, *Viol) {
		slices.Sort(props)
		return false, &Viol{Class: class, Msg: msg, Props: slices.Compact(props)}
	}
	if res.Error != nil {
		if verdict == vAccept {
			return wrong("model.reject", "a valid request with a schema was rejected: "+errCode(res.Error), rejectProps...)
		}
		return verdict == vOpen, nil
	}
	if v := freshness(s, res, issued, p1); v != nil && v.Class == "model.txid" {
		return false, v
	}
	// The ids below the transaction's may be of the first step, which the second may name.
	second := &types.Response{ID: res.ID, TempIDs: map[types.TempID]ID{}}
	for t, id := range res.TempIDs {
		if id > res.ID {
			second.TempIDs[t] = id
		}
	}
	if v := foresight(req, second, issued); v != nil {
		return false, v
	}
	mentioned := func(id ID) bool {
		for _, cs := range [][]types.Claim{req.Claims, req.Schema} {
			for i := range cs {
				if cs[i].E == types.ERef(id) || cs[i].V == types.VRef(id) {
					return true
				}
			}
		}
		return false
	}
	for _, d := range post.ds {
		for _, id := range datumIDs(d) {
			if id != 0 && !s.knows(id) && (id < sys.FirstUserID || issued[id]) && !mentioned(id) {
				return wrong("model.fresh", fmt.Sprintf("the id %d of %s is not fresh", id, post.show(d)), "C07", "C05")
			}
		}
	}
	switch verdict {
	case vReject:
		return wrong("model.accept", "an invalid request was accepted: "+reason, props...)
	case vOpen:
		return true, nil
	}
	if len(res.TempIDs) != len(p2.temps) {
		return wrong("model.tempids", fmt.Sprintf("the claims have tempids %q but the response %v", p2.temps, res.TempIDs), "C05")
	}
	c := newColourer(s)
	c.txs = true
	for _, cs := range [][]types.Claim{req.Claims, req.Schema} {
		for i := range cs {
			if id, ok := cs[i].E.(types.ID); ok {
				c.known[id] = true
			}
			if id, ok := cs[i].V.(types.ID); ok {
				c.known[id] = true
			}
		}
	}
	ids, back := map[ID]ID{res2.ID: res.ID}, map[ID]ID{res.ID: res2.ID}
	c.label(0, res2.ID, "tx")
	c.label(1, res.ID, "tx")
	for _, t := range p2.temps {
		e, real := res2.TempIDs[t], res.TempIDs[t]
		switch x, ok := ids[e]; {
		case c.knows(e):
			if real != e {
				return wrong("model.tempids", fmt.Sprintf("tempid %q resolved to %d, not to the extant entity %d", t, real, e), "C05", "C04")
			}
		case real == 0 || c.knows(real):
			return wrong("model.tempids", fmt.Sprintf("tempid %q resolved to %d, which is not a new entity", t, real), "C05", "C07")
		case ok && x != real:
			return wrong("model.tempids", fmt.Sprintf("tempid %q resolved to %d, not to %d", t, real, x), "C05", "C04")
		case !ok && back[real] != 0:
			return wrong("model.tempids", fmt.Sprintf("tempid %q resolved to %d, which is another entity", t, real), "C05", "C07")
		default:
			ids[e], back[real] = real, e
			c.label(0, e, "temp"+string(t))
			c.label(1, real, "temp"+string(t))
		}
	}
	a, b := c.refine(want, post)
	if msg := sameLines(a, b); msg != "" {
		set := map[string]bool{"C03": true, "C14": true, "C10": true}
		for _, p := range []*plan{p1, p2} {
			for f, prop := range map[string]string{"identity": "C05", "unique": "C04", "retract": "C11", "retraction": "C11", "many": "C06", "one": "C06", "txn": "C07", "schema": "C09"} {
				if p.feats[f] {
					set[prop] = true
				}
			}
		}
		return wrong("model.state", "a request with a schema had the wrong effect:"+msg, sortedKeys(set)...)
	}
	return false, nil
}
