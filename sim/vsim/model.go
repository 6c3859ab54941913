package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// The reference model says what a request must do to a state: whether it is accepted, and if
// so, which datums result.

type verdict int

const (
	vAccept verdict = iota
	vReject
	// vOpen requests are those whose outcomes the documentation leaves open. The outcome must
	// still satisfy the invariants, be atomic, and change nothing the request does not mention.
	vOpen
)

// plan is what the model makes of a request.
type plan struct {
	v      verdict
	reason string
	props  []string // the properties at stake if a rejection is not forthcoming
	// post computes the datums from the response's ids.
	claims []rclaim
	temps  []types.TempID // in order of appearance
	class  map[types.TempID]*tnode
	rets   map[ID]bool // retracted entities
	feats  map[string]bool
	open   string // why the outcome is open
	hard   bool   // whether the rejection is certain even if the outcome is open otherwise
}

// tnode is a class of tempids which must resolve to the same entity.
type tnode struct {
	up     *tnode
	entity ID // or 0 if the class is a new entity
	txn    bool
}

func (n *tnode) find() *tnode {
	for n.up != nil {
		n = n.up
	}
	return n
}

// rclaim is a resolved claim.
type rclaim struct {
	e       ID
	etemp   types.TempID
	etxn    bool
	istempE bool
	a       ID
	v       types.Value
	vtemp   types.TempID
	istempV bool
	retract bool
	implied bool // by a retraction
}

func (p *plan) reject(reason string, props ...string) {
	if p.v == vReject {
		return
	}
	p.v = vReject
	p.reason = reason
	p.props = props
}

// refuse rejects a request that no other part of it could make valid.
func (p *plan) refuse(reason string, props ...string) {
	p.reject(reason, props...)
	p.hard = true
}

func (p *plan) isOpen(why string) {
	if p.open == "" {
		p.open = why
	}
}

const garbageID = ID(1) << 40

// issuedID says whether an id is known to be issued, known not to be, or neither.
func issuedID(id ID, issued map[ID]bool) (known, is bool) {
	switch {
	case id == 0 || id >= garbageID:
		return true, false
	case issued[id] || (id >= 1 && id <= sys.DbRank):
		return true, true
	}
	return false, false
}

// ealias identifies an entity of a request: an extant entity, the transaction, or a tempid class.
type ealias struct {
	e ID
	n *tnode
}

func (p *plan) alias(c *rclaim) ealias {
	switch {
	case c.etxn:
		return ealias{n: p.class[txnTemp].find()}
	case c.istempE:
		n := p.class[c.etemp].find()
		if n.entity != 0 {
			return ealias{e: n.entity}
		}
		return ealias{n: n}
	}
	return ealias{e: c.e}
}

func (p *plan) vkey(c *rclaim) string {
	if c.istempV {
		n := p.class[c.vtemp].find()
		if n.entity != 0 {
			return vkey(n.entity)
		}
		return fmt.Sprintf("temp:%p", n)
	}
	return vkey(c.v)
}

const txnTemp = types.TempID("\x00txn")

// planWrite works out what the request must do to the state.
func planWrite(s *State, req *types.Request, issued map[ID]bool) (p *plan) {
	s.index()
	p = &plan{class: map[types.TempID]*tnode{txnTemp: {txn: true}}, rets: map[ID]bool{}, feats: map[string]bool{}}
	temp := func(t types.TempID) {
		p.feats["temp"] = true
		if p.class[t] == nil {
			p.class[t] = &tnode{}
			p.temps = append(p.temps, t)
		}
	}
	// The retractions resolve in the state as it was before.
	for _, r := range req.Retractions {
		p.feats["retraction"] = true
		var e ID
		n := 0
		for ref := range r.Constraints {
			n++
			var id ID
			ok := false
			switch x := ref.(type) {
			case types.ID:
				if _, is := issuedID(x, issued); !is && x != 0 {
					// Retracting an entity that does not exist is no use, but need not be an error.
					p.isOpen("retraction of an unissued id")
				}
				id, ok = x, x != 0
			case types.Ident:
				p.feats["ident"] = true
				id, ok = s.idents[string(x)]
			case types.LookupRef:
				p.feats["lookup"] = true
				id, ok = s.lookup(x)
			}
			switch {
			case !ok:
				p.refuse("retraction constraint does not resolve", "C11")
			case e == 0:
				e = id
			case e != id:
				p.refuse("retraction constraints are inconsistent", "C11")
			}
		}
		if n == 0 {
			p.refuse("retraction without constraints", "C11")
		}
		if e != 0 && e < sys.FirstUserID {
			if len(s.byE[e]) > 0 {
				p.refuse("retraction of a system entity", "C10", "C11")
			} else {
				p.isOpen("retraction of an empty system entity")
			}
		}
		if e != 0 {
			p.rets[e] = true
			if s.attrs[e] != nil {
				p.refuse("retraction of an attribute", "C10", "C09", "C11")
			}
		}
	}
	for i := range req.Claims {
		c := &req.Claims[i]
		rc := rclaim{retract: c.Retract}
		if c.Retract {
			p.feats["retract"] = true
		}
		switch e := c.E.(type) {
		case types.ID:
			p.feats["eid"] = true
			known, is := issuedID(e, issued)
			switch {
			case known && !is:
				p.refuse("claim about an id that was not issued", "C14", "C07")
			case !known:
				p.isOpen("claim about an id of unknown status")
			}
			rc.e = e
		case types.Ident:
			p.feats["ident"] = true
			id, ok := s.idents[string(e)]
			if !ok {
				p.refuse("claim about an unknown ident", "C14", "C09")
			}
			rc.e = id
		case types.LookupRef:
			p.feats["lookup"] = true
			id, ok := s.lookup(e)
			if !ok {
				p.refuse("claim about an unresolved lookup", "C14", "C05")
			}
			rc.e = id
		case types.TempID:
			temp(e)
			rc.istempE = true
			rc.etemp = e
			if c.Retract {
				p.isOpen("retract claim about a tempid")
			}
		case types.TxnID:
			p.feats["txn"] = true
			rc.etxn = true
			if c.Retract {
				p.isOpen("retract claim about the transaction")
			}
		default:
			p.refuse("claim without an entity", "C14", "C12")
		}
		switch a := c.A.(type) {
		case types.ID:
			rc.a = a
		case types.Ident:
			id, ok := s.idents[string(a)]
			if !ok {
				p.refuse("claim of an unknown attribute", "C14", "C09")
			}
			rc.a = id
		case types.LookupRef:
			p.feats["lookup"] = true
			id, ok := s.lookup(a)
			if !ok {
				p.refuse("claim of an unresolved attribute", "C14", "C05")
			}
			rc.a = id
		default:
			p.refuse("claim without an attribute", "C14", "C12")
		}
		switch v := c.V.(type) {
		case types.TempID:
			temp(v)
			rc.istempV = true
			rc.vtemp = v
			if c.Retract {
				p.isOpen("retract claim of a tempid")
			}
		case types.Ident:
			p.feats["ident"] = true
			id, ok := s.idents[string(v)]
			if !ok {
				p.refuse("claim of an unknown ident value", "C14", "C09")
			}
			rc.v = id
		case types.LookupRef:
			p.feats["lookup"] = true
			id, ok := s.lookup(v)
			if !ok {
				p.refuse("claim of an unresolved lookup value", "C14", "C05")
			}
			rc.v = id
		case types.ID:
			known, is := issuedID(v, issued)
			switch {
			case known && !is:
				p.refuse("claim of a reference to an id that was not issued", "C14", "C07")
			case !known:
				p.isOpen("reference to an id of unknown status")
			}
			rc.v = v
		case types.Value:
			rc.v = v
		default:
			p.refuse("claim without a value", "C14", "C12")
		}
		if p.v == vReject {
			return
		}
		at := s.attrs[rc.a]
		if at == nil {
			p.refuse("claim of something that is not an attribute", "C14", "C10")
			return
		}
		if rc.istempV {
			if at.typ != sys.AttrTypeRef {
				p.refuse("claim of a reference for another type of attribute", "C14")
				return
			}
		} else if typeOf(rc.v) != at.typ {
			p.refuse("claim of a value of the wrong type", "C14")
			return
		} else if tooFar(rc.v) {
			p.refuse("claim of an instant that cannot be represented", "C14")
			return
		}
		switch {
		case rc.a < sys.FirstUserID && rc.a != sys.TxAt && rc.a != sys.DbRank:
			p.feats["schema"] = true
		case at.unique == sys.AttrUniqueIdentity:
			p.feats["identity"] = true
		case at.unique != 0:
			p.feats["unique"] = true
		}
		if at.many {
			p.feats["many"] = true
		} else {
			p.feats["one"] = true
		}
		p.claims = append(p.claims, rc)
	}
	if p.v == vReject {
		return
	}
	p.planIdentity(s)
	if p.v == vReject {
		return
	}
	for _, id := range sortedIDs(p.rets) {
		for _, d := range s.byE[id] {
			p.claims = append(p.claims, rclaim{e: d.E, a: d.A, v: d.V, retract: true, implied: true})
		}
	}
	for i := range p.claims {
		c := &p.claims[i]
		al := p.alias(c)
		if al.e != 0 && al.e < sys.FirstUserID {
			p.reject("claim about a system entity", "C10")
			p.hard = p.hard || !c.istempE
			return
		}
	}
	p.planSchema(s)
	p.planValues(s)
	return
}

// planIdentity unifies the tempids with identity values.
func (p *plan) planIdentity(s *State) {
	type av struct {
		a ID
		v string
	}
	owners := map[av]*tnode{}
	ents := map[ID]*tnode{}
	ent := func(e ID) *tnode {
		if ents[e] == nil {
			ents[e] = &tnode{entity: e}
		}
		return ents[e]
	}
	union := func(a, b *tnode) bool {
		a, b = a.find(), b.find()
		if a == b {
			return true
		}
		if (a.entity != 0 || a.txn) && (b.entity != 0 || b.txn) {
			return false
		}
		if a.entity != 0 || a.txn {
			b.up = a
		} else {
			a.up = b
		}
		return true
	}
	for i := range p.claims {
		c := &p.claims[i]
		at := s.attrs[c.a]
		if c.retract || at.unique == 0 {
			continue
		}
		if c.istempV {
			// Which entity the value is depends on which entity the value is.
			p.isOpen("unique attribute of a tempid")
			continue
		}
		k := av{c.a, vkey(c.v)}
		owner, owned := s.uniq[key{0, c.a, k.v}]
		var n *tnode
		switch {
		case c.etxn:
			n = p.class[txnTemp]
		case c.istempE:
			n = p.class[c.etemp]
		default:
			n = ent(c.e)
		}
		if at.unique == sys.AttrUniqueValue {
			if owned && (c.istempE || c.etxn || c.e != owner) {
				if p.vacated(s, owner, c.a, k.v) {
					p.isOpen("unique value vacated by the same request")
				} else {
					p.reject("unique value that another entity has", "C04")
				}
			}
			continue
		}
		if owned && p.vacated(s, owner, c.a, k.v) {
			p.isOpen("identity value vacated by the same request")
		}
		if owned && owners[k] == nil {
			owners[k] = ent(owner)
		}
		if owners[k] == nil {
			owners[k] = n
			continue
		}
		if !union(owners[k], n) {
			p.reject("identity values of different entities", "C04", "C05")
		}
	}
}

// vacated says whether the request removes the value of the entity's unique attribute.
func (p *plan) vacated(s *State, e, a ID, v string) bool {
	if p.rets[e] {
		return true
	}
	for i := range p.claims {
		c := &p.claims[i]
		if c.a != a {
			continue
		}
		// Tempids may resolve to the owner, so they may replace its value.
		about := c.e == e || c.istempE
		if about && c.retract && vkey(c.v) == v {
			return true
		}
		if about && !c.retract && !s.attrs[a].many && !c.istempV && vkey(c.v) != v && !c.istempE {
			return true
		}
	}
	return false
}

// planSchema enforces the permanence of the schema.
func (p *plan) planSchema(s *State) {
	type draft struct {
		ident, typ bool
		bad        string
		attrish    bool
		unident    bool
	}
	drafts := map[ealias]*draft{}
	var order []ealias
	get := func(al ealias) *draft {
		if drafts[al] == nil {
			drafts[al] = &draft{}
			order = append(order, al)
		}
		return drafts[al]
	}
	for i := range p.claims {
		c := &p.claims[i]
		al := p.alias(c)
		at := s.attrs[al.e]
		switch c.a {
		case sys.DbIdent:
			str, _ := c.v.(types.String)
			name := string(str)
			switch {
			case at != nil && c.retract:
				p.reject("retraction of an attribute's ident", "C10", "C09", "C11")
			case at != nil && name != at.ident:
				p.reject("change of an attribute's ident", "C10", "C09")
			case at != nil:
			case strings.HasPrefix(name, "sys/"):
				if c.retract {
					p.isOpen("retraction of a reserved ident")
				} else {
					p.reject("claim of a reserved ident", "C10", "C09")
				}
			case c.retract:
				get(al).unident = true
			default:
				get(al).ident = true
			}
		case sys.AttrType, sys.AttrUnique, sys.AttrCardinality:
			if c.istempV {
				if at != nil {
					p.reject("change of an attribute", "C10")
				} else {
					get(al).attrish = true
					get(al).bad = "a tempid"
				}
				continue
			}
			v, _ := c.v.(types.ID)
			if at != nil {
				if c.retract {
					p.reject("retraction of part of an attribute", "C10")
					continue
				}
				was := at.typ
				switch c.a {
				case sys.AttrUnique:
					was = at.unique
				case sys.AttrCardinality:
					was = at.card
				}
				if was != v {
					p.reject("change of an attribute", "C10")
				}
				continue
			}
			if c.retract {
				p.isOpen("retraction of part of no attribute")
				continue
			}
			d := get(al)
			d.attrish = true
			switch c.a {
			case sys.AttrType:
				d.typ = true
				if !validType(v) {
					d.bad = "an invalid type"
				}
			case sys.AttrUnique:
				if v != sys.AttrUniqueIdentity && v != sys.AttrUniqueValue {
					d.bad = "an invalid uniqueness"
				}
			case sys.AttrCardinality:
				if v != sys.AttrCardinalityOne && v != sys.AttrCardinalityMany {
					d.bad = "an invalid cardinality"
				}
			}
		}
	}
	for _, al := range order {
		d := drafts[al]
		if !d.attrish {
			continue
		}
		p.feats["declare"] = true
		_, named := s.names[al.e]
		switch {
		case d.bad != "":
			p.reject("declaration of an attribute with "+d.bad, "C10", "C14")
		case !d.typ:
			p.reject("declaration of an attribute without a type", "C10", "C14")
		case !d.ident && al.e != 0 && named:
			p.isOpen("declaration of an extant named entity as an attribute")
		case !d.ident:
			p.reject("declaration of an attribute without an ident", "C10", "C09")
		case d.unident:
			p.isOpen("declaration of an attribute while retracting an ident")
		case al.e != 0 && len(s.byE[al.e]) > 0:
			// Giving an extant entity a type is legal, if odd.
		}
	}
}

// planValues enforces cardinality and uniqueness among the claims.
func (p *plan) planValues(s *State) {
	type ea struct {
		al ealias
		a  ID
	}
	type av struct {
		a ID
		v string
	}
	asserted := map[ea]map[string]bool{}
	retracted := map[ea]map[string]bool{}
	for i := range p.claims {
		c := &p.claims[i]
		k := ea{p.alias(c), c.a}
		m := asserted
		if c.retract {
			m = retracted
		}
		if m[k] == nil {
			m[k] = map[string]bool{}
		}
		m[k][p.vkey(c)] = true
	}
	// Which entity has which unique value afterwards?
	owners := map[av]ealias{}
	for i := range p.claims {
		c := &p.claims[i]
		if c.retract {
			continue
		}
		al, v := p.alias(c), p.vkey(c)
		k := ea{al, c.a}
		if retracted[k][v] {
			p.isOpen("assertion and retraction of the same datum")
		}
		if al.e != 0 && p.rets[al.e] {
			p.isOpen("assertion about a retracted entity")
		}
		at := s.attrs[c.a]
		if !at.many && len(asserted[k]) > 1 {
			p.reject("several values for a cardinality one attribute", "C06")
		}
		if at.unique == 0 {
			continue
		}
		o, ok := owners[av{c.a, v}]
		if ok && o != al {
			p.reject("unique value of several entities", "C04")
		}
		owners[av{c.a, v}] = al
		e, ok := s.uniq[key{0, c.a, v}]
		if !ok || al.e == e {
			continue
		}
		if p.vacated(s, e, c.a, v) {
			p.isOpen("unique value vacated by the same request")
			continue
		}
		props := []string{"C04"}
		if c.a == sys.DbIdent {
			props = append(props, "C09")
		}
		p.reject("unique value that another entity has", props...)
	}
}

// verdictOf returns what the outcome of the request must be.
func (p *plan) verdictOf() verdict {
	switch {
	case p.hard:
		return vReject
	case p.open != "":
		return vOpen
	default:
		return p.v
	}
}

// post computes the state which must result from the plan, given the ids that were issued.
func (p *plan) post(s *State, res *types.Response) (post *State, v *Viol) {
	bad := func(class, msg string, props ...string) (*State, *Viol) {
		return nil, &Viol{Class: class, Msg: msg, Props: props}
	}
	if len(res.TempIDs) != len(p.temps) {
		return bad("model.tempids", fmt.Sprintf("the request has tempids %q but the response %v", p.temps, res.TempIDs), "C05")
	}
	ids := map[*tnode]ID{p.class[txnTemp]: res.ID}
	used := map[ID]types.TempID{res.ID: txnTemp}
	for _, t := range p.temps {
		id, ok := res.TempIDs[t]
		if !ok || id == 0 {
			return bad("model.tempids", fmt.Sprintf("tempid %q is not in the response %v", t, res.TempIDs), "C05")
		}
		n := p.class[t].find()
		switch {
		case n.entity != 0:
			if id != n.entity {
				return bad("model.tempids", fmt.Sprintf("tempid %q resolved to %d, not to the extant entity %d", t, id, n.entity), "C05", "C04")
			}
		case n.txn:
			if id != res.ID {
				return bad("model.tempids", fmt.Sprintf("tempid %q resolved to %d, not to the transaction %d", t, id, res.ID), "C05")
			}
		default:
			was, ok := ids[n]
			if ok && was != id {
				return bad("model.tempids", fmt.Sprintf("tempid %q resolved to %d, not to the new entity %d whose identity it shares", t, id, was), "C05", "C04")
			}
			if !ok {
				o, taken := used[id]
				if taken {
					return bad("model.tempids", fmt.Sprintf("tempids %q and %q both resolved to %d", t, o, id), "C05", "C07")
				}
			}
			ids[n] = id
			used[id] = t
		}
	}
	ent := func(temp types.TempID) ID {
		n := p.class[temp].find()
		if n.entity != 0 {
			return n.entity
		}
		return ids[n]
	}
	ds := map[key]Datum{}
	for _, d := range s.ds {
		ds[key{d.E, d.A, vkey(d.V)}] = d
	}
	for i := range p.claims {
		c := &p.claims[i]
		d := Datum{E: c.e, A: c.a, V: c.v, T: res.ID}
		switch {
		case c.etxn:
			d.E = res.ID
		case c.istempE:
			d.E = ent(c.etemp)
		}
		if c.istempV {
			d.V = ent(c.vtemp)
		}
		k := key{d.E, d.A, vkey(d.V)}
		if c.retract {
			delete(ds, k)
			continue
		}
		if _, ok := ds[k]; ok {
			continue
		}
		if !s.attrs[d.A].many {
			for _, o := range s.values(d.E, d.A) {
				delete(ds, key{o.E, o.A, vkey(o.V)})
			}
		}
		ds[k] = d
	}
	out := make([]Datum, 0, len(ds))
	for _, d := range ds {
		out = append(out, d)
	}
	return newState(out), nil
}

// frame checks that an accepted request whose outcome is open changed nothing else.
func (p *plan) frame(s, post *State, res *types.Response) *Viol {
	type ea struct{ e, a ID }
	ok := map[ea]bool{}
	ents := map[ID]bool{}
	for e := range p.rets {
		ents[e] = true
	}
	for i := range p.claims {
		c := &p.claims[i]
		e := c.e
		switch {
		case c.etxn:
			e = res.ID
		case c.istempE:
			e = res.TempIDs[c.etemp]
		}
		ok[ea{e, c.a}] = true
	}
	for _, d := range s.ds {
		t, has := post.ts[key{d.E, d.A, vkey(d.V)}]
		if (!has || t != d.T) && !ok[ea{d.E, d.A}] && !ents[d.E] {
			return &Viol{Class: "model.frame", Msg: "a request removed or changed a datum it does not mention: " + s.show(d), Props: []string{"C11", "C03", "C06", "C07"}}
		}
	}
	for _, d := range post.ds {
		t, has := s.ts[key{d.E, d.A, vkey(d.V)}]
		if has && t == d.T {
			continue
		}
		if !ok[ea{d.E, d.A}] {
			return &Viol{Class: "model.frame", Msg: "a request added a datum it does not mention: " + post.show(d), Props: []string{"C03", "C05", "C11"}}
		}
		if d.T != res.ID {
			return &Viol{Class: "model.provenance", Msg: fmt.Sprintf("a datum added by transaction %d is %s", res.ID, post.show(d)), Props: []string{"C07"}}
		}
	}
	return nil
}

// stateProps says which properties a wrong resulting state breaks.
func (p *plan) stateProps(s, want, got *State) []string {
	set := map[string]bool{}
	want.index()
	got.index()
	for _, d := range want.ds {
		k := key{d.E, d.A, vkey(d.V)}
		t, ok := got.ts[k]
		at := s.attrs[d.A]
		many := at != nil && at.many
		_, was := s.ts[k]
		switch {
		case ok && t != d.T:
			set["C07"] = true
		case ok:
		case was:
			// The request removed too much.
			set["C03"] = true
			if p.feats["retraction"] || p.feats["retract"] {
				set["C11"] = true
			}
			if many {
				set["C06"] = true
			}
			if !p.feats["retraction"] && !p.feats["retract"] {
				set["C06"] = true
			}
		default:
			// The request did not add what it should have.
			set["C03"] = true
			set["C14"] = true
			if many {
				set["C06"] = true
			}
			if p.feats["temp"] {
				set["C05"] = true
			}
			if p.feats["txn"] {
				set["C07"] = true
			}
			if p.feats["schema"] {
				set["C10"] = true
				set["C09"] = true
			}
		}
	}
	for _, d := range got.ds {
		k := key{d.E, d.A, vkey(d.V)}
		_, ok := want.ts[k]
		if ok {
			continue
		}
		_, was := s.ts[k]
		at := s.attrs[d.A]
		if was {
			if p.feats["retraction"] || p.feats["retract"] {
				set["C11"] = true
				set["C03"] = true
			}
			if at != nil && !at.many {
				set["C06"] = true
			}
		} else {
			set["C03"] = true
			set["C14"] = true
			if p.feats["temp"] {
				set["C05"] = true
			}
			if p.feats["retraction"] || p.feats["retract"] {
				set["C11"] = true
			}
			if d.T != 0 && p.feats["txn"] {
				set["C07"] = true
			}
		}
	}
	if p.feats["identity"] {
		set["C05"] = true
	}
	return sortedKeys(set)
}

// rejectProps says which properties a wrongful rejection breaks.
func (p *plan) rejectProps() []string {
	set := map[string]bool{"C14": true}
	for f, ids := range map[string][]string{
		"identity":   {"C05", "C04"},
		"unique":     {"C04"},
		"schema":     {"C10", "C09"},
		"declare":    {"C10"},
		"retraction": {"C11"},
		"retract":    {"C11"},
		"txn":        {"C07"},
		"temp":       {"C05"},
		"many":       {"C06"},
		"one":        {"C06"},
		"ident":      {"C09"},
	} {
		if p.feats[f] {
			for _, id := range ids {
				set[id] = true
			}
		}
	}
	return sortedKeys(set)
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	slices.Sort(keys)
	return keys
}

// judge judges the outcome of a write against the model. The states are those before and after.
func judge(s *State, req *types.Request, res *types.Response, post *State, issued map[ID]bool) (p *plan, v *Viol) {
	p = planWrite(s, req, issued)
	post.index()
	if res.Error != nil {
		if post.canon != s.canon {
			return p, &Viol{Class: "atom.rejected", Msg: "a rejected request left a trace:" + diff(s, post), Props: []string{"C03"}}
		}
		if p.verdictOf() == vAccept {
			return p, &Viol{Class: "model.reject", Msg: "a valid request was rejected: " + errCode(res.Error), Props: p.rejectProps()}
		}
		return p, nil
	}
	if v := freshness(s, res, issued, p); v != nil {
		return p, v
	}
	if v := foresight(req, res, issued); v != nil {
		return p, v
	}
	switch p.verdictOf() {
	case vReject:
		return p, &Viol{Class: "model.accept", Msg: "an invalid request was accepted: " + p.reason, Props: p.props}
	case vOpen:
		if p.v == vReject {
			return p, nil
		}
		return p, p.frame(s, post, res)
	}
	want, v := p.post(s, res)
	if v != nil {
		return p, v
	}
	if want.canon != post.canon {
		return p, &Viol{Class: "model.state", Msg: "a request had the wrong effect:" + diff(want, post), Props: p.stateProps(s, want, post)}
	}
	return p, nil
}

// foresight checks that the request was not about ids which it was only then issued.
func foresight(req *types.Request, res *types.Response, issued map[ID]bool) *Viol {
	novel := map[ID]bool{}
	if _, ok := issued[res.ID]; !ok {
		novel[res.ID] = true
	}
	for _, id := range res.TempIDs {
		if _, ok := issued[id]; !ok && id >= sys.FirstUserID {
			novel[id] = true
		}
	}
	for i := range req.Claims {
		c := &req.Claims[i]
		e, _ := c.E.(types.ID)
		v, _ := c.V.(types.ID)
		if novel[e] || novel[v] {
			return &Viol{Class: "model.accept", Msg: fmt.Sprintf("an invalid request was accepted: claim %s of an id that was not yet issued", showClaim(*c)), Props: []string{"C14", "C07"}}
		}
	}
	return nil
}

// freshness checks the ids that a response issues.
func freshness(s *State, res *types.Response, issued map[ID]bool, p *plan) *Viol {
	if res.ID < sys.FirstUserID || issued[res.ID] {
		return &Viol{Class: "model.txid", Msg: fmt.Sprintf("transaction id %d is not fresh", res.ID), Props: []string{"C07"}}
	}
	if p.v == vReject || p.open != "" {
		return nil
	}
	for _, t := range p.temps {
		n := p.class[t]
		if n == nil || n.find().entity != 0 || n.find().txn {
			continue
		}
		id := res.TempIDs[t]
		if id != 0 && (id < sys.FirstUserID || issued[id] || id == res.ID) {
			return &Viol{Class: "model.fresh", Msg: fmt.Sprintf("the id %d of tempid %q is not fresh", id, t), Props: []string{"C07", "C05"}}
		}
	}
	return nil
}

// errCode describes an error without its context.
func errCode(err error) string {
	if e, ok := err.(types.Error); ok {
		return e.Code
	}
	return fmt.Sprintf("%T", err)
}
