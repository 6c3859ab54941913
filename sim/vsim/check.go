package main

import (
	"fmt"
	"slices"
	"strings"

	zs "github.com/dball/destructive/internal/zsim/simrt"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// report adds a violation.
func (e *env) report(vs ...Viol) {
	for _, v := range vs {
		// The replay file holds the message too.
		v.Msg = strings.ToValidUTF8(v.Msg, "?")
		e.viols = append(e.viols, v)
	}
}

// all returns every record, by invocation.
func (e *env) all() (recs []*Rec) {
	recs = append(recs, e.setup...)
	for _, t := range e.tasks {
		recs = append(recs, t...)
	}
	slices.SortStableFunc(recs, func(a, b *Rec) int { return int(a.inv - b.inv) })
	return
}

// check judges the recorded run.
func (e *env) check() {
	if f := e.out.Failure; f != nil {
		props := []string{"C13"}
		switch f.Class {
		case "deadlock":
			props = append(props, "C12")
		case "livelock":
			props = append(props, "C12")
		}
		if e.c.Domain == "obj" {
			props = append(props, "C16", "C17", "C18")
		}
		e.report(Viol{Class: f.Class, Op: -1, Msg: f.Msg, Props: props})
	}
	recs := e.all()
	for _, r := range recs {
		if r.panicked != "" {
			e.report(Viol{Class: "panic." + r.op.Kind, Op: r.op.ID, Msg: "an operation panicked: " + r.panicked, Props: panicProps(r)})
		}
		e.report(r.viols...)
		for _, f := range r.kept {
			if class, msg := f(); class != "" {
				e.report(Viol{Class: class, Op: r.op.ID, Msg: msg, Props: []string{"C15"}})
			}
		}
	}
	if e.out.Failure != nil {
		return
	}
	// The states that were observed.
	interned := map[string]*State{}
	var base *State
	for _, r := range recs {
		if r.dump == nil {
			if r.snap != nil && e.dumps && r.panicked == "" {
				e.report(Viol{Class: "snap.empty", Op: r.op.ID, Msg: "a snapshot is empty", Props: []string{"C01", "C02", "C08"}})
				return
			}
			continue
		}
		s := newState(r.dump)
		if interned[s.canon] == nil {
			interned[s.canon] = s
			s.index()
			for _, v := range invariants(r.dump, s, base) {
				v.Op = r.op.ID
				e.report(v)
			}
		}
		r.state = interned[s.canon]
		if base == nil {
			base = r.state
			e.base = base
		}
	}
	e.stats.States = len(interned)
	broken := len(e.viols) > 0
	for _, r := range recs {
		e.stats.Ops++
		switch r.op.Kind {
		case "write", "objwrite":
			switch {
			case r.panicked != "":
			case r.err != nil:
				e.stats.Rejected++
			default:
				e.stats.Accepted++
			}
			if r.panicked == "" && r.snap == nil && e.dumps {
				e.report(Viol{Class: "atom.nosnap", Op: r.op.ID, Msg: "a response has no snapshot", Props: []string{"C03", "C12"}})
				broken = true
			}
		case "query":
			e.stats.Queries++
		}
	}
	e.checkQueries(recs)
	e.stability(recs)
	e.probe()
	if broken {
		return
	}
	if e.obj != nil {
		e.checkObj(recs)
		return
	}
	e.linearize(recs)
	e.provenance(recs)
}

func panicProps(r *Rec) []string {
	props := []string{"C12"}
	switch r.op.Kind {
	case "query":
		props = append(props, "C08")
		if r.op.Mode == "idents" {
			props = append(props, "C09")
		}
	case "write":
		props = append(props, "C14", "C03")
		for _, c := range r.req.Claims {
			switch c.E.(type) {
			case types.TempID, types.LookupRef:
				props = append(props, "C05")
			}
			if c.Retract {
				props = append(props, "C11")
			}
		}
		if len(r.req.Retractions) > 0 {
			props = append(props, "C11")
		}
	case "objwrite":
		props = append(props, "C16", "C17")
	case "objfind":
		props = append(props, "C16", "C18")
	}
	slices.Sort(props)
	return slices.Compact(props)
}

// provenance checks that every transaction id is that of an accepted request.
func (e *env) provenance(recs []*Rec) {
	txs := map[ID]bool{sys.Tx: true}
	for _, r := range recs {
		if r.op.Kind == "write" && r.err == nil && r.panicked == "" {
			if txs[r.res.ID] {
				e.report(Viol{Class: "model.txid", Op: r.op.ID, Msg: fmt.Sprintf("transaction id %d was issued twice", r.res.ID), Props: []string{"C07"}})
			}
			txs[r.res.ID] = true
		}
	}
	near := func(t ID) bool {
		// A request with a schema has another transaction, which was judged with the request.
		for _, r := range recs {
			if r.op.Kind == "write" && r.err == nil && r.panicked == "" && len(r.req.Schema) > 0 && slices.Contains(doubtIDs(r), t) {
				return true
			}
		}
		return false
	}
	for _, r := range recs {
		if r.state == nil {
			continue
		}
		for _, d := range r.state.ds {
			if !txs[d.T] && near(d.T) {
				txs[d.T] = true
			}
			if !txs[d.T] {
				e.report(Viol{Class: "inv.tx", Op: r.op.ID, Msg: "no accepted request has the transaction id of " + r.state.show(d), Props: []string{"C07", "C03"}})
				return
			}
		}
	}
}

// stability checks that no snapshot has changed.
func (e *env) stability(recs []*Rec) {
	for _, r := range recs {
		if r.dump == nil {
			continue
		}
		var again []Datum
		tmp := &Rec{}
		guard(tmp, func() { again = dumpAll(r.snap) })
		if tmp.panicked != "" {
			e.report(Viol{Class: "panic.later", Op: r.op.ID, Msg: "reading a snapshot later panicked: " + tmp.panicked, Props: []string{"C01", "C12", "C08"}})
			return
		}
		if !sameDatums(r.dump, again) {
			a, b := newState(r.dump), newState(again)
			e.report(Viol{Class: "snap.changed", Op: r.op.ID, Msg: "a snapshot changed:" + diff(a, b), Props: snapProps(r)})
			return
		}
		guard(tmp, func() {
			vs := e.checkIdents(r, r.op.ID)
			for i := range vs {
				// These may have been right when the snapshot was acquired.
				vs[i].Props = append(vs[i].Props, "C01")
			}
			e.report(vs...)
		})
		if tmp.panicked != "" {
			e.report(Viol{Class: "panic.idents", Op: r.op.ID, Msg: "resolving idents panicked: " + tmp.panicked, Props: []string{"C09", "C12"}})
		}
	}
}

func snapProps(r *Rec) []string {
	if r.obj != nil {
		return []string{"C01", "C18"}
	}
	return []string{"C01"}
}

// probe checks that the database still works after the run, i.e. that no lock is held.
func (e *env) probe() {
	tmp := &Rec{}
	guard(tmp, func() {
		e.readAny()
		if e.obj != nil {
			e.obj.probe()
		} else {
			e.db.Write(types.Request{})
		}
		e.readAny()
	})
	if tmp.panicked != "" {
		class, props := "panic.probe", []string{"C12", "C13"}
		if strings.Contains(tmp.panicked, "lock is held") {
			class, props = "lockleak", []string{"C13"}
		}
		e.report(Viol{Class: class, Op: -1, Msg: "the database does not work after the run: " + tmp.panicked, Props: props})
	}
}

// expect computes the datums of the state that match the claim.
func expect(s *State, claim types.Claim) (ds []Datum, ordered bool) {
	s.index()
	var m Datum
	ok := true
	switch x := claim.E.(type) {
	case nil:
	case types.ID:
		m.E = x
	case types.Ident:
		m.E, ok = s.idents[string(x)]
	case types.LookupRef:
		m.E, ok = s.lookup(x)
	default:
		return
	}
	if !ok {
		return
	}
	switch x := claim.A.(type) {
	case nil:
	case types.ID:
		m.A = x
	case types.Ident:
		m.A, ok = s.idents[string(x)]
	case types.LookupRef:
		m.A, ok = s.lookup(x)
	default:
		return
	}
	if !ok {
		return
	}
	switch x := claim.V.(type) {
	case nil:
	case types.Ident:
		m.V, ok = s.idents[string(x)]
	case types.LookupRef:
		m.V, ok = s.lookup(x)
	case types.Value:
		m.V = x
	default:
		return
	}
	if !ok {
		return
	}
	for _, d := range s.ds {
		if (m.E == 0 || d.E == m.E) && (m.A == 0 || d.A == m.A) && (m.V == nil || vkey(d.V) == vkey(m.V)) {
			ds = append(ds, d)
		}
	}
	// Full scans and those of an entity are in (E, A) order.
	ordered = m.A == 0
	return
}

func showClaim(c types.Claim) string {
	text := func(x any) string {
		s := fmt.Sprint(x)
		if len(s) > 100 {
			s = s[:100] + "..."
		}
		return strings.ToValidUTF8(s, "?")
	}
	return fmt.Sprintf("[%s %s %s]", text(c.E), text(c.A), text(c.V))
}

// checkSelect judges the datums that a query yielded.
func checkSelect(s *State, claim types.Claim, got []Datum, partial bool) *Viol {
	want, ordered := expect(s, claim)
	left := map[key]ID{}
	for _, d := range want {
		left[key{d.E, d.A, vkey(d.V)}] = d.T
	}
	for i, d := range got {
		k := key{d.E, d.A, vkey(d.V)}
		t, ok := left[k]
		if !ok {
			return &Viol{Class: "query.select", Msg: fmt.Sprintf("query %s yielded %s which does not match or was yielded already", showClaim(claim), s.show(d))}
		}
		if t != d.T {
			return &Viol{Class: "query.select", Msg: fmt.Sprintf("query %s yielded %s with the wrong transaction", showClaim(claim), s.show(d)), Props: []string{"C07"}}
		}
		delete(left, k)
		if ordered && i > 0 {
			p := got[i-1]
			if p.E > d.E || (p.E == d.E && p.A > d.A) {
				return &Viol{Class: "query.order", Msg: fmt.Sprintf("query %s yielded %s before %s", showClaim(claim), s.show(p), s.show(d))}
			}
		}
	}
	if !partial && len(left) > 0 {
		for _, d := range want {
			if _, ok := left[key{d.E, d.A, vkey(d.V)}]; ok {
				return &Viol{Class: "query.select", Msg: fmt.Sprintf("query %s did not yield %s", showClaim(claim), s.show(d))}
			}
		}
	}
	return nil
}

// checkQueries judges the queries that the tasks made and some probes besides.
func (e *env) checkQueries(recs []*Rec) {
	add := func(r *Rec, v *Viol) {
		if v == nil {
			return
		}
		v.Op = r.op.ID
		v.Props = append(v.Props, "C08")
		if r.from != nil && r.panicked == "" {
			// Was the answer only wrong at the time?
			tmp := &Rec{}
			var again []Datum
			guard(tmp, func() {
				for d := range r.from.snap.Select(r.claim) {
					again = append(again, d)
				}
			})
			full := r.claim.E == nil && r.claim.A == nil && r.claim.V == nil
			if full || (tmp.panicked == "" && checkSelect(r.from.state, r.claim, again, false) == nil && r.op.Mode != "count" && r.op.Mode != "has") {
				v.Props = append(v.Props, "C01", "C12")
			}
		}
		e.report(*v)
	}
	for _, r := range recs {
		if r.op.Kind != "query" || r.from == nil || r.from.state == nil || r.panicked != "" {
			continue
		}
		s := r.from.state
		switch {
		case r.isCount:
			want, _ := expect(s, r.claim)
			if r.count != len(want) {
				add(r, &Viol{Class: "query.count", Msg: fmt.Sprintf("count of %s is %d, not %d", showClaim(r.claim), r.count, len(want))})
			}
		case r.isHas:
			want, _ := expect(s, r.claim)
			if r.found != (len(want) > 0) {
				add(r, &Viol{Class: "query.has", Msg: fmt.Sprintf("has %s is %t, not %t", showClaim(r.claim), r.found, len(want) > 0)})
			}
		case r.isIdent:
		default:
			add(r, checkSelect(s, r.claim, r.got, r.partial))
		}
	}
	if e.c.NProbes == 0 {
		return
	}
	rng := zs.NewRng(e.c.Probes)
	seen := map[*State]bool{}
	for _, r := range recs {
		if r.state == nil || r.snap == nil || seen[r.state] {
			continue
		}
		seen[r.state] = true
		for range e.c.NProbes {
			claim := probeClaim(rng, r.state)
			e.stats.Probes++
			tmp := &Rec{op: r.op}
			guard(tmp, func() {
				var got []Datum
				for d := range r.snap.Select(claim) {
					got = append(got, d)
				}
				v := checkSelect(r.state, claim, got, false)
				want, _ := expect(r.state, claim)
				if n := r.snap.Count(claim); v == nil && n != len(want) {
					v = &Viol{Class: "query.count", Msg: fmt.Sprintf("count of %s is %d, not %d", showClaim(claim), n, len(want))}
				}
				if has := r.snap.Has(claim); v == nil && has != (len(want) > 0) {
					v = &Viol{Class: "query.has", Msg: fmt.Sprintf("has %s is %t, not %t", showClaim(claim), has, len(want) > 0)}
				}
				add(r, v)
			})
			if tmp.panicked != "" {
				e.report(Viol{Class: "panic.query", Op: r.op.ID, Msg: fmt.Sprintf("query %s panicked: %s", showClaim(claim), tmp.panicked), Props: []string{"C08", "C12"}})
			}
			if len(e.viols) > 0 {
				return
			}
		}
	}
}

// probeClaim makes a query that is likely to match something in the state.
func probeClaim(rng *zs.Rng, s *State) (claim types.Claim) {
	s.index()
	d := s.ds[rng.Intn(len(s.ds))]
	if rng.P(2, 3) {
		// Prefer the users' datums, which are last.
		d = s.ds[len(s.ds)-1-rng.Intn((len(s.ds)+1)/2)]
	}
	o := s.ds[rng.Intn(len(s.ds))]
	pick := func() Datum {
		if rng.P(1, 6) {
			return o
		}
		return d
	}
	shape := rng.Intn(8)
	lookup := func(id ID) (ref types.LookupRef, ok bool) {
		for _, x := range s.byE[id] {
			if at := s.attrs[x.A]; at != nil && at.unique != 0 && (x.A != sys.DbIdent || rng.P(1, 3)) {
				ref = types.LookupRef{A: x.A, V: x.V}
				if rng.P(1, 2) && at.ident != "" {
					ref.A = types.Ident(at.ident)
				}
				return ref, true
			}
		}
		return
	}
	if shape&1 != 0 {
		id := pick().E
		claim.E = id
		switch rng.Intn(4) {
		case 0:
			if n := s.names[id]; n != "" {
				claim.E = types.Ident(n)
			}
		case 1:
			if l, ok := lookup(id); ok {
				claim.E = l
			}
		}
	}
	if shape&2 != 0 {
		id := pick().A
		claim.A = id
		if at := s.attrs[id]; at != nil && rng.P(1, 2) && at.ident != "" {
			claim.A = types.Ident(at.ident)
		}
	}
	if shape&4 != 0 {
		v := pick().V
		claim.V, _ = v.(types.VRef)
		if id, ok := v.(types.ID); ok {
			switch rng.Intn(4) {
			case 0:
				if n := s.names[id]; n != "" {
					claim.V = types.Ident(n)
				}
			case 1:
				if l, ok := lookup(id); ok {
					claim.V = l
				}
			}
		}
	}
	if rng.P(1, 12) {
		// Look something up which need not be there, or make sense.
		l := types.LookupRef{A: d.A}
		l.V, _ = o.V.(types.Value)
		for range rng.Intn(8) {
			// Prefer attributes that are unique.
			if at := s.attrs[l.A.(ID)]; at != nil && at.unique != 0 {
				break
			}
			l.A = s.ds[rng.Intn(len(s.ds))].A
		}
		switch rng.Intn(4) {
		case 0:
			claim.A = l
		case 1:
			claim.V = l
		default:
			claim.E = l
		}
	}
	return
}

// linearize finds an order of the operations which explains them, and judges each in turn.
func (e *env) linearize(recs []*Rec) {
	var hist []*Rec
	for _, r := range recs {
		if (isRead(r) || isWrite(r)) && r.state != nil {
			hist = append(hist, r)
		}
	}
	issued := map[ID]bool{}
	issue := func(r *Rec) {
		if isWrite(r) && r.err == nil {
			for _, id := range doubtIDs(r) {
				issued[id] = issued[id]
			}
			for _, id := range newIDs(r) {
				issued[id] = true
			}
		}
	}
	// The setup, and everything before the first overlap, is in order.
	var s *State
	i := 0
	for ; i < len(hist); i++ {
		r := hist[i]
		if i+1 < len(hist) && hist[i+1].inv < r.ret {
			break
		}
		if v := e.step(s, r, issued); v != nil {
			v.Op = r.op.ID
			e.report(*v)
			return
		}
		s = r.state
		issue(r)
	}
	rest := hist[i:]
	if len(rest) == 0 {
		return
	}
	// The rest is concurrent.
	if s == nil {
		s = rest[0].state
	}
	committed := map[string]bool{s.canon: true}
	for _, r := range rest {
		if isWrite(r) && r.err == nil {
			committed[r.state.canon] = true
		}
	}
	for _, r := range rest {
		if !committed[r.state.canon] {
			props := []string{"C02", "C03"}
			if r.obj != nil {
				props = append(props, "C17")
			}
			e.report(Viol{Class: "lin.torn", Op: r.op.ID, Msg: "an operation observed a state which no request left:" + diff(nearest(r.state, rest, s), r.state), Props: props})
			return
		}
	}
	l := &linearizer{e: e, recs: rest, dead: map[string]bool{}, issued: issued}
	if l.search(0, s, true) {
		return
	}
	// Is there an order which explains the states, if not what the requests did?
	judged := l.worst
	l2 := &linearizer{e: e, recs: rest, dead: map[string]bool{}, issued: issued, loose: true}
	if l2.search(0, s, true) && judged != nil {
		judged.Class = "conc." + judged.Class
		e.report(*judged)
		e.order = l2.order
		return
	}
	msg := "no order of the operations explains what they observed"
	if judged != nil {
		msg += "; at best, " + judged.Msg
	}
	props := []string{"C02"}
	if e.obj != nil {
		props = append(props, "C17")
	}
	e.report(Viol{Class: "lin.order", Op: rest[0].op.ID, Msg: msg, Props: props})
}

func nearest(s *State, recs []*Rec, first *State) (best *State) {
	best = first
	n := 1 << 30
	for _, r := range recs {
		if isWrite(r) && r.err == nil && r.state != s {
			d := len(diff(r.state, s))
			if d < n {
				n = d
				best = r.state
			}
		}
	}
	return
}

// step judges one operation given the state before it.
func (e *env) step(s *State, r *Rec, issued map[ID]bool) *Viol {
	if s == nil {
		return nil
	}
	if isRead(r) {
		if r.state != s {
			return &Viol{Class: "seq.read", Msg: "a read did not observe the preceding state:" + diff(s, r.state), Props: []string{"C02", "C03"}}
		}
		return nil
	}
	if r.obj != nil {
		open, upsert, v := judgeObj(s, r, r.state, issued)
		if open {
			e.stats.Open++
		}
		if upsert {
			e.stats.Upserts++
		}
		return v
	}
	if r.err != nil && (r.res.ID != 0 || len(r.res.TempIDs) != 0) {
		return &Viol{Class: "atom.response", Msg: fmt.Sprintf("a rejected request has ids: %d %v", r.res.ID, r.res.TempIDs), Props: []string{"C03"}}
	}
	if len(r.req.Schema) > 0 {
		open, v := judgeSchema(s, &r.req, &r.res, r.state, issued)
		if open {
			e.stats.Open++
		}
		return v
	}
	p, v := judge(s, &r.req, &r.res, r.state, issued)
	if v == nil {
		if p.open != "" {
			e.stats.Open++
		}
		if r.err == nil && p.feats["identity"] && p.feats["temp"] {
			e.stats.Upserts++
		}
	}
	return v
}

type linearizer struct {
	e      *env
	recs   []*Rec
	dead   map[string]bool
	issued map[ID]bool
	loose  bool
	worst  *Viol
	depth  int
	order  []*Rec
	nodes  int
}

func (l *linearizer) search(doneMask uint64, s *State, _ bool) bool {
	if doneMask == uint64(1)<<len(l.recs)-1 {
		return true
	}
	k := fmt.Sprint(doneMask, " ", s.canon)
	if l.dead[k] {
		return false
	}
	l.nodes++
	if l.nodes > 200000 {
		panic("vsim: the history is too long to linearize")
	}
	// An operation may be next unless another that is not done returned before it was invoked.
	least := int64(1) << 62
	for i, r := range l.recs {
		if doneMask>>i&1 == 0 && r.ret < least {
			least = r.ret
		}
	}
	for i, r := range l.recs {
		if doneMask>>i&1 != 0 || r.inv > least {
			continue
		}
		write := isWrite(r)
		if !write || r.err != nil {
			if r.state != s {
				continue
			}
		}
		if write {
			var v *Viol
			if l.loose {
				if r.err == nil && !derives(s, r) {
					continue
				}
			} else {
				v = l.e.step(s, r, l.issued)
			}
			if v != nil {
				if len(l.order) >= l.depth {
					l.depth = len(l.order)
					v.Op = r.op.ID
					l.worst = v
				}
				continue
			}
		}
		var fresh, doubts []ID
		if write && r.err == nil {
			for _, id := range doubtIDs(r) {
				if _, ok := l.issued[id]; !ok {
					l.issued[id] = false
					doubts = append(doubts, id)
				}
			}
			for _, id := range newIDs(r) {
				if is, ok := l.issued[id]; !is {
					l.issued[id] = true
					if ok {
						doubts = append(doubts, id)
					} else {
						fresh = append(fresh, id)
					}
				}
			}
		}
		l.order = append(l.order, r)
		if l.search(doneMask|uint64(1)<<i, r.state, true) {
			return true
		}
		l.order = l.order[:len(l.order)-1]
		for _, id := range slices.Backward(doubts) {
			if l.issued[id] {
				l.issued[id] = false
			} else {
				delete(l.issued, id)
			}
		}
		for _, id := range fresh {
			delete(l.issued, id)
		}
	}
	l.dead[k] = true
	return false
}

func isRead(r *Rec) bool { return r.op.Kind == "read" || r.op.Kind == "objread" }

func isWrite(r *Rec) bool { return r.op.Kind == "write" || r.op.Kind == "objwrite" }

// newIDs returns the ids that a write may have issued.
func newIDs(r *Rec) (ids []ID) {
	if r.obj != nil || len(r.req.Schema) > 0 {
		r.state.knows(0)
		for _, id := range sortedIDs(r.state.ids) {
			if id >= sys.FirstUserID {
				ids = append(ids, id)
			}
		}
	}
	if r.obj != nil {
		for i, id := range r.obj.ids {
			// Those that the request gave were not issued by it, if ever.
			if i >= len(r.obj.m.tops) || r.obj.m.tops[i] != types.ID(id) {
				ids = append(ids, ID(id))
			}
		}
		return
	}
	ids = append(ids, r.res.ID)
	for _, t := range sortedTemps(r.res.TempIDs) {
		ids = append(ids, r.res.TempIDs[t])
	}
	return
}

// doubtIDs returns the ids that a write may have issued to tempids which turned out to be others,
// and so to nothing. They are in the map of issued ids, but not issued.
func doubtIDs(r *Rec) (ids []ID) {
	if r.obj != nil {
		return
	}
	temps := tempsOf(r.req.Claims)
	if len(r.req.Schema) > 0 {
		n := ID(len(temps) + len(tempsOf(r.req.Schema)) + 1)
		for id := r.res.ID - min(n, r.res.ID); id <= r.res.ID+n; id++ {
			ids = append(ids, id)
		}
		return
	}
	first, used := r.res.ID, map[ID]bool{}
	for _, id := range r.res.TempIDs {
		used[id] = true
	}
	for id := range used {
		// Those which the request gave, or which it found, are not next to the transaction's.
		if id < first && first-id <= ID(len(temps)) {
			first = id
		}
	}
	for id := first; id <= r.res.ID+ID(len(temps)); id++ {
		ids = append(ids, id)
	}
	return
}

func tempsOf(claims []types.Claim) map[types.TempID]bool {
	temps := map[types.TempID]bool{}
	for i := range claims {
		if t, ok := claims[i].E.(types.TempID); ok {
			temps[t] = true
		}
		if t, ok := claims[i].V.(types.TempID); ok {
			temps[t] = true
		}
	}
	return temps
}

// derives says whether the state after a write could derive from a state before it, judging
// by the entities and attributes the write mentions.
func derives(s *State, r *Rec) bool {
	s.index()
	if r.obj != nil || len(r.req.Schema) > 0 {
		for _, d := range r.state.ds {
			if t, ok := s.ts[key{d.E, d.A, vkey(d.V)}]; (!ok || t != d.T) && s.knows(d.T) {
				return false
			}
		}
		return true
	}
	type ea struct{ e, a ID }
	touched := map[ea]bool{}
	ents := map[ID]bool{}
	p := planWrite(s, &r.req, map[ID]bool{})
	for i := range p.claims {
		c := &p.claims[i]
		id := c.e
		switch {
		case c.etxn:
			id = r.res.ID
		case c.istempE:
			id = r.res.TempIDs[c.etemp]
		}
		touched[ea{id, c.a}] = true
	}
	for id := range p.rets {
		ents[id] = true
	}
	for _, d := range s.ds {
		if t, ok := r.state.ts[key{d.E, d.A, vkey(d.V)}]; (!ok || t != d.T) && !ents[d.E] && !touched[ea{d.E, d.A}] {
			return false
		}
	}
	for _, d := range r.state.ds {
		if t, ok := s.ts[key{d.E, d.A, vkey(d.V)}]; (!ok || t != d.T) && d.T != r.res.ID {
			return false
		}
	}
	return true
}
