package main

import (
	"fmt"
	"reflect"
	"slices"
	"strings"
	"time"
	"unsafe"

	zs "github.com/dball/destructive/internal/zsim/simrt"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
	pub "github.com/dball/destructive/pkg/database"
)

// The struct domain runs the public database.

type objEnv struct {
	db     pub.Database
	shared map[int]reflect.Value
	defs   map[int]*Obj
}

// objView is a view of a type that is held for later.
type objView struct {
	typ  string
	find func(id uint64) reflect.Value
}

// objRec is the part of a record that concerns structs.
type objRec struct {
	rec    *Rec
	psnap  *pub.Snapshot
	ids    []uint64
	m      *shredded
	copies []any // of the assertions
	view   *objView
	state  *State
	// finds
	typ   *objType
	id    uint64
	nils  bool
	shown string
	fresh bool // whether every entity of the request is new
}

func (o *objEnv) probe() {
	o.db.Write(pub.Request{})
}

func (e *env) openObj(degree, attrs, idents int) {
	e.obj = &objEnv{
		db:     pub.NewDatabase(pub.Config{Degree: degree, AttrsSize: attrs, IdentsSize: idents}),
		shared: map[int]reflect.Value{},
		defs:   map[int]*Obj{},
	}
	var ps []int
	eachOp(e.c, func(o *Op) {
		for _, objs := range [][]*Obj{o.Objs, o.Dels} {
			for _, x := range objs {
				eachObj(x, func(x *Obj) {
					if d := e.obj.defs[x.P]; x.P >= sharedP && (d == nil || (len(d.F) == 0 && len(x.F) > 0 && d.T == x.T)) {
						if d == nil {
							ps = append(ps, x.P)
						}
						e.obj.defs[x.P] = x
					}
				})
			}
		}
	})
	b := &builder{e: e, ptrs: map[int]reflect.Value{}}
	for _, p := range ps {
		d := e.obj.defs[p]
		e.obj.shared[p] = b.pointer(objTypes[d.T].typ, d)
	}
}

var rawType = reflect.TypeFor[types.Snapshot]()

// rawSnapshot finds the snapshot of datums within a public one.
func rawSnapshot(s *pub.Snapshot) types.Snapshot {
	if s == nil {
		return nil
	}
	raw := findRaw(reflect.ValueOf(s).Elem(), 0)
	if raw == nil {
		panic("vsim: there is no datum snapshot within a snapshot")
	}
	return raw
}

func findRaw(v reflect.Value, depth int) types.Snapshot {
	if v.CanAddr() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	if v.Type().Implements(rawType) && v.CanInterface() {
		switch v.Kind() {
		case reflect.Interface, reflect.Pointer:
			if v.IsNil() {
				return nil
			}
		}
		return v.Interface().(types.Snapshot)
	}
	if depth > 3 {
		return nil
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			return findRaw(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if raw := findRaw(v.Field(i), depth+1); raw != nil {
				return raw
			}
		}
	}
	return nil
}

type objSentinel struct{ n int }

func (e *env) runObj(rec *Rec, op *Op, own *[]*Rec) {
	rec.obj = &objRec{rec: rec}
	switch op.Kind {
	case "objread":
		rec.inv = e.tick()
		was := zs.SetPhase(zs.PhaseDB)
		guard(rec, func() { rec.obj.psnap = e.obj.db.Read() })
		zs.SetPhase(was)
		rec.ret = e.tick()
		e.acquireObj(rec, op)
	case "objwrite":
		e.writeObj(rec, op)
	case "objfind":
		e.findObj(rec, op, *own)
	}
}

// acquireObj records a public snapshot.
func (e *env) acquireObj(rec *Rec, op *Op) {
	if rec.panicked != "" || rec.obj.psnap == nil {
		return
	}
	e.acquire(rec, rawSnapshot(rec.obj.psnap))
	if t := objTypes[op.Type]; t != nil {
		guard(rec, func() {
			find, err := t.view(rec.obj.psnap)
			if err == nil {
				rec.obj.view = &objView{t.name, find}
			}
		})
	}
}

func (e *env) writeObj(rec *Rec, op *Op) {
	o := rec.obj
	b := &builder{e: e, ptrs: map[int]reflect.Value{}, shared: true}
	build := func(b *builder, objs []*Obj, spare int) []any {
		xs := make([]any, 0, len(objs)+spare)
		for _, x := range objs {
			xs = append(xs, b.arg(x))
		}
		for i := len(xs); i < cap(xs); i++ {
			xs[:cap(xs)][i] = objSentinel{i}
		}
		return xs
	}
	req := pub.Request{Assertions: build(b, op.Objs, op.Spare), Retractions: build(b, op.Dels, op.Spare)}
	var dels []any
	if !zs.Race {
		m := &builder{e: e, ptrs: map[int]reflect.Value{}}
		o.copies = build(m, op.Objs, 0)
		dels = build(m, op.Dels, 0)
	}
	rec.inv = e.tick()
	var res pub.Response
	was := zs.SetPhase(zs.PhaseDB)
	guard(rec, func() { res = e.obj.db.Write(req) })
	zs.SetPhase(was)
	rec.ret = e.tick()
	if !zs.Race {
		o.m = shred(o.copies, dels)
	}
	if rec.panicked != "" {
		return
	}
	rec.err = res.Error
	o.psnap = res.Snap
	o.ids = slices.Clone(res.IDs)
	e.acquireObj(rec, op)
	if !zs.Race && !op.Mutate {
		rec.keep(func() (string, string) {
			if !slices.Equal(res.IDs, o.ids) {
				return "alias.response", fmt.Sprintf("the ids of a response became %v, but they were %v", res.IDs, o.ids)
			}
			return "", ""
		})
	}
	if !zs.Race {
		for _, x := range []struct {
			what string
			a, b []any
		}{{"assertion", o.copies, req.Assertions}, {"retraction", dels, req.Retractions}} {
			if msg := changedArgs(x.a, x.b); msg != "" {
				rec.viols = append(rec.viols, Viol{Class: "alias.request", Op: op.ID, Msg: "a write changed its " + x.what + msg, Props: []string{"C15"}})
			}
		}
	}
	if res.Error == nil {
		for i, x := range op.Objs {
			if x.Slot != "" && i < len(res.IDs) && res.IDs[i] != 0 {
				e.setSlot(x.Slot, ID(res.IDs[i]))
			}
		}
	}
	if op.Mutate {
		e.fault("mutate")
		s := &scribbler{keep: map[uintptr]bool{}, seen: map[uintptr]bool{}}
		for _, v := range e.obj.shared {
			s.keep[v.Pointer()] = true
		}
		for _, xs := range [][]any{req.Assertions, req.Retractions} {
			for i := range xs {
				if t := reflect.TypeOf(xs[i]); t != nil && t.Kind() == reflect.Pointer {
					s.value(reflect.ValueOf(xs[i]))
				} else if t != nil && t.Kind() == reflect.Struct {
					s.value(reflect.ValueOf(xs[i]))
				}
				xs[i] = objSentinel{77}
			}
		}
		ids := res.IDs[:cap(res.IDs)]
		for i := range ids {
			ids[i] = 7777
		}
	}
}

// changedArgs compares the arguments of a request to what they were.
func changedArgs(was, are []any) string {
	c := newComparer(true)
	for i, x := range are[:cap(are)] {
		if i >= len(are) {
			if x != any(objSentinel{i}) {
				return "s beyond their length"
			}
			continue
		}
		a, b := reflect.ValueOf(was[i]), reflect.ValueOf(x)
		if a.IsValid() && (a.Kind() == reflect.Func || objByType[deref(a.Type())] == nil) {
			continue
		}
		if msg := c.diff(a, b, nil); msg != "" {
			return fmt.Sprintf(" %d: %s", i, msg)
		}
	}
	return ""
}

func deref(t reflect.Type) reflect.Type {
	if t.Kind() == reflect.Pointer {
		return t.Elem()
	}
	return t
}

// pickObj picks one of the public snapshots at hand.
func (e *env) pickObj(from int, own []*Rec) *Rec {
	var pickable []*Rec
	for _, rs := range [][]*Rec{own, e.setup} {
		for i := len(rs) - 1; i >= 0; i-- {
			if rs[i].obj != nil && rs[i].obj.psnap != nil {
				pickable = append(pickable, rs[i])
			}
		}
	}
	if len(pickable) == 0 {
		return nil
	}
	return pickable[from%len(pickable)]
}

func (e *env) findObj(rec *Rec, op *Op, own []*Rec) {
	o := rec.obj
	src := e.pickObj(op.From, own)
	if src == nil {
		return
	}
	rec.from = src
	o.typ = objTypes[op.Type]
	b := &builder{e: e}
	o.id = b.id(op.Slot)
	rec.inv = e.tick()
	defer func() { rec.ret = e.tick() }()
	was := zs.SetPhase(zs.PhaseQuery)
	defer zs.SetPhase(was)
	var err error
	var find func(uint64) reflect.Value
	guard(rec, func() {
		if v := src.obj.view; op.Mode == "held" && v != nil && v.typ == op.Type {
			find = v.find
			return
		}
		find, err = o.typ.view(src.obj.psnap)
	})
	if rec.panicked != "" {
		return
	}
	switch {
	case err != nil && o.typ.bad == "":
		rec.viols = append(rec.viols, Viol{Class: "view.refused", Op: op.ID, Msg: "a view of " + op.Type + " was refused: " + err.Error(), Props: []string{"C16", "C18"}})
		return
	case err != nil:
		return
	}
	n := 1
	if op.Mode == "twice" {
		n = 2
	}
	for range n {
		var got reflect.Value
		guard(rec, func() { got = find(o.id) })
		if rec.panicked != "" {
			return
		}
		o.nils = !got.IsValid()
		if !zs.Race && rec.from.dump != nil {
			zs.Quiet(func() {
				o.shown = show1(got)
				if v := judgeFind(src.obj.stateOf(), o.typ, ID(o.id), got); v != nil {
					v.Op = op.ID
					rec.viols = append(rec.viols, *v)
				}
			})
		}
		if op.Mutate && got.IsValid() {
			e.fault("scribble")
			s := &scribbler{keep: map[uintptr]bool{}, seen: map[uintptr]bool{}}
			s.value(got)
		} else if !zs.Race && got.IsValid() {
			was := show1(got)
			rec.keep(func() (string, string) {
				if is := show1(got); is != was {
					return "alias.found", fmt.Sprintf("what was found became %s, but it was %s", is, was)
				}
				return "", ""
			})
		}
	}
}

func show1(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	return showObj(v.Interface())
}

func (o *objRec) stateOf() *State {
	if o.state == nil {
		o.state = newState(o.rec.dump)
		o.state.index()
	}
	return o.state
}

// judgeFind judges what was found against the datums.
func judgeFind(s *State, t *objType, id ID, got reflect.Value) (v *Viol) {
	f := &finder{s: s, seen: map[findKey]bool{}, types: map[ID]reflect.Type{}}
	return f.judge(t, id, got)
}

func (f *finder) judge(t *objType, id ID, got reflect.Value) *Viol {
	s := f.s
	s.index()
	bad := func(msg string) *Viol {
		return &Viol{Class: "find.wrong", Msg: fmt.Sprintf("finding %s %d %s; found %s", t.name, id, msg, show1(got)), Props: []string{"C16", "C18"}}
	}
	if len(s.byE[id]) == 0 {
		if got.IsValid() {
			return bad("found something that does not exist")
		}
		return nil
	}
	if t.bad == "" {
		f.explore(t.typ, id)
	}
	if f.wild != "" || t.bad != "" {
		return nil
	}
	if !got.IsValid() {
		return bad("found nothing though it has datums")
	}
	f.seenAt = map[findAt]bool{}
	f.ptrs = map[ID]uintptr{}
	f.byValue = map[ID]bool{id: true}
	if msg := f.match(t.typ, id, got.Elem()); msg != "" {
		return bad(msg)
	}
	for _, id := range f.split {
		if !f.byValue[id] {
			return bad(fmt.Sprintf("has several copies of the entity %d, which is shared", id))
		}
	}
	return nil
}

type findKey struct {
	t  reflect.Type
	id ID
}

type findAt struct {
	findKey
	at uintptr
}

type finder struct {
	s       *State
	seen    map[findKey]bool
	types   map[ID]reflect.Type
	wild    string
	seenAt  map[findAt]bool
	ptrs    map[ID]uintptr
	byValue map[ID]bool
	split   []ID
}

func (f *finder) odd(format string, args ...any) {
	if f.wild == "" {
		f.wild = fmt.Sprintf(format, args...)
	}
}

// values returns the values of the entity's attribute of the ident.
func (f *finder) values(id ID, ident string) (vs []types.Value, at *attr) {
	a, ok := f.s.idents[ident]
	if !ok {
		return
	}
	at = f.s.attrs[a]
	if at == nil {
		return
	}
	for _, d := range f.s.values(id, a) {
		vs = append(vs, d.V)
	}
	return
}

// explore works out whether what is found is well defined.
func (f *finder) explore(t reflect.Type, id ID) {
	if was, ok := f.types[id]; ok && was != t {
		f.odd("entity %d is of several types", id)
		return
	}
	f.types[id] = t
	if f.seen[findKey{t, id}] || f.wild != "" {
		return
	}
	f.seen[findKey{t, id}] = true
	if len(f.s.byE[id]) == 0 {
		f.odd("dangling reference to %d", id)
		return
	}
	ot := objByType[t]
	bound := map[string]bool{}
	for i := range ot.fields {
		fd := &ot.fields[i]
		if fd.isID {
			continue
		}
		if bound[fd.ident] {
			f.odd("attribute %s has several fields", fd.ident)
			return
		}
		bound[fd.ident] = true
		vs, at := f.values(id, fd.ident)
		if len(vs) == 0 {
			continue
		}
		elem := fd.typ
		if elem.Kind() == reflect.Pointer {
			elem = elem.Elem()
		}
		if at.typ != attrTypes[scalarKind(elem)] {
			f.odd("attribute %s is of another type", fd.ident)
			return
		}
		coll := fd.typ.Kind() == reflect.Slice || fd.typ.Kind() == reflect.Map
		if coll != at.many {
			f.odd("attribute %s is of another cardinality", fd.ident)
			return
		}
		if fd.typ.Kind() == reflect.Slice && !f.ranked(fd, vs) {
			return
		}
		if fd.typ.Kind() == reflect.Map && !f.keyed(fd, vs) {
			return
		}
		if r := fd.refType(); r != nil {
			for _, v := range vs {
				f.explore(r, v.(ID))
			}
		}
	}
}

// ranked says whether the ranks of the elements of a slice are well formed.
func (f *finder) ranked(fd *ofield, vs []types.Value) bool {
	seen := map[int]bool{}
	for _, v := range vs {
		rank, ok := f.rank(v.(ID))
		if !ok || rank < 0 || rank >= len(vs) || seen[rank] {
			f.odd("slice %s has odd ranks", fd.ident)
			return false
		}
		seen[rank] = true
		if fd.value != "" {
			xs, at := f.values(v.(ID), fd.value)
			if len(xs) != 1 || at.typ != attrTypes[scalarKind(fd.typ.Elem())] {
				f.odd("slice %s has an element without a value", fd.ident)
				return false
			}
			if was, ok := f.types[v.(ID)]; ok && was != fd.typ.Elem() {
				f.odd("entity %d is of several types", v)
				return false
			}
			f.types[v.(ID)] = fd.typ.Elem()
		}
	}
	return true
}

func (f *finder) rank(id ID) (int, bool) {
	vs, _ := f.values(id, "sys/db/rank")
	if len(vs) != 1 {
		return 0, false
	}
	n, ok := vs[0].(types.Int)
	return int(n), ok
}

// keyed says whether the keys of the entries of a map are well formed.
func (f *finder) keyed(fd *ofield, vs []types.Value) bool {
	seen := map[string]bool{}
	for _, v := range vs {
		k, ok := f.key(fd, v.(ID))
		if !ok || seen[fmt.Sprint(k)] {
			f.odd("map %s has odd keys", fd.ident)
			return false
		}
		seen[fmt.Sprint(k)] = true
	}
	return true
}

func (f *finder) key(fd *ofield, id ID) (k reflect.Value, ok bool) {
	kt := fd.typ.Key()
	k = reflect.New(kt).Elem()
	if fd.key == "sys/db/id" {
		if kt.Kind() != reflect.Uint64 {
			return
		}
		k.SetUint(uint64(id))
		return k, true
	}
	vs, _ := f.values(id, fd.key)
	if len(vs) != 1 {
		return
	}
	switch v := vs[0].(type) {
	case types.String:
		if kt.Kind() == reflect.String {
			k.SetString(string(v))
			return k, true
		}
	case types.Int:
		if kt.Kind() == reflect.Int {
			k.SetInt(int64(v))
			return k, true
		}
	case types.Float:
		if kt.Kind() == reflect.Float64 && v == v {
			// There is but one zero.
			k.SetFloat(float64(v) + 0)
			return k, true
		}
	case types.Bool:
		if kt.Kind() == reflect.Bool {
			k.SetBool(bool(v))
			return k, true
		}
	case types.Inst:
		if kt == timeType {
			k.Set(reflect.ValueOf(time.Time(v)))
			return k, true
		}
	}
	return
}

// match compares a found struct to the entity.
func (f *finder) match(t reflect.Type, id ID, got reflect.Value) string {
	if got.Type() != t {
		return fmt.Sprintf("has a %s for a %s", got.Type(), t)
	}
	if got.CanAddr() && got.Type().Size() > 0 {
		at := findAt{findKey{t, id}, got.UnsafeAddr()}
		if f.seenAt[at] {
			return ""
		}
		f.seenAt[at] = true
	}
	ot := objByType[t]
	tagged := map[int]bool{}
	for i := range ot.fields {
		fd := &ot.fields[i]
		tagged[fd.i] = true
		x := got.Field(fd.i)
		if msg := f.matchField(fd, id, x); msg != "" {
			return fmt.Sprintf("has %s.%s of %d wrong: %s", ot.name, fd.name, id, msg)
		}
	}
	for i := range t.NumField() {
		if !tagged[i] && !got.Field(i).IsZero() {
			return fmt.Sprintf("has a value for %s.%s which has no tag", ot.name, t.Field(i).Name)
		}
	}
	return ""
}

func (f *finder) matchField(fd *ofield, id ID, x reflect.Value) string {
	if fd.isID {
		if x.Uint() != uint64(id) {
			return fmt.Sprintf("%d is not the id", x.Uint())
		}
		return ""
	}
	vs, _ := f.values(id, fd.ident)
	switch x.Kind() {
	case reflect.Slice:
		if x.Len() != len(vs) {
			return fmt.Sprintf("%d elements, not %d", x.Len(), len(vs))
		}
		for _, v := range vs {
			rank, _ := f.rank(v.(ID))
			el := x.Index(rank)
			if fd.value != "" {
				xs, _ := f.values(v.(ID), fd.value)
				if msg := sameValue(xs[0], el); msg != "" {
					return fmt.Sprintf("[%d]: %s", rank, msg)
				}
				continue
			}
			f.byValue[v.(ID)] = true
			if msg := f.match(fd.refType(), v.(ID), el); msg != "" {
				return fmt.Sprintf("[%d]: %s", rank, msg)
			}
		}
		return ""
	case reflect.Map:
		if x.Len() != len(vs) {
			return fmt.Sprintf("%d entries, not %d", x.Len(), len(vs))
		}
		// A map may be among its own entries.
		at := findAt{findKey{fd.typ, id}, x.Pointer()}
		if f.seenAt[at] {
			return ""
		}
		f.seenAt[at] = true
		for _, v := range vs {
			k, _ := f.key(fd, v.(ID))
			el := x.MapIndex(k)
			if !el.IsValid() {
				return fmt.Sprintf("no entry for %v", k)
			}
			if msg := f.matchRef(fd, v.(ID), el); msg != "" {
				return fmt.Sprintf("[%v]: %s", k, msg)
			}
		}
		return ""
	}
	if len(vs) == 0 {
		if !zero(x) {
			return fmt.Sprintf("%s though it has no value", showObj(x.Interface()))
		}
		return ""
	}
	if fd.refType() != nil {
		return f.matchRef(fd, vs[0].(ID), x)
	}
	if x.Kind() == reflect.Pointer {
		if x.IsNil() {
			return "nil, not " + vkey(vs[0])
		}
		x = x.Elem()
	}
	return sameValue(vs[0], x)
}

// matchRef compares a struct or a pointer to one to an entity.
func (f *finder) matchRef(fd *ofield, id ID, x reflect.Value) string {
	if x.Kind() == reflect.Pointer {
		if x.IsNil() {
			return fmt.Sprintf("nil, not %d", id)
		}
		if was, ok := f.ptrs[id]; ok && was != x.Pointer() {
			f.split = append(f.split, id)
		}
		f.ptrs[id] = x.Pointer()
		x = x.Elem()
	} else {
		f.byValue[id] = true
	}
	return f.match(fd.refType(), id, x)
}

// zero says whether all of the tagged fields of a value are zero.
func zero(x reflect.Value) bool { return x.IsZero() }

func sameValue(v types.Value, x reflect.Value) string {
	got, _ := scalarOf(x).(types.Value)
	if vkey(got) != vkey(v) {
		return vkey(got) + ", not " + vkey(v)
	}
	return ""
}

// checkObj judges the run of a struct case.
func (e *env) checkObj(recs []*Rec) {
	e.linearize(recs)
	if len(e.viols) > 0 || e.c.NProbes == 0 {
		return
	}
	for _, r := range recs {
		if r.op.Kind != "objwrite" || r.err != nil || r.obj.psnap == nil || r.state == nil {
			continue
		}
		for i, x := range r.obj.copies {
			t := objByType[deref(reflect.TypeOf(x))]
			id := r.obj.ids[i]
			if t == nil || id == 0 {
				continue
			}
			e.probeFind(r, t, id, x)
		}
	}
	// What is shown of each entity as each type?
	rng := zs.NewRng(e.c.Probes)
	var snaps []*Rec
	seen := map[*State]bool{}
	for _, r := range recs {
		if r.state != nil && r.obj != nil && r.obj.psnap != nil && !seen[r.state] {
			seen[r.state] = true
			snaps = append(snaps, r)
		}
	}
	for _, r := range snaps {
		users := r.state.users()
		for range e.c.NProbes {
			if len(users) == 0 || len(e.viols) > 0 {
				return
			}
			t := objTypes[goodTypes[rng.Intn(len(goodTypes))]]
			id := users[rng.Intn(len(users))]
			e.probeFind(r, t, uint64(id), nil)
		}
	}
}

// users are the entities that users made, but for attributes.
func (s *State) users() (ids []ID) {
	for _, id := range sortedIDs(s.byE) {
		if id >= sys.FirstUserID && s.attrs[id] == nil {
			ids = append(ids, id)
		}
	}
	return
}

// probeFind finds an entity after the run. If it was asserted as a struct, and nothing was known
// about it before, then it must be found to be equal.
func (e *env) probeFind(r *Rec, t *objType, id uint64, given any) {
	e.stats.Probes++
	tmp := &Rec{}
	guard(tmp, func() {
		find, err := t.view(r.obj.psnap)
		if err != nil {
			e.report(Viol{Class: "view.refused", Op: r.op.ID, Msg: "a view of " + t.name + " was refused: " + err.Error(), Props: []string{"C16", "C18"}})
			return
		}
		got := find(id)
		f := &finder{s: r.state, seen: map[findKey]bool{}, types: map[ID]reflect.Type{}}
		if v := f.judge(t, ID(id), got); v != nil {
			v.Op = r.op.ID
			e.report(*v)
			return
		}
		if given == nil || !r.obj.fresh || f.wild != "" {
			return
		}
		v := reflect.ValueOf(given)
		if v.Kind() == reflect.Pointer {
			v = v.Elem()
		}
		if !got.IsValid() {
			if len(r.state.byE[ID(id)]) == 0 {
				// The struct has no values, but something refers to it.
				return
			}
			e.report(Viol{Class: "find.lost", Op: r.op.ID, Msg: fmt.Sprintf("asserted %s, but found nothing", showObj(given)), Props: []string{"C16"}})
			return
		}
		if msg := newComparer(false).diff(v, got.Elem(), nil); msg != "" {
			e.report(Viol{Class: "find.trip", Op: r.op.ID, Msg: fmt.Sprintf("asserted %s, but found %s: %s", showObj(given), show1(got), msg), Props: []string{"C16"}})
		}
	})
	if tmp.panicked != "" {
		e.report(Viol{Class: "panic.find", Op: r.op.ID, Msg: "finding " + t.name + " panicked: " + tmp.panicked, Props: []string{"C12", "C16", "C18"}})
	}
}

func (o *objRec) digest() string {
	var b strings.Builder
	fmt.Fprint(&b, o.ids, o.id, o.nils, o.shown)
	if o.typ != nil {
		b.WriteString(o.typ.name)
	}
	return b.String()
}

func (o *objRec) describe(r *Rec) string {
	var b strings.Builder
	switch r.op.Kind {
	case "objwrite":
		for _, x := range o.copies {
			fmt.Fprintf(&b, " +%s", showObj(x))
		}
		if o.m != nil {
			for _, x := range o.m.data.Retractions {
				fmt.Fprintf(&b, " -%v", x.Constraints)
			}
		}
		fmt.Fprintf(&b, " -> %v %v", o.ids, r.err)
	case "objfind":
		if o.typ != nil {
			fmt.Fprintf(&b, " %s %d -> %s", o.typ.name, o.id, o.shown)
		}
	}
	return b.String()
}
