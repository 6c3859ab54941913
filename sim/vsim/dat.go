package main

import (
	"fmt"
	"iter"
	"maps"
	"os"
	"runtime"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"time"

	zs "github.com/dball/destructive/internal/zsim/simrt"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// Rec is the record of an operation.
type Rec struct {
	op       *Op
	task     int
	inv, ret int64
	req      types.Request
	res      types.Response
	err      error
	snap     types.Snapshot
	dump     []Datum
	state    *State
	panicked string
	viols    []Viol

	// queries
	from    *Rec
	claim   types.Claim
	got     []Datum
	partial bool // the sequence was abandoned
	isCount bool
	count   int
	isHas   bool
	found   bool
	isIdent bool

	// struct requests
	obj *objRec

	// kept checks, when the run is over, what the operation's caller kept.
	kept []func() (class, msg string)
	// seq is a sequence for others to consume.
	seq iter.Seq[Datum]
}

// keep has a check made when the run is over.
func (r *Rec) keep(f func() (class, msg string)) { r.kept = append(r.kept, f) }

const maxSlots = 128

// env is the environment of a run.
type env struct {
	c       *Case
	db      types.Database
	slotIdx map[string]int
	slots   [maxSlots]uint64
	seq     int64
	setup   []*Rec
	tasks   [][]*Rec
	dumps   bool // whether to dump snapshots when they are acquired
	base    *State
	out     zs.Outcome
	viols   []Viol
	faults  map[string]int
	stats   Stats
	obj     *objEnv
	late    []func()
	order   []*Rec // the order of the operations that best explains the run
}

//go:norace
func (e *env) slot(name string) ID {
	i, ok := e.slotIdx[name]
	if !ok {
		return 0
	}
	return ID(e.slots[i])
}

//go:norace
func (e *env) setSlot(name string, id ID) {
	i, ok := e.slotIdx[name]
	if ok {
		e.slots[i] = uint64(id)
	}
}

// newest is the greatest id that was seen.
//
//go:norace
func (e *env) newest() (id ID) {
	for _, x := range e.slots {
		id = max(id, ID(x))
	}
	return
}

//go:norace
func (e *env) tick() int64 {
	e.seq++
	return e.seq
}

// ref builds a reference. The kind of the result depends on the kind of the reference.
func (e *env) ref(r *Ref) any {
	if r == nil {
		return nil
	}
	switch r.K {
	case "nil":
		return nil
	case "tmp":
		return types.TempID(r.S)
	case "txn":
		return types.TxnID{}
	case "slot":
		return e.slot(r.S)
	case "ident":
		return types.Ident(r.S)
	case "id":
		n, err := strconv.ParseUint(r.S, 10, 64)
		must(err)
		return types.ID(n)
	case "next":
		// Probably an id that will be issued soon.
		n, err := strconv.ParseUint(r.S, 10, 64)
		must(err)
		return e.newest() + ID(n)
	case "lookup":
		ref := types.LookupRef{}
		if a, ok := e.ref(r.A).(types.IDRef); ok {
			ref.A = a
		}
		if v, ok := e.ref(r.V).(types.Value); ok {
			ref.V = v
		}
		return ref
	}
	return scalar(r)
}

func (e *env) claim(c *Claim) (claim types.Claim) {
	claim.Retract = c.R
	if x, ok := e.ref(c.E).(types.ERef); ok {
		claim.E = x
	}
	if x, ok := e.ref(c.A).(types.IDRef); ok {
		claim.A = x
	}
	if x, ok := e.ref(c.V).(types.VRef); ok {
		claim.V = x
	}
	return
}

var sentinel = types.Claim{E: types.TempID("sentinel"), A: types.Ident("sentinel"), V: types.String("sentinel")}

func (e *env) request(op *Op) (req types.Request) {
	req.Claims = make([]types.Claim, 0, len(op.Claims)+op.Spare)
	for _, c := range op.Claims {
		req.Claims = append(req.Claims, e.claim(c))
	}
	for i := len(op.Claims); i < cap(req.Claims); i++ {
		req.Claims[:cap(req.Claims)][i] = sentinel
	}
	if len(op.Schema) > 0 {
		req.Schema = make([]types.Claim, 0, len(op.Schema)+op.Spare)
		for _, c := range op.Schema {
			req.Schema = append(req.Schema, e.claim(c))
		}
		for i := len(op.Schema); i < cap(req.Schema); i++ {
			req.Schema[:cap(req.Schema)][i] = sentinel
		}
	}
	for _, cs := range op.Rets {
		r := types.Retraction{Constraints: map[types.IDRef]types.Void{}}
		for _, c := range cs {
			x, _ := e.ref(c).(types.IDRef)
			if x != nil || c.K == "nil" {
				r.Constraints[x] = types.Void{}
			}
		}
		req.Retractions = append(req.Retractions, r)
	}
	return
}

func copyRequest(req types.Request) (c types.Request) {
	c.Claims = slices.Clone(req.Claims)
	c.Schema = slices.Clone(req.Schema)
	for _, r := range req.Retractions {
		c.Retractions = append(c.Retractions, types.Retraction{Constraints: maps.Clone(r.Constraints)})
	}
	return
}

func sameRequest(a, b types.Request) bool {
	if len(a.Claims) != len(b.Claims) || len(a.Schema) != len(b.Schema) || len(a.Retractions) != len(b.Retractions) {
		return false
	}
	for i := range a.Claims {
		if !sameClaim(a.Claims[i], b.Claims[i]) {
			return false
		}
	}
	for i := range a.Schema {
		if !sameClaim(a.Schema[i], b.Schema[i]) {
			return false
		}
	}
	for i := range a.Retractions {
		if len(a.Retractions[i].Constraints) != len(b.Retractions[i].Constraints) {
			return false
		}
		// NaN lookups never equal themselves, so are counted only.
		for k := range a.Retractions[i].Constraints {
			if k != k {
				continue
			}
			if _, ok := b.Retractions[i].Constraints[k]; !ok {
				return false
			}
		}
	}
	return true
}

// sameClaim does not use package fmt, whose pools would hide races.
func sameClaim(a, b types.Claim) bool {
	return a.Retract == b.Retract && (a.E == b.E || a.E != a.E) && (a.A == b.A || a.A != a.A) && (a.V == b.V || a.V != a.V)
}

type userPanic struct{}

// guard runs f, recording a panic.
func guard(rec *Rec, f func()) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		zs.Quiet(func() {
			rec.panicked = fmt.Sprintf("%v\n%s", r, trimStack(debug.Stack()))
		})
	}()
	f()
}

func trimStack(stack []byte) string {
	var out []string
	for _, line := range strings.Split(string(stack), "\n") {
		if strings.Contains(line, "/internal/") || strings.Contains(line, "/pkg/") {
			if strings.Contains(line, "zsim") || !strings.HasPrefix(line, "\t") {
				continue
			}
			line = strings.TrimSpace(line)
			i := strings.LastIndex(line, " +0x")
			if i > 0 {
				line = line[:i]
			}
			for _, p := range []string{"/internal/", "/pkg/"} {
				if j := strings.Index(line, p); j >= 0 {
					line = line[j+1:]
				}
			}
			out = append(out, line)
		}
	}
	return strings.Join(out[:min(len(out), 8)], "\n")
}

// acquire records a snapshot.
func (e *env) acquire(rec *Rec, snap types.Snapshot) {
	rec.snap = snap
	if snap == nil || !e.dumps {
		return
	}
	zs.Quiet(func() {
		guard(rec, func() { rec.dump = dumpAll(snap) })
	})
}

func dumpAll(snap types.Snapshot) (ds []Datum) {
	for d := range snap.Select(types.Claim{}) {
		ds = append(ds, d)
	}
	return
}

// run runs an operation in a task.
func (e *env) run(task int, op *Op, own *[]*Rec) {
	rec := &Rec{op: op, task: task}
	*own = append(*own, rec)
	switch op.Kind {
	case "read":
		rec.inv = e.tick()
		was := zs.SetPhase(zs.PhaseDB)
		guard(rec, func() { rec.snap = e.db.Read() })
		zs.SetPhase(was)
		rec.ret = e.tick()
		e.acquire(rec, rec.snap)
	case "write":
		e.write(rec, op)
	case "query":
		e.query(rec, op, own)
	case "objwrite", "objfind", "objread":
		e.runObj(rec, op, own)
	default:
		panic("vsim: unknown operation " + op.Kind)
	}
}

func (e *env) write(rec *Rec, op *Op) {
	req := e.request(op)
	rec.req = copyRequest(req)
	rec.inv = e.tick()
	was := zs.SetPhase(zs.PhaseDB)
	guard(rec, func() { rec.res = e.db.Write(req) })
	zs.SetPhase(was)
	rec.ret = e.tick()
	if rec.panicked != "" {
		return
	}
	e.acquire(rec, rec.res.Snapshot)
	// The request belongs to the caller.
	if !sameRequest(req, rec.req) {
		rec.viols = append(rec.viols, Viol{Class: "alias.request", Op: op.ID, Msg: "a write changed its request", Props: []string{"C15"}})
	}
	for _, cs := range [][]types.Claim{req.Claims, req.Schema} {
		for _, c := range cs[len(cs):cap(cs)] {
			if c != sentinel {
				rec.viols = append(rec.viols, Viol{Class: "alias.spare", Op: op.ID, Msg: "a write changed the spare capacity of its request", Props: []string{"C15"}})
				break
			}
		}
	}
	rec.err = rec.res.Error
	mutable := rec.res.TempIDs
	rec.res.TempIDs = maps.Clone(mutable)
	if rec.res.Error == nil {
		for _, t := range sortedTemps(mutable) {
			e.setSlot(string(t), mutable[t])
		}
		e.setSlot("tx", rec.res.ID)
	}
	if op.Mutate {
		e.fault("mutate")
		for i := range req.Claims {
			req.Claims[i] = types.Claim{E: types.ID(3), A: types.Ident("mutated"), V: types.String("mutated")}
		}
		for i := range req.Schema {
			req.Schema[i] = types.Claim{E: types.ID(3), A: types.Ident("mutated"), V: types.String("mutated")}
		}
		for _, r := range req.Retractions {
			clear(r.Constraints)
		}
		for t := range mutable {
			mutable[t] = 77
		}
		if mutable != nil {
			mutable["mutated"] = 77
		}
		return
	}
	if zs.Race {
		return
	}
	rec.keep(func() (string, string) {
		if !maps.Equal(mutable, rec.res.TempIDs) {
			return "alias.response", fmt.Sprintf("the ids of a response became %v, but they were %v", mutable, rec.res.TempIDs)
		}
		if !sameRequest(req, rec.req) {
			return "alias.request", "a request changed after it was made"
		}
		return "", ""
	})
}

func sortedTemps(m map[types.TempID]ID) []types.TempID {
	ts := make([]types.TempID, 0, len(m))
	for t := range m {
		ts = append(ts, t)
	}
	slices.Sort(ts)
	return ts
}

//go:norace
func (e *env) fault(kind string) {
	if !zs.Race {
		e.faults[kind]++
	}
}

// defers keeps what is to be called when the run is over.
//
//go:norace
func (e *env) defers(f func()) {
	e.late = append(e.late, f)
}

// leaks checks that the run left no goroutine or coroutine behind.
func (e *env) leaks(before, coroutines int) {
	if e.out.Failure != nil {
		return
	}
	e.stopLate()
	seen, patience := 0, 30
	if leaked {
		patience = 3
	}
	for i := range 1000 {
		if runtime.NumGoroutine() <= before {
			return
		}
		if i < 50 {
			// The tasks may not quite have ended.
			runtime.Gosched()
			continue
		}
		if countCoroutines() > coroutines {
			if seen++; seen > patience {
				break
			}
		}
		time.Sleep(10 * time.Millisecond)
	}
	leaked = true
	e.report(Viol{Class: "leak.goroutine", Op: -1, Msg: "the run left goroutines or coroutines behind", Props: []string{"C13"}})
}

// stopLate stops the sequences which were left unstopped until the end of the run.
func (e *env) stopLate() {
	for _, f := range e.late {
		tmp := &Rec{}
		guard(tmp, f)
	}
	e.late = nil
}

// leaked is set once a run left something behind.
var leaked bool

func countCoroutines() int {
	buf := make([]byte, 1<<20)
	return strings.Count(string(buf[:runtime.Stack(buf, true)]), " [coroutine")
}

// pick picks one of the snapshots at hand, counting from the newest of the task's own, and then
// those of the setup.
func (e *env) pick(from int, own []*Rec) *Rec {
	n := 0
	var pickable []*Rec
	for i := len(own) - 1; i >= 0; i-- {
		if own[i].snap != nil {
			pickable = append(pickable, own[i])
			n++
		}
	}
	for i := len(e.setup) - 1; i >= 0; i-- {
		if e.setup[i].snap != nil {
			pickable = append(pickable, e.setup[i])
			n++
		}
	}
	if n == 0 {
		return nil
	}
	return pickable[from%n]
}

func (e *env) query(rec *Rec, op *Op, own *[]*Rec) {
	src := e.pick(op.From, *own)
	var seq iter.Seq[Datum]
	if op.Mode == "shared" {
		var held *Rec
		held = e.held(op.From)
		if held != nil {
			seq, src = held.seq, held.from
			rec.claim = held.claim
		}
	}
	if src == nil {
		return
	}
	rec.from = src
	snap := src.snap
	if seq == nil {
		rec.claim = e.claim(op.Claim)
	}
	if rec.claim.V == types.VRef(types.ID(0)) {
		// Whether this is an empty value or a value is unclear.
		rec.claim.V = garbageID
	}
	rec.inv = e.tick()
	defer func() { rec.ret = e.tick() }()
	was := zs.SetPhase(zs.PhaseQuery)
	defer zs.SetPhase(was)
	switch op.Mode {
	case "count":
		guard(rec, func() { rec.count = snap.Count(rec.claim) })
		rec.isCount = true
	case "has":
		guard(rec, func() { rec.found = snap.Has(rec.claim) })
		rec.isHas = true
	case "idents":
		rec.isIdent = true
		guard(rec, func() { rec.viols = append(rec.viols, e.checkIdents(src, op.ID)...) })
	case "pull":
		rec.partial = true
		guard(rec, func() {
			next, stop := iter.Pull(snap.Select(rec.claim))
			for range op.N {
				d, ok := next()
				if !ok {
					rec.partial = false
					break
				}
				rec.got = append(rec.got, d)
				e.consume(op, own)
			}
			if op.N%2 == 0 {
				stop()
			} else {
				e.defers(stop)
			}
			if rec.partial {
				e.fault("abandon")
			}
		})
	case "panic":
		rec.partial = true
		guard(rec, func() {
			defer func() {
				r := recover()
				if _, ok := r.(userPanic); !ok && r != nil {
					panic(r)
				}
			}()
			for d := range snap.Select(rec.claim) {
				rec.got = append(rec.got, d)
				e.consume(op, own)
				if len(rec.got) > op.N {
					e.fault("userpanic")
					panic(userPanic{})
				}
			}
			rec.partial = false
		})
	case "goexit":
		rec.partial = true
		for d := range snap.Select(rec.claim) {
			rec.got = append(rec.got, d)
			e.consume(op, own)
			if len(rec.got) > op.N {
				e.fault("goexit")
				if rec.task >= 0 {
					rec.ret = e.tick()
					runtime.Goexit()
				}
				return
			}
		}
		rec.partial = false
	case "twice":
		guard(rec, func() {
			seq := snap.Select(rec.claim)
			var first []Datum
			for d := range seq {
				first = append(first, d)
				e.consume(op, own)
			}
			for d := range seq {
				rec.got = append(rec.got, d)
			}
			if !sameDatums(first, rec.got) {
				rec.viols = append(rec.viols, Viol{Class: "query.again", Op: op.ID, Msg: fmt.Sprintf("consuming a sequence twice yielded %d and then %d datums", len(first), len(rec.got)), Props: []string{"C08", "C01"}})
			}
		})
	case "hold":
		rec.partial = true
		guard(rec, func() { rec.seq = snap.Select(rec.claim) })
	case "shared":
		// The sequence may be consumed by several tasks at once.
		if seq == nil {
			seq = snap.Select(rec.claim)
		}
		guard(rec, func() {
			for d := range seq {
				rec.got = append(rec.got, d)
				e.consume(op, own)
				if op.N > 0 && len(rec.got) > op.N {
					rec.partial = true
					e.fault("abandon")
					return
				}
			}
		})
	case "within":
		// The sequence is consumed while it is being consumed.
		guard(rec, func() {
			seq := snap.Select(rec.claim)
			var inner []Datum
			whole := false
			for d := range seq {
				rec.got = append(rec.got, d)
				e.consume(op, own)
				if len(rec.got) == 1+op.N {
					for d := range seq {
						inner = append(inner, d)
					}
					whole = true
				}
			}
			if whole && !sameDatums(inner, rec.got) {
				rec.viols = append(rec.viols, Viol{Class: "query.again", Op: op.ID, Msg: fmt.Sprintf("consuming a sequence within itself yielded %d and %d datums", len(inner), len(rec.got)), Props: []string{"C08", "C01"}})
			}
		})
	case "break":
		rec.partial = true
		guard(rec, func() {
			for d := range snap.Select(rec.claim) {
				rec.got = append(rec.got, d)
				e.consume(op, own)
				if len(rec.got) > op.N {
					e.fault("abandon")
					return
				}
			}
			rec.partial = false
		})
	default:
		guard(rec, func() {
			for d := range snap.Select(rec.claim) {
				rec.got = append(rec.got, d)
				e.consume(op, own)
			}
		})
	}
}

// held finds a sequence that was made before the tasks started.
func (e *env) held(from int) *Rec {
	var held []*Rec
	for _, r := range e.setup {
		if r.seq != nil {
			held = append(held, r)
		}
	}
	if len(held) == 0 {
		return nil
	}
	return held[from%len(held)]
}

func sameDatums(a, b []Datum) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].E != b[i].E || a[i].A != b[i].A || a[i].T != b[i].T || vkey(a[i].V) != vkey(b[i].V) {
			return false
		}
	}
	return true
}

// consume is the user's code, which may take its time or call the database.
func (e *env) consume(op *Op, own *[]*Rec) {
	was := zs.SetPhase(zs.PhaseConsume)
	for range op.Yield {
		zs.UserYield()
	}
	if op.Nest != nil && (*own)[len(*own)-1].op == op {
		e.fault("nested")
		zs.SetPhase(zs.PhaseNone)
		e.run((*own)[len(*own)-1].task, op.Nest, own)
	}
	zs.SetPhase(was)
}

// identUniverse is the set of idents worth resolving.
var identUniverse []string

// checkIdents checks that names resolve according to the datums of the snapshot.
func (e *env) checkIdents(rec *Rec, op int) (vs []Viol) {
	if rec.state == nil && rec.dump == nil {
		return
	}
	var s *State
	zs.Quiet(func() {
		s = rec.state
		if s == nil {
			s = newState(rec.dump)
		}
		s.index()
	})
	for _, name := range identUniverse {
		got := rec.snap.ResolveIdent(types.Ident(name))
		if want := s.idents[name]; got != want {
			vs = append(vs, Viol{Class: "ident.resolve", Op: op, Msg: fmt.Sprintf("ident %q resolves to %d, but the datums say %d", name, got, want), Props: []string{"C09"}})
			break
		}
	}
	for _, id := range sortedIDs(s.attrs) {
		got := rec.snap.ResolveAttrIdent(id)
		if want := s.attrs[id].ident; string(got) != want {
			vs = append(vs, Viol{Class: "ident.attr", Op: op, Msg: fmt.Sprintf("attribute %d resolves to %q, but the datums say %q", id, got, want), Props: []string{"C09", "C10"}})
			break
		}
	}
	for _, id := range sortedIDs(s.byE) {
		got := rec.snap.ResolveAttrIdent(id)
		if s.attrs[id] == nil && got != "" && string(got) != s.names[id] {
			vs = append(vs, Viol{Class: "ident.attr", Op: op, Msg: fmt.Sprintf("entity %d resolves to the ident %q, but the datums say %q", id, got, s.names[id]), Props: []string{"C09"}})
			break
		}
	}
	return
}

// slotNames gathers the slots of a case.
func slotNames(c *Case) map[string]int {
	idx := map[string]int{}
	add := func(name string) {
		if _, ok := idx[name]; !ok && len(idx) < maxSlots {
			idx[name] = len(idx)
		}
	}
	var ref func(r *Ref)
	ref = func(r *Ref) {
		if r == nil {
			return
		}
		if r.K == "tmp" || r.K == "slot" {
			add(r.S)
		}
		ref(r.A)
		ref(r.V)
	}
	var op func(o *Op)
	op = func(o *Op) {
		if o == nil {
			return
		}
		for _, cs := range [][]*Claim{o.Claims, o.Schema} {
			for _, c := range cs {
				ref(c.E)
				ref(c.A)
				ref(c.V)
			}
		}
		for _, r := range o.Rets {
			for _, x := range r {
				ref(x)
			}
		}
		if o.Claim != nil {
			ref(o.Claim.E)
			ref(o.Claim.A)
			ref(o.Claim.V)
		}
		if o.Slot != "" {
			add(o.Slot)
		}
		for _, x := range o.Objs {
			slotsOfObj(x, add)
		}
		for _, x := range o.Dels {
			slotsOfObj(x, add)
		}
		op(o.Nest)
	}
	add("tx")
	for _, o := range c.Setup {
		op(o)
	}
	for _, t := range c.Tasks {
		for _, o := range t {
			op(o)
		}
	}
	return idx
}

// Stats are what a run covered.
type Stats struct {
	Ops, Accepted, Rejected, Open, Queries, Probes, States int
	Upserts                                                int
}

// simulate runs the case.
func simulate(c *Case, alt *Alt) (e *env) {
	e = &env{c: c, slotIdx: slotNames(c), faults: map[string]int{}, dumps: !zs.Race}
	degree, attrs, idents := c.Degree, c.Attrs, c.Idents
	if alt != nil {
		degree, attrs, idents = alt.Degree, alt.Attrs, alt.Idents
	}
	zs.Panicked = func(child bool, op int, r any, stack []byte) {
		if !child {
			fmt.Fprintf(os.Stderr, "vsim: the simulator panicked: %v\n%s\n", r, stack)
			os.Exit(2)
		}
		e.viols = append(e.viols, Viol{Class: "panic.goroutine", Op: op, Msg: fmt.Sprintf("a goroutine that the database started panicked: %v\n%s", r, trimStack(stack)), Props: []string{"C12", "C13"}})
	}
	mapSeed := func(op *Op) uint64 {
		if alt != nil {
			if alt.MapSeed == 0 {
				return 0
			}
			return zs.Mix(alt.MapSeed + uint64(op.ID))
		}
		return op.Map
	}
	boot := &Rec{}
	guard(boot, func() {
		if c.Domain == "obj" {
			e.openObj(degree, attrs, idents)
		} else {
			e.db = database.NewIndexDatabase(degree, attrs, idents)
		}
	})
	if boot.panicked != "" {
		e.viols = append(e.viols, Viol{Class: "panic.open", Op: -1, Msg: "opening a database panicked: " + boot.panicked, Props: []string{"C12", "C19"}})
		return
	}
	initial := &Rec{op: &Op{ID: -1, Kind: "read"}, task: -1}
	e.acquire(initial, e.readAny())
	if e.obj != nil {
		initial.obj = &objRec{rec: initial, psnap: e.obj.db.Read()}
	}
	initial.inv, initial.ret = e.tick(), e.tick()
	e.setup = append(e.setup, initial)
	setup := func() {
		for _, op := range c.Setup {
			zs.StartOp(op.ID, mapSeed(op))
			e.run(-1, op, &e.setup)
		}
	}
	e.out = zs.Run([]func(){setup}, zs.Strategy{Kind: "seq"}, nil, c.Bound)
	if e.out.Failure != nil {
		return
	}
	setupSteps := e.out.Steps
	e.tasks = make([][]*Rec, len(c.Tasks))
	fns := make([]func(), len(c.Tasks))
	for i, ops := range c.Tasks {
		fns[i] = func() {
			for _, op := range ops {
				zs.StartOp(op.ID, mapSeed(op))
				e.run(i, op, &e.tasks[i])
			}
		}
	}
	if len(fns) == 0 {
		return
	}
	e.out = zs.Run(fns, c.Strat, c.Trace, c.Bound)
	e.out.Steps += setupSteps
	return
}

// readAny reads the datum snapshot of either domain.
func (e *env) readAny() types.Snapshot {
	if e.obj != nil {
		return rawSnapshot(e.obj.db.Read())
	}
	return e.db.Read()
}

var _ = sys.FirstUserID
