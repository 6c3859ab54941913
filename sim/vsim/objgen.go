package main

import (
	"reflect"
	"strconv"
)

// objGen is the state of the generator of struct cases.
type objGen struct {
	*gen
	types []string // those which the case uses most
	slots int
	ptrs  map[string][]int // the pointers at hand in the request
	defs  map[string][]int // the pointers shared by all of the requests
	nextP int
	nextS int
	busy  map[reflect.Type]int
	left  int               // how many more structs the request may have
	chain int               // how many more structs must nest
	big   bool              // whether the request is big
	keys  int               // how many identities there are
	made  map[string][]*Obj // the structs of the request
	dense bool              // whether structs have all of their fields
	often int               // structs are repeated one time in so many
	tidy  bool              // whether the structs of the request are distinct
	used  map[string]bool   // what distinguishes them
	holds map[string]string // the types of the entities of the slots, as likely as not
}

// related are the types that are interesting together.
var related = [][]string{
	{"Person", "PersonView", "PersonBoss"},
	{"Person", "PersonView", "PersonBoss", "Desk"},
	{"Vitals", "VitalsOpt"},
	{"Node", "Anon"},
	{"Node"},
	{"Anon", "Empty"},
	{"Point", "Box", "Pair"},
	{"Shape", "Point"},
	{"Shape"},
	{"Album", "Track"},
	{"Album", "Track", "Shape"},
	{"Library", "Book", "BookView", "Person"},
	{"Library", "Book"},
	{"Desk", "Drawer", "Person"},
	{"Pair", "Shape", "Point"},
	{"Spare", "Shape", "Library"},
	{"Spare"},
	{"Named", "Vitals", "Album"},
	{"Diary", "Day"},
	{"Coin", "Lock", "Key"},
	{"Coin"},
	{"Lock", "Person", "Node"},
	{"Tree"},
	{"Nest", "Twig", "Egg"},
	{"Nest", "Egg"},
	{"Nest"},
	{"Nest"},
	{"Twig", "Egg"},
	{"Pair", "Box"},
	{"Pair"},
	{"Box", "Desk", "Shell"},
	{"Twig", "Tree"},
	{"Tagged", "Two", "Nest"},
	{"Tagged", "Egg"},
	{"Alike"},
	{"Alike", "Egg"},
	{"Two", "Mono", "Link"},
	{"Two", "Mono"},
	{"Shell", "Point", "Node"},
	{"WrapPoint", "WrapNode"},
	{"Local1", "Local2", "Local3", "Local4"},
}

func (g *gen) genObj(c *Case, n int) {
	o := &objGen{gen: g, slots: 2 + g.Intn(4), keys: 3 + g.Intn(10), defs: map[string][]int{}, nextS: sharedP, holds: map[string]string{}}
	if g.P(1, 4) {
		o.keys = 1 + g.Intn(2)
	}
	o.types = append(o.types, related[g.Intn(len(related))]...)
	if g.P(1, 3) {
		o.types = append(o.types, related[g.Intn(len(related))]...)
	}
	if g.P(1, 6) {
		o.types = append(o.types, goodTypes...)
	}
	// Seeds.
	for range 1 + g.Intn(2) {
		if op := o.write(false); !g.P(1, 6) {
			c.Setup = append(c.Setup, op)
		}
	}
	if g.P(1, 3) {
		op := o.newOp("objread")
		op.Type = o.pick(o.types...)
		c.Setup = append(c.Setup, op)
	}
	per := 1 + g.Intn(4)
	if n == 1 {
		per = 3 + g.Intn(8)
		if g.P(g.p.Long, 200) {
			per = 12 + g.Intn(16)
		}
	}
	for range n {
		var ops []*Op
		m := 1 + g.Intn(per)
		if n == 1 {
			m = per
		}
		for range m {
			op := o.op(n)
			ops = append(ops, op)
			if op.Kind == "query" && op.Mode == "goexit" {
				break
			}
		}
		c.Tasks = append(c.Tasks, ops)
	}
}

func (o *objGen) op(tasks int) *Op {
	switch o.weighted([]int{o.p.Write, o.p.Query * 4 / 3, o.p.Read, 1 + o.p.Query/4}) {
	case 0:
		return o.write(true)
	case 1:
		return o.find()
	case 2:
		op := o.newOp("objread")
		if o.P(1, 2) {
			op.Type = o.pick(o.types...)
		}
		return op
	}
	return o.query(tasks)
}

func (o *objGen) slot() string { return "o" + strconv.Itoa(o.Intn(o.slots)) }

// literal guesses an id. Which entity has an id that was issued depends on the configuration.
func (o *objGen) literal(more ...string) string {
	ids := append([]string{"1", "9", "1099511627776", "18446744073709551615"}, more...)
	if !o.p.Alt {
		ids = append(ids, "1048576", "1048577", "1048600")
	}
	return "#" + o.pick(ids...)
}

// query queries the datums.
func (o *objGen) query(tasks int) *Op {
	o.gen.attrs = []string{"a/s1i"}
	nest := o.p.Nest
	o.p.Nest, o.gen.slots = 0, 2
	op := o.datQuery(tasks)
	o.p.Nest = nest
	if o.P(o.p.Nest, 100) {
		op.Nest = o.write(true)
	}
	op.Claim = &Claim{}
	shape := o.Intn(8)
	if shape&1 != 0 {
		op.Claim.E = &Ref{K: "slot", S: o.slot()}
	}
	if shape&2 != 0 {
		op.Claim.A = attrRef(o.pick(objIdents...))
	}
	if shape&4 != 0 {
		op.Claim.V = o.value("sifbn"[o.Intn(5)])
		if o.P(1, 4) {
			op.Claim.V = &Ref{K: "slot", S: o.slot()}
		}
	}
	return op
}

func (o *objGen) find() *Op {
	op := o.newOp("objfind")
	if o.P(1, 2) {
		op.From = o.Intn(6)
	}
	op.Type = o.pick(o.types...)
	if o.P(1, 10) {
		op.Type = o.pick("BadView", "BadNarrow")
	}
	if o.P(1, 12) {
		op.Type = o.pick(append(append([]string{}, goodTypes...), badTypes...)...)
	}
	op.Slot = o.slot()
	if t := o.holds[op.Slot]; t != "" && o.P(1, 2) {
		op.Type = t
	}
	if o.P(1, 12) {
		op.Slot = o.literal("0")
	}
	op.Mode = o.pick("once", "once", "twice", "held")
	op.Mutate = o.P(o.p.Mutate, 100)
	return op
}

func (o *objGen) write(poison bool) *Op {
	op := o.newOp("objwrite")
	o.ptrs = map[string][]int{}
	o.made = map[string][]*Obj{}
	o.used = map[string]bool{}
	o.tidy = o.P(2, 3)
	o.dense, o.often = o.P(1, 6), 8
	switch {
	case o.P(1, 5):
		o.often = 2
	case o.P(1, 5):
		// Most structs are the same few.
		o.often, o.dense = 1, true
	}
	o.nextP = 0
	o.left = 4 + o.Intn(10)
	o.big, o.chain = false, 0
	if o.P(1, 12) {
		o.left = 30
		if o.P(1, 6) {
			o.big = true
			o.gen.large = true
			o.left = 60 + o.Intn(100)
			if o.P(1, 3) {
				o.chain = 10 + o.Intn(50)
			}
		}
	}
	n := 1
	if o.P(o.p.Mixed+20, 100) {
		n += 1 + o.Intn(2)
	}
	if poison && o.P(1, 10) {
		n = 0
	}
	if o.big && o.P(1, 2) {
		n += o.Intn(40)
	}
	for range n {
		op.Objs = append(op.Objs, o.top())
	}
	if n == 0 || (poison && o.P(1, 5)) {
		for range 1 + o.Intn(5)/4 {
			op.Dels = append(op.Dels, o.del())
		}
	}
	if poison && o.P(o.p.Poison, 100) {
		o.spoil(op)
	}
	op.Mutate = o.P(o.p.Mutate, 100)
	if o.P(1, 2) {
		op.Spare = o.Intn(4)
	}
	if o.P(1, 4) {
		op.Type = o.pick(o.types...)
	}
	return op
}

func (o *objGen) spoil(op *Op) {
	bad := &Obj{}
	switch o.Intn(4) {
	case 0:
		bad.Raw = o.pick("nil", "int", "string", "slice", "map", "nilptr", "ptrptr", "ptrint", "func")
	case 1:
		bad = o.obj(o.pick(badTypes...), 2)
		if o.P(1, 2) {
			o.nextP++
			bad.P = o.nextP
		}
	default:
		bad = o.obj(o.pick(confTypes...), 2)
	}
	if o.P(1, 5) {
		i := o.Intn(len(op.Dels) + 1)
		op.Dels = append(op.Dels[:i:i], append([]*Obj{bad}, op.Dels[i:]...)...)
		return
	}
	i := o.Intn(len(op.Objs) + 1)
	op.Objs = append(op.Objs[:i:i], append([]*Obj{bad}, op.Objs[i:]...)...)
}

// top makes an assertion.
func (o *objGen) top() *Obj {
	t := o.pick(o.types...)
	if ps := o.defs[t]; len(ps) > 0 && o.P(1, 8) {
		return &Obj{T: t, P: ps[o.Intn(len(ps))], Slot: o.slot()}
	}
	if ps := o.ptrs[t]; len(ps) > 0 && o.P(1, 6) {
		return &Obj{T: t, P: ps[o.Intn(len(ps))], Slot: o.slot()}
	}
	var x *Obj
	switch {
	case o.P(1, 12):
		// A struct that several requests share.
		o.nextS++
		p := o.nextS
		saved := o.slots
		o.slots = 0
		x = o.ptr(t, 3, p)
		o.slots = saved
		o.defs[t] = append(o.defs[t], p)
	case o.P(1, 2):
		o.nextP++
		x = o.ptr(t, o.depth(), o.nextP)
	default:
		x = o.obj(t, o.depth())
	}
	x.Slot = o.slot()
	o.holds[x.Slot] = t
	return x
}

// nests says whether the field is of the structs whose depth is unlimited.
func (o *objGen) nests(f *ofield) bool {
	t := f.typ
	for t.Kind() == reflect.Pointer || t.Kind() == reflect.Slice || t.Kind() == reflect.Map {
		t = t.Elem()
	}
	return objByType[t] != nil && o.recursive(t, t, map[reflect.Type]bool{})
}

// recursive says whether structs of a type reach those of another.
func (o *objGen) recursive(from, to reflect.Type, seen map[reflect.Type]bool) bool {
	ot := objByType[from]
	if ot == nil || seen[from] {
		return false
	}
	seen[from] = true
	for i := range ot.fields {
		t := ot.fields[i].typ
		for t.Kind() == reflect.Pointer || t.Kind() == reflect.Slice || t.Kind() == reflect.Map {
			t = t.Elem()
		}
		if t == to || o.recursive(t, to, seen) {
			return true
		}
	}
	return false
}

// depth is how deep structs nest at most.
func (o *objGen) depth() int {
	if o.big && (o.chain > 0 || o.P(1, 2)) {
		return 80
	}
	return 4
}

func (o *objGen) ptr(t string, depth int, p int) *Obj {
	o.ptrs[t] = append(o.ptrs[t], p)
	x := o.obj(t, depth)
	x.P = p
	return x
}

func (o *objGen) obj(t string, depth int) *Obj {
	x := &Obj{T: t, F: map[string]*Val{}}
	o.left--
	if xs := o.made[t]; len(xs) > 0 && o.chain == 0 && o.slots > 0 && (o.P(1, o.often) && (o.often > 1 || o.P(4, 5))) {
		return again(xs[o.Intn(len(xs))])
	}
	ot := objTypes[t]
	pct := 40 + o.Intn(60)
	if o.dense {
		pct = 100
	}
	for i := range ot.fields {
		f := &ot.fields[i]
		if f.isID {
			if o.slots > 0 && o.P(1, 3) {
				x.ID = o.slot()
				if o.P(1, 25) {
					x.ID = o.literal()
				}
			}
			continue
		}
		chain := o.chain > 0 && o.nests(f)
		if !chain && !o.P(pct, 100) {
			continue
		}
		if chain {
			o.chain--
		}
		if v := o.field(f, depth); v != nil {
			x.F[f.name] = v
		}
	}
	if o.tidy {
		o.distinguish(x)
	}
	if o.slots > 0 && len(o.made[t]) < 4 {
		o.made[t] = append(o.made[t], x)
	}
	return x
}

// distinguish gives the struct values by which it is a different entity than others of the request.
func (o *objGen) distinguish(x *Obj) {
	if x.ID != "" {
		if o.used["#"+x.ID] {
			x.ID = ""
		}
		o.used["#"+x.ID] = true
	}
	for i := range objTypes[x.T].fields {
		f := &objTypes[x.T].fields[i]
		t := f.typ
		if t.Kind() == reflect.Pointer {
			t = t.Elem()
		}
		k := scalarKind(t)
		v := x.F[f.name]
		if (!f.identity && !f.unique) || k == 0 || (v == nil && (f.ignoreEmpty || f.typ != t)) {
			continue
		}
		for range 4 {
			if v != nil && !o.used[f.ident+"="+*v.S] {
				break
			}
			v = o.scalar(k, f)
		}
		if v == nil || f.unique || o.used[f.ident+"="+*v.S] {
			// Chances are that this is a new value.
			n := 10 + o.Intn(1000)
			s := strconv.Itoa(n)
			switch k {
			case 's':
				s = "k" + s
			case 'n':
				s += "000000000"
			case 'b':
				delete(x.F, f.name)
				continue
			}
			v = &Val{S: &s}
		}
		o.used[f.ident+"="+*v.S] = true
		x.F[f.name] = v
	}
}

// again makes a struct with the same values.
func again(x *Obj) *Obj {
	y := &Obj{T: x.T, ID: x.ID, F: map[string]*Val{}}
	for k, v := range x.F {
		y.F[k] = v.again()
	}
	return y
}

func (v *Val) again() *Val {
	w := &Val{S: v.S}
	switch {
	case v.O == nil:
	case v.O.P > 0:
		w.O = &Obj{T: v.O.T, P: v.O.P}
	default:
		w.O = again(v.O)
	}
	for _, e := range v.L {
		w.L = append(w.L, e.again())
	}
	return w
}

func (o *objGen) scalar(k byte, f *ofield) *Val {
	var s string
	if o.rich && k != 'b' && !f.unique && o.P(1, 2) {
		s = o.pick(richValues[k]...)
		return &Val{S: &s}
	}
	switch k {
	case 's':
		s = o.pick("a", "b", "b", "c", "", "d e\x00f")
		if f.identity && (o.P(1, 2) || o.keys < 3) {
			s = "k" + strconv.Itoa(o.Intn(o.keys))
		}
	case 'i':
		s = o.pick("0", "1", "1", "2", "-7", "9223372036854775807")
		if f.unique {
			s = strconv.Itoa(o.Intn(6))
		}
	case 'f':
		s = o.pick("0", "-0", "1.5", "1.5", "-2.25", "NaN", "+Inf", "1e-300")
	case 'b':
		s = o.pick("true", "false")
	case 'n':
		s = o.pick("zero", "zero", "zeroz", "0", "1600000000000000000", "1600000000000300000", "1600000000001000000z", "-1500000")
	}
	return &Val{S: &s}
}

func (o *objGen) field(f *ofield, depth int) *Val {
	t := f.typ
	elem := t
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Map:
		elem = t.Elem()
	}
	ptr := t.Kind() == reflect.Pointer
	if t.Kind() == reflect.Map && elem.Kind() == reflect.Pointer {
		ptr = true
		elem = elem.Elem()
	}
	one := func() *Val {
		if k := scalarKind(elem); k != 0 {
			return o.scalar(k, f)
		}
		ot := objByType[elem]
		if ot == nil {
			return nil
		}
		if ptr {
			var ps []int
			for _, p := range o.ptrs[ot.name] {
				// Structs that requests share refer to others only.
				if o.slots > 0 || p >= sharedP {
					ps = append(ps, p)
				}
			}
			if len(ps) > 0 && ((o.chain == 0 && o.P(1, 3)) || depth <= 0 || o.left <= 0) {
				return &Val{O: &Obj{T: ot.name, P: ps[o.Intn(len(ps))]}}
			}
			if depth <= 0 || o.left <= 0 {
				return nil
			}
			o.nextP++
			p := o.nextP
			if o.slots == 0 {
				o.nextS++
				p = o.nextS
			}
			return &Val{O: o.ptr(ot.name, depth-1, p)}
		}
		return &Val{O: o.obj(ot.name, depth-1)}
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Map:
		if (depth <= 0 || o.left <= 0) && scalarKind(elem) == 0 {
			return nil
		}
		v := &Val{}
		n := o.Intn(5)
		if o.P(1, 10) {
			n = 6 + o.Intn(10)
		}
		switch {
		case o.chain > 0 && scalarKind(elem) == 0:
			n = 1
		case o.big && o.P(1, 3):
			n = 20 + o.Intn(100)
			if o.P(1, 3) {
				n += 200
			}
		}
		for range n {
			if scalarKind(elem) == 0 && o.left <= 0 {
				break
			}
			if x := one(); x != nil {
				v.L = append(v.L, x)
			}
		}
		return v
	}
	return one()
}

// del makes a retraction.
func (o *objGen) del() *Obj {
	t := o.pick(o.types...)
	if o.P(1, 2) {
		t = o.pick("Person", "Person", "PersonView", "Node", "Vitals", "Shape", "Book", "Library", "Pair", "Album")
	}
	x := &Obj{T: t, F: map[string]*Val{}}
	if o.P(1, 3) {
		o.nextP++
		x.P = o.nextP
	}
	for i := range objTypes[t].fields {
		f := &objTypes[t].fields[i]
		switch {
		case f.isID:
			if o.P(2, 3) {
				x.ID = o.slot()
				if o.P(1, 10) {
					x.ID = o.literal()
				}
			}
		case f.identity || f.unique:
			if o.P(1, 2) {
				if v := o.field(f, 0); v != nil && v.S != nil {
					x.F[f.name] = v
				}
			}
		case o.P(1, 8):
			if v := o.field(f, 0); v != nil && v.S != nil {
				x.F[f.name] = v
			}
		}
	}
	return x
}

// objEdits lists ways to simplify the assertion of an operation.
func objEdits(get func(c *Case) *Op, at int, x *Obj) (es []func(c *Case) bool) {
	return objEditsAt(func(c *Case) *Obj {
		op := get(c)
		if op == nil || at >= len(op.Objs) {
			return nil
		}
		return op.Objs[at]
	}, x, 0)
}

func objEditsAt(get func(c *Case) *Obj, x *Obj, depth int) (es []func(c *Case) bool) {
	if x == nil || depth > 6 {
		return
	}
	add := func(f func(x *Obj) bool) {
		es = append(es, func(c *Case) bool {
			x := get(c)
			return x != nil && f(x)
		})
	}
	for _, k := range sortedKeys(x.F) {
		add(func(x *Obj) bool {
			if x.F[k] == nil {
				return false
			}
			delete(x.F, k)
			return true
		})
		v := x.F[k]
		for i := len(v.L) - 1; i >= 0; i-- {
			add(func(x *Obj) bool {
				v := x.F[k]
				if v == nil || i >= len(v.L) {
					return false
				}
				v.L = append(v.L[:i:i], v.L[i+1:]...)
				return true
			})
			if v.L[i].O != nil {
				es = append(es, objEditsAt(func(c *Case) *Obj {
					x := get(c)
					if x == nil || x.F[k] == nil || i >= len(x.F[k].L) {
						return nil
					}
					return x.F[k].L[i].O
				}, v.L[i].O, depth+1)...)
			}
		}
		if v.O != nil {
			es = append(es, objEditsAt(func(c *Case) *Obj {
				x := get(c)
				if x == nil || x.F[k] == nil {
					return nil
				}
				return x.F[k].O
			}, v.O, depth+1)...)
		}
	}
	add(func(x *Obj) bool {
		if x.ID == "" {
			return false
		}
		x.ID = ""
		return true
	})
	add(func(x *Obj) bool {
		if x.Slot == "" {
			return false
		}
		x.Slot = ""
		return true
	})
	return
}
