package main

import (
	"cmp"
	"crypto/sha256"
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

type ID = types.ID
type Datum = types.Datum

// key identifies a datum in a state.
type key struct {
	E, A ID
	V    string
}

// vkey is the canonical form of a value: values are equal iff their keys are.
func vkey(v types.Value) string {
	switch v := v.(type) {
	case types.String:
		if len(v) > 512 {
			return fmt.Sprintf("s#%d:%x", len(v), sha256.Sum256([]byte(v)))
		}
		return "s:" + string(v)
	case types.Int:
		return "i:" + strconv.FormatInt(int64(v), 10)
	case types.Bool:
		return "b:" + strconv.FormatBool(bool(v))
	case types.Float:
		switch {
		case math.IsNaN(float64(v)):
			return "f:NaN"
		case v == 0:
			return "f:0"
		}
		return "f:" + strconv.FormatFloat(float64(v), 'g', -1, 64)
	case types.Inst:
		t := time.Time(v)
		if s := t.Unix(); s > math.MaxInt64/1000-1 || s < math.MinInt64/1000+1 {
			// Milliseconds would overflow.
			return "n:" + strconv.FormatInt(s, 10) + "s" + strconv.Itoa(t.Nanosecond()/1e6)
		}
		return "n:" + strconv.FormatInt(t.UnixMilli(), 10)
	case types.ID:
		return "r:" + strconv.FormatUint(uint64(v), 10)
	case nil:
		return "nil"
	}
	return fmt.Sprintf("?%T:%v", v, v)
}

// tooFar says whether the value is an instant whose milliseconds overflow.
func tooFar(v types.Value) bool {
	t, ok := v.(types.Inst)
	if !ok {
		return false
	}
	// The least and greatest milliseconds are of these seconds.
	s, ms := time.Time(t).Unix(), time.Time(t).Nanosecond()/1e6
	switch {
	case s == math.MaxInt64/1000:
		return ms > 807
	case s == math.MinInt64/1000-1:
		return ms < 192
	}
	return s > math.MaxInt64/1000 || s < math.MinInt64/1000
}

// typeOf returns the attribute type of the value.
func typeOf(v types.Value) ID {
	switch v.(type) {
	case types.String:
		return sys.AttrTypeString
	case types.Int:
		return sys.AttrTypeInt
	case types.Bool:
		return sys.AttrTypeBool
	case types.Float:
		return sys.AttrTypeFloat
	case types.Inst:
		return sys.AttrTypeInst
	case types.ID:
		return sys.AttrTypeRef
	}
	return 0
}

// attr is an attribute, as defined by the datums of a state.
type attr struct {
	id     ID
	ident  string
	typ    ID
	unique ID
	many   bool
	hasCar bool
	card   ID
}

// State is a set of datums and what they mean.
type State struct {
	ds     []Datum // in (E, A, V) order
	canon  string
	ts     map[key]ID
	attrs  map[ID]*attr
	idents map[string]ID
	names  map[ID]string
	// uniq maps the values of unique attributes to their entities.
	uniq map[key]ID
	byE  map[ID][]Datum
	ids  map[ID]bool
}

func sortDatums(ds []Datum) {
	slices.SortFunc(ds, func(a, b Datum) int {
		return cmp.Or(cmp.Compare(a.E, b.E), cmp.Compare(a.A, b.A), cmp.Compare(vkey(a.V), vkey(b.V)), cmp.Compare(a.T, b.T))
	})
}

func canonical(ds []Datum) string {
	var b strings.Builder
	for _, d := range ds {
		b.WriteString(strconv.FormatUint(uint64(d.E), 36))
		b.WriteByte(' ')
		b.WriteString(strconv.FormatUint(uint64(d.A), 36))
		b.WriteByte(' ')
		b.WriteString(vkey(d.V))
		b.WriteByte(' ')
		b.WriteString(strconv.FormatUint(uint64(d.T), 36))
		b.WriteByte('\n')
	}
	return b.String()
}

func newState(ds []Datum) *State {
	ds = slices.Clone(ds)
	sortDatums(ds)
	return &State{ds: ds, canon: canonical(ds)}
}

// index works out what the datums mean.
func (s *State) index() {
	if s.ts != nil {
		return
	}
	s.ts = make(map[key]ID, len(s.ds))
	s.attrs = map[ID]*attr{}
	s.idents = map[string]ID{}
	s.names = map[ID]string{}
	s.uniq = map[key]ID{}
	s.byE = map[ID][]Datum{}
	for _, d := range s.ds {
		s.ts[key{d.E, d.A, vkey(d.V)}] = d.T
		s.byE[d.E] = append(s.byE[d.E], d)
		if d.A == sys.DbIdent {
			if v, ok := d.V.(types.String); ok {
				s.idents[string(v)] = d.E
				s.names[d.E] = string(v)
			}
		}
		if d.A == sys.AttrType {
			if v, ok := d.V.(types.ID); ok {
				s.attrs[d.E] = &attr{id: d.E, typ: v}
			}
		}
	}
	for _, d := range s.ds {
		at := s.attrs[d.E]
		if at == nil {
			continue
		}
		v, _ := d.V.(types.ID)
		switch d.A {
		case sys.DbIdent:
			at.ident = s.names[d.E]
		case sys.AttrUnique:
			at.unique = v
		case sys.AttrCardinality:
			at.hasCar = true
			at.card = v
			at.many = v == sys.AttrCardinalityMany
		}
	}
	for _, d := range s.ds {
		at := s.attrs[d.A]
		if at != nil && at.unique != 0 {
			s.uniq[key{0, d.A, vkey(d.V)}] = d.E
		}
	}
}

func (s *State) has(e, a ID, v string) bool {
	_, ok := s.ts[key{e, a, v}]
	return ok
}

// one returns the first value of the entity's attribute.
func (s *State) values(e, a ID) (vs []Datum) {
	for _, d := range s.byE[e] {
		if d.A == a {
			vs = append(vs, d)
		}
	}
	return
}

// lookup resolves a lookup ref.
func (s *State) lookup(ref types.LookupRef) (e ID, ok bool) {
	var a ID
	switch x := ref.A.(type) {
	case types.ID:
		a = x
	case types.Ident:
		a = s.idents[string(x)]
	case types.LookupRef:
		a, ok = s.lookup(x)
		if !ok {
			return 0, false
		}
	default:
		return 0, false
	}
	at := s.attrs[a]
	if at == nil || at.unique == 0 || ref.V == nil || typeOf(ref.V) != at.typ {
		return 0, false
	}
	e, ok = s.uniq[key{0, a, vkey(ref.V)}]
	return
}

// name describes an id.
func (s *State) name(id ID) string {
	if n, ok := s.names[id]; ok {
		return n
	}
	return strconv.FormatUint(uint64(id), 10)
}

func (s *State) show(d Datum) string {
	return fmt.Sprintf("[%d %s %s @%d]", d.E, s.name(d.A), vkey(d.V), d.T)
}

// diff describes how two states differ.
func diff(want, got *State) string {
	want.index()
	got.index()
	var b strings.Builder
	n := 0
	for _, d := range want.ds {
		t, ok := got.ts[key{d.E, d.A, vkey(d.V)}]
		if (!ok || t != d.T) && n < 6 {
			n++
			fmt.Fprintf(&b, " missing %s", want.show(d))
		}
	}
	for _, d := range got.ds {
		t, ok := want.ts[key{d.E, d.A, vkey(d.V)}]
		if (!ok || t != d.T) && n < 12 {
			n++
			fmt.Fprintf(&b, " extra %s", got.show(d))
		}
	}
	return b.String()
}

// Viol is a violation.
type Viol struct {
	Class string   `json:"class"`
	Props []string `json:"props"`
	Op    int      `json:"op"`
	Msg   string   `json:"msg"`
}

// invariants checks what must be true of every state.
func invariants(dump []Datum, s *State, base *State) (vs []Viol) {
	s.index()
	add := func(class, msg string, props ...string) {
		for _, v := range vs {
			if v.Class == class {
				return
			}
		}
		vs = append(vs, Viol{Class: class, Msg: msg, Props: props})
	}
	for i := 1; i < len(dump); i++ {
		a, b := dump[i-1], dump[i]
		if a.E > b.E || (a.E == b.E && a.A > b.A) {
			add("inv.order", fmt.Sprintf("a full scan yields %s before %s", s.show(a), s.show(b)), "C08")
		}
	}
	seen := map[key]bool{}
	uniq := map[key]ID{}
	type ea struct{ e, a ID }
	ones := map[ea]Datum{}
	for _, d := range s.ds {
		k := key{d.E, d.A, vkey(d.V)}
		if seen[k] {
			add("inv.dup", "a full scan yields "+s.show(d)+" twice", "C08", "C06", "C01")
		}
		seen[k] = true
		if d.E == 0 || d.T == 0 {
			add("inv.zero", "a datum has a zero id: "+s.show(d), "C14", "C07")
		}
		at := s.attrs[d.A]
		if at == nil {
			add("inv.attr", "the attribute of a datum has no type: "+s.show(d), "C14", "C10", "C09")
			continue
		}
		if typeOf(d.V) != at.typ {
			add("inv.type", "a value is not of its attribute's type: "+s.show(d), "C14")
		}
		if r, ok := d.V.(types.ID); ok && r == 0 {
			add("inv.ref", "a reference is zero: "+s.show(d), "C14", "C05")
		}
		if !at.many {
			o, ok := ones[ea{d.E, d.A}]
			if ok {
				add("inv.card", fmt.Sprintf("a cardinality one attribute has two values: %s and %s", s.show(o), s.show(d)), "C06")
			}
			ones[ea{d.E, d.A}] = d
		}
		if at.unique != 0 {
			uk := key{0, d.A, vkey(d.V)}
			e, ok := uniq[uk]
			if ok && e != d.E {
				props := []string{"C04"}
				if at.unique == sys.AttrUniqueIdentity {
					props = append(props, "C05")
				}
				if d.A == sys.DbIdent {
					props = append(props, "C09")
				}
				add("inv.unique", fmt.Sprintf("entities %d and %d both have the unique value %s of %s", e, d.E, vkey(d.V), s.name(d.A)), props...)
			}
			uniq[uk] = d.E
		}
	}
	for _, id := range sortedIDs(s.attrs) {
		at := s.attrs[id]
		if _, ok := s.names[at.id]; !ok {
			add("inv.attrident", fmt.Sprintf("attribute %d has no ident", at.id), "C09", "C10", "C11")
		}
		if !validType(at.typ) {
			add("inv.attrtype", fmt.Sprintf("attribute %s has the invalid type %d", s.name(at.id), at.typ), "C10", "C14")
		}
		if at.unique != 0 && at.unique != sys.AttrUniqueIdentity && at.unique != sys.AttrUniqueValue {
			add("inv.attrunique", fmt.Sprintf("attribute %s has the invalid uniqueness %d", s.name(at.id), at.unique), "C10", "C14")
		}
		if at.hasCar && at.card != sys.AttrCardinalityOne && at.card != sys.AttrCardinalityMany {
			add("inv.attrcard", fmt.Sprintf("attribute %s has the invalid cardinality %d", s.name(at.id), at.card), "C10", "C14")
		}
	}
	if base != nil {
		base.index()
		for _, d := range base.ds {
			t, ok := s.ts[key{d.E, d.A, vkey(d.V)}]
			if !ok || t != d.T {
				add("inv.sys", "the system datum "+base.show(d)+" is gone", "C10", "C11")
			}
		}
		for _, d := range s.ds {
			if d.E < sys.FirstUserID {
				if _, ok := base.ts[key{d.E, d.A, vkey(d.V)}]; !ok {
					add("inv.sys", "there is a novel datum about a system entity: "+s.show(d), "C10")
				}
			}
			if d.A == sys.DbIdent && d.E >= sys.FirstUserID && strings.HasPrefix(vkey(d.V), "s:sys/") {
				add("inv.sysident", "a user entity has a reserved ident: "+s.show(d), "C10")
			}
		}
	}
	return
}

func validType(id ID) bool {
	switch id {
	case sys.AttrTypeRef, sys.AttrTypeString, sys.AttrTypeInt, sys.AttrTypeBool, sys.AttrTypeInst, sys.AttrTypeFloat:
		return true
	}
	return false
}

func sortedIDs[V any](m map[ID]V) []ID {
	ids := make([]ID, 0, len(m))
	for id := range m {
		ids = append(ids, id)
	}
	slices.Sort(ids)
	return ids
}
