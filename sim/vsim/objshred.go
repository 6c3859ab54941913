package main

import (
	"cmp"
	"fmt"
	"reflect"
	"slices"
	"strconv"
	"time"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// This is a reference for what the structs of a request mean: which attributes they declare, and
// which claims and retractions they make.

// shredded is what the structs of a request mean.
type shredded struct {
	schema types.Request
	data   types.Request
	tops   []types.ERef // the entities of the assertions
	bad    string       // why the request must be rejected
	props  []string
	open   string // why it may be
	// plain says whether the assertions have no ids.
	plain bool
	// types are those of the entities
	size int
}

type refShredder struct {
	*shredded
	ptrs map[[2]uintptr]types.ERef
	n    int
}

func (m *shredded) reject(why string, props ...string) {
	if m.bad == "" {
		m.bad = why
		m.props = append(props, "C16", "C17")
	}
}

func shred(assertions, retractions []any) *shredded {
	s := &refShredder{shredded: &shredded{plain: true}, ptrs: map[[2]uintptr]types.ERef{}}
	for i, x := range assertions {
		v, t := s.structOf(x)
		if t == nil {
			s.reject("assertion of "+fmt.Sprintf("%T", x), "C12")
			return s.shredded
		}
		s.declare(i, t)
		s.tops = append(s.tops, s.assert(v, s.ptrOf(x)))
	}
	for _, x := range retractions {
		v, t := s.structOf(x)
		if t == nil {
			s.reject("retraction of "+fmt.Sprintf("%T", x), "C12", "C11")
			return s.shredded
		}
		s.retract(v, t)
	}
	return s.shredded
}

func (s *refShredder) ptrOf(x any) uintptr {
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Pointer {
		return v.Pointer()
	}
	return 0
}

func (s *refShredder) structOf(x any) (v reflect.Value, t *objType) {
	v = reflect.ValueOf(x)
	if !v.IsValid() {
		return
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	t = objByType[v.Type()]
	return
}

// declare makes the claims of the attributes of the type and of those it refers to.
func (s *refShredder) declare(i int, t *objType) {
	if t.bad != "" {
		s.reject("type " + t.name + " is invalid: " + t.bad)
		return
	}
	done := map[*objType]bool{t: true}
	todo := []*objType{t}
	claim := func(e types.TempID, a ID, v types.VRef) {
		s.schema.Claims = append(s.schema.Claims, types.Claim{E: e, A: a, V: v})
	}
	n := 0
	attr := func(ident string, typ ID, unique ID, many bool) {
		n++
		e := types.TempID(fmt.Sprintf("schema/%d/%d", i, n))
		claim(e, sys.DbIdent, types.String(ident))
		claim(e, sys.AttrType, typ)
		if unique != 0 {
			claim(e, sys.AttrUnique, unique)
		}
		if many {
			claim(e, sys.AttrCardinality, sys.AttrCardinalityMany)
		}
	}
	for len(todo) > 0 {
		t := todo[0]
		todo = todo[1:]
		for j := range t.fields {
			f := &t.fields[j]
			if f.isID {
				continue
			}
			elem := f.typ
			if elem.Kind() == reflect.Pointer {
				elem = elem.Elem()
			}
			typ := attrTypes[scalarKind(elem)]
			var unique ID
			switch {
			case f.identity:
				unique = sys.AttrUniqueIdentity
			case f.unique:
				unique = sys.AttrUniqueValue
			}
			many := f.typ.Kind() == reflect.Slice || f.typ.Kind() == reflect.Map
			attr(f.ident, typ, unique, many)
			if f.value != "" {
				attr(f.value, attrTypes[scalarKind(f.typ.Elem())], 0, false)
			}
			if r := f.refType(); r != nil && !done[objByType[r]] {
				done[objByType[r]] = true
				todo = append(todo, objByType[r])
			}
		}
	}
}

var attrTypes = map[byte]ID{0: sys.AttrTypeRef, 's': sys.AttrTypeString, 'i': sys.AttrTypeInt, 'f': sys.AttrTypeFloat, 'b': sys.AttrTypeBool, 'n': sys.AttrTypeInst}

func scalarOf(v reflect.Value) types.VRef {
	switch scalarKind(v.Type()) {
	case 's':
		return types.String(v.String())
	case 'i':
		return types.Int(v.Int())
	case 'f':
		return types.Float(v.Float())
	case 'b':
		return types.Bool(v.Bool())
	}
	return types.Inst(v.Interface().(time.Time))
}

func (s *refShredder) temp() types.TempID {
	s.n++
	return types.TempID(strconv.Itoa(s.n))
}

// assert makes the claims of a struct, and returns its entity.
func (s *refShredder) assert(v reflect.Value, ptr uintptr) types.ERef {
	t := objByType[v.Type()]
	k := [2]uintptr{ptr, reflect.ValueOf(v.Type()).Pointer()}
	if ptr != 0 {
		if e, ok := s.ptrs[k]; ok {
			return e
		}
	}
	if t.bad != "" {
		s.reject("type " + t.name + " is invalid: " + t.bad)
		return s.temp()
	}
	var e types.ERef = s.temp()
	s.size++
	for i := range t.fields {
		if t.fields[i].isID {
			if id := v.Field(t.fields[i].i).Uint(); id != 0 {
				e = types.ID(id)
				s.plain = false
			}
		}
	}
	if ptr != 0 {
		s.ptrs[k] = e
	}
	claim := func(e types.ERef, a string, x types.VRef) {
		s.data.Claims = append(s.data.Claims, types.Claim{E: e, A: types.Ident(a), V: x})
	}
	for i := range t.fields {
		f := &t.fields[i]
		if f.isID {
			continue
		}
		x := v.Field(f.i)
		switch x.Kind() {
		case reflect.Slice:
			for j := range x.Len() {
				el := x.Index(j)
				if f.value != "" {
					c := s.temp()
					claim(e, f.ident, c)
					claim(c, "sys/db/rank", types.Int(j))
					claim(c, f.value, scalarOf(el))
					continue
				}
				before := len(s.data.Claims)
				c := s.assert(el, 0)
				if len(s.data.Claims) == before && s.open == "" {
					s.open = "element without values in a slice"
				}
				claim(e, f.ident, c.(types.VRef))
				claim(c, "sys/db/rank", types.Int(j))
			}
			continue
		case reflect.Map:
			for _, key := range sortedMapKeys(x) {
				el := x.MapIndex(key)
				var p uintptr
				if el.Kind() == reflect.Pointer {
					if el.IsNil() {
						s.reject("nil in a map", "C12")
						continue
					}
					p = el.Pointer()
					el = el.Elem()
				}
				claim(e, f.ident, s.assert(el, p).(types.VRef))
			}
			continue
		case reflect.Pointer:
			if x.IsNil() {
				continue
			}
			if f.refType() != nil {
				claim(e, f.ident, s.assert(x.Elem(), x.Pointer()).(types.VRef))
				continue
			}
			x = x.Elem()
		case reflect.Struct:
			if f.refType() != nil {
				claim(e, f.ident, s.assert(x, 0).(types.VRef))
				continue
			}
		}
		if f.ignoreEmpty && isEmpty(x) {
			continue
		}
		claim(e, f.ident, scalarOf(x))
	}
	return e
}

func isEmpty(x reflect.Value) bool {
	if x.Type() == timeType {
		return x.Interface().(time.Time).IsZero()
	}
	if x.Kind() == reflect.Float64 {
		return x.Float() == 0
	}
	return x.IsZero()
}

// retract makes the retraction of a struct.
func (s *refShredder) retract(v reflect.Value, t *objType) {
	if t.bad != "" {
		// Only its own tags matter.
		s.reject("type " + t.name + " is invalid: " + t.bad)
		return
	}
	r := types.Retraction{Constraints: map[types.IDRef]types.Void{}}
	for i := range t.fields {
		f := &t.fields[i]
		x := v.Field(f.i)
		if f.isID {
			if x.Uint() != 0 {
				r.Constraints[types.ID(x.Uint())] = types.Void{}
			}
			continue
		}
		if !f.identity && !f.unique {
			continue
		}
		if x.Kind() == reflect.Pointer {
			if x.IsNil() {
				continue
			}
			x = x.Elem()
		}
		if scalarKind(x.Type()) == 0 || (f.ignoreEmpty && isEmpty(x)) {
			continue
		}
		value, _ := scalarOf(x).(types.Value)
		r.Constraints[types.LookupRef{A: types.Ident(f.ident), V: value}] = types.Void{}
	}
	if len(r.Constraints) == 0 {
		s.reject("retraction of nothing", "C11")
		return
	}
	s.data.Retractions = append(s.data.Retractions, r)
}

func sortedMapKeys(m reflect.Value) []reflect.Value {
	var keys []reflect.Value
	for it := m.MapRange(); it.Next(); {
		keys = append(keys, it.Key())
	}
	slices.SortFunc(keys, func(a, b reflect.Value) int {
		switch a.Kind() {
		case reflect.String:
			return cmp.Compare(a.String(), b.String())
		case reflect.Int:
			return cmp.Compare(a.Int(), b.Int())
		case reflect.Uint64:
			return cmp.Compare(a.Uint(), b.Uint())
		case reflect.Float64:
			return cmp.Compare(a.Float(), b.Float())
		case reflect.Bool:
			return cmp.Compare(fmt.Sprint(a.Bool()), fmt.Sprint(b.Bool()))
		case reflect.Struct:
			x, y := a.Interface().(time.Time), b.Interface().(time.Time)
			return cmp.Or(x.Compare(y), cmp.Compare(x.Location().String(), y.Location().String()))
		}
		return 0
	})
	return keys
}
