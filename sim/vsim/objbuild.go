package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// Obj is a symbolic struct.
type Obj struct {
	T string `json:"t"`
	// P is the identity of the pointer by which the struct is given, or 0. Those from sharedP are
	// shared by all of the operations.
	P int `json:"p,omitempty"`
	// Raw is an odd argument.
	Raw string `json:"raw,omitempty"`
	// ID is the name of the slot of the struct's id, or "#" and a number.
	ID string `json:"id,omitempty"`
	// Slot is where to save the id.
	Slot string `json:"slot,omitempty"`
	// F are the fields which have values.
	F map[string]*Val `json:"f,omitempty"`
}

// Val is a symbolic value of a field.
type Val struct {
	S *string `json:"s,omitempty"`
	O *Obj    `json:"o,omitempty"`
	L []*Val  `json:"l,omitempty"`
}

const sharedP = 1000

// builder builds structs.
type builder struct {
	e      *env
	ptrs   map[int]reflect.Value
	shared bool // whether to use the shared structs
}

func (b *builder) raw(kind string) any {
	switch kind {
	case "nil":
		return nil
	case "int":
		return 42
	case "string":
		return "person"
	case "slice":
		return []Person{{Name: "a"}}
	case "map":
		return map[string]any{"person/name": "a"}
	case "nilptr":
		return (*Person)(nil)
	case "ptrptr":
		p := &Person{Name: "a"}
		return &p
	case "ptrint":
		n := 42
		return &n
	case "func":
		return func() {}
	}
	panic("vsim: unknown argument " + kind)
}

// arg builds an argument of a request.
func (b *builder) arg(o *Obj) any {
	if o.Raw != "" {
		return b.raw(o.Raw)
	}
	t := objTypes[o.T].typ
	if o.P != 0 {
		return b.pointer(t, o).Interface()
	}
	v := reflect.New(t).Elem()
	b.fill(v, o)
	return v.Interface()
}

func (b *builder) pointer(t reflect.Type, o *Obj) reflect.Value {
	if o.P >= sharedP {
		if b.shared {
			if v, ok := b.e.obj.shared[o.P]; ok && v.Type().Elem() == t {
				return v
			}
		}
		if d, ok := b.e.obj.defs[o.P]; ok {
			o = d
		}
	}
	if o.P != 0 {
		if v, ok := b.ptrs[o.P]; ok && v.Type().Elem() == t {
			return v
		}
	}
	v := reflect.New(t)
	if o.P != 0 {
		b.ptrs[o.P] = v
	}
	if o.T == objByType[t].name {
		b.fill(v.Elem(), o)
	}
	return v
}

func (b *builder) fill(v reflect.Value, o *Obj) {
	t := objByType[v.Type()]
	for i := range t.fields {
		f := &t.fields[i]
		if f.isID {
			if f.typ.Kind() == reflect.Uint64 {
				v.Field(f.i).SetUint(b.id(o.ID))
			}
			continue
		}
		x := o.F[f.name]
		if x == nil {
			continue
		}
		b.set(v.Field(f.i), f, x)
	}
}

func (b *builder) id(name string) uint64 {
	switch {
	case name == "":
		return 0
	case name[0] == '#':
		n, err := strconv.ParseUint(name[1:], 10, 64)
		must(err)
		return n
	}
	return uint64(b.e.slot(name))
}

func (b *builder) set(v reflect.Value, f *ofield, x *Val) {
	t := v.Type()
	switch {
	case scalarKind(t) != 0:
		setScalar(v, x)
	case t.Kind() == reflect.Pointer && scalarKind(t.Elem()) != 0:
		p := reflect.New(t.Elem())
		setScalar(p.Elem(), x)
		v.Set(p)
	case t.Kind() == reflect.Pointer && t.Elem().Kind() == reflect.Struct:
		if x.O != nil {
			v.Set(b.pointer(t.Elem(), x.O))
		}
	case t.Kind() == reflect.Struct:
		if x.O != nil {
			b.fill(v, x.O)
		}
	case t.Kind() == reflect.Slice:
		s := reflect.MakeSlice(t, 0, len(x.L)+1)
		for _, y := range x.L {
			el := reflect.New(t.Elem()).Elem()
			b.set(el, f, y)
			s = reflect.Append(s, el)
		}
		v.Set(s)
	case t.Kind() == reflect.Map:
		m := reflect.MakeMap(t)
		for i, y := range x.L {
			el := reflect.New(t.Elem()).Elem()
			b.set(el, f, y)
			key := reflect.New(t.Key()).Elem()
			b.mapKey(key, f, el, y, i)
			if key.Equal(key) {
				m.SetMapIndex(key, el)
			}
		}
		v.Set(m)
	}
}

// mapKey finds the key of a map entry, which is the value of a field of the entry.
func (b *builder) mapKey(key reflect.Value, f *ofield, el reflect.Value, y *Val, i int) {
	if el.Kind() == reflect.Pointer {
		if el.IsNil() {
			return
		}
		el = el.Elem()
	}
	if f.key == "sys/db/id" {
		if key.Kind() == reflect.Uint64 {
			key.SetUint(uint64(i + 1))
		}
		return
	}
	t := objByType[el.Type()]
	if t == nil {
		return
	}
	for j := range t.fields {
		if t.fields[j].ident == f.key {
			x := el.Field(t.fields[j].i)
			if x.Kind() == reflect.Pointer {
				x = x.Elem()
			}
			if x.IsValid() && x.CanConvert(key.Type()) {
				key.Set(x.Convert(key.Type()))
			}
		}
	}
}

func setScalar(v reflect.Value, x *Val) {
	if x.S == nil {
		return
	}
	s := *x.S
	switch scalarKind(v.Type()) {
	case 's':
		v.SetString(parseString(s))
	case 'i':
		n, err := strconv.ParseInt(s, 10, 64)
		must(err)
		v.SetInt(n)
	case 'f':
		v.SetFloat(parseFloat(s))
	case 'b':
		v.SetBool(s == "true")
	case 'n':
		v.Set(reflect.ValueOf(parseInst(s)))
	}
}

func slotsOfObj(o *Obj, add func(string)) {
	if o == nil {
		return
	}
	if o.ID != "" && o.ID[0] != '#' {
		add(o.ID)
	}
	if o.Slot != "" {
		add(o.Slot)
	}
	for _, k := range sortedKeys(o.F) {
		eachVal(o.F[k], func(p *Obj) { slotsOfObj(p, add) })
	}
}

// eachVal visits the objects directly within a value.
func eachVal(v *Val, f func(o *Obj)) {
	if v == nil {
		return
	}
	if v.O != nil {
		f(v.O)
	}
	for _, x := range v.L {
		eachVal(x, f)
	}
}

func eachObj(o *Obj, f func(o *Obj)) {
	if o == nil {
		return
	}
	f(o)
	for _, k := range sortedKeys(o.F) {
		eachVal(o.F[k], func(p *Obj) { eachObj(p, f) })
	}
}

// sameScalar compares scalars as the database would.
func sameScalar(a, b reflect.Value, exact bool) bool {
	switch scalarKind(a.Type()) {
	case 's':
		return a.String() == b.String()
	case 'i':
		return a.Int() == b.Int()
	case 'f':
		x, y := a.Float(), b.Float()
		if math.IsNaN(x) || math.IsNaN(y) {
			return math.IsNaN(x) && math.IsNaN(y)
		}
		return x == y
	case 'b':
		return a.Bool() == b.Bool()
	case 'n':
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if exact {
			return x == y
		}
		return x.UnixMilli() == y.UnixMilli()
	}
	panic("vsim: not a scalar")
}

// comparer compares structs given to what is found.
type comparer struct {
	exact bool // whether ids and times must be exactly the same, and nil as well
	seen  map[[2]uintptr]bool
	// alias maps the pointers of one to those of the other.
	alias, back map[uintptr]uintptr
}

func newComparer(exact bool) *comparer {
	return &comparer{exact: exact, seen: map[[2]uintptr]bool{}, alias: map[uintptr]uintptr{}, back: map[uintptr]uintptr{}}
}

// diff returns how the values differ, or "".
func (c *comparer) diff(a, b reflect.Value, f *ofield) string {
	if a.IsValid() != b.IsValid() {
		return "only one is nil"
	}
	if !a.IsValid() {
		return ""
	}
	t := a.Type()
	if t != b.Type() {
		return fmt.Sprintf("types %s and %s", t, b.Type())
	}
	switch {
	case scalarKind(t) != 0:
		if !sameScalar(a, b, c.exact) {
			return fmt.Sprintf("%v is not %v", a.Interface(), b.Interface())
		}
		return ""
	case t.Kind() == reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() == b.IsNil() {
				return ""
			}
			if f != nil && f.ignoreEmpty && !a.IsNil() && scalarKind(t.Elem()) != 0 && !c.exact && a.Elem().IsZero() {
				return ""
			}
			return "only one is nil"
		}
		k := [2]uintptr{a.Pointer(), b.Pointer()}
		if t.Elem().Kind() == reflect.Struct && t.Elem() != timeType {
			if c.seen[k] {
				return ""
			}
			c.seen[k] = true
		}
		return c.diff(a.Elem(), b.Elem(), nil)
	case t.Kind() == reflect.Struct:
		ot := objByType[t]
		if ot == nil {
			return ""
		}
		for i := range ot.fields {
			g := &ot.fields[i]
			x, y := a.Field(g.i), b.Field(g.i)
			if g.isID {
				if g.typ.Kind() == reflect.Uint64 && x.Uint() != 0 && x.Uint() != y.Uint() {
					return fmt.Sprintf("%s: %d is not %d", g.name, x.Uint(), y.Uint())
				}
				continue
			}
			if msg := c.diff(x, y, g); msg != "" {
				return g.name + ": " + msg
			}
		}
		return ""
	case t.Kind() == reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("length %d is not %d", a.Len(), b.Len())
		}
		for i := range a.Len() {
			if msg := c.diff(a.Index(i), b.Index(i), nil); msg != "" {
				return fmt.Sprintf("[%d]: %s", i, msg)
			}
		}
		return ""
	case t.Kind() == reflect.Map:
		if f != nil && f.key == "sys/db/id" && !c.exact {
			// The keys that were given do not matter.
			if n := distinct(a); n != b.Len() {
				return fmt.Sprintf("%d entities are not %d", n, b.Len())
			}
			return ""
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("length %d is not %d", a.Len(), b.Len())
		}
		if a.Len() == 0 {
			return ""
		}
		k := [2]uintptr{a.Pointer(), b.Pointer()}
		if c.seen[k] {
			return ""
		}
		c.seen[k] = true
		for it := a.MapRange(); it.Next(); {
			y := b.MapIndex(it.Key())
			if t.Key() == timeType {
				for jt := b.MapRange(); jt.Next(); {
					if sameScalar(it.Key(), jt.Key(), c.exact) {
						y = jt.Value()
					}
				}
			}
			if !y.IsValid() {
				return fmt.Sprintf("no entry for %v", it.Key())
			}
			if msg := c.diff(it.Value(), y, nil); msg != "" {
				return fmt.Sprintf("[%v]: %s", it.Key(), msg)
			}
		}
		return ""
	}
	return ""
}

// distinct counts the distinct pointers in a map, or its entries.
func distinct(m reflect.Value) int {
	if m.Type().Elem().Kind() != reflect.Pointer {
		return m.Len()
	}
	seen := map[uintptr]bool{}
	for it := m.MapRange(); it.Next(); {
		seen[it.Value().Pointer()] = true
	}
	return len(seen)
}

// scribbler writes over everything that can be reached from a struct.
type scribbler struct {
	keep map[uintptr]bool
	seen map[uintptr]bool
}

func (s *scribbler) value(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			s.value(v.Elem())
		}
	case reflect.Pointer:
		if v.IsNil() || s.keep[v.Pointer()] || s.seen[v.Pointer()] {
			return
		}
		s.seen[v.Pointer()] = true
		s.value(v.Elem())
	case reflect.Struct:
		if v.Type() == timeType {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(77, 0)))
			}
			return
		}
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				s.value(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.Len() > 0 && v.Type().Elem().Kind() == reflect.Struct {
			if s.seen[v.Pointer()+1] {
				return
			}
			s.seen[v.Pointer()+1] = true
		}
		for i := range v.Len() {
			s.value(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() || s.seen[v.Pointer()] {
			return
		}
		s.seen[v.Pointer()] = true
		var keys []reflect.Value
		for it := v.MapRange(); it.Next(); {
			keys = append(keys, it.Key())
			if it.Value().Kind() == reflect.Pointer {
				s.value(it.Value())
			}
		}
		for _, k := range keys {
			v.SetMapIndex(k, reflect.Value{})
		}
		k := reflect.New(v.Type().Key()).Elem()
		s.value(k)
		v.SetMapIndex(k, reflect.New(v.Type().Elem()).Elem())
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribble")
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(7777)
		}
	case reflect.Uint64:
		if v.CanSet() {
			v.SetUint(7777)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(77.77)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

// showObj describes a struct.
func showObj(x any) string {
	var b strings.Builder
	show(&b, reflect.ValueOf(x), map[uintptr]bool{})
	return b.String()
}

func show(b *strings.Builder, v reflect.Value, seen map[uintptr]bool) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Elem().Kind() == reflect.Struct && v.Elem().Type() != timeType {
			if seen[v.Pointer()] {
				b.WriteString("&...")
				return
			}
			seen[v.Pointer()] = true
		}
		b.WriteString("&")
		show(b, v.Elem(), seen)
	case reflect.Struct:
		if v.Type() == timeType {
			fmt.Fprint(b, v.Interface().(time.Time).UnixMilli())
			return
		}
		b.WriteString(v.Type().Name() + "{")
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() && !v.Field(i).IsZero() {
				b.WriteString(v.Type().Field(i).Name + ":")
				show(b, v.Field(i), seen)
				b.WriteString(" ")
			}
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.Len() > 0 && v.Type().Elem().Kind() == reflect.Struct {
			// A slice may be within its own elements.
			if seen[v.Pointer()+1] {
				b.WriteString("[...]")
				return
			}
			seen[v.Pointer()+1] = true
		}
		b.WriteString("[")
		for i := range v.Len() {
			show(b, v.Index(i), seen)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Map:
		if v.Len() > 0 && seen[v.Pointer()] {
			b.WriteString("map...")
			return
		}
		seen[v.Pointer()] = true
		b.WriteString("map[")
		for _, k := range sortedMapKeys(v) {
			fmt.Fprintf(b, "%v:", k)
			show(b, v.MapIndex(k), seen)
			b.WriteString(" ")
		}
		b.WriteString("]")
	default:
		s := fmt.Sprint(v)
		if len(s) > 100 {
			s = s[:100] + "..."
		}
		b.WriteString(strings.ToValidUTF8(s, "?"))
	}
}
