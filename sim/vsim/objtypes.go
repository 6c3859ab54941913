package main

import (
	"reflect"
	"sort"
	"strings"
	"time"

	pub "github.com/dball/destructive/pkg/database"
)

// These are the struct types of the struct domain. Between them they use every supported kind
// of field.

type Label string
type Count int

// Person has an identity and references to its own type.
type Person struct {
	Note  string
	ID    uint64  `attr:"sys/db/id"`
	Name  string  `attr:"person/name,identity"`
	Nick  *string `attr:"person/nick"`
	Age   int     `attr:"person/age,ignoreempty"`
	Badge *int    `attr:"person/badge,unique"`
	Boss  *Person `attr:"person/boss"`
}

// PersonView overlaps with Person.
type PersonView struct {
	ID    uint64  `attr:"sys/db/id"`
	Name  string  `attr:"person/name,identity"`
	Age   *int    `attr:"person/age"`
	Title *string `attr:"person/title,ignoreempty"`
}

// PersonBoss overlaps with Person, and sees the referent as another type.
type PersonBoss struct {
	Boss *PersonView `attr:"person/boss"`
	ID   uint64      `attr:"sys/db/id"`
	Nick Label       `attr:"person/nick,ignoreempty"`
}

// Vitals has every kind of scalar.
type Vitals struct {
	ID uint64     `attr:"sys/db/id"`
	S  string     `attr:"vitals/s"`
	I  int        `attr:"vitals/i"`
	F  float64    `attr:"vitals/f"`
	B  bool       `attr:"vitals/b"`
	T  time.Time  `attr:"vitals/t"`
	PS *string    `attr:"vitals/ps"`
	PI *int       `attr:"vitals/pi"`
	PF *float64   `attr:"vitals/pf"`
	PB *bool      `attr:"vitals/pb"`
	PT *time.Time `attr:"vitals/pt"`
}

// VitalsOpt overlaps with Vitals, and has optional values of other go types.
type VitalsOpt struct {
	ID  uint64    `attr:"sys/db/id"`
	S   Label     `attr:"vitals/s,ignoreempty"`
	I   Count     `attr:"vitals/i,ignoreempty"`
	F   float64   `attr:"vitals/f,ignoreempty"`
	B   bool      `attr:"vitals/b,ignoreempty"`
	T   time.Time `attr:"vitals/t,ignoreempty"`
	PS  *Label    `attr:"vitals/ps,ignoreempty"`
	PI  *Count    `attr:"vitals/pi,ignoreempty"`
	ISN string
}

// Node may be cyclic.
type Node struct {
	ID   uint64 `attr:"sys/db/id"`
	Key  string `attr:"node/key,identity"`
	Next *Node  `attr:"node/next"`
	Prev *Node  `attr:"node/prev"`
}

// Anon may be cyclic, and has no identity.
type Anon struct {
	Tag *string `attr:"anon/tag"`
	A   *Anon   `attr:"anon/a"`
	B   *Anon   `attr:"anon/b"`
	N   int     `attr:"anon/n"`
}

// Point is used by value.
type Point struct {
	X int      `attr:"point/x"`
	Y *float64 `attr:"point/y"`
}

// Box nests by value.
type Box struct {
	Corner Point   `attr:"box/corner"`
	Name   *string `attr:"box/name"`
}

// Pair nests by value and by pointer.
type Pair struct {
	ID    uint64 `attr:"sys/db/id"`
	Left  Point  `attr:"pair/left"`
	Right Point  `attr:"pair/right"`
	Mid   *Point `attr:"pair/mid"`
	Deep  Box    `attr:"pair/deep"`
}

// Shape has slices.
type Shape struct {
	ID     uint64      `attr:"sys/db/id"`
	Tag    *string     `attr:"shape/tag,identity"`
	Points []Point     `attr:"shape/points"`
	Names  []string    `attr:"shape/names,value=shape/name"`
	Nums   []int       `attr:"shape/nums,value=shape/num"`
	Floats []float64   `attr:"shape/floats,value=shape/float"`
	Bools  []bool      `attr:"shape/bools,value=shape/bool"`
	Times  []time.Time `attr:"shape/times,value=shape/time"`
	Labels []Label     `attr:"shape/labels,value=shape/label"`
}

// Album has slices of structs with identities and nested collections.
type Album struct {
	Name   string          `attr:"album/name,identity"`
	Tracks []Track         `attr:"album/tracks"`
	Best   *Track          `attr:"album/best"`
	Index  map[Label]Track `attr:"album/index,key=track/title"`
}

// Track has slices within slices.
type Track struct {
	Title string   `attr:"track/title,identity"`
	Takes []int    `attr:"track/takes,value=track/take"`
	Cover *Point   `attr:"track/cover"`
	Mark  Point    `attr:"track/mark"`
	Tags  []string `attr:"track/tags,value=track/tag"`
}

// Library has maps.
type Library struct {
	ID    uint64           `attr:"sys/db/id"`
	City  string           `attr:"library/city,identity"`
	Books map[string]Book  `attr:"library/books,key=book/title"`
	Shelf map[int]*Book    `attr:"library/shelf,key=book/number"`
	Loans map[uint64]*Book `attr:"library/loans"`
}

// Book is in maps by value and by pointer.
type Book struct {
	Title  string   `attr:"book/title,identity"`
	Number int      `attr:"book/number,unique"`
	Author *Person  `attr:"book/author"`
	Home   *Library `attr:"book/home"`
}

// BookView sees a book with its id.
type BookView struct {
	ID     uint64      `attr:"sys/db/id"`
	Number *int        `attr:"book/number,unique"`
	Author *PersonView `attr:"book/author"`
}

// Desk is keyed by an attribute that is not unique.
type Desk struct {
	Drawers map[int]Drawer `attr:"desk/drawers,key=drawer/slot"`
	Owner   Person         `attr:"desk/owner"`
}

type Drawer struct {
	Slot int     `attr:"drawer/slot"`
	What *string `attr:"drawer/what"`
	In   *Desk   `attr:"drawer/in"`
}

// Empty has no attributes.
type Empty struct{ X int }

// Spare has collections of values that may be empty.
type Spare struct {
	ID     uint64          `attr:"sys/db/id"`
	Names  []string        `attr:"spare/names,value=spare/name,ignoreempty"`
	Nums   []int           `attr:"spare/nums,ignoreempty,value=spare/num"`
	Bools  []Flag          `attr:"spare/bools,value=spare/bool,ignoreempty"`
	Points []Point         `attr:"shape/points,ignoreempty"`
	Books  map[string]Book `attr:"library/books,key=book/title,ignoreempty"`
	At     *Point          `attr:"spare/at,ignoreempty"`
}

type Flag bool
type Ratio float64

// Named has values of named types.
type Named struct {
	B  Flag             `attr:"vitals/b"`
	F  Ratio            `attr:"vitals/f,ignoreempty"`
	PB *Flag            `attr:"vitals/pb"`
	PF *Ratio           `attr:"vitals/pf"`
	S  *Label           `attr:"vitals/s"`
	Fs []Ratio          `attr:"shape/floats,value=shape/float"`
	By map[Label]*Track `attr:"album/index,key=track/title"`
}

// Diary has maps with all sorts of keys.
type Diary struct {
	ID    uint64            `attr:"sys/db/id"`
	Name  Label             `attr:"diary/name,identity"`
	Days  map[time.Time]Day `attr:"diary/days,key=day/date"`
	Moods map[bool]*Day     `attr:"diary/moods,key=day/good"`
	Temps map[Ratio]Day     `attr:"diary/temps,key=day/temp"`
	Ranks map[Count]*Day    `attr:"diary/ranks,key=day/rank"`
}

type Day struct {
	Date time.Time `attr:"day/date,unique"`
	Good bool      `attr:"day/good"`
	Temp *float64  `attr:"day/temp"`
	Rank int       `attr:"day/rank"`
	Prev *Day      `attr:"day/prev"`
}

// Coin is identified by numbers and the like.
type Coin struct {
	ID     uint64     `attr:"sys/db/id"`
	Weight *float64   `attr:"coin/weight,identity"`
	Minted *time.Time `attr:"coin/minted,identity"`
	Number *Count     `attr:"coin/number,identity"`
	Fake   *bool      `attr:"coin/fake,unique"`
	Face   string     `attr:"coin/face,ignoreempty"`
}

// Lock is identified by other entities.
type Lock struct {
	ID    uint64  `attr:"sys/db/id"`
	Owner *Person `attr:"lock/owner,identity"`
	Door  *Node   `attr:"lock/door,unique"`
	Code  int     `attr:"lock/code"`
	Keys  []Key   `attr:"lock/keys"`
}

type Key struct {
	Lock *Lock  `attr:"key/lock"`
	Coin *Coin  `attr:"key/coin,unique"`
	Cut  string `attr:"key/cut"`
}

// Tree is recursive by value.
type Tree struct {
	ID   uint64          `attr:"sys/db/id"`
	Name string          `attr:"tree/name"`
	Kids []Tree          `attr:"tree/kids"`
	Sub  map[string]Tree `attr:"tree/sub,key=tree/name"`
	Up   *Tree           `attr:"tree/up"`
}

// Nest nests structs that have identities by value, in several levels.
type Nest struct {
	ID    uint64 `attr:"sys/db/id"`
	Label string `attr:"nest/label"`
	Left  Twig   `attr:"nest/left"`
	Right Twig   `attr:"nest/right"`
	Egg   Egg    `attr:"nest/egg"`
	Twigs []Twig `attr:"nest/twigs"`
	Best  *Egg   `attr:"nest/best"`
	Spots []int  `attr:"nest/spots,value=nest/spot"`
}

type Twig struct {
	Name  *string        `attr:"twig/name,identity"`
	Small Egg            `attr:"twig/small"`
	Large Egg            `attr:"twig/large"`
	Eggs  map[string]Egg `attr:"twig/eggs,key=egg/name"`
}

// Link has one field, and may be cyclic.
type Link struct {
	To *Link `attr:"link/to"`
}

// Mono has one field.
type Mono struct {
	V *int `attr:"mono/v,unique"`
}

// Two refers to those which have one field.
type Two struct {
	A *Link         `attr:"two/a"`
	B *Mono         `attr:"two/b"`
	C *Mono         `attr:"two/c"`
	D Mono          `attr:"two/d"`
	E []Mono        `attr:"two/e"`
	F map[int]*Mono `attr:"two/f,key=mono/v"`
}

// Tagged may have no identity.
type Tagged struct {
	ID     uint64     `attr:"sys/db/id"`
	Code   string     `attr:"tagged/code,identity,ignoreempty"`
	Rate   *float64   `attr:"tagged/rate,ignoreempty,identity"`
	Mail   Label      `attr:"tagged/mail,unique,ignoreempty"`
	Serial int        `attr:"tagged/serial,ignoreempty,unique"`
	Since  *time.Time `attr:"tagged/since,unique,ignoreempty"`
	Like   *Tagged    `attr:"tagged/like,unique"`
	Egg    Egg        `attr:"tagged/egg,identity,ignoreempty"`
	Note   string     `attr:"tagged/note"`
}

// Alike has attributes whose idents are alike.
type Alike struct {
	ID    uint64   `attr:"sys/db/id"`
	Name  string   `attr:"alike/name,identity"`
	Upper *int     `attr:"Alike/name"`
	Inner float64  `attr:"alike/Name"`
	Less  []string `attr:"alike/nam,value=alike/na"`
	More  *string  `attr:"alike/name/more"`
	Name2 int      `attr:"alike/name2"`
	Space *Egg     `attr:"alike/names"`
}

type Egg struct {
	Name *string  `attr:"egg/name,identity"`
	Hue  *float64 `attr:"egg/hue"`
	Yolk *Point   `attr:"egg/yolk"`
}

// Shell embeds others.
type Shell struct {
	Point `attr:"shell/point"`
	*Node `attr:"shell/node"`
	Label `attr:"shell/label"`
	Anon
}

// Wrap is generic.
type Wrap[T any] struct {
	ID   uint64 `attr:"sys/db/id"`
	Tag  string `attr:"wrap/tag,identity"`
	Ref  *T     `attr:"wrap/ref"`
	Many []T    `attr:"wrap/many"`
}

// These have the same name, or none.

func regLocals() {
	{
		type Local struct {
			ID  uint64 `attr:"sys/db/id"`
			Key string `attr:"local/key,identity"`
			N   int    `attr:"local/n"`
		}
		regAs[Local]("Local1")
	}
	{
		type Local struct {
			Key string   `attr:"local/key,identity"`
			S   *string  `attr:"local/s"`
			F   *float64 `attr:"local/f,ignoreempty"`
		}
		regAs[Local]("Local2")
	}
	regAs[struct {
		N   *int   `attr:"local/n"`
		Key string `attr:"local/key,identity"`
		Ref *Point `attr:"local/ref"`
	}]("Local3")
	regAs[struct {
		ID  uint64  `attr:"sys/db/id"`
		Key Label   `attr:"local/key,identity"`
		Ref *Vitals `attr:"local/ref"`
	}]("Local4")
}

// These are not representable.

type BadSlice struct {
	OK string   `attr:"bad/ok"`
	Ps []*Point `attr:"bad/ps"`
}

type BadKind struct {
	OK string `attr:"bad/ok"`
	N  int64  `attr:"bad/n"`
}

type BadTag struct {
	OK string `attr:"bad/ok"`
	S  string `attr:"bad/s,bogus"`
}

type BadDup struct {
	OK string `attr:"bad/ok"`
	S  string `attr:"bad/s,identity,unique"`
}

type BadPtr struct {
	OK string `attr:"bad/ok"`
	P  **int  `attr:"bad/p"`
}

type BadDeep struct {
	OK string            `attr:"bad/ok"`
	M  map[string]BadTag `attr:"bad/m,key=bad/ok"`
}

type BadID struct {
	OK string `attr:"bad/ok"`
	ID string `attr:"sys/db/id"`
}

type BadHidden struct {
	OK   string    `attr:"bad/ok"`
	when time.Time `attr:"bad/when"`
}

// BadView would view what other types assert.
type BadView struct {
	ID     uint64           `attr:"sys/db/id"`
	Points []*Point         `attr:"shape/points"`
	Age    int64            `attr:"person/age"`
	Names  []Point          `attr:"shape/names"`
	Nums   [2]int           `attr:"shape/nums"`
	Next   **Node           `attr:"node/next"`
	Boss   any              `attr:"person/boss"`
	Books  map[string]int   `attr:"library/books,key=book/title"`
	Shelf  map[Point]Book   `attr:"library/shelf,key=book/number"`
	When   int              `attr:"vitals/t"`
	S      uint64           `attr:"vitals/s"`
	F      float32          `attr:"vitals/f"`
	Corner []string         `attr:"box/corner"`
	Loans  map[string]*Book `attr:"library/loans"`
}

// BadNarrow has values of other widths.
type BadNarrow struct {
	ID  uint64   `attr:"sys/db/id"`
	Age int8     `attr:"person/age"`
	F   float32  `attr:"vitals/f"`
	PI  *int32   `attr:"vitals/pi"`
	PF  *float32 `attr:"vitals/pf"`
}

// These are representable, but conflict with other types.

type ConfType struct {
	Fresh string `attr:"conf/fresh"`
	Age   string `attr:"person/age"`
}

type ConfCard struct {
	Fresh string `attr:"conf/card"`
	Nexts []Node `attr:"node/next"`
}

type ConfUniq struct {
	Fresh *int   `attr:"conf/uniq,unique"`
	S     string `attr:"vitals/s,identity"`
}

type ConfDeep struct {
	Fresh string    `attr:"conf/deep"`
	C     *ConfType `attr:"conf/c"`
}

type ConfSys struct {
	Fresh string `attr:"conf/sys"`
	Doc   string `attr:"sys/novel"`
}

type ConfReserved struct {
	Fresh string `attr:"conf/reserved"`
	Ident string `attr:"sys/db/ident,identity"`
}

// ConfClash has types which conflict with each other.
type ConfClash struct {
	Fresh string     `attr:"conf/clash"`
	L     *ConfLeft  `attr:"clash/left"`
	R     *ConfRight `attr:"clash/right"`
}

type ConfLeft struct {
	V string `attr:"clash/v"`
}

type ConfRight struct {
	V *int `attr:"clash/v"`
}

type ConfMany struct {
	Fresh *string     `attr:"conf/many"`
	Ls    []ConfLeft  `attr:"clash/lefts"`
	Vs    []ConfRight `attr:"clash/v"`
}

type ConfElem struct {
	Fresh string   `attr:"conf/elem"`
	Ss    []string `attr:"clash/ss,value=clash/v"`
	Is    []int    `attr:"clash/is,value=clash/v"`
}

type ConfUnit struct {
	Fresh string    `attr:"conf/unit"`
	V     int       `attr:"clash/u,unique"`
	L     *ConfUno  `attr:"clash/one"`
	R     *ConfElem `attr:"clash/elem"`
}

type ConfUno struct {
	V int `attr:"clash/u"`
}

// ConfTwice has one attribute twice.
type ConfTwice struct {
	A string `attr:"twice/s"`
	B string `attr:"twice/s"`
}

// objType is a registered type.
type objType struct {
	name   string
	typ    reflect.Type
	fields []ofield
	bad    string
	view   func(s *pub.Snapshot) (find func(id uint64) reflect.Value, err error)
}

// ofield is a field of a registered type according to its tag.
type ofield struct {
	i           int
	name        string
	ident       string
	isID        bool
	identity    bool
	unique      bool
	ignoreEmpty bool
	key         string
	value       string
	typ         reflect.Type
}

var objTypes = map[string]*objType{}
var objByType = map[reflect.Type]*objType{}

func reg[T any]() { regAs[T](reflect.TypeFor[T]().Name()) }

func regAs[T any](name string) {
	typ := reflect.TypeFor[T]()
	t := &objType{name: name, typ: typ}
	t.view = func(s *pub.Snapshot) (func(id uint64) reflect.Value, error) {
		ts, err := pub.BuildTypedSnapshot[T](s)
		if err != nil {
			return nil, err
		}
		return func(id uint64) reflect.Value {
			p := ts.Find(id)
			if p == nil {
				return reflect.Value{}
			}
			return reflect.ValueOf(p)
		}, nil
	}
	objTypes[t.name] = t
	objByType[typ] = t
}

var timeType = reflect.TypeFor[time.Time]()

// scalarKind returns the letter of a scalar's type, or 0.
func scalarKind(t reflect.Type) byte {
	switch t.Kind() {
	case reflect.String:
		return 's'
	case reflect.Int:
		return 'i'
	case reflect.Float64:
		return 'f'
	case reflect.Bool:
		return 'b'
	}
	if t == timeType {
		return 'n'
	}
	return 0
}

// fieldsOf reads the tags of a struct type.
func fieldsOf(t reflect.Type) (fs []ofield, bad string) {
	for i := range t.NumField() {
		sf := t.Field(i)
		tag, ok := sf.Tag.Lookup("attr")
		if !ok {
			continue
		}
		if !sf.IsExported() {
			bad = "unexported field " + sf.Name
			continue
		}
		parts := strings.Split(tag, ",")
		f := ofield{i: i, name: sf.Name, ident: parts[0], typ: sf.Type}
		for _, p := range parts[1:] {
			switch {
			case p == "identity" && !f.unique && !f.identity:
				f.identity = true
			case p == "unique" && !f.unique && !f.identity:
				f.unique = true
			case p == "ignoreempty":
				f.ignoreEmpty = true
			case strings.HasPrefix(p, "key="):
				f.key = p[4:]
			case strings.HasPrefix(p, "value="):
				f.value = p[6:]
			default:
				bad = "tag " + tag
			}
		}
		f.isID = f.ident == "sys/db/id"
		if f.isID {
			if f.typ.Kind() != reflect.Uint64 {
				bad = "id type " + f.typ.String()
			}
			fs = append(fs, f)
			continue
		}
		elem := f.typ
		switch f.typ.Kind() {
		case reflect.Pointer:
			elem = f.typ.Elem()
		case reflect.Map:
			elem = f.typ.Elem()
			if elem.Kind() == reflect.Pointer {
				elem = elem.Elem()
			}
			if f.key == "" {
				f.key = "sys/db/id"
			}
			if elem.Kind() != reflect.Struct {
				bad = "map of " + elem.String()
			}
		case reflect.Slice:
			elem = f.typ.Elem()
			if f.value == "" && (elem.Kind() != reflect.Struct || elem == timeType) {
				bad = "slice of " + elem.String()
			}
		}
		if scalarKind(elem) == 0 && elem.Kind() != reflect.Struct {
			bad = "type " + f.typ.String()
		}
		fs = append(fs, f)
	}
	return
}

// refType returns the struct type to which the field refers, or nil.
func (f *ofield) refType() reflect.Type {
	if f.isID {
		return nil
	}
	t := f.typ
	switch t.Kind() {
	case reflect.Map, reflect.Slice, reflect.Pointer:
		t = t.Elem()
		if t.Kind() == reflect.Pointer {
			t = t.Elem()
		}
	}
	if t.Kind() == reflect.Struct && t != timeType {
		return t
	}
	return nil
}

// goodTypes are the types that may be asserted, and badTypes those that may not.
var goodTypes, badTypes, confTypes []string

func init() {
	reg[Person]()
	reg[PersonView]()
	reg[PersonBoss]()
	reg[Vitals]()
	reg[VitalsOpt]()
	reg[Node]()
	reg[Anon]()
	reg[Point]()
	reg[Box]()
	reg[Pair]()
	reg[Shape]()
	reg[Album]()
	reg[Track]()
	reg[Library]()
	reg[Book]()
	reg[BookView]()
	reg[Desk]()
	reg[Drawer]()
	reg[Empty]()
	reg[Spare]()
	reg[Named]()
	reg[Diary]()
	reg[Day]()
	reg[Coin]()
	reg[Lock]()
	reg[Key]()
	reg[Tree]()
	reg[Nest]()
	reg[Twig]()
	reg[Egg]()
	reg[Tagged]()
	reg[Alike]()
	reg[Link]()
	reg[Mono]()
	reg[Two]()
	reg[Shell]()
	regAs[Wrap[Point]]("WrapPoint")
	regAs[Wrap[Node]]("WrapNode")
	regLocals()
	for name := range objTypes {
		goodTypes = append(goodTypes, name)
	}
	sort.Strings(goodTypes)
	reg[BadSlice]()
	reg[BadKind]()
	reg[BadTag]()
	reg[BadDup]()
	reg[BadPtr]()
	reg[BadDeep]()
	reg[BadID]()
	reg[BadHidden]()
	reg[BadView]()
	reg[BadNarrow]()
	reg[ConfType]()
	reg[ConfCard]()
	reg[ConfUniq]()
	reg[ConfDeep]()
	reg[ConfSys]()
	reg[ConfReserved]()
	reg[ConfClash]()
	reg[ConfLeft]()
	reg[ConfRight]()
	reg[ConfMany]()
	reg[ConfElem]()
	reg[ConfUnit]()
	reg[ConfUno]()
	reg[ConfTwice]()
	for name := range objTypes {
		switch name[:3] {
		case "Bad":
			badTypes = append(badTypes, name)
		case "Con":
			confTypes = append(confTypes, name)
		}
	}
	sort.Strings(badTypes)
	sort.Strings(confTypes)
	for _, t := range objTypes {
		t.fields, t.bad = fieldsOf(t.typ)
	}
	for changed := true; changed; {
		changed = false
		for _, t := range objTypes {
			for i := range t.fields {
				r := t.fields[i].refType()
				if r != nil && t.bad == "" && objByType[r].bad != "" {
					t.bad = objByType[r].bad
					changed = true
				}
			}
		}
	}
	seen := map[string]bool{}
	for _, names := range [][]string{goodTypes, confTypes, badTypes} {
		for _, name := range names {
			for _, f := range objTypes[name].fields {
				for _, ident := range []string{f.ident, f.value} {
					if ident != "" && !f.isID && !seen[ident] {
						seen[ident] = true
						objIdents = append(objIdents, ident)
					}
				}
			}
		}
	}
	identUniverse = append(identUniverse, objIdents...)
}

// objIdents are the idents of the attributes of the registered types.
var objIdents []string
