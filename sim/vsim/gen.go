package main

import (
	"slices"
	"strconv"
	"strings"

	zs "github.com/dball/destructive/internal/zsim/simrt"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// Profile biases the cases that are generated for a property.
type Profile struct {
	Obj     int // the percentage of cases in the struct domain
	Tasks   [4]int
	Long    int // the percentage of single task cases that are long
	Kinds   map[string]int
	Write   int
	Query   int
	Read    int
	Poison  int // the percentage of writes that are spoiled
	Mutate  int // the percentage of writes whose request is written over afterwards
	Nest    int // the percentage of queries that call the database while consuming
	Abandon int // the percentage of queries that are abandoned
	Probes  int
	Alt     bool
	Stall   int
	Mixed   int // the percentage of writes that combine several kinds
	Declare int // the percentage of cases which declare attributes in the tasks
}

var kinds = []string{"new", "upd", "upsert", "link", "uniq", "retclaim", "retent", "schema", "txn", "bulk"}

func base() Profile {
	return Profile{
		Tasks: [4]int{4, 3, 2, 1},
		Long:  25,
		Kinds: map[string]int{"new": 3, "upd": 3, "upsert": 3, "link": 2, "uniq": 2, "retclaim": 2, "retent": 2, "schema": 2, "txn": 1},
		Write: 6, Query: 3, Read: 2,
		Poison: 12, Mutate: 10, Nest: 5, Abandon: 25, Probes: 2, Stall: 10, Mixed: 30,
	}
}

// profileOf returns the profile of a property's check.
func profileOf(prop string) Profile {
	p := base()
	switch prop {
	case "any":
		// This looks for violations of every property.
		p.Obj = 45
		p.Poison = 25
		p.Mutate = 20
		p.Nest = 10
		p.Tasks = [4]int{5, 3, 2, 1}
		p.Probes = 6
	case "C01":
		p.Tasks = [4]int{3, 3, 3, 1}
		p.Query = 5
		p.Nest = 15
		p.Mutate = 20
		p.Kinds["retent"] = 4
		p.Kinds["schema"] = 4
		p.Obj = 15
	case "C02":
		p.Tasks = [4]int{0, 4, 4, 2}
		p.Read = 5
		p.Obj = 15
	case "C03":
		p.Probes = 6
		p.Poison = 45
		p.Mixed = 70
		p.Obj = 15
	case "C04":
		p.Kinds["uniq"] = 8
		p.Kinds["upsert"] = 6
		p.Kinds["retclaim"] = 4
		p.Obj = 15
	case "C05":
		p.Kinds["upsert"] = 10
		p.Kinds["link"] = 4
		p.Obj = 15
	case "C06":
		p.Kinds["upd"] = 8
		p.Kinds["retclaim"] = 4
		p.Obj = 10
	case "C07":
		p.Kinds["txn"] = 6
		p.Kinds["upd"] = 6
		p.Long = 50
	case "C08":
		p.Query = 8
		p.Probes = 24
		p.Tasks = [4]int{6, 2, 1, 1}
	case "C09":
		p.Kinds["schema"] = 10
		p.Query = 5
	case "C10":
		p.Kinds["schema"] = 12
		p.Poison = 30
		p.Obj = 15
	case "C11":
		p.Kinds["retclaim"] = 6
		p.Kinds["retent"] = 9
		p.Obj = 15
	case "C12":
		p.Tasks = [4]int{1, 4, 4, 2}
		p.Query = 6
		p.Poison = 25
		p.Nest = 10
		p.Obj = 35
		p.Kinds["schema"] = 4
	case "C13":
		p.Tasks = [4]int{1, 4, 4, 2}
		p.Query = 6
		p.Nest = 30
		p.Abandon = 60
		p.Stall = 40
		p.Obj = 20
	case "C14":
		p.Poison = 50
		p.Tasks = [4]int{8, 1, 1, 0}
		p.Obj = 10
	case "C15":
		p.Mutate = 70
		p.Mixed = 50
		p.Kinds["retent"] = 5
		p.Obj = 25
	case "C16", "C18":
		p.Obj = 100
	case "C17":
		p.Obj = 100
		p.Tasks = [4]int{3, 4, 3, 1}
	case "C19":
		p.Alt = true
		p.Tasks = [4]int{1, 0, 0, 0}
		p.Obj = 35
	}
	return p
}

// gen generates cases.
type gen struct {
	*zs.Rng
	p     Profile
	ops   int
	attrs []string // the attributes declared in the setup
	extra []string // others that may be declared later
	slots int
	swarm map[string]int
	// schemas says whether requests may have schemas.
	schemas bool
	held    bool            // whether there are sequences for the tasks to share
	rich    bool            // whether values come from a larger domain
	many    int             // how many entities there are for bulk requests
	huge    bool            // whether bulk requests are huge
	large   bool            // whether the case has any very large request
	ones    map[string]bool // the attributes whose cardinality is declared to be one
}

// genCase generates the case of a seed.
func genCase(prop string, seed uint64) *Case {
	g := &gen{Rng: zs.NewRng(seed), p: profileOf(prop)}
	for range 4 {
		g.U64()
	}
	c := &Case{
		Degree:  pickInt(g, 2, 2, 3, 4, 8, 32, 64),
		Attrs:   pickInt(g, 0, 1, 16, 256),
		Idents:  pickInt(g, 0, 1, 16, 1024),
		Bound:   4_000_000,
		NProbes: g.p.Probes,
		Probes:  g.U64(),
	}
	obj := g.P(g.p.Obj, 100)
	g.rich = g.P(1, 4)
	n := 1 + g.weighted(g.p.Tasks[:])
	if g.p.Alt {
		c.Alt = &Alt{Degree: pickInt(g, 2, 3, 5, 8, 64), Attrs: pickInt(g, 0, 1, 64), Idents: pickInt(g, 0, 1, 64), MapSeed: g.U64() * uint64(g.Intn(2))}
	}
	if obj {
		c.Domain = "obj"
		if c.Attrs == 0 {
			c.Attrs = 1
		}
		g.genObj(c, n)
	} else {
		c.Domain = "dat"
		g.genDat(c, n)
	}
	if g.large {
		c.Bound *= 20
	}
	g.strategy(c, n)
	return c
}

func pickInt(g *gen, ns ...int) int { return ns[g.Intn(len(ns))] }

func (g *gen) pick(ss ...string) string { return ss[g.Intn(len(ss))] }

func (g *gen) weighted(ws []int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	n := g.Intn(sum)
	for i, w := range ws {
		if n < w {
			return i
		}
		n -= w
	}
	return 0
}

func (g *gen) strategy(c *Case, n int) {
	c.Strat = zs.Strategy{Seed: g.U64(), Kind: "seq"}
	if n < 2 {
		return
	}
	c.Strat.Kind = g.pick("op", "walk", "walk", "walk", "pct", "pct", "hot", "hot", "hot")
	c.Strat.Mean = pickInt(g, 2, 5, 20, 100, 500, 2000)
	c.Strat.Points = 1 + g.Intn(6)
	c.Strat.Span = pickInt(g, 300, 2000, 10000, 40000)
	c.Strat.HotNum = 1 + g.Intn(12)
	if g.P(1, 2) {
		c.Strat.StallPct = g.p.Stall
	}
}

func (g *gen) newOp(kind string) *Op {
	op := &Op{ID: g.ops, Kind: kind}
	g.ops++
	if g.P(1, 2) {
		op.Map = g.U64() | 1
	}
	return op
}

// The attributes are named by what they are: "a/" type cardinality uniqueness.
func attrType(name string) byte { return name[2] }

func attrRef(name string) *Ref { return &Ref{K: "ident", S: name} }

func allAttrs() (names []string) {
	for _, t := range "sifbnr" {
		for _, c := range "1m" {
			for _, u := range "niv" {
				names = append(names, "a/"+string(t)+string(c)+string(u))
			}
		}
	}
	return
}

var typeIdents = map[byte]string{'s': "string", 'i': "int", 'f': "float", 'b': "bool", 'n': "inst", 'r': "ref"}

func (g *gen) declClaims(name, tmp string) (cs []*Claim) {
	e := func() *Ref { return &Ref{K: "tmp", S: tmp} }
	cs = append(cs,
		&Claim{E: e(), A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: name}},
		&Claim{E: e(), A: attrRef("sys/attr/type"), V: &Ref{K: "ident", S: "sys/attr/type/" + typeIdents[name[2]]}})
	if g.ones == nil {
		g.ones = map[string]bool{}
	}
	one, ok := g.ones[name]
	if !ok || g.P(1, 20) {
		one = g.P(1, 4)
		g.ones[name] = one
	}
	switch {
	case name[3] == 'm':
		cs = append(cs, &Claim{E: e(), A: attrRef("sys/attr/cardinality"), V: &Ref{K: "ident", S: "sys/attr/cardinality/many"}})
	case one:
		// This goes without saying.
		cs = append(cs, &Claim{E: e(), A: attrRef("sys/attr/cardinality"), V: &Ref{K: "ident", S: "sys/attr/cardinality/one"}})
	}
	switch name[4] {
	case 'i':
		cs = append(cs, &Claim{E: e(), A: attrRef("sys/attr/unique"), V: &Ref{K: "ident", S: "sys/attr/unique/identity"}})
	case 'v':
		cs = append(cs, &Claim{E: e(), A: attrRef("sys/attr/unique"), V: &Ref{K: "ident", S: "sys/attr/unique/value"}})
	}
	for _, c := range cs {
		// Those of the system may be given by their ids as well.
		if g.P(1, 6) {
			c.A = idRef(sys.Idents[types.Ident(c.A.S)])
		}
		if c.V.K == "ident" && g.P(1, 6) {
			c.V = idRef(sys.Idents[types.Ident(c.V.S)])
		}
	}
	return
}

func (g *gen) genDat(c *Case, n int) {
	universe := allAttrs()
	g.shuffle(universe)
	k := 3 + g.Intn(6)
	// There is always at least one plain, one identity, and one many attribute.
	must := []string{g.pick("a/s1n", "a/i1n", "a/f1n", "a/n1n"), g.pick("a/s1i", "a/i1i", "a/n1i", "a/f1i"), g.pick("a/smn", "a/imn", "a/rmn", "a/fmn", "a/nmn", "a/bmn")}
	g.attrs = append(g.attrs, must...)
	for _, a := range universe {
		if len(g.attrs) < k+3 && !contains(g.attrs, a) {
			g.attrs = append(g.attrs, a)
		} else if len(g.extra) < 3 && !contains(g.attrs, a) {
			g.extra = append(g.extra, a)
		}
	}
	g.slots = 2 + g.Intn(5)
	g.schemas = g.P(1, 5)
	// Swarm: some kinds of writes are left out, others abound.
	g.swarm = map[string]int{}
	for _, kind := range kinds {
		w := g.p.Kinds[kind]
		switch {
		case w <= 3 && g.P(1, 4):
			w = 0
		case g.P(1, 4):
			w *= 3
		}
		g.swarm[kind] = w
	}
	if g.P(1, 20) {
		g.swarm["bulk"] = 3
		g.huge = g.P(1, 4)
		g.large = g.huge
	}
	if g.swarm["new"]+g.swarm["upd"]+g.swarm["upsert"] == 0 {
		g.swarm["new"] = 2
	}
	// Declare the attributes in one or two requests.
	var decls []*Claim
	for i, a := range g.attrs {
		decls = append(decls, g.declClaims(a, "d"+strconv.Itoa(i))...)
		if i == len(g.attrs)/2 && g.P(1, 2) {
			op := g.newOp("write")
			op.Claims = decls
			decls = nil
			c.Setup = append(c.Setup, op)
		}
	}
	op := g.newOp("write")
	op.Claims = decls
	c.Setup = append(c.Setup, op)
	// And some data.
	for range 1 + g.Intn(3) {
		op := g.newOp("write")
		for range 1 + g.Intn(3) {
			op.Claims = append(op.Claims, g.kindNew(g.P(1, 3))...)
		}
		c.Setup = append(c.Setup, op)
	}
	if g.swarm["bulk"] > 0 && g.P(1, 2) {
		// These are the entities which many are about.
		op := g.newOp("write")
		g.many = 30 + g.Intn(60)
		for i := range g.many {
			op.Claims = append(op.Claims, &Claim{E: &Ref{K: "tmp", S: "b" + strconv.Itoa(i)}, A: attrRef(g.attrs[0]), V: g.value(attrType(g.attrs[0]))})
		}
		c.Setup = append(c.Setup, op)
	}
	if g.P(1, 110) {
		g.mass(c)
	}
	if g.P(1, 3) {
		op := g.newOp("write")
		op.Claims = append(op.Claims, &Claim{E: g.tmp(), A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: g.enum()}})
		c.Setup = append(c.Setup, op)
	}
	if g.P(1, 3) {
		for range 1 + g.Intn(2) {
			op := g.newOp("query")
			op.Mode = "hold"
			op.Claim = g.pattern()
			if g.P(1, 2) {
				op.Claim.V = nil
			}
			c.Setup = append(c.Setup, op)
		}
		g.held = true
	}
	per := 1 + g.Intn(6)
	if n == 1 {
		per = 4 + g.Intn(10)
		if g.P(g.p.Long, 100) {
			per = 20 + g.Intn(40)
			if g.P(1, 30) {
				per = 100 + g.Intn(100)
				g.large = true
			}
		}
	}
	for range n {
		var ops []*Op
		m := 1 + g.Intn(per)
		if n == 1 {
			m = per
		}
		for range m {
			op := g.datOp(n)
			ops = append(ops, op)
			if op.Kind == "query" && op.Mode == "goexit" {
				break
			}
		}
		c.Tasks = append(c.Tasks, ops)
	}
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func (g *gen) shuffle(ss []string) {
	for i := len(ss) - 1; i > 0; i-- {
		j := g.Intn(i + 1)
		ss[i], ss[j] = ss[j], ss[i]
	}
}

func (g *gen) datOp(tasks int) *Op {
	switch g.weighted([]int{g.p.Write, g.p.Query, g.p.Read}) {
	case 0:
		return g.datWrite()
	case 1:
		return g.datQuery(tasks)
	}
	return g.newOp("read")
}

func (g *gen) datWrite() *Op {
	op := g.newOp("write")
	n := 1
	if g.P(g.p.Mixed, 100) {
		n += 1 + g.Intn(2)
	}
	for range n {
		g.addKind(op)
	}
	if g.P(g.p.Poison, 100) {
		g.poison(op)
	}
	if g.schemas && g.P(1, 3) {
		g.withSchema(op)
	}
	op.Mutate = g.P(g.p.Mutate, 100)
	if g.P(1, 2) {
		op.Spare = g.Intn(12)
	}
	return op
}

// withSchema gives the request a schema, which its claims may depend on.
func (g *gen) withSchema(op *Op) {
	switch g.Intn(6) {
	case 0:
		// Some of the claims go first.
		for i := len(op.Claims) - 1; i >= 0; i-- {
			if g.P(1, 3) {
				op.Schema = append(op.Schema, op.Claims[i])
				op.Claims = append(op.Claims[:i:i], op.Claims[i+1:]...)
			}
		}
		slices.Reverse(op.Schema)
	case 1:
		// These need not be about the schema.
		other := &Op{}
		g.addKind(other)
		op.Schema = other.Claims
	default:
		for range 1 + g.Intn(2) {
			a := g.pick(allAttrs()...)
			switch {
			case g.P(1, 4):
				a = g.pick(g.attrs...)
			case len(g.extra) > 0 && g.P(1, 2):
				a = g.pick(g.extra...)
			case g.P(1, 2):
				g.extra = append(g.extra, a)
			}
			op.Schema = append(op.Schema, g.declClaims(a, g.pick("x"+a, "e0", "e1"))...)
			if g.P(2, 3) {
				e := g.entity()
				op.Claims = append(op.Claims, g.aboutE(e, a))
				if g.P(1, 4) {
					op.Claims = append(op.Claims, g.aboutE(e, a))
				}
			}
		}
		if g.P(1, 8) {
			op.Schema = append(op.Schema, &Claim{E: g.entity(), A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: g.enum()}})
		}
		if g.P(1, 4) {
			g.poison(op)
		}
		if g.P(1, 10) {
			other := &Op{}
			g.poison(other)
			op.Schema = append(op.Schema, other.Claims...)
		}
	}
	if g.P(1, 3) {
		// Something that is not an attribute, unless a schema that was undone says so.
		cl := g.aboutE(g.entity(), g.attr(""))
		cl.A = &Ref{K: "slot", S: g.pick(g.slotName(), "tx")}
		op.Claims = append(op.Claims, cl)
	}
}

func (g *gen) addKind(op *Op) {
	ws := make([]int, len(kinds))
	for i, k := range kinds {
		ws[i] = g.swarm[k]
	}
	switch kinds[g.weighted(ws)] {
	case "new":
		op.Claims = append(op.Claims, g.kindNew(false)...)
	case "upd":
		for range 1 + g.Intn(3) {
			op.Claims = append(op.Claims, g.aboutE(g.extant(), g.attr("")))
		}
	case "upsert":
		e := g.tmp()
		op.Claims = append(op.Claims, g.aboutE(e, g.attr("i")))
		if g.P(1, 3) {
			op.Claims = append(op.Claims, g.aboutE(e, g.attr("i")))
		}
		for range g.Intn(3) {
			op.Claims = append(op.Claims, g.aboutE(e, g.attr("")))
		}
		if g.P(1, 3) {
			// Another tempid may have the same identity.
			e2 := g.tmp()
			op.Claims = append(op.Claims, g.aboutE(e2, g.attr("i")))
			if g.P(1, 2) {
				op.Claims = append(op.Claims, g.aboutE(e2, g.attr("")))
			}
		}
		if g.P(1, 3) {
			g.shuffleClaims(op.Claims)
		}
	case "link":
		a := g.attrOf('r')
		if a == "" {
			op.Claims = append(op.Claims, g.kindNew(false)...)
			return
		}
		for range 1 + g.Intn(2) {
			e := g.entity()
			op.Claims = append(op.Claims, &Claim{E: e, A: g.a(a), V: g.refV()})
		}
		if g.P(1, 2) {
			op.Claims = append(op.Claims, g.kindNew(false)...)
		}
	case "uniq":
		for range 1 + g.Intn(2) {
			op.Claims = append(op.Claims, g.aboutE(g.entity(), g.attr(g.pick("i", "v", "v"))))
		}
	case "retclaim":
		for range 1 + g.Intn(2) {
			cl := g.aboutE(g.extant(), g.attr(""))
			if g.P(1, 4) {
				cl = g.own()
			}
			cl.R = true
			op.Claims = append(op.Claims, cl)
		}
	case "retent":
		for range 1 + g.Intn(2) {
			var cs []*Ref
			for range 1 + g.Intn(8)/6 {
				cs = append(cs, g.extant())
			}
			op.Rets = append(op.Rets, cs)
		}
	case "schema":
		g.kindSchema(op)
	case "bulk":
		switch g.Intn(3) {
		case 0:
			g.kindMany(op)
		default:
			g.kindBulk(op)
		}
	case "txn":
		for range 1 + g.Intn(2) {
			a := g.attr("")
			if g.P(1, 3) {
				op.Claims = append(op.Claims, &Claim{E: &Ref{K: "txn"}, A: attrRef("sys/tx/at"), V: g.value('n')})
			} else {
				op.Claims = append(op.Claims, g.aboutE(&Ref{K: "txn"}, a))
			}
		}
	}
}

func (g *gen) shuffleClaims(cs []*Claim) {
	for i := len(cs) - 1; i > 0; i-- {
		j := g.Intn(i + 1)
		cs[i], cs[j] = cs[j], cs[i]
	}
}

// kindNew makes a new entity, usually with all sorts of values.
func (g *gen) kindNew(ident bool) (cs []*Claim) {
	e := g.tmp()
	for range 1 + g.Intn(4) {
		cs = append(cs, g.aboutE(e, g.attr("")))
	}
	if ident {
		cs = append(cs, &Claim{E: e, A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: g.enum()}})
	}
	return
}

// kindBulk asserts or retracts very many values, so that trees grow and shrink.
func (g *gen) kindBulk(op *Op) {
	a := g.attr("")
	t := attrType(a)
	if t == 'b' || t == 'r' {
		a = g.attrs[0]
		t = attrType(a)
	}
	from, n := g.Intn(60), 10+g.Intn(90)
	if g.huge {
		n *= 2 + g.Intn(8)
	}
	retract := g.P(1, 3)
	e := g.entity()
	if retract {
		e = g.extant()
	}
	for i := range n {
		i += from
		if a[3] == '1' {
			e = &Ref{K: "tmp", S: "b" + strconv.Itoa(i%50)}
			if retract {
				e.K = "slot"
			}
			if i >= from+50 {
				break
			}
		}
		var v string
		switch t {
		case 's':
			v = "v" + strconv.Itoa(i)
		case 'i':
			v = strconv.Itoa((i - 60) * 7)
		case 'f':
			v = strconv.FormatFloat(float64(i)/4-20, 'g', -1, 64)
		case 'n':
			v = strconv.Itoa(i-60) + "m"
		}
		op.Claims = append(op.Claims, &Claim{E: e, A: attrRef(a), V: &Ref{K: string(t), S: v}, R: retract})
	}
	if g.P(1, 4) {
		g.shuffleClaims(op.Claims)
	}
}

// kindMany declares, names, makes or retracts very many things.
func (g *gen) kindMany(op *Op) {
	from, n := g.Intn(20), 8+g.Intn(30)
	if g.huge {
		n *= 2 + g.Intn(8)
	}
	kind := g.Intn(4)
	if g.many > 0 && g.P(1, 3) {
		kind = 3
	}
	a := g.attr("i")
	for i := from; i < from+n; i++ {
		s := strconv.Itoa(i)
		tmp := &Ref{K: "tmp", S: "b" + s}
		switch kind {
		case 0:
			// The types of these differ.
			op.Claims = append(op.Claims, g.declClaims("a/"+string("sifbnr"[i%6])+string("1m"[i%2])+"n/"+s, "x"+s)...)
		case 1:
			op.Claims = append(op.Claims, &Claim{E: tmp, A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: "en/b" + s}})
		case 2:
			v := g.value(attrType(a))
			switch attrType(a) {
			case 's':
				v = &Ref{K: "s", S: "v" + s}
			case 'i':
				v = &Ref{K: "i", S: s}
			}
			op.Claims = append(op.Claims, &Claim{E: tmp, A: attrRef(a), V: v}, g.aboutE(tmp, g.attr("n")))
		case 3:
			e := &Ref{K: "slot", S: tmp.S}
			switch {
			case g.many > 0:
				e.S = "b" + strconv.Itoa(i%g.many)
			case i%3 == 0:
				e = attrRef("en/b" + s)
			}
			op.Rets = append(op.Rets, []*Ref{e})
		}
	}
}

// mass makes more attributes, names, entities, or values than the default sizes of caches.
func (g *gen) mass(c *Case) {
	g.large = true
	for range 1 + g.Intn(2) {
		op := g.newOp("write")
		kind := max(0, g.Intn(5)-1)
		n := 1100 + g.Intn(900)
		if kind == 0 {
			n = 290 + g.Intn(200)
		}
		for i := range n {
			s := strconv.Itoa(i)
			tmp := &Ref{K: "tmp", S: "b" + s}
			switch kind {
			case 0:
				op.Claims = append(op.Claims, g.declClaims(massAttr(i), "x"+s)...)
			case 1:
				op.Claims = append(op.Claims, &Claim{E: tmp, A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: "en/b" + s}})
			case 2:
				a := g.attr("n")
				if attrType(a) == 'r' {
					a = g.attrs[0]
				}
				op.Claims = append(op.Claims, &Claim{E: tmp, A: attrRef(a), V: g.value(attrType(a))})
			case 3:
				a := g.attrs[2]
				v := g.value(attrType(a))
				switch v.K {
				case "s":
					v.S = "v" + s
				case "i", "f":
					v.S = s
				case "n":
					v.S = s + "m"
				}
				op.Claims = append(op.Claims, &Claim{E: &Ref{K: "tmp", S: "e0"}, A: attrRef(a), V: v})
			}
		}
		c.Setup = append(c.Setup, op)
		if kind != 0 {
			continue
		}
		// These are used like the others, or instead of the first of them.
		late := func(suffix string) string {
			for {
				if a := massAttr(240 + g.Intn(n-240)); strings.HasSuffix(a[:5], suffix) && a[2] != 'r' {
					return a
				}
			}
		}
		if g.P(1, 2) {
			g.attrs[0], g.attrs[1], g.attrs[2] = late("1n"), late("1i"), late("mn")
		}
		for _, suffix := range []string{"1n", "1i", "mn", "mi", "1v"} {
			g.attrs = append(g.attrs, late(suffix))
		}
	}
}

// massAttr is the name of the i-th of many attributes.
func massAttr(i int) string {
	return "a/" + string("sifbnr"[i%6]) + string("1m"[i/6%2]) + string("niv"[i/12%3]) + "/" + strconv.Itoa(i)
}

// enum picks a name of an entity.
func (g *gen) enum() string {
	if g.rich && g.P(1, 4) {
		return g.pick(oddNames...)
	}
	return "en/" + strconv.Itoa(g.Intn(4))
}

// oddNames are names that are like others, or like those which are reserved.
var oddNames = []string{"", "sys", "system/x", "sysx/db/ident", "Sys/db/ident", "SYS/db/ident", " sys/db/ident", "en/sys/db/ident", "EN/0", "en/0 ", "en/", "/", "en/0/1", "\u00e9", "e\u0301", "en/b10"}

func (g *gen) kindSchema(op *Op) {
	switch g.Intn(10) {
	case 0, 1:
		// Declare an attribute, perhaps anew.
		a := g.pick(append(append([]string{}, g.extra...), g.attrs...)...)
		op.Claims = append(op.Claims, g.declClaims(a, "x"+a)...)
	case 2:
		// Redeclare an attribute as something else.
		a := g.pick(g.attrs...)
		b := g.pick(allAttrs()...)
		cs := g.declClaims(b, "x"+a)
		cs[0].V.S = a
		op.Claims = append(op.Claims, cs...)
	case 3:
		// Change or retract a part of an attribute.
		a := g.pick(append(append([]string{}, g.extra...), g.attrs...)...)
		cs := g.declClaims(a, "x")
		cl := cs[g.Intn(len(cs))]
		cl.E = attrRef(a)
		cl.R = g.P(1, 2)
		if !cl.R && cl.V.K == "s" && g.P(1, 2) {
			cl.V.S = g.pick("a/other", g.enum())
		}
		op.Claims = append(op.Claims, cl)
	case 4, 5:
		// Name an entity.
		op.Claims = append(op.Claims, &Claim{E: g.entity(), A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: g.enum()}})
	case 6:
		// Free a name, or try to.
		n := g.enum()
		e := attrRef(n)
		if g.P(1, 3) {
			e = g.extant()
		}
		op.Claims = append(op.Claims, &Claim{E: e, A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: n}, R: true})
	case 7:
		op.Rets = append(op.Rets, []*Ref{attrRef(g.pick(g.enum(), g.enum(), g.pick(g.attrs...)))})
	case 8:
		// Swap or move names.
		op.Claims = append(op.Claims,
			&Claim{E: g.extant(), A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: g.enum()}},
			&Claim{E: g.extant(), A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: g.enum()}})
	case 9:
		// Make a named entity into an attribute.
		a := g.pick(allAttrs()...)
		n := g.enum()
		cs := g.declClaims(a, "x"+n)
		cs[0].V.S = n
		op.Claims = append(op.Claims, cs...)
	}
}

func (g *gen) slotName() string {
	if g.P(1, 12) {
		// This is a name like any other.
		return ""
	}
	return "e" + strconv.Itoa(g.Intn(g.slots))
}

func (g *gen) tmp() *Ref { return &Ref{K: "tmp", S: g.slotName()} }

// extant refers to an entity that probably exists.
func (g *gen) extant() *Ref {
	switch g.Intn(10) {
	case 0:
		return attrRef(g.enum())
	case 1, 2:
		return g.lookup(1)
	case 3:
		if g.P(1, 3) {
			return &Ref{K: "slot", S: "tx"}
		}
	}
	return &Ref{K: "slot", S: g.slotName()}
}

func (g *gen) lookup(depth int) *Ref {
	a := g.attr(g.pick("i", "i", "v"))
	if g.P(1, 8) {
		return &Ref{K: "lookup", A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: g.pick(g.enum(), g.pick(g.attrs...))}}
	}
	ar := attrRef(a)
	if depth > 0 {
		ar = g.a(a)
	}
	v := g.value(attrType(a))
	if attrType(a) == 'r' {
		v = &Ref{K: "slot", S: g.slotName()}
	}
	return &Ref{K: "lookup", A: ar, V: v}
}

// badLookup looks up a value of any type of an attribute of any uniqueness.
func (g *gen) badLookup() *Ref {
	ar := attrRef(g.attr(g.pick("", "i", "v")))
	switch g.Intn(8) {
	case 0:
		ar = g.spell(sys.Datums[g.Intn(len(sys.Datums))].A)
	case 1:
		ar = g.lookup(0)
	case 2:
		ar = g.systemEntity()
	}
	v := g.value("sifbn"[g.Intn(5)])
	switch g.Intn(8) {
	case 0:
		v = &Ref{K: "slot", S: g.slotName()}
	case 1:
		v = idRef(sys.DbIdent)
	case 2:
		if g.P(1, 2) {
			v = &Ref{K: "nil"}
		}
	}
	return &Ref{K: "lookup", A: ar, V: v}
}

// own claims the value of a unique attribute for the entity that has it.
func (g *gen) own() *Claim {
	l := g.lookup(0)
	return &Claim{E: l, A: l.A, V: l.V}
}

func (g *gen) entity() *Ref {
	if g.P(1, 2) {
		return g.tmp()
	}
	return g.extant()
}

// attr picks an attribute, of the given uniqueness if there is one.
func (g *gen) attr(unique string) string {
	var as []string
	for _, a := range g.attrs {
		if unique == "" || a[4:5] == unique {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		as = g.attrs
	}
	if unique == "" && len(g.extra) > 0 && g.P(1, 25) {
		as = g.extra
	}
	return g.pick(as...)
}

func (g *gen) attrOf(t byte) string {
	var as []string
	for _, a := range g.attrs {
		if attrType(a) == t {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return ""
	}
	return g.pick(as...)
}

// a refers to an attribute.
func (g *gen) a(name string) *Ref {
	switch g.Intn(16) {
	case 0:
		return &Ref{K: "lookup", A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: name}}
	case 1:
		for i, a := range g.attrs {
			if a == name {
				// The setup declares it so.
				return &Ref{K: "slot", S: "d" + strconv.Itoa(i)}
			}
		}
	case 2:
		return &Ref{K: "lookup", A: idRef(sys.DbIdent), V: &Ref{K: "s", S: name}}
	}
	return attrRef(name)
}

func (g *gen) aboutE(e *Ref, a string) *Claim {
	if g.P(1, 60) {
		// The attributes of the system are attributes too.
		switch g.Intn(4) {
		case 0:
			return &Claim{E: e, A: attrRef("sys/tx/at"), V: g.value('n')}
		case 1:
			return &Claim{E: e, A: attrRef("sys/attr/ref/type"), V: attrRef(g.pick("sys/attr/ref/type/dependent", g.enum()))}
		}
		return &Claim{E: e, A: attrRef("sys/db/rank"), V: g.value('i')}
	}
	return &Claim{E: e, A: g.a(a), V: g.value(attrType(a))}
}

func (g *gen) refV() *Ref {
	switch g.Intn(8) {
	case 0:
		return attrRef(g.pick(g.enum(), "sys/attr/type/string", g.pick(g.attrs...)))
	case 1:
		return g.lookup(1)
	case 2, 3, 4:
		return g.tmp()
	}
	return &Ref{K: "slot", S: g.slotName()}
}

const baseMilli = 1_600_000_000_000

// richValues are extreme and easily confused.
var richValues = map[byte][]string{
	's': {"\x00", "a\x00", "a\x00b", "A", "a ", " a", "\u00e9", "e\u0301", "\u00df", "ss", "0", "00", "true", "sys/db/ident", "\U0001f600", "\ufeffa", strings.Repeat("long", 70), strings.Repeat("long", 70) + "er", "hex:ff", "hex:61ff00", "hex:c3", "hex:edb080", "big:1030", "big:70000", "big:70000+", "big:70000+x"},
	'i': {"9007199254740992", "9007199254740993", "4294967296", "4294967297", "-1", "255", "256", "-4294967295", "9223372036854775806", "-9223372036854775807", "2147483648", "-2147483648", "1600000000000"},
	'f': {"5e-324", "-5e-324", "1.7976931348623157e308", "-1.7976931348623157e308", "0.1", "0.30000000000000004", "0.3", "9007199254740993", "1", "16777217", "1e19"},
	'n': {"253402300799999m", "253402300800000m", "-62135596800001m", "9223372036854775807m", "9223372036854775806m", "-9223372036854775807m", "over", "under", "-9223372036854775808m", "-1m", "1m", "-999999", "-1", "999999", "1600000000000999999", "1600000000999000000z", "far"},
}

// value makes a value of the type from a small domain, so that values often coincide.
func (g *gen) value(t byte) *Ref {
	if g.rich && t != 'b' && t != 'r' && g.P(1, 2) {
		return &Ref{K: string(t), S: g.pick(richValues[t]...)}
	}
	switch t {
	case 's':
		return &Ref{K: "s", S: g.pick("", "a", "b", "b", "c", "zz")}
	case 'i':
		return &Ref{K: "i", S: g.pick("-5", "0", "1", "1", "7", "-9223372036854775808", "9223372036854775807")}
	case 'f':
		return &Ref{K: "f", S: g.pick("-1.5", "0", "-0", "1.5", "1.5", "NaN", "+Inf", "-Inf", "1e-300")}
	case 'b':
		return &Ref{K: "b", S: g.pick("true", "false")}
	case 'n':
		ms := int64(baseMilli) * 1e6
		return &Ref{K: "n", S: g.pick(strconv.FormatInt(ms, 10), strconv.FormatInt(ms+300_000, 10), strconv.FormatInt(ms, 10)+"z", strconv.FormatInt(ms+1_000_000, 10), "-1500000", "0", "zero", "zeroz")}
	}
	return g.refV()
}

// poison spoils a request, usually at a random position.
func (g *gen) poison(op *Op) {
	garbage := &Ref{K: "id", S: strconv.FormatUint(uint64(garbageID)+uint64(g.Intn(5)), 10)}
	if g.P(1, 4) && !g.p.Alt {
		garbage = &Ref{K: "next", S: strconv.Itoa(1 + g.Intn(4))}
	}
	zero := &Ref{K: "id", S: "0"}
	a := g.attr("")
	cl := g.aboutE(g.entity(), a)
	switch g.Intn(27) {
	case 25, 26:
		// A lookup that does not make sense, somewhere.
		l := g.badLookup()
		switch g.Intn(4) {
		case 0:
			cl.E = l
		case 1:
			cl.A = l
		case 2:
			if r := g.attrOf('r'); r != "" {
				cl.A = attrRef(r)
			}
			cl.V = l
		case 3:
			op.Rets = append(op.Rets, []*Ref{l})
			if g.P(1, 3) {
				op.Rets[len(op.Rets)-1] = []*Ref{g.extant(), l}
			}
			return
		}
	case 24:
		// Something that the system asserts.
		cl = g.system()
	case 22, 23:
		// A conflict at the end of all sorts of valid retractions and claims.
		if g.P(1, 2) {
			op.Claims = nil
			for range 1 + g.Intn(3) {
				cl := g.own()
				cl.R = true
				op.Claims = append(op.Claims, cl)
			}
		}
		e := g.entity()
		a := g.attr("n")
		op.Claims = append(op.Claims, g.aboutE(e, a), g.aboutE(e, a))
		return
	case 0:
		cl.E = nil
	case 1:
		cl.E = zero
	case 2:
		cl.E = garbage
	case 3:
		cl.E = attrRef("en/missing")
	case 4:
		cl.E = &Ref{K: "lookup", A: attrRef(g.attr("i")), V: &Ref{K: "s", S: "missing"}}
	case 5:
		cl.A = nil
	case 6:
		cl.A = attrRef("a/missing")
	case 7:
		cl.A = &Ref{K: "id", S: g.pick("0", "1099511627776", strconv.Itoa(int(sys.AttrTypeString)))}
	case 8:
		cl.A = &Ref{K: "slot", S: g.slotName()}
	case 9:
		cl.V = nil
	case 10, 11:
		t := "sifbnr"[g.Intn(6)]
		cl.V = g.value(t)
	case 12:
		if r := g.attrOf('r'); r != "" {
			cl.A = attrRef(r)
		}
		cl.V = []*Ref{zero, garbage, attrRef("en/missing"), {K: "lookup", A: attrRef(g.attr("i")), V: &Ref{K: "i", S: "12345"}}}[g.Intn(4)]
	case 13, 14:
		cl.E = g.systemEntity()
	case 15:
		cl = &Claim{E: g.entity(), A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: g.pick("sys/db/ident", "sys/novel", "sys/attr/type")}}
	case 16:
		cl = &Claim{E: attrRef(g.pick(g.attrs...)), A: attrRef(g.pick("sys/attr/type", "sys/attr/cardinality", "sys/attr/unique")), V: attrRef(g.pick("sys/attr/type/int", "sys/attr/cardinality/many", "sys/attr/cardinality/one", "sys/attr/unique/value", "sys/attr/unique/identity", "sys/attr/type/bool"))}
	case 17:
		// Two values for one cardinality one attribute.
		e := g.entity()
		for range 2 {
			op.Claims = append(op.Claims, g.aboutE(e, a))
		}
		cl = g.aboutE(e, a)
	case 18:
		op.Rets = append(op.Rets, [][]*Ref{{}, {attrRef("en/missing")}, {zero}, {attrRef("sys/db/ident")}, {{K: "nil"}}, {g.extant(), g.extant(), g.extant()}, {g.systemEntity()}, {g.systemEntity()}}[g.Intn(8)])
		return
	case 19:
		cs := g.declClaims(g.pick(g.extra...), "x")
		switch g.Intn(4) {
		case 0:
			cs = cs[1:]
		case 1:
			cs = cs[:1]
			cs = append(cs, &Claim{E: cs[0].E, A: attrRef("sys/attr/unique"), V: attrRef("sys/attr/unique/value")})
		case 2:
			cs[1].V = attrRef(g.pick("sys/attr/unique", "sys/db/ident", g.pick(g.attrs...)))
		case 3:
			cs = append(cs, &Claim{E: cs[0].E, A: attrRef(g.pick("sys/attr/cardinality", "sys/attr/unique")), V: attrRef("sys/attr/type/int")})
		}
		op.Claims = append(op.Claims, cs...)
		return
	case 20:
		// A unique value of two entities.
		u := g.attr("v")
		cl = g.aboutE(g.entity(), u)
		other := *cl
		other.E = g.entity()
		op.Claims = append(op.Claims, &other)
	case 21:
		// Retract part of the schema.
		cl = &Claim{E: attrRef(g.pick(g.attrs...)), A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: g.pick(g.attrs...)}, R: g.P(1, 2)}
	}
	i := g.Intn(len(op.Claims) + 1)
	op.Claims = append(op.Claims[:i], append([]*Claim{cl}, op.Claims[i:]...)...)
}

// systemEntity refers to an entity that the system asserts something about.
func (g *gen) systemEntity() *Ref {
	return g.spell(sys.Datums[g.Intn(len(sys.Datums))].E)
}

// spell refers to an entity of the system in one of the ways to.
func (g *gen) spell(id ID) *Ref {
	ident := ""
	for _, d := range sys.Datums {
		if s, ok := d.V.(types.String); ok && d.E == id && d.A == sys.DbIdent {
			ident = string(s)
		}
	}
	n := g.Intn(4)
	switch {
	case ident == "" || n == 0:
		return idRef(id)
	case n == 1:
		return attrRef(ident)
	}
	l := &Ref{K: "lookup", A: attrRef("sys/db/ident"), V: &Ref{K: "s", S: ident}}
	if n == 2 {
		l.A = idRef(sys.DbIdent)
	}
	return l
}

// system claims or retracts a datum that the system asserts.
func (g *gen) system() *Claim {
	d := sys.Datums[g.Intn(len(sys.Datums))]
	cl := &Claim{E: g.spell(d.E), A: idRef(d.A), R: !g.P(1, 3)}
	switch v := d.V.(type) {
	case types.String:
		cl.V = &Ref{K: "s", S: string(v)}
	case types.ID:
		cl.V = idRef(v)
	default:
		cl.V = &Ref{K: "n", S: "zero"}
	}
	return cl
}

func idRef(id ID) *Ref { return &Ref{K: "id", S: strconv.FormatUint(uint64(id), 10)} }

func (g *gen) datQuery(tasks int) *Op {
	op := g.newOp("query")
	if g.P(1, 2) {
		op.From = g.Intn(6)
	}
	op.Claim = g.pattern()
	switch g.Intn(8) {
	case 0:
		op.Mode = "count"
	case 1:
		op.Mode = "has"
	case 2:
		op.Mode = "twice"
	case 3:
		op.Mode = "idents"
	default:
		op.Mode = "full"
	}
	if op.Mode == "full" && g.P(1, 5) {
		op.Mode = "within"
		op.N = g.Intn(4)
		if g.held && g.P(1, 2) {
			op.Mode = "shared"
			op.N = max(0, g.Intn(8)-3)
		}
	}
	if op.Mode == "full" && g.P(g.p.Abandon, 100) {
		op.Mode = g.pick("break", "panic", "pull", "goexit")
		op.N = g.Intn(8)
		if op.Mode == "goexit" && !(tasks > 1 && g.P(1, 2)) {
			op.Mode = "break"
		}
	}
	op.Yield = g.Intn(3)
	if g.P(g.p.Nest, 100) && (op.Mode == "full" || op.Mode == "break" || op.Mode == "pull") {
		if g.P(1, 3) {
			op.Nest = g.newOp("read")
		} else {
			op.Nest = g.datWrite()
		}
	}
	return op
}

// pattern makes the claim of a query.
func (g *gen) pattern() *Claim {
	cl := &Claim{}
	shape := g.Intn(9)
	if shape == 8 {
		// An odd pattern.
		switch g.Intn(11) {
		case 8:
			cl.E = g.badLookup()
		case 9:
			cl.A = g.badLookup()
		case 10:
			cl.V = g.badLookup()
			if g.P(1, 2) {
				cl.A = attrRef(g.attr(""))
			}
		case 0:
			cl.E = g.tmp()
		case 1:
			cl.E = &Ref{K: "txn"}
		case 2:
			cl.E = attrRef("en/missing")
		case 3:
			cl.A = attrRef("a/missing")
		case 4:
			cl.V = g.tmp()
		case 5:
			cl.A = attrRef(g.attr(""))
			cl.V = g.value("sifbn"[g.Intn(5)])
		case 6:
			cl.E = g.lookup(1)
			cl.V = &Ref{K: "lookup", A: attrRef("a/missing"), V: &Ref{K: "i", S: "1"}}
		case 7:
			cl.A = &Ref{K: "slot", S: g.slotName()}
			cl.V = g.value("sifbn"[g.Intn(5)])
		}
		return cl
	}
	a := g.attr("")
	if shape&1 != 0 {
		cl.E = g.extant()
	}
	if shape&2 != 0 {
		cl.A = g.a(a)
	}
	if shape&4 != 0 {
		t := attrType(a)
		if shape&2 == 0 && g.P(1, 2) {
			t = "sifbn"[g.Intn(5)]
		}
		cl.V = g.value(t)
		if cl.V.K == "tmp" {
			cl.V = &Ref{K: "slot", S: g.slotName()}
		}
	}
	return cl
}

func init() {
	identUniverse = append(identUniverse, allAttrs()...)
	for i := range 4 {
		identUniverse = append(identUniverse, "en/"+strconv.Itoa(i))
	}
	identUniverse = append(identUniverse, oddNames...)
	identUniverse = append(identUniverse, "en/missing", "a/missing", "a/other", "sys/novel", "sys/db/ident", "sys/attr/type", "sys/attr/type/string", "sys/attr/unique", "sys/db/rank", "sys/attr/cardinality/many", "sys/tx/at")
}
