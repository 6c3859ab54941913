// Command vsim decides the properties of the database by deterministic simulation: it generates
// cases from seeds, runs each under the simulated scheduler with injected faults, judges the
// recorded history against a reference model, and minimises and replays the failures.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	zs "github.com/dball/destructive/internal/zsim/simrt"

	"github.com/dball/destructive/internal/types"
)

// Case is a simulated run. The run is a pure function of the case and of the code.
type Case struct {
	Domain string `json:"domain"` // "dat" or "obj"
	Degree int    `json:"degree"`
	Attrs  int    `json:"attrs"`
	Idents int    `json:"idents"`
	// Setup is the list of operations that run before the tasks start.
	Setup []*Op   `json:"setup"`
	Tasks [][]*Op `json:"tasks"`
	// Probes seeds the queries that are made of every snapshot after the run.
	Probes  uint64        `json:"probes"`
	NProbes int           `json:"nprobes"`
	Strat   zs.Strategy   `json:"strategy"`
	Trace   []zs.Decision `json:"trace,omitempty"`
	Bound   uint64        `json:"bound"`
	// Alt, if given, is another configuration under which the outcomes must be the same.
	Alt *Alt `json:"alt,omitempty"`
}

// Alt is another configuration of a case.
type Alt struct {
	Degree  int    `json:"degree"`
	Attrs   int    `json:"attrs"`
	Idents  int    `json:"idents"`
	MapSeed uint64 `json:"mapseed"`
}

// Op is an operation.
type Op struct {
	ID   int    `json:"id"`
	Kind string `json:"kind"`
	// Map seeds the order in which maps are iterated, or 0 for the canonical order.
	Map uint64 `json:"map,omitempty"`

	// write
	Claims []*Claim `json:"claims,omitempty"`
	Schema []*Claim `json:"schema,omitempty"`
	Rets   [][]*Ref `json:"rets,omitempty"`
	// Mutate says to write over the request and the response afterwards, as their owner may.
	Mutate bool `json:"mutate,omitempty"`
	// Spare is the spare capacity of the request's slices.
	Spare int `json:"spare,omitempty"`

	// query
	From  int    `json:"from,omitempty"` // which of the snapshots at hand, from the newest
	Claim *Claim `json:"claim,omitempty"`
	Mode  string `json:"mode,omitempty"` // how the sequence is consumed
	N     int    `json:"n,omitempty"`    // after how many datums to stop
	Yield int    `json:"yield,omitempty"`
	Nest  *Op    `json:"nest,omitempty"` // the operation to run while consuming

	// struct requests
	Objs []*Obj `json:"objs,omitempty"`
	Dels []*Obj `json:"dels,omitempty"`
	// Slot and Type say what to find.
	Slot string `json:"slot,omitempty"`
	Type string `json:"type,omitempty"`
}

// Claim is a claim or the pattern of a query.
type Claim struct {
	E *Ref `json:"e,omitempty"`
	A *Ref `json:"a,omitempty"`
	V *Ref `json:"v,omitempty"`
	R bool `json:"r,omitempty"`
}

// Ref is a symbolic reference or value.
type Ref struct {
	K string `json:"k"`
	S string `json:"s,omitempty"`
	A *Ref   `json:"a,omitempty"`
	V *Ref   `json:"v,omitempty"`
}

func (r *Ref) String() string {
	if r == nil {
		return "-"
	}
	if r.K == "lookup" {
		return "lookup(" + r.A.String() + "," + r.V.String() + ")"
	}
	return r.K + ":" + r.S
}

func (c *Claim) String() string {
	if c == nil {
		return "-"
	}
	op := "+"
	if c.R {
		op = "-"
	}
	return op + "[" + c.E.String() + " " + c.A.String() + " " + c.V.String() + "]"
}

func cloneCase(c *Case) *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	var d Case
	err = json.Unmarshal(b, &d)
	if err != nil {
		panic(err)
	}
	return &d
}

// scalar builds the value of a symbolic scalar.
func scalar(r *Ref) types.VRef {
	switch r.K {
	case "s":
		return types.String(parseString(r.S))
	case "i":
		n, err := strconv.ParseInt(r.S, 10, 64)
		must(err)
		return types.Int(n)
	case "f":
		return types.Float(parseFloat(r.S))
	case "b":
		return types.Bool(r.S == "true")
	case "n":
		return types.Inst(parseInst(r.S))
	}
	panic("not a scalar: " + r.String())
}

// parseString gives the string itself, or that of the bytes after "hex:", or as many letters as after "big:".
func parseString(s string) string {
	if digits, ok := strings.CutPrefix(s, "hex:"); ok {
		b, err := hex.DecodeString(digits)
		must(err)
		return string(b)
	}
	if size, ok := strings.CutPrefix(s, "big:"); ok {
		size, more, _ := strings.Cut(size, "+")
		n, err := strconv.Atoi(size)
		must(err)
		return strings.Repeat("B", n) + more
	}
	return s
}

func parseFloat(s string) float64 {
	switch s {
	case "-0":
		return math.Copysign(0, -1)
	}
	f, err := strconv.ParseFloat(s, 64)
	must(err)
	return f
}

var zone = time.FixedZone("zone", 3*3600+1800)

// parseInst parses "zero" and the like, or nanoseconds since the epoch with an optional "z" for
// another zone, or milliseconds with an "m".
func parseInst(s string) time.Time {
	switch s {
	case "zero":
		return time.Time{}
	case "zeroz":
		return time.Time{}.In(zone)
	case "over":
		// The first instant that is later than can be counted in milliseconds, though of the same second as one that can be.
		return time.UnixMilli(math.MaxInt64).Add(time.Millisecond).UTC()
	case "under":
		return time.UnixMilli(math.MinInt64).Add(-time.Millisecond).UTC()
	case "far":
		// This is so far away that its milliseconds cannot be counted.
		return time.Unix(1<<60, 0).UTC()
	}
	if ms, ok := strings.CutSuffix(s, "m"); ok {
		n, err := strconv.ParseInt(ms, 10, 64)
		must(err)
		return time.UnixMilli(n).UTC()
	}
	other := strings.HasSuffix(s, "z")
	n, err := strconv.ParseInt(strings.TrimSuffix(s, "z"), 10, 64)
	must(err)
	t := time.Unix(0, n).UTC()
	if other {
		t = t.In(zone)
	}
	return t
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("vsim: %v", err))
	}
}
