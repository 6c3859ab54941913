package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	zs "github.com/dball/destructive/internal/zsim/simrt"

	"github.com/dball/destructive/internal/types"
)

//go:embed sites.txt
var siteList string

var siteNames []string

// Summary is what a worker covered.
type Summary struct {
	Cases     int            `json:"cases"`
	Obj       int            `json:"obj"`
	Multi     int            `json:"multi"`
	Steps     uint64         `json:"steps"`
	MaxSteps  uint64         `json:"maxsteps"`
	Switches  int            `json:"switches"`
	Blocks    int            `json:"blocks"`
	Stalls    int            `json:"stalls"`
	MapPerms  int            `json:"mapperms"`
	Stats     Stats          `json:"stats"`
	Faults    map[string]int `json:"faults"`
	Strats    map[string]int `json:"strategies"`
	Hashes    []uint64       `json:"hashes"`
	Sites     []int          `json:"sites"`
	Preempted []int          `json:"preempted"`
	Other     map[string]int `json:"other"`
	Trivial   int            `json:"trivial"`
	Next      int            `json:"next"`
	Found     *Found         `json:"found,omitempty"`
	Digest    uint64         `json:"digest"`
}

// Found is a violation and the case that shows it.
type Found struct {
	Index   int      `json:"index"`
	Seed    uint64   `json:"seed"`
	Viol    Viol     `json:"violation"`
	Case    *Case    `json:"case"`
	Prelude []uint64 `json:"prelude,omitempty"`
}

// Replay is the replay file.
type Replay struct {
	Property  string `json:"property"`
	Seed      uint64 `json:"seed"`
	Index     int    `json:"index"`
	Violation Viol   `json:"violation"`
	Race      bool   `json:"race"`
	Original  int    `json:"original_size"`
	Size      int    `json:"size"`
	// Prelude are the seeds of cases that the process must have run before, if any.
	Prelude []uint64 `json:"prelude,omitempty"`
	Case    *Case    `json:"case"`
}

// batch is how many cases a process runs.
const batch = 120

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check|worker|replay|one|digest")
		os.Exit(2)
	}
	for _, line := range strings.Split(strings.TrimSpace(siteList), "\n") {
		if _, name, ok := strings.Cut(line, " "); ok {
			siteNames = append(siteNames, name)
		}
	}
	zs.SetSites(uint32(len(siteNames)))
	debug.SetMaxStack(256 << 20)
	fs := flag.NewFlagSet("vsim", flag.ExitOnError)
	prop := fs.String("prop", "", "the property")
	seed := fs.Uint64("seed", 1, "the seed")
	from := fs.Int("from", 0, "the index of the first case")
	stride := fs.Int("stride", 1, "the distance between cases")
	count := fs.Int("count", 100, "the number of cases")
	limit := fs.Float64("limit", 60, "the seconds after which to stop")
	tier := fs.String("tier", "quick", "the tier")
	out := fs.String("out", "/verif", "where evidence and replays go")
	workers := fs.Int("workers", 8, "the number of worker processes")
	verbose := fs.Bool("v", false, "say more")
	classes := fs.Bool("classes", false, "count all violations instead of stopping")
	progress := fs.String("progress", "", "where to note the index of the case that runs")
	profile := fs.String("profile", "", "where to write a profile of a worker")
	must(fs.Parse(os.Args[2:]))
	if *profile != "" {
		f, err := os.Create(*profile)
		must(err)
		must(pprof.StartCPUProfile(f))
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "worker", "crash", "try", "replay", "shrink":
		watch()
	}
	switch os.Args[1] {
	case "shrink":
		shrinkFile(fs.Arg(0))
	case "worker":
		worker(*prop, *seed, *from, *stride, *count, *limit, *classes, *progress)
	case "crash":
		runFile(fs.Arg(0))
	case "try":
		tryFile(fs.Arg(0))
	case "replay":
		os.Exit(replayFile(fs.Arg(0), *verbose))
	case "one":
		one(*prop, *seed, *from)
	case "check":
		os.Exit(check(*prop, *seed, *tier, *out, *workers, *count, *limit))
	default:
		os.Exit(2)
	}
}

// caseSeed is the seed of the case with the index.
func caseSeed(prop string, seed uint64, index int) uint64 {
	h := zs.Mix(seed ^ 0x5eed)
	for _, b := range []byte(prop) {
		h = zs.Mix(h ^ uint64(b))
	}
	return zs.Mix(h + uint64(index)*0x9e3779b97f4a7c15)
}

// evaluate runs and judges a case.
func evaluate(c *Case) (e *env) {
	beats.Add(1)
	races := zs.RaceErrors()
	before, coroutines := runtime.NumGoroutine(), countCoroutines()
	e = simulate(c, nil)
	if zs.Race {
		e.checkRace(races)
		return
	}
	e.check()
	e.leaks(before, coroutines)
	if c.Alt != nil && len(e.viols) == 0 {
		compareConfigs(e)
	}
	return
}

func worker(prop string, seed uint64, from, stride, count int, limit float64, classes bool, progress string) {
	start := time.Now()
	var note *os.File
	if progress != "" {
		var err error
		note, err = os.Create(progress)
		must(err)
	}
	sum := Summary{Faults: map[string]int{}, Strats: map[string]int{}, Other: map[string]int{}}
	hashes := map[uint64]bool{}
	found := func(i int, v *Viol, c *Case) *Found {
		f := &Found{Index: i, Seed: caseSeed(prop, seed, i), Viol: *v, Case: c}
		f.Prelude = prelude(prop, seed, from, i, stride)
		return f
	}
	for n := 0; n < count; n++ {
		i := from + n*stride
		sum.Next = i + stride
		if note != nil {
			_, err := note.WriteAt(binary.LittleEndian.AppendUint64(nil, uint64(i)), 0)
			must(err)
		}
		cs := caseSeed(prop, seed, i)
		c := genCase(prop, cs)
		e := evaluate(c)
		sum.add(e, hashes)
		if v := pickViol(prop, e); v != nil {
			if classes {
				sum.Other[strings.Join(v.Props, ",")+" "+v.Class]++
				if sum.Found == nil {
					sum.Found = found(i, v, pinned(c, e))
				}
				continue
			}
			sum.Found = found(i, v, pinned(c, e))
			break
		}
		for _, v := range e.viols {
			sum.Other[strings.Join(v.Props, ",")+" "+v.Class]++
			fmt.Fprintf(os.Stderr, "note: case %d (seed %d) violated %v: %s: %s\n", i, cs, v.Props, v.Class, v.Msg)
		}
		if time.Since(start).Seconds() > limit {
			break
		}
	}
	for h := range hashes {
		sum.Hashes = append(sum.Hashes, h)
	}
	slices.Sort(sum.Hashes)
	for i := range siteNames {
		if zs.Hit[i] {
			sum.Sites = append(sum.Sites, i)
		}
		if zs.Preempt[i] {
			sum.Preempted = append(sum.Preempted, i)
		}
	}
	b, err := json.Marshal(sum)
	must(err)
	fmt.Println(string(b))
}

// prelude lists the seeds of the cases that the process ran before the one with the index.
func prelude(prop string, seed uint64, from, index, stride int) (seeds []uint64) {
	for i := from; i < index; i += stride {
		seeds = append(seeds, caseSeed(prop, seed, i))
	}
	return
}

// warm runs the cases that the process must have run before.
func warm(r *Replay) {
	for _, s := range r.Prelude {
		evaluate(genCase(r.Property, s))
	}
}

func (sum *Summary) add(e *env, hashes map[uint64]bool) {
	sum.Cases++
	if e.c.Domain == "obj" {
		sum.Obj++
	}
	if len(e.c.Tasks) > 1 {
		sum.Multi++
	}
	sum.Steps += e.out.Steps
	sum.MaxSteps = max(sum.MaxSteps, e.out.Steps)
	sum.Switches += e.out.Switches
	sum.Blocks += e.out.Blocks
	sum.Stalls += e.out.Stalls
	sum.MapPerms = zs.MapPerms
	for k, n := range e.faults {
		sum.Faults[k] += n
	}
	sum.Strats[e.c.Strat.Kind]++
	s := &sum.Stats
	s.Ops += e.stats.Ops
	s.Accepted += e.stats.Accepted
	s.Rejected += e.stats.Rejected
	s.Open += e.stats.Open
	s.Queries += e.stats.Queries
	s.Probes += e.stats.Probes
	s.States += e.stats.States
	s.Upserts += e.stats.Upserts
	h := e.digest()
	sum.Digest = zs.Mix(sum.Digest ^ h)
	if e.stats.Accepted == 0 {
		sum.Trivial++
		return
	}
	hashes[h] = true
}

// digest summarises the run: the interleaving and everything that was observed.
func (e *env) digest() uint64 {
	h := zs.Mix(e.out.Hash + 1)
	mix := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = zs.Mix(h)
	}
	for _, r := range e.all() {
		mix(r.op.Kind)
		h = zs.Mix(h ^ uint64(r.task+2)<<32 ^ uint64(r.inv)<<16 ^ uint64(r.ret))
		if r.state != nil {
			mix(r.state.canon)
		}
		if r.err != nil {
			mix(errCode(r.err))
		}
		h = zs.Mix(h ^ uint64(len(r.got))<<8 ^ uint64(r.count))
		mix(r.panicked)
		if r.obj != nil {
			mix(r.obj.digest())
		}
	}
	for _, v := range e.viols {
		mix(v.Class)
		mix(v.Msg)
	}
	return zs.Mix(h ^ e.out.Steps)
}

// pickViol returns a violation of the property, if there is one.
func pickViol(prop string, e *env) *Viol {
	for i := range e.viols {
		if prop == "" || prop == "any" || contains(e.viols[i].Props, prop) {
			return &e.viols[i]
		}
	}
	if len(e.viols) == 0 || zs.Race {
		return nil
	}
	v := e.viols[0]
	v.Props = diagnose(e, v, prop)
	if contains(v.Props, prop) {
		return &v
	}
	return nil
}

// pinned is the case with the schedule that was run.
func pinned(c *Case, e *env) *Case {
	d := cloneCase(c)
	if d.Strat.Kind != "seq" {
		d.Trace = slices.Clone(e.out.Trace)
		d.Strat = zs.Strategy{Kind: "replay"}
	}
	return d
}

func one(prop string, seed uint64, index int) {
	cs := caseSeed(prop, seed, index)
	c := genCase(prop, cs)
	e := evaluate(c)
	b, _ := json.MarshalIndent(pinned(c, e), "", " ")
	fmt.Println(string(b))
	e.print(os.Stdout)
}

// print describes the run.
func (e *env) print(w io.Writer) {
	for _, r := range e.all() {
		fmt.Fprintf(w, "task %d op %d %s [%d,%d]", r.task, r.op.ID, r.op.Kind, r.inv, r.ret)
		switch r.op.Kind {
		case "write":
			fmt.Fprintf(w, " claims")
			show := func(cs []types.Claim) {
				for _, c := range cs {
					sign := "+"
					if c.Retract {
						sign = "-"
					}
					fmt.Fprintf(w, " %s%s", sign, showClaim(c))
				}
			}
			show(r.req.Claims)
			if len(r.req.Schema) > 0 {
				fmt.Fprintf(w, " after schema")
				show(r.req.Schema)
			}
			for _, x := range r.req.Retractions {
				fmt.Fprintf(w, " retract%v", x.Constraints)
			}
			if r.err != nil {
				fmt.Fprintf(w, " -> rejected %s", errCode(r.err))
			} else {
				fmt.Fprintf(w, " -> %d %v", r.res.ID, r.res.TempIDs)
			}
		case "query":
			fmt.Fprintf(w, " %s %s -> %d datums, count %d, has %t", r.op.Mode, showClaim(r.claim), len(r.got), r.count, r.found)
		default:
			if r.obj != nil {
				fmt.Fprintf(w, " %s", r.obj.describe(r))
			}
		}
		if r.panicked != "" {
			fmt.Fprintf(w, " PANIC %s", r.panicked)
		}
		fmt.Fprintln(w)
	}
	for _, d := range e.out.Trace {
		fmt.Fprintf(w, "switch from task %d in op %d after %d steps to task %d stall %d forced %t\n", d.T, d.Op, d.Step, d.To, d.Stall, d.F)
	}
	for _, v := range e.viols {
		fmt.Fprintf(w, "violation %s %v op %d: %s\n", v.Class, v.Props, v.Op, v.Msg)
	}
}

// replayFile runs a replay file: 1 if the violation recurs exactly, 0 if there is none.
func replayFile(path string, verbose bool) int {
	b, err := os.ReadFile(path)
	must(err)
	var r Replay
	must(json.Unmarshal(b, &r))
	if r.Violation.Class == "crash" {
		self, err := os.Executable()
		must(err)
		v := crashTry(self, &r)
		if v == nil {
			fmt.Println("no violation")
			return 0
		}
		fmt.Printf("violation %s: %s\n", v.Class, v.Msg)
		if v.Msg != r.Violation.Msg {
			fmt.Println("differs from the recorded violation", r.Violation.Class, r.Violation.Msg)
			return 3
		}
		return 1
	}
	warm(&r)
	e := evaluate(r.Case)
	if verbose {
		e.print(os.Stdout)
	}
	v := pickViol(r.Property, e)
	if v == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("violation %s: %s\n", v.Class, v.Msg)
	fmt.Printf("digest %d\n", e.digest())
	if v.Class != r.Violation.Class || (v.Msg != r.Violation.Msg && !zs.Race) {
		fmt.Println("differs from the recorded violation", r.Violation.Class, r.Violation.Msg)
		return 3
	}
	return 1
}

// check runs the workers, and reports what they found.
func check(prop string, seed uint64, tier, out string, workers, count int, limit float64) int {
	start := time.Now()
	self, err := os.Executable()
	must(err)
	sums := make([]*Summary, workers)
	var mu sync.Mutex
	var wg sync.WaitGroup
	procs := map[int]*exec.Cmd{}
	stop, trouble := false, ""
	dir, err := os.MkdirTemp("", "vsim")
	must(err)
	defer os.RemoveAll(dir)
	for w := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			next := w
			crashes := 0
			progress := filepath.Join(dir, strconv.Itoa(w))
			left := (count + workers - 1) / workers
			for left > 0 {
				// No process runs so many that what it keeps is warm in most of them.
				n := min(left, batch)
				remain := limit - time.Since(start).Seconds()
				if remain <= 0 {
					return
				}
				cmd := exec.Command(self, "worker", "-prop", prop, "-seed", strconv.FormatUint(seed, 10), "-from", strconv.Itoa(next),
					"-stride", strconv.Itoa(workers), "-count", strconv.Itoa(n), "-limit", strconv.FormatFloat(remain, 'f', 1, 64), "-progress", progress)
				var o, e bytes.Buffer
				cmd.Stdout = &o
				cmd.Stderr = &e
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "GORACE=halt_on_error=0 exitcode=0 log_path=stderr")
				err := cmd.Start()
				if err == nil {
					mu.Lock()
					procs[w] = cmd
					if stop {
						_ = cmd.Process.Kill()
					}
					mu.Unlock()
					done := make(chan struct{})
					go func() {
						select {
						case <-done:
						case <-time.After(time.Duration(remain*float64(time.Second)) + 90*time.Second):
							_ = cmd.Process.Kill()
						}
					}()
					err = cmd.Wait()
					close(done)
				}
				var s Summary
				if word := crashWord(e.String()); err != nil && word != "" {
					// Does the case crash again, and is that of interest?
					b, _ := os.ReadFile(progress)
					if len(b) == 8 {
						i := int(binary.LittleEndian.Uint64(b))
						cs := caseSeed(prop, seed, i)
						c := genCase(prop, cs)
						r := &Replay{Property: prop, Case: c}
						v := crashTry(self, r)
						if v == nil {
							r.Prelude = prelude(prop, seed, next, i, workers)
							v = crashTry(self, r)
						}
						if v != nil {
							mu.Lock()
							sum := &Summary{Faults: map[string]int{}, Strats: map[string]int{}, Other: map[string]int{strings.Join(v.Props, ",") + " crash": 1}, Cases: (i - next) / workers}
							if sums[w] != nil {
								sum = merge([]*Summary{sums[w], sum})
							}
							sums[w] = sum
							mu.Unlock()
							if contains(v.Props, prop) {
								sum.Found = &Found{Index: i, Seed: cs, Viol: *v, Case: c, Prelude: r.Prelude}
								return
							}
							crashes++
							left -= (i-next)/workers + 1
							next = i + workers
							if crashes < 20 {
								continue
							}
							return
						}
					}
				}
				if !func() bool {
					mu.Lock()
					defer mu.Unlock()
					if err != nil || json.Unmarshal(lastLine(o.Bytes()), &s) != nil {
						if !stop {
							trouble = fmt.Sprintf("worker %d failed: %v\n%s", w, err, tail(e.String(), 4000))
						}
						return false
					}
					f := s.Found
					if sums[w] != nil {
						s = *merge([]*Summary{sums[w], &s})
						s.Found = f
					}
					sums[w] = &s
					if f == nil {
						return !stop
					}
					if zs.Race {
						f.Viol.Msg += "\n" + tail(e.String(), 6000)
					}
					// The others may stop, unless they have a lesser case.
					stop = true
					for _, p := range procs {
						if p != cmd {
							_ = p.Process.Kill()
						}
					}
					return false
				}() {
					return
				}
				next += n * workers
				left -= n
			}
		}()
	}
	wg.Wait()
	total := merge(sums)
	var best *Found
	for _, s := range sums {
		if s != nil && s.Found != nil && (best == nil || s.Found.Index < best.Index) {
			best = s.Found
		}
	}
	if best == nil && trouble != "" {
		fmt.Fprintln(os.Stderr, "vsim:", trouble)
		return 2
	}
	violations := 0
	status := 0
	if best != nil {
		path, ok := reportFound(self, prop, out, best)
		if ok {
			violations = 1
			status = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			fmt.Fprintf(os.Stderr, "vsim: case %d (seed %d) violated %s (%s: %s) but its replay does not\n", best.Index, best.Seed, prop, best.Viol.Class, best.Viol.Msg)
			status = 2
		}
	}
	writeEvidence(prop, seed, tier, out, total, violations, time.Since(start).Seconds(), best)
	if status == 0 {
		fmt.Printf("ok %s: %d runs, %d distinct, %d steps (at most %d), %d switches in %.1fs\n", prop, total.Cases, len(total.Hashes), total.Steps, total.MaxSteps, total.Switches, time.Since(start).Seconds())
		for _, k := range sortedKeys(total.Other) {
			fmt.Printf("note: %d runs also violated other properties: %s\n", total.Other[k], k)
		}
	}
	return status
}

// crashWord says what ended a process, if it was the code under test that did.
func crashWord(stderr string) string {
	at := strings.Index(stderr, "fatal error: ")
	if at < 0 {
		return ""
	}
	dump := stderr[at:]
	word, _, _ := strings.Cut(dump, "\n")
	if !strings.Contains(word, "stack overflow") && !strings.Contains(word, "concurrent map") && !strings.Contains(word, "out of memory") && !strings.Contains(word, "stuck") && !strings.Contains(word, "all goroutines are asleep") {
		return ""
	}
	n := 0
	for line := range strings.Lines(dump) {
		if n++; n > 5000 {
			break
		}
		if strings.HasPrefix(line, "github.com/dball/destructive/") && !strings.Contains(line, "/zsim/") {
			return word
		}
	}
	return ""
}

// crashTry runs the case in a process of its own, and returns a violation if that crashes.
func crashTry(self string, r *Replay) *Viol {
	dir, err := os.MkdirTemp("", "vsim")
	must(err)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "case.json")
	b, err := json.Marshal(r)
	must(err)
	must(os.WriteFile(path, b, 0o644))
	var stderr bytes.Buffer
	cmd := exec.Command(self, "crash", path)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0")
	cmd.Stderr = &stderr
	if cmd.Run() == nil {
		return nil
	}
	word := crashWord(stderr.String())
	if word == "" {
		return nil
	}
	props := []string{"C12", "C13"}
	if r.Case.Domain == "obj" {
		props = append(props, "C16", "C17", "C18")
	}
	return &Viol{Class: "crash", Op: -1, Msg: "the process crashed: " + word, Props: props}
}

// runFile runs the case of a file.
func runFile(path string) {
	b, err := os.ReadFile(path)
	must(err)
	var r Replay
	must(json.Unmarshal(b, &r))
	warm(&r)
	evaluate(r.Case)
}

// tryFile runs the case of a file, and prints the violation of its property as JSON.
func tryFile(path string) {
	b, err := os.ReadFile(path)
	must(err)
	var r Replay
	must(json.Unmarshal(b, &r))
	warm(&r)
	if v := pickViol(r.Property, evaluate(r.Case)); v != nil {
		b, err := json.Marshal(v)
		must(err)
		fmt.Println(string(b))
	}
}

// freshTry runs the case in a process of its own, and returns the violation, if there is one.
func freshTry(self string, r *Replay) *Viol {
	if r.Violation.Class == "crash" {
		return crashTry(self, r)
	}
	dir, err := os.MkdirTemp("", "vsim")
	must(err)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "case.json")
	b, err := json.Marshal(r)
	must(err)
	must(os.WriteFile(path, b, 0o644))
	cmd := exec.Command(self, "try", path)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0")
	o, err := cmd.Output()
	if err != nil {
		return nil
	}
	var v Viol
	if json.Unmarshal(lastLine(o), &v) != nil || v.Class == "" {
		return nil
	}
	return &v
}

func lastLine(b []byte) (line []byte) {
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(nil, 1<<30)
	for sc.Scan() {
		line = slices.Clone(sc.Bytes())
	}
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func merge(sums []*Summary) (t *Summary) {
	t = &Summary{Faults: map[string]int{}, Strats: map[string]int{}, Other: map[string]int{}}
	hashes, sites, pre := map[uint64]bool{}, map[int]bool{}, map[int]bool{}
	for _, s := range sums {
		if s == nil {
			continue
		}
		t.Cases += s.Cases
		t.Obj += s.Obj
		t.Multi += s.Multi
		t.Steps += s.Steps
		t.MaxSteps = max(t.MaxSteps, s.MaxSteps)
		t.Switches += s.Switches
		t.Blocks += s.Blocks
		t.Stalls += s.Stalls
		t.MapPerms += s.MapPerms
		t.Trivial += s.Trivial
		a, b := &t.Stats, s.Stats
		a.Ops += b.Ops
		a.Accepted += b.Accepted
		a.Rejected += b.Rejected
		a.Open += b.Open
		a.Queries += b.Queries
		a.Probes += b.Probes
		a.States += b.States
		a.Upserts += b.Upserts
		for k, n := range s.Faults {
			t.Faults[k] += n
		}
		for k, n := range s.Strats {
			t.Strats[k] += n
		}
		for k, n := range s.Other {
			t.Other[k] += n
		}
		for _, h := range s.Hashes {
			hashes[h] = true
		}
		for _, i := range s.Sites {
			sites[i] = true
		}
		for _, i := range s.Preempted {
			pre[i] = true
		}
		t.Digest = zs.Mix(t.Digest ^ s.Digest)
	}
	for h := range hashes {
		t.Hashes = append(t.Hashes, h)
	}
	for i := range sites {
		t.Sites = append(t.Sites, i)
	}
	for i := range pre {
		t.Preempted = append(t.Preempted, i)
	}
	sort.Ints(t.Sites)
	sort.Ints(t.Preempted)
	return
}

// reportFound minimises a failing case, writes its replay file, and confirms that it fails in a
// fresh process exactly as recorded.
func reportFound(self, prop, out string, f *Found) (path string, ok bool) {
	must(os.MkdirAll(filepath.Join(out, "replays"), 0o755))
	path = filepath.Join(out, "replays", prop+"-"+strconv.FormatUint(f.Seed, 16)+".json")
	r := &Replay{Property: prop, Seed: f.Seed, Index: f.Index, Violation: f.Viol, Race: zs.Race, Case: f.Case, Original: size(f.Case)}
	write := func(c *Case, v Viol) {
		r.Case, r.Violation, r.Size = c, v, size(c)
		b, err := json.MarshalIndent(r, "", " ")
		must(err)
		must(os.WriteFile(path, b, 0o644))
	}
	confirm := func() bool {
		for range 2 {
			cmd := exec.Command(self, "replay", path)
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0")
			err := cmd.Run()
			x, isExit := err.(*exec.ExitError)
			if err == nil || !isExit || x.ExitCode() != 1 {
				return false
			}
		}
		return true
	}
	tries := 1
	if zs.Race {
		tries = 4
	}
	alone := false
	for i := 0; i < tries && !alone; i++ {
		v := freshTry(self, &Replay{Property: prop, Violation: f.Viol, Case: f.Case})
		alone = v != nil && v.Class == f.Viol.Class
	}
	if alone {
		small, v := shrinkApart(self, &Replay{Property: prop, Violation: f.Viol, Case: f.Case}, false)
		write(small, v)
		if confirm() {
			return path, true
		}
	} else {
		// What it takes depends on what the process did before.
		r.Prelude = shrinkPrelude(self, prop, f)
	}
	small, v := shrinkApart(self, &Replay{Property: prop, Violation: f.Viol, Case: f.Case, Prelude: r.Prelude}, true)
	write(small, v)
	if confirm() {
		return path, true
	}
	write(f.Case, f.Viol)
	if !alone {
		r.Prelude = f.Prelude
		write(f.Case, f.Viol)
	}
	return path, confirm()
}

func size(c *Case) (n int) {
	var op func(o *Op)
	op = func(o *Op) {
		if o == nil {
			return
		}
		n += 1 + len(o.Claims) + len(o.Schema) + len(o.Rets) + len(o.Objs) + len(o.Dels)
		op(o.Nest)
	}
	for _, o := range c.Setup {
		op(o)
	}
	for _, t := range c.Tasks {
		for _, o := range t {
			op(o)
		}
	}
	return n + len(c.Trace)
}
