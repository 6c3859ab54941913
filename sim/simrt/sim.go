// Package simrt is the deterministic simulator's runtime. The instrumented program calls Y
// before every statement; exactly one task runs at a time, and the simulator alone decides
// where a task is preempted and which task runs next.
package simrt

import (
	"fmt"
	"runtime/debug"
	"time"
)

// MaxSites bounds the number of instrumented statements.
const MaxSites = 1 << 16

// HarnessSite is the site of the harness's own yields, i.e. of code that stands for the users'.
const HarnessSite = MaxSites - 1

type taskState uint8

const (
	runnable taskState = iota
	blocked
	done
)

// Phases of a task, which say whose code it is running.
const (
	PhaseNone    = iota // between operations
	PhaseDB             // inside a read or a write of the database
	PhaseQuery          // inside a query of a snapshot
	PhaseConsume        // inside user code that is consuming a query's sequence
)

type Task struct {
	ID       int
	Phase    int
	Op       int // the id of the operation being run
	state    taskState
	resume   chan struct{}
	stepAcc  uint64 // steps of the current op accrued before it was last switched in
	inAt     uint64 // global step at which the task was last switched in
	stall    uint64 // the global step until which the task is stalled
	mapRng   Rng
	mapOn    bool
	child    bool
	fn       func()
	waits    string
	consumer int
}

// Decision is one scheduling decision: when task T has run Step steps of operation Op, task To
// proceeds. Forced decisions are those taken because T blocked or finished.
type Decision struct {
	T    int    `json:"t"`
	Op   int    `json:"op"`
	Step uint64 `json:"step"`
	To   int    `json:"to"`
	F    bool   `json:"f,omitempty"`
	// Stall, if positive, is the number of steps for which T does not run again.
	Stall uint64 `json:"stall,omitempty"`
}

type dkey struct {
	t, op int
	step  uint64
	f     bool
}

type dstop struct{ t, op int }

// Strategy says how to generate decisions.
type Strategy struct {
	Seed     uint64
	Kind     string // "seq", "op", "walk", "pct", "hot"
	Mean     int    // the mean number of steps between preemptions, for walk
	Points   int    // the number of preemption points, for pct
	Span     int    // the number of steps over which pct distributes its points
	HotNum   int    // the number of hot sites, for hot
	StallPct int    // the percentage of preemptions that also stall the preempted task
}

// Failure is a violation detected by the simulator itself.
type Failure struct {
	Class string
	Msg   string
}

// Outcome is the result of a simulated run.
type Outcome struct {
	Trace    []Decision
	Steps    uint64
	Switches int
	Stalls   int
	Failure  *Failure
	Hash     uint64 // hash of the switches by task and site
	Blocks   int    // how often a task blocked on a lock
}

var (
	on       bool
	steps    uint64
	nextStop uint64
	maxSteps uint64
	cur      *Task
	hotOn    bool
	hot      [MaxSites]bool
	Hit      [MaxSites]bool
	Preempt  [MaxSites]bool
	sim      *simulation
)

type simulation struct {
	tasks    []*Task
	rng      Rng
	strat    Strategy
	replay   bool
	dec      map[dkey]Decision
	stops    map[dstop][]uint64
	points   []uint64
	prio     []int
	out      Outcome
	finished chan struct{}
	over     bool
	failures int
}

// endEdge orders what the tasks did before what follows the run, for the race detector.
var endEdge byte

// Y yields: the task may be preempted here.
//
//go:norace
func Y(site uint32) {
	if !on {
		return
	}
	Hit[site] = true
	steps++
	if steps >= nextStop || (hotOn && hot[site]) {
		slow(site)
	}
}

//go:norace
func (t *Task) opStep() uint64 { return t.stepAcc + (steps - t.inAt) }

//go:norace
func slow(site uint32) {
	s := sim
	t := cur
	if steps >= maxSteps {
		s.fail("livelock", fmt.Sprintf("task %d exceeded the step bound in op %d (phase %d)", t.ID, t.Op, t.Phase))
		s.park(t)
		return
	}
	if s.replay {
		d, ok := s.dec[dkey{t.ID, t.Op, t.opStep(), false}]
		if ok {
			s.preempt(t, d.To, d.Stall, site)
		}
		s.schedule(t)
		return
	}
	to, stall := s.choose(t, site)
	if to >= 0 {
		s.preempt(t, to, stall, site)
	}
	s.schedule(cur)
}

// schedule sets the next stop of the task which is about to run.
//
//go:norace
func (s *simulation) schedule(t *Task) {
	nextStop = maxSteps
	if s.replay {
		at := t.opStep()
		for _, st := range s.stops[dstop{t.ID, t.Op}] {
			if st > at && steps+(st-at) < nextStop {
				nextStop = steps + (st - at)
			}
		}
		return
	}
	switch s.strat.Kind {
	case "walk":
		nextStop = min(maxSteps, steps+1+uint64(s.rng.Intn(2*s.strat.Mean)))
	case "pct":
		for _, p := range s.points {
			if p > steps {
				nextStop = min(maxSteps, p)
				break
			}
		}
	}
}

//go:norace
func (s *simulation) eligible(except *Task) (ids []int) {
	for _, t := range s.tasks {
		if t != except && t.state == runnable && t.stall <= steps {
			ids = append(ids, t.ID)
		}
	}
	return
}

// choose chooses the task to run in place of t, or -1.
//
//go:norace
func (s *simulation) choose(t *Task, site uint32) (to int, stall uint64) {
	to = -1
	ids := s.eligible(t)
	if len(ids) == 0 {
		return
	}
	switch s.strat.Kind {
	case "hot":
		if !s.rng.P(1, 2) {
			return
		}
	case "pct":
		// The running task drops to the lowest priority.
		low := 0
		for _, p := range s.prio {
			low = min(low, p)
		}
		s.setPrio(t.ID, low-1)
		to = s.highest(ids)
		if s.rng.P(s.strat.StallPct, 100) {
			stall = uint64(50 + s.rng.Intn(4000))
		}
		return
	}
	to = ids[s.rng.Intn(len(ids))]
	if s.rng.P(s.strat.StallPct, 100) {
		stall = uint64(50 + s.rng.Intn(4000))
	}
	return
}

//go:norace
func (s *simulation) setPrio(id, p int) {
	for len(s.prio) <= id {
		s.prio = append(s.prio, 0)
	}
	s.prio[id] = p
}

//go:norace
func (s *simulation) highest(ids []int) int {
	best := ids[0]
	for _, id := range ids {
		if s.getPrio(id) > s.getPrio(best) {
			best = id
		}
	}
	return best
}

//go:norace
func (s *simulation) getPrio(id int) int {
	if id < len(s.prio) {
		return s.prio[id]
	}
	return 0
}

// preempt switches from the running task to another, if that may run.
//
//go:norace
func (s *simulation) preempt(t *Task, to int, stall uint64, site uint32) {
	if to < 0 || to >= len(s.tasks) || to == t.ID || s.tasks[to].state != runnable {
		return
	}
	if site < MaxSites {
		Preempt[site] = true
	}
	s.record(Decision{T: t.ID, Op: t.Op, Step: t.opStep(), To: to, Stall: stall}, site)
	if stall != 0 {
		s.out.Stalls++
		t.stall = steps + stall
	}
	s.switchTo(t, s.tasks[to])
}

//go:norace
func (s *simulation) record(d Decision, site uint32) {
	s.out.Trace = append(s.out.Trace, d)
	s.out.Switches++
	s.out.Hash = Mix(s.out.Hash ^ uint64(d.T)<<48 ^ uint64(d.To)<<40 ^ uint64(d.Op)<<24 ^ uint64(site))
}

// switchTo parks the running task and resumes the other.
//
//go:norace
func (s *simulation) switchTo(from, to *Task) {
	from.stepAcc = from.opStep()
	to.inAt = steps
	cur = to
	s.schedule(to)
	ReleaseMerge(&endEdge)
	raceDisable()
	to.resume <- struct{}{}
	<-from.resume
	raceEnable()
}

// park parks the running task for good.
//
//go:norace
func (s *simulation) park(t *Task) {
	raceDisable()
	<-t.resume
	raceEnable()
}

// fail records a failure of the simulation and ends it. The caller must park.
//
//go:norace
func (s *simulation) fail(class, msg string) {
	if s.out.Failure == nil {
		s.out.Failure = &Failure{Class: class, Msg: msg}
	}
	s.end()
}

//go:norace
func (s *simulation) end() {
	if s.over {
		return
	}
	ReleaseMerge(&endEdge)
	s.over = true
	on = false
	cur = nil
	raceDisable()
	s.finished <- struct{}{}
	raceEnable()
}

// Block parks the running task until another task wakes it.
//
//go:norace
func Block(why string) {
	s := sim
	t := cur
	was := on
	if !was {
		// The others may go on while what is quiet waits.
		on = true
		steps++
	}
	t.state = blocked
	t.waits = why
	s.out.Blocks++
	next := s.forced(t)
	if next == nil {
		s.fail("deadlock", s.describe())
		s.park(t)
		return
	}
	s.switchTo(t, next)
	on = was
}

//go:norace
func (s *simulation) describe() (msg string) {
	for _, t := range s.tasks {
		if t.state == blocked {
			msg += fmt.Sprintf("task %d is blocked on %s in op %d (phase %d); ", t.ID, t.waits, t.Op, t.Phase)
		}
	}
	return
}

// forced chooses the task to run after t blocks or finishes, or nil if there is none.
//
//go:norace
func (s *simulation) forced(t *Task) (next *Task) {
	ids := s.eligible(t)
	if len(ids) == 0 {
		// Only stalled tasks can run.
		var stalled []*Task
		for _, o := range s.tasks {
			if o != t && o.state == runnable {
				stalled = append(stalled, o)
			}
		}
		if len(stalled) == 0 {
			return nil
		}
		s.interference(stalled)
		if s.over {
			s.park(t)
		}
		next = stalled[0]
		for _, o := range stalled {
			if o.stall < next.stall {
				next = o
			}
		}
		next.stall = 0
		return
	}
	to := ids[0]
	if s.replay {
		d, ok := s.dec[dkey{t.ID, t.Op, t.opStep(), true}]
		if ok {
			for _, id := range ids {
				if id == d.To {
					to = id
				}
			}
		}
	} else {
		switch s.strat.Kind {
		case "seq":
		case "pct":
			to = s.highest(ids)
		default:
			to = ids[s.rng.Intn(len(ids))]
		}
	}
	if to != ids[0] {
		s.record(Decision{T: t.ID, Op: t.Op, Step: t.opStep(), To: to, F: true}, MaxSites)
	}
	return s.tasks[to]
}

// interference fails the run if tasks that must not wait for the stalled tasks are waiting.
//
//go:norace
func (s *simulation) interference(stalled []*Task) {
	allConsume, allDB := true, true
	for _, o := range stalled {
		if o.Phase != PhaseConsume || o.consumer == 0 {
			allConsume = false
		}
		if o.Phase != PhaseDB {
			allDB = false
		}
	}
	for _, b := range s.tasks {
		if b.state != blocked {
			continue
		}
		if allConsume {
			s.fail("blockedByReader", fmt.Sprintf("task %d waits for %s in op %d while a consumer of a snapshot is stalled", b.ID, b.waits, b.Op))
			return
		}
		if allDB && b.Phase == PhaseQuery {
			s.fail("queryBlocked", fmt.Sprintf("task %d waits for %s in a snapshot query (op %d) while a writer is stalled", b.ID, b.waits, b.Op))
			return
		}
	}
}

// Wake makes a blocked task runnable.
//
//go:norace
func Wake(t *Task) {
	if t.state == blocked {
		t.state = runnable
		t.waits = ""
	}
}

// Current returns the running task, or nil if no simulation is running.
//
//go:norace
func Current() *Task { return cur }

// StartOp marks the beginning of an operation of the running task, which may be preempted here.
//
//go:norace
func StartOp(op int, mapSeed uint64) {
	t := cur
	if !on || t == nil {
		return
	}
	t.Op = op
	t.stepAcc = 0
	t.inAt = steps
	t.mapOn = mapSeed != 0
	t.mapRng = Rng{mapSeed}
	s := sim
	if s.replay {
		d, ok := s.dec[dkey{t.ID, t.Op, 0, false}]
		if ok {
			s.preempt(t, d.To, d.Stall, MaxSites)
		}
	} else if s.strat.Kind == "op" || (s.strat.Kind != "seq" && s.rng.P(1, 3)) {
		ids := s.eligible(t)
		i := s.rng.Intn(len(ids) + 1)
		if i < len(ids) {
			s.preempt(t, ids[i], 0, MaxSites)
		}
	}
	s.schedule(t)
}

// SetPhase sets the phase of the running task and returns the previous one.
//
//go:norace
func SetPhase(phase int) (was int) {
	if cur == nil {
		return
	}
	was = cur.Phase
	cur.Phase = phase
	return
}

// UserYield is a yield in the users' code.
//
//go:norace
func UserYield() {
	t := cur
	if !on || t == nil {
		return
	}
	t.consumer++
	Y(HarnessSite)
	t.consumer--
}

// Quiet runs f without preemption or counting steps.
//
//go:norace
func Quiet(f func()) {
	was := on
	on = false
	defer quietEnd(was)
	f()
}

//go:norace
func quietEnd(was bool) { on = was }

// Now is the simulated clock.
//
//go:norace
func Now() time.Time {
	return time.UnixMilli(1_700_000_000_000).Add(time.Duration(steps)*time.Microsecond + slept)
}

//go:norace
func Since(t time.Time) time.Duration { return Now().Sub(t) }

//go:norace
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

//go:norace
func Sleep(d time.Duration) {
	if cur == nil {
		time.Sleep(d)
		return
	}
	sleepUntil(Now().Add(d))
}

// slept is the time that passed while tasks slept.
var slept time.Duration

//go:norace
func sleepUntil(at time.Time) {
	Gosched()
	slept += max(0, at.Sub(Now()))
}

// Gosched offers to run another task.
//
//go:norace
func Gosched() {
	if !on {
		return
	}
	Y(HarnessSite)
	s, t := sim, cur
	if s.replay {
		return
	}
	ids := s.eligible(t)
	if len(ids) != 0 {
		steps++
		s.preempt(t, ids[s.rng.Intn(len(ids))], 0, HarnessSite)
		s.schedule(cur)
	}
}

// Panicked is called with the value and stack of a panic that escapes a task, and whether it is
// one that the code under test started.
var Panicked func(child bool, op int, value any, stack []byte)

//go:norace
func (s *simulation) body(t *Task) {
	raceDisable()
	<-t.resume
	raceEnable()
	defer s.finish(t)
	t.fn()
}

//go:norace
func (s *simulation) finish(t *Task) {
	r := recover()
	if r != nil && Panicked != nil {
		stack := debug.Stack()
		was := on
		on = false
		Panicked(t.child, t.Op, r, stack)
		on = was
	}
	if s.over {
		return
	}
	t.state = done
	ReleaseMerge(&endEdge)
	next := s.forced(t)
	if next == nil {
		for _, o := range s.tasks {
			if o.state == blocked {
				s.fail("deadlock", s.describe())
				return
			}
		}
		s.end()
		return
	}
	next.inAt = steps
	cur = next
	s.schedule(next)
	raceDisable()
	next.resume <- struct{}{}
	raceEnable()
}

// Go runs f in a new task, on behalf of the running task.
//
//go:norace
func Go(f func()) {
	if cur == nil {
		go f()
		return
	}
	s := sim
	t := &Task{ID: len(s.tasks), resume: make(chan struct{}, 1), fn: f, Op: cur.Op, Phase: cur.Phase, child: true, mapOn: cur.mapOn, mapRng: Rng{cur.mapRng.s + 1}}
	t.inAt = steps
	s.tasks = append(s.tasks, t)
	s.setPrio(t.ID, s.rng.Intn(1000))
	go s.body(t)
	Y(HarnessSite)
}

// Run runs the tasks to completion, or failure, and returns the outcome.
//
//go:norace
func Run(fns []func(), strat Strategy, trace []Decision, bound uint64) Outcome {
	s := &simulation{strat: strat, finished: make(chan struct{}, 1), rng: Rng{strat.Seed}}
	if strat.Kind == "replay" {
		s.replay = true
		s.dec = make(map[dkey]Decision, len(trace))
		s.stops = map[dstop][]uint64{}
		for _, d := range trace {
			s.dec[dkey{d.T, d.Op, d.Step, d.F}] = d
			if !d.F {
				k := dstop{d.T, d.Op}
				s.stops[k] = append(s.stops[k], d.Step)
			}
		}
	}
	for i, fn := range fns {
		t := &Task{ID: i, Op: -1, resume: make(chan struct{}, 1), fn: fn}
		s.tasks = append(s.tasks, t)
		s.setPrio(i, s.rng.Intn(1000))
	}
	sim = s
	resetChans()
	slept = 0
	steps = 0
	maxSteps = bound
	hotOn = false
	switch strat.Kind {
	case "pct":
		for range strat.Points {
			s.points = append(s.points, uint64(1+s.rng.Intn(strat.Span)))
		}
		for i := range s.points {
			for j := i + 1; j < len(s.points); j++ {
				if s.points[j] < s.points[i] {
					s.points[i], s.points[j] = s.points[j], s.points[i]
				}
			}
		}
	case "hot":
		hotOn = true
		chooseHot(&s.rng, strat.HotNum)
	}
	for _, t := range s.tasks {
		go s.body(t)
	}
	first := s.tasks[0]
	if !s.replay && strat.Kind != "seq" {
		first = s.tasks[s.rng.Intn(len(s.tasks))]
		if first.ID != 0 {
			s.record(Decision{T: -1, Op: -1, To: first.ID, F: true}, MaxSites)
		}
	} else if s.replay {
		d, ok := s.dec[dkey{-1, -1, 0, true}]
		if ok && d.To < len(s.tasks) {
			first = s.tasks[d.To]
			s.record(d, MaxSites)
		}
	}
	cur = first
	s.schedule(first)
	on = true
	raceDisable()
	first.resume <- struct{}{}
	<-s.finished
	raceEnable()
	Acquire(&endEdge)
	on = false
	cur = nil
	s.out.Steps = steps
	return s.out
}

var hotList []uint32

//go:norace
func chooseHot(rng *Rng, n int) {
	for _, site := range hotList {
		hot[site] = false
	}
	hotList = hotList[:0]
	if sites == 0 {
		return
	}
	for range n {
		site := uint32(rng.Intn(int(sites)))
		hot[site] = true
		hotList = append(hotList, site)
	}
	if rng.P(1, 4) {
		hot[HarnessSite] = true
		hotList = append(hotList, HarnessSite)
	}
}

var sites uint32

// SetSites says how many sites there are.
func SetSites(n uint32) { sites = n }

// Sites returns how many sites there are.
func Sites() uint32 { return sites }
