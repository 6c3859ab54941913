package simrt

import (
	"iter"
	"reflect"
	"time"
)

// Channels hold what they have buffered themselves; tasks that wait for a channel wait here.

type waiter struct {
	s    *selection
	i    int
	send bool
	slot any // a pointer to the value
	key  uintptr
	next *waiter
}

// selection is one wait for some of several channel operations.
type selection struct {
	t     *Task
	fired int
	ok    bool
	edge  byte
	back  byte
}

// waiting lists the waiters, oldest first. The race detector must not see its uses.
var waiting *waiter

//go:norace
func resetChans() { waiting = nil }

//go:norace
func enlist(w *waiter) {
	p := &waiting
	for *p != nil {
		p = &(*p).next
	}
	*p = w
}

// Case is a case of a select statement.
type Case interface {
	try() bool
	wait(s *selection, i int)
	native() reflect.SelectCase
	took(v reflect.Value, ok bool)
	done(s *selection)
}

// RecvOp receives from a channel.
type RecvOp[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// SendOp sends to a channel.
type SendOp[T any] struct {
	ch chan<- T
	v  T
}

func CaseRecv[T any](ch <-chan T) *RecvOp[T] { return &RecvOp[T]{ch: ch} }

func CaseSend[T any](ch chan<- T) func(v T) *SendOp[T] {
	return func(v T) *SendOp[T] { return &SendOp[T]{ch: ch, v: v} }
}

//go:norace
func chanKey(ch any) uintptr { return reflect.ValueOf(ch).Pointer() }

// partner takes the oldest task that waits to do the opposite.
//
//go:norace
func partner(key uintptr, send bool) *waiter {
	for w := waiting; w != nil; w = w.next {
		if w.key == key && w.send != send && w.s.fired < 0 {
			Acquire(&w.s.edge)
			return w
		}
	}
	return nil
}

// fire completes what a task waits for.
//
//go:norace
func (w *waiter) fire(ok bool) {
	w.s.fired = w.i
	w.s.ok = ok
	ReleaseMerge(&w.s.back)
	Wake(w.s.t)
}

// drop removes the waiters of a selection.
//
//go:norace
func drop(s *selection) {
	p := &waiting
	for *p != nil {
		if (*p).s == s {
			*p = (*p).next
		} else {
			p = &(*p).next
		}
	}
}

//go:norace
func (c *RecvOp[T]) try() bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.V, c.OK = <-c.ch:
		if w := partner(chanKey(c.ch), false); w != nil && c.OK {
			// There is room for what a task waits to send.
			refill(c.ch, w)
		}
		return true
	default:
	}
	w := partner(chanKey(c.ch), false)
	if w == nil {
		return false
	}
	c.V, c.OK = *w.slot.(*T), true
	w.fire(true)
	return true
}

// refill sends what a task waits to send.
//
//go:norace
func refill[T any](ch <-chan T, w *waiter) {
	v := reflect.ValueOf(ch)
	// The channel was converted to one of receiving only.
	both := reflect.NewAt(reflect.ChanOf(reflect.BothDir, v.Type().Elem()), ptrTo(&ch)).Elem()
	if both.TrySend(reflect.ValueOf(w.slot).Elem()) {
		w.fire(true)
	}
}

//go:norace
func (c *RecvOp[T]) wait(s *selection, i int) {
	if c.ch != nil {
		enlist(&waiter{s: s, i: i, slot: &c.V, key: chanKey(c.ch)})
	}
}

//go:norace
func (c *RecvOp[T]) done(s *selection) { c.OK = s.ok }

//go:norace
func (c *RecvOp[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

//go:norace
func (c *RecvOp[T]) took(v reflect.Value, ok bool) {
	c.OK = ok
	reflect.ValueOf(&c.V).Elem().Set(v)
}

//go:norace
func (c *SendOp[T]) try() bool {
	if c.ch == nil {
		return false
	}
	// A task that waits to receive goes before the buffer, which is empty.
	if w := partner(chanKey(c.ch), true); w != nil {
		*w.slot.(*T) = c.v
		w.fire(true)
		return true
	}
	select {
	case c.ch <- c.v:
		return true
	default:
	}
	return false
}

//go:norace
func (c *SendOp[T]) wait(s *selection, i int) {
	if c.ch != nil {
		enlist(&waiter{s: s, i: i, send: true, slot: &c.v, key: chanKey(c.ch)})
	}
}

//go:norace
func (c *SendOp[T]) done(s *selection) {
	if !s.ok {
		panic("send on closed channel")
	}
}

//go:norace
func (c *SendOp[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}

//go:norace
func (c *SendOp[T]) took(v reflect.Value, ok bool) {}

// Select stands for a select statement. It returns the index of the case, or -1 for the default.
//
//go:norace
func Select(def bool, cases ...Case) int {
	if cur == nil {
		var scs []reflect.SelectCase
		for _, c := range cases {
			scs = append(scs, c.native())
		}
		if def {
			scs = append(scs, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(scs)
		if i == len(cases) {
			return -1
		}
		cases[i].took(v, ok)
		return i
	}
	Y(HarnessSite)
	n := len(cases)
	from := 0
	if n > 1 {
		// Which of the ready cases proceeds is up to the simulator.
		from = cur.mapRng.Intn(n)
	}
	for k := range n {
		i := (from + k) % n
		if cases[i].try() {
			Y(HarnessSite)
			return i
		}
	}
	if def {
		return -1
	}
	s := &selection{t: cur, fired: -1}
	for i, c := range cases {
		c.wait(s, i)
	}
	ReleaseMerge(&s.edge)
	Block("a channel")
	Acquire(&s.back)
	drop(s)
	if s.fired < 0 {
		// The simulation is over.
		sim.park(s.t)
	}
	cases[s.fired].done(s)
	return s.fired
}

// Recv stands for receiving from a channel.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	if cur == nil {
		return <-ch
	}
	c := CaseRecv(ch)
	Select(false, c)
	return c.V
}

// Recv2 stands for receiving from a channel that may be closed.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-ch
		return v, ok
	}
	c := CaseRecv(ch)
	Select(false, c)
	return c.V, c.OK
}

// SendTo stands for sending to a channel.
func SendTo[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if cur == nil {
			ch <- v
			return
		}
		Select(false, CaseSend(ch)(v))
	}
}

// CloseChan stands for closing a channel.
//
//go:norace
func CloseChan[T any](ch chan<- T) {
	close(ch)
	if cur == nil {
		return
	}
	for {
		w := partner(chanKey(ch), true)
		if w == nil {
			w = partner(chanKey(ch), false)
		}
		if w == nil {
			break
		}
		w.fire(false)
	}
	Y(HarnessSite)
}

// ChanRange stands for ranging over a channel.
func ChanRange[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// After stands for time.After.
//
//go:norace
func After(d time.Duration) <-chan time.Time {
	if cur == nil {
		return time.After(d)
	}
	ch := make(chan time.Time, 1)
	at := Now().Add(d)
	Go(func() {
		sleepUntil(at)
		Select(true, CaseSend(ch)(Now()))
	})
	return ch
}
