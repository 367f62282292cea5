// Package simrt is the simulator's runtime: the part that is compiled into the
// instrumented copy of the code under test. It owns the logical clock, the
// scheduler, map iteration order and every blocking primitive.
//
// Exactly one task goroutine runs at a time; a task hands control back only at
// a yield point (Y, inserted before every statement of the code under test) or
// when it blocks. Which task runs next and for how many steps is decided by the
// Sim's Chooser, so a run is a pure function of the chooser and the code.
package simrt

import (
	"fmt"
	"iter"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
)

const maxSites = 1 << 14

// Hits counts how often each instrumented statement ran, in this process.
var Hits [maxSites]uint64

var cur *Task
var active *Sim

type taskState uint8

const (
	stRunnable taskState = iota
	stBlocked            // cond != nil, runnable once it holds
	stSleeping           // until wake
	stDone
)

// Task is one simulated thread of control.
type Task struct {
	ID   int
	Name string

	Steps   int64 // logical steps executed
	limit   int64 // step budget (absolute)
	quantum int64
	site    uint32

	state  taskState
	cond   func() bool
	onWhat string
	wake   time.Duration
	dying  bool
	grace  int64

	sim    *Sim
	resume chan struct{}
	done   chan struct{}

	// Outcome.
	Finished  bool   // fn returned
	Exhausted bool   // step budget exceeded
	Panicked  bool   // fn panicked
	PanicVal  any    // with this
	PanicPos  string // and this stack
	killed    bool
	child     bool  // started by a go statement
	root      *Task // the task that it was started on behalf of

	Notes []any // what the harness wants to remember about a child task
}

// Seg is one scheduling decision: run task T for at most N steps.
type Seg struct {
	T int
	N int64
}

// Chooser decides the schedule.
type Chooser interface {
	// Next picks one of the runnable tasks and a quantum (>0).
	Next(runnable []*Task) (*Task, int64)
}

// Sim is one simulated execution.
type Sim struct {
	Now      time.Duration // simulated clock
	Choose   Chooser
	Trace    []Seg // decisions actually taken
	Switches int
	SigHash  uint64 // hash of the interleaving (task, site at each preemption)
	OnSwitch func(from *Task, site uint32, to *Task)
	Deadlock bool // all live tasks blocked forever
	Blocked  []string
	// Idle is called when no task can run and no timer is pending, before a
	// deadlock is declared. It returns true if it made something runnable.
	Idle func() bool

	mapRng uint64
	tasks  []*Task
	back   chan struct{}
	forced *Task
	last   *Task
	total  int64
}

// New returns an empty simulation; seed drives map order and pool behaviour.
func New(ch Chooser, seed uint64) *Sim {
	return &Sim{Choose: ch, mapRng: seed*2 + 1, back: make(chan struct{}), SigHash: 14695981039346656037}
}

//go:norace
func (s *Sim) rnd() uint64 {
	s.mapRng += 0x9e3779b97f4a7c15
	z := s.mapRng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Allow adds n steps to the budget of the current task.
func Allow(n int64) {
	if t := cur; t != nil {
		t.limit += n
	}
}

// Spawn adds a task with the given step budget.
//
//go:norace
func (s *Sim) Spawn(name string, budget int64, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, limit: budget, sim: s, resume: make(chan struct{}), done: make(chan struct{})}
	s.tasks = append(s.tasks, t)
	go t.main(fn)
	return t
}

func (t *Task) main(fn func()) {
	raceOff()
	<-t.resume
	raceOn()
	if !t.killed {
		t.guard(fn)
	}
	close(t.done) // real happens-before edge: task results -> whoever joins
	raceOff()
	t.finish()
	raceOn()
}

//go:norace
func (t *Task) finish() {
	t.state = stDone
	t.sim.back <- struct{}{}
}

func (t *Task) guard(fn func()) {
	normal := false
	defer func() {
		if normal {
			return
		}
		r := recover()
		if r == nil || t.Exhausted || t.killed {
			// Goexit in progress: it cannot be stopped, so finish here.
			close(t.done)
			raceOff()
			t.finish()
			raceOn()
			return
		}
		t.Panicked = true
		t.PanicVal = r
		t.PanicPos = string(debug.Stack())
	}()
	fn()
	t.Finished = true
	normal = true
}

// Y is the yield point inserted before every statement.
//
//go:norace
func Y(site uint32) {
	t := cur
	if t == nil {
		return
	}
	Hits[site]++
	t.Steps++
	t.site = site
	t.quantum--
	if t.quantum <= 0 {
		t.slow()
	}
}

//go:norace
func (t *Task) slow() {
	if t.dying {
		t.grace++
		if t.grace > 200000 {
			// Deferred code does not end either: abandon the goroutine.
			t.state = stDone
			raceOff()
			t.sim.back <- struct{}{}
			select {}
		}
		t.quantum = 1
		return
	}
	if t.Steps >= t.limit {
		t.Exhausted = true
		t.dying = true
		t.quantum = 1
		runtime.Goexit()
	}
	t.park(stRunnable)
}

//go:norace
func (t *Task) park(st taskState) {
	t.state = st
	raceOff()
	t.sim.back <- struct{}{}
	<-t.resume
	raceOn()
	if t.killed && !t.dying {
		t.dying = true
		runtime.Goexit()
	}
}

// Run executes the simulation until every task is done or no task can proceed.
//
//go:norace
func (s *Sim) Run() {
	active = s
	pending = nil
	defer func() { active = nil; cur = nil }()
	runnable := make([]*Task, 0, 8)
	for {
		runnable = runnable[:0]
		live := 0
		for _, t := range s.tasks {
			switch t.state {
			case stDone:
				continue
			case stBlocked:
				live++
				if t.cond() {
					t.state = stRunnable
					runnable = append(runnable, t)
				}
			case stSleeping:
				live++
				if t.wake <= s.Now {
					t.state = stRunnable
					runnable = append(runnable, t)
				}
			default:
				live++
				runnable = append(runnable, t)
			}
		}
		if live == 0 {
			return
		}
		if len(runnable) == 0 {
			// Jump the clock to the next timer.
			var next *Task
			for _, t := range s.tasks {
				if t.state == stSleeping && (next == nil || t.wake < next.wake) {
					next = t
				}
			}
			if next != nil {
				s.Now = next.wake
				continue
			}
			if s.Idle != nil && s.Idle() {
				continue
			}
			// A goroutine of the code under test that is left waiting when
			// every caller is done is only a leak.
			for _, t := range s.tasks {
				if t.state == stBlocked && !t.child {
					s.Deadlock = true
				}
			}
			for _, t := range s.tasks {
				if t.state == stBlocked && s.Deadlock {
					s.Blocked = append(s.Blocked, fmt.Sprintf("%s on %s", t.Name, t.onWhat))
				}
			}
			s.killAll()
			return
		}
		var t *Task
		var q int64
		if s.forced != nil && s.forced.state == stRunnable {
			t, q = s.forced, 1
			s.forced = nil
		} else {
			t, q = s.Choose.Next(runnable)
		}
		if q < 1 {
			q = 1
		}
		if rem := t.limit - t.Steps; q > rem {
			q = rem
		}
		if s.last != nil && s.last != t {
			s.Switches++
			s.SigHash = (s.SigHash ^ uint64(t.ID+1)<<32 ^ uint64(s.last.ID+1)<<40 ^ uint64(s.last.site)) * 1099511628211
			if s.OnSwitch != nil {
				s.OnSwitch(s.last, s.last.site, t)
			}
		}
		s.step(t, q)
	}
}

//go:norace
func (s *Sim) step(t *Task, q int64) {
	before := t.Steps
	t.quantum = q
	s.last = t
	cur = t
	raceOff()
	t.resume <- struct{}{}
	<-s.back
	raceOn()
	cur = nil
	used := t.Steps - before
	s.total += used
	s.Now += time.Duration(used) * time.Nanosecond
	if n := len(s.Trace); n > 0 && s.Trace[n-1].T == t.ID {
		s.Trace[n-1].N += q
	} else {
		s.Trace = append(s.Trace, Seg{t.ID, q})
	}
	if t.state == stDone {
		<-t.done0()
	}
}

// done0 returns t.done unless the goroutine was abandoned mid-defer.
func (t *Task) done0() <-chan struct{} {
	if t.grace > 200000 {
		c := make(chan struct{})
		close(c)
		return c
	}
	return t.done
}

//go:norace
func (s *Sim) killAll() {
	for _, t := range s.tasks {
		if t.state != stDone {
			t.killed = true
			t.state = stRunnable
			for t.state != stDone {
				s.step(t, 1<<40)
				if t.state == stDone {
					break
				}
				t.state = stRunnable
			}
		}
	}
}

// Child tells whether the task was started by a go statement.
func (t *Task) Child() bool { return t.child }

// Root returns the spawned task that t works for: itself, unless t was started
// by a go statement.
//
//go:norace
func (t *Task) Root() *Task {
	if t.root != nil {
		return t.root
	}
	return t
}

// Tasks returns all tasks ever spawned.
func (s *Sim) Tasks() []*Task { return s.tasks }

// TotalSteps is the number of statements executed under simulation.
func (s *Sim) TotalSteps() int64 { return s.total }

// Site returns the last yield site of the task.
//
//go:norace
func (t *Task) Site() uint32 { return t.site }

// Cur returns the running task, nil outside a simulation.
//
//go:norace
func Cur() *Task { return cur }

// Active returns the running simulation.
//
//go:norace
func Active() *Sim { return active }

// WaitUntil blocks the current task until cond, which must have no effects,
// holds; it still holds when WaitUntil returns.
//
//go:norace
func WaitUntil(what string, cond func() bool) {
	if cur != nil {
		cur.Steps++
	}
	for !cond() {
		wait(what, cond)
		// Another task may have been first.
		if cur == nil {
			return
		}
	}
}

// WaitDo blocks the current task until do, which has its effect exactly when
// it returns true, has succeeded.
//
//go:norace
func WaitDo(what string, do func() bool) {
	if cur != nil {
		cur.Steps++
	}
	if !do() {
		wait(what, do)
	}
}

//go:norace
func wait(what string, cond func() bool) {
	t := cur
	if t == nil {
		panic("simrt: " + what + " would block outside the simulation")
	}
	if t.dying {
		// A deferred unlock/wait of a killed task: give up.
		runtime.Goexit()
	}
	t.cond = cond
	t.onWhat = what
	t.park(stBlocked)
	t.cond = nil
}

// Sleep blocks the current task for d of simulated time.
//
//go:norace
func Sleep(d time.Duration) {
	t := cur
	if t == nil {
		return
	}
	t.wake = t.sim.Now + d
	t.park(stSleeping)
}

// Point is a yield inside harness code (readers, writers, callbacks): it gives
// the scheduler a chance to switch there.
//
//go:norace
func Point() {
	t := cur
	if t == nil || t.dying {
		return
	}
	t.Steps++
	t.quantum--
	if t.quantum <= 0 {
		t.slow()
	}
}

// Go replaces a go statement. The child runs first, up to its first yield, so
// that its arguments are evaluated at the go statement.
//
//go:norace
func Go(fn func()) {
	t := cur
	if t == nil {
		panic("simrt: go statement outside the simulation")
	}
	s := t.sim
	c := s.Spawn(fmt.Sprintf("%s/g%d", t.Name, len(s.tasks)), t.limit, fn)
	c.child = true
	c.root = t.Root()
	s.forced = c
	t.park(stRunnable)
}

// ---- maps and channels ---------------------------------------------------

// MapSeq iterates m in an order drawn from the simulation's PRNG (sorted order
// outside a simulation). Like range, it skips entries deleted meanwhile.
func MapSeq[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return less(any(keys[i]), any(keys[j])) })
		shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

//go:norace
func shuffle(n int, swap func(i, j int)) {
	if active == nil {
		return
	}
	MapIters++
	for i := n - 1; i > 0; i-- {
		j := int(active.rnd() % uint64(i+1))
		swap(i, j)
	}
}

// MapIters counts map iterations whose order the simulator chose.
var MapIters uint64

func less(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	case rune:
		return x < b.(rune)
	case byte:
		return x < b.(byte)
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

type pend struct {
	ch    any
	v     any
	taken *bool
}

var pending []*pend

// Send replaces a channel send statement.
func Send[T any](ch chan<- T, v T) {
	if cap(ch) > 0 || cur == nil {
		WaitDo("channel send", func() bool {
			select {
			case ch <- v:
				return true
			default:
				return false
			}
		})
		return
	}
	taken := false
	p := &pend{ch: any(ch), v: v, taken: &taken}
	pending = append(pending, p)
	WaitDo("channel send", func() bool { return taken })
}

// Recv replaces a channel receive expression.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 replaces the comma-ok form of a channel receive.
func Recv2[T any](ch <-chan T) (T, bool) {
	var v T
	var ok bool
	WaitDo("channel receive", func() bool {
		select {
		case v, ok = <-ch:
			return true
		default:
		}
		for i, p := range pending {
			if sameChan(p.ch, ch) {
				v, ok = p.v.(T), true
				*p.taken = true
				pending = append(pending[:i], pending[i+1:]...)
				return true
			}
		}
		return false
	})
	return v, ok
}

func sameChan(a, b any) bool { return fmt.Sprintf("%p", a) == fmt.Sprintf("%p", b) }

// Poll is the default case added to a select without one: it waits until some
// other task has made a step, then the select is tried again.
//
//go:norace
func Poll() {
	t := cur
	if t == nil {
		panic("simrt: select would block outside the simulation")
	}
	s := t.sim
	mark := int64(-1)
	t.Steps++
	wait("select", func() bool {
		n := s.total - t.Steps
		if mark < 0 {
			mark = n // first evaluated once this task's own steps are counted
		}
		return n != mark
	})
}

// ChanSeq replaces range over a channel.
func ChanSeq[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Sequential always runs the lowest-numbered runnable task as long as it can.
type Sequential struct{}

func (Sequential) Next(ts []*Task) (*Task, int64) { return ts[0], 1 << 50 }
