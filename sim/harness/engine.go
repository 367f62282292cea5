package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"bibsim/simrt"
)

// Prop is one decided property.
type Prop struct {
	ID    string
	Level string
	Rule  string
	New   func() any                         // fresh case to decode JSON into
	Gen   func(r *R, tier Tier) any          // case from the run's generator
	Run   func(c *Ctx, cs any)               // one simulated run
	Valid func(cs any) bool                  // shrinking must stay inside this
	Alone func(c *Ctx, cs any, k int) string // operation k alone

	Quick, Thorough int64 // number of runs
	ColdQuick       int64 // runs each in a process of its own
	ColdThorough    int64
	RaceQuick       int64 // runs under the race detector
	RaceThorough    int64
	Real, Stub      []string // components run for real / stubbed
	Faults          []string // fault kinds that must have fired at least once
	Probes          []string // probes that must not stay at zero
}

type Tier string

func (t Tier) Thorough() bool { return t == "thorough" }

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// ---- one run --------------------------------------------------------------

type failure struct{ Sig, Msg string }

// Ctx is the context of one simulated run.
type Ctx struct {
	St       *Stats
	Tier     Tier
	Verbose  bool
	evh      uint64
	fired    int // faults fired and preemptions taken in this run
	Segs     []simrt.Seg
	sig      uint64 // interleaving
	cold     bool
	disk     *disk
	mapSeed  uint64
	log      []string
	inTask   bool
	multi    bool
	replayed bool
}

func (c *Ctx) Fail(sig, format string, a ...any) {
	panic(&failure{sig, fmt.Sprintf(format, a...)})
}

func (c *Ctx) Event(s string) {
	c.evh = mix(c.evh ^ hstr(s))
	if c.Verbose {
		c.log = append(c.log, s)
	}
}

func (c *Ctx) EventU(u uint64) { c.evh = mix(c.evh ^ u) }

// noted is a fault that hit a goroutine of the code under test: it is counted
// afterwards, as such goroutines must not meet in the harness's own memory.
type noted struct {
	c    *Ctx
	kind string
}

func countNoted(s *simrt.Sim) {
	for _, t := range s.Tasks() {
		for _, n := range t.Notes {
			if n, ok := n.(noted); ok {
				n.c.Fault(n.kind)
			}
		}
	}
}

// Fault records that an injected fault actually happened.
func (c *Ctx) Fault(kind string) {
	if t := simrt.Cur(); t != nil && t.Child() {
		t.Notes = append(t.Notes, noted{c, kind})
		return
	}
	c.St.Faults[kind]++
	c.fired++
	c.evh = mix(c.evh ^ hstr(kind))
	if c.Verbose {
		c.log = append(c.log, "fault: "+kind)
	}
}

// Eval counts one oracle evaluation.
func (c *Ctx) Eval() { c.St.Evals++ }

// Outcome runs fn in a simulation and returns its text, or how it failed to
// produce one. Used where two outcomes are compared and C03/C08 judge crashes.
func (c *Ctx) Outcome(name string, bud int64, fn func() string) string {
	var out string
	o := c.Do(name, bud, func() { out = fn() })
	switch {
	case o.Panicked:
		return "PANIC " + topFrame(o.T.PanicPos)
	case o.Hang:
		return "HANG"
	case o.Deadlock:
		return "BLOCKED"
	}
	return out
}

func crashed(s string) bool {
	return strings.HasPrefix(s, "PANIC ") || s == "HANG" || s == "BLOCKED"
}

// ratio records the worst steps-per-byte seen, in hundredths.
func (c *Ctx) ratio(name string, steps int64, n int) {
	if n < 200 {
		return
	}
	if v := uint64(steps * 100 / int64(n)); v > c.St.Max["steps-per-100-bytes "+name] {
		c.St.Max["steps-per-100-bytes "+name] = v
	}
}

func (c *Ctx) Probe(name string) { c.St.Probes[name]++ }

// budget is the number of steps an operation over n bytes may take. It is a
// hang detector, two orders of magnitude above what the code needs.
func budget(n int) int64 { return 400_000 + 3_000*int64(n) }

// topFrame names the innermost function of the code under test in a stack.
func topFrame(stack string) string {
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/jschaf/bibtex") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/jschaf/")
		}
	}
	return "?"
}

// Outcome of one operation.
type Outcome struct {
	T        *simrt.Task
	Panicked bool
	Val      any
	Hang     bool
	Deadlock bool
	Steps    int64
	Child    bool // it was a goroutine of the code under test that panicked
}

// callers reports whether v is what a caller's callback panics with.
func callers(v any) bool {
	switch v.(type) {
	case *cbPanic, *cbErr, *readerPanic, *writerPanic:
		return true
	}
	return v != nil && (v == indexPanic || v == derefPanic)
}

// Do runs fn as the only task of a simulation.
func (c *Ctx) Do(name string, bud int64, fn func()) Outcome {
	s := simrt.New(simrt.Sequential{}, c.mapSeed)
	t := s.Spawn(name, bud, fn)
	s.Run()
	countNoted(s)
	c.St.Steps += uint64(s.TotalSteps())
	c.St.SimNS += uint64(s.Now)
	c.St.Ops++
	c.evh = mix(c.evh ^ uint64(t.Steps))
	if v := uint64(100 * t.Steps / max(bud, 1)); !t.Exhausted && v > c.St.Max["percent-of-step-budget"] {
		c.St.Max["percent-of-step-budget"] = v
	}
	o := Outcome{T: t, Panicked: t.Panicked, Val: t.PanicVal, Hang: t.Exhausted, Deadlock: s.Deadlock, Steps: s.TotalSteps()}
	for _, k := range s.Tasks()[1:] {
		// A panic in a goroutine of the code under test ends the process.
		if k.Panicked && !o.Panicked {
			o.T, o.Panicked, o.Val, o.Child = k, true, k.PanicVal, true
		}
		o.Hang = o.Hang || k.Exhausted
		if k.Panicked && callers(k.PanicVal) {
			c.Fail("panic-ends-process", "a caller's callback panicked (%T %v) in a goroutine of its own in %s: no caller can recover from it", k.PanicVal, k.PanicVal, name)
		}
	}
	if f, ok := t.PanicVal.(*failure); ok {
		panic(f)
	}
	return o
}

// Must is Do for operations that must end without a panic.
func (c *Ctx) Must(name string, bud int64, fn func()) Outcome {
	o := c.Do(name, bud, fn)
	c.check(name, o)
	return o
}

func (c *Ctx) check(name string, o Outcome) {
	switch {
	case o.Panicked:
		c.Fail("panic:"+name+":"+topFrame(o.T.PanicPos), "%s panicked: %v\n%s", name, o.Val, trimStack(o.T.PanicPos))
	case o.Hang:
		c.Fail("hang:"+name, "%s did not end within %d steps (last at %s)", name, o.Steps, siteName(o.T.Site()))
	case o.Deadlock:
		c.Fail("deadlock:"+name, "%s blocked forever", name)
	}
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "github.com/jschaf") {
			out = append(out, "    "+l)
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Sched describes a schedule: drawn from Seed with mean quantum Mean, or given
// exactly by Segs.
type Sched struct {
	Seed  uint64      `json:"seed"`
	Mean  int         `json:"mean"`
	Fixed bool        `json:"fixed,omitempty"`
	Segs  []simrt.Seg `json:"segs,omitempty"`
}

func genSched(r *R) Sched {
	return Sched{Seed: r.U() >> 1, Mean: pick(r, 1, 2, 3, 5, 10, 30, 100, 500)}
}

type randChooser struct {
	r    *R
	mean int
	base int
}

func (x *randChooser) Next(ts []*simrt.Task) (*simrt.Task, int64) {
	t := ts[x.r.N(len(ts))]
	if x.mean <= 1 {
		return t, 1
	}
	// Mix of short and long quanta around the mean.
	q := 1 + x.r.N(2*x.mean)
	if x.r.N(16) == 0 {
		q *= 8
	}
	return t, int64(q)
}

type fixedChooser struct {
	segs []simrt.Seg
	i    int
}

func (x *fixedChooser) Next(ts []*simrt.Task) (*simrt.Task, int64) {
	for x.i < len(x.segs) {
		s := x.segs[x.i]
		x.i++
		for _, t := range ts {
			if t.ID == s.T && s.N > 0 {
				return t, s.N
			}
		}
	}
	return ts[0], 1 << 40
}

// Concurrent runs several tasks under the schedule of spec.
func (c *Ctx) Concurrent(spec *Sched, idle func() bool, setup func(s *simrt.Sim)) *simrt.Sim {
	var ch simrt.Chooser
	if spec.Fixed {
		ch = &fixedChooser{segs: spec.Segs}
	} else {
		ch = &randChooser{r: NewR(spec.Seed), mean: spec.Mean}
	}
	s := simrt.New(ch, c.mapSeed)
	s.Idle = idle
	s.OnSwitch = func(from *simrt.Task, site uint32, to *simrt.Task) {
		c.fired++
		c.St.Pairs[uint64(site)<<32|uint64(to.Site())] = struct{}{}
	}
	setup(s)
	s.Run()
	countNoted(s)
	c.St.Steps += uint64(s.TotalSteps())
	c.St.SimNS += uint64(s.Now)
	c.St.Ops += uint64(len(s.Tasks()))
	c.St.Switches += uint64(s.Switches)
	c.evh = mix(c.evh ^ s.SigHash ^ uint64(s.TotalSteps()))
	c.sig = mix(c.sig ^ s.SigHash)
	c.St.Inter[s.SigHash] = struct{}{}
	if !spec.Fixed {
		c.Segs = s.Trace
		c.multi = true
	}
	for _, t := range s.Tasks() {
		if f, ok := t.PanicVal.(*failure); ok {
			panic(f)
		}
		if t.Child() && t.Panicked {
			c.Fail("panic:goroutine:"+topFrame(t.PanicPos), "a goroutine started by the code under test panicked: %v\n%s", t.PanicVal, trimStack(t.PanicPos))
		}
	}
	return s
}

// schedCase is implemented by cases that carry a schedule.
type schedCase interface{ sched() *Sched }

// ---- statistics -----------------------------------------------------------

type Stats struct {
	Runs, Ops, Steps, SimNS, Switches, Evals uint64
	Faults                                   map[string]uint64
	Probes                                   map[string]uint64
	Inter                                    map[uint64]struct{}
	Pairs                                    map[uint64]struct{}
	Cases                                    map[uint64]struct{} // distinct non-trivial cases
	EvHash                                   uint64
	Known                                    map[string]uint64
	Samples                                  []json.RawMessage
	MapIters                                 uint64
	Max                                      map[string]uint64
}

func newStats() *Stats {
	return &Stats{Faults: map[string]uint64{}, Probes: map[string]uint64{}, Inter: map[uint64]struct{}{}, Pairs: map[uint64]struct{}{}, Cases: map[uint64]struct{}{}, Known: map[string]uint64{}, Max: map[string]uint64{}}
}

type workerOut struct {
	Runs, Ops, Steps, SimNS, Switches, EvHash, MapIters uint64
	Evals                                               uint64
	Faults, Probes, Known, Max                          map[string]uint64
	Inter, Pairs, Cases                                 []uint64
	Samples                                             []json.RawMessage
	Hits                                                []uint64
	Violation                                           *foundViolation
}

type foundViolation struct {
	Idx       int64
	Sig, Msg  string
	From      int64 // first index this process ran
	Cold      bool
	Race      bool
	ProcDeath bool
}

func keys64(m map[uint64]struct{}) []uint64 {
	out := make([]uint64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// ---- executing cases ------------------------------------------------------

func caseSeed(seed uint64, prop string, idx int64) *R {
	return NewR(seed, hstr(prop), uint64(idx))
}

// execCase runs one case and returns its failure, if any.
func execCase(p *Prop, c *Ctx, cs any, mapSeed uint64) (f *failure) {
	c.mapSeed = mapSeed
	c.evh = mapSeed
	defer func() {
		closeDisk(c)
		if r := recover(); r != nil {
			if x, ok := r.(*failure); ok {
				f = x
				return
			}
			fmt.Fprintf(os.Stderr, "harness error: %v\n%s\n", r, debug.Stack())
			os.Exit(3)
		}
	}()
	p.Run(c, cs)
	return nil
}

func caseJSON(cs any) []byte {
	b, err := json.Marshal(cs)
	if err != nil {
		panic(err)
	}
	return b
}

const maxSet = 3_000_000

// runIndex generates and executes run idx.
func runIndex(p *Prop, st *Stats, seed uint64, tier Tier, idx int64, cold bool) (*failure, any, *Ctx) {
	r := caseSeed(seed, p.ID, idx)
	cs := p.Gen(r, tier)
	// Run what a replay would run: the decoded form of the case.
	js := caseJSON(cs)
	cs = decodeCase(p, js)
	if p.Valid != nil && !p.Valid(cs) {
		fmt.Fprintf(os.Stderr, "harness error: generator made an invalid case %s\n", js)
		os.Exit(3)
	}
	c := &Ctx{St: st, Tier: tier, cold: cold}
	f := execCase(p, c, cs, uint64(idx)+1)
	st.Runs++
	st.EvHash ^= mix(c.evh ^ mix(uint64(idx)))
	if c.fired > 0 && len(st.Cases) < maxSet {
		st.Cases[hbytes(js)^c.sig] = struct{}{}
	}
	if c.fired > 0 && len(st.Samples) < 2 && len(js) < 4000 {
		st.Samples = append(st.Samples, js)
	}
	return f, cs, c
}

func decodeCase(p *Prop, js []byte) any {
	cs := p.New()
	d := json.NewDecoder(bytes.NewReader(js))
	d.DisallowUnknownFields()
	if err := d.Decode(cs); err != nil {
		panic(fmt.Sprintf("decode case: %v: %s", err, js))
	}
	return cs
}

// runWorker executes a block of runs in this process.
func runWorker(p *Prop, seed uint64, tier Tier, from, to int64, cold bool, status string, known map[string]string) *workerOut {
	st := newStats()
	out := &workerOut{}
	var sf *os.File
	if status != "" {
		sf, _ = os.OpenFile(status, os.O_CREATE|os.O_WRONLY, 0o600)
	}
	var beat int64
	go func() { // real-time watchdog: trouble in the harness, never a verdict
		last := int64(-1)
		for {
			time.Sleep(200 * time.Second)
			if beat == last {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "harness watchdog: run %d makes no progress\n%s\n", beat, buf[:n])
				os.Exit(4)
			}
			last = beat
		}
	}()
	var b [8]byte
	for idx := from; idx < to; idx++ {
		beat = idx
		if sf != nil {
			binary.LittleEndian.PutUint64(b[:], uint64(idx))
			sf.WriteAt(b[:], 0)
		}
		races := raceErrors()
		f, _, _ := runIndex(p, st, seed, tier, idx, cold)
		if f == nil && raceErrors() > races {
			f = raceFailure()
		}
		if f != nil {
			if k := known[p.ID+" "+f.Sig]; k != "" {
				st.Known[f.Sig]++
				continue
			}
			out.Violation = &foundViolation{Idx: idx, Sig: f.Sig, Msg: f.Msg, From: from, Cold: cold, Race: f.Sig == "race"}
			break
		}
	}
	out.Runs, out.Ops, out.Steps, out.SimNS, out.Switches, out.EvHash = st.Runs, st.Ops, st.Steps, st.SimNS, st.Switches, st.EvHash
	out.Evals = st.Evals
	out.MapIters = simrt.MapIters
	out.Faults, out.Probes, out.Known, out.Max = st.Faults, st.Probes, st.Known, st.Max
	out.Inter, out.Pairs, out.Cases = keys64(st.Inter), keys64(st.Pairs), keys64(st.Cases)
	out.Samples = st.Samples
	for i, h := range simrt.Hits[:] {
		if h > 0 {
			out.Hits = append(out.Hits, uint64(i))
		}
	}
	return out
}

// raceFailure is the failure to report for new race reports, if any.
func raceFailure() *failure {
	if t := raceInCode(); t != "" {
		return &failure{"race", "the race detector reported unsynchronised access to shared memory:\n" + t}
	}
	return nil
}

// ---- replay files ---------------------------------------------------------

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Sig      string          `json:"signature"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"seed"`
	Run      int64           `json:"run"`
	MapSeed  uint64          `json:"map_seed"`
	Tier     Tier            `json:"tier"`
	Race     bool            `json:"race,omitempty"`
	Cold     bool            `json:"cold,omitempty"`
	Death    bool            `json:"process_death,omitempty"`
	History  *[2]int64       `json:"history,omitempty"` // run these indices first, in order
	Case     json.RawMessage `json:"case,omitempty"`
	Note     string          `json:"note,omitempty"`
}

// replayOnce executes a replay file's content in this process.
func replayOnce(p *Prop, rp *Replay, verbose bool) (*failure, *Ctx) {
	st := newStats()
	if rp.History != nil {
		for i := rp.History[0]; i < rp.History[1]; i++ {
			runIndex(p, st, rp.Seed, rp.Tier, i, rp.Cold)
		}
	}
	if rp.Case == nil {
		races := raceErrors()
		f, _, c := runIndex(p, st, rp.Seed, rp.Tier, rp.Run, rp.Cold)
		if f == nil && raceErrors() > races {
			f = raceFailure()
		}
		return f, c
	}
	c := &Ctx{St: st, Tier: rp.Tier, Verbose: verbose, cold: rp.Cold, replayed: true}
	races := raceErrors()
	f := execCase(p, c, decodeCase(p, rp.Case), rp.MapSeed)
	if f == nil && raceErrors() > races {
		f = raceFailure()
	}
	return f, c
}
