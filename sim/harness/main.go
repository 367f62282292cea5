// Command harness is the simulator: it runs the instrumented code under test
// under seeded schedules and faults and decides the properties.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

const (
	coldBase = int64(1) << 40
	raceBase = int64(1) << 41
)

var (
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fMode    = flag.String("mode", "check", "check, worker, min, replay, list, alone")
	fFrom    = flag.Int64("from", 0, "first run")
	fTo      = flag.Int64("to", 0, "one past the last run")
	fOut     = flag.String("out", "", "output file")
	fStatus  = flag.String("status", "", "status file")
	fCold    = flag.Bool("cold", false, "process-fresh run")
	fFile    = flag.String("file", "", "replay file")
	fDir     = flag.String("dir", "", "scratch directory")
	fVerif   = flag.String("verif", "/verif", "verif directory")
	fRaceBin = flag.String("racebin", "", "harness built with the race detector")
	fWorkers = flag.Int("workers", 0, "worker processes")
	fRuns    = flag.Int64("runs", 0, "override the number of runs")
	fStrict  = flag.Bool("strict", false, "missed reach targets are errors")
	fV       = flag.Bool("v", false, "verbose")
)

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

var sites []site

func siteName(id uint32) string {
	if int(id) < len(sites) {
		s := sites[id]
		return fmt.Sprintf("%s:%d (%s)", s.File, s.Line, s.Func)
	}
	return fmt.Sprint(id)
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness error: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	for _, f := range []*string{fDir, fVerif, fOut, fFile, fRaceBin} {
		if *f != "" {
			a, err := filepath.Abs(*f)
			if err != nil {
				fatal("%v", err)
			}
			*f = a
		}
	}
	debug.SetGCPercent(400)
	debug.SetMaxStack(512 << 20)
	if exe, err := os.Executable(); err == nil {
		if b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "sites.json")); err == nil {
			json.Unmarshal(b, &sites)
		}
	}
	if *fMode == "list" {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if *fMode == "replay" {
		modeReplay()
		return
	}
	p := props[*fProp]
	if p == nil {
		fatal("unknown property %q", *fProp)
	}
	tier := Tier(*fTier)
	switch *fMode {
	case "check":
		os.Exit(modeCheck(p, tier))
	case "worker":
		runtime.GOMAXPROCS(2)
		out := runWorker(p, *fSeed, tier, *fFrom, *fTo, *fCold, *fStatus, loadKnown(*fVerif))
		b, err := json.Marshal(out)
		if err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(*fOut, b, 0o600); err != nil {
			fatal("%v", err)
		}
	case "min":
		modeMin(p, tier)
	case "alone":
		modeAlone(p, tier)
	case "gen":
		r := caseSeed(*fSeed, p.ID, *fFrom)
		os.Stdout.Write(caseJSON(p.Gen(r, tier)))
		fmt.Println()
	default:
		fatal("unknown mode %q", *fMode)
	}
}

// loadKnown reads the known-findings file: "finding: property=ID sig=SIG text".
func loadKnown(verif string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " ")
		sig, text, _ := strings.Cut(strings.TrimPrefix(rest, "sig="), " ")
		m[id+" "+sig] = text
	}
	return m
}

// unreached reports a reach target this batch missed: an error under -strict
// (used when the machinery itself is tested), a warning otherwise.
func unreached(f string, a ...any) {
	if *fStrict {
		fatal(f, a...)
	}
	fmt.Fprintf(os.Stderr, "warning: "+f+"\n", a...)
}

type job struct {
	from, to int64
	cold     bool
	race     bool
}

func self() string {
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return exe
}

func childEnv(race bool, dir string) []string {
	env := append(os.Environ(), "GODEBUG=randautoseed=0", "GOTRACEBACK=single")
	if race {
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+dir)
	}
	return env
}

// runJob runs one worker process.
func runJob(p *Prop, tier Tier, j job, n int, scratch string) (*workerOut, error) {
	out := filepath.Join(scratch, fmt.Sprintf("out%d.json", n))
	status := filepath.Join(scratch, fmt.Sprintf("status%d", n))
	dir := filepath.Join(scratch, fmt.Sprintf("d%d", n))
	os.MkdirAll(dir, 0o700)
	defer os.Remove(out)
	defer os.Remove(status)
	defer os.RemoveAll(dir)
	bin := self()
	if j.race {
		bin = *fRaceBin
	}
	args := []string{"-mode", "worker", "-prop", p.ID, "-tier", string(tier), "-seed", fmt.Sprint(*fSeed), "-from", fmt.Sprint(j.from), "-to", fmt.Sprint(j.to), "-out", out, "-status", status, "-dir", dir, "-verif", *fVerif}
	if j.cold {
		args = append(args, "-cold")
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = childEnv(j.race, filepath.Join(dir, "race"))
	var errb bytes.Buffer
	cmd.Stderr = &errb
	err := cmd.Run()
	b, rerr := os.ReadFile(out)
	if err == nil && rerr == nil {
		w := &workerOut{}
		if err := json.Unmarshal(b, w); err != nil {
			return nil, err
		}
		return w, nil
	}
	code := -1
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	msg := errb.String()
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	if code == 3 || code == 4 || strings.Contains(msg, "harness error") || strings.Contains(msg, "harness watchdog") {
		return nil, fmt.Errorf("worker failed (exit %d): %s", code, msg)
	}
	// The process died: a fatal error in the code under test, or trouble of
	// ours. A replay in a fresh process decides which.
	sb, _ := os.ReadFile(status)
	if len(sb) != 8 {
		return nil, fmt.Errorf("worker died early (exit %d): %s", code, msg)
	}
	idx := int64(binary.LittleEndian.Uint64(sb))
	return &workerOut{Violation: &foundViolation{Idx: idx, From: j.from, Sig: "process-death", Msg: msg, Cold: j.cold, Race: j.race, ProcDeath: true}}, nil
}

type merged struct {
	workerOut
	inter, pairs, cases map[uint64]struct{}
	hits                map[uint64]struct{}
	phase               map[string]uint64
	viol                []*foundViolation
}

func (m *merged) add(w *workerOut) {
	m.Runs += w.Runs
	m.Ops += w.Ops
	m.Steps += w.Steps
	m.SimNS += w.SimNS
	m.Switches += w.Switches
	m.Evals += w.Evals
	m.EvHash ^= w.EvHash
	m.MapIters += w.MapIters
	for k, v := range w.Faults {
		m.Faults[k] += v
	}
	for k, v := range w.Probes {
		m.Probes[k] += v
	}
	for k, v := range w.Max {
		m.Max[k] = max(m.Max[k], v)
	}
	for k, v := range w.Known {
		m.Known[k] += v
	}
	for _, k := range w.Inter {
		m.inter[k] = struct{}{}
	}
	for _, k := range w.Pairs {
		m.pairs[k] = struct{}{}
	}
	for _, k := range w.Cases {
		m.cases[k] = struct{}{}
	}
	for _, k := range w.Hits {
		m.hits[k] = struct{}{}
	}
	if len(m.Samples) < 3 {
		m.Samples = append(m.Samples, w.Samples...)
	}
	if w.Violation != nil {
		m.viol = append(m.viol, w.Violation)
	}
}

func modeCheck(p *Prop, tier Tier) int {
	start := time.Now()
	scratch := *fDir
	if scratch == "" {
		fatal("-dir is required")
	}
	nw := *fWorkers
	if nw == 0 {
		nw = min(max(runtime.NumCPU(), 2), 16)
	}
	runs, cold, race := p.Quick, p.ColdQuick, p.RaceQuick
	if tier.Thorough() {
		runs, cold, race = p.Thorough, p.ColdThorough, p.RaceThorough
	}
	if *fRuns > 0 {
		runs = *fRuns
	}
	if *fRaceBin == "" {
		race = 0
	}
	var jobs []job
	// More blocks than workers, so that uneven runs balance out.
	blocks := int64(nw) * 4
	for i := int64(0); i < blocks; i++ {
		a, b := runs*i/blocks, runs*(i+1)/blocks
		if a < b {
			jobs = append(jobs, job{from: a, to: b})
		}
	}
	rb := int64(nw) * 6 // first uses in a process are where lazy set-up races
	for i := int64(0); i < rb; i++ {
		a, b := race*i/rb, race*(i+1)/rb
		if a < b {
			jobs = append(jobs, job{from: raceBase + a, to: raceBase + b, race: true})
		}
	}
	for i := int64(0); i < cold; i++ {
		jobs = append(jobs, job{from: coldBase + i, to: coldBase + i + 1, cold: true})
	}
	m := &merged{inter: map[uint64]struct{}{}, pairs: map[uint64]struct{}{}, cases: map[uint64]struct{}{}, hits: map[uint64]struct{}{}, phase: map[string]uint64{}}
	m.Faults, m.Probes, m.Known, m.Max = map[string]uint64{}, map[string]uint64{}, map[string]uint64{}, map[string]uint64{}
	var mu sync.Mutex
	var firstErr error
	ch := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := range ch {
				mu.Lock()
				stop := firstErr != nil || len(m.viol) > 0
				mu.Unlock()
				if stop {
					continue
				}
				out, err := runJob(p, tier, jobs[n], n, scratch)
				mu.Lock()
				if err != nil && firstErr == nil {
					firstErr = err
				}
				if out != nil {
					m.add(out)
					k := "simulated"
					if jobs[n].cold {
						k = "fresh_process"
					} else if jobs[n].race {
						k = "race_detector"
					}
					m.phase[k] += out.Runs
				}
				mu.Unlock()
			}
		}()
	}
	for i := range jobs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if firstErr != nil && len(m.viol) == 0 {
		fatal("%v", firstErr)
	}
	wall := time.Since(start).Seconds()
	writeEvidence(p, tier, m, wall, len(m.viol))
	if *fV {
		fmt.Fprintf(os.Stderr, "evhash %x runs %d wall %.1f\n", m.EvHash, m.Runs, wall)
	}

	known := loadKnown(*fVerif)
	var ks []string
	for k := range known {
		if strings.HasPrefix(k, p.ID+" ") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, known[k])
	}
	if len(m.viol) > 0 {
		sort.Slice(m.viol, func(i, j int) bool { return m.viol[i].Idx < m.viol[j].Idx })
		var last error
		for _, v := range m.viol {
			path, err := confirm(p, tier, v, scratch)
			if err == nil {
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
				return 1
			}
			last = err
		}
		fatal("%s: a violation was seen but not reproduced: %v", p.ID, last)
	}
	// Reach: every fault kind and probe this property relies on must be live.
	for _, k := range p.Faults {
		if m.Faults[k] == 0 {
			unreached("%s: fault kind %q was never injected", p.ID, k)
		}
	}
	for _, k := range p.Probes {
		if m.Probes[k] == 0 {
			unreached("%s: probe %q was never hit", p.ID, k)
		}
	}
	fmt.Printf("%s: held on %d runs (%d distinct non-trivial), %.1fs\n", p.ID, m.Runs, len(m.cases), wall)
	return 0
}

// runReplayProc replays a file in a fresh process: "" if it did not fail.
func runReplayProc(rp *Replay, scratch, tag string, race bool) (sig string, msg string) {
	dir := filepath.Join(scratch, "rp"+tag)
	os.MkdirAll(dir, 0o700)
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "r.json")
	b, _ := json.Marshal(rp)
	os.WriteFile(f, b, 0o600)
	bin := self()
	if race {
		bin = *fRaceBin
	}
	cmd := exec.Command(bin, "-mode", "replay", "-file", f, "-dir", dir, "-verif", *fVerif)
	cmd.Env = childEnv(race, filepath.Join(dir, "race"))
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return "", err.Error()
	}
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(150 * time.Second):
		cmd.Process.Kill()
		<-done
		return "", "replay timed out"
	}
	if err == nil {
		return "", ob.String()
	}
	code := -1
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	if code == 1 {
		for _, l := range strings.Split(ob.String(), "\n") {
			if s, ok := strings.CutPrefix(l, "signature: "); ok {
				return s, ob.String()
			}
		}
	}
	if code == 2 && strings.Contains(eb.String(), "fatal error") || code == 2 && strings.Contains(eb.String(), "goroutine ") && !strings.Contains(eb.String(), "harness error") {
		return "process-death", eb.String()
	}
	if code == -1 {
		return "process-death", eb.String()
	}
	return "", fmt.Sprintf("exit %d: %s", code, eb.String())
}

// confirm reproduces a violation in fresh processes, minimises it and writes
// the replay file.
func confirm(p *Prop, tier Tier, v *foundViolation, scratch string) (string, error) {
	rdir := filepath.Join(*fVerif, "replays")
	os.MkdirAll(rdir, 0o755)
	rp := &Replay{Property: p.ID, Sig: v.Sig, Message: v.Msg, Seed: *fSeed, Run: v.Idx, MapSeed: uint64(v.Idx) + 1, Tier: tier, Race: v.Race, Cold: v.Cold, Death: v.ProcDeath}
	sig, msg := runReplayProc(rp, scratch, "0", v.Race)
	if sig == "" {
		// State carried over between runs in one process: replay the shortest
		// tail of that history that still fails.
		for n := int64(1); ; n *= 4 {
			a := max(v.From, v.Idx-n)
			h := *rp
			h.History = &[2]int64{a, v.Idx}
			if sig, msg = runReplayProc(&h, scratch, "h", v.Race); sig != "" {
				rp = &h
				// Tighten by bisection.
				lo, hi := a, v.Idx
				for lo+1 < hi {
					mid := (lo + hi) / 2
					g := h
					g.History = &[2]int64{mid, v.Idx}
					if s, _ := runReplayProc(&g, scratch, "h", v.Race); s == sig {
						lo = mid
						rp = &g
					} else {
						hi = mid
					}
				}
				break
			}
			if a == v.From {
				return "", fmt.Errorf("run %d: %s (%s)", v.Idx, v.Sig, msg)
			}
		}
		rp.Note = "depends on state left behind by earlier runs in the same process (history)"
	}
	rp.Sig = sig
	if msg != "" {
		rp.Message = msg
	}
	if rp.History == nil {
		if m := minimise(p, rp, scratch); m != nil {
			rp = m
		}
	}
	path := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", p.ID, *fSeed, v.Idx))
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		return "", err
	}
	fmt.Printf("property %s violated: %s\n%s\n", p.ID, rp.Sig, clip(rp.Message, 3000))
	return path, nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// minimise shrinks the case behind a reproducing replay. Ordinary failures are
// shrunk inside a helper process; failures that kill the process or depend on
// process-wide state are shrunk by running every candidate in a process.
func minimise(p *Prop, rp *Replay, scratch string) *Replay {
	f := filepath.Join(scratch, "min.json")
	o := filepath.Join(scratch, "min.out")
	defer os.Remove(f)
	defer os.Remove(o)
	// First materialise the case.
	r := caseSeed(rp.Seed, p.ID, rp.Run)
	cs := p.Gen(r, rp.Tier)
	base := *rp
	base.Case = caseJSON(cs)
	if rp.Death || rp.Race || rp.Cold {
		test := func(js []byte) bool {
			c, err := tryDecode(p, js)
			if err != nil || p.Valid != nil && !p.Valid(c) {
				return false
			}
			t := base
			t.Case = js
			s, _ := runReplayProc(&t, scratch, "m", rp.Race)
			return s == rp.Sig
		}
		if !test(base.Case) {
			return nil
		}
		js := shrink(base.Case, time.Now().Add(20*time.Second), test)
		base.Case = js
		if s, msg := runReplayProc(&base, scratch, "m", rp.Race); s == rp.Sig {
			base.Message = msg
			return &base
		}
		return nil
	}
	b, _ := json.Marshal(&base)
	os.WriteFile(f, b, 0o600)
	dir := filepath.Join(scratch, "dmin")
	os.MkdirAll(dir, 0o700)
	defer os.RemoveAll(dir)
	cmd := exec.Command(self(), "-mode", "min", "-prop", p.ID, "-tier", string(rp.Tier), "-seed", fmt.Sprint(rp.Seed), "-file", f, "-out", o, "-dir", dir, "-verif", *fVerif)
	cmd.Env = childEnv(false, "")
	if err := cmd.Run(); err != nil {
		return nil
	}
	ob, err := os.ReadFile(o)
	if err != nil {
		return nil
	}
	m := &Replay{}
	if json.Unmarshal(ob, m) != nil {
		return nil
	}
	// The minimised file must reproduce in a fresh process.
	if s, msg := runReplayProc(m, scratch, "m", false); s == rp.Sig {
		m.Message = msg
		return m
	}
	return nil
}

func tryDecode(p *Prop, js []byte) (cs any, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return decodeCase(p, js), nil
}

func modeMin(p *Prop, tier Tier) {
	b, err := os.ReadFile(*fFile)
	if err != nil {
		fatal("%v", err)
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fatal("%v", err)
	}
	run := func(js []byte) *failure {
		cs, err := tryDecode(p, js)
		if err != nil || p.Valid != nil && !p.Valid(cs) {
			return nil
		}
		c := &Ctx{St: newStats(), Tier: tier}
		return execCase(p, c, cs, rp.MapSeed)
	}
	// Pin the schedule that failed, so that shrinking keeps it.
	cs := decodeCase(p, rp.Case)
	if sc, ok := cs.(schedCase); ok && sc.sched() != nil {
		c := &Ctx{St: newStats(), Tier: tier}
		if f := execCase(p, c, cs, rp.MapSeed); f != nil && c.multi {
			cs = decodeCase(p, rp.Case)
			s := cs.(schedCase).sched()
			s.Fixed, s.Segs = true, c.Segs
			js := caseJSON(cs)
			if f := run(js); f != nil && f.Sig == rp.Sig {
				rp.Case = js
			}
		}
	}
	rp.Case = shrink(rp.Case, time.Now().Add(25*time.Second), func(js []byte) bool {
		f := run(js)
		return f != nil && f.Sig == rp.Sig
	})
	if f := run(rp.Case); f != nil {
		rp.Message = f.Msg
	}
	ob, _ := json.Marshal(rp)
	if err := os.WriteFile(*fOut, ob, 0o600); err != nil {
		fatal("%v", err)
	}
}

func modeReplay() {
	b, err := os.ReadFile(*fFile)
	if err != nil {
		fatal("%v", err)
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fatal("%v", err)
	}
	p := props[rp.Property]
	if p == nil {
		fatal("unknown property %q", rp.Property)
	}
	if rp.Race && !raceBuild && *fRaceBin != "" {
		cmd := exec.Command(*fRaceBin, os.Args[1:]...)
		cmd.Env = childEnv(true, filepath.Join(*fDir, "race"))
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if err := cmd.Run(); err != nil {
			if ee, ok := err.(*exec.ExitError); ok {
				os.Exit(ee.ExitCode())
			}
			fatal("%v", err)
		}
		return
	}
	f, c := replayOnce(p, rp, *fV)
	if *fV {
		for _, l := range c.log {
			fmt.Println(l)
		}
	}
	if f == nil {
		fmt.Println("replay: the property held")
		return
	}
	fmt.Printf("signature: %s\n%s\n", f.Sig, f.Msg)
	os.Exit(1)
}
