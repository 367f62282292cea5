package main

import (
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"

	"bibsim/simrt"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/scanner"
)

// ---- generating operations --------------------------------------------------

func genDocs(r *R, n int) []Doc {
	var out []Doc
	for i := 0; i < n; i++ {
		out = append(out, genDoc(r, docOpts{maxItems: pick(r, 1, 2, 3), authors: r.P(1, 2), needBib: r.P(3, 4)}))
	}
	if r.P(1, 50) { // all of them longer than common buffers
		for i := range out {
			n := pick(r, 600, 1100, 2100, 4200, 9000)
			it := Item{K: "c", Text: strings.Repeat(pick(r, "x", "y ", "zz"), n)[:n]}
			out[i].Items = append([]Item{it}, out[i].Items...)
		}
	}
	return out
}

func renderDocs(ds []Doc) []*Rendered {
	var out []*Rendered
	for i := range ds {
		out = append(out, ds[i].Render())
	}
	if len(out) == 0 {
		out = append(out, (&Doc{}).Render())
	}
	return out
}

func genConf(r *R) Conf {
	x := Conf{Mode: -1}
	if r.P(1, 2) {
		x.Mode = genMode(r)
		if r.P(2, 3) {
			x.Mode |= int(parser.ParseStrings)
		}
		if r.P(1, 40) {
			x.Mode |= int(parser.Trace)
		}
	}
	for n := r.N(4); n > 0; n-- {
		x.Res = append(x.Res, pick(r, -1, -1, 0, 1, 2, 1, 3))
	}
	for n := r.N(3); n > 0; n-- {
		x.Over = append(x.Over, r.N(nKinds))
	}
	return x
}

// faulty: something outside the data goes wrong in the operation.
func (o *OpSpec) faulty() bool {
	if o.Dk != nil && o.Dk.K != "short" || o.F != "" && o.At > 0 || o.W.K != "" || o.Rd.Fail > 0 {
		return true
	}
	for _, s := range o.Rd.Steps {
		if s.K == "err" || s.K == "panic" {
			return true
		}
	}
	return false
}

func (o *OpSpec) valid() bool {
	if !strings.Contains(" "+strings.Join(opKinds, " ")+" entries file files ", " "+o.K+" ") || o.K == "" {
		return false
	}
	if !strings.Contains(" stop err panic skip kill stall  ", " "+o.F+" ") || o.At < 0 || o.D < 0 || o.Val < 0 || o.Lo < 0 || o.Hi < 0 || o.Rep < 0 || o.Rep > 400 || !validMode(o.Mode) {
		return false
	}
	if o.Dam != nil && !validDamage(*o.Dam) {
		return false
	}
	if q := o.Dk; q != nil && (q.Off < 0 || q.Err < 0 || q.N < 0 || !strings.Contains(" open read short missing dir ", " "+q.K+" ") || q.K == "") {
		return false
	}
	return validRSpec(&o.Rd, true) && validWSpec(&o.W, true)
}

func validOps(ops []OpSpec) bool {
	for i := range ops {
		if !ops[i].valid() {
			return false
		}
	}
	return true
}

// genOp makes an operation; fault says how: "" healthy, "err" failures that
// are part of the data, of readers and writers or of callbacks, "abort" also
// panics and ended goroutines.
func genOp(r *R, docs []*Rendered, kinds []string, fault string) OpSpec {
	o := OpSpec{K: kinds[r.N(len(kinds))], D: r.N(len(docs)), Val: r.N(8)}
	n := len(docs[o.D].Src)
	if o.K == "pfile" || o.K == "scan" || o.K == "file" || o.K == "files" {
		o.Mode = genMode(r)
		if o.K == "pfile" && r.P(1, 40) {
			o.Mode |= int(parser.Trace)
		}
	}
	if o.K == "parse" || o.K == "pfile" {
		o.Rd = genReads(r, n)
		o.Rd.Steps = o.Rd.Steps[:min(len(o.Rd.Steps), 6)]
	}
	if o.K == "render" || o.K == "text" {
		o.W.Kind = pick(r, "", "", "string", "all")
		if r.P(1, 8) {
			o.W.Stal = r.In(1, 4)
		}
	}
	if o.K == "scan" && r.P(1, 3) { // a fragment
		src := docs[o.D].Src
		edge := func(chars string) int {
			at := r.N(n + 1)
			for i := 0; i < n; i++ {
				if j := (at + i) % n; strings.IndexByte(chars, src[j]) >= 0 {
					return j
				}
			}
			return at
		}
		o.Lo = edge(pick(r, "{", "{", "\"", "=", "@", "abk1"))
		if r.P(2, 3) {
			o.Hi = 1 + edge(pick(r, "=", "=", "{", "#", "\"", "\\$@,"))
		}
		if o.Hi > 0 && o.Hi <= o.Lo {
			o.Lo = 0
		}
	}
	if fault == "" {
		if r.P(1, 12) {
			d := genDamage(r, docs[o.D])
			o.Dam = &d
		}
		return o
	}
	abort := fault == "abort"
	what := r.N(4)
	if what == 0 || o.K == "expr" || o.K == "extract" || o.K == "print" || strings.HasPrefix(o.K, "r") && o.K != "render" && o.K != "resolve" {
		d := genDamage(r, docs[o.D])
		o.Dam = &d
	}
	switch o.K {
	case "file", "files":
		if what != 0 {
			o.Dk = &DFault{K: pick(r, "open", "read", "read", "short", "missing", "dir"), Off: r.N(n + 1), Err: r.N(len(errnos)), N: pick(r, 1, 3, 17, 100)}
		}
	case "parse", "pfile":
		switch what {
		case 0:
		case 1:
			o.Rd.Fail, o.Rd.Err, o.Rd.FailD = 1+r.N(n+1), genErr(r, nErrs), r.P(1, 3)
		case 2:
			if abort {
				o.Rd.Steps = append(o.Rd.Steps, RStep{K: "panic"})
				break
			}
			o.Rd.Fail, o.Rd.Err = 1+r.N(n+1), genErr(r, nErrs)
		default:
			if abort {
				o.At, o.F = r.In(1, 4), pick(r, "panic", "kill")
			} else {
				o.Rd.Fail, o.Rd.Err = n+1, genErr(r, nErrs)
			}
		}
	case "scan":
		if what != 0 {
			o.At, o.F = r.N(12), "stop"
			if abort && r.P(1, 2) {
				d := genDamage(r, docs[o.D])
				o.Dam = &d
				o.At, o.F = r.In(1, 2), pick(r, "panic", "kill")
			}
		}
	case "render", "text":
		if what == 1 || o.K == "text" {
			o.W.K, o.W.At, o.W.N, o.W.Err, o.W.Once = pick(r, "err", "partial", "short"), r.N(20), r.N(5), genErr(r, nErrs+1), r.P(1, 4)
			if abort && r.P(1, 3) {
				o.W.K = "panic"
			}
			break
		}
		fallthrough
	case "walk", "resolve", "pkg":
		if what == 0 && r.P(1, 2) {
			break
		}
		o.At, o.F = 1+r.geo(4), pick(r, "stop", "err", "skip", "err")
		if abort && r.P(1, 2) {
			o.F = pick(r, "panic", "panic", "kill")
		}
	}
	return o
}

// doOp performs op as the only task.
func (c *Ctx) doOp(e *env, op *OpSpec, sc *scanner.Scanner) string {
	sl := &e.slots[0]
	*sl = slot{c: c, op: op}
	out := c.Outcome(op.K, opBudget(e, op), func() string { return e.run(sl, sc) })
	if sl.killed && !crashed(out) {
		return "KILLED"
	}
	return out
}

func opBudget(e *env, op *OpSpec) int64 {
	// All of the documents: some operations read more than their own.
	n := 0
	for i := range e.docs {
		n += len(e.docs[i].Src)
	}
	return budget(2 * n)
}

func diff2(want, got string) string {
	i := firstDiff([]byte(want), []byte(got))
	if i < 0 {
		return "equal"
	}
	a := max(0, i-80)
	return fmt.Sprintf("at byte %d:\n  alone: %s\n  here:  %s", i, clip(want[min(a, len(want)):], 400), clip(got[min(a, len(got)):], 400))
}

func opText(o *OpSpec) string { return string(caseJSON(o)) }

// ---- C12 ------------------------------------------------------------------

type c12Case struct {
	Docs []Doc    `json:"docs"`
	Conf Conf     `json:"conf"`
	Ops  []OpSpec `json:"ops"`
	// Share: what only reads trees works on the same ones every time.
	Share bool `json:"share,omitempty"`
}

func (x *c12Case) env(c *Ctx) *env {
	e := newEnv(&x.Conf, renderDocs(x.Docs))
	e.reads = true
	if hasFiles(x.Ops) {
		e.useDisk(c, true)
	}
	if x.Share {
		n := 0
		for _, d := range e.docs {
			n += len(d.Src)
		}
		c.Outcome("parse", budget(n), func() string { e.share(); return "" })
	}
	return e
}

func hasFiles(ops []OpSpec) bool {
	return slices.ContainsFunc(ops, func(o OpSpec) bool { return slices.Contains(fileOps, o.K) })
}

func aloneC12(c *Ctx, cs any, k int) string {
	x := cs.(*c12Case)
	e := x.env(c)
	return c.doOp(e, &x.Ops[k], &scanner.Scanner{})
}

func runC12(c *Ctx, cs any) {
	x := cs.(*c12Case)
	ref := make([]string, len(x.Ops))
	check := func(i int) bool { return !x.Ops[i].faulty() }
	if !c.cold {
		for i := range x.Ops {
			if check(i) {
				ref[i] = aloneC12(c, cs, i)
			}
		}
	}
	e := x.env(c)
	if x.Share {
		c.Probe("same-tree")
	}
	if e.disk != nil {
		c.Probe("file-read")
	}
	sc := &scanner.Scanner{}
	got := make([]string, len(x.Ops))
	aborted := 0
	for i := range x.Ops {
		c.Event(fmt.Sprintf("op %d %s", i, x.Ops[i].K))
		before := c.fired
		for n := 0; n < x.Ops[i].Rep; n++ {
			c.doOp(e, &x.Ops[i], sc)
		}
		got[i] = c.doOp(e, &x.Ops[i], sc)
		if c.Verbose {
			c.Event(fmt.Sprintf("  -> %s", clip(got[i], 300)))
		}
		if got[i] == "BLOCKED" || got[i] == "HANG" {
			if ref[i] == "" && c.cold && check(i) {
				ref[i] = c.alone(props["C12"], cs, i)
			}
			if ref[i] != got[i] {
				c.Fail("blocked-later", "operation %d (%s) ends as %s on objects used before; alone it does not\nhistory: %s", i, opText(&x.Ops[i]), got[i], opText2(x.Ops[:i]))
			}
		}
		if c.fired > before && x.Ops[i].faulty() {
			aborted++
		} else if aborted > 0 && check(i) {
			c.Probe("healthy-after-failure")
		}
	}
	for i := range x.Ops {
		if !check(i) {
			continue
		}
		if c.cold {
			ref[i] = c.alone(props["C12"], cs, i)
		}
		c.Eval()
		if got[i] != ref[i] {
			c.Fail("later-operation-differs", "operation %d (%s) after %d others gives another result than on fresh objects %s\nhistory: %s", i, opText(&x.Ops[i]), i, diff2(ref[i], got[i]), opText2(x.Ops[:i]))
		}
	}
}

func opText2(ops []OpSpec) string {
	var sb strings.Builder
	for i := range ops {
		fmt.Fprintf(&sb, "\n  %d: %s", i, clip(opText(&ops[i]), 400))
	}
	return sb.String()
}

func validDocs(ds []Doc) bool {
	for i := range ds {
		if !ds[i].Valid() {
			return false
		}
	}
	return len(ds) <= 8
}

func init() {
	register(&Prop{
		ID: "C12", Level: "exploration",
		Rule:  "a history of 2 to 9 operations on one instance, one set of renderers and resolvers and one scanner; the failing ones meet read errors, cut or damaged streams, write errors, failing, panicking or dying callbacks at drawn points; non-trivial if a fault was injected",
		New:   func() any { return &c12Case{} },
		Run:   runC12,
		Alone: aloneC12,
		Quick: 200000, Thorough: 4000000, ColdQuick: 80, ColdThorough: 1500,
		Real: append([]string{"scanner (re-initialised)"}, realTree...), Stub: []string{"io.Reader and io.Writer arguments (scripted)", "caller-supplied resolvers, renderers, visitors, error handlers (scripted)", "standard output"},
		Faults: []string{"read-error", "write-error", "writer-panic", "reader-panic", "callback-error", "callback-panic", "callback-kill", "callback-stop", "scan-abandoned", "damage-cut", "open-error", "disk-read-error", "file-missing"},
		Probes: []string{"healthy-after-failure", "same-tree", "file-read"},
		Valid: func(cs any) bool {
			x := cs.(*c12Case)
			return validDocs(x.Docs) && x.Conf.valid() && validOps(x.Ops)
		},
		Gen: func(r *R, tier Tier) any {
			x := &c12Case{Docs: genDocs(r, r.In(1, 3)), Conf: genConf(r), Share: r.P(1, 2)}
			if x.Share && r.P(1, 2) {
				x.Conf.Res = slices.DeleteFunc(x.Conf.Res, func(k int) bool { return k >= 0 })
			}
			docs := renderDocs(x.Docs)
			kinds := opKinds
			if r.P(1, 2) { // few kinds, so that the same machinery is hit again
				kinds = []string{opKinds[r.N(len(opKinds))], opKinds[r.N(len(opKinds))]}
			}
			if r.P(1, 8) {
				kinds = append(slices.Clone(fileOps), kinds[r.N(len(kinds))])
			}
			for n := r.In(2, 9); n > 0; n-- {
				f := ""
				if r.P(1, 2) {
					f = "abort"
				}
				o := genOp(r, docs, kinds, f)
				if len(docs[o.D].Src) < 1000 && r.P(1, 150) {
					o.Rep = pick(r, 9, 17, 33, 70, 130, 300)
				}
				x.Ops = append(x.Ops, o)
			}
			o := genOp(r, docs, kinds, "")
			o.Dam = nil
			x.Ops = append(x.Ops, o)
			return x
		},
	})
}

// ---- C13 ------------------------------------------------------------------

type c13Case struct {
	Docs  []Doc      `json:"docs"`
	Conf  Conf       `json:"conf"`
	Tasks [][]OpSpec `json:"tasks"`
	Sched Sched      `json:"sched"`
}

func (x *c13Case) sched() *Sched { return &x.Sched }

func (x *c13Case) op(k int) *OpSpec {
	for _, t := range x.Tasks {
		if k < len(t) {
			return &t[k]
		}
		k -= len(t)
	}
	return nil
}

func (x *c13Case) env(c *Ctx) *env {
	e := newEnv(&x.Conf, renderDocs(x.Docs))
	if slices.ContainsFunc(x.Tasks, hasFiles) {
		e.useDisk(c, false)
	}
	return e
}

func aloneC13(c *Ctx, cs any, k int) string {
	x := cs.(*c13Case)
	return c.doOp(x.env(c), x.op(k), &scanner.Scanner{})
}

// taskOut is what a task of a concurrent run produced.
type taskOut struct {
	outs  []string
	steps []int64
}

// spawnOps adds a task performing ops one after another on e.
func (c *Ctx) spawnOps(s *simrt.Sim, e *env, ops []OpSpec, kids *[]*Ctx, prep func(sl *slot)) *taskOut {
	res := &taskOut{}
	k := c.child()
	*kids = append(*kids, k)
	var bud int64 = 10_000
	for i := range ops {
		bud += opBudget(e, &ops[i])
	}
	id := len(s.Tasks())
	s.Spawn(fmt.Sprintf("caller%d", id), bud, func() {
		sc := &scanner.Scanner{}
		sl := &e.slots[id]
		for i := range ops {
			*sl = slot{c: k, op: &ops[i]}
			if prep != nil {
				prep(sl)
			}
			t := simrt.Cur()
			a := t.Steps
			out := e.run(sl, sc)
			res.outs = append(res.outs, out)
			res.steps = append(res.steps, t.Steps-a)
		}
	})
	return res
}

// outcomes completes a task's results with how it ended.
func (t *taskOut) outcomes(k *simrt.Task, n int) []string {
	out := append([]string(nil), t.outs...)
	if len(out) < n {
		switch {
		case k.Panicked:
			out = append(out, "PANIC "+topFrame(k.PanicPos))
		case k.Exhausted:
			out = append(out, "HANG")
		default:
			out = append(out, "BLOCKED")
		}
	}
	return out
}

func runC13(c *Ctx, cs any) {
	x := cs.(*c13Case)
	total := 0
	for _, t := range x.Tasks {
		total += len(t)
	}
	ref := make([]string, total)
	fresh := c.cold || raceBuild
	if !fresh {
		for i := range ref {
			ref[i] = aloneC13(c, cs, i)
		}
	}
	e := x.env(c)
	if e.disk != nil {
		c.Probe("file-read")
	}
	var kids []*Ctx
	var outs []*taskOut
	s := c.Concurrent(&x.Sched, nil, func(s *simrt.Sim) {
		for _, ops := range x.Tasks {
			outs = append(outs, c.spawnOps(s, e, ops, &kids, nil))
		}
	})
	for _, k := range kids {
		c.join(k)
	}
	if s.Switches > 0 {
		c.Probe("interleaved")
	}
	i := 0
	for t, ops := range x.Tasks {
		got := outs[t].outcomes(s.Tasks()[t], len(ops))
		for j := range ops {
			k := i + j
			if j >= len(got) { // an earlier operation of this caller ended it
				break
			}
			if fresh {
				if c.cold {
					ref[k] = c.alone(props["C13"], cs, k)
				} else {
					ref[k] = aloneC13(c, cs, k)
				}
			}
			c.Eval()
			if got[j] != ref[k] {
				c.Fail("interference", "caller %d, operation %d (%s) gives another result among %d concurrent callers than alone %s", t, j, opText(&ops[j]), len(x.Tasks), diff2(ref[k], got[j]))
			}
		}
		i += len(ops)
	}
}

func init() {
	register(&Prop{
		ID: "C13", Level: "exploration",
		Rule:  "2 to 5 callers with 1 to 3 operations each on one shared configuration, interleaved at statement granularity by a seeded schedule, with stalling and failing readers, writers and callbacks; non-trivial if a context switch or fault happened",
		New:   func() any { return &c13Case{} },
		Run:   runC13,
		Alone: aloneC13,
		Quick: 60000, Thorough: 1000000, ColdQuick: 80, ColdThorough: 1500, RaceQuick: 4000, RaceThorough: 80000,
		Real: append([]string{"scanner"}, realTree...), Stub: []string{"scheduler (simulated)", "io.Reader and io.Writer arguments (scripted)", "caller-supplied resolvers, renderers, visitors (scripted)", "sync primitives (simulated)"},
		Faults: []string{"read-error", "write-error", "writer-panic", "callback-error", "callback-panic", "stall", "damage-cut"},
		Probes: []string{"interleaved", "own-tree-rewritten", "file-read"},
		Valid: func(cs any) bool {
			x := cs.(*c13Case)
			for _, t := range x.Tasks {
				if !validOps(t) {
					return false
				}
				for i := range t {
					if t[i].F == "kill" {
						return false
					}
				}
			}
			return validDocs(x.Docs) && x.Conf.valid() && len(x.Tasks) <= maxTasks && x.Sched.Mean >= 0
		},
		Gen: func(r *R, tier Tier) any {
			x := &c13Case{Docs: genDocs(r, r.In(1, 4)), Conf: genConf(r), Sched: genSched(r)}
			docs := renderDocs(x.Docs)
			kinds := opKinds
			if r.P(1, 2) {
				kinds = []string{opKinds[r.N(len(opKinds))], opKinds[r.N(len(opKinds))]}
			}
			if r.P(1, 8) {
				kinds = append(slices.Clone(fileOps), kinds[r.N(len(kinds))])
			}
			for n := r.In(2, 5); n > 0; n-- {
				var ops []OpSpec
				for m := r.In(1, 3); m > 0; m-- {
					o := genOp(r, docs, kinds, pick(r, "", "", "", "err", "abort"))
					if o.F == "kill" {
						o.F = "panic"
					}
					ops = append(ops, o)
				}
				x.Tasks = append(x.Tasks, ops)
			}
			return x
		},
	})
}

// ---- C14 ------------------------------------------------------------------

type c14Case struct {
	T     TreeCase   `json:"t"`
	Node  string     `json:"node"` // file package
	Conf  Conf       `json:"conf"`
	Tasks [][]OpSpec `json:"tasks"`
	Sched Sched      `json:"sched"`
}

func (x *c14Case) sched() *Sched { return &x.Sched }

// snapshot writes everything reachable from v through exported fields,
// including which pointers are the same.
func snapshot(v any) string {
	var sb strings.Builder
	seen := map[uintptr]int{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if v.IsNil() {
				sb.WriteString("nil ")
				return
			}
			rec(v.Elem())
		case reflect.Pointer:
			if v.IsNil() {
				sb.WriteString("nil ")
				return
			}
			if v.Elem().Type().Size() > 0 {
				if n, ok := seen[v.Pointer()]; ok {
					fmt.Fprintf(&sb, "^%d ", n)
					return
				}
				seen[v.Pointer()] = len(seen)
			}
			sb.WriteString("&")
			rec(v.Elem())
		case reflect.Struct:
			t := v.Type()
			sb.WriteString(t.Name() + "{")
			for i := 0; i < v.NumField(); i++ {
				if t.Field(i).IsExported() {
					rec(v.Field(i))
				}
			}
			sb.WriteString("} ")
		case reflect.Slice:
			fmt.Fprintf(&sb, "%s[%d:", v.Type().Name(), v.Len())
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
			sb.WriteString("] ")
		case reflect.Map:
			ks := v.MapKeys()
			sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
			sb.WriteString("map[")
			for _, k := range ks {
				fmt.Fprintf(&sb, "%q:", fmt.Sprint(k))
				rec(v.MapIndex(k))
			}
			sb.WriteString("] ")
		case reflect.String:
			fmt.Fprintf(&sb, "%q ", v.String())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprintf(&sb, "%d ", v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			fmt.Fprintf(&sb, "%d ", v.Uint())
		case reflect.Bool:
			fmt.Fprintf(&sb, "%v ", v.Bool())
		}
	}
	rec(reflect.ValueOf(v))
	return sb.String()
}

var readOps = []string{"render", "text", "extract", "walk", "print", "entries"}

// treeOf makes the tree of the case, as it is after its resolvers ran.
func (x *c14Case) treeOf(c *Ctx) (*ast.File, ast.Node) {
	src := x.T.bytes()
	f := x.T.tree(c, src)
	if f == nil {
		return nil, nil
	}
	for _, k := range x.T.Res {
		if o := c.Outcome("resolver", budget(len(src)), func() string { builtin(k).Resolve(f); return "" }); crashed(o) {
			return nil, nil
		}
	}
	if x.Node == "package" {
		return f, &ast.Package{Files: map[string]*ast.File{"t.bib": f}}
	}
	return f, f
}

func runC14(c *Ctx, cs any) {
	x := cs.(*c14Case)
	c.countDamage(x.T.D.Dam)
	src := x.T.bytes()
	f, root := x.treeOf(c)
	if f == nil {
		return
	}
	doc := []*Rendered{{Src: src}}
	run := func(e *env, sl *slot, f *ast.File, root ast.Node) (out string) {
		return e.protect(sl, func() string { return e.onTree(sl, f, root) })
	}
	type key struct{ t, i int }
	ref := map[key]string{}
	alone := func(t, i int) string {
		f, root := x.treeOf(c)
		if f == nil {
			return "no tree"
		}
		e := newEnv(&x.Conf, doc)
		sl := &e.slots[0]
		op := &x.Tasks[t][i]
		*sl = slot{c: c, op: op}
		before := snapshot(root)
		out := c.Outcome(op.K, opBudget(e, op), func() string { return run(e, sl, f, root) })
		if sl.killed && !crashed(out) {
			out = "KILLED"
		}
		c.Eval()
		if after := snapshot(root); after != before {
			c.Fail("tree-changed", "%s changed the tree %s\n%q", opText(op), diff2(before, after), clip(string(src), 800))
		}
		return out
	}
	if !raceBuild {
		for t := range x.Tasks {
			for i := range x.Tasks[t] {
				ref[key{t, i}] = alone(t, i)
			}
		}
	}
	e := newEnv(&x.Conf, doc)
	before := snapshot(root)
	var kids []*Ctx
	outs := make([]taskOut, len(x.Tasks))
	s := c.Concurrent(&x.Sched, nil, func(s *simrt.Sim) {
		for t := range x.Tasks {
			k := c.child()
			kids = append(kids, k)
			ops := x.Tasks[t]
			sl := &e.slots[t]
			s.Spawn(fmt.Sprint("reader", t), int64(len(ops)+1)*opBudget(e, &OpSpec{}), func() {
				for i := range ops {
					*sl = slot{c: k, op: &ops[i]}
					out := run(e, sl, f, root)
					outs[t].outs = append(outs[t].outs, out)
				}
			})
		}
	})
	for _, k := range kids {
		c.join(k)
	}
	if s.Switches > 0 {
		c.Probe("interleaved")
	}
	c.Eval()
	if after := snapshot(root); after != before {
		c.Fail("tree-changed-concurrently", "%d readers changed the tree %s\n%q", len(x.Tasks), diff2(before, after), clip(string(src), 800))
	}
	for t, ops := range x.Tasks {
		got := outs[t].outcomes(s.Tasks()[t], len(ops))
		for i := range ops {
			if i >= len(got) {
				break
			}
			k := key{t, i}
			if raceBuild {
				ref[k] = alone(t, i)
			}
			c.Eval()
			if got[i] != ref[k] {
				c.Fail("reader-interference", "reader %d, operation %d (%s) gives another result among %d readers of the same tree than alone %s\n%q", t, i, opText(&ops[i]), len(x.Tasks), diff2(ref[k], got[i]), clip(string(src), 800))
			}
		}
	}
}

func init() {
	register(&Prop{
		ID: "C14", Level: "exploration",
		Rule:  "one tree (undamaged, damaged or resolved), 1 to 5 readers with 1 to 3 read-only operations each, interleaved at statement granularity, with writers and visitors failing at drawn points; non-trivial if a context switch or fault happened",
		New:   func() any { return &c14Case{} },
		Run:   runC14,
		Quick: 160000, Thorough: 2000000, RaceQuick: 4000, RaceThorough: 80000,
		Real: realTree, Stub: []string{"scheduler (simulated)", "io.Writer arguments (scripted)", "caller-supplied renderers and visitors (scripted)", "sync primitives (simulated)"},
		Faults: []string{"write-error", "writer-panic", "callback-error", "callback-panic", "callback-stop", "callback-skip", "short-write", "write-error-partial"},
		Probes: []string{"interleaved", "hand-built"},
		Valid: func(cs any) bool {
			x := cs.(*c14Case)
			for _, t := range x.Tasks {
				if !validOps(t) {
					return false
				}
				for i := range t {
					if !strings.Contains(strings.Join(readOps, " "), t[i].K) || t[i].F == "kill" {
						return false
					}
				}
			}
			return x.T.valid() && (x.Node == "file" || x.Node == "package") && x.Conf.valid() && len(x.Tasks) <= maxTasks && x.Sched.Mean >= 0
		},
		Gen: func(r *R, tier Tier) any {
			x := &c14Case{T: genTreeCase(r, r.P(1, 3)), Node: pick(r, "file", "file", "file", "package"), Conf: genConf(r), Sched: genSched(r)}
			x.T.Rep = min(x.T.Rep, 3)
			x.T.Mode &^= int(parser.Trace)
			x.T.Res = genRes(r, 2)
			if r.P(1, 6) {
				x.T = TreeCase{}
				x.T.Hand, x.T.Docs, x.T.Wide = genHand(r)
			}
			x.Conf.Res = nil
			docs := []*Rendered{{Src: x.T.bytes()}}
			kinds := readOps
			if r.P(1, 3) {
				kinds = []string{readOps[r.N(len(readOps))]}
			}
			for n := r.In(1, 5); n > 0; n-- {
				var ops []OpSpec
				for m := r.In(1, 3); m > 0; m-- {
					o := genOp(r, docs, kinds, pick(r, "", "", "err", "abort"))
					if o.F == "kill" {
						o.F = "panic"
					}
					o.Dam = nil
					ops = append(ops, o)
				}
				x.Tasks = append(x.Tasks, ops)
			}
			return x
		},
	})
}
