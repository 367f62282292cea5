package main

import (
	"bytes"
	"errors"
	"fmt"
	gotok "go/token"
	"io"
	"os"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"bibsim/simrt"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

// ---- C15 ------------------------------------------------------------------

// OptSpec is one option value, made once and used for many instances.
type OptSpec struct {
	K     string `json:"k"`               // mode, render, res
	N     int    `json:"n,omitempty"`     // mode, or node kind
	IDs   []int  `json:"ids,omitempty"`   // resolvers
	Cap   int    `json:"cap,omitempty"`   // spare capacity of their slice
	Owner int    `json:"owner,omitempty"` // 1 + task that may change the slice
}

// AuthSpec is one author resolver, made once.
type AuthSpec struct {
	Tags  []string `json:"tags"`
	Cap   int      `json:"cap,omitempty"`   // spare capacity of the slice of names
	Owner int      `json:"owner,omitempty"` // 1 + task that may change the slice
}

// Step15 is one step of a task.
type Step15 struct {
	K    string `json:"k"`              // new parse resolve render plain late defaults auth mutslice mutdefaults mutauth
	Opts []int  `json:"opts,omitempty"` // new
	I    int    `json:"i,omitempty"`    // instance
	N    int    `json:"n,omitempty"`
	ID   int    `json:"id,omitempty"`
}

type c15Case struct {
	Doc    Doc        `json:"doc"`
	Dam    []Damage   `json:"dam,omitempty"` // done to a copy of the document, which is parsed too
	Opts   []OptSpec  `json:"opts"`
	Auth   []AuthSpec `json:"auth,omitempty"`
	Shared [][]int    `json:"shared"` // option lists of instances made beforehand
	Tasks  [][]Step15 `json:"tasks"`
	Sched  Sched      `json:"sched"`
}

func (x *c15Case) sched() *Sched { return &x.Sched }

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// inst is an instance and what it was configured as.
type inst struct {
	bib  *bibtex.Biber
	mode int
	res  []int
	over map[ast.NodeKind]int
	late bool // options were applied after construction: what they do to it is not judged
}

// log15 collects, per task, the resolvers that ran.
type log15 struct{ ids [maxTasks + 1][]int }

func taskID() int {
	if t := simrt.Cur(); t != nil {
		return t.Root().ID
	}
	return maxTasks
}

// bad returns the damaged copy.
func (x *c15Case) bad() string {
	src := append([]byte(nil), x.Doc.Render().Src...)
	for _, d := range x.Dam {
		src = d.apply(src)
	}
	return string(src)
}

func parse15(fn func() (*ast.File, error)) string {
	f, err := fn()
	if err != nil {
		return "err: " + errText(err) // with or without a tree
	}
	return dumpOr(f)
}

// aloneC15 parses the damaged copy with a mode.
func aloneC15(c *Ctx, cs any, mode int) string {
	x := cs.(*c15Case)
	return c.Outcome("parse", budget(len(x.bad())), func() string {
		return parse15(func() (*ast.File, error) {
			return parser.ParseFile(gotok.NewFileSet(), "", x.bad(), parser.Mode(mode))
		})
	})
}

func runC15(c *Ctx, cs any) {
	x := cs.(*c15Case)
	src := string(x.Doc.Render().Src)
	bad := ""
	badRef := map[int]string{} // by mode
	if len(x.Dam) > 0 {
		bad = x.bad()
		modes := []int{int(parser.ParseStrings)}
		for _, o := range x.Opts {
			if o.K == "mode" {
				modes = append(modes, o.N)
			}
		}
		for _, m := range modes {
			if badRef[m] != "" {
				continue
			}
			if c.cold {
				badRef[m] = c.alone(props["C15"], cs, m)
			} else {
				badRef[m] = aloneC15(c, cs, m)
			}
			if crashed(badRef[m]) {
				return // C01's business
			}
		}
	}
	lg := &log15{}
	mkRes := func(id int) bibtex.Resolver {
		return bibtex.ResolverFunc(func(ast.Node) error {
			simrt.Point()
			t := taskID()
			lg.ids[t] = append(lg.ids[t], id)
			return nil
		})
	}
	marker := func(id int) render.NodeRendererFunc {
		return func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
			simrt.Point()
			sl := "/"
			if entering {
				sl = ""
			}
			_, err := fmt.Fprintf(w, "<%s%d:%s>", sl, id, n.Kind())
			return ast.WalkContinue, err
		}
	}
	opts := make([]bibtex.Option, len(x.Opts))
	slices := make([][]bibtex.Resolver, len(x.Opts))
	sentinel := &loggedPtr{}
	for i, o := range x.Opts {
		switch o.K {
		case "mode":
			opts[i] = bibtex.WithParserMode(parser.Mode(o.N))
		case "render":
			opts[i] = bibtex.WithRenderer(ast.NodeKind(o.N), marker(i))
		default:
			rs := make([]bibtex.Resolver, 0, len(o.IDs)+o.Cap)
			for _, id := range o.IDs {
				rs = append(rs, mkRes(id))
			}
			for j := len(rs); j < cap(rs); j++ {
				rs[:cap(rs)][j] = sentinel
			}
			slices[i] = rs
			opts[i] = bibtex.WithResolvers(rs...)
		}
	}
	build := func(list []int, task int, mutated map[int]bool) *inst {
		in := &inst{mode: int(parser.ParseStrings), over: map[ast.NodeKind]int{}}
		var os []bibtex.Option
		for _, i := range list {
			if len(x.Opts) == 0 {
				break
			}
			i %= len(x.Opts)
			o := x.Opts[i]
			if o.Owner != 0 && o.Owner != task+1 || mutated[i] {
				continue
			}
			os = append(os, opts[i])
			switch o.K {
			case "mode":
				in.mode = o.N
			case "render":
				in.over[ast.NodeKind(o.N)] = i
			default:
				in.res = append(in.res, o.IDs...)
			}
		}
		in.bib = bibtex.New(os...)
		return in
	}
	// check exercises an instance and says how it differs from its configuration.
	check := func(k *Ctx, in *inst, what string) {
		if in != nil && in.late {
			return
		}
		k.Eval()
		k.Probe("used-" + what)
		switch what {
		case "parse":
			want := &parsed{Fset: gotok.NewFileSet()}
			want.File, want.Err = parser.ParseFile(want.Fset, "", src, parser.Mode(in.mode))
			got, err := in.bib.Parse(strings.NewReader(src))
			w, g := dumpOr(want.File)+errText(want.Err), dumpOr(got)+errText(err)
			k.spoilAll(got, err, nil)
			if w != g {
				k.Fail("mode-leak", "an instance configured with mode %d, resolvers %v, renderers %v parses %s\n%q", in.mode, in.res, in.over, diff2(w, g), clip(src, 600))
			}
			if bad != "" {
				k.Probe("parsed-damaged")
				g := parse15(func() (*ast.File, error) { return in.bib.Parse(strings.NewReader(bad)) })
				if w := badRef[in.mode]; w != g {
					k.Fail("mode-leak", "an instance configured with mode %d, resolvers %v, renderers %v parses %s\n%q", in.mode, in.res, in.over, diff2(w, g), clip(bad, 600))
				}
			}
			return
		}
		f, err := parser.ParseFile(gotok.NewFileSet(), "", src, parser.ParseStrings)
		if err != nil || f == nil {
			k.Probe("document-refused")
			return
		}
		switch what {
		case "resolve":
			t := taskID()
			lg.ids[t] = nil
			es, err := in.bib.Resolve(f)
			if got, want := fmt.Sprint(lg.ids[t]), fmt.Sprint(in.res); got != want {
				k.Fail("resolver-leak", "an instance configured with resolvers %s runs %s", want, got)
			}
			if err != nil {
				k.Fail("resolve-error", "resolving failed: %v", err)
			}
			if s := checkEntries(es, bibDecls(f)); s != "" {
				k.Fail("resolve-entries", "%s\n%q", s, clip(src, 600))
			}
		case "render":
			want, ok := refRenderMark(f, func(kind ast.NodeKind) string {
				if id, ok := in.over[kind]; ok {
					return fmt.Sprintf("%d:", id)
				}
				return ""
			})
			var sb bytes.Buffer
			err := in.bib.Render(&sb, f)
			if sb.String() != want || (err == nil) != ok {
				k.Fail("renderer-leak", "an instance configured with renderers %v writes (err %v) %s\n%q", in.over, err, diff2(want, sb.String()), clip(src, 600))
			}
		case "defaults":
			want, ok := refRender(f, nil)
			var sb bytes.Buffer
			tab := render.Defaults()
			err := ast.Walk(f, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
				return tab[n.Kind()].Render(&sb, n, entering)
			})
			if sb.String() != want || (err == nil) != ok {
				k.Fail("defaults-changed", "the default renderers write (err %v) %s\n%q", err, diff2(want, sb.String()), clip(src, 600))
			}
		}
	}
	auths := make([]bibtex.AuthorResolver, len(x.Auth))
	names := make([][]string, len(x.Auth))
	for i, a := range x.Auth {
		names[i] = append(make([]string, 0, len(a.Tags)+a.Cap), a.Tags...)
		for j := len(a.Tags); j < cap(names[i]); j++ {
			names[i][:cap(names[i])][j] = "spare"
		}
		auths[i] = bibtex.NewAuthorResolver(names[i]...)
	}
	checkAuth := func(k *Ctx, i int) {
		k.Eval()
		got, err := parser.ParseFile(gotok.NewFileSet(), "", src, parser.ParseStrings)
		if err != nil || got == nil {
			k.Probe("document-refused")
			return
		}
		want, _ := parser.ParseFile(gotok.NewFileSet(), "", src, parser.ParseStrings)
		k.Probe("used-auth")
		failed := false
		for _, n := range allNodes(want) {
			t, ok := n.(*ast.TagStmt)
			if !ok || !has(x.Auth[i].Tags, t.Name) {
				continue
			}
			txt, ok := t.Value.(*ast.ParsedText)
			if !ok {
				failed = true
				break
			}
			as, err := bibtex.ExtractAuthors(txt)
			if err != nil {
				failed = true
				break
			}
			t.Value = as
			k.Probe("authors-resolved")
		}
		err = auths[i].Resolve(got)
		if (err != nil) != failed {
			k.Fail("author-tags-error", "an author resolver for %q gives the error %v, want failed=%v\n%q", x.Auth[i].Tags, err, failed, clip(src, 600))
		}
		if w, g := dumpOr(want), dumpOr(got); w != g {
			k.Fail("author-tags", "an author resolver for %q resolves %s\n%q", x.Auth[i].Tags, diff2(w, g), clip(src, 600))
		}
	}
	var shared []*inst
	for _, l := range x.Shared {
		shared = append(shared, build(l, -1, nil))
	}
	var kids []*Ctx
	s := c.Concurrent(&x.Sched, nil, func(s *simrt.Sim) {
		for t := range x.Tasks {
			k := c.child()
			kids = append(kids, k)
			s.Spawn(fmt.Sprint("user", t), int64(len(x.Tasks[t])+1)*budget(len(src)*4+len(bad)*2), func() {
				mutated := map[int]bool{}
				ins := append([]*inst(nil), shared...)
				for _, st := range x.Tasks[t] {
					switch st.K {
					case "new":
						ins = append(ins, build(st.Opts, t, mutated))
					case "plain":
						in := build(nil, t, nil)
						check(k, in, pick(&R{uint64(st.N)}, "parse", "resolve", "render"))
						ins = append(ins, in)
					case "late": // an option for one of the caller's own instances
						own := ins[len(shared):]
						if len(own) == 0 || len(x.Opts) == 0 {
							continue
						}
						i := st.N % len(x.Opts)
						if o := x.Opts[i]; o.Owner != 0 && o.Owner != t+1 || mutated[i] {
							continue
						}
						in := own[st.I%len(own)]
						k.Fault("option-applied-late")
						in.late = true
						opts[i](in.bib)
					case "defaults":
						check(k, nil, "defaults")
					case "mutdefaults":
						k.Fault("defaults-table-changed")
						tab := render.Defaults()
						tab[st.N%len(tab)] = marker(1000 + st.ID)
					case "mutslice":
						if len(x.Opts) == 0 {
							continue
						}
						i := st.N % len(x.Opts)
						if x.Opts[i].K != "res" || x.Opts[i].Owner != t+1 || len(slices[i]) == 0 {
							continue
						}
						mutated[i] = true
						k.Fault("resolver-slice-changed")
						slices[i][st.ID%len(slices[i])] = mkRes(1000 + st.ID)
					case "auth":
						if len(x.Auth) > 0 {
							checkAuth(k, st.I%len(x.Auth))
						}
					case "mutauth":
						if len(x.Auth) == 0 {
							continue
						}
						i := st.N % len(x.Auth)
						if x.Auth[i].Owner != t+1 || len(names[i]) == 0 {
							continue
						}
						k.Fault("tag-slice-changed")
						names[i][st.ID%len(names[i])] = authNames[st.ID%len(authNames)]
					default:
						if len(ins) > 0 {
							check(k, ins[st.I%len(ins)], st.K)
						}
					}
				}
				for j, in := range ins { // at the end, all of them
					check(k, in, []string{"parse", "resolve", "render"}[(j+t)%3])
				}
				check(k, nil, "defaults")
				for i := range auths {
					checkAuth(k, i)
				}
			})
		}
	})
	for _, k := range kids {
		c.join(k)
	}
	for _, t := range s.Tasks() {
		c.check("use of instances", Outcome{T: t, Panicked: t.Panicked, Val: t.PanicVal, Hang: t.Exhausted, Deadlock: s.Deadlock && !t.Finished, Steps: t.Steps})
	}
	for i, rs := range slices {
		for j, r := range rs[len(rs):cap(rs)] {
			if r != bibtex.Resolver(sentinel) {
				c.Fail("slice-written", "the slice given to WithResolvers (option %d) was written at index %d, past its length %d", i, len(rs)+j, len(rs))
			}
		}
	}
}

var authNames = []string{"author", "editor", "title", "note", "zzz", "Author", "authored", "itor", "authoreditor", "author,editor", "author editor", ""}

// Sets of names that run together to the same text.
var authSets = [][]string{{"author", "editor"}, {"authored", "itor"}, {"auth", "oreditor"}, {"authoreditor"}, {"author editor"}, {"author,editor"}, {"author, editor"}, {"author\x00editor"}, {"author;editor"}, {"author|editor"}, {"author/editor"}, {"author", "", "editor"}, {"Author", "Editor"}, {"authore", "editor"}, {"author"}, {"editor"}, {"[author", "editor]"}, {"editor", "author"}}

func init() {
	uses := []string{"parse", "resolve", "render"}
	register(&Prop{
		ID: "C15", Level: "exploration",
		Rule:  "a pool of option values reused for several instances, 1 to 3 tasks constructing and using instances and changing the slices and tables they own, interleaved at statement granularity; non-trivial if a switch or a change of a slice or table happened",
		New:   func() any { return &c15Case{} },
		Run:   runC15,
		Alone: aloneC15,
		Quick: 25000, Thorough: 500000, ColdQuick: 60, ColdThorough: 1000, RaceQuick: 1600, RaceThorough: 50000,
		Real: realTree, Stub: []string{"scheduler (simulated)", "caller-supplied resolvers and renderers (markers)"},
		Faults: []string{"defaults-table-changed", "resolver-slice-changed", "tag-slice-changed", "option-applied-late"},
		Probes: []string{"used-auth", "authors-resolved", "used-parse", "used-resolve", "used-render", "used-defaults", "parsed-damaged"},
		Valid: func(cs any) bool {
			x := cs.(*c15Case)
			for _, d := range x.Dam {
				if !validDamage(d) {
					return false
				}
			}
			for _, o := range x.Opts {
				switch o.K {
				case "mode":
					if !validMode(o.N) || o.N&int(parser.Trace) != 0 {
						return false
					}
				case "render":
					if o.N < 0 || o.N >= nKinds {
						return false
					}
				case "res":
				default:
					return false
				}
				if o.Cap < 0 || o.Owner < 0 {
					return false
				}
			}
			for _, a := range x.Auth {
				if a.Cap < 0 || a.Owner < 0 {
					return false
				}
			}
			for _, t := range x.Tasks {
				for _, s := range t {
					if s.I < 0 || s.N < 0 || s.ID < 0 || !strings.Contains("new parse resolve render plain late defaults auth mutslice mutdefaults mutauth", s.K) || s.K == "" {
						return false
					}
					for _, i := range s.Opts {
						if i < 0 {
							return false
						}
					}
				}
			}
			for _, l := range x.Shared {
				for _, i := range l {
					if i < 0 {
						return false
					}
				}
			}
			return x.Doc.Valid() && len(x.Tasks) <= maxTasks && x.Sched.Mean >= 0
		},
		Gen: func(r *R, tier Tier) any {
			x := &c15Case{Doc: genDoc(r, docOpts{small: true, maxItems: 3, needBib: true, authors: r.P(1, 2)}), Sched: genSched(r)}
			if r.P(1, 3) {
				rd := x.Doc.Render()
				for n := r.In(1, 12); n > 0; n-- {
					x.Dam = append(x.Dam, genDamage(r, rd))
				}
				if r.P(1, 2) { // many errors, on lines of their own or on one
					one := pick(r, "@bad{x,y", "@bad{x,=", "@bad x", "@string{=", "@preamble{", "@bad{,}")
					x.Dam = append(x.Dam, Damage{K: "ins", A: pick(r, 0, r.N(len(rd.Src)+1)), S: strings.Repeat(one+pick(r, "\n", " "), r.In(1, 30))})
				}
			}
			nt := pick(r, 1, 1, 2, 3)
			for n := r.In(1, 7); n > 0; n-- {
				switch r.N(4) {
				case 0:
					x.Opts = append(x.Opts, OptSpec{K: "mode", N: genMode(r)})
				case 1:
					// Few kinds, so that replacements meet.
					x.Opts = append(x.Opts, OptSpec{K: "render", N: int(pick(r, ast.KindText, ast.KindText, ast.KindIdent, ast.KindBibDecl, ast.KindParsedText, ast.NodeKind(r.N(nKinds))))})
				default:
					o := OptSpec{K: "res", Cap: r.N(4), Owner: r.N(nt + 1)}
					for m := r.N(4); m > 0; m-- {
						o.IDs = append(o.IDs, r.N(100))
					}
					x.Opts = append(x.Opts, o)
				}
			}
			list := func() []int {
				var out []int
				for m := r.N(5); m > 0; m-- {
					out = append(out, r.N(len(x.Opts)))
				}
				return out
			}
			for n := r.N(4); n > 0; n-- {
				a := AuthSpec{Cap: r.N(3), Owner: r.N(nt + 1)}
				for m := r.N(4); m > 0; m-- {
					k := len(authNames)
					if r.P(2, 3) {
						k = 5
					}
					a.Tags = append(a.Tags, authNames[r.N(k)])
				}
				if r.P(1, 3) {
					a.Tags = append([]string(nil), authSets[r.N(len(authSets))]...)
				}
				x.Auth = append(x.Auth, a)
			}
			for n := r.N(3); n > 0; n-- {
				x.Shared = append(x.Shared, list())
			}
			for t := 0; t < nt; t++ {
				var ss []Step15
				for n := r.In(2, 8); n > 0; n-- {
					switch r.N(10) {
					case 8:
						ss = append(ss, Step15{K: "auth", I: r.N(4)})
					case 9:
						ss = append(ss, Step15{K: "mutauth", N: r.N(6), ID: r.N(8)})
					case 0, 1, 2:
						ss = append(ss, Step15{K: "new", Opts: list()})
					case 3:
						ss = append(ss, Step15{K: "mutslice", N: r.N(len(x.Opts)), ID: r.N(8)})
					case 4:
						ss = append(ss, Step15{K: pick(r, "mutdefaults", "plain", "defaults", "late"), N: r.N(100), ID: r.N(8), I: r.N(4)})
					default:
						ss = append(ss, Step15{K: uses[r.N(3)], I: r.N(6)})
					}
				}
				x.Tasks = append(x.Tasks, ss)
			}
			return x
		},
	})
}

// ---- C16 ------------------------------------------------------------------

type c16Case struct {
	Docs  []DocCase `json:"docs"` // parsed one after another from one buffer
	Mode  int       `json:"mode"`
	API   string    `json:"api"`  // file biber scan
	Kind  string    `json:"kind"` // bytes buffer reader breader
	Pre   int       `json:"pre"`  // bytes before and after the document in the array
	Spare int       `json:"spare"`
	Mut   string    `json:"mut"` // clear, junk, reverse
	Conc  bool      `json:"conc,omitempty"`
	Ops   []string  `json:"ops,omitempty"`
	Sched Sched     `json:"sched"`
}

func (x *c16Case) sched() *Sched { return &x.Sched }

// product is what a parse returned.
type product struct {
	p    *parsed
	toks []string
	lits []string
	es   []bibtex.Entry
	auth []ast.Authors
	text []string
}

func (q *product) String() string {
	var sb strings.Builder
	if q.p != nil {
		sb.WriteString(q.p.String())
		if q.p.File != nil {
			sb.WriteString(snapshot(q.p.File))
		}
	}
	sb.WriteString(strings.Join(q.toks, " "))
	for _, l := range q.lits {
		fmt.Fprintf(&sb, "%q ", l)
	}
	sb.WriteString(viewEntries(q.es))
	for _, a := range q.auth {
		sb.WriteString(authorsText(a, nil))
	}
	for _, t := range q.text {
		fmt.Fprintf(&sb, "%q ", t)
	}
	return sb.String()
}

func (x *c16Case) parse(arg any, src []byte) *product {
	q := &product{}
	mode := parser.Mode(x.Mode) &^ parser.Trace
	switch x.API {
	case "scan":
		fset := gotok.NewFileSet()
		file := fset.AddFile("s", -1, len(src))
		sc := &scanner.Scanner{}
		sc.Init(file, src, func(pos gotok.Position, msg string) {
			q.toks = append(q.toks, fmt.Sprintf("E%d", pos.Offset))
			q.lits = append(q.lits, msg, pos.Filename)
		}, scanner.Mode(x.Mode&3))
		for i := 0; i < 3*len(src)+50; i++ {
			pos, tok, lit := sc.Scan()
			q.toks = append(q.toks, fmt.Sprintf("%d%s", int(pos)-1, tok))
			q.lits = append(q.lits, lit)
			if tok == token.EOF {
				break
			}
		}
		return q
	case "biber":
		bib := bibtex.New(bibtex.WithParserMode(mode))
		f, err := bib.Parse(arg.(io.Reader))
		q.p = &parsed{File: f, Err: err, Fset: gotok.NewFileSet()}
	default:
		q.p = parseFile("b.bib", arg, mode)
	}
	if q.p.File != nil {
		q.es, _ = bibtex.New().Resolve(q.p.File)
		for _, t := range parsedTexts(q.p.File) {
			if a, err := bibtex.ExtractAuthors(t); err == nil {
				q.auth = append(q.auth, a)
			}
		}
	}
	return q
}

func (x *c16Case) arg(buf []byte) any {
	switch x.Kind {
	case "buffer":
		return bytes.NewBuffer(buf)
	case "breader":
		return bytes.NewReader(buf)
	case "lreader":
		return &io.LimitedReader{R: bytes.NewBuffer(buf), N: int64(len(buf))}
	}
	if x.API == "biber" {
		return bytes.NewReader(buf)
	}
	return buf
}

func mutate(b []byte, how string) {
	for i := range b {
		switch how {
		case "clear":
			b[i] = 0
		case "junk":
			b[i] = "}\"@x{,=\xff\n"[i%9]
		case "upper":
			b[i] ^= 0x20
		}
	}
	if how == "reverse" {
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
}

func runC16(c *Ctx, cs any) {
	x := cs.(*c16Case)
	var srcs [][]byte
	size := 0
	for i := range x.Docs {
		_, _, src := x.Docs[i].build()
		c.countDamage(x.Docs[i].Dam)
		srcs = append(srcs, src)
		size = max(size, len(src))
	}
	ref := make([]string, len(srcs))
	alone := func(i int) string {
		own := append([]byte(nil), srcs[i]...)
		return c.Outcome("parse", 3*budget(len(own)), func() string { return x.parse(x.arg(own), own).String() })
	}
	if !raceBuild {
		for i := range srcs {
			if ref[i] = alone(i); crashed(ref[i]) {
				return // C03's business
			}
		}
	}
	back := make([]byte, x.Pre+size+x.Spare)
	load := func(src []byte) []byte {
		for i := range back {
			back[i] = "{\"}@,=a \n"[i%9]
		}
		copy(back[x.Pre:], src)
		return back[x.Pre : x.Pre+len(src)]
	}
	var bud int64
	for _, s := range srcs {
		bud += 4 * budget(len(s))
	}
	var prods []*product
	done := make([]chan struct{}, len(srcs))
	for i := range done {
		done[i] = make(chan struct{})
	}
	fail := ""
	produce := func(k *Ctx) {
		for i, src := range srcs {
			buf := load(src)
			before := string(back)
			q := x.parse(x.arg(buf), buf)
			if string(back) != before {
				d := firstDiff([]byte(before), back) - x.Pre
				k.Fail("buffer-modified", "parsing changed byte %d of the caller's %d bytes (negative or past the end: the array around them)\n%q", d, len(src), clip(string(src), 800))
			}
			prods = append(prods, q)
			close(done[i])
			simrt.Point()
			k.Fault("buffer-" + x.Mut)
			mutate(back, x.Mut)
			simrt.Point()
		}
	}
	var got []string
	if !x.Conc {
		var snaps []string
		o := c.Do("parse", bud, func() {
			for i, src := range srcs {
				buf := load(src)
				before := string(back)
				q := x.parse(x.arg(buf), buf)
				if string(back) != before {
					d := firstDiff([]byte(before), back) - x.Pre
					c.Fail("buffer-modified", "parsing changed byte %d of the caller's %d bytes (negative or past the end: the array around them)\n%q", d, len(src), clip(string(src), 800))
				}
				snaps = append(snaps, q.String())
				prods = append(prods, q)
				if x.Mut != "" && (i == len(srcs)-1 || i%2 == 0) {
					c.Fault("buffer-" + x.Mut)
					mutate(back, x.Mut)
				} else {
					c.Fault("buffer-reused")
				}
				for j, p := range prods {
					c.Eval()
					if s := p.String(); s != snaps[j] && fail == "" {
						fail = fmt.Sprintf("rewriting the caller's buffer (%s) after parse %d changed what parse %d returned %s\n%q", x.Mut, i, j, diff2(snaps[j], s), clip(string(srcs[j]), 800))
					}
				}
			}
		})
		if fail != "" {
			c.Fail("tree-follows-buffer", "%s", fail)
		}
		if crashed2(o) {
			return
		}
		got = snaps
	} else {
		got = make([]string, len(srcs))
		kids := []*Ctx{c.child()}
		s := c.Concurrent(&x.Sched, nil, func(s *simrt.Sim) {
			s.Spawn("parser", bud, func() { produce(kids[0]) })
			for i := range srcs {
				k := c.child()
				kids = append(kids, k)
				s.Spawn(fmt.Sprint("reader", i), bud, func() {
					simrt.WaitUntil("tree", func() bool {
						select {
						case <-done[i]:
							return true
						default:
							return false
						}
					})
					<-done[i]
					q := prodAt(&prods, i)
					k.Probe("read-concurrently")
					got[i] = q.String()
					if q.p == nil || q.p.File == nil {
						return
					}
					var sb bytes.Buffer
					bibtex.New().Render(&sb, q.p.File)
					q2 := q.String()
					if q2 != got[i] {
						got[i] = q2
					}
				})
			}
		})
		for _, k := range kids {
			c.join(k)
		}
		if s.Deadlock || s.Tasks()[0].Panicked || s.Tasks()[0].Exhausted {
			return // C03's business
		}
	}
	for i := range got {
		if raceBuild {
			if ref[i] = alone(i); crashed(ref[i]) {
				return
			}
		}
		c.Eval()
		if got[i] != ref[i] {
			c.Fail("buffer-shared", "document %d parsed from a reused buffer gives another result than from a buffer of its own %s\n%q", i, diff2(ref[i], got[i]), clip(string(srcs[i]), 800))
		}
	}
}

// prodAt reads element i; the channel closed after it was stored orders that.
func prodAt(p *[]*product, i int) *product { return (*p)[i] }

func crashed2(o Outcome) bool { return o.Panicked || o.Hang || o.Deadlock }

func init() {
	register(&Prop{
		ID: "C16", Level: "exploration",
		Rule:  "1 to 4 documents parsed one after another from one caller-owned array with bytes around the document, which is rewritten between and after the parses, also while another caller reads the earlier trees; non-trivial if the buffer was rewritten",
		New:   func() any { return &c16Case{} },
		Run:   runC16,
		Quick: 200000, Thorough: 3000000, RaceQuick: 2400, RaceThorough: 50000,
		Real: append([]string{"scanner"}, realTree...), Stub: []string{"scheduler (simulated)"},
		Faults: []string{"buffer-clear", "buffer-junk", "buffer-reverse", "buffer-upper", "buffer-reused"},
		Probes: []string{"read-concurrently"},
		Valid: func(cs any) bool {
			x := cs.(*c16Case)
			for i := range x.Docs {
				if !x.Docs[i].valid() {
					return false
				}
			}
			return len(x.Docs) < maxTasks && validMode(x.Mode) && strings.Contains("file biber scan", x.API) && x.API != "" && strings.Contains("bytes buffer breader lreader", x.Kind) && x.Kind != "" &&
				x.Pre >= 0 && x.Pre < 1000 && x.Spare >= 0 && x.Spare < 10000 && strings.Contains("clear junk reverse upper", x.Mut) && x.Mut != "" && x.Sched.Mean >= 0
		},
		Gen: func(r *R, tier Tier) any {
			x := &c16Case{Mode: genMode(r), API: pick(r, "file", "file", "biber", "scan"), Kind: pick(r, "bytes", "bytes", "buffer", "breader", "lreader"),
				Pre: pick(r, 0, 1, 8, 64), Spare: pick(r, 0, 0, 1, 2, 16, 600), Mut: pick(r, "clear", "junk", "reverse", "upper"), Conc: r.P(1, 3), Sched: genSched(r)}
			for n := r.In(1, 4); n > 0; n-- {
				dam := 0
				if r.P(1, 4) {
					dam = 1
				}
				x.Docs = append(x.Docs, genDocCase(r, docOpts{maxItems: pick(r, 1, 3, 5), authors: r.P(1, 2), needBib: r.P(1, 2)}, dam))
			}
			return x
		},
	})
}

// ---- C17 ------------------------------------------------------------------

// FSpec is one file on the simulated disk.
type FSpec struct {
	K     string  `json:"k,omitempty"` // "" file, missing, dir, link, dangling, loop
	D     DocCase `json:"d"`
	Fault *DFault `json:"fault,omitempty"`
	Name  string  `json:"name,omitempty"` // file name
	Dir   string  `json:"dir,omitempty"`  // of fileDirs
}

type c17Case struct {
	Files []FSpec `json:"files"`
	List  []int   `json:"list"` // paths given, in order; n+len(Files) is another spelling of n
	Mode  int     `json:"mode"`
	Nil   bool    `json:"nil,omitempty"`  // an empty list is given as nil
	Rel   bool    `json:"rel,omitempty"`  // the files are in the working directory
	FDs   int     `json:"fds,omitempty"`  // how many files may be open at once, 0 for any number
	Near  bool    `json:"near,omitempty"` // other files are around those that cannot be read
}

// minFDs leaves room for a parser that reads several files at once.
const minFDs = 17

func runC17(c *Ctx, cs any) {
	x := cs.(*c17Case)
	d := c.Disk()
	d.limit = x.FDs
	if x.FDs > 0 {
		c.Probe("descriptor-limit")
	}
	mode := parser.Mode(x.Mode)
	var paths, alt, names []string
	total := 0
	if x.Rel {
		d.Enter()
	}
	used := map[string]bool{}
	bytesOf := map[string]string{} // what the healthy files hold
	unreadable := map[string]bool{}
	for i := range x.Files {
		f := &x.Files[i]
		name := fmt.Sprintf("f%d.bib", i)
		base := name
		if f.Name != "" {
			name = f.Name
		}
		if f.Dir != "" {
			name = f.Dir + "/" + name
			c.Probe("subdirectory")
		}
		if used[name] {
			name = base
		}
		used[name] = true
		p, q := d.Path(name), d.dir+"/./"+name
		if x.Rel {
			p, q = name, "./"+name
		}
		switch f.K {
		case "missing":
			c.Fault("file-missing")
		case "dir":
			c.Fault("path-is-directory")
			if err := os.MkdirAll(d.Path(name), 0o700); err != nil {
				fatal("%v", err)
			}
		case "dangling":
			c.Fault("dangling-link")
			d.Link(d.Path("no such file"), name)
		case "loop":
			c.Fault("link-loop")
			d.Link(d.Path(name), name)
		default:
			_, _, src := f.D.build()
			c.countDamage(f.D.Dam)
			total += len(src)
			if f.K == "link" {
				c.Probe("symbolic-link")
				t := fmt.Sprintf("target%d", i)
				d.Put(t, src)
				d.Link(d.Path(t), name)
			} else {
				d.Put(name, src)
			}
			if f.Fault == nil || f.Fault.K == "short" || f.Fault.K == "stall" {
				bytesOf[p], bytesOf[q] = string(src), string(src)
			}
		}
		switch f.K {
		case "missing", "dir", "dangling", "loop":
			unreadable[p], unreadable[q] = true, true
		}
		if f.Fault != nil {
			d.Fail(p, *f.Fault)
			d.Fail(q, *f.Fault)
		}
		paths, alt, names = append(paths, p), append(alt, q), append(names, name)
	}
	if x.Near {
		taken := map[string]bool{}
		for _, n := range names {
			taken[n] = true
		}
		for i, n := range names {
			f := &x.Files[i]
			if len(n) < 100 && (f.K == "missing" || f.K == "dangling" || f.Fault != nil && (f.Fault.K == "open" || f.Fault.K == "read")) && !slices.ContainsFunc(decoys(n), func(s string) bool { return taken[s] && s != n }) {
				d.Decoys(n)
				break
			}
		}
	}
	var list []string
	if !x.Nil {
		list = []string{}
	}
	for _, i := range x.List {
		if len(x.Files) == 0 {
			break
		}
		i %= 2 * len(x.Files)
		if i < len(paths) {
			list = append(list, paths[i])
		} else {
			list = append(list, alt[i-len(paths)])
		}
	}
	// Each path alone.
	type res struct {
		p     *parsed
		cause error
	}
	alone := map[string]*res{}
	for _, p := range list {
		if alone[p] != nil {
			continue
		}
		r := &res{}
		out := c.Outcome("parse alone", budget(total), func() string { r.p = parseFile(p, nil, mode); return "" })
		if crashed(out) {
			return // C03's business
		}
		r.cause = d.Fired(p)
		alone[p] = r
		if r.cause != nil || unreadable[p] {
			c.Eval()
			if r.p.Err == nil || r.p.File != nil {
				c.Fail("unreadable-accepted", "%q cannot be read (%v), yet parsing it gives tree=%v err=%v", p, r.cause, r.p.File != nil, r.p.Err)
			}
		}
		if src, ok := bytesOf[p]; ok {
			c.Eval()
			w := c.Outcome("parse bytes", budget(total), func() string { return parseFile(p, src, mode).String() })
			if g := r.p.String(); w != g && !crashed(w) {
				c.Fail("file-not-its-bytes", "%q parsed from the disk gives another result than its %d bytes %s", p, len(src), diff2(w, g))
			}
		}
	}
	arg := append([]string(nil), list...)
	if x.Nil && len(arg) == 0 {
		arg = nil
	}
	var pkg *ast.Package
	var err error
	c.Must("ParsePackage", int64(len(list)+1)*budget(total), func() { pkg, err = parser.ParsePackage(arg, mode) })
	desc := func() string {
		var sb strings.Builder
		for _, p := range list {
			fmt.Fprintf(&sb, "\n  %s alone: %s", strings.TrimPrefix(p, d.dir), clip(strings.ReplaceAll(errText(alone[p].p.Err), d.dir, ""), 200))
		}
		return fmt.Sprintf("mode %d, paths:%s", x.Mode, sb.String())
	}
	c.Eval()
	if fmt.Sprint(arg) != fmt.Sprint(list) {
		c.Fail("paths-changed", "the caller's list of paths was changed to %v, %s", arg, desc())
	}
	if pkg == nil {
		c.Fail("no-package", "ParsePackage returned no package, %s", desc())
	}
	want := map[string]bool{}
	var first error
	var cause error
	bad := 0
	for _, p := range list {
		if e := alone[p].p.Err; e == nil {
			want[p] = true
		} else {
			bad++
			if first == nil {
				first, cause = e, alone[p].cause
			}
		}
	}
	if bad > 0 && len(want) > 0 {
		c.Probe("some-files-failed")
	}
	if bad > 1 {
		c.Probe("several-failures")
	}
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if got := sortedFiles(pkg); fmt.Sprint(got) != fmt.Sprint(ks) {
		c.Fail("package-files", "the package holds %s, want %s, %s", strings.ReplaceAll(fmt.Sprint(got), d.dir, ""), strings.ReplaceAll(fmt.Sprint(ks), d.dir, ""), desc())
	}
	var dumps []string
	for _, k := range ks {
		c.Eval()
		if pkg.Files[k] == nil {
			c.Fail("package-nil-file", "the package holds nil for %s, %s", k, desc())
		}
		a, _ := Dump(alone[k].p.File, 2, 0)
		g, _ := Dump(pkg.Files[k], 2, 0)
		if n, m := firstPos(a), firstPos(g); n != m {
			g, _ = Dump(pkg.Files[k], 2, m-n) // files of a package may share a file set
		}
		if a != g {
			c.Fail("package-file-differs", "%s in the package differs from the file alone %s, %s", strings.TrimPrefix(k, d.dir), diff2(a, g), desc())
		}
		dumps = append(dumps, dumpOr(pkg.Files[k]))
	}
	// Each file's tree is its own.
	for i, k := range ks {
		if s := dumpOr(pkg.Files[k]); s != dumps[i] {
			c.Fail("package-tree-shared", "rewriting the trees of the files before it changed that of %s %s, %s", strings.TrimPrefix(k, d.dir), diff2(dumps[i], s), desc())
		}
		c.spoilAll(pkg.Files[k], nil, nil)
	}
	switch {
	case first == nil && err != nil:
		c.Fail("package-error", "every file is fine but ParsePackage returned %v, %s", err, desc())
	case first != nil && err == nil:
		c.Fail("package-error-lost", "%d paths fail but ParsePackage returned no error, %s", bad, desc())
	case first != nil:
		if errText(err) != errText(first) && !strings.Contains(err.Error(), first.Error()) {
			c.Fail("package-wrong-error", "ParsePackage returned %q, the first failing path gives %q, %s", errText(err), errText(first), desc())
		}
		if cause != nil && !errors.Is(err, cause) {
			c.Fail("package-error-not-identified", "ParsePackage's error %q does not identify the disk error %v, %s", err, cause, desc())
		}
	}
}

var posRE = regexp.MustCompile(`@(\d+)`)

func firstPos(dump string) int {
	m := posRE.FindStringSubmatch(strip(dump))
	if m == nil {
		return 0
	}
	n, _ := strconv.Atoi(m[1])
	return n
}

// strip removes quoted text, which may hold anything.
func strip(s string) string { return quoted.ReplaceAllString(s, `""`) }

var quoted = regexp.MustCompile(`"(\\.|[^"\\])*"`)

func init() {
	register(&Prop{
		ID: "C17", Level: "fault_enumeration",
		Rule:  "0 to 7 (now and then 40) paths (with repeats and other spellings) over files in several directories that are healthy, damaged, missing, directories, links, or fail on opening or at a drawn read offset; non-trivial if a file was damaged, missing or faulted",
		New:   func() any { return &c17Case{} },
		Run:   runC17,
		Quick: 110000, Thorough: 4000000, RaceQuick: 1200, RaceThorough: 40000,
		Real: realParse, Stub: []string{"disk faults (hook in package os; files in a scratch directory)"},
		Faults: []string{"open-error", "disk-read-error", "disk-short-read", "disk-stall", "file-missing", "path-is-directory", "dangling-link", "link-loop", "damage-cut"},
		Probes: []string{"files-around", "some-files-failed", "several-failures", "subdirectory", "symbolic-link", "descriptor-limit"},
		Valid: func(cs any) bool {
			x := cs.(*c17Case)
			for i := range x.Files {
				f := &x.Files[i]
				if f.Name == "." || f.Name == ".." || len(f.Name) > 100 || strings.ContainsAny(f.Name, "/\x00") {
					return false
				}
				if !f.D.valid() || !strings.Contains(" missing dir link dangling loop  ", " "+f.K+" ") {
					return false
				}
				if f.Dir != "" && !slices.Contains(fileDirs, f.Dir) {
					return false
				}
				if q := f.Fault; q != nil && (q.Off < 0 || q.Err < 0 || q.N < 0 || !strings.Contains(" open read short stall ", " "+q.K+" ") || q.K == "") {
					return false
				}
			}
			for _, i := range x.List {
				if i < 0 {
					return false
				}
			}
			return validMode(x.Mode) && len(x.List) <= 320 && (x.FDs == 0 || x.FDs >= minFDs)
		},
		Gen: func(r *R, tier Tier) any {
			x := &c17Case{Mode: genMode(r), Nil: r.P(1, 2), Rel: r.P(1, 3), Near: r.P(1, 15)}
			for n := r.N(6); n > 0; n-- {
				f := FSpec{K: pick(r, "", "", "", "", "", "", "", "", "", "", "missing", "missing", "dir", "dir", "link", "link", "dangling", "loop")}
				if r.P(1, 4) {
					f.Dir = fileDirs[r.N(len(fileDirs))]
					f.Name = pick(r, "", "x.bib", "x.bib", "X.bib", "x")
				}
				dam := 0
				if r.P(1, 4) {
					dam = 1
				}
				f.D = genDocCase(r, docOpts{maxItems: pick(r, 1, 3, 4), needBib: r.P(1, 2)}, dam)
				if f.Dir == "" && r.P(1, 4) {
					f.Name = oddPaths[r.N(len(oddPaths))]
				}
				if r.P(1, 60) {
					f.D.Pad = genPad(r, len(f.D.Doc.Render().Src), r.P(1, 10))
					f.D.Pad.N = min(f.D.Pad.N, 1<<17)
				}
				if r.P(1, 3) {
					_, _, src := f.D.build()
					f.Fault = &DFault{K: pick(r, "open", "read", "read", "short", "stall"), Off: r.N(len(src) + 1), Err: r.N(len(errnos)), N: pick(r, 1, 3, 17, 100)}
					if len(src) > 20000 {
						f.Fault.N = 511
					}
				}
				x.Files = append(x.Files, f)
				if r.P(1, 8) { // the same bytes once more
					x.Files = append(x.Files, f)
				}
			}
			if len(x.Files) > 0 {
				n := r.N(8)
				if r.P(1, 25) { // many files: small ones, so that this stays cheap
					for i := range x.Files {
						x.Files[i].D.Doc.Items = x.Files[i].D.Doc.Items[:min(1, len(x.Files[i].D.Doc.Items))]
						x.Files[i].D.Pad = nil
					}
					many := pick(r, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 130, 300)
					for m := len(x.Files); len(x.Files) < many; m++ {
						x.Files = append(x.Files, x.Files[m%len(x.Files)])
					}
					for i := range x.Files {
						if r.P(2, 3) {
							x.Files[i].K, x.Files[i].Fault = "", nil
						}
						x.List = append(x.List, i)
					}
					x.List = x.List[r.N(len(x.List)):]
					n = 0
				}
				for ; n > 0; n-- {
					i := r.N(len(x.Files))
					if r.P(1, 12) {
						i += len(x.Files)
					}
					x.List = append(x.List, i)
				}
			}
			if r.P(1, 4) || len(x.List) > 8 {
				x.FDs = pick(r, minFDs, 20, 32)
			}
			return x
		},
	})
}

// ---- C18 ------------------------------------------------------------------

type c18Case struct {
	Docs  []Doc      `json:"docs"`
	Conf  Conf       `json:"conf"`
	Stuck []OpSpec   `json:"stuck"` // one task each; At says at which callback it stalls
	Tasks [][]OpSpec `json:"tasks"`
	Herd  int        `json:"herd,omitempty"`  // so many more callers like the first stuck one
	First bool       `json:"first,omitempty"` // the others start once the stuck ones stall
	Share bool       `json:"share,omitempty"` // callers that only read trees read the same ones
	Sched Sched      `json:"sched"`
}

func (x *c18Case) sched() *Sched { return &x.Sched }

func runC18(c *Ctx, cs any) {
	x := *cs.(*c18Case)
	docs := renderDocs(x.Docs)
	if x.Herd > 0 {
		st := append([]OpSpec(nil), x.Stuck...)
		for i := 0; i < x.Herd; i++ {
			st = append(st, x.Stuck[0])
		}
		x.Stuck = st
	}
	mkEnv := func() *env {
		e := newEnv(&x.Conf, docs)
		e.reads = true
		if x.Share {
			c.Outcome("share", 50_000_000, func() string { e.share(); return "" })
			if len(e.shared) < len(docs) {
				e.shared = nil
			}
		}
		return e
	}
	all := make([][]OpSpec, 0, len(x.Stuck)+len(x.Tasks))
	for i := range x.Stuck {
		all = append(all, x.Stuck[i:i+1])
	}
	all = append(all, x.Tasks...)
	ref := make([][]string, len(all))
	steps := make([][]int64, len(all))
	calls := make([]int, len(x.Stuck))
	for t := range all {
		for i := range all[t] {
			if k := len(x.Stuck) - x.Herd; t >= k && t < len(x.Stuck) { // as the first
				ref[t], steps[t], calls[t] = ref[0], steps[0], calls[0]
				continue
			}
			e := mkEnv()
			before := c.St.Steps
			ref[t] = append(ref[t], c.doOp(e, &all[t][i], &scanner.Scanner{}))
			steps[t] = append(steps[t], int64(c.St.Steps-before))
			if t < len(x.Stuck) {
				calls[t] = e.slots[0].n
			}
		}
	}
	for t := range x.Stuck {
		if calls[t] == 0 {
			c.Probe("no-callback")
			return
		}
	}
	e := mkEnv()
	stuck := make([]OpSpec, len(x.Stuck))
	var kids []*Ctx
	var outs []*taskOut
	stalled, released := 0, false
	blocked := ""
	var sim *simrt.Sim
	// settled: every caller that is to get stuck did, or ended before it could,
	// because it made fewer calls than alone.
	settled := func() bool {
		n := stalled
		for i, t := range sim.Tasks() {
			if i < len(stuck) && (t.Finished || t.Panicked || t.Exhausted) {
				n++
			}
		}
		return n >= len(stuck)
	}
	idle := func() bool {
		if released || stalled == 0 {
			return false
		}
		for i, t := range sim.Tasks() {
			if i >= len(stuck) && i < len(all) && !t.Finished && !t.Panicked && !t.Exhausted && blocked == "" {
				blocked = fmt.Sprintf("caller %d", i)
			}
		}
		released = true
		return true
	}
	s := c.Concurrent(&x.Sched, idle, func(s *simrt.Sim) {
		sim = s
		for i := range x.Stuck {
			stuck[i] = x.Stuck[i]
			stuck[i].At = 1 + (stuck[i].At-1)%calls[i]
			stuck[i].F = "stall"
			outs = append(outs, c.spawnOps(s, e, stuck[i:i+1], &kids, func(sl *slot) {
				sl.stall = func() {
					stalled++
					simrt.WaitUntil("a caller that does not come back", func() bool { return released })
				}
			}))
		}
		for i := range x.Tasks {
			first := true
			outs = append(outs, c.spawnOps(s, e, x.Tasks[i], &kids, func(sl *slot) {
				if x.First && first {
					first = false
					simrt.WaitUntil("start", func() bool { return released || settled() })
				}
			}))
		}
	})
	for _, k := range kids {
		c.join(k)
	}
	if stalled > 0 {
		c.Probe("stalled")
	}
	if blocked != "" {
		c.Eval()
		c.Fail("blocked-by-stall", "%s could not finish while caller 0 (%s) was stuck in its own callback number %d", blocked, opText(&x.Stuck[0]), stuck[0].At)
	}
	for t := range all {
		got := outs[t].outcomes(s.Tasks()[t], len(all[t]))
		for i := range all[t] {
			if i >= len(got) {
				break
			}
			c.Eval()
			if got[i] != ref[t][i] {
				c.Fail("stall-changed-result", "caller %d, operation %d (%s) gives another result with caller 0 (%s) stuck in callback %d %s", t, i, opText(&all[t][i]), opText(&x.Stuck[0]), stuck[0].At, diff2(ref[t][i], got[i]))
			}
			if i < len(outs[t].steps) && outs[t].steps[i] > 3*steps[t][i]+5000 {
				c.Fail("stall-costs-others", "caller %d, operation %d (%s) took %d steps with caller 0 (%s) stuck, %d alone", t, i, opText(&all[t][i]), outs[t].steps[i], opText(&x.Stuck[0]), steps[t][i])
			}
		}
	}
	if stalled > 9 {
		c.Probe("ten-stalled")
	}
	if stalled > 0 && x.First {
		c.Probe("others-ran-during-stall")
	}
}

func init() {
	stuckKinds := []string{"parse", "pfile", "render", "text", "walk", "resolve", "pkg", "scan"}
	register(&Prop{
		ID: "C18", Level: "exploration",
		Rule:  "one or two callers stall without limit in a drawn callback (reader, writer, resolver, renderer, visitor, error handler) while 1 to 3 others work on the same configuration under a seeded schedule; they are released only when nothing else can run; non-trivial if a switch or stall happened",
		New:   func() any { return &c18Case{} },
		Run:   runC18,
		Quick: 80000, Thorough: 2000000,
		Real: append([]string{"scanner"}, realTree...), Stub: []string{"scheduler (simulated)", "sync primitives and channels (simulated)", "io.Reader and io.Writer arguments (scripted)", "caller-supplied resolvers, renderers, visitors (scripted)"},
		Faults: []string{"callback-stall"},
		Probes: []string{"stalled", "others-ran-during-stall", "ten-stalled"},
		Valid: func(cs any) bool {
			x := cs.(*c18Case)
			if !validOps(x.Stuck) || len(x.Stuck) == 0 {
				return false
			}
			for i := range x.Stuck {
				o := x.Stuck[i]
				if o.At < 1 || o.F != "stall" {
					return false
				}
				o.F, o.At = "", 0
				if o.faulty() {
					return false
				}
			}
			for _, t := range x.Tasks {
				if !validOps(t) {
					return false
				}
				for i := range t {
					if t[i].faulty() {
						return false
					}
				}
			}
			return validDocs(x.Docs) && x.Conf.valid() && len(x.Tasks)+len(x.Stuck) <= maxTasks && x.Herd >= 0 && x.Herd <= 100 && x.Sched.Mean >= 0
		},
		Gen: func(r *R, tier Tier) any {
			x := &c18Case{Docs: genDocs(r, r.In(1, 3)), Conf: genConf(r), First: r.P(2, 3), Share: r.P(1, 3), Sched: genSched(r)}
			docs := renderDocs(x.Docs)
			same := ""
			if r.P(1, 2) {
				same = stuckKinds[r.N(len(stuckKinds))]
			}
			kinds := func(ks []string) []string {
				if same != "" {
					return []string{same}
				}
				return ks
			}
			if same == "resolve" && r.P(2, 3) || r.P(1, 3) {
				x.Conf.Res = append([]int{-1}, x.Conf.Res...)
			}
			if r.P(1, 3) {
				x.Conf.Over = append(x.Conf.Over, int(pick(r, ast.KindFile, ast.KindBibDecl, ast.KindText)))
			}
			for n := pick(r, 1, 1, 1, 2); n > 0; n-- {
				o := genOp(r, docs, kinds(stuckKinds), "")
				o.At, o.F = 1+r.N(200), "stall"
				if r.P(1, 2) {
					o.At = r.In(1, 4)
				}
				x.Stuck = append(x.Stuck, o)
			}
			for n := r.In(1, 3); n > 0; n-- {
				var ops []OpSpec
				for m := r.In(1, 2); m > 0; m-- {
					ops = append(ops, genOp(r, docs, kinds(opKinds), ""))
				}
				x.Tasks = append(x.Tasks, ops)
			}
			// Limits on concurrency show up only with enough stuck callers.
			switch r.N(40) {
			case 0:
				x.Herd = r.In(10, 100)
			case 1, 2, 3, 4, 5:
				x.Herd = r.In(2, 9)
			}
			return x
		},
	})
}
