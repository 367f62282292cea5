package main

import (
	"errors"
	"fmt"
	goscan "go/scanner"
	gotok "go/token"
	"io"
	"os"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strings"
	"time"

	"bibsim/simrt"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

// parsed is everything one whole-file parse produced.
type parsed struct {
	File *ast.File
	Err  error
	Fset *gotok.FileSet
	Base int // bytes of other files before this one in the file set
}

const padFile = "\x00other"

// parseFileAt parses into a file set that already holds base bytes.
func parseFileAt(base int, name string, src any, mode parser.Mode) *parsed {
	p := &parsed{Fset: gotok.NewFileSet(), Base: base}
	if base > 0 {
		p.Fset.AddFile(padFile, -1, base-1)
	}
	p.File, p.Err = parser.ParseFile(p.Fset, name, src, mode)
	return p
}

func parseFile(name string, src any, mode parser.Mode) *parsed {
	p := &parsed{Fset: gotok.NewFileSet()}
	p.File, p.Err = parser.ParseFile(p.Fset, name, src, mode)
	return p
}

func errList(err error) goscan.ErrorList {
	var l goscan.ErrorList
	if errors.As(err, &l) {
		return l
	}
	return nil
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	var sb strings.Builder
	if l := errList(err); l != nil {
		for _, e := range l {
			fmt.Fprintf(&sb, "[%d %s:%d:%d %s]", e.Pos.Offset, e.Pos.Filename, e.Pos.Line, e.Pos.Column, e.Msg)
		}
		return sb.String()
	}
	return err.Error()
}

func lineTable(fset *gotok.FileSet) string {
	var sb strings.Builder
	fset.Iterate(func(f *gotok.File) bool {
		if f.Name() == padFile {
			return true
		}
		fmt.Fprintf(&sb, "%s %d %v;", f.Name(), f.Size(), f.Lines())
		return true
	})
	return sb.String()
}

// String is the full observable outcome: tree with positions and comments,
// diagnostics, line table.
func (p *parsed) String() string {
	s := "<nil tree>"
	if p.File != nil {
		s, _ = Dump(p.File, 2, p.Base)
	}
	return s + "\nerr: " + errText(p.Err) + "\nlines: " + lineTable(p.Fset)
}

// ---- operations for histories and concurrent callers -----------------------

// OpSpec is one operation a caller performs.
type OpSpec struct {
	K    string  `json:"k"` // one of opKinds
	D    int     `json:"d"` // document
	Mode int     `json:"mode,omitempty"`
	Rd   RSpec   `json:"rd"`
	W    WSpec   `json:"w"`
	At   int     `json:"at,omitempty"` // callback that misbehaves (1-based), 0 none
	F    string  `json:"f,omitempty"`  // stop err panic skip kill stall
	Dam  *Damage `json:"dam,omitempty"`
	Val  int     `json:"val,omitempty"` // which value or node of the document
	Lo   int     `json:"lo,omitempty"`  // only the bytes from here
	Hi   int     `json:"hi,omitempty"`  // up to here, 0 all
	Rep  int     `json:"rep,omitempty"` // so many times before, in C12
	Dk   *DFault `json:"dk,omitempty"`  // what is wrong with the file; also missing, dir
}

var opKinds = []string{"parse", "pfile", "expr", "scan", "render", "text", "extract", "walk", "print", "resolve", "rauthor", "rtext", "rsimple", "pkg"}

// fileOps read files from the simulated disk.
var fileOps = []string{"file", "file", "files"}

// Conf describes one shared configuration.
type Conf struct {
	Mode int   `json:"mode"`           // parser mode, -1 the default
	Res  []int `json:"res,omitempty"`  // resolvers: built-in k, or a caller's (-1)
	Over []int `json:"over,omitempty"` // node kinds with a caller's renderer
}

func (x *Conf) valid() bool {
	for _, k := range x.Res {
		if k < -1 || k >= nRes {
			return false
		}
	}
	for _, k := range x.Over {
		if k < 0 || k >= int(nKinds) {
			return false
		}
	}
	return x.Mode == -1 || validMode(x.Mode)
}

const nKinds = int(ast.KindPackage) + 1

// slot is the private state of the operation a task is performing.
type slot struct {
	c      *Ctx
	op     *OpSpec
	n      int   // callbacks so far
	thrown any   // what a callback panicked with
	failed error // error a callback returned
	killed bool
	stale  bool // an error handler of an earlier operation was called
	// stall, if set, is called by the callback that stalls.
	stall func()
}

// env is what the callers share.
type env struct {
	docs  []*Rendered
	bib   *bibtex.Biber
	text  *render.TextRenderer
	auth  bibtex.AuthorResolver
	rpt   *bibtex.RenderParsedTextResolver
	slots []slot // by task
	// shared has a tree for each document that all callers read, if they do.
	shared []*ast.File
	pure   bool // no resolver changes trees
	// reads makes calls of readers count as callbacks: how often a source is
	// read is not part of an operation's result.
	reads bool
	// disk, if set, holds the documents; rewrite says that the callers change
	// its files.
	disk    *disk
	rewrite bool
}

const (
	maxTasks = 8   // callers in a case
	maxSlots = 128 // with a herd of stalled ones
)

func newEnv(conf *Conf, docs []*Rendered) *env {
	e := &env{docs: docs, slots: make([]slot, maxSlots)}
	var opts []bibtex.Option
	if conf.Mode >= 0 {
		opts = append(opts, bibtex.WithParserMode(parser.Mode(conf.Mode)))
	}
	for _, k := range conf.Over {
		opts = append(opts, bibtex.WithRenderer(ast.NodeKind(k), func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
			st, err := e.cb("renderer")
			if err != nil || st != ast.WalkContinue {
				return st, err
			}
			return overRenderer(w, n, entering)
		}))
	}
	for _, k := range conf.Res {
		if k >= 0 {
			opts = append(opts, bibtex.WithResolvers(builtin(k)))
			continue
		}
		opts = append(opts, bibtex.WithResolvers(bibtex.ResolverFunc(func(n ast.Node) error {
			_, err := e.cb("resolver")
			return err
		})))
	}
	e.pure = !slices.ContainsFunc(conf.Res, func(k int) bool { return k >= 0 })
	e.bib = bibtex.New(opts...)
	e.text = render.NewTextRenderer()
	e.auth = bibtex.NewAuthorResolver("author", "editor")
	e.rpt = bibtex.NewRenderParsedTextResolver()
	return e
}

type cbPanic struct{ s string }
type cbErr struct{ s string }

func (e *cbErr) Error() string { return e.s }

// mkPanic makes a panic value.
func mkPanic(k int, what string) any {
	switch k % 8 {
	case 1:
		return indexPanic
	case 2:
		return derefPanic
	case 3:
		return &cbErr{what + " panicked"}
	case 4:
		return what
	case 5:
		return io.EOF
	}
	return &cbPanic{what}
}

// Panics of the runtime.
var indexPanic, derefPanic = caught(func() { _ = opKinds[len(opKinds)] }), caught(func() { _ = (*ast.File)(nil).Name })

func caught(fn func()) (v any) {
	defer func() { v = recover() }()
	fn()
	return nil
}

// cb is entered by every caller-supplied callback.
func (e *env) cb(what string) (ast.WalkStatus, error) {
	simrt.Point()
	sl := &e.slots[simrt.Cur().Root().ID]
	sl.n++
	op := sl.op
	if op.At == 0 || sl.n != op.At {
		return ast.WalkContinue, nil
	}
	switch op.F {
	case "stop":
		sl.c.Fault("callback-stop")
		return ast.WalkStop, nil
	case "skip":
		sl.c.Fault("callback-skip")
		return ast.WalkSkipChildren, nil
	case "err":
		sl.c.Fault("callback-error")
		sl.failed = &cbErr{"callback failed"}
		return ast.WalkContinue, sl.failed
	case "panic":
		sl.c.Fault("callback-panic")
		sl.thrown = mkPanic(op.Val, what)
		panic(sl.thrown)
	case "kill": // the caller's goroutine ends here
		sl.c.Fault("callback-kill")
		sl.killed = true
		runtime.Goexit()
	case "stall":
		if sl.stall != nil {
			sl.c.Fault("callback-stall")
			sl.stall()
		}
	}
	return ast.WalkContinue, nil
}

// source returns the bytes an operation works on.
func (e *env) source(sl *slot, op *OpSpec) []byte {
	src := e.docs[op.D%len(e.docs)].Src
	if op.Dam != nil {
		src = op.Dam.apply(src)
		sl.c.Fault("damage-" + op.Dam.K)
	} else {
		src = append([]byte(nil), src...)
	}
	if op.Hi > 0 {
		src = src[:min(op.Hi, len(src))]
	}
	return src[min(op.Lo, len(src)):]
}

// value returns the raw text of a string value of a document.
func (e *env) value(op *OpSpec) string {
	d := e.docs[op.D%len(e.docs)]
	var ss []string
	for _, it := range d.Decls {
		for _, s := range it.Strs {
			ss = append(ss, string(d.Src[s.S:s.E]))
		}
	}
	if len(ss) == 0 {
		return "{a b}"
	}
	return ss[op.Val%len(ss)]
}

// parsedTexts lists the ParsedTexts in a tree, in order, up to a limit.
func parsedTexts(n ast.Node) []*ast.ParsedText {
	var out []*ast.ParsedText
	var rec func(n ast.Node)
	rec = func(n ast.Node) {
		if isNil(n) {
			return
		}
		if t, ok := n.(*ast.ParsedText); ok {
			out = append(out, t)
		}
		if len(out) >= 60 { // those inside each other cost the square of their depth
			return
		}
		for _, k := range children(n) {
			rec(k)
		}
	}
	rec(n)
	return out
}

// children is the model of which nodes a node has, in source order.
func children(n ast.Node) []ast.Node {
	var out []ast.Node
	add := func(x ast.Node) {
		if !isNil(x) {
			out = append(out, x)
		}
	}
	switch t := n.(type) {
	case ast.Authors:
		for _, a := range t {
			add(a)
		}
	case *ast.Author:
		for _, x := range []ast.Expr{t.First, t.Prefix, t.Last, t.Suffix} {
			if x != nil {
				add(x)
			}
		}
	case *ast.File:
		for _, x := range t.Entries {
			add(x)
		}
	case *ast.BibDecl:
		for _, x := range t.Tags {
			add(x)
		}
	case *ast.PreambleDecl:
		add(t.Text)
	case *ast.AbbrevDecl:
		add(t.Tag)
	case *ast.TagStmt:
		add(t.Value)
	case *ast.ParsedText:
		for _, x := range t.Values {
			add(x)
		}
	case *ast.ConcatExpr:
		add(t.X)
		add(t.Y)
	case *ast.TextMacro:
		for _, x := range t.Values {
			add(x)
		}
	}
	return out
}

// exprs lists every expression value of tags and preambles.
func exprs(n ast.Node) []ast.Expr {
	var out []ast.Expr
	var rec func(n ast.Node)
	rec = func(n ast.Node) {
		switch t := n.(type) {
		case *ast.TagStmt:
			if !isNil(t.Value) {
				out = append(out, t.Value)
			}
		case *ast.PreambleDecl:
			if !isNil(t.Text) {
				out = append(out, t.Text)
			}
		case *ast.ParsedText, ast.Authors, *ast.Author, *ast.TextMacro, *ast.ConcatExpr:
			return
		}
		for _, k := range children(n) {
			rec(k)
		}
	}
	rec(n)
	return out
}

func authorsText(a ast.Authors, err error) string {
	if err != nil {
		return "err: " + err.Error()
	}
	s, _ := Dump(a, 0, 0)
	return s
}

func viewEntries(es []bibtex.Entry) string {
	vs := make([]entryView, len(es))
	for i, e := range es {
		vs[i] = entryView{e.Type, e.Key, e.Tags}
	}
	return dumpEntries(vs)
}

// run performs one operation and returns everything the caller can observe.
// The slot's task must be the current one. Panics of the caller's own callbacks
// are observed by the caller too.
func (e *env) run(sl *slot, sc *scanner.Scanner) (out string) {
	return e.protect(sl, func() string { return e.perform(sl, sc) })
}

func (e *env) protect(sl *slot, fn func() string) (out string) {
	op := sl.op
	defer func() {
		r := recover()
		switch r.(type) {
		case nil:
			if sl.thrown != nil {
				sl.c.Fail("panic-swallowed", "a caller's callback panicked (%T %v) in %s, but the operation ended normally with %s", sl.thrown, sl.thrown, op.K, clip(out, 500))
			}
		case *readerPanic:
			out = "reader's panic"
		case *writerPanic:
			out = "writer's panic"
		default:
			if sl.thrown == nil {
				panic(r)
			}
			if r != sl.thrown {
				sl.c.Fail("panic-changed", "a caller's callback panicked (%T %v) in %s; the panic that reached the caller is %T %v", sl.thrown, sl.thrown, op.K, r, r)
			}
			out = fmt.Sprintf("caller's panic: %T", r)
		}
	}()
	return noAddr(fn())
}

// noAddr replaces addresses, which error texts may hold.
func noAddr(s string) string {
	i := strings.Index(s, "0x")
	if i < 0 {
		return s
	}
	return addr.ReplaceAllString(s, "0xADDR")
}

var addr = regexp.MustCompile("0x[0-9a-f]{6,}")

func (e *env) reader(sl *slot, src []byte) *simReader {
	rd := newReader(sl.c, src, sl.op.Rd)
	if e.reads {
		rd.onCall = func() { e.cb("reader") }
	}
	return rd
}

func (e *env) writer(sl *slot) *simWriter {
	w := &simWriter{c: sl.c, spec: sl.op.W}
	w.onCall = func() { e.cb("writer") }
	return w
}

func (e *env) perform(sl *slot, sc *scanner.Scanner) (out string) {
	op := sl.op
	mode := parser.Mode(op.Mode)
	switch op.K {
	case "parse":
		f, err := e.bib.Parse(e.reader(sl, e.source(sl, op)))
		out := dumpOr(f) + "\nerr: " + errText(err)
		sl.c.spoilAll(f, err, nil)
		return out
	case "pfile":
		p := parseFile("f.bib", e.reader(sl, e.source(sl, op)), mode)
		out := p.String()
		sl.c.spoilAll(p.File, p.Err, nil)
		return out
	case "expr":
		v := e.value(op)
		if op.Dam != nil {
			v = string(op.Dam.apply([]byte(v)))
			sl.c.Fault("damage-" + op.Dam.K)
		}
		x, err := parser.ParseExpr(v)
		if err != nil {
			return "err: " + errText(err)
		}
		s, _ := Dump(x, 2, 0)
		sl.c.spoilAll(x, nil, nil)
		return s
	case "scan":
		return e.scan(sl, sc)
	case "file":
		name, done := e.place(sl)
		defer done()
		p := parseFile(name, nil, mode)
		out := p.String()
		sl.c.spoilAll(p.File, p.Err, nil)
		return out
	case "files":
		name, done := e.place(sl)
		defer done()
		pkg, err := parser.ParsePackage([]string{name, "d0.bib"}, mode)
		var sb strings.Builder
		for _, k := range sortedFiles(pkg) {
			s := dumpOr(pkg.Files[k])
			if m := firstPos(s); m > 0 { // the order in a shared file set is not fixed
				s, _ = Dump(pkg.Files[k], 2, m)
			}
			fmt.Fprintf(&sb, "%s: %s\n", k, s)
		}
		out := sb.String() + "err: " + errText(err)
		sl.c.spoilAll(pkg, err, nil)
		return out
	case "pkg":
		pkg := &ast.Package{Files: map[string]*ast.File{}}
		for i := 0; i < 2; i++ {
			f, err := parser.ParseFile(gotok.NewFileSet(), "f.bib", string(e.docs[(op.D+i)%len(e.docs)].Src), parser.ParseStrings|parser.AllErrors)
			if err != nil {
				return "no tree: " + errText(err)
			}
			pkg.Files[fmt.Sprint(i)] = f
		}
		es, err := e.bib.Resolve(pkg)
		if err != nil { // which file fails first depends on their order
			return "failed"
		}
		var vs []string
		for _, x := range es {
			vs = append(vs, viewEntries([]bibtex.Entry{x}))
		}
		sl.c.spoilAll(pkg, nil, es)
		sort.Strings(vs) // the order of files is not fixed
		return strings.Join(vs, "\n")
	}
	if t := e.sharedTree(op); t != nil {
		return e.onTree(sl, t, t)
	}
	// Operations on a tree: the caller parses its own first.
	f, err := parser.ParseFile(gotok.NewFileSet(), "f.bib", string(e.source(sl, op)), parser.ParseStrings|parser.AllErrors)
	if f == nil {
		return "no tree: " + errText(err)
	}
	out = e.onTree(sl, f, f)
	sl.c.spoilAll(f, err, nil)
	return out
}

// scan tokenises the source with the given scanner, abandoning it after At
// tokens if asked to.
func (e *env) scan(sl *slot, sc *scanner.Scanner) string {
	src := e.source(sl, sl.op)
	fset := gotok.NewFileSet()
	file := fset.AddFile("s", -1, len(src))
	var sb strings.Builder
	live := true
	defer func() { live = false }()
	handler := func(pos gotok.Position, msg string) {
		if !live {
			sl.stale = true
			return
		}
		e.cb("error handler")
		fmt.Fprintf(&sb, "E%d:%s ", pos.Offset, msg)
	}
	if sl.op.Val%4 == 3 { // no handler
		handler = nil
	}
	sc.Init(file, src, handler, scanner.Mode(sl.op.Mode&3))
	for i := 0; i < 3*len(src)+50; i++ {
		if sl.op.F == "stop" && i == sl.op.At {
			sl.c.Fault("scan-abandoned")
			return sb.String()
		}
		pos, tok, lit := sc.Scan()
		fmt.Fprintf(&sb, "%d%s%q ", int(pos)-1, tok, lit)
		if tok == token.EOF {
			fmt.Fprintf(&sb, "errs=%d stale=%v", sc.ErrorCount, sl.stale)
			return sb.String()
		}
	}
	sb.WriteString("NO-EOF")
	return sb.String()
}

// scanAll tokenises src with a new scanner.
func scanAll(src []byte, mode scanner.Mode) string {
	fset := gotok.NewFileSet()
	file := fset.AddFile("s", -1, len(src))
	var sb strings.Builder
	sc := &scanner.Scanner{}
	sc.Init(file, src, func(pos gotok.Position, msg string) {
		fmt.Fprintf(&sb, "E%d:%s ", pos.Offset, msg)
	}, mode)
	for i := 0; i < 3*len(src)+50; i++ {
		pos, tok, lit := sc.Scan()
		fmt.Fprintf(&sb, "%d%s%q ", int(pos)-1, tok, lit)
		if tok == token.EOF {
			fmt.Fprintf(&sb, "errs=%d", sc.ErrorCount)
			return sb.String()
		}
	}
	sb.WriteString("NO-EOF")
	return sb.String()
}

func dumpOr(f *ast.File) string {
	if f == nil {
		return "<nil tree>"
	}
	s, _ := Dump(f, 2, 0)
	return s
}

// useDisk stores the documents as files in the working directory.
func (e *env) useDisk(c *Ctx, rewrite bool) {
	e.disk, e.rewrite = c.Disk(), rewrite
	e.disk.Enter()
	for i, d := range e.docs {
		e.disk.Put(fmt.Sprintf("d%d.bib", i), d.Src)
	}
}

// place puts the file on the disk that an operation reads and returns its name
// and a function that ends its faults.
func (e *env) place(sl *slot) (string, func()) {
	op := sl.op
	name := fmt.Sprintf("d%d.bib", op.D%len(e.docs))
	if !e.rewrite {
		return name, func() {}
	}
	name = "w" + name
	if op.Val&1 == 0 {
		name = "x.bib"
	}
	p := e.disk.Path(name)
	if err := os.RemoveAll(p); err != nil {
		fatal("%v", err)
	}
	k := ""
	if op.Dk != nil {
		k = op.Dk.K
	}
	switch k {
	case "missing":
		sl.c.Fault("file-missing")
		return name, func() {}
	case "dir":
		sl.c.Fault("path-is-directory")
		if err := os.Mkdir(p, 0o700); err != nil {
			fatal("%v", err)
		}
		return name, func() {}
	}
	src := e.source(sl, op)
	if op.Val&2 == 0 { // as long as the others
		n := 0
		for _, d := range e.docs {
			n = max(n, len(d.Src))
		}
		for len(src) < n {
			src = append(src, '\n')
		}
	}
	e.disk.Put(name, src)
	if op.Val&4 == 0 { // as old as the others
		t := time.Unix(1e9, 0)
		if err := os.Chtimes(p, t, t); err != nil {
			fatal("%v", err)
		}
	}
	if k == "" {
		return name, func() {}
	}
	e.disk.Fail(p, *op.Dk)
	return name, func() { delete(e.disk.faults, p) }
}

// share gives the callers one tree for each document.
func (e *env) share() {
	for _, d := range e.docs {
		f, _ := parser.ParseFile(gotok.NewFileSet(), "f.bib", string(d.Src), parser.ParseStrings|parser.AllErrors)
		e.shared = append(e.shared, f)
	}
}

// sharedTree returns the tree that an operation works on if it is not its own.
func (e *env) sharedTree(op *OpSpec) *ast.File {
	if e.shared == nil || op.Dam != nil || op.Lo > 0 || op.Hi > 0 {
		return nil
	}
	switch op.K {
	case "resolve":
		if !e.pure {
			return nil
		}
		fallthrough
	case "render", "text", "extract", "walk", "print":
		return e.shared[op.D%len(e.docs)]
	}
	return nil
}

// onTree performs an operation on a given tree.
func (e *env) onTree(sl *slot, f *ast.File, root ast.Node) (out string) {
	op := sl.op
	switch op.K {
	case "render":
		w := e.writer(sl)
		node := root
		if op.Val > 0 && len(f.Entries) > 0 {
			node = f.Entries[(op.Val-1)%len(f.Entries)]
		}
		err := e.bib.Render(asWriter(w), node)
		return fmt.Sprintf("%q err=%v", w.Out, err)
	case "text":
		var sb strings.Builder
		for _, x := range exprs(f) {
			w := e.writer(sl)
			err := e.text.Render(asWriter(w), x)
			fmt.Fprintf(&sb, "%q err=%v\n", w.Out, err)
		}
		return sb.String()
	case "extract":
		var sb strings.Builder
		for _, t := range parsedTexts(f) {
			sb.WriteString(authorsText(bibtex.ExtractAuthors(t)) + "\n")
		}
		return sb.String()
	case "walk":
		var sb strings.Builder
		err := ast.Walk(root, func(x ast.Node, entering bool) (ast.WalkStatus, error) {
			st, err := e.cb("visitor")
			fmt.Fprintf(&sb, "%T %v;", x, entering)
			return st, err
		})
		return fmt.Sprintf("%s err=%v", sb.String(), err)
	case "print":
		var sb strings.Builder
		for _, x := range exprs(f) {
			sb.WriteString(asts.ExprString(x) + "\n")
			fmt.Fprintf(&sb, "%d-%d ", x.Pos(), x.End())
		}
		for _, x := range allNodes(root) {
			switch x.(type) {
			case ast.Authors, *ast.Author, *ast.Package: // have no positions
				fmt.Fprintf(&sb, "%s ", x.Kind())
			default:
				fmt.Fprintf(&sb, "%s %d-%d ", x.Kind(), x.Pos(), x.End())
			}
		}
		return sb.String()
	case "resolve":
		es, err := e.bib.Resolve(f)
		out := viewEntries(es) + dumpOr(f) + fmt.Sprintf("err=%v", err)
		sl.c.spoilAll(nil, nil, es)
		return out
	case "entries": // in C14, where no resolver is configured
		es, err := e.bib.Resolve(root)
		out := viewEntries(es) + fmt.Sprintf("err=%v", err)
		sl.c.spoilAll(nil, nil, es)
		return out
	case "rauthor":
		err := e.auth.Resolve(f)
		return dumpOr(f) + fmt.Sprintf("err=%v", err)
	case "rtext":
		err := e.rpt.Resolve(f)
		return dumpOr(f) + fmt.Sprintf("err=%v", err)
	case "rsimple":
		err := bibtex.SimplifyEscapedTextResolver(f)
		return dumpOr(f) + fmt.Sprintf("err=%v", err)
	}
	panic("unknown op " + op.K)
}

// child makes a context of its own for a task, so that tasks share nothing in
// the harness.
func (c *Ctx) child() *Ctx {
	return &Ctx{St: newStats(), Tier: c.Tier, Verbose: c.Verbose, mapSeed: c.mapSeed}
}

// join merges a child's counts.
func (c *Ctx) join(k *Ctx) {
	for n, v := range k.St.Faults {
		c.St.Faults[n] += v
	}
	for n, v := range k.St.Probes {
		c.St.Probes[n] += v
	}
	c.St.Evals += k.St.Evals
	c.fired += k.fired
	c.evh = mix(c.evh ^ k.evh)
	c.log = append(c.log, k.log...)
}
