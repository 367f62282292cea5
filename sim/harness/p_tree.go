package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"bibsim/simrt"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
)

var realTree = []string{"bibtex (Biber, authors, resolvers)", "ast (Walk)", "render", "parser", "scanner", "asts", "token"}

// TreeCase says how a tree is obtained: a document or a soup of tokens,
// damaged, parsed in a mode, then transformed by built-in resolvers.
type TreeCase struct {
	D    DocCase `json:"d"`
	Raw  string  `json:"raw,omitempty"`
	Rep  int     `json:"rep,omitempty"`
	Tail string  `json:"tail,omitempty"`
	Mode int     `json:"mode"`
	Res  []int   `json:"res,omitempty"`
	// Hand, if there is any, describes a tree built by hand instead.
	Hand []HNode `json:"hand,omitempty"`
	Docs int     `json:"docs,omitempty"` // what has comments: 1 declarations, 2 tags, 4 with more fields set
	Wide int     `json:"wide,omitempty"` // so many more of each declaration
}

func (t *TreeCase) valid() bool {
	for _, k := range t.Res {
		if k < 0 || k >= nRes {
			return false
		}
	}
	if !validHand(t.Hand) || t.Docs < 0 || t.Wide < 0 || t.Wide > 1000 {
		return false
	}
	return t.D.valid() && validMode(t.Mode) && t.Rep >= 0 && t.Rep*len(t.Raw) < 1<<18
}

// healthy: an undamaged document, so the document model knows the tree.
func (t *TreeCase) healthy() bool {
	return len(t.Hand) == 0 && t.Raw == "" && t.Tail == "" && len(t.D.Dam) == 0
}

func (t *TreeCase) bytes() []byte {
	if len(t.Hand) > 0 { // only its length matters
		return make([]byte, 20*min(len(allNodes(buildHand(t.Hand, t.Docs, t.Wide))), 20000))
	}
	if t.Raw != "" || t.Tail != "" {
		src := []byte(strings.Repeat(t.Raw, max(1, t.Rep)) + t.Tail)
		for _, d := range t.D.Dam {
			src = d.apply(src)
		}
		return src
	}
	_, _, src := t.D.build()
	return src
}

// tree parses; nil if parsing crashed (C03 judges that).
func (t *TreeCase) tree(c *Ctx, src []byte) *ast.File {
	if len(t.Hand) > 0 {
		c.Probe("hand-built")
		return buildHand(t.Hand, t.Docs, t.Wide)
	}
	var p *parsed
	mode := modeOf(t.Mode, len(src))
	o := c.Outcome("parse", budget(len(src)), func() string { p = parseFile("t.bib", string(src), mode); return "" })
	if crashed(o) || p.File == nil {
		return nil
	}
	if p.Err != nil {
		c.Probe("partial-tree")
	} else {
		c.Probe("complete-tree")
	}
	return p.File
}

const nRes = 6

// builtin makes built-in resolver k.
func builtin(k int) bibtex.Resolver {
	switch k {
	case 0:
		return bibtex.NewAuthorResolver("author")
	case 1:
		return bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver)
	case 2:
		return bibtex.NewRenderParsedTextResolver()
	case 3:
		return bibtex.NewAuthorResolver("author", "editor")
	case 4:
		return bibtex.NewAuthorResolver("title", "note", "author")
	}
	return bibtex.NewAuthorResolver()
}

func genRes(r *R, max int) []int {
	var out []int
	for i := r.N(max + 1); i > 0; i-- {
		out = append(out, pick(r, 0, 1, 2, 0, 1, 2, 3, 4, 5))
	}
	return out
}

func genTreeCase(r *R, dam bool) TreeCase {
	t := TreeCase{Mode: genMode(r)}
	if r.P(2, 3) {
		t.Mode |= int(parser.ParseStrings)
	}
	switch {
	case dam && r.P(1, 5):
		var sb strings.Builder
		sb.WriteString(pick(r, "", "@book{k, author={", "@book{k, author=\"", "@string{a=", "@preamble{\"", "@misc{k, url={", "@article(k, title={"))
		for n := r.In(1, 12); n > 0; n-- {
			sb.WriteString(soup[r.N(len(soup))])
		}
		if r.P(1, 2) {
			t.Tail = pick(r, "}", "\"", "}}", "\"}", "},y=1}\n@bb{c}", "}} @book{x, author={A and B}}")
		}
		t.Raw = sb.String()
		if r.P(1, 20) {
			t.Rep = r.In(1, 2000/len(t.Raw)+1)
		}
	default:
		n := 0
		if dam && r.P(2, 3) {
			n = r.In(1, 3)
		}
		o := docOpts{maxItems: pick(r, 1, 3, 6), authors: r.P(2, 3), needBib: r.P(1, 2)}
		if r.P(1, 400) {
			o.big = r.In(3000, 20000)
		}
		t.D = genDocCase(r, o, n)
		if dam {
			for i := range t.D.Dam {
				d := &t.D.Dam[i]
				if d.K == "ins" && r.P(1, 2) {
					d.S = pick(r, " and ", "\\emph{x}", "\\'q", ",", "\\\"{", "{", "#", "\\~z", " and and ", "~", "$", "\\", "-", "\\o ", "\\c x", "\\url{a b}")
				}
			}
		}
	}
	return t
}

// ---- C08 ------------------------------------------------------------------

type c08Case struct {
	T     TreeCase `json:"t"`
	Node  string   `json:"node"` // file package decl
	Res   []int    `json:"res"`
	Calls int      `json:"calls"`
}

// treeBudget is the number of steps an operation on a tree of n nodes and
// bytes may take: eight times the worst cost measured.
func treeBudget(n int) int64 { return 20_000 + 400*int64(n) }

func bibDecls(n ast.Node) []*ast.BibDecl {
	var out []*ast.BibDecl
	switch t := n.(type) {
	case *ast.Package:
		for _, k := range sortedFiles(t) {
			out = append(out, bibDecls(t.Files[k])...)
		}
	case *ast.File:
		for _, d := range t.Entries {
			if b, ok := d.(*ast.BibDecl); ok {
				out = append(out, b)
			}
		}
	case *ast.BibDecl:
		out = append(out, t)
	}
	return out
}

func sortedFiles(p *ast.Package) []string {
	var ks []string
	for k := range p.Files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func keyOf(b *ast.BibDecl) string {
	if b.Key == nil {
		return ""
	}
	return b.Key.Name
}

// checkEntries compares entries with the tree as it is now.
func checkEntries(es []bibtex.Entry, ds []*ast.BibDecl) string {
	if len(es) != len(ds) {
		return fmt.Sprintf("%d entries for %d declarations", len(es), len(ds))
	}
	for i, e := range es {
		if s := checkEntry(e, ds[i]); s != "" {
			return fmt.Sprintf("entry %d: %s", i, s)
		}
	}
	return ""
}

func checkEntry(e bibtex.Entry, d *ast.BibDecl) string {
	if e.Key != keyOf(d) || e.Type != d.Type {
		return fmt.Sprintf("is %q %q, the declaration is %q %q", e.Type, e.Key, d.Type, keyOf(d))
	}
	names := map[string]bool{}
	for _, t := range d.Tags {
		names[t.Name] = true
		v, ok := e.Tags[t.Name]
		if !ok {
			return fmt.Sprintf("%s has no tag %q", e.Key, t.Name)
		}
		same := false
		for _, u := range d.Tags {
			same = same || u.Name == t.Name && sameNode(u.Value, v)
		}
		if !same {
			a, _ := Dump(v, 0, 0)
			b, _ := Dump(t.Value, 0, 0)
			return fmt.Sprintf("%s tag %q is %s, the tree has %s", e.Key, t.Name, a, b)
		}
	}
	if len(names) != len(e.Tags) {
		return fmt.Sprintf("%s has %d tags, the declaration has %d", e.Key, len(e.Tags), len(names))
	}
	return ""
}

// sameNode: same node, or an equal copy of it.
func sameNode(a, b ast.Node) bool {
	if isNil(a) || isNil(b) {
		return isNil(a) && isNil(b)
	}
	x, _ := Dump(a, 2, 0)
	y, _ := Dump(b, 2, 0)
	return x == y
}

func runC08(c *Ctx, cs any) {
	x := cs.(*c08Case)
	src := x.T.bytes()
	c.countDamage(x.T.D.Dam)
	if x.T.Raw != "" || x.T.Tail != "" {
		c.Fault("token-soup")
	}
	f := x.T.tree(c, src)
	if f == nil {
		return
	}
	desc := func() string {
		return fmt.Sprintf("mode %d, resolvers %v:\n%q", x.T.Mode, x.Res, clip(string(src), 1200))
	}
	var opts []bibtex.Option
	for _, k := range x.Res {
		opts = append(opts, bibtex.WithResolvers(builtin(k)))
	}
	bib := bibtex.New(opts...)
	plain := bibtex.New()
	var node ast.Node = f
	switch x.Node {
	case "package":
		node = &ast.Package{Files: map[string]*ast.File{"t.bib": f}}
	case "decl":
		if ds := bibDecls(f); len(ds) > 0 {
			node = ds[len(ds)/2]
		}
	}
	n := len(src) + 100
	tr := render.NewTextRenderer()
	for round := 0; round < max(1, x.Calls); round++ {
		// Extract authors from everything that is text, and render it.
		ts := parsedTexts(f)
		if len(ts) > 40 {
			ts = ts[:40]
		}
		for _, t := range ts {
			var a ast.Authors
			var err error
			o := c.Must("ExtractAuthors", treeBudget(n), func() { a, err = bibtex.ExtractAuthors(t) })
			c.ratio("ExtractAuthors", o.Steps, n)
			c.Eval()
			if (err == nil) == (a == nil) {
				c.Fail("authors-and-error", "ExtractAuthors returned authors=%v and err=%v, %s", a != nil, err, desc())
			}
			for i := range a {
				if isNil(a[i]) {
					c.Fail("nil-author", "ExtractAuthors returned a nil author, %s", desc())
				}
			}
			if err != nil {
				c.Probe("extract-error")
			} else {
				c.Probe("extract-ok")
			}
		}
		xs := exprs(f)
		if len(xs) > 40 {
			xs = xs[:40]
		}
		for _, e := range xs {
			w := &strings.Builder{}
			o := c.Must("TextRenderer.Render", treeBudget(n), func() { _ = tr.Render(w, e) })
			c.ratio("TextRenderer", o.Steps, n)
			c.Must("Biber.Render", treeBudget(n), func() { _ = plain.Render(io.Discard, e) })
		}
		for _, b := range []*bibtex.Biber{plain, bib} {
			o := c.Must("Biber.Render", treeBudget(n), func() { _ = b.Render(io.Discard, node) })
			c.ratio("Biber.Render", o.Steps, n)
		}
		var es []bibtex.Entry
		var err error
		o := c.Must("Resolve", treeBudget(n)*int64(1+len(x.Res)), func() { es, err = bib.Resolve(node) })
		c.ratio("Resolve", o.Steps/int64(1+len(x.Res)), n)
		c.Eval()
		if err != nil {
			c.Probe("resolve-error")
			if es != nil {
				c.Fail("entries-and-error", "Resolve returned %d entries and the error %v, %s", len(es), err, desc())
			}
		} else {
			c.Probe("resolve-ok")
			if es == nil {
				c.Fail("no-entries", "Resolve returned neither entries nor an error, %s", desc())
			}
			if s := checkEntries(es, bibDecls(node)); s != "" {
				c.Fail("entries", "%s, %s", s, desc())
			}
			if x.T.healthy() && x.Node != "decl" {
				// What was written, independent of the tree.
				k := 0
				for i := range x.T.D.Doc.Items {
					it := &x.T.D.Doc.Items[i]
					if it.K != "e" {
						continue
					}
					key := ""
					if len(it.Keys) > 0 {
						key = it.Keys[0]
					}
					if k >= len(es) || es[k].Key != key || es[k].Type != strings.ToLower(it.Type) {
						c.Fail("entries-model", "entry %d should be @%s{%s}, got %s, %s", k, it.Type, key, clip(viewEntries(es), 1000), desc())
					}
					k++
				}
				if k != len(es) {
					c.Fail("entries-model", "%d entries for %d entries written, %s", len(es), k, desc())
				}
				c.Probe("model-compared")
			}
		}
		c.EventU(hstr(viewEntries(es)))
	}
}

func init() {
	register(&Prop{
		ID: "C08", Level: "exploration",
		Rule:  "the tree of a generated document (two thirds damaged or token soup) rendered, author-extracted and resolved with a drawn list of built-in resolvers, up to three times over; non-trivial if the stream was damaged",
		New:   func() any { return &c08Case{} },
		Run:   runC08,
		Quick: 700000, Thorough: 8000000,
		Real: realTree, Stub: []string{},
		Faults: []string{"damage-cut", "damage-flip", "damage-drop", "damage-dup", "damage-swap", "damage-set", "damage-ins", "damage-enc", "token-soup"},
		Probes: []string{"partial-tree", "complete-tree", "extract-error", "extract-ok", "resolve-error", "resolve-ok", "model-compared"},
		Valid: func(cs any) bool {
			x := cs.(*c08Case)
			for _, k := range x.Res {
				if k < 0 || k >= nRes {
					return false
				}
			}
			return x.T.valid() && x.Calls >= 0 && x.Calls < 10 && (x.Node == "file" || x.Node == "package" || x.Node == "decl")
		},
		Gen: func(r *R, tier Tier) any {
			return &c08Case{T: genTreeCase(r, true), Node: pick(r, "file", "file", "package", "decl"), Res: genRes(r, 4), Calls: pick(r, 1, 1, 1, 2, 3)}
		},
	})
}

// ---- C09 ------------------------------------------------------------------

type c09Case struct {
	T      TreeCase `json:"t"`
	Target int      `json:"target"` // 0 the file, -1 a package, n>0 declaration n-1; text: expression
	Text   bool     `json:"text,omitempty"`
	Over   []int    `json:"over,omitempty"` // node kinds with a caller's renderer
	Kind   string   `json:"kind,omitempty"`
	Long   int      `json:"long,omitempty"` // make a text longer by so many bytes
	Fails  []WSpec  `json:"fails"`          // At is overwritten: every write fails once with each
	Nest   int      `json:"nest,omitempty"` // at which write the writer renders the tree itself, from 1
}

// refRender is what the default renderers write for a node; ok is false if
// rendering ends with an error (then the text is what precedes it).
func refRender(n ast.Node, over map[ast.NodeKind]bool) (string, bool) {
	return refRenderWith(n, func(k ast.NodeKind) (string, bool) { return "", over[k] })
}

// refRenderMark: as refRender with replaced renderers that write a mark.
func refRenderMark(n ast.Node, mark func(ast.NodeKind) string) (string, bool) {
	return refRenderWith(n, func(k ast.NodeKind) (string, bool) { m := mark(k); return m, m != "" })
}

func refRenderWith(n ast.Node, over func(ast.NodeKind) (string, bool)) (string, bool) {
	var sb strings.Builder
	var rec func(n ast.Node) bool
	rec = func(n ast.Node) bool {
		if mark, ok := over(n.Kind()); ok {
			fmt.Fprintf(&sb, "<%s%s>", mark, n.Kind())
			for _, k := range children(n) {
				if !rec(k) {
					return false
				}
			}
			fmt.Fprintf(&sb, "</%s%s>", mark, n.Kind())
			return true
		}
		post := ""
		switch t := n.(type) {
		case *ast.BadExpr, *ast.BadStmt:
			return false
		case *ast.Ident:
			sb.WriteString(t.Name)
		case *ast.ParsedText:
			sb.WriteString(map[bool]string{true: `"`, false: "{"}[t.Delim == ast.QuoteDelimiter])
			post = map[bool]string{true: `"`, false: "}"}[t.Delim == ast.QuoteDelimiter]
		case *ast.Text:
			sb.WriteString(t.Value)
		case *ast.TextAccent:
			r, err := render.RenderAccent(t.Accent, t.Text.Value)
			if err != nil {
				return false
			}
			sb.WriteRune(r)
		case *ast.TextComma:
			sb.WriteString(",")
		case *ast.TextEscaped:
			sb.WriteString(`\` + t.Value)
		case *ast.TextHyphen:
			sb.WriteString("-")
		case *ast.TextMath:
			sb.WriteString("$" + t.Value + "$")
		case *ast.TextNBSP, *ast.TextSpace:
			sb.WriteString(" ")
		}
		for _, k := range children(n) {
			if !rec(k) {
				return false
			}
		}
		sb.WriteString(post)
		return true
	}
	ok := rec(n)
	return sb.String(), ok
}

// refText is what TextRenderer writes for an expression.
func refText(x ast.Expr) (string, bool) {
	var sb strings.Builder
	var rec func(n ast.Expr) bool
	rec = func(n ast.Expr) bool {
		switch t := n.(type) {
		case *ast.ParsedText:
			for _, v := range t.Values {
				if !rec(v) {
					return false
				}
			}
		case *ast.TextMacro:
			for _, v := range t.Values {
				if !rec(v) {
					return false
				}
			}
		case *ast.ConcatExpr:
			if !rec(t.X) {
				return false
			}
			sb.WriteString("#")
			return rec(t.Y)
		case *ast.TextComma:
			sb.WriteString(",")
		case *ast.Text:
			sb.WriteString(t.Value)
		case *ast.TextEscaped:
			sb.WriteString(t.Value)
		case *ast.TextHyphen:
			sb.WriteString("-")
		case *ast.TextMath:
			sb.WriteString("$" + t.Value + "$")
		case *ast.TextNBSP, *ast.TextSpace:
			sb.WriteString(" ")
		case *ast.TextAccent:
			r, err := render.RenderAccent(t.Accent, t.Text.Value)
			if err != nil {
				return false
			}
			sb.WriteRune(r)
		default:
			return false
		}
		return true
	}
	ok := rec(x)
	return sb.String(), ok
}

// overRenderer is a caller-supplied renderer: it marks entering and leaving.
func overRenderer(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
	s := "</" + n.Kind().String() + ">"
	if entering {
		s = "<" + n.Kind().String() + ">"
	}
	if _, err := io.WriteString(w, s); err != nil {
		return ast.WalkStop, err
	}
	return ast.WalkContinue, nil
}

func runC09(c *Ctx, cs any) {
	x := cs.(*c09Case)
	src := x.T.bytes()
	f := x.T.tree(c, src)
	if f == nil {
		return
	}
	for _, k := range x.T.Res {
		if o := c.Outcome("resolver", budget(len(src)), func() string { builtin(k).Resolve(f); return "" }); crashed(o) {
			return
		}
	}
	if x.Long > 0 {
		for _, n := range allNodes(f) {
			if t, ok := n.(*ast.Text); ok {
				t.Value += strings.Repeat("0123456789abcdef é-", x.Long/19+1)
				c.Probe("long-text")
				break
			}
		}
	}
	over := map[ast.NodeKind]bool{}
	var opts []bibtex.Option
	for _, k := range x.Over {
		over[ast.NodeKind(k)] = true
		opts = append(opts, bibtex.WithRenderer(ast.NodeKind(k), overRenderer))
	}
	bib := bibtex.New(opts...)
	tr := render.NewTextRenderer()
	var node ast.Node = f
	var want string
	var wantOK bool
	what := "Biber.Render"
	if x.Text {
		xs := exprs(f)
		if len(xs) == 0 {
			return
		}
		what = "TextRenderer.Render"
		e := xs[(x.Target&0xffff)%len(xs)]
		node = e
		want, wantOK = refText(e)
	} else {
		switch {
		case x.Target < 0:
			node = &ast.Package{Files: map[string]*ast.File{"t.bib": f}}
		case x.Target > 0 && len(f.Entries) > 0:
			node = f.Entries[(x.Target-1)%len(f.Entries)]
		}
		if p, ok := node.(*ast.Package); ok {
			want, wantOK = refRender(p.Files["t.bib"], over)
			if over[ast.KindPackage] {
				want = "<Package>" + want
				if wantOK {
					want += "</Package>"
				}
			}
		} else {
			want, wantOK = refRender(node, over)
		}
	}
	bud := budget(len(src))
	rend := func(w *simWriter) error {
		if x.Text {
			return tr.Render(asWriter(w), node.(ast.Expr))
		}
		return bib.Render(asWriter(w), node)
	}
	desc := func() string {
		return fmt.Sprintf("%s of %T (target %d, overridden %v, writer %q, mode %d, resolvers %v):\n%q", what, node, x.Target, x.Over, x.Kind, x.T.Mode, x.T.Res, clip(string(src), 1000))
	}
	ref := &simWriter{c: c, spec: WSpec{Kind: x.Kind}}
	var err error
	if o := c.Do(what, bud, func() { err = rend(ref) }); o.Panicked || o.Hang || o.Deadlock {
		return // C08's business
	}
	c.Eval()
	if (err == nil) != wantOK {
		c.Fail("healthy-error", "rendering to a healthy writer returned err=%v, %s", err, desc())
	}
	if err == nil && string(ref.Out) != want {
		c.Fail("healthy-output", "no error, but the output is not each node's text once: %s\n%s", diffText(want, string(ref.Out)), desc())
	}
	if err != nil && !strings.HasPrefix(want, string(ref.Out)) {
		c.Fail("healthy-prefix", "output before the error is not a prefix: %s\n%s", diffText(want, string(ref.Out)), desc())
	}
	if x.T.healthy() && !x.Text && x.Long == 0 && x.Target == 0 && len(x.Over) == 0 && len(x.T.Res) == 0 && x.T.Mode&int(parser.ParseStrings) != 0 && err == nil {
		m := ""
		for i := range x.T.D.Doc.Items {
			it := &x.T.D.Doc.Items[i]
			if it.Val != nil {
				m += it.Val.Default()
			}
			for j := range it.Tags {
				m += it.Tags[j].Val.Default()
			}
		}
		if m != string(ref.Out) {
			c.Fail("model-output", "the output differs from what the document's values render to: %s\n%s", diffText(m, string(ref.Out)), desc())
		}
		c.Probe("model-compared")
	}
	nw := len(ref.Writes)
	c.EventU(hbytes(ref.Out))
	if nw > 20 {
		c.Probe("many-writes")
	}
	if x.Nest > 0 && nw > 0 {
		at := (x.Nest - 1) % nw
		w := &simWriter{c: c, spec: WSpec{Kind: x.Kind}}
		in := &simWriter{c: c, spec: WSpec{Kind: x.Kind}}
		var e2, ein error
		w.onCall = func() {
			if len(w.Writes) == at+1 {
				w.onCall = nil
				c.Fault("writer-renders")
				ein = rend(in)
			}
		}
		o := c.Do(what, 2*bud, func() { e2 = rend(w) })
		c.check(what, o)
		c.Eval()
		if string(in.Out) != string(ref.Out) || (ein == nil) != (err == nil) {
			c.Fail("nested-render", "a rendering made by the writer in its write %d gives err=%v and other output: %s\n%s", at, ein, diffText(string(ref.Out), string(in.Out)), desc())
		}
		if string(w.Out) != string(ref.Out) || (e2 == nil) != (err == nil) {
			c.Fail("nesting-render", "the writer made a rendering of its own in its write %d; the outer one gives err=%v and other output: %s\n%s", at, e2, diffText(string(ref.Out), string(w.Out)), desc())
		}
	}
	idx := make([]int, 0, 64)
	step := 1
	if nw > 64 {
		step = nw / 64
	}
	for i := 0; i < nw; i += step {
		idx = append(idx, i)
	}
	if step > 1 {
		idx = append(idx, nw-1, nw-2)
	}
	for _, i := range idx {
		for _, sp := range x.Fails {
			sp.At = i
			sp.Kind = x.Kind
			w := &simWriter{c: c, spec: sp}
			var e2 error
			o := c.Do(what, bud, func() { e2 = rend(w) })
			if o.Panicked || o.Hang || o.Deadlock {
				c.check(what, o)
			}
			c.Eval()
			if !w.Fired {
				c.Fail("write-not-repeated", "the second rendering made %d writes, the first %d, %s", len(w.Writes), nw, desc())
			}
			in := fmt.Sprintf("write %d of %d failed (%s, %d bytes accepted, error %T %q); ", i, nw, sp.K, sp.N, w.Err, w.Err)
			if w.After > 0 {
				c.Fail("write-after-failure", "%s%d more writes were made, %s", in, w.After, desc())
			}
			if e2 == nil {
				c.Fail("write-error-lost", "%sno error was returned, %s", in, desc())
			}
			if !identifies(e2, w.Err) {
				c.Fail("write-error-not-identified", "%sthe error %T %q does not identify it, %s", in, e2, e2, desc())
			}
			if !strings.HasPrefix(string(ref.Out), string(w.Out)) {
				c.Fail("not-a-prefix", "%sthe accepted bytes are not a prefix: %s\n%s", in, diffText(string(ref.Out), string(w.Out)), desc())
			}
		}
	}
}

func validWSpec(s *WSpec, panics bool) bool {
	switch s.K {
	case "", "err", "partial", "short":
	case "panic":
		if !panics {
			return false
		}
	default:
		return false
	}
	return s.At >= 0 && s.N >= 0 && s.Err >= 0 && s.Stal >= 0
}

func init() {
	register(&Prop{
		ID: "C09", Level: "fault_enumeration",
		Rule:  "a rendering of a generated tree whose writer fails at every write (at most 66 per rendering) in one to three ways; non-trivial if a write failed",
		New:   func() any { return &c09Case{} },
		Run:   runC09,
		Quick: 250000, Thorough: 3000000,
		Real: realTree, Stub: []string{"io.Writer arguments (scripted)"},
		Faults: []string{"write-error", "write-error-partial", "short-write", "slow-write", "writer-renders"},
		Probes: []string{"model-compared", "many-writes", "partial-tree", "long-text", "hand-built"},
		Valid: func(cs any) bool {
			x := cs.(*c09Case)
			if x.Long < 0 || x.Long > 1<<20 || x.Nest < 0 {
				return false
			}
			for i := range x.Fails {
				if x.Fails[i].K == "" || !validWSpec(&x.Fails[i], false) {
					return false
				}
			}
			for _, k := range x.Over {
				if k < 0 || k > int(ast.KindPackage) {
					return false
				}
			}
			return x.T.valid()
		},
		Gen: func(r *R, tier Tier) any {
			x := &c09Case{T: genTreeCase(r, r.P(1, 4)), Target: pick(r, 0, 0, -1, 1, 2, 3), Text: r.P(1, 3), Kind: pick(r, "", "", "string", "all")}
			if r.P(1, 3) {
				x.T.Res = genRes(r, 3)
			}
			if r.P(1, 6) {
				x.T = TreeCase{}
				x.T.Hand, x.T.Docs, x.T.Wide = genHand(r)
			}
			if x.Text {
				x.Target = r.N(8)
			}
			if r.P(1, 6) {
				x.Nest = 1 + r.N(pick(r, 3, 40))
			}
			if r.P(1, 60) {
				x.Long = pick(r, 600, 1100, 4200, 9000)
			}
			if r.P(1, 4) {
				for n := r.In(1, 3); n > 0; n-- {
					x.Over = append(x.Over, r.N(int(ast.KindPackage)+1))
				}
			}
			for n := r.In(1, 3); n > 0; n-- {
				x.Fails = append(x.Fails, WSpec{K: pick(r, "err", "partial", "short"), N: pick(r, r.N(4), r.N(4), 2, 100, 1000, 9999), Err: genErr(r, nErrs+1), Stal: pick(r, 0, 0, 0, 1, 3), Once: r.P(1, 2)})
			}
			return x
		},
	})
}

// ---- C10 ------------------------------------------------------------------

// HNode describes a tree built by hand.
type HNode struct {
	K    string  `json:"k"`
	Kids []HNode `json:"kids,omitempty"`
	Wrap int     `json:"wrap,omitempty"` // nested so deep
	How  string  `json:"how,omitempty"`  // in what: parsed macro left right
	Rep  int     `json:"rep,omitempty"`  // so many more of its kids
}

func validHand(hs []HNode) bool {
	for i := range hs {
		h := &hs[i]
		if h.Wrap < 0 || h.Wrap > 5000 || h.Rep < 0 || h.Rep > 1000 || !validHand(h.Kids) {
			return false
		}
		for j := range h.Kids {
			if h.Rep > 0 && h.Kids[j].Rep > 0 || h.Kids[j].Wrap > 0 {
				return false
			}
		}
	}
	return true
}

func (h *HNode) n() int {
	if len(h.Kids) == 0 {
		return 0
	}
	return len(h.Kids) + h.Rep
}

// buildHand makes a tree of hand-built values in declarations of every kind.
func buildHand(hand []HNode, docs, wide int) *ast.File {
	f := &ast.File{}
	for k := 0; k <= wide; k++ {
		for i := range hand {
			e := hand[i].expr(0)
			switch i % 4 {
			case 0:
				f.Entries = append(f.Entries, &ast.BibDecl{Type: "book", Key: &ast.Ident{Name: "k"}, Tags: []*ast.TagStmt{{Name: "a", Value: e}, {Name: "b", Value: &ast.Number{Value: "2"}}}})
			case 1:
				f.Entries = append(f.Entries, &ast.PreambleDecl{Text: e})
			case 2:
				f.Entries = append(f.Entries, &ast.AbbrevDecl{Tag: &ast.TagStmt{Name: "s", Value: e}})
			default:
				f.Entries = append(f.Entries, &ast.BadDecl{From: 1, To: 2}, &ast.BibDecl{Type: "e", Tags: []*ast.TagStmt{{Name: "t", Value: e}}})
			}
		}
	}
	for i, d := range f.Entries {
		doc := &ast.TexCommentGroup{List: []*ast.TexComment{{Text: "% c"}}}
		decorate(d, doc, docs, i)
	}
	if docs&8 != 0 { // many tags
		for _, d := range f.Entries {
			if b, ok := d.(*ast.BibDecl); ok {
				for i := 0; i < 70; i++ {
					b.Tags = append(b.Tags, &ast.TagStmt{Name: fmt.Sprint("t", i), Value: &ast.Text{Value: fmt.Sprint(i)}})
				}
			}
		}
	}
	return f
}

// genHand draws a description of a tree, how it is decorated and how wide.
func genHand(r *R) (hand []HNode, docs, wide int) {
	for n := r.In(1, 4); n > 0; n-- {
		hand = append(hand, genHNode(r, 3))
	}
	docs = r.N(8)
	switch {
	case r.P(1, 100): // a deep one
		hand[0].Wrap, hand[0].How = pick(r, 70, 130, 300, 1100, 3000), pick(r, "parsed", "macro", "left", "right")
	case r.P(1, 40):
		wide = pick(r, 10, 25, 70, 140, 270) / len(hand)
	case r.P(1, 40):
		docs |= 8
	case r.P(1, 30):
		hand[0].Rep = pick(r, 10, 25, 70, 140, 270)
	}
	return
}

var handKinds = []string{"text", "space", "comma", "math", "nbsp", "hyphen", "escaped", "accent", "ident", "number", "unparsed", "badexpr", "macro", "parsed", "concat", "authors", "author"}

func (h *HNode) expr(depth int) ast.Expr {
	e := h.expr1(depth)
	for i := 0; i < h.Wrap; i++ {
		switch h.How {
		case "macro":
			e = &ast.TextMacro{Name: "emph", Values: []ast.Expr{e}}
		case "left":
			e = &ast.ConcatExpr{X: e, Y: &ast.Text{Value: "leaf"}}
		case "right":
			e = &ast.ConcatExpr{X: &ast.Text{Value: "leaf"}, Y: e}
		default:
			e = &ast.ParsedText{Delim: ast.BraceDelimiter, Depth: i % 3, Values: []ast.Expr{e}}
		}
	}
	return e
}

func (h *HNode) expr1(depth int) ast.Expr {
	kid := func(i int) ast.Expr {
		if i < h.n() && depth < 30 {
			return h.Kids[i%len(h.Kids)].expr(depth + 1)
		}
		return &ast.Text{Value: "leaf"}
	}
	switch h.K {
	case "space":
		return &ast.TextSpace{Value: " "}
	case "comma":
		return &ast.TextComma{}
	case "math":
		return &ast.TextMath{Value: "x"}
	case "nbsp":
		return &ast.TextNBSP{}
	case "hyphen":
		return &ast.TextHyphen{}
	case "escaped":
		return &ast.TextEscaped{Value: "&"}
	case "accent":
		return &ast.TextAccent{Accent: '\'', Text: &ast.Text{Value: "a"}}
	case "ident":
		return &ast.Ident{Name: "id"}
	case "number":
		return &ast.Number{Value: "1"}
	case "unparsed":
		return &ast.UnparsedText{Value: "u"}
	case "badexpr":
		return &ast.BadExpr{From: 1, To: 2}
	case "macro":
		m := &ast.TextMacro{Name: "emph"}
		for i := 0; i < h.n(); i++ {
			m.Values = append(m.Values, kid(i))
		}
		return m
	case "parsed":
		m := &ast.ParsedText{Delim: ast.BraceDelimiter}
		for i := 0; i < h.n(); i++ {
			m.Values = append(m.Values, kid(i))
		}
		return m
	case "concat":
		return &ast.ConcatExpr{X: kid(0), Y: kid(1)}
	case "authors":
		var as ast.Authors = ast.Authors{}
		for i := 0; i < h.n(); i++ {
			a := &ast.Author{}
			g := h.Kids[i%len(h.Kids)].Kids
			for j := range g {
				e := g[j].expr(depth + 2)
				switch j {
				case 0:
					a.First = e
				case 1:
					a.Prefix = e
				case 2:
					a.Last = e
				case 3:
					a.Suffix = e
				}
			}
			as = append(as, a)
		}
		return as
	}
	return &ast.Text{Value: h.K}
}

func genHNode(r *R, depth int) HNode {
	h := HNode{K: handKinds[r.N(len(handKinds)-1)]}
	n := 0
	switch h.K {
	case "macro", "parsed":
		n = r.N(4)
	case "concat":
		n = 2
	case "authors":
		n = r.N(4)
		for i := 0; i < n; i++ {
			a := HNode{K: "author"}
			for j := r.N(5); j > 0; j-- {
				a.Kids = append(a.Kids, HNode{K: "text"})
			}
			h.Kids = append(h.Kids, a)
		}
		return h
	}
	if depth <= 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		h.Kids = append(h.Kids, genHNode(r, depth-1))
	}
	return h
}

type c10Case struct {
	T    TreeCase `json:"t"`
	Hand []HNode  `json:"hand,omitempty"`
	Root int      `json:"root"`           // 0 file, -1 package, n: n-1st node
	Ans  []Answer `json:"ans,omitempty"`  // scripted answers
	Docs int      `json:"docs,omitempty"` // as in TreeCase
	Wide int      `json:"wide,omitempty"`
	Bad  []Answer `json:"bad"`           // each tried at every call (At overwritten)
	All  bool     `json:"all,omitempty"` // try every call position
}

// Answer is what the visitor does at call At (0-based).
type Answer struct {
	At int    `json:"at"`
	K  string `json:"k"` // stop err stoperr skiperr panic skip; walk walkall: walks itself
	E  int    `json:"e,omitempty"`
}

type visit struct {
	N     ast.Node
	Enter bool
}

func sameID(a, b ast.Node) bool {
	x, ok1 := a.(ast.Authors)
	y, ok2 := b.(ast.Authors)
	if ok1 || ok2 {
		if ok1 != ok2 || len(x) != len(y) {
			return false
		}
		return len(x) == 0 || &x[0] == &y[0]
	}
	return a == b
}

// refWalk checks a recorded history of calls against the reference walk.
// skips are the calls at which children were skipped, end is how the script
// ended the walk ("" ran to the end).
type refWalker struct {
	got  []visit
	i    int
	skip map[int]bool
	last int // index of the call that ended the walk, -1 none
	bad  string
}

func (w *refWalker) call(n ast.Node, enter bool) bool {
	if w.bad != "" {
		return false
	}
	if w.i >= len(w.got) {
		w.bad = fmt.Sprintf("call %d (%T entering=%v) is missing", w.i, n, enter)
		return false
	}
	g := w.got[w.i]
	if !sameID(g.N, n) || g.Enter != enter {
		w.bad = fmt.Sprintf("call %d is %s entering=%v, want %s entering=%v", w.i, shortNode(g.N), g.Enter, shortNode(n), enter)
		return false
	}
	w.i++
	return w.i-1 != w.last
}

func shortNode(n ast.Node) string {
	s, _ := Dump(n, 0, 0)
	return fmt.Sprintf("%T %s", n, clip(s, 60))
}

func (w *refWalker) walk(n ast.Node) bool {
	at := w.i
	if !w.call(n, true) {
		return false
	}
	if !w.skip[at] {
		if p, ok := n.(*ast.Package); ok {
			left := map[*ast.File]bool{}
			for _, f := range p.Files {
				left[f] = true
			}
			for len(left) > 0 {
				var next *ast.File
				if w.i < len(w.got) {
					if f, ok := w.got[w.i].N.(*ast.File); ok && left[f] {
						next = f
					}
				}
				if next == nil {
					w.bad = fmt.Sprintf("call %d should enter one of %d files not visited yet", w.i, len(left))
					return false
				}
				delete(left, next)
				if !w.walk(next) {
					return false
				}
			}
		} else {
			for _, k := range children(n) {
				if !w.walk(k) {
					return false
				}
			}
		}
	}
	return w.call(n, false)
}

func allNodes(n ast.Node) []ast.Node {
	var out []ast.Node
	var add func(n ast.Node)
	add = func(n ast.Node) {
		out = append(out, n)
		for _, k := range children(n) {
			add(k)
		}
	}
	add(n)
	return out
}

// decorate gives a declaration what is not visited.
func decorate(d ast.Decl, doc *ast.TexCommentGroup, docs, i int) {
	tag := func(t *ast.TagStmt) {
		if docs&2 != 0 {
			t.Doc = doc
		}
		if docs&4 != 0 {
			t.NamePos, t.RawName = 3, t.Name
		}
	}
	switch d := d.(type) {
	case *ast.BibDecl:
		if docs&1 != 0 {
			d.Doc = doc
		}
		if docs&4 != 0 {
			d.Entry, d.RBrace = 1, 99
			d.ExtraKeys = []*ast.Ident{{Name: "x"}, {Name: fmt.Sprint(i)}}
		}
		for _, t := range d.Tags {
			tag(t)
		}
	case *ast.AbbrevDecl:
		if docs&1 != 0 {
			d.Doc = doc
		}
		if docs&4 != 0 {
			d.Entry, d.RBrace = 1, 99
		}
		tag(d.Tag)
	case *ast.PreambleDecl:
		if docs&1 != 0 {
			d.Doc = doc
		}
		if docs&4 != 0 {
			d.Entry, d.RBrace = 1, 99
		}
	}
}

func runC10(c *Ctx, cs any) {
	x := cs.(*c10Case)
	src := x.T.bytes()
	var root ast.Node
	if len(x.Hand) > 0 {
		f := buildHand(x.Hand, x.Docs, x.Wide)
		root = f
		c.Probe("hand-built")
	} else {
		f := x.T.tree(c, src)
		if f == nil {
			return
		}
		for _, k := range x.T.Res {
			if o := c.Outcome("resolver", budget(len(src)), func() string { builtin(k).Resolve(f); return "" }); crashed(o) {
				return
			}
		}
		root = f
	}
	switch {
	case x.Root < 0:
		p := &ast.Package{Files: map[string]*ast.File{}}
		for i := 0; i < 1-x.Root; i++ {
			f := root.(*ast.File)
			if i > 3 {
				f = &ast.File{Name: fmt.Sprint(i)}
			} else if i > 0 {
				f = &ast.File{Name: fmt.Sprint(i), Entries: append([]ast.Decl(nil), f.Entries[:len(f.Entries)/2]...)}
				for j := range f.Entries {
					if b, ok := f.Entries[j].(*ast.BibDecl); ok {
						b2 := *b
						f.Entries[j] = &b2
					}
				}
			}
			p.Files[fmt.Sprint("f", i)] = f
		}
		root = p
	case x.Root > 0:
		ns := allNodes(root)
		root = ns[(x.Root-1)%len(ns)]
	}
	scripts := [][]Answer{x.Ans}
	total := c.walkOnce(root, x.Ans, src)
	if len(x.Bad) > 0 {
		step := 1
		if !x.All && total > 24 || total > 400 {
			step = total/24 + 1
		}
		for i := 0; i < total; i += step {
			for _, b := range x.Bad {
				b.At = i
				scripts = append(scripts, append(append([]Answer(nil), x.Ans...), b))
			}
		}
	}
	for _, s := range scripts[1:] {
		c.walkOnce(root, s, src)
	}
}

// walkWithin walks n with a visitor that only records and checks the history.
func walkWithin(n ast.Node) string {
	w := &refWalker{last: -1}
	err := ast.Walk(n, func(k ast.Node, enter bool) (ast.WalkStatus, error) {
		simrt.Point()
		w.got = append(w.got, visit{k, enter})
		return ast.WalkContinue, nil
	})
	if err != nil {
		return fmt.Sprintf("it returned %v", err)
	}
	if w.walk(n); w.bad == "" && w.i != len(w.got) {
		w.bad = fmt.Sprintf("%d calls more than nodes to visit", len(w.got)-w.i)
	}
	return w.bad
}

// walkOnce walks with a scripted visitor and checks the history; it returns
// the number of calls.
func (c *Ctx) walkOnce(root ast.Node, script []Answer, src []byte) int {
	at := map[int]Answer{}
	for _, a := range script {
		at[a.At] = a
	}
	var hist []visit
	skip := map[int]bool{}
	last := -1
	var werr error
	var thrown any
	var panicVal any
	var retErr error
	how := "end"
	nested := ""
	o := c.Do("Walk", 2_000_000, func() {
		retErr = ast.Walk(root, func(n ast.Node, enter bool) (ast.WalkStatus, error) {
			simrt.Point()
			i := len(hist)
			hist = append(hist, visit{n, enter})
			a, ok := at[i]
			if !ok {
				return ast.WalkContinue, nil
			}
			c.Fault("visitor-" + a.K)
			switch a.K {
			case "walk", "walkall": // a walk of its own, of this node or of the whole tree
				m := n
				if a.K == "walkall" {
					m = root
				}
				if s := walkWithin(m); s != "" && nested == "" {
					nested = fmt.Sprintf("a walk of %s made by the visitor at call %d: %s", shortNode(m), i, s)
				}
				return ast.WalkContinue, nil
			case "stop":
				if last < 0 {
					last, how = i, "stop"
				}
				return ast.WalkStop, nil
			case "err", "stoperr", "skiperr":
				e := mkCbErr(a.E)
				if last < 0 {
					last, how, werr = i, "err", e
				}
				return map[string]ast.WalkStatus{"err": ast.WalkContinue, "stoperr": ast.WalkStop, "skiperr": ast.WalkSkipChildren}[a.K], e
			case "panic":
				if last < 0 {
					last, how = i, "panic"
				}
				thrown = mkPanic(a.E, fmt.Sprint(i))
				panic(thrown)
			}
			skip[i] = true
			return ast.WalkSkipChildren, nil
		})
	})
	if o.Panicked {
		panicVal = o.Val
	}
	c.Eval()
	desc := func() string {
		return fmt.Sprintf("walk of %s with answers %+v:\n%q", shortNode(root), script, clip(string(src), 1000))
	}
	switch {
	case o.Hang:
		c.Fail("walk-hang", "the walk did not end, %s", desc())
	case how == "panic":
		if panicVal != thrown || o.Child {
			c.Fail("walk-panic", "the visitor panicked with %v; the walk ended with panic=%v err=%v (in another goroutine: %v), %s", thrown, panicVal, retErr, o.Child, desc())
		}
	case o.Panicked:
		c.Fail("walk-panicked:"+topFrame(o.T.PanicPos), "the walk panicked: %v\n%s\n%s", o.Val, trimStack(o.T.PanicPos), desc())
	case how == "err":
		if !sameErr(retErr, werr) {
			c.Fail("walk-error", "the visitor returned %T %q, the walk returned %v, %s", werr, werr, retErr, desc())
		}
	case retErr != nil:
		c.Fail("walk-unexpected-error", "the visitor did not fail but the walk returned %v, %s", retErr, desc())
	}
	if nested != "" {
		c.Fail("nested-walk", "%s, %s", nested, desc())
	}
	if last >= 0 && len(hist) != last+1 {
		c.Fail("call-after-end", "%d calls were made after the visitor ended the walk (%s) at call %d, %s", len(hist)-last-1, how, last, desc())
	}
	w := &refWalker{got: hist, skip: skip, last: last}
	w.walk(root)
	if w.bad != "" {
		c.Fail("walk-order", "%s, %s", w.bad, desc())
	}
	if w.i != len(hist) {
		c.Fail("walk-extra", "%d calls more than nodes to visit (next is %s), %s", len(hist)-w.i, shortNode(hist[w.i].N), desc())
	}
	c.EventU(uint64(len(hist)))
	return len(hist)
}

func init() {
	ks := []string{"stop", "err", "stoperr", "skiperr", "panic", "skip", "walk", "walkall"}
	okAns := func(as []Answer) bool {
		for _, a := range as {
			ok := false
			for _, k := range ks {
				ok = ok || a.K == k
			}
			if !ok || a.At < 0 || a.E < 0 {
				return false
			}
		}
		return true
	}
	register(&Prop{
		ID: "C10", Level: "fault_enumeration",
		Rule:  "a tree (parsed, damaged, resolved or built by hand) walked with a scripted visitor, then again with each misbehaviour at every (small trees) or every k-th call; non-trivial if the visitor misbehaved",
		New:   func() any { return &c10Case{} },
		Run:   runC10,
		Quick: 280000, Thorough: 3000000,
		Real: realTree, Stub: []string{"visitor (scripted)"},
		Faults: []string{"visitor-stop", "visitor-err", "visitor-stoperr", "visitor-skiperr", "visitor-panic", "visitor-skip", "visitor-walk", "visitor-walkall"},
		Probes: []string{"hand-built", "partial-tree", "complete-tree"},
		Valid: func(cs any) bool {
			x := cs.(*c10Case)
			if !validHand(x.Hand) || x.Wide < 0 || x.Wide > 1000 {
				return false
			}
			return x.T.valid() && okAns(x.Ans) && okAns(x.Bad) && x.Root >= -300 && x.Docs >= 0
		},
		Gen: func(r *R, tier Tier) any {
			x := &c10Case{Root: pick(r, 0, 0, 0, -1, -2, 1, 2, 5, 17, 40)}
			if r.P(1, 3) {
				x.Hand, x.Docs, x.Wide = genHand(r)
			} else {
				x.T = genTreeCase(r, r.P(1, 2))
				x.T.Rep = min(x.T.Rep, 5)
				x.T.Res = genRes(r, 2)
			}
			if r.P(1, 40) {
				x.Root = -r.In(3, 40)
			}
			if r.P(1, 400) {
				x.Root = -pick(r, 65, 130, 260)
			}
			for n := r.N(4); n > 0; n-- {
				x.Ans = append(x.Ans, Answer{At: r.N(40), K: "skip"})
			}
			for n := r.In(1, 2); n > 0; n-- {
				x.Bad = append(x.Bad, Answer{K: ks[r.N(6)], E: genErr(r, nErrs+1)})
			}
			if r.P(1, 5) {
				x.Ans = append(x.Ans, Answer{At: r.N(20), K: pick(r, "walk", "walkall")})
			}
			if r.P(1, 20) {
				x.Bad[0].K = pick(r, "walk", "walk", "walkall")
			}
			x.All = r.P(1, 3)
			return x
		},
	})
}

// ---- C11 ------------------------------------------------------------------

// RStepR is one configured resolver.
type ResSpec struct {
	K string `json:"k"` // log, tag, drop, rename, add, del, stall, nest (resolves another tree), builtin (logged), plain (built-in, not logged)
	N int    `json:"n,omitempty"`
	// Shape of the resolver value: func, ptr, val
	Shape string `json:"shape"`
	Same  int    `json:"same,omitempty"` // if not 0, the very value configured as the (Same-1)th
}

type c11Case struct {
	T     TreeCase  `json:"t"`
	Node  string    `json:"node"`
	Res   []ResSpec `json:"res"`
	Group []int     `json:"group"` // sizes of the WithResolvers calls
	F     string    `json:"f"`     // how a resolver fails: err, panic
	E     int       `json:"e"`
	Late  bool      `json:"late,omitempty"` // the failing resolver changes the tree first
}

type resLog struct {
	calls  []int
	nodes  []ast.Node
	failAt int
	f      string
	e      error
	late   bool
	c      *Ctx
	own    map[int]error // error of a built-in resolver
	runs   map[*loggedPtr]int
	quiet  bool // the model
	bib    *bibtex.Biber
	inner  bool // in a resolve made by a resolver
	nested string
	all    []int // the logged resolvers, in order
}

type loggedPtr struct {
	l   *resLog
	pos []int // where it is configured
	s   ResSpec
}
type loggedVal struct {
	p *loggedPtr
}

func (p *loggedPtr) Resolve(n ast.Node) error { return p.run(n) }
func (v loggedVal) Resolve(n ast.Node) error  { return v.p.run(n) }

func (p *loggedPtr) run(n ast.Node) error {
	simrt.Point()
	l := p.l
	i := p.pos[min(l.runs[p], len(p.pos)-1)]
	l.runs[p]++
	if l.inner { // only recorded
		l.calls = append(l.calls, i)
		return nil
	}
	l.calls = append(l.calls, i)
	l.nodes = append(l.nodes, n)
	fail := func() error {
		if l.failAt != i {
			return nil
		}
		if !l.quiet {
			l.c.Fault("resolver-" + l.f)
		}
		if l.f == "panic" {
			panic(&cbPanic{"resolver"})
		}
		return l.e
	}
	if !l.late {
		if err := fail(); err != nil {
			return err
		}
	}
	var decls []*ast.BibDecl
	for _, d := range bibDecls(n) {
		decls = append(decls, d)
	}
	switch p.s.K {
	case "tag":
		for _, d := range decls {
			for _, t := range d.Tags {
				t.Value = &ast.Text{Value: fmt.Sprintf("r%d", i)}
			}
		}
	case "drop":
		for _, d := range decls {
			if len(d.Tags) > 0 {
				d.Tags = d.Tags[1:]
			}
		}
	case "rename":
		for _, d := range decls {
			d.Key = &ast.Ident{Name: keyOf(d) + fmt.Sprint("+", i)}
			d.Type += "x"
		}
	case "add":
		if f, ok := n.(*ast.File); ok {
			f.Entries = append(f.Entries, &ast.BibDecl{Type: "added", Key: &ast.Ident{Name: fmt.Sprint("new", i)}})
		}
	case "del":
		if f, ok := n.(*ast.File); ok && len(f.Entries) > 0 {
			f.Entries = f.Entries[1:]
		}
	case "nest":
		if !l.quiet {
			l.c.Fault("resolver-resolves")
			if s := l.resolveInner(p.s.N); s != "" && l.nested == "" {
				l.nested = fmt.Sprintf("resolver %d resolved another tree: %s", i, s)
			}
		}
	case "stall":
		if !l.quiet {
			l.c.Fault("resolver-stall")
			simrt.Sleep(time.Second)
		}
	case "builtin":
		err := builtin(p.s.N).Resolve(n)
		if err != nil {
			if !l.quiet {
				l.c.Probe("builtin-failed")
			}
			l.own[i] = err
			return err
		}
	}
	return fail()
}

// resolveInner resolves a tree of its own on the same instance, while that is
// resolving, with all logged resolvers just recording that they are called.
func (l *resLog) resolveInner(n int) string {
	f := &ast.File{Entries: []ast.Decl{
		&ast.BibDecl{Type: "book", Key: &ast.Ident{Name: "in"}},
		&ast.BibDecl{Type: "misc", Key: &ast.Ident{Name: "out"}, Tags: []*ast.TagStmt{{Name: "t", Value: &ast.Number{Value: "1"}}}},
	}}
	calls, runs := l.calls, l.runs
	l.calls, l.runs, l.inner = nil, map[*loggedPtr]int{}, true
	es, err := l.bib.Resolve(f)
	got := l.calls
	l.calls, l.runs, l.inner = calls, runs, false
	switch {
	case err != nil:
		return fmt.Sprintf("error %v", err)
	case !slices.Equal(got, l.all):
		return fmt.Sprintf("resolvers ran as %v, want %v", got, l.all)
	}
	return checkEntries(es, bibDecls(f))
}

// build makes the tree and the resolvers.
func (x *c11Case) build(c *Ctx, src []byte, failAt int) (*resLog, []bibtex.Resolver, ast.Node) {
	f := x.T.tree(c, src)
	if f == nil {
		return nil, nil, nil
	}
	var node ast.Node = f
	switch x.Node {
	case "package":
		node = &ast.Package{Files: map[string]*ast.File{"t.bib": f}}
	case "decl":
		ds := bibDecls(f)
		if len(ds) == 0 {
			return nil, nil, nil
		}
		node = ds[len(ds)/2]
	}
	l := &resLog{failAt: failAt, f: x.F, e: mkCbErr(x.E), late: x.Late, c: c}
	rs := make([]bibtex.Resolver, len(x.Res))
	ps := make([]*loggedPtr, len(x.Res))
	for i := range x.Res {
		if x.Res[i].K == "plain" {
			rs[i] = builtin(x.Res[i].N)
			continue
		}
		l.all = append(l.all, i)
		if j := x.Res[i].Same; j > 0 && j-1 < i && ps[j-1] != nil {
			rs[i] = rs[j-1]
			ps[i] = ps[j-1]
			ps[i].pos = append(ps[i].pos, i)
			c.Probe("same-resolver-twice")
			continue
		}
		p := &loggedPtr{l, []int{i}, x.Res[i]}
		ps[i] = p
		switch x.Res[i].Shape {
		case "ptr":
			rs[i] = p
		case "val":
			rs[i] = loggedVal{p}
		default:
			rs[i] = bibtex.ResolverFunc(p.run)
		}
	}
	return l, rs, node
}

// dumpNode shows a file, a package of one file or a declaration.
func dumpNode(n ast.Node) string {
	if p, ok := n.(*ast.Package); ok {
		var sb strings.Builder
		for _, f := range p.Files {
			s, _ := Dump(f, 2, 0)
			sb.WriteString(s)
		}
		return sb.String()
	}
	s, _ := Dump(n, 2, 0)
	return s
}

func runC11(c *Ctx, cs any) {
	x := cs.(*c11Case)
	src := x.T.bytes()
	for failAt := -1; failAt < len(x.Res); failAt++ {
		l, rs, node := x.build(c, src, failAt)
		if node == nil {
			return
		}
		// The model: the same resolvers called by hand on a tree of its own.
		ml, mrs, mnode := x.build(c, src, failAt)
		ml.quiet = true
		var opts []bibtex.Option
		left := rs
		for _, g := range x.Group {
			g = min(g, len(left))
			opts = append(opts, bibtex.WithResolvers(left[:g]...))
			left = left[g:]
		}
		opts = append(opts, bibtex.WithResolvers(left...))
		bib := bibtex.New(opts...)
		l.bib = bib
		for call := 0; call < 2; call++ {
			l.calls, l.nodes, l.own, l.runs = nil, nil, map[int]error{}, map[*loggedPtr]int{}
			ml.calls, ml.nodes, ml.own, ml.runs = nil, nil, map[int]error{}, map[*loggedPtr]int{}
			want := len(x.Res)
			failed := false
			for i, r := range mrs {
				var merr error
				mo := c.Do("resolver by hand", budget(len(src)*4), func() { merr = r.Resolve(mnode) })
				if mo.Panicked {
					if p, ok := mo.Val.(*cbPanic); !ok || p.s != "resolver" {
						return // a built-in resolver panicked: C08's business
					}
				} else if mo.Hang || mo.Deadlock {
					return
				}
				if failed = mo.Panicked || merr != nil; failed {
					want = i + 1
					break
				}
			}
			var es []bibtex.Entry
			var err error
			o := c.Do("Resolve", budget(len(src)*4)*int64(1+len(x.Res)), func() { es, err = bib.Resolve(node) })
			c.Eval()
			desc := func() string {
				return fmt.Sprintf("resolvers %+v in calls of %v, failing %d (%s), call %d:\n%q", x.Res, x.Group, failAt, x.F, call, clip(string(src), 800))
			}
			if o.Hang || o.Deadlock {
				c.check("Resolve", o)
			}
			if l.nested != "" {
				c.Fail("nested-resolve", "%s, %s", l.nested, desc())
			}
			var cause error // nil if it is not known
			if failed && x.Res[want-1].K != "plain" {
				if cause = l.own[want-1]; cause == nil {
					cause = l.e
				}
			}
			for i := 0; i < len(l.calls) || i < len(ml.calls); i++ {
				if i >= len(l.calls) || i >= len(ml.calls) || l.calls[i] != ml.calls[i] {
					c.Fail("resolver-order", "resolvers ran as %v, want %v, %s", l.calls, ml.calls, desc())
				}
				if l.nodes[i] != node {
					c.Fail("resolver-node", "resolver %d got another node (%T), %s", i, l.nodes[i], desc())
				}
			}
			if got, exp := dumpNode(node), dumpNode(mnode); got != exp {
				c.Fail("resolver-effects", "the tree is not as resolvers 0..%d leave it:\n want %s\n got  %s\n%s", want-1, clip(exp, 1500), clip(got, 1500), desc())
			}
			if !failed {
				if o.Panicked {
					c.check("Resolve", o)
				}
				if err != nil {
					c.Fail("resolve-error", "no resolver failed but Resolve returned %v, %s", err, desc())
				}
				if es == nil {
					c.Fail("resolve-no-entries", "no resolver failed but Resolve returned nil entries, %s", desc())
				}
				if s := checkEntries(es, bibDecls(node)); s != "" {
					c.Fail("resolve-entries", "%s, %s", s, desc())
				}
				c.Probe("resolved")
				continue
			}
			if want-1 == failAt && x.Res[failAt].K != "plain" && l.own[failAt] == nil && x.F == "panic" {
				if p, ok := o.Val.(*cbPanic); !ok || p.s != "resolver" {
					c.Fail("resolver-panic", "resolver %d panicked; Resolve ended with panic=%v err=%v entries=%d, %s", failAt, o.Val, err, len(es), desc())
				}
				continue
			}
			if o.Panicked {
				c.check("Resolve", o)
			}
			if err == nil {
				c.Fail("resolver-error-lost", "resolver %d failed with %T %q but Resolve returned no error, %s", want-1, cause, cause, desc())
			}
			if es != nil {
				c.Fail("entries-despite-error", "resolver %d failed but %d entries were returned, %s", want-1, len(es), desc())
			}
			if cause == nil {
				c.Probe("plain-failed")
			} else if !identifies(err, cause) {
				c.Fail("resolver-error-not-identified", "the error %q does not identify resolver %d's error %T %q, %s", err, want-1, cause, cause, desc())
			}
			c.Probe("aborted")
		}
	}
}

func init() {
	kinds := []string{"log", "log", "tag", "drop", "rename", "add", "del", "stall", "nest", "builtin", "builtin", "plain", "plain"}
	register(&Prop{
		ID: "C11", Level: "fault_enumeration",
		Rule:  "a list of up to six, now and then up to 65, logged resolvers on a generated tree, run with no failure and with each of them failing in turn, twice on the same instance; non-trivial if a resolver failed or stalled",
		New:   func() any { return &c11Case{} },
		Run:   runC11,
		Quick: 260000, Thorough: 5000000,
		Real: realTree, Stub: []string{"caller-supplied resolvers (scripted)"},
		Faults: []string{"resolver-err", "resolver-panic", "resolver-stall", "resolver-resolves"},
		Probes: []string{"resolved", "aborted", "builtin-failed", "plain-failed", "same-resolver-twice"},
		Valid: func(cs any) bool {
			x := cs.(*c11Case)
			for _, s := range x.Res {
				if s.N < 0 || s.N >= nRes || !strings.Contains(strings.Join(kinds, " "), s.K) || s.K == "" || s.Same < 0 {
					return false
				}
			}
			for _, g := range x.Group {
				if g < 0 {
					return false
				}
			}
			return x.T.valid() && (x.F == "err" || x.F == "panic") && x.E >= 0 && (x.Node == "file" || x.Node == "package" || x.Node == "decl")
		},
		Gen: func(r *R, tier Tier) any {
			x := &c11Case{T: genTreeCase(r, r.P(1, 4)), Node: pick(r, "file", "file", "package", "decl"), F: pick(r, "err", "err", "err", "panic"), E: genErr(r, nErrs+1), Late: r.P(1, 2)}
			x.T.Rep = min(x.T.Rep, 3)
			n := r.N(7)
			if r.P(1, 40) {
				n = pick(r, 9, 17, 33, 65)
			}
			for ; n > 0; n-- {
				x.Res = append(x.Res, ResSpec{K: kinds[r.N(len(kinds))], N: r.N(nRes), Shape: pick(r, "func", "ptr", "val")})
				if i := len(x.Res) - 1; i > 0 && r.P(1, 6) {
					x.Res[i].Same = r.In(1, i)
				}
			}
			for n := r.N(4); n > 0; n-- {
				x.Group = append(x.Group, r.N(4))
			}
			return x
		},
	})
}

// ---- C19 ------------------------------------------------------------------

type c19Case struct {
	Docs []Doc   `json:"docs"`
	Mode int     `json:"mode"`
	Res  []int   `json:"res"`
	Copy []int   `json:"copy,omitempty"` // file i is stored again under another name
	Name []int   `json:"name,omitempty"` // of pkgNames, by file; 0 for a plain name
	Via  bool    `json:"via,omitempty"`  // through ParsePackage and the disk
	Bad  []int   `json:"bad,omitempty"`  // files that also have a bad declaration
	Dam  []DamAt `json:"dam,omitempty"`  // damage to files: their trees may be partial
	Seed uint64  `json:"seed"`
}

// DamAt is damage to file F.
type DamAt struct {
	F int    `json:"f"`
	D Damage `json:"d"`
}

// pkgNames are paths of files in a package.
var pkgNames = []string{"", "x.bib", "a/x.bib", "b/x.bib", "a/b/x.bib", "X.bib", "./x.bib", "a/../x.bib", "x", "x.bib.bak", "x.bib ", " x.bib", "/x.bib", "-", "10.bib", "9.bib", "é.bib", "é.bib", "a/", "..", "a b/c.bib", "\x00", "f1.bib", "f0.bib", "c0.bib", "%s"}

func runC19(c *Ctx, cs any) {
	x := cs.(*c19Case)
	mode := parser.Mode(x.Mode) &^ parser.Trace
	srcs := map[string][]byte{}
	var names []string
	name := func(i int, plain string) string {
		if i < len(x.Name) && x.Name[i] > 0 {
			n := pkgNames[x.Name[i]%len(pkgNames)]
			if x.Via && (n == "" || filepath.Clean(n) != n || !filepath.IsLocal(n) || strings.Contains(n, "\x00")) {
				return plain
			}
			if srcs[n] == nil {
				c.Probe("odd-file-name")
				return n
			}
		}
		return plain
	}
	for i := range x.Docs {
		n := name(i, fmt.Sprintf("f%d.bib", i))
		srcs[n] = append([]byte(nil), x.Docs[i].Render().Src...)
		for _, d := range x.Dam {
			if d.F == i && !x.Via {
				srcs[n] = d.D.apply(srcs[n])
			}
		}
		names = append(names, n)
	}
	// parse makes the tree of a file, as it is alone and in the package.
	parse := func(i int) *ast.File {
		n := names[i]
		p := parseFile(n, string(srcs[n]), mode)
		if p.File == nil || p.Err != nil && (x.Via || len(x.Dam) == 0) {
			return nil
		}
		if p.Err != nil {
			c.Probe("partial-tree")
		}
		for _, b := range x.Bad {
			if b%len(names) == i && !x.Via {
				bad := &ast.BadDecl{From: 1, To: 2}
				if at := b / len(names) % (len(p.File.Entries) + 1); true {
					p.File.Entries = append(p.File.Entries[:at:at], append([]ast.Decl{bad}, p.File.Entries[at:]...)...)
				}
				c.Probe("bad-declaration")
			}
		}
		return p.File
	}
	for j, i := range x.Copy {
		if len(x.Docs) == 0 {
			break
		}
		n := name(len(x.Docs)+j, fmt.Sprintf("c%d.bib", j))
		srcs[n] = srcs[names[i%len(x.Docs)]]
		names = append(names, n)
	}
	var opts []bibtex.Option
	for _, k := range x.Res {
		opts = append(opts, bibtex.WithResolvers(builtin(k)))
	}
	bib := bibtex.New(opts...)
	// Each file alone.
	lists := make([][]string, len(names))
	walks := make([][]string, len(names))
	total := 0
	alone := "ok"
	for i, n := range names {
		var es []bibtex.Entry
		var err error
		o := c.Outcome("alone", budget(len(srcs[n])*4), func() string {
			f := parse(i)
			if f == nil {
				return "no tree"
			}
			walks[i] = walkLog(f)
			es, err = bib.Resolve(f)
			if err != nil {
				return "resolve failed"
			}
			return "ok"
		})
		if crashed(o) || o == "no tree" {
			return
		}
		if o != "ok" {
			alone = o
		}
		for _, e := range es {
			lists[i] = append(lists[i], viewEntries([]bibtex.Entry{e}))
		}
		total += len(es)
	}
	c.mapSeed = x.Seed
	if len(names) > 1 {
		c.Fault("map-order")
	}
	if len(names) > 8 {
		c.Probe("many-files")
	}
	var pkg *ast.Package
	build := func() {
		if x.Via {
			d := c.Disk()
			var paths []string
			for _, n := range names {
				paths = append(paths, d.Put(n, srcs[n]))
			}
			c.Must("ParsePackage", budget(200000+total8(srcs, names)), func() { pkg, _ = parser.ParsePackage(paths, mode) })
			for _, n := range paths {
				os.Remove(n)
			}
			c.Probe("via-disk")
			return
		}
		pkg = &ast.Package{Files: map[string]*ast.File{}}
		for i, n := range names {
			c.Must("ParseFile", budget(len(srcs[n])), func() { pkg.Files[n] = parse(i) })
		}
	}
	build()
	if pkg == nil || len(pkg.Files) != len(names) {
		return // C17's business
	}
	desc := func() string {
		var sb strings.Builder
		for _, n := range names {
			fmt.Fprintf(&sb, "%s: %q\n", n, clip(string(srcs[n]), 400))
		}
		return fmt.Sprintf("mode %d, resolvers %v, map seed %d:\n%s", mode, x.Res, x.Seed, sb.String())
	}
	// Walk.
	seen := map[*ast.File]int{}
	var cur *ast.File
	var log []string
	logs := map[*ast.File][]string{}
	c.Must("Walk", 5_000_000+budget(4*total8(srcs, names)), func() {
		ast.Walk(pkg, func(n ast.Node, enter bool) (ast.WalkStatus, error) {
			if f, ok := n.(*ast.File); ok {
				if enter {
					seen[f]++
					cur, log = f, nil
				} else {
					logs[f] = append(log, fmt.Sprintf("%T false", n))
					cur = nil
					return ast.WalkContinue, nil
				}
			}
			if cur != nil {
				log = append(log, fmt.Sprintf("%T %v", n, enter))
			}
			return ast.WalkContinue, nil
		})
	})
	c.Eval()
	for path, f := range pkg.Files {
		if seen[f] != 1 {
			c.Fail("file-visits", "file %s was visited %d times, %s", path, seen[f], desc())
		}
	}
	for i, n := range names {
		f := pkg.Files[n]
		if x.Via {
			f = pkg.Files[c.Disk().Path(n)]
		}
		if f == nil {
			return
		}
		if strings.Join(logs[f], ";") != strings.Join(walks[i], ";") {
			c.Fail("file-walk", "file %s is walked differently inside the package, %s", n, desc())
		}
	}
	// Resolve.
	var es []bibtex.Entry
	var err error
	c.Must("Resolve", 20_000_000+budget(4*total8(srcs, names)), func() { es, err = bib.Resolve(pkg) })
	c.Eval()
	if alone != "ok" {
		if err == nil {
			c.Fail("package-error", "resolving one of the files fails, resolving the package did not, %s", desc())
		}
		return
	}
	if err != nil {
		c.Fail("package-error", "each file resolves but the package gives %v, %s", err, desc())
	}
	var got []string
	for _, e := range es {
		got = append(got, viewEntries([]bibtex.Entry{e}))
	}
	c.EventU(hstr(strings.Join(got, "\n")))
	if len(got) != total {
		c.Fail("package-count", "%d entries from files with %d, %s", len(got), total, desc())
	}
	if !isMerge(got, lists) {
		c.Fail("package-merge", "the entries are not those of the files, each once and in order:\n%s\n%s", clip(strings.Join(got, ""), 1500), desc())
	}
	if total > 3 && len(names) > 1 {
		c.Probe("several-files-with-entries")
	}
}

// total8 bounds the bytes of the named sources.
func total8(srcs map[string][]byte, names []string) int {
	n := 0
	for _, k := range names {
		n += len(srcs[k])
	}
	return n
}

func walkLog(n ast.Node) []string {
	var out []string
	ast.Walk(n, func(n ast.Node, enter bool) (ast.WalkStatus, error) {
		out = append(out, fmt.Sprintf("%T %v", n, enter))
		return ast.WalkContinue, nil
	})
	return out
}

// isMerge reports whether got is an order-preserving merge of the lists.
func isMerge(got []string, lists [][]string) bool {
	// As many of each, in any case.
	count := map[string]int{}
	for _, g := range got {
		count[g]++
	}
	for _, l := range lists {
		for _, e := range l {
			count[e]--
		}
	}
	for _, n := range count {
		if n != 0 {
			return false
		}
	}
	// Equal lists are interchangeable: a state says how many of each kind have
	// come how far.
	index := map[string]int{}
	var kinds [][]string
	var start [][]int
	for _, l := range lists {
		k := fmt.Sprintf("%q", l)
		i, ok := index[k]
		if !ok {
			i = len(kinds)
			index[k] = i
			kinds = append(kinds, l)
			start = append(start, make([]int, len(l)+1))
		}
		start[i][0]++
	}
	cur := map[string][][]int{"": start}
	for _, g := range got {
		next := map[string][][]int{}
		for _, s := range cur {
			for i, l := range kinds {
				for p := range l {
					if s[i][p] == 0 || l[p] != g {
						continue
					}
					q := append([][]int(nil), s...)
					q[i] = append([]int(nil), s[i]...)
					q[i][p]--
					q[i][p+1]++
					next[fmt.Sprint(q)] = q
				}
			}
		}
		if len(next) == 0 {
			return false
		}
		if len(next) > 2000 {
			return true // too many ways to tell: do not judge
		}
		cur = next
	}
	return true
}

func init() {
	register(&Prop{
		ID: "C19", Level: "exploration",
		Rule:  "a package of up to five files (some identical or empty, under plain and odd paths) walked and resolved under a drawn map order; non-trivial if it has several files",
		New:   func() any { return &c19Case{} },
		Run:   runC19,
		Quick: 260000, Thorough: 6000000, RaceQuick: 2000, RaceThorough: 60000,
		Real: append([]string{"map iteration replaced by a seeded order"}, realTree...), Stub: []string{"disk (some runs)"},
		Faults: []string{"map-order"},
		Probes: []string{"several-files-with-entries", "via-disk", "odd-file-name", "bad-declaration", "partial-tree", "many-files"},
		Valid: func(cs any) bool {
			x := cs.(*c19Case)
			for _, d := range x.Dam {
				if !validDamage(d.D) || d.F < 0 {
					return false
				}
			}
			for _, b := range x.Bad {
				if b < 0 {
					return false
				}
			}
			for i := range x.Docs {
				if !x.Docs[i].Valid() {
					return false
				}
			}
			for _, k := range x.Res {
				if k < 0 || k >= nRes {
					return false
				}
			}
			for _, k := range x.Copy {
				if k < 0 {
					return false
				}
			}
			for _, k := range x.Name {
				if k < 0 {
					return false
				}
			}
			return validMode(x.Mode) && len(x.Copy) <= 310
		},
		Gen: func(r *R, tier Tier) any {
			x := &c19Case{Mode: genMode(r) | int(parser.ParseStrings), Res: genRes(r, 2), Seed: r.U() >> 1, Via: r.P(1, 6)}
			for n := r.N(5); n > 0; n-- {
				x.Docs = append(x.Docs, genDoc(r, docOpts{maxItems: pick(r, 0, 2, 4, 6), authors: r.P(1, 2), distinct: r.P(1, 2), noURL: true}))
			}
			if r.P(1, 4) {
				x.Copy = append(x.Copy, r.N(5))
			}
			if r.P(1, 40) && len(x.Docs) > 0 { // many files, most of them small
				for i := 1; i < len(x.Docs); i++ {
					x.Docs[i].Items = x.Docs[i].Items[:min(i-1, len(x.Docs[i].Items))]
				}
				m := r.In(4, 36)
				if r.P(1, 12) {
					m = pick(r, 60, 130, 300)
				}
				for ; m > 0; m-- {
					x.Copy = append(x.Copy, r.N(len(x.Docs)))
				}
			}
			if r.P(1, 5) {
				x.Bad = append(x.Bad, r.N(60))
			}
			for n := pick(r, 0, 0, 0, 1, 2); n > 0 && len(x.Docs) > 0; n-- {
				i := r.N(len(x.Docs))
				x.Dam = append(x.Dam, DamAt{i, genDamage(r, x.Docs[i].Render())})
			}
			for i := len(x.Docs) + len(x.Copy); i > 0 && r.P(2, 3); i-- {
				x.Name = append(x.Name, r.N(len(pkgNames)))
			}
			return x
		},
	})
}
