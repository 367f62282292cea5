package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

const allModes = 32

var realParse = []string{"parser", "scanner", "ast", "token", "bibtex (Biber)"}
var stubIO = []string{"io.Reader arguments (scripted)", "os file reads (fault hook in package os, real files in a scratch directory)", "standard output"}

// Pad makes a document large so that buffer boundaries are crossed.
type Pad struct {
	N int    `json:"n"`
	W string `json:"w"` // pre val cmt tail
}

// DocCase is a document, how it is enlarged and how its bytes are damaged.
type DocCase struct {
	Doc Doc      `json:"doc"`
	Pad *Pad     `json:"pad,omitempty"`
	Dam []Damage `json:"dam,omitempty"`
}

func (d *DocCase) valid() bool {
	if !d.Doc.Valid() {
		return false
	}
	if d.Pad != nil && (d.Pad.N < 0 || d.Pad.N > 4<<20 || !strings.Contains("pre val cmt tail", d.Pad.W) || d.Pad.W == "") {
		return false
	}
	for _, x := range d.Dam {
		if !validDamage(x) {
			return false
		}
	}
	return true
}

// build renders the case: document as padded, its rendering, damaged bytes.
func (d *DocCase) build() (*Doc, *Rendered, []byte) {
	doc := d.Doc
	if d.Pad != nil {
		doc.Items = append([]Item(nil), doc.Items...)
		n := d.Pad.N
		first := -1
		for i := range doc.Items {
			if doc.Items[i].K == "e" {
				first = i
				break
			}
		}
		switch {
		case d.Pad.W == "val" && first >= 0:
			it := doc.Items[first]
			it.Tags = append(append([]Tag(nil), it.Tags...), Tag{Name: "pad", Val: Val{K: "b", Atoms: []Atom{{K: "w", S: strings.Repeat("x", n)}}}})
			doc.Items[first] = it
		case d.Pad.W == "pre" && len(doc.Items) > 0:
			i := len(doc.Items) / 2
			it := doc.Items[i]
			it.Pre += strings.Repeat("\n ", n/2) + strings.Repeat(" ", n%2)
			doc.Items[i] = it
		case d.Pad.W == "cmt":
			doc.Items = append([]Item{{K: "c", Text: strings.Repeat("y", n)}}, doc.Items...)
		default:
			doc.Tail += strings.Repeat("\n", n)
		}
	}
	r := doc.Render()
	src := r.Src
	for _, x := range d.Dam {
		src = x.apply(src)
	}
	return &doc, r, append([]byte(nil), src...)
}

func (c *Ctx) countDamage(d []Damage) {
	for _, x := range d {
		c.Fault("damage-" + x.K)
	}
}

func genDocCase(r *R, o docOpts, dams int) DocCase {
	var d DocCase
	d.Doc = genDoc(r, o)
	rd := d.Doc.Render()
	for i := 0; i < dams; i++ {
		d.Dam = append(d.Dam, genDamage(r, rd))
	}
	return d
}

func genPad(r *R, have int, big bool) *Pad {
	target := pick(r, 512, 1024, 4096, 8192, 32768, 65536) + r.In(-3, 3)
	if big {
		target = pick(r, 1<<17, 1<<18, 1<<20) + r.In(-2, 2)
	}
	return &Pad{N: max(0, target-have), W: pick(r, "pre", "val", "cmt", "tail")}
}

// ---- C01 ------------------------------------------------------------------

// Source is one way the bytes can reach the parser.
type Source struct {
	Kind string  `json:"kind"`
	Rd   RSpec   `json:"rd"`
	D    *DFault `json:"disk,omitempty"`
	Tr   *TSpec  `json:"trace,omitempty"`
	Base int     `json:"base,omitempty"`
	Bib  bool    `json:"bib,omitempty"`  // through Biber.Parse
	Name string  `json:"name,omitempty"` // name given with the source; "" in.bib
	Nest int     `json:"nest,omitempty"` // at which read the reader itself parses a file it reads, from 1
	Old  bool    `json:"old,omitempty"`  // the carrier held another text of the same length before, which was parsed
}

type c01Case struct {
	D    DocCase  `json:"d"`
	Mode int      `json:"mode"`
	Srcs []Source `json:"srcs"`
}

// sourceNames are names callers give with a source that is not a file.
var sourceNames = []string{"-", "./a.bib", "x/../y.bib", "a//b.bib", "C:\\x.bib", "a b.bib", "ünï.bib", "/abs/../f.bib", "dir/", "%s.bib", "<stdin>", "a\nb.bib", "a:1:2", " ", ".", "\xff.bib"}

var plainKinds = []string{"string", "bytes", "buffer", "buffer2", "file"}

func genSource(r *R, n int) Source {
	s := Source{}
	switch k := r.N(8); {
	case k == 0:
		s.Kind = plainKinds[r.N(4)]
	case k == 1:
		s.Kind = "file"
		if r.P(2, 3) {
			s.D = &DFault{K: pick(r, "short", "stall"), N: pick(r, 1, 2, 7, 100, 511, 4096)}
			if n > 20000 && s.D.N < 100 {
				s.D.N = 100
			}
		}
	default:
		s.Kind = readerKinds[r.N(len(readerKinds))]
		s.Bib = r.P(1, 4)
	}
	s.Rd = genReads(r, n)
	if s.Kind == "sim" && r.P(1, 6) { // others give up after a hundred empty reads
		i := r.N(len(s.Rd.Steps) + 1)
		s.Rd.Steps = append(s.Rd.Steps[:i:i], append([]RStep{{K: "zeros", N: r.In(90, 300)}}, s.Rd.Steps[i:]...)...)
	}
	if r.P(1, 4) {
		s.Name = sourceNames[r.N(len(sourceNames))]
	}
	if n < 5000 && r.P(1, 4) {
		s.Tr = &TSpec{At: r.N(30), K: pick(r, "", "err", "full", "stall")}
	}
	if r.P(1, 3) {
		s.Base = pick(r, 1, 2, 100, 70000)
	}
	s.Old = r.P(1, 8)
	if r.P(1, 10) {
		s.Nest = r.In(1, 3)
	}
	return s
}

func validSource(s *Source, fail bool) bool {
	ok := false
	if s.Nest < 0 {
		return false
	}
	for _, k := range append(append([]string{}, plainKinds...), readerKinds...) {
		ok = ok || k == s.Kind
	}
	if s.D != nil {
		switch s.D.K {
		case "short", "stall":
		case "open", "read":
			if !fail {
				return false
			}
		default:
			return false
		}
		if s.D.Off < 0 || s.D.N < 0 || s.D.Err < 0 {
			return false
		}
	}
	if s.Tr != nil && (s.Tr.At < 0 || !strings.Contains(" err full stall", s.Tr.K)) {
		return false
	}
	for _, st := range s.Rd.Steps {
		if st.K == "zeros" && s.Kind != "sim" {
			return false
		}
	}
	isReader := true
	for _, k := range plainKinds {
		isReader = isReader && k != s.Kind
	}
	return ok && s.Base >= 0 && s.Base < 1<<24 && validRSpec(&s.Rd, fail) && (!s.Bib || isReader)
}

// open prepares the source argument and file name.
func (c *Ctx) open(s *Source, src []byte) (name string, arg any, rd *simReader) {
	own := append([]byte(nil), src...)
	rd = newReader(c, own, s.Rd)
	name = "in.bib"
	if s.Name != "" {
		name = s.Name
	}
	switch s.Kind {
	case "string":
		arg = string(own)
	case "bytes":
		arg = own
	case "buffer":
		arg = bytes.NewBuffer(own)
	case "buffer2":
		b := bytes.NewBuffer(append([]byte("@junk{"), own...))
		b.Next(6)
		arg = b
	case "file":
		d := c.Disk()
		name = d.Put("in.bib", own)
		if s.D != nil {
			f := *s.D
			f.Off = min(f.Off, len(own))
			d.Fail(name, f)
		}
	default:
		arg = asReader(s.Kind, rd)
	}
	return name, arg, rd
}

// other is a text of the same length.
func other(src []byte) []byte {
	out := append([]byte(nil), src...)
	for i, b := range out {
		switch {
		case isLetterB(b) && b != 'z' && b != 'Z':
			out[i]++
		case b >= '0' && b < '9':
			out[i]++
		}
	}
	return out
}

// reopen is open with a carrier that held another text of the same length when
// it was parsed before.
func (c *Ctx) reopen(s *Source, src []byte, mode parser.Mode) (name string, arg any, rd *simReader) {
	old := other(src)
	name, arg, rd = c.open(s, old)
	var set func()
	switch a := arg.(type) {
	case []byte:
		set = func() { copy(a, src) }
	case *bytes.Buffer:
		set = func() { a.Reset(); a.Write(src) }
	case *bytes.Reader:
		set = func() { a.Reset(src) }
	case *strings.Reader:
		set = func() { a.Reset(string(src)) }
	case nil:
		st, err := os.Stat(name)
		if err != nil {
			fatal("%v", err)
		}
		set = func() {
			c.Disk().Put("in.bib", src)
			if err := os.Chtimes(name, st.ModTime(), st.ModTime()); err != nil {
				fatal("%v", err)
			}
		}
	default:
		if s.Kind != "sim" && s.Kind != "len" && s.Kind != "seek" && s.Kind != "writerto" {
			return c.open(s, src)
		}
		set = func() {
			n := newReader(c, append([]byte(nil), src...), s.Rd)
			*rd = *n
		}
	}
	c.Outcome("ParseFile", budget(len(src)), func() string {
		if s.Bib {
			bibtex.New(bibtex.WithParserMode(mode)).Parse(arg.(io.Reader))
		} else {
			parseFileAt(s.Base, name, arg, mode)
		}
		return ""
	})
	set()
	c.Fault("source-replaced")
	return name, arg, rd
}

var innerSrc = []byte("% inner\n@string{i = \"in\"}\n@book{inner, author = {A and B}, title = \"In {N}er\" # i, year = 2001}\n")

func runC01(c *Ctx, cs any) {
	x := cs.(*c01Case)
	doc, rd, src := x.D.build()
	c.countDamage(x.D.Dam)
	bud := budget(len(src))
	mode := parser.Mode(x.Mode) &^ parser.Trace
	if len(src) > 1<<16 {
		c.Probe("large-document")
	}
	refs := map[string]string{}
	ref := func(name string, mode parser.Mode) string {
		k := fmt.Sprint(name, mode)
		if s, ok := refs[k]; ok {
			return s
		}
		s := c.Outcome("parse", bud, func() string { return parseFile(name, string(src), mode).String() })
		refs[k] = s
		return s
	}
	base := ref("in.bib", mode)
	if crashed(base) {
		return // C03's business
	}
	c.EventU(hstr(base))
	if len(x.D.Dam) == 0 {
		c.checkModel(doc, rd, mode)
	}
	for i := range x.Srcs {
		s := &x.Srcs[i]
		m := mode
		if s.Tr != nil {
			m |= parser.Trace
			c.sink(*s.Tr)
		}
		open := c.open
		if s.Old {
			open = func(s *Source, src []byte) (string, any, *simReader) { return c.reopen(s, src, m) }
		}
		name, arg, srd := open(s, src)
		inner := ""
		if s.Nest > 0 {
			srd.onCall = func() {
				if srd.Reads == s.Nest {
					c.Fault("reader-parses")
					inner = parseFile("inner.bib", newReader(c, innerSrc, RSpec{}), m).String()
				}
			}
		}
		var got, want string
		var eof bool
		if s.Bib {
			b := bibtex.New(bibtex.WithParserMode(m))
			got = c.Outcome("Biber.Parse", bud, func() string {
				f, err := b.Parse(arg.(interface{ Read([]byte) (int, error) }))
				return dumpOr(f) + "\nerr: " + errText(err)
			})
			want = c.Outcome("parse", bud, func() string {
				p := parseFile("", string(src), mode)
				if p.Err != nil {
					p.File = nil
				}
				return dumpOr(p.File) + "\nerr: " + errText(p.Err)
			})
		} else {
			got = c.Outcome("ParseFile", bud, func() string { return parseFileAt(s.Base, name, arg, m).String() })
			want = ref(name, mode)
		}
		traceSink = nil
		if inner != "" {
			if want := c.Outcome("parse", bud, func() string { return parseFile("inner.bib", string(innerSrc), mode).String() }); inner != want {
				c.Fail("outcome:nested", "a parse made by the reader of another one in its read %d differs: %s", s.Nest, diffText(want, inner))
			}
		}
		eof = srd.Reads > 0
		c.Eval()
		if eof {
			c.Probe("reader-used")
		}
		if s.Tr != nil {
			c.Probe("traced")
		}
		if s.Kind == "file" {
			delete(c.Disk().faults, name)
			got = strings.ReplaceAll(got, name, "FILE")
			want = strings.ReplaceAll(want, name, "FILE")
		}
		if got != want {
			what := "delivery"
			if s.Tr != nil {
				what = "traced delivery"
			}
			c.Fail("outcome:"+what, "%s of %d bytes as %q (script %+v, trace %+v, bib %v, old %v) differs from parsing the string in mode %d:\n%s", what, len(src), s.Kind, s.Rd, s.Tr, s.Bib, s.Old, mode, diffText(want, got))
		}
	}
}

// checkModel compares the parse of an undamaged document with what the model
// says its tree is.
func (c *Ctx) checkModel(doc *Doc, rd *Rendered, mode parser.Mode) {
	var p *parsed
	o := c.Outcome("parse", budget(len(rd.Src)), func() string {
		p = parseFile("m.bib", string(rd.Src), mode)
		return "ok"
	})
	if crashed(o) {
		c.Fail("model-crash", "parsing a well-formed document: %s\n%s", o, clip(string(rd.Src), 2000))
	}
	if p.Err != nil {
		c.Fail("model-error", "a well-formed document was rejected (mode %d): %v\n%s", mode, errText(p.Err), clip(string(rd.Src), 2000))
	}
	want := doc.Expect(rd, mode&parser.ParseStrings != 0)
	got := DumpDecls(p.File, 1, 0)
	c.Eval()
	if d := diffList(want, got); d != "" {
		c.Fail("model-tree", "tree of a well-formed document differs from what was written (mode %d): %s\n%s", mode, d, clip(string(rd.Src), 2000))
	}
}

func diffList(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "<none>", "<none>"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Sprintf("declaration %d:\n want %s\n got  %s", i, clip(w, 1500), clip(g, 1500))
		}
	}
	return ""
}

func diffText(want, got string) string {
	i := firstDiff([]byte(want), []byte(got))
	if i < 0 {
		return "equal"
	}
	a := max(0, i-200)
	return fmt.Sprintf("first difference at %d\n want ...%s\n got  ...%s", i, clip(want[a:], 600), clip(got[a:], 600))
}

func genMode(r *R) int { return r.N(allModes) &^ int(parser.Trace) }

// genTMode is genMode with tracing turned on now and then.
func genTMode(r *R) int {
	m := genMode(r)
	if r.P(1, 12) {
		m |= int(parser.Trace)
	}
	return m
}

// modeOf is mode m for a source of n bytes: tracing would take long for many.
func modeOf(m, n int) parser.Mode {
	if n > 3000 {
		m &^= int(parser.Trace)
	}
	return parser.Mode(m)
}

func init() {
	register(&Prop{
		ID: "C01", Level: "exploration",
		Rule:  "a generated document (half of them damaged, some padded to buffer boundaries or a megabyte) parsed from the string and through several scripted deliveries; non-trivial if at least one delivery fault (short/empty read, stall, scribble, data with EOF, disk short read, failing trace output) happened",
		New:   func() any { return &c01Case{} },
		Run:   runC01,
		Quick: 100000, Thorough: 1200000, ColdQuick: 8, ColdThorough: 200,
		Real: realParse, Stub: stubIO,
		Faults: []string{"short-read", "empty-read", "stall", "scribble", "data-with-eof", "disk-short-read", "disk-stall", "stdout-error", "stdout-full", "stdout-stall", "source-replaced", "reader-parses"},
		Probes: []string{"large-document", "reader-used", "traced"},
		Valid: func(cs any) bool {
			x := cs.(*c01Case)
			for i := range x.Srcs {
				if !validSource(&x.Srcs[i], false) {
					return false
				}
			}
			return x.D.valid() && x.Mode >= 0 && x.Mode < allModes
		},
		Gen: func(r *R, tier Tier) any {
			x := &c01Case{Mode: genMode(r)}
			dams := 0
			if r.P(1, 2) {
				dams = r.In(1, 2)
			}
			x.D = genDocCase(r, docOpts{maxItems: pick(r, 1, 3, 6)}, dams)
			n := len(x.D.Doc.Render().Src)
			k := 4
			if r.P(1, 12) {
				x.D.Pad = genPad(r, n, r.P(1, 20))
				n += x.D.Pad.N
				if n > 1<<16 {
					k = 2
				}
			}
			for i := 0; i < k; i++ {
				x.Srcs = append(x.Srcs, genSource(r, n))
			}
			return x
		},
	})
}

// ---- C02 ------------------------------------------------------------------

type c02Case struct {
	D    DocCase  `json:"d"`
	Mode int      `json:"mode"`
	Srcs []Source `json:"srcs"`
	// Paths that cannot be read at all: missing, dir, empty name.
	Bad  []string `json:"bad,omitempty"`
	Near bool     `json:"near,omitempty"` // with other files around it
}

func runC02(c *Ctx, cs any) {
	x := cs.(*c02Case)
	_, _, src := x.D.build()
	bud := budget(len(src))
	mode := modeOf(x.Mode, len(src))
	for i := range x.Srcs {
		s := &x.Srcs[i]
		name, arg, rd := c.open(s, src)
		var f *ast.File
		var err error
		what := "ParseFile"
		if s.Bib {
			what = "Biber.Parse"
			b := bibtex.New(bibtex.WithParserMode(mode))
			c.Must(what, bud, func() { f, err = b.Parse(arg.(interface{ Read([]byte) (int, error) })) })
		} else {
			var p *parsed
			c.Must(what, bud, func() { p = parseFileAt(s.Base, name, arg, mode) })
			f, err = p.File, p.Err
		}
		in := rd.Err
		if s.Kind == "file" {
			in = c.Disk().Fired(name)
			delete(c.Disk().faults, name)
		}
		c.Eval()
		c.EventU(hstr(fmt.Sprint(f == nil, err == nil, in == nil)))
		if in == nil {
			// The failure was never reached: only possible if the reader was
			// not drained, which is itself wrong.
			if (rd.spec.Fail > 0 && s.Kind != "file") || s.D != nil && (s.D.K == "open" || s.D.K == "read") {
				c.Fail("failure-not-seen", "%s of %q never reached the failure at %d (of %d bytes); err=%v", what, s.Kind, rd.spec.Fail-1, len(src), err)
			}
			continue
		}
		detail := func() string {
			at := rd.spec.Fail - 1
			if s.Kind == "file" {
				at = s.D.Off
			}
			return fmt.Sprintf("%s from %q, read failed at byte %d of %d with %T %q (script %+v)\n%s", what, s.Kind, at, len(src), in, in, s.Rd, clip(string(src), 1000))
		}
		if f != nil {
			c.Fail("tree-despite-failure", "a tree was returned although reading failed: %s", detail())
		}
		if err == nil {
			c.Fail("failure-lost", "no error was returned although reading failed: %s", detail())
		}
		if !identifies(err, in) {
			c.Fail("failure-not-identified", "the error %T %q does not identify the reader's error: %s", err, err, detail())
		}
	}
	for _, b := range x.Bad {
		d := c.Disk()
		var name string
		var want error
		switch b {
		case "missing":
			name, want = d.Path("missing.bib"), fs.ErrNotExist
			if len(src)%2 == 0 {
				name = d.Path("missing")
			}
			if x.Near {
				d.Decoys(filepath.Base(name))
			}
		case "dir":
			name, want = d.dir, syscall.EISDIR
		case "empty":
			name, want = "", fs.ErrNotExist
		}
		for _, m := range []parser.Mode{mode, mode ^ parser.ParseStrings} {
			var p *parsed
			c.Must("ParseFile", bud, func() { p = parseFile(name, nil, m) })
			c.Eval()
			c.Fault("unreadable-path-" + b)
			if p.File != nil || p.Err == nil || !errors.Is(p.Err, want) {
				c.Fail("unreadable-path", "parsing a path that is %s: tree=%v err=%v, want no tree and %v", b, p.File != nil, p.Err, want)
			}
		}
	}
}

func init() {
	register(&Prop{
		ID: "C02", Level: "fault_enumeration",
		Rule:  "a generated document delivered by a scripted reader, or a file on the simulated disk, whose read fails at a chosen byte with one of 54 error kinds; non-trivial if the failure was delivered to the code",
		New:   func() any { return &c02Case{} },
		Run:   runC02,
		Quick: 600000, Thorough: 6000000, ColdQuick: 4, ColdThorough: 100,
		Real: realParse, Stub: stubIO,
		Faults: []string{"read-error", "read-error-with-data", "open-error", "disk-read-error", "unreadable-path-missing", "unreadable-path-dir", "unreadable-path-empty"},
		Valid: func(cs any) bool {
			x := cs.(*c02Case)
			for i := range x.Srcs {
				if !validSource(&x.Srcs[i], true) {
					return false
				}
				if s := &x.Srcs[i]; s.Kind == "limited" && s.Rd.Fail > 0 {
					if _, _, src := x.D.build(); s.Rd.Fail-1 >= len(src) {
						return false
					}
				}
				for _, st := range x.Srcs[i].Rd.Steps {
					if st.K == "panic" || st.K == "err" {
						return false
					}
				}
			}
			for _, b := range x.Bad {
				if b != "missing" && b != "dir" && b != "empty" {
					return false
				}
			}
			return x.D.valid() && x.Mode >= 0 && x.Mode < allModes
		},
		Gen: func(r *R, tier Tier) any {
			x := &c02Case{Mode: genTMode(r)}
			dams := 0
			if r.P(1, 5) {
				dams = 1
			}
			x.D = genDocCase(r, docOpts{maxItems: pick(r, 0, 1, 3, 6)}, dams)
			if r.P(1, 20) {
				x.D.Pad = genPad(r, len(x.D.Doc.Render().Src), r.P(1, 40))
			}
			_, rd, src := x.D.build()
			n := len(src)
			for i := 0; i < 6; i++ {
				s := genSource(r, n)
				s.Tr = nil
				at := r.N(n + 1)
				switch r.N(6) {
				case 0:
					at = 0
				case 1:
					at = n
				case 2:
					if len(rd.Decls) > 0 {
						at = min(n, rd.Decls[r.N(len(rd.Decls))].E)
					}
				case 3:
					at = min(n, pick(r, 511, 512, 513, 1024, 4096))
				}
				if s.Kind == "file" {
					s.D = &DFault{K: pick(r, "read", "read", "open"), Off: at, Err: r.N(len(errnos))}
				} else {
					if !usesScript(s.Kind) {
						s.Kind = pick(r, "sim", "len", "seek", "bufio", "limited", "primed", "writerto", "chatty")
						s.Bib = r.P(1, 3)
					}
					if s.Kind == "limited" && at >= n {
						s.Kind = "sim" // a limited reader's end comes from the limit
					}
					s.Rd.Fail = 1 + at
					s.Rd.FailD = r.P(1, 2)
					s.Rd.Err = genErr(r, nErrs)
					s.Rd.Rec = r.P(1, 3)
				}
				x.Srcs = append(x.Srcs, s)
			}
			if r.P(1, 10) {
				x.Near = r.P(1, 3)
				x.Bad = append(x.Bad, pick(r, "missing", "dir", "empty"))
			}
			return x
		},
	})
}

// ---- C03 ------------------------------------------------------------------

type c03Case struct {
	D     DocCase `json:"d"`
	Head  string  `json:"head,omitempty"` // before the soup
	Raw   string  `json:"raw,omitempty"`  // token soup instead of a document
	Rep   int     `json:"rep,omitempty"`  // repetitions of Raw
	Tail  string  `json:"tail,omitempty"`
	Modes []int   `json:"modes"`
	Rd    RSpec   `json:"rd"`
}

// linear is the number of steps parsing may take over n bytes: eight times what
// the unchanged code needs on its worst inputs.
func linear(n int) int64 { return 20_000 + 800*int64(n) }

// linearAlloc is the number of bytes parsing may allocate over n bytes: work
// done inside the standard library (copying, growing) does not count as steps.
func linearAlloc(n int) uint64 { return 1<<20 + 1_500*uint64(n) }

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func runC03(c *Ctx, cs any) {
	x := cs.(*c03Case)
	var src []byte
	if x.Rep > 0 || x.Raw != "" {
		src = []byte(x.Head + strings.Repeat(x.Raw, max(1, x.Rep)) + x.Tail)
		for _, d := range x.D.Dam {
			src = d.apply(src)
		}
	} else {
		_, _, src = x.D.build()
	}
	c.countDamage(x.D.Dam)
	if len(src) == 0 {
		c.Probe("empty-input")
	}
	bud := linear(len(src))
	for _, mi := range x.Modes {
		mode := parser.Mode(mi)
		if len(src) > 4000 {
			mode &^= parser.Trace
		}
		c.sink(TSpec{})
		var p *parsed
		rd := newReader(c, src, x.Rd)
		big := len(src) >= 5000
		var a0, a1 uint64
		if big {
			a0 = allocated()
		}
		o := c.Must("ParseFile", bud, func() { p = parseFile("d.bib", rd, mode) })
		if big {
			a1 = allocated() - a0
			if v := a1 / uint64(len(src)); v > c.St.Max["allocated-per-byte ParseFile"] {
				c.St.Max["allocated-per-byte ParseFile"] = v
			}
			if a1 > linearAlloc(len(src)) {
				c.Fail("alloc", "ParseFile allocated %d bytes over %d bytes of input (mode %d):\n%q", a1, len(src), mode, clip(string(src), 500))
			}
			c.Probe("allocation-bounded")
		}
		c.ratio("ParseFile", o.Steps, len(src))
		c.Eval()
		if p.File == nil {
			c.Fail("nil-tree", "ParseFile returned no tree although the bytes were readable (mode %d, err %v):\n%q", mode, p.Err, clip(string(src), 1000))
		}
		if s, nils := Dump(p.File, 2, 0); len(nils) > 0 {
			c.Fail("nil-child", "the tree has a nil child at %v (mode %d, err %v):\n%s\n%q", nils, mode, errText(p.Err), clip(s, 2000), clip(string(src), 1000))
		} else {
			c.EventU(hstr(s))
		}
		if p.Err != nil {
			c.Probe("rejected")
		} else {
			c.Probe("accepted")
		}
		b := bibtex.New(bibtex.WithParserMode(mode))
		rd = newReader(c, src, x.Rd)
		var f *ast.File
		var err error
		c.Must("Biber.Parse", bud, func() { f, err = b.Parse(rd) })
		if (f == nil) != (err != nil) {
			c.Fail("tree-and-error", "Biber.Parse returned tree=%v and err=%v (mode %d):\n%q", f != nil, err, mode, clip(string(src), 1000))
		}
		if (err == nil) != (p.Err == nil) {
			c.Fail("biber-differs", "Biber.Parse err=%v but ParseFile err=%v (mode %d):\n%q", err, p.Err, mode, clip(string(src), 1000))
		}
	}
	traceSink = nil
	vals := []string{string(src)}
	if n := len(src); n > 2 {
		if i := bytes.IndexByte(src, '{'); i >= 0 {
			vals = append(vals, string(src[i:]))
		}
		if i := bytes.IndexByte(src, '"'); i >= 0 {
			vals = append(vals, string(src[i:]))
		}
		if i := bytes.IndexByte(src, '='); i >= 0 {
			vals = append(vals, strings.TrimSpace(string(src[i+1:])))
		}
	}
	for _, v := range vals {
		var e ast.Expr
		var err error
		o := c.Must("ParseExpr", linear(len(v)), func() { e, err = parser.ParseExpr(v) })
		c.ratio("ParseExpr", o.Steps, len(v))
		c.Eval()
		if err == nil {
			if isNil(e) {
				c.Fail("expr-nil", "ParseExpr(%q) returned neither an expression nor an error", clip(v, 500))
			}
			if s, nils := Dump(e, 2, 0); len(nils) > 0 {
				c.Fail("nil-child", "ParseExpr(%q) returned a nil child at %v: %s", clip(v, 500), nils, clip(s, 1000))
			}
			c.Probe("expr-accepted")
		}
	}
	for m := 0; m < 4; m++ {
		var out string
		o := c.Must("Scan", linear(len(src))*2, func() { out = scanAll(src, scanner.Mode(m)) })
		c.ratio("Scan", o.Steps, len(src))
		c.Eval()
		if strings.HasSuffix(out, "NO-EOF") {
			c.Fail("scan-no-eof", "the tokenizer returned %d tokens from %d bytes without reaching the end:\n%q\n%s", 3*len(src)+50, len(src), clip(string(src), 500), clip(out, 1000))
		}
	}
}

var soup = []string{"@article", "@string", "@preamble", "@comment", "@", "{", "}", "(", ")", "\"", "=", ",", "#", "key", "title", "url", "12", " ", "\n", "%", "\\", "\\'", "\\'{", "\\c ", "\\\"", "\\^", "\\url{", "\\emph", "\\,", "$", "~", "é", "\x00", "\xff", "\xef\xbb\xbf", "author", "and", "{x}", "\"x\"", "={", "=\"", "@a{", "@book{k,", "http://x", "\\{", "\\}", "\\$", "@string{a=", "\r\n", "\t", "|", "'", "-"}

// tails are what a stream can end with.
var tails = []string{"% c\r", "%\r", "%", "% c\r\n", "% \xc3", "\r", "\n", "@", "@a", "@ab", "@ab{", "@ab{b", "@ab{b,", "@ab{b, c", "@ab{b, c=", "@ab{b, c={", "@ab{b, c=\"", "@ab(", "@string{", "@string{ab", "@string{ab=", "@preamble{", "@comment", "@comment{", "#", "1#", "a #", "=", "{", "{{", "\"{", "\\", "\\'", "\\'{", "\\'{e", "\\' ", "\\c", "\\c ", "\\c{", "\\\"", "\\u", "\\url", "\\url{", "\\url{h", "\\url{h ", "\\href{h}{", "$", "$x", "$x\\", "~", ",", "\xc3", "\xe2\x82", "\xef\xbb", "\x00", "-", "--"}

// units are what input can consist of entirely.
var units = []string{"%\n", "% x\n", "%", "{", "}", "{}", "(", ")", "a,", "a=1,", "a={x},", "a=\"x\",", "\"", "=", ",", "#", "#a", "a#", "1 # ", "@", "@ab", "@ab{", "@ab{b}", "@ab{b}\n", "@ab{b,", "@string{ab=1}", "@preamble{\"\"}", " ", "\n", " \n", "\r\n", "\t", "\\", "\\'", "\\'{", "\\'e", "\\{", "\\a", "\\ab ", "\\url{", "$", "$x$", "~", "a", "a ", "9", "é", "\xff", "\x00", "\xef\xbb\xbf", " and ", "a, b and ", "{a} ", "--", "a-"}

func init() {
	register(&Prop{
		ID: "C03", Level: "exploration",
		Rule:  "a damaged document, or a soup of tokens (some repeated to a hundred kilobytes), given to every parsing entry point in several modes; non-trivial if bytes were damaged or delivered with faults",
		New:   func() any { return &c03Case{} },
		Run:   runC03,
		Quick: 120000, Thorough: 4000000,
		Real: realParse, Stub: stubIO,
		Faults: []string{"damage-cut", "damage-flip", "damage-drop", "damage-dup", "damage-swap", "damage-set", "damage-ins", "damage-enc"},
		Probes: []string{"rejected", "accepted", "expr-accepted", "empty-input"},
		Valid: func(cs any) bool {
			x := cs.(*c03Case)
			for _, m := range x.Modes {
				if m < 0 || m >= allModes {
					return false
				}
			}
			return x.D.valid() && validRSpec(&x.Rd, false) && x.Rep >= 0 && x.Rep*len(x.Raw) < 1<<20
		},
		Gen: func(r *R, tier Tier) any {
			x := &c03Case{}
			for i := 0; i < 3; i++ {
				x.Modes = append(x.Modes, r.N(allModes))
			}
			if r.P(1, 8) { // the default mode matters most
				x.Modes[0] = int(parser.ParseStrings)
			}
			size := 0
			n := r.N(4)
			if r.P(1, 12) {
				n = 9
			}
			switch n {
			case 9: // one thing over and over
				x.Raw = units[r.N(len(units))]
				if r.P(1, 3) {
					x.Raw += units[r.N(len(units))]
				}
				if r.P(1, 2) {
					x.Head = pick(r, "@a{k, title={", "@book{k, author=\"", "@string{ab=", "@preamble{\"", "@misc{k, url={", "@misc{", "@misc{k, ", "@article(k, x=", "@misc{k, x=a", "@misc{k, url=", "@misc{k, author=", "%", "\\")
				}
				x.Rep = pick(r, 500, 500, 3000, 3000, 20000) / len(x.Raw)
				if r.P(1, 40) {
					x.Rep = 100000 / len(x.Raw)
				}
				if r.P(1, 2) {
					x.Tail = pick(r, "}", "\"", "}}", "\"}", "},y=1}\n@b{c}", "\\", "\\c ", "@book{k, a=1}")
				}
				size = len(x.Head) + len(x.Raw)*x.Rep + len(x.Tail)
			case 0:
				n := r.In(1, 14)
				var sb strings.Builder
				for i := 0; i < n; i++ {
					sb.WriteString(soup[r.N(len(soup))])
				}
				x.Raw = sb.String()
				if r.P(1, 12) {
					x.Rep = r.In(1, max(1, pick(r, 500, 3000, 20000)/len(x.Raw)))
				}
				if r.P(1, 3) {
					x.Tail = soup[r.N(len(soup))] + soup[r.N(len(soup))]
				} else if r.P(1, 3) {
					x.Tail = tails[r.N(len(tails))]
				}
				size = len(x.Raw)*max(1, x.Rep) + len(x.Tail)
			case 1: // a declaration opened, then soup
				var sb strings.Builder
				sb.WriteString(pick(r, "@a{k, title={", "@book{k, author=\"", "@string{a=", "@preamble{\"", "@misc{k, url={", "@misc{k, url=\"", "@article(k, x={"))
				n := r.In(1, 12)
				for i := 0; i < n; i++ {
					sb.WriteString(soup[r.N(len(soup))])
				}
				x.Raw = sb.String()
				x.Tail = pick(r, "", "}", "\"", "}}", "\"}", "},y=1}\n@b{c}", "\\", "\\c ")
				if r.P(1, 2) {
					x.Tail += tails[r.N(len(tails))]
				}
				size = len(x.Raw)
			default:
				x.D = genDocCase(r, docOpts{maxItems: pick(r, 1, 2, 4)}, r.In(1, 3))
				size = len(x.D.Doc.Render().Src)
			}
			x.Rd = genReads(r, size)
			if r.P(1, 2) {
				x.Rd = RSpec{}
			}
			return x
		},
	})
}

// ---- C04 ------------------------------------------------------------------

type c04Case struct {
	D     DocCase `json:"d"`
	Cuts  []int   `json:"cuts"` // offsets; -1 means every offset
	Modes []int   `json:"modes"`
	Src   Source  `json:"src"`
}

func runC04(c *Ctx, cs any) {
	x := cs.(*c04Case)
	_, rd, full := x.D.build()
	inside := func(o int) bool {
		for _, d := range rd.Decls {
			if o > d.S && o < d.E {
				return true
			}
		}
		return false
	}
	cuts := x.Cuts
	if len(cuts) == 1 && cuts[0] == -1 {
		cuts = nil
		for o := range full {
			cuts = append(cuts, o)
		}
	}
	for _, o := range cuts {
		if o > len(full) || !inside(o) {
			continue
		}
		src := full[:o]
		c.Fault("damage-cut")
		for _, mi := range x.Modes {
			mode := modeOf(mi, len(src))
			s := x.Src
			name, arg, _ := c.open(&s, src)
			var p *parsed
			out := c.Outcome("ParseFile", budget(len(src)), func() string { p = parseFile(name, arg, mode); return "ok" })
			c.Eval()
			if crashed(out) {
				continue // neither a tree nor success: C03's business
			}
			if p.Err == nil {
				c.Fail("truncated-accepted", "ParseFile (mode %d, from %q) accepted a stream cut inside a declaration:\n%q\ntree: %s", mode, s.Kind, clip(string(src), 1500), clip(dumpOr(p.File), 1500))
			}
			b := bibtex.New(bibtex.WithParserMode(mode))
			var f *ast.File
			var err error
			out = c.Outcome("Biber.Parse", budget(len(src)), func() string {
				f, err = b.Parse(newReader(c, src, s.Rd))
				return "ok"
			})
			if !crashed(out) && (f != nil || err == nil) {
				c.Fail("truncated-tree", "Biber.Parse (mode %d) returned tree=%v err=%v for a stream cut inside a declaration:\n%q", mode, f != nil, err, clip(string(src), 1500))
			}
		}
	}
	// Cutting between declarations is fine; the check above must not be blind.
	for i, d := range rd.Decls {
		if i%2 == len(rd.Decls)%2 {
			var p *parsed
			out := c.Outcome("ParseFile", budget(d.E), func() string { p = parseFile("x", string(full[:d.E]), parser.ParseStrings); return "ok" })
			if !crashed(out) && p.Err == nil {
				c.Probe("cut-between-accepted")
			}
		}
	}
}

func init() {
	register(&Prop{
		ID: "C04", Level: "fault_enumeration",
		Rule:  "a generated document cut at every byte (small ones) or at bytes around its tokens, in several modes and source kinds; non-trivial if the cut fell inside a declaration",
		New:   func() any { return &c04Case{} },
		Run:   runC04,
		Quick: 100000, Thorough: 1500000,
		Real: realParse, Stub: stubIO,
		Faults: []string{"damage-cut"}, Probes: []string{"cut-between-accepted"},
		Valid: func(cs any) bool {
			x := cs.(*c04Case)
			for _, m := range x.Modes {
				if m < 0 || m >= allModes {
					return false
				}
			}
			for _, o := range x.Cuts {
				if o < -1 {
					return false
				}
			}
			return x.D.valid() && len(x.D.Dam) == 0 && validSource(&x.Src, false)
		},
		Gen: func(r *R, tier Tier) any {
			x := &c04Case{}
			x.D = genDocCase(r, docOpts{maxItems: pick(r, 1, 1, 3), needBib: true}, 0)
			if r.P(1, 60) {
				x.D.Pad = genPad(r, len(x.D.Doc.Render().Src), false)
			}
			rd := x.D.Doc.Render()
			x.Modes = []int{genTMode(r)}
			if r.P(1, 2) {
				x.Modes = append(x.Modes, int(parser.ParseStrings))
			}
			x.Src = genSource(r, len(rd.Src))
			x.Src.Tr, x.Src.Bib = nil, false
			if r.P(3, 4) {
				x.Src = Source{Kind: "string"}
			}
			if len(rd.Src) < 200 && x.D.Pad == nil && r.P(1, 2) {
				x.Cuts = []int{-1}
				x.Modes = x.Modes[:1]
				return x
			}
			_, rd, src := x.D.build()
			for i := 0; i < 12; i++ {
				o := r.N(len(src) + 1)
				if len(rd.Decls) > 0 && r.P(3, 4) {
					d := rd.Decls[r.N(len(rd.Decls))]
					switch {
					case r.P(1, 3):
						o = d.E - r.In(1, 3)
					case len(d.Strs) > 0 && r.P(1, 2):
						s := d.Strs[r.N(len(d.Strs))]
						o = s.S + r.N(s.E-s.S+1)
					case len(d.Toks) > 0:
						t := d.Toks[r.N(len(d.Toks))]
						o = pick(r, t.S, t.E, t.S+1)
					}
				}
				x.Cuts = append(x.Cuts, max(0, o))
			}
			return x
		},
	})
}

// ---- C05 ------------------------------------------------------------------

type c05Case struct {
	D    DocCase  `json:"d"` // without damage
	Dams []Damage `json:"dams"`
	Mode int      `json:"mode"`
	Src  Source   `json:"src"`
}

func limited(p *parsed, mode parser.Mode) bool {
	return mode&parser.AllErrors == 0 && len(errList(p.Err)) > 10
}

func runC05(c *Ctx, cs any) {
	x := cs.(*c05Case)
	doc, rd, full := x.D.build()
	mode := modeOf(x.Mode, len(full))
	model := doc.Expect(rd, mode&parser.ParseStrings != 0)
	var ref []string
	out := c.Outcome("parse", budget(len(full)), func() string {
		p := parseFile("in.bib", string(full), mode)
		ref = DumpDecls(p.File, 2, 0)
		return "ok"
	})
	if crashed(out) {
		return
	}
	for _, dam := range x.Dams {
		src := dam.apply(full)
		d := firstDiff(full, src)
		if d < 0 {
			continue
		}
		c.Fault("damage-" + dam.K)
		var p *parsed
		name, arg, _ := c.open(&x.Src, src)
		if x.Src.Kind == "file" {
			name = c.Disk().Path("in.bib")
		}
		out := c.Outcome("ParseFile", budget(len(src)), func() string { p = parseFile(name, arg, mode); return "ok" })
		if crashed(out) || p.File == nil || limited(p, mode) {
			c.Probe("error-limit")
			continue
		}
		l1, l2 := DumpDecls(p.File, 1, 0), DumpDecls(p.File, 2, 0)
		n := 0
		for i, it := range rd.Decls {
			if it.E > d {
				break
			}
			n++
			c.Eval()
			if i >= len(l1) {
				c.Fail("declaration-lost", "declaration %d ended at byte %d, before the damage at %d (%+v), but is missing from the tree (mode %d, err %s):\n%q", i, it.E, d, dam, mode, errText(p.Err), clip(string(src), 1500))
			}
			if l1[i] != model[i] {
				c.Fail("declaration-changed", "declaration %d ended at byte %d, before the damage at %d (%+v), but changed (mode %d):\n want %s\n got  %s\n%q", i, it.E, d, dam, mode, clip(model[i], 1000), clip(l1[i], 1000), clip(string(src), 1500))
			}
			if i < len(ref) && l2[i] != ref[i] {
				c.Fail("declaration-differs", "declaration %d ended at byte %d, before the damage at %d (%+v), but differs from the undamaged parse (mode %d):\n want %s\n got  %s\n%q", i, it.E, d, dam, mode, clip(ref[i], 1000), clip(l2[i], 1000), clip(string(src), 1500))
			}
		}
		if n > 0 {
			c.Probe("prefix-compared")
		}
	}
}

func validMode(m int) bool { return m >= 0 && m < allModes }

func init() {
	register(&Prop{
		ID: "C05", Level: "exploration",
		Rule:  "a generated document damaged or cut at one place, eight places per run; non-trivial if the bytes changed",
		New:   func() any { return &c05Case{} },
		Run:   runC05,
		Quick: 300000, Thorough: 4000000,
		Real: realParse, Stub: stubIO,
		Faults: []string{"damage-cut", "damage-flip", "damage-drop", "damage-dup", "damage-swap", "damage-set", "damage-ins", "damage-enc"},
		Probes: []string{"prefix-compared"},
		Valid: func(cs any) bool {
			x := cs.(*c05Case)
			for _, d := range x.Dams {
				if !validDamage(d) {
					return false
				}
			}
			return x.D.valid() && len(x.D.Dam) == 0 && validMode(x.Mode) && validSource(&x.Src, false)
		},
		Gen: func(r *R, tier Tier) any {
			x := &c05Case{Mode: genTMode(r)}
			x.D = genDocCase(r, docOpts{maxItems: pick(r, 2, 4, 8), needBib: true}, 0)
			if r.P(1, 60) {
				x.D.Pad = genPad(r, len(x.D.Doc.Render().Src), false)
			}
			_, rd, src := x.D.build()
			for i := 0; i < 8; i++ {
				x.Dams = append(x.Dams, genDamage(r, rd))
			}
			x.Src = Source{Kind: "string"}
			if r.P(1, 4) {
				x.Src = genSource(r, len(src))
				x.Src.Tr, x.Src.Bib = nil, false
			}
			return x
		},
	})
}

// ---- C06 ------------------------------------------------------------------

// Nick is damage to one token of one declaration, outside string values.
type Nick struct {
	I  int    `json:"i"`
	T  int    `json:"t"`
	Op string `json:"op"` // del sub dup ins
	S  string `json:"s,omitempty"`
}

type c06Case struct {
	D     DocCase `json:"d"`
	Nicks []Nick  `json:"nicks"`
	Multi []Nick  `json:"multi,omitempty"` // all in one document, far from each other
	Mode  int     `json:"mode"`
}

const c06Gap = 3

var nickJunk = []string{",", "=", "}", ")", "(", "#", "foo", "12", "@xy", "%%\n", ";", ",,", "= =", "})"}

// at says which bytes of which declaration are replaced by what.
func (n Nick) at(rd *Rendered) (decl, lo, hi int, mid string, ok bool) {
	if len(rd.Decls) == 0 {
		return 0, 0, 0, "", false
	}
	decl = n.I % len(rd.Decls)
	d := rd.Decls[decl]
	var toks []Tok
	for _, t := range d.Toks {
		str := false
		for _, s := range d.Strs {
			if s.S < t.E && t.S < s.E {
				str = true
			}
		}
		if !str && t.K != "after" {
			toks = append(toks, t)
		}
	}
	for _, sp := range d.Strs {
		if rd.Src[sp.S] == '"' {
			return 0, 0, 0, "", false // a stray quote may reach to the next quote
		}
	}
	if len(toks) == 0 {
		return 0, 0, 0, "", false
	}
	t := toks[n.T%len(toks)]
	switch n.Op {
	case "del":
	case "sub":
		mid = n.S
	case "dup":
		mid = string(rd.Src[t.S:t.E]) + string(rd.Src[t.S:t.E])
	case "ins":
		mid = n.S + string(rd.Src[t.S:t.E])
	default:
		return 0, 0, 0, "", false
	}
	return decl, t.S, t.E, mid, mid != string(rd.Src[t.S:t.E])
}

func runC06(c *Ctx, cs any) {
	x := cs.(*c06Case)
	doc, rd, _ := x.D.build()
	mode := modeOf(x.Mode, len(rd.Src))
	model := doc.Expect(rd, mode&parser.ParseStrings != 0)
	for _, n := range x.Nicks {
		x.check(c, rd, model, mode, []Nick{n})
	}
	if len(x.Multi) > 0 {
		c.Probe("several-places")
		x.check(c, rd, model, mode, x.Multi)
	}
}

func (x *c06Case) check(c *Ctx, rd *Rendered, model []string, mode parser.Mode, nicks []Nick) {
	type hit struct {
		op           string
		decl, lo, hi int
		mid          string
	}
	var hits []hit
	for _, n := range nicks {
		decl, lo, hi, mid, ok := n.at(rd)
		for _, h := range hits {
			ok = ok && (decl > h.decl+c06Gap || decl < h.decl-c06Gap)
		}
		if ok {
			hits = append(hits, hit{n.Op, decl, lo, hi, mid})
		}
	}
	if len(hits) == 0 {
		return
	}
	sort.Slice(hits, func(i, j int) bool { return hits[i].decl < hits[j].decl })
	var src []byte
	prev := 0
	for _, h := range hits {
		src = append(append(src, rd.Src[prev:h.lo]...), h.mid...)
		prev = h.hi
		c.Fault("token-" + h.op)
	}
	src = append(src, rd.Src[prev:]...)
	var p *parsed
	out := c.Outcome("ParseFile", budget(len(src)), func() string { p = parseFile("in.bib", string(src), mode); return "ok" })
	if crashed(out) || p.File == nil || limited(p, mode) {
		c.Probe("error-limit")
		return
	}
	if p.Err != nil {
		c.Probe("damage-noticed")
	}
	at := map[int]int{}
	for _, e := range p.File.Entries {
		switch e.(type) {
		case *ast.BibDecl, *ast.AbbrevDecl, *ast.PreambleDecl:
			at[int(e.Pos())-1]++
		}
	}
	for pos, k := range at {
		if k > 1 {
			c.Fail("duplicated", "%d declarations of the tree start at byte %d (nicks %+v, mode %d):\n%q", k, pos, nicks, mode, clip(string(src), 1500))
		}
	}
	delta, decl := 0, -100
	var got map[string]int
	for j := range rd.Decls {
		if len(hits) > 0 && hits[0].decl == j {
			delta += len(hits[0].mid) - (hits[0].hi - hits[0].lo)
			decl = j
			hits = hits[1:]
			got = nil
		}
		if j < decl+c06Gap {
			continue
		}
		if got == nil {
			got = map[string]int{}
			for _, e := range p.File.Entries {
				s, _ := Dump(e, 1, delta)
				got[s]++
			}
		}
		c.Eval()
		if decl >= 0 {
			c.Probe("later-compared")
		}
		if got[model[j]] == 0 {
			c.Fail("not-resynchronised", "declaration %d is missing or changed after damage to declaration %d (nicks %+v, mode %d, err %s):\n want %s\n got  %s\n%q", j, decl, nicks, mode, errText(p.Err), clip(model[j], 1000), clip(strings.Join(DumpDecls(p.File, 1, delta), "\n      "), 2000), clip(string(src), 1500))
		}
		if got[model[j]] > 1 {
			c.Fail("duplicated", "declaration %d appears %d times after damage to declaration %d (nicks %+v)", j, got[model[j]], decl, nicks)
		}
	}
}

// wordsOnly reports whether the values of the document are plain words.
func wordsOnly(d *Doc) bool {
	var ok func(v *Val) bool
	ok = func(v *Val) bool {
		for i := range v.Parts {
			if !ok(&v.Parts[i]) {
				return false
			}
		}
		for _, a := range v.Atoms {
			switch a.K {
			case "w":
				for j := 0; j < len(a.S); j++ {
					if !isLetterB(a.S[j]) && (a.S[j] < '0' || a.S[j] > '9') {
						return false
					}
				}
			case "s", ",":
			default:
				return false
			}
		}
		return true
	}
	for i := range d.Items {
		it := &d.Items[i]
		if it.Val != nil && !ok(it.Val) || strings.Contains(strings.Join(it.Keys, ""), "$") {
			return false
		}
		for j := range it.Tags {
			if strings.Contains(it.Tags[j].Name, "$") || !ok(&it.Tags[j].Val) || strings.ContainsAny(it.Tags[j].Cmt, "{}\"@\\$") {
				return false
			}
			if it.Tags[j].Name == "url" {
				return false
			}
		}
	}
	return true
}

// plainWords rewrites a document's values to plain words.
func plainWords(r *R, d *Doc) {
	var fix func(v *Val)
	fix = func(v *Val) {
		for i := range v.Parts {
			fix(&v.Parts[i])
		}
		for i := range v.Atoms {
			a := &v.Atoms[i]
			if a.K != "s" && a.K != "," {
				*a = Atom{K: "w", S: pick(r, "word", "a", "Title", "x1", "42", "and")}
			}
		}
	}
	for i := range d.Items {
		it := &d.Items[i]
		if it.Val != nil {
			fix(it.Val)
		}
		for j := range it.Keys {
			it.Keys[j] = strings.ReplaceAll(it.Keys[j], "$", "+")
		}
		for j := range it.Tags {
			it.Tags[j].Name = strings.ReplaceAll(it.Tags[j].Name, "$", "+")
			if it.Tags[j].Name == "url" {
				it.Tags[j].Name = "note"
			}
			fix(&it.Tags[j].Val)
			if strings.ContainsAny(it.Tags[j].Cmt, "{}\"@\\$") {
				it.Tags[j].Cmt = " note"
			}
		}
	}
}

func init() {
	register(&Prop{
		ID: "C06", Level: "exploration",
		Rule:  "a generated document of which one punctuation token or name of one declaration is lost, replaced, doubled or preceded by junk, ten nicks per run, now and then several at once in declarations far from each other; non-trivial if the bytes changed",
		New:   func() any { return &c06Case{} },
		Run:   runC06,
		Quick: 450000, Thorough: 6000000,
		Real: realParse, Stub: stubIO,
		Faults: []string{"token-del", "token-sub", "token-dup", "token-ins"},
		Probes: []string{"later-compared", "damage-noticed", "several-places"},
		Valid: func(cs any) bool {
			x := cs.(*c06Case)
			for _, n := range append(append([]Nick(nil), x.Nicks...), x.Multi...) {
				if n.I < 0 || n.T < 0 {
					return false
				}
				if n.Op == "sub" || n.Op == "ins" {
					ok := false
					for _, j := range nickJunk {
						ok = ok || j == n.S
					}
					if !ok {
						return false
					}
				}
			}
			return x.D.valid() && wordsOnly(&x.D.Doc) && len(x.D.Dam) == 0 && x.D.Pad == nil && validMode(x.Mode)
		},
		Gen: func(r *R, tier Tier) any {
			x := &c06Case{Mode: genTMode(r)}
			x.D = genDocCase(r, docOpts{maxItems: pick(r, 4, 6, 9), needBib: true, noURL: true}, 0)
			for len(x.D.Doc.Items) < 3 {
				g := &docGen{r: r, o: docOpts{noURL: true}}
				x.D.Doc.Items = append(x.D.Doc.Items, g.entry())
			}
			multi := r.P(1, 4)
			for n := r.In(8, 24); multi && len(x.D.Doc.Items) < n; {
				g := &docGen{r: r, o: docOpts{noURL: true}}
				x.D.Doc.Items = append(x.D.Doc.Items, g.entry())
			}
			plainWords(r, &x.D.Doc)
			nick := func() Nick {
				n := Nick{I: r.N(len(x.D.Doc.Items)), T: r.N(30), Op: pick(r, "del", "del", "sub", "dup", "ins")}
				if n.Op == "sub" || n.Op == "ins" {
					n.S = nickJunk[r.N(len(nickJunk))]
				}
				return n
			}
			for i := 0; i < 10; i++ {
				x.Nicks = append(x.Nicks, nick())
			}
			if multi {
				x.Nicks = x.Nicks[:3]
				for i := r.In(2, 8); i > 0; i-- {
					x.Multi = append(x.Multi, nick())
				}
			}
			return x
		},
	})
}

// ---- C07 ------------------------------------------------------------------

type c07Case struct {
	D    DocCase  `json:"d"`
	Name int      `json:"name,omitempty"` // of fileNames, for sources that are not files
	Dams []Damage `json:"dams"`
	Mode int      `json:"mode"`
	Src  Source   `json:"src"`
}

var fileNames = []string{"x.bib", "", "-", ".", "..", "/", "a/../b.bib", "./x.bib", "dir/", "a b.bib", " x", "x:1:2", "é.bib", "\xff.bib", "C:\\x\\y.bib", "http://x/y", "<stdin>", "x.bib\n", "%s%d.bib", strings.Repeat("n", 5000)}

func runC07(c *Ctx, cs any) {
	x := cs.(*c07Case)
	_, rd, full := x.D.build()
	mode := modeOf(x.Mode, len(full))
	check := func(src []byte, dam *Damage) {
		d := -1
		if dam != nil {
			if d = firstDiff(full, src); d < 0 {
				return
			}
			c.Fault("damage-" + dam.K)
		}
		var p *parsed
		name, arg, _ := c.open(&x.Src, src)
		if x.Src.Kind != "file" && x.Name > 0 {
			name = fileNames[x.Name%len(fileNames)]
		}
		out := c.Outcome("ParseFile", budget(len(src)), func() string { p = parseFileAt(x.Src.Base, name, arg, mode); return "ok" })
		c.Eval()
		if crashed(out) {
			return
		}
		if d < 0 {
			if p.Err != nil {
				c.Fail("diagnostic-without-damage", "an undamaged document produced %s (mode %d):\n%q", errText(p.Err), mode, clip(string(src), 1500))
			}
			return
		}
		if p.Err == nil {
			return
		}
		l := errList(p.Err)
		if len(l) == 0 {
			c.Fail("no-diagnostics", "a syntax error carries no list of diagnostics: %T %v", p.Err, p.Err)
		}
		c.Probe("diagnosed")
		// No diagnostic before the damaged declaration.
		bound := 0
		for _, it := range rd.Decls {
			if it.E <= d {
				bound = it.E
			} else if it.S < d {
				bound = it.S
			}
		}
		prev := -1
		for _, e := range l {
			detail := func() string {
				return fmt.Sprintf("%+v\n damage %+v at byte %d of %d, mode %d: %s\n%q", *e, *dam, d, len(full), mode, strings.ReplaceAll(errText(p.Err), name, "FILE"), clip(string(src), 1500))
			}
			if e.Pos.Filename != name {
				c.Fail("wrong-file", "diagnostic names file %q, want %q: %s", e.Pos.Filename, name, detail())
			}
			o := e.Pos.Offset
			if o < 0 || o > len(src) {
				c.Fail("outside", "diagnostic lies outside the delivered bytes: %s", detail())
			}
			if o < prev {
				c.Fail("unsorted", "diagnostics are not sorted by position: %s", detail())
			}
			prev = o
			line := 1 + bytes.Count(src[:o], []byte("\n"))
			col := o - bytes.LastIndexByte(src[:o], '\n')
			ok := e.Pos.Line == line && e.Pos.Column == col
			if !ok && o == len(src) && o > 0 && src[o-1] == '\n' {
				// The end of the stream may count as the end of its last line.
				l2 := line - 1
				c2 := o - bytes.LastIndexByte(src[:o-1], '\n')
				ok = e.Pos.Line == l2 && e.Pos.Column == c2
			}
			if !ok {
				c.Fail("line-column", "line and column do not agree with the offset (%d:%d): %s", line, col, detail())
			}
			if o < bound {
				c.Fail("before-damage", "diagnostic lies before byte %d, where the damaged declaration starts: %s", bound, detail())
			}
		}
	}
	check(full, nil)
	for i := range x.Dams {
		check(x.Dams[i].apply(full), &x.Dams[i])
	}
}

func init() {
	register(&Prop{
		ID: "C07", Level: "exploration",
		Rule:  "a generated document parsed whole and then damaged at eight places; non-trivial if the bytes changed",
		New:   func() any { return &c07Case{} },
		Run:   runC07,
		Quick: 600000, Thorough: 8000000,
		Real: realParse, Stub: stubIO,
		Faults: []string{"damage-cut", "damage-flip", "damage-drop", "damage-dup", "damage-swap", "damage-set", "damage-ins", "damage-enc"},
		Probes: []string{"diagnosed"},
		Valid: func(cs any) bool {
			x := cs.(*c07Case)
			for _, d := range x.Dams {
				if !validDamage(d) {
					return false
				}
			}
			return x.D.valid() && len(x.D.Dam) == 0 && validMode(x.Mode) && validSource(&x.Src, false) && x.Name >= 0
		},
		Gen: func(r *R, tier Tier) any {
			x := &c07Case{Mode: genTMode(r)}
			x.D = genDocCase(r, docOpts{maxItems: pick(r, 1, 3, 6)}, 0)
			_, rd, src := x.D.build()
			for i := 0; i < 8; i++ {
				x.Dams = append(x.Dams, genDamage(r, rd))
			}
			x.Src = Source{Kind: "string", Base: pick(r, 0, 1, 500)}
			if r.P(1, 4) {
				x.Src = genSource(r, len(src))
				x.Src.Tr, x.Src.Bib = nil, false
			}
			if r.P(1, 3) {
				x.Name = r.N(len(fileNames))
			}
			return x
		},
	})
}

var _ = os.Stdout
var _ = token.EOF
