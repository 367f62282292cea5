// Command instrument writes a `go build -overlay` description that compiles the
// code under test with the simulator's seams: a yield before every statement,
// cooperative sync, scheduled goroutines and channels, seeded map order, and a
// fault hook in os file I/O. It works from the current source text, whatever it
// is, and changes nothing on disk outside -out.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"bibsim/simrt"
)

type edit struct {
	off, end int
	text     string
	seq      int
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "code under test")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if *out == "" {
		die("-out is required")
	}
	replace := map[string]string{}

	// go.mod with a language version that allows range-over-func.
	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	lines := strings.Split(string(mod), "\n")
	modpath := ""
	for i, l := range lines {
		if strings.HasPrefix(l, "go ") {
			lines[i] = "go 1.25"
		}
		if strings.HasPrefix(l, "toolchain ") {
			lines[i] = ""
		}
		if strings.HasPrefix(l, "module ") {
			modpath = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	write(*out, "go.mod.overlay", []byte(strings.Join(lines, "\n")))
	replace[filepath.Join(*repo, "go.mod")] = filepath.Join(*out, "go.mod.overlay")

	// Packages and export data.
	cmd := exec.Command("go", "list", "-mod=readonly", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}\t{{.Dir}}", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	export := map[string]string{}
	dirs := map[string]string{}
	var order []string
	for _, l := range strings.Split(strings.TrimSpace(string(o)), "\n") {
		f := strings.Split(l, "\t")
		export[f[0]] = f[1]
		if f[0] == modpath || strings.HasPrefix(f[0], modpath+"/") {
			dirs[f[0]] = f[2]
			order = append(order, f[0])
		}
	}
	sort.Strings(order)

	for _, ip := range order {
		for _, g := range mustGoFiles(dirs[ip]) {
			if src, err := os.ReadFile(filepath.Join(dirs[ip], g)); err == nil && bytes.Contains(src, []byte("select {")) {
				selects = true
			}
		}
	}
	var sites []site
	for _, ip := range order {
		dir := dirs[ip]
		bp, err := build.ImportDir(dir, 0)
		if err != nil {
			die("%s: %v", dir, err)
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		var srcs [][]byte
		for _, g := range bp.GoFiles {
			fn := filepath.Join(dir, g)
			src, err := os.ReadFile(fn)
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files, names, srcs = append(files, f), append(names, fn), append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := export[path]
			if !ok || e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(ip, fset, files, info); err != nil {
			die("type check %s: %v", ip, err)
		}
		for i, f := range files {
			txt := rewrite(fset, f, srcs[i], info, &sites, strings.TrimPrefix(names[i], *repo+"/"))
			name := strings.NewReplacer("/", "_").Replace(strings.TrimPrefix(names[i], *repo+"/"))
			write(*out, name, txt)
			replace[names[i]] = filepath.Join(*out, name)
		}
	}
	if len(sites) >= 1<<14 {
		die("too many sites")
	}
	osHooks(*out, replace)

	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	write(*out, "overlay.json", j)
	sj, _ := json.Marshal(sites)
	write(*out, "sites.json", sj)
}

func mustGoFiles(dir string) []string {
	bp, err := build.ImportDir(dir, 0)
	if err != nil {
		die("%s: %v", dir, err)
	}
	return bp.GoFiles
}

// charged are the functions of the standard library that have a counterpart in
// simrt; keepUsed is one of each package that is not generic.
var (
	charged  = map[string]bool{}
	keepUsed = map[string]string{"strings": "Index", "bytes": "Index", "unicode/utf8": "RuneLen", "sort": "Ints", "slices": "Sort[[]int]"}
)

func init() {
	for _, f := range simrt.Charged {
		charged[f] = true
	}
}

// selects is set if the code under test has a select without a default.
var selects bool

func write(dir, name string, b []byte) {
	if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
		die("%v", err)
	}
}

// plain reports whether evaluating e twice is the same as evaluating it once.
func plain(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.SelectorExpr:
		return plain(x.X)
	case *ast.StarExpr:
		return plain(x.X)
	case *ast.ParenExpr:
		return plain(x.X)
	}
	return false
}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, sites *[]site, rel string) []byte {
	var edits []edit
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	ins := func(p token.Pos, t string) {
		edits = append(edits, edit{off(p), off(p), t, len(edits)})
	}
	rep := func(a, b token.Pos, t string) {
		edits = append(edits, edit{off(a), off(b), t, len(edits)})
	}
	fn := ""
	newSite := func(p token.Pos) string {
		id := len(*sites)
		*sites = append(*sites, site{id, rel, tf.Line(p), fn})
		return fmt.Sprintf("simrt_.Y(%d);", id)
	}
	ins(f.Name.End(), `; import simrt_ "bibsim/simrt"`)
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			if im.Name == nil {
				rep(im.Path.Pos(), im.Path.End(), `sync "bibsim/simrt/ssync"`)
			} else {
				rep(im.Path.Pos(), im.Path.End(), `"bibsim/simrt/ssync"`)
			}
		}
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			ins(s.Pos(), newSite(s.Pos()))
		}
	}
	// Standard library functions charge for work that no statement counts.
	keep := map[string]bool{}
	pkgName := func(e ast.Expr) *types.PkgName {
		id, ok := e.(*ast.Ident)
		if !ok {
			return nil
		}
		p, _ := info.Uses[id].(*types.PkgName)
		return p
	}
	std := func(x *ast.SelectorExpr) {
		p := pkgName(x.X)
		if p == nil || !charged[p.Imported().Path()+"."+x.Sel.Name] {
			return
		}
		base := p.Imported().Name()
		rep(x.Pos(), x.End(), "simrt_."+strings.ToUpper(base[:1])+base[1:]+x.Sel.Name)
		keep[p.Name()+"."+keepUsed[p.Imported().Path()]] = true
	}
	isBuiltin := func(e ast.Expr, name string) bool {
		id, ok := e.(*ast.Ident)
		if !ok || id.Name != name {
			return false
		}
		_, ok = info.Uses[id].(*types.Builtin)
		return ok
	}
	// kind is "slice" or "string" for what can be copied or appended.
	kind := func(e ast.Expr) string {
		tv := info.Types[e]
		if tv.Type == nil || tv.IsNil() {
			return ""
		}
		switch t := tv.Type.Underlying().(type) {
		case *types.Slice:
			return "slice"
		case *types.Basic:
			if t.Info()&types.IsString != 0 {
				return "string"
			}
		}
		return ""
	}
	inConcat := map[ast.Node]bool{}
	inComm := map[ast.Node]bool{}
	noYield := map[ast.Node]bool{}
	labelOf := map[*ast.SelectStmt]*ast.LabeledStmt{}
	nsel := 0
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
			if x.Recv != nil && len(x.Recv.List) > 0 {
				fn = types.ExprString(x.Recv.List[0].Type) + "." + fn
			}
		case *ast.SwitchStmt:
			noYield[x.Body] = true
		case *ast.TypeSwitchStmt:
			noYield[x.Body] = true
		case *ast.SelectStmt:
			noYield[x.Body] = true
			blocking := len(x.Body.List) > 0
			for _, c := range x.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					blocking = false
				}
			}
			if blocking {
				at := x.Pos()
				if l := labelOf[x]; l != nil {
					at = l.Pos()
				}
				nsel++
				ins(at, fmt.Sprintf("simrtSel%d_: ; ", nsel))
				ins(x.Body.Rbrace, fmt.Sprintf("; default: simrt_.Poll(); goto simrtSel%d_; ", nsel))
			}
		case *ast.LabeledStmt:
			if s, ok := x.Stmt.(*ast.SelectStmt); ok {
				labelOf[s] = x
			}
		case *ast.BlockStmt:
			if len(x.List) == 0 && !noYield[x] {
				ins(x.Lbrace+1, newSite(x.Lbrace))
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
			if x.Comm != nil {
				inComm[x.Comm] = true
				switch c := x.Comm.(type) {
				case *ast.ExprStmt:
					inComm[c.X] = true
				case *ast.AssignStmt:
					for _, r := range c.Rhs {
						inComm[r] = true
					}
				}
			}
		case *ast.RangeStmt:
			tv := info.Types[x.X]
			if tv.Type != nil {
				switch tv.Type.Underlying().(type) {
				case *types.Map:
					ins(x.X.Pos(), "simrt_.MapSeq(")
					ins(x.X.End(), ")")
				case *types.Chan:
					ins(x.X.Pos(), "simrt_.ChanSeq(")
					ins(x.X.End(), ")")
				}
			}
		case *ast.GoStmt:
			rep(x.Go, x.Call.Pos(), "simrt_.Go(func() { ")
			ins(x.Call.End(), " })")
		case *ast.SendStmt:
			if !inComm[x] {
				ins(x.Chan.Pos(), "simrt_.Send(")
				rep(x.Arrow, x.Arrow+2, ",")
				ins(x.Value.End(), ")")
			}
		case *ast.AssignStmt:
			if x.Tok == token.ADD_ASSIGN && kind(x.Lhs[0]) == "string" && plain(x.Lhs[0]) {
				ins(x.Rhs[0].Pos(), "simrt_.Concat("+types.ExprString(x.Lhs[0])+", ")
				ins(x.Rhs[0].End(), ")")
			}
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW && !inComm[u] {
					inComm[u] = true
					rep(u.OpPos, u.OpPos+2, "simrt_.Recv2(")
					ins(u.X.End(), ")")
				}
			}
		case *ast.SelectorExpr:
			std(x)
		case *ast.BinaryExpr:
			if x.Op == token.ADD && !inConcat[x] && info.Types[x].Value == nil && kind(x) == "string" {
				ins(x.Pos(), "simrt_.SpreadStr(")
				ins(x.End(), ")")
			}
			if x.Op == token.ADD {
				for _, e := range []ast.Expr{x.X, x.Y} {
					if y, ok := ast.Unparen(e).(*ast.BinaryExpr); ok {
						inConcat[y] = true
					}
				}
			}
		case *ast.CallExpr:
			if tv := info.Types[x.Fun]; tv.IsType() && len(x.Args) == 1 && info.Types[x.Args[0]].Value == nil {
				to, from := kind(x), kind(x.Args[0])
				switch {
				case to == "string" && from == "slice":
					ins(x.Args[0].Pos(), "simrt_.Spread(")
					ins(x.Args[0].End(), ")")
				case to == "slice" && from == "string":
					ins(x.Args[0].Pos(), "simrt_.SpreadStr(")
					ins(x.Args[0].End(), ")")
				}
			}
			switch {
			case isBuiltin(x.Fun, "copy") && len(x.Args) == 2 && kind(x.Args[0]) == "slice":
				switch kind(x.Args[1]) {
				case "slice":
					rep(x.Fun.Pos(), x.Fun.End(), "simrt_.Copy")
				case "string":
					rep(x.Fun.Pos(), x.Fun.End(), "simrt_.CopyStr")
				}
			case isBuiltin(x.Fun, "append") && x.Ellipsis.IsValid() && len(x.Args) == 2:
				switch kind(x.Args[1]) {
				case "slice":
					ins(x.Args[1].Pos(), "simrt_.Spread(")
					ins(x.Args[1].End(), ")")
				case "string":
					ins(x.Args[1].Pos(), "simrt_.SpreadStr(")
					ins(x.Args[1].End(), ")")
				}
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Sort" && len(x.Args) == 0 {
				if tv := info.Types[s.X]; tv.Type != nil && tv.Type.String() == "go/scanner.ErrorList" {
					ins(s.X.Pos(), "simrt_.Spread(")
					ins(s.X.End(), ")")
				}
			}
			// A select polls real channels, so in code that has one every
			// channel needs a buffer of its own.
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && selects && len(x.Args) == 1 {
				if tv := info.Types[x.Args[0]]; tv.Type != nil {
					if _, ok := tv.Type.Underlying().(*types.Chan); ok {
						ins(x.Args[0].End(), ", 1")
					}
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !inComm[x] {
				rep(x.OpPos, x.OpPos+2, "simrt_.Recv(")
				ins(x.X.End(), ")")
			}
		}
		return true
	}
	ast.Inspect(f, visit)

	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			die("%s: overlapping edits at %d", rel, e.off)
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString("\nvar _ = simrt_.Y\n")
	var ks []string
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "var _ = %s\n", k)
	}
	return b.Bytes()
}

// osHooks overlays package os with fault hooks on open, read and write.
func osHooks(out string, replace map[string]string) {
	cmd := exec.Command("go", "env", "GOROOT")
	o, err := cmd.Output()
	if err != nil {
		die("go env: %v", err)
	}
	root := strings.TrimSpace(string(o))
	_ = runtime.Version()
	p := filepath.Join(root, "src/os/file.go")
	b, err := os.ReadFile(p)
	if err != nil {
		die("%v", err)
	}
	s := string(b)
	sub := func(old, new string, n int) {
		if c := strings.Count(s, old); c != n {
			die("os/file.go: %d matches for %q, expected %d", c, old, n)
		}
		s = strings.ReplaceAll(s, old, new)
	}
	sub("\tn, e := f.read(b)\n", "\tvar e error\n\tif SimRead != nil {\n\t\tn, e = SimRead(f, b, f.read)\n\t} else {\n\t\tn, e = f.read(b)\n\t}\n", 1)
	sub("\tn, e := f.write(b)\n", "\tvar e error\n\tif SimWrite != nil {\n\t\tn, e = SimWrite(f, b, f.write)\n\t} else {\n\t\tn, e = f.write(b)\n\t}\n", 1)
	sub("\tf, err := openFileNolog(name, flag, perm)\n", "\tif SimOpen != nil {\n\t\tif err := SimOpen(name); err != nil {\n\t\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: err}\n\t\t}\n\t}\n\tf, err := openFileNolog(name, flag, perm)\n", 1)
	sub("\t\tm, e := f.pread(b, off)\n", "\t\tvar m int\n\t\tvar e error\n\t\tif SimPread != nil {\n\t\t\tm, e = SimPread(f, b, off, f.pread)\n\t\t} else {\n\t\t\tm, e = f.pread(b, off)\n\t\t}\n", 1)
	sub("\tf.appendMode = flag&O_APPEND != 0\n\n\treturn f, nil\n", "\tf.appendMode = flag&O_APPEND != 0\n\tif SimOpened != nil {\n\t\tSimOpened(f)\n\t}\n\n\treturn f, nil\n", 1)
	s += `
// Fault hooks of the simulator (overlay only).
var (
	SimOpen  func(name string) error
	SimOpened, SimClosed func(f *File)
	SimRead  func(f *File, b []byte, real func([]byte) (int, error)) (int, error)
	SimPread func(f *File, b []byte, off int64, real func([]byte, int64) (int, error)) (int, error)
	SimWrite func(f *File, b []byte, real func([]byte) (int, error)) (int, error)
)
`
	write(out, "os_file.go", []byte(s))
	replace[p] = filepath.Join(out, "os_file.go")
	p = filepath.Join(root, "src/os/file_posix.go")
	if b, err = os.ReadFile(p); err != nil {
		die("%v", err)
	}
	s = string(b)
	sub("\treturn f.file.close()\n", "\tif SimClosed != nil {\n\t\tSimClosed(f)\n\t}\n\treturn f.file.close()\n", 1)
	write(out, "os_file_posix.go", []byte(s))
	replace[p] = filepath.Join(out, "os_file_posix.go")
}
