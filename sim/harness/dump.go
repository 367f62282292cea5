package main

import (
	"fmt"
	gotok "go/token"
	"reflect"
	"sort"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/token"
)

// dumper writes a tree in the notation of the document model.
// level 0: structure; 1: plus positions of declarations, keys and tag names
// (what the model knows); 2: every position and attached comments.
type dumper struct {
	sb    strings.Builder
	level int
	base  int // subtracted from positions
	Nils  []string
	Nodes int
}

func isNil(x any) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Pointer && v.IsNil()
}

func (d *dumper) pos(p gotok.Pos) {
	if d.level >= 2 {
		d.at(p)
	}
}

func (d *dumper) at(p gotok.Pos) {
	if p == gotok.NoPos {
		d.sb.WriteString("@-")
		return
	}
	fmt.Fprintf(&d.sb, "@%d", int(p)-1-d.base)
}

func (d *dumper) pos1(p gotok.Pos) {
	if d.level >= 1 {
		d.at(p)
	}
}

func (d *dumper) doc(g *ast.TexCommentGroup) {
	if d.level < 2 || g == nil {
		return
	}
	d.sb.WriteString("/*")
	for _, c := range g.List {
		fmt.Fprintf(&d.sb, "%q@%d ", c.Text, int(c.Start)-1-d.base)
	}
	d.sb.WriteString("*/")
}

func (d *dumper) node(n ast.Node, where string) {
	d.Nodes++
	if isNil(n) {
		d.Nils = append(d.Nils, where)
		d.sb.WriteString("NIL")
		return
	}
	w := &d.sb
	switch x := n.(type) {
	case *ast.Package:
		names := make([]string, 0, len(x.Files))
		for k := range x.Files {
			names = append(names, k)
		}
		sort.Strings(names)
		w.WriteString("Package(")
		for _, k := range names {
			fmt.Fprintf(w, "\n %q: ", k)
			d.node(x.Files[k], "Package.Files")
		}
		w.WriteString(")")
	case *ast.File:
		w.WriteString("File(")
		d.doc(x.Doc)
		if d.level >= 2 {
			fmt.Fprintf(w, "name=%q ", x.Name)
			for _, c := range x.Comments {
				d.doc(c)
			}
			fmt.Fprintf(w, "unresolved=%d ", len(x.Unresolved))
			if x.Scope != nil {
				var names []string
				for k := range x.Scope.Objects {
					names = append(names, k)
				}
				sort.Strings(names)
				fmt.Fprintf(w, "scope=%q ", names)
			}
		}
		for _, e := range x.Entries {
			w.WriteString("\n  ")
			d.node(e, "File.Entries")
		}
		w.WriteString(")")
	case *ast.BadDecl:
		w.WriteString("BadDecl")
		d.pos1(x.From)
		d.pos(x.To)
	case *ast.PreambleDecl:
		w.WriteString("Preamble")
		d.pos1(x.Entry)
		d.doc(x.Doc)
		w.WriteString("(")
		d.node(x.Text, "PreambleDecl.Text")
		d.pos(x.RBrace)
		w.WriteString(")")
	case *ast.AbbrevDecl:
		w.WriteString("Abbrev")
		d.pos1(x.Entry)
		d.doc(x.Doc)
		w.WriteString("(")
		d.node(x.Tag, "AbbrevDecl.Tag")
		d.pos(x.RBrace)
		w.WriteString(")")
	case *ast.BibDecl:
		w.WriteString("Bib")
		d.pos1(x.Entry)
		d.doc(x.Doc)
		w.WriteString("(" + x.Type)
		if x.Key == nil {
			w.WriteString(" key=-")
		} else {
			w.WriteString(" key=" + x.Key.Name)
			d.pos1(x.Key.NamePos)
		}
		for _, k := range x.ExtraKeys {
			if k == nil {
				d.Nils = append(d.Nils, "BibDecl.ExtraKeys")
				continue
			}
			w.WriteString(" xkey=" + k.Name)
			d.pos1(k.NamePos)
		}
		for _, t := range x.Tags {
			w.WriteString(" ")
			d.node(t, "BibDecl.Tags")
		}
		d.pos(x.RBrace)
		w.WriteString(")")
	case *ast.TagStmt:
		d.doc(x.Doc)
		w.WriteString(x.Name + "|" + x.RawName)
		d.pos1(x.NamePos)
		w.WriteString("=")
		d.node(x.Value, "TagStmt.Value")
	case *ast.BadStmt:
		w.WriteString("BadStmt")
		d.pos1(x.From)
		d.pos(x.To)
	case *ast.BadExpr:
		w.WriteString("BadExpr")
		d.pos1(x.From)
		d.pos(x.To)
	case *ast.Ident:
		w.WriteString("Id(" + x.Name + ")")
		d.pos(x.NamePos)
	case *ast.Number:
		w.WriteString("Num(" + x.Value + ")")
		d.pos(x.ValuePos)
	case ast.Authors:
		w.WriteString("Authors(")
		for i, a := range x {
			if i > 0 {
				w.WriteString(" ")
			}
			d.node(a, "Authors")
		}
		w.WriteString(")")
	case *ast.Author:
		w.WriteString("Author[")
		for i, p := range []ast.Expr{x.First, x.Prefix, x.Last, x.Suffix} {
			if i > 0 {
				w.WriteString("; ")
			}
			d.node(p, "Author part")
		}
		w.WriteString("]")
	case *ast.UnparsedText:
		k := "?"
		switch x.Type {
		case token.String:
			k = "q"
		case token.BraceString:
			k = "b"
		}
		fmt.Fprintf(w, "Un%s(%q)", k, x.Value)
		d.pos(x.ValuePos)
	case *ast.ParsedText:
		k := "b"
		if x.Delim == ast.QuoteDelimiter {
			k = "q"
		}
		fmt.Fprintf(w, "P%d%s", x.Depth, k)
		d.pos(x.Opener)
		w.WriteString("(")
		for i, v := range x.Values {
			if i > 0 {
				w.WriteString(" ")
			}
			d.node(v, "ParsedText.Values")
		}
		w.WriteString(")")
		d.pos(x.Closer)
	case *ast.Text:
		fmt.Fprintf(w, "T%q", x.Value)
		d.pos(x.ValuePos)
	case *ast.TextAccent:
		w.WriteString("Acc(" + string(rune(x.Accent)) + " ")
		d.node(x.Text, "TextAccent.Text")
		w.WriteString(")")
		d.pos(x.ValuePos)
	case *ast.TextComma:
		w.WriteString("Comma")
		d.pos(x.ValuePos)
	case *ast.TextEscaped:
		fmt.Fprintf(w, "Esc(%q)", x.Value)
		d.pos(x.ValuePos)
	case *ast.TextHyphen:
		w.WriteString("Hyphen")
		d.pos(x.ValuePos)
	case *ast.TextMath:
		fmt.Fprintf(w, "Math(%q)", x.Value)
		d.pos(x.ValuePos)
	case *ast.TextNBSP:
		w.WriteString("Tie")
		d.pos(x.ValuePos)
	case *ast.TextSpace:
		w.WriteString("Sp")
		if d.level >= 2 {
			fmt.Fprintf(w, "%q", x.Value)
		}
		d.pos(x.ValuePos)
	case *ast.TextMacro:
		w.WriteString("Mac(" + x.Name)
		for _, v := range x.Values {
			w.WriteString(" ")
			d.node(v, "TextMacro.Values")
		}
		w.WriteString(")")
		d.pos(x.Cmd)
		d.pos(x.RBrace)
	case *ast.ConcatExpr:
		w.WriteString("Cat(")
		d.node(x.X, "ConcatExpr.X")
		w.WriteString(" ")
		d.node(x.Y, "ConcatExpr.Y")
		w.WriteString(")")
		d.pos(x.OpPos)
	case *ast.TexComment:
		fmt.Fprintf(w, "%%%q", x.Text)
	case *ast.TexCommentGroup:
		d.doc(x)
	default:
		fmt.Fprintf(w, "%T", n)
	}
}

// Dump returns the dump of a tree at a level and the places of nil children.
func Dump(n ast.Node, level, base int) (string, []string) {
	if isNil(n) {
		return "<nil>", nil
	}
	d := &dumper{level: level, base: base}
	d.node(n, "root")
	return d.sb.String(), d.Nils
}

// DumpDecls dumps each declaration of a file separately.
func DumpDecls(f *ast.File, level, base int) []string {
	if f == nil {
		return nil
	}
	out := make([]string, len(f.Entries))
	for i, e := range f.Entries {
		out[i], _ = Dump(e, level, base)
	}
	return out
}

func dumpEntries(es []entryView) string {
	var sb strings.Builder
	for i := range es {
		sb.WriteString(es[i].String())
		sb.WriteByte('\n')
	}
	return sb.String()
}

type entryView struct {
	Type, Key string
	Tags      map[string]ast.Expr
}

func (e *entryView) String() string {
	names := make([]string, 0, len(e.Tags))
	for k := range e.Tags {
		names = append(names, k)
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString(e.Type + " " + e.Key)
	for _, k := range names {
		s, _ := Dump(e.Tags[k], 0, 0)
		sb.WriteString(" " + k + "=" + s)
	}
	return sb.String()
}

// spoil changes everything reachable from a tree through exported fields, as
// its owner may: no other tree may show it. Spoiling twice differs from once.
func spoil(n any) {
	seen := map[uintptr]bool{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem())
			}
		case reflect.Pointer:
			if v.IsNil() || v.Elem().Type().Size() == 0 || seen[v.Pointer()] {
				return
			}
			switch t := v.Interface().(type) {
			case *ast.Scope:
				if t.Objects != nil && !seen[v.Pointer()] {
					seen[v.Pointer()] = true
					name := fmt.Sprint("spoiled", len(t.Objects))
					t.Objects[name] = &ast.Object{Name: name}
				}
				return
			case *ast.Object:
				return
			}
			seen[v.Pointer()] = true
			rec(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					rec(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				rec(v.MapIndex(k))
			}
		case reflect.String:
			if v.CanSet() {
				v.SetString(v.String() + "!")
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if v.CanSet() {
				v.SetInt(v.Int() + 1)
			}
		}
	}
	rec(reflect.ValueOf(n))
}

// spoilAll spoils what an operation handed to its caller.
func (c *Ctx) spoilAll(f ast.Node, err error, es []bibtex.Entry) {
	for i := range es {
		clear(es[i].Tags)
	}
	if !isNil(f) {
		c.Probe("own-tree-rewritten")
		spoil(f)
	}
	for _, e := range errList(err) {
		e.Msg += "!"
		e.Pos.Offset++
	}
}
