package main

import (
	"fmt"
	"strings"
)

// The document model: what a well-behaved producer writes. It renders to
// bytes, knows where each declaration and token lies in them, and what tree a
// correct parse of those bytes has.

type Doc struct {
	BOM   bool   `json:"bom,omitempty"`
	Items []Item `json:"items"`
	Tail  string `json:"tail,omitempty"` // white space after the last item
}

type Item struct {
	K     string   `json:"k"`             // c comment, p preamble, s string, e entry
	Pre   string   `json:"pre,omitempty"` // white space before
	Text  string   `json:"text,omitempty"`
	Type  string   `json:"type,omitempty"` // as written, without '@'
	Paren bool     `json:"paren,omitempty"`
	Keys  []string `json:"keys,omitempty"`
	Tags  []Tag    `json:"tags,omitempty"`
	Val   *Val     `json:"val,omitempty"`
	Trail bool     `json:"trail,omitempty"` // comma after the last tag
	After bool     `json:"after,omitempty"` // comma after the closer
	Style int      `json:"style,omitempty"` // white space style
}

type Tag struct {
	Name string `json:"name"`
	Cmt  string `json:"cmt,omitempty"`
	Val  Val    `json:"val"`
}

// Val is a value: n number, i identifier, b braces, q quotes, c concatenation.
type Val struct {
	K     string `json:"k"`
	S     string `json:"s,omitempty"`
	Atoms []Atom `json:"atoms,omitempty"`
	Parts []Val  `json:"parts,omitempty"`
}

// Atom is a piece of string contents: w word, s space, "," comma, ~ tie,
// m math, e escape, x escaped brace pair, a accent, g group, k macro, u url.
type Atom struct {
	K    string `json:"k"`
	S    string `json:"s,omitempty"`
	A    string `json:"a,omitempty"` // accent mark
	F    int    `json:"f,omitempty"` // accent form
	Kids []Atom `json:"kids,omitempty"`
}

type Span struct{ S, E int }

type Tok struct {
	K    string // at open key comma tag eq val close after
	S, E int
}

type ItemInfo struct {
	K    string
	S, E int   // E is just past the closing delimiter
	Toks []Tok // all tokens outside string values; "val" covers a whole value
	Strs []Span
}

type Rendered struct {
	Src   []byte
	Items []ItemInfo // declarations and comments, in order
	Decls []ItemInfo // declarations only
}

type rend struct {
	b     []byte
	style int
	cnt   int
}

var wsSets = [][]string{
	{""},
	{" "},
	{"\n"},
	{"", " ", "\n", "\t", "  ", "\r\n", "\n\n  ", " \t"},
	{"", "\n\n\n\n\n\n\n\n\n\n", "                    ", " \n \n\t\n \n \n\n\t ", "\r\n\r\n\r\n\r\n\r\n\r\n"},
}

func (w *rend) ws() {
	set := wsSets[0]
	if w.style > 0 && w.style < len(wsSets) {
		set = wsSets[w.style]
	}
	w.cnt++
	w.b = append(w.b, set[int(mix(uint64(w.cnt)*77+uint64(w.style))%uint64(len(set)))]...)
}

func (d *Doc) Render() *Rendered {
	w := &rend{}
	out := &Rendered{}
	if d.BOM {
		w.b = append(w.b, "\xef\xbb\xbf"...)
	}
	for i := range d.Items {
		it := &d.Items[i]
		w.b = append(w.b, it.Pre...)
		w.style = it.Style
		info := ItemInfo{K: it.K, S: len(w.b)}
		tok := func(k, s string) {
			info.Toks = append(info.Toks, Tok{k, len(w.b), len(w.b) + len(s)})
			w.b = append(w.b, s...)
		}
		val := func(v *Val) {
			s := len(w.b)
			v.render(w, &info)
			info.Toks = append(info.Toks, Tok{"val", s, len(w.b)})
		}
		op, cl := "{", "}"
		if it.Paren {
			op, cl = "(", ")"
		}
		switch it.K {
		case "c":
			w.b = append(w.b, "%"+it.Text...)
			info.E = len(w.b)
			w.b = append(w.b, '\n')
			out.Items = append(out.Items, info)
			continue
		case "p":
			tok("at", "@"+it.Type)
			w.ws()
			tok("open", op)
			w.ws()
			val(it.Val)
			w.ws()
			tok("close", cl)
		case "s":
			tok("at", "@"+it.Type)
			w.ws()
			tok("open", op)
			w.ws()
			t := &it.Tags[0]
			tok("tag", t.Name)
			w.ws()
			tok("eq", "=")
			w.ws()
			val(&t.Val)
			w.ws()
			if it.Trail {
				tok("comma", ",")
				w.ws()
			}
			tok("close", cl)
		case "e":
			tok("at", "@"+it.Type)
			w.ws()
			tok("open", op)
			w.ws()
			for j, k := range it.Keys {
				tok("key", k)
				w.ws()
				if j < len(it.Keys)-1 || len(it.Tags) > 0 || it.Trail {
					tok("comma", ",")
					w.ws()
				}
			}
			for j := range it.Tags {
				t := &it.Tags[j]
				if t.Cmt != "" {
					w.b = append(w.b, "%"+t.Cmt+"\n"...)
				}
				tok("tag", t.Name)
				w.ws()
				tok("eq", "=")
				w.ws()
				val(&t.Val)
				w.ws()
				if j < len(it.Tags)-1 || it.Trail {
					tok("comma", ",")
					w.ws()
				}
			}
			tok("close", cl)
		}
		info.E = len(w.b)
		if it.K == "e" && it.After {
			tok("after", ",")
		}
		out.Items = append(out.Items, info)
		out.Decls = append(out.Decls, info)
	}
	w.b = append(w.b, d.Tail...)
	out.Src = w.b
	return out
}

func (v *Val) render(w *rend, info *ItemInfo) {
	switch v.K {
	case "n", "i":
		w.b = append(w.b, v.S...)
	case "b", "q":
		s := len(w.b)
		op, cl := byte('{'), byte('}')
		if v.K == "q" {
			op, cl = '"', '"'
		}
		w.b = append(w.b, op)
		w.b = append(w.b, rawAtoms(v.Atoms)...)
		w.b = append(w.b, cl)
		if info != nil {
			info.Strs = append(info.Strs, Span{s, len(w.b)})
		}
	case "c":
		for i := range v.Parts {
			if i > 0 {
				w.ws()
				w.b = append(w.b, '#')
				w.ws()
			}
			v.Parts[i].render(w, info)
		}
	}
}

func rawAtoms(as []Atom) string {
	var sb strings.Builder
	for i := range as {
		sb.WriteString(as[i].raw())
	}
	return sb.String()
}

func (a *Atom) raw() string {
	switch a.K {
	case "w", "s":
		return a.S
	case ",":
		return ","
	case "~":
		return "~"
	case "m":
		return "$" + a.S + "$"
	case "e":
		return `\` + a.S
	case "x":
		return `\{` + a.S + `\}`
	case "a":
		switch a.F {
		case 1:
			return `\` + a.A + "{" + a.S + "}"
		case 2:
			return `\` + a.A + "  " + a.S
		}
		if a.A == "c" {
			return `\c ` + a.S
		}
		return `\` + a.A + a.S
	case "g":
		return "{" + rawAtoms(a.Kids) + "}"
	case "k":
		// A macro name ends at the next special character; keep it in its own
		// group with an argument so that nothing can be glued to it.
		return `\` + a.S + "{" + rawAtoms(a.Kids) + "}"
	case "u":
		return `\` + a.A + "{" + a.S + "}"
	}
	return ""
}

// ---- expected tree --------------------------------------------------------

// Expect returns the structural dump of each declaration as a correct parse of
// the rendered bytes yields it. strs: string contents are parsed.
func (d *Doc) Expect(r *Rendered, strs bool) []string {
	var out []string
	di := 0
	for i := range d.Items {
		it := &d.Items[i]
		if it.K == "c" {
			continue
		}
		info := r.Decls[di]
		di++
		var sb strings.Builder
		var tags []int
		var keys []int
		for _, t := range info.Toks {
			if t.K == "tag" {
				tags = append(tags, t.S)
			}
			if t.K == "key" {
				keys = append(keys, t.S)
			}
		}
		switch it.K {
		case "p":
			fmt.Fprintf(&sb, "Preamble@%d(", info.S)
			it.Val.expect(&sb, strs, false)
			sb.WriteString(")")
		case "s":
			fmt.Fprintf(&sb, "Abbrev@%d(", info.S)
			it.Tags[0].expect(&sb, strs, false, tags[0])
			sb.WriteString(")")
		case "e":
			fmt.Fprintf(&sb, "Bib@%d(%s", info.S, strings.ToLower(it.Type))
			for j, k := range it.Keys {
				if j == 0 {
					fmt.Fprintf(&sb, " key=%s@%d", k, keys[j])
				} else {
					fmt.Fprintf(&sb, " xkey=%s@%d", k, keys[j])
				}
			}
			if len(it.Keys) == 0 {
				sb.WriteString(" key=-")
			}
			for j := range it.Tags {
				sb.WriteString(" ")
				it.Tags[j].expect(&sb, strs, true, tags[j])
			}
			sb.WriteString(")")
		}
		out = append(out, sb.String())
	}
	return out
}

func (t *Tag) expect(sb *strings.Builder, strs, entry bool, pos int) {
	fmt.Fprintf(sb, "%s|%s@%d=", strings.ToLower(t.Name), t.Name, pos)
	t.Val.expect(sb, strs, entry && t.Name == "url")
}

func (v *Val) expect(sb *strings.Builder, strs, isURL bool) {
	switch v.K {
	case "n":
		fmt.Fprintf(sb, "Num(%s)", v.S)
	case "i":
		fmt.Fprintf(sb, "Id(%s)", v.S)
	case "b", "q":
		if !strs {
			fmt.Fprintf(sb, "Un%s(%q)", v.K, rawAtoms(v.Atoms))
			return
		}
		fmt.Fprintf(sb, "P0%s(", v.K)
		(&expecter{sb: sb, empty: true}).atoms(v.Atoms, 1)
		sb.WriteString(")")
	case "c":
		sb.WriteString("Cat(")
		v.Parts[0].expect(sb, strs, false)
		sb.WriteString(" ")
		if len(v.Parts) == 2 {
			v.Parts[1].expect(sb, strs, false)
		} else {
			(&Val{K: "c", Parts: v.Parts[1:]}).expect(sb, strs, false)
		}
		sb.WriteString(")")
	}
}

type expecter struct {
	sb    *strings.Builder
	word  string
	space bool
	empty bool
}

func (e *expecter) sep() {
	if !e.empty {
		e.sb.WriteByte(' ')
	}
	e.empty = false
}

func (e *expecter) flush() {
	if e.word != "" {
		e.sep()
		fmt.Fprintf(e.sb, "T%q", e.word)
		e.word = ""
	}
	if e.space {
		e.sep()
		e.sb.WriteString("Sp")
		e.space = false
	}
}

func (e *expecter) atoms(as []Atom, depth int) {
	for i := range as {
		a := &as[i]
		if a.K == "w" {
			if a.S == "" {
				continue
			}
			if e.space {
				e.flush()
			}
			e.word += a.S
			continue
		}
		if a.K == "s" {
			if a.S == "" {
				continue
			}
			if e.word != "" {
				e.flush()
			}
			e.space = true
			continue
		}
		e.flush()
		e.sep()
		switch a.K {
		case ",":
			e.sb.WriteString("Comma")
		case "~":
			e.sb.WriteString("Tie")
		case "m":
			fmt.Fprintf(e.sb, "Math(%q)", a.S)
		case "e":
			fmt.Fprintf(e.sb, "Esc(%q)", a.S)
		case "x":
			fmt.Fprintf(e.sb, "Esc(%q)", "{")
			if a.S != "" {
				fmt.Fprintf(e.sb, " T%q", a.S)
			}
			fmt.Fprintf(e.sb, " Esc(%q)", "}")
		case "a":
			fmt.Fprintf(e.sb, "Acc(%s T%q)", a.A, a.S)
		case "g":
			fmt.Fprintf(e.sb, "P%db(", depth)
			(&expecter{sb: e.sb, empty: true}).atoms(a.Kids, depth+1)
			e.sb.WriteString(")")
		case "k":
			fmt.Fprintf(e.sb, "Mac(%s)", a.S)
			fmt.Fprintf(e.sb, " P%db(", depth)
			(&expecter{sb: e.sb, empty: true}).atoms(a.Kids, depth+1)
			e.sb.WriteString(")")
		case "u":
			fmt.Fprintf(e.sb, "Mac(%s T%q)", a.A, a.S)
		}
	}
	e.flush()
}

// ---- expected text --------------------------------------------------------

var accentRune = map[string]string{
	"'a": "á", "'e": "é", "'o": "ó", "'E": "É", "`a": "à", "`e": "è", "^o": "ô", "^I": "Î",
	"\"o": "ö", "\"u": "ü", "\"A": "Ä", "~n": "ñ", "~O": "Õ", "cc": "ç", "cC": "Ç", ".z": "ż", ".E": "Ė",
}

// Plain is the plain text (TextRenderer) of a value.
func (v *Val) Plain() string {
	switch v.K {
	case "b", "q":
		return plainAtoms(v.Atoms, false)
	}
	return ""
}

// Source is what the default node renderers write for a value.
func (v *Val) Default() string {
	switch v.K {
	case "i":
		return v.S
	case "b":
		return "{" + plainAtoms(v.Atoms, true) + "}"
	case "q":
		return `"` + plainAtoms(v.Atoms, true) + `"`
	case "c":
		s := ""
		for i := range v.Parts {
			s += v.Parts[i].Default()
		}
		return s
	}
	return ""
}

func plainAtoms(as []Atom, src bool) string {
	var sb strings.Builder
	bs, ob, cb := "", "", ""
	if src {
		bs, ob, cb = `\`, "{", "}"
	}
	inSpace := false
	for i := range as {
		a := &as[i]
		if a.K == "s" {
			if a.S != "" && !inSpace {
				sb.WriteString(" ")
				inSpace = true
			}
			continue
		}
		if a.K == "w" && a.S == "" {
			continue
		}
		inSpace = false
		switch a.K {
		case "w":
			sb.WriteString(a.S)
		case ",":
			sb.WriteString(",")
		case "~":
			sb.WriteString(" ")
		case "m":
			sb.WriteString("$" + a.S + "$")
		case "e":
			sb.WriteString(bs + a.S)
		case "x":
			sb.WriteString(bs + "{" + a.S + bs + "}")
		case "a":
			sb.WriteString(accentRune[a.A+a.S])
		case "g", "k":
			sb.WriteString(ob + plainAtoms(a.Kids, src) + cb)
		case "u":
			sb.WriteString(a.S)
		}
	}
	return sb.String()
}

// ---- validity -------------------------------------------------------------

func okName(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_-/!$&*+.:;<>?[]^`|", c) >= 0) {
			return false
		}
	}
	return true
}

func isLetterB(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func okKey(s string) bool {
	if !okName(s) {
		return false
	}
	if s[0] >= '0' && s[0] <= '9' {
		return allDigits(s)
	}
	return true
}

func allDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

func okWS(s string) bool { return strings.Trim(s, " \t\r\n") == "" }

func okLine(s string) bool { return !strings.ContainsAny(s, "\n\x00") && validText(s) }

func validText(s string) bool {
	for _, r := range s {
		if r == 0xFFFD || r == 0xFEFF || r == 0 {
			return false
		}
	}
	return true
}

func (d *Doc) Valid() bool {
	if !okWS(d.Tail) {
		return false
	}
	for i := range d.Items {
		if !d.Items[i].valid() {
			return false
		}
	}
	return true
}

func (it *Item) valid() bool {
	if !okWS(it.Pre) || it.Style < 0 || it.Style >= len(wsSets) {
		return false
	}
	low := strings.ToLower(it.Type)
	switch it.K {
	case "c":
		return okLine(it.Text)
	case "p":
		if low != "preamble" || it.Val == nil {
			return false
		}
		if it.Val.K == "c" || it.Paren && it.Val.K == "b" {
			return false
		}
		// A comment between the opener and a brace string changes the lexing.
		return it.Val.valid()
	case "s":
		return low == "string" && len(it.Tags) == 1 && it.Tags[0].Cmt == "" && it.Tags[0].valid()
	case "e":
		if low == "" || low == "string" || low == "preamble" || low == "comment" {
			return false
		}
		for i := 0; i < len(low); i++ {
			if !isLetterB(low[i]) && low[i] != '_' {
				return false
			}
		}
		if it.Type[0] == '_' || len(it.Type) < 2 {
			return false
		}
		if it.Trail && len(it.Keys) == 0 && len(it.Tags) == 0 {
			return false
		}
		for _, k := range it.Keys {
			if !okKey(k) {
				return false
			}
		}
		for j := range it.Tags {
			if !it.Tags[j].valid() {
				return false
			}
		}
		return true
	}
	return false
}

func (t *Tag) valid() bool {
	if !okName(t.Name) || !isLetterB(t.Name[0]) || !okLine(t.Cmt) {
		return false
	}
	if t.Name == "url" {
		// The url tag has its own lexing rules: plain address or \url{..}.
		if t.Val.K != "b" || len(t.Val.Atoms) != 1 {
			return false
		}
		a := t.Val.Atoms[0]
		if !(a.K == "u" || a.K == "w" && a.S != "") {
			return false
		}
	}
	return t.Val.valid()
}

func (v *Val) valid() bool {
	switch v.K {
	case "n":
		return allDigits(v.S)
	case "i":
		return okName(v.S) && isLetterB(v.S[0])
	case "b":
		return validAtoms(v.Atoms, false)
	case "q":
		return validAtoms(v.Atoms, true)
	case "c":
		if len(v.Parts) < 2 {
			return false
		}
		for i := range v.Parts {
			p := &v.Parts[i]
			switch p.K {
			case "n", "i":
			case "q":
				if i != len(v.Parts)-1 {
					return false
				}
			default:
				return false
			}
			if !p.valid() {
				return false
			}
		}
		return true
	}
	return false
}

// validAtoms: q0 means directly inside quotes, at brace depth 0.
func validAtoms(as []Atom, q0 bool) bool {
	for i := range as {
		a := &as[i]
		switch a.K {
		case "w":
			if strings.ContainsAny(a.S, "{}$,~\\ \t\r\n\x00") || !validText(a.S) {
				return false
			}
			if q0 && strings.Contains(a.S, `"`) {
				return false
			}
		case "s":
			if !okWS(a.S) {
				return false
			}
		case ",", "~":
		case "m":
			if strings.ContainsAny(a.S, "$\n\"\\{}\x00") || !validText(a.S) {
				return false
			}
		case "e":
			if len(a.S) != 1 || !strings.Contains(`\$&%_`, a.S) {
				return false
			}
		case "x":
			if strings.ContainsAny(a.S, "{}$,~\\ \t\r\n\"\x00") || !validText(a.S) {
				return false
			}
		case "a":
			if accentRune[a.A+a.S] == "" || a.F < 0 || a.F > 2 {
				return false
			}
			if q0 && a.A == `"` {
				return false
			}
		case "g":
			if !validAtoms(a.Kids, false) {
				return false
			}
		case "k":
			if a.S == "" || a.S[0] == 'c' || a.S == "url" || a.S == "href" || !validAtoms(a.Kids, false) {
				return false
			}
			for j := 0; j < len(a.S); j++ {
				if !isLetterB(a.S[j]) {
					return false
				}
			}
		case "u":
			if a.A != "url" && a.A != "href" || a.S == "" || strings.ContainsAny(a.S, "{}$\\ \t\r\n\"\x00") || !validText(a.S) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ---- generation -----------------------------------------------------------

type docOpts struct {
	maxItems int
	noURL    bool // no url tags or macros
	needBib  bool
	authors  bool // give entries an author tag whose value is a name list
	plain    bool // no macros
	big      int  // approximate size to reach, 0 = whatever
	distinct bool // all keys distinct
	small    bool // no oversized parts
}

func genDoc(r *R, o docOpts) Doc {
	if o.maxItems == 0 {
		o.maxItems = 6
	}
	g := &docGen{r: r, o: o}
	// Swarm: which features this document uses.
	for i := range g.feat {
		g.feat[i] = r.P(2, 3)
	}
	d := Doc{BOM: r.P(1, 20)}
	n := r.N(o.maxItems + 1)
	if o.needBib && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		d.Items = append(d.Items, g.item())
	}
	if o.needBib {
		has := false
		for i := range d.Items {
			has = has || d.Items[i].K == "e"
		}
		if !has {
			d.Items = append(d.Items, g.entry())
		}
	}
	d.Tail = pick(r, "", "\n", " ", "\n\n", "\t")
	if o.big > 0 {
		size := len(d.Render().Src)
		switch r.N(3) {
		case 0: // many entries
			for size < o.big {
				it := g.item()
				if it.K == "c" {
					continue
				}
				d.Items = append(d.Items, it)
				one := Doc{Items: []Item{it}}
				size += len(one.Render().Src)
			}
		case 1: // one long value
			it := g.entry()
			var as []Atom
			for size < o.big {
				w := Atom{K: "w", S: g.word()}
				as = append(as, w, Atom{K: "s", S: " "})
				size += len(w.S) + 1
			}
			it.Tags = append(it.Tags, Tag{Name: "abstract", Val: Val{K: "b", Atoms: as}})
			d.Items = append(d.Items, it)
		default: // long comment and white space, then entries
			it := Item{K: "c", Text: strings.Repeat("x ", max(0, (o.big-size)/2))}
			d.Items = append(d.Items, it, g.entry())
		}
	}
	if o.big == 0 && !o.small && r.P(1, 150) {
		g.grow(&d)
	}
	return d
}

// grow makes one dimension of the document much larger than usual.
func (g *docGen) grow(d *Doc) {
	r := g.r
	entry := func(name string, v Val) {
		it := g.entry()
		it.Tags = append(it.Tags, Tag{Name: name, Val: v})
		at := r.N(len(d.Items) + 1)
		d.Items = append(d.Items[:at:at], append([]Item{it}, d.Items[at:]...)...)
	}
	atoms := func(as ...Atom) { entry("note", Val{K: "b", Atoms: as}) }
	long := pick(r, 70, 140, 300, 1100, 5000)
	wide := pick(r, 20, 40, 70, 140, 300, 600)
	switch r.N(13) {
	case 0:
		for ; wide > 0; wide-- {
			d.Items = append(d.Items, g.item())
		}
	case 1:
		it := g.entry()
		for ; wide > 0; wide-- {
			it.Tags = append(it.Tags, Tag{Name: fmt.Sprintf("t%d", wide), Val: g.val(true)})
		}
		d.Items = append(d.Items, it)
	case 2:
		a := Atom{K: "g", Kids: g.atoms(r.N(3), 4, false)}
		words := r.P(1, 2)
		for m := pick(r, 70, 130, 260, 1100, 3000); m > 0; m-- {
			kids := []Atom{a}
			if words {
				kids = []Atom{{K: "w", S: "inside"}, a, {K: "w", S: "outside"}}
			}
			a = Atom{K: "g", Kids: kids}
		}
		atoms(a)
	case 3:
		atoms(Atom{K: "w", S: strings.Repeat(pick(r, "a", "Word", "é", "-", "日"), long)})
	case 4:
		it := g.entry()
		it.Keys = []string{strings.Repeat(pick(r, "k", "Key:", "a-b"), long)}
		d.Items = append(d.Items, it)
	case 5:
		it := g.entry()
		for ; wide > 0; wide-- {
			it.Keys = append(it.Keys, g.key())
		}
		d.Items = append(d.Items, it)
	case 6:
		v := Val{K: "c"}
		for m := pick(r, 100, 200, 600); m > 0; m-- {
			v.Parts = append(v.Parts, Val{K: "i", S: pick(r, "feb", "y")})
		}
		entry("note", v)
	case 7:
		atoms(g.atoms(pick(r, 70, 140, 300, 1100), 0, false)...)
	case 8:
		entry(pick(r, "author", "editor"), g.nameList(wide))
	case 9:
		entry(strings.Repeat(pick(r, "t", "Tag-", "x1"), long), g.val(true))
	case 10:
		for ; wide > 0; wide-- {
			d.Items = append(d.Items, Item{K: "c", Text: g.comment()})
		}
		d.Items = append(d.Items, g.entry())
	case 11:
		switch r.N(6) {
		case 0:
			atoms(Atom{K: "m", S: strings.Repeat(pick(r, "x", "a b"), long)})
		case 1:
			atoms(Atom{K: "k", S: strings.Repeat("macro", long/5), Kids: g.atoms(2, 1, false)})
		case 2:
			entry("note", Val{K: "n", S: strings.Repeat("7", long)})
		case 3:
			entry("note", Val{K: "i", S: strings.Repeat("abb", long)})
		case 4:
			it := g.entry()
			it.Type = strings.Repeat("type", long/4)
			d.Items = append(d.Items, it)
		case 5:
			it := g.entry()
			it.Pre = strings.Repeat(pick(r, "\n", " ", "\r\n", "\t"), long)
			d.Items = append(d.Items, it)
		}
	case 12:
		d.Items = append(d.Items, Item{K: "c", Text: strings.Repeat(pick(r, "c", "% ", "é"), long)}, g.entry())
	}
}

type docGen struct {
	r    *R
	o    docOpts
	feat [16]bool
	keyN int
}

func (g *docGen) item() Item {
	r := g.r
	switch n := r.N(10); {
	case n < 1 && g.feat[0]:
		return Item{K: "c", Pre: pick(r, "", "\n", "  "), Text: g.comment(), Style: 0}
	case n < 2 && g.feat[1]:
		it := Item{K: "p", Pre: g.pre(), Type: pick(r, "preamble", "PREAMBLE", "pReamble"), Style: g.style()}
		it.Paren = r.P(1, 5)
		v := g.val(false)
		for v.K == "c" || it.Paren && v.K == "b" {
			v = g.val(false)
		}
		it.Val = &v
		return it
	case n < 4 && g.feat[2]:
		it := Item{K: "s", Pre: g.pre(), Type: pick(r, "string", "STRING", "String"), Style: g.style()}
		it.Paren = r.P(1, 5)
		it.Trail = r.P(1, 4)
		it.Tags = []Tag{{Name: g.tagName(), Val: g.val(false)}}
		for it.Tags[0].Name == "url" {
			it.Tags[0].Name = g.tagName()
		}
		return it
	}
	return g.entry()
}

func (g *docGen) pre() string {
	if g.r.P(1, 12) {
		return blanks(g.r)
	}
	return pick(g.r, "", "\n", "\n\n", " ", "\r\n", "\t\n ")
}

// blanks is a long run of white space.
func blanks(r *R) string {
	var sb strings.Builder
	for n := r.In(3, 30); n > 0; n-- {
		sb.WriteString(pick(r, " ", " ", "\n", "\n", "\t", "\r\n"))
	}
	return sb.String()
}

func (g *docGen) comment() string {
	return pick(g.r, "", " note", " @book{x}", " {", "}", " \"quote", "% a, b = c", " æ", " # =")
}

func (g *docGen) entry() Item {
	r := g.r
	it := Item{K: "e", Pre: g.pre(), Style: g.style()}
	it.Type = pick(r, "article", "Book", "MISC", "inProceedings", "ab", "tech_report", "stringy", "comments")
	it.Paren = g.feat[3] && r.P(1, 5)
	nk := 1
	if g.feat[4] && r.P(1, 6) {
		nk = r.In(0, 3)
	}
	for i := 0; i < nk; i++ {
		it.Keys = append(it.Keys, g.key())
	}
	nt := r.N(4)
	if r.P(1, 15) {
		nt = r.In(5, 24)
	}
	for i := 0; i < nt; i++ {
		t := Tag{Name: g.tagName()}
		if r.P(1, 30) { // names an entry
			t = Tag{Name: pick(r, "crossref", "xdata", "ids", "related"), Val: Val{K: "b", Atoms: []Atom{{K: "w", S: pick(r, "k1", "k2", "k3", "key", "a")}}}}
		} else if t.Name == "url" {
			if r.P(1, 2) {
				t.Val = Val{K: "b", Atoms: []Atom{{K: "u", A: "url", S: g.url()}}}
			} else {
				t.Val = Val{K: "b", Atoms: []Atom{{K: "w", S: pick(r, "http://a.b/c", "https://x.org/?q=1%20", "ftp:x")}}}
			}
		} else {
			t.Val = g.val(true)
		}
		if g.feat[5] && r.P(1, 6) {
			t.Cmt = g.comment()
		}
		it.Tags = append(it.Tags, t)
	}
	if g.o.authors && r.P(3, 4) {
		it.Tags = append(it.Tags, Tag{Name: pick(r, "author", "author", "Author", "editor"), Val: g.names()})
	}
	it.Trail = (len(it.Tags) > 0 || len(it.Keys) > 0) && r.P(1, 3)
	it.After = g.feat[6] && r.P(1, 6)
	return it
}

func (g *docGen) key() string {
	r := g.r
	g.keyN++
	if g.o.distinct {
		return fmt.Sprintf("k%d", g.keyN)
	}
	if r.P(1, 10) {
		return g.name()
	}
	return pick(r, "key", "a", "Knuth:1984", "x-y_z", "19", "a+b/c", "doe.2001", "k"+fmt.Sprint(r.N(9)))
}

// name is any legal name that starts with a letter.
func (g *docGen) name() string {
	const chars = "abcXYZ0189_-/!$&*+.:;<>?[]^`|"
	b := []byte{chars[g.r.N(6)]}
	for n := g.r.N(12); n > 0; n-- {
		b = append(b, chars[g.r.N(len(chars))])
	}
	return string(b)
}

func (g *docGen) tagName() string {
	r := g.r
	if r.P(1, 15) {
		return g.name()
	}
	for {
		s := pick(r, "title", "year", "Journal", "note", "pages", "url", "x", "DOI", "month", "volume-no", "author")
		if s == "url" && g.o.noURL {
			continue
		}
		if s == "author" && !g.o.authors {
			continue
		}
		return s
	}
}

func (g *docGen) url() string {
	return pick(g.r, "http://x.y/~z", "www.example.com", "a,b", "http://h/p?a=b&c=%20", "u")
}

func (g *docGen) val(entry bool) Val {
	r := g.r
	switch n := r.N(12); {
	case n < 1:
		return Val{K: "n", S: pick(r, "2004", "1", "007")}
	case n < 2:
		return Val{K: "i", S: pick(r, "jan", "acm", "x", "J-1")}
	case n < 3 && g.feat[7]:
		v := Val{K: "c"}
		k := r.In(2, 3)
		if r.P(1, 25) {
			k = r.In(4, 90)
		}
		for i := 0; i < k; i++ {
			switch {
			case i == k-1 && r.P(1, 2):
				v.Parts = append(v.Parts, Val{K: "q", Atoms: g.atoms(r.N(3), 0, true)})
			case r.P(1, 3):
				v.Parts = append(v.Parts, Val{K: "n", S: pick(r, "1", "22")})
			default:
				v.Parts = append(v.Parts, Val{K: "i", S: pick(r, "feb", "y")})
			}
		}
		return v
	case n < 6:
		return Val{K: "q", Atoms: g.atoms(r.N(6), 0, true)}
	}
	return Val{K: "b", Atoms: g.atoms(r.N(6), 0, false)}
}

// odd runes are ordinary text to the tokenizer.
var odd = []rune("abYZ019.-+*/|<>()[]=#@%&_^'`!?;:\u00a0\u2028\u2014é\u0301Σß日\U0001F600\u200b\x0b\x0c\x1a\x1b\x7f\u0085")

func (g *docGen) word() string {
	if g.r.P(1, 12) {
		var sb strings.Builder
		for n := g.r.In(1, 10); n > 0; n-- {
			sb.WriteRune(odd[g.r.N(len(odd))])
		}
		return sb.String()
	}
	return pick(g.r, "word", "a", "Title", "x1", "82--101", "été", "日本", "it's", "and", "A.", "e=mc", "#1", "@x", "(y)", "%5", "von", "B;C", "*")
}

func (g *docGen) atoms(n, depth int, q0 bool) []Atom {
	r := g.r
	var as []Atom
	for i := 0; i < n; i++ {
		switch k := r.N(16); {
		case k < 5:
			s := g.word()
			if !q0 && r.P(1, 10) {
				s = pick(r, `"`, `a"b`)
			}
			as = append(as, Atom{K: "w", S: s})
		case k < 8:
			sp := pick(r, " ", " ", "  ", "\n", "\t", "\r\n", "\n  ")
			if r.P(1, 40) {
				sp = blanks(r)
			}
			as = append(as, Atom{K: "s", S: sp})
		case k < 9:
			as = append(as, Atom{K: ","})
		case k < 10 && g.feat[8]:
			as = append(as, Atom{K: "~"})
		case k < 11 && g.feat[9]:
			as = append(as, Atom{K: "m", S: pick(r, "x", "e=m^2", "a b", "", "~,")})
		case k < 12 && g.feat[10]:
			if r.P(1, 4) {
				as = append(as, Atom{K: "x", S: pick(r, "", "z", "set")})
			} else {
				as = append(as, Atom{K: "e", S: pick(r, `\`, "$", "&", "%", "_")})
			}
		case k < 13 && g.feat[11]:
			a := g.accent()
			for q0 && a.A == `"` {
				a = g.accent()
			}
			as = append(as, a)
		case k < 15 && g.feat[12] && depth == 0 && r.P(1, 50): // nested deeply
			a := Atom{K: "g", Kids: g.atoms(r.N(3), 4, false)}
			for m := r.In(4, 60); m > 0; m-- {
				a = Atom{K: "g", Kids: []Atom{a}}
			}
			as = append(as, a)
		case k < 15 && g.feat[12] && depth < 4:
			as = append(as, Atom{K: "g", Kids: g.atoms(r.N(4), depth+1, false)})
		case k < 16 && g.feat[13] && !g.o.plain:
			if r.P(1, 4) && !g.o.noURL {
				as = append(as, Atom{K: "u", A: pick(r, "url", "href"), S: g.url()})
			} else {
				as = append(as, Atom{K: "k", S: pick(r, "emph", "o", "ss", "textbf", "LaTeX"), Kids: g.atoms(r.N(3), depth+1, false)})
			}
		default:
			as = append(as, Atom{K: "w", S: g.word()})
		}
	}
	return as
}

func (g *docGen) accent() Atom {
	r := g.r
	k := pick(r, "'a", "'e", "'o", "'E", "`a", "`e", "^o", "^I", "\"o", "\"u", "\"A", "~n", "~O", "cc", "cC", ".z", ".E")
	return Atom{K: "a", A: k[:1], S: k[1:], F: pick(r, 0, 0, 1, 2)}
}

// names makes a name list: "First von Last and Last, First and ...".
func (g *docGen) names() Val { return g.nameList(g.r.In(1, 3)) }

func (g *docGen) nameList(n int) Val {
	r := g.r
	var as []Atom
	for i := 0; i < n; i++ {
		if i > 0 {
			as = append(as, Atom{K: "s", S: " "}, Atom{K: "w", S: "and"}, Atom{K: "s", S: pick(r, " ", "\n  ")})
		}
		last := func() []Atom {
			switch r.N(4) {
			case 0:
				return []Atom{{K: "g", Kids: []Atom{{K: "w", S: "van"}, {K: "s", S: " "}, {K: "w", S: "Dam"}}}}
			case 1:
				return []Atom{{K: "w", S: "M"}, g.accent(), {K: "w", S: "ller"}}
			}
			return []Atom{{K: "w", S: pick(r, "Knuth", "Doe", "Lee", "others", "Σ")}}
		}
		sp := Atom{K: "s", S: " "}
		switch r.N(5) {
		case 0:
			as = append(as, last()...)
		case 1:
			as = append(as, Atom{K: "w", S: "Don"}, sp)
			as = append(as, last()...)
		case 2:
			as = append(as, Atom{K: "w", S: "Don"}, sp, Atom{K: "w", S: "von"}, sp)
			as = append(as, last()...)
		case 3:
			as = append(as, last()...)
			as = append(as, Atom{K: ","}, sp, Atom{K: "w", S: "Don"}, Atom{K: "~"}, Atom{K: "w", S: "E."})
		case 4:
			as = append(as, Atom{K: "w", S: "de"}, sp)
			as = append(as, last()...)
			as = append(as, Atom{K: ","}, Atom{K: "w", S: "Jr."}, Atom{K: ","}, sp, Atom{K: "w", S: "Don"})
		}
	}
	k := "b"
	if r.P(1, 4) {
		k = "q"
		for i := range as {
			if as[i].K == "a" && as[i].A == `"` {
				k = "b"
			}
		}
	}
	return Val{K: k, Atoms: as}
}

func (g *docGen) style() int {
	if g.r.P(1, 12) {
		return 4
	}
	return g.r.N(4)
}
