package main

// Damage is one corruption of a byte stream.
type Damage struct {
	K string `json:"k"` // cut flip drop dup swap ins
	A int    `json:"a"`
	N int    `json:"n,omitempty"`
	B int    `json:"b,omitempty"`
	S string `json:"s,omitempty"`
	H []byte `json:"x,omitempty"` // bytes that are not text, behind S
}

func clampN(x, lo, hi int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

// apply returns the damaged copy of src.
func (d Damage) apply(src []byte) []byte {
	n := len(src)
	a := clampN(d.A, 0, n)
	switch d.K {
	case "cut":
		return append([]byte(nil), src[:a]...)
	case "flip":
		out := append([]byte(nil), src...)
		if a < n {
			out[a] ^= byte(d.B | 1<<(uint(d.N)%8))
		}
		return out
	case "set":
		out := append([]byte(nil), src...)
		if a < n {
			out[a] = byte(d.B)
		}
		return out
	case "drop":
		e := clampN(a+d.N, a, n)
		return append(append([]byte(nil), src[:a]...), src[e:]...)
	case "dup":
		e := clampN(a+d.N, a, n)
		out := append([]byte(nil), src[:e]...)
		return append(append(out, src[a:e]...), src[e:]...)
	case "swap": // swap [a,a+n) with the n bytes after it
		e := clampN(a+d.N, a, n)
		f := clampN(e+d.N, e, n)
		out := append([]byte(nil), src[:a]...)
		out = append(out, src[e:f]...)
		out = append(out, src[a:e]...)
		return append(out, src[f:]...)
	case "ins":
		out := append([]byte(nil), src[:a]...)
		for i := 0; i < clampN(d.N, 1, 2000); i++ {
			out = append(append(out, d.S...), d.H...)
		}
		return append(out, src[a:]...)
	case "enc": // another encoding of the same text
		var out []byte
		for _, b := range src {
			switch d.N % 3 {
			case 0:
				out = append(out, b, 0)
			case 1:
				out = append(out, 0, b)
			default:
				out = append(out, b, 0, 0, 0)
			}
		}
		return append(append([]byte(nil), d.H...), out...)
	}
	return append([]byte(nil), src...)
}

// firstDiff is the first offset at which b differs from a; -1 if equal.
func firstDiff(a, b []byte) int {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) == len(b) {
		return -1
	}
	return n
}

var nasty = []string{"{", "}", "\"", "@", ",", "=", "#", "(", ")", "%", "\\", "$", "~", "\x00", "\xff", "\xef\xbb\xbf", "é", "\n", " ", "@comment", "@string", "@preamble{", "\\c ", "\\'", "\\url{", "\\\"", "\\", "{{", "}}", "0", "a", "-", "\\o", "\\'{", "\\^", "\xc3", "'", "|", "={", "=\""}

var magic = [][]byte{nil, []byte("\xff\xfe"), []byte("\xfe\xff"), []byte("\xff\xfe\x00\x00"), []byte("\x00\x00\xfe\xff"), []byte("\xef\xbb\xbf"),
	[]byte("\xef\xbb\xbf\xef\xbb\xbf"), []byte("\x1f\x8b\x08\x00"), []byte("PK\x03\x04"), []byte("BZh9"), []byte("\xfd7zXZ\x00"), []byte("\x28\xb5\x2f\xfd"),
	[]byte("#!"), []byte("%PDF-1.4\n"), []byte("%!PS\n"), []byte("%% \n"), []byte("\xff"), []byte("\xc3"), []byte("\xe2\x82"), []byte("\xed\xa0\x80"), []byte("\xf8\x88"), []byte("\xc0\x80"),
	[]byte("\x1a"), []byte("\x00"), []byte("\x00\x00\x00\x00"), []byte("\x0c"), []byte("\x0b"), []byte("\xc2\x85"), []byte("\xe2\x80\xa8"), []byte("\xc2\xa0"), []byte("\\input{x}\n"), []byte("{\n"), []byte("[{")}

// genDamage damages src (whose structure is known), preferring offsets near
// tokens of the stream.
func genDamage(r *R, rd *Rendered) Damage {
	n := len(rd.Src)
	at := func() int {
		if len(rd.Decls) > 0 && r.P(2, 3) {
			it := rd.Decls[r.N(len(rd.Decls))]
			switch r.N(4) {
			case 0:
				return it.E - r.N(3)
			case 1:
				if len(it.Strs) > 0 {
					s := it.Strs[r.N(len(it.Strs))]
					return s.S + r.N(s.E-s.S+1)
				}
			}
			if len(it.Toks) > 0 {
				t := it.Toks[r.N(len(it.Toks))]
				return t.S + r.N(t.E-t.S+1)
			}
		}
		return r.N(n + 1)
	}
	if r.P(1, 30) {
		switch r.N(4) {
		case 0: // signatures of other kinds of file
			return Damage{K: "ins", H: magic[r.N(len(magic))]}
		case 1:
			return Damage{K: "enc", N: r.N(3), H: magic[r.N(6)]}
		case 2:
			return Damage{K: "ins", A: at(), H: magic[r.N(len(magic))]}
		default: // much junk
			return Damage{K: "ins", A: at(), N: pick(r, 5, 12, 30, 100, 300), S: nasty[r.N(len(nasty))] + pick(r, "", "\n", nasty[r.N(len(nasty))]+"\n")}
		}
	}
	switch r.N(8) {
	case 0, 1:
		return Damage{K: "cut", A: at()}
	case 2:
		return Damage{K: "flip", A: at(), N: r.N(8)}
	case 3:
		return Damage{K: "drop", A: at(), N: pick(r, 1, 1, 2, 3, 10, 64)}
	case 4:
		return Damage{K: "dup", A: at(), N: pick(r, 1, 2, 5, 20, 100)}
	case 5:
		return Damage{K: "swap", A: at(), N: pick(r, 1, 2, 5, 20)}
	case 6:
		s := nasty[r.N(len(nasty))]
		return Damage{K: "set", A: at(), B: int(s[0])}
	default:
		s := nasty[r.N(len(nasty))]
		if r.P(1, 3) {
			s += nasty[r.N(len(nasty))]
		}
		return Damage{K: "ins", A: at(), S: s}
	}
}

func validDamage(d Damage) bool {
	switch d.K {
	case "cut", "flip", "drop", "dup", "swap", "set", "ins", "enc":
	default:
		return false
	}
	return (d.K != "enc" || len(d.H) <= 16) && d.A >= 0 && d.N >= 0 && d.B >= 0 && d.B < 256
}
