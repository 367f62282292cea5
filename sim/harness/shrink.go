package main

import (
	"bytes"
	"encoding/json"
	"sort"
	"time"
)

// shrink greedily simplifies a JSON value while test keeps succeeding.
func shrink(js []byte, deadline time.Time, test func([]byte) bool) []byte {
	cur := parseJSON(js)
	for {
		improved := false
		walkEdits(cur, func(next any) bool {
			if time.Now().After(deadline) {
				return false
			}
			b, err := json.Marshal(next)
			if err != nil {
				return true
			}
			if test(b) {
				cur = parseJSON(b)
				improved = true
				return false // restart from the simplified value
			}
			return true
		})
		if !improved || time.Now().After(deadline) {
			break
		}
	}
	b, _ := json.Marshal(cur)
	return b
}

func parseJSON(js []byte) any {
	d := json.NewDecoder(bytes.NewReader(js))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	return v
}

type path []any // string keys and int indices

// replace returns v with the element at p replaced (copying along the path).
func replace(v any, p path, x any) any {
	if len(p) == 0 {
		return x
	}
	switch k := p[0].(type) {
	case string:
		m := v.(map[string]any)
		n := make(map[string]any, len(m))
		for a, b := range m {
			n[a] = b
		}
		if y := replace(m[k], p[1:], x); y == deleted {
			delete(n, k)
		} else {
			n[k] = y
		}
		return n
	case int:
		a := v.([]any)
		n := append([]any(nil), a...)
		n[k] = replace(a[k], p[1:], x)
		return n
	}
	return v
}

type del struct{}

var deleted any = &del{}

type located struct {
	p     path
	v     any
	depth int
}

func collect(v any, p path, out *[]located) {
	*out = append(*out, located{append(path(nil), p...), v, len(p)})
	switch x := v.(type) {
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			collect(x[k], append(p, k), out)
		}
	case []any:
		for i := range x {
			collect(x[i], append(p, i), out)
		}
	}
}

// walkEdits calls try with simplified copies of root, big simplifications
// first, until try returns false.
func walkEdits(root any, try func(any) bool) {
	var locs []located
	collect(root, nil, &locs)
	sort.SliceStable(locs, func(i, j int) bool { return locs[i].depth < locs[j].depth })
	// Pass 1: remove runs of array elements.
	for _, l := range locs {
		a, ok := l.v.([]any)
		if !ok || len(a) == 0 {
			continue
		}
		for sz := len(a); sz >= 1; sz /= 2 {
			for i := 0; i+sz <= len(a); i += sz {
				n := append(append([]any(nil), a[:i]...), a[i+sz:]...)
				if !try(replace(root, l.p, n)) {
					return
				}
			}
		}
	}
	// Pass 2: drop optional fields, simplify scalars, hoist children.
	for _, l := range locs {
		if len(l.p) > 0 {
			if _, ok := l.p[len(l.p)-1].(string); ok {
				if !try(replace(root, l.p, deleted)) {
					return
				}
			}
		}
		switch x := l.v.(type) {
		case bool:
			if x {
				if !try(replace(root, l.p, false)) {
					return
				}
			}
		case json.Number:
			n, err := x.Int64()
			if err != nil || n == 0 {
				continue
			}
			for _, m := range []int64{0, 1, n / 2, n - 1} {
				if m != n && (m < n || n < 0) {
					if !try(replace(root, l.p, m)) {
						return
					}
				}
			}
		case string:
			if x == "" {
				continue
			}
			cands := []string{""}
			if len(x) > 1 {
				cands = append(cands, x[:len(x)/2], x[len(x)/2:], x[1:], x[:len(x)-1], "a")
			}
			for _, s := range cands {
				if s != x && !try(replace(root, l.p, s)) {
					return
				}
			}
		}
	}
}
