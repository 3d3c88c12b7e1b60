package main

import (
	"sort"
	"strings"

	"github.com/andygello555/json-dom/jom/json_map"
)

// ---- steps and their denotation, independent of the code under test

type step struct {
	kind  string // name index list wild slice first lookup filter
	name  string
	idx   []int
	s, e  *int
	expr  string
	truth func(root, v interface{}) (bool, bool) // truthy, failed
}

type filt struct {
	expr  string
	truth func(root, v interface{}) (bool, bool)
}

func jsTruthy(v interface{}) bool {
	switch v := v.(type) {
	case nil:
		return false
	case bool:
		return v
	case float64:
		return v != 0
	case string:
		return v != ""
	}
	return true
}

func member(v interface{}, k string) (interface{}, bool, bool) { // value, defined, failed
	switch v := v.(type) {
	case nil:
		return nil, false, true
	case M:
		e, ok := v[k]
		return e, ok, false
	}
	return nil, false, false
}

func always(b bool) func(r, v interface{}) (bool, bool) {
	return func(r, v interface{}) (bool, bool) { return b, false }
}

var filters = []filt{
	{"true", always(true)},
	{"false", always(false)},
	{"0", always(false)},
	{"'a'", always(true)},
	{"@ === 1", func(r, v interface{}) (bool, bool) { f, ok := v.(float64); return ok && f == 1, false }},
	{"@ !== null", func(r, v interface{}) (bool, bool) { return v != nil, false }},
	{"@", func(r, v interface{}) (bool, bool) { return jsTruthy(v), false }},
	{"@.a", func(r, v interface{}) (bool, bool) { e, ok, f := member(v, "a"); return ok && jsTruthy(e), f }},
	{"@ && @.a", func(r, v interface{}) (bool, bool) {
		if !jsTruthy(v) {
			return false, false
		}
		e, ok, f := member(v, "a")
		return ok && jsTruthy(e), f
	}},
	{"@ === '@'", func(r, v interface{}) (bool, bool) { s, ok := v.(string); return ok && s == "@", false }},
	{"@ === \"x\"", func(r, v interface{}) (bool, bool) { s, ok := v.(string); return ok && s == "x", false }},
	{"typeof @ === 'number' && @ > 0", func(r, v interface{}) (bool, bool) { f, ok := v.(float64); return ok && f > 0, false }},
	{"@.b.c", func(r, v interface{}) (bool, bool) {
		e, ok, f := member(v, "b")
		if f {
			return false, true
		}
		if !ok {
			return false, true
		}
		e, ok, f = member(e, "c")
		return ok && jsTruthy(e), f
	}},
	{"nope", func(r, v interface{}) (bool, bool) { return false, true }},
	{"@ ===", func(r, v interface{}) (bool, bool) { return false, true }},
	{"$.x === @", func(r, v interface{}) (bool, bool) {
		m := r.(M)
		e, ok := m["x"]
		if !ok {
			return false, true
		}
		if a, ok := e.(A); ok && len(a) == 1 {
			e = a[0]
		}
		return sameScalar(e, v), false
	}},
	{"'é€'.length === 2 && $.x === @ ", func(r, v interface{}) (bool, bool) {
		e, ok := rootX(r)
		return ok && sameScalar(e, v), !ok
	}},
	{"$.x === $.x && @ === 1", func(r, v interface{}) (bool, bool) {
		e, ok := rootX(r)
		f, num := v.(float64)
		return ok && sameScalar(e, e) && num && f == 1, !ok
	}},
	{"'$.z' === \"$.z\" && @ === 1", func(r, v interface{}) (bool, bool) { f, ok := v.(float64); return ok && f == 1, false }},
	{"'it\\'s @' === \"it's \\u0040\" && @ !== 1", func(r, v interface{}) (bool, bool) { f, ok := v.(float64); return !ok || f != 1, false }},
	{"null", always(false)},
	{"undefined", always(false)},
	{"NaN", always(false)},
	{"''", always(false)},
	{"-1", always(true)},
	{"0.5", always(true)},
	{"[]", always(true)},
	{"({})", always(true)},
	{"1/0", always(true)},
	{"'false'", always(true)},
	{"'0'", always(true)},
	{"!@", func(r, v interface{}) (bool, bool) { return !jsTruthy(v), false }},
	{"@ || 1", always(true)},
	{"(@)", func(r, v interface{}) (bool, bool) { return jsTruthy(v), false }},
	{"@ == null", func(r, v interface{}) (bool, bool) { return v == nil, false }},
	{"@ === 1 || @ === 'x'", func(r, v interface{}) (bool, bool) {
		f, num := v.(float64)
		s, str := v.(string)
		return num && f == 1 || str && s == "x", false
	}},
	{"@['a']", func(r, v interface{}) (bool, bool) { e, ok, f := member(v, "a"); return ok && jsTruthy(e), f }},
	{"\"@\" + @ === '@x'", func(r, v interface{}) (bool, bool) {
		if a, ok := v.(A); ok {
			if len(a) != 1 {
				return false, false
			}
			s, ok := a[0].(string)
			if _, deep := a[0].(A); deep {
				return "@"+fs("%v", jsConcat(v)) == "@x", false
			}
			return ok && s == "x", false
		}
		s, ok := v.(string)
		return ok && s == "x", false
	}},
	{"JSON.stringify([@]) === JSON.stringify([ @ ])", always(true)},
	{"throw 1", func(r, v interface{}) (bool, bool) { return false, true }},
	{"@ === 1 ? nope : true", func(r, v interface{}) (bool, bool) { f, num := v.(float64); return true, num && f == 1 }},
	{"@ !== null && @.nope.nope", func(r, v interface{}) (bool, bool) { return false, v != nil }},
	{"q = @, q === q || q !== q", always(true)},
	{"(function(){ var s = 0; for (var i = 0; i < 3; i++) { s += i } return s === 3 && @ })()", func(r, v interface{}) (bool, bool) { return jsTruthy(v), false }},
	{"[@, @].length === 2 && @ === @ && typeof @ !== 'object'", func(r, v interface{}) (bool, bool) { return sameScalar(v, v) && v != nil, false }},
}

func jsConcat(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return ""
	case string:
		return v
	case A:
		var p []string
		for _, e := range v {
			p = append(p, jsConcat(e))
		}
		return strings.Join(p, ",")
	}
	return "?"
}

func rootX(r interface{}) (interface{}, bool) {
	e, ok := r.(M)["x"]
	if a, isA := e.(A); isA && len(a) == 1 {
		e = a[0]
	}
	return e, ok
}

// sameScalar: JS === between two JSON values parsed apart (objects are never identical).
func sameScalar(a, b interface{}) bool {
	switch a.(type) {
	case M, A:
		return false
	}
	switch b.(type) {
	case M, A:
		return false
	}
	return a == b
}

func render(steps []step) string {
	var b strings.Builder
	b.WriteString("$")
	firsts := 0
	for i, s := range steps {
		if s.kind == "first" {
			firsts++
			if i+1 < len(steps) && steps[i+1].kind == "first" {
				continue
			}
			b.WriteString(strings.Repeat(".", firsts+2))
			firsts = 0
			continue
		}
		afterFirst := i > 0 && steps[i-1].kind == "first"
		switch s.kind {
		case "name":
			if !afterFirst {
				b.WriteString(".")
			}
			b.WriteString(s.name)
		case "lookup":
			b.WriteString(".." + s.name)
		case "wild":
			if s.name == "." {
				if !afterFirst {
					b.WriteString(".")
				}
				b.WriteString("*")
			} else {
				b.WriteString("[*]")
			}
		case "index":
			b.WriteString(fs("[%d]", s.idx[0]))
		case "list":
			b.WriteString("[")
			for j, n := range s.idx {
				if j > 0 {
					b.WriteString(s.name)
				}
				b.WriteString(fs("%d", n))
			}
			b.WriteString("]")
		case "slice":
			b.WriteString("[")
			if s.s != nil {
				b.WriteString(fs("%d", *s.s))
			}
			b.WriteString(":")
			if s.e != nil {
				b.WriteString(fs("%d", *s.e))
			}
			b.WriteString("]")
		case "filter":
			b.WriteString("[?(" + s.expr + ")]")
		}
	}
	return b.String()
}

func ip(i int) *int { return &i }

// step picks a step; v is a value it is likely to meet.
func (o *orc) step(v interface{}, kinds string) step {
	for {
		k := kinds[o.rng.Intn(len(kinds))]
		switch k {
		case 'n':
			n := o.key()
			if m, ok := v.(M); ok && len(m) > 0 && o.rng.Intn(5) > 0 {
				n = pick(o, keysOf(m))
			}
			return step{kind: "name", name: n}
		case 'i':
			n := o.rng.Intn(4)
			if a, ok := v.(A); ok && o.rng.Intn(5) > 0 {
				n = o.rng.Intn(len(a) + 1)
			}
			if o.rng.Intn(15) == 0 {
				n = -1 - o.rng.Intn(2)
			}
			return step{kind: "index", idx: []int{n}}
		case 'l':
			l := 5
			if a, ok := v.(A); ok && o.rng.Intn(5) > 0 && len(a) > 0 {
				l = len(a)
			}
			s := step{kind: "list", name: []string{",", ", ", ",  "}[o.rng.Intn(3)]}
			for i := 0; i < 2+o.rng.Intn(2); i++ {
				s.idx = append(s.idx, o.rng.Intn(l))
			}
			return s
		case 'w':
			return step{kind: "wild", name: []string{".", "["}[o.rng.Intn(2)]}
		case 's':
			l := 4
			if a, ok := v.(A); ok {
				l = len(a)
			}
			switch o.rng.Intn(3) {
			case 0:
				return step{kind: "slice", s: ip(o.rng.Intn(2*l+2) - l)}
			case 1:
				return step{kind: "slice", e: ip(o.rng.Intn(2*l+2) - l)}
			}
			a, b := o.rng.Intn(l+1), o.rng.Intn(l+2)
			if a > b && o.rng.Intn(4) > 0 {
				a, b = b, a
			}
			return step{kind: "slice", s: ip(a), e: ip(b)}
		case 'f':
			return step{kind: "first"}
		case 'r':
			return step{kind: "lookup", name: o.key()}
		case 'q':
			f := filters[o.rng.Intn(len(filters))]
			return step{kind: "filter", expr: f.expr, truth: f.truth}
		}
	}
}

func pick(o *orc, xs []string) string { return xs[o.rng.Intn(len(xs))] }

func keysOf(m M) []string {
	ks := make([]string, 0)
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// steps builds a path that mostly follows the document. At most one filter (chained filters are a known finding).
func (o *orc) steps(root M, max int, kinds string) []step {
	var out []step
	var v interface{} = root
	n := 1 + o.rng.Intn(max)
	for i := 0; i < n; i++ {
		ks := kinds
		if o.rng.Intn(4) > 0 {
			switch v.(type) {
			case M:
				ks = keep(kinds, "nwfrq")
			case A:
				ks = keep(kinds, "nilwsqr")
			}
		}
		if len(out) > 0 && out[len(out)-1].kind == "first" {
			ks = strings.ReplaceAll(ks, "r", "")
		}
		if ks == "" {
			ks = kinds
		}
		s := o.step(v, ks)
		if len(out) > 0 && out[len(out)-1].kind == "first" && s.kind == "lookup" {
			continue
		}
		out = append(out, s)
		if s.kind == "filter" {
			kinds = strings.ReplaceAll(kinds, "q", "")
			if kinds == "" {
				break
			}
		}
		one := s
		if s.kind == "list" {
			one = step{kind: "index", idx: s.idx[:1]}
		}
		nv, failed := read1(root, v, one)
		if failed {
			if o.rng.Intn(3) == 0 {
				break
			}
			continue
		}
		v = nv
	}
	return out
}

func keep(s, set string) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune(set, r) {
			return r
		}
		return -1
	}, s)
}

func has(steps []step, kind string) bool {
	for _, s := range steps {
		if s.kind == kind {
			return true
		}
	}
	return false
}

func sliceBounds(s step, n int) (int, int, bool) {
	a, b := 0, n
	if s.s != nil {
		a = *s.s
	}
	if s.e != nil {
		b = *s.e
	}
	if a < 0 {
		a += n
	}
	if b < 0 {
		b += n
	}
	return a, b, a >= 0 && a <= b && b <= n
}

func firstKey(m M) (string, bool) {
	for _, k := range keysOf(m) {
		switch m[k].(type) {
		case M, A:
			return k, true
		}
	}
	return "", false
}

func lookup(v interface{}, name string, out *A) {
	switch v := v.(type) {
	case M:
		for _, k := range keysOf(v) {
			if k == name {
				*out = append(*out, v[k])
			}
			lookup(v[k], name, out)
		}
	case A:
		for _, e := range v {
			lookup(e, name, out)
		}
	}
}

// read1: the value one step selects; failed if the step does not apply.
func read1(root M, v interface{}, s step) (interface{}, bool) {
	switch v := v.(type) {
	case M:
		switch s.kind {
		case "name":
			e, ok := v[s.name]
			return e, !ok
		case "wild":
			out := A{}
			for _, k := range keysOf(v) {
				out = append(out, v[k])
			}
			return out, false
		case "first":
			k, ok := firstKey(v)
			if !ok {
				return nil, true
			}
			return v[k], false
		case "lookup":
			return lookup1(v, s.name), false
		case "filter":
			out := A{}
			for _, k := range keysOf(v) {
				t, f := s.truth(root, v[k])
				if f {
					return nil, true
				}
				if t {
					out = append(out, v[k])
				}
			}
			if len(v) == 0 && strings.Contains(s.expr, "$.x") {
				_, ok := root["x"]
				return out, !ok
			}
			return out, false
		}
		return nil, true
	case A:
		switch s.kind {
		case "name":
			out := A{}
			for _, e := range v {
				if m, ok := e.(M); ok {
					if x, ok := m[s.name]; ok {
						out = append(out, x)
					}
				}
			}
			return out, false
		case "index":
			if s.idx[0] < 0 || s.idx[0] >= len(v) {
				return nil, true
			}
			return v[s.idx[0]], false
		case "wild":
			return v, false
		case "slice":
			a, b, ok := sliceBounds(s, len(v))
			if !ok {
				return nil, true
			}
			return v[a:b], false
		case "lookup":
			return lookup1(v, s.name), false
		case "filter":
			out := A{}
			for _, e := range v {
				t, f := s.truth(root, e)
				if f {
					return nil, true
				}
				if t {
					out = append(out, e)
				}
			}
			if len(v) == 0 && strings.Contains(s.expr, "$.x") {
				_, ok := root["x"]
				return out, !ok
			}
			return out, false
		}
		return nil, true
	}
	return nil, true
}

func lookup1(v interface{}, name string) A {
	found := A{}
	switch v := v.(type) {
	case M:
		for _, k := range keysOf(v) {
			lookup(v[k], name, &found)
		}
	case A:
		for _, e := range v {
			lookup(e, name, &found)
		}
	}
	out := A{}
	for _, f := range found {
		if a, ok := f.(A); ok {
			out = append(out, a...)
		} else {
			out = append(out, f)
		}
	}
	return out
}

// alts expands index lists.
func alts(steps []step) [][]step {
	out := [][]step{nil}
	for _, s := range steps {
		var next [][]step
		for _, p := range out {
			if s.kind == "list" {
				for _, n := range s.idx {
					next = append(next, append(append([]step{}, p...), step{kind: "index", idx: []int{n}}))
				}
			} else {
				next = append(next, append(append([]step{}, p...), s))
			}
		}
		out = next
	}
	return out
}

// readPath: all values of all alternatives.
func readPath(root M, steps []step) (A, bool) {
	out := A{}
	if len(steps) == 0 {
		return out, false
	}
	for _, alt := range alts(steps) {
		var v interface{} = root
		for _, s := range alt {
			var f bool
			if v, f = read1(root, v, s); f {
				return nil, true
			}
		}
		if a, ok := v.(A); ok {
			out = append(out, a...)
		} else {
			out = append(out, v)
		}
	}
	return out, false
}

type setFail struct{}

// writePath: the document after a write (nil deletes), on a copy.
func writePath(root M, steps []step, value interface{}) (res M, failed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(setFail); ok {
				failed = true
				return
			}
			panic(r)
		}
	}()
	cur := cp(root).(M)
	if len(steps) == 0 {
		return cur, false
	}
	for _, alt := range alts(steps) {
		cur = write(cur, alt, cur, value).(M)
	}
	return cur, false
}

func write(root M, steps []step, v interface{}, value interface{}) interface{} {
	if len(steps) == 0 {
		return value
	}
	s, rest := steps[0], steps[1:]
	last := len(rest) == 0
	del := last && value == nil
	setM := func(m M, k string) {
		if del {
			delete(m, k)
		} else {
			m[k] = write(root, rest, m[k], cp(value))
		}
	}
	setA := func(a A, idx []int) A {
		if del {
			drop := map[int]bool{}
			for _, i := range idx {
				drop[i] = true
			}
			out := A{}
			for i, e := range a {
				if !drop[i] {
					out = append(out, e)
				}
			}
			return out
		}
		for _, i := range idx {
			a[i] = write(root, rest, a[i], cp(value))
		}
		return a
	}
	var sub func(v interface{}) interface{}
	sub = func(v interface{}) interface{} {
		switch v := v.(type) {
		case M:
			for _, k := range keysOf(v) {
				if k == s.name {
					setM(v, k)
				} else {
					v[k] = sub(v[k])
				}
			}
		case A:
			for i := range v {
				v[i] = sub(v[i])
			}
		}
		return v
	}
	switch w := v.(type) {
	case M:
		switch s.kind {
		case "name":
			if _, ok := w[s.name]; !ok && !last {
				panic(setFail{})
			}
			setM(w, s.name)
			return w
		case "wild":
			for _, k := range keysOf(w) {
				setM(w, k)
			}
			return w
		case "first":
			k, ok := firstKey(w)
			if !ok {
				panic(setFail{})
			}
			setM(w, k)
			return w
		case "lookup":
			for _, k := range keysOf(w) {
				w[k] = sub(w[k])
			}
			return w
		case "filter":
			if _, f := read1(root, w, s); f {
				panic(setFail{})
			}
			var ks []string
			for _, k := range keysOf(w) {
				if t, _ := s.truth(root, w[k]); t {
					ks = append(ks, k)
				}
			}
			for _, k := range ks {
				setM(w, k)
			}
			return w
		}
	case A:
		switch s.kind {
		case "name":
			for _, e := range w {
				if m, ok := e.(M); ok {
					if _, ok := m[s.name]; ok {
						setM(m, s.name)
					}
				}
			}
			return w
		case "index":
			if s.idx[0] < 0 || s.idx[0] >= len(w) {
				panic(setFail{})
			}
			return setA(w, s.idx)
		case "wild":
			return setA(w, rangeInts(0, len(w)))
		case "slice":
			a, b, ok := sliceBounds(s, len(w))
			if !ok {
				panic(setFail{})
			}
			return setA(w, rangeInts(a, b))
		case "lookup":
			for i := range w {
				w[i] = sub(w[i])
			}
			return w
		case "filter":
			if _, f := read1(root, w, s); f {
				panic(setFail{})
			}
			var ix []int
			for i, e := range w {
				if t, _ := s.truth(root, e); t {
					ix = append(ix, i)
				}
			}
			return setA(w, ix)
		}
	}
	panic(setFail{})
}

func rangeInts(a, b int) []int {
	out := []int{}
	for ; a < b; a++ {
		out = append(out, a)
	}
	return out
}

func vals(ns []*json_map.JsonPathNode) A {
	out := A{}
	for _, n := range ns {
		out = append(out, n.Value)
	}
	return out
}

// bag: order-free text of a list.
func bag(a A) string {
	ss := []string{}
	for _, e := range a {
		ss = append(ss, show(e))
	}
	sort.Strings(ss)
	return strings.Join(ss, " | ")
}

func unordered(steps []step) bool {
	return has(steps, "lookup") || has(steps, "filter") || has(steps, "list")
}
