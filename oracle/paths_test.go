package main

import (
	"fmt"
	"strings"
	"testing"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

const ruleDocs = "random JSON documents up to depth 4 over a small key set, and paths that mostly follow the document; distinct by document and path text"

// readCase compares one read with the model. lists compared in order unless order is not fixed.
func (o *orc) readCase(m M, steps []step, p string) {
	o.begin("read %s of %s", p, show(m))
	want, failed := readPath(m, steps)
	d := docOf(m)
	ns, err := d.JsonPathSelector(p)
	if failed {
		if err == nil {
			o.fail("reading a path that does not apply reports no error", "observed", show(vals(ns)))
		}
		return
	}
	if err != nil {
		o.fail("reading a path all of whose steps apply fails", "expected", show(want), "error", err.Error())
	}
	if unordered(steps) {
		o.eq("values read (in any order)", bag(want), bag(vals(ns)))
	} else {
		o.eq("values read", show(want), show(vals(ns)))
	}
}

func (o *orc) orderSafe(steps []step) bool {
	seen := false
	for _, s := range steps {
		if seen && s.kind != "name" && s.kind != "wild" && s.kind != "filter" && s.kind != "lookup" {
			return false
		}
		if s.kind == "lookup" || s.kind == "filter" {
			seen = true
		}
	}
	return true
}

func (o *orc) randRead(kinds, must string) (M, []step) {
	for {
		m := o.object(4)
		if len(m) == 0 && o.rng.Intn(4) > 0 {
			continue
		}
		st := o.steps(m, 4, kinds)
		if must != "" {
			ok := false
			for _, k := range strings.Fields(must) {
				ok = ok || has(st, k)
			}
			if !ok {
				continue
			}
		}
		if len(st) == 0 || !o.orderSafe(st) {
			continue
		}
		return m, st
	}
}

func deepDoc() M {
	return M{"a": A{M{"a": 1.0, "b": A{1.0, 2.0, 3.0}}, M{"b": M{"a": M{"a": "in"}}}, 5.0, A{M{"a": 7.0}}, nil},
		"b": M{"c": A{A{1.0, 2.0}, A{3.0}}, "a": A{}, "B": M{"z": nil}}, "c": nil, "x": 1.0, "B": "s", "_k": A{nil, 1.0, "x", M{}}}
}

func reads(o *orc, kinds, must string) {
	d := deepDoc()
	for i := 0; i < 4000; i++ {
		st := o.steps(d, 4, kinds)
		if len(st) > 0 && o.orderSafe(st) {
			o.readCase(d, st, render(st))
		}
	}
}

func TestOracleC01(t *testing.T) {
	runOracle(t, ruleDocs, func(o *orc) { reads(o, "niiwwsf", "") }, func(o *orc) {
		m, st := o.randRead("niwsf", "")
		o.readCase(m, st, render(st))
	})
}

func TestOracleC02(t *testing.T) {
	runOracle(t, ruleDocs, func(o *orc) {
		reads(o, "nrrr", "lookup")
		for _, n := range []int{3, 50, 400, 3000} {
			// many and deeply nested occurrences
			var v interface{} = 0.0
			for i := 0; i < n; i++ {
				v = M{"a": v, "b": A{M{"a": float64(i)}}}
			}
			st := []step{{kind: "lookup", name: "a"}}
			if n <= 50 {
				o.readCase(M{"x": v, "y": A{v}}, st, "$..a")
			} else {
				a := A{}
				for i := 0; i < n; i++ {
					a = append(a, M{"a": float64(i)})
				}
				o.readCase(M{"x": a, "y": M{"a": 1.0}}, st, "$..a")
			}
		}
	}, func(o *orc) {
		m, st := o.randRead("nwir"+"r", "lookup")
		o.readCase(m, st, render(st))
	})
}

func TestOracleC03(t *testing.T) {
	runOracle(t, ruleDocs+"; filters with up to two paths into the document, whose values are known", func(o *orc) {
		d := deepDoc()
		for _, pre := range [][]step{{{kind: "name", name: "a"}}, {}} {
			// an expression that does not end is stopped, and fails
			st := append(append([]step{}, pre...), step{kind: "filter", expr: "(function(){ while (true) {} })()", truth: func(r, v interface{}) (bool, bool) { return false, true }})
			o.readCase(d, st, render(st))
		}
		for _, f := range filters {
			for _, pre := range [][]step{nil, {{kind: "name", name: "a"}}, {{kind: "name", name: "b"}}, {{kind: "name", name: "_k"}}, {{kind: "name", name: "b"}, {kind: "name", name: "a"}}, {{kind: "name", name: "x"}}} {
				st := append(append([]step{}, pre...), step{kind: "filter", expr: f.expr, truth: f.truth})
				o.readCase(d, st, render(st))
				o.filterOrder(d, st)
				if !strings.Contains(f.expr, "$") {
					o.writeCase(d, st, render(st), "new")
					o.writeCase(d, st, render(st), nil)
					st2 := append(append([]step{}, st...), step{kind: "name", name: "a"})
					o.readCase(d, st2, render(st2))
					o.writeCase(d, st2, render(st2), A{1.0})
				}
			}
		}
		for i := 0; i < 1500; i++ {
			o.literalCase(d)
		}
	}, func(o *orc) {
		m, st := o.randRead("niwq", "filter")
		o.readCase(m, st, render(st))
		o.filterOrder(m, st)
		if !strings.Contains(render(st), "$.x") {
			o.writeCase(m, st, render(st), o.newValue())
		}
		o.literalCase(m)
	})
}

// literalCase: a filter whose expression has paths from the root, which stand for what they read: the value if it is one,
// else the list of the values.
func (o *orc) literalCase(m M) {
	one := func() (text, lit string, failed bool) {
		for {
			st := o.steps(m, 3, "nniis")
			p := render(st)
			if len(st) == 0 || strings.ContainsAny(p, " \t\n'\"") {
				continue
			}
			vs, failed := readPath(m, st)
			var v interface{} = vs
			if len(vs) == 1 {
				v = vs[0]
			}
			return p, show(v), failed
		}
	}
	where := []step{}
	if o.rng.Intn(2) == 0 {
		where = o.steps(m, 2, "ni")
	}
	var v interface{} = m
	for _, s := range where {
		var f bool
		if v, f = read1(m, v, s); f {
			return
		}
	}
	if a, ok := v.(A); !(ok && len(a) > 0) {
		if mm, ok := v.(M); !(ok && len(mm) > 0) {
			return
		}
	}
	p, lp, fp := one()
	q, lq, fq := one()
	same := func(text, lit string, eq bool) string {
		op := " === "
		if !eq {
			op = " !== "
		}
		return fs("JSON.stringify( %s )%sJSON.stringify(JSON.parse(%q))", text, op, lit)
	}
	num := func(v interface{}) bool { f, ok := v.(float64); return ok && f == 1 }
	var expr string
	var truth func(r, v interface{}) (bool, bool)
	switch o.rng.Intn(6) {
	case 0:
		expr, truth = same(p, lp, true), func(r, v interface{}) (bool, bool) { return true, fp }
	case 1:
		expr, truth = same(p, lp, false), func(r, v interface{}) (bool, bool) { return false, fp }
	case 2:
		expr, truth = same(p, lp, true)+" && @ === 1", func(r, v interface{}) (bool, bool) { return num(v), fp }
	case 3:
		expr, truth = "@ === 1 || "+same(p, lp, false), func(r, v interface{}) (bool, bool) { return num(v), fp }
	case 4:
		expr, truth = same(p, lp, true)+" && "+same(q, lq, true), func(r, v interface{}) (bool, bool) { return true, fp || fq }
	case 5:
		expr, truth = "'"+p+"' !== \"\" && @ === 1 && "+same(q, lq, true)+" && '@' === \"@\"", func(r, v interface{}) (bool, bool) { return num(v), fq }
	}
	if strings.ContainsAny(lp+lq, "$@") {
		return
	}
	st := append(where, step{kind: "filter", expr: expr, truth: truth})
	o.readCase(m, st, render(st))
	o.filterOrder(m, st)
}

// filterOrder: a filter on an array keeps the order.
func (o *orc) filterOrder(m M, st []step) {
	if st[len(st)-1].kind != "filter" {
		return
	}
	var v interface{} = m
	var f bool
	for _, s := range st[:len(st)-1] {
		if v, f = read1(m, v, s); f {
			return
		}
	}
	if _, ok := v.(A); !ok {
		return
	}
	want, failed := readPath(m, st)
	if failed {
		return
	}
	o.begin("filter order %s of %s", render(st), show(m))
	ns, err := docOf(m).JsonPathSelector(render(st))
	if err != nil {
		o.fail("filter fails", "error", err.Error())
	}
	o.eq("members in order", show(want), show(vals(ns)))
}

func stepOf(k json_map.AbsolutePathKey) (step, bool) {
	switch k.KeyType {
	case json_map.StringKey:
		return step{kind: "name", name: k.Value.(string)}, true
	case json_map.IndexKey:
		return step{kind: "index", idx: []int{k.Value.(int)}}, true
	}
	return step{}, false
}

func (o *orc) addrCase(m M, steps []step) {
	p := render(steps)
	o.readCase(m, steps, p)
	d := docOf(m)
	ns, err := d.JsonPathSelector(p)
	if err != nil {
		if ns != nil {
			o.fail("a failed read returns values", "observed", show(vals(ns)))
		}
		return
	}
	mapFilter := false
	if has(steps, "filter") {
		mapFilter = true
	}
	if has(steps, "lookup") || mapFilter {
		return
	}
	for _, n := range ns {
		o.begin("address %v of %s in %s", n.Absolute, p, show(m))
		ap := json_map.AbsolutePaths{n.Absolute}
		vs, errs := d.GetAbsolutePaths(&ap)
		if errs != nil {
			o.fail("reading a node's address fails", "error", fmt.Sprint(errs))
		}
		want := A{n.Value}
		if a, ok := n.Value.(A); ok {
			want = a
		}
		o.eq("value at the node's address", show(want), show(vals(vs)))
	}
}

func TestOracleC04(t *testing.T) {
	runOracle(t, ruleDocs, func(o *orc) {
		d := M{"a": A{A{1.0, 2.0, M{"a": 1.0}}, A{3.0, 4.0}, M{"b": 5.0}, nil, 6.0}, "b": A{M{"a": A{1.0, 2.0}}, M{"a": A{3.0, 4.0}}}}
		for i := 0; i < 3000; i++ {
			st := o.steps(d, 4, "nillw")
			if len(st) > 0 {
				o.addrCase(d, st)
			}
		}
	}, func(o *orc) {
		m, st := o.randRead("nillws", "list")
		if o.rng.Intn(3) == 0 {
			m, st = o.randRead("nilwsf", "")
		}
		o.addrCase(m, st)
	})
}

func TestOracleC05(t *testing.T) {
	runOracle(t, ruleDocs, nil, func(o *orc) {
		m, st := o.randRead("nilwsfrq", "")
		p := render(st)
		o.begin("read twice %s of %s", p, show(m))
		d := docOf(m)
		ap, err := json_map.ParseJsonPath(p)
		if err != nil {
			o.fail("the path is rejected", "error", err.Error())
		}
		before := fmt.Sprint(ap)
		v1, e1 := d.GetAbsolutePaths(&ap)
		o.eq("the paths after reading", before, fmt.Sprint(ap))
		o.eq("the document after reading", show(m), show(*d.GetInsides()))
		v2, e2 := d.GetAbsolutePaths(&ap)
		if (e1 == nil) != (e2 == nil) {
			o.fail("the second read answers differently", "first", fmt.Sprint(e1), "second", fmt.Sprint(e2))
		}
		if unordered(st) {
			o.eq("second read", bag(vals(v1)), bag(vals(v2)))
		} else {
			o.eq("second read", show(vals(v1)), show(vals(v2)))
		}
		o.eq("the document after the second read", show(m), show(*d.GetInsides()))
		pv, panicked := catch(func() { d.MustGet(p) })
		if panicked != (e1 != nil) {
			o.fail("MustGet panics differently", "panic", fmt.Sprint(pv))
		}
		o.eq("the document after MustGet", show(m), show(*d.GetInsides()))
	})
}

func (o *orc) newValue() interface{} {
	switch o.rng.Intn(8) {
	case 6:
		return []interface{}{0.0, "", true, A{}, M{}, A{A{nil}, A{}}, -1.5, M{"a": nil, "b": M{"a": 1.0}}}[o.rng.Intn(8)]
	case 0:
		return nil
	case 1:
		return M{"n": A{1.0}}
	case 2:
		return A{"n", nil}
	case 3:
		return false
	}
	return "new"
}

func (o *orc) writeCase(m M, steps []step, p string, value interface{}) {
	o.begin("write %s through %s of %s", show(value), p, show(m))
	want, failed := writePath(m, steps, value)
	d := docOf(m)
	err := d.JsonPathSetter(p, cp(value))
	if failed {
		if err == nil {
			o.fail("writing through a path that does not apply reports no error", "observed", show(*d.GetInsides()))
		}
		return
	}
	if err != nil {
		o.fail("writing through a path all of whose steps apply fails", "expected", show(want), "error", err.Error())
	}
	o.eq("document after the write", show(want), show(*d.GetInsides()))
	if d.Array {
		o.fail("an object document became a root array")
	}
}

// writable: after a filter on the way, any further step may meet values in any order; that is fine for writes.
func (o *orc) randWrite(kinds string) (M, []step) {
	for {
		m := o.object(4)
		if len(m) == 0 && o.rng.Intn(4) > 0 {
			continue
		}
		st := o.writeSteps(m, 4, kinds)
		if len(st) == 0 || strings.Contains(render(st), "$.x") {
			continue
		}
		return m, st
	}
}

// writeSteps follows single members, as writing does.
func (o *orc) writeSteps(root M, max int, kinds string) []step {
	var out []step
	var v interface{} = root
	n := 1 + o.rng.Intn(max)
	for i := 0; i < n; i++ {
		ks := kinds
		if o.rng.Intn(6) > 0 {
			switch v.(type) {
			case M:
				ks = keep(kinds, "nwfrq")
			case A:
				ks = keep(kinds, "nilwsqr")
			default:
				if o.rng.Intn(4) > 0 && len(out) > 0 {
					return out
				}
			}
		}
		if len(out) > 0 && out[len(out)-1].kind == "first" {
			ks = strings.ReplaceAll(ks, "r", "")
		}
		if ks == "" {
			ks = kinds
		}
		s := o.step(v, ks)
		if len(out) > 0 && out[len(out)-1].kind == "first" && s.kind == "lookup" {
			continue
		}
		if s.kind == "filter" && strings.Contains(s.expr, "$") {
			continue
		}
		out = append(out, s)
		if s.kind == "filter" {
			kinds = strings.ReplaceAll(kinds, "q", "")
			if kinds == "" {
				break
			}
		}
		// one of the members the step goes into
		var cand A
		switch w := v.(type) {
		case M:
			switch s.kind {
			case "name":
				if e, ok := w[s.name]; ok {
					cand = A{e}
				}
			case "lookup":
				cand = A{}
				for _, k := range keysOf(w) {
					lookup(w[k], s.name, &cand)
				}
			default:
				for _, k := range keysOf(w) {
					cand = append(cand, w[k])
				}
			}
		case A:
			switch s.kind {
			case "name":
				for _, e := range w {
					if q, ok := e.(M); ok {
						if x, ok := q[s.name]; ok {
							cand = append(cand, x)
						}
					}
				}
			case "index", "list":
				if s.idx[0] >= 0 && s.idx[0] < len(w) {
					cand = A{w[s.idx[0]]}
				}
			case "lookup":
				for _, e := range w {
					lookup(e, s.name, &cand)
				}
			default:
				cand = w
			}
		}
		if len(cand) > 0 {
			v = cand[o.rng.Intn(len(cand))]
		} else if o.rng.Intn(2) == 0 {
			break
		}
	}
	return out
}

func TestOracleC06(t *testing.T) {
	runOracle(t, ruleDocs, func(o *orc) {
		d := deepDoc()
		for i := 0; i < 3000; i++ {
			st := o.writeSteps(d, 4, "nilwsfr")
			if len(st) > 0 {
				o.writeCase(d, st, render(st), "new")
			}
		}
	}, func(o *orc) {
		m, st := o.randWrite("nilwsfrq")
		v := o.newValue()
		if v == nil {
			v = M{}
		}
		o.writeCase(m, st, render(st), v)
	})
}

func TestOracleC07(t *testing.T) {
	runOracle(t, ruleDocs, func(o *orc) {
		d := deepDoc()
		for i := 0; i < 3000; i++ {
			st := o.writeSteps(d, 4, "nilwsfr")
			if len(st) > 0 {
				o.writeCase(d, st, render(st), nil)
			}
		}
	}, func(o *orc) {
		m, st := o.randWrite("nilwsfrq")
		o.writeCase(m, st, render(st), nil)
	})
}

func TestOracleC08(t *testing.T) {
	runOracle(t, ruleDocs+"; most paths contain a step that does not apply", func(o *orc) {
		d := deepDoc()
		for i := 0; i < 3000; i++ {
			var st []step
			for j := 0; j < 1+o.rng.Intn(3); j++ {
				s := o.step(nil, "nilwsfrq")
				if len(st) > 0 && st[len(st)-1].kind == "first" && s.kind == "lookup" || s.kind == "filter" && (strings.Contains(s.expr, "$") || has(st, "filter")) {
					continue
				}
				st = append(st, s)
			}
			if len(st) == 0 {
				continue
			}
			if o.orderSafe(st) {
				o.readCase(d, st, render(st))
			}
			o.writeCase(d, st, render(st), o.newValue())
		}
	}, func(o *orc) {
		m, st := o.randRead("nilwsfrq", "")
		if o.rng.Intn(2) == 0 {
			s := o.step(nil, "niwsf")
			i := o.rng.Intn(len(st) + 1)
			st = append(append(append([]step{}, st[:i]...), s), st[i:]...)
			for j := 1; j < len(st); j++ {
				if st[j-1].kind == "first" && st[j].kind == "lookup" {
					return
				}
			}
		}
		if o.orderSafe(st) {
			o.readCase(m, st, render(st))
		}
		if !strings.Contains(render(st), "$.x") {
			o.writeCase(m, st, render(st), o.newValue())
		}
	})
}

var _ = jom.New
