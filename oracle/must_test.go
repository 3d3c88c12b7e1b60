package main

import (
	"fmt"
	"sort"
	"testing"

	"github.com/andygello555/json-dom/jom"
)

func (o *orc) arr(max int) A {
	a := make(A, o.rng.Intn(max))
	for i := range a {
		a[i] = o.value(1)
	}
	return a
}

func distinct(xs []int) []int {
	seen := map[int]bool{}
	out := []int{}
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	sort.Ints(out)
	return out
}

// place puts the array somewhere in a document.
func (o *orc) place(a A) (M, string, func(v A) M) {
	mk := func(v A) M { return nil }
	switch o.rng.Intn(4) {
	case 0:
		mk = func(v A) M { return M{"a": v, "b": A{1.0}} }
		return mk(a), "$.a", mk
	case 1:
		mk = func(v A) M { return M{"b": M{"a": v, "c": M{}}, "a": A{"k"}} }
		return mk(a), "$.b.a", mk
	case 2:
		mk = func(v A) M { return M{"a": A{nil, v, 2.0}} }
		return mk(a), "$.a[1]", mk
	}
	mk = func(v A) M { return M{"a": A{M{"b": 1.0}, M{"b": v}}} }
	return mk(a), "$.a[1].b", mk
}

func TestOracleC11(t *testing.T) {
	runOracle(t, "random arrays of 1 to 15 elements at random places, positions 0 to length+4 with repetitions in random order; distinct by document, value and positions", nil, func(o *orc) {
		a := o.arr([]int{3, 6, 6, 6, 16}[o.rng.Intn(5)])
		if len(a) == 0 {
			return
		}
		m, p, mk := o.place(a)
		v := o.newValue()
		var idx []int
		for i, far := []int{0, 0, 1, 1, 1, 2, 2, 3, 4, 9}[o.rng.Intn(10)], 4+o.rng.Intn(2)*o.rng.Intn(30); i > 0; i-- {
			idx = append(idx, o.rng.Intn(len(a)+far))
		}
		o.begin("push %s at %v onto %s of %s", show(v), idx, p, show(m))
		at := distinct(idx)
		if len(idx) == 0 {
			at = []int{len(a)}
		}
		in := map[int]bool{}
		for _, i := range at {
			in[i] = true
		}
		var want A
		rest := append(A{}, a...)
		for i := 0; len(rest) > 0 || i <= at[len(at)-1]; i++ {
			if in[i] {
				want = append(want, v)
			} else if len(rest) > 0 {
				want = append(want, rest[0])
				rest = rest[1:]
			} else {
				want = append(want, nil)
			}
		}
		d := docOf(m)
		if pv, bad := catch(func() { d.MustPush(p, cp(v), append([]int{}, idx...)...) }); bad {
			o.fail("push panics", "panic", fmt.Sprint(pv))
		}
		o.eq("document after the push", show(mk(want)), show(*d.GetInsides()))
	})
}

func TestOracleC12(t *testing.T) {
	runOracle(t, "random arrays of 1 to 15 elements at random places, positions -2 to length+2 with repetitions in random order; distinct by document and positions", nil, func(o *orc) {
		a := o.arr([]int{3, 6, 6, 6, 16}[o.rng.Intn(5)])
		if len(a) == 0 {
			return
		}
		m, p, mk := o.place(a)
		var idx []int
		for i, far := []int{0, 0, 1, 1, 1, 2, 2, 3, 4, 9}[o.rng.Intn(10)], 2+o.rng.Intn(2)*o.rng.Intn(30); i > 0; i-- {
			idx = append(idx, o.rng.Intn(len(a)+2*far)-far)
		}
		o.begin("pop %v from %s of %s", idx, p, show(m))
		at := distinct(idx)
		if len(idx) == 0 {
			at = []int{0}
		}
		in := map[int]bool{}
		for _, i := range at {
			in[i] = true
		}
		want, out := A{}, A{}
		for i, e := range a {
			if in[i] {
				out = append(out, e)
			} else {
				want = append(want, e)
			}
		}
		d := docOf(m)
		var got []interface{}
		if pv, bad := catch(func() { got = d.MustPop(p, append([]int{}, idx...)...) }); bad {
			o.fail("pop panics", "panic", fmt.Sprint(pv))
		}
		o.eq("popped", show(out), show(A(got)))
		o.eq("document after the pop", show(mk(want)), show(*d.GetInsides()))
	})
}

func TestOracleC23(t *testing.T) {
	runOracle(t, ruleDocs, nil, func(o *orc) {
		m, st := o.randRead("nilwsfrq", "")
		p := render(st)
		if o.rng.Intn(12) == 0 {
			p += []string{"[", "..", "]x", ". ."}[o.rng.Intn(4)]
		}
		o.begin("read %s of %s", p, show(m))
		d := docOf(m)
		ns, err := d.JsonPathSelector(p)
		var got []interface{}
		pv, bad := catch(func() { got = d.MustGet(p) })
		if bad != (err != nil) {
			o.fail("MustGet and the selector disagree", "error", fmt.Sprint(err), "panic", fmt.Sprint(pv))
		}
		if err != nil {
			if e, ok := pv.(error); !ok || e.Error() != err.Error() && !has(st, "filter") && !has(st, "lookup") && !has(st, "list") {
				o.fail("the panic is not the error", "error", err.Error(), "panic", fmt.Sprint(pv))
			}
		} else if len(ns) == 0 && got != nil {
			o.fail("MustGet of nothing is not nil", "observed", show(A(got)))
		} else if has(st, "list") || !o.orderSafe(st) || has(st, "lookup") || has(st, "filter") {
			o.eq("values", bag(vals(ns)), bag(A(got)))
		} else {
			o.eq("values", show(vals(ns)), show(A(got)))
		}
		if has(st, "filter") && contains(render(st), "$.x") {
			return
		}
		v := o.newValue()
		o.begin("write %s through %s of %s", show(v), p, show(m))
		d1, d2 := docOf(m), docOf(m)
		err = d1.JsonPathSetter(p, cp(v))
		pv, bad = catch(func() {
			if v == nil {
				d2.MustDelete(p)
			} else {
				d2.MustSet(p, cp(v))
			}
		})
		if bad != (err != nil) {
			o.fail("MustSet/MustDelete and the setter disagree", "error", fmt.Sprint(err), "panic", fmt.Sprint(pv))
		}
		if err == nil {
			o.eq("document", show(*d1.GetInsides()), show(*d2.GetInsides()))
		} else if _, ok := pv.(error); !ok {
			o.fail("the panic is not an error", "panic", fmt.Sprint(pv))
		}
	})
}

func contains(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}

var _ = jom.New
