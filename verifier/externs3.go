package main

import (
	"golang.org/x/tools/go/ssa"
)

// langOf gives the number of the language of the expression that a record refers to.
func langOf(st *State, v Value) *Term {
	p, ok := v.(VPtr)
	if !ok || p.Idx != nil || len(p.Path) > 0 {
		return nil
	}
	o := st.objs[p.Obj]
	if o == nil || o.kind != oCell || !o.strct {
		return nil
	}
	for _, f := range o.f {
		if q, ok := f.(VPtr); ok {
			if r := st.objs[q.Obj]; r != nil && r.kind == oRegexp && r.pat != nil {
				return intT(int64(r.pat.full))
			}
		}
	}
	return intT(-1)
}

// Regular expressions, readers and numbers.
func initExterns3(trusted func(name, why string, h extern)) {
	type text = func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome))
	trusted("regexp.MustCompile", "a compiled expression; the patterns here are constant and valid", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		t := x.str(st, a[0])
		ret1(st, k, VPtr{Obj: x.newObj(st, &Obj{kind: oRegexp, t: App("re", t), closed: False, pat: th.pattern(th.litText[t])})})
	})
	reOf := func(st *State, v Value) *Obj {
		p, ok := v.(VPtr)
		if !ok || st.objs[p.Obj] == nil || st.objs[p.Obj].kind != oRegexp {
			unsup("regexp %T", v)
		}
		return st.objs[p.Obj]
	}
	trusted("(*regexp.Regexp).FindAllIndex", "pairs of offsets within the text, in order and apart", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		t := App("re_all", reOf(st, a[0]).t, x.str(st, a[1]))
		ret1(st, k, x.lift(st, t, fn.Signature.Results().At(0).Type(), nil, "fresh"))
	})
	trusted("(*regexp.Regexp).Longest", "switches to leftmost-longest matching", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		o := reOf(st, a[0])
		if o.closed != True {
			n := o.clone()
			n.closed = True
			st.objs[a[0].(VPtr).Obj] = n
		}
		ret1(st, k, nil)
	})
	match := func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		o, t := reOf(st, a[0]), x.str(st, a[1])
		if o.pat == nil {
			ret1(st, k, VT{T: x.ufun("re_match", "Bool", o.t, t)})
			return
		}
		ret1(st, k, VT{T: th.inLang(o.pat.inf, t)})
	}
	const langs = "matching is membership in the language of the expression, over characters; what relates languages is computed with automata (verifier/regex.go)"
	for _, n := range []string{"Match", "MatchString"} {
		trusted("(*regexp.Regexp)."+n, langs, match)
	}
	where := func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		o, t := reOf(st, a[0]), x.str(st, a[1])
		var some *Term
		if o.pat != nil {
			some = th.inLang(o.pat.inf, t)
		} else {
			some = x.ufun("re_match", "Bool", o.t, t)
		}
		ty := fn.Signature.Results().At(0).Type()
		srt := th.sortOf(ty)
		at := func(s *State, lo, hi *Term) {
			id := x.newObj(s, &Obj{kind: oSeq, typ: ty, t: App("build."+srt, App("build."+srt, App("empty."+srt), lo), hi), vals: []Value{VT{T: lo}, VT{T: hi}}})
			k(Outcome{st: s, val: VSlice{id, intT(0), intT(2)}})
		}
		later := func(s *State) {
			x.fork(s, some, func(s *State) {
				lo, hi := fresh("from", "Int"), fresh("to", "Int")
				s.assume(And(Le(intT(0), lo), Le(lo, hi), Le(hi, App("strlen", t))))
				if o.pat != nil {
					s.assume(Not(Eq(lo, intT(0))))
				}
				at(s, lo, hi)
			}, func(s *State) {
				k(Outcome{st: s, val: VSlice{0, intT(0), intT(0)}})
			})
		}
		if o.pat == nil {
			later(st)
			return
		}
		// leftmost: from the start exactly if some prefix matches, and then the longest such, if that is asked for
		n := th.preLen(o.pat, t)
		x.fork(st, Le(intT(0), n), func(s *State) {
			if o.closed == True || o.pat.same {
				s.assume(Le(n, App("strlen", t)))
				at(s, intT(0), n)
				return
			}
			hi := fresh("to", "Int")
			s.assume(And(Le(intT(0), hi), Le(hi, n)))
			at(s, intT(0), hi)
		}, later)
	}
	for _, n := range []string{"FindIndex", "FindStringIndex"} {
		trusted("(*regexp.Regexp)."+n, langs, where)
	}
	find := func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		o, t := reOf(st, a[0]), x.str(st, a[1])
		if o.pat == nil || o.pat.null {
			ret1(st, k, VT{T: x.ufun("re_find", "Str", o.t, t)})
			return
		}
		f := App(o.pat.find(o.closed == True), t)
		st.assume(Imp(Not(th.inLang(o.pat.inf, t)), Eq(f, strLit(""))))
		ret1(st, k, VT{T: f})
	}
	for _, n := range []string{"Find", "FindString"} {
		trusted("(*regexp.Regexp)."+n, langs, find)
	}
	without := func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		o, t, by := reOf(st, a[0]), x.str(st, a[1]), x.str(st, a[2])
		if o.pat == nil || o.pat.null || by != strLit("") {
			ret1(st, k, VT{T: x.ufun("re_replace", "Str", o.t, t, by)})
			return
		}
		ret1(st, k, VT{T: App(o.pat.without(), t)})
	}
	for _, n := range []string{"ReplaceAll", "ReplaceAllString", "ReplaceAllLiteral", "ReplaceAllLiteralString"} {
		trusted("(*regexp.Regexp)."+n, langs, without)
	}
	trusted("strconv.Atoi", "the number a text denotes, or an error", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		s := x.str(st, a[0])
		x.fork(st, App("atoi_ok", s), func(n *State) {
			k(Outcome{st: n, val: VTuple{VT{T: App("atoi", s)}, nilErr()}})
		}, func(n *State) {
			k(Outcome{st: n, val: VTuple{VT{T: fresh("nonumber", "Int")}, errVal(fresh("atoierr", "Str"))}})
		})
	})
	trusted("strings.TrimSpace", "the text without white space at its ends", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: App("trimws", x.str(st, a[0]))})
	})
	trusted("strings.NewReader", "a reader of the text", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VPtr{Obj: x.newObj(st, &Obj{kind: oReader, t: x.str(st, a[0]), owner: "fresh"})})
	})
	buffered := func(x *Exec, st *State, a []Value, size *Term, k func(Outcome)) {
		w, ok := a[0].(VIface)
		if !ok {
			unsup("a buffered reader of %T", a[0])
		}
		p, ok := w.Val.(VPtr)
		if !ok || st.objs[p.Obj] == nil || st.objs[p.Obj].kind != oReader || st.objs[p.Obj].n != nil {
			unsup("a buffered reader of something else than a text")
		}
		t := st.objs[p.Obj].t
		n := st.objs[p.Obj].clone()
		n.t = fresh("unread", "Str") // how much of it has been taken is not known
		st.objs[p.Obj] = n
		ret1(st, k, VPtr{Obj: x.newObj(st, &Obj{kind: oReader, t: t, n: size, owner: "fresh"})})
	}
	trusted("bufio.NewReaderSize", "a reader with a buffer of the given size, 16 at least", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		n := x.deep(st, a[1], "Int")
		buffered(x, st, a, Ite(Le(intT(16), n), n, intT(16)), k)
	})
	trusted("bufio.NewReader", "a reader with a buffer of 4096 bytes", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		buffered(x, st, a, intT(4096), k)
	})
	rdOf := func(st *State, v Value) (int, *Obj) {
		p, ok := v.(VPtr)
		if !ok || st.objs[p.Obj] == nil || st.objs[p.Obj].kind != oReader || st.objs[p.Obj].n == nil {
			unsup("buffered reader %T", v)
		}
		return p.Obj, st.objs[p.Obj]
	}
	someErr := func(st *State, h string) Value {
		e := fresh(h, "V")
		st.assume(Not(Eq(e, App("V_nil"))))
		st.assume(App("iserror", e))
		return VT{T: e}
	}
	trusted("(*bufio.Reader).Size", "the size of the buffer", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		_, o := rdOf(st, a[0])
		ret1(st, k, VT{T: o.n})
	})
	trusted("(*bufio.Reader).Peek", "what comes next, no more than is left and the buffer holds; an error if that is less than asked for", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		_, o := rdOf(st, a[0])
		n := x.deep(st, a[1], "Int")
		left := App("strlen", o.t)
		x.fork(st, Lt(n, intT(0)), func(s *State) {
			k(Outcome{st: s, val: VTuple{VT{T: strLit("")}, someErr(s, "peekerr")}})
		}, func(s *State) {
			x.fork(s, And(Le(left, n), Le(left, o.n)), func(s *State) { // all of it
				x.fork(s, And(Eq(left, n), Le(n, o.n)), func(s *State) {
					k(Outcome{st: s, val: VTuple{VT{T: o.t}, nilErr()}})
				}, func(s *State) {
					k(Outcome{st: s, val: VTuple{VT{T: o.t}, someErr(s, "peekerr")}})
				})
			}, func(s *State) {
				x.fork(s, Le(n, o.n), func(s *State) {
					k(Outcome{st: s, val: VTuple{VT{T: substr(o.t, intT(0), n)}, nilErr()}})
				}, func(s *State) {
					k(Outcome{st: s, val: VTuple{VT{T: substr(o.t, intT(0), o.n)}, someErr(s, "peekerr")}})
				})
			})
		})
	})
	trusted("(*bufio.Reader).Discard", "passes over so many bytes, or all there are and gives an error", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		id, o := rdOf(st, a[0])
		n := x.deep(st, a[1], "Int")
		left := App("strlen", o.t)
		set := func(s *State, t *Term) {
			x.checkWrite(s, id, "the reader moves on at "+pos)
			c := s.objs[id].clone()
			c.t = t
			s.objs[id] = c
		}
		x.fork(st, And(Le(intT(0), n), Le(n, left)), func(s *State) {
			set(s, substr(o.t, n, left))
			k(Outcome{st: s, val: VTuple{VT{T: n}, nilErr()}})
		}, func(s *State) {
			x.fork(s, Lt(n, intT(0)), func(s *State) {
				k(Outcome{st: s, val: VTuple{VT{T: intT(0)}, someErr(s, "discarderr")}})
			}, func(s *State) {
				set(s, strLit(""))
				k(Outcome{st: s, val: VTuple{VT{T: left}, someErr(s, "discarderr")}})
			})
		})
	})
}
