package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// insidesOf gives the storage of a document behind the interface of which nothing but the interface is known.
func (x *Exec) insidesOf(st *State, d *Term) int {
	key := x.ufun("insidesptr", "Opq", d)
	if id, ok := st.box[key]; ok {
		return id
	}
	t := x.ufun("insidesof", th.sortOf(mapAnyT), d)
	m := x.newObj(st, &Obj{kind: oMap, typ: mapAnyT, t: t, t0: t, owner: "fresh"})
	id := x.newObj(st, &Obj{kind: oCell, typ: mapAnyT, owner: "fresh", f: []Value{VMap{m}}})
	st.box[key] = id
	return id
}

func initExterns4(trusted func(name, why string, h extern)) {
	trusted("invoke:Clone", "a new document, never nil: empty if it is to be cleared, else with the members of the other (C16)", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		from := x.deep(st, a[0], "V")
		x.fork(st, Eq(from, App("V_nil")), func(s *State) {
			k(Outcome{st: s, panic: true, val: VT{T: App("V_rterr", intT(6), strLit("runtime error: invalid memory address or nil pointer dereference"))}, pos: pos})
		}, func(s *State) {
			d := fresh("clone", "V")
			s.assume(Not(Eq(d, App("V_nil"))))
			s.assume(x.ufun("clonedfrom", "Bool", d, from))
			x.fork(s, x.deep(s, a[1], "Bool"), func(s *State) {
				srt := th.sortOf(mapAnyT)
				m := x.newObj(s, &Obj{kind: oMap, typ: mapAnyT, t: App("mempty." + srt), t0: App("mempty." + srt), owner: "fresh"})
				s.box[x.ufun("insidesptr", "Opq", d)] = x.newObj(s, &Obj{kind: oCell, typ: mapAnyT, owner: "fresh", f: []Value{VMap{m}}})
				k(Outcome{st: s, val: VT{T: d}})
			}, func(s *State) {
				unsup("a clone that shares its members at %s", pos)
			})
		})
	})
	trusted("(github.com/robertkrimen/otto.Otto).ToValue", "the value of the interpreter for a Go value, or an error", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		x.expose(st, a[1], pos)
		v := x.deep(st, a[1], "V")
		x.fork(st, App("vm_tovalue_ok", v), func(s *State) {
			k(Outcome{st: s, val: VTuple{VT{T: App("vm_tovalue", v)}, nilErr()}})
		}, func(s *State) {
			k(Outcome{st: s, val: VTuple{VT{T: fresh("noval", "Opq")}, errVal(fresh("vmerr", "Str"))}})
		})
	})
	trusted("github.com/robertkrimen/otto.NullValue", "the null of the interpreter", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: x.ufun("ov_null", "Opq")})
	})
	trusted("(github.com/robertkrimen/otto.Value).String", "the text of the value", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: App("ov_str", x.deep(st, a[0], "Opq"))})
	})
	trusted("encoding/json.Unmarshal", "decodes: an object into a map adds its members to those there, null makes it nil, and anything else is an error that leaves the map as it is", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		src := x.str(st, a[0])
		w, ok := a[1].(VIface)
		if !ok {
			unsup("decoding into %T", a[1])
		}
		p, ok := w.Val.(VPtr)
		if !ok {
			unsup("decoding into %T", w.Val)
		}
		et := under(w.Dyn).(*types.Pointer).Elem()
		srt := th.sortOf(et)
		if srt == "V" {
			r := App("js_root", src)
			x.fork(st, App("js_ok", src), func(s *State) {
				s.assume(Not(x.ufun("isptr", "Bool", r)))
				x.store(s, p, x.lift(s, r, et, nil, "fresh"), et, "decoding at "+pos)
				k(Outcome{st: s, val: nilErr()})
			}, func(s *State) {
				k(Outcome{st: s, val: errVal(x.ufun("js_err", "Str", src))})
			})
			return
		}
		if srt != th.sortOf(mapAnyT) {
			unsup("decoding into a %s", et)
		}
		old := x.deep(st, x.load(st, p, et), srt)
		isNull := Eq(App("js_root", src), App("V_nil"))
		x.fork(st, And(App("js_ok", src), Or(App("is-V_map", App("js_root", src)), isNull)), func(s *State) {
			t := App("js_into", src, old)
			x.store(s, p, x.lift(s, t, et, nil, "fresh"), et, "decoding at "+pos)
			k(Outcome{st: s, val: nilErr()})
		}, func(s *State) {
			k(Outcome{st: s, val: errVal(x.ufun("js_err", "Str", src))})
		})
	})
}
