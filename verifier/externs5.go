package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const jomPath = "github.com/andygello555/json-dom/jom"

// docType gives *jom.JsonMap, provided it is the only type of the repository that is a document.
func (x *Exec) docType() *types.Pointer {
	var dt *types.Pointer
	var iface *types.Interface
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == jomPath+"/json_map" {
			iface = p.Type("JsonMapInt").Type().Underlying().(*types.Interface)
		}
	}
	for _, p := range x.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), "github.com/andygello555/json-dom") || iface == nil {
			continue
		}
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			if types.Implements(t.Type(), iface) {
				unsup("a document that is a %s", t.Type())
			}
			if pt := types.NewPointer(t.Type()); types.Implements(pt, iface) {
				if dt != nil {
					unsup("documents of two types")
				}
				dt = pt
			}
		}
	}
	return dt
}

// invokeDoc calls a method of a document behind the interface by the contract of the only type that implements it.
func (x *Exec) invokeDoc(st *State, d *Term, m string, args []Value, pos string, k func(Outcome)) bool {
	dt := x.docType()
	if dt == nil {
		return false
	}
	n := dt.Elem().(*types.Named)
	fn := x.prog.LookupMethod(dt, n.Obj().Pkg(), m)
	if fn == nil {
		return false
	}
	c := x.C.byName(fn.String())
	stt := under(n).(*types.Struct)
	if c == nil {
		return false
	}
	ins := -1
	for i := 0; i < stt.NumFields(); i++ {
		if th.sortOf(stt.Field(i).Type()) == th.sortOf(mapAnyT) {
			ins = i
		}
	}
	if ins < 0 {
		return false
	}
	x.note("a document behind the interface is a *%s, the only type of the repository that has its methods", n.Obj().Name())
	x.fork(st, Eq(d, App("V_nil")), func(s *State) {
		k(Outcome{st: s, panic: true, val: VT{T: App("V_rterr", intT(6), strLit("runtime error: invalid memory address or nil pointer dereference"))}, pos: pos})
	}, func(s *State) {
		cell := VPtr{Obj: x.insidesOf(s, d)}
		key := x.ufun("docptr", "Opq", d)
		id, ok := s.box[key]
		if !ok {
			p := x.freshPtr(s, "doc", dt, s.objs[cell.Obj].owner).(VPtr)
			id = p.Obj
			s.box[key] = id
		}
		p := VPtr{Obj: id}
		o := s.objs[id].clone()
		o.f = append([]Value{}, o.f...)
		o.f[ins] = x.load(s, cell, mapAnyT)
		s.objs[id] = o
		x.used[c.Name] = true
		x.apply(s, c, fn, append([]Value{p}, args[1:]...), nil, nil, pos, func(r Outcome) {
			x.store(r.st, cell, r.st.objs[id].f[ins], mapAnyT, "the document changes at "+pos)
			k(r)
		})
	})
	return true
}

// expose verifies the functions an object holds that is handed to the interpreter: scripts may call them at any later
// time, so whatever they or the other functions of the object change is arbitrary when they start.
func (x *Exec) expose(st *State, v Value, pos string) {
	if x.top == nil || len(x.top.Exposed) == 0 {
		return
	}
	w, ok := v.(VIface)
	if !ok {
		return
	}
	m, ok := w.Val.(VMap)
	if !ok || m.Obj == 0 {
		return
	}
	content := st.objs[m.Obj].t
	if content.Sort != th.sortOf(mapAnyT) {
		return
	}
	var fs []VFn
	for _, c := range x.top.Exposed {
		t := App("get."+content.Sort, content, strLit(c.Name))
		var f VFn
		ok := false
		if cn, isC := ctorOf(t); isC && cn != "" && len(t.Args) == 1 {
			f, ok = opqRev[t.Args[0]].(VFn)
		}
		if !ok || f.Fn == nil {
			return
		}
		fs = append(fs, f)
		st.exposed = append(st.exposed, c.Name)
	}
	top, env := x.top, x.env
	mods := map[int]bool{}
	one := func(i int) {
		c := top.Exposed[i]
		info := &recInfo{con: c, env: env, mods: mods, fn: fs[i].Fn}
		base := st.clone()
		for id := range mods {
			x.havocObj(base, id, base.objs[id].owner)
		}
		for g, id := range x.globals {
			if x.assigned(g) && base.objs[id] != nil {
				x.havocObj(base, id, base.objs[id].owner)
			}
		}
		mark := x.nobj
		x.verifyBody(base, c, fs[i].Fn, fs[i].Bind, info, func(o Outcome, start map[int]*Obj) {
			for id, ob := range o.st.objs {
				if id <= mark && start[id] != ob && !mods[id] && changed(start[id], ob) {
					mods[id] = true
					x.recGrew = true
				}
			}
		})
	}
	for round := 0; ; round++ {
		if round > 6 {
			unsup("effects of the functions given to the interpreter do not settle")
		}
		grew := false
		x.silent++
		for i := range fs {
			x.recGrew = false
			one(i)
			grew = grew || x.recGrew
		}
		x.silent--
		if !grew {
			break
		}
	}
	if x.silent == 0 {
		for i := range fs {
			x.recUsed[top.Exposed[i].Name] = true
			one(i)
		}
	}
}

// assigned: some function of the repository other than an initialiser assigns the package variable.
func (x *Exec) assigned(g *ssa.Global) bool {
	if x.assignedTo == nil {
		x.assignedTo = map[*ssa.Global]bool{}
		for _, f := range allFns(x.prog) {
			if f.Synthetic != "" || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							x.assignedTo[g] = true
						}
					}
				}
			}
		}
	}
	return x.assignedTo[g]
}

func initExterns5(trusted func(name, why string, h extern)) {
	const ov = "(github.com/robertkrimen/otto.Value)."
	pred := func(m, f string, neg bool) {
		trusted(ov+m, "what kind of value it is", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
			t := x.ufun(f, "Bool", x.deep(st, a[0], "Opq"))
			if neg {
				t = Not(t)
			}
			ret1(st, k, VT{T: t})
		})
	}
	pred("IsString", "ov_isstr", false)
	pred("IsNumber", "ov_isnum", false)
	pred("IsObject", "ov_isobj", false)
	pred("IsFunction", "ov_isfun", false)
	pred("IsNull", "ov_isnull", false)
	pred("IsUndefined", "ov_isundef", false)
	pred("IsDefined", "ov_isundef", true)
	conv := func(m, f, srt, isf string) {
		trusted(ov+m, "the text or number of the value; no error for a value of that kind", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
			v := x.deep(st, a[0], "Opq")
			e := fresh("converr", "V")
			st.assume(Or(Eq(e, App("V_nil")), And(App("iserror", e), Not(x.ufun(isf, "Bool", v)))))
			if srt == "F64" {
				th.declSort("F64")
			}
			var t *Term
			if f == "ov_str" {
				t = App("ov_str", v)
			} else {
				t = x.ufun(f, srt, v)
			}
			ret1(st, k, VTuple{VT{T: t}, VT{T: e}})
		})
	}
	conv("ToString", "ov_str", "Str", "ov_isstr")
	conv("ToFloat", "ov_num", "F64", "ov_isnum")
	conv("ToInteger", "ov_int", "Int", "ov_isnum")
	trusted(ov+"Class", "the name of the class of the value", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: x.ufun("ov_class", "Str", x.deep(st, a[0], "Opq"))})
	})
	trusted(ov+"Object", "the value as an object", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer)
		ret1(st, k, x.freshPtr(st, "object", t, "fresh"))
	})
	trusted("(github.com/robertkrimen/otto.Object).Keys", "some names", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, x.freshVal(st, "keys", fn.Signature.Results().At(0).Type(), "fresh"))
	})
	trusted("(github.com/robertkrimen/otto.Object).Get", "some value or an error", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		e := fresh("geterr", "V")
		st.assume(Or(Eq(e, App("V_nil")), App("iserror", e)))
		ret1(st, k, VTuple{VT{T: fresh("member", "Opq")}, VT{T: e}})
	})
	trusted("(github.com/robertkrimen/otto.FunctionCall).Argument", "the argument at the position, or undefined", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		c, ok := a[0].(VStruct)
		if !ok {
			unsup("argument of %T", a[0])
		}
		s := under(c.Typ).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != "ArgumentList" {
				continue
			}
			q := x.deep(st, c.F[i], "Seq_Opq")
			n := x.deep(st, a[1], "Int")
			u := x.ufun("ov_undef", "Opq")
			x.fork(st, And(Le(intT(0), n), Lt(n, App("len.Seq_Opq", q))), func(s *State) {
				k(Outcome{st: s, val: VT{T: App("at.Seq_Opq", q, n)}})
			}, func(s *State) {
				s.assume(x.ufun("ov_isundef", "Bool", u))
				s.assume(Not(x.ufun("ov_isstr", "Bool", u)))
				s.assume(Not(x.ufun("ov_isobj", "Bool", u)))
				k(Outcome{st: s, val: VT{T: u}})
			})
			return
		}
		unsup("a call without arguments")
	})
	vmAt := func(st *State, v Value) (int, *Obj) {
		p, ok := v.(VPtr)
		if !ok || st.objs[p.Obj] == nil || st.objs[p.Obj].kind != oVM {
			unsup("interpreter %T", v)
		}
		return p.Obj, st.objs[p.Obj]
	}
	trusted("(github.com/robertkrimen/otto.Otto).MakeCustomError", "the error value of that name and message", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		vmAt(st, a[0])
		ret1(st, k, VT{T: x.ufun("ov_error", "Opq", x.str(st, a[1]), x.str(st, a[2]))})
	})
	trusted("(github.com/robertkrimen/otto.Otto).Get", "the value of a variable of the interpreter, or an error", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		_, o := vmAt(st, a[0])
		e := fresh("geterr", "V")
		st.assume(Or(Eq(e, App("V_nil")), App("iserror", e)))
		ret1(st, k, VTuple{VT{T: x.ufun("vm_get", "Opq", o.t, x.str(st, a[1]))}, VT{T: e}})
	})
	trusted("(github.com/robertkrimen/otto.Otto).Call", "calls a function of the interpreter: a value or an error, and a next state, determined by the state, the function and the arguments", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		id, o := vmAt(st, a[0])
		if o.f[0] == nil && x.unknownInterrupt(st) {
			return
		}
		if _, isNil := o.f[0].(VNil); !isNil {
			unsup("a call in an interpreter that may be interrupted")
		}
		src, this := x.str(st, a[1]), x.deep(st, a[2], "V")
		args := x.deep(st, a[3], "Seq_V")
		x.checkWrite(st, id, "the interpreter runs at "+pos)
		n := o.clone()
		n.t = x.ufun("vm_called", "Opq", o.t, src, this, args)
		st.objs[id] = n
		x.fork(st, x.ufun("vm_call_ok", "Bool", o.t, src, this, args), func(s *State) {
			k(Outcome{st: s, val: VTuple{VT{T: x.ufun("vm_callval", "Opq", o.t, src, this, args)}, nilErr()}})
		}, func(s *State) {
			k(Outcome{st: s, val: VTuple{VT{T: fresh("noval", "Opq")}, errVal(fresh("vmerr", "Str"))}})
		})
	})
	// reflection: only what kind of value an interface holds, and what a pointer in it refers to
	const rv = "(reflect.Value)."
	wrap := func(v Value, t types.Type) Value { return VStruct{Typ: t, F: []Value{v}} }
	inner := func(v Value) Value {
		s, ok := v.(VStruct)
		if !ok || len(s.F) != 1 {
			unsup("reflection on %T", v)
		}
		return s.F[0]
	}
	trusted("reflect.ValueOf", "the value", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, wrap(a[0], fn.Signature.Results().At(0).Type()))
	})
	trusted(rv+"Kind", "the kind of the value", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ptr := func(b bool) {
			if b {
				ret1(st, k, VT{T: intT(22)})
				return
			}
			n := fresh("kind", "Int")
			st.assume(Not(Eq(n, intT(22))))
			ret1(st, k, VT{T: n})
		}
		switch v := inner(a[0]).(type) {
		case VIface:
			_, isP := under(v.Dyn).(*types.Pointer)
			ptr(isP)
		case VNil:
			ptr(false)
		case VT:
			if c, ok := ctorOf(v.T); ok {
				d := th.vtype[c]
				isP := false
				if d != nil {
					_, isP = under(d).(*types.Pointer)
				}
				ptr(isP)
				return
			}
			n := fresh("kind", "Int")
			st.assume(Eq(Eq(n, intT(22)), x.ufun("isptr", "Bool", v.T)))
			ret1(st, k, VT{T: n})
		default:
			unsup("kind of %T", v)
		}
	})
	trusted("reflect.Indirect", "what a pointer refers to; another value itself", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		v := inner(a[0])
		if w, ok := v.(VIface); ok {
			if p, ok := under(w.Dyn).(*types.Pointer); ok {
				e := x.load(st, w.Val, p.Elem())
				if _, isI := under(p.Elem()).(*types.Interface); !isI {
					e = VIface{Dyn: p.Elem(), Val: e}
				}
				v = e
			}
		}
		ret1(st, k, wrap(v, fn.Signature.Results().At(0).Type()))
	})
	trusted(rv+"Interface", "the value", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, inner(a[0]))
	})
}
