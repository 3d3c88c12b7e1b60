package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var mapAnyT = types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))

func initExterns2(trusted func(name, why string, h extern)) {
	// a document behind the interface of which nothing but the interface is known
	trusted("invoke:GetInsides", "gives the same storage on every call on one document", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		d, ok := a[0].(VT)
		if !ok {
			unsup("GetInsides on %T", a[0])
		}
		x.fork(st, Eq(d.T, App("V_nil")), func(s *State) {
			k(Outcome{st: s, panic: true, val: VT{T: App("V_rterr", intT(6), strLit("runtime error: invalid memory address or nil pointer dereference"))}, pos: pos})
		}, func(s *State) {
			id := x.insidesOf(s, d.T)
			k(Outcome{st: s, val: VPtr{Obj: id}})
		})
	})
	trusted("invoke:GetCurrentScopePath", "some text, without effect", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: x.ufun("scopepathof", "Str", x.deep(st, a[0], "V"))})
	})
	// otto: the interpreter is a state that Set and Run change; what they give is a function of the state and the text
	vmOf := func(st *State, v Value) (int, *Obj) {
		p, ok := v.(VPtr)
		if !ok || st.objs[p.Obj] == nil || st.objs[p.Obj].kind != oVM {
			unsup("interpreter %T", v)
		}
		return p.Obj, st.objs[p.Obj]
	}
	setVM := func(x *Exec, st *State, id int, t *Term, pos string) {
		x.checkWrite(st, id, "the interpreter runs at "+pos)
		n := st.objs[id].clone()
		n.t = t
		st.objs[id] = n
	}
	arg := func(x *Exec, st *State, v Value) (*Term, string) {
		if w, ok := v.(VIface); ok && types.TypeString(w.Dyn, nil) == "github.com/robertkrimen/otto.Value" {
			return x.deep(st, w.Val, "Opq"), "v"
		}
		t := x.deep(st, v, "V")
		if c := th.vtype[t.Op]; c != nil && types.TypeString(c, nil) == "github.com/robertkrimen/otto.Value" {
			return t.Args[0], "v"
		}
		return t, "s"
	}
	trusted("github.com/robertkrimen/otto.New", "a new interpreter, always in the same state", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VPtr{Obj: x.newObj(st, &Obj{kind: oVM, t: App("vm_new"), f: []Value{VNil{}}, owner: "fresh"})})
	})
	trusted("(github.com/robertkrimen/otto.Otto).Set", "sets a global variable of the interpreter or gives an error", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		id, o := vmOf(st, a[0])
		name := x.str(st, a[1])
		v, s := arg(x, st, a[2])
		x.fork(st, App("vm_set"+s+"_ok", o.t, name, v), func(n *State) {
			setVM(x, n, id, App("vm_set"+s, o.t, name, v), pos)
			k(Outcome{st: n, val: nilErr()})
		}, func(n *State) {
			setVM(x, n, id, fresh("vm", "Opq"), pos)
			k(Outcome{st: n, val: errVal(fresh("vmerr", "Str"))})
		})
	})
	trusted("(github.com/robertkrimen/otto.Otto).Run", "runs a text in the interpreter: a value or an error, and a next state, all determined by the state and the text; or, while an interrupt channel is set, what the function that arrives there does instead", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		id, o := vmOf(st, a[0])
		src, s := arg(x, st, a[1])
		if s != "s" {
			unsup("run of a value")
		}
		if o.f[0] == nil && x.unknownInterrupt(st) {
			return
		}
		normal := func(st *State) {
			setVM(x, st, id, App("vm_run", o.t, src), pos)
			x.fork(st, App("vm_run_ok", o.t, src), func(n *State) {
				k(Outcome{st: n, val: VTuple{VT{T: App("vm_val", o.t, src)}, nilErr()}})
			}, func(n *State) {
				k(Outcome{st: n, val: VTuple{VT{T: fresh("noval", "Opq")}, errVal(App("vm_run_err", o.t, src))}})
			})
		}
		c, ok := o.f[0].(VChan)
		if !ok {
			normal(st)
			return
		}
		x.fork(st, App("vm_halts", o.t, src), func(n *State) {
			x.interrupt(n, id, c, pos, k)
		}, normal)
	})
	trusted("github.com/andygello555/gotils/strings.ReplaceCharIndex", "the text with the characters at the given ascending positions replaced", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: App("replaceAt", x.str(st, a[0]), x.deep(st, a[1], "Seq_Int"), x.deep(st, a[2], "Seq_Str"))})
	})
	trusted("(github.com/robertkrimen/otto.Value).IsBoolean", "whether the value is a boolean", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: App("ov_isbool", x.deep(st, a[0], "Opq"))})
	})
	trusted("(github.com/robertkrimen/otto.Value).ToBoolean", "the truth of the value; no error for a boolean", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		v := x.deep(st, a[0], "Opq")
		e := fresh("boolerr", "V")
		st.assume(Imp(App("ov_isbool", v), Eq(e, App("V_nil"))))
		ret1(st, k, VTuple{VT{T: App("ov_bool", v)}, VT{T: e}})
	})
}

// unknownInterrupt: is this place not reached with an interrupt channel left over from an earlier iteration?
func (x *Exec) unknownInterrupt(st *State) bool {
	if x.silent == 0 && !x.sol.entails(st.pc, False) {
		unsup("an interpreter with an unknown interrupt channel")
	}
	return true
}

// interrupt: the interpreter's run is cut short by the function some goroutine sends to its interrupt channel. A
// function that returns lets the run go on for ever, which no property is about.
func (x *Exec) interrupt(st *State, vm int, c VChan, pos string, k func(Outcome)) {
	x.note("a run that is interrupted ends with the panic of the function sent to the interrupt channel")
	if x.goDepth > 0 || st.inside {
		unsup("an interpreter within a goroutine")
	}
	for i, t := range st.threads {
		s := st.clone()
		s.threads = append(append([]thread{}, st.threads[:i]...), st.threads[i+1:]...)
		s.inside, s.slept, s.sent = true, nil, nil
		x.goDepth++
		x.goMarks = append(x.goMarks, x.nobj)
		x.call(&Frame{pan: -1, panicking: -1}, s, t.fn, t.args, pos, -1, func(o Outcome) {
			d, m := x.goDepth, x.goMarks
			x.goDepth--
			x.goMarks = x.goMarks[:len(x.goMarks)-1]
			defer func() { x.goDepth, x.goMarks = d, m }()
			if o.panic {
				x.oblige(o.st, False, "no panic leaves a goroutine: "+o.pos, nil)
				return
			}
			o.st.inside = false
			if len(o.st.sent) == 0 || o.st.sent[0].(chanMsg).ch != c.Obj {
				return
			}
			f := o.st.sent[0].(chanMsg).v
			o.st.sent = nil
			x.call(&Frame{pan: -1, panicking: -1}, o.st, f, nil, pos, -1, func(p Outcome) {
				if p.panic {
					n := p.st.objs[vm].clone()
					n.t = fresh("vm", "Opq")
					p.st.objs[vm] = n
					k(p)
				}
			})
		})
		x.goDepth--
		x.goMarks = x.goMarks[:len(x.goMarks)-1]
	}
}

// dropDetached forgets goroutines that only wait to send into a buffered channel made since mark: nothing but what
// interrupts the interpreter of the same iteration can see them.
func (x *Exec) dropDetached(st *State, mark int) {
	var left []thread
	for _, t := range st.threads {
		ok := t.timer
		for _, b := range append(append([]Value{}, t.fn.Bind...), t.args...) {
			if w, isT := b.(VT); isT && (w.T.Sort == "Int" || w.T.Sort == "Str" || w.T.Sort == "Bool") {
				continue
			}
			p, isP := b.(VPtr)
			c, isC := b.(VChan)
			if isP && p.Obj > mark {
				if o := st.objs[p.Obj]; o != nil && o.kind == oCell && !o.strct {
					c, isC = o.f[0].(VChan)
				}
			}
			if !isC || c.Obj <= mark || !isLit(st.objs[c.Obj].cap) || st.objs[c.Obj].cap == intT(0) {
				ok = false
			}
		}
		if !ok {
			left = append(left, t)
		}
	}
	st.threads = left
}
