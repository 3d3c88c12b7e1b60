package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st    *State
	panic bool
	val   Value // result (VTuple for several), or panic value
	pos   string
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Value
	bind      []Value
	defers    []deferred
	pan       int // panic this deferred call may recover, -1 none
	panicking int // own panic while defers run, -1 none
	k         func(Outcome)
	id        int
	con       *Contract // contract whose invariants apply
	chain     []*ssa.Function
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

type loopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	back   func(fr *Frame, pred *ssa.BasicBlock, st *State)
	silent bool
	parent *loopCtx
}

func (l *loopCtx) quiet() bool {
	for ; l != nil; l = l.parent {
		if l.silent {
			return true
		}
	}
	return false
}

const maxSteps = 3000000

// run executes a function body on all paths.
func (x *Exec) run(chain []*ssa.Function, fn *ssa.Function, args, bind []Value, pan int, st *State, con *Contract, k func(Outcome)) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	if len(chain) > 40 {
		unsup("call depth in %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, bind: bind, pan: pan, panicking: -1, k: k, con: con, chain: append(append([]*ssa.Function{}, chain...), fn)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = bind[i]
	}
	mark := x.nobj
	fr.k = func(o Outcome) {
		for id, it := range o.st.objs {
			if id > mark {
				endRange(o.st, id, it)
			}
		}
		k(o)
	}
	x.exec(fr, fn.Blocks[0], 0, st, nil)
}

// endRange: the iteration is over, its map may be changed as one likes.
func endRange(st *State, id int, it *Obj) {
	if it.kind == oIter && it.src != 0 {
		it = it.clone()
		it.src = 0
		st.objs[id] = it
	}
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := x.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Exec) jump(fr *Frame, from, to *ssa.BasicBlock, st *State, lc *loopCtx) {
	if lc != nil {
		if to == lc.header {
			lc.back(fr, from, st)
			return
		}
		if !lc.blocks[to] {
			if lc.silent {
				return
			}
			for _, in := range lc.header.Instrs {
				if n, ok := in.(*ssa.Next); ok {
					if it, ok := fr.env[n.Iter].(VIter); ok {
						endRange(st, it.Obj, st.objs[it.Obj])
					}
				}
			}
			x.jump(fr, from, to, st, lc.parent)
			return
		}
	}
	if L := loopsOf(fr.fn)[to]; L != nil {
		x.loop(fr, from, to, L, st, lc)
		return
	}
	x.enter(fr, from, to, st, lc)
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	panic("no such edge")
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func (x *Exec) enter(fr *Frame, from, to *ssa.BasicBlock, st *State, lc *loopCtx) {
	ps := phisOf(to)
	if len(ps) > 0 {
		i := predIndex(from, to)
		var vs []Value
		for _, p := range ps {
			vs = append(vs, x.val(fr, st, p.Edges[i]))
		}
		for j, p := range ps {
			fr.env[p] = vs[j]
		}
	}
	x.exec(fr, to, len(ps), st, lc)
}

// val evaluates an SSA operand.
func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Global:
		return x.globalPtr(st, v)
	case *ssa.Function:
		return VFn{Fn: v}
	case *ssa.Builtin:
		return VFn{Name: v.Name()}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (x *Exec) globalPtr(st *State, g *ssa.Global) Value {
	if id, ok := x.globalObj(st, g); ok {
		return VPtr{Obj: id}
	}
	et := g.Type().(*types.Pointer).Elem()
	owner := "global:" + g.String()
	var v Value
	if x.init && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/andygello555/") {
		v = x.newCell(st, et, owner)
	} else {
		id := x.freshPtr(st, "g_"+g.Name(), types.NewPointer(et), owner)
		v = id
		if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/andygello555/") && typeKey(et) == "error" {
			x.note("package variables of the standard library that hold an error are not nil")
			e := x.deep(st, x.load(st, id.(VPtr), et), "V")
			st.assume(Not(Eq(e, App("V_nil"))))
			st.assume(App("iserror", e))
		}
		if n, ok := x.C.gname[shortName(g.String())]; ok {
			st.assume(Eq(x.deep(st, x.load(st, id.(VPtr), et), th.sortOf(et)), App(n)))
		}
	}
	x.globals[g] = v.(VPtr).Obj
	st.box[globalKey(g)] = v.(VPtr).Obj
	return v
}

func globalKey(g *ssa.Global) *Term { return mkVar("globalptr:"+g.String(), "Opq") }

// globalObj finds the object a package variable has in a state. Object numbers are reused between
// states that do not continue each other, so the state's own record comes first.
func (x *Exec) globalObj(st *State, g *ssa.Global) (int, bool) {
	if id, ok := st.box[globalKey(g)]; ok {
		if _, ok := st.objs[id]; ok {
			return id, true
		}
	}
	if id, ok := x.globals[g]; ok {
		if o := st.objs[id]; o != nil && o.owner == "global:"+g.String() && o.kind != oMap && o.kind != oSeq {
			return id, true
		}
	}
	return 0, false
}

// newCell allocates zeroed storage of a type.
func (x *Exec) newCell(st *State, et types.Type, owner string) Value {
	switch typeKey(et) {
	case "sync.WaitGroup":
		return VPtr{Obj: x.newObj(st, &Obj{kind: oWG, n: intT(0), owner: owner})}
	case "time.Time", "github.com/robertkrimen/otto.Value":
		return VPtr{Obj: x.newObj(st, &Obj{kind: oCell, typ: et, f: []Value{VT{T: zeroTerm(th.sortOf(et))}}, owner: owner})}
	case "strings.Builder":
		return VPtr{Obj: x.newObj(st, &Obj{kind: oBuilder, t: strLit(""), owner: owner})}
	}
	switch u := under(et).(type) {
	case *types.Struct:
		if _, ok := th.structTy[th.sortOf(et)]; !ok {
			return VPtr{Obj: x.newObj(st, &Obj{kind: oOpaque, typ: et, t: zeroTerm("Opq"), owner: owner})}
		}
		z := x.zeroVal(st, et).(VStruct)
		return VPtr{Obj: x.newObj(st, &Obj{kind: oCell, strct: true, typ: et, f: z.F, owner: owner})}
	case *types.Array:
		es := th.sortOf(u.Elem())
		s := th.seqSort(es)
		o := &Obj{kind: oSeq, typ: types.NewSlice(u.Elem()), t: App("rep."+s, intT(u.Len()), zeroTerm(es)), owner: owner}
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				o.vals = append(o.vals, x.zeroVal(st, u.Elem()))
			}
		}
		return VPtr{Obj: x.newObj(st, o)}
	}
	return VPtr{Obj: x.newObj(st, &Obj{kind: oCell, typ: et, f: []Value{x.zeroVal(st, et)}, owner: owner})}
}

func (x *Exec) constVal(st *State, c *ssa.Const) Value {
	if c.Value == nil {
		return x.zeroVal(st, c.Type())
	}
	switch b := under(c.Type()).(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return VT{T: boolT(constant.BoolVal(c.Value))}
		case b.Info()&types.IsInteger != 0:
			n, ok := constant.Int64Val(constant.ToInt(c.Value))
			if !ok {
				u, _ := constant.Uint64Val(constant.ToInt(c.Value))
				return VT{T: raw(fmt.Sprint(u), "Int")}
			}
			return VT{T: intT(n)}
		case b.Info()&types.IsString != 0:
			return VT{T: strLit(constant.StringVal(c.Value))}
		case b.Info()&types.IsFloat != 0:
			n := "f64_" + sanitize(c.Value.ExactString())
			th.declSort("F64")
			funcSig[n] = []string{"F64"}
			return VT{T: App(n)}
		}
	}
	unsup("constant %s", c)
	return nil
}

func (x *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	return !x.sol.infeasible(st.pc)
}

// fork explores both outcomes of a condition.
func (x *Exec) fork(st *State, c *Term, then, els func(*State)) {
	if c == True || quickEntails(st.pc, c) {
		then(st)
		return
	}
	if c == False || quickEntails(st.pc, Not(c)) {
		els(st)
		return
	}
	a := st.clone()
	a.assume(c)
	b := st.clone()
	b.assume(Not(c))
	fa, fb := x.feasible(a), x.feasible(b)
	if os.Getenv("VF_FORKS") != "" {
		fmt.Fprintf(os.Stderr, "fork %v/%v %.300s\n", fa, fb, c)
	}
	if fa {
		then(a)
	}
	if fb {
		els(b)
	}
}

var noGoals = os.Getenv("VF_NOGOALS") != "" // look at loops only

func (x *Exec) oblige(st *State, goal *Term, name string, tags []string) {
	if goal == True && x.silent == 0 {
		x.addObl(&Obligation{Name: name, Tags: tags, Status: "trivial", Fn: x.curFn()})
		return
	}
	if x.silent > 0 || x.init || noGoals {
		st.assume(goal)
		return
	}
	o := &Obligation{Name: name, Tags: tags, Fn: x.curFn(), Trace: st.trace}
	if x.sol.entails(st.pc, goal) {
		o.Status = "proved"
	} else {
		o.Status = "open"
		o.pc = append([]*Term{}, st.pc...)
		o.goal = goal
		if os.Getenv("VF_DUMP") != "" {
			fmt.Fprintf(os.Stderr, "OPEN %s in %s\n", name, o.Fn)
			for _, t := range st.pc {
				fmt.Fprintf(os.Stderr, "   %s\n", t)
			}
			fmt.Fprintf(os.Stderr, "  ⊢ %s\n", goal)
		}
	}
	x.addObl(o)
	st.assume(goal)
}

func (x *Exec) curFn() string {
	if x.top != nil {
		return x.top.Name
	}
	return ""
}

func (x *Exec) addObl(o *Obligation) { x.obls = append(x.obls, o) }

// runtimePanic raises a run-time error.
func (x *Exec) runtimePanic(fr *Frame, st *State, lc *loopCtx, kind int, msg, pos string) {
	x.raise(fr, st, lc, VIface{types.Typ[types.Invalid], nil}.rt(kind, msg), pos)
}

func (v VIface) rt(kind int, msg string) Value {
	return VT{T: App("V_rterr", intT(int64(kind)), strLit(msg))}
}

// raise starts a panic in a frame: its deferred calls run, and it leaves unless recovered.
func (x *Exec) raise(fr *Frame, st *State, lc *loopCtx, val Value, pos string) {
	if lc.quiet() && len(fr.defers) == 0 {
		return
	}
	st.trace = append(st.trace, "panic at "+pos)
	if len(fr.defers) == 0 {
		fr.k(Outcome{st: st, panic: true, val: val, pos: pos})
		return
	}
	if lc.quiet() {
		return
	}
	st.pan = append(st.pan, &panRec{val: val})
	fr = fr.clone()
	fr.panicking = len(st.pan) - 1
	x.runDefers(fr, st, func(st *State, fr *Frame) {
		p := st.pan[fr.panicking]
		if !p.recovered {
			st.pan = st.pan[:fr.panicking]
			fr.k(Outcome{st: st, panic: true, val: p.val, pos: pos})
			return
		}
		st.pan = st.pan[:fr.panicking]
		fr.panicking = -1
		if fr.fn.Recover != nil {
			x.exec(fr, fr.fn.Recover, 0, st, nil)
			return
		}
		fr.k(Outcome{st: st, val: x.zeroResults(st, fr.fn)})
	})
}

func (x *Exec) zeroResults(st *State, fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return x.zeroVal(st, r.At(0).Type())
	}
	return x.zeroVal(st, r)
}

func (x *Exec) runDefers(fr *Frame, st *State, done func(*State, *Frame)) {
	if len(fr.defers) == 0 {
		done(st, fr)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	x.call(fr, st, d.fn, d.args, "deferred", fr.panicking, func(o Outcome) {
		f2 := fr.clone()
		if o.panic {
			// a panic in a deferred call replaces the current one
			if f2.panicking >= 0 {
				o.st.pan = o.st.pan[:f2.panicking]
			}
			o.st.pan = append(o.st.pan, &panRec{val: o.val})
			f2.panicking = len(o.st.pan) - 1
			x.runDefers(f2, o.st, func(s *State, f *Frame) {
				p := s.pan[f.panicking]
				if p.recovered {
					s.pan = s.pan[:f.panicking]
					done2 := f.clone()
					done2.panicking = -1
					done2.k(Outcome{st: s, val: x.zeroResults(s, f.fn)})
					return
				}
				s.pan = s.pan[:f.panicking]
				f.k(Outcome{st: s, panic: true, val: p.val, pos: o.pos})
			})
			return
		}
		x.runDefers(f2, o.st, done)
	})
}

func (x *Exec) exec(fr *Frame, b *ssa.BasicBlock, i int, st *State, lc *loopCtx) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > maxSteps {
			unsup("too many steps")
		}
		if st.dead {
			return
		}
		if x.silent == 0 && !x.init {
			x.cov.at(b, i)
		}
		in := b.Instrs[i]
		next := func(fr *Frame, st *State) { x.exec(fr, b, i+1, st, lc) }
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			fr.env[in] = x.newCell(st, in.Type().Underlying().(*types.Pointer).Elem(), "fresh")
		case *ssa.Phi:
			panic("phi in the middle")
		case *ssa.BinOp:
			a, c := x.val(fr, st, in.X), x.val(fr, st, in.Y)
			if (in.Op == token.QUO || in.Op == token.REM) && x.deep(st, a, "").Sort == "Int" {
				d := x.deep(st, c, "Int")
				iv := i
				x.fork(st, Eq(d, intT(0)), func(s *State) {
					x.runtimePanic(fr.clone(), s, lc, 4, "runtime error: integer divide by zero", x.pos(in.Pos()))
				}, func(s *State) {
					f := fr.clone()
					f.env[in] = VT{T: x.divmod(s, in.Op, x.deep(s, a, "Int"), d)}
					x.exec(f, b, iv+1, s, lc)
				})
				return
			}
			fr.env[in] = x.binop(st, in, a, c)
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				x.recv(fr, st, in, lc, next)
				return
			}
			if in.Op == token.MUL {
				p := x.val(fr, st, in.X)
				if x.nilDeref(fr, st, p, lc, x.pos(in.Pos())) {
					return
				}
				fr.env[in] = x.load(st, p, in.Type())
				break
			}
			t := x.deep(st, x.val(fr, st, in.X), "")
			switch in.Op {
			case token.NOT:
				fr.env[in] = VT{T: Not(t)}
			case token.SUB:
				if t.Sort != "Int" {
					unsup("negation of %s", t.Sort)
				}
				fr.env[in] = VT{T: Sub(intT(0), t)}
			default:
				unsup("unary %s", in.Op)
			}
		case *ssa.ChangeType:
			fr.env[in] = x.val(fr, st, in.X)
		case *ssa.ChangeInterface:
			v := x.val(fr, st, in.X)
			if w, ok := v.(VT); ok && under(in.X.Type()).(*types.Interface).NumMethods() > 0 && typeKey(in.X.Type()) != "error" {
				st.assume(Or(Eq(w.T, App("V_nil")), x.implements(w.T, in.X.Type()))) // what the type of the variable says
			}
			fr.env[in] = v
		case *ssa.Convert:
			fr.env[in] = x.convert(st, x.val(fr, st, in.X), in.X.Type(), in.Type())
		case *ssa.MakeInterface:
			v := x.val(fr, st, in.X)
			fr.env[in] = x.mkIface(st, v, in.X.Type())
		case *ssa.Extract:
			fr.env[in] = x.val(fr, st, in.Tuple).(VTuple)[in.Index]
		case *ssa.Field:
			fr.env[in] = x.field(st, x.val(fr, st, in.X), in.X.Type(), in.Field)
		case *ssa.FieldAddr:
			p := x.val(fr, st, in.X)
			if x.nilDeref(fr, st, p, lc, x.pos(in.Pos())) {
				return
			}
			q := p.(VPtr)
			fr.env[in] = VPtr{Obj: q.Obj, Idx: q.Idx, Path: append(append([]int{}, q.Path...), in.Field)}
		case *ssa.IndexAddr:
			x.indexAddr(fr, st, in, lc, next)
			return
		case *ssa.Index:
			unsup("array index by value")
		case *ssa.Lookup:
			x.lookup(fr, st, in, lc, next)
			return
		case *ssa.MakeMap:
			s := th.sortOf(in.Type())
			fr.env[in] = VMap{x.newObj(st, &Obj{kind: oMap, typ: in.Type(), t: App("mempty." + s)})}
		case *ssa.MakeSlice:
			x.makeSlice(fr, st, in, lc, next)
			return
		case *ssa.MakeChan:
			et := in.Type().Underlying().(*types.Chan).Elem()
			bs := th.bagSort(th.sortOf(et))
			fr.env[in] = VChan{x.newObj(st, &Obj{kind: oChan, typ: in.Type(), t: App("bempty." + bs), cap: x.deep(st, x.val(fr, st, in.Size), "Int"), closed: False})}
		case *ssa.MakeClosure:
			f := VFn{Fn: in.Fn.(*ssa.Function)}
			for _, bd := range in.Bindings {
				f.Bind = append(f.Bind, x.val(fr, st, bd))
			}
			fr.env[in] = f
		case *ssa.Slice:
			x.slice(fr, st, in, lc, next)
			return
		case *ssa.Store:
			p := x.val(fr, st, in.Addr)
			if x.nilDeref(fr, st, p, lc, x.pos(in.Pos())) {
				return
			}
			x.store(st, p, x.val(fr, st, in.Val), in.Val.Type(), "store at "+x.pos(in.Pos()))
		case *ssa.MapUpdate:
			m := x.val(fr, st, in.Map)
			vm, ok := m.(VMap)
			if !ok {
				unsup("map update of %T", m)
			}
			if vm.Obj == 0 {
				x.runtimePanic(fr, st, lc, 5, "assignment to entry in nil map", x.pos(in.Pos()))
				return
			}
			x.mapSet(st, vm.Obj, x.val(fr, st, in.Key), x.val(fr, st, in.Value), "map write at "+x.pos(in.Pos()))
		case *ssa.Range:
			x.rng(fr, st, in)
		case *ssa.Next:
			x.next(fr, st, in, lc, next)
			return
		case *ssa.TypeAssert:
			x.typeAssert(fr, st, in, lc, next)
			return
		case *ssa.Defer:
			fv, args := x.callee(fr, st, in.Common())
			fr.defers = append(fr.defers, deferred{fv, args, in.Common()})
		case *ssa.RunDefers:
			bi := i
			x.runDefers(fr, st, func(s *State, f *Frame) { x.exec(f, b, bi+1, s, lc) })
			return
		case *ssa.Go:
			fv, args := x.callee(fr, st, in.Common())
			bi := i
			x.spawn(fr, st, fv, args, x.pos(in.Pos()), func(s *State) { x.exec(fr.clone(), b, bi+1, s, lc) })
			return
		case *ssa.Send:
			ch := x.val(fr, st, in.Chan)
			if !x.send(st, ch, x.val(fr, st, in.X), x.pos(in.Pos())) {
				return
			}
		case *ssa.Call:
			fv, args := x.callee(fr, st, in.Common())
			bi := i
			x.call(fr, st, fv, args, x.pos(in.Pos()), -1, func(o Outcome) {
				f := fr.clone()
				if o.panic {
					x.raise(f, o.st, lc, o.val, o.pos)
					return
				}
				f.env[in] = o.val
				x.exec(f, b, bi+1, o.st, lc)
			})
			return
		case *ssa.If:
			c := x.deep(st, x.val(fr, st, in.Cond), "Bool")
			f2 := fr
			x.fork(st, c, func(s *State) {
				s.trace = append(s.trace, x.pos(condPos(in))+" yes")
				x.jump(f2.clone(), b, b.Succs[0], s, lc)
			}, func(s *State) {
				s.trace = append(s.trace, x.pos(condPos(in))+" no")
				x.jump(f2.clone(), b, b.Succs[1], s, lc)
			})
			return
		case *ssa.Jump:
			x.jump(fr, b, b.Succs[0], st, lc)
			return
		case *ssa.Return:
			if lc.quiet() {
				return
			}
			var v Value
			switch len(in.Results) {
			case 0:
			case 1:
				v = x.val(fr, st, in.Results[0])
			default:
				var tp VTuple
				for _, r := range in.Results {
					tp = append(tp, x.val(fr, st, r))
				}
				v = tp
			}
			fr.k(Outcome{st: st, val: v, pos: x.pos(in.Pos())})
			return
		case *ssa.Panic:
			x.raise(fr, st, lc, x.val(fr, st, in.X), x.pos(in.Pos()))
			return
		case *ssa.Select:
			unsup("select at %s", x.pos(in.Pos()))
		default:
			unsup("instruction %T at %s", in, x.pos(in.Pos()))
		}
	}
}

func condPos(in *ssa.If) token.Pos {
	if in.Cond.Pos().IsValid() {
		return in.Cond.Pos()
	}
	return in.Pos()
}

func (x *Exec) divmod(st *State, op token.Token, a, b *Term) *Term {
	x.note("integer division is mathematical truncated division")
	n := "quo"
	if op == token.REM {
		n = "rem"
	}
	if _, ok := funcSig["go"+n]; !ok {
		funcSig["go"+n] = []string{"Int", "Int", "Int"}
	}
	if p, ok := a.isInt(); ok {
		if q, ok := b.isInt(); ok && q != 0 {
			if n == "quo" {
				return intT(p / q)
			}
			return intT(p % q)
		}
	}
	if b == intT(1) && n == "quo" {
		return a
	}
	return App("go"+n, a, b)
}

func (x *Exec) nilDeref(fr *Frame, st *State, p Value, lc *loopCtx, pos string) bool {
	switch p := p.(type) {
	case VNil:
		x.runtimePanic(fr, st, lc, 6, "runtime error: invalid memory address or nil pointer dereference", pos)
		return true
	case VPtr:
		_ = p
		return false
	}
	unsup("dereference of %T at %s", p, pos)
	return true
}

func isNilV(v Value) (bool, bool) { // nil?, known?
	switch v := v.(type) {
	case VNil:
		return true, true
	case VMap:
		return v.Obj == 0, true
	case VSlice:
		return v.Obj == 0, true
	case VPtr, VChan, VFn:
		return false, true
	case VIface:
		return false, true
	}
	return false, false
}

func (x *Exec) binop(st *State, in *ssa.BinOp, a, b Value) Value {
	switch in.Op {
	case token.EQL, token.NEQ:
		r := x.equal(st, a, b, in.X.Type(), in.Y.Type())
		if r.Op == "=" && r.Args[0].Sort == "Str" { // empty texts are those of length 0
			for i, e := range r.Args {
				if l, ok := th.litText[e]; ok && l == "" {
					st.assume(Eq(r, Eq(App("strlen", r.Args[1-i]), intT(0))))
				}
			}
		}
		if in.Op == token.NEQ {
			r = Not(r)
		}
		return VT{T: r}
	}
	p, q := x.deep(st, a, ""), x.deep(st, b, "")
	switch p.Sort {
	case "Int":
		switch in.Op {
		case token.ADD:
			return VT{T: Add(p, q)}
		case token.SUB:
			return VT{T: Sub(p, q)}
		case token.MUL:
			return VT{T: Mul(p, q)}
		case token.LSS:
			return VT{T: Lt(p, q)}
		case token.LEQ:
			return VT{T: Le(p, q)}
		case token.GTR:
			return VT{T: Lt(q, p)}
		case token.GEQ:
			return VT{T: Le(q, p)}
		case token.OR, token.AND, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			c, ok1 := p.isInt()
			d, ok2 := q.isInt()
			if ok1 && ok2 {
				switch in.Op {
				case token.OR:
					return VT{T: intT(c | d)}
				case token.AND:
					return VT{T: intT(c & d)}
				case token.XOR:
					return VT{T: intT(c ^ d)}
				case token.SHL:
					return VT{T: intT(c << uint(d))}
				case token.SHR:
					return VT{T: intT(c >> uint(d))}
				}
			}
		}
	case "Bool":
	case "Str":
		switch in.Op {
		case token.ADD:
			return VT{T: App("cat", p, q)}
		case token.LSS:
			return VT{T: Not(App("strle", q, p))}
		case token.LEQ:
			return VT{T: App("strle", p, q)}
		case token.GTR:
			return VT{T: Not(App("strle", p, q))}
		case token.GEQ:
			return VT{T: App("strle", q, p)}
		}
	}
	fn := "op_" + sanitize(in.Op.String()) + fmt.Sprint(int(in.Op)) + "_" + p.Sort
	if _, ok := funcSig[fn]; !ok {
		funcSig[fn] = []string{p.Sort, q.Sort, th.sortOf(in.Type())}
	}
	return VT{T: App(fn, p, q)}
}

func (x *Exec) equal(st *State, a, b Value, ta, tb types.Type) *Term {
	// identity of references
	switch p := a.(type) {
	case VPtr:
		switch q := b.(type) {
		case VPtr:
			if p.Obj != q.Obj {
				return False
			}
			if p.Idx == nil && q.Idx == nil && fmt.Sprint(p.Path) == fmt.Sprint(q.Path) {
				return True
			}
			return False
		case VNil:
			return False
		}
	case VNil:
		if n, known := isNilV(b); known {
			return boolT(n)
		}
		if vt, ok := b.(VT); ok && vt.T.Sort == "V" {
			return Eq(vt.T, App("V_nil"))
		}
	case VMap:
		if q, ok := b.(VMap); ok && q.Obj == 0 {
			if p.Obj == 0 {
				return True
			}
			return boolT(st.objs[p.Obj].nilm)
		}
	case VSlice:
		if q, ok := b.(VSlice); ok && q.Obj == 0 {
			if p.Obj == 0 {
				return True
			}
			return x.sliceNil(st, p)
		}
	case VFn:
		if _, ok := b.(VNil); ok {
			return False
		}
	case VChan:
		switch q := b.(type) {
		case VNil:
			return False
		case VChan:
			return boolT(p.Obj == q.Obj)
		}
	}
	if _, ok := b.(VNil); ok {
		if _, ok2 := a.(VNil); !ok2 {
			return x.equal(st, b, a, tb, ta)
		}
	}
	if q, ok := b.(VSlice); ok && q.Obj == 0 {
		if _, ok := a.(VSlice); !ok {
			unsup("comparison with nil slice")
		}
	}
	ia, aIf := a.(VIface)
	ib, bIf := b.(VIface)
	if aIf && bIf {
		if !types.Identical(ia.Dyn, ib.Dyn) {
			return False
		}
		return x.equal(st, ia.Val, ib.Val, ia.Dyn, ib.Dyn)
	}
	if aIf || bIf {
		// pointers and the like inside interfaces never equal symbolic document values
		i, o := ia, b
		if bIf {
			i, o = ib, a
		}
		if vt, ok := o.(VT); ok && vt.T == App("V_nil") {
			return False
		}
		if _, isPtr := under(i.Dyn).(*types.Pointer); isPtr {
			unsup("comparison of pointer in interface with symbolic value")
		}
	}
	p := x.deep(st, a, "")
	q := x.deep(st, b, p.Sort)
	return Eq(p, q)
}

func (x *Exec) sliceNil(st *State, p VSlice) *Term {
	o := st.objs[p.Obj]
	if madeHere(o) {
		return False
	}
	if o.nie && o.t != nil {
		return Eq(App("len."+o.t.Sort, o.t), intT(0))
	}
	// a slice from outside: being nil is not part of its sequence
	if o.nilT == nil {
		n := o.clone()
		n.nilT = fresh("isnil", "Bool")
		st.objs[p.Obj] = n
		o = n
	}
	st.assume(Imp(o.nilT, Eq(p.Len, intT(0))))
	return o.nilT
}

func (x *Exec) mkIface(st *State, v Value, ty types.Type) Value {
	if isIface(ty) {
		return v
	}
	switch w := v.(type) {
	case VT:
		if c, ok := th.vCtor(ty); ok {
			return VT{T: App(c, w.T)}
		}
		return VIface{ty, v}
	case VStruct:
		return VIface{ty, v}
	}
	return VIface{ty, v}
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fb, fok := under(from).(*types.Basic)
	tb, tok := under(to).(*types.Basic)
	if isByteSlice(from) && tok && tb.Info()&types.IsString != 0 || fok && fb.Info()&types.IsString != 0 && isByteSlice(to) {
		return VT{T: x.deep(st, v, "Str")}
	}
	if fok && tok {
		t := x.deep(st, v, "")
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return VT{T: t}
		}
		if tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0 {
			if n, ok := t.isInt(); ok {
				return VT{T: strLit(string(rune(n)))}
			}
			return VT{T: x.ufun("runestr", "Str", t)}
		}
		return VT{T: x.ufun("conv_"+sanitize(fb.Name())+"_"+sanitize(tb.Name()), th.sortOf(to), t)}
	}
	if types.Identical(under(from), under(to)) {
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

// ufun applies an uninterpreted function, declaring it on first use.
func (x *Exec) ufun(name, res string, args ...*Term) *Term {
	var sig []string
	for _, a := range args {
		sig = append(sig, a.Sort)
		name += "_" + a.Sort
	}
	if _, ok := funcSig[name]; !ok {
		funcSig[name] = append(sig, res)
		th.userFuns = append(th.userFuns, name)
	}
	return App(name, args...)
}

func (x *Exec) field(st *State, v Value, ty types.Type, i int) Value {
	switch w := v.(type) {
	case VStruct:
		return w.F[i]
	case VT:
		srt := w.T.Sort
		if stt, ok := th.structTy[srt]; ok {
			return x.lift(st, App(ctors["mk."+srt].sels[i], w.T), stt.Field(i).Type(), nil, "value")
		}
	}
	unsup("field of %T", v)
	return nil
}

func (x *Exec) load(st *State, p Value, ty types.Type) Value {
	q, ok := p.(VPtr)
	if !ok {
		unsup("load from %T", p)
	}
	o := st.objs[q.Obj]
	if o == nil {
		unsup("load from dangling pointer")
	}
	if q.Idx != nil {
		var v Value
		if n, ok := q.Idx.isInt(); ok && o.vals != nil && int(n) < len(o.vals) {
			v = o.vals[n]
		} else {
			et := o.typ.Underlying().(*types.Slice).Elem()
			t := App("at."+o.t.Sort, o.t, q.Idx)
			v = x.liftElem(st, t, et, q.Obj, q.Idx)
		}
		for _, f := range q.Path {
			v = x.field(st, v, nil, f)
		}
		return v
	}
	switch o.kind {
	case oCell:
		if o.strct {
			if len(q.Path) == 0 {
				return VStruct{o.typ, o.f}
			}
			v := o.f[q.Path[0]]
			for _, f := range q.Path[1:] {
				v = x.field(st, v, nil, f)
			}
			return v
		}
		v := o.f[0]
		for _, f := range q.Path {
			v = x.field(st, v, nil, f)
		}
		return v
	case oVM: // a copy of the interpreter is the same interpreter
		if len(q.Path) == 0 {
			return p
		}
		return o.f[0]
	case oSeq: // whole array
		unsup("array by value")
	case oOpaque:
		return VT{T: x.ufun("deref_"+th.sortOf(ty), th.sortOf(ty), o.t)}
	}
	unsup("load from object kind %d", o.kind)
	return nil
}

// liftElem makes the value of a container element, opening maps and slices as attached objects.
func (x *Exec) liftElem(st *State, t *Term, et types.Type, parent int, key *Term) Value {
	po := st.objs[parent]
	switch under(et).(type) {
	case *types.Interface:
		return VT{T: t, Org: &origin{parent, key}}
	case *types.Map, *types.Slice:
		if c := x.child(st, parent, key); c != 0 {
			o := st.objs[c]
			if o.kind == oMap {
				return VMap{c}
			}
			return VSlice{c, intT(0), App("len."+o.t.Sort, o.t)}
		}
		return x.lift(st, t, et, &origin{parent, key}, po.owner)
	case *types.Pointer:
		return x.lift(st, t, et, nil, "element")
	}
	return VT{T: t}
}

// child finds the object already opened for an element.
func (x *Exec) child(st *State, parent int, key *Term) int {
	best := 0
	for id, o := range st.objs {
		for _, g := range o.orgs {
			if g.obj == parent {
				c := Eq(g.key, key)
				if c == True {
					return id
				}
				if c == False || x.sol.entails(st.pc, Not(c)) {
					continue
				}
				if x.sol.entails(st.pc, c) {
					best = id
					continue
				}
				unsup("element may have been opened under another index")
			}
		}
	}
	return best
}

func (x *Exec) store(st *State, p Value, v Value, ty types.Type, what string) {
	q, ok := p.(VPtr)
	if !ok {
		unsup("store to %T", p)
	}
	o := st.objs[q.Obj]
	if q.Idx != nil {
		x.checkWrite(st, q.Obj, what)
		es := th.seqElem[o.t.Sort]
		nv := v
		if len(q.Path) > 0 {
			old := x.load(st, VPtr{Obj: q.Obj, Idx: q.Idx}, nil)
			nv = x.setField(st, old, q.Path, v, o.typ.Underlying().(*types.Slice).Elem())
		}
		t := App("upd."+o.t.Sort, o.t, q.Idx, x.deep(st, nv, es))
		var vals []Value
		if n, ok := q.Idx.isInt(); ok && o.vals != nil && int(n) < len(o.vals) {
			vals = append([]Value{}, o.vals...)
			vals[n] = nv
		}
		x.attach(st, q.Obj, q.Idx, nv)
		n := st.objs[q.Obj].clone()
		n.t = t
		n.vals = vals
		st.objs[q.Obj] = n
		x.propagate(st, q.Obj, 0)
		return
	}
	if o.kind == oVM {
		x.checkWrite(st, q.Obj, what)
		switch v.(type) {
		case VChan, VNil:
		default:
			unsup("store of %T to an interpreter", v)
		}
		n := o.clone()
		n.f = []Value{v}
		st.objs[q.Obj] = n
		return
	}
	if o.kind != oCell {
		if o.kind == oSeq {
			unsup("array store")
		}
		if o.kind == oWG || o.kind == oBuilder || o.kind == oOpaque {
			unsup("store to %s", o.typ)
		}
	}
	x.checkWrite(st, q.Obj, what)
	n := o.clone()
	n.f = append([]Value{}, o.f...)
	if o.strct {
		if len(q.Path) == 0 {
			for i := range n.f {
				n.f[i] = x.field(st, v, ty, i)
			}
		} else if len(q.Path) == 1 {
			n.f[q.Path[0]] = v
		} else {
			n.f[q.Path[0]] = x.setField(st, n.f[q.Path[0]], q.Path[1:], v, nil)
		}
	} else {
		if len(q.Path) > 0 {
			n.f[0] = x.setField(st, n.f[0], q.Path, v, nil)
		} else {
			n.f[0] = v
		}
	}
	st.objs[q.Obj] = n
}

func (x *Exec) setField(st *State, old Value, path []int, v Value, ty types.Type) Value {
	if len(path) == 0 {
		return v
	}
	var vs VStruct
	switch w := old.(type) {
	case VStruct:
		vs = VStruct{w.Typ, append([]Value{}, w.F...)}
	case VT:
		stt, ok := th.structTy[w.T.Sort]
		if !ok {
			unsup("set field of %s", w.T.Sort)
		}
		vs = VStruct{Typ: th.structGo[w.T.Sort]}
		for i := 0; i < stt.NumFields(); i++ {
			vs.F = append(vs.F, x.field(st, w, nil, i))
		}
	default:
		unsup("set field of %T", old)
	}
	vs.F[path[0]] = x.setField(st, vs.F[path[0]], path[1:], v, nil)
	return vs
}

func (x *Exec) mapSet(st *State, id int, k, v Value, what string) {
	x.checkWrite(st, id, what)
	o := st.objs[id]
	kv := th.mapKV[o.t.Sort]
	kt := x.deep(st, k, kv[0])
	for _, it := range st.objs {
		if it.kind == oIter && it.src == id && !x.init {
			x.oblige(st, App("has."+o.t.Sort, o.t, kt), "no key is added to a map while it is ranged over: "+what, nil)
			break
		}
	}
	vt := x.deep(st, v, kv[1])
	x.attach(st, id, kt, v)
	x.setContent(st, id, App("store."+o.t.Sort, st.objs[id].t, kt, vt))
}

func (x *Exec) mapDel(st *State, id int, k Value, what string) {
	x.checkWrite(st, id, what)
	o := st.objs[id]
	kt := x.deep(st, k, th.mapKV[o.t.Sort][0])
	x.attach(st, id, kt, nil)
	x.setContent(st, id, App("del."+o.t.Sort, st.objs[id].t, kt))
}
