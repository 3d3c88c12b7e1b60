package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callee(fr *Frame, st *State, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := x.val(fr, st, c.Value)
		for _, a := range c.Args {
			args = append(args, x.val(fr, st, a))
		}
		if w, ok := recv.(VIface); ok && !isIface(w.Dyn) {
			if m := x.prog.LookupMethod(w.Dyn, c.Method.Pkg(), c.Method.Name()); m != nil {
				return VFn{Fn: m}, append([]Value{w.Val}, args...)
			}
		}
		return VFn{Name: "invoke:" + c.Method.Name(), Recv: recv}, append([]Value{recv}, args...)
	}
	f := x.val(fr, st, c.Value)
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	if b, ok := f.(VFn); ok && b.Fn == nil && b.Name != "" {
		// builtins need their types
		b.Recv = c
		return b, args
	}
	if _, ok := f.(VT); ok {
		return VFn{Name: "unknown", Recv: []any{f, c}}, args
	}
	return f, args
}

// call runs a call and hands every outcome to k. pan is the panic a deferred call may recover.
func (x *Exec) call(fr *Frame, st *State, fv Value, args []Value, pos string, pan int, k func(Outcome)) {
	f, ok := fv.(VFn)
	if !ok {
		if _, isNil := fv.(VNil); isNil {
			k(Outcome{st: st, panic: true, val: VT{T: App("V_rterr", intT(6), strLit("runtime error: invalid memory address or nil pointer dereference"))}, pos: pos})
			return
		}
		unsup("call of %T at %s", fv, pos)
	}
	if f.Fn == nil {
		switch {
		case strings.HasPrefix(f.Name, "invoke:"):
			x.invoke(fr, st, f, args, pos, k)
		case f.Name == "unknown":
			a := f.Recv.([]any)
			x.unknownCall(st, a[0].(VT), a[1].(*ssa.CallCommon), args, pos, k)
		default:
			c, _ := f.Recv.(*ssa.CallCommon)
			x.builtin(fr, st, f.Name, c, args, pos, k)
		}
		return
	}
	fn := f.Fn
	if fn.Origin() != nil && len(fn.Blocks) == 0 {
		fn = fn.Origin()
	}
	name := fn.String()
	if x.init && strings.HasPrefix(fn.Name(), "init#") { // what registers a language is not needed for the initial values
		k(Outcome{st: st})
		return
	}
	if h, ok := externs[likeStrings(name)]; ok {
		h(x, st, args, fn, pos, k)
		return
	}
	if info := x.active[fn]; info != nil {
		x.apply(st, info.con, fn, args, f.Bind, info, pos, k)
		return
	}
	if c := x.C.byName(name); c != nil && !(c.Inline) {
		if x.top != nil && x.selfTop(fn) {
			x.apply(st, c, fn, args, f.Bind, nil, pos, k)
			return
		}
		if !x.init {
			x.used[c.Name] = true
			x.apply(st, c, fn, args, f.Bind, nil, pos, k)
			return
		}
	}
	if len(fn.Blocks) > 0 {
		if x.C.rec(x.con(), fn) != nil && !x.init && selfReaching(fn) {
			c := x.C.rec(x.con(), fn)
			x.verifyRec(fr, st, c, f, args, pos, k)
			return
		}
		cn := 0
		for _, g := range fr.chain {
			if g == fn {
				cn++
			}
		}
		if cn > 0 {
			unsup("recursive call of %s without a contract", fn)
		}
		x.run(fr.chain, fn, args, f.Bind, pan, st, nil, k)
		return
	}
	x.external(st, fn, args, pos, k)
}

// selfReaching: a function that may call itself again, directly or through closures it captures.
func selfReaching(fn *ssa.Function) bool { return true }

func (x *Exec) selfTop(fn *ssa.Function) bool { return x.topFn == fn }

func (x *Exec) con() *Contract {
	if x.top == nil {
		return &Contract{}
	}
	return x.top
}

// external: a library function nobody has described. Scalar in, scalar out: some total function of its arguments.
func (x *Exec) external(st *State, fn *ssa.Function, args []Value, pos string, k func(Outcome)) {
	var ts []*Term
	for i, a := range args {
		switch a.(type) {
		case VT, VSlice, VIface:
			ts = append(ts, x.deep(st, a, sortOfParam(fn, i)))
		default:
			unsup("call of %s with %T at %s", fn, a, pos)
		}
	}
	res := fn.Signature.Results()
	var out VTuple
	for i := 0; i < res.Len(); i++ {
		srt := th.sortOf(res.At(i).Type())
		t := x.ufun(fmt.Sprintf("x_%s_%d", sanitize(fn.String()), i), srt, ts...)
		out = append(out, x.lift(st, t, res.At(i).Type(), nil, "value"))
	}
	if fn.Name() != "init" {
		x.note("assumed: %s returns normally and is a function of its arguments", fn)
	}
	switch len(out) {
	case 0:
		k(Outcome{st: st})
	case 1:
		k(Outcome{st: st, val: out[0]})
	default:
		k(Outcome{st: st, val: out})
	}
}

func sortOfParam(fn *ssa.Function, i int) string {
	sg := fn.Signature
	if sg.Recv() != nil {
		if i == 0 {
			return th.sortOf(sg.Recv().Type())
		}
		i--
	}
	if i < sg.Params().Len() {
		return th.sortOf(sg.Params().At(i).Type())
	}
	return ""
}

func (x *Exec) invoke(fr *Frame, st *State, f VFn, args []Value, pos string, k func(Outcome)) {
	m := strings.TrimPrefix(f.Name, "invoke:")
	recv := args[0]
	if m == "Error" {
		switch r := recv.(type) {
		case VT:
			if r.T == App("V_nil") {
				break
			}
			k(Outcome{st: st, val: VT{T: errText(x, r.T)}})
			return
		}
	}
	if h, ok := externs["invoke:"+m]; ok {
		h(x, st, args, nil, pos, k)
		return
	}
	if _, isNil := recv.(VNil); isNil || fmt.Sprint(recv) == fmt.Sprint(VT{T: App("V_nil")}) {
		k(Outcome{st: st, panic: true, val: VT{T: App("V_rterr", intT(6), strLit("runtime error: invalid memory address or nil pointer dereference"))}, pos: pos})
		return
	}
	if d, ok := recv.(VT); ok && d.T.Sort == "V" && x.invokeDoc(st, d.T, m, args, pos, k) {
		return
	}
	unsup("call of method %s on %T at %s", m, recv, pos)
}

func errText(x *Exec, t *Term) *Term {
	if c, ok := ctorOf(t); ok {
		switch c {
		case "V_err":
			return t.Args[0]
		case "V_rterr":
			return t.Args[1]
		}
	}
	return App("errtext", t)
}

// unknownCall: a function value given from outside (a callback or registered runner).
func (x *Exec) unknownCall(st *State, f VT, c *ssa.CallCommon, args []Value, pos string, k func(Outcome)) {
	sg := c.Signature()
	ts := []*Term{f.T}
	var posts []*Term
	for i, a := range args {
		if w, ok := a.(VIface); ok {
			if p, ok := w.Val.(VPtr); ok && len(p.Path) == 0 && p.Idx == nil {
				ts = append(ts, x.envTerm(st, p, w.Dyn))
				x.outside = true
				x.havocArg(st, p, w.Dyn, false, "passed to an unknown function at "+pos)
				x.outside = false
				for n := range x.C.private {
					x.note("a function value from outside replaces but does not edit the tables of a %s", n)
				}
				posts = append(posts, x.envTerm(st, p, w.Dyn))
				continue
			}
		}
		ts = append(ts, x.deep(st, a, th.sortOf(sg.Params().At(i).Type())))
	}
	x.unknownSeq++
	// it may panic with any value
	s2 := st.clone()
	pv := fresh("callpanic", "V")
	s2.assume(Not(Eq(pv, App("V_nil"))))
	s2.assume(x.ufun("callpanics", "Bool", append(append([]*Term{}, ts...), pv)...))
	x.note("a function value from outside may return anything its type allows or panic with any value; it changes only what it is given")
	k(Outcome{st: s2, panic: true, val: VT{T: pv}, pos: pos})
	var out VTuple
	rs := posts
	for i := 0; i < sg.Results().Len(); i++ {
		r := x.freshVal(st, "callres", sg.Results().At(i).Type(), "fresh")
		out = append(out, r)
		rs = append(rs, x.deep(st, r, th.sortOf(sg.Results().At(i).Type())))
	}
	st.assume(x.ufun("calls", "Bool", append(append([]*Term{}, ts...), rs...)...))
	switch len(out) {
	case 0:
		k(Outcome{st: st})
	case 1:
		k(Outcome{st: st, val: out[0]})
	default:
		k(Outcome{st: st, val: out})
	}
}

func (x *Exec) builtin(fr *Frame, st *State, name string, c *ssa.CallCommon, args []Value, pos string, k func(Outcome)) {
	ret := func(v Value) { k(Outcome{st: st, val: v}) }
	switch name {
	case "len":
		switch a := args[0].(type) {
		case VSlice:
			ret(VT{T: a.Len})
		case VMap:
			if a.Obj == 0 {
				ret(VT{T: intT(0)})
				return
			}
			o := st.objs[a.Obj]
			x.cardFacts(st, o.t)
			ret(VT{T: App("card."+o.t.Sort, o.t)})
		case VChan:
			o := st.objs[a.Obj]
			ret(VT{T: App("bcard."+o.t.Sort, o.t)})
		case VT:
			if a.T.Sort != "Str" {
				unsup("len of %s", a.T.Sort)
			}
			ret(VT{T: App("strlen", a.T)})
		default:
			unsup("len of %T", a)
		}
	case "cap":
		switch a := args[0].(type) {
		case VChan:
			ret(VT{T: st.objs[a.Obj].cap})
		case VSlice:
			n := fresh("cap", "Int")
			st.assume(Le(a.Len, n))
			ret(VT{T: n})
		default:
			unsup("cap")
		}
	case "append":
		st0, ok := args[0].(VSlice)
		if !ok {
			// byte slices
			ret(VT{T: App("cat", x.deep(st, args[0], "Str"), x.deep(st, args[1], "Str"))})
			return
		}
		ty := c.Args[0].Type()
		srt := th.sortOf(ty)
		m := args[1].(VSlice)
		var more *Term
		var mv []Value
		known := false
		if m.Obj == 0 {
			more = App("empty." + srt)
			known = true
		} else {
			o := st.objs[m.Obj]
			if n, ok := m.Len.isInt(); ok && o.vals != nil && m.Off == intT(0) && int(n) == len(o.vals) {
				mv = o.vals
				known = true
				more = App("empty." + srt)
				for _, v := range mv {
					more = App("build."+srt, more, x.deep(st, v, th.seqElem[srt]))
				}
			} else {
				more = x.sliceTerm(st, m)
			}
		}
		if m.Obj == 0 && st0.Obj == 0 {
			ret(st0)
			return
		}
		if st0.Obj == 0 { // nothing appended to a nil slice leaves it nil
			x.fork(st, Eq(m.Len, intT(0)), func(st *State) {
				k(Outcome{st: st, val: st0})
			}, func(st *State) {
				k(Outcome{st: st, val: x.appendTo(st, st0, ty, more, mv, known)})
			})
			return
		}
		ret(x.appendTo(st, st0, ty, more, mv, known))
	case "copy":
		d, ok1 := args[0].(VSlice)
		s, ok2 := args[1].(VSlice)
		if !ok1 || !ok2 {
			unsup("copy of bytes")
		}
		if d.Obj == 0 || s.Obj == 0 {
			ret(VT{T: intT(0)})
			return
		}
		x.checkWrite(st, d.Obj, "copy at "+pos)
		src := x.sliceTerm(st, s)
		x.fork(st, Le(s.Len, d.Len), func(st *State) {
			x.copyInto(st, d, src, s.Len)
			k(Outcome{st: st, val: VT{T: s.Len}})
		}, func(st *State) {
			x.copyInto(st, d, App("take."+src.Sort, src, d.Len), d.Len)
			k(Outcome{st: st, val: VT{T: d.Len}})
		})
	case "delete":
		m := args[0].(VMap)
		if m.Obj != 0 {
			x.mapDel(st, m.Obj, args[1], "delete at "+pos)
		}
		ret(nil)
	case "close":
		ch, ok := args[0].(VChan)
		if !ok {
			k(Outcome{st: st, panic: true, val: VT{T: App("V_rterr", intT(8), strLit("close of nil channel"))}, pos: pos})
			return
		}
		o := st.objs[ch.Obj]
		x.fork(st, o.closed, func(s *State) {
			k(Outcome{st: s, panic: true, val: VT{T: App("V_rterr", intT(8), strLit("close of closed channel"))}, pos: pos})
		}, func(s *State) {
			n := s.objs[ch.Obj].clone()
			n.closed = True
			s.objs[ch.Obj] = n
			k(Outcome{st: s})
		})
	case "recover":
		if fr.pan >= 0 && fr.pan < len(st.pan) && !st.pan[fr.pan].recovered {
			p := *st.pan[fr.pan]
			p.recovered = true
			st.pan[fr.pan] = &p
			if vt, ok := p.val.(VT); ok {
				st.assume(Not(Eq(vt.T, App("V_nil"))))
			}
			ret(p.val)
			return
		}
		ret(VT{T: App("V_nil")})
	case "print", "println":
		ret(nil)
	case "panic":
		k(Outcome{st: st, panic: true, val: args[0], pos: pos})
	case "min", "max":
		a, b := x.deep(st, args[0], "Int"), x.deep(st, args[1], "Int")
		if len(args) != 2 {
			unsup("min/max of many")
		}
		if name == "min" {
			ret(VT{T: Ite(Le(a, b), a, b)})
		} else {
			ret(VT{T: Ite(Le(a, b), b, a)})
		}
	case "ssa:wrapnilchk":
		ret(args[0])
	case "clear":
		m, ok := args[0].(VMap)
		if !ok {
			unsup("clear")
		}
		x.checkWrite(st, m.Obj, "clear")
		x.setContent(st, m.Obj, App("mempty."+st.objs[m.Obj].t.Sort))
		ret(nil)
	default:
		unsup("builtin %s", name)
	}
}

func (x *Exec) copyInto(st *State, d VSlice, src, n *Term) {
	o := st.objs[d.Obj]
	t := o.t
	total := App("len."+t.Sort, t)
	pre := App("take."+t.Sort, t, d.Off)
	post := App("drop."+t.Sort, t, Add(d.Off, n))
	if x.sol.entails(st.pc, Eq(Add(d.Off, n), total)) {
		post = App("empty." + t.Sort)
	}
	nt := App("app."+t.Sort, App("app."+t.Sort, pre, src), post)
	for id, c := range st.objs {
		for _, g := range c.orgs {
			if g.obj == d.Obj {
				_ = id
				unsup("copy over opened elements")
			}
		}
	}
	x.setContent(st, d.Obj, nt)
	st.assume(Eq(App("len."+t.Sort, nt), total))
}

// cardFacts relates the size of a map to an enumeration of it.
func (x *Exec) cardFacts(st *State, m *Term) {
	kv := th.mapKV[m.Sort]
	ks := th.seqSort(kv[0])
	q := fresh("cardkeys", ks)
	st.assume(App("enum."+m.Sort, q, m))
}

// ---- channels and goroutines

func (x *Exec) send(st *State, ch Value, v Value, pos string) bool {
	c, ok := ch.(VChan)
	if !ok {
		unsup("send on %T", ch)
	}
	o := st.objs[c.Obj]
	if st.inside && isLit(o.cap) {
		x.oblige(st, Not(o.closed), "no send on a closed channel: "+pos, nil)
		if len(st.sent) > 0 {
			unsup("a goroutine that sends twice")
		}
		st.sent = append(st.sent, chanMsg{c.Obj, v})
		return !st.dead
	}
	if o.cap != nil {
		x.oblige(st, Or(Lt(o.cap, intT(0)), Lt(App("bcard."+o.t.Sort, o.t), o.cap)), "a send never blocks: "+pos, nil)
	}
	x.oblige(st, Not(o.closed), "no send on a closed channel: "+pos, nil)
	n := o.clone()
	n.t = App("badd."+o.t.Sort, o.t, x.deep(st, v, th.bagElem[o.t.Sort]))
	st.objs[c.Obj] = n
	return !st.dead
}

// recv: a value is taken from the channel. Waiting goroutines run first when it is empty.
func (x *Exec) recv(fr *Frame, st *State, in *ssa.UnOp, lc *loopCtx, next func(*Frame, *State)) {
	c, ok := x.val(fr, st, in.X).(VChan)
	if !ok {
		unsup("receive on nil channel")
	}
	et := in.X.Type().Underlying().(*types.Chan).Elem()
	o := st.objs[c.Obj]
	if len(st.threads) > 0 {
		x.recvThreads(fr, st, in, c, next)
		return
	}
	bs := o.t.Sort
	es := th.bagElem[bs]
	x.fork(st, Lt(intT(0), App("bcard."+bs, o.t)), func(s *State) {
		v := fresh("recv", es)
		rest := fresh("chan", bs)
		s.assume(Eq(o.t, App("badd."+bs, rest, v)))
		n := o.clone()
		n.t = rest
		s.objs[c.Obj] = n
		f := fr.clone()
		lv := x.lift(s, v, et, nil, "value")
		if in.CommaOk {
			f.env[in] = VTuple{lv, VT{T: True}}
		} else {
			f.env[in] = lv
		}
		next(f, s)
	}, func(s *State) {
		x.oblige(s, o.closed, "a receive does not wait for ever: "+x.pos(in.Pos()), nil)
		if s.dead {
			return
		}
		f := fr.clone()
		z := x.zeroVal(s, et)
		if in.CommaOk {
			f.env[in] = VTuple{z, VT{T: False}}
		} else {
			f.env[in] = z
		}
		next(f, s)
	})
}

type chanMsg struct {
	ch int
	v  Value
}

// recvThreads: the goroutines that wait run; the message of any of them may be the first to arrive. The others go on
// waiting. A goroutine that calls unknown functions may never send, one that only sleeps does.
func (x *Exec) recvThreads(fr *Frame, st *State, in *ssa.UnOp, c VChan, next func(*Frame, *State)) {
	x.note("the goroutine whose message a receive takes first is any of those started; a sleeping goroutine sends after its sleep")
	if x.goDepth > 0 || st.inside {
		unsup("a goroutine that waits for others")
	}
	sure := false
	for i, t := range st.threads {
		s := st.clone()
		s.threads = append(append([]thread{}, st.threads[:i]...), st.threads[i+1:]...)
		s.inside, s.slept = true, nil
		calls := x.unknownSeq
		x.goDepth++
		x.goMarks = append(x.goMarks, x.nobj)
		x.call(fr, s, t.fn, t.args, x.pos(in.Pos()), -1, func(o Outcome) {
			d, m := x.goDepth, x.goMarks
			x.goDepth--
			x.goMarks = x.goMarks[:len(x.goMarks)-1]
			defer func() { x.goDepth, x.goMarks = d, m }()
			if o.panic {
				x.oblige(o.st, False, "no panic leaves a goroutine: "+o.pos, nil)
				return
			}
			o.st.inside = false
			if len(o.st.sent) == 0 {
				return
			}
			msg := o.st.sent[0].(chanMsg)
			if msg.ch != c.Obj {
				return
			}
			if x.unknownSeq == calls {
				sure = true
			}
			o.st.sent = nil
			if o.st.first == nil {
				o.st.first, o.st.delay = False, intT(0)
				if o.st.slept != nil {
					o.st.first, o.st.delay = True, o.st.slept
				}
			}
			f := fr.clone()
			if in.CommaOk {
				f.env[in] = VTuple{msg.v, VT{T: True}}
			} else {
				f.env[in] = msg.v
			}
			next(f, o.st)
		})
		x.goDepth--
		x.goMarks = x.goMarks[:len(x.goMarks)-1]
	}
	if !sure {
		x.oblige(st, False, "a receive does not wait for ever: "+x.pos(in.Pos()), nil)
	}
}

func (x *Exec) goMark() int {
	if len(x.goMarks) == 0 {
		return 1 << 60
	}
	return x.goMarks[len(x.goMarks)-1]
}

// spawn: a goroutine that does not wait is run at once; the obligation that goroutines write nothing shared but
// channels and wait groups makes every other order equivalent. Goroutines that wait (timers, unbuffered channels)
// are kept for the receive that lets them go on.
func (x *Exec) spawn(fr *Frame, st *State, fv Value, args []Value, pos string, cont func(*State)) {
	f, ok := fv.(VFn)
	if ok && f.Fn != nil {
		if startsWithSleep(f.Fn) || sendsUnbuffered(x, st, f, args) {
			st.threads = append(st.threads, thread{fn: f, args: args, timer: startsWithSleep(f.Fn)})
			cont(st)
			return
		}
	}
	x.note("goroutines that share no written data are run one after the other")
	x.goDepth++
	x.goMarks = append(x.goMarks, x.nobj)
	x.call(fr, st, fv, args, pos, -1, func(o Outcome) {
		d, m := x.goDepth, x.goMarks
		x.goDepth--
		x.goMarks = x.goMarks[:len(x.goMarks)-1]
		defer func() { x.goDepth, x.goMarks = d, m }()
		if o.panic {
			x.oblige(o.st, False, "no panic leaves a goroutine: "+pos, nil)
			return
		}
		cont(o.st)
	})
	x.goDepth--
	x.goMarks = x.goMarks[:len(x.goMarks)-1]
}

func startsWithSleep(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if s, ok := c.Call.Value.(*ssa.Function); ok {
					return s.String() == "time.Sleep"
				}
			}
		}
		break
	}
	return false
}

func sendsUnbuffered(x *Exec, st *State, f VFn, args []Value) bool {
	var chans []Value
	chans = append(chans, args...)
	for _, b := range f.Bind {
		chans = append(chans, b)
		if p, ok := b.(VPtr); ok {
			if o := st.objs[p.Obj]; o != nil && o.kind == oCell && !o.strct {
				chans = append(chans, o.f[0])
			}
		}
	}
	for _, v := range chans {
		if c, ok := v.(VChan); ok {
			if o := st.objs[c.Obj]; isLit(o.cap) {
				return true
			}
		}
	}
	return false
}

// isLit: the channel's capacity is a constant, so goroutines may wait for it.
func isLit(t *Term) bool {
	if t == nil {
		return false
	}
	_, ok := t.isInt()
	return ok
}
