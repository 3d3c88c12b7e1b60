package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) indexAddr(fr *Frame, st *State, in *ssa.IndexAddr, lc *loopCtx, next func(*Frame, *State)) {
	base := x.val(fr, st, in.X)
	idx := x.deep(st, x.val(fr, st, in.Index), "Int")
	var obj int
	var off, n *Term
	switch b := base.(type) {
	case VSlice:
		if b.Obj == 0 {
			x.runtimePanic(fr, st, lc, 1, "runtime error: index out of range", x.pos(in.Pos()))
			return
		}
		obj, off, n = b.Obj, b.Off, b.Len
	case VPtr: // pointer to array
		o := st.objs[b.Obj]
		if o.kind != oSeq {
			unsup("index of pointer")
		}
		obj, off, n = b.Obj, intT(0), App("len."+o.t.Sort, o.t)
	case VT:
		unsup("element address in a byte slice")
	default:
		unsup("index of %T", base)
	}
	x.fork(st, And(Le(intT(0), idx), Lt(idx, n)), func(s *State) {
		f := fr.clone()
		f.env[in] = VPtr{Obj: obj, Idx: Add(off, idx)}
		next(f, s)
	}, func(s *State) {
		x.runtimePanic(fr.clone(), s, lc, 1, "runtime error: index out of range", x.pos(in.Pos()))
	})
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup, lc *loopCtx, next func(*Frame, *State)) {
	base := x.val(fr, st, in.X)
	if vt, ok := base.(VT); ok && vt.T.Sort == "Str" {
		i := x.deep(st, x.val(fr, st, in.Index), "Int")
		x.fork(st, And(Le(intT(0), i), Lt(i, App("strlen", vt.T))), func(s *State) {
			f := fr.clone()
			f.env[in] = VT{T: x.ufun("byteat", "Int", vt.T, i)}
			next(f, s)
		}, func(s *State) {
			x.runtimePanic(fr.clone(), s, lc, 1, "runtime error: index out of range", x.pos(in.Pos()))
		})
		return
	}
	m, ok := base.(VMap)
	if !ok {
		unsup("lookup in %T", base)
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	srt := th.sortOf(in.X.Type())
	kt := x.deep(st, x.val(fr, st, in.Index), th.mapKV[srt][0])
	give := func(s *State, v Value, ok *Term) {
		f := fr.clone()
		if in.CommaOk {
			f.env[in] = VTuple{v, VT{T: ok}}
		} else {
			f.env[in] = v
		}
		next(f, s)
	}
	if m.Obj == 0 {
		give(st, x.zeroVal(st, et), False)
		return
	}
	o := st.objs[m.Obj]
	has := App("has."+srt, o.t, kt)
	// a literal map of known keys: follow the stores so that function and pointer values keep their identity
	if v, found, known := x.litLookup(o, kt); known {
		if found {
			give(st, v, True)
		} else {
			give(st, x.zeroVal(st, et), False)
		}
		return
	}
	get := App("get."+srt, o.t, kt)
	if get.Sort == "Int" || get.Sort == "Str" || get.Sort == "Bool" {
		if !in.CommaOk {
			give(st, VT{T: Ite(has, get, zeroTerm(get.Sort))}, has)
			return
		}
	}
	x.fork(st, has, func(s *State) {
		give(s, x.liftElem(s, get, et, m.Obj, kt), True)
	}, func(s *State) {
		give(s, x.zeroVal(s, et), False)
	})
}

// litLookup looks a literal key up in a map whose values are kept beside its term.
func (x *Exec) litLookup(o *Obj, k *Term) (Value, bool, bool) { return nil, false, false }

func (x *Exec) makeSlice(fr *Frame, st *State, in *ssa.MakeSlice, lc *loopCtx, next func(*Frame, *State)) {
	n := x.deep(st, x.val(fr, st, in.Len), "Int")
	if isByteSlice(in.Type()) {
		fr.env[in] = VT{T: x.ufun("zeros", "Str", n)}
		next(fr, st)
		return
	}
	s := th.sortOf(in.Type())
	et := in.Type().Underlying().(*types.Slice).Elem()
	x.fork(st, Le(intT(0), n), func(st *State) {
		f := fr.clone()
		o := &Obj{kind: oSeq, typ: in.Type(), t: App("rep."+s, n, zeroTerm(th.seqElem[s]))}
		if k, ok := n.isInt(); ok && k <= 64 {
			o.vals = []Value{}
			for i := int64(0); i < k; i++ {
				o.vals = append(o.vals, x.zeroVal(st, et))
			}
		}
		f.env[in] = VSlice{x.newObj(st, o), intT(0), n}
		next(f, st)
	}, func(st *State) {
		x.runtimePanic(fr.clone(), st, lc, 3, "runtime error: makeslice: len out of range", x.pos(in.Pos()))
	})
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice, lc *loopCtx, next func(*Frame, *State)) {
	base := x.val(fr, st, in.X)
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.deep(st, x.val(fr, st, v), "Int")
	}
	bad := func(s *State) {
		x.runtimePanic(fr.clone(), s, lc, 2, "runtime error: slice bounds out of range", x.pos(in.Pos()))
	}
	switch b := base.(type) {
	case VT: // string or bytes
		if b.T.Sort != "Str" {
			unsup("slice of %s", b.T.Sort)
		}
		n := App("strlen", b.T)
		lo, hi := opt(in.Low, intT(0)), opt(in.High, n)
		x.fork(st, And(Le(intT(0), lo), Le(lo, hi), Le(hi, n)), func(s *State) {
			f := fr.clone()
			f.env[in] = VT{T: substr(b.T, lo, hi)}
			next(f, s)
		}, bad)
		return
	case VPtr: // array
		o := st.objs[b.Obj]
		if o.kind != oSeq || len(b.Path) > 0 || b.Idx != nil {
			unsup("slice of pointer")
		}
		n := App("len."+o.t.Sort, o.t)
		lo, hi := opt(in.Low, intT(0)), opt(in.High, n)
		x.fork(st, And(Le(intT(0), lo), Le(lo, hi), Le(hi, n)), func(s *State) {
			f := fr.clone()
			f.env[in] = VSlice{b.Obj, lo, Sub(hi, lo)}
			next(f, s)
		}, bad)
		return
	case VSlice:
		if b.Obj == 0 {
			lo, hi := opt(in.Low, intT(0)), opt(in.High, intT(0))
			x.fork(st, And(Eq(lo, intT(0)), Eq(hi, intT(0))), func(s *State) {
				f := fr.clone()
				f.env[in] = b
				next(f, s)
			}, bad)
			return
		}
		lo, hi := opt(in.Low, intT(0)), opt(in.High, b.Len)
		o := st.objs[b.Obj]
		// what lies between the length and the capacity is not known: a slice may only reach past its length
		// when the third index says so or the capacity is known
		capT := b.Len
		total := App("len."+o.t.Sort, o.t)
		capKnown := in.Max != nil
		if in.Max != nil {
			capT = opt(in.Max, b.Len)
			// s[a:b:c] with c <= cap: c is checked against a capacity that is at least the length
			if x.sol.entails(st.pc, Le(capT, b.Len)) {
			} else {
				unsup("slice with a maximum beyond the length")
			}
		}
		_ = total
		if !capKnown && in.High != nil {
			if !x.sol.entails(st.pc, Le(hi, b.Len)) {
				// hi beyond len: in spare capacity, or out of range
				x.fork(st, And(Le(intT(0), lo), Le(lo, hi), Le(hi, b.Len)), func(s *State) {
					f := fr.clone()
					f.env[in] = VSlice{b.Obj, Add(b.Off, lo), Sub(hi, lo)}
					next(f, s)
				}, func(s *State) {
					s2 := s.clone()
					bad(s2)
					// the capacity may be large enough: unknown contents
					s.assume(And(Le(intT(0), lo), Le(lo, hi), Lt(b.Len, hi)))
					if x.feasible(s) {
						f := fr.clone()
						t := fresh("spare", o.t.Sort)
						s.assume(Eq(App("len."+t.Sort, t), Sub(hi, lo)))
						f.env[in] = VSlice{x.newObj(s, &Obj{kind: oSeq, typ: o.typ, t: t, t0: t, owner: o.owner}), intT(0), Sub(hi, lo)}
						next(f, s)
					}
				})
				return
			}
		}
		x.fork(st, And(Le(intT(0), lo), Le(lo, hi), Le(hi, capT)), func(s *State) {
			f := fr.clone()
			f.env[in] = VSlice{b.Obj, Add(b.Off, lo), Sub(hi, lo)}
			next(f, s)
		}, bad)
		return
	}
	unsup("slice of %T", base)
}

func substr(t, lo, hi *Term) *Term {
	if lo == intT(0) && Eq(hi, App("strlen", t)) == True {
		return t
	}
	if t.Op == "cat" { // split at the end of the first part
		n := App("strlen", t.Args[0])
		if Eq(hi, n) == True {
			return substr(t.Args[0], lo, hi)
		}
		if Eq(lo, n) == True {
			return substr(t.Args[1], intT(0), Sub(hi, n))
		}
	}
	if t.Op == "substr" && !measures(lo, t) && !measures(hi, t) {
		return App("substr", t.Args[0], Add(t.Args[1], lo), Add(t.Args[1], hi))
	}
	return App("substr", t, lo, hi)
}

// measures: the number is the length of the longest match at the front of t.
func measures(n, t *Term) bool {
	if strings.HasPrefix(n.Op, "P!") && n.Args[0] == t {
		return true
	}
	for _, a := range n.Args {
		if n.Op == "+" && measures(a, t) {
			return true
		}
	}
	return false
}

// appendTo models append: the result is a sequence of its own.
func (x *Exec) appendTo(st *State, s VSlice, ty types.Type, more *Term, moreVals []Value, known bool) Value {
	srt := th.sortOf(ty)
	var base *Term
	var vals []Value
	if s.Obj == 0 {
		base = App("empty." + srt)
		vals = []Value{}
	} else {
		o := st.objs[s.Obj]
		base = x.sliceTerm(st, s)
		if o.vals != nil && s.Off == intT(0) && Eq(s.Len, intT(int64(len(o.vals)))) == True {
			vals = append([]Value{}, o.vals...)
		}
		if o.shared && x.top != nil && x.top.Linear {
			x.oblige(st, Eq(App("len."+more.Sort, more), intT(0)), "a sequence is not extended twice in place", nil)
		}
		n := o.clone()
		n.shared = true
		st.objs[s.Obj] = n
	}
	t := App("app."+srt, base, more)
	o := &Obj{kind: oSeq, typ: ty, t: t}
	nonnil, nie := nilness(st, s)
	some := known && len(moreVals) > 0
	o.mayNil, o.nie = !nonnil && !some, nie || some
	if vals != nil && known && len(vals)+len(moreVals) <= 64 {
		o.vals = append(vals, moreVals...)
	}
	id := x.newObj(st, o)
	return VSlice{id, intT(0), App("len."+srt, t)}
}

func (x *Exec) rng(fr *Frame, st *State, in *ssa.Range) {
	v := x.val(fr, st, in.X)
	switch b := v.(type) {
	case VMap:
		srt := th.sortOf(in.X.Type())
		ks := th.seqSort(th.mapKV[srt][0])
		if b.Obj == 0 {
			fr.env[in] = VIter{x.newObj(st, &Obj{kind: oIter, n: intT(0), seq: App("empty." + ks)})}
			return
		}
		o := st.objs[b.Obj]
		q := fresh("keys", ks)
		st.assume(App("enum."+srt, q, o.t))
		fr.env[in] = VIter{x.newObj(st, &Obj{kind: oIter, n: intT(0), seq: q, src: b.Obj, srcT: o.t, typ: in.X.Type()})}
		return
	case VT:
		if b.T.Sort == "Str" {
			q := x.ufun("runestarts", th.seqSort("Int"), b.T)
			fr.env[in] = VIter{x.newObj(st, &Obj{kind: oIter, n: intT(0), seq: q, t: b.T})}
			return
		}
	}
	unsup("range over %T", v)
}

func (x *Exec) next(fr *Frame, st *State, in *ssa.Next, lc *loopCtx, cont func(*Frame, *State)) {
	it := x.val(fr, st, in.Iter).(VIter)
	o := st.objs[it.Obj]
	n := App("len."+o.seq.Sort, o.seq)
	x.fork(st, Lt(o.n, n), func(s *State) {
		f := fr.clone()
		k := App("at."+o.seq.Sort, o.seq, o.n)
		c := o.clone()
		c.n = Add(o.n, intT(1))
		if in.IsString {
			s.objs[it.Obj] = c
			r := x.ufun("runeat", "Int", o.t, k)
			s.assume(And(Le(intT(0), k), Lt(k, App("strlen", o.t))))
			f.env[in] = VTuple{VT{T: True}, VT{T: k}, VT{T: r}}
			cont(f, s)
			return
		}
		mo := s.objs[o.src]
		if mo.t != o.srcT {
			x.oblige(s, App("has."+mo.t.Sort, mo.t, k), "a map is ranged over without losing keys not yet visited: "+x.pos(in.Pos()), nil)
		} else {
			s.assume(App("has."+mo.t.Sort, mo.t, k))
		}
		s.objs[it.Obj] = c
		mt := o.typ.Underlying().(*types.Map)
		s.assume(Le(intT(0), o.n))
		f.env[in] = VTuple{VT{T: True}, x.lift(s, k, mt.Key(), nil, "key"), x.liftElem(s, App("get."+mo.t.Sort, mo.t, k), mt.Elem(), o.src, k)}
		cont(f, s)
	}, func(s *State) {
		f := fr.clone()
		tt := in.Type().(*types.Tuple)
		var kz, vz Value
		if tt.At(1).Type() != types.Typ[types.Invalid] {
			kz = x.zeroVal(s, tt.At(1).Type())
		}
		if tt.At(2).Type() != types.Typ[types.Invalid] {
			vz = x.zeroVal(s, tt.At(2).Type())
		}
		s.assume(Eq(o.n, n))
		f.env[in] = VTuple{VT{T: False}, kz, vz}
		cont(f, s)
	})
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert, lc *loopCtx, next func(*Frame, *State)) {
	v := x.val(fr, st, in.X)
	ty := in.AssertedType
	ok := func(s *State, r Value) {
		f := fr.clone()
		if in.CommaOk {
			f.env[in] = VTuple{r, VT{T: True}}
		} else {
			f.env[in] = r
		}
		next(f, s)
	}
	no := func(s *State) {
		f := fr.clone()
		if in.CommaOk {
			f.env[in] = VTuple{x.zeroVal(s, ty), VT{T: False}}
			next(f, s)
			return
		}
		x.runtimePanic(f, s, lc, 7, "interface conversion: wrong type", x.pos(in.Pos()))
	}
	switch w := v.(type) {
	case VNil:
		no(st)
		return
	case VIface:
		if isIface(ty) {
			if types.AssertableTo(under(ty).(*types.Interface), w.Dyn) && types.Implements(w.Dyn, under(ty).(*types.Interface)) {
				ok(st, w)
			} else {
				no(st)
			}
			return
		}
		if types.Identical(w.Dyn, ty) {
			ok(st, w.Val)
		} else {
			no(st)
		}
		return
	case VT:
		if isIface(ty) {
			iface := under(ty).(*types.Interface)
			if iface.NumMethods() == 0 {
				x.fork(st, Eq(w.T, App("V_nil")), no, func(s *State) { ok(s, w) })
				return
			}
			if typeKey(ty) == "error" {
				x.fork(st, isError(w.T), func(s *State) { ok(s, w) }, no)
				return
			}
			x.fork(st, And(Not(Eq(w.T, App("V_nil"))), x.implements(w.T, ty)), func(s *State) { ok(s, w) }, no)
			return
		}
		th.addDynType(ty)
		c, _ := th.vCtor(ty)
		x.fork(st, App("is-"+c, w.T), func(s *State) { ok(s, x.open(s, w, c, ty)) }, no)
		return
	}
	unsup("type assertion of %T", v)
}

// isError says whether a value implements error.
func isError(t *Term) *Term {
	if c, ok := ctorOf(t); ok {
		switch c {
		case "V_err", "V_rterr":
			return True
		case "V_other":
			return App("iserror", t)
		}
		ty, ok := th.vtype[c]
		if !ok {
			return False
		}
		e := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
		return boolT(types.Implements(ty, e))
	}
	return App("iserror", t)
}

// open gives the payload of an interface term of a known dynamic type.
func (x *Exec) open(st *State, w VT, c string, ty types.Type) Value {
	payload := App(ctors[c].sels[0], w.T)
	switch under(ty).(type) {
	case *types.Map, *types.Slice:
		if isByteSlice(ty) {
			return VT{T: payload}
		}
		id, ok := st.box[w.T]
		if !ok && w.Org != nil {
			if c := x.child(st, w.Org.obj, w.Org.key); c != 0 {
				id, ok = c, true
				st.box[w.T] = c
			}
		}
		if !ok {
			owner := "value"
			o := &Obj{typ: ty, t: payload, t0: payload}
			if w.Org != nil && st.objs[w.Org.obj] != nil {
				owner = st.objs[w.Org.obj].owner
				// only if the holder still holds this value
				h := st.objs[w.Org.obj]
				var cur *Term
				if h.kind == oMap {
					cur = App("get."+h.t.Sort, h.t, w.Org.key)
				} else {
					cur = App("at."+h.t.Sort, h.t, w.Org.key)
				}
				if cur == w.T || x.sol.entails(st.pc, Eq(cur, w.T)) {
					o.orgs = []origin{*w.Org}
				} else {
					unsup("value read before its holder changed")
				}
			} else if ow, ok := x.termOwner[w.T]; ok {
				owner = ow
			}
			o.owner = owner
			if _, isM := under(ty).(*types.Map); isM {
				o.kind = oMap
			} else {
				o.kind = oSeq
			}
			id = x.newObj(st, o)
			st.box[w.T] = id
		}
		o := st.objs[id]
		if o.kind == oMap {
			return VMap{id}
		}
		return VSlice{id, intT(0), App("len."+o.t.Sort, o.t)}
	}
	return x.lift(st, payload, ty, nil, "value")
}

// implements: the dynamic type of the value has the methods of the interface.
func (x *Exec) implements(v *Term, iface types.Type) *Term {
	k := typeKey(iface)
	return x.ufun("implements_"+sanitize(k[strings.LastIndexAny(k, "/")+1:]), "Bool", v)
}
