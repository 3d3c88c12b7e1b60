package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library functions the code calls, described by hand. Every description is part of the trusted base and listed.

type extern func(x *Exec, st *State, args []Value, fn *ssa.Function, pos string, k func(Outcome))

var externs map[string]extern
var externUsed = map[string]string{}

func ret1(st *State, k func(Outcome), v Value) { k(Outcome{st: st, val: v}) }

func (x *Exec) str(st *State, v Value) *Term { return x.deep(st, v, "Str") }

// anyArgs gives the elements of a variadic ...interface{} argument.
func (x *Exec) anyArgs(st *State, v Value) ([]Value, bool) {
	s, ok := v.(VSlice)
	if !ok {
		return nil, false
	}
	if s.Obj == 0 {
		return nil, true
	}
	n, ok := s.Len.isInt()
	if !ok {
		return nil, false
	}
	o := st.objs[s.Obj]
	var out []Value
	for i := int64(0); i < n; i++ {
		if o.vals != nil && s.Off == intT(0) && int(i) < len(o.vals) && o.vals[i] != nil {
			out = append(out, o.vals[i])
		} else {
			out = append(out, VT{T: App("at."+o.t.Sort, o.t, Add(s.Off, intT(i)))})
		}
	}
	return out, true
}

// show: the text fmt gives for a value under a verb.
func (x *Exec) show(st *State, v Value, verb byte) *Term {
	if w, ok := v.(VIface); ok {
		if p, ok := w.Val.(VPtr); ok {
			if m := x.prog.LookupMethod(w.Dyn, nil, "String"); m != nil && (verb == 'v' || verb == 's') {
				return x.ufun("show_String_"+sanitize(typeKey(w.Dyn)), "Str", x.envTermSafe(st, p, w.Dyn))
			}
		}
		if b, ok := under(w.Dyn).(*types.Basic); ok {
			named := false
			if _, isN := types.Unalias(w.Dyn).(*types.Named); isN {
				named = true
			}
			t := x.deep(st, w.Val, "")
			if b.Info()&types.IsString != 0 && !named && (verb == 's' || verb == 'v') {
				return t
			}
			if b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v' && !named) {
				return itoa(t)
			}
			if b.Info()&types.IsInteger != 0 && verb == 'c' {
				if n, ok := t.isInt(); ok {
					return strLit(string(rune(n)))
				}
			}
		}
		if isByteSlice(w.Dyn) && verb == 's' {
			return x.deep(st, w.Val, "Str")
		}
	}
	var t *Term
	if p, ok := v.(VPtr); ok {
		t = x.opq(p, "Opq")
	} else {
		t = x.deep(st, v, "V")
	}
	if c, ok := ctorOf(t); ok && (c == "V_err" || c == "V_rterr") && (verb == 'v' || verb == 's') {
		return errText(x, t)
	}
	if c, ok := ctorOf(t); ok && c == "V_str" && (verb == 'v' || verb == 's') {
		return t.Args[0]
	}
	if c, ok := ctorOf(t); ok && c == "V_int" && (verb == 'v' || verb == 'd') {
		return itoa(t.Args[0])
	}
	return x.ufun("show_"+string(verb), "Str", t)
}

func (x *Exec) envTermSafe(st *State, p VPtr, ty types.Type) *Term {
	o := st.objs[p.Obj]
	if o.kind == oOpaque {
		return x.opq(p, "Opq")
	}
	return x.envTerm(st, p, ty)
}

func itoa(t *Term) *Term {
	if n, ok := t.isInt(); ok {
		return strLit(fmt.Sprint(n))
	}
	return App("itoa", t)
}

func (x *Exec) format(st *State, f Value, rest Value) *Term {
	ft := x.str(st, f)
	lit, ok := th.litText[ft]
	args, ok2 := x.anyArgs(st, rest)
	if !ok || !ok2 {
		if ok2 {
			ts := []*Term{ft}
			for _, a := range args {
				ts = append(ts, x.deep(st, a, "V"))
			}
			return x.ufun("sprintf", "Str", ts...)
		}
		return fresh("sprintf", "Str")
	}
	out := strLit("")
	i, ai := 0, 0
	for i < len(lit) {
		j := strings.IndexByte(lit[i:], '%')
		if j < 0 {
			out = simpCat(out, strLit(lit[i:]))
			break
		}
		out = simpCat(out, strLit(lit[i:i+j]))
		i += j + 1
		if i >= len(lit) || strings.IndexByte("vdsqcTtx", lit[i]) < 0 {
			if i < len(lit) && lit[i] == '%' {
				out = simpCat(out, strLit("%"))
				i++
				continue
			}
			return x.ufun("sprintfodd", "Str", ft)
		}
		if ai >= len(args) {
			return x.ufun("sprintfodd", "Str", ft)
		}
		out = simpCat(out, x.show(st, args[ai], lit[i]))
		ai++
		i++
	}
	return out
}

func errVal(msg *Term) Value { return VT{T: App("V_err", msg)} }

// writer: the text buffer behind an io.Writer, or nil for one we do not follow.
func builderOf(st *State, v Value) int {
	if w, ok := v.(VIface); ok {
		v = w.Val
	}
	if p, ok := v.(VPtr); ok {
		if o := st.objs[p.Obj]; o != nil && o.kind == oBuilder {
			return p.Obj
		}
	}
	return 0
}

func (x *Exec) writeTo(st *State, id int, t *Term, what string) {
	x.checkWrite(st, id, what)
	o := st.objs[id].clone()
	o.t = simpCat(o.t, t)
	st.objs[id] = o
}

// literalPattern is the pattern matching just that ASCII text, if the code looks for it as a constant.
func literalPattern(t *Term, end string) *pattern {
	l, ok := th.litText[t]
	if !ok {
		return nil
	}
	return th.pattern(regexp.QuoteMeta(l) + end)
}

// likeStrings: a function of package bytes that does what the one of package strings does.
func likeStrings(name string) string {
	if n := strings.TrimPrefix(name, "bytes."); n != name {
		switch n {
		case "Contains", "HasPrefix", "HasSuffix", "TrimPrefix", "TrimSuffix", "TrimSpace", "Index":
			return "strings." + n
		}
	}
	return name
}

func nilErr() Value { return VT{T: App("V_nil")} }

func init() {
	trusted := func(name, why string, h extern) {
		externs[name] = func(x *Exec, st *State, args []Value, fn *ssa.Function, pos string, k func(Outcome)) {
			if x.silent == 0 && !x.init {
				externUsed[name] = why
			}
			h(x, st, args, fn, pos, k)
		}
	}
	externs = map[string]extern{}
	trusted("fmt.Sprintf", "text of the format with its verbs replaced in order", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: x.format(st, a[0], a[1])})
	})
	trusted("fmt.Sprint", "an unspecified text of its arguments", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		args, ok := x.anyArgs(st, a[0])
		if ok && len(args) == 1 {
			ret1(st, k, VT{T: x.show(st, args[0], 'v')})
			return
		}
		ret1(st, k, VT{T: fresh("sprint", "Str")})
	})
	for _, n := range []string{"fmt.Println", "fmt.Print", "fmt.Printf"} {
		trusted(n, "writes to standard output only", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
			ret1(st, k, VTuple{VT{T: fresh("n", "Int")}, VT{T: fresh("werr", "V")}})
		})
	}
	trusted("fmt.Fprint", "appends the text of its arguments to a strings.Builder, never fails", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		if id := builderOf(st, a[0]); id != 0 {
			args, ok := x.anyArgs(st, a[1])
			if ok && len(args) == 1 {
				x.writeTo(st, id, x.show(st, args[0], 'v'), "write at "+pos)
			} else {
				x.writeTo(st, id, fresh("text", "Str"), "write at "+pos)
			}
		}
		ret1(st, k, VTuple{VT{T: fresh("n", "Int")}, nilErr()})
	})
	trusted("fmt.Fprintf", "appends the formatted text to a strings.Builder, never fails", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		if id := builderOf(st, a[0]); id != 0 {
			x.writeTo(st, id, x.format(st, a[1], a[2]), "write at "+pos)
		}
		ret1(st, k, VTuple{VT{T: fresh("n", "Int")}, nilErr()})
	})
	trusted("errors.New", "an error with that text", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, errVal(x.str(st, a[0])))
	})
	trusted("fmt.Errorf", "an error with the formatted text", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, errVal(x.format(st, a[0], a[1])))
	})
	trusted("(*strings.Builder).String", "the text written so far", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		id := builderOf(st, a[0])
		if id == 0 {
			unsup("builder")
		}
		ret1(st, k, VT{T: st.objs[id].t})
	})
	trusted("(*strings.Builder).Len", "the length of the text written so far", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		id := builderOf(st, a[0])
		ret1(st, k, VT{T: App("strlen", st.objs[id].t)})
	})
	trusted("(*strings.Builder).Grow", "no effect on the text", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, nil)
	})
	trusted("(*strings.Builder).WriteString", "appends, never fails", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		x.writeTo(st, builderOf(st, a[0]), x.str(st, a[1]), "write at "+pos)
		ret1(st, k, VTuple{VT{T: App("strlen", x.str(st, a[1]))}, nilErr()})
	})
	trusted("(*strings.Builder).WriteByte", "appends one byte, never fails", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		x.writeTo(st, builderOf(st, a[0]), x.convert(st, a[1], types.Typ[types.Int], types.Typ[types.String]).(VT).T, "write at "+pos)
		ret1(st, k, nilErr())
	})
	trusted("(*strings.Builder).WriteRune", "appends one rune, never fails", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		x.writeTo(st, builderOf(st, a[0]), x.convert(st, a[1], types.Typ[types.Int], types.Typ[types.String]).(VT).T, "write at "+pos)
		ret1(st, k, VTuple{VT{T: fresh("n", "Int")}, nilErr()})
	})
	seqStr := func(x *Exec, st *State, t *Term) Value {
		return x.lift(st, t, types.NewSlice(types.Typ[types.String]), nil, "fresh")
	}
	trusted("strings.Split", "the parts between the separators, at least one", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		t := App("split", x.str(st, a[0]), x.str(st, a[1]))
		st.assume(Le(intT(1), App("len."+t.Sort, t)))
		ret1(st, k, seqStr(x, st, t))
	})
	trusted("strings.SplitN", "the parts between the first separators", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		n := x.deep(st, a[2], "Int")
		t := x.ufun("splitn", "Seq_Str", x.str(st, a[0]), x.str(st, a[1]), n)
		if c, ok := n.isInt(); ok && c > 0 {
			st.assume(Le(intT(1), App("len."+t.Sort, t)))
			st.assume(Le(App("len."+t.Sort, t), n))
		}
		ret1(st, k, seqStr(x, st, t))
	})
	trusted("strings.Join", "the parts with the separator between them", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: App("join", x.deep(st, a[0], "Seq_Str"), x.str(st, a[1]))})
	})
	trusted("strings.Replace", "replaces occurrences left to right", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: App("replace", x.str(st, a[0]), x.str(st, a[1]), x.str(st, a[2]), x.deep(st, a[3], "Int"))})
	})
	trusted("strings.ReplaceAll", "replaces every occurrence", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: App("replace", x.str(st, a[0]), x.str(st, a[1]), x.str(st, a[2]), intT(-1))})
	})
	trusted("strings.Contains", "whether the text occurs", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		s, sub := x.str(st, a[0]), x.str(st, a[1])
		if l, ok := th.litText[s]; ok {
			if m, ok := th.litText[sub]; ok {
				ret1(st, k, VT{T: boolT(strings.Contains(l, m))})
				return
			}
		}
		has := App("contains", s, sub)
		if p := literalPattern(sub, ""); p != nil {
			st.assume(Eq(has, th.inLang(p.inf, s)))
		}
		ret1(st, k, VT{T: has})
	})
	trusted("strings.HasPrefix", "whether the text begins so", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		s, p := x.str(st, a[0]), x.str(st, a[1])
		n := App("strlen", p)
		has := And(Le(n, App("strlen", s)), Eq(substr(s, intT(0), n), p))
		if q := literalPattern(p, ""); q != nil {
			st.assume(Eq(has, th.inLang(q.pre, s)))
		}
		ret1(st, k, VT{T: has})
	})
	trusted("strings.HasSuffix", "whether the text ends so", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		s, p := x.str(st, a[0]), x.str(st, a[1])
		l, n := App("strlen", s), App("strlen", p)
		has := And(Le(n, l), Eq(substr(s, Sub(l, n), l), p))
		if q := literalPattern(p, "$"); q != nil {
			st.assume(Eq(has, th.inLang(q.inf, s)))
		}
		ret1(st, k, VT{T: has})
	})
	trusted("strings.TrimSuffix", "the text without that end", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		s, p := x.str(st, a[0]), x.str(st, a[1])
		l, n := App("strlen", s), App("strlen", p)
		has := And(Le(n, l), Eq(substr(s, Sub(l, n), l), p))
		ret1(st, k, VT{T: Ite(has, substr(s, intT(0), Sub(l, n)), s)})
	})
	trusted("strings.Index", "the first place the text occurs at, or -1", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		s, p := x.str(st, a[0]), x.str(st, a[1])
		l, n := App("strlen", s), App("strlen", p)
		at := x.ufun("indexof", "Int", s, p)
		has := App("contains", s, p)
		st.assume(Le(intT(-1), at))
		st.assume(Eq(has, Le(intT(0), at)))
		st.assume(Imp(has, And(Le(Add(at, n), l), Eq(substr(s, at, Add(at, n)), p))))
		if q := literalPattern(p, ""); q != nil {
			st.assume(Eq(has, th.inLang(q.inf, s)))
		}
		ret1(st, k, VT{T: at})
	})
	trusted("bytes.Equal", "whether the two are the same", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: Eq(x.str(st, a[0]), x.str(st, a[1]))})
	})
	trusted("strings.TrimPrefix", "the text without that beginning", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		s, p := x.str(st, a[0]), x.str(st, a[1])
		n := App("strlen", p)
		has := And(Le(n, App("strlen", s)), Eq(substr(s, intT(0), n), p))
		ret1(st, k, VT{T: Ite(has, substr(s, n, App("strlen", s)), s)})
	})
	trusted("github.com/andygello555/gotils/strings.TypeName", "a text naming the dynamic type", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: App("typename", x.deep(st, a[0], "V"))})
	})
	trusted("sort.Strings", "sorts in place", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		x.sortSlice(st, a[0], "sortS", pos)
		ret1(st, k, nil)
	})
	trusted("sort.Ints", "sorts in place", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		x.sortSlice(st, a[0], "sortI", pos)
		ret1(st, k, nil)
	})
	trusted("container/heap.Init", "a heap of strings, seen as its sorted sequence", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		p := heapPtr(a[0])
		s := x.load(st, p, p2t)
		if v, ok := s.(VSlice); ok && v.Obj != 0 {
			x.sortSlice(st, v, "sortS", pos)
		}
		ret1(st, k, nil)
	})
	trusted("container/heap.Pop", "removes and returns the least string", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		p := heapPtr(a[0])
		v := x.load(st, p, p2t).(VSlice)
		x.oblige(st, Lt(intT(0), v.Len), "pop of a non-empty heap: "+pos, nil)
		if st.dead || v.Obj == 0 {
			return
		}
		o := st.objs[v.Obj]
		first := App("at."+o.t.Sort, o.t, v.Off)
		x.store(st, p, VSlice{v.Obj, Add(v.Off, intT(1)), Sub(v.Len, intT(1))}, p2t, "heap pop at "+pos)
		ret1(st, k, VIface{types.Typ[types.String], VT{T: first}})
	})
	trusted("container/heap.Push", "adds a string", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		p := heapPtr(a[0])
		v := x.load(st, p, p2t).(VSlice)
		e := App("unV_str", x.deep(st, a[1], "V"))
		ns := x.appendTo(st, v, p2t, App("build.Seq_Str", App("empty.Seq_Str"), e), []Value{VT{T: e}}, true)
		x.store(st, p, ns, p2t, "heap push")
		x.sortSlice(st, ns, "sortS", pos)
		ret1(st, k, nil)
	})
	trusted("(*sync.WaitGroup).Add", "adds to the counter", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		id := a[0].(VPtr).Obj
		o := st.objs[id].clone()
		o.n = Add(o.n, x.deep(st, a[1], "Int"))
		x.oblige(st, Le(intT(0), o.n), "the wait group counter stays non-negative: "+pos, nil)
		st.objs[id] = o
		ret1(st, k, nil)
	})
	trusted("(*sync.WaitGroup).Done", "takes one from the counter", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		p, ok := a[0].(VPtr)
		if !ok {
			k(Outcome{st: st, panic: true, val: VT{T: App("V_rterr", intT(6), strLit("runtime error: invalid memory address or nil pointer dereference"))}, pos: pos})
			return
		}
		o := st.objs[p.Obj].clone()
		o.n = Sub(o.n, intT(1))
		x.oblige(st, Le(intT(0), o.n), "the wait group counter stays non-negative: "+pos, nil)
		st.objs[p.Obj] = o
		ret1(st, k, nil)
	})
	trusted("(*sync.WaitGroup).Wait", "returns once the counter is zero", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		x.oblige(st, Eq(st.objs[a[0].(VPtr).Obj].n, intT(0)), "waiting for the goroutines ends: "+pos, nil)
		ret1(st, k, nil)
	})
	trusted("time.Now", "some time", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: fresh("now", th.sortOf(fn.Signature.Results().At(0).Type()))})
	})
	trusted("time.Since", "some duration", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: fresh("since", "Int")})
	})
	trusted("(time.Duration).String", "some text", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: App("durstr", x.deep(st, a[0], "Int"))})
	})
	trusted("time.Sleep", "returns", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		if st.inside {
			d := x.deep(st, a[0], "Int")
			if st.slept != nil {
				d = Add(st.slept, d)
			}
			st.slept = d
		}
		ret1(st, k, nil)
	})
	trusted("github.com/hjson/hjson-go.Unmarshal", "decodes: the root value of the text, or an error and no change; a root of the wrong kind is the error naming it", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		src := x.str(st, a[0])
		w := a[1].(VIface)
		p := w.Val.(VPtr)
		et := under(w.Dyn).(*types.Pointer).Elem()
		srt := th.sortOf(et)
		ctor := "V_map"
		if _, ok := th.seqElem[srt]; ok {
			ctor = "V_arr"
		}
		okc := And(App("hj_ok", src), App("is-"+ctor, App("hj_root", src)))
		x.fork(st, okc, func(s *State) {
			v := x.lift(s, App("un"+ctor, App("hj_root", src)), et, nil, "fresh")
			x.store(s, p, v, et, "decoding at "+pos)
			k(Outcome{st: s, val: nilErr()})
		}, func(s *State) {
			k(Outcome{st: s, val: errVal(App("hj_err", src, strLit(ctor)))})
		})
	})
	enc := func(name, f string) {
		trusted(name, "an encoding of the value, or an error", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
			v := x.deep(st, a[0], "V")
			if w, ok := a[0].(VIface); ok { // what a pointer to an object points to is encoded
				if p, ok := w.Val.(VPtr); ok && typeKey(under(w.Dyn)) == "*map[string]interface{}" {
					v = App("V_map", x.deep(st, x.load(st, p, mapAnyT), th.sortOf(mapAnyT)))
				}
			}
			x.fork(st, App(f+"_ok", v), func(s *State) {
				k(Outcome{st: s, val: VTuple{VT{T: App(f, v)}, nilErr()}})
			}, func(s *State) {
				k(Outcome{st: s, val: VTuple{VT{T: fresh("noenc", "Str")}, errVal(App(f+"_err", v))}})
			})
		})
	}
	enc("encoding/json.Marshal", "json_enc")
	enc("github.com/hjson/hjson-go.Marshal", "hjson_enc")
	trusted("github.com/andygello555/gotils/concurrency.InOut", "an unbounded channel: what goes in comes out", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		b := th.bagSort("V")
		id := x.newObj(st, &Obj{kind: oChan, t: App("bempty." + b), closed: False, owner: "fresh"})
		ret1(st, k, VTuple{VChan{id}, VChan{id}})
	})
	trusted("strconv.Itoa", "decimal text", func(x *Exec, st *State, a []Value, fn *ssa.Function, pos string, k func(Outcome)) {
		ret1(st, k, VT{T: itoa(x.deep(st, a[0], "Int"))})
	})
	initExterns2(trusted)
	initExterns3(trusted)
	initExterns4(trusted)
	initExterns5(trusted)
}

var p2t = types.NewSlice(types.Typ[types.String])

func heapPtr(v Value) VPtr {
	if w, ok := v.(VIface); ok {
		v = w.Val
	}
	p, ok := v.(VPtr)
	if !ok {
		unsup("heap %T", v)
	}
	return p
}

func (x *Exec) sortSlice(st *State, v Value, f, pos string) {
	s, ok := v.(VSlice)
	if !ok || s.Obj == 0 {
		return
	}
	x.checkWrite(st, s.Obj, "sort at "+pos)
	t := x.sliceTerm(st, s)
	nt := App(f, t)
	o := st.objs[s.Obj]
	st.assume(Eq(App("len."+nt.Sort, nt), s.Len))
	if s.Off == intT(0) && Eq(s.Len, App("len."+o.t.Sort, o.t)) == True {
		x.setContent(st, s.Obj, nt)
		return
	}
	x.copyInto(st, s, nt, s.Len)
}
