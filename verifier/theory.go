package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Sorts of the logic, their built-in axioms, and the mapping from Go types to sorts.

type axiom struct {
	name string
	t    *Term
	text string // raw SMT text instead of t
}

type theory struct {
	sorts    []string          // uninterpreted sorts in order
	sortSet  map[string]bool   //
	seqElem  map[string]string // Seq sort -> element sort
	mapKV    map[string][2]string
	bagElem  map[string]string
	data     []string // datatypes in order (V first)
	dataCtor map[string][]string
	axioms   []axiom
	strLits  map[string]*Term
	litText  map[*Term]string
	vctor    map[string]string     // Go type string -> V constructor
	vtype    map[string]types.Type // V constructor -> Go type
	structTy map[string]*types.Struct
	structGo map[string]types.Type
	userFuns []string
	userSeen int
	userSet  map[string]bool
	axSeen   map[string]bool
	notes    map[string]bool
	defs     map[string]*def // user defined macros
	langs    *langTable
	rePats   []string
	handles  map[string]bool // types only ever pointed to as package variables
}

var th *theory

func newTheory() *theory {
	t := &theory{sortSet: map[string]bool{}, seqElem: map[string]string{}, mapKV: map[string][2]string{}, bagElem: map[string]string{},
		dataCtor: map[string][]string{}, strLits: map[string]*Term{}, litText: map[*Term]string{}, vctor: map[string]string{}, vtype: map[string]types.Type{},
		structTy: map[string]*types.Struct{}, structGo: map[string]types.Type{}, axSeen: map[string]bool{}, notes: map[string]bool{}, defs: map[string]*def{}, userSet: map[string]bool{}}
	th = t
	t.data = append(t.data, "V")
	addCtor("V_nil", "V", nil, nil)
	t.declSort("Str")
	t.declSort("Fn")
	t.declSort("Opq")
	funcSig["strlen"] = []string{"Str", "Int"}
	funcSig["cat"] = []string{"Str", "Str", "Str"}
	funcSig["substr"] = []string{"Str", "Int", "Int", "Str"}
	funcSig["strle"] = []string{"Str", "Str", "Bool"}
	funcSig["contains"] = []string{"Str", "Str", "Bool"}
	funcSig["typename"] = []string{"V", "Str"}
	funcSig["errtext"] = []string{"V", "Str"}
	funcSig["iserror"] = []string{"V", "Bool"}
	t.ctorV("V_bool", "Bool", types.Typ[types.Bool])
	t.ctorV("V_int", "Int", types.Typ[types.Int])
	t.ctorV("V_str", "Str", types.Typ[types.String])
	emptyI := types.NewInterfaceType(nil, nil)
	t.ctorV("V_map", t.mapSort("Str", "V"), types.NewMap(types.Typ[types.String], emptyI))
	t.ctorV("V_arr", t.seqSort("V"), types.NewSlice(emptyI))
	t.ctorV("V_strs", t.seqSort("Str"), types.NewSlice(types.Typ[types.String]))
	t.ctorV("V_ints", t.seqSort("Int"), types.NewSlice(types.Typ[types.Int]))
	// errors made by the code (errors.New) and run-time errors raised by the language
	addCtor("V_err", "V", []string{"err_msg"}, []string{"Str"})
	addCtor("V_rterr", "V", []string{"rt_kind", "rt_msg"}, []string{"Int", "Str"})
	// any dynamic type the code never distinguishes
	addCtor("V_other", "V", []string{"other_type", "other_val"}, []string{"Int", "Opq"})
	return t
}

func addCtor(name, srt string, sels, args []string) {
	if _, ok := ctors[name]; ok {
		return
	}
	ctors[name] = &ctorInfo{sort: srt, sels: sels, args: args}
	th.dataCtor[srt] = append(th.dataCtor[srt], name)
	sig := append(append([]string{}, args...), srt)
	funcSig[name] = sig
	for i, s := range sels {
		selectors[s] = [2]any{name, i}
		funcSig[s] = []string{srt, args[i]}
	}
	funcSig["is-"+name] = []string{srt, "Bool"}
}

func (t *theory) ctorV(name, payload string, ty types.Type) {
	addCtor(name, "V", []string{"un" + name}, []string{payload})
	t.vctor[typeKey(ty)] = name
	t.vtype[name] = ty
}

func typeKey(t types.Type) string { return types.TypeString(unnameSig(types.Unalias(t)), nil) }

// unnameSig drops parameter names from a function type: they are no part of its identity.
func unnameSig(t types.Type) types.Type {
	sg, ok := t.(*types.Signature)
	if !ok {
		return t
	}
	tup := func(u *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < u.Len(); i++ {
			vs = append(vs, types.NewParam(0, nil, "", unnameSig(types.Unalias(u.At(i).Type()))))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, tup(sg.Params()), tup(sg.Results()), sg.Variadic())
}

func (t *theory) declSort(s string) {
	if !t.sortSet[s] {
		t.sortSet[s] = true
		t.sorts = append(t.sorts, s)
	}
}

func (t *theory) seqSort(e string) string {
	s := "Seq_" + e
	if _, ok := t.seqElem[s]; ok {
		return s
	}
	t.declSort(s)
	t.seqElem[s] = e
	f := func(n string, sig ...string) { funcSig[n+"."+s] = sig }
	f("len", s, "Int")
	f("at", s, "Int", e)
	f("empty", s)
	f("build", s, e, s)
	f("app", s, s, s)
	f("upd", s, "Int", e, s)
	f("take", s, "Int", s)
	f("drop", s, "Int", s)
	f("rep", "Int", e, s)
	f("eq", s, s, "Bool")
	f("mem", s, e, "Bool")
	f("idx", s, e, "Int")
	return s
}

func (t *theory) mapSort(k, v string) string {
	s := "Map_" + k + "_" + v
	if _, ok := t.mapKV[s]; ok {
		return s
	}
	t.declSort(s)
	t.mapKV[s] = [2]string{k, v}
	ks := t.seqSort(k)
	f := func(n string, sig ...string) { funcSig[n+"."+s] = sig }
	f("has", s, k, "Bool")
	f("get", s, k, v)
	f("mempty", s)
	f("store", s, k, v, s)
	f("del", s, k, s)
	f("card", s, "Int")
	f("enum", ks, s, "Bool")
	f("pos", ks, k, "Int")
	f("eq", s, s, "Bool")
	return s
}

func (t *theory) bagSort(e string) string {
	s := "Bag_" + e
	if _, ok := t.bagElem[s]; ok {
		return s
	}
	t.declSort(s)
	t.bagElem[s] = e
	f := func(n string, sig ...string) { funcSig[n+"."+s] = sig }
	f("count", s, e, "Int")
	f("bempty", s)
	f("badd", s, e, s)
	f("bunion", s, s, s)
	f("bcard", s, "Int")
	f("eq", s, s, "Bool")
	f("bagof", t.seqSort(e), s)
	return s
}

func isStrLit(t *Term) bool { return t.Sort == "Str" && th != nil && th.isLit(t) }
func (t *theory) isLit(x *Term) bool {
	_, ok := t.litText[x]
	return ok
}

func strLit(s string) *Term {
	if t, ok := th.strLits[s]; ok {
		return t
	}
	n := sanitize(s)
	if len(n) > 20 {
		n = n[:20]
	}
	t := raw(fmt.Sprintf("str%d_%s", len(th.strLits), n), "Str")
	th.strLits[s] = t
	th.litText[t] = s
	return t
}

// repoType reports whether a named type is declared in code we decompose.
func repoType(n *types.Named) bool {
	p := n.Obj().Pkg()
	return p != nil && (strings.HasPrefix(p.Path(), "github.com/andygello555/"))
}

func (t *theory) sortOf(ty types.Type) string {
	ty = types.Unalias(ty)
	switch u := ty.(type) {
	case *types.Named:
		switch uu := u.Underlying().(type) {
		case *types.Struct:
			switch typeKey(u) {
			case "strings.Builder":
				return "Str"
			case "sync.WaitGroup":
				return "Int"
			case "github.com/robertkrimen/otto.Value", "github.com/robertkrimen/otto.Otto":
				return "Opq"
			}
			if !repoType(u) && typeKey(u) != "github.com/robertkrimen/otto.FunctionCall" {
				s := "O_" + sanitize(typeKey(u))
				t.declSort(s)
				return s
			}
			return t.structSort(u, uu)
		case *types.Interface:
			return "V"
		default:
			return t.sortOf(uu)
		}
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			t.declSort("F64")
			return "F64"
		case u.Kind() == types.UntypedNil:
			return "V"
		}
		return "Opq"
	case *types.Interface:
		return "V"
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return "Str" // byte slices that are only converted and passed on
		}
		return t.seqSort(t.sortOf(u.Elem()))
	case *types.Array:
		return t.seqSort(t.sortOf(u.Elem()))
	case *types.Map:
		return t.mapSort(t.sortOf(u.Key()), t.sortOf(u.Elem()))
	case *types.Pointer:
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok {
			if t.handles[typeKey(n)] {
				return "Opq"
			}
			if _, ok := n.Underlying().(*types.Struct); ok {
				return t.sortOf(n)
			}
		}
		return "Opq"
	case *types.Signature:
		return "Fn"
	case *types.Struct:
		return t.structSort(ty, u)
	}
	return "Opq"
}

func (t *theory) structSort(ty types.Type, st *types.Struct) string {
	k := typeKey(ty)
	name := "S_" + sanitize(k[strings.LastIndexAny(k, "/.")+1:])
	if _, ok := ty.(*types.Named); !ok {
		name = fmt.Sprintf("S_anon_%d", len(k))
		for i := 0; ; i++ {
			if o, ok := t.structGo[name]; !ok || typeKey(o) == k {
				break
			}
			name += "x"
		}
	} else {
		for {
			o, ok := t.structGo[name]
			if !ok || typeKey(o) == k {
				break
			}
			name += "x"
		}
	}
	if _, ok := t.structTy[name]; ok {
		return name
	}
	t.structTy[name] = st
	t.structGo[name] = ty
	t.data = append(t.data, name)
	var sels, args []string
	for i := 0; i < st.NumFields(); i++ {
		sels = append(sels, fmt.Sprintf("%s.%s", name, sanitize(st.Field(i).Name())))
		args = append(args, t.sortOf(st.Field(i).Type()))
	}
	addCtor("mk."+name, name, sels, args)
	return name
}

// vCtor gives the constructor of V for a concrete dynamic type.
func (t *theory) vCtor(ty types.Type) (string, bool) {
	c, ok := t.vctor[typeKey(ty)]
	return c, ok
}

func (t *theory) addDynType(ty types.Type) {
	ty = types.Unalias(ty)
	if _, ok := ty.Underlying().(*types.Interface); ok {
		return
	}
	k := typeKey(ty)
	if _, ok := t.vctor[k]; ok {
		return
	}
	n := "V_t" + sanitize(k[strings.LastIndexAny(k, "/")+1:])
	for {
		if _, ok := ctors[n]; !ok {
			break
		}
		n += "x"
	}
	s := t.sortOf(ty)
	t.ctorV(n, s, ty)
}

// ---- built-in axioms

func (t *theory) builtinAxioms(used map[string]bool) []string {
	var out []string
	ax := func(s string) { out = append(out, "(assert "+s+")") }
	var seqs, maps, bags []string
	for s := range t.seqElem {
		if used[s] {
			seqs = append(seqs, s)
		}
	}
	for s := range t.mapKV {
		if used[s] {
			maps = append(maps, s)
		}
	}
	for s := range t.bagElem {
		if used[s] {
			bags = append(bags, s)
		}
	}
	sort.Strings(seqs)
	sort.Strings(maps)
	sort.Strings(bags)
	for _, s := range seqs {
		e := t.seqElem[s]
		r := strings.NewReplacer("$S", s, "$E", e, "$len$", "len."+s, "$at(", "(at."+s+" ", "$empty$", "empty."+s, "$build$", "build."+s, "$app$", "app."+s, "$upd$", "upd."+s, "$take$", "take."+s, "$drop$", "drop."+s, "$rep$", "rep."+s, "$seqeq$", "eq."+s, "$mem$", "mem."+s, "$idx$", "idx."+s)
		for _, l := range seqAxioms {
			ax(r.Replace(l))
		}
	}
	for _, s := range maps {
		kv := t.mapKV[s]
		ks := "Seq_" + kv[0]
		r := strings.NewReplacer("$S", s, "$K", kv[0], "$V", kv[1], "$P", ks, "$has$", "has."+s, "$get$", "get."+s, "$mempty$", "mempty."+s, "$store$", "store."+s, "$del$", "del."+s, "$card$", "card."+s, "$enum$", "enum."+s, "$pos$", "pos."+s, "$mapeq$", "eq."+s, "$atP$", "at."+ks, "$lenP$", "len."+ks)
		for _, l := range mapAxioms {
			ax(r.Replace(l))
		}
	}
	for _, s := range bags {
		e := t.bagElem[s]
		q := "Seq_" + e
		r := strings.NewReplacer("$S", s, "$E", e, "$Q", q, "$count$", "count."+s, "$bempty$", "bempty."+s, "$badd$", "badd."+s, "$bunion$", "bunion."+s, "$bcard$", "bcard."+s, "$bageq$", "eq."+s, "$bagof$", "bagof."+s, "$lenQ$", "len."+q, "$emptyQ$", "empty."+q, "$buildQ$", "build."+q, "$appQ$", "app."+q, "$atQ$", "at."+q)
		for _, l := range bagAxioms {
			ax(r.Replace(l))
		}
	}
	// strings
	for _, l := range strAxioms {
		ax(l)
	}
	return out
}

var seqAxioms = []string{
	"(forall ((s $S)) (! (>= ($len$ s) 0) :pattern (($len$ s))))",
	"(= ($len$ $empty$) 0)",
	"(forall ((s $S)) (! (=> (= ($len$ s) 0) (= s $empty$)) :pattern (($len$ s))))",
	"(forall ((s $S) (x $E)) (! (= ($len$ ($build$ s x)) (+ 1 ($len$ s))) :pattern (($build$ s x))))",
	"(forall ((s $S) (x $E) (i Int)) (! (= $at(($build$ s x) i) (ite (= i ($len$ s)) x $at(s i))) :pattern ($at(($build$ s x) i))))",
	"(forall ((s $S) (x $E)) (! (= $at(($build$ s x) ($len$ s)) x) :pattern (($build$ s x))))",
	"(forall ((a $S) (b $S)) (! (= ($len$ ($app$ a b)) (+ ($len$ a) ($len$ b))) :pattern (($app$ a b))))",
	"(forall ((a $S) (b $S) (i Int)) (! (= $at(($app$ a b) i) (ite (< i ($len$ a)) $at(a i) $at(b (- i ($len$ a))))) :pattern ($at(($app$ a b) i))))",
	"(forall ((a $S)) (! (= ($app$ a $empty$) a) :pattern (($app$ a $empty$))))",
	"(forall ((a $S)) (! (= ($app$ $empty$ a) a) :pattern (($app$ $empty$ a))))",
	"(forall ((a $S) (b $S) (x $E)) (! (= ($app$ a ($build$ b x)) ($build$ ($app$ a b) x)) :pattern (($app$ a ($build$ b x)))))",
	"(forall ((s $S) (i Int) (x $E)) (! (=> (and (<= 0 i) (< i ($len$ s))) (= ($len$ ($upd$ s i x)) ($len$ s))) :pattern (($upd$ s i x))))",
	"(forall ((s $S) (i Int) (x $E) (j Int)) (! (=> (and (<= 0 i) (< i ($len$ s)) (<= 0 j) (< j ($len$ s))) (= $at(($upd$ s i x) j) (ite (= i j) x $at(s j)))) :pattern ($at(($upd$ s i x) j))))",
	"(forall ((s $S) (n Int)) (! (=> (and (<= 0 n) (<= n ($len$ s))) (= ($len$ ($take$ s n)) n)) :pattern (($take$ s n))))",
	"(forall ((s $S) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= n ($len$ s))) (= $at(($take$ s n) i) $at(s i))) :pattern ($at(($take$ s n) i)) :pattern ($at(s i) ($take$ s n))))",
	"(forall ((s $S) (n Int)) (! (=> (= n ($len$ s)) (= ($take$ s n) s)) :pattern (($take$ s n))))",
	"(forall ((s $S) (n Int)) (! (=> (= n 0) (= ($take$ s n) $empty$)) :pattern (($take$ s n))))",
	"(forall ((s $S) (x $E) (n Int)) (! (=> (and (<= 0 n) (<= n ($len$ s))) (= ($take$ ($build$ s x) n) ($take$ s n))) :pattern (($take$ ($build$ s x) n))))",
	"(forall ((s $S) (i Int) (x $E) (n Int)) (! (=> (and (<= 0 n) (<= n i) (< i ($len$ s))) (= ($take$ ($upd$ s i x) n) ($take$ s n))) :pattern (($take$ ($upd$ s i x) n))))",
	"(forall ((s $S) (n Int)) (! (=> (and (<= 0 n) (< n ($len$ s))) (= ($take$ s (+ n 1)) ($build$ ($take$ s n) $at(s n)))) :pattern (($take$ s (+ n 1)))))",
	"(forall ((s $S) (n Int) (m Int)) (! (=> (and (= m (+ n 1)) (<= 0 n) (< n ($len$ s))) (= ($take$ s m) ($build$ ($take$ s n) $at(s n)))) :pattern (($take$ s m) ($take$ s n))))",
	"(forall ((s $S) (n Int)) (! (=> (and (<= 0 n) (<= n ($len$ s))) (= ($len$ ($drop$ s n)) (- ($len$ s) n))) :pattern (($drop$ s n))))",
	"(forall ((s $S) (n Int) (i Int)) (! (=> (and (<= 0 n) (<= 0 i) (< (+ i n) ($len$ s))) (= $at(($drop$ s n) i) $at(s (+ i n)))) :pattern ($at(($drop$ s n) i))))",
	"(forall ((s $S) (n Int) (k Int)) (! (=> (and (<= 0 n) (<= n k) (< k ($len$ s))) (= $at(($drop$ s n) (- k n)) $at(s k))) :pattern ($at(s k) ($drop$ s n))))",
	"(forall ((s $S) (n Int)) (! (=> (= n 0) (= ($drop$ s n) s)) :pattern (($drop$ s n))))",
	"(forall ((s $S) (n Int)) (! (=> (= n ($len$ s)) (= ($drop$ s n) $empty$)) :pattern (($drop$ s n))))",
	"(forall ((s $S) (n Int) (m Int)) (! (=> (and (<= 0 n) (<= 0 m) (<= (+ n m) ($len$ s))) (= ($drop$ ($drop$ s n) m) ($drop$ s (+ n m)))) :pattern (($drop$ ($drop$ s n) m))))",
	"(forall ((n Int) (x $E)) (! (=> (<= 0 n) (= ($len$ ($rep$ n x)) n)) :pattern (($rep$ n x))))",
	"(forall ((n Int) (x $E) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= $at(($rep$ n x) i) x)) :pattern ($at(($rep$ n x) i))))",
	"(forall ((a $S) (b $S)) (! (= ($seqeq$ a b) (and (= ($len$ a) ($len$ b)) (forall ((i Int)) (! (=> (and (<= 0 i) (< i ($len$ a))) (= $at(a i) $at(b i))) :pattern ($at(a i)) :pattern ($at(b i)))))) :pattern (($seqeq$ a b))))",
	"(forall ((a $S) (b $S)) (! (=> ($seqeq$ a b) (= a b)) :pattern (($seqeq$ a b))))",
	"(forall ((x $E)) (! (not ($mem$ $empty$ x)) :pattern (($mem$ $empty$ x))))",
	"(forall ((s $S) (x $E) (y $E)) (! (= ($mem$ ($build$ s x) y) (or (= x y) ($mem$ s y))) :pattern (($mem$ ($build$ s x) y))))",
	"(forall ((s $S) (x $E)) (! ($mem$ ($build$ s x) x) :pattern (($build$ s x))))",
	"(forall ((s $S) (i Int)) (! (=> (and (<= 0 i) (< i ($len$ s))) ($mem$ s $at(s i))) :pattern ($at(s i))))",
	"(forall ((s $S) (x $E)) (! (=> ($mem$ s x) (and (<= 0 ($idx$ s x)) (< ($idx$ s x) ($len$ s)) (= $at(s ($idx$ s x)) x))) :pattern (($mem$ s x))))",
}

var mapAxioms = []string{
	"(forall ((k $K)) (! (not ($has$ $mempty$ k)) :pattern (($has$ $mempty$ k))))",
	"(forall ((m $S) (k $K) (v $V) (j $K)) (! (= ($has$ ($store$ m k v) j) (or (= k j) ($has$ m j))) :pattern (($has$ ($store$ m k v) j))))",
	"(forall ((m $S) (k $K) (v $V) (j $K)) (! (= ($get$ ($store$ m k v) j) (ite (= k j) v ($get$ m j))) :pattern (($get$ ($store$ m k v) j))))",
	"(forall ((m $S) (k $K) (j $K)) (! (= ($has$ ($del$ m k) j) (and (not (= k j)) ($has$ m j))) :pattern (($has$ ($del$ m k) j))))",
	"(forall ((m $S) (k $K) (j $K)) (! (=> (not (= k j)) (= ($get$ ($del$ m k) j) ($get$ m j))) :pattern (($get$ ($del$ m k) j))))",
	"(forall ((a $S) (b $S)) (! (= ($mapeq$ a b) (forall ((k $K)) (! (and (= ($has$ a k) ($has$ b k)) (=> ($has$ a k) (= ($get$ a k) ($get$ b k)))) :pattern (($has$ a k)) :pattern (($has$ b k)) :pattern (($get$ a k)) :pattern (($get$ b k))))) :pattern (($mapeq$ a b))))",
	"(forall ((a $S) (b $S)) (! (=> ($mapeq$ a b) (= a b)) :pattern (($mapeq$ a b))))",
	"(forall ((p $P) (m $S) (i Int)) (! (=> (and ($enum$ p m) (<= 0 i) (< i ($lenP$ p))) (and ($has$ m ($atP$ p i)) (= ($pos$ p ($atP$ p i)) i))) :pattern (($enum$ p m) ($atP$ p i))))",
	"(forall ((p $P) (m $S) (k $K)) (! (=> (and ($enum$ p m) ($has$ m k)) (and (<= 0 ($pos$ p k)) (< ($pos$ p k) ($lenP$ p)) (= ($atP$ p ($pos$ p k)) k))) :pattern (($enum$ p m) ($has$ m k))))",
	"(forall ((p $P) (m $S)) (! (=> ($enum$ p m) (= ($card$ m) ($lenP$ p))) :pattern (($enum$ p m))))",
	"(forall ((m $S)) (! (>= ($card$ m) 0) :pattern (($card$ m))))",
}

var bagAxioms = []string{
	"(forall ((b $S) (x $E)) (! (>= ($count$ b x) 0) :pattern (($count$ b x))))",
	"(forall ((x $E)) (! (= ($count$ $bempty$ x) 0) :pattern (($count$ $bempty$ x))))",
	"(forall ((b $S) (x $E) (y $E)) (! (= ($count$ ($badd$ b x) y) (+ ($count$ b y) (ite (= x y) 1 0))) :pattern (($count$ ($badd$ b x) y))))",
	"(forall ((b $S) (c $S) (y $E)) (! (= ($count$ ($bunion$ b c) y) (+ ($count$ b y) ($count$ c y))) :pattern (($count$ ($bunion$ b c) y))))",
	"(forall ((b $S)) (! (= ($bunion$ $bempty$ b) b) :pattern (($bunion$ $bempty$ b))))",
	"(forall ((b $S)) (! (= ($bunion$ b $bempty$) b) :pattern (($bunion$ b $bempty$))))",
	"(forall ((b $S) (c $S)) (! (= ($bageq$ b c) (forall ((x $E)) (! (= ($count$ b x) ($count$ c x)) :pattern (($count$ b x)) :pattern (($count$ c x))))) :pattern (($bageq$ b c))))",
	"(forall ((b $S) (c $S)) (! (=> ($bageq$ b c) (= b c)) :pattern (($bageq$ b c))))",
	"(= ($bcard$ $bempty$) 0)",
	"(forall ((b $S)) (! (>= ($bcard$ b) 0) :pattern (($bcard$ b))))",
	"(forall ((b $S)) (! (=> (= ($bcard$ b) 0) (= b $bempty$)) :pattern (($bcard$ b))))",
	"(forall ((b $S) (x $E)) (! (= ($bcard$ ($badd$ b x)) (+ 1 ($bcard$ b))) :pattern (($badd$ b x))))",
	"(forall ((b $S) (c $S)) (! (= ($bcard$ ($bunion$ b c)) (+ ($bcard$ b) ($bcard$ c))) :pattern (($bunion$ b c))))",
	"(= ($bagof$ $emptyQ$) $bempty$)",
	"(forall ((q $Q) (x $E)) (! (= ($bagof$ ($buildQ$ q x)) ($badd$ ($bagof$ q) x)) :pattern (($bagof$ ($buildQ$ q x)))))",
	"(forall ((q $Q)) (! (= ($bcard$ ($bagof$ q)) ($lenQ$ q)) :pattern (($bagof$ q))))",
	"(forall ((q $Q) (i Int)) (! (=> (and (<= 0 i) (< i ($lenQ$ q))) (>= ($count$ ($bagof$ q) ($atQ$ q i)) 1)) :pattern (($bagof$ q) ($atQ$ q i))))",
}

var strAxioms = []string{
	"(forall ((s Str)) (! (>= (strlen s) 0) :pattern ((strlen s))))",
	"(forall ((a Str)) (! (strle a a) :pattern ((strle a a))))",
	"(forall ((a Str) (b Str)) (! (or (strle a b) (strle b a)) :pattern ((strle a b))))",
	"(forall ((a Str) (b Str)) (! (=> (and (strle a b) (strle b a)) (= a b)) :pattern ((strle a b) (strle b a))))",
	"(forall ((a Str) (b Str) (c Str)) (! (=> (and (strle a b) (strle b c)) (strle a c)) :pattern ((strle a b) (strle b c))))",
	"(forall ((a Str) (b Str)) (! (= (strlen (cat a b)) (+ (strlen a) (strlen b))) :pattern ((cat a b))))",
}
