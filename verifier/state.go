package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic values and the heap.

type Value interface{}

type origin struct {
	obj int
	key *Term // map key or index
}

// VT is a value given by a term (scalars, strings, interfaces, structs read from containers, opaque things).
type VT struct {
	T   *Term
	Org *origin // where an interface value was read from
}
type VStruct struct { // a struct held by value
	Typ types.Type
	F   []Value
}
type VMap struct{ Obj int }
type VSlice struct {
	Obj      int // 0: nil slice
	Off, Len *Term
}
type VChan struct{ Obj int }
type VPtr struct { // pointer to an object, or to a field/element of it
	Obj  int
	Path []int // fields
	Idx  *Term // element of a sequence object
}
type VFn struct {
	Fn   *ssa.Function
	Bind []Value
	Name string // builtin or method name when Fn is nil
	Recv Value
}
type VIface struct { // an interface whose dynamic value is known
	Dyn types.Type
	Val Value
}
type VTuple []Value
type VIter struct{ Obj int }
type VNil struct{ Typ types.Type } // nil pointer / func / chan

type okind int

const (
	oCell okind = iota // one value or struct fields
	oMap
	oSeq
	oChan
	oIter
	oWG
	oBuilder
	oOpaque
	oVM     // a JavaScript interpreter: t its state, f its interrupt channel
	oReader // a buffered reader of a text: t what is left, n the size of its buffer
	oRegexp // a compiled expression: t names it, pat what is known of it, closed whether it finds the longest match
)

type Obj struct {
	kind   okind
	typ    types.Type // element/struct type as declared (map type, slice type, cell type)
	f      []Value    // oCell: fields (one for a non-struct)
	strct  bool
	t      *Term // oMap, oSeq, oChan (bag), oBuilder (text)
	t0     *Term // content when the object was created from a term
	vals   []Value
	cap    *Term // oChan
	closed *Term
	n      *Term // oWG counter, oIter position
	src    int   // oIter: map object, or 0 with seq
	seq    *Term // oIter: enumeration
	srcT   *Term // oIter: map content when ranging began
	owner  string
	orgs   []origin
	nilm   bool  // nil map
	nilT   *Term // whether a slice from outside is nil
	mayNil bool  // a slice made here that may be nil
	nie    bool  // nil exactly when it is empty
	name   string
	shared bool // appended to once already: its spare capacity may be in use
	rowOf  int
	pat    *pattern
}

func (o *Obj) clone() *Obj { n := *o; return &n }

type panRec struct {
	val       Value
	recovered bool
}

type State struct {
	objs    map[int]*Obj
	pc      []*Term
	box     map[*Term]int // objects made for terms of sort V, maps and sequences
	pan     []*panRec
	threads []thread
	inside  bool    // a waiting goroutine is running
	sent    []Value // what it sent
	slept   *Term   // how long it slept
	first   *Term   // whether the first message came from the timer
	delay   *Term   // how long that timer slept
	nosend  bool
	exposed []string // the functions of (exposed …) verified on this path
	dead    bool
	trace   []string
}

type thread struct {
	fn    VFn
	args  []Value
	timer bool
}

func newState() *State {
	return &State{objs: map[int]*Obj{}, box: map[*Term]int{}}
}

func (s *State) clone() *State {
	n := &State{objs: make(map[int]*Obj, len(s.objs)+4), box: make(map[*Term]int, len(s.box)+2), nosend: s.nosend, inside: s.inside, slept: s.slept, first: s.first, delay: s.delay}
	for k, v := range s.objs {
		n.objs[k] = v
	}
	for k, v := range s.box {
		n.box[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.exposed = s.exposed[:len(s.exposed):len(s.exposed)]
	n.threads = s.threads[:len(s.threads):len(s.threads)]
	n.sent = s.sent[:len(s.sent):len(s.sent)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	for _, p := range s.pan {
		c := *p
		n.pan = append(n.pan, &c)
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t == False {
		s.dead = true
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	s.pc = append(s.pc, t)
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- types

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isIface(t types.Type) bool { _, ok := under(t).(*types.Interface); return ok }

func isByteSlice(t types.Type) bool {
	if s, ok := under(t).(*types.Slice); ok {
		if b, ok := under(s.Elem()).(*types.Basic); ok {
			return b.Kind() == types.Byte
		}
	}
	return false
}

func zeroTerm(srt string) *Term {
	switch srt {
	case "Int":
		return intT(0)
	case "Bool":
		return False
	case "Str":
		return strLit("")
	case "V":
		return App("V_nil")
	}
	if _, ok := th.seqElem[srt]; ok {
		return App("empty." + srt)
	}
	if _, ok := th.mapKV[srt]; ok {
		return App("mempty." + srt)
	}
	if st, ok := th.structTy[srt]; ok {
		var as []*Term
		for i := 0; i < st.NumFields(); i++ {
			as = append(as, zeroTerm(th.sortOf(st.Field(i).Type())))
		}
		return App("mk."+srt, as...)
	}
	if _, ok := funcSig["zero."+srt]; !ok {
		funcSig["zero."+srt] = []string{srt}
		th.userFuns = append(th.userFuns, "zero."+srt)
	}
	return App("zero." + srt)
}

// ---- executor basics

type Exec struct {
	cov        cover
	prog       *ssa.Program
	sol        *Solver
	nobj       int
	C          *Contracts
	top        *Contract // contract being verified
	topFn      *ssa.Function
	env        *cenv
	silent     int // >0: obligations are not recorded
	obls       []*Obligation
	active     map[*ssa.Function]*recInfo
	recMods    map[*ssa.Function]map[int]bool
	recUsed    map[string]bool
	recGrew    bool
	assignedTo map[*ssa.Global]bool
	used       map[string]bool
	globals    map[*ssa.Global]int
	init       bool
	steps      int
	notes      map[string]bool
	prop       string
	canaries   int
	goDepth    int
	goMarks    []int
	seqMarks   map[int]bool
	termOwner  map[*Term]string
	unknownSeq int
	phiConst   bool
	outside    bool // an unknown function is being called
	invCount   int
	invKept    int
}

// Obligation is one proof task and what became of it.
type Obligation struct {
	Name    string
	Tags    []string
	Fn      string
	Status  string // trivial, proved, retried, open
	Backend string
	Trace   []string
	Vacuous bool
	pc      []*Term
	goal    *Term
}

func (x *Exec) note(f string, a ...any) {
	x.notes[fmt.Sprintf(f, a...)] = true
}

func (x *Exec) newObj(s *State, o *Obj) int {
	x.nobj++
	s.objs[x.nobj] = o
	if o.owner == "" {
		o.owner = "fresh"
	}
	return x.nobj
}

// deep gives the term for a value at a sort.
func (x *Exec) deep(s *State, v Value, srt string) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case VT:
		if srt != "" && v.T.Sort != srt {
			if srt == "Opq" || srt == "Fn" {
				return x.opq(v, srt)
			}
			panic(fmt.Sprintf("deep: have %s : %s want %s", v.T, v.T.Sort, srt))
		}
		if v.T.Sort == "V" {
			return x.resolve(s, v.T)
		}
		return v.T
	case VMap:
		if v.Obj == 0 {
			return App("mempty." + srt)
		}
		return s.objs[v.Obj].t
	case VSlice:
		if v.Obj == 0 {
			return zeroTerm(srt)
		}
		return x.sliceTerm(s, v)
	case VChan:
		return s.objs[v.Obj].t
	case VStruct:
		return x.structTerm(s, v.Typ, v.F)
	case VPtr:
		o := s.objs[v.Obj]
		if o == nil {
			unsup("dangling pointer")
		}
		if _, ok := th.structTy[srt]; ok && o.kind == oCell && o.strct && len(v.Path) == 0 && v.Idx == nil {
			return x.structTerm(s, o.typ, o.f)
		}
		if o.kind == oBuilder && srt == "Str" {
			return o.t
		}
		if strings.HasPrefix(srt, "O_") {
			return x.opq(v, srt)
		}
		return x.opq(v, "Opq")
	case VFn:
		return x.opq(v, "Fn")
	case VNil:
		if srt == "V" {
			return App("V_nil")
		}
		return zeroTerm(srt)
	case VIface:
		if _, isI := under(v.Dyn).(*types.Interface); isI {
			return x.deep(s, v.Val, "V")
		}
		c, ok := th.vCtor(v.Dyn)
		if !ok {
			th.addDynType(v.Dyn)
			c, _ = th.vCtor(v.Dyn)
		}
		// a nil object or array within a document is encoded as null, unlike an empty one
		switch w := v.Val.(type) {
		case VMap:
			if w.Obj == 0 && c == "V_map" {
				unsup("a nil map as a value of a document")
			}
		case VSlice:
			if w.Obj == 0 && c == "V_arr" {
				unsup("a nil slice as a value of a document")
			}
		}
		return App(c, x.deep(s, v.Val, ctors[c].args[0]))
	}
	unsup("no term for %T", v)
	return nil
}

var opqNames = map[string]*Term{}
var opqRev = map[*Term]Value{}

func (x *Exec) opq(v Value, srt string) *Term {
	k := fmt.Sprintf("%s:%v", srt, describe(v))
	if t, ok := opqNames[k]; ok && opqRev[t] != nil {
		return t
	}
	t := opqName(k, srt)
	if srt == "Fn" || srt == "Opq" {
		opqRev[t] = v
	}
	return t
}

// opqName is the constant for a value that is only compared; its name is never given to another.
func opqName(k, srt string) *Term {
	t, ok := opqNames[k]
	if !ok {
		t = raw(fmt.Sprintf("opq_%s!%d", srt, len(opqNames)+1), srt)
		opqNames[k] = t
	}
	return t
}

func describe(v Value) string {
	switch v := v.(type) {
	case VFn:
		n := v.Name
		if v.Fn != nil {
			n = v.Fn.String()
		}
		s := "fn " + n
		for _, b := range v.Bind {
			s += "," + describe(b)
		}
		return s
	case VPtr:
		return fmt.Sprintf("ptr %d %v %v", v.Obj, v.Path, v.Idx)
	case VT:
		return v.T.String()
	}
	return fmt.Sprintf("%T %v", v, v)
}

func (x *Exec) sliceTerm(s *State, v VSlice) *Term {
	o := s.objs[v.Obj]
	t := o.t
	n := App("len."+t.Sort, t)
	if Eq(Add(v.Off, v.Len), n) != True {
		t = App("take."+t.Sort, t, Add(v.Off, v.Len))
	}
	return App("drop."+t.Sort, t, v.Off)
}

func (x *Exec) structTerm(s *State, ty types.Type, f []Value) *Term {
	srt := th.sortOf(ty)
	st, ok := th.structTy[srt]
	if !ok {
		return x.opq(VStruct{ty, f}, srt)
	}
	var as []*Term
	for i := range f {
		as = append(as, x.deep(s, f[i], th.sortOf(st.Field(i).Type())))
	}
	// rebuild of a read struct
	return eta(App("mk."+srt, as...))
}

// eta turns mk(sel0 t, sel1 t, ...) back into t.
func eta(m *Term) *Term {
	ci := ctors[m.Op]
	var base *Term
	for i, a := range m.Args {
		if a.Op != ci.sels[i] || len(a.Args) != 1 {
			return m
		}
		if base == nil {
			base = a.Args[0]
		} else if base != a.Args[0] {
			return m
		}
	}
	if base == nil || len(ci.sels) == 0 {
		return m
	}
	return base
}

// resolve gives the present value of an interface term whose map or array has been opened as an object.
func (x *Exec) resolve(s *State, t *Term) *Term {
	id, ok := s.box[t]
	if !ok {
		return t
	}
	o := s.objs[id]
	if o.t == o.t0 {
		return t
	}
	switch o.kind {
	case oMap:
		c, _ := th.vCtor(o.typ)
		return App(c, o.t)
	case oSeq:
		c, _ := th.vCtor(o.typ)
		return App(c, o.t)
	}
	return t
}

// lift makes a value of a Go type from a term.
func (x *Exec) lift(s *State, t *Term, ty types.Type, org *origin, owner string) Value {
	switch u := under(ty).(type) {
	case *types.Map:
		if id, ok := s.box[t]; ok {
			return VMap{id}
		}
		o := &Obj{kind: oMap, typ: ty, t: t, t0: t, owner: owner}
		if org != nil {
			o.orgs = []origin{*org}
		}
		id := x.newObj(s, o)
		s.box[t] = id
		return VMap{id}
	case *types.Slice:
		if isByteSlice(ty) {
			return VT{T: t}
		}
		if id, ok := s.box[t]; ok {
			return VSlice{id, intT(0), App("len."+t.Sort, t)}
		}
		o := &Obj{kind: oSeq, typ: ty, t: t, t0: t, owner: owner}
		if org != nil {
			o.orgs = []origin{*org}
		}
		id := x.newObj(s, o)
		s.box[t] = id
		return VSlice{id, intT(0), App("len."+t.Sort, t)}
	case *types.Pointer:
		if th.handles[typeKey(u.Elem())] {
			if v, ok := opqRev[t]; ok {
				return v
			}
			unsup("an unknown package variable of type %s", u.Elem())
		}
		if st, ok := under(u.Elem()).(*types.Struct); ok {
			srt := th.sortOf(u.Elem())
			if _, ok := th.structTy[srt]; ok {
				o := &Obj{kind: oCell, strct: true, typ: u.Elem(), owner: owner}
				ci := ctors["mk."+srt]
				id := x.newObj(s, o)
				for i := 0; i < st.NumFields(); i++ {
					o.f = append(o.f, x.lift(s, App(ci.sels[i], t), st.Field(i).Type(), nil, owner))
				}
				return VPtr{Obj: id}
			}
		}
	}
	if v, ok := opqRev[t]; ok {
		return v
	}
	return VT{T: t, Org: org}
}

// freshVal makes an arbitrary value of a Go type; owner names who may change what it refers to.
func (x *Exec) freshVal(s *State, hint string, ty types.Type, owner string) Value {
	switch u := under(ty).(type) {
	case *types.Struct:
		srt := th.sortOf(ty)
		if srt == "O_sync_WaitGroup" {
			return VT{T: fresh(hint, srt)}
		}
		if _, ok := th.structTy[srt]; !ok {
			return VT{T: fresh(hint, srt)}
		}
		vs := VStruct{Typ: ty}
		for i := 0; i < u.NumFields(); i++ {
			vs.F = append(vs.F, x.freshVal(s, hint+"_"+u.Field(i).Name(), u.Field(i).Type(), owner))
		}
		return vs
	case *types.Map:
		t := fresh(hint, th.sortOf(ty))
		id := x.newObj(s, &Obj{kind: oMap, typ: ty, t: t, t0: t, owner: owner})
		s.box[t] = id
		return VMap{id}
	case *types.Slice:
		if isByteSlice(ty) {
			return VT{T: fresh(hint, "Str")}
		}
		t := fresh(hint, th.sortOf(ty))
		id := x.newObj(s, &Obj{kind: oSeq, typ: ty, t: t, t0: t, owner: owner})
		s.box[t] = id
		return VSlice{id, intT(0), App("len."+t.Sort, t)}
	case *types.Chan:
		b := th.bagSort(th.sortOf(u.Elem()))
		return VChan{x.newObj(s, &Obj{kind: oChan, typ: ty, t: fresh(hint, b), cap: fresh(hint+"_cap", "Int"), closed: False, owner: owner})}
	case *types.Pointer:
		return x.freshPtr(s, hint, u, owner)
	case *types.Tuple:
		var tp VTuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, x.freshVal(s, fmt.Sprintf("%s_%d", hint, i), u.At(i).Type(), owner))
		}
		return tp
	}
	return VT{T: fresh(hint, th.sortOf(ty))}
}

func (x *Exec) freshPtr(s *State, hint string, u *types.Pointer, owner string) Value {
	name := typeKey(u.Elem())
	switch name {
	case "sync.WaitGroup":
		return VPtr{Obj: x.newObj(s, &Obj{kind: oWG, n: fresh(hint+"_wg", "Int"), owner: owner})}
	case "strings.Builder":
		return VPtr{Obj: x.newObj(s, &Obj{kind: oBuilder, t: fresh(hint+"_b", "Str"), owner: owner})}
	case "github.com/robertkrimen/otto.Otto":
		id := x.newObj(s, &Obj{kind: oVM, f: []Value{VNil{}}, owner: owner})
		o := s.objs[id]
		o.t = x.ufun("vm_at", "Opq", x.opq(VPtr{Obj: id}, "Opq"))
		return VPtr{Obj: id}
	}
	if st, ok := under(u.Elem()).(*types.Struct); ok {
		if _, ok := th.structTy[th.sortOf(u.Elem())]; ok {
			o := &Obj{kind: oCell, strct: true, typ: u.Elem(), owner: owner}
			id := x.newObj(s, o)
			for i := 0; i < st.NumFields(); i++ {
				o.f = append(o.f, x.freshVal(s, hint+"_"+st.Field(i).Name(), st.Field(i).Type(), owner))
			}
			return VPtr{Obj: id}
		}
		return VPtr{Obj: x.newObj(s, &Obj{kind: oOpaque, typ: u.Elem(), t: fresh(hint, "Opq"), owner: owner})}
	}
	o := &Obj{kind: oCell, typ: u.Elem(), owner: owner}
	id := x.newObj(s, o)
	o.f = []Value{x.freshVal(s, hint, u.Elem(), owner)}
	return VPtr{Obj: id}
}

func (x *Exec) zeroVal(s *State, ty types.Type) Value {
	switch u := under(ty).(type) {
	case *types.Struct:
		srt := th.sortOf(ty)
		if _, ok := th.structTy[srt]; !ok {
			return VT{T: zeroTerm(srt)}
		}
		vs := VStruct{Typ: ty}
		for i := 0; i < u.NumFields(); i++ {
			vs.F = append(vs.F, x.zeroVal(s, u.Field(i).Type()))
		}
		return vs
	case *types.Map:
		return VMap{0}
	case *types.Slice:
		if isByteSlice(ty) {
			return VT{T: strLit("")}
		}
		return VSlice{0, intT(0), intT(0)}
	case *types.Pointer, *types.Signature, *types.Chan:
		return VNil{ty}
	case *types.Tuple:
		var tp VTuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, x.zeroVal(s, u.At(i).Type()))
		}
		return tp
	}
	return VT{T: zeroTerm(th.sortOf(ty))}
}

// ---- writes

// mutate replaces an object's content and carries the change to whatever holds it.
func (x *Exec) setContent(s *State, id int, t *Term) {
	o := s.objs[id].clone()
	o.t = t
	o.vals = nil
	s.objs[id] = o
	x.propagate(s, id, 0)
}

func (x *Exec) propagate(s *State, id int, depth int) {
	o := s.objs[id]
	if len(o.orgs) == 0 {
		return
	}
	if depth > 20 {
		unsup("cyclic document")
	}
	var val *Term
	c, ok := th.vCtor(o.typ)
	for _, g := range o.orgs {
		p := s.objs[g.obj]
		if p == nil {
			continue
		}
		if p.kind == oMap && th.mapKV[p.t.Sort][1] == "V" || p.kind == oSeq && th.seqElem[p.t.Sort] == "V" {
			if !ok {
				unsup("container of %s held as interface", o.typ)
			}
			val = App(c, o.t)
		} else {
			val = o.t
		}
		n := p.clone()
		n.vals = nil
		if p.kind == oMap {
			n.t = App("store."+p.t.Sort, p.t, g.key, val)
		} else {
			n.t = App("upd."+p.t.Sort, p.t, g.key, val)
		}
		s.objs[g.obj] = n
		x.propagate(s, g.obj, depth+1)
	}
}

// attach records that the container now holds the value at the key; children held there before are detached.
func (x *Exec) attach(s *State, parent int, key *Term, v Value) {
	child := x.childOf(s, v)
	for id, o := range s.objs {
		if len(o.orgs) == 0 || id == child {
			continue
		}
		for _, g := range o.orgs {
			if g.obj != parent {
				continue
			}
			c := Eq(g.key, key)
			if c == False {
				continue
			}
			if c != True {
				if x.sol.entails(s.pc, Not(c)) {
					continue
				}
				if !x.sol.entails(s.pc, c) {
					unsup("write to %s may or may not replace an opened value", key)
				}
			}
			n := o.clone()
			n.orgs = nil
			for _, h := range o.orgs {
				if h != g {
					n.orgs = append(n.orgs, h)
				}
			}
			s.objs[id] = n
			o = n
		}
	}
	if child != 0 && child != parent {
		o := s.objs[child]
		for _, g := range o.orgs {
			if g.obj == parent && g.key == key {
				return
			}
		}
		n := o.clone()
		n.orgs = append(append([]origin{}, o.orgs...), origin{parent, key})
		s.objs[child] = n
	}
}

// childOf gives the map or sequence object a value refers to as a whole, or 0.
func (x *Exec) childOf(s *State, v Value) int {
	switch v := v.(type) {
	case VIface:
		return x.childOf(s, v.Val)
	case VMap:
		return v.Obj
	case VSlice:
		if v.Obj != 0 && v.Off == intT(0) && s.objs[v.Obj].t.Sort != "" && Eq(v.Len, App("len."+s.objs[v.Obj].t.Sort, s.objs[v.Obj].t)) == True {
			return v.Obj
		}
	case VT:
		if v.T.Sort == "V" {
			if id, ok := s.box[v.T]; ok {
				return id
			}
		}
	}
	return 0
}

// rootOwner follows the holders of an object to the owner that decides whether it may be changed.
func (x *Exec) checkWrite(s *State, id int, what string) {
	o := s.objs[id]
	if x.init {
		return
	}
	ow := o.owner
	if ow == "fresh" || x.top == nil || x.top.mayAssign(ow) {
		if x.goDepth > 0 && o.kind != oChan && o.kind != oWG && !x.seqMarks[id] && id <= x.goMark() {
			x.oblige(s, False, "goroutines do not write shared data: "+what, nil)
		}
		return
	}
	x.oblige(s, False, "frame: "+what+" writes only what the contract allows ("+ow+")", x.top.frameTags())
}
