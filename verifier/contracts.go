package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type clause struct {
	tags []string
	name string
	e    *SX
}

type pspec struct{ name, typ string }

type template struct {
	name  string
	holes []pspec
	e     *SX
}

type Contract struct {
	Name     string
	Params   []pspec
	Returns  []string
	Requires []clause
	Ensures  []clause
	Panics   []clause
	NoPanic  []string
	Assigns  map[string]bool
	Consumes []string
	Invs     []template
	Recs     []*Contract
	Exposed  []*Contract // functions stored under a key in an object given to the interpreter
	Parent   *Contract
	Inline   bool
	Linear   bool
	Trusted  string
	Separate string
	Closes   []string
	Props    map[string]bool
	Nullable bool
	Result   string // type of the result, to recognise recursive closures
	FTags    []string
	Bounded  string
	Keeps    [][2]string // parameter and field: same object, same content afterwards
	Live     [][2]string // parameter and field whose object may change while this closure runs
	line     int
}

func (c *Contract) mayAssign(owner string) bool {
	for k := c; k != nil; k = k.Parent {
		if k.Assigns[owner] || k.Assigns[strings.TrimPrefix(owner, "param:"+k.Name+":")] {
			return true
		}
	}
	return false
}

func (c *Contract) frameTags() []string { return c.FTags }

type Contracts struct {
	all     map[string]*Contract
	order   []string
	inv     []template
	lems    map[string]clause
	private map[string]bool
	gname   map[string]string // names for the content of package variables
}

func (C *Contracts) byName(n string) *Contract { return C.all[shortName(n)] }

// shortName: package name and function, without the module path.
func shortName(n string) string {
	n = strings.ReplaceAll(n, "github.com/andygello555/json-dom/", "")
	n = strings.ReplaceAll(n, "github.com/andygello555/", "")
	return n
}

// rec finds the contract that a closure without a contract of its own can be recursive under.
func (C *Contracts) rec(c *Contract, fn *ssa.Function) *Contract {
	for k := c; k != nil; k = k.Parent {
		for _, r := range k.Recs {
			if r.matches(fn) {
				return r
			}
		}
	}
	return nil
}

func tkey(t types.Type) string {
	s := types.TypeString(unnameSig(types.Unalias(t)), func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "any")
	return s
}

func (r *Contract) matches(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	want := r.Result
	got := ""
	if res.Len() == 1 {
		got = tkey(res.At(0).Type())
	} else if res.Len() > 1 {
		got = tkey(res)
	}
	if want != got {
		return false
	}
	_, ok := r.bindParams(fn)
	return ok
}

// bindParams maps contract parameters to parameter positions (>=0) or captured variables (<0).
func (r *Contract) bindParams(fn *ssa.Function) ([]int, bool) {
	used := map[int]bool{}
	var out []int
	for _, p := range r.Params {
		if p.typ == "" {
			i := len(out)
			if i >= len(fn.Params) {
				return nil, false
			}
			used[i] = true
			out = append(out, i)
			continue
		}
		f := -1000
		for i, q := range fn.Params {
			if !used[i] && tkey(q.Type()) == p.typ {
				f = i
				break
			}
		}
		if f == -1000 {
			return nil, false
		}
		used[f] = true
		out = append(out, f)
	}
	return out, true
}

var curProp string

func hasStr(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func loadContracts(files []string, prop string) *Contracts {
	curProp = prop
	th.buildLangs(append(specPatterns(files), th.rePats...))
	C := &Contracts{all: map[string]*Contract{}}
	var tops []*SX
	for _, f := range files {
		tops = append(tops, readSX(f)...)
	}
	for _, x := range tops {
		switch x.head() {
		case "contract":
			c := parseContract(x, nil)
			if _, dup := C.all[c.Name]; dup {
				errAt(x, "second contract for %s", c.Name)
			}
			C.all[c.Name] = c
			C.order = append(C.order, c.Name)
		case "inv":
			C.inv = append(C.inv, parseInv(x))
		case "lemma": // (lemma (props) "name" expr): a consequence of the contracts, discharged on its own
			if C.lems == nil {
				C.lems = map[string]clause{}
			}
			q := parseClause(x)
			C.lems["lemma "+q.name] = q
		case "private": // (private "pkg.Type"): code outside the repository's packages replaces, but never edits, what such a struct refers to
			if C.private == nil {
				C.private = map[string]bool{}
			}
			C.private[strings.Trim(x.List[1].Atom, "\"")] = true
		case "global": // (global "pkg.var" name): the content of a package variable, which no code changes
			if C.gname == nil {
				C.gname = map[string]string{}
			}
			C.gname[strings.TrimPrefix(x.List[1].Atom, "\"")] = x.List[2].Atom
		case "langfact":
			langFact(th, x)
		case "byprop": // (byprop name ((x A) ...) (C01 expr) ... (else expr)): a definition that depends on the property
			for _, y := range x.List[3:] {
				if a := y.List[0].Atom; a == prop || a == "else" {
					th.decl(&SX{IsL: true, Line: x.Line, List: []*SX{{Atom: "def"}, x.List[1], x.List[2], y.List[1]}})
					break
				}
			}
		default:
			th.decl(x)
		}
	}
	th.langAxioms()
	return C
}

func parseInv(x *SX) template {
	t := template{name: x.List[1].Atom, e: x.List[3]}
	for _, h := range x.List[2].List {
		p := pspec{name: h.List[0].Atom, typ: h.List[1].Atom}
		t.holes = append(t.holes, p)
	}
	return t
}

func atoms(xs []*SX) []string {
	var out []string
	for _, x := range xs {
		out = append(out, strings.TrimPrefix(x.Atom, "\""))
	}
	return out
}

func parseClause(x *SX) clause {
	// (ensures (tags) "name" expr)
	return clause{tags: atoms(x.List[1].List), name: strings.TrimPrefix(x.List[2].Atom, "\""), e: x.List[3]}
}

func parseContract(x *SX, parent *Contract) *Contract {
	c := &Contract{Name: strings.TrimPrefix(x.List[1].Atom, "\""), Assigns: map[string]bool{}, Parent: parent, Props: map[string]bool{}, line: x.Line}
	for _, y := range x.List[2:] {
		switch y.head() {
		case "params":
			for _, p := range y.List[1:] {
				if p.IsL {
					c.Params = append(c.Params, pspec{p.List[0].Atom, strings.TrimPrefix(p.List[1].Atom, "\"")})
				} else {
					c.Params = append(c.Params, pspec{p.Atom, ""})
				}
			}
		case "returns":
			c.Returns = atoms(y.List[1:])
		case "result":
			c.Result = strings.TrimPrefix(y.List[1].Atom, "\"")
		case "requires", "ensures", "panics":
			q := parseClause(y)
			if len(q.tags) > 0 && curProp != "" && !hasStr(q.tags, curProp) {
				continue
			}
			switch y.head() {
			case "requires":
				c.Requires = append(c.Requires, q)
			case "ensures":
				c.Ensures = append(c.Ensures, q)
			default:
				c.Panics = append(c.Panics, q)
			}
		case "nopanic":
			c.NoPanic = atoms(y.List[1:])
		case "assigns":
			for _, a := range atoms(y.List[1:]) {
				c.Assigns[a] = true
			}
		case "consumes":
			c.Consumes = atoms(y.List[1:])
			for _, a := range c.Consumes {
				c.Assigns[a] = true
			}
		case "keeps":
			for _, k := range y.List[1:] {
				c.Keeps = append(c.Keeps, [2]string{k.List[0].Atom, k.List[1].Atom})
			}
		case "live":
			for _, k := range y.List[1:] {
				c.Live = append(c.Live, [2]string{k.List[0].Atom, k.List[1].Atom})
			}
		case "closes":
			c.Closes = atoms(y.List[1:])
		case "inv":
			c.Invs = append(c.Invs, parseInv(y))
		case "rec":
			r := parseContract(y, c)
			c.Recs = append(c.Recs, r)
		case "exposed": // (exposed "key" ...): the function the object handed to the interpreter holds under this key
			c.Exposed = append(c.Exposed, parseContract(y, c))
		case "inline":
			c.Inline = true
		case "linear":
			c.Linear = true
		case "nullable":
			c.Nullable = true
		case "separately": // what the properties that rely on it say about it
			c.Separate = strings.Trim(y.List[1].Atom, "\"")
		case "trusted":
			c.Trusted = strings.TrimPrefix(y.List[1].Atom, "\"")
		case "props":
			for _, a := range atoms(y.List[1:]) {
				c.Props[a] = true
			}
		case "frametags":
			c.FTags = atoms(y.List[1:])
		default:
			errAt(y, "unknown contract item")
		}
	}
	return c
}

// ---- contract environments

type cenv struct {
	con    *Contract
	vals   map[string]Value
	types  map[string]types.Type
	entry  map[string]*Term
	parent *cenv
}

// child copies an environment so that results can be named in it.
func (e *cenv) child() *cenv {
	n := *e
	n.vals, n.types = map[string]Value{}, map[string]types.Type{}
	for k, v := range e.vals {
		n.vals[k] = v
	}
	for k, v := range e.types {
		n.types[k] = v
	}
	return &n
}

func (x *Exec) mkEnv(st *State, c *Contract, fn *ssa.Function, args, bind []Value, parent *cenv) *cenv {
	e := &cenv{con: c, vals: map[string]Value{}, types: map[string]types.Type{}, entry: map[string]*Term{}, parent: parent}
	idx, ok := c.bindParams(fn)
	if !ok {
		unsup("parameters of %s no longer fit its contract", fn)
	}
	for i, p := range c.Params {
		if p.name == "_" {
			continue
		}
		v := args[idx[i]]
		ty := fn.Params[idx[i]].Type()
		e.vals[p.name] = v
		e.types[p.name] = ty
		e.entry[p.name] = x.envTerm(st, v, ty)
	}
	// what a recursive closure captures goes by its name
	if parent != nil {
		for i, fv := range fn.FreeVars {
			if p, ok := bind[i].(VPtr); ok && e.vals[fv.Name()] == nil && st.objs[p.Obj].kind == oCell && !st.objs[p.Obj].strct && len(p.Path) == 0 {
				switch st.objs[p.Obj].f[0].(type) {
				case VT, VIface, VNil:
					e.vals[fv.Name()], e.types[fv.Name()], e.entry[fv.Name()] = p, fv.Type(), x.envTerm(st, p, fv.Type())
				}
			}
		}
	}
	return e
}

func (x *Exec) envTerm(st *State, v Value, ty types.Type) *Term {
	if p, ok := v.(VPtr); ok {
		o := st.objs[p.Obj]
		switch o.kind {
		case oWG:
			return o.n
		case oBuilder:
			return o.t
		case oCell:
			if !o.strct {
				return x.deep(st, o.f[0], th.sortOf(under(ty).(*types.Pointer).Elem()))
			}
			return x.deep(st, v, th.sortOf(o.typ))
		}
		return x.opq(v, "Opq")
	}
	if c, ok := v.(VChan); ok {
		return st.objs[c.Obj].t
	}
	if w, ok := v.(VIface); ok {
		if p, ok := w.Val.(VPtr); ok {
			return x.envTerm(st, p, w.Dyn)
		}
	}
	if _, ok := v.(VNil); ok && th.sortOf(ty) == "Int" {
		return intT(0)
	}
	return x.deep(st, v, th.sortOf(ty))
}

// evalEnv makes the evaluation environment: entry values, (post x), results, panic value.
func (x *Exec) clauseEnv(e *cenv, st *State, extra map[string]*Term) *evalEnv {
	ev := &evalEnv{vars: map[string]*Term{}}
	var chain []*cenv
	for k := e; k != nil; k = k.parent {
		chain = append(chain, k)
	}
	for i := len(chain) - 1; i >= 0; i-- {
		for n, t := range chain[i].entry {
			ev.vars[n] = t
		}
	}
	for n, t := range extra {
		ev.vars[n] = t
	}
	ev.outer = func(s *SX, _ *evalEnv) (*Term, bool) {
		switch s.head() {
		case "post", "now":
			for k := e; k != nil; k = k.parent {
				if v, ok := k.vals[s.List[1].Atom]; ok {
					return x.envTerm(st, v, k.types[s.List[1].Atom]), true
				}
			}
			errAt(s, "no parameter %s", s.List[1].Atom)
		case "isclosed":
			for k := e; k != nil; k = k.parent {
				if v, ok := k.vals[s.List[1].Atom]; ok {
					return st.objs[v.(VChan).Obj].closed, true
				}
			}
		case "chancap":
			for k := e; k != nil; k = k.parent {
				if v, ok := k.vals[s.List[1].Atom]; ok {
					if c := st.objs[v.(VChan).Obj].cap; c != nil {
						return c, true
					}
					return intT(-1), true // no limit
				}
			}
		case "isnil":
			for k := e; k != nil; k = k.parent {
				if v, ok := k.vals[s.List[1].Atom]; ok {
					if p, ok := v.(VSlice); ok && p.Obj != 0 {
						return x.sliceNil(st, p), true
					}
					if n, known := isNilV(v); known {
						return boolT(n), true
					}
				}
			}
			if t, ok := ev.vars[s.List[1].Atom]; ok && t.Sort == "V" {
				return Eq(t, App("V_nil")), true
			}
		case "sameobj":
			a, b := x.fieldObj(e, st, s.List[1]), x.fieldObj(e, st, s.List[2])
			if a == 0 || b == 0 {
				return fresh("same", "Bool"), true
			}
			return boolT(a == b), true
		case "members": // what a document behind the interface holds now
			d := elab(s.List[1], ev)
			srt := th.sortOf(mapAnyT)
			if id, ok := st.box[x.ufun("insidesptr", "Opq", d)]; ok {
				return x.deep(st, x.load(st, VPtr{Obj: id}, mapAnyT), srt), true
			}
			return x.ufun("insidesof", srt, d), true
		case "vmnow": // the state of the interpreter that a call comes from
			for k := e; k != nil; k = k.parent {
				if v, ok := k.vals[s.List[1].Atom].(VStruct); ok {
					for _, f := range v.F {
						if p, ok := f.(VPtr); ok && st.objs[p.Obj] != nil && st.objs[p.Obj].kind == oVM {
							return st.objs[p.Obj].t, true
						}
					}
				}
			}
			errAt(s, "no interpreter")
		case "localpanic":
			t := elab(s.List[1], ev)
			return localPanic(t), true
		case "repotype":
			t := elab(s.List[1], ev)
			return repoStruct(t), true
		case "timerfirst": // the first message of a goroutine came from one that slept
			if st.first == nil {
				return False, true
			}
			return st.first, true
		case "delivered":
			return boolT(st.first != nil), true
		case "timerdelay":
			if st.delay == nil {
				return intT(0), true
			}
			return st.delay, true
		case "global":
			return x.globalTerm(st, strings.TrimPrefix(s.List[1].Atom, "\"")), true
		}
		return nil, false
	}
	return ev
}

// fieldObj: the object that (name field) refers to, 0 when it is none we follow.
func (x *Exec) fieldObj(e *cenv, st *State, s *SX) int {
	for k := e; k != nil; k = k.parent {
		v, ok := k.vals[s.List[0].Atom]
		if !ok {
			continue
		}
		if w, ok := v.(VIface); ok {
			v = w.Val
		}
		p, ok := v.(VPtr)
		if !ok || len(p.Path) > 0 {
			return 0
		}
		o := st.objs[p.Obj]
		t, ok := under(o.typ).(*types.Struct)
		if !ok || !o.strct {
			return 0
		}
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == s.List[1].Atom {
				switch f := o.f[i].(type) {
				case VMap:
					return f.Obj
				case VSlice:
					return f.Obj
				case VPtr:
					return f.Obj
				}
			}
		}
	}
	return 0
}

// localPanic: a value of a type declared inside a function of the repository.
func localPanic(t *Term) *Term {
	var os []*Term
	for c, ty := range th.vtype {
		if n, ok := types.Unalias(ty).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Parent() != n.Obj().Pkg().Scope() {
			os = append(os, App("is-"+c, t))
		}
	}
	return Or(os...)
}

func repoStruct(t *Term) *Term {
	var os []*Term
	for c, ty := range th.vtype {
		if n, ok := types.Unalias(ty).(*types.Named); ok && repoType(n) {
			os = append(os, App("is-"+c, t))
		}
	}
	return Or(os...)
}

func (x *Exec) globalTerm(st *State, name string) *Term {
	for g := range x.globals {
		if shortName(g.String()) == name {
			id, ok := x.globalObj(st, g)
			if !ok {
				break
			}
			o := st.objs[id]
			if o.strct {
				return x.structTerm(st, o.typ, o.f)
			}
			return x.deep(st, o.f[0], th.sortOf(g.Type().(*types.Pointer).Elem()))
		}
	}
	for _, p := range x.prog.AllPackages() {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.NamedConst); ok && shortName(p.Pkg.Path()+"."+g.Name()) == name {
				return x.constVal(st, g.Value).(VT).T
			}
			if g, ok := m.(*ssa.Global); ok && shortName(g.String()) == name {
				v := x.globalPtr(st, g)
				return x.envTerm(st, v, g.Type())
			}
		}
	}
	panic(fmt.Sprintf("no global %s", name))
}

type recInfo struct {
	con  *Contract
	env  *cenv
	mods map[int]bool
	fn   *ssa.Function
}

// apply uses a callee's contract at a call.
func (x *Exec) apply(st *State, c *Contract, fn *ssa.Function, args, bind []Value, info *recInfo, pos string, k func(Outcome)) {
	parent := x.env
	if info != nil {
		parent = info.env
	} else {
		parent = nil
	}
	e := x.mkEnv(st, c, fn, args, bind, parent)
	for _, r := range c.Requires {
		g := elab(r.e, x.clauseEnv(e, st, nil))
		x.oblige(st, g, fmt.Sprintf("precondition of %s (%s) at %s", c.Name, r.name, pos), r.tags)
	}
	if st.dead {
		return
	}
	// effects
	for _, p := range c.Params {
		if v, ok := e.vals[p.name]; ok && c.Assigns[p.name] {
			consumed := false
			for _, q := range c.Consumes {
				consumed = consumed || q == p.name
			}
			keep := map[string]bool{}
			for _, kp := range c.Keeps {
				if kp[0] == p.name {
					keep[kp[1]] = true
				}
			}
			x.havocArgBut(st, v, e.types[p.name], consumed, "passed to "+c.Name+" at "+pos, keep)
		}
	}
	if info != nil {
		for id := range info.mods {
			if st.objs[id] != nil {
				x.havocObj(st, id, st.objs[id].owner)
			}
		}
	}
	for _, n := range c.Closes {
		if ch, ok := e.vals[n].(VChan); ok {
			o := st.objs[ch.Obj].clone()
			o.closed = True
			st.objs[ch.Obj] = o
		}
	}
	if len(c.Panics) > 0 {
		s2 := st.clone()
		pv := fresh("pv", "V")
		s2.assume(Not(Eq(pv, App("V_nil"))))
		for _, p := range c.Panics {
			s2.assume(elab(p.e, x.clauseEnv(e, s2, map[string]*Term{"pv": pv})))
		}
		if x.feasible(s2) {
			k(Outcome{st: s2, panic: true, val: VT{T: pv}, pos: pos})
		}
	}
	res := fn.Signature.Results()
	var out VTuple
	extra := map[string]*Term{}
	e = e.child()
	for i := 0; i < res.Len(); i++ {
		v := x.freshVal(st, "r", res.At(i).Type(), "fresh")
		out = append(out, v)
		if i < len(c.Returns) {
			extra[c.Returns[i]] = x.envTerm(st, v, res.At(i).Type())
			e.vals[c.Returns[i]], e.types[c.Returns[i]] = v, res.At(i).Type()
		}
	}
	for _, q := range c.Ensures {
		st.assume(elab(q.e, x.clauseEnv(e, st, extra)))
	}
	if st.dead || !x.feasible(st) {
		if os.Getenv("VF_FORKS") != "" {
			fmt.Fprintf(os.Stderr, "after %s: not feasible (dead %v)\n", c.Name, st.dead)
			for _, t := range st.pc {
				fmt.Fprintf(os.Stderr, "   %s\n", t)
			}
		}
		return
	}
	switch len(out) {
	case 0:
		k(Outcome{st: st})
	case 1:
		k(Outcome{st: st, val: out[0]})
	default:
		k(Outcome{st: st, val: out})
	}
}

// havocArg forgets what a call may have changed through an argument.
func (x *Exec) havocArg(st *State, v Value, ty types.Type, consumed bool, what string) {
	x.havocArgBut(st, v, ty, consumed, what, nil)
}

func (x *Exec) havocArgBut(st *State, v Value, ty types.Type, consumed bool, what string, keep map[string]bool) {
	switch w := v.(type) {
	case VIface:
		x.havocArgBut(st, w.Val, w.Dyn, consumed, what, keep)
	case VPtr:
		o := st.objs[w.Obj]
		if len(w.Path) > 0 || w.Idx != nil {
			// a field or element: replace it
			x.store(st, w, x.freshVal(st, "h", under(ty).(*types.Pointer).Elem(), o.owner), under(ty).(*types.Pointer).Elem(), what)
			return
		}
		x.checkWrite(st, w.Obj, what)
		if o.kind == oCell {
			for i, f := range o.f {
				if o.strct && keep[under(o.typ).(*types.Struct).Field(i).Name()] {
					continue
				}
				switch g := f.(type) {
				case VMap:
					if g.Obj != 0 && !(x.outside && o.strct && x.C.private[shortName(typeKey(o.typ))]) {
						x.checkWrite(st, g.Obj, what)
						x.havocObj(st, g.Obj, st.objs[g.Obj].owner)
					}
				case VPtr:
					if s := st.objs[g.Obj]; s != nil && s.kind == oCell && s.strct && repoNamed(s.typ) {
						x.havocArg(st, g, types.NewPointer(s.typ), false, what)
					} else if s != nil && s.kind == oBuilder {
						x.havocObj(st, g.Obj, s.owner)
					}
				}
			}
		}
		x.havocObjBut(st, w.Obj, o.owner, keep)
	case VMap:
		if w.Obj != 0 {
			x.checkWrite(st, w.Obj, what)
			x.havocObj(st, w.Obj, st.objs[w.Obj].owner)
		}
	case VSlice:
		if w.Obj != 0 {
			x.checkWrite(st, w.Obj, what)
			n := App("len."+st.objs[w.Obj].t.Sort, st.objs[w.Obj].t)
			x.havocObj(st, w.Obj, st.objs[w.Obj].owner)
			st.assume(Eq(App("len."+st.objs[w.Obj].t.Sort, st.objs[w.Obj].t), n))
		}
	case VChan:
		x.havocObj(st, w.Obj, st.objs[w.Obj].owner)
	case VT:
		if w.T.Sort != "V" {
			return
		}
		if id, ok := st.box[w.T]; ok {
			x.checkWrite(st, id, what)
			x.havocObj(st, id, st.objs[id].owner)
			return
		}
		if w.Org != nil && consumed {
			h := st.objs[w.Org.obj]
			if h == nil {
				return
			}
			x.checkWrite(st, w.Org.obj, what)
			f := fresh("moved", "V")
			if h.kind == oMap {
				x.setContent(st, w.Org.obj, App("store."+h.t.Sort, h.t, w.Org.key, f))
			} else {
				x.setContent(st, w.Org.obj, App("upd."+h.t.Sort, h.t, w.Org.key, f))
			}
		}
	}
}

func repoNamed(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && repoType(n)
}

// havocObj forgets an object's content.
func (x *Exec) havocObj(st *State, id int, owner string) { x.havocObjBut(st, id, owner, nil) }

func (x *Exec) havocObjBut(st *State, id int, owner string, keep map[string]bool) {
	o := st.objs[id].clone()
	st.objs[id] = o
	switch o.kind {
	case oMap, oSeq:
		o.vals = nil
		o.t = fresh("h", o.t.Sort)
		x.propagate(st, id, 0)
	case oChan, oBuilder, oVM:
		o.t = fresh("h", o.t.Sort)
	case oWG:
		o.n = fresh("wg", "Int")
	case oCell:
		o.f = append([]Value{}, o.f...)
		if o.strct {
			s := under(o.typ).(*types.Struct)
			for i := range o.f {
				if _, isP := o.f[i].(VPtr); isP || keep[s.Field(i).Name()] {
					continue
				}
				o.f[i] = x.freshVal(st, "h", s.Field(i).Type(), owner)
			}
		} else {
			if _, isP := o.f[0].(VPtr); isP {
				return
			}
			if _, isF := o.f[0].(VFn); isF {
				return
			}
			o.f[0] = x.freshVal(st, "h", o.typ, owner)
		}
	}
}

// verifyRec verifies a recursive closure where it is first called, for arbitrary arguments, and then uses its contract.
func (x *Exec) verifyRec(fr *Frame, st *State, c *Contract, f VFn, args []Value, pos string, k func(Outcome)) {
	fn := f.Fn
	info := &recInfo{con: c, env: x.env, mods: map[int]bool{}, fn: fn}
	for k := c; k != nil; k = k.Parent {
		for _, l := range k.Live {
			if id := x.fieldObj(x.env, st, lst(l[0], l[1])); id != 0 {
				info.mods[id] = true
			}
		}
	}
	if m, ok := x.recMods[fn]; ok && x.silent > 0 {
		info.mods = m
	} else {
		for round := 0; ; round++ {
			if round > 6 {
				unsup("effects of %s do not settle", fn)
			}
			x.silent++
			x.recBody(st, c, f, info)
			x.silent--
			if !x.recGrew {
				break
			}
		}
		x.recMods[fn] = info.mods
		if x.silent == 0 {
			x.recBody(st, c, f, info)
		}
	}
	x.recUsed[c.Name] = true
	x.apply(st, c, fn, args, f.Bind, info, pos, k)
}

func (x *Exec) recBody(st *State, c *Contract, f VFn, info *recInfo) {
	x.recGrew = false
	base := st.clone()
	for id := range info.mods {
		x.havocObj(base, id, base.objs[id].owner)
	}
	mark := x.nobj
	fn := f.Fn
	x.verifyBody(base, c, fn, f.Bind, info, func(o Outcome, start map[int]*Obj) {
		for id, ob := range o.st.objs {
			if id > mark {
				continue
			}
			was := start[id]
			if was != ob && !info.mods[id] && changed(was, ob) {
				info.mods[id] = true
				x.recGrew = true
			}
		}
	})
}

func changed(a, b *Obj) bool {
	if a == nil || b == nil {
		return a != b
	}
	if a.t != b.t || a.n != b.n || a.closed != b.closed {
		return true
	}
	if len(a.f) != len(b.f) {
		return true
	}
	for i := range a.f {
		if fmt.Sprint(a.f[i]) != fmt.Sprint(b.f[i]) {
			return true
		}
	}
	return false
}

// verifyBody runs a function for arbitrary arguments under its contract and checks every outcome.
func (x *Exec) verifyBody(st *State, c *Contract, fn *ssa.Function, bind []Value, info *recInfo, seen func(Outcome, map[int]*Obj)) {
	oldTop, oldEnv := x.top, x.env
	oldGo, oldMarks := x.goDepth, x.goMarks
	x.goDepth, x.goMarks = 0, nil
	defer func() {
		x.top, x.env = oldTop, oldEnv
		x.goDepth, x.goMarks = oldGo, oldMarks
		if info != nil {
			delete(x.active, fn)
		}
	}()
	if info != nil {
		x.active[fn] = info
	}
	x.top = c
	variants := 1
	if c.Nullable {
		variants = 2
	}
	for v := 0; v < variants; v++ {
		s := st.clone()
		var args []Value
		idx, ok := c.bindParams(fn)
		if !ok {
			unsup("parameters of %s no longer fit its contract", fn)
		}
		names := map[int]string{}
		for i, j := range idx {
			names[j] = c.Params[i].name
		}
		for i, p := range fn.Params {
			nm := names[i]
			if nm == "" {
				nm = fmt.Sprintf("arg%d", i)
			}
			if v == 1 {
				if pt, ok := p.Type().Underlying().(*types.Pointer); ok && typeKey(pt.Elem()) == "sync.WaitGroup" {
					args = append(args, VNil{p.Type()})
					continue
				}
			}
			a := x.freshVal(s, nm, p.Type(), "param:"+c.Name+":"+nm)
			x.ownTerm(a, "param:"+c.Name+":"+nm)
			args = append(args, a)
		}
		var parent *cenv
		if info != nil {
			parent = info.env
		}
		e := x.mkEnv(s, c, fn, args, bind, parent)
		x.env = e
		for _, r := range c.Requires {
			s.assume(elab(r.e, x.clauseEnv(e, s, nil)))
		}
		if x.silent == 0 {
			x.canary(s, c.Name+": the precondition can hold")
		}
		start := map[int]*Obj{}
		for id, o := range s.objs {
			start[id] = o
		}
		outs := 0
		x.run(nil, fn, args, bind, -1, s, c, func(o Outcome) {
			outs++
			savedTop, savedEnv := x.top, x.env
			x.top, x.env = c, e
			defer func() { x.top, x.env = savedTop, savedEnv }()
			if seen != nil {
				seen(o, start)
			}
			if showCover && x.silent == 0 {
				fmt.Fprintf(os.Stderr, "cover: outcome of %s, contradiction found: %v\n", c.Name, x.sol.unsat(o.st.pc, True, rlProve))
			}
			x.checkKeeps(o, c, e, start)
			x.checkOutcome(o, c, e, fn)
		})
		if outs == 0 && x.silent == 0 {
			x.note("no path of %s ends", c.Name)
			x.addObl(&Obligation{Name: "some path of " + c.Name + " ends", Fn: c.Name, Status: "open", Vacuous: true})
		}
	}
}

func (x *Exec) ownTerm(v Value, owner string) {
	if vt, ok := v.(VT); ok && vt.T.Sort == "V" {
		x.termOwner[vt.T] = owner
	}
}

func (x *Exec) checkOutcome(o Outcome, c *Contract, e *cenv, fn *ssa.Function) {
	st := o.st
	if o.panic {
		pv := x.deep(st, o.val, "V")
		if len(c.Panics) == 0 {
			x.oblige(st, False, fmt.Sprintf("%s does not panic (%s)", c.Name, o.pos), c.NoPanic)
			return
		}
		for _, p := range c.Panics {
			g := elab(p.e, x.clauseEnv(e, st, map[string]*Term{"pv": pv}))
			x.oblige(st, g, fmt.Sprintf("%s panics only as stated: %s (%s)", c.Name, p.name, o.pos), p.tags)
		}
		return
	}
	for _, q := range c.Exposed {
		x.oblige(st, boolT(hasStr(st.exposed, q.Name)), c.Name+" gives the interpreter an object with the function "+q.Name, nil)
	}
	extra := map[string]*Term{}
	res := fn.Signature.Results()
	for i := 0; i < res.Len() && i < len(c.Returns); i++ {
		v := o.val
		if res.Len() > 1 {
			v = o.val.(VTuple)[i]
		}
		extra[c.Returns[i]] = x.envTerm(st, v, res.At(i).Type())
		if i == 0 {
			e = e.child()
		}
		e.vals[c.Returns[i]], e.types[c.Returns[i]] = v, res.At(i).Type()
	}
	for _, q := range c.Ensures {
		g := elab(q.e, x.clauseEnv(e, st, extra))
		x.oblige(st, g, fmt.Sprintf("%s ensures %s", c.Name, q.name), q.tags)
	}
}

// checkKeeps: the fields a contract keeps refer to the same object with the same content.
func (x *Exec) checkKeeps(o Outcome, c *Contract, e *cenv, start map[int]*Obj) {
	for _, kp := range c.Keeps {
		v := e.vals[kp[0]]
		if w, ok := v.(VIface); ok {
			v = w.Val
		}
		p, ok := v.(VPtr)
		if !ok {
			continue
		}
		was, now := start[p.Obj], o.st.objs[p.Obj]
		s := under(was.typ).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != kp[1] {
				continue
			}
			same := False
			if a, ok := was.f[i].(VMap); ok {
				if b, ok := now.f[i].(VMap); ok && a.Obj == b.Obj {
					same = Eq(start[a.Obj].t, o.st.objs[a.Obj].t)
				}
			}
			x.oblige(o.st, same, fmt.Sprintf("%s leaves %s.%s as it is", c.Name, kp[0], kp[1]), nil)
		}
	}
}

func (x *Exec) canary(st *State, name string) {
	x.canaries++
	if x.sol.unsat(st.pc, True, rlProve) {
		x.addObl(&Obligation{Name: "vacuity: " + name, Fn: x.curFn(), Status: "open", Vacuous: true})
	}
}
