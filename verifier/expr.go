package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Elaboration of s-expressions into terms. Overloaded heads are resolved by the sort of their arguments.

type def struct {
	params []string
	sorts  []string
	body   *SX
}

type evalEnv struct {
	vars  map[string]*Term
	outer func(x *SX, e *evalEnv) (*Term, bool) // contract-level names and special forms
	depth int                                   // quantifiers around the expression
}

func (e *evalEnv) child() *evalEnv {
	n := &evalEnv{vars: map[string]*Term{}, outer: e.outer, depth: e.depth}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return n
}

var overload = map[string]bool{"len": true, "at": true, "build": true, "app": true, "upd": true, "take": true, "drop": true, "mem": true, "seqeq": true,
	"has": true, "get": true, "store": true, "del": true, "card": true, "enum": true, "count": true, "badd": true, "bunion": true, "bcard": true, "bagof": true, "bageq": true, "mapeq": true, "pos": true}

func errAt(x *SX, f string, a ...any) {
	panic(fmt.Sprintf("contract line %d: %s in %s", x.Line, fmt.Sprintf(f, a...), x))
}

func elab(x *SX, e *evalEnv) *Term {
	if e.outer != nil {
		if t, ok := e.outer(x, e); ok {
			return t
		}
	}
	if !x.IsL {
		a := x.Atom
		if t, ok := e.vars[a]; ok {
			return t
		}
		if strings.HasPrefix(a, "\"") {
			return strLit(a[1:])
		}
		if n, err := strconv.ParseInt(a, 10, 64); err == nil {
			return intT(n)
		}
		switch a {
		case "true":
			return True
		case "false":
			return False
		}
		if d, ok := th.defs[a]; ok && len(d.params) == 0 {
			return elab(d.body, &evalEnv{vars: map[string]*Term{}, outer: e.outer, depth: e.depth})
		}
		if s, ok := funcSig[a]; ok && len(s) == 1 {
			return App(a)
		}
		errAt(x, "unknown name %s", a)
	}
	h := x.head()
	if h == "" {
		errAt(x, "bad expression")
	}
	switch h {
	case "forall", "exists":
		n := e.child()
		n.depth++
		// nested quantifiers bind different names, so that expanding a definition under a quantifier captures nothing
		suffix := "_q"
		if e.depth > 0 {
			suffix += strconv.Itoa(e.depth)
		}
		var bs []*Term
		for _, b := range x.List[1].List {
			v := mkVar(b.List[0].Atom+suffix, b.List[1].Atom)
			n.vars[b.List[0].Atom] = v
			bs = append(bs, v)
		}
		body := elab(x.List[2], n)
		var pats [][]*Term
		for _, p := range x.List[3:] {
			if p.head() != "pat" {
				errAt(p, "want (pat ...)")
			}
			var ps []*Term
			for _, q := range p.List[1:] {
				ps = append(ps, elab(q, n))
			}
			pats = append(pats, ps)
		}
		return quant(h, bs, body, pats)
	case "let":
		n := e.child()
		for _, b := range x.List[1].List {
			n.vars[b.List[0].Atom] = elab(b.List[1], n)
		}
		return elab(x.List[2], n)
	case "istype":
		want := strings.TrimPrefix(x.List[1].Atom, "\"")
		t := elab(x.List[2], e)
		for c, ty := range th.vtype {
			if tkey(ty) == want {
				return App("is-"+c, t)
			}
		}
		return False
	case "astype": // (astype "T" v): the value of that dynamic type
		want := strings.TrimPrefix(x.List[1].Atom, "\"")
		t := elab(x.List[2], e)
		for c, ty := range th.vtype {
			if tkey(ty) == want {
				return App("un"+c, t)
			}
		}
		errAt(x, "no dynamic type %s", want)
	case "mkdyn": // (mkdyn "T" v): the value v in an interface
		want := strings.TrimPrefix(x.List[1].Atom, "\"")
		for c, ty := range th.vtype {
			if tkey(ty) == want {
				return App(c, elab(x.List[2], e))
			}
		}
		errAt(x, "no dynamic type %s", want)
	case "code": // (code "pkg.F"): that function as a value
		k := "Fn:fn " + strings.TrimPrefix(x.List[1].Atom, "\"")
		if opqNames[k] == nil {
			name := "code_" + sanitize(k)
			funcSig[name] = []string{"Fn"}
			th.userFuns = append(th.userFuns, name)
			opqNames[k] = App(name)
		}
		return opqNames[k]
	case "empty":
		return App("empty." + x.List[1].Atom)
	case "mempty":
		return App("mempty." + x.List[1].Atom)
	case "bempty":
		return App("bempty." + x.List[1].Atom)
	case "rep":
		v := elab(x.List[2], e)
		return App("rep."+th.seqSort(v.Sort), elab(x.List[1], e), v)
	case "case": // (case (cond expr) ... (else expr))
		var r *Term
		for i := len(x.List) - 1; i >= 1; i-- {
			c := x.List[i]
			b := elab(c.List[1], e)
			if c.List[0].Atom == "else" && !c.List[0].IsL {
				r = b
				continue
			}
			if r == nil {
				errAt(x, "case without else")
			}
			r = Ite(elab(c.List[0], e), b, r)
		}
		return r
	}
	var args []*Term
	if langForms[h] {
		for _, a := range x.List[2:] {
			args = append(args, elab(a, e))
		}
		return langForm(x, args)
	}
	for _, a := range x.List[1:] {
		args = append(args, elab(a, e))
	}
	if d, ok := th.defs[h]; ok {
		if len(d.params) != len(args) {
			errAt(x, "%s wants %d arguments", h, len(d.params))
		}
		n := &evalEnv{vars: map[string]*Term{}, outer: nil, depth: e.depth}
		for i, p := range d.params {
			if args[i].Sort != d.sorts[i] {
				errAt(x, "argument %d of %s has sort %s, want %s", i, h, args[i].Sort, d.sorts[i])
			}
			n.vars[p] = args[i]
		}
		return elab(d.body, n)
	}
	if overload[h] {
		name := map[string]string{"seqeq": "eq", "bageq": "eq", "mapeq": "eq"}[h]
		if name == "" {
			name = h
		}
		s := args[0].Sort
		switch h {
		case "enum":
			s = args[1].Sort
		case "bagof":
			s = th.bagSort(th.seqElem[s])
		case "pos":
			s = args[2].Sort // (pos P k m): m only fixes the sort
			args = args[:2]
		}
		return App(name+"."+s, args...)
	}
	defer func() {
		if r := recover(); r != nil {
			panic(fmt.Sprintf("%v\n  in contract line %d: %s", r, x.Line, x))
		}
	}()
	if len(args) == 2 && h == "=" && args[0].Sort != args[1].Sort {
		errAt(x, "sorts %s and %s", args[0].Sort, args[1].Sort)
	}
	return App(h, args...)
}

// loadTheory reads a theory file: (fun f (A B) R), (def f ((x A) ...) body), (axiom name expr), (sort S).
func (t *theory) load(file string) {
	for _, x := range readSX(file) {
		t.decl(x)
	}
}

func (t *theory) decl(x *SX) {
	switch x.head() {
	case "sort":
		t.declSort(x.List[1].Atom)
	case "seq":
		t.seqSort(x.List[1].Atom)
	case "bag":
		t.bagSort(x.List[1].Atom)
	case "map":
		t.mapSort(x.List[1].Atom, x.List[2].Atom)
	case "fun":
		var sig []string
		for _, a := range x.List[2].List {
			sig = append(sig, a.Atom)
		}
		sig = append(sig, x.List[3].Atom)
		for _, s := range sig {
			if !t.knownSort(s) {
				errAt(x, "unknown sort %s", s)
			}
		}
		if _, dup := funcSig[x.List[1].Atom]; dup {
			errAt(x, "second function of this name")
		}
		funcSig[x.List[1].Atom] = sig
		t.userFuns = append(t.userFuns, x.List[1].Atom)
	case "def":
		d := &def{body: x.List[3]}
		for _, b := range x.List[2].List {
			d.params = append(d.params, b.List[0].Atom)
			d.sorts = append(d.sorts, b.List[1].Atom)
		}
		t.defs[x.List[1].Atom] = d
	case "axiom":
		t.axioms = append(t.axioms, axiom{name: x.List[1].Atom, t: stepPatterns(elab(x.List[2], &evalEnv{vars: map[string]*Term{}}))})
	default:
		errAt(x, "unknown theory item")
	}
}

func (t *theory) knownSort(s string) bool {
	switch s {
	case "Int", "Bool", "V", "Str":
		return true
	}
	if t.sortSet[s] {
		return true
	}
	for _, d := range t.data {
		if d == s {
			return true
		}
	}
	return false
}

// stepPatterns turns a pattern f(.., n+1, ..) into the pair f(.., m, ..), f(.., n, ..) with m = n+1: sums are poor triggers.
func stepPatterns(q *Term) *Term {
	if q.Op != "forall" {
		return q
	}
	for _, ps := range q.Pats {
		for _, p := range ps {
			for _, a := range p.Args {
				if a.Op != "+" {
					continue
				}
				var v *Term
				for _, b := range q.Bound {
					for _, c := range a.Args {
						if c == b {
							v = b
						}
					}
				}
				if v == nil {
					continue
				}
				m := mkVar(v.Op+"_next", "Int")
				at := subst(p, map[*Term]*Term{a: m})
				before := subst(p, map[*Term]*Term{a: v})
				pat := []*Term{at, before}
				for _, o := range ps {
					if o != p {
						pat = append(pat, o)
					}
				}
				body := subst(q.Args[0], map[*Term]*Term{a: m})
				body = raw("=>", "Bool", raw("=", "Bool", m, a), body)
				return quant("forall", append(append([]*Term{}, q.Bound...), m), body, [][]*Term{pat})
			}
		}
	}
	return q
}
