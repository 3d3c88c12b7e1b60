package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Hash-consed first-order terms with sorts, and a light simplifier. A term is what reaches the SMT solver.

type Term struct {
	id    int
	Op    string  // function symbol, literal text, variable name, "forall"/"exists"
	Args  []*Term // for quantifiers: body only
	Sort  string
	Bound []*Term   // quantifier variables
	Pats  [][]*Term // quantifier triggers
	Var   bool      // bound variable
}

var termTab = map[string]*Term{}
var termMu = newLock()
var termSeq int

func key(op, srt string, args []*Term, bound []*Term, pats [][]*Term) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(srt)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range bound {
		b.WriteString("|b")
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, p := range pats {
		b.WriteString("|p")
		for _, a := range p {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	return b.String()
}

func raw(op, srt string, args ...*Term) *Term {
	for i, a := range args {
		if a == nil {
			panic(fmt.Sprintf("nil argument %d of %s", i, op))
		}
	}
	k := key(op, srt, args, nil, nil)
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, Op: op, Sort: srt, Args: args}
	termTab[k] = t
	return t
}

func mkVar(name, srt string) *Term {
	k := "var|" + name + "|" + srt
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, Op: name, Sort: srt, Var: true}
	termTab[k] = t
	return t
}

func quant(q string, bound []*Term, body *Term, pats [][]*Term) *Term {
	if len(bound) == 0 || body == True || body == False {
		return body
	}
	k := key(q, "Bool", []*Term{body}, bound, pats)
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, Op: q, Sort: "Bool", Args: []*Term{body}, Bound: bound, Pats: pats}
	termTab[k] = t
	return t
}

var (
	True  = raw("true", "Bool")
	False = raw("false", "Bool")
)

func intT(n int64) *Term { return raw(strconv.FormatInt(n, 10), "Int") }
func boolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isInt() (int64, bool) {
	if t.Sort != "Int" || len(t.Args) > 0 {
		return 0, false
	}
	n, err := strconv.ParseInt(t.Op, 10, 64)
	return n, err == nil
}

var freshSeq = map[string]int{}

// fresh makes a new uninterpreted constant.
func fresh(hint, srt string) *Term {
	hint = sanitize(hint) + "_" + srt
	termMu.Lock()
	freshSeq[hint]++
	n := freshSeq[hint]
	termMu.Unlock()
	return raw(fmt.Sprintf("%s!%d", hint, n), srt)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "x"
	}
	return b.String()
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not":
		return a.Args[0]
	case a.Op == "<":
		return raw("<=", "Bool", a.Args[1], a.Args[0])
	case a.Op == "<=":
		return raw("<", "Bool", a.Args[1], a.Args[0])
	}
	return raw("not", "Bool", a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == True || seen[t] {
			continue
		}
		if t == False || seen[Not(t)] {
			return False
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if seen[a] {
					continue
				}
				if seen[Not(a)] {
					return False
				}
				seen[a] = true
				out = append(out, a)
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("and", "Bool", out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == False || seen[t] {
			continue
		}
		if t == True || seen[Not(t)] {
			return True
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("or", "Bool", out...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	return raw("=>", "Bool", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	return raw("ite", a.Sort, c, a, b)
}

// ctorOf reports the datatype constructor at the head of t.
func ctorOf(t *Term) (string, bool) {
	if _, ok := ctors[t.Op]; ok {
		return t.Op, true
	}
	return "", false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("sort mismatch in =: %s : %s  vs  %s : %s", a, a.Sort, b, b.Sort))
	}
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			return boolT(x == y)
		}
	}
	if a.Sort == "Bool" {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if isStrLit(a) && isStrLit(b) {
		return False
	}
	if ca, ok := ctorOf(a); ok {
		if cb, ok := ctorOf(b); ok {
			if ca != cb {
				return False
			}
			var es []*Term
			for i := range a.Args {
				es = append(es, Eq(a.Args[i], b.Args[i]))
			}
			return And(es...)
		}
	}
	if a.Sort == "Int" {
		// cancel a common linear part
		d := linSub(lin(a), lin(b))
		if len(d.co) == 0 {
			return boolT(d.k.Sign() == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw("=", "Bool", a, b)
}

// ---- linear integer normal form

type linear struct {
	co map[*Term]*big.Int
	k  *big.Int
}

func lin(t *Term) linear {
	l := linear{map[*Term]*big.Int{}, big.NewInt(0)}
	linAdd(&l, t, big.NewInt(1))
	return l
}

func linAdd(l *linear, t *Term, c *big.Int) {
	if n, ok := t.isInt(); ok {
		l.k = new(big.Int).Add(l.k, new(big.Int).Mul(c, big.NewInt(n)))
		return
	}
	switch t.Op {
	case "+":
		for _, a := range t.Args {
			linAdd(l, a, c)
		}
		return
	case "-":
		if len(t.Args) == 1 {
			linAdd(l, t.Args[0], new(big.Int).Neg(c))
			return
		}
		linAdd(l, t.Args[0], c)
		for _, a := range t.Args[1:] {
			linAdd(l, a, new(big.Int).Neg(c))
		}
		return
	case "*":
		if n, ok := t.Args[0].isInt(); ok {
			linAdd(l, t.Args[1], new(big.Int).Mul(c, big.NewInt(n)))
			return
		}
	}
	o := l.co[t]
	if o == nil {
		o = big.NewInt(0)
	}
	o = new(big.Int).Add(o, c)
	if o.Sign() == 0 {
		delete(l.co, t)
	} else {
		l.co[t] = o
	}
}

func linSub(a, b linear) linear {
	r := linear{map[*Term]*big.Int{}, new(big.Int).Sub(a.k, b.k)}
	for t, c := range a.co {
		r.co[t] = new(big.Int).Set(c)
	}
	for t, c := range b.co {
		o := r.co[t]
		if o == nil {
			o = big.NewInt(0)
		}
		o = new(big.Int).Sub(o, c)
		if o.Sign() == 0 {
			delete(r.co, t)
		} else {
			r.co[t] = o
		}
	}
	return r
}

func (l linear) term() *Term {
	var ts []*Term
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		c := l.co[t]
		if c.IsInt64() && c.Int64() == 1 {
			out = append(out, t)
		} else {
			out = append(out, raw("*", "Int", raw(c.String(), "Int"), t))
		}
	}
	if l.k.Sign() != 0 || len(out) == 0 {
		out = append(out, raw(l.k.String(), "Int"))
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("+", "Int", out...)
}

func Add(a, b *Term) *Term {
	l := lin(a)
	linAdd(&l, b, big.NewInt(1))
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := lin(a)
	linAdd(&l, b, big.NewInt(-1))
	return l.term()
}
func Mul(a, b *Term) *Term {
	if _, ok := a.isInt(); ok {
		l := linear{map[*Term]*big.Int{}, big.NewInt(0)}
		n, _ := a.isInt()
		linAdd(&l, b, big.NewInt(n))
		return l.term()
	}
	if _, ok := b.isInt(); ok {
		return Mul(b, a)
	}
	return raw("*", "Int", a, b)
}
func Lt(a, b *Term) *Term {
	d := linSub(lin(b), lin(a))
	if len(d.co) == 0 {
		return boolT(d.k.Sign() > 0)
	}
	return raw("<", "Bool", a, b)
}
func Le(a, b *Term) *Term {
	d := linSub(lin(b), lin(a))
	if len(d.co) == 0 {
		return boolT(d.k.Sign() >= 0)
	}
	return raw("<=", "Bool", a, b)
}

// ---- application with simplification

type ctorInfo struct {
	sort string
	sels []string
	args []string
}

var ctors = map[string]*ctorInfo{}  // constructor -> info
var selectors = map[string][2]any{} // selector -> (constructor, index)
var funcSig = map[string][]string{} // symbol -> arg sorts..., result sort

func resultSort(op string) (string, bool) {
	s, ok := funcSig[op]
	if !ok {
		return "", false
	}
	return s[len(s)-1], true
}

func App(op string, args ...*Term) *Term {
	switch op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		r := args[len(args)-1]
		for i := len(args) - 2; i >= 0; i-- {
			r = Imp(args[i], r)
		}
		return r
	case "=":
		return Eq(args[0], args[1])
	case "distinct":
		return Not(Eq(args[0], args[1]))
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case "-":
		if len(args) == 1 {
			return Sub(intT(0), args[0])
		}
		r := args[0]
		for _, a := range args[1:] {
			r = Sub(r, a)
		}
		return r
	case "*":
		return Mul(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case ">":
		return Lt(args[1], args[0])
	case ">=":
		return Le(args[1], args[0])
	}
	if ci, ok := ctors[op]; ok {
		return raw(op, ci.sort, args...)
	}
	if s, ok := selectors[op]; ok {
		a := args[0]
		if a.Op == s[0].(string) {
			return a.Args[s[1].(int)]
		}
		if a.Op == "ite" {
			return Ite(a.Args[0], App(op, a.Args[1]), App(op, a.Args[2]))
		}
	}
	if strings.HasPrefix(op, "is-") {
		a := args[0]
		if c, ok := ctorOf(a); ok {
			return boolT(c == op[3:])
		}
		if a.Op == "ite" {
			return Ite(a.Args[0], App(op, a.Args[1]), App(op, a.Args[2]))
		}
		return raw(op, "Bool", a)
	}
	if f := simpHook(op, args); f != nil {
		return f
	}
	rs, ok := resultSort(op)
	if !ok {
		panic("unknown symbol " + op)
	}
	sig := funcSig[op]
	if len(sig)-1 != len(args) {
		panic(fmt.Sprintf("arity of %s: %d args, want %d", op, len(args), len(sig)-1))
	}
	for i, a := range args {
		if a.Sort != sig[i] {
			panic(fmt.Sprintf("sort of argument %d of %s: %s, want %s (%s)", i, op, a.Sort, sig[i], a))
		}
	}
	return raw(op, rs, args...)
}

func (t *Term) String() string {
	var b strings.Builder
	writeTerm(&b, t, nil)
	s := b.String()
	if len(s) > 4000 {
		return s[:4000] + "..."
	}
	return s
}

func opText(t *Term) string {
	if t.Sort == "Int" && len(t.Args) == 0 && strings.HasPrefix(t.Op, "-") {
		return "(- " + t.Op[1:] + ")"
	}
	if strings.HasPrefix(t.Op, "is-") {
		return "(_ is " + t.Op[3:] + ")"
	}
	return t.Op
}

func writeTerm(b *strings.Builder, t *Term, names map[*Term]string) {
	if n, ok := names[t]; ok {
		b.WriteString(n)
		return
	}
	if t.Op == "forall" || t.Op == "exists" {
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Bound {
			b.WriteString("(" + v.Op + " " + v.Sort + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		writeTerm(b, t.Args[0], names)
		for _, p := range t.Pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				writeTerm(b, x, names)
			}
			b.WriteString(")")
		}
		if len(t.Pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		b.WriteString(opText(t))
		return
	}
	b.WriteString("(" + opText(t))
	for _, a := range t.Args {
		b.WriteByte(' ')
		writeTerm(b, a, names)
	}
	b.WriteByte(')')
}

// subst replaces terms (used for bound variables and template holes).
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.Op == "forall" || t.Op == "exists" {
			body := rec(t.Args[0])
			var ps [][]*Term
			for _, p := range t.Pats {
				var q []*Term
				for _, x := range p {
					q = append(q, rec(x))
				}
				ps = append(ps, q)
			}
			r = quant(t.Op, t.Bound, body, ps)
		} else if len(t.Args) == 0 {
			r = t
		} else {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if !ch {
				r = t
			} else {
				r = reApp(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func reApp(t *Term, args []*Term) *Term {
	switch t.Op {
	case "ite":
		return Ite(args[0], args[1], args[2])
	}
	return App(t.Op, args...)
}
