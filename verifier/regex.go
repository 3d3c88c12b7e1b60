package main

import (
	"fmt"
	"go/constant"
	"os"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Regular expressions with constant patterns are compared by the languages they denote: two patterns for one language
// are one symbol of the logic, and what holds between languages is computed here with automata. An invalid byte of a
// text reads as U+FFFD, in package regexp and here.

const maxAutomaton = 4000

type dfa struct {
	acc  []bool
	next [][]int // state, rune class
}

type pattern struct {
	text string
	prog *syntax.Prog
	full int // number of its language
	pre  int // texts that begin with a word of it
	inf  int // texts that contain a word of it
	num  int
	same bool // leftmost-first matching finds the longest match
	null bool // matches the empty text
}

type langTable struct {
	pats  map[string]*pattern
	order []*pattern
	reps  []rune // one rune per class
	ds    []*dfa
	key   map[string]int
	min   []int // length of the shortest word
}

// Functions: L!k(t) text t is in language k; C!(t) its class; P!k(t) length of its longest prefix in language k, -1
// without one; F!k.m(t) what Find gives (m: 1 leftmost-longest, 0 leftmost-first); D!k(t) the text without its matches.
func (t *theory) buildLangs(texts []string) {
	tab := &langTable{pats: map[string]*pattern{}, key: map[string]int{}}
	t.langs = tab
	cuts := map[rune]bool{0: true, '\n': true, '\n' + 1: true, 0x80: true}
	sort.Strings(texts)
	for _, s := range texts {
		if tab.pats[s] != nil {
			continue
		}
		re, err := syntax.Parse(s, syntax.Perl)
		if err != nil {
			continue
		}
		prog, err := syntax.Compile(re.Simplify())
		if err != nil || !plainProg(prog) {
			continue
		}
		p := &pattern{text: s, prog: prog}
		tab.pats[s] = p
		tab.order = append(tab.order, p)
		for _, in := range prog.Inst {
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				for i, r := range in.Rune {
					if len(in.Rune) == 1 {
						cuts[r], cuts[r+1] = true, true
					} else if i%2 == 0 {
						cuts[r] = true
					} else {
						cuts[r+1] = true
					}
				}
			}
		}
	}
	for r := range cuts {
		if r <= 0x10FFFF {
			tab.reps = append(tab.reps, r)
		}
	}
	sort.Slice(tab.reps, func(i, j int) bool { return tab.reps[i] < tab.reps[j] })
	var ok []*pattern
	for _, p := range tab.order {
		f, fits1 := tab.det(p.prog, 0)
		g, fits2 := tab.det(p.prog, 1)
		h, fits3 := tab.det(p.prog, 2)
		if !fits1 || !fits2 || !fits3 {
			delete(tab.pats, p.text)
			continue
		}
		p.full, p.pre, p.inf = tab.id(f), tab.id(g), tab.id(h)
		p.same = tab.firstIsLongest(p)
		p.num = len(ok)
		p.null = f.acc[0]
		ok = append(ok, p)
	}
	tab.order = ok
}

func plainProg(p *syntax.Prog) bool {
	for _, in := range p.Inst {
		if in.Op == syntax.InstEmptyWidth || in.Op == syntax.InstRune && syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			return false
		}
	}
	return true
}

// closure follows what needs no input, in order of preference.
func closure(p *syntax.Prog, pcs []uint32) []uint32 {
	var out []uint32
	seen := map[uint32]bool{}
	var walk func(pc uint32)
	walk = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(in.Out)
			walk(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			walk(in.Out)
		case syntax.InstFail:
		default:
			out = append(out, pc)
		}
	}
	for _, pc := range pcs {
		walk(pc)
	}
	return out
}

func step(p *syntax.Prog, pcs []uint32, r rune) []uint32 {
	var n []uint32
	for _, pc := range pcs {
		in := p.Inst[pc]
		if in.Op != syntax.InstMatch && in.MatchRune(r) {
			n = append(n, in.Out)
		}
	}
	return closure(p, n)
}

func matches(p *syntax.Prog, pcs []uint32) bool {
	for _, pc := range pcs {
		if p.Inst[pc].Op == syntax.InstMatch {
			return true
		}
	}
	return false
}

// det: mode 0 the language, 1 texts with a prefix in it, 2 texts with a word of it inside.
func (tab *langTable) det(p *syntax.Prog, mode int) (*dfa, bool) {
	d := &dfa{}
	ids := map[string]int{}
	var sets [][]uint32
	done := func(s []uint32) bool { return mode > 0 && matches(p, s) }
	get := func(s []uint32) int {
		if done(s) {
			s = nil
			if id, ok := ids["done"]; ok {
				return id
			}
			ids["done"] = len(sets)
			sets = append(sets, nil)
			d.acc = append(d.acc, true)
			return len(sets) - 1
		}
		c := append([]uint32{}, s...)
		sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
		k := fmt.Sprint(c)
		if id, ok := ids[k]; ok {
			return id
		}
		ids[k] = len(sets)
		sets = append(sets, c)
		d.acc = append(d.acc, matches(p, c))
		return len(sets) - 1
	}
	start := closure(p, []uint32{uint32(p.Start)})
	get(start)
	for i := 0; i < len(sets); i++ {
		if len(sets) > maxAutomaton {
			return nil, false
		}
		var row []int
		fin, isFin := ids["done"]
		for _, r := range tab.reps {
			if isFin && i == fin {
				row = append(row, i)
				continue
			}
			n := step(p, sets[i], r)
			if mode == 2 {
				n = closure(p, append(n, uint32(p.Start)))
			}
			row = append(row, get(n))
			fin, isFin = ids["done"]
		}
		d.next = append(d.next, row)
	}
	return d, true
}

// id gives the number of a language, by its smallest automaton with states numbered in order of discovery.
func (tab *langTable) id(d *dfa) int {
	m := minimal(d)
	k := fmt.Sprint(m.acc, m.next)
	if id, ok := tab.key[k]; ok {
		return id
	}
	tab.key[k] = len(tab.ds)
	tab.ds = append(tab.ds, m)
	tab.min = append(tab.min, shortest(m))
	return len(tab.ds) - 1
}

func minimal(d *dfa) *dfa {
	cls := make([]int, len(d.acc))
	for i, a := range d.acc {
		if a {
			cls[i] = 1
		}
	}
	n := 0
	for {
		ids := map[string]int{}
		nc := make([]int, len(cls))
		for i := range cls {
			var b strings.Builder
			b.WriteString(strconv.Itoa(cls[i]))
			for _, j := range d.next[i] {
				b.WriteByte(',')
				b.WriteString(strconv.Itoa(cls[j]))
			}
			k := b.String()
			if _, ok := ids[k]; !ok {
				ids[k] = len(ids)
			}
			nc[i] = ids[k]
		}
		cls = nc
		if len(ids) == n {
			break
		}
		n = len(ids)
	}
	m := &dfa{}
	num := map[int]int{cls[0]: 0}
	queue := []int{0}
	for q := 0; q < len(queue); q++ {
		s := queue[q]
		m.acc = append(m.acc, d.acc[s])
		var row []int
		for _, j := range d.next[s] {
			if _, ok := num[cls[j]]; !ok {
				num[cls[j]] = len(queue)
				queue = append(queue, j)
			}
			row = append(row, num[cls[j]])
		}
		m.next = append(m.next, row)
	}
	return m
}

func shortest(d *dfa) int {
	dist := map[int]int{0: 0}
	queue := []int{0}
	for q := 0; q < len(queue); q++ {
		s := queue[q]
		if d.acc[s] {
			return dist[s]
		}
		for _, j := range d.next[s] {
			if _, ok := dist[j]; !ok {
				dist[j] = dist[s] + 1
				queue = append(queue, j)
			}
		}
	}
	return 0
}

// live: states from which a word can still be accepted.
func (d *dfa) live() []bool {
	l := append([]bool{}, d.acc...)
	for grew := true; grew; {
		grew = false
		for i := range l {
			for _, j := range d.next[i] {
				if l[j] && !l[i] {
					l[i], grew = true, true
				}
			}
		}
	}
	return l
}

// thread lists for leftmost-first matching: what comes after a match in the list is no longer of interest.
func first(p *syntax.Prog, pcs []uint32) (list []uint32, match bool) {
	for i, pc := range pcs {
		if p.Inst[pc].Op == syntax.InstMatch {
			return pcs[:i], true
		}
	}
	return pcs, false
}

// firstIsLongest: leftmost-first matching from one place stops where leftmost-longest matching does.
func (tab *langTable) firstIsLongest(p *pattern) bool {
	d := tab.ds[p.full]
	type node struct {
		list string
		s    int
	}
	start, m := first(p.prog, closure(p.prog, []uint32{uint32(p.prog.Start)}))
	if m != d.acc[0] {
		return false
	}
	seen := map[node]bool{{fmt.Sprint(start), 0}: true}
	type item struct {
		list []uint32
		s    int
	}
	queue := []item{{start, 0}}
	for q := 0; q < len(queue); q++ {
		if len(queue) > maxAutomaton {
			return false
		}
		for c, r := range tab.reps {
			l, m := first(p.prog, step(p.prog, queue[q].list, r))
			s := d.next[queue[q].s][c]
			if m != d.acc[s] {
				return false
			}
			k := node{fmt.Sprint(l), s}
			if !seen[k] {
				seen[k] = true
				queue = append(queue, item{l, s})
			}
		}
	}
	return true
}

// span: in every word of language k the first match of p starts a bytes from its start and ends b bytes from its end.
func (tab *langTable) span(p *pattern, k int, longest bool) (a, b int, ok bool) {
	for a = 0; a <= 4; a++ {
		for b = 0; b <= 4; b++ {
			if tab.spans(p, k, a, b, longest) {
				return a, b, true
			}
		}
	}
	return 0, 0, false
}

func (tab *langTable) spans(p *pattern, k, a, b int, longest bool) bool {
	d := tab.ds[k]
	live := d.live()
	pd := tab.ds[p.full]
	cut := func(l []uint32) ([]uint32, bool) {
		if longest {
			return l, matches(p.prog, l)
		}
		return first(p.prog, l)
	}
	// no match starts earlier: the threads started at places before a never match
	type item struct {
		s, pos int
		early  []int    // threads of earlier starts, as states of the pattern's automaton
		list   []uint32 // threads from place a
		since  int      // bytes since the last match, -1 before one
	}
	enc := func(i item) string { return fmt.Sprint(i.s, i.pos, i.early, i.list, i.since) }
	start := item{s: 0, since: -1}
	if a == 0 {
		start.list = closure(p.prog, []uint32{uint32(p.prog.Start)})
	} else {
		start.early = []int{0}
	}
	seen := map[string]bool{enc(start): true}
	queue := []item{start}
	for q := 0; q < len(queue); q++ {
		if len(queue) > maxAutomaton {
			return false
		}
		it := queue[q]
		if d.acc[it.s] && it.since != b {
			return false
		}
		for c, r := range tab.reps {
			s := d.next[it.s][c]
			if !live[s] {
				continue
			}
			n := item{s: s, pos: it.pos, since: it.since}
			set := map[int]bool{}
			for _, e := range it.early {
				if f := pd.next[e][c]; pd.acc[f] {
					return false
				} else {
					set[f] = true
				}
			}
			if it.pos < a {
				if r >= 0x80 {
					return false
				}
				n.pos++
				if n.pos < a {
					set[0] = true
				} else {
					n.list = closure(p.prog, []uint32{uint32(p.prog.Start)})
				}
			} else {
				l, m := cut(step(p.prog, it.list, r))
				n.list = l
				if longest {
					sort.Slice(n.list, func(i, j int) bool { return n.list[i] < n.list[j] })
				}
				if m {
					n.since = 0
				} else if n.since >= 0 {
					if r >= 0x80 {
						n.since = b + 1
					} else if n.since <= b {
						n.since++
					}
				}
			}
			for f := range set {
				n.early = append(n.early, f)
			}
			sort.Ints(n.early)
			if e := enc(n); !seen[e] {
				seen[e] = true
				queue = append(queue, n)
			}
		}
	}
	return true
}

// wraps: p matches single ASCII characters, and every word of language k has them at its first a and last b places only.
func (tab *langTable) wraps(p *pattern, k int) (a, b int, ok bool) {
	set := make([]bool, len(tab.reps))
	pd := tab.ds[p.full]
	one := map[int]bool{}
	for c, r := range tab.reps {
		f := pd.next[0][c]
		if pd.acc[f] {
			if r >= 0x80 {
				return 0, 0, false
			}
			set[c] = true
			one[f] = true
		}
	}
	pl := pd.live()
	for c := range tab.reps {
		f := pd.next[0][c]
		if pl[f] && !pd.acc[f] {
			return 0, 0, false
		}
		if pd.acc[f] {
			for _, g := range pd.next[f] {
				if pl[g] {
					return 0, 0, false
				}
			}
		}
	}
	for a = 0; a <= 2; a++ {
		for b = 0; b <= 2; b++ {
			if tab.wrapped(set, k, a, b) {
				return a, b, true
			}
		}
	}
	return 0, 0, false
}

func (tab *langTable) wrapped(set []bool, k, a, b int) bool {
	d := tab.ds[k]
	live := d.live()
	type item struct{ s, pre, post int } // phase: pre < a, then the middle, then post > 0
	seen := map[item]bool{{}: true}
	queue := []item{{}}
	for q := 0; q < len(queue); q++ {
		it := queue[q]
		if d.acc[it.s] && (it.pre != a || it.post != b) {
			return false
		}
		for c := range tab.reps {
			s := d.next[it.s][c]
			if !live[s] {
				continue
			}
			n := item{s, it.pre, it.post}
			switch {
			case it.pre < a && set[c]:
				n.pre++
			case it.pre < a:
				return false
			case set[c]:
				if n.post++; n.post > b {
					return false
				}
			case it.post > 0:
				return false
			}
			if !seen[n] {
				seen[n] = true
				queue = append(queue, n)
			}
		}
	}
	return true
}

const maxClasses = 48

// classes lists which languages the words of language k can be in together, if they are few.
func (tab *langTable) classes(k int) ([][]bool, bool) {
	key := func(v []int) string { return fmt.Sprint(v) }
	live := tab.ds[k].live()
	start := make([]int, len(tab.ds))
	seen := map[string]bool{key(start): true}
	queue := [][]int{start}
	out := map[string][]bool{}
	for q := 0; q < len(queue); q++ {
		if len(queue) > maxAutomaton {
			return nil, false
		}
		v := queue[q]
		if tab.ds[k].acc[v[k]] {
			acc := make([]bool, len(v))
			for i, s := range v {
				acc[i] = tab.ds[i].acc[s]
			}
			out[fmt.Sprint(acc)] = acc
			if len(out) > maxClasses {
				return nil, false
			}
		}
		for c := range tab.reps {
			if !live[tab.ds[k].next[v[k]][c]] {
				continue
			}
			n := make([]int, len(v))
			for i, s := range v {
				n[i] = tab.ds[i].next[s][c]
			}
			if h := key(n); !seen[h] {
				seen[h] = true
				queue = append(queue, n)
			}
		}
	}
	var ks []string
	for h := range out {
		ks = append(ks, h)
	}
	sort.Strings(ks)
	var r [][]bool
	for _, h := range ks {
		r = append(r, out[h])
	}
	return r, true
}

// pair: language k lies in language m; they have no word in common.
func (tab *langTable) pair(k, m int) (within, apart bool) {
	a, b := tab.ds[k], tab.ds[m]
	seen := map[[2]int]bool{{}: true}
	queue := [][2]int{{}}
	within, apart = true, true
	for q := 0; q < len(queue); q++ {
		v := queue[q]
		if a.acc[v[0]] {
			within = within && b.acc[v[1]]
			apart = apart && !b.acc[v[1]]
		}
		for c := range tab.reps {
			if n := [2]int{a.next[v[0]][c], b.next[v[1]][c]}; !seen[n] {
				seen[n] = true
				queue = append(queue, n)
			}
		}
	}
	return
}

func (t *theory) fun(name string, sig ...string) string {
	if _, ok := funcSig[name]; !ok {
		funcSig[name] = sig
		t.userFuns = append(t.userFuns, name)
	}
	return name
}

func (t *theory) inLang(k int, s *Term) *Term {
	return App(t.fun(fmt.Sprintf("L!%d", k), "Str", "Bool"), s)
}
func (t *theory) preLen(p *pattern, s *Term) *Term {
	return App(t.fun(fmt.Sprintf("P!%d", p.full), "Str", "Int"), s)
}

// pattern gives what is known of a constant pattern.
func (t *theory) pattern(text string) *pattern {
	if t.langs == nil {
		return nil
	}
	return t.langs.pats[text]
}

func (p *pattern) find(longest bool) string {
	m := 0
	if longest || p.same {
		m = 1
	}
	if m == 0 {
		return th.fun(fmt.Sprintf("F!%d.first.%d", p.full, p.num), "Str", "Str")
	}
	return th.fun(fmt.Sprintf("F!%d", p.full), "Str", "Str")
}

func (p *pattern) without() string { return th.fun(fmt.Sprintf("D!%d", p.full), "Str", "Str") }

// langAxioms states what the automata say about the functions above.
func (t *theory) langAxioms() {
	tab := t.langs
	if tab == nil || len(tab.order) == 0 {
		return
	}
	s := mkVar("t_q", "Str")
	all := func(name string, body, pat *Term) {
		name = fmt.Sprintf("%s %d", name, len(t.axioms))
		t.axioms = append(t.axioms, axiom{name: name, t: quant("forall", []*Term{s}, body, [][]*Term{{pat}})})
	}
	n := App("strlen", s)
	two := func(name string, body *Term, pats ...*Term) {
		t.axioms = append(t.axioms, axiom{name: name, t: quant("forall", []*Term{s}, body, [][]*Term{pats})})
	}
	for k := range tab.ds {
		lk := t.inLang(k, s)
		if m := tab.min[k]; m > 0 {
			all(fmt.Sprintf("shortest of language %d", k), Imp(lk, Le(intT(int64(m)), n)), lk)
		}
		in, some := tab.classes(k)
		c := App(t.fun(fmt.Sprintf("C!%d", k), "Str", "Int"), s)
		if some {
			all(fmt.Sprintf("classes of language %d", k), Imp(lk, And(Le(intT(0), c), Lt(c, intT(int64(len(in)))))), lk)
		}
		if os.Getenv("VF_LANGS") != "" {
			fmt.Fprintf(os.Stderr, "  %d: %d classes, shortest %d\n", k, len(in), tab.min[k])
		}
		for m := range tab.ds {
			if m == k {
				continue
			}
			lm := t.inLang(m, s)
			name := fmt.Sprintf("languages %d and %d", k, m)
			within, apart := tab.pair(k, m)
			switch {
			case within:
				two(name, Imp(lk, lm), lk, lm)
			case apart:
				if m > k {
					two(name, Not(And(lk, lm)), lk, lm)
				}
			case some:
				var yes []*Term
				for i, v := range in {
					if v[m] {
						yes = append(yes, Eq(c, intT(int64(i))))
					}
				}
				two(name, Imp(lk, Eq(lm, Or(yes...))), lk, lm)
			}
		}
	}
	if os.Getenv("VF_LANGS") != "" {
		for _, p := range tab.order {
			fmt.Fprintf(os.Stderr, "  %q full %d pre %d inf %d same %v\n", p.text, p.full, p.pre, p.inf, p.same)
		}
	}
	var langs []*pattern // one for each language
	had := map[int]bool{}
	for _, o := range tab.order {
		if !had[o.full] {
			had[o.full] = true
			langs = append(langs, o)
		}
	}
	done := map[int]bool{}
	fdone := map[string]bool{}
	for _, p := range tab.order {
		if !done[p.full] {
			done[p.full] = true
			l := t.preLen(p, s)
			all("prefix "+p.text, And(Eq(t.inLang(p.pre, s), Le(intT(0), l)), Le(intT(-1), l), Le(l, n),
				Imp(Le(intT(0), l), And(Le(intT(int64(tab.min[p.full])), l), t.inLang(p.full, substr(s, intT(0), l))))), l)
		}
		for _, longest := range []bool{true, false} {
			f := p.find(longest)
			if fdone[f] || p.null || !longest && !p.same {
				continue
			}
			fdone[f] = true
			ft := App(f, s)
			for _, o := range langs {
				if a, b, ok := tab.span(p, o.full, longest); ok {
					all("match of "+p.text+" in "+o.text, Imp(t.inLang(o.full, s), Eq(ft, substr(s, intT(int64(a)), Sub(n, intT(int64(b)))))), ft)
				}
			}
			dt := App(p.without(), s)
			for _, o := range langs {
				if a, b, ok := tab.wraps(p, o.full); ok {
					all("rest of "+o.text+" without "+p.text, Imp(t.inLang(o.full, s), Eq(dt, substr(s, intT(int64(a)), Sub(n, intT(int64(b)))))), dt)
				}
			}
		}
	}
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// codePatterns lists the constant patterns compiled in a package.
func codePatterns(fns []*ssa.Function, pkg string) []string {
	var out []string
	for _, f := range fns {
		if f.Package() == nil || f.Package().Pkg.Name() != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Package() == nil {
					continue
				}
				if path := g.Package().Pkg.Path(); path == "strings" || path == "bytes" {
					for _, a := range c.Common().Args {
						if v, ok := a.(*ssa.Convert); ok {
							a = v.X
						}
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
							if l := constant.StringVal(k.Value); isASCII(l) && len(l) > 0 && len(l) < 20 {
								switch g.Name() {
								case "Contains", "HasPrefix", "Index":
									out = append(out, regexp.QuoteMeta(l))
								case "HasSuffix":
									out = append(out, regexp.QuoteMeta(l)+"$")
								}
							}
						}
					}
					continue
				} else if path != "regexp" {
					continue
				}
				for _, a := range c.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						out = append(out, constant.StringVal(k.Value))
					}
				}
			}
		}
	}
	return out
}

// middle: in every word of language k, what is left without its first a and last b characters, all ASCII, is in language m.
func (tab *langTable) middle(k, m, a, b int) bool {
	if tab.min[k] < a+b {
		return false
	}
	type item struct {
		s, pos int
		last   [4]int // states of m before the last b characters
	}
	d, md := tab.ds[k], tab.ds[m]
	live := d.live()
	// asciiEnd: the last b characters are ASCII is checked on the way: a run of characters since one that is not
	type node struct {
		item
		since int
	}
	start := node{since: b}
	seen := map[node]bool{start: true}
	queue := []node{start}
	for q := 0; q < len(queue); q++ {
		it := queue[q]
		if len(queue) > 100*maxAutomaton {
			return false
		}
		if d.acc[it.s] && (it.pos < a || it.since < b || !md.acc[it.last[b]]) {
			return false
		}
		for c, r := range tab.reps {
			n := it
			if n.s = d.next[it.s][c]; !live[n.s] {
				continue
			}
			if it.pos < a {
				if r >= 0x80 {
					return false
				}
				n.pos++
			} else {
				for i := b; i > 0; i-- {
					n.last[i] = it.last[i-1]
				}
				n.last[0] = md.next[it.last[0]][c]
				if r >= 0x80 {
					n.since = 0
				} else if n.since < b {
					n.since++
				}
			}
			if !seen[n] {
				seen[n] = true
				queue = append(queue, n)
			}
		}
	}
	return true
}

// langFact reads (langfact "K" a b "M"): true of the automata, or the contracts are wrong.
func langFact(t *theory, x *SX) {
	k, m := t.pattern(strings.TrimPrefix(x.List[1].Atom, "\"")), t.pattern(strings.TrimPrefix(x.List[4].Atom, "\""))
	a, _ := strconv.Atoi(x.List[2].Atom)
	b, _ := strconv.Atoi(x.List[3].Atom)
	if k == nil || m == nil || a+b > 3 || !t.langs.middle(k.full, m.full, a, b) {
		errAt(x, "not so")
	}
	s, lo, hi := mkVar("t_q", "Str"), mkVar("lo_q", "Int"), mkVar("hi_q", "Int")
	mid := substr(s, lo, hi)
	body := Imp(And(t.inLang(k.full, s), Eq(lo, intT(int64(a))), Eq(hi, Sub(App("strlen", s), intT(int64(b))))), t.inLang(m.full, mid))
	t.axioms = append(t.axioms, axiom{name: "middle of " + k.text + " in " + m.text, t: quant("forall", []*Term{s, lo, hi}, body, [][]*Term{{t.inLang(m.full, mid), t.inLang(k.full, s)}})})
}

var langForms = map[string]bool{"inlang": true, "prefixed": true, "containing": true, "prefixlen": true, "langid": true}

// specPatterns lists the patterns in contract files.
func specPatterns(files []string) []string {
	var out []string
	var walk func(x *SX)
	walk = func(x *SX) {
		if !x.IsL {
			return
		}
		if langForms[x.head()] && len(x.List) > 1 {
			out = append(out, strings.TrimPrefix(x.List[1].Atom, "\""))
		}
		if x.head() == "langfact" {
			out = append(out, strings.TrimPrefix(x.List[1].Atom, "\""), strings.TrimPrefix(x.List[4].Atom, "\""))
		}
		for _, y := range x.List {
			walk(y)
		}
	}
	for _, f := range files {
		for _, x := range readSX(f) {
			walk(x)
		}
	}
	return out
}

// langForm elaborates (inlang "p" t), (prefixed "p" t), (containing "p" t), (prefixlen "p" t) and (langid "p").
func langForm(x *SX, args []*Term) *Term {
	p := th.pattern(strings.TrimPrefix(x.List[1].Atom, "\""))
	if p == nil {
		errAt(x, "pattern not understood")
	}
	switch x.head() {
	case "inlang":
		return th.inLang(p.full, args[0])
	case "prefixed":
		return th.inLang(p.pre, args[0])
	case "containing":
		return th.inLang(p.inf, args[0])
	case "prefixlen":
		return th.preLen(p, args[0])
	}
	return intT(int64(p.full))
}
