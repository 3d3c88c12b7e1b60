package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver keeps one z3 process whose assertion stack follows the path being explored.

type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inp      io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	named    map[*Term]string
	lits     int
	stack    []*Term
	sig      string
	rel      *relevance
	relSyms  int
	cache    map[string]int // query -> 1 unsat, 2 not
	Queries  int
	Time     time.Duration
	log      *os.File
	Restarts int
}

func newSolver() *Solver {
	s := &Solver{cache: map[string]int{}, rel: newRelevance()}
	if p := os.Getenv("VF_SMTLOG"); p != "" {
		s.log, _ = os.Create(p)
	}
	return s
}

func theorySig() string {
	return fmt.Sprintf("%d %d %d %d %d", len(th.sorts), len(ctors), len(th.axioms), len(th.userFuns), len(th.seqElem)+len(th.mapKV)+len(th.bagElem))
}

func (s *Solver) start() {
	s.stop()
	s.Restarts++
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inp = in
	s.in = bufio.NewWriterSize(in, 1<<20)
	s.out = bufio.NewReader(out)
	s.declared = map[string]bool{}
	s.named = map[*Term]string{}
	s.lits = 0
	s.stack = nil
	s.sig = theorySig() + fmt.Sprint(s.relSyms)
	s.send("(set-option :global-decls true)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n" + solverOptions())
	s.send(preamble(s.declared, s.rel))
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inp.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(t string) {
	if s.log != nil {
		s.log.WriteString(t)
	}
	s.in.WriteString(t)
}

func sigDecl(name string, sig []string) string {
	return fmt.Sprintf("(declare-fun %s (%s) %s)\n", name, strings.Join(sig[:len(sig)-1], " "), sig[len(sig)-1])
}

// preamble declares sorts, datatypes, functions and axioms.
func preamble(declared map[string]bool, rel *relevance) string {
	var b strings.Builder
	for _, s := range th.sorts {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	b.WriteString("(declare-datatypes (")
	for _, d := range th.data {
		fmt.Fprintf(&b, "(%s 0)", d)
	}
	b.WriteString(") (\n")
	for _, d := range th.data {
		b.WriteString("  (")
		if len(th.dataCtor[d]) == 0 {
			fmt.Fprintf(&b, "(dummy.%s)", d)
		}
		for _, c := range th.dataCtor[d] {
			fmt.Fprintf(&b, "(%s", c)
			for i, sel := range ctors[c].sels {
				fmt.Fprintf(&b, " (%s %s)", sel, ctors[c].args[i])
			}
			b.WriteString(") ")
		}
		b.WriteString(")\n")
	}
	b.WriteString("))\n")
	var names []string
	for n := range funcSig {
		if _, ok := ctors[n]; ok {
			continue
		}
		if _, ok := selectors[n]; ok || strings.HasPrefix(n, "is-") {
			continue
		}
		if th.isUser(n) && !rel.syms[n] {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		b.WriteString(sigDecl(n, funcSig[n]))
		declared[n] = true
	}
	// literals used by axioms must come before them
	for i, a := range th.axioms {
		if !rel.axs[i] {
			continue
		}
		for _, l := range litsOf(a.t, nil) {
			if !declared[l.Op] {
				declared[l.Op] = true
				fmt.Fprintf(&b, "(declare-fun %s () Str)\n", l.Op)
			}
		}
	}
	used := map[string]bool{}
	for _, s := range th.sorts {
		used[s] = true
	}
	b.WriteString("(declare-fun litid (Str) Int)\n")
	for _, l := range th.builtinAxioms(used) {
		b.WriteString(l + "\n")
	}
	for i, a := range th.axioms {
		if !rel.axs[i] {
			continue
		}
		fmt.Fprintf(&b, "(assert (! %s :named ax_%s))\n", fullText(a.t), sanitize(a.name))
	}
	return b.String()
}

func litsOf(t *Term, acc []*Term) []*Term {
	if th.isLit(t) {
		return append(acc, t)
	}
	for _, a := range t.Args {
		acc = litsOf(a, acc)
	}
	for _, p := range t.Pats {
		for _, a := range p {
			acc = litsOf(a, acc)
		}
	}
	return acc
}

func fullText(t *Term) string {
	var b strings.Builder
	writeTerm(&b, t, nil)
	return b.String()
}

// litFacts states that literals differ, their lengths and their order.
func litFacts(b *strings.Builder, declared map[string]bool, rel *relevance) {
	var lits []string
	for s, t := range th.strLits {
		if !rel.lits[t] {
			continue
		}
		lits = append(lits, s)
	}
	sort.Strings(lits)
	for _, s := range lits {
		t := th.strLits[s]
		if !declared[t.Op] {
			declared[t.Op] = true
			fmt.Fprintf(b, "(declare-fun %s () Str)\n", t.Op)
		}
	}
	for i, s := range lits {
		t := th.strLits[s]
		fmt.Fprintf(b, "(assert (= (litid %s) %d))(assert (= (strlen %s) %d))\n", t.Op, i, t.Op, len(s))
		if i > 0 {
			fmt.Fprintf(b, "(assert (strle %s %s))\n", th.strLits[lits[i-1]].Op, t.Op)
		}
	}
}

var bvMemo = map[*Term]bool{}
var szMemo = map[*Term]int{}

func hasBound(t *Term) bool {
	if t.Var {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	if v, ok := bvMemo[t]; ok {
		return v
	}
	r := false
	for _, a := range t.Args {
		if hasBound(a) {
			r = true
			break
		}
	}
	if t.Op == "forall" || t.Op == "exists" {
		r = true // print in place
	}
	bvMemo[t] = r
	return r
}

func tsize(t *Term) int {
	if len(t.Args) == 0 {
		return 1
	}
	if v, ok := szMemo[t]; ok {
		return v
	}
	n := 1
	for _, a := range t.Args {
		n += tsize(a)
	}
	if n > 1<<20 {
		n = 1 << 20
	}
	szMemo[t] = n
	return n
}

// prep declares the constants of a term and names its large closed subterms.
func prepTerm(b *strings.Builder, t *Term, declared map[string]bool, named map[*Term]string, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if _, ok := named[t]; ok {
		return
	}
	for _, a := range t.Args {
		prepTerm(b, a, declared, named, seen)
	}
	for _, p := range t.Pats {
		for _, a := range p {
			prepTerm(b, a, declared, named, seen)
		}
	}
	if len(t.Args) == 0 {
		if t.Var || declared[t.Op] || th.isLit(t) {
			return
		}
		if strings.Contains(t.Op, "!") {
			declared[t.Op] = true
			fmt.Fprintf(b, "(declare-fun %s () %s)\n", t.Op, t.Sort)
		}
		return
	}
	if !hasBound(t) && tsize(t) > 12 && t.Sort != "Bool" {
		n := fmt.Sprintf("d!%d", t.id)
		var w strings.Builder
		writeTerm(&w, t, named)
		fmt.Fprintf(b, "(define-fun %s () %s %s)\n", n, t.Sort, w.String())
		named[t] = n
	}
}

func (s *Solver) text(t *Term) string {
	var b strings.Builder
	prepTerm(&b, t, s.declared, s.named, map[*Term]bool{})
	s.send(b.String())
	var w strings.Builder
	writeTerm(&w, t, s.named)
	return w.String()
}

// relevant adds what a query mentions; the solver starts again when that brings in more of the theory.
func (s *Solver) relevant(pc []*Term, extra *Term) {
	for _, t := range pc {
		s.rel.add(t)
	}
	s.rel.add(extra)
	if len(s.rel.syms) != s.relSyms || len(th.axioms) != s.rel.n {
		s.rel.close()
		s.rel.n = len(th.axioms)
		s.relSyms = len(s.rel.syms)
	}
}

func (s *Solver) sync(pc []*Term) {
	if s.cmd == nil || s.sig != theorySig()+fmt.Sprint(s.relSyms) {
		s.start()
	}
	if s.lits != len(s.rel.lits) {
		if len(s.stack) > 0 {
			s.send(fmt.Sprintf("(pop %d)\n", len(s.stack)+1))
			s.stack = nil
		} else if s.lits > 0 {
			s.send("(pop 1)\n")
		}
		var b strings.Builder
		b.WriteString("(push 1)\n")
		litFacts(&b, s.declared, s.rel)
		s.send(b.String())
		s.lits = len(s.rel.lits)
	}
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if k < len(s.stack) {
		s.send(fmt.Sprintf("(pop %d)\n", len(s.stack)-k))
		s.stack = s.stack[:k]
	}
	for _, t := range pc[k:] {
		x := s.text(t)
		s.send("(push 1)\n(assert " + x + ")\n")
		s.stack = append(s.stack, t)
	}
}

func queryKey(pc []*Term, goal *Term) string {
	var b strings.Builder
	for _, t := range pc {
		fmt.Fprintf(&b, "%d,", t.id)
	}
	fmt.Fprintf(&b, "|%d", goal.id)
	return b.String()
}

// unsat asks whether pc and extra together have no model.
func (s *Solver) unsat(pc []*Term, extra *Term, rlimit int) bool {
	if extra == False {
		return true
	}
	s.relevant(pc, extra)
	k := fmt.Sprint(rlimit, " ", s.relSyms, " ") + queryKey(pc, extra)
	if r, ok := s.cache[k]; ok {
		return r == 1
	}
	t0 := time.Now()
	s.sync(pc)
	q := ""
	if extra != True {
		q = "(push 1)\n(assert " + s.text(extra) + ")\n"
	}
	s.send(fmt.Sprintf("(set-option :rlimit %d)\n(set-option :timeout %d)\n", rlimit, 20000))
	s.send(q + "(check-sat)\n")
	if extra != True {
		s.send("(pop 1)\n")
	}
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	for err == nil && strings.HasPrefix(line, "(error") {
		fmt.Fprintln(os.Stderr, "solver:", strings.TrimSpace(line))
		if os.Getenv("VF_DEBUG") != "" {
			panic("solver error " + line)
		}
		line, err = s.out.ReadString('\n')
	}
	s.Queries++
	s.Time += time.Since(t0)
	if err != nil {
		s.stop()
		return false
	}
	r := 2
	if strings.TrimSpace(line) == "unsat" {
		r = 1
	}
	s.cache[k] = r
	return r == 1
}

// A verification is attempted with several solver configurations before an obligation counts as not discharged.
var (
	rlFeas  = 300000
	rlProve = 3000000
	attempt = 0
)

func init() {
	attempt, _ = strconv.Atoi(os.Getenv("VF_ATTEMPT"))
	switch attempt {
	case 1:
		rlProve *= 4
	case 2:
		rlProve *= 2
	case 3:
		rlProve, rlFeas = rlProve*3, rlFeas*2
	}
}

func solverOptions() string {
	switch attempt {
	case 0:
		return "(set-option :smt.arith.solver 2)\n"
	case 1:
		return "(set-option :smt.arith.solver 2)\n(set-option :smt.random_seed 11)\n"
	case 2:
		return "(set-option :smt.random_seed 5)\n"
	}
	return "(set-option :smt.arith.solver 2)\n(set-option :smt.random_seed 101)\n(set-option :smt.phase_selection 0)\n"
}

func quickEntails(pc []*Term, goal *Term) bool {
	if goal == True {
		return true
	}
	for _, t := range pc {
		if t == goal || t == False {
			return true
		}
	}
	return false
}

func (s *Solver) entails(pc []*Term, goal *Term) bool {
	if quickEntails(pc, goal) {
		return true
	}
	if goal == False {
		return s.unsat(pc, True, rlProve)
	}
	if goal.Op == "and" {
		for _, a := range goal.Args {
			if !s.entails(pc, a) {
				return false
			}
		}
		return true
	}
	return s.unsat(pc, negGoal(goal), rlProve)
}

// negGoal negates a goal; equalities between sequences, maps and bags are negated extensionally.
func negGoal(g *Term) *Term { return Not(extGoal(g)) }

func extGoal(g *Term) *Term {
	switch g.Op {
	case "=":
		s := g.Args[0].Sort
		_, a := th.seqElem[s]
		_, b := th.mapKV[s]
		_, c := th.bagElem[s]
		if a || b || c {
			return raw("or", "Bool", g, App("eq."+s, g.Args[0], g.Args[1]))
		}
		if s == "V" || strings.HasPrefix(s, "S_") {
			if x, ok := ctorOf(g.Args[0]); ok {
				if y, ok := ctorOf(g.Args[1]); ok && x == y {
					break
				}
				// c(a) = t: compare through the payload
				return extVia(g.Args[0], g.Args[1], x)
			}
			if y, ok := ctorOf(g.Args[1]); ok {
				return extVia(g.Args[1], g.Args[0], y)
			}
		}
	case "and", "or":
		var as []*Term
		for _, a := range g.Args {
			as = append(as, extGoal(a))
		}
		return raw(g.Op, "Bool", as...)
	case "=>":
		return raw("=>", "Bool", g.Args[0], extGoal(g.Args[1]))
	case "exists", "forall":
		if b := extGoal(g.Args[0]); b != g.Args[0] {
			return quant(g.Op, g.Bound, b, g.Pats)
		}
	}
	return g
}

func extVia(c, t *Term, name string) *Term {
	ci := ctors[name]
	es := []*Term{App("is-"+name, t)}
	for i, a := range c.Args {
		es = append(es, extGoal(raw("=", "Bool", a, App(ci.sels[i], t))))
	}
	r := And(es...)
	return raw("or", "Bool", raw("=", "Bool", c, t), r)
}

func (s *Solver) infeasible(pc []*Term) bool {
	for _, t := range pc {
		if t == False {
			return true
		}
	}
	return s.unsat(pc, True, rlFeas)
}

// oneShot tries an obligation again in fresh processes of several solvers.
func script(pc []*Term, goal *Term, cvc bool) string {
	var b strings.Builder
	declared := map[string]bool{}
	if cvc {
		b.WriteString("(set-logic ALL)\n")
	}
	rel := newRelevance()
	for _, t := range append(append([]*Term{}, pc...), goal) {
		rel.add(t)
	}
	rel.close()
	b.WriteString(preamble(declared, rel))
	litFacts(&b, declared, rel)
	named := map[*Term]string{}
	seen := map[*Term]bool{}
	for _, t := range append(append([]*Term{}, pc...), negGoal(goal)) {
		prepTerm(&b, t, declared, named, seen)
		var w strings.Builder
		writeTerm(&w, t, named)
		b.WriteString("(assert " + w.String() + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

var scratchDir string

func oneShot(pc []*Term, goal *Term, secs int) (string, bool) {
	return runBackends(pc, goal, secs, []string{"z3a", "z3b", "z3c", "cvc5"})
}

func runBackends(pc []*Term, goal *Term, secs int, which []string) (string, bool) {
	f, _ := os.CreateTemp(scratchDir, "o*.smt2")
	f.WriteString(script(pc, goal, false))
	f.Close()
	defer os.Remove(f.Name())
	cmds := map[string][]string{
		"z3a":  {"z3-new", "smt.mbqi=false", "auto_config=false", fmt.Sprintf("-T:%d", secs), f.Name()},
		"z3b":  {"z3-new", "smt.mbqi=false", "auto_config=false", "smt.random_seed=7", "smt.arith.solver=2", fmt.Sprintf("-T:%d", secs), f.Name()},
		"z3c":  {"z3", "smt.mbqi=false", "auto_config=false", fmt.Sprintf("-T:%d", secs), f.Name()},
		"cvc5": {"cvc5", "--lang=smt2", "--force-logic=ALL", fmt.Sprintf("--tlimit=%d", secs*1000), f.Name()},
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+5)*time.Second)
	defer cancel()
	ch := make(chan [2]string, len(which))
	for _, w := range which {
		w := w
		go func() {
			c := exec.CommandContext(ctx, cmds[w][0], cmds[w][1:]...)
			var o bytes.Buffer
			c.Stdout = &o
			c.Run()
			ch <- [2]string{w, strings.TrimSpace(o.String())}
		}()
	}
	for range which {
		r := <-ch
		if strings.HasSuffix(r[1], "unsat") && !strings.Contains(r[1], "error") {
			return r[0], true
		}
	}
	return "", false
}

func init() {
	scratchDir = filepath.Join(os.TempDir(), fmt.Sprintf("vf-%d", os.Getpid()))
	os.MkdirAll(scratchDir, 0o755)
}
