package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

func loadProgram() (*ssa.Program, []*ssa.Package) {
	if r := os.Getenv("VF_REPO"); r != "" {
		repoDir = r
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repoDir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	g := "github.com/andygello555/gotils/"
	pkgs, err := packages.Load(cfg, "./...", g+"slices", g+"ints", g+"strings", g+"maps", g+"concurrency")
	if err != nil {
		fatal("load: %v", err)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fatal("load: %v", e)
		}
	}
	prog, ps := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	return prog, ps
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

// allFns lists every function with a body in the packages looked at, closures included.
func allFns(prog *ssa.Program) []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(prog) {
		if len(f.Blocks) == 0 || f.Package() == nil && f.Parent() == nil {
			continue
		}
		p := f.Package()
		if p == nil || !strings.HasPrefix(p.Pkg.Path(), "github.com/andygello555/") {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func collectTypes(fns []*ssa.Function) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					th.addDynType(in.X.Type())
				case *ssa.TypeAssert:
					th.addDynType(in.AssertedType)
				}
			}
		}
	}
}

func contractFiles() []string {
	dir := os.Getenv("VF_CONTRACTS")
	if dir == "" {
		dir = "/verif/contracts"
	}
	fs, _ := filepath.Glob(dir + "/*.sx")
	sort.Strings(fs)
	var out []string
	for _, f := range fs {
		if filepath.Base(f) == "base.sx" {
			out = append([]string{f}, out...)
		} else {
			out = append(out, f)
		}
	}
	return out
}

type oblOut struct {
	Name    string   `json:"name"`
	Fn      string   `json:"fn"`
	Status  string   `json:"status"`
	Backend string   `json:"backend,omitempty"`
	Trace   []string `json:"trace,omitempty"`
	Vacuous bool     `json:"vacuous,omitempty"`
	Goal    string   `json:"goal,omitempty"`
}

type result struct {
	Fn       string            `json:"fn"`
	Obls     []oblOut          `json:"obls"`
	Trivial  int               `json:"trivial"`
	Error    string            `json:"error,omitempty"`
	Notes    []string          `json:"notes"`
	Dead     []string          `json:"unreached"`
	Externs  map[string]string `json:"externs"`
	Used     []string          `json:"used"`
	Seconds  float64           `json:"seconds"`
	Solver   float64           `json:"solver_seconds"`
	Queries  int               `json:"queries"`
	Canaries int               `json:"canaries"`
	Steps    int               `json:"steps"`
	Invs     int               `json:"invariant_obligations"`
	Trusted  string            `json:"trusted,omitempty"`
}

func newExec(prog *ssa.Program, C *Contracts, prop string) *Exec {
	return &Exec{cov: cover{}, prog: prog, sol: newSolver(), C: C, active: map[*ssa.Function]*recInfo{}, recMods: map[*ssa.Function]map[int]bool{}, recUsed: map[string]bool{},
		used: map[string]bool{}, globals: map[*ssa.Global]int{}, notes: map[string]bool{}, prop: prop, seqMarks: map[int]bool{}, termOwner: map[*Term]string{}}
}

// verifyFn is one verification task: one function under its contract, for one property.
func verifyFn(prop, name string) (res result) {
	t0 := time.Now()
	res.Fn = name
	prog, pkgs := loadProgram()
	newTheory()
	fns := allFns(prog)
	th.handles = handleTypes(fns)
	th.rePats = codePatterns(fns, "json_map")
	collectTypes(fns)
	structSorts(prog)
	initSigs()
	C := loadContracts(contractFiles(), prop)
	C.alias(fieldFns(fns))
	if l, ok := C.lems[name]; ok {
		return verifyLemma(prog, C, prop, name, l, pkgs, fns)
	}
	c := C.all[name]
	if c == nil {
		res.Error = "no contract"
		return
	}
	if c.Trusted != "" {
		res.Trusted = c.Trusted
		return
	}
	var fn *ssa.Function
	for _, f := range fns {
		if C.byName(f.String()) == c {
			fn = f
		}
	}
	if fn == nil {
		res.Error = "the function " + name + " no longer exists"
		return
	}
	x := newExec(prog, C, prop)
	defer func() {
		x.sol.stop()
		res.Seconds = time.Since(t0).Seconds()
		res.Solver = x.sol.Time.Seconds()
		res.Queries = x.sol.Queries
		res.Canaries = x.canaries
		res.Steps = x.steps
		res.Invs = x.invKept + x.invCount
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					res.Error = u.msg
					if os.Getenv("VF_STACK") != "" {
						debug.PrintStack()
					}
					return
				}
				res.Error = fmt.Sprint("internal: ", r)
				if os.Getenv("VF_STACK") != "" {
					debug.PrintStack()
				}
			}
		}()
		st := newState()
		x.topFn = fn
		x.runInits(st, pkgs, fns)
		x.verifyBody(st, c, fn, nil, nil, nil)
	}()
	res.Dead = x.coverReport()
	if showCover {
		for _, l := range res.Dead {
			fmt.Fprintln(os.Stderr, "cover:", l)
		}
	}
	// second attempt at what is open, with fresh solvers
	secs, again := 20, time.Now()
	for _, o := range x.obls {
		if o.Status == "open" && o.goal != nil && x.counts(o.Tags) && time.Since(again) < 90*time.Second {
			if b, ok := oneShot(o.pc, o.goal, secs); ok {
				o.Status, o.Backend = "proved", b
			} else {
				secs = 5
			}
		}
	}
	for _, o := range x.obls {
		if !x.counts(o.Tags) {
			continue
		}
		if o.Status == "trivial" {
			res.Trivial++
			continue
		}
		if o.Status == "proved" && o.Backend == "" {
			o.Backend = "z3 5.3.2 incremental"
		}
		oo := oblOut{Name: o.Name, Fn: o.Fn, Status: o.Status, Backend: o.Backend, Vacuous: o.Vacuous}
		if o.Status == "open" {
			oo.Trace = o.Trace
			if o.goal != nil {
				oo.Goal = o.goal.String()
				if len(oo.Goal) > 2000 {
					oo.Goal = oo.Goal[:2000]
				}
			}
		}
		res.Obls = append(res.Obls, oo)
	}
	for n := range x.notes {
		res.Notes = append(res.Notes, n)
	}
	sort.Strings(res.Notes)
	res.Externs = externUsed
	for n := range x.used {
		res.Used = append(res.Used, n)
	}
	sort.Strings(res.Used)
	return
}

// verifyLemma discharges a consequence of the contracts and of the initial values of package variables.
func verifyLemma(prog *ssa.Program, C *Contracts, prop, name string, l clause, pkgs []*ssa.Package, fns []*ssa.Function) (res result) {
	t0 := time.Now()
	x := newExec(prog, C, prop)
	st := newState()
	c := &Contract{Name: name}
	x.top = c
	x.env = &cenv{con: c, vals: map[string]Value{}, types: map[string]types.Type{}, entry: map[string]*Term{}}
	g := elab(l.e, x.clauseEnv(x.env, st, nil))
	o := oblOut{Name: name, Fn: name, Status: "open", Goal: g.String()}
	if os.Getenv("VF_DUMP") != "" {
		fmt.Println(g)
	}
	if x.sol.entails(nil, g) {
		o.Status, o.Backend = "proved", "z3"
	} else if b, ok := oneShot(nil, g, 20); ok {
		o.Status, o.Backend = "proved", b
	}
	if x.sol.unsat(nil, True, rlProve) {
		o.Status, o.Vacuous = "open", true
	}
	x.sol.stop()
	res = result{Fn: name, Obls: []oblOut{o}, Queries: x.sol.Queries, Solver: x.sol.Time.Seconds(), Seconds: time.Since(t0).Seconds(), Canaries: 1}
	return
}

// counts: whether an obligation with these tags belongs to the property being checked.
func (x *Exec) counts(tags []string) bool {
	if len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if t == x.prop {
			return true
		}
	}
	return false
}

// runInits gives package variables that nothing changes later the values their initialisers compute.
func (x *Exec) runInits(st *State, pkgs []*ssa.Package, fns []*ssa.Function) {
	changed := map[*ssa.Global]bool{}
	for _, f := range fns {
		isInit := f.Name() == "init" && f.Parent() == nil
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok && !isInit {
						changed[g] = true
					}
				case *ssa.MapUpdate:
					if u, ok := in.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok && !isInit {
							changed[g] = true
						}
					}
				}
			}
		}
	}
	x.init = true
	for _, p := range pkgs {
		if p == nil || !strings.HasPrefix(p.Pkg.Path(), "github.com/andygello555/json-dom") {
			continue
		}
		in := p.Func("init")
		if in == nil || p.Pkg.Name() == "main" {
			continue
		}
		if n := p.Pkg.Name(); n != "globals" && n != "json_map" && (x.topFn == nil || x.topFn.Pkg != p || n != "js") {
			continue
		}
		var done *State
		x.run(nil, in, nil, nil, -1, st, nil, func(o Outcome) {
			if !o.panic && done == nil {
				done = o.st
			}
		})
		if done != nil {
			*st = *done
		}
	}
	x.init = false
	st.pc = nil
	// variables that may have changed since are unknown
	for g := range x.globals {
		et := g.Type().(*types.Pointer).Elem()
		_, basic := under(et).(*types.Basic)
		if changed[g] || basic && g.Object() != nil && g.Object().Exported() || strings.Contains(g.Name(), "init$") {
			delete(st.objs, x.globals[g])
			delete(x.globals, g)
		}
	}
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fatal("usage: vf worker PROP FN OUT | check PROP | ssa FN | list PROP")
	}
	switch os.Args[1] {
	case "worker":
		if p := os.Getenv("VF_PROF"); p != "" {
			f, _ := os.Create(p)
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		r := verifyFn(os.Args[2], os.Args[3])
		b, _ := json.MarshalIndent(r, "", " ")
		if len(os.Args) > 4 {
			os.WriteFile(os.Args[4], b, 0o644)
		} else {
			summarize(r)
		}
	case "ssa":
		prog, _ := loadProgram()
		for _, f := range allFns(prog) {
			if shortName(f.String()) == os.Args[2] {
				f.WriteTo(os.Stdout)
			}
		}
	case "fns":
		prog, _ := loadProgram()
		for _, f := range allFns(prog) {
			fmt.Println(shortName(f.String()))
		}
	case "list":
		newTheory()
		initSigs()
		for _, n := range propFns(os.Args[2]) {
			fmt.Println(n)
		}
	case "check":
		os.Exit(check(os.Args[2], os.Args[3:]))
	default:
		fatal("unknown command")
	}
}

func summarize(r result) {
	n := 0
	for _, o := range r.Obls {
		if o.Status == "proved" {
			n++
		}
	}
	fmt.Printf("%s: %d proved, %d trivial, %d open, %.1fs (solver %.1fs, %d queries, %d steps)\n", r.Fn, n, r.Trivial, len(r.Obls)-n, r.Seconds, r.Solver, r.Queries, r.Steps)
	if r.Error != "" {
		fmt.Println("  ERROR", r.Error)
	}
	seen := map[string]int{}
	for _, o := range r.Obls {
		if o.Status != "proved" {
			seen[o.Name]++
			if seen[o.Name] == 1 {
				fmt.Println("  OPEN", o.Name, "in", o.Fn)
				fmt.Println("      trace:", strings.Join(o.Trace, " | "))
			}
		}
	}
	if os.Getenv("VF_NOTES") != "" {
		for _, n := range r.Notes {
			fmt.Println("  note", n)
		}
	}
}

// structSorts declares the sorts of the repository's own struct types, so that contracts can name their fields.
func structSorts(prog *ssa.Program) {
	var ts []types.Type
	for _, p := range prog.AllPackages() {
		if !strings.Contains(p.Pkg.Path(), "andygello555/json-dom") {
			continue
		}
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				if _, ok := under(t.Type()).(*types.Struct); ok {
					ts = append(ts, t.Type())
				}
			}
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].String() < ts[j].String() })
	for _, t := range ts {
		th.sortOf(t)
	}
}

func initSigs() {
	for _, s := range []string{"Str", "Int"} {
		th.seqSort(s)
	}
	th.seqSort(th.seqSort("Int"))
}

// handleTypes lists the struct types of which the program has package variables only: pointers to them are names.
func handleTypes(fns []*ssa.Function) map[string]bool {
	h := map[string]bool{}
	not := map[string]bool{}
	elem := func(t types.Type) string {
		p, ok := under(t).(*types.Pointer)
		if !ok {
			return ""
		}
		n, ok := types.Unalias(p.Elem()).(*types.Named)
		if !ok || !repoType(n) {
			return ""
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			return ""
		}
		return typeKey(n)
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						h[elem(g.Type())] = true
					}
				}
				switch in := in.(type) {
				case *ssa.Alloc:
					if !literal(in) {
						not[elem(in.Type())] = true
					}
				case *ssa.IndexAddr:
					not[elem(in.Type())] = true
				case *ssa.FieldAddr:
					not[elem(in.Type())] = true
				}
			}
		}
	}
	for k := range not {
		delete(h, k)
	}
	delete(h, "")
	return h
}

// literal: the variable is filled field by field and copied, and that is all.
func literal(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			for _, u := range *r.Referrers() {
				if s, ok := u.(*ssa.Store); !ok || s.Val == r {
					return false
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// copies lists the package variables that a literal is stored in.
func copies(a *ssa.Alloc) (out []*ssa.Global) {
	if !literal(a) {
		return nil
	}
	for _, r := range *a.Referrers() {
		if l, ok := r.(*ssa.UnOp); ok {
			for _, u := range *l.Referrers() {
				if s, ok := u.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						out = append(out, g)
					}
				}
			}
		}
	}
	return out
}

// fieldFns finds the functions that initialisers put in fields of package variables, by package, variable and field.
func fieldFns(fns []*ssa.Function) map[string]string {
	out := map[string]string{}
	for _, f := range fns {
		if f.Name() != "init" || f.Parent() != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				var gs []*ssa.Global
				switch y := fa.X.(type) {
				case *ssa.Global:
					gs = append(gs, y)
				case *ssa.Alloc:
					gs = copies(y)
				}
				v := st.Val
				if c, ok := v.(*ssa.ChangeType); ok {
					v = c.X
				}
				fn, ok := v.(*ssa.Function)
				if !ok {
					continue
				}
				for _, g := range gs {
					fld := under(g.Type().(*types.Pointer).Elem()).(*types.Struct).Field(fa.Field).Name()
					out[shortName(g.String())+"."+fld] = shortName(fn.String())
				}
			}
		}
	}
	return out
}

// alias makes contracts of functions kept in fields of package variables contracts of those functions.
func (C *Contracts) alias(ffs map[string]string) {
	for name, fn := range ffs {
		if c := C.all[name]; c != nil && C.all[fn] == nil {
			C.all[fn] = c
		}
	}
}
