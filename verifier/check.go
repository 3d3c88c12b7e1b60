package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func propFns(prop string) []string {
	curProp = prop
	var out []string
	for _, f := range contractFiles() {
		for _, x := range readSX(f) {
			if x.head() == "lemma" {
				if q := parseClause(x); hasStr(q.tags, prop) {
					out = append(out, "lemma "+q.name)
				}
			}
			if x.head() == "contract" {
				if c := parseContract(x, nil); c.Props[prop] {
					out = append(out, c.Name)
				}
			}
		}
	}
	return out
}

// separately gives the contracts that are not discharged under every property that relies on them.
func separately() map[string]string {
	out := map[string]string{}
	for _, f := range contractFiles() {
		for _, x := range readSX(f) {
			if x.head() == "contract" {
				if c := parseContract(x, nil); c.Separate != "" {
					out[c.Name] = c.Separate
				}
			}
		}
	}
	return out
}

// runLimited runs a command in its own process group, ended after the limit. It reports whether it ended by itself.
func runLimited(limit time.Duration, dir string, env []string, out *strings.Builder, name string, args ...string) (ok, ended bool) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if out != nil {
		c.Stdout, c.Stderr = out, out
	}
	if err := c.Start(); err != nil {
		return false, true
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		return err == nil, true
	case <-time.After(limit):
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-done
		return false, false
	}
}

func (r *result) complete() bool {
	if r.Error != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Status != "proved" {
			return false
		}
	}
	return true
}

// retry runs the other solver configurations at once and gives the first result that discharges everything.
func retry(prop, fn, dir string, limit time.Duration, first result) result {
	if first.unsupported() {
		return first
	}
	ch := make(chan result, 3)
	for a := 1; a <= 3; a++ {
		a := a
		go func() { ch <- runWorker(prop, fn, dir, limit/2, a) }()
	}
	for a := 1; a <= 3; a++ {
		if r := <-ch; r.complete() {
			return r
		}
	}
	return first
}

// unsupported: no solver configuration makes a difference.
func (r *result) unsupported() bool { return r.Error != "" && len(r.Obls) == 0 }

func runWorker(prop, fn, dir string, limit time.Duration, attempt int) result {
	out := filepath.Join(dir, fmt.Sprint(attempt)+strings.NewReplacer("/", "_", "*", "", "(", "", ")", "", " ", "_").Replace(fn)+".json")
	var log strings.Builder
	self, _ := os.Executable()
	_, ended := runLimited(limit, "/", []string{"VF_ATTEMPT=" + fmt.Sprint(attempt)}, &log, self, "worker", prop, fn, out)
	var r result
	if b, err := os.ReadFile(out); err == nil && json.Unmarshal(b, &r) == nil {
		return r
	}
	r.Fn = fn
	if !ended {
		r.Error = "the verifier did not finish within its time limit"
	} else {
		s := log.String()
		if len(s) > 1500 {
			s = s[len(s)-1500:]
		}
		r.Error = "the verifier ended abnormally: " + s
	}
	return r
}

type oracleOut struct {
	Cases    int               `json:"cases"`
	Distinct int               `json:"distinct"`
	Samples  []string          `json:"samples"`
	Rule     string            `json:"rule"`
	Fail     map[string]string `json:"fail"`
	Known    []string          `json:"known"`
	Error    string            `json:"-"`
}

// runOracle runs the executable form of the contracts against the real code.
func runOracle(prop, dir string, seconds int, seed int) oracleOut {
	var o oracleOut
	over := map[string]map[string]string{"Replace": {}}
	fs, _ := filepath.Glob(filepath.Join(verifDir(), "oracle", "*_test.go"))
	for _, f := range fs {
		over["Replace"][filepath.Join(repoDir, "zz_verif_"+filepath.Base(f))] = f
	}
	if len(fs) == 0 {
		o.Error = "no oracle"
		return o
	}
	ob, _ := json.Marshal(over)
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	bin := filepath.Join(dir, "oracle.test")
	var log strings.Builder
	genv := []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"}
	if ok, _ := runLimited(300*time.Second, repoDir, genv, &log, "go", "test", "-vet=off", "-c", "-overlay", of, "-o", bin, "."); !ok {
		o.Error = "the oracle does not build: " + log.String()
		return o
	}
	res, cur := filepath.Join(dir, "oracle.json"), filepath.Join(dir, "current")
	log.Reset()
	env := []string{"VF_OUT=" + res, "VF_CUR=" + cur, "VF_BUDGET=" + strconv.Itoa(seconds), "VERIF_SEED=" + strconv.Itoa(seed)}
	_, ended := runLimited(time.Duration(seconds+150)*time.Second, dir, env, &log, bin, "-test.run", "^TestOracle"+prop+"$", "-test.timeout", "0")
	if b, err := os.ReadFile(res); err == nil && json.Unmarshal(b, &o) == nil {
		return o
	}
	s := log.String()
	if strings.Contains(s, "no tests to run") {
		o.Error = "no oracle"
		return o
	}
	c, _ := os.ReadFile(cur)
	if len(s) > 4000 {
		s = s[:4000]
	}
	if len(c) == 0 {
		o.Error = "the oracle ended without a result: " + s
		return o
	}
	what := "the process crashed on this case"
	if !ended {
		what = "the process did not end on this case"
	}
	o.Fail = map[string]string{"case": string(c), "what": what, "output": s}
	return o
}

func verifDir() string {
	if d := os.Getenv("VF_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// knownFindings reads "property<TAB>key<TAB>text" lines.
func knownFindings(prop string) map[string]string {
	out := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir(), "known-findings"))
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "known: property="+prop+" "); ok {
			k, t, _ := strings.Cut(rest, " ")
			out[k] = t
		}
	}
	return out
}

type spec struct {
	Prop    string
	Oracle  int // seconds of the oracle, quick
	Thor    int
	Worker  int
	Note    string
	Bounded []string // functions decided only by the bounded check
}

func check(prop string, opts []string) int {
	t0 := time.Now()
	if r := os.Getenv("VF_REPO"); r != "" {
		repoDir = r
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	dir, err := os.MkdirTemp("", "vf")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	fns := propFns(prop)
	secs, limit, total := 12, 420*time.Second, 660*time.Second
	if tier == "thorough" {
		secs, limit, total = 180, 800*time.Second, 1600*time.Second
	}
	for _, o := range opts {
		if n, err := strconv.Atoi(strings.TrimPrefix(o, "oracle=")); err == nil && tier == "quick" {
			secs = n
		}
	}
	// a contract that is relied on is discharged too, under this property
	var mu sync.Mutex
	var results []result
	seen := map[string]bool{}
	sep := separately()
	isFn := map[string]bool{}
	for _, f := range fns {
		isFn[f] = true
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 7)
	var orc oracleOut
	wg.Add(1)
	var failing atomic.Bool // a failing input is known: other solver configurations are not needed
	go func() {
		defer wg.Done()
		orc = runOracle(prop, dir, secs, seed)
		failing.Store(len(orc.Fail) > 0)
	}()
	began := time.Now()
	remaining := func() time.Duration { // a check ends in any case
		return min(limit, max(total-time.Since(began), 20*time.Second))
	}
	var start func(f string)
	start = func(f string) {
		mu.Lock()
		if seen[f] {
			mu.Unlock()
			return
		}
		seen[f] = true
		i := len(results)
		results = append(results, result{})
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			r := runWorker(prop, f, dir, remaining(), 0)
			<-sem
			if !r.complete() && !failing.Load() {
				r = retry(prop, f, dir, remaining(), r)
			}
			mu.Lock()
			results[i] = r
			mu.Unlock()
			for _, g := range r.Used {
				if sep[g] == "" || isFn[g] {
					start(g)
				}
			}
		}()
	}
	for _, f := range fns {
		start(f)
	}
	wg.Wait()

	obl, disch, simp, invs := 0, 0, 0, 0
	back := map[string]int{}
	var open []string
	var openTxt strings.Builder
	var fnRep []map[string]any
	externs, notes := map[string]string{}, map[string]bool{}
	solver := 0.0
	canaries := 0
	for _, r := range results {
		n, p := len(r.Obls), 0
		names := map[string]int{}
		for _, o := range r.Obls {
			if o.Status == "proved" {
				p++
				back[o.Backend]++
			} else {
				names[o.Name]++
				if names[o.Name] == 1 {
					open = append(open, r.Fn+": "+o.Name)
				}
				if names[o.Name] < 4 {
					fmt.Fprintf(&openTxt, "function: %s\nobligation: %s\nstatus: not discharged (z3 and cvc5 gave no proof)\npath through the code: %s\ngoal: %s\n\n", r.Fn, o.Name, strings.Join(o.Trace, " | "), o.Goal)
				}
			}
		}
		obl += n + r.Trivial + r.Invs
		disch += p + r.Trivial + r.Invs
		invs += r.Invs
		simp += r.Trivial
		if r.Error != "" {
			obl++
			open = append(open, r.Fn+": the function is verified against its contract")
			fmt.Fprintf(&openTxt, "function: %s\nobligation: the function is verified against its contract\nstatus: %s\n\n", r.Fn, r.Error)
		}
		if r.Trusted == "" && r.Error == "" && n+r.Trivial == 0 {
			obl++
			open = append(open, r.Fn+": at least one obligation is generated")
			fmt.Fprintf(&openTxt, "function: %s\nno obligation was generated\n\n", r.Fn)
		}
		fnRep = append(fnRep, map[string]any{"function": r.Fn, "obligations": n + r.Trivial, "discharged_by_solver": p, "discharged_by_simplification": r.Trivial, "loop_invariant_obligations": r.Invs, "seconds": round(r.Seconds), "solver_seconds": round(r.Solver), "queries": r.Queries, "error": r.Error, "callee_contracts": r.Used, "code_no_path_reaches": r.Dead})
		for k, v := range r.Externs {
			externs[k] = v
		}
		for _, n := range r.Notes {
			notes[n] = true
		}
		solver += r.Solver
		canaries += r.Canaries
	}
	back["simplifier"] = simp
	back["z3 (loop invariants)"] = invs
	known := knownFindings(prop)
	for _, k := range orc.Known {
		if t, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, t)
		} else {
			orc.Fail = map[string]string{"what": "finding not in the known-findings file", "case": k}
		}
	}
	var assumptions []string
	for k, v := range externs {
		assumptions = append(assumptions, "trusted contract of "+k+": "+v)
	}
	for n := range notes {
		assumptions = append(assumptions, n)
	}
	for _, r := range results {
		for _, g := range r.Used {
			if sep[g] != "" && !isFn[g] {
				t := "contract of " + g + ": " + sep[g]
				if !hasStr(assumptions, t) {
					assumptions = append(assumptions, t)
				}
			}
		}
	}
	sort.Strings(assumptions)
	assumptions = append(assumptions, commonAssumptions...)
	viol := 0
	if len(open) > 0 || orc.Fail != nil || (orc.Error != "" && orc.Error != "no oracle") {
		viol = 1
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": round(time.Since(t0).Seconds()), "violations": viol,
		"assumptions": assumptions,
		"coverage": map[string]any{
			"obligations": obl, "discharged": disch, "checker_cmd": "vf check " + prop + " (one 'vf worker " + prop + " FUNCTION' per function; z3-new, z3, cvc5)",
			"trusted_base":               []string{"verifier/ (the verification-condition generator written for this task, over golang.org/x/tools go/ssa of the current source)", "contracts/*.sx (specification axioms)", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "Go type checker and SSA builder"},
			"functions":                  fnRep,
			"back_ends":                  back,
			"solver_seconds":             round(solver),
			"vacuity_checks":             canaries,
			"loop_invariant_obligations": invs,
			"failed_obligations":         open,
			"bounded_check":              map[string]any{"what": "executable form of the contracts run on the real code to find failing inputs; bounded, not counted as proved", "cases": orc.Cases, "distinct_nontrivial": orc.Distinct, "rule": orc.Rule, "note": orc.Error},
			"evaluations":                orc.Cases,
			"distinct_nontrivial":        orc.Distinct,
			"rule":                       orc.Rule,
			"samples":                    orc.Samples,
		},
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	for _, r := range results {
		np := 0
		for _, o := range r.Obls {
			if o.Status == "proved" {
				np++
			}
		}
		fmt.Printf("%s %s: %d obligations, %d discharged (%d by simplification, %d for loop invariants), %.1fs%s\n", prop, r.Fn, len(r.Obls)+r.Trivial+r.Invs, np+r.Trivial+r.Invs, r.Trivial, r.Invs, r.Seconds, errTxt(r.Error))
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions; bounded check: %d cases %s; %.1fs\n", prop, obl, disch, len(fns), orc.Cases, orc.Error, time.Since(t0).Seconds())
	if viol == 0 {
		return 0
	}
	rdir := filepath.Join(verifDir(), "replay")
	os.MkdirAll(rdir, 0o755)
	rp := filepath.Join(rdir, fmt.Sprintf("%s-%d.txt", prop, os.Getpid()))
	var t strings.Builder
	fmt.Fprintf(&t, "property: %s\n", prop)
	if orc.Fail != nil {
		t.WriteString("failing input on the real code (executable form of the contract):\n")
		var ks []string
		for k := range orc.Fail {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&t, "  %s: %s\n", k, orc.Fail[k])
		}
		fmt.Fprintf(&t, "replay: VERIF_SEED=%d VERIF_TIER=%s /verif/check.sh %s\n\n", seed, tier, prop)
	}
	if orc.Error != "" {
		fmt.Fprintf(&t, "bounded check: %s\n\n", orc.Error)
	}
	for _, o := range open {
		fmt.Printf("failed obligation: %s\n", o)
		fmt.Fprintf(&t, "failed obligation: %s\n", o)
	}
	t.WriteString("\nverifier output:\n" + openTxt.String())
	os.WriteFile(rp, []byte(t.String()), 0o644)
	if orc.Fail != nil {
		for k, v := range orc.Fail {
			fmt.Printf("  %s: %s\n", k, v)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	return 1
}

func errTxt(e string) string {
	if e == "" {
		return ""
	}
	return " ERROR " + e
}

func round(f float64) float64 { return float64(int(f*10)) / 10 }

var commonAssumptions = []string{
	"machine integers are treated as mathematical integers",
	"documents are finite trees: no object or array is part of two documents or of itself",
	"goroutines are run one after the other at the point where their results are awaited; only orders of channel delivery are arbitrary",
	"termination is not proved",
	"byte slices are treated as immutable strings",
}
