package main

// Executable form of the contracts: runs the real code on directed and random inputs. Used by /verif/verifier to find
// failing inputs; bounded, never counted as proof.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

type M = map[string]interface{}
type A = []interface{}

type orc struct {
	rng    *rand.Rand
	cur    *os.File
	cases  int
	seen   map[string]bool
	sample []string
	rule   string
	until  time.Time
	mu     sync.Mutex
	last   time.Time
	curTxt string
	known  []string
}

type failure struct{ m map[string]string }

func (o *orc) finish(fail map[string]string) {
	out := map[string]interface{}{"cases": o.cases, "distinct": len(o.seen), "samples": o.sample, "rule": o.rule, "fail": fail, "known": o.known}
	b, _ := json.Marshal(out)
	if p := os.Getenv("VF_OUT"); p != "" {
		os.WriteFile(p, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}

// begin names the case that runs next.
func (o *orc) begin(f string, args ...interface{}) {
	s := fmt.Sprintf(f, args...)
	o.mu.Lock()
	o.cases++
	o.curTxt, o.last = s, time.Now()
	o.mu.Unlock()
	if len(o.seen) < 200000 {
		if !o.seen[s] {
			o.seen[s] = true
			if len(o.sample) < 5 || o.cases%1999 == 0 && len(o.sample) < 12 {
				if len(s) > 600 {
					o.sample = append(o.sample, s[:600])
				} else {
					o.sample = append(o.sample, s)
				}
			}
		}
	}
	if o.cur != nil {
		b := []byte(s)
		o.cur.Truncate(0)
		o.cur.WriteAt(b, 0)
	}
}

func (o *orc) fail(what string, kv ...string) {
	m := map[string]string{"case": o.curTxt, "what": what}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i]] = kv[i+1]
	}
	panic(failure{m})
}

func (o *orc) eq(what, want, got string) {
	if want != got {
		o.fail(what, "expected", want, "observed", got)
	}
}

// runOracle: directed cases once, then random ones until the budget is used up.
func runOracle(t *testing.T, rule string, directed func(*orc), random func(*orc)) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VF_BUDGET"))
	if secs == 0 {
		secs = 5
	}
	o := &orc{rng: rand.New(rand.NewSource(seed*7919 + 1)), seen: map[string]bool{}, rule: rule, until: time.Now().Add(time.Duration(secs) * time.Second), last: time.Now()}
	if p := os.Getenv("VF_CUR"); p != "" {
		o.cur, _ = os.Create(p)
	}
	globals.HaltingDelay = 100
	go func() {
		for {
			time.Sleep(time.Second)
			o.mu.Lock()
			if time.Since(o.last) > 60*time.Second {
				o.finish(map[string]string{"case": o.curTxt, "what": "the case did not end within 60 s"})
				os.Exit(1)
			}
			o.mu.Unlock()
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				o.finish(f.m)
				t.Fatalf("%v", f.m)
			}
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			m := map[string]string{"case": o.curTxt, "what": "unexpected panic", "panic": fmt.Sprint(r), "stack": st}
			o.finish(m)
			t.Fatalf("%v", m)
		}
	}()
	if directed != nil {
		directed(o)
	}
	for random != nil && time.Now().Before(o.until) {
		random(o)
	}
	o.finish(nil)
}

// show writes a value with sorted keys and its dynamic types.
func show(v interface{}) string {
	var b strings.Builder
	showTo(&b, v)
	return b.String()
}

func showTo(b *strings.Builder, v interface{}) {
	switch v := v.(type) {
	case nil:
		b.WriteString("null")
	case M:
		ks := make([]string, 0)
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			fmt.Fprintf(b, "%q:", k)
			showTo(b, v[k])
		}
		b.WriteByte('}')
	case A:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			showTo(b, e)
		}
		b.WriteByte(']')
	case string:
		fmt.Fprintf(b, "%q", v)
	case float64, bool:
		fmt.Fprintf(b, "%v", v)
	case func(json json_map.JsonMapInt):
		fmt.Fprintf(b, "callback@%p", v)
	default:
		fmt.Fprintf(b, "%T:%v", v, v)
	}
}

func cp(v interface{}) interface{} {
	switch v := v.(type) {
	case M:
		m := M{}
		for k, e := range v {
			m[k] = cp(e)
		}
		return m
	case A:
		a := make(A, len(v))
		for i, e := range v {
			a[i] = cp(e)
		}
		return a
	}
	return v
}

var keyPool = []string{"a", "b", "c", "x", "B", "_k", "a-1", "ab"}

func (o *orc) key() string { return keyPool[o.rng.Intn(len(keyPool))] }

func (o *orc) scalar() interface{} {
	switch o.rng.Intn(7) {
	case 0:
		return nil
	case 1:
		return o.rng.Intn(2) == 0
	case 2, 3:
		return float64(o.rng.Intn(5) - 1)
	case 4:
		return "x"
	case 5:
		return "@"
	default:
		return o.key()
	}
}

func (o *orc) value(depth int) interface{} {
	if depth <= 0 {
		return o.scalar()
	}
	switch o.rng.Intn(5) {
	case 0:
		return o.scalar()
	case 1, 2:
		return o.object(depth)
	default:
		n := o.rng.Intn(5)
		a := make(A, n)
		homog := o.rng.Intn(3) == 0
		for i := range a {
			if homog {
				a[i] = o.object(depth - 1)
			} else {
				a[i] = o.value(depth - 1)
			}
		}
		return a
	}
}

func (o *orc) object(depth int) M {
	m := M{}
	n := o.rng.Intn(4)
	if o.rng.Intn(8) == 0 {
		n = 6
	}
	for i := 0; i < n; i++ {
		m[o.key()] = o.value(depth - 1)
	}
	return m
}

func docOf(m M) *jom.JsonMap { return jom.NewFromMap(cp(m).(M)) }

// catch runs f and reports its panic value.
func catch(f func()) (pv interface{}, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			pv = recover()
			if fl, ok := pv.(failure); ok {
				panic(fl)
			}
		}
	}()
	f()
	panicked = false
	return
}

func fs(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }
