package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/andygello555/json-dom/code"
	_go "github.com/andygello555/json-dom/code/go"
	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

type cbT = func(json json_map.JsonMapInt)

var langs = map[string]code.ScriptLangType{"js": code.JS, "go": code.GO}

func (o *orc) codeCase(s string) {
	o.begin("is a script: %q", s)
	first, rest, multi := strings.Cut(s, "\n")
	_ = multi
	lang, pre := strings.CutPrefix(first, "#//!")
	var c code.Code
	var ok bool
	pv, bad := catch(func() { c, ok = code.NewFrom(s) })
	l, known := langs[lang]
	switch {
	case pre && known:
		if bad || !ok {
			o.fail("a script is not recognised", "ok", fmt.Sprint(ok), "panic", fmt.Sprint(pv))
		}
		o.eq("the code to run", fmt.Sprintf("%q", rest), fmt.Sprintf("%q", c.Script))
		o.eq("the language", fmt.Sprint(l), fmt.Sprint(c.ScriptLang))
	case pre && len(lang) == 2:
		if !bad {
			o.fail("an unsupported two character language is not refused by a panic", "ok", fmt.Sprint(ok))
		}
	default:
		if bad || ok {
			o.fail("a string that is no script is recognised or refused", "ok", fmt.Sprint(ok), "panic", fmt.Sprint(pv))
		}
	}
}

func TestOracleC13(t *testing.T) {
	parts := []string{"#//!", "#//", "js", "go", "py", "j", "jsx", "JS", "\n", "\n\n", "x = 1", " ", "\r\n", "#//!js\n", "", "é", "\xff\xfe", "0!"}
	runOracle(t, "all strings of up to 4 parts around the shebang syntax, then random longer ones; callbacks and other values", func(o *orc) {
		var rec func(s string, n int)
		rec = func(s string, n int) {
			o.codeCase(s)
			if n > 0 {
				for _, p := range parts {
					rec(s+p, n-1)
				}
			}
		}
		rec("", 3)
		rec("#//!", 3)
		cb := cbT(func(json json_map.JsonMapInt) {})
		o.begin("a callback")
		c, ok := code.NewFrom(cb)
		if f, isf := c.Script.(cbT); !ok || c.ScriptLang != code.GO || !isf || fmt.Sprintf("%p", f) != fmt.Sprintf("%p", cb) {
			o.fail("a callback is not a script that runs itself", "observed", fmt.Sprint(c, ok))
		}
		for _, v := range []interface{}{nil, 1.0, true, M{"a": "#//!js\n"}, A{"#//!js\n"}, []byte("#//!js\nx"), func() {}, errors.New("#//!js"), []string{"#//!js\n"}, json.Number("#//!js\n")} {
			o.begin("%T is no script", v)
			if _, ok := code.NewFrom(v); ok {
				o.fail("a value that is no script is recognised")
			}
		}
	}, func(o *orc) {
		s := ""
		for i := 0; i < o.rng.Intn(8); i++ {
			s += parts[o.rng.Intn(len(parts))]
		}
		o.codeCase(s)
	})
}

// scriptDoc: a document with scripts; mk makes the value of a script member.
func (o *orc) scriptDoc(depth int, mk func() interface{}) M {
	m := o.object(1)
	for k := range m {
		if _, ok := m[k].(M); ok {
			delete(m, k)
		}
	}
	for i := 0; i < o.rng.Intn(4); i++ {
		m[o.key()] = mk()
	}
	if depth > 0 {
		for i := 0; i < o.rng.Intn(3); i++ {
			k := o.key()
			if o.rng.Intn(2) == 0 {
				m[k] = o.scriptDoc(depth-1, mk)
			} else {
				a := A{}
				for j := 0; j < o.rng.Intn(4); j++ {
					switch o.rng.Intn(3) {
					case 0:
						a = append(a, o.scriptDoc(depth-1, mk))
					case 1:
						a = append(a, o.scalar())
					default:
						a = append(a, A{o.scalar()})
					}
				}
				m[k] = a
			}
		}
	}
	return m
}

func isScript(v interface{}) bool {
	switch v := v.(type) {
	case cbT:
		return true
	case string:
		first, _, _ := strings.Cut(v, "\n")
		return first == "#//!js" || first == "#//!go"
	}
	return false
}

func stripModel(v interface{}, top bool) interface{} {
	switch v := v.(type) {
	case M:
		m := M{}
		for k, e := range v {
			if isScript(e) {
				continue
			}
			m[k] = stripModel(e, false)
		}
		return m
	case A:
		a := make(A, len(v))
		for i, e := range v {
			a[i] = e
			if m, ok := e.(M); ok {
				a[i] = stripModel(m, false)
			}
		}
		return a
	}
	return v
}

func TestOracleC14(t *testing.T) {
	runOracle(t, "random documents up to depth 4 with callbacks and script strings among the members, nested in objects and in objects that are array elements", nil, func(o *orc) {
		var mu sync.Mutex
		ran := 0
		cb := cbT(func(json json_map.JsonMapInt) { mu.Lock(); ran++; mu.Unlock() })
		texts := []string{"#//!js\njson.trail.zz = 1", "#//!js", "#//!js\nx\ny", "#//!python\nx", "#//!", "x\n#//!js"}
		m := o.scriptDoc(3, func() interface{} {
			if o.rng.Intn(2) == 0 {
				return cb
			}
			return texts[o.rng.Intn(len(texts))]
		})
		o.begin("strip %s", show(m))
		want := stripModel(m, true)
		d := docOf(m)
		d.Strip()
		o.eq("document after the strip", show(want), show(*d.GetInsides()))
		d.Strip()
		o.eq("document after the second strip", show(want), show(*d.GetInsides()))
		if pv, bad := catch(func() { d.Run() }); bad {
			o.fail("running a stripped document panics", "panic", fmt.Sprint(pv))
		}
		if ran != 0 {
			o.fail("a stripped callback ran")
		}
		o.eq("document after the strip and a run", show(want), show(*d.GetInsides()))
	})
}

type event struct{ obj, key string }

func TestOracleC15(t *testing.T) {
	runOracle(t, "random documents up to depth 4 whose callbacks record their runs and some of which add, change or remove members of their object; distinct by document", func(o *orc) {
		o.begin("javascript scripts in key order")
		d := docOf(M{"b": "#//!js\njson.trail.s = json.trail.s + 'b'", "a": "#//!js\njson.trail.s = json.trail.s + 'a'", "s": "", "in": M{"c": "#//!js\njson.trail.t = 1"}})
		d.Run()
		o.eq("document", show(M{"s": "ab", "in": M{"t": 1.0}}), show(*d.GetInsides()))
	}, func(o *orc) {
		var mu sync.Mutex
		var log []event
		next := 0
		type act struct{ kind, key string }
		var acts []act
		mk := func() interface{} {
			id := next
			next++
			a := act{}
			switch o.rng.Intn(8) {
			case 0:
				a = act{"set", "k" + fmt.Sprint(o.rng.Intn(3))}
			case 1:
				a = act{"delscript", o.key()}
			case 2:
				a = act{"addscript", "n" + fmt.Sprint(o.rng.Intn(3))}
			case 3:
				a = act{"addnested", "o" + fmt.Sprint(o.rng.Intn(3))}
			case 4:
				a = act{"strip", ""}
			}
			acts = append(acts, a)
			return id // replaced by a callback below
		}
		m := o.scriptDoc(3, mk)
		o.begin("run %s with actions %v", show(m), acts)
		// model: ids are ints; the callback of each performs its action
		var build func(v interface{}) interface{}
		runs := map[int]int{}
		var perform func(id int, in M)
		added := cbT(func(json json_map.JsonMapInt) { mu.Lock(); log = append(log, event{"added", "run"}); mu.Unlock() })
		nestedRun := 0
		nested := cbT(func(json json_map.JsonMapInt) { mu.Lock(); nestedRun++; mu.Unlock() })
		perform = func(id int, in M) {
			switch acts[id].kind {
			case "set":
				in[acts[id].key] = float64(id)
			case "delscript":
				delete(in, acts[id].key)
			case "addscript":
				in[acts[id].key] = added
			case "addnested":
				in[acts[id].key] = M{"s": nested, "v": A{1.0}}
			}
		}
		type order struct {
			id  int
			obj int
			par int
		}
		objs := 0
		where := map[int]order{}
		keyAt := map[int]string{}
		build = func(v interface{}) interface{} {
			switch v := v.(type) {
			case M:
				out := M{}
				for k, e := range v {
					if id, ok := e.(int); ok {
						id := id
						out[k] = cbT(func(json json_map.JsonMapInt) {
							mu.Lock()
							log = append(log, event{fmt.Sprint(id), ""})
							runs[id]++
							mu.Unlock()
							in := *json.GetInsides()
							if acts[id].kind == "strip" {
								json.FindScriptFields()
							}
							perform(id, in)
						})
					} else {
						out[k] = build(e)
					}
				}
				return out
			case A:
				out := A{}
				for _, e := range v {
					out = append(out, build(e))
				}
				return out
			}
			return v
		}
		real := build(m).(M)
		// expected: outcome document and the set of scripts that run
		expect := map[int]bool{}
		wantNested := 0
		var model func(v M, par int) M
		model = func(v M, par int) M {
			me := objs
			objs++
			var ks []string
			for k, e := range v {
				if _, ok := e.(int); ok {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			ids := []int{}
			for _, k := range ks {
				ids = append(ids, v[k].(int))
			}
			for i, k := range ks {
				id := ids[i]
				expect[id] = true
				where[id] = order{id, me, par}
				keyAt[id] = k
				perform(id, v)
				delete(v, k)
			}
			for k, e := range v {
				switch e := e.(type) {
				case M:
					if _, isN := e["s"].(cbT); isN {
						wantNested++
						v[k] = M{"v": A{1.0}}
						continue
					}
					v[k] = model(e, me)
				case A:
					for i, x := range e {
						if xm, ok := x.(M); ok {
							e[i] = model(xm, me)
						}
					}
				}
			}
			return v
		}
		parent := map[int]int{}
		_ = parent
		want := model(cp(m).(M), -1)
		d := jom.NewFromMap(real)
		if pv, bad := catch(func() { d.Run() }); bad {
			o.fail("the run panics", "panic", fmt.Sprint(pv))
		}
		for id := range runs {
			if !expect[id] {
				o.fail("a script ran that should not", "script", fmt.Sprint(id))
			}
		}
		pos := map[int]int{}
		for i, e := range log {
			if e.obj == "added" {
				o.fail("a script added to its own level while that level ran was executed")
			}
			var id int
			fmt.Sscan(e.obj, &id)
			pos[id] = i
		}
		for id := range expect {
			if runs[id] != 1 {
				o.fail("a script did not run exactly once", "script", fmt.Sprint(id), "runs", fmt.Sprint(runs[id]))
			}
		}
		if nestedRun != wantNested {
			o.fail("scripts in added objects", "expected", fmt.Sprint(wantNested), "observed", fmt.Sprint(nestedRun))
		}
		for a := range expect {
			for b := range expect {
				wa, wb := where[a], where[b]
				if wa.obj == wb.obj && keyAt[a] < keyAt[b] && pos[a] > pos[b] || wb.par == wa.obj && pos[a] > pos[b] {
					o.fail("scripts ran out of order", "first", fmt.Sprint(a), "second", fmt.Sprint(b), "log", fmt.Sprint(log))
				}
			}
		}
		o.eq("document after the run", noCb(want), noCb(*d.GetInsides()))
		before := len(log)
		n := nestedRun
		added2 := 0
		for _, a := range acts {
			if a.kind == "addscript" {
				added2++
			}
		}
		if added2 == 0 {
			d.Run()
			if len(log) != before || nestedRun != n {
				o.fail("a second run executes a script again")
			}
		}
	})
}

// noCb: like show, callbacks by kind only.
func noCb(v interface{}) string {
	s := show(v)
	var b strings.Builder
	for {
		i := strings.Index(s, "callback@0x")
		if i < 0 {
			b.WriteString(s)
			return b.String()
		}
		b.WriteString(s[:i] + "callback")
		s = s[i+11:]
		for len(s) > 0 && strings.IndexByte("0123456789abcdef", s[0]) >= 0 {
			s = s[1:]
		}
	}
}

func TestOracleC16(t *testing.T) {
	bad := []string{"", "[", "{", "[1,", "[1, 2", "{\"a\": [1, 2}", "{a: 1", "]", "[1]]", "{}}", "[\"a]", "null", "[{]", "[1]x", "{\"a\":1}x"}
	runOracle(t, "random JSON texts with object and array roots, decoded into fresh and used documents; ill formed texts; clones", func(o *orc) {
		for _, prev := range []string{"", "{\"k\":1}", "[1]"} {
			for _, b := range bad {
				o.begin("decode %q after %q", b, prev)
				d := jom.New()
				if prev != "" {
					if err := d.Unmarshal([]byte(prev)); err != nil {
						o.fail("decoding fails", "error", err.Error())
					}
				}
				if err := d.Unmarshal([]byte(b)); err == nil {
					var v interface{}
					if json.Unmarshal([]byte(b), &v) != nil && b != "" {
						o.fail("ill formed text is accepted", "observed", show(*d.GetInsides()))
					}
				}
			}
		}
	}, func(o *orc) {
		d := jom.New()
		desc := ""
		for i := 0; i < 1+o.rng.Intn(3); i++ {
			var v interface{}
			if o.rng.Intn(2) == 0 {
				v = o.object(3)
			} else {
				a := o.arr(4)
				v = a
			}
			txt, _ := json.Marshal(v)
			desc += string(txt) + " ; "
			o.begin("decode %s", desc)
			if err := d.Unmarshal(txt); err != nil {
				o.fail("decoding fails", "error", err.Error())
			}
			_, arr := v.(A)
			if d.IsArray() != arr || d.Array != arr {
				o.fail("being a root array", "expected", fmt.Sprint(arr), "observed", fmt.Sprint(d.IsArray()))
			}
			if arr {
				out, err := d.Marshal()
				if err != nil {
					o.fail("encoding fails", "error", err.Error())
				}
				o.eq("encoded text", string(txt), string(out))
				o.eq("root array", show(v), show((*d.GetInsides())["array"]))
			} else if i == 0 {
				out, err := d.Marshal()
				if err != nil {
					o.fail("encoding fails", "error", err.Error())
				}
				o.eq("encoded text", string(txt), string(out))
				o.eq("document", show(v), show(*d.GetInsides()))
			} else {
				for k, e := range v.(M) {
					o.eq("member "+k, show(e), show((*d.GetInsides())[k]))
				}
			}
			var back M
			s := d.String()
			d2 := jom.New()
			if !strings.Contains(desc, "@") {
				if err := d2.Unmarshal([]byte(s)); err != nil {
					o.fail("String does not decode", "text", s, "error", err.Error())
				}
				if d2.Array != arr {
					o.fail("String is not of the same kind", "text", s)
				}
			}
			_ = back
			f := d.Clone(false)
			o.eq("full clone", show(*d.GetInsides()), show(*f.GetInsides()))
			if f.IsArray() != arr {
				o.fail("a full clone disagrees on being an array")
			}
			(*d.GetInsides())["shared"] = float64(i)
			o.eq("content shared with the full clone", show(*d.GetInsides()), show(*f.GetInsides()))
			delete(*d.GetInsides(), "shared")
			c := d.Clone(true)
			if c.IsArray() != arr {
				o.fail("a cleared clone disagrees on being an array")
			}
			o.eq("cleared clone", "{}", show(*c.GetInsides()))
			(*c.GetInsides())["q"] = 1.0
			if _, leak := (*d.GetInsides())["q"]; leak {
				o.fail("a cleared clone shares content")
			}
		}
	})
}

func TestOracleC17(t *testing.T) {
	scripts := []struct {
		txt string
		bad bool
	}{{"#//!js\njson.trail.r = 1", false}, {"#//!js\nvar x = 1", false}, {"#//!js\nthrow 'no'", true}, {"#//!js\nnope.a", true}, {"#//!js\nsyntax error here", true}, {"#//!py\nx", true}, {"#//!go\nx", true}, {"#//!js\nthrow new Error('e')", true}, {"#//!js\nnull.x", true}, {"#//!js\njson.trail = 5", false}, {"#//!xx", true}, {"#//!js\nthrow ''", true}, {"#//!js\nthrow 0", true}, {"#//!js\nthrow null", true}, {"#//!js\nthrow undefined", true}, {"#//!js\nthrow false", true}, {"#//!js\nthrow {}", true}, {"#//!js\nthrow []", true}, {"#//!js\nthrow new Error('')", true}, {"#//!js\nthrow new RangeError()", true},
		{"#//!js\nthrow 'Error'", true}, {"#//!js\nthrow {toString: function() { return '' }}", true}, {"#//!js\nvar e = new Error('x'); e", false}, {"#//!js\nfalse", false}, {"#//!js\nnull", false}, {"#//!js\n'throw'", false}, {"#//!js\ntry { throw 'x' } catch (e) {}", false}, {"#//!js\nbreak", true}, {"#//!js\nreturn", true}, {"#//!js\n(function() { throw 'inner' })()", true}, {"#//!js\njson.jsonPathSelector('$[').setValues(1)", true}, {"#//!js\njson.jsonPathSelector('$.no.such.thing').getValues()", true}, {"#//!js\njson.jsonPathSelector(5)", true}, {"#//!js\n", false}}
	runOracle(t, "random JSON texts with zero to two script members (good, failing and of unknown language) at random depth; ill formed texts", func(o *orc) {
		for i, panicVal := range []interface{}{"text", errors.New("err"), 5, struct{ A int }{1}} {
			o.begin("callback panicking with %T", panicVal)
			_ = i
			d := docOf(M{"a": cbT(func(json json_map.JsonMapInt) { panic(panicVal) })})
			if pv, bad := catch(func() { d.Run() }); !bad {
				o.fail("the panic of a callback is lost", "panic", fmt.Sprint(pv))
			}
		}
	}, func(o *orc) {
		m := o.object(3)
		bad := false
		for i := 0; i < o.rng.Intn(3); i++ {
			s := scripts[o.rng.Intn(len(scripts))]
			switch o.rng.Intn(4) {
			case 0, 1:
				if old, ok := m["s"].(string); ok {
					for _, t := range scripts {
						if t.txt == old && t.bad {
							bad = false
						}
					}
				}
				m[fmt.Sprint("s", i)] = s.txt
			case 2:
				m[fmt.Sprint("o", i)] = M{"s": s.txt}
			default:
				m[fmt.Sprint("l", i)] = A{1.0, M{"s": s.txt}}
			}
			bad = bad || s.bad
		}
		txt, _ := json.Marshal(m)
		if strings.Contains(string(txt), "json.trail = 5") {
			return
		}
		if o.rng.Intn(10) == 0 {
			txt = txt[:len(txt)-1]
			o.begin("evaluate ill formed %s", txt)
			var err error
			if pv, p := catch(func() { _, err = jom.Eval(txt, false) }); p || err == nil {
				o.fail("ill formed text is not reported as an error", "panic", fmt.Sprint(pv))
			}
			return
		}
		o.begin("evaluate %s", txt)
		var out []byte
		var err error
		if pv, p := catch(func() { out, err = jom.Eval(txt, false) }); p {
			o.fail("a panic leaves the evaluation", "panic", fmt.Sprint(pv))
		}
		if bad && err == nil {
			o.fail("a failing script is not reported", "observed", string(out))
		}
		if !bad {
			if err != nil {
				o.fail("the evaluation fails", "error", err.Error())
			}
			var v interface{}
			if json.Unmarshal(out, &v) != nil {
				o.fail("the result is not JSON", "observed", string(out))
			}
			if !strings.Contains(string(txt), "#//!") {
				o.eq("result", string(txt), string(out))
			}
		}
	})
}

func TestOracleC18(t *testing.T) {
	runOracle(t, "callbacks that return, panic (with several kinds of values) or outlast the limit, after delays; a limit of 1 or 2 s", nil, func(o *orc) {
		d := jom.New()
		*d.GetInsides() = M{"a": 1.0}
		run := func(f cbT) (data json_map.JsonMapInt, err error, pv interface{}, bad bool) {
			pv, bad = catch(func() { data, err = _go.RunCallback(code.Code{Script: f, ScriptLang: code.GO}, d) })
			return
		}
		var wg sync.WaitGroup
		globals.HaltingDelay = 2
		var mu sync.Mutex
		bad := []string{}
		note := func(f string, a ...interface{}) { mu.Lock(); bad = append(bad, fmt.Sprintf(f, a...)); mu.Unlock() }
		o.begin("batch of callbacks, limit 2 s")
		for i := 0; i < 60; i++ {
			i := i
			delay := time.Duration(o.rng.Intn(4)*100) * time.Millisecond
			wg.Add(1)
			o.begin("callback %d of kind %d after %v", i, i%6, delay)
			go func() {
				defer wg.Done()
				start := time.Now()
				finished := false
				var mu2 sync.Mutex
				done := func() { mu2.Lock(); finished = true; mu2.Unlock() }
				fin := func() bool { mu2.Lock(); defer mu2.Unlock(); return finished }
				switch i % 6 {
				case 0, 1:
					data, err, pv, b := run(func(j json_map.JsonMapInt) { time.Sleep(delay); done() })
					if time.Since(start) > 1800*time.Millisecond {
						return // too slow a machine to judge
					}
					if b || err != nil || data != json_map.JsonMapInt(d) || !fin() {
						note("a callback that returns after %v: data %v err %v panic %v finished %v", delay, data == json_map.JsonMapInt(d), err, pv, fin())
					}
				case 2:
					with := []interface{}{i, false, true, 0, "", "text", 0.0, 1.5, []int{}, []string{"a"}, map[string]int{}, struct{}{}, M{}, (*int)(nil), (*os.PathError)(nil), errors.New(""), json_map.JsonMapInt(d), time.Second, 'x', byte(0), globals.ScriptError, globals.JsonPathError.FillError("x"), globals.HaltingProblem, globals.HaltingProblem.FillError("x"), func() {}}[(i/6+o.rng.Intn(3)*10)%25]
					_, err, pv, b := run(func(j json_map.JsonMapInt) { time.Sleep(delay); done(); panic(with) })
					same := reflect.DeepEqual(pv, with) || fmt.Sprintf("%T", with) == "func()" && fmt.Sprintf("%T", pv) == "func()"
					if time.Since(start) < 1800*time.Millisecond && (!b || !same || !fin()) {
						note("a callback that panics with %T %v: err %v panic %v", with, with, err, pv)
					}
				case 3:
					e := errors.New("own")
					_, err, pv, b := run(func(j json_map.JsonMapInt) { time.Sleep(delay); done(); panic(e) })
					if time.Since(start) < 1800*time.Millisecond && (!b || pv != interface{}(e) || !fin()) {
						note("a callback that panics with an error: err %v panic %v", err, pv)
					}
				case 4:
					data, err, pv, b := run(func(j json_map.JsonMapInt) { time.Sleep(20 * time.Second) })
					el := time.Since(start)
					if b || err == nil || !strings.Contains(err.Error(), "(-1) Infinite loop has occurred after") || el < 1990*time.Millisecond {
						note("a callback that outlasts the limit: data nil %v err %v panic %v after %v", data == nil, err, pv, el)
					}
				case 5:
					j0 := json_map.JsonMapInt(nil)
					_, err, pv, b := run(func(j json_map.JsonMapInt) { j0 = j; (*j.GetInsides())["z"+fmt.Sprint(i)] = 1.0; done() })
					if time.Since(start) < 1800*time.Millisecond && (b || err != nil || j0 != json_map.JsonMapInt(d)) {
						note("a callback is not given the document: err %v panic %v", err, pv)
					}
				}
			}()
			if i%6 == 5 {
				wg.Wait()
			}
		}
		wg.Wait()
		if len(bad) > 0 {
			o.fail("callback outcome", "observed", strings.Join(bad, "; "))
		}
	})
}

func TestOracleC19(t *testing.T) {
	runOracle(t, ruleDocs+"; script texts and supported and unsupported languages", nil, func(o *orc) {
		m, st := o.randWrite("nilwsfrq")
		p := render(st)
		lang := []string{"js", "go", "js", "py", "", "JS", "js\n"}[o.rng.Intn(7)]
		txt := []string{"", "x = 1", "a\nb\n", "#//!js\n", "%s %d%%", " ", "é\"'\\"}[o.rng.Intn(7)]
		o.begin("mark up %s of %s in language %q with %q", p, show(m), lang, txt)
		d := docOf(m)
		err := d.MarkupCode(p, lang, txt)
		if lang != "js" && lang != "go" {
			if err == nil {
				o.fail("an unsupported language is accepted")
			}
			o.eq("document", show(m), show(*d.GetInsides()))
			return
		}
		want, failed := writePath(m, st, "#//!"+lang+"\n"+txt)
		if failed {
			if err == nil {
				o.fail("a path that cannot be written is accepted", "observed", show(*d.GetInsides()))
			}
			return
		}
		if err != nil {
			o.fail("markup fails", "error", err.Error())
		}
		o.eq("document", show(want), show(*d.GetInsides()))
		c, ok := code.NewFrom("#//!" + lang + "\n" + txt)
		if !ok || c.Script != txt || c.ScriptLang != langs[lang] {
			o.fail("the written value is not recognised", "observed", fmt.Sprint(c, ok))
		}
	})
}

func TestOracleC20(t *testing.T) {
	pool := []string{"", "a", "b, c", ": ", ", ", "(-6) x", "%s", "(-6) A JSON path could not be evaluated for the following reason(s): ", "deep\nline", "(-1) Infinite loop has occurred after: 1s", " ", "  x ", ", ,", "\n", "日本", "100%", "%!d(MISSING)", "a:b", ":", strings.Repeat("long ", 200)}
	type kind struct {
		e    globals.RuntimeError
		head string
	}
	kinds := []kind{{globals.HaltingProblem, "(-1) Infinite loop has occurred after"}, {globals.UnsupportedScriptLang, "(-2) Unsupported script language in shebang"}, {globals.BuiltinGetterError, "(-3) An error has occurred when getting the value of a builtin variable"}, {globals.OverriddenBuiltin, "(-4) The following builtin was overridden"}, {globals.ScriptError, "(-5) The following script has caused an error"}, {globals.JsonPathError, "(-6) A JSON path could not be evaluated for the following reason(s)"}}
	runOracle(t, "every error kind with random lists of up to 5 details, and random lists of wrapped errors of the same and other kinds", nil, func(o *orc) {
		k := kinds[o.rng.Intn(len(kinds))]
		var ds []string
		for i := []int{0, 1, 1, 2, 2, 3, 4, 5, 12}[o.rng.Intn(9)]; i > 0; i-- {
			ds = append(ds, pool[o.rng.Intn(len(pool))])
		}
		given := append([]string(nil), ds...)
		o.begin("fill %s with %q", k.head, ds)
		text := func(head string, ds []string) string {
			if j := strings.Join(ds, ", "); j != "" {
				return head + ": " + j
			}
			return head
		}
		e := k.e
		o.eq("text", text(k.head, ds), e.FillError(ds...).Error())
		o.eq("the details afterwards", fmt.Sprintf("%q", given), fmt.Sprintf("%q", append([]string(nil), ds...)))
		o.eq("text of the second time", text(k.head, ds), e.FillError(ds...).Error())
		var errs []error
		var want, src []string
		for i, n := 0, []int{0, 1, 1, 2, 2, 3, 4, 11}[o.rng.Intn(8)]; i < n; i++ {
			switch o.rng.Intn(8) {
			case 2: // the head more than once, and in the middle
				errs = append(errs, errors.New("x "+k.head+": y "+k.head+": "+k.head+": z"))
			case 3: // parts of the head
				errs = append(errs, errors.New([]string{k.head, k.head + ":", k.head + ",", k.head[5:] + ": u", strings.ToLower(k.head) + ": v", k.head + ": ", ""}[o.rng.Intn(7)]))
			case 4: // wrapped twice already
				errs = append(errs, e.FillFromErrors([]error{errors.New("p"), e.FillError("q"), errors.New(k.head + ": r")}))
			case 5: // wrapped in another kind
				k2 := kinds[o.rng.Intn(len(kinds))]
				e2 := k2.e
				errs = append(errs, e2.FillFromErrors([]error{e.FillError("s", "t"), e.FillError("u")}))
			case 6: // one of the details
				errs = append(errs, errors.New(pool[o.rng.Intn(len(pool))]))
			case 0:
				k2 := kinds[o.rng.Intn(len(kinds))]
				e2 := k2.e
				errs = append(errs, e2.FillError("d"+fmt.Sprint(i)))
			case 1:
				errs = append(errs, e.FillError("own "+fmt.Sprint(i), "x"))
			default:
				errs = append(errs, errors.New("other "+fmt.Sprint(i)))
			}
			src = append(src, errs[i].Error())
			want = append(want, strings.ReplaceAll(errs[i].Error(), k.head+": ", ""))
		}
		o.begin("wrap %q in %s", src, k.head)
		o.eq("text", text(k.head, want), e.FillFromErrors(errs).Error())
		for i := range errs {
			o.eq("the wrapped error afterwards", src[i], errs[i].Error())
		}
	})
}

func TestOracleC21(t *testing.T) {
	paths := []string{"$", "$.a", "$.b[0]", "$..c", "$.*", "$.a.b", "a", "$[", "", "$.a b", " $.a"}
	scripts := []string{"x = 1", "", " y", "// No script specified", "$.a", "=", "a.b"}
	runOracle(t, "random option texts of one to five pairs, some ill formed, repeated paths included", nil, func(o *orc) {
		var ps []string
		want := map[string]string{}
		bad := false
		for i := 0; i < 1+o.rng.Intn(5); i++ {
			n := len(paths)
			if o.rng.Intn(4) > 0 {
				n = 6
			}
			p := paths[o.rng.Intn(n)]
			_, ok, _ := specParse(p)
			bad = bad || !ok
			switch o.rng.Intn(6) {
			case 0, 1:
				want[p] = "// No script specified"
				ps = append(ps, p)
			case 2:
				if o.rng.Intn(4) == 0 {
					bad = true
					ps = append(ps, p+":a:b")
					break
				}
				fallthrough
			default:
				s := scripts[o.rng.Intn(len(scripts))]
				want[p] = s
				ps = append(ps, p+":"+s)
			}
		}
		txt := strings.Join(ps, ",")
		var x JsonPathScriptPair
		if o.rng.Intn(2) == 0 {
			x = JsonPathScriptPair{"$.old": "old"}
		}
		o.begin("option %q", txt)
		err := x.Set(txt)
		if bad {
			if err == nil {
				o.fail("an ill formed option is accepted", "observed", fmt.Sprintf("%q", map[string]string(x)))
			}
			return
		}
		if err != nil {
			o.fail("a well formed option fails", "error", err.Error())
		}
		o.eq("entries", fmt.Sprintf("%q", want), fmt.Sprintf("%q", map[string]string(x)))
	})
}

var _ = os.Getenv
