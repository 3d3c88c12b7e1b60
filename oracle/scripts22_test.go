package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"
)

var jsKeys = []string{"a", "b", "c", "x", "length", "toString", "", "é", "a b", "0", "k\n", "__proto__", "😀"}

// jsValue: a JSON value for a script to move around.
func (o *orc) jsValue(depth int) interface{} {
	if depth > 0 {
		switch o.rng.Intn(4) {
		case 0:
			m := M{}
			for i := o.rng.Intn(4); i > 0; i-- {
				m[jsKeys[o.rng.Intn(len(jsKeys))]] = o.jsValue(depth - 1)
			}
			return m
		case 1:
			a := A{}
			for i := o.rng.Intn(4); i > 0; i-- {
				a = append(a, o.jsValue(depth-1))
			}
			return a
		}
	}
	return []interface{}{nil, true, false, 0.0, 1.0, -1.0, 2.5, 1e15, 0.1, 1e-9, 1e21, 123456.789, "", "s", "1", "null", "é\u2028", "😀", "<b>&", "\"'\\\n", "[object Object]"}[o.rng.Intn(21)]
}

func jsText(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return strings.NewReplacer("\u2028", "\\u2028", "\u2029", "\\u2029").Replace(string(b))
}

// jsCase runs one script on the document.
func (o *orc) jsCase(m M, script string, want M) {
	in := cp(m).(M)
	in["~script"] = "#//!js\n" + script
	o.begin("run %q on %s", script, show(m))
	d := docOf(in)
	if pv, bad := catch(func() { d.Run() }); bad {
		o.fail("the script fails", "panic", fmt.Sprint(pv))
	}
	o.eq("document after the run", show(want), show(*d.GetInsides()))
}

func TestOracleC22(t *testing.T) {
	rule := "random documents and values up to depth 3 (nested and empty arrays and objects, nulls, fractions, large and small numbers, characters beyond ASCII, names of built-in members); scripts that do nothing, assign a value, copy a member, write a value through a path, or do several of these in turn with one node set; against the model of writing used by C06 and C07"
	runOracle(t, rule, func(o *orc) {
		m := M{"a": A{1.0, A{}, M{"b": nil}}, "o": M{"p": A{A{1.0}, A{2.0, nil}}}, "n": nil, "s": "x"}
		o.jsCase(m, "", m)
		for _, v := range []interface{}{nil, true, 1.0, "x", A{}, M{}, A{1.0}, A{A{}}, M{"a": A{nil}}, M{"a": nil}, A{M{"b": A{}}, nil, "z"}} {
			w := cp(m).(M)
			w["s"] = v
			o.jsCase(m, "json.trail.s = "+jsText(v), w)
			if v != nil {
				o.jsCase(m, "json.jsonPathSelector('$.s').setValues("+jsText(v)+")", w)
			}
		}
		w := cp(m).(M)
		delete(w, "s")
		o.jsCase(m, "json.jsonPathSelector('$.s').setValues(null)", w)
		o.jsCase(m, "delete json.trail.s", w)
	}, func(o *orc) {
		m := M{}
		for i := o.rng.Intn(4); i >= 0; i-- {
			m[jsKeys[o.rng.Intn(len(jsKeys))]] = o.jsValue(3)
		}
		v := o.jsValue(3)
		switch o.rng.Intn(6) {
		case 0:
			o.jsCase(m, "", m)
		case 1:
			k := jsKeys[o.rng.Intn(len(jsKeys))]
			w := cp(m).(M)
			w[k] = v
			o.jsCase(m, "json.trail["+jsText(k)+"] = "+jsText(v), w)
		case 2:
			w := cp(m).(M)
			for k := range m {
				w["copy"] = m[k]
				o.jsCase(m, "json.trail.copy = json.trail["+jsText(k)+"]", w)
				break
			}
		case 3, 4: // several steps, some through the same node set
			m, st := o.randWrite("nilws")
			w := M{"d": m}
			m = cp(w).(M)
			st = append([]step{{kind: "name", name: "d"}}, st...)
			script := "var n = json.jsonPathSelector(" + jsText(render(st)) + ");"
			for i := o.rng.Intn(3) + 1; i >= 0; i-- {
				v, k := o.jsValue(2), jsKeys[o.rng.Intn(5)]
				switch o.rng.Intn(4) {
				case 0:
					w[k] = v
					script += "json.trail[" + jsText(k) + "] = " + jsText(v) + ";"
				case 1:
					delete(w, k)
					script += "delete json.trail[" + jsText(k) + "];"
				default:
					next, failed := writePath(w, st, v)
					if failed {
						return
					}
					w = next
					script += "n.setValues(" + jsText(v) + ");"
				}
			}
			o.jsCase(m, script, w)
		default:
			m, st := o.randWrite("nilws")
			if o.rng.Intn(4) == 0 {
				v = nil
			}
			m = M{"d": m}
			st = append([]step{{kind: "name", name: "d"}}, st...)
			w, failed := writePath(m, st, v)
			if failed {
				return
			}
			o.jsCase(m, "json.jsonPathSelector("+jsText(render(st))+").setValues("+jsText(v)+")", w)
		}
	})
}
