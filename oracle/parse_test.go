package main

import (
	"fmt"
	"strconv"
	"strings"
	"testing"
	"unicode"

	"github.com/andygello555/json-dom/jom/json_map"
)

// specParse: the language of path strings, written from its description. ok is false for a string that is no path;
// skip is true where the text has several filters (known finding) or is not plain text.
func specParse(p string) (paths [][]string, ok, skip bool) {
	end := len(strings.TrimRightFunc(p, unicode.IsSpace))
	if !strings.HasPrefix(p, "$") {
		return nil, false, false
	}
	p = p[:end]
	i := 1
	alts := [][]string{{}}
	add := func(ks ...string) {
		var out [][]string
		for _, a := range alts {
			for _, k := range ks {
				out = append(out, append(append([]string{}, a...), k))
			}
		}
		alts = out
	}
	letter := func(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	name := func() string {
		j := i
		if j < len(p) && letter(p[j]) {
			for j < len(p) && (letter(p[j]) || p[j] >= '0' && p[j] <= '9' || p[j] == '-') {
				j++
			}
		}
		s := p[i:j]
		i = j
		return s
	}
	num := func(neg bool) (int, bool, bool) {
		j := i
		if neg && j < len(p) && p[j] == '-' {
			j++
		}
		k := j
		for k < len(p) && p[k] >= '0' && p[k] <= '9' {
			k++
		}
		if k == j {
			return 0, false, false
		}
		n, err := strconv.Atoi(p[i:k])
		i = k
		return n, true, err != nil
	}
	for i < len(p) {
		switch p[i] {
		case '.':
			n := 0
			for i < len(p) && p[i] == '.' {
				i++
				n++
			}
			if i < len(p) && letter(p[i]) {
				nm := name()
				if n == 2 {
					add("R:" + nm)
					break
				}
				for ; n > 2; n-- {
					add("F")
				}
				add("S:" + nm)
				break
			}
			for ; n > 2; n-- {
				add("F")
			}
			if i < len(p) && p[i] == '*' {
				i++
				add("W")
			} else if i < len(p) && p[i] != '[' {
				return nil, false, false
			}
		case '[':
			if strings.HasPrefix(p[i:], "[?(") {
				line := p[i:]
				if nl := strings.IndexByte(line, '\n'); nl >= 0 {
					line = line[:nl]
				}
				e := strings.LastIndex(line, ")]")
				if e < 3 {
					return nil, false, false
				}
				if strings.Contains(line[3:e], ")]") {
					return nil, false, true
				}
				add("Q:" + line[3:e])
				i += e + 2
				break
			}
			i++
			if strings.HasPrefix(p[i:], "*]") {
				i += 2
				add("W")
				break
			}
			if i < len(p) && p[i] == ':' {
				i++
				n, got, big := num(true)
				if !got || big || i >= len(p) || p[i] != ']' {
					return nil, false, false
				}
				i++
				add(fs("L:_,%d", n))
				break
			}
			neg := i < len(p) && p[i] == '-'
			n, got, big := num(true)
			if !got || big || i >= len(p) {
				return nil, false, false
			}
			switch p[i] {
			case ']':
				i++
				add(fs("I:%d", n))
			case ':':
				i++
				if i < len(p) && p[i] == ']' {
					i++
					add(fs("L:%d,_", n))
					break
				}
				m, got, big := num(false)
				if neg || !got || big || i >= len(p) || p[i] != ']' {
					return nil, false, false
				}
				i++
				add(fs("L:%d,%d", n, m))
			case ',':
				if neg {
					return nil, false, false
				}
				ks := []string{fs("I:%d", n)}
				for i < len(p) && p[i] == ',' {
					i++
					for i < len(p) && strings.IndexByte(" \t\n\f\r", p[i]) >= 0 {
						i++
					}
					m, got, big := num(false)
					if !got || big {
						return nil, false, false
					}
					ks = append(ks, fs("I:%d", m))
				}
				if i >= len(p) || p[i] != ']' {
					return nil, false, false
				}
				i++
				add(ks...)
			default:
				return nil, false, false
			}
		default:
			return nil, false, false
		}
	}
	if len(alts) == 1 && len(alts[0]) == 0 {
		return [][]string{}, true, false
	}
	return alts, true, false
}

func keyText(k json_map.AbsolutePathKey) string {
	sv := func() string {
		if s, ok := k.Value.(string); ok {
			return s
		}
		return fmt.Sprintf("?%T", k.Value)
	}
	switch k.KeyType {
	case json_map.StringKey:
		return "S:" + sv()
	case json_map.IndexKey:
		return fmt.Sprintf("I:%v", k.Value)
	case json_map.Wildcard:
		return "W"
	case json_map.Filter:
		return "Q:" + sv()
	case json_map.First:
		return "F"
	case json_map.RecursiveLookup:
		return "R:" + sv()
	case json_map.Slice:
		s, ok := k.Value.([]json_map.AbsolutePathKey)
		if !ok || len(s) != 2 {
			return fmt.Sprintf("badslice %v", k.Value)
		}
		t := func(k json_map.AbsolutePathKey) string {
			if k.KeyType == json_map.StartEnd {
				return "_"
			}
			if k.KeyType == json_map.IndexKey {
				return fmt.Sprint(k.Value)
			}
			return "?"
		}
		return "L:" + t(s[0]) + "," + t(s[1])
	}
	return fmt.Sprintf("?%v", k)
}

func (o *orc) parseCase(p string) {
	want, ok, skip := specParse(p)
	if skip {
		return
	}
	o.begin("parse %q", p)
	got, err := json_map.ParseJsonPath(p)
	if !ok {
		if err == nil {
			o.fail("a string that is no path is accepted", "observed", fmt.Sprint(got))
		}
		return
	}
	if err != nil {
		o.fail("a path is rejected", "error", err.Error())
	}
	var gs [][]string
	for _, a := range got {
		var ks []string
		for _, k := range a {
			ks = append(ks, keyText(k))
		}
		gs = append(gs, ks)
	}
	if len(gs) == 0 {
		gs = [][]string{}
	}
	o.eq("steps", fmt.Sprintf("%q", want), fmt.Sprintf("%q", gs))
}

var toks = []string{".a", ".", "..", "...", "....", ".....", "..bc", "a", "_x-1", ".*", "*", "[*]", "[0]", "[12]", "[-3]", "[1,2]", "[1, 2,  3]", "[1:]", "[:2]", "[-1:]", "[:-1]", "[1:3]", "[:]", "[-2:-1]", "[1:-1]", "[?(@.a > 1)]", "[?(@['a'] === \"]\")]", "[?()]", "[?(", ")]", "[", "]", "$", " ", "\n", "\t ", "..-", ".1", ".a1", ".é", "[01]", "[--1]", "[1,-2]", "[1,]", "[,1]", "[1 ,2]", "[ 1]", "[1 ]", "[99999999999999999999]", "[9223372036854775807]", "[-9223372036854775809]", "[1, 99999999999999999999]", "[99999999999999999999,0]", "[99999999999999999999:]", "[:99999999999999999999]", "[0:99999999999999999999]", "[0,0]", "[7,007]", "[00:01]", "[?(a\n)]", "[?(@ == \"\")]", "[?((1))]", "[?(1))]", "[?((1)]", "[?( 1 )]", "[?(é[0])]", "[1:2:3]", "[a]", "['a']", "[?(a)b]", "[1,\t2]", "[10,200]", ".aB_-9", "..*", "...a", "....b[0]", "..a..b", "\v", "\u00a0"}

func TestOracleC09(t *testing.T) {
	runOracle(t, "all strings of up to three tokens from a list of well and ill formed tokens after \"$\", then random longer and mutated ones", func(o *orc) {
		o.parseCase("")
		o.parseCase("a")
		o.parseCase(" $")
		for _, a := range toks {
			o.parseCase("$" + a)
			o.parseCase(a + "$")
			for _, b := range toks {
				o.parseCase("$" + a + b)
				for _, c := range toks {
					if o.rng.Intn(4) == 0 {
						o.parseCase("$" + a + b + c)
					}
				}
			}
		}
		long := strings.Repeat("a", 5000)
		o.parseCase("$." + long + "[1]." + long)
		o.parseCase("$." + long + strings.Repeat(" ", 5000) + "x")
		o.parseCase("$[?(@ === '" + long + "')].a")
		o.parseCase("$" + strings.Repeat(".a[1, 2]", 8))
		if got, err := json_map.ParseJsonPath("$.a[?(@.x == 1)].b[?(@.y == 2)]"); err != nil || len(got) != 1 || len(got[0]) != 5 {
			o.known = append(o.known, "chained-filters")
		}
	}, func(o *orc) {
		var b strings.Builder
		b.WriteString("$")
		for i := 0; i < 1+o.rng.Intn(7); i++ {
			if o.rng.Intn(2) == 0 {
				b.WriteString(render([]step{o.step(nil, "nilwsfrq")})[1:])
			} else {
				b.WriteString(toks[o.rng.Intn(len(toks))])
			}
		}
		s := b.String()
		if o.rng.Intn(3) == 0 && len(s) > 1 {
			i := o.rng.Intn(len(s))
			cs := ".[]*:,-?()$ a1_\n'@"
			switch o.rng.Intn(3) {
			case 0:
				s = s[:i] + string(cs[o.rng.Intn(len(cs))]) + s[i:]
			case 1:
				s = s[:i] + s[i+1:]
			default:
				s = s[:i] + string(cs[o.rng.Intn(len(cs))]) + s[i+1:]
			}
		}
		o.parseCase(s)
	})
}

func showPaths(p json_map.AbsolutePaths) string {
	var b strings.Builder
	for _, r := range p {
		fmt.Fprintf(&b, "%v;", r)
	}
	return b.String()
}

func TestOracleC10(t *testing.T) {
	runOracle(t, "random lists of up to 4 paths of up to 4 steps, some with spare capacity, and up to 4 alternative steps, added several times", nil, func(o *orc) {
		key := func() json_map.AbsolutePathKey {
			if o.rng.Intn(2) == 0 {
				return json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: o.rng.Intn(10)}
			}
			return json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: o.key()}
		}
		var p json_map.AbsolutePaths
		n := o.rng.Intn(4)
		for i := 0; i < n; i++ {
			row := make([]json_map.AbsolutePathKey, 0, o.rng.Intn(8))
			for j := 0; j < o.rng.Intn(4); j++ {
				row = append(row, key())
			}
			p = append(p, row)
		}
		if o.rng.Intn(2) == 0 && p == nil {
			p = json_map.AbsolutePaths{}
		}
		for round := 0; round < 1+o.rng.Intn(3); round++ {
			var alt []json_map.AbsolutePathKey
			for i := 0; i < o.rng.Intn(4); i++ {
				alt = append(alt, key())
			}
			o.begin("add %v to %s", alt, showPaths(p))
			var want json_map.AbsolutePaths
			if len(alt) == 0 {
				for _, r := range p {
					want = append(want, append([]json_map.AbsolutePathKey{}, r...))
				}
			} else if len(p) == 0 {
				for _, k := range alt {
					want = append(want, []json_map.AbsolutePathKey{k})
				}
			} else {
				for _, r := range p {
					for _, k := range alt {
						want = append(want, append(append([]json_map.AbsolutePathKey{}, r...), k))
					}
				}
			}
			orig := append([]json_map.AbsolutePathKey{}, alt...)
			if errs := p.AddToAll(nil, false, alt...); errs != nil {
				o.fail("adding without a check reports errors", "error", fmt.Sprint(errs))
			}
			o.eq("the alternatives given", fmt.Sprint(orig), fmt.Sprint(alt))
			o.eq("paths", showPaths(want), showPaths(p))
			// independence: change the alternatives, every row, and extend every row, then compare all rows
			for i := range alt {
				alt[i] = json_map.AbsolutePathKey{KeyType: json_map.First}
			}
			o.eq("paths after changing the given alternatives", showPaths(want), showPaths(p))
			if len(p) > 1 {
				q := append(json_map.AbsolutePaths{}, p...)
				i := o.rng.Intn(len(q))
				ext := append(q[i], json_map.AbsolutePathKey{KeyType: json_map.Wildcard})
				for j := range ext {
					ext[j] = json_map.AbsolutePathKey{KeyType: json_map.Wildcard}
				}
				for j := range want {
					if j != i {
						o.eq(fs("path %d after extending and changing path %d", j, i), fmt.Sprint(want[j]), fmt.Sprint(p[j]))
					}
				}
				if len(p[i]) > 0 {
					copy(p[i], want[i])
				}
				o.eq("paths restored", showPaths(want), showPaths(p))
				// extensions of different paths must not meet
				var exts [][]json_map.AbsolutePathKey
				for j := range p {
					exts = append(exts, append(p[j], json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: j}))
				}
				for j := range exts {
					o.eq(fs("extension of path %d", j), fmt.Sprint(append(append([]json_map.AbsolutePathKey{}, want[j]...), json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: j})), fmt.Sprint(exts[j]))
				}
			}
		}
	})
}
