package main

import "strings"

// simpHook simplifies applications of the built-in sequence, map and string functions.
func simpHook(op string, args []*Term) *Term {
	i := strings.IndexByte(op, '.')
	if i < 0 {
		switch op {
		case "cat":
			return simpCat(args[0], args[1])
		case "strlen":
			if s, ok := th.litText[args[0]]; ok {
				return intT(int64(len(s)))
			}
			if args[0].Op == "cat" {
				return Add(App("strlen", args[0].Args[0]), App("strlen", args[0].Args[1]))
			}
		case "strle":
			a, ok1 := th.litText[args[0]]
			b, ok2 := th.litText[args[1]]
			if ok1 && ok2 {
				return boolT(a <= b)
			}
			if args[0] == args[1] {
				return True
			}
		case "contains":
			a, ok1 := th.litText[args[0]]
			b, ok2 := th.litText[args[1]]
			if ok1 && ok2 {
				return boolT(strings.Contains(a, b))
			}
		case "substr":
			a, ok := th.litText[args[0]]
			x, ok1 := args[1].isInt()
			y, ok2 := args[2].isInt()
			if ok && ok1 && ok2 && 0 <= x && x <= y && y <= int64(len(a)) {
				return strLit(a[x:y])
			}
		}
		return nil
	}
	f, s := op[:i], op[i+1:]
	if e, ok := th.seqElem[s]; ok {
		_ = e
		a := args
		switch f {
		case "len":
			x := a[0]
			switch x.Op {
			case "empty." + s:
				return intT(0)
			case "build." + s:
				return Add(App(op, x.Args[0]), intT(1))
			case "app." + s:
				return Add(App(op, x.Args[0]), App(op, x.Args[1]))
			case "rep." + s:
				if n, ok := x.Args[0].isInt(); ok && n >= 0 {
					return intT(n)
				}
			case "upd." + s:
				// upd keeps the length when the index is in range, which the executor checks before it updates
				return App(op, x.Args[0])
			}
		case "at":
			x := a[0]
			switch x.Op {
			case "build." + s:
				n := App("len."+s, x.Args[0])
				if Eq(n, a[1]) == True {
					return x.Args[1]
				}
				if Lt(a[1], n) == True {
					return App(op, x.Args[0], a[1])
				}
			case "upd." + s:
				c := Eq(x.Args[1], a[1])
				if c == True {
					return x.Args[2]
				}
				if c == False {
					return App(op, x.Args[0], a[1])
				}
			case "rep." + s:
				return x.Args[1] // in range at every read the executor makes
			}
		case "upd":
			x := a[0]
			if x.Op == "upd."+s && x.Args[1] == a[1] {
				return App(op, x.Args[0], a[1], a[2])
			}
			if x.Op == "rep."+s {
				// a small literal array: expand to builds
				if n, ok := x.Args[0].isInt(); ok && n <= 8 {
					t := raw("empty."+s, s)
					for k := int64(0); k < n; k++ {
						t = raw("build."+s, s, t, x.Args[1])
					}
					return App(op, t, a[1], a[2])
				}
			}
			if x.Op == "build."+s {
				n := App("len."+s, x.Args[0])
				if Eq(n, a[1]) == True {
					return raw("build."+s, s, x.Args[0], a[2])
				}
				if Lt(a[1], n) == True {
					return raw("build."+s, s, App(op, x.Args[0], a[1], a[2]), x.Args[1])
				}
			}
		case "app":
			if a[0].Op == "empty."+s {
				return a[1]
			}
			if a[1].Op == "empty."+s {
				return a[0]
			}
			if a[1].Op == "build."+s {
				return raw("build."+s, s, App(op, a[0], a[1].Args[0]), a[1].Args[1])
			}
		case "take":
			if n, ok := a[1].isInt(); ok && n == 0 {
				return raw("empty."+s, s)
			}
			if Eq(a[1], App("len."+s, a[0])) == True {
				return a[0]
			}
		case "drop":
			if n, ok := a[1].isInt(); ok && n == 0 {
				return a[0]
			}
			if Eq(a[1], App("len."+s, a[0])) == True {
				return raw("empty."+s, s)
			}
			if a[0].Op == "drop."+s {
				return App(op, a[0].Args[0], Add(a[0].Args[1], a[1]))
			}
			if a[0].Op == "rep."+s && strings.HasPrefix(a[1].Op, "len.") {
				// what is left of a repetition after as many elements as some sequence has
				if n, ok := Sub(a[0].Args[0], a[1]).isInt(); ok && 0 <= n && n <= 8 {
					t := raw("empty."+s, s)
					for k := int64(0); k < n; k++ {
						t = raw("build."+s, s, t, a[0].Args[1])
					}
					return t
				}
			}
		case "rep":
			if n, ok := a[0].isInt(); ok && n == 0 {
				return raw("empty."+s, s)
			}
		}
		return nil
	}
	if _, ok := th.mapKV[s]; ok {
		a := args
		switch f {
		case "get", "has":
			m := a[0]
			if m.Op == "store."+s {
				c := Eq(m.Args[1], a[1])
				if c == True {
					if f == "has" {
						return True
					}
					return m.Args[2]
				}
				if c == False {
					return App(op, m.Args[0], a[1])
				}
			}
			if m.Op == "del."+s {
				c := Eq(m.Args[1], a[1])
				if c == True && f == "has" {
					return False
				}
				if c == False {
					return App(op, m.Args[0], a[1])
				}
			}
			if m.Op == "mempty."+s && f == "has" {
				return False
			}
		case "store":
			m := a[0]
			if (m.Op == "store."+s || m.Op == "del."+s) && m.Args[1] == a[1] {
				return App(op, m.Args[0], a[1], a[2])
			}
		case "del":
			m := a[0]
			if (m.Op == "store."+s || m.Op == "del."+s) && m.Args[1] == a[1] {
				return App(op, m.Args[0], a[1])
			}
			if m.Op == "mempty."+s {
				return m
			}
		}
	}
	return nil
}

func simpCat(a, b *Term) *Term {
	la, okA := th.litText[a]
	lb, okB := th.litText[b]
	if okA && la == "" {
		return b
	}
	if okB && lb == "" {
		return a
	}
	if okA && okB {
		return strLit(la + lb)
	}
	if a.Op == "cat" { // right-associate
		return simpCat(a.Args[0], simpCat(a.Args[1], b))
	}
	if okA && b.Op == "cat" {
		if l2, ok := th.litText[b.Args[0]]; ok {
			return simpCat(strLit(la+l2), b.Args[1])
		}
	}
	return raw("cat", "Str", a, b)
}
