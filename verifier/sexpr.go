package main

import (
	"fmt"
	"os"
	"strings"
)

// S-expressions: the concrete syntax of contract and theory files.

type SX struct {
	Atom string
	List []*SX
	IsL  bool
	Line int
}

func (s *SX) String() string {
	if !s.IsL {
		return s.Atom
	}
	var p []string
	for _, x := range s.List {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func (s *SX) head() string {
	if s.IsL && len(s.List) > 0 && !s.List[0].IsL {
		return s.List[0].Atom
	}
	return ""
}

func parseSX(src, file string) []*SX {
	pos, line := 0, 1
	var stack []*SX
	top := &SX{IsL: true}
	cur := top
	for pos < len(src) {
		c := src[pos]
		switch {
		case c == '\n':
			line++
			pos++
		case c == ' ' || c == '\t' || c == '\r':
			pos++
		case c == ';':
			for pos < len(src) && src[pos] != '\n' {
				pos++
			}
		case c == '(':
			n := &SX{IsL: true, Line: line}
			cur.List = append(cur.List, n)
			stack = append(stack, cur)
			cur = n
			pos++
		case c == ')':
			if len(stack) == 0 {
				panic(fmt.Sprintf("%s:%d: unbalanced )", file, line))
			}
			cur = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			pos++
		case c == '"':
			j := pos + 1
			var b strings.Builder
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					default:
						b.WriteByte(src[j])
					}
					j++
					continue
				}
				b.WriteByte(src[j])
				j++
			}
			cur.List = append(cur.List, &SX{Atom: "\"" + b.String(), Line: line})
			pos = j + 1
		default:
			j := pos
			for j < len(src) && !strings.ContainsRune(" \t\r\n();\"", rune(src[j])) {
				j++
			}
			cur.List = append(cur.List, &SX{Atom: src[pos:j], Line: line})
			pos = j
		}
	}
	if len(stack) != 0 {
		panic(file + ": unbalanced (")
	}
	return top.List
}

func readSX(file string) []*SX {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	return parseSX(string(b), file)
}

// lst makes a list of two atoms.
func lst(a, b string) *SX {
	return &SX{IsL: true, List: []*SX{{Atom: a}, {Atom: b}}}
}
