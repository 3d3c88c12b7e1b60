package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

var showCover = os.Getenv("VF_COVER") != ""

// cover records how far the paths explored got in each block, to show code that no path reaches:
// either it is dead, or a contract or a loop invariant excludes it.
type cover map[*ssa.BasicBlock]int

func (c cover) at(b *ssa.BasicBlock, i int) {
	if n, ok := c[b]; !ok || n < i {
		c[b] = i
	}
}

// report lists the places where all paths end before the end of a block, and the successors never entered.
func (x *Exec) coverReport() []string {
	var out []string
	fns := map[*ssa.Function]bool{}
	for b := range x.cov {
		fns[b.Parent()] = true
	}
	for f := range fns {
		for _, b := range f.Blocks {
			n, ok := x.cov[b]
			switch {
			case ok && n < len(b.Instrs)-1:
				out = append(out, fmt.Sprintf("%s: no path continues after %s: %v", shortName(f.String()), x.pos(near(b, n)), b.Instrs[n]))
			case !ok && b != f.Recover:
				for _, p := range b.Preds {
					if m, ok := x.cov[p]; ok && m >= len(p.Instrs)-1 {
						out = append(out, fmt.Sprintf("%s: no path reaches %s (%s, block %d)", shortName(f.String()), x.pos(near(b, 0)), b.Comment, b.Index))
						break
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

func near(b *ssa.BasicBlock, i int) (p token.Pos) {
	for ; i < len(b.Instrs); i++ {
		if p = b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return p
}
