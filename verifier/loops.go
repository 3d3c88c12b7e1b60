package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var loopMemo = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// loopsOf finds the natural loops of a function by header.
func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if m, ok := loopMemo[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				set := m[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					m[s] = set
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if set[n] {
						continue
					}
					set[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	loopMemo[fn] = m
	return m
}

// lenv is one moment of a loop: the state and the values of the header's phis.
type lenv struct {
	st   *State
	phi  []Value
	iter *Term
}

type slot struct {
	name string
	sort string
	get  func(*lenv) *Term
	mut  bool
	kind string
	also []string // what else it is
}

type cand struct {
	name string
	at   func(*lenv) *Term
}

func snapFresh() map[string]int {
	m := map[string]int{}
	for k, v := range freshSeq {
		m[k] = v
	}
	return m
}
func restoreFresh(m map[string]int) {
	freshSeq = map[string]int{}
	for k, v := range m {
		freshSeq[k] = v
	}
}

type loopInfo struct {
	loose  []bool // loop variables that stand for any record
	nonnil []bool // slices that are never nil
	nie    []bool // slices that are nil exactly when they are empty
	mods   map[int]bool
	exam   [][]Value // values seen per phi
	ptrAlt map[int][]Value
	cells  map[int][]Value
	shared map[int]bool
	fields map[[2]int]Value // another sequence or map seen in a field of a cell
	joint  [][]Value        // combinations of references seen
}

func isRef(v Value) bool {
	switch v.(type) {
	case VPtr, VNil, VFn, VChan:
		return true
	}
	return false
}

// addJoint records the references the loop variables have together.
func (info *loopInfo) addJoint(vs []Value) bool {
	key := func(vs []Value) string {
		k := ""
		for i, v := range vs {
			if isRef(v) && !info.loose[i] {
				k += vkey(v) + ";"
			} else {
				k += "-;"
			}
		}
		return k
	}
	k := key(vs)
	for _, j := range info.joint {
		if key(j) == k {
			return false
		}
	}
	info.joint = append(info.joint, append([]Value{}, vs...))
	return true
}

func (x *Exec) loop(fr *Frame, from, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool, st *State, lc *loopCtx) {
	phis := phisOf(hdr)
	pi := predIndex(from, hdr)
	init := make([]Value, len(phis))
	for i, p := range phis {
		init[i] = x.val(fr, st, p.Edges[pi])
	}
	if x.unroll(fr, hdr, blocks, phis, init, st, lc) {
		return
	}
	mark := x.nobj
	info := &loopInfo{mods: map[int]bool{}, exam: make([][]Value, len(phis)), cells: map[int][]Value{}, shared: map[int]bool{}, fields: map[[2]int]Value{}}
	for i := range phis {
		info.exam[i] = []Value{init[i]}
	}
	info.loose = make([]bool, len(phis))
	for i, p := range phis {
		info.loose[i] = looseRef(p)
	}
	info.addJoint(init)
	info.nonnil, info.nie = make([]bool, len(phis)), make([]bool, len(phis))
	for i := range phis {
		info.nonnil[i], info.nie[i] = nilness(st, init[i])
	}
	snap := snapFresh()
	nob := x.nobj

	// body runs the loop body from a header state, handing over every state that comes back to the header.
	body := func(h *lenv, silent bool, parent *loopCtx, back func(*lenv)) {
		f := fr.clone()
		for i, p := range phis {
			f.env[p] = h.phi[i]
		}
		l := &loopCtx{header: hdr, blocks: blocks, silent: silent, parent: parent}
		l.back = func(bf *Frame, pred *ssa.BasicBlock, bs *State) {
			k := predIndex(pred, hdr)
			e := &lenv{st: bs, iter: Add(h.iter, intT(1))}
			for _, p := range phis {
				e.phi = append(e.phi, x.val(bf, bs, p.Edges[k]))
			}
			x.dropDetached(bs, mark)
			if len(bs.threads) != len(h.st.threads) { // a message has arrived: the loop has to end before it waits for another
				g := bf.clone()
				for i, p := range phis {
					g.env[p] = e.phi[i]
				}
				again := &loopCtx{header: hdr, blocks: blocks, silent: silent, parent: parent}
				again.back = func(_ *Frame, _ *ssa.BasicBlock, bs *State) {
					x.oblige(bs, False, "a goroutine's message ends the wait for goroutines: "+x.pos(loopPos(hdr)), nil)
				}
				x.exec(g, hdr, len(phis), bs, again)
				return
			}
			back(e)
		}
		if silent {
			x.silent++
			defer func() { x.silent-- }()
		}
		x.exec(f, hdr, len(phis), h.st, l)
	}

	// 1. what does the loop change?
	for round := 0; ; round++ {
		if round > 12 {
			unsup("effects of the loop at %s do not settle", x.pos(loopPos(hdr)))
		}
		grew, more := false, false
		hs := x.havocLoop(st, phis, init, info, mark)
		top, hsnap := x.nobj, snapFresh()
		for _, h := range hs {
			start := map[int]*Obj{}
			for id, o := range h.st.objs {
				start[id] = o
			}
			body(h, true, lc, func(e *lenv) {
				for id, o := range e.st.objs {
					if id > mark || start[id] == o {
						continue
					}
					if start[id] != nil && o.shared && !start[id].shared {
						if !info.shared[id] {
							more = true
						}
						info.shared[id] = true
					}
					if changed(start[id], o) {
						if !info.mods[id] {
							info.mods[id] = true
							grew = true
						}
						if o.kind == oVM && vkey(o.f[0]) != vkey(start[id].f[0]) {
							if _, ok := info.fields[[2]int{id, 0}]; !ok {
								info.fields[[2]int{id, 0}] = o.f[0]
								grew = true
							}
						}
						if o.kind == oCell {
							for i, v := range o.f {
								if i < len(start[id].f) && vkey(v) != vkey(start[id].f[i]) {
									switch v.(type) {
									case VSlice, VMap:
										if _, ok := info.fields[[2]int{id, i}]; !ok {
											info.fields[[2]int{id, i}] = v
											grew = true
										}
									case VPtr, VFn, VChan:
										if o.strct {
											unsup("a loop changes a reference held in a struct")
										}
									}
								}
								if addAlt(info.cells, id, v) {
									grew = true
								}
							}
						}
					}
				}
				for i := range phis {
					if addExample(&info.exam[i], e.phi[i], h.phi[i]) {
						grew = true
					}
					nonnil, nie := nilness(e.st, e.phi[i])
					if info.nonnil[i] && !nonnil || info.nie[i] && !nie {
						info.nonnil[i], info.nie[i] = info.nonnil[i] && nonnil, info.nie[i] && nie
						more = true
					}
				}
				if info.addJoint(e.phi) {
					grew = true
				}
			})
			restoreFresh(hsnap)
			x.nobj = top
		}
		restoreFresh(snap)
		x.nobj = nob
		if grew {
			info.shared = map[int]bool{}
		}
		if !grew && !more {
			break
		}
	}

	// 2. candidates
	heads := x.havocLoop(st, phis, init, info, mark)
	restoreFresh(snap)
	x.nobj = nob
	ini := &lenv{st: st, phi: init, iter: intT(0)}
	cands := x.candidates(fr, hdr, blocks, phis, heads[0], ini, info)
	dbg := os.Getenv("VF_LOOP") != ""
	var alive []cand
	for _, c := range cands {
		t := safeAt(c, ini)
		if t == nil {
			continue
		}
		if x.sol.entails(st.pc, t) {
			alive = append(alive, c)
		} else if dbg {
			fmt.Fprintf(os.Stderr, "  not initially: %s\n", c.name)
		}
	}
	if dbg {
		fmt.Fprintf(os.Stderr, "loop %s in %s: mods %v, %d candidates, %d hold at first\n", x.pos(loopPos(hdr)), fr.fn, modNames(st, info.mods), len(cands), len(alive))
	}
	for round := 0; round < 25; round++ {
		drop := map[int]bool{}
		hs := x.havocLoop(st, phis, init, info, mark)
		top, hsnap := x.nobj, snapFresh()
		for _, h := range hs {
			for _, c := range alive {
				if t := safeAt(c, h); t != nil {
					h.st.assume(t)
				}
			}
			h.st.assume(Le(intT(0), h.iter))
			body(h, true, lc, func(e *lenv) {
				for i, c := range alive {
					if drop[i] {
						continue
					}
					t := safeAt(c, e)
					if t == nil || !x.sol.entails(e.st.pc, t) {
						drop[i] = true
						if p := os.Getenv("VF_EXITON"); p != "" && strings.HasPrefix(c.name, p) {
							os.Exit(9)
						}
						if dbg {
							fmt.Fprintf(os.Stderr, "  dropped: %s : %v\n", c.name, t)
							if os.Getenv("VF_LOOP") == "2" {
								for _, p := range e.st.pc {
									fmt.Fprintf(os.Stderr, "      %s\n", p)
								}
							}
						}
					}
				}
			})
			restoreFresh(hsnap)
			x.nobj = top
		}
		restoreFresh(snap)
		x.nobj = nob
		if len(drop) == 0 {
			break
		}
		var next []cand
		for i, c := range alive {
			if !drop[i] {
				next = append(next, c)
			}
		}
		alive = next
	}
	if dbg {
		for _, c := range alive {
			fmt.Fprintf(os.Stderr, "  kept: %s\n", c.name)
		}
	}

	// 3. the loop for good
	for _, h := range x.havocLoop(st, phis, init, info, mark) {
		for _, c := range alive {
			if t := safeAt(c, h); t != nil {
				h.st.assume(t)
			}
		}
		h.st.assume(Le(intT(0), h.iter))
		if x.silent == 0 {
			x.invCount += len(alive)
		}
		body(h, false, lc, func(e *lenv) {
			if x.silent > 0 {
				return
			}
			for _, c := range alive {
				if t := safeAt(c, e); t == nil || !x.sol.entails(e.st.pc, t) {
					x.oblige(e.st, t, "loop invariant "+c.name+" is kept at "+x.pos(loopPos(hdr)), nil)
				} else {
					x.invKept++
				}
			}
		})
	}
}

func modNames(st *State, m map[int]bool) []string {
	var out []string
	for id := range m {
		if o := st.objs[id]; o != nil {
			out = append(out, fmt.Sprintf("%d:%d", id, o.kind))
		}
	}
	sort.Strings(out)
	return out
}

func loopPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return 0
}

func safeAt(c cand, e *lenv) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.at(e)
}

func vkey(v Value) string {
	switch w := v.(type) {
	case VPtr:
		return fmt.Sprintf("ptr%d/%v", w.Obj, w.Path)
	case VSlice:
		return fmt.Sprintf("slice%d", w.Obj)
	case VMap:
		return fmt.Sprintf("map%d", w.Obj)
	case VChan:
		return fmt.Sprintf("chan%d", w.Obj)
	case VNil:
		return "nil"
	case VFn:
		return describe(v)
	case VT:
		return "t"
	case VIface:
		return "if:" + vkey(w.Val)
	}
	return fmt.Sprintf("%T", v)
}

func addExample(ex *[]Value, v, hv Value) bool {
	k := vkey(v)
	if k == vkey(hv) && k != "t" {
		return false
	}
	switch v.(type) {
	case VT, VIface, VStruct:
		k = "t"
		if len(*ex) > 0 {
			if same, ok := (*ex)[0].(VT); ok {
				if w, ok := v.(VT); ok && same.T == w.T {
					return false
				}
			}
		}
	case VSlice:
		// slices over objects made in the loop all look alike
	}
	for i, e := range *ex {
		if i == 0 {
			if vkey(e) == k && k != "t" {
				return false
			}
			continue
		}
		ek := vkey(e)
		switch e.(type) {
		case VT, VIface, VStruct:
			ek = "t"
		}
		if ek == k {
			return false
		}
		if _, ok := e.(VSlice); ok && strings.HasPrefix(k, "slice") && k != "slice0" {
			return false
		}
		if _, ok := e.(VMap); ok && strings.HasPrefix(k, "map") && k != "map0" {
			return false
		}
	}
	*ex = append(*ex, v)
	return true
}

func addAlt(m map[int][]Value, id int, v Value) bool {
	if _, ok := v.(VPtr); ok {
		for _, w := range m[id] {
			if vkey(w) == vkey(v) {
				return false
			}
		}
		m[id] = append(m[id], v)
		return true
	}
	return false
}

// havocLoop makes the header states of an arbitrary iteration.
func (x *Exec) havocLoop(st *State, phis []*ssa.Phi, init []Value, info *loopInfo, mark int) []*lenv {
	s := st.clone()
	h := &lenv{st: s, iter: fresh("iter", "Int")}
	for id := range info.shared {
		if o := s.objs[id]; o != nil && !o.shared {
			n := o.clone()
			n.shared = true
			s.objs[id] = n
		}
	}
	var ids []int
	for id := range info.mods {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := s.objs[id]
		if o == nil {
			continue
		}
		n := o.clone()
		n.vals = nil
		switch o.kind {
		case oVM:
			n.t = fresh("lvm", "Opq")
		case oMap, oSeq, oChan, oBuilder, oReader:
			n.t = fresh("l", o.t.Sort)
			if o.closed != nil && o.kind == oChan {
				n.closed = o.closed
			}
		case oIter:
			n.n = h.iter
			s.assume(Le(h.iter, App("len."+o.seq.Sort, o.seq)))
		case oWG:
			n.n = fresh("lwg", "Int")
		case oCell:
			n.f = append([]Value{}, o.f...)
			for i := range n.f {
				var ft types.Type = o.typ
				if o.strct {
					ft = under(o.typ).(*types.Struct).Field(i).Type()
				}
				ex := []Value{o.f[i]}
				if v, ok := info.fields[[2]int{id, i}]; ok {
					ex = append(ex, v)
				}
				n.f[i] = x.havocVal(s, o.f[i], ft, ex)
			}
		}
		s.objs[id] = n
	}
	// what is attached to a changed container still agrees with it
	for id, o := range s.objs {
		for _, g := range o.orgs {
			if info.mods[g.obj] || info.mods[id] {
				p := s.objs[g.obj]
				if p == nil || (p.kind != oMap && p.kind != oSeq) {
					continue
				}
				var cur *Term
				if p.kind == oMap {
					cur = App("get."+p.t.Sort, p.t, g.key)
				} else {
					cur = App("at."+p.t.Sort, p.t, g.key)
				}
				val := o.t
				if cur.Sort == "V" {
					c, _ := th.vCtor(o.typ)
					val = App(c, o.t)
				}
				s.assume(Eq(cur, val))
			}
		}
	}
	choice := make([]bool, len(phis)) // references that differ between iterations
	for i, p := range phis {
		ex := info.exam[i]
		for _, e := range ex {
			if isRef(e) && len(ex) > 1 {
				choice[i] = true
			}
		}
		if choice[i] {
			if v := x.someRecord(s, p, ex); v != nil {
				choice[i] = false
				h.phi = append(h.phi, v)
			} else {
				h.phi = append(h.phi, nil)
			}
			continue
		}
		v := x.havocVal(s, init[i], p.Type(), ex)
		if w, ok := v.(VSlice); ok && !sameSlice(w, init[i]) {
			s.objs[w.Obj].mayNil, s.objs[w.Obj].nie = !info.nonnil[i], info.nie[i]
		}
		if c, ok := affine(p); ok {
			if t, ok := init[i].(VT); ok && t.T.Sort == "Int" {
				v = VT{T: Add(t.T, Mul(intT(c), h.iter))}
			}
		}
		h.phi = append(h.phi, v)
	}
	outs := []*lenv{h}
	if hasTrue(choice) {
		outs = nil
		seen := map[string]bool{}
		for _, j := range info.joint {
			n := &lenv{st: s.clone(), iter: h.iter, phi: append([]Value{}, h.phi...)}
			k := ""
			for i := range phis {
				if choice[i] {
					n.phi[i] = j[i]
					if !isRef(j[i]) {
						n.phi[i] = x.havocVal(n.st, j[i], phis[i].Type(), nil2(j[i]))
					}
					k += vkey(j[i]) + ";"
				}
			}
			if !seen[k] {
				seen[k] = true
				outs = append(outs, n)
			}
		}
	}
	// cells that hold pointers, one state per possible pointer
	for _, id := range ids {
		alts := info.cells[id]
		o := st.objs[id]
		if len(alts) == 0 || o == nil || o.kind != oCell || o.strct {
			continue
		}
		all := append([]Value{o.f[0]}, alts...)
		var next []*lenv
		seen := map[string]bool{}
		for _, l := range outs {
			for k := range seen {
				delete(seen, k)
			}
			for _, a := range all {
				if seen[vkey(a)] {
					continue
				}
				seen[vkey(a)] = true
				n := &lenv{st: l.st.clone(), iter: l.iter, phi: l.phi}
				c := n.st.objs[id].clone()
				c.f = []Value{a}
				n.st.objs[id] = c
				next = append(next, n)
			}
		}
		outs = next
	}
	// interpreters whose interrupt channel changes: the one at first, or an unknown one
	for _, id := range ids {
		if _, ok := info.fields[[2]int{id, 0}]; !ok || s.objs[id] == nil || s.objs[id].kind != oVM {
			continue
		}
		var next []*lenv
		for _, l := range outs {
			n := &lenv{st: l.st.clone(), iter: l.iter, phi: l.phi}
			c := n.st.objs[id].clone()
			c.f = []Value{nil}
			n.st.objs[id] = c
			next = append(next, l, n)
		}
		outs = next
	}
	return outs
}

// nilness: is a slice never nil; is it nil exactly when it is empty?
func nilness(st *State, v Value) (nonnil, nie bool) {
	w, ok := v.(VSlice)
	if !ok {
		return false, false
	}
	if w.Obj == 0 {
		return false, true
	}
	o := st.objs[w.Obj]
	if o == nil {
		return false, false
	}
	whole := o.kind == oSeq && o.t != nil && w.Off == intT(0) && Eq(w.Len, App("len."+o.t.Sort, o.t)) == True
	return madeHere(o), o.nie && whole
}

func madeHere(o *Obj) bool {
	return !o.mayNil && (o.owner == "fresh" && o.t0 == nil || o.typ != nil && o.name == "nonnil")
}

func sameSlice(w VSlice, v Value) bool {
	u, ok := v.(VSlice)
	return ok && u.Obj == w.Obj
}

// looseRef: a reference to a record that the loop only takes numbers and texts from.
func looseRef(p *ssa.Phi) bool {
	pt, ok := under(p.Type()).(*types.Pointer)
	if !ok || !th.handles[typeKey(pt.Elem())] {
		return false
	}
	for _, r := range *p.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, u := range *r.Referrers() {
				l, ok := u.(*ssa.UnOp)
				if !ok || l.Op != token.MUL {
					return false
				}
				if b, ok := under(l.Type()).(*types.Basic); !ok || b.Info()&(types.IsString|types.IsInteger|types.IsBoolean) == 0 {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// someRecord: any record will do for such a reference.
func (x *Exec) someRecord(s *State, p *ssa.Phi, ex []Value) Value {
	if !looseRef(p) {
		return nil
	}
	for _, e := range ex {
		if _, ok := e.(VPtr); !ok {
			return nil
		}
	}
	ty := under(p.Type()).(*types.Pointer).Elem()
	st := under(ty).(*types.Struct)
	o := &Obj{kind: oCell, typ: ty, strct: true}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := under(st.Field(i).Type()).(*types.Basic); ok {
			o.f = append(o.f, x.freshVal(s, "some", st.Field(i).Type(), "fresh"))
		} else {
			o.f = append(o.f, VNil{})
		}
	}
	return VPtr{Obj: x.newObj(s, o)}
}

func hasTrue(bs []bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func (x *Exec) havocVal(s *State, init Value, ty types.Type, ex []Value) Value {
	same := len(ex) <= 1
	switch w := init.(type) {
	case VFn, VNil, VChan, VPtr, VIter:
		return init
	case VMap:
		if same {
			return init
		}
		t := fresh("lm", th.sortOf(ty))
		return VMap{x.newObj(s, &Obj{kind: oMap, typ: ty, t: t})}
	case VSlice:
		sameObj := w.Obj != 0
		owner := "fresh"
		for _, e := range ex {
			if v, ok := e.(VSlice); ok {
				if v.Obj != w.Obj {
					sameObj = false
				}
			}
		}
		if w.Obj != 0 && s.objs[w.Obj] != nil && s.objs[w.Obj].owner != "fresh" {
			owner = s.objs[w.Obj].owner
		}
		if sameObj {
			off, n := fresh("off", "Int"), fresh("len", "Int")
			return VSlice{w.Obj, off, n}
		}
		t := fresh("ls", th.sortOf(ty))
		o := &Obj{kind: oSeq, typ: ty, t: t, owner: owner, name: ""}
		return VSlice{x.newObj(s, o), intT(0), App("len."+t.Sort, t)}
	case VStruct:
		st := under(w.Typ).(*types.Struct)
		n := VStruct{Typ: w.Typ}
		for i := range w.F {
			n.F = append(n.F, x.havocVal(s, w.F[i], st.Field(i).Type(), nil2(w.F[i])))
		}
		return n
	case VT:
		if same && len(ex) == 1 && ex[0] != nil {
			if _, ok := ex[0].(VT); ok && x.phiConst {
				return init
			}
		}
		return VT{T: fresh("l", w.T.Sort)}
	case VIface:
		if p, ok := w.Val.(VPtr); ok && same {
			_ = p
			return init
		}
		return VT{T: fresh("l", "V")}
	}
	unsup("loop value %T", init)
	return nil
}

func nil2(v Value) []Value { return []Value{v, VT{T: True}} }

func viewOf(x *Exec, e *lenv, v Value, ty types.Type) *Term {
	switch w := v.(type) {
	case VT:
		return x.resolve(e.st, w.T)
	case VSlice, VMap:
		return x.deep(e.st, v, th.sortOf(ty))
	case VIface:
		if _, ok := w.Val.(VPtr); ok {
			return nil
		}
		return x.deep(e.st, v, "V")
	case VStruct:
		return x.deep(e.st, v, th.sortOf(ty))
	}
	return nil
}

// plainFields: a struct of scalars and values.
func plainFields(o *Obj, mods map[int]bool) bool {
	for _, f := range o.f {
		switch w := f.(type) {
		case VT:
		case VIface:
			if _, ok := w.Val.(VT); !ok {
				return false
			}
		case VSlice:
			if mods[w.Obj] {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// candidates proposes invariants: generic ones, and the templates of the contract filled with what the loop carries.
func (x *Exec) candidates(fr *Frame, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool, phis []*ssa.Phi, h, ini *lenv, info *loopInfo) []cand {
	var slots []*slot
	add := func(s *slot) {
		slots = append(slots, s)
	}
	for i, p := range phis {
		i, ty := i, p.Type()
		v := h.phi[i]
		switch w := v.(type) {
		case VT:
			add(&slot{name: p.Name(), sort: w.T.Sort, mut: true, kind: "phi", get: func(e *lenv) *Term { return viewOf(x, e, e.phi[i], ty) }})
		case VIface:
			add(&slot{name: p.Name(), sort: "V", mut: true, kind: "phi", get: func(e *lenv) *Term { return viewOf(x, e, e.phi[i], ty) }})
		case VSlice:
			add(&slot{name: p.Name(), sort: th.sortOf(ty), mut: true, kind: "slice", get: func(e *lenv) *Term { return viewOf(x, e, e.phi[i], ty) }})
			if w.Obj != 0 && w.Off != intT(0) {
				add(&slot{name: p.Name() + ".off", sort: "Int", mut: true, kind: "off", get: func(e *lenv) *Term { return e.phi[i].(VSlice).Off }})
				add(&slot{name: p.Name() + ".len", sort: "Int", mut: true, kind: "slen", get: func(e *lenv) *Term { return e.phi[i].(VSlice).Len }})
				obj := w.Obj
				add(&slot{name: p.Name() + ".base", sort: th.sortOf(ty), kind: "base", get: func(e *lenv) *Term { return e.st.objs[obj].t }})
			}
		case VMap:
			add(&slot{name: p.Name(), sort: th.sortOf(ty), mut: true, kind: "map", get: func(e *lenv) *Term { return viewOf(x, e, e.phi[i], ty) }})
		case VPtr, VNil:
			if k := langOf(h.st, v); k != nil {
				add(&slot{name: p.Name() + ".language", sort: "Int", mut: true, kind: "lang", get: func(e *lenv) *Term { return langOf(e.st, e.phi[i]) }})
			}
		}
	}
	var ids []int
	for id := range info.mods {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		o := h.st.objs[id]
		if o == nil {
			continue
		}
		switch o.kind {
		case oMap, oSeq, oChan, oBuilder, oVM, oReader:
			kind := map[okind]string{oMap: "mapobj", oSeq: "seqobj", oChan: "chan", oBuilder: "builder", oVM: "vm", oReader: "reader"}[o.kind]
			add(&slot{name: fmt.Sprintf("obj%d", id), sort: o.t.Sort, mut: true, kind: kind, get: func(e *lenv) *Term { return e.st.objs[id].t }})
		case oWG:
			add(&slot{name: fmt.Sprintf("wg%d", id), sort: "Int", mut: true, kind: "wg", get: func(e *lenv) *Term { return e.st.objs[id].n }})
		case oCell:
			for i := range o.f {
				i := i
				var ft types.Type = o.typ
				if o.strct {
					ft = under(o.typ).(*types.Struct).Field(i).Type()
				}
				switch w := o.f[i].(type) {
				case VT, VIface, VSlice, VMap:
					srt := th.sortOf(ft)
					add(&slot{name: fmt.Sprintf("cell%d.%d", id, i), sort: srt, mut: true, kind: "cell", get: func(e *lenv) *Term { return viewOf(x, e, e.st.objs[id].f[i], ft) }})
					if s, ok := w.(VSlice); ok && s.Obj != 0 && s.Off != intT(0) {
						add(&slot{name: fmt.Sprintf("cell%d.%d.off", id, i), sort: "Int", mut: true, kind: "off", get: func(e *lenv) *Term { return e.st.objs[id].f[i].(VSlice).Off }})
						add(&slot{name: fmt.Sprintf("cell%d.%d.len", id, i), sort: "Int", mut: true, kind: "slen", get: func(e *lenv) *Term { return e.st.objs[id].f[i].(VSlice).Len }})
						obj := s.Obj
						add(&slot{name: fmt.Sprintf("cell%d.%d.base", id, i), sort: srt, kind: "base", get: func(e *lenv) *Term { return e.st.objs[obj].t }})
					}
				}
			}
		}
	}
	// things that stay: sequences indexed or ranged over, maps looked up
	seenRo := map[*Term]*slot{}
	ro := func(name string, t *Term, kind string) {
		if t == nil {
			return
		}
		if s := seenRo[t]; s != nil {
			s.also = append(s.also, kind)
			return
		}
		seenRo[t] = &slot{name: name, sort: t.Sort, kind: kind, get: func(e *lenv) *Term { return t }}
		add(seenRo[t])
	}
	for _, b := range hdr.Parent().Blocks {
		if !blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				v, ok := fr.env[*op]
				if !ok {
					continue
				}
				switch w := v.(type) {
				case VSlice:
					if w.Obj != 0 && !info.mods[w.Obj] {
						ro((*op).Name(), x.sliceTerm(ini.st, w), "roseq")
					}
				case VMap:
					if w.Obj != 0 && !info.mods[w.Obj] {
						ro((*op).Name(), ini.st.objs[w.Obj].t, "romap")
					}
				case VFn:
					for i, c := range w.Bind {
						name := fmt.Sprintf("%s.%d", (*op).Name(), i)
						p, ok := c.(VPtr)
						if !ok {
							continue
						}
						o := ini.st.objs[p.Obj]
						if o == nil || info.mods[p.Obj] || o.kind != oCell || o.strct {
							continue
						}
						switch d := o.f[0].(type) {
						case VSlice:
							if d.Obj != 0 && !info.mods[d.Obj] {
								ro(name, x.sliceTerm(ini.st, d), "roseq")
							}
						case VT:
							if d.T.Sort == "Str" {
								ro(name, d.T, "ro")
							}
						}
					}
				case VIter:
					o := ini.st.objs[w.Obj]
					if o.t != nil {
						ro((*op).Name()+".text", o.t, "text")
					}
					ro((*op).Name()+".keys", o.seq, "keys")
					if o.srcT != nil {
						ro((*op).Name()+".map", o.srcT, "rangemap")
					}
				case VT:
					switch w.T.Sort {
					case "Bool":
					case "Int":
						if _, lit := w.T.isInt(); !lit {
							ro((*op).Name(), w.T, "roint")
						}
					default:
						ro((*op).Name(), w.T, "ro")
					}
				case VPtr:
					o := ini.st.objs[w.Obj]
					if o != nil && !info.mods[w.Obj] && o.kind == oCell && o.strct && plainFields(o, info.mods) {
						ro((*op).Name()+".value", x.structTerm(ini.st, o.typ, o.f), "ro")
					}
					if o != nil && !info.mods[w.Obj] && o.kind == oCell && !o.strct {
						switch c := o.f[0].(type) {
						case VSlice:
							if c.Obj != 0 && !info.mods[c.Obj] {
								ro((*op).Name(), x.sliceTerm(ini.st, c), "roseq")
							}
						case VMap:
							if c.Obj != 0 && !info.mods[c.Obj] {
								ro((*op).Name(), ini.st.objs[c.Obj].t, "romap")
							}
						}
					}
				}
			}
		}
	}
	if x.env != nil {
		for k := x.env; k != nil; k = k.parent {
			for n, t := range k.entry {
				if _, isSeq := th.seqElem[t.Sort]; isSeq {
					ro("param "+n, t, "param")
				}
			}
		}
	}
	sort.SliceStable(slots, func(i, j int) bool { return slots[i].name < slots[j].name })

	var out []cand
	put := func(name string, f func(*lenv) *Term) { out = append(out, cand{name, f}) }
	eq2 := func(a, b *Term) *Term {
		if a == nil || b == nil || a.Sort != b.Sort {
			return nil
		}
		return Eq(a, b)
	}
	var roSeqs []*slot
	for _, s := range slots {
		if _, ok := th.seqElem[s.sort]; ok && !s.mut {
			roSeqs = append(roSeqs, s)
		}
	}
	// a container changed only through the value it holds at one place
	for _, id := range ids {
		o := h.st.objs[id]
		if o == nil || o.kind != oMap && o.kind != oSeq || len(o.orgs) != 1 || !info.mods[o.orgs[0].obj] {
			continue
		}
		g := o.orgs[0]
		p0 := ini.st.objs[g.obj]
		if p0 == nil || p0.kind != oMap && p0.kind != oSeq {
			continue
		}
		put(fmt.Sprintf("obj%d changed only at obj%d", g.obj, id), func(e *lenv) *Term {
			p, c := e.st.objs[g.obj], e.st.objs[id]
			if p == nil || c == nil {
				return nil
			}
			val, op := c.t, "upd."
			if p.kind == oMap {
				op = "store."
			}
			if p.kind == oMap && th.mapKV[p.t.Sort][1] == "V" || p.kind == oSeq && th.seqElem[p.t.Sort] == "V" {
				k, ok := th.vCtor(c.typ)
				if !ok {
					return nil
				}
				val = App(k, c.t)
			}
			return Eq(p.t, App(op+p.t.Sort, p0.t, g.key, val))
		})
	}
	// an interpreter that may still be interrupted is left with an error
	for _, id := range ids {
		id := id
		if _, ok := info.fields[[2]int{id, 0}]; !ok || ini.st.objs[id] == nil || ini.st.objs[id].kind != oVM {
			continue
		}
		chan0 := vkey(ini.st.objs[id].f[0])
		for _, sl := range slots {
			sl := sl
			if !sl.mut || sl.sort != "V" {
				continue
			}
			put(fmt.Sprintf("%s is something if obj%d may be interrupted", sl.name, id), func(e *lenv) *Term {
				if vkey(e.st.objs[id].f[0]) == chan0 {
					return True
				}
				return Not(Eq(sl.get(e), App("V_nil")))
			})
		}
	}
	for _, q := range roSeqs {
		q := q
		put("iterations within "+q.name, func(e *lenv) *Term { return Le(e.iter, lenT(q.get(e))) })
	}
	for _, s := range slots {
		s := s
		if !s.mut {
			continue
		}
		i0 := s.get(ini)
		put(s.name+" unchanged", func(e *lenv) *Term { return eq2(s.get(e), i0) })
		switch {
		case s.sort == "Int":
			put(s.name+" = start + n", func(e *lenv) *Term { return Eq(s.get(e), Add(i0, e.iter)) })
			put(s.name+" = start - n", func(e *lenv) *Term { return Eq(s.get(e), Sub(i0, e.iter)) })
			put(s.name+" >= start", func(e *lenv) *Term { return Le(i0, s.get(e)) })
			put(s.name+" <= start", func(e *lenv) *Term { return Le(s.get(e), i0) })
			put(s.name+" >= 0", func(e *lenv) *Term { return Le(intT(0), s.get(e)) })
			put(s.name+" >= -1", func(e *lenv) *Term { return Le(intT(-1), s.get(e)) })
			put(s.name+" <= n", func(e *lenv) *Term { return Le(s.get(e), e.iter) })
			for _, q := range roSeqs {
				q := q
				put(s.name+" <= len "+q.name, func(e *lenv) *Term { return Le(s.get(e), lenT(q.get(e))) })
				put(s.name+" < len "+q.name, func(e *lenv) *Term { return Lt(s.get(e), lenT(q.get(e))) })
				if s.kind == "slen" || s.kind == "off" {
					continue
				}
			}
			for _, b := range boundsOf(x, fr, hdr) {
				b := b
				put(s.name+" <= "+b.String(), func(e *lenv) *Term { return Le(s.get(e), b) })
				put(s.name+" < "+b.String(), func(e *lenv) *Term { return Lt(s.get(e), b) })
			}
		case s.sort == "V":
			if i0 != nil {
				for _, c := range th.dataCtor["V"] {
					c := c
					if App("is-"+c, i0) == True || App("is-"+c, i0) != False && th.vtype[c] != nil && x.sol.entails(ini.st.pc, App("is-"+c, i0)) {
						put(s.name+" stays "+c, func(e *lenv) *Term { return App("is-"+c, s.get(e)) })
					}
				}
			}
		}
		if _, ok := th.seqElem[s.sort]; ok && i0 != nil {
			put("len "+s.name+" = start", func(e *lenv) *Term { return Eq(lenT(s.get(e)), lenT(i0)) })
			put("len "+s.name+" = start + n", func(e *lenv) *Term { return Eq(lenT(s.get(e)), Add(lenT(i0), e.iter)) })
			put("len "+s.name+" >= start", func(e *lenv) *Term { return Le(lenT(i0), lenT(s.get(e))) })
			put("len "+s.name+" <= start + n", func(e *lenv) *Term { return Le(lenT(s.get(e)), Add(lenT(i0), e.iter)) })
		}
		if s.kind == "off" {
			ln := strings.TrimSuffix(s.name, ".off") + ".len"
			bs := strings.TrimSuffix(s.name, ".off") + ".base"
			var L, B *slot
			for _, o := range slots {
				if o.name == ln {
					L = o
				}
				if o.name == bs {
					B = o
				}
			}
			if L != nil && B != nil {
				put(s.name+" within", func(e *lenv) *Term {
					return And(Le(intT(0), s.get(e)), Le(intT(0), L.get(e)), Le(Add(s.get(e), L.get(e)), lenT(B.get(e))))
				})
				e0 := Add(s.get(ini), L.get(ini))
				put(s.name+" end fixed", func(e *lenv) *Term { return Eq(Add(s.get(e), L.get(e)), e0) })
			}
		}
	}
	// maps ranged over while they change: keys stay, later values are untouched
	for _, b := range blocksList(blocks) {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			itv, ok := fr.env[nx.Iter]
			if !ok {
				continue
			}
			it := ini.st.objs[itv.(VIter).Obj]
			if it == nil || it.src == 0 || !info.mods[it.src] {
				continue
			}
			src := it.src
			m0 := it.srcT
			srt := m0.Sort
			ks := th.mapKV[srt][0]
			kv := mkVar("k_q", ks)
			iv := mkVar("i_q", "Int")
			cur := func(e *lenv) *Term { return e.st.objs[src].t }
			put("ranged map keeps its keys", func(e *lenv) *Term {
				c := cur(e)
				return quant("forall", []*Term{kv}, Eq(App("has."+srt, c, kv), App("has."+srt, m0, kv)), [][]*Term{{App("has."+srt, c, kv)}})
			})
			put("ranged map gains no keys", func(e *lenv) *Term {
				c := cur(e)
				return quant("forall", []*Term{kv}, Imp(App("has."+srt, c, kv), App("has."+srt, m0, kv)), [][]*Term{{App("has."+srt, c, kv)}})
			})
			at := App("at."+it.seq.Sort, it.seq, iv)
			put("keys to come untouched", func(e *lenv) *Term {
				c := cur(e)
				in := And(Le(e.iter, iv), Lt(iv, lenT(it.seq)))
				return quant("forall", []*Term{iv}, Imp(in, And(App("has."+srt, c, at), Eq(App("get."+srt, c, at), App("get."+srt, m0, at)))), [][]*Term{{at}})
			})
		}
	}
	if os.Getenv("VF_LOOP") == "2" {
		for _, s := range slots {
			fmt.Fprintln(os.Stderr, "  slot", s.name, s.kind, s.also, s.sort, s.mut)
		}
	}
	// templates
	var tmpls []template
	for k := x.top; k != nil; k = k.Parent {
		tmpls = append(tmpls, k.Invs...)
	}
	tmpls = append(tmpls, x.C.inv...)
	for _, t := range tmpls {
		t := t
		var fill func(i int, chosen []*slot)
		fill = func(i int, chosen []*slot) {
			if len(out) > 600 {
				return
			}
			if i == len(t.holes) {
				var ns []string
				for _, c := range chosen {
					ns = append(ns, c.name)
				}
				ch := append([]*slot{}, chosen...)
				env := x.env
				put(t.name+"("+strings.Join(ns, ",")+")", func(e *lenv) *Term {
					extra := map[string]*Term{"n": e.iter}
					for j, hl := range t.holes {
						v := ch[j].get(e)
						if v == nil {
							return nil
						}
						extra[strings.TrimSuffix(hl.name, "'")] = v
						if w := ch[j].get(ini); w != nil {
							extra["init_"+hl.name] = w
						}
					}
					var r *Term
					func() {
						defer func() {
							if p := recover(); p != nil {
								if s, ok := p.(string); ok && strings.Contains(s, "unknown name") {
									if os.Getenv("VF_LOOP") == "2" {
										fmt.Fprintln(os.Stderr, "  template", t.name, s)
									}
									r = nil
									return
								}
								panic(p)
							}
						}()
						if env == nil {
							r = elab(t.e, &evalEnv{vars: extra})
						} else {
							r = elab(t.e, x.clauseEnv(env, e.st, extra))
						}
					}()
					return r
				})
				return
			}
			hl := t.holes[i]
			want := hl.typ
			roOnly := strings.HasPrefix(want, "ro:")
			kind := ""
			want = strings.TrimPrefix(want, "ro:")
			if j := strings.IndexByte(want, ':'); j >= 0 {
				kind, want = want[:j], want[j+1:]
			}
			for _, s := range slots {
				if s.sort != want && !(strings.HasSuffix(want, "*") && strings.HasPrefix(s.sort, strings.TrimSuffix(want, "*"))) || s.mut == roOnly {
					continue
				}
				if kind != "" && s.kind != kind && !hasStr(s.also, kind) || kind == "" && s.kind == "roint" {
					continue
				}
				dup := false
				for _, c := range chosen {
					dup = dup || c == s
				}
				if !dup {
					fill(i+1, append(chosen, s))
				}
			}
		}
		fill(0, nil)
	}
	return out
}

func lenT(t *Term) *Term { return App("len."+t.Sort, t) }

func blocksList(m map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var bs []*ssa.BasicBlock
	for b := range m {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	return bs
}

// boundsOf: integers known before the loop that the header compares with.
func boundsOf(x *Exec, fr *Frame, hdr *ssa.BasicBlock) []*Term {
	var out []*Term
	for _, in := range hdr.Instrs {
		b, ok := in.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, o := range []ssa.Value{b.X, b.Y} {
			if c, ok := o.(*ssa.Const); ok && c.Value != nil {
				if n, ok := under(c.Type()).(*types.Basic); ok && n.Info()&types.IsInteger != 0 {
					out = append(out, intT(c.Int64()))
				}
				continue
			}
			if v, ok := fr.env[o]; ok {
				if t, ok := v.(VT); ok && t.T.Sort == "Int" {
					out = append(out, t.T)
				}
			}
		}
	}
	return out
}

// affine: a loop variable that every iteration changes by the same constant.
func affine(p *ssa.Phi) (int64, bool) {
	var c int64
	n := 0
	for i, pred := range p.Block().Preds {
		if !p.Block().Dominates(pred) {
			continue
		}
		b, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || b.X != ssa.Value(p) || b.Op != token.ADD && b.Op != token.SUB {
			return 0, false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return 0, false
		}
		v, ok := constant.Int64Val(k.Value)
		if !ok {
			return 0, false
		}
		if b.Op == token.SUB {
			v = -v
		}
		if n > 0 && v != c {
			return 0, false
		}
		c = v
		n++
	}
	return c, n > 0
}

// named: a value of the type names a package variable or a function, or holds such a name.
func named(t types.Type) bool {
	switch e := under(t).(type) {
	case *types.Pointer:
		return th.handles[typeKey(e.Elem())]
	case *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < e.NumFields(); i++ {
			if _, ok := under(e.Field(i).Type()).(*types.Signature); ok {
				return true
			}
		}
	}
	return false
}

// unroll runs a loop that counts up to a known small number through a list of package variables or functions as many
// times as it runs: what such a list holds cannot be told at an index that is not known.
func (x *Exec) unroll(fr *Frame, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool, phis []*ssa.Phi, init []Value, st *State, lc *loopCtx) bool {
	const most = 16
	lists := false
	for b := range blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			s, ok := fr.env[ia.X].(VSlice)
			if !ok {
				continue
			}
			sl, ok := under(ia.X.Type()).(*types.Slice)
			if !ok {
				continue
			}
			if !named(sl.Elem()) {
				continue
			}
			if n, ok := s.Len.isInt(); ok && n <= most {
				lists = true
			}
		}
	}
	if !lists {
		return false
	}
	known := false
	for i, p := range phis {
		if v, ok := init[i].(VT); ok && v.T.Sort == "Int" {
			if _, lit := v.T.isInt(); lit {
				if c, ok := affine(p); ok && c > 0 {
					known = true
				}
			}
		}
	}
	if !known {
		return false
	}
	type again struct {
		f  *Frame
		vs []Value
		st *State
	}
	var run func(f *Frame, vs []Value, s *State, n int)
	run = func(f *Frame, vs []Value, s *State, n int) {
		if n > most+1 {
			unsup("the loop at %s runs on", x.pos(loopPos(hdr)))
		}
		f = f.clone()
		for i, p := range phis {
			f.env[p] = vs[i]
		}
		mark := x.nobj
		var todo []again
		l := &loopCtx{header: hdr, blocks: blocks, parent: lc}
		l.back = func(bf *Frame, pred *ssa.BasicBlock, bs *State) {
			k := predIndex(pred, hdr)
			var nv []Value
			for _, p := range phis {
				nv = append(nv, x.val(bf, bs, p.Edges[k]))
			}
			for _, t := range todo {
				if alike(t.vs, nv, mark) && t.st.join(bs, mark) {
					return
				}
			}
			todo = append(todo, again{bf, nv, bs})
		}
		x.exec(f, hdr, len(phis), s, l)
		for _, t := range todo {
			run(t.f, t.vs, t.st, n+1)
		}
	}
	run(fr, init, st, 0)
	return true
}

// alike: the same values, none of which is an object made since.
func alike(a, b []Value, mark int) bool {
	for i := range a {
		if v, ok := a[i].(VT); ok {
			if w, ok := b[i].(VT); !ok || v.T != w.T {
				return false
			}
			continue
		}
		switch v := a[i].(type) {
		case VPtr:
			if w, ok := b[i].(VPtr); !ok || v.Obj > mark || v.Idx != nil || w.Idx != nil || vkey(v) != vkey(w) {
				return false
			}
		case VNil:
			if _, ok := b[i].(VNil); !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// join makes s stand for t too, if they differ in what is known only, and in objects made since.
func (s *State) join(t *State, mark int) bool {
	if len(s.pan) > 0 || len(t.pan) > 0 || len(s.threads) > 0 || len(t.threads) > 0 || s.inside || t.inside || len(s.sent)+len(t.sent) > 0 ||
		s.slept != t.slept || s.first != t.first || s.delay != t.delay || s.nosend != t.nosend {
		return false
	}
	for id, o := range s.objs {
		if id <= mark && t.objs[id] != o {
			return false
		}
	}
	for id := range t.objs {
		if id <= mark && s.objs[id] == nil {
			return false
		}
	}
	known := map[*Term]bool{}
	for _, p := range t.pc {
		known[p] = true
	}
	var pc []*Term
	for _, p := range s.pc {
		if known[p] {
			pc = append(pc, p)
		}
	}
	s.pc = pc
	for k, id := range s.box {
		if id > mark || t.box[k] != id {
			delete(s.box, k)
		}
	}
	return true
}
