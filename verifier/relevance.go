package main

// Relevance: a query is given only the functions and axioms of the logic that its own terms lead to, so what one
// contract file declares does not influence the proofs about functions it has nothing to do with.

type relevance struct {
	syms map[string]bool
	lits map[*Term]bool
	seen map[*Term]bool
	axs  map[int]bool
	n    int // axioms looked at
}

func newRelevance() *relevance {
	return &relevance{syms: map[string]bool{}, lits: map[*Term]bool{}, seen: map[*Term]bool{}, axs: map[int]bool{}}
}

func (r *relevance) add(t *Term) {
	if r.seen[t] {
		return
	}
	r.seen[t] = true
	if th.isLit(t) {
		r.lits[t] = true
		return
	}
	if th.isUser(t.Op) {
		r.syms[t.Op] = true
	}
	for _, a := range t.Args {
		r.add(a)
	}
	for _, p := range t.Pats {
		for _, a := range p {
			r.add(a)
		}
	}
}

// close adds the axioms that can be triggered by what is there.
func (r *relevance) close() {
	for grew := true; grew; {
		grew = false
		for i, a := range th.axioms {
			if r.axs[i] || !r.fires(a.t) {
				continue
			}
			r.axs[i] = true
			grew = true
			r.add(a.t)
		}
	}
}

func (r *relevance) fires(t *Term) bool {
	if (t.Op == "forall" || t.Op == "exists") && len(t.Pats) > 0 {
		for _, p := range t.Pats {
			ok := true
			for _, a := range p {
				ok = ok && r.known(a)
			}
			if ok {
				return true
			}
		}
		return false
	}
	return r.touches(t)
}

func (r *relevance) known(t *Term) bool {
	if th.isUser(t.Op) && !r.syms[t.Op] {
		return false
	}
	for _, a := range t.Args {
		if !r.known(a) {
			return false
		}
	}
	return true
}

// touches: an axiom without a pattern matters once one of its functions does, or if it has none.
func (r *relevance) touches(t *Term) bool {
	none := true
	var walk func(*Term) bool
	walk = func(t *Term) bool {
		if th.isUser(t.Op) {
			none = false
			if r.syms[t.Op] {
				return true
			}
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t) || none
}

func (t *theory) isUser(n string) bool {
	for ; t.userSeen < len(t.userFuns); t.userSeen++ {
		t.userSet[t.userFuns[t.userSeen]] = true
	}
	return t.userSet[n]
}

func (r *relevance) size() int { return len(r.syms) + len(r.axs) }
