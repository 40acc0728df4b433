package main

import "strings"

// readingLoops finds the loops that read the input of the given outcomes.
func readingLoops(outs []Outcome) []*LoopInfo {
	var r []*LoopInfo
	seen := map[*LoopInfo]bool{}
	var rec func(v *Term)
	rec = func(v *Term) {
		for _, a := range atoms(v) {
			p, ok := phiReg[a]
			if !ok {
				continue
			}
			if !seen[p.loop] {
				seen[p.loop] = true
				r = append(r, p.loop)
				for _, it := range p.loop.iters {
					rec(it.vals[p.loc])
				}
			}
			rec(p.init)
		}
	}
	for _, o := range outs {
		for _, k := range sortedKeys(o.st.heap) {
			if strings.HasPrefix(k, "rd:") {
				rec(o.st.heap[k])
			}
		}
	}
	return r
}

// linesKept: in every iteration of a loop that reads lines, each line read is
// held by something that the loop carries on, or is a fixed line that stands for
// something else that changes.
func (r *Report) linesKept(run *Run) {
	ok, _ := run.split()
	n := 0
	for _, l := range readingLoops(ok) {
		for _, it := range l.iters {
			ls := l.linesOf(it)
			if len(ls) == 0 {
				continue
			}
			var held []*Term // what the lines may have gone to
			made := false    // something other than a line changes
			for _, loc := range sortedKeys(l.phis) {
				p, v := l.phis[loc], it.vals[loc]
				if ofReader(loc) || p.sym.typ != nil && isNumericType(p.sym.typ) || unchanged(p, v) {
					continue
				}
				held = append(held, v)
				made = made || !isLine(v)
			}
			for _, x := range ls {
				_, lit := it.st.litOf(x)
				kept := made && (lit || empty(it.st, x))
				for _, v := range held {
					kept = kept || madeOf(v, x, map[*Term]bool{})
				}
				n++
				r.require(kept, "every line is kept", r.pos(it.pos), "%s: the line %s that is read in the loop at %s", run.name, x, r.pos(l.pos))
			}
		}
	}
	r.require(n > 0, "every line is kept", run.name, "%d lines", n)
}

func ofReader(loc string) bool {
	return strings.HasPrefix(loc, "h:rd:") || strings.HasPrefix(loc, "h:eof:")
}

// unchanged: v is the loop variable itself, perhaps as an inner loop left it
// that need not have changed it.
func unchanged(p *PhiInfo, v *Term) bool {
	for v != p.sym {
		q, ok := phiReg[v]
		if !ok || q.loop == p.loop || q.loc != p.loc {
			return false
		}
		v = q.init
	}
	return true
}

// madeOf: v is made of x, perhaps by loops.
func madeOf(v, x *Term, seen map[*Term]bool) bool {
	for s := range symsOf(v) {
		if s == x {
			return true
		}
		p, ok := phiReg[s]
		if !ok || seen[s] {
			continue
		}
		seen[s] = true
		if madeOf(p.init, x, seen) {
			return true
		}
		for _, it := range p.loop.iters {
			if madeOf(it.vals[p.loc], x, seen) {
				return true
			}
		}
	}
	return false
}

// linesOf lists the lines that an iteration of the loop deals with: those it
// reads, and those it was given and does not pass on. A line that an inner loop
// started with and replaces is left to that loop.
func (l *LoopInfo) linesOf(it *Iter) []*Term {
	m := map[*Term]bool{}
	given := map[*Term]bool{}
	carriers := func(q *LoopInfo, f func(p *PhiInfo)) {
		for _, loc := range sortedKeys(q.phis) {
			if p := q.phis[loc]; !ofReader(loc) && isLine(p.sym) {
				f(p)
			}
		}
	}
	var rec func(v, stop *Term)
	rec = func(v, stop *Term) {
		for _, a := range atoms(v) {
			p, ok := phiReg[a]
			switch {
			case a == stop:
			case !ok && isLine(a):
				m[a] = true
			case ok && p.loop != l && !isLine(a):
				carriers(p.loop, func(c *PhiInfo) {
					given[c.init] = true
					m[c.sym] = true
				})
				rec(p.init, stop)
			}
		}
	}
	for _, loc := range sortedKeys(l.phis) {
		if strings.HasPrefix(loc, "h:rd:") {
			rec(it.vals[loc], l.phis[loc].sym)
		}
	}
	carriers(l, func(p *PhiInfo) {
		if it.vals[p.loc] != p.sym {
			m[p.sym] = true
		}
	})
	for x := range given {
		delete(m, x)
	}
	return sortedTerms(m)
}
