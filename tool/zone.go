package main

// Difference bounds over integer terms: x - y <= c.

type Zone struct {
	e   map[[2]int]int64 // (x.id, y.id) -> c; id 0 is the constant zero
	out map[int]map[int]int64
}

func newZone() *Zone { return &Zone{e: map[[2]int]int64{}} }
func (z *Zone) clone() *Zone {
	n := &Zone{e: make(map[[2]int]int64, len(z.e)+4)}
	for k, v := range z.e {
		n.e[k] = v
	}
	return n
}

func nonNegTerm(t *Term) bool {
	if t.op == OApp && (t.s == "len" || t.s == "byte" || t.s == "cap") {
		return true
	}
	if t.op == OSym && nonNegSym[t] {
		return true
	}
	return false
}

var nonNegSym = map[*Term]bool{}

// lower bounds that hold by definition
func implicitLower(t *Term) (int64, bool) {
	if t.op == OApp && t.s == "len" {
		a := t.args[0]
		if a.op == OApp && a.s == "split" {
			return 1, true
		}
		return 0, true
	}
	if t.op == OApp && t.s == "index" {
		return -1, true
	}
	if nonNegTerm(t) {
		return 0, true
	}
	return 0, false
}

func (z *Zone) set(x, y int, c int64) {
	k := [2]int{x, y}
	if o, ok := z.e[k]; !ok || c < o {
		z.e[k] = c
		z.out = nil
	}
}

func (z *Zone) adj() map[int]map[int]int64 {
	if z.out != nil {
		return z.out
	}
	o := map[int]map[int]int64{}
	put := func(x, y int, c int64) {
		m := o[x]
		if m == nil {
			m = map[int]int64{}
			o[x] = m
		}
		if v, ok := m[y]; !ok || c < v {
			m[y] = c
		}
	}
	nodes := map[int]bool{}
	for k, c := range z.e {
		put(k[0], k[1], c)
		nodes[k[0]], nodes[k[1]] = true, true
	}
	for n := range nodes {
		if n != 0 {
			if l, ok := implicitLower(termTab[n-1]); ok {
				put(0, n, -l)
			}
		}
	}
	z.out = o
	return o
}

const inf = int64(1) << 60

// dist: least c with x - y <= c.
func (z *Zone) dist(x, y int) (int64, bool) {
	if x == y {
		return 0, true
	}
	if y != 0 {
		if _, ok := z.adj()[y]; !ok {
			// y may still have an implicit bound
		}
	}
	o := z.adj()
	d := map[int]int64{x: 0}
	q := []int{x}
	cnt := map[int]int{}
	relax := func(u int, v int, c int64) {
		nd := d[u] + c
		if w, ok := d[v]; !ok || nd < w {
			d[v] = nd
			cnt[v]++
			if cnt[v] < 64 {
				q = append(q, v)
			}
		}
	}
	for len(q) > 0 {
		u := q[0]
		q = q[1:]
		for v, c := range o[u] {
			relax(u, v, c)
		}
		if u == 0 && y != 0 {
			if l, ok := implicitLower(termTab[y-1]); ok {
				relax(0, y, -l)
			}
		}
	}
	r, ok := d[y]
	return r, ok
}

// upper bound of a linear term
func (z *Zone) upper(t *Term) (int64, bool) {
	l := linOf(t)
	var pos, neg []*Term
	tot := l.c
	for a, c := range l.m {
		if (c > 1 || c < -1) && len(l.m) > 0 {
			n := c
			if n < 0 {
				n = -n
			}
			if n > 4 {
				// scaled single bound
				var b int64
				var ok bool
				if c > 0 {
					b, ok = z.dist(a.id, 0)
				} else {
					b, ok = z.dist(0, a.id)
				}
				if !ok {
					return 0, false
				}
				tot += n * b
				continue
			}
			for k := int64(0); k < n; k++ {
				if c > 0 {
					pos = append(pos, a)
				} else {
					neg = append(neg, a)
				}
			}
			continue
		}
		if c > 0 {
			pos = append(pos, a)
		} else {
			neg = append(neg, a)
		}
	}
	if len(pos)+len(neg) == 0 {
		return tot, true
	}
	if len(pos) > 4 || len(neg) > 4 {
		return 0, false
	}
	b, ok := z.match(pos, neg)
	if !ok {
		return 0, false
	}
	return tot + b, true
}

// match: best bound of sum(pos)-sum(neg) over pairings.
func (z *Zone) match(pos, neg []*Term) (int64, bool) {
	if len(pos) == 0 {
		s := int64(0)
		for _, n := range neg {
			b, ok := z.dist(0, n.id)
			if !ok {
				return 0, false
			}
			s += b
		}
		return s, true
	}
	best, have := int64(0), false
	p := pos[0]
	try := func(b int64, ok bool, rest []*Term) {
		if !ok {
			return
		}
		r, ok := z.match(pos[1:], rest)
		if ok && (!have || b+r < best) {
			best, have = b+r, true
		}
	}
	b, ok := z.dist(p.id, 0)
	try(b, ok, neg)
	for i, n := range neg {
		b, ok := z.dist(p.id, n.id)
		if !ok {
			continue
		}
		rest := append(append([]*Term{}, neg[:i]...), neg[i+1:]...)
		try(b, ok, rest)
	}
	return best, have
}
func (z *Zone) lower(t *Term) (int64, bool) {
	u, ok := z.upper(mkScale(t, -1))
	return -u, ok
}

// addLe adds t <= 0. False when that is contradictory.
func (z *Zone) addLe(t *Term) bool {
	if lo, ok := z.lower(t); ok && lo > 0 {
		return false
	}
	l := linOf(t)
	var pos, neg *Term
	n := 0
	for a, c := range l.m {
		n++
		if c == 1 && pos == nil {
			pos = a
		} else if c == -1 && neg == nil {
			neg = a
		} else {
			return true // not expressible
		}
	}
	switch {
	case n == 0:
		return l.c <= 0
	case n == 1 && pos != nil:
		z.set(pos.id, 0, -l.c)
	case n == 1:
		z.set(0, neg.id, -l.c)
	case n == 2 && pos != nil && neg != nil:
		z.set(pos.id, neg.id, -l.c)
	}
	return true
}

func (z *Zone) nodes() map[int]bool {
	ns := map[int]bool{0: true}
	for k := range z.e {
		ns[k[0]], ns[k[1]] = true, true
	}
	return ns
}

// closure over a set of nodes
func (z *Zone) closure(ns []int) [][]int64 {
	all := z.nodes()
	for _, n := range ns {
		all[n] = true
	}
	var ids []int
	ids = append(ids, ns...)
	in := map[int]int{}
	for i, n := range ids {
		in[n] = i
	}
	for n := range all {
		if _, ok := in[n]; !ok {
			in[n] = len(ids)
			ids = append(ids, n)
		}
	}
	N := len(ids)
	d := make([][]int64, N)
	for i := range d {
		d[i] = make([]int64, N)
		for j := range d[i] {
			if i != j {
				d[i][j] = inf
			}
		}
	}
	for k, c := range z.e {
		i, j := in[k[0]], in[k[1]]
		if c < d[i][j] {
			d[i][j] = c
		}
	}
	zi := in[0]
	for n, i := range in {
		if n != 0 {
			if l, ok := implicitLower(termTab[n-1]); ok && -l < d[zi][i] {
				d[zi][i] = -l
			}
		}
	}
	for k := 0; k < N; k++ {
		for i := 0; i < N; i++ {
			if d[i][k] >= inf {
				continue
			}
			for j := 0; j < N; j++ {
				if d[k][j] < inf && d[i][k]+d[k][j] < d[i][j] {
					d[i][j] = d[i][k] + d[k][j]
				}
			}
		}
	}
	return d
}

// joinZones: constraints that hold in both, over the nodes for which keep holds.
func joinZones(a, b *Zone, keep func(int) bool) *Zone {
	set := map[int]bool{}
	for n := range a.nodes() {
		if n == 0 || keep(n) {
			set[n] = true
		}
	}
	for n := range b.nodes() {
		if n == 0 || keep(n) {
			set[n] = true
		}
	}
	var ns []int
	for n := range set {
		ns = append(ns, n)
	}
	da, db := a.closure(ns), b.closure(ns)
	r := newZone()
	zi := 0
	for i, n := range ns {
		if n == 0 {
			zi = i
		}
	}
	m := make([][]int64, len(ns))
	for i := range ns {
		m[i] = make([]int64, len(ns))
		for j := range ns {
			m[i][j] = da[i][j]
			if db[i][j] > m[i][j] {
				m[i][j] = db[i][j]
			}
		}
	}
	for i := range ns {
		for j := range ns {
			if i == j || m[i][j] >= inf {
				continue
			}
			if i != zi && j != zi && m[i][zi] < inf && m[zi][j] < inf && m[i][zi]+m[zi][j] <= m[i][j] {
				continue
			}
			if i == zi && ns[j] != 0 {
				if l, ok := implicitLower(termTab[ns[j]-1]); ok && m[i][j] >= -l {
					continue
				}
			}
			r.set(ns[i], ns[j], m[i][j])
		}
	}
	return r
}

// widenZone keeps the constraints of a that b implies.
func widenZone(a, b *Zone) *Zone {
	r := newZone()
	for k, c := range a.e {
		if d, ok := b.dist(k[0], k[1]); ok && d <= c {
			r.set(k[0], k[1], c)
		}
	}
	return r
}

func (z *Zone) equal(b *Zone) bool {
	if len(z.e) != len(b.e) {
		return false
	}
	for k, c := range z.e {
		if d, ok := b.e[k]; !ok || d != c {
			return false
		}
	}
	return true
}
