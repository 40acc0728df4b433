package main

// Conditions: canonical forms of comparisons, and what a state knows about them.

import (
	"go/types"
	"strings"
)

func isNumericType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isNumeric(t *Term) bool {
	switch t.op {
	case OLin:
		return true
	case OApp:
		switch t.s {
		case "len", "byte", "atoi", "kind", "cap", "rem", "index", "conv", "mod", "mul":
			return true
		}
	}
	return isNumericType(t.typ)
}

// immutable package variables of other packages, and errors made on the spot
func isGlobalConst(t *Term) bool { return t.op == OApp && t.s == "global" }
func isNewErr(t *Term) bool      { return t.op == OApp && t.s == "newerr" }

func nonNil(t *Term) bool {
	switch t.op {
	case OPtr, OIface, OFunc, OClos, OStruct, OSlice, OStr, OElem, OArr:
		return true
	case OCat:
		return true
	case OApp:
		switch t.s {
		case "global", "newerr", "nonnil", "proto", "newbuilder", "ptrto", "built", "mhdec", "hexdec":
			return true
		}
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OBool {
		a, b = b, a
	}
	if b.op == OBool && a.op != OBool {
		if b.i == 1 {
			return a
		}
		return mkNot(a)
	}
	if a.op == OStr && b.op == OStr || a.op == OBool && b.op == OBool || a.op == OFunc && b.op == OFunc {
		return tFalse
	}
	if a.op == ONil || b.op == ONil {
		x := a
		if a.op == ONil {
			x = b
		}
		if nonNil(x) {
			return tFalse
		}
		return mkApp("isnil", x)
	}
	if isNumeric(a) || isNumeric(b) {
		// byte comparison with a constant
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].op == OApp && p[0].s == "byte" {
				if c, ok := isInt(p[1]); ok && c >= 0 && c < 256 {
					return mkAt(p[0].args[0], p[0].args[1], string([]byte{byte(c)}))
				}
			}
		}
		d := mkSub(a, b)
		if c, ok := isInt(d); ok {
			return mkBool(c == 0)
		}
		if d.op == OLin && d.co[0] < 0 {
			d = mkScale(d, -1)
		}
		return mkApp("eq0", d)
	}
	if isGlobalConst(a) && isGlobalConst(b) {
		return tFalse
	}
	if isGlobalConst(a) && isNewErr(b) || isNewErr(a) && isGlobalConst(b) {
		return tFalse
	}
	if a.op == OIface && b.op == OIface {
		if a.s != b.s {
			return tFalse
		}
		return mkEq(a.args[0], b.args[0])
	}
	if a.op == OPtr && b.op == OPtr {
		return tFalse
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		// conjunction kept as one term unless decided fieldwise
		all := true
		var one *Term
		for i := range a.args {
			e := mkEq(a.args[i], b.args[i])
			if e == tFalse {
				return tFalse
			}
			if e != tTrue {
				if all && one == nil {
					one = e
				} else {
					one = nil
				}
				all = false
			}
		}
		if all {
			return tTrue
		}
		if one != nil {
			return one
		}
	}
	if a.op == OStr {
		a, b = b, a
	}
	if b.op == OStr {
		if x, lo, hi := subParts(a); x != nil {
			if n, ok := isInt(mkSub(hi, lo)); ok {
				if n != int64(len(b.s)) {
					return tFalse
				}
				return mkAt(x, lo, b.s)
			}
		}
		if a.op == OApp && a.s == "cutb" && !strings.Contains(b.s, a.args[1].s) {
			return mkAt(a.args[0], mkInt(0), b.s+a.args[1].s)
		}
		if a.op == OCat && a.s != "list" {
			f, l := a.args[0], a.args[len(a.args)-1]
			if f.op == OStr {
				if !strings.HasPrefix(b.s, f.s) {
					return tFalse
				}
				return mkEq(mkCat(a.args[1:]...), mkStr(b.s[len(f.s):]))
			}
			if l.op == OStr {
				if !strings.HasSuffix(b.s, l.s) {
					return tFalse
				}
				return mkEq(mkCat(a.args[:len(a.args)-1]...), mkStr(b.s[:len(b.s)-len(l.s)]))
			}
		}
		if b.s == "" {
			return mkEq(mkLen(a), mkInt(0))
		}
		if n, ok := isInt(mkLen(a)); ok {
			if n != int64(len(b.s)) {
				return tFalse
			}
			return mkAt(a, mkInt(0), b.s)
		}
		return mkApp("eq", a, b)
	}
	if a.op == OCat && b.op == OCat && a.s != "list" && b.s != "list" {
		x, y := a.args, b.args
		for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
			x, y = x[1:], y[1:]
		}
		for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
			x, y = x[:len(x)-1], y[:len(y)-1]
		}
		if len(x) != len(a.args) {
			return mkEq(mkCat(x...), mkCat(y...))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkApp("eq", a, b)
}

func mkLe0(d *Term) *Term {
	if c, ok := isInt(d); ok {
		return mkBool(c <= 0)
	}
	return mkApp("le0", d)
}
func mkLt(a, b *Term) *Term { return mkLe0(mkAdd(mkSub(a, b), mkInt(1))) }
func mkLe(a, b *Term) *Term { return mkLe0(mkSub(a, b)) }

// mkAt: x holds lit at offset off (and is long enough).
func mkAt(x, off *Term, lit string) *Term {
	if lit == "" {
		return tTrue
	}
	if y, lo, hi := subParts(x); y != nil && hi == mkLen(y) {
		return mkAt(y, mkAdd(lo, off), lit)
	}
	o, ok := isInt(off)
	if x.op == ONil {
		return tFalse
	}
	if x.op == OStr && ok {
		return mkBool(o >= 0 && o+int64(len(lit)) <= int64(len(x.s)) && x.s[o:o+int64(len(lit))] == lit)
	}
	if x.op == OCat && x.s != "list" && ok {
		as := x.args
		for len(as) > 0 {
			n, k := isInt(mkLen(as[0]))
			if !k || o < n {
				break
			}
			o -= n
			as = as[1:]
		}
		if len(as) == 0 {
			return tFalse
		}
		if as[0].op == OStr {
			t := as[0].s[o:]
			if len(t) >= len(lit) {
				return mkBool(strings.HasPrefix(t, lit))
			}
			if !strings.HasPrefix(lit, t) {
				return tFalse
			}
			return mkAt(mkCat(as[1:]...), mkInt(0), lit[len(t):])
		}
		if len(as) < len(x.args) {
			return mkAt(mkCat(as...), mkInt(o), lit)
		}
	}
	if x.op == OCat && x.s != "list" {
		// offset from the end, into a trailing literal
		la := x.args[len(x.args)-1]
		if la.op == OStr {
			if d, k := isInt(mkSub(mkLen(x), off)); k && d > 0 && int(d) <= len(la.s) && int(d) >= len(lit) {
				return mkBool(strings.HasPrefix(la.s[len(la.s)-int(d):], lit))
			}
		}
	}
	return mkApp("at", x, off, mkStr(lit))
}

func (st *State) known(t *Term) (bool, bool) {
	if v, ok := st.known1(t); ok {
		return v, true
	}
	// an element at an index that equals another one is the same element
	if !hasVarIdx(t) {
		return false, false
	}
	for f, v := range st.facts {
		if !v || f.op != OApp || f.s != "eq0" {
			continue
		}
		l := linOf(f.args[0])
		if len(l.m) != 2 {
			continue
		}
		var p, n *Term
		for a, c := range l.m {
			switch c {
			case 1:
				p = a
			case -1:
				n = a
			}
		}
		if p == nil || n == nil {
			continue
		}
		// p - n + c == 0
		for _, e := range [][2]*Term{{p, mkSub(n, mkInt(l.c))}, {n, mkAdd(p, mkInt(l.c))}} {
			g := substIdx(t, e[0], e[1])
			if g == t {
				continue
			}
			if w, ok := st.known1(g); ok {
				return w, true
			}
		}
	}
	return false, false
}

func hasVarIdx(t *Term) bool {
	found := false
	walk(t, func(x *Term) bool {
		if x.op == OApp && x.s == "idx" {
			if _, c := isInt(x.args[1]); !c {
				found = true
			}
		}
		return !found
	})
	return found
}

// substIdx replaces a variable inside element indices only.
func substIdx(t, from, to *Term) *Term {
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		if x.op == OApp && x.s == "idx" && mentions(x.args[1], from) {
			m[x] = mkIdx(x.args[0], subst(x.args[1], map[*Term]*Term{from: to}, map[*Term]*Term{}), x.typ)
		}
		return true
	})
	if len(m) == 0 {
		return t
	}
	return subst(t, m, map[*Term]*Term{})
}

// knownSum decides t <= 0 for a sum of three or more, which the zone cannot hold,
// from a test of the same sum up to a constant.
func (st *State) knownSum(t *Term) (bool, bool) {
	if len(linOf(t).m) < 3 {
		return false, false
	}
	for f, v := range st.facts {
		if f.op != OApp || f.s != "le0" && f.s != "eq0" {
			continue
		}
		u := f.args[0]
		same, ok1 := isInt(mkSub(t, u)) // t = u + same
		opp, ok2 := isInt(mkAdd(t, u))  // t = opp - u
		if !ok1 && !ok2 {
			continue
		}
		switch {
		case f.s == "eq0" && v && ok1:
			return same <= 0, true
		case f.s == "eq0" && v:
			return opp <= 0, true
		case f.s == "eq0":
		case v && ok1: // u <= 0
			lim := int64(0)
			if w, ok := st.facts[mkEq(u, mkInt(0))]; ok && !w {
				lim = 1
			}
			if same <= lim {
				return true, true
			}
		case v:
			lim := int64(0)
			if w, ok := st.facts[mkEq(u, mkInt(0))]; ok && !w {
				lim = 1
			}
			if opp+lim > 0 {
				return false, true
			}
		case ok1: // u >= 1
			if same >= 0 {
				return false, true
			}
		default:
			if opp <= 1 {
				return true, true
			}
		}
	}
	return false, false
}

func (st *State) known1(t *Term) (bool, bool) {
	if t.op == OBool {
		return t.i == 1, true
	}
	if t.op == OApp && t.s == "not" {
		v, ok := st.known(t.args[0])
		return !v, ok
	}
	if v, ok := st.facts[t]; ok {
		return v, true
	}
	if t.op != OApp {
		return false, false
	}
	switch t.s {
	case "eq0":
		hi, ok1 := st.zone.upper(t.args[0])
		if ok1 && hi < 0 {
			return false, true
		}
		lo, ok2 := st.zone.lower(t.args[0])
		if ok2 && lo > 0 {
			return false, true
		}
		if ok1 && ok2 && hi == 0 && lo == 0 {
			return true, true
		}
	case "le0":
		if hi, ok := st.zone.upper(t.args[0]); ok && hi <= 0 {
			return true, true
		}
		if lo, ok := st.zone.lower(t.args[0]); ok && lo > 0 {
			return false, true
		}
		return st.knownSum(t.args[0])
	case "isnil":
		x := t.args[0]
		// a known length above zero is not nil
		if lo, ok := st.zone.lower(mkLen(x)); ok && lo > 0 && !isNumeric(x) && x.op != OField {
			return false, true
		}
		for f, v := range st.facts {
			if v && f.op == OApp && (f.s == "eq" || f.s == "erris") && (f.args[0] == x && nonNil(f.args[1]) || f.args[1] == x && nonNil(f.args[0])) {
				return false, true
			}
		}
		// an interface or pointer wrapping a known value
		if x.op == OField && st.maybeValue(x) {
			return false, true
		}
	case "at":
		return st.knownAt(t.args[0], t.args[1], t.args[2].s)
	case "eq":
		a, b := t.args[0], t.args[1]
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			x, y := p[0], p[1]
			if y.op == OStr {
				if v, ok := st.known(mkEq(mkLen(x), mkInt(int64(len(y.s))))); ok && !v {
					return false, true
				} else if ok && v {
					if w, ok := st.known(mkAt(x, mkInt(0), y.s)); ok {
						return w, true
					}
				}
				if w, ok := st.known(mkAt(x, mkInt(0), y.s)); ok && !w {
					return false, true
				}
			}
			if isGlobalConst(y) || isNewErr(y) {
				if v, ok := st.facts[mkApp("isnil", x)]; ok && v {
					return false, true
				}
				for f, v := range st.facts {
					if v && f.op == OApp && f.s == "eq" && (f.args[0] == x || f.args[1] == x) {
						o := f.args[0]
						if o == x {
							o = f.args[1]
						}
						if e := mkEq(o, y); e == tFalse {
							return false, true
						}
					}
				}
			}
			if y.op == OIface {
				for f, v := range st.facts {
					if v && f.op == OApp && f.s == "eq" && (f.args[0] == x || f.args[1] == x) {
						o := f.args[0]
						if o == x {
							o = f.args[1]
						}
						if o.op == OIface && o.s != y.s {
							return false, true
						}
					}
				}
			}
		}
		if !isNumeric(a) {
			// strings of different known lengths
			if v, ok := st.known(mkEq(mkLen(a), mkLen(b))); ok && !v && (b.op == OStr || a.op == OCat || b.op == OCat) {
				return false, true
			}
		}
	case "and":
		all := true
		for _, a := range t.args {
			v, ok := st.known(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	return false, false
}

// maybeValue: x is the pointer field v of a Maybe whose m is known to be Value.
func (st *State) maybeValue(x *Term) bool {
	if x.op != OField || x.args[0].typ == nil {
		return false
	}
	n, ok := x.args[0].typ.(*types.Named)
	if !ok || !strings.HasSuffix(n.Obj().Name(), "__Maybe") {
		return false
	}
	v, ok := st.known(mkEq(mkField(x.args[0], 0, types.Typ[types.Uint8]), mkInt(maybeValueConst)))
	return ok && v
}

const maybeValueConst = 2 // schema.Maybe_Value; checked against the package at load

// knownAt decides whether x holds lit at offset off from the other byte facts.
func (st *State) knownAt(x, off *Term, lit string) (bool, bool) {
	if hi, ok := st.zone.upper(mkSub(mkAdd(off, mkInt(int64(len(lit)))), mkLen(x))); ok && hi > 0 {
		if lo, ok := st.zone.lower(mkSub(mkAdd(off, mkInt(int64(len(lit)))), mkLen(x))); ok && lo > 0 {
			return false, true
		}
	} else if lo, ok := st.zone.lower(mkSub(mkAdd(off, mkInt(int64(len(lit)))), mkLen(x))); ok && lo > 0 {
		return false, true
	}
	o, ok := isInt(off)
	if !ok {
		return false, false
	}
	bytes := st.bytesOf(x)
	full := true
	for k := 0; k < len(lit); k++ {
		c, have := bytes[o+int64(k)]
		if !have {
			full = false
		} else if c != lit[k] {
			return false, true
		}
	}
	if full {
		return true, true
	}
	// what is known of the part before a separator
	if o == 0 {
		for f, v := range st.facts {
			if v || f.op != OApp {
				continue
			}
			switch f.s {
			case "contains":
				if f.args[0] == x && f.args[1].op == OStr && strings.Contains(lit, f.args[1].s) {
					return false, true
				}
			case "eq":
				for _, p := range [][2]*Term{{f.args[0], f.args[1]}, {f.args[1], f.args[0]}} {
					b, w := p[0], p[1]
					if b.op != OApp || b.s != "cutb" || b.args[0] != x || b.args[1].op != OStr || w.op != OStr {
						continue
					}
					sep := b.args[1].s
					if strings.HasPrefix(lit, w.s+sep) && strings.Index(lit, sep) == len(w.s) {
						return false, true
					}
				}
			}
		}
	}
	// a known-false fact that would follow
	for f, v := range st.facts {
		if v || f.op != OApp {
			continue
		}
		var o2 int64
		var l2 string
		switch {
		case f.s == "at" && f.args[0] == x:
			c, k := isInt(f.args[1])
			if !k {
				continue
			}
			o2, l2 = c, f.args[2].s
		case f.s == "eq" && (f.args[0] == x && f.args[1].op == OStr):
			l2 = f.args[1].s
			if v, ok := st.known(mkEq(mkLen(x), mkInt(int64(len(l2))))); !ok || !v {
				continue
			}
		default:
			continue
		}
		implied := true
		for k := 0; k < len(l2); k++ {
			p := o2 + int64(k)
			c, have := bytes[p]
			if !have && p >= o && p < o+int64(len(lit)) {
				c, have = lit[p-o], true
			}
			if !have || c != l2[k] {
				implied = false
				break
			}
		}
		if implied {
			return false, true
		}
	}
	return false, false
}

// bytesOf collects the bytes of x known at fixed offsets.
func (st *State) bytesOf(x *Term) map[int64]byte {
	m := map[int64]byte{}
	for f, v := range st.facts {
		if !v || f.op != OApp {
			continue
		}
		switch f.s {
		case "at":
			if f.args[0] == x {
				if o, ok := isInt(f.args[1]); ok {
					for k := 0; k < len(f.args[2].s); k++ {
						m[o+int64(k)] = f.args[2].s[k]
					}
				}
			}
		case "eq":
			for _, p := range [][2]*Term{{f.args[0], f.args[1]}, {f.args[1], f.args[0]}} {
				if p[1].op != OStr {
					continue
				}
				o, ok := int64(0), p[0] == x
				if y, lo, _ := subParts(p[0]); y == x {
					o, ok = isInt(lo)
				}
				for k := 0; ok && k < len(p[1].s); k++ {
					m[o+int64(k)] = p[1].s[k]
				}
			}
		}
	}
	return m
}

// litOf returns the literal a term is known to equal.
func (st *State) litOf(x *Term) (string, bool) {
	if x.op == OStr {
		return x.s, true
	}
	if v, ok := st.known(mkEq(mkLen(x), mkInt(0))); ok && v {
		return "", true
	}
	for f, v := range st.facts {
		if v && f.op == OApp && f.s == "eq" {
			if f.args[0] == x && f.args[1].op == OStr {
				return f.args[1].s, true
			}
			if f.args[1] == x && f.args[0].op == OStr {
				return f.args[0].s, true
			}
		}
	}
	n := mkLen(x)
	hi, ok1 := st.zone.upper(n)
	lo, ok2 := st.zone.lower(n)
	if ok1 && ok2 && hi == lo {
		m := st.bytesOf(x)
		b := make([]byte, hi)
		for i := range b {
			c, ok := m[int64(i)]
			if !ok {
				return "", false
			}
			b[i] = c
		}
		return string(b), true
	}
	return "", false
}

// assume adds a condition; false when it contradicts what is known.
func (st *State) assume(t *Term, v bool) bool {
	if t.op == OApp && t.s == "not" {
		return st.assume(t.args[0], !v)
	}
	if w, ok := st.known(t); ok {
		return w == v
	}
	if t.op == OApp && t.s == "and" {
		if v {
			for _, a := range t.args {
				if !st.assume(a, true) {
					return false
				}
			}
			return true
		}
		var open []*Term
		for _, a := range t.args {
			if w, ok := st.known(a); !ok || !w {
				open = append(open, a)
			}
		}
		if len(open) == 1 {
			return st.assume(open[0], false)
		}
	}
	st.facts[t] = v
	if t.op != OApp {
		return true
	}
	ok := true
	switch t.s {
	case "eq0":
		if v {
			ok = st.zone.addLe(t.args[0]) && st.zone.addLe(mkScale(t.args[0], -1))
		}
	case "le0":
		if v {
			ok = st.zone.addLe(t.args[0])
		} else {
			ok = st.zone.addLe(mkAdd(mkScale(t.args[0], -1), mkInt(1)))
		}
	case "at":
		if v {
			need := mkAdd(t.args[1], mkInt(int64(len(t.args[2].s))))
			ok = st.zone.addLe(mkSub(need, mkLen(t.args[0]))) && (isConst(t.args[1]) || st.zone.addLe(mkScale(t.args[1], -1)))
			if o, k := isInt(t.args[1]); ok && cutUsed && k && o == 0 {
				st.resolveCut(t.args[0], t.args[2].s)
			}
		}
	case "eq":
		if v && !isNumeric(t.args[0]) && (t.args[0].op == OStr || t.args[1].op == OStr) {
			d := mkSub(mkLen(t.args[0]), mkLen(t.args[1]))
			if !isConst(d) {
				ok = st.zone.addLe(d) && st.zone.addLe(mkScale(d, -1))
			}
		}
	}
	return ok && st.tighten()
}

// tighten uses disequalities to sharpen bounds.
func (st *State) tighten() bool {
	for n := 0; n < 4; n++ {
		ch := false
		for f, v := range st.facts {
			if v || f.op != OApp || f.s != "eq0" {
				continue
			}
			d := f.args[0]
			hi, ok1 := st.zone.upper(d)
			if ok1 && hi == 0 {
				if !st.zone.addLe(mkAdd(d, mkInt(1))) {
					return false
				}
				ch = true
				continue
			}
			lo, ok2 := st.zone.lower(d)
			if ok2 && lo == 0 {
				if !st.zone.addLe(mkAdd(mkScale(d, -1), mkInt(1))) {
					return false
				}
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return true
}

// resolveCut: once the text before a separator is known, so is the place of the rest.
func (st *State) resolveCut(x *Term, lit string) {
	sep := mkStr(lit[len(lit)-1:])
	if strings.IndexByte(lit, sep.s[0]) != len(lit)-1 {
		return
	}
	m := map[*Term]*Term{}
	a, b := mkApp("cuta", x, sep), mkApp("cutb", x, sep)
	m[a] = mkSlice(x, mkInt(int64(len(lit))), mkLen(x))
	m[b] = mkStr(lit[:len(lit)-1])
	st.rename(m)
}
