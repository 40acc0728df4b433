package main

// Reading decoded values: where a value came from, under which conditions.

import (
	"go/types"
	"os"
	"strings"
)

// leaf is a value a location can hold, with what holds when it is stored.
type leaf struct {
	v   *Term
	env *State
	// nil when the value was there before any loop ran
	it *Iter
}

// bare: v is a loop variable, or a struct of nothing but loop variables of one
// loop.
func bare(v *Term) *LoopInfo {
	if p, ok := phiReg[v]; ok {
		return p.loop
	}
	if v.op != OStruct {
		return nil
	}
	var l *LoopInfo
	for _, a := range v.args {
		b := bare(a)
		if b == nil || (l != nil && b != l) {
			return nil
		}
		l = b
	}
	return l
}

// expand lists the values v stands for, going through the loops that built it.
func expand(v *Term, env *State) []leaf {
	var out []leaf
	seen := map[*Term]bool{}
	var rec func(v *Term, env *State, it *Iter)
	rec = func(v *Term, env *State, it *Iter) {
		l := bare(v)
		if l == nil {
			out = append(out, leaf{v, env, it})
			return
		}
		if seen[v] {
			return
		}
		seen[v] = true
		m := map[*Term]*Term{}
		for _, p := range l.phis {
			m[p.sym] = p.init
		}
		rec(subst(v, m, map[*Term]*Term{}), l.entry, nil)
		for _, it := range l.iters {
			m := map[*Term]*Term{}
			for loc, p := range l.phis {
				m[p.sym] = it.vals[loc]
			}
			w := subst(v, m, map[*Term]*Term{})
			if w != v {
				rec(w, it.st, it)
			}
		}
	}
	rec(v, env, nil)
	return out
}

// elements lists what is appended to a list, going through the loops that
// build it. ok is false when the list is not only appended to.
func elements(v *Term, env *State) (els []leaf, ok bool) {
	ok = true
	seen := map[*Term]bool{}
	var rec func(v *Term, env *State, it *Iter)
	rec = func(v *Term, env *State, it *Iter) {
		v = peel(v)
		if p, is := phiReg[v]; is {
			if seen[v] {
				return
			}
			seen[v] = true
			rec(p.init, p.loop.entry, nil)
			for _, it := range p.loop.iters {
				w := it.vals[p.loc]
				if w == v {
					continue
				}
				as := atoms(w)
				if len(as) == 0 || !startsWith(w, v) {
					ok = false
					continue
				}
				rec(w, it.st, it)
			}
			return
		}
		if isZero(v) || v == tEList {
			return
		}
		if n, is := isInt(mkLen(v)); is && n == 0 {
			return
		}
		for i, a := range atoms(v) {
			switch {
			case a.op == OElem:
				els = append(els, leaf{a.args[0], env, it})
			case i == 0:
				if _, is := phiReg[a]; is {
					rec(a, env, it)
				} else {
					ok = false
				}
			default:
				ok = false
			}
			if debugRules && !ok {
				println("elements:", v.String())
			}
		}
	}
	rec(v, env, nil)
	return
}

var debugRules = os.Getenv("GITCHECK_DEBUG") != ""

// startsWith: w is ph with something appended, directly or by inner loops.
func startsWith(w, ph *Term) bool {
	for d := 0; d < 12; d++ {
		if w == ph {
			return true
		}
		as := atoms(w)
		if len(as) == 0 {
			return false
		}
		if as[0] == ph {
			return true
		}
		p, ok := phiReg[as[0]]
		if !ok {
			return false
		}
		w = p.init
	}
	return false
}

// peel removes the generated one-field wrappers.
func peel(v *Term) *Term {
	for v.op == OStruct && len(v.args) == 1 {
		v = v.args[0]
	}
	return v
}

func isZero(v *Term) bool {
	switch v.op {
	case ONil:
		return true
	case OStr:
		return v.s == ""
	case OBool:
		return v.i == 0
	case OCat:
		return len(v.args) == 0
	case OLin:
		return len(v.args) == 0 && v.i == 0
	case OSlice:
		return v.args[1] == v.args[2]
	case OStruct, OArr:
		for _, a := range v.args {
			if !isZero(a) {
				return false
			}
		}
		return true
	case OApp:
		return v.s == "zero"
	}
	return false
}

// isLine: v is a whole line of input, without its line feed.
func isLine(v *Term) bool { return isTok(v, "text@", "\n", map[*Term]bool{}) }

// isRest: v is all that was left of the input.
func isRest(v *Term) bool { return v.op == OSym && strings.HasPrefix(v.s, "all@") }

func isTok(v *Term, kind, delim string, seen map[*Term]bool) bool {
	if v.op != OSym {
		return false
	}
	if p, ok := phiReg[v]; ok {
		if seen[v] {
			return true
		}
		seen[v] = true
		if !isTok(p.init, kind, delim, seen) {
			return false
		}
		for _, it := range p.loop.iters {
			if !isTok(it.vals[p.loc], kind, delim, seen) {
				return false
			}
		}
		return true
	}
	return strings.HasPrefix(v.s, kind) && delimOf[v] == delim
}

func yes(st *State, t *Term) bool { v, ok := st.known(t); return ok && v }
func no(st *State, t *Term) bool  { v, ok := st.known(t); return ok && !v }

// after: v is what follows the literal kw at the start of a line.
func after(v *Term, env *State, kw string) (*Term, bool) {
	x, lo, hi := subParts(v)
	if x == nil {
		// a line known to be the keyword and nothing else has an empty rest
		return nil, false
	}
	if !isLine(x) || hi != mkLen(x) {
		return nil, false
	}
	if n, ok := isInt(lo); !ok || n != int64(len(kw)) {
		return nil, false
	}
	if !yes(env, mkAt(x, mkInt(0), kw)) {
		return nil, false
	}
	return x, true
}

// linkOf returns the hash bytes a link value is made of.
func linkOf(v *Term) (hash *Term, why string) {
	v = peel(v)
	if v.op == OIface {
		if !strings.HasSuffix(v.s, "linking/cid.Link") {
			return nil, "the link is a " + v.s
		}
		v = v.args[0]
	}
	if v.op == OStruct && len(v.args) == 1 {
		v = v.args[0]
	}
	if v.op != OApp || v.s != "cidv1" {
		return nil, "the link is " + v.String()
	}
	if n, ok := isInt(v.args[0]); !ok || n != 0x78 {
		return nil, "the link's codec is " + v.args[0].String() + ", not git-raw"
	}
	h := v.args[1]
	if h.op != OApp || h.s != "mhenc" {
		return nil, "the link's hash is " + h.String()
	}
	if n, ok := isInt(h.args[1]); !ok || n != 0x11 {
		return nil, "the link's hash function is " + h.args[1].String() + ", not sha1"
	}
	return h.args[0], ""
}

// fieldsOf gives a generated struct's field indices by name.
func (P *Program) fieldsOf(typ string) map[string]int {
	o := P.pkg.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	m := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		m[st.Field(i).Name()] = i
	}
	return m
}

// structOf finds the generated struct in an assigned node.
func structOf(v *Term, typ string) *Term {
	for i := 0; i < 4; i++ {
		switch {
		case v.op == OIface:
			v = v.args[0]
		case v.op == OApp && v.s == "ptrto":
			v = v.args[0]
		case v.op == OStruct && strings.HasSuffix(v.s, "."+typ):
			return v
		case v.op == OSym && bare(v) != nil:
			return nil
		}
	}
	if v.op == OStruct && strings.HasSuffix(v.s, "."+typ) {
		return v
	}
	return nil
}
