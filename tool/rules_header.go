package main

import (
	"fmt"
	"go/types"
	"strings"
)

var byteT = types.Typ[types.Uint8]

func byteIs(st *State, x, i *Term, c byte) (is, isnt bool) {
	t := mkEq(mkIdx(x, i, byteT), mkInt(int64(c)))
	v, ok := st.known(t)
	if ok {
		return v, !v
	}
	v, ok = st.known(mkAt(x, i, string([]byte{c})))
	if ok {
		return v, !v
	}
	return false, false
}

func empty(st *State, x *Term) bool {
	u, ok := st.zone.upper(mkLen(x))
	return ok && u <= 0
}
func nonEmpty(st *State, x *Term) bool {
	l, ok := st.zone.lower(mkLen(x))
	return ok && l > 0
}

// unsuffixed: x is known not to end with s.
func unsuffixed(st *State, x *Term, s string) bool {
	has := mkHasSuffix(x, mkStr(s))
	return no(st, has) || no(st, mkApp("and", mkLe(mkInt(int64(len(s))), mkLen(x)), has))
}

// loopVar splits an index into a loop variable and an offset.
func loopVar(k *Term) (*PhiInfo, int64) {
	l := linOf(k)
	if len(l.m) != 1 {
		return nil, 0
	}
	for a, c := range l.m {
		if p, ok := phiReg[a]; ok && c == 1 {
			return p, l.c
		}
	}
	return nil, 0
}

// stepsByOne: every iteration adds one to the variable.
func stepsByOne(p *PhiInfo) bool {
	for _, it := range p.loop.iters {
		if it.vals[p.loc] != mkAdd(p.sym, mkInt(1)) {
			return false
		}
	}
	return len(p.loop.iters) > 0
}

// partOf: t is a part of the split line, from byte a to byte len-b.
func partOf(t *Term) (s, k *Term, a, b int64, ok bool) {
	x := t
	if y, lo, hi := subParts(t); y != nil {
		x = y
		var ok1, ok2 bool
		a, ok1 = isInt(lo)
		b, ok2 = isInt(mkSub(mkLen(y), hi))
		if !ok1 || !ok2 {
			return nil, nil, 0, 0, false
		}
	}
	if x.op != OApp || x.s != "idx" || x.args[0].op != OApp || x.args[0].s != "split" || x.args[0].args[1] != mkStr(" ") {
		return nil, nil, 0, 0, false
	}
	return x.args[0], x.args[1], a, b, true
}

// bufferPhi finds the accumulator of a loop.
func bufferPhi(l *LoopInfo) []*PhiInfo {
	var r []*PhiInfo
	for _, loc := range sortedKeys(l.phis) {
		p := l.phis[loc]
		if strings.HasPrefix(loc, "h:buf:") || (p.sym.typ != nil && hasLen(p.sym.typ) && p.init == tEmpty) {
			r = append(r, p)
		}
	}
	return r
}

// person checks that a PersonInfo holds what a person line says: the words up to
// one starting with '<' are the name, those up to one ending with '>' the email,
// then the date and everything after it. It returns what is wrong.
func (r *Report) person(v *Term, env *State, kw string, off int) string {
	fs := r.P.fieldsOf("_PersonInfo")
	s := structOf(v, "_PersonInfo")
	if s == nil || fs == nil {
		return "not a PersonInfo: " + v.String()
	}
	date, tz, email, name := peel(s.args[fs["date"]]), peel(s.args[fs["timezone"]]), peel(s.args[fs["email"]]), peel(s.args[fs["name"]])
	// the email ends the second group of words
	ea := atoms(email)
	if len(ea) == 0 {
		return "the email is never set"
	}
	spaced := len(ea) == 3 && ea[1] == mkStr(" ") // a space before each word but the first
	S, K, a, b, ok := partOf(ea[len(ea)-1])
	if !ok || len(ea) > 2 && !spaced {
		return "?the email is " + email.String()
	}
	if b != 1 || a > 1 {
		return "the email is " + email.String()
	}
	X := S.args[0]
	L := X
	first := int64(1) // the word after the keyword
	if y, lo, hi := subParts(X); y != nil && lo == mkInt(int64(len(kw))) && hi == mkLen(y) {
		L, first = y, 0
	} else if off > 0 {
		y, lo, hi := subParts(X)
		if y == nil || lo != mkInt(int64(off)) || hi != mkLen(y) {
			return "the words are not those of the line: " + X.String()
		}
		L = y
	}
	if !isLine(L) {
		return "the words are not those of a line: " + X.String()
	}
	if !yes(env, mkAt(L, mkInt(0), kw)) {
		return "the line does not start with " + fmt.Sprintf("%q", kw)
	}
	pE, cE := loopVar(K)
	if pE == nil || !stepsByOne(pE) {
		return "?the email's words are not visited one by one: " + K.String()
	}
	E0 := mkAdd(pE.init, mkInt(cE)) // where the email starts
	kphi := func() *Term { return mkAdd(pE.sym, mkInt(cE)) }
	x := mkIdx(S, K, nil)
	last := func(st *State, x *Term) (bool, bool) { return byteIs(st, x, mkSub(mkLen(x), mkInt(1)), '>') }
	if is, _ := last(env, x); !is {
		return "the email does not end at '>'"
	}
	strip := func(st *State, k, x *Term, a int64) string {
		is, isnt := byteIs(st, x, mkInt(0), '<')
		first, later := pE.loop.firstTime(st)
		if a == 1 {
			if !yes(st, mkEq(k, E0)) && !first || !is {
				return "the email loses a byte that is not its opening '<'"
			}
			return ""
		}
		if no(st, mkEq(k, E0)) || later || isnt || empty(st, x) {
			return ""
		}
		if lo, ok := st.zone.lower(mkSub(k, E0)); ok && lo >= 1 {
			return ""
		}
		return "the email keeps its opening '<'"
	}
	if w := strip(env, K, x, a); w != "" {
		return w
	}
	if len(ea) >= 2 {
		pB, ok := phiReg[ea[0]]
		if !ok || pB.loop != pE.loop || pB.init != tEmpty {
			return "?the email starts with " + ea[0].String()
		}
		// at the first word, or after it
		place := func(st *State, k *Term) (first, later bool) {
			first, later = pE.loop.firstTime(st)
			lo, ok := st.zone.lower(mkSub(k, E0))
			return first || yes(st, mkEq(k, E0)), later || no(st, mkEq(k, E0)) || ok && lo >= 1
		}
		before := spaced
		for _, it := range pB.loop.iters {
			w := atoms(it.vals[pB.loc])
			before = before || len(w) == 3 && w[0] == pB.sym && w[1] == mkStr(" ")
		}
		first, later := place(env, K)
		if before && (spaced && !later || !spaced && !first) {
			return "the words of the email are not a space apart"
		}
		for _, it := range pB.loop.iters {
			w := atoms(it.vals[pB.loc])
			if before {
				first, later := place(it.st, kphi())
				var x *Term // the word added
				switch {
				case len(w) == 1 && w[0] == pB.sym && first, len(w) == 2 && w[0] == pB.sym && w[1] == mkStr(" ") && later:
					x = tEmpty
				case len(w) == 2 && w[0] == pB.sym && first:
					x = w[1]
				case len(w) == 3 && w[0] == pB.sym && w[1] == mkStr(" ") && later:
					x = w[2]
				default:
					return "the email accumulates " + it.vals[pB.loc].String()
				}
				w = []*Term{pB.sym, x, mkStr(" ")}
				if x == tEmpty {
					y := mkIdx(S, kphi(), nil)
					if w, ok := it.st.litOf(y); !empty(it.st, y) && !(first && ok && w == "<") {
						return "a word of the email is lost"
					}
					continue
				}
			}
			if len(w) == 2 && w[0] == pB.sym && w[1] == mkStr(" ") {
				// an empty word
				if !empty(it.st, mkIdx(S, kphi(), nil)) {
					return "a word of the email is lost"
				}
				continue
			}
			if len(w) != 3 || w[0] != pB.sym || w[2] != mkStr(" ") {
				return "the email accumulates " + it.vals[pB.loc].String()
			}
			S2, K2, a2, b2, ok := partOf(w[1])
			if !ok || S2 != S || K2 != kphi() {
				return "?the email accumulates " + w[1].String()
			}
			if b2 != 0 || a2 > 1 {
				return "the email accumulates " + w[1].String()
			}
			y := mkIdx(S, K2, nil)
			if m := strip(it.st, K2, y, a2); m != "" {
				return m
			}
			if _, isnt := last(it.st, y); !isnt && !empty(it.st, w[1]) && !unsuffixed(it.st, w[1], ">") {
				return "the email may continue past '>'"
			}
		}
	} else if len(pE.loop.iters) > 0 {
		return "the words of the email before the last are lost"
	}
	// the name
	pN, cN := loopVar(E0)
	if pN == nil {
		return "?the name's words are not visited by a loop: " + E0.String()
	}
	if !stepsByOne(pN) || mkAdd(pN.init, mkInt(cN)) != mkInt(first) {
		return "the name's words are not visited one by one from the first: " + E0.String()
	}
	if is, _ := byteIs(env, mkIdx(S, E0, nil), mkInt(0), '<'); !is {
		return "the name does not end at '<'"
	}
	var pB *PhiInfo
	for _, p := range bufferPhi(pN.loop) {
		pB = p
	}
	if pB == nil {
		return "?the name is not accumulated"
	}
	switch {
	case name == tEmpty:
		if !empty(env, pB.sym) {
			return "the name is dropped"
		}
	case pB.spacedBefore():
		if name != pB.sym {
			return "the name is " + name.String()
		}
	case name == pB.sym && unsuffixed(env, name, " "):
		// empty, since each part of it ends with a space
	default:
		y, lo, hi := subParts(name)
		if y != pB.sym || lo != mkInt(0) || hi != mkSub(mkLen(y), mkInt(1)) {
			return "the name is " + name.String()
		}
	}
	if pB.init != tEmpty {
		return "the name starts with " + pB.init.String()
	}
	kN := mkAdd(pN.sym, mkInt(cN))
	for _, it := range pB.loop.iters {
		w := atoms(it.vals[pB.loc])
		y := mkIdx(S, kN, nil)
		switch {
		case len(w) == 1 && w[0] == pB.sym:
			if !empty(it.st, y) || !empty(it.st, pB.sym) {
				return "a word of the name is lost"
			}
		case len(w) == 2 && w[0] == pB.sym && w[1] == mkStr(" "):
			if !empty(it.st, y) || !nonEmpty(it.st, pB.sym) {
				return "the name gains a space"
			}
		case pB.spacedBefore():
			if w[0] != pB.sym || w[len(w)-1] != y || len(w) == 3 && (w[1] != mkStr(" ") || !nonEmpty(it.st, pB.sym)) || len(w) == 2 && (!empty(it.st, pB.sym) || !nonEmpty(it.st, y)) || len(w) > 3 {
				return "the name accumulates " + it.vals[pB.loc].String()
			}
			if _, isnt := byteIs(it.st, y, mkInt(0), '<'); !isnt && !empty(it.st, y) {
				return "the name may hold the email"
			}
		case len(w) == 3 && w[0] == pB.sym && w[1] == y && w[2] == mkStr(" "):
			if _, isnt := byteIs(it.st, y, mkInt(0), '<'); !isnt {
				return "the name may hold the email"
			}
		default:
			return "the name accumulates " + it.vals[pB.loc].String()
		}
	}
	// date and the rest
	n := mkLen(S)
	k1, k2 := mkAdd(K, mkInt(1)), mkAdd(K, mkInt(2))
	switch {
	case date == mkIdx(S, k1, nil):
	case date == tEmpty && yes(env, mkEq(k1, n)):
	default:
		return "the date is " + date.String()
	}
	switch {
	case tz == mkApp("join", mkSlice(S, k2, n), mkStr(" ")):
	case tz == mkIdx(S, k2, nil) && yes(env, mkEq(mkAdd(k2, mkInt(1)), n)):
	case tz == tEmpty && (yes(env, mkEq(k1, n)) || yes(env, mkEq(k2, n))):
	default:
		return "the timezone is " + tz.String()
	}
	return ""
}

// firstTime: what a flag that only the first iteration finds as it was set
// before the loop says of where the loop has come to.
func (l *LoopInfo) firstTime(st *State) (first, later bool) {
	for _, p := range l.phis {
		then := map[*Term]*Term{tTrue: tFalse, tFalse: tTrue}[p.init]
		flag := then != nil
		for _, it := range l.iters {
			flag = flag && it.vals[p.loc] == then
		}
		if v, ok := st.known(p.sym); flag && ok {
			first = mkBool(v) == p.init
			return first, !first
		}
	}
	return false, false
}

// spacedBefore: the words that the loop accumulates have a space before each but
// the first.
func (p *PhiInfo) spacedBefore() bool {
	for _, it := range p.loop.iters {
		if w := atoms(it.vals[p.loc]); len(w) == 3 && w[0] == p.sym && w[1] == mkStr(" ") {
			return true
		}
	}
	return false
}

// badPerson: a person line that has no '<', no '>' after it, or too few words.
func badPerson(st *State, kws ...string) string {
	found := false
	for _, kw := range kws {
		if inContext(st, kw) {
			found = true
		}
	}
	if !found {
		return ""
	}
	for f := range st.facts {
		var why string
		walk(f, func(x *Term) bool {
			if p, ok := phiReg[x]; ok && p.consumesWords() {
				if hi, ok := st.zone.upper(mkLen(x)); ok && hi <= 0 {
					why = "a person line has no email"
				}
			}
			if x.op == OApp && x.s == "split" && x.args[1] == mkStr(" ") {
				n := mkLen(x)
				if hi, ok := st.zone.upper(n); ok && hi < 3 {
					why = "a person line has too few words"
				}
				for g := range st.facts {
					for s := range symsOf(g) {
						p, ok := phiReg[s]
						if !ok || !isNumericType(s.typ) {
							continue
						}
						if p.pastAll(st, x) && exhausts(p, x) {
							why = "a person line has no email"
						}
						k := p.visits(x)
						lo, ok := st.zone.lower(mkSub(s, n))
						if !ok || lo < -1-k || !exhausts(p, x) {
							continue
						}
						if lo+k >= 0 || lo >= -1 && st.lastWord(x, p) {
							why = "a person line has no email"
						}
					}
				}
			}
			return why == ""
		})
		if why != "" {
			return why
		}
	}
	return ""
}

// consumesWords: the words of a split line but the first, taken one by one.
func (p *PhiInfo) consumesWords() bool {
	for _, it := range p.loop.iters {
		v := it.vals[p.loc]
		if v == nil {
			return false
		}
		x, lo, hi := subParts(v)
		if x != p.sym || lo != mkInt(1) || hi != mkLen(x) {
			return false
		}
	}
	from := p.init
	if q, ok := phiReg[from]; ok {
		return q != p && q.consumesWords()
	}
	x, lo, hi := subParts(from)
	return x != nil && x.op == OApp && x.s == "split" && x.args[1] == mkStr(" ") && lo == mkInt(1) && hi == mkLen(x)
}

// lastWord: the word that the loop has come to, the last of the split line, does
// not end the email.
func (st *State) lastWord(split *Term, p *PhiInfo) bool {
	words := []*Term{mkIdx(split, p.sym, nil)}
	for _, q := range p.loop.phis {
		follows := q != p && len(p.loop.iters) > 0
		for _, it := range p.loop.iters {
			v := it.vals[q.loc]
			follows = follows && v != nil && v.op == OApp && v.s == "idx" && v.args[0] == split && v.args[1] == it.vals[p.loc]
		}
		if follows {
			words = append(words, q.sym)
		}
	}
	for _, w := range words {
		if hi, ok := st.zone.upper(mkLen(w)); ok && hi <= 0 {
			return true
		}
		if v, ok := st.known(mkAt(w, mkSub(mkLen(w), mkInt(1)), ">")); ok && !v {
			return true
		}
	}
	return false
}

// pastAll: the next words that an iteration would look at are beyond the last.
func (p *PhiInfo) pastAll(st *State, split *Term) bool {
	n := 0
	ok := true
	for _, it := range p.loop.iters {
		for f := range it.facts {
			walk(f, func(x *Term) bool {
				if x.op == OApp && x.s == "idx" && x.args[0] == split && symsOf(x.args[1])[p.sym] {
					n++
					v, known := st.known(mkLe(mkLen(split), x.args[1]))
					ok = ok && known && v
				}
				return ok
			})
		}
	}
	return ok && n > 0
}

// visits: how far beyond the loop's counter the word is that an iteration looks
// at, as in a range over the words, whose counter starts before the first one.
func (p *PhiInfo) visits(split *Term) int64 {
	k := int64(-1)
	for _, it := range p.loop.iters {
		for f := range it.facts {
			walk(f, func(x *Term) bool {
				if x.op == OApp && x.s == "idx" && x.args[0] == split {
					if d, ok := isInt(mkSub(x.args[1], p.sym)); ok && d >= 0 && (k < 0 || d < k) {
						k = d
					}
				}
				return true
			})
		}
	}
	if k < 0 {
		return 0
	}
	return k
}

// exhausts: the loop visits the words one by one, and goes on only past words
// that neither start nor end the email.
func exhausts(p *PhiInfo, s *Term) bool { return stepsByOne(p) }

// ---- header fields

// each states spec for every value a field can be given.
func (r *Report) each(field, where string, v *Term, env *State, spec func(l leaf) string) int {
	n := 0
	for _, l := range expand(v, env) {
		if isZero(l.v) && l.it == nil {
			r.require(true, "field "+field, where, "initially %s", l.v)
			continue
		}
		w := spec(l)
		r.require(w == "", "field "+field, where, "%s%s", l.v, wrong(w))
		n++
	}
	return n
}

func wrong(w string) string {
	if w == "" {
		return ""
	}
	return ": " + w
}

func hashAfter(kw string) func(l leaf) string {
	return func(l leaf) string {
		h, why := linkOf(l.v)
		if why != "" {
			return why
		}
		if h.op != OApp || h.s != "hexdec" {
			return "the hash is " + h.String()
		}
		if _, ok := after(h.args[0], l.env, kw); !ok {
			return "the hash is not what follows " + fmt.Sprintf("%q", kw) + " on its line"
		}
		if !yes(l.env, mkEq(mkLen(h), mkInt(20))) {
			return "the hash may not have 20 bytes"
		}
		return ""
	}
}

func textAfter(kw string) func(l leaf) string {
	return func(l leaf) string {
		if _, ok := after(peel(l.v), l.env, kw); !ok {
			return "not what follows " + fmt.Sprintf("%q", kw) + " on its line"
		}
		return ""
	}
}

// maybe peels an optional value.
func maybe(f func(l leaf) string) func(l leaf) string {
	return func(l leaf) string {
		if l.v.op != OStruct || len(l.v.args) != 2 {
			return "not an optional value"
		}
		if n, ok := isInt(l.v.args[0]); !ok || n != maybeValueConst {
			return "the field is not marked as present"
		}
		return f(leaf{l.v.args[1], l.env, l.it})
	}
}

// restAfterBlank: everything after the first empty line.
func restAfterBlank(l leaf) string {
	v := peel(l.v)
	if !isRest(v) {
		return "not all that is left of the input"
	}
	for _, x := range factLines(l.env) {
		if empty(l.env, x) {
			return ""
		}
	}
	return "not what follows an empty line"
}

// lines checks a text accumulated line by line; it returns the first value and
// the loop, or what is wrong.
func lines(v *Term, env *State, keep func(st *State, line *Term) string) (*PhiInfo, string) {
	v = peel(v)
	p, ok := phiReg[v]
	if !ok {
		// the loop is left after a line is added
		if w := atoms(v); len(w) == 3 && isLine(w[1]) && w[2] == mkStr("\n") {
			if p, ok = phiReg[w[0]]; ok {
				if m := keep(env, w[1]); m != "" {
					return nil, m
				}
			}
		}
	}
	if !ok {
		return nil, "not accumulated line by line: " + v.String()
	}
	n := 0
	for _, it := range p.loop.iters {
		if it.vals[p.loc] == p.sym && flagged(p, it) {
			continue
		}
		w := atoms(it.vals[p.loc])
		if len(w) != 3 || w[0] != p.sym || !isLine(w[1]) || w[2] != mkStr("\n") {
			return nil, "a line is added as " + it.vals[p.loc].String()
		}
		if m := keep(it.st, w[1]); m != "" {
			return nil, m
		}
		n++
	}
	if n == 0 {
		return nil, "no line is ever added"
	}
	return p, ""
}

// always: what f says is known of x here or, where x is carried around a loop,
// of everything that it is ever given.
func always(st *State, x *Term, f func(st *State, x *Term) bool) bool {
	if f(st, x) {
		return true
	}
	p, ok := phiReg[x]
	if !ok || !f(p.loop.entry, p.init) {
		return false
	}
	for _, it := range p.loop.iters {
		if v := it.vals[p.loc]; v != p.sym && !f(it.st, v) {
			return false
		}
	}
	return true
}

// flagOf finds the variable that says, in a loop that does something else
// first, whether the text has begun: it starts out false, the text only grows
// while it is true, and it stays true.
func flagOf(p *PhiInfo) *PhiInfo {
	for _, loc := range sortedKeys(p.loop.phis) {
		b := p.loop.phis[loc]
		if b == p || b.init != tFalse {
			continue
		}
		ok := true
		for _, it := range p.loop.iters {
			now, next := it.st, it.vals[loc]
			grows := it.vals[p.loc] != p.sym
			switch {
			case grows:
				ok = ok && yes(now, b.sym) && (next == tTrue || next == b.sym)
			default:
				ok = ok && no(now, b.sym)
			}
		}
		if ok {
			return b
		}
	}
	return nil
}

func flagged(p *PhiInfo, it *Iter) bool {
	b := flagOf(p)
	return b != nil && no(it.st, b.sym)
}

const sigBegin = "gpgsig -----BEGIN PGP SIGNATURE-----"
const sigEnd = " -----END PGP SIGNATURE-----"

func signature(l leaf) string {
	hasBegin, hasEnd := false, false
	for _, x := range factLines(l.env) {
		if s, ok := l.env.litOf(x); ok && s == sigBegin {
			hasBegin = true
		}
		if s, ok := l.env.litOf(x); ok && s == sigEnd {
			hasEnd = true
		}
	}
	if !hasBegin {
		return "the signature is not known to start with the line that the encoder writes"
	}
	if !hasEnd {
		return "the signature is not known to end with its end line"
	}
	p, why := lines(l.v, l.env, func(st *State, line *Term) string {
		if !always(st, line, func(st *State, x *Term) bool { return no(st, mkEq(x, mkStr(sigEnd))) }) {
			return "the signature may contain its end line"
		}
		return ""
	})
	if why != "" {
		return why
	}
	for _, i := range expand(p.init, p.loop.entry) {
		as := atoms(i.v)
		switch {
		case i.v == mkStr(" \n"):
			lit := false
			for _, x := range factLines(i.env) {
				if s, ok := i.env.litOf(x); ok && s == " " {
					lit = true
				}
			}
			if !lit {
				return "the signature gains a line"
			}
		case i.v == tEmpty:
		case len(as) == 2 && isLine(as[0]) && as[1] == mkStr("\n"):
		default:
			return "the signature starts with " + i.v.String()
		}
	}
	return ""
}

// personFrom: everything in the person comes from the line that starts with kw.
func (r *Report) personFrom(v *Term, env *State, kw string) string {
	s := structOf(v, "_PersonInfo")
	if s == nil {
		return "not a PersonInfo: " + v.String()
	}
	from := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		for x := range symsOf(t) {
			if seen[x] {
				continue
			}
			seen[x] = true
			if p, ok := phiReg[x]; ok && !isLine(x) {
				rec(p.init)
				for _, it := range p.loop.iters {
					rec(it.vals[p.loc])
				}
				continue
			}
			from[x] = true
		}
	}
	rec(s)
	if len(from) == 0 {
		return "the person holds nothing of the input"
	}
	for x := range from {
		if !isLine(x) {
			return "the person is made of " + x.String()
		}
		if !yes(env, mkAt(x, mkInt(0), kw)) {
			return "the line does not start with " + fmt.Sprintf("%q", kw)
		}
	}
	return ""
}

// foreignOp finds an operation that is not about cutting a line into words and
// putting words together.
func foreignOp(t *Term) string {
	bad := ""
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		walk(t, func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if p, ok := phiReg[x]; ok {
				rec(p.init)
				for _, it := range p.loop.iters {
					rec(it.vals[p.loc])
				}
			}
			if x.op == OApp {
				switch x.s {
				case "split", "idx", "sub", "join", "len", "index", "cutb", "cuta", "ptrto", "byte":
				default:
					bad = x.s
				}
			}
			return bad == ""
		})
	}
	rec(t)
	return bad
}

// persons checks how the persons of commits and tags are read.
func (r *Report) persons() {
	unknown := false
	one := func(where, field string, v *Term, env *State, kw string, off int) {
		n := 0
		for _, l := range expand(v, env) {
			if isZero(l.v) && l.it == nil {
				continue
			}
			p := l.v
			if p.op == OStruct && len(p.args) == 2 {
				p = p.args[1]
			}
			w := r.person(p, l.env, kw, off)
			if u, ok := strings.CutPrefix(w, "?"); ok {
				if op := foreignOp(p); op == "" {
					unknown = true
					r.undecided("person line", where, "%s: %s: %s", field, p, u)
				} else {
					r.require(false, "person line", where, "%s: %s: %s goes through %s", field, p, u, op)
				}
			} else {
				r.require(w == "", "person line", where, "%s: %s%s", field, p, wrong(w))
			}
			n++
		}
		r.require(n > 0, "persons are decoded", where, "%s is set on some path", field)
	}

	cr, tr := r.analyse("DecodeCommit", nil), r.analyse("DecodeTag", nil)
	cfs, tfs := r.P.fieldsOf("_Commit"), r.P.fieldsOf("_Tag")
	ok, _ := cr.split()
	for _, o := range ok {
		_, v, _ := assigned(o, cr.args[0])
		if v == nil {
			continue
		}
		s := structOf(v, "_Commit")
		if !r.require(s != nil && cfs != nil, "person line", r.pos(o.pos), "the node is a Commit") {
			continue
		}
		one(r.pos(o.pos), "author", s.args[cfs["author"]], o.st, "author ", 0)
		one(r.pos(o.pos), "committer", s.args[cfs["committer"]], o.st, "committer ", 0)
		els, _ := elements(s.args[cfs["mergetag"]], o.st)
		for _, e := range els {
			if m := structOf(e.v, "_Tag"); r.require(m != nil, "person line", r.pos(o.pos), "a merge tag is a Tag") {
				one(r.pos(o.pos), "mergetag.tagger", m.args[tfs["tagger"]], e.env, " tagger ", 1)
			}
		}
	}
	ok, _ = tr.split()
	for _, o := range ok {
		_, v, _ := assigned(o, tr.args[0])
		if v == nil {
			continue
		}
		if s := structOf(v, "_Tag"); r.require(s != nil && tfs != nil, "person line", r.pos(o.pos), "the node is a Tag") {
			one(r.pos(o.pos), "tagger", s.args[tfs["tagger"]], o.st, "tagger ", 0)
		}
	}
	r.personRejections(cr, unknown, "author ", "committer ", " tagger ")
	r.personRejections(tr, unknown, "tagger ")
}

// gitString checks how a person is written: name <email>[ date][ timezone].
func (r *Report) gitString() {
	run := r.analyse("PersonInfo.GitString", nil)
	if len(run.args) == 0 {
		return
	}
	seen := map[string]bool{}
	for _, o := range run.outs {
		w, k := r.personText(o.st.value(o.res[0]), o.st, run.args[0])
		seen[k] = true
		r.require(w == "", "person text", r.pos(o.pos), "%s%s", o.res[0], wrong(w))
	}
	for _, k := range []string{"date,timezone", "date", "timezone", ""} {
		r.require(seen[k], "person text", "GitString", "a person with %q is written", k)
	}
}

// personText: v is the text of person p; it also tells which optional parts it has.
func (r *Report) personText(v *Term, st *State, p *Term) (string, string) {
	fs := r.P.fieldsOf("_PersonInfo")
	field := func(n string) *Term {
		i := fs[n]
		t := r.P.pkg.Pkg.Scope().Lookup("_PersonInfo").Type().Underlying().(*types.Struct)
		f := mkField(p, i, t.Field(i).Type())
		return mkField(f, 0, types.Typ[types.String])
	}
	want := []*Term{field("name"), mkStr(" <"), field("email"), mkStr(">")}
	var parts []string
	for _, n := range []string{"date", "timezone"} {
		switch {
		case empty(st, field(n)) || yes(st, mkEq(field(n), tEmpty)):
		case nonEmpty(st, field(n)) || no(st, mkEq(field(n), tEmpty)):
			want = append(want, mkStr(" "), field(n))
			parts = append(parts, n)
		default:
			return "the text does not depend on whether there is a " + n, ""
		}
	}
	if v != mkCat(want...) {
		return "the person's text should be " + mkCat(want...).String(), strings.Join(parts, ",")
	}
	return "", strings.Join(parts, ",")
}

func (r *Report) tagFields(prefix, where string, s *Term, env *State, off int, object string) {
	fs := r.P.fieldsOf("_Tag")
	get := func(n string) *Term { return s.args[fs[n]] }
	sp := strings.Repeat(" ", off)
	r.each(prefix+"object", where, peel(get("object")), env, hashAfter(object))
	r.each(prefix+"type", where, peel(get("typ")), env, textAfter(sp+"type "))
	r.each(prefix+"tag", where, peel(get("tag")), env, textAfter(sp+"tag "))
	r.each(prefix+"tagger", where, get("tagger"), env, func(l leaf) string { return r.personFrom(l.v, l.env, sp+"tagger ") })
}

func (r *Report) mergeTag(l leaf) string {
	s := structOf(l.v, "_Tag")
	fs := r.P.fieldsOf("_Tag")
	if s == nil || fs == nil {
		return "not a tag"
	}
	where := "mergetag"
	r.tagFields("mergetag.", where, s, l.env, 1, "mergetag object ")
	p, why := lines(s.args[fs["message"]], l.env, func(st *State, line *Term) string {
		if !always(st, line, func(st *State, x *Term) bool { return yes(st, mkAt(x, mkInt(0), " ")) }) {
			return "the message may contain a line that is not indented"
		}
		return ""
	})
	if why != "" {
		return "the message: " + why
	}
	if p.init != tEmpty {
		return "the message starts with " + p.init.String()
	}
	isBlank := func(st *State) bool {
		for _, x := range factLines(st) {
			if t, ok := st.litOf(x); ok && t == " " {
				return true
			}
		}
		return false
	}
	blank := isBlank(p.loop.entry)
	if b := flagOf(p); !blank && b != nil {
		// the flag is raised at a blank line, and the text is taken when it is
		blank = yes(l.env, b.sym)
		for _, it := range p.loop.iters {
			if it.vals[b.loc] != b.sym && it.vals[b.loc] != tFalse && no(it.st, b.sym) {
				blank = blank && isBlank(it.st)
			}
		}
	}
	if !blank {
		return "the message does not start after a blank line"
	}
	// the line read next is the one that ends it
	var rds []*Term
	for _, loc := range sortedKeys(p.loop.phis) {
		if strings.HasPrefix(loc, "h:rd:") {
			rds = append(rds, p.loop.phis[loc].sym)
		}
	}
	next, env := readAfter(l.env, rds, 0)
	if c := carriedLine(p); c != nil {
		next, env = c, l.env
	}
	if next == nil {
		return "what follows the message is not read as a line"
	}
	if !no(env, mkAt(next, mkInt(0), " ")) && !no(l.env, mkAt(next, mkInt(0), " ")) {
		return "the message may end before its last indented line"
	}
	return ""
}

// carriedLine: the loop adds the line that the previous iteration (or the code
// before the loop) read last, so that the line it holds when it ends is the
// first one that was not added.
func carriedLine(p *PhiInfo) *Term {
	var c *PhiInfo
	for _, it := range p.loop.iters {
		w := atoms(it.vals[p.loc])
		if len(w) != 3 {
			return nil
		}
		q, ok := phiReg[w[1]]
		if !ok || q.loop != p.loop || c != nil && q != c {
			return nil
		}
		c = q
	}
	if c == nil {
		return nil
	}
	endsWith := func(rd, line *Term) bool {
		as := atoms(rd)
		n := len(as)
		return n >= 2 && as[n-1] == mkStr("\n") && as[n-2] == line
	}
	found := false
	for _, loc := range sortedKeys(p.loop.phis) {
		if !strings.HasPrefix(loc, "h:rd:") {
			continue
		}
		rd := p.loop.phis[loc]
		if !endsWith(rd.init, c.init) {
			return nil
		}
		for _, it := range p.loop.iters {
			as := atoms(it.vals[loc])
			if len(as) != 3 || as[0] != rd.sym || !endsWith(it.vals[loc], it.vals[c.loc]) {
				return nil
			}
		}
		found = true
	}
	if !found {
		return nil
	}
	return c.sym
}

// readAfter finds the line that was read right after one of the given prefixes
// of the input.
func readAfter(env *State, prefixes []*Term, depth int) (*Term, *State) {
	if depth > 6 {
		return nil, nil
	}
	for _, k := range sortedKeys(env.heap) {
		if !strings.HasPrefix(k, "rd:") {
			continue
		}
		as := atoms(env.heap[k])
		for i, a := range as {
			for _, p := range prefixes {
				if a == p && i+1 < len(as) && isLine(as[i+1]) {
					return as[i+1], env
				}
			}
			if q, ok := phiReg[a]; ok && i == 0 {
				if x, e := readAfter(q.loop.entry, prefixes, depth+1); x != nil {
					return x, e
				}
			}
		}
	}
	return nil, nil
}

var commitKeywords = []string{"tree ", "parent ", "author ", "committer ", "encoding ", "mergetag object ", "gpgsig "}
var tagKeywords = []string{"object ", "type ", "tag ", "tagger "}

func init() {
	checks["C04"] = func(r *Report) {
		r.expl = "Every value each field of a decoded commit can hold, over all paths and loop iterations of the decoder, is traced to the input: each field only receives the text after its own keyword on a line known to start with it, lists only grow at their end, lines with no keyword go to the catch-all verbatim, the message is everything after the first empty line; no line is dropped; and the decoder only fails for the listed reasons."
		r.assume = []string{trust, "a repeated single-valued header replaces the earlier one"}
		run := r.analyse("DecodeCommit", nil)
		r.sound(run, 1, true)
		fs := r.P.fieldsOf("_Commit")
		ok, _ := run.split()
		for _, o := range ok {
			where := r.pos(o.pos)
			k, v, why := assigned(o, run.args[0])
			if !r.require(why == "" && k == "node", "commit value", where, "the assembler is given one node: %s", why) {
				continue
			}
			s := structOf(v, "_Commit")
			if !r.require(s != nil && fs != nil, "commit value", where, "the node is a Commit: %s", v) {
				continue
			}
			get := func(n string) *Term { return s.args[fs[n]] }
			set := map[string]int{}
			r.require(isSet(o.st, get("tree")), "commit has a tree", where, "a commit without a tree is not accepted")
			set["tree"] = r.each("tree", where, peel(get("tree")), o.st, hashAfter("tree "))
			set["message"] = r.each("message", where, peel(get("message")), o.st, restAfterBlank)
			set["author"] = r.each("author", where, get("author"), o.st, maybe(func(l leaf) string { return r.personFrom(l.v, l.env, "author ") }))
			set["committer"] = r.each("committer", where, get("committer"), o.st, maybe(func(l leaf) string { return r.personFrom(l.v, l.env, "committer ") }))
			set["encoding"] = r.each("encoding", where, get("encoding"), o.st, maybe(textAfter("encoding ")))
			set["signature"] = r.each("signature", where, get("signature"), o.st, maybe(signature))
			list := func(n string, spec func(l leaf) string) {
				els, appended := elements(get(n), o.st)
				r.require(appended, "list "+n, where, "the list only grows at its end: %s", get(n))
				for _, e := range els {
					w := spec(e)
					r.require(w == "", "field "+n, where, "%s%s", e.v, wrong(w))
				}
				set[n] = len(els)
			}
			list("parents", hashAfter("parent "))
			list("mergetag", r.mergeTag)
			list("other", func(l leaf) string {
				x := peel(l.v)
				if !isLine(x) {
					return "not a whole line"
				}
				for _, kw := range commitKeywords {
					if !no(l.env, mkAt(x, mkInt(0), kw)) {
						return fmt.Sprintf("the line may start with %q", kw)
					}
				}
				if !nonEmpty(l.env, x) && !no(l.env, mkEq(mkLen(x), mkInt(0))) {
					return "the line may be empty"
				}
				return ""
			})
			for n := range fs {
				r.require(set[n] > 0, "every field is decoded", where, "%s is set on some path", n)
			}
		}
		r.linesKept(run)
		r.commitRejections(run)
		r.atLeast("every field is decoded", 9)
	}
	checks["C17"] = func(r *Report) {
		r.expl = "Every person a decoded commit or tag can hold is traced to its line: the words up to one that starts with '<' are the name, those up to one that ends with '>' the email, then the date and all that follows; a line is refused only when it has no such words. The text written for a person is its name, its email in angle brackets and, when present, date and timezone, each after a single space."
		r.assume = []string{trust}
		r.persons()
		r.gitString()
		r.atLeast("person line", 4)
		r.atLeast("person text", 4)
	}
	checks["C05"] = func(r *Report) {
		r.expl = "Every value each field of a decoded tag, and of a tag merged into a commit, can hold is traced to the input: each field only receives the text after its own keyword, the message everything after the blank line; unknown headers are refused, never dropped; and the decoders only fail for the listed reasons."
		r.assume = []string{trust, "a repeated single-valued header replaces the earlier one"}
		run := r.analyse("DecodeTag", nil)
		r.sound(run, 1, true)
		fs := r.P.fieldsOf("_Tag")
		ok, _ := run.split()
		for _, o := range ok {
			where := r.pos(o.pos)
			k, v, why := assigned(o, run.args[0])
			if !r.require(why == "" && k == "node", "tag value", where, "the assembler is given one node: %s", why) {
				continue
			}
			s := structOf(v, "_Tag")
			if !r.require(s != nil && fs != nil, "tag value", where, "the node is a Tag: %s", v) {
				continue
			}
			r.require(isSet(o.st, s.args[fs["object"]]), "tag has an object", where, "a tag without an object is not accepted")
			r.tagFields("tag.", where, s, o.st, 0, "object ")
			r.each("tag.message", where, peel(s.args[fs["message"]]), o.st, restAfterBlank)
		}
		r.linesKept(run)
		r.tagRejections(run)
		// tags merged into commits
		cr := r.analyse("DecodeCommit", nil)
		cfs := r.P.fieldsOf("_Commit")
		ok, _ = cr.split()
		n := 0
		for _, o := range ok {
			where := r.pos(o.pos)
			_, v, why := assigned(o, cr.args[0])
			if why != "" {
				continue
			}
			if s := structOf(v, "_Commit"); s != nil {
				els, appended := elements(s.args[cfs["mergetag"]], o.st)
				r.require(appended, "list mergetag", where, "the list only grows at its end")
				for _, e := range els {
					w := r.mergeTag(e)
					r.require(w == "", "field mergetag", where, "%s%s", e.v, wrong(w))
					n++
				}
			}
		}
		r.require(n > 0, "merge tags are decoded", "mergetag", "%d ways to add a merge tag", n)
		for _, f := range []string{"object", "type", "tag", "tagger", "message"} {
			r.atLeast("field tag."+f, 2)
		}
		for _, f := range []string{"type", "tag", "tagger"} {
			r.atLeast("field mergetag."+f, 2)
		}
	}
}

// samePlace: two loop variables stand for the same place in the result.
// isSet: a link field holds a link.
func isSet(st *State, v *Term) bool {
	for v.op == OStruct && len(v.args) == 1 {
		v = v.args[0]
	}
	if v.op == OIface {
		return true
	}
	return no(st, mkApp("isnil", v))
}

// stillUnset: the input has ended and the object being decoded has no link in
// its field f.
func (r *Report) stillUnset(st *State, typ string, f int) bool {
	ended := false
	for _, x := range sortedFails(st.fails) {
		ended = ended || cleanEOF(st, x)
	}
	if !ended {
		return false
	}
	for _, k := range sortedKeys(st.heap) {
		if !strings.HasPrefix(k, "o:") {
			continue
		}
		s := structOf(st.heap[k], typ)
		if s == nil {
			continue
		}
		if v := peel(s.args[f]); v.op == ONil || yes(st, mkApp("isnil", v)) {
			return true
		}
	}
	return false
}

func samePlace(a, b *Term) bool {
	if a == b {
		return true
	}
	p, ok1 := phiReg[a]
	q, ok2 := phiReg[b]
	return ok1 && ok2 && p.loc == q.loc && p.loop.fn == q.loop.fn
}

// commitRejections: the reasons for which the decoder may refuse its input.
func (r *Report) commitRejections(run *Run) {
	ok, _ := run.split()
	fs := r.P.fieldsOf("_Commit")
	r.rejections(run, 1, func(st *State) string {
		if w := badFrame(st); w != "" {
			return w
		}
		if w := badHash(st); w != "" {
			return w
		}
		if r.stillUnset(st, "_Commit", fs["tree"]) {
			return "the commit has no tree"
		}
		for _, o := range ok {
			if _, v, why := assigned(o, run.args[0]); why == "" {
				if s := structOf(v, "_Commit"); s != nil {
					for t := range st.facts {
						if t.op == OApp && t.s == "isnil" && st.facts[t] && samePlace(t.args[0], peel(s.args[fs["tree"]])) {
							return "the commit has no tree"
						}
					}
				}
			}
		}
		for _, kw := range []string{"author ", "committer ", " tagger "} {
			if inContext(st, kw) {
				return "a person line is malformed"
			}
		}
		if inContext(st, "gpgsig ") {
			for _, x := range factLines(st) {
				if yes(st, mkAt(x, mkInt(0), "gpgsig ")) && no(st, mkEq(x, mkStr(sigBegin))) {
					return "the signature is not one that can be encoded"
				}
				if no(st, mkEq(x, mkStr(" "))) && no(st, mkAt(x, mkInt(0), " Version: ")) && no(st, mkAt(x, mkInt(0), " Comment: ")) {
					return "the signature does not start with a blank, version or comment line"
				}
			}
		}
		if inContext(st, "mergetag object ") {
			for _, x := range factLines(st) {
				bad := no(st, mkEq(x, mkStr(" ")))
				for _, kw := range []string{" type ", " tag ", " tagger "} {
					bad = bad && no(st, mkAt(x, mkInt(0), kw))
				}
				if bad {
					return "the merge tag has an unknown header"
				}
			}
		}
		return ""
	})
}

// tagRejections: the reasons for which the decoder may refuse its input.
func (r *Report) tagRejections(run *Run) {
	ok, _ := run.split()
	fs := r.P.fieldsOf("_Tag")
	r.rejections(run, 1, func(st *State) string {
		if w := badFrame(st); w != "" {
			return w
		}
		if w := badHash(st); w != "" {
			return w
		}
		if r.stillUnset(st, "_Tag", fs["object"]) {
			return "the tag has no object"
		}
		for _, o := range ok {
			if _, v, why := assigned(o, run.args[0]); why == "" {
				if s := structOf(v, "_Tag"); s != nil {
					for t := range st.facts {
						if t.op == OApp && t.s == "isnil" && st.facts[t] && samePlace(t.args[0], peel(s.args[fs["object"]])) {
							return "the tag has no object"
						}
					}
				}
			}
		}
		if inContext(st, "tagger ") {
			return "a person line is malformed"
		}
		for _, x := range factLines(st) {
			bad := nonEmpty(st, x) || no(st, mkEq(mkLen(x), mkInt(0)))
			for _, kw := range tagKeywords {
				bad = bad && no(st, mkAt(x, mkInt(0), kw))
			}
			if bad {
				return "the tag has an unknown header"
			}
		}
		return ""
	})
}

// personRejections: a person line is refused only when it has no e-mail.
func (r *Report) personRejections(run *Run, unknown bool, kws ...string) {
	_, bad := run.split()
	n := 0
	for _, o := range bad {
		in := false
		for _, kw := range kws {
			in = in || inContext(o.st, kw)
		}
		excused := false
		for _, f := range sortedFails(o.st.fails) {
			if r.excuse(o.st, f, keyOf(run.args[1]), map[*Term]bool{}) != "" {
				excused = true
			}
			if cleanEOF(o.st, f) {
				excused = true // every line had been accepted
			}
		}
		if !in || excused {
			continue
		}
		w := badPerson(o.st, kws...)
		if w == "" {
			// a failure that has nothing to do with the words of a person line
			words := false
			for f := range o.st.facts {
				walk(f, func(x *Term) bool {
					if x.op == OApp && x.s == "split" {
						words = true
					}
					return true
				})
			}
			if !words && badFrame(o.st) != "" {
				continue
			}
		}
		n++
		if w == "" && unknown {
			r.undecided("only malformed persons are rejected", r.pos(o.pos), "%s fails here", run.name)
			continue
		}
		r.require(w != "", "only malformed persons are rejected", r.pos(o.pos), "%s fails here: %s%s", run.name, w, explain(o, w))
	}
	r.require(n > 0, "malformed persons are rejected", run.name, "%d paths", n)
}
