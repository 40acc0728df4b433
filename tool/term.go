package main

// Hash-consed abstract terms: every value the analysis tracks is a Term, so
// equality of provenance is pointer equality.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OStr    Op = iota // string or bytes constant (s)
	ONil              // nil of any type
	OBool             // i = 0/1
	OSym              // opaque value (s = name)
	OPtr              // pointer to object s, path in args
	OStruct           // struct value, s = type
	OArr              // array value
	OTuple            // multiple results
	OIface            // interface value: s = dynamic type, args[0] = value
	OFunc             // function value, s = name
	OClos             // closure, s = name, args = bindings
	OCat              // concatenation: of strings/bytes or of list segments (OElem)
	OElem             // one list element
	OSlice            // slice over an allocated array: ptr, lo, hi
	OApp              // uninterpreted function s
	OLin              // linear integer: i + sum coef*args
	OField            // field i of args[0]
)

type Term struct {
	op   Op
	s    string
	i    int64
	args []*Term
	co   []int64
	id   int
	typ  types.Type // informative: syms, ifaces, funcs, structs
	fn   any        // *ssa.Function for OFunc / OClos
	syms map[*Term]bool
}

var (
	intern  = map[string]*Term{}
	termTab []*Term
)

func mk(op Op, s string, i int64, args []*Term, co []int64, typ types.Type) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + op))
	b.WriteString(strconv.Itoa(len(s)))
	b.WriteByte(':')
	b.WriteString(s)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(i, 10))
	for k, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if co != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatInt(co[k], 10))
		}
	}
	key := b.String()
	if t, ok := intern[key]; ok {
		if t.typ == nil {
			t.typ = typ
		}
		return t
	}
	t := &Term{op: op, s: s, i: i, args: args, co: co, typ: typ, id: len(termTab) + 1}
	termTab = append(termTab, t)
	intern[key] = t
	return t
}

var (
	tNil   = mk(ONil, "", 0, nil, nil, nil)
	tTrue  = mk(OBool, "", 1, nil, nil, nil)
	tFalse = mk(OBool, "", 0, nil, nil, nil)
	tEmpty = mkStr("")
	tEList = mk(OCat, "list", 0, nil, nil, nil)
)

func mkStr(s string) *Term { return mk(OStr, s, 0, nil, nil, nil) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkSym(name string, typ types.Type) *Term { return mk(OSym, name, 0, nil, nil, typ) }
func mkApp(f string, args ...*Term) *Term     { return mk(OApp, f, 0, args, nil, nil) }
func mkTuple(args ...*Term) *Term             { return mk(OTuple, "", 0, args, nil, nil) }
func mkIface(dyn types.Type, v *Term) *Term {
	return mk(OIface, types.TypeString(dyn, nil), 0, []*Term{v}, nil, dyn)
}
func mkPtr(obj string, path ...*Term) *Term { return mk(OPtr, obj, 0, path, nil, nil) }
func mkElem(t *Term) *Term                  { return mk(OElem, "", 0, []*Term{t}, nil, nil) }
func mkInt(i int64) *Term                   { return mk(OLin, "", i, nil, nil, nil) }
func isConst(t *Term) bool {
	return t.op == OStr || t.op == ONil || t.op == OBool || (t.op == OLin && len(t.args) == 0) || t.op == OFunc
}
func isInt(t *Term) (int64, bool) {
	if t.op == OLin && len(t.args) == 0 {
		return t.i, true
	}
	return 0, false
}

// linear arithmetic

type lin struct {
	c int64
	m map[*Term]int64
}

func linOf(t *Term) lin {
	if t.op == OLin {
		m := make(map[*Term]int64, len(t.args))
		for k, a := range t.args {
			m[a] = t.co[k]
		}
		return lin{t.i, m}
	}
	return lin{0, map[*Term]int64{t: 1}}
}
func (l lin) term() *Term {
	var as []*Term
	for a, c := range l.m {
		if c != 0 {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	co := make([]int64, len(as))
	for i, a := range as {
		co[i] = l.m[a]
	}
	if len(as) == 1 && co[0] == 1 && l.c == 0 {
		return as[0]
	}
	return mk(OLin, "", l.c, as, co, nil)
}
func mkAdd(a, b *Term) *Term { return mkLin2(a, b, 1) }
func mkSub(a, b *Term) *Term { return mkLin2(a, b, -1) }
func mkLin2(a, b *Term, s int64) *Term {
	x, y := linOf(a), linOf(b)
	x.c += s * y.c
	for k, c := range y.m {
		x.m[k] += s * c
		if x.m[k] == 0 {
			delete(x.m, k)
		}
	}
	return x.term()
}
func mkScale(a *Term, k int64) *Term {
	x := linOf(a)
	x.c *= k
	for t := range x.m {
		x.m[t] *= k
	}
	return x.term()
}

// concatenation. kind "" for strings/bytes, "list" for lists.

func mkCat(parts ...*Term) *Term {
	var as []*Term
	list := false
	var add func(p *Term)
	add = func(p *Term) {
		switch {
		case p.op == OCat:
			if p.s == "list" {
				list = true
			}
			for _, a := range p.args {
				add(a)
			}
		case p.op == OStr && p.s == "":
		case p.op == ONil:
		case p.op == OStr && len(as) > 0 && as[len(as)-1].op == OStr:
			as[len(as)-1] = mkStr(as[len(as)-1].s + p.s)
		default:
			if p.op == OElem {
				list = true
			}
			// sub(x,a,b) ++ sub(x,b,c) = sub(x,a,c)
			if len(as) > 0 {
				l := as[len(as)-1]
				lx, _, lb := subParts(l)
				px, pa, _ := subParts(p)
				if lx != nil && lx == px && lb == pa {
					_, la, _ := subParts(l)
					_, _, pb := subParts(p)
					as[len(as)-1] = mkSlice(lx, la, pb)
					return
				}
			}
			as = append(as, p)
		}
	}
	for _, p := range parts {
		add(p)
	}
	if len(as) == 0 {
		if list {
			return tEList
		}
		return tEmpty
	}
	if len(as) == 1 && as[0].op != OElem {
		return as[0]
	}
	s := ""
	if list {
		s = "list"
	}
	return mk(OCat, s, 0, as, nil, nil)
}

func atoms(t *Term) []*Term {
	if t.op == OCat {
		return t.args
	}
	if t == tEmpty || t == tNil {
		return nil
	}
	return []*Term{t}
}

func subParts(t *Term) (x, lo, hi *Term) {
	if t.op == OApp && t.s == "sub" {
		return t.args[0], t.args[1], t.args[2]
	}
	return nil, nil, nil
}

// symbols with a fixed length
var fixedLen = map[*Term]int64{}

func mkLen(x *Term) *Term {
	switch x.op {
	case OStr:
		return mkInt(int64(len(x.s)))
	case ONil:
		return mkInt(0)
	case OElem:
		return mkInt(1)
	case OCat:
		r := mkInt(0)
		for _, a := range x.args {
			r = mkAdd(r, mkLen(a))
		}
		return r
	case OArr:
		return mkInt(int64(len(x.args)))
	case OSlice:
		return mkSub(x.args[2], x.args[1])
	case OApp:
		switch x.s {
		case "sub":
			return mkSub(x.args[2], x.args[1])
		case "hexenc":
			return mkScale(mkLen(x.args[0]), 2)
		case "chr", "byte":
			return mkInt(1)
		case "zeros":
			return x.args[0]
		}
	}
	if n, ok := fixedLen[x]; ok {
		return mkInt(n)
	}
	return mkApp("len", x)
}

// decodedLen: n is the number of bytes that x, decoded from hexadecimal, has.
func decodedLen(x, n *Term) bool {
	return x.op == OApp && x.s == "hexdec" && halfOf(n, mkLen(x.args[0]))
}

func halfOf(n, l *Term) bool {
	return n.op == OApp && n.s == "div" && n.args[0] == l && n.args[1] == mkInt(2)
}

// mkSlice is x[lo:hi] as a value.
func mkSlice(x, lo, hi *Term) *Term {
	if sx, sl, _ := subParts(x); sx != nil {
		return mkSlice(sx, mkAdd(sl, lo), mkAdd(sl, hi))
	}
	l := mkLen(x)
	z := mkInt(0)
	if lo == z && (hi == l || decodedLen(x, hi)) {
		return x
	}
	if lo == hi {
		if x.op == OCat && x.s == "list" {
			return tEList
		}
		return tEmpty
	}
	if x.op == OStr {
		a, ok1 := isInt(lo)
		b, ok2 := isInt(hi)
		if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(x.s)) {
			return mkStr(x.s[a:b])
		}
	}
	if x.op == OCat {
		as := x.args
		// strip whole atoms at the front
		pos := z
		i := 0
		for i < len(as) {
			nx := mkAdd(pos, mkLen(as[i]))
			d, ok := isInt(mkSub(lo, nx))
			if !ok || d < 0 {
				break
			}
			pos = nx
			i++
		}
		epos := l
		j := len(as)
		for j > i {
			pv := mkSub(epos, mkLen(as[j-1]))
			d, ok := isInt(mkSub(pv, hi))
			if !ok || d < 0 {
				break
			}
			epos = pv
			j--
		}
		if i > 0 || j < len(as) {
			sub := mkCat(append([]*Term{}, as[i:j]...)...)
			if len(as[i:j]) == 1 && as[i].op == OElem {
				sub = mk(OCat, "list", 0, as[i:j], nil, nil)
			}
			return mkSlice(sub, mkSub(lo, pos), mkSub(hi, pos))
		}
		// split inside a first/last literal atom
		if a, ok := isInt(lo); ok && a > 0 && as[0].op == OStr && int(a) < len(as[0].s) {
			rest := mkCat(append([]*Term{mkStr(as[0].s[a:])}, as[1:]...)...)
			return mkSlice(rest, z, mkSub(hi, lo))
		}
		if k, ok := isInt(mkSub(l, hi)); ok && k > 0 {
			la := as[len(as)-1]
			if la.op == OStr && int(k) < len(la.s) {
				head := mkCat(append(append([]*Term{}, as[:len(as)-1]...), mkStr(la.s[:len(la.s)-int(k)]))...)
				return mkSlice(head, lo, hi)
			}
		}
	}
	return mkApp("sub", x, lo, hi)
}

// structs

func mkStruct(typ types.Type, fs []*Term) *Term {
	// eta: {x.0, x.1, ...} = x
	if len(fs) > 0 && fs[0].op == OField && fs[0].i == 0 {
		b := fs[0].args[0]
		all := true
		for i, f := range fs {
			if f.op != OField || f.i != int64(i) || f.args[0] != b {
				all = false
				break
			}
		}
		if all && b.typ != nil && types.Identical(b.typ.Underlying(), typ.Underlying()) {
			return b
		}
	}
	return mk(OStruct, types.TypeString(typ, nil), 0, fs, nil, typ)
}

func mkField(x *Term, i int, ft types.Type) *Term {
	if x.op == OStruct {
		return x.args[i]
	}
	return mk(OField, "", int64(i), []*Term{x}, nil, ft)
}

// bools

func mkNot(t *Term) *Term {
	if t.op == OBool {
		return mkBool(t.i == 0)
	}
	if t.op == OApp && t.s == "not" {
		return t.args[0]
	}
	return mkApp("not", t)
}

// substitution

func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = subst(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OLin:
		r := mkInt(t.i)
		for i, a := range as {
			r = mkAdd(r, mkScale(a, t.co[i]))
		}
		return r
	case OCat:
		r := mkCat(as...)
		if t.s == "list" && r == tEmpty {
			return tEList
		}
		return r
	case OField:
		return mkField(as[0], int(t.i), t.typ)
	case OStruct:
		if t.typ != nil {
			return mkStruct(t.typ, as)
		}
	case OApp:
		switch t.s {
		case "sub":
			return mkSlice(as[0], as[1], as[2])
		case "len":
			return mkLen(as[0])
		case "not":
			return mkNot(as[0])
		case "eq":
			return mkEq(as[0], as[1])
		case "le0":
			return mkLe0(as[0])
		case "at":
			return mkAt(as[0], as[1], as[2].s)
		}
	}
	n := mk(t.op, t.s, t.i, as, t.co, t.typ)
	n.fn = t.fn
	return n
}

// mentions reports whether sub occurs in t.
func mentions(t, sub *Term) bool {
	if t == sub {
		return true
	}
	return symsOf(t)[sub] || (sub.op != OSym && mentionsSlow(t, sub, map[*Term]bool{}))
}
func mentionsSlow(t, sub *Term, seen map[*Term]bool) bool {
	if t == sub {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if mentionsSlow(a, sub, seen) {
			return true
		}
	}
	return false
}

var noSyms = map[*Term]bool{}

func symsOf(t *Term) map[*Term]bool {
	if t.syms != nil {
		return t.syms
	}
	if t.op == OSym {
		t.syms = map[*Term]bool{t: true}
		return t.syms
	}
	if len(t.args) == 0 {
		t.syms = noSyms
		return noSyms
	}
	if len(t.args) == 1 {
		t.syms = symsOf(t.args[0])
		return t.syms
	}
	r := map[*Term]bool{}
	for _, a := range t.args {
		for s := range symsOf(a) {
			r[s] = true
		}
	}
	t.syms = r
	return r
}

func walk(t *Term, f func(*Term) bool) { walk1(t, f, map[*Term]bool{}) }
func walk1(t *Term, f func(*Term) bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if !f(t) {
		return
	}
	for _, a := range t.args {
		walk1(a, f, seen)
	}
}

// printing

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, 0)
	return b.String()
}
func shortType(s string) string {
	if i := strings.LastIndexAny(s, "./"); i >= 0 {
		p := ""
		if strings.HasPrefix(s, "*") {
			p = "*"
		}
		return p + s[i+1:]
	}
	return s
}
func (t *Term) write(b *strings.Builder, d int) {
	if d > 14 {
		b.WriteString("…")
		return
	}
	list := func(sep string) {
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(sep)
			}
			a.write(b, d+1)
		}
	}
	switch t.op {
	case OStr:
		b.WriteString(strconv.Quote(t.s))
	case ONil:
		b.WriteString("nil")
	case OBool:
		fmt.Fprintf(b, "%v", t.i == 1)
	case OSym:
		b.WriteString("$" + t.s)
	case OPtr:
		b.WriteString("&" + t.s)
		for _, a := range t.args {
			b.WriteByte('.')
			a.write(b, d+1)
		}
	case OStruct:
		b.WriteString(shortType(t.s) + "{")
		list(", ")
		b.WriteString("}")
	case OArr:
		b.WriteString("[")
		list(", ")
		b.WriteString("]")
	case OTuple:
		b.WriteString("(")
		list(", ")
		b.WriteString(")")
	case OIface:
		b.WriteString("<" + shortType(t.s) + ">")
		t.args[0].write(b, d+1)
	case OFunc:
		b.WriteString("func:" + t.s)
	case OClos:
		b.WriteString("closure:" + t.s)
	case OCat:
		b.WriteString("⟨")
		list(" · ")
		b.WriteString("⟩")
	case OElem:
		b.WriteString("elem ")
		t.args[0].write(b, d+1)
	case OSlice:
		list("|")
	case OApp:
		b.WriteString(t.s + "(")
		list(", ")
		b.WriteString(")")
	case OLin:
		first := true
		if t.i != 0 || len(t.args) == 0 {
			fmt.Fprintf(b, "%d", t.i)
			first = false
		}
		for k, a := range t.args {
			c := t.co[k]
			if !first && c >= 0 {
				b.WriteByte('+')
			}
			if c == -1 {
				b.WriteByte('-')
			} else if c != 1 {
				fmt.Fprintf(b, "%d*", c)
			}
			a.write(b, d+1)
			first = false
		}
	case OField:
		t.args[0].write(b, d+1)
		fmt.Fprintf(b, ".%s", fieldName(t))
	}
}
func fieldName(t *Term) string {
	if x := t.args[0].typ; x != nil {
		if st, ok := x.Underlying().(*types.Struct); ok && int(t.i) < st.NumFields() {
			return st.Field(int(t.i)).Name()
		}
	}
	return strconv.Itoa(int(t.i))
}
