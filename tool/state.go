package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Regs holds the SSA values of one activation.
type Regs struct {
	owner  *State
	fn     *ssa.Function
	m      map[ssa.Value]*Term
	defers []*deferred
}

type deferred struct {
	call *ssa.Defer
	fn   *Term
	args []*Term
}

// Fail is an error result that has been produced and not yet returned.
type Fail struct {
	site    string
	callee  string
	err     *Term
	partial *Term // data that came with the error
	kind    string
	arg     string
	of      *Term // what would have resulted
	args    []*Term
}

// State is one abstract state: a set of concrete states described by value
// provenance (regs, heap), conditions (facts), integer differences (zone),
// undelivered errors (fails) and unaccounted input (toks).
type State struct {
	frames []*Regs
	heap   map[string]*Term
	facts  map[*Term]bool
	zone   *Zone
	fails  map[*Term]*Fail
	toks   map[*Term]string
	copies []*Term // what has been copied since the innermost loop's iteration began
}

// copied records that the whole of t is copied here.
func (st *State) copied(t *Term) {
	if t == nil || len(st.copies) >= 200 {
		return
	}
	t = st.value(t)
	if t.op == OStr || t.op == ONil || t == tEList {
		return
	}
	for _, c := range st.copies {
		if c == t {
			return
		}
	}
	st.copies = append(st.copies[:len(st.copies):len(st.copies)], t)
}

func newState() *State {
	return &State{heap: map[string]*Term{}, facts: map[*Term]bool{}, zone: newZone(), fails: map[*Term]*Fail{}, toks: map[*Term]string{}}
}

func (st *State) clone() *State {
	n := &State{
		frames: append([]*Regs{}, st.frames...),
		heap:   make(map[string]*Term, len(st.heap)+4),
		facts:  make(map[*Term]bool, len(st.facts)+4),
		zone:   st.zone.clone(),
		fails:  make(map[*Term]*Fail, len(st.fails)+1),
		toks:   make(map[*Term]string, len(st.toks)+1),
		copies: st.copies,
	}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.facts {
		n.facts[k] = v
	}
	for k, v := range st.fails {
		n.fails[k] = v
	}
	for k, v := range st.toks {
		n.toks[k] = v
	}
	// frames stay shared until written
	for _, f := range st.frames {
		f.owner = nil
	}
	return n
}

func (st *State) top() *Regs { return st.frames[len(st.frames)-1] }
func (st *State) wtop() *Regs {
	i := len(st.frames) - 1
	f := st.frames[i]
	if f.owner != st {
		n := &Regs{owner: st, fn: f.fn, m: make(map[ssa.Value]*Term, len(f.m)+8), defers: append([]*deferred{}, f.defers...)}
		for k, v := range f.m {
			n.m[k] = v
		}
		st.frames[i] = n
		f = n
	}
	return f
}
func (st *State) set(v ssa.Value, t *Term) { st.wtop().m[v] = t }

// rename substitutes terms everywhere in the state.
func (st *State) rename(m map[*Term]*Term) {
	memo := map[*Term]*Term{}
	for i, f := range st.frames {
		n := &Regs{owner: st, fn: f.fn, m: make(map[ssa.Value]*Term, len(f.m)), defers: f.defers}
		ch := false
		for k, v := range f.m {
			r := subst(v, m, memo)
			if r != v {
				ch = true
			}
			n.m[k] = r
		}
		if ch {
			st.frames[i] = n
		}
	}
	for k, v := range st.heap {
		st.heap[k] = subst(v, m, memo)
	}
	nf := make(map[*Term]bool, len(st.facts))
	for k, v := range st.facts {
		r := subst(k, m, memo)
		if r.op == OApp && r.s == "not" {
			nf[r.args[0]] = !v
		} else if r.op != OBool {
			nf[r] = v
		}
	}
	st.facts = nf
	st.zone = renameZone(st.zone, m, memo)
	nfl := make(map[*Term]*Fail, len(st.fails))
	for k, v := range st.fails {
		r := subst(k, m, memo)
		c := *v
		c.err = r
		if c.partial != nil {
			c.partial = subst(c.partial, m, memo)
		}
		if c.of != nil {
			c.of = subst(c.of, m, memo)
		}
		nfl[r] = &c
	}
	st.fails = nfl
	nt := make(map[*Term]string, len(st.toks))
	for k, v := range st.toks {
		nt[subst(k, m, memo)] = v
	}
	st.toks = nt
	if len(st.copies) > 0 {
		nc := make([]*Term, len(st.copies))
		for i, t := range st.copies {
			nc[i] = subst(t, m, memo)
		}
		st.copies = nc
	}
}

func renameZone(z *Zone, m map[*Term]*Term, memo map[*Term]*Term) *Zone {
	n := newZone()
	for k, c := range z.e {
		var x, y *Term = mkInt(0), mkInt(0)
		if k[0] != 0 {
			x = subst(termTab[k[0]-1], m, memo)
		}
		if k[1] != 0 {
			y = subst(termTab[k[1]-1], m, memo)
		}
		n.addLe(mkSub(mkSub(x, y), mkInt(c)))
	}
	return n
}

// allSyms collects the symbols occurring anywhere in the state.
func (st *State) allSyms() map[*Term]bool {
	r := map[*Term]bool{}
	add := func(t *Term) {
		for s := range symsOf(t) {
			r[s] = true
		}
	}
	for _, f := range st.frames {
		for _, v := range f.m {
			add(v)
		}
	}
	for _, v := range st.heap {
		add(v)
	}
	for f := range st.facts {
		add(f)
	}
	for k := range st.zone.e {
		for _, i := range k {
			if i != 0 {
				add(termTab[i-1])
			}
		}
	}
	for f := range st.fails {
		add(f)
	}
	return r
}

// heap

var (
	derefBase = map[string]*Term{}      // object key -> symbolic pointer
	objType   = map[string]types.Type{} // object key -> type of the object
)

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// asPtr turns any pointer-valued term into object key + path.
func asPtr(p *Term, elem types.Type) (string, []*Term) {
	if p.op == OPtr {
		return p.s, p.args
	}
	k := fmt.Sprintf("*%d", p.id)
	derefBase[k] = p
	if objType[k] == nil {
		objType[k] = elem
	}
	return k, nil
}

func (st *State) content(key string) *Term {
	if c, ok := st.heap[key]; ok {
		return c
	}
	if b, ok := derefBase[key]; ok {
		if strings.HasPrefix(key, "v:") {
			return b
		}
		if b.op == OApp && b.s == "ptrto" {
			return b.args[0]
		}
		return mk(OApp, "deref", 0, []*Term{b}, nil, objType[key])
	}
	if strings.HasPrefix(key, "g:") {
		return mk(OApp, "global", 0, []*Term{mkStr(key[2:])}, nil, objType[key])
	}
	return mk(OApp, "uninit", 0, []*Term{mkStr(key)}, nil, objType[key])
}

func isByteType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func mkIdx(x, i *Term, et types.Type) *Term {
	if y, lo, _ := subParts(x); y != nil {
		return mkIdx(y, mkAdd(lo, i), et)
	}
	c, isC := isInt(i)
	if x.op == OArr && isC && c >= 0 && int(c) < len(x.args) {
		return x.args[c]
	}
	if isByteType(et) {
		if x.op == OStr && isC && c >= 0 && int(c) < len(x.s) {
			return mkInt(int64(x.s[c]))
		}
		if x.op == OCat && isC {
			as := x.args
			o := c
			for len(as) > 0 {
				n, k := isInt(mkLen(as[0]))
				if !k || o < n {
					break
				}
				o -= n
				as = as[1:]
			}
			if len(as) > 0 && as[0].op == OStr {
				return mkInt(int64(as[0].s[o]))
			}
			if len(as) > 0 && as[0].op == OApp && as[0].s == "chr" {
				return as[0].args[0]
			}
			if len(as) > 0 && len(as) < len(x.args) {
				return mkIdx(mkCat(as...), mkInt(o), et)
			}
		}
		if x.op == OCat {
			la := x.args[len(x.args)-1]
			if la.op == OStr {
				if d, k := isInt(mkSub(mkLen(x), i)); k && d > 0 && int(d) <= len(la.s) {
					return mkInt(int64(la.s[len(la.s)-int(d)]))
				}
			}
		}
		if x.op == OApp && x.s == "chr" && isC && c == 0 {
			return x.args[0]
		}
		return mk(OApp, "byte", 0, []*Term{x, i}, nil, et)
	}
	if x.op == OCat && isC {
		as := x.args
		o := c
		for len(as) > 0 && as[0].op == OElem && o > 0 {
			o--
			as = as[1:]
		}
		if len(as) > 0 && as[0].op == OElem && o == 0 {
			return as[0].args[0]
		}
	}
	return mk(OApp, "idx", 0, []*Term{x, i}, nil, et)
}

func proj(c *Term, path []*Term, typ types.Type) *Term {
	for _, p := range path {
		if p.op == OApp && p.s == "ix" {
			et := elemType(typ)
			c = mkIdx(c, p.args[0], et)
			typ = et
			continue
		}
		var ft types.Type
		if typ != nil {
			if s, ok := typ.Underlying().(*types.Struct); ok && int(p.i) < s.NumFields() {
				ft = s.Field(int(p.i)).Type()
			}
		}
		c = mkField(c, int(p.i), ft)
		typ = ft
	}
	return c
}

func update(c *Term, path []*Term, typ types.Type, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.op == OApp && p.s == "ix" {
		et := elemType(typ)
		i, ok := isInt(p.args[0])
		if c.op == OArr && ok && i >= 0 && int(i) < len(c.args) {
			as := append([]*Term{}, c.args...)
			as[i] = update(as[i], path[1:], et, v)
			return mk(OArr, "", 0, as, nil, c.typ)
		}
		return mkApp("upd", c, p.args[0], update(mkIdx(c, p.args[0], et), path[1:], et, v))
	}
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return mkApp("upd", c, p, v)
	}
	fs := make([]*Term, st.NumFields())
	for i := range fs {
		fs[i] = mkField(c, i, st.Field(i).Type())
	}
	fs[p.i] = update(fs[p.i], path[1:], st.Field(int(p.i)).Type(), v)
	return mkStruct(typ, fs)
}

func (st *State) load(p *Term, elem types.Type) *Term {
	k, path := asPtr(p, elem)
	return proj(st.content(k), path, objType[k])
}
func (st *State) store(p, v *Term, elem types.Type) {
	k, path := asPtr(p, elem)
	st.heap[k] = update(st.content(k), path, objType[k], v)
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return tNil
		}
		return mkApp("zero", mkStr(t.String()))
	case *types.Struct:
		if opaqueStruct(t) {
			return mk(OApp, "zero", 0, []*Term{mkStr(t.String())}, nil, t)
		}
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zeroOf(u.Field(i).Type())
		}
		return mkStruct(t, fs)
	case *types.Array:
		if u.Len() > 64 {
			return mkApp("zeros", mkInt(u.Len()))
		}
		as := make([]*Term, u.Len())
		for i := range as {
			as[i] = zeroOf(u.Elem())
		}
		if len(as) == 0 {
			// no memory: only what it holds matters
			if isByteType(elemType(t)) {
				return tEmpty
			}
			return tEList
		}
		return mk(OArr, "", 0, as, nil, t)
	}
	return tNil
}

// structs of other packages that are handled as a whole
func opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "bytes", "strings", "bufio", "sync":
		return true
	}
	return false
}

// value resolves slices over local arrays to their contents.
func (st *State) value(t *Term) *Term {
	if t.op == OSlice {
		c := st.load(t.args[0], nil)
		return sliceContent(c, t.args[1], t.args[2])
	}
	return t
}

func sliceContent(c, lo, hi *Term) *Term {
	if c.op == OArr {
		a, ok1 := isInt(lo)
		b, ok2 := isInt(hi)
		if ok1 && ok2 && a >= 0 && a <= b && int(b) <= len(c.args) {
			if c.typ != nil && isByteType(elemType(c.typ)) {
				var ps []*Term
				for _, e := range c.args[a:b] {
					if v, ok := isInt(e); ok {
						ps = append(ps, mkStr(string([]byte{byte(v)})))
					} else {
						ps = append(ps, mkApp("chr", e))
					}
				}
				return mkCat(ps...)
			}
			var ps []*Term
			for _, e := range c.args[a:b] {
				ps = append(ps, mkElem(e))
			}
			if len(ps) == 0 {
				return tEList
			}
			return mkCat(ps...)
		}
		return mkApp("sub", c, lo, hi)
	}
	return mkSlice(c, lo, hi)
}

// deep snapshots a value: pointers to local objects are replaced by what they
// point to, unless keep holds for the object.
func (st *State) deep(t *Term, keep func(string) bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if d > 40 {
			return t
		}
		var r *Term
		switch {
		case t.op == OPtr && !keep(t.s):
			if b, ok := st.heap["buf:"+t.s]; ok && len(t.args) == 0 {
				r = mkApp("bufptr", rec(b, d+1))
				break
			}
			c := proj(st.content(t.s), t.args, objType[t.s])
			r = mkApp("ptrto", rec(c, d+1))
		case t.op == OSlice && !keep(t.args[0].s):
			r = rec(st.value(t), d+1)
		case len(t.args) == 0:
			r = t
		default:
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = rec(a, d+1)
				ch = ch || as[i] != a
			}
			r = t
			if ch {
				r = rebuild(t, as)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t, 0)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func sortedTerms[V any](m map[*Term]V) []*Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

func (st *State) dump() string {
	var b strings.Builder
	for _, k := range sortedKeys(st.heap) {
		if strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "o:init:") {
			continue
		}
		fmt.Fprintf(&b, "  heap %s = %s\n", k, st.heap[k])
	}
	for _, f := range sortedTerms(st.facts) {
		fmt.Fprintf(&b, "  fact %v %s\n", st.facts[f], f)
	}
	for k, c := range st.zone.e {
		n := func(i int) string {
			if i == 0 {
				return "0"
			}
			return termTab[i-1].String()
		}
		fmt.Fprintf(&b, "  zone %s - %s <= %d\n", n(k[0]), n(k[1]), c)
	}
	for _, f := range sortedTerms(st.fails) {
		fmt.Fprintf(&b, "  fail %s at %s partial %v\n", f, st.fails[f].site, st.fails[f].partial)
	}
	for _, f := range sortedTerms(st.toks) {
		fmt.Fprintf(&b, "  tok %s %s\n", f, st.toks[f])
	}
	return b.String()
}
