package main

// Abstract interpretation of SSA functions. Calls into the package are analysed
// in their calling context; loops are solved to a fixpoint; branches are decided
// from the facts of the state or split.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	kind string // obligation or observation
	pos  token.Pos
	fn   *ssa.Function
	ctx  string
	ok   bool
	msg  string
	loop *LoopInfo
	st   *State
	val  *Term
}

type PhiInfo struct {
	loop *LoopInfo
	loc  string
	init *Term
	sym  *Term
}

type Iter struct {
	vals  map[string]*Term // loc -> value at the end of the iteration
	facts map[*Term]bool
	zone  *Zone
	prog  []string // why this iteration makes progress
	pos   token.Pos
	quad  []string
	toks  map[*Term]string
	fails map[*Term]*Fail
	st    *State // what holds at the end of the iteration
}

type LoopInfo struct {
	id    string
	fn    *ssa.Function
	pos   token.Pos
	ctx   string
	phis  map[string]*PhiInfo // by loc
	iters []*Iter
	entry *State // what holds before the loop
}

var phiReg = map[*Term]*PhiInfo{}

type Outcome struct {
	st  *State
	res []*Term
	pos token.Pos
}

type Interp struct {
	prog      *ssa.Program
	pkg       *ssa.Package
	fset      *token.FileSet
	gen       map[*ssa.Function]bool // functions of generated files
	events    []*Event
	stack     []*ssa.Function
	loops     map[*ssa.Function]*loopNest
	ctxN      map[string]int
	states    int
	budget    int
	over      bool
	inlineGen func(fn *ssa.Function) bool // generated functions to analyse rather than model
	calls     map[string]int              // modelled external calls -> count
	debug     bool
	nosplit   int
	summaries map[string]func(*callCtx) []callOut // exported functions taken by contract
	visited   map[*ssa.Function]bool
}

func (in *Interp) event(e *Event) { in.events = append(in.events, e) }

func (in *Interp) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := in.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Ctx identifies the chain of call sites.
type Ctx struct {
	s     string
	depth int
}

func (in *Interp) sub(c Ctx, site string) Ctx {
	full := c.s + ">" + site
	n, ok := in.ctxN[full]
	if !ok {
		n = len(in.ctxN) + 1
		in.ctxN[full] = n
	}
	return Ctx{"c" + strconv.Itoa(n), c.depth + 1}
}

func instrPos(i ssa.Instruction) token.Pos {
	if p := i.Pos(); p.IsValid() {
		return p
	}
	switch v := i.(type) {
	case *ssa.If:
		return v.Cond.Pos()
	case *ssa.Store:
		return v.Addr.Pos()
	}
	return i.Parent().Pos()
}

// Frame executes one activation.
type Frame struct {
	in   *Interp
	fn   *ssa.Function
	ctx  Ctx
	nest *loopNest
}

func (fr *Frame) site(i ssa.Instruction) string {
	b := i.Block()
	for k, x := range b.Instrs {
		if x == i {
			return fmt.Sprintf("%s.%d.%d", fr.fn.Name(), b.Index, k)
		}
	}
	return fr.fn.Name() + ".?"
}

func (fr *Frame) fresh(i ssa.Instruction, what string, typ types.Type) *Term {
	return mkSym(what+"@"+fr.ctx.s+":"+fr.site(i), typ)
}

// call analyses fn from st and returns every way it can return.
func (in *Interp) call(st *State, fn *ssa.Function, args, binds []*Term, ctx Ctx) []Outcome {
	for _, f := range in.stack {
		if f == fn {
			in.event(&Event{kind: "recursion", pos: fn.Pos(), fn: fn, ctx: ctx.s, msg: fn.String()})
			return nil
		}
	}
	if len(in.stack) > 40 {
		in.event(&Event{kind: "unsupported", pos: fn.Pos(), fn: fn, msg: "call depth"})
		return nil
	}
	if len(fn.Blocks) == 0 {
		in.event(&Event{kind: "unsupported", pos: fn.Pos(), fn: fn, msg: "no body: " + fn.String()})
		return nil
	}
	in.stack = append(in.stack, fn)
	in.visited[fn] = true
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	fr := &Frame{in: in, fn: fn, ctx: ctx, nest: in.nestOf(fn)}
	if fr.nest.irreducible {
		in.event(&Event{kind: "unsupported", pos: fn.Pos(), fn: fn, msg: "irreducible control flow in " + fn.String()})
		return nil
	}
	r := &Regs{owner: st, fn: fn, m: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		if i < len(args) {
			r.m[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			r.m[f] = binds[i]
		}
	}
	st.frames = append(st.frames, r)
	res := fr.region(nil, item{b: fn.Blocks[0], st: st})
	for i := range res.rets {
		s := res.rets[i].st
		s.frames = s.frames[:len(s.frames)-1]
	}
	return res.rets
}

type item struct {
	b, prev *ssa.BasicBlock
	st      *State
}
type regionResult struct {
	back  []item
	exits []item
	rets  []Outcome
}

// region runs the blocks of a loop body (or the whole function) from start.
func (fr *Frame) region(L *loop, start item) regionResult {
	var res regionResult
	work := []item{start}
	first := true
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		fr.in.states++
		if fr.in.states > fr.in.budget {
			if !fr.in.over {
				fr.in.over = true
				fr.in.event(&Event{kind: "unsupported", pos: fr.fn.Pos(), fn: fr.fn, msg: "analysis budget exceeded"})
			}
			return res
		}
		if !first || L == nil {
			if L != nil && it.b == L.header {
				res.back = append(res.back, it)
				continue
			}
			if L != nil && !L.blocks[it.b] {
				res.exits = append(res.exits, it)
				continue
			}
			if inner := fr.nest.byHeader[it.b]; inner != nil && inner != L {
				r := fr.loop(inner, it)
				res.rets = append(res.rets, r.rets...)
				work = append(work, r.exits...)
				continue
			}
			fr.phis(it)
		}
		first = false
		fr.block(it.b, 0, it.st, func(n item) { work = append(work, n) }, func(o Outcome) { res.rets = append(res.rets, o) })
	}
	return res
}

func (fr *Frame) phis(it item) {
	var vals []*Term
	var vs []ssa.Value
	for _, ins := range it.b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for k, p := range it.b.Preds {
			if p == it.prev {
				vals = append(vals, fr.eval(it.st, phi.Edges[k]))
				vs = append(vs, phi)
				break
			}
		}
	}
	for i, v := range vs {
		it.st.set(v, vals[i])
	}
}

// block executes instructions from index i on.
func (fr *Frame) block(b *ssa.BasicBlock, i int, st *State, emit func(item), ret func(Outcome)) {
	in := fr.in
	for ; i < len(b.Instrs); i++ {
		switch ins := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := fr.eval(st, ins.Cond)
			if v, ok := st.known(c); ok {
				k := 0
				if !v {
					k = 1
				}
				emit(item{b.Succs[k], b, st})
				return
			}
			// the false branch is pushed first so that true is explored first
			s2 := st.clone()
			if s2.assume(c, false) {
				emit(item{b.Succs[1], b, s2})
			}
			if st.assume(c, true) {
				emit(item{b.Succs[0], b, st})
			}
			return
		case *ssa.Jump:
			emit(item{b.Succs[0], b, st})
			return
		case *ssa.Return:
			var rs []*Term
			for _, r := range ins.Results {
				rs = append(rs, fr.eval(st, r))
			}
			ret(Outcome{st, rs, instrPos(ins)})
			return
		case *ssa.Panic:
			fr.oblig(ins, st, "panic", false, "panic statement reachable")
			return
		case *ssa.Call:
			outs := fr.doCall(ins, &ins.Call, st)
			for k, o := range outs {
				if o.res != nil {
					o.st.set(ins, o.res)
				}
				if len(outs) == 1 {
					st = o.st
					break
				}
				_ = k
				fr.block(b, i+1, o.st, emit, ret)
			}
			if len(outs) != 1 {
				return
			}
		case *ssa.RunDefers:
			outs := fr.runDefers(ins, st)
			if len(outs) == 1 {
				st = outs[0]
				continue
			}
			for _, o := range outs {
				fr.block(b, i+1, o, emit, ret)
			}
			return
		default:
			sts := fr.instr(ins, st)
			if len(sts) == 1 {
				st = sts[0]
				continue
			}
			for _, s := range sts {
				fr.block(b, i+1, s, emit, ret)
			}
			return
		}
		if in.over {
			return
		}
	}
}

func (fr *Frame) runDefers(ins ssa.Instruction, st *State) []*State {
	ds := st.top().defers
	if len(ds) == 0 {
		return []*State{st}
	}
	d := ds[len(ds)-1]
	w := st.wtop()
	w.defers = w.defers[:len(w.defers)-1]
	var r []*State
	for _, o := range fr.doCallWith(d.call, &d.call.Call, st, d.fn, d.args, true) {
		r = append(r, fr.runDefers(ins, o.st)...)
	}
	return r
}

func (fr *Frame) oblig(ins ssa.Instruction, st *State, kind string, ok bool, msg string) {
	fr.in.event(&Event{kind: "oblig:" + kind, pos: instrPos(ins), fn: fr.fn, ctx: fr.ctx.s, ok: ok, msg: msg})
	if fr.in.debug && !ok {
		fmt.Printf("UNPROVED %s %s %s\n%s", kind, fr.in.pos(instrPos(ins)), msg, st.dump())
	}
}
func (fr *Frame) unsupported(ins ssa.Instruction, msg string) {
	fr.in.event(&Event{kind: "unsupported", pos: instrPos(ins), fn: fr.fn, ctx: fr.ctx.s, msg: msg})
}

func (fr *Frame) eval(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return fr.in.globalPtr(v)
	case *ssa.Function:
		t := mk(OFunc, v.String(), 0, nil, nil, v.Type())
		t.fn = v
		return t
	case *ssa.Builtin:
		return mkSym("builtin:"+v.Name(), nil)
	}
	if t, ok := st.top().m[v]; ok {
		return t
	}
	return mkSym("undef:"+fr.ctx.s+v.Name(), v.Type())
}

func (in *Interp) globalPtr(g *ssa.Global) *Term {
	name := g.Name()
	if g.Pkg != nil {
		name = g.Pkg.Pkg.Path() + "." + name
	}
	k := "g:" + name
	if objType[k] == nil {
		objType[k] = g.Type().Underlying().(*types.Pointer).Elem()
	}
	return mkPtr(k)
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Basic); ok {
			return zeroOf(c.Type())
		}
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return mkInt(i)
		}
	}
	return mkApp("const", mkStr(c.Value.ExactString()))
}

func maybeStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && strings.HasSuffix(n.Obj().Name(), "__Maybe")
}

// instr executes one instruction other than control flow and calls.
func (fr *Frame) instr(ins ssa.Instruction, st *State) []*State {
	one := []*State{st}
	switch x := ins.(type) {
	case *ssa.Alloc:
		key := "o:" + fr.ctx.s + ":" + fr.site(x)
		et := x.Type().Underlying().(*types.Pointer).Elem()
		objType[key] = et
		for k := range st.heap {
			if k == "buf:"+key || strings.HasPrefix(k, "buf:"+key+"^") {
				delete(st.heap, k)
			}
		}
		st.heap[key] = zeroOf(et)
		st.set(x, mkPtr(key))
	case *ssa.BinOp:
		st.set(x, fr.binop(x, st))
	case *ssa.UnOp:
		a := fr.eval(st, x.X)
		switch x.Op {
		case token.NOT:
			st.set(x, mkNot(a))
		case token.SUB:
			st.set(x, mkScale(a, -1))
		case token.MUL:
			et := x.Type()
			if !fr.checkNil(x, st, a, "dereference") {
				return nil
			}
			st.set(x, st.load(a, et))
		case token.ARROW:
			fr.unsupported(x, "channel receive")
			st.set(x, fr.fresh(x, "recv", x.Type()))
		default:
			st.set(x, mk(OApp, "op"+x.Op.String(), 0, []*Term{a}, nil, x.Type()))
		}
	case *ssa.ChangeInterface:
		st.set(x, fr.eval(st, x.X))
	case *ssa.ChangeType:
		st.set(x, fr.eval(st, x.X))
	case *ssa.MultiConvert:
		st.set(x, st.value(fr.eval(st, x.X)))
	case *ssa.Convert:
		st.set(x, fr.convert(x, st))
	case *ssa.MakeInterface:
		a := fr.eval(st, x.X)
		st.set(x, mkIface(x.X.Type(), a))
	case *ssa.Extract:
		t := fr.eval(st, x.Tuple)
		if t.op == OTuple && x.Index < len(t.args) {
			st.set(x, t.args[x.Index])
		} else {
			st.set(x, mk(OApp, "extract", int64(x.Index), []*Term{t}, nil, x.Type()))
		}
	case *ssa.Field:
		st.set(x, mkField(fr.eval(st, x.X), x.Field, x.Type()))
	case *ssa.FieldAddr:
		p := fr.eval(st, x.X)
		if !fr.checkNil(x, st, p, "field access") {
			return nil
		}
		k, path := asPtr(p, elemType(x.X.Type()))
		st.set(x, mkPtr(k, append(append([]*Term{}, path...), mkInt(int64(x.Field)))...))
	case *ssa.Index:
		a, i := fr.eval(st, x.X), fr.eval(st, x.Index)
		if !fr.checkIndex(x, st, mkLen(a), i) {
			return nil
		}
		var et types.Type = x.Type()
		st.set(x, mkIdx(a, i, et))
	case *ssa.IndexAddr:
		a, i := fr.eval(st, x.X), fr.eval(st, x.Index)
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			n := pt.Elem().Underlying().(*types.Array).Len()
			if !fr.checkIndex(x, st, mkInt(n), i) {
				return nil
			}
			k, path := asPtr(a, pt.Elem())
			st.set(x, mkPtr(k, append(append([]*Term{}, path...), mkApp("ix", i))...))
			break
		}
		if !fr.checkIndex(x, st, mkLen(a), i) {
			return nil
		}
		if a.op == OSlice {
			p := a.args[0]
			st.set(x, mkPtr(p.s, append(append([]*Term{}, p.args...), mkApp("ix", mkAdd(a.args[1], i)))...))
			break
		}
		k := fmt.Sprintf("v:%d", a.id)
		derefBase[k] = a
		objType[k] = x.X.Type()
		st.set(x, mkPtr(k, mkApp("ix", i)))
	case *ssa.Slice:
		return fr.slice(x, st)
	case *ssa.Store:
		p, v := fr.eval(st, x.Addr), fr.eval(st, x.Val)
		if !fr.checkNil(x, st, p, "store") {
			return nil
		}
		k, _ := asPtr(p, x.Val.Type())
		if strings.HasPrefix(k, "v:") {
			fr.in.event(&Event{kind: "mutate", pos: instrPos(x), fn: fr.fn, ctx: fr.ctx.s, msg: "store into " + derefBase[k].String()})
		}
		if strings.HasPrefix(k, "g:") && fr.fn.Name() != "init" {
			fr.in.event(&Event{kind: "globalstore", pos: instrPos(x), fn: fr.fn, ctx: fr.ctx.s, msg: k[2:]})
		}
		st.store(p, v, x.Val.Type())
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, fr.eval(st, b))
		}
		f := x.Fn.(*ssa.Function)
		t := mk(OClos, f.String(), 0, bs, nil, x.Type())
		t.fn = f
		st.set(x, t)
	case *ssa.MakeMap:
		key := "m:" + fr.ctx.s + ":" + fr.site(x)
		objType[key] = x.Type()
		st.heap[key] = mkApp("map")
		st.set(x, mkPtr(key))
	case *ssa.MapUpdate:
		m, k, v := fr.eval(st, x.Map), st.value(fr.eval(st, x.Key)), fr.eval(st, x.Value)
		if !fr.checkNil(x, st, m, "map write") {
			return nil
		}
		ok, _ := asPtr(m, x.Map.Type())
		c := st.content(ok)
		if c.op == OApp && c.s == "map" && isConst(k) {
			as := append([]*Term{}, c.args...)
			done := false
			for i := 0; i < len(as); i += 2 {
				if as[i] == k {
					as[i+1] = v
					done = true
				}
			}
			if !done {
				as = append(as, k, v)
			}
			st.heap[ok] = mkApp("map", as...)
		} else {
			st.heap[ok] = mkApp("mapupd", c, k, v)
		}
		if strings.HasPrefix(ok, "g:") && fr.fn.Name() != "init" {
			fr.in.event(&Event{kind: "globalstore", pos: instrPos(x), fn: fr.fn, ctx: fr.ctx.s, msg: ok[2:]})
		}
	case *ssa.Lookup:
		return fr.lookup(x, st)
	case *ssa.MakeSlice:
		n, c := fr.eval(st, x.Len), fr.eval(st, x.Cap)
		fr.allocSize(x, st, n, "make")
		if c != n {
			fr.allocSize(x, st, c, "make")
		}
		if v, ok := st.known(mkLe(mkScale(n, -1), mkInt(0))); !ok || !v {
			fr.oblig(x, st, "makeslice", false, "make with a length that may be negative: "+n.String())
			if !st.assume(mkLe(mkScale(n, -1), mkInt(0)), true) {
				return nil
			}
		} else {
			fr.oblig(x, st, "makeslice", true, "make length")
		}
		if z, ok := isInt(n); ok && z == 0 {
			if isByteType(elemType(x.Type())) {
				st.set(x, tEmpty)
			} else {
				st.set(x, tEList)
			}
			break
		}
		key := "o:" + fr.ctx.s + ":" + fr.site(x)
		objType[key] = x.Type()
		st.heap[key] = mkApp("zeros", n)
		st.set(x, mk(OSlice, "", 0, []*Term{mkPtr(key), mkInt(0), n}, nil, x.Type()))
	case *ssa.Range:
		a := fr.eval(st, x.X)
		key := "it:" + fr.ctx.s + ":" + fr.site(x)
		st.heap[key] = tEList
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			fr.in.event(&Event{kind: "maprange", pos: instrPos(x), fn: fr.fn, ctx: fr.ctx.s, msg: "range over map"})
		}
		st.set(x, mkApp("range", mkStr(key), a))
	case *ssa.Next:
		r := fr.eval(st, x.Iter)
		tt := x.Type().(*types.Tuple)
		s2 := st.clone()
		s2.set(x, mkTuple(tFalse, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())))
		k, v := fr.fresh(x, "rk", tt.At(1).Type()), fr.fresh(x, "rv", tt.At(2).Type())
		if r.op == OApp && r.s == "range" {
			key := r.args[0].s
			st.heap[key] = mkCat(st.heap[key], mkElem(mkTuple(k, v)))
			a := r.args[1]
			if x.IsString {
				st.assume(mkLt(k, mkLen(a)), true)
				st.assume(mkLe(mkInt(0), k), true)
			}
		}
		st.set(x, mkTuple(tTrue, k, v))
		return []*State{st, s2}
	case *ssa.TypeAssert:
		return fr.typeAssert(x, st)
	case *ssa.Defer:
		f, args := fr.callee(&x.Call, st)
		w := st.wtop()
		w.defers = append(w.defers, &deferred{x, f, args})
	case *ssa.Go:
		fr.in.event(&Event{kind: "go", pos: instrPos(x), fn: fr.fn, ctx: fr.ctx.s, msg: "go statement"})
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		fr.in.event(&Event{kind: "chan", pos: instrPos(x), fn: fr.fn, ctx: fr.ctx.s, msg: "channel operation"})
		if v, ok := ins.(ssa.Value); ok {
			st.set(v, fr.fresh(ins, "chan", v.Type()))
		}
	case *ssa.SliceToArrayPointer:
		fr.unsupported(x, "slice to array conversion")
		st.set(x, fr.fresh(x, "arr", x.Type()))
	default:
		fr.unsupported(ins, fmt.Sprintf("instruction %T", ins))
	}
	return one
}

func zeroOrNil(t types.Type) *Term {
	if t == nil || t == types.Typ[types.Invalid] {
		return tNil
	}
	return zeroOf(t)
}

// checkNil records the obligation that p is not nil; false when it must be nil.
func (fr *Frame) checkNil(ins ssa.Instruction, st *State, p *Term, what string) bool {
	if nonNil(p) {
		return true
	}
	if p.op == ONil {
		fr.oblig(ins, st, "nil", false, what+" on nil")
		return false
	}
	c := mkEq(p, tNil)
	if v, ok := st.known(c); ok {
		fr.oblig(ins, st, "nil", !v, what+" on "+p.String())
		return !v
	}
	fr.oblig(ins, st, "nil", false, what+" on a value that may be nil: "+p.String())
	return st.assume(c, false)
}

func (fr *Frame) checkIndex(ins ssa.Instruction, st *State, n, i *Term) bool {
	lo, hi := mkLe(mkInt(0), i), mkLt(i, n)
	v1, ok1 := st.known(lo)
	v2, ok2 := st.known(hi)
	ok := ok1 && v1 && ok2 && v2
	fr.oblig(ins, st, "index", ok, fmt.Sprintf("index %s of length %s", i, n))
	if ok {
		return true
	}
	return st.assume(lo, true) && st.assume(hi, true)
}

func (fr *Frame) allocSize(ins ssa.Instruction, st *State, n *Term, what string) {
	fr.in.event(&Event{kind: "alloc", pos: instrPos(ins), fn: fr.fn, ctx: fr.ctx.s, ok: fr.boundedSize(st, n), msg: fmt.Sprintf("%s of size %s", what, n)})
}

const allocLimit = 1 << 20

// boundedSize: n is at most a constant, or at most the length of data already held.
func (fr *Frame) boundedSize(st *State, n *Term) bool {
	if u, ok := st.zone.upper(n); ok && u <= allocLimit {
		return true
	}
	// against every length known to the state
	lens := map[*Term]bool{}
	add := func(t *Term) {
		walk(t, func(x *Term) bool {
			if x.op == OApp && x.s == "len" {
				lens[x] = true
			}
			return true
		})
	}
	add(n)
	for f := range st.facts {
		add(f)
	}
	for k := range st.zone.e {
		for _, i := range k {
			if i != 0 {
				add(termTab[i-1])
			}
		}
	}
	l := linOf(n)
	rest := mkInt(l.c)
	okAll := true
	for a, c := range l.m {
		if c < 0 {
			continue
		}
		if a.op == OApp && (a.s == "len" || a.s == "nodelen") {
			continue
		}
		bounded := false
		for x := range lens {
			if u, ok := st.zone.upper(mkSub(a, x)); ok && u <= allocLimit {
				bounded = true
			}
		}
		if u, ok := st.zone.upper(a); ok && u <= allocLimit {
			bounded = true
		}
		if !bounded {
			okAll = false
		}
	}
	_ = rest
	return okAll && l.c <= allocLimit
}

func (fr *Frame) binop(x *ssa.BinOp, st *State) *Term {
	a, b := fr.eval(st, x.X), fr.eval(st, x.Y)
	isStr := func() bool {
		bt, ok := x.X.Type().Underlying().(*types.Basic)
		return ok && bt.Info()&types.IsString != 0
	}
	switch x.Op {
	case token.ADD:
		if isStr() {
			st.copied(a)
			st.copied(b)
			return mkCat(a, b)
		}
		if isNumericType(x.Type()) {
			return mkAdd(a, b)
		}
	case token.SUB:
		if isNumericType(x.Type()) {
			return mkSub(a, b)
		}
	case token.MUL:
		if c, ok := isInt(a); ok {
			return mkScale(b, c)
		}
		if c, ok := isInt(b); ok {
			return mkScale(a, c)
		}
		return mk(OApp, "mul", 0, []*Term{a, b}, nil, x.Type())
	case token.QUO, token.REM:
		if isNumericType(x.Type()) {
			v, ok := st.known(mkEq(b, mkInt(0)))
			fr.oblig(x, st, "div", ok && !v, "division by "+b.String())
			if p, ok := isInt(a); ok {
				if q, ok := isInt(b); ok && q != 0 {
					if x.Op == token.QUO {
						return mkInt(p / q)
					}
					return mkInt(p % q)
				}
			}
		}
		n := "div"
		if x.Op == token.REM {
			n = "mod"
		}
		return mk(OApp, n, 0, []*Term{a, b}, nil, x.Type())
	case token.SHL:
		if c, ok := isInt(b); ok && c >= 0 && c < 31 {
			return mkScale(a, 1<<uint(c))
		}
	case token.EQL, token.NEQ:
		a, b = st.value(a), st.value(b)
		var r *Term
		// comparing an interface to a concrete value
		_, xi := x.X.Type().Underlying().(*types.Interface)
		_, yi := x.Y.Type().Underlying().(*types.Interface)
		if xi && !yi && b.op != ONil {
			b = mkIface(x.Y.Type(), b)
		}
		if yi && !xi && a.op != ONil {
			a = mkIface(x.X.Type(), a)
		}
		r = mkEq(a, b)
		if x.Op == token.NEQ {
			r = mkNot(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isNumericType(x.X.Type()) {
			switch x.Op {
			case token.LSS:
				return mkLt(a, b)
			case token.LEQ:
				return mkLe(a, b)
			case token.GTR:
				return mkLt(b, a)
			default:
				return mkLe(b, a)
			}
		}
	case token.AND, token.OR:
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			if x.Op == token.AND {
				return mkApp("and", a, b)
			}
			return mkNot(mkApp("and", mkNot(a), mkNot(b)))
		}
	}
	if p, ok := isInt(a); ok {
		if q, ok := isInt(b); ok {
			switch x.Op {
			case token.OR:
				return mkInt(p | q)
			case token.AND:
				return mkInt(p & q)
			case token.XOR:
				return mkInt(p ^ q)
			}
		}
	}
	return mk(OApp, "op"+x.Op.String(), 0, []*Term{a, b}, nil, x.Type())
}

// kept: the converted text is needed beyond a comparison, a look-up or a range,
// for which the compiler makes no copy.
func kept(x *ssa.Convert) bool {
	rs := x.Referrers()
	if rs == nil {
		return true
	}
	for _, r := range *rs {
		switch y := r.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			if y.Op == token.ADD {
				return true
			}
		case *ssa.Lookup, *ssa.Range:
		default:
			return true
		}
	}
	return false
}

func (fr *Frame) convert(x *ssa.Convert, st *State) *Term {
	a := fr.eval(st, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if _, ok := isInt(a); ok {
			return a
		}
		if widthOf(tb) >= widthOf(fb) {
			fu, tu := fb.Info()&types.IsUnsigned != 0, tb.Info()&types.IsUnsigned != 0
			if fu == tu || (fu && widthOf(tb) > widthOf(fb)) {
				return a
			}
			if lo, ok := st.zone.lower(a); ok && lo >= 0 && !fu {
				return a
			}
		}
		return mk(OApp, "conv", 0, []*Term{a, mkStr(tb.Name())}, nil, x.Type())
	}
	if tok && tb.Info()&types.IsString != 0 {
		if fok && fb.Info()&types.IsInteger != 0 {
			if c, ok := isInt(a); ok {
				return mkStr(string(rune(c)))
			}
			if isByteType(x.X.Type()) {
				return mkApp("runestr", a)
			}
			return mkApp("runestr", a)
		}
		a = st.value(a)
		if a == tNil || a == tEList {
			return tEmpty
		}
		if fb == nil && kept(x) {
			st.copied(a)
		}
		if s, ok := from.(*types.Slice); ok && !isByteType(s.Elem()) {
			return mkApp("runes", a)
		}
		return a
	}
	if s, ok := to.(*types.Slice); ok {
		if !isByteType(s.Elem()) {
			return mkApp("torunes", a)
		}
		if fok && fb.Info()&types.IsString != 0 && kept(x) {
			st.copied(a)
		}
		return st.value(a)
	}
	return mk(OApp, "conv", 0, []*Term{a, mkStr(x.Type().String())}, nil, x.Type())
}

func widthOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (fr *Frame) slice(x *ssa.Slice, st *State) []*State {
	a := fr.eval(st, x.X)
	var lo, hi *Term = mkInt(0), nil
	if x.Low != nil {
		lo = fr.eval(st, x.Low)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		n := pt.Elem().Underlying().(*types.Array).Len()
		hi = mkInt(n)
		if x.High != nil {
			hi = fr.eval(st, x.High)
		}
		if !fr.checkSlice(x, st, lo, hi, mkInt(n)) {
			return nil
		}
		if !fr.checkNil(x, st, a, "slice") {
			return nil
		}
		if a.op != OPtr {
			k, path := asPtr(a, pt.Elem())
			a = mkPtr(k, path...)
		}
		st.set(x, mk(OSlice, "", 0, []*Term{a, lo, hi}, nil, x.Type()))
		return []*State{st}
	}
	n := mkLen(a)
	hi = n
	if x.High != nil {
		hi = fr.eval(st, x.High)
	}
	if !fr.checkSlice(x, st, lo, hi, n) {
		return nil
	}
	if a.op == OSlice {
		st.set(x, mk(OSlice, "", 0, []*Term{a.args[0], mkAdd(a.args[1], lo), mkAdd(a.args[1], hi)}, nil, x.Type()))
		return []*State{st}
	}
	if a.op == ONil {
		st.set(x, tNil)
		return []*State{st}
	}
	st.set(x, mkSlice(a, lo, hi))
	return []*State{st}
}

func (fr *Frame) checkSlice(ins ssa.Instruction, st *State, lo, hi, n *Term) bool {
	cs := []*Term{mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)}
	ok := true
	for _, c := range cs {
		v, k := st.known(c)
		ok = ok && v && k
	}
	fr.oblig(ins, st, "slice", ok, fmt.Sprintf("slice [%s:%s] of length %s", lo, hi, n))
	for _, c := range cs {
		if !st.assume(c, true) {
			return false
		}
	}
	return true
}

func (fr *Frame) lookup(x *ssa.Lookup, st *State) []*State {
	m, k := fr.eval(st, x.X), st.value(fr.eval(st, x.Index))
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		if !fr.checkIndex(x, st, mkLen(m), k) {
			return nil
		}
		st.set(x, mkIdx(m, k, types.Typ[types.Uint8]))
		return []*State{st}
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	put := func(s *State, v, ok *Term) *State {
		if x.CommaOk {
			s.set(x, mkTuple(v, ok))
		} else {
			s.set(x, v)
		}
		return s
	}
	if m == tNil {
		return []*State{put(st, zeroOf(vt), tFalse)}
	}
	// the multihash package's table of digest lengths
	if isGlobalConst(m) && strings.HasSuffix(m.args[0].s, "go-multihash.DefaultLengths") {
		if c, ok := isInt(k); ok && c == 0x11 {
			return []*State{put(st, mkInt(20), tTrue)}
		}
	}
	c := m
	if m.op == OPtr {
		c = st.content(m.s)
	}
	if c.op == OApp && c.s == "map" {
		var outs []*State
		cur := st
		for i := 0; i < len(c.args); i += 2 {
			e := mkEq(k, c.args[i])
			if v, ok := cur.known(e); ok {
				if v {
					return append(outs, put(cur, c.args[i+1], tTrue))
				}
				continue
			}
			n := cur.clone()
			if n.assume(e, true) {
				outs = append(outs, put(n, c.args[i+1], tTrue))
			}
			if !cur.assume(e, false) {
				return outs
			}
		}
		return append(outs, put(cur, zeroOf(vt), tFalse))
	}
	s2 := st.clone()
	v := mk(OApp, "mapget", 0, []*Term{c, k}, nil, vt)
	hasT := mkApp("maphas", c, k)
	var outs []*State
	if st.assume(hasT, true) {
		outs = append(outs, put(st, v, tTrue))
	}
	if s2.assume(hasT, false) {
		outs = append(outs, put(s2, zeroOf(vt), tFalse))
	}
	return outs
}

func (fr *Frame) typeAssert(x *ssa.TypeAssert, st *State) []*State {
	a := fr.eval(st, x.X)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	yes := func(s *State, v *Term) *State {
		if x.CommaOk {
			s.set(x, mkTuple(v, tTrue))
		} else {
			fr.oblig(x, s, "assert", true, "type assertion to "+x.AssertedType.String())
			s.set(x, v)
		}
		return s
	}
	no := func(s *State) []*State {
		if x.CommaOk {
			z := tNil
			if !toIface {
				z = zeroOf(x.AssertedType)
			}
			s.set(x, mkTuple(z, tFalse))
			return []*State{s}
		}
		fr.oblig(x, s, "assert", false, fmt.Sprintf("type assertion of %s to %s may fail", a, x.AssertedType))
		return nil
	}
	if a == tNil {
		return no(st)
	}
	if a.op == OIface {
		if toIface {
			if types.Implements(a.typ, x.AssertedType.Underlying().(*types.Interface)) {
				return []*State{yes(st, a)}
			}
			return no(st)
		}
		if types.Identical(a.typ, x.AssertedType) {
			return []*State{yes(st, a.args[0])}
		}
		return no(st)
	}
	c := mkApp("is:"+types.TypeString(x.AssertedType, nil), a)
	v := mk(OApp, "as", 0, []*Term{a, mkStr(types.TypeString(x.AssertedType, nil))}, nil, x.AssertedType)
	if toIface {
		v = a
	}
	if w, ok := st.known(c); ok {
		if w {
			return []*State{yes(st, v)}
		}
		return no(st)
	}
	s2 := st.clone()
	var outs []*State
	if s2.assume(c, false) {
		outs = append(outs, no(s2)...)
	}
	if st.assume(c, true) {
		if toIface {
			st.assume(mkApp("isnil", a), false)
		}
		outs = append(outs, yes(st, v))
	}
	return outs
}

// loops

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}
type loopNest struct {
	byHeader    map[*ssa.BasicBlock]*loop
	irreducible bool
}

func (in *Interp) nestOf(fn *ssa.Function) *loopNest {
	if n, ok := in.loops[fn]; ok {
		return n
	}
	n := &loopNest{byHeader: map[*ssa.BasicBlock]*loop{}}
	in.loops[fn] = n
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := n.byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					n.byHeader[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	// retreating edges that are not back edges
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			switch state[s] {
			case 0:
				dfs(s)
			case 1:
				if !s.Dominates(b) {
					n.irreducible = true
				}
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	return n
}

// loop solves one loop from one entry state.
func (fr *Frame) loop(L *loop, entry item) regionResult {
	in := fr.in
	fr.phis(entry)
	S0 := entry.st
	// forget values of this loop's body from an earlier visit
	w := S0.wtop()
	for v := range w.m {
		if ins, ok := v.(ssa.Instruction); ok && L.blocks[ins.Block()] {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == L.header {
				continue
			}
			delete(w.m, v)
		}
	}
	if res, ok := fr.unroll(L, entry); ok {
		return res
	}
	lkey := fr.ctx.s + ":" + fr.fn.Name() + "." + strconv.Itoa(L.header.Index)
	S0syms := S0.allSyms()
	J := &joiner{fr: fr, L: L, key: lkey, S0: S0, S0syms: S0syms, phis: map[string]*Term{}}
	H := S0.clone()
	H.copies = nil
	outer := S0.copies
	for iter := 0; ; iter++ {
		mark := len(in.events)
		res := fr.region(L, item{b: L.header, st: H.clone()})
		if in.over {
			return res
		}
		back := res.back[:0]
		for _, bk := range res.back {
			fr.phis(bk)
			// a path on which the loop's own test is decided and says stop
			// leaves the loop here: it is not another iteration
			if ex, ok := fr.leaves(L, bk); ok {
				J.supersede(bk, ex)
				res.exits = append(res.exits, ex)
				continue
			}
			back = append(back, bk)
		}
		res.back = back
		H2, dropped := J.join(H, res.back, iter)
		if J.same(H, H2) {
			for _, e := range dropped {
				in.event(e)
			}
			info := J.finish(H, res.back)
			// whoever goes on from here has copied what any iteration copied
			all := outer
			for _, bk := range res.back {
				all = unionTerms(all, bk.st.copies)
			}
			for i := range res.exits {
				res.exits[i].st.copies = unionTerms(all, res.exits[i].st.copies)
			}
			for i := range res.rets {
				res.rets[i].st.copies = unionTerms(all, res.rets[i].st.copies)
			}
			in.event(&Event{kind: "loop", pos: info.pos, fn: fr.fn, ctx: fr.ctx.s, loop: info})
			J.nested(info, in.events[mark:])
			if len(J.ren) > 0 {
				for i := range res.exits {
					res.exits[i].st.rename(J.ren)
				}
				for i := range res.rets {
					res.rets[i].st.rename(J.ren)
					for k, r := range res.rets[i].res {
						res.rets[i].res[k] = subst(r, J.ren, map[*Term]*Term{})
					}
				}
			}
			res.back = nil
			return res
		}
		in.events = in.events[:mark]
		H = H2
		if iter > 40 {
			in.event(&Event{kind: "unsupported", pos: fr.fn.Pos(), fn: fr.fn, msg: "loop does not converge at " + in.pos(loopPos(L))})
			return res
		}
	}
}

// leaves follows the loop's test from its header in a state that is about to
// begin another iteration. It reports the exit taken when every branch on the
// way is decided and nothing on the way has an effect.
func (fr *Frame) leaves(L *loop, bk item) (item, bool) {
	in := fr.in
	st := bk.st.clone()
	mark := len(in.events)
	b := bk.b
	for n := 0; n < 12; n++ {
		for _, ins := range b.Instrs {
			if !testInstr(ins) {
				in.events = in.events[:mark]
				return item{}, false
			}
		}
		var next []item
		rets := 0
		if n > 0 {
			if inner := fr.nest.byHeader[b]; inner != nil {
				in.events = in.events[:mark]
				return item{}, false
			}
		}
		fr.block(b, 0, st, func(i item) { next = append(next, i) }, func(Outcome) { rets++ })
		if len(next) != 1 || rets > 0 || next[0].b == L.header {
			in.events = in.events[:mark]
			return item{}, false
		}
		if !L.blocks[next[0].b] {
			return next[0], true
		}
		b, st = next[0].b, next[0].st
		fr.phis(next[0])
	}
	in.events = in.events[:mark]
	return item{}, false
}

// counts reports whether the loop's header compares a counter that is known
// here with a bound that is known here, and how far apart they are.
func (fr *Frame) counts(L *loop, st *State) (int64, bool) {
	h := L.header
	n := len(h.Instrs)
	iff, ok := h.Instrs[n-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	for _, ins := range h.Instrs {
		if !testInstr(ins) {
			return 0, false
		}
	}
	counter := func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok && b.Block() == h {
			v = b.X
		}
		p, ok := v.(*ssa.Phi)
		if !ok || p.Block() != h {
			return false
		}
		for k, e := range p.Edges {
			if !L.blocks[h.Preds[k]] {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(p) || b.Op != token.ADD && b.Op != token.SUB {
				return false
			}
			if _, ok := b.Y.(*ssa.Const); !ok {
				return false
			}
		}
		return true
	}
	if !counter(cmp.X) && !counter(cmp.Y) {
		return 0, false
	}
	s2 := st.clone()
	mark := len(fr.in.events)
	fr.block(h, 0, s2, func(item) {}, func(Outcome) {})
	fr.in.events = fr.in.events[:mark]
	x, ok1 := isInt(fr.eval(s2, cmp.X))
	y, ok2 := isInt(fr.eval(s2, cmp.Y))
	if !ok1 || !ok2 {
		return 0, false
	}
	if x > y {
		x, y = y, x
	}
	return y - x, true
}

// unroll runs a loop whose number of iterations is known one iteration after
// the other.
func (fr *Frame) unroll(L *loop, entry item) (regionResult, bool) {
	in := fr.in
	const most = 16
	if d, ok := fr.counts(L, entry.st); !ok || d > most {
		return regionResult{}, false
	}
	mark, states := len(in.events), in.states
	quit := func() (regionResult, bool) {
		in.events, in.states = in.events[:mark], states
		return regionResult{}, false
	}
	var out regionResult
	cur := []*State{entry.st.clone()}
	for n := 0; len(cur) > 0; n++ {
		if n > most+1 || len(cur) > 64 {
			return quit()
		}
		f := *fr
		if n > 0 {
			f.ctx = in.sub(fr.ctx, "iteration "+strconv.Itoa(n)+" of "+strconv.Itoa(L.header.Index))
		}
		var next []*State
		for _, st := range cur {
			if _, ok := f.counts(L, st); !ok {
				return quit()
			}
			w := st.wtop()
			for v := range w.m {
				if ins, ok := v.(ssa.Instruction); ok && L.blocks[ins.Block()] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == L.header {
						continue
					}
					delete(w.m, v)
				}
			}
			res := f.region(L, item{b: L.header, st: st})
			if in.over {
				return out, true
			}
			out.rets = append(out.rets, res.rets...)
			out.exits = append(out.exits, res.exits...)
			for _, bk := range res.back {
				f.phis(bk)
				next = append(next, bk.st)
			}
		}
		cur = next
	}
	return out, true
}

// testInstr reports whether an instruction only computes.
func testInstr(ins ssa.Instruction) bool {
	switch i := ins.(type) {
	case *ssa.Phi, *ssa.DebugRef, *ssa.If, *ssa.Jump, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType,
		*ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr:
		return true
	case *ssa.UnOp:
		return i.Op != token.ARROW
	case *ssa.Call:
		bi, ok := i.Call.Value.(*ssa.Builtin)
		return ok && (bi.Name() == "len" || bi.Name() == "cap")
	}
	return false
}

func loopPos(L *loop) token.Pos {
	best := token.NoPos
	for b := range L.blocks {
		for _, i := range b.Instrs {
			if p := i.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

type joiner struct {
	fr     *Frame
	L      *loop
	key    string
	S0     *State
	S0syms map[*Term]bool
	phis   map[string]*Term // loc -> temporary symbol
	ren    map[*Term]*Term
}

func (j *joiner) phi(loc string, typ types.Type) *Term {
	if t, ok := j.phis[loc]; ok {
		return t
	}
	t := mkSym("φ"+j.key+"|"+loc, typ)
	j.phis[loc] = t
	return t
}

func (j *joiner) headerPhis() []*ssa.Phi {
	var r []*ssa.Phi
	for _, ins := range j.L.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

// locValue reads the value of a location in a state.
func (j *joiner) locValue(st *State, loc string) *Term {
	if strings.HasPrefix(loc, "r:") {
		for _, p := range j.headerPhis() {
			if "r:"+p.Name() == loc {
				return st.value(st.top().m[p])
			}
		}
		return nil
	}
	parts := strings.Split(loc[2:], "/")
	c, ok := st.heap[parts[0]]
	if !ok {
		c = defaultCell(parts[0])
		if c == nil {
			c = st.content(parts[0])
		}
	}
	typ := objType[parts[0]]
	for _, s := range parts[1:] {
		i, _ := strconv.Atoi(s)
		var ft types.Type
		if typ != nil {
			if stt, ok := typ.Underlying().(*types.Struct); ok {
				ft = stt.Field(i).Type()
			} else if et := elemType(typ); et != nil {
				ft = et
				c = mkIdx(c, mkInt(int64(i)), et)
				typ = ft
				continue
			}
		}
		c = mkField(c, i, ft)
		typ = ft
	}
	return c
}

// cells that exist implicitly
func defaultCell(k string) *Term {
	switch {
	case strings.HasPrefix(k, "buf:"), strings.HasPrefix(k, "rd:"), strings.HasPrefix(k, "w:"):
		return tEmpty
	case strings.HasPrefix(k, "eof:"):
		return tFalse
	case strings.HasPrefix(k, "asm:"):
		return tEList
	case strings.HasPrefix(k, "ts:"):
		return mkStr("new")
	}
	return nil
}

func pseudo(k string) bool { return strings.HasPrefix(k, "rd:") || strings.HasPrefix(k, "eof:") }

func (j *joiner) merge(loc string, h, b *Term, typ types.Type) *Term {
	if h == b {
		return h
	}
	if p, ok := j.phis[loc]; ok && h == p {
		return h
	}
	if h.op == OStruct && b.op == OStruct && h.s == b.s && typ != nil && !maybeStruct(typ) {
		st := typ.Underlying().(*types.Struct)
		fs := make([]*Term, len(h.args))
		for i := range fs {
			fs[i] = j.merge(loc+"/"+strconv.Itoa(i), h.args[i], b.args[i], st.Field(i).Type())
		}
		return mkStruct(typ, fs)
	}
	if h.op == OArr && b.op == OArr && len(h.args) == len(b.args) {
		as := make([]*Term, len(h.args))
		for i := range as {
			as[i] = j.merge(loc+"/"+strconv.Itoa(i), h.args[i], b.args[i], elemType(typ))
		}
		return mk(OArr, "", 0, as, nil, h.typ)
	}
	return j.phi(loc, typ)
}

func (j *joiner) join(H *State, backs []item, iter int) (*State, []*Event) {
	in := j.fr.in
	S0 := j.S0
	N := H.clone()
	// header phis
	for _, bk := range backs {
		b := bk.st
		for _, p := range j.headerPhis() {
			hv, bv := N.top().m[p], b.value(b.top().m[p])
			if hv == nil || bv == nil {
				continue
			}
			if hv.op == OSlice && hv != bv {
				hv = S0.value(hv)
			}
			N.set(p, j.merge("r:"+p.Name(), hv, bv, p.Type()))
		}
		// heap cells
		keys := map[string]bool{}
		for k := range N.heap {
			keys[k] = true
		}
		for k := range b.heap {
			keys[k] = true
		}
		for k := range keys {
			hv, ok := N.heap[k]
			if !ok {
				d := defaultCell(k)
				if d != nil && j.cellLives(k) {
					hv = d
				} else if (strings.HasPrefix(k, "*") || strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "v:")) && j.liveBase(k) {
					hv = S0.content(k)
				} else {
					continue // allocated in the loop
				}
			}
			bv, ok := b.heap[k]
			if !ok {
				if d := defaultCell(k); d != nil {
					bv = d
				} else {
					bv = b.content(k)
				}
			}
			N.heap[k] = j.merge("h:"+k, hv, bv, objType[k])
		}
	}
	// per incoming state: location values
	locs := sortedKeys(j.phis)
	// drop locations that no longer stand for a value (absorbed by a wider one)
	vals := func(st *State) map[*Term]*Term {
		m := map[*Term]*Term{}
		for _, l := range locs {
			if v := j.locValue(st, l); v != nil {
				m[j.phis[l]] = v
			}
		}
		return m
	}
	// facts: candidates are those of H, those of S0 moved to the new symbols
	v0 := vals(S0)
	cand := map[*Term]bool{}
	for f, v := range H.facts {
		cand[f] = v
	}
	for ph, v := range v0 {
		if v.op != OSym && v.op != OApp && v.op != OField {
			continue
		}
		for f, tv := range S0.facts {
			if mentions(f, v) {
				g := subst(f, map[*Term]*Term{v: ph}, map[*Term]*Term{})
				if g.op == OApp && g.s != "not" {
					cand[g] = tv
				}
			}
		}
	}
	for _, l := range locs {
		cand[mkApp("isnil", j.phis[l])] = false
	}
	if iter > 0 {
		for f := range cand {
			if _, ok := H.facts[f]; !ok {
				// only facts already in H can survive later rounds, unless about a new phi
				newPhi := false
				for s := range symsOf(f) {
					if _, was := hasPhi(H, s, j); !was {
						if strings.HasPrefix(s.s, "φ"+j.key+"|") {
							newPhi = true
						}
					}
				}
				if !newPhi {
					delete(cand, f)
				}
			}
		}
	}
	N.facts = map[*Term]bool{}
	holds := func(st *State, m map[*Term]*Term, f *Term, v bool) bool {
		g := subst(f, m, map[*Term]*Term{})
		w, ok := st.known(g)
		return ok && w == v
	}
	for f, v := range cand {
		ok := holds(S0, v0, f, v)
		for _, bk := range backs {
			if !ok {
				break
			}
			ok = holds(bk.st, vals(bk.st), f, v)
		}
		if ok {
			// only about things that exist outside the loop
			for s := range symsOf(f) {
				if !j.S0syms[s] && !strings.HasPrefix(s.s, "φ"+j.key+"|") {
					ok = false
				}
			}
		}
		if ok {
			N.facts[f] = v
		}
	}
	// zone
	prime := map[*Term]*Term{}
	for _, l := range locs {
		prime[j.phis[l]] = mkSym(j.phis[l].s+"'", j.phis[l].typ)
	}
	keep := func(n int) bool {
		for s := range symsOf(termTab[n-1]) {
			if !j.S0syms[s] && !strings.HasPrefix(s.s, "φ"+j.key+"|") || strings.HasSuffix(s.s, "'") {
				return false
			}
		}
		return true
	}
	bind := func(st *State, m map[*Term]*Term) *Zone {
		memo := map[*Term]*Term{}
		z := renameZone(st.zone, prime, memo)
		for _, l := range locs {
			ph := j.phis[l]
			v := m[ph]
			if v == nil {
				continue
			}
			if isNumericType(ph.typ) || isNumeric(v) {
				nv := subst(v, prime, memo)
				z.bindEq(ph, nv)
			} else if hasLen(ph.typ) {
				ln := mkLen(subst(v, prime, memo))
				z.bindEq(mkLen(ph), ln)
			}
		}
		return z
	}
	var z *Zone
	z = bind(S0, v0)
	for _, bk := range backs {
		z = joinZones(z, bind(bk.st, vals(bk.st)), keep)
	}
	if len(backs) == 0 {
		z = H.zone.clone()
	} else if iter >= 3 {
		z = widenZone(H.zone, z)
	}
	N.zone = z
	// failures stay pending
	for _, bk := range backs {
		for e, f := range bk.st.fails {
			if _, ok := N.fails[e]; !ok {
				N.fails[e] = f
			}
		}
	}
	// input accounted for, or carried on
	var dropped []*Event
	moved := map[*Term]bool{}
	for _, s := range sortedTerms(S0.toks) {
		fixed := false
		for k, v := range N.heap {
			if pseudo(k) || strings.HasPrefix(k, "src:") || j.mentionsOwn(v) {
				continue
			}
			if S0.accounts(S0.deepAll(v), s) {
				fixed = true
				break
			}
		}
		if fixed {
			continue
		}
		for _, l := range locs {
			if strings.HasPrefix(l, "h:") && pseudo(l[2:]) {
				continue
			}
			if v := v0[j.phis[l]]; v != nil && S0.accounts(S0.deepAll(v), s) {
				moved[s] = true
				N.toks[j.phis[l]] = S0.toks[s]
			}
		}
		if moved[s] {
			delete(N.toks, s)
		}
	}
	for _, bk := range backs {
		m := vals(bk.st)
		toks := bk.st.toks
		for _, s := range sortedTerms(toks) {
			if moved[s] || bk.st.emptyOrLiteral(s) {
				continue
			}
			carried := false
			for _, l := range locs {
				if strings.HasPrefix(l, "h:") && pseudo(l[2:]) {
					continue
				}
				v := m[j.phis[l]]
				if v == nil {
					continue
				}
				if bk.st.accounts(bk.st.deepAll(v), s) {
					carried = true
					if _, ok := S0.toks[s]; ok {
						N.toks[s] = toks[s]
					} else if _, ok := N.toks[j.phis[l]]; !ok {
						N.toks[j.phis[l]] = toks[s]
					}
				}
			}
			if carried {
				continue
			}
			// superseded: the field it stood for has been given a new value
			if strings.HasPrefix(s.s, "φ"+j.key+"|") && j.superseded(s, m[s], bk.st) {
				continue
			}
			// still where it was before the loop
			if _, ok := S0.toks[s]; ok {
				N.toks[s] = toks[s]
				continue
			}
			dropped = append(dropped, &Event{kind: "drop", pos: loopPos(j.L), fn: j.fr.fn, ctx: j.fr.ctx.s, msg: toks[s] + " is discarded: " + s.String() + " at the end of the iteration through " + in.pos(lastPos(bk.prev)), st: bk.st, val: s})
		}
	}
	return N, dropped
}

func (j *joiner) mentionsOwn(v *Term) bool {
	for s := range symsOf(v) {
		if strings.HasPrefix(s.s, "φ"+j.key+"|") {
			return true
		}
	}
	return false
}

// supersede forgets, in a state that leaves the loop from its end, the fields
// that the last iteration gave new values.
func (j *joiner) supersede(bk, ex item) {
	for _, s := range sortedTerms(ex.st.toks) {
		if !strings.HasPrefix(s.s, "φ"+j.key+"|") {
			continue
		}
		v := j.locValue(bk.st, s.s[strings.IndexByte(s.s, '|')+1:])
		if v == nil || mentions(v, s) || bk.st.accounts(bk.st.deepAll(v), s) {
			continue
		}
		if j.superseded(s, v, bk.st) {
			delete(ex.st.toks, s)
		}
	}
}

// superseded: s stood for a field of the result, which now holds newer input.
func (j *joiner) superseded(s, v *Term, st *State) bool {
	loc := s.s[strings.IndexByte(s.s, '|')+1:]
	if strings.HasPrefix(loc, "h:") {
		root := strings.Split(loc[2:], "/")[0]
		if n, ok := objType[root].(*types.Named); ok && n.Obj().Pkg() == j.fr.in.pkg.Pkg {
			return true
		}
	}
	if v == nil || v.op == OSym {
		return false
	}
	for t := range st.toks {
		if mentions(v, t) {
			return true
		}
	}
	return false
}

// emptyOrLiteral: every byte of s is known.
func (st *State) emptyOrLiteral(s *Term) bool {
	if _, ok := st.litOf(s); ok {
		return true
	}
	if u, ok := st.zone.upper(mkLen(s)); ok && u <= 0 {
		return true
	}
	return false
}

func lastPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	for _, p := range b.Preds {
		for i := len(p.Instrs) - 1; i >= 0; i-- {
			if q := p.Instrs[i].Pos(); q.IsValid() {
				return q
			}
		}
	}
	return token.NoPos
}

func hasLen(t types.Type) bool {
	if t == nil {
		return true // buffer cells
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func hasPhi(H *State, s *Term, j *joiner) (string, bool) {
	for l, p := range j.phis {
		if p == s {
			if strings.HasPrefix(l, "r:") {
				for _, ph := range j.headerPhis() {
					if "r:"+ph.Name() == l {
						return l, H.top().m[ph] == s
					}
				}
			}
			return l, mentionsHeap(H, s)
		}
	}
	return "", false
}
func mentionsHeap(H *State, s *Term) bool {
	for _, v := range H.heap {
		if symsOf(v)[s] {
			return true
		}
	}
	return false
}

// bindEq adds x = v, or what is known of v's bounds.
func (z *Zone) bindEq(x, v *Term) {
	d := mkSub(x, v)
	l := linOf(d)
	if len(l.m) <= 2 {
		ok := true
		pos, neg := 0, 0
		for _, c := range l.m {
			if c == 1 {
				pos++
			} else if c == -1 {
				neg++
			} else {
				ok = false
			}
		}
		if ok && pos <= 1 && neg <= 1 {
			z.addLe(d)
			z.addLe(mkScale(d, -1))
			return
		}
	}
	if u, ok := z.upper(v); ok {
		z.addLe(mkSub(x, mkInt(u)))
	}
	if lo, ok := z.lower(v); ok {
		z.addLe(mkSub(mkInt(lo), x))
	}
}

// cellLives: the object a pseudo cell belongs to exists outside the loop.
func (j *joiner) cellLives(k string) bool {
	i := strings.IndexByte(k, ':')
	o := k[i+1:]
	if strings.HasPrefix(o, "o:") {
		base := o
		if s := strings.IndexByte(o, '^'); s >= 0 {
			base = o[:s]
		}
		_, ok := j.S0.heap[base]
		return ok
	}
	if _, ok := j.S0.heap["src:"+o]; ok {
		return true
	}
	if strings.HasPrefix(o, "rdr:") || strings.HasPrefix(o, "bld:") || strings.HasPrefix(o, "mi:") {
		return false
	}
	// keyed by term id
	if id, err := strconv.Atoi(o); err == nil && id > 0 && id <= len(termTab) {
		for s := range symsOf(termTab[id-1]) {
			if !j.S0syms[s] {
				return false
			}
		}
		return true
	}
	return true
}
func (j *joiner) liveBase(k string) bool {
	if strings.HasPrefix(k, "g:") {
		return true
	}
	b := derefBase[k]
	if b == nil {
		return false
	}
	for s := range symsOf(b) {
		if !j.S0syms[s] && !strings.HasPrefix(s.s, "φ"+j.key+"|") {
			return false
		}
	}
	return true
}

func (j *joiner) same(a, b *State) bool {
	for _, p := range j.headerPhis() {
		if a.top().m[p] != b.top().m[p] {
			return false
		}
	}
	if len(a.heap) != len(b.heap) {
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	if len(a.facts) != len(b.facts) {
		return false
	}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; !ok || v != w {
			return false
		}
	}
	if len(a.toks) != len(b.toks) {
		return false
	}
	for k := range a.toks {
		if _, ok := b.toks[k]; !ok {
			return false
		}
	}
	if len(a.fails) != len(b.fails) {
		return false
	}
	for k := range a.fails {
		if _, ok := b.fails[k]; !ok {
			return false
		}
	}
	return a.zone.equal(b.zone)
}

// finish records what the solved loop does per iteration and gives its symbols
// names that identify that behaviour.
func (j *joiner) finish(H *State, backs []item) *LoopInfo {
	info := &LoopInfo{entry: j.S0, fn: j.fr.fn, pos: loopPos(j.L), ctx: j.fr.ctx.s, phis: map[string]*PhiInfo{}}
	live := []string{}
	for _, l := range sortedKeys(j.phis) {
		if j.locValue(H, l) == j.phis[l] {
			live = append(live, l)
		}
	}
	keep := func(k string) bool {
		_, ok := j.S0.heap[k]
		return ok || strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "*")
	}
	inits := map[string]*Term{}
	for _, l := range live {
		inits[l] = j.S0.deep(j.locValue(j.S0, l), keep)
	}
	var copies [][]*Term
	for _, bk := range backs {
		it := &Iter{vals: map[string]*Term{}, facts: bk.st.facts, zone: bk.st.zone, pos: lastPos(bk.prev), toks: bk.st.toks, fails: map[*Term]*Fail{}}
		for e, f := range bk.st.fails {
			if _, ok := j.S0.fails[e]; !ok {
				it.fails[e] = f
			}
		}
		for _, l := range live {
			it.vals[l] = bk.st.deep(j.locValue(bk.st, l), keep)
		}
		it.prog = j.progress(H, bk.st, live, it)
		info.iters = append(info.iters, it)
		copies = append(copies, bk.st.copies)
	}
	j.recopied(live, info, copies)
	// iterations that do the same thing under the same conditions are one
	sig := func(it *Iter) string {
		var b strings.Builder
		for _, l := range live {
			fmt.Fprintf(&b, "%d,", it.vals[l].id)
		}
		for _, f := range sortedTerms(it.facts) {
			fmt.Fprintf(&b, "%d=%v,", f.id, it.facts[f])
		}
		return b.String()
	}
	sort.SliceStable(info.iters, func(a, b int) bool { return sig(info.iters[a]) < sig(info.iters[b]) })
	h := fnv.New64a()
	h.Write([]byte(j.key))
	for _, l := range live {
		fmt.Fprintf(h, "%s=%d;", l, inits[l].id)
	}
	for _, it := range info.iters {
		h.Write([]byte(sig(it)))
	}
	info.id = fmt.Sprintf("%s#%x", j.key, h.Sum64())
	j.ren = map[*Term]*Term{}
	for _, l := range live {
		old := j.phis[l]
		nw := mkSym("φ"+info.id+"|"+l, old.typ)
		j.ren[old] = nw
		if nonNegSym[old] {
			nonNegSym[nw] = true
		}
	}
	memo := map[*Term]*Term{}
	for _, l := range live {
		pi := &PhiInfo{loop: info, loc: l, init: inits[l], sym: j.ren[j.phis[l]]}
		info.phis[l] = pi
		phiReg[pi.sym] = pi
	}
	for _, it := range info.iters {
		for l, v := range it.vals {
			it.vals[l] = subst(v, j.ren, memo)
		}
		nf := map[*Term]bool{}
		for f, v := range it.facts {
			g := subst(f, j.ren, memo)
			if g.op == OApp && g.s == "not" {
				nf[g.args[0]] = !v
			} else {
				nf[g] = v
			}
		}
		it.facts = nf
		it.zone = renameZone(it.zone, j.ren, memo)
		it.st = newState()
		it.st.facts, it.st.zone, it.st.fails = it.facts, it.zone, it.fails
		for l, v := range it.vals {
			if strings.HasPrefix(l, "h:") && !strings.Contains(l, "/") {
				it.st.heap[l[2:]] = v
			}
		}
	}
	return info
}

// nested gives the loops solved during the last round their final names: what
// they mention of this loop is only known now.
func (j *joiner) nested(info *LoopInfo, evs []*Event) {
	var inner []*LoopInfo
	suffix := "~" + info.id[strings.LastIndexByte(info.id, '#')+1:]
	for _, e := range evs {
		if e.kind != "loop" || e.loop == info {
			continue
		}
		inner = append(inner, e.loop)
		for _, p := range e.loop.phis {
			if _, ok := j.ren[p.sym]; !ok {
				n := mkSym(strings.Replace(p.sym.s, "|", suffix+"|", 1), p.sym.typ)
				if nonNegSym[p.sym] {
					nonNegSym[n] = true
				}
				if d, ok := delimOf[p.sym]; ok {
					delimOf[n] = d
				}
				j.ren[p.sym] = n
			}
		}
	}
	if len(j.ren) == 0 {
		return
	}
	for _, l := range inner {
		l.rename(j.ren)
	}
	info.rename(j.ren)
}

func (l *LoopInfo) rename(ren map[*Term]*Term) {
	memo := map[*Term]*Term{}
	for _, p := range l.phis {
		p.init = subst(p.init, ren, memo)
		if n, ok := ren[p.sym]; ok {
			p.sym = n
		}
		phiReg[p.sym] = p
	}
	l.entry = l.entry.clone()
	l.entry.rename(ren)
	for _, it := range l.iters {
		for k, v := range it.vals {
			it.vals[k] = subst(v, ren, memo)
		}
		it.st = it.st.clone()
		it.st.rename(ren)
		it.facts, it.zone, it.fails = it.st.facts, it.st.zone, it.st.fails
	}
}

func unionTerms(a, b []*Term) []*Term {
	if len(b) == 0 {
		return a
	}
	seen := map[*Term]bool{}
	r := make([]*Term, 0, len(a)+len(b))
	for _, l := range [][]*Term{a, b} {
		for _, t := range l {
			if !seen[t] && len(r) < 200 {
				seen[t] = true
				r = append(r, t)
			}
		}
	}
	return r
}

// holdsAll: t contains all of ph but for a bounded part.
func holdsAll(t, ph *Term, depth int) bool {
	if t == ph {
		return true
	}
	if depth > 8 || !symsOf(t)[ph] && phiReg[t] == nil && t.op != OCat {
		return false
	}
	if p, ok := phiReg[t]; ok {
		if p.init == nil || !holdsAll(p.init, ph, depth+1) {
			return false
		}
		for _, it := range p.loop.iters {
			if v := it.vals[p.loc]; v == nil || !holdsAll(v, t, depth+1) {
				return false
			}
		}
		return true
	}
	if x, lo, hi := subParts(t); x != nil {
		if _, ok := isInt(lo); !ok {
			return false
		}
		_, ok := isInt(mkSub(mkLen(x), hi))
		return ok && holdsAll(x, ph, depth+1)
	}
	if t.op == OCat {
		for _, a := range t.args {
			if holdsAll(a, ph, depth+1) {
				return true
			}
		}
	}
	return false
}

// amortized: the iteration copies because room ran out, or grows the text by as
// much as there is of it already: such copies add up to a multiple of the text.
func amortized(it *Iter, l string, ph *Term) bool {
	for f := range it.facts {
		if mentionsCap(f) {
			return true
		}
	}
	v := it.vals[l]
	if v.op != OCat {
		return false
	}
	for _, a := range v.args {
		if a != ph && symsOf(mkLen(a))[ph] {
			return true
		}
	}
	return false
}

func mentionsCap(t *Term) bool {
	if t.op == OApp && t.s == "cap" {
		return true
	}
	for _, a := range t.args {
		if mentionsCap(a) {
			return true
		}
	}
	return false
}

// recopied reports text that grows from one iteration to the next and that some
// iteration copies whole without starting it afresh.
func (j *joiner) recopied(live []string, info *LoopInfo, copies [][]*Term) {
	for _, l := range live {
		if !strings.HasPrefix(l, "r:") && !strings.HasPrefix(l, "h:o:") && !strings.HasPrefix(l, "h:buf:") {
			continue
		}
		ph := j.phis[l]
		grows := false
		for _, it := range info.iters {
			if v := it.vals[l]; v.op == OCat && len(v.args) > 1 && holdsAll(v, ph, 0) {
				grows = true
			}
		}
		if !grows {
			continue
		}
		for i, it := range info.iters {
			if !holdsAll(it.vals[l], ph, 0) || amortized(it, l, ph) {
				continue
			}
			for _, t := range copies[i] {
				if holdsAll(t, ph, 0) {
					it.quad = append(it.quad, "all that "+l[2:]+" has gathered is copied again on every iteration")
					break
				}
			}
		}
	}
}

// progress explains why an iteration cannot repeat forever.
func (j *joiner) progress(H *State, b *State, live []string, it *Iter) []string {
	var why []string
	for _, l := range live {
		ph := j.phis[l]
		v := j.locValue(b, l)
		switch {
		case strings.HasPrefix(l, "h:rd:"):
			if n, ok := extends(v, ph, b, 0); ok && n > 0 {
				why = append(why, "consumes input")
			}
		case strings.HasPrefix(l, "h:it:"), strings.HasPrefix(l, "h:miter:"):
			if n, ok := extends(v, ph, b, 0); ok && n > 0 {
				why = append(why, "advances an iterator")
			}
		case isNumericType(ph.typ):
			d := mkSub(v, ph)
			if lo, ok := b.zone.lower(d); ok && lo >= 1 && j.boundedAbove(H, b, ph, v) {
				why = append(why, "counts up to a bound")
			} else if hi, ok := b.zone.upper(d); ok && hi <= -1 && j.boundedBelow(H, b, ph, v) {
				why = append(why, "counts down to a bound")
			}
		default:
			if x, _, _ := subParts(v); x == ph && hasLen(ph.typ) {
				d := mkSub(mkLen(v), mkLen(ph))
				if hi, ok := b.zone.upper(d); ok && hi <= -1 {
					why = append(why, "shortens what is left")
				}
			}
		}
		// repeated copying
		if strings.HasPrefix(l, "r:") && ph.typ != nil {
			if bt, ok := ph.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				if v.op == OCat && len(v.args) > 1 {
					for _, a := range v.args {
						if a == ph {
							it.quad = append(it.quad, "string "+l[2:]+" is copied and extended on every iteration")
						}
					}
				}
			}
		}
		if strings.HasPrefix(l, "h:o:") && ph.typ != nil {
			if bt, ok := ph.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && v.op == OCat && len(v.args) > 1 {
				for _, a := range v.args {
					if a == ph {
						it.quad = append(it.quad, "a string is copied and extended on every iteration")
					}
				}
			}
		}
	}
	return why
}

// extends: v is ph followed by at least n more, possibly built by inner loops.
func extends(v, ph *Term, st *State, depth int) (int64, bool) {
	if v == ph {
		return 0, true
	}
	if depth > 8 {
		return 0, false
	}
	if p, ok := phiReg[v]; ok {
		n, ok := extends(p.init, ph, p.loop.entry, depth+1)
		if !ok {
			return 0, false
		}
		for _, it := range p.loop.iters {
			if _, ok := extends(it.vals[p.loc], v, it.st, depth+1); !ok {
				return 0, false
			}
		}
		return n, true
	}
	if v.op != OCat || len(v.args) == 0 {
		return 0, false
	}
	n, ok := extends(v.args[0], ph, st, depth+1)
	if !ok {
		return 0, false
	}
	for _, a := range v.args[1:] {
		if a.op == OElem {
			n++
		} else if lo, ok := st.zone.lower(mkLen(a)); ok && lo > 0 {
			n += lo
		}
	}
	return n, true
}

func (j *joiner) invariant(n int) bool {
	if n == 0 {
		return true
	}
	for s := range symsOf(termTab[n-1]) {
		if !j.S0syms[s] {
			return false
		}
	}
	return true
}
func (j *joiner) boundedAbove(H, b *State, ph, v *Term) bool {
	for _, st := range []*State{b, H} {
		for n := range st.zone.nodes() {
			if !j.invariant(n) {
				continue
			}
			t := mkInt(0)
			if n != 0 {
				t = termTab[n-1]
			}
			if _, ok := st.zone.upper(mkSub(ph, t)); ok {
				return true
			}
			if st == b {
				if _, ok := st.zone.upper(mkSub(v, t)); ok {
					return true
				}
			}
		}
	}
	return j.boundedBySum(b, ph)
}

// boundedBySum: the iteration is under a test that keeps ph, together with things
// that do not change in the loop, below a bound.
func (j *joiner) boundedBySum(b *State, ph *Term) bool {
	for f, v := range b.facts {
		if f.op != OApp || f.s != "le0" {
			continue
		}
		l := linOf(f.args[0])
		c := l.m[ph]
		if len(l.m) < 3 || v && c <= 0 || !v && c >= 0 {
			continue
		}
		ok := true
		for a := range l.m {
			ok = ok && (a == ph || j.invariant(a.id))
		}
		if ok {
			return true
		}
	}
	return false
}

func (j *joiner) boundedBelow(H, b *State, ph, v *Term) bool {
	for _, st := range []*State{b, H} {
		for n := range st.zone.nodes() {
			if !j.invariant(n) {
				continue
			}
			t := mkInt(0)
			if n != 0 {
				t = termTab[n-1]
			}
			if _, ok := st.zone.lower(mkSub(ph, t)); ok {
				return true
			}
		}
	}
	return false
}

// deepAll expands pointers to anything local.
func (st *State) deepAll(t *Term) *Term {
	return st.deep(t, func(k string) bool {
		return strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "*") || strings.HasPrefix(k, "v:")
	})
}

// sameLoop: both stand for what the same loop carries.
func sameLoop(a, b *Term) bool {
	i, j := strings.IndexByte(a.s, '|'), strings.IndexByte(b.s, '|')
	return i > 0 && j > 0 && a.s[:i] == b.s[:j]
}

// accounts: value v holds all of the datum s, except bytes known to be literal.
func (st *State) accounts(v, s *Term) bool {
	full := false
	type rng struct{ lo, hi *Term }
	var rs []rng
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if full || seen[t] {
			return
		}
		if t == s {
			full = true
			return
		}
		seen[t] = true
		if x, lo, hi := subParts(t); x == s {
			rs = append(rs, rng{lo, hi})
			return
		}
		if t.op == OApp && (t.s == "len" || t.s == "byte") {
			return
		}
		// what a finished loop has put together from it
		if p, ok := phiReg[t]; ok && !isNumericType(t.typ) && !sameLoop(t, s) {
			rec(p.init)
			for _, it := range p.loop.iters {
				if v := it.vals[p.loc]; v != nil {
					rec(v)
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(v)
	if full {
		return true
	}
	if len(rs) == 0 {
		return false
	}
	known := st.bytesOf(s)
	for _, r := range rs {
		lo, ok := isInt(r.lo)
		if !ok || lo > 256 {
			continue
		}
		pre := true
		for k := int64(0); k < lo; k++ {
			if _, ok := known[k]; !ok {
				pre = false
			}
		}
		if !pre {
			continue
		}
		if r.hi == mkLen(s) {
			return true
		}
		// the tail must be a known literal too
		if d, ok := isInt(mkSub(mkLen(s), r.hi)); ok && d > 0 {
			tail := true
			for k := int64(0); k < d; k++ {
				found := false
				for f, v := range st.facts {
					if v && f.op == OApp && f.s == "at" && f.args[0] == s {
						if o, ok := isInt(mkSub(f.args[1], r.hi)); ok && o <= k && k < o+int64(len(f.args[2].s)) {
							found = true
						}
					}
				}
				if !found {
					tail = false
				}
			}
			if tail {
				return true
			}
		}
	}
	return false
}
