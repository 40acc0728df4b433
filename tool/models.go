package main

// Calls: the package's own functions are analysed in place; functions of other
// packages are modelled by what their documentation promises.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callOut struct {
	st  *State
	res *Term
}

type callCtx struct {
	fr   *Frame
	ins  ssa.Instruction
	com  *ssa.CallCommon
	st   *State
	args []*Term
	name string
	def  bool // deferred
	sig  *types.Signature
}

func (fr *Frame) callee(com *ssa.CallCommon, st *State) (*Term, []*Term) {
	var args []*Term
	if com.IsInvoke() {
		args = append(args, fr.eval(st, com.Value))
	}
	for _, a := range com.Args {
		args = append(args, fr.eval(st, a))
	}
	if com.IsInvoke() {
		return mkApp("invoke", mkStr(com.Method.Name())), args
	}
	return fr.eval(st, com.Value), args
}

func (fr *Frame) doCall(ins ssa.Instruction, com *ssa.CallCommon, st *State) []callOut {
	f, args := fr.callee(com, st)
	return fr.doCallWith(ins, com, st, f, args, false)
}

func (fr *Frame) doCallWith(ins ssa.Instruction, com *ssa.CallCommon, st *State, f *Term, args []*Term, def bool) []callOut {
	c := &callCtx{fr: fr, ins: ins, com: com, st: st, args: args, def: def, sig: com.Signature()}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return c.builtin(b.Name())
	}
	if com.IsInvoke() {
		return c.invoke(com.Method.Name(), com.Method)
	}
	switch f.op {
	case OFunc:
		return c.dispatch(f.fn.(*ssa.Function), nil)
	case OClos:
		return c.dispatch(f.fn.(*ssa.Function), f.args)
	}
	if !fr.checkNil(ins, st, f, "call") {
		return nil
	}
	fr.unsupported(ins, "call of an unknown function value "+f.String())
	return c.opaque("unknown", true)
}

func (c *callCtx) in() *Interp { return c.fr.in }

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (in *Interp) ours(fn *ssa.Function) bool {
	if fn.Pkg == in.pkg {
		return true
	}
	if o := fn.Origin(); o != nil && o.Pkg == in.pkg {
		return true
	}
	if fn.Pkg == nil && len(fn.Blocks) > 0 {
		// wrappers and thunks
		if ob := fn.Object(); ob != nil && ob.Pkg() == in.pkg.Pkg {
			return true
		}
		if fn.Synthetic != "" && strings.Contains(fn.String(), in.pkg.Pkg.Path()) {
			return true
		}
		// method values and method expressions of any package's methods: all
		// they do is call the method, which has its own model
		if fn.Origin() == nil && (strings.HasPrefix(fn.Synthetic, "thunk for") || strings.HasPrefix(fn.Synthetic, "bound method wrapper")) {
			return true
		}
	}
	return false
}

func (c *callCtx) dispatch(fn *ssa.Function, binds []*Term) []callOut {
	in := c.in()
	c.name = fnName(fn)
	if m, ok := in.summaries[c.name]; ok {
		return m(c)
	}
	if in.ours(fn) {
		if in.gen[fn] && !(in.inlineGen != nil && in.inlineGen(fn)) {
			if outs, ok := c.protocol(fn); ok {
				return outs
			}
		}
		outs := in.call(c.st, fn, c.args, binds, in.sub(c.fr.ctx, c.fr.site(c.ins)))
		var r []callOut
		for _, o := range outs {
			r = append(r, callOut{o.st, pack(o.res)})
		}
		return r
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic == "package initializer" {
		return []callOut{{c.st, tNil}}
	}
	in.calls[c.name]++
	if m, ok := models[c.name]; ok {
		outs := m(c)
		if copying[c.name] {
			for i := range outs {
				if r := outs[i].res; r != nil && (r.typ == nil || !isNumericType(r.typ)) {
					outs[i].st.copied(r)
				}
			}
		}
		return outs
	}
	// methods of other packages' types reached statically
	if fn.Signature.Recv() != nil {
		if m, ok := methodModels[fn.Name()]; ok && isNodeIface(fn.Signature.Recv().Type()) {
			return m(c)
		}
	}
	in.event(&Event{kind: "extern", pos: instrPos(c.ins), fn: c.fr.fn, ctx: c.fr.ctx.s, msg: c.name})
	return c.opaque(c.name, true)
}

func isNodeIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/ipld/go-ipld-prime")
}

func pack(rs []*Term) *Term {
	switch len(rs) {
	case 0:
		return tNil
	case 1:
		return rs[0]
	}
	return mkTuple(rs...)
}

func (c *callCtx) fresh(what string, t types.Type) *Term { return c.fr.fresh(c.ins, what, t) }

func (c *callCtx) ret(st *State, rs ...*Term) callOut { return callOut{st, pack(rs)} }

// failing makes an error result that must reach the caller.
func (c *callCtx) failing(st *State, kind string, arg string, partial *Term) *Term {
	e := c.fresh("err:"+shortName(c.name), errType)
	for f := range st.facts {
		if symsOf(f)[e] {
			delete(st.facts, f)
		}
	}
	st.facts[mkApp("isnil", e)] = false
	switch kind {
	case "read", "call", "write", "close":
	default:
		// only readers and writers report the end of input
		st.facts[mkEq(e, ioEOF())] = false
		st.facts[mkEq(e, ioUEOF())] = false
	}
	st.fails[e] = &Fail{site: c.in().pos(instrPos(c.ins)), callee: c.name, err: e, partial: partial, kind: kind, arg: arg, args: c.args}
	return e
}

var errType = types.Universe.Lookup("error").Type()

func ioEOF() *Term { return mk(OApp, "global", 0, []*Term{mkStr("io.EOF")}, nil, objType["g:io.EOF"]) }
func ioUEOF() *Term {
	return mk(OApp, "global", 0, []*Term{mkStr("io.ErrUnexpectedEOF")}, nil, objType["g:io.ErrUnexpectedEOF"])
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// opaque: nothing is known of the result; an error result may be nil or not.
func (c *callCtx) opaque(name string, havoc bool) []callOut {
	st := c.st
	if havoc {
		for _, a := range c.args {
			v := a
			if v.op == OIface {
				v = v.args[0]
			}
			if v.op == OPtr && !strings.HasPrefix(v.s, "g:") {
				if _, ok := st.heap[v.s]; ok {
					st.heap[v.s] = c.fresh("havoc", objType[v.s])
				}
				for k := range st.heap {
					if k == "buf:"+v.s || strings.HasPrefix(k, "buf:"+v.s+"^") {
						st.heap[k] = c.fresh("havocbuf", nil)
					}
				}
			}
		}
	}
	res := c.sig.Results()
	mkRes := func(st *State, err *Term) callOut {
		var rs []*Term
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if i == res.Len()-1 && types.Identical(t, errType) && err != nil {
				rs = append(rs, err)
				continue
			}
			s := c.fresh(fmt.Sprintf("%s.%d", shortName(name), i), t)
			rs = append(rs, s)
			if err == tNil && res.Len() > 1 {
				st.assume(mkApp("isnil", s), false)
			}
		}
		return callOut{st, pack(rs)}
	}
	if n := res.Len(); n > 0 && types.Identical(res.At(n-1).Type(), errType) {
		c.name = name
		s2 := st.clone()
		e := c.failing(s2, "call", "", nil)
		return []callOut{mkRes(st, tNil), mkRes(s2, e)}
	}
	return []callOut{mkRes(st, nil)}
}

func (c *callCtx) val(i int) *Term { return c.st.value(c.args[i]) }

// pure returns a function term.
func (c *callCtx) pure(f string, args ...*Term) []callOut {
	t := mk(OApp, f, 0, args, nil, resType(c.sig))
	return []callOut{{c.st, t}}
}
func resType(s *types.Signature) types.Type {
	if s.Results().Len() >= 1 {
		return s.Results().At(0).Type()
	}
	return nil
}

// orFail: success with v, or an error.
func (c *callCtx) orFail(v *Term, zero *Term, kind string) []callOut {
	s2 := c.st.clone()
	e := c.failing(s2, kind, "", nil)
	s2.fails[e].of = v
	return []callOut{c.ret(c.st, v, tNil), c.ret(s2, zero, e)}
}

// split on a condition
func (c *callCtx) cases(cond *Term, yes, no func(*State) []callOut) []callOut {
	if v, ok := c.st.known(cond); ok {
		if v {
			return yes(c.st)
		}
		return no(c.st)
	}
	s2 := c.st.clone()
	var r []callOut
	if c.st.assume(cond, true) {
		r = append(r, yes(c.st)...)
	}
	if s2.assume(cond, false) {
		r = append(r, no(s2)...)
	}
	return r
}

func (c *callCtx) need(st *State, kind string, cond *Term, msg string) bool {
	v, ok := st.known(cond)
	c.fr.oblig(c.ins, st, kind, ok && v, msg)
	if ok && v {
		return true
	}
	return st.assume(cond, true)
}

func (c *callCtx) builtin(name string) []callOut {
	st := c.st
	switch name {
	case "len", "cap":
		a := c.args[0]
		if _, ok := c.com.Args[0].Type().Underlying().(*types.Map); ok {
			if a.op == OPtr {
				a = st.content(a.s)
			}
			if a.op == OApp && a.s == "map" {
				return []callOut{{st, mkInt(int64(len(a.args) / 2))}}
			}
			return []callOut{{st, mkApp("len", a)}}
		}
		if p, ok := c.com.Args[0].Type().Underlying().(*types.Pointer); ok {
			return []callOut{{st, mkInt(p.Elem().Underlying().(*types.Array).Len())}}
		}
		if name == "cap" {
			t := mkApp("cap", a)
			st.assume(mkLe(mkLen(a), t), true)
			return []callOut{{st, t}}
		}
		return []callOut{{st, mkLen(a)}}
	case "append":
		a := st.value(c.args[0])
		if len(c.args) < 2 {
			return []callOut{{st, a}}
		}
		b := st.value(c.args[1])
		if b.op == OStr && b.s == "" && a.op == ONil {
			return []callOut{{st, tNil}}
		}
		st.copied(b)
		return []callOut{{st, mkCat(a, b)}}
	case "copy":
		d, s := c.args[0], st.value(c.args[1])
		st.copied(s)
		if d.op == OSlice {
			if v, ok := st.known(mkEq(mkLen(d), mkLen(s))); ok && v {
				p := d.args[0]
				whole := st.load(p, nil)
				if d.args[1] == mkInt(0) && mkLen(whole) == d.args[2] {
					st.store(p, s, nil)
				} else {
					st.store(p, mkApp("copied", whole, d.args[1], s), nil)
				}
				return []callOut{{st, mkLen(s)}}
			}
			st.store(d.args[0], mkApp("copied", st.load(d.args[0], nil), d.args[1], s), nil)
		} else {
			c.in().event(&Event{kind: "mutate", pos: instrPos(c.ins), fn: c.fr.fn, ctx: c.fr.ctx.s, msg: "copy into " + d.String()})
		}
		n := c.fresh("copied", types.Typ[types.Int])
		st.assume(mkLe(mkInt(0), n), true)
		st.assume(mkLe(n, mkLen(s)), true)
		st.assume(mkLe(n, mkLen(d)), true)
		return []callOut{{st, n}}
	case "min", "max":
		r := c.args[0]
		for _, b := range c.args[1:] {
			a := r
			x, y := a, b
			if name == "max" {
				x, y = b, a
			}
			if v, ok := st.known(mkLe(a, b)); ok {
				if v {
					r = x
				} else {
					r = y
				}
				continue
			}
			r = mk(OApp, name, 0, []*Term{a, b}, nil, resType(c.sig))
			if name == "min" {
				st.assume(mkLe(r, a), true)
				st.assume(mkLe(r, b), true)
				if v, ok := st.known(mkLe(mkInt(0), a)); ok && v {
					if v, ok := st.known(mkLe(mkInt(0), b)); ok && v {
						st.assume(mkLe(mkInt(0), r), true)
					}
				}
			} else {
				st.assume(mkLe(a, r), true)
				st.assume(mkLe(b, r), true)
			}
		}
		return []callOut{{st, r}}
	case "print", "println":
		c.in().event(&Event{kind: "extern", pos: instrPos(c.ins), fn: c.fr.fn, msg: "builtin " + name})
		return []callOut{{st, tNil}}
	case "recover":
		return []callOut{{st, tNil}}
	case "ssa:wrapnilchk":
		if !c.fr.checkNil(c.ins, st, c.args[0], "method call") {
			return nil
		}
		return []callOut{{st, c.args[0]}}
	case "delete", "clear", "close":
		c.fr.unsupported(c.ins, "builtin "+name)
		return []callOut{{st, tNil}}
	}
	c.fr.unsupported(c.ins, "builtin "+name)
	return []callOut{{st, c.fresh(name, nil)}}
}

func unwrap(t *Term) *Term {
	for t.op == OIface {
		t = t.args[0]
	}
	return t
}

// invoke: call through an interface.
func (c *callCtx) invoke(name string, m *types.Func) []callOut {
	in := c.in()
	recv := c.args[0]
	if recv.op == OIface {
		fn := in.prog.LookupMethod(recv.typ, m.Pkg(), name)
		if fn != nil {
			c.args = append([]*Term{recv.args[0]}, c.args[1:]...)
			c.sig = fn.Signature
			return c.dispatch(fn, nil)
		}
	}
	if !c.fr.checkNil(c.ins, c.st, recv, "call of "+name) {
		return nil
	}
	c.name = "(" + types.TypeString(c.com.Value.Type(), nil) + ")." + name
	in.calls[c.name]++
	if mm, ok := methodModels[name]; ok {
		return mm(c)
	}
	in.event(&Event{kind: "extern", pos: instrPos(c.ins), fn: c.fr.fn, ctx: c.fr.ctx.s, msg: c.name})
	return c.opaque(c.name, true)
}

// protocol: generated code as seen from outside, per the data model's contract.
func (c *callCtx) protocol(fn *ssa.Function) ([]callOut, bool) {
	if fn.Signature.Recv() == nil {
		return nil, false
	}
	if fn.Name() == "NewBuilder" {
		c.in().calls[fn.String()]++
		return c.newBuilder(fn), true
	}
	switch fn.Name() {
	case "AssignNode", "AssignBytes", "AssignString", "AssignLink", "AssignNull", "AssignBool", "AssignInt", "AssignFloat",
		"BeginMap", "BeginList", "AssembleEntry", "AssembleKey", "AssembleValue", "Finish", "Build", "Reset",
		"LookupByString", "LookupByNode", "LookupByIndex", "LookupBySegment", "MapIterator", "ListIterator", "Kind", "Prototype", "Representation",
		"AsString", "AsBytes", "AsLink", "AsBool", "AsInt", "AsFloat", "IsNull", "IsAbsent", "Length":
		if !c.fr.checkNil(c.ins, c.st, c.args[0], "call of "+fn.Name()) {
			return nil, true
		}
		c.name = fn.String()
		if fn.Name() == "Kind" {
			break
		}
		if c.args[0].op == OPtr && (strings.HasPrefix(c.args[0].s, "o:")) {
			// a node or assembler held by value: model on its identity
		}
		return methodModels[fn.Name()](c), true
	}
	return nil, false
}

// dynamic type of what a prototype's builder builds
func (in *Interp) builtType(proto types.Type) types.Type {
	ret := func(fn *ssa.Function) types.Type {
		if fn == nil {
			return nil
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if r, ok := i.(*ssa.Return); ok && len(r.Results) == 1 {
					if m, ok := r.Results[0].(*ssa.MakeInterface); ok {
						return m.X.Type()
					}
					if call, ok := r.Results[0].(*ssa.Call); ok && call.Call.StaticCallee() != nil {
						f := call.Call.StaticCallee()
						for _, b := range f.Blocks {
							for _, i := range b.Instrs {
								if r, ok := i.(*ssa.Return); ok && len(r.Results) == 1 {
									if m, ok := r.Results[0].(*ssa.MakeInterface); ok {
										return m.X.Type()
									}
								}
							}
						}
					}
				}
			}
		}
		return nil
	}
	nb := in.prog.LookupMethod(proto, in.pkg.Pkg, "NewBuilder")
	b := ret(nb)
	if b == nil {
		return nil
	}
	return ret(in.prog.LookupMethod(b, in.pkg.Pkg, "Build"))
}

func (c *callCtx) newBuilder(fn *ssa.Function) []callOut {
	k := "bld:" + c.fr.ctx.s + ":" + c.fr.site(c.ins)
	pt := fn.Signature.Recv().Type()
	if p, ok := pt.(*types.Pointer); ok {
		pt = p.Elem()
	}
	c.st.heap["src:"+k] = mkApp("proto", mkStr(shortType(types.TypeString(pt, nil))))
	c.st.heap["ts:"+k] = mkStr("new")
	c.st.heap["asm:"+k] = tEList
	builderType[k] = c.in().builtType(pt)
	return []callOut{{c.st, mkPtr(k)}}
}

var builderType = map[string]types.Type{}

// keys of modelled objects
func keyOf(t *Term) string {
	t = unwrap(t)
	if t.op == OPtr {
		k := t.s
		for _, a := range t.args {
			k += "^" + a.String()
		}
		return k
	}
	return strconv.Itoa(t.id)
}

func (c *callCtx) cell(st *State, prefix, k string) *Term {
	if v, ok := st.heap[prefix+k]; ok {
		return v
	}
	return defaultCell(prefix + k)
}

// typestate of an assembler
func (c *callCtx) inState(k string, want ...string) {
	ts := c.cell(c.st, "ts:", k)
	ok := false
	for _, w := range want {
		if ts.op == OStr && ts.s == w {
			ok = true
		}
	}
	c.fr.oblig(c.ins, c.st, "assembler", ok, fmt.Sprintf("%s on an assembler that may be %s", shortName(c.name), ts))
}

func (c *callCtx) assign(kind string, v *Term) []callOut {
	k := keyOf(c.args[0])
	st := c.st
	v = st.deepAll(st.value(v))
	if kind == "node" {
		v = mkIfaceOr(v)
	}
	s2 := st.clone()
	switch {
	case strings.HasPrefix(k, "ent:"):
		own := k[4:]
		k = own
		c.inState(own, "mid")
		name := st.heap["pend:"+own]
		if name == nil {
			name = mkApp("noname")
		}
		st.heap["asm:"+own] = mkCat(c.cell(st, "asm:", own), mkElem(mkTuple(name, mkApp("assign:"+kind, v))))
		st.heap["ts:"+own] = mkStr("map")
		if l, ok := st.heap["kind:"+own]; ok && l.s == "list" {
			st.heap["asm:"+own] = mkCat(c.cell(s2, "asm:", own), mkElem(mkApp("assign:"+kind, v)))
			st.heap["ts:"+own] = mkStr("list")
		}
	case strings.HasPrefix(k, "key:"):
		own := k[4:]
		c.inState(own, "key")
		st.heap["pend:"+own] = v
		st.heap["ts:"+own] = mkStr("keyed")
	default:
		c.inState(k, "new")
		st.heap["asm:"+k] = mkCat(c.cell(st, "asm:", k), mkElem(mkApp("assign:"+kind, v)))
		st.heap["ts:"+k] = mkStr("done")
	}
	e := c.failing(s2, "assign", "", nil)
	return []callOut{{st, tNil}, {s2, e}}
}

func mkIfaceOr(v *Term) *Term { return v }

// readers

func (c *callCtx) newReader(src *Term) *Term {
	k := "rdr:" + c.fr.ctx.s + ":" + c.fr.site(c.ins)
	delete(c.st.heap, "rd:"+k)
	delete(c.st.heap, "eof:"+k)
	c.st.heap["src:"+k] = src
	c.st.heap["rd:"+k] = tEmpty
	c.st.heap["eof:"+k] = tFalse
	return mkPtr(k)
}

// limited resolves io.LimitReader wrappers: the reader, and the limit if any.
func (c *callCtx) limited(st *State, r *Term) (*Term, *Term) {
	r = unwrap(r)
	if r.op == OApp && r.s == "limrd" {
		return unwrap(r.args[0]), r.args[1]
	}
	if r.op == OPtr && objType[r.s] != nil && len(r.args) == 0 && objType[r.s].String() == "io.LimitedReader" {
		v := st.load(r, nil)
		return unwrap(mkField(v, 0, nil)), mkField(v, 1, types.Typ[types.Int64])
	}
	return r, nil
}

func (c *callCtx) consume(st *State, r *Term, data *Term) {
	k := "rd:" + keyOf(r)
	old := st.heap[k]
	if old == nil {
		old = tEmpty
	}
	st.heap[k] = mkCat(old, data)
}

func (c *callCtx) tok(st *State, s *Term, what string) {
	st.toks[s] = what + " read at " + c.in().pos(instrPos(c.ins))
}

// forget drops stale knowledge about a symbol that is being redefined.
func (c *callCtx) redefine(st *State, s *Term) *Term {
	delete(st.toks, s)
	return s
}

func (c *callCtx) readDelim() []callOut {
	d, ok := isInt(c.args[1])
	st := c.st
	r := unwrap(c.args[0])
	s := c.redefine(st, c.fresh("text", nil))
	var lit *Term
	if ok {
		lit = mkStr(string([]byte{byte(d)}))
		delimOf[s] = string([]byte{byte(d)})
	} else {
		lit = mkApp("chr", c.args[1])
	}
	s2 := st.clone()
	more := c.peeked(st, r)
	full := mkCat(s, lit)
	c.consume(st, r, full)
	c.tok(st, s, "text")
	st.facts[mkApp("isnil", s)] = false
	p := c.fresh("partial", nil)
	if more {
		s2.assume(mkLe(mkInt(1), mkLen(p)), true)
	}
	e := c.failing(s2, "read", keyOf(r), p)
	return []callOut{c.ret(st, full, tNil), c.ret(s2, p, e)}
}

// peeked: the next byte of r has been seen, so a read gets at least that.
func (c *callCtx) peeked(st *State, r *Term) bool {
	k := keyOf(r)
	d := c.cell(st, "rd:", k)
	for f, v := range st.facts {
		if v && f.op == OApp && f.s == "follows" && f.args[1] == d && f.args[2] == mkStr(k) {
			return true
		}
	}
	return false
}

var delimOf = map[*Term]string{} // text known not to contain its delimiter

// readAll reads to the end of r (or its limit) into a fresh datum.
func (c *callCtx) readAllInto(st *State, r *Term, use func(*State, *Term) []callOut, failRes func(*State, *Term, *Term) []callOut) []callOut {
	rd, lim := c.limited(st, r)
	s := c.redefine(st, c.fresh("all", nil))
	s2 := st.clone()
	c.consume(st, rd, s)
	c.tok(st, s, "data")
	if lim != nil {
		st.assume(mkLe(mkLen(s), lim), true)
	} else {
		st.heap["eof:"+keyOf(rd)] = tTrue
	}
	outs := use(st, s)
	p := c.fresh("partial", nil)
	e := c.failing(s2, "read", keyOf(rd), p)
	return append(outs, failRes(s2, p, e)...)
}

// writers

type wout struct {
	st  *State
	err *Term
}

func isBufType(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "*bytes.Buffer" || s == "*strings.Builder" || s == "*bufio.Writer"
}

// write appends data to a writer.
func (c *callCtx) write(st *State, w, data *Term) []wout {
	data = st.value(data)
	if w.op == OIface && isBufType(w.typ) {
		c.bufAppend(st, w.args[0], data)
		return []wout{{st, tNil}}
	}
	if w.op == OPtr {
		c.bufAppend(st, w, data)
		return []wout{{st, tNil}}
	}
	if w.op == OIface && w.typ != nil {
		// a writer of this package's own, or one embedded in it
		if fn := c.in().prog.LookupMethod(w.typ, nil, "Write"); fn != nil && c.in().ours(fn) {
			var r []wout
			for _, o := range c.in().call(st, fn, []*Term{w.args[0], data}, nil, c.in().sub(c.fr.ctx, c.fr.site(c.ins)+":Write")) {
				if len(o.res) == 2 {
					r = append(r, wout{o.st, o.res[1]})
				}
			}
			return r
		}
	}
	if isGlobalConst(w) {
		c.in().event(&Event{kind: "extern", pos: instrPos(c.ins), fn: c.fr.fn, ctx: c.fr.ctx.s, msg: "write to " + w.args[0].s})
		return []wout{{st, tNil}}
	}
	if !c.fr.checkNil(c.ins, st, w, "write") {
		return nil
	}
	k := "w:" + keyOf(w)
	old := st.heap[k]
	if old == nil {
		old = tEmpty
	}
	s2 := st.clone()
	st.heap[k] = mkCat(old, data)
	s2.heap[k] = mkCat(old, c.fresh("partwrite", nil))
	e := c.failing(s2, "write", keyOf(w), nil)
	return []wout{{st, tNil}, {s2, e}}
}

func (c *callCtx) bufContent(st *State, p *Term) *Term {
	if v, ok := st.heap["buf:"+keyOf(p)]; ok {
		return v
	}
	return tEmpty
}

// calls whose result is a fresh copy
var copying = map[string]bool{}

func init() {
	for _, n := range []string{
		"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Appendf", "(*bytes.Buffer).String",
		"bytes.Join", "strings.Join", "bytes.Clone", "strings.Clone", "slices.Clone", "slices.Concat", "slices.Insert", "append",
		"bytes.Repeat", "strings.Repeat", "bytes.ReplaceAll", "strings.ReplaceAll", "bytes.Replace", "strings.Replace",
	} {
		copying[n] = true
	}
}

func (c *callCtx) bufAppend(st *State, p, data *Term) {
	st.copied(data)
	st.heap["buf:"+keyOf(p)] = mkCat(c.bufContent(st, p), st.value(data))
}

// formatting

func (c *callCtx) list(t *Term) ([]*Term, bool) {
	v := c.st.value(t)
	if v == tNil || v == tEList {
		return nil, true
	}
	var r []*Term
	for _, a := range atoms(v) {
		if a.op != OElem {
			return nil, false
		}
		r = append(r, a.args[0])
	}
	return r, true
}

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "String" || n == "Error" || n == "Format" || n == "GoString" {
			return true
		}
	}
	return false
}

func (c *callCtx) fmtArg(verb byte, flags string, a *Term) *Term {
	if a.op != OIface {
		return mkApp("fmt%"+flags+string(verb), a)
	}
	t := a.typ
	v := c.st.value(a.args[0])
	if flags == "" && !hasStringer(t) {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
				return v
			case u.Info()&types.IsString != 0 && verb == 'x':
				return mkApp("hexenc", v)
			case u.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
				return mkItoa(v)
			case u.Info()&types.IsInteger != 0 && verb == 'c':
				if n, ok := isInt(v); ok {
					return mkStr(string(rune(n)))
				}
			}
		case *types.Slice:
			if isByteType(u.Elem()) {
				if verb == 's' {
					return v
				}
				if verb == 'x' {
					return mkApp("hexenc", v)
				}
			}
		}
	}
	return mkApp("fmt%"+flags+string(verb), v)
}

func mkItoa(v *Term) *Term {
	if n, ok := isInt(v); ok {
		return mkStr(strconv.FormatInt(n, 10))
	}
	return mkApp("itoa", v)
}

func (c *callCtx) sprintf(f *Term, args *Term) *Term {
	as, ok := c.list(args)
	if f.op != OStr || !ok {
		return mkApp("sprintf", f, c.st.value(args))
	}
	var ps []*Term
	s := f.s
	n := 0
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			ps = append(ps, mkStr(s[i:]))
			break
		}
		ps = append(ps, mkStr(s[i:i+j]))
		i += j + 1
		st := i
		for i < len(s) && strings.IndexByte("+-# 0123456789.[]*", s[i]) >= 0 {
			i++
		}
		if i >= len(s) {
			ps = append(ps, mkApp("badfmt"))
			break
		}
		flags := s[st:i]
		v := s[i]
		i++
		if v == '%' {
			ps = append(ps, mkStr("%"))
			continue
		}
		if strings.ContainsAny(flags, "*[") || n >= len(as) {
			return mkApp("sprintf", f, c.st.value(args))
		}
		ps = append(ps, c.fmtArg(v, flags, as[n]))
		n++
	}
	if n != len(as) {
		ps = append(ps, mkApp("badfmt"))
	}
	return mkCat(ps...)
}

// wrapped lists the errors that a format wraps.
func (c *callCtx) wrapped(f *Term, args *Term) (ws []*Term) {
	as, ok := c.list(args)
	if f.op != OStr || !ok {
		return nil
	}
	n := 0
	for i := 0; i < len(f.s); i++ {
		if f.s[i] != '%' {
			continue
		}
		for i++; i < len(f.s) && strings.IndexByte("+-# 0123456789.", f.s[i]) >= 0; i++ {
		}
		if i >= len(f.s) || f.s[i] == '%' {
			continue
		}
		if f.s[i] == '[' || f.s[i] == '*' {
			return ws
		}
		if f.s[i] == 'w' && n < len(as) {
			ws = append(ws, as[n])
		}
		n++
	}
	return ws
}

// errIs is errors.Is.
func errIs(e, target *Term) *Term {
	if e == target {
		return tTrue
	}
	if !isNewErr(e) {
		return mkEq(e, target)
	}
	switch len(e.args) {
	case 1:
		return tFalse
	case 2:
		return errIs(e.args[1], target)
	}
	return mkApp("erris", e, target)
}

func (c *callCtx) sprint(args *Term, ln bool) *Term {
	as, ok := c.list(args)
	if !ok {
		return mkApp("sprint", c.st.value(args))
	}
	isS := func(a *Term) bool {
		if a.op != OIface {
			return false
		}
		b, ok := a.typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	var ps []*Term
	for i, a := range as {
		if i > 0 && (ln || !isS(a) && !isS(as[i-1])) {
			ps = append(ps, mkStr(" "))
		}
		ps = append(ps, c.fmtArg('v', "", a))
	}
	if ln {
		ps = append(ps, mkStr("\n"))
	}
	return mkCat(ps...)
}

func (c *callCtx) writeRes(data *Term, ws []wout) []callOut {
	var r []callOut
	for _, w := range ws {
		n := mkLen(data)
		if w.err != tNil {
			n = c.fresh("nwritten", types.Typ[types.Int])
		}
		r = append(r, c.ret(w.st, n, w.err))
	}
	return r
}
