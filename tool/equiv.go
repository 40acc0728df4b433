package main

// Translation validation of the generated node implementations. Every function of the
// package that the schema generator emits is compared with the same function of a
// reference text. The comparison is over summaries: a function is a set of paths, each
// with the comparisons taken, the calls made with the memory they see, and what is
// returned and stored. Two functions agree when every two paths whose comparisons can
// hold together do the same. Values are hash-consed terms (value numbering); there is no
// solver and nothing is executed.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- terms

type eqE struct {
	op   string
	s    string
	args []*eqE
	c    constant.Value // op "const"
	id   int
}

type eqPool struct {
	m       map[string]*eqE
	domain  map[*eqE]map[string]bool // the constants a term can be
	dtype   map[*eqE]string
	domains map[string]map[string]bool // per type, nil where not bounded
}

func newEqPool() *eqPool {
	return &eqPool{m: map[string]*eqE{}, domain: map[*eqE]map[string]bool{}, dtype: map[*eqE]string{}, domains: map[string]map[string]bool{}}
}

// learnDomains finds the integer types of which the package only ever uses constants:
// the states of the assemblers.
func (p *eqPool) learnDomains(fns map[string]*ssa.Function, own *types.Package) {
	open := map[string]bool{}
	bounded := func(t types.Type) string {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || intKind(t) != "int" {
			return ""
		}
		if o := n.Obj(); o.Pkg() == own && !o.Exported() || o.Pkg() != nil && o.Pkg().Path() == schemaPath && o.Name() == "Maybe" {
			return typeKey(t)
		}
		return ""
	}
	add := func(k string, c constant.Value) {
		if p.domains[k] == nil {
			p.domains[k] = map[string]bool{p.num(0).String(): true}
		}
		p.domains[k][p.konst(c).String()] = true
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if v, ok := i.(ssa.Value); ok {
					switch v.(type) {
					case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.TypeAssert, *ssa.Lookup, *ssa.Next:
						if k := bounded(v.Type()); k != "" {
							open[k] = true
						}
					}
				}
				for _, o := range i.Operands(nil) {
					if c, ok := (*o).(*ssa.Const); ok && c.Value != nil {
						if k := bounded(c.Type()); k != "" {
							add(k, c.Value)
						}
					}
				}
			}
		}
	}
	for k := range open {
		p.domains[k] = nil
	}
}

// forget drops what values can be: a term means another value in another function.
func (p *eqPool) forget() {
	p.domain, p.dtype = map[*eqE]map[string]bool{}, map[*eqE]string{}
}

// note records what a value of a bounded type can be.
func (p *eqPool) note(e *eqE, t types.Type) {
	if e.isConst() {
		return
	}
	// a term is named by where its value comes from: two types of one term bound nothing
	defer func(k string) {
		if o, ok := p.dtype[e]; ok && o != k {
			k, p.domain[e] = "-", nil
		}
		p.dtype[e] = k
	}(typeKey(t))
	if n, ok := types.Unalias(t).(*types.Named); ok && intKind(n) == "int" {
		if d := p.domains[typeKey(n)]; d != nil {
			p.domain[e] = d
		}
	}
}

func (p *eqPool) raw(op, s string, c constant.Value, args ...*eqE) *eqE {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(s)
	for _, a := range args {
		b.WriteByte(0)
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if e, ok := p.m[k]; ok {
		return e
	}
	e := &eqE{op: op, s: s, args: args, c: c, id: len(p.m)}
	p.m[k] = e
	return e
}

func (p *eqPool) konst(v constant.Value) *eqE {
	if v == nil {
		return p.raw("nil", "", nil)
	}
	if v.Kind() == constant.Float {
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			v = i
		}
	}
	return p.raw("const", fmt.Sprintf("%d:%s", v.Kind(), v.ExactString()), v)
}
func (p *eqPool) num(i int64) *eqE  { return p.konst(constant.MakeInt64(i)) }
func (p *eqPool) boolE(b bool) *eqE { return p.konst(constant.MakeBool(b)) }

func (e *eqE) isConst() bool { return e.op == "const" || e.op == "nil" }
func (e *eqE) bool() (val, ok bool) {
	if e.op == "const" && e.c.Kind() == constant.Bool {
		return constant.BoolVal(e.c), true
	}
	return false, false
}
func (e *eqE) int() (int64, bool) {
	if e.op == "const" && e.c.Kind() == constant.Int {
		return constant.Int64Val(e.c)
	}
	return 0, false
}

func (e *eqE) String() string {
	switch e.op {
	case "const":
		return e.c.ExactString()
	case "nil":
		return "nil"
	}
	var a []string
	for _, x := range e.args {
		a = append(a, x.String())
	}
	s := e.op
	switch e.op {
	case "param", "global", "func", "alloc", "esc", "res", "phi":
		s = ""
	case "fa", "field":
		return a[0] + "." + e.s
	case "load":
		return "*" + a[0]
	}
	if e.s != "" {
		if s != "" {
			s += ":"
		}
		s += e.s
	}
	if len(a) > 0 {
		s += "(" + strings.Join(a, ", ") + ")"
	}
	return s
}

// mk builds a term in normal form.
func (p *eqPool) mk(op, s string, args ...*eqE) *eqE {
	switch op {
	case "field":
		if x := args[0]; x.op == "struct" {
			for i, n := range strings.Split(x.s, ",")[1:] {
				if n == s {
					return x.args[i]
				}
			}
		}
	case "struct": // struct(field(x,f1), field(x,f2)…) is x
		names := strings.Split(s, ",")[1:]
		if len(args) > 0 {
			var x *eqE
			for i, a := range args {
				if a.op != "field" || a.s != names[i] || (x != nil && a.args[0] != x) {
					x = nil
					break
				}
				x = a.args[0]
				if i == len(args)-1 {
					return x
				}
			}
		}
	case "extract":
		if x := args[0]; x.op == "tuple" {
			i, _ := strconv.Atoi(s)
			return x.args[i]
		}
	case "index":
		if x := args[0]; x.op == "arr" {
			if i, ok := args[1].int(); ok && i >= 0 && int(i) < len(x.args) {
				return x.args[i]
			}
		}
	case "not":
		if b, ok := args[0].bool(); ok {
			return p.boolE(!b)
		}
		if args[0].op == "not" {
			return args[0].args[0]
		}
	case "eq":
		x, y := args[0], args[1]
		if x == y {
			return p.boolE(true)
		}
		if x.isConst() && !y.isConst() {
			x, y = y, x
		} else if !y.isConst() && x.id > y.id {
			x, y = y, x
		}
		if x.op == "const" && y.op == "const" {
			if x.c.Kind() == y.c.Kind() {
				return p.boolE(constant.Compare(x.c, token.EQL, y.c))
			}
		}
		if y.op == "nil" {
			switch x.op {
			case "alloc", "esc", "fa", "ia", "global", "iface", "func", "closure":
				return p.boolE(false)
			}
		}
		if b, ok := y.bool(); ok {
			if b {
				return x
			}
			return p.mk("not", "", x)
		}
		if y.op == "const" && x.op == "iface" && x.args[0].op != "const" {
			break
		}
		return p.raw("eq", "", nil, x, y)
	case "lt":
		if args[0] == args[1] {
			return p.boolE(false)
		}
		if args[0].op == "const" && args[1].op == "const" {
			return p.boolE(constant.Compare(args[0].c, token.LSS, args[1].c))
		}
		// x < c is kept; c < x is not (x < c+1) for integers
		if n, ok := args[0].int(); ok && s == "int" {
			return p.mk("not", "", p.mk("lt", s, args[1], p.num(n+1)))
		}
	case "add", "mul", "and", "or":
		x, y := args[0], args[1]
		if x.op == "const" && y.op == "const" {
			if v := foldInt(op, x, y); v != nil {
				return p.konst(v)
			}
		}
		if s != "string" {
			if x.isConst() || (!y.isConst() && x.id > y.id) {
				x, y = y, x
			}
			if n, ok := y.int(); ok && op == "add" {
				if n == 0 {
					return x
				}
				if x.op == "add" && x.s == s {
					if m, ok := x.args[1].int(); ok {
						return p.mk("add", s, x.args[0], p.num(n+m))
					}
				}
			}
			if n, ok := y.int(); ok && n == 0 && op == "or" {
				return x
			}
			return p.raw(op, s, nil, x, y)
		}
	case "sub":
		if n, ok := args[1].int(); ok {
			return p.mk("add", s, args[0], p.num(-n))
		}
	case "len":
		switch x := args[0]; x.op {
		case "list", "arr":
			return p.num(int64(len(x.args)))
		case "const":
			if x.c.Kind() == constant.String {
				return p.num(int64(len(constant.StringVal(x.c))))
			}
		case "nil":
			return p.num(0)
		}
	case "conv":
		if x := args[0]; x.op == "const" && x.c.Kind() == constant.Int && (strings.HasPrefix(s, "int") || strings.HasPrefix(s, "uint")) {
			if n, ok := x.int(); ok && n >= 0 && n < 128 {
				return x
			}
		}
	case "append":
		x, y := args[0], args[1]
		if y.op == "nil" || (y.op == "list" && len(y.args) == 0) {
			return x
		}
		if x.op == "append" && x.args[1].op == "list" && y.op == "list" {
			return p.mk("append", "", x.args[0], p.raw("list", "", nil, append(append([]*eqE{}, x.args[1].args...), y.args...)...))
		}
		if (x.op == "nil" || x.op == "list" && len(x.args) == 0 || x.op == "make") && y.op == "list" {
			return y
		}
		if x.op == "list" && y.op == "list" {
			return p.raw("list", "", nil, append(append([]*eqE{}, x.args...), y.args...)...)
		}
	case "taok":
		if x := args[0]; x.op == "iface" {
			return p.boolE(x.s == s)
		} else if x.op == "nil" {
			return p.boolE(false)
		}
	case "ta":
		if x := args[0]; x.op == "iface" && x.s == s {
			return x.args[0]
		}
	}
	return p.raw(op, s, nil, args...)
}

func foldInt(op string, x, y *eqE) constant.Value {
	if x.c.Kind() == constant.String && y.c.Kind() == constant.String && op == "add" {
		return constant.BinaryOp(x.c, token.ADD, y.c)
	}
	if x.c.Kind() != constant.Int || y.c.Kind() != constant.Int {
		return nil
	}
	switch op {
	case "add":
		return constant.BinaryOp(x.c, token.ADD, y.c)
	case "mul":
		return constant.BinaryOp(x.c, token.MUL, y.c)
	case "and":
		return constant.BinaryOp(x.c, token.AND, y.c)
	case "or":
		return constant.BinaryOp(x.c, token.OR, y.c)
	}
	return nil
}

// rebuild replaces subterms.
func (p *eqPool) rebuild(e *eqE, env map[*eqE]*eqE, memo map[*eqE]*eqE) *eqE {
	if r, ok := memo[e]; ok {
		return r
	}
	if r, ok := env[e]; ok {
		memo[e] = r
		return r
	}
	if len(e.args) == 0 {
		return e
	}
	args := make([]*eqE, len(e.args))
	changed := false
	for i, a := range e.args {
		args[i] = p.rebuild(a, env, memo)
		changed = changed || args[i] != a
	}
	r := e
	if changed {
		r = p.mk(e.op, e.s, args...)
		if x, ok := env[r]; ok {
			r = x
		}
	}
	if r.op == "or" { // x|c is x+c where the bits of c are known to be clear in x
		if _, ok := r.args[1].int(); ok {
			if z, ok := env[p.mk("and", r.s, r.args[0], r.args[1])]; ok && z == p.num(0) {
				r = p.mk("add", r.s, r.args[0], r.args[1])
			}
		}
	}
	memo[e] = r
	return r
}

// ---- names

// typeKey prints a type with all aliases resolved.
func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.Named:
		s := t.Obj().Name()
		if t.Obj().Pkg() != nil {
			s = t.Obj().Pkg().Path() + "." + s
		}
		if a := t.TypeArgs(); a != nil {
			for i := 0; i < a.Len(); i++ {
				s += "|" + typeKey(a.At(i))
			}
		}
		return s
	case *types.Pointer:
		return "*" + typeKey(t.Elem())
	case *types.Slice:
		return "[]" + typeKey(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), typeKey(t.Elem()))
	case *types.Map:
		return "map[" + typeKey(t.Key()) + "]" + typeKey(t.Elem())
	case *types.Chan:
		return "chan " + typeKey(t.Elem())
	case *types.Struct:
		var b []string
		for i := 0; i < t.NumFields(); i++ {
			b = append(b, t.Field(i).Name()+" "+typeKey(t.Field(i).Type()))
		}
		return "struct{" + strings.Join(b, ";") + "}"
	case *types.Tuple:
		var b []string
		for i := 0; i < t.Len(); i++ {
			b = append(b, typeKey(t.At(i).Type()))
		}
		return "(" + strings.Join(b, ",") + ")"
	case *types.Signature:
		return "func" + typeKey(t.Params()) + typeKey(t.Results())
	}
	return t.String()
}

const (
	primePath = "github.com/ipld/go-ipld-prime"
	modelPath = "github.com/ipld/go-ipld-prime/datamodel"

	schemaPath = "github.com/ipld/go-ipld-prime/schema"
)

// extName names something of another package; the root package of go-ipld-prime
// passes on what datamodel declares.
func extName(pkg, name string) string {
	if pkg == primePath {
		pkg = modelPath
	}
	return pkg + "." + name
}

func fnKey(fn *ssa.Function, pkg *types.Package) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	s := fn.RelString(pkg)
	if v := fn.Signature.Recv(); v != nil && fn.Pkg != nil && fn.Pkg.Pkg == pkg && fn.Parent() == nil && fn.Synthetic == "" {
		star := ""
		if _, ok := types.Unalias(v.Type()).(*types.Pointer); ok {
			star = "*"
		}
		s = "(" + star + recvName(fn) + ")." + fn.Name()
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == primePath && fn.Signature.Recv() == nil {
		s = extName(primePath, fn.Name())
	}
	return s
}

// ---- paths

type eqLit struct {
	e   *eqE
	val bool
}

type eqCell struct{ addr, val *eqE }

type eqEffect struct {
	what string
	args []*eqE
	mem  []eqCell
}

type eqLeaf struct {
	kind    string
	pos     token.Pos
	lits    []eqLit
	effects []eqEffect
	res     []*eqE
	mem     []eqCell
	loops   bool
	never   bool // panics with "unreachable"
}

type eqFrame struct {
	fn     *ssa.Function
	id     int
	up     *eqFrame
	free   []*eqE
	heads  map[*ssa.BasicBlock]bool
	depth  int
	ret    func(st *eqState, res []*eqE)
	callee string
}

type eqKey struct {
	fr int
	v  ssa.Value
}
type eqHead struct {
	fr int
	b  *ssa.BasicBlock
}

type eqState struct {
	vals    map[eqKey]*eqE
	log     []eqCell
	ver     int
	effects []eqEffect
	lits    []eqLit
	known   map[*eqE]bool
	nalloc  int
	escaped map[*eqE]int
	stale   map[*eqE]bool // escaped allocations another may have changed
	cut     map[eqHead]string
	turns   map[eqHead]int
	nloop   int
	mver    int // map updates so far
}

func (s *eqState) clone() *eqState {
	c := *s
	c.vals = make(map[eqKey]*eqE, len(s.vals))
	for k, v := range s.vals {
		c.vals[k] = v
	}
	c.log = append([]eqCell{}, s.log...)
	c.effects = append([]eqEffect{}, s.effects...)
	c.lits = append([]eqLit{}, s.lits...)
	c.known = map[*eqE]bool{}
	for k, v := range s.known {
		c.known[k] = v
	}
	c.escaped = map[*eqE]int{}
	for k, v := range s.escaped {
		c.escaped[k] = v
	}
	c.stale = map[*eqE]bool{}
	for k, v := range s.stale {
		c.stale[k] = v
	}
	c.cut = map[eqHead]string{}
	for k, v := range s.cut {
		c.cut[k] = v
	}
	c.turns = map[eqHead]int{}
	for k, v := range s.turns {
		c.turns[k] = v
	}
	return &c
}

type eqGiveUp struct{ why string }

// eqRun summarises functions of one program.
type eqRun struct {
	p       *eqPool
	P       *Program
	pkg     *ssa.Package
	common  func(name string) bool // functions compared by themselves
	globals func(name string) bool // variables compared by themselves
	written map[string]bool
	tables  map[*ssa.Global]bool
	initLog []eqCell
	leaves  []eqLeaf
	nframe  int
	steps   int
	inInit  bool
	reading bool            // the function shows nodes and does not build them
	force   map[string]bool // common functions to look into all the same
	asked   map[string]bool // common functions called and not looked into
	heads   map[*ssa.Function]map[*ssa.BasicBlock]bool
}

func (r *eqRun) giveUp(f string, a ...any) { panic(eqGiveUp{fmt.Sprintf(f, a...)}) }

// summary lists the paths of a function.
func (r *eqRun) summary(fn *ssa.Function) (ls []eqLeaf, err string) {
	defer func() {
		if e := recover(); e != nil {
			g, ok := e.(eqGiveUp)
			if !ok {
				panic(e)
			}
			err = g.why
		}
	}()
	r.leaves, r.steps, r.nframe, r.asked = nil, 0, 0, map[string]bool{}
	st := &eqState{vals: map[eqKey]*eqE{}, known: map[*eqE]bool{}, escaped: map[*eqE]int{}, stale: map[*eqE]bool{}, cut: map[eqHead]string{}, turns: map[eqHead]int{}}
	var args []*eqE
	for i := range fn.Params {
		args = append(args, r.p.raw("param", fmt.Sprintf("#%d", i), nil))
	}
	r.enter(st, fn, args, nil, nil, "", func(st *eqState, res []*eqE) {
		r.leaf(st, "return", token.NoPos, res)
	})
	return r.leaves, ""
}

func (r *eqRun) leaf(st *eqState, kind string, pos token.Pos, res []*eqE) {
	if len(r.leaves) > 4000 {
		r.giveUp("more than 4000 paths")
	}
	for _, x := range res {
		r.escape(st, x)
	}
	// local names become the order in which they left the function
	env := map[*eqE]*eqE{}
	if r.reading {
		for a := range st.escaped {
			if src := r.copyOf(st, a); src != nil {
				env[a] = src
			}
		}
		var log []eqCell
		for _, c := range st.log {
			if b, _ := cellParts(c.addr); env[b] == nil {
				log = append(log, c)
			}
		}
		st.log = log
	}
	l := eqLeaf{kind: kind, pos: pos, res: res, mem: r.visible(st), effects: st.effects, lits: st.lits, loops: st.nloop > 0}
	for a, i := range st.escaped {
		if env[a] != nil {
			continue
		}
		env[a] = r.p.raw("esc", strconv.Itoa(i), nil)
	}
	memo := map[*eqE]*eqE{}
	sub := func(xs []*eqE) []*eqE {
		o := make([]*eqE, len(xs))
		for i, x := range xs {
			o[i] = r.p.rebuild(x, env, memo)
		}
		return o
	}
	subm := func(cs []eqCell) []eqCell {
		o := make([]eqCell, len(cs))
		for i, c := range cs {
			o[i] = eqCell{r.p.rebuild(c.addr, env, memo), r.p.rebuild(c.val, env, memo)}
		}
		return o
	}
	l.res = sub(l.res)
	l.mem = subm(l.mem)
	var ef []eqEffect
	for _, e := range l.effects {
		ef = append(ef, eqEffect{e.what, sub(e.args), subm(e.mem)})
	}
	l.effects = ef
	var lits []eqLit
	for _, x := range l.lits {
		lits = append(lits, eqLit{r.p.rebuild(x.e, env, memo), x.val})
	}
	l.lits = lits
	r.leaves = append(r.leaves, l)
}

// copyOf finds the object that an allocation is a plain copy of. Nodes do not change
// once they can be read, so that a pointer into a copy shows what a pointer into the
// original does.
func (r *eqRun) copyOf(st *eqState, a *eqE) *eqE {
	if st.stale[a] {
		return nil
	}
	var src *eqE
	for _, c := range st.log {
		b, p := cellParts(c.addr)
		if b != a {
			continue
		}
		v := c.val
		if v.op != "load" || len(v.args) != 1 {
			return nil
		}
		at := v.args[0]
		for _, f := range p {
			if at.op != "fa" || at.s != f {
				return nil
			}
			at = at.args[0]
		}
		if len(p) == 0 || (src != nil && src != at) {
			return nil
		}
		src = at
	}
	return src
}

func loopHeads(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	h := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				h[b] = true
			}
		}
	}
	return h
}

func (r *eqRun) enter(st *eqState, fn *ssa.Function, args, free []*eqE, up *eqFrame, callee string, ret func(*eqState, []*eqE)) {
	if len(fn.Blocks) == 0 {
		r.giveUp("%s has no body", fn)
	}
	if r.heads[fn] == nil {
		if r.heads == nil {
			r.heads = map[*ssa.Function]map[*ssa.BasicBlock]bool{}
		}
		r.heads[fn] = loopHeads(fn)
	}
	r.nframe++
	fr := &eqFrame{fn: fn, id: r.nframe, up: up, heads: r.heads[fn], ret: ret, callee: callee, free: free}
	if up != nil {
		fr.depth = up.depth + 1
	}
	for i, p := range fn.Params {
		r.p.note(args[i], p.Type())
		st.vals[eqKey{fr.id, p}] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			st.vals[eqKey{fr.id, f}] = free[i]
		}
	}
	r.block(st, fr, fn.Blocks[0], nil)
}

func (r *eqRun) block(st *eqState, fr *eqFrame, b, from *ssa.BasicBlock) {
	var phis []*ssa.Phi
	var ins []*eqE
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for k, p := range b.Preds {
			if p == from {
				phis = append(phis, ph)
				ins = append(ins, r.val(st, fr, ph.Edges[k]))
				break
			}
		}
	}
	set := func(vs []*eqE) {
		for i, ph := range phis {
			st.vals[eqKey{fr.id, ph}] = vs[i]
		}
	}
	if fr.heads[b] {
		h := eqHead{fr.id, b}
		back := from != nil && b.Dominates(from)
		if name, ok := st.cut[h]; ok && back {
			r.leaf(st, "again "+name, token.NoPos, ins)
			return
		}
		set(ins)
		st.turns[h]++
		if st.turns[h] > 40 || !r.decided(st.clone(), fr, b) {
			if back && st.turns[h] > 40 {
				r.giveUp("a loop turns more than 40 times")
			}
			for _, x := range ins {
				r.escape(st, x)
			}
			name := fmt.Sprintf("L%d", st.nloop)
			st.nloop++
			r.effect(st, "loop "+name, ins)
			st.cut[h] = name
			var syms []*eqE
			for j := range phis {
				syms = append(syms, r.p.raw("phi", fmt.Sprintf("%s.%d", name, j), nil))
			}
			set(syms)
		}
	} else {
		set(ins)
	}
	r.instrs(st, fr, b, len(phis))
}

// decided tells whether the loop test in block b folds to a constant.
func (r *eqRun) decided(st *eqState, fr *eqFrame, b *ssa.BasicBlock) (ok bool) {
	iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !isIf {
		return false
	}
	n := 0
	for _, i := range b.Instrs {
		switch i := i.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.ChangeType, *ssa.Convert, *ssa.IndexAddr, *ssa.Index, *ssa.Slice:
			forks := 0
			r.pure(st, fr, i.(ssa.Value), func(s2 *eqState, v *eqE) {
				forks++
				s2.vals[eqKey{fr.id, i.(ssa.Value)}] = v
				st = s2
			})
			if forks != 1 {
				return false
			}
		case *ssa.Call:
			if bi, isB := i.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
				st.vals[eqKey{fr.id, i}] = r.p.mk("len", "", r.resolve(st, r.val(st, fr, i.Call.Args[0]), i.Call.Args[0].Type()))
				continue
			}
			return false
		default:
			return false
		}
		n++
	}
	_, ok = r.val(st, fr, iff.Cond).bool()
	return ok
}

func (r *eqRun) val(st *eqState, fr *eqFrame, v ssa.Value) *eqE {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return r.zero(v.Type())
		}
		return r.p.konst(v.Value)
	case *ssa.Global:
		return r.p.raw("global", r.globalName(v), nil)
	case *ssa.Function:
		return r.p.raw("func", fnKey(v, r.pkg.Pkg), nil)
	case *ssa.Builtin:
		return r.p.raw("builtin", v.Name(), nil)
	}
	e, ok := st.vals[eqKey{fr.id, v}]
	if !ok {
		r.giveUp("no value for %s in %s", v.Name(), fr.fn)
	}
	return e
}

func (r *eqRun) globalName(g *ssa.Global) string {
	if g.Pkg == r.pkg {
		return g.Name()
	}
	return extName(g.Pkg.Pkg.Path(), g.Name())
}

func (r *eqRun) zero(t types.Type) *eqE {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return r.p.boolE(false)
		case u.Info()&types.IsString != 0:
			return r.p.konst(constant.MakeString(""))
		case u.Info()&types.IsNumeric != 0:
			return r.p.num(0)
		}
	case *types.Struct:
		var a []*eqE
		for i := 0; i < u.NumFields(); i++ {
			a = append(a, r.zero(u.Field(i).Type()))
		}
		return r.p.mk("struct", structNames(u), a...)
	case *types.Array:
		if u.Len() <= 64 {
			var a []*eqE
			for i := int64(0); i < u.Len(); i++ {
				a = append(a, r.zero(u.Elem()))
			}
			return r.p.mk("arr", "", a...)
		}
		return r.p.raw("zero", typeKey(t), nil)
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return r.p.raw("list", "", nil) // the same as an empty slice, see BinOp
	}
	return r.p.raw("nil", "", nil)
}

func structNames(u *types.Struct) string {
	var b strings.Builder
	for i := 0; i < u.NumFields(); i++ {
		b.WriteString("," + u.Field(i).Name())
	}
	return b.String()
}

// ---- memory

func cellParts(a *eqE) (base *eqE, path []string) {
	for a.op == "fa" {
		path = append(path, a.s)
		a = a.args[0]
	}
	return a, path // leaf name first
}

// mayAlias of two distinct leaf addresses
func (r *eqRun) mayAlias(st *eqState, a, b *eqE, ta, tb string) bool {
	if ta != tb {
		return false
	}
	ab, ap := cellParts(a)
	bb, bp := cellParts(b)
	if ab == bb && ab.op != "ia" {
		return false // distinct parts of one object
	}
	n := min(len(ap), len(bp))
	for i := 0; i < n; i++ {
		if ap[i] != bp[i] {
			return false
		}
	}
	local := func(x *eqE) bool {
		if x.op == "ia" {
			x = x.args[0]
			x, _ = cellParts(x)
		}
		if x.op != "alloc" {
			return false
		}
		_, esc := st.escaped[x]
		return !esc
	}
	if len(ap) == len(bp) {
		if ab.op == "ia" && bb.op == "ia" && ab.args[0] == bb.args[0] {
			_, c1 := ab.args[1].int()
			_, c2 := bb.args[1].int()
			return !(c1 && c2)
		}
		fixed := func(x *eqE) bool { return x.op == "alloc" || x.op == "global" }
		if fixed(ab) && fixed(bb) {
			return false // distinct objects
		}
	}
	if local(ab) || local(bb) {
		// nothing else points into an object that has not been handed out
		return false
	}
	return true
}

func (r *eqRun) load(st *eqState, a *eqE, t types.Type, k func(*eqState, *eqE)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r.loadFields(st, a, u, 0, nil, k)
		return
	case *types.Array:
		if u.Len() <= 64 {
			r.loadElems(st, a, u, 0, nil, k)
			return
		}
	}
	// a table indexed by an unknown value is one case per entry
	base, path := cellParts(a)
	if base.op == "ia" {
		if _, c := base.args[1].int(); !c {
			if n := r.tableLen(st, base.args[0]); n >= 0 {
				for i := int64(0); i < int64(n); i++ {
					s2 := st
					s2 = st.clone()
					if !r.assume(s2, r.p.mk("eq", "", base.args[1], r.p.num(i)), true) {
						continue
					}
					x := r.p.mk("ia", "", base.args[0], r.p.num(i))
					for j := len(path) - 1; j >= 0; j-- {
						x = r.p.mk("fa", path[j], x)
					}
					r.load(s2, x, t, k)
				}
				return
			}
		}
	}
	k(st, r.loadLeaf(st, a, t))
}

func (r *eqRun) loadFields(st *eqState, a *eqE, u *types.Struct, i int, acc []*eqE, k func(*eqState, *eqE)) {
	if i == u.NumFields() {
		k(st, r.p.mk("struct", structNames(u), acc...))
		return
	}
	r.load(st, r.p.mk("fa", u.Field(i).Name(), a), u.Field(i).Type(), func(st *eqState, v *eqE) {
		r.loadFields(st, a, u, i+1, append(append([]*eqE{}, acc...), v), k)
	})
}
func (r *eqRun) loadElems(st *eqState, a *eqE, u *types.Array, i int64, acc []*eqE, k func(*eqState, *eqE)) {
	if i == u.Len() {
		k(st, r.p.mk("arr", "", acc...))
		return
	}
	r.load(st, r.p.mk("ia", "", a, r.p.num(i)), u.Elem(), func(st *eqState, v *eqE) {
		r.loadElems(st, a, u, i+1, append(append([]*eqE{}, acc...), v), k)
	})
}

// tableLen is the number of entries of a fixed array or slice of known contents.
func (r *eqRun) tableLen(st *eqState, x *eqE) int {
	switch x.op {
	case "list", "arr":
		return len(x.args)
	case "slice":
		if n, ok := x.args[2].int(); ok {
			if lo, ok := x.args[1].int(); ok && lo == 0 {
				return int(n)
			}
		}
	}
	return -1
}

func (r *eqRun) isTable(g string) bool {
	return !strings.Contains(g, ".") && !r.globals(g) && !r.written[r.pkg.Pkg.Path()+"."+g]
}

func (r *eqRun) loadLeaf(st *eqState, a *eqE, t types.Type) *eqE {
	tk := typeKey(t)
	// element of an immutable list
	if b, path := cellParts(a); b.op == "ia" && (b.args[0].op == "list" || b.args[0].op == "arr") {
		if i, ok := b.args[1].int(); ok && int(i) < len(b.args[0].args) && i >= 0 {
			v := b.args[0].args[i]
			for j := len(path) - 1; j >= 0; j-- {
				v = r.p.mk("field", path[j], v)
			}
			return v
		}
	}
	var may []*eqE
	for i := len(st.log) - 1; i >= 0; i-- {
		c := st.log[i]
		if c.addr == a {
			if len(may) == 0 {
				return c.val
			}
			may = append(may, c.addr, c.val)
			break
		}
		if r.mayAlias(st, a, c.addr, tk, cellType(c)) {
			may = append(may, c.addr, c.val)
		}
	}
	b, _ := cellParts(a)
	if b.op == "ia" {
		b, _ = cellParts(b.args[0])
	}
	if b.op == "alloc" && !st.stale[b] && len(may) == 0 {
		return r.zero(t)
	}
	if b.op == "global" && a == b && !strings.Contains(b.s, ".") && !r.inInit && !r.written[r.pkg.Pkg.Path()+"."+b.s] && intKind(t) == "int" {
		for i := len(r.initLog) - 1; i >= 0; i-- {
			if r.initLog[i].addr == a && r.initLog[i].val.op == "const" {
				return r.initLog[i].val // a variable used as a constant
			}
		}
	}
	if b.op == "global" && r.isTable(b.s) && !r.inInit {
		for i := len(r.initLog) - 1; i >= 0; i-- {
			if r.initLog[i].addr == a {
				return r.initLog[i].val
			}
		}
		return r.zero(t)
	}
	return r.p.raw("load", fmt.Sprintf("v%d", st.ver), nil, append([]*eqE{a}, may...)...)
}

var eqCellTypes = map[*eqE]string{}

func cellType(c eqCell) string { return eqCellTypes[c.addr] }

func (r *eqRun) store(st *eqState, a, v *eqE, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r.store(st, r.p.mk("fa", u.Field(i).Name(), a), r.p.mk("field", u.Field(i).Name(), v), u.Field(i).Type())
		}
		return
	case *types.Array:
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				r.store(st, r.p.mk("ia", "", a, r.p.num(i)), r.p.mk("index", "", v, r.p.num(i)), u.Elem())
			}
			return
		}
	}
	eqCellTypes[a] = typeKey(t)
	b, _ := cellParts(a)
	if b.op == "ia" {
		b, _ = cellParts(b.args[0])
	}
	if b.op != "alloc" {
		r.escape(st, v)
	} else if _, esc := st.escaped[b]; esc {
		r.escape(st, v)
	}
	st.log = append(st.log, eqCell{a, v})
}

// escape notes that what a value points to can be reached by others.
func (r *eqRun) escape(st *eqState, v *eqE) {
	switch v.op {
	case "alloc":
		if _, ok := st.escaped[v]; ok {
			return
		}
		st.escaped[v] = len(st.escaped)
		// and what it holds, in a fixed order
		var cs []eqCell
		for _, c := range st.log {
			b, _ := cellParts(c.addr)
			if b.op == "ia" {
				b, _ = cellParts(b.args[0])
			}
			if b == v {
				cs = append(cs, c)
			}
		}
		sort.SliceStable(cs, func(i, j int) bool { return cs[i].addr.String() < cs[j].addr.String() })
		for _, c := range cs {
			r.escape(st, c.val)
		}
	case "load", "res", "phi", "param":
	default:
		for _, a := range v.args {
			r.escape(st, a)
		}
	}
}

// visible lists the cells that others can see and that differ from what they held.
func (r *eqRun) visible(st *eqState) []eqCell {
	last := map[*eqE]*eqE{}
	for _, c := range st.log {
		last[c.addr] = c.val
	}
	var cs []eqCell
	for a, v := range last {
		b, _ := cellParts(a)
		if b.op == "ia" {
			b, _ = cellParts(b.args[0])
		}
		if b.op == "alloc" {
			if _, ok := st.escaped[b]; !ok {
				continue
			}
			if !st.stale[b] && (v.op == "nil" || (v.op == "list" && len(v.args) == 0) || v.op == "zero" || v == r.p.num(0) || v == r.p.boolE(false) || v == r.p.konst(constant.MakeString(""))) {
				continue
			}
		}
		if v.op == "load" && v.args[0] == a && v.s == fmt.Sprintf("v%d", st.ver) && len(v.args) == 1 {
			continue
		}
		cs = append(cs, eqCell{a, v})
	}
	return cs
}

// effect records a call of unknown effect.
func (r *eqRun) effect(st *eqState, what string, args []*eqE) {
	for _, a := range args {
		r.escape(st, a)
	}
	st.effects = append(st.effects, eqEffect{what, args, r.visible(st)})
	if r.inInit {
		return
	}
	st.ver++
	var keep []eqCell
	for _, c := range st.log {
		b, _ := cellParts(c.addr)
		if b.op == "ia" {
			b, _ = cellParts(b.args[0])
		}
		if b.op == "alloc" {
			if _, ok := st.escaped[b]; !ok {
				keep = append(keep, c)
			}
		}
	}
	st.log = keep
	for a := range st.escaped {
		st.stale[a] = true
	}
}

// assume adds a comparison to the path; false if it cannot hold.
func (r *eqRun) assume(st *eqState, c *eqE, val bool) bool {
	if c.op == "not" {
		return r.assume(st, c.args[0], !val)
	}
	if b, ok := c.bool(); ok {
		return b == val
	}
	if v, ok := st.known[c]; ok {
		return v == val
	}
	st.known[c] = val
	st.lits = append(st.lits, eqLit{c, val})
	return consistent(r.p, st.lits, nil)
}

func (r *eqRun) split(st *eqState, c *eqE, k func(*eqState, bool)) {
	if b, ok := c.bool(); ok {
		k(st, b)
		return
	}
	s2 := st.clone()
	if r.assume(st, c, true) {
		k(st, true)
	}
	if r.assume(s2, c, false) {
		k(s2, false)
	}
}

// consistent decides whether comparisons can hold together, as far as equality with
// constants, order with constants, bits and dynamic types tell.
func consistent(p *eqPool, a, b []eqLit) bool {
	val := map[*eqE]bool{}
	eq := map[*eqE]*eqE{}
	lo, hi := map[*eqE]int64{}, map[*eqE]int64{}
	has := map[*eqE]bool{}
	dyn := map[*eqE]string{}
	ones, zeros := map[*eqE]int64{}, map[*eqE]int64{}
	all := func(f func(l eqLit) bool) bool {
		for _, l := range a {
			if !f(l) {
				return false
			}
		}
		for _, l := range b {
			if !f(l) {
				return false
			}
		}
		return true
	}
	bound := func(x *eqE) {
		if !has[x] {
			has[x] = true
			lo[x], hi[x] = -1<<62, 1<<62
		}
	}
	if !all(func(l eqLit) bool {
		if v, ok := val[l.e]; ok && v != l.val {
			return false
		}
		val[l.e] = l.val
		switch l.e.op {
		case "eq":
			x, y := l.e.args[0], l.e.args[1]
			if !y.isConst() {
				return true
			}
			if l.val {
				if c, ok := eq[x]; ok && c != y {
					return false
				}
				eq[x] = y
				if n, ok := y.int(); ok {
					bound(x)
					lo[x], hi[x] = max(lo[x], n), min(hi[x], n)
				}
			}
			if x.op == "and" {
				c, ok1 := x.args[1].int()
				n, ok2 := y.int()
				if ok1 && ok2 {
					if l.val && n&^c != 0 {
						return false
					}
					if l.val {
						ones[x.args[0]] |= n & c
						zeros[x.args[0]] |= c &^ n
					} else if c&(c-1) == 0 && n&^c == 0 {
						ones[x.args[0]] |= c &^ n
						zeros[x.args[0]] |= n & c
					}
				}
			}
		case "lt":
			if n, ok := l.e.args[1].int(); ok {
				x := l.e.args[0]
				bound(x)
				if l.val {
					hi[x] = min(hi[x], n-1)
				} else {
					lo[x] = max(lo[x], n)
				}
			}
		case "taok":
			if l.val && !strings.HasPrefix(l.e.s, "I ") {
				x := l.e.args[0]
				if d, ok := dyn[x]; ok && d != l.e.s {
					return false
				}
				dyn[x] = l.e.s
			}
		}
		return true
	}) {
		return false
	}
	for x := range has {
		if lo[x] > hi[x] {
			return false
		}
	}
	for x := range ones {
		if ones[x]&zeros[x] != 0 {
			return false
		}
	}
	left := map[*eqE]map[string]bool{}
	if !all(func(l eqLit) bool {
		if l.e.op != "eq" || l.val || p.domain[l.e.args[0]] == nil || !l.e.args[1].isConst() {
			return true
		}
		x := l.e.args[0]
		if left[x] == nil {
			left[x] = map[string]bool{}
			for v := range p.domain[x] {
				left[x][v] = true
			}
		}
		delete(left[x], l.e.args[1].String())
		return len(left[x]) > 0
	}) {
		return false
	}
	for x := range dyn {
		if c, ok := eq[x]; ok && c.op == "nil" {
			return false
		}
	}
	return all(func(l eqLit) bool {
		if l.e.op != "eq" || l.val {
			return true
		}
		x, y := l.e.args[0], l.e.args[1]
		if c, ok := eq[x]; ok && c == y {
			return false
		}
		if n, ok := y.int(); ok {
			if has[x] && lo[x] == n && hi[x] == n {
				return false
			}
			if x.op == "and" {
				if c, ok := x.args[1].int(); ok {
					b := x.args[0]
					if (ones[b]|zeros[b])&c == c && ones[b]&c == n {
						return false
					}
				}
			}
		}
		return true
	})
}

// ---- instructions

func (r *eqRun) instrs(st *eqState, fr *eqFrame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		r.steps++
		if r.steps > 400000 {
			r.giveUp("too many steps")
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			r.block(st, fr, b.Succs[0], b)
			return
		case *ssa.If:
			r.split(st, r.val(st, fr, x.Cond), func(s *eqState, v bool) {
				if v {
					r.block(s, fr, b.Succs[0], b)
				} else {
					r.block(s, fr, b.Succs[1], b)
				}
			})
			return
		case *ssa.Return:
			var res []*eqE
			for _, v := range x.Results {
				res = append(res, r.val(st, fr, v))
			}
			fr.ret(st, res)
			return
		case *ssa.Panic:
			r.leaf(st, "panic", x.Pos(), nil)
			if v := r.val(st, fr, x.X); v.op == "iface" && v.args[0] == r.p.konst(constant.MakeString("unreachable")) {
				r.leaves[len(r.leaves)-1].never = true
			}
			return
		case *ssa.Store:
			r.store(st, r.val(st, fr, x.Addr), r.val(st, fr, x.Val), x.Val.Type())
		case *ssa.MapUpdate:
			m := r.val(st, fr, x.Map)
			a := r.p.raw("ma", "", nil, m, r.val(st, fr, x.Key))
			v := r.val(st, fr, x.Value)
			if m.op == "map" {
				st.log = append(st.log, eqCell{a, v})
				continue
			}
			// changes nothing but the map, so that its order with other writes does not matter
			r.escape(st, a.args[1])
			r.escape(st, v)
			st.effects = append(st.effects, eqEffect{"map update", []*eqE{m, a.args[1], v}, nil})
			st.mver++
		case *ssa.RunDefers:
			continue
		case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
			r.giveUp("%T", x)
		case *ssa.Call:
			i := i
			r.call(st, fr, x, func(st *eqState, v *eqE) {
				st.vals[eqKey{fr.id, x}] = v
				r.instrs(st, fr, b, i+1)
			})
			return
		case ssa.Value:
			i := i
			n := 0
			var only *eqState
			r.pure(st, fr, x, func(s *eqState, v *eqE) {
				r.p.note(v, x.Type())
				s.vals[eqKey{fr.id, x}] = v
				if s == st {
					only = s
					return
				}
				n++
				r.instrs(s, fr, b, i+1)
			})
			if only == nil {
				return
			}
			if n > 0 {
				r.giveUp("mixed fork")
			}
		default:
			r.giveUp("%T", x)
		}
	}
}

func (r *eqRun) alloc(st *eqState) *eqE {
	st.nalloc++
	return r.p.raw("alloc", "n"+strconv.Itoa(st.nalloc), nil)
}

func intKind(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			return "int"
		case b.Info()&types.IsString != 0:
			return "string"
		}
	}
	return ""
}

// pure evaluates an instruction that only computes.
func (r *eqRun) pure(st *eqState, fr *eqFrame, v ssa.Value, k func(*eqState, *eqE)) {
	p := r.p
	get := func(v ssa.Value) *eqE { return r.val(st, fr, v) }
	switch x := v.(type) {
	case *ssa.Alloc:
		k(st, r.alloc(st))
	case *ssa.FieldAddr:
		u := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		k(st, p.mk("fa", u.Field(x.Field).Name(), get(x.X)))
	case *ssa.Field:
		u := x.X.Type().Underlying().(*types.Struct)
		k(st, p.mk("field", u.Field(x.Field).Name(), get(x.X)))
	case *ssa.IndexAddr:
		base := get(x.X)
		if base.op == "slice" { // element of a slice of a whole array
			if lo, ok := base.args[1].int(); ok && lo == 0 {
				base = base.args[0]
			}
		}
		idx := get(x.Index)
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			at, _ := pt.Elem().Underlying().(*types.Array)
			if _, c := idx.int(); at != nil && !c && at.Len() <= 64 && (base.op == "alloc" || base.op == "global" && r.isTable(base.s)) {
				for i := int64(0); i < at.Len(); i++ { // one case per entry of the table
					s2 := st.clone()
					if r.assume(s2, p.mk("eq", "", idx, p.num(i)), true) {
						k(s2, p.mk("ia", "", base, p.num(i)))
					}
				}
				return
			}
		}
		k(st, p.mk("ia", "", base, idx))
	case *ssa.Index:
		a, i := get(x.X), get(x.Index)
		if a.op == "arr" {
			if _, c := i.int(); !c {
				for j := range a.args {
					s2 := st.clone()
					if r.assume(s2, p.mk("eq", "", i, p.num(int64(j))), true) {
						k(s2, a.args[j])
					}
				}
				return
			}
		}
		k(st, p.mk("index", "", a, i))
	case *ssa.UnOp:
		a := get(x.X)
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok && g.Pkg != r.pkg {
				k(st, p.raw("load", "const", nil, a)) // variables of other packages are constants here
				return
			}
			r.load(st, a, x.Type(), k)
		case token.NOT:
			k(st, p.mk("not", "", a))
		case token.ARROW:
			r.giveUp("channel")
		default:
			k(st, p.mk("un", x.Op.String(), a))
		}
	case *ssa.BinOp:
		a, b := get(x.X), get(x.Y)
		ik := intKind(x.X.Type())
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
			// a slice compared with nil: the contents do not tell
			if e, ok := x.Y.(*ssa.Const); !ok || e.Value != nil {
				a = b
			}
			a = p.raw("isnil", "", nil, a)
			if x.Op == token.NEQ {
				a = p.mk("not", "", a)
			}
			k(st, a)
			return
		}
		switch x.Op {
		case token.EQL:
			k(st, p.mk("eq", "", a, b))
		case token.NEQ:
			k(st, p.mk("not", "", p.mk("eq", "", a, b)))
		case token.LSS:
			k(st, p.mk("lt", ik, a, b))
		case token.GTR:
			k(st, p.mk("lt", ik, b, a))
		case token.LEQ:
			k(st, p.mk("not", "", p.mk("lt", ik, b, a)))
		case token.GEQ:
			k(st, p.mk("not", "", p.mk("lt", ik, a, b)))
		case token.ADD:
			k(st, p.mk("add", ik, a, b))
		case token.SUB:
			k(st, p.mk("sub", ik, a, b))
		case token.MUL:
			k(st, p.mk("mul", ik, a, b))
		case token.AND:
			k(st, p.mk("and", ik, a, b))
		case token.OR:
			k(st, p.mk("or", ik, a, b))
		case token.SHL:
			if n, ok := b.int(); ok && n < 62 {
				k(st, p.mk("mul", ik, a, p.num(1<<n)))
				return
			}
			if n, ok := a.int(); ok && n == 1 {
				k(st, p.mk("shl1", ik, b))
				return
			}
			k(st, p.mk("bin", "<<", a, b))
		default:
			k(st, p.mk("bin", x.Op.String(), a, b))
		}
	case *ssa.ChangeType:
		k(st, get(x.X))
	case *ssa.ChangeInterface:
		k(st, get(x.X))
	case *ssa.Convert:
		k(st, p.mk("conv", typeKey(x.Type().Underlying()), get(x.X)))
	case *ssa.MakeInterface:
		k(st, p.mk("iface", typeKey(x.X.Type()), get(x.X)))
	case *ssa.MakeClosure:
		var fv []*eqE
		for _, b := range x.Bindings {
			fv = append(fv, get(b))
		}
		k(st, p.raw("closure", fnKey(x.Fn.(*ssa.Function), r.pkg.Pkg), nil, fv...))
		r.closures(x.Fn.(*ssa.Function))
	case *ssa.MakeSlice:
		n := get(x.Len)
		made := p.raw("make", typeKey(x.Type()), nil, n)
		if c, ok := n.int(); ok && c == 0 {
			made = p.raw("list", "", nil)
		}
		// a capacity below nothing panics; other capacities do not show
		if c, ok := get(x.Cap).int(); ok && c >= 0 {
			k(st, made)
			return
		}
		r.split(st, p.mk("lt", "int", get(x.Cap), p.num(0)), func(st *eqState, below bool) {
			if below {
				r.leaf(st, "panic", x.Pos(), nil)
				return
			}
			k(st, made)
		})
	case *ssa.MakeMap:
		st.nalloc++
		if r.inInit {
			k(st, p.raw("map", "n"+strconv.Itoa(st.nalloc), nil))
		} else {
			k(st, p.raw("make", typeKey(x.Type()), nil, r.alloc(st)))
		}
	case *ssa.Slice:
		a := get(x.X)
		lo, hi := p.num(0), p.raw("nil", "", nil)
		if x.Low != nil {
			lo = get(x.Low)
		}
		if x.High != nil {
			hi = get(x.High)
		} else if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				hi = p.num(at.Len())
			}
		}
		k(st, p.mk("slice", "", a, lo, hi))
	case *ssa.Extract:
		k(st, p.mk("extract", strconv.Itoa(x.Index), get(x.Tuple)))
	case *ssa.TypeAssert:
		a := get(x.X)
		tk := typeKey(x.AssertedType)
		if types.IsInterface(x.AssertedType) {
			tk = "I " + tk
		}
		val := p.mk("ta", tk, a)
		if strings.HasPrefix(tk, "I ") {
			val = a
		}
		if x.CommaOk {
			ok := p.mk("taok", tk, a)
			r.split(st, ok, func(s *eqState, b bool) {
				w := val
				if !b {
					w = r.zero(x.AssertedType)
				}
				s2 := s
				if s2 == st {
					s2 = st.clone()
				}
				k(s2, p.raw("tuple", "", nil, w, p.boolE(b)))
			})
			return
		}
		k(st, val)
	case *ssa.Lookup:
		m, key := get(x.X), get(x.Index)
		if m.op == "map" {
			r.lookup(st, m, key, x, k)
			return
		}
		if x.CommaOk {
			r.split(st, p.raw("inmap", fmt.Sprintf("v%d", st.ver), nil, m, key), func(s *eqState, b bool) {
				w := p.raw("lookup", fmt.Sprintf("v%d.%d", st.ver, st.mver), nil, m, key)
				if !b {
					w = r.zero(x.Type().(*types.Tuple).At(0).Type())
				}
				s2 := s
				if s2 == st {
					s2 = st.clone()
				}
				k(s2, p.raw("tuple", "", nil, w, p.boolE(b)))
			})
			return
		}
		k(st, p.raw("lookup", fmt.Sprintf("v%d.%d", st.ver, st.mver), nil, m, key))
	default:
		r.giveUp("%T", v)
	}
}

// lookup in a map whose contents were fixed at initialisation
func (r *eqRun) lookup(st *eqState, m, key *eqE, x *ssa.Lookup, k func(*eqState, *eqE)) {
	p := r.p
	out := func(s *eqState, v *eqE, ok bool) {
		if x.CommaOk {
			v = p.raw("tuple", "", nil, v, p.boolE(ok))
		}
		k(s, v)
	}
	none := st.clone()
	possible := true
	for _, c := range r.initLog {
		if c.addr.op != "ma" || c.addr.args[0] != m {
			continue
		}
		e := p.mk("eq", "", key, c.addr.args[1])
		s2 := st.clone()
		if r.assume(s2, e, true) {
			out(s2, c.val, true)
		}
		possible = possible && r.assume(none, e, false)
	}
	if possible {
		t := x.Type()
		if tt, ok := t.(*types.Tuple); ok {
			t = tt.At(0).Type()
		}
		out(none, r.zero(t), false)
	}
}

var eqClosures = map[*Program]map[string]*ssa.Function{}

func (r *eqRun) closures(fn *ssa.Function) {
	if eqClosures[r.P] == nil {
		eqClosures[r.P] = map[string]*ssa.Function{}
	}
	eqClosures[r.P][fnKey(fn, r.pkg.Pkg)] = fn
}

// resolve replaces slices of local arrays by what they hold.
func (r *eqRun) resolve(st *eqState, e *eqE, t types.Type) *eqE {
	if e.op != "slice" || t == nil {
		return e
	}
	sl, ok := t.Underlying().(*types.Slice)
	lo, ok1 := e.args[1].int()
	hi, ok2 := e.args[2].int()
	base := e.args[0]
	if !ok || !ok1 || !ok2 || hi-lo > 64 || !(base.op == "alloc" || base.op == "global" && (r.isTable(base.s) || r.inInit)) {
		return e
	}
	var a []*eqE
	for i := lo; i < hi; i++ {
		var v *eqE
		r.load(st, r.p.mk("ia", "", base, r.p.num(i)), sl.Elem(), func(_ *eqState, x *eqE) { v = x })
		if v == nil || hasLoad(v, base) {
			return e
		}
		a = append(a, v)
	}
	return r.p.raw("list", "", nil, a...)
}

// hasLoad finds a read of the object in a term.
func hasLoad(e, base *eqE) bool {
	if e.op == "load" {
		b, _ := cellParts(e.args[0])
		if b.op == "ia" {
			b, _ = cellParts(b.args[0])
		}
		if b == base {
			return true
		}
	}
	for _, a := range e.args {
		if hasLoad(a, base) {
			return true
		}
	}
	return false
}

// functions of other packages whose result depends on their arguments alone
func eqPureExternal(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	switch path := fn.Pkg.Pkg.Path(); path {
	case "strings", "strconv", "unicode", "unicode/utf8", "errors", "slices":
		return fn.Signature.Recv() == nil
	case "fmt":
		return strings.HasPrefix(fn.Name(), "Sprint") || fn.Name() == "Errorf"
	case "github.com/ipld/go-ipld-prime/node/mixins":
		return true
	case schemaPath:
		return strings.HasPrefix(fn.Name(), "Spawn") && fn.Signature.Recv() == nil
	case primePath, modelPath:
		return strings.Contains(fn.Name(), "PathSegment") || (fn.Signature.Recv() != nil && strings.HasSuffix(typeKey(fn.Signature.Recv().Type()), ".PathSegment"))
	}
	return false
}

// methods of the data model that only report
var eqPureMethods = map[string]bool{"Kind": true, "IsNull": true, "IsAbsent": true, "Prototype": true}

func (r *eqRun) call(st *eqState, fr *eqFrame, c *ssa.Call, k func(*eqState, *eqE)) {
	p := r.p
	var args []*eqE
	for _, a := range c.Call.Args {
		args = append(args, r.val(st, fr, a))
	}
	nres := 1
	if t, ok := c.Type().(*types.Tuple); ok {
		nres = t.Len()
	}
	opaque := func(what string, pure bool, as []*eqE) {
		if strings.Contains(what, "node/mixins") && len(as) > 1 {
			as = as[:1] // a refusal names the type and the method
			v := p.raw("call", what, nil, as...)
			k(st, v)
			return
		}
		for i := range as {
			if j := i - (len(as) - len(c.Call.Args)); j >= 0 {
				as[i] = r.resolve(st, as[i], c.Call.Args[j].Type())
			}
		}
		var v *eqE
		if pure {
			v = p.raw("call", what, nil, as...)
		} else {
			r.effect(st, what, as)
			v = p.raw("res", strconv.Itoa(len(st.effects)-1), nil)
		}
		_ = nres
		k(st, v)
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			k(st, p.mk("len", "", r.resolve(st, args[0], c.Call.Args[0].Type())))
		case "cap":
			k(st, p.mk("cap", "", args[0]))
		case "append":
			k(st, p.mk("append", "", r.resolve(st, args[0], c.Call.Args[0].Type()), r.resolve(st, args[1], c.Call.Args[1].Type())))
		case "max", "min":
			if ik := intKind(c.Type()); len(args) == 2 && ik != "" {
				r.split(st, p.mk("lt", ik, args[0], args[1]), func(st *eqState, less bool) {
					if less == (b.Name() == "min") {
						k(st, args[0])
					} else {
						k(st, args[1])
					}
				})
				return
			}
			opaque("builtin "+b.Name(), true, args)
		case "ssa:wrapnilchk":
			k(st, args[0])
		default:
			opaque("builtin "+b.Name(), false, args)
		}
		return
	}
	var fn *ssa.Function
	var free []*eqE
	if c.Call.IsInvoke() {
		recv := r.val(st, fr, c.Call.Value)
		m := c.Call.Method
		if recv.op == "iface" {
			if t := r.concrete(recv.s); t != nil {
				if sel := r.P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name()); sel != nil {
					fn = r.P.prog.MethodValue(sel)
					args = append([]*eqE{recv.args[0]}, args...)
				}
			}
		}
		if fn == nil {
			opaque("invoke "+m.Name(), eqPureMethods[m.Name()] && len(args) == 0, append([]*eqE{recv}, args...))
			return
		}
	} else if fn = c.Call.StaticCallee(); fn == nil {
		f := r.val(st, fr, c.Call.Value)
		switch f.op {
		case "closure", "func":
			free = f.args
			fn = eqClosures[r.P][f.s]
			if fn == nil {
				fn = r.pkg.Func(f.s)
			}
		}
		if fn == nil {
			r.giveUp("call of a function value")
		}
	} else if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			free = append(free, r.val(st, fr, b))
		}
	}
	name := fnKey(fn, r.pkg.Pkg)
	local := fn.Pkg == r.pkg || (fn.Origin() != nil && fn.Origin().Pkg == r.pkg) || (fn.Parent() != nil) || (fn.Pkg == nil && fn.Synthetic != "")
	if !local || len(fn.Blocks) == 0 {
		if r.inInit && fn.Name() == "init" {
			k(st, p.raw("nil", "", nil))
			return
		}
		opaque(name, eqPureExternal(fn), args)
		return
	}
	inline := !r.common(name) || small(fn) || r.force[name]
	if fn.Synthetic != "" {
		inline = true
	}
	if r.inInit && strings.HasPrefix(fn.Name(), "init#") {
		inline = false
	}
	if inline {
		for f := fr; f != nil; f = f.up {
			if f.fn == fn {
				if r.common(name) {
					opaque(name, false, args)
					return
				}
				r.giveUp("%s calls itself", name)
			}
		}
		if fr.depth > 10 {
			r.giveUp("calls nested more than 10 deep")
		}
		r.enter(st, fn, args, free, fr, name, func(st *eqState, res []*eqE) {
			if len(res) == 1 {
				k(st, res[0])
				return
			}
			k(st, p.raw("tuple", "", nil, res...))
		})
		return
	}
	if r.asked != nil {
		r.asked[name] = true
	}
	opaque(name, false, args)
}

// small functions are looked into on both sides
func small(fn *ssa.Function) bool { return len(fn.Blocks) == 1 && len(fn.Blocks[0].Instrs) <= 24 }

// concrete finds the package's type with this key.
func (r *eqRun) concrete(key string) types.Type {
	ptr := strings.HasPrefix(key, "*")
	name := strings.TrimPrefix(strings.TrimPrefix(key, "*"), r.pkg.Pkg.Path()+".")
	o, ok := r.pkg.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	if ptr {
		return types.NewPointer(types.Unalias(o.Type()))
	}
	return types.Unalias(o.Type())
}

// ---- comparison

func (l *eqLeaf) same(p *eqPool, o *eqLeaf, env map[*eqE]*eqE) (string, bool) {
	memo := map[*eqE]*eqE{}
	sub := func(x *eqE) *eqE { return p.rebuild(x, env, memo) }
	if l.kind != o.kind {
		return fmt.Sprintf("%s, where the schema's code has %s", o.kind, l.kind), false
	}
	if l.kind == "panic" {
		return "", true
	}
	list := func(what string, a, b []*eqE) (string, bool) {
		if len(a) != len(b) {
			return fmt.Sprintf("%s: %d values instead of %d", what, len(b), len(a)), false
		}
		for i := range a {
			if x, y := sub(a[i]), sub(b[i]); x != y {
				return fmt.Sprintf("%s: %s, where the schema's code has %s", what, y, x), false
			}
		}
		return "", true
	}
	cells := func(what string, a, b []eqCell) (string, bool) {
		m := map[*eqE]*eqE{}
		for _, c := range a {
			m[sub(c.addr)] = sub(c.val)
		}
		n := map[*eqE]*eqE{}
		for _, c := range b {
			n[sub(c.addr)] = sub(c.val)
		}
		unchanged := func(a, v *eqE) bool { return v != nil && v.op == "load" && v.args[0] == a && len(v.args) == 1 }
		for a, v := range m {
			if n[a] != v && !(n[a] == nil && holds(p, env, a, v)) {
				if n[a] == nil {
					return fmt.Sprintf("%s: %s is not set to %s", what, a, v), false
				}
				return fmt.Sprintf("%s: %s is set to %s, where the schema's code has %s", what, a, n[a], v), false
			}
		}
		for a, v := range n {
			if m[a] == nil && !unchanged(a, v) && !holds(p, env, a, v) {
				return fmt.Sprintf("%s: %s is set to %s, which the schema's code leaves alone", what, a, v), false
			}
		}
		return "", true
	}
	for i := range l.effects {
		if i >= len(o.effects) {
			return fmt.Sprintf("%s is not called", l.effects[i].what), false
		}
		a, b := l.effects[i], o.effects[i]
		if a.what != b.what {
			return fmt.Sprintf("%s is called, where the schema's code calls %s", b.what, a.what), false
		}
		if m, ok := list("arguments of "+a.what, a.args, b.args); !ok {
			return m, false
		}
		if m, ok := cells("before "+a.what, a.mem, b.mem); !ok {
			return m, false
		}
	}
	if len(o.effects) > len(l.effects) {
		return fmt.Sprintf("%s is called, which the schema's code does not", o.effects[len(l.effects)].what), false
	}
	if m, ok := list("result", l.res, o.res); !ok {
		return m, false
	}
	return cells("at the end", l.mem, o.mem)
}

// holds tells whether the cell is known to hold the value already.
func holds(p *eqPool, env map[*eqE]*eqE, a, v *eqE) bool {
	for x, c := range env {
		if c == v && x.op == "load" && len(x.args) == 1 && x.args[0] == a {
			return true
		}
	}
	return false
}

func litEnv(p *eqPool, a, b []eqLit) map[*eqE]*eqE {
	env := map[*eqE]*eqE{}
	for _, ls := range [][]eqLit{a, b} {
		for _, l := range ls {
			if l.e.op == "eq" && l.val {
				if l.e.args[1].isConst() {
					env[l.e.args[0]] = l.e.args[1]
				}
				continue
			}
			if l.e.op != "eq" && l.e.op != "lt" {
				env[l.e] = p.boolE(l.val)
			}
			if l.e.op == "eq" && !l.val && l.e.args[0].op == "and" {
				c, ok1 := l.e.args[0].args[1].int()
				n, ok2 := l.e.args[1].int()
				if ok1 && ok2 && c&(c-1) == 0 && n&^c == 0 {
					env[l.e.args[0]] = p.num(c &^ n)
				}
			}
		}
	}
	return env
}

type eqDiff struct {
	msg      string
	pos      token.Pos
	when     []string
	ref, got *eqLeaf   // the paths that differ
	all      []*eqDiff // of the first, every difference found
}

// eqCompare returns the differences between the paths of a reference function and
// those of the code's function.
func eqCompare(p *eqPool, ref, got []eqLeaf) (pairs int, d *eqDiff) {
	for i := range ref {
		for j := range got {
			a, b := &ref[i], &got[j]
			if a.never {
				continue
			}
			if !consistent(p, a.lits, b.lits) {
				continue
			}
			pairs++
			env := litEnv(p, a.lits, b.lits)
			if m, ok := a.same(p, b, env); !ok {
				var w []string
				seen := map[string]bool{}
				for _, l := range append(append([]eqLit{}, a.lits...), b.lits...) {
					s := l.e.String()
					if !l.val {
						s = "not " + s
					}
					if !seen[s] {
						seen[s] = true
						w = append(w, s)
					}
				}
				n := &eqDiff{msg: m, pos: b.pos, when: w, ref: a, got: b}
				if d == nil {
					d = n
				}
				if len(d.all) < 200 {
					d.all = append(d.all, n)
				}
			}
		}
	}
	return pairs, d
}
