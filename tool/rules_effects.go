package main

// Ownership and effects, decided on the SSA form of the whole package.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// packageFns lists all functions with a body in the package, wrappers excluded.
func (P *Program) packageFns() []*ssa.Function {
	var r []*ssa.Function
	for fn := range P.functions() {
		if len(fn.Blocks) == 0 {
			continue
		}
		own := fn.Pkg == P.pkg || fn.Origin() != nil && fn.Origin().Pkg == P.pkg
		if !own || (fn.Synthetic != "" && fn.Synthetic != "package initializer" && fn.Origin() == nil) {
			continue
		}
		r = append(r, fn)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// isInitFn tells whether fn runs during initialisation only: the initialisers and
// the functions they call where they write them. A function value made during
// initialisation can be called later.
func isInitFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		refs := fn.Referrers()
		if refs == nil {
			return false
		}
		for _, u := range *refs {
			if m, ok := u.(*ssa.MakeClosure); ok {
				for _, u := range *m.Referrers() {
					if !callOf(u, m) {
						return false
					}
				}
			} else if !callOf(u, fn) {
				return false
			}
		}
		fn = fn.Parent()
	}
	return fn.Signature.Recv() == nil && (fn.Synthetic == "package initializer" || strings.HasPrefix(fn.Name(), "init#") || fn.Name() == "init")
}

// initTime lists the functions that run during initialisation.
func (P *Program) initTime() (r []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] || len(fn.Blocks) == 0 {
			return
		}
		seen[fn] = true
		r = append(r, fn)
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && (f.Pkg == P.pkg || f.Origin() != nil && f.Origin().Pkg == P.pkg) {
						visit(f)
					}
				}
			}
		}
	}
	for _, fn := range P.packageFns() {
		if isInitFn(fn) {
			visit(fn)
		}
	}
	return r
}

func callOf(u ssa.Instruction, f ssa.Value) bool {
	if _, ok := u.(*ssa.DebugRef); ok {
		return true
	}
	c, ok := u.(ssa.CallInstruction)
	if !ok || c.Common().Value != f {
		return false
	}
	for _, a := range c.Common().Args {
		if a == f {
			return false
		}
	}
	return true
}

// hasRefs: a value of the type can share mutable memory.
func hasRefs(t types.Type) bool { return hasRefs1(t, 0) }
func hasRefs1(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Map, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs1(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return hasRefs1(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs1(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// foreign memory: where it comes from; inner means that only what it points to
// is foreign.
type foreign struct {
	what  string
	inner bool
}

type owner struct {
	P       *Program
	memo    map[ssa.Value]*foreign
	busy    map[string]bool
	callers map[*ssa.Function][]ssa.CallInstruction
	stores  map[ssa.Value][]storeAt
	ifaces  map[string][]ssa.Value // what becomes an interface value, by type
}

// storeAt is a store into a variable: path leads from it to the part written.
type storeAt struct {
	path string
	val  ssa.Value
}

// place is a part of a variable of the function or of what it made.
type place struct {
	root ssa.Value
	path string
}

func newOwner(P *Program) *owner {
	o := &owner{P: P, memo: map[ssa.Value]*foreign{}, busy: map[string]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, stores: map[ssa.Value][]storeAt{}, ifaces: map[string][]ssa.Value{}}
	var all []*ssa.Store
	for _, fn := range P.packageFns() {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						o.callers[f] = append(o.callers[f], c)
					}
				}
				if m, ok := i.(*ssa.MakeInterface); ok {
					k := m.X.Type().String()
					o.ifaces[k] = append(o.ifaces[k], m.X)
				}
				if s, ok := i.(*ssa.Store); ok && hasRefs(s.Val.Type()) {
					all = append(all, s)
					for _, p := range o.places(s.Addr, nil) {
						o.stores[p.root] = append(o.stores[p.root], storeAt{p.path, s.Val})
					}
				}
			}
		}
	}
	// pointers kept in variables lead to further places
	for _, s := range all {
		if P.genFns[s.Parent()] {
			continue
		}
		have := map[place]bool{}
		for _, p := range o.places(s.Addr, nil) {
			if !have[p] {
				have[p] = true
				known := false
				for _, x := range o.stores[p.root] {
					known = known || x == storeAt{p.path, s.Val}
				}
				if !known {
					o.stores[p.root] = append(o.stores[p.root], storeAt{p.path, s.Val})
				}
			}
		}
	}
	return o
}

// places lists the variables that an address can lead to.
func (o *owner) places(v ssa.Value, busy map[ssa.Value]bool) (r []place) {
	if busy[v] || len(busy) > 12 {
		return nil
	}
	b := map[ssa.Value]bool{v: true}
	for k := range busy {
		b[k] = true
	}
	under := func(x ssa.Value, step string) {
		for _, p := range o.places(x, b) {
			if len(p.path) < 24 {
				r = append(r, place{p.root, p.path + step})
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return []place{{x, ""}}
	case *ssa.FieldAddr:
		under(x.X, fmt.Sprintf(".%d", x.Field))
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			under(x.X, "[]")
		}
	case *ssa.ChangeType:
		under(x.X, "")
	case *ssa.MakeInterface:
		under(x.X, "")
	case *ssa.TypeAssert:
		under(x.X, "")
	case *ssa.ChangeInterface:
		under(x.X, "")
	case *ssa.Phi:
		for _, e := range x.Edges {
			under(e, "")
		}
	case *ssa.Parameter:
		if o.P.genFns[x.Parent()] {
			return nil
		}
		for i, p := range x.Parent().Params {
			for _, c := range o.callers[x.Parent()] {
				if p == x && i < len(c.Common().Args) {
					under(c.Common().Args[i], "")
				}
			}
		}
	case *ssa.FreeVar:
		for _, e := range bindings(x) {
			under(e, "")
		}
	case *ssa.Call:
		for _, e := range o.returned(x.Common(), 0) {
			under(e, "")
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			for _, e := range o.returned(c.Common(), x.Index) {
				under(e, "")
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			for _, p := range o.places(x.X, b) {
				for _, s := range o.stores[p.root] {
					if s.path == p.path {
						under(s.val, "")
					}
				}
			}
		}
	}
	return r
}

// bindings lists the values a captured variable can stand for.
func bindings(x *ssa.FreeVar) (r []ssa.Value) {
	fn := x.Parent()
	for i, fv := range fn.FreeVars {
		if fv != x || fn.Referrers() == nil {
			continue
		}
		for _, u := range *fn.Referrers() {
			if m, ok := u.(*ssa.MakeClosure); ok {
				r = append(r, m.Bindings[i])
			}
		}
	}
	return r
}

// returned lists the values of a result of a hand-written function.
func (o *owner) returned(c *ssa.CallCommon, k int) (r []ssa.Value) {
	f := c.StaticCallee()
	if f == nil || f.Pkg != o.P.pkg && (f.Origin() == nil || f.Origin().Pkg != o.P.pkg) || o.P.genFns[f] {
		return nil
	}
	for _, b := range f.Blocks {
		if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(x.Results) {
			r = append(r, x.Results[k])
		}
	}
	return r
}

// rootAddr goes from an address into a variable to the variable.
func rootAddr(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

// privateRecv: a method of a type that only this package's own code can make.
func (o *owner) privateRecv(fn *ssa.Function) bool {
	v := fn.Signature.Recv()
	if v == nil {
		return false
	}
	t := v.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == o.P.pkg.Pkg && !n.Obj().Exported() && !o.P.genFiles[o.P.fset.Position(n.Obj().Pos()).Filename]
}

func exportedEntry(P *Program, fn *ssa.Function) bool {
	return fn.Object() != nil && fn.Object().Exported() && !P.genFns[fn] && fn.Parent() == nil
}

// plumbing: parameters that are streams or assemblers, used for their effect.
func plumbing(t types.Type) bool {
	s := types.TypeString(t, nil)
	switch s {
	case "io.Reader", "io.Writer", "io.ByteReader", "*bufio.Reader", "*bufio.Writer", "*bytes.Buffer", "*strings.Builder", "error":
		return true
	}
	return strings.HasSuffix(s, "Assembler") || strings.HasSuffix(s, "NodeBuilder")
}

var foreignCalls = map[string]string{
	"AsBytes": "the bytes of a node", "RawData": "the data of a block", "Peek": "a reader's buffer", "ReadSlice": "a reader's buffer",
	"ReadLine": "a reader's buffer", "LookupByString": "a part of a node", "LookupByNode": "a part of a node", "LookupByIndex": "a part of a node",
	"LookupBySegment": "a part of a node", "Next": "a part of a node", "Representation": "a node", "Bytes": "",
}

func (o *owner) of(v ssa.Value) *foreign {
	if f, ok := o.memo[v]; ok {
		return f
	}
	key := fmt.Sprintf("%p", v)
	if o.busy[key] {
		return nil
	}
	if v.Type() != nil && !hasRefs(v.Type()) {
		return nil
	}
	o.busy[key] = true
	f := o.of1(v)
	delete(o.busy, key)
	if len(o.busy) == 0 || f != nil {
		o.memo[v] = f
	}
	return f
}

func (o *owner) any(vs ...ssa.Value) *foreign {
	for _, v := range vs {
		if f := o.of(v); f != nil {
			return f
		}
	}
	return nil
}

func (o *owner) of1(v ssa.Value) *foreign {
	switch x := v.(type) {
	case *ssa.Global:
		return &foreign{"the package variable " + x.Name(), false}
	case *ssa.Parameter:
		fn := x.Parent()
		if plumbing(x.Type()) {
			return nil
		}
		if exportedEntry(o.P, fn) && !(len(fn.Params) > 0 && fn.Params[0] == x && o.privateRecv(fn)) {
			return &foreign{"the argument " + x.Name() + " of " + fn.Name(), false}
		}
		if fn.Signature.Recv() != nil && fn.Params[0] == x {
			for _, v := range o.ifaces[fn.Signature.Recv().Type().String()] {
				if f := o.of(v); f != nil {
					return f
				}
			}
		}
		for i, p := range fn.Params {
			if p != x {
				continue
			}
			for _, c := range o.callers[fn] {
				if i < len(c.Common().Args) {
					if f := o.of(c.Common().Args[i]); f != nil {
						return f
					}
				}
			}
		}
		return nil
	case *ssa.FreeVar:
		return o.any(bindings(x)...)
	case *ssa.Phi:
		return o.any(x.Edges...)
	case *ssa.Slice:
		return o.of(x.X)
	case *ssa.FieldAddr:
		return o.of(x.X)
	case *ssa.IndexAddr:
		return o.of(x.X)
	case *ssa.Field:
		return o.part(x.X, fmt.Sprintf(".%d", x.Field))
	case *ssa.Index:
		return o.of(x.X)
	case *ssa.Lookup:
		return o.of(x.X)
	case *ssa.ChangeType:
		return o.of(x.X)
	case *ssa.ChangeInterface:
		return o.of(x.X)
	case *ssa.MakeInterface:
		return o.of(x.X)
	case *ssa.TypeAssert:
		return o.of(x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if vs := o.returned(c.Common(), x.Index); vs != nil {
				return o.any(vs...)
			}
		}
		return o.of(x.Tuple)
	case *ssa.SliceToArrayPointer:
		return o.of(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		return o.part(x, "")
	case *ssa.Call:
		return o.result(x.Common())
	}
	return nil
}

// part tells where a part of a value comes from.
func (o *owner) part(v ssa.Value, path string) *foreign {
	switch x := v.(type) {
	case *ssa.Field:
		return o.part(x.X, fmt.Sprintf(".%d", x.Field)+path)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		ps := o.places(x.X, nil)
		for _, p := range ps {
			at := p.path + path
			key := fmt.Sprintf("%p%s", p.root, at)
			if o.busy[key] {
				continue
			}
			o.busy[key] = true
			for _, s := range o.stores[p.root] {
				var f *foreign
				if strings.HasPrefix(at, s.path) {
					f = o.part(s.val, at[len(s.path):])
				} else if strings.HasPrefix(s.path, at) {
					f = o.of(s.val)
				}
				if f != nil {
					delete(o.busy, key)
					return f
				}
			}
			delete(o.busy, key)
		}
		if len(ps) > 0 {
			if _, ok := rootAddr(x.X).(*ssa.Alloc); ok {
				return nil
			}
		}
		if f := o.of(x.X); f != nil {
			return &foreign{f.what, false}
		}
		return nil
	}
	return o.of(v)
}

func (o *owner) result(c *ssa.CallCommon) *foreign {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			if f := o.of(c.Args[0]); f != nil {
				return f
			}
			if el, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && hasRefs(el.Elem()) && len(c.Args) > 1 {
				return o.of(c.Args[1])
			}
		}
		return nil
	}
	if c.IsInvoke() {
		name := c.Method.Name()
		if name == "Build" {
			return &foreign{"what a built node shares with the node it was made from", true}
		}
		if w := foreignCalls[name]; w != "" {
			return &foreign{w, false}
		}
		return nil
	}
	f := c.StaticCallee()
	if f == nil {
		return nil
	}
	if f.Pkg == o.P.pkg && len(f.Blocks) > 0 && !o.P.genFns[f] {
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if x := o.any(r.Results...); x != nil {
					return x
				}
			}
		}
		return nil
	}
	name := f.Name()
	if f.Signature.Recv() != nil {
		if name == "Build" {
			return &foreign{"what a built node shares with the node it was made from", true}
		}
		if w := foreignCalls[name]; w != "" {
			return &foreign{w, false}
		}
		if name == "Bytes" && len(c.Args) == 1 {
			// of a local buffer: owned, unless the buffer was made over foreign memory
			return o.bufferOver(c.Args[0])
		}
		return nil
	}
	if f.Pkg != nil {
		switch f.Pkg.Pkg.Path() {
		case "bytes", "slices":
			switch name {
			case "Clone", "Join", "Repeat", "Map", "ToLower", "ToUpper", "Replace", "ReplaceAll", "Title", "ToTitle", "Runes", "NewReader", "ToValidUTF8", "Concat":
				return nil
			}
			return o.any(c.Args...)
		}
	}
	return nil
}

// bufferOver: the memory given to bytes.NewBuffer.
func (o *owner) bufferOver(v ssa.Value) *foreign {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Call:
			if f := x.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "bytes" && f.Name() == "NewBuffer" {
				return o.of(x.Common().Args[0])
			}
			return nil
		case *ssa.UnOp:
			for _, p := range o.places(x.X, nil) {
				for _, s := range o.stores[p.root] {
					if s.path == p.path {
						if f := o.bufferOver(s.val); f != nil {
							return f
						}
					}
				}
			}
			return o.of(x)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if f := o.bufferOver(e); f != nil {
					return f
				}
			}
			return nil
		case *ssa.Global:
			return &foreign{"the package variable " + x.Name(), false}
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.TypeAssert:
			v = x.X
		default:
			return o.of(v)
		}
	}
	return nil
}

// calls that only read the memory they are given
func readsOnly(f *ssa.Function) bool {
	if writesFirst(f) {
		return false
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	n := f.Name()
	switch pkg {
	case "bytes":
		return n != "NewBuffer" && f.Signature.Recv() == nil || n == "Write" || n == "WriteString" || n == "ReadFrom"
	case "strings", "fmt", "strconv", "errors", "encoding/hex", "unicode/utf8":
		return n != "Encode" && n != "Decode" && n != "Sscan" && n != "Sscanf"
	case "slices":
		switch n {
		case "Sort", "SortFunc", "SortStableFunc", "Reverse", "Insert", "Delete", "DeleteFunc", "Replace", "Compact", "CompactFunc":
			return false
		}
		return true
	case "sort":
		return strings.HasPrefix(n, "Search") || strings.HasSuffix(n, "IsSorted") || strings.HasSuffix(n, "AreSorted")
	case "io":
		return n == "WriteString" || n == "Copy" || n == "CopyN" || n == "MultiReader"
	case "bufio":
		return n == "Write" || n == "NewReader" || n == "NewWriter" || n == "NewReaderSize"
	case "github.com/ipfs/go-cid", "github.com/multiformats/go-multihash", "github.com/ipld/go-ipld-prime/linking/cid":
		return true
	}
	return strings.HasPrefix(pkg, "github.com/ipld/go-ipld-prime")
}

// writesFirst: f puts its result into its first argument, and reads the others.
func writesFirst(f *ssa.Function) bool {
	if f.Pkg == nil || f.Signature.Recv() != nil {
		return false
	}
	n := f.Name()
	switch f.Pkg.Pkg.Path() {
	case "encoding/hex", "strconv", "fmt", "unicode/utf8":
		return strings.HasPrefix(n, "Append") || n == "Encode" || n == "Decode" || n == "EncodeRune"
	}
	return false
}

func (r *Report) independence() {
	P := r.P
	o := newOwner(P)
	fns := P.packageFns()
	sh := &sharing{P: P, o: o, seen: map[placed]bool{}, cells: map[placed]bool{}}
	for _, fn := range P.initTime() {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				m, ok := i.(*ssa.MakeClosure)
				if !ok || isInitFn(m.Fn.(*ssa.Function)) {
					continue
				}
				for _, fv := range m.Fn.(*ssa.Function).FreeVars {
					w := sh.refs(fv)
					r.require(w == "", "no shared state", r.pos(instrPos(i))+" ("+fn.Name()+")", "the variable %s captured during initialisation is only read%s", fv.Name(), wrong(w))
				}
			}
		}
	}
	for _, fn := range fns {
		init := isInitFn(fn)
		gen := P.genFns[fn]
		r.funcs[fn.RelString(P.pkg.Pkg)] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				where := r.pos(instrPos(i)) + " (" + fn.Name() + ")"
				// references to variables
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || init {
						continue
					}
					if _, dbg := i.(*ssa.DebugRef); dbg {
						continue
					}
					w := sh.use(i, g, "")
					r.require(w == "", "no shared state", where, "the variable %s is only read%s", g.Name(), wrong(w))
				}
				switch x := i.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok && !init {
						r.require(false, "no dependence on map order", where, "iterates over a map")
					}
				case *ssa.Store:
					if gen || init {
						continue
					}
					if f := o.of(x.Addr); f != nil && !(f.inner) {
						r.require(false, "arguments are not written", where, "a store into %s", f.what)
					} else {
						r.require(true, "arguments are not written", where, "a store into memory of the call")
					}
					if s, ok := x.Val.Type().Underlying().(*types.Slice); ok && !hasRefs(s.Elem()) {
						if fa, field := x.Addr.(*ssa.FieldAddr); field && isNode(fa.X.Type()) {
							f := o.of(x.Val)
							r.require(f == nil, "results own their bytes", where, "the slice kept in a structure is memory of the call%s", wrongForeign(f))
						}
					}
				case *ssa.MapUpdate:
					if gen || init {
						continue
					}
					if f := o.of(x.Map); f != nil {
						r.require(false, "arguments are not written", where, "a map write into %s", f.what)
					}
				case ssa.CallInstruction:
					if !gen && !init {
						r.callOwnership(o, x, where)
					}
				}
			}
		}
	}
}

func wrongForeign(f *foreign) string {
	if f == nil {
		return ""
	}
	return ": it is " + f.what
}

func (r *Report) callOwnership(o *owner, ci ssa.CallInstruction, where string) {
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "clear", "append", "delete":
			if f := o.of(c.Args[0]); f != nil {
				// appending to a slice whose capacity was cut writes elsewhere
				if s, is := c.Args[0].(*ssa.Slice); is && b.Name() == "append" && s.Max != nil {
					return
				}
				r.require(false, "arguments are not written", where, "%s to %s", b.Name(), f.what)
			} else if b.Name() == "copy" || b.Name() == "append" {
				r.require(true, "arguments are not written", where, "%s to memory of the call", b.Name())
			}
		}
		return
	}
	name := ""
	var args []ssa.Value
	if c.IsInvoke() {
		name, args = c.Method.Name(), c.Args
	} else if f := c.StaticCallee(); f != nil {
		name, args = f.Name(), c.Args
		if f.Signature.Recv() != nil && len(args) > 0 {
			args = args[1:]
		}
	} else {
		return
	}
	switch name {
	case "AssignBytes":
		if len(args) == 1 {
			f := o.of(args[0])
			what := "memory of the call"
			if f != nil {
				what = f.what
			}
			r.require(f == nil, "results own their bytes", where, "the bytes assigned are %s", what)
			if w := reusedAfter(args[0], ci); w != "" {
				r.require(false, "results own their bytes", where, "the buffer assigned is written again at %s", w)
			}
		}
		return
	case "Read", "ReadAt":
		if len(args) > 0 {
			if f := o.of(args[0]); f != nil {
				r.require(false, "arguments are not written", where, "reads into %s", f.what)
			}
		}
		return
	}
	if c.IsInvoke() {
		return
	}
	f := c.StaticCallee()
	if writesFirst(f) && len(args) > 0 {
		if x := o.of(args[0]); x != nil {
			if s, is := args[0].(*ssa.Slice); is && s.Max != nil && strings.HasPrefix(f.Name(), "Append") {
				return
			}
			r.require(false, "arguments are not written", where, "%s writes to %s", f, x.what)
		}
		return
	}
	if f.Pkg == o.P.pkg || readsOnly(f) {
		return
	}
	for _, a := range args {
		if !hasRefs(a.Type()) || plumbing(a.Type()) {
			continue
		}
		if x := o.of(a); x != nil {
			if _, isSlice := a.Type().Underlying().(*types.Slice); !isSlice {
				if m, ok := a.(*ssa.MakeInterface); !ok || !hasRefs(m.X.Type()) {
					continue
				}
			}
			r.require(false, "arguments are not written", where, "%s is given to %s, which may write it", x.what, f)
		}
	}
}

// reusedAfter: the buffer whose bytes were assigned is used again afterwards.
func reusedAfter(v ssa.Value, at ssa.CallInstruction) string {
	call, ok := v.(*ssa.Call)
	if !ok || call.Common().StaticCallee() == nil || call.Common().StaticCallee().Name() != "Bytes" || len(call.Common().Args) == 0 {
		return ""
	}
	buf := rootAddr(call.Common().Args[0])
	refs := buf.Referrers()
	if refs == nil {
		return ""
	}
	for _, u := range *refs {
		c, ok := u.(ssa.CallInstruction)
		if !ok || u == ssa.Instruction(call) || u == ssa.Instruction(at) {
			continue
		}
		if f := c.Common().StaticCallee(); f != nil {
			switch f.Name() {
			case "Len", "Cap", "Bytes", "String":
				continue
			}
		}
		if reaches(at.Block(), at, u) {
			return at.Parent().Prog.Fset.Position(u.Pos()).String()
		}
	}
	return ""
}

func reaches(b *ssa.BasicBlock, from ssa.Instruction, to ssa.Instruction) bool {
	if to.Block() == b {
		after := false
		for _, i := range b.Instrs {
			if i == to && after {
				return true
			}
			if i == from {
				after = true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		if to.Block() == x {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// ---- effects

// packages whose functions have no effect but on their arguments
var purePkgs = map[string]bool{
	"bytes": true, "bufio": true, "strings": true, "strconv": true, "errors": true, "io": true, "encoding/hex": true, "encoding/binary": true, "compress/zlib": true,
	"unicode": true, "unicode/utf8": true, "slices": true, "maps": true, "sort": true, "math": true, "math/bits": true, "cmp": true, "regexp": true, "iter": true, "context": false,
	"github.com/ipfs/go-cid": true, "github.com/multiformats/go-multihash": true, "github.com/ipfs/go-block-format": true,
	"github.com/ipld/go-ipld-prime": true, "github.com/ipld/go-ipld-prime/datamodel": true, "github.com/ipld/go-ipld-prime/schema": true,
	"github.com/ipld/go-ipld-prime/node/mixins": true, "github.com/ipld/go-ipld-prime/linking/cid": true, "github.com/ipld/go-ipld-prime/node/basicnode": true,
	"github.com/multiformats/go-multicodec": true, "github.com/multiformats/go-varint": true,
}

func effectOf(f *ssa.Function) string {
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	n := f.Name()
	switch pkg {
	case "":
		return ""
	case "fmt":
		if strings.HasPrefix(n, "Print") || strings.HasPrefix(n, "Scan") {
			return "uses the process's standard streams"
		}
		return ""
	case "io":
		return ""
	case "github.com/multiformats/go-multihash":
		if strings.HasPrefix(n, "Register") {
			return "changes the registered hash functions"
		}
	}
	if strings.Contains(f.String(), "Register") && pkg != "" && !purePkgs[pkg] {
		return "changes a registry"
	}
	if purePkgs[pkg] {
		return ""
	}
	return "has effects that are not known to be confined"
}

func (r *Report) effects() {
	P := r.P
	for _, fn := range P.packageFns() {
		r.funcs[fn.RelString(P.pkg.Pkg)] = true
		init := isInitFn(fn)
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				where := r.pos(instrPos(i)) + " (" + fn.Name() + ")"
				switch x := i.(type) {
				case *ssa.Go:
					r.require(false, "no concurrency", where, "a goroutine is started")
				case *ssa.Send, *ssa.Select, *ssa.MakeChan:
					r.require(false, "no concurrency", where, "a channel is used")
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						r.require(false, "no concurrency", where, "a channel is used")
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg != P.pkg {
						p := g.Pkg.Pkg.Path()
						r.require(purePkgs[p], "no outside variable", where, "%s.%s", p, g.Name())
					}
					f, ok := (*op).(*ssa.Function)
					if !ok || f.Pkg == P.pkg || f.Origin() != nil && f.Origin().Pkg == P.pkg || f.Object() != nil && f.Object().Pkg() == P.pkg.Pkg {
						continue
					}
					if init && f.Synthetic == "package initializer" {
						continue
					}
					if f.Pkg != nil && f.Pkg.Pkg.Path() == "github.com/ipld/go-ipld-prime/multicodec" {
						c, isCall := i.(ssa.CallInstruction)
						code := int64(-1)
						if isCall && len(c.Common().Args) > 0 {
							if k, ok := c.Common().Args[0].(*ssa.Const); ok && k.Value != nil {
								code = k.Int64()
							}
						}
						r.require(init && code == 0x78 && strings.HasPrefix(f.Name(), "Register"), "only git-raw is registered", where, "%s for code %#x", f.Name(), code)
						continue
					}
					w := effectOf(f)
					r.require(w == "", "calls without outside effect", where, "%s%s", f, wrong(w))
				}
			}
		}
	}
	for _, im := range P.ppkg.Types.Imports() {
		switch im.Path() {
		case "unsafe", "C", "reflect", "syscall", "os", "net", "plugin", "runtime", "os/exec", "log", "math/rand", "math/rand/v2", "crypto/rand", "time", "sync", "sync/atomic":
			r.require(false, "imports", im.Path(), "%s is imported", im.Path())
		default:
			r.require(true, "imports", im.Path(), "imported")
		}
	}
}

func init() {
	checks["C20"] = func(r *Report) {
		r.expl = "Over every function of the package: package variables are only read outside initialisation (no store through them, no address handed out, no map or slice they hold written); no store, copy, append or writing callee reaches memory that belongs to an argument, a node, a block or a reader's buffer; bytes handed to an assembler belong to the call and are not written afterwards; nothing iterates over a map."
		r.assume = []string{"the ownership rules for the standard library in /verif/tool", "no reflection or unsafe (C21)"}
		r.independence()
		r.atLeast("no shared state", 20)
		r.atLeast("arguments are not written", 10)
		r.atLeast("results own their bytes", 1)
	}
	checks["C21"] = func(r *Report) {
		r.expl = "Every function referred to anywhere in the package is one without effects beyond its arguments; no variable of another package with such effects is used; no goroutine, channel, unsafe, reflection or cgo; initialisation registers nothing but the git-raw codec."
		r.assume = []string{"the list of effect-free packages in /verif/tool"}
		r.effects()
		r.atLeast("calls without outside effect", 100)
		r.atLeast("only git-raw is registered", 2)
	}
}
