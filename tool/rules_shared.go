package main

// Memory that package variables lead to is followed through the package: it must
// not be written once initialisation is over.

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// types whose methods may be called on a shared value
var sharable = map[string]bool{"*regexp.Regexp": true, "*strings.Replacer": true, "error": true, "*encoding/base64.Encoding": true, "encoding/binary.ByteOrder": true}

type sharing struct {
	P     *Program
	o     *owner
	seen  map[placed]bool // references to shared memory already followed
	cells map[placed]bool // addresses of variables that hold one
}

// placed is a value, and the fields that lead to the reference in it ("" when it
// may be anywhere).
type placed struct {
	v    ssa.Value
	path string
}

func (s *sharing) refs(v ssa.Value) string { return s.refsAt(v, "") }

// down descends into a field; false: the reference is not there.
func down(path string, field int) (string, bool) {
	if path == "" {
		return "", true
	}
	h, rest, _ := strings.Cut(path, ".")
	return rest, h == strconv.Itoa(field)
}

func join(a, b string) string {
	if a == "" || b == "" {
		return a + b
	}
	return a + "." + b
}

// fieldsTo lists the fields between a variable and an address inside it.
func fieldsTo(v ssa.Value) string {
	path := ""
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			path = join(strconv.Itoa(x.Field), path)
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return path
			}
			v = x.X
		default:
			return path
		}
	}
}

// immutable types: functions, nodes behind the Node interface and their prototypes
func immutableType(t types.Type) bool {
	s := types.TypeString(t, nil)
	return sharable[s] || strings.HasSuffix(s, "Prototype") || strings.HasSuffix(s, ".Node") || strings.HasSuffix(s, ".Link")
}

func isNode(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, n := range []string{"AsString", "LookupByString", "MapIterator", "Prototype"} {
		if ms.Lookup(nil, n) == nil {
			return false
		}
	}
	return true
}

// refsAt follows every use of a value through which shared memory is reached.
func (s *sharing) refsAt(v ssa.Value, path string) string {
	at := placed{v, path}
	if s.seen[at] || v.Referrers() == nil {
		return ""
	}
	if _, ok := v.(*ssa.Const); ok {
		return ""
	}
	if _, tuple := v.Type().(*types.Tuple); !tuple && (!hasRefs(v.Type()) || immutableType(v.Type())) {
		return ""
	}
	s.seen[at] = true
	for _, u := range *v.Referrers() {
		if w := s.use(u, v, path); w != "" {
			// report it again where it is met again
			delete(s.seen, at)
			return w
		}
	}
	return ""
}

func (s *sharing) use(i ssa.Instruction, v ssa.Value, path string) string {
	switch x := i.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		return s.refs(x)
	case *ssa.MakeInterface:
		if isNode(x.X.Type()) || immutableType(x.X.Type()) {
			return "" // handed out as an immutable node
		}
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return "its address escapes"
		}
		return s.refs(x)
	case *ssa.Field:
		rest, in := down(path, x.Field)
		if !in {
			return ""
		}
		return s.refsAt(x, rest)
	case *ssa.Phi, *ssa.ChangeType, *ssa.Index:
		return s.refsAt(x.(ssa.Value), path)
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Extract, *ssa.TypeAssert, *ssa.ChangeInterface, *ssa.Lookup, *ssa.Convert, *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		return s.refs(x.(ssa.Value))
	case *ssa.Range:
		return s.eachNext(x)
	case *ssa.Store:
		if x.Addr == v {
			return "it is assigned"
		}
		return s.kept(x.Addr, path)
	case *ssa.MapUpdate:
		if x.Map == v {
			return "the map it holds is written"
		}
		return "it is kept in a map"
	case *ssa.BinOp, *ssa.DebugRef, *ssa.If, *ssa.Panic:
		return ""
	case *ssa.Return:
		return s.returned(x, v, path)
	case *ssa.MakeClosure:
		for k, b := range x.Bindings {
			if b == v {
				if w := s.refsAt(x.Fn.(*ssa.Function).FreeVars[k], path); w != "" {
					return w
				}
			}
		}
		return ""
	case ssa.CallInstruction:
		return s.call(x, v, path)
	}
	return "it is used in a way that cannot be followed"
}

func (s *sharing) eachNext(r *ssa.Range) string {
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			if w := s.tuple(n, -1); w != "" {
				return w
			}
		}
	}
	return ""
}

// tuple follows a component of a tuple, or all of them.
func (s *sharing) tuple(v ssa.Value, k int) string {
	if v.Referrers() == nil {
		return ""
	}
	for _, u := range *v.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && (k < 0 || e.Index == k) {
			if w := s.refs(e); w != "" {
				return w
			}
		}
	}
	return ""
}

// kept: a reference is stored into a variable of the function.
func (s *sharing) kept(addr ssa.Value, path string) string {
	path = join(fieldsTo(addr), path)
	switch r := rootAddr(addr).(type) {
	case *ssa.Alloc:
		return s.cell(r, path)
	case *ssa.FreeVar:
		for _, b := range bindings(r) {
			a, ok := rootAddr(b).(*ssa.Alloc)
			if !ok {
				return "it is kept"
			}
			if w := s.cell(a, join(fieldsTo(b), path)); w != "" {
				return w
			}
		}
		return ""
	}
	ps := s.o.places(addr, nil)
	for _, p := range ps {
		a, ok := p.root.(*ssa.Alloc)
		if !ok {
			return "it is kept"
		}
		if w := s.cell(a, ""); w != "" {
			return w
		}
	}
	if len(ps) == 0 {
		return "it is kept"
	}
	return ""
}

// cell follows the loads from a variable that holds a reference.
func (s *sharing) cell(v ssa.Value, path string) string {
	at := placed{v, path}
	if s.cells[at] || v.Referrers() == nil {
		return ""
	}
	s.cells[at] = true
	w := ""
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				w = s.refsAt(x, path)
			}
		case *ssa.FieldAddr:
			if rest, in := down(path, x.Field); in {
				w = s.cell(x, rest)
			}
		case *ssa.IndexAddr, *ssa.Phi, *ssa.ChangeType:
			w = s.cell(x.(ssa.Value), path)
		case *ssa.Slice:
			w = s.cell(x, path) // of an array: the elements hold references
		case *ssa.MakeClosure:
			for k, b := range x.Bindings {
				if b == v && w == "" {
					w = s.cell(x.Fn.(*ssa.Function).FreeVars[k], path)
				}
			}
		case ssa.CallInstruction:
			c := x.Common()
			if f := c.StaticCallee(); f != nil && s.own(f) {
				for k, a := range c.Args {
					if a == v && k < len(f.Params) && w == "" {
						w = s.cell(f.Params[k], path)
					}
				}
			} else if b, ok := c.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && x.Value() != nil {
					w = s.cell(x.Value(), path)
				}
			} else if f != nil && !readsOnly(f) && effectOf(f) != "" {
				w = "it is given to " + f.String()
			}
		case *ssa.Return:
			// the variable outlives the call: its holder is followed at the callers
			fn := x.Parent()
			for k, res := range x.Results {
				if res != v || w != "" {
					continue
				}
				for _, c := range s.o.callers[fn] {
					if cv := c.Value(); cv != nil && w == "" {
						if len(x.Results) == 1 {
							w = s.cell(cv, path)
						} else {
							for _, u := range *cv.Referrers() {
								if e, ok := u.(*ssa.Extract); ok && e.Index == k && w == "" {
									w = s.cell(e, path)
								}
							}
						}
					}
				}
			}
		case *ssa.Store:
			if x.Val == v {
				w = s.kept(x.Addr, "")
			}
		}
		if w != "" {
			delete(s.cells, at)
			return w
		}
	}
	return ""
}

func (s *sharing) own(f *ssa.Function) bool {
	return len(f.Blocks) > 0 && (f.Pkg == s.P.pkg || f.Origin() != nil && f.Origin().Pkg == s.P.pkg || f.Parent() != nil || f.Pkg == nil && f.Synthetic != "")
}

func (s *sharing) returned(x *ssa.Return, v ssa.Value, path string) string {
	fn := x.Parent()
	for k, res := range x.Results {
		if res != v {
			continue
		}
		if fn.Parent() != nil && len(s.o.callers[fn]) == 0 {
			return "it is handed out by a function value"
		}
		if o := fn.Object(); o != nil && o.Exported() && (fn.Signature.Recv() == nil || exportedRecv(fn)) {
			return "it is handed out by " + fn.Name()
		}
		for _, c := range s.o.callers[fn] {
			cv := c.Value()
			if cv == nil {
				continue
			}
			w := ""
			if len(x.Results) == 1 {
				w = s.refsAt(cv, path)
			} else {
				w = s.tuple(cv, k)
			}
			if w != "" {
				return w
			}
		}
	}
	return ""
}

func exportedRecv(fn *ssa.Function) bool { return token.IsExported(recvName(fn)) }

func (s *sharing) call(x ssa.CallInstruction, v ssa.Value, path string) string {
	c := x.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "print", "println", "min", "max":
			return ""
		case "append", "copy":
			if c.Args[0] == v {
				break
			}
			if b.Name() == "append" && x.Value() != nil {
				if t, ok := x.Value().Type().Underlying().(*types.Slice); ok && hasRefs(t.Elem()) {
					return s.refs(x.Value())
				}
			}
			return ""
		}
		return "it is changed by " + b.Name()
	}
	if c.IsInvoke() {
		if c.Value == v {
			if immutableType(v.Type()) {
				return ""
			}
			return "it is used through " + c.Method.Name()
		}
		switch c.Method.Name() {
		case "Read", "ReadAt":
			return "it is read into"
		}
		return ""
	}
	f := c.StaticCallee()
	if f == nil {
		if c.Value == v {
			return ""
		}
		return "it is given to a function value"
	}
	if s.own(f) {
		for k, a := range c.Args {
			if a == v && k < len(f.Params) {
				if w := s.refsAt(f.Params[k], path); w != "" {
					return w
				}
			}
		}
		return ""
	}
	if readsOnly(f) {
		if r := x.Value(); r != nil && types.Identical(r.Type(), v.Type()) {
			return s.refs(r)
		}
		return ""
	}
	return "it is given to " + f.String()
}
