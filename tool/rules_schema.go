package main

// The typed nodes: the generated code against the code of the schema (equiv.go).

import (
	"embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed ref/*.txt
var refText embed.FS

// loadReference loads the package with nothing but the reference text in it.
func (P *Program) loadReference() (*Program, error) {
	over := map[string][]byte{}
	dir := filepath.Dir(P.ppkg.CompiledGoFiles[0])
	for _, f := range P.ppkg.CompiledGoFiles {
		over[f] = []byte("package ipldgit\n")
	}
	es, err := refText.ReadDir("ref")
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		b, err := refText.ReadFile("ref/" + e.Name())
		if err != nil {
			return nil, err
		}
		over[filepath.Join(dir, strings.TrimSuffix(e.Name(), ".txt"))] = b
	}
	return load(repoDir(), over)
}

// ownFunctions lists the functions written in the package's source by their keys.
func (P *Program) ownFunctions() map[string]*ssa.Function {
	m := map[string]*ssa.Function{}
	for fn := range P.functions() {
		if fn.Pkg == P.pkg && fn.Synthetic == "" && fn.Parent() == nil && len(fn.Blocks) > 0 && !strings.HasPrefix(fn.Name(), "init#") {
			m[fnKey(fn, P.pkg.Pkg)] = fn
		}
	}
	return m
}

// recvName is the name of the type a method belongs to.
func recvName(fn *ssa.Function) string {
	v := fn.Signature.Recv()
	if v == nil {
		return ""
	}
	t := types.Unalias(v.Type())
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// writeSide tells methods that build nodes from methods that show them.
func writeSide(fn *ssa.Function) bool {
	n := recvName(fn)
	return strings.HasSuffix(n, "Assembler") || strings.HasSuffix(n, "Builder") || strings.HasSuffix(n, "Prototype")
}

type schemaResult struct {
	ref, got   map[string]*ssa.Function
	names      []string
	equal      map[string]string // how: "form" or "paths"
	diff       map[string]*eqDiff
	undecided  map[string]string
	missing    []string
	types      map[string]string // differences of types and variables
	nTypes     int
	nVars      int
	paths      int
	pairs      int
	refP, gotP *Program
}

func (P *Program) eqRunner(pool *eqPool, common, globals map[string]bool) *eqRun {
	r := &eqRun{p: pool, P: P, pkg: P.pkg, common: func(n string) bool { return common[n] }, globals: func(n string) bool { return globals[n] }, written: P.writtenGlobals()}
	r.runInit()
	return r
}

// runInit learns the initial contents of the package's variables.
func (r *eqRun) runInit() {
	fn := r.pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	defer func() {
		r.inInit = false
		if e := recover(); e != nil {
			if _, ok := e.(eqGiveUp); !ok {
				panic(e)
			}
		}
	}()
	r.inInit = true
	st := &eqState{vals: map[eqKey]*eqE{}, known: map[*eqE]bool{}, escaped: map[*eqE]int{}, stale: map[*eqE]bool{}, cut: map[eqHead]string{}, turns: map[eqHead]int{}}
	r.enter(st, fn, nil, nil, nil, "", func(st *eqState, _ []*eqE) {
		if len(st.log) > len(r.initLog) {
			r.initLog = st.log
		}
	})
}

// globalContents describes what a variable holds after initialisation.
func (r *eqRun) globalContents(name string) string {
	m := map[string]string{}
	for _, c := range r.initLog {
		b, _ := cellParts(c.addr)
		if b.op == "ia" {
			b, _ = cellParts(b.args[0])
		}
		if b.op == "global" && b.s == name {
			m[c.addr.String()] = c.val.String()
		}
	}
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, k+" = "+m[k])
	}
	return strings.Join(s, "; ")
}

var schemaCache = map[*Program]*schemaResult{}

func (P *Program) compareSchema(everyPath bool) (*schemaResult, error) {
	if r, ok := schemaCache[P]; ok {
		return r, nil
	}
	R, err := P.loadReference()
	if err != nil {
		return nil, fmt.Errorf("the reference text does not load against this tree's dependencies: %w", err)
	}
	res := &schemaResult{ref: R.ownFunctions(), got: P.ownFunctions(), equal: map[string]string{}, diff: map[string]*eqDiff{}, undecided: map[string]string{}, types: map[string]string{}, refP: R, gotP: P}
	schemaCache[P] = res
	common := map[string]bool{}
	for n := range res.ref {
		if _, ok := res.got[n]; ok {
			common[n] = true
			res.names = append(res.names, n)
		} else {
			res.missing = append(res.missing, n)
		}
	}
	sort.Strings(res.names)
	sort.Strings(res.missing)
	globals := map[string]bool{}
	for n, m := range R.pkg.Members {
		if _, ok := m.(*ssa.Global); ok {
			if _, ok := P.pkg.Members[n].(*ssa.Global); ok {
				globals[n] = true
			}
		}
	}
	pool := newEqPool()
	pool.learnDomains(res.ref, R.pkg.Pkg)
	pool.learnDomains(res.got, P.pkg.Pkg)
	a, b := R.eqRunner(pool, common, globals), P.eqRunner(pool, common, globals)

	// declarations
	rs, gs := R.pkg.Pkg.Scope(), P.pkg.Pkg.Scope()
	for _, n := range rs.Names() {
		o, g := rs.Lookup(n), gs.Lookup(n)
		switch o := o.(type) {
		case *types.TypeName:
			res.nTypes++
			if g == nil {
				if ast.IsExported(n) {
					res.types[n] = "the type " + n + " is gone"
				}
				continue
			}
			want, have := typeKey(o.Type().Underlying()), typeKey(g.Type().Underlying())
			if o.IsAlias() {
				want, have = typeKey(o.Type()), typeKey(g.Type())
			}
			if want != have {
				res.types[n] = fmt.Sprintf("the type %s is %s, the schema's is %s", n, have, want)
			}
		case *types.Var:
			res.nVars++
			if g == nil {
				if ast.IsExported(n) {
					res.types[n] = "the variable " + n + " is gone"
				}
				continue
			}
			if x, y := a.globalContents(n), b.globalContents(n); x != y {
				res.types[n] = fmt.Sprintf("the variable %s starts as [%s], the schema's as [%s]", n, y, x)
			}
			if b.written[P.pkg.Pkg.Path()+"."+n] {
				res.types[n] = "the variable " + n + " is written outside initialisation"
			}
		}
	}

	check := func(n string, every bool) {
		x, y := res.ref[n], res.got[n]
		if !every && !names(y, func(f *ssa.Function) bool { n := fnKey(f, P.pkg.Pkg); return res.got[n] != nil && !common[n] }) && sameForm(R, P, x, y) {
			res.equal[n] = "form"
			return
		}
		if tx, ty := typeKey(x.Signature), typeKey(y.Signature); tx != ty {
			res.diff[n] = &eqDiff{msg: "its signature is " + ty + ", the schema's is " + tx, pos: y.Pos()}
			return
		}
		a.reading, b.reading = !writeSide(x), !writeSide(x)
		pool.forget()
		// Functions of both that only one side calls are looked into, then all of them:
		// work may have been moved between a function and one that it calls.
		var first *eqDiff
		undecided := ""
		force := map[string]bool{}
		for stage := 0; stage < 4; stage++ {
			a.force, b.force = force, force
			ls, e1 := a.summary(x)
			ls = append([]eqLeaf{}, ls...)
			ms, e2 := b.summary(y)
			if e1 != "" || e2 != "" {
				if stage == 0 {
					undecided = e1 + e2
				}
			} else {
				if stage == 0 {
					res.paths += len(ms)
				}
				k, d := eqCompare(pool, ls, ms)
				res.pairs += k
				if d == nil {
					res.equal[n] = "paths"
					return
				}
				if lx, ly := loopShape(ls), loopShape(ms); stage == 0 && lx != ly {
					undecided = "its loops have another form than the schema's: " + d.msg
				}
				if stage == 0 {
					first = d
				}
			}
			next := map[string]bool{}
			for f := range force {
				next[f] = true
			}
			for _, f := range append(sortedKeys(a.asked), sortedKeys(b.asked)...) {
				if stage >= 2 || !a.asked[f] || !b.asked[f] {
					next[f] = true
				}
			}
			if len(next) == len(force) && stage >= 2 {
				break
			}
			force = next
		}
		if undecided != "" {
			res.undecided[n] = undecided
			return
		}
		res.diff[n] = first
	}
	run := func() {
		res.equal, res.diff, res.undecided = map[string]string{}, map[string]*eqDiff{}, map[string]string{}
		for _, n := range res.names {
			if common[n] {
				check(n, everyPath)
			}
		}
	}
	run()
	// work moved between an unexported helper and its callers is judged in the callers
	for round := 0; round < 3; round++ {
		moved := false
		for _, n := range res.names {
			if common[n] && (res.diff[n] != nil || res.undecided[n] != "") && helperOnly(R, res.ref[n]) {
				common[n] = false
				moved = true
			}
		}
		if !moved {
			break
		}
		run()
	}
	return res, nil
}

// helperOnly tells whether a function is only ever called by its name.
func helperOnly(P *Program, fn *ssa.Function) bool {
	switch fn.Name() {
	case "valueFinishTidy", "keyFinishTidy", "reset":
		return true
	}
	return false
}

// names tells whether an instruction of fn names such a function.
func names(fn *ssa.Function, is func(*ssa.Function) bool) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				if f, ok := (*o).(*ssa.Function); ok && is(f) {
					return true
				}
			}
		}
	}
	return false
}

// loopShape counts the loops and the variables they carry.
func loopShape(ls []eqLeaf) string {
	m := map[string]bool{}
	for _, l := range ls {
		for _, e := range l.effects {
			if strings.HasPrefix(e.what, "loop ") {
				m[fmt.Sprintf("%s/%d", e.what, len(e.args))] = true
			}
		}
	}
	return strings.Join(sortedKeys(m), " ")
}

// sameForm compares two functions instruction by instruction.
func sameForm(A, B *Program, x, y *ssa.Function) bool {
	return canonical(A, x) == canonical(B, y)
}

func canonical(P *Program, fn *ssa.Function) string {
	var b strings.Builder
	num := map[ssa.Value]string{}
	for i, p := range fn.Params {
		num[p] = fmt.Sprintf("p%d", i)
		b.WriteString(typeKey(p.Type()) + "\n")
	}
	b.WriteString(typeKey(fn.Signature) + "\n")
	if len(fn.AnonFuncs) > 0 {
		return fmt.Sprintf("%p", fn)
	}
	k := 0
	for _, bl := range fn.Blocks {
		for _, i := range bl.Instrs {
			if v, ok := i.(ssa.Value); ok {
				num[v] = fmt.Sprintf("t%d", k)
				k++
			}
		}
	}
	op := func(v ssa.Value) string {
		switch v := v.(type) {
		case nil:
			return "_"
		case *ssa.Const:
			if v.Value == nil {
				return "c:nil" + typeKey(v.Type())
			}
			return "c:" + v.Value.ExactString() + typeKey(v.Type())
		case *ssa.Global:
			if v.Pkg == P.pkg {
				return "g:" + v.Name()
			}
			return "g:" + extName(v.Pkg.Pkg.Path(), v.Name())
		case *ssa.Function:
			return "f:" + fnKey(v, P.pkg.Pkg)
		case *ssa.Builtin:
			return "b:" + v.Name()
		}
		return num[v]
	}
	for _, bl := range fn.Blocks {
		fmt.Fprintf(&b, "B%d", bl.Index)
		for _, s := range bl.Succs {
			fmt.Fprintf(&b, " ->%d", s.Index)
		}
		b.WriteByte('\n')
		for _, i := range bl.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			fmt.Fprintf(&b, "%T", i)
			if v, ok := i.(ssa.Value); ok {
				b.WriteString(" " + num[v] + ":" + typeKey(v.Type()))
			}
			switch x := i.(type) {
			case *ssa.BinOp:
				b.WriteString(" " + x.Op.String())
			case *ssa.UnOp:
				fmt.Fprintf(&b, " %s %v", x.Op, x.CommaOk)
			case *ssa.FieldAddr:
				fmt.Fprintf(&b, " .%d", x.Field)
			case *ssa.Field:
				fmt.Fprintf(&b, " .%d", x.Field)
			case *ssa.Extract:
				fmt.Fprintf(&b, " #%d", x.Index)
			case *ssa.TypeAssert:
				fmt.Fprintf(&b, " %s %v", typeKey(x.AssertedType), x.CommaOk)
			case *ssa.Lookup:
				fmt.Fprintf(&b, " %v", x.CommaOk)
			case *ssa.Call:
				if x.Call.IsInvoke() {
					b.WriteString(" ." + x.Call.Method.Name())
				}
			}
			for _, o := range i.Operands(nil) {
				b.WriteString(" " + op(*o))
			}
			b.WriteByte('\n')
		}
	}
	return b.String()
}

// ---- the schema that the generator is given

type schemaField struct {
	name, typ          string
	optional, nullable bool
}

type schemaType struct {
	kind       string // String, Bytes, Link, LinkReference, List, Map, Struct
	name       string
	a, b       string // element, key, value, target
	nullable   bool
	fields     []schemaField
	serial     map[string]string // representation keys that differ
	unreadable string
}

type schemaDecl struct {
	types   []schemaType
	lower   map[[2]string]string
	pkgName string
}

// readSchema interprets the generator's main function.
func (P *Program) readSchema() (ds []*schemaDecl, why string) {
	if P.gen == nil {
		return nil, "no package main in a directory gen"
	}
	var sp *ssa.Package
	for i, p := range P.allPkgs {
		if p == P.gen {
			sp = P.ssaPkgs[i]
		}
	}
	if sp == nil || sp.Func("main") == nil {
		return nil, "the generator has no main function"
	}
	none := func(string) bool { return false }
	r := &eqRun{p: newEqPool(), P: P, pkg: sp, common: none, globals: none, written: map[string]bool{}}
	r.runInit()
	ls, err := r.summary(sp.Func("main"))
	if err != "" {
		return nil, err
	}
	for i := range ls {
		l := &ls[i]
		gen := -1
		for j, e := range l.effects {
			if strings.HasSuffix(e.what, "schema/gen/go.Generate") {
				gen = j
			}
		}
		if gen < 0 {
			continue
		}
		d := &schemaDecl{lower: map[[2]string]string{}}
		str := func(e *eqE) string { return eqStr(e) }
		if len(l.effects[gen].args) > 1 {
			d.pkgName = str(l.effects[gen].args[1])
		}
		updates := map[*eqE]map[string]string{}
		for _, e := range l.effects[:gen] {
			switch {
			case e.what == "map update":
				m, k, v := e.args[0], e.args[1], e.args[2]
				if k.op == "struct" && len(k.args) == 2 {
					d.lower[[2]string{str(k.args[0]), str(k.args[1])}] = str(v)
				} else if k.op == "const" {
					if updates[m] == nil {
						updates[m] = map[string]string{}
					}
					updates[m][str(k)] = str(v)
				}
			case strings.HasSuffix(e.what, "schema.TypeSystem).Accumulate"):
				d.types = append(d.types, readSpawn(e.args[1], updates))
			}
		}
		ds = append(ds, d)
	}
	if len(ds) == 0 {
		return nil, "main does not call the generator"
	}
	return ds, ""
}

func eqStr(e *eqE) string {
	if e.op == "const" {
		s := e.c.ExactString()
		if u, err := strconv.Unquote(s); err == nil {
			return u
		}
		return s
	}
	return "?" + e.String()
}

func readSpawn(e *eqE, updates map[*eqE]map[string]string) schemaType {
	if e.op == "iface" {
		e = e.args[0]
	}
	t := schemaType{unreadable: e.String()}
	if e.op != "call" {
		return t
	}
	str := func(i int) string { return eqStr(e.args[i]) }
	flag := func(x *eqE) bool { b, _ := x.bool(); return b }
	_, t.kind, _ = strings.Cut(e.s, ".Spawn")
	t.name = str(0)
	switch t.kind {
	case "String", "Bytes", "Link":
	case "LinkReference":
		t.a = str(1)
	case "List":
		t.a, t.nullable = str(1), flag(e.args[2])
	case "Map":
		t.a, t.b, t.nullable = str(1), str(2), flag(e.args[3])
	case "Struct":
		if e.args[1].op != "list" {
			return t
		}
		for _, f := range e.args[1].args {
			if f.op != "call" || !strings.HasSuffix(f.s, ".SpawnStructField") {
				return t
			}
			t.fields = append(t.fields, schemaField{eqStr(f.args[0]), eqStr(f.args[1]), flag(f.args[2]), flag(f.args[3])})
		}
		rep := e.args[2]
		for rep.op == "iface" {
			rep = rep.args[0]
		}
		if rep.op != "call" || !strings.HasSuffix(rep.s, ".SpawnStructRepresentationMap") {
			t.unreadable = "the representation " + rep.String()
			return t
		}
		t.serial = updates[rep.args[0]]
	default:
		return t
	}
	t.unreadable = ""
	return t
}

// goType is the structure the generator declares for a type of the schema.
func (d *schemaDecl) goType(t schemaType, pkg string) string {
	ref := func(n string, maybe bool) string {
		if maybe {
			n += "__Maybe"
		}
		return pkg + "._" + n
	}
	switch t.kind {
	case "String":
		return "struct{x string}"
	case "Bytes":
		return "struct{x []byte}"
	case "Link", "LinkReference":
		return "struct{x " + modelPath + ".Link}"
	case "List":
		return "struct{x []" + ref(t.a, t.nullable) + "}"
	case "Map":
		v := "*" + ref(t.b, t.nullable)
		return "struct{m map[" + ref(t.a, false) + "]" + v + ";t []" + pkg + "._" + t.name + "__entry}"
	}
	var fs []string
	for _, f := range t.fields {
		n := f.name
		if o, ok := d.lower[[2]string{t.name, f.name}]; ok {
			n = o
		}
		fs = append(fs, n+" "+ref(f.typ, f.optional || f.nullable))
	}
	return "struct{" + strings.Join(fs, ";") + "}"
}

func titled(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// ---- rules

func (r *Report) schemaObligations(keep func(fn *ssa.Function) bool) *schemaResult {
	res, err := r.P.compareSchema(r.tier == "thorough")
	if err != nil {
		r.fail("analysable", "schema", "%v", err)
		return nil
	}
	r.schemaFunctions(res, keep)
	return res
}

func (r *Report) schemaFunctions(res *schemaResult, keep func(fn *ssa.Function) bool) {
	for _, n := range res.names {
		fn := res.got[n]
		if !keep(res.ref[n]) {
			continue
		}
		r.funcs[n] = true
		switch {
		case res.diff[n] != nil:
			d := res.diff[n]
			at := d.pos
			if !at.IsValid() {
				at = fn.Pos()
			}
			when := ""
			if len(d.when) > 0 {
				when = " when " + strings.Join(d.when, " and ")
			}
			r.require(false, "does what the schema's code does", r.pos(at), "%s: %s%s", n, d.msg, when)
		case res.undecided[n] != "":
			r.undecided("does what the schema's code does", r.pos(fn.Pos()), "%s: %s", n, res.undecided[n])
		case res.equal[n] != "":
			r.require(true, "does what the schema's code does", r.pos(fn.Pos()), "%s: same %s", n, res.equal[n])
		}
	}
	for _, n := range res.missing {
		fn := res.ref[n]
		if keep(fn) && ast.IsExported(fn.Name()) && fn.Signature.Recv() != nil && ast.IsExported(strings.TrimPrefix(recvName(fn), "_")) {
			r.require(false, "does what the schema's code does", n, "the method is gone")
		}
	}
}

func init() {
	how := " Every function of the generated code is compared with the function of the same name in the code of the schema (reference text, equal to what gengo emits): first instruction by instruction, and where the form differs by path summaries, in which a path is the comparisons taken, the calls made with their arguments and the memory they see, the values returned and the cells stored. Helpers with no counterpart are looked into. A difference between two paths whose comparisons can hold together is a violation."
	trustRef := "The reference text (tool/ref) does what the property says; it was read, and equals the output of gengo for the schema in gen/gen.go."
	checks["C18"] = func(r *Report) {
		r.expl = "Reading typed nodes." + how
		r.assume = []string{trustRef}
		res := r.schemaObligations(func(fn *ssa.Function) bool { return !writeSide(fn) })
		if res == nil {
			return
		}
		for _, n := range sortedKeys(res.types) {
			r.require(false, "declarations", n, "%s", res.types[n])
		}
		r.oblig["declarations"] += res.nTypes + res.nVars - len(res.types)
		r.disch["declarations"] += res.nTypes + res.nVars - len(res.types)
		r.atLeast("does what the schema's code does", 350)
		r.notes = append(r.notes, fmt.Sprintf("%d functions compared, %d paths, %d pairs of paths", len(res.names), res.paths, res.pairs))
	}
	checks["C19"] = func(r *Report) {
		r.expl = "Assembling typed nodes." + how
		r.assume = []string{trustRef}
		res := r.schemaObligations(writeSide)
		if res == nil {
			return
		}
		for _, n := range sortedKeys(res.types) {
			r.require(false, "declarations", n, "%s", res.types[n])
		}
		r.oblig["declarations"] += res.nTypes + res.nVars - len(res.types)
		r.disch["declarations"] += res.nTypes + res.nVars - len(res.types)
		r.atLeast("does what the schema's code does", 500)
		r.notes = append(r.notes, fmt.Sprintf("%d functions compared, %d paths, %d pairs of paths", len(res.names), res.paths, res.pairs))
	}
	checks["C22"] = func(r *Report) {
		r.expl = "The generator's main function is summarised; the types it accumulates before it calls the generator, on every path that does, are compared with the package's declarations: a structure for each type, fields by name, order, type and optionality, the key texts of each field at both levels, the set of required fields, list elements, map keys and values, link targets, the type table and the package name."
		r.assume = []string{"gengo emits for a schema the declarations checked here."}
		r.schemaAgrees()
	}
}

// nullFields finds the fields whose assemblers are told that null is allowed, by
// struct and field name, and whether something else is told so.
func (P *Program) nullFields(fns map[string]*ssa.Function) (map[string]token.Pos, bool) {
	nulls, other := map[string]token.Pos{}, false
	allow, _ := P.pkg.Pkg.Scope().Lookup("allowNull").(*types.Const)
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || allow == nil || c.Value == nil || !types.Identical(c.Type(), allow.Type()) || !constant.Compare(c.Value, token.EQL, allow.Val()) {
						continue
					}
					switch x := i.(type) {
					case *ssa.BinOp:
						continue
					case *ssa.Store:
						if m, ok := x.Addr.(*ssa.FieldAddr); ok {
							if f, ok := m.X.(*ssa.FieldAddr); ok {
								if n, st := structBehind(f.X.Type()); n != "" {
									nulls[n+"."+st.Field(f.Field).Name()] = x.Pos()
									continue
								}
							}
						}
					}
					other = true
				}
			}
		}
	}
	return nulls, other
}

// structBehind names the struct that a pointer points to.
func structBehind(t types.Type) (string, *types.Struct) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return "", nil
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return "", nil
	}
	st, _ := n.Underlying().(*types.Struct)
	if st == nil {
		return "", nil
	}
	return n.Obj().Name(), st
}

func (r *Report) schemaAgrees() {
	P := r.P
	ds, why := P.readSchema()
	if why != "" {
		r.undecided("schema", "gen", "the generator's schema could not be read: %s", why)
		return
	}
	pkg := P.pkg.Pkg.Path()
	scope := P.pkg.Pkg.Scope()
	all := func(string) bool { return true }
	run := &eqRun{p: newEqPool(), P: P, pkg: P.pkg, common: all, globals: all, written: map[string]bool{}}
	run.runInit()
	fns := P.ownFunctions()
	nulls, someNull := P.nullFields(fns)
	at := "gen"
	if f := P.gen.Syntax; len(f) > 0 {
		at = r.pos(f[0].Pos())
	}
	for _, d := range ds {
		r.oblig["analysed entry point"]++
		r.disch["analysed entry point"]++
		if !strings.HasPrefix(d.pkgName, "?") {
			r.require(d.pkgName == P.pkg.Pkg.Name(), "package name", at, "the generator writes package %s", d.pkgName)
		}
		names := map[string]bool{}
		readable := true
		for _, t := range d.types {
			if t.unreadable != "" || strings.HasPrefix(t.name, "?") {
				readable = false
				r.undecided("schema", at, "a type could not be read: %s", t.unreadable)
				continue
			}
			r.require(!names[t.name], "types", at, "the type %s is declared twice", t.name)
			names[t.name] = true
			o, _ := scope.Lookup("_" + t.name).(*types.TypeName)
			if !r.require(o != nil, "types", at, "the schema's type %s has no Go type _%s", t.name, t.name) {
				continue
			}
			want, have := d.goType(t, pkg), typeKey(o.Type().Underlying())
			r.require(want == have, "types", r.pos(o.Pos()), "the schema's %s is %s, the package's is %s", t.name, want, have)
			r.funcs["_"+t.name] = true
			switch t.kind {
			case "Struct":
				suff := int64(0)
				for i, f := range t.fields {
					n := f.name
					if o, ok := d.lower[[2]string{t.name, f.name}]; ok {
						n = o
					}
					where, can := nulls["_"+t.name+"."+n]
					switch {
					case can:
						r.require(f.nullable, "null fields", r.pos(where), "the field %s of %s can be set to null, in the schema it can not", f.name, t.name)
					case f.nullable && someNull:
						r.undecided("null fields", at, "the field %s of %s can be null in the schema; where the package allows it is not known", f.name, t.name)
					default:
						r.require(!f.nullable, "null fields", r.pos(o.Pos()), "the field %s of %s can be null in the schema, but nothing in the package allows it", f.name, t.name)
					}
					if !f.optional {
						suff |= 1 << i
					}
					for _, level := range []string{"", "_serial"} {
						key := f.name
						if s, ok := t.serial[f.name]; ok && level != "" {
							key = s
						}
						v := "fieldName__" + t.name + "_" + titled(f.name) + level
						c := run.globalContents(v)
						if scope.Lookup(v) == nil {
							continue
						}
						r.require(c == v+".x = "+strconv.Quote(key), "field keys", r.pos(scope.Lookup(v).Pos()), "%s holds [%s], the schema's key is %q", v, c, key)
					}
				}
				side := "fieldBits__" + t.name + "_sufficient"
				switch c := scope.Lookup(side).(type) {
				case *types.Const:
					n, _ := constant.Int64Val(c.Val())
					r.require(n == suff, "required fields", r.pos(c.Pos()), "%s is %b, the schema's required fields are %b", side, n, suff)
				case *types.Var:
					v := run.globalContents(side)
					r.require(v == fmt.Sprintf("%s = %d", side, suff), "required fields", r.pos(c.Pos()), "[%s], the schema's required fields are %d", v, suff)
				}
			case "LinkReference":
				fn := fns["(*_"+t.name+").LinkTargetNodePrototype"]
				if !r.require(fn != nil, "link targets", r.pos(o.Pos()), "links of type %s have no target prototype", t.name) {
					continue
				}
				ls, err := run.summary(fn)
				if err != "" {
					r.undecided("link targets", r.pos(fn.Pos()), "%s", err)
					continue
				}
				for _, l := range ls {
					want := "iface:" + pkg + "._" + t.a + "__ReprPrototype(struct)"
					r.require(len(l.res) == 1 && l.res[0].String() == want, "link targets", r.pos(fn.Pos()), "links of type %s give the prototype %v, the schema's target is %s", t.name, l.res, t.a)
				}
			case "Link":
				_, has := fns["(*_"+t.name+").LinkTargetNodePrototype"]
				r.require(!has, "link targets", r.pos(o.Pos()), "links of type %s have a target, the schema gives none", t.name)
			}
		}
		if slab, ok := scope.Lookup("typeSlab").(*types.TypeName); ok && readable {
			st, _ := slab.Type().Underlying().(*types.Struct)
			have := map[string]bool{}
			for i := 0; st != nil && i < st.NumFields(); i++ {
				f := st.Field(i)
				n := f.Name()
				have[n] = true
				base, repr := strings.CutSuffix(n, "__Repr")
				suffix := "__Prototype"
				if repr {
					suffix = "__ReprPrototype"
				}
				got := typeKey(f.Type())
				alt := got == pkg+"._"+base+"__Prototype" && repr // an alias where both levels are alike
				r.require(got == pkg+"._"+base+suffix || alt, "type table", r.pos(f.Pos()), "Type.%s is %s", n, got)
				r.require(names[base], "type table", r.pos(f.Pos()), "Type.%s is not a type of the schema", n)
			}
			for _, n := range sortedKeys(names) {
				r.require(have[n] && have[n+"__Repr"], "type table", r.pos(slab.Pos()), "the schema's type %s is not in the type table", n)
			}
		}
	}
	r.atLeast("types", 28)
	r.atLeast("field keys", 30)
	r.atLeast("null fields", 15)
	r.atLeast("link targets", 4)
}
