package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The decoders build their nodes with the generated assemblers, and the encoders read
// them with the generated nodes and convert them with the generated assemblers. The rules
// of the properties take these to do what the schema's code does; the obligations here
// discharge that for the generated functions that the property's own code can come to,
// as far as the differences concern the property.

// baseType names the schema type that a generated type belongs to.
func baseType(name string) string {
	name = strings.TrimPrefix(strings.TrimPrefix(name, "_"), "Maybe")
	if i := strings.Index(name, "__"); i >= 0 {
		name = name[:i]
	}
	return name
}

// generatedUse lists the functions of the generated code that the entry points can
// come to: static calls, function values, and methods of the schema types by name.
func (P *Program) generatedUse(entries []string, types_ map[string]bool) map[string]bool {
	own := P.ownFunctions()
	byName := map[string][]*ssa.Function{}
	for _, fn := range own {
		if fn.Signature.Recv() != nil && types_[baseType(recvName(fn))] {
			byName[fn.Name()] = append(byName[fn.Name()], fn)
		}
	}
	seen := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn == nil || seen[fn] || len(fn.Blocks) == 0 {
			return
		}
		if fn.Pkg != P.pkg && fn.Parent() == nil && fn.Synthetic == "" && (fn.Origin() == nil || fn.Origin().Pkg != P.pkg) {
			return
		}
		if fn.Signature.Recv() != nil && P.genFns[fn] && !types_[baseType(recvName(fn))] {
			return
		}
		seen[fn] = true
		todo = append(todo, fn)
	}
	for _, e := range entries {
		add(P.pkg.Func(e))
	}
	for len(todo) > 0 {
		fn := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if f, ok := (*o).(*ssa.Function); ok {
						add(f)
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, f := range byName[c.Common().Method.Name()] {
						add(f)
					}
				}
			}
		}
	}
	m := map[string]bool{}
	for fn := range seen {
		m[fnKey(fn, P.pkg.Pkg)] = true
	}
	return m
}

// succeeds tells whether a path of fn may return without an error.
func succeeds(fn *ssa.Function, l *eqLeaf) bool {
	if l == nil || l.kind != "return" {
		return false
	}
	rs := fn.Signature.Results()
	n := rs.Len()
	if n == 0 || !types.Identical(rs.At(n-1).Type(), types.Universe.Lookup("error").Type()) || len(l.res) != n {
		return true
	}
	switch l.res[n-1].op {
	case "iface", "call":
		return false
	}
	return true
}

func reports(fn *ssa.Function, l *eqLeaf) bool {
	if l == nil || l.kind != "return" {
		return false
	}
	rs := fn.Signature.Results()
	n := rs.Len()
	return n > 0 && len(l.res) == n && types.Identical(rs.At(n-1).Type(), types.Universe.Lookup("error").Type()) && l.res[n-1].op != "nil"
}

// what a difference must be about to concern a property

func concernsPanics(fn *ssa.Function, d *eqDiff) bool {
	if d.ref == nil || d.got == nil {
		return false
	}
	if d.ref.kind == "return" && d.got.kind == "panic" {
		return true
	}
	return d.ref.kind == "return" && nilled.MatchString(d.msg)
}

var nilled = regexp.MustCompile(`: nil, where|is set to nil,|is not set to (&|esc|new|alloc|iface)`)

func concernsErrors(fn *ssa.Function, d *eqDiff) bool {
	if d.ref == nil || d.got == nil || !reports(fn, d.ref) {
		return false
	}
	return d.got.kind == "return" && !reports(fn, d.got) || strings.HasPrefix(d.msg, "result:")
}

func concernsData(fn *ssa.Function, d *eqDiff) bool {
	return d.ref == nil || succeeds(fn, d.ref)
}

// concernsRefusal: what the schema's code takes is refused.
func concernsRefusal(fn *ssa.Function, d *eqDiff) bool {
	if d.ref == nil || d.got == nil || d.ref.kind != "return" || reports(fn, d.ref) {
		return false
	}
	return d.got.kind == "return" && reports(fn, d.got)
}

// concernsCause: an error that was met is not the one returned.
func concernsCause(fn *ssa.Function, d *eqDiff) bool {
	if d.ref == nil || d.got == nil || !reports(fn, d.ref) || !reports(fn, d.got) || !strings.HasPrefix(d.msg, "result:") {
		return false
	}
	met := func(l *eqLeaf) bool {
		var rec func(e *eqE) bool
		rec = func(e *eqE) bool {
			if e.op == "res" {
				return true
			}
			for _, a := range e.args {
				if rec(a) {
					return true
				}
			}
			return false
		}
		return rec(l.res[len(l.res)-1])
	}
	return met(d.ref) && !met(d.got)
}

type protocolUse struct {
	entries  []string
	types    []string
	concerns func(*ssa.Function, *eqDiff) bool
	only     func(*ssa.Function) bool // further restriction
	vars     bool                     // key texts count
}

func protocols() map[string]protocolUse {
	dec := []string{"DecodeOptions", "Decode", "DecodeBlock", "ParseCompressedObject", "ParseObject", "ParseObjectFromBuffer", "DecodeBlob", "DecodeTree", "DecodeCommit", "DecodeTag"}
	enc := []string{"Encode", "EncodeGeneric"}
	commit := []string{"Commit", "Commit_Link_List", "Commit_Link", "Tree_Link", "PersonInfo", "String", "String_List", "Tag", "Tag_List", "GpgSig", "Link", "Signature"}
	tag := []string{"Tag", "Link", "PersonInfo", "String"}
	tree := []string{"Tree", "TreeEntry", "String", "Link"}
	blob := []string{"Blob"}
	all := append(append(append([]string{}, commit...), "Tree", "TreeEntry"), blob...)
	one := func(words ...string) func(*ssa.Function) bool {
		return func(fn *ssa.Function) bool {
			for _, w := range words {
				if fn.Name() == w {
					return true
				}
			}
			return false
		}
	}
	both := append(append([]string{}, dec...), enc...)
	return map[string]protocolUse{
		"C01": {dec, all, concernsPanics, nil, false},
		"C13": {enc, all, concernsPanics, nil, false},
		"C03": {dec, all, concernsErrors, nil, false},
		"C14": {enc, append(append([]string{}, commit...), "Tree", "TreeEntry"), concernsErrors, nil, false},
		"C04": {dec, commit, concernsData, nil, true},
		"C05": {dec, append(append([]string{}, tag...), "Tag_List"), concernsData, nil, true},
		"C06": {dec, tree, concernsData, nil, true},
		"C07": {dec, blob, concernsData, nil, true},
		"C08": {enc, commit, concernsData, nil, true},
		"C09": {enc, tag, concernsData, nil, true},
		"C10": {enc, tree, concernsData, nil, true},
		"C11": {enc, blob, concernsData, nil, true},
		"C24": {dec, all, concernsRefusal, nil, true},
		"C25": {enc, all, concernsRefusal, nil, true},
		"C26": {both, all, concernsCause, nil, false},
		"C15": {both, []string{"Commit_Link", "Tree_Link", "Link"}, concernsData, nil, false},
		"C16": {both, []string{"Commit", "Tag", "Tree", "Blob"}, concernsData, one("Prototype", "Kind", "NewBuilder", "Build"), false},
		"C17": {both, []string{"PersonInfo", "String"}, concernsData, nil, true},
	}
}

func (r *Report) protocol(u protocolUse) {
	const rule = "generated code it relies on"
	res, err := r.P.compareSchema(r.tier == "thorough")
	if err != nil {
		r.fail("analysable", "schema", "%v", err)
		return
	}
	ts := map[string]bool{}
	for _, t := range u.types {
		ts[t] = true
	}
	use := r.P.generatedUse(u.entries, ts)
	n := 0
	for _, name := range res.names {
		fn := res.got[name]
		if !use[name] || (u.only != nil && !u.only(fn)) {
			continue
		}
		n++
		d := res.diff[name]
		switch {
		case d == nil && res.undecided[name] != "":
			r.undecided(rule, r.pos(fn.Pos()), "%s: %s", name, res.undecided[name])
		case d == nil && res.equal[name] == "":
			r.undecided(rule, r.pos(fn.Pos()), "%s: judged in its callers", name)
		case d == nil:
			r.require(true, rule, r.pos(fn.Pos()), "%s: same %s", name, res.equal[name])
		default:
			ds := d.all
			if len(ds) == 0 {
				ds = []*eqDiff{d}
			}
			var bad *eqDiff
			for _, x := range ds {
				if u.concerns(res.ref[name], x) {
					bad = x
					break
				}
			}
			if bad == nil {
				r.notes = append(r.notes, fmt.Sprintf("%s differs from the schema's code, but not in what concerns this property: %s", name, d.msg))
				continue
			}
			at := bad.pos
			if at == token.NoPos {
				at = fn.Pos()
			}
			when := ""
			if len(bad.when) > 0 {
				when = " when " + strings.Join(bad.when, " and ")
			}
			r.require(false, rule, r.pos(at), "%s: %s%s", name, bad.msg, when)
		}
	}
	if u.vars {
		var vs []string
		for v := range res.types {
			vs = append(vs, v)
		}
		sort.Strings(vs)
		for _, v := range vs {
			b := baseType(v)
			if rest, ok := strings.CutPrefix(v, "fieldName__"); ok {
				b = ""
				for t := range ts {
					if strings.HasPrefix(rest, t+"_") && len(t) > len(b) {
						b = t
					}
				}
			}
			if ts[b] {
				r.require(false, rule, v, "%s", res.types[v])
			}
		}
	}
	r.notes = append(r.notes, fmt.Sprintf("%d generated functions that the property's code can come to, compared with the schema's", n))
}

func init() {
	for id, u := range protocols() {
		f := checks[id]
		checks[id] = func(r *Report) {
			f(r)
			r.protocol(u)
			r.expl += " The generated functions that this code can come to are compared with the schema's, path by path where their form differs."
			r.assume = append(r.assume, "The reference text (tool/ref) of the generated types does what the schema says; it equals the output of gengo for the schema in gen/gen.go.")
		}
	}
}
