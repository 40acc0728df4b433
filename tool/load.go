package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	fset     *token.FileSet
	prog     *ssa.Program
	pkg      *ssa.Package // the library
	ppkg     *packages.Package
	gen      *packages.Package // the schema generator
	genFiles map[string]bool
	genFns   map[*ssa.Function]bool
	allPkgs  []*packages.Package
	ssaPkgs  []*ssa.Package
	fns      map[*ssa.Function]bool
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func load(dir string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
		Tests:   false,
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, genFiles: map[string]bool{}, genFns: map[*ssa.Function]bool{}, allPkgs: ps, ssaPkgs: pkgs}
	for i, p := range ps {
		P.fset = p.Fset
		if p.Name == "ipldgit" {
			P.ppkg, P.pkg = p, pkgs[i]
		}
		if p.Name == "main" && strings.HasSuffix(p.PkgPath, "/gen") {
			P.gen = p
		}
	}
	if P.pkg == nil {
		return nil, fmt.Errorf("package ipldgit not found")
	}
	for i, f := range P.ppkg.Syntax {
		if isGenerated(f) {
			P.genFiles[P.ppkg.CompiledGoFiles[i]] = true
		}
	}
	for fn := range P.functions() {
		if fn.Pkg != P.pkg && fn.Pkg != nil {
			continue
		}
		if p := fn.Pos(); p.IsValid() && P.genFiles[P.fset.Position(p).Filename] {
			P.genFns[fn] = true
		} else if fn.Synthetic != "" && fn.Object() != nil && fn.Object().Pkg() == P.pkg.Pkg {
			if P.genFiles[P.fset.Position(fn.Object().Pos()).Filename] {
				P.genFns[fn] = true
			}
		}
	}
	if err := P.checkConstants(); err != nil {
		return nil, err
	}
	return P, nil
}

func isGenerated(f *ast.File) bool {
	for _, c := range f.Comments {
		if len(f.Decls) > 0 && c.Pos() > f.Decls[0].Pos() {
			break
		}
		for _, l := range c.List {
			if strings.HasPrefix(l.Text, "// Code generated ") && strings.HasSuffix(l.Text, "DO NOT EDIT.") {
				return true
			}
		}
	}
	return false
}

// constants of other packages that the analysis uses by value
func (P *Program) checkConstants() error {
	want := map[string]map[string]int64{
		"github.com/ipld/go-ipld-prime/schema": {"Maybe_Value": maybeValueConst},
		"github.com/ipld/go-ipld-prime":        {"Kind_Map": kindMap, "Kind_Bytes": kindBytes, "Kind_List": 0x5b},
		"github.com/ipfs/go-cid":               {"GitRaw": 0x78},
		"github.com/multiformats/go-multihash": {"SHA1": 0x11},
	}
	for path, cs := range want {
		var tp *types.Package
		for _, im := range P.ppkg.Types.Imports() {
			if im.Path() == path {
				tp = im
			}
		}
		if tp == nil {
			continue
		}
		for n, v := range cs {
			c, ok := tp.Scope().Lookup(n).(*types.Const)
			if !ok {
				continue
			}
			if got, ok := constant.Int64Val(constant.ToInt(c.Val())); !ok || got != v {
				return fmt.Errorf("%s.%s is %v, expected %d", path, n, c.Val(), v)
			}
		}
	}
	return nil
}

// functions lists all functions of the program, also methods that nothing calls.
func (P *Program) functions() map[*ssa.Function]bool {
	if P.fns != nil {
		return P.fns
	}
	P.fns = ssautil.AllFunctions(P.prog)
	for _, f := range P.ppkg.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				if o, ok := P.ppkg.TypesInfo.Defs[fd.Name].(*types.Func); ok {
					if fn := P.prog.FuncValue(o); fn != nil && !P.fns[fn] {
						P.fns[fn] = true
						var anon func(fn *ssa.Function)
						anon = func(fn *ssa.Function) {
							for _, a := range fn.AnonFuncs {
								P.fns[a] = true
								anon(a)
							}
						}
						anon(fn)
					}
				}
			}
		}
	}
	return P.fns
}

// handWritten lists the package's own functions outside generated files.
func (P *Program) handWritten() []*ssa.Function {
	var r []*ssa.Function
	for fn := range P.functions() {
		if fn.Pkg == P.pkg && !P.genFns[fn] && fn.Synthetic == "" && len(fn.Blocks) > 0 {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}

// one numbering for all runs, so that symbols stay distinct
var sharedCtx = map[string]int{}

func (P *Program) interp() *Interp {
	return &Interp{prog: P.prog, pkg: P.pkg, fset: P.fset, gen: P.genFns, loops: map[*ssa.Function]*loopNest{}, ctxN: sharedCtx, budget: 400000, calls: map[string]int{}, visited: map[*ssa.Function]bool{}}
}

// initial runs the package's initialisation to learn its variables.
func (P *Program) initial(in *Interp) *State {
	st := newState()
	fn := P.pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return st
	}
	outs := in.call(st, fn, nil, nil, Ctx{"init", 0})
	best := newState()
	for _, o := range outs {
		if len(o.st.heap) > len(best.heap) {
			best = o.st
		}
	}
	r := newState()
	for k, v := range best.heap {
		r.heap[k] = v
	}
	// variables written outside initialisation are unknown
	written := P.writtenGlobals()
	for k := range r.heap {
		if strings.HasPrefix(k, "g:") && written[k[2:]] {
			delete(r.heap, k)
		}
	}
	// only what hand-written code can reach
	used := map[string]bool{}
	for fn := range P.functions() {
		if P.genFns[fn] || fn.Pkg != P.pkg || fn.Synthetic == "package initializer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg == P.pkg {
						used[in.globalPtr(g).s] = true
					}
				}
			}
		}
	}
	var reach func(t *Term)
	reach = func(t *Term) {
		walk(t, func(x *Term) bool {
			if x.op == OPtr && !used[x.s] {
				used[x.s] = true
				if c, ok := r.heap[x.s]; ok {
					reach(c)
				}
			}
			return true
		})
	}
	for k := range used {
		if c, ok := r.heap[k]; ok {
			reach(c)
		}
	}
	for k := range r.heap {
		if !used[k] {
			delete(r.heap, k)
		}
	}
	// other variables of the package keep their zero value
	for _, m := range P.pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok || g.Name() == "init$guard" {
			continue
		}
		in.globalPtr(g)
		k := "g:" + P.pkg.Pkg.Path() + "." + g.Name()
		if _, ok := r.heap[k]; ok || written[k[2:]] {
			continue
		}
		if p := g.Pos(); p.IsValid() && P.genFiles[P.fset.Position(p).Filename] {
			continue
		}
		r.heap[k] = zeroOf(objType[k])
	}
	return r
}

// writtenGlobals finds package variables stored to outside init.
func (P *Program) writtenGlobals() map[string]bool {
	w := map[string]bool{}
	for fn := range P.functions() {
		if fn.Pkg != P.pkg || fn.Synthetic == "package initializer" {
			continue
		}
		isInit := strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != P.pkg {
						continue
					}
					switch x := i.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == g && !isInit {
							w[P.pkg.Pkg.Path()+"."+g.Name()] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						v := i.(ssa.Value)
						for _, r := range *v.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == v && !isInit {
								w[P.pkg.Pkg.Path()+"."+g.Name()] = true
							}
						}
					}
				}
			}
		}
	}
	return w
}
