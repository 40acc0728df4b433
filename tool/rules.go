package main

// Rules: each property is decided by obligations over the abstract runs of the
// exported functions, or over the resolved program.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Viol struct {
	Rule  string `json:"rule"`
	Where string `json:"where"`
	Msg   string `json:"message"`
}

// Report collects the obligations of one property.
type Report struct {
	id, tier string
	P        *Program
	runs     map[string]*Run
	viols    []Viol
	unknown  []Viol // obligations whose code has a form the rule does not cover
	seen     map[string]bool
	oblig    map[string]int
	disch    map[string]int
	funcs    map[string]bool
	notes    []string
	expl     string
	assume   []string
	states   int
	outcomes int
	samples  []string
}

func newReport(id string, P *Program) *Report {
	return &Report{id: id, P: P, seen: map[string]bool{}, oblig: map[string]int{}, disch: map[string]int{}, funcs: map[string]bool{}, runs: map[string]*Run{}}
}

func (r *Report) fail(rule, where, format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	if len(m) > 1200 {
		m = m[:1200] + "…"
	}
	k := rule + "|" + where + "|" + m
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.viols = append(r.viols, Viol{rule, where, m})
}

// require states one obligation.
func (r *Report) require(ok bool, rule, where, format string, a ...any) bool {
	r.oblig[rule]++
	if ok {
		r.disch[rule]++
		if r.oblig[rule] <= 2 {
			m := fmt.Sprintf(format, a...)
			if len(m) > 300 {
				m = m[:300] + "…"
			}
			r.samples = append(r.samples, rule+" at "+where+": "+m)
		}
	} else {
		r.fail(rule, where, format, a...)
	}
	return ok
}

// undecided records an obligation about code of a form that the rule does not
// cover: it is neither discharged nor violated, and the evidence says so.
func (r *Report) undecided(rule, where, format string, a ...any) {
	r.oblig[rule]++
	m := fmt.Sprintf(format, a...)
	if len(m) > 600 {
		m = m[:600] + "…"
	}
	k := "?" + rule + "|" + where + "|" + m
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.unknown = append(r.unknown, Viol{rule, where, m})
}

// atLeast guards against rules that match nothing.
func (r *Report) atLeast(rule string, n int) {
	if r.oblig[rule] < n && len(r.viols) == 0 {
		r.fail("instances", rule, "only %d instances of this rule were found, expected at least %d: the analysis no longer sees what it decides", r.oblig[rule], n)
	}
}

// Run is the analysis of one entry point.
type Run struct {
	name   string
	fn     *ssa.Function
	args   []*Term
	outs   []Outcome
	events []*Event
	init   []*Event
	in     *Interp
}

func (r *Report) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := r.P.fset.Position(p)
	f, err := filepath.Rel(repoDir(), q.Filename)
	if err != nil || strings.HasPrefix(f, "..") {
		f = filepath.Base(q.Filename)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// analyse runs an entry point once; the summaries say which of the package's
// functions are replaced by their contract.
func (r *Report) analyse(name string, summarise map[string]func(*callCtx) []callOut) *Run {
	if x, ok := r.runs[name]; ok {
		return x
	}
	_, fname, cut := strings.Cut(name, " ")
	if !cut {
		fname = name
	}
	fn := r.P.lookupFunc(fname)
	if fn == nil {
		r.fail("entry-point", name, "the exported function %s was not found", name)
		return &Run{name: name}
	}
	in := r.P.interp()
	in.summaries = summarise
	st := r.P.initial(in)
	initEvents := in.events
	in.events = nil
	run := &Run{name: name, fn: fn, in: in}
	run.outs, run.args = in.rootArgs(st, fn)
	run.events = in.events
	run.init = initEvents
	r.runs[name] = run
	r.states += in.states
	r.outcomes += len(run.outs)
	for f := range in.visited {
		r.funcs[f.RelString(r.P.pkg.Pkg)] = true
	}
	// what the analysis could not follow decides nothing
	for _, e := range run.events {
		switch e.kind {
		case "unsupported":
			r.fail("analysable", r.pos(e.pos), "%s: not analysable: %s", name, e.msg)
		case "recursion":
			r.fail("no-recursion", r.pos(e.pos), "%s: %s calls itself on a path chosen by the input", name, e.msg)
		}
	}
	if len(run.outs) == 0 {
		r.fail("analysable", name, "no way to return was found")
	}
	r.oblig["analysed entry point"]++
	r.disch["analysed entry point"]++
	return run
}

func (P *Program) lookupFunc(name string) *ssa.Function {
	if i := strings.IndexByte(name, '.'); i >= 0 {
		for _, fn := range P.handWritten() {
			if fn.Name() == name[i+1:] && fn.Signature.Recv() != nil {
				t := fn.Signature.Recv().Type().String()
				if strings.HasSuffix(t, "."+name[:i]) || strings.HasSuffix(t, "."+"_"+name[:i]) {
					return fn
				}
			}
		}
		return nil
	}
	return P.pkg.Func(name)
}

// success and error outcomes by the last result
func (run *Run) split() (ok, bad []Outcome) {
	for _, o := range run.outs {
		if n := len(o.res); n > 0 && o.res[n-1] == tNil {
			ok = append(ok, o)
		} else {
			bad = append(bad, o)
		}
	}
	return
}

type checkFn func(r *Report)

var checks = map[string]checkFn{}

// evidence and verdict

func (r *Report) finish(verifDir, tier string, seed int, t0 time.Time, known []string) int {
	sort.Slice(r.viols, func(i, j int) bool {
		a, b := r.viols[i], r.viols[j]
		return a.Rule+a.Where+a.Msg < b.Rule+b.Where+b.Msg
	})
	var open []Viol
	for _, v := range r.viols {
		suppressed := false
		for _, k := range known {
			if k == v.Rule+" @ "+v.Where {
				suppressed = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.id, k, v.Msg)
			}
		}
		if !suppressed {
			open = append(open, v)
		}
	}
	tot, dis := 0, 0
	rules := map[string]string{}
	for k, n := range r.oblig {
		tot += n
		dis += r.disch[k]
		rules[k] = fmt.Sprintf("%d of %d", r.disch[k], n)
	}
	fns := sortedKeys(r.funcs)
	if len(r.samples) > 12 {
		r.samples = r.samples[:12]
	}
	ev := map[string]any{
		"property": r.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":        r.expl,
			"obligations":        tot,
			"discharged":         dis,
			"rules":              rules,
			"functions_analysed": fns,
			"entry_points":       sortedKeys(r.runs),
			"abstract_states":    r.states,
			"outcomes":           r.outcomes,
			"samples":            r.samples,
			"notes":              r.notes,
			"undecided":          r.unknown,
		},
		"assumptions": append([]string{}, r.assume...),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(open),
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, r.id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d of %d obligations discharged over %d functions (%d abstract states, %d outcomes) in %.1fs\n", r.id, dis, tot, len(fns), r.states, r.outcomes, time.Since(t0).Seconds())
	for i, v := range r.unknown {
		if i < 6 {
			fmt.Printf("  undecided [%s] %s: %s\n", v.Rule, v.Where, v.Msg)
		}
	}
	if len(open) == 0 {
		return 0
	}
	rp := filepath.Join(dir, r.id+".violations.json")
	b, _ = json.MarshalIndent(open, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	for i, v := range open {
		if i == 12 {
			fmt.Printf("  … and %d more\n", len(open)-12)
			break
		}
		fmt.Printf("  [%s] %s: %s\n", v.Rule, v.Where, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rp)
	return 1
}
