package main

import (
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	dbg := flag.String("debug", "", "analyse one function and print its outcomes")
	verbose := flag.Bool("v", false, "print unproved obligations with their state")
	sch := flag.String("schema", "", "compare the generated code: form or paths")
	prop := flag.String("property", "", "decide one property, or several separated by commas")
	tier := flag.String("tier", "quick", "quick or thorough")
	vdir := flag.String("verif", "/verif", "where evidence goes")
	flag.Parse()
	if *prop != "" {
		ids := strings.Split(*prop, ",")
		if *prop == "all" {
			ids = sortedKeys(checks)
		}
		if len(ids) == 1 {
			os.Exit(decide(ids[0], *tier, *vdir))
		}
		os.Exit(several(ids, *tier, *vdir))
	}
	t0 := time.Now()
	P, err := load(repoDir(), nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	if *sch != "" {
		r, err := P.compareSchema(*sch == "paths")
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		how := map[string]int{}
		for _, n := range r.names {
			how[r.equal[n]]++
			if d := r.diff[n]; d != nil {
				fmt.Println("DIFF", n, d.msg, "when", d.when)
			}
			if u := r.undecided[n]; u != "" {
				fmt.Println("UNDECIDED", n, u)
			}
		}
		fmt.Println("missing", r.missing, "types", r.types)
		fmt.Println(how, len(r.names), "types", r.nTypes, "vars", r.nVars, "paths", r.paths, "pairs", r.pairs, time.Since(t0))
		return
	}
	if *dbg != "" {
		in := P.interp()
		in.debug = *verbose
		st := P.initial(in)
		in.events = nil
		fn := P.lookupFunc(*dbg)
		outs, _ := in.rootArgs(st, fn)
		for _, o := range outs {
			fmt.Println("OUTCOME", in.pos(o.pos), o.res)
			if *verbose || (len(o.res) > 0 && o.res[len(o.res)-1] == tNil) {
				fmt.Print(o.st.dump())
			}
		}
		seen := map[string]int{}
		for _, e := range in.events {
			s := fmt.Sprintf("%s ok=%v %s %s", e.kind, e.ok, in.pos(e.pos), e.msg)
			if e.loop != nil {
				s += fmt.Sprintf(" loop with %d iters", len(e.loop.iters))
				for _, it := range e.loop.iters {
					s += fmt.Sprintf("\n    iter prog=%v quad=%v", it.prog, it.quad)
					for _, l := range sortedKeys(it.vals) {
						s += fmt.Sprintf("\n      %s = %s   init %s", l, it.vals[l], e.loop.phis[l].init)
					}
				}
			}
			seen[s]++
		}
		var ks []string
		for k := range seen {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(seen[k], k)
		}
		fmt.Println("states", in.states, "time", time.Since(t0))
	}
}

// several decides each property in a process of its own.
func several(ids []string, tier, vdir string) int {
	out := make([][]byte, len(ids))
	codes := make([]int, len(ids))
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for i, id := range ids {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			c := exec.Command(os.Args[0], "-property", id, "-tier", tier, "-verif", vdir)
			out[i], _ = c.CombinedOutput()
			codes[i] = c.ProcessState.ExitCode()
		}()
	}
	wg.Wait()
	code := 0
	for i := range ids {
		os.Stdout.Write(out[i])
		if codes[i] != 0 {
			code = 1
		}
	}
	return code
}

// decide one property. Whatever cannot be decided is reported as a violation.
func decide(id, tier, vdir string) (code int) {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := newReport(id, nil)
	r.tier = tier
	f, ok := checks[id]
	if !ok {
		fmt.Println("no such property:", id)
		return 3
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				if len(st) > 30 {
					st = st[:30]
				}
				fmt.Println(strings.Join(st, "\n"))
				r.fail("analysable", "analysis", "the analysis stopped: %v", e)
			}
		}()
		P, err := load(repoDir(), nil)
		if err != nil {
			r.fail("analysable", "load", "%v", err)
			return
		}
		r.P = P
		f(r)
	}()
	return r.finish(vdir, tier, seed, t0, knownFindings(filepath.Join(vdir, "known-findings.txt"), id))
}

// knownFindings reads the entries that suppress a report, one per line:
//
//	known: property=C01 <rule> @ <where>
func knownFindings(path, id string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []string
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "known: property="+id+" "); ok {
			ks = append(ks, strings.TrimSpace(rest))
		}
	}
	return ks
}
