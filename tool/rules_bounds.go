package main

import "strings"

// What a refused object leaves behind, and what encoding costs.

func init() {
	checks["C27"] = func(r *Report) {
		r.expl = "On every failing outcome of every decoder that is given an assembler: unless that assembler itself failed, it has been given nothing, and no map or list has been begun on it."
		r.assume = []string{trust}
		for _, n := range []string{"DecodeBlob", "DecodeTree", "DecodeTag", "DecodeCommit"} {
			r.untouched(r.analyse(n, nil), 0)
		}
		sums := r.decoderContracts()
		for _, e := range entries() {
			if e.na >= 0 {
				r.untouched(r.analyse("entry "+e.name, sums), e.na)
			}
		}
		r.atLeast("a refused object leaves no trace", 60)
	}
	checks["C28"] = func(r *Report) {
		r.expl = "For the encoder: no call cycle, no allocation whose size comes from anything but data already held, every path around every loop advances an iterator or moves a counter towards a bound, no path extends text by copying it in a loop, and no goroutine is started."
		r.assume = []string{trust, "An iterator of the given node reports its end after finitely many entries."}
		r.bounded(r.analyse("Encode", nil))
		r.atLeast("every iteration advances", 5)
	}
}

// untouched: failing paths of a decoder have done nothing to the assembler.
func (r *Report) untouched(run *Run, na int) {
	if run.fn == nil || na >= len(run.args) {
		return
	}
	k := keyOf(run.args[na])
	_, bad := run.split()
	for _, o := range bad {
		failed := false
		for _, f := range sortedFails(o.st.fails) {
			switch f.kind {
			case "assign", "begin", "entry", "finish", "decode":
				for _, a := range f.args {
					failed = failed || keyOf(a) == k || keyOf(a) == "ent:"+k || keyOf(a) == "key:"+k
				}
			}
		}
		what := ""
		if c := o.st.heap["asm:"+k]; c != nil && len(atoms(c)) > 0 {
			what = "it holds " + c.String()
		}
		if ts := o.st.heap["ts:"+k]; ts != nil && ts != mkStr("new") {
			what = "it is " + ts.String()
		}
		if failed {
			what = ""
		}
		r.require(what == "", "a refused object leaves no trace", r.pos(o.pos), "%s fails here, the assembler %s", run.name, defaultStr(what, "is untouched"))
	}
}

func (r *Report) bounded(run *Run) {
	for _, e := range run.events {
		switch e.kind {
		case "alloc":
			r.require(e.ok, "allocation bounded by data held", r.pos(e.pos), "%s in %s", e.msg, fnLabel(e))
		case "loop":
			for _, it := range e.loop.iters {
				r.require(len(it.prog) > 0, "every iteration advances", r.pos(e.pos), "the path around the loop of %s through %s: %s", fnLabel(e), r.pos(it.pos), strings.Join(it.prog, ", "))
				r.require(len(it.quad) == 0, "no quadratic accumulation", r.pos(e.pos), "loop of %s: %s", fnLabel(e), strings.Join(it.quad, ", "))
			}
		case "go":
			r.require(false, "no goroutine per input", r.pos(e.pos), "goroutine started")
		}
	}
}
