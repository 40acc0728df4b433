package main

import "strings"

var decodeRoots = []string{"DecodeBlob", "DecodeTree", "DecodeTreeEntry", "DecodeTag", "DecodeCommit", "Decode", "ParseObject", "ParseObjectFromBuffer", "ParseCompressedObject", "DecodeBlock"}
var encodeRoots = []string{"Encode", "PersonInfo.GitString"}

const trust = "the abstract interpreter in /verif/tool and its contracts for the standard library, go-cid, go-multihash and the go-ipld-prime interfaces"

func init() {
	checks["C01"] = func(r *Report) {
		r.expl = "Every instruction of hand-written code reachable from the decoding entry points that can panic (index, slice, nil dereference, type assertion, make, conversion, assembler protocol, calls with a panicking precondition) is an obligation that must follow from the facts the dataflow analysis holds at that point, for unknown input and in every calling context."
		r.assume = []string{trust, "readers, assemblers and blocks passed in are non-nil and follow their interfaces' contracts"}
		for _, run := range r.decoding() {
			r.noPanic(run)
		}
		r.atLeast("no panic: index", 10)
		r.atLeast("no panic: slice", 10)
		r.atLeast("no panic: nil", 3)
		r.atLeast("no panic: assembler", 5)
	}
	checks["C13"] = func(r *Report) {
		r.expl = "Every instruction reachable from the encoding entry points that can panic is an obligation that must follow from the facts held at that point, for an arbitrary node (any prototype, any kind, absent or mistyped fields, foreign links)."
		r.assume = []string{trust, "nodes and writers passed in are non-nil and follow their interfaces' contracts"}
		for _, n := range encodeRoots {
			r.noPanic(r.analyse(n, nil))
		}
		r.atLeast("no panic: nil", 3)
		r.atLeast("no panic: assert", 2)
	}
	checks["C02"] = func(r *Report) {
		r.expl = "For every decoding entry point: no call cycle, no allocation whose size is taken from the input rather than from data already held, every path around every loop advances (consumes input, advances an iterator or moves a counter towards a bound), and no path extends a string by copying it in a loop."
		r.assume = []string{trust}
		for _, run := range r.decoding() {
			r.bounded(run)
		}
		r.atLeast("every iteration advances", 10)
		r.atLeast("allocation bounded by data held", 1)
	}
}

// decoding analyses every decoding entry point. The quick tier analyses the
// decoders once, for any assembler and reader, and the functions that call them
// against their contract; the thorough tier follows every call.
func (r *Report) decoding() (runs []*Run) {
	for _, n := range decodeRoots {
		callers := false
		for _, e := range entries() {
			callers = callers || e.name == n
		}
		if callers && r.tier != "thorough" {
			runs = append(runs, r.analyse("entry "+n, r.decoderContracts()))
		} else {
			runs = append(runs, r.analyse(n, nil))
		}
	}
	return
}

func fnLabel(e *Event) string {
	if e.fn == nil {
		return "?"
	}
	return e.fn.Name()
}

// functions that panic on some arguments and have no contract here
var panickers = map[string]bool{
	"regexp.MustCompile": true, "strconv.FormatFloat": false, "log.Panic": true, "log.Panicf": true, "log.Panicln": true, "log.Fatal": true, "log.Fatalf": true, "os.Exit": true,
	"github.com/multiformats/go-multihash.Cast": false, "github.com/ipfs/go-cid.MustParse": true, "unsafe.Slice": true, "runtime.Goexit": true,
}

func (r *Report) noPanic(run *Run) {
	for _, e := range run.events {
		if k, ok := strings.CutPrefix(e.kind, "oblig:"); ok {
			r.require(e.ok, "no panic: "+k, r.pos(e.pos), "%s (in %s, from %s)", e.msg, fnLabel(e), run.name)
		}
		if e.kind == "extern" {
			bad := panickers[e.msg] || strings.Contains(e.msg, ".Must") || strings.HasPrefix(e.msg, "reflect.") || strings.HasPrefix(e.msg, "(reflect.")
			r.require(!bad, "no panic: call", r.pos(e.pos), "%s may panic or end the process (from %s)", e.msg, run.name)
		}
	}
}
