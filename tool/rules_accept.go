package main

import (
	"go/types"
	"strings"
)

// What is accepted: every failing outcome has a reason, and the reason is one
// that the input, the node, or the other party gives. And the error that
// reports it is the one the other party gave.

// encodeCause tells why an outcome of Encode may fail: a callee failed that has
// to be asked for this kind of node, or the node is none that has a git form.
func (r *Report) encodeCause(st *State, n *Term) (why string, unsure bool) {
	k, _ := r.wanted(st, n)
	for _, f := range sortedFails(st.fails) {
		recv := tNil
		if len(f.args) > 0 {
			recv = unwrap(f.args[0])
		}
		method := f.callee[strings.LastIndexByte(f.callee, '.')+1:]
		switch f.kind {
		case "write":
			return "the writer failed", false
		case "next":
			return "the node's iterator failed", false
		case "hash":
			return "a link is no git hash", false
		case "close":
		case "lookup":
			if len(f.args) < 2 {
				continue
			}
			if w := neededField(k, n, recv, f.arg); w != "" {
				return w + " is missing", false
			}
		case "as":
			switch {
			case k == "blob" && recv == n && method == "AsBytes":
				return "the blob holds no bytes", false
			case isIterKey(recv) && method == "AsString":
				return "a key is not a string", false
			case recv.op == OApp && recv.s == "lookup":
				key := recv.args[1]
				if key.op != OStr {
					continue
				}
				of := unwrap(recv.args[0])
				if neededField(k, n, of, key.s) == "" {
					continue
				}
				want := "AsString"
				if key.s == "object" || key.s == "hash" {
					want = "AsLink"
				}
				if method == want {
					return key.s + " is of another kind", false
				}
			}
		case "assign":
			v := tNil
			if len(f.args) > 1 {
				v = unwrap(f.args[1])
			}
			switch {
			case v == n && k == "commit":
				return "the node is not a Commit", false
			case k == "tag" && v.op == OApp && v.s == "lookup" && unwrap(v.args[0]) == n && v.args[1] == mkStr("tagger"):
				return "the tagger is not a person", false
			case v != n:
				unsure = true
			}
		default:
			unsure = true
		}
	}
	return r.unencodable(st, n), unsure
}

// neededField: a field without which there is no such object.
func neededField(k string, n, of *Term, key string) string {
	switch k {
	case "tag":
		if of == n {
			switch key {
			case "object", "type", "tag", "message":
				return key
			}
		}
	case "tree":
		if isIterVal(of) {
			switch key {
			case "mode", "hash":
				return key
			}
		}
	}
	return ""
}

func isIterKey(t *Term) bool { return t.op == OSym && strings.HasPrefix(t.s, "key@") }
func isIterVal(t *Term) bool { return t.op == OSym && strings.HasPrefix(t.s, "val@") }

// ---- causes

// causes of failure that other parties report, and that a caller may look for
var partyKinds = map[string]bool{"read": true, "write": true, "assign": true, "begin": true, "entry": true, "finish": true, "as": true, "lookup": true, "next": true, "decode": true}

// inMemory: the reader is over bytes that are held, so that all it reports is
// its end.
func inMemory(st *State, key string) bool {
	for d := 0; d < 10; d++ {
		t, ok := st.heap["src:"+key]
		if !ok {
			return false
		}
		t = unwrap(t)
		if t.op == OPtr {
			key = keyOf(t)
			continue
		}
		if t.op == OApp && (t.s == "zlib" || t.s == "limrd") {
			return false
		}
		if t.typ != nil {
			if _, ok := t.typ.Underlying().(*types.Interface); ok {
				return false
			}
			if _, ok := t.typ.Underlying().(*types.Pointer); ok {
				return false
			}
		}
		return true
	}
	return false
}

// carries: errors.Is finds e in the error that is returned.
func carries(st *State, ret, e *Term) (ok, unsure bool) {
	ret = st.value(ret)
	if ret == e || yes(st, mkEq(ret, e)) {
		return true, false
	}
	if isNewErr(ret) {
		for _, w := range ret.args[1:] {
			o, u := carries(st, w, e)
			if o {
				return true, false
			}
			unsure = unsure || u
		}
		return false, unsure
	}
	if ret.op == OIface {
		// an error type of the package's own
		v := st.deepAll(ret.args[0])
		if mentions(v, e) {
			return false, true
		}
	}
	return false, false
}

func (r *Report) keepsCause(run *Run, handled func(st *State, f *Fail) bool) {
	_, bad := run.split()
	for _, o := range bad {
		if len(o.res) == 0 {
			continue
		}
		ret := o.res[len(o.res)-1]
		var left []*Fail
		good, unsure := false, false
		for _, f := range sortedFails(o.st.fails) {
			if !partyKinds[f.kind] || handled(o.st, f) {
				continue
			}
			if f.kind == "read" && (inMemory(o.st, f.arg) || cleanEOF(o.st, f)) {
				continue
			}
			left = append(left, f)
			c, u := carries(o.st, ret, f.err)
			unsure = unsure || u
			if c {
				good = true
			}
			if eof := yes(o.st, mkEq(f.err, ioEOF())); eof {
				if e, _ := carries(o.st, ret, ioUEOF()); e {
					good = true
				}
				if e, _ := carries(o.st, ret, ioEOF()); e {
					good = true
				}
			}
		}
		if len(left) == 0 {
			continue
		}
		f := left[0]
		if !good && unsure {
			r.undecided("the cause reaches the caller", r.pos(o.pos), "%s: %s reports the failure of %s at %s", run.name, ret, shortName(f.callee), f.site)
			continue
		}
		r.require(good, "the cause reaches the caller", r.pos(o.pos), "%s returns %s after %s failed at %s", run.name, ret, shortName(f.callee), f.site)
	}
}

func init() {
	checks["C24"] = func(r *Report) {
		r.expl = "Every failing outcome of every decoding entry point is matched with a reason: a callee that reads, inflates or assembles failed, or the facts that hold on that path say that the object is malformed in one of the listed ways. A path that fails for any other reason, or with no reason at all, is reported."
		r.assume = []string{trust}
		cr, tr := r.analyse("DecodeCommit", nil), r.analyse("DecodeTag", nil)
		if cr.fn != nil {
			r.commitRejections(cr)
			r.personRejections(cr, false, "author ", "committer ", " tagger ")
		}
		if tr.fn != nil {
			r.tagRejections(tr)
			r.personRejections(tr, false, "tagger ")
		}
		if b := r.analyse("DecodeBlob", nil); b.fn != nil {
			r.blobRejections(b)
		}
		if t := r.analyse("DecodeTree", nil); t.fn != nil {
			r.rejections(t, 1, badFrame)
		}
		if t := r.analyse("DecodeTreeEntry", nil); t.fn != nil {
			r.rejections(t, 0, func(*State) string { return "" })
		}
		sums := r.decoderContracts()
		for _, e := range entries() {
			if run := r.analyse("entry "+e.name, sums); run.fn != nil {
				r.entryRejections(e, run)
			}
		}
		for _, run := range r.runs {
			ok, _ := run.split()
			r.require(len(ok) > 0, "some input is accepted", run.name, "%d ways to succeed", len(ok))
		}
		r.atLeast("only bad input is rejected", 60)
	}
	checks["C25"] = func(r *Report) {
		r.expl = "Every failing outcome of the encoder is matched with a reason: the writer or the node's iterator failed, a field that the kind of object cannot do without is missing or of another kind, the node does not fit the Commit or PersonInfo type, a link is not a git hash, or no kind of object is recognised. A path that fails for any other reason is reported."
		r.assume = []string{trust}
		run := r.analyse("Encode", nil)
		if run.fn == nil {
			return
		}
		_, bad := run.split()
		for _, o := range bad {
			why, unsure := r.encodeCause(o.st, run.args[0])
			if why == "" && unsure {
				r.undecided("only bad nodes are rejected", r.pos(o.pos), "Encode fails here%s", explain(o, why))
				continue
			}
			r.require(why != "", "only bad nodes are rejected", r.pos(o.pos), "Encode fails here: %s%s", why, explain(o, why))
		}
		r.atLeast("only bad nodes are rejected", 30)
	}
	checks["C26"] = func(r *Report) {
		r.expl = "On every failing path of every entry point on which the reader, the writer, the node or the assembler failed, the error returned is, as a value-provenance term, that party's error or one made with %w from it; io.EOF may only become io.ErrUnexpectedEOF."
		r.assume = []string{trust}
		for _, n := range []string{"DecodeBlob", "DecodeTree", "DecodeCommit", "DecodeTag", "DecodeTreeEntry"} {
			r.keepsCause(r.analyse(n, nil), func(*State, *Fail) bool { return false })
		}
		sums := r.decoderContracts()
		for _, e := range entries() {
			r.keepsCause(r.analyse("entry "+e.name, sums), func(*State, *Fail) bool { return false })
		}
		run := r.analyse("Encode", nil)
		if run.fn == nil {
			return
		}
		n := run.args[0]
		r.keepsCause(run, func(st *State, f *Fail) bool {
			return f.kind == "lookup" && len(f.args) > 0 && unwrap(f.args[0]) == n && (f.arg == "tagger" || f.arg == "object" && !yes(st, mkApp("haskey", n, mkStr("object"))) && notTag(r, st, n))
		})
		r.atLeast("the cause reaches the caller", 60)
	}
}

func notTag(r *Report, st *State, n *Term) bool {
	k, _ := r.wanted(st, n)
	return k == "commit"
}
