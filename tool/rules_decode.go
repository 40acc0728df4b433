package main

import (
	"fmt"
	"sort"
	"strings"
)

// ---- reading and failing

// cleanEOF: the failure is the end of input, met with nothing read.
func cleanEOF(st *State, f *Fail) bool {
	if f.kind != "read" || !yes(st, mkEq(f.err, ioEOF())) {
		return false
	}
	if f.partial == nil {
		return true
	}
	u, ok := st.zone.upper(mkLen(f.partial))
	return ok && u <= 0
}

// header is what a decoder consumed of its reader: a size, NUL, and the body.
type header struct {
	size, body *Term
}

func headerOf(o Outcome, rd *Term) (h header, why string) {
	c := o.st.heap["rd:"+keyOf(rd)]
	if c == nil {
		return h, "nothing was read"
	}
	as := atoms(c)
	if len(as) != 3 || as[1].op != OStr || as[1].s != "\x00" {
		return h, "the input was read as " + c.String() + ", not as a size, NUL and a body"
	}
	if as[0].op != OSym || delimOf[as[0]] != "\x00" {
		return h, "the size is " + as[0].String()
	}
	return header{as[0], as[2]}, ""
}

func sizeTerms(t *Term) []*Term {
	return []*Term{mk(OApp, "atoi", 0, []*Term{t}, nil, nil), mk(OApp, "atou", 0, []*Term{t}, nil, nil)}
}

// sound: success means that everything was read, completely, and used.
func (r *Report) sound(run *Run, rdArg int, framed bool) {
	ok, _ := run.split()
	if len(ok) == 0 && len(run.outs) > 0 {
		r.fail("some input is accepted", run.name, "no path of %s succeeds", run.name)
	}
	for _, e := range run.events {
		switch e.kind {
		case "drop":
			r.require(false, "all input is used", r.pos(e.pos), "%s: %s", run.name, e.msg)
		case "loop":
			for _, it := range e.loop.iters {
				for _, f := range sortedFails(it.fails) {
					if f.kind == "lookup" || f.kind == "close" {
						continue
					}
					if cleanEOF(it.st, f) {
						continue
					}
					r.require(false, "no failure is ignored", f.site, "%s: the failure of %s does not leave the loop at %s", run.name, shortName(f.callee), r.pos(e.pos))
				}
			}
		}
	}
	for _, o := range ok {
		where := r.pos(o.pos)
		eofs := map[string]bool{}
		for _, f := range sortedFails(o.st.fails) {
			if f.kind == "close" {
				continue
			}
			if cleanEOF(o.st, f) {
				eofs[f.arg] = true
			}
			r.require(cleanEOF(o.st, f), "no failure is ignored", f.site, "%s succeeds at %s after %s failed", run.name, where, shortName(f.callee))
		}
		r.require(true, "no failure is ignored", where, "success of %s", run.name)
		for _, t := range sortedTerms(o.st.toks) {
			used := o.st.emptyOrLiteral(t)
			if !used {
				for k, v := range o.st.heap {
					if (strings.HasPrefix(k, "asm:")) && o.st.accounts(v, t) {
						used = true
					}
				}
				for _, v := range o.res {
					if o.st.accounts(o.st.deepAll(v), t) {
						used = true
					}
				}
			}
			if !used && framed {
				// the size is used by comparing it
				if h, why := headerOf(o, run.args[rdArg]); why == "" && h.size == t {
					used = true
				}
			}
			r.require(used, "all input is used", where, "%s: %s (%s) is part of the result", run.name, t, o.st.toks[t])
		}
		r.fullReads(run, o, where)
		if !framed {
			continue
		}
		rd := run.args[rdArg]
		h, why := headerOf(o, rd)
		if !r.require(why == "", "framing", where, "%s: header and body are read: %s", run.name, why) {
			continue
		}
		atEnd := o.st.heap["eof:"+keyOf(rd)] == tTrue || eofs[keyOf(rd)]
		r.require(atEnd, "input is read to its end", where, "%s: nothing may follow the body", run.name)
		canon, same := false, false
		for _, n := range sizeTerms(h.size) {
			if yes(o.st, mkEq(h.size, mkItoa(n))) {
				canon = true
			}
			if yes(o.st, mkEq(n, mkLen(h.body))) {
				same = true
			}
		}
		// an unsigned parse cannot accept a sign, but accepts leading zeros
		r.require(same, "declared size is the body's size", where, "%s: success implies that the declared size is the length of the body", run.name)
		r.require(canon, "declared size is canonical", where, "%s: success implies that the size is written in its only form", run.name)
		// readers over the body must be exhausted as well
		for k, src := range o.st.heap {
			key, isSrc := strings.CutPrefix(k, "src:rdr:")
			if !isSrc {
				continue
			}
			key = "rdr:" + key
			under := unwrap(src)
			if under == h.body {
				// an in-memory reader: is it read through another one?
				wrapped := false
				for k2, s2 := range o.st.heap {
					if strings.HasPrefix(k2, "src:rdr:") && unwrap(s2).op == OPtr && unwrap(s2).s == key {
						wrapped = true
					}
				}
				if wrapped {
					continue
				}
			}
			done := o.st.heap["eof:"+key] == tTrue || eofs[key]
			r.require(done, "input is read to its end", where, "%s: the reader over the body is exhausted", run.name)
		}
	}
}

// fullReads: what a read may have left unfilled is not part of the result.
func (r *Report) fullReads(run *Run, o Outcome, where string) {
	seen := map[*Term]bool{}
	var rec func(t *Term, st *State)
	rec = func(t *Term, st *State) {
		walk(t, func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if p, ok := phiReg[x]; ok {
				rec(p.init, p.loop.entry)
				for _, it := range p.loop.iters {
					rec(it.vals[p.loc], it.st)
				}
			}
			if x.op == OApp && x.s == "copied" && len(x.args) == 3 && x.args[2].op == OSym && strings.HasPrefix(x.args[2].s, "chunk@") {
				full := yes(st, mkEq(mkLen(x.args[0]), mkLen(x.args[2])))
				r.require(full, "no short read is used", where, "%s: the result uses memory that a read may have filled only in part: %s", run.name, x)
			}
			return true
		})
	}
	for _, k := range sortedKeys(o.st.heap) {
		if strings.HasPrefix(k, "asm:") {
			rec(o.st.deepAll(o.st.heap[k]), o.st)
		}
	}
	for _, v := range o.res {
		rec(o.st.deepAll(v), o.st)
	}
}

func sortedFails(m map[*Term]*Fail) []*Fail {
	var r []*Fail
	for _, t := range sortedTerms(m) {
		r = append(r, m[t])
	}
	return r
}

// assigned gives what the assembler passed in receives on success.
func assigned(o Outcome, na *Term) (kind string, v *Term, why string) {
	c := o.st.heap["asm:"+keyOf(na)]
	if c == nil {
		return "", nil, "nothing is assigned"
	}
	as := atoms(c)
	if len(as) != 1 || as[0].op != OElem || as[0].args[0].op != OApp || !strings.HasPrefix(as[0].args[0].s, "assign:") {
		return "", nil, "the assembler receives " + c.String()
	}
	a := as[0].args[0]
	return a.s[7:], a.args[0], ""
}

// ---- rejections

// rejections: every failure of a decoder is caused by its input being wrong.
func (r *Report) rejections(run *Run, rdArg int, conds func(st *State) string) {
	ok, bad := run.split()
	endOK := map[*Term]bool{}
	for _, o := range ok {
		for e := range o.st.fails {
			endOK[e] = true
		}
	}
	root := ""
	if rdArg >= 0 && rdArg < len(run.args) {
		root = keyOf(run.args[rdArg])
	}
	for _, o := range bad {
		why := ""
		for _, f := range sortedFails(o.st.fails) {
			if w := r.excuse(o.st, f, root, endOK); w != "" {
				why = w
			}
		}
		if why == "" {
			why = conds(o.st)
		}
		r.require(why != "", "only bad input is rejected", r.pos(o.pos), "%s fails here: %s%s", run.name, why, explain(o, why))
	}
}

func explain(o Outcome, why string) string {
	if why != "" {
		return ""
	}
	var fs []string
	for f, v := range o.st.facts {
		if f.s == "isnil" {
			continue
		}
		fs = append(fs, fmt.Sprintf("%v=%v", f, v))
	}
	sort.Strings(fs)
	var pf []string
	for _, f := range sortedFails(o.st.fails) {
		pf = append(pf, f.kind+" "+shortName(f.callee)+" "+f.site)
	}
	s := strings.Join(fs, "; ")
	if len(s) > 900 {
		s = s[:900]
	}
	return "no accepted reason among: " + strings.Join(pf, ", ") + " | " + s
}

func (r *Report) excuse(st *State, f *Fail, root string, endOK map[*Term]bool) string {
	switch f.kind {
	case "hash", "assign", "begin", "entry", "finish", "decode":
		return f.kind + " failed in " + shortName(f.callee)
	case "parse":
		if f.of == nil || len(f.of.args) == 0 {
			return ""
		}
		x := f.of.args[0]
		switch f.of.s {
		case "atoi", "atou":
			if x.op == OSym && delimOf[x] == "\x00" {
				return "the size is not a number"
			}
		case "hexdec":
			for _, kw := range []string{"tree ", "parent ", "object ", "mergetag object "} {
				if _, ok := after(x, st, kw); ok {
					return "a hash is not hexadecimal"
				}
			}
		}
		return ""
	case "read":
		if f.arg == root || f.arg == "" {
			if cleanEOF(st, f) && endOK[f.err] {
				return ""
			}
			return "the reader failed"
		}
		if no(st, mkEq(f.err, ioEOF())) || drains[f.callee] {
			return "the reader failed"
		}
		if f.partial != nil {
			if lo, ok := st.zone.lower(mkLen(f.partial)); ok && lo > 0 {
				return "the input ends inside a line"
			}
		}
		if endOK[f.err] {
			return ""
		}
		if midEntry(st, f.arg) {
			return "the input ends inside a tree entry"
		}
		if inContext(st, "gpgsig ") || inContext(st, "mergetag object ") {
			return "the input ends inside a header"
		}
	}
	return ""
}

// drains: calls that read to the end, for which the end is not an error.
var drains = map[string]bool{"io.ReadAll": true, "io/ioutil.ReadAll": true, "io.Copy": true, "io.CopyBuffer": true, "(*bytes.Buffer).ReadFrom": true, "(*bufio.Reader).WriteTo": true}

// midEntry: the mode of an entry has been read since the last whole entry.
func midEntry(st *State, key string) bool {
	c := st.heap["rd:"+key]
	if c == nil {
		return false
	}
	as := atoms(c)
	for n := len(as); n >= 2; n-- {
		if as[n-1].op == OStr && as[n-1].s == " " && delimOf[as[n-2]] == " " {
			return true
		}
		if as[n-1].op == OSym && strings.HasPrefix(as[n-1].s, "fixed@") {
			return false
		}
	}
	return false
}

// inContext: a line starting with kw has been read.
func inContext(st *State, kw string) bool {
	for f, v := range st.facts {
		if !v || f.op != OApp || (f.s != "at" && f.s != "eq") {
			continue
		}
		for _, x := range f.args {
			if isLine(x) && yes(st, mkAt(x, mkInt(0), kw)) {
				return true
			}
		}
	}
	return false
}

// factLines lists the lines that the state knows something about.
func factLines(st *State) []*Term {
	m := map[*Term]bool{}
	for f := range st.facts {
		for s := range symsOf(f) {
			if isLine(s) {
				m[s] = true
			}
		}
	}
	return sortedTerms(m)
}

// badFrame: the size does not fit the body, or is not written canonically.
func badFrame(st *State) string {
	for f, v := range st.facts {
		if f.op != OApp {
			continue
		}
		if f.s == "eq" && !v {
			for _, p := range [][2]*Term{{f.args[0], f.args[1]}, {f.args[1], f.args[0]}} {
				if delimOf[p[0]] == "\x00" && p[1].op == OApp && p[1].s == "itoa" && mentions(p[1], p[0]) {
					return "the size is not canonical"
				}
			}
		}
		// a number taken from the size
		hasSize, hasBody := false, false
		var size, body *Term
		walk(f, func(x *Term) bool {
			if x.op == OApp && (x.s == "atoi" || x.s == "atou") && x.args[0].op == OSym && delimOf[x.args[0]] == "\x00" {
				hasSize = true
				size = x
			}
			if x.op == OApp && x.s == "len" && x.args[0].op == OSym && (strings.HasPrefix(x.args[0].s, "all@") || strings.HasPrefix(x.args[0].s, "partial@") || strings.HasPrefix(x.args[0].s, "copyn@")) {
				hasBody = true
				body = x.args[0]
			}
			return true
		})
		if hasSize && hasBody && no(st, mkEq(size, mkLen(body))) {
			return "the size is not that of the body"
		}
		if hasSize {
			if hi, ok := st.zone.upper(size); ok && hi < 0 {
				return "the size is negative"
			}
		}
	}
	return ""
}

func badHash(st *State) string {
	for f, v := range st.facts {
		if f.op == OApp && f.s == "eq0" && !v {
			l := linOf(f.args[0])
			if len(l.m) == 1 && (l.c == -20 || l.c == 20) {
				for a, c := range l.m {
					if (c == 1 || c == -1) && a.op == OApp && (a.s == "len" && a.args[0].op == OApp && a.args[0].s == "hexdec" || st.decodedLen(a)) {
						return "a hash does not have 20 bytes"
					}
				}
			}
			// 40 digits
			if len(l.m) == 1 && (l.c == -40 || l.c == 40 || l.c <= -45) {
				return ""
			}
		}
	}
	return ""
}

// decodedLen: n is the length of something decoded from hexadecimal.
func (st *State) decodedLen(n *Term) bool {
	for f := range st.facts {
		found := false
		walk(f, func(x *Term) bool {
			found = found || x.op == OApp && x.s == "hexdec" && halfOf(n, mkLen(x.args[0]))
			return !found
		})
		if found {
			return true
		}
	}
	return false
}

// ---- blob and tree

func init() {
	checks["C03"] = func(r *Report) {
		r.expl = "On every path of every decoder that returns success: each error a callee returned on that path was the clean end of input; every datum read is part of the assembled value (or known literally); the reader is exhausted; the declared size is canonical and equals the body's length. On every path around a loop no error stays behind. The entry points return an error whenever the decoder they call does."
		r.assume = []string{trust}
		for _, n := range []string{"DecodeBlob", "DecodeTree", "DecodeTag", "DecodeCommit"} {
			r.sound(r.analyse(n, nil), 1, true)
		}
		r.sound(r.analyse("DecodeTreeEntry", nil), 0, false)
		r.entryPoints(true)
		r.atLeast("declared size is the body's size", 4)
		r.atLeast("input is read to its end", 4)
		r.atLeast("no failure is ignored", 5)
		r.atLeast("all input is used", 15)
	}
	checks["C07"] = func(r *Report) {
		r.expl = "On every successful path of the blob decoder the assembler receives, as bytes, exactly \"blob \", the size in decimal, NUL and the whole body; failing paths are failures of the reader or assembler or a wrong size."
		r.assume = []string{trust}
		run := r.analyse("DecodeBlob", nil)
		r.sound(run, 1, true)
		ok, _ := run.split()
		for _, o := range ok {
			h, why := headerOf(o, run.args[1])
			if why != "" {
				continue
			}
			k, v, why := assigned(o, run.args[0])
			if !r.require(why == "", "blob value", r.pos(o.pos), "the assembler is given one value: %s", why) {
				continue
			}
			good := false
			for _, n := range sizeTerms(h.size) {
				for _, s := range []*Term{mkItoa(n), h.size, mkItoa(mkLen(h.body))} {
					if v == mkCat(mkStr("blob "), s, mkStr("\x00"), h.body) {
						good = true
					}
				}
			}
			r.require(good && k == "bytes", "blob value", r.pos(o.pos), "the assembler is given the whole object as bytes: %s %s", k, v)
		}
		r.blobRejections(run)
		r.atLeast("blob value", 1)
	}
	checks["C06"] = func(r *Report) {
		r.expl = "On every successful path of the tree decoder the assembler receives a tree to which each path around the loop appended exactly one entry, in reading order: the mode is the text before a space, the name the text before a NUL, the hash the next 20 bytes; failing paths are failures of the reader, the assembler or the frame."
		r.assume = []string{trust}
		run := r.analyse("DecodeTree", nil)
		r.sound(run, 1, true)
		ok, _ := run.split()
		for _, o := range ok {
			where := r.pos(o.pos)
			entries := begunMap(o, run.args[0])
			if entries == nil {
				k, v, why := assigned(o, run.args[0])
				if !r.require(why == "" && k == "node", "tree value", where, "the assembler is given one node: %s", why) {
					continue
				}
				b := unwrap(v)
				if !r.require(b.op == OApp && b.s == "built" && strings.HasPrefix(protoName(b.args[0]), "_Tree__"), "tree value", where, "the node is a built tree: %s", v) {
					continue
				}
				entries = b.args[1]
			} else {
				r.require(true, "tree value", where, "the assembler is given a map")
			}
			els, appended := elements(entries, o.st)
			r.require(appended, "entries are appended", where, "entries are only ever added at the end: %s", entries)
			n := 0
			for _, e := range els {
				r.treeEntry(e, where)
				n++
			}
			r.require(n > 0, "entries are decoded", where, "%d ways to add an entry", n)
			// one entry for each that was read
			r.treeSteps(entries, where)
		}
		r.rejections(run, 1, badFrame)
		// a single entry
		er := r.analyse("DecodeTreeEntry", nil)
		ok, _ = er.split()
		for _, o := range ok {
			where := r.pos(o.pos)
			name, node := o.res[0], o.st.deepAll(o.res[1])
			r.entryValue(o.st, name, node, where)
			c := o.st.heap["rd:"+keyOf(er.args[0])]
			r.require(c != nil && r.entryBytes(atoms(c), name, node), "entry layout", where, "an entry is read as mode, space, name, NUL and 20 bytes: %v", c)
		}
		r.sound(er, 0, false)
		r.rejections(er, 0, func(*State) string { return "" })
		r.atLeast("entry value", 2)
		r.atLeast("entry layout", 2)
	}
}

// begunMap is what a map that was begun on the given assembler, and finished, holds.
func begunMap(o Outcome, na *Term) *Term {
	k := keyOf(na)
	if o.st.heap["kind:"+k] == mkStr("map") && o.st.heap["ts:"+k] == mkStr("done") {
		return o.st.heap["asm:"+k]
	}
	return nil
}

func defaultTo(t, d *Term) *Term {
	if t == nil {
		return d
	}
	return t
}

func protoName(t *Term) string {
	if t.op == OApp && t.s == "proto" && t.args[0].op == OStr {
		return t.args[0].s
	}
	return t.String()
}

// treeEntry checks one appended map entry.
func (r *Report) treeEntry(e leaf, where string) {
	if !r.require(e.v.op == OTuple && len(e.v.args) == 2 && e.v.args[1].op == OApp && e.v.args[1].s == "assign:node", "entry value", where, "an entry is a name and a node: %s", e.v) {
		return
	}
	name := e.v.args[0]
	r.entryValue(e.env, name, e.v.args[1].args[0], where)
}

func (r *Report) entryValue(st *State, name, node *Term, where string) {
	s := structOf(node, "_TreeEntry")
	fs := r.P.fieldsOf("_TreeEntry")
	if !r.require(s != nil && fs != nil, "entry value", where, "the entry is a TreeEntry: %s", node) {
		return
	}
	r.require(name.op == OSym && delimOf[name] == "\x00", "entry value", where, "the name is all of the text before a NUL: %s", name)
	mode := peel(s.args[fs["mode"]])
	r.require(mode.op == OSym && delimOf[mode] == " ", "entry value", where, "the mode is all of the text before a space: %s", mode)
	h, why := linkOf(s.args[fs["hash"]])
	good := why == "" && h.op == OSym && fixedLen[h] == 20 && strings.HasPrefix(h.s, "fixed@")
	r.require(good, "entry value", where, "the hash is a link to the 20 bytes read: %s %s", s.args[fs["hash"]], why)
}

// entryBytes: the bytes consumed are mode, space, name, NUL, hash.
func (r *Report) entryBytes(as []*Term, name, node *Term) bool {
	s := structOf(node, "_TreeEntry")
	fs := r.P.fieldsOf("_TreeEntry")
	if s == nil || len(as) < 5 {
		return false
	}
	as = as[len(as)-5:]
	h, why := linkOf(s.args[fs["hash"]])
	return why == "" && as[0] == peel(s.args[fs["mode"]]) && as[1] == mkStr(" ") && as[2] == name && as[3] == mkStr("\x00") && as[4] == h
}

// treeSteps: each iteration consumes one entry and adds that entry.
func (r *Report) treeSteps(list *Term, where string) {
	as := atoms(list)
	if len(as) == 0 {
		return
	}
	p, ok := phiReg[as[0]]
	if !ok {
		return
	}
	for _, it := range p.loop.iters {
		w := it.vals[p.loc]
		var rd *Term
		var rph *Term
		for loc, v := range it.vals {
			if strings.HasPrefix(loc, "h:rd:") {
				rd, rph = v, p.loop.phis[loc].sym
			}
		}
		wa := atoms(w)
		good := rd != nil && len(wa) == 2 && wa[0] == p.sym && wa[1].op == OElem && atoms(rd)[0] == rph && len(atoms(rd)) == 6
		if good {
			e := wa[1].args[0]
			good = e.op == OTuple && e.args[1].op == OApp && len(e.args[1].args) == 1 && r.entryBytes(atoms(rd), e.args[0], e.args[1].args[0])
		}
		r.require(good, "entry layout", where, "each iteration reads mode, space, name, NUL and 20 bytes and adds that entry: %s from %v", w, rd)
	}
	r.treeSteps(p.init, where)
}

// blobRejections: the reasons for which the decoder may refuse its input.
func (r *Report) blobRejections(run *Run) {
	r.rejections(run, 1, func(st *State) string {
		if w := badFrame(st); w != "" {
			return w
		}
		// more than the declared size
		rd := defaultTo(st.heap["rd:"+keyOf(run.args[1])], tEmpty)
		as := atoms(rd)
		more := len(as) > 3
		for f, v := range st.facts {
			// seen and left there
			more = more || v && f.op == OApp && f.s == "follows" && f.args[1] == rd && len(as) == 3
		}
		if more && as[1] == mkStr("\x00") {
			for _, n := range sizeTerms(as[0]) {
				if yes(st, mkEq(n, mkLen(as[2]))) {
					return "something follows the body"
				}
			}
		}
		return ""
	})
}
