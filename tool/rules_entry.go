package main

import (
	"strings"
)

// Entry points: type word, dispatch, registration.

var kinds = []string{"blob", "tree", "commit", "tag"}

func title(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// decoderContracts replaces the four decoders by what they promise: all of the
// reader is consumed and the assembler is given an object of the kind, or an
// error is returned.
func (r *Report) decoderContracts() map[string]func(*callCtx) []callOut {
	m := map[string]func(*callCtx) []callOut{}
	for _, k := range kinds {
		k := k
		m[r.P.pkg.Pkg.Path()+".Decode"+title(k)] = func(c *callCtx) []callOut {
			if len(c.args) != 2 {
				return c.opaque(c.name, true)
			}
			st := c.st
			s2 := st.clone()
			na, rd := keyOf(c.args[0]), unwrap(c.args[1])
			c.inState(na, "new")
			st.heap["asm:"+na] = mkCat(c.cell(st, "asm:", na), mkElem(mkApp("assign:decoded", mkStr(k), mkPtr(keyOf(rd)))))
			st.heap["ts:"+na] = mkStr("done")
			c.consume(st, rd, c.fresh("object", nil))
			st.heap["eof:"+keyOf(rd)] = tTrue
			e := c.failing(s2, "decode", "", nil)
			return []callOut{{st, tNil}, {s2, e}}
		}
	}
	return m
}

// kindOfAssigned tells which kind of object an assembler was given.
func kindOfAssigned(c *Term) string {
	as := atoms(c)
	if len(as) != 1 || as[0].op != OElem {
		return ""
	}
	a := as[0].args[0]
	if a.op != OApp {
		return ""
	}
	switch a.s {
	case "assign:decoded":
		return a.args[0].s
	case "assign:bytes":
		return "blob"
	case "assign:node":
		if structOf(a.args[0], "_Commit") != nil {
			return "commit"
		}
		if structOf(a.args[0], "_Tag") != nil {
			return "tag"
		}
		if b := unwrap(a.args[0]); b.op == OApp && b.s == "built" && strings.HasPrefix(protoName(b.args[0]), "_Tree__") {
			return "tree"
		}
	}
	return ""
}

type entry struct {
	name string
	// what the chain of readers must end in, given the arguments
	src func(args []*Term) *Term
	// index of an assembler argument, or -1 when the node is built
	na  int
	via string
}

func entries() []entry {
	arg := func(i int) func([]*Term) *Term { return func(a []*Term) *Term { return a[i] } }
	return []entry{
		{"Decode", arg(1), 0, ""},
		{"ParseObject", arg(0), -1, ""},
		{"ParseObjectFromBuffer", arg(0), -1, ""},
		{"ParseCompressedObject", arg(0), -1, "zlib"},
		{"DecodeBlock", func(a []*Term) *Term { return mkApp("blockdata", a[0]) }, -1, ""},
	}
}

// readers lists the readers of an outcome whose chain of sources ends in src.
func readersOver(st *State, src *Term, via string) (keys []string) {
	for _, k := range sortedKeys(st.heap) {
		key, ok := strings.CutPrefix(k, "src:rdr:")
		if !ok {
			continue
		}
		key = "rdr:" + key
		zl := false
		t := st.heap["src:"+key]
		for d := 0; d < 8; d++ {
			u := unwrap(t)
			if u.op == OApp && u.s == "zlib" {
				zl = true
				u = unwrap(u.args[0])
			}
			if u.op == OApp && u.s == "limrd" {
				break
			}
			if sameTerm(u, src) {
				if (via == "zlib") == zl {
					keys = append(keys, key)
				}
				break
			}
			if u.op != OPtr {
				break
			}
			nt, ok := st.heap["src:"+u.s]
			if !ok {
				break
			}
			t = nt
		}
	}
	return
}

func sameTerm(a, b *Term) bool {
	return a == b || (a.op == b.op && a.s == b.s && len(a.args) == len(b.args) && a.String() == b.String())
}

func (r *Report) entryPoints(errorsOnly bool) {
	sums := r.decoderContracts()
	for _, e := range entries() {
		run := r.analyse("entry "+e.name, sums)
		if run.fn == nil {
			continue
		}
		ok, _ := run.split()
		seen := map[string]bool{}
		for _, o := range ok {
			where := r.pos(o.pos)
			for _, f := range sortedFails(o.st.fails) {
				if f.kind == "close" || f.kind == "lookup" {
					continue
				}
				r.require(false, "no failure is ignored", f.site, "%s succeeds at %s after %s failed", e.name, where, shortName(f.callee))
			}
			r.require(true, "no failure is ignored", where, "success of %s", e.name)
			if errorsOnly {
				continue
			}
			var got *Term
			if e.na >= 0 {
				got = o.st.heap["asm:"+keyOf(run.args[e.na])]
			} else {
				n := unwrap(o.res[0])
				if !r.require(n.op == OApp && n.s == "built", "result is the built node", where, "%s returns %s", e.name, o.res[0]) {
					continue
				}
				got = n.args[1]
				k := kindOfAssigned(got)
				p := protoName(n.args[0])
				r.require(k != "" && (p == "_"+title(k)+"__Prototype" || p == "_"+title(k)+"__ReprPrototype"), "prototype is that of the kind", where, "%s builds a %s with %s", e.name, k, p)
			}
			if !r.require(got != nil && kindOfAssigned(got) != "", "one object is decoded", where, "%s gives the assembler %v", e.name, got) {
				continue
			}
			k := kindOfAssigned(got)
			seen[k] = true
			// the type word is the start of the input, and names the kind
			good, why := false, "no reader over the input"
			for _, key := range readersOver(o.st, e.src(run.args), e.via) {
				c := o.st.heap["rd:"+key]
				if c == nil || len(atoms(c)) < 3 {
					continue
				}
				as := atoms(c)
				why = c.String()
				if as[1].op != OStr || as[1].s != " " || delimOf[as[0]] != " " {
					continue
				}
				if w, lit := o.st.litOf(as[0]); !lit || w != k {
					why = "the type word is not known to be " + k + ": " + w
					continue
				}
				if d := atoms(got)[0].args[0]; d.s == "assign:decoded" && keyOf(d.args[1]) != key {
					why = "the object is decoded from another reader"
					continue
				}
				good = true
			}
			r.require(good, "type word names the kind", where, "%s decodes a %s from the input: %s", e.name, k, why)
			if e.name == "DecodeBlock" {
				r.blockPrefix(run, o, where)
			}
		}
		if errorsOnly {
			continue
		}
		for _, k := range kinds {
			r.require(seen[k], "every kind is decoded", e.name, "%s decodes a %s", e.name, k)
		}
		r.entryRejections(e, run)
	}
}

// entryRejections: an entry point fails when a callee does, on an unknown type
// word, and on a block that is not a git object.
func (r *Report) entryRejections(e entry, run *Run) {
	_, bad := run.split()
	for _, o := range bad {
		why := ""
		for _, f := range sortedFails(o.st.fails) {
			if f.kind != "close" {
				why = f.kind + " failed"
			}
		}
		if why == "" {
			for _, x := range sortedTerms(o.st.toks) {
				if delimOf[x] != " " {
					continue
				}
				none := true
				for _, k := range kinds {
					none = none && no(o.st, mkEq(x, mkStr(k)))
				}
				if none {
					why = "the type word is unknown"
				}
			}
		}
		if why == "" && e.name == "DecodeBlock" {
			for n, want := range prefixWant {
				if no(o.st, mkEq(r.prefixField(run, n), mkInt(want))) {
					why = "the CID is not that of a git object"
				}
			}
		}
		r.require(why != "", "only bad input is rejected", r.pos(o.pos), "%s fails here: %s%s", e.name, why, explain(o, why))
	}
}

var prefixWant = map[string]int64{"Codec": 0x78, "MhType": 0x11, "MhLength": 20}

func (r *Report) prefixField(run *Run, name string) *Term {
	var pt *Term
	for _, o := range run.outs {
		for f := range o.st.facts {
			walk(f, func(x *Term) bool {
				if x.op == OField && fieldName(x) == name && x.args[0].op == OApp && x.args[0].s == "cidprefix" {
					if b := x.args[0].args[0]; b.op == OApp && b.s == "blockcid" && b.args[0] == run.args[0] {
						pt = x
					}
				}
				return true
			})
		}
	}
	if pt == nil {
		return mkSym("no "+name, nil)
	}
	return pt
}

func (r *Report) blockPrefix(run *Run, o Outcome, where string) {
	for _, n := range sortedKeys(prefixWant) {
		r.require(yes(o.st, mkEq(r.prefixField(run, n), mkInt(prefixWant[n]))), "block CID is that of a git object", where, "the block's %s is %#x", n, prefixWant[n])
	}
}

func (r *Report) registration() {
	run := r.analyse("entry Decode", r.decoderContracts())
	got := map[string]bool{}
	for _, e := range run.init {
		if e.kind != "register" || e.val == nil || len(e.val.args) < 2 {
			continue
		}
		code, ok := isInt(e.val.args[0])
		f := unwrap(e.val.args[1])
		what := "decoder"
		want := "Decode"
		if strings.HasSuffix(e.msg, "RegisterEncoder") {
			what, want = "encoder", "Encode"
		}
		if !ok || code != 0x78 {
			continue
		}
		good := f.op == OFunc && strings.HasSuffix(f.s, "."+want)
		r.require(good, "registration", r.pos(e.pos), "the %s of git-raw is %s", what, f)
		got[what] = true
	}
	for _, w := range []string{"decoder", "encoder"} {
		r.require(got[w], "registration", "init", "a git-raw %s is registered when the package is imported", w)
	}
}

func init() {
	checks["C16"] = func(r *Report) {
		r.expl = "For every decoding entry point, with the four object decoders replaced by their contract: success implies that the text before the first space of the given input is the word of a kind, that this kind's decoder ran on the rest of the same reader, with a builder of this kind, and that the node returned is what was built; all four kinds are reachable; failure is a failure of a callee, an unknown type word or a CID that is not git-raw/sha1/20. Initialisation registers Encode and Decode for git-raw."
		r.assume = []string{trust}
		r.entryPoints(false)
		r.registration()
		// the encoder
		for _, k := range kinds {
			r.encoded(k, func(run *Run, o Outcome, where, via string) {
				w := written(run, o)
				got := k
				if k == "blob" {
					// the node's bytes hold the header
					if !mentions(w, mkApp("asbytes", run.args[0])) {
						got = w.String()
					}
				} else if _, _, why := frame(w, k); why != "" {
					got = why
				}
				r.require(got == k, "encoder is that of the kind", where, "a node recognised by %s is written as a %s: %s", via, k, got)
			})
		}
		r.atLeast("encoder is that of the kind", 50)
		r.atLeast("every kind is decoded", 20)
		r.atLeast("type word names the kind", 20)
	}
}
