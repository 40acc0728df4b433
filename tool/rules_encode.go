package main

import (
	"fmt"
	"go/types"
	"strings"
)

// What is written: a sequence of literals, values and repetitions.

type witem struct {
	t    *Term
	phi  *PhiInfo
	alts []walt
}

type walt struct {
	items []witem
	env   *State
}

func (w witem) String() string {
	if w.phi == nil {
		return w.t.String()
	}
	var as []string
	for _, a := range w.alts {
		var is []string
		for _, i := range a.items {
			is = append(is, i.String())
		}
		as = append(as, strings.Join(is, " · "))
	}
	return "(" + strings.Join(as, " | ") + ")*"
}

// flatten unrolls the loops that built v. base is what v must start with, nil
// for nothing.
func flatten(v, base *Term, depth int) ([]witem, string) {
	if depth > 12 {
		return nil, "loops nested too deeply"
	}
	var out []witem
	as := atoms(v)
	if base != nil {
		// base is the first atom, or what the loop that is the first atom began with
		if len(as) == 0 {
			return nil, "what was written is dropped"
		}
		if as[0] == base {
			as = as[1:]
		} else {
			p, ok := phiReg[as[0]]
			if !ok {
				return nil, "what was written before does not come first: " + v.String()
			}
			is, why := flattenPhi(p, base, depth)
			if why != "" {
				return nil, why
			}
			out = append(out, is...)
			as = as[1:]
		}
	}
	for _, a := range as {
		if p, ok := phiReg[a]; ok {
			is, why := flattenPhi(p, nil, depth)
			if why != "" {
				return nil, why
			}
			out = append(out, is...)
			continue
		}
		out = append(out, witem{t: a})
	}
	return out, ""
}

func flattenPhi(p *PhiInfo, base *Term, depth int) ([]witem, string) {
	var out []witem
	if base == nil || p.init != base {
		is, why := flatten(p.init, base, depth+1)
		if why != "" {
			return nil, why
		}
		out = is
	}
	w := witem{t: p.sym, phi: p}
	for _, it := range p.loop.iters {
		is, why := flatten(it.vals[p.loc], p.sym, depth+1)
		if why != "" {
			return nil, why
		}
		w.alts = append(w.alts, walt{is, it.st})
	}
	return append(out, w), ""
}

// matcher reads a sequence of items against an expected layout; the first
// mismatch is kept.
type matcher struct {
	r     *Report
	items []witem
	st    *State
	why   string
	feats map[string]bool
}

func (m *matcher) bad(format string, a ...any) {
	if m.why == "" {
		m.why = fmt.Sprintf(format, a...)
	}
}

func (m *matcher) rest() string {
	var s []string
	for i, x := range m.items {
		if i == 4 {
			s = append(s, "…")
			break
		}
		s = append(s, x.String())
	}
	if len(s) == 0 {
		return "the end"
	}
	return strings.Join(s, " · ")
}

func (m *matcher) lit(s string) {
	for s != "" && m.why == "" {
		if len(m.items) == 0 || m.items[0].phi != nil {
			m.bad("expected %q, found %s", s, m.rest())
			return
		}
		t := m.items[0].t
		if t.op != OStr {
			if l, ok := m.st.litOf(t); ok && l != "" {
				t = mkStr(l)
			}
		}
		if t.op != OStr {
			m.bad("expected %q, found %s", s, m.rest())
			return
		}
		n := len(t.s)
		if n > len(s) {
			n = len(s)
		}
		if t.s[:n] != s[:n] {
			m.bad("expected %q, found %s", s, m.rest())
			return
		}
		s = s[n:]
		if n == len(t.s) {
			m.items = m.items[1:]
		} else {
			m.items = append([]witem{{t: mkStr(t.s[n:])}}, m.items[1:]...)
		}
	}
}

// val reads one value that ok accepts; ok says what is wrong with it.
func (m *matcher) val(what string, ok func(t *Term) string) {
	if m.why != "" {
		return
	}
	if len(m.items) == 0 || m.items[0].phi != nil || m.items[0].t.op == OStr {
		m.bad("expected %s, found %s", what, m.rest())
		return
	}
	if w := ok(m.items[0].t); w != "" {
		m.bad("%s: %s", what, w)
		return
	}
	m.items = m.items[1:]
}

func (m *matcher) is(what string, want ...*Term) {
	// a value known to be empty may be left out
	for _, w := range want {
		if m.why == "" && empty(m.st, w) && (len(m.items) == 0 || m.items[0].t != w) {
			return
		}
	}
	m.val(what, func(t *Term) string {
		for _, w := range want {
			if t == w {
				return ""
			}
		}
		return "found " + t.String()
	})
}

func (m *matcher) end() {
	if m.why == "" && len(m.items) > 0 {
		m.bad("expected the end, found %s", m.rest())
	}
}

// each reads a repetition that writes every element of list L once, in order.
func (m *matcher) each(what string, L *Term, body func(m *matcher, el *Term)) {
	if m.why != "" {
		return
	}
	if len(m.items) == 0 || m.items[0].phi == nil {
		m.bad("the %s are not written: found %s", what, m.rest())
		return
	}
	w := m.items[0]
	m.items = m.items[1:]
	if len(w.alts) == 0 {
		m.bad("the %s are never written", what)
	}
	for _, a := range w.alts {
		var el *Term
		for _, i := range a.items {
			walk(i.t, func(x *Term) bool {
				if el == nil && x.op == OApp && x.s == "idx" && x.args[0] == L {
					el = x
				}
				return el == nil
			})
		}
		if el == nil {
			m.bad("an element of the %s is not written: %s", what, witem{t: w.t, phi: w.phi, alts: []walt{a}})
			return
		}
		p, c := loopVar(el.args[1])
		switch {
		case p == nil || p.loop != w.phi.loop || !stepsByOne(p):
			m.bad("the %s are not visited one by one: %s", what, el.args[1])
			return
		case mkAdd(p.init, mkInt(c)) != mkInt(0):
			m.bad("the %s are not visited from the first: %s", what, mkAdd(p.init, mkInt(c)))
			return
		case !yes(m.st, mkLe(mkLen(L), el.args[1])):
			m.bad("the %s are not visited to the last", what)
			return
		}
		sub := &matcher{r: m.r, items: a.items, st: a.env, feats: m.feats}
		body(sub, el)
		sub.end()
		if sub.why != "" {
			m.bad("%s: %s", what, sub.why)
			return
		}
	}
	m.feats[what] = true
}

// optional: cond known true -> body, known false -> nothing.
func (m *matcher) optional(what string, on, off bool, body func()) {
	switch {
	case m.why != "":
	case on:
		m.feats["+"+what] = true
		body()
	case off:
		m.feats["-"+what] = true
	default:
		m.bad("it is not decided whether the %s is present", what)
	}
}

// digest: t is the digest of the hash in the CID of link l, which is known to be
// a sha1 of 20 bytes.
func digest(t, l *Term, st *State) string {
	if t.op != OField || fieldName(t) != "Digest" {
		return "not the digest of a hash: " + t.String()
	}
	d := t.args[0]
	if d.op != OApp || d.s != "deref" || d.args[0].op != OApp || d.args[0].s != "mhdec" {
		return "not a decoded hash: " + d.String()
	}
	h := d.args[0].args[0]
	if h.op != OApp || h.s != "cidhash" {
		return "not the hash of a CID: " + h.String()
	}
	c := h.args[0]
	if c.op != OField || fieldName(c) != "Cid" || c.args[0].op != OApp || c.args[0].s != "as" || !strings.HasSuffix(c.args[0].args[1].s, "linking/cid.Link") {
		return "not the CID of a link: " + c.String()
	}
	if l != nil && c.args[0].args[0] != l {
		return "the link is " + c.args[0].args[0].String() + ", expected " + l.String()
	}
	return sha1Facts(d, t, c, st)
}

func sha1Facts(d, dig, c *Term, st *State) string {
	field := func(x *Term, n string) *Term {
		s, ok := x.typ.Underlying().(*types.Struct)
		if !ok {
			return mkSym("none", nil)
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return mkField(x, i, s.Field(i).Type())
			}
		}
		return mkSym("none", nil)
	}
	code, length := false, false
	if d.typ != nil {
		code = yes(st, mkEq(field(d, "Code"), mkInt(0x11)))
		length = yes(st, mkEq(field(d, "Length"), mkInt(20)))
	}
	length = length || yes(st, mkEq(mkLen(dig), mkInt(20)))
	for f, v := range st.facts {
		if !v || f.op != OApp || f.s != "eq0" {
			continue
		}
		walk(f, func(x *Term) bool {
			if x.op == OField && x.args[0].op == OApp && x.args[0].s == "cidprefix" && x.args[0].args[0] == c {
				switch fieldName(x) {
				case "MhType":
					code = code || yes(st, mkEq(x, mkInt(0x11)))
				case "MhLength":
					length = length || yes(st, mkEq(x, mkInt(20)))
				}
			}
			return true
		})
	}
	if !code {
		return "the hash is not known to be a sha1"
	}
	if !length {
		return "the hash is not known to have 20 bytes"
	}
	return ""
}

func (m *matcher) hex(what string, l *Term) {
	m.val(what, func(t *Term) string {
		if t.op != OApp || t.s != "hexenc" {
			return "not written in hexadecimal: " + t.String()
		}
		return digest(t.args[0], l, m.st)
	})
}

// field of a generated struct value
func (r *Report) fld(x *Term, typ, name string) *Term {
	o := r.P.pkg.Pkg.Scope().Lookup(typ)
	if o == nil {
		return mkSym("no type "+typ, nil)
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return mkSym("no struct "+typ, nil)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkField(x, i, st.Field(i).Type())
		}
	}
	return mkSym("no field "+name, nil)
}

func (r *Report) typeOf(typ string) types.Type {
	if o := r.P.pkg.Pkg.Scope().Lookup(typ); o != nil {
		return o.Type()
	}
	return types.Typ[types.Invalid]
}

func (m *matcher) person(p *Term) {
	r := m.r
	str := func(n string) *Term { return r.fld(r.fld(p, "_PersonInfo", n), "_String", "x") }
	m.is("name", str("name"))
	m.lit(" <")
	m.is("email", str("email"))
	m.lit(">")
	for _, n := range []string{"date", "timezone"} {
		x := str(n)
		m.optional("person's "+n, nonEmpty(m.st, x) || no(m.st, mkEq(x, tEmpty)), empty(m.st, x) || yes(m.st, mkEq(x, tEmpty)), func() {
			m.lit(" ")
			m.is(n, x)
		})
	}
}

func (r *Report) zeroPerson(st *State, p *Term) (is, isnt bool) {
	t := r.typeOf("_PersonInfo")
	if v, ok := st.known(mkEq(zeroOf(t), p)); ok {
		return v, !v
	}
	all := true
	for _, n := range []string{"name", "email", "date", "timezone"} {
		x := r.fld(r.fld(p, "_PersonInfo", n), "_String", "x")
		if nonEmpty(st, x) || no(st, mkEq(x, tEmpty)) {
			return false, true
		}
		if !empty(st, x) {
			all = false
		}
	}
	return all, false
}

func maybeKnown(st *State, m *Term) (on, off bool) {
	e := mkEq(m, mkInt(maybeValueConst))
	return yes(st, e), no(st, e)
}

// builtFrom finds the struct built by assigning node n to a builder of typ.
func (r *Report) builtFrom(items []witem, st *State, typ string, n *Term) *Term {
	var found *Term
	see := func(t *Term) {
		walk(t, func(x *Term) bool {
			if found == nil && x.op == OApp && x.s == "deref" && x.args[0].op == OApp && x.args[0].s == "built" {
				b := x.args[0]
				p := protoName(b.args[0])
				if p == typ+"__ReprPrototype" || p == typ+"__Prototype" {
					if as := atoms(b.args[1]); len(as) == 1 && as[0].op == OElem && as[0].args[0].op == OApp && as[0].args[0].s == "assign:node" && unwrap(as[0].args[0].args[0]) == n {
						found = x
					}
				}
			}
			return found == nil
		})
	}
	for _, i := range items {
		see(i.t)
		for _, a := range i.alts {
			for _, j := range a.items {
				see(j.t)
			}
		}
	}
	for f := range st.facts {
		see(f)
	}
	return found
}

func (m *matcher) commit(n *Term) {
	r := m.r
	c := r.builtFrom(m.items, m.st, "_Commit", n)
	if c == nil {
		m.bad("what is written does not come from the node as a commit")
		return
	}
	f := func(x string) *Term { return r.fld(c, "_Commit", x) }
	m.lit("tree ")
	m.hex("tree", r.fld(f("tree"), "_Tree_Link", "x"))
	m.lit("\n")
	m.each("parents", r.fld(f("parents"), "_Commit_Link_List", "x"), func(m *matcher, el *Term) {
		m.lit("parent ")
		m.hex("parent", r.fld(el, "_Commit_Link", "x"))
		m.lit("\n")
	})
	for _, who := range []string{"author", "committer"} {
		x := f(who)
		on, off := maybeKnown(m.st, r.fld(x, "_PersonInfo__Maybe", "m"))
		m.optional(who, on, off, func() {
			m.lit(who + " ")
			m.person(mkDeref(r.fld(x, "_PersonInfo__Maybe", "v")))
			m.lit("\n")
		})
	}
	enc := f("encoding")
	on, off := maybeKnown(m.st, r.fld(enc, "_String__Maybe", "m"))
	m.optional("encoding", on, off, func() {
		m.lit("encoding ")
		m.is("encoding", r.fld(r.fld(enc, "_String__Maybe", "v"), "_String", "x"))
		m.lit("\n")
	})
	m.each("merge tags", r.fld(f("mergetag"), "_Tag_List", "x"), func(m *matcher, el *Term) {
		t := func(x string) *Term { return r.fld(el, "_Tag", x) }
		str := func(x string) *Term { return r.fld(t(x), "_String", "x") }
		m.lit("mergetag object ")
		m.hex("object", r.fld(t("object"), "_Link", "x"))
		m.lit("\n type ")
		m.is("type", str("typ"))
		m.lit("\n tag ")
		m.is("tag", str("tag"))
		m.lit("\n")
		zero, some := r.zeroPerson(m.st, t("tagger"))
		m.optional("merge tag's tagger", some, zero, func() {
			m.lit(" tagger ")
			m.person(t("tagger"))
			m.lit("\n")
		})
		m.lit(" \n")
		m.is("message", str("message"))
	})
	sig := f("signature")
	on, off = maybeKnown(m.st, r.fld(sig, "_GpgSig__Maybe", "m"))
	m.optional("signature", on, off, func() {
		m.lit(sigBegin + "\n")
		m.is("signature", r.fld(r.fld(sig, "_GpgSig__Maybe", "v"), "_GpgSig", "x"))
		m.lit(sigEnd + "\n")
	})
	m.each("other headers", r.fld(f("other"), "_String_List", "x"), func(m *matcher, el *Term) {
		m.is("header", r.fld(el, "_String", "x"))
		m.lit("\n")
	})
	m.lit("\n")
	m.is("message", r.fld(f("message"), "_String", "x"))
	m.end()
}

func mkDeref(p *Term) *Term { return mkApp("deref", p) }

func lookupOf(n *Term, k string) *Term { return mkApp("lookup", n, mkStr(k)) }

func (m *matcher) tag(n *Term) {
	r := m.r
	str := func(k string) *Term { return mkApp("asstring", lookupOf(n, k)) }
	m.lit("object ")
	m.hex("object", mkApp("aslink", lookupOf(n, "object")))
	m.lit("\ntype ")
	m.is("type", str("type"))
	m.lit("\ntag ")
	m.is("tag", str("tag"))
	m.lit("\n")
	tg := lookupOf(n, "tagger")
	p := r.builtFrom(m.items, m.st, "_PersonInfo", tg)
	on, off := false, no(m.st, mkApp("haskey", n, mkStr("tagger"))) || yes(m.st, mkApp("isnull", tg)) || yes(m.st, mkApp("isabsent", tg))
	if p != nil && !off {
		off, on = r.zeroPerson(m.st, p)
	}
	m.optional("tagger", on, off, func() {
		m.lit("tagger ")
		m.person(p)
		m.lit("\n")
	})
	msg := str("message")
	m.optional("message", nonEmpty(m.st, msg) || no(m.st, mkEq(msg, tEmpty)), empty(m.st, msg) || yes(m.st, mkEq(msg, tEmpty)), func() {
		m.lit("\n")
		m.is("message", msg)
	})
	m.end()
}

// tree reads a repetition over the entries of map node n.
func (m *matcher) tree(n *Term) {
	if m.why != "" {
		return
	}
	if len(m.items) != 1 || m.items[0].phi == nil || len(m.items[0].alts) == 0 {
		m.bad("the entries are not written one after the other: %s", m.rest())
		return
	}
	w := m.items[0]
	// the iterator that the loop advances
	var ip *PhiInfo
	key := ""
	for _, loc := range sortedKeys(w.phi.loop.phis) {
		if k, ok := strings.CutPrefix(loc, "h:miter:"); ok {
			if src := m.st.heap["src:"+k]; src == n {
				ip, key = w.phi.loop.phis[loc], k
			}
		}
	}
	if ip == nil {
		m.bad("the loop does not iterate over the node's entries")
		return
	}
	if ip.init != tEList {
		m.bad("entries are skipped before the loop: %s", ip.init)
		return
	}
	if m.st.heap["miter:"+key] != ip.sym || !yes(m.st, mkApp("done", mkStr(key), ip.sym)) {
		m.bad("the loop may end before the last entry")
		return
	}
	for i, it := range w.phi.loop.iters {
		as := atoms(it.vals[ip.loc])
		if len(as) != 2 || as[0] != ip.sym || as[1].op != OElem {
			m.bad("an iteration does not take one entry: %s", it.vals[ip.loc])
			return
		}
		k, v := as[1].args[0].args[0], as[1].args[0].args[1]
		a := w.alts[i]
		sub := &matcher{r: m.r, items: a.items, st: a.env, feats: m.feats}
		sub.is("mode", mkApp("asstring", lookupOf(v, "mode")))
		sub.lit(" ")
		sub.is("name", mkApp("asstring", k))
		sub.lit("\x00")
		sub.val("hash", func(t *Term) string { return digest(t, mkApp("aslink", lookupOf(v, "hash")), sub.st) })
		sub.end()
		if sub.why != "" {
			m.bad("entry: %s", sub.why)
			return
		}
		m.feats["entry"] = true
	}
	m.items = nil
}

// ---- dispatch

var tagKeys = []string{"object", "type", "tag", "tagger", "text"}

// wanted tells which kind of object an outcome of Encode must write, and on
// account of what.
func (r *Report) wanted(st *State, n *Term) (kind, why string) {
	for f, v := range st.facts {
		if !v || f.op != OApp {
			continue
		}
		typ := ""
		if f.s == "eq" && len(f.args) == 2 {
			a, b := f.args[0], f.args[1]
			if b.op == OApp && b.s == "protoOf" {
				a, b = b, a
			}
			if a.op == OApp && a.s == "protoOf" && a.args[0] == n && b.op == OIface {
				typ = b.s
			}
		}
		if strings.HasPrefix(f.s, "is:") && len(f.args) == 1 && f.args[0].op == OApp && f.args[0].s == "protoOf" && f.args[0].args[0] == n {
			typ = f.s[3:]
		}
		for _, k := range kinds {
			for _, suffix := range []string{"__Prototype", "__ReprPrototype"} {
				if strings.HasSuffix(typ, "._"+title(k)+suffix) {
					return k, title(k) + suffix
				}
			}
		}
	}
	kt := mkApp("kind", n)
	switch {
	case yes(st, mkEq(kt, mkInt(kindBytes))):
		return "blob", "bytes"
	case yes(st, mkEq(kt, mkInt(kindMap))):
		// the first key decides
		var key *Term
		for f := range st.facts {
			walk(f, func(x *Term) bool {
				if x.op == OApp && x.s == "asstring" && x.args[0].op == OSym && strings.HasPrefix(x.args[0].s, "key@") {
					if key == nil || x.id < key.id {
						key = x
					}
				}
				return true
			})
		}
		if key == nil {
			return "", ""
		}
		for _, k := range tagKeys {
			if yes(st, mkEq(key, mkStr(k))) {
				return "tag", "key " + k
			}
		}
		for _, k := range tagKeys {
			if !no(st, mkEq(key, mkStr(k))) {
				return "", ""
			}
		}
		hasObj := mkApp("haskey", n, mkStr("object"))
		switch {
		case yes(st, mkEq(key, mkStr("message"))) && yes(st, hasObj):
			return "tag", "key message"
		case yes(st, mkEq(key, mkStr("message"))) && no(st, hasObj):
			return "commit", "key message"
		case no(st, mkEq(key, mkStr("message"))):
			return "commit", "other key"
		}
	}
	return "", ""
}

// written gives what an outcome wrote to the writer.
func written(run *Run, o Outcome) *Term {
	return defaultTo(o.st.heap["w:"+keyOf(run.args[1])], tEmpty)
}

// frame splits what was written into header and body.
func frame(v *Term, kind string) (size *Term, body *Term, why string) {
	as := atoms(v)
	if len(as) < 2 || as[0] != mkStr(kind+" ") || as[1].op != OApp || as[1].s != "itoa" {
		return nil, nil, fmt.Sprintf("what is written does not start with %q and a size: %s", kind+" ", v)
	}
	if len(as) < 3 || as[2].op != OStr || !strings.HasPrefix(as[2].s, "\x00") {
		return nil, nil, "the size is not followed by NUL: " + v.String()
	}
	rest := append([]*Term{mkStr(as[2].s[1:])}, as[3:]...)
	return as[1].args[0], mkCat(rest...), ""
}

// encoded checks the successful outcomes of Encode that must write kind.
func (r *Report) encoded(kind string, check func(run *Run, o Outcome, where, via string)) {
	run := r.analyse("Encode", nil)
	ok, _ := run.split()
	via := map[string]int{}
	for _, o := range ok {
		k, v := r.wanted(o.st, run.args[0])
		if !r.require(k != "", "dispatch", r.pos(o.pos), "the kind of object to write is decided by prototype, kind or first key%s", explain(o, k)) {
			continue
		}
		if k != kind {
			continue
		}
		via[v]++
		check(run, o, r.pos(o.pos), v)
	}
	want := []string{title(kind) + "__Prototype", title(kind) + "__ReprPrototype"}
	switch kind {
	case "blob":
		want = append(want, "bytes")
	case "tag":
		for _, k := range tagKeys {
			want = append(want, "key "+k)
		}
		want = append(want, "key message")
	case "commit":
		want = append(want, "key message", "other key")
	}
	for _, w := range want {
		r.require(via[w] > 0, "dispatch", "Encode", "a %s can be written for a node recognised by %s (%d paths)", kind, w, via[w])
	}
}

func (r *Report) layout(kind string, feats []string, match func(m *matcher, n *Term)) {
	got := map[string]bool{}
	r.encoded(kind, func(run *Run, o Outcome, where, via string) {
		w := written(run, o)
		_, body, why := frame(w, kind)
		if !r.require(why == "", "layout", where, "%s via %s: %s", kind, via, why) {
			return
		}
		items, why := flatten(body, nil, 0)
		if !r.require(why == "", "layout", where, "%s via %s: %s", kind, via, why) {
			return
		}
		m := &matcher{r: r, items: items, st: o.st, feats: map[string]bool{}}
		match(m, run.args[0])
		m.end()
		r.require(m.why == "", "layout", where, "%s via %s: %s", kind, via, defaultStr(m.why, "as expected"))
		for f := range m.feats {
			got[f] = true
		}
	})
	for _, f := range feats {
		r.require(got[f], "every part is written", "Encode", "%s: %s occurs on some path", kind, f)
	}
}

func defaultStr(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

const kindBytes = 'x' // datamodel.Kind_Bytes; checked at load

func init() {
	checks["C08"] = func(r *Report) {
		r.expl = "On every successful path of the encoder taken for a commit, the sequence of literals and values written (loops unrolled into repetitions over a list) is the git layout: tree, every parent in order, author and committer when present, encoding, merge tags, signature, every other header in order, blank line, message; each value is that field of the node and each hash the digest of that link."
		r.assume = []string{trust, "generated builders keep the values they are given (C18, C19)"}
		r.layout("commit", []string{"parents", "merge tags", "other headers", "+author", "-author", "+committer", "-committer", "+encoding", "-encoding", "+signature", "-signature", "+merge tag's tagger", "-merge tag's tagger", "+person's date", "-person's date", "+person's timezone", "-person's timezone"}, (*matcher).commit)
		r.atLeast("layout", 50)
	}
	checks["C09"] = func(r *Report) {
		r.expl = "On every successful path of the encoder taken for a tag, the sequence written is the git layout: object, type, tag, tagger when present, and a blank line and the message when there is one."
		r.assume = []string{trust, "generated builders keep the values they are given (C18, C19)"}
		r.layout("tag", []string{"+tagger", "-tagger", "+message", "-message", "+person's date", "+person's timezone"}, (*matcher).tag)
		r.atLeast("layout", 10)
	}
	checks["C10"] = func(r *Report) {
		r.expl = "On every successful path of the encoder taken for a tree, the body is a repetition over all entries of the node, in the node's order, each written as mode, space, name, NUL and the 20 bytes of its link's hash."
		r.assume = []string{trust}
		r.layout("tree", []string{"entry"}, (*matcher).tree)
		r.atLeast("layout", 2)
	}
	checks["C11"] = func(r *Report) {
		r.expl = "On every successful path of the encoder taken for a blob, exactly the bytes of the node are written."
		r.assume = []string{trust}
		r.encoded("blob", func(run *Run, o Outcome, where, via string) {
			w := written(run, o)
			r.require(w == mkApp("asbytes", run.args[0]), "layout", where, "blob via %s: the node's bytes are written: %s", via, w)
		})
		r.atLeast("layout", 3)
	}
	checks["C12"] = func(r *Report) {
		r.expl = "On every successful path of the encoder that writes a commit, tag or tree, what is written starts with the type word of the node's kind, a space, a decimal number and NUL, and the number equals the length of everything written after the NUL."
		r.assume = []string{trust}
		for _, k := range []string{"commit", "tag", "tree"} {
			r.encoded(k, func(run *Run, o Outcome, where, via string) {
				size, body, why := frame(written(run, o), k)
				if !r.require(why == "", "framing", where, "%s via %s: %s", k, via, why) {
					return
				}
				same := size == mkLen(body) || yes(o.st, mkEq(size, mkLen(body)))
				r.require(same, "size is that of the body", where, "%s via %s: the size is %s, the body has %s", k, via, size, mkLen(body))
			})
		}
		r.atLeast("size is that of the body", 100)
	}
	checks["C14"] = func(r *Report) {
		r.expl = "On every successful path of the encoder no callee has failed, except for the lookups that ask whether an optional field is there; on every failing path some callee failed or the node is known to be none that can be encoded; and unless the writer itself failed, nothing has been written on a failing path."
		r.assume = []string{trust}
		run := r.analyse("Encode", nil)
		ok, bad := run.split()
		n := tNil
		if len(run.args) > 0 {
			n = run.args[0]
		}
		probe := func(f *Fail, st *State) bool {
			return f.kind == "lookup" && ((f.arg == "tagger" && no(st, mkApp("haskey", n, mkStr("tagger")))) || (f.arg == "object" && no(st, mkApp("haskey", n, mkStr("object")))))
		}
		for _, o := range ok {
			good, what := true, ""
			k, _ := r.wanted(o.st, n)
			for _, f := range sortedFails(o.st.fails) {
				if f.kind == "close" || probe(f, o.st) && (f.arg == "tagger" && k == "tag" || f.arg == "object" && k == "commit") {
					continue
				}
				good, what = false, shortName(f.callee)+" at "+f.site
			}
			r.require(good, "no failure is ignored", r.pos(o.pos), "success: %s", defaultStr(what, "no callee failed"))
		}
		for _, e := range run.events {
			if e.kind == "loop" {
				for _, it := range e.loop.iters {
					good, what := true, ""
					for _, f := range sortedFails(it.fails) {
						if !probe(f, it.st) {
							good, what = false, shortName(f.callee)+" at "+f.site
						}
					}
					r.require(good, "no failure is ignored in a loop", r.pos(e.pos), "%s: %s", fnLabel(e), defaultStr(what, "no callee failed"))
				}
			}
		}
		for _, o := range bad {
			where := r.pos(o.pos)
			wrote := false
			for _, f := range sortedFails(o.st.fails) {
				if f.kind == "write" {
					wrote = true
				}
			}
			if !wrote {
				w := written(run, o)
				r.require(w == tEmpty, "nothing is written for a rejected node", where, "%s", defaultStr("", w.String()))
			} else {
				r.require(true, "nothing is written for a rejected node", where, "the writer failed")
			}
		}
		r.atLeast("no failure is ignored", 100)
		r.atLeast("nothing is written for a rejected node", 50)
	}
}

// unencodable: the node is known to be one that has no git form.
func (r *Report) unencodable(st *State, n *Term) string {
	for f, v := range st.facts {
		if f.op != OApp {
			continue
		}
		if strings.HasPrefix(f.s, "is:") && strings.HasSuffix(f.s, "linking/cid.Link") && !v {
			return "a link is not a CID link"
		}
		if f.s == "eq0" && !v {
			l := linOf(f.args[0])
			if len(l.m) == 1 {
				for a := range l.m {
					if a.op == OField && (fieldName(a) == "Code" || fieldName(a) == "MhType") && (l.c == -17 || l.c == 17) {
						return "a link's hash is not a sha1"
					}
					if a.op == OField && (fieldName(a) == "Length" || fieldName(a) == "MhLength") && (l.c == -20 || l.c == 20) {
						return "a link's hash does not have 20 bytes"
					}
					if a.op == OApp && a.s == "len" && a.args[0].op == OField && fieldName(a.args[0]) == "Digest" && (l.c == -20 || l.c == 20) {
						return "a link's hash does not have 20 bytes"
					}
				}
			}
		}
	}
	kt := mkApp("kind", n)
	k, _ := r.wanted(st, n)
	if k == "tree" && no(st, mkEq(kt, mkInt(kindMap))) {
		return "the tree is not a map"
	}
	if k == "" && no(st, mkEq(kt, mkInt(kindMap))) && no(st, mkEq(kt, mkInt(kindBytes))) {
		return "the node is no git object"
	}
	if v, ok := st.known(mkEq(kt, mkInt('['))); k == "" && ok && v {
		return "the node is a list"
	}
	return ""
}
