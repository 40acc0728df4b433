package main

import "strings"

// links calls f for every link a value can hold, with what is known there.
func links(v *Term, env *State, f func(l *Term, env *State)) {
	type key struct {
		t *Term
		e *State
	}
	seen := map[key]bool{}
	var rec func(v *Term, env *State)
	rec = func(v *Term, env *State) {
		if seen[key{v, env}] {
			return
		}
		seen[key{v, env}] = true
		if p, ok := phiReg[v]; ok {
			rec(p.init, p.loop.entry)
			for _, it := range p.loop.iters {
				if w := it.vals[p.loc]; w != v {
					rec(w, it.st)
				}
			}
			return
		}
		if v.op == OIface && strings.HasSuffix(v.s, "linking/cid.Link") {
			f(v, env)
			return
		}
		if v.op == OIface && strings.Contains(v.s, "Link") && !strings.HasPrefix(v.s, "*") {
			f(v, env)
			return
		}
		for _, a := range v.args {
			rec(a, env)
		}
	}
	rec(v, env)
}

func init() {
	checks["C15"] = func(r *Report) {
		r.expl = "Every link in every value a decoder can assemble is a CIDv1 with codec git-raw whose multihash is sha1 over bytes known to number 20; every hash the encoder writes is the digest of the multihash of a CID link known to be a sha1 of 20 bytes, so that the two conversions are inverse to each other; the block decoder accepts only such CIDs."
		r.assume = []string{trust}
		for _, n := range []string{"DecodeTree", "DecodeTreeEntry", "DecodeTag", "DecodeCommit"} {
			run := r.analyse(n, nil)
			ok, _ := run.split()
			count := 0
			for _, o := range ok {
				v := tNil
				if n == "DecodeTreeEntry" {
					v = o.st.deepAll(o.res[1])
				} else if c := o.st.heap["asm:"+keyOf(run.args[0])]; c != nil {
					v = c
				}
				links(v, o.st, func(l *Term, env *State) {
					count++
					h, why := linkOf(l)
					if why == "" && fixedLen[h] != 20 && !yes(env, mkEq(mkLen(h), mkInt(20))) {
						why = "the hash is not known to have 20 bytes"
					}
					r.require(why == "", "decoded link", r.pos(o.pos), "%s: %s%s", n, l, wrong(why))
				})
			}
			r.require(count > 0, "links are decoded", n, "%d links", count)
		}
		run := r.analyse("Encode", nil)
		ok, bad := run.split()
		count := map[string]int{}
		for _, o := range ok {
			items, why := flatten(written(run, o), nil, 0)
			if !r.require(why == "", "encoded link", r.pos(o.pos), "what is written is a sequence of parts%s", wrong(why)) {
				continue
			}
			k, _ := r.wanted(o.st, run.args[0])
			var rec func(is []witem, st *State)
			rec = func(is []witem, st *State) {
				for _, i := range is {
					for _, a := range i.alts {
						rec(a.items, a.env)
					}
					if i.phi != nil || !usesHash(i.t) {
						continue
					}
					t := i.t
					if k != "tree" {
						if t.op != OApp || t.s != "hexenc" {
							if t.op == OApp && t.s == "itoa" {
								continue
							}
							r.require(false, "encoded link", r.pos(o.pos), "%s: the hash is not written in hexadecimal: %s", k, t)
							continue
						}
						t = t.args[0]
					} else if t.op == OApp && t.s == "itoa" {
						continue
					}
					w := digest(t, nil, st)
					r.require(w == "", "encoded link", r.pos(o.pos), "%s: %s%s", k, t, wrong(w))
					count[k]++
				}
			}
			rec(items, o.st)
		}
		for _, k := range []string{"tree", "tag", "commit"} {
			r.require(count[k] > 0, "links are encoded", "Encode", "%s: %d links", k, count[k])
		}
		refused := 0
		for _, o := range bad {
			for f, v := range o.st.facts {
				if !v && f.op == OApp && strings.HasPrefix(f.s, "is:") && strings.HasSuffix(f.s, "linking/cid.Link") {
					refused++
					break
				}
			}
		}
		r.require(refused > 0, "foreign links are refused", "Encode", "%d paths", refused)
		br := r.analyse("entry DecodeBlock", r.decoderContracts())
		ok, _ = br.split()
		for _, o := range ok {
			r.blockPrefix(br, o, r.pos(o.pos))
		}
		r.atLeast("decoded link", 6)
		r.atLeast("encoded link", 20)
		r.atLeast("block CID is that of a git object", 3)
	}
}

// usesHash: the value written is made of a link's hash.
func usesHash(t *Term) bool {
	found := false
	walk(t, func(x *Term) bool {
		if x.op == OApp && (x.s == "mhdec" || x.s == "cidhash" || x.s == "hexenc" || x.s == "cidbytes" || x.s == "cidstring") {
			found = true
		}
		return !found
	})
	return found
}
