package main

import (
	"go/types"
	"strings"
)

var models map[string]func(*callCtx) []callOut
var methodModels map[string]func(*callCtx) []callOut

// hasPrefix etc. as byte facts
func mkHasPrefix(x, p *Term) *Term {
	if p.op == OStr {
		return mkAt(x, mkInt(0), p.s)
	}
	if p.op == OCat && x.op == OCat && x.args[0] == p.args[0] {
		return mkApp("hasprefix", x, p)
	}
	return mkApp("hasprefix", x, p)
}
func mkHasSuffix(x, p *Term) *Term {
	if p.op == OStr {
		if p.s == "" {
			return tTrue
		}
		return mkAt(x, mkSub(mkLen(x), mkInt(int64(len(p.s)))), p.s)
	}
	return mkApp("hassuffix", x, p)
}

func init() {
	models = map[string]func(*callCtx) []callOut{}
	methodModels = map[string]func(*callCtx) []callOut{}
	both := func(name string, f func(*callCtx) []callOut) {
		models["bytes."+name] = f
		models["strings."+name] = f
	}
	ret1 := func(f func(c *callCtx) *Term) func(*callCtx) []callOut {
		return func(c *callCtx) []callOut { return []callOut{{c.st, f(c)}} }
	}

	both("HasPrefix", ret1(func(c *callCtx) *Term { return mkHasPrefix(c.val(0), c.val(1)) }))
	both("HasSuffix", ret1(func(c *callCtx) *Term {
		x, p := c.val(0), c.val(1)
		r := mkHasSuffix(x, p)
		if y, _, _ := subParts(x); y != nil && r.op == OApp && r.s == "at" {
			// the last bytes of what x is part of, if they are in x
			fits := mkLe(mkLen(p), mkLen(x))
			if v, ok := c.st.known(fits); ok && v {
				return r
			}
			return mkApp("and", fits, r)
		}
		return r
	}))
	models["bytes.Equal"] = ret1(func(c *callCtx) *Term {
		a, b := c.val(0), c.val(1)
		if a == tNil {
			a = tEmpty
		}
		if b == tNil {
			b = tEmpty
		}
		return mkEq(a, b)
	})
	both("Compare", ret1(func(c *callCtx) *Term {
		return mk(OApp, "compare", 0, []*Term{c.val(0), c.val(1)}, nil, types.Typ[types.Int])
	}))
	both("Split", func(c *callCtx) []callOut { return c.pure("split", c.val(0), c.val(1)) })
	both("SplitN", func(c *callCtx) []callOut {
		o := c.pure("splitn", c.val(0), c.val(1), c.args[2])
		if n, ok := isInt(c.args[2]); ok && n > 0 {
			c.st.assume(mkLe(mkLen(o[0].res), mkInt(n)), true)
			c.st.assume(mkLe(mkInt(1), mkLen(o[0].res)), true)
		}
		return o
	})
	both("SplitAfter", func(c *callCtx) []callOut { return c.pure("splitafter", c.val(0), c.val(1)) })
	both("Fields", func(c *callCtx) []callOut { return c.pure("fields", c.val(0)) })
	both("Join", ret1(func(c *callCtx) *Term {
		l, sep := c.val(0), c.val(1)
		if l.op == OApp && l.s == "split" && l.args[1] == sep {
			return l.args[0]
		}
		if as := atoms(l); len(as) > 0 {
			var ps []*Term
			all := true
			for i, a := range as {
				if a.op != OElem {
					all = false
					break
				}
				if i > 0 {
					ps = append(ps, sep)
				}
				ps = append(ps, a.args[0])
			}
			if all {
				return mkCat(ps...)
			}
		}
		j := mkApp("join", l, sep)
		c.joined(j, l, sep)
		return j
	}))
	idx := func(f string) func(*callCtx) []callOut {
		return func(c *callCtx) []callOut {
			x, p := c.val(0), c.val(1)
			if n, ok := isInt(p); ok && n >= 0 && n < 128 {
				p = mkStr(string([]byte{byte(n)}))
			}
			if x.op == OStr && p.op == OStr && f == "index" {
				return []callOut{{c.st, mkInt(int64(strings.Index(x.s, p.s)))}}
			}
			t := mk(OApp, f, 0, []*Term{x, p}, nil, types.Typ[types.Int])
			c.st.assume(mkLe(mkInt(-1), t), true)
			n := mkInt(1)
			if p.op == OStr {
				n = mkInt(int64(len(p.s)))
			}
			if lo, ok := c.st.zone.lower(mkSub(mkLen(x), n)); ok && lo >= -1 {
				c.st.assume(mkLe(mkAdd(t, n), mkLen(x)), true)
			} else {
				// either absent (-1) or it fits
				return c.cases(mkLe(mkInt(0), t), func(s *State) []callOut {
					s.assume(mkLe(mkAdd(t, n), mkLen(x)), true)
					if p.op == OStr {
						s.assume(mkAt(x, t, p.s), true)
					}
					return []callOut{{s, t}}
				}, func(s *State) []callOut { return []callOut{{s, mkInt(-1)}} })
			}
			return c.cases(mkLe(mkInt(0), t), func(s *State) []callOut {
				if p.op == OStr {
					s.assume(mkAt(x, t, p.s), true)
				}
				return []callOut{{s, t}}
			}, func(s *State) []callOut { return []callOut{{s, mkInt(-1)}} })
		}
	}
	both("Index", idx("index"))
	both("IndexByte", idx("index"))
	both("IndexRune", idx("index"))
	both("LastIndex", idx("lastindex"))
	both("LastIndexByte", idx("lastindex"))
	both("Contains", ret1(func(c *callCtx) *Term { return mkApp("contains", c.val(0), c.val(1)) }))
	both("ContainsRune", ret1(func(c *callCtx) *Term { return mkApp("contains", c.val(0), c.val(1)) }))
	both("ContainsAny", ret1(func(c *callCtx) *Term { return mkApp("containsany", c.val(0), c.val(1)) }))
	both("Count", ret1(func(c *callCtx) *Term {
		t := mk(OApp, "count", 0, []*Term{c.val(0), c.val(1)}, nil, types.Typ[types.Int])
		c.st.assume(mkLe(mkInt(0), t), true)
		return t
	}))
	for _, n := range []string{"TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimFunc", "ToLower", "ToUpper", "Replace", "ReplaceAll", "Title", "Map", "EqualFold"} {
		n := n
		both(n, func(c *callCtx) []callOut {
			var as []*Term
			for i := range c.args {
				as = append(as, c.val(i))
			}
			return c.pure(strings.ToLower(n), as...)
		})
	}
	both("Repeat", func(c *callCtx) []callOut {
		c.need(c.st, "repeat", mkLe(mkInt(0), c.args[1]), "negative repeat count")
		c.fr.allocSize(c.ins, c.st, c.args[1], "Repeat")
		return c.pure("repeat", c.val(0), c.args[1])
	})
	both("Clone", ret1(func(c *callCtx) *Term { return c.val(0) }))
	models["slices.Clone"] = ret1(func(c *callCtx) *Term { return c.val(0) })
	models["slices.Equal"] = ret1(func(c *callCtx) *Term { return mkEq(c.val(0), c.val(1)) })
	models["slices.Contains"] = func(c *callCtx) []callOut {
		l, ok := c.list(c.args[0])
		if !ok {
			return c.pure("contains", c.val(0), c.val(1))
		}
		x := c.val(1)
		var outs []callOut
		cur := c.st
		for _, e := range l {
			eq := mkEq(x, e)
			if v, ok := cur.known(eq); ok {
				if v {
					return append(outs, callOut{cur, tTrue})
				}
				continue
			}
			n := cur.clone()
			if n.assume(eq, true) {
				outs = append(outs, callOut{n, tTrue})
			}
			if !cur.assume(eq, false) {
				return outs
			}
		}
		return append(outs, callOut{cur, tFalse})
	}
	both("TrimPrefix", func(c *callCtx) []callOut {
		x, p := c.val(0), c.val(1)
		return c.cases(mkHasPrefix(x, p),
			func(s *State) []callOut { return []callOut{{s, mkSlice(x, mkLen(p), mkLen(x))}} },
			func(s *State) []callOut { return []callOut{{s, x}} })
	})
	both("TrimSuffix", func(c *callCtx) []callOut {
		x, p := c.val(0), c.val(1)
		return c.cases(mkHasSuffix(x, p),
			func(s *State) []callOut { return []callOut{{s, mkSlice(x, mkInt(0), mkSub(mkLen(x), mkLen(p)))}} },
			func(s *State) []callOut { return []callOut{{s, x}} })
	})
	both("CutPrefix", func(c *callCtx) []callOut {
		x, p := c.val(0), c.val(1)
		return c.cases(mkHasPrefix(x, p),
			func(s *State) []callOut { return []callOut{c.ret(s, mkSlice(x, mkLen(p), mkLen(x)), tTrue)} },
			func(s *State) []callOut { return []callOut{c.ret(s, x, tFalse)} })
	})
	both("CutSuffix", func(c *callCtx) []callOut {
		x, p := c.val(0), c.val(1)
		return c.cases(mkHasSuffix(x, p),
			func(s *State) []callOut {
				return []callOut{c.ret(s, mkSlice(x, mkInt(0), mkSub(mkLen(x), mkLen(p))), tTrue)}
			},
			func(s *State) []callOut { return []callOut{c.ret(s, x, tFalse)} })
	})
	both("Cut", func(c *callCtx) []callOut {
		x, p := c.val(0), c.val(1)
		if x.op == OStr && p.op == OStr {
			a, b, ok := strings.Cut(x.s, p.s)
			return []callOut{c.ret(c.st, mkStr(a), mkStr(b), mkBool(ok))}
		}
		empty := tEmpty
		if len(p.s) == 1 && p.op == OStr {
			// the separator's place may already be known
			m := c.st.bytesOf(x)
			for i := int64(0); ; i++ {
				b, ok := m[i]
				if !ok {
					break
				}
				if b == p.s[0] {
					return []callOut{c.ret(c.st, mkSlice(x, mkInt(0), mkInt(i)), mkSlice(x, mkInt(i+1), mkLen(x)), tTrue)}
				}
			}
		}
		return c.cases(mkApp("contains", x, p), func(s *State) []callOut {
			cutUsed = true
			b, a := mkApp("cutb", x, p), mkApp("cuta", x, p)
			s.assume(mkLe(mkAdd(mkLen(b), mkLen(p)), mkLen(x)), true)
			s.assume(mkLe(mkAdd(mkLen(a), mkLen(p)), mkLen(x)), true)
			return []callOut{c.ret(s, b, a, tTrue)}
		}, func(s *State) []callOut { return []callOut{c.ret(s, x, empty, tFalse)} })
	})
	newRd := func(c *callCtx) []callOut {
		src := c.val(0)
		from := c.args[0]
		if p := unwrap(from); p.op == OPtr && (from.op == OIface && isBufType(from.typ) || objType[p.s] != nil && isBufType(types.NewPointer(objType[p.s]))) {
			// what the buffer holds now
			src = c.bufContent(c.st, p)
			from = src
		}
		for t := range c.st.toks {
			if c.st.accounts(src, t) {
				delete(c.st.toks, t)
			}
		}
		return []callOut{{c.st, c.newReader(from)}}
	}
	both("NewReader", newRd)
	models["bufio.NewReader"] = newRd
	models["bufio.NewReaderSize"] = func(c *callCtx) []callOut {
		c.fr.allocSize(c.ins, c.st, c.args[1], "NewReaderSize")
		return newRd(c)
	}
	models["compress/zlib.NewReader"] = func(c *callCtx) []callOut {
		s2 := c.st.clone()
		r := c.newReader(mkApp("zlib", c.args[0]))
		e := c.failing(s2, "read", keyOf(c.args[0]), nil)
		return []callOut{c.ret(c.st, r, tNil), c.ret(s2, tNil, e)}
	}
	models["io.LimitReader"] = ret1(func(c *callCtx) *Term { return mkApp("limrd", unwrap(c.args[0]), c.args[1]) })

	models["(*bufio.Reader).ReadString"] = (*callCtx).readDelim
	models["(*bufio.Reader).ReadBytes"] = (*callCtx).readDelim
	models["(*bufio.Reader).ReadSlice"] = func(c *callCtx) []callOut {
		c.in().event(&Event{kind: "view", pos: instrPos(c.ins), fn: c.fr.fn, ctx: c.fr.ctx.s, msg: "ReadSlice"})
		outs := c.readDelim()
		return outs
	}
	models["(*bufio.Reader).ReadLine"] = func(c *callCtx) []callOut {
		// the line loses its line ending, may lose a CR, and may be incomplete
		c.in().event(&Event{kind: "view", pos: instrPos(c.ins), fn: c.fr.fn, ctx: c.fr.ctx.s, msg: "ReadLine"})
		st := c.st
		s := c.fresh("rawline", nil)
		s2 := st.clone()
		c.consume(st, unwrap(c.args[0]), mkCat(s, mkStr("\n")))
		c.tok(st, s, "line")
		p := c.fresh("isprefix", nil)
		e := c.failing(s2, "read", keyOf(unwrap(c.args[0])), nil)
		return []callOut{c.ret(st, mkApp("chomp", s), p, tNil), c.ret(s2, tNil, tFalse, e)}
	}
	models["(*bufio.Reader).ReadByte"] = func(c *callCtx) []callOut {
		st := c.st
		more := c.peeked(st, unwrap(c.args[0]))
		b := c.fresh("readbyte", types.Typ[types.Uint8])
		s2 := st.clone()
		d := mkApp("chr", b)
		c.consume(st, unwrap(c.args[0]), d)
		c.tok(st, b, "byte")
		if more {
			return []callOut{c.ret(st, b, tNil)}
		}
		e := c.failing(s2, "read", keyOf(unwrap(c.args[0])), nil)
		return []callOut{c.ret(st, b, tNil), c.ret(s2, mkInt(0), e)}
	}
	models["(*bufio.Reader).ReadRune"] = func(c *callCtx) []callOut {
		st := c.st
		b := c.fresh("readrune", types.Typ[types.Int32])
		n := c.fresh("runelen", types.Typ[types.Int])
		s2 := st.clone()
		c.consume(st, unwrap(c.args[0]), mkApp("chr", b))
		c.tok(st, b, "rune")
		e := c.failing(s2, "read", keyOf(unwrap(c.args[0])), nil)
		return []callOut{c.ret(st, b, n, tNil), c.ret(s2, mkInt(0), mkInt(0), e)}
	}
	models["(*bufio.Reader).UnreadByte"] = func(c *callCtx) []callOut {
		st := c.st
		k := "rd:" + keyOf(c.args[0])
		as := atoms(st.heap[k])
		if n := len(as); n > 0 && as[n-1].op == OApp && as[n-1].s == "chr" {
			delete(st.toks, as[n-1].args[0])
			st.heap[k] = mkCat(as[:n-1]...)
			return []callOut{{st, tNil}}
		}
		c.fr.unsupported(c.ins, "UnreadByte")
		return c.opaque(c.name, false)
	}
	models["(*bufio.Reader).Peek"] = func(c *callCtx) []callOut {
		st := c.st
		c.in().event(&Event{kind: "view", pos: instrPos(c.ins), fn: c.fr.fn, ctx: c.fr.ctx.s, msg: "Peek"})
		v := c.fresh("peek", nil)
		if n, ok := isInt(c.args[1]); ok {
			fixedLen[v] = n
		} else {
			st.assume(mkEq(mkLen(v), c.args[1]), true)
		}
		s2 := st.clone()
		rd := unwrap(c.args[0])
		if n, ok := isInt(c.args[1]); ok && n == 1 {
			// all or nothing
			if d := c.cell(st, "rd:", keyOf(rd)); d != nil {
				st.facts[mkApp("follows", v, d, mkStr(keyOf(rd)))] = true
			}
			e := c.failing(s2, "read", keyOf(rd), nil)
			return []callOut{c.ret(st, v, tNil), c.ret(s2, tEmpty, e)}
		}
		p := c.fresh("peekpart", nil)
		e := c.failing(s2, "read", keyOf(rd), p)
		return []callOut{c.ret(st, v, tNil), c.ret(s2, p, e)}
	}
	models["(*bufio.Reader).Buffered"] = func(c *callCtx) []callOut {
		t := c.fresh("buffered", types.Typ[types.Int])
		c.st.assume(mkLe(mkInt(0), t), true)
		return []callOut{{c.st, t}}
	}
	models["(*bufio.Reader).Discard"] = func(c *callCtx) []callOut {
		st := c.st
		s := c.fresh("discarded", nil)
		s2 := st.clone()
		c.consume(st, unwrap(c.args[0]), s)
		c.tok(st, s, "discarded data")
		e := c.failing(s2, "read", keyOf(unwrap(c.args[0])), nil)
		return []callOut{c.ret(st, c.args[1], tNil), c.ret(s2, c.fresh("n", types.Typ[types.Int]), e)}
	}
	read := func(c *callCtx) []callOut {
		st := c.st
		d := c.args[1]
		n := c.fresh("nread", types.Typ[types.Int])
		s := c.fresh("chunk", nil)
		st.assume(mkLe(mkInt(0), n), true)
		st.assume(mkLe(n, mkLen(d)), true)
		st.assume(mkEq(mkLen(s), n), true)
		s2 := st.clone()
		if d.op == OSlice {
			st.store(d.args[0], mkApp("copied", st.load(d.args[0], nil), d.args[1], s), nil)
			s2.store(d.args[0], mkApp("copied", s2.load(d.args[0], nil), d.args[1], s), nil)
		}
		c.consume(st, unwrap(c.args[0]), s)
		c.tok(st, s, "data")
		e := c.failing(s2, "read", keyOf(unwrap(c.args[0])), s)
		return []callOut{c.ret(st, n, tNil), c.ret(s2, n, e)}
	}
	models["(*bufio.Reader).Read"] = read
	models["(*bytes.Reader).Read"] = read
	methodModels["Read"] = read

	models["io.ReadFull"] = func(c *callCtx) []callOut {
		st := c.st
		rd, d := unwrap(c.args[0]), c.args[1]
		s := c.redefine(st, c.fresh("fixed", nil))
		n := mkLen(d)
		if k, ok := isInt(n); ok {
			fixedLen[s] = k
		} else {
			st.assume(mkEq(mkLen(s), n), true)
		}
		s2 := st.clone()
		if d.op == OSlice {
			p := d.args[0]
			whole := st.load(p, nil)
			if d.args[1] == mkInt(0) && mkLen(whole) == d.args[2] {
				st.store(p, s, nil)
			} else {
				st.store(p, mkApp("copied", whole, d.args[1], s), nil)
			}
			s2.store(p, c.fresh("shortread", nil), nil)
		} else {
			c.in().event(&Event{kind: "mutate", pos: instrPos(c.ins), fn: c.fr.fn, ctx: c.fr.ctx.s, msg: "ReadFull into " + d.String()})
		}
		c.consume(st, rd, s)
		c.tok(st, s, "data")
		e := c.failing(s2, "read", keyOf(rd), nil)
		return []callOut{c.ret(st, n, tNil), c.ret(s2, c.fresh("nread", types.Typ[types.Int]), e)}
	}
	models["io.ReadAtLeast"] = func(c *callCtx) []callOut {
		if c.args[2] == mkLen(c.args[1]) {
			return models["io.ReadFull"](c)
		}
		return read(c)
	}
	readAll := func(c *callCtx) []callOut {
		return c.readAllInto(c.st, c.args[0], func(s *State, d *Term) []callOut { return []callOut{c.ret(s, d, tNil)} },
			func(s *State, p, e *Term) []callOut { return []callOut{c.ret(s, p, e)} })
	}
	models["io.ReadAll"] = readAll
	models["io/ioutil.ReadAll"] = readAll
	copyTo := func(c *callCtx, dst, src *Term) []callOut {
		if p := unwrap(src); src.op == OIface && isBufType(src.typ) || p.op == OPtr && strings.HasPrefix(p.s, "o:") && objType[p.s] != nil && isBufType(types.NewPointer(objType[p.s])) {
			data := c.bufContent(c.st, p)
			c.st.heap["buf:"+keyOf(p)] = tEmpty
			var r []callOut
			for _, w := range c.write(c.st, dst, data) {
				r = append(r, c.ret(w.st, mkLen(data), w.err))
			}
			return r
		}
		if p := unwrap(src); p.op == OPtr && strings.HasPrefix(p.s, "rdr:") {
			if under := c.st.heap["src:"+p.s]; under != nil && c.cell(c.st, "rd:", p.s) == tEmpty && (under.op == OCat || under.op == OStr || (under.op == OApp && under.s != "zlib") || under.op == OSym) && dst.op != OIface {
				// copying an in-memory reader out to a writer
				if _, ok := phiContent(under); ok {
					data := c.st.value(under)
					c.st.heap["eof:"+p.s] = tTrue
					var r []callOut
					for _, w := range c.write(c.st, dst, data) {
						r = append(r, c.ret(w.st, mkLen(data), w.err))
					}
					return r
				}
			}
		}
		return c.readAllInto(c.st, src, func(s *State, d *Term) []callOut {
			var r []callOut
			for _, w := range c.write(s, dst, d) {
				r = append(r, c.ret(w.st, mkLen(d), w.err))
			}
			return r
		}, func(s *State, p, e *Term) []callOut {
			var r []callOut
			for _, w := range c.write(s, dst, p) {
				if w.err == tNil {
					r = append(r, c.ret(w.st, mkLen(p), e))
				}
			}
			return r
		})
	}
	models["io.Copy"] = func(c *callCtx) []callOut { return copyTo(c, c.args[0], c.args[1]) }
	models["io.CopyBuffer"] = models["io.Copy"]
	models["io.CopyN"] = func(c *callCtx) []callOut {
		st := c.st
		rd := unwrap(c.args[1])
		n := c.args[2]
		s := c.redefine(st, c.fresh("copyn", nil))
		s2 := st.clone()
		c.consume(st, rd, s)
		c.tok(st, s, "data")
		if !st.assume(mkEq(mkLen(s), n), true) {
			return nil
		}
		var r []callOut
		for _, w := range c.write(st, c.args[0], s) {
			r = append(r, c.ret(w.st, n, w.err))
		}
		p := c.fresh("partial", nil)
		s2.assume(mkLe(mkLen(p), n), true)
		c.bufMaybe(s2, c.args[0], p)
		e := c.failing(s2, "read", keyOf(rd), p)
		r = append(r, c.ret(s2, mkLen(p), e))
		return r
	}
	models["(*bytes.Buffer).ReadFrom"] = func(c *callCtx) []callOut {
		return copyTo(c, c.args[0], c.args[1])
	}
	models["(*bufio.Reader).WriteTo"] = func(c *callCtx) []callOut { return copyTo(c, c.args[1], c.args[0]) }

	// buffers
	for _, b := range []string{"(*bytes.Buffer)", "(*strings.Builder)", "(*bufio.Writer)"} {
		b := b
		app := func(conv func(c *callCtx) *Term, two bool) func(c *callCtx) []callOut {
			return func(c *callCtx) []callOut {
				if !c.fr.checkNil(c.ins, c.st, c.args[0], "write") {
					return nil
				}
				d := c.spare(conv(c))
				c.bufAppend(c.st, c.args[0], d)
				if two {
					return []callOut{c.ret(c.st, mkLen(d), tNil)}
				}
				return []callOut{{c.st, tNil}}
			}
		}
		models[b+".Write"] = app(func(c *callCtx) *Term { return c.val(1) }, true)
		models[b+".WriteString"] = app(func(c *callCtx) *Term { return c.val(1) }, true)
		models[b+".WriteByte"] = app(func(c *callCtx) *Term {
			if n, ok := isInt(c.args[1]); ok {
				return mkStr(string([]byte{byte(n)}))
			}
			return mkApp("chr", c.args[1])
		}, false)
		models[b+".WriteRune"] = app(func(c *callCtx) *Term {
			if n, ok := isInt(c.args[1]); ok {
				return mkStr(string(rune(n)))
			}
			return mkApp("runestr", c.args[1])
		}, true)
		models[b+".AvailableBuffer"] = ret1(func(c *callCtx) *Term { return mkApp("spare", c.bufContent(c.st, c.args[0])) })
		models[b+".String"] = ret1(func(c *callCtx) *Term { return c.bufContent(c.st, c.args[0]) })
		models[b+".Bytes"] = ret1(func(c *callCtx) *Term { return c.bufContent(c.st, c.args[0]) })
		models[b+".Len"] = ret1(func(c *callCtx) *Term { return mkLen(c.bufContent(c.st, c.args[0])) })
		models[b+".Reset"] = func(c *callCtx) []callOut {
			c.st.heap["buf:"+keyOf(c.args[0])] = tEmpty
			return []callOut{{c.st, tNil}}
		}
		models[b+".Grow"] = func(c *callCtx) []callOut {
			c.need(c.st, "grow", mkLe(mkInt(0), c.args[1]), "Grow by a count that may be negative: "+c.args[1].String())
			c.fr.allocSize(c.ins, c.st, c.args[1], "Grow")
			return []callOut{{c.st, tNil}}
		}
		models[b+".Truncate"] = func(c *callCtx) []callOut {
			x := c.bufContent(c.st, c.args[0])
			if !c.need(c.st, "truncate", mkLe(mkInt(0), c.args[1]), "Truncate") || !c.need(c.st, "truncate", mkLe(c.args[1], mkLen(x)), "Truncate") {
				return nil
			}
			c.st.heap["buf:"+keyOf(c.args[0])] = mkSlice(x, mkInt(0), c.args[1])
			return []callOut{{c.st, tNil}}
		}
		models[b+".WriteTo"] = func(c *callCtx) []callOut {
			data := c.bufContent(c.st, c.args[0])
			c.st.heap["buf:"+keyOf(c.args[0])] = tEmpty
			var r []callOut
			for _, w := range c.write(c.st, c.args[1], data) {
				r = append(r, c.ret(w.st, mkLen(data), w.err))
			}
			return r
		}
	}
	newBuf := func(c *callCtx) []callOut {
		k := "o:newbuf:" + c.fr.ctx.s + ":" + c.fr.site(c.ins)
		objType[k] = resType(c.sig).Underlying().(*types.Pointer).Elem()
		c.st.heap[k] = mk(OApp, "zero", 0, []*Term{mkStr("buffer")}, nil, nil)
		v := c.val(0)
		if v == tNil {
			v = tEmpty
		}
		c.st.heap["buf:"+k] = v
		return []callOut{{c.st, mkPtr(k)}}
	}
	models["bytes.NewBuffer"] = newBuf
	models["bytes.NewBufferString"] = newBuf
	newBW := func(c *callCtx) []callOut {
		k := "o:bufw:" + c.fr.ctx.s + ":" + c.fr.site(c.ins)
		objType[k] = resType(c.sig).Underlying().(*types.Pointer).Elem()
		c.st.heap[k] = mk(OApp, "zero", 0, []*Term{mkStr("bufio.Writer")}, nil, nil)
		c.st.heap["buf:"+k] = tEmpty
		c.st.heap["under:"+k] = c.args[0]
		return []callOut{{c.st, mkPtr(k)}}
	}
	models["bufio.NewWriter"] = newBW
	models["bufio.NewWriterSize"] = newBW
	models["(*bufio.Writer).Flush"] = func(c *callCtx) []callOut {
		p := c.args[0]
		under := c.st.heap["under:"+keyOf(p)]
		if under == nil {
			return c.opaque(c.name, false)
		}
		data := c.bufContent(c.st, p)
		c.st.heap["buf:"+keyOf(p)] = tEmpty
		var r []callOut
		for _, w := range c.write(c.st, under, data) {
			r = append(r, callOut{w.st, w.err})
		}
		return r
	}

	// formatted output
	models["fmt.Fprintf"] = func(c *callCtx) []callOut {
		d := c.sprintf(c.val(1), c.args[2])
		return c.writeRes(d, c.write(c.st, c.args[0], d))
	}
	models["fmt.Fprint"] = func(c *callCtx) []callOut {
		d := c.sprint(c.args[1], false)
		return c.writeRes(d, c.write(c.st, c.args[0], d))
	}
	models["fmt.Fprintln"] = func(c *callCtx) []callOut {
		d := c.sprint(c.args[1], true)
		return c.writeRes(d, c.write(c.st, c.args[0], d))
	}
	models["fmt.Sprintf"] = ret1(func(c *callCtx) *Term { return c.sprintf(c.val(0), c.args[1]) })
	models["fmt.Sprint"] = ret1(func(c *callCtx) *Term { return c.sprint(c.args[0], false) })
	models["fmt.Sprintln"] = ret1(func(c *callCtx) *Term { return c.sprint(c.args[0], true) })
	models["fmt.Appendf"] = ret1(func(c *callCtx) *Term { return mkCat(c.val(0), c.sprintf(c.val(1), c.args[2])) })
	models["fmt.Append"] = ret1(func(c *callCtx) *Term { return mkCat(c.val(0), c.sprint(c.args[1], false)) })
	models["fmt.Appendln"] = ret1(func(c *callCtx) *Term { return mkCat(c.val(0), c.sprint(c.args[1], true)) })
	newErr := ret1(func(c *callCtx) *Term { return mkApp("newerr", c.fresh("e", nil)) })
	models["errors.New"] = newErr
	models["fmt.Errorf"] = ret1(func(c *callCtx) *Term {
		return mkApp("newerr", append([]*Term{c.fresh("e", nil)}, c.wrapped(c.val(0), c.args[1])...)...)
	})
	models["errors.Join"] = func(c *callCtx) []callOut {
		as, ok := c.list(c.args[0])
		if !ok {
			return c.opaque(c.name, false)
		}
		nonNil := func(s *State) []callOut {
			ws := []*Term{c.fresh("e", nil)}
			for _, a := range as {
				if !yes(s, mkApp("isnil", a)) {
					ws = append(ws, a)
				}
			}
			return []callOut{c.ret(s, mkApp("newerr", ws...))}
		}
		// nil if all of them are
		var rec func(i int, st *State) []callOut
		rec = func(i int, st *State) []callOut {
			if i == len(as) {
				return []callOut{c.ret(st, tNil)}
			}
			if as[i] == tNil {
				return rec(i+1, st)
			}
			d := *c
			d.st = st
			return d.cases(mkApp("isnil", as[i]), func(s *State) []callOut { return rec(i+1, s) }, nonNil)
		}
		return rec(0, c.st)
	}
	models["errors.Is"] = ret1(func(c *callCtx) *Term {
		return errIs(c.args[0], c.args[1])
	})
	write := func(c *callCtx) []callOut {
		d := c.val(1)
		return c.writeRes(d, c.write(c.st, c.args[0], d))
	}
	models["io.WriteString"] = write
	methodModels["Write"] = write
	methodModels["WriteString"] = write
	methodModels["WriteByte"] = func(c *callCtx) []callOut {
		d := mkApp("chr", c.args[1])
		if n, ok := isInt(c.args[1]); ok {
			d = mkStr(string([]byte{byte(n)}))
		}
		var r []callOut
		for _, w := range c.write(c.st, c.args[0], d) {
			r = append(r, callOut{w.st, w.err})
		}
		return r
	}

	// numbers
	models["strconv.Itoa"] = ret1(func(c *callCtx) *Term { return mkItoa(c.args[0]) })
	models["strconv.FormatInt"] = ret1(func(c *callCtx) *Term {
		if b, ok := isInt(c.args[1]); ok && b == 10 {
			return mkItoa(c.args[0])
		}
		return mkApp("formatint", c.args[0], c.args[1])
	})
	models["strconv.FormatUint"] = models["strconv.FormatInt"]
	models["strconv.AppendInt"] = ret1(func(c *callCtx) *Term {
		if b, ok := isInt(c.args[2]); ok && b == 10 {
			return mkCat(c.val(0), mkItoa(c.args[1]))
		}
		return mkCat(c.val(0), mkApp("formatint", c.args[1], c.args[2]))
	})
	models["strconv.AppendUint"] = models["strconv.AppendInt"]
	parse := func(f string, base10 func(c *callCtx) bool) func(c *callCtx) []callOut {
		return func(c *callCtx) []callOut {
			x := c.val(0)
			for t := range c.st.toks {
				if c.st.accounts(x, t) {
					delete(c.st.toks, t)
				}
			}
			g := f
			if !base10(c) {
				g = "parsenum"
			}
			t := mk(OApp, g, 0, []*Term{x}, nil, resType(c.sig))
			s2 := c.st.clone()
			if f == "atou" {
				c.st.assume(mkLe(mkInt(0), t), true)
			}
			e := c.failing(s2, "parse", "", nil)
			s2.fails[e].of = t
			return []callOut{c.ret(c.st, t, tNil), c.ret(s2, mkInt(0), e)}
		}
	}
	yes := func(*callCtx) bool { return true }
	b10 := func(c *callCtx) bool { b, ok := isInt(c.args[1]); return ok && b == 10 }
	models["strconv.Atoi"] = parse("atoi", yes)
	models["strconv.ParseInt"] = parse("atoi", b10)
	models["strconv.ParseUint"] = parse("atou", b10)
	models["strconv.Quote"] = ret1(func(c *callCtx) *Term { return mkApp("quote", c.val(0)) })

	// hex
	models["encoding/hex.EncodeToString"] = ret1(func(c *callCtx) *Term { return mkApp("hexenc", c.val(0)) })
	models["encoding/hex.AppendEncode"] = ret1(func(c *callCtx) *Term { return mkCat(c.val(0), mkApp("hexenc", c.val(1))) })
	models["encoding/hex.DecodeString"] = func(c *callCtx) []callOut {
		return c.orFail(mk(OApp, "hexdec", 0, []*Term{c.val(0)}, nil, nil), mk(OApp, "hexpart", 0, []*Term{c.val(0)}, nil, nil), "parse")
	}
	models["encoding/hex.DecodedLen"] = ret1(func(c *callCtx) *Term {
		t := mk(OApp, "div", 0, []*Term{c.args[0], mkInt(2)}, nil, types.Typ[types.Int])
		c.st.assume(mkLe(t, c.args[0]), true)
		c.st.assume(mkLe(mkInt(0), t), true)
		return t
	})
	models["encoding/hex.EncodedLen"] = ret1(func(c *callCtx) *Term { return mkScale(c.args[0], 2) })
	models["encoding/hex.Encode"] = func(c *callCtx) []callOut {
		d, s := c.args[0], c.val(1)
		n := mkScale(mkLen(s), 2)
		if !c.need(c.st, "hexdst", mkLe(n, mkLen(d)), "hex.Encode destination too short") {
			return nil
		}
		if d.op == OSlice {
			p := d.args[0]
			if d.args[1] == mkInt(0) && n == d.args[2] {
				c.st.store(p, mkApp("hexenc", s), nil)
			} else {
				c.st.store(p, mkApp("copied", c.st.load(p, nil), d.args[1], mkApp("hexenc", s)), nil)
			}
		}
		return []callOut{{c.st, n}}
	}
	models["encoding/hex.Decode"] = func(c *callCtx) []callOut {
		d, s := c.args[0], c.val(1)
		h := mk(OApp, "hexdec", 0, []*Term{s}, nil, nil)
		// writes len(s)/2 bytes
		need := mkLe(mkLen(s), mkAdd(mkScale(mkLen(d), 2), mkInt(1)))
		exact := halfOf(mkLen(d), mkLen(s))
		if !exact && !c.need(c.st, "hexdst", need, "hex.Decode destination too short") {
			return nil
		}
		s2 := c.st.clone()
		if d.op == OSlice {
			p := d.args[0]
			if exact && d.args[1] == mkInt(0) {
				c.st.store(p, h, nil)
				c.st.assume(mkEq(mkLen(h), mkLen(d)), true)
			} else if k, ok := isInt(mkLen(d)); ok {
				if v, ok := c.st.known(mkEq(mkLen(s), mkInt(2*k))); ok && v {
					c.st.store(p, h, nil)
					c.st.assume(mkEq(mkLen(h), mkInt(k)), true)
				} else {
					c.st.store(p, mkApp("copied", c.st.load(p, nil), d.args[1], h), nil)
				}
			}
			s2.store(p, c.fresh("hexpart", nil), nil)
		}
		e := c.failing(s2, "parse", "", nil)
		s2.fails[e].of = h
		return []callOut{c.ret(c.st, mkLen(h), tNil), c.ret(s2, c.fresh("n", types.Typ[types.Int]), e)}
	}

	// multihash, cid, links, blocks
	const MH = "github.com/multiformats/go-multihash."
	models[MH+"Encode"] = func(c *callCtx) []callOut {
		return c.orFail(mk(OApp, "mhenc", 0, []*Term{c.val(0), c.args[1]}, nil, nil), tNil, "hash")
	}
	models[MH+"Cast"] = func(c *callCtx) []callOut {
		v := c.val(0)
		if as := atoms(v); len(as) == 2 && as[0].op == OStr && len(as[0].s) == 2 && as[0].s[0] < 0x80 && as[0].s[1] < 0x80 {
			// a code and a length of one byte each, and what has that length
			if ok, known := c.st.known(mkEq(mkLen(as[1]), mkInt(int64(as[0].s[1])))); known && ok {
				v = mk(OApp, "mhenc", 0, []*Term{as[1], mkInt(int64(as[0].s[0]))}, nil, nil)
			}
		}
		return c.orFail(v, tNil, "hash")
	}
	models[MH+"EncodeName"] = func(c *callCtx) []callOut {
		code := mkApp("mhname", c.val(1))
		if v := c.val(1); v.op == OStr && v.s == "sha1" {
			code = mkInt(0x11)
		}
		return c.orFail(mk(OApp, "mhenc", 0, []*Term{c.val(0), code}, nil, nil), tNil, "hash")
	}
	models[MH+"Decode"] = func(c *callCtx) []callOut {
		return c.orFail(mk(OApp, "mhdec", 0, []*Term{c.val(0)}, nil, resType(c.sig)), tNil, "hash")
	}
	const CID = "github.com/ipfs/go-cid."
	models[CID+"NewCidV1"] = func(c *callCtx) []callOut { return c.pure("cidv1", c.args[0], c.val(1)) }
	models[CID+"NewCidV0"] = func(c *callCtx) []callOut { return c.pure("cidv0", c.val(0)) }
	models["("+CID+"Cid).Hash"] = func(c *callCtx) []callOut { return c.pure("cidhash", c.args[0]) }
	models["("+CID+"Cid).Prefix"] = func(c *callCtx) []callOut { return c.pure("cidprefix", c.args[0]) }
	models["("+CID+"Cid).Bytes"] = func(c *callCtx) []callOut { return c.pure("cidbytes", c.args[0]) }
	models["("+CID+"Cid).String"] = func(c *callCtx) []callOut { return c.pure("cidstring", c.args[0]) }
	models["("+CID+"Cid).KeyString"] = func(c *callCtx) []callOut { return c.pure("cidbytes", c.args[0]) }
	models["("+CID+"Cid).Defined"] = func(c *callCtx) []callOut { return c.pure("ciddefined", c.args[0]) }
	models["("+CID+"Cid).Equals"] = ret1(func(c *callCtx) *Term { return mkEq(c.args[0], c.args[1]) })
	cidPart := func(field string) func(*callCtx) []callOut {
		return ret1(func(c *callCtx) *Term {
			return mk(OApp, "cidpart", 0, []*Term{c.args[0], mkStr(field)}, nil, types.Typ[types.Uint64])
		})
	}
	models["("+CID+"Cid).Type"] = cidPart("Codec")
	models["("+CID+"Cid).Version"] = cidPart("Version")
	methodModels["Cid"] = func(c *callCtx) []callOut { return c.pure("blockcid", c.args[0]) }
	methodModels["RawData"] = func(c *callCtx) []callOut { return c.pure("blockdata", c.args[0]) }
	models["(github.com/ipld/go-ipld-prime/linking/cid.Link).Prototype"] = func(c *callCtx) []callOut { return c.pure("linkproto", c.args[0]) }
	models["(github.com/ipld/go-ipld-prime/linking/cid.Link).String"] = func(c *callCtx) []callOut { return c.pure("linkstring", c.args[0]) }
	reg := func(c *callCtx) []callOut {
		c.in().event(&Event{kind: "register", pos: instrPos(c.ins), fn: c.fr.fn, msg: c.name, val: mkTuple(c.args...)})
		return []callOut{{c.st, tNil}}
	}
	models["github.com/ipld/go-ipld-prime/multicodec.RegisterEncoder"] = reg
	models["github.com/ipld/go-ipld-prime/multicodec.RegisterDecoder"] = reg

	// nodes
	methodModels["Close"] = func(c *callCtx) []callOut {
		if c.def {
			return []callOut{{c.st, tNil}}
		}
		s2 := c.st.clone()
		e := c.failing(s2, "close", "", nil)
		return []callOut{{c.st, tNil}, {s2, e}}
	}
	methodModels["Error"] = func(c *callCtx) []callOut { return c.pure("errstring", c.args[0]) }
	methodModels["String"] = func(c *callCtx) []callOut { return c.pure("string", c.args[0]) }
	node := func(c *callCtx) *Term { return unwrap(c.args[0]) }
	methodModels["Kind"] = ret1(func(c *callCtx) *Term { return mk(OApp, "kind", 0, []*Term{node(c)}, nil, nil) })
	methodModels["Prototype"] = ret1(func(c *callCtx) *Term { return mk(OApp, "protoOf", 0, []*Term{node(c)}, nil, nil) })
	methodModels["IsNull"] = ret1(func(c *callCtx) *Term { return mkApp("isnull", node(c)) })
	methodModels["IsAbsent"] = ret1(func(c *callCtx) *Term { return mkApp("isabsent", node(c)) })
	methodModels["Length"] = ret1(func(c *callCtx) *Term { return mk(OApp, "nodelen", 0, []*Term{node(c)}, nil, types.Typ[types.Int64]) })
	methodModels["Representation"] = ret1(func(c *callCtx) *Term { return mk(OApp, "repr", 0, []*Term{node(c)}, nil, nil) })
	probe := func(pred string, val func(c *callCtx) *Term, zero *Term, kind string) func(*callCtx) []callOut {
		return func(c *callCtx) []callOut {
			n := node(c)
			args := []*Term{n}
			for i := range c.args[1:] {
				args = append(args, c.val(i+1))
			}
			cond := mkApp(pred, args...)
			v := val(c)
			arg := ""
			if len(args) > 1 && args[1].op == OStr {
				arg = args[1].s
			}
			return c.cases(cond, func(s *State) []callOut {
				if kind == "lookup" {
					s.assume(mkApp("isnil", v), false)
				}
				return []callOut{c.ret(s, v, tNil)}
			}, func(s *State) []callOut {
				e := c.failing(s, kind, arg, nil)
				return []callOut{c.ret(s, zero, e)}
			})
		}
	}
	methodModels["LookupByString"] = probe("haskey", func(c *callCtx) *Term {
		return mk(OApp, "lookup", 0, []*Term{node(c), c.val(1)}, nil, resType(c.sig))
	}, tNil, "lookup")
	for _, m := range []string{"LookupByNode", "LookupByIndex", "LookupBySegment"} {
		m := m
		methodModels[m] = probe("has:"+m, func(c *callCtx) *Term {
			return mk(OApp, m, 0, []*Term{node(c), c.val(1)}, nil, resType(c.sig))
		}, tNil, "lookup")
	}
	for m, z := range map[string]*Term{"AsString": tEmpty, "AsBytes": tNil, "AsLink": tNil, "AsBool": tFalse, "AsInt": mkInt(0), "AsFloat": mkInt(0)} {
		m, z := m, z
		methodModels[m] = probe("is:"+m, func(c *callCtx) *Term {
			return mk(OApp, strings.ToLower(m), 0, []*Term{node(c)}, nil, resType(c.sig))
		}, z, "as")
	}
	methodModels["MapIterator"] = func(c *callCtx) []callOut {
		n := node(c)
		v, ok := c.st.known(mkEq(mk(OApp, "kind", 0, []*Term{n}, nil, nil), mkInt(kindMap)))
		if ok && v || n.op == OPtr || n.op == OApp && n.s == "built" {
			k := "mi:" + c.fr.ctx.s + ":" + c.fr.site(c.ins)
			c.st.heap["src:"+k] = n
			c.st.heap["miter:"+k] = tEList
			return []callOut{{c.st, mkPtr(k)}}
		}
		return c.pure("mapiter", n)
	}
	methodModels["ListIterator"] = func(c *callCtx) []callOut { return c.pure("listiter", node(c)) }
	methodModels["Done"] = ret1(func(c *callCtx) *Term {
		k := keyOf(c.args[0])
		if v, ok := c.st.heap["miter:"+k]; ok {
			return mkApp("done", mkStr(k), v)
		}
		return c.fresh("done", types.Typ[types.Bool])
	})
	methodModels["Next"] = func(c *callCtx) []callOut {
		k := keyOf(c.args[0])
		st := c.st
		res := c.sig.Results()
		if res.Len() != 3 {
			return c.opaque(c.name, false)
		}
		s2 := st.clone()
		a, b := c.fresh("key", res.At(0).Type()), c.fresh("val", res.At(1).Type())
		st.facts[mkApp("isnil", a)] = false
		st.facts[mkApp("isnil", b)] = false
		if v, ok := st.heap["miter:"+k]; ok {
			st.heap["miter:"+k] = mkCat(v, mkElem(mkTuple(a, b)))
		}
		e := c.failing(s2, "next", "", nil)
		return []callOut{c.ret(st, a, b, tNil), c.ret(s2, tNil, tNil, e)}
	}

	// assemblers
	methodModels["NewBuilder"] = func(c *callCtx) []callOut {
		k := "bld:" + c.fr.ctx.s + ":" + c.fr.site(c.ins)
		c.st.heap["src:"+k] = mkApp("protoval", unwrap(c.args[0]))
		c.st.heap["ts:"+k] = mkStr("new")
		c.st.heap["asm:"+k] = tEList
		return []callOut{{c.st, mkPtr(k)}}
	}
	methodModels["AssignNode"] = func(c *callCtx) []callOut { return c.assign("node", c.args[1]) }
	methodModels["AssignBytes"] = func(c *callCtx) []callOut { return c.assign("bytes", c.args[1]) }
	methodModels["AssignString"] = func(c *callCtx) []callOut { return c.assign("string", c.args[1]) }
	methodModels["AssignLink"] = func(c *callCtx) []callOut { return c.assign("link", c.args[1]) }
	methodModels["AssignBool"] = func(c *callCtx) []callOut { return c.assign("bool", c.args[1]) }
	methodModels["AssignInt"] = func(c *callCtx) []callOut { return c.assign("int", c.args[1]) }
	methodModels["AssignFloat"] = func(c *callCtx) []callOut { return c.assign("float", c.args[1]) }
	methodModels["AssignNull"] = func(c *callCtx) []callOut { return c.assign("null", tNil) }
	begin := func(what string) func(c *callCtx) []callOut {
		return func(c *callCtx) []callOut {
			k := keyOf(c.args[0])
			c.inState(k, "new")
			c.fr.allocSize(c.ins, c.st, c.args[1], "Begin")
			s2 := c.st.clone()
			c.st.heap["ts:"+k] = mkStr(what)
			c.st.heap["kind:"+k] = mkStr(what)
			r := unwrap(c.args[0])
			if r.op != OPtr {
				// an assembler we were given
				c.st.facts[mkApp("isnil", r)] = false
			}
			e := c.failing(s2, "begin", "", nil)
			return []callOut{c.ret(c.st, r, tNil), c.ret(s2, tNil, e)}
		}
	}
	methodModels["BeginMap"] = begin("map")
	methodModels["BeginList"] = begin("list")
	methodModels["AssembleEntry"] = func(c *callCtx) []callOut {
		k := keyOf(c.args[0])
		c.inState(k, "map")
		s2 := c.st.clone()
		c.st.heap["pend:"+k] = c.val(1)
		c.st.heap["ts:"+k] = mkStr("mid")
		e := c.failing(s2, "entry", "", nil)
		return []callOut{c.ret(c.st, mkPtr("ent:"+k), tNil), c.ret(s2, tNil, e)}
	}
	methodModels["AssembleKey"] = func(c *callCtx) []callOut {
		k := keyOf(c.args[0])
		c.inState(k, "map")
		c.st.heap["ts:"+k] = mkStr("key")
		return []callOut{{c.st, mkPtr("key:" + k)}}
	}
	methodModels["AssembleValue"] = func(c *callCtx) []callOut {
		k := keyOf(c.args[0])
		c.inState(k, "keyed", "list")
		c.st.heap["ts:"+k] = mkStr("mid")
		return []callOut{{c.st, mkPtr("ent:" + k)}}
	}
	methodModels["Finish"] = func(c *callCtx) []callOut {
		k := keyOf(c.args[0])
		c.inState(k, "map", "list")
		s2 := c.st.clone()
		c.st.heap["ts:"+k] = mkStr("done")
		e := c.failing(s2, "finish", "", nil)
		return []callOut{{c.st, tNil}, {s2, e}}
	}
	methodModels["Build"] = func(c *callCtx) []callOut {
		k := keyOf(c.args[0])
		c.inState(k, "done")
		v := mk(OApp, "built", 0, []*Term{c.cellOr(c.st, "src:", k), c.cell(c.st, "asm:", k)}, nil, builderType[k])
		if t := builderType[k]; t != nil {
			return []callOut{{c.st, mkIface(t, v)}}
		}
		return []callOut{{c.st, v}}
	}
	methodModels["Reset"] = func(c *callCtx) []callOut {
		k := keyOf(c.args[0])
		c.st.heap["ts:"+k] = mkStr("new")
		c.st.heap["asm:"+k] = tEList
		return []callOut{{c.st, tNil}}
	}
}

const kindMap = '{' // datamodel.Kind_Map; checked at load

func (c *callCtx) cellOr(st *State, prefix, k string) *Term {
	if v, ok := st.heap[prefix+k]; ok {
		return v
	}
	return mkApp("param", mkStr(k))
}

func (c *callCtx) bufMaybe(st *State, w, data *Term) {
	if w.op == OIface && isBufType(w.typ) {
		c.bufAppend(st, w.args[0], data)
	}
}

var cutUsed bool

func phiContent(t *Term) (*Term, bool) { return t, t.op == OCat || t.op == OStr }

// spare takes away the mark of a buffer's own spare space (AvailableBuffer)
// from the front of what is written to that buffer. What was appended there
// is intact only while the buffer still holds what it held then: after any
// write in between the mark stays, and with it contents nobody knows.
func (c *callCtx) spare(d *Term) *Term {
	as := []*Term{d}
	if d.op == OCat {
		as = d.args
	}
	if len(as) == 0 || as[0].op != OApp || as[0].s != "spare" || as[0].args[0] != c.bufContent(c.st, c.args[0]) {
		return d
	}
	return mkCat(as[1:]...)
}

// joined notes how long the parts of a list, joined, are at least: as long as
// the first of them and, where there is another, what separates them and the
// last.
func (c *callCtx) joined(j, l, sep *Term) {
	st := c.st
	if c.ins == nil || c.sig.Params().Len() == 0 {
		return
	}
	sl, ok := c.sig.Params().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		return
	}
	x, lo, hi := subParts(l)
	if x == nil {
		x, lo, hi = l, mkInt(0), mkLen(l)
	}
	if some, ok := st.known(mkLe(mkAdd(lo, mkInt(1)), hi)); !ok || !some {
		return
	}
	first := mkLen(st.value(mkIdx(x, lo, sl.Elem())))
	least := first
	if more, ok := st.known(mkLe(mkAdd(lo, mkInt(2)), hi)); ok && more {
		if n, ok := isInt(mkLen(sep)); ok {
			last := mkLen(st.value(mkIdx(x, mkAdd(hi, mkInt(-1)), sl.Elem())))
			for _, k := range []int64{1, 0} {
				if v, ok := st.known(mkLe(mkInt(k), last)); k == 0 || ok && v {
					least = mkAdd(first, mkInt(n+k))
					break
				}
			}
		}
	}
	st.assume(mkLe(least, mkLen(j)), true)
	st.zone.addLe(mkSub(mkLen(mkIdx(x, mkAdd(hi, mkInt(-1)), sl.Elem())), mkLen(j)))
}
