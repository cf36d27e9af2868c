package main

// Assumed contracts of the line scanner, of tee and multi readers and of the
// armor decoder. Splitting a text into lines is a deterministic but otherwise
// unknown function of the text, as is decoding an armored block. How far a
// scanner has read ahead is unknown until it reports the end.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// source turns a modelled reader into one with a read position.
func (e *Engine) source(st *State, v Val) *VPtr {
	v = e.res(st, v)
	if i, ok := v.(*VIface); ok {
		v = e.res(st, i.v)
	}
	p, ok := v.(*VPtr)
	if !ok || len(p.path) > 0 {
		panic(unsup("reader %T", v))
	}
	x, ok := e.obj(st, p.obj).(*VExt)
	if !ok {
		panic(unsup("reader %T", e.obj(st, p.obj)))
	}
	switch x.kind {
	case "src":
		return p
	case "tee":
		return x.f[0].(*VPtr)
	case "rdr", "buffer":
		s := e.asStr(st, e.res(st, x.f[0]))
		st.heap[p.obj] = &VExt{"src", []Val{s, e.c.I64(0), e.failing(st, p.obj)}}
		return p
	}
	panic(unsup("scanning a %s", x.kind))
}

func (e *Engine) fromOf(s *SStr, n *Term) *SStr {
	if len(s.segs) == 1 && s.segs[0].k == sBytes {
		b := *s.segs[0].b
		b.off = e.c.Add(b.off, n)
		b.len = e.c.Sub(b.len, n)
		return one(Seg{k: sBytes, b: &b})
	}
	if n.IsConst() && n.val == 0 {
		return s
	}
	panic(unsup("part of a built string"))
}

// joinOctets concatenates, joining adjacent parts of the same octets.
func (e *Engine) joinOctets(a, b *SStr) *SStr {
	if len(a.segs) > 0 && len(b.segs) > 0 {
		x, y := a.segs[len(a.segs)-1], b.segs[0]
		if x.k == sBytes && y.k == sBytes && x.b.arr != nil && x.b.arr == y.b.arr && e.c.Add(x.b.off, x.b.len) == y.b.off {
			m := *x.b
			m.len = e.c.Add(x.b.len, y.b.len)
			return catStr(&SStr{segs: a.segs[:len(a.segs)-1]}, one(Seg{k: sBytes, b: &m}), &SStr{segs: b.segs[1:]})
		}
	}
	return catStr(a, b)
}

func (e *Engine) lines(s *SStr) (string, []*Term, *Gen, *Term) {
	c := e.c
	n, ts := flat(s)
	g := &Gen{name: "ln@" + n, ts: ts, n: e.small(c.UF("ln.n@"+n, 64, ts...))}
	g.elem = func(st *State, ts []*Term, idx *Term) Val {
		as := append(append([]*Term{}, ts...), idx)
		return one(Seg{k: sBytes, b: &VBytes{arr: c.AVar("ln.s@"+n, as...), off: c.I64(0), len: e.small(c.UF("ln.len@"+n, 64, as...))}})
	}
	return n, ts, g, c.UF("ln.bad@"+n, 0, ts...)
}

func init() {
	I := intrinsics
	I["gpgverif/harness/verif.Lines"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		_, _, g, bad := e.lines(e.str(st, a[0]))
		return ret(st, &VList{[]LSeg{{k: lGen, gen: g}}}, bad)
	}
	I["bufio.NewScanner"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		p := e.source(st, a[0])
		if t := e.obj(st, p.obj).(*VExt).f[1].(*Term); !t.IsConst() || t.val != 0 {
			panic(unsup("scanning the rest of a reader"))
		}
		return ret(st, &VPtr{obj: e.alloc(st, &VExt{"scanner", []Val{p, e.c.I64(0)}})})
	}
	scn := func(e *Engine, st *State, v Val, in ssa.Instruction) (Val, *VExt, *VPtr, *VExt) {
		p := e.res(st, v)
		x, ok := e.res(st, e.load(st, p, in)).(*VExt)
		if !ok || x.kind != "scanner" {
			panic(unsup("scanner"))
		}
		sp := x.f[0].(*VPtr)
		s, ok := e.obj(st, sp.obj).(*VExt)
		if !ok || s.kind != "src" {
			panic(unsup("scanner of a reader used elsewhere"))
		}
		return p, x, sp, s
	}
	I["(*bufio.Scanner).Scan"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		c := e.c
		p, x, sp, s := scn(e, st, a[0], in)
		text := s.f[0].(*SStr)
		n, ts, g, bad := e.lines(text)
		idx := x.f[1].(*Term)
		more := c.Ult(idx, g.n)
		size := e.strLen(text)
		var outs []Out
		if e.sat(st, more) {
			ns := st.fork()
			ns.assume(more)
			k := c.Add(idx, c.I64(1))
			at := c.UF("ln.pos@"+n, 64, append(append([]*Term{}, ts...), k)...)
			e.axiom(c.Ule(at, size))
			ns.heap[sp.obj] = &VExt{"src", []Val{text, at, s.f[2]}}
			e.store(ns, p, &VExt{"scanner", []Val{sp, k}}, in)
			outs = append(outs, Out{ns, []Val{c.tt}})
		}
		if e.sat(st, c.Not(more)) {
			ns := st.fork()
			ns.assume(c.Not(more))
			at := c.UF("ln.end@"+n, 64, ts...)
			e.axiom(c.Ule(at, size))
			ns.heap[sp.obj] = &VExt{"src", []Val{text, c.Ite(bad, at, size), s.f[2]}}
			e.store(ns, p, &VExt{"scanner", []Val{sp, c.Add(idx, c.I64(1))}}, in)
			outs = append(outs, Out{ns, []Val{c.ff}})
		}
		return outs
	}
	I["(*bufio.Scanner).Text"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		c := e.c
		_, x, _, s := scn(e, st, a[0], in)
		_, _, g, _ := e.lines(s.f[0].(*SStr))
		k := c.Sub(x.f[1].(*Term), c.I64(1))
		if e.decide(st, c.Ult(k, g.n)) != 1 {
			panic(unsup("line before or after scanning"))
		}
		return ret(st, g.elem(st, g.ts, k))
	}
	I["(*bufio.Scanner).Bytes"] = I["(*bufio.Scanner).Text"]
	I["(*bufio.Scanner).Err"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		c := e.c
		_, x, _, s := scn(e, st, a[0], in)
		_, _, g, bad := e.lines(s.f[0].(*SStr))
		// reported only once scanning has ended
		q := c.And(c.Or(bad, s.f[2].(*Term)), c.Ult(g.n, x.f[1].(*Term)))
		return ret(st, mkIte(c, q, &VErr{msg: opq("errmsg"), is: map[string]*Term{"bufio.ErrTooLong": bad}}, Nil{}))
	}
	I["io.TeeReader"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		r, w := e.res(st, a[0]), e.res(st, a[1])
		if i, ok := w.(*VIface); ok {
			w = e.res(st, i.v)
		}
		wp, ok := w.(*VPtr)
		if !ok || len(wp.path) > 0 {
			panic(unsup("tee into %T", w))
		}
		b, ok := e.obj(st, wp.obj).(*VExt)
		if !ok || b.kind != "buffer" || len(e.asStr(st, e.res(st, b.f[0])).segs) > 0 {
			panic(unsup("tee into anything but an empty buffer"))
		}
		p := e.source(st, r)
		if t := e.obj(st, p.obj).(*VExt).f[1].(*Term); !t.IsConst() || t.val != 0 {
			panic(unsup("tee of the rest of a reader"))
		}
		st.heap[wp.obj] = &VExt{"teebuf", []Val{p}}
		return ret(st, e.extIface(st, "reader", &VExt{"tee", []Val{p}}))
	}
	I["io.MultiReader"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		rs := e.variadic(st, a[0])
		s := lit("")
		for i := range rs {
			rs[i] = e.res(st, rs[i])
		}
		var used []int
		bad := e.c.ff
		for _, r := range rs {
			t, id := e.peek(st, r)
			if bad != e.c.ff {
				panic(unsup("more readers behind one that may fail"))
			}
			bad = e.failing(st, id)
			s = e.joinOctets(s, t)
			used = append(used, id)
		}
		for _, id := range used {
			st.heap[id] = &VExt{"taken:multi", nil}
		}
		return ret(st, e.extIface(st, "reader", &VExt{"reader", []Val{s, bad}}))
	}
	I["gpgverif/harness/verif.NewDevice"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		p := &VPtr{obj: e.alloc(st, &VExt{"rdr", []Val{e.str(st, a[1]), e.term(st, a[2])}})}
		return ret(st, &VIface{t: types.NewPointer(e.P.prog.ImportedPackage("gpgverif/harness/verif").Type("Device").Type()), v: p})
	}
	I["golang.org/x/crypto/openpgp/armor.Decode"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		c := e.c
		s := e.content(st, e.res(st, a[0]))
		n, ts := flat(s)
		bad := c.UF("arm.bad@"+n, 0, ts...)
		var outs []Out
		if e.sat(st, bad) {
			ns := st.fork()
			ns.assume(bad)
			outs = append(outs, Out{ns, []Val{Nil{}, &VErr{msg: opq("errmsg"), is: map[string]*Term{"io.EOF": c.UF("arm.eof@"+n, 0, ts...)}}}})
		}
		if e.sat(st, c.Not(bad)) {
			ns := st.fork()
			ns.assume(c.Not(bad))
			body := one(Seg{k: sBytes, b: &VBytes{arr: c.AVar("arm.body@"+n, ts...), off: c.I64(0), len: e.small(c.UF("arm.len@"+n, 64, ts...))}})
			b := e.structOf("golang.org/x/crypto/openpgp/armor", "Block", map[string]Val{
				"Type": opq("arm.type", s),
				"Body": e.extIface(ns, "reader", &VExt{"reader", []Val{body}}),
			})
			outs = append(outs, Out{ns, []Val{&VPtr{obj: e.alloc(ns, b)}, Nil{}}})
		}
		return outs
	}
}
