package main

// Assumed contracts of the OpenPGP framing library and of readers. Framing is
// a deterministic but otherwise unknown function of the octets: the number of
// packets (sub-packets), each one's tag (type) and contents, and whether the
// sequence ends in an error.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// structOf makes a value of the named struct type of a package.
func (e *Engine) structOf(pkg, name string, f map[string]Val) *VStruct {
	p := e.P.prog.ImportedPackage(pkg)
	if p == nil || p.Type(name) == nil {
		panic(unsup("type %s.%s", pkg, name))
	}
	st := p.Type(name).Type().Underlying().(*types.Struct)
	v := &VStruct{make([]Val, st.NumFields())}
	for i := range v.f {
		if x, ok := f[st.Field(i).Name()]; ok {
			v.f[i] = x
		} else {
			v.f[i] = e.zero(st.Field(i).Type())
		}
	}
	return v
}

func (e *Engine) small(t *Term) *Term {
	e.axiom(e.c.Ult(t, e.c.I64(1<<48)))
	return t
}

// content is what remains to be read from a modelled reader (an interface
// value or a pointer). The reader counts as used up afterwards.
func (e *Engine) content(st *State, v Val) *SStr {
	s, bad := e.contentBad(st, v)
	if bad != e.c.ff {
		panic(unsup("reading from a reader that may fail"))
	}
	return s
}

// failing tells whether reading a modelled reader to its end gives an error.
func (e *Engine) failing(st *State, id int) *Term {
	x, ok := e.obj(st, id).(*VExt)
	i := 1
	switch {
	case !ok:
		return e.c.ff
	case x.kind == "src" || x.kind == "oreader":
		i = 2
	case x.kind != "rdr" && x.kind != "reader" && x.kind != "readcloser":
		return e.c.ff
	}
	if len(x.f) > i {
		return x.f[i].(*Term)
	}
	return e.c.ff
}

func (e *Engine) contentBad(st *State, v Val) (*SStr, *Term) {
	s, src := e.peek(st, v)
	bad := e.c.ff
	if src >= 0 {
		bad = e.failing(st, src)
		x := e.obj(st, src).(*VExt)
		st.heap[src] = &VExt{"taken:" + x.kind, nil}
	}
	return s, bad
}
func (e *Engine) peek(st *State, v Val) (*SStr, int) {
	v = e.res(st, v)
	if i, ok := v.(*VIface); ok {
		v = e.res(st, i.v)
	}
	p, ok := v.(*VPtr)
	if !ok || len(p.path) > 0 {
		panic(unsup("reader %T", v))
	}
	x, ok := e.obj(st, p.obj).(*VExt)
	if !ok {
		panic(unsup("reader %T", e.obj(st, p.obj)))
	}
	switch x.kind {
	case "rdr", "buffer", "reader", "readcloser":
		return e.resStr(st, e.asStr(st, e.res(st, x.f[0]))), p.obj
	case "src":
		return e.fromOf(x.f[0].(*SStr), x.f[1].(*Term)), p.obj
	case "teebuf":
		s := e.obj(st, x.f[0].(*VPtr).obj).(*VExt)
		if s.kind != "src" {
			panic(unsup("tee of a reader used elsewhere"))
		}
		return e.firstOf(s.f[0].(*SStr), s.f[1].(*Term)), p.obj
	}
	panic(unsup("reader %s", x.kind))
}

// resStr drops the alternatives of a string that the path rules out.
func (e *Engine) resStr(st *State, s *SStr) *SStr {
	for i, g := range s.segs {
		if g.k != sIte {
			continue
		}
		r := g.a
		switch e.decide(st, g.t) {
		case 1:
		case 0:
			r = g.c
		default:
			continue
		}
		return e.resStr(st, catStr(&SStr{segs: s.segs[:i:i]}, r, &SStr{segs: s.segs[i+1:]}))
	}
	return s
}

// inflated is what decompressing some octets yields: out, then the end or (bad)
// an error; head is an error found before anything is read.
type inflated struct {
	out       *VBytes
	bad, head *Term
}

func (e *Engine) inflate(alg string, s *SStr) inflated {
	c := e.c
	n, ts := flat(s)
	z := inflated{
		out: &VBytes{arr: c.AVar("infl"+alg+"@"+n, ts...), off: c.I64(0), len: e.small(c.UF("infl.len"+alg+"@"+n, 64, ts...))},
		bad: c.UF("infl.bad"+alg+"@"+n, 0, ts...),
	}
	if alg == "2" {
		z.head = c.UF("infl.head"+alg+"@"+n, 0, ts...)
	}
	return z
}

// copyN models io.CopyN (io.Copy where max is nil) from a modelled reader into a
// buffer.
func (e *Engine) copyN(st *State, dst, src Val, max *Term, in ssa.Instruction) []Out {
	c := e.c
	d := e.res(st, dst)
	if i, ok := d.(*VIface); ok {
		d = e.res(st, i.v)
	}
	s, id := e.peek(st, src)
	x := e.obj(st, id).(*VExt)
	bad := e.failing(st, id)
	n := e.strLen(s)
	all := c.tt
	if max != nil {
		all = c.Slt(n, max)
	}
	var outs []Out
	step := func(q *Term, w *SStr, k *Term, err Val) {
		if !e.sat(st, q) {
			return
		}
		ns := st.fork()
		ns.assume(q)
		e.bufAppend(ns, d, w, in)
		ns.heap[id] = &VExt{"taken:" + x.kind, nil}
		outs = append(outs, Out{ns, []Val{k, err}})
	}
	var end Val = e.sentinel("io.EOF")
	if max == nil {
		end = Nil{}
	}
	step(c.And(all, c.Not(bad)), s, n, end)
	step(c.And(all, bad), s, n, &VErr{msg: opq("errmsg"), is: map[string]*Term{}})
	if max != nil {
		b := e.firstOf(s, max)
		step(c.Not(all), b, max, Nil{})
	}
	return outs
}

// firstOf is the first n octets of a sequence.
func (e *Engine) firstOf(s *SStr, n *Term) *SStr {
	if len(s.segs) == 1 && s.segs[0].k == sBytes {
		b := *s.segs[0].b
		b.len = n
		return one(Seg{k: sBytes, b: &b})
	}
	panic(unsup("part of a built string"))
}

const pgpPacket = "golang.org/x/crypto/openpgp/packet"

func init() {
	I := intrinsics
	I[pgpPacket+".OpaqueSubpackets"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		c := e.c
		s := e.str(st, a[0])
		if len(s.segs) == 0 {
			return ret(st, Nil{}, Nil{})
		}
		n, ts := flat(s)
		g := &Gen{name: "osp@" + n, ts: ts, n: e.small(c.UF("osp.n@"+n, 64, ts...))}
		g.elem = func(st *State, ts []*Term, idx *Term) Val {
			as := append(append([]*Term{}, ts...), idx)
			return &VPtr{obj: e.alloc(st, e.structOf(pgpPacket, "OpaqueSubpacket", map[string]Val{
				"SubType":  c.UF("osp.type@"+n, 8, as...),
				"Contents": &VBytes{arr: c.AVar("osp.body@"+n, as...), off: c.I64(0), len: e.small(c.UF("osp.len@"+n, 64, as...))},
			}))}
		}
		bad := c.UF("osp.bad@"+n, 0, ts...)
		return ret(st, &VList{[]LSeg{{k: lGen, gen: g}}}, mkIte(c, bad, &VErr{msg: opq("errmsg"), is: map[string]*Term{}}, Nil{}))
	}
	I[pgpPacket+".NewOpaqueReader"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		r := e.res(st, a[0])
		if _, ok := r.(Nil); ok {
			return ret(st, &VPtr{obj: e.alloc(st, &VExt{"oreader-nil", nil})})
		}
		s, bad := e.contentBad(st, r)
		return ret(st, &VPtr{obj: e.alloc(st, &VExt{"oreader", []Val{s, e.c.I64(0), bad}})})
	}
	I["(*"+pgpPacket+".OpaqueReader).Next"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		c := e.c
		p := e.res(st, a[0])
		if _, ok := p.(Nil); ok {
			e.require(st, c.ff, "nil opaque reader", pos(e, in))
		}
		x, ok := e.res(st, e.load(st, p, in)).(*VExt)
		if !ok || x.kind != "oreader" {
			panic(unsup("opaque reader"))
		}
		fails := x.f[2].(*Term)
		if s, ok := x.f[0].(*SStr); ok && len(s.segs) == 0 && fails == c.ff {
			return ret(st, Nil{}, e.sentinel("io.EOF"))
		}
		n, ts := flat(x.f[0])
		idx := x.f[1].(*Term)
		cnt := e.small(c.UF("pk.n@"+n, 64, ts...))
		more := c.Ult(idx, cnt)
		bad := c.Or(c.UF("pk.bad@"+n, 0, ts...), fails)
		as := append(append([]*Term{}, ts...), idx)
		var outs []Out
		if e.sat(st, more) {
			ns := st.fork()
			ns.assume(more)
			tag := c.UF("pk.tag@"+n, 8, as...)
			e.axiom(c.Ult(tag, c.BV(8, 64)))
			op := e.structOf(pgpPacket, "OpaquePacket", map[string]Val{
				"Tag":      tag,
				"Contents": &VBytes{arr: c.AVar("pk.body@"+n, as...), off: c.I64(0), len: e.small(c.UF("pk.len@"+n, 64, as...))},
			})
			e.store(ns, p, &VExt{"oreader", []Val{x.f[0], c.Add(idx, c.I64(1)), fails}}, in)
			outs = append(outs, Out{ns, []Val{&VPtr{obj: e.alloc(ns, op)}, Nil{}}})
		}
		for _, f := range []bool{false, true} {
			d := c.And(c.Not(more), bad)
			er := &VErr{msg: opq("errmsg"), is: map[string]*Term{}}
			if !f {
				d = c.And(c.Not(more), c.Not(bad))
				er = e.sentinel("io.EOF")
			}
			if e.sat(st, d) {
				ns := st.fork()
				ns.assume(d)
				outs = append(outs, Out{ns, []Val{Nil{}, er}})
			}
		}
		return outs
	}
	I["io.NopCloser"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		r := e.res(st, a[0])
		if _, ok := r.(Nil); ok {
			panic(unsup("NopCloser of nil"))
		}
		s, bad := e.contentBad(st, r)
		return ret(st, e.extIface(st, "readcloser", &VExt{"readcloser", []Val{s, bad}}))
	}
	I["io/ioutil.NopCloser"] = I["io.NopCloser"]
	inflater := func(alg string, kind string) intr {
		return func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
			r := e.res(st, a[0])
			if _, ok := r.(Nil); ok {
				panic(unsup("inflating nil"))
			}
			s := e.content(st, r)
			z := e.inflate(alg, s)
			x := &VExt{kind, []Val{one(Seg{k: sBytes, b: z.out}), z.bad}}
			if z.head == nil {
				return ret(st, e.extIface(st, kind, x))
			}
			var outs []Out
			if e.sat(st, z.head) {
				ns := st.fork()
				ns.assume(z.head)
				outs = append(outs, Out{ns, []Val{Nil{}, &VErr{msg: opq("errmsg"), is: map[string]*Term{}}}})
			}
			if e.sat(st, e.c.Not(z.head)) {
				ns := st.fork()
				ns.assume(e.c.Not(z.head))
				outs = append(outs, Out{ns, []Val{e.extIface(ns, kind, x), Nil{}}})
			}
			return outs
		}
	}
	I["compress/flate.NewReader"] = inflater("1", "readcloser")
	I["compress/zlib.NewReader"] = inflater("2", "readcloser")
	I["compress/bzip2.NewReader"] = inflater("3", "reader")
	I["io.CopyN"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return e.copyN(st, a[0], a[1], e.term(st, a[2]), in)
	}
	I["io.Copy"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return e.copyN(st, a[0], a[1], nil, in)
	}
	I["gpgverif/harness/verif.Inflate"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		c := e.c
		alg := e.term(st, a[0])
		b := e.sameOctets(st, a[1])
		k := -1
		for i := 0; i < 4; i++ {
			q := c.Eq(alg, c.BV(alg.w, uint64(i)))
			switch e.decide(st, q) {
			case 1:
				k = i
			case -1:
				panic(forkReq{q})
			}
		}
		switch k {
		case -1:
			return ret(st, Nil{}, c.I64(0))
		case 0:
			return ret(st, b, c.I64(0))
		}
		z := e.inflate(fmt.Sprint(k), e.str(st, b))
		big := c.Ule(c.I64(1<<30), z.out.len)
		fine := c.And(c.Not(big), c.Not(z.bad))
		corrupt := c.And(c.Not(big), z.bad)
		if z.head != nil {
			fine = c.And(c.Not(z.head), fine)
			big = c.And(c.Not(z.head), big)
			corrupt = c.Or(z.head, corrupt)
		}
		var outs []Out
		for i, q := range []*Term{fine, big, corrupt} {
			if e.sat(st, q) {
				ns := st.fork()
				ns.assume(q)
				var v Val = Nil{}
				if i == 0 {
					v = z.out
				}
				outs = append(outs, Out{ns, []Val{v, c.I64(int64(i))}})
			}
		}
		return outs
	}
	extMethods["taken:readcloser.Close"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out { return ret(st, Nil{}) }
	extMethods["readcloser.Close"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out { return ret(st, Nil{}) }
}
