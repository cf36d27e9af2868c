package main

// Intrinsics of the harness package gpgverif/harness/verif: symbolic inputs,
// checks, and opaque (contract) functions.

import (
	"encoding/hex"
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Input struct {
	Name, Kind string
	t          *Term // scalar, or the length of bytes
	arr        *Term
}

func (e *Engine) input(n, kind string, t, arr *Term) {
	for _, i := range e.inputs {
		if i.Name == n {
			return
		}
	}
	e.inputs = append(e.inputs, &Input{n, kind, t, arr})
}

// model extracts concrete inputs for a path condition.
func (e *Engine) model(pc []*Term) map[string]string {
	c := e.c
	var conj []*Term
	conj = append(conj, pc...)
	save := e.s.timeout
	e.s.timeout = 5000
	defer func() { e.s.timeout = save }()
	var vals []uint64
	var ts []*Term
	for _, i := range e.inputs {
		ts = append(ts, i.t)
	}
	ok := false
	for _, lim := range []int64{40, 300, 5000, 100000, -1} {
		cj := conj
		if lim >= 0 {
			cj = append([]*Term{}, conj...)
			for _, i := range e.inputs {
				if i.arr != nil {
					cj = append(cj, c.Ule(i.t, c.I64(lim)))
				}
			}
		}
		v, r := e.s.Model(cj, ts)
		if r == Sat {
			vals = v
			conj = cj
			ok = true
			break
		}
	}
	if !ok {
		return nil
	}
	for k, t := range ts {
		if t.w > 0 {
			conj = append(conj, c.Eq(t, c.BV(t.w, vals[k])))
		} else if vals[k] == 1 {
			conj = append(conj, t)
		} else {
			conj = append(conj, c.Not(t))
		}
	}
	m := map[string]string{}
	var bt []*Term
	type span struct {
		i    *Input
		a, n int
		more int // octets beyond those the solver is asked for
	}
	var sp []span
	for k, i := range e.inputs {
		if i.arr == nil {
			m[i.Name] = fmt.Sprintf("%s:%d", i.Kind, vals[k])
			continue
		}
		n, more := vals[k], 0
		if n > 6000 {
			n, more = 6000, int(min(n, 200000)-6000)
		}
		sp = append(sp, span{i, len(bt), int(n), more})
		for j := 0; j < int(n); j++ {
			bt = append(bt, c.Select(i.arr, c.I64(int64(j))))
		}
	}
	if len(bt) > 0 {
		bv, r := e.s.Model(conj, bt)
		if r != Sat {
			return nil
		}
		for _, s := range sp {
			b := make([]byte, s.n)
			for j := range b {
				b[j] = byte(bv[s.a+j])
			}
			m[s.i.Name] = "bytes:" + hex.EncodeToString(b) + strings.Repeat("00", s.more)
		}
	} else {
		for _, s := range sp {
			m[s.i.Name] = "bytes:"
		}
	}
	return m
}

func (e *Engine) symBytes(n string) *VBytes {
	l := e.c.Var(n+".len", 64)
	e.axiom(e.c.Ult(l, e.c.I64(1<<48)))
	a := e.c.AVar(n)
	e.input(n, "bytes", l, a)
	return &VBytes{arr: a, off: e.c.I64(0), len: l}
}

// opaque args: unwrap interfaces.
func (e *Engine) opqArgs(st *State, v Val) []Val {
	var out []Val
	for _, a := range e.variadic(st, v) {
		a = e.res(st, a)
		if i, ok := a.(*VIface); ok {
			a = e.res(st, i.v)
		}
		switch x := a.(type) {
		case *VSlice:
			a = e.asStr(st, x)
		case *VBytes:
			a = e.asStr(st, x)
		case *VPtr:
			panic(unsup("pointer passed to an opaque function"))
		}
		out = append(out, a)
	}
	return out
}

func init() {
	I := intrinsics
	V := "gpgverif/harness/verif."
	scalar := func(kind string, w int) intr {
		return func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
			n := e.litArg(st, a[0])
			t := e.c.Var(n, w)
			e.input(n, kind, t, nil)
			return ret(st, t)
		}
	}
	I[V+"Bool"] = scalar("bool", 0)
	I[V+"U8"] = scalar("u8", 8)
	I[V+"U16"] = scalar("u16", 16)
	I[V+"U32"] = scalar("u32", 32)
	I[V+"I64"] = scalar("i64", 64)
	I[V+"Int"] = scalar("i64", 64)
	I[V+"Bytes"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return ret(st, e.symBytes(e.litArg(st, a[0])))
	}
	I[V+"BytesBy"] = I[V+"Bytes"]
	I[V+"String"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return ret(st, one(Seg{k: sBytes, b: e.symBytes(e.litArg(st, a[0]))}))
	}
	I[V+"Bound"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return ret(st, e.c.Bool(e.bound[e.litArg(st, a[0])]))
	}
	I[V+"Symbolic"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out { return ret(st, e.c.tt) }
	I[V+"Undecided"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		panic(unsup("%s", e.litArg(st, a[0])))
	}
	I[V+"Assume"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		t := e.term(st, a[0])
		if !e.sat(st, t) {
			return nil
		}
		st.assume(t)
		return ret(st)
	}
	I[V+"Cases"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		n := e.term(st, a[0])
		if e.caseIdx < 0 {
			panic(caseReq{int(n.val)})
		}
		return ret(st, e.c.I64(int64(e.caseIdx)))
	}
	I[V+"Pin"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		// an assumption about one octet of an input, made before anything is executed
		b, ok := e.res(st, a[0]).(*VBytes)
		i, x := e.term(st, a[1]), e.term(st, a[2])
		if !ok || b.arr == nil || b.arr.op != OAUF || !i.IsConst() || !x.IsConst() || !b.off.IsConst() || b.off.val != 0 {
			panic(unsup("Pin of anything but an input"))
		}
		t := e.c.Select(b.arr, i)
		if t.op != OUF {
			panic(unsup("octet pinned twice"))
		}
		e.axiom(e.c.Eq(t, x))
		e.c.known[t] = x
		q := e.c.Slt(i, b.len)
		if !e.sat(st, q) {
			return nil
		}
		e.axiom(q)
		st.assume(q)
		return ret(st)
	}
	I[V+"Fixed"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return ret(st, e.c.Bool(e.term(st, a[0]).IsConst()))
	}
	I[V+"Case"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		// Case(b): splits the analysis on b and returns it as a constant
		t := e.term(st, a[0])
		switch e.decide(st, t) {
		case 1:
			return ret(st, e.c.tt)
		case 0:
			return ret(st, e.c.ff)
		}
		panic(forkReq{t})
	}
	I[V+"CheckErr"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		n := e.litArg(st, a[0])
		bad := e.term(st, a[2])
		q := e.c.Eq(e.c.Not(e.eqNil(a[1])), bad)
		e.report(st, "err", n, e.must(st.pc.list(), q, "error reported exactly when the specification requires it"))
		e.reach++
		return ret(st)
	}
	I[V+"Check"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		f, n := e.litArg(st, a[0]), e.litArg(st, a[1])
		e.report(st, f, n, e.must(st.pc.list(), e.term(st, a[2]), "assertion"))
		e.reach++
		return ret(st)
	}
	I[V+"CheckItem"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		n := e.litArg(st, a[0])
		e.cmpItem(st, st.pc.list(), n, a[1], a[2])
		e.reach++
		return ret(st)
	}
	I[V+"CheckItems"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		n := e.litArg(st, a[0])
		x, y := e.res(st, a[1]), e.res(st, a[2])
		e.cmpItems(st, st.pc.list(), n, e.asList(st, x), e.asList(st, y))
		e.reach++
		return ret(st)
	}
	I[V+"CheckStr"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		f, n := e.litArg(st, a[0]), e.litArg(st, a[1])
		x, y := e.str(st, a[2]), e.str(st, a[3])
		e.cmpStr(st, f, n, x, y)
		e.reach++
		return ret(st)
	}
	I[V+"CheckBytes"] = I[V+"CheckStr"]
	I[V+"OpaqueBool"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		n, ts := flats(e.opqArgs(st, a[1])...)
		return ret(st, e.c.UF("opq:"+e.litArg(st, a[0])+"@"+n, 0, ts...))
	}
	ou := func(w int) intr {
		return func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
			n, ts := flats(e.opqArgs(st, a[1])...)
			return ret(st, e.c.UF("opq:"+e.litArg(st, a[0])+"@"+n, w, ts...))
		}
	}
	I[V+"OpaqueU8"] = ou(8)
	I[V+"OpaqueU32"] = ou(32)
	I[V+"OpaqueString"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return ret(st, opq("opq:"+e.litArg(st, a[0]), e.opqArgs(st, a[1])...))
	}
	I[V+"OpaqueErr"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return ret(st, &VErr{msg: opq("opq:"+e.litArg(st, a[0]), e.opqArgs(st, a[1])...), is: map[string]*Term{}})
	}
	I[V+"OpaqueBytes"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		// n opaque octets
		k := e.term(st, a[1])
		n, ts := flats(e.opqArgs(st, a[2])...)
		return ret(st, &VBytes{arr: e.c.AVar("opq:"+e.litArg(st, a[0])+"@"+n, ts...), off: e.c.I64(0), len: k})
	}
	I[V+"Repo"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out { return ret(st, lit("")) }
}

// extMethod dispatches method calls on modelled objects behind interfaces.
func (e *Engine) extMethod(st *State, recv Val, x *VExt, name string, args []Val, in ssa.Instruction) []Out {
	if h, ok := extMethods[x.kind+"."+name]; ok {
		e.trusted["interface method "+x.kind+"."+name] = true
		return h(e, st, append([]Val{recv}, args...), in)
	}
	if x.kind == "buffer" {
		if h, ok := intrinsics["(*bytes.Buffer)."+name]; ok {
			return h(e, st, append([]Val{recv}, args...), in)
		}
	}
	if x.kind == "rdr" {
		if h, ok := intrinsics["(*bytes.Reader)."+name]; ok {
			return h(e, st, append([]Val{recv}, args...), in)
		}
	}
	panic(unsup("method %s of modelled %s", name, x.kind))
}

var extMethods = map[string]intr{}

func (e *Engine) intrClosure(st *State, f *VClosure, args []Val, in ssa.Instruction) []Out {
	if strings.HasPrefix(f.intr, "errs.") {
		return ret(st)
	}
	panic(unsup("call of modelled closure %s", f.intr))
}
