package main

// Contracts assumed for functions outside the repository (standard library and
// third-party modules). Every entry used in a run is listed as trusted in the evidence.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intr = func(e *Engine, st *State, args []Val, in ssa.Instruction) []Out

var intrinsics = map[string]intr{}

func ret(st *State, vs ...Val) []Out { return []Out{{st, vs}} }

var extPkg = types.NewPackage("ext", "ext")
var extTypes = map[string]types.Type{}

func init() {
	for _, n := range []string{"reader", "readcloser", "writer", "client", "response", "ctx"} {
		extTypes[n] = types.NewNamed(types.NewTypeName(token.NoPos, extPkg, n, nil), types.NewStruct(nil, nil), nil)
	}
}

// extIface wraps a modelled object as an interface value.
func (e *Engine) extIface(st *State, kind string, x *VExt) Val {
	return &VIface{t: extTypes[kind], v: &VPtr{obj: e.alloc(st, x)}}
}

func (e *Engine) variadic(st *State, v Val) []Val {
	v = e.res(st, v)
	l := e.asList(st, v)
	var out []Val
	for _, g := range l.segs {
		if g.k != lElem {
			panic(unsup("variadic argument of symbolic length"))
		}
		out = append(out, g.v)
	}
	return out
}
func (e *Engine) litArg(st *State, v Val) string {
	s, ok := e.res(st, v).(*SStr)
	if ok {
		if l, ok := s.isLit(); ok {
			return l
		}
	}
	panic(unsup("literal string expected"))
}
func (e *Engine) str(st *State, v Val) *SStr {
	return e.asStr(st, e.res(st, e.sameOctets(st, v)))
}

// sameOctets drops a choice between octets and nil where the octets are none
// whenever it is nil.
func (e *Engine) sameOctets(st *State, v Val) Val {
	x, ok := v.(*VIte)
	if !ok {
		return v
	}
	b, none := x.a, e.c.Not(x.c)
	if _, isNil := b.(Nil); isNil {
		b, none = x.b, x.c
	} else if _, isNil := x.b.(Nil); !isNil {
		return v
	}
	w, ok := b.(*VBytes)
	if !ok {
		return v
	}
	if e.s.Check(append(st.pc.list(), none, e.c.Not(e.c.Eq(w.len, e.c.I64(0))))) != Unsat {
		return v
	}
	return b
}
func (e *Engine) term(st *State, v Val) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	t, ok := e.res(st, v).(*Term)
	if !ok {
		panic(unsup("number expected, have %T", v))
	}
	return t
}

// errIs returns the condition under which err is target (both resolved).
func (e *Engine) errIs(st *State, err, target Val) *Term {
	if x, ok := err.(*VIte); ok {
		return e.c.Ite(x.c, e.errIs(st, x.a, target), e.errIs(st, x.b, target))
	}
	if _, ok := err.(Nil); ok {
		_, n := target.(Nil)
		return e.c.Bool(n)
	}
	t, ok := target.(*VErr)
	if !ok {
		panic(unsup("errors.Is with target %T", target))
	}
	x, ok := err.(*VErr)
	if !ok {
		panic(unsup("errors.Is of %T", err))
	}
	if len(t.is) != 1 {
		panic(unsup("errors.Is with a compound target"))
	}
	for k := range t.is {
		if c, ok := x.is[k]; ok {
			return c
		}
	}
	return e.c.ff
}

func unionIs(e *Engine, a, b map[string]*Term) map[string]*Term {
	r := map[string]*Term{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		if o, ok := r[k]; ok {
			r[k] = e.c.Or(o, v)
		} else {
			r[k] = v
		}
	}
	return r
}

// wrapErr models errs.New / errs.Wrap.
func (e *Engine) wrapErr(st *State, msg *SStr, is map[string]*Term, opts Val) *VErr {
	cause := Val(Nil{})
	for _, o := range e.variadic(st, opts) {
		c, ok := e.res(st, o).(*VClosure)
		if !ok || c.intr == "" {
			panic(unsup("error option"))
		}
		if c.intr == "errs.WithCause" {
			cause = e.res(st, c.args[0])
		}
	}
	switch x := cause.(type) {
	case Nil:
		return &VErr{msg: msg, is: is}
	case *VErr:
		m := catStr(msg, lit(": "), errMsg(x))
		return &VErr{msg: m, is: unionIs(e, is, x.is)}
	}
	panic(unsup("error cause %T", cause))
}
func errMsg(x *VErr) *SStr {
	if x.msg == nil {
		return one(Seg{k: sOpq, s: "errmsg"})
	}
	return x.msg
}

func hasMethod(p *ssa.Program, t types.Type, name string) *ssa.Function {
	ms := p.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return p.MethodValue(sel)
}

// format models fmt's Sprintf for the verbs in use.
func (e *Engine) format(st *State, f string, args []Val, in ssa.Instruction) []Out {
	// literal texts only
	var ls []interface{}
	for _, a := range args {
		if x, ok := e.res(st, a).(*VIface); ok && types.Identical(x.t, types.Typ[types.String]) {
			if t, ok := e.res(st, x.v).(*SStr); ok {
				if l, ok := t.isLit(); ok {
					ls = append(ls, l)
				}
			}
		}
	}
	if len(ls) == len(args) && len(ls) > 0 {
		return ret(st, lit(fmt.Sprintf(f, ls...)))
	}
	type piece struct {
		s    string
		verb bool
	}
	var ps []piece
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			ps = append(ps, piece{f[i:], false})
			break
		}
		if j > 0 {
			ps = append(ps, piece{f[i : i+j], false})
		}
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			panic(unsup("format %q", f))
		}
		if f[k] == '%' {
			ps = append(ps, piece{"%", false})
		} else {
			ps = append(ps, piece{f[i : k+1], true})
		}
		i = k + 1
	}
	n := 0
	for _, p := range ps {
		if p.verb {
			n++
		}
	}
	if n != len(args) {
		panic(unsup("format %q with %d arguments", f, len(args)))
	}
	for i := range args {
		args[i] = e.res(st, args[i])
	}
	outs := []Out{{st, []Val{lit("")}}}
	ai := 0
	for _, p := range ps {
		if !p.verb {
			for i := range outs {
				outs[i].rets = []Val{catStr(outs[i].rets[0].(*SStr), lit(p.s))}
			}
			continue
		}
		var next []Out
		for _, o := range outs {
			for _, r := range e.formatArg(o.st, p.s, args[ai], in) {
				next = append(next, Out{r.st, []Val{catStr(o.rets[0].(*SStr), r.rets[0].(*SStr))}})
			}
		}
		outs = next
		ai++
	}
	return outs
}

// hexText is the octets in hexadecimal with sep between them.
func (e *Engine) hexText(st *State, b *VBytes, sep string) *SStr {
	c := e.c
	arr := e.arrOf(st, b)
	hex := func(i *Term) *SStr {
		return c.Fmt("%02x!u", c.Zext(c.Select(arr, c.Add(b.off, i)), 64))
	}
	u := e.index("kx")
	tail := Seg{k: sFold, t: c.Sub(b.len, c.I64(1)), u: u, a: catStr(lit(sep), hex(c.Add(u, c.I64(1))))}
	return c.mergeVal(c.Eq(b.len, c.I64(0)), lit(""), catStr(hex(c.I64(0)), one(tail))).(*SStr)
}

func (e *Engine) formatArg(st *State, verb string, a Val, in ssa.Instruction) []Out {
	c := e.c
	vb := verb[len(verb)-1]
	switch x := a.(type) {
	case Nil:
		if vb == 'v' {
			return ret(st, lit("<nil>"))
		}
		return ret(st, lit("%!"+string(vb)+"(<nil>)"))
	case *VErr:
		if vb == 'v' || vb == 's' {
			return ret(st, errMsg(x))
		}
	case *VIface:
		if vb == 's' || vb == 'v' {
			for _, m := range []string{"Error", "String"} {
				if fn := hasMethod(e.P.prog, x.t, m); fn != nil {
					sig := fn.Signature
					if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
						return e.callFn(st, fn, []Val{x.v}, nil, in)
					}
				}
			}
		}
		v := e.res(st, x.v)
		u := x.t.Underlying()
		switch {
		case width(u) > 0 && !isString(u):
			t, ok := v.(*Term)
			if !ok {
				break
			}
			sg := isSigned(u)
			w := t
			if sg {
				w = c.Sext(t, 64)
			} else {
				w = c.Zext(t, 64)
			}
			switch vb {
			case 'd', 'v':
				if verb == "%d" || verb == "%v" {
					if !sg && t.w == 64 {
						return ret(st, c.Fmt("%d!u", w))
					}
					return ret(st, c.Dec(w))
				}
			case 'c':
				if verb == "%c" {
					return ret(st, e.runeStr(w))
				}
			case 'U', 'q':
				return ret(st, c.Fmt(verb, w))
			}
			if sg && !c.nonneg(w) && e.decide(st, c.Sle(c.I64(0), w)) != 1 {
				return ret(st, c.Fmt(verb, w))
			}
			return ret(st, c.Fmt(verb+"!u", w))
		case isString(u) || byteElem(x.t):
			s := e.asStr(st, v)
			switch verb {
			case "%s":
				return ret(st, s)
			case "%v":
				if isString(u) {
					return ret(st, s)
				}
			case "%q", "%x", "%X", "% x", "% X", "%#x":
				if l, ok := s.isLit(); ok {
					return ret(st, lit(fmt.Sprintf(verb, l)))
				}
				if b, ok := v.(*VBytes); ok && (verb == "% x" || verb == "%x") && st != nil {
					return ret(st, e.hexText(st, b, map[string]string{"% x": " "}[verb]))
				}
				return ret(st, one(Seg{k: sOpq, s: "fmt" + verb, args: []Val{s}}))
			}
		case isFloat(u):
			return ret(st, one(Seg{k: sOpq, s: "fmt" + verb, args: []Val{v}}))
		}
		if t, ok := v.(*Term); ok && t.w == 0 && (verb == "%v" || verb == "%t") {
			return ret(st, c.strIte(t, lit("true"), lit("false")))
		}
		e.nfmt++
		return ret(st, opq(fmt.Sprintf("fmt?%d", e.nfmt)))
	}
	e.nfmt++
	return ret(st, opq(fmt.Sprintf("fmt?%d", e.nfmt)))
}

func (e *Engine) runeStr(t *Term) *SStr { // t: 64-bit
	if t.IsConst() {
		return lit(string(rune(sx(t.val, 64))))
	}
	return one(Seg{k: sRune, t: t})
}

// prefixTerm: does s start with the literal p?
func (e *Engine) prefixTerm(st *State, s *SStr, p string) *Term {
	c := e.c
	if p == "" {
		return c.tt
	}
	if len(s.segs) == 0 {
		return c.ff
	}
	g := s.segs[0]
	rest := &SStr{segs: s.segs[1:]}
	switch g.k {
	case sLit:
		n := len(g.s)
		if n >= len(p) {
			return c.Bool(strings.HasPrefix(g.s, p))
		}
		if p[:n] != g.s {
			return c.ff
		}
		return e.prefixTerm(st, rest, p[n:])
	case sBytes:
		r := c.Ule(c.I64(int64(len(p))), g.b.len)
		for i := 0; i < len(p); i++ {
			r = c.And(r, c.Eq(c.Select(e.arrOf(st, g.b), c.Add(g.b.off, c.I64(int64(i)))), c.BV(8, uint64(p[i]))))
		}
		if len(rest.segs) == 0 {
			return r
		}
	case sIte:
		return c.Ite(g.t, e.prefixTerm(st, catStr(g.a, rest), p), e.prefixTerm(st, catStr(g.c, rest), p))
	}
	n, ts := flat(s)
	return c.UF("hasprefix@"+p+"@"+n, 0, ts...)
}

// opq builds an opaque string function of values.
func opq(name string, args ...Val) *SStr { return one(Seg{k: sOpq, s: name, args: args}) }

func litFn(name string, f func([]string) string) intr {
	return func(e *Engine, st *State, args []Val, in ssa.Instruction) []Out {
		vs := make([]*SStr, len(args))
		for i, a := range args {
			vs[i] = e.str(st, a)
		}
		return ret(st, e.mapLit(name, f, vs))
	}
}

// mapLit applies a function of strings to literals, through alternatives.
func (e *Engine) mapLit(name string, f func([]string) string, vs []*SStr) *SStr {
	ss := make([]string, len(vs))
	as := make([]Val, len(vs))
	alt := -1
	for i, s := range vs {
		l, ok := s.isLit()
		ss[i], as[i] = l, s
		switch {
		case ok:
		case alt == -1 && len(s.segs) == 1 && (s.segs[0].k == sIte || s.segs[0].k == sTab):
			alt = i
		default:
			return opq(name, as...)
		}
	}
	if alt == -1 {
		return lit(f(ss))
	}
	with := func(s *SStr) *SStr {
		ws := append([]*SStr{}, vs...)
		ws[alt] = s
		return e.mapLit(name, f, ws)
	}
	g := vs[alt].segs[0]
	if g.k == sIte {
		return e.c.strIte(g.t, with(g.a), with(g.c))
	}
	var tab []tabEnt
	for _, en := range g.tab {
		l, _ := with(lit(en.s)).isLit()
		tab = append(tab, tabEnt{en.k, l})
	}
	d, _ := with(lit(g.s)).isLit()
	return e.c.strTab(tab, d, g.t)
}
func litPred(name string, f func([]string) bool) intr {
	return func(e *Engine, st *State, args []Val, in ssa.Instruction) []Out {
		var ss []string
		var vs []Val
		all := true
		for _, a := range args {
			s := e.str(st, a)
			l, ok := s.isLit()
			if !ok {
				all = false
			}
			ss = append(ss, l)
			vs = append(vs, s)
		}
		if all {
			return ret(st, e.c.Bool(f(ss)))
		}
		n, ts := flats(vs...)
		return ret(st, e.c.UF(name+"@"+n, 0, ts...))
	}
}

func (e *Engine) bufGet(st *State, p Val, in ssa.Instruction) *VExt {
	p = e.res(st, p)
	if _, ok := p.(Nil); ok {
		e.require(st, e.c.ff, "nil buffer", pos(e, in))
	}
	x, ok := e.res(st, e.load(st, p, in)).(*VExt)
	if !ok || x.kind != "buffer" {
		panic(unsup("buffer expected"))
	}
	return x
}
func (e *Engine) bufAppend(st *State, p Val, s *SStr, in ssa.Instruction) {
	x := e.bufGet(st, p, in)
	e.store(st, e.res(st, p), &VExt{"buffer", []Val{catStr(x.f[0].(*SStr), s)}}, in)
}

// writeTo appends to a modelled writer (an interface value).
func (e *Engine) writeTo(st *State, w Val, s *SStr, in ssa.Instruction) {
	w = e.res(st, w)
	i, ok := w.(*VIface)
	if !ok {
		panic(unsup("writer %T", w))
	}
	e.bufAppend(st, i.v, s, in)
}

func init() {
	I := intrinsics
	// --- errors
	I["errors.New"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		e.nloops++
		return ret(st, &VErr{msg: e.str(st, a[0]), is: map[string]*Term{fmt.Sprintf("err#%d", e.nloops): e.c.tt}})
	}
	E := "github.com/spiegel-im-spiegel/errs."
	I[E+"New"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		m := e.str(st, a[0])
		if minLen(m) == 0 {
			switch e.decide(st, e.c.Eq(e.strLen(m), e.c.I64(0))) {
			case 1:
				return ret(st, Nil{})
			case -1:
				panic(forkReq{e.c.Eq(e.strLen(m), e.c.I64(0))})
			}
		}
		return ret(st, e.wrapErr(st, m, nil, a[1]))
	}
	I[E+"Wrap"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		v := e.res(st, a[0])
		switch x := v.(type) {
		case Nil:
			return ret(st, Nil{})
		case *VErr:
			return ret(st, e.wrapErr(st, errMsg(x), x.is, a[1]))
		case *VIface:
			return ret(st, &VErr{msg: opq("errmsg"), is: map[string]*Term{}})
		}
		panic(unsup("errs.Wrap of %T", v))
	}
	I[E+"Wrapf"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		v := e.res(st, a[0])
		switch x := v.(type) {
		case Nil:
			return ret(st, Nil{})
		case *VErr:
			return ret(st, &VErr{msg: opq("errmsg"), is: x.is})
		}
		panic(unsup("errs.Wrapf of %T", v))
	}
	is := func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return ret(st, e.errIs(st, a[0], e.res(st, a[1])))
	}
	I[E+"Is"] = is
	I["errors.Is"] = is
	clo := func(n string) intr {
		return func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
			return ret(st, &VClosure{intr: n, args: a})
		}
	}
	I[E+"WithCause"] = clo("errs.WithCause")
	I[E+"WithContext"] = clo("errs.WithContext")

	// --- fmt
	I["fmt.Sprintf"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return e.format(st, e.litArg(st, a[0]), e.variadic(st, a[1]), in)
	}
	I["fmt.Errorf"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		f := e.litArg(st, a[0])
		vs := e.variadic(st, a[1])
		r := &VErr{msg: opq("errmsg"), is: map[string]*Term{}}
		if strings.Contains(f, "%w") {
			for _, v := range vs {
				if x, ok := e.res(st, v).(*VErr); ok {
					r.is = unionIs(e, r.is, x.is)
				}
			}
		}
		return ret(st, r)
	}
	I["fmt.Fprintf"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		f := e.litArg(st, a[1])
		vs := e.variadic(st, a[2])
		w := e.res(st, a[0])
		outs := e.format(st, f, vs, in)
		for i, o := range outs {
			s := o.rets[0].(*SStr)
			e.writeTo(o.st, w, s, in)
			outs[i].rets = []Val{e.strLen(s), Nil{}}
		}
		return outs
	}
	fprint := func(ln bool) intr {
		return func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
			vs := e.variadic(st, a[1])
			w := e.res(st, a[0])
			var f []string
			for range vs {
				f = append(f, "%v")
			}
			sep, end := "", ""
			if ln {
				sep, end = " ", "\n"
			} else if len(vs) > 1 {
				panic(unsup("fmt.Fprint of several values"))
			}
			outs := e.format(st, strings.Join(f, sep)+end, vs, in)
			for i, o := range outs {
				s := o.rets[0].(*SStr)
				e.writeTo(o.st, w, s, in)
				outs[i].rets = []Val{e.strLen(s), Nil{}}
			}
			return outs
		}
	}
	I["fmt.Fprintln"] = fprint(true)
	I["fmt.Fprint"] = fprint(false)
	I["fmt.Sprint"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		vs := e.variadic(st, a[0])
		if len(vs) != 1 {
			panic(unsup("fmt.Sprint of several values"))
		}
		return e.format(st, "%v", vs, in)
	}

	// --- strconv
	I["strconv.Itoa"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return ret(st, e.c.Dec(e.term(st, a[0])))
	}
	fi := func(sg bool) intr {
		return func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
			t := e.term(st, a[0])
			b := e.term(st, a[1])
			if !b.IsConst() {
				panic(unsup("FormatInt base"))
			}
			nn := e.c.nonneg(t) || e.decide(st, e.c.Sle(e.c.I64(0), t)) == 1
			switch b.val {
			case 10:
				if sg || nn {
					return ret(st, e.c.Dec(t))
				}
				return ret(st, e.c.Fmt("%d!u", t))
			case 16:
				if sg && !nn {
					return ret(st, e.c.Fmt("%x", t))
				}
				return ret(st, e.c.Fmt("%x!u", t))
			case 2, 8:
				v := map[uint64]string{2: "%b", 8: "%o"}[b.val]
				if sg && !nn {
					return ret(st, e.c.Fmt(v, t))
				}
				return ret(st, e.c.Fmt(v+"!u", t))
			}
			panic(unsup("FormatInt base"))
		}
	}
	I["strconv.FormatInt"] = fi(true)
	I["strconv.FormatUint"] = fi(false)
	I["strconv.Quote"] = litFn("quote", func(s []string) string { return strconv.Quote(s[0]) })

	// --- strings
	I["strings.Repeat"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		s := e.str(st, a[0])
		n := e.term(st, a[1])
		e.require(st, e.c.Sle(e.c.I64(0), n), "negative strings.Repeat count", pos(e, in))
		if n.IsConst() && n.val <= 64 {
			r := lit("")
			for i := uint64(0); i < n.val; i++ {
				r = catStr(r, s)
			}
			return ret(st, r)
		}
		if l, ok := s.isLit(); ok && l == "" {
			return ret(st, s)
		}
		return ret(st, opq("repeat", s, n))
	}
	I["strings.Join"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		vs := e.variadic(st, a[0])
		sep := e.str(st, a[1])
		var xs []*SStr
		for _, v := range vs {
			xs = append(xs, e.str(st, v))
		}
		r := lit("")
		for i, s := range xs {
			if i > 0 {
				r = catStr(r, sep)
			}
			r = catStr(r, s)
		}
		return ret(st, r)
	}
	I["strings.HasPrefix"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		s, p := e.str(st, a[0]), e.str(st, a[1])
		if l, ok := p.isLit(); ok {
			return ret(st, e.prefixTerm(st, s, l))
		}
		n, ts := flats(s, p)
		return ret(st, e.c.UF("strings.HasPrefix@"+n, 0, ts...))
	}
	I["strings.HasSuffix"] = litPred("strings.HasSuffix", func(s []string) bool { return strings.HasSuffix(s[0], s[1]) })
	I["strings.Contains"] = litPred("strings.Contains", func(s []string) bool { return strings.Contains(s[0], s[1]) })
	I["strings.EqualFold"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		s, p := e.str(st, a[0]), e.str(st, a[1])
		if p.key() < s.key() {
			s, p = p, s
		}
		return litPred("strings.EqualFold", func(s []string) bool { return strings.EqualFold(s[0], s[1]) })(e, st, []Val{s, p}, in)
	}
	I["strings.ToLower"] = litFn("strings.ToLower", func(s []string) string { return strings.ToLower(s[0]) })
	I["strings.ToUpper"] = litFn("strings.ToUpper", func(s []string) string { return strings.ToUpper(s[0]) })
	I["strings.TrimSpace"] = litFn("strings.TrimSpace", func(s []string) string { return strings.TrimSpace(s[0]) })
	I["strings.TrimPrefix"] = litFn("strings.TrimPrefix", func(s []string) string { return strings.TrimPrefix(s[0], s[1]) })
	I["strings.TrimSuffix"] = litFn("strings.TrimSuffix", func(s []string) string { return strings.TrimSuffix(s[0], s[1]) })
	I["strings.TrimRight"] = litFn("strings.TrimRight", func(s []string) string { return strings.TrimRight(s[0], s[1]) })
	I["strings.TrimLeft"] = litFn("strings.TrimLeft", func(s []string) string { return strings.TrimLeft(s[0], s[1]) })
	I["strings.Trim"] = litFn("strings.Trim", func(s []string) string { return strings.Trim(s[0], s[1]) })

	// --- bytes
	I["bytes.Equal"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		x, y := e.str(st, a[0]), e.str(st, a[1])
		return ret(st, e.bytesEq(st, x, y))
	}
	newrd := func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		s := e.str(st, a[0])
		return ret(st, &VPtr{obj: e.alloc(st, &VExt{"rdr", []Val{s}})})
	}
	I["bytes.NewReader"] = newrd
	I["strings.NewReader"] = newrd
	I["bytes.NewBuffer"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return ret(st, &VPtr{obj: e.alloc(st, &VExt{"buffer", []Val{e.str(st, a[0])}})})
	}
	I["bytes.NewBufferString"] = I["bytes.NewBuffer"]
	for _, t := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		I[t+"WriteString"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
			s := e.str(st, a[1])
			e.bufAppend(st, a[0], s, in)
			return ret(st, e.strLen(s), Nil{})
		}
		I[t+"Write"] = I[t+"WriteString"]
		I[t+"WriteByte"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
			t := e.term(st, a[1])
			s := one(Seg{k: sByte, t: t})
			if t.IsConst() {
				s = lit(string([]byte{byte(t.val)}))
			}
			e.bufAppend(st, a[0], s, in)
			return ret(st, Nil{})
		}
		I[t+"WriteRune"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
			s := e.runeStr(e.c.Sext(e.term(st, a[1]), 64))
			e.bufAppend(st, a[0], s, in)
			return ret(st, e.strLen(s), Nil{})
		}
		I[t+"String"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
			p := e.res(st, a[0])
			if _, ok := p.(Nil); ok {
				return ret(st, lit("<nil>"))
			}
			return ret(st, e.bufGet(st, p, in).f[0])
		}
		I[t+"Bytes"] = I[t+"String"]
		I[t+"Grow"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out { return ret(st) }
		I[t+"Len"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
			return ret(st, e.strLen(e.bufGet(st, a[0], in).f[0].(*SStr)))
		}
		I[t+"Reset"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
			e.store(st, e.res(st, a[0]), &VExt{"buffer", []Val{lit("")}}, in)
			return ret(st)
		}
	}
	I["(*bytes.Reader).WriteTo"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		p := e.res(st, a[0]).(*VPtr)
		s := e.obj(st, p.obj).(*VExt).f[0].(*SStr)
		w := e.res(st, a[1])
		iw, ok := w.(*VIface)
		if !ok {
			panic(unsup("writer"))
		}
		if ex, ok := e.extObj(st, iw.v); ok && ex.kind == "failwriter" {
			// a writer that may fail: the bytes it takes are recorded
			bad := ex.f[1].(*Term)
			r := []Out{}
			for _, d := range []*Term{bad, e.c.Not(bad)} {
				if !e.sat(st, d) {
					continue
				}
				ns := st.fork()
				ns.assume(d)
				if d == bad {
					r = append(r, Out{ns, []Val{e.c.Var("werr.n", 64), &VErr{msg: lit("write error"), is: map[string]*Term{}}}})
				} else {
					o := iw.v.(*VPtr)
					ns.heap[o.obj] = &VExt{"failwriter", []Val{catStr(ex.f[0].(*SStr), s), bad}}
					r = append(r, Out{ns, []Val{e.strLen(s), Nil{}}})
				}
			}
			return r
		}
		e.bufAppend(st, iw.v, s, in)
		return ret(st, e.strLen(s), Nil{})
	}

	// --- unicode
	I["unicode/utf8.Valid"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		s := e.str(st, a[0])
		if len(s.segs) == 0 {
			return ret(st, e.c.tt)
		}
		n, ts := flat(s)
		return ret(st, e.c.UF("utf8valid@"+n, 0, ts...))
	}
	I["unicode/utf8.ValidString"] = I["unicode/utf8.Valid"]
	I["unicode.IsControl"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		c := e.c
		t := e.term(st, a[0])
		return ret(st, c.Or(c.Ult(t, c.BV(32, 0x20)), c.And(c.Ule(c.BV(32, 0x7f), t), c.Ult(t, c.BV(32, 0xa0)))))
	}
	I["unicode.IsPrint"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return ret(st, e.c.UF("unicode.IsPrint", 0, e.term(st, a[0])))
	}

	// --- time
	I["time.Unix"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		n := e.term(st, a[1])
		if !n.IsConst() || n.val != 0 {
			panic(unsup("time.Unix with nanoseconds"))
		}
		return ret(st, &VExt{"time", []Val{e.term(st, a[0]), lit("Local")}})
	}
	I["(time.Time).In"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		t, ok := e.res(st, a[0]).(*VExt)
		l, ok2 := e.res(st, a[1]).(*VExt)
		if !ok || !ok2 || !strings.HasPrefix(l.kind, "loc:") || t.kind != "time" {
			panic(unsup("time.In"))
		}
		return ret(st, &VExt{"time", []Val{t.f[0], lit(l.kind[4:])}})
	}
	loc := func(n string) intr {
		return func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
			t, ok := e.res(st, a[0]).(*VExt)
			if !ok || t.kind != "time" {
				panic(unsup("time"))
			}
			return ret(st, &VExt{"time", []Val{t.f[0], lit(n)}})
		}
	}
	I["(time.Time).UTC"] = loc("UTC")
	I["(time.Time).Local"] = loc("Local")
	I["(time.Time).Unix"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		t, ok := e.res(st, a[0]).(*VExt)
		if !ok || t.kind != "time" {
			panic(unsup("time"))
		}
		return ret(st, t.f[0])
	}
	I["(time.Time).Format"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		t, ok := e.res(st, a[0]).(*VExt)
		if !ok || t.kind != "time" {
			panic(unsup("time"))
		}
		return ret(st, opq("timefmt", t.f[0], t.f[1], e.str(st, a[1])))
	}
}

// bytesEq compares two byte contents.
func (e *Engine) bytesEq(st *State, x, y *SStr) *Term {
	c := e.c
	lx, okx := x.isLit()
	ly, oky := y.isLit()
	if okx && oky {
		return c.Bool(lx == ly)
	}
	if okx {
		x, y = y, x
		ly, oky = lx, true
	}
	if oky {
		r := c.Eq(e.strLen(x), c.I64(int64(len(ly))))
		if r.IsFalse() {
			return r
		}
		if len(ly) <= 64 {
			for i := 0; i < len(ly); i++ {
				r = c.And(r, c.Eq(e.strIndex(st, x, c.I64(int64(i))), c.BV(8, uint64(ly[i]))))
			}
			return r
		}
	}
	return e.strEqTerm(st, x, y)
}
