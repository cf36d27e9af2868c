package main

// Loops: unrolling when every exit test is concrete, otherwise an exact fold
// summary (counted loops), otherwise an inductive generic iteration that is
// coupled with the corresponding loop of the specification.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loc struct {
	reg  ssa.Value
	obj  int
	path []int
}

func (l loc) String() string {
	if l.reg != nil {
		return "reg:" + l.reg.Name()
	}
	return fmt.Sprintf("obj%d%v", l.obj, l.path)
}

type locRec struct {
	l    loc
	v0   Val // value at loop entry
	x    Val // value at the head of the generic iteration
	kind string
	t    types.Type
}
type LoopRec struct {
	prev  *LoopRec
	id    int
	where string
	k     *Term
	locs  []*locRec
	pre   *Item
	conts []*Item
	pc0   *PC
	syms  map[*Term]bool
	mark  int // term counter before the loop
	head  *State
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		switch y := v.(type) {
		case *VStruct:
			v = y.f[i]
		case *VArr:
			v = y.e[i]
		case *VExt:
			v = y.f[i]
		case *VIface:
			v = y.v
		case *VTuple:
			v = y.e[i]
		default:
			panic(unsup("getPath into %T", v))
		}
	}
	return v
}
func putPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	i := path[0]
	switch y := v.(type) {
	case *VStruct:
		f := append([]Val{}, y.f...)
		f[i] = putPath(f[i], path[1:], nv)
		return &VStruct{f}
	case *VArr:
		f := append([]Val{}, y.e...)
		f[i] = putPath(f[i], path[1:], nv)
		return &VArr{f}
	case *VExt:
		f := append([]Val{}, y.f...)
		f[i] = putPath(f[i], path[1:], nv)
		return &VExt{y.kind, f}
	case *VTuple:
		f := append([]Val{}, y.e...)
		f[i] = putPath(f[i], path[1:], nv)
		return &VTuple{f}
	case *VIface:
		return &VIface{y.t, putPath(y.v, path[1:], nv)}
	}
	panic(unsup("putPath into %T", v))
}
func (e *Engine) getLoc(it *Item, l loc) Val {
	if l.reg != nil {
		return getPath(it.regs[l.reg], l.path)
	}
	return getPath(e.obj(it.st, l.obj), l.path)
}
func (e *Engine) setLoc(it *Item, l loc, v Val) {
	if l.reg != nil {
		it.regs[l.reg] = putPath(it.regs[l.reg], l.path, v)
		return
	}
	it.st.heap[l.obj] = putPath(e.obj(it.st, l.obj), l.path, v)
}

// diffLocs finds the places in which b differs from a (pre-existing objects and head phis).
func (e *Engine) diffLocs(l *Loop, a, b *Item, add func(loc)) {
	var walk func(base loc, x, y Val)
	walk = func(base loc, x, y Val) {
		if x == y || key(x) == key(y) {
			return
		}
		sub := func(i int) loc {
			return loc{base.reg, base.obj, append(append([]int{}, base.path...), i)}
		}
		switch p := x.(type) {
		case *VStruct:
			if q, ok := y.(*VStruct); ok && len(p.f) == len(q.f) {
				for i := range p.f {
					walk(sub(i), p.f[i], q.f[i])
				}
				return
			}
		case *VArr:
			if q, ok := y.(*VArr); ok && len(p.e) == len(q.e) {
				for i := range p.e {
					walk(sub(i), p.e[i], q.e[i])
				}
				return
			}
		case *VExt:
			if q, ok := y.(*VExt); ok && p.kind == q.kind && len(p.f) == len(q.f) && !strings.HasPrefix(p.kind, "time") {
				for i := range p.f {
					walk(sub(i), p.f[i], q.f[i])
				}
				return
			}
		case *VIface:
			if q, ok := y.(*VIface); ok && types.Identical(p.t, q.t) {
				if _, isp := p.v.(*VPtr); !isp {
					walk(sub(0), p.v, q.v)
					return
				}
			}
		}
		add(base)
	}
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		x, ok1 := a.regs[ph]
		y, ok2 := b.regs[ph]
		if ok1 && ok2 {
			walk(loc{reg: ph}, x, y)
		}
	}
	for id, y := range b.st.heap {
		x, ok := a.st.heap[id]
		if !ok {
			x, ok = e.base[id]
		}
		if !ok {
			continue
		}
		walk(loc{obj: id}, x, y)
	}
}

func strPrefix(p, s *SStr) (*SStr, bool) {
	if len(p.segs) == 0 {
		return s, true
	}
	if len(s.segs) < len(p.segs) {
		return nil, false
	}
	for i, g := range p.segs {
		if s.segs[i].key() == g.key() {
			continue
		}
		if i == len(p.segs)-1 && g.k == sLit && s.segs[i].k == sLit && strings.HasPrefix(s.segs[i].s, g.s) {
			return catStr(lit(s.segs[i].s[len(g.s):]), &SStr{segs: s.segs[i+1:]}), true
		}
		return nil, false
	}
	return &SStr{segs: s.segs[len(p.segs):]}, true
}
func listPrefix(p, s *VList) (*VList, bool) {
	if len(s.segs) < len(p.segs) {
		return nil, false
	}
	for i := range p.segs {
		if lsegKey(p.segs[i]) != lsegKey(s.segs[i]) {
			return nil, false
		}
	}
	return &VList{s.segs[len(p.segs):]}, true
}

// oneIter runs one iteration of a loop from item it (at the head).
func (e *Engine) oneIter(fi *fnInfo, l *Loop, it *Item) *region {
	r := &region{e: e, fi: fi, loop: l}
	r.push(it)
	r.fromHead = true
	e.nodrop++ // an iteration with a path missing summarises nothing
	defer func() { e.nodrop-- }()
	r.run()
	if rotPhi(l) != nil {
		conts := r.conts
		r.conts = nil
		r.constEx = false
		for _, cn := range conts {
			stay, exits := e.splitHead(fi, l, cn)
			r.conts = append(r.conts, stay...)
			r.exits = append(r.exits, exits...)
		}
	}
	return r
}

// rotPhi: the loop is controlled by a flag or by an error: its head does
// nothing but test one of its variables. The test then belongs to the end of
// the iteration before (and to the code before the loop), so that a path that
// sets the flag leaves the loop in the same iteration.
func rotPhi(l *Loop) *ssa.Phi {
	if strings.HasPrefix(fnPkg(l.head.Parent()), "gpgverif/") {
		return nil
	}
	var ph *ssa.Phi
	of := func(v ssa.Value) *ssa.Phi {
		p, ok := v.(*ssa.Phi)
		if !ok || p.Block() != l.head {
			return nil
		}
		return p
	}
	for _, in := range l.head.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op != token.NOT || of(x.X) == nil {
				return nil
			}
			ph = of(x.X)
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			if !ok || !k.IsNil() || of(x.X) == nil {
				return nil
			}
			ph = of(x.X)
		case *ssa.If:
			if p := of(x.Cond); p != nil {
				ph = p
			}
			if l.blocks[l.head.Succs[0]] == l.blocks[l.head.Succs[1]] {
				return nil
			}
		default:
			return nil
		}
	}
	return ph
}

// splitHead evaluates the test of a rotated loop on an item at its head.
func (e *Engine) splitHead(fi *fnInfo, l *Loop, it *Item) (stay, exits []*Item) {
	ph := rotPhi(l)
	h := &region{e: e, fi: fi, loop: &Loop{head: l.head, blocks: map[*ssa.BasicBlock]bool{l.head: true}}}
	h.push(it.clone())
	h.fromHead = true
	h.run()
	for _, x := range h.exits {
		if !l.blocks[x.b] {
			exits = append(exits, x)
			continue
		}
		n := it.clone()
		n.st = x.st
		taken := x.b == l.head.Succs[0]
		switch cond := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If).Cond.(type) {
		case *ssa.Phi:
			n.regs[ph] = e.c.Bool(taken)
		case *ssa.UnOp:
			n.regs[ph] = e.c.Bool(!taken)
		case *ssa.BinOp:
			if (cond.Op == token.EQL) == taken {
				n.regs[ph] = Nil{}
			}
		}
		stay = append(stay, n)
	}
	return stay, exits
}

func (e *Engine) liveAt(fi *fnInfo, items []*Item) []*Item {
	by := map[*ssa.BasicBlock][]*Item{}
	var order []*ssa.BasicBlock
	for _, it := range items {
		live := fi.live[it.b]
		for k := range it.regs {
			if !live[k] {
				delete(it.regs, k)
			}
		}
		if _, ok := by[it.b]; !ok {
			order = append(order, it.b)
		}
		by[it.b] = append(by[it.b], it)
	}
	var out []*Item
	for _, b := range order {
		out = append(out, e.mergeItems(by[b])...)
	}
	return out
}

const maxUnroll = 600

func (e *Engine) handleLoop(r *region, l *Loop, it *Item) {
	if rotPhi(l) != nil {
		stay, exits := e.splitHead(r.fi, l, it)
		for _, x := range exits {
			r.push(x)
		}
		for _, s := range stay {
			e.loopFrom(r, l, s)
		}
		return
	}
	e.loopFrom(r, l, it)
}

func (e *Engine) loopFrom(r *region, l *Loop, it *Item) {
	// 1. unrolling
	cur := []*Item{it.clone()}
	var exits []*Item
	var rets []Out
	var first *region
	ok := true
	for n := 0; len(cur) > 0; n++ {
		if n > maxUnroll {
			ok = false
			break
		}
		var next []*Item
		for _, c := range cur {
			q := e.oneIter(r.fi, l, c)
			if n == 0 {
				first = q
			}
			if len(q.conts) > 0 && !q.constEx {
				ok = false
			}
			exits = append(exits, q.exits...)
			rets = append(rets, q.rets...)
			next = append(next, q.conts...)
		}
		if !ok {
			break
		}
		cur = e.liveAt(r.fi, next)
	}
	if ok {
		for _, x := range exits {
			r.push(x)
		}
		r.rets = append(r.rets, rets...)
		return
	}
	conts := e.liveAt(r.fi, first.conts)
	spec := strings.HasPrefix(fnPkg(l.head.Parent()), "gpgverif/")
	if rotPhi(l) == nil && e.foldLoop(r, l, it, conts) {
		return
	}
	if spec {
		e.specLoop(r, l, it, conts)
		return
	}
	e.codeLoop(r, l, it, conts)
}

func (e *Engine) locType(it *Item, l loc) types.Type {
	if l.reg != nil && len(l.path) == 0 {
		return l.reg.Type()
	}
	return nil
}

// ---- fold summary
func (e *Engine) foldLoop(r *region, l *Loop, it *Item, conts []*Item) bool {
	if len(conts) != 1 {
		return false
	}
	c := e.c
	var recs []*locRec
	idx := map[string]*locRec{}
	addLoc := func(src *Item) func(lc loc) {
		return func(lc loc) {
			if idx[lc.String()] != nil {
				return
			}
			rec := &locRec{l: lc, v0: e.getLoc(it, lc)}
			idx[lc.String()] = rec
			recs = append(recs, rec)
		}
	}
	e.diffLocs(l, it, conts[0], addLoc(conts[0]))
	v1 := map[*locRec]Val{}
	for _, rec := range recs {
		v1[rec] = e.getLoc(conts[0], rec.l)
	}
	e.nloops++
	k := e.index(fmt.Sprintf("k%d_", e.nloops))
	kw := func(w int) *Term { return c.Trunc(k, w) }
	bound := c.Ult(k, c.I64(1<<48))
	// forms
	type form struct {
		step *Term // affine
		name string
		gk   func(k *Term) Val // value as function of k
		sym  map[*Term]bool
		gen  Val
	}
	forms := map[*locRec]*form{}
	guess := func(rec *locRec, w Val) {
		f := &form{}
		forms[rec] = f
		rec.v0 = emptyAs(rec.v0, w)
		switch x := rec.v0.(type) {
		case *Term:
			if y, ok := w.(*Term); ok && y.w == x.w && x.w > 0 {
				if d := c.Sub(y, x); d.IsConst() && d.val != 0 {
					f.step = d
					rec.kind = "affine"
					return
				}
			}
		case *SStr:
			if y, ok := w.(*SStr); ok {
				if _, ok := strPrefix(x, y); ok {
					f.name = fmt.Sprintf("S%d.%s", e.nloops, rec.l)
					rec.kind = "append"
					return
				}
			}
		case *VList, Nil:
			lx := &VList{}
			if z, ok := x.(*VList); ok {
				lx = z
			}
			switch y := w.(type) {
			case *VList:
				if _, ok := listPrefix(lx, y); ok {
					f.name = fmt.Sprintf("L%d.%s", e.nloops, rec.l)
					rec.kind = "lappend"
					return
				}
			case *SStr: // nil []byte
				if _, isNil := x.(Nil); isNil {
					rec.v0 = lit("")
					f.name = fmt.Sprintf("S%d.%s", e.nloops, rec.l)
					rec.kind = "append"
					return
				}
			}
		}
		rec.kind = "unknown"
	}
	for _, rec := range recs {
		guess(rec, v1[rec])
	}
	e.quiet++
	saveQ := e.qfail
	defer func() { e.quiet--; e.qfail = saveQ }()
	var q *region
	var cont *Item
	stable := false
	for pass := 0; pass < 6; pass++ {
		if e.trace {
			fmt.Fprintf(os.Stderr, "FOLD %s pass %d\n", l.head.Parent(), pass)
		}
		g := it.clone()
		syms := map[*Term]bool{}
		for _, rec := range recs {
			f := forms[rec]
			switch rec.kind {
			case "affine":
				t := rec.v0.(*Term)
				rec.x = c.Add(t, c.Mul(kw(t.w), f.step))
			case "append":
				rec.x = catStr(rec.v0.(*SStr), one(Seg{k: sVar, s: f.name}))
			case "lappend":
				lx, _ := rec.v0.(*VList)
				rec.x = catList(lx, &VList{[]LSeg{{k: lVar, name: f.name}}})
			case "gk":
				rec.x = f.gk(k)
			default:
				m := map[*Term]bool{}
				rec.x = e.havocOr(g.st, rec.v0, v1[rec], conts[0].st, fmt.Sprintf("h%d.%s", e.nloops, rec.l), m)
				if _, bad := rec.x.(*VPoison); bad {
					return false
				}
				for t := range m {
					syms[t] = true
				}
				f.sym = m
			}
			e.setLoc(g, rec.l, rec.x)
		}
		g.st.assume(bound)
		ok := func() (ok bool) {
			defer func() {
				if x := recover(); x != nil {
					if _, is := x.(unsupErr); is {
						ok = false
						return
					}
					panic(x)
				}
			}()
			q = e.oneIter(r.fi, l, g)
			return true
		}()
		if !ok {
			return false
		}
		if len(q.exits) == 0 {
			return false
		}
		cs := e.liveAt(r.fi, q.conts)
		if len(cs) != 1 {
			return false
		}
		cont = cs[0]
		// new locations?
		grew := false
		e.diffLocs(l, it, cont, func(lc loc) {
			if idx[lc.String()] != nil {
				return
			}
			// ignore parts of known locations
			rec := &locRec{l: lc, v0: e.getLoc(it, lc), kind: "unknown"}
			idx[lc.String()] = rec
			recs = append(recs, rec)
			forms[rec] = &form{}
			v1[rec] = e.getLoc(cont, lc)
			grew = true
		})
		if grew {
			continue
		}
		bad := false
		again := false
		pending := false
		for _, rec := range recs {
			f := forms[rec]
			nv := e.getLoc(cont, rec.l)
			switch rec.kind {
			case "affine":
				want := c.Add(rec.x.(*Term), f.step)
				t, isT := nv.(*Term)
				if !isT || (t != want && e.s.Check(append(cont.st.pc.list(), c.Not(c.Eq(t, want)))) != Unsat) {
					rec.kind = "unknown"
					again = true
				}
			case "append":
				s, isS := nv.(*SStr)
				var d *SStr
				isP := false
				if isS {
					d, isP = strPrefix(rec.x.(*SStr), s)
				}
				if !isP {
					rec.kind = "unknown"
					again = true
					break
				}
				if strHasVar(d) || hasSyms(d, syms) {
					pending = true
					break
				}
				f.gen = d
			case "lappend":
				s, isL := nv.(*VList)
				var d *VList
				isP := false
				if isL {
					d, isP = listPrefix(rec.x.(*VList), s)
				}
				if !isP {
					rec.kind = "unknown"
					again = true
					break
				}
				fd := e.freezeList(cont.st, it.st, d)
				if fd == nil {
					bad = true
					break
				}
				if hasVarVal(fd) || hasSyms(fd, syms) {
					pending = true
					break
				}
				f.gen = fd
			case "gk":
				if key(nv) != key(f.gen) {
					bad = true
				}
			default:
				if hasVarVal(nv) || hasSyms(nv, syms) {
					bad = true
					break
				}
				fr := e.freeze(cont.st, it.st, nv, map[int]bool{})
				if fr == nil {
					bad = true
					break
				}
				v0 := rec.v0
				fv := fr
				rec.kind = "gk"
				f.gen = nv
				f.gk = func(kk *Term) Val {
					pv := e.substVal(fv, map[*Term]*Term{k: c.Sub(kk, c.I64(1))})
					return c.mergeVal(c.Eq(kk, c.I64(0)), v0, pv)
				}
				again = true
			}
			if bad {
				break
			}
		}
		if bad || (pending && !again) {
			return false
		}
		if !again {
			stable = true
			break
		}
	}
	if !stable {
		return false
	}
	// trip count
	var contC []*Term
	for p := cont.st.pc; p != nil && p != it.st.pc; p = p.prev {
		if p.t != bound {
			contC = append([]*Term{p.t}, contC...)
		}
	}
	// the exit must be decided before anything else: contC as a condition of k
	cc := c.And(contC...)
	T := e.tripCount(it.st, k, cc, bound)
	fact := c.tt
	if T == nil {
		// a search: the loop does nothing but look for the first exit
		for _, rec := range recs {
			if rec.kind != "affine" {
				return false
			}
		}
		if T, fact = e.firstExit(it.st, k, cc, bound); T == nil {
			return false
		}
	}
	// replay the generic iteration loudly for safety obligations
	e.quiet--
	{
		g := it.clone()
		for _, rec := range recs {
			e.setLoc(g, rec.l, rec.x)
		}
		g.st.assume(bound)
		q = e.oneIter(r.fi, l, g)
	}
	e.quiet++
	// post states
	strs := map[string]*SStr{}
	lsts := map[string]*VList{}
	for _, rec := range recs {
		f := forms[rec]
		switch rec.kind {
		case "append":
			d := f.gen.(*SStr)
			if len(d.segs) == 0 {
				strs[f.name] = lit("")
			} else if T.IsConst() && T.val == 0 {
				strs[f.name] = lit("")
			} else {
				strs[f.name] = one(Seg{k: sFold, t: T, u: k, a: d})
			}
		case "lappend":
			d := f.gen.(*VList)
			if len(d.segs) == 0 || (T.IsConst() && T.val == 0) {
				lsts[f.name] = &VList{}
			} else {
				lsts[f.name] = &VList{[]LSeg{{k: lFold, t: T, u: k, a: d}}}
			}
		}
	}
	tm := map[*Term]*Term{k: T}
	memo := map[*Term]*Term{}
	m := &mapper{c: c, term: func(t *Term) *Term { return c.Subst(t, tm, memo) },
		strv: func(n string) *SStr { return strs[n] }, lstv: func(n string) *VList { return lsts[n] }}
	for _, x := range q.exits {
		nx := &Item{regs: map[ssa.Value]Val{}, b: x.b, idx: x.idx, defs: x.defs}
		st := &State{heap: map[int]Val{}, pc: it.st.pc, loops: x.st.loops}
		var inc []*Term
		for p := x.st.pc; p != nil && p != it.st.pc; p = p.prev {
			inc = append([]*Term{p.t}, inc...)
		}
		st.assume(fact)
		for _, t := range inc {
			st.assume(m.term(t))
		}
		for id, v := range x.st.heap {
			st.heap[id] = m.val(v)
		}
		for id, v := range x.regs {
			nx.regs[id] = m.val(v)
		}
		nx.st = st
		if !e.sat(st) {
			continue
		}
		r.push(nx)
	}
	for _, x := range q.rets {
		st := &State{heap: map[int]Val{}, pc: it.st.pc, loops: x.st.loops}
		var inc []*Term
		for p := x.st.pc; p != nil && p != it.st.pc; p = p.prev {
			inc = append([]*Term{p.t}, inc...)
		}
		st.assume(fact)
		for _, t := range inc {
			st.assume(m.term(t))
		}
		if !e.sat(st) {
			continue
		}
		for id, v := range x.st.heap {
			st.heap[id] = m.val(v)
		}
		o := Out{st: st}
		for _, v := range x.rets {
			o.rets = append(o.rets, m.val(v))
		}
		r.rets = append(r.rets, o)
	}
	return true
}

// search is a loop that looks for the first k that does not satisfy cc; T is
// that k.
type search struct{ k, cc, T *Term }

// firstExit is the number of iterations of a loop that ends at the first k
// without C(k): a function of what C depends on. One of C's conditions alone
// must end the loop at some k, so there is such a k.
func (e *Engine) firstExit(st *State, k, cc, bound *Term) (T, fact *Term) {
	c := e.c
	if cc.op != OAnd {
		return nil, nil
	}
	var N *Term
	for _, a := range cc.args {
		if N = e.tripCount(st, k, a, bound); N != nil {
			break
		}
	}
	if N == nil {
		return nil, nil
	}
	pc := st.pc.list()
	for i := len(e.searches) - 1; i >= 0 && i >= len(e.searches)-6; i-- {
		s := e.searches[i]
		o := c.Subst(s.cc, map[*Term]*Term{s.k: k}, map[*Term]*Term{})
		if o == cc || e.s.Check(append(append([]*Term{}, pc...), bound, c.Ule(k, N), c.Not(c.Eq(o, cc)))) == Unsat {
			return s.T, c.Ule(s.T, N)
		}
	}
	var args []*Term
	name := c.skeleton(cc, k, &args, map[*Term]bool{})
	if e.firsts == nil {
		e.firsts = map[string]int{}
	}
	id, ok := e.firsts[name]
	if !ok {
		id = len(e.firsts) + 1
		e.firsts[name] = id
	}
	T = c.UF(fmt.Sprintf("first%d", id), 64, args...)
	e.searches = append(e.searches, search{k, cc, T})
	return T, c.Ule(T, N)
}

// skeleton is t with k left open and everything that does not depend on k as
// an argument.
func (c *TC) skeleton(t, k *Term, args *[]*Term, memo map[*Term]bool) string {
	if t == k {
		return "k"
	}
	arr := t.op == OAUF || t.op == OAIte || t.op == OACopy || t.op == OALit
	if !arr && !t.Contains(map[*Term]bool{k: true}, memo) {
		if t.op == OConst {
			return fmt.Sprintf("%d:%d", t.val, t.w)
		}
		*args = append(*args, t)
		return "_"
	}
	s := fmt.Sprintf("(%d %d %d %q", t.op, t.w, t.val, t.name)
	for _, a := range t.args {
		s += " " + c.skeleton(a, k, args, memo)
	}
	return s + ")"
}

// emptyAs views an empty slice as the empty sequence of the kind w has.
func emptyAs(v0, w Val) Val {
	empty := false
	switch x := v0.(type) {
	case *VSlice:
		empty = x.n == 0
	case *VBytes:
		empty = x.len.IsConst() && x.len.val == 0
	}
	if empty {
		switch w.(type) {
		case *SStr:
			return lit("")
		case *VList:
			return &VList{}
		}
	}
	return v0
}

func (e *Engine) substVal(v Val, tm map[*Term]*Term) Val {
	memo := map[*Term]*Term{}
	m := &mapper{c: e.c, term: func(t *Term) *Term { return e.c.Subst(t, tm, memo) }}
	return m.val(v)
}

// tripCount finds T with: k<T -> C(k), not C(T).
func (e *Engine) tripCount(st *State, k, cc, bound *Term) *Term {
	c := e.c
	var cands []*Term
	atoms := []*Term{cc}
	if cc.op == OAnd {
		atoms = cc.args
	}
	for _, a := range atoms {
		if a.op == ONot && a.args[0].op == OEq {
			a = a.args[0]
		}
		switch a.op {
		case OUlt, OSlt, OUle, OSle, OEq:
			x, y := a.args[0], a.args[1]
			if x.w != 64 {
				// zero-extended counters
				x, y = c.Zext(x, 64), c.Zext(y, 64)
			}
			// y - x = n - k*step
			d := c.Sub(y, x)
			m := map[*Term]uint64{}
			var cst uint64
			c.linear(d, 1, m, &cst)
			kc := int64(m[k])
			delete(m, k)
			rest := c.fromLinear(64, m, cst)
			if rest.Contains(map[*Term]bool{k: true}, map[*Term]bool{}) {
				continue
			}
			var T *Term
			extra := int64(0)
			if a.op == OUle || a.op == OSle {
				extra = 1
			}
			switch {
			case kc == -1:
				T = c.Add(rest, c.I64(extra))
			case kc == 1:
				T = c.Sub(c.I64(0), rest)
			case kc < -1:
				s := -kc
				T = c.bin(OUDiv, c.Add(rest, c.I64(extra+s-1)), c.I64(s))
			default:
				continue
			}
			cands = append(cands, T, c.Ite(c.Sle(T, c.I64(0)), c.I64(0), T))
		}
	}
	pc := st.pc.list()
	for _, T := range cands {
		lim := c.Ult(T, c.I64(1<<48))
		if e.s.Check(append(append([]*Term{}, pc...), c.Not(lim))) != Unsat {
			continue
		}
		if e.s.Check(append(append([]*Term{}, pc...), bound, c.Ult(k, T), c.Not(cc))) != Unsat {
			continue
		}
		atT := c.Subst(cc, map[*Term]*Term{k: T}, map[*Term]*Term{})
		if e.s.Check(append(append([]*Term{}, pc...), atT)) != Unsat {
			continue
		}
		return T
	}
	return nil
}

func strHasVar(s *SStr) bool { return hasVarVal(s) }

// hasVarVal: does the value mention a string or list variable?
func hasVarVal(v Val) bool {
	found := false
	m := &mapper{c: nil, term: func(t *Term) *Term { return t }}
	_ = m
	var str func(s *SStr)
	var lst func(l *VList)
	var val func(v Val)
	str = func(s *SStr) {
		if s == nil {
			return
		}
		for _, g := range s.segs {
			switch g.k {
			case sVar:
				found = true
			case sIte:
				str(g.a)
				str(g.c)
			case sFold:
				str(g.a)
			case sOpq:
				for _, a := range g.args {
					val(a)
				}
			}
		}
	}
	lst = func(l *VList) {
		for _, g := range l.segs {
			switch g.k {
			case lVar:
				if g.v == nil {
					found = true
				}
			case lElem:
				val(g.v)
			case lGuard:
				lst(g.a)
				lst(g.c)
			case lFold:
				lst(g.a)
			}
		}
	}
	val = func(v Val) {
		switch x := v.(type) {
		case *SStr:
			str(x)
		case *VList:
			lst(x)
		case *VStruct:
			for _, f := range x.f {
				val(f)
			}
		case *VArr:
			for _, f := range x.e {
				val(f)
			}
		case *VExt:
			for _, f := range x.f {
				val(f)
			}
		case *VTuple:
			for _, f := range x.e {
				val(f)
			}
		case *VIte:
			val(x.a)
			val(x.b)
		case *VIface:
			val(x.v)
		case *VFrozen:
			val(x.v)
		case *VErr:
			str(x.msg)
		}
	}
	val(v)
	return found
}

func hasSyms(v Val, syms map[*Term]bool) bool {
	if len(syms) == 0 {
		return false
	}
	found := false
	memo := map[*Term]bool{}
	m := &mapper{c: NewTC(), term: func(t *Term) *Term {
		if t.Contains(syms, memo) {
			found = true
		}
		return t
	}}
	func() {
		defer func() {
			if x := recover(); x != nil {
				found = true
			}
		}()
		m.val(v)
	}()
	return found
}

// freeze replaces pointers to objects that did not exist in old by their contents.
func (e *Engine) freeze(st, old *State, v Val, seen map[int]bool) Val {
	switch x := v.(type) {
	case *VPtr:
		if _, ok := old.heap[x.obj]; ok {
			return x
		}
		if _, ok := e.base[x.obj]; ok {
			return x
		}
		if len(x.path) > 0 || seen[x.obj] {
			return nil
		}
		s2 := map[int]bool{x.obj: true}
		for k := range seen {
			s2[k] = true
		}
		in := e.freeze(st, old, e.obj(st, x.obj), s2)
		if in == nil {
			return nil
		}
		return &VFrozen{nil, in}
	case *VStruct:
		f := make([]Val, len(x.f))
		for i := range f {
			if f[i] = e.freeze(st, old, x.f[i], seen); f[i] == nil {
				return nil
			}
		}
		return &VStruct{f}
	case *VArr:
		f := make([]Val, len(x.e))
		for i := range f {
			if f[i] = e.freeze(st, old, x.e[i], seen); f[i] == nil {
				return nil
			}
		}
		return &VArr{f}
	case *VExt:
		f := make([]Val, len(x.f))
		for i := range f {
			if f[i] = e.freeze(st, old, x.f[i], seen); f[i] == nil {
				return nil
			}
		}
		return &VExt{x.kind, f}
	case *VIface:
		in := e.freeze(st, old, x.v, seen)
		if in == nil {
			return nil
		}
		return &VIface{x.t, in}
	case *VIte:
		a, b := e.freeze(st, old, x.a, seen), e.freeze(st, old, x.b, seen)
		if a == nil || b == nil {
			return nil
		}
		return mkIte(e.c, x.c, a, b)
	case *VList:
		l := e.freezeL(st, old, x, seen)
		if l == nil {
			return nil
		}
		return l
	case *VSlice:
		if _, ok := old.heap[x.obj]; ok {
			return x
		}
		if _, ok := e.base[x.obj]; ok {
			return x
		}
		return e.freezeOr(st, old, e.asList(st, x), seen)
	case *VBytes:
		if x.arr == nil {
			return &VBytes{arr: e.arrOf(st, x), off: x.off, len: x.len}
		}
		return x
	case *VClosure, *VMapRef:
		return nil
	}
	return v
}
func (e *Engine) freezeOr(st, old *State, l *VList, seen map[int]bool) Val {
	r := e.freezeL(st, old, l, seen)
	if r == nil {
		return nil
	}
	return r
}
func (e *Engine) freezeList(st, old *State, l *VList) *VList {
	return e.freezeL(st, old, l, map[int]bool{})
}
func (e *Engine) freezeL(st, old *State, l *VList, seen map[int]bool) *VList {
	out := &VList{}
	for _, g := range l.segs {
		switch g.k {
		case lElem:
			g.v = e.freeze(st, old, g.v, seen)
			if g.v == nil {
				return nil
			}
		case lGuard:
			g.a = e.freezeL(st, old, g.a, seen)
			g.c = e.freezeL(st, old, g.c, seen)
			if g.a == nil || g.c == nil {
				return nil
			}
		case lFold:
			g.a = e.freezeL(st, old, g.a, seen)
			if g.a == nil {
				return nil
			}
		}
		out.segs = append(out.segs, g)
	}
	return out
}

// havocLike makes an arbitrary value of the joined shape of v0 and v1 (nil: not possible).
func (e *Engine) havocLike(st *State, v0, v1 Val, st1 *State, name string, syms map[*Term]bool) Val {
	v0 = emptyAs(v0, v1)
	c := e.c
	fresh := func(s string, w int) *Term {
		t := c.Fresh(name+s+"~", w) // see soft
		syms[t] = true
		return t
	}
	_, b1 := v1.(*VBytes)
	if _, b0 := v0.(*VBytes); b0 != b1 {
		n0, ok0 := e.byteLike(st, v0)
		n1, ok1 := e.byteLike(st1, v1)
		if ok0 && ok1 {
			n := n0
			if n0 != n1 || !n0.IsConst() {
				n = fresh(".len", 64)
				e.axiom(c.Ult(n, c.I64(1<<48)))
			}
			return &VBytes{arr: c.AVar("hv", fresh(".arr", 32)), off: c.I64(0), len: n}
		}
	}
	switch x := v0.(type) {
	case *Term:
		if y, ok := v1.(*Term); ok && y.w == x.w {
			return fresh("", x.w)
		}
		return nil
	case *SStr:
		if _, ok := v1.(*SStr); ok {
			return one(Seg{k: sVar, s: name})
		}
		return nil
	case *VList:
		switch v1.(type) {
		case *VList, Nil:
			return &VList{[]LSeg{{k: lVar, name: name}}}
		}
		return nil
	case *VStruct:
		y, ok := v1.(*VStruct)
		if !ok || len(y.f) != len(x.f) {
			return nil
		}
		f := make([]Val, len(x.f))
		for i := range f {
			if key(x.f[i]) == key(y.f[i]) && constLike(x.f[i]) {
				f[i] = x.f[i]
				continue
			}
			if f[i] = e.havocLike(st, x.f[i], y.f[i], st1, fmt.Sprintf("%s.%d", name, i), syms); f[i] == nil {
				return nil
			}
		}
		return &VStruct{f}
	case *VExt:
		y, ok := v1.(*VExt)
		if !ok || y.kind != x.kind || len(y.f) != len(x.f) {
			return nil
		}
		f := make([]Val, len(x.f))
		for i := range f {
			if key(x.f[i]) == key(y.f[i]) && constLike(x.f[i]) {
				f[i] = x.f[i]
				continue
			}
			if f[i] = e.havocLike(st, x.f[i], y.f[i], st1, fmt.Sprintf("%s.%d", name, i), syms); f[i] == nil {
				return nil
			}
		}
		return &VExt{x.kind, f}
	case *VIface:
		y, ok := v1.(*VIface)
		if !ok || !types.Identical(x.t, y.t) {
			return nil
		}
		in := e.havocLike(st, x.v, y.v, st1, name, syms)
		if in == nil {
			return nil
		}
		return &VIface{x.t, in}
	case *VPtr:
		switch y := v1.(type) {
		case *VPtr:
			if len(x.path) > 0 || len(y.path) > 0 {
				return nil
			}
			in := e.havocLike(st, e.obj(st, x.obj), e.obj(st1, y.obj), st1, name, syms)
			if in == nil {
				return nil
			}
			return &VPtr{obj: e.alloc(st, in)}
		case Nil:
			return e.havocLike(st, Nil{}, &VIte{c.Bool(true), v0, Nil{}}, st1, name, syms)
		case *VIte:
			return e.havocLike(st, &VIte{c.tt, v0, v0}, v1, st1, name, syms)
		}
		return nil
	case *VErr:
		return e.havocErr(name, fresh)
	case *VIte:
		// join of all leaves
		ls := append(leaves(v0), leaves(v1)...)
		return e.havocLeaves(st, ls, st1, name, syms, fresh)
	case Nil:
		switch y := v1.(type) {
		case Nil:
			return Nil{}
		case *VList:
			return &VList{[]LSeg{{k: lVar, name: name}}}
		case *VSlice:
			return &VList{[]LSeg{{k: lVar, name: name}}}
		default:
			_ = y
			ls := append([]Val{Nil{}}, leaves(v1)...)
			return e.havocLeaves(st, ls, st1, name, syms, fresh)
		}
	case *VBytes:
		if y, ok := v1.(*VBytes); ok && x.arr != nil && y.arr != nil {
			n := x.len
			if x.len != y.len || !x.len.IsConst() {
				n = fresh(".len", 64)
				e.axiom(c.Ult(n, c.I64(1<<48)))
			}
			id := fresh(".arr", 32)
			return &VBytes{arr: c.AVar("hv", id), off: c.I64(0), len: n}
		}
		return nil
	}
	if key(v0) == key(v1) {
		return v0
	}
	return nil
}

// byteLike: the length of an octet sequence whose contents can be described by
// an array.
func (e *Engine) byteLike(st *State, v Val) (*Term, bool) {
	switch x := v.(type) {
	case *VBytes:
		return x.len, true
	case *VSlice:
		a, ok := e.obj(st, x.obj).(*VArr)
		if !ok {
			return nil, false
		}
		for i := x.off; i < x.off+x.n; i++ {
			if t, ok := a.e[i].(*Term); !ok || t.w != 8 {
				return nil, false
			}
		}
		return e.c.I64(int64(x.n)), true
	case *SStr:
		n := e.strLen(x)
		return n, n.IsConst()
	}
	return nil, false
}
func constLike(v Val) bool {
	switch v.(type) {
	case *Term, *SStr, *VExt, *VBytes, Nil:
		return true
	}
	return false
}
func leaves(v Val) []Val {
	if x, ok := v.(*VIte); ok {
		return append(leaves(x.a), leaves(x.b)...)
	}
	return []Val{v}
}
func (e *Engine) havocErr(name string, fresh func(string, int) *Term) Val {
	return &VErr{msg: one(Seg{k: sVar, s: name + ".msg"}), is: map[string]*Term{"io.EOF": fresh(".eof", 0)}}
}
func (e *Engine) havocLeaves(st *State, ls []Val, st1 *State, name string, syms map[*Term]bool, fresh func(string, int) *Term) Val {
	hasNil := false
	var rep Val
	var rep2 Val
	for _, v := range ls {
		if _, ok := v.(Nil); ok {
			hasNil = true
			continue
		}
		if rep == nil {
			rep = v
		} else {
			rep2 = v
		}
	}
	if rep == nil {
		return Nil{}
	}
	if rep2 == nil {
		rep2 = rep
	}
	var in Val
	if p, ok := rep.(*VPtr); ok {
		q, ok := rep2.(*VPtr)
		if !ok || len(p.path) > 0 || len(q.path) > 0 {
			return nil
		}
		get := func(p *VPtr) Val {
			if v, ok := st1.heap[p.obj]; ok {
				return v
			}
			return e.obj(st, p.obj)
		}
		v := e.havocAll(st, get(p), get(q), st1, name+".p", syms)
		if v == nil {
			return nil
		}
		in = &VPtr{obj: e.alloc(st, v)}
	} else if _, ok := rep.(*VErr); ok {
		in = e.havocErr(name, fresh)
	} else {
		in = e.havocAll(st, rep, rep2, st1, name+".p", syms)
		if in == nil {
			return nil
		}
	}
	if !hasNil {
		return in
	}
	return mkIte(e.c, fresh(".ok", 0), in, Nil{})
}

// havocAll havocs every leaf term, even equal ones.
func (e *Engine) havocAll(st *State, v0, v1 Val, st1 *State, name string, syms map[*Term]bool) Val {
	switch x := v0.(type) {
	case *VStruct:
		y, ok := v1.(*VStruct)
		if !ok || len(y.f) != len(x.f) {
			return nil
		}
		f := make([]Val, len(x.f))
		for i := range f {
			if f[i] = e.havocAll(st, x.f[i], y.f[i], st1, fmt.Sprintf("%s.%d", name, i), syms); f[i] == nil {
				return nil
			}
		}
		return &VStruct{f}
	case *VExt:
		y, ok := v1.(*VExt)
		if !ok || y.kind != x.kind || len(y.f) != len(x.f) {
			return nil
		}
		f := make([]Val, len(x.f))
		for i := range f {
			if f[i] = e.havocAll(st, x.f[i], y.f[i], st1, fmt.Sprintf("%s.%d", name, i), syms); f[i] == nil {
				return nil
			}
		}
		return &VExt{x.kind, f}
	case *Term:
		if y, ok := v1.(*Term); ok && (x == y || x.w == y.w && e.chk(append(st1.pc.list(), e.c.Not(e.c.Eq(x, y)))) == Unsat) {
			return x // kept; covers decides whether that was right
		}
	}
	return e.havocLike(st, v0, v1, st1, name, syms)
}

// havocOr is havocLike, or a value that must not be looked at where there is no
// such value: a loop variable that every iteration sets before it reads it.
func (e *Engine) havocOr(st *State, v0, v1 Val, st1 *State, name string, syms map[*Term]bool) (v Val) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(unsupErr); !is {
				panic(x)
			}
		}
		if v == nil {
			v = &VPoison{"loop variable " + name + ": " + trunc(key(v0)) + " -> " + trunc(key(v1))}
		}
	}()
	return e.havocLike(st, v0, v1, st1, name, syms)
}

// ---- inductive loops
// generic runs a generic iteration to a fixpoint of modified locations.
func (e *Engine) generic(r *region, l *Loop, it *Item, conts []*Item, k *Term, id, mark int,
	choose func(rec *locRec, v1 Val, st1 *State, g *Item) Val) ([]*locRec, *region, *Item, map[*Term]bool) {
	c := e.c
	var recs []*locRec
	idx := map[string]*locRec{}
	v1 := map[*locRec]Val{}
	s1 := map[*locRec]*State{}
	demote := map[string]bool{}
	add := func(src *Item) func(lc loc) {
		return func(lc loc) {
			if idx[lc.String()] != nil {
				return
			}
			rec := &locRec{l: lc, v0: e.getLoc(it, lc)}
			idx[lc.String()] = rec
			recs = append(recs, rec)
			v1[rec] = e.getLoc(src, lc)
			s1[rec] = src.st
		}
	}
	for _, cn := range conts {
		e.diffLocs(l, it, cn, add(cn))
	}
	for pass := 0; pass < 8; pass++ {
		if e.trace {
			fmt.Fprintf(os.Stderr, "GENERIC %s pass %d\n", l.head.Parent(), pass)
			for _, rec := range recs {
				fmt.Fprintf(os.Stderr, "   %s: %s -> %s\n", rec.l, trunc(key(rec.v0)), trunc(key(v1[rec])))
			}
		}
		g := it.clone()
		syms := map[*Term]bool{k: true}
		for _, rec := range recs {
			rec.kind = ""
			if t, ok := rec.v0.(*Term); ok && t.w > 0 && !demote[rec.l.String()] {
				if y, ok := v1[rec].(*Term); ok {
					if d := c.Sub(y, t); d.IsConst() && d.val != 0 {
						rec.kind = "affine"
						rec.x = c.Add(t, c.Mul(c.Trunc(k, t.w), d))
					}
				}
			}
			if rec.kind == "" {
				switch x := rec.v0.(type) {
				case *SStr:
					if y, ok := v1[rec].(*SStr); ok && !demote[rec.l.String()] {
						if _, isP := strPrefix(x, y); isP {
							rec.kind = "append"
						}
					}
				case *VList, Nil:
					lx, _ := x.(*VList)
					if lx == nil {
						lx = &VList{}
					}
					if y, ok := v1[rec].(*VList); ok && !demote[rec.l.String()] {
						if _, isP := listPrefix(lx, y); isP {
							rec.kind = "lappend"
						}
					}
				}
				rec.x = nil
				if choose != nil {
					rec.x = choose(rec, v1[rec], s1[rec], g)
				}
				if rec.x == nil {
					nm := fmt.Sprintf("x%d.%s", id, rec.l)
					rec.x = e.havocOr(g.st, rec.v0, v1[rec], s1[rec], nm, syms)
				}
			}
			e.setLoc(g, rec.l, rec.x)
		}
		g.st.assume(c.Ult(k, c.I64(1<<48)))
		e.quiet++
		q := e.oneIter(r.fi, l, g.clone())
		e.quiet--
		grew := false
		for _, cn := range e.liveAt(r.fi, q.conts) {
			e.diffLocs(l, it, cn, func(lc loc) {
				if idx[lc.String()] != nil {
					return
				}
				add(cn)(lc)
				grew = true
			})
			for _, rec := range recs {
				if rec.x == nil {
					continue // found in this pass
				}
				nv := e.getLoc(cn, rec.l)
				if rec.kind == "affine" {
					d := c.Sub(v1[rec].(*Term), rec.v0.(*Term))
					t, ok := nv.(*Term)
					want := c.Add(rec.x.(*Term), d)
					if !ok || (t != want && e.s.Check(append(cn.st.pc.list(), c.Not(c.Eq(t, want)))) != Unsat) {
						demote[rec.l.String()] = true
						grew = true
					}
				} else if choose == nil && !e.covers(rec.x, g.st, nv, cn.st, syms, mark) || choose != nil && !e.sameShape(rec.x, nv) {
					// widen
					j := e.joinShape(v1[rec], s1[rec], nv, cn.st)
					if j == nil || key(j) == key(v1[rec]) && !e.sameShape(rec.x, nv) {
						panic(unsup("shape of %s not stable: %s vs %s", rec.l, trunc(key(rec.x)), trunc(key(nv))))
					}
					if key(j) == key(v1[rec]) {
						panic(unsup("loop variable %s is not covered: %s vs %s", rec.l, trunc(key(rec.x)), trunc(key(nv))))
					}
					v1[rec] = j
					s1[rec] = both(cn.st, s1[rec])
					grew = true
				}
			}
		}
		if grew {
			continue
		}
		if choose == nil {
			for _, rec := range recs {
				if rec.kind != "affine" && !e.covers(rec.x, g.st, rec.v0, it.st, syms, mark) {
					panic(unsup("initial value of %s is not covered: %s vs %s", rec.l, trunc(key(rec.x)), trunc(key(rec.v0))))
				}
			}
			e.noAlias(it, it, recs)
			for _, cn := range e.liveAt(r.fi, q.conts) {
				e.noAlias(it, cn, recs)
			}
		}
		return recs, q, g, syms
	}
	panic(unsup("loop generalisation does not converge"))
}
func trunc(s string) string {
	if len(s) > 200 {
		return s[:200]
	}
	return s
}

// sameShape: is nv an instance of the shape x?
func (e *Engine) sameShape(x, nv Val) bool {
	switch a := x.(type) {
	case *VPoison:
		return true
	case *Term:
		b, ok := nv.(*Term)
		return ok && a.w == b.w
	case *SStr:
		_, ok := nv.(*SStr)
		return ok
	case *VList:
		switch nv.(type) {
		case *VList, Nil:
			return true
		}
		return false
	case *VIte:
		for _, l := range leaves(nv) {
			ok := false
			for _, m := range leaves(x) {
				if e.sameShape(m, l) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	case Nil:
		_, ok := nv.(Nil)
		return ok
	case *VErr:
		_, ok := nv.(*VErr)
		return ok
	case *VPtr:
		_, ok := nv.(*VPtr)
		return ok
	case *VIface:
		b, ok := nv.(*VIface)
		return ok && types.Identical(a.t, b.t)
	case *VExt:
		b, ok := nv.(*VExt)
		return ok && a.kind == b.kind
	case *VStruct:
		b, ok := nv.(*VStruct)
		return ok && len(a.f) == len(b.f)
	case *VBytes:
		_, ok := nv.(*VBytes)
		return ok
	}
	return key(x) == key(nv)
}

// both is a state to read objects of either state in.
func both(st, old *State) *State {
	out := st.fork()
	for id, v := range old.heap {
		if _, ok := out.heap[id]; !ok {
			out.heap[id] = v
		}
	}
	return out
}

// joinShape is a value whose havoc covers both v1 (in st1) and nv (in st).
func (e *Engine) joinShape(v1 Val, st1 *State, nv Val, st *State) Val {
	for _, l := range leaves(v1) {
		if key(l) == key(nv) {
			return v1
		}
	}
	return &VIte{e.c.tt, nv, v1}
}

// covers: is every value nv (read in nst) an instance of x (read in gst), by
// choosing values for the fresh symbols syms that occur in x? What is equal in
// both must not depend on the iteration (symbols made after mark).
func (e *Engine) covers(x Val, gst *State, nv Val, nst *State, syms map[*Term]bool, mark int) bool {
	switch a := x.(type) {
	case *VPoison:
		return true
	case *VIte:
		for _, l := range leaves(nv) {
			ok := false
			for _, m := range leaves(x) {
				if e.covers(m, gst, l, nst, syms, mark) {
					ok = true
					break
				}
			}
			if !ok {
				return false
			}
		}
		// the choice between the leaves must be free
		return e.freeIte(a, syms) || key(x) == key(nv) && e.fixed(x, mark)
	case *Term:
		b, ok := nv.(*Term)
		if !ok || a.w != b.w || syms[a] {
			return ok && a.w == b.w
		}
		return e.fixed(a, mark) && (a == b || e.chk(nst.pc.list(), e.c.Not(e.c.Eq(a, b))) == Unsat)
	case *SStr:
		b, ok := nv.(*SStr)
		return ok && (len(a.segs) == 1 && a.segs[0].k == sVar || a.key() == b.key() && e.fixed(a, mark))
	case *VList:
		switch nv.(type) {
		case *VList, Nil, *VSlice:
			return len(a.segs) == 1 && a.segs[0].k == lVar && a.segs[0].v == nil || key(x) == key(nv) && e.fixed(x, mark)
		}
		return false
	case Nil:
		_, ok := nv.(Nil)
		return ok
	case *VErr:
		b, ok := nv.(*VErr)
		if !ok {
			return false
		}
		for k, t := range b.is {
			if _, have := a.is[k]; !have && !t.IsFalse() {
				return false
			}
		}
		for k, t := range a.is {
			if !syms[t] && !(b.is[k] == t && e.fixed(t, mark)) {
				return false
			}
		}
		return true
	case *VPtr:
		b, ok := nv.(*VPtr)
		if !ok {
			return false
		}
		if a.obj == b.obj && key(a) == key(b) {
			return true
		}
		if len(a.path) > 0 || len(b.path) > 0 {
			return false
		}
		return e.covers(e.obj(gst, a.obj), gst, e.obj(nst, b.obj), nst, syms, mark)
	case *VIface:
		b, ok := nv.(*VIface)
		return ok && types.Identical(a.t, b.t) && e.covers(a.v, gst, b.v, nst, syms, mark)
	case *VExt:
		b, ok := nv.(*VExt)
		if !ok || a.kind != b.kind || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !e.covers(a.f[i], gst, b.f[i], nst, syms, mark) {
				return false
			}
		}
		return true
	case *VStruct:
		b, ok := nv.(*VStruct)
		if !ok || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !e.covers(a.f[i], gst, b.f[i], nst, syms, mark) {
				return false
			}
		}
		return true
	case *VBytes:
		if key(x) == key(nv) && e.fixed(x, mark) {
			return true
		}
		n, ok := e.byteLike(nst, nv)
		if !ok {
			return false
		}
		return a.arr != nil && a.arr.op == OAUF && len(a.arr.args) == 1 && syms[a.arr.args[0]] &&
			a.off.IsConst() && a.off.val == 0 && (syms[a.len] || a.len == n && e.fixed(a.len, mark))
	}
	return key(x) == key(nv) && e.fixed(x, mark)
}

// fixed: does v depend on nothing that a loop iteration introduces?
func (e *Engine) fixed(v Val, mark int) bool {
	if t, ok := v.(*Term); ok {
		return !e.mentionsAfter(t, mark, map[*Term]bool{})
	}
	if hasVarVal(v) {
		return false
	}
	ok := true
	memo := map[*Term]bool{}
	m := &mapper{c: e.c, term: func(t *Term) *Term {
		if e.mentionsAfter(t, mark, memo) {
			ok = false
		}
		return t
	}}
	m.val(v)
	return ok
}

func (e *Engine) freeIte(x *VIte, syms map[*Term]bool) bool {
	if !syms[x.c] {
		return false
	}
	for _, v := range []Val{x.a, x.b} {
		if y, ok := v.(*VIte); ok && !e.freeIte(y, syms) {
			return false
		}
	}
	return true
}

// noAlias: generalising a loop variable that holds a pointer to an object made
// in the loop gives it an object of its own; that is exact only when nothing
// else refers to the object.
func (e *Engine) noAlias(it, cn *Item, recs []*locRec) {
	refs := map[int]int{}
	var work []Val
	for _, v := range cn.regs {
		work = append(work, v)
	}
	old := func(id int) bool {
		if _, ok := it.st.heap[id]; ok {
			return true
		}
		_, ok := e.base[id]
		return ok
	}
	for id, v := range cn.st.heap {
		if old(id) {
			work = append(work, v)
		}
	}
	seen := map[int]bool{}
	ref := func(id int) {
		refs[id]++
		if !old(id) && !seen[id] {
			seen[id] = true
			work = append(work, e.obj(cn.st, id))
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		switch x := v.(type) {
		case *VPtr:
			ref(x.obj)
		case *VSlice:
			ref(x.obj)
		case *VMapRef:
			ref(x.obj)
		case *VBytes:
			if x.arr == nil {
				ref(x.obj)
			}
		case *VStruct:
			work = append(work, x.f...)
		case *VArr:
			work = append(work, x.e...)
		case *VExt:
			work = append(work, x.f...)
		case *VTuple:
			work = append(work, x.e...)
		case *VIface:
			work = append(work, x.v)
		case *VFrozen:
			work = append(work, x.v)
		case *VIte:
			work = append(work, x.a, x.b)
		case *VClosure:
			work = append(work, x.binds...)
			work = append(work, x.args...)
		case *VMap:
			work = append(work, x.keys...)
			work = append(work, x.vals...)
			work = append(work, x.has...)
		case *VList:
			var lst func(l *VList)
			lst = func(l *VList) {
				if l == nil {
					return
				}
				for _, g := range l.segs {
					if g.v != nil {
						work = append(work, g.v)
					}
					lst(g.a)
					lst(g.c)
				}
			}
			lst(x)
		}
	}
	var chk func(x, nv Val)
	chk = func(x, nv Val) {
		switch a := x.(type) {
		case *VIte:
			for _, l := range leaves(nv) {
				for _, m := range leaves(x) {
					chk(m, l)
				}
			}
		case *VPtr:
			if b, ok := nv.(*VPtr); ok && key(a) != key(b) && refs[b.obj] > 1 {
				panic(unsup("loop variable holds a shared object"))
			}
		case *VIface:
			if b, ok := nv.(*VIface); ok {
				chk(a.v, b.v)
			}
		case *VStruct:
			if b, ok := nv.(*VStruct); ok && len(a.f) == len(b.f) {
				for i := range a.f {
					chk(a.f[i], b.f[i])
				}
			}
		case *VExt:
			if b, ok := nv.(*VExt); ok && len(a.f) == len(b.f) {
				for i := range a.f {
					chk(a.f[i], b.f[i])
				}
			}
		}
	}
	for _, rec := range recs {
		chk(rec.x, e.getLoc(cn, rec.l))
	}
}

func (e *Engine) codeLoop(r *region, l *Loop, it *Item, conts []*Item) {
	e.nloops++
	id := e.nloops
	mark := e.c.n
	k := e.index(fmt.Sprintf("K%d_", id))
	recs, _, g, syms := e.generic(r, l, it, conts, k, id, mark, nil)
	// loud run, with the record visible to everything after it
	q := e.oneIter(r.fi, l, g.clone())
	rec := &LoopRec{id: id, where: l.head.Parent().String(), k: k, locs: recs, pre: it, pc0: it.st.pc, syms: syms, mark: mark, head: g.st}
	rec.conts = e.liveAt(r.fi, q.conts)
	e.progress(rec)
	attach := func(st *State) {
		cp := *rec
		cp.prev = st.loops
		st.loops = &cp
	}
	for _, x := range e.liveAt(r.fi, q.exits) {
		attach(x.st)
		r.push(x)
	}
	for _, o := range q.rets {
		attach(o.st)
		r.rets = append(r.rets, o)
	}
}

// progress: a continuing iteration must advance some stream position or counter.
func (e *Engine) progress(rec *LoopRec) {
	for _, cn := range rec.conts {
		ok := false
		for _, lr := range rec.locs {
			x, ok1 := lr.x.(*Term)
			y, ok2 := e.getLoc(cn, lr.l).(*Term)
			if ok1 && ok2 && x.w == 64 {
				d := e.c.Sub(y, x)
				if d.IsConst() && int64(d.val) > 0 {
					ok = true
				}
			}
		}
		e.oblig["progress"]++
		if !ok {
			e.fail(cn.st, "safety", "loop may make no progress in "+rec.where, rec.where, "unknown")
		}
	}
}

// ---- specification loops coupled with code loops
func (e *Engine) specLoop(r *region, l *Loop, it *Item, conts []*Item) {
	var why []string
	for rec := it.st.loops; rec != nil; rec = rec.prev {
		if ok, w := e.couple(r, l, it, conts, rec); ok {
			return
		} else {
			why = append(why, w)
		}
	}
	panic(unsup("specification loop in %s matches no code loop (%s)", l.head.Parent(), strings.Join(why, "; ")))
}

func (e *Engine) couple(r *region, l *Loop, it *Item, conts []*Item, rec *LoopRec) (ok bool, why string) {
	defer func() {
		if x := recover(); x != nil {
			if u, is := x.(unsupErr); is {
				ok, why = false, u.why
				return
			}
			panic(x)
		}
	}()
	match := map[string]*locRec{}
	used := map[*locRec]string{}
	views := map[string]*ssa.Function{}
	choose := func(sr *locRec, v1 Val, st1 *State, g *Item) Val {
		if cr := match[sr.l.String()]; cr != nil {
			if f := views[sr.l.String()]; f != nil {
				return e.viewOf(rec.head, cr.x, f)
			}
			return e.transplant(g.st, rec, cr)
		}
		var best *locRec
		bs := -1
		for _, cr := range rec.locs {
			if u := used[cr]; u != "" && u != sr.l.String() {
				continue
			}
			if cr.kind == "affine" || cr.kind != sr.kind {
				if !(cr.kind != "affine" && shapeClass(cr.x) == shapeClass(sr.v0)) {
					continue
				}
			}
			if cr.kind != sr.kind {
				continue
			}
			s := 0
			switch sr.kind {
			case "append", "lappend":
				s = 1
				if !e.related(it.st, cr.v0, sr.v0, rec.pre.st) {
					continue
				}
			default:
				if !e.related(it.st, cr.v0, sr.v0, rec.pre.st) {
					continue
				}
				s = 1
				if len(cr.l.path) > 0 && len(sr.l.path) > 0 && cr.l.path[len(cr.l.path)-1] == sr.l.path[len(sr.l.path)-1] {
					s += 2
				}
				if len(cr.l.path) == len(sr.l.path) {
					s++
				}
			}
			if s > bs {
				best, bs = cr, s
			}
		}
		if t, isT := sr.v0.(*Term); best == nil && isT && t.w > 0 {
			// a function of a code variable?
			for _, cr := range rec.locs {
				for _, f := range e.views {
					v0 := e.viewOf(rec.pre.st, cr.v0, f)
					x := e.viewOf(rec.head, cr.x, f)
					if e.trace {
						fmt.Fprintf(os.Stderr, "VIEW %s %s of %s: %v %v spec %v\n", f.Name(), cr.l, trunc(key(cr.x)), v0, x, t)
					}
					if v0 == nil || x == nil || v0.w != t.w || used[cr] != "" {
						continue
					}
					if e.s.Check(append(it.st.pc.list(), e.c.Not(e.c.Eq(v0, t)))) != Unsat {
						continue
					}
					match[sr.l.String()], views[sr.l.String()], used[cr] = cr, f, sr.l.String()
					return x
				}
			}
		}
		if best == nil {
			panic(unsup("specification loop variable %s (%s, %s) has no counterpart", sr.l, sr.kind, trunc(key(sr.v0))))
		}
		match[sr.l.String()] = best
		used[best] = sr.l.String()
		return e.transplant(g.st, rec, best)
	}
	recs, _, g, _ := e.generic(r, l, it, conts, rec.k, rec.id, rec.mark, choose)
	fails := len(e.fails)
	_ = fails
	// step: in every continuing code outcome the specification continues and stays related
	for _, cn := range rec.conts {
		s := g.clone()
		ns := cn.st.fork()
		// specification heap on top of the code's
		for id, v := range g.st.heap {
			if _, inCode := cn.st.heap[id]; !inCode {
				ns.heap[id] = v
			}
		}
		for _, sr := range recs {
			if sr.l.reg == nil {
				ns.heap[sr.l.obj] = e.obj(g.st, sr.l.obj)
			}
		}
		memo := map[*Term]bool{}
		have := map[*Term]bool{}
		for p := ns.pc; p != nil; p = p.prev {
			have[p.t] = true
		}
		for _, t := range it.st.pc.list() {
			if !have[t] && !e.mentionsAfter(t, rec.mark, memo) {
				ns.assume(t)
			}
		}
		ns.loops = cn.st.loops
		s.st = ns
		if !e.sat(ns) {
			continue
		}
		q := e.oneIter(r.fi, l, s)
		for _, x := range q.exits {
			if e.sat(x.st) {
				e.fail(x.st, "loop", "code continues where the specification stops", rec.where, "refuted")
			}
		}
		for _, o := range q.rets {
			if e.sat(o.st) {
				e.fail(o.st, "loop", "code continues where the specification returns", rec.where, "refuted")
			}
		}
		for _, sc := range e.liveAt(r.fi, q.conts) {
			for _, sr := range recs {
				if sr.kind == "affine" {
					continue
				}
				cr := match[sr.l.String()]
				cv := e.getLoc(cn, cr.l)
				sv := e.getLoc(sc, sr.l)
				if f := views[sr.l.String()]; f != nil {
					t := e.viewOf(cn.st, cv, f)
					if t == nil {
						panic(unsup("view %s of a loop variable", f.Name()))
					}
					cv = t
				}
				e.relate(sc.st, cv, sv, cr, sr, rec.where)
			}
		}
	}
	// exits
	q := e.oneIter(r.fi, l, g)
	for _, cn := range q.conts {
		if e.sat(cn.st) {
			e.fail(cn.st, "loop", "code stops where the specification continues", rec.where, "refuted")
		}
	}
	for _, x := range e.liveAt(r.fi, q.exits) {
		r.push(x)
	}
	r.rets = append(r.rets, q.rets...)
	return true, ""
}

// viewOf applies a view function of the harness to a code value (nil: it does
// not apply).
func (e *Engine) viewOf(st *State, v Val, f *ssa.Function) (t *Term) {
	if x, ok := v.(*VIte); ok {
		a, b := e.viewOf(st, x.a, f), e.viewOf(st, x.b, f)
		if a == nil || b == nil || a.w != b.w {
			return nil
		}
		return e.c.Ite(x.c, a, b)
	}
	switch v.(type) {
	case *VPtr, Nil:
	default:
		return nil
	}
	e.quiet++
	save := e.qfail
	defer func() {
		e.quiet--
		e.qfail = save
		if x := recover(); x != nil {
			switch x.(type) {
			case unsupErr, forkReq:
				t = nil
				return
			}
			panic(x)
		}
	}()
	if p, ok := v.(*VPtr); ok && len(p.path) == 0 {
		// the pointee must have the type that the view expects
		want, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		s, ok := want.Elem().Underlying().(*types.Struct)
		o, ok2 := e.obj(st, p.obj).(*VStruct)
		if !ok || !ok2 || len(o.f) != s.NumFields() {
			return nil
		}
	}
	e.qfail = false
	outs := e.exec(st.fork(), f, []Val{v}, nil)
	if len(outs) != 1 || len(outs[0].rets) != 1 || e.qfail {
		return nil
	}
	t, _ = outs[0].rets[0].(*Term)
	return t
}

func shapeClass(v Val) string { return fmt.Sprintf("%T", v) }

// mentionsAfter: does t mention a variable created after the mark?
func (e *Engine) mentionsAfter(t *Term, mark int, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	r := false
	if t.op == OVar && t.id > mark {
		r = true
	}
	for _, a := range t.args {
		if e.mentionsAfter(a, mark, memo) {
			r = true
		}
	}
	memo[t] = r
	return r
}

// transplant gives the specification the symbolic head value of the code variable.
func (e *Engine) transplant(st *State, rec *LoopRec, cr *locRec) Val {
	return cr.x
}

// related: are the initial values related?
func (e *Engine) related(st *State, cv, sv Val, cst *State) bool {
	e.quiet++
	save := e.qfail
	e.qfail = false
	defer func() { e.quiet--; e.qfail = save }()
	ok := func() (ok bool) {
		defer func() {
			if x := recover(); x != nil {
				switch x.(type) {
				case unsupErr, forkReq:
					ok = false
					return
				}
				panic(x)
			}
		}()
		s := st.fork()
		for id, v := range cst.heap {
			s.heap[id] = v
		}
		e.cmpAny(s, "loop", "", cv, sv)
		return true
	}()
	return ok && !e.qfail
}

func (e *Engine) relate(st *State, cv, sv Val, cr, sr *locRec, where string) {
	switch sr.kind {
	case "append":
		cd, ok1 := strPrefix(cr.x.(*SStr), cv.(*SStr))
		sd, ok2 := strPrefix(sr.x.(*SStr), sv.(*SStr))
		if !ok1 || !ok2 {
			panic(unsup("loop text is not append-only"))
		}
		e.cmpStr(st, "loop", where, cd, sd)
		return
	case "lappend":
		cd, ok1 := listPrefix(e.asList(st, cr.x), e.asList(st, cv))
		sd, ok2 := listPrefix(e.asList(st, sr.x), e.asList(st, sv))
		if !ok1 || !ok2 {
			panic(unsup("loop list is not append-only"))
		}
		e.cmpList(st, "loop", where, cd, sd)
		return
	}
	e.cmpAny(st, "loop", where, cv, sv)
}
