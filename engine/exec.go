package main

// SSA interpreter over symbolic states, with merging at joins and returns.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type PC struct {
	prev *PC
	t    *Term
	n    int
}
type State struct {
	heap  map[int]Val
	pc    *PC
	loops *LoopRec
}

func (s *State) fork() *State {
	h := make(map[int]Val, len(s.heap)+4)
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{heap: h, pc: s.pc, loops: s.loops}
}
func (s *State) assume(t *Term) {
	if t.IsTrue() {
		return
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &PC{s.pc, t, n}
}
func (p *PC) list() []*Term {
	var out []*Term
	for ; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type forkReq struct{ c *Term }
type caseReq struct{ n int }
type deadState struct{}

type Failure struct {
	Facet  string            `json:"facet"`
	What   string            `json:"what"`
	Pos    string            `json:"pos"`
	Model  map[string]string `json:"model,omitempty"`
	Status string            `json:"status"` // refuted | unknown
	Case   int               `json:"case"`
	Soft   bool              `json:"soft,omitempty"`
	pc     []*Term
}

type Prog struct {
	prog       *ssa.Program
	mu         sync.Mutex
	info       map[*ssa.Function]*fnInfo
	built      map[*ssa.Package]bool
	impl       map[string]*ssa.Function
	item, node itemInfo
	nodeKind   int
	lin        sync.Map
}

type dkey struct {
	pc *PC
	id int
}

type Engine struct {
	P        *Prog
	c        *TC
	s        *Solver
	base     map[int]Val
	nobj     int
	globals  map[*ssa.Global]int
	owned    map[int]string // objects of package-level variables of the code
	inited   map[*ssa.Package]bool
	fails    []*Failure
	quiet    int
	nodrop   int
	drops    []string
	hints    []map[string]string
	nfmt     int
	qfail    bool
	oblig    map[string]int
	inputs   []*Input
	depth    int
	dl       time.Time
	steps    int
	contr    map[string]*ssa.Function // contracts in force (callee name -> stub)
	views    []*ssa.Function          // functions that relate code state to specification state
	used     map[string]bool          // functions executed (under contract / inlined)
	trusted  map[string]bool          // external models used
	mapRng   bool
	mapRev   bool
	bound    map[string]bool
	inline   bool
	lits     map[string]int
	caseIdx  int
	known    map[string]*Term
	dcache   map[dkey]int
	memo     map[string]Val
	stack    []*ssa.Function
	par      int // >0 while spec side runs
	nloops   int
	searches []search
	firsts   map[string]int
	trace    bool
	reach    int
	facets   map[string]int
	lastWhy  string
}

func NewEngine(p *Prog) *Engine {
	c := NewTC()
	return &Engine{P: p, c: c, s: NewSolver(c), base: map[int]Val{}, globals: map[*ssa.Global]int{}, owned: map[int]string{},
		inited: map[*ssa.Package]bool{}, oblig: map[string]int{}, contr: map[string]*ssa.Function{}, bound: map[string]bool{}, lits: map[string]int{},
		used: map[string]bool{}, trusted: map[string]bool{}, known: map[string]*Term{}, dcache: map[dkey]int{},
		memo: map[string]Val{}, facets: map[string]int{}}
}

func (e *Engine) alloc(st *State, v Val) int {
	e.nobj++
	if st == nil {
		e.base[e.nobj] = v
	} else {
		st.heap[e.nobj] = v
	}
	return e.nobj
}
func (e *Engine) obj(st *State, id int) Val {
	if v, ok := st.heap[id]; ok {
		return v
	}
	if v, ok := e.base[id]; ok {
		return v
	}
	panic(unsup("dangling object %d", id))
}

// ---- feasibility
func (e *Engine) sat(st *State, extra ...*Term) bool {
	l := append(st.pc.list(), extra...)
	r := e.s.Check(l)
	return r != Unsat
}

// decide returns 1 (must be true), 0 (must be false) or -1.
func (e *Engine) decide(st *State, c *Term) int {
	if c.IsConst() {
		return int(c.val)
	}
	nc := e.c.Not(c)
	for p := st.pc; p != nil; p = p.prev {
		if p.t == c {
			return 1
		}
		if p.t == nc {
			return 0
		}
		if p.t.op == OAnd {
			for _, a := range p.t.args {
				if a == c {
					return 1
				}
				if a == nc {
					return 0
				}
			}
		}
	}
	k := dkey{st.pc, c.id}
	if r, ok := e.dcache[k]; ok {
		return r
	}
	r := -1
	if !e.sat(st, c) {
		r = 0
	} else if !e.sat(st, nc) {
		r = 1
	}
	e.dcache[k] = r
	return r
}

// res resolves a conditional value, forking if necessary.
func (e *Engine) res(st *State, v Val) Val {
	for {
		x, ok := v.(*VIte)
		if !ok {
			if p, bad := v.(*VPoison); bad {
				panic(unsup("use of poison: %s", p.why))
			}
			return v
		}
		switch e.decide(st, x.c) {
		case 1:
			v = x.a
		case 0:
			v = x.b
		default:
			panic(forkReq{x.c})
		}
	}
}

func (e *Engine) fail(st *State, facet, what, pos, status string, extra ...*Term) {
	if e.quiet > 0 {
		e.qfail = true
		return
	}
	pc := append(st.pc.list(), extra...)
	for _, f := range e.fails {
		if f.Facet == facet && f.What == what && f.Pos == pos {
			return
		}
	}
	e.fails = append(e.fails, &Failure{Facet: facet, What: what, Pos: pos, Status: status, pc: pc, Soft: soft(pc), Model: e.model(pc)})
}

// require is a safety obligation.
func (e *Engine) require(st *State, cond *Term, what string, pos string) {
	if e.quiet == 0 {
		e.oblig["safety"]++
	}
	if cond.IsTrue() {
		return
	}
	nc := e.c.Not(cond)
	switch e.s.Check(append(st.pc.list(), nc)) {
	case Unsat:
		return
	case Unknown:
		e.fail(st, "safety", what, pos, "unknown", nc)
	default:
		e.fail(st, "safety", what, pos, "refuted", nc)
	}
	if !e.sat(st, cond) {
		panic(deadState{})
	}
	st.assume(cond)
}

// ---- function info
type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}
type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*Loop
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (p *Prog) ensureBuilt(fn *ssa.Function) {
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.built[pk] {
		pk.Build()
		p.built[pk] = true
	}
}

func (p *Prog) fnInfo(fn *ssa.Function) *fnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi, ok := p.info[fn]; ok {
		return fi
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i, b := range post {
		fi.rpo[b] = len(post) - 1 - i
	}
	for _, b := range post {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := fi.loops[h]
				if l == nil {
					l = &Loop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					fi.loops[h] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	// liveness
	fi.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range post {
		fi.live[b] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for ch := true; ch; {
		ch = false
		for _, b := range post {
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for i, pr := range s.Preds {
					if pr == b {
						pi = i
					}
				}
				for v := range fi.live[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					cur[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if isReg(ph.Edges[pi]) {
						cur[ph.Edges[pi]] = true
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					if _, phi := in.(*ssa.Phi); !phi {
						delete(cur, v)
					}
				}
				if _, phi := in.(*ssa.Phi); phi {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isReg(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !fi.live[b][v] {
					fi.live[b][v] = true
					ch = true
				}
			}
		}
	}
	p.info[fn] = fi
	return fi
}

// ---- items
type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}
type Item struct {
	st   *State
	regs map[ssa.Value]Val
	b    *ssa.BasicBlock
	idx  int
	defs []*deferred
}

func (it *Item) clone() *Item {
	r := make(map[ssa.Value]Val, len(it.regs)+4)
	for k, v := range it.regs {
		r[k] = v
	}
	return &Item{st: it.st.fork(), regs: r, b: it.b, idx: it.idx, defs: it.defs}
}

type Out struct {
	st   *State
	rets []Val
}

const maxDepth = 120

func pos(e *Engine, in ssa.Instruction) string {
	p := e.P.prog.Fset.Position(in.Pos())
	if !p.IsValid() {
		return in.Parent().String()
	}
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		if j := strings.LastIndex(f[:i], "/"); j >= 0 {
			f = f[j+1:]
		}
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// exec runs a function on all paths and merges its outcomes.
func (e *Engine) exec(st *State, fn *ssa.Function, args, binds []Val) []Out {
	if len(e.stack) > maxDepth {
		panic(unsup("recursion depth at %s", fn))
	}
	n := 0
	for _, f := range e.stack {
		if f == fn {
			n++
		}
	}
	if n > 6 {
		panic(unsup("unbounded recursion of %s", fn))
	}
	e.P.ensureBuilt(fn)
	if len(fn.Blocks) == 0 {
		panic(unsup("no body: %s", fn))
	}
	e.used[fn.String()] = true
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	regs := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		regs[p] = binds[i]
	}
	fi := e.P.fnInfo(fn)
	r := &region{e: e, fi: fi}
	r.push(&Item{st: st, regs: regs, b: fn.Blocks[0]})
	r.run()
	return e.mergeOuts(r.rets, fn)
}

type region struct {
	e        *Engine
	fi       *fnInfo
	loop     *Loop
	queue    map[*ssa.BasicBlock][]*Item
	mid      []*Item
	conts    []*Item
	exits    []*Item
	rets     []Out
	constEx  bool
	symEx    bool
	fromHead bool
}

func (r *region) push(it *Item) {
	if r.loop != nil {
		if it.idx == 0 && it.b == r.loop.head && r.fromHead {
			r.conts = append(r.conts, it)
			return
		}
		if !r.loop.blocks[it.b] {
			r.exits = append(r.exits, it)
			return
		}
	}
	if it.idx > 0 {
		r.mid = append(r.mid, it)
		return
	}
	if r.queue == nil {
		r.queue = map[*ssa.BasicBlock][]*Item{}
	}
	r.queue[it.b] = append(r.queue[it.b], it)
}

func (r *region) run() {
	e := r.e
	for {
		if time.Now().After(e.dl) || e.late() {
			panic(unsup("timeout"))
		}
		if len(r.mid) > 0 {
			it := r.mid[len(r.mid)-1]
			r.mid = r.mid[:len(r.mid)-1]
			r.attempt(it, func() { r.block(it) })
			continue
		}
		var best *ssa.BasicBlock
		for b, q := range r.queue {
			if len(q) > 0 && (best == nil || r.fi.rpo[b] < r.fi.rpo[best]) {
				best = b
			}
		}
		if best == nil {
			return
		}
		items := r.queue[best]
		delete(r.queue, best)
		live := r.fi.live[best]
		for _, it := range items {
			for k := range it.regs {
				if !live[k] {
					delete(it.regs, k)
				}
			}
		}
		items = e.mergeItems(items)
		l := r.fi.loops[best]
		for _, it := range items {
			if l != nil && l != r.loop && !(r.loop != nil && r.loop.head == best) {
				r.attempt(it, func() { e.handleLoop(r, l, it) })
			} else {
				if l != nil {
					r.fromHead = true
				}
				r.attempt(it, func() { r.block(it) })
			}
		}
	}
}

// attempt runs f; if it meets something the engine cannot handle, the path ends
// there: the obligation is then undecided, but the other paths are still
// checked, and the path condition is kept as a hint for a native search.
func (r *region) attempt(it *Item, f func()) {
	e := r.e
	if e.nodrop > 0 || e.quiet > 0 {
		f()
		return
	}
	depth := len(e.stack)
	pc := it.st.pc
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		u, ok := x.(unsupErr)
		if !ok {
			panic(x)
		}
		e.drop(it, pc, u)
		if u.why == "timeout" || len(e.drops) > 30 {
			panic(x)
		}
		e.stack = e.stack[:depth]
	}()
	f()
}

func (e *Engine) drop(it *Item, pc *PC, u unsupErr) {
	if len(e.drops) > 0 && e.drops[len(e.drops)-1] == u.why && u.why == "timeout" {
		return
	}
	if e.trace {
		fmt.Fprintf(os.Stderr, "DROP %s: %s\n", it.b.Parent(), u.why)
	}
	e.drops = append(e.drops, u.why)
	if len(e.hints) >= 8 {
		return
	}
	defer func() { recover() }()
	for _, p := range []*PC{it.st.pc, pc} {
		if m := e.model(p.list()); m != nil {
			e.hints = append(e.hints, m)
			return
		}
	}
}

// block executes the rest of a basic block.
func (r *region) block(it *Item) {
	e := r.e
	for {
		again, ok := r.steps(it)
		if ok {
			return
		}
		if again == nil { // dead
			return
		}
		// fork
		c := again
		nc := e.c.Not(c)
		if e.trace {
			x := c.String()
			if len(x) > 120 {
				x = x[:120]
			}
			fmt.Fprintf(os.Stderr, "FORK %s %s\n", pos(e, it.b.Instrs[it.idx]), x)
		}
		other := it.clone()
		it.st.assume(c)
		other.st.assume(nc)
		if e.sat(other.st) {
			r.mid = append(r.mid, other)
			if other.idx == 0 { // push requires mid handling even at idx 0
			}
		}
		if !e.sat(it.st) {
			return
		}
	}
}

func (r *region) steps(it *Item) (fork *Term, done bool) {
	defer func() {
		if x := recover(); x != nil {
			switch f := x.(type) {
			case forkReq:
				fork, done = f.c, false
			case deadState:
				fork, done = nil, false
			default:
				panic(x)
			}
		}
	}()
	for it.idx < len(it.b.Instrs) {
		in := it.b.Instrs[it.idx]
		r.e.steps++
		if r.step(it, in) {
			return nil, true
		}
		it.idx++
	}
	return nil, true
}

func (r *region) jump(it *Item, to *ssa.BasicBlock) {
	from := it.b
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	type kv struct {
		k ssa.Value
		v Val
	}
	var nv []kv
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nv = append(nv, kv{ph, r.e.get(it, ph.Edges[pi])})
	}
	for _, x := range nv {
		it.regs[x.k] = x.v
	}
	it.b = to
	it.idx = 0
	r.push(it)
}

// nilTest: a comparison with nil, or the result of a call, bounds no loop.
func nilTest(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.NOT && nilTest(x.X)
	case *ssa.Call:
		return true
	case *ssa.Extract:
		_, call := x.Tuple.(*ssa.Call)
		return call
	}
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		if k, ok := o.(*ssa.Const); ok && k.Value == nil {
			return true
		}
	}
	return false
}

func isErrType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// ---- merging
func nilClass(v Val) int {
	switch x := v.(type) {
	case Nil:
		return 1
	case *VErr, *VIface:
		return 2
	case *VIte:
		a, b := nilClass(x.a), nilClass(x.b)
		if a == b {
			return a
		}
		return 3
	}
	return 0
}
func retClass(vs []Val) string {
	var sb strings.Builder
	for _, v := range vs {
		if t, ok := v.(*VTuple); ok {
			sb.WriteString(retClass(t.e))
			continue
		}
		fmt.Fprintf(&sb, "%d", nilClass(v))
	}
	return sb.String()
}

func (e *Engine) itemClass(it *Item) string {
	var ks []string
	for v, x := range it.regs {
		t := v.Type()
		if isErrType(t) {
			ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), nilClass(x)))
		} else if tp, ok := t.(*types.Tuple); ok {
			if tv, ok := x.(*VTuple); ok {
				for i := 0; i < tp.Len(); i++ {
					if isErrType(tp.At(i).Type()) {
						ks = append(ks, fmt.Sprintf("%s.%d=%d", v.Name(), i, nilClass(tv.e[i])))
					}
				}
			}
		} else if p, ok := x.(*VPoison); ok {
			_ = p
		}
	}
	sort.Strings(ks)
	d := ""
	for _, x := range it.defs {
		d += fmt.Sprintf("|%p", x)
	}
	return strings.Join(ks, ",") + d + fmt.Sprintf("|%p", it.st.loops)
}

func (e *Engine) mergeItems(items []*Item) []*Item {
	if len(items) < 2 {
		return items
	}
	groups := map[string][]*Item{}
	var order []string
	for _, it := range items {
		k := e.itemClass(it)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], it)
	}
	var out []*Item
	for _, k := range order {
		g := groups[k]
		for len(g) > 1 {
			// merge the pair with the longest common path condition
			bi, bj, bl := 0, 1, -1
			for i := 0; i < len(g); i++ {
				for j := i + 1; j < len(g); j++ {
					if e.apart(g[i].st, g[j].st) || e.apartRegs(g[i], g[j]) {
						continue
					}
					p := commonPC(g[i].st.pc, g[j].st.pc)
					n := 0
					if p != nil {
						n = p.n
					}
					if n > bl {
						bi, bj, bl = i, j, n
					}
				}
			}
			if bl < 0 {
				break
			}
			m := e.merge2(g[bi], g[bj])
			g[bi] = m
			g = append(g[:bj], g[bj+1:]...)
		}
		out = append(out, g...)
	}
	return out
}

// apart: states in which the same place holds different readers are kept apart,
// so that what is read from is always definite.
func (e *Engine) apart(a, b *State) bool {
	for id, x := range a.heap {
		if y, ok := b.heap[id]; ok && x != y && e.apartVal(a, b, x, y) {
			return true
		}
	}
	return false
}
func (e *Engine) apartRegs(a, b *Item) bool {
	for r, x := range a.regs {
		if y, ok := b.regs[r]; ok && x != y && e.apartVal(a.st, b.st, x, y) {
			return true
		}
	}
	return false
}
func (e *Engine) apartRets(a, b Out) bool {
	for i, x := range a.rets {
		if x != b.rets[i] && e.apartVal(a.st, b.st, x, b.rets[i]) {
			return true
		}
	}
	return false
}
func (e *Engine) apartVal(a, b *State, x, y Val) bool {
	switch p := x.(type) {
	case *VStruct:
		q, ok := y.(*VStruct)
		if !ok || len(p.f) != len(q.f) {
			return false
		}
		for i := range p.f {
			if p.f[i] != q.f[i] && e.apartVal(a, b, p.f[i], q.f[i]) {
				return true
			}
		}
	case *VTuple:
		q, ok := y.(*VTuple)
		if !ok || len(p.e) != len(q.e) {
			return false
		}
		for i := range p.e {
			if p.e[i] != q.e[i] && e.apartVal(a, b, p.e[i], q.e[i]) {
				return true
			}
		}
	case *VIface:
		q, ok := y.(*VIface)
		return ok && e.apartVal(a, b, p.v, q.v)
	case *VPtr:
		q, ok := y.(*VPtr)
		return ok && p.obj != q.obj && isReader(a.heap[p.obj]) && isReader(b.heap[q.obj])
	}
	return false
}
func isReader(v Val) bool {
	x, ok := v.(*VExt)
	if !ok {
		return false
	}
	switch x.kind {
	case "rdr", "buffer", "reader", "readcloser", "src", "tee", "teebuf", "oreader", "scanner":
		return true
	}
	return strings.HasPrefix(x.kind, "taken:")
}

func commonPC(a, b *PC) *PC {
	for a != b {
		an, bn := 0, 0
		if a != nil {
			an = a.n
		}
		if b != nil {
			bn = b.n
		}
		if an >= bn {
			a = a.prev
		} else {
			b = b.prev
		}
	}
	return a
}

func (e *Engine) mergeState(a, b *State) (*State, *Term) {
	c := e.c
	p := commonPC(a.pc, b.pc)
	var ca, cb []*Term
	for x := a.pc; x != p; x = x.prev {
		ca = append([]*Term{x.t}, ca...)
	}
	for x := b.pc; x != p; x = x.prev {
		cb = append([]*Term{x.t}, cb...)
	}
	var sel *Term
	if len(ca) == 0 {
		sel = c.Not(c.And(cb...))
	} else if len(cb) == 0 {
		sel = c.And(ca...)
	} else if ca[0] == c.Not(cb[0]) {
		sel = ca[0]
		ca = ca[1:]
		cb = cb[1:]
		st := &State{heap: nil, pc: p, loops: a.loops}
		st.assume(c.Implies(sel, c.And(ca...)))
		st.assume(c.Implies(c.Not(sel), c.And(cb...)))
		st.heap = e.mergeHeap(sel, a.heap, b.heap)
		return st, sel
	} else {
		sel = c.And(ca...)
	}
	st := &State{pc: p, loops: a.loops}
	st.assume(c.Or(c.And(ca...), c.And(cb...)))
	st.heap = e.mergeHeap(sel, a.heap, b.heap)
	return st, sel
}

func (e *Engine) mergeHeap(sel *Term, a, b map[int]Val) map[int]Val {
	h := make(map[int]Val, len(a)+8)
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			if bv, ok := e.base[k]; ok {
				w = bv
			} else {
				h[k] = v
				continue
			}
		}
		h[k] = e.c.mergeVal(sel, v, w)
	}
	for k, w := range b {
		if _, ok := a[k]; ok {
			continue
		}
		if bv, ok := e.base[k]; ok {
			h[k] = e.c.mergeVal(sel, bv, w)
		} else {
			h[k] = w
		}
	}
	return h
}

func (e *Engine) merge2(a, b *Item) *Item {
	st, sel := e.mergeState(a.st, b.st)
	regs := make(map[ssa.Value]Val, len(a.regs))
	for k, v := range a.regs {
		if w, ok := b.regs[k]; ok {
			regs[k] = e.c.mergeVal(sel, v, w)
		}
	}
	return &Item{st: st, regs: regs, b: a.b, idx: a.idx, defs: a.defs}
}

func (e *Engine) mergeOuts(outs []Out, fn *ssa.Function) []Out {
	if len(outs) < 2 {
		return outs
	}
	res := fn.Signature.Results()
	groups := map[string][]Out{}
	var order []string
	for _, o := range outs {
		k := fmt.Sprintf("%p|", o.st.loops)
		for i := range o.rets {
			if isErrType(res.At(i).Type()) {
				k += fmt.Sprintf("%d", nilClass(o.rets[i]))
			} else if t, ok := o.rets[i].(*Term); ok && t.w == 0 && t.IsConst() && i == res.Len()-1 {
				k += fmt.Sprintf("b%d", t.val)
			} else {
				k += "-"
			}
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var out []Out
	for _, k := range order {
		g := groups[k]
		for len(g) > 1 {
			bi, bj, bl := 0, 1, -1
			for i := 0; i < len(g); i++ {
				for j := i + 1; j < len(g); j++ {
					if e.apart(g[i].st, g[j].st) || e.apartRets(g[i], g[j]) {
						continue
					}
					p := commonPC(g[i].st.pc, g[j].st.pc)
					n := 0
					if p != nil {
						n = p.n
					}
					if n > bl {
						bi, bj, bl = i, j, n
					}
				}
			}
			if bl < 0 {
				break
			}
			st, sel := e.mergeState(g[bi].st, g[bj].st)
			rets := make([]Val, len(g[bi].rets))
			for i := range rets {
				rets[i] = e.c.mergeVal(sel, g[bi].rets[i], g[bj].rets[i])
			}
			g[bi] = Out{st, rets}
			g = append(g[:bj], g[bj+1:]...)
		}
		out = append(out, g...)
	}
	return out
}

// ---- operands
func width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -2
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return -2
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func byteElem(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func runeElem(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (e *Engine) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return e.zero(t)
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return e.c.Bool(constant.BoolVal(k.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(k.Value)
			if i, ok := constant.Int64Val(v); ok {
				return e.c.BV(width(t), uint64(i))
			}
			u, _ := constant.Uint64Val(v)
			return e.c.BV(width(t), u)
		case b.Info()&types.IsString != 0:
			return lit(constant.StringVal(k.Value))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(k.Value)
			return &VExt{fmt.Sprintf("fconst:%v", f), nil}
		}
	}
	panic(unsup("const %v", k))
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return t.String()
}

func (e *Engine) zero(t types.Type) Val {
	switch typeName(t) {
	case "bytes.Buffer", "strings.Builder":
		return &VExt{"buffer", []Val{lit("")}}
	case "time.Time":
		return &VExt{"timezero", nil}
	case "sync.Once", "sync.Mutex":
		return &VExt{"sync", nil}
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return e.c.ff
		case b.Info()&types.IsInteger != 0:
			return e.c.BV(width(t), 0)
		case b.Info()&types.IsString != 0:
			return lit("")
		case b.Info()&types.IsFloat != 0:
			return &VExt{"fconst:0", nil}
		case b.Kind() == types.UnsafePointer:
			return Nil{}
		case b.Kind() == types.UntypedNil:
			return Nil{}
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return Nil{}
	case *types.Struct:
		f := make([]Val, b.NumFields())
		for i := range f {
			f[i] = e.zero(b.Field(i).Type())
		}
		return &VStruct{f}
	case *types.Array:
		if b.Len() > 4096 {
			return &VPoison{"large array"}
		}
		f := make([]Val, b.Len())
		for i := range f {
			f[i] = e.zero(b.Elem())
		}
		return &VArr{f}
	case *types.Tuple:
		f := make([]Val, b.Len())
		for i := range f {
			f[i] = e.zero(b.At(i).Type())
		}
		return &VTuple{f}
	}
	panic(unsup("zero of %v", t))
}

func (e *Engine) get(it *Item, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.global(it.st, x)
	case *ssa.Function:
		return &VClosure{fn: x}
	case *ssa.Builtin:
		return VBuiltin{x.Name()}
	}
	r, ok := it.regs[v]
	if !ok {
		panic(unsup("undefined register %s in %s", v.Name(), it.b.Parent()))
	}
	return r
}

var repoPath = "github.com/spiegel-im-spiegel/gpgpdump"

func initable(path string) bool {
	return strings.HasPrefix(path, repoPath) || strings.HasPrefix(path, "gpgverif/") || path == "encoding/binary"
}

func (e *Engine) sentinel(name string) *VErr {
	m := opq("errmsg:" + name)
	switch name {
	case "io.EOF":
		m = lit("EOF")
	case "io.ErrUnexpectedEOF":
		m = lit("unexpected EOF")
	}
	return &VErr{msg: m, is: map[string]*Term{name: e.c.tt}}
}

func (e *Engine) global(st *State, g *ssa.Global) Val {
	if id, ok := e.globals[g]; ok {
		return &VPtr{obj: id}
	}
	id := 0
	elem := g.Type().(*types.Pointer).Elem()
	path := g.Pkg.Pkg.Path()
	if initable(path) {
		id = e.alloc(nil, e.zero(elem))
		e.globals[g] = id
		if stateless(path) {
			e.owned[id] = path + "." + g.Name()
		}
		e.ensureInit(g.Pkg)
		return &VPtr{obj: id}
	}
	name := path + "." + g.Name()
	switch {
	case isErrType(elem):
		id = e.alloc(nil, e.sentinel(name))
	case name == "time.UTC":
		id = e.alloc(nil, &VExt{"loc:UTC", nil})
	case name == "time.Local":
		id = e.alloc(nil, &VExt{"loc:Local", nil})
	default:
		id = e.alloc(nil, &VExt{"global:" + name, nil})
	}
	e.globals[g] = id
	return &VPtr{obj: id}
}

func (e *Engine) ensureInit(p *ssa.Package) {
	if e.inited[p] {
		return
	}
	e.inited[p] = true
	fn := p.Func("init")
	if fn == nil {
		return
	}
	save := e.stack
	e.stack = nil
	defer func() { e.stack = save }()
	st := &State{heap: map[int]Val{}}
	outs := e.exec(st, fn, nil, nil)
	if len(outs) != 1 {
		panic(unsup("init of %s forks", p.Pkg.Path()))
	}
	for k, v := range outs[0].st.heap {
		e.base[k] = v
		if _, ok := e.owned[k]; !ok && stateless(p.Pkg.Path()) {
			e.owned[k] = p.Pkg.Path()
		}
	}
}

// stateless are the packages whose functions are called any number of times in a
// process; the command is executed once.
func stateless(path string) bool {
	return strings.HasPrefix(path, repoPath) && !strings.HasPrefix(path, repoPath+"/facade")
}

// late tells whether the run is to end: out of time, or enough is known.
func (e *Engine) late() bool {
	t := stopAt.Load()
	return t != 0 && time.Now().UnixNano() > t
}

// ---- memory
func (e *Engine) load(st *State, p Val, in ssa.Instruction) Val {
	p = e.res(st, p)
	switch x := p.(type) {
	case *VPtr:
		v := e.obj(st, x.obj)
		for _, i := range x.path {
			v = e.res(st, v)
			switch y := v.(type) {
			case *VStruct:
				v = y.f[i]
			case *VArr:
				v = y.e[i]
			case *VExt:
				panic(unsup("field of external %s", y.kind))
			default:
				panic(unsup("load path into %T", v))
			}
		}
		return v
	case Nil:
		e.require(st, e.c.ff, "nil dereference", pos(e, in))
		panic(deadState{})
	case *VExt:
		switch x.kind {
		case "byteptr":
			b := x.f[0].(*VBytes)
			return e.c.Select(e.arrOf(st, b), e.c.Add(b.off, x.f[1].(*Term)))
		case "strptr":
			return e.strIndex(st, x.f[0].(*SStr), x.f[1].(*Term))
		case "cellptr":
			return e.cellLoad(st, x.f[0], x.f[1].(*Term))
		case "listptr":
			return e.listIndex(st, x.f[0].(*VList), x.f[1].(*Term))
		}
		panic(unsup("load through %s", x.kind))
	case *VFrozen:
		return x.v
	}
	panic(unsup("load through %T", p))
}

func (e *Engine) cellLoad(st *State, base Val, idx *Term) Val {
	var cells []Val
	switch b := base.(type) {
	case *VSlice:
		cells = e.obj(st, b.obj).(*VArr).e[b.off : b.off+b.n]
	case *VPtr:
		cells = e.load(st, b, nil).(*VArr).e
	}
	return e.pick(cells, idx)
}

func (e *Engine) pick(cells []Val, idx *Term) Val {
	if len(cells) == 0 || len(cells) > 512 {
		panic(unsup("cell load"))
	}
	r := cells[len(cells)-1]
	for i := len(cells) - 2; i >= 0; i-- {
		r = e.c.mergeVal(e.c.Eq(idx, e.c.I64(int64(i))), cells[i], r)
	}
	return r
}

func (e *Engine) arrOf(st *State, b *VBytes) *Term {
	if b.arr != nil {
		return b.arr
	}
	return e.obj(st, b.obj).(*Term)
}

func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch y := v.(type) {
	case *VStruct:
		f := append([]Val{}, y.f...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return &VStruct{f}
	case *VArr:
		f := append([]Val{}, y.e...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return &VArr{f}
	}
	panic(unsup("store path into %T", v))
}

func (e *Engine) store(st *State, p Val, v Val, in ssa.Instruction) {
	p = e.res(st, p)
	switch x := p.(type) {
	case *VPtr:
		old := e.obj(st, x.obj)
		if len(x.path) > 0 {
			if _, ok := old.(*VIte); ok {
				old = e.res(st, old)
			}
		}
		st.heap[x.obj] = setPath(old, x.path, v)
		return
	case Nil:
		e.require(st, e.c.ff, "nil dereference", pos(e, in))
		panic(deadState{})
	case *VExt:
		if x.kind == "byteptr" {
			b := x.f[0].(*VBytes)
			if b.arr == nil {
				one := e.c.AVar("const8", v.(*Term))
				arr := e.obj(st, b.obj).(*Term)
				st.heap[b.obj] = e.c.ACopy(arr, e.c.Add(b.off, x.f[1].(*Term)), one, e.c.I64(0), e.c.I64(1))
				return
			}
		}
		if x.kind == "cellptr" {
			e.cellStore(st, x.f[0], x.f[1].(*Term), v, in)
			return
		}
		panic(unsup("store through %s", x.kind))
	}
	panic(unsup("store through %T", p))
}

// cellStore stores into an element whose index is not known.
func (e *Engine) cellStore(st *State, v Val, idx *Term, x Val, in ssa.Instruction) {
	base := func(i int) *VPtr { return nil }
	n := 0
	switch a := v.(type) {
	case *VPtr:
		arr, ok := e.load(st, a, in).(*VArr)
		if !ok {
			panic(unsup("store into external array"))
		}
		n = len(arr.e)
		base = func(i int) *VPtr { return &VPtr{a.obj, append(append([]int{}, a.path...), i)} }
	case *VSlice:
		n = a.n
		base = func(i int) *VPtr { return &VPtr{a.obj, []int{a.off + i}} }
	default:
		panic(unsup("store into %T", v))
	}
	for i := 0; i < n; i++ {
		p := base(i)
		e.store(st, p, e.c.mergeVal(e.c.Eq(idx, e.c.I64(int64(i))), x, e.load(st, p, in)), in)
	}
}

// ---- instructions
func (r *region) step(it *Item, in ssa.Instruction) bool {
	e := r.e
	c := e.c
	st := it.st
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
	case *ssa.Alloc:
		id := e.alloc(st, e.zero(x.Type().(*types.Pointer).Elem()))
		it.regs[x] = &VPtr{obj: id}
	case *ssa.UnOp:
		v := e.get(it, x.X)
		switch x.Op {
		case token.MUL:
			it.regs[x] = e.load(st, v, in)
		case token.NOT:
			it.regs[x] = c.Not(e.res(st, v).(*Term))
		case token.SUB:
			v = e.res(st, v)
			if t, ok := v.(*Term); ok {
				it.regs[x] = c.Sub(c.BV(t.w, 0), t)
			} else {
				it.regs[x] = &VExt{"fneg", []Val{v}}
			}
		case token.XOR:
			it.regs[x] = c.BNot(e.res(st, v).(*Term))
		default:
			panic(unsup("unop %v", x.Op))
		}
	case *ssa.BinOp:
		it.regs[x] = e.binop(st, x.Op, e.get(it, x.X), e.get(it, x.Y), x.X.Type(), x.Y.Type(), in)
	case *ssa.Convert:
		it.regs[x] = e.convert(st, e.get(it, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		it.regs[x] = e.get(it, x.X)
	case *ssa.ChangeInterface:
		it.regs[x] = e.get(it, x.X)
	case *ssa.MakeInterface:
		v := e.get(it, x.X)
		if er, ok := v.(*VErr); ok {
			it.regs[x] = er
		} else {
			it.regs[x] = &VIface{x.X.Type(), v}
		}
	case *ssa.TypeAssert:
		it.regs[x] = e.typeAssert(st, x, e.get(it, x.X))
	case *ssa.MakeClosure:
		cl := &VClosure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			cl.binds = append(cl.binds, e.get(it, b))
		}
		it.regs[x] = cl
	case *ssa.MakeMap:
		it.regs[x] = &VMapRef{e.alloc(st, &VMap{})}
	case *ssa.MapUpdate:
		e.mapUpdate(st, e.res(st, e.get(it, x.Map)), e.get(it, x.Key), e.get(it, x.Value), in)
	case *ssa.Lookup:
		it.regs[x] = e.lookup(st, x, e.res(st, e.get(it, x.X)), e.get(it, x.Index))
	case *ssa.MakeSlice:
		it.regs[x] = e.makeSlice(st, x, e.res(st, e.get(it, x.Len)).(*Term), in)
	case *ssa.Slice:
		var lo, hi Val
		if x.Low != nil {
			lo = e.get(it, x.Low)
		}
		if x.High != nil {
			hi = e.get(it, x.High)
		}
		if x.Max != nil {
			panic(unsup("3-index slice"))
		}
		it.regs[x] = e.slice(st, x.X.Type(), e.res(st, e.get(it, x.X)), lo, hi, in)
	case *ssa.FieldAddr:
		it.regs[x] = e.fieldAddr(st, e.res(st, e.get(it, x.X)), x.Field, in)
	case *ssa.Field:
		v := e.res(st, e.get(it, x.X))
		s, ok := v.(*VStruct)
		if !ok {
			panic(unsup("field of %T", v))
		}
		it.regs[x] = s.f[x.Field]
	case *ssa.IndexAddr:
		it.regs[x] = e.indexAddr(st, e.res(st, e.get(it, x.X)), e.toInt64(st, e.get(it, x.Index), x.Index.Type()), in)
	case *ssa.Index:
		idx := e.toInt64(st, e.get(it, x.Index), x.Index.Type())
		v := e.res(st, e.get(it, x.X))
		switch y := v.(type) {
		case *VArr:
			e.require(st, c.Ult(idx, c.I64(int64(len(y.e)))), "index out of range", pos(e, in))
			if idx.IsConst() {
				it.regs[x] = y.e[idx.val]
			} else {
				it.regs[x] = e.pick(y.e, idx)
			}
		case *SStr:
			e.require(st, c.Ult(idx, e.strLen(y)), "index out of range", pos(e, in))
			it.regs[x] = e.strIndex(st, y, idx)
		default:
			panic(unsup("index of %T", v))
		}
	case *ssa.Extract:
		t := e.res(st, e.get(it, x.Tuple))
		it.regs[x] = t.(*VTuple).e[x.Index]
	case *ssa.Store:
		e.store(st, e.get(it, x.Addr), e.get(it, x.Val), in)
	case *ssa.Range:
		it.regs[x] = e.rangeOf(st, e.res(st, e.get(it, x.X)))
	case *ssa.Next:
		it.regs[x] = e.next(st, x, e.get(it, x.Iter))
	case *ssa.Call:
		return r.call(it, x)
	case *ssa.Defer:
		d := &deferred{call: &x.Call}
		if x.Call.IsInvoke() {
			d.fn = e.get(it, x.Call.Value)
		} else {
			d.fn = e.get(it, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.get(it, a))
		}
		it.defs = append(append([]*deferred{}, it.defs...), d)
	case *ssa.RunDefers:
		if len(it.defs) == 0 {
			return false
		}
		d := it.defs[len(it.defs)-1]
		outs := e.invoke(st, d.call, d.fn, d.args, in)
		rest := it.defs[:len(it.defs)-1]
		for i, o := range outs {
			ni := it
			if i < len(outs)-1 {
				ni = it.clone()
			}
			ni.st = o.st
			ni.defs = rest
			r.mid = append(r.mid, ni) // re-executes RunDefers with the rest
		}
		return true
	case *ssa.Return:
		rets := make([]Val, len(x.Results))
		for i, v := range x.Results {
			rets[i] = e.get(it, v)
		}
		r.rets = append(r.rets, Out{st, rets})
		return true
	case *ssa.Jump:
		r.jump(it, it.b.Succs[0])
		return true
	case *ssa.If:
		cv := e.res(st, e.get(it, x.Cond)).(*Term)
		s0, s1 := it.b.Succs[0], it.b.Succs[1]
		if r.loop != nil {
			in0, in1 := r.loop.blocks[s0], r.loop.blocks[s1]
			if in0 != in1 {
				if cv.IsConst() {
					if !nilTest(x.Cond) {
						r.constEx = true
					}
				} else {
					r.symEx = true
				}
			}
		}
		switch e.decide(st, cv) {
		case 1:
			r.jump(it, s0)
		case 0:
			r.jump(it, s1)
		default:
			o := it.clone()
			it.st.assume(cv)
			o.st.assume(c.Not(cv))
			r.jump(it, s0)
			r.jump(o, s1)
		}
		return true
	case *ssa.Panic:
		e.require(st, c.ff, "explicit panic", pos(e, in))
		return true
	default:
		panic(unsup("instruction %T", in))
	}
	return false
}

func (r *region) call(it *Item, x *ssa.Call) bool {
	e := r.e
	var args []Val
	for _, a := range x.Call.Args {
		args = append(args, e.get(it, a))
	}
	outs := e.invoke(it.st, &x.Call, e.get(it, x.Call.Value), args, x)
	n := x.Call.Signature().Results().Len()
	set := func(ni *Item, o Out) {
		ni.st = o.st
		switch {
		case n == 1:
			ni.regs[x] = o.rets[0]
		case n > 1:
			ni.regs[x] = &VTuple{o.rets}
		default:
			ni.regs[x] = &VTuple{}
		}
	}
	if len(outs) == 0 {
		return true
	}
	for _, o := range outs[1:] {
		ni := it.clone()
		set(ni, o)
		ni.idx++
		r.mid = append(r.mid, ni)
	}
	set(it, outs[0])
	return false
}

// invoke performs a call.
func (e *Engine) invoke(st *State, cc *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction) []Out {
	if cc.IsInvoke() {
		recv := e.res(st, fv)
		return e.invokeMethod(st, recv, cc.Method, args, in)
	}
	fv = e.res(st, fv)
	switch f := fv.(type) {
	case VBuiltin:
		return []Out{{st, []Val{e.builtin(st, f.name, cc, args, in)}}}
	case *VClosure:
		if f.intr != "" {
			return e.intrClosure(st, f, args, in)
		}
		return e.callFn(st, f.fn, args, f.binds, in)
	case Nil:
		e.require(st, e.c.ff, "call of nil function", pos(e, in))
		return nil
	}
	panic(unsup("call of %T", fv))
}

func (e *Engine) invokeMethod(st *State, recv Val, m *types.Func, args []Val, in ssa.Instruction) []Out {
	switch x := recv.(type) {
	case Nil:
		e.require(st, e.c.ff, "method call on nil interface", pos(e, in))
		return nil
	case *VErr:
		switch m.Name() {
		case "Error":
			if x.msg == nil {
				return []Out{{st, []Val{one(Seg{k: sOpq, s: "errmsg"})}}}
			}
			return []Out{{st, []Val{x.msg}}}
		}
		panic(unsup("method %s on error", m.Name()))
	case *VIface:
		if _, ite := x.v.(*VIte); ite {
			x = &VIface{x.t, e.res(st, x.v)}
		}
		if ex, ok := e.extObj(st, x.v); ok {
			if p, ok := x.t.(*types.Pointer); ok && types.TypeString(p.Elem(), nil) == "gpgverif/harness/verif.Device" {
				panic(unsup("the input read in steps"))
			}
			if x.t != nil {
				if sel := types.NewMethodSet(x.t).Lookup(m.Pkg(), m.Name()); sel != nil {
					if fn := e.P.prog.MethodValue(sel); fn != nil && e.contr[fn.String()] != nil {
						return e.callFn(st, fn, append([]Val{x.v}, args...), nil, in)
					}
				}
			}
			return e.extMethod(st, x.v, ex, m.Name(), args, in)
		}
		fn := e.P.prog.LookupMethod(x.t, m.Pkg(), m.Name())
		if fn == nil {
			panic(unsup("no method %s on %s", m.Name(), x.t))
		}
		return e.callFn(st, fn, append([]Val{x.v}, args...), nil, in)
	}
	panic(unsup("invoke on %T", recv))
}

func (e *Engine) extObj(st *State, v Val) (*VExt, bool) {
	switch x := v.(type) {
	case *VExt:
		return x, true
	case *VPtr:
		if len(x.path) == 0 {
			o := e.obj(st, x.obj)
			if _, ite := o.(*VIte); ite {
				o = e.res(st, o)
			}
			if o, ok := o.(*VExt); ok {
				return o, true
			}
		}
	}
	return nil, false
}

func fnPkg(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return ""
}

var inlineExt = map[string]bool{"encoding/binary": true, "github.com/spiegel-im-spiegel/gocli/rwi": true, "github.com/spiegel-im-spiegel/fetch": true}

func (e *Engine) callFn(st *State, fn *ssa.Function, args, binds []Val, in ssa.Instruction) []Out {
	name := fn.String()
	if stub, ok := e.contr[name]; ok && in != nil && in.Parent() != nil && !strings.HasPrefix(fnPkg(in.Parent()), "gpgverif/") {
		if sameSig(stub, fn) {
			if pk := fnPkg(fn); !strings.HasPrefix(pk, repoPath) {
				e.trusted[name] = true
			}
			return e.exec(st, stub, args, nil)
		}
	}
	if h, ok := intrinsics[name]; ok {
		pk := fnPkg(fn)
		if !strings.HasPrefix(pk, "gpgverif/") && pk != "" {
			e.trusted[name] = true
		}
		return h(e, st, args, in)
	}
	pk := fnPkg(fn)
	if inlineExt[pk] && fn.Name() == "init" {
		return []Out{{st, nil}}
	}
	if strings.HasPrefix(pk, repoPath) || strings.HasPrefix(pk, "gpgverif/") || inlineExt[pk] || inlineFn[name] {
		return e.exec(st, fn, args, binds)
	}
	if fn.Synthetic != "" && strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "bound") || strings.Contains(fn.Synthetic, "thunk") {
		return e.exec(st, fn, args, binds)
	}
	if fn.Name() == "init" {
		return []Out{{st, nil}}
	}
	// a pure library function: its own body
	if pureExt[pk] && len(e.stack) < 60 {
		e.P.ensureBuilt(fn)
		if fn.Blocks != nil {
			return e.exec(st, fn, args, binds)
		}
	}
	panic(unsup("external call %s", name))
}

// pureExt are packages of functions that can be executed as they are.
var pureExt = map[string]bool{"bytes": true, "strings": true, "unicode/utf8": true, "slices": true, "math/bits": true, "internal/bytealg": true, "internal/stringslite": true, "cmp": true}

// sameSig tells whether a contract is one for a function, its receiver included.
func sameSig(stub, fn *ssa.Function) bool {
	a, b := stub.Signature, fn.Signature
	if len(stub.Params) != len(fn.Params) && fn.Blocks != nil || a.Variadic() != b.Variadic() || !types.Identical(a.Results(), b.Results()) {
		return false
	}
	var in []types.Type
	if b.Recv() != nil {
		in = append(in, b.Recv().Type())
	}
	for i := 0; i < b.Params().Len(); i++ {
		in = append(in, b.Params().At(i).Type())
	}
	if len(in) != a.Params().Len() {
		return false
	}
	for i, t := range in {
		if !types.Identical(t, a.Params().At(i).Type()) {
			return false
		}
	}
	return true
}

// ---- operators
func (e *Engine) toInt64(st *State, v Val, t types.Type) *Term {
	x := e.res(st, v).(*Term)
	if x.w == 64 {
		return x
	}
	if isSigned(t) {
		return e.c.Sext(x, 64)
	}
	return e.c.Zext(x, 64)
}

func (e *Engine) eqNil(v Val) *Term {
	switch x := v.(type) {
	case Nil:
		return e.c.tt
	case *VIte:
		return e.c.Ite(x.c, e.eqNil(x.a), e.eqNil(x.b))
	case *VBytes: // a view of symbolic bytes is non-nil
		return e.c.ff
	case *VList:
		for _, g := range x.segs {
			if g.k == lElem {
				return e.c.ff
			}
		}
		if len(x.segs) == 0 || true {
			panic(unsup("nil-ness of a list"))
		}
		return e.c.ff
	case *SStr:
		for _, g := range x.segs {
			if g.k == sLit && g.s != "" {
				return e.c.ff
			}
		}
		panic(unsup("nil-ness of built bytes"))
	case *VPoison:
		panic(unsup("use of poison: %s", x.why))
	}
	return e.c.ff
}

func (e *Engine) eqVal(st *State, a, b Val) *Term {
	if _, ok := b.(Nil); ok {
		return e.eqNil(a)
	}
	if _, ok := a.(Nil); ok {
		return e.eqNil(b)
	}
	if x, ok := a.(*VIte); ok {
		return e.c.Ite(x.c, e.eqVal(st, x.a, b), e.eqVal(st, x.b, b))
	}
	if x, ok := b.(*VIte); ok {
		return e.c.Ite(x.c, e.eqVal(st, a, x.a), e.eqVal(st, a, x.b))
	}
	switch x := a.(type) {
	case *Term:
		return e.c.Eq(x, b.(*Term))
	case *SStr:
		return e.strEqTerm(st, x, b.(*SStr))
	case *VPtr:
		if y, ok := b.(*VPtr); ok {
			return e.c.Bool(key(x) == key(y))
		}
	case *VErr:
		if y, ok := b.(*VErr); ok {
			if key(x) == key(y) {
				return e.c.tt
			}
		}
	case *VStruct:
		if y, ok := b.(*VStruct); ok {
			r := e.c.tt
			for i := range x.f {
				r = e.c.And(r, e.eqVal(st, x.f[i], y.f[i]))
			}
			return r
		}
	case *VArr:
		if y, ok := b.(*VArr); ok {
			r := e.c.tt
			for i := range x.e {
				r = e.c.And(r, e.eqVal(st, x.e[i], y.e[i]))
			}
			return r
		}
	case *VIface:
		if y, ok := b.(*VIface); ok {
			if !types.Identical(x.t, y.t) {
				return e.c.ff
			}
			return e.eqVal(st, x.v, y.v)
		}
	case *VExt:
		if key(a) == key(b) {
			return e.c.tt
		}
	}
	panic(unsup("equality of %T and %T", a, b))
}

func (e *Engine) binop(st *State, op token.Token, a, b Val, ta, tb types.Type, in ssa.Instruction) Val {
	c := e.c
	switch op {
	case token.EQL:
		return e.eqVal(st, a, b)
	case token.NEQ:
		return c.Not(e.eqVal(st, a, b))
	}
	a, b = e.res(st, a), e.res(st, b)
	if isString(ta) {
		x, y := a.(*SStr), b.(*SStr)
		if op == token.ADD {
			return catStr(x, y)
		}
		sx, ok1 := x.isLit()
		sy, ok2 := y.isLit()
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return c.Bool(sx < sy)
			case token.LEQ:
				return c.Bool(sx <= sy)
			case token.GTR:
				return c.Bool(sx > sy)
			case token.GEQ:
				return c.Bool(sx >= sy)
			}
		}
		n, ts := flats(x, y)
		return c.UF("str"+op.String()+"@"+n, 0, ts...)
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		if isFloat(ta) {
			switch op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				n, ts := flats(a, b)
				return c.UF("f"+op.String()+"@"+n, 0, ts...)
			}
			return &VExt{"f" + op.String(), []Val{a, b}}
		}
		panic(unsup("binop %v on %T,%T", op, a, b))
	}
	sg := isSigned(ta)
	switch op {
	case token.ADD:
		return c.Add(x, y)
	case token.SUB:
		return c.Sub(x, y)
	case token.MUL:
		return c.Mul(x, y)
	case token.QUO, token.REM:
		e.require(st, c.Not(c.Eq(y, c.BV(y.w, 0))), "division by zero", pos(e, in))
		o := OUDiv
		if op == token.REM {
			o = OURem
		}
		if sg {
			o++
			if op == token.QUO {
				o = OSDiv
			} else {
				o = OSRem
			}
		}
		return c.bin(o, x, y)
	case token.AND:
		if x.w == 0 {
			return c.And(x, y)
		}
		return c.bin(OBAnd, x, y)
	case token.OR:
		if x.w == 0 {
			return c.Or(x, y)
		}
		return c.bin(OBOr, x, y)
	case token.XOR:
		return c.bin(OBXor, x, y)
	case token.AND_NOT:
		return c.bin(OBAnd, x, c.BNot(y))
	case token.SHL, token.SHR:
		if isSigned(tb) {
			e.require(st, c.Sle(c.BV(y.w, 0), y), "negative shift", pos(e, in))
		}
		// shift counts may have another width
		big := c.ff
		if y.w > x.w {
			big = c.Not(c.Ult(y, c.BV(y.w, uint64(x.w))))
			y = c.Trunc(y, x.w)
		} else if y.w < x.w {
			y = c.Zext(y, x.w)
		}
		if op == token.SHL {
			return c.Ite(big, c.BV(x.w, 0), c.bin(OShl, x, y))
		}
		if sg {
			r := c.bin(OAshr, x, y)
			return c.Ite(big, c.bin(OAshr, x, c.BV(x.w, uint64(x.w-1))), r)
		}
		return c.Ite(big, c.BV(x.w, 0), c.bin(OLshr, x, y))
	case token.LSS:
		if sg {
			return c.Slt(x, y)
		}
		return c.Ult(x, y)
	case token.LEQ:
		if sg {
			return c.Sle(x, y)
		}
		return c.Ule(x, y)
	case token.GTR:
		if sg {
			return c.Slt(y, x)
		}
		return c.Ult(y, x)
	case token.GEQ:
		if sg {
			return c.Sle(y, x)
		}
		return c.Ule(y, x)
	}
	panic(unsup("binop %v", op))
}

func (e *Engine) convert(st *State, v Val, from, to types.Type) Val {
	c := e.c
	wf, wt := width(from), width(to)
	if wf > 0 && wt > 0 {
		t := e.res(st, v).(*Term)
		switch {
		case wt < wf:
			return c.Trunc(t, wt)
		case wt == wf:
			return t
		case isSigned(from):
			return c.Sext(t, wt)
		}
		return c.Zext(t, wt)
	}
	if isString(to) {
		if wf > 0 { // string(rune)
			t := e.toInt64(st, v, from)
			if t.IsConst() {
				return lit(string(rune(int64(t.val))))
			}
			return one(Seg{k: sRune, t: t})
		}
		return e.asStr(st, e.res(st, v))
	}
	if isString(from) && (byteElem(to) || runeElem(to)) {
		s := e.res(st, v).(*SStr)
		if byteElem(to) && len(s.segs) == 1 && s.segs[0].k == sBytes {
			return s.segs[0].b
		}
		return s
	}
	if isFloat(to) {
		x := e.res(st, v)
		if t, ok := x.(*Term); ok {
			if isSigned(from) {
				return &VExt{"int2f", []Val{c.Sext(t, 64)}}
			}
			return &VExt{"int2f", []Val{c.Zext(t, 64)}}
		}
		return x
	}
	if isFloat(from) && wt > 0 {
		x := e.res(st, v)
		n, ts := flat(x)
		return c.UF("f2int@"+n, wt, ts...)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(unsup("convert %v to %v", from, to))
}

// asStr views any byte/rune sequence as string content.
func (e *Engine) asStr(st *State, v Val) *SStr {
	switch x := v.(type) {
	case *SStr:
		return x
	case Nil:
		return lit("")
	case *VBytes:
		if x.arr == nil {
			return one(Seg{k: sBytes, b: &VBytes{arr: e.arrOf(st, x), off: x.off, len: x.len}})
		}
		if x.len.IsConst() && x.len.val == 0 {
			return lit("")
		}
		return one(Seg{k: sBytes, b: x})
	case *VSlice:
		a := e.obj(st, x.obj).(*VArr)
		out := lit("")
		for _, el := range a.e[x.off : x.off+x.n] {
			t := e.res(st, el).(*Term)
			if t.w == 8 {
				if t.IsConst() {
					out = catStr(out, lit(string([]byte{byte(t.val)})))
				} else {
					out = catStr(out, one(Seg{k: sByte, t: t}))
				}
			} else if t.IsConst() {
				out = catStr(out, lit(string(rune(t.val))))
			} else {
				out = catStr(out, one(Seg{k: sRune, t: e.c.Sext(t, 64)}))
			}
		}
		return out
	case *VExt:
		if x.kind == "buffer" {
			return x.f[0].(*SStr)
		}
	}
	panic(unsup("string of %T", v))
}

func (e *Engine) typeAssert(st *State, x *ssa.TypeAssert, v Val) Val {
	v = e.res(st, v)
	ok := false
	var r Val = v
	switch y := v.(type) {
	case Nil:
	case *VIface:
		if types.IsInterface(x.AssertedType) {
			it := x.AssertedType.Underlying().(*types.Interface)
			ok = types.Implements(y.t, it)
		} else {
			ok = types.Identical(y.t, x.AssertedType)
			r = y.v
		}
	default:
		panic(unsup("type assertion on %T", v))
	}
	if x.CommaOk {
		if !ok {
			r = e.zero(x.AssertedType)
		}
		return &VTuple{[]Val{r, e.c.Bool(ok)}}
	}
	if !ok {
		e.require(st, e.c.ff, "type assertion", pos(e, x))
		panic(deadState{})
	}
	return r
}

func (e *Engine) fieldAddr(st *State, v Val, f int, in ssa.Instruction) Val {
	switch x := v.(type) {
	case *VPtr:
		return &VPtr{x.obj, append(append([]int{}, x.path...), f)}
	case Nil:
		e.require(st, e.c.ff, "nil dereference", pos(e, in))
		panic(deadState{})
	case *VFrozen:
		s := x.v.(*VStruct)
		return &VFrozen{nil, s.f[f]}
	}
	panic(unsup("field address of %T", v))
}

func (e *Engine) indexAddr(st *State, v Val, idx *Term, in ssa.Instruction) Val {
	c := e.c
	bad := func(n *Term) {
		e.require(st, c.Ult(idx, n), "index out of range", pos(e, in))
	}
	switch x := v.(type) {
	case *VPtr: // pointer to array
		a, ok := e.load(st, x, in).(*VArr)
		if !ok {
			panic(unsup("index of external array"))
		}
		bad(c.I64(int64(len(a.e))))
		if idx.IsConst() {
			return &VPtr{x.obj, append(append([]int{}, x.path...), int(idx.val))}
		}
		return &VExt{"cellptr", []Val{x, idx}}
	case *VSlice:
		bad(c.I64(int64(x.n)))
		if idx.IsConst() {
			return &VPtr{x.obj, []int{x.off + int(idx.val)}}
		}
		return &VExt{"cellptr", []Val{x, idx}}
	case *VBytes:
		bad(x.len)
		return &VExt{"byteptr", []Val{x, idx}}
	case *SStr:
		bad(e.strLen(x))
		return &VExt{"strptr", []Val{x, idx}}
	case *VList:
		bad(e.listLen(x))
		return &VExt{"listptr", []Val{x, idx}}
	case Nil:
		bad(c.I64(0))
		panic(deadState{})
	}
	panic(unsup("index address of %T", v))
}

func (e *Engine) makeSlice(st *State, x *ssa.MakeSlice, n *Term, in ssa.Instruction) Val {
	e.require(st, e.c.Ult(n, e.c.I64(1<<48)), "makeslice: len out of range", pos(e, in))
	el := x.Type().Underlying().(*types.Slice).Elem()
	if n.IsConst() {
		if n.val == 0 {
			if byteElem(x.Type()) || runeElem(x.Type()) {
				return lit("")
			}
			return &VList{}
		}
		if n.val > 4096 {
			panic(unsup("large make"))
		}
		a := &VArr{}
		for i := 0; i < int(n.val); i++ {
			a.e = append(a.e, e.zero(el))
		}
		return &VSlice{obj: e.alloc(st, a), n: int(n.val), cp: int(n.val)}
	}
	if byteElem(x.Type()) {
		id := e.alloc(st, e.c.AVar("const8", e.c.BV(8, 0)))
		return &VBytes{obj: id, off: e.c.I64(0), len: n}
	}
	panic(unsup("make of symbolic length"))
}

func (e *Engine) slice(st *State, t types.Type, v Val, lo, hi Val, in ssa.Instruction) Val {
	c := e.c
	l := c.I64(0)
	if lo != nil {
		l = e.res(st, lo).(*Term)
		if l.w != 64 {
			l = c.Sext(l, 64)
		}
	}
	getHi := func(def *Term) *Term {
		if hi == nil {
			return def
		}
		h := e.res(st, hi).(*Term)
		if h.w != 64 {
			h = c.Sext(h, 64)
		}
		return h
	}
	chk := func(h, n *Term) {
		e.require(st, c.And(c.Ule(l, h), c.Ule(h, n)), "slice bounds out of range", pos(e, in))
	}
	switch x := v.(type) {
	case *VPtr: // array pointer
		a, ok := e.load(st, x, in).(*VArr)
		if !ok {
			panic(unsup("slice of external array"))
		}
		h := getHi(c.I64(int64(len(a.e))))
		chk(h, c.I64(int64(len(a.e))))
		if !l.IsConst() || !h.IsConst() || len(x.path) != 0 {
			panic(unsup("symbolic slice of array"))
		}
		return &VSlice{x.obj, int(l.val), int(h.val - l.val), len(a.e) - int(l.val)}
	case *VSlice:
		h := getHi(c.I64(int64(x.n)))
		chk(h, c.I64(int64(x.cp)))
		if !l.IsConst() || !h.IsConst() {
			panic(unsup("symbolic slice of cells"))
		}
		return &VSlice{x.obj, x.off + int(l.val), int(h.val - l.val), x.cp - int(l.val)}
	case *VBytes:
		h := getHi(x.len)
		chk(h, x.len)
		return &VBytes{arr: x.arr, obj: x.obj, off: c.Add(x.off, l), len: c.Sub(h, l)}
	case *SStr:
		if s, ok := x.isLit(); ok && l.IsConst() {
			h := getHi(c.I64(int64(len(s))))
			chk(h, c.I64(int64(len(s))))
			if h.IsConst() {
				return lit(s[l.val:h.val])
			}
		}
		n := e.strLen(x)
		h := getHi(n)
		chk(h, n)
		if l.IsConst() && l.val == 0 && h == n {
			return x
		}
		if len(x.segs) == 1 && x.segs[0].k == sBytes {
			b := x.segs[0].b
			return one(Seg{k: sBytes, b: &VBytes{arr: b.arr, off: c.Add(b.off, l), len: c.Sub(h, l)}})
		}
		return one(Seg{k: sOpq, s: "substr", args: []Val{x, l, h}})
	case *VList:
		n := e.listLen(x)
		h := getHi(n)
		chk(h, n)
		if l.IsConst() && l.val == 0 && h == n {
			return x
		}
		if l.IsConst() && h.IsConst() {
			for _, g := range x.segs {
				if g.k != lElem {
					panic(unsup("slice of symbolic list"))
				}
			}
			return &VList{append([]LSeg{}, x.segs[l.val:h.val]...)}
		}
		panic(unsup("slice of list"))
	case Nil:
		h := getHi(c.I64(0))
		chk(h, c.I64(0))
		return x
	}
	panic(unsup("slice of %T", v))
}

// ---- maps
func (e *Engine) mapOf(st *State, v Val) *VMap {
	switch x := v.(type) {
	case *VMapRef:
		m, ok := e.res(st, e.obj(st, x.obj)).(*VMap)
		if !ok {
			panic(unsup("map %T", e.obj(st, x.obj)))
		}
		return m
	case Nil:
		return &VMap{}
	}
	panic(unsup("map %T", v))
}

func constKey(v Val) bool {
	switch x := v.(type) {
	case *Term:
		return x.IsConst()
	case *SStr:
		_, ok := x.isLit()
		return ok
	}
	return false
}

func (e *Engine) mapUpdate(st *State, m, k, v Val, in ssa.Instruction) {
	if _, ok := m.(Nil); ok {
		e.require(st, e.c.ff, "assignment to nil map", pos(e, in))
		panic(deadState{})
	}
	mp := e.mapOf(st, m)
	k = e.res(st, k)
	n := &VMap{append([]Val{}, mp.keys...), append([]Val{}, mp.vals...), append([]Val(nil), mp.has...)}
	there := func(i int) {
		if n.has != nil {
			n.has[i] = e.c.tt
		}
	}
	if constKey(k) {
		for i := range n.keys {
			if key(n.keys[i]) == key(k) {
				n.vals[i] = v
				there(i)
				st.heap[m.(*VMapRef).obj] = n
				return
			}
			if !constKey(n.keys[i]) {
				panic(unsup("map with symbolic keys"))
			}
		}
		n.keys = append(n.keys, k)
		n.vals = append(n.vals, v)
		if n.has != nil {
			n.has = append(n.has, e.c.tt)
		}
		// keep keys sorted for determinism
		idx := make([]int, len(n.keys))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(a, b int) bool { return lessKey(n.keys[idx[a]], n.keys[idx[b]]) })
		s := &VMap{}
		for _, i := range idx {
			s.keys = append(s.keys, n.keys[i])
			s.vals = append(s.vals, n.vals[i])
			if n.has != nil {
				s.has = append(s.has, n.has[i])
			}
		}
		st.heap[m.(*VMapRef).obj] = s
		return
	}
	// symbolic key: fork over the existing keys
	for i := range n.keys {
		eq := e.eqVal(st, k, n.keys[i])
		switch e.decide(st, eq) {
		case 1:
			n.vals[i] = v
			there(i)
			st.heap[m.(*VMapRef).obj] = n
			return
		case -1:
			panic(forkReq{eq})
		}
	}
	n.keys = append(n.keys, k)
	n.vals = append(n.vals, v)
	if n.has != nil {
		n.has = append(n.has, e.c.tt)
	}
	st.heap[m.(*VMapRef).obj] = n
}
func lessKey(a, b Val) bool {
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if ok1 && ok2 {
		return sx(x.val, x.w) < sx(y.val, y.w)
	}
	s, _ := a.(*SStr)
	t, _ := b.(*SStr)
	if s != nil && t != nil {
		p, _ := s.isLit()
		q, _ := t.isLit()
		return p < q
	}
	return key(a) < key(b)
}

func (e *Engine) lookup(st *State, x *ssa.Lookup, m Val, k Val) Val {
	if s, ok := m.(*SStr); ok {
		idx := e.toInt64(st, k, x.Index.Type())
		e.require(st, e.c.Ult(idx, e.strLen(s)), "index out of range", pos(e, x))
		return e.strIndex(st, s, idx)
	}
	c := e.c
	mp := e.mapOf(st, m)
	k = e.res(st, k)
	mt := x.X.Type().Underlying().(*types.Map)
	v := e.zero(mt.Elem())
	ok := c.ff
	if t, isT := k.(*Term); isT && t.w > 0 && !t.IsConst() && isString(mt.Elem()) && mp.has == nil {
		var tab []tabEnt
		good := true
		for i := range mp.keys {
			s, isS := mp.vals[i].(*SStr)
			kt, isK := mp.keys[i].(*Term)
			if !isS || !isK || !kt.IsConst() {
				good = false
				break
			}
			l, isL := s.isLit()
			if !isL {
				good = false
				break
			}
			if c.Eq(kt, t).IsFalse() {
				continue
			}
			tab = append(tab, tabEnt{kt.val, l})
			ok = c.Or(ok, c.Eq(kt, t))
		}
		if good {
			v = c.strTab(tab, "", t)
			if x.CommaOk {
				return &VTuple{[]Val{v, ok}}
			}
			return v
		}
		ok = c.ff
	}
	for i := len(mp.keys) - 1; i >= 0; i-- {
		eq := c.And(mp.there(c, i), e.eqVal(st, k, mp.keys[i]))
		if eq.IsFalse() {
			continue
		}
		ok = c.Or(ok, eq)
		v = c.mergeVal(eq, mp.vals[i], v)
	}
	if x.CommaOk {
		return &VTuple{[]Val{v, ok}}
	}
	return v
}

// ---- range
func (e *Engine) rangeOf(st *State, v Val) Val {
	switch x := v.(type) {
	case *VMapRef, Nil:
		e.mapRng = true
		m := e.mapOf(st, v)
		for i := range m.keys {
			// which keys there are must be known
			if h := m.there(e.c, i); e.decide(st, h) == -1 {
				panic(forkReq{h})
			}
		}
		r := &VMap{}
		for i := range m.keys {
			if e.decide(st, m.there(e.c, i)) == 1 {
				r.keys = append(r.keys, m.keys[i])
				r.vals = append(r.vals, m.vals[i])
			}
		}
		idx := e.alloc(st, e.c.I64(0))
		return &VExt{"mapiter", []Val{r, &VPtr{obj: idx}}}
	case *SStr:
		idx := e.alloc(st, e.c.I64(0))
		return &VExt{"striter", []Val{x, &VPtr{obj: idx}}}
	}
	panic(unsup("range over %T", v))
}
func (e *Engine) next(st *State, x *ssa.Next, iv Val) Val {
	it := e.res(st, iv).(*VExt)
	it = &VExt{it.kind, []Val{e.res(st, it.f[0]), e.res(st, it.f[1])}}
	p := it.f[1].(*VPtr)
	pos := e.obj(st, p.obj).(*Term)
	switch it.kind {
	case "mapiter":
		m := it.f[0].(*VMap)
		if !pos.IsConst() {
			panic(unsup("symbolic map iteration"))
		}
		i := int(pos.val)
		if i >= len(m.keys) {
			return &VTuple{[]Val{e.c.ff, Nil{}, Nil{}}}
		}
		st.heap[p.obj] = e.c.I64(int64(i + 1))
		if e.mapRev {
			i = len(m.keys) - 1 - i
		}
		return &VTuple{[]Val{e.c.tt, m.keys[i], m.vals[i]}}
	case "striter":
		s := it.f[0].(*SStr)
		if l, ok := s.isLit(); ok && pos.IsConst() {
			i := int(pos.val)
			if i >= len(l) {
				return &VTuple{[]Val{e.c.ff, e.c.I64(0), e.c.BV(32, 0)}}
			}
			for k, r := range l[i:] {
				_ = k
				st.heap[p.obj] = e.c.I64(int64(i + len(string(r))))
				return &VTuple{[]Val{e.c.tt, e.c.I64(int64(i)), e.c.BV(32, uint64(r))}}
			}
		}
		n := e.runeCount(s)
		r := e.runeAt(s, pos)
		st.heap[p.obj] = e.c.Add(pos, e.c.I64(1))
		nm, ts := flat(s)
		off := e.c.UF("runeoff@"+nm, 64, append(append([]*Term{}, ts...), pos)...)
		return &VTuple{[]Val{e.c.Ult(pos, n), off, r}}
	}
	panic(unsup("next"))
}
func (e *Engine) runeCount(s *SStr) *Term {
	n, ts := flat(s)
	t := e.c.UF("runecount@"+n, 64, ts...)
	e.axiom(e.c.Ult(t, e.c.I64(1<<48)))
	return t
}
func (e *Engine) runeAt(s *SStr, i *Term) *Term {
	n, ts := flat(s)
	t := e.c.UF("runeat@"+n, 32, append(append([]*Term{}, ts...), i)...)
	e.axiom(e.c.Ule(t, e.c.BV(32, 0x10ffff)))
	return t
}
func (e *Engine) axiom(t *Term) {
	k := fmt.Sprintf("ax%d", t.id)
	if _, ok := e.known[k]; ok {
		return
	}
	e.known[k] = t
	e.s.Axioms = append(e.s.Axioms, t)
	// a new axiom can only strengthen: cached sat answers may be stale
	for kk, r := range e.s.cache {
		if r != Unsat {
			delete(e.s.cache, kk)
		}
	}
}

// ---- strings
func (e *Engine) segLen(g Seg) *Term {
	c := e.c
	switch g.k {
	case sLit:
		return c.I64(int64(len(g.s)))
	case sBytes:
		return g.b.len
	case sByte:
		return c.I64(1)
	case sIte:
		return c.Ite(g.t, e.strLen(g.a), e.strLen(g.c))
	case sTab:
		r := c.I64(int64(len(g.s)))
		for i := len(g.tab) - 1; i >= 0; i-- {
			r = c.Ite(c.Eq(g.t, c.BV(g.t.w, g.tab[i].k)), c.I64(int64(len(g.tab[i].s))), r)
		}
		return r
	}
	n, ts := flat(one(g))
	t := c.UF("slen@"+n, 64, ts...)
	e.axiom(c.Ult(t, c.I64(1<<48)))
	switch g.k {
	case sDec, sFmt, sRune:
		e.axiom(c.Ule(c.I64(1), t))
	case sFold:
		// nonempty bodies make nonempty folds
		if min := minLen(g.a); min > 0 {
			e.axiom(c.Eq(c.Eq(t, c.I64(0)), c.Eq(g.t, c.I64(0))))
		}
	}
	return t
}
func minLen(s *SStr) int {
	n := 0
	for _, g := range s.segs {
		switch g.k {
		case sLit:
			n += len(g.s)
		case sDec, sFmt, sRune, sByte:
			n++
		case sIte:
			a, b := minLen(g.a), minLen(g.c)
			if b < a {
				a = b
			}
			n += a
		}
	}
	return n
}
func (e *Engine) strLen(s *SStr) *Term {
	r := e.c.I64(0)
	for _, g := range s.segs {
		r = e.c.Add(r, e.segLen(g))
	}
	return r
}
func (e *Engine) strIndex(st *State, s *SStr, idx *Term) *Term {
	c := e.c
	if l, ok := s.isLit(); ok {
		return c.Select(c.ALit(l), idx)
	}
	if len(s.segs) == 1 && s.segs[0].k == sBytes {
		b := s.segs[0].b
		return c.Select(e.arrOf(st, b), c.Add(b.off, idx))
	}
	if len(s.segs) > 0 && s.segs[0].k == sLit && idx.IsConst() && idx.val < uint64(len(s.segs[0].s)) {
		return c.BV(8, uint64(s.segs[0].s[idx.val]))
	}
	n, ts := flat(s)
	return c.UF("strbyte@"+n, 8, append(append([]*Term{}, ts...), idx)...)
}

// strEqTerm is a term for string equality (uninterpreted where not decidable structurally).
func (e *Engine) strEqTerm(st *State, a, b *SStr) *Term {
	c := e.c
	if a.key() == b.key() {
		return c.tt
	}
	la, ok1 := a.isLit()
	lb, ok2 := b.isLit()
	if ok1 && ok2 {
		return c.Bool(la == lb)
	}
	if ok1 {
		a, b = b, a
		la, ok1, lb, ok2 = lb, ok2, la, ok1
	}
	if ok2 && lb == "" {
		return c.Eq(e.strLen(a), c.I64(0))
	}
	if len(a.segs) == 1 && a.segs[0].k == sIte {
		g := a.segs[0]
		return c.Ite(g.t, e.strEqTerm(st, g.a, b), e.strEqTerm(st, g.c, b))
	}
	if len(a.segs) == 1 && a.segs[0].k == sTab && ok2 {
		g := a.segs[0]
		r := c.ff
		other := c.tt
		for _, en := range g.tab {
			q := c.Eq(g.t, c.BV(g.t.w, en.k))
			other = c.And(other, c.Not(q))
			if en.s == lb {
				r = c.Or(r, q)
			}
		}
		if g.s == lb {
			r = c.Or(r, other)
		}
		return r
	}
	if len(a.segs) == 1 && a.segs[0].k == sBytes && ok2 && len(lb) <= 64 {
		bb := a.segs[0].b
		r := c.Eq(bb.len, c.I64(int64(len(lb))))
		for i := 0; i < len(lb); i++ {
			r = c.And(r, c.Eq(c.Select(e.arrOf(st, bb), c.Add(bb.off, c.I64(int64(i)))), c.BV(8, uint64(lb[i]))))
		}
		return r
	}
	if len(b.segs) == 1 && b.segs[0].k == sIte {
		g := b.segs[0]
		return c.Ite(g.t, e.strEqTerm(st, a, g.a), e.strEqTerm(st, a, g.c))
	}
	if ok2 {
		// a string equals one literal at most
		n, ts := flat(a)
		return c.Eq(c.UF("sid@"+n, 64, ts...), c.I64(int64(e.litID(lb))))
	}
	if a.key() > b.key() {
		a, b = b, a
	}
	n, ts := flats(a, b)
	return c.UF("streq@"+n, 0, ts...)
}

// litID numbers literals.
func (e *Engine) litID(s string) int {
	n, ok := e.lits[s]
	if !ok {
		n = len(e.lits) + 1
		e.lits[s] = n
	}
	return n
}

// ---- lists
func (e *Engine) asList(st *State, v Val) *VList {
	switch x := v.(type) {
	case *VList:
		return x
	case Nil:
		return &VList{}
	case *VSlice:
		a := e.obj(st, x.obj).(*VArr)
		l := &VList{}
		for _, el := range a.e[x.off : x.off+x.n] {
			l.segs = append(l.segs, LSeg{k: lElem, v: el})
		}
		return l
	}
	panic(unsup("list of %T", v))
}
func (e *Engine) listLen(l *VList) *Term {
	c := e.c
	r := c.I64(0)
	for _, g := range l.segs {
		switch g.k {
		case lElem:
			r = c.Add(r, c.I64(1))
		case lGuard:
			r = c.Add(r, c.Ite(g.t, e.listLen(g.a), e.listLen(g.c)))
		case lGen:
			r = c.Add(r, g.gen.n)
		case lVar:
			t := c.Var("llen@"+g.name, 64)
			e.axiom(c.Ult(t, c.I64(1<<48)))
			r = c.Add(r, t)
		case lFold:
			one := true
			for _, b := range g.a.segs {
				if b.k != lElem {
					one = false
				}
			}
			if one {
				r = c.Add(r, c.Mul(g.t, c.I64(int64(len(g.a.segs)))))
			} else {
				t := c.UF("llen@"+g.a.key(), 64, g.t)
				e.axiom(c.Ult(t, c.I64(1<<48)))
				r = c.Add(r, t)
			}
		}
	}
	return r
}
func (e *Engine) listIndex(st *State, l *VList, idx *Term) Val {
	if idx.IsConst() {
		i := int(idx.val)
		for j, g := range l.segs {
			if g.k == lGuard {
				rest := l.segs[j+1:]
				k := e.c.I64(int64(i))
				switch e.decide(st, g.t) {
				case 1:
					return e.listIndex(st, &VList{catSegs(g.a.segs, rest)}, k)
				case 0:
					return e.listIndex(st, &VList{catSegs(g.c.segs, rest)}, k)
				}
				panic(forkReq{g.t})
			}
			if g.k != lElem {
				break
			}
			if i == 0 {
				return g.v
			}
			i--
		}
	}
	if len(l.segs) == 1 && l.segs[0].k == lGen {
		g := l.segs[0].gen
		return g.elem(st, g.ts, idx)
	}
	if len(l.segs) > 1 && l.segs[0].k == lGen {
		g := l.segs[0].gen
		q := e.c.Ult(idx, g.n)
		switch e.decide(st, q) {
		case 1:
			return g.elem(st, g.ts, idx)
		case 0:
			return e.listIndex(st, &VList{l.segs[1:]}, e.c.Sub(idx, g.n))
		}
		panic(forkReq{q})
	}
	all := true
	for _, g := range l.segs {
		if g.k != lElem {
			all = false
		}
	}
	if all && len(l.segs) > 0 && len(l.segs) < 300 {
		r := l.segs[len(l.segs)-1].v
		for i := len(l.segs) - 2; i >= 0; i-- {
			r = e.c.mergeVal(e.c.Eq(idx, e.c.I64(int64(i))), l.segs[i].v, r)
		}
		return r
	}
	panic(unsup("index of symbolic list"))
}

// ---- builtins
func (e *Engine) builtin(st *State, name string, cc *ssa.CallCommon, args []Val, in ssa.Instruction) Val {
	c := e.c
	switch name {
	case "len", "cap":
		v := args[0]
		return e.lenOf(st, v)
	case "append":
		t := cc.Args[0].Type()
		a, b := e.res(st, args[0]), e.res(st, args[1])
		if call, ok := in.(*ssa.Call); ok && strings.HasPrefix(fnPkg(in.Parent()), repoPath) && !e.P.linear(call) {
			panic(unsup("append to a slice that others may hold"))
		}
		if byteElem(t) || runeElem(t) {
			return catStr(e.asStr(st, a), e.asStr(st, b))
		}
		return catList(e.asList(st, a), e.asList(st, b))
	case "copy":
		d := e.res(st, args[0])
		s := e.res(st, args[1])
		db, ok := d.(*VBytes)
		if !ok || db.arr != nil {
			if ds, ok := d.(*VSlice); ok {
				return e.copyCells(st, ds, s)
			}
			if dn, ok := d.(Nil); ok {
				_ = dn
				return c.I64(0)
			}
			if ds, ok := d.(*SStr); ok && len(ds.segs) == 0 {
				return c.I64(0)
			}
			panic(unsup("copy into %T", d))
		}
		ss := e.asStr(st, s)
		if len(ss.segs) == 0 {
			return c.I64(0)
		}
		if len(ss.segs) != 1 || ss.segs[0].k != sBytes {
			panic(unsup("copy from built string"))
		}
		sb := ss.segs[0].b
		n := c.Ite(c.Ult(db.len, sb.len), db.len, sb.len)
		arr := e.obj(st, db.obj).(*Term)
		st.heap[db.obj] = c.ACopy(arr, db.off, sb.arr, sb.off, n)
		return n
	case "recover": // a panic does not get this far: it is reported where it begins
		return Nil{}
	case "print", "println":
		return &VTuple{}
	case "ssa:wrapnilchk":
		v := e.res(st, args[0])
		if _, ok := v.(Nil); ok {
			e.require(st, c.ff, "nil receiver", pos(e, in))
			panic(deadState{})
		}
		return v
	case "min", "max":
		x, y := e.res(st, args[0]).(*Term), e.res(st, args[1]).(*Term)
		var lt *Term
		if isSigned(cc.Args[0].Type()) {
			lt = c.Slt(x, y)
		} else {
			lt = c.Ult(x, y)
		}
		if name == "min" {
			return c.Ite(lt, x, y)
		}
		return c.Ite(lt, y, x)
	case "delete":
		panic(unsup("delete"))
	}
	panic(unsup("builtin %s", name))
}

// linear tells whether the slice an append extends is not appended to elsewhere:
// then the append can be taken for one that makes a new slice.
func (p *Prog) linear(call *ssa.Call) bool {
	if r, ok := p.lin.Load(call); ok {
		return r.(bool)
	}
	isAppend := func(v ssa.Instruction) *ssa.Call {
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return c
			}
		}
		return nil
	}
	// once tells whether v is extended by c only, and once for each time it is made
	once := func(v ssa.Value, c *ssa.Call) bool {
		def := v.(ssa.Instruction).Block()
		reach := func(from, to *ssa.BasicBlock) bool { // without a new v
			seen := map[*ssa.BasicBlock]bool{def: true}
			var walk func(b *ssa.BasicBlock) bool
			walk = func(b *ssa.BasicBlock) bool {
				for _, s := range b.Succs {
					if seen[s] {
						continue
					}
					if s == to {
						return true
					}
					seen[s] = true
					if walk(s) {
						return true
					}
				}
				return false
			}
			return walk(from)
		}
		for _, r := range *v.Referrers() {
			if o := isAppend(r); o != nil && o != c && o.Call.Args[0] == v {
				if o.Block() == c.Block() || reach(o.Block(), c.Block()) || reach(c.Block(), o.Block()) {
					return false
				}
			}
		}
		return !reach(c.Block(), c.Block())
	}
	seen := map[ssa.Value]bool{}
	var own func(v ssa.Value, c *ssa.Call) bool
	own = func(v ssa.Value, c *ssa.Call) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.MakeSlice, *ssa.Convert:
			return c == nil || once(v, c)
		case *ssa.Slice:
			_, fresh := x.X.(*ssa.Alloc)
			return fresh && (c == nil || once(v, c))
		case *ssa.ChangeType:
			return own(x.X, nil)
		case *ssa.Phi:
			for _, y := range x.Edges {
				if !own(y, nil) {
					return false
				}
			}
			return c == nil || once(v, c)
		case *ssa.Call:
			return isAppend(x) != nil && (c == nil || once(v, c))
		case *ssa.UnOp:
			// a variable or field that gets the result
			for _, r := range *x.Referrers() {
				if _, ok := r.(*ssa.Store); ok {
					return false
				}
			}
			if c == nil || !once(v, c) {
				return false
			}
			for _, r := range *c.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Val == ssa.Value(c) && samePlace(s.Addr, x.X) {
					return true
				}
			}
		}
		return false
	}
	r := own(call.Call.Args[0], call)
	p.lin.Store(call, r)
	return r
}

func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok && ok2 {
		if x.Field != y.Field {
			return false
		}
		if samePlace(x.X, y.X) {
			return true
		}
		u, ok := x.X.(*ssa.UnOp)
		w, ok2 := y.X.(*ssa.UnOp)
		return ok && ok2 && samePlace(u.X, w.X)
	}
	return false
}

func (e *Engine) copyCells(st *State, d *VSlice, s Val) Val {
	ss, ok := s.(*VSlice)
	if !ok {
		panic(unsup("copy cells from %T", s))
	}
	n := d.n
	if ss.n < n {
		n = ss.n
	}
	src := e.obj(st, ss.obj).(*VArr).e[ss.off : ss.off+n]
	a := e.obj(st, d.obj).(*VArr)
	ne := append([]Val{}, a.e...)
	copy(ne[d.off:d.off+n], src)
	st.heap[d.obj] = &VArr{ne}
	return e.c.I64(int64(n))
}

func (e *Engine) lenOf(st *State, v Val) *Term {
	c := e.c
	switch x := v.(type) {
	case *VIte:
		return c.Ite(x.c, e.lenOf(st, x.a), e.lenOf(st, x.b))
	case Nil:
		return c.I64(0)
	case *SStr:
		return e.strLen(x)
	case *VBytes:
		return x.len
	case *VSlice:
		return c.I64(int64(x.n))
	case *VList:
		return e.listLen(x)
	case *VArr:
		return c.I64(int64(len(x.e)))
	case *VMapRef:
		m := e.mapOf(st, x)
		n := c.I64(0)
		for i := range m.keys {
			n = c.Add(n, c.Ite(m.there(c, i), c.I64(1), c.I64(0)))
		}
		return n
	case *VPtr:
		return e.lenOf(st, e.load(st, x, nil))
	}
	panic(unsup("len of %T", v))
}
