package main

// Hash-consed terms: booleans (w==0), bit-vectors (w>0) and byte arrays (w==-1).
// Arrays only occur below Select, which is rewritten to uninterpreted functions,
// so every query is in QF_UFBV.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OUF
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract // val = lo, w = width
	OConcat
	// arrays
	OAUF   // name(args...)
	OAIte  // c,a,b
	OACopy // dst, doff, src, soff, n
	OALit  // name = bytes
)

type Term struct {
	id   int
	op   Op
	w    int
	val  uint64
	name string
	args []*Term
}

// TC is a term context (one per obligation).
type TC struct {
	tab   map[string]*Term
	n     int
	tt    *Term
	ff    *Term
	fresh int
	all   []*Term
	known map[*Term]*Term // octets of inputs fixed by Pin
}

func NewTC() *TC {
	c := &TC{tab: map[string]*Term{}, known: map[*Term]*Term{}}
	c.tt = c.mk(OConst, 0, 1, "")
	c.ff = c.mk(OConst, 0, 0, "")
	return c
}

func (c *TC) mk(op Op, w int, val uint64, name string, args ...*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%d|%d|%s", op, w, val, name)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{id: c.n, op: op, w: w, val: val, name: name, args: args}
	c.tab[k] = t
	c.all = append(c.all, t)
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v&(1<<uint(w-1)) != 0 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

func (c *TC) BV(w int, v uint64) *Term { return c.mk(OConst, w, v&mask(w), "") }
func (c *TC) I64(v int64) *Term        { return c.BV(64, uint64(v)) }
func (c *TC) Bool(b bool) *Term {
	if b {
		return c.tt
	}
	return c.ff
}
func (c *TC) Var(name string, w int) *Term { return c.mk(OVar, w, 0, name) }
func (c *TC) Fresh(pfx string, w int) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", pfx, c.fresh), w)
}
func (c *TC) UF(name string, w int, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Var(name, w)
	}
	return c.mk(OUF, w, 0, name, args...)
}
func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func (c *TC) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	switch a.op {
	case OUlt:
		return c.Ule(a.args[1], a.args[0])
	case OUle:
		return c.Ult(a.args[1], a.args[0])
	case OSlt:
		return c.Sle(a.args[1], a.args[0])
	case OSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(ONot, 0, 0, "", a)
}

func (c *TC) nary(op Op, in []*Term) *Term {
	unit, zero := c.tt, c.ff
	if op == OOr {
		unit, zero = c.ff, c.tt
	}
	var fl []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[-c.Not(t).id] {
			return false
		}
		seen[t.id] = true
		seen[-t.id] = true
		fl = append(fl, t)
		return true
	}
	for _, t := range in {
		if !add(t) {
			return zero
		}
	}
	if len(fl) == 0 {
		return unit
	}
	if len(fl) == 1 {
		return fl[0]
	}
	// absorption: (a op2 x) with a present
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	changed := false
	out := fl[:0:0]
	for _, t := range fl {
		if t.op == dual {
			absorbed := false
			var rest []*Term
			for _, x := range t.args {
				if seen[x.id] {
					absorbed = true
					break
				}
				if seen[-c.Not(x).id] {
					changed = true
					continue
				}
				rest = append(rest, x)
			}
			if absorbed {
				changed = true
				continue
			}
			if len(rest) != len(t.args) {
				t = c.nary(dual, rest)
			}
		}
		out = append(out, t)
	}
	if changed {
		return c.nary(op, out)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, 0, 0, "", out...)
}
func (c *TC) And(a ...*Term) *Term { return c.nary(OAnd, a) }
func (c *TC) Or(a ...*Term) *Term {
	if len(a) == 2 {
		// (x & p) | (!x & p) => p
		x, y := a[0], a[1]
		if x.op == OAnd && y.op == OAnd && len(x.args) == len(y.args) {
			ym := map[int]bool{}
			for _, t := range y.args {
				ym[t.id] = true
			}
			var rest []*Term
			var diff *Term
			nd := 0
			for _, t := range x.args {
				if ym[t.id] {
					rest = append(rest, t)
				} else {
					diff = t
					nd++
				}
			}
			if nd == 1 && ym[c.Not(diff).id] {
				return c.And(rest...)
			}
		}
	}
	return c.nary(OOr, a)
}
func (c *TC) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *TC) Ite(cond, a, b *Term) *Term {
	if cond.IsTrue() || a == b {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if cond.op == OEq && a.w > 0 && cond.args[0].IsConst() && !b.IsConst() {
		// x == k ? b[x:=k] : b
		if c.Subst(b, map[*Term]*Term{cond.args[1]: cond.args[0]}, map[*Term]*Term{}) == a {
			return b
		}
	}
	if a.w == -1 {
		return c.mk(OAIte, -1, 0, "", cond, a, b)
	}
	return c.mk(OIte, a.w, 0, "", cond, a, b)
}

func (c *TC) Eq(a, b *Term) *Term {
	if a == b {
		return c.tt
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d: %s %s", a.w, b.w, a, b))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return c.Not(b)
		}
		if b.IsFalse() {
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.ff
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OEq, 0, 0, "", a, b)
	}
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		switch b.op {
		case OBAnd:
			// a test of one bit of a word put together from constants
			if m := b.args[1]; m.IsConst() && m.val&(m.val-1) == 0 && m.val != 0 {
				if a.val != 0 && a.val != m.val {
					return c.ff
				}
				if t := c.bit(b.args[0], bits.TrailingZeros64(m.val), map[*Term]*Term{}); t != nil {
					if a.val == 0 {
						return c.Not(t)
					}
					return t
				}
			}
		case OZext:
			in := b.args[0]
			if a.val > mask(in.w) {
				return c.ff
			}
			return c.Eq(c.BV(in.w, a.val), in)
		case OAdd:
			if b.args[1].IsConst() {
				return c.Eq(c.BV(a.w, a.val-b.args[1].val), b.args[0])
			}
		case OIte:
			if b.args[1].IsConst() || b.args[2].IsConst() {
				return c.Ite(b.args[0], c.Eq(a, b.args[1]), c.Eq(a, b.args[2]))
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
		d := c.Sub(a, b)
		if d.IsConst() {
			return c.Bool(d.val == 0)
		}
	}
	if a.id > b.id && !a.IsConst() {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, "", a, b)
}

// bit n of t as a condition, if t is made of constants only (nil otherwise).
func (c *TC) bit(t *Term, n int, memo map[*Term]*Term) (r *Term) {
	if n >= t.w {
		return c.ff
	}
	if t.IsConst() {
		return c.Bool(t.val>>uint(n)&1 == 1)
	}
	switch t.op { // shifts change the position: no sharing below them
	case OLshr:
		if k := t.args[1]; k.IsConst() && k.val < 64 {
			return c.bit(t.args[0], n+int(k.val), map[*Term]*Term{})
		}
		return nil
	case OShl:
		if k := t.args[1]; k.IsConst() && k.val < 64 {
			if n < int(k.val) {
				return c.ff
			}
			return c.bit(t.args[0], n-int(k.val), map[*Term]*Term{})
		}
		return nil
	case OExtract:
		return c.bit(t.args[0], n+int(t.val), map[*Term]*Term{})
	}
	if r, ok := memo[t]; ok {
		return r
	}
	defer func() { memo[t] = r }()
	switch t.op {
	case OZext:
		return c.bit(t.args[0], n, memo)
	case OIte:
		if a := c.bit(t.args[1], n, memo); a != nil {
			if b := c.bit(t.args[2], n, memo); b != nil {
				return c.Ite(t.args[0], a, b)
			}
		}
	case OBAnd, OBOr, OBXor:
		a := c.bit(t.args[0], n, memo)
		if a != nil && (t.op == OBAnd && a.IsFalse() || t.op == OBOr && a.IsTrue()) {
			return a
		}
		b := c.bit(t.args[1], n, memo)
		if b != nil && (t.op == OBAnd && b.IsFalse() || t.op == OBOr && b.IsTrue()) {
			return b
		}
		if a == nil || b == nil {
			return nil
		}
		switch t.op {
		case OBAnd:
			return c.And(a, b)
		case OBOr:
			return c.Or(a, b)
		}
		return c.Not(c.Eq(a, b))
	}
	return nil
}

// linear normal form for additions
func (c *TC) linear(t *Term, k uint64, m map[*Term]uint64, cst *uint64) {
	switch t.op {
	case OConst:
		*cst += k * t.val
	case OAdd:
		c.linear(t.args[0], k, m, cst)
		c.linear(t.args[1], k, m, cst)
	case OSub:
		c.linear(t.args[0], k, m, cst)
		c.linear(t.args[1], -k, m, cst)
	case OMul:
		if t.args[1].IsConst() {
			c.linear(t.args[0], k*t.args[1].val, m, cst)
			return
		}
		m[t] += k
	default:
		m[t] += k
	}
}
func (c *TC) fromLinear(w int, m map[*Term]uint64, cst uint64) *Term {
	var ts []*Term
	for t, k := range m {
		if k&mask(w) != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var r *Term
	// positive first
	var neg []*Term
	for _, t := range ts {
		k := m[t] & mask(w)
		if sx(k, w) < 0 && sx(k, w) > -16 {
			neg = append(neg, t)
			continue
		}
		x := t
		if k != 1 {
			x = c.mk(OMul, w, 0, "", t, c.BV(w, k))
		}
		if r == nil {
			r = x
		} else {
			r = c.mk(OAdd, w, 0, "", r, x)
		}
	}
	for _, t := range neg {
		k := (-m[t]) & mask(w)
		x := t
		if k != 1 {
			x = c.mk(OMul, w, 0, "", t, c.BV(w, k))
		}
		if r == nil {
			r = c.BV(w, 0)
		}
		r = c.mk(OSub, w, 0, "", r, x)
	}
	cst &= mask(w)
	if r == nil {
		return c.BV(w, cst)
	}
	if cst != 0 {
		r = c.mk(OAdd, w, 0, "", r, c.BV(w, cst))
	}
	return r
}
func (c *TC) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.BV(a.w, a.val+b.val)
	}
	if a.op == OIte && b.IsConst() && a.args[1].IsConst() && a.args[2].IsConst() {
		return c.Ite(a.args[0], c.Add(a.args[1], b), c.Add(a.args[2], b))
	}
	m := map[*Term]uint64{}
	var k uint64
	c.linear(a, 1, m, &k)
	c.linear(b, 1, m, &k)
	return c.fromLinear(a.w, m, k)
}
func (c *TC) Sub(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.BV(a.w, a.val-b.val)
	}
	m := map[*Term]uint64{}
	var k uint64
	c.linear(a, 1, m, &k)
	c.linear(b, ^uint64(0), m, &k)
	return c.fromLinear(a.w, m, k)
}
func (c *TC) Mul(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.BV(a.w, a.val*b.val)
		}
		if b.val == 1 {
			return a
		}
		if b.val == 0 {
			return b
		}
		m := map[*Term]uint64{}
		var k uint64
		c.linear(a, b.val, m, &k)
		return c.fromLinear(a.w, m, k)
	}
	return c.mk(OMul, a.w, 0, "", a, b)
}

// upper bound of an unsigned value (cheap)
func (c *TC) ubound(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZext:
		return c.ubound(t.args[0])
	case OIte:
		a, b := c.ubound(t.args[1]), c.ubound(t.args[2])
		if a > b {
			return a
		}
		return b
	case OAdd:
		a, b := c.ubound(t.args[0]), c.ubound(t.args[1])
		if a < 1<<62 && b < 1<<62 && a+b <= mask(t.w) {
			return a + b
		}
	case OMul:
		a, b := c.ubound(t.args[0]), c.ubound(t.args[1])
		if a < 1<<31 && b < 1<<31 && a*b <= mask(t.w) {
			return a * b
		}
	case OBAnd:
		a, b := c.ubound(t.args[0]), c.ubound(t.args[1])
		if a < b {
			return a
		}
		return b
	case OConcat:
		h := t.args[0]
		return c.ubound(h)<<uint(t.args[1].w) | mask(t.args[1].w)
	case OUDiv:
		if t.args[1].IsConst() && t.args[1].val > 0 {
			return c.ubound(t.args[0]) / t.args[1].val
		}
	case OLshr:
		if t.args[1].IsConst() && t.args[1].val < 64 {
			return c.ubound(t.args[0]) >> t.args[1].val
		}
	}
	return mask(t.w)
}

func (c *TC) bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("bin width op%d %d %d", op, a.w, b.w))
	}
	if a.IsConst() && b.IsConst() {
		x, y := a.val, b.val
		switch op {
		case OUDiv:
			if y != 0 {
				return c.BV(w, x/y)
			}
		case OSDiv:
			if y != 0 {
				return c.BV(w, uint64(sx(x, w)/sx(y, w)))
			}
		case OURem:
			if y != 0 {
				return c.BV(w, x%y)
			}
		case OSRem:
			if y != 0 {
				return c.BV(w, uint64(sx(x, w)%sx(y, w)))
			}
		case OBAnd:
			return c.BV(w, x&y)
		case OBOr:
			return c.BV(w, x|y)
		case OBXor:
			return c.BV(w, x^y)
		case OShl:
			if y >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.BV(w, x<<y)
		case OLshr:
			if y >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.BV(w, x>>y)
		case OAshr:
			if y >= uint64(w) {
				y = uint64(w - 1)
			}
			return c.BV(w, uint64(sx(x, w)>>y))
		}
	}
	switch op {
	case OBAnd, OBOr, OBXor:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			switch {
			case b.val == 0 && op == OBAnd:
				return b
			case b.val == 0:
				return a
			case b.val == mask(w) && op == OBAnd:
				return a
			case b.val == mask(w) && op == OBOr:
				return b
			}
			if op == OBAnd && a.op == OZext && b.val <= mask(a.args[0].w) {
				return c.Zext(c.bin(OBAnd, a.args[0], c.BV(a.args[0].w, b.val)), w)
			}
			if op == OBAnd && a.op == OBAnd && a.args[1].IsConst() {
				return c.bin(OBAnd, a.args[0], c.BV(w, b.val&a.args[1].val))
			}
			if op == OBAnd && a.op == OZext && b.val&mask(a.args[0].w) == mask(a.args[0].w) {
				return a
			}
			if op == OBXor && b.val == mask(w) {
				return c.BNot(a)
			}
		} else if a == b {
			if op == OBXor {
				return c.BV(w, 0)
			}
			return a
		}
		// disjoint "or" of shifted bytes -> concat (BigEndian idiom)
		if op == OBOr {
			if r := c.orConcat(a, b); r != nil {
				return r
			}
		}
		if !b.IsConst() && a.id > b.id {
			a, b = b, a
		}
	case OShl, OLshr, OAshr:
		if b.IsConst() && b.val == 0 {
			return a
		}
		if b.IsConst() && b.val >= uint64(w) && op != OAshr {
			return c.BV(w, 0)
		}
		if op == OAshr && c.ubound(a) < 1<<uint(w-1) {
			return c.bin(OLshr, a, b)
		}
	case OSDiv:
		if c.ubound(a) < 1<<uint(w-1) && c.ubound(b) < 1<<uint(w-1) {
			return c.bin(OUDiv, a, b)
		}
	case OSRem:
		if c.ubound(a) < 1<<uint(w-1) && c.ubound(b) < 1<<uint(w-1) {
			return c.bin(OURem, a, b)
		}
	}
	switch op {
	case OUDiv:
		if b.IsConst() && b.val == 1 {
			return a
		}
		if b.IsConst() && b.val > 0 && b.val&(b.val-1) == 0 {
			s := uint64(0)
			for v := b.val; v > 1; v >>= 1 {
				s++
			}
			return c.bin(OLshr, a, c.BV(w, s))
		}
	case OURem:
		if b.IsConst() && b.val > 0 && b.val&(b.val-1) == 0 {
			return c.bin(OBAnd, a, c.BV(w, b.val-1))
		}
	}
	return c.mk(op, w, 0, "", a, b)
}

type piece struct {
	t     *Term
	shift int
}

// pieces decomposes t into byte-disjoint zero-extended shifted parts.
func (c *TC) pieces(t *Term, shift int, out *[]piece) bool {
	switch t.op {
	case OZext:
		*out = append(*out, piece{t.args[0], shift})
		return true
	case OShl:
		if t.args[1].IsConst() {
			return c.pieces(t.args[0], shift+int(t.args[1].val), out)
		}
	case OConst:
		if t.val == 0 {
			return true
		}
	case OConcat:
		if !c.pieces(t.args[0], shift+t.args[1].w, out) {
			return false
		}
		*out = append(*out, piece{t.args[1], shift})
		return true
	case OUF, OVar, OExtract:
		*out = append(*out, piece{t, shift})
		return true
	}
	return false
}
func (c *TC) orConcat(a, b *Term) *Term {
	var ps []piece
	if !c.pieces(a, 0, &ps) || !c.pieces(b, 0, &ps) {
		return nil
	}
	w := a.w
	var fl []piece
	for _, p := range ps { // truncate overflow
		if p.shift >= w {
			continue
		}
		if p.shift+p.t.w > w {
			return nil
		}
		// flatten concats inside
		var rec func(t *Term, s int)
		rec = func(t *Term, s int) {
			if t.op == OConcat {
				rec(t.args[0], s+t.args[1].w)
				rec(t.args[1], s)
				return
			}
			if t.op == OZext {
				rec(t.args[0], s)
				return
			}
			if t.IsConst() && t.val == 0 {
				return
			}
			fl = append(fl, piece{t, s})
		}
		rec(p.t, p.shift)
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].shift < fl[j].shift })
	pos := 0
	var r *Term
	for _, p := range fl {
		if p.shift < pos {
			return nil
		}
		if p.shift > pos {
			z := c.BV(p.shift-pos, 0)
			if p.shift-pos > 64 {
				return nil
			}
			if r == nil {
				r = z
			} else {
				r = c.Concat(z, r)
			}
		}
		if r == nil {
			r = p.t
		} else {
			r = c.Concat(p.t, r)
		}
		pos = p.shift + p.t.w
	}
	if r == nil {
		return c.BV(w, 0)
	}
	return c.Zext(r, w)
}
func (c *TC) Concat(hi, lo *Term) *Term {
	if hi.IsConst() && hi.val == 0 {
		return c.Zext(lo, hi.w+lo.w)
	}
	if hi.IsConst() && lo.IsConst() {
		return c.BV(hi.w+lo.w, hi.val<<uint(lo.w)|lo.val)
	}
	if hi.op == OZext {
		return c.Zext(c.Concat(hi.args[0], lo), hi.w+lo.w)
	}
	return c.mk(OConcat, hi.w+lo.w, 0, "", hi, lo)
}
func (c *TC) BNot(a *Term) *Term {
	if a.IsConst() {
		return c.BV(a.w, ^a.val)
	}
	return c.mk(OBNot, a.w, 0, "", a)
}
func (c *TC) Ult(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.val < b.val)
	}
	if a == b || (b.IsConst() && b.val == 0) {
		return c.ff
	}
	if b.IsConst() && c.ubound(a) < b.val {
		return c.tt
	}
	if a.IsConst() && a.val >= c.ubound(b) {
		return c.ff
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return c.Ult(a.args[0], b.args[0])
	}
	if a.op == OZext && b.IsConst() && b.val <= mask(a.args[0].w) {
		return c.Ult(a.args[0], c.BV(a.args[0].w, b.val))
	}
	if b.op == OZext && a.IsConst() && a.val <= mask(b.args[0].w) {
		return c.Ult(c.BV(b.args[0].w, a.val), b.args[0])
	}
	return c.mk(OUlt, 0, 0, "", a, b)
}
func (c *TC) Ule(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.val <= b.val)
	}
	if a == b || (a.IsConst() && a.val == 0) {
		return c.tt
	}
	if b.IsConst() && c.ubound(a) <= b.val {
		return c.tt
	}
	if a.IsConst() && a.val > c.ubound(b) {
		return c.ff
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return c.Ule(a.args[0], b.args[0])
	}
	if a.op == OZext && b.IsConst() && b.val <= mask(a.args[0].w) {
		return c.Ule(a.args[0], c.BV(a.args[0].w, b.val))
	}
	if b.op == OZext && a.IsConst() && a.val <= mask(b.args[0].w) {
		return c.Ule(c.BV(b.args[0].w, a.val), b.args[0])
	}
	if a.IsConst() && a.val == 1 {
		return c.Not(c.Eq(b, c.BV(b.w, 0)))
	}
	return c.mk(OUle, 0, 0, "", a, b)
}
func (c *TC) nonneg(a *Term) bool { return c.ubound(a) < 1<<uint(a.w-1) }
func (c *TC) Slt(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if a == b {
		return c.ff
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if b.IsConst() && sx(b.val, b.w) <= 0 && c.nonneg(a) {
		return c.ff
	}
	if a.IsConst() && sx(a.val, a.w) < 0 && c.nonneg(b) {
		return c.tt
	}
	return c.mk(OSlt, 0, 0, "", a, b)
}
func (c *TC) Sle(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(sx(a.val, a.w) <= sx(b.val, b.w))
	}
	if a == b {
		return c.tt
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ule(a, b)
	}
	if a.IsConst() && sx(a.val, a.w) <= 0 && c.nonneg(b) {
		return c.tt
	}
	if b.IsConst() && sx(b.val, b.w) < 0 && c.nonneg(a) {
		return c.ff
	}
	return c.mk(OSle, 0, 0, "", a, b)
}
func (c *TC) Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		return c.BV(w, a.val)
	}
	if a.op == OZext {
		a = a.args[0]
	}
	if a.op == OIte && a.args[1].IsConst() && a.args[2].IsConst() {
		return c.Ite(a.args[0], c.Zext(a.args[1], w), c.Zext(a.args[2], w))
	}
	return c.mk(OZext, w, 0, "", a)
}
func (c *TC) Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		return c.BV(w, uint64(sx(a.val, a.w)))
	}
	if c.nonneg(a) {
		return c.Zext(a, w)
	}
	return c.mk(OSext, w, 0, "", a)
}
func (c *TC) Trunc(a *Term, w int) *Term { return c.Extract(a, 0, w) }
func (c *TC) Extract(a *Term, lo, w int) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if a.IsConst() {
		return c.BV(w, a.val>>uint(lo))
	}
	switch a.op {
	case OZext:
		in := a.args[0]
		if lo >= in.w {
			return c.BV(w, 0)
		}
		if lo+w <= in.w {
			return c.Extract(in, lo, w)
		}
		if lo == 0 {
			return c.Zext(in, w)
		}
		return c.Zext(c.Extract(in, lo, in.w-lo), w)
	case OSext:
		if lo+w <= a.args[0].w {
			return c.Extract(a.args[0], lo, w)
		}
	case OConcat:
		l := a.args[1]
		if lo+w <= l.w {
			return c.Extract(l, lo, w)
		}
		if lo >= l.w {
			return c.Extract(a.args[0], lo-l.w, w)
		}
	case OLshr:
		if a.args[1].IsConst() && int(a.args[1].val)+lo+w <= a.w {
			return c.Extract(a.args[0], lo+int(a.args[1].val), w)
		}
	case OExtract:
		return c.Extract(a.args[0], lo+int(a.val), w)
	case OBAnd, OBOr, OBXor:
		if lo == 0 {
			return c.bin(a.op, c.Extract(a.args[0], 0, w), c.Extract(a.args[1], 0, w))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			x, y := c.Extract(a.args[0], 0, w), c.Extract(a.args[1], 0, w)
			switch a.op {
			case OAdd:
				return c.Add(x, y)
			case OSub:
				return c.Sub(x, y)
			}
			return c.Mul(x, y)
		}
	case OIte:
		return c.Ite(a.args[0], c.Extract(a.args[1], lo, w), c.Extract(a.args[2], lo, w))
	}
	return c.mk(OExtract, w, uint64(lo), "", a)
}

// ---- arrays
func (c *TC) AVar(name string, args ...*Term) *Term { return c.mk(OAUF, -1, 0, name, args...) }
func (c *TC) ALit(s string) *Term                   { return c.mk(OALit, -1, 0, s) }
func (c *TC) ACopy(dst, doff, src, soff, n *Term) *Term {
	return c.mk(OACopy, -1, 0, "", dst, doff, src, soff, n)
}
func (c *TC) Select(a, i *Term) *Term {
	switch a.op {
	case OAUF:
		if a.name == "const8" {
			return a.args[0]
		}
		t := c.mk(OUF, 8, 0, "a."+a.name, append(append([]*Term{}, a.args...), i)...)
		if k, ok := c.known[t]; ok {
			return k
		}
		return t
	case OAIte:
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	case OALit:
		if i.IsConst() {
			if i.val < uint64(len(a.name)) {
				return c.BV(8, uint64(a.name[i.val]))
			}
			return c.BV(8, 0)
		}
		r := c.BV(8, 0)
		for j := len(a.name) - 1; j >= 0; j-- {
			r = c.Ite(c.Eq(i, c.I64(int64(j))), c.BV(8, uint64(a.name[j])), r)
		}
		return r
	case OACopy:
		dst, doff, src, soff, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
		rel := c.Sub(i, doff)
		return c.Ite(c.Ult(rel, n), c.Select(src, c.Add(soff, rel)), c.Select(dst, i))
	}
	panic("select")
}

// Subst replaces variables by terms.
func (c *TC) Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = c.Subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = c.rebuild(t, args)
	}
	memo[t] = r
	return r
}
func (c *TC) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return c.Not(a[0])
	case OAnd, OOr:
		return c.nary(t.op, a)
	case OIte, OAIte:
		return c.Ite(a[0], a[1], a[2])
	case OEq:
		return c.Eq(a[0], a[1])
	case OAdd:
		return c.Add(a[0], a[1])
	case OSub:
		return c.Sub(a[0], a[1])
	case OMul:
		return c.Mul(a[0], a[1])
	case OUlt:
		return c.Ult(a[0], a[1])
	case OUle:
		return c.Ule(a[0], a[1])
	case OSlt:
		return c.Slt(a[0], a[1])
	case OSle:
		return c.Sle(a[0], a[1])
	case OZext:
		return c.Zext(a[0], t.w)
	case OSext:
		return c.Sext(a[0], t.w)
	case OExtract:
		return c.Extract(a[0], int(t.val), t.w)
	case OConcat:
		return c.Concat(a[0], a[1])
	case OBNot:
		return c.BNot(a[0])
	case OUF:
		return c.UF(t.name, t.w, a...)
	case OAUF, OACopy:
		return c.mk(t.op, t.w, t.val, t.name, a...)
	}
	return c.bin(t.op, a[0], a[1])
}

func (t *Term) Contains(m map[*Term]bool, memo map[*Term]bool) bool {
	if m[t] {
		return true
	}
	if v, ok := memo[t]; ok {
		return v
	}
	r := false
	for _, a := range t.args {
		if a.Contains(m, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprint(sx(t.val, t.w))
	case OVar:
		return t.name
	case OALit:
		return fmt.Sprintf("%q", t.name)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	n := opNames[t.op]
	switch t.op {
	case OUF, OAUF:
		n = t.name
	case OZext:
		n = fmt.Sprintf("zx%d", t.w)
	case OSext:
		n = fmt.Sprintf("sx%d", t.w)
	case OExtract:
		n = fmt.Sprintf("ex%d_%d", t.val, t.w)
	case OAIte:
		n = "aite"
	case OACopy:
		n = "acopy"
	}
	return n + "(" + strings.Join(as, ",") + ")"
}
