package main

// Comparison of what the code produced with what the specification demands.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"
)

const (
	cOK = iota
	cRef
	cUnk
)

type cres struct {
	s   int
	why string
	pc  []*Term // extra conditions of the failing case
}

var okRes = cres{}

func (e *Engine) chk(pc []*Term, extra ...*Term) int {
	return e.s.Check(append(append([]*Term{}, pc...), extra...))
}

func app(pc []*Term, t ...*Term) []*Term {
	return append(append(make([]*Term, 0, len(pc)+len(t)), pc...), t...)
}

// must: is cond valid under pc? (OK / refuted / unknown)
func (e *Engine) must(pc []*Term, cond *Term, why string) cres {
	if cond.IsTrue() {
		return okRes
	}
	nc := e.c.Not(cond)
	switch e.chk(pc, nc) {
	case Unsat:
		return okRes
	case Sat:
		return cres{cRef, why, app(pc, nc)}
	}
	return cres{cUnk, why + " (solver gave up)", app(pc, nc)}
}

func rest(s []Seg) []Seg { return s[1:] }
func pre(s *SStr, t []Seg) []Seg {
	return catStr(s, &SStr{segs: t}).segs
}
func show(s []Seg) string {
	t := (&SStr{segs: s}).key()
	if len(t) > 160 {
		t = t[:160] + "..."
	}
	return t
}

type cmpBudget struct{ n int }

func (e *Engine) strCmp(pc []*Term, a, b []Seg, bud *cmpBudget) cres {
	c := e.c
	for {
		bud.n--
		if bud.n < 0 {
			return cres{cUnk, "text comparison too complex", pc}
		}
		// strip equal heads
		for len(a) > 0 && len(b) > 0 {
			if a[0].key() == b[0].key() {
				a, b = a[1:], b[1:]
				continue
			}
			if a[0].k == sLit && b[0].k == sLit {
				x, y := a[0].s, b[0].s
				n := 0
				for n < len(x) && n < len(y) && x[n] == y[n] {
					n++
				}
				if n == 0 {
					return cres{cRef, fmt.Sprintf("text %q instead of %q", x, y), pc}
				}
				if n < len(x) && n < len(y) {
					return cres{cRef, fmt.Sprintf("text %q instead of %q", x, y), pc}
				}
				a, b = pre(lit(x[n:]), a[1:]), pre(lit(y[n:]), b[1:])
				continue
			}
			break
		}
		// strip equal tails
		for len(a) > 0 && len(b) > 0 && a[len(a)-1].key() == b[len(b)-1].key() {
			a, b = a[:len(a)-1], b[:len(b)-1]
		}
		if len(a) == 0 && len(b) == 0 {
			return okRes
		}
		// case splits
		for side := 0; side < 2; side++ {
			x := a
			if side == 1 {
				x = b
			}
			if len(x) == 0 {
				continue
			}
			g := x[0]
			switch g.k {
			case sIte:
				for _, pos := range []bool{true, false} {
					cond, body := g.t, g.a
					if !pos {
						cond, body = c.Not(g.t), g.c
					}
					if e.chk(pc, cond) == Unsat {
						continue
					}
					na, nb := a, b
					if side == 0 {
						na = pre(body, x[1:])
					} else {
						nb = pre(body, x[1:])
					}
					// the same condition on the other side
					if len(na) > 0 && len(nb) > 0 {
						o := nb
						if side == 1 {
							o = na
						}
						if o[0].k == sIte && o[0].t == g.t {
							ob := o[0].a
							if !pos {
								ob = o[0].c
							}
							if side == 0 {
								nb = pre(ob, o[1:])
							} else {
								na = pre(ob, o[1:])
							}
						}
					}
					if r := e.strCmp(app(pc, cond), na, nb, bud); r.s != cOK {
						return r
					}
				}
				return okRes
			}
		}
		if len(a) > 0 && len(b) > 0 && a[0].k == sTab && b[0].k == sTab {
			eq := a[0].t == b[0].t
			if !eq && a[0].t.w == b[0].t.w {
				eq = e.chk(pc, c.Not(c.Eq(a[0].t, b[0].t))) == Unsat
			}
			if eq {
				// compare as functions
				ma, mb := tabMap(a[0]), tabMap(b[0])
				keysU := map[uint64]bool{}
				for k := range ma {
					keysU[k] = true
				}
				for k := range mb {
					keysU[k] = true
				}
				other := c.tt
				for k := range keysU {
					other = c.And(other, c.Not(c.Eq(a[0].t, c.BV(a[0].t.w, k))))
					x, ok := ma[k]
					if !ok {
						x = a[0].s
					}
					y, ok := mb[k]
					if !ok {
						y = b[0].s
					}
					if x == y {
						continue
					}
					cond := c.Eq(a[0].t, c.BV(a[0].t.w, k))
					if e.chk(pc, cond) == Unsat {
						continue
					}
					if r := e.strCmp(app(pc, cond), pre(lit(x), a[1:]), pre(lit(y), b[1:]), bud); r.s != cOK {
						return r
					}
				}
				if a[0].s != b[0].s && e.chk(pc, other) != Unsat {
					if r := e.strCmp(app(pc, other), pre(lit(a[0].s), a[1:]), pre(lit(b[0].s), b[1:]), bud); r.s != cOK {
						return r
					}
				}
				a, b = a[1:], b[1:]
				continue
			}
		}
		split := -1
		if len(a) > 0 && a[0].k == sTab {
			split = 0
		} else if len(b) > 0 && b[0].k == sTab {
			split = 1
		}
		if split >= 0 {
			x := a
			if split == 1 {
				x = b
			}
			g := x[0]
			groups := map[string]*Term{}
			var order []string
			other := c.tt
			for _, en := range g.tab {
				q := c.Eq(g.t, c.BV(g.t.w, en.k))
				other = c.And(other, c.Not(q))
				if groups[en.s] == nil {
					order = append(order, en.s)
					groups[en.s] = q
				} else {
					groups[en.s] = c.Or(groups[en.s], q)
				}
			}
			if groups[g.s] == nil {
				order = append(order, g.s)
				groups[g.s] = other
			} else {
				groups[g.s] = c.Or(groups[g.s], other)
			}
			for _, s := range order {
				if e.chk(pc, groups[s]) == Unsat {
					continue
				}
				na, nb := a, b
				if split == 0 {
					na = pre(lit(s), a[1:])
				} else {
					nb = pre(lit(s), b[1:])
				}
				if r := e.strCmp(app(pc, groups[s]), na, nb, bud); r.s != cOK {
					return r
				}
			}
			return okRes
		}
		// drop empties
		dropped := false
		for side := 0; side < 2; side++ {
			x := a
			if side == 1 {
				x = b
			}
			if len(x) == 0 {
				continue
			}
			var z *Term
			switch x[0].k {
			case sBytes:
				z = x[0].b.len
			case sFold:
				z = x[0].t
			default:
				continue
			}
			o := b
			if side == 1 {
				o = a
			}
			if len(o) > 0 && o[0].k == x[0].k {
				continue
			}
			if e.chk(pc, c.Not(c.Eq(z, c.I64(0)))) == Unsat {
				if side == 0 {
					a = a[1:]
				} else {
					b = b[1:]
				}
				dropped = true
				break
			}
		}
		if dropped {
			continue
		}
		if len(a) == 0 || len(b) == 0 {
			x, w := a, "extra text "
			if len(a) == 0 {
				x, w = b, "missing text "
			}
			g := x[0]
			switch g.k {
			case sLit, sDec, sFmt, sRune, sByte:
				return cres{cRef, w + show(x), pc}
			case sBytes:
				return e.must(pc, c.Eq(g.b.len, c.I64(0)), w+show(x))
			case sFold:
				if minLen(g.a) > 0 {
					return e.must(pc, c.Eq(g.t, c.I64(0)), w+show(x))
				}
			}
			return cres{cUnk, w + show(x), pc}
		}
		x, y := a[0], b[0]
		adv := func() { a, b = a[1:], b[1:] }
		switch {
		case x.k == sBytes && y.k == sBytes:
			xa, ya := x.b.arr, y.b.arr
			if xa == nil || ya == nil {
				return cres{cUnk, "mutable text", pc}
			}
			lenEq := c.Eq(x.b.len, y.b.len)
			r := e.must(pc, lenEq, "length of raw text differs")
			if r.s != cOK {
				if len(a) == 1 && len(b) == 1 || r.s == cUnk {
					return r
				}
				// maybe one of them can be empty: split
				return cres{cUnk, "raw texts of different length", r.pc}
			}
			i := e.index("i")
			r = e.must(app(pc, c.Ult(i, x.b.len)), c.Eq(c.Select(xa, c.Add(x.b.off, i)), c.Select(ya, c.Add(y.b.off, i))), "raw text differs")
			if r.s != cOK {
				return r
			}
			adv()
			continue
		case x.k == sDec && y.k == sDec:
			r := e.must(pc, c.Eq(x.t, y.t), "number differs")
			if r.s != cOK {
				if r.s == cRef && !(nonDigit(a[1:]) && nonDigit(b[1:])) {
					r.s = cUnk
				}
				return r
			}
			adv()
			continue
		case x.k == sDec && y.k == sLit, x.k == sLit && y.k == sDec:
			d, l, dr, lr := x, y, a, b
			if x.k == sLit {
				d, l, dr, lr = y, x, b, a
			}
			n := 0
			if n < len(l.s) && l.s[n] == '-' {
				n++
			}
			for n < len(l.s) && l.s[n] >= '0' && l.s[n] <= '9' {
				n++
			}
			num, err := strconv.ParseInt(l.s[:n], 10, 64)
			if err != nil {
				return cres{cRef, "number expected/unexpected: " + show(a) + " / " + show(b), pc}
			}
			r := e.must(pc, c.Eq(d.t, c.I64(num)), "number differs from "+l.s[:n])
			if r.s != cOK {
				if n == len(l.s) && !nonDigit(lr[1:]) {
					r.s = cUnk
				}
				return r
			}
			dr = dr[1:]
			lr = pre(lit(l.s[n:]), lr[1:])
			if x.k == sDec {
				a, b = dr, lr
			} else {
				b, a = dr, lr
			}
			continue
		case (x.k == sFmt && y.k == sFmt && x.s == y.s), (x.k == sRune && y.k == sRune), (x.k == sByte && y.k == sByte):
			if x.t.w != y.t.w {
				m := x.t.w
				if y.t.w > m {
					m = y.t.w
				}
				x.t, y.t = c.Zext(x.t, m), c.Zext(y.t, m)
			}
			r := e.must(pc, c.Eq(x.t, y.t), "formatted value differs")
			if r.s != cOK {
				return r
			}
			adv()
			continue
		case x.k == sByte && hexFmt(y):
			b = pre(c.hexDigits(y.t), b[1:])
			continue
		case y.k == sByte && hexFmt(x):
			a = pre(c.hexDigits(x.t), a[1:])
			continue
		case x.k == sByte && y.k == sLit, x.k == sLit && y.k == sByte:
			d, l := x, y
			if x.k == sLit {
				d, l = y, x
			}
			r := e.must(pc, c.Eq(d.t, c.BV(8, uint64(l.s[0]))), "character differs")
			if r.s != cOK {
				return r
			}
			if x.k == sByte {
				a, b = a[1:], pre(lit(l.s[1:]), b[1:])
			} else {
				b, a = b[1:], pre(lit(l.s[1:]), a[1:])
			}
			continue
		case x.k == sRune && y.k == sLit, x.k == sLit && y.k == sRune:
			d, l := x, y
			if x.k == sLit {
				d, l = y, x
			}
			rn, sz := utf8.DecodeRuneInString(l.s)
			r := e.must(pc, c.Eq(d.t, c.BV(d.t.w, uint64(rn))), "character differs")
			if r.s != cOK {
				return r
			}
			if x.k == sRune {
				a, b = a[1:], pre(lit(l.s[sz:]), b[1:])
			} else {
				b, a = b[1:], pre(lit(l.s[sz:]), a[1:])
			}
			continue
		case x.k == sBytes && y.k == sLit, x.k == sLit && y.k == sBytes:
			d, l := x, y
			if x.k == sLit {
				d, l = y, x
			}
			if d.b.len.IsConst() && d.b.len.val <= uint64(len(l.s)) && d.b.arr != nil {
				n := int(d.b.len.val)
				cond := c.tt
				for i := 0; i < n; i++ {
					cond = c.And(cond, c.Eq(c.Select(d.b.arr, c.Add(d.b.off, c.I64(int64(i)))), c.BV(8, uint64(l.s[i]))))
				}
				r := e.must(pc, cond, "raw text differs from "+strconv.Quote(l.s))
				if r.s != cOK {
					return r
				}
				if x.k == sBytes {
					a, b = a[1:], pre(lit(l.s[n:]), b[1:])
				} else {
					b, a = b[1:], pre(lit(l.s[n:]), a[1:])
				}
				continue
			}
			return cres{cUnk, "raw text against " + strconv.Quote(l.s), pc}
		case x.k == sOpq && y.k == sOpq && x.s == y.s && len(x.args) == len(y.args):
			for i := range x.args {
				r := e.argEq(pc, x.args[i], y.args[i], bud)
				if r.s != cOK {
					r.why = x.s + ": " + r.why
					return r
				}
			}
			adv()
			continue
		case x.k == sFold && y.k == sFold:
			r := e.must(pc, c.Eq(x.t, y.t), "number of repetitions differs")
			if r.s != cOK {
				return r
			}
			k := e.index("kc")
			xb := e.substVal(x.a, map[*Term]*Term{x.u: k}).(*SStr)
			yb := e.substVal(y.a, map[*Term]*Term{y.u: k}).(*SStr)
			r = e.strCmp(app(pc, c.Ult(k, x.t)), xb.segs, yb.segs, bud)
			if r.s != cOK {
				return r
			}
			adv()
			continue
		case x.k == sFold || y.k == sFold:
			// peel one repetition
			f := x
			if y.k == sFold {
				f = y
			}
			if e.chk(pc, c.Eq(f.t, c.I64(0))) != Unsat {
				return cres{cUnk, "repetition against " + show(a) + " / " + show(b), pc}
			}
			h := e.substVal(f.a, map[*Term]*Term{f.u: c.I64(0)}).(*SStr)
			nf := Seg{k: sFold, t: c.Sub(f.t, c.I64(1)), u: f.u, a: e.substVal(f.a, map[*Term]*Term{f.u: c.Add(f.u, c.I64(1))}).(*SStr)}
			if x.k == sFold {
				a = pre(catStr(h, one(nf)), a[1:])
			} else {
				b = pre(catStr(h, one(nf)), b[1:])
			}
			continue
		}
		return cres{cUnk, "cannot align " + show(a) + " with " + show(b), pc}
	}
}

// hexFmt: an octet as two hexadecimal digits.
func hexFmt(s Seg) bool {
	return s.k == sFmt && s.s == "%02x!u" && s.t.op == OZext && s.t.args[0].w <= 8
}
func (c *TC) hexDigits(t *Term) *SStr {
	t = c.Trunc(t, 8)
	digit := func(n *Term) *SStr {
		return one(Seg{k: sByte, t: c.Ite(c.Ult(n, c.BV(8, 10)), c.Add(n, c.BV(8, '0')), c.Add(n, c.BV(8, 'a'-10)))})
	}
	return catStr(digit(c.bin(OLshr, t, c.BV(8, 4))), digit(c.bin(OBAnd, t, c.BV(8, 15))))
}

func nonDigit(s []Seg) bool {
	if len(s) == 0 {
		return true
	}
	if s[0].k == sLit {
		ch := s[0].s[0]
		return ch < '0' || ch > '9'
	}
	return false
}
func tabMap(g Seg) map[uint64]string {
	m := map[uint64]string{}
	for _, en := range g.tab {
		m[en.k] = en.s
	}
	return m
}

// argEq compares arguments of opaque functions.
func (e *Engine) argEq(pc []*Term, a, b Val, bud *cmpBudget) cres {
	if key(a) == key(b) {
		return okRes
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || y.w != x.w {
			return cres{cUnk, "argument kinds differ", pc}
		}
		return e.must(pc, e.c.Eq(x, y), "argument differs")
	case *SStr:
		if y, ok := b.(*SStr); ok {
			return e.strCmp(pc, x.segs, y.segs, bud)
		}
	case *VBytes:
		if y, ok := b.(*VBytes); ok {
			return e.strCmp(pc, []Seg{{k: sBytes, b: x}}, []Seg{{k: sBytes, b: y}}, bud)
		}
	case *VExt:
		if y, ok := b.(*VExt); ok && x.kind == y.kind && len(x.f) == len(y.f) {
			for i := range x.f {
				if r := e.argEq(pc, x.f[i], y.f[i], bud); r.s != cOK {
					return r
				}
			}
			return okRes
		}
		if y, ok := b.(*VExt); ok && x.kind != y.kind {
			return cres{cRef, x.kind + " instead of " + y.kind, pc}
		}
	case *VStruct:
		if y, ok := b.(*VStruct); ok && len(x.f) == len(y.f) {
			for i := range x.f {
				if r := e.argEq(pc, x.f[i], y.f[i], bud); r.s != cOK {
					return r
				}
			}
			return okRes
		}
	case *VTuple:
		if y, ok := b.(*VTuple); ok && len(x.e) == len(y.e) {
			for i := range x.e {
				if r := e.argEq(pc, x.e[i], y.e[i], bud); r.s != cOK {
					return r
				}
			}
			return okRes
		}
	case *VIte:
		if y, ok := b.(*VIte); ok && y.c == x.c {
			if r := e.argEq(app(pc, x.c), x.a, y.a, bud); r.s != cOK {
				return r
			}
			return e.argEq(app(pc, e.c.Not(x.c)), x.b, y.b, bud)
		}
		for _, p := range []bool{true, false} {
			cond, v := x.c, x.a
			if !p {
				cond, v = e.c.Not(x.c), x.b
			}
			if e.chk(pc, cond) == Unsat {
				continue
			}
			if r := e.argEq(app(pc, cond), v, b, bud); r.s != cOK {
				return r
			}
		}
		return okRes
	}
	if y, ok := b.(*VIte); ok {
		for _, p := range []bool{true, false} {
			cond, v := y.c, y.a
			if !p {
				cond, v = e.c.Not(y.c), y.b
			}
			if e.chk(pc, cond) == Unsat {
				continue
			}
			if r := e.argEq(app(pc, cond), a, v, bud); r.s != cOK {
				return r
			}
		}
		return okRes
	}
	_, n1 := a.(Nil)
	_, n2 := b.(Nil)
	if n1 != n2 {
		return cres{cRef, "nil-ness differs", pc}
	}
	return cres{cUnk, fmt.Sprintf("arguments %T and %T", a, b), pc}
}

func (e *Engine) report(st *State, facet, where string, r cres) {
	if e.quiet == 0 {
		e.oblig[facet]++
	}
	if r.s == cOK {
		return
	}
	if r.s == cRef {
		switch e.chk(r.pc) {
		case Unsat:
			return
		case Sat:
		default:
			r.s = cUnk
		}
	}
	if e.quiet > 0 {
		e.qfail = true
		return
	}
	s := "refuted"
	if r.s == cUnk {
		s = "unknown"
	}
	for _, f := range e.fails {
		if f.Facet == facet && f.Pos == where && f.Status == s && f.What == r.why {
			return
		}
	}
	n := 0
	for _, f := range e.fails {
		if f.Facet == facet {
			n++
		}
	}
	if n > 5 {
		return
	}
	e.fails = append(e.fails, &Failure{Facet: facet, What: r.why, Pos: where, Status: s, pc: r.pc, Soft: soft(r.pc), Model: e.model(r.pc)})
}

// softNames are functions of which less is known than the library defines: a
// counterexample that depends on them may be none.
var softNames = []string{"f2int@", "hasprefix@", "slen@", "sid@", "streq@", "strbyte@", "str@", "strings.", "bytes.", "unicode.", "url.", "plain@", "canonicalheader", "utf8valid@", "rune"}

func soft(pc []*Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OVar && strings.Contains(t.name, "~!") {
			return true // an arbitrary iteration: the state may be one the loop never reaches
		}
		if t.op == OUF || t.op == OAUF {
			for _, p := range softNames {
				if strings.HasPrefix(t.name, p) || strings.Contains(t.name, "@"+p) {
					return true
				}
			}
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	for _, t := range pc {
		if walk(t) {
			return true
		}
	}
	return false
}

func (e *Engine) cmpStr(st *State, facet, where string, a, b *SStr) {
	e.report(st, facet, where, e.strCmp(st.pc.list(), a.segs, b.segs, &cmpBudget{3000}))
}

// ---- items
type itemInfo struct {
	n                             int
	name, value, dump, note, subs int
}

func fieldIdx(t *types.Struct, name string) int {
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// deref follows a pointer or frozen pointee to a struct.
func (e *Engine) deref(st *State, v Val) (*VStruct, bool) {
	switch x := v.(type) {
	case *VPtr:
		s, ok := e.load(st, x, nil).(*VStruct)
		return s, ok
	case *VFrozen:
		s, ok := x.v.(*VStruct)
		return s, ok
	case *VStruct:
		return x, true
	}
	return nil, false
}

func nodeKind(s *VStruct, n int) string {
	if n < 0 || n >= len(s.f) {
		return "item"
	}
	if k, ok := s.f[n].(*SStr); ok {
		if l, ok := k.isLit(); ok && l != "" {
			return l
		}
	}
	return "item"
}

func (e *Engine) cmpItem(st *State, pc []*Term, where string, a, b Val) {
	// resolve conditionals
	if x, ok := a.(*VIte); ok {
		e.splitItem(st, pc, where, x.c, x.a, b, x.b, b)
		return
	}
	if x, ok := b.(*VIte); ok {
		e.splitItem(st, pc, where, x.c, a, x.a, a, x.b)
		return
	}
	_, n1 := a.(Nil)
	_, n2 := b.(Nil)
	if n1 && n2 {
		return
	}
	if n1 != n2 {
		e.report(st, "item.struct", where, cres{cRef, "an item is missing or unexpected", pc})
		return
	}
	x, ok1 := e.deref(st, a)
	y, ok2 := e.deref(st, b)
	if !ok1 || !ok2 {
		e.report(st, "item.struct", where, cres{cUnk, "item values out of reach", pc})
		return
	}
	ii, ni := e.P.item, e.P.node
	if len(x.f) != ii.n || len(y.f) != ni.n {
		e.report(st, "item.struct", where, cres{cUnk, "item values of unexpected type", pc})
		return
	}
	kind := nodeKind(y, e.P.nodeKind)
	nm := ""
	if s, ok := y.f[ni.name].(*SStr); ok {
		if l, ok := s.isLit(); ok {
			nm = l
		} else {
			nm = trunc(s.key())
			if len(nm) > 40 {
				nm = nm[:40]
			}
		}
	}
	w := where + "/" + nm
	fld := func(f string, i, j int) {
		s, ok1 := x.f[i].(*SStr)
		t, ok2 := y.f[j].(*SStr)
		if !ok1 || !ok2 {
			e.report(st, kind+"."+f, w, cres{cUnk, "text out of reach", pc})
			return
		}
		r := e.strCmp(pc, s.segs, t.segs, &cmpBudget{3000})
		if f == "dump" && r.s != cOK {
			// presence or contents?
			es, et := e.c.Eq(e.strLen(s), e.c.I64(0)), e.c.Eq(e.strLen(t), e.c.I64(0))
			pr := e.must(pc, e.c.Eq(es, et), "dump shown or hidden wrongly")
			if pr.s != cOK {
				e.report(st, kind+".dumppres", w, pr)
				return
			}
		}
		if f == "dump" {
			e.report(st, kind+".dumppres", w, cres{s: cOK})
		}
		r.why = f + ": " + r.why
		e.report(st, kind+"."+f, w, r)
	}
	fld("name", ii.name, ni.name)
	fld("value", ii.value, ni.value)
	fld("note", ii.note, ni.note)
	fld("dump", ii.dump, ni.dump)
	e.cmpItems(st, pc, w, e.asList(st, x.f[ii.subs]), e.asList(st, y.f[ni.subs]))
}
func (e *Engine) splitItem(st *State, pc []*Term, where string, c *Term, a1, b1, a2, b2 Val) {
	if e.chk(pc, c) != Unsat {
		e.cmpItem(st, app(pc, c), where, a1, b1)
	}
	if nc := e.c.Not(c); e.chk(pc, nc) != Unsat {
		e.cmpItem(st, app(pc, nc), where, a2, b2)
	}
}

func (e *Engine) kindsOf(st *State, g LSeg, spec bool) string {
	if g.k == lElem && spec {
		if s, ok := e.deref(st, g.v); ok && len(s.f) == e.P.node.n {
			return nodeKind(s, e.P.nodeKind)
		}
	}
	if g.k == lElem && !spec {
		if s, ok := e.deref(st, g.v); ok && len(s.f) == e.P.item.n {
			if n, ok := s.f[e.P.item.name].(*SStr); ok {
				if l, ok := n.isLit(); ok {
					return e.guessKind(l)
				}
			}
		}
	}
	if g.k == lGuard {
		for _, x := range append(append([]LSeg{}, g.a.segs...), g.c.segs...) {
			return e.kindsOf(st, x, spec)
		}
	}
	if g.k == lFold {
		for _, x := range g.a.segs {
			return e.kindsOf(st, x, spec)
		}
	}
	return "item"
}

// guessKind names the kind of an unexpected code item by its title.
func (e *Engine) guessKind(n string) string {
	for _, p := range []string{"Rest", "Unknown", "Other", "Undecoded"} {
		if strings.HasPrefix(n, p) {
			return "trail"
		}
	}
	if strings.Contains(n, "time") || strings.Contains(n, "Time") {
		return "time"
	}
	return "item"
}

func (e *Engine) cmpItems(st *State, pc []*Term, where string, la, lb *VList) {
	e.lists(st, pc, where, la.segs, lb.segs, 0)
}

func catSegs(a []LSeg, b []LSeg) []LSeg { return append(append([]LSeg{}, a...), b...) }

// tryLists compares without reporting.
func (e *Engine) tryLists(st *State, pc []*Term, where string, a, b []LSeg, depth int) bool {
	save := e.qfail
	e.quiet++
	e.qfail = false
	e.lists(st, pc, where, a, b, depth)
	bad := e.qfail
	e.quiet--
	e.qfail = save
	if !bad && e.quiet == 0 {
		e.oblig["item.struct"]++
	}
	return !bad
}

func (e *Engine) lists(st *State, pc []*Term, where string, a, b []LSeg, depth int) {
	c := e.c
	if depth > 40 {
		e.report(st, "item.struct", where, cres{cUnk, "list comparison too deep", pc})
		return
	}
	for {
		if e.quiet > 0 && e.qfail {
			return
		}
		if len(a) > 0 && len(b) > 0 && lsegKey(a[0]) == lsegKey(b[0]) && a[0].k != lElem {
			a, b = a[1:], b[1:]
			continue
		}
		if len(a) == 0 && len(b) == 0 {
			if e.quiet == 0 {
				e.oblig["item.struct"]++
			}
			return
		}
		// decide guards
		again := false
		for side := 0; side < 2; side++ {
			x := a
			if side == 1 {
				x = b
			}
			if len(x) > 0 && x[0].k == lGuard {
				g := x[0]
				var n []LSeg
				if e.chk(pc, g.t) == Unsat {
					n = catSegs(g.c.segs, x[1:])
				} else if e.chk(pc, c.Not(g.t)) == Unsat {
					n = catSegs(g.a.segs, x[1:])
				} else {
					continue
				}
				if side == 0 {
					a = n
				} else {
					b = n
				}
				again = true
			}
		}
		if again {
			continue
		}
		if len(a) > 0 && len(b) > 0 && a[0].k == lGuard && b[0].k == lGuard {
			ga, gb := a[0], b[0]
			if ga.t == gb.t || e.chk(pc, c.Not(c.Eq(ga.t, gb.t))) == Unsat {
				if e.tryLists(st, app(pc, ga.t), where, ga.a.segs, gb.a.segs, depth+1) &&
					e.tryLists(st, app(pc, c.Not(ga.t)), where, ga.c.segs, gb.c.segs, depth+1) {
					a, b = a[1:], b[1:]
					continue
				}
			}
			if e.chk(pc, c.Eq(ga.t, gb.t)) == Unsat {
				if e.tryLists(st, app(pc, ga.t), where, ga.a.segs, gb.c.segs, depth+1) &&
					e.tryLists(st, app(pc, c.Not(ga.t)), where, ga.c.segs, gb.a.segs, depth+1) {
					a, b = a[1:], b[1:]
					continue
				}
			}
		}
		for side := 0; side < 2; side++ {
			x := a
			if side == 1 {
				x = b
			}
			if len(x) > 0 && x[0].k == lGuard {
				g := x[0]
				yes, no := catSegs(g.a.segs, x[1:]), catSegs(g.c.segs, x[1:])
				if side == 0 {
					e.lists(st, app(pc, g.t), where, yes, b, depth+1)
					e.lists(st, app(pc, c.Not(g.t)), where, no, b, depth+1)
				} else {
					e.lists(st, app(pc, g.t), where, a, yes, depth+1)
					e.lists(st, app(pc, c.Not(g.t)), where, a, no, depth+1)
				}
				return
			}
		}
		// empty folds
		for side := 0; side < 2; side++ {
			x, o := a, b
			if side == 1 {
				x, o = b, a
			}
			if len(x) > 0 && x[0].k == lFold && !(len(o) > 0 && o[0].k == lFold) {
				r := e.must(pc, c.Eq(x[0].t, c.I64(0)), "repeated items missing or unexpected")
				if r.s != cOK {
					e.report(st, e.kindsOf(st, x[0], side == 1)+".struct", where, r)
					return
				}
				if side == 0 {
					a = a[1:]
				} else {
					b = b[1:]
				}
				again = true
				break
			}
		}
		if again {
			continue
		}
		if len(a) == 0 || len(b) == 0 {
			x, sp, w := a, false, "extra item "
			if len(a) == 0 {
				x, sp, w = b, true, "missing item "
			}
			s := cRef
			if x[0].k == lVar || x[0].k == lGen {
				s = cUnk
			}
			e.report(st, e.kindsOf(st, x[0], sp)+".struct", where, cres{s, w + e.nameOf(st, x[0]), pc})
			return
		}
		x, y := a[0], b[0]
		switch {
		case x.k == lElem && y.k == lElem:
			e.cmpItem(st, pc, where, x.v, y.v)
			a, b = a[1:], b[1:]
			continue
		case x.k == lFold && y.k == lFold:
			r := e.must(pc, c.Eq(x.t, y.t), "number of items differs")
			if r.s != cOK {
				e.report(st, e.kindsOf(st, y, true)+".struct", where, r)
				return
			}
			k := e.index("kc")
			xb := e.substVal(x.a, map[*Term]*Term{x.u: k}).(*VList)
			yb := e.substVal(y.a, map[*Term]*Term{y.u: k}).(*VList)
			e.lists(st, app(pc, c.Ult(k, x.t)), where, xb.segs, yb.segs, depth+1)
			a, b = a[1:], b[1:]
			continue
		case x.k == lVar && y.k == lVar && x.name == y.name && x.v != nil && y.v != nil:
			r := e.argEq(pc, x.v, y.v, &cmpBudget{1000})
			e.report(st, "item.struct", where, r)
			if r.s != cOK {
				return
			}
			a, b = a[1:], b[1:]
			continue
		}
		e.report(st, "item.struct", where, cres{cUnk, "cannot align item lists: " + trunc(lsegKey(x)) + " / " + trunc(lsegKey(y)), pc})
		return
	}
}
func (e *Engine) nameOf(st *State, g LSeg) string {
	if g.k == lElem {
		if s, ok := e.deref(st, g.v); ok && len(s.f) > 0 {
			if n, ok := s.f[0].(*SStr); ok {
				return trunc(n.key())
			}
		}
	}
	return "?"
}

// cmpAny compares arbitrary related values (loop coupling, contexts).
func (e *Engine) cmpAny(st *State, facet, where string, a, b Val) {
	e.cmpAnyPC(st, st.pc.list(), facet, where, a, b, 0)
}
func (e *Engine) cmpAnyPC(st *State, pc []*Term, facet, where string, a, b Val, depth int) {
	if depth > 12 {
		e.report(st, facet, where, cres{cUnk, "comparison too deep", pc})
		return
	}
	if x, ok := a.(*VIte); ok {
		if e.chk(pc, x.c) != Unsat {
			e.cmpAnyPC(st, app(pc, x.c), facet, where, x.a, b, depth)
		}
		if nc := e.c.Not(x.c); e.chk(pc, nc) != Unsat {
			e.cmpAnyPC(st, app(pc, nc), facet, where, x.b, b, depth)
		}
		return
	}
	if x, ok := b.(*VIte); ok {
		if e.chk(pc, x.c) != Unsat {
			e.cmpAnyPC(st, app(pc, x.c), facet, where, a, x.a, depth)
		}
		if nc := e.c.Not(x.c); e.chk(pc, nc) != Unsat {
			e.cmpAnyPC(st, app(pc, nc), facet, where, a, x.b, depth)
		}
		return
	}
	bad := func(s int, w string) { e.report(st, facet, where, cres{s, w, pc}) }
	isList := func(v Val) bool {
		switch v.(type) {
		case *VList, *VSlice:
			return true
		}
		return false
	}
	if isList(a) || isList(b) {
		okk := func(v Val) bool { _, n := v.(Nil); return n || isList(v) }
		if okk(a) && okk(b) {
			e.lists(st, pc, where, e.asList(st, a).segs, e.asList(st, b).segs, 0)
			return
		}
		bad(cUnk, "list against other value")
		return
	}
	isStr := func(v Val) (*SStr, bool) {
		switch x := v.(type) {
		case *SStr:
			return x, true
		case *VBytes:
			return e.asStr(st, x), true
		}
		return nil, false
	}
	if x, ok := isStr(a); ok {
		if y, ok := isStr(b); ok {
			e.report(st, facet, where, e.strCmp(pc, x.segs, y.segs, &cmpBudget{3000}))
			return
		}
		if _, n := b.(Nil); n {
			e.report(st, facet, where, e.strCmp(pc, x.segs, nil, &cmpBudget{3000}))
			return
		}
	}
	if y, ok := isStr(b); ok {
		if _, n := a.(Nil); n {
			e.report(st, facet, where, e.strCmp(pc, nil, y.segs, &cmpBudget{3000}))
			return
		}
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || y.w != x.w {
			bad(cUnk, "kinds differ")
			return
		}
		e.report(st, facet, where, e.must(pc, e.c.Eq(x, y), "value differs"))
		return
	case Nil:
		if _, ok := b.(Nil); ok {
			return
		}
		bad(cRef, "nil instead of a value")
		return
	case *VErr:
		if _, ok := b.(*VErr); ok {
			return // only presence of errors is compared
		}
	case *VIface:
		if y, ok := b.(*VIface); ok {
			e.cmpAnyPC(st, pc, facet, where, x.v, y.v, depth+1)
			return
		}
	case *VExt:
		if y, ok := b.(*VExt); ok {
			e.report(st, facet, where, e.argEq(pc, x, y, &cmpBudget{1000}))
			return
		}
	}
	if _, ok := b.(Nil); ok {
		bad(cRef, "a value instead of nil")
		return
	}
	if p, ok := a.(*VPtr); ok {
		if q, ok := b.(*VPtr); ok {
			if key(p) == key(q) {
				return
			}
			x, y := e.load(st, p, nil), e.load(st, q, nil)
			e.cmpAnyPC(st, pc, facet, where, x, y, depth+1)
			return
		}
	}
	x, ok1 := e.deref(st, a)
	y, ok2 := e.deref(st, b)
	if ok1 && ok2 {
		if len(x.f) == e.P.item.n && len(y.f) == e.P.node.n && e.P.item.n != e.P.node.n {
			e.cmpItem(st, pc, where, a, b)
			return
		}
		if len(x.f) == len(y.f) {
			for i := range x.f {
				e.cmpAnyPC(st, pc, facet, fmt.Sprintf("%s.%d", where, i), x.f[i], y.f[i], depth+1)
			}
			return
		}
	}
	if key(a) == key(b) {
		return
	}
	bad(cUnk, fmt.Sprintf("cannot compare %T with %T", a, b))
}

func (e *Engine) cmpList(st *State, facet, where string, a, b *VList) {
	e.lists(st, st.pc.list(), where, a.segs, b.segs, 0)
}

// index is an arbitrary position in a sequence. No run builds a sequence of
// 2^48 elements or more.
func (e *Engine) index(name string) *Term {
	k := e.c.Fresh(name, 64)
	e.axiom(e.c.Ult(k, e.c.I64(1<<48)))
	return k
}
