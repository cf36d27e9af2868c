package main

// Symbolic values.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Nil struct{}

type VBytes struct { // view of a byte array (immutable term or mutable heap cell)
	arr      *Term
	obj      int // heap object holding the array term (if arr==nil)
	off, len *Term
}
type VSlice struct { // concrete slice over an array object
	obj, off, n, cp int
}
type VArr struct{ e []Val }
type VPtr struct {
	obj  int
	path []int
}
type VStruct struct{ f []Val }
type VIface struct {
	t types.Type
	v Val
}
type VErr struct {
	msg *SStr
	is  map[string]*Term
}
type VClosure struct {
	fn    *ssa.Function
	binds []Val
	intr  string // intrinsic closure (no SSA body)
	args  []Val
}
type VMapRef struct{ obj int }
type VMap struct {
	keys []Val
	vals []Val
	has  []Val // whether the key is there; nil: all are
}
type VIte struct {
	c    *Term
	a, b Val
}
type VExt struct { // modelled external object / opaque value
	kind string
	f    []Val
}
type VTuple struct{ e []Val }
type VPoison struct{ why string }
type VFrozen struct {
	t types.Type
	v Val
} // value of a pointee frozen in a fold
type VBuiltin struct{ name string }

// ---- strings
type segKind uint8

const (
	sLit segKind = iota
	sDec
	sFmt
	sRune
	sByte
	sBytes
	sTab
	sOpq
	sIte
	sVar
	sFold
)

type tabEnt struct {
	k uint64
	s string
}
type Seg struct {
	k    segKind
	s    string
	t    *Term
	u    *Term
	b    *VBytes
	a, c *SStr
	args []Val
	tab  []tabEnt
}
type SStr struct {
	segs []Seg
	ky   string
}

func lit(s string) *SStr {
	if s == "" {
		return &SStr{}
	}
	return &SStr{segs: []Seg{{k: sLit, s: s}}}
}
func (s *SStr) isLit() (string, bool) {
	switch len(s.segs) {
	case 0:
		return "", true
	case 1:
		if s.segs[0].k == sLit {
			return s.segs[0].s, true
		}
	}
	return "", false
}
func catStr(xs ...*SStr) *SStr {
	var out []Seg
	for _, x := range xs {
		if x == nil {
			continue
		}
		for _, g := range x.segs {
			if g.k == sLit && len(out) > 0 && out[len(out)-1].k == sLit {
				out[len(out)-1] = Seg{k: sLit, s: out[len(out)-1].s + g.s}
				continue
			}
			out = append(out, g)
		}
	}
	return &SStr{segs: out}
}
func (c *TC) Dec(t *Term) *SStr { // t: 64-bit signed
	if t.IsConst() {
		return lit(fmt.Sprint(int64(t.val)))
	}
	return &SStr{segs: []Seg{{k: sDec, t: t}}}
}
func (c *TC) strIte(cond *Term, a, b *SStr) *SStr {
	if cond.IsTrue() {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if a.key() == b.key() {
		return a
	}
	if cond.op == ONot {
		return c.strIte(cond.args[0], b, a)
	}
	// common prefix / suffix
	i := 0
	for i < len(a.segs) && i < len(b.segs) && a.segs[i].key() == b.segs[i].key() {
		i++
	}
	j := 0
	for j < len(a.segs)-i && j < len(b.segs)-i && a.segs[len(a.segs)-1-j].key() == b.segs[len(b.segs)-1-j].key() {
		j++
	}
	pre := &SStr{segs: a.segs[:i:i]}
	suf := &SStr{segs: a.segs[len(a.segs)-j:]}
	ma := &SStr{segs: a.segs[i : len(a.segs)-j : len(a.segs)-j]}
	mb := &SStr{segs: b.segs[i : len(b.segs)-j : len(b.segs)-j]}
	if len(ma.segs) == 1 && ma.segs[0].k == sIte && ma.segs[0].t == cond {
		ma = ma.segs[0].a
	}
	if len(mb.segs) == 1 && mb.segs[0].k == sIte && mb.segs[0].t == cond {
		mb = mb.segs[0].c
	}
	return catStr(pre, &SStr{segs: []Seg{{k: sIte, t: cond, a: ma, c: mb}}}, suf)
}
func (c *TC) strTab(tab []tabEnt, def string, idx *Term) *SStr {
	if idx.IsConst() {
		for _, e := range tab {
			if e.k == idx.val {
				return lit(e.s)
			}
		}
		return lit(def)
	}
	return &SStr{segs: []Seg{{k: sTab, tab: tab, s: def, t: idx}}}
}

func (s *SStr) key() string {
	if s.ky != "" {
		return s.ky
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for i := range s.segs {
		sb.WriteString(s.segs[i].key())
		sb.WriteByte('.')
	}
	s.ky = sb.String()
	return s.ky
}
func (g *Seg) key() string {
	switch g.k {
	case sLit:
		return fmt.Sprintf("L%q", g.s)
	case sDec:
		return fmt.Sprintf("D#%d", g.t.id)
	case sFmt:
		return fmt.Sprintf("F%s#%d", g.s, g.t.id)
	case sRune:
		return fmt.Sprintf("R#%d", g.t.id)
	case sByte:
		return fmt.Sprintf("B#%d", g.t.id)
	case sBytes:
		return "Y" + key(g.b)
	case sTab:
		var sb strings.Builder
		fmt.Fprintf(&sb, "T#%d%q", g.t.id, g.s)
		for _, e := range g.tab {
			fmt.Fprintf(&sb, "%d=%q,", e.k, e.s)
		}
		return sb.String()
	case sOpq:
		var sb strings.Builder
		sb.WriteString("O" + g.s + "(")
		for _, a := range g.args {
			sb.WriteString(key(a))
			sb.WriteByte(',')
		}
		sb.WriteByte(')')
		return sb.String()
	case sIte:
		return fmt.Sprintf("I#%d(%s|%s)", g.t.id, g.a.key(), g.c.key())
	case sVar:
		return "V" + g.s
	case sFold:
		return fmt.Sprintf("Z#%d,#%d{%s}", g.t.id, g.u.id, g.a.key())
	}
	panic("seg")
}

// ---- lists
type lKind uint8

const (
	lElem lKind = iota
	lGuard
	lVar
	lFold
	lGen
)

type LSeg struct {
	k    lKind
	v    Val
	t    *Term
	u    *Term
	a, c *VList
	name string
	gen  *Gen
}
type VList struct{ segs []LSeg }
type Gen struct {
	name string
	ts   []*Term // what the sequence depends on
	n    *Term
	elem func(st *State, ts []*Term, idx *Term) Val
}

func (l *VList) key() string {
	var sb strings.Builder
	sb.WriteByte('[')
	for _, g := range l.segs {
		switch g.k {
		case lElem:
			sb.WriteString("E" + key(g.v))
		case lGuard:
			fmt.Fprintf(&sb, "G#%d(%s|%s)", g.t.id, g.a.key(), g.c.key())
		case lVar:
			sb.WriteString("V" + g.name)
		case lFold:
			fmt.Fprintf(&sb, "Z#%d,#%d{%s}", g.t.id, g.u.id, g.a.key())
		case lGen:
			fmt.Fprintf(&sb, "N%s#%d", g.gen.name, g.gen.n.id)
			for _, t := range g.gen.ts {
				fmt.Fprintf(&sb, ",%d", t.id)
			}
		}
		sb.WriteByte('.')
	}
	sb.WriteByte(']')
	return sb.String()
}
func catList(xs ...*VList) *VList {
	out := &VList{}
	for _, x := range xs {
		if x != nil {
			out.segs = append(out.segs, x.segs...)
		}
	}
	return out
}
func (c *TC) listIte(cond *Term, a, b *VList) *VList {
	if cond.IsTrue() {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if cond.op == ONot {
		return c.listIte(cond.args[0], b, a)
	}
	i := 0
	for i < len(a.segs) && i < len(b.segs) && lsegKey(a.segs[i]) == lsegKey(b.segs[i]) {
		i++
	}
	ra := &VList{a.segs[i:]}
	rb := &VList{b.segs[i:]}
	if len(ra.segs) == 0 && len(rb.segs) == 0 {
		return a
	}
	out := &VList{append([]LSeg{}, a.segs[:i]...)}
	out.segs = append(out.segs, LSeg{k: lGuard, t: cond, a: ra, c: rb})
	return out
}
func lsegKey(g LSeg) string { return (&VList{[]LSeg{g}}).key() }

// ---- keys
func key(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return fmt.Sprintf("#%d", x.id)
	case Nil:
		return "nil"
	case *SStr:
		return x.key()
	case *VList:
		return x.key()
	case *VBytes:
		if x.arr != nil {
			return fmt.Sprintf("b(#%d,#%d,#%d)", x.arr.id, x.off.id, x.len.id)
		}
		return fmt.Sprintf("b(@%d,#%d,#%d)", x.obj, x.off.id, x.len.id)
	case *VSlice:
		return fmt.Sprintf("s(%d,%d,%d)", x.obj, x.off, x.n)
	case *VPtr:
		return fmt.Sprintf("p%d%v", x.obj, x.path)
	case *VArr:
		return "a" + keys(x.e)
	case *VStruct:
		return "S" + keys(x.f)
	case *VTuple:
		return "T" + keys(x.e)
	case *VIface:
		return "i<" + x.t.String() + ">" + key(x.v)
	case *VErr:
		var ks []string
		for k, t := range x.is {
			ks = append(ks, fmt.Sprintf("%s#%d", k, t.id))
		}
		sort.Strings(ks)
		m := "?"
		if x.msg != nil {
			m = x.msg.key()
		}
		return "err(" + m + strings.Join(ks, ",") + ")"
	case *VClosure:
		n := x.intr
		if x.fn != nil {
			n = x.fn.String()
		}
		return "c<" + n + ">" + keys(x.binds) + keys(x.args)
	case *VMapRef:
		return fmt.Sprintf("m%d", x.obj)
	case *VMap:
		return "M" + keys(x.keys) + keys(x.vals) + keys(x.has)
	case *VIte:
		return fmt.Sprintf("I#%d(%s|%s)", x.c.id, key(x.a), key(x.b))
	case *VExt:
		return "x<" + x.kind + ">" + keys(x.f)
	case *VPoison:
		return "POISON"
	case *VFrozen:
		return "f" + key(x.v)
	case VBuiltin:
		return "builtin " + x.name
	}
	panic(fmt.Sprintf("key %T", v))
}
func keys(vs []Val) string {
	var sb strings.Builder
	sb.WriteByte('(')
	for _, v := range vs {
		sb.WriteString(key(v))
		sb.WriteByte(',')
	}
	sb.WriteByte(')')
	return sb.String()
}

// ---- generic mapping
type mapper struct {
	c    *TC
	term func(*Term) *Term
	strv func(name string) *SStr  // replacement of a string variable (nil: keep)
	lstv func(name string) *VList // replacement of a list variable
}

func (m *mapper) str(s *SStr) *SStr {
	if s == nil {
		return nil
	}
	ch := false
	var parts []*SStr
	for _, g := range s.segs {
		n := m.seg(g)
		if len(n.segs) != 1 || n.segs[0].key() != g.key() {
			ch = true
		}
		parts = append(parts, n)
	}
	if !ch {
		return s
	}
	return catStr(parts...)
}
func one(g Seg) *SStr { return &SStr{segs: []Seg{g}} }
func (m *mapper) seg(g Seg) *SStr {
	switch g.k {
	case sLit:
		return one(g)
	case sDec:
		return m.c.Dec(m.term(g.t))
	case sFmt:
		return m.c.Fmt(g.s, m.term(g.t))
	case sRune, sByte:
		g.t = m.term(g.t)
		return one(g)
	case sBytes:
		g.b = m.val(g.b).(*VBytes)
		return one(g)
	case sTab:
		return m.c.strTab(g.tab, g.s, m.term(g.t))
	case sOpq:
		a := make([]Val, len(g.args))
		for i := range g.args {
			a[i] = m.val(g.args[i])
		}
		g.args = a
		return one(g)
	case sIte:
		return m.c.strIte(m.term(g.t), m.str(g.a), m.str(g.c))
	case sVar:
		if m.strv != nil {
			if r := m.strv(g.s); r != nil {
				return r
			}
		}
		return one(g)
	case sFold:
		g.t = m.term(g.t)
		g.a = m.str(g.a)
		if g.t.IsConst() && g.t.val == 0 {
			return lit("")
		}
		return one(g)
	}
	panic("seg")
}
func (m *mapper) list(l *VList) *VList {
	out := &VList{}
	for _, g := range l.segs {
		switch g.k {
		case lElem:
			g.v = m.val(g.v)
			out.segs = append(out.segs, g)
		case lGuard:
			t := m.term(g.t)
			out = catList(out, m.c.listIte(t, m.list(g.a), m.list(g.c)))
		case lVar:
			if m.lstv != nil {
				if r := m.lstv(g.name); r != nil {
					out = catList(out, r)
					continue
				}
			}
			if g.t != nil {
				g.t = m.term(g.t)
			}
			out.segs = append(out.segs, g)
		case lFold:
			g.t = m.term(g.t)
			g.a = m.list(g.a)
			if g.t.IsConst() && g.t.val == 0 {
				continue
			}
			out.segs = append(out.segs, g)
		case lGen:
			ng := &Gen{name: g.gen.name, n: m.term(g.gen.n), elem: g.gen.elem}
			for _, t := range g.gen.ts {
				ng.ts = append(ng.ts, m.term(t))
			}
			g.gen = ng
			out.segs = append(out.segs, g)
		}
	}
	return out
}
func (m *mapper) vals(vs []Val) ([]Val, bool) {
	ch := false
	out := make([]Val, len(vs))
	for i, v := range vs {
		out[i] = m.val(v)
		if out[i] != v {
			ch = true
		}
	}
	return out, ch
}
func (m *mapper) val(v Val) Val {
	switch x := v.(type) {
	case *Term:
		return m.term(x)
	case *SStr:
		return m.str(x)
	case *VList:
		n := m.list(x)
		if n.key() == x.key() {
			return x
		}
		return n
	case *VBytes:
		o, l := m.term(x.off), m.term(x.len)
		a := x.arr
		if a != nil {
			a = m.term(a)
		}
		if o == x.off && l == x.len && a == x.arr {
			return x
		}
		return &VBytes{arr: a, obj: x.obj, off: o, len: l}
	case *VArr:
		if e, ch := m.vals(x.e); ch {
			return &VArr{e}
		}
	case *VStruct:
		if e, ch := m.vals(x.f); ch {
			return &VStruct{e}
		}
	case *VTuple:
		if e, ch := m.vals(x.e); ch {
			return &VTuple{e}
		}
	case *VIface:
		if n := m.val(x.v); n != x.v {
			return &VIface{x.t, n}
		}
	case *VErr:
		is := map[string]*Term{}
		for k, t := range x.is {
			is[k] = m.term(t)
		}
		return &VErr{msg: m.str(x.msg), is: is}
	case *VClosure:
		b, c1 := m.vals(x.binds)
		a, c2 := m.vals(x.args)
		if c1 || c2 {
			return &VClosure{fn: x.fn, binds: b, intr: x.intr, args: a}
		}
	case *VMap:
		k, c1 := m.vals(x.keys)
		w, c2 := m.vals(x.vals)
		h, c3 := m.vals(x.has)
		if c1 || c2 || c3 {
			return &VMap{k, w, h}
		}
	case *VIte:
		t := m.term(x.c)
		a, b := m.val(x.a), m.val(x.b)
		if t != x.c || a != x.a || b != x.b {
			return mkIte(m.c, t, a, b)
		}
	case *VExt:
		if e, ch := m.vals(x.f); ch {
			return &VExt{x.kind, e}
		}
	case *VFrozen:
		if n := m.val(x.v); n != x.v {
			return &VFrozen{x.t, n}
		}
	}
	return v
}

func mkIte(c *TC, t *Term, a, b Val) Val {
	if t.IsTrue() {
		return a
	}
	if t.IsFalse() {
		return b
	}
	if key(a) == key(b) {
		return a
	}
	if t.op == ONot {
		return mkIte(c, t.args[0], b, a)
	}
	if x, ok := a.(*VIte); ok && x.c == t {
		a = x.a
	}
	if x, ok := b.(*VIte); ok && x.c == t {
		b = x.b
	}
	if key(a) == key(b) {
		return a
	}
	return &VIte{t, a, b}
}

// Fmt renders an integer with a verb (canonical verbs: %02x %x %U %#02x %#016x %c ...).
func (c *TC) Fmt(verb string, t *Term) *SStr {
	if t.IsConst() {
		return lit(fmtConst(verb, t))
	}
	return one(Seg{k: sFmt, s: verb, t: t})
}
func fmtConst(verb string, t *Term) string {
	v := verb
	uns := false
	if strings.HasSuffix(v, "!u") {
		v = strings.TrimSuffix(v, "!u")
		uns = true
	}
	if strings.HasSuffix(v, "U") || strings.HasSuffix(v, "c") || strings.HasSuffix(v, "q") {
		return fmt.Sprintf(v, rune(sx(t.val, t.w)))
	}
	if uns {
		return fmt.Sprintf(v, t.val)
	}
	return fmt.Sprintf(v, sx(t.val, t.w))
}

// mergeVal joins two values under a condition.
func (c *TC) mergeVal(cond *Term, a, b Val) Val {
	if a == b {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.w == y.w {
			return c.Ite(cond, x, y)
		}
	case *SStr:
		switch y := b.(type) {
		case *SStr:
			return c.strIte(cond, x, y)
		}
	case *VStruct:
		if y, ok := b.(*VStruct); ok && len(x.f) == len(y.f) {
			out := make([]Val, len(x.f))
			for i := range out {
				out[i] = c.mergeVal(cond, x.f[i], y.f[i])
			}
			return &VStruct{out}
		}
	case *VArr:
		if y, ok := b.(*VArr); ok && len(x.e) == len(y.e) {
			out := make([]Val, len(x.e))
			for i := range out {
				out[i] = c.mergeVal(cond, x.e[i], y.e[i])
			}
			return &VArr{out}
		}
	case *VTuple:
		if y, ok := b.(*VTuple); ok && len(x.e) == len(y.e) {
			out := make([]Val, len(x.e))
			for i := range out {
				out[i] = c.mergeVal(cond, x.e[i], y.e[i])
			}
			return &VTuple{out}
		}
	case *VList:
		switch y := b.(type) {
		case *VList:
			return c.listIte(cond, x, y)
		case Nil:
			return c.listIte(cond, x, &VList{})
		}
	case Nil:
		if y, ok := b.(*VList); ok {
			return c.listIte(cond, &VList{}, y)
		}
		if _, ok := b.(Nil); ok {
			return a
		}
	case *VBytes:
		if y, ok := b.(*VBytes); ok && x.obj == y.obj && x.arr == y.arr {
			return &VBytes{arr: x.arr, obj: x.obj, off: c.Ite(cond, x.off, y.off), len: c.Ite(cond, x.len, y.len)}
		}
	case *VIface:
		if y, ok := b.(*VIface); ok && types.Identical(x.t, y.t) {
			return &VIface{x.t, c.mergeVal(cond, x.v, y.v)}
		}
	case *VErr:
		if y, ok := b.(*VErr); ok {
			is := map[string]*Term{}
			for k, t := range x.is {
				u := y.is[k]
				if u == nil {
					u = c.ff
				}
				is[k] = c.Ite(cond, t, u)
			}
			for k, u := range y.is {
				if x.is[k] == nil {
					is[k] = c.Ite(cond, c.ff, u)
				}
			}
			var m *SStr
			if x.msg != nil && y.msg != nil {
				m = c.strIte(cond, x.msg, y.msg)
			}
			return &VErr{m, is}
		}
	case *VExt:
		if y, ok := b.(*VExt); ok && x.kind == y.kind && len(x.f) == len(y.f) {
			out := make([]Val, len(x.f))
			for i := range out {
				out[i] = c.mergeVal(cond, x.f[i], y.f[i])
			}
			return &VExt{x.kind, out}
		}
	case *VMap:
		if y, ok := b.(*VMap); ok {
			if m := c.mergeMap(cond, x, y); m != nil {
				return m
			}
		}
	}
	return mkIte(c, cond, a, b)
}

// there tells whether key i is in the map.
func (m *VMap) there(c *TC, i int) *Term {
	if m.has == nil {
		return c.tt
	}
	return m.has[i].(*Term)
}

func (c *TC) mergeMap(cond *Term, x, y *VMap) *VMap {
	if keys(x.keys) == keys(y.keys) && x.has == nil && y.has == nil {
		out := make([]Val, len(x.vals))
		for i := range out {
			out[i] = c.mergeVal(cond, x.vals[i], y.vals[i])
		}
		return &VMap{x.keys, out, nil}
	}
	m := &VMap{}
	i, j := 0, 0
	for i < len(x.keys) || j < len(y.keys) {
		if i < len(x.keys) && !constKey(x.keys[i]) || j < len(y.keys) && !constKey(y.keys[j]) {
			return nil
		}
		switch {
		case j == len(y.keys) || i < len(x.keys) && lessKey(x.keys[i], y.keys[j]):
			m.keys = append(m.keys, x.keys[i])
			m.vals = append(m.vals, x.vals[i])
			m.has = append(m.has, c.And(cond, x.there(c, i)))
			i++
		case i == len(x.keys) || lessKey(y.keys[j], x.keys[i]):
			m.keys = append(m.keys, y.keys[j])
			m.vals = append(m.vals, y.vals[j])
			m.has = append(m.has, c.And(c.Not(cond), y.there(c, j)))
			j++
		default:
			m.keys = append(m.keys, x.keys[i])
			m.vals = append(m.vals, c.mergeVal(cond, x.vals[i], y.vals[j]))
			m.has = append(m.has, c.Ite(cond, x.there(c, i), y.there(c, j)))
			i++
			j++
		}
	}
	return m
}

// flat describes a value as a structural name plus the terms it depends on, so
// that uninterpreted functions of it are congruent.
func flat(v Val) (string, []*Term) {
	var sb strings.Builder
	var ts []*Term
	var arr func(t *Term)
	arr = func(t *Term) {
		switch t.op {
		case OAUF, OALit:
			sb.WriteString(t.name)
			ts = append(ts, t.args...)
			for _, a := range t.args {
				fmt.Fprintf(&sb, "%%%d", a.w)
			}
		default:
			fmt.Fprintf(&sb, "arr%d(", t.op)
			for _, a := range t.args {
				if a.w == -1 {
					arr(a)
				} else {
					ts = append(ts, a)
					fmt.Fprintf(&sb, "%%%d", a.w)
				}
			}
			sb.WriteByte(')')
		}
	}
	term := func(t *Term) {
		ts = append(ts, t)
		fmt.Fprintf(&sb, "%%%d", t.w)
	}
	var val func(v Val)
	var str func(s *SStr)
	str = func(s *SStr) {
		sb.WriteByte('<')
		for _, g := range s.segs {
			switch g.k {
			case sLit:
				fmt.Fprintf(&sb, "%q", g.s)
			case sDec:
				sb.WriteString("D")
				term(g.t)
			case sFmt:
				sb.WriteString("F" + g.s)
				term(g.t)
			case sRune:
				sb.WriteString("R")
				term(g.t)
			case sByte:
				sb.WriteString("B")
				term(g.t)
			case sBytes:
				val(g.b)
			case sTab:
				kk := g
				kk.t = &Term{}
				sb.WriteString(kk.key())
				term(g.t)
			case sOpq:
				sb.WriteString("O" + g.s + "(")
				for _, a := range g.args {
					val(a)
					sb.WriteByte(',')
				}
				sb.WriteByte(')')
			case sIte:
				sb.WriteString("I")
				term(g.t)
				str(g.a)
				str(g.c)
			case sVar:
				sb.WriteString("V" + g.s)
			case sFold: // bound variable: structural key of the body
				sb.WriteString("Z")
				term(g.t)
				sb.WriteString(g.a.key())
			}
			sb.WriteByte('.')
		}
		sb.WriteByte('>')
	}
	val = func(v Val) {
		switch x := v.(type) {
		case *Term:
			term(x)
		case *SStr:
			str(x)
		case *VBytes:
			if x.arr == nil {
				panic(unsup("flat of mutable bytes"))
			}
			sb.WriteString("b(")
			arr(x.arr)
			sb.WriteByte(';')
			term(x.off)
			term(x.len)
			sb.WriteByte(')')
		case *VStruct:
			sb.WriteByte('{')
			for _, f := range x.f {
				val(f)
			}
			sb.WriteByte('}')
		case *VExt:
			sb.WriteString(x.kind + "{")
			for _, f := range x.f {
				val(f)
			}
			sb.WriteByte('}')
		case *VIte:
			sb.WriteString("I")
			term(x.c)
			val(x.a)
			val(x.b)
		default:
			sb.WriteString(key(v))
		}
	}
	val(v)
	return sb.String(), ts
}
func flats(vs ...Val) (string, []*Term) {
	var n []string
	var ts []*Term
	for _, v := range vs {
		a, b := flat(v)
		n = append(n, a)
		ts = append(ts, b...)
	}
	return strings.Join(n, ","), ts
}

type unsupErr struct{ why string }

func unsup(f string, a ...interface{}) unsupErr { return unsupErr{fmt.Sprintf(f, a...)} }
