package main

// Linear-integer view of a conjunction. Bit-vector sums whose operands are
// bounded cannot wrap, so comparisons between them are translated exactly to
// integer comparisons; everything else becomes an unconstrained integer or
// boolean. The view is weaker than the original, so "unsat" is definite and
// "sat" decides nothing.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type iv struct {
	e      string // SMT Int expression, the signed (w=64) or unsigned (w<64) value
	lo, hi int64
	ok     bool
}

type LIA struct {
	s     *Solver
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	buf   strings.Builder
	nums  map[int]iv
	bools map[int]string
	lits  map[int]string
	ub    map[int]uint64
	fns   map[string]bool
	ax    int
	n     int
	calls int
	wins  int
	sats  int
	miss  int
	found bool
}

const liaMax = int64(1) << 60

func (l *LIA) start() bool {
	l.cmd = exec.Command(solverBin, "-in", "-smt2")
	w, err := l.cmd.StdinPipe()
	if err != nil {
		return false
	}
	r, err := l.cmd.StdoutPipe()
	if err != nil {
		return false
	}
	if l.cmd.Start() != nil {
		l.cmd = nil
		return false
	}
	l.in, l.out = w, bufio.NewReader(r)
	l.fns = map[string]bool{}
	l.nums, l.bools, l.lits = map[int]iv{}, map[int]string{}, map[int]string{}
	if l.ub == nil {
		l.ub = map[int]uint64{}
	}
	l.ax, l.n = 0, 0
	l.buf.Reset()
	l.put("(set-option :produce-unsat-assumptions true)\n(set-option :timeout 300)\n")
	return true
}
func (l *LIA) Close() {
	if l.cmd != nil {
		l.in.Close()
		l.cmd.Process.Kill()
		l.cmd.Wait()
		l.cmd = nil
	}
}
func (l *LIA) put(f string, a ...interface{}) { fmt.Fprintf(&l.buf, f, a...) }

func num(v int64) string {
	if v == -1<<63 {
		return "(- 9223372036854775808)"
	}
	if v < 0 {
		return fmt.Sprintf("(- %d)", uint64(-v))
	}
	return strconv.FormatInt(v, 10)
}

func (l *LIA) leaf(t *Term) iv {
	hi := l.s.c.ubound(t)
	if u, ok := l.ub[t.id]; ok && u < hi {
		hi = u
	}
	if hi >= uint64(liaMax) {
		if t.w != 64 {
			return iv{}
		}
		l.n++
		n := fmt.Sprintf("i%d", t.id)
		l.put("(declare-const %s Int)\n(assert (and (<= (- 9223372036854775808) %s) (<= %s 9223372036854775807)))\n", n, n, n)
		return iv{n, -1 << 63, 1<<63 - 1, true}
	}
	l.n++
	n := fmt.Sprintf("i%d", t.id)
	l.put("(declare-const %s Int)\n(assert (and (<= 0 %s) (<= %s %d)))\n", n, n, n, hi)
	return iv{n, 0, int64(hi), true}
}

func inr(v int64) bool { return v < liaMax && v > -liaMax }

func (l *LIA) def(v iv) iv {
	if len(v.e) < 12 || !v.ok {
		return v
	}
	l.n++
	n := fmt.Sprintf("d%d", l.n)
	l.put("(define-fun %s () Int %s)\n", n, v.e)
	v.e = n
	return v
}

// val is the value of a bit-vector term: signed for 64 bits, unsigned below.
func (l *LIA) val(t *Term) iv {
	if v, ok := l.nums[t.id]; ok {
		return v
	}
	v := l.def(l.val1(t))
	l.nums[t.id] = v
	return v
}
func (l *LIA) val1(t *Term) iv {
	if t.op == OConst {
		x := int64(t.val)
		return iv{num(x), x, x, true}
	}
	switch t.op {
	case OZext:
		return l.val(t.args[0])
	case OSext:
		a, w := l.val(t.args[0]), t.args[0].w
		if !a.ok || w > 56 || t.w > 56 && t.w < 64 {
			return l.leaf(t)
		}
		h := int64(1) << uint(w-1)
		if a.hi < h {
			return a
		}
		if t.w == 64 {
			return iv{fmt.Sprintf("(ite (>= %s %d) (- %s %d) %s)", a.e, h, a.e, 2*h, a.e), -h, h - 1, true}
		}
		k := int64(1) << uint(t.w)
		return iv{fmt.Sprintf("(ite (>= %s %d) (+ %s %d) %s)", a.e, h, a.e, k-2*h, a.e), 0, k - 1, true}
	case OIte:
		a, b := l.val(t.args[1]), l.val(t.args[2])
		if !a.ok || !b.ok {
			return l.leaf(t)
		}
		r := iv{fmt.Sprintf("(ite %s %s %s)", l.boo(t.args[0]), a.e, b.e), a.lo, a.hi, true}
		if b.lo < r.lo {
			r.lo = b.lo
		}
		if b.hi > r.hi {
			r.hi = b.hi
		}
		return r
	case OAdd, OSub:
		a, b := l.val(t.args[0]), l.val(t.args[1])
		if !a.ok || !b.ok || !inr(a.lo) || !inr(a.hi) || !inr(b.lo) || !inr(b.hi) {
			return l.leaf(t)
		}
		r := iv{ok: true}
		if t.op == OAdd {
			r.e, r.lo, r.hi = fmt.Sprintf("(+ %s %s)", a.e, b.e), a.lo+b.lo, a.hi+b.hi
		} else {
			r.e, r.lo, r.hi = fmt.Sprintf("(- %s %s)", a.e, b.e), a.lo-b.hi, a.hi-b.lo
		}
		if t.w == 64 && inr(r.lo) && inr(r.hi) || t.w < 64 && r.lo >= 0 && r.hi <= int64(mask(t.w)) {
			return r
		}
		return l.leaf(t)
	case OMul:
		a := l.val(t.args[0])
		if t.args[1].IsConst() && a.ok {
			k := sx(t.args[1].val, t.w)
			if k > -1<<20 && k < 1<<20 && a.lo > -1<<39 && a.hi < 1<<39 {
				r := iv{fmt.Sprintf("(* %s %s)", num(k), a.e), a.lo * k, a.hi * k, true}
				if k < 0 {
					r.lo, r.hi = r.hi, r.lo
				}
				if t.w == 64 || r.lo >= 0 && r.hi <= int64(mask(t.w)) {
					return r
				}
			}
		}
		return l.leaf(t)
	case OLshr, OUDiv, OSDiv:
		a := l.val(t.args[0])
		if t.args[1].IsConst() && a.ok && a.lo >= 0 {
			k := t.args[1].val
			d := int64(0)
			if t.op == OLshr && k < 40 {
				d = 1 << k
			} else if t.op != OLshr && k > 0 && k < 1<<40 && (t.op == OUDiv || sx(k, t.w) > 0) {
				d = int64(k)
			}
			if d > 0 && (t.op != OSDiv || t.w == 64) {
				l.n++
				n := fmt.Sprintf("q%d", t.id)
				l.put("(declare-const %s Int)\n(assert (and (<= (* %d %s) %s) (< %s (+ (* %d %s) %d))))\n", n, d, n, a.e, a.e, d, n, d)
				return iv{n, a.lo / d, a.hi / d, true}
			}
		}
		return l.leaf(t)
	case OShl:
		a := l.val(t.args[0])
		if t.args[1].IsConst() && a.ok && a.lo >= 0 {
			k := t.args[1].val
			if k < 32 && a.hi < 1<<28 && uint64(a.hi)<<k <= mask(t.w)>>1 {
				return iv{fmt.Sprintf("(* %d %s)", int64(1)<<k, a.e), a.lo << k, a.hi << k, true}
			}
		}
		return l.leaf(t)
	case OBAnd, OExtract:
		a := l.val(t.args[0])
		sh, bits := uint64(0), uint64(0)
		if t.op == OExtract {
			sh, bits = t.val, uint64(t.w)
		} else if t.args[1].IsConst() {
			m := t.args[1].val
			for m != 0 && m&1 == 0 {
				m >>= 1
				sh++
			}
			if m != 0 && m&(m+1) == 0 {
				for ; m != 0; m >>= 1 {
					bits++
				}
			}
		}
		if bits > 0 && sh+bits < 58 && a.ok && a.lo >= 0 {
			l.n++
			p := int64(1) << sh
			q := int64(1) << bits
			hi := a.hi >> (sh + bits)
			// a = (top*q + mid)*p + low
			n := fmt.Sprintf("x%d", t.id)
			l.put("(declare-const %sh Int)\n(declare-const %sm Int)\n(declare-const %sl Int)\n", n, n, n)
			l.put("(assert (and (= %s (+ (* %d %sh) (* %d %sm) %sl)) (<= 0 %sh) (<= %sh %d) (<= 0 %sm) (< %sm %d) (<= 0 %sl) (< %sl %d)))\n",
				a.e, p*q, n, p, n, n, n, n, hi, n, n, q, n, n, p)
			if t.op == OBAnd {
				return iv{fmt.Sprintf("(* %d %sm)", p, n), 0, p * (q - 1), true}
			}
			return iv{n + "m", 0, q - 1, true}
		}
		return l.leaf(t)
	case OConcat:
		if len(t.args) == 2 {
			a, b := l.val(t.args[0]), l.val(t.args[1])
			if a.ok && b.ok && t.w < 60 {
				k := int64(1) << uint(t.args[1].w)
				return iv{fmt.Sprintf("(+ (* %d %s) %s)", k, a.e, b.e), a.lo*k + b.lo, a.hi*k + b.hi, true}
			}
		}
		return l.leaf(t)
	}
	if t.op == OUF {
		return l.app(t)
	}
	return l.leaf(t)
}

// app keeps congruence: an uninterpreted function over integers.
func (l *LIA) app(t *Term) iv {
	hi := l.s.c.ubound(t)
	if u, ok := l.ub[t.id]; ok && u < hi {
		hi = u
	}
	if hi >= uint64(liaMax) {
		return iv{}
	}
	ex, ok := l.appExpr(t)
	if !ok {
		return l.leaf(t)
	}
	l.n++
	n := fmt.Sprintf("i%d", t.id)
	l.put("(define-fun %s () Int %s)\n(assert (and (<= 0 %s) (<= %s %d)))\n", n, ex, n, n, hi)
	return iv{n, 0, int64(hi), true}
}
func (l *LIA) appExpr(t *Term) (string, bool) {
	key := t.name
	var srt, as []string
	for _, a := range t.args {
		key += fmt.Sprintf("_%d", a.w)
		if a.w == 0 {
			srt = append(srt, "Bool")
			as = append(as, l.boo(a))
			continue
		}
		v := l.val(a)
		if !v.ok {
			return "", false
		}
		srt = append(srt, "Int")
		as = append(as, v.e)
	}
	n := qn(fmt.Sprintf("%s_%d", key, t.w))
	if !l.fns[n] {
		l.fns[n] = true
		r := "Int"
		if t.w == 0 {
			r = "Bool"
		}
		l.put("(declare-fun %s (%s) %s)\n", n, strings.Join(srt, " "), r)
	}
	// a constant of its own: values are printed by name, not expanded
	so := "Int"
	if t.w == 0 {
		so = "Bool"
	}
	u := fmt.Sprintf("u%d", t.id)
	l.put("(declare-const %s %s)\n(assert (= %s (%s %s)))\n", u, so, u, n, strings.Join(as, " "))
	return u, true
}

func (l *LIA) boo(t *Term) string {
	if v, ok := l.bools[t.id]; ok {
		return v
	}
	v := l.boo1(t)
	if len(v) > 12 {
		l.n++
		n := fmt.Sprintf("e%d", l.n)
		l.put("(define-fun %s () Bool %s)\n", n, v)
		v = n
	}
	l.bools[t.id] = v
	return v
}
func (l *LIA) boo1(t *Term) string {
	opaque := func() string {
		n := fmt.Sprintf("b%d", t.id)
		l.put("(declare-const %s Bool)\n", n)
		return n
	}
	switch t.op {
	case OConst:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case ONot:
		return "(not " + l.boo(t.args[0]) + ")"
	case OAnd, OOr:
		var a []string
		for _, x := range t.args {
			a = append(a, l.boo(x))
		}
		if t.op == OAnd {
			return "(and " + strings.Join(a, " ") + ")"
		}
		return "(or " + strings.Join(a, " ") + ")"
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", l.boo(t.args[0]), l.boo(t.args[1]), l.boo(t.args[2]))
	case OEq:
		if t.args[0].w == 0 {
			return fmt.Sprintf("(= %s %s)", l.boo(t.args[0]), l.boo(t.args[1]))
		}
		a, b := l.val(t.args[0]), l.val(t.args[1])
		if !a.ok || !b.ok {
			return opaque()
		}
		return fmt.Sprintf("(= %s %s)", a.e, b.e)
	case OUlt, OUle, OSlt, OSle:
		w := t.args[0].w
		a, b := l.val(t.args[0]), l.val(t.args[1])
		op := "<"
		if t.op == OUle || t.op == OSle {
			op = "<="
		}
		sg := t.op == OSlt || t.op == OSle
		if w == 64 && !sg && b.ok && !a.ok && b.lo >= 0 || !a.ok || !b.ok {
			return opaque()
		}
		if w < 64 && sg {
			h := int64(1) << uint(w-1)
			if w > 56 {
				return opaque()
			}
			sg := func(v iv) string {
				if v.hi < h {
					return v.e
				}
				return fmt.Sprintf("(ite (>= %s %d) (- %s %d) %s)", v.e, h, v.e, 2*h, v.e)
			}
			return fmt.Sprintf("(%s %s %s)", op, sg(a), sg(b))
		}
		s := fmt.Sprintf("(%s %s %s)", op, a.e, b.e)
		if sg || w < 64 || a.lo >= 0 && b.lo >= 0 {
			return s
		}
		// unsigned comparison of possibly negative sums
		return fmt.Sprintf("(ite (= (>= %s 0) (>= %s 0)) %s (>= %s 0))", a.e, b.e, s, a.e)
	case OUF:
		if ex, ok := l.appExpr(t); ok {
			return ex
		}
	}
	return opaque()
}

// bounds harvests unconditional bounds from the axioms.
func (l *LIA) bounds() {
	for ; l.ax < len(l.s.Axioms); l.ax++ {
		a := l.s.Axioms[l.ax]
		if (a.op == OUlt || a.op == OUle) && a.args[1].IsConst() {
			u := a.args[1].val
			if a.op == OUlt {
				u--
			}
			t := a.args[0]
			if o, ok := l.ub[t.id]; !ok || u < o {
				if _, used := l.nums[t.id]; used && l.cmd != nil {
					l.put("(assert (<= %s %d))\n", l.nums[t.id].e, u)
				}
				l.ub[t.id] = u
			}
		}
	}
}

// unsat tries to refute the conjunction; the core is returned.
func (l *LIA) unsat(ts []*Term) ([]int, bool) {
	if l.cmd == nil || l.n > 60000 {
		l.Close()
		if !l.start() {
			return nil, false
		}
		l.ax = 0
	}
	l.calls++
	t0 := time.Now()
	ax := l.ax
	l.bounds()
	for ; ax < len(l.s.Axioms); ax++ {
		b := l.boo(l.s.Axioms[ax])
		l.put("(assert %s)\n", b)
	}
	var ls []string
	for _, t := range ts {
		n, ok := l.lits[t.id]
		if !ok {
			b := l.boo(t)
			n = fmt.Sprintf("p%d", t.id)
			l.put("(declare-const %s Bool)\n(assert (=> %s %s))\n", n, n, b)
			l.lits[t.id] = n
		}
		ls = append(ls, n)
	}
	l.put("(check-sat-assuming (%s))\n", strings.Join(ls, " "))
	io.WriteString(l.in, l.buf.String())
	l.buf.Reset()
	line, err := l.out.ReadString('\n')
	if err != nil {
		l.Close()
		return nil, false
	}
	line = strings.TrimSpace(line)
	if strings.HasPrefix(line, "(error") {
		fmt.Println("lia:", line)
		l.Close()
		return nil, false
	}
	if slowLog {
		fmt.Fprintf(os.Stderr, "L %s %.3f\n", line, time.Since(t0).Seconds())
	}
	if line == "sat" {
		l.model(ts)
	}
	if line != "unsat" {
		return nil, false
	}
	l.wins++
	io.WriteString(l.in, "(get-unsat-assumptions)\n")
	line, err = l.out.ReadString('\n')
	if err != nil {
		l.Close()
		return nil, true
	}
	var ids []int
	for _, f := range strings.Fields(strings.Trim(strings.TrimSpace(line), "()")) {
		n, err := strconv.Atoi(strings.TrimPrefix(f, "p"))
		if err != nil {
			return nil, true
		}
		ids = append(ids, n)
	}
	return ids, true
}

// model lifts the integer model to the bit-vectors; it counts only if
// evaluation confirms it.
func (l *LIA) model(ts []*Term) {
	l.found = false
	s := l.s
	ls, ok := termLeaves(append(append([]*Term{}, s.Axioms...), ts...), 4000)
	if !ok {
		return
	}
	var vs []string
	var at []int
	for i, t := range ls {
		var e string
		if t.w == 0 {
			e = l.bools[t.id]
		} else if v := l.nums[t.id]; v.ok {
			e = v.e
		}
		if e != "" {
			vs = append(vs, e)
			at = append(at, i)
		}
	}
	m := &Mdl{memo: map[int]uint64{}, uf: map[string]uint64{}}
	val := map[int]uint64{}
	if len(vs) > 0 {
		io.WriteString(l.in, "(get-value ("+strings.Join(vs, " ")+"))\n")
		o := &Solver{out: l.out}
		t0 := time.Now()
		vals := parseValues(o.readSexp(), len(vs))
		if slowLog {
			fmt.Fprintf(os.Stderr, "G %d of %d %.3f\n", len(vs), len(ls), time.Since(t0).Seconds())
		}
		if len(vals) != len(vs) {
			return
		}
		for k, i := range at {
			val[i] = vals[k]
		}
	}
	for i, t := range ls {
		v := val[i]
		if t.w > 0 {
			v &= mask(t.w)
		}
		if t.op == OUF {
			var a []uint64
			for _, x := range t.args {
				a = append(a, m.eval(x))
			}
			k := ufKey(t, a)
			if old, have := m.uf[k]; have {
				v = old // one value per argument tuple
			} else {
				m.uf[k] = v
			}
		}
		m.memo[t.id] = v
	}
	for _, t := range ts {
		if !m.holds(t) {
			l.miss++
			if slowLog {
				x := t.String()
				if len(x) > 300 {
					x = x[:300]
				}
				fmt.Fprintln(os.Stderr, "MISS", x)
			}
			return
		}
	}
	for _, t := range s.Axioms {
		if !m.holds(t) {
			if slowLog {
				x := t.String()
				if len(x) > 300 {
					x = x[:300]
				}
				fmt.Fprintln(os.Stderr, "MISSAX", x)
			}
			l.miss++
			return
		}
	}
	m.ax = len(s.Axioms)
	l.found = true
	l.sats++
	s.models = append([]*Mdl{m}, s.models...)
	if len(s.models) > 60 {
		s.models = s.models[:60]
	}
}
