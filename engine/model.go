package main

// Reuse of earlier answers: a model found once is a witness for every later
// conjunction it satisfies (checked by evaluation, axioms included), and an
// unsatisfiable core refutes every later conjunction that contains it.

import (
	"fmt"
	"strconv"
	"strings"
)

type Mdl struct {
	memo map[int]uint64
	uf   map[string]uint64
	ax   int // axioms known to hold
	dead bool
}

func ufKey(t *Term, args []uint64) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s/%d", t.name, t.w)
	for i, a := range args {
		fmt.Fprintf(&sb, ",%d:%x", t.args[i].w, a)
	}
	return sb.String()
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Mdl) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OVar:
		r = 0
	case OIte:
		if m.eval(t.args[0]) != 0 {
			r = m.eval(t.args[1])
		} else {
			r = m.eval(t.args[2])
		}
	case OAnd:
		r = 1
		for _, a := range t.args {
			if m.eval(a) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for _, a := range t.args {
			if m.eval(a) != 0 {
				r = 1
				break
			}
		}
	default:
		var buf [4]uint64
		a := buf[:0]
		for _, x := range t.args {
			a = append(a, m.eval(x))
		}
		if t.op == OUF {
			r = m.uf[ufKey(t, a)]
			break
		}
		w := t.w
		aw := 0
		if len(t.args) > 0 {
			aw = t.args[0].w
		}
		switch t.op {
		case ONot:
			r = 1 - a[0]
		case OEq:
			r = b2u(a[0] == a[1])
		case OAdd:
			r = a[0] + a[1]
		case OSub:
			r = a[0] - a[1]
		case OMul:
			r = a[0] * a[1]
		case OUDiv:
			if a[1] == 0 {
				r = mask(w)
			} else {
				r = a[0] / a[1]
			}
		case OURem:
			if a[1] == 0 {
				r = a[0]
			} else {
				r = a[0] % a[1]
			}
		case OSDiv:
			x, y := sx(a[0], w), sx(a[1], w)
			switch {
			case y == 0 && x >= 0:
				r = mask(w)
			case y == 0:
				r = 1
			case y == -1:
				r = uint64(-x)
			default:
				r = uint64(x / y)
			}
		case OSRem:
			x, y := sx(a[0], w), sx(a[1], w)
			switch y {
			case 0:
				r = a[0]
			case -1:
				r = 0
			default:
				r = uint64(x % y)
			}
		case OBAnd:
			r = a[0] & a[1]
		case OBOr:
			r = a[0] | a[1]
		case OBXor:
			r = a[0] ^ a[1]
		case OBNot:
			r = ^a[0]
		case OShl:
			if a[1] < uint64(w) {
				r = a[0] << a[1]
			}
		case OLshr:
			if a[1] < uint64(w) {
				r = a[0] >> a[1]
			}
		case OAshr:
			n := a[1]
			if n >= uint64(w) {
				n = uint64(w - 1)
			}
			r = uint64(sx(a[0], w) >> n)
		case OUlt:
			r = b2u(a[0] < a[1])
		case OUle:
			r = b2u(a[0] <= a[1])
		case OSlt:
			r = b2u(sx(a[0], aw) < sx(a[1], aw))
		case OSle:
			r = b2u(sx(a[0], aw) <= sx(a[1], aw))
		case OZext:
			r = a[0]
		case OSext:
			r = uint64(sx(a[0], aw))
		case OExtract:
			r = a[0] >> t.val
		case OConcat:
			r = 0
			for i, x := range t.args {
				r = r<<uint(x.w) | a[i]
			}
		default:
			panic(fmt.Sprintf("eval: op %d", t.op))
		}
		if w > 0 {
			r &= mask(w)
		}
	}
	m.memo[t.id] = r
	return r
}

func (m *Mdl) holds(t *Term) bool { return m.eval(t) == 1 }

// witness looks for an earlier model of the conjunction.
func (s *Solver) witness(ts []*Term) bool {
next:
	for k, m := range s.models {
		for _, t := range ts {
			if !m.holds(t) {
				continue next
			}
		}
		for m.ax < len(s.Axioms) {
			if !m.holds(s.Axioms[m.ax]) {
				m.dead = true
				continue next
			}
			m.ax++
		}
		if m.dead {
			continue
		}
		copy(s.models[1:k+1], s.models[:k])
		s.models[0] = m
		s.hits++
		return true
	}
	return false
}

// refuted looks for an earlier unsatisfiable core.
func (s *Solver) refutedBefore(seen map[int]bool) bool {
next:
	for _, c := range s.cores {
		for _, id := range c {
			if !seen[id] {
				continue next
			}
		}
		s.hits++
		return true
	}
	return false
}

// leaves lists variables and applications below terms, arguments first.
func termLeaves(ts []*Term, lim int) ([]*Term, bool) {
	seen := map[int]bool{}
	var out []*Term
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t.id] {
			return true
		}
		seen[t.id] = true
		for _, a := range t.args {
			if !walk(a) {
				return false
			}
		}
		if t.op == OVar || t.op == OUF {
			out = append(out, t)
			return len(out) <= lim
		}
		return true
	}
	for _, t := range ts {
		if !walk(t) {
			return nil, false
		}
	}
	return out, true
}

// learn stores the solver's current model.
func (s *Solver) learn(ts []*Term) {
	ls, ok := termLeaves(append(append([]*Term{}, s.Axioms[:s.axioms]...), ts...), 4000)
	if !ok {
		return
	}
	vals := make([]uint64, 0, len(ls))
	if len(ls) > 0 {
		var vs []string
		for _, l := range ls {
			vs = append(vs, s.def(l))
		}
		s.put("(get-value (%s))\n", strings.Join(vs, " "))
		s.flush()
		vals = parseValues(s.readSexp(), len(vs))
		if len(vals) != len(ls) {
			return
		}
	}
	m := &Mdl{memo: map[int]uint64{}, uf: map[string]uint64{}}
	for i, l := range ls {
		m.memo[l.id] = vals[i]
		if l.op == OUF {
			var a []uint64
			for _, x := range l.args {
				a = append(a, m.eval(x))
			}
			m.uf[ufKey(l, a)] = vals[i]
		}
	}
	for _, t := range ts { // paranoia: the evaluator agrees with the solver
		if !m.holds(t) {
			s.disagree++
			return
		}
	}
	s.models = append([]*Mdl{m}, s.models...)
	if len(s.models) > 60 {
		s.models = s.models[:60]
	}
}

func (s *Solver) learnCore() {
	s.put("(get-unsat-assumptions)\n")
	s.flush()
	txt := strings.Trim(s.readSexp(), " ()\n")
	var ids []int
	for _, f := range strings.Fields(txt) {
		n, err := strconv.Atoi(strings.TrimPrefix(f, "p"))
		if err != nil {
			return
		}
		ids = append(ids, n)
	}
	s.cores = append(s.cores, ids)
	if len(s.cores) > 3000 {
		s.cores = s.cores[1000:]
	}
}
