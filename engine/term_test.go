package main

import (
	"math/rand"
	"testing"
)

// Every constructor simplifies; the simplified term must have the value that
// the operation has on the values of its arguments.
func TestConstructors(t *testing.T) {
	for seed := int64(0); seed < 2000; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewTC()
		const A = 6
		type tv struct {
			t *Term
			v [A]uint64
		}
		pools := map[int][]tv{}
		var ms [A]*Mdl
		for i := range ms {
			ms[i] = &Mdl{memo: map[int]uint64{}, uf: map[string]uint64{}}
		}
		ws := []int{0, 8, 16, 32, 64}
		val := func(w int) uint64 {
			if w == 0 {
				return uint64(r.Intn(2))
			}
			var x uint64
			switch r.Intn(5) {
			case 0:
				x = uint64(r.Intn(4))
			case 1:
				x = ^uint64(0) - uint64(r.Intn(3))
			case 2:
				x = uint64(1) << uint(r.Intn(w))
			case 3:
				x = uint64(r.Intn(300))
			default:
				x = r.Uint64()
			}
			return x & mask(w)
		}
		for _, w := range ws {
			for k := 0; k < 3; k++ {
				x := tv{t: c.Fresh("v", w)}
				for i := range ms {
					x.v[i] = val(w)
					ms[i].memo[x.t.id] = x.v[i]
				}
				pools[w] = append(pools[w], x)
			}
			for k := 0; k < 5; k++ {
				v := val(w)
				x := tv{t: c.BV(w, v)}
				if w == 0 {
					x.t = c.Bool(v == 1)
				}
				for i := range ms {
					x.v[i] = v
				}
				pools[w] = append(pools[w], x)
			}
		}
		pick := func(w int) tv { return pools[w][r.Intn(len(pools[w]))] }
		for step := 0; step < 120; step++ {
			w := ws[1+r.Intn(4)]
			a, b := pick(w), pick(w)
			p, q, z := pick(0), pick(0), pick(0)
			var n *Term
			var f func(i int) uint64
			rw := w
			what := r.Intn(30)
			bop := func(g func(x, y uint64) uint64) func(int) uint64 {
				return func(i int) uint64 { return g(a.v[i], b.v[i]) & mask(w) }
			}
			switch what {
			case 0:
				n, rw, f = c.Eq(a.t, b.t), 0, func(i int) uint64 { return b2u(a.v[i] == b.v[i]) }
			case 1:
				n, rw, f = c.Eq(p.t, q.t), 0, func(i int) uint64 { return b2u(p.v[i] == q.v[i]) }
			case 2:
				n, rw, f = c.And(p.t, q.t, z.t), 0, func(i int) uint64 { return p.v[i] & q.v[i] & z.v[i] }
			case 3:
				n, rw, f = c.Or(p.t, q.t, z.t), 0, func(i int) uint64 { return p.v[i] | q.v[i] | z.v[i] }
			case 4:
				n, rw, f = c.Not(p.t), 0, func(i int) uint64 { return 1 - p.v[i] }
			case 5:
				n, rw, f = c.Implies(p.t, q.t), 0, func(i int) uint64 { return (1 - p.v[i]) | q.v[i] }
			case 6:
				n, f = c.Ite(p.t, a.t, b.t), func(i int) uint64 {
					if p.v[i] == 1 {
						return a.v[i]
					}
					return b.v[i]
				}
			case 7:
				n, rw, f = c.Ite(p.t, q.t, z.t), 0, func(i int) uint64 {
					if p.v[i] == 1 {
						return q.v[i]
					}
					return z.v[i]
				}
			case 8:
				n, f = c.Add(a.t, b.t), bop(func(x, y uint64) uint64 { return x + y })
			case 9:
				n, f = c.Sub(a.t, b.t), bop(func(x, y uint64) uint64 { return x - y })
			case 10:
				n, f = c.Mul(a.t, b.t), bop(func(x, y uint64) uint64 { return x * y })
			case 11, 12, 13, 14:
				op := []Op{OUDiv, OSDiv, OURem, OSRem}[what-11]
				zero := false
				for i := range b.v {
					zero = zero || b.v[i] == 0 || sx(b.v[i], w) == -1
				}
				if zero {
					continue
				}
				n, f = c.bin(op, a.t, b.t), bop(func(x, y uint64) uint64 {
					switch op {
					case OUDiv:
						return x / y
					case OURem:
						return x % y
					case OSDiv:
						return uint64(sx(x, w) / sx(y, w))
					}
					return uint64(sx(x, w) % sx(y, w))
				})
			case 15:
				n, f = c.bin(OBAnd, a.t, b.t), bop(func(x, y uint64) uint64 { return x & y })
			case 16, 17:
				n, f = c.bin(OBOr, a.t, b.t), bop(func(x, y uint64) uint64 { return x | y })
			case 18:
				n, f = c.bin(OBXor, a.t, b.t), bop(func(x, y uint64) uint64 { return x ^ y })
			case 19:
				n, f = c.BNot(a.t), bop(func(x, y uint64) uint64 { return ^x })
			case 20, 21, 22:
				op := []Op{OShl, OLshr, OAshr}[what-20]
				if r.Intn(2) == 0 { // constant octet shifts, as in big-endian reads
					k := uint64(8 * r.Intn(w/8+1))
					b = tv{t: c.BV(w, k)}
					for i := range b.v {
						b.v[i] = k
					}
				}
				n, f = c.bin(op, a.t, b.t), bop(func(x, y uint64) uint64 {
					switch op {
					case OShl:
						if y >= uint64(w) {
							return 0
						}
						return x << y
					case OLshr:
						if y >= uint64(w) {
							return 0
						}
						return x >> y
					}
					if y >= uint64(w) {
						y = uint64(w - 1)
					}
					return uint64(sx(x, w) >> y)
				})
			case 23:
				n, rw, f = c.Ult(a.t, b.t), 0, func(i int) uint64 { return b2u(a.v[i] < b.v[i]) }
			case 24:
				n, rw, f = c.Ule(a.t, b.t), 0, func(i int) uint64 { return b2u(a.v[i] <= b.v[i]) }
			case 25:
				n, rw, f = c.Slt(a.t, b.t), 0, func(i int) uint64 { return b2u(sx(a.v[i], w) < sx(b.v[i], w)) }
			case 26:
				n, rw, f = c.Sle(a.t, b.t), 0, func(i int) uint64 { return b2u(sx(a.v[i], w) <= sx(b.v[i], w)) }
			case 27:
				rw = ws[1+r.Intn(4)]
				if rw < w {
					lo := 0
					if r.Intn(2) == 0 {
						lo = r.Intn(w - rw + 1)
					}
					n, f = c.Extract(a.t, lo, rw), func(i int) uint64 { return a.v[i] >> uint(lo) & mask(rw) }
				} else {
					n, f = c.Zext(a.t, rw), func(i int) uint64 { return a.v[i] }
				}
			case 28:
				rw = ws[1+r.Intn(4)]
				if rw < w {
					continue
				}
				n, f = c.Sext(a.t, rw), func(i int) uint64 { return uint64(sx(a.v[i], w)) & mask(rw) }
			case 29:
				if w > 32 {
					continue
				}
				rw = 2 * w
				n, f = c.Concat(a.t, b.t), func(i int) uint64 { return a.v[i]<<uint(w) | b.v[i] }
			}
			x := tv{t: n}
			for i := range ms {
				x.v[i] = f(i)
				if g := ms[i].eval(n); g != x.v[i] {
					t.Fatalf("seed %d step %d op %d: %s is %d, want %d (args %s %s | %s %s)", seed, step, what, n, g, x.v[i], a.t, b.t, p.t, q.t)
				}
				if rw > 0 && x.v[i] > c.ubound(n) {
					t.Fatalf("seed %d: ubound of %s is %d, value %d", seed, n, c.ubound(n), x.v[i])
				}
			}
			if n.w != rw {
				t.Fatalf("seed %d: width of %s is %d, want %d", seed, n, n.w, rw)
			}
			pools[rw] = append(pools[rw], x)
		}
	}
}

// The linear back end and the bit-vector back end must agree.
func TestBackEnds(t *testing.T) {
	n, ans := 0, map[int]int{}
	for seed := int64(0); seed < 150; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewTC()
		s := NewSolver(c)
		o := NewSolver(c)
		o.lia = nil
		ws := []int{8, 16, 64}
		pools := map[int][]*Term{}
		for _, w := range ws {
			for k := 0; k < 2; k++ {
				v := c.Fresh("v", w)
				if w == 64 && r.Intn(3) > 0 {
					for _, q := range []*Solver{s, o} {
						q.Axioms = append(q.Axioms, c.Ult(v, c.I64(1<<48)))
					}
				}
				pools[w] = append(pools[w], v, c.BV(w, uint64(r.Intn(300))), c.BV(w, uint64(1)<<uint(r.Intn(w))))
			}
			pools[w] = append(pools[w], c.UF("f", w, pools[w][0]), c.UF("f", w, pools[w][3]), c.BV(w, ^uint64(r.Intn(20))))
		}
		pools[0] = []*Term{c.Fresh("b", 0), c.Fresh("b", 0)}
		pick := func(w int) *Term { return pools[w][r.Intn(len(pools[w]))] }
		for k := 0; k < 40; k++ {
			w := ws[r.Intn(3)]
			a, b := pick(w), pick(w)
			switch r.Intn(16) {
			case 0:
				pools[w] = append(pools[w], c.Add(a, b))
			case 1:
				pools[w] = append(pools[w], c.Sub(a, b))
			case 2:
				pools[w] = append(pools[w], c.Mul(a, c.BV(w, uint64(r.Intn(9)))))
			case 3:
				pools[w] = append(pools[w], c.bin(OBAnd, a, c.BV(w, uint64(r.Intn(256)))))
			case 4:
				pools[w] = append(pools[w], c.bin(OLshr, a, c.BV(w, uint64(r.Intn(8)))))
			case 5:
				pools[w] = append(pools[w], c.bin(OShl, a, c.BV(w, uint64(r.Intn(8)))))
			case 6:
				pools[w] = append(pools[w], c.Ite(pick(0), a, b))
			case 7:
				pools[64] = append(pools[64], c.Zext(pick(16), 64), c.Zext(pick(8), 64))
			case 8:
				pools[16] = append(pools[16], c.Concat(pick(8), pick(8)))
			case 9:
				pools[8] = append(pools[8], c.Extract(pick(64), r.Intn(20), 8))
			case 10:
				pools[0] = append(pools[0], c.Ult(a, b))
			case 11:
				pools[0] = append(pools[0], c.Sle(a, b))
			case 12:
				pools[0] = append(pools[0], c.Slt(a, b))
			case 13:
				pools[0] = append(pools[0], c.Eq(a, b))
			case 14:
				pools[0] = append(pools[0], c.Eq(pick(0), pick(0)))
			case 15:
				pools[0] = append(pools[0], c.And(pick(0), pick(0)), c.Or(pick(0), pick(0)), c.Not(pick(0)))
			}
		}
		for k := 0; k < 30; k++ {
			var conj []*Term
			for j := r.Intn(6); j >= 0; j-- {
				conj = append(conj, pick(0))
			}
			x, y := s.Check(conj), o.Check(conj)
			n++
			ans[x]++
			if x != y && x != Unknown && y != Unknown {
				t.Fatalf("seed %d: %v: %d with the linear back end, %d without", seed, conj, x, y)
			}
		}
		s.Close()
		o.Close()
		if s.lia != nil {
			s.lia.Close()
		}
	}
	t.Log(n, "queries", ans)
}
