package sym

import (
	"math/rand"
	"testing"
)

// raw evaluates an op tree the naive way, to compare with the simplifying
// constructors.
type node struct {
	e *Expr
	f func(Model) uint64
}

func TestRandomSimplify(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	ws := []uint8{1, 7, 8, 16, 32, 64}
	for iter := 0; iter < 20000; iter++ {
		var pool []node
		for i, w := range []uint8{8, 8, 32, 64, 64, 1, 16} {
			i, w := i, w
			pool = append(pool, node{Var(i, w), func(m Model) uint64 { return m[i] & mask(w) }})
		}
		pick := func(w uint8) node {
			var c []node
			for _, n := range pool {
				if n.e.W == w {
					c = append(c, n)
				}
			}
			if len(c) == 0 || r.Intn(5) == 0 {
				k := r.Uint64()
				switch r.Intn(4) {
				case 0:
					k = 1 << uint(r.Intn(64))
				case 1:
					k = 1<<uint(r.Intn(64)) - 1
				case 2:
					k = uint64(r.Intn(70))
				}
				return node{Const(k, w), func(Model) uint64 { return k & mask(w) }}
			}
			return c[r.Intn(len(c))]
		}
		var bools []node
		pickb := func() node {
			if len(bools) == 0 {
				return node{True, func(Model) uint64 { return 1 }}
			}
			return bools[r.Intn(len(bools))]
		}
		for s := 0; s < 12; s++ {
			w := ws[r.Intn(len(ws))]
			a, b := pick(w), pick(w)
			bin := func(f func(a, b *Expr) *Expr, g func(x, y uint64) uint64) {
				pool = append(pool, node{f(a.e, b.e), func(m Model) uint64 { return g(a.f(m), b.f(m)) & mask(w) }})
			}
			binb := func(f func(a, b *Expr) *Expr, g func(x, y uint64) bool) {
				bools = append(bools, node{f(a.e, b.e), func(m Model) uint64 { return b2u(g(a.f(m), b.f(m))) }})
			}
			switch r.Intn(22) {
			case 0:
				bin(Add, func(x, y uint64) uint64 { return x + y })
			case 1:
				bin(Sub, func(x, y uint64) uint64 { return x - y })
			case 2:
				bin(Mul, func(x, y uint64) uint64 { return x * y })
			case 3:
				bin(And, func(x, y uint64) uint64 { return x & y })
			case 4:
				bin(Or, func(x, y uint64) uint64 { return x | y })
			case 5:
				bin(Xor, func(x, y uint64) uint64 { return x ^ y })
			case 6:
				bin(Shl, func(x, y uint64) uint64 {
					if y >= uint64(w) {
						return 0
					}
					return x << y
				})
			case 7:
				bin(LShr, func(x, y uint64) uint64 {
					if y >= uint64(w) {
						return 0
					}
					return x >> y
				})
			case 8:
				bin(AShr, func(x, y uint64) uint64 {
					if y >= uint64(w) {
						y = uint64(w) - 1
					}
					return uint64(sext(x, w) >> y)
				})
			case 9:
				w2 := uint8(1 + r.Intn(int(w)))
				lo := uint8(r.Intn(int(w-w2) + 1))
				pool = append(pool, node{Extract(a.e, lo, w2), func(m Model) uint64 { return a.f(m) >> lo & mask(w2) }})
			case 10:
				if w < 64 {
					w2 := w + uint8(r.Intn(int(64-w))) + 1
					pool = append(pool, node{ZExt(a.e, w2), a.f})
				}
			case 11:
				if w < 64 {
					w2 := w + uint8(r.Intn(int(64-w))) + 1
					pool = append(pool, node{SExt(a.e, w2), func(m Model) uint64 { return uint64(sext(a.f(m), w)) & mask(w2) }})
				}
			case 12:
				c := pickb()
				pool = append(pool, node{Ite(c.e, a.e, b.e), func(m Model) uint64 {
					if c.f(m) != 0 {
						return a.f(m)
					}
					return b.f(m)
				}})
			case 13:
				binb(Eq, func(x, y uint64) bool { return x == y })
			case 14:
				binb(Ult, func(x, y uint64) bool { return x < y })
			case 15:
				binb(Slt, func(x, y uint64) bool { return sext(x, w) < sext(y, w) })
			case 16:
				c, d := pickb(), pickb()
				bools = append(bools, node{BAnd(c.e, d.e), func(m Model) uint64 { return c.f(m) & d.f(m) }})
			case 17:
				c, d := pickb(), pickb()
				bools = append(bools, node{BOr(c.e, d.e), func(m Model) uint64 { return c.f(m) | d.f(m) }})
			case 18:
				c := pickb()
				bools = append(bools, node{BNot(c.e), func(m Model) uint64 { return 1 - c.f(m) }})
			case 19:
				x, y := pick(8), pick(16)
				pool = append(pool, node{Concat(x.e, y.e), func(m Model) uint64 { return x.f(m)<<16 | y.f(m) }})
			case 20:
				pool = append(pool, node{Not(a.e), func(m Model) uint64 { return ^a.f(m) & mask(w) }})
			case 21:
				if b.e.Op == OConst && b.e.K != 0 {
					bin(UDiv, func(x, y uint64) uint64 { return x / y })
					bin(URem, func(x, y uint64) uint64 { return x % y })
					bin(SDiv, func(x, y uint64) uint64 {
						p, q := sext(x, w), sext(y, w)
						if q == -1 {
							return uint64(-p)
						}
						return uint64(p / q)
					})
					bin(SRem, func(x, y uint64) uint64 {
						p, q := sext(x, w), sext(y, w)
						if q == -1 {
							return 0
						}
						return uint64(p % q)
					})
				}
			}
		}
		for k := 0; k < 6; k++ {
			m := make(Model, 7)
			for i := range m {
				m[i] = r.Uint64()
				if r.Intn(3) == 0 {
					m[i] = uint64(r.Intn(4))
				}
				if r.Intn(5) == 0 {
					m[i] = ^uint64(0)
				}
			}
			for _, n := range append(pool, bools...) {
				got, want := Eval(n.e, m), n.f(m)
				if got != want {
					t.Fatalf("iter %d: %v = %x want %x under %x", iter, n.e, got, want, m)
				}
				if n.e.W > 0 && (got&n.e.KZ != 0 || ^got&n.e.KO != 0) {
					t.Fatalf("known bits wrong: %v", n.e)
				}
			}
		}
	}
}
