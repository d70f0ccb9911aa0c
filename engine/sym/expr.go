// Package sym implements hash-consed bit-vector and boolean terms with
// simplification, evaluation and SMT-LIB2 printing.
package sym

import (
	"fmt"
	"math/bits"
	"strings"
	"sync"
	"sync/atomic"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	// bit-vector operations
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	ONot
	OShl
	OLShr
	OAShr
	OConcat  // a high, b low
	OExtract // k = low bit
	OSExt
	OIte // a bool, b, c
	// boolean operations (W == 0)
	OEq // over bit-vectors
	OUlt
	OSlt
	OBAnd
	OBOr
	OBNot
)

var opNames = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvshl", "bvlshr", "bvashr", "concat", "extract", "sext", "ite", "=", "bvult", "bvslt", "and", "or", "not"}

// Expr is an immutable, interned term. W is the bit width; 0 means boolean.
type Expr struct {
	Op      Op
	W       uint8
	K       uint64
	A, B, C *Expr
	ID      uint32
	KZ, KO  uint64   // bits known to be zero / one
	Sup     []uint16 // sorted indices of the variables occurring in the term
}

type key struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Expr
}

const nshard = 256

type shard struct {
	mu sync.Mutex
	m  map[key]*Expr
}

var shards [nshard]shard
var nextID uint32

// NumTerms reports how many distinct terms were built.
func NumTerms() int { return int(atomic.LoadUint32(&nextID)) }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func id(e *Expr) uint64 {
	if e == nil {
		return 0
	}
	return uint64(e.ID) + 1
}

func intern(op Op, w uint8, k uint64, a, b, c *Expr) *Expr {
	ky := key{op, w, k, a, b, c}
	h := uint64(op)*0x9E3779B97F4A7C15 ^ uint64(w)*0xC2B2AE3D27D4EB4F ^ k*0x165667B19E3779F9 ^ id(a)*0xD6E8FEB86659FD93 ^ id(b)*0xA0761D6478BD642F ^ id(c)*0xE7037ED1A0B428DB
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	s := &shards[(h>>32)%nshard]
	s.mu.Lock()
	if s.m == nil {
		s.m = map[key]*Expr{}
	}
	e, ok := s.m[ky]
	if !ok {
		e = &Expr{Op: op, W: w, K: k, A: a, B: b, C: c, ID: atomic.AddUint32(&nextID, 1)}
		e.known()
		e.support()
		s.m[ky] = e
	}
	s.mu.Unlock()
	return e
}

func (e *Expr) support() {
	if e.Op == OVar {
		e.Sup = []uint16{uint16(e.K)}
		return
	}
	if e.A == nil {
		return
	}
	e.Sup = e.A.Sup
	if e.B != nil {
		e.Sup = unionSup(e.Sup, e.B.Sup)
	}
	if e.C != nil {
		e.Sup = unionSup(e.Sup, e.C.Sup)
	}
}

func subsetSup(a, b []uint16) bool { // a in b
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j == len(b) || b[j] != x {
			return false
		}
	}
	return true
}

func unionSup(a, b []uint16) []uint16 {
	if len(b) <= len(a) && subsetSup(b, a) {
		return a
	}
	if subsetSup(a, b) {
		return b
	}
	out := make([]uint16, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (e *Expr) known() {
	m := mask(e.W)
	switch e.Op {
	case OConst:
		if e.W > 0 {
			e.KO = e.K
			e.KZ = ^e.K & m
		}
	case OAnd:
		e.KZ = e.A.KZ | e.B.KZ
		e.KO = e.A.KO & e.B.KO
	case OOr:
		e.KO = e.A.KO | e.B.KO
		e.KZ = e.A.KZ & e.B.KZ
	case OXor:
		e.KZ = e.A.KZ&e.B.KZ | e.A.KO&e.B.KO
		e.KO = e.A.KZ&e.B.KO | e.A.KO&e.B.KZ
	case ONot:
		e.KZ, e.KO = e.A.KO, e.A.KZ
	case OConcat:
		e.KZ = e.A.KZ<<e.B.W | e.B.KZ
		e.KO = e.A.KO<<e.B.W | e.B.KO
	case OExtract:
		e.KZ = e.A.KZ >> e.K & m
		e.KO = e.A.KO >> e.K & m
	case OSExt:
		e.KZ, e.KO = e.A.KZ, e.A.KO
		sb := uint64(1) << (e.A.W - 1)
		hi := m &^ mask(e.A.W)
		if e.A.KZ&sb != 0 {
			e.KZ |= hi
		} else if e.A.KO&sb != 0 {
			e.KO |= hi
		}
	case OIte:
		if e.W > 0 {
			e.KZ = e.B.KZ & e.C.KZ
			e.KO = e.B.KO & e.C.KO
		}
	case OAdd:
		// leading zeros: max(a)+max(b) without overflow; trailing zeros common.
		ma, mb := e.A.max(), e.B.max()
		s, c := bits.Add64(ma, mb, 0)
		if c == 0 && s <= m {
			n := bits.Len64(s)
			e.KZ = m &^ mask(uint8(n))
		}
		tz := min(bits.TrailingZeros64(^e.A.KZ), bits.TrailingZeros64(^e.B.KZ))
		e.KZ |= mask(uint8(min(tz, 64))) & m
	case OMul:
		hi, lo := bits.Mul64(e.A.max(), e.B.max())
		if hi == 0 && lo <= m {
			e.KZ = m &^ mask(uint8(bits.Len64(lo)))
		}
	case OUDiv:
		e.KZ = m &^ mask(uint8(bits.Len64(e.A.max())))
		if e.B.Op != OConst {
			e.KZ = 0
		}
	case OURem:
		if e.B.Op == OConst && e.B.K != 0 {
			e.KZ = m &^ mask(uint8(bits.Len64(e.B.K-1)))
		}
	case OLShr, OShl, OAShr:
	}
}

func (e *Expr) max() uint64 { return mask(e.W) &^ e.KZ }
func (e *Expr) min() uint64 { return e.KO }

// Max and Min are bounds on the unsigned value from known bits.
func (e *Expr) Max() uint64 { return e.max() }
func (e *Expr) Min() uint64 { return e.min() }

func (e *Expr) IsConst() bool { return e.Op == OConst }

var True = intern(OConst, 0, 1, nil, nil, nil)
var False = intern(OConst, 0, 0, nil, nil, nil)

func Bool(b bool) *Expr {
	if b {
		return True
	}
	return False
}

func Const(v uint64, w uint8) *Expr { return intern(OConst, w, v&mask(w), nil, nil, nil) }
func Var(idx int, w uint8) *Expr    { return intern(OVar, w, uint64(idx), nil, nil, nil) }

// SVal is the sign-extended value of a constant.
func (e *Expr) SVal() int64 { return sext(e.K, e.W) }

func sext(v uint64, w uint8) int64 {
	if w == 0 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func fix(e *Expr) *Expr {
	if e.Op != OConst && e.W > 0 && e.KZ|e.KO == mask(e.W) {
		return Const(e.KO, e.W)
	}
	return e
}

func order(a, b *Expr) (*Expr, *Expr) {
	// constants second
	if a.Op == OConst && b.Op != OConst || (a.Op == OConst) == (b.Op == OConst) && a.ID > b.ID {
		return b, a
	}
	return a, b
}

func Add(a, b *Expr) *Expr {
	if a.Op == OConst && b.Op == OConst {
		return Const(a.K+b.K, a.W)
	}
	a, b = order(a, b)
	if b.Op == OConst {
		if b.K == 0 {
			return a
		}
		if a.Op == OAdd && a.B.Op == OConst {
			return Add(a.A, Const(a.B.K+b.K, a.W))
		}
	}
	if a.KZ|b.KZ == mask(a.W) {
		return Or(a, b)
	}
	if b.Op == OConst && a.Op == OIte && a.B.Op == OConst && a.C.Op == OConst {
		return Ite(a.A, Add(a.B, b), Add(a.C, b))
	}
	return fix(intern(OAdd, a.W, 0, a, b, nil))
}

func Sub(a, b *Expr) *Expr {
	if a == b {
		return Const(0, a.W)
	}
	if b.Op == OConst {
		return Add(a, Const(-b.K, a.W))
	}
	if a.Op == OConst && a.K == mask(a.W) {
		return Not(b)
	}
	return fix(intern(OSub, a.W, 0, a, b, nil))
}

func Neg(a *Expr) *Expr { return Sub(Const(0, a.W), a) }

func Mul(a, b *Expr) *Expr {
	if a.Op == OConst && b.Op == OConst {
		return Const(a.K*b.K, a.W)
	}
	a, b = order(a, b)
	if b.Op == OConst {
		if b.K == 0 {
			return b
		}
		if b.K == 1 {
			return a
		}
		if b.K&(b.K-1) == 0 {
			return Shl(a, Const(uint64(bits.TrailingZeros64(b.K)), a.W))
		}
		if a.Op == OIte && a.B.Op == OConst {
			return Ite(a.A, Mul(a.B, b), Mul(a.C, b))
		}
	}
	return fix(intern(OMul, a.W, 0, a, b, nil))
}

func UDiv(a, b *Expr) *Expr {
	if b.Op == OConst && b.K != 0 {
		if a.Op == OConst {
			return Const(a.K/b.K, a.W)
		}
		if b.K&(b.K-1) == 0 {
			return LShr(a, Const(uint64(bits.TrailingZeros64(b.K)), a.W))
		}
		if a.max() < b.K {
			return Const(0, a.W)
		}
		if a.Op == OIte && a.B.Op == OConst {
			return Ite(a.A, UDiv(a.B, b), UDiv(a.C, b))
		}
	}
	return fix(intern(OUDiv, a.W, 0, a, b, nil))
}

func URem(a, b *Expr) *Expr {
	if b.Op == OConst && b.K != 0 {
		if a.Op == OConst {
			return Const(a.K%b.K, a.W)
		}
		if b.K&(b.K-1) == 0 {
			return And(a, Const(b.K-1, a.W))
		}
		if a.max() < b.K {
			return a
		}
	}
	return fix(intern(OURem, a.W, 0, a, b, nil))
}

func signZero(a *Expr) bool { return a.KZ>>(a.W-1)&1 == 1 }

func SDiv(a, b *Expr) *Expr {
	if a.Op == OConst && b.Op == OConst && b.K != 0 {
		x, y := a.SVal(), b.SVal()
		if y == -1 {
			return Const(uint64(-x), a.W)
		}
		return Const(uint64(x/y), a.W)
	}
	if signZero(a) && signZero(b) {
		return UDiv(a, b)
	}
	return intern(OSDiv, a.W, 0, a, b, nil)
}

func SRem(a, b *Expr) *Expr {
	if a.Op == OConst && b.Op == OConst && b.K != 0 {
		x, y := a.SVal(), b.SVal()
		if y == -1 {
			return Const(0, a.W)
		}
		return Const(uint64(x%y), a.W)
	}
	if signZero(a) && signZero(b) {
		return URem(a, b)
	}
	return intern(OSRem, a.W, 0, a, b, nil)
}

// runs splits a mask of width w into maximal runs of equal bits, low first.
func runs(m uint64, w uint8) (out []struct {
	lo, n uint8
	one   bool
}) {
	for i := uint8(0); i < w; {
		b := m >> i & 1
		j := i
		for j < w && m>>j&1 == b {
			j++
		}
		out = append(out, struct {
			lo, n uint8
			one   bool
		}{i, j - i, b == 1})
		i = j
	}
	return
}

func And(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	a, b = order(a, b)
	m := mask(a.W)
	if b.Op == OConst {
		if a.Op == OConst {
			return Const(a.K&b.K, a.W)
		}
		if b.K == 0 {
			return b
		}
		if (b.K|a.KZ)&m == m {
			return a
		}
		rs := runs(b.K, a.W)
		if len(rs) <= 5 {
			var r *Expr
			for _, s := range rs {
				var p *Expr
				if s.one {
					p = Extract(a, s.lo, s.n)
				} else {
					p = Const(0, s.n)
				}
				if r == nil {
					r = p
				} else {
					r = Concat(p, r)
				}
			}
			return r
		}
	}
	return fix(intern(OAnd, a.W, 0, a, b, nil))
}

// merge builds the term whose bit i comes from a where b's bit is known zero
// and from b where a's bit is known zero (every bit must be one or the other).
func merge(a, b *Expr) *Expr {
	// take from a wherever b is known zero
	rs := runs(b.KZ, a.W)
	if len(rs) > 24 {
		return nil
	}
	var r *Expr
	for _, s := range rs {
		src := b
		if s.one {
			src = a
		}
		p := Extract(src, s.lo, s.n)
		if r == nil {
			r = p
		} else {
			r = Concat(p, r)
		}
	}
	return r
}

func Or(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	a, b = order(a, b)
	m := mask(a.W)
	if b.Op == OConst {
		if a.Op == OConst {
			return Const(a.K|b.K, a.W)
		}
		if b.K == 0 {
			return a
		}
		if b.K == m {
			return b
		}
		rs := runs(b.K, a.W)
		if len(rs) <= 5 {
			var r *Expr
			for _, s := range rs {
				var p *Expr
				if s.one {
					p = Const(^uint64(0), s.n)
				} else {
					p = Extract(a, s.lo, s.n)
				}
				if r == nil {
					r = p
				} else {
					r = Concat(p, r)
				}
			}
			return r
		}
	}
	if a.KZ|b.KZ == m {
		if r := merge(a, b); r != nil {
			return r
		}
	}
	return fix(intern(OOr, a.W, 0, a, b, nil))
}

func Xor(a, b *Expr) *Expr {
	if a == b {
		return Const(0, a.W)
	}
	a, b = order(a, b)
	m := mask(a.W)
	if b.Op == OConst {
		if a.Op == OConst {
			return Const(a.K^b.K, a.W)
		}
		if b.K == 0 {
			return a
		}
		if b.K == m {
			return Not(a)
		}
	}
	if a.KZ|b.KZ == m {
		if r := merge(a, b); r != nil {
			return r
		}
	}
	return fix(intern(OXor, a.W, 0, a, b, nil))
}

func Not(a *Expr) *Expr {
	if a.Op == OConst {
		return Const(^a.K, a.W)
	}
	if a.Op == ONot {
		return a.A
	}
	return fix(intern(ONot, a.W, 0, a, nil, nil))
}

// Shl, LShr, AShr follow SMT-LIB: a count >= width gives 0 (or the sign).
func Shl(a, n *Expr) *Expr {
	if n.Op == OConst {
		if n.K == 0 {
			return a
		}
		if n.K >= uint64(a.W) {
			return Const(0, a.W)
		}
		k := uint8(n.K)
		return Concat(Extract(a, 0, a.W-k), Const(0, k))
	}
	if a.Op == OConst && a.K == 0 {
		return a
	}
	if n.Op == OIte && n.B.Op == OConst {
		return Ite(n.A, Shl(a, n.B), Shl(a, n.C))
	}
	return fix(intern(OShl, a.W, 0, a, n, nil))
}

func LShr(a, n *Expr) *Expr {
	if n.Op == OConst {
		if n.K == 0 {
			return a
		}
		if n.K >= uint64(a.W) {
			return Const(0, a.W)
		}
		k := uint8(n.K)
		return ZExt(Extract(a, k, a.W-k), a.W)
	}
	if n.Op == OIte && n.B.Op == OConst {
		return Ite(n.A, LShr(a, n.B), LShr(a, n.C))
	}
	return fix(intern(OLShr, a.W, 0, a, n, nil))
}

func AShr(a, n *Expr) *Expr {
	if n.Op == OConst {
		if n.K == 0 {
			return a
		}
		k := uint8(min(n.K, uint64(a.W-1)))
		return SExt(Extract(a, k, a.W-k), a.W)
	}
	return fix(intern(OAShr, a.W, 0, a, n, nil))
}

func ZExt(a *Expr, w uint8) *Expr {
	if w == a.W {
		return a
	}
	return Concat(Const(0, w-a.W), a)
}

func SExt(a *Expr, w uint8) *Expr {
	if w == a.W {
		return a
	}
	if a.Op == OConst {
		return Const(uint64(a.SVal()), w)
	}
	if signZero(a) {
		return ZExt(a, w)
	}
	if a.KO>>(a.W-1)&1 == 1 {
		return Concat(Const(^uint64(0), w-a.W), a)
	}
	if a.Op == OSExt {
		return SExt(a.A, w)
	}
	return fix(intern(OSExt, w, 0, a, nil, nil))
}

func Concat(hi, lo *Expr) *Expr {
	if hi.W+lo.W > 64 {
		panic("sym: concat wider than 64")
	}
	if hi.Op == OConcat {
		return Concat(hi.A, Concat(hi.B, lo))
	}
	first, rest := lo, (*Expr)(nil)
	if lo.Op == OConcat {
		first, rest = lo.A, lo.B
	}
	var m *Expr
	switch {
	case hi.Op == OConst && first.Op == OConst:
		m = Const(hi.K<<first.W|first.K, hi.W+first.W)
	default:
		hb, hl := base(hi)
		fb, fl := base(first)
		if hb == fb && hl == fl+first.W && hb.Op != OConst {
			m = Extract(hb, fl, hi.W+first.W)
		}
	}
	if m != nil {
		if rest == nil {
			return m
		}
		return Concat(m, rest)
	}
	return fix(intern(OConcat, hi.W+lo.W, 0, hi, lo, nil))
}

func base(e *Expr) (*Expr, uint8) {
	if e.Op == OExtract {
		return e.A, uint8(e.K)
	}
	return e, 0
}

// Extract takes bits lo..lo+w-1.
func Extract(a *Expr, lo, w uint8) *Expr {
	if lo == 0 && w == a.W {
		return a
	}
	switch a.Op {
	case OConst:
		return Const(a.K>>lo, w)
	case OExtract:
		return Extract(a.A, lo+uint8(a.K), w)
	case OConcat:
		lw := a.B.W
		if lo >= lw {
			return Extract(a.A, lo-lw, w)
		}
		if lo+w <= lw {
			return Extract(a.B, lo, w)
		}
		return Concat(Extract(a.A, 0, lo+w-lw), Extract(a.B, lo, lw-lo))
	case OAnd:
		return And(Extract(a.A, lo, w), Extract(a.B, lo, w))
	case OOr:
		return Or(Extract(a.A, lo, w), Extract(a.B, lo, w))
	case OXor:
		return Xor(Extract(a.A, lo, w), Extract(a.B, lo, w))
	case ONot:
		return Not(Extract(a.A, lo, w))
	case OSExt:
		if lo+w <= a.A.W {
			return Extract(a.A, lo, w)
		}
		if lo >= a.A.W {
			return SExt(Extract(a.A, a.A.W-1, 1), w)
		}
		return SExt(Extract(a.A, lo, a.A.W-lo), w)
	case OIte:
		return Ite(a.A, Extract(a.B, lo, w), Extract(a.C, lo, w))
	case OAdd:
		if lo == 0 {
			return Add(Extract(a.A, 0, w), Extract(a.B, 0, w))
		}
	case OSub:
		if lo == 0 {
			return Sub(Extract(a.A, 0, w), Extract(a.B, 0, w))
		}
	case OMul:
		if lo == 0 {
			return Mul(Extract(a.A, 0, w), Extract(a.B, 0, w))
		}
	}
	return fix(intern(OExtract, w, uint64(lo), a, nil, nil))
}

func Ite(c, a, b *Expr) *Expr {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == OBNot {
		return Ite(c.A, b, a)
	}
	if a.W == 0 {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return BNot(c)
		}
		if a == True {
			return BOr(c, b)
		}
		if a == False {
			return BAnd(BNot(c), b)
		}
		if b == True {
			return BOr(BNot(c), a)
		}
		if b == False {
			return BAnd(c, a)
		}
		return BOr(BAnd(c, a), BAnd(BNot(c), b))
	}
	if a.Op == OIte && a.A == c {
		a = a.B
	}
	if b.Op == OIte && b.A == c {
		b = b.C
	}
	return fix(intern(OIte, a.W, 0, c, a, b))
}

func BNot(a *Expr) *Expr {
	if a.Op == OConst {
		return Bool(a.K == 0)
	}
	if a.Op == OBNot {
		return a.A
	}
	return intern(OBNot, 0, 0, a, nil, nil)
}

func BAnd(a, b *Expr) *Expr {
	if a == b || b == True {
		return a
	}
	if a == True {
		return b
	}
	if a == False || b == False {
		return False
	}
	if a.Op == OBNot && a.A == b || b.Op == OBNot && b.A == a {
		return False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(OBAnd, 0, 0, a, b, nil)
}

func BOr(a, b *Expr) *Expr {
	if a == b || b == False {
		return a
	}
	if a == False {
		return b
	}
	if a == True || b == True {
		return True
	}
	if a.Op == OBNot && a.A == b || b.Op == OBNot && b.A == a {
		return True
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(OBOr, 0, 0, a, b, nil)
}

// Eq over equal-width bit-vectors or booleans.
func Eq(a, b *Expr) *Expr {
	if a == b {
		return True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("sym: eq width %d vs %d", a.W, b.W))
	}
	if a.W == 0 {
		return Ite(a, b, BNot(b))
	}
	a, b = order(a, b)
	if a.Op == OConst && b.Op == OConst {
		return Bool(a.K == b.K)
	}
	if a.KZ&b.KO != 0 || a.KO&b.KZ != 0 {
		return False
	}
	if a.max() < b.min() || b.max() < a.min() {
		return False
	}
	if b.Op == OConst {
		switch a.Op {
		case OConcat:
			lw := a.B.W
			return BAnd(Eq(a.A, Const(b.K>>lw, a.A.W)), Eq(a.B, Const(b.K, lw)))
		case OSExt:
			// value must be a sign extension
			if uint64(sext(b.K&mask(a.A.W), a.A.W))&mask(a.W) != b.K {
				return False
			}
			return Eq(a.A, Const(b.K, a.A.W))
		case ONot:
			return Eq(a.A, Const(^b.K, a.W))
		case OXor:
			if a.B.Op == OConst {
				return Eq(a.A, Const(a.B.K^b.K, a.W))
			}
		case OAdd:
			if a.B.Op == OConst {
				return Eq(a.A, Const(b.K-a.B.K, a.W))
			}
		case OIte:
			if a.B.Op == OConst || a.C.Op == OConst {
				return Ite(a.A, Eq(a.B, b), Eq(a.C, b))
			}
		}
		if a.W == 1 && b.K == 1 {
			return BNot(Eq(a, Const(0, 1)))
		}
	} else if a.Op == OConcat && b.Op == OConcat {
		if a.A.W == b.A.W {
			return BAnd(Eq(a.A, b.A), Eq(a.B, b.B))
		}
	}
	return intern(OEq, 0, 0, a, b, nil)
}

func Ne(a, b *Expr) *Expr { return BNot(Eq(a, b)) }

func Ult(a, b *Expr) *Expr {
	if a == b {
		return False
	}
	if a.Op == OConst && b.Op == OConst {
		return Bool(a.K < b.K)
	}
	if a.max() < b.min() {
		return True
	}
	if a.min() >= b.max() {
		return False
	}
	if b.Op == OConst {
		if b.K == 0 {
			return False
		}
		if b.K == 1 {
			return Eq(a, Const(0, a.W))
		}
		if b.K&(b.K-1) == 0 {
			k := uint8(bits.TrailingZeros64(b.K))
			return Eq(Extract(a, k, a.W-k), Const(0, a.W-k))
		}
		if a.Op == OIte && (a.B.Op == OConst || a.C.Op == OConst) {
			return Ite(a.A, Ult(a.B, b), Ult(a.C, b))
		}
	}
	if a.Op == OConst {
		if (a.K+1)&a.K == 0 { // 2^k-1 < b
			k := uint8(bits.Len64(a.K))
			if k < b.W {
				return BNot(Eq(Extract(b, k, b.W-k), Const(0, b.W-k)))
			}
		}
		if b.Op == OIte && (b.B.Op == OConst || b.C.Op == OConst) {
			return Ite(b.A, Ult(a, b.B), Ult(a, b.C))
		}
	}
	// common known-zero prefix
	lz := leadingKZ(a)
	if l2 := leadingKZ(b); l2 < lz {
		lz = l2
	}
	if lz > 0 && lz < a.W {
		return Ult(Extract(a, 0, a.W-lz), Extract(b, 0, b.W-lz))
	}
	return intern(OUlt, 0, 0, a, b, nil)
}

func leadingKZ(a *Expr) uint8 {
	n := bits.LeadingZeros64(^a.KZ & mask(a.W))
	return uint8(n - (64 - int(a.W)))
}

func Ule(a, b *Expr) *Expr { return BNot(Ult(b, a)) }

func Slt(a, b *Expr) *Expr {
	if a == b {
		return False
	}
	if a.Op == OConst && b.Op == OConst {
		return Bool(a.SVal() < b.SVal())
	}
	az, bz := signZero(a), signZero(b)
	if az && bz {
		return Ult(a, b)
	}
	an, bn := a.KO>>(a.W-1)&1 == 1, b.KO>>(b.W-1)&1 == 1
	if an && bn {
		return Ult(a, b)
	}
	if an && bz {
		return True
	}
	if az && bn {
		return False
	}
	if b.Op == OConst && b.K == 0 {
		return Eq(Extract(a, a.W-1, 1), Const(1, 1))
	}
	if a.Op == OSExt && b.Op == OConst && sext(b.K&mask(a.A.W), a.A.W) == b.SVal() {
		return Slt(a.A, Const(b.K, a.A.W))
	}
	if b.Op == OSExt && a.Op == OConst && sext(a.K&mask(b.A.W), b.A.W) == a.SVal() {
		return Slt(Const(a.K, b.A.W), b.A)
	}
	return intern(OSlt, 0, 0, a, b, nil)
}

func Sle(a, b *Expr) *Expr { return BNot(Slt(b, a)) }

// ToBV turns a boolean into a w-bit 0/1.
func ToBV(b *Expr, w uint8) *Expr { return Ite(b, Const(1, w), Const(0, w)) }

// Model maps variable index to value.
type Model []uint64

func (m Model) get(i uint64) uint64 {
	if i < uint64(len(m)) {
		return m[i]
	}
	return 0
}

// Eval evaluates e under m; booleans give 0 or 1.
func Eval(e *Expr, m Model) uint64 {
	return eval(e, m, nil)
}

func size(e *Expr, n int) int {
	if e == nil || n <= 0 {
		return n
	}
	n--
	n = size(e.A, n)
	n = size(e.B, n)
	return size(e.C, n)
}

func EvalBool(e *Expr, m Model) bool {
	if size(e, 200) <= 0 {
		return eval(e, m, map[*Expr]uint64{}) != 0
	}
	return eval(e, m, nil) != 0
}

func eval(e *Expr, m Model, memo map[*Expr]uint64) uint64 {
	switch e.Op {
	case OConst:
		return e.K
	case OVar:
		return m.get(e.K) & mask(max(e.W, 1))
	}
	if memo != nil {
		if v, ok := memo[e]; ok {
			return v
		}
	}
	v := eval1(e, m, memo)
	if memo != nil {
		memo[e] = v
	}
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func eval1(e *Expr, m Model, memo map[*Expr]uint64) uint64 {
	mk := mask(e.W)
	switch e.Op {
	case OIte:
		if eval(e.A, m, memo) != 0 {
			return eval(e.B, m, memo)
		}
		return eval(e.C, m, memo)
	case OBAnd:
		return b2u(eval(e.A, m, memo) != 0 && eval(e.B, m, memo) != 0)
	case OBOr:
		return b2u(eval(e.A, m, memo) != 0 || eval(e.B, m, memo) != 0)
	case OBNot:
		return 1 - eval(e.A, m, memo)
	}
	a := eval(e.A, m, memo)
	var b uint64
	if e.B != nil {
		b = eval(e.B, m, memo)
	}
	aw := e.A.W
	switch e.Op {
	case OAdd:
		return (a + b) & mk
	case OSub:
		return (a - b) & mk
	case OMul:
		return (a * b) & mk
	case OUDiv:
		if b == 0 {
			return mk
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, aw), sext(b, aw)
		if y == 0 {
			if x >= 0 {
				return mk
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & mk
		}
		return uint64(x/y) & mk
	case OSRem:
		x, y := sext(a, aw), sext(b, aw)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mk
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case ONot:
		return ^a & mk
	case OShl:
		if b >= uint64(aw) {
			return 0
		}
		return a << b & mk
	case OLShr:
		if b >= uint64(aw) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(aw) {
			b = uint64(aw) - 1
		}
		return uint64(sext(a, aw)>>b) & mk
	case OConcat:
		return a<<e.B.W | b
	case OExtract:
		return a >> e.K & mk
	case OSExt:
		return uint64(sext(a, aw)) & mk
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	}
	panic("sym: eval op " + opNames[e.Op])
}

// Sort is the SMT-LIB sort of e.
func (e *Expr) Sort() string {
	if e.W == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", e.W)
}

// Ref is how a term is referred to once defined.
func (e *Expr) Ref() string {
	switch e.Op {
	case OConst:
		if e.W == 0 {
			if e.K != 0 {
				return "true"
			}
			return "false"
		}
		if e.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", e.W/4, e.K)
		}
		return fmt.Sprintf("#b%0*b", e.W, e.K)
	case OVar:
		return fmt.Sprintf("v%d_%d", e.K, e.W)
	}
	return fmt.Sprintf("e%d", e.ID)
}

// Body prints the defining application of a compound term.
func (e *Expr) Body() string {
	switch e.Op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", e.K+uint64(e.W)-1, e.K, e.A.Ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.W-e.A.W, e.A.Ref())
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[e.Op])
	for _, x := range []*Expr{e.A, e.B, e.C} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.Ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (e *Expr) String() string {
	switch e.Op {
	case OConst, OVar:
		return e.Ref()
	}
	var sb strings.Builder
	e.str(&sb, 6)
	return sb.String()
}

func (e *Expr) str(sb *strings.Builder, d int) {
	if e.Op == OConst || e.Op == OVar || d == 0 {
		sb.WriteString(e.Ref())
		return
	}
	if e.Op == OExtract {
		fmt.Fprintf(sb, "(extract[%d:%d]", e.K+uint64(e.W)-1, e.K)
	} else {
		sb.WriteString("(" + opNames[e.Op])
	}
	for _, x := range []*Expr{e.A, e.B, e.C} {
		if x != nil {
			sb.WriteByte(' ')
			x.str(sb, d-1)
		}
	}
	sb.WriteByte(')')
}
