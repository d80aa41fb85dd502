package main

// Hash-consed terms over Bool, fixed-width bit-vectors and (for big-integer
// specifications) mathematical integers, with a normalising simplifier.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	OBXor
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSext
	OUF
	// integer sort
	OIConst
	OIVar
	OIAdd
	OIMul
	OIMod // Euclidean, constant positive modulus
	OIOfU // unsigned value of a bit-vector
	OIOfS // signed value of a bit-vector
	OILe
	OILt
	OIEq
)

const (
	SBool = 0
	SInt  = -1
)

type Term struct {
	Op     Op
	W      int // 0 Bool, >0 bit-vector, -1 Int
	A      []*Term
	C      uint64
	Big    *big.Int
	Hi, Lo int
	Name   string
	id     int
	kz, k1 uint64 // bits known zero / one (W <= 64)
	lo, hi uint64 // unsigned bounds (W <= 64)
	tt     *ttInfo
	tt2    *ttInfo
	rep    *Term // canonical representative
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.W == 0 && t.C == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.W == 0 && t.C == 0 }

type B struct {
	tab    map[uint64][]*Term
	next   int
	True   *Term
	False  *Term
	consts map[[2]uint64]*Term
	ttTab  map[ttKey][]ttEnt
	exMemo map[exKey]*Term
	arith  bool // keep the word-level shape of arithmetic
}

type exKey struct{ x, hi, lo int }

func NewB() *B {
	b := &B{tab: map[uint64][]*Term{}, consts: map[[2]uint64]*Term{}, ttTab: map[ttKey][]ttEnt{}, exMemo: map[exKey]*Term{}}
	b.True = b.BoolC(true)
	b.False = b.BoolC(false)
	return b
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (b *B) BoolC(v bool) *Term {
	if v {
		return b.constRaw(0, 1)
	}
	return b.constRaw(0, 0)
}

func (b *B) constRaw(w int, c uint64) *Term {
	k := [2]uint64{uint64(w), c}
	if t, ok := b.consts[k]; ok {
		return t
	}
	b.next++
	t := &Term{Op: OConst, W: w, C: c, id: b.next}
	if w > 0 {
		t.k1 = c
		t.kz = ^c & mask(w)
		t.lo, t.hi = c, c
	}
	b.consts[k] = t
	return t
}

// C builds a bit-vector constant, w <= 64.
func (b *B) C(w int, c uint64) *Term {
	if w > 64 {
		// wide constants only ever appear as concatenations
		return b.Concat(b.C(w-64, 0), b.C(64, c))
	}
	return b.constRaw(w, c&mask(w))
}

func (b *B) Var(name string, w int) *Term {
	return b.mk(&Term{Op: OVar, W: w, Name: name})
}

func hashTerm(t *Term) uint64 {
	h := uint64(14695981039346656037)
	mix := func(x uint64) { h ^= x; h *= 1099511628211; h ^= h >> 29 }
	mix(uint64(t.Op))
	mix(uint64(int64(t.W)))
	mix(t.C)
	mix(uint64(t.Hi)<<32 | uint64(uint32(t.Lo)))
	for i := 0; i < len(t.Name); i++ {
		mix(uint64(t.Name[i]))
	}
	if t.Big != nil {
		for _, w := range t.Big.Bits() {
			mix(uint64(w))
		}
		mix(uint64(t.Big.Sign() + 5))
	}
	for _, a := range t.A {
		mix(uint64(a.id))
	}
	return h
}

func sameTerm(x, y *Term) bool {
	if x.Op != y.Op || x.W != y.W || x.C != y.C || x.Hi != y.Hi || x.Lo != y.Lo || x.Name != y.Name || len(x.A) != len(y.A) {
		return false
	}
	if (x.Big == nil) != (y.Big == nil) || (x.Big != nil && x.Big.Cmp(y.Big) != 0) {
		return false
	}
	for i := range x.A {
		if x.A[i] != y.A[i] {
			return false
		}
	}
	return true
}

func (b *B) mk(t *Term) *Term {
	t = b.mkRaw(t)
	if t.rep == nil {
		t.rep = t
		if !b.arith {
			t.rep = b.canon(t)
		}
	}
	return t.rep
}

func (b *B) mkRaw(t *Term) *Term {
	h := hashTerm(t)
	for _, u := range b.tab[h] {
		if sameTerm(t, u) {
			return u
		}
	}
	b.next++
	t.id = b.next
	b.known(t)
	b.tab[h] = append(b.tab[h], t)
	return t
}

// known computes known bits of a freshly built node.
func (b *B) known(t *Term) {
	if t.W <= 0 || t.W > 64 {
		return
	}
	m := mask(t.W)
	switch t.Op {
	case OIte:
		x, y := t.A[1], t.A[2]
		t.kz, t.k1 = x.kz&y.kz, x.k1&y.k1
	case OBNot:
		t.kz, t.k1 = t.A[0].k1, t.A[0].kz
	case OBAnd:
		t.kz, t.k1 = t.A[0].kz|t.A[1].kz, t.A[0].k1&t.A[1].k1
	case OBOr:
		t.kz, t.k1 = t.A[0].kz&t.A[1].kz, t.A[0].k1|t.A[1].k1
	case OBXor:
		if len(t.A) != 2 {
			break
		}
		x, y := t.A[0], t.A[1]
		t.kz = x.kz&y.kz | x.k1&y.k1
		t.k1 = x.kz&y.k1 | x.k1&y.kz
	case OConcat:
		sh := t.W
		for _, a := range t.A {
			sh -= a.W
			t.kz |= a.kz << uint(sh)
			t.k1 |= a.k1 << uint(sh)
		}
	case OExtract:
		if t.A[0].W <= 64 {
			t.kz = t.A[0].kz >> uint(t.Lo) & m
			t.k1 = t.A[0].k1 >> uint(t.Lo) & m
		}
	case OSext:
		x := t.A[0]
		t.kz, t.k1 = x.kz, x.k1
		top := uint64(1) << uint(x.W-1)
		ext := m &^ mask(x.W)
		if x.kz&top != 0 {
			t.kz |= ext
		} else if x.k1&top != 0 {
			t.k1 |= ext
		}
	case OAdd:
		// leading zeros via maxima, trailing known-zero bits
		x, y := t.A[0], t.A[1]
		mx, my := ^x.kz&m, ^y.kz&m
		s, carry := bits.Add64(mx, my, 0)
		if carry == 0 && s <= m {
			t.kz |= m &^ mask(bits.Len64(s))
		}
		tz := bits.TrailingZeros64(^(x.kz & y.kz))
		if tz > 0 {
			t.kz |= mask(tz) & m
		}
	case OMul:
		x, y := t.A[0], t.A[1]
		hi, lo := bits.Mul64(^x.kz&m, ^y.kz&m)
		if hi == 0 && lo <= m {
			t.kz |= m &^ mask(bits.Len64(lo))
		}
		tz := bits.TrailingZeros64(^x.kz) + bits.TrailingZeros64(^y.kz)
		if tz > 64 {
			tz = 64
		}
		if tz > 0 {
			t.kz |= mask(tz) & m
		}
	case OUdiv:
		x, y := t.A[0], t.A[1]
		if y.k1 != 0 { // divisor >= its known ones
			q := (^x.kz & m) / y.k1
			t.kz |= m &^ mask(bits.Len64(q))
		}
	case OUrem:
		x, y := t.A[0], t.A[1]
		my := ^y.kz & m
		if y.k1 != 0 {
			lim := my - 1
			if mx := ^x.kz & m; mx < lim {
				lim = mx
			}
			t.kz |= m &^ mask(bits.Len64(lim))
		}
	case OLshr:
		if x := t.A[0]; true {
			t.kz |= m &^ mask(bits.Len64(^x.kz&m))
		}
	}
	t.kz &= m
	t.k1 &= m
	b.bounds(t, m)
}

// bounds computes unsigned bounds of a freshly built node.
func (b *B) bounds(t *Term, m uint64) {
	lo, hi := uint64(0), m
	switch t.Op {
	case OIte:
		x, y := t.A[1], t.A[2]
		lo, hi = min(x.lo, y.lo), max(x.hi, y.hi)
	case OBNot:
		lo, hi = m&^t.A[0].hi, m&^t.A[0].lo
	case OConcat:
		lo, hi = 0, 0
		for _, a := range t.A {
			lo = lo<<uint(a.W) | a.lo
			hi = hi<<uint(a.W) | a.hi
		}
	case OExtract:
		if x := t.A[0]; x.W <= 64 && x.hi>>uint(t.Lo) <= m {
			lo, hi = x.lo>>uint(t.Lo), x.hi>>uint(t.Lo)
		}
	case OSext:
		if x := t.A[0]; x.hi>>uint(x.W-1) == 0 {
			lo, hi = x.lo, x.hi
		}
	case OAdd:
		x, y := t.A[0], t.A[1]
		l, lc := bits.Add64(x.lo, y.lo, 0)
		h, hc := bits.Add64(x.hi, y.hi, 0)
		if lc == hc && (t.W == 64 || l>>uint(t.W) == h>>uint(t.W)) {
			lo, hi = l&m, h&m
		}
	case OMul:
		x, y := t.A[0], t.A[1]
		if h, l := bits.Mul64(x.hi, y.hi); h == 0 && l <= m {
			lo, hi = x.lo*y.lo, l
		}
	case OUdiv:
		x, y := t.A[0], t.A[1]
		if y.lo > 0 {
			lo, hi = x.lo/y.hi, x.hi/y.lo
		}
	case OUrem:
		x, y := t.A[0], t.A[1]
		if y.lo > 0 {
			hi = min(y.hi-1, x.hi)
		}
	case OLshr:
		hi = t.A[0].hi
	}
	hi = min(hi, ^t.kz&m)
	lo = max(lo, t.k1)
	t.kz |= m &^ mask(bits.Len64(hi))
	t.lo, t.hi = lo, hi
}

func (t *Term) umax() uint64 { return t.hi }
func (t *Term) umin() uint64 { return t.lo }

// ---- booleans ----

func (b *B) Not(x *Term) *Term {
	if x.IsConst() {
		return b.BoolC(x.C == 0)
	}
	if x.Op == ONot {
		return x.A[0]
	}
	return b.mk(&Term{Op: ONot, A: []*Term{x}})
}

func (b *B) nary(op Op, unit, zero *Term, xs []*Term) *Term {
	var fl []*Term
	for _, x := range xs {
		if x == zero {
			return zero
		}
		if x == unit {
			continue
		}
		if x.Op == op && len(x.A) <= 40 {
			fl = append(fl, x.A...)
		} else {
			fl = append(fl, x)
		}
	}
	if len(fl) == 0 {
		return unit
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].id < fl[j].id })
	out := fl[:0]
	seen := map[*Term]bool{}
	for _, x := range fl {
		if seen[x] {
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	for _, x := range out {
		if x.Op == ONot && seen[x.A[0]] {
			return zero
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	cp := append([]*Term(nil), out...)
	return b.mk(&Term{Op: op, A: cp})
}

func (b *B) And(xs ...*Term) *Term { return b.nary(OAnd, b.True, b.False, xs) }
func (b *B) Or(xs ...*Term) *Term  { return b.nary(OOr, b.False, b.True, xs) }
func (b *B) Implies(x, y *Term) *Term {
	return b.Or(b.Not(x), y)
}

func (b *B) Ite(c, x, y *Term) *Term {
	if c.IsTrue() || x == y {
		return x
	}
	if c.IsFalse() {
		return y
	}
	if x.W != y.W {
		panic(fmt.Sprintf("ite sorts %d %d", x.W, y.W))
	}
	if c.Op == ONot {
		c = c.A[0]
		x, y = y, x
	}
	if x.Op == OIte && x.A[0] == c {
		x = x.A[1]
	}
	if y.Op == OIte && y.A[0] == c {
		y = y.A[2]
	}
	if x == y {
		return x
	}
	if x.W == 0 {
		if x.IsTrue() {
			return b.Or(c, y)
		}
		if x.IsFalse() {
			return b.And(b.Not(c), y)
		}
		if y.IsTrue() {
			return b.Or(b.Not(c), x)
		}
		if y.IsFalse() {
			return b.And(c, x)
		}
		if b.Not(x) == y {
			return b.Eq(c, x)
		}
	}
	// ite(c, x, ite(d, x, z)) = ite(c|d, x, z)
	if y.Op == OIte && y.A[1] == x {
		return b.Ite(b.Or(c, y.A[0]), x, y.A[2])
	}
	if x.W > 0 && x.W <= 64 && c.Op == OEq && c.A[0].IsConst() && c.A[0].W == 1 {
		e := c.A[1]
		if c.A[0].C == 0 {
			e = b.BNot(e)
		}
		if d := b.BXor(x, y); d.IsConst() {
			out := make([]*Term, x.W)
			for i := range out {
				if d.C>>uint(x.W-1-i)&1 == 1 {
					out[i] = e
				} else {
					out[i] = b.C(1, 0)
				}
			}
			return b.BXor(y, b.Concat(out...))
		}
	}
	if x.W > 0 && x.W <= 64 {
		// share common concat structure
		if x.Op == OConcat && y.Op == OConcat && len(x.A) == len(y.A) {
			same := true
			for i := range x.A {
				if x.A[i].W != y.A[i].W {
					same = false
				}
			}
			if same {
				out := make([]*Term, len(x.A))
				for i := range out {
					out[i] = b.Ite(c, x.A[i], y.A[i])
				}
				return b.Concat(out...)
			}
		}
		// strip common leading zeros
		hi := x.kz & y.kz
		lz := bits.LeadingZeros64(^(hi << uint(64-x.W)))
		if lz > 0 && lz < x.W && (x.Op == OConcat || y.Op == OConcat) {
			n := x.W - lz
			return b.Concat(b.C(lz, 0), b.Ite(c, b.Extract(n-1, 0, x), b.Extract(n-1, 0, y)))
		}
	}
	return b.mk(&Term{Op: OIte, W: x.W, A: []*Term{c, x, y}})
}

func (b *B) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.W != y.W {
		panic(fmt.Sprintf("eq sorts %d %d", x.W, y.W))
	}
	if x.W == SInt {
		return b.IEq(x, y)
	}
	if x.IsConst() && y.IsConst() {
		return b.BoolC(x.C == y.C)
	}
	if y.IsConst() {
		x, y = y, x
	}
	if x.W == 0 {
		if x.IsTrue() {
			return y
		}
		if x.IsFalse() {
			return b.Not(y)
		}
		if b.Not(x) == y {
			return b.False
		}
	} else {
		if x.W <= 64 && (x.kz&y.k1 != 0 || x.k1&y.kz != 0) {
			return b.False
		}
		if x.IsConst() && x.W == 1 {
			if x.C == 0 {
				return b.Not(b.Eq(b.C(1, 1), y))
			}
			if y.Op == OBNot {
				return b.Not(b.Eq(x, y.A[0]))
			}
		}
		if x.IsConst() {
			switch y.Op {
			case OConcat:
				sh := y.W
				var cs []*Term
				for _, a := range y.A {
					sh -= a.W
					cs = append(cs, b.Eq(b.C(a.W, x.C>>uint(sh)), a))
				}
				return b.And(cs...)
			case OIte:
				if y.A[1].IsConst() || y.A[2].IsConst() {
					e1, e2 := b.Eq(x, y.A[1]), b.Eq(x, y.A[2])
					return b.Ite(y.A[0], e1, e2)
				}
			case OBNot:
				return b.Eq(b.C(x.W, ^x.C), y.A[0])
			case OBXor:
				if y.W > 1 && y.A[0].IsConst() {
					return b.Eq(b.C(x.W, x.C^y.A[0].C), y.A[1])
				}
			case OAdd:
				if y.A[0].IsConst() {
					return b.Eq(b.C(x.W, x.C-y.A[0].C), y.A[1])
				}
			case OSub:
				if y.A[0].IsConst() {
					return b.Eq(b.C(x.W, y.A[0].C-x.C), y.A[1])
				}
			case OSext:
				n := y.A[0].W
				lo := x.C & mask(n)
				full := lo
				if lo>>uint(n-1)&1 == 1 {
					full |= mask(x.W) &^ mask(n)
				}
				if full != x.C {
					return b.False
				}
				return b.Eq(b.C(n, lo), y.A[0])
			}
		}
		if x.Op == OConcat || y.Op == OConcat {
			if x.Op != OConcat {
				x, y = y, x
			}
			// split only when the other side splits without new extracts
			if y.Op == OConcat {
				ok := true
				cut := map[int]bool{}
				p := 0
				for _, a := range x.A {
					p += a.W
					cut[p] = true
				}
				p = 0
				for _, a := range y.A {
					p += a.W
					if !cut[p] && !a.IsConst() {
						ok = ok && true
					}
					cut[p] = true
				}
				if ok {
					var ps []int
					for k := range cut {
						ps = append(ps, k)
					}
					sort.Ints(ps)
					var cs []*Term
					prev := 0
					for _, q := range ps {
						hi, lo := x.W-1-prev, x.W-q
						cs = append(cs, b.Eq(b.Extract(hi, lo, x), b.Extract(hi, lo, y)))
						prev = q
					}
					return b.And(cs...)
				}
			}
		}
		if x.Op == OIte && y.Op == OIte && x.A[0] == y.A[0] {
			return b.Ite(x.A[0], b.Eq(x.A[1], y.A[1]), b.Eq(x.A[2], y.A[2]))
		}
	}
	if x.id > y.id && !x.IsConst() {
		x, y = y, x
	}
	return b.mk(&Term{Op: OEq, A: []*Term{x, y}})
}

func sx(c uint64, w int) int64 {
	return int64(c<<uint(64-w)) >> uint(64-w)
}

func (b *B) Ult(x, y *Term) *Term {
	if x == y {
		return b.False
	}
	if x.W <= 64 {
		if x.umax() < y.umin() {
			return b.True
		}
		if x.umin() >= y.umax() {
			return b.False
		}
		if r := b.narrow(x, y, b.Ult); r != nil {
			return r
		}
		if x.Op == OAdd && (x.A[0] == y || x.A[1] == y) {
			// x = y + z < y only by wrapping
			z := x.A[0]
			if z == y {
				z = x.A[1]
			}
			l, lc := bits.Add64(y.lo, z.lo, 0)
			h, hc := bits.Add64(y.hi, z.hi, 0)
			if hc == 0 && h <= mask(x.W) {
				return b.False
			}
			if lc == 1 || l > mask(x.W) {
				return b.True
			}
		}
		if y.IsConst() && y.C == 1 {
			return b.Eq(x, b.C(x.W, 0))
		}
		if r := b.cmpIte(x, y, b.Ult); r != nil {
			return r
		}
	}
	return b.mk(&Term{Op: OUlt, A: []*Term{x, y}})
}

// narrow drops common known-zero leading bits of an unsigned comparison.
func (b *B) narrow(x, y *Term, f func(x, y *Term) *Term) *Term {
	if x.W > 64 {
		return nil
	}
	hi := x.kz & y.kz
	lz := bits.LeadingZeros64(^(hi << uint(64-x.W)))
	if lz > 0 && lz < x.W {
		n := x.W - lz
		if (x.Op == OConcat || x.IsConst()) && (y.Op == OConcat || y.IsConst()) {
			return f(b.Extract(n-1, 0, x), b.Extract(n-1, 0, y))
		}
	}
	return nil
}

// cmpIte distributes a comparison against a constant over ite with constant leaves.
func (b *B) cmpIte(x, y *Term, f func(x, y *Term) *Term) *Term {
	if x.IsConst() && y.Op == OIte && (y.A[1].IsConst() || y.A[2].IsConst()) {
		return b.Ite(y.A[0], f(x, y.A[1]), f(x, y.A[2]))
	}
	if y.IsConst() && x.Op == OIte && (x.A[1].IsConst() || x.A[2].IsConst()) {
		return b.Ite(x.A[0], f(x.A[1], y), f(x.A[2], y))
	}
	return nil
}

func (b *B) Ule(x, y *Term) *Term { return b.Not(b.Ult(y, x)) }

func (b *B) Slt(x, y *Term) *Term {
	if x == y {
		return b.False
	}
	if x.IsConst() && y.IsConst() {
		return b.BoolC(sx(x.C, x.W) < sx(y.C, y.W))
	}
	top := uint64(1) << uint(x.W-1)
	xn, xp := x.k1&top != 0, x.kz&top != 0
	yn, yp := y.k1&top != 0, y.kz&top != 0
	if xn && yp {
		return b.True
	}
	if xp && yn {
		return b.False
	}
	if (xp && yp) || (xn && yn) {
		return b.Ult(x, y)
	}
	if y.IsConst() && y.C == 0 {
		return b.Eq(b.Extract(x.W-1, x.W-1, x), b.C(1, 1))
	}
	if r := b.cmpIte(x, y, b.Slt); r != nil {
		return r
	}
	return b.mk(&Term{Op: OSlt, A: []*Term{x, y}})
}
func (b *B) Sle(x, y *Term) *Term { return b.Not(b.Slt(y, x)) }

// ---- bit-vectors ----

func (b *B) Concat(xs ...*Term) *Term {
	var fl []*Term
	for _, x := range xs {
		if x.W == 0 {
			panic("concat of bool")
		}
		if x.Op == OConcat {
			fl = append(fl, x.A...)
		} else {
			fl = append(fl, x)
		}
	}
	var out []*Term
	for _, x := range fl {
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.IsConst() && x.IsConst() && p.W+x.W <= 64 {
				out[n-1] = b.C(p.W+x.W, p.C<<uint(x.W)|x.C)
				continue
			}
			if p.Op == OExtract && x.Op == OExtract && p.A[0] == x.A[0] && p.Lo == x.Hi+1 {
				out[n-1] = b.Extract(p.Hi, x.Lo, p.A[0])
				continue
			}
			// x itself followed by nothing; p extract of x's parent handled above
		}
		out = append(out, x)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, x := range out {
		w += x.W
	}
	return b.mk(&Term{Op: OConcat, W: w, A: out})
}

func (b *B) Zext(w int, x *Term) *Term {
	if w == x.W {
		return x
	}
	if w < x.W {
		return b.Extract(w-1, 0, x)
	}
	n := w - x.W
	for n > 64 {
		x = b.Concat(b.C(64, 0), x)
		n -= 64
	}
	return b.Concat(b.C(n, 0), x)
}

func (b *B) Sext(w int, x *Term) *Term {
	if w == x.W {
		return x
	}
	if w < x.W {
		return b.Extract(w-1, 0, x)
	}
	if x.IsConst() {
		return b.C(w, uint64(sx(x.C, x.W)))
	}
	top := uint64(1) << uint(x.W-1)
	if x.kz&top != 0 {
		return b.Zext(w, x)
	}
	if x.Op == OSext {
		x = x.A[0]
	}
	return b.mk(&Term{Op: OSext, W: w, A: []*Term{x}})
}

func (b *B) Extract(hi, lo int, x *Term) *Term {
	if lo == 0 && hi == x.W-1 {
		return x
	}
	if x.Op == OConst && hi < x.W && hi >= lo {
		return b.C(hi-lo+1, x.C>>uint(lo))
	}
	k := exKey{x.id, hi, lo}
	if r, ok := b.exMemo[k]; ok {
		return r
	}
	r := b.extract(hi, lo, x)
	b.exMemo[k] = r
	return r
}

func (b *B) extract(hi, lo int, x *Term) *Term {
	w := hi - lo + 1
	if w <= 0 || hi >= x.W {
		panic(fmt.Sprintf("extract %d %d of %d", hi, lo, x.W))
	}
	switch x.Op {
	case OConst:
		return b.C(w, x.C>>uint(lo))
	case OExtract:
		return b.Extract(hi+x.Lo, lo+x.Lo, x.A[0])
	case OConcat:
		pos := x.W
		var out []*Term
		for _, a := range x.A {
			ahi, alo := pos-1, pos-a.W
			pos = alo
			h, l := hi, lo
			if h > ahi {
				h = ahi
			}
			if l < alo {
				l = alo
			}
			if h >= l {
				out = append(out, b.Extract(h-alo, l-alo, a))
			}
		}
		return b.Concat(out...)
	case OSext:
		n := x.A[0].W
		if hi < n {
			return b.Extract(hi, lo, x.A[0])
		}
		if lo < n {
			return b.Sext(w, b.Extract(n-1, lo, x.A[0]))
		}
		return b.Sext(w, b.Extract(n-1, n-1, x.A[0]))
	case OBAnd, OBOr, OBXor:
		p, q := b.Extract(hi, lo, x.A[0]), b.Extract(hi, lo, x.A[1])
		switch x.Op {
		case OBAnd:
			return b.BAnd(p, q)
		case OBOr:
			return b.BOr(p, q)
		}
		return b.BXor(p, q)
	case OBNot:
		return b.BNot(b.Extract(hi, lo, x.A[0]))
	case OIte:
		if x.A[1].IsConst() || x.A[2].IsConst() || x.A[1].Op == OConcat || x.A[2].Op == OConcat || w <= 8 {
			return b.Ite(x.A[0], b.Extract(hi, lo, x.A[1]), b.Extract(hi, lo, x.A[2]))
		}
	case OAdd, OSub, OMul:
		if lo == 0 && !b.arith {
			p, q := b.Extract(hi, 0, x.A[0]), b.Extract(hi, 0, x.A[1])
			switch x.Op {
			case OAdd:
				return b.Add(p, q)
			case OSub:
				return b.Sub(p, q)
			}
			return b.Mul(p, q)
		}
	}
	if x.W <= 64 {
		m := mask(w)
		if (x.kz>>uint(lo))&m == m {
			return b.C(w, 0)
		}
		if ((x.kz|x.k1)>>uint(lo))&m == m {
			return b.C(w, x.k1>>uint(lo))
		}
	}
	return b.mk(&Term{Op: OExtract, W: w, Hi: hi, Lo: lo, A: []*Term{x}})
}

func (b *B) BNot(x *Term) *Term {
	if x.IsConst() {
		return b.C(x.W, ^x.C)
	}
	if x.Op == OBNot {
		return x.A[0]
	}
	return b.mk(&Term{Op: OBNot, W: x.W, A: []*Term{x}})
}

// runs splits 0..w-1 into maximal runs of equal class (from the top).
func runs(w int, class func(i int) int) [][3]int {
	var out [][3]int
	i := w - 1
	for i >= 0 {
		c := class(i)
		j := i
		for j-1 >= 0 && class(j-1) == c {
			j--
		}
		out = append(out, [3]int{i, j, c})
		i = j - 1
	}
	return out
}

// disjoint joins x|y when every bit is known zero on one side.
func (b *B) disjoint(x, y *Term) *Term {
	if x.W > 64 {
		return nil
	}
	m := mask(x.W)
	if (x.kz|y.kz)&m != m {
		return nil
	}
	rs := runs(x.W, func(i int) int {
		bit := uint64(1) << uint(i)
		xz, yz := x.kz&bit != 0, y.kz&bit != 0
		switch {
		case xz && yz:
			return 0
		case yz:
			return 1
		}
		return 2
	})
	if len(rs) > 12 {
		return nil
	}
	var out []*Term
	for _, r := range rs {
		switch r[2] {
		case 0:
			out = append(out, b.C(r[0]-r[1]+1, 0))
		case 1:
			out = append(out, b.Extract(r[0], r[1], x))
		case 2:
			out = append(out, b.Extract(r[0], r[1], y))
		}
	}
	return b.Concat(out...)
}

func order(x, y *Term) (*Term, *Term) {
	if y.IsConst() && !x.IsConst() {
		return y, x
	}
	if x.IsConst() {
		return x, y
	}
	if x.id > y.id {
		return y, x
	}
	return x, y
}

func alignCuts(x, y *Term) []int {
	cut := map[int]bool{}
	add := func(t *Term) {
		p := t.W
		for _, a := range t.A {
			p -= a.W
			if p > 0 {
				cut[p] = true
			}
		}
	}
	if x.Op == OConcat {
		add(x)
	}
	if y.Op == OConcat {
		add(y)
	}
	var ps []int
	for k := range cut {
		ps = append(ps, k)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ps)))
	return ps
}

func (b *B) splitBitwise(x, y *Term, f func(x, y *Term) *Term) *Term {
	if x.Op != OConcat && y.Op != OConcat {
		return nil
	}
	if !(x.Op == OConcat && y.Op == OConcat) && !x.IsConst() {
		// only split concat against non-const when the concat has a const part
		c := x
		if y.Op == OConcat {
			c = y
		}
		has := false
		for _, a := range c.A {
			if a.IsConst() || a.W == 1 {
				has = true
			}
		}
		if !has {
			return nil
		}
	}
	ps := append(alignCuts(x, y), 0)
	hi := x.W - 1
	var out []*Term
	for _, p := range ps {
		out = append(out, f(b.Extract(hi, p, x), b.Extract(hi, p, y)))
		hi = p - 1
	}
	return b.Concat(out...)
}

func (b *B) BAnd(x, y *Term) *Term {
	if x == y {
		return x
	}
	x, y = order(x, y)
	if x.IsConst() {
		m := mask(x.W)
		if x.C == 0 {
			return x
		}
		if x.C == m {
			return y
		}
		if y.IsConst() {
			return b.C(x.W, x.C&y.C)
		}
		if ^y.kz&m&^x.C == 0 { // mask keeps everything that can be set
			return y
		}
		rs := runs(x.W, func(i int) int { return int(x.C >> uint(i) & 1) })
		if len(rs) <= 9 {
			var out []*Term
			for _, r := range rs {
				if r[2] == 1 {
					out = append(out, b.Extract(r[0], r[1], y))
				} else {
					out = append(out, b.C(r[0]-r[1]+1, 0))
				}
			}
			return b.Concat(out...)
		}
	}
	if x.W <= 64 && (x.kz|y.kz)&mask(x.W) == mask(x.W) {
		return b.C(x.W, 0)
	}
	if b.BNotIs(x, y) {
		return b.C(x.W, 0)
	}
	if r := b.splitBitwise(x, y, b.BAnd); r != nil {
		return r
	}
	return b.mk(&Term{Op: OBAnd, W: x.W, A: []*Term{x, y}})
}

func (b *B) BNotIs(x, y *Term) bool {
	return (x.Op == OBNot && x.A[0] == y) || (y.Op == OBNot && y.A[0] == x)
}

func (b *B) BOr(x, y *Term) *Term {
	if x == y {
		return x
	}
	x, y = order(x, y)
	if x.IsConst() {
		m := mask(x.W)
		if x.C == 0 {
			return y
		}
		if x.C == m {
			return x
		}
		if y.IsConst() {
			return b.C(x.W, x.C|y.C)
		}
		rs := runs(x.W, func(i int) int { return int(x.C >> uint(i) & 1) })
		if len(rs) <= 9 {
			var out []*Term
			for _, r := range rs {
				if r[2] == 0 {
					out = append(out, b.Extract(r[0], r[1], y))
				} else {
					out = append(out, b.C(r[0]-r[1]+1, ^uint64(0)))
				}
			}
			return b.Concat(out...)
		}
	}
	if r := b.disjoint(x, y); r != nil {
		return r
	}
	if r := b.splitBitwise(x, y, b.BOr); r != nil {
		return r
	}
	return b.mk(&Term{Op: OBOr, W: x.W, A: []*Term{x, y}})
}

// xor1 is exclusive or on single bits, flattened to a sorted set of operands.
func (b *B) xor1(x, y *Term) *Term {
	par := uint64(0)
	ops := func(t *Term) []*Term {
		if t.Op == OBNot {
			par ^= 1
			t = t.A[0]
		}
		if t.IsConst() {
			par ^= t.C
			return nil
		}
		if t.Op == OBXor {
			return t.A
		}
		return []*Term{t}
	}
	p, q := ops(x), ops(y)
	out := make([]*Term, 0, len(p)+len(q))
	for len(p) > 0 && len(q) > 0 {
		switch {
		case p[0] == q[0]:
			p, q = p[1:], q[1:]
		case p[0].id < q[0].id:
			out = append(out, p[0])
			p = p[1:]
		default:
			out = append(out, q[0])
			q = q[1:]
		}
	}
	out = append(out, p...)
	out = append(out, q...)
	var r *Term
	switch len(out) {
	case 0:
		return b.C(1, par)
	case 1:
		r = out[0]
	default:
		r = b.mk(&Term{Op: OBXor, W: 1, A: out})
	}
	if par == 1 {
		return b.BNot(r)
	}
	return r
}

func (b *B) BXor(x, y *Term) *Term {
	if x == y {
		return b.C(x.W, 0)
	}
	if x.W == 1 {
		return b.xor1(x, y)
	}
	x, y = order(x, y)
	if x.IsConst() {
		if x.C == 0 {
			return y
		}
		if y.IsConst() {
			return b.C(x.W, x.C^y.C)
		}
		if x.C == mask(x.W) {
			return b.BNot(y)
		}
		if y.Op == OBXor && y.A[0].IsConst() {
			return b.BXor(b.C(x.W, x.C^y.A[0].C), y.A[1])
		}
	}
	if r := b.disjoint(x, y); r != nil {
		return r
	}
	if y.Op == OBXor && (y.A[0] == x || y.A[1] == x) {
		if y.A[0] == x {
			return y.A[1]
		}
		return y.A[0]
	}
	if x.Op == OBXor && (x.A[0] == y || x.A[1] == y) {
		if x.A[0] == y {
			return x.A[1]
		}
		return x.A[0]
	}
	if r := b.splitBitwise(x, y, b.BXor); r != nil {
		return r
	}
	return b.mk(&Term{Op: OBXor, W: x.W, A: []*Term{x, y}})
}

func (b *B) Add(x, y *Term) *Term {
	x, y = order(x, y)
	if x.IsConst() {
		if x.C == 0 {
			return y
		}
		if y.IsConst() {
			return b.C(x.W, x.C+y.C)
		}
		if y.Op == OAdd && y.A[0].IsConst() {
			return b.Add(b.C(x.W, x.C+y.A[0].C), y.A[1])
		}
		if y.Op == OSub && y.A[0].IsConst() {
			return b.Sub(b.C(x.W, x.C+y.A[0].C), y.A[1])
		}
	} else if y.Op == OAdd && y.A[0].IsConst() && !(x.Op == OAdd && x.A[0].IsConst()) {
		return b.Add(y.A[0], b.Add(x, y.A[1]))
	} else if x.Op == OAdd && x.A[0].IsConst() {
		return b.Add(x.A[0], b.Add(x.A[1], y))
	}
	if x.Op == OSub && x.A[1] == y {
		return x.A[0]
	}
	if y.Op == OSub && y.A[1] == x {
		return y.A[0]
	}
	if r := b.disjoint(x, y); r != nil {
		return r
	}
	return b.mk(&Term{Op: OAdd, W: x.W, A: []*Term{x, y}})
}

func (b *B) Sub(x, y *Term) *Term {
	if x == y {
		return b.C(x.W, 0)
	}
	if y.IsConst() {
		return b.Add(x, b.C(x.W, -y.C))
	}
	if x.IsConst() && x.C == 0 && y.Op == OConcat && len(y.A) == 2 && y.A[0].IsConst() && y.A[0].C == 0 && y.A[1].W == 1 {
		return b.Sext(y.W, y.A[1])
	}
	if x.IsConst() && y.Op == OAdd && y.A[0].IsConst() {
		return b.Sub(b.C(x.W, x.C-y.A[0].C), y.A[1])
	}
	if x.Op == OAdd {
		if x.A[0] == y {
			return x.A[1]
		}
		if x.A[1] == y {
			return x.A[0]
		}
		if x.A[0].IsConst() {
			return b.Add(x.A[0], b.Sub(x.A[1], y))
		}
	}
	if y.Op == OAdd && y.A[0].IsConst() {
		return b.Add(b.C(x.W, -y.A[0].C), b.Sub(x, y.A[1]))
	}
	if x.Op == OSub && x.A[0] == y {
		return b.Sub(b.C(x.W, 0), x.A[1])
	}
	return b.mk(&Term{Op: OSub, W: x.W, A: []*Term{x, y}})
}

func (b *B) Mul(x, y *Term) *Term {
	x, y = order(x, y)
	if x.IsConst() {
		if x.C == 0 {
			return x
		}
		if x.C == 1 {
			return y
		}
		if y.IsConst() {
			return b.C(x.W, x.C*y.C)
		}
		if x.C&(x.C-1) == 0 {
			return b.shlC(y, bits.TrailingZeros64(x.C))
		}
	}
	return b.mk(&Term{Op: OMul, W: x.W, A: []*Term{x, y}})
}

// Udiv: caller guarantees y != 0.
func (b *B) Udiv(x, y *Term) *Term {
	if y.IsConst() && y.C != 0 {
		if x.IsConst() {
			return b.C(x.W, x.C/y.C)
		}
		if y.C&(y.C-1) == 0 {
			return b.lshrC(x, bits.TrailingZeros64(y.C))
		}
		if x.W <= 64 && x.umax() < y.C {
			return b.C(x.W, 0)
		}
		if r := b.narrow(x, y, b.Udiv); r != nil {
			return b.Zext(x.W, r)
		}
	}
	return b.mk(&Term{Op: OUdiv, W: x.W, A: []*Term{x, y}})
}

func (b *B) Urem(x, y *Term) *Term {
	if y.IsConst() && y.C != 0 {
		if x.IsConst() {
			return b.C(x.W, x.C%y.C)
		}
		if y.C&(y.C-1) == 0 {
			return b.BAnd(x, b.C(x.W, y.C-1))
		}
		if x.W <= 64 && x.umax() < y.C {
			return x
		}
		if r := b.narrow(x, y, b.Urem); r != nil {
			return b.Zext(x.W, r)
		}
	}
	return b.mk(&Term{Op: OUrem, W: x.W, A: []*Term{x, y}})
}

func (b *B) Sdiv(x, y *Term) *Term {
	top := uint64(1) << uint(x.W-1)
	if x.IsConst() && y.IsConst() && y.C != 0 {
		return b.C(x.W, uint64(sdiv(sx(x.C, x.W), sx(y.C, y.W))))
	}
	if x.kz&top != 0 && y.kz&top != 0 {
		return b.Udiv(x, y)
	}
	return b.mk(&Term{Op: OSdiv, W: x.W, A: []*Term{x, y}})
}

func sdiv(a, c int64) int64 {
	if c == -1 {
		return -a
	}
	return a / c
}
func srem(a, c int64) int64 {
	if c == -1 {
		return 0
	}
	return a % c
}

func (b *B) Srem(x, y *Term) *Term {
	top := uint64(1) << uint(x.W-1)
	if x.IsConst() && y.IsConst() && y.C != 0 {
		return b.C(x.W, uint64(srem(sx(x.C, x.W), sx(y.C, y.W))))
	}
	if x.kz&top != 0 && y.kz&top != 0 {
		return b.Urem(x, y)
	}
	return b.mk(&Term{Op: OSrem, W: x.W, A: []*Term{x, y}})
}

func (b *B) shlC(x *Term, k int) *Term {
	if k == 0 {
		return x
	}
	if k >= x.W {
		return b.C(x.W, 0)
	}
	return b.Concat(b.Extract(x.W-1-k, 0, x), b.C(k, 0))
}
func (b *B) lshrC(x *Term, k int) *Term {
	if k == 0 {
		return x
	}
	if k >= x.W {
		return b.C(x.W, 0)
	}
	return b.Concat(b.C(k, 0), b.Extract(x.W-1, k, x))
}
func (b *B) ashrC(x *Term, k int) *Term {
	if k == 0 {
		return x
	}
	if k >= x.W {
		k = x.W - 1
	}
	return b.Sext(x.W, b.Extract(x.W-1, k, x))
}

// Shifts: y has the same width as x; amounts >= width follow SMT-LIB.
func (b *B) Shl(x, y *Term) *Term {
	if y.IsConst() {
		if y.C >= uint64(x.W) {
			return b.C(x.W, 0)
		}
		return b.shlC(x, int(y.C))
	}
	return b.mk(&Term{Op: OShl, W: x.W, A: []*Term{x, y}})
}
func (b *B) Lshr(x, y *Term) *Term {
	if y.IsConst() {
		if y.C >= uint64(x.W) {
			return b.C(x.W, 0)
		}
		return b.lshrC(x, int(y.C))
	}
	return b.mk(&Term{Op: OLshr, W: x.W, A: []*Term{x, y}})
}
func (b *B) Ashr(x, y *Term) *Term {
	if y.IsConst() {
		k := x.W
		if y.C < uint64(x.W) {
			k = int(y.C)
		}
		return b.ashrC(x, k)
	}
	return b.mk(&Term{Op: OAshr, W: x.W, A: []*Term{x, y}})
}

// UF: uninterpreted function on bytes; result of w bits.
func (b *B) UF(name string, w int, args []*Term) *Term {
	return b.mk(&Term{Op: OUF, W: w, Name: name, A: append([]*Term(nil), args...)})
}

// BoolToBV1
func (b *B) B2BV(x *Term, w int) *Term {
	return b.Ite(x, b.C(w, 1), b.C(w, 0))
}

// ---- integers ----

func (b *B) IC(v *big.Int) *Term { return b.mk(&Term{Op: OIConst, W: SInt, Big: v}) }
func (b *B) IVar(n string) *Term { return b.mk(&Term{Op: OIVar, W: SInt, Name: n}) }
func (b *B) IAdd(xs ...*Term) *Term {
	if len(xs) == 1 {
		return xs[0]
	}
	return b.mk(&Term{Op: OIAdd, W: SInt, A: xs})
}
func (b *B) IMul(x, y *Term) *Term { return b.mk(&Term{Op: OIMul, W: SInt, A: []*Term{x, y}}) }
func (b *B) IMod(x *Term, m *big.Int) *Term {
	return b.mk(&Term{Op: OIMod, W: SInt, A: []*Term{x}, Big: m})
}
func (b *B) IOfU(x *Term) *Term   { return b.mk(&Term{Op: OIOfU, W: SInt, A: []*Term{x}}) }
func (b *B) IOfS(x *Term) *Term   { return b.mk(&Term{Op: OIOfS, W: SInt, A: []*Term{x}}) }
func (b *B) ILe(x, y *Term) *Term { return b.mk(&Term{Op: OILe, A: []*Term{x, y}}) }
func (b *B) ILt(x, y *Term) *Term { return b.mk(&Term{Op: OILt, A: []*Term{x, y}}) }
func (b *B) IEq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	return b.mk(&Term{Op: OIEq, A: []*Term{x, y}})
}
