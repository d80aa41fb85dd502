package gp

import (
	ed "github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

// Stand-ins that follow a point by its combination m*A + n*B (A an indeterminate, B = 1).

func pv(m v.Int) ed.FieldElement { return el(m, 0) }

func comb(f *ed.FieldElement) v.Int {
	if f[9] != mark {
		v.Unsupported("a point that was not made by the group operations")
	}
	return v.Int(f[0])
}

func ProjZero(p *ed.ProjectiveGroupElement) { p.X = pv(v.IntC("0")) }

func ToCached(p *ed.ExtendedGroupElement, c *ed.CachedGroupElement) { ed.VSetCached(c, &p.X) }

func cached(c *ed.CachedGroupElement) v.Int {
	f := ed.VGetCached(c)
	return comb(&f)
}

// tab is the entry of the table of odd multiples (H_bi decides what it holds).
func tab(q *ed.PreComputedGroupElement) v.Int {
	for j := 0; j < 8; j++ {
		if ed.VTabIs(j, q) {
			return v.IntS(int64(2*j + 1))
		}
	}
	v.Unsupported("a point that is not in the table of odd multiples")
	return 0
}

func DAdd(r *ed.CompletedGroupElement, p *ed.ExtendedGroupElement, q *ed.CachedGroupElement) {
	r.X = pv(add(comb(&p.X), cached(q)))
}

func DSub(r *ed.CompletedGroupElement, p *ed.ExtendedGroupElement, q *ed.CachedGroupElement) {
	r.X = pv(sub(comb(&p.X), cached(q)))
}

func DMixedAdd(r *ed.CompletedGroupElement, p *ed.ExtendedGroupElement, q *ed.PreComputedGroupElement) {
	r.X = pv(add(comb(&p.X), tab(q)))
}

func DMixedSub(r *ed.CompletedGroupElement, p *ed.ExtendedGroupElement, q *ed.PreComputedGroupElement) {
	r.X = pv(sub(comb(&p.X), tab(q)))
}

func DExtDouble(p *ed.ExtendedGroupElement, r *ed.CompletedGroupElement) {
	r.X = pv(mul(two(), comb(&p.X)))
}

func DProjDouble(p *ed.ProjectiveGroupElement, r *ed.CompletedGroupElement) {
	r.X = pv(mul(two(), comb(&p.X)))
}

func DToExtended(p *ed.CompletedGroupElement, r *ed.ExtendedGroupElement)     { r.X = p.X }
func DToProjective(p *ed.CompletedGroupElement, r *ed.ProjectiveGroupElement) { r.X = p.X }

var slA, slB [32]byte
var digA, digB [256]int8

// DSlide stands for slide (H_slide): digits that are zero or odd, of at most 15.
func DSlide(r *[256]int8, a *[32]byte) {
	switch *a {
	case slA:
		*r = digA
	case slB:
		*r = digB
	default:
		v.Unsupported("digits of something other than the two scalars")
	}
}

func digit(name string) int8 {
	return []int8{0, 1, -1, 3, -3, 5, -5, 7, -7, 9, -9, 11, -11, 13, -13, 15, -15}[v.Choose(name, 17)]
}

// H_double_mult: the result is the sum of the multiples the digits stand for. One digit of
// each scalar is arbitrary, at the top, at the bottom or between; the others are of a fixed
// pattern with zeros and both signs.
func H_double_mult() {
	place := v.Choose("place", 4)
	top, at := []int{1, 0, 252, 252}[place], []int{0, 0, 126, 252}[place]
	x := digit("x")
	pattern, y := 1, int8(0)
	if place == 0 {
		y = digit("y")
	} else {
		pattern = 1 + v.Choose("pattern", 2)
		y = []int8{0, x, -x}[v.Choose("y3", 3)]
	}
	a, b, k := v.Bytes("a", 32), v.Bytes("b", 32), v.Bytes("k", 32)
	if v.Symbolic() {
		slA, slB = [32]byte{1}, [32]byte{2}
		digA, digB = [256]int8{}, [256]int8{}
		for i := 0; i <= top; i++ {
			switch {
			case pattern == 1 && i%5 == 0:
				digA[i], digB[i] = int8(i%31-15)|1, int8(15-i%29)|1
			case pattern == 2 && i%7 == 3:
				digA[i] = int8(15-i%30) | 1
			case pattern == 2 && i%7 == 5:
				digB[i] = int8(i%30-15) | 1
			}
		}
		digA[at], digB[at] = x, y
		A := v.IntVar("A")
		want := v.IntC("0")
		for i := 255; i >= 0; i-- {
			if digA[i] != 0 {
				want = add(want, mul(v.IntPow2(i), v.IntS(int64(digA[i])), A))
			}
			if digB[i] != 0 {
				want = add(want, mul(v.IntPow2(i), v.IntS(int64(digB[i]))))
			}
		}
		e := ed.ExtendedGroupElement{X: pv(A)}
		var r ed.ProjectiveGroupElement
		r.X[0] = 7
		s, t := slA, slB
		ed.GeDoubleScalarMultVartime(&r, &s, &e, &t)
		v.Assert(s == slA && t == slB, "GeDoubleScalarMultVartime leaves the scalars unchanged")
		v.AssertCong(comb(&r.X), want, v.IntMul(v.IntC("8"), order()), "GeDoubleScalarMultVartime: the point is a*A + b*B")
		v.Reach("done")
		return
	}
	var s, t [32]byte
	copy(s[:], a)
	copy(t[:], b)
	s[31], t[31] = s[31]&15, t[31]&15
	if place < 2 {
		s, t = [32]byte{a[0] & 15}, [32]byte{b[0] & 15}
	}
	s0, t0 := s, t
	px, py := v.RefPoint(k)
	e := ext(point{px, py, one()})
	var r ed.ProjectiveGroupElement
	ed.GeDoubleScalarMultVartime(&r, &s, &e, &t)
	v.Assert(s == s0 && t == t0, "GeDoubleScalarMultVartime leaves the scalars unchanged")
	x3, y3 := v.RefComb(s0[:], k, t0[:])
	v.AssertCong(val(&r.X), mul(x3, val(&r.Z)), prime(), "GeDoubleScalarMultVartime: the point is a*A + b*B")
	v.AssertCong(val(&r.Y), mul(y3, val(&r.Z)), prime(), "GeDoubleScalarMultVartime: the point is a*A + b*B")
	v.Assert(v.NonZero(val(&r.Z), prime()), "GeDoubleScalarMultVartime: Z does not vanish")
	v.Reach("done")
}

// H_slide: the digits are zero or odd, at most 15, and add up to the scalar. The symbolic
// bits sit at several places between fixed ones and zeros.
func H_slide() { slideAt(10) }

func H_slide_long() { slideAt(12) }

func slideAt(n int) {
	pos := []int{0, 3, 61, 124, 230, 252 - n}[v.Choose("pos", 6)]
	pattern := v.Choose("pattern", 3)
	bits := uint64(v.U16("bits")) & (1<<uint(n) - 1)
	// 60 bits from base on: ones, zeros or mixed above and below the symbolic ones
	base, under := pos, 0
	if pos > 10 {
		base, under = pos-10, 10
	}
	width := 252 - base
	if width > 58 {
		width = 58
	}
	fill := []uint64{0, 1<<58 - 1, 0x2d97a53c96f1e8}[pattern] & (1<<uint(width) - 1)
	mask := (uint64(1)<<uint(n) - 1) << uint(under)
	x := fill&^mask | bits<<uint(under)
	var a [32]byte
	for i := 0; i < 64; i++ {
		if base+i < 256 {
			a[(base+i)>>3] |= byte(x>>uint(i)&1) << uint((base+i)&7)
		}
	}
	a0 := a
	var r [256]int8
	r[5], r[200] = 3, 5
	ed.VSlide(&r, &a)
	v.Assert(a == a0, "slide leaves the scalar unchanged")
	sum := int64(0)
	for i, d := range r {
		if base <= i && i < base+62 {
			v.Assert(d == 0 || v.And(d&1 == 1, -15 <= d, d <= 15), "slide: digits are zero or odd and at most 15")
			if i < base+60 {
				sum += int64(d) << uint(i-base)
			} else {
				v.Assert(d == 0, "slide: no digit far from the set bits")
			}
		} else {
			v.Assert(d == 0, "slide: no digit far from the set bits")
		}
	}
	v.Assert(sum == int64(x), "slide: the digits add up to the scalar")
	v.Reach("done")
}
