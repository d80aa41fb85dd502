package gp

import (
	ed "github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

// Stand-ins that follow a point by its multiple of the base point.

func ptEl(m v.Int) ed.FieldElement { return el(m, 0) }

func mult(f *ed.FieldElement) v.Int {
	if f[9] != mark {
		v.Unsupported("a point that was not made by the group operations")
	}
	return v.Int(f[0])
}

func ExtZero(p *ed.ExtendedGroupElement)    { p.X = ptEl(v.IntC("0")) }
func ProjZero(p *ed.ProjectiveGroupElement) { p.X = ptEl(v.IntC("0")) }

func MSelect(t *ed.PreComputedGroupElement, pos int32, b int32) {
	v.Assert(0 <= pos && pos < 32, "table positions are 0 to 31")
	v.AssertLe(v.IntC("-8"), v.IntS(int64(b)), "digits are at least -8")
	v.AssertLe(v.IntS(int64(b)), v.IntC("8"), "digits are at most 8")
	m := ptEl(v.IntMul(v.IntS(int64(b)), v.IntPow2(8*int(pos))))
	*t = ed.VPre(&m, &m, &m)
}

func MMixedAdd(r *ed.CompletedGroupElement, p *ed.ExtendedGroupElement, q *ed.PreComputedGroupElement) {
	a, _, _ := ed.VPreGet(q)
	r.X = ptEl(v.IntAdd(mult(&p.X), mult(&a)))
}

func MMixedSub(r *ed.CompletedGroupElement, p *ed.ExtendedGroupElement, q *ed.PreComputedGroupElement) {
	a, _, _ := ed.VPreGet(q)
	r.X = ptEl(v.IntSub(mult(&p.X), mult(&a)))
}

func MExtDouble(p *ed.ExtendedGroupElement, r *ed.CompletedGroupElement) {
	r.X = ptEl(v.IntMul(v.IntC("2"), mult(&p.X)))
}

func MProjDouble(p *ed.ProjectiveGroupElement, r *ed.CompletedGroupElement) {
	r.X = ptEl(v.IntMul(v.IntC("2"), mult(&p.X)))
}

func MToExtended(p *ed.CompletedGroupElement, r *ed.ExtendedGroupElement)     { r.X = p.X }
func MToProjective(p *ed.CompletedGroupElement, r *ed.ProjectiveGroupElement) { r.X = p.X }
func MExtToProj(p *ed.ExtendedGroupElement, r *ed.ProjectiveGroupElement)     { r.X = p.X }

// H_mult: GeScalarMultBase adds up table entries and doublings to exactly the scalar.
func H_mult() {
	var a [32]byte
	copy(a[:], v.Bytes("a", 32))
	a[31] &= 127
	b := a
	var h ed.ExtendedGroupElement
	ed.GeScalarMultBase(&h, &a)
	v.Assert(a == b, "GeScalarMultBase leaves the scalar unchanged")
	if v.Symbolic() {
		v.AssertCong(mult(&h.X), v.IntLE(b[:]), order(), "GeScalarMultBase: the point is the scalar times the base point")
	} else {
		x, y := v.RefPoint(b[:])
		v.AssertCong(val(&h.X), mul(x, val(&h.Z)), prime(), "GeScalarMultBase: the point is the scalar times the base point")
		v.AssertCong(val(&h.Y), mul(y, val(&h.Z)), prime(), "GeScalarMultBase: the point is the scalar times the base point")
		v.Assert(v.NonZero(val(&h.Z), prime()), "GeScalarMultBase: Z does not vanish")
	}
	v.Reach("done")
}

// H_pow22523: fePow22523 raises to the power (p-5)/8.
func H_pow22523() {
	z := v.Bytes("z", 32)
	if v.Symbolic() {
		f := el(v.IntC("1"), 1)
		var out ed.FieldElement
		ed.VPow22523(&out, &f)
		v.AssertCong(val(&out), v.IntSub(v.IntPow2(252), v.IntC("3")), v.IntSub(prime(), v.IntC("1")), "fePow22523: the exponent is 2^252-3")
		v.AssertLt(v.IntC("0"), val(&out), "fePow22523: the exponent is positive")
	} else {
		s := v.RefScale(z)
		f := fe(s)
		var out ed.FieldElement
		ed.VPow22523(&out, &f)
		v.AssertCong(val(&out), v.RefPow(s, "7237005577332262213973186563042994240829374041602535252466099000494570602493"), prime(), "fePow22523: the result is the power")
	}
	v.Reach("done")
}
