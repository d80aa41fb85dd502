// The group-level properties of crypto/edwards25519 (C21). This directory uses only
// exported names; ../ge adds what needs private ones (and is laid over these files).
//
// Under the symbolic engine the field operations are replaced by exact polynomial
// arithmetic (that the real ones compute it, within limb bounds the stand-ins track, is
// C20); a field element then carries the handle of a polynomial, its bound in units of
// 1.1*2^25 (2^24 for odd limbs), and a mark. Natively the harnesses use real points.
package gp

import (
	ed "github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

const mark = 1<<30 + 12345

func prime() v.Int {
	return v.IntC("57896044618658097711785492504343953926634992332820282019728792003956564819949")
}
func order() v.Int {
	return v.IntC("7237005577332262213973186563042994240857116359379907606001950938285454250989")
}
func dconst() v.Int {
	return v.IntC("0x52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3")
}

var weight = [10]int{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

func el(h v.Int, k int32) (f ed.FieldElement) {
	f[0], f[1], f[9] = int32(h), k, mark
	return
}

// val is the integer a field element stands for.
func val(f *ed.FieldElement) v.Int {
	if v.Symbolic() && f[9] == mark {
		return v.Int(f[0])
	}
	r := v.IntC("0")
	for i := range f {
		r = v.IntAdd(r, v.IntMul(v.IntS(int64(f[i])), v.IntPow2(weight[i])))
	}
	return r
}

// bnd is the least k with all limbs within k times the bound.
func bnd(f *ed.FieldElement) int32 {
	if v.Symbolic() && f[9] == mark {
		return f[1]
	}
	var k int32
	for i := range f {
		u := int64(110) << 25 / 100
		if i%2 == 1 {
			u /= 2
		}
		a := int64(f[i])
		if a < 0 {
			a = -a
		}
		for int64(k)*u < a {
			k++
		}
	}
	return k
}

func in3(f *ed.FieldElement, op string) {
	v.Assert(bnd(f) <= 3, op+" is given operands within its bounds (1.65*2^26, 1.65*2^25)")
}

func ShimMul(h, f, g *ed.FieldElement) {
	in3(f, "FeMul")
	in3(g, "FeMul")
	*h = el(v.IntMul(val(f), val(g)), 1)
}

func ShimSquare(h, f *ed.FieldElement) {
	in3(f, "FeSquare")
	*h = el(v.IntMul(val(f), val(f)), 1)
}

func ShimSquare2(h, f *ed.FieldElement) {
	in3(f, "FeSquare2")
	*h = el(v.IntMul(v.IntC("2"), v.IntMul(val(f), val(f))), 1)
}

func ShimAdd(h, f, g *ed.FieldElement) { *h = el(v.IntAdd(val(f), val(g)), bnd(f)+bnd(g)) }
func ShimSub(h, f, g *ed.FieldElement) { *h = el(v.IntSub(val(f), val(g)), bnd(f)+bnd(g)) }
func ShimNeg(h, f *ed.FieldElement)    { *h = el(v.IntSub(v.IntC("0"), val(f)), bnd(f)) }

func mul(xs ...v.Int) v.Int {
	r := xs[0]
	for _, x := range xs[1:] {
		r = v.IntMul(r, x)
	}
	return r
}

func add(x, y v.Int) v.Int { return v.IntAdd(x, y) }
func sub(x, y v.Int) v.Int { return v.IntSub(x, y) }
func one() v.Int           { return v.IntC("1") }
func two() v.Int           { return v.IntC("2") }

// point is an affine point with a projective scale.
type point struct {
	x, y, z v.Int
}

// pt is an arbitrary point: symbolically three indeterminates (the curve equation is used
// only where a harness says so), natively a multiple of the base point with scale z.
func pt(name string) point {
	k, z := v.Bytes(name+".k", 32), v.Bytes(name+".z", 32)
	if v.Symbolic() {
		return point{v.IntVar(name + ".x"), v.IntVar(name + ".y"), v.IntVar(name + ".z")}
	}
	x, y := v.RefPoint(k)
	return point{x, y, v.RefScale(z)}
}

// fe is a reduced field element of the given value.
func fe(x v.Int) ed.FieldElement {
	if v.Symbolic() {
		return el(x, 1)
	}
	var b [32]byte
	copy(b[:], v.RefBytes(x))
	var f ed.FieldElement
	ed.FeFromBytes(&f, &b)
	return f
}

func ext(p point) (e ed.ExtendedGroupElement) {
	e.X, e.Y, e.Z, e.T = fe(mul(p.x, p.z)), fe(mul(p.y, p.z)), fe(p.z), fe(mul(p.x, p.y, p.z))
	return
}

// sum states that the completed point r is p + q (or p - q): x = X/Z, y = Y/T.
func sum(r *ed.CompletedGroupElement, p, q point, scale v.Int, name string) {
	D := mul(dconst(), p.x, p.y, q.x, q.y)
	x3 := add(mul(p.x, q.y), mul(p.y, q.x))
	y3 := add(mul(p.y, q.y), mul(p.x, q.x))
	zd, td := add(one(), D), sub(one(), D)
	completed(r, x3, zd, y3, td, scale, name)
}

// completed states that r is the point (x/zd, y/td).
func completed(r *ed.CompletedGroupElement, x, zd, y, td, scale v.Int, name string) {
	v.AssertCong(mul(val(&r.X), zd), mul(val(&r.Z), x), prime(), name+": x of the result")
	v.AssertCong(mul(val(&r.Y), td), mul(val(&r.T), y), prime(), name+": y of the result")
	if v.Symbolic() {
		// the denominators are the (never vanishing) ones of the addition law, scaled
		v.AssertCong(val(&r.Z), mul(scale, zd), prime(), name+": denominator of x")
		v.AssertCong(val(&r.T), mul(scale, td), prime(), name+": denominator of y")
	} else {
		v.Assert(v.NonZero(val(&r.Z), prime()), name+": denominator of x does not vanish")
		v.Assert(v.NonZero(val(&r.T), prime()), name+": denominator of y does not vanish")
	}
	v.Assert(bnd(&r.X) <= 3 && bnd(&r.Y) <= 3 && bnd(&r.Z) <= 3 && bnd(&r.T) <= 3, name+": limbs stay within what the next operation takes")
}

func neg(q point) point { return point{sub(v.IntC("0"), q.x), q.y, q.z} }

// double states the doubling law; on the curve 1 + d x^2 y^2 = y^2 - x^2.
func double(r *ed.CompletedGroupElement, p point, name string) {
	zd := sub(mul(p.y, p.y), mul(p.x, p.x))
	td := sub(two(), zd)
	completed(r, mul(two(), p.x, p.y), zd, add(mul(p.y, p.y), mul(p.x, p.x)), td, mul(p.z, p.z), name)
}

func H_double() {
	p := pt("p")
	e := ext(p)
	var r ed.CompletedGroupElement
	e.Double(&r)
	double(&r, p, "ExtendedGroupElement.Double")
	var s ed.CompletedGroupElement
	var pr ed.ProjectiveGroupElement
	e.ToProjective(&pr)
	v.AssertCong(val(&pr.X), mul(p.x, p.z), prime(), "ExtendedGroupElement.ToProjective: X")
	v.AssertCong(val(&pr.Y), mul(p.y, p.z), prime(), "ExtendedGroupElement.ToProjective: Y")
	v.AssertCong(val(&pr.Z), p.z, prime(), "ExtendedGroupElement.ToProjective: Z")
	pr.Double(&s)
	double(&s, p, "ProjectiveGroupElement.Double")
	v.Reach("done")
}

// H_complete: conversions keep the point (x = X/Z, y = Y/T of the completed form).
func H_complete() {
	p, q := pt("p"), pt("q")
	c := ed.CompletedGroupElement{X: fe(mul(p.x, p.z)), Z: fe(p.z), Y: fe(mul(p.y, q.z)), T: fe(q.z)}
	var e ed.ExtendedGroupElement
	c.ToExtended(&e)
	same := func(X, Y, Z v.Int, name string) {
		v.AssertCong(X, mul(p.x, Z), prime(), name+": x")
		v.AssertCong(Y, mul(p.y, Z), prime(), name+": y")
		if v.Symbolic() {
			v.AssertCong(Z, mul(p.z, q.z), prime(), name+": Z")
		} else {
			v.Assert(v.NonZero(Z, prime()), name+": Z does not vanish")
		}
	}
	same(val(&e.X), val(&e.Y), val(&e.Z), "CompletedGroupElement.ToExtended")
	v.AssertCong(mul(val(&e.T), val(&e.Z)), mul(val(&e.X), val(&e.Y)), prime(), "CompletedGroupElement.ToExtended: T = XY/Z")
	v.Assert(bnd(&e.X) <= 1 && bnd(&e.Y) <= 1 && bnd(&e.Z) <= 1 && bnd(&e.T) <= 1, "CompletedGroupElement.ToExtended: reduced limbs")
	var r ed.ProjectiveGroupElement
	c.ToProjective(&r)
	same(val(&r.X), val(&r.Y), val(&r.Z), "CompletedGroupElement.ToProjective")
	v.Assert(bnd(&r.X) <= 1 && bnd(&r.Y) <= 1 && bnd(&r.Z) <= 1, "CompletedGroupElement.ToProjective: reduced limbs")
	v.Reach("done")
}

func eq(f *ed.FieldElement, c string, msg string) {
	v.AssertCong(val(f), v.IntC(c), prime(), msg)
	v.Assert(bnd(f) <= 1, msg)
}

// H_zero: the neutral elements.
func H_zero() {
	v.Bytes("p.k", 32)
	var e ed.ExtendedGroupElement
	e.X[3], e.Y[3], e.Z[3], e.T[3] = 5, 5, 5, 5
	e.Zero()
	eq(&e.X, "0", "ExtendedGroupElement.Zero: X")
	eq(&e.Y, "1", "ExtendedGroupElement.Zero: Y")
	eq(&e.Z, "1", "ExtendedGroupElement.Zero: Z")
	eq(&e.T, "0", "ExtendedGroupElement.Zero: T")
	var p ed.ProjectiveGroupElement
	p.X[3], p.Y[3], p.Z[3] = 5, 5, 5
	p.Zero()
	eq(&p.X, "0", "ProjectiveGroupElement.Zero: X")
	eq(&p.Y, "1", "ProjectiveGroupElement.Zero: Y")
	eq(&p.Z, "1", "ProjectiveGroupElement.Zero: Z")
	v.Reach("done")
}
