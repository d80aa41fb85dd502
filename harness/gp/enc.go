package gp

import (
	ed "github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

// ---- exponents ----

func XMul(h, f, g *ed.FieldElement) { *h = el(v.IntAdd(val(f), val(g)), 1) }
func XSquare(h, f *ed.FieldElement) { *h = el(v.IntMul(v.IntC("2"), val(f)), 1) }

// H_invert: FeInvert raises to the power p-2 (modulo p-1).
func H_invert() {
	z := v.Bytes("z", 32)
	if v.Symbolic() {
		f := el(v.IntC("1"), 1)
		var out ed.FieldElement
		ed.FeInvert(&out, &f)
		v.AssertCong(val(&out), v.IntSub(prime(), v.IntC("2")), v.IntSub(prime(), v.IntC("1")), "FeInvert: the exponent is p-2")
		v.AssertLt(v.IntC("0"), val(&out), "FeInvert: the exponent is positive")
	} else {
		s := v.RefScale(z)
		f := fe(s)
		var out ed.FieldElement
		ed.FeInvert(&out, &f)
		v.AssertCong(mul(val(&out), s), one(), prime(), "FeInvert: the result is the inverse")
	}
	v.Reach("done")
}

// ---- encoding ----

var tbX, tbY, tbZ, tbx, tby v.Int
var tbXbytes, tbYbytes []byte

const recip = -7

func TInvert(out, z *ed.FieldElement) {
	if val(z) != tbZ {
		v.Unsupported("inverse of something other than Z")
	}
	in3(z, "FeInvert")
	*out = el(recip, 1)
}

func TMul(h, f, g *ed.FieldElement) {
	in3(f, "FeMul")
	in3(g, "FeMul")
	a, b := val(f), val(g)
	if a == recip {
		a, b = b, a
	}
	if b == recip {
		switch a {
		case tbX:
			*h = el(tbx, 1)
		case tbY:
			*h = el(tby, 1)
		default:
			v.Unsupported("quotient of something other than X or Y")
		}
		return
	}
	*h = el(v.IntMul(a, b), 1)
}

func TToBytes(s *[32]byte, h *ed.FieldElement) {
	v.Assert(bnd(h) <= 1, "FeToBytes is given a reduced element")
	switch val(h) {
	case tbx:
		copy(s[:], tbXbytes)
	case tby:
		copy(s[:], tbYbytes)
	default:
		v.Unsupported("encoding of something other than x or y")
	}
}

// H_tobytes: the encoding is y with the parity of x in the top bit.
func H_tobytes() {
	k, z := v.Bytes("k", 32), v.Bytes("z", 32)
	if v.Symbolic() {
		tbX, tbY, tbZ, tbx, tby = v.IntVar("X"), v.IntVar("Y"), v.IntVar("Z"), v.IntVar("x"), v.IntVar("y")
		tbXbytes, tbYbytes = v.Bytes("xb", 32), v.Bytes("yb", 32)
		v.Assume(tbYbytes[31] < 128 && tbXbytes[31] < 128)
		e := ed.ExtendedGroupElement{X: el(tbX, 1), Y: el(tbY, 1), Z: el(tbZ, 1)}
		var s [32]byte
		e.ToBytes(&s)
		want := append([]byte{}, tbYbytes...)
		want[31] |= tbXbytes[0] << 7
		v.Assert(v.Eq(s[:], want), "ExtendedGroupElement.ToBytes: y and the parity of x")
		p := ed.ProjectiveGroupElement{X: el(tbX, 1), Y: el(tbY, 1), Z: el(tbZ, 1)}
		var t [32]byte
		p.ToBytes(&t)
		v.Assert(v.Eq(t[:], want), "ProjectiveGroupElement.ToBytes: y and the parity of x")
	} else {
		x, y := v.RefPoint(k)
		e := ext(point{x, y, v.RefScale(z)})
		var s, t [32]byte
		var p ed.ProjectiveGroupElement
		e.ToProjective(&p)
		e.ToBytes(&s)
		v.Assert(v.Eq(s[:], v.RefEncode(x, y)), "ExtendedGroupElement.ToBytes: y and the parity of x")
		p.ToBytes(&t)
		v.Assert(v.Eq(t[:], v.RefEncode(x, y)), "ProjectiveGroupElement.ToBytes: y and the parity of x")
	}
	v.Reach("done")
}
