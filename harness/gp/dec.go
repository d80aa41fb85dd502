package gp

import (
	ed "github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

// ---- decoding ----

var (
	deY, deU, deV, deW v.Int
	deBytes            [32]byte
	deZero             []bool // what the zero tests said
	deSign             byte
	deSigned           v.Int
	deSigns            int
)

func DFromBytes(h *ed.FieldElement, s *[32]byte) {
	v.Assert(*s == deBytes, "FromBytes: y is read from the encoding")
	*h = el(deY, 1)
}

func DToBytes(s *[32]byte, h *ed.FieldElement) {}

// DPow stands for fePow22523: an indeterminate.
func DPow(out, z *ed.FieldElement) {
	in3(z, "fePow22523")
	v.AssertCong(val(z), mul(deU, deV, deV, deV, deV, deV, deV, deV), prime(), "FromBytes: the power is taken of u*v^7")
	*out = el(deW, 1)
}

func deRoot() v.Int { return mul(deU, deV, deV, deV, deW) }

// DIsNonZero: the first question is whether v*x^2 = u, the second whether v*x^2 = -u.
func DIsNonZero(f *ed.FieldElement) int32 {
	v.Assert(bnd(f) <= 3, "FeIsNonZero is given an element within 3.3*2^25, 3.3*2^24")
	want := mul(deV, deRoot(), deRoot())
	switch len(deZero) {
	case 0:
		want = sub(want, deU)
	case 1:
		want = add(want, deU)
	default:
		v.Unsupported("more than two zero tests")
	}
	v.AssertCong(mul(val(f), val(f)), mul(want, want), prime(), "FromBytes: the root is compared with u/v and with -u/v")
	z := v.Bool([]string{"eq", "eqneg"}[len(deZero)])
	deZero = append(deZero, z)
	if z {
		return 0
	}
	return 1
}

func DIsNegative(f *ed.FieldElement) byte {
	v.Assert(bnd(f) <= 3, "FeIsNegative is given an element within 3.3*2^25, 3.3*2^24")
	deSigned, deSigns = val(f), deSigns+1
	deSign = 0
	if v.Bool("sign") {
		deSign = 1
	}
	return deSign
}

// H_frombytes: an encoding is decoded to (x, y) with x the root of u/v = (y^2-1)/(d*y^2+1)
// of the wanted parity, and refused exactly if the candidate root fits neither u/v nor -u/v
// (for p = 5 mod 8 that means that there is no root).
func H_frombytes() {
	s, k := v.Bytes("s", 32), v.Bytes("k", 32)
	var in [32]byte
	copy(in[:], s)
	if v.Symbolic() {
		deBytes, deZero, deSigns = in, nil, 0
		deY, deW = v.IntVar("y"), v.IntVar("w")
		deU, deV = sub(mul(deY, deY), one()), add(mul(dconst(), deY, deY), one())
		v.AssertCong(mul(val(&ed.SqrtM1), val(&ed.SqrtM1)), v.IntC("-1"), prime(), "SqrtM1 is a root of -1")
		v.Assert(bnd(&ed.SqrtM1) <= 1, "SqrtM1 is reduced")
		var e ed.ExtendedGroupElement
		ok := e.FromBytes(&in)
		v.Assert(in == deBytes, "FromBytes leaves its input unchanged")
		v.Assert(len(deZero) > 0 && (deZero[0] || len(deZero) > 1), "FromBytes: the root is compared with u/v and with -u/v")
		v.Assert(ok == (deZero[0] || deZero[1]), "FromBytes: refused exactly if there is no root")
		if !ok {
			v.Reach("refused")
			return
		}
		x := deRoot()
		if !deZero[0] {
			x = mul(x, val(&ed.SqrtM1))
		}
		v.Assert(deSigns == 1, "FromBytes: the sign is asked for once")
		v.AssertCong(deSigned, x, prime(), "FromBytes: the sign compared is the root's")
		if deSign != s[31]>>7 {
			x = sub(v.IntC("0"), x)
		}
		v.AssertCong(val(&e.X), x, prime(), "FromBytes: x is the root of the encoded parity")
		v.AssertCong(val(&e.Y), deY, prime(), "FromBytes: y is the encoded one")
		v.AssertCong(val(&e.Z), one(), prime(), "FromBytes: Z is 1")
		v.AssertCong(val(&e.T), mul(val(&e.X), val(&e.Y)), prime(), "FromBytes: T = XY")
		v.Assert(bnd(&e.X) <= 1 && bnd(&e.Y) <= 1 && bnd(&e.Z) <= 1 && bnd(&e.T) <= 1, "FromBytes: reduced limbs")
		v.Reach("decoded")
		return
	}
	px, py := v.RefPoint(k)
	var q [32]byte
	copy(q[:], v.RefEncode(px, py))
	for _, b := range [][32]byte{in, q} {
		b0 := b
		var e ed.ExtendedGroupElement
		ok := e.FromBytes(&b)
		v.Assert(b == b0, "FromBytes leaves its input unchanged")
		x, y, is := v.RefDecode(b0[:])
		v.Assert(ok == is, "FromBytes: refused exactly if there is no root")
		if ok {
			v.AssertCong(val(&e.X), x, prime(), "FromBytes: x is the root of the encoded parity")
			v.AssertCong(val(&e.Y), y, prime(), "FromBytes: y is the encoded one")
			v.AssertCong(val(&e.Z), one(), prime(), "FromBytes: Z is 1")
			v.AssertCong(val(&e.T), mul(x, y), prime(), "FromBytes: T = XY")
		}
	}
}
