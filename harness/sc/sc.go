// Package sc states the arithmetic properties of crypto/edwards25519 (C19, C20).
package sc

import (
	"strconv"

	ed "github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

func order() v.Int {
	return v.IntC("7237005577332262213973186563042994240857116359379907606001950938285454250989")
}
func prime() v.Int {
	return v.IntC("57896044618658097711785492504343953926634992332820282019728792003956564819949")
}

func arr32(name string) (a [32]byte) {
	copy(a[:], v.Bytes(name, 32))
	return
}

// H_reduce: ScReduce returns the canonical residue of every 64-byte number.
func H_reduce() {
	var in [64]byte
	copy(in[:], v.Bytes("s", 64))
	src := in
	var out [32]byte
	ed.ScReduce(&out, &in)
	v.Assert(in == src, "ScReduce leaves its input unchanged")
	o := v.IntLE(out[:])
	v.AssertCong(o, v.IntLE(src[:]), order(), "ScReduce: the result is congruent to the input modulo L")
	v.AssertLt(o, order(), "ScReduce: the result is below L")
	v.Reach("reduced")
}

// H_muladd: ScMulAdd returns the canonical residue of a*b+c.
func H_muladd() {
	a, b, c := arr32("a"), arr32("b"), arr32("c")
	a0, b0, c0 := a, b, c
	var out [32]byte
	ed.ScMulAdd(&out, &a, &b, &c)
	v.Assert(a == a0, "ScMulAdd leaves a unchanged")
	v.Assert(b == b0, "ScMulAdd leaves b unchanged")
	v.Assert(c == c0, "ScMulAdd leaves c unchanged")
	o := v.IntLE(out[:])
	v.AssertCong(o, v.IntAdd(v.IntMul(v.IntLE(a0[:]), v.IntLE(b0[:])), v.IntLE(c0[:])), order(), "ScMulAdd: the result is congruent to a*b+c modulo L")
	v.AssertLt(o, order(), "ScMulAdd: the result is below L")
	v.Reach("done")
}

// H_muladd_alias: the result may overwrite an operand.
func H_muladd_alias() {
	a, b, c := arr32("a"), arr32("b"), arr32("c")
	x, y, z := a, b, c
	want := v.IntAdd(v.IntMul(v.IntLE(a[:]), v.IntLE(b[:])), v.IntLE(c[:]))
	ed.ScMulAdd(&x, &x, &b, &c)
	v.AssertCong(v.IntLE(x[:]), want, order(), "ScMulAdd over a")
	ed.ScMulAdd(&y, &a, &y, &c)
	v.AssertCong(v.IntLE(y[:]), want, order(), "ScMulAdd over b")
	ed.ScMulAdd(&z, &a, &b, &z)
	v.AssertCong(v.IntLE(z[:]), want, order(), "ScMulAdd over c")
	v.Reach("done")
}

var orderBytes = [32]byte{0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 31: 0x10}

// H_minimal: a scalar counts as minimal exactly if it is below L.
func H_minimal() {
	s := arr32("s")
	s0 := s
	borrow := uint16(0)
	for i := range s {
		borrow = (uint16(s[i]) - uint16(orderBytes[i]) - borrow) >> 8 & 1
	}
	v.Assert(ed.ScMinimal(&s) == (borrow == 1), "ScMinimal holds exactly below L")
	v.Assert(s == s0, "ScMinimal leaves its input unchanged")
	v.Reach("done")
}

// ---- field ----

var weight = [10]int{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

// fe is a field element with limbs bounded by num/100 * 2^25 (even) and 2^24 (odd).
func fe(name string, num int64) (f ed.FieldElement) {
	for i := range f {
		b := num << 25 / 100
		if i%2 == 1 {
			b = num << 24 / 100
		}
		f[i] = v.I32In(name+strconv.Itoa(i), -b, b)
	}
	return
}

func val(f *ed.FieldElement) v.Int {
	r := v.IntC("0")
	for i := range f {
		r = v.IntAdd(r, v.IntMul(v.IntS(int64(f[i])), v.IntPow2(weight[i])))
	}
	return r
}

func bounded(f *ed.FieldElement, num int64, msg string) {
	for i := range f {
		b := num << 25 / 100
		if i%2 == 1 {
			b = num << 24 / 100
		}
		v.AssertLe(v.IntS(int64(f[i])), v.IntS(b), msg)
		v.AssertLe(v.IntS(-b), v.IntS(int64(f[i])), msg)
	}
}

func H_mul() {
	f, g := fe("f", 330), fe("g", 330)
	vf, vg := val(&f), val(&g)
	var h ed.FieldElement
	ed.FeMul(&h, &f, &g)
	v.AssertCong(val(&h), v.IntMul(vf, vg), prime(), "FeMul: the value is the product modulo p")
	bounded(&h, 110, "FeMul: result limbs stay within 1.1*2^25, 1.1*2^24")
	v.Reach("done")
}

func H_square() {
	f := fe("f", 330)
	vf := val(&f)
	var h ed.FieldElement
	ed.FeSquare(&h, &f)
	v.AssertCong(val(&h), v.IntMul(vf, vf), prime(), "FeSquare: the value is the square modulo p")
	bounded(&h, 110, "FeSquare: result limbs stay within 1.1*2^25, 1.1*2^24")
	v.Reach("done")
}

func H_square2() {
	f := fe("f", 330)
	vf := val(&f)
	var h ed.FieldElement
	ed.FeSquare2(&h, &f)
	v.AssertCong(val(&h), v.IntMul(v.IntC("2"), v.IntMul(vf, vf)), prime(), "FeSquare2: the value is twice the square modulo p")
	bounded(&h, 110, "FeSquare2: result limbs stay within 1.1*2^25, 1.1*2^24")
	v.Reach("done")
}

func H_addsub() {
	f, g := fe("f", 220), fe("g", 110)
	vf, vg := val(&f), val(&g)
	var h ed.FieldElement
	ed.FeAdd(&h, &f, &g)
	v.AssertCong(val(&h), v.IntAdd(vf, vg), prime(), "FeAdd: the value is the sum")
	bounded(&h, 330, "FeAdd: result limbs stay within the sum of the bounds")
	ed.FeSub(&h, &f, &g)
	v.AssertCong(val(&h), v.IntSub(vf, vg), prime(), "FeSub: the value is the difference")
	bounded(&h, 330, "FeSub: result limbs stay within the sum of the bounds")
	ed.FeNeg(&h, &g)
	v.AssertCong(val(&h), v.IntSub(v.IntC("0"), vg), prime(), "FeNeg: the value is the negation")
	bounded(&h, 110, "FeNeg: result limbs stay within the bounds")
	v.Reach("done")
}

// H_alias: results may overwrite operands, as the callers do.
func H_alias() {
	f, g := fe("f", 330), fe("g", 330)
	vf, vg := val(&f), val(&g)
	h, k, l, m := f, g, f, f
	ed.FeMul(&h, &h, &g)
	v.AssertCong(val(&h), v.IntMul(vf, vg), prime(), "FeMul over its first operand")
	ed.FeMul(&k, &f, &k)
	v.AssertCong(val(&k), v.IntMul(vf, vg), prime(), "FeMul over its second operand")
	ed.FeMul(&l, &l, &l)
	v.AssertCong(val(&l), v.IntMul(vf, vf), prime(), "FeMul of an element by itself over itself")
	ed.FeSquare(&m, &m)
	v.AssertCong(val(&m), v.IntMul(vf, vf), prime(), "FeSquare over its operand")
	m = f
	ed.FeSquare2(&m, &m)
	v.AssertCong(val(&m), v.IntMul(v.IntC("2"), v.IntMul(vf, vf)), prime(), "FeSquare2 over its operand")
	v.Reach("done")
}

func H_alias_add() {
	f, g := fe("f", 165), fe("g", 165)
	vf, vg := val(&f), val(&g)
	h := f
	ed.FeAdd(&h, &h, &g)
	v.AssertCong(val(&h), v.IntAdd(vf, vg), prime(), "FeAdd over its first operand")
	h = g
	ed.FeAdd(&h, &f, &h)
	v.AssertCong(val(&h), v.IntAdd(vf, vg), prime(), "FeAdd over its second operand")
	h = f
	ed.FeSub(&h, &h, &g)
	v.AssertCong(val(&h), v.IntSub(vf, vg), prime(), "FeSub over its first operand")
	h = g
	ed.FeSub(&h, &f, &h)
	v.AssertCong(val(&h), v.IntSub(vf, vg), prime(), "FeSub over its second operand")
	h = f
	ed.FeNeg(&h, &h)
	v.AssertCong(val(&h), v.IntSub(v.IntC("0"), vf), prime(), "FeNeg over its operand")
	v.Reach("done")
}

func limbs(name string) (f ed.FieldElement) {
	for i := range f {
		f[i] = int32(v.U32(name + strconv.Itoa(i)))
	}
	return
}

// H_move: the constant elements, copying and the conditional move, for any limbs.
func H_move() {
	f, g := limbs("f"), limbs("g")
	h := f
	ed.FeCMove(&h, &g, 0)
	v.Assert(h == f, "FeCMove with 0 keeps the element")
	ed.FeCMove(&h, &g, 1)
	v.Assert(h == g, "FeCMove with 1 replaces the element")
	h = f
	ed.FeCopy(&h, &g)
	v.Assert(h == g, "FeCopy copies")
	ed.FeZero(&h)
	v.Assert(h == ed.FieldElement{}, "FeZero is 0")
	h = f
	ed.FeOne(&h)
	v.Assert(h == ed.FieldElement{1}, "FeOne is 1")
	v.Reach("done")
}

var stored []byte

// StoreBytes stands for FeToBytes (whose result is the canonical residue, H_to).
func StoreBytes(s *[32]byte, h *ed.FieldElement) { copy(s[:], stored) }

// H_predicates: the sign is the lowest bit of the canonical residue, and an element counts
// as nonzero exactly if some byte of it is.
func H_predicates() {
	stored = v.Bytes("s", 32)
	var f ed.FieldElement
	if !v.Symbolic() {
		var s [32]byte
		copy(s[:], stored)
		ed.FeFromBytes(&f, &s)
		v.Assume(s[31] < 127) // below p
	}
	v.Assert(ed.FeIsNegative(&f) == stored[0]&1, "FeIsNegative is the lowest bit of the canonical residue")
	var or byte
	for _, b := range stored {
		or |= b
	}
	v.Assert((ed.FeIsNonZero(&f) == 1) == (or != 0) && (ed.FeIsNonZero(&f) == 0) == (or == 0), "FeIsNonZero is 0 for zero and 1 otherwise")
	v.Reach("done")
}

func H_from() {
	s := arr32("s")
	s0 := s
	var h ed.FieldElement
	ed.FeFromBytes(&h, &s)
	v.Assert(s == s0, "FeFromBytes leaves its input unchanged")
	lo := s0
	lo[31] &= 127
	v.AssertCong(val(&h), v.IntLE(lo[:]), prime(), "FeFromBytes: the value is the low 255 bits of the input")
	bounded(&h, 110, "FeFromBytes: result limbs stay within 1.1*2^25, 1.1*2^24")
	v.Reach("done")
}

func H_to() { to(110) }

// H_to_wide: sums and differences of a few elements, as point decoding compares them.
func H_to_wide() { to(330) }

func to(limit int64) {
	h := fe("h", limit)
	vh := val(&h)
	var s [32]byte
	ed.FeToBytes(&s, &h)
	o := v.IntLE(s[:])
	v.AssertCong(o, vh, prime(), "FeToBytes: the result is congruent to the value modulo p")
	v.AssertLt(o, prime(), "FeToBytes: the result is the canonical residue")
	v.AssertCong(val(&h), vh, prime(), "FeToBytes: the element keeps its value")
	v.Reach("done")
}
