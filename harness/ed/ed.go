// Package ed holds stand-ins for the group and scalar functions of
// crypto/edwards25519, used while the code that calls them is executed
// symbolically: each is the (uninterpreted) mathematical function. That the
// real functions compute them is the subject of C19 to C21.
package ed

import (
	"github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

const mark = 0x5eed

// GeScalarMultBase records the scalar in the point's limbs.
func GeScalarMultBase(h *edwards25519.ExtendedGroupElement, a *[32]byte) {
	for i := 0; i < 10; i++ {
		h.X[i] = int32(a[i])
		h.Y[i] = int32(a[10+i])
		h.Z[i] = int32(a[20+i])
	}
	h.T[0], h.T[1], h.T[2] = int32(a[30]), int32(a[31]), mark
}

// ToBytes encodes a point made by GeScalarMultBase.
func ToBytes(h *edwards25519.ExtendedGroupElement, s *[32]byte) {
	if h.T[2] != mark {
		v.Unsupported("encoding of a point that is not a base multiple")
	}
	a := make([]byte, 32)
	for i := 0; i < 10; i++ {
		a[i] = byte(h.X[i])
		a[10+i] = byte(h.Y[i])
		a[20+i] = byte(h.Z[i])
	}
	a[30], a[31] = byte(h.T[0]), byte(h.T[1])
	copy(s[:], v.HashUF("ed-basemul", 32, a))
}

func ScReduce(out *[32]byte, s *[64]byte) {
	copy(out[:], v.HashUF("ed-reduce", 32, s[:]))
}

func ScMulAdd(s, a, b, c *[32]byte) {
	copy(s[:], v.HashUF("ed-muladd", 32, a[:], b[:], c[:]))
}
