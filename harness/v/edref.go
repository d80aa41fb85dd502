package v

import "math/big"

// Reference Ed25519 arithmetic on big integers (RFC 8032), for native replays.

func bigHex(s string) *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }

func edOrder() *big.Int {
	return bigHex("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
}

func fromLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func toLE(n *big.Int) []byte {
	out := make([]byte, 32)
	b := n.Bytes()
	for i := range b {
		if len(b)-1-i < 32 {
			out[len(b)-1-i] = b[i]
		}
	}
	return out
}

func edBaseMul(k *big.Int) []byte {
	x, y := edMulAffine(k)
	out := toLE(y)
	out[31] |= byte(x.Bit(0)) << 7
	return out
}

// edMulAffine is the affine point k*B.
func edMulAffine(k *big.Int) (*big.Int, *big.Int) {
	p := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	d := bigHex("52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3")
	mul := func(a, b *big.Int) *big.Int { c := new(big.Int).Mul(a, b); return c.Mod(c, p) }
	one := big.NewInt(1)
	type pt struct{ x, y *big.Int }
	add := func(a, b pt) pt {
		xy := mul(mul(a.x, b.x), mul(a.y, b.y))
		t := mul(d, xy)
		nx := new(big.Int).Add(mul(a.x, b.y), mul(a.y, b.x))
		ny := new(big.Int).Add(mul(a.y, b.y), mul(a.x, b.x))
		dx := new(big.Int).Mod(new(big.Int).Add(one, t), p)
		dy := new(big.Int).Mod(new(big.Int).Sub(one, t), p)
		return pt{mul(nx, new(big.Int).ModInverse(dx, p)), mul(ny, new(big.Int).ModInverse(dy, p))}
	}
	base := pt{bigHex("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a"), bigHex("6666666666666666666666666666666666666666666666666666666666666658")}
	acc := pt{big.NewInt(0), big.NewInt(1)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc = add(acc, acc)
		if k.Bit(i) == 1 {
			acc = add(acc, base)
		}
	}
	return acc.x, acc.y
}

// edRef computes the named group or scalar function.
func edRef(alg string, parts [][]byte) []byte {
	switch alg {
	case "ed-basemul":
		return edBaseMul(fromLE(parts[0]))
	case "ed-reduce":
		return toLE(new(big.Int).Mod(fromLE(parts[0]), edOrder()))
	case "ed-muladd":
		n := new(big.Int).Mul(fromLE(parts[0]), fromLE(parts[1]))
		n.Add(n, fromLE(parts[2]))
		return toLE(n.Mod(n, edOrder()))
	}
	return nil
}
