// Package keys states the key and hash properties.
package keys

import (
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	_ "github.com/fivebinaries/go-cardano-serialization/zz_verif/ed"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

// key is an arbitrary extended private key, with the top bit of the scalar clear.
func key(name string) []byte {
	k := v.Bytes(name, 96)
	v.Assume(k[31] < 128)
	return k
}

func pub(k []byte) []byte { return v.HashUF("ed-basemul", 32, k[:32]) }

func hmac(key, data []byte) []byte { return v.HashUF("hmac-sha512", 64, key, data) }

// addLE is x + y mod 2^(8*len(x)) on little-endian numbers (y zero-extended).
func addLE(x, y []byte) []byte {
	out := make([]byte, len(x))
	c := uint64(0)
	for i := range x {
		s := uint64(x[i]) + c
		if i < len(y) {
			s += uint64(y[i])
		}
		out[i] = byte(s)
		c = s >> 8
	}
	return out
}

// mul8 is 8*x on 28 little-endian bytes, as 29 bytes.
func mul8(x []byte) []byte {
	out := make([]byte, 29)
	c := byte(0)
	for i := 0; i < 28; i++ {
		out[i] = x[i]<<3 | c
		c = x[i] >> 5
	}
	out[28] = c
	return out
}

func child(k []byte, idx uint32, hard bool) []byte {
	ser := []byte{byte(idx), byte(idx >> 8), byte(idx >> 16), byte(idx >> 24)}
	var z, c []byte
	if hard {
		z = hmac(k[64:], cat([]byte{0}, k[:64], ser))
		c = hmac(k[64:], cat([]byte{1}, k[:64], ser))
	} else {
		z = hmac(k[64:], cat([]byte{2}, pub(k), ser))
		c = hmac(k[64:], cat([]byte{3}, pub(k), ser))
	}
	return cat(addLE(k[:32], mul8(z[:28])), addLE(k[32:64], z[32:]), c[32:])
}

// ---- C16 ----

// room is b as the beginning of a longer buffer; kept says whether the rest is untouched.
func room(b []byte) []byte { return append(clone(b), 1, 2, 3, 4, 5, 6, 7, 8)[:len(b)] }

func kept(b []byte) bool { return v.Eq(b[len(b):len(b)+8], []byte{1, 2, 3, 4, 5, 6, 7, 8}) }

func derived(hard bool) {
	k := room(key("k"))
	idx := v.U32("i")
	v.Assume((idx >= 1<<31) == hard)
	orig := clone(k)
	ch := bip32.XPrv(k).Derive(idx)
	v.Assert(len(ch) == 96, "child is a 96-byte key")
	v.Observe("child", ch)
	want := child(orig, idx, hard)
	for i := 0; i < 96; i++ {
		v.Assert(ch[i] == want[i], "child key is the BIP32-Ed25519 one")
	}
	v.Assert(v.Eq(k, orig), "parent key is unchanged")
	v.Assert(kept(k), "what follows the parent key is unchanged")
	v.Reach("end")
}

func H_derive_hard() { derived(true) }
func H_derive_soft() { derived(false) }

// H_derive_path: deriving twice from the same parent and deriving from a child.
func H_derive_path() {
	k := key("k")
	i, j := v.U32("i"), v.U32("j")
	hi, hj := v.Choose("hi", 2) == 1, v.Choose("hj", 2) == 1
	v.Assume(v.And((i >= 1<<31) == hi, (j >= 1<<31) == hj))
	orig := clone(k)
	a := bip32.XPrv(k).Derive(i)
	saved := clone(a)
	b := bip32.XPrv(k).Derive(j)
	a2 := bip32.XPrv(k).Derive(i)
	v.Assert(v.And(len(a) == 96, len(b) == 96, len(a2) == 96), "children are 96-byte keys")
	v.Assert(v.Eq(k, orig), "parent key is unchanged")
	v.Assert(v.Eq(a, saved), "a derived key is not changed by deriving another")
	v.Assert(v.Eq(a, a2), "deriving again gives the same key")
	v.Assert(v.Eq(b[64:], child(orig, j, hj)[64:]), "sibling chain code")
	c := a.Derive(j)
	v.Assert(len(c) == 96, "grandchild is a 96-byte key")
	v.Assert(v.Eq(a, saved), "child key is unchanged by deriving from it")
	v.Assert(v.Eq(c[64:], child(saved, j, hj)[64:]), "grandchild chain code")
	v.Reach("end")
}

// H_derive_two: children of two keys, which may share parts, are each their own.
func H_derive_two() {
	k, l := key("k"), key("l")
	i, j := v.U32("i"), v.U32("j")
	hi, hj := v.Choose("hi", 2) == 1, v.Choose("hj", 2) == 1
	v.Assume(v.And((i >= 1<<31) == hi, (j >= 1<<31) == hj))
	a := bip32.XPrv(k).Derive(i)
	b := bip32.XPrv(l).Derive(j)
	v.Assert(v.And(len(a) == 96, len(b) == 96), "children are 96-byte keys")
	v.Assert(v.Eq(a, child(k, i, hi)), "child key is its own")
	v.Assert(v.Eq(b, child(l, j, hj)), "the other key's child is its own")
	v.Reach("end")
}

// H_public: the public half of a key is its public key and chain code.
func H_public() {
	k := key("k")
	orig := clone(k)
	p := bip32.XPrv(k).Public()
	v.Assert(v.Eq(p, cat(pub(orig), orig[64:])), "public key and chain code")
	v.Assert(v.Eq(p.PublicKey(), pub(orig)), "public key")
	v.Assert(v.Eq(p.ChainCode(), orig[64:]), "chain code of the public half")
	v.Assert(v.Eq(bip32.XPrv(k).ChainCode(), orig[64:]), "chain code")
	m := bip32.MakePublicKey(k)
	v.Assert(v.Eq(m[:], pub(orig)), "public key of the secret")
	v.Assert(v.Eq(k, orig), "key is unchanged")
	v.Reach("end")
}

// H_public_keep: a public half stays when others are computed or keys derived.
func H_public_keep() {
	k, l := key("k"), key("l")
	p := bip32.XPrv(k).Public()
	pk := p.PublicKey()
	q := bip32.XPrv(l).Public()
	v.Assert(v.Eq(q, cat(pub(l), l[64:])), "the other key's public half is its own")
	bip32.XPrv(l).Derive(v.U32("i") | 1<<31)
	v.Assert(v.Eq(p, cat(pub(k), k[64:])), "a public half is not changed by computing another")
	v.Assert(v.Eq(pk, pub(k)), "a public key is not changed by computing another")
	v.Reach("end")
}

// ---- C17 ----

// H_root_keep: a root key stays when others are made.
func H_root_keep() {
	s, t := v.Bytes("s", 32), v.Bytes("t", 32)
	a, err := bip32.NewXPrv(s)
	v.Assert(err == nil, "a 32-byte seed is accepted")
	e := bip32.FromBip39Entropy(s, t)
	a0, e0 := clone(a), clone(e)
	b, err := bip32.NewXPrv(t)
	v.Assert(err == nil, "another seed is accepted")
	v.Assert(v.Eq(b, cat(clamp(v.HashUF("sha512", 64, t)), v.HashUF("sha256", 32, cat([]byte{1}, t)))), "the other seed has its own key")
	p := v.Bytes("p", 8)
	f, g, h := bip32.FromBip39Entropy(t, s), bip32.FromBip39Entropy(s, p), bip32.FromBip39Entropy(p, t)
	v.Assert(v.Eq(f, clamp(v.HashUF("pbkdf2-sha512-4096", 96, s, t))), "another entropy and password have their own key")
	v.Assert(v.Eq(g, clamp(v.HashUF("pbkdf2-sha512-4096", 96, p, s))), "another password has its own key")
	v.Assert(v.Eq(h, clamp(v.HashUF("pbkdf2-sha512-4096", 96, t, p))), "another entropy has its own key")
	v.Assert(v.And(v.Eq(a, a0), v.Eq(e, e0)), "a root key is not changed by making another")
	v.Reach("end")
}

func clamp(h []byte) []byte {
	out := clone(h)
	out[0] = out[0] &^ 7
	out[31] = out[31]&0x1f | 0x40
	return out
}

// H_seed: every 32-byte seed, and other lengths.
func H_seed() {
	n := v.Choose("n", 66)
	seed := v.Bytes("seed", n)
	orig := clone(seed)
	k, err := bip32.NewXPrv(seed)
	v.Assert(v.Eq(seed, orig), "seed is unchanged")
	if n != 32 {
		v.Assert(err != nil, "seeds of another length are refused")
		v.Reach("refused")
		return
	}
	v.Assert(err == nil, "a 32-byte seed is accepted")
	v.Observe("key", k)
	v.Assert(v.Eq(k, cat(clamp(v.HashUF("sha512", 64, orig)), v.HashUF("sha256", 32, cat([]byte{1}, orig)))), "root key of a seed")
	v.Reach("end")
}

// H_seed_cap: a seed that is part of a longer buffer leaves the buffer alone.
func H_seed_cap() {
	buf := v.Bytes("buf", 100)
	orig := clone(buf)
	k, err := bip32.NewXPrv(buf[10:42])
	v.Assert(err == nil, "a 32-byte seed is accepted")
	v.Assert(v.Eq(buf, orig), "buffer around the seed is unchanged")
	v.Assert(v.Eq(k, cat(clamp(v.HashUF("sha512", 64, orig[10:42])), v.HashUF("sha256", 32, cat([]byte{1}, orig[10:42])))), "root key of a seed")
	v.Reach("end")
}

// H_entropy: entropies and passwords of every length up to the bound.
func H_entropy() {
	e := v.Bytes("e", []int{1, 16, 20, 24, 28, 32, 40}[v.Choose("ne", 7)])
	p := v.Bytes("p", []int{0, 1, 7, 40, 130}[v.Choose("np", 5)])
	oe, op := clone(e), clone(p)
	e, p = room(e), room(p)
	k := bip32.FromBip39Entropy(e, p)
	v.Assert(len(k) == 96, "root key is 96 bytes")
	v.Observe("key", k)
	v.Assert(v.Eq(k, clamp(v.HashUF("pbkdf2-sha512-4096", 96, op, oe))), "root key of an entropy")
	v.Assert(v.And(v.Eq(e, oe), v.Eq(p, op)), "entropy and password are unchanged")
	v.Assert(kept(e) && kept(p), "what follows entropy and password is unchanged")
	v.Reach("end")
}

// H_clamp: the clamped bits and no others.
func H_clamp() {
	b := v.Bytes("b", 96)
	orig := clone(b)
	k := bip32.NormalizeBytesForce3rd(b)
	v.Assert(v.Eq(k, clamp(orig)), "clamping")
	v.Assert(v.And(k[0]&7 == 0, k[31]&0xe0 == 0x40), "clamped bits")
	v.Reach("end")
}

// ---- C18 ----

func signature(k, m []byte) []byte {
	r := v.HashUF("ed-reduce", 32, v.HashUF("sha512", 64, cat(k[32:64], m)))
	rb := v.HashUF("ed-basemul", 32, r)
	h := v.HashUF("ed-reduce", 32, v.HashUF("sha512", 64, cat(rb, pub(k), m)))
	return cat(rb, v.HashUF("ed-muladd", 32, h, k[:32], r))
}

func signs(n int) {
	k := key("k")
	whole := v.Bytes("m", n+8)
	all := clone(whole)
	m, om := whole[:n], all[:n]
	ok := clone(k)
	x := bip32.XPrv(k)
	s := x.Sign(m)
	v.Observe("sig", s[:])
	v.Assert(v.Eq(s[:], signature(ok, om)), "signature is R || S of RFC 8032")
	v.Assert(v.Eq(x.Public()[:32], pub(ok)), "public key is the encoded base multiple of the scalar")
	v.Assert(v.And(v.Eq(k, ok), v.Eq(whole, all)), "key, message and what follows it are unchanged")
	s2 := x.Sign(m)
	v.Assert(v.Eq(s[:], s2[:]), "signing is deterministic")
	v.Reach("end")
}

func H_sign()       { signs([]int{0, 1, 31, 32, 33, 64, 100}[v.Choose("n", 7)]) }
func H_sign_block() { signs([]int{96, 128, 192, 256, 300, 513, 1000, 1025, 4097}[v.Choose("n", 9)]) }

// H_sign_nil: signing nothing.
// H_sign_two: two signatures by keys and of messages that may share parts are each their own.
func H_sign_two() {
	k, l := bip32.XPrv(key("k")), bip32.XPrv(key("l"))
	m, n := v.Bytes("m", 32), v.Bytes("n", []int{32, 33}[v.Choose("len", 2)])
	s := k.Sign(m)
	t := l.Sign(n)
	u := k.Sign(n)
	v.Assert(v.Eq(s[:], signature(k, m)), "the first signature is its own")
	v.Assert(v.Eq(t[:], signature(l, n)), "the signature by another key is its own")
	v.Assert(v.Eq(u[:], signature(k, n)), "the signature of another message is its own")
	v.Reach("end")
}

func H_sign_nil() {
	k := key("k")
	x := bip32.XPrv(k)
	s := x.Sign(nil)
	v.Assert(v.Eq(s[:], signature(k, nil)), "signature of the empty message")
	v.Reach("end")
}

// ---- C22 ----

// from calls the n-th constructor.
func from(n int, b []byte) ([]byte, error) {
	switch n {
	case 0:
		h, err := crypto.Ed25519KeyHashFromBytes(b)
		return h[:], err
	case 1:
		h, err := crypto.ScriptHashFromBytes(b)
		return h[:], err
	case 2:
		h, err := crypto.TransactionHashFromBytes(b)
		return h[:], err
	case 3:
		h, err := crypto.GenesisDelegateHashFromBytes(b)
		return h[:], err
	case 4:
		h, err := crypto.GenesisHashFromBytes(b)
		return h[:], err
	case 5:
		h, err := crypto.MetadataHashFromBytes(b)
		return h[:], err
	case 6:
		h, err := crypto.VRFKeyHashFromBytes(b)
		return h[:], err
	case 7:
		h, err := crypto.BlockHashFromBytes(b)
		return h[:], err
	case 8:
		h, err := crypto.VRFVKeyFromBytes(b)
		return h[:], err
	}
	h, err := crypto.KESVKeyFromBytes(b)
	return h[:], err
}

// H_from: every constructor on every length up to 66.
func H_from() {
	c := v.Choose("c", 10)
	n := v.Choose("n", 67)
	b := v.Bytes("b", n)
	orig := clone(b)
	if n == 0 && v.Bool("nil") {
		b = nil
	}
	h, err := from(c, b)
	want := []int{28, 28, 32, 28, 28, 32, 32, 32, 32, 32}[c]
	v.Assert((err == nil) == (n == want), "exactly its length is accepted")
	if n == want {
		v.Assert(v.Eq(h, orig), "holds the given bytes")
		b[0] ^= 1
		b[n-1] ^= 1
		v.Assert(v.Eq(h, orig), "holds a copy of the bytes")
		v.Reach("accepted")
	} else {
		v.Reach("refused")
	}
}

// H_hash: the hash helpers on every length up to the bound.
// H_hash_two: digests of two messages are each their own; so are values built from bytes.
func H_hash_two() {
	b, c := v.Bytes("b", 32), v.Bytes("c", []int{28, 32, 33}[v.Choose("n", 3)])
	x, y := crypto.Blake2b224(b), crypto.Blake2b224(c)
	p, q := crypto.Blake2b256(b), crypto.Blake2b256(c)
	v.Assert(v.And(v.Eq(x[:], v.HashUF("blake2b", 28, nil, b)), v.Eq(y[:], v.HashUF("blake2b", 28, nil, c))), "BLAKE2b-224 of each")
	v.Assert(v.And(v.Eq(p[:], v.HashUF("blake2b", 32, nil, b)), v.Eq(q[:], v.HashUF("blake2b", 32, nil, c))), "BLAKE2b-256 of each")
	f, g := bip32.PublicKey(b).Hash(), bip32.PublicKey(c).Hash()
	v.Assert(v.And(v.Eq(f[:], x[:]), v.Eq(g[:], y[:])), "public key hash of each")
	v.Reach("end")
}

// H_from_two: values of one type built from different bytes are each their own.
func H_from_two() {
	n := v.Choose("which", 10)
	w := []int{28, 28, 32, 28, 28, 32, 32, 32, 32, 32}[n]
	b, c := v.Bytes("b", w), v.Bytes("c", w)
	x, err := from(n, b)
	v.Assert(err == nil, "accepted")
	y, err := from(n, c)
	v.Assert(err == nil, "accepted again")
	_, err = from(n, c[1:])
	v.Assert(err != nil, "a shorter one is still refused")
	v.Assert(v.And(v.Eq(x, b), v.Eq(y, c)), "each holds its bytes")
	v.Reach("end")
}

func H_hash() {
	n := []int{0, 1, 27, 28, 29, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 300, 512, 1000, 1025, 4097}[v.Choose("n", 20)]
	whole := v.Bytes("b", n+8)
	all := clone(whole)
	b, orig := whole[:n], all[:n]
	if n == 0 {
		b = nil
	}
	h224, h256 := crypto.Blake2b224(b), crypto.Blake2b256(b)
	v.Assert(v.Eq(h224[:], v.HashUF("blake2b", 28, nil, orig)), "BLAKE2b-224 of the data")
	v.Assert(v.Eq(h256[:], v.HashUF("blake2b", 32, nil, orig)), "BLAKE2b-256 of the data")
	h224b := crypto.Blake2b224(b)
	v.Assert(v.Eq(h224[:], h224b[:]), "hashing again gives the same digest")
	v.Assert(v.Eq(whole, all), "data and what follows it are unchanged")
	ph := bip32.PublicKey(b).Hash()
	v.Assert(v.Eq(ph[:], h224[:]), "public key hash")
	v.Reach("end")
}
