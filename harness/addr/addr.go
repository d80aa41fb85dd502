// Package addr states the address properties.
package addr

import (
	"encoding/hex"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

func net(name string) *network.NetworkInfo {
	if v.Bool(name) {
		return network.MainNet()
	}
	return network.TestNet()
}

func netByte(n *network.NetworkInfo) byte { return n.NetworkId }

// cred is an arbitrary key or script credential.
func cred(name string) *address.StakeCredential {
	h := v.Bytes(name, 28)
	if v.Bool(name + ".script") {
		return address.NewScriptStakeCredential(h)
	}
	return address.NewKeyStakeCredential(h)
}

func kindBit(name string, sh uint) byte {
	if v.Bool(name + ".script") {
		return 1 << sh
	}
	return 0
}

func networkBit(name string) byte {
	if v.Bool(name) {
		return 1
	}
	return 0
}

// sameNet says that the decoded address reports the network it was built for.
func sameNet(a address.Address, name string) bool {
	n := a.NetworkInfo()
	if n == nil {
		return false
	}
	if v.Bool(name) {
		return v.And(n.NetworkId == 1, n.ProtocolMagic == 764824073)
	}
	return v.And(n.NetworkId == 0, n.ProtocolMagic == 1097911063)
}

func sameCred(c *address.StakeCredential, name string) bool {
	return v.And(v.Eq(c.Payload, v.Bytes(name, 28)), v.Bool(name+".script") == (c.Kind == address.ScriptStakeCredentialType),
		v.Or(c.Kind == address.ScriptStakeCredentialType, c.Kind == address.KeyStakeCredentialType))
}

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// ---- C01: binary layout and round trip ----

func H_base() {
	a := address.NewBaseAddress(net("net"), cred("pay"), cred("stake"))
	b := a.Bytes()
	v.Observe("b", b)
	h := kindBit("pay", 4) | kindBit("stake", 5) | networkBit("net")
	v.Assert(v.Eq(b, cat([]byte{h}, v.Bytes("pay", 28), v.Bytes("stake", 28))), "base address layout")
	d, err := address.NewAddressFromBytes(b)
	v.Assert(err == nil, "base address decodes")
	db, ok := d.(*address.BaseAddress)
	v.Assert(ok, "base address decodes to a base address")
	v.Assert(sameCred(&db.Payment, "pay"), "payment credential kept")
	v.Assert(sameCred(&db.Stake, "stake"), "stake credential kept")
	v.Assert(sameNet(d, "net"), "network kept")
	v.Assert(v.Eq(d.Bytes(), b), "re-encoding")
	v.Reach("end")
}

func H_enterprise() {
	a := address.NewEnterpriseAddress(net("net"), cred("pay"))
	b := a.Bytes()
	v.Observe("b", b)
	v.Assert(v.Eq(b, cat([]byte{0x60 | kindBit("pay", 4) | networkBit("net")}, v.Bytes("pay", 28))), "enterprise address layout")
	d, err := address.NewAddressFromBytes(b)
	v.Assert(err == nil, "enterprise address decodes")
	db, ok := d.(*address.EnterpriseAddress)
	v.Assert(ok, "enterprise address decodes to an enterprise address")
	v.Assert(sameCred(&db.Payment, "pay"), "payment credential kept")
	v.Assert(sameNet(d, "net"), "network kept")
	v.Assert(v.Eq(d.Bytes(), b), "re-encoding")
	v.Reach("end")
}

func H_reward() {
	a := address.NewRewardAddress(net("net"), cred("stake"))
	b := a.Bytes()
	v.Observe("b", b)
	v.Assert(v.Eq(b, cat([]byte{0xe0 | kindBit("stake", 4) | networkBit("net")}, v.Bytes("stake", 28))), "reward address layout")
	d, err := address.NewAddressFromBytes(b)
	v.Assert(err == nil, "reward address decodes")
	db, ok := d.(*address.RewardAddress)
	v.Assert(ok, "reward address decodes to a reward address")
	v.Assert(sameCred(&db.Stake, "stake"), "stake credential kept")
	v.Assert(sameNet(d, "net"), "network kept")
	v.Assert(v.Eq(d.Bytes(), b), "re-encoding")
	v.Reach("end")
}

// varnat is the reference encoding: base 128, most significant group first,
// continuation bit on all but the last, no leading zero group.
func varnat(n uint64) []byte {
	groups := 1
	for groups < 10 && n>>(7*uint(groups)) != 0 {
		groups++
	}
	var out []byte
	for i := groups - 1; i >= 0; i-- {
		b := byte(n>>(7*uint(i))) & 0x7f
		if i > 0 {
			b |= 0x80
		}
		out = append(out, b)
	}
	return out
}

func pointer(slot, tx, cert uint64) {
	a := address.NewPointerAddress(*net("net"), *cred("pay"), *address.NewPointer(slot, tx, cert))
	b := a.Bytes()
	v.Observe("b", b)
	v.Assert(v.Eq(b, cat([]byte{0x40 | kindBit("pay", 4) | networkBit("net")}, v.Bytes("pay", 28), varnat(slot), varnat(tx), varnat(cert))), "pointer address layout")
	d, err := address.NewAddressFromBytes(b)
	v.Assert(err == nil, "pointer address decodes")
	db, ok := d.(*address.PointerAddress)
	v.Assert(ok, "pointer address decodes to a pointer address")
	v.Assert(sameCred(&db.Payment, "pay"), "payment credential kept")
	v.Assert(v.And(db.Stake.Slot == slot, db.Stake.TxIndex == tx, db.Stake.CertIndex == cert), "chain pointer kept")
	v.Assert(sameNet(d, "net"), "network kept")
	v.Assert(v.Eq(d.Bytes(), b), "re-encoding")
	v.Reach("end")
}

// nat is an arbitrary number that takes lo to hi groups of 7 bits.
func nat(name string, lo, hi int) uint64 {
	n := v.U64(name)
	k := lo
	if hi > lo {
		k += v.Choose(name+".groups", hi-lo+1)
	}
	if k < 10 {
		v.Assume(n>>(7*uint(k)) == 0)
	}
	if k > 1 {
		v.Assume(n>>(7*uint(k-1)) != 0)
	}
	return n
}

// H_pointer: slots below 2^35, indexes below 2^21.
func H_pointer() {
	slot, tx, cert := nat("slot", 1, 5), nat("tx", 1, 3), nat("cert", 1, 3)
	pointer(slot, tx, cert)
}

// H_pointer_slot: every 64-bit slot.
func H_pointer_slot() { pointer(v.U64("slot"), 3, 200) }

// H_pointer_tx: every 64-bit transaction index.
func H_pointer_tx() { pointer(300, v.U64("tx"), 0) }

// H_pointer_cert: every 64-bit certificate index.
func H_pointer_cert() { pointer(0, 1<<14, v.U64("cert")) }

// H_pointer_all: every triple of 64-bit numbers.
func H_pointer_all() { pointer(nat("slot", 1, 10), nat("tx", 1, 10), nat("cert", 1, 10)) }

// H_convert: the enterprise and reward addresses of a base address.
func H_convert() {
	a := address.NewBaseAddress(net("net"), cred("pay"), cred("stake"))
	e, r := a.ToEnterprise(), a.ToReward()
	v.Assert(v.Eq(e.Bytes(), cat([]byte{0x60 | kindBit("pay", 4) | networkBit("net")}, v.Bytes("pay", 28))), "enterprise part")
	v.Assert(v.Eq(r.Bytes(), cat([]byte{0xe0 | kindBit("stake", 4) | networkBit("net")}, v.Bytes("stake", 28))), "reward part")
	v.Assert(v.And(sameNet(e, "net"), sameNet(r, "net")), "network kept")
	v.Reach("end")
}

// anAddr is an arbitrary address of one of the four kinds.
func anAddr(name string, kind int) address.Address {
	switch kind {
	case 0:
		return address.NewBaseAddress(net(name), cred(name+"p"), cred(name+"s"))
	case 1:
		return address.NewEnterpriseAddress(net(name), cred(name+"p"))
	case 2:
		return address.NewRewardAddress(net(name), cred(name+"s"))
	}
	return address.NewPointerAddress(*net(name), *cred(name + "p"), *address.NewPointer(nat(name+"slot", 2, 2), 3, 200))
}

// layout is the CIP-19 form of anAddr(name, kind).
func layout(name string, kind int) []byte {
	p, t := v.Bytes(name+"p", 28), v.Bytes(name+"s", 28)
	pay, stake, n := kindBit(name+"p", 4), kindBit(name+"s", 5), networkBit(name)
	switch kind {
	case 0:
		return cat([]byte{pay | stake | n}, p, t)
	case 1:
		return cat([]byte{0x60 | pay | n}, p)
	case 2:
		return cat([]byte{0xe0 | kindBit(name+"s", 4) | n}, t)
	}
	return cat([]byte{0x40 | pay | n}, p, varnat(nat(name+"slot", 2, 2)), varnat(3), varnat(200))
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

// H_keep: what was encoded and decoded stays as it was when other addresses follow, and
// writing over the encoded form leaves the address alone.
func H_keep() {
	ka := v.Choose("ka", 4)
	kb := []int{ka, (ka + 1) % 4}[v.Choose("kb", 2)]
	a, b := anAddr("a", ka), anAddr("b", kb)
	x := a.Bytes()
	x0 := clone(x)
	d, err := address.NewAddressFromBytes(clone(x))
	v.Assert(err == nil, "the address decodes")
	y := b.Bytes()
	e, err := address.NewAddressFromBytes(clone(y))
	v.Assert(err == nil, "another address decodes")
	v.Assert(v.Eq(x, x0), "the encoded form is not changed by encoding or decoding another address")
	v.Assert(v.And(v.Eq(x, layout("a", ka)), v.Eq(y, layout("b", kb))), "each address has its own layout")
	v.Assert(v.And(v.Eq(d.Bytes(), x0), sameNet(d, "a")), "a decoded address is not changed by decoding another")
	v.Assert(v.And(v.Eq(e.Bytes(), b.Bytes()), sameNet(e, "b")), "the other address is decoded by itself")
	for i := range x {
		x[i] ^= 0xff
	}
	v.Assert(v.Eq(a.Bytes(), x0), "writing over the encoded form leaves the address alone")
	v.Reach("end")
}

// ---- C02: decoding is total and strict ----

// specNat decodes one reference natural; ok=false when it is not terminated
// or does not fit 64 bits; min=false when it has leading zero groups.
func specNat(raw []byte) (n uint64, used int, ok, min bool) {
	min = true
	for i, c := range raw {
		if n>>57 != 0 {
			return 0, 0, false, min
		}
		if i == 0 && c == 0x80 {
			min = false
		}
		n = n<<7 | uint64(c&0x7f)
		if c&0x80 == 0 {
			return n, i + 1, true, min
		}
	}
	return 0, 0, false, min
}

func decode(data []byte) {
	n := len(data)
	a, err := address.NewAddressFromBytes(data)
	if n == 0 {
		v.Assert(err != nil, "empty input is rejected")
		return
	}
	h := data[0]
	typ, nib := h>>4, h&15
	netOK := nib <= 1
	var fixed bool
	switch {
	case typ <= 3:
		fixed = v.And(netOK, n == 57)
	case typ == 6 || typ == 7 || typ == 14 || typ == 15:
		fixed = v.And(netOK, n == 29)
	case typ == 4 || typ == 5:
		ok, min := false, true
		if n >= 32 {
			pos := 29
			ok = netOK
			for k := 0; k < 3 && ok; k++ {
				_, used, good, m := specNat(data[pos:])
				if !good {
					ok = false
					break
				}
				min = v.And(min, m)
				pos += used
			}
			ok = ok && pos == n
		}
		v.Assert((err == nil) == ok, "pointer address accepted exactly when well formed")
		if err == nil {
			v.Reach("pointer accepted")
			if min {
				v.Assert(v.Eq(a.Bytes(), data), "accepted pointer address re-encodes to the input")
			}
			v.Assert(v.Eq(a.Bytes()[:29], data[:29]), "accepted pointer address keeps header and credential")
		}
		return
	}
	v.Assert((err == nil) == fixed, "accepted exactly when well formed")
	if err == nil {
		v.Reach("accepted")
		v.Assert(v.Eq(a.Bytes(), data), "accepted data re-encodes to the input")
		v.Assert(a.NetworkInfo().NetworkId == nib, "network identifier")
	} else {
		v.Reach("rejected")
	}
}

// H_decode: every input of up to 60 bytes that is not a Byron address.
func H_decode() {
	n := v.Choose("n", 61)
	d := v.Bytes("d", n)
	if n > 0 {
		v.Assume(d[0]>>4 != 8)
		v.Assume(d[0]>>4 != 4)
		v.Assume(d[0]>>4 != 5)
	}
	decode(d)
}

// H_decode_ptr: every input of up to 36 bytes with a pointer header.
func H_decode_ptr() {
	n := 1 + v.Choose("n", 36)
	d := v.Bytes("d", n)
	v.Assume(v.Or(d[0]>>4 == 4, d[0]>>4 == 5))
	decode(d)
}

// H_decode_ptr_long: pointer inputs up to 45 bytes.
func H_decode_ptr_long() {
	n := 36 + v.Choose("n", 10)
	d := v.Bytes("d", n)
	v.Assume(v.Or(d[0]>>4 == 4, d[0]>>4 == 5))
	decode(d)
}

// H_decode_ptr_wide: one natural of up to 12 groups between two short ones.
func H_decode_ptr_wide() {
	n := v.Choose("n", 12) + 1
	d := cat(v.Bytes("h", 29), []byte{1}, v.Bytes("d", n), []byte{2})
	v.Assume(v.Or(d[0]>>4 == 4, d[0]>>4 == 5))
	decode(d)
}

// H_decode_hex: the hexadecimal entry point agrees with the binary one.
func H_decode_hex() {
	n := v.Choose("n", 2)*28 + 29
	d := v.Bytes("d", n)
	v.Assume(v.And(d[0]>>4 != 8, d[0]>>4 != 4, d[0]>>4 != 5))
	a, err := address.NewAddressFromBytes(d)
	b, err2 := address.NewAddressFromHex(hex.EncodeToString(d))
	v.Assert((err == nil) == (err2 == nil), "same verdict")
	if err == nil {
		v.Assert(v.Eq(a.Bytes(), b.Bytes()), "same address")
		v.Reach("accepted")
	}
}

// H_decode_badhex: malformed hexadecimal is an error.
func H_decode_badhex() {
	n := v.Choose("n", 5)
	s := v.Bytes("s", n)
	bad := n%2 == 1
	for _, c := range s {
		bad = v.Or(bad, !v.Or(v.And(c >= '0', c <= '9'), v.And(c >= 'a', c <= 'f'), v.And(c >= 'A', c <= 'F')))
	}
	_, err := address.NewAddressFromHex(string(s))
	v.Assert(v.Implies(bad, err != nil), "malformed hexadecimal is rejected")
	v.Reach("end")
}

// H_decode_hextail: digits of a whole address followed by anything that is not a digit pair.
func H_decode_hextail() {
	s := v.Bytes("s", 2+v.Choose("n", 4))
	bad := len(s) > 2
	for _, c := range s {
		bad = v.Or(bad, !v.Or(v.And(c >= '0', c <= '9'), v.And(c >= 'a', c <= 'f'), v.And(c >= 'A', c <= 'F')))
	}
	_, err := address.NewAddressFromHex("61" + strings.Repeat("5a", 27) + string(s))
	v.Assert((err != nil) == bad, "accepted exactly when the digits are those of one address")
	v.Reach("end")
}

// ---- C03: text form ----

func text(a address.Address, prefix string) {
	b := a.Bytes()
	s := a.String()
	if v.Bool("net") {
		prefix += "1"
	} else {
		prefix += "_test1"
	}
	v.Observe("s", []byte(s))
	v.Assert(len(s) == len(prefix)+(len(b)*8+4)/5+6, "text length")
	v.Assert(v.EqStr(s[:len(prefix)], prefix), "text prefix follows the network")
	d, err := address.NewAddress(s)
	v.Assert(err == nil, "text decodes")
	v.Assert(v.Eq(d.Bytes(), b), "text decodes to the same address")
	v.Assert(sameNet(d, "net"), "network kept")
	v.Assert(v.EqStr(d.String(), s), "text is stable")
	v.Reach("end")
}

// H_text_two: two addresses have their own texts, and each is parsed by itself.
func H_text_two() {
	ka := v.Choose("ka", 3)
	kb := []int{ka, (ka + 1) % 3}[v.Choose("kb", 2)]
	a, b := anAddr("a", ka), anAddr("b", kb)
	x, y := a.String(), b.String()
	d, err := address.NewAddress(x)
	v.Assert(err == nil, "the text decodes")
	e, err := address.NewAddress(y)
	v.Assert(err == nil, "the other text decodes")
	v.Assert(v.And(v.Eq(d.Bytes(), layout("a", ka)), sameNet(d, "a")), "the text decodes to its address")
	v.Assert(v.And(v.Eq(e.Bytes(), layout("b", kb)), sameNet(e, "b")), "the other text decodes to the other address")
	v.Assert(v.And(v.EqStr(a.String(), x), v.EqStr(b.String(), y)), "the texts are stable")
	v.Reach("end")
}

func H_text_base()       { text(address.NewBaseAddress(net("net"), cred("pay"), cred("stake")), "addr") }
func H_text_enterprise() { text(address.NewEnterpriseAddress(net("net"), cred("pay")), "addr") }
func H_text_reward()     { text(address.NewRewardAddress(net("net"), cred("stake")), "stake") }
func H_text_pointer() {
	slot, tx, cert := nat("slot", 3, 3), nat("tx", 1, 2), nat("cert", 1, 1)
	text(address.NewPointerAddress(*net("net"), *cred("pay"), *address.NewPointer(slot, tx, cert)), "addr")
}

// H_text_pointer_long: pointers from 2^14 up to the longest.
func H_text_pointer_long() {
	g := [][3]int{{5, 3, 3}, {10, 1, 1}, {9, 9, 9}, {10, 10, 8}, {10, 10, 10}}[v.Choose("shape", 5)]
	slot, tx, cert := nat("slot", g[0], g[0]), nat("tx", g[1], g[1]), nat("cert", g[2], g[2])
	text(address.NewPointerAddress(*net("net"), *cred("pay"), *address.NewPointer(slot, tx, cert)), "addr")
}

// ---- C07: variable length naturals ----

// H_nat_keep: an encoded number stays when others are encoded.
func H_nat_keep() {
	m, n := nat("m", 1, 10), nat("n", 1, 10)
	x := address.VariableNatEncode(m)
	y := address.VariableNatEncode(n)
	v.Assert(v.Eq(x, varnat(m)), "an encoded number is not changed by encoding another")
	v.Assert(v.Eq(y, varnat(n)), "the other number has its own form")
	k, used, err := address.VariableNatDecode(x)
	v.Assert(v.And(err == nil, k == m, used == len(x)), "the number is decoded")
	l, used, err := address.VariableNatDecode(y)
	v.Assert(v.And(err == nil, l == n, used == len(y)), "the other number is decoded")
	v.Reach("end")
}

func H_nat_roundtrip() {
	n := v.U64("n")
	e := address.VariableNatEncode(n)
	v.Observe("e", e)
	v.Assert(v.Eq(e, varnat(n)), "minimal base-128 encoding")
	rest := v.Bytes("rest", 2)
	m, used, err := address.VariableNatDecode(append(append([]byte{}, e...), rest...))
	v.Assert(err == nil, "decodes")
	v.Assert(m == n, "decodes to the same number")
	v.Assert(used == len(e), "consumes exactly its bytes")
	v.Reach("end")
}

func H_nat_decode() {
	n := v.Choose("n", 13)
	d := v.Bytes("d", n)
	m, used, err := address.VariableNatDecode(d)
	sm, su, ok, _ := specNat(d)
	v.Assert((err == nil) == ok, "accepted exactly when terminated and within 64 bits")
	if err == nil {
		v.Assert(v.And(m == sm, used == su), "value and length")
		v.Reach("accepted")
	} else {
		v.Reach("rejected")
	}
}

// ---- C08: addresses in CBOR ----

// bstr is the reference CBOR byte string.
func bstr(b []byte) []byte {
	n := len(b)
	switch {
	case n < 24:
		return cat([]byte{0x40 | byte(n)}, b)
	case n < 256:
		return cat([]byte{0x58, byte(n)}, b)
	}
	return cat([]byte{0x59, byte(n >> 8), byte(n)}, b)
}

func marshal(a address.Address) {
	c, err := a.MarshalCBOR()
	v.Assert(err == nil, "address marshals")
	v.Observe("c", c)
	v.Assert(v.Eq(c, bstr(a.Bytes())), "CBOR form is the byte string of the address")
	v.Reach("end")
}

// H_cbor_keep: a CBOR form stays when another address is marshalled.
func H_cbor_keep() {
	ka := v.Choose("ka", 4)
	kb := []int{ka, (ka + 1) % 4}[v.Choose("kb", 2)]
	a, b := anAddr("a", ka), anAddr("b", kb)
	c, err := a.MarshalCBOR()
	v.Assert(err == nil, "address marshals")
	e, err := b.MarshalCBOR()
	v.Assert(err == nil, "another address marshals")
	v.Assert(v.And(v.Eq(c, bstr(layout("a", ka))), v.Eq(e, bstr(layout("b", kb)))), "each address has its own CBOR form")
	v.Assert(v.Eq(c, bstr(a.Bytes())), "a CBOR form is not changed by marshalling another address")
	v.Reach("end")
}

func H_cbor_base()       { marshal(address.NewBaseAddress(net("net"), cred("pay"), cred("stake"))) }
func H_cbor_enterprise() { marshal(address.NewEnterpriseAddress(net("net"), cred("pay"))) }
func H_cbor_reward()     { marshal(address.NewRewardAddress(net("net"), cred("stake"))) }
func H_cbor_pointer() {
	g := [][3]int{{1, 1, 1}, {2, 1, 1}, {3, 1, 2}, {4, 2, 1}, {5, 2, 2}, {5, 3, 1}, {6, 1, 4}, {10, 1, 1}, {10, 5, 2}, {1, 10, 10}, {10, 10, 5}, {9, 9, 9}, {10, 10, 8}, {9, 10, 10}, {10, 10, 10}}[v.Choose("shape", 15)]
	slot, tx, cert := nat("slot", g[0], g[0]), nat("tx", g[1], g[1]), nat("cert", g[2], g[2])
	marshal(address.NewPointerAddress(*net("net"), *cred("pay"), *address.NewPointer(slot, tx, cert)))
}

// H_cbor_pointer_all: every size of the slot, with several sizes of the other two.
func H_cbor_pointer_all() {
	k := v.Choose("shape", 90)
	sizes := [3]int{1, 5, 10}
	a, b, c := k/9+1, sizes[k/3%3], sizes[k%3]
	slot, tx, cert := nat("slot", a, a), nat("tx", b, b), nat("cert", c, c)
	marshal(address.NewPointerAddress(*net("net"), *cred("pay"), *address.NewPointer(slot, tx, cert)))
}
