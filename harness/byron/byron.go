// Package byron states the Byron address property.
package byron

import (
	"encoding/hex"

	"github.com/btcsuite/btcutil/base58"
	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// head is the shortest CBOR head for numbers below 2^32.
func head(major byte, n uint64) []byte {
	major <<= 5
	switch {
	case n < 24:
		return []byte{major | byte(n)}
	case n <= 0xff:
		return []byte{major | 24, byte(n)}
	case n <= 0xffff:
		return []byte{major | 25, byte(n >> 8), byte(n)}
	}
	return []byte{major | 26, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

func bstr(b []byte) []byte { return cat(head(2, uint64(len(b))), b) }

func crc(b []byte) uint32 {
	c := v.HashUF("crc32", 4, b)
	return uint32(c[0])<<24 | uint32(c[1])<<16 | uint32(c[2])<<8 | uint32(c[3])
}

// full is a checksum as a four-byte CBOR number.
func full(c uint32) []byte {
	return []byte{0x1a, byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c)}
}

func attrs(payload, net []byte) []byte {
	n := uint64(0)
	var b []byte
	if len(payload) > 0 {
		n++
		b = cat(b, []byte{1}, bstr(payload))
	}
	if net != nil {
		n++
		b = cat(b, []byte{2}, net)
	}
	return cat(head(5, n), b)
}

func inner(hash, payload, net []byte) []byte {
	return cat(head(4, 3), bstr(hash), attrs(payload, net), []byte{0})
}

func outer(in, sum []byte) []byte { return cat([]byte{0x82, 0xd8, 24}, bstr(in), sum) }

// warm fills the codec's type caches with concrete data.
func warm() {
	b := address.ByronAddress{Hash: make([]byte, 28)}
	address.NewAddressFromBytes(b.Bytes())
}

// H_encode: the layout of every address, and what decoding it gives.
func H_encode() {
	warm()
	h := v.Bytes("h", 28)
	p := v.Bytes("p", []int{0, 1, 23, 24, 30, 44}[v.Choose("np", 6)])
	b := address.ByronAddress{Hash: h}
	if len(p) > 0 {
		b.Attributes.Payload = p
	}
	var net []byte
	if v.Choose("net", 2) == 1 {
		n := v.Byte("n")
		b.Attributes.Network = &n
		net = head(0, uint64(n))
	}
	in := inner(h, p, net)
	c := crc(in)
	v.Assume(c > 0xffff) // the other lengths of the checksum number are H_encode_short
	got := b.Bytes()
	v.Observe("bytes", got)
	v.Assert(v.Eq(got, outer(in, full(c))), "binary form of a Byron address")
	a, err := address.NewAddressFromBytes(got)
	v.Assert(err == nil, "binary form decodes")
	d, ok := a.(*address.ByronAddress)
	v.Assert(ok && d != nil, "decodes to a Byron address")
	v.Assert(v.Eq(d.Hash, h), "decoded root hash")
	v.Assert(v.Eq(d.Attributes.Payload, p), "decoded derivation payload")
	v.Assert(d.Tag == 0, "decoded type")
	v.Assert((d.Attributes.Network == nil) == (net == nil), "decoded network attribute is present as encoded")
	if net != nil {
		v.Assert(*d.Attributes.Network == v.Byte("n"), "decoded network attribute")
		v.Assert(d.NetworkInfo().NetworkId == 0, "network of an address with a network attribute")
	} else {
		v.Assert(d.NetworkInfo().NetworkId == 1, "network of an address without a network attribute")
	}
	v.Assert(v.Eq(d.Bytes(), got), "decoded address encodes to the same bytes")
	v.Reach("end")
}

// B58Encode and B58Decode stand for base58's (a bijection between byte strings and texts).
func B58Encode(b []byte) string { return "2" + hex.EncodeToString(b) }

func B58Decode(s string) []byte {
	if len(s) == 0 || s[0] != '2' {
		v.Unsupported("base58 text that is not an encoding")
	}
	b, err := hex.DecodeString(s[1:])
	if err != nil {
		v.Unsupported("base58 text that is not an encoding")
	}
	return b
}

// H_text: the text of an address is the base58 form of its bytes, and parsing it gives the address back.
func H_text() {
	warm()
	h := v.Bytes("h", 28)
	p := v.Bytes("p", v.Choose("np", 2)*30)
	b := address.ByronAddress{Hash: h}
	if len(p) > 0 {
		b.Attributes.Payload = p
	}
	if v.Choose("net", 2) == 1 {
		n := v.Byte("n")
		b.Attributes.Network = &n
	}
	var net []byte
	if b.Attributes.Network != nil {
		net = head(0, uint64(v.Byte("n")))
	}
	v.Assume(crc(inner(h, p, net)) > 0xffff)
	text := b.String()
	v.Assert(text == base58.Encode(b.Bytes()), "the text is the base58 form of the bytes")
	a, err := address.NewAddress(text)
	v.Assert(err == nil, "the text parses")
	d, ok := a.(*address.ByronAddress)
	v.Assert(ok && d != nil, "the text parses to a Byron address")
	v.Assert(v.Eq(d.Bytes(), b.Bytes()), "the parsed address has the same bytes")
	v.Assert(d.String() == text, "the parsed address prints the same text")
	v.Assert(d.NetworkInfo().NetworkId == b.NetworkInfo().NetworkId, "the parsed address has the same network")
	v.Reach("end")
}

// H_encode_short: checksums that take fewer bytes.
func H_encode_short() {
	warm()
	h := v.Bytes("h", 28)
	in := inner(h, nil, nil)
	c := crc(in)
	v.Assume(c <= 0xffff)
	b := address.ByronAddress{Hash: h}
	got := b.Bytes()
	v.Assert(v.Eq(got, outer(in, head(0, uint64(c)))), "binary form of a Byron address with a short checksum")
	a, err := address.NewAddressFromBytes(got)
	v.Assert(err == nil, "binary form decodes")
	v.Assert(v.Eq(a.Bytes(), got), "decoded address encodes to the same bytes")
	v.Reach("end")
}

func accepted(data []byte, want bool, msg string) {
	v.Reach("decode")
	a, err := address.NewAddressFromBytes(data)
	v.Assert((err == nil) == want, msg)
	if err == nil {
		d, ok := a.(*address.ByronAddress)
		v.Assert(ok && d != nil, "decodes to a Byron address")
		v.Assert(v.Eq(d.Hash, v.Bytes("h", 28)), "decoded root hash")
	}
}

// H_checksum: exactly the right checksum is accepted.
func H_checksum() {
	warm()
	in := inner(v.Bytes("h", 28), v.Bytes("p", v.Choose("np", 3)*10), nil)
	c := v.U32("c")
	data := outer(in, full(c))
	good := crc(in)
	accepted(data, c == good, "accepted exactly with the right checksum")
}

// H_checksum_hex: the same through the hexadecimal form.
func H_checksum_hex() {
	warm()
	in := inner(v.Bytes("h", 28), nil, nil)
	c := v.U32("c")
	s := hex.EncodeToString(outer(in, full(c)))
	a, err := address.NewAddressFromHex(s)
	v.Assert((err == nil) == (c == crc(in)), "accepted exactly with the right checksum")
	if err == nil {
		v.Assert(v.Eq(a.Bytes()[:35], outer(in, nil)[:35]), "decoded from hexadecimal")
	}
	v.Reach("end")
}

// H_hash_len: root hashes of other lengths are refused.
func H_hash_len() {
	warm()
	n := v.Choose("n", 40)
	var p, net []byte
	switch v.Choose("attrs", 3) {
	case 1:
		p = v.Bytes("p", 12)
	case 2:
		p, net = v.Bytes("p", 30), []byte{v.Byte("net") % 24}
	}
	in := inner(v.Bytes("h", n), p, net)
	accepted(outer(in, full(crc(in))), n == 28, "accepted exactly with a 28-byte root hash")
}

// H_type: types other than 0 are refused.
func H_type() {
	warm()
	t := v.U32("t")
	var tb []byte
	switch v.Choose("k", 3) {
	case 0:
		tb = full(t)
	case 1:
		v.Assume(t < 24)
		tb = []byte{byte(t)}
	case 2:
		v.Assume(t < 256)
		tb = []byte{24, byte(t)}
	}
	at := []byte{0xa0}
	if v.Choose("payload", 2) == 1 {
		at = attrs(v.Bytes("p", 28), nil)
	}
	in := cat(head(4, 3), bstr(v.Bytes("h", 28)), at, tb)
	accepted(outer(in, full(crc(in))), t == 0, "accepted exactly with type 0")
}

// H_wrap: other tags, contents that are not byte strings, other array sizes and trailing data are refused.
func H_wrap() {
	warm()
	in := inner(v.Bytes("h", 28), nil, nil)
	sum := full(crc(in))
	good := outer(in, sum)
	switch v.Choose("k", 9) {
	case 0:
		n := v.Byte("tag")
		v.Assume(n >= 24)
		accepted(cat([]byte{0x82, 0xd8, n}, bstr(in), sum), n == 24, "accepted exactly with tag 24")
	case 1:
		n := v.Byte("tag")
		v.Assume(n < 24)
		accepted(cat([]byte{0x82, 0xc0 | n}, bstr(in), sum), false, "accepted without tag 24")
	case 2:
		accepted(cat([]byte{0x82}, bstr(in), sum), false, "accepted without a tag")
	case 3:
		accepted(cat([]byte{0x82, 0xd8, 24, 0x78, byte(len(in))}, []byte("a text of the right size, thirty-three"), sum), false, "accepted with a text inside")
	case 4:
		accepted(cat([]byte{0x82, 0xd8, 24}, []byte{0x00}, sum), false, "accepted with a number inside")
	case 5:
		accepted(cat(good, []byte{v.Byte("x")}), false, "accepted with trailing data")
	case 6:
		accepted(good[:v.Choose("cut", 43)], false, "accepted truncated data")
	case 7:
		accepted(cat([]byte{0x83}, good[1:], []byte{0}), false, "accepted a longer array")
	case 8:
		accepted(cat([]byte{0x81}, good[1:len(good)-5]), false, "accepted without a checksum")
	}
}

// H_inner_wrap: inner data that is not the triple is refused.
func H_inner_wrap() {
	warm()
	h := v.Bytes("h", 28)
	var in []byte
	switch v.Choose("k", 6) {
	case 0:
		in = cat(head(4, 2), bstr(h), []byte{0xa0})
	case 1:
		in = cat(head(4, 4), bstr(h), []byte{0xa0, 0, 0})
	case 2:
		in = cat(head(4, 3), bstr(h), []byte{0xa0, 0, v.Byte("x")})
	case 3:
		in = cat(head(4, 3), []byte{0x78, 28}, make([]byte, 28), []byte{0xa0, 0})
	case 4:
		in = bstr(h)
	case 5:
		in = nil
	}
	accepted(outer(in, full(crc(in))), false, "accepted malformed inner data")
}

// H_inner_kind: attributes, derivation payload, network and type of the wrong kind are refused.
func H_inner_kind() {
	warm()
	h := bstr(v.Bytes("h", 28))
	x := v.Byte("x")
	var in []byte
	switch v.Choose("k", 4) {
	case 0: // the attributes: anything but a map
		at := [][]byte{{x & 0x17}, {0x42, x, x}, {0x61, 'a'}, {0x81, 0x00}, {0x20 | x&0x17}, {0xf4 | x&1}}
		in = cat(head(4, 3), h, at[v.Choose("at", len(at))], []byte{0})
	case 1: // the derivation payload: anything but bytes
		at := [][]byte{{x & 0x17}, {0x61, 'a'}, {0x20 | x&0x17}, {0xf4 | x&1}, {0xa0}}
		in = cat(head(4, 3), h, []byte{0xa1, 0x01}, at[v.Choose("at", len(at))], []byte{0})
	case 2: // the network: anything but a small number
		at := [][]byte{{0x61, 'a'}, {0x20 | x&0x17}, {0xf4 | x&1}, {0xa0}, {0x81, 0x00}}
		in = cat(head(4, 3), h, []byte{0xa1, 0x02}, at[v.Choose("at", len(at))], []byte{0})
	case 3: // the type: anything but a number
		at := [][]byte{{0x61, 'a'}, {0x41, x}, {0x20 | x&0x17}, {0xf4 | x&1}, {0xa0}, {0x80}}
		in = cat(head(4, 3), h, []byte{0xa0}, at[v.Choose("at", len(at))])
	}
	accepted(outer(in, full(crc(in))), false, "accepted inner data of the wrong kind")
}

// H_crc_kind: a checksum that is not a number is refused.
func H_crc_kind() {
	warm()
	in := inner(v.Bytes("h", 28), nil, nil)
	x := v.Byte("x")
	at := [][]byte{{0x61, 'a'}, {0x41, x}, {0x3a, x, x, x, x}, {0xf4 | x&1}, {0xa0}, {0x80}, {0x1b, 0, 0, 0, 1, x, x, x, x}}
	accepted(outer(in, at[v.Choose("at", len(at))]), false, "accepted a checksum of the wrong kind")
}

// H_any: no data of up to N bytes after a Byron header makes decoding panic.
func anyData(n int) {
	warm()
	b := v.Bytes("b", 1+v.Choose("n", n))
	v.Assume(b[0]>>4 == 8)
	a, err := address.NewAddressFromBytes(b)
	v.Assert(err != nil, "short data is refused")
	_ = a
	v.Reach("end")
}

func H_any()      { anyData(3) }
func H_any_long() { anyData(4) }

// H_inner_any: no inner data makes decoding panic.
func innerAny(n int) {
	warm()
	in := v.Bytes("in", v.Choose("n", n))
	a, err := address.NewAddressFromBytes(outer(in, full(crc(in))))
	v.Assert(err != nil, "short inner data is refused")
	_ = a
	v.Reach("end")
}

func H_inner_any()      { innerAny(4) }
func H_inner_any_long() { innerAny(5) }

// H_byron_testnet: the ledger writes a testnet's magic as a byte string holding a CBOR number.
func H_byron_testnet() {
	warm()
	m := v.U32("magic")
	v.Assume(m > 0xffff)
	in := inner(v.Bytes("h", 28), v.Bytes("p", 10), bstr(full(m)))
	a, err := address.NewAddressFromBytes(outer(in, full(crc(in))))
	v.Assert(err == nil, "testnet Byron address (network magic in attribute 2) decodes")
	v.Assert(v.Eq(a.Bytes(), outer(in, full(crc(in)))), "testnet Byron address encodes to the same bytes")
	v.Reach("end")
}

// H_keep: an encoded and a decoded address stay when others follow.
func H_keep() {
	warm()
	g, h := v.Bytes("g", 28), v.Bytes("h", 28)
	a, b := &address.ByronAddress{Hash: g}, &address.ByronAddress{Hash: h, Attributes: address.ByronAddressAttributes{Payload: v.Bytes("p", 10)}}
	x := a.Bytes()
	x0 := cat(x)
	d, err := address.NewAddressFromBytes(cat(x))
	v.Assert(err == nil, "the address decodes")
	e, err := address.NewAddressFromBytes(b.Bytes())
	v.Assert(err == nil, "another address decodes")
	v.Assert(v.Eq(x, x0), "the encoded form is not changed by encoding or decoding another address")
	dd, ee := d.(*address.ByronAddress), e.(*address.ByronAddress)
	v.Assert(v.And(v.Eq(dd.Hash, g), len(dd.Attributes.Payload) == 0), "a decoded address is not changed by decoding another")
	v.Assert(v.And(v.Eq(ee.Hash, h), v.Eq(ee.Attributes.Payload, v.Bytes("p", 10))), "the other address is decoded by itself")
	v.Reach("end")
}
