// Package b32 states the bech32 properties.
package b32

import (
	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

const alphabet = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// gf multiplies the residue by x and adds a symbol (BIP-173, written on bits).
func gf(c uint32, s byte) uint32 {
	t := c >> 25
	c = (c&0x1ffffff)<<5 ^ uint32(s)
	gen := [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	for i := uint(0); i < 5; i++ {
		c ^= -(t >> i & 1) & gen[i]
	}
	return c
}

// groups splits bytes into 5-bit groups, the last one padded with zeros.
func groups(b []byte) []byte {
	n := (len(b)*8 + 4) / 5
	out := make([]byte, n)
	for i := range out {
		var g byte
		for k := 0; k < 5; k++ {
			bit := 5*i + k
			g <<= 1
			if bit < 8*len(b) {
				g |= b[bit/8] >> (7 - uint(bit%8)) & 1
			}
		}
		out[i] = g
	}
	return out
}

// ref is the reference encoder, for a lower-case human-readable part.
func ref(hrp string, data []byte) []byte { return spell(hrp, symbols(hrp, data)) }

func spell(hrp string, syms []byte) []byte {
	out := append([]byte(hrp), '1')
	for _, s := range syms {
		out = append(out, alphabet[s])
	}
	return out
}

// symbols is the payload and checksum as 5-bit symbols.
func symbols(hrp string, data []byte) []byte {
	c := uint32(1)
	for i := 0; i < len(hrp); i++ {
		c = gf(c, hrp[i]>>5)
	}
	c = gf(c, 0)
	for i := 0; i < len(hrp); i++ {
		c = gf(c, hrp[i]&31)
	}
	g := groups(data)
	for _, s := range g {
		c = gf(c, s)
	}
	for i := 0; i < 6; i++ {
		c = gf(c, 0)
	}
	c ^= 1
	out := append([]byte{}, g...)
	for i := 0; i < 6; i++ {
		out = append(out, byte(c>>(5*uint(5-i))&31))
	}
	return out
}

func upper(s []byte) []byte {
	out := make([]byte, len(s))
	for i, c := range s {
		if c >= 'a' && c <= 'z' {
			c -= 32
		}
		out[i] = c
	}
	return out
}

func roundtrip(hrp string, data []byte) {
	orig := append([]byte{}, data...)
	data = append(append([]byte{}, data...), 1, 2, 3, 4, 5, 6, 7, 8)[:len(data)]
	s, err := bech32.Encode(hrp, data)
	v.Assert(v.Eq(data, orig), "the payload given is unchanged")
	v.Assert(v.Eq(data[len(data):len(data)+8], []byte{1, 2, 3, 4, 5, 6, 7, 8}), "what follows the payload is unchanged")
	v.Assert(err == nil, "a valid part and payload are encoded")
	v.Observe("s", []byte(s))
	v.Assert(v.Eq([]byte(s), ref(hrp, data)), "encoding is BIP-173")
	h, d, err := bech32.Decode(s)
	v.Assert(err == nil, "encoding decodes")
	v.Assert(v.EqStr(h, hrp), "same human-readable part")
	v.Assert(v.Eq(d, data), "same payload")
	v.Reach("end")
}

func prefix() string {
	switch v.Choose("prefix", 4) {
	case 0:
		return "addr"
	case 1:
		return "addr_test"
	case 2:
		return "stake"
	}
	return "stake_test"
}

// H_encode: every payload of 0 to 12 bytes under each Cardano prefix.
func H_encode() { roundtrip(prefix(), v.Bytes("d", v.Choose("n", 13))) }

// H_encode_addr: payloads of the address sizes 29, 32..34, 57 and 59.
func H_encode_addr() {
	n := []int{29, 32, 33, 34, 57, 59}[v.Choose("n", 6)]
	roundtrip("addr", v.Bytes("d", n))
}

// H_keep: what was decoded stays when another text is decoded.
func H_keep() {
	a, b := v.Bytes("d", 2+v.Choose("na", 2)), v.Bytes("e", 3)
	s, err := bech32.Encode("addr", a)
	v.Assert(err == nil, "a valid part and payload are encoded")
	t, err := bech32.Encode("stake", b)
	v.Assert(err == nil, "another payload is encoded")
	h, d, err := bech32.Decode(s)
	v.Assert(err == nil, "encoding decodes")
	g, e, err := bech32.Decode(t)
	v.Assert(err == nil, "another text decodes")
	v.Assert(v.And(v.EqStr(h, "addr"), v.Eq(d, a)), "a decoded payload is not changed by decoding another text")
	v.Assert(v.And(v.EqStr(g, "stake"), v.Eq(e, b)), "the other text is decoded by itself")
	v.Reach("end")
}

// H_encode_long: every size up to 64 bytes.
func H_encode_long() { roundtrip("stake_test", v.Bytes("d", 13+v.Choose("n", 52))) }

// H_encode_big: payloads and parts beyond those of addresses.
func H_encode_big() {
	switch v.Choose("case", 4) {
	case 0:
		roundtrip("addr", v.Bytes("d", []int{65, 80, 100, 128}[v.Choose("n", 4)]))
	case 1:
		// only the ends of a long payload are arbitrary
		d := make([]byte, []int{255, 256, 257, 600}[v.Choose("n", 4)])
		e := v.Bytes("d", 6)
		for i := range d {
			d[i] = byte(i*i + 7)
		}
		copy(d, e[:3])
		copy(d[len(d)-3:], e[3:])
		roundtrip("addr_test", d)
	case 2:
		roundtrip("a_part_of_31_characters_abcdefg", v.Bytes("d", 5))
	case 3:
		roundtrip("an83characterlonghumanreadablepartthatcontainsthetheexcludedcharactersbioandnumber1", v.Bytes("d", 5))
	}
}

// H_encode_hrp: arbitrary human-readable parts of up to 3 ASCII characters.
func H_encode_hrp() {
	n := v.Choose("n", 4)
	raw := v.Bytes("hrp", n)
	valid, lo, up := n > 0, false, false
	for _, c := range raw {
		v.Assume(c < 0x80)
		valid = v.And(valid, c >= 33, c <= 126)
		lo = v.Or(lo, v.And(c >= 'a', c <= 'z'))
		up = v.Or(up, v.And(c >= 'A', c <= 'Z'))
	}
	data := v.Bytes("d", 2)
	kind := v.Choose("kind", 3)
	if kind == 0 {
		v.Assume(v.Or(!valid, v.And(lo, up)))
		_, err := bech32.Encode(string(raw), data)
		v.Assert(err != nil, "invalid human-readable parts are refused")
		v.Reach("refused")
		return
	}
	v.Assume(valid)
	v.Assume(!v.And(lo, up))
	v.Assume(up == (kind == 2))
	low := make([]byte, n)
	for i, c := range raw {
		if c >= 'A' && c <= 'Z' {
			c += 32
		}
		low[i] = c
	}
	want := ref(string(low), data)
	if kind == 2 {
		want = upper(want)
		v.Reach("upper")
	}
	s, err := bech32.Encode(string(raw), data)
	v.Assert(err == nil, "valid human-readable parts are accepted")
	v.Assert(v.Eq([]byte(s), want), "encoding is BIP-173")
	h, d, err := bech32.Decode(s)
	v.Assert(err == nil, "encoding decodes")
	v.Assert(v.EqStr(h, string(raw)), "same human-readable part")
	v.Assert(v.Eq(d, data), "same payload")
	v.Reach("end")
}

// ---- C05 ----

func arbitrary(s []byte) {
	h, d, err := bech32.Decode(string(s))
	if err != nil {
		v.Reach("rejected")
		return
	}
	v.Reach("accepted")
	low := make([]byte, len(s))
	for i, c := range s {
		if c >= 'A' && c <= 'Z' {
			c += 32
		}
		low[i] = c
	}
	lh := make([]byte, len(h))
	for i := 0; i < len(h); i++ {
		c := h[i]
		if c >= 'A' && c <= 'Z' {
			c += 32
		}
		lh[i] = c
	}
	lo, up := false, false
	for _, c := range s {
		v.Assert(v.And(c >= 33, c <= 126), "accepted text is printable ASCII")
		lo = v.Or(lo, v.And(c >= 'a', c <= 'z'))
		up = v.Or(up, v.And(c >= 'A', c <= 'Z'))
	}
	v.Assert(!v.And(lo, up), "mixed case is rejected")
	v.Assert(len(h) >= 1, "the human-readable part is not empty")
	v.Assert(v.Eq(low, ref(string(lh), d)), "accepted text is the encoding of what it decodes to")
}

func ascii(n int) []byte {
	s := v.Bytes("s", n)
	for _, c := range s {
		v.Assume(c < 0x80)
	}
	return s
}

// H_any: every ASCII text of up to 8 characters.
func H_any() { arbitrary(ascii(v.Choose("n", 9))) }

// H_any_long: every ASCII text of up to 10 characters.
func H_any_long() { arbitrary(ascii(v.Choose("n", 11))) }

// H_any_addr: "addr1" followed by up to 9 arbitrary ASCII characters.
func H_any_addr() { arbitrary(append([]byte("addr1"), ascii(v.Choose("n", 10))...)) }

// H_any_addr_mixed: a text with an upper-case character somewhere in a valid lower-case one.
func H_mixed() {
	d := v.Bytes("d", 5)
	s := ref("addr", d)
	i := v.Choose("i", 8+6+5)
	c := s[i]
	if c >= 'a' && c <= 'z' {
		s[i] = c - 32
		_, _, err := bech32.Decode(string(s))
		v.Assert(err != nil, "mixed case is rejected")
		v.Reach("end")
	}
}

// H_nonascii: a valid text with one data character replaced by a character
// outside ASCII (among them the Kelvin sign, whose lower case is k).
func H_nonascii() {
	s := ref("addr", v.Bytes("d", 3))
	if v.Bool("upper") {
		s = upper(s)
	}
	i := v.Choose("i", len(s))
	r := []string{"\u212a", "\u017f", "\u0130", "\u00e9", "\u0451", "\xff", "\xc3"}[v.Choose("r", 7)]
	t := string(s[:i]) + r + string(s[i+1:])
	_, _, err := bech32.Decode(t)
	v.Assert(err != nil, "characters outside ASCII are rejected")
	v.Reach("end")
}

// H_upper: the upper-case form of an address decodes to the same payload.
func H_upper() {
	d := v.Bytes("d", 29)
	h, p, err := bech32.Decode(string(upper(ref("stake", d))))
	v.Assert(err == nil, "upper-case text decodes")
	v.Assert(v.Eq(p, d), "same payload")
	v.Assert(v.Eq(upper([]byte(h)), []byte("STAKE")), "same part up to case")
	v.Reach("end")
}

// enterprise is the symbols of an arbitrary mainnet enterprise address.
func enterprise() []byte {
	return symbols("addr", append([]byte{0x61}, v.Bytes("pay", 28)...))
}

func rejected(syms []byte, msg string) {
	t := string(spell("addr", syms))
	_, err := address.NewAddress(t)
	v.Assert(err != nil, msg)
	v.Reach("end")
}

func flip(name string) byte {
	e := v.Byte(name)
	v.Assume(v.And(e > 0, e < 32))
	return e & 31
}

// H_one: any one data character of an address text replaced by any other.
func H_one() {
	s := enterprise()
	i := v.Choose("i", len(s))
	s[i] ^= flip("e")
	rejected(s, "one replaced character is detected")
}

func two(span int) {
	s := enterprise()
	i := v.Choose("i", len(s))
	j := i + 1 + v.Choose("j", span)
	if j >= len(s) {
		return
	}
	s[i] ^= flip("e")
	s[j] ^= flip("f")
	rejected(s, "two replaced characters are detected")
}

// H_two: any two characters at most 4 apart replaced.
func H_two() { two(4) }

// H_two_all: any two characters of the data part replaced.
func H_two_all() { two(52) }

// H_swap: two different neighbouring characters swapped.
func H_swap() {
	s := enterprise()
	i := v.Choose("i", len(s)-1)
	v.Assume(s[i] != s[i+1])
	s[i], s[i+1] = s[i+1], s[i]
	rejected(s, "swapped neighbours are detected")
}
