// Package node states the properties of the node backends and of the protocol
// parameters.
package node

import (
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	_ "github.com/fivebinaries/go-cardano-serialization/zz_verif/jm"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/world"
)

// digit is an arbitrary decimal digit between lo and hi.
func digit(name string, lo, hi byte) byte {
	return lo + v.Byte(name)%(hi-lo+1)
}

// digits is an arbitrary decimal numeral of n digits without leading zeros.
func digits(name string, n int) []byte {
	b := v.Bytes(name, n)
	for i, c := range b {
		if i == 0 && n > 1 {
			b[i] = '1' + c%9
		} else {
			b[i] = '0' + c%10
		}
	}
	return b
}

// value is the number a numeral stands for (at most 19 digits).
func value(b []byte) uint64 {
	n := uint64(0)
	for _, c := range b {
		n = n*10 + uint64(c-'0')
	}
	return n
}

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func s(x string) []byte { return []byte(x) }

// numeral is a numeral of one of a few lengths.
func numeral(name string, lens ...int) []byte {
	n := lens[v.Choose(name+".len", len(lens))]
	return digits(name+string(rune('A'+n)), n)
}

func sameParams(p protocol.Protocol, a, b, m, maj, min, u uint64) {
	v.Assert(uint64(p.TxFeePerByte) == a, "TxFeePerByte is the number of txFeePerByte")
	v.Assert(uint64(p.TxFeeFixed) == b, "TxFeeFixed is the number of txFeeFixed")
	v.Assert(uint64(p.MaxTxSize) == m, "MaxTxSize is the number of maxTxSize")
	v.Assert(uint64(p.ProtocolVersion.Major) == maj, "ProtocolVersion.Major is the number of protocolVersion.major")
	v.Assert(uint64(p.ProtocolVersion.Minor) == min, "ProtocolVersion.Minor is the number of protocolVersion.minor")
	v.Assert(uint64(p.MinUTXOValue) == u, "MinUTXOValue is the number of minUTxOValue")
}

// doc is a protocol parameter file as cardano-cli writes it.
func doc(a, b, m, maj, min, u []byte) []byte {
	return cat(s("{\n    \"txFeePerByte\": "), a, s(",\n    \"minUTxOValue\": "), u,
		s(",\n    \"stakePoolDeposit\": 500000000,\n    \"decentralization\": 0.5,\n    \"poolRetireMaxEpoch\": 18,\n    \"extraPraosEntropy\": null,\n    \"protocolVersion\": {\n        \"minor\": "), min,
		s(",\n        \"major\": "), maj, s("\n    },\n    \"txFeeFixed\": "), b,
		s(",\n    \"maxBlockBodySize\": 65536,\n    \"txFeePerBytes\": 9999,\n    \"maxTxSize\": "), m, s("\n}\n"))
}

func load(data []byte) (*protocol.Protocol, error) {
	return protocol.LoadProtocol(world.File(data))
}

// H_load: every number arrives in its field.
func H_load() {
	k := v.Choose("which", 4)
	a, b, m, u := s("44"), s("155381"), s("16384"), s("1000000")
	switch k {
	case 0:
		a = numeral("a", 1, 2, 5, 10, 19)
	case 1:
		b = numeral("b", 1, 6, 10, 19)
	case 2:
		m = numeral("m", 1, 5, 10, 19)
	case 3:
		u = numeral("u", 1, 7, 10, 19)
	}
	maj, min := digits("maj", 1), digits("min", 1)
	p, err := load(doc(a, b, m, maj, min, u))
	v.Assert(err == nil, "a well-formed parameter file loads")
	sameParams(*p, value(a), value(b), value(m), value(maj), value(min), value(u))
	v.Reach("loaded")
}

// H_load_all: all fields at once, of two digits.
func H_load_all() {
	a, b, m, u := digits("a", 2), digits("b", 2), digits("m", 2), digits("u", 2)
	maj, min := digits("maj", 2), digits("min", 2)
	p, err := load(doc(a, b, m, maj, min, u))
	v.Assert(err == nil, "a well-formed parameter file loads")
	sameParams(*p, value(a), value(b), value(m), value(maj), value(min), value(u))
	v.Reach("loaded")
}

// H_load_version: version numbers up to 255 load, larger ones are refused.
func H_load_version() {
	maj, min := numeral("maj", 1, 2, 3), numeral("min", 1, 2, 3)
	p, err := load(doc(s("1"), s("2"), s("3"), maj, min, s("4")))
	fits := v.And(value(maj) < 256, value(min) < 256)
	if err == nil {
		v.Assert(fits, "a version number above 255 is refused")
		sameParams(*p, 1, 2, 3, value(maj), value(min), 4)
		v.Reach("fits")
	} else {
		v.Assert(!fits, "version numbers up to 255 load")
		v.Reach("refused")
	}
}

const maxU64 = "18446744073709551615"

// twenty is an arbitrary numeral of 20 digits and whether it exceeds 64 bits:
// it either is the largest 64-bit number or first differs from it at some digit.
func twenty(name string) ([]byte, bool) {
	d := []byte(maxU64)
	i := v.Choose(name+".at", 21)
	if i == 20 {
		return d, false
	}
	big := v.Choose(name+".big", 2) == 1
	lo, hi := byte('0'), maxU64[i]-1
	if i == 0 {
		lo = '1'
	}
	if big {
		lo, hi = maxU64[i]+1, '9'
	}
	if lo > hi {
		return d, false
	}
	d[i] = digit(name+".d", lo, hi)
	for k := i + 1; k < 20; k++ {
		d[k] = digit(name+".r"+string(rune('a'+k)), '0', '9')
	}
	return d, big
}

// H_load_range: numbers of 20 digits load exactly when they fit 64 bits.
func H_load_range() {
	d, big := twenty("n")
	f := [4][]byte{s("1"), s("2"), s("3"), s("4")}
	k := v.Choose("which", 4)
	f[k] = d
	p, err := load(doc(f[0], f[1], f[2], s("5"), s("6"), f[3]))
	if err == nil {
		v.Assert(!big, "a number above 64 bits is refused")
		want := [4]uint64{1, 2, 3, 4}
		want[k] = value(d)
		sameParams(*p, want[0], want[1], want[2], 5, 6, want[3])
		v.Reach("fits")
	} else {
		v.Assert(big, "a number within 64 bits loads")
		v.Reach("refused")
	}
}

// H_load_bad: malformed documents and missing files are errors.
func H_load_bad() {
	good := doc(s("1"), s("2"), s("3"), s("4"), s("5"), s("6"))
	var err error
	switch v.Choose("what", 7) {
	case 0:
		_, err = protocol.LoadProtocol(world.Missing())
	case 1:
		// cut short anywhere before the closing brace
		_, err = load(good[:v.Choose("cut", len(good)-2)])
	case 2:
		_, err = load(doc(cat(s("-"), digits("neg", 2)), s("2"), s("3"), s("4"), s("5"), s("6")))
	case 3:
		_, err = load(doc(s("1"), cat(digits("x", 1), s("."), digits("y", 1)), s("3"), s("4"), s("5"), s("6")))
	case 4:
		_, err = load(doc(s("1"), s("2"), cat(s("\""), digits("q", 3), s("\"")), s("4"), s("5"), s("6")))
	case 5:
		c := v.Byte("junk")
		v.Assume(v.And(c > ' ', c < 0x7f))
		_, err = load(cat(good, []byte{c}))
	case 6:
		_, err = load(cat(s("[1,2,"), digits("e", 1), s("]")))
	}
	v.Assert(err != nil, "a malformed document or an unreadable file is an error")
	v.Reach("bad")
}

// H_load_twice: loading another file leaves what was loaded alone and takes nothing from it.
func H_load_twice() {
	a, b := digits("a", 2), digits("b", 3)
	p, err := load(doc(a, b, s("16384"), s("6"), s("1"), s("1000000")))
	v.Assert(err == nil, "a well-formed parameter file loads")
	c := digits("c", 2)
	second := doc(c, c, c, s("5"), s("0"), c)
	if v.Choose("sparse", 2) == 1 {
		second = cat(s("{\"txFeePerByte\": "), c, s("}"))
	}
	q, err := load(second)
	v.Assert(err == nil, "another parameter file loads")
	v.Assert(uint64(q.TxFeePerByte) == value(c), "the other file's number arrives")
	if v.Choose("sparse", 2) == 1 {
		sameParams(*q, value(c), 0, 0, 0, 0, 0)
	}
	sameParams(*p, value(a), value(b), 16384, 6, 1, 1000000)
	v.Reach("twice")
}
