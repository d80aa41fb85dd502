package v

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
)

// Int is a mathematical integer.
type Int int

var ints []*big.Int

func mkInt(b *big.Int) Int {
	ints = append(ints, b)
	return Int(len(ints) - 1)
}

// IntLE is the value of a little-endian byte string.
func IntLE(b []byte) Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return mkInt(new(big.Int).SetBytes(r))
}

func IntS(x int64) Int { return mkInt(big.NewInt(x)) }

func IntC(s string) Int {
	b, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("IntC " + s)
	}
	return mkInt(b)
}

func IntPow2(k int) Int   { return mkInt(new(big.Int).Lsh(big.NewInt(1), uint(k))) }
func IntAdd(x, y Int) Int { return mkInt(new(big.Int).Add(ints[x], ints[y])) }
func IntSub(x, y Int) Int { return mkInt(new(big.Int).Sub(ints[x], ints[y])) }
func IntMul(x, y Int) Int { return mkInt(new(big.Int).Mul(ints[x], ints[y])) }

// AssertCong states x = y (mod m).
func AssertCong(x, y, m Int, msg string) {
	Assert(new(big.Int).Mod(new(big.Int).Sub(ints[x], ints[y]), ints[m]).Sign() == 0, msg)
}

func AssertLe(x, y Int, msg string) { Assert(ints[x].Cmp(ints[y]) <= 0, msg) }
func AssertLt(x, y Int, msg string) { Assert(ints[x].Cmp(ints[y]) < 0, msg) }

// I32In is an arbitrary int32 in [lo, hi].
func I32In(name string, lo, hi int64) int32 {
	x := int32(uint32(word(name, 0)))
	Assume(int64(x) >= lo && int64(x) <= hi)
	return x
}

type searchSpec struct {
	Seed   int64    `json:"seed"`
	Count  int      `json:"count"`
	Consts []string `json:"consts"`
	Inputs []struct {
		Name   string
		Kind   string
		N      int
		Lo, Hi int64
	} `json:"inputs"`
}

type searchStop struct {
	kind string
	msg  string
}

var searching bool

// Search looks for inputs on which h fails; used to turn an assertion that could not be
// proved into a concrete counterexample.
func Search(h func()) {
	b, err := os.ReadFile(os.Getenv("VSEARCH"))
	var s searchSpec
	if err != nil || json.Unmarshal(b, &s) != nil {
		fmt.Println("BADREPLAY")
		os.Exit(9)
	}
	searching = true
	rng := rand.New(rand.NewSource(s.Seed))
	var consts []*big.Int
	for _, c := range s.Consts {
		if v, ok := new(big.Int).SetString(c, 10); ok && v.Sign() > 0 {
			consts = append(consts, v)
		}
	}
	for i := 0; i < s.Count; i++ {
		data = map[string][]uint64{}
		for _, in := range s.Inputs {
			switch in.Kind {
			case "bytes":
				data[in.Name] = genBytes(rng, in.N, consts)
			case "i32":
				data[in.Name] = []uint64{uint64(uint32(genIn(rng, in.Lo, in.Hi)))}
			default:
				data[in.Name] = []uint64{rng.Uint64()}
			}
		}
		ints = ints[:0]
		if r := runOnce(h); r != "" {
			o, _ := json.Marshal(data)
			fmt.Println("FOUND " + string(o))
			fmt.Println(r)
			return
		}
	}
	fmt.Println("NONE")
}

func runOnce(h func()) (res string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(searchStop); ok {
				if s.kind == "assert" {
					res = "ASSERT-FAIL " + s.msg
				}
				return
			}
			res = fmt.Sprint("PANIC ", r)
		}
	}()
	h()
	return ""
}

func genIn(r *rand.Rand, lo, hi int64) int64 {
	w := uint64(hi - lo)
	switch r.Intn(8) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		if lo <= 0 && hi >= 0 {
			return 0
		}
	case 3:
		v := int64(1)<<uint(r.Intn(27)) + int64(r.Intn(3)) - 1
		if r.Intn(2) == 0 {
			v = -v
		}
		if v >= lo && v <= hi {
			return v
		}
	case 4:
		v := int64(r.Intn(5)) - 2
		if v >= lo && v <= hi {
			return v
		}
	}
	return lo + int64(r.Uint64()%(w+1))
}

func genBytes(r *rand.Rand, n int, consts []*big.Int) []uint64 {
	b := make([]byte, n)
	switch k := r.Intn(10); {
	case k == 0:
	case k == 1:
		for i := range b {
			b[i] = 0xff
		}
		if r.Intn(2) == 0 {
			b[r.Intn(n)] = byte(r.Intn(256))
		}
	case k == 2:
		b[r.Intn(n)] = byte(1) << uint(r.Intn(8))
	case k == 3:
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = 0xff
			}
		}
	case k <= 6:
		v := new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(8*n)))
		if len(consts) > 0 && r.Intn(4) != 0 {
			c := consts[r.Intn(len(consts))]
			v.Set(c)
			if d := 8*n - c.BitLen() + 1; d > 0 {
				m := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(d))))
				v.Mul(c, m)
			}
		}
		v.Add(v, big.NewInt(int64(r.Intn(41)-20)))
		if v.Sign() < 0 {
			v.Neg(v)
		}
		vb := v.Bytes()
		for i := 0; i < n && i < len(vb); i++ {
			b[i] = vb[len(vb)-1-i]
		}
	default:
		r.Read(b)
	}
	out := make([]uint64, n)
	for i := range b {
		out[i] = uint64(b[i])
	}
	return out
}

// ---- reference values for native replays (under the engine: indeterminates) ----

func edP() *big.Int {
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
}

// IntVar is an indeterminate; only the symbolic engine has them.
func IntVar(name string) Int { panic("IntVar " + name) }

// RefPoint is the affine point k*B.
func RefPoint(k []byte) (x, y Int) {
	px, py := edMulAffine(fromLE(k))
	return mkInt(px), mkInt(py)
}

// BaseMultiple is the affine point m*256^pos*B.
func BaseMultiple(m, pos int) (x, y Int) {
	n := new(big.Int).Lsh(big.NewInt(int64(m)), uint(8*pos))
	px, py := edMulAffine(n.Mod(n, edOrder()))
	return mkInt(px), mkInt(py)
}

// RefScale is a nonzero field element.
func RefScale(z []byte) Int {
	n := new(big.Int).Mod(fromLE(z), edP())
	if n.Sign() == 0 {
		n.SetInt64(1)
	}
	return mkInt(n)
}

func RefPow(x Int, e string) Int {
	n, _ := new(big.Int).SetString(e, 0)
	return mkInt(new(big.Int).Exp(ints[x], n, edP()))
}

// RefBytes is the canonical encoding of a field element.
func RefBytes(x Int) []byte { return toLE(new(big.Int).Mod(ints[x], edP())) }

func RefEncode(x, y Int) []byte {
	out := RefBytes(y)
	out[31] |= byte(new(big.Int).Mod(ints[x], edP()).Bit(0)) << 7
	return out
}

func NonZero(x, m Int) bool { return new(big.Int).Mod(ints[x], ints[m]).Sign() != 0 }

// RefDecode is the point an encoding stands for, if any.
func RefDecode(s []byte) (x, y Int, ok bool) {
	p, one := edP(), big.NewInt(1)
	b := append([]byte{}, s...)
	b[31] &= 127
	py := new(big.Int).Mod(fromLE(b), p)
	u := new(big.Int).Mul(py, py)
	w := new(big.Int).Mul(u, bigHex("52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3"))
	u.Mod(u.Sub(u, one), p)
	w.Mod(w.Add(w, one), p)
	px := new(big.Int).ModSqrt(u.Mod(u.Mul(u, w.ModInverse(w, p)), p), p)
	if px == nil {
		return 0, 0, false
	}
	if px.Bit(0) != uint(s[31]>>7) {
		px.Mod(px.Sub(p, px), p)
	}
	return mkInt(px), mkInt(py), true
}

// RefComb is the affine point (a*k + b)*B.
func RefComb(a, k, b []byte) (x, y Int) {
	n := new(big.Int).Mul(fromLE(a), fromLE(k))
	px, py := edMulAffine(n.Mod(n.Add(n, fromLE(b)), edOrder()))
	return mkInt(px), mkInt(py)
}
