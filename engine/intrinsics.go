package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"go/types"
	"hash/crc32"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, st *State, args []Val, fn *ssa.Function) (Val, bool)

var intrinsics = map[string]intrinsic{}

const vp = virtPkg + "/v."

// ---- inputs ----

func (x *Exec) input(name, kind string, w int, n int) []*Term {
	d, ok := x.inputIdx[name]
	if ok {
		if d.Kind != kind {
			unsup("input %s declared twice with different shapes", name)
		}
		if len(d.Terms) >= n {
			return d.Terms[:n:n]
		}
	} else {
		d = &InputDesc{Name: name, Kind: kind}
		x.inputIdx[name] = d
		x.inputs = append(x.inputs, d)
	}
	for i := len(d.Terms); i < n; i++ {
		vn := name
		if kind == "bytes" || kind == "string" {
			vn = fmt.Sprintf("%s[%d]", name, i)
		}
		if x.concrete != nil {
			var c uint64
			if vs := x.concrete[name]; i < len(vs) {
				c = vs[i]
			}
			if w == 0 {
				d.Terms = append(d.Terms, x.b.BoolC(c&1 == 1))
			} else {
				d.Terms = append(d.Terms, x.b.C(w, c))
			}
			continue
		}
		if vs, ok := x.pin[name]; ok && w > 0 {
			var c uint64
			if i < len(vs) {
				c = vs[i]
			}
			d.Terms = append(d.Terms, x.b.C(w, c))
			continue
		}
		d.Terms = append(d.Terms, x.b.Var(vn, w))
	}
	return d.Terms
}

func (x *Exec) cstr(v Val) string {
	s, ok := v.(Str)
	if !ok || s.b != nil {
		unsup("constant string expected")
	}
	return s.s
}

func def(name string, f func(x *Exec, st *State, a []Val) Val) {
	intrinsics[name] = func(x *Exec, st *State, args []Val, fn *ssa.Function) (Val, bool) { return f(x, st, args), false }
}

func (x *Exec) pack(ts []*Term) []*Term {
	var out []*Term
	for i := 0; i < len(ts); i += 8 {
		j := i + 8
		if j > len(ts) {
			j = len(ts)
		}
		out = append(out, x.b.Concat(ts[i:j]...))
	}
	return out
}

// hashApp applies a hash function: natively on concrete data, otherwise as an
// uninterpreted function of all the input bytes (one function per shape).
func (x *Exec) hashApp(alg string, outLen int, parts ...[]*Term) []*Term {
	var cb [][]byte
	conc := true
	shape := alg
	for _, p := range parts {
		b, ok := concBytes(p)
		if !ok {
			conc = false
		}
		cb = append(cb, b)
		shape += fmt.Sprintf("_%d", len(p))
	}
	if conc {
		o := nativeHash(alg, outLen, cb)
		if o != nil {
			ts := make([]*Term, len(o))
			for i := range o {
				ts[i] = x.b.C(8, uint64(o[i]))
			}
			return ts
		}
	}
	var args []*Term
	for _, p := range parts {
		args = append(args, x.pack(p)...)
	}
	if len(args) == 0 {
		unsup("uninterpreted function without arguments")
	}
	x.ufUsed(alg)
	var out []*Term
	for i := 0; i < outLen; i += 8 {
		k := outLen - i
		if k > 8 {
			k = 8
		}
		name := fmt.Sprintf("%s_o%d_w%d", shape, outLen, i/8)
		if _, ok := x.ufInfo[name]; !ok {
			u := ufShape{alg: alg, out: outLen, word: i / 8}
			for _, p := range parts {
				u.lens = append(u.lens, len(p))
			}
			x.ufInfo[name] = u
		}
		app := x.b.UF(name, 8*k, args)
		for j := 0; j < k; j++ {
			hi := 8*(k-j) - 1
			out = append(out, x.b.Extract(hi, hi-7, app))
		}
	}
	return out
}

// ufShape says which hash function an uninterpreted function stands for.
type ufShape struct {
	alg       string
	out, word int
	lens      []int
}

// realUF computes the value of an application of an uninterpreted hash function
// from the model's values of its arguments (packed to words of up to 8 bytes).
func (x *Exec) realUF(t *Term, m *Model) (args []uint64, val uint64, ok bool) {
	u, ok := x.ufInfo[t.Name]
	if !ok {
		return nil, 0, false
	}
	var parts [][]byte
	k := 0
	for _, n := range u.lens {
		var b []byte
		for i := 0; i < n; i += 8 {
			v, ok := m.Eval(t.A[k])
			if !ok {
				return nil, 0, false
			}
			args = append(args, v)
			for w := t.A[k].W - 8; w >= 0; w -= 8 {
				b = append(b, byte(v>>uint(w)))
			}
			k++
		}
		parts = append(parts, b)
	}
	o := nativeHash(u.alg, u.out, parts)
	if o == nil || k != len(t.A) {
		return nil, 0, false
	}
	for i := 8 * u.word; i < len(o) && i < 8*u.word+8; i++ {
		val = val<<8 | uint64(o[i])
	}
	return args, val, true
}

func (x *Exec) ufUsed(alg string) {
	m, _ := x.scratch["uf"].(map[string]int)
	if m == nil {
		m = map[string]int{}
		x.scratch["uf"] = m
	}
	m[alg]++
}

func nativeHash(alg string, outLen int, p [][]byte) []byte {
	switch alg {
	case "blake2b":
		h, err := blake2b.New(outLen, p[0])
		if err != nil {
			return nil
		}
		h.Write(p[1])
		return h.Sum(nil)
	case "sha512":
		s := sha512.Sum512(p[0])
		return s[:]
	case "sha256":
		s := sha256.Sum256(p[0])
		return s[:]
	case "hmac-sha512":
		h := hmac.New(sha512.New, p[0])
		h.Write(p[1])
		return h.Sum(nil)
	case "hmac-sha256":
		h := hmac.New(sha256.New, p[0])
		h.Write(p[1])
		return h.Sum(nil)
	}
	if alg == "crc32" {
		return binary.BigEndian.AppendUint32(nil, crc32.ChecksumIEEE(p[0]))
	}
	if strings.HasPrefix(alg, "ed-") {
		return edRef(alg, p)
	}
	if strings.HasPrefix(alg, "pbkdf2-sha512-") {
		it, _ := strconv.Atoi(alg[len("pbkdf2-sha512-"):])
		return pbkdf2.Key(p[0], p[1], it, outLen, sha512.New)
	}
	return nil
}

func (x *Exec) tupArr(ts []*Term) *Arr {
	vs := make([]Val, len(ts))
	for i, t := range ts {
		vs[i] = t
	}
	return newArr(vs)
}

func (x *Exec) boolArg(v Val) *Term {
	t, ok := v.(*Term)
	if !ok || t.W != 0 {
		unsup("bool expected")
	}
	return t
}

func (x *Exec) assertTerm(st *State, c *Term, msg string) {
	where := x.where(st)
	x.scratch["asserts"] = x.scratchInt("asserts") + 1
	if c.IsTrue() {
		x.trivial++
		return
	}
	if x.concrete != nil {
		if c.IsFalse() {
			x.vio = append(x.vio, &Violation{Msg: msg, Model: newModel(), Kind: "assert", Where: where})
		}
		return
	}
	for _, p := range st.pc {
		if p == c {
			x.trivial++
			return
		}
	}
	x.obls = append(x.obls, &Obligation{pc: append([]*Term(nil), st.pc...), neg: x.b.Not(c), msg: msg, where: where, hint: st.model})
	// later assertions may rely on this one
	if c.IsFalse() {
		panic(infeasible{})
	}
	if st.model != nil {
		if v, ok := st.model.Eval(c); !ok || v == 0 {
			st.model = nil
		}
	}
	st.assume(c)
}

func (x *Exec) scratchInt(k string) int {
	n, _ := x.scratch[k].(int)
	return n
}

func (x *Exec) assumeTerm(st *State, c *Term) {
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		panic(infeasible{})
	}
	if st.model != nil {
		if v, ok := st.model.Eval(c); ok && v == 1 {
			st.assume(c)
			return
		}
	}
	r, m := x.check(st, c, true)
	if r == Unsat {
		panic(infeasible{})
	}
	if r == Sat && m != nil && st.model != nil {
		n := newModel()
		for k, v := range st.model.vars {
			n.vars[k] = v
		}
		for k, v := range st.model.uf {
			n.uf[k] = v
		}
		for k, v := range m.vars {
			n.vars[k] = v
		}
		for k, v := range m.uf {
			n.uf[k] = v
		}
		st.model = n
	} else {
		st.model = m
		if m != nil && len(st.pc) > 0 {
			st.model = nil
		}
	}
	st.assume(c)
}

// decimal renders an unsigned term in base ten, forking on the digit count.
func (x *Exec) decimal(st *State, t *Term) []*Term {
	if t.IsConst() {
		return x.strBytes(Str{s: strconv.FormatUint(t.C, 10)})
	}
	w := t.W
	pow := uint64(1)
	n := 1
	for ; n < 20; n++ {
		if pow > math.MaxUint64/10 {
			break
		}
		pow *= 10
		if w < 64 && pow > mask(w) {
			break
		}
		if x.branch(st, x.b.Ult(t, x.b.C(w, pow))) {
			break
		}
	}
	t64 := x.b.Zext(64, t)
	out := make([]*Term, n)
	p := uint64(1)
	for i := n - 1; i >= 0; i-- {
		d := x.b.Urem(x.b.Udiv(t64, x.b.C(64, p)), x.b.C(64, 10))
		out[i] = x.b.Add(x.b.Extract(7, 0, d), x.b.C(8, '0'))
		p *= 10
	}
	return out
}

var hexDigits = "0123456789abcdef"

func (x *Exec) hexByte(t *Term) []*Term {
	nib := func(n *Term) *Term {
		z := x.b.Zext(8, n)
		return x.b.Ite(x.b.Ult(z, x.b.C(8, 10)), x.b.Add(z, x.b.C(8, '0')), x.b.Add(z, x.b.C(8, 'a'-10)))
	}
	return []*Term{nib(x.b.Extract(7, 4, t)), nib(x.b.Extract(3, 0, t))}
}

// format implements the fmt verbs the code base uses.
func (x *Exec) format(st *State, f string, args []Val) ([]*Term, []Val, bool) {
	var out []*Term
	var wraps []Val
	exact := true
	lit := func(s string) { out = append(out, x.strBytes(Str{s: s})...) }
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, x.b.C(8, uint64(f[i])))
			continue
		}
		i++
		j := i
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		flags := f[i:j]
		i = j
		if i >= len(f) {
			break
		}
		verb := f[i]
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			exact = false
			continue
		}
		a, _ := args[ai].(Iface)
		ai++
		if flags != "" && flags != "+" {
			exact = false
		}
		if verb == 'w' {
			wraps = append(wraps, a)
		}
		switch v := a.v.(type) {
		case Str:
			if isNamedErr(a.t) {
				exact = false
			}
			if verb == 'x' {
				for _, t := range x.strBytes(v) {
					out = append(out, x.hexByte(t)...)
				}
			} else if verb == 'q' {
				if v.b == nil {
					lit(strconv.Quote(v.s))
				} else {
					exact = false
				}
			} else {
				out = append(out, x.strBytes(v)...)
			}
		case *Term:
			if v.W == 0 {
				if x.branch(st, v) {
					lit("true")
				} else {
					lit("false")
				}
				continue
			}
			_, sg, _ := width(a.t)
			if verb == 'd' || verb == 'v' || verb == 's' {
				if sg {
					if x.branch(st, x.b.Slt(v, x.b.C(v.W, 0))) {
						lit("-")
						v = x.b.Sub(x.b.C(v.W, 0), v)
					}
				}
				out = append(out, x.decimal(st, v)...)
			} else if verb == 'x' && v.IsConst() {
				lit(strconv.FormatUint(v.C, 16))
			} else {
				exact = false
			}
		case Slice:
			if (verb == 'x' || verb == 's') && a.t != nil {
				if sl, ok := a.t.Underlying().(*types.Slice); ok {
					if w, _, _ := width(sl.Elem()); w == 8 {
						for _, t := range x.sliceTerms(st, v) {
							if verb == 's' {
								out = append(out, t)
							} else {
								out = append(out, x.hexByte(t)...)
							}
						}
						continue
					}
				}
			}
			exact = false
		default:
			exact = false
		}
	}
	return out, wraps, exact
}

func isNamedErr(t types.Type) bool {
	_, ok := t.(*types.Named)
	return ok
}

func (x *Exec) mkErr(st *State, text []*Term, wraps []Val) Val {
	if len(wraps) == 1 && wraps[0].(Iface).t != nil {
		t := x.prog.typ("fmt", "wrapError")
		id := x.alloc(st, &Agg{[]Val{x.mkStr(text), wraps[0]}})
		return Iface{t: types.NewPointer(t), v: Ptr{obj: id}}
	}
	t := x.prog.typ("errors", "errorString")
	id := x.alloc(st, &Agg{[]Val{x.mkStr(text)}})
	return Iface{t: types.NewPointer(t), v: Ptr{obj: id}}
}

func (x *Exec) asciiMap(st *State, s Str, lo, hi byte, delta int) Val {
	conv := strings.ToUpper
	if delta > 0 {
		conv = strings.ToLower
	}
	if s.b == nil {
		return Str{s: conv(s.s)}
	}
	var out, na []*Term
	for i := 0; i < len(s.b); i++ {
		t := s.b[i]
		if t.IsConst() && t.C >= 0x80 {
			// a run of concrete non-ASCII bytes: converted natively (an ASCII byte
			// cannot continue a UTF-8 sequence, so runs are independent)
			var run []byte
			for ; i < len(s.b) && s.b[i].IsConst() && s.b[i].C >= 0x80; i++ {
				run = append(run, byte(s.b[i].C))
			}
			i--
			out = append(out, x.strBytes(Str{s: conv(string(run))})...)
			continue
		}
		if t.umax() >= 0x80 {
			na = append(na, x.b.Not(x.b.Ult(t, x.b.C(8, 0x80))))
		}
		in := x.b.And(x.b.Ule(x.b.C(8, uint64(lo)), t), x.b.Ule(t, x.b.C(8, uint64(hi))))
		out = append(out, x.b.Ite(in, x.b.Add(t, x.b.C(8, uint64(uint8(delta)))), t))
	}
	if len(na) > 0 && x.branch(st, x.b.Or(na...)) {
		unsup("case mapping of a non-ASCII symbolic string")
	}
	return x.mkStr(out)
}

func init() {
	// ---- harness package v ----
	def(vp+"Bool", func(x *Exec, st *State, a []Val) Val { return x.input(x.cstr(a[0]), "bool", 0, 1)[0] })
	def(vp+"Byte", func(x *Exec, st *State, a []Val) Val { return x.input(x.cstr(a[0]), "u8", 8, 1)[0] })
	def(vp+"U16", func(x *Exec, st *State, a []Val) Val { return x.input(x.cstr(a[0]), "u16", 16, 1)[0] })
	def(vp+"U32", func(x *Exec, st *State, a []Val) Val { return x.input(x.cstr(a[0]), "u32", 32, 1)[0] })
	def(vp+"U64", func(x *Exec, st *State, a []Val) Val { return x.input(x.cstr(a[0]), "u64", 64, 1)[0] })
	def(vp+"Bytes", func(x *Exec, st *State, a []Val) Val {
		return x.byteSlice(st, x.input(x.cstr(a[0]), "bytes", 8, x.argInt(st, a[1])))
	})
	def(vp+"String", func(x *Exec, st *State, a []Val) Val {
		return x.mkStr(x.input(x.cstr(a[0]), "string", 8, x.argInt(st, a[1])))
	})
	def(vp+"Choose", func(x *Exec, st *State, a []Val) Val {
		n := x.argInt(st, a[1])
		t := x.input(x.cstr(a[0]), "choose", 64, 1)[0]
		if t.IsConst() {
			return x.b.C(64, t.C%uint64(n))
		}
		if _, ok := st.conc[t]; !ok {
			used := false
			for _, p := range st.pc {
				if x.supportOf(p)[t.Name] {
					used = true
				}
			}
			if !used && n > 1 {
				fr := forkReq{key: t}
				for k := 0; k < n; k++ {
					fr.conds = append(fr.conds, x.b.Eq(t, x.b.C(64, uint64(k))))
					fr.vals = append(fr.vals, uint64(k))
					var m *Model
					if st.model != nil {
						m = newModel()
						for a, b := range st.model.vars {
							m.vars[a] = b
						}
						for a, b := range st.model.uf {
							m.uf[a] = b
						}
						m.vars[t.Name] = uint64(k)
					}
					fr.models = append(fr.models, m)
				}
				panic(fr)
			}
			x.assumeTerm(st, x.b.Ult(t, x.b.C(64, uint64(n))))
		}
		r := x.b.C(64, x.concretize(st, t))
		st.tags["$choice:"+x.cstr(a[0])] = r
		return r
	})
	def(vp+"Assume", func(x *Exec, st *State, a []Val) Val { x.assumeTerm(st, x.boolArg(a[0])); return nil })
	def(vp+"Assert", func(x *Exec, st *State, a []Val) Val { x.assertTerm(st, x.boolArg(a[0]), x.cstr(a[1])); return nil })
	def(vp+"Unsupported", func(x *Exec, st *State, a []Val) Val { unsup("%s", x.cstr(a[0])); return nil })
	def(vp+"Fail", func(x *Exec, st *State, a []Val) Val { x.assertTerm(st, x.b.False, x.cstr(a[0])); return nil })
	def(vp+"Reach", func(x *Exec, st *State, a []Val) Val {
		l := x.cstr(a[0])
		if x.reach[l] {
			return nil
		}
		if x.concrete != nil {
			x.reach[l] = true
			return nil
		}
		// the solver confirms that the assumptions on the way here are satisfiable
		r, m := x.solver().Check(st.pc, x.queryTO, true)
		if r == Sat {
			if st.model == nil {
				st.model = m
			}
			x.reach[l] = true
		} else if r == Unknown && st.model != nil {
			x.reach[l] = true
		}
		return nil
	})
	def(vp+"And", func(x *Exec, st *State, a []Val) Val { return x.b.And(x.termSlice(st, a[0])...) })
	def(vp+"Or", func(x *Exec, st *State, a []Val) Val { return x.b.Or(x.termSlice(st, a[0])...) })
	def(vp+"Implies", func(x *Exec, st *State, a []Val) Val { return x.b.Implies(x.boolArg(a[0]), x.boolArg(a[1])) })
	def(vp+"Ite64", func(x *Exec, st *State, a []Val) Val {
		return x.b.Ite(x.boolArg(a[0]), a[1].(*Term), a[2].(*Term))
	})
	def(vp+"Eq", func(x *Exec, st *State, a []Val) Val {
		return x.eqTerms(x.sliceTerms(st, a[0]), x.sliceTerms(st, a[1]))
	})
	def(vp+"EqStr", func(x *Exec, st *State, a []Val) Val { return x.eq(st, a[0], a[1]) })
	def(vp+"Observe", func(x *Exec, st *State, a []Val) Val {
		if x.concrete != nil {
			b, ok := concBytes(x.sliceTerms(st, a[1]))
			s := fmt.Sprintf("%x", b)
			if !ok {
				s = "symbolic"
			}
			x.observed = append(x.observed, obs{x.cstr(a[0]), s})
		}
		return nil
	})
	def(vp+"Symbolic", func(x *Exec, st *State, a []Val) Val { return x.b.BoolC(true) })
	def(vp+"HashUF", func(x *Exec, st *State, a []Val) Val {
		// HashUF(alg, outLen, parts...)
		var parts [][]*Term
		for _, p := range x.sliceVals(st, a[2].(Slice)) {
			parts = append(parts, x.sliceTerms(st, p))
		}
		return x.byteSlice(st, x.hashApp(x.cstr(a[0]), x.argInt(st, a[1]), parts...))
	})
	def(vp+"Concretize", func(x *Exec, st *State, a []Val) Val {
		t := a[0].(*Term)
		return x.b.C(t.W, x.concretize(st, t))
	})
	def(vp+"Exit", func(x *Exec, st *State, a []Val) Val { panic(infeasible{}) })
	// unsigned little-endian integer helpers used by specifications
	intrinsics[vp+"AddWide"] = func(x *Exec, st *State, a []Val, fn *ssa.Function) (Val, bool) {
		// AddWide(a, b uint64) (sum uint64, carry bool)
		p, q := a[0].(*Term), a[1].(*Term)
		s := x.b.Add(p, q)
		return &Agg{[]Val{s, x.b.Ult(s, p)}}, false
	}

	// ---- bytes / strings primitives ----
	idxByte := func(last bool) func(x *Exec, st *State, a []Val) Val {
		return func(x *Exec, st *State, a []Val) Val {
			bs := x.sliceTerms(st, a[0])
			c := a[1].(*Term)
			r := x.b.C(64, math.MaxUint64)
			if last {
				for i := 0; i < len(bs); i++ {
					r = x.b.Ite(x.b.Eq(bs[i], c), x.b.C(64, uint64(i)), r)
				}
			} else {
				for i := len(bs) - 1; i >= 0; i-- {
					r = x.b.Ite(x.b.Eq(bs[i], c), x.b.C(64, uint64(i)), r)
				}
			}
			return r
		}
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		def(n, idxByte(false))
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		def(n, idxByte(true))
	}
	lastIdx := func(last bool) func(x *Exec, st *State, a []Val) Val {
		return func(x *Exec, st *State, a []Val) Val {
			bs, sep := x.sliceTerms(st, a[0]), x.sliceTerms(st, a[1])
			r := x.b.C(64, math.MaxUint64)
			n := len(bs) - len(sep)
			for k := 0; k <= n; k++ {
				i := k
				if !last {
					i = n - k
				}
				r = x.b.Ite(x.eqTerms(bs[i:i+len(sep)], sep), x.b.C(64, uint64(i)), r)
			}
			return r
		}
	}
	for _, n := range []string{"strings.LastIndex", "bytes.LastIndex"} {
		def(n, lastIdx(true))
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		def(n, lastIdx(false))
	}
	def("strings.IndexRune", func(x *Exec, st *State, a []Val) Val {
		s := a[0].(Str)
		r := a[1].(*Term)
		if s.b == nil && r.IsConst() {
			return x.b.C(64, uint64(int64(strings.IndexRune(s.s, rune(int32(r.C))))))
		}
		for i := 0; i < s.Len(); i++ {
			if s.b == nil && s.s[i] >= 0x80 {
				unsup("IndexRune in a non-ASCII string")
			}
		}
		if s.b != nil {
			unsup("IndexRune in a symbolic string")
		}
		res := x.b.C(64, math.MaxUint64)
		for i := len(s.s) - 1; i >= 0; i-- {
			res = x.b.Ite(x.b.Eq(r, x.b.C(32, uint64(s.s[i]))), x.b.C(64, uint64(i)), res)
		}
		return res
	})
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		def(n, func(x *Exec, st *State, a []Val) Val {
			c := a[1].(*Term)
			r := x.b.C(64, 0)
			for _, t := range x.sliceTerms(st, a[0]) {
				r = x.b.Add(r, x.b.Ite(x.b.Eq(t, c), x.b.C(64, 1), x.b.C(64, 0)))
			}
			return r
		})
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "cmp.Compare[string]"} {
		def(n, func(x *Exec, st *State, a []Val) Val {
			p, q := x.sliceTerms(st, a[0]), x.sliceTerms(st, a[1])
			one, neg, z := x.b.C(64, 1), x.b.C(64, math.MaxUint64), x.b.C(64, 0)
			return x.b.Ite(x.eqTerms(p, q), z, x.b.Ite(x.bytesLess(p, q), neg, one))
		})
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		def(n, func(x *Exec, st *State, a []Val) Val {
			return x.eqTerms(x.sliceTerms(st, a[0]), x.sliceTerms(st, a[1]))
		})
	}
	def("internal/bytealg.MakeNoZero", func(x *Exec, st *State, a []Val) Val {
		n := x.argInt(st, a[0])
		return Slice{obj: x.alloc(st, fillArr(n, x.b.C(8, 0))), len: n, cap: n}
	})
	def("strings.ToLower", func(x *Exec, st *State, a []Val) Val { return x.asciiMap(st, a[0].(Str), 'A', 'Z', 32) })
	def("strings.ToUpper", func(x *Exec, st *State, a []Val) Val { return x.asciiMap(st, a[0].(Str), 'a', 'z', -32) })
	def("strings.EqualFold", func(x *Exec, st *State, a []Val) Val {
		p, q := a[0].(Str), a[1].(Str)
		if p.Len() != q.Len() {
			return x.b.False
		}
		return x.eq(st, x.asciiMap(st, p, 'A', 'Z', 32), x.asciiMap(st, q, 'A', 'Z', 32))
	})
	def("(*strings.Builder).copyCheck", func(x *Exec, st *State, a []Val) Val { return nil })
	def("internal/abi.NoEscape", func(x *Exec, st *State, a []Val) Val { return a[0] })
	def("internal/abi.Escape", func(x *Exec, st *State, a []Val) Val { return a[0] })
	def("unicode/utf8.ValidString", validUTF8)
	def("unicode/utf8.Valid", validUTF8)
	def("strings.Clone", func(x *Exec, st *State, a []Val) Val { return a[0] })

	// ---- sync ----
	nop := func(x *Exec, st *State, a []Val) Val { return nil }
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		def(n, nop)
	}
	for n, k := range map[string][2]string{ // kinds of release acquired, kind released
		"(*sync.Mutex).Lock": {"w", ""}, "(*sync.Mutex).Unlock": {"", "w"}, "(*sync.RWMutex).Lock": {"wr", ""}, "(*sync.RWMutex).Unlock": {"", "w"},
		"(*sync.RWMutex).RLock": {"w", ""}, "(*sync.RWMutex).RUnlock": {"", "r"}} {
		k := k
		def(n, func(x *Exec, st *State, a []Val) Val {
			for _, c := range k[0] {
				st.acquire(a[0].(Ptr), string(c))
			}
			if k[1] != "" {
				st.release(a[0].(Ptr), k[1])
			}
			return nil
		})
	}
	intrinsics["(*sync.Once).Do"] = func(x *Exec, st *State, a []Val, fn *ssa.Function) (Val, bool) {
		p := a[0].(Ptr)
		var v *Agg
		x.quiet(st, func() { v = x.load(st, p).(*Agg) })
		if _, done := v.e[0].(Flt); done {
			st.acquire(p, "w")
			return nil, false
		}
		e := append([]Val(nil), v.e...)
		e[0] = Flt(1)
		x.quiet(st, func() { x.store(st, p, &Agg{e}) })
		_, pushed := x.callClosure(st, a[1].(*Closure), nil)
		if pushed && st.race != nil && st.top().cont == nil {
			st.top().cont = func(x *Exec, st *State, ret Val) (Val, bool) {
				st.release(p, "w")
				return nil, false
			}
		}
		return nil, pushed
	}
	// a pool of the repository hands out what was put back last; others always make a new value
	pool := func(x *Exec, st *State, p Ptr) *Agg {
		var v *Agg
		x.quiet(st, func() { v = x.load(st, p).(*Agg) })
		return v
	}
	intrinsics["(*sync.Pool).Get"] = func(x *Exec, st *State, a []Val, fn *ssa.Function) (Val, bool) {
		p := a[0].(Ptr)
		v := pool(x, st, p)
		st.acquire(p, "w")
		if l, ok := v.e[0].(*Agg); ok && len(l.e) > 0 {
			e := append([]Val(nil), v.e...)
			e[0] = &Agg{l.e[:len(l.e)-1]}
			x.quiet(st, func() { x.store(st, p, &Agg{e}) })
			return l.e[len(l.e)-1], false
		}
		cl, _ := v.e[len(v.e)-1].(*Closure)
		if cl == nil {
			return Iface{}, false
		}
		return x.callClosure(st, cl, nil)
	}
	def("(*sync.Pool).Put", func(x *Exec, st *State, a []Val) Val {
		p := a[0].(Ptr)
		if !inRepo(st.top().fi.fn) {
			return nil
		}
		v := pool(x, st, p)
		e := append([]Val(nil), v.e...)
		l, _ := v.e[0].(*Agg)
		n := &Agg{}
		if l != nil {
			n.e = append(n.e, l.e...)
		}
		n.e = append(n.e, a[1])
		e[0] = n
		x.quiet(st, func() { x.store(st, p, &Agg{e}) })
		st.release(p, "w")
		return nil
	})
	intrinsics["(*sync.WaitGroup).Go"] = func(x *Exec, st *State, a []Val, fn *ssa.Function) (Val, bool) {
		x.sched = true
		return x.callClosure(st, a[1].(*Closure), nil)
	}
	sdef := func(name string, f func(x *Exec, st *State, a []Val) Val) {
		def(name, func(x *Exec, st *State, a []Val) (v Val) {
			st.acquire(a[0].(Ptr), "w")
			x.quiet(st, func() { v = f(x, st, a) })
			st.release(a[0].(Ptr), "w")
			return v
		})
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		sdef("sync/atomic.Load"+t, func(x *Exec, st *State, a []Val) Val { return x.load(st, a[0].(Ptr)) })
		sdef("sync/atomic.Store"+t, func(x *Exec, st *State, a []Val) Val {
			x.store(st, a[0].(Ptr), a[1])
			return nil
		})
		sdef("sync/atomic.Swap"+t, func(x *Exec, st *State, a []Val) Val {
			v := x.load(st, a[0].(Ptr))
			x.store(st, a[0].(Ptr), a[1])
			return v
		})
		if t == "Pointer" {
			continue
		}
		sdef("sync/atomic.Add"+t, func(x *Exec, st *State, a []Val) Val {
			v := x.b.Add(x.load(st, a[0].(Ptr)).(*Term), a[1].(*Term))
			x.store(st, a[0].(Ptr), v)
			return v
		})
		sdef("sync/atomic.CompareAndSwap"+t, func(x *Exec, st *State, a []Val) Val {
			v := x.load(st, a[0].(Ptr)).(*Term)
			c := x.b.Eq(v, a[1].(*Term))
			x.store(st, a[0].(Ptr), x.b.Ite(c, a[2].(*Term), v))
			return c
		})
	}
	smap := func(x *Exec, st *State, p Ptr) MapRef {
		v := x.load(st, p).(*Agg)
		if m, ok := v.e[0].(MapRef); ok {
			return m
		}
		m := MapRef{x.alloc(st, &MapVal{})}
		e := append([]Val(nil), v.e...)
		e[0] = m
		x.store(st, p, &Agg{e})
		return m
	}
	sdef("(*sync.Map).Load", func(x *Exec, st *State, a []Val) Val {
		m := x.obj(st, smap(x, st, a[0].(Ptr)).obj).(*MapVal)
		if j := x.mapFind(st, m, a[1]); j >= 0 {
			return &Agg{[]Val{m.vals[j], x.b.True}}
		}
		return &Agg{[]Val{Iface{}, x.b.False}}
	})
	sdef("(*sync.Map).LoadOrStore", func(x *Exec, st *State, a []Val) Val {
		r := smap(x, st, a[0].(Ptr))
		m := x.obj(st, r.obj).(*MapVal)
		if j := x.mapFind(st, m, a[1]); j >= 0 {
			return &Agg{[]Val{m.vals[j], x.b.True}}
		}
		x.mapSet(st, r, a[1], a[2])
		return &Agg{[]Val{a[2], x.b.False}}
	})
	sdef("(*sync.Map).Delete", func(x *Exec, st *State, a []Val) Val {
		x.mapDelete(st, smap(x, st, a[0].(Ptr)), a[1])
		return nil
	})
	sdef("(*sync.Map).Store", func(x *Exec, st *State, a []Val) Val {
		x.mapSet(st, smap(x, st, a[0].(Ptr)), a[1], a[2])
		return nil
	})

	// ---- fmt, log, errors ----
	intrinsics["fmt.Sprintf"] = func(x *Exec, st *State, a []Val, fn *ssa.Function) (Val, bool) {
		if f, ok := a[0].(Str); ok && f.b == nil {
			if t, _, ok := x.format(st, f.s, x.sliceVals(st, a[1].(Slice))); ok {
				return x.mkStr(t), false
			}
		}
		x.pushFrame(st, fn, a, nil) // the real implementation
		return nil, true
	}
	intrinsics["fmt.Sprint"] = func(x *Exec, st *State, a []Val, fn *ssa.Function) (Val, bool) {
		if args := x.sliceVals(st, a[0].(Slice)); len(args) == 1 {
			if t, _, ok := x.format(st, "%v", args); ok {
				return x.mkStr(t), false
			}
		}
		x.pushFrame(st, fn, a, nil)
		return nil, true
	}
	base10 := func(x *Exec, v Val) {
		if t, ok := v.(*Term); !ok || !t.IsConst() || t.C != 10 {
			unsup("number formatting in this base")
		}
	}
	signed := func(x *Exec, st *State, t *Term) []*Term {
		if x.branch(st, x.b.Slt(t, x.b.C(t.W, 0))) {
			return append(x.strBytes(Str{s: "-"}), x.decimal(st, x.b.Sub(x.b.C(t.W, 0), t))...)
		}
		return x.decimal(st, t)
	}
	def("strconv.FormatUint", func(x *Exec, st *State, a []Val) Val {
		base10(x, a[1])
		return x.mkStr(x.decimal(st, a[0].(*Term)))
	})
	def("strconv.FormatInt", func(x *Exec, st *State, a []Val) Val {
		base10(x, a[1])
		return x.mkStr(signed(x, st, a[0].(*Term)))
	})
	def("strconv.Itoa", func(x *Exec, st *State, a []Val) Val {
		return x.mkStr(signed(x, st, a[0].(*Term)))
	})
	def("fmt.Errorf", func(x *Exec, st *State, a []Val) Val {
		// error texts are not part of any property: digits of symbolic operands are elided
		f := x.cstr(a[0])
		args := x.sliceVals(st, a[1].(Slice))
		var safe []Val
		for _, v := range args {
			if i, ok := v.(Iface); ok {
				if t, ok := i.v.(*Term); ok && !t.IsConst() {
					v = Iface{t: types.Typ[types.String], v: Str{s: "?"}}
				}
			}
			safe = append(safe, v)
		}
		t, w, _ := x.format(st, f, safe)
		return x.mkErr(st, t, w)
	})
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "fmt.Println", "fmt.Printf", "fmt.Print"} {
		n := n
		def(n, func(x *Exec, st *State, a []Val) Val {
			if strings.HasPrefix(n, "fmt") {
				return &Agg{[]Val{x.b.C(64, 0), Iface{}}}
			}
			return nil
		})
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		n := n
		def(n, func(x *Exec, st *State, a []Val) Val {
			x.addViolation(st, "exit", "process exit via "+n, x.where(st), x.b.True)
			panic(infeasible{})
		})
	}

	// ---- hashes ----
	arr := func(x *Exec, ts []*Term) Val { return x.tupArr(ts) }
	def("golang.org/x/crypto/blake2b.Sum256", func(x *Exec, st *State, a []Val) Val {
		return arr(x, x.hashApp("blake2b", 32, nil, x.sliceTerms(st, a[0])))
	})
	def("golang.org/x/crypto/blake2b.Sum512", func(x *Exec, st *State, a []Val) Val {
		return arr(x, x.hashApp("blake2b", 64, nil, x.sliceTerms(st, a[0])))
	})
	def("crypto/sha512.Sum512", func(x *Exec, st *State, a []Val) Val {
		return arr(x, x.hashApp("sha512", 64, x.sliceTerms(st, a[0])))
	})
	def("crypto/sha256.Sum256", func(x *Exec, st *State, a []Val) Val {
		return arr(x, x.hashApp("sha256", 32, x.sliceTerms(st, a[0])))
	})
	def("hash/crc32.ChecksumIEEE", func(x *Exec, st *State, a []Val) Val {
		bs := x.sliceTerms(st, a[0])
		if c, ok := concBytes(bs); ok {
			return x.b.C(32, uint64(crc32.ChecksumIEEE(c)))
		}
		crc := x.b.C(32, 0xffffffff)
		for _, b := range bs {
			crc = x.b.BXor(crc, x.b.Zext(32, b))
			// crc' = (crc >> 8) ^ T[crc & 0xff], T linear over GF(2)
			low := x.b.Extract(7, 0, crc)
			acc := x.b.Zext(32, x.b.Extract(31, 8, crc))
			for k := 0; k < 8; k++ {
				m := x.b.Sext(32, x.b.Extract(k, k, low))
				acc = x.b.BXor(acc, x.b.BAnd(m, x.b.C(32, uint64(crc32.IEEETable[1<<uint(k)]))))
			}
			crc = acc
		}
		return x.b.BNot(crc)
	})

	// ---- math ----
	def("math.Float64bits", func(x *Exec, st *State, a []Val) Val { return x.b.C(64, math.Float64bits(float64(a[0].(Flt)))) })
	def("math.Float32bits", func(x *Exec, st *State, a []Val) Val {
		return x.b.C(32, uint64(math.Float32bits(float32(a[0].(Flt)))))
	})
	def("math.Float64frombits", func(x *Exec, st *State, a []Val) Val {
		return Flt(math.Float64frombits(x.concretizeFloat(st, a[0].(*Term))))
	})
	def("math.Float32frombits", func(x *Exec, st *State, a []Val) Val {
		return Flt(math.Float32frombits(uint32(x.concretizeFloat(st, a[0].(*Term)))))
	})
	def("math/bits.Len64", func(x *Exec, st *State, a []Val) Val {
		t := a[0].(*Term)
		if t.IsConst() {
			return x.i64(bits.Len64(t.C))
		}
		r := x.i64(0).(*Term)
		for k := 0; k < 64; k++ {
			r = x.b.Ite(x.b.Eq(x.b.Extract(k, k, t), x.b.C(1, 1)), x.b.C(64, uint64(k+1)), r)
		}
		return r
	})
	def("os.Getenv", func(x *Exec, st *State, a []Val) Val { return Str{} })
}

func (x *Exec) concretizeFloat(st *State, t *Term) uint64 {
	if !t.IsConst() {
		unsup("symbolic floating point")
	}
	return t.C
}

func (x *Exec) termSlice(st *State, v Val) []*Term {
	var out []*Term
	for _, e := range x.sliceVals(st, v.(Slice)) {
		out = append(out, e.(*Term))
	}
	return out
}

// validUTF8 builds the exact validity condition, from the last byte backwards.
func validUTF8(x *Exec, st *State, a []Val) Val {
	bs := x.sliceTerms(st, a[0])
	if c, ok := concBytes(bs); ok {
		return x.b.BoolC(utf8.Valid(c))
	}
	b := x.b
	in := func(t *Term, lo, hi uint64) *Term {
		return b.And(b.Not(b.Ult(t, b.C(8, lo))), b.Not(b.Ult(b.C(8, hi), t)))
	}
	n := len(bs)
	ok := make([]*Term, n+4)
	for i := range ok {
		ok[i] = b.False
	}
	ok[n] = b.True
	for i := n - 1; i >= 0; i-- {
		t := bs[i]
		if t.umax() < 0x80 {
			ok[i] = ok[i+1]
			continue
		}
		alts := []*Term{b.And(in(t, 0, 0x7f), ok[i+1])}
		type form struct{ lo, hi, lo2, hi2, n uint64 }
		for _, f := range []form{{0xc2, 0xdf, 0x80, 0xbf, 2}, {0xe0, 0xe0, 0xa0, 0xbf, 3}, {0xe1, 0xec, 0x80, 0xbf, 3}, {0xed, 0xed, 0x80, 0x9f, 3}, {0xee, 0xef, 0x80, 0xbf, 3}, {0xf0, 0xf0, 0x90, 0xbf, 4}, {0xf1, 0xf3, 0x80, 0xbf, 4}, {0xf4, 0xf4, 0x80, 0x8f, 4}} {
			if i+int(f.n) > n {
				continue
			}
			c := []*Term{in(t, f.lo, f.hi), in(bs[i+1], f.lo2, f.hi2), ok[i+int(f.n)]}
			for k := 2; k < int(f.n); k++ {
				c = append(c, in(bs[i+k], 0x80, 0xbf))
			}
			alts = append(alts, b.And(c...))
		}
		ok[i] = b.Or(alts...)
	}
	return ok[0]
}
