package main

// Integer semantics of bit-vector terms. Every term t of width W is given an integer
// expression E with E = t (mod 2^W); additions, subtractions, products, left shifts and
// truncations carry over unchanged, right shifts become exact floor divisions, and a wrap is
// only introduced (again exactly, as a floor) where a value may leave its type's range.
// Expressions have intervals and a polynomial normal form, and their inequalities are
// decided by an SMT solver over linear integer arithmetic.

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"sort"
)

type iop uint8

const (
	iConst iop = iota
	iAtom
	iByte // byte idx of a little-endian array
	iLin
	iMul
	iFloor
)

type inode struct {
	op     iop
	id     int
	c      *big.Int // constant part of iConst and iLin
	a      []*inode
	cs     []*big.Int
	k      int
	at     int // atom index (iAtom, iByte)
	idx    int
	lo, hi *big.Int // nil: unbounded
	elim   bool     // the bounds come from a floor definition
	poly   *poly
}

type iatom struct {
	name   string
	lo, hi *big.Int
	body   *poly // floor(body / 2^k)
	k      int
	bytes  int   // byte array of this length
	term   *Term // variable or opaque term
}

// poly maps monomials (sorted atom indices, four bytes each) to coefficients.
type poly struct {
	m map[string]*big.Int
}

type IB struct {
	b      *B
	tab    map[string]*inode
	nodes  int
	atoms  []*iatom
	atomBy map[string]int
	memo   map[int]*inode // term id -> E
	arr    map[string][2]int
	bound  map[string][2]*big.Int
	free   bool // some integers are not functions of the inputs
	depth  int
	steps  int
	limit  int
}

func newIB(b *B) *IB {
	return &IB{b: b, tab: map[string]*inode{}, atomBy: map[string]int{}, memo: map[int]*inode{}, arr: map[string][2]int{}, bound: map[string][2]*big.Int{}, limit: 400000}
}

type ibLimit struct{}

func (ib *IB) tick(n int) {
	ib.steps += n
	if ib.steps > 400000000 {
		panic(ibLimit{})
	}
}

var (
	bi0 = big.NewInt(0)
	bi1 = big.NewInt(1)
)

func pow2(k int) *big.Int { return new(big.Int).Lsh(bi1, uint(k)) }

func bmin(x, y *big.Int) *big.Int {
	if x.Cmp(y) < 0 {
		return x
	}
	return y
}
func bmax(x, y *big.Int) *big.Int {
	if x.Cmp(y) > 0 {
		return x
	}
	return y
}

// ---- atoms ----

func (ib *IB) newAtom(key string, a *iatom) int {
	if i, ok := ib.atomBy[key]; ok {
		return i
	}
	ib.atoms = append(ib.atoms, a)
	ib.atomBy[key] = len(ib.atoms) - 1
	return len(ib.atoms) - 1
}

func (ib *IB) intern(key string, n *inode) *inode {
	if o, ok := ib.tab[key]; ok {
		return o
	}
	ib.nodes++
	n.id = ib.nodes
	ib.tab[key] = n
	ib.interval(n)
	return n
}

func (ib *IB) Const(c *big.Int) *inode {
	return ib.intern("c"+c.String(), &inode{op: iConst, c: c})
}

func (ib *IB) Int(c int64) *inode { return ib.Const(big.NewInt(c)) }

func (ib *IB) Atom(key, name string, lo, hi *big.Int, t *Term) *inode {
	i := ib.newAtom(key, &iatom{name: name, lo: lo, hi: hi, term: t})
	return ib.intern(fmt.Sprintf("a%d", i), &inode{op: iAtom, at: i})
}

type ltab struct {
	n []*inode
	c map[*inode]*big.Int
	k *big.Int
}

func newLtab() *ltab { return &ltab{c: map[*inode]*big.Int{}, k: new(big.Int)} }

func (l *ltab) add(n *inode, c *big.Int) {
	if n.op == iConst {
		l.k.Add(l.k, new(big.Int).Mul(n.c, c))
		return
	}
	if o, ok := l.c[n]; ok {
		l.c[n] = new(big.Int).Add(o, c)
		return
	}
	l.c[n] = c
	l.n = append(l.n, n)
}

// addDeep adds c*n with linear nodes opened d levels deep.
func (l *ltab) addDeep(n *inode, c *big.Int, d int) {
	if n.op == iLin && d > 0 {
		l.k.Add(l.k, new(big.Int).Mul(n.c, c))
		for i, a := range n.a {
			l.addDeep(a, new(big.Int).Mul(n.cs[i], c), d-1)
		}
		return
	}
	l.add(n, c)
}

func (ib *IB) fromLtab(l *ltab) *inode {
	var ns []*inode
	for _, n := range l.n {
		if l.c[n].Sign() != 0 {
			ns = append(ns, n)
		}
	}
	if len(ns) == 0 {
		return ib.Const(l.k)
	}
	if len(ns) == 1 && l.k.Sign() == 0 && l.c[ns[0]].Cmp(bi1) == 0 {
		return ns[0]
	}
	// a multiple of a sum is opened, so that c*(x+y) and c*x+c*y agree
	if len(ns) == 1 && ns[0].op == iLin {
		m := newLtab()
		m.k.Set(l.k)
		m.addDeep(ns[0], l.c[ns[0]], 1)
		return ib.fromLtab(m)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].id < ns[j].id })
	key := "l" + l.k.String()
	cs := make([]*big.Int, len(ns))
	for i, n := range ns {
		cs[i] = l.c[n]
		key += fmt.Sprintf(",%d*%s", n.id, cs[i].String())
	}
	return ib.intern(key, &inode{op: iLin, a: ns, cs: cs, c: new(big.Int).Set(l.k)})
}

// Lin is c0 + sum of cs[i]*ns[i].
func (ib *IB) Lin(c0 *big.Int, ns []*inode, cs []*big.Int) *inode {
	l := newLtab()
	l.k.Set(c0)
	for i, n := range ns {
		l.add(n, cs[i])
	}
	return ib.fromLtab(l)
}

func (ib *IB) Add(x, y *inode) *inode {
	return ib.Lin(bi0, []*inode{x, y}, []*big.Int{bi1, bi1})
}
func (ib *IB) Sub(x, y *inode) *inode {
	return ib.Lin(bi0, []*inode{x, y}, []*big.Int{bi1, big.NewInt(-1)})
}
func (ib *IB) Scale(x *inode, c *big.Int) *inode { return ib.Lin(bi0, []*inode{x}, []*big.Int{c}) }

func (ib *IB) Mul(x, y *inode) *inode {
	if x.op == iConst {
		return ib.Scale(y, x.c)
	}
	if y.op == iConst {
		return ib.Scale(x, y.c)
	}
	if x.op == iLin && len(x.a) == 1 && x.c.Sign() == 0 {
		return ib.Scale(ib.Mul(x.a[0], y), x.cs[0])
	}
	if y.op == iLin && len(y.a) == 1 && y.c.Sign() == 0 {
		return ib.Scale(ib.Mul(x, y.a[0]), y.cs[0])
	}
	if x.id > y.id {
		x, y = y, x
	}
	return ib.intern(fmt.Sprintf("m%d,%d", x.id, y.id), &inode{op: iMul, a: []*inode{x, y}})
}

func (ib *IB) Floor(x *inode, k int) *inode {
	if k == 0 {
		return x
	}
	if x.op == iConst {
		return ib.Const(new(big.Int).Rsh(x.c, uint(k)))
	}
	if x.op == iFloor {
		return ib.Floor(x.a[0], x.k+k)
	}
	n := ib.intern(fmt.Sprintf("f%d,%d", x.id, k), &inode{op: iFloor, a: []*inode{x}, k: k})
	if n.lo != nil && n.hi != nil && n.lo.Cmp(n.hi) == 0 {
		return ib.Const(n.lo)
	}
	return n
}

// ---- intervals ----

func mulIv(c, lo, hi *big.Int) (*big.Int, *big.Int) {
	if lo == nil || hi == nil {
		if c.Sign() == 0 {
			return bi0, bi0
		}
		return nil, nil
	}
	x, y := new(big.Int).Mul(c, lo), new(big.Int).Mul(c, hi)
	if c.Sign() < 0 {
		return y, x
	}
	return x, y
}

func (n *inode) narrow(lo, hi *big.Int) bool {
	ch := false
	if lo != nil && (n.lo == nil || lo.Cmp(n.lo) > 0) {
		n.lo, ch = lo, true
	}
	if hi != nil && (n.hi == nil || hi.Cmp(n.hi) < 0) {
		n.hi, ch = hi, true
	}
	return ch
}

func (l *ltab) interval() (*big.Int, *big.Int) {
	lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for _, n := range l.n {
		c := l.c[n]
		if c.Sign() == 0 {
			continue
		}
		x, y := mulIv(c, n.lo, n.hi)
		if x == nil {
			return nil, nil
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return lo, hi
}

func (ib *IB) interval(n *inode) {
	switch n.op {
	case iConst:
		n.lo, n.hi = n.c, n.c
	case iAtom:
		a := ib.atoms[n.at]
		n.lo, n.hi = a.lo, a.hi
	case iByte:
		n.lo, n.hi = bi0, big.NewInt(255)
	case iMul:
		x, y := n.a[0], n.a[1]
		if x.lo == nil || x.hi == nil || y.lo == nil || y.hi == nil {
			return
		}
		p := []*big.Int{new(big.Int).Mul(x.lo, y.lo), new(big.Int).Mul(x.lo, y.hi), new(big.Int).Mul(x.hi, y.lo), new(big.Int).Mul(x.hi, y.hi)}
		n.lo, n.hi = p[0], p[0]
		for _, q := range p[1:] {
			n.lo, n.hi = bmin(n.lo, q), bmax(n.hi, q)
		}
		if x == y && n.lo.Sign() < 0 {
			n.lo = bi0
		}
	case iFloor:
		if n.a[0].lo != nil {
			n.lo = new(big.Int).Rsh(n.a[0].lo, uint(n.k))
		}
		if n.a[0].hi != nil {
			n.hi = new(big.Int).Rsh(n.a[0].hi, uint(n.k))
		}
	case iLin:
		l := newLtab()
		l.k.Set(n.c)
		for i, a := range n.a {
			l.add(a, n.cs[i])
		}
		n.lo, n.hi = l.interval()
		// A - 2^k*floor(A/2^k) lies in [0, 2^k)
		for d1 := 0; d1 <= 2; d1++ {
			l := newLtab()
			l.addDeep(n, bi1, d1+1)
			if d1 > 0 {
				n.narrow(l.interval())
			}
			for _, q := range l.n {
				c := l.c[q]
				if q.op != iFloor || c.Sign() == 0 {
					continue
				}
				m, r := new(big.Int).QuoRem(new(big.Int).Neg(c), pow2(q.k), new(big.Int))
				if r.Sign() != 0 || m.Sign() == 0 {
					continue
				}
				for d2 := 0; d2 <= 3; d2++ {
					w := newLtab()
					w.k.Set(l.k)
					for _, a := range l.n {
						if a != q {
							w.add(a, l.c[a])
						}
					}
					w.addDeep(q.a[0], new(big.Int).Neg(m), d2)
					lo, hi := w.interval()
					if lo == nil {
						continue
					}
					dl, dh := mulIv(m, bi0, new(big.Int).Sub(pow2(q.k), bi1))
					lo.Add(lo, dl)
					hi.Add(hi, dh)
					if n.narrow(lo, hi) {
						n.elim = true
					}
				}
			}
		}
	}
}

func (n *inode) within(lo, hi *big.Int) bool {
	return n.lo != nil && n.hi != nil && n.lo.Cmp(lo) >= 0 && n.hi.Cmp(hi) <= 0
}

// ---- terms ----

func (ib *IB) E(t *Term) *inode {
	if n, ok := ib.memo[t.id]; ok {
		return n
	}
	n := ib.conv(t)
	ib.memo[t.id] = n
	return n
}

// fit looks for a congruent expression modulo 2^w that lies within [lo, hi], dropping
// multiples of 2^w.
func (ib *IB) fit(n *inode, w int, lo, hi *big.Int) *inode {
	if n.within(lo, hi) {
		return n
	}
	m := pow2(w)
	for d := 1; d <= 3; d++ {
		l := newLtab()
		l.addDeep(n, bi1, d)
		drop := false
		for _, a := range l.n {
			if c := l.c[a]; c.Sign() != 0 && new(big.Int).Mod(c, m).Sign() == 0 {
				l.c[a] = bi0
				drop = true
			}
		}
		if !drop && d > 1 {
			continue
		}
		// the constant modulo 2^w, as small as possible
		k := new(big.Int).Add(l.k, pow2(w-1))
		l.k.Sub(l.k, new(big.Int).Lsh(k.Rsh(k, uint(w)), uint(w)))
		if r := ib.fromLtab(l); r.within(lo, hi) {
			return r
		}
	}
	return nil
}

// U is the unsigned value of t, S the signed one.
func (ib *IB) U(t *Term) *inode {
	n := ib.E(t)
	if r := ib.fit(n, t.W, bi0, new(big.Int).Sub(pow2(t.W), bi1)); r != nil {
		return r
	}
	return ib.Lin(bi0, []*inode{n, ib.Floor(n, t.W)}, []*big.Int{bi1, new(big.Int).Neg(pow2(t.W))})
}

func (ib *IB) S(t *Term) *inode {
	n := ib.E(t)
	h := pow2(t.W - 1)
	if r := ib.fit(n, t.W, new(big.Int).Neg(h), new(big.Int).Sub(h, bi1)); r != nil {
		return r
	}
	f := ib.Floor(ib.Lin(h, []*inode{n}, []*big.Int{bi1}), t.W)
	return ib.Lin(bi0, []*inode{n, f}, []*big.Int{bi1, new(big.Int).Neg(pow2(t.W))})
}

func (ib *IB) opaque(t *Term) *inode {
	if os.Getenv("SYMDUMP") != "" {
		fmt.Fprintln(os.Stderr, "opaque", dump(t, 5))
	}
	lo, hi := bi0, new(big.Int).Sub(pow2(t.W), bi1)
	if t.W <= 64 {
		lo, hi = new(big.Int).SetUint64(t.lo), new(big.Int).SetUint64(t.hi)
	}
	return ib.Atom(fmt.Sprintf("t%d", t.id), fmt.Sprintf("t%d", t.id), lo, hi, t)
}

func (ib *IB) conv(t *Term) *inode {
	switch t.Op {
	case OConst:
		c := new(big.Int).SetUint64(t.C)
		if t.W > 1 && t.C>>uint(t.W-1)&1 == 1 {
			c.Sub(c, pow2(t.W))
		}
		return ib.Const(c)
	case OVar:
		if p, ok := ib.arr[t.Name]; ok {
			return ib.intern(fmt.Sprintf("b%d,%d", p[0], p[1]), &inode{op: iByte, at: p[0], idx: p[1]})
		}
		if r, ok := ib.bound[t.Name]; ok {
			return ib.Atom("v"+t.Name, t.Name, r[0], r[1], t)
		}
		return ib.Atom("v"+t.Name, t.Name, bi0, new(big.Int).Sub(pow2(t.W), bi1), t)
	case OAdd:
		return ib.Add(ib.E(t.A[0]), ib.E(t.A[1]))
	case OSub:
		return ib.Sub(ib.E(t.A[0]), ib.E(t.A[1]))
	case OMul:
		return ib.Mul(ib.E(t.A[0]), ib.E(t.A[1]))
	case OBNot:
		return ib.Lin(big.NewInt(-1), []*inode{ib.E(t.A[0])}, []*big.Int{big.NewInt(-1)})
	case OConcat:
		l := newLtab()
		off := t.W
		for i, a := range t.A {
			off -= a.W
			if i == 0 {
				l.add(ib.E(a), pow2(off))
			} else {
				l.add(ib.U(a), pow2(off))
			}
		}
		return ib.fromLtab(l)
	case OExtract:
		return ib.Floor(ib.E(t.A[0]), t.Lo)
	case OSext:
		return ib.S(t.A[0])
	case OBOr, OBXor, OBAnd:
		x, y := ib.U(t.A[0]), ib.U(t.A[1])
		if x.op == iConst && x.c.Sign() == 0 {
			x, y = y, x
		}
		if y.op == iConst && y.c.Sign() == 0 {
			if t.Op == OBAnd {
				return y
			}
			return x
		}
		if t.Op != OBAnd {
			for i := 0; i < 2; i++ {
				if z := ib.tz(x); z > 0 && y.within(bi0, new(big.Int).Sub(pow2(z), bi1)) {
					return ib.Add(x, y)
				}
				x, y = y, x
			}
		}
	}
	return ib.opaque(t)
}

// tz is a number of low bits known to be zero.
func (ib *IB) tz(n *inode) int {
	switch n.op {
	case iConst:
		if n.c.Sign() == 0 {
			return 1 << 20
		}
		return int(n.c.TrailingZeroBits())
	case iLin:
		z := 1 << 20
		if n.c.Sign() != 0 {
			z = int(n.c.TrailingZeroBits())
		}
		for i, a := range n.a {
			k := int(n.cs[i].TrailingZeroBits()) + ib.tz(a)
			if k < z {
				z = k
			}
		}
		return z
	case iMul:
		return ib.tz(n.a[0]) + ib.tz(n.a[1])
	}
	return 0
}

// ---- polynomials ----

func newPoly() *poly { return &poly{m: map[string]*big.Int{}} }

func (p *poly) addTerm(k string, c *big.Int) {
	if c.Sign() == 0 {
		return
	}
	if o, ok := p.m[k]; ok {
		s := new(big.Int).Add(o, c)
		if s.Sign() == 0 {
			delete(p.m, k)
		} else {
			p.m[k] = s
		}
		return
	}
	p.m[k] = c
}

func (p *poly) addPoly(q *poly, c *big.Int) {
	for k, v := range q.m {
		p.addTerm(k, new(big.Int).Mul(v, c))
	}
}

func monoOf(atoms ...int) string {
	sort.Ints(atoms)
	b := make([]byte, 4*len(atoms))
	for i, a := range atoms {
		binary.BigEndian.PutUint32(b[4*i:], uint32(a))
	}
	return string(b)
}

func monoAtoms(k string) []int {
	var out []int
	for i := 0; i+4 <= len(k); i += 4 {
		out = append(out, int(binary.BigEndian.Uint32([]byte(k[i:i+4]))))
	}
	return out
}

func monoMul(x, y string) string {
	if x == "" {
		return y
	}
	if y == "" {
		return x
	}
	return monoOf(append(monoAtoms(x), monoAtoms(y)...)...)
}

func (ib *IB) mulPoly(x, y *poly) *poly {
	ib.tick(len(x.m) * len(y.m))
	r := newPoly()
	for k, c := range x.m {
		for l, d := range y.m {
			r.addTerm(monoMul(k, l), new(big.Int).Mul(c, d))
		}
	}
	return r
}

func (p *poly) keys() []string {
	ks := make([]string, 0, len(p.m))
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p *poly) hash() string {
	var b []byte
	for _, k := range p.keys() {
		b = append(b, byte(len(k)))
		b = append(b, k...)
		t := p.m[k]
		b = append(b, byte(t.Sign()+2))
		tb := t.Bytes()
		b = append(b, byte(len(tb)))
		b = append(b, tb...)
	}
	return string(b)
}

func (p *poly) isConst() (*big.Int, bool) {
	switch len(p.m) {
	case 0:
		return bi0, true
	case 1:
		if c, ok := p.m[""]; ok {
			return c, true
		}
	}
	return nil, false
}

func (ib *IB) Poly(n *inode) *poly {
	if n.poly != nil {
		return n.poly
	}
	r := newPoly()
	switch n.op {
	case iConst:
		r.addTerm("", n.c)
	case iAtom:
		r.addTerm(monoOf(n.at), bi1)
	case iByte:
		w := newPoly()
		w.addTerm(monoOf(n.at), bi1)
		r.addPoly(ib.pfloor(w, 8*n.idx), bi1)
		if n.idx+1 < ib.atoms[n.at].bytes {
			r.addPoly(ib.pfloor(w, 8*n.idx+8), big.NewInt(-256))
		}
	case iLin:
		r.addTerm("", n.c)
		for i, a := range n.a {
			p := ib.Poly(a)
			ib.tick(len(p.m))
			r.addPoly(p, n.cs[i])
		}
	case iMul:
		r = ib.mulPoly(ib.Poly(n.a[0]), ib.Poly(n.a[1]))
	case iFloor:
		r = ib.pfloor(ib.Poly(n.a[0]), n.k)
	}
	n.poly = r
	return r
}

// pfloor normalises floor(p / 2^k).
func (ib *IB) pfloor(p *poly, k int) *poly {
	if k == 0 {
		return p
	}
	ib.tick(4 * len(p.m))
	out, rest := newPoly(), newPoly()
	m := pow2(k)
	half := pow2(k - 1)
	for key, c := range p.m {
		// c = q*2^k + r with -2^(k-1) <= r < 2^(k-1), except for the constant
		r := new(big.Int).Add(c, half)
		if key == "" {
			r.Set(c)
		}
		q := new(big.Int).Rsh(r, uint(k))
		r.Sub(c, new(big.Int).Mul(q, m))
		out.addTerm(key, q)
		rest.addTerm(key, r)
	}
	if c, ok := rest.isConst(); ok {
		out.addTerm("", new(big.Int).Rsh(c, uint(k)))
		return out
	}
	// common power of two
	z := -1
	for key, c := range rest.m {
		if key == "" {
			continue
		}
		if t := int(c.TrailingZeroBits()); z < 0 || t < z {
			z = t
		}
	}
	if z > 0 {
		s := newPoly()
		for key, c := range rest.m {
			s.addTerm(key, new(big.Int).Rsh(c, uint(z)))
		}
		out.addPoly(ib.pfloor(s, k-z), bi1)
		return out
	}
	// nested floor with coefficient one
	best := -1
	for key, c := range rest.m {
		if len(key) != 4 || c.Cmp(bi1) != 0 {
			continue
		}
		a := monoAtoms(key)[0]
		if ib.atoms[a].body != nil && a > best {
			best = a
		}
	}
	if best >= 0 {
		q := ib.atoms[best]
		s := newPoly()
		for key, c := range rest.m {
			if key == monoOf(best) {
				continue
			}
			s.addTerm(key, new(big.Int).Lsh(c, uint(q.k)))
		}
		s.addPoly(q.body, bi1)
		out.addPoly(ib.pfloor(s, k+q.k), bi1)
		return out
	}
	lo, hi := ib.polyIv(rest)
	if lo != nil {
		lo, hi = new(big.Int).Rsh(lo, uint(k)), new(big.Int).Rsh(hi, uint(k))
		if lo.Cmp(hi) == 0 {
			out.addTerm("", lo)
			return out
		}
	}
	key := fmt.Sprintf("F%d:%s", k, rest.hash())
	i := ib.newAtom(key, &iatom{body: rest, k: k, lo: lo, hi: hi})
	out.addTerm(monoOf(i), bi1)
	return out
}

func (ib *IB) monoIv(key string) (*big.Int, *big.Int) {
	lo, hi := bi1, bi1
	as := monoAtoms(key)
	for i := 0; i < len(as); i++ {
		a := ib.atoms[as[i]]
		if a.lo == nil || a.hi == nil {
			return nil, nil
		}
		p := []*big.Int{new(big.Int).Mul(lo, a.lo), new(big.Int).Mul(lo, a.hi), new(big.Int).Mul(hi, a.lo), new(big.Int).Mul(hi, a.hi)}
		lo, hi = p[0], p[0]
		for _, q := range p[1:] {
			lo, hi = bmin(lo, q), bmax(hi, q)
		}
	}
	return lo, hi
}

func (ib *IB) polyIv(p *poly) (*big.Int, *big.Int) {
	lo, hi := new(big.Int), new(big.Int)
	for k, c := range p.m {
		l, h := ib.monoIv(k)
		if l == nil {
			return nil, nil
		}
		x, y := mulIv(c, l, h)
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return lo, hi
}
