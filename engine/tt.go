package main

// Small-support canonicalisation: a term whose value depends on at most
// ttMax one-bit leaves is represented by its truth table, so that functions
// that are equal (or constant, or affine over GF(2)) become the same term.

import "sort"

const ttMax = 8

type ttInfo struct {
	leaves []*Term // 1-bit leaves sorted by id; nil with big=true when too many
	big    bool
	vals   []uint64 // 2^len(leaves) values
}

type ttKey struct {
	w int
	h uint64
}

type ttEnt struct {
	t *Term
	i *ttInfo
}

// ttSet returns the truth table of t; with opaque set, one-bit sums are leaves
// of their own (coarser, but reaches terms over many input bits).
func ttSet(b *B, t *Term, opaque bool) *ttInfo {
	if opaque {
		if t.tt2 == nil {
			t.tt2 = b.ttCompute(t, true)
		}
		return t.tt2
	}
	if t.tt == nil {
		t.tt = b.ttCompute(t, false)
	}
	return t.tt
}

var ttBig = &ttInfo{big: true}

func (b *B) leafTT(leaf *Term) *ttInfo {
	return &ttInfo{leaves: []*Term{leaf}, vals: []uint64{0, 1}}
}

// bitLeaf is the 1-bit extract of a Var or UF (built without simplification).
func (b *B) bitLeaf(x *Term, i int) *Term {
	if x.W == 1 && i == 0 {
		return x
	}
	return b.mkRaw(&Term{Op: OExtract, W: 1, Hi: i, Lo: i, A: []*Term{x}})
}

func (b *B) ttCompute(t *Term, opaque bool) *ttInfo {
	if t.W > 64 || t.W < 0 {
		return ttBig
	}
	switch t.Op {
	case OConst:
		return &ttInfo{vals: []uint64{t.C}}
	case OVar:
		if t.W == 0 {
			return b.leafTT(t)
		}
		if t.W > ttMax {
			return ttBig
		}
		return b.leafRange(t, t.W-1, 0)
	case OUF:
		if t.W == 1 {
			return b.leafTT(t)
		}
		if t.W > ttMax {
			return ttBig
		}
		return b.leafRange(t, t.W-1, 0)
	case OExtract:
		a := t.A[0]
		if a.Op == OVar || a.Op == OUF || a.W > 64 || ttSet(b, a, opaque).big {
			if a.Op == OVar || a.Op == OUF {
				if t.W > ttMax {
					return ttBig
				}
				return b.leafRange(a, t.Hi, t.Lo)
			}
			if t.W == 1 {
				return b.leafTT(t)
			}
			return ttBig
		}
	}
	if opaque && t.W == 1 && t.Op == OBXor {
		return b.leafTT(t)
	}
	ls, ok := b.unionLeaves(t.A, opaque)
	if !ok {
		if t.W == 1 && (opaque || t.Op == OBXor) {
			return b.leafTT(t)
		}
		return ttBig
	}
	n := len(ls)
	// child projections
	infos := make([]*ttInfo, len(t.A))
	proj := make([][]int, len(t.A))
	for k, a := range t.A {
		infos[k] = ttSet(b, a, opaque)
		pos := make([]int, len(infos[k].leaves))
		j := 0
		for q, l := range infos[k].leaves {
			for ls[j] != l {
				j++
			}
			pos[q] = j
		}
		proj[k] = pos
	}
	vals := make([]uint64, 1<<uint(n))
	args := make([]uint64, len(t.A))
	for m := range vals {
		for k := range t.A {
			idx := 0
			for q, p := range proj[k] {
				idx |= (m >> uint(p) & 1) << uint(q)
			}
			args[k] = infos[k].vals[idx]
		}
		v, ok := applyOp(t, args)
		if !ok {
			return ttBig
		}
		vals[m] = v
	}
	return &ttInfo{leaves: ls, vals: vals}
}

func (b *B) leafRange(a *Term, hi, lo int) *ttInfo {
	var ls []*Term
	w := hi - lo + 1
	for i := 0; i < w; i++ {
		ls = append(ls, b.bitLeaf(a, lo+i))
	}
	ord := make([]int, w)
	for i := range ord {
		ord[i] = i
	}
	sort.Slice(ord, func(i, j int) bool { return ls[ord[i]].id < ls[ord[j]].id })
	sl := make([]*Term, w)
	vals := make([]uint64, 1<<uint(w))
	for q, o := range ord {
		sl[q] = ls[o]
		for m := range vals {
			vals[m] |= uint64(m>>uint(q)&1) << uint(o)
		}
	}
	return &ttInfo{leaves: sl, vals: vals}
}

func (b *B) unionLeaves(as []*Term, opaque bool) ([]*Term, bool) {
	var ls []*Term
	for _, a := range as {
		i := ttSet(b, a, opaque)
		if i.big {
			return nil, false
		}
		for _, l := range i.leaves {
			p := sort.Search(len(ls), func(k int) bool { return ls[k].id >= l.id })
			if p < len(ls) && ls[p] == l {
				continue
			}
			if len(ls) >= ttMax {
				return nil, false
			}
			ls = append(ls, nil)
			copy(ls[p+1:], ls[p:])
			ls[p] = l
		}
	}
	return ls, true
}

// applyOp evaluates one operator on constant operands.
func applyOp(t *Term, a []uint64) (uint64, bool) {
	w := 0
	if len(t.A) > 0 {
		w = t.A[0].W
	}
	mk := func(v uint64) (uint64, bool) { return v & maskB(t.W), true }
	switch t.Op {
	case ONot:
		return mk(a[0] ^ 1)
	case OAnd:
		v := uint64(1)
		for _, x := range a {
			v &= x
		}
		return mk(v)
	case OOr:
		v := uint64(0)
		for _, x := range a {
			v |= x
		}
		return mk(v)
	case OIte:
		if a[0] != 0 {
			return mk(a[1])
		}
		return mk(a[2])
	case OConcat:
		var v uint64
		for i, x := range a {
			v = v<<uint(t.A[i].W) | x
		}
		return mk(v)
	case OExtract:
		return mk(a[0] >> uint(t.Lo))
	case OEq:
		return mk(b2u(a[0] == a[1]))
	case OUlt:
		return mk(b2u(a[0] < a[1]))
	case OSlt:
		return mk(b2u(sx(a[0], w) < sx(a[1], w)))
	case OBNot:
		return mk(^a[0])
	case OBAnd:
		return mk(a[0] & a[1])
	case OBOr:
		return mk(a[0] | a[1])
	case OBXor:
		v := uint64(0)
		for _, x := range a {
			v ^= x
		}
		return mk(v)
	case OAdd:
		return mk(a[0] + a[1])
	case OSub:
		return mk(a[0] - a[1])
	case OMul:
		return mk(a[0] * a[1])
	case OUdiv:
		if a[1] == 0 {
			return mk(^uint64(0))
		}
		return mk(a[0] / a[1])
	case OUrem:
		if a[1] == 0 {
			return mk(a[0])
		}
		return mk(a[0] % a[1])
	case OSdiv:
		if a[1] == 0 {
			return 0, false
		}
		return mk(uint64(sdiv(sx(a[0], w), sx(a[1], w))))
	case OSrem:
		if a[1] == 0 {
			return 0, false
		}
		return mk(uint64(srem(sx(a[0], w), sx(a[1], w))))
	case OShl:
		if a[1] >= uint64(w) {
			return mk(0)
		}
		return mk(a[0] << a[1])
	case OLshr:
		if a[1] >= uint64(w) {
			return mk(0)
		}
		return mk(a[0] >> a[1])
	case OAshr:
		if a[1] >= uint64(w) {
			a[1] = uint64(w - 1)
		}
		return mk(uint64(sx(a[0], w) >> a[1]))
	case OSext:
		return mk(uint64(sx(a[0], w)))
	}
	return 0, false
}

// canon replaces a freshly built small-support term by its representative.
func (b *B) canon(t *Term) *Term {
	switch t.Op {
	case OExtract:
		if t.W != 1 || t.A[0].Op == OVar || t.A[0].Op == OUF {
			return t
		}
	case OConst, OVar, OUF, OConcat, OIConst, OIVar, OIAdd, OIMul, OIMod, OIOfU, OIOfS, OILe, OILt, OIEq:
		return t
	}
	if t.W < 0 || t.W > 64 || (t.W == 1 && t.Op == OBXor) {
		return t
	}
	if t.Op == OBNot && t.W == 1 {
		return t
	}
	i := ttSet(b, t, false)
	opaque := false
	if i.big {
		opaque = true
		if i = ttSet(b, t, true); i.big {
			return t
		}
	}
	vals := i.vals
	same := true
	for _, v := range vals {
		if v != vals[0] {
			same = false
			break
		}
	}
	if same {
		return b.constRaw(t.W, vals[0])
	}
	if t.W > 0 {
		lo, hi := vals[0], vals[0]
		for _, v := range vals {
			lo, hi = min(lo, v), max(hi, v)
		}
		t.lo, t.hi = max(t.lo, lo), min(t.hi, hi)
	}
	// drop unused leaves
	n := len(i.leaves)
	used := 0
	for k := 0; k < n; k++ {
		for m := range vals {
			if vals[m] != vals[m^1<<uint(k)] {
				used |= 1 << uint(k)
				break
			}
		}
	}
	if used != 1<<uint(n)-1 {
		var ls []*Term
		var pos []int
		for k := 0; k < n; k++ {
			if used>>uint(k)&1 == 1 {
				ls = append(ls, i.leaves[k])
				pos = append(pos, k)
			}
		}
		nv := make([]uint64, 1<<uint(len(ls)))
		for m := range nv {
			idx := 0
			for q, p := range pos {
				idx |= (m >> uint(q) & 1) << uint(p)
			}
			nv[m] = vals[idx]
		}
		i = &ttInfo{leaves: ls, vals: nv}
		if opaque {
			t.tt2 = i
		} else {
			t.tt = i
		}
		vals = nv
		n = len(ls)
	}
	// affine?
	boolLeaf := false
	for _, l := range i.leaves {
		if l.W == 0 {
			boolLeaf = true
		}
	}
	if !boolLeaf {
		c := vals[0]
		co := make([]uint64, n)
		for k := range co {
			co[k] = vals[1<<uint(k)] ^ c
		}
		affine := true
		for m := range vals {
			v := c
			for k := 0; k < n; k++ {
				if m>>uint(k)&1 == 1 {
					v ^= co[k]
				}
			}
			if v != vals[m] {
				affine = false
				break
			}
		}
		if affine {
			bit := func(j int) *Term {
				acc := b.C(1, c>>uint(j))
				for k := 0; k < n; k++ {
					if co[k]>>uint(j)&1 == 1 {
						acc = b.BXor(acc, i.leaves[k])
					}
				}
				return acc
			}
			if t.W == 0 {
				e := bit(0)
				neg := false
				if e.Op == OBNot {
					e = e.A[0]
					neg = true
				}
				r := b.mkRaw(&Term{Op: OEq, A: []*Term{b.C(1, 1), e}})
				if neg {
					r = b.mkRaw(&Term{Op: ONot, A: []*Term{r}})
				}
				return r
			}
			out := make([]*Term, t.W)
			for j := 0; j < t.W; j++ {
				out[t.W-1-j] = bit(j)
			}
			return b.Concat(out...)
		}
	}
	h := uint64(14695981039346656037)
	for _, l := range i.leaves {
		h = (h ^ uint64(l.id)) * 1099511628211
		h ^= h >> 31
	}
	for _, v := range vals {
		h = (h ^ v) * 1099511628211
		h ^= h >> 29
	}
	k := ttKey{t.W, h}
	for _, ent := range b.ttTab[k] {
		u := ent.i
		if len(u.leaves) != n {
			continue
		}
		eq := true
		for q := range u.leaves {
			if u.leaves[q] != i.leaves[q] {
				eq = false
			}
		}
		for q := range vals {
			if !eq || u.vals[q] != vals[q] {
				eq = false
				break
			}
		}
		if eq {
			return ent.t
		}
	}
	b.ttTab[k] = append(b.ttTab[k], ttEnt{t, i})
	return t
}
