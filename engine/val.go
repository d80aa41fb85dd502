package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Val is an interpreter value: *Term (bool and integers), Str, Flt, *Agg
// (struct, tuple), *Arr (array), Ptr, Slice, Iface, *Closure, MapRef, IterRef,
// Native (reflect values and other host objects), Poison.
type Val interface{}

type Str struct {
	s string
	b []*Term // non-nil when any byte is symbolic
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type Flt float64

type Agg struct{ e []Val }

const chunk = 32

type Arr struct {
	n  int
	ch [][]Val
}

func newArr(vs []Val) *Arr {
	a := &Arr{n: len(vs)}
	for i := 0; i < len(vs); i += chunk {
		j := i + chunk
		if j > len(vs) {
			j = len(vs)
		}
		a.ch = append(a.ch, vs[i:j:j])
	}
	return a
}

func fillArr(n int, v Val) *Arr {
	a := &Arr{n: n}
	full := make([]Val, chunk)
	for i := range full {
		full[i] = v
	}
	for i := 0; i < n; i += chunk {
		k := n - i
		if k > chunk {
			k = chunk
		}
		a.ch = append(a.ch, full[:k:k])
	}
	return a
}

func (a *Arr) get(i int) Val { return a.ch[i/chunk][i%chunk] }
func (a *Arr) set(i int, v Val) *Arr {
	ch := make([][]Val, len(a.ch))
	copy(ch, a.ch)
	c := append([]Val(nil), ch[i/chunk]...)
	c[i%chunk] = v
	ch[i/chunk] = c
	return &Arr{a.n, ch}
}
func (a *Arr) slice(lo, hi int) []Val {
	out := make([]Val, 0, hi-lo)
	for i := lo; i < hi; {
		c := a.ch[i/chunk]
		o := i % chunk
		k := len(c) - o
		if k > hi-i {
			k = hi - i
		}
		out = append(out, c[o:o+k]...)
		i += k
	}
	return out
}

// setRange replaces [lo, lo+len(vs)).
func (a *Arr) setRange(lo int, vs []Val) *Arr {
	if len(vs) == 0 {
		return a
	}
	ch := make([][]Val, len(a.ch))
	copy(ch, a.ch)
	i := lo
	for len(vs) > 0 {
		c := append([]Val(nil), ch[i/chunk]...)
		o := i % chunk
		k := copy(c[o:], vs)
		ch[i/chunk] = c
		vs = vs[k:]
		i += k
	}
	return &Arr{a.n, ch}
}

// Ptr addresses a cell inside a heap object. A path element of -1 stands for
// the symbolic index sym, ranging over [symLo, symLo+symN).
type Ptr struct {
	obj         int
	path        []int
	sym         *Term
	symLo, symN int
}

func (p Ptr) isNil() bool { return p.obj == 0 }

func (p Ptr) sub(i int) Ptr {
	np := make([]int, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = i
	p.path = np
	return p
}

type Slice struct {
	obj           int
	path          []int
	off, len, cap int
}

type Iface struct {
	t types.Type
	v Val
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
	// nat is a host function value (method values of native types)
	nat  func(x *Exec, st *State, args []Val) Val
	name string
}

type MapRef struct{ obj int }
type IterRef struct{ obj int }
type ChanRef struct{ obj int }

type MapVal struct {
	keys, vals []Val
}

type IterVal struct {
	keys []Val
	m    int // map object, 0 for strings
	s    Str
	pos  int
}

type Poison struct{ why string }

func pathEq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- persistent heap: 32-ary trie keyed by object id ----

type hnode struct {
	owner int64
	kids  [32]interface{}
}

type Heap struct {
	root  *hnode
	depth int
	epoch int64
}

func (h *Heap) get(id int) (Val, bool) {
	if h.root == nil || id>>uint(5*h.depth) != 0 {
		return nil, false
	}
	n := h.root
	for d := h.depth - 1; d > 0; d-- {
		k := n.kids[id>>uint(5*d)&31]
		if k == nil {
			return nil, false
		}
		n = k.(*hnode)
	}
	v := n.kids[id&31]
	return v, v != nil
}

func (h *Heap) own(n *hnode) *hnode {
	if n.owner == h.epoch {
		return n
	}
	c := *n
	c.owner = h.epoch
	return &c
}

func (h *Heap) set(id int, v Val) {
	if h.root == nil {
		h.root = &hnode{owner: h.epoch}
		h.depth = 1
	}
	for id>>uint(5*h.depth) != 0 {
		r := &hnode{owner: h.epoch}
		r.kids[0] = h.root
		h.root = r
		h.depth++
	}
	h.root = h.own(h.root)
	n := h.root
	for d := h.depth - 1; d > 0; d-- {
		i := id >> uint(5*d) & 31
		k := n.kids[i]
		var c *hnode
		if k == nil {
			c = &hnode{owner: h.epoch}
		} else {
			c = h.own(k.(*hnode))
		}
		n.kids[i] = c
		n = c
	}
	n.kids[id&31] = v
}

// diff calls f for every id whose value differs by identity.
func heapDiff(a, b Heap, f func(id int, x, y Val)) {
	d := a.depth
	if b.depth > d {
		d = b.depth
	}
	lift := func(h Heap) *hnode {
		n := h.root
		for k := h.depth; k < d && n != nil; k++ {
			r := &hnode{}
			r.kids[0] = n
			n = r
		}
		return n
	}
	var rec func(x, y *hnode, lvl, base int)
	rec = func(x, y *hnode, lvl, base int) {
		if x == y {
			return
		}
		for i := 0; i < 32; i++ {
			var p, q interface{}
			if x != nil {
				p = x.kids[i]
			}
			if y != nil {
				q = y.kids[i]
			}
			id := base<<5 | i
			if lvl == 1 {
				if p == nil && q == nil {
					continue
				}
				if sameVal(p, q) {
					continue
				}
				f(id, p, q)
				continue
			}
			var pn, qn *hnode
			if p != nil {
				pn = p.(*hnode)
			}
			if q != nil {
				qn = q.(*hnode)
			}
			rec(pn, qn, lvl-1, id)
		}
	}
	if d == 0 {
		return
	}
	rec(lift(a), lift(b), d, 0)
}

// sameVal is a cheap, conservative identity test.
func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Agg:
		y, ok := b.(*Agg)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x.e) != len(y.e) || len(x.e) > 8 {
			return false
		}
		for i := range x.e {
			if !sameVal(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case *Arr:
		y, ok := b.(*Arr)
		if !ok || x.n != y.n {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.ch {
			if &x.ch[i][0] != &y.ch[i][0] {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case *MapVal:
		y, ok := b.(*MapVal)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.obj == y.obj && x.sym == y.sym && x.symLo == y.symLo && pathEq(x.path, y.path)
	case Slice:
		y, ok := b.(Slice)
		return ok && x.obj == y.obj && x.off == y.off && x.len == y.len && x.cap == y.cap && pathEq(x.path, y.path)
	case Str:
		y, ok := b.(Str)
		if !ok || x.Len() != y.Len() {
			return false
		}
		if x.b == nil && y.b == nil {
			return x.s == y.s
		}
		if x.b != nil && y.b != nil {
			for i := range x.b {
				if x.b[i] != y.b[i] {
					return false
				}
			}
			return true
		}
		return false
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		if x.t == nil {
			return true
		}
		return types.Identical(x.t, y.t) && sameVal(x.v, y.v)
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x == y
	case Flt:
		y, ok := b.(Flt)
		return ok && x == y
	case IterRef:
		y, ok := b.(IterRef)
		return ok && x == y
	case RType:
		y, ok := b.(RType)
		return ok && types.Identical(x.t, y.t)
	case RVal:
		y, ok := b.(RVal)
		if !ok || !x.same(y) {
			return false
		}
		if x.t == nil {
			return true
		}
		if x.addr != nil {
			return sameVal(*x.addr, *y.addr)
		}
		return sameVal(x.v, y.v)
	}
	return false
}

func describe(v Val) string {
	switch x := v.(type) {
	case *Term:
		if x.IsConst() {
			return fmt.Sprint(x.C)
		}
		return fmt.Sprintf("sym%d", x.id)
	case Str:
		if x.b == nil {
			return fmt.Sprintf("%q", x.s)
		}
		return fmt.Sprintf("str[%d]", len(x.b))
	}
	return fmt.Sprintf("%T", v)
}
