package main

// Integer assertions: obligations, their decision by normal form and linear integer
// arithmetic, and the harness interface (v.Int).

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type IntObl struct {
	kind  string // cong, le, lt
	x, y  *inode
	m     *big.Int
	msg   string
	where string
	res   Res
	how   string
}

type liaEnc struct {
	ib    *IB
	decl  bytes.Buffer
	body  bytes.Buffer
	vars  map[string]string
	names []string
	size  int
	defs  map[int]bool
	todo  []int
}

func newLia(ib *IB) *liaEnc {
	return &liaEnc{ib: ib, vars: map[string]string{}, defs: map[int]bool{}}
}

func smtInt(c *big.Int) string {
	if c.Sign() < 0 {
		return "(- " + new(big.Int).Neg(c).String() + ")"
	}
	return c.String()
}

func (e *liaEnc) mono(key string) string {
	if v, ok := e.vars[key]; ok {
		return v
	}
	v := fmt.Sprintf("m%d", len(e.vars))
	e.vars[key] = v
	e.names = append(e.names, key)
	fmt.Fprintf(&e.decl, "(declare-const %s Int)\n", v)
	lo, hi := e.ib.monoIv(key)
	if lo != nil {
		fmt.Fprintf(&e.decl, "(assert (<= %s %s))\n", smtInt(lo), v)
	}
	if hi != nil {
		fmt.Fprintf(&e.decl, "(assert (<= %s %s))\n", v, smtInt(hi))
	}
	for _, a := range monoAtoms(key) {
		if e.ib.atoms[a].body != nil && !e.defs[a] {
			e.todo = append(e.todo, a)
		}
	}
	return v
}

func (e *liaEnc) expr(p *poly) string {
	e.size += len(p.m)
	var b strings.Builder
	b.WriteString("(+ 0")
	for _, k := range p.keys() {
		c := p.m[k]
		if k == "" {
			fmt.Fprintf(&b, " %s", smtInt(c))
		} else if c.Cmp(bi1) == 0 {
			fmt.Fprintf(&b, " %s", e.mono(k))
		} else {
			fmt.Fprintf(&b, " (* %s %s)", smtInt(c), e.mono(k))
		}
	}
	b.WriteString(")")
	return b.String()
}

// define constrains a floor atom by its definition.
func (e *liaEnc) define(a int) {
	if e.defs[a] {
		return
	}
	e.defs[a] = true
	at := e.ib.atoms[a]
	v := e.mono(monoOf(a))
	b := e.expr(at.body)
	fmt.Fprintf(&e.body, "(assert (let ((b %s) (q (* %s %s))) (and (<= q b) (<= b (+ q %s)))))\n", b, pow2(at.k).String(), v, new(big.Int).Sub(pow2(at.k), bi1).String())
}

// row states the known bounds of a node over its normal form.
func (e *liaEnc) row(n *inode) {
	p := e.ib.Poly(n)
	if len(p.m) <= 1 || (n.lo == nil && n.hi == nil) {
		return
	}
	fmt.Fprintf(&e.body, "(assert (let ((b %s)) (and true", e.expr(p))
	if n.lo != nil {
		fmt.Fprintf(&e.body, " (<= %s b)", smtInt(n.lo))
	}
	if n.hi != nil {
		fmt.Fprintf(&e.body, " (<= b %s)", smtInt(n.hi))
	}
	e.body.WriteString(")))\n")
	if n.op == iFloor {
		b, q := e.expr(e.ib.Poly(n.a[0])), e.expr(p)
		fmt.Fprintf(&e.body, "(assert (let ((b %s) (q (* %s %s))) (and (<= q b) (<= b (+ q %s)))))\n", b, pow2(n.k).String(), q, new(big.Int).Sub(pow2(n.k), bi1).String())
	}
}

// layers collects the nodes up to a number of carry steps below the roots.
func layers(roots []*inode, depth int) []*inode {
	seen := map[*inode]int{}
	var out []*inode
	var visit func(n *inode, d int)
	visit = func(n *inode, d int) {
		o, ok := seen[n]
		if ok && o >= d {
			return
		}
		seen[n] = d
		if !ok && (n.elim || n.op == iFloor) {
			out = append(out, n)
		}
		if n.elim {
			if d == 0 {
				return
			}
			d--
		}
		for _, a := range n.a {
			visit(a, d)
		}
	}
	for _, r := range roots {
		visit(r, depth)
	}
	return out
}

var liaCmds = []engineCmd{
	{"z3-new", []string{"-smt2"}},
	{"cvc5", []string{"--lang=smt2", "--produce-models"}},
	{"z3", []string{"-smt2"}},
}

// solve asks whether goal is satisfiable together with what was encoded.
func (e *liaEnc) solve(stats *Stats, goal string, timeout time.Duration, model bool) (Res, map[string]*big.Int, string) {
	var q bytes.Buffer
	q.WriteString("(set-option :produce-models true)\n(set-logic QF_LIA)\n")
	q.Write(e.decl.Bytes())
	q.Write(e.body.Bytes())
	fmt.Fprintf(&q, "(assert %s)\n(check-sat)\n", goal)
	if model && len(e.names) > 0 {
		q.WriteString("(get-value (")
		for _, k := range e.names {
			q.WriteString(e.vars[k] + " ")
		}
		q.WriteString("))\n")
	}
	f, err := os.CreateTemp("", "i-*.smt2")
	if err != nil {
		return Unknown, nil, ""
	}
	defer func() {
		if os.Getenv("SYMKEEP") == "" {
			os.Remove(f.Name())
		}
	}()
	f.Write(q.Bytes())
	f.Close()
	t0 := time.Now()
	atomic.AddInt64(&stats.Portfolio, 1)
	ctx, cancel := context.WithTimeout(rootCtx, timeout)
	defer cancel()
	type ans struct {
		r   Res
		out string
		who string
	}
	ch := make(chan ans, len(liaCmds))
	for _, c := range liaCmds {
		go func(c engineCmd) {
			o, _ := exec.CommandContext(ctx, c.name, append(append([]string{}, c.args...), f.Name())...).Output()
			s := string(o)
			line, rest := s, ""
			if i := strings.IndexByte(s, '\n'); i >= 0 {
				line, rest = s[:i], s[i:]
			}
			switch strings.TrimSpace(line) {
			case "unsat":
				ch <- ans{Unsat, "", c.name}
			case "sat":
				ch <- ans{Sat, rest, c.name}
			default:
				ch <- ans{Unknown, s, c.name}
			}
		}(c)
	}
	var r ans
	for range liaCmds {
		a := <-ch
		if a.r != Unknown {
			r = a
			break
		}
	}
	stats.add(r.r, time.Since(t0))
	if r.r != Sat || !model {
		return r.r, nil, r.who
	}
	m := map[string]*big.Int{}
	sx, err := parseSexp(strings.TrimSpace(r.out))
	if err != nil {
		return r.r, nil, r.who
	}
	byName := map[string]string{}
	for _, k := range e.names {
		byName[e.vars[k]] = k
	}
	for _, pr := range sx.list {
		if len(pr.list) != 2 {
			continue
		}
		if v, ok := sexpInt(pr.list[1]); ok {
			m[byName[pr.list[0].atom]] = v
		}
	}
	return r.r, m, r.who
}

func sexpInt(s *sexp) (*big.Int, bool) {
	if s.list == nil {
		return new(big.Int).SetString(s.atom, 10)
	}
	if len(s.list) == 2 && s.list[0].atom == "-" {
		v, ok := sexpInt(s.list[1])
		if !ok {
			return nil, false
		}
		return v.Neg(v), true
	}
	return nil, false
}

// decideInt tries to prove one integer obligation for all inputs.
func (x *Exec) decideInt(o *IntObl, budget time.Duration) {
	ib := x.ib
	deadline := time.Now().Add(budget)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(ibLimit); ok {
				o.res, o.how = Unknown, "normal form too large"
				return
			}
			panic(e)
		}
	}()
	d := newPoly()
	d.addPoly(ib.Poly(o.x), bi1)
	d.addPoly(ib.Poly(o.y), big.NewInt(-1))
	left := func(max time.Duration) time.Duration {
		l := time.Until(deadline)
		if l > max {
			return max
		}
		return l
	}
	roots := []*inode{o.x, o.y}
	switch o.kind {
	case "cong":
		// the remainder of the coefficients: congruent if it vanishes
		r := newPoly()
		k := newPoly()
		half := new(big.Int).Rsh(o.m, 1)
		for key, c := range d.m {
			q, s := new(big.Int).DivMod(new(big.Int).Add(c, half), o.m, new(big.Int))
			r.addTerm(key, s.Sub(s, half))
			k.addTerm(key, q)
		}
		if len(r.m) == 0 {
			// the solver confirms x - y = m*k for the witness k over the unsimplified sums
			e := newLia(ib)
			dx, ok := e.dagDefs(roots)
			if ok {
				goal := fmt.Sprintf("(not (= (- %s %s) (* %s %s)))", dx[o.x], dx[o.y], o.m.String(), e.expr(k))
				rr, _, who := e.solve(x.stats, goal, left(60*time.Second), false)
				if rr == Unsat {
					o.res, o.how = Unsat, who+", witness from the normal form"
					return
				}
				if rr == Sat {
					o.res, o.how = Unknown, "internal: normal form and solver disagree"
					return
				}
			}
			o.res, o.how = Unsat, "normal form"
			return
		}
		if os.Getenv("SYMDUMP") != "" {
			fmt.Fprintln(os.Stderr, "residual", ib.show(r, 0))
		}
		for depth := 0; depth <= 6 && left(time.Hour) > 0; depth++ {
			e := newLia(ib)
			rp := e.expr(r)
			for _, a := range e.todo {
				e.define(a)
			}
			for _, n := range layers(roots, depth) {
				e.row(n)
			}
			rr, _, who := e.solve(x.stats, fmt.Sprintf("(not (= %s 0))", rp), left(20*time.Second), false)
			if rr == Unsat {
				o.res, o.how = Unsat, fmt.Sprintf("%s, %d carry layers", who, depth)
				return
			}
		}
	case "le", "lt":
		c := bi0
		if o.kind == "lt" {
			c = bi1
		}
		// x - y + c > 0 must be impossible
		dn := ib.Lin(c, roots, []*big.Int{bi1, big.NewInt(-1)})
		if dn.hi != nil && dn.hi.Sign() <= 0 {
			o.res, o.how = Unsat, "intervals"
			return
		}
		dp := ib.Poly(dn)
		for depth := 0; depth <= 6 && left(time.Hour) > 0; depth++ {
			e := newLia(ib)
			g := e.expr(dp)
			for _, a := range e.todo {
				e.define(a)
			}
			for _, n := range layers(roots, depth) {
				e.row(n)
			}
			rr, _, who := e.solve(x.stats, fmt.Sprintf("(> %s 0)", g), left(30*time.Second), false)
			if os.Getenv("SYMV") != "" {
				fmt.Fprintf(os.Stderr, "  lia %s depth %d size %d vars %d: %v %s\n", o.msg, depth, e.size, len(e.vars), rr, who)
			}
			if rr == Unsat {
				o.res, o.how = Unsat, fmt.Sprintf("%s, %d carry layers", who, depth)
				return
			}
		}
	}
	o.res = Unknown
}

// dagDefs names every sum below the roots by a variable with its definition; floors and
// products are given by their normal forms.
func (e *liaEnc) dagDefs(roots []*inode) (map[*inode]string, bool) {
	out := map[*inode]string{}
	var visit func(n *inode) string
	visit = func(n *inode) string {
		if s, ok := out[n]; ok {
			return s
		}
		if n.op != iLin {
			s := e.expr(e.ib.Poly(n))
			out[n] = s
			return s
		}
		var b strings.Builder
		fmt.Fprintf(&b, "(+ %s", smtInt(n.c))
		for i, a := range n.a {
			fmt.Fprintf(&b, " (* %s %s)", smtInt(n.cs[i]), visit(a))
		}
		b.WriteString(")")
		v := fmt.Sprintf("n%d", n.id)
		fmt.Fprintf(&e.decl, "(declare-const %s Int)\n", v)
		fmt.Fprintf(&e.body, "(assert (= %s %s))\n", v, b.String())
		out[n] = v
		return v
	}
	for _, r := range roots {
		visit(r)
		if e.size > 300000 {
			return nil, false
		}
	}
	return out, true
}

// ---- harness interface ----

func (x *Exec) intB() *IB {
	if x.ib == nil {
		x.ib = newIB(x.b)
	}
	for _, d := range x.inputs {
		if d.Kind != "bytes" || x.concrete != nil {
			continue
		}
		if len(d.Terms) == 0 || d.Terms[0].Op != OVar {
			continue
		}
		if _, ok := x.ib.arr[d.Terms[0].Name]; ok {
			continue
		}
		n := len(d.Terms)
		i := x.ib.newAtom("N"+d.Name, &iatom{name: d.Name, lo: bi0, hi: new(big.Int).Sub(pow2(8*n), bi1), bytes: n})
		for j, t := range d.Terms {
			x.ib.arr[t.Name] = [2]int{i, j}
		}
	}
	return x.ib
}

func (x *Exec) newInt(n *inode) Val {
	x.ints = append(x.ints, n)
	return x.b.C(64, uint64(len(x.ints)-1))
}

func (x *Exec) getInt(v Val) *inode {
	t, ok := v.(*Term)
	if !ok || !t.IsConst() || int(t.C) >= len(x.ints) {
		unsup("integer handle")
	}
	return x.ints[t.C]
}

func (x *Exec) intAssert(st *State, kind string, a, c *inode, m *big.Int, msg string) {
	x.scratch["asserts"] = x.scratchInt("asserts") + 1
	if a.op == iConst && c.op == iConst {
		ok := false
		switch kind {
		case "cong":
			ok = new(big.Int).Mod(new(big.Int).Sub(a.c, c.c), m).Sign() == 0
		case "le":
			ok = a.c.Cmp(c.c) <= 0
		case "lt":
			ok = a.c.Cmp(c.c) < 0
		}
		x.assertTerm(st, x.b.BoolC(ok), msg)
		return
	}
	x.intObls = append(x.intObls, &IntObl{kind: kind, x: a, y: c, m: m, msg: msg, where: x.where(st)})
}

func init() {
	def(vp+"IntLE", func(x *Exec, st *State, a []Val) Val {
		ib := x.intB()
		l := newLtab()
		for i, t := range x.sliceTerms(st, a[0]) {
			l.add(ib.U(t), pow2(8*i))
		}
		return x.newInt(ib.fromLtab(l))
	})
	def(vp+"IntS", func(x *Exec, st *State, a []Val) Val {
		return x.newInt(x.intB().S(a[0].(*Term)))
	})
	def(vp+"IntVar", func(x *Exec, st *State, a []Val) Val {
		n := x.cstr(a[0])
		x.intB().free = true
		return x.newInt(x.intB().Atom("I"+n, n, nil, nil, nil))
	})
	def(vp+"BaseMultiple", func(x *Exec, st *State, a []Val) Val {
		m, ok := a[0].(*Term)
		if !ok || !m.IsConst() {
			unsup("multiple not concrete")
		}
		n := new(big.Int).Lsh(big.NewInt(sx(m.C, 64)), uint(8*x.argInt(st, a[1])))
		px, py := edMulAffine(n.Mod(n, edOrder()))
		ib := x.intB()
		return &Agg{[]Val{x.newInt(ib.Const(px)), x.newInt(ib.Const(py))}}
	})
	def(vp+"IntC", func(x *Exec, st *State, a []Val) Val {
		c, ok := new(big.Int).SetString(x.cstr(a[0]), 0)
		if !ok {
			unsup("integer constant")
		}
		return x.newInt(x.intB().Const(c))
	})
	def(vp+"IntPow2", func(x *Exec, st *State, a []Val) Val {
		return x.newInt(x.intB().Const(pow2(x.argInt(st, a[0]))))
	})
	def(vp+"IntAdd", func(x *Exec, st *State, a []Val) Val {
		return x.newInt(x.intB().Add(x.getInt(a[0]), x.getInt(a[1])))
	})
	def(vp+"IntSub", func(x *Exec, st *State, a []Val) Val {
		return x.newInt(x.intB().Sub(x.getInt(a[0]), x.getInt(a[1])))
	})
	def(vp+"IntMul", func(x *Exec, st *State, a []Val) Val {
		return x.newInt(x.intB().Mul(x.getInt(a[0]), x.getInt(a[1])))
	})
	def(vp+"AssertCong", func(x *Exec, st *State, a []Val) Val {
		m := x.getInt(a[2])
		if m.op != iConst {
			unsup("modulus not constant")
		}
		x.intAssert(st, "cong", x.getInt(a[0]), x.getInt(a[1]), m.c, x.cstr(a[3]))
		return nil
	})
	def(vp+"AssertLe", func(x *Exec, st *State, a []Val) Val {
		x.intAssert(st, "le", x.getInt(a[0]), x.getInt(a[1]), nil, x.cstr(a[2]))
		return nil
	})
	def(vp+"AssertLt", func(x *Exec, st *State, a []Val) Val {
		x.intAssert(st, "lt", x.getInt(a[0]), x.getInt(a[1]), nil, x.cstr(a[2]))
		return nil
	})
	def(vp+"I32In", func(x *Exec, st *State, a []Val) Val {
		name := x.cstr(a[0])
		lo, hi := a[1].(*Term), a[2].(*Term)
		if !lo.IsConst() || !hi.IsConst() {
			unsup("bounds of %s", name)
		}
		t := x.input(name, "i32", 32, 1)[0]
		if !t.IsConst() {
			x.intB().bound[t.Name] = [2]*big.Int{big.NewInt(sx(lo.C, 64)), big.NewInt(sx(hi.C, 64))}
		}
		s := x.b.Sext(64, t)
		x.assumeTerm(st, x.b.And(x.b.Sle(lo, s), x.b.Sle(s, hi)))
		return t
	})
}

func (ib *IB) show(p *poly, d int) string {
	var b strings.Builder
	ks := p.keys()
	for i, k := range ks {
		if i > 12 {
			fmt.Fprintf(&b, " ...%d terms", len(ks))
			break
		}
		fmt.Fprintf(&b, " %+d", p.m[k])
		for _, a := range monoAtoms(k) {
			at := ib.atoms[a]
			if at.body != nil {
				if d < 2 {
					fmt.Fprintf(&b, "*F%d[%s](%v..%v)", at.k, ib.show(at.body, d+1), at.lo, at.hi)
				} else {
					fmt.Fprintf(&b, "*#%d", a)
				}
			} else {
				fmt.Fprintf(&b, "*%s", at.name)
			}
		}
	}
	return b.String()
}
