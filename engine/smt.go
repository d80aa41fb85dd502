package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- models and evaluation ----

type Model struct {
	vars map[string]uint64  // BV (<=64) and Bool variables; absent means 0
	uf   map[*Term]*big.Int // values of UF applications
	memo map[*Term]evalRes
}

type evalRes struct {
	v   uint64
	big *big.Int
	ok  bool
}

func newModel() *Model {
	return &Model{vars: map[string]uint64{}, uf: map[*Term]*big.Int{}, memo: map[*Term]evalRes{}}
}

// Eval evaluates a Bool/BV (<=64 bit) term; ok=false when a UF value is unknown.
func (m *Model) Eval(t *Term) (uint64, bool) {
	r := m.eval(t)
	return r.v, r.ok
}

func (m *Model) eval(t *Term) evalRes {
	if t.Op == OConst {
		return evalRes{v: t.C, ok: true}
	}
	if r, ok := m.memo[t]; ok {
		return r
	}
	r := m.eval1(t)
	m.memo[t] = r
	return r
}

func b2u(x bool) uint64 {
	if x {
		return 1
	}
	return 0
}

func (m *Model) eval1(t *Term) evalRes {
	bad := evalRes{}
	switch t.Op {
	case OVar:
		return evalRes{v: m.vars[t.Name] & maskB(t.W), ok: true}
	case OUF:
		if v, ok := m.uf[t]; ok {
			if t.W <= 64 {
				return evalRes{v: v.Uint64(), ok: true}
			}
			return evalRes{big: v, ok: true}
		}
		return bad
	case OIte:
		c := m.eval(t.A[0])
		if !c.ok {
			return bad
		}
		if c.v != 0 {
			return m.eval(t.A[1])
		}
		return m.eval(t.A[2])
	case OAnd:
		allok := true
		for _, a := range t.A {
			r := m.eval(a)
			if r.ok && r.v == 0 {
				return evalRes{ok: true}
			}
			allok = allok && r.ok
		}
		return evalRes{v: 1, ok: allok}
	case OOr:
		allok := true
		for _, a := range t.A {
			r := m.eval(a)
			if r.ok && r.v != 0 {
				return evalRes{v: 1, ok: true}
			}
			allok = allok && r.ok
		}
		return evalRes{v: 0, ok: allok}
	case OConcat:
		if t.W > 64 {
			acc := new(big.Int)
			for _, a := range t.A {
				r := m.eval(a)
				if !r.ok {
					return bad
				}
				acc.Lsh(acc, uint(a.W))
				if r.big != nil {
					acc.Or(acc, r.big)
				} else {
					acc.Or(acc, new(big.Int).SetUint64(r.v))
				}
			}
			return evalRes{big: acc, ok: true}
		}
		var v uint64
		for _, a := range t.A {
			r := m.eval(a)
			if !r.ok {
				return bad
			}
			v = v<<uint(a.W) | r.v
		}
		return evalRes{v: v, ok: true}
	case OExtract:
		r := m.eval(t.A[0])
		if !r.ok {
			return bad
		}
		if r.big != nil {
			x := new(big.Int).Rsh(r.big, uint(t.Lo))
			x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.W)), big.NewInt(1)))
			if t.W <= 64 {
				return evalRes{v: x.Uint64(), ok: true}
			}
			return evalRes{big: x, ok: true}
		}
		return evalRes{v: r.v >> uint(t.Lo) & mask(t.W), ok: true}
	}
	if t.W == SInt {
		return bad
	}
	if t.Op == OBXor && len(t.A) > 2 {
		v := uint64(0)
		for _, c := range t.A {
			r := m.eval(c)
			if !r.ok {
				return bad
			}
			v ^= r.v
		}
		return evalRes{v: v, ok: true}
	}
	var a [2]uint64
	for i := range t.A {
		r := m.eval(t.A[i])
		if !r.ok || r.big != nil {
			if t.Op == OEq && i == 1 && r.ok {
				// wide equality
				l := m.eval(t.A[0])
				return evalRes{v: b2u(l.big != nil && r.big != nil && l.big.Cmp(r.big) == 0), ok: true}
			}
			if t.Op == OEq && r.ok {
				continue
			}
			return bad
		}
		if i < 2 {
			a[i] = r.v
		}
	}
	w := 0
	if len(t.A) > 0 {
		w = t.A[0].W
	}
	mk := func(v uint64) evalRes { return evalRes{v: v & maskB(t.W), ok: true} }
	switch t.Op {
	case ONot:
		return mk(a[0] ^ 1)
	case OEq:
		return mk(b2u(a[0] == a[1]))
	case OUlt:
		return mk(b2u(a[0] < a[1]))
	case OSlt:
		return mk(b2u(sx(a[0], w) < sx(a[1], w)))
	case OBNot:
		return mk(^a[0])
	case OBAnd:
		return mk(a[0] & a[1])
	case OBOr:
		return mk(a[0] | a[1])
	case OBXor:
		return mk(a[0] ^ a[1])
	case OAdd:
		return mk(a[0] + a[1])
	case OSub:
		return mk(a[0] - a[1])
	case OMul:
		return mk(a[0] * a[1])
	case OUdiv:
		if a[1] == 0 {
			return mk(^uint64(0))
		}
		return mk(a[0] / a[1])
	case OUrem:
		if a[1] == 0 {
			return mk(a[0])
		}
		return mk(a[0] % a[1])
	case OSdiv:
		if a[1] == 0 {
			return bad
		}
		return mk(uint64(sdiv(sx(a[0], w), sx(a[1], w))))
	case OSrem:
		if a[1] == 0 {
			return bad
		}
		return mk(uint64(srem(sx(a[0], w), sx(a[1], w))))
	case OShl:
		if a[1] >= uint64(w) {
			return mk(0)
		}
		return mk(a[0] << a[1])
	case OLshr:
		if a[1] >= uint64(w) {
			return mk(0)
		}
		return mk(a[0] >> a[1])
	case OAshr:
		if a[1] >= uint64(w) {
			a[1] = uint64(w - 1)
		}
		return mk(uint64(sx(a[0], w) >> a[1]))
	case OSext:
		return mk(uint64(sx(a[0], w)))
	}
	return bad
}

func maskB(w int) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// ---- SMT-LIB printing ----

type printer struct {
	defined map[*Term]bool
	out     *bytes.Buffer
	ufs     map[string]bool
}

func newPrinter() *printer {
	return &printer{defined: map[*Term]bool{}, out: &bytes.Buffer{}, ufs: map[string]bool{}}
}

func sortStr(w int) string {
	switch {
	case w == 0:
		return "Bool"
	case w == SInt:
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func qn(s string) string { return "|" + s + "|" }

func (p *printer) name(t *Term) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.C == 1 {
				return "true"
			}
			return "false"
		}
		if t.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.W/4, t.C)
		}
		return fmt.Sprintf("#b%0*b", t.W, t.C)
	case OIConst:
		if t.Big.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.Big).String() + ")"
		}
		return t.Big.String()
	case OVar, OIVar:
		return qn(t.Name)
	}
	return fmt.Sprintf("t%d", t.id)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OSlt: "bvslt",
	OBNot: "bvnot", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OIAdd: "+", OIMul: "*", OILe: "<=", OILt: "<", OIEq: "=", OIOfU: "bv2nat",
}

// define emits definitions for t's cone and returns its name.
func (p *printer) define(t *Term) string {
	if t.Op == OConst || t.Op == OIConst || p.defined[t] {
		return p.name(t)
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if p.defined[f.t] || f.t.Op == OConst || f.t.Op == OIConst {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.A) {
			c := f.t.A[f.i]
			f.i++
			if !p.defined[c] && c.Op != OConst && c.Op != OIConst {
				st = append(st, fr{c, 0})
			}
			continue
		}
		p.emit(f.t)
		p.defined[f.t] = true
		st = st[:len(st)-1]
	}
	return p.name(t)
}

func (p *printer) emit(t *Term) {
	o := p.out
	switch t.Op {
	case OVar, OIVar:
		fmt.Fprintf(o, "(declare-fun %s () %s)\n", qn(t.Name), sortStr(t.W))
		return
	case OUF:
		key := fmt.Sprintf("%s_%d_%d", t.Name, len(t.A), t.W)
		if !p.ufs[key] {
			p.ufs[key] = true
			fmt.Fprintf(o, "(declare-fun %s (", qn(key))
			for i, a := range t.A {
				if i > 0 {
					o.WriteByte(' ')
				}
				o.WriteString(sortStr(a.W))
			}
			fmt.Fprintf(o, ") %s)\n", sortStr(t.W))
		}
		fmt.Fprintf(o, "(define-fun t%d () %s ", t.id, sortStr(t.W))
		if len(t.A) == 0 {
			fmt.Fprintf(o, "%s)\n", qn(key))
			return
		}
		fmt.Fprintf(o, "(%s", qn(key))
		for _, a := range t.A {
			o.WriteByte(' ')
			o.WriteString(p.name(a))
		}
		o.WriteString("))\n")
		return
	}
	fmt.Fprintf(o, "(define-fun t%d () %s ", t.id, sortStr(t.W))
	switch t.Op {
	case OExtract:
		fmt.Fprintf(o, "((_ extract %d %d) %s)", t.Hi, t.Lo, p.name(t.A[0]))
	case OSext:
		fmt.Fprintf(o, "((_ sign_extend %d) %s)", t.W-t.A[0].W, p.name(t.A[0]))
	case OConcat:
		n := len(t.A)
		for i := 0; i < n-1; i++ {
			fmt.Fprintf(o, "(concat %s ", p.name(t.A[i]))
		}
		o.WriteString(p.name(t.A[n-1]))
		o.WriteString(strings.Repeat(")", n-1))
	case OIMod:
		fmt.Fprintf(o, "(mod %s %s)", p.name(t.A[0]), t.Big.String())
	default:
		if t.Op == OBXor && len(t.A) > 2 {
			for _, a := range t.A[:len(t.A)-1] {
				fmt.Fprintf(o, "(bvxor %s ", p.name(a))
			}
			o.WriteString(p.name(t.A[len(t.A)-1]))
			o.WriteString(strings.Repeat(")", len(t.A)-1))
			break
		}
		n, ok := opNames[t.Op]
		if !ok {
			panic(fmt.Sprintf("no SMT name for op %d", t.Op))
		}
		fmt.Fprintf(o, "(%s", n)
		for _, a := range t.A {
			o.WriteByte(' ')
			o.WriteString(p.name(a))
		}
		o.WriteByte(')')
	}
	o.WriteString(")\n")
}

func cone(ts []*Term) (vars, ufs []*Term) {
	seen := map[*Term]bool{}
	var st []*Term
	st = append(st, ts...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t] {
			continue
		}
		seen[t] = true
		switch t.Op {
		case OVar, OIVar:
			vars = append(vars, t)
		case OUF:
			ufs = append(ufs, t)
		}
		st = append(st, t.A...)
	}
	return
}

// ---- solver processes ----

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

func (r Res) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type Stats struct {
	Queries   int64
	SatN      int64
	UnsatN    int64
	UnknownN  int64
	SolverNS  int64
	Portfolio int64
}

func (s *Stats) add(r Res, d time.Duration) {
	atomic.AddInt64(&s.Queries, 1)
	atomic.AddInt64(&s.SolverNS, int64(d))
	switch r {
	case Sat:
		atomic.AddInt64(&s.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.UnsatN, 1)
	default:
		atomic.AddInt64(&s.UnknownN, 1)
	}
}

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	p     *printer
	stats *Stats
	bin   string
	bad   bool
	nq    int
}

func NewSolver(stats *Stats) *Solver {
	s := &Solver{stats: stats, bin: "z3-new"}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.CommandContext(rootCtx, s.bin, "-in", "-memory:6000")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		if rootCtx.Err() != nil {
			select {} // the run is over
		}
		panic("cannot start solver: " + err.Error())
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.p = newPrinter()
	s.p.out.WriteString("(set-option :produce-models true)\n(set-option :global-declarations true)\n")
	s.bad = false
	s.nq = 0
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

// Check decides the conjunction of ts.
func (s *Solver) Check(ts []*Term, timeout time.Duration, want bool) (Res, *Model) {
	for _, t := range ts {
		if t.IsFalse() {
			return Unsat, nil
		}
	}
	if s.bad || s.nq > 4000 {
		s.restart()
	}
	s.nq++
	t0 := time.Now()
	var asserts []string
	for _, t := range ts {
		if t.IsTrue() {
			continue
		}
		asserts = append(asserts, s.p.define(t))
	}
	fmt.Fprintf(s.p.out, "(set-option :timeout %d)\n(push 1)\n", timeout.Milliseconds())
	for _, a := range asserts {
		fmt.Fprintf(s.p.out, "(assert %s)\n", a)
	}
	s.p.out.WriteString("(check-sat)\n")
	res, err := s.roundtrip(timeout + 3*time.Second)
	var m *Model
	if err == nil && res == Sat && want {
		m, err = s.getModel(ts)
	}
	if err != nil {
		s.bad = true
		s.restart()
		s.stats.add(Unknown, time.Since(t0))
		return Unknown, nil
	}
	s.p.out.WriteString("(pop 1)\n")
	s.stats.add(res, time.Since(t0))
	return res, m
}

func (s *Solver) flush() error {
	_, err := s.in.Write(s.p.out.Bytes())
	s.p.out.Reset()
	return err
}

func (s *Solver) readLine(d time.Duration) (string, error) {
	type lr struct {
		l string
		e error
	}
	ch := make(chan lr, 1)
	go func() {
		l, e := s.out.ReadString('\n')
		ch <- lr{l, e}
	}()
	select {
	case r := <-ch:
		return strings.TrimSpace(r.l), r.e
	case <-time.After(d):
		s.cmd.Process.Kill()
		<-ch
		return "", fmt.Errorf("timeout")
	}
}

func (s *Solver) roundtrip(d time.Duration) (Res, error) {
	if err := s.flush(); err != nil {
		return Unknown, err
	}
	l, err := s.readLine(d)
	for err == nil && l == "" {
		l, err = s.readLine(d)
	}
	if err != nil {
		return Unknown, err
	}
	switch l {
	case "sat":
		return Sat, nil
	case "unsat":
		return Unsat, nil
	case "unknown", "timeout":
		return Unknown, nil
	}
	fmt.Fprintln(os.Stderr, "solver says:", l)
	return Unknown, fmt.Errorf("solver: %s", l)
}

func (s *Solver) getModel(ts []*Term) (*Model, error) {
	vars, ufs := cone(ts)
	m := newModel()
	all := append(append([]*Term{}, vars...), ufs...)
	for i := 0; i < len(all); i += 200 {
		j := i + 200
		if j > len(all) {
			j = len(all)
		}
		s.p.out.WriteString("(get-value (")
		for _, v := range all[i:j] {
			s.p.out.WriteString(s.p.name(v))
			s.p.out.WriteByte(' ')
		}
		s.p.out.WriteString("))\n")
		if err := s.flush(); err != nil {
			return nil, err
		}
		sx, err := s.readSexp()
		if err != nil {
			return nil, err
		}
		if err := parseValues(sx, all[i:j], m); err != nil {
			return nil, err
		}
	}
	return m, nil
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inq := false
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) (*sexp, error) {
	pos := 0
	var parse func() (*sexp, error)
	skip := func() {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
			pos++
		}
	}
	parse = func() (*sexp, error) {
		skip()
		if pos >= len(s) {
			return nil, fmt.Errorf("eof")
		}
		if s[pos] == '(' {
			pos++
			x := &sexp{list: []*sexp{}}
			for {
				skip()
				if pos >= len(s) {
					return nil, fmt.Errorf("eof")
				}
				if s[pos] == ')' {
					pos++
					return x, nil
				}
				y, err := parse()
				if err != nil {
					return nil, err
				}
				x.list = append(x.list, y)
			}
		}
		st := pos
		if s[pos] == '|' {
			pos++
			for s[pos] != '|' {
				pos++
			}
			pos++
			return &sexp{atom: s[st:pos]}, nil
		}
		for pos < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[pos])) {
			pos++
		}
		return &sexp{atom: s[st:pos]}, nil
	}
	return parse()
}

func atomVal(x *sexp) (*big.Int, bool) {
	if x.list != nil {
		if len(x.list) == 2 && x.list[0].atom == "-" {
			v, ok := atomVal(x.list[1])
			if ok {
				return new(big.Int).Neg(v), true
			}
		}
		if len(x.list) == 3 && x.list[0].atom == "_" && strings.HasPrefix(x.list[1].atom, "bv") {
			return new(big.Int).SetString(x.list[1].atom[2:], 10)
		}
		return nil, false
	}
	switch {
	case x.atom == "true":
		return big.NewInt(1), true
	case x.atom == "false":
		return big.NewInt(0), true
	case strings.HasPrefix(x.atom, "#x"):
		return new(big.Int).SetString(x.atom[2:], 16)
	case strings.HasPrefix(x.atom, "#b"):
		return new(big.Int).SetString(x.atom[2:], 2)
	}
	return new(big.Int).SetString(x.atom, 10)
}

func parseValues(str string, ts []*Term, m *Model) error {
	if strings.Contains(str, "(error") {
		return fmt.Errorf("%s", str)
	}
	x, err := parseSexp(str)
	if err != nil {
		return err
	}
	if len(x.list) != len(ts) {
		return fmt.Errorf("get-value arity")
	}
	for i, pr := range x.list {
		v, ok := atomVal(pr.list[1])
		if !ok {
			return fmt.Errorf("bad value %s", str)
		}
		if ts[i].Op == OUF {
			m.uf[ts[i]] = v
		} else if ts[i].Op == OIVar {
			// ignored
		} else {
			m.vars[ts[i].Name] = v.Uint64()
		}
	}
	return nil
}

// ---- one-shot portfolio ----

type engineCmd struct {
	name string
	args []string
}

var bvPortfolio = []engineCmd{
	{"z3-new", []string{"-smt2"}},
	{"cvc5", []string{"--lang=smt2", "--produce-models"}},
	{"z3", []string{"-smt2"}},
}

// Portfolio decides ts with independent one-shot solver runs in parallel.
func Portfolio(stats *Stats, ts []*Term, timeout time.Duration, cmds []engineCmd) (Res, *Model, string) {
	t0 := time.Now()
	atomic.AddInt64(&stats.Portfolio, 1)
	p := newPrinter()
	var names []string
	for _, t := range ts {
		names = append(names, p.define(t))
	}
	vars, ufs := cone(ts)
	all := append(append([]*Term{}, vars...), ufs...)
	var q bytes.Buffer
	logic := "QF_BV"
	if len(ufs) > 0 {
		logic = "QF_UFBV"
	}
	for _, t := range all {
		if t.W == SInt {
			logic = "ALL"
		}
	}
	q.WriteString("(set-option :produce-models true)\n")
	fmt.Fprintf(&q, "(set-logic %s)\n", logic)
	q.Write(p.out.Bytes())
	for _, n := range names {
		fmt.Fprintf(&q, "(assert %s)\n", n)
	}
	q.WriteString("(check-sat)\n")
	var gv bytes.Buffer
	if len(all) > 0 {
		gv.WriteString("(get-value (")
		for _, v := range all {
			gv.WriteString(p.name(v))
			gv.WriteByte(' ')
		}
		gv.WriteString("))\n")
	}
	f, err := os.CreateTemp("", "q-*.smt2")
	if err != nil {
		return Unknown, nil, ""
	}
	defer os.Remove(f.Name())
	f.Write(q.Bytes())
	f.Write(gv.Bytes())
	f.Close()
	ctx, cancel := context.WithTimeout(rootCtx, timeout)
	defer cancel()
	type ans struct {
		r   Res
		m   *Model
		who string
	}
	ch := make(chan ans, len(cmds))
	var wg sync.WaitGroup
	for _, c := range cmds {
		wg.Add(1)
		go func(c engineCmd) {
			defer wg.Done()
			cmd := exec.CommandContext(ctx, c.name, append(append([]string{}, c.args...), f.Name())...)
			out, _ := cmd.Output()
			s := string(out)
			line := s
			if i := strings.IndexByte(s, '\n'); i >= 0 {
				line = s[:i]
			}
			switch strings.TrimSpace(line) {
			case "unsat":
				ch <- ans{Unsat, nil, c.name}
			case "sat":
				m := newModel()
				if len(all) > 0 {
					rest := s[len(line):]
					if err := parseValues(rest, all, m); err != nil {
						ch <- ans{Unknown, nil, c.name}
						return
					}
				}
				ch <- ans{Sat, m, c.name}
			default:
				ch <- ans{Unknown, nil, c.name}
			}
		}(c)
	}
	res := ans{}
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			res = a
			break
		}
	}
	cancel()
	go wg.Wait()
	stats.add(res.r, time.Since(t0))
	return res.r, res.m, res.who
}
