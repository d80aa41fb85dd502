package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ msg string }
type goPanic struct{ v Val } // a Go-level panic raised by the current instruction
type forkReq struct {        // re-execute the instruction once per alternative
	conds  []*Term // pairwise exclusive, jointly exhaustive (under the path condition)
	key    *Term   // term being concretised (nil: boolean conds[0])
	vals   []uint64
	models []*Model
}
type infeasible struct{}

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

type panicRec struct {
	v         Val
	recovered bool
}

type deferRec struct {
	fn   *Closure
	args []Val
	call *ssa.CallCommon
}

type Frame struct {
	fi      *FnInfo
	b       *ssa.BasicBlock
	ip      int
	env     []Val
	iters   []int32
	defers  []*deferRec
	pan     *panicRec // set while unwinding this frame
	isDefer bool      // frame is a deferred call of the frame below
	cont    func(x *Exec, st *State, ret Val) (Val, bool)
}

type State struct {
	id     int
	frames []*Frame
	heap   Heap
	pc     []*Term
	conc   map[*Term]uint64
	model  *Model
	steps  int64
	tags   map[string]Val // per-path ghost variables of intrinsics
	fresh  bool           // just forked inside an instruction it has to re-execute
	race   *raceLog       // accesses of v.Both
}

type Violation struct {
	Msg   string
	Model *Model
	Kind  string
	PC    []*Term
	Where string
}

type Obligation struct {
	pc    []*Term
	neg   *Term
	msg   string
	where string
	res   Res
	model *Model
	who   string
	hint  *Model
}

type InputDesc struct {
	Name  string
	Kind  string // bool, u8.., bytes, string, choose
	Terms []*Term
}

type Exec struct {
	b         *B
	prog      *Program
	sol       *Solver
	stats     *Stats
	fis       map[*ssa.Function]*FnInfo
	consts    map[*ssa.Const]Val
	globs     map[*ssa.Global]int
	inited    map[*ssa.Package]bool
	base      map[int]Val
	nextObj   int
	nextState int
	epoch     int64
	work      []*State
	inInit    int

	inputs       []*InputDesc
	inputIdx     map[string]*InputDesc
	vio          []*Violation
	obls         []*Obligation
	done         int
	trivial      int // assertions decided by simplification alone
	reach        map[string]bool
	unsupMsg     map[string]int
	deadline     time.Time
	sched        bool // goroutines were run in one order
	maxStates    int
	unwind       int
	steps        int64
	forks        int
	merges       int
	fnSeen       map[string]int
	observed     []obs
	cfg          RunCfg
	typeIDs      map[string]int
	ufApps       []*Term
	ufKnown      map[*Term][]byte
	ufInfo       map[string]ufShape
	lost         []lost
	lostBy       map[string]int
	scratch      map[string]interface{}
	spec, ifconv int
	unwindHit    map[string]bool
	concrete     map[string][]uint64 // concrete values for inputs (validation runs)
	pin          map[string][]uint64 // fixed values for some inputs
	intObls      []*IntObl
	ib           *IB
	ints         []*inode
	fnByName     map[string]*ssa.Function
	queryTO      time.Duration
	supMemo      map[*Term]map[string]bool
	samples      []*Model
}

type obs struct {
	label string
	val   string
}

type RunCfg struct {
	Harness  string
	Subst    map[string]string
	MaxTime  time.Duration
	Unwind   int
	NoMerge  bool
	MapOrder bool // every iteration order of small maps is explored
	ConcRefs bool
}

func NewExec(p *Program, cfg RunCfg) *Exec {
	st := &Stats{}
	x := &Exec{b: NewB(), prog: p, stats: st, fis: map[*ssa.Function]*FnInfo{}, consts: map[*ssa.Const]Val{},
		globs: map[*ssa.Global]int{}, inited: map[*ssa.Package]bool{}, base: map[int]Val{}, nextObj: 1,
		inputIdx: map[string]*InputDesc{}, reach: map[string]bool{}, unsupMsg: map[string]int{}, fnSeen: map[string]int{},
		cfg: cfg, typeIDs: map[string]int{}, ufKnown: map[*Term][]byte{}, ufInfo: map[string]ufShape{}, lostBy: map[string]int{}, scratch: map[string]interface{}{}, unwindHit: map[string]bool{}, fnByName: map[string]*ssa.Function{}, supMemo: map[*Term]map[string]bool{}}
	x.maxStates = 6000
	x.unwind = cfg.Unwind
	if x.unwind == 0 {
		x.unwind = 20000
	}
	mt := cfg.MaxTime
	if mt == 0 {
		mt = 200 * time.Second
	}
	x.deadline = time.Now().Add(mt)
	x.queryTO = 10 * time.Second
	return x
}

func (x *Exec) solver() *Solver {
	if x.sol == nil {
		x.sol = NewSolver(x.stats)
	}
	return x.sol
}

func (x *Exec) info(fn *ssa.Function) *FnInfo {
	fi := x.fis[fn]
	if fi == nil {
		fi = newFnInfo(fn, len(x.fis)+1)
		x.fis[fn] = fi
	}
	return fi
}

// ---- state ----

func (x *Exec) newState() *State {
	x.nextState++
	x.epoch++
	return &State{id: x.nextState, heap: Heap{epoch: x.epoch}, conc: map[*Term]uint64{}, tags: map[string]Val{}, model: newModel()}
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = append([]Val(nil), f.env...)
	g.iters = append([]int32(nil), f.iters...)
	g.defers = append([]*deferRec(nil), f.defers...)
	if f.pan != nil {
		p := *f.pan
		g.pan = &p
	}
	return &g
}

func (x *Exec) fork(st *State) *State {
	x.nextState++
	x.forks++
	x.epoch++
	n := &State{id: x.nextState, heap: st.heap, model: st.model, steps: st.steps, race: st.race.clone()}
	n.heap.epoch = x.epoch
	x.epoch++
	st.heap.epoch = x.epoch
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		n.frames[i] = f.clone()
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = st.pc[:len(st.pc):len(st.pc)]
	n.conc = make(map[*Term]uint64, len(st.conc))
	for k, v := range st.conc {
		n.conc[k] = v
	}
	n.tags = make(map[string]Val, len(st.tags))
	for k, v := range st.tags {
		n.tags[k] = v
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(c *Term) {
	if c.IsTrue() {
		return
	}
	if c.Op == OAnd {
		for _, a := range c.A {
			st.assume(a)
		}
		return
	}
	for _, p := range st.pc {
		if p == c {
			return
		}
	}
	st.pc = append(st.pc, c)
}

// ---- heap access ----

func (x *Exec) alloc(st *State, v Val) int {
	x.nextObj++
	id := x.nextObj
	st.heap.set(id, v)
	return id
}

func (x *Exec) obj(st *State, id int) Val {
	if id == 0 {
		x.nilDeref()
	}
	v, ok := st.heap.get(id)
	if !ok {
		v, ok = x.base[id]
	}
	if !ok {
		unsup("dangling object %d", id)
	}
	if st.race != nil {
		if _, m := v.(*MapVal); m {
			x.access(st, id, nil, -1, -1, false)
		}
	}
	return v
}

func (x *Exec) nilDeref() {
	panic(goPanic{x.rtErr("invalid memory address or nil pointer dereference")})
}

func (x *Exec) rtErr(msg string) Val {
	return Iface{t: x.prog.rtErrType(), v: Str{s: msg}}
}

func child(v Val, i int) Val {
	switch a := v.(type) {
	case *Agg:
		return a.e[i]
	case *Arr:
		return a.get(i)
	case Poison:
		unsup("poisoned value: %s", a.why)
	}
	unsup("child of %T", v)
	return nil
}

func withChild(v Val, i int, c Val) Val {
	switch a := v.(type) {
	case *Agg:
		e := append([]Val(nil), a.e...)
		e[i] = c
		return &Agg{e}
	case *Arr:
		return a.set(i, c)
	}
	unsup("withChild of %T", v)
	return nil
}

func (x *Exec) load(st *State, p Ptr) Val {
	if p.isNil() {
		x.nilDeref()
	}
	v := x.obj(st, p.obj)
	if st.race != nil {
		x.access(st, p.obj, p.path, -1, -1, false)
	}
	return x.loadPath(st, v, p.path, p)
}

func (x *Exec) loadPath(st *State, v Val, path []int, p Ptr) Val {
	for k, i := range path {
		if i >= 0 {
			v = child(v, i)
			continue
		}
		// symbolic index: multiplex
		rest := path[k+1:]
		vals := make([]Val, p.symN)
		for j := 0; j < p.symN; j++ {
			vals[j] = x.loadPath(st, child(v, p.symLo+j), rest, p)
		}
		r, ok := x.mux(p.sym, vals)
		if !ok {
			unsup("symbolic index over unmergeable elements")
		}
		return r
	}
	return v
}

// mux selects vals[idx] (idx < len(vals) known on the path).
func (x *Exec) mux(idx *Term, vals []Val) (Val, bool) {
	if idx.IsConst() {
		return vals[idx.C], true
	}
	all := true
	for _, v := range vals {
		if _, ok := v.(*Term); !ok {
			all = false
		}
	}
	if all {
		ts := make([]*Term, len(vals))
		for i, v := range vals {
			ts[i] = v.(*Term)
		}
		return x.muxTerms(idx, ts), true
	}
	r := vals[len(vals)-1]
	for j := len(vals) - 2; j >= 0; j-- {
		var ok bool
		r, ok = x.iteVal(x.b.Eq(idx, x.b.C(idx.W, uint64(j))), vals[j], r)
		if !ok {
			return nil, false
		}
	}
	return r, true
}

// muxTerms builds a binary selection tree over the bits of idx.
func (x *Exec) muxTerms(idx *Term, ts []*Term) *Term {
	same := true
	for _, t := range ts {
		if t != ts[0] {
			same = false
		}
	}
	if same {
		return ts[0]
	}
	nb := 0
	for (1 << uint(nb)) < len(ts) {
		nb++
	}
	cur := append([]*Term(nil), ts...)
	for bit := 0; bit < nb; bit++ {
		c := x.b.Eq(x.b.Extract(bit, bit, idx), x.b.C(1, 1))
		var nx []*Term
		for i := 0; i < len(cur); i += 2 {
			if i+1 < len(cur) {
				nx = append(nx, x.b.Ite(c, cur[i+1], cur[i]))
			} else {
				nx = append(nx, cur[i])
			}
		}
		cur = nx
	}
	return cur[0]
}

// iteVal merges two values structurally identical up to scalars.
func (x *Exec) iteVal(c *Term, a, b Val) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok || p.W != q.W {
			return nil, false
		}
		return x.b.Ite(c, p, q), true
	case Str:
		q, ok := b.(Str)
		if !ok || p.Len() != q.Len() {
			return nil, false
		}
		pb, qb := x.strBytes(p), x.strBytes(q)
		out := make([]*Term, len(pb))
		for i := range out {
			out[i] = x.b.Ite(c, pb[i], qb[i])
		}
		return x.mkStr(out), true
	case *Agg:
		q, ok := b.(*Agg)
		if !ok || len(p.e) != len(q.e) {
			return nil, false
		}
		e := make([]Val, len(p.e))
		for i := range e {
			if e[i], ok = x.iteVal(c, p.e[i], q.e[i]); !ok {
				return nil, false
			}
		}
		return &Agg{e}, true
	case *Arr:
		q, ok := b.(*Arr)
		if !ok || p.n != q.n {
			return nil, false
		}
		e := make([]Val, p.n)
		for i := range e {
			if e[i], ok = x.iteVal(c, p.get(i), q.get(i)); !ok {
				return nil, false
			}
		}
		return newArr(e), true
	case Iface:
		q, ok := b.(Iface)
		if !ok || p.t == nil || q.t == nil || !types.Identical(p.t, q.t) {
			return nil, false
		}
		v, ok := x.iteVal(c, p.v, q.v)
		if !ok {
			return nil, false
		}
		return Iface{p.t, v}, true
	}
	return nil, false
}

func (x *Exec) store(st *State, p Ptr, v Val) {
	if p.isNil() {
		x.nilDeref()
	}
	o := x.obj(st, p.obj)
	if st.race != nil {
		x.access(st, p.obj, p.path, -1, -1, true)
	}
	n := x.storePath(o, p.path, p, v)
	st.heap.set(p.obj, n)
}

func (x *Exec) storePath(o Val, path []int, p Ptr, v Val) Val {
	if len(path) == 0 {
		return v
	}
	if path[0] >= 0 {
		return withChild(o, path[0], x.storePath(child(o, path[0]), path[1:], p, v))
	}
	for j := 0; j < p.symN; j++ {
		old := child(o, p.symLo+j)
		nw := x.storePath(old, path[1:], p, v)
		m, ok := x.iteVal(x.b.Eq(p.sym, x.b.C(p.sym.W, uint64(j))), nw, old)
		if !ok {
			unsup("symbolic store of unmergeable values")
		}
		o = withChild(o, p.symLo+j, m)
	}
	return o
}

// ---- strings and slices ----

func (x *Exec) strBytes(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = x.b.C(8, uint64(s.s[i]))
	}
	return out
}

func (x *Exec) mkStr(b []*Term) Str {
	for _, t := range b {
		if !t.IsConst() {
			return Str{b: b}
		}
	}
	c := make([]byte, len(b))
	for i, t := range b {
		c[i] = byte(t.C)
	}
	return Str{s: string(c)}
}

func (x *Exec) sliceArr(st *State, s Slice) *Arr {
	v := x.obj(st, s.obj)
	for _, i := range s.path {
		v = child(v, i)
	}
	a, ok := v.(*Arr)
	if !ok {
		unsup("slice over %T", v)
	}
	return a
}

func (x *Exec) sliceVals(st *State, s Slice) []Val {
	if s.len == 0 {
		return nil
	}
	if st.race != nil {
		x.access(st, s.obj, s.path, s.off, s.off+s.len, false)
	}
	return x.sliceArr(st, s).slice(s.off, s.off+s.len)
}

func (x *Exec) sliceTerms(st *State, v Val) []*Term {
	s, ok := v.(Slice)
	if !ok {
		if str, ok := v.(Str); ok {
			return x.strBytes(str)
		}
		unsup("bytes of %T", v)
	}
	vs := x.sliceVals(st, s)
	out := make([]*Term, len(vs))
	for i, e := range vs {
		t, ok := e.(*Term)
		if !ok {
			unsup("byte element %T", e)
		}
		out[i] = t
	}
	return out
}

func (x *Exec) setSlice(st *State, s Slice, at int, vs []Val) {
	if len(vs) == 0 {
		return
	}
	a := x.sliceArr(st, s)
	if st.race != nil {
		x.access(st, s.obj, s.path, s.off+at, s.off+at+len(vs), true)
	}
	n := a.setRange(s.off+at, vs)
	o := x.obj(st, s.obj)
	st.heap.set(s.obj, x.storePath(o, s.path, Ptr{}, n))
}

func (x *Exec) newSlice(st *State, vs []Val) Slice {
	id := x.alloc(st, newArr(append([]Val(nil), vs...)))
	return Slice{obj: id, len: len(vs), cap: len(vs)}
}

func (x *Exec) byteSlice(st *State, b []*Term) Slice {
	vs := make([]Val, len(b))
	for i, t := range b {
		vs[i] = t
	}
	return x.newSlice(st, vs)
}

func (x *Exec) bytesConst(st *State, b []byte) Slice {
	vs := make([]Val, len(b))
	for i, t := range b {
		vs[i] = x.b.C(8, uint64(t))
	}
	return x.newSlice(st, vs)
}

func concBytes(ts []*Term) ([]byte, bool) {
	out := make([]byte, len(ts))
	for i, t := range ts {
		if !t.IsConst() {
			return nil, false
		}
		out[i] = byte(t.C)
	}
	return out, true
}

// growCap follows the shape of Go's append growth; only observable through cap().
func growCap(old, need, esize int) int {
	c := old * 2
	if old >= 256 {
		c = old + (old+768)/4
	}
	if c < need {
		c = need
	}
	if esize == 1 {
		c = (c + 7) &^ 7
	}
	return c
}

func (x *Exec) appendVals(st *State, s Slice, vs []Val, elem types.Type) Slice {
	if len(vs) == 0 {
		return s
	}
	n := s.len + len(vs)
	if n <= s.cap {
		x.setSlice(st, s, s.len, vs)
		s.len = n
		return s
	}
	c := growCap(s.cap, n, 8)
	all := make([]Val, 0, c)
	if s.len > 0 {
		all = append(all, x.sliceVals(st, s)...)
	}
	all = append(all, vs...)
	z := x.zero(elem)
	for len(all) < c {
		all = append(all, z)
	}
	id := x.alloc(st, newArr(all))
	return Slice{obj: id, len: n, cap: c}
}

// ---- types ----

func width(t types.Type) (w int, signed bool, ok bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return 0, false, true
		case types.Int8:
			return 8, true, true
		case types.Int16:
			return 16, true, true
		case types.Int32, types.UntypedRune:
			return 32, true, true
		case types.Int, types.Int64, types.UntypedInt:
			return 64, true, true
		case types.Uint8:
			return 8, false, true
		case types.Uint16:
			return 16, false, true
		case types.Uint32:
			return 32, false, true
		case types.Uint, types.Uint64, types.Uintptr:
			return 64, false, true
		}
	}
	return 0, false, false
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func (x *Exec) zero(t types.Type) Val {
	if isNamed(t, "reflect", "Value") {
		return RVal{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := width(u); ok {
			return x.b.C(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.Float32, types.Float64, types.UntypedFloat:
			return Flt(0)
		case types.UnsafePointer:
			return Ptr{}
		case types.UntypedNil:
			return Iface{}
		case types.Complex128, types.Complex64:
			return Flt(0)
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Struct:
		e := make([]Val, u.NumFields())
		for i := range e {
			e[i] = x.zero(u.Field(i).Type())
		}
		return &Agg{e}
	case *types.Array:
		return fillArr(int(u.Len()), x.zero(u.Elem()))
	case *types.Tuple:
		e := make([]Val, u.Len())
		for i := range e {
			e[i] = x.zero(u.At(i).Type())
		}
		return &Agg{e}
	}
	unsup("zero of %s", t)
	return nil
}

func (x *Exec) constVal(c *ssa.Const) Val {
	if v, ok := x.consts[c]; ok {
		return v
	}
	var v Val
	if c.Value == nil {
		v = x.zero(c.Type())
	} else if w, _, ok := width(c.Type()); ok {
		if w == 0 {
			v = x.b.BoolC(constant.BoolVal(c.Value))
		} else {
			cv := constant.ToInt(c.Value)
			if u, ok := constant.Uint64Val(cv); ok {
				v = x.b.C(w, u)
			} else {
				i, _ := constant.Int64Val(cv)
				v = x.b.C(w, uint64(i))
			}
		}
	} else if bt, ok := c.Type().Underlying().(*types.Basic); ok {
		switch {
		case bt.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				v = Str{s: constant.StringVal(c.Value)}
			} else {
				i, _ := constant.Int64Val(c.Value)
				v = Str{s: string(rune(i))}
			}
		case bt.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			v = Flt(f)
		}
	}
	if v == nil {
		unsup("const %s", c)
	}
	x.consts[c] = v
	return v
}

func (x *Exec) global(g *ssa.Global) Ptr {
	id, ok := x.globs[g]
	if !ok {
		x.nextObj++
		id = x.nextObj
		x.globs[g] = id
		x.base[id] = x.zero(g.Type().Underlying().(*types.Pointer).Elem())
	}
	if g.Pkg != nil && !x.inited[g.Pkg] {
		x.runInit(g.Pkg)
	}
	return Ptr{obj: id}
}

// runInit runs a package's variable initialisers and init functions
// (imports are initialised lazily when their globals are touched).
func (x *Exec) runInit(p *ssa.Package) {
	x.inited[p] = true
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	saveWork := x.work
	x.work = nil
	x.inInit++
	st := x.newState()
	x.pushFrame(st, fn, nil, nil)
	for len(st.frames) > 0 {
		x.runState(st, true)
		if len(x.work) > 0 {
			panic("init forked: " + p.Pkg.Path())
		}
	}
	x.inInit--
	x.work = saveWork
	// fold the init heap into the base
	heapDiff(st.heap, Heap{}, func(id int, a, _ Val) { x.base[id] = a })
}

func (x *Exec) get(f *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return x.global(c)
	case *ssa.Function:
		return &Closure{fn: c}
	case *ssa.Builtin:
		unsup("builtin value %s", c.Name())
	}
	r, ok := f.fi.reg[v]
	if !ok {
		unsup("no register for %s", v)
	}
	val := f.env[r]
	if p, ok := val.(Poison); ok {
		unsup("poisoned: %s", p.why)
	}
	if val == nil {
		unsup("undefined register %s in %s", v.Name(), f.fi.fn)
	}
	return val
}

func (x *Exec) term(f *Frame, v ssa.Value) *Term {
	val := x.get(f, v)
	t, ok := val.(*Term)
	if !ok {
		unsup("expected scalar, got %T for %s", val, v)
	}
	return t
}

func (f *Frame) set(v ssa.Value, val Val) { f.env[f.fi.reg[v]] = val }

// ---- branching ----

func (x *Exec) check(st *State, extra *Term, want bool) (Res, *Model) {
	ts := x.relevant(st.pc, extra)
	return x.solver().Check(append(ts, extra), x.queryTO, want)
}

// relevant keeps the conjuncts that share variables (transitively) with extra.
// Sound for both answers because the full pc is satisfiable by invariant.
func (x *Exec) relevant(pc []*Term, extra *Term) []*Term {
	if len(pc) <= 2 {
		return append([]*Term(nil), pc...)
	}
	sup := x.supportOf(extra)
	in := make([]bool, len(pc))
	for {
		ch := false
		for i, p := range pc {
			if in[i] {
				continue
			}
			s := x.supportOf(p)
			hit := false
			for k := range s {
				if sup[k] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				if len(s) > 0 {
					ns := make(map[string]bool, len(sup)+len(s))
					for k := range sup {
						ns[k] = true
					}
					for k := range s {
						ns[k] = true
					}
					sup = ns
				}
			}
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i, p := range pc {
		if in[i] {
			out = append(out, p)
		}
	}
	return out
}

func (x *Exec) supportOf(t *Term) map[string]bool {
	if s, ok := x.supMemo[t]; ok {
		return s
	}
	vars, ufs := cone([]*Term{t})
	s := map[string]bool{}
	for _, v := range vars {
		s[v.Name] = true
	}
	for _, u := range ufs {
		s["UF:"+u.Name] = true
	}
	x.supMemo[t] = s
	return s
}

// sides reports which truth values of c are possible, with models.
func (x *Exec) sides(st *State, c *Term) (t, f bool, mt, mf *Model) {
	if c.IsConst() {
		return c.C == 1, c.C == 0, st.model, st.model
	}
	nc := x.b.Not(c)
	for _, p := range st.pc {
		if p == c {
			return true, false, st.model, nil
		}
		if p == nc {
			return false, true, nil, st.model
		}
	}
	if st.model != nil {
		if v, ok := st.model.Eval(c); ok {
			if v == 1 {
				t, mt = true, st.model
			} else {
				f, mf = true, st.model
			}
		}
	}
	merge := func(m *Model) *Model {
		// sliced models only fix the relevant variables
		if m == nil {
			return nil
		}
		if st.model == nil {
			return nil
		}
		n := newModel()
		for k, v := range st.model.vars {
			n.vars[k] = v
		}
		for k, v := range st.model.uf {
			n.uf[k] = v
		}
		for k, v := range m.vars {
			n.vars[k] = v
		}
		for k, v := range m.uf {
			n.uf[k] = v
		}
		return n
	}
	if !t {
		r, m := x.check(st, c, true)
		if r != Unsat {
			t, mt = true, merge(m)
		}
	}
	if !f {
		r, m := x.check(st, nc, true)
		if r != Unsat {
			f, mf = true, merge(m)
		}
	}
	return
}

// branch decides a boolean inside an instruction, forking when both are possible.
func (x *Exec) branch(st *State, c *Term) bool {
	if c.IsConst() {
		return c.C == 1
	}
	if v, ok := st.conc[c]; ok {
		return v == 1
	}
	if x.spec > 0 {
		panic(specAbort{})
	}
	t, f, mt, mf := x.sides(st, c)
	switch {
	case t && f:
		panic(forkReq{conds: []*Term{c, x.b.Not(c)}, key: c, vals: []uint64{1, 0}, models: []*Model{mt, mf}})
	case t:
		return true
	case f:
		return false
	}
	panic(infeasible{})
}

// concretize returns the value of t, forking over all its possible values.
func (x *Exec) concretize(st *State, t *Term) uint64 {
	if t.IsConst() {
		return t.C
	}
	if v, ok := st.conc[t]; ok {
		return v
	}
	if x.spec > 0 {
		panic(specAbort{})
	}
	const limit = 600
	var vals []uint64
	var models []*Model
	var conds []*Term
	excl := x.b.True
	if st.model != nil {
		if v, ok := st.model.Eval(t); ok {
			vals = append(vals, v)
			models = append(models, st.model)
			c := x.b.Eq(t, x.b.C(t.W, v))
			conds = append(conds, c)
			excl = x.b.Not(c)
		}
	}
	for {
		if excl.IsFalse() {
			break
		}
		q := excl
		if q.IsTrue() {
			q = x.b.Eq(t, t)
			q = x.b.Ule(x.b.C(t.W, 0), t)
		}
		ts := append(append([]*Term(nil), st.pc...), q, x.b.Eq(x.b.Var("$conc", t.W), t))
		_ = ts
		r, m := x.solver().Check(append(append([]*Term(nil), st.pc...), q, x.b.Eq(x.b.Var(fmt.Sprintf("$conc%d", t.W), t.W), t)), x.queryTO, true)
		if r == Unsat {
			break
		}
		if r == Unknown || m == nil {
			unsup("cannot enumerate values of a symbolic size or index")
		}
		v, ok := m.Eval(t)
		if !ok {
			v = m.vars[fmt.Sprintf("$conc%d", t.W)]
		}
		vals = append(vals, v)
		models = append(models, m)
		c := x.b.Eq(t, x.b.C(t.W, v))
		conds = append(conds, c)
		excl = x.b.And(excl, x.b.Not(c))
		if len(vals) > limit {
			unsup("more than %d values for a symbolic size or index", limit)
		}
	}
	if len(vals) == 0 {
		panic(infeasible{})
	}
	if len(vals) == 1 {
		st.conc[t] = vals[0]
		return vals[0]
	}
	panic(forkReq{conds: conds, key: t, vals: vals, models: models})
}

// ---- main loop ----

func (x *Exec) pushFrame(st *State, fn *ssa.Function, args, binds []Val) *Frame {
	fi := x.info(fn)
	f := &Frame{fi: fi, b: fn.Blocks[0], env: make([]Val, fi.nreg), iters: make([]int32, fi.nloops)}
	if len(args) != len(fn.Params) {
		unsup("arity of %s", fn)
	}
	for i, p := range fn.Params {
		f.env[fi.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[fi.reg[p]] = binds[i]
	}
	if len(st.frames) > 400 {
		unsup("call depth")
	}
	st.frames = append(st.frames, f)
	if x.inInit == 0 {
		x.fnSeen[fn.String()]++
	}
	return f
}

func (x *Exec) Run(fn *ssa.Function) {
	st := x.newState()
	x.pushFrame(st, fn, nil, nil)
	x.work = []*State{st}
	for len(x.work) > 0 {
		if time.Now().After(x.deadline) {
			x.unsupMsg["time limit"] += len(x.work)
			for i := 0; i < len(x.work); i += 1 + len(x.work)/8 {
				x.lose(x.work[i], "time limit")
			}
			x.work = nil
			break
		}
		st := x.pick()
		x.runState(st, false)
	}
}

func (x *Exec) pick() *State {
	bi := 0
	for i := 1; i < len(x.work); i++ {
		if cmpState(x.work[i], x.work[bi]) < 0 {
			bi = i
		}
	}
	st := x.work[bi]
	x.work[bi] = x.work[len(x.work)-1]
	x.work = x.work[:len(x.work)-1]
	if !x.cfg.NoMerge {
		tries := 0
		for i := 0; i < len(x.work); {
			o := x.work[i]
			if cmpState(o, st) == 0 && tries < 24 {
				if m := x.tryMerge(st, o); m != nil {
					x.merges++
					st = m
					x.work[i] = x.work[len(x.work)-1]
					x.work = x.work[:len(x.work)-1]
					continue
				}
				tries++
			}
			i++
		}
	}
	return st
}

func cmpInt(a, b int) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func cmpPos(a, b *Frame) int {
	if a.b == b.b && len(a.iters) == 0 {
		return cmpInt(a.ip, b.ip)
	}
	la, lb := a.fi.loops[a.b.Index], b.fi.loops[b.b.Index]
	i := 0
	for ; i < len(la) && i < len(lb) && la[i] == lb[i]; i++ {
		if c := cmpInt(int(a.iters[la[i]]), int(b.iters[la[i]])); c != 0 {
			return c
		}
	}
	pa, pb := a.fi.order[a.b.Index], b.fi.order[b.b.Index]
	if i < len(la) {
		pa = a.fi.order[a.fi.header[la[i]]]
	}
	if i < len(lb) {
		pb = b.fi.order[b.fi.header[lb[i]]]
	}
	if c := cmpInt(pa, pb); c != 0 {
		return c
	}
	return cmpInt(a.ip, b.ip)
}

func cmpState(a, b *State) int {
	n := len(a.frames)
	if len(b.frames) < n {
		n = len(b.frames)
	}
	for i := 0; i < n; i++ {
		fa, fb := a.frames[i], b.frames[i]
		if fa.fi != fb.fi {
			return cmpInt(fa.fi.id, fb.fi.id)
		}
		if c := cmpPos(fa, fb); c != 0 {
			return c
		}
	}
	return -cmpInt(len(a.frames), len(b.frames))
}

// runState advances st until it ends, forks, or must yield for a merge.
func (x *Exec) runState(st *State, exclusive bool) {
	for {
		if len(st.frames) == 0 {
			return
		}
		st.steps++
		x.steps++
		if x.steps&0x3ff == 0 && time.Now().After(x.deadline) {
			x.kill(st, "time limit")
			return
		}
		yield, alive := x.stepSafe(st)
		if !alive {
			return
		}
		if yield && !exclusive && len(x.work) > 0 {
			x.work = append(x.work, st)
			if len(x.work) > x.maxStates {
				x.kill(st, "too many paths")
				x.work = x.work[:len(x.work)-1]
			}
			return
		}
	}
}

func (x *Exec) kill(st *State, why string) {
	if x.inInit > 0 {
		panic("init: " + why)
	}
	x.unsupMsg[why]++
	x.lose(st, why)
	st.frames = nil
}

// lost is a path that could not be followed to its end.
type lost struct {
	pc    []*Term
	model *Model
}

// lose keeps a few of the paths that are given up, for native replays.
func (x *Exec) lose(st *State, why string) {
	x.lostBy[why]++
	if x.lostBy[why] > 6 || len(x.lost) >= 24 {
		return
	}
	x.lost = append(x.lost, lost{append([]*Term(nil), st.pc...), st.model})
}

func (x *Exec) where(st *State) string {
	var parts []string
	for i := len(st.frames) - 1; i >= 0 && len(parts) < 4; i-- {
		f := st.frames[i]
		p := ""
		if f.ip < len(f.b.Instrs) {
			for j := f.ip; j >= 0; j-- {
				if pos := f.b.Instrs[j].Pos(); pos != token.NoPos {
					ps := x.prog.fset.Position(pos)
					fn := ps.Filename
					if k := strings.LastIndex(fn, "/"); k >= 0 {
						fn = fn[k+1:]
					}
					p = fmt.Sprintf("%s:%d", fn, ps.Line)
					break
				}
			}
		}
		parts = append(parts, f.fi.fn.String()+"("+p+")")
	}
	return strings.Join(parts, " < ")
}

func (x *Exec) stepSafe(st *State) (yield, alive bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch e := r.(type) {
		case forkReq:
			if x.inInit > 0 {
				panic("fork in init")
			}
			for i := range e.conds {
				var n *State
				if i == len(e.conds)-1 {
					n = st
				} else {
					n = x.fork(st)
				}
				n.assume(e.conds[i])
				if e.key != nil {
					n.conc[e.key] = e.vals[i]
				}
				n.model = e.models[i]
				n.fresh = true
				x.work = append(x.work, n)
			}
			if len(x.work) > x.maxStates {
				x.unsupMsg["too many paths"] += len(x.work) - x.maxStates
				x.work = x.work[:x.maxStates]
			}
			yield, alive = false, false
		case goPanic:
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupported); ok {
						x.kill(st, u.msg)
						yield, alive = false, false
						return
					}
					panic(r)
				}
			}()
			alive = x.raise(st, e.v)
			yield = false
		case infeasible:
			st.frames = nil
			yield, alive = false, false
		case unsupported:
			if x.inInit > 0 {
				f := st.top()
				ins := f.b.Instrs[f.ip]
				if os.Getenv("SYMDEBUG") != "" {
					fmt.Fprintln(os.Stderr, "init poison:", e.msg, "at", x.where(st))
				}
				// poison the value and go on (unwind to the init frame)
				for len(st.frames) > 1 {
					st.frames = st.frames[:len(st.frames)-1]
				}
				f = st.top()
				ins = f.b.Instrs[f.ip]
				if v, ok := ins.(ssa.Value); ok {
					f.set(v, Poison{e.msg})
				}
				switch s := ins.(type) {
				case *ssa.Store:
					if p, ok := f.env[f.fi.reg[s.Addr]].(Ptr); ok {
						func() {
							defer func() { recover() }()
							x.store(st, p, Poison{e.msg})
						}()
					} else if g, ok := s.Addr.(*ssa.Global); ok {
						x.store(st, x.global(g), Poison{e.msg})
					}
				case *ssa.If:
					st.frames = nil
					return
				}
				f.ip++
				alive = true
				return
			}
			w := e.msg + " @ " + x.where(st)
			x.kill(st, w)
			yield, alive = false, false
		default:
			// a fault of the executor itself ends this path only
			if _, ok := r.(runtime.Error); !ok && x.inInit == 0 {
				if _, ok := r.(string); !ok {
					panic(r)
				}
			}
			if x.inInit > 0 || os.Getenv("SYMDEBUG") != "" || len(st.frames) == 0 {
				panic(r)
			}
			x.kill(st, fmt.Sprintf("engine: %v @ %s", r, x.where(st)))
			yield, alive = false, false
		}
	}()
	yield, alive = x.step(st)
	st.fresh = false
	return
}

// raise starts a Go panic in the top frame; reports whether st is still alive.
func (x *Exec) raise(st *State, v Val) bool {
	if x.inInit > 0 {
		panic(fmt.Sprintf("panic in init: %v", describe(v)))
	}
	where := x.where(st)
	st.top().pan = &panicRec{v: v}
	return x.unwindFrame(st, where)
}

func (x *Exec) unwindFrame(st *State, where string) bool {
	for len(st.frames) > 0 {
		f := st.top()
		if f.pan.recovered {
			f.pan = nil
			if f.fi.fn.Recover != nil {
				f.b = f.fi.fn.Recover
				f.ip = 0
				for f.ip < len(f.b.Instrs) {
					if _, ok := f.b.Instrs[f.ip].(*ssa.Phi); !ok {
						break
					}
					f.ip++
				}
				return true
			}
			res := f.fi.fn.Signature.Results()
			var v Val
			if res.Len() == 1 {
				v = x.zero(res.At(0).Type())
			} else if res.Len() > 1 {
				v = x.zero(res)
			}
			return x.ret(st, v)
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			if x.callDefer(st, d) {
				return true // a frame was pushed; resume unwinding on its return
			}
			continue
		}
		p := f.pan
		st.frames = st.frames[:len(st.frames)-1]
		if len(st.frames) == 0 {
			x.uncaught(st, p.v, where)
			return false
		}
		below := st.top()
		if below.pan != nil && !below.pan.recovered {
			// new panic replaces the old one
		}
		below.pan = &panicRec{v: p.v}
	}
	return false
}

func (x *Exec) panicText(v Val) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.v.(Str); ok && s.b == nil {
			return s.s
		}
		if i.t != nil {
			return i.t.String()
		}
	}
	return describe(v)
}

func (x *Exec) uncaught(st *State, v Val, where string) {
	x.addViolation(st, "panic", "panic: "+x.panicText(v), where, x.b.True)
}

// addViolation records a feasible bad path.
func (x *Exec) addViolation(st *State, kind, msg, where string, cond *Term) {
	m := st.model
	if m != nil {
		ok := true
		for _, p := range append(append([]*Term(nil), st.pc...), cond) {
			v, k := m.Eval(p)
			if !k || v == 0 {
				ok = false
			}
		}
		if !ok {
			m = nil
		}
	}
	if m == nil {
		ts := append(append([]*Term(nil), st.pc...), cond)
		r, mm := x.solver().Check(ts, x.queryTO, true)
		if r == Unknown {
			r, mm, _ = Portfolio(x.stats, ts, 60*time.Second, bvPortfolio)
		}
		if r == Unsat {
			return
		}
		if r == Unknown {
			x.unsupMsg["undecided feasibility of a failing path: "+msg]++
			return
		}
		m = mm
	}
	x.vio = append(x.vio, &Violation{Msg: msg, Model: m, Kind: kind, PC: append([]*Term(nil), st.pc...), Where: where})
}

// ret returns v from the top frame to its caller; reports whether st lives on.
func (x *Exec) ret(st *State, v Val) bool {
	f := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	if f.cont != nil {
		nv, pushed := f.cont(x, st, v)
		if pushed {
			return true
		}
		v = nv
	}
	if len(st.frames) == 0 {
		if x.inInit == 0 {
			x.done++
		}
		if st.model != nil && x.inInit == 0 && len(x.samples) < 64 {
			x.samples = append(x.samples, st.model)
		}
		return false
	}
	c := st.top()
	if f.isDefer {
		if c.pan != nil {
			return x.unwindFrame(st, x.where(st))
		}
		return true // RunDefers re-executes
	}
	x.finishCall(c, v)
	return true
}

func (x *Exec) finishCall(c *Frame, v Val) {
	if iv, ok := c.b.Instrs[c.ip].(ssa.Value); ok {
		if v == nil {
			v = &Agg{}
		}
		c.set(iv, v)
	}
	c.ip++
}

func (x *Exec) jump(st *State, f *Frame, si int) {
	from := f.b
	to := from.Succs[si]
	k := -1
	occ := 0
	for i := 0; i < si; i++ {
		if from.Succs[i] == to {
			occ++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if occ == 0 {
				k = i
				break
			}
			occ--
		}
	}
	var vals []Val
	n := 0
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var v Val
		e := p.Edges[k]
		if r, ok := f.fi.reg[e]; ok {
			v = f.env[r] // may be undefined/poison on dead edges
		} else {
			v = x.get(f, e)
		}
		vals = append(vals, v)
		n++
	}
	for i := 0; i < n; i++ {
		f.env[f.fi.reg[to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	for li, h := range f.fi.header {
		if h == to.Index {
			if f.fi.inLoop[li][from.Index] {
				f.iters[li]++
				if int(f.iters[li]) > x.unwind && x.inInit == 0 {
					x.unwindHit[f.fi.fn.String()] = true
					unsup("loop bound %d reached in %s", x.unwind, f.fi.fn)
				}
			} else {
				f.iters[li] = 0
			}
		}
	}
	f.b = to
	f.ip = n
}

func (x *Exec) step(st *State) (yield, alive bool) {
	f := st.top()
	ins := f.b.Instrs[f.ip]
	switch i := ins.(type) {
	case *ssa.DebugRef:
		f.ip++
	case *ssa.Jump:
		x.jump(st, f, 0)
		return len(f.b.Preds) > 1, true
	case *ssa.If:
		c := x.term(f, i.Cond)
		if c.IsConst() {
			if c.C == 1 {
				x.jump(st, f, 0)
			} else {
				x.jump(st, f, 1)
			}
			return len(f.b.Preds) > 1, true
		}
		if v, ok := st.conc[c]; ok {
			x.jump(st, f, int(1-v))
			return len(f.b.Preds) > 1, true
		}
		if x.ifConvert(st, f, c) {
			return len(f.b.Preds) > 1, true
		}
		t, e, mt, mf := x.sides(st, c)
		switch {
		case t && e:
			n := x.fork(st)
			n.assume(x.b.Not(c))
			n.model = mf
			x.jumpSafe(n, 1)
			st.assume(c)
			st.model = mt
			x.jumpSafe(st, 0)
			if len(n.frames) > 0 {
				x.work = append(x.work, n)
			}
			return true, len(st.frames) > 0
		case t:
			x.jump(st, f, 0)
		case e:
			x.jump(st, f, 1)
		default:
			panic(infeasible{})
		}
		return len(f.b.Preds) > 1, true
	case *ssa.Return:
		var v Val
		switch len(i.Results) {
		case 0:
		case 1:
			v = x.get(f, i.Results[0])
		default:
			e := make([]Val, len(i.Results))
			for k, r := range i.Results {
				e[k] = x.get(f, r)
			}
			v = &Agg{e}
		}
		return true, x.ret(st, v)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			x.callDefer(st, d)
			return false, true
		}
		f.ip++
	case *ssa.Panic:
		panic(goPanic{x.get(f, i.X)})
	case *ssa.Defer:
		fn, args := x.resolve(st, f, &i.Call)
		if fn == nil && args == nil {
			unsup("defer of builtin %s", i.Call.Value)
		}
		f.defers = append(append([]*deferRec(nil), f.defers...), &deferRec{fn: fn, args: args, call: &i.Call})
		f.ip++
	case *ssa.Go:
		// one schedule only: the goroutine runs to its end where it is started
		fn, args := x.resolve(st, f, &i.Call)
		if fn == nil {
			unsup("goroutine of a builtin")
		}
		x.sched = true
		if v, pushed := x.callClosure(st, fn, args); !pushed {
			x.finishCall(f, v)
		}
		return false, true
	case *ssa.Store:
		p, ok := x.get(f, i.Addr).(Ptr)
		if !ok {
			unsup("store to %T", x.get(f, i.Addr))
		}
		x.store(st, p, x.get(f, i.Val))
		f.ip++
	case *ssa.MapUpdate:
		x.mapSet(st, x.get(f, i.Map).(MapRef), x.get(f, i.Key), x.get(f, i.Value))
		f.ip++
	case *ssa.Send:
		unsup("channel send")
	case *ssa.Call:
		x.doCall(st, f, &i.Call)
		// yield after intrinsics as well so that forks inside can merge
		return false, len(st.frames) > 0
	case ssa.Value:
		f.set(i, x.eval(st, f, i))
		f.ip++
	default:
		unsup("instruction %T", ins)
	}
	return false, true
}

type specAbort struct{}

// pureSide says that b only computes values and then jumps.
func pureSide(b *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 || len(b.Succs) != 1 || len(b.Instrs) > 16 {
		return false
	}
	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Extract, *ssa.DebugRef, *ssa.Jump, *ssa.Phi:
		case *ssa.UnOp:
			if i.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			bi, ok := i.Call.Value.(*ssa.Builtin)
			if !ok || (bi.Name() != "len" && bi.Name() != "cap") {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ifConvert turns a branch around side-effect free code into conditional
// values; false when it does not have that shape (nothing has happened then).
func (x *Exec) ifConvert(st *State, f *Frame, c *Term) (done bool) {
	if x.concrete != nil || x.inInit > 0 {
		return false
	}
	from := f.b
	T, E := from.Succs[0], from.Succs[1]
	if T == E {
		return false
	}
	var join *ssa.BasicBlock
	tp, ep := pureSide(T), pureSide(E)
	switch {
	case tp && T.Succs[0] == E:
		join, ep = E, false
	case ep && E.Succs[0] == T:
		join, tp = T, false
	case tp && ep && T.Succs[0] == E.Succs[0]:
		join = T.Succs[0]
	default:
		return false
	}
	if join == from {
		return false
	}
	ip := f.ip
	x.spec++
	defer func() {
		x.spec--
		if r := recover(); r != nil {
			switch r.(type) {
			case specAbort, goPanic, unsupported, infeasible, forkReq:
				f.b, f.ip = from, ip
				done = false
				return
			}
			panic(r)
		}
	}()
	side := func(b *ssa.BasicBlock, pure bool) []Val {
		pred := from
		if pure {
			pred = b
			for k, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Jump, *ssa.DebugRef:
				case *ssa.Phi:
					f.set(i, x.get(f, i.Edges[0]))
				case *ssa.Call:
					v := x.builtin(st, f, i.Call.Value.(*ssa.Builtin), &i.Call)
					f.set(i, v)
				case ssa.Value:
					f.set(i, x.eval(st, f, i))
				}
				_ = k
			}
		}
		e := -1
		for k, p := range join.Preds {
			if p == pred {
				e = k
			}
		}
		var out []Val
		for _, ins := range join.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if r, ok := f.fi.reg[p.Edges[e]]; ok {
				out = append(out, f.env[r])
			} else {
				out = append(out, x.get(f, p.Edges[e]))
			}
		}
		return out
	}
	tv := side(T, tp)
	ev := side(E, ep)
	out := make([]Val, len(tv))
	for i := range tv {
		if tv[i] == nil || ev[i] == nil {
			return false
		}
		v, ok := x.iteVal(c, tv[i], ev[i])
		if !ok {
			return false
		}
		out[i] = v
	}
	// take one of the edges for its loop accounting, then set the phis
	if tp {
		f.b, f.ip = T, len(T.Instrs)-1
		x.jump(st, f, 0)
	} else {
		f.b, f.ip = E, len(E.Instrs)-1
		x.jump(st, f, 0)
	}
	for i := range out {
		f.env[f.fi.reg[join.Instrs[i].(*ssa.Phi)]] = out[i]
	}
	x.ifconv++
	return true
}

func (x *Exec) jumpSafe(st *State, si int) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				x.kill(st, u.msg)
				return
			}
			panic(r)
		}
	}()
	x.jump(st, st.top(), si)
}

// callDefer runs a deferred call; true when it pushed a frame.
func (x *Exec) callDefer(st *State, d *deferRec) bool {
	if d.fn == nil {
		unsup("deferred builtin")
	}
	n := len(st.frames)
	_, pushed := x.callClosure(st, d.fn, d.args)
	if pushed && len(st.frames) > n {
		st.frames[n].isDefer = true
		return true
	}
	return false
}

// resolve evaluates the callee (nil for builtins) and arguments of a call.
func (x *Exec) resolve(st *State, f *Frame, c *ssa.CallCommon) (*Closure, []Val) {
	var args []Val
	if c.IsInvoke() {
		rv, ok := x.get(f, c.Value).(Iface)
		if !ok {
			unsup("invoke on %T", x.get(f, c.Value))
		}
		if rv.t == nil {
			x.nilDeref()
		}
		for _, a := range c.Args {
			args = append(args, x.get(f, a))
		}
		return x.method(rv, c.Method), append([]Val{rv.v}, args...)
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, nil
	}
	fv := x.get(f, c.Value)
	cl, ok := fv.(*Closure)
	if !ok {
		unsup("call of %T", fv)
	}
	for _, a := range c.Args {
		args = append(args, x.get(f, a))
	}
	if args == nil {
		args = []Val{}
	}
	return cl, args
}

func (x *Exec) method(rv Iface, m *types.Func) *Closure {
	if _, ok := rv.v.(RType); ok {
		name := m.Name()
		return &Closure{name: "rtype." + name, nat: func(x *Exec, st *State, args []Val) Val { return x.rtypeMethod(st, name, args) }}
	}
	fn := x.prog.ssa.LookupMethod(rv.t, m.Pkg(), m.Name())
	if fn == nil {
		unsup("no method %s on %s", m.Name(), rv.t)
	}
	return &Closure{fn: fn}
}

func (x *Exec) doCall(st *State, f *Frame, c *ssa.CallCommon) {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		v := x.builtin(st, f, b, c)
		x.finishCall(f, v)
		return
	}
	cl, args := x.resolve(st, f, c)
	v, pushed := x.callClosure(st, cl, args)
	if !pushed && len(st.frames) > 0 {
		x.finishCall(f, v)
	}
}

func (x *Exec) callClosure(st *State, cl *Closure, args []Val) (Val, bool) {
	if cl == nil {
		x.nilDeref()
	}
	if cl.nat != nil {
		return cl.nat(x, st, args), false
	}
	return x.callFn(st, cl.fn, args, cl.binds)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args, binds []Val) (Val, bool) {
	name := fnName(fn)
	if to, ok := x.cfg.Subst[name]; ok && (x.inInit == 0 || name == "os.NewFile") {
		sf := x.fnByName[to]
		if sf == nil {
			sf = x.prog.lookup(to)
			if sf == nil {
				unsup("substitute %s for %s missing", to, name)
			}
			x.fnByName[to] = sf
		}
		// inside the substitute itself the original is reachable
		inside := false
		for _, fr := range st.frames {
			if fr.fi.fn == sf {
				inside = true
			}
		}
		if !inside {
			fn = sf
			name = fnName(fn)
		}
	}
	if in, ok := intrinsics[name]; ok {
		return in(x, st, args, fn)
	}
	if x.inInit > 0 && fn.Name() == "init" && fn.Pkg != nil && fn.Synthetic != "" && len(st.frames) > 0 {
		return nil, false // imports are initialised lazily
	}
	if len(fn.Blocks) == 0 {
		x.prog.ensure(fn)
	}
	if len(fn.Blocks) == 0 {
		unsup("external function %s", name)
	}
	x.pushFrame(st, fn, args, binds)
	return nil, true
}

// ---- expressions ----

func (x *Exec) eval(st *State, f *Frame, v ssa.Value) Val {
	switch i := v.(type) {
	case *ssa.Alloc:
		id := x.alloc(st, x.zero(i.Type().Underlying().(*types.Pointer).Elem()))
		return Ptr{obj: id}
	case *ssa.BinOp:
		return x.binop(st, i.Op, i.X.Type(), x.get(f, i.X), x.get(f, i.Y), i.Y.Type())
	case *ssa.UnOp:
		return x.unop(st, f, i)
	case *ssa.ChangeType:
		return x.get(f, i.X)
	case *ssa.Convert:
		return x.convert(st, x.get(f, i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		return x.convert(st, x.get(f, i.X), i.X.Type(), i.Type())
	case *ssa.ChangeInterface:
		return x.get(f, i.X)
	case *ssa.SliceToArrayPointer:
		s := x.get(f, i.X).(Slice)
		n := int(i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			panic(goPanic{x.rtErr("cannot convert slice to array pointer: length")})
		}
		a := x.sliceArr(st, s)
		if s.off == 0 && a.n == n {
			return Ptr{obj: s.obj, path: s.path}
		}
		unsup("slice to array pointer with offset")
	case *ssa.MakeInterface:
		return Iface{t: i.X.Type(), v: x.get(f, i.X)}
	case *ssa.MakeClosure:
		c := &Closure{fn: i.Fn.(*ssa.Function)}
		for _, bnd := range i.Bindings {
			c.binds = append(c.binds, x.get(f, bnd))
		}
		return c
	case *ssa.MakeMap:
		return MapRef{x.alloc(st, &MapVal{})}
	case *ssa.MakeChan:
		return ChanRef{x.alloc(st, &Agg{})}
	case *ssa.MakeSlice:
		n := x.intVal(st, x.term(f, i.Len))
		c := x.intVal(st, x.term(f, i.Cap))
		if n < 0 {
			panic(goPanic{x.rtErr("makeslice: len out of range")})
		}
		if c < n {
			panic(goPanic{x.rtErr("makeslice: cap out of range")})
		}
		if c > 1<<22 {
			unsup("makeslice of %d", c)
		}
		id := x.alloc(st, fillArr(c, x.zero(i.Type().Underlying().(*types.Slice).Elem())))
		return Slice{obj: id, len: n, cap: c}
	case *ssa.Slice:
		return x.slice(st, f, i)
	case *ssa.FieldAddr:
		p, ok := x.get(f, i.X).(Ptr)
		if !ok {
			unsup("fieldaddr of %T", x.get(f, i.X))
		}
		if p.isNil() {
			x.nilDeref()
		}
		return p.sub(i.Field)
	case *ssa.Field:
		return child(x.get(f, i.X), i.Field)
	case *ssa.IndexAddr:
		return x.indexAddr(st, f, i)
	case *ssa.Index:
		c := x.get(f, i.X)
		idx := x.idxTerm(x.term(f, i.Index), i.Index.Type())
		switch a := c.(type) {
		case *Arr:
			x.bounds(st, idx, a.n)
			if idx.IsConst() {
				return a.get(int(idx.C))
			}
			r, ok := x.mux(idx, a.slice(0, a.n))
			if !ok {
				return a.get(int(x.concretize(st, idx)))
			}
			return r
		case Str:
			return x.strIndex(st, a, idx)
		}
		unsup("index of %T", c)
	case *ssa.Lookup:
		return x.lookup(st, f, i)
	case *ssa.Range:
		switch c := x.get(f, i.X).(type) {
		case MapRef:
			var keys []Val
			if c.obj != 0 {
				keys = x.obj(st, c.obj).(*MapVal).keys
			}
			if ord := x.mapOrder(st, len(keys)); ord != nil {
				ks := make([]Val, len(keys))
				for i, j := range ord {
					ks[i] = keys[j]
				}
				keys = ks
			}
			return IterRef{x.alloc(st, &Agg{[]Val{IterVal{keys: keys, m: c.obj}}})}
		case Str:
			return IterRef{x.alloc(st, &Agg{[]Val{IterVal{s: c}}})}
		default:
			unsup("range over %T", c)
		}
	case *ssa.Next:
		return x.next(st, f, i)
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, i)
	case *ssa.Extract:
		return child(x.get(f, i.Tuple), i.Index)
	case *ssa.Select:
		unsup("select")
	}
	unsup("value %T", v)
	return nil
}

// idxTerm widens an index to 64 bits according to its type.
func (x *Exec) idxTerm(t *Term, ty types.Type) *Term {
	_, signed, _ := width(ty)
	if signed {
		return x.b.Sext(64, t)
	}
	return x.b.Zext(64, t)
}

func (x *Exec) intVal(st *State, t *Term) int {
	if t.W < 64 {
		return int(x.concretize(st, t))
	}
	return int(int64(x.concretize(st, t)))
}

func (x *Exec) bounds(st *State, idx *Term, n int) {
	ok := x.b.Ult(idx, x.b.C(64, uint64(n)))
	if !x.branch(st, ok) {
		panic(goPanic{x.rtErr("index out of range")})
	}
}

func (x *Exec) strIndex(st *State, s Str, idx *Term) Val {
	x.bounds(st, idx, s.Len())
	if idx.IsConst() {
		if s.b != nil {
			return s.b[idx.C]
		}
		return x.b.C(8, uint64(s.s[idx.C]))
	}
	return x.muxTerms(idx, x.strBytes(s))
}

func (x *Exec) indexAddr(st *State, f *Frame, i *ssa.IndexAddr) Val {
	idx := x.idxTerm(x.term(f, i.Index), i.Index.Type())
	c := x.get(f, i.X)
	switch a := c.(type) {
	case Slice:
		x.bounds(st, idx, a.len)
		p := Ptr{obj: a.obj, path: a.path}
		if idx.IsConst() {
			return p.sub(a.off + int(idx.C))
		}
		if v, ok := st.conc[idx]; ok {
			return p.sub(a.off + int(v))
		}
		if !x.muxable(i.Type()) {
			return p.sub(a.off + int(x.concretize(st, idx)))
		}
		q := p.sub(-1)
		q.sym, q.symLo, q.symN = idx, a.off, a.len
		return q
	case Ptr:
		if a.isNil() {
			x.nilDeref()
		}
		n := int(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		x.bounds(st, idx, n)
		if idx.IsConst() {
			return a.sub(int(idx.C))
		}
		if v, ok := st.conc[idx]; ok {
			return a.sub(int(v))
		}
		if a.sym != nil || !x.muxable(i.Type()) {
			return a.sub(int(x.concretize(st, idx)))
		}
		q := a.sub(-1)
		q.sym, q.symLo, q.symN = idx, 0, n
		return q
	}
	unsup("indexaddr of %T", c)
	return nil
}

// muxable: element type made of scalars only.
func (x *Exec) muxable(pt types.Type) bool {
	var rec func(t types.Type) bool
	rec = func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			_, _, ok := width(u)
			return ok
		case *types.Array:
			return rec(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if !rec(u.Field(i).Type()) {
					return false
				}
			}
			return true
		}
		return false
	}
	return rec(pt.Underlying().(*types.Pointer).Elem())
}

func (x *Exec) slice(st *State, f *Frame, i *ssa.Slice) Val {
	c := x.get(f, i.X)
	gi := func(v ssa.Value, def int) (int, bool) {
		if v == nil {
			return def, false
		}
		t := x.idxTerm(x.term(f, v), v.Type())
		return int(int64(x.concretize(st, t))), true
	}
	bad := func() { panic(goPanic{x.rtErr("slice bounds out of range")}) }
	switch a := c.(type) {
	case Str:
		n := a.Len()
		hi, _ := gi(i.High, n)
		lo, _ := gi(i.Low, 0)
		if hi < 0 || hi > n || lo < 0 || lo > hi {
			bad()
		}
		if a.b != nil {
			return x.mkStr(a.b[lo:hi:hi])
		}
		return Str{s: a.s[lo:hi]}
	case Slice:
		mx, hasMax := gi(i.Max, a.cap)
		hi, _ := gi(i.High, a.len)
		lo, _ := gi(i.Low, 0)
		if mx < 0 || mx > a.cap || hi < 0 || hi > mx || lo < 0 || lo > hi {
			bad()
		}
		_ = hasMax
		if a.obj == 0 {
			return a
		}
		return Slice{obj: a.obj, path: a.path, off: a.off + lo, len: hi - lo, cap: mx - lo}
	case Ptr:
		if a.isNil() {
			x.nilDeref()
		}
		if a.sym != nil {
			unsup("slice of symbolically indexed array")
		}
		n := int(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		mx, _ := gi(i.Max, n)
		hi, _ := gi(i.High, n)
		lo, _ := gi(i.Low, 0)
		if mx < 0 || mx > n || hi < 0 || hi > mx || lo < 0 || lo > hi {
			bad()
		}
		return Slice{obj: a.obj, path: a.path, off: lo, len: hi - lo, cap: mx - lo}
	}
	unsup("slice of %T", c)
	return nil
}

func (x *Exec) unop(st *State, f *Frame, i *ssa.UnOp) Val {
	v := x.get(f, i.X)
	switch i.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			unsup("deref of %T", v)
		}
		r := x.load(st, p)
		if po, ok := r.(Poison); ok {
			unsup("poisoned: %s", po.why)
		}
		return r
	case token.NOT:
		return x.b.Not(v.(*Term))
	case token.SUB:
		if fl, ok := v.(Flt); ok {
			return -fl
		}
		t := v.(*Term)
		return x.b.Sub(x.b.C(t.W, 0), t)
	case token.XOR:
		return x.b.BNot(v.(*Term))
	case token.ARROW:
		unsup("channel receive")
	}
	unsup("unop %s", i.Op)
	return nil
}

func (x *Exec) binop(st *State, op token.Token, ty types.Type, a, b Val, yty types.Type) Val {
	switch op {
	case token.EQL:
		return x.eq(st, a, b)
	case token.NEQ:
		return x.b.Not(x.eq(st, a, b))
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			unsup("binop %T %T", a, b)
		}
		return x.intOp(st, op, ty, p, q, yty)
	case Str:
		q := b.(Str)
		switch op {
		case token.ADD:
			if p.b == nil && q.b == nil {
				return Str{s: p.s + q.s}
			}
			return x.mkStr(append(append([]*Term(nil), x.strBytes(p)...), x.strBytes(q)...))
		case token.LSS:
			return x.strLess(p, q, false)
		case token.LEQ:
			return x.b.Not(x.strLess(q, p, false))
		case token.GTR:
			return x.strLess(q, p, false)
		case token.GEQ:
			return x.b.Not(x.strLess(p, q, false))
		}
	case Flt:
		q := b.(Flt)
		switch op {
		case token.ADD:
			return p + q
		case token.SUB:
			return p - q
		case token.MUL:
			return p * q
		case token.QUO:
			return p / q
		case token.LSS:
			return x.b.BoolC(p < q)
		case token.LEQ:
			return x.b.BoolC(p <= q)
		case token.GTR:
			return x.b.BoolC(p > q)
		case token.GEQ:
			return x.b.BoolC(p >= q)
		}
	}
	unsup("binop %s on %T", op, a)
	return nil
}

func (x *Exec) strLess(p, q Str, orEq bool) *Term {
	a, c := x.strBytes(p), x.strBytes(q)
	return x.bytesLess(a, c)
}

func (x *Exec) bytesLess(a, c []*Term) *Term {
	r := x.b.BoolC(len(a) < len(c))
	n := len(a)
	if len(c) < n {
		n = len(c)
	}
	for i := n - 1; i >= 0; i-- {
		r = x.b.Ite(x.b.Eq(a[i], c[i]), r, x.b.Ult(a[i], c[i]))
	}
	return r
}

func (x *Exec) intOp(st *State, op token.Token, ty types.Type, p, q *Term, yty types.Type) Val {
	w, signed, ok := width(ty)
	if !ok {
		unsup("int op on %s", ty)
	}
	b := x.b
	if w == 0 {
		switch op {
		case token.LAND, token.AND:
			return b.And(p, q)
		case token.LOR, token.OR:
			return b.Or(p, q)
		}
		unsup("bool op %s", op)
	}
	switch op {
	case token.ADD:
		return b.Add(p, q)
	case token.SUB:
		return b.Sub(p, q)
	case token.MUL:
		return b.Mul(p, q)
	case token.QUO, token.REM:
		if x.branch(st, b.Eq(q, b.C(w, 0))) {
			panic(goPanic{x.rtErr("integer divide by zero")})
		}
		switch {
		case op == token.QUO && signed:
			return b.Sdiv(p, q)
		case op == token.QUO:
			return b.Udiv(p, q)
		case signed:
			return b.Srem(p, q)
		default:
			return b.Urem(p, q)
		}
	case token.AND:
		return b.BAnd(p, q)
	case token.OR:
		return b.BOr(p, q)
	case token.XOR:
		return b.BXor(p, q)
	case token.AND_NOT:
		return b.BAnd(p, b.BNot(q))
	case token.SHL, token.SHR:
		_, ys, _ := width(yty)
		if ys {
			if x.branch(st, b.Slt(q, b.C(q.W, 0))) {
				panic(goPanic{x.rtErr("negative shift amount")})
			}
		}
		var amt *Term
		big := b.False
		if q.W <= w {
			amt = b.Zext(w, q)
		} else {
			amt = b.Extract(w-1, 0, q)
			big = b.Not(b.Ult(q, b.C(q.W, uint64(w))))
		}
		switch {
		case op == token.SHL:
			return b.Ite(big, b.C(w, 0), b.Shl(p, amt))
		case signed:
			return b.Ite(big, b.ashrC(p, w), b.Ashr(p, amt))
		default:
			return b.Ite(big, b.C(w, 0), b.Lshr(p, amt))
		}
	case token.LSS:
		if signed {
			return b.Slt(p, q)
		}
		return b.Ult(p, q)
	case token.LEQ:
		if signed {
			return b.Sle(p, q)
		}
		return b.Ule(p, q)
	case token.GTR:
		if signed {
			return b.Slt(q, p)
		}
		return b.Ult(q, p)
	case token.GEQ:
		if signed {
			return b.Sle(q, p)
		}
		return b.Ule(q, p)
	}
	unsup("int op %s", op)
	return nil
}

// eq is Go's == on comparable values.
func (x *Exec) eq(st *State, a, b Val) *Term {
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			return x.b.Eq(p, q)
		}
	case Str:
		if q, ok := b.(Str); ok {
			if p.Len() != q.Len() {
				return x.b.False
			}
			if p.b == nil && q.b == nil {
				return x.b.BoolC(p.s == q.s)
			}
			return x.eqTerms(x.strBytes(p), x.strBytes(q))
		}
	case Flt:
		if q, ok := b.(Flt); ok {
			return x.b.BoolC(p == q)
		}
	case Ptr:
		if q, ok := b.(Ptr); ok {
			if p.sym != nil || q.sym != nil {
				unsup("comparison of symbolic pointers")
			}
			return x.b.BoolC(p.obj == q.obj && (p.obj == 0 || pathEq(p.path, q.path)))
		}
	case Slice:
		if q, ok := b.(Slice); ok { // only against nil
			if p.obj == 0 || q.obj == 0 {
				return x.b.BoolC(p.obj == q.obj)
			}
		}
	case MapRef:
		if q, ok := b.(MapRef); ok {
			return x.b.BoolC(p.obj == q.obj)
		}
	case ChanRef:
		if q, ok := b.(ChanRef); ok {
			return x.b.BoolC(p.obj == q.obj)
		}
	case *Closure:
		if q, ok := b.(*Closure); ok {
			return x.b.BoolC(p == nil && q == nil)
		}
	case Iface:
		q, ok := b.(Iface)
		if !ok {
			return x.b.BoolC(false)
		}
		if p.t == nil || q.t == nil {
			return x.b.BoolC(p.t == nil && q.t == nil)
		}
		if !types.Identical(p.t, q.t) {
			return x.b.False
		}
		if !types.Comparable(p.t) {
			panic(goPanic{x.rtErr("comparing uncomparable type")})
		}
		return x.eq(st, p.v, q.v)
	case *Agg:
		if q, ok := b.(*Agg); ok {
			r := x.b.True
			for i := range p.e {
				r = x.b.And(r, x.eq(st, p.e[i], q.e[i]))
			}
			return r
		}
	case *Arr:
		if q, ok := b.(*Arr); ok {
			var cs []*Term
			for i := 0; i < p.n; i++ {
				cs = append(cs, x.eq(st, p.get(i), q.get(i)))
			}
			return x.b.And(cs...)
		}
	case RType:
		if q, ok := b.(RType); ok {
			return x.b.BoolC(types.Identical(p.t, q.t))
		}
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

func (x *Exec) eqTerms(a, c []*Term) *Term {
	if len(a) != len(c) {
		return x.b.False
	}
	cs := make([]*Term, len(a))
	for i := range a {
		cs[i] = x.b.Eq(a[i], c[i])
	}
	return x.b.And(cs...)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	if tw, tsig, ok := width(to); ok && tw > 0 {
		_ = tsig
		switch t := v.(type) {
		case *Term:
			_, fs, _ := width(from)
			if t.W >= tw {
				return x.b.Zext(tw, t)
			}
			if fs {
				return x.b.Sext(tw, t)
			}
			return x.b.Zext(tw, t)
		case Flt:
			if tsig {
				return x.b.C(tw, uint64(int64(t)))
			}
			if t < 0 {
				return x.b.C(tw, uint64(int64(t)))
			}
			return x.b.C(tw, uint64(t))
		case Ptr:
			unsup("pointer to integer conversion")
		}
	}
	tu := to.Underlying()
	fu := from.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Info()&types.IsFloat != 0 {
			switch t := v.(type) {
			case Flt:
				if tb.Kind() == types.Float32 {
					return Flt(float32(t))
				}
				return t
			case *Term:
				_, fs, _ := width(from)
				c := x.concretize(st, t)
				if fs {
					return Flt(float64(sx(c, t.W)))
				}
				return Flt(float64(c))
			}
		}
		if tb.Info()&types.IsString != 0 {
			switch t := v.(type) {
			case Str:
				return t
			case *Term:
				_, fs, _ := width(from)
				switch {
				case t.W > 32:
					// anything above 32 bits is not a code point
					if !x.branch(st, x.b.Eq(x.b.Extract(t.W-1, 32, t), x.b.C(t.W-32, 0))) {
						return Str{s: "\uFFFD"}
					}
					t = x.b.Extract(31, 0, t)
				case t.W < 32 && fs:
					t = x.b.Sext(32, t)
				case t.W < 32:
					t = x.b.Zext(32, t)
				}
				return x.mkStr(x.encodeRune(st, t))
			case Slice:
				el := fu.(*types.Slice).Elem()
				if w, _, _ := width(el); w == 8 {
					return x.mkStr(x.sliceTerms(st, t))
				}
				// []rune
				var out []*Term
				for _, e := range x.sliceVals(st, t) {
					out = append(out, x.encodeRune(st, e.(*Term))...)
				}
				return x.mkStr(out)
			}
		}
		if tb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		switch t := v.(type) {
		case Str:
			if w, _, _ := width(ts.Elem()); w == 8 {
				if t.Len() == 0 {
					return x.newSlice(st, nil)
				}
				return x.byteSlice(st, x.strBytes(t))
			}
			var rs []Val
			bs := x.strBytes(t)
			for len(bs) > 0 {
				r, n := x.decodeRune(st, bs)
				rs = append(rs, r)
				bs = bs[n:]
			}
			return x.newSlice(st, rs)
		case Slice:
			return t
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		if _, ok := v.(Ptr); ok {
			return v
		}
	}
	switch v.(type) {
	case *Agg, *Arr, Iface, *Closure, MapRef, Ptr:
		return v
	}
	unsup("convert %s -> %s (%T)", from, to, v)
	return nil
}

// ---- maps ----

func (x *Exec) mapFind(st *State, m *MapVal, k Val) int {
	for i, e := range m.keys {
		if x.branch(st, x.eq(st, e, k)) {
			return i
		}
	}
	return -1
}

func (x *Exec) hashable(k Val) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		panic(goPanic{x.rtErr("hash of unhashable type")})
	}
}

func (x *Exec) mapSet(st *State, r MapRef, k, v Val) {
	if r.obj == 0 {
		panic(goPanic{x.rtErr("assignment to entry in nil map")})
	}
	x.hashable(k)
	m := x.obj(st, r.obj).(*MapVal)
	i := x.mapFind(st, m, k)
	if i >= 0 {
		vals := append([]Val(nil), m.vals...)
		vals[i] = v
		x.access(st, r.obj, nil, -1, -1, true)
		st.heap.set(r.obj, &MapVal{m.keys, vals})
		return
	}
	x.access(st, r.obj, nil, -1, -1, true)
	st.heap.set(r.obj, &MapVal{append(m.keys[:len(m.keys):len(m.keys)], k), append(m.vals[:len(m.vals):len(m.vals)], v)})
}

func (x *Exec) mapDelete(st *State, r MapRef, k Val) {
	if r.obj == 0 {
		return
	}
	m := x.obj(st, r.obj).(*MapVal)
	i := x.mapFind(st, m, k)
	if i < 0 {
		return
	}
	nk := append(append([]Val(nil), m.keys[:i]...), m.keys[i+1:]...)
	nv := append(append([]Val(nil), m.vals[:i]...), m.vals[i+1:]...)
	x.access(st, r.obj, nil, -1, -1, true)
	st.heap.set(r.obj, &MapVal{nk, nv})
}

func (x *Exec) lookup(st *State, f *Frame, i *ssa.Lookup) Val {
	c := x.get(f, i.X)
	if s, ok := c.(Str); ok {
		return x.strIndex(st, s, x.idxTerm(x.term(f, i.Index), i.Index.Type()))
	}
	r := c.(MapRef)
	mt := i.X.Type().Underlying().(*types.Map)
	z := x.zero(mt.Elem())
	k := x.get(f, i.Index)
	var m *MapVal
	if r.obj != 0 {
		m = x.obj(st, r.obj).(*MapVal)
	} else {
		m = &MapVal{}
	}
	// symbolic scalar key: build a selection when values merge, else fork
	if kt, ok := k.(*Term); ok && !kt.IsConst() {
		res := z
		found := x.b.False
		okm := true
		for j := len(m.keys) - 1; j >= 0 && okm; j-- {
			e := x.eq(st, m.keys[j], k)
			res, okm = x.iteVal(e, m.vals[j], res)
			found = x.b.Or(found, e)
		}
		if okm {
			if i.CommaOk {
				return &Agg{[]Val{res, found}}
			}
			return res
		}
	}
	x.hashable(k)
	j := x.mapFind(st, m, k)
	res := z
	if j >= 0 {
		res = m.vals[j]
	}
	if i.CommaOk {
		return &Agg{[]Val{res, x.b.BoolC(j >= 0)}}
	}
	return res
}

// mapOrder chooses the order of one iteration over a map with n entries (nil: insertion order).
func (x *Exec) mapOrder(st *State, n int) []int {
	if !x.cfg.MapOrder || n < 2 || x.concrete != nil {
		return nil
	}
	alts := 2 // forward or reversed
	if n <= 4 {
		alts = []int{0, 0, 2, 6, 24}[n]
	}
	k := 0
	if t, ok := st.tags["$maporder"]; ok {
		k = int(t.(*Term).C)
	}
	if k >= 8 {
		return nil
	}
	t := x.input(fmt.Sprintf("$maporder%d", k), "choose", 64, 1)[0]
	if _, ok := st.conc[t]; !ok {
		fr := forkReq{key: t}
		for a := 0; a < alts; a++ {
			fr.conds = append(fr.conds, x.b.Eq(t, x.b.C(64, uint64(a))))
			fr.vals = append(fr.vals, uint64(a))
			m := newModel()
			if st.model != nil {
				for a, b := range st.model.vars {
					m.vars[a] = b
				}
				for a, b := range st.model.uf {
					m.uf[a] = b
				}
			}
			m.vars[t.Name] = uint64(a)
			fr.models = append(fr.models, m)
		}
		panic(fr)
	}
	c := int(st.conc[t])
	st.tags["$maporder"] = x.b.C(64, uint64(k+1))
	var idx []int
	for i := 0; i < n; i++ {
		idx = append(idx, i)
	}
	if n > 4 {
		if c == 1 {
			for i := range idx {
				idx[i] = n - 1 - i
			}
		}
		return idx
	}
	var out []int
	for m := n; m > 0; m-- {
		q := c % m
		c /= m
		out = append(out, idx[q])
		idx = append(append([]int{}, idx[:q]...), idx[q+1:]...)
	}
	return out
}

func (x *Exec) next(st *State, f *Frame, i *ssa.Next) Val {
	r := x.get(f, i.Iter).(IterRef)
	it := x.obj(st, r.obj).(*Agg).e[0].(IterVal)
	if i.IsString {
		if it.pos >= it.s.Len() {
			return &Agg{[]Val{x.b.False, x.b.C(64, 0), x.b.C(32, 0)}}
		}
		var bs []*Term
		if it.s.b != nil {
			bs = it.s.b[it.pos:]
		} else {
			end := it.pos + 4
			if end > len(it.s.s) {
				end = len(it.s.s)
			}
			bs = x.strBytes(Str{s: it.s.s[it.pos:end]})
		}
		rn, n := x.decodeRune(st, bs)
		p := it.pos
		it.pos += n
		st.heap.set(r.obj, &Agg{[]Val{it}})
		return &Agg{[]Val{x.b.True, x.b.C(64, uint64(p)), rn}}
	}
	tt := i.Type().(*types.Tuple)
	kz, vz := Val(&Agg{}), Val(&Agg{})
	if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		kz = x.zero(tt.At(1).Type())
	}
	if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		vz = x.zero(tt.At(2).Type())
	}
	for it.pos < len(it.keys) {
		k := it.keys[it.pos]
		it.pos++
		m := x.obj(st, it.m).(*MapVal)
		j := -1
		for q, e := range m.keys {
			if sameVal(e, k) {
				j = q
			}
		}
		if j < 0 {
			continue
		}
		st.heap.set(r.obj, &Agg{[]Val{it}})
		return &Agg{[]Val{x.b.True, k, m.vals[j]}}
	}
	st.heap.set(r.obj, &Agg{[]Val{it}})
	return &Agg{[]Val{x.b.False, kz, vz}}
}

func (x *Exec) decodeRune(st *State, b []*Term) (*Term, int) {
	t := x.b
	in := func(i int, lo, hi uint64) *Term {
		if i >= len(b) {
			return t.False
		}
		return t.And(t.Ule(t.C(8, lo), b[i]), t.Ule(b[i], t.C(8, hi)))
	}
	if x.branch(st, t.Ult(b[0], t.C(8, 0x80))) {
		return t.Zext(32, b[0]), 1
	}
	if x.branch(st, t.And(in(0, 0xC2, 0xDF), in(1, 0x80, 0xBF))) {
		return t.Zext(32, t.Concat(t.Extract(4, 0, b[0]), t.Extract(5, 0, b[1]))), 2
	}
	if x.branch(st, t.And(in(2, 0x80, 0xBF), t.Or(
		t.And(in(0, 0xE0, 0xE0), in(1, 0xA0, 0xBF)),
		t.And(t.Or(in(0, 0xE1, 0xEC), in(0, 0xEE, 0xEF)), in(1, 0x80, 0xBF)),
		t.And(in(0, 0xED, 0xED), in(1, 0x80, 0x9F))))) {
		return t.Zext(32, t.Concat(t.Extract(3, 0, b[0]), t.Extract(5, 0, b[1]), t.Extract(5, 0, b[2]))), 3
	}
	if x.branch(st, t.And(in(2, 0x80, 0xBF), in(3, 0x80, 0xBF), t.Or(
		t.And(in(0, 0xF0, 0xF0), in(1, 0x90, 0xBF)),
		t.And(in(0, 0xF1, 0xF3), in(1, 0x80, 0xBF)),
		t.And(in(0, 0xF4, 0xF4), in(1, 0x80, 0x8F))))) {
		return t.Zext(32, t.Concat(t.Extract(2, 0, b[0]), t.Extract(5, 0, b[1]), t.Extract(5, 0, b[2]), t.Extract(5, 0, b[3]))), 4
	}
	return t.C(32, 0xFFFD), 1
}

// encodeRune is string(rune(r)) for a 32-bit r: one path per length.
func (x *Exec) encodeRune(st *State, r *Term) []*Term {
	t := x.b
	cont := func(lo int) *Term { return t.Concat(t.C(2, 2), t.Extract(lo+5, lo, r)) }
	lt := func(n uint64) bool { return x.branch(st, t.Ult(r, t.C(32, n))) }
	switch {
	case lt(0x80):
		return []*Term{t.Extract(7, 0, r)}
	case lt(0x800):
		return []*Term{t.Concat(t.C(3, 6), t.Extract(10, 6, r)), cont(0)}
	case !lt(0x110000) || x.branch(st, t.Eq(t.Extract(31, 11, r), t.C(21, 0xD800>>11))):
		return x.strBytes(Str{s: "\uFFFD"})
	case lt(0x10000):
		return []*Term{t.Concat(t.C(4, 14), t.Extract(15, 12, r)), cont(6), cont(0)}
	}
	return []*Term{t.Concat(t.C(5, 30), t.Extract(20, 18, r)), cont(12), cont(6), cont(0)}
}

func (x *Exec) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) Val {
	v, isI := x.get(f, i.X).(Iface)
	if !isI {
		unsup("type assert on %T", x.get(f, i.X))
	}
	ok := false
	var res Val
	if v.t != nil {
		if it, isIface := i.AssertedType.Underlying().(*types.Interface); isIface {
			if _, isRT := v.v.(RType); isRT {
				ok = true
			} else {
				ok = types.Implements(v.t, it)
			}
			res = v
		} else {
			ok = types.Identical(v.t, i.AssertedType)
			res = v.v
		}
	}
	if !ok {
		if !i.CommaOk {
			panic(goPanic{x.rtErr("interface conversion: type assertion failed")})
		}
		return &Agg{[]Val{x.zero(i.AssertedType), x.b.False}}
	}
	if i.CommaOk {
		return &Agg{[]Val{res, x.b.True}}
	}
	return res
}

// ---- builtins ----

func (x *Exec) builtin(st *State, f *Frame, bi *ssa.Builtin, c *ssa.CallCommon) Val {
	b := x.b
	arg := func(i int) Val { return x.get(f, c.Args[i]) }
	switch bi.Name() {
	case "len":
		switch a := arg(0).(type) {
		case Str:
			return b.C(64, uint64(a.Len()))
		case Slice:
			return b.C(64, uint64(a.len))
		case MapRef:
			if a.obj == 0 {
				return b.C(64, 0)
			}
			return b.C(64, uint64(len(x.obj(st, a.obj).(*MapVal).keys)))
		case *Arr:
			return b.C(64, uint64(a.n))
		case Ptr:
			return b.C(64, uint64(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case ChanRef:
			return b.C(64, 0)
		}
	case "cap":
		switch a := arg(0).(type) {
		case Slice:
			return b.C(64, uint64(a.cap))
		case *Arr:
			return b.C(64, uint64(a.n))
		case Ptr:
			return b.C(64, uint64(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "append":
		s, ok := arg(0).(Slice)
		if !ok {
			unsup("append to %T", arg(0))
		}
		var vs []Val
		switch a := arg(1).(type) {
		case Slice:
			vs = x.sliceVals(st, a)
		case Str:
			for _, t := range x.strBytes(a) {
				vs = append(vs, t)
			}
		}
		return x.appendVals(st, s, vs, c.Args[0].Type().Underlying().(*types.Slice).Elem())
	case "copy":
		d := arg(0).(Slice)
		var vs []Val
		switch a := arg(1).(type) {
		case Slice:
			vs = x.sliceVals(st, a)
		case Str:
			for _, t := range x.strBytes(a) {
				vs = append(vs, t)
			}
		}
		if len(vs) > d.len {
			vs = vs[:d.len]
		}
		x.setSlice(st, d, 0, vs)
		return b.C(64, uint64(len(vs)))
	case "delete":
		x.mapDelete(st, arg(0).(MapRef), arg(1))
		return nil
	case "panic":
		panic(goPanic{arg(0)})
	case "recover":
		// valid when the frame below is unwinding and we are its deferred call
		n := len(st.frames)
		if n >= 2 && st.frames[n-1].isDefer {
			p := st.frames[n-2].pan
			if p != nil && !p.recovered {
				p.recovered = true
				if iv, ok := p.v.(Iface); ok {
					return iv
				}
				return Iface{t: types.Typ[types.String], v: Str{s: "panic"}}
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := arg(0)
		for i := 1; i < len(c.Args); i++ {
			o := arg(i)
			var lt *Term
			if bi.Name() == "min" {
				lt = x.binop(st, token.LSS, c.Args[0].Type(), o, r, c.Args[0].Type()).(*Term)
			} else {
				lt = x.binop(st, token.GTR, c.Args[0].Type(), o, r, c.Args[0].Type()).(*Term)
			}
			if rt, ok := r.(*Term); ok {
				r = b.Ite(lt, o.(*Term), rt)
			} else if x.branch(st, lt) {
				r = o
			}
		}
		return r
	case "clear":
		switch a := arg(0).(type) {
		case MapRef:
			if a.obj != 0 {
				x.access(st, a.obj, nil, -1, -1, true)
				st.heap.set(a.obj, &MapVal{})
			}
			return nil
		case Slice:
			z := x.zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			vs := make([]Val, a.len)
			for i := range vs {
				vs[i] = z
			}
			x.setSlice(st, a, 0, vs)
			return nil
		}
	case "ssa:wrapnilchk":
		p := arg(0).(Ptr)
		if p.isNil() {
			x.nilDeref()
		}
		return p
	case "String": // unsafe.String
		p := arg(0).(Ptr)
		n := x.intVal(st, arg(1).(*Term))
		return x.mkStr(x.ptrRun(st, p, n))
	case "StringData":
		s := arg(0).(Str)
		if s.Len() == 0 {
			return Ptr{}
		}
		sl := x.byteSlice(st, x.strBytes(s))
		return Ptr{obj: sl.obj, path: []int{0}}
	case "SliceData":
		s := arg(0).(Slice)
		if s.obj == 0 {
			return Ptr{}
		}
		return Ptr{obj: s.obj, path: s.path}.sub(s.off)
	case "Slice": // unsafe.Slice
		p := arg(0).(Ptr)
		n := x.intVal(st, arg(1).(*Term))
		if p.isNil() {
			return Slice{}
		}
		k := len(p.path)
		return Slice{obj: p.obj, path: p.path[:k-1], off: p.path[k-1], len: n, cap: n}
	}
	unsup("builtin %s", bi.Name())
	return nil
}

func (x *Exec) ptrRun(st *State, p Ptr, n int) []*Term {
	if n == 0 {
		return nil
	}
	k := len(p.path)
	if k == 0 {
		unsup("unsafe.String of non-element pointer")
	}
	return x.sliceTerms(st, Slice{obj: p.obj, path: p.path[:k-1], off: p.path[k-1], len: n, cap: n})
}

// ---- merging ----

type merger struct {
	x    *Exec
	a, b *State
	g    *Term
	am   map[int]int // object of a -> object of b (fresh on both sides)
	bm   map[int]int
	todo [][2]int
	out  map[int]Val
}

func (x *Exec) tryMerge(a, b *State) *State {
	if len(a.frames) != len(b.frames) || a.fresh || b.fresh {
		return nil
	}
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		if fa.fi != fb.fi || fa.b != fb.b || fa.ip != fb.ip || fa.isDefer != fb.isDefer || (fa.pan == nil) != (fb.pan == nil) || len(fa.defers) != len(fb.defers) {
			return nil
		}
		if (fa.cont == nil) != (fb.cont == nil) || fa.cont != nil {
			return nil
		}
		if fa.pan != nil {
			return nil
		}
		for j := range fa.defers {
			if fa.defers[j] != fb.defers[j] {
				return nil
			}
		}
	}
	if len(a.tags) != len(b.tags) {
		return nil
	}
	// guards
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	ra, rb := a.pc[k:], b.pc[k:]
	inB := map[*Term]bool{}
	for _, t := range rb {
		inB[t] = true
	}
	var common, da, db []*Term
	for _, t := range ra {
		if inB[t] {
			common = append(common, t)
			delete(inB, t)
		} else {
			da = append(da, t)
		}
	}
	for _, t := range rb {
		if inB[t] {
			db = append(db, t)
		}
	}
	if len(da) == 0 || len(db) == 0 {
		// one path condition implies the other: they would overlap
		if len(da) == 0 && len(db) == 0 {
			return nil
		}
	}
	var g *Term
	dbs := map[*Term]bool{}
	for _, t := range db {
		dbs[t] = true
	}
	for _, t := range da {
		if dbs[x.b.Not(t)] {
			g = t
			break
		}
	}
	ca, cb := x.b.And(da...), x.b.And(db...)
	if g == nil {
		g = ca
	}
	mg := &merger{x: x, a: a, b: b, g: g, am: map[int]int{}, bm: map[int]int{}, out: map[int]Val{}}
	type rv struct {
		f, r int
		v    Val
	}
	var regs []rv
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		ip := fa.ip
		top := i == len(a.frames)-1
		if !top {
			ip++
		}
		live := fa.fi.liveRegs(fa.b, ip)
		var skip = -1
		if !top {
			if v, ok := fa.b.Instrs[fa.ip].(ssa.Value); ok {
				skip = fa.fi.reg[v]
			}
		}
		lr := live
		if fa.fi.fn.Recover != nil {
			lr = append([]int(nil), live...)
			for r, l := range fa.fi.livein[fa.fi.fn.Recover.Index] {
				if l {
					lr = append(lr, r)
				}
			}
		}
		for _, r := range lr {
			if r == skip {
				continue
			}
			va, vb := fa.env[r], fb.env[r]
			if va == nil && vb == nil {
				continue
			}
			v, ok := mg.merge(va, vb)
			if !ok {
				return nil
			}
			regs = append(regs, rv{i, r, v})
		}
	}
	tags := map[string]Val{}
	for key, va := range a.tags {
		vb, ok := b.tags[key]
		if !ok {
			return nil
		}
		if strings.HasPrefix(key, "$choice") && va != vb {
			return nil
		}
		v, ok := mg.merge(va, vb)
		if !ok {
			return nil
		}
		tags[key] = v
	}
	// objects present in both whose contents differ
	type d struct {
		id   int
		p, q Val
	}
	var ds []d
	heapDiff(a.heap, b.heap, func(id int, p, q Val) { ds = append(ds, d{id, p, q}) })
	for _, e := range ds {
		p, q := e.p, e.q
		if p == nil {
			if bv, ok := x.base[e.id]; ok {
				p = bv
			}
		}
		if q == nil {
			if bv, ok := x.base[e.id]; ok {
				q = bv
			}
		}
		if p == nil || q == nil {
			continue // allocated on one side only
		}
		v, ok := mg.merge(p, q)
		if !ok {
			return nil
		}
		mg.out[e.id] = v
	}
	for len(mg.todo) > 0 {
		t := mg.todo[len(mg.todo)-1]
		mg.todo = mg.todo[:len(mg.todo)-1]
		p, _ := a.heap.get(t[0])
		q, _ := b.heap.get(t[1])
		if p == nil || q == nil {
			return nil
		}
		v, ok := mg.merge(p, q)
		if !ok {
			return nil
		}
		mg.out[t[0]] = v
	}
	// commit into a; bring over b-only objects
	for _, e := range ds {
		if e.p == nil && e.q != nil {
			if _, mapped := mg.bm[e.id]; !mapped {
				if _, isBase := x.base[e.id]; !isBase {
					a.heap.set(e.id, e.q)
				}
			}
		}
	}
	ids := make([]int, 0, len(mg.out))
	for id := range mg.out {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		a.heap.set(id, mg.out[id])
	}
	for i := range a.frames {
		f := a.frames[i]
		env := make([]Val, len(f.env))
		f.env = env
	}
	for _, r := range regs {
		a.frames[r.f].env[r.r] = r.v
	}
	a.tags = tags
	pc := append([]*Term(nil), a.pc[:k]...)
	pc = append(pc, common...)
	a.pc = pc
	a.assume(x.b.Or(ca, cb))
	for key, v := range a.conc {
		if w, ok := b.conc[key]; !ok || v != w {
			delete(a.conc, key)
		}
	}
	if a.model == nil {
		a.model = b.model
	}
	if b.steps > a.steps {
		a.steps = b.steps
	}
	return a
}

func (m *merger) objEq(p, q int) bool {
	if p == q {
		return true
	}
	if p == 0 || q == 0 {
		return false
	}
	if w, ok := m.am[p]; ok {
		return w == q
	}
	if _, ok := m.bm[q]; ok {
		return false
	}
	// both must be fresh on their own side
	if _, ok := m.b.heap.get(p); ok {
		return false
	}
	if _, ok := m.a.heap.get(q); ok {
		return false
	}
	if _, ok := m.x.base[p]; ok {
		return false
	}
	if _, ok := m.x.base[q]; ok {
		return false
	}
	m.am[p] = q
	m.bm[q] = p
	m.todo = append(m.todo, [2]int{p, q})
	return true
}

func (m *merger) merge(a, b Val) (Val, bool) {
	if a == nil || b == nil {
		return nil, false
	}
	if sameVal(a, b) {
		return a, true
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok || p.W != q.W {
			return nil, false
		}
		return m.x.b.Ite(m.g, p, q), true
	case Str:
		return m.x.iteVal(m.g, a, b)
	case *Agg:
		q, ok := b.(*Agg)
		if !ok || len(p.e) != len(q.e) {
			return nil, false
		}
		e := make([]Val, len(p.e))
		for i := range e {
			if e[i], ok = m.merge(p.e[i], q.e[i]); !ok {
				return nil, false
			}
		}
		return &Agg{e}, true
	case *Arr:
		q, ok := b.(*Arr)
		if !ok || p.n != q.n {
			return nil, false
		}
		out := &Arr{n: p.n, ch: make([][]Val, len(p.ch))}
		for c := range p.ch {
			if &p.ch[c][0] == &q.ch[c][0] {
				out.ch[c] = p.ch[c]
				continue
			}
			e := make([]Val, len(p.ch[c]))
			for i := range e {
				if e[i], ok = m.merge(p.ch[c][i], q.ch[c][i]); !ok {
					return nil, false
				}
			}
			out.ch[c] = e
		}
		return out, true
	case Ptr:
		q, ok := b.(Ptr)
		if !ok || p.sym != nil || q.sym != nil || !pathEq(p.path, q.path) || !m.objEq(p.obj, q.obj) {
			return nil, false
		}
		return p, true
	case Slice:
		q, ok := b.(Slice)
		if !ok || p.len != q.len || p.off != q.off || p.cap != q.cap || !pathEq(p.path, q.path) || !m.objEq(p.obj, q.obj) {
			return nil, false
		}
		return p, true
	case Iface:
		q, ok := b.(Iface)
		if !ok || p.t == nil || q.t == nil || !types.Identical(p.t, q.t) {
			return nil, false
		}
		v, ok := m.merge(p.v, q.v)
		if !ok {
			return nil, false
		}
		return Iface{p.t, v}, true
	case *Closure:
		q, ok := b.(*Closure)
		if !ok || p == nil || q == nil || p.fn != q.fn || p.fn == nil || len(p.binds) != len(q.binds) {
			return nil, false
		}
		c := &Closure{fn: p.fn}
		for i := range p.binds {
			v, ok := m.merge(p.binds[i], q.binds[i])
			if !ok {
				return nil, false
			}
			c.binds = append(c.binds, v)
		}
		return c, true
	case MapRef:
		q, ok := b.(MapRef)
		if !ok || !m.objEq(p.obj, q.obj) {
			return nil, false
		}
		return p, true
	case *MapVal:
		q, ok := b.(*MapVal)
		if !ok || len(p.keys) != len(q.keys) {
			return nil, false
		}
		n := &MapVal{keys: p.keys}
		for i := range p.keys {
			if !sameVal(p.keys[i], q.keys[i]) {
				return nil, false
			}
			v, ok := m.merge(p.vals[i], q.vals[i])
			if !ok {
				return nil, false
			}
			n.vals = append(n.vals, v)
		}
		return n, true
	case IterRef:
		q, ok := b.(IterRef)
		if !ok || !m.objEq(p.obj, q.obj) {
			return nil, false
		}
		return p, true
	case IterVal:
		q, ok := b.(IterVal)
		if !ok || p.pos != q.pos || p.m != q.m || len(p.keys) != len(q.keys) || !sameVal(p.s, q.s) {
			return nil, false
		}
		for i := range p.keys {
			if !sameVal(p.keys[i], q.keys[i]) {
				return nil, false
			}
		}
		return p, true
	case RType:
		q, ok := b.(RType)
		if ok && types.Identical(p.t, q.t) {
			return p, true
		}
		return nil, false
	case RVal:
		q, ok := b.(RVal)
		if !ok || !p.same(q) {
			return nil, false
		}
		if p.t == nil {
			return p, true
		}
		if p.addr != nil {
			if q.addr == nil {
				return nil, false
			}
			ad, ok := m.merge(*p.addr, *q.addr)
			if !ok {
				return nil, false
			}
			pp := ad.(Ptr)
			p.addr = &pp
			return p, true
		}
		v, ok := m.merge(p.v, q.v)
		if !ok {
			return nil, false
		}
		p.v = v
		return p, true
	}
	return nil, false
}
