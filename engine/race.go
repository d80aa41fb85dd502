package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races: v.Both(f, g) stands for f and g running in two goroutines. The engine runs f and
// then g and compares their accesses to memory: an access of g conflicts with one of f to the
// same place (one of them writing) unless a synchronisation of g that follows one of f orders
// it. Program order of g and release/acquire pairs give the order, as in the memory model.

type raceAcc struct {
	path   []int
	lo, hi int // range of the next index, lo < 0: everything below path
	w      bool
	t      int
	where  string
}

type raceLog struct {
	phase   int
	now     int // number of releases of f so far
	horizon int // accesses of f before it happened before what g does now
	accs    map[int]map[string]raceAcc
	rel     map[string]int
	seq     []int
}

func (r *raceLog) clone() *raceLog {
	if r == nil {
		return nil
	}
	n := *r
	n.accs = make(map[int]map[string]raceAcc, len(r.accs))
	for k, m := range r.accs {
		if r.phase == 1 {
			c := make(map[string]raceAcc, len(m))
			for q, a := range m {
				c[q] = a
			}
			m = c
		}
		n.accs[k] = m
	}
	n.rel = make(map[string]int, len(r.rel))
	for k, v := range r.rel {
		n.rel[k] = v
	}
	return &n
}

func (a raceAcc) overlaps(b raceAcc) bool {
	for i := 0; ; i++ {
		if i == len(a.path) || i == len(b.path) {
			if len(a.path) > len(b.path) {
				a, b = b, a
			}
			// a's path is a prefix of b's
			if a.lo < 0 {
				return true
			}
			if len(b.path) > i {
				return b.path[i] < 0 || b.path[i] >= a.lo && b.path[i] < a.hi
			}
			return b.lo < 0 || a.lo < b.hi && b.lo < a.hi
		}
		if a.path[i] != b.path[i] && a.path[i] >= 0 && b.path[i] >= 0 {
			return false
		}
	}
}

// access records an access of f, or compares one of g with those of f.
func (x *Exec) access(st *State, obj int, path []int, lo, hi int, w bool) {
	r := st.race
	if r == nil || r.phase == 0 || x.inInit > 0 || obj == 0 {
		return
	}
	if inHarness(st.top().fi.fn) {
		return // stand-ins do not exist in the compiled code
	}
	a := raceAcc{path, lo, hi, w, r.now, ""}
	if r.phase == 1 {
		m := r.accs[obj]
		if m == nil {
			m = map[string]raceAcc{}
			r.accs[obj] = m
		}
		k := fmt.Sprint(path, lo, hi, w)
		if len(m) > 64 {
			a.path, a.lo, k = nil, -1, fmt.Sprint(w)
		}
		if o, ok := m[k]; !ok || o.t != r.now {
			a.where = x.where(st)
			m[k] = a
		}
		return
	}
	for _, o := range r.accs[obj] {
		if o.t < r.horizon || !o.w && !w || !o.overlaps(a) {
			continue
		}
		where := x.where(st) + " and " + o.where
		seen, _ := x.scratch["race"].(map[string]bool)
		if seen == nil {
			seen = map[string]bool{}
			x.scratch["race"] = seen
		}
		if seen[where] || len(seen) > 12 {
			continue
		}
		seen[where] = true
		x.addViolation(st, "race", "two goroutines access the same memory without synchronization", where, x.b.True)
	}
}

func syncKey(p Ptr, kind string) string { return fmt.Sprint(p.obj, p.path, kind) }

// release: what f did so far happens before whatever g does after an acquire of the same object.
func (st *State) release(p Ptr, kind string) {
	if r := st.race; r != nil && r.phase == 1 {
		r.rel[syncKey(p, kind)] = r.now
		r.now++
	}
}

func (st *State) acquire(p Ptr, kind string) {
	if r := st.race; r != nil && r.phase == 2 {
		if t, ok := r.rel[syncKey(p, kind)]; ok && t+1 > r.horizon {
			r.horizon = t + 1
		}
	}
}

// quiet runs an operation of a synchronisation primitive, whose own accesses do not race.
func (x *Exec) quiet(st *State, f func()) {
	r := st.race
	st.race = nil
	defer func() { st.race = r }()
	f()
}

func init() {
	intrinsics[vp+"Both"] = func(x *Exec, st *State, a []Val, fn *ssa.Function) (Val, bool) {
		st.race = &raceLog{phase: 1, accs: map[int]map[string]raceAcc{}, rel: map[string]int{}}
		call := func(c Val, done func(x *Exec, st *State, ret Val) (Val, bool)) (Val, bool) {
			v, pushed := x.callClosure(st, c.(*Closure), nil)
			if !pushed {
				return done(x, st, v)
			}
			st.top().cont = done
			return nil, true
		}
		g := a[1].(*Closure)
		return call(a[0], func(x *Exec, st *State, ret Val) (Val, bool) {
			st.race.phase = 2
			_, pushed := x.callClosure(st, g, nil)
			end := func(x *Exec, st *State, ret Val) (Val, bool) {
				st.race = nil
				x.trivial++ // no conflict on this path, or a violation was added
				return nil, false
			}
			if !pushed {
				return end(x, st, nil)
			}
			st.top().cont = end
			return nil, true
		})
	}
}

func pkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

func inHarness(fn *ssa.Function) bool { return strings.HasPrefix(pkgPath(fn), virtPkg) }

func inRepo(fn *ssa.Function) bool {
	return strings.HasPrefix(pkgPath(fn), modPath) && !inHarness(fn)
}
