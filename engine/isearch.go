package main

// Turning an integer assertion that was not proved into a concrete counterexample: the
// compiled harness is run on boundary and random inputs, and with all but one operand
// fixed the problem is linear and the solver is asked for an exact counterexample. Either
// way the input counts only once the compiled code fails on it.

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
)

func (r *Runner) searchInt(res *JobResult) {
	x := res.X
	var open []*IntObl
	for _, o := range x.intObls {
		if o.res != Unsat {
			open = append(open, o)
		}
	}
	if !res.Job.Arith || res.Err != "" || len(res.Viol) > 0 || len(open)+len(x.lost)+len(x.unsupMsg)+len(res.Unrepro) == 0 {
		return
	}
	x.intB()
	bin, err := r.native(res.Job.Dir)
	if err != nil {
		res.Err = err.Error()
		return
	}
	accept := func(in map[string][]uint64, how string) bool {
		n := r.runNative(bin, res.Job.Fn, in)
		if n.kind != "assert" && n.kind != "panic" {
			return false
		}
		res.Viol = append(res.Viol, &Confirmed{Msg: firstLine(n.out) + " (" + how + ")", Inputs: in, Native: n.out, Where: res.Job.Fn})
		return true
	}
	count := 40000
	if r.tier == "thorough" {
		count = 400000
	}
	if res.intCex != nil && accept(res.intCex, "found on the compiled code after the proof failed") {
		return
	}
	if in := r.nativeSearch(x, bin, res.Job.Fn, open, count); in != nil && accept(in, "found on the compiled code after the proof failed") {
		return
	}
	if len(open) == 0 || x.ib.free {
		return
	}
	// exact linear counterexamples
	groups := map[string][]*InputDesc{}
	var names []string
	for _, d := range x.inputs {
		g := strings.TrimRight(d.Name, "0123456789")
		if d.Kind == "bytes" {
			g = d.Name
		}
		if groups[g] == nil {
			names = append(names, g)
		}
		groups[g] = append(groups[g], d)
	}
	sort.Strings(names)
	rng := rand.New(rand.NewSource(r.seed + 7))
	until := time.Now().Add(60 * time.Second)
	for round := 0; round < 4 && time.Now().Before(until); round++ {
		for _, g := range names {
			if time.Now().After(until) {
				return
			}
			pin := map[string][]uint64{}
			for _, h := range names {
				if h == g {
					continue
				}
				for _, d := range groups[h] {
					w := make([]uint64, len(d.Terms))
					for i := range w {
						switch {
						case d.Kind == "i32":
							if b, ok := x.ib.bound[d.Name]; ok {
								lo, hi := b[0].Int64(), b[1].Int64()
								v := hi
								switch round {
								case 1:
									v = lo
								case 2, 3:
									v = lo + rng.Int63n(hi-lo+1)
								}
								w[i] = uint64(uint32(v))
							}
						case round == 0:
							w[i] = 0
							if i == 0 {
								w[i] = 1
							}
						case round == 1:
							w[i] = 0xff
						default:
							w[i] = uint64(rng.Intn(256))
						}
					}
					pin[d.Name] = w
				}
			}
			if in := r.linearCex(res, pin, until); in != nil && accept(in, "solver counterexample") {
				return
			}
			if len(names) == 1 {
				return
			}
		}
	}
}

func (r *Runner) quickSearch(res *JobResult, open []*IntObl) map[string][]uint64 {
	if !res.Job.Arith {
		return nil
	}
	res.X.intB()
	bin, err := r.native(res.Job.Dir)
	if err != nil {
		return nil
	}
	return r.nativeSearch(res.X, bin, res.Job.Fn, open, 20000)
}

func (r *Runner) nativeSearch(x *Exec, bin, fn string, open []*IntObl, count int) map[string][]uint64 {
	type inSpec struct {
		Name   string
		Kind   string
		N      int
		Lo, Hi int64
	}
	spec := struct {
		Seed   int64    `json:"seed"`
		Count  int      `json:"count"`
		Consts []string `json:"consts"`
		Inputs []inSpec `json:"inputs"`
	}{Seed: r.seed, Count: count}
	for _, o := range open {
		if o.m != nil {
			spec.Consts = append(spec.Consts, o.m.String())
		}
		for _, n := range []*inode{o.x, o.y} {
			if n.op == iConst {
				spec.Consts = append(spec.Consts, n.c.String())
			}
		}
	}
	for _, d := range x.inputs {
		s := inSpec{Name: d.Name, Kind: d.Kind, N: len(d.Terms)}
		if b, ok := x.ib.bound[d.Name]; ok {
			s.Lo, s.Hi = b[0].Int64(), b[1].Int64()
		}
		spec.Inputs = append(spec.Inputs, s)
	}
	f, _ := os.CreateTemp(r.work, "search-*.json")
	b, _ := json.Marshal(spec)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(rootCtx, 60*time.Second)
	defer cancel()
	cmd := nativeCmd(ctx, bin, fn)
	cmd.Dir = r.work
	cmd.Env = append(os.Environ(), "VSEARCH="+f.Name(), "TMPDIR="+r.work)
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "FOUND ") {
			var in map[string][]uint64
			if json.Unmarshal([]byte(l[6:]), &in) == nil {
				return in
			}
		}
	}
	return nil
}

// linearCex runs the harness symbolically with some inputs fixed and asks the solver for
// values of the others that break an assertion, with every floor division exact.
func (r *Runner) linearCex(res *JobResult, pin map[string][]uint64, until time.Time) map[string][]uint64 {
	p := r.progs[res.Job.Dir]
	x := NewExec(p, res.X.cfg)
	x.b.arith = true
	x.pin = pin
	x.deadline = time.Now().Add(20 * time.Second)
	fn := p.lookup(virtPkg + "/" + res.Job.Dir + "." + res.Job.Fn)
	bad := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				bad = true
			}
		}()
		x.Run(fn)
	}()
	if x.sol != nil {
		x.sol.Close()
	}
	if bad {
		return nil
	}
	for _, v := range x.vio {
		if v.Model != nil {
			return x.inputsOf(v.Model)
		}
	}
	type cand struct{ in map[string][]uint64 }
	for _, o := range x.intObls {
		if time.Now().After(until) {
			return nil
		}
		var m map[string]*big.Int
		var e *liaEnc
		func() {
			defer func() {
				if q := recover(); q != nil {
					m = nil
				}
			}()
			ib := x.ib
			d := newPoly()
			d.addPoly(ib.Poly(o.x), bi1)
			d.addPoly(ib.Poly(o.y), big.NewInt(-1))
			for k := range d.m {
				if len(k) > 4 {
					return // still not linear
				}
			}
			e = newLia(ib)
			g := e.expr(d)
			var goal string
			switch o.kind {
			case "cong":
				e.decl.WriteString("(declare-const kk Int)\n(declare-const rr Int)\n")
				goal = fmt.Sprintf("(and (= %s (+ (* %s kk) rr)) (< 0 rr) (< rr %s))", g, o.m.String(), o.m.String())
			case "le":
				goal = fmt.Sprintf("(> %s 0)", g)
			default:
				goal = fmt.Sprintf("(>= %s 0)", g)
			}
			for len(e.todo) > 0 && e.size < 100000 {
				t := e.todo
				e.todo = nil
				for _, a := range t {
					e.define(a)
				}
			}
			for _, n := range layers([]*inode{o.x, o.y}, 8) {
				if e.size > 100000 {
					break
				}
				e.row(n)
			}
			for len(e.todo) > 0 && e.size < 100000 {
				t := e.todo
				e.todo = nil
				for _, a := range t {
					e.define(a)
				}
			}
			_, m, _ = e.solve(res.X.stats, goal, 10*time.Second, true)
		}()
		if m == nil {
			continue
		}
		in := map[string][]uint64{}
		for k, v := range pin {
			in[k] = v
		}
		for _, d := range x.inputs {
			if _, ok := in[d.Name]; ok {
				continue
			}
			w := make([]uint64, len(d.Terms))
			key := "v" + d.Name
			if d.Kind == "bytes" {
				key = "N" + d.Name
			}
			if a, ok := x.ib.atomBy[key]; ok {
				if v := m[monoOf(a)]; v != nil {
					if d.Kind == "bytes" {
						bs := v.Bytes()
						for i := range bs {
							if i < len(w) {
								w[i] = uint64(bs[len(bs)-1-i])
							}
						}
					} else if len(w) > 0 {
						w[0] = uint64(uint32(v.Int64()))
					}
				}
			}
			in[d.Name] = w
		}
		return in
	}
	return nil
}
