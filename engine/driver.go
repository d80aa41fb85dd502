package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is one harness run.
type Job struct {
	Dir       string // harness package below /verif/harness
	Fn        string // H_* function
	Subst     map[string]string
	Time      time.Duration // symbolic execution budget
	Solve     time.Duration // per-obligation portfolio budget
	Tier      string        // "" both, "thorough" only
	Unwind    int
	NoMerge   bool
	Arith     bool // integer assertions: keep word-level arithmetic
	NoVal     bool // skip concrete validation
	MapRepeat int  // native replays are repeated this often (map iteration order)
}

type JobResult struct {
	Job        Job
	X          *Exec
	Err        string
	Wall       float64
	Obls       int
	Discharged int
	Undecided  []string
	Viol       []*Confirmed
	Unrepro    []string
	Validated  int
	LostRuns   int
	Mismatch   []string
	Reached    []string
	NotReached []string
	intCex     map[string][]uint64
}

type Confirmed struct {
	Msg    string
	Inputs map[string][]uint64
	Native string
	Where  string
	Path   string
	Known  string
}

var defaultSubst = map[string]string{
	"crypto/hmac.New":                    vp + "HmacNew",
	"crypto/sha512.New":                  vp + "Sha512New",
	"crypto/sha256.New":                  vp + "Sha256New",
	"golang.org/x/crypto/blake2b.New":    vp + "Blake2bNew",
	"golang.org/x/crypto/blake2b.New256": vp + "Blake2bNew256",
	"golang.org/x/crypto/blake2b.New512": vp + "Blake2bNew512",
	"math/big.addVV":                     "math/big.addVV_g",
	"math/big.subVV":                     "math/big.subVV_g",
	"math/big.lshVU":                     "math/big.lshVU_g",
	"math/big.rshVU":                     "math/big.rshVU_g",
	"math/big.mulAddVWW":                 "math/big.mulAddVWW_g",
	"math/big.addMulVVWW":                "math/big.addMulVVWW_g",
	"hash/crc32.ChecksumIEEE":            vp + "Crc32",
	"hash/crc32.NewIEEE":                 vp + "CrcNewIEEE",
	"hash/crc32.New":                     vp + "CrcNew",
	"hash/crc32.Checksum":                vp + "CrcTab",
	"hash/crc32.Update":                  vp + "CrcUpdate",
	"hash/crc32.MakeTable":               vp + "CrcMakeTable",
	"golang.org/x/crypto/pbkdf2.Key":     vp + "Pbkdf2Key",
}

type Runner struct {
	repo, vdir string
	work       string
	tier       string
	seed       int64
	progs      map[string]*Program
	bins       map[string]string
	binErr     map[string]string
	mu         sync.Mutex
	sem        chan struct{}
}

func (r *Runner) hdir() string { return filepath.Join(r.vdir, "harness") }

// native builds the replay binary of a harness directory.
func (r *Runner) native(dir string) (string, error) { return r.nativeBin(dir, false) }

// nativeBin builds the harnesses of a directory, race: with the race detector.
func (r *Runner) nativeBin(dir string, race bool) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	key := dir
	if race {
		key += "-race"
	}
	if b, ok := r.bins[key]; ok {
		if e := r.binErr[key]; e != "" {
			return "", fmt.Errorf("%s", e)
		}
		return b, nil
	}
	ov, err := harnessOverlay(r.repo, r.hdir(), []string{dir})
	if err != nil {
		return "", err
	}
	p := r.progs[dir]
	var mb bytes.Buffer
	fmt.Fprintf(&mb, "package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\n\th %q\n\t%q\n)\n\nfunc main() {\n\tm := map[string]func(){\n", virtPkg+"/"+dir, virtPkg+"/v")
	for _, h := range p.harnesses(dir) {
		fmt.Fprintf(&mb, "\t\t%q: h.%s,\n", h, h)
	}
	mb.WriteString("\t}\n\tf := m[os.Args[1]]\n\tif f == nil {\n\t\tfmt.Println(\"NOHARNESS\")\n\t\tos.Exit(8)\n\t}\n\tv.Run(f)\n}\n")
	bd := filepath.Join(r.work, "bin-"+key)
	os.MkdirAll(bd, 0755)
	mf := filepath.Join(bd, "main.go")
	os.WriteFile(mf, mb.Bytes(), 0644)
	ov[filepath.Join(r.repo, "zz_verif", "zz_main_"+dir, "main.go")] = mf
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ojf := filepath.Join(bd, "overlay.json")
	os.WriteFile(ojf, oj, 0644)
	out := filepath.Join(bd, "replay")
	args, cgo := []string{"build", "-overlay", ojf, "-o", out}, "0"
	if race {
		args, cgo = append(args, "-race"), "1"
	}
	cmd := exec.Command("go", append(args, virtPkg+"/zz_main_"+dir)...)
	cmd.Dir = r.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED="+cgo)
	o, err := cmd.CombinedOutput()
	r.bins[key] = out
	if err != nil {
		r.binErr[key] = "native build: " + err.Error() + "\n" + string(o)
		return "", fmt.Errorf("%s", r.binErr[key])
	}
	return out, nil
}

type nativeRun struct {
	kind string // ok, assume, assert, panic, other
	out  string
	obs  []obs
}

func (r *Runner) runNative(bin, fn string, inputs map[string][]uint64) nativeRun {
	f, _ := os.CreateTemp(r.work, "in-*.json")
	b, _ := json.Marshal(map[string]interface{}{"inputs": inputs})
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	return r.runNativeFor(bin, fn, f.Name(), 20*time.Second)
}

// hangs reports whether the compiled harness still runs after a time far beyond any of its
// regular runs, twice.
func (r *Runner) hangs(bin, fn string, inputs map[string][]uint64) bool {
	f, _ := os.CreateTemp(r.work, "in-*.json")
	b, _ := json.Marshal(map[string]interface{}{"inputs": inputs})
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	return r.runNativeFor(bin, fn, f.Name(), 60*time.Second).kind == "hang"
}

// nativeCmd limits the memory of the compiled harness: code that never stops allocating
// must not take the machine with it.
func nativeCmd(ctx context.Context, bin, fn string) *exec.Cmd {
	if strings.Contains(bin, "-race/") {
		cmd := exec.CommandContext(ctx, bin, fn)
		cmd.Env = append(os.Environ(), "VBOTH=1", "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=2GiB")
		return cmd
	}
	return exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 5000000 2>/dev/null; exec "$0" "$1"`, bin, fn)
}

func (r *Runner) runNativeFor(bin, fn, in string, max time.Duration) nativeRun {
	ctx, cancel := context.WithTimeout(rootCtx, max)
	defer cancel()
	cmd := nativeCmd(ctx, bin, fn)
	cmd.Dir = r.work
	if cmd.Env == nil {
		cmd.Env = os.Environ()
	}
	cmd.Env = append(cmd.Env, "VREPLAY="+in, "GOTRACEBACK=none", "TMPDIR="+r.work)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Run()
	res := nativeRun{kind: "other", out: so.String() + se.String()}
	if len(res.out) > 4000 {
		res.out = res.out[:4000]
	}
	for _, l := range strings.Split(so.String(), "\n") {
		switch {
		case strings.HasPrefix(l, "OBS "):
			p := strings.SplitN(l[4:], " ", 2)
			if len(p) == 2 {
				res.obs = append(res.obs, obs{p[0], p[1]})
			}
		case l == "DONE":
			res.kind = "ok"
		case l == "ASSUME":
			res.kind = "assume"
		case strings.HasPrefix(l, "ASSERT-FAIL"):
			res.kind = "assert"
		case strings.HasPrefix(l, "PANIC"):
			res.kind = "panic"
		}
	}
	if strings.Contains(se.String(), "WARNING: DATA RACE") {
		res.kind = "race"
	}
	if res.kind == "other" && (strings.Contains(se.String(), "panic:") || strings.Contains(se.String(), "fatal error:")) {
		res.kind = "panic"
	}
	if res.kind == "other" && ctx.Err() == context.DeadlineExceeded {
		res.kind = "hang"
		res.out = "does not return\n" + res.out
	}
	if res.kind == "other" && cmd.ProcessState != nil && cmd.ProcessState.Exited() && cmd.ProcessState.ExitCode() != 0 {
		res.kind = "exit"
	}
	return res
}

func (x *Exec) inputsOf(m *Model) map[string][]uint64 {
	out := map[string][]uint64{}
	for _, d := range x.inputs {
		var vs []uint64
		for _, t := range d.Terms {
			v, ok := m.Eval(t)
			if !ok {
				v = 0
			}
			vs = append(vs, v)
		}
		out[d.Name] = vs
	}
	return out
}

func (r *Runner) runJob(j Job) *JobResult {
	t0 := time.Now()
	res := &JobResult{Job: j}
	defer func() { res.Wall = time.Since(t0).Seconds() }()
	p := r.progs[j.Dir]
	fn := p.lookup(virtPkg + "/" + j.Dir + "." + j.Fn)
	if fn == nil {
		res.Err = "harness function missing"
		return res
	}
	sub := map[string]string{}
	for k, v := range defaultSubst {
		sub[k] = v
	}
	for k, v := range j.Subst {
		sub[k] = v
	}
	cfg := RunCfg{Harness: j.Fn, Subst: sub, MaxTime: j.Time, Unwind: j.Unwind, NoMerge: j.NoMerge || j.MapRepeat > 0, MapOrder: j.MapRepeat > 0}
	x := NewExec(p, cfg)
	x.b.arith = j.Arith
	res.X = x
	func() {
		defer func() {
			if e := recover(); e != nil {
				res.Err = fmt.Sprintf("engine: %v", e)
				if os.Getenv("SYMDEBUG") != "" {
					panic(e)
				}
			}
		}()
		x.Run(fn)
	}()
	if os.Getenv("SYMV") != "" {
		fmt.Fprintf(os.Stderr, "[%s] explored in %.1fs: done=%d forks=%d merges=%d steps=%d obls=%d trivial=%d vio=%d unsup=%v queries=%d solver=%.1fs\n", j.Fn, time.Since(t0).Seconds(), x.done, x.forks, x.merges, x.steps, len(x.obls), x.trivial, len(x.vio), x.unsupMsg, x.stats.Queries, float64(x.stats.SolverNS)/1e9)
	}
	r.discharge(res)
	if x.sol != nil {
		x.sol.Close()
		x.sol = nil
	}
	labels := reachLabels(fn)
	for _, l := range labels {
		if x.reach[l] {
			res.Reached = append(res.Reached, l)
		} else {
			res.NotReached = append(res.NotReached, l)
		}
	}
	r.confirm(res)
	r.searchInt(res)
	r.replayLost(res)
	if !j.NoVal {
		r.validate(res)
	}
	return res
}

// replayLost runs an input of each of a few paths that could not be followed (or decided)
// against the compiled code. It can only add counterexamples; the paths stay reported as
// not covered.
func (r *Runner) replayLost(res *JobResult) {
	x := res.X
	ls := append([]lost(nil), x.lost...)
	for _, o := range x.obls {
		if o.res == Unknown && len(ls) < 32 {
			ls = append(ls, lost{append([]*Term(nil), o.pc...), o.hint})
		}
	}
	if len(ls) == 0 || len(res.Viol) > 0 {
		return
	}
	bin, err := r.native(res.Job.Dir)
	if err != nil {
		return
	}
	sol := NewSolver(x.stats)
	defer sol.Close()
	rng := rand.New(rand.NewSource(r.seed))
	seen := map[string]bool{}
	until := time.Now().Add(20 * time.Second)
	run := func(m *Model) bool {
		in := x.inputsOf(m)
		k := inputsKey(in)
		if seen[k] {
			return false
		}
		seen[k] = true
		res.LostRuns++
		for i := 0; i < 3; i++ {
			n := r.runNative(bin, res.Job.Fn, in)
			if n.kind == "hang" && r.hangs(bin, res.Job.Fn, in) {
				res.Viol = append(res.Viol, &Confirmed{Msg: "the compiled code does not return", Inputs: in, Native: n.out, Where: res.Job.Fn})
				return true
			}
			if n.kind != "assert" && n.kind != "panic" {
				return false
			}
			if i == 2 {
				res.Viol = append(res.Viol, &Confirmed{Msg: "input of a path the encoding does not follow fails on the compiled code: " + firstLine(n.out), Inputs: in, Native: n.out, Where: res.Job.Fn})
			}
		}
		return true
	}
	for _, l := range ls {
		if time.Now().After(until) {
			return
		}
		if l.model != nil && run(l.model) {
			return
		}
		for k := 0; k < 2; k++ {
			var eqs []*Term
			for _, d := range x.inputs {
				for i, t := range d.Terms {
					if t.IsConst() || i >= 4 || t.W == 0 || d.Kind == "choose" {
						continue
					}
					eqs = append(eqs, x.b.Eq(t, x.b.C(t.W, rng.Uint64()&mask(t.W))))
				}
			}
			for {
				rr, m := sol.Check(append(append([]*Term(nil), l.pc...), eqs...), 2*time.Second, true)
				if rr == Sat && m != nil {
					if run(m) {
						return
					}
					break
				}
				if len(eqs) == 0 || time.Now().After(until) {
					break
				}
				eqs = eqs[:len(eqs)/2]
			}
		}
	}
}

func reachLabels(fn *ssa.Function) []string {
	seen := map[string]bool{}
	var visit func(f *ssa.Function)
	vis := map[*ssa.Function]bool{}
	visit = func(f *ssa.Function) {
		if vis[f] {
			return
		}
		vis[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.String() == vp+"Reach" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						seen[strings.Trim(k.Value.ExactString(), "\"")] = true
					}
				} else if g.Pkg == fn.Pkg {
					visit(g)
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	var out []string
	for l := range seen {
		out = append(out, l)
	}
	sort.Strings(out)
	return out
}

// discharge decides every assertion instance.
func (r *Runner) discharge(res *JobResult) {
	x := res.X
	res.Obls = len(x.obls) + x.trivial
	res.Discharged = x.trivial
	var hard []*Obligation
	seenMsg := map[string]int{}
	for _, o := range x.obls {
		// a path model that already falsifies the assertion
		if o.hint != nil {
			ok := true
			for _, t := range append(append([]*Term(nil), o.pc...), o.neg) {
				v, k := o.hint.Eval(t)
				if !k || v == 0 {
					ok = false
					break
				}
			}
			if ok {
				o.res, o.model, o.who = Sat, o.hint, "path model"
				continue
			}
		}
		ts := x.relevant(o.pc, o.neg)
		rr, m := x.solver().Check(append(ts, o.neg), 4*time.Second, true)
		o.who = "z3-new"
		if rr == Sat {
			// extend to the whole path condition
			if len(ts) < len(o.pc) {
				r2, m2 := x.solver().Check(append(append([]*Term(nil), o.pc...), o.neg), 10*time.Second, true)
				if r2 == Sat {
					m = m2
				} else if r2 == Unsat {
					rr = Unsat
				} else {
					rr = Unknown
				}
			}
		}
		o.res, o.model = rr, m
		if rr == Sat && m == nil {
			o.res = Unknown
		}
		if o.res == Unknown {
			hard = append(hard, o)
		}
	}
	res.Obls += len(x.intObls)
	var iwg sync.WaitGroup
	if len(x.intObls) > 0 {
		// normal forms share one table, so they are decided one after another
		iwg.Add(1)
		go func() {
			defer iwg.Done()
			decide := func(o *IntObl, budget time.Duration) {
				t0 := time.Now()
				x.decideInt(o, budget)
				if os.Getenv("SYMV") != "" && (o.how != "intervals" || o.res != Unsat) {
					fmt.Fprintf(os.Stderr, "  int %s: %v (%s) %.1fs\n", o.msg, o.res, o.how, time.Since(t0).Seconds())
				}
			}
			var open []*IntObl
			quick := time.Now().Add(40 * time.Second)
			for _, o := range x.intObls {
				b := 10 * time.Second
				if l := time.Until(quick); l < b {
					b = l
				}
				decide(o, b)
				if o.res != Unsat {
					open = append(open, o)
				}
			}
			if len(open) == 0 {
				return
			}
			// look for a counterexample on the compiled code before the long solver runs
			if res.intCex = r.quickSearch(res, open); res.intCex != nil {
				return
			}
			budget := res.Job.Solve
			if budget == 0 {
				budget = 120 * time.Second
			}
			end := time.Now().Add(budget)
			for _, o := range open {
				if l := time.Until(end); l > 10*time.Second {
					decide(o, l)
				}
			}
		}()
	}
	solve := res.Job.Solve
	if solve == 0 {
		solve = 60 * time.Second
	}
	var wg sync.WaitGroup
	for _, o := range hard {
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			r.sem <- struct{}{}
			defer func() { <-r.sem }()
			if os.Getenv("SYMDUMP") != "" {
				fmt.Fprintln(os.Stderr, "HARD", o.msg, dump(o.neg, 9))
			}
			o.res, o.model, o.who = Portfolio(x.stats, append(append([]*Term(nil), o.pc...), o.neg), solve, bvPortfolio)
		}(o)
	}
	wg.Wait()
	iwg.Wait()
	for _, o := range x.intObls {
		if o.res == Unsat {
			res.Discharged++
		} else {
			res.Undecided = append(res.Undecided, o.msg+" @ "+o.where)
		}
	}
	for _, o := range x.obls {
		switch o.res {
		case Unsat:
			res.Discharged++
		case Sat:
			seenMsg[o.msg]++
			if seenMsg[o.msg] <= 6 {
				x.vio = append(x.vio, &Violation{Msg: o.msg, Model: o.model, Kind: "assert", PC: append(append([]*Term(nil), o.pc...), o.neg), Where: o.where})
			}
		default:
			res.Undecided = append(res.Undecided, o.msg+" @ "+o.where)
		}
	}
}

func inputsKey(m map[string][]uint64) string {
	b, _ := json.Marshal(m)
	return string(b)
}

// confirm replays each counterexample against the compiled code.
func (r *Runner) confirm(res *JobResult) {
	x := res.X
	if len(x.vio) == 0 {
		return
	}
	bin, err := r.native(res.Job.Dir)
	if err != nil {
		res.Err = err.Error()
		return
	}
	perMsg := map[string]int{}
	for _, v := range x.vio {
		if perMsg[v.Msg] >= 1 {
			continue
		}
		c := r.replayOne(res, bin, v)
		if c != nil {
			perMsg[v.Msg]++
			res.Viol = append(res.Viol, c)
		} else {
			res.Unrepro = append(res.Unrepro, v.Msg+" @ "+v.Where)
		}
	}
}

func (r *Runner) replayOne(res *JobResult, bin string, v *Violation) *Confirmed {
	x := res.X
	m := v.Model
	rep := res.Job.MapRepeat
	if rep < 1 {
		rep = 1
	}
	if v.Kind == "race" {
		rb, err := r.nativeBin(res.Job.Dir, true)
		if err != nil {
			res.Err = err.Error()
			return nil
		}
		bin, rep = rb, 3
	}
	try := func(m *Model) (*Confirmed, map[string][]uint64) {
		in := x.inputsOf(m)
		for k := 0; k < rep; k++ {
			n := r.runNative(bin, res.Job.Fn, in)
			if n.kind == "assert" || n.kind == "panic" || (n.kind == "exit" && v.Kind == "exit") || n.kind == "race" {
				return &Confirmed{Msg: v.Msg, Inputs: in, Native: n.out, Where: v.Where}, in
			}
		}
		return nil, in
	}
	c, in := try(m)
	if c != nil {
		return c
	}
	// The path went through an abstracted function: block this input and look
	// for others (the abstraction admits values the real function does not take).
	_, ufs := cone(v.PC)
	if len(ufs) == 0 {
		return nil
	}
	sol := NewSolver(x.stats)
	defer sol.Close()
	// refine: fix the arguments of the abstracted functions to the model's, innermost
	// first, give them the values the real functions have there, and solve again
	refine := func(m *Model, until time.Time) *Confirmed {
		pinned := map[*Term]bool{}
		var eqs []*Term
		for len(pinned) < len(ufs) && time.Now().Before(until) {
			n := len(pinned)
			var now []*Term
			for _, u := range ufs {
				if pinned[u] {
					continue
				}
				_, in := cone(u.A)
				ready := true
				for _, w := range in {
					ready = ready && pinned[w]
				}
				if ready {
					now = append(now, u)
				}
			}
			for _, u := range now {
				args, val, ok := x.realUF(u, m)
				if !ok {
					return nil
				}
				for i, a := range args {
					eqs = append(eqs, x.b.Eq(u.A[i], x.b.C(u.A[i].W, a)))
				}
				eqs = append(eqs, x.b.Eq(u, x.b.C(u.W, val)))
				pinned[u] = true
			}
			if len(pinned) == n {
				return nil
			}
			rr, m2 := sol.Check(append(append([]*Term(nil), v.PC...), eqs...), 5*time.Second, true)
			if rr != Sat || m2 == nil {
				return nil
			}
			m = m2
			if c, _ := try(m); c != nil {
				return c
			}
		}
		return nil
	}
	if c := refine(m, time.Now().Add(20*time.Second)); c != nil {
		return c
	}
	rng := rand.New(rand.NewSource(r.seed))
	ts := append([]*Term(nil), v.PC...)
	deadline := time.Now().Add(40 * time.Second)
	for round := 0; round < 60 && time.Now().Before(deadline); round++ {
		// pin a few random input words so that successive models differ
		var eqs []*Term
		for _, d := range x.inputs {
			for i, t := range d.Terms {
				if t.IsConst() || i >= 4 || t.W == 0 || d.Kind == "choose" {
					continue
				}
				eqs = append(eqs, x.b.Eq(t, x.b.C(t.W, rng.Uint64()&mask(t.W))))
			}
		}
		_ = in
		var m2 *Model
		rr := Unknown
		for len(eqs) > 0 {
			rr, m2 = sol.Check(append(append([]*Term(nil), ts...), eqs...), 5*time.Second, true)
			if rr == Sat {
				break
			}
			eqs = eqs[:len(eqs)/2]
		}
		if rr != Sat {
			rr, m2 = sol.Check(ts, 5*time.Second, true)
		}
		if rr != Sat || m2 == nil {
			return nil
		}
		if c, _ := try(m2); c != nil {
			return c
		}
		if c := refine(m2, deadline); c != nil {
			return c
		}
	}
	return nil
}

// validate runs sampled path inputs through the engine concretely and through
// the compiled code, and compares what they observe.
func (r *Runner) validate(res *JobResult) {
	x := res.X
	if len(x.samples) == 0 || res.Err != "" {
		return
	}
	bin, err := r.native(res.Job.Dir)
	if err != nil {
		res.Err = err.Error()
		return
	}
	max := 6
	if r.tier == "thorough" {
		max = 20
	}
	n := len(x.samples)
	step := 1
	if n > max {
		step = n / max
	}
	seen := map[string]bool{}
	done := 0
	for i := 0; i < n && done < max; i += step {
		in := x.inputsOf(x.samples[i])
		k := inputsKey(in)
		if seen[k] {
			continue
		}
		seen[k] = true
		done++
		r.validateOne(res, bin, in)
	}
}

func (r *Runner) validateOne(res *JobResult, bin string, in map[string][]uint64) {
	p := r.progs[res.Job.Dir]
	cx := NewExec(p, res.X.cfg)
	cx.concrete = in
	if cx.concrete == nil {
		cx.concrete = map[string][]uint64{}
	}
	cx.deadline = time.Now().Add(30 * time.Second)
	fn := p.lookup(virtPkg + "/" + res.Job.Dir + "." + res.Job.Fn)
	bad := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				bad = fmt.Sprint(e)
			}
		}()
		cx.Run(fn)
	}()
	if cx.sol != nil {
		cx.sol.Close()
	}
	if bad != "" || len(cx.unsupMsg) > 0 {
		return
	}
	kind := "ok"
	if cx.done == 0 {
		kind = "assume"
	}
	for _, v := range cx.vio {
		kind = v.Kind
	}
	nat := r.runNative(bin, res.Job.Fn, in)
	same := nat.kind == kind
	if same && kind == "ok" {
		if len(nat.obs) != len(cx.observed) {
			same = false
		} else {
			for i := range nat.obs {
				if nat.obs[i] != cx.observed[i] {
					same = false
				}
			}
		}
	}
	if same {
		res.Validated++
	} else if nat.kind == "assert" || nat.kind == "panic" {
		// The real code breaks the assertion where a library model hid it: it is a
		// counterexample if it fails every time.
		for k := 0; k < 2; k++ {
			if n := r.runNative(bin, res.Job.Fn, in); n.kind != nat.kind {
				res.Mismatch = append(res.Mismatch, fmt.Sprintf("input %s: native %s once, %s again", inputsKey(in), nat.kind, n.kind))
				return
			}
		}
		res.Viol = append(res.Viol, &Confirmed{Msg: "solver-chosen path input fails on the compiled code: " + firstLine(nat.out), Inputs: in, Native: nat.out, Where: res.Job.Fn})
	} else {
		res.Mismatch = append(res.Mismatch, fmt.Sprintf("input %s: engine %s %v, native %s %v", inputsKey(in), kind, cx.observed, nat.kind, nat.obs))
	}
}
