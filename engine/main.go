package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "code base under test")
	vdir := flag.String("verif", "/verif", "verification directory")
	only := flag.String("only", "", "run only this harness (development)")
	flag.Parse()
	if e := os.Getenv("VERIF_REPO"); e != "" {
		*repo = e
	}
	if pf := os.Getenv("SYMPROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		go func() { time.Sleep(30 * time.Second); pprof.StopCPUProfile(); f.Close() }()
	}
	os.Exit(runProp(*prop, *tier, *repo, *vdir, *only))
}

// rootCtx ends every process this run started.
var rootCtx, stopAll = context.WithCancel(context.Background())

func runProp(prop, tier, repo, vdir, only string) int {
	t0 := time.Now()
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	P, ok := props[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	work, err := os.MkdirTemp("", "verif-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	r := &Runner{repo: repo, vdir: vdir, work: work, tier: tier, seed: seed, progs: map[string]*Program{}, bins: map[string]string{}, binErr: map[string]string{}, sem: make(chan struct{}, 3)}
	var jobs []Job
	dirs := map[string]bool{}
	for _, j := range P.Jobs {
		if j.Tier == "thorough" && tier != "thorough" {
			continue
		}
		if j.Tier == "quick" && tier != "quick" {
			continue
		}
		if only != "" && j.Fn != only {
			continue
		}
		jobs = append(jobs, j)
		dirs[j.Dir] = true
	}
	var dl []string
	for d := range dirs {
		dl = append(dl, d)
	}
	sort.Strings(dl)
	skipped := []string{}
	loaded := 0
	for _, d := range dl {
		p, err := Load(repo, r.hdir(), []string{d})
		if err != nil {
			if only != "" || os.Getenv("SYMV") != "" {
				fmt.Fprintln(os.Stderr, "load", d, err)
			}
			skipped = append(skipped, d+": "+err.Error())
			continue
		}
		r.progs[d] = p
		loaded++
	}
	if loaded == 0 {
		fmt.Fprintln(os.Stderr, "nothing could be loaded:", strings.Join(skipped, "\n"))
		return 2
	}
	results := make([]*JobResult, len(jobs))
	type done struct {
		i   int
		res *JobResult
	}
	ch := make(chan done, len(jobs))
	par := make(chan struct{}, 6)
	running := 0
	for i, j := range jobs {
		results[i] = &JobResult{Job: j, Err: "not finished within the time of this run"}
		if r.progs[j.Dir] == nil {
			results[i].Err = "harness does not compile against this tree"
			continue
		}
		running++
		go func(i int, j Job) {
			par <- struct{}{}
			defer func() { <-par }()
			ch <- done{i, r.guarded(j)}
		}(i, j)
	}
	// a quick run reports within its time; after a confirmed violation the remaining
	// harnesses get a short grace period only
	end := t0.Add(780 * time.Second)
	if tier == "thorough" {
		end = t0.Add(6 * time.Hour)
	}
	known := loadKnown(filepath.Join(vdir, "known-findings.txt"))
	for running > 0 {
		select {
		case d := <-ch:
			running--
			results[d.i] = d.res
			for _, c := range d.res.Viol {
				if g := time.Now().Add(20 * time.Second); known.match(prop, d.res.Job.Fn, c) == "" && g.Before(end) {
					end = g
				}
			}
			continue
		case <-time.After(time.Until(end)):
		}
		break
	}
	if running > 0 {
		stopAll()
		time.Sleep(200 * time.Millisecond)
	}
	return r.report(prop, P, results, skipped, t0)
}

// guarded runs one harness; a fault of the engine in it leaves the others standing.
func (r *Runner) guarded(j Job) (res *JobResult) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("SYMDEBUG") != "" {
				panic(e)
			}
			res = &JobResult{Job: j, Err: fmt.Sprintf("engine: %v", e)}
		}
	}()
	return r.runJob(j)
}

func (r *Runner) report(prop string, P *Prop, results []*JobResult, skipped []string, t0 time.Time) int {
	known := loadKnown(filepath.Join(r.vdir, "known-findings.txt"))
	states, transitions, validated, queries := 0, int64(0), 0, int64(0)
	var solverNS int64
	obl, disch := 0, 0
	fns := map[string]bool{}
	var samples []interface{}
	var notes []string
	var hs []interface{}
	nviol := 0
	ufs := map[string]bool{}
	os.MkdirAll(filepath.Join(r.vdir, "evidence", "replay"), 0755)
	seenKnown := map[string]bool{}
	for _, s := range skipped {
		notes = append(notes, "skipped harness package "+s)
	}
	for _, res := range results {
		h := map[string]interface{}{"harness": res.Job.Dir + "." + res.Job.Fn, "wall_s": round(res.Wall)}
		if res.Err != "" {
			h["error"] = res.Err
			notes = append(notes, res.Job.Fn+": "+res.Err)
		}
		if x := res.X; x != nil {
			states += x.done + len(x.vio)
			transitions += x.steps
			validated += res.Validated
			queries += x.stats.Queries
			solverNS += x.stats.SolverNS
			obl += res.Obls
			disch += res.Discharged
			for f := range x.fnSeen {
				if strings.Contains(f, modPath) && !strings.Contains(f, "/zz_verif/") {
					fns[strings.ReplaceAll(f, modPath+"/", "")] = true
				}
			}
			if m, ok := x.scratch["uf"].(map[string]int); ok {
				for a := range m {
					ufs[a] = true
				}
			}
			h["paths"] = x.done
			h["forks"] = x.forks
			h["merges"] = x.merges
			h["instructions"] = x.steps
			h["assertions"] = res.Obls
			h["discharged"] = res.Discharged
			h["queries"] = x.stats.Queries
			h["sat_unsat_unknown"] = []int64{x.stats.SatN, x.stats.UnsatN, x.stats.UnknownN}
			h["solver_s"] = round(float64(x.stats.SolverNS) / 1e9)
			h["reached"] = res.Reached
			if len(res.NotReached) > 0 {
				h["not_reached"] = res.NotReached
			}
			if len(x.unsupMsg) > 0 {
				h["not_explored"] = x.unsupMsg
				h["not_explored_inputs_replayed"] = res.LostRuns
			}
			if x.sched {
				notes = append(notes, res.Job.Fn+": goroutines were followed in one order, each run to its end where it starts")
			}
			if len(res.Undecided) > 0 {
				h["undecided"] = res.Undecided
			}
			if len(res.Unrepro) > 0 {
				h["not_reproduced_natively"] = res.Unrepro
			}
			if len(res.Mismatch) > 0 {
				h["validation_mismatch"] = res.Mismatch
			}
			if len(samples) < 12 && len(x.samples) > 0 {
				samples = append(samples, map[string]interface{}{"harness": res.Job.Fn, "path_input": x.inputsOf(x.samples[len(x.samples)/2])})
			}
		}
		for k, c := range res.Viol {
			if kf := known.match(prop, res.Job.Fn, c); kf != "" {
				if !seenKnown[kf] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf)
					seenKnown[kf] = true
				}
				continue
			}
			nviol++
			rp := filepath.Join(r.vdir, "evidence", "replay", fmt.Sprintf("%s-%s-%d.json", prop, res.Job.Fn, k))
			b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "harness": res.Job.Dir + "." + res.Job.Fn, "message": c.Msg, "where": c.Where, "inputs": c.Inputs, "native_output": c.Native}, "", " ")
			os.WriteFile(rp, b, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
			fmt.Printf("  %s: %s\n  at %s\n  native: %s\n", res.Job.Fn, c.Msg, c.Where, firstLine(c.Native))
		}
		hs = append(hs, h)
	}
	if len(samples) == 0 {
		samples = append(samples, "no symbolic path input")
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var ul []string
	for a := range ufs {
		ul = append(ul, a)
	}
	sort.Strings(ul)
	about := map[string]struct{ Bounds, Assume []string }{}
	if b, err := os.ReadFile(filepath.Join(r.vdir, "bounds.json")); err == nil {
		json.Unmarshal(b, &about)
	}
	bounds := append([]string{}, about[prop].Bounds...)
	assume := append([]string{}, about[prop].Assume...)
	ev := map[string]interface{}{
		"property": prop, "tier": r.tier, "seed": r.seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": transitions, "traces_validated_against_impl": validated, "samples": samples,
			"functions_encoded": fl, "functions_encoded_count": len(fl), "assertions": obl, "assertions_discharged": disch,
			"solver_queries": queries, "solver_s": round(float64(solverNS) / 1e9), "bounds": bounds, "harnesses": hs,
			"uninterpreted_functions": ul, "notes": notes,
			"meaning": "states = symbolic paths followed to their end; transitions = SSA instructions executed symbolically",
		},
		"assumptions": assume, "wall_s": round(time.Since(t0).Seconds()), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(r.vdir, "evidence", prop+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s: %d harnesses, %d paths, %d/%d assertions discharged, %d validated, %d queries, %.1fs solver, %.1fs wall\n", prop, len(results), states, disch, obl, validated, queries, float64(solverNS)/1e9, time.Since(t0).Seconds())
	for _, res := range results {
		if res.Err != "" || len(res.Undecided) > 0 || len(res.Unrepro) > 0 || len(res.Mismatch) > 0 || len(res.NotReached) > 0 || (res.X != nil && len(res.X.unsupMsg) > 0) {
			fmt.Printf("  note %s: err=%q undecided=%d unreproduced=%v mismatch=%d notreached=%v", res.Job.Fn, res.Err, len(res.Undecided), res.Unrepro, len(res.Mismatch), res.NotReached)
			if res.X != nil {
				fmt.Printf(" unexplored=%v", res.X.unsupMsg)
			}
			fmt.Println()
			if os.Getenv("SYMV") != "" {
				fmt.Println(res.Mismatch, res.Undecided)
			}
		}
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "ASSERT-FAIL") || strings.HasPrefix(l, "PANIC") || strings.Contains(l, "panic:") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// known findings: lines "finding: property=C01 harness=H_x match=<substring of message> :: <text>"
type knownFinding struct{ prop, harness, match, text string }
type knownList []knownFinding

func loadKnown(f string) knownList {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out knownList
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		k := knownFinding{}
		head := l[len("finding: "):]
		if i := strings.Index(head, " :: "); i >= 0 {
			k.text = head[i+4:]
			head = head[:i]
		}
		if i := strings.Index(head, " match="); i >= 0 {
			k.match = head[i+7:]
			head = head[:i]
		}
		for _, f := range strings.Fields(head) {
			if strings.HasPrefix(f, "property=") {
				k.prop = f[9:]
			}
			if strings.HasPrefix(f, "harness=") {
				k.harness = f[8:]
			}
		}
		if k.prop != "" && k.harness != "" && k.match != "" {
			out = append(out, k)
		}
	}
	return out
}

func (kl knownList) match(prop, harness string, c *Confirmed) string {
	for _, k := range kl {
		if k.prop == prop && k.harness == harness && strings.Contains(c.Msg, k.match) {
			return k.text
		}
	}
	return ""
}
