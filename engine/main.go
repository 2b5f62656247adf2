// Command engine decides properties of roy2220/plainkv by symbolic execution of
// its SSA form with an SMT solver. See ../DESIGN.md.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

type replayResult struct {
	Idx    int    `json:"idx"`
	Status string `json:"status"`
	Label  string `json:"label"`
	Msg    string `json:"msg"`
}

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOSUMDB=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off")
}

func main() {
	prop := flag.String("prop", "", "property id")
	tierS := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	root := flag.String("root", "/verif", "verif directory")
	only := flag.String("only", "", "run only harnesses whose name contains this")
	budget := flag.Float64("budget", 0, "exploration seconds (0: by tier)")
	workers := flag.Int("workers", 0, "workers")
	noReplay := flag.Bool("noreplay", false, "skip native replay")
	solverF := flag.String("solver", "", "solver binary")
	maxFind := flag.Int("maxfind", 24, "stop after this many counterexamples (0: never)")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(10 << 30)
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if *solverF != "" {
		solverBin = *solverF
	}
	start := time.Now()
	tier := 0
	if *tierS == "thorough" {
		tier = 1
	}
	if *budget == 0 {
		*budget = 400
		if tier == 1 {
			*budget = 700
		}
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
	}
	hdir := filepath.Join(*root, "harness")
	scratch, err := os.MkdirTemp("", "verif-"+*prop+"-")
	if err != nil {
		fatal("%v", err)
	}
	cleanup := func() { os.RemoveAll(scratch) }
	defer cleanup()

	// native replay binaries are built from the same tree, in parallel
	var bwg sync.WaitGroup
	bins := map[string]string{"real": filepath.Join(scratch, "replay_real"), "model": filepath.Join(scratch, "replay_model")}
	berr := map[string]string{}
	var bmu sync.Mutex
	if !*noReplay {
		for k, out := range bins {
			args := []string{"build", "-o", out}
			if k == "model" {
				mf := filepath.Join(scratch, "model.mod")
				data, err := os.ReadFile(filepath.Join(hdir, "go.mod"))
				if err != nil {
					fatal("%v", err)
				}
				data = append(data, []byte("\nreplace github.com/roy2220/fsm => "+filepath.Join(hdir, "fsmmodel")+"\n")...)
				os.WriteFile(mf, data, 0o644)
				sum, _ := os.ReadFile(filepath.Join(hdir, "go.sum"))
				os.WriteFile(filepath.Join(scratch, "model.sum"), sum, 0o644)
				args = append(args, "-modfile="+mf, "-tags", "fsmmodel")
			}
			args = append(args, "./cmd/replay")
			bwg.Add(1)
			go func() {
				defer bwg.Done()
				c := exec.Command("go", args...)
				c.Dir = hdir
				c.Env = goEnv()
				if o, err := c.CombinedOutput(); err != nil {
					bmu.Lock()
					berr[k] = string(o) + err.Error()
					bmu.Unlock()
				}
			}()
		}
	}

	prog, err := loadProgram(hdir, goEnv(), nil)
	if err != nil {
		cleanup()
		fatal("cannot load the code: %v", err)
	}
	loadT := time.Since(start)
	r := &Run{prop: *prop, tier: tier, prog: prog, solverMS: 20000, seed: *seed, maxFind: *maxFind, keepTraces: 12,
		findings: map[string][]*Trace{}, incon: map[string]int{}, labels: map[string]int64{}, cover: map[int]map[int]bool{}, opLimit: 60_000_000}
	if tier == 1 {
		r.keepTraces = 40
		r.opLimit = 400_000_000
		r.solverMS = 60000
	}
	r.cond = sync.NewCond(&r.mu)
	r.deadline = time.Now().Add(time.Duration(*budget * float64(time.Second)))
	w0, err := newWorker(r)
	if err != nil {
		cleanup()
		fatal("cannot start: %v", err)
	}
	hs, err := w0.harnesses()
	if err != nil {
		cleanup()
		fatal("%v", err)
	}
	var sel []*Harness
	for _, h := range hs {
		if propMatch(h.Props, *prop) && (h.Quick || tier == 1) && (*only == "" || strings.Contains(h.Name, *only)) {
			sel = append(sel, h)
			r.queue = append(r.queue, &Job{harness: h})
		}
	}
	if len(sel) == 0 {
		cleanup()
		fatal("no harness for property %s", *prop)
	}
	var wg sync.WaitGroup
	for i := 0; i < *workers; i++ {
		w := w0
		if i > 0 {
			if w, err = newWorker(r); err != nil {
				cleanup()
				fatal("%v", err)
			}
		}
		wg.Add(1)
		go func() { defer wg.Done(); w.loop() }()
	}
	wg.Wait()
	exploreT := time.Since(start) - loadT

	// replay
	bwg.Wait()
	rep := &Reporter{run: r, sel: sel, root: *root, bins: bins, berr: berr, scratch: scratch, tierS: *tierS, seed: *seed, noReplay: *noReplay}
	code := rep.finish(start, loadT, exploreT)
	cleanup()
	pprof.StopCPUProfile()
	os.Exit(code)
}

// runReplay runs traces natively and returns one result per trace.
func (rp *Reporter) runReplay(kind string, ts []*Trace) []replayResult {
	res := make([]replayResult, len(ts))
	for i := range res {
		res[i] = replayResult{Idx: i, Status: "error", Msg: "not run"}
	}
	if rp.berr[kind] != "" {
		for i := range res {
			res[i].Msg = "replay build failed: " + rp.berr[kind]
		}
		return res
	}
	f := filepath.Join(rp.scratch, kind+"-traces.json")
	b, _ := json.Marshal(ts)
	os.WriteFile(f, b, 0o644)
	first := 0
	t0 := time.Now()
	for first < len(ts) {
		if time.Since(t0) > 120*time.Second {
			break // the rest is reported as not run
		}
		dir := filepath.Join(rp.scratch, "work-"+kind)
		os.MkdirAll(dir, 0o755)
		cmd := exec.Command(rp.bins[kind], f, dir, fmt.Sprint(first))
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		done := make(chan error, 1)
		cmd.Start()
		go func() { done <- cmd.Wait() }()
		var werr error
		select {
		case werr = <-done:
		case <-time.After(150 * time.Second):
			cmd.Process.Kill()
			<-done
			werr = fmt.Errorf("timeout")
		}
		sc := bufio.NewScanner(&out)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		last := first - 1
		for sc.Scan() {
			var x replayResult
			if json.Unmarshal(sc.Bytes(), &x) == nil && x.Idx < len(res) {
				res[x.Idx] = x
				last = x.Idx
			}
		}
		os.RemoveAll(dir)
		if werr != nil && last+1 < len(ts) {
			msg := errb.String()
			if i := strings.IndexByte(msg, '\n'); i > 0 {
				msg = msg[:i]
			}
			res[last+1] = replayResult{Idx: last + 1, Status: "panic", Label: "panic", Msg: "process died: " + werr.Error() + " " + msg}
			first = last + 2
			continue
		}
		if last+1 <= first && werr == nil && last < first {
			break
		}
		first = last + 1
	}
	return res
}

// Reporter turns the exploration into verdict and evidence.
type Reporter struct {
	run      *Run
	sel      []*Harness
	root     string
	bins     map[string]string
	berr     map[string]string
	scratch  string
	tierS    string
	seed     int64
	noReplay bool
}

func isViolation(r replayResult) bool {
	return r.Status == "fail" || r.Status == "panic" || r.Status == "hang"
}

func (rp *Reporter) finish(start time.Time, loadT, exploreT time.Duration) int {
	r := rp.run
	known := loadKnown(filepath.Join(rp.root, "known_findings.txt"), r.prop)
	evdir := filepath.Join(rp.root, "evidence")
	os.MkdirAll(evdir, 0o755)
	code := 0
	finds := r.findingList()
	if len(finds) > 24 {
		finds = finds[:24]
	}
	var violations []map[string]any
	unrepro := 0
	reported := map[string]bool{}
	if len(finds) > 0 {
		var real, model []replayResult
		if !rp.noReplay {
			real = rp.runReplay("real", finds)
			model = rp.runReplay("model", finds)
		}
		for i, f := range finds {
			via := ""
			msg := ""
			if rp.noReplay {
				via = "not replayed"
			} else if isViolation(real[i]) {
				via, msg = "real build", real[i].Status+" "+real[i].Label+" "+real[i].Msg
			} else if isViolation(model[i]) {
				via, msg = "real build over the contract-checking storage", model[i].Status+" "+model[i].Label+" "+model[i].Msg
			}
			if via == "" {
				unrepro++
				k := fmt.Sprintf("%s: counterexample for %q did not reproduce (native: %s %s; contract storage: %s %s)", f.Harness, f.Label+" "+f.Message, real[i].Status, real[i].Msg, model[i].Status, model[i].Msg)
				r.incon[k]++
				continue
			}
			if k := known.match(f); k != "" {
				if !reported[k] {
					reported[k] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k)
				}
				continue
			}
			key := f.Harness + "|" + f.Label
			if reported[key] {
				continue
			}
			reported[key] = true
			code = 1
			path := filepath.Join(evdir, "replay", fmt.Sprintf("%s-%d.json", r.prop, len(violations)))
			os.MkdirAll(filepath.Dir(path), 0o755)
			b, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
			fmt.Printf("  harness %s: %s: %s\n  reproduced by the %s: %s\n", f.Harness, f.Label, f.Message, via, msg)
			violations = append(violations, map[string]any{"harness": f.Harness, "label": f.Label, "message": f.Message, "replay": path, "reproduced_by": via, "native": msg})
		}
	}
	// conformance of the encoding: native runs of sampled paths
	var traces []*Trace
	for _, h := range rp.sel {
		for _, t := range h.traces {
			if t != nil {
				traces = append(traces, t)
			}
		}
	}
	valid, mism := 0, 0
	var mismatches []string
	if !rp.noReplay && len(traces) > 0 {
		for _, kind := range []string{"real", "model"} {
			for i, x := range rp.runReplay(kind, traces) {
				switch {
				case x.Status == "ok":
					if kind == "real" {
						valid++
					}
				case isViolation(x):
					t := *traces[i]
					t.Label, t.Message = x.Label, "native run of an explored path: "+x.Status+" "+x.Msg
					mism++
					mismatches = append(mismatches, fmt.Sprintf("%s (%s): %s %s %s", t.Harness, kind, x.Status, x.Label, x.Msg))
					if known.match(&t) != "" || reported["n"+t.Harness] {
						continue
					}
					reported["n"+t.Harness] = true
					code = 1
					path := filepath.Join(evdir, "replay", fmt.Sprintf("%s-%d.json", r.prop, len(violations)))
					os.MkdirAll(filepath.Dir(path), 0o755)
					b, _ := json.MarshalIndent(&t, "", " ")
					os.WriteFile(path, b, 0o644)
					fmt.Printf("VIOLATION property=%s replay=%s\n  harness %s: %s (%s storage)\n", r.prop, path, t.Harness, t.Message, kind)
					violations = append(violations, map[string]any{"harness": t.Harness, "label": x.Label, "message": t.Message, "replay": path, "reproduced_by": kind})
				default:
					mism++
					mismatches = append(mismatches, fmt.Sprintf("%s (%s): %s %s", traces[i].Harness, kind, x.Status, x.Msg))
				}
			}
		}
	}
	// evidence
	var samples []any
	for _, h := range rp.sel {
		for _, t := range h.traces {
			if t != nil && len(samples) < 4 {
				s := *t
				if len(s.Inputs) > 40 {
					s.Inputs = s.Inputs[:40]
				}
				if len(s.Obs) > 12 {
					s.Obs = s.Obs[:12]
				}
				samples = append(samples, s)
				break
			}
		}
	}
	if samples == nil {
		samples = []any{"no path was completed"}
	}
	var fns []string
	blkTot, blkHit := 0, 0
	for _, c := range r.prog.all {
		if !c.lib || c.intr != nil {
			continue
		}
		if m := r.cover[c.id]; len(m) > 0 {
			fns = append(fns, fmt.Sprintf("%s %d/%d", shortFn(c.name), len(m), c.nblk))
			blkHit += len(m)
			blkTot += c.nblk
		}
	}
	sort.Strings(fns)
	var hlist []map[string]any
	var vac []string
	for _, h := range rp.sel {
		hlist = append(hlist, map[string]any{"harness": h.Name, "bounds": h.Bounds, "paths": h.paths, "jobs": h.jobs, "cpu_s": round(h.time.Seconds()), "reached": h.reached})
		if h.paths == 0 {
			vac = append(vac, h.Name)
		}
	}
	incon := map[string]int{}
	for k, v := range r.incon {
		incon[k] = v
	}
	wall := time.Since(start).Seconds()
	cov := map[string]any{
		"states": r.tot.Paths, "transitions": r.tot.Steps,
		"states_meaning":                "completed symbolic paths; each stands for every value of its symbolic inputs that satisfies the path condition",
		"transitions_meaning":           "SSA instructions executed symbolically",
		"traces_validated_against_impl": valid, "trace_mismatches": mism, "mismatches": mismatches,
		"samples":           samples,
		"functions_encoded": fns, "blocks_covered": blkHit, "blocks_of_those_functions": blkTot,
		"harnesses": hlist, "vacuous_harnesses": vac,
		"assertions_checked": r.tot.Asserts, "assertion_queries_to_solver": r.tot.AssertQueries, "assertions_by_label": r.labels,
		"symbolic_branches": r.tot.Branches, "branches_settled_by_bounds": r.tot.Bounded, "paths_cut_by_assumptions": r.tot.Assumed,
		"solver": solverBin, "solver_queries": r.slvQ, "solver_sat": r.slvSat, "solver_unsat": r.slvUnsat, "solver_unknown": r.slvUnk, "solver_s": round(r.slvTime.Seconds()),
		"inconclusive": incon, "load_s": round(loadT.Seconds()), "explore_s": round(exploreT.Seconds()),
		"counterexamples": r.nfind, "counterexamples_not_reproduced": unrepro, "violations_found": violations,
		"exhaustive": false,
	}
	ev := map[string]any{"property": r.prop, "tier": rp.tierS, "seed": rp.seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"the file storage (github.com/roy2220/fsm) is replaced by a contract model: addresses never reused, accessors sized to a multiple of 8 (blocks: a power of two of at least 4096), contents uninitialised",
			"verdicts hold within the bounds given per harness; anything under 'inconclusive' was not decided",
		},
		"wall_s": round(wall), "violations": len(violations)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, r.prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d harnesses, %d paths, %d steps, %d branches (%d by bounds), %d assertions (%d to solver), %d queries (%.1fs, %d unknown), %d traces validated, %d mismatches, load %.1fs explore %.1fs wall %.1fs\n",
		r.prop, rp.tierS, len(rp.sel), r.tot.Paths, r.tot.Steps, r.tot.Branches, r.tot.Bounded, r.tot.Asserts, r.tot.AssertQueries, r.slvQ, r.slvTime.Seconds(), r.slvUnk, valid, mism, loadT.Seconds(), exploreT.Seconds(), wall)
	if debugEngine {
		for _, h := range rp.sel {
			fmt.Printf("  %s: paths %d jobs %d cpu %.1fs reached %v\n", h.Name, h.paths, h.jobs, h.time.Seconds(), h.reached)
		}
	}
	for _, m := range mismatches {
		fmt.Println("  trace mismatch:", m)
	}
	var ik []string
	for k, v := range incon {
		ik = append(ik, fmt.Sprintf("%s (x%d)", k, v))
	}
	sort.Strings(ik)
	for i, k := range ik {
		if i == 20 {
			break
		}
		fmt.Println("  INCONCLUSIVE:", k)
	}
	for _, v := range vac {
		fmt.Println("  VACUOUS:", v, "completed no path")
	}
	if code == 0 {
		fmt.Printf("OK property=%s\n", r.prop)
	}
	return code
}

func round(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

type knownList []string

// loadKnown reads "property=<id> match=<text> ..." lines.
func loadKnown(file, prop string) knownList {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out knownList
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" ") {
			out = append(out, strings.TrimPrefix(l, "known: property="+prop+" "))
		}
	}
	return out
}

// match: an entry is "harness=<name> label=<label> inputs=<name>=<v>,... <text>".
func (k knownList) match(t *Trace) string {
	for _, e := range k {
		ok := true
		for _, f := range strings.Fields(e) {
			switch {
			case strings.HasPrefix(f, "harness="):
				ok = ok && f[8:] == t.Harness
			case strings.HasPrefix(f, "label="):
				ok = ok && f[6:] == t.Label
			case strings.HasPrefix(f, "inputs="):
				for _, kv := range strings.Split(f[7:], ",") {
					p := strings.SplitN(kv, "=", 2)
					found := false
					for _, in := range t.Inputs {
						if len(p) == 2 && in.Name == p[0] && fmt.Sprint(in.Val) == p[1] {
							found = true
						}
					}
					ok = ok && found
				}
			}
		}
		if ok {
			return e
		}
	}
	return ""
}
