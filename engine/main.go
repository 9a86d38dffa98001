package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "", "quick or thorough")
	flagRepo    = flag.String("repo", "/repo", "")
	flagVerif   = flag.String("verif", "/verif", "")
	flagEntry   = flag.String("entry", "", "only this entry")
	flagDebug   = flag.Bool("debug", false, "")
	flagWorkers = flag.Int("workers", 8, "")
	flagNative  = flag.Bool("native", true, "replay natively")
	flagBudget  = flag.Int("budget", 0, "seconds for exploration")
	flagProf    = flag.String("prof", "", "")
	flagWarm    = flag.Bool("warm", false, "only build the native replay binaries")
	flagOut     = flag.String("out", "", "evidence file")
	flagGen     = flag.Bool("gen", false, "regenerate the facade re-exports")
	flagKeep    = flag.Bool("keep", false, "keep the scratch directory")
)

type nativeResult struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Detail string   `json:"detail"`
	Obs    []ObsVal `json:"obs"`
}

type replayFile struct {
	Property string        `json:"property"`
	Entry    string        `json:"entry"`
	Tier     string        `json:"tier"`
	Label    string        `json:"label,omitempty"`
	Where    string        `json:"where,omitempty"`
	Trace    []string      `json:"observations,omitempty"`
	Inputs   []ReplayInput `json:"inputs"`
	Order    []string      `json:"order,omitempty"`
	Race     bool          `json:"race,omitempty"`
	Native   *nativeResult `json:"native,omitempty"`
}

type native struct {
	dir  string
	h    *harness
	ov   map[string][]byte
	mu   sync.Mutex
	bins map[string]string
	errs map[string]error
	seq  int64
}

func (n *native) bin(pkg string, race bool) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	key, args := pkg, []string{"test", "-c", "-vet=off"}
	if race {
		key, args = pkg+"+race", append(args, "-race")
	}
	if b, ok := n.bins[key]; ok {
		return b, n.errs[key]
	}
	d := filepath.Join(n.dir, strings.ReplaceAll(key, "/", "_")+"_src")
	os.MkdirAll(d, 0755)
	out := filepath.Join(n.dir, strings.ReplaceAll(key, "/", "_")+".test")
	n.bins[key] = out
	o, err := nativeOverlay(d, *flagRepo, n.h, n.ov, pkg)
	if err == nil {
		cmd := exec.Command(goRoot+"/bin/go", append(args, "-overlay", o, "-o", out, "./"+pkg)...)
		cmd.Dir = filepath.Join(*flagRepo, "go")
		cmd.Env = goEnv()
		if race {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		}
		var b []byte
		b, err = cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("native build: %v\n%s", err, b)
		}
	}
	n.errs[key] = err
	return out, err
}

func (n *native) run(pkg string, rf *replayFile) (*nativeResult, error) {
	b, err := n.bin(pkg, rf.Race)
	if err != nil {
		return nil, err
	}
	k := atomic.AddInt64(&n.seq, 1)
	p := filepath.Join(n.dir, fmt.Sprintf("r%d.json", k))
	wd := filepath.Join(n.dir, fmt.Sprintf("w%d", k))
	os.MkdirAll(wd, 0755)
	j, _ := json.Marshal(rf)
	if err := os.WriteFile(p, j, 0644); err != nil {
		return nil, err
	}
	cmd := exec.Command(b, "-test.run", "TestZZVF", "-test.v")
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "VF_REPLAY="+p, "TMPDIR="+wd, "HOME="+wd)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	t := time.AfterFunc(40*time.Second, func() {
		if cmd.Process != nil {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
	})
	out, _ := cmd.CombinedOutput()
	t.Stop()
	os.RemoveAll(wd)
	os.Remove(p)
	s := string(out)
	if rf.Race {
		if r := raceReport(rf.Label, s); r != "" {
			return &nativeResult{Status: "race", Label: rf.Label, Detail: tail(r, 4000)}, nil
		}
		return &nativeResult{Status: "ok", Detail: "no report of the race detector"}, nil
	}
	if i := strings.LastIndex(s, "VF_RESULT "); i >= 0 {
		l := s[i+10:]
		if j := strings.IndexByte(l, '\n'); j >= 0 {
			l = l[:j]
		}
		r := &nativeResult{}
		if err := json.Unmarshal([]byte(l), r); err == nil {
			return r, nil
		}
	}
	if strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") {
		return &nativeResult{Status: "panic", Label: "panic", Detail: tail(s, 4000)}, nil
	}
	return &nativeResult{Status: "error", Detail: tail(s, 2000)}, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type known struct {
	prop, label, entry, what string
}

func readKnown(path string) []known {
	b, _ := os.ReadFile(path)
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := known{}
		rest := strings.Fields(l[7:])
		i := 0
		for ; i < len(rest); i++ {
			kv := strings.SplitN(rest[i], "=", 2)
			if len(kv) != 2 {
				break
			}
			switch kv[0] {
			case "property":
				k.prop = kv[1]
			case "label":
				k.label = kv[1]
			case "entry":
				k.entry = kv[1]
			default:
				goto done
			}
		}
	done:
		k.what = strings.Join(rest[i:], " ")
		out = append(out, k)
	}
	return out
}

// confirmed reports whether a native run shows the violation.
func confirmed(v *Violation, r *nativeResult) bool {
	switch r.Status {
	case "violation":
		return true
	case "race":
		return true
	case "panic":
		return v.Kind == "panic" || strings.HasPrefix(v.Kind, "panic")
	case "deadlock":
		return v.Kind == "deadlock"
	}
	return false
}

func main() {
	flag.Parse()
	os.Exit(realMain())
}

func realMain() int {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	t0 := time.Now()
	if *flagProf != "" {
		f, _ := os.Create(*flagProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	tier := *flagTier
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	fail := func(err error) int {
		fmt.Println("ERROR:", err)
		return 2
	}
	if err := loadFacades(filepath.Join(*flagVerif, "facade")); err != nil {
		return fail(err)
	}
	if *flagGen {
		if err := genFacades(*flagVerif, *flagRepo); err != nil {
			return fail(err)
		}
		return 0
	}
	h, err := loadHarness(*flagVerif, *flagProp)
	if err != nil {
		return fail(err)
	}
	ov, err := buildOverlay(*flagRepo, *flagVerif, h)
	if err != nil {
		return fail(err)
	}
	scratch, err := os.MkdirTemp("", "vf-"+*flagProp+"-")
	if err != nil {
		return fail(err)
	}
	if !*flagKeep {
		defer os.RemoveAll(scratch)
	} else {
		fmt.Println("scratch:", scratch)
	}
	nat := &native{dir: scratch, h: h, ov: ov, bins: map[string]string{}, errs: map[string]error{}}
	entPkg := map[string]string{}
	for _, f := range h.files {
		for _, e := range f.ents {
			entPkg[e] = f.pkg
		}
	}
	if *flagWarm {
		for _, p := range h.pkgs() {
			if _, err := nat.bin(p, false); err != nil {
				return fail(err)
			}
		}
		return 0
	}
	if *flagNative {
		// build the replay binaries while the exploration runs
		go func() {
			for _, e := range entPkg {
				nat.bin(e, false)
			}
		}()
	}
	srcOv := map[string][]byte{}
	for p, b := range ov {
		if b != nil {
			srcOv[p] = b
		}
	}
	pats := []string{"./zzvf/vf"}
	for _, p := range h.pkgs() {
		pats = append(pats, "./"+p)
	}
	e, err := LoadEngine(filepath.Join(*flagRepo, "go"), srcOv, pats...)
	if err != nil {
		return fail(err)
	}
	e.debug = *flagDebug
	e.tier = tier
	e.hashPrefix = 32
	if s := h.opts["hashprefix"]; s != "" {
		e.hashPrefix, _ = strconv.Atoi(s)
	}
	if s := h.opts["maxdec"]; s != "" {
		e.maxDecisions, _ = strconv.Atoi(s)
	}
	for _, s := range strings.Split(h.opts["skipinit"], ",") {
		if s != "" {
			e.skipInit[s] = true
		}
	}
	e.races = h.opts["race"] != ""
	loadT := time.Since(t0)
	budget := 420
	if tier == "thorough" {
		budget = 1800
	}
	if s := h.opts["budget"]; s != "" && tier == "quick" {
		budget, _ = strconv.Atoi(s)
	}
	if *flagBudget > 0 {
		budget = *flagBudget
	}
	var entries []string
	for n := range entPkg {
		if *flagEntry == "" || n == *flagEntry {
			entries = append(entries, n)
		}
	}
	sort.Strings(entries)
	timeoutMs := 20000
	if tier == "thorough" {
		timeoutMs = 120000
	}
	if s := h.opts["solver_ms"]; s != "" {
		timeoutMs, _ = strconv.Atoi(s)
	}
	solverPath := "z3-new"
	if s := h.opts["solver"]; s != "" {
		solverPath = s
	}
	var ms []*Machine
	for i := 0; i < *flagWorkers; i++ {
		s := NewSolver(solverPath, timeoutMs)
		ms = append(ms, e.NewMachine(s))
		defer s.Close()
	}
	kn := readKnown(filepath.Join(*flagVerif, "known_findings.txt"))
	type entryReport struct {
		Entry      string                `json:"entry"`
		Paths      int64                 `json:"paths"`
		Completed  int64                 `json:"completed"`
		Infeasible int64                 `json:"assumption_pruned"`
		Exited     int64                 `json:"ended_by_exit"`
		Instr      int64                 `json:"ssa_instructions"`
		Exhausted  bool                  `json:"all_paths_within_bounds_explored"`
		Asserts    map[string]assertStat `json:"assertions"`
		Bounds     map[string]int        `json:"bounds,omitempty"`
		Reached    map[string]int64      `json:"witnesses,omitempty"`
		Unsupp     map[string]int        `json:"paths_given_up,omitempty"`
		Trunc      map[string]int        `json:"paths_cut,omitempty"`
		Notes      map[string]int        `json:"notes,omitempty"`
		Validated  int                   `json:"traces_validated"`
		WallS      float64               `json:"wall_s"`
	}
	var reps []entryReport
	var samples []any
	covered := map[string]bool{}
	var totPaths, totSteps, totForks, validated int64
	nViol, nUnconf, nMismatch := 0, 0, 0
	outcome := 0
	var problems []string
	pendingKnown := map[string]bool{}
	start := time.Now()
	for i, en := range entries {
		pkg := entPkg[en]
		if i > 0 && entPkg[entries[i-1]] != pkg {
			// another program: its package variables start afresh
			for j, m := range ms {
				ms[j] = e.NewMachine(m.solver)
			}
		}
		fn := e.findFunc(pkgImportPath(pkg), en)
		x := NewExplorer(e, fn)
		left := time.Duration(budget)*time.Second - time.Since(start)
		share := left / time.Duration(len(entries)-i)
		if i < len(entries)-1 {
			share *= 2
			if share > left {
				share = left
			}
		}
		x.deadline = time.Now().Add(share)
		te := time.Now()
		x.run(ms)
		for _, m := range ms {
			for fi := range m.covered {
				if fi.fn.Pkg != nil && strings.HasPrefix(fi.fn.Pkg.Pkg.Path(), modPath) && !strings.HasPrefix(fi.fn.Pkg.Pkg.Path(), facadeRoot) && !strings.HasPrefix(fi.fn.Name(), "VF_") {
					pos := e.prog.Fset.Position(fi.fn.Pos())
					if !strings.Contains(filepath.Base(pos.Filename), "zz_vf_") && fi.fn.Synthetic == "" && fi.fn.Parent() == nil {
						covered[strings.TrimPrefix(fi.fn.String(), modPath+"/")] = true
					}
				}
			}
		}
		r := entryReport{Entry: en, Paths: x.paths, Completed: x.completed, Infeasible: x.infeasible, Exited: x.exited, Instr: x.steps,
			Exhausted: !x.timedOut && !x.stop && len(x.unsupportedWhy) == 0 && len(x.truncated) == 0 && x.unknownBranches == 0,
			Asserts:   map[string]assertStat{}, Bounds: x.bounds, Reached: x.reached, Unsupp: x.unsupportedWhy, Trunc: x.truncated, Notes: x.notes}
		reachedAny := false
		for k, v := range x.asserts {
			r.Asserts[k] = *v
			if v.Reached > 0 {
				reachedAny = true
			}
		}
		totPaths += x.paths
		totSteps += x.steps
		totForks += x.forks
		// violations: replay natively
		for _, v := range x.violations {
			rf := &replayFile{Property: *flagProp, Entry: en, Tier: tier, Label: v.Kind, Where: v.Msg + " " + v.Where, Trace: v.Trace, Inputs: v.Inputs, Order: v.Order}
			conf := !*flagNative
			if *flagNative {
				tries := 1
				if len(v.Order) > 0 {
					tries = 8
				}
				if h.opts["retry"] != "" {
					tries, _ = strconv.Atoi(h.opts["retry"])
				}
				if strings.HasPrefix(v.Kind, "data race") {
					rf.Race, rf.Order, tries = true, nil, 40
				}
				for t, t0 := 0, time.Now(); t < tries && !conf && time.Since(t0) < 90*time.Second; t++ {
					nr, err := nat.run(pkg, rf)
					if err != nil {
						return fail(err)
					}
					rf.Native = nr
					conf = confirmed(v, nr)
				}
			}
			if !conf && rf.Race {
				x.notes["not confirmed by Go's race detector: "+v.Kind]++
				if *flagDebug {
					fmt.Println("not confirmed:", v.Kind, v.Msg)
				}
				continue
			}
			if !conf {
				nUnconf++
				d := ""
				if rf.Native != nil {
					d = rf.Native.Status + " " + rf.Native.Label + " " + tail(rf.Native.Detail, 600)
				}
				problems = append(problems, fmt.Sprintf("counterexample to %s in %s did not reproduce natively (%s)", v.Kind, en, firstLine(d)))
				fmt.Printf("UNCONFIRMED %s %s: %s\n", en, v.Kind, d)
				dump(rf)
				continue
			}
			kf := ""
			for _, k := range kn {
				if k.prop == *flagProp && k.label == v.Kind && (k.entry == "" || k.entry == en) {
					kf = k.what
				}
			}
			if kf != "" {
				if !pendingKnown[kf] {
					pendingKnown[kf] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *flagProp, kf)
				}
				continue
			}
			nViol++
			rd := filepath.Join(*flagVerif, "replays")
			os.MkdirAll(rd, 0755)
			p := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", *flagProp, en, nViol))
			j, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(p, j, 0644)
			if nViol <= 5 {
				dump(rf)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *flagProp, p)
			outcome = 1
		}
		// validate sample traces
		if *flagNative && len(x.traces) > 0 {
			maxT := 6
			if tier == "thorough" {
				maxT = 20
			}
			if s := h.opts["traces"]; s != "" {
				maxT, _ = strconv.Atoi(s)
			}
			ts := x.traces
			if len(ts) > maxT {
				ts = append(append([]*Trace{}, ts[:maxT/2]...), ts[len(ts)-(maxT-maxT/2):]...)
			}
			var wg sync.WaitGroup
			var mu sync.Mutex
			for _, tr := range ts {
				wg.Add(1)
				go func(tr *Trace) {
					defer wg.Done()
					rf := &replayFile{Property: *flagProp, Entry: en, Tier: tier, Inputs: tr.Inputs}
					nr, err := nat.run(pkg, rf)
					// real goroutine schedules and map orders vary
					for t := 0; t < 3 && err == nil && !(nr.Status == "ok" && sameObs(tr.Obs, nr.Obs)); t++ {
						nr, err = nat.run(pkg, rf)
					}
					mu.Lock()
					defer mu.Unlock()
					if err != nil {
						problems = append(problems, err.Error())
						return
					}
					if nr.Status == "ok" && sameObs(tr.Obs, nr.Obs) {
						validated++
						r.Validated++
						return
					}
					nMismatch++
					if nMismatch <= 4 {
						rf.Native = nr
						fmt.Printf("TRACE MISMATCH %s: native %s %s %s\n engine obs %v\n native obs %v\n", en, nr.Status, nr.Label, tail(nr.Detail, 1500), tr.Obs, nr.Obs)
						dump(rf)
					}
				}(tr)
			}
			wg.Wait()
		}
		if len(samples) < 6 && len(x.traces) > 0 {
			samples = append(samples, map[string]any{"entry": en, "inputs": clip(x.traces[len(x.traces)-1].Inputs), "observed": clipObs(x.traces[len(x.traces)-1].Obs)})
		}
		r.WallS = time.Since(te).Seconds()
		reps = append(reps, r)
		fmt.Printf("%s: paths=%d completed=%d pruned=%d exit=%d forks=%d instr=%d exhausted=%v validated=%d %.1fs\n", en, x.paths, x.completed, x.infeasible, x.exited, x.forks, x.steps, r.Exhausted, r.Validated, r.WallS)
		for _, k := range sortedKeys(x.asserts) {
			s := x.asserts[k]
			fmt.Printf("   assert %-40s reached=%d folded=%d proved=%d unknown=%d violated=%d\n", k, s.Reached, s.Trivial, s.Proved, s.Unknown, s.Violated)
		}
		for _, k := range sortedKeys(x.unsupportedWhy) {
			fmt.Printf("   gave up: %d x %s\n", x.unsupportedWhy[k], k)
		}
		for _, k := range sortedKeys(x.truncated) {
			fmt.Printf("   cut: %d x %s\n", x.truncated[k], k)
		}
		if x.timedOut {
			fmt.Printf("   time budget reached with %d prefixes left\n", len(x.stack))
		}
		if !reachedAny && len(x.violations) == 0 {
			problems = append(problems, "no assertion reached in "+en)
		}
		// share of paths given up must stay small
		var gu int
		for _, n := range x.unsupportedWhy {
			gu += n
		}
		if x.completed+x.exited == 0 && gu > 0 && len(x.violations) == 0 {
			problems = append(problems, "every path given up in "+en)
		}
		if outcome == 1 && nViol >= 4 {
			break
		}
	}
	var allUnknown int64
	for _, r := range reps {
		for _, a := range r.Asserts {
			allUnknown += a.Unknown
		}
	}
	fns := sortedKeys(covered)
	if samples == nil {
		samples = []any{"no path completed"}
	}
	level := "model_checking"
	if s := h.opts["level"]; s != "" {
		level = s
	}
	ev := map[string]any{
		"property": *flagProp, "tier": tier, "seed": seed, "level": level, "wall_s": time.Since(t0).Seconds(), "violations": nViol,
		"coverage": map[string]any{
			"states": totForks + totPaths, "transitions": totSteps, "traces_validated_against_impl": validated,
			"paths": totPaths, "samples": samples, "functions_encoded": fns, "entries": reps,
			"solver":             map[string]any{"program": solverPath, "timeout_ms": timeoutMs, "queries": atomic.LoadInt64(&statQueries), "sat": statSat, "unsat": statUnsat, "unknown": statUnknown, "decided_by_cvc5": statSecond, "solver_s_all_workers": float64(statSolverNs) / 1e9},
			"unknown_assertions": allUnknown, "load_s": loadT.Seconds(), "trace_mismatches": nMismatch, "unconfirmed": nUnconf,
			"exhaustive": allExhausted(len(reps), func(i int) bool { return reps[i].Exhausted }),
		},
		"assumptions": []string{
			"bounds and stubs are those listed per entry and in DESIGN.md; nothing is claimed outside them",
			"the symbolic machine executes the SSA of the current source; SHA-256 is an uninterpreted collision-free function",
			"os, time, net/http, redis, glog, metrics, CT clients and parsers using reflection are models (facade/)",
		},
	}
	for {
		j, _ := json.MarshalIndent(ev, "", " ")
		if len(j) < 60000 {
			out := *flagOut
			if out == "" {
				out = filepath.Join(*flagVerif, "evidence", *flagProp+".json")
			}
			os.MkdirAll(filepath.Dir(out), 0755)
			if err := os.WriteFile(out, j, 0644); err != nil {
				return fail(err)
			}
			break
		}
		cov := ev["coverage"].(map[string]any)
		if len(samples) > 1 {
			samples = samples[:len(samples)-1]
			cov["samples"] = samples
		} else if len(fns) > 20 {
			fns = fns[:len(fns)/2]
			cov["functions_encoded"] = fns
		} else {
			cov["entries"] = fmt.Sprintf("%d entries (too long to list)", len(reps))
			samples = []any{"too long"}
			cov["samples"] = samples
		}
	}
	var mst runtime.MemStats
	runtime.ReadMemStats(&mst)
	fmt.Printf("%s %s: paths=%d queries=%d (sat %d unsat %d unknown %d) solver=%.1fs wall=%.1fs load=%.1fs mem=%dMB validated=%d mismatches=%d\n", *flagProp, tier, totPaths, statQueries, statSat, statUnsat, statUnknown, float64(statSolverNs)/1e9, time.Since(t0).Seconds(), loadT.Seconds(), mst.Sys>>20, validated, nMismatch)
	if outcome == 1 {
		return 1
	}
	if nMismatch > 0 {
		problems = append(problems, fmt.Sprintf("%d sample traces behave differently natively", nMismatch))
	}
	if len(problems) > 0 {
		for _, p := range problems {
			fmt.Println("PROBLEM:", p)
		}
		return 2
	}
	return 0
}

func allExhausted(n int, f func(int) bool) bool {
	for i := 0; i < n; i++ {
		if !f(i) {
			return false
		}
	}
	return n > 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func pkgImportPath(p string) string {
	if p == "." || p == "" {
		return modPath
	}
	return modPath + "/" + p
}

func dump(rf *replayFile) {
	fmt.Printf("  entry %s label %s\n  at %s\n", rf.Entry, rf.Label, rf.Where)
	for _, i := range rf.Inputs {
		if i.Kind == "bytes" {
			fmt.Printf("    %s = %x\n", i.Name, i.B)
		} else {
			fmt.Printf("    %s = %d\n", i.Name, int64(i.U))
		}
	}
	for _, t := range rf.Trace {
		fmt.Println("    obs", t)
	}
	if rf.Native != nil {
		fmt.Printf("    native: %s %s\n", rf.Native.Status, rf.Native.Label)
	}
}

func clip(in []ReplayInput) []string {
	var out []string
	for i, x := range in {
		if i >= 40 {
			out = append(out, fmt.Sprintf("... %d more", len(in)-i))
			break
		}
		if x.Kind == "bytes" {
			b := x.B
			s := ""
			if len(b) > 40 {
				b, s = b[:40], "..."
			}
			out = append(out, fmt.Sprintf("%s=%x%s", x.Name, b, s))
		} else {
			out = append(out, fmt.Sprintf("%s=%d", x.Name, int64(x.U)))
		}
	}
	return out
}

func clipObs(in []ObsVal) []string {
	var out []string
	for i, x := range in {
		if i >= 20 {
			break
		}
		v := x.Val
		if len(v) > 80 {
			v = v[:80] + "..."
		}
		out = append(out, x.Name+"="+v)
	}
	return out
}

func sameObs(a, b []ObsVal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var _ = ssa.NaiveForm
