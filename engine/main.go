package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"
)

type harnessCfg struct {
	Bounds  string `json:"bounds"`
	Quick   int    `json:"quick"`    // seconds
	Thor    int    `json:"thorough"` // seconds
	Samples int    `json:"samples"`
	Depth   int    `json:"depth"`
	Steps   int64  `json:"steps"`
}

type propCfg struct {
	Property    string                `json:"property"`
	Quick       int                   `json:"quick"`
	Thorough    int                   `json:"thorough"`
	Harnesses   map[string]harnessCfg `json:"harnesses"`
	Assumptions []string              `json:"assumptions"`
}

type finding struct {
	id, property, text string
}

func readFindings(path string) map[string]finding {
	out := map[string]finding{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		f := strings.SplitN(l, " ", 3)
		if len(f) == 3 {
			out[f[0]] = finding{f[0], strings.TrimPrefix(f[1], "property="), f[2]}
		}
	}
	return out
}

type nativeResult struct {
	out      string
	fails    []string
	obs      []string
	panicked bool
	hung     bool
	overflow bool
	desync   bool
	assume   bool
}

func (e *engine) runNative(bin, harness, file string, timeout time.Duration) nativeResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, harness, file)
	dir, err := os.MkdirTemp("", "zzreplay")
	if err == nil {
		defer os.RemoveAll(dir)
		cmd.Dir = dir
	}
	var buf bytes.Buffer
	cmd.Stdout = &limited{b: &buf}
	cmd.Stderr = &limited{b: &buf}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=none", "ZZ_TIER="+os.Getenv("ZZ_TIER"))
	err = cmd.Run()
	r := nativeResult{out: buf.String()}
	if ctx.Err() != nil {
		r.hung = true
	}
	for _, l := range strings.Split(r.out, "\n") {
		switch {
		case strings.HasPrefix(l, "FAIL "):
			r.fails = append(r.fails, strings.Fields(l)[1])
		case strings.HasPrefix(l, "OBS "):
			r.obs = append(r.obs, l[4:])
		case strings.HasPrefix(l, "PANIC "), strings.HasPrefix(l, "panic: "):
			r.panicked = true
		case strings.Contains(l, "stack overflow"), strings.Contains(l, "goroutine stack exceeds"):
			r.overflow = true
		case strings.HasPrefix(l, "DESYNC"):
			r.desync = true
		case l == "ASSUME":
			r.assume = true
		}
	}
	return r
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// confirm runs a counterexample against the natively compiled real code.
func (e *engine) confirm(bin string, v *violation, file string) (bool, string) {
	n := 1
	if v.MapOrd {
		n = 150
	}
	last := ""
	for i := 0; i < n; i++ {
		r := e.runNative(bin, v.Harness, file, 30*time.Second)
		last = r.out
		if v.Kind == "assert" && slices.Contains(r.fails, v.ID) {
			// What follows it may need further inputs.
			return true, r.out
		}
		if r.desync {
			return false, "desync: " + r.out
		}
		switch v.Kind {
		case "assert":
			for _, f := range r.fails {
				if f == v.ID {
					return true, r.out
				}
			}
			if r.panicked || r.overflow || r.hung {
				return true, r.out
			}
		case "panic":
			if r.panicked || r.overflow {
				return true, r.out
			}
		default:
			if r.overflow || r.hung {
				return true, r.out
			}
		}
		if i == 0 && !v.MapOrd && len(r.fails) > 0 {
			return true, r.out
		}
	}
	return false, last
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	only := flag.String("only", "", "run only harnesses containing this")
	dbg := flag.Bool("debug", false, "engine debugging")
	dbgInit := flag.Bool("debuginit", false, "print initialiser failures")
	nworkers := flag.Int("workers", 8, "workers")
	secs := flag.Int("seconds", 0, "override the time per harness")
	work := flag.String("work", "", "scratch directory")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	debug.SetMaxStack(8 << 30)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	os.Setenv("ZZ_TIER", *tier)
	start := time.Now()
	pkg := strings.ToLower(*prop)
	cfgb, err := os.ReadFile(filepath.Join(*verif, "harness", pkg, "config.json"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var cfg propCfg
	if err := json.Unmarshal(cfgb, &cfg); err != nil {
		fmt.Println("config:", err)
		os.Exit(2)
	}
	if *work == "" {
		*work = filepath.Join(*verif, "work", pkg)
	}
	e := &engine{repo: *repo, verif: *verif, maxSamples: 8, sampleEvery: 1, maxSteps: 120e6, maxDepth: 3000, debug: *dbg, debugInit: *dbgInit, thorough: *tier == "thorough"}
	if p, err := exec.LookPath("z3-new"); err == nil {
		e.z3 = p
	} else {
		e.z3 = "z3"
	}
	e.setupGo()
	if err := e.buildOverlay(pkg); err != nil {
		fmt.Println("overlay:", err)
		os.Exit(2)
	}
	var bin string
	var berr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		bin, berr = e.buildReplay(pkg, *work)
	}()
	if err := e.load(pkg); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	wg.Wait()
	if berr != nil {
		fmt.Println(berr)
		os.Exit(2)
	}
	loadT := time.Since(start)
	names, err := harnessNames(filepath.Join(*verif, "harness", pkg))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	findings := readFindings(filepath.Join(*verif, "known_findings.txt"))

	workers := make([]*worker, *nworkers)
	for i := range workers {
		w := &worker{eng: e, id: i, lemmas: map[lemma]bool{}}
		w.prog = newProgState(w)
		w.sol = newSolver(e.z3, "-in")
		workers[i] = w
	}
	defer func() {
		for _, w := range workers {
			w.sol.close()
		}
	}()

	type hres struct {
		Name         string                 `json:"harness"`
		Bounds       string                 `json:"bounds"`
		Paths        int64                  `json:"paths"`
		Completed    int64                  `json:"completed"`
		AssumedAway  int64                  `json:"cut_by_assumption"`
		Decisions    int64                  `json:"decisions"`
		Instructions int64                  `json:"instructions"`
		Asserts      map[string]*assertStat `json:"assertions"`
		Reach        map[string]int64       `json:"reached,omitempty"`
		Unsupported  map[string]int64       `json:"unsupported,omitempty"`
		Dropped      int64                  `json:"unexplored"`
		Unknowns     int64                  `json:"solver_unknown"`
		Exhaustive   bool                   `json:"exhaustive"`
		Seconds      float64                `json:"seconds"`
	}
	var results []hres
	funcs := map[string]bool{}
	var samples []any
	traces, traceMism := 0, 0
	var viols, knownLines, unconfirmed []string
	seenKnown := map[string]bool{}
	var totPaths, totDec, totSteps int64
	exhaustive := true
	incomplete := false
	os.MkdirAll(filepath.Join(*verif, "replays"), 0o755)

	total := cfg.Quick
	if *tier == "thorough" {
		total = cfg.Thorough
	}
	if total == 0 {
		total = 60
		if *tier == "thorough" {
			total = 600
		}
	}
	var run []string
	for _, n := range names {
		if *only == "" || strings.Contains(n, *only) {
			run = append(run, n)
		}
	}
	exploreStart := time.Now()
	for hi, name := range run {
		hc := cfg.Harnesses[name]
		left := time.Duration(total)*time.Second - time.Since(exploreStart)
		share := left / time.Duration(len(run)-hi) * 2
		if hi == len(run)-1 {
			share = left
		}
		if share > left {
			share = left
		}
		if hc.Quick > 0 && *tier == "quick" {
			share = time.Duration(hc.Quick) * time.Second
		}
		if hc.Thor > 0 && *tier == "thorough" {
			share = time.Duration(hc.Thor) * time.Second
		}
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		if *secs > 0 {
			share = time.Duration(*secs) * time.Second
		}
		hs := time.Now()
		x := &explorer{eng: e, harness: name, asserts: map[string]*assertStat{}, reach: map[string]int64{}, unsup: map[string]int64{}, violKey: map[string]int{}, deadline: time.Now().Add(share)}
		x.cond = sync.NewCond(&x.mu)
		x.queue = []*workItem{{}}
		fn := e.pkgs[modPath+"/zzverif/"+pkg].Func(name)
		var wgw sync.WaitGroup
		for _, w := range workers {
			w := w
			w.x = x
			w.funcs = map[*cfunc]bool{}
			w.maxSteps, w.maxDepth = e.maxSteps, e.maxDepth
			if hc.Depth > 0 {
				w.maxDepth = hc.Depth
			}
			if hc.Steps > 0 {
				w.maxSteps = hc.Steps
			}
			wgw.Add(1)
			go func() {
				defer wgw.Done()
				f := w.prog.get(fn)
				for {
					it := x.pop()
					if it == nil {
						return
					}
					w.runPath(it, f)
					x.done()
				}
			}()
		}
		wgw.Wait()
		for _, w := range workers {
			for f := range w.prog.funcs {
				c := w.prog.funcs[f]
				if c.compiled && c.repo {
					funcs[c.name] = true
				}
			}
		}
		r := hres{Name: name, Bounds: hc.Bounds, Paths: x.paths, Completed: x.completed, AssumedAway: x.assumed, Decisions: x.decisions, Instructions: x.steps, Asserts: x.asserts, Reach: x.reach, Unsupported: x.unsup, Dropped: x.dropped, Unknowns: x.unknowns, Seconds: time.Since(hs).Seconds()}
		r.Exhaustive = x.dropped == 0 && len(x.unsup) == 0 && x.unknowns == 0
		if !r.Exhaustive {
			exhaustive = false
		}
		for _, s := range x.asserts {
			if s.Unknown > 0 {
				exhaustive = false
			}
		}
		if x.completed == 0 && len(x.violations) == 0 {
			incomplete = true
		}
		totPaths += x.paths
		totDec += x.decisions
		totSteps += x.steps
		results = append(results, r)
		if *verbose || len(x.unsup) > 0 || x.dropped > 0 {
			fmt.Printf("%s: %d paths, %d completed, %d assumed away, %d unexplored, %d solver unknowns, %.1fs\n", name, x.paths, x.completed, x.assumed, x.dropped, x.unknowns, r.Seconds)
			for _, k := range sortedKeys(x.unsup) {
				fmt.Printf("  unsupported x%d: %s\n", x.unsup[k], k)
			}
			if *verbose {
				for _, k := range sortedKeys(x.asserts) {
					s := x.asserts[k]
					fmt.Printf("  assert %s: %+v\n", k, *s)
				}
				for _, k := range sortedKeys(x.reach) {
					fmt.Printf("  reach %s: %d\n", k, x.reach[k])
				}
			}
		}
		// counterexamples
		sort.SliceStable(x.violations, func(i, j int) bool { return len(x.violations[i].Inputs) < len(x.violations[j].Inputs) })
		done := map[string]bool{}
		tries := map[string]int{}
		for _, v := range x.violations {
			key := v.Kind + "|" + v.ID + "|" + v.Known
			if done[key] || tries[key] >= 3 {
				continue
			}
			tries[key]++
			file := filepath.Join(*verif, "replays", fmt.Sprintf("%s-%s-%s-%d.json", *prop, name, strings.Map(safeName, v.ID), tries[key]))
			b, _ := json.MarshalIndent(v.Inputs, "", " ")
			os.WriteFile(file, b, 0o644)
			ok, out := e.confirm(bin, v, file)
			desc := fmt.Sprintf("%s %s %s: %s", name, v.Kind, v.ID, v.Msg)
			if !ok {
				unconfirmed = append(unconfirmed, desc+" "+file)
				if *verbose {
					fmt.Printf("UNCONFIRMED %s\n  inputs %s\n  native: %s\n", desc, b, out)
				}
				continue
			}
			done[key] = true
			if f, listed := findings[v.Known]; v.Known != "" && listed && f.property == *prop {
				if !seenKnown[f.id] {
					seenKnown[f.id] = true
					knownLines = append(knownLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s %s", *prop, f.id, f.text))
				}
				continue
			}
			viols = append(viols, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, file))
			fmt.Printf("counterexample: %s\n  inputs: %s\n", desc, describe(v.Inputs))
			if *verbose {
				fmt.Println(out)
			}
		}
		// sampled passing paths are run natively and their observations compared
		for i, s := range x.samples {
			file := filepath.Join(*work, fmt.Sprintf("sample-%s-%d.json", name, i))
			b, _ := json.Marshal(s.Inputs)
			os.WriteFile(file, b, 0o644)
			nr := e.runNative(bin, name, file, 60*time.Second)
			traces++
			bad := ""
			switch {
			case nr.desync || nr.assume:
				bad = "native run left the path: " + nr.out
			case len(nr.fails) > 0 && !x.failedID(nr.fails[0]):
				viols = append(viols, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, keepReplay(*verif, *prop, name, i, b)))
				fmt.Printf("counterexample (native run of a sampled path): %s %v\n  inputs: %s\n", name, nr.fails, describe(s.Inputs))
			case nr.panicked || nr.overflow || nr.hung:
				viols = append(viols, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, keepReplay(*verif, *prop, name, i, b)))
				fmt.Printf("counterexample (native run of a sampled path): %s panicked: %s\n  inputs: %s\n", name, nr.out, describe(s.Inputs))
			case strings.Join(nr.obs, "\n") != strings.Join(s.Obs, "\n") && !s.MapOrd:
				bad = fmt.Sprintf("observations differ\n  engine %q\n  native %q", s.Obs, nr.obs)
			}
			if bad != "" {
				traceMism++
				fmt.Printf("MISMATCH %s: %s\n  inputs: %s\n", name, bad, describe(s.Inputs))
			}
			if len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": name, "inputs": describe(s.Inputs), "observed": s.Obs})
			}
			os.Remove(file)
		}
	}
	var q, qs, qu, qk int64
	var st time.Duration
	for _, w := range workers {
		q += w.sol.queries
		qs += w.sol.sat
		qu += w.sol.unsat
		qk += w.sol.unknown
		st += w.sol.elapsed
		w.sol.close()
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath, "astra"))
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []any{}
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": totPaths, "transitions": totDec, "traces_validated_against_impl": traces, "samples": samples,
			"exhaustive":        exhaustive,
			"explanation":       "states: symbolic paths of the harness over the real code, each standing for every input that follows it; transitions: branch decisions resolved by the solver, the byte-domain procedure or a choice; traces: completed paths whose concrete inputs were run through the natively compiled code with equal observations.",
			"functions_encoded": fl, "harnesses": results,
			"solver":       map[string]any{"name": filepath.Base(e.z3), "queries": q, "sat": qs, "unsat": qu, "unknown": qk, "seconds": st.Seconds()},
			"instructions": totSteps, "trace_mismatches": traceMism, "unconfirmed_counterexamples": unconfirmed,
			"known_findings": knownLines, "load_seconds": loadT.Seconds(), "overlay_hash": hashFiles(e.overlay),
		},
		"assumptions": cfg.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viols),
	}
	if cfg.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644)
	for _, l := range knownLines {
		fmt.Println(l)
	}
	for _, l := range unconfirmed {
		fmt.Println("UNCONFIRMED", l)
	}
	fmt.Printf("%s: %d paths, %d decisions, %d queries (%.1fs solver), %d traces validated, %d mismatches, %d functions, exhaustive=%v, %.1fs (load %.1fs)\n", *prop, totPaths, totDec, q, st.Seconds(), traces, traceMism, len(fl), exhaustive, time.Since(start).Seconds(), loadT.Seconds())
	if len(viols) > 0 {
		for _, l := range viols {
			fmt.Println(l)
		}
		os.Exit(1)
	}
	if incomplete {
		fmt.Println("INCONCLUSIVE: a harness completed no path")
		os.Exit(2)
	}
	runtime.KeepAlive(workers)
}

func (x *explorer) failedID(id string) bool {
	for _, v := range x.violations {
		if v.ID == id {
			return true
		}
	}
	return false
}

func keepReplay(verif, prop, name string, i int, b []byte) string {
	f := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-sample-%d.json", prop, name, i))
	os.WriteFile(f, b, 0o644)
	return f
}

func safeName(r rune) rune {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
		return r
	}
	return '_'
}

func describe(in []replayInput) string {
	var sb strings.Builder
	for i, x := range in {
		if i > 0 {
			sb.WriteString(" ")
		}
		if x.Kind == "s" {
			fmt.Fprintf(&sb, "%s=%q", x.Name, x.S)
		} else {
			fmt.Fprintf(&sb, "%s=%d", x.Name, x.I)
		}
	}
	if sb.Len() > 2000 {
		return sb.String()[:2000] + "…"
	}
	return sb.String()
}
