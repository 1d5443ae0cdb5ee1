// Command engine decides properties of Go code by symbolic execution of its
// SSA form: see /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Run is one exploration of one harness function.
type Run struct {
	Name      string         `json:"name"`
	Pkg       string         `json:"pkg"`
	Fn        string         `json:"fn"`
	Params    map[string]int `json:"params"`
	Preempt   int            `json:"preempt"`
	Stmt      []string       `json:"stmt"` // directories instrumented at statement level
	MapNondet bool           `json:"mapnondet"`
	MaxSteps  int            `json:"maxsteps"`
	Budget    float64        `json:"budget"`
	Reach     []string       `json:"reach"`
	Solver    string         `json:"solver"`
	Cross     string         `json:"cross"`
	Witnesses int            `json:"witnesses"`
	Bounds    string         `json:"bounds"`
	Closure   bool           `json:"closure"` // all interleavings, by closure
}

type Check struct {
	Title       string   `json:"title"`
	Technique   string   `json:"technique"`
	LevelNote   string   `json:"level_note"`
	Assumptions []string `json:"assumptions"`
	Outside     string   `json:"outside"`
	Quick       []Run    `json:"quick"`
	Thorough    []Run    `json:"thorough"`
}

var (
	repo     = "/repo"
	verif    = "/verif"
	verbose  = flag.Bool("v", false, "verbose")
	only     = flag.String("run", "", "only this run")
	tier     = flag.String("tier", "", "quick or thorough")
	workers  = flag.Int("j", 0, "workers")
	crossF   = flag.String("cross", "", "a second solver (z3-new, cvc5) that has to agree")
	keep     = flag.Bool("keep", false, "keep the scratch directory")
	cpuprof  = flag.String("cpuprofile", "", "write a CPU profile")
	budget   = flag.Float64("budget", 0, "override the time budget per run")
	paramsFl = flag.String("p", "", "override parameters k=v,k=v")
	walks    = flag.Int("walks", 4, "random interleavings run after each closure to check it")
	maxViolF = flag.Int("maxviol", 3, "stop after that many violations")
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine PROPERTY [flags]")
		os.Exit(2)
	}
	prop := os.Args[1]
	file := ""
	if prop == "replay" && len(os.Args) > 2 {
		file = os.Args[2]
	} else {
		flag.CommandLine.Parse(os.Args[2:])
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repo = d
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verif = d
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
	}
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if file != "" {
		os.Exit(replayFile(file))
	}
	modFlags()
	code := check(prop)
	if modFile != "" {
		os.RemoveAll(filepath.Dir(modFile))
	}
	if *cpuprof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func fail(f string, a ...any) int {
	fmt.Printf("ERROR "+f+"\n", a...)
	return 2
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

var modFile string

// modFlags redirects the harness module to a repository other than /repo.
func modFlags() []string {
	if repo == "/repo" {
		return nil
	}
	if modFile == "" {
		d, err := os.MkdirTemp("", "verifmod")
		if err != nil {
			panic(err)
		}
		b, _ := os.ReadFile(filepath.Join(verif, "harness", "go.mod"))
		modFile = filepath.Join(d, "go.mod")
		os.WriteFile(modFile, []byte(strings.ReplaceAll(string(b), "=> /repo", "=> "+repo)), 0o644)
	}
	return []string{"-modfile=" + modFile}
}

func load(dir string, pkgs []string, overlay map[string][]byte) (*ssa.Program, map[string]*ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv(), Overlay: overlay, BuildFlags: modFlags()}
	ps, err := packages.Load(cfg, pkgs...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	m := map[string]*ssa.Package{}
	for i, p := range sp {
		m[ps[i].PkgPath] = p
	}
	return prog, m, nil
}

// pathInits lists the packages initialised on every path, dependencies first.
func pathInits(prog *ssa.Program, p *ssa.Package) []*ssa.Package {
	var out []*ssa.Package
	seen := map[*ssa.Package]bool{}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		for _, im := range p.Pkg.Imports() {
			visit(prog.Package(im))
		}
		path := p.Pkg.Path()
		if strings.HasPrefix(path, "github.com/zenazn/goji") || strings.HasPrefix(path, "verif/") {
			out = append(out, p)
		}
	}
	visit(p)
	return out
}

type finding struct {
	v    *Violation
	run  *Run
	path string
	out  string
}

type runStats struct {
	Name         string         `json:"run"`
	Harness      string         `json:"harness"`
	Params       map[string]int `json:"params,omitempty"`
	Bounds       string         `json:"bounds,omitempty"`
	Preemptions  int            `json:"preemption_bound"`
	StmtLevel    []string       `json:"statement_level,omitempty"`
	Paths        int            `json:"paths"`
	Infeasible   int            `json:"assumption_killed_paths"`
	Steps        int            `json:"instructions"`
	Forks        int            `json:"forks"`
	Asserts      int            `json:"assertions_checked"`
	Proved       int            `json:"assertions_proved_by_solver"`
	Concrete     int            `json:"assertions_constant_on_path"`
	Queries      int            `json:"queries"`
	SatN         int            `json:"sat"`
	UnsatN       int            `json:"unsat"`
	UnknownN     int            `json:"unknown"`
	Cross        string         `json:"second_solver,omitempty"`
	CrossSame    int            `json:"second_solver_same_verdict,omitempty"`
	CrossUnk     int            `json:"second_solver_no_verdict,omitempty"`
	SolverS      float64        `json:"solver_s"`
	WallS        float64        `json:"wall_s"`
	SymbolicVars int            `json:"max_symbolic_values_on_a_path"`
	Exhaustive   bool           `json:"exhaustive_within_bounds"`
	Inconclusive map[string]int `json:"inconclusive,omitempty"`
	Reach        map[string]int `json:"reached"`
	Validated    int            `json:"witnesses_replayed_natively"`
	Closure      *closureStats  `json:"interleavings_by_closure,omitempty"`
}

type closureStats struct {
	Closed  int     `json:"closed"`
	Execs   int     `json:"executions"`
	Blocks  int     `json:"blocks"`
	MaxSize int     `json:"most_blocks_in_one"`
	Walks   int     `json:"random_interleavings_found_inside"`
	Queries int     `json:"interleaving_queries"`
	Sat     int     `json:"sat"`
	Unsat   int     `json:"unsat"`
	SolverS float64 `json:"solver_s"`
	EncodeS float64 `json:"encode_s"`
}

var solverArgv = map[string][]string{
	"z3":     {"z3", "-in"},
	"z3-new": {"z3-new", "-in"},
	"cvc5":   {"cvc5", "--incremental", "--lang=smt2", "--tlimit-per=30000"},
}

func check(prop string) int {
	start := time.Now()
	var checks map[string]*Check
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err != nil {
		return fail("%v", err)
	}
	if err := json.Unmarshal(b, &checks); err != nil {
		return fail("checks.json: %v", err)
	}
	ck := checks[prop]
	if ck == nil {
		return fail("no check for %s", prop)
	}
	runs := ck.Quick
	if *tier == "thorough" && len(ck.Thorough) > 0 {
		runs = ck.Thorough
	}
	if *only != "" {
		var r []Run
		for _, x := range append(append([]Run(nil), ck.Quick...), ck.Thorough...) {
			if x.Name == *only {
				r = append(r, x)
				break
			}
		}
		runs = r
	}
	if len(runs) == 0 {
		return fail("no runs for %s", prop)
	}
	for i := range runs {
		r := &runs[i]
		if r.Solver == "" {
			r.Solver = "z3"
		}
		if *crossF != "" {
			r.Cross = *crossF
		} else if r.Cross == "" && *tier == "thorough" {
			r.Cross = "cvc5"
		}
		if r.Witnesses == 0 {
			r.Witnesses = 1
		}
		if r.MaxSteps == 0 {
			r.MaxSteps = 2_000_000
		}
		if r.Budget == 0 {
			r.Budget = 100
			if *tier == "thorough" {
				r.Budget = 400
			}
		}
		if *budget > 0 {
			r.Budget = *budget
		}
		if *paramsFl != "" {
			if r.Params == nil {
				r.Params = map[string]int{}
			}
			for _, kv := range strings.Split(*paramsFl, ",") {
				k, v, _ := strings.Cut(kv, "=")
				n, _ := strconv.Atoi(v)
				switch k {
				case "preempt":
					r.Preempt = n
				case "closure":
					r.Closure = n != 0
				case "stmt":
					if n == 0 {
						r.Stmt = nil
					}
				default:
					r.Params[k] = n
				}
			}
		}
	}
	for i := range runs {
		if runs[i].Closure {
			runs[i].Preempt = 1 << 30
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		return fail("%v", err)
	}
	if !*keep {
		defer os.RemoveAll(tmp)
	} else {
		fmt.Println("scratch", tmp)
	}

	// one program per statement-instrumentation set
	type group struct {
		stmt map[string]bool
		runs []int
	}
	groups := map[string]*group{}
	var order []string
	for i := range runs {
		sort.Strings(runs[i].Stmt)
		k := strings.Join(runs[i].Stmt, ",")
		if groups[k] == nil {
			m := map[string]bool{}
			for _, s := range runs[i].Stmt {
				m[s] = true
			}
			groups[k] = &group{stmt: m}
			order = append(order, k)
		}
		groups[k].runs = append(groups[k].runs, i)
	}

	stats := make([]*runStats, len(runs))
	funcs := map[string]int{}
	assumes := map[string]bool{}
	var viols, incon []*finding
	type pass struct {
		v   *Violation
		run *Run
		bin string
	}
	var passes []pass
	bins := map[string]string{}
	var bmu sync.Mutex
	builds := map[string]chan error{}
	for gi, k := range order {
		g := groups[k]
		gdir := filepath.Join(tmp, "g"+strconv.Itoa(gi))
		os.MkdirAll(gdir, 0o755)
		overlay, ovFile, err := instrument(repo, gdir, g.stmt)
		if err != nil {
			return fail("instrument: %v", err)
		}
		pk := map[string]bool{}
		for _, i := range g.runs {
			pk["verif/harness/"+runs[i].Pkg] = true
		}
		var pkgs []string
		for p := range pk {
			pkgs = append(pkgs, p)
			bin := filepath.Join(gdir, strings.ReplaceAll(strings.TrimPrefix(p, "verif/harness/"), "/", "_"))
			key := k + "|" + strings.TrimPrefix(p, "verif/harness/")
			bmu.Lock()
			bins[key] = bin
			ch := make(chan error, 1)
			builds[key] = ch
			bmu.Unlock()
			go func() {
				c := exec.Command("go", append(append([]string{"build"}, modFlags()...), "-overlay", ovFile, "-o", bin, p)...)
				c.Dir = filepath.Join(verif, "harness")
				c.Env = goEnv()
				out, err := c.CombinedOutput()
				if err != nil {
					err = fmt.Errorf("%v: %s", err, out)
				}
				ch <- err
			}()
		}
		sort.Strings(pkgs)
		t0 := time.Now()
		prog, sps, err := load(filepath.Join(verif, "harness"), pkgs, overlay)
		if err != nil {
			return fail("load: %v", err)
		}
		if *verbose {
			fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
		}
		for _, i := range g.runs {
			r := &runs[i]
			sp := sps["verif/harness/"+r.Pkg]
			fn := sp.Func(r.Fn)
			if fn == nil {
				return fail("no function %s in %s", r.Fn, r.Pkg)
			}
			cfg := &Config{Entry: fn, Inits: pathInits(prog, sp), SolverMs: 30000, MaxSteps: r.MaxSteps, MaxPreempt: r.Preempt,
				StmtMode: len(r.Stmt) > 0, MapNondet: r.MapNondet, Budget: time.Duration(r.Budget * float64(time.Second)),
				MaxViol: *maxViolF, Witnesses: r.Witnesses, Params: r.Params, Verbose: *verbose, Seed: seed, Closure: r.Closure, ClosureBegin: r.Params["begin"] != 0, Walks: *walks}
			cfg.Solver = solverArgv[r.Solver]
			cfg.Cross = solverArgv[r.Cross]
			res := explore(prog, cfg, *workers)
			if res.CrossSame+res.CrossUnk > 0 {
				fmt.Printf("  second solver %s: %d same verdicts, %d without a verdict\n", r.Cross, res.CrossSame, res.CrossUnk)
			}
			st := &runStats{Name: r.Name, Harness: r.Pkg + "." + r.Fn, Params: r.Params, Bounds: r.Bounds, Preemptions: r.Preempt, StmtLevel: r.Stmt,
				Paths: res.Paths, Infeasible: res.Killed, Steps: res.Steps, Forks: res.Forks, Asserts: res.Asserts, Proved: res.Proved,
				Concrete: res.ConcreteAsserts, Queries: res.Queries, SatN: res.Sat, UnsatN: res.Unsat, UnknownN: res.Unk, Cross: r.Cross, CrossSame: res.CrossSame, CrossUnk: res.CrossUnk,
				SolverS: res.SolverTime.Seconds(), WallS: res.Wall.Seconds(), SymbolicVars: res.Nondets, Inconclusive: nz(res.Inconclusive),
				Reach: res.Reach, Exhaustive: !res.OutOfBudget && len(nz(res.Inconclusive)) == 0}
			if r.Closure {
				c := &closureStats{Closed: res.Closures, Execs: res.ClosureExecs, Blocks: res.ClosureNodes, MaxSize: res.ClosureMax, Walks: res.ClosureWalks,
					Queries: res.ClosureQueries, Sat: res.ClosureSat, Unsat: res.ClosureUnsat, SolverS: res.ClosureSolver.Seconds(),
					EncodeS: (res.ClosureTime - res.ClosureSolver).Seconds()}
				st.Closure = c
				st.Queries += c.Queries
				st.SatN += c.Sat
				st.UnsatN += c.Unsat
				st.SolverS += c.SolverS
				fmt.Printf("  closure: closed=%d executions=%d blocks=%d most=%d queries=%d sat=%d unsat=%d solver=%.1fs encode=%.1fs\n", c.Closed, c.Execs,
					c.Blocks, c.MaxSize, c.Queries, c.Sat, c.Unsat, c.SolverS, c.EncodeS)
			}
			stats[i] = st
			for f, n := range res.Funcs {
				funcs[f] += n
			}
			for a := range res.Assumes {
				assumes[a] = true
			}
			if *verbose {
				js, _ := json.MarshalIndent(st, "", " ")
				fmt.Println(string(js))
			} else {
				fmt.Printf("run %-28s paths=%d killed=%d queries=%d proved=%d asserts=%d solver=%.1fs wall=%.1fs%s%s\n", r.Name, st.Paths, st.Infeasible, st.Queries,
					st.Proved, st.Asserts, st.SolverS, st.WallS, map[bool]string{true: "", false: " NOT-EXHAUSTIVE"}[!res.OutOfBudget],
					map[bool]string{true: "", false: fmt.Sprint(" inconclusive=", st.Inconclusive)}[len(st.Inconclusive) == 0])
			}
			for _, v := range res.Violations {
				viols = append(viols, &finding{v: v, run: r})
			}
			for _, v := range res.InconWit {
				incon = append(incon, &finding{v: v, run: r})
			}
			for _, v := range res.Witness {
				passes = append(passes, pass{v, r, k + "|" + r.Pkg})
			}
			if len(viols) >= *maxViolF && prop != "" {
				// enough to report
			}
		}
	}
	for _, ch := range builds {
		if err := <-ch; err != nil {
			return fail("native build: %v", err)
		}
	}
	binOf := func(r *Run) string { return bins[strings.Join(r.Stmt, ",")+"|"+r.Pkg] }
	outDir := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(outDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(outDir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}

	// replay counterexamples against the compiled code
	known := loadKnown()
	code := 0
	nviol := 0
	seenMsg := map[string]int{}
	unrepro := 0
	unreproMsgs := []string{}
	reproMsgs := map[string]bool{}
	knownHit := map[string]bool{}
	tryViolation := func(f *finding, n int) bool {
		key := f.run.Name + "|" + f.v.Kind + "|" + f.v.Msg
		if reproMsgs[key] {
			return true
		}
		p := filepath.Join(outDir, fmt.Sprintf("%s-%d.json", prop, n))
		writeReplay(p, f, prop)
		ok, out := false, ""
		tries := 1
		for _, v := range f.v.Vals {
			if v.K == "map-order" || v.K == "select" {
				tries = 30
			}
		}
		for i := 0; i < tries && !ok; i++ {
			ok, out = replayNative(binOf(f.run), p)
		}
		if !ok {
			os.Remove(p)
			if *verbose {
				fmt.Println("not reproduced:", out)
			}
			return false
		}
		reproMsgs[key] = true
		if k := known.match(prop, f, out); k != nil {
			if !knownHit[k.text] {
				knownHit[k.text] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
			}
			os.Remove(p)
			return true
		}
		nviol++
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		fmt.Printf("  run %s: %s: %s\n  native: %s\n", f.run.Name, f.v.Kind, f.v.Msg, lastLine(out))
		for _, o := range f.v.Obs {
			fmt.Printf("  %q\n", o)
		}
		if *verbose {
			fmt.Println("  " + strings.Join(f.v.Stack, "\n  "))
			for _, v := range f.v.Vals {
				fmt.Printf(" %s=%d", v.K, v.V)
			}
			fmt.Println()
		}
		code = 1
		return true
	}
	n := 0
	for _, f := range viols {
		key := f.run.Name + "|" + f.v.Kind + "|" + f.v.Msg
		if seenMsg[key] >= 6 {
			continue
		}
		seenMsg[key]++
		n++
		if !tryViolation(f, n) {
			unrepro++
			unreproMsgs = append(unreproMsgs, f.v.Kind+": "+f.v.Msg)
			if *verbose {
				fmt.Println("UNREPRODUCED", f.v.Kind, f.v.Msg, "\n  "+strings.Join(f.v.Stack, "\n  "))
				for _, o := range f.v.Obs {
					fmt.Printf("  %q\n", o)
				}
			}
		}
	}
	// a path the engine could not decide is at least executed natively
	inconRun := 0
	for i, f := range incon {
		if i >= 60 {
			break
		}
		p := filepath.Join(tmp, fmt.Sprintf("inc-%d.json", i))
		writeReplay(p, f, prop)
		inconRun++
		if bad, out := replayNative(binOf(f.run), p); bad {
			f.v.Kind, f.v.Msg = "native", lastLine(out)
			n++
			tryViolation(f, n)
		}
	}
	// passing paths are replayed and their observations compared
	validated := make([]int, len(runs))
	mismatch := ""
	samples := []any{}
	for i, p := range passes {
		f := &finding{v: p.v, run: p.run}
		pf := filepath.Join(tmp, fmt.Sprintf("pass-%d.json", i))
		writeReplay(pf, f, prop)
		mo := false
		for _, v := range p.v.Vals {
			mo = mo || v.K == "map-order" || v.K == "select"
		}
		msg := comparePass(bins[p.bin], pf, p.v)
		if h, ok := strings.CutPrefix(msg, "native run fails: "); ok {
			// the compiled code fails where the encoding passed: what the
			// compiled code does counts
			f.v.Kind, f.v.Msg = "native", h
			n++
			if tryViolation(f, n) {
				msg = ""
			}
		}
		if msg != "" && !mo {
			mismatch = fmt.Sprintf("run %s: %s (values %v)", p.run.Name, msg, p.v.Vals)
		} else if msg == "" {
			for j := range runs {
				if &runs[j] == p.run {
					validated[j]++
				}
			}
		}
		if len(samples) < 12 {
			s := map[string]any{"run": p.run.Name, "values": compact(p.v.Vals), "reached": p.v.Reach}
			if len(p.v.Obs) > 0 {
				s["observed"] = quoteAll(p.v.Obs)
			}
			samples = append(samples, s)
		}
	}
	vac := ""
	var unreached []string
	tot := &runStats{}
	nval := 0
	exhaustive := true
	inconTotal := 0
	for i, st := range stats {
		st.Validated = validated[i]
		nval += validated[i]
		tot.Paths += st.Paths
		tot.Steps += st.Steps
		tot.Forks += st.Forks
		tot.Queries += st.Queries
		tot.Proved += st.Proved
		tot.Concrete += st.Concrete
		tot.Asserts += st.Asserts
		tot.SolverS += st.SolverS
		exhaustive = exhaustive && st.Exhaustive
		for _, c := range st.Inconclusive {
			inconTotal += c
		}
		if code == 0 {
			for _, l := range runs[i].Reach {
				if st.Reach[l] == 0 && !st.Exhaustive {
					// The exploration was cut short: a reduced bound.
					unreached = append(unreached, st.Name+": "+l)
					fmt.Printf("REDUCED-BOUND property=%s run %s was cut short before it reached %q\n", prop, st.Name, l)
				} else if st.Reach[l] == 0 {
					vac = fmt.Sprintf("run %s never reached %q", st.Name, l)
				}
			}
			if st.Asserts == 0 {
				vac = fmt.Sprintf("run %s checked no assertion", st.Name)
			}
		}
	}
	for k, t := range known.list {
		_ = k
		_ = t
	}
	ev := map[string]any{
		"property": prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
		"assumptions": append(append([]string{}, ck.Assumptions...), sortedKeys(assumes)...),
		"coverage": map[string]any{
			"states": tot.Forks + tot.Paths, "transitions": tot.Steps, "traces_validated_against_impl": nval, "samples": samples,
			"exhaustive": exhaustive, "paths": tot.Paths, "queries": tot.Queries, "solver_s": tot.SolverS,
			"assertions_checked": tot.Asserts, "assertions_proved_by_solver": tot.Proved, "assertions_constant_on_path": tot.Concrete,
			"functions_encoded": sortedKeys(funcs), "runs": stats, "outside_the_bounds": ck.Outside,
			"inconclusive_paths": inconTotal, "not_reached_before_the_cut": unreached, "inconclusive_paths_executed_natively": inconRun, "unreproduced_counterexamples": unreproMsgs,
			"solver": "SMT QF_BV, " + runs[0].Solver,
			"rule":   "states are symbolic path segments between decisions, transitions are SSA instructions executed symbolically",
		},
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(js, '\n'), 0o644); err != nil {
		return fail("%v", err)
	}
	if code == 1 {
		return 1
	}
	if unrepro > 0 {
		return fail("a counterexample could not be reproduced natively: %s", unreproMsgs[0])
	}
	if mismatch != "" {
		return fail("engine and native execution disagree: %s", mismatch)
	}
	if vac != "" {
		return fail("vacuous: %s", vac)
	}
	fmt.Printf("OK property=%s tier=%s paths=%d queries=%d proved=%d validated=%d inconclusive=%d exhaustive=%v wall=%.1fs\n", prop, *tier, tot.Paths,
		tot.Queries, tot.Proved, nval, inconTotal, exhaustive, time.Since(start).Seconds())
	return 0
}

func nz(m map[string]int) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		if v > 0 {
			r[k] = v
		}
	}
	return r
}

func compact(vs []NondetVal) string {
	var b strings.Builder
	for i, v := range vs {
		if i > 0 {
			b.WriteByte(' ')
		}
		if v.K == "byte" && v.V >= 33 && v.V < 127 {
			fmt.Fprintf(&b, "'%c'", rune(v.V))
		} else if v.K == "int" {
			fmt.Fprintf(&b, "int=%d", int64(v.V))
		} else {
			fmt.Fprintf(&b, "%s=%d", v.K, v.V)
		}
		if b.Len() > 600 {
			b.WriteString(" ...")
			break
		}
	}
	return b.String()
}

func quoteAll(s []string) []string {
	var r []string
	for i, x := range s {
		if i >= 20 {
			break
		}
		r = append(r, strings.Trim(strconv.QuoteToASCII(x), `"`))
	}
	return r
}

func lastLine(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	for _, x := range l {
		if strings.HasPrefix(x, "REPLAY-RESULT") || strings.HasPrefix(x, "panic:") || strings.HasPrefix(x, "fatal error:") {
			return x
		}
	}
	return l[len(l)-1]
}

func writeReplay(path string, f *finding, prop string) {
	vals := f.v.Vals
	if vals == nil {
		vals = []NondetVal{}
	}
	m := map[string]any{"property": prop, "run": f.run.Name, "harness": f.run.Fn, "pkg": f.run.Pkg, "params": f.run.Params, "preempt": f.run.Preempt,
		"stmt": len(f.run.Stmt) > 0, "stmt_dirs": f.run.Stmt, "vals": vals, "kind": f.v.Kind, "msg": f.v.Msg, "observed": quoteAll(f.v.Obs), "stack": f.v.Stack,
		"howto": "/verif/replay " + path}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(path, b, 0o644)
}

// replayNative runs a recorded assignment; it reports whether the compiled
// code fails on it.
func replayNative(bin, replay string) (bool, string) {
	c := exec.Command("timeout", "-s", "KILL", "60", bin)
	c.Env = append(os.Environ(), "VERIF_REPLAY="+replay)
	out, err := c.CombinedOutput()
	s := string(out)
	if strings.Contains(s, "REPLAY-RESULT diverged") || strings.Contains(s, "REPLAY-RESULT error") {
		return false, s
	}
	return err != nil, s
}

func comparePass(bin, replay string, v *Violation) string {
	bad, out := replayNative(bin, replay)
	if bad {
		return "native run fails: " + lastLine(out)
	}
	if !strings.Contains(out, "REPLAY-RESULT ok") {
		return "native run ends with " + lastLine(out)
	}
	var obs []string
	for _, l := range strings.Split(out, "\n") {
		if h, ok := strings.CutPrefix(l, "OBS "); ok {
			obs = append(obs, unhex(h))
		}
	}
	if len(obs) != len(v.Obs) {
		return fmt.Sprintf("observations differ: engine %q native %q", v.Obs, obs)
	}
	for i := range obs {
		if obs[i] != v.Obs[i] {
			return fmt.Sprintf("observation differs: engine %q native %q", v.Obs[i], obs[i])
		}
	}
	return ""
}

func unhex(h string) string {
	var b []byte
	for i := 0; i+1 < len(h); i += 2 {
		n, _ := strconv.ParseUint(h[i:i+2], 16, 8)
		b = append(b, byte(n))
	}
	return string(b)
}

// Known findings: lines "known: property=<id> run=<name> match=<substring> :: text".
type knownFinding struct{ prop, run, match, text string }

type knownList struct{ list []*knownFinding }

func loadKnown() *knownList {
	k := &knownList{}
	b, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		l, ok := strings.CutPrefix(l, "known: ")
		if !ok {
			continue
		}
		head, text, _ := strings.Cut(l, " :: ")
		f := &knownFinding{text: text}
		for _, w := range strings.SplitN(head, " ", 3) {
			n, v, _ := strings.Cut(w, "=")
			switch n {
			case "property":
				f.prop = v
			case "run":
				f.run = v
			case "match":
				f.match = v
			}
		}
		k.list = append(k.list, f)
	}
	return k
}

func (k *knownList) match(prop string, f *finding, out string) *knownFinding {
	for _, x := range k.list {
		if x.prop == prop && (x.run == "" || x.run == f.run.Name) && x.match != "" && strings.Contains(f.v.Kind+": "+f.v.Msg, x.match) {
			return x
		}
	}
	return nil
}

// replayFile rebuilds the code and runs one recorded counterexample.
func replayFile(file string) int {
	file, _ = filepath.Abs(file)
	var r struct {
		Pkg  string   `json:"pkg"`
		Dirs []string `json:"stmt_dirs"`
	}
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		return fail("%v", err)
	}
	tmp, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return fail("%v", err)
	}
	defer os.RemoveAll(tmp)
	m := map[string]bool{}
	for _, d := range r.Dirs {
		m[d] = true
	}
	_, ov, err := instrument(repo, tmp, m)
	if err != nil {
		return fail("%v", err)
	}
	bin := filepath.Join(tmp, "bin")
	c := exec.Command("go", append(append([]string{"build"}, modFlags()...), "-overlay", ov, "-o", bin, "verif/harness/"+r.Pkg)...)
	c.Dir = filepath.Join(verif, "harness")
	c.Env = goEnv()
	if out, err := c.CombinedOutput(); err != nil {
		return fail("build: %v: %s", err, out)
	}
	os.Setenv("VERIF_STACK", "1")
	bad, out := replayNative(bin, file)
	fmt.Print(out)
	if bad {
		return 1
	}
	return 0
}
