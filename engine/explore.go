package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Shared is the state common to all workers of one exploration.
type Shared struct {
	mu      sync.Mutex
	cond    *sync.Cond
	prog    *ssa.Program
	cfg     *Config
	queue   []*job
	idle    int
	workers int
	stop    bool
	start   time.Time

	res Result
}

type Config struct {
	Entry        *ssa.Function
	Inits        []*ssa.Package // path-sensitive package initialisers, in order
	Solver       []string
	Cross        []string // a second solver that has to agree on every path query
	SolverMs     int
	MaxSteps     int
	MaxPreempt   int
	StmtMode     bool
	MapNondet    bool
	MaxPaths     int
	Budget       time.Duration
	MaxViol      int
	Witnesses    int
	Params       map[string]int
	Verbose      bool
	Seed         int
	ClosureBegin bool // the closure begins where the harness says so
	Closure      bool
	Walks        int
}

// job is a decision prefix to explore.
type job struct {
	prefix []int16
	model  *Model
}

type Nondet struct {
	Kind string `json:"k"`
	Name string `json:"n,omitempty"`
	term *Term
	val  uint64
}

type Violation struct {
	Kind   string
	Msg    string
	Pos    string
	Vals   []NondetVal
	Obs    []string
	Stack  []string
	Reach  []string
	Incon  bool
	Repro  string
	Replay string
}

type NondetVal struct {
	K string `json:"k"`
	V uint64 `json:"v"`
}

// Result accumulates what an exploration covered.
type Result struct {
	Paths, Killed, Steps       int
	Forks, Asserts, Transition int
	Proved                     int // assertions decided valid by a solver query
	ConcreteAsserts            int
	Queries, Sat, Unsat, Unk   int
	SolverErr                  int
	CrossSame, CrossUnk        int
	SolverTime                 time.Duration
	Reach                      map[string]int
	Funcs                      map[string]int
	Violations                 []*Violation
	Inconclusive               map[string]int
	InconWit                   []*Violation
	Witness                    []*Violation
	OutOfBudget                bool
	Wall                       time.Duration
	MaxDepth                   int
	Assumes                    map[string]bool
	Nondets                    int

	ClosureExecs, Closures, ClosureNodes, ClosureMax int
	ClosureQueries, ClosureSat, ClosureUnsat         int
	ClosureWalks                                     int
	ClosureTime, ClosureSolver                       time.Duration
}

type Worker struct {
	id int
	sh *Shared
	in *Interp
}

// Interp is one worker's interpreter.
type Interp struct {
	w        *Worker
	prog     *ssa.Program
	st       *Store
	types    *typeTab
	funcs    map[*ssa.Function]*FuncInfo
	closures map[*ssa.Function]*Closure
	globals  map[*ssa.Global]Ptr
	inited   map[*ssa.Package]int
	seenFn   map[*FuncInfo]bool
	rtErrT   *RType

	solver *Solver

	clo       *closure
	ordSolver *Solver

	// path state
	gs          []*G
	cur         int
	gen         int
	trail       []trailEnt
	noTrail     int
	pc          []*Term
	facts       []*Term
	factSet     map[*Term]bool
	model       *Model
	modelGen    int
	nondet      []Nondet
	varCtr      int
	declog      []int16
	cps         []*choicePoint
	prefix      []int16 // decisions still to replay
	im          struct{ trail, nondet, ctr int }
	steps       int
	baseSteps   int
	maxSteps    int
	nestLevel   int
	nestBase    int
	nestRes     Value
	outerDepth  int
	inDefers    bool
	ended       bool
	loadW       uint8
	maxConc     uint64
	mapNondet   bool
	preempt     int
	maxPreempt  int
	idleHook    *Closure
	pending     []*sender
	lastPanic   string
	obs         []Value
	reach       []string
	transitions int
	initPkg     *ssa.Package
	runInits    bool
	stmtOn      bool
	pureDepth   int
	scratch     map[string]Value

	local Result
}

type choicePoint struct {
	gs        []G
	cur       int
	trail     int
	nondet    int
	ctr       int
	pc, facts int
	declog    int
	steps     int
	alt       *Term // assert this on backtrack
	altVal    int16
	altModel  *Model
	// multi-way
	cvar       *Term
	next, n    int
	idleHook   *Closure
	pending    []*sender
	obs, reach int
	clo        *closure
}

func newInterp(w *Worker) *Interp {
	in := &Interp{w: w, prog: w.sh.prog, st: newStore(), types: newTypeTab(), funcs: map[*ssa.Function]*FuncInfo{},
		closures: map[*ssa.Function]*Closure{}, globals: map[*ssa.Global]Ptr{}, inited: map[*ssa.Package]int{},
		seenFn: map[*FuncInfo]bool{}, factSet: map[*Term]bool{}, scratch: map[string]Value{}}
	in.rtErrT = &RType{t: types.Universe.Lookup("error").Type(), id: -1, comparable: true, meth: map[string]*ssa.Function{}}
	in.local.init()
	cfg := w.sh.cfg
	in.maxSteps = cfg.MaxSteps
	in.maxPreempt = cfg.MaxPreempt
	in.mapNondet = cfg.MapNondet
	in.stmtOn = cfg.StmtMode
	in.maxConc = 16
	in.gen = 1
	in.model = in.newModel(nil)
	return in
}

func (r *Result) init() {
	r.Reach = map[string]int{}
	r.Funcs = map[string]int{}
	r.Inconclusive = map[string]int{}
	r.Assumes = map[string]bool{}
}

func (r *Result) add(o *Result) {
	r.Paths += o.Paths
	r.Killed += o.Killed
	r.Steps += o.Steps
	r.Forks += o.Forks
	r.Asserts += o.Asserts
	r.Transition += o.Transition
	r.Proved += o.Proved
	r.ConcreteAsserts += o.ConcreteAsserts
	r.Queries += o.Queries
	r.Sat += o.Sat
	r.Unsat += o.Unsat
	r.Unk += o.Unk
	r.SolverErr += o.SolverErr
	r.CrossSame += o.CrossSame
	r.CrossUnk += o.CrossUnk
	r.SolverTime += o.SolverTime
	r.ClosureExecs += o.ClosureExecs
	r.Closures += o.Closures
	r.ClosureNodes += o.ClosureNodes
	r.ClosureMax = max(r.ClosureMax, o.ClosureMax)
	r.ClosureWalks += o.ClosureWalks
	r.ClosureQueries += o.ClosureQueries
	r.ClosureSat += o.ClosureSat
	r.ClosureUnsat += o.ClosureUnsat
	r.ClosureTime += o.ClosureTime
	r.ClosureSolver += o.ClosureSolver
	r.Nondets = max(r.Nondets, o.Nondets)
	r.MaxDepth = max(r.MaxDepth, o.MaxDepth)
	for k, v := range o.Reach {
		r.Reach[k] += v
	}
	for k, v := range o.Funcs {
		r.Funcs[k] += v
	}
	for k, v := range o.Inconclusive {
		r.Inconclusive[k] += v
	}
	for k := range o.Assumes {
		r.Assumes[k] = true
	}
	r.Violations = append(r.Violations, o.Violations...)
	r.InconWit = append(r.InconWit, o.InconWit...)
	r.Witness = append(r.Witness, o.Witness...)
}

func (in *Interp) newModel(v map[string]uint64) *Model {
	in.modelGen++
	if v == nil {
		v = map[string]uint64{}
	}
	return &Model{v: v, gen: in.modelGen}
}

func (in *Interp) addFact(t *Term) {
	if !in.factSet[t] {
		in.factSet[t] = true
		in.facts = append(in.facts, t)
	}
}

func (in *Interp) assertPC(t *Term) {
	if t.isConst() || in.factSet[t] {
		return
	}
	in.pc = append(in.pc, t)
	in.addFact(t)
	// decompose conjunctions for the fact cache
	if t.op == OAnd {
		in.addFact(t.a[0])
		in.addFact(t.a[1])
	}
}

func (in *Interp) decideV(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return in.decide(x)
	}
	panic(fmt.Sprintf("decideV %T", v))
}

// known looks a condition up among the facts of the path.
func (in *Interp) known(c *Term) (bool, bool) {
	if c.isConst() {
		return c.val == 1, true
	}
	if in.factSet[c] {
		return true, true
	}
	if in.factSet[in.st.Not(c)] {
		return false, true
	}
	return false, false
}

// decide picks a feasible truth value of c, leaving a choice point behind if
// both are feasible.
func (in *Interp) decide(c *Term) bool {
	if b, ok := in.known(c); ok {
		return b
	}
	if in.noTrail > 0 {
		unsupp("symbolic branch in a package initialiser: %s", c)
	}
	if len(in.prefix) > 0 {
		d := in.prefix[0]
		in.prefix = in.prefix[1:]
		in.declog = append(in.declog, d)
		switch d {
		case 0, 1: // genuine choice
			lit := c
			if d == 0 {
				lit = in.st.Not(c)
			}
			in.assertPC(lit)
			return d == 1
		case 2, 3: // forced
			lit := c
			if d == 2 {
				lit = in.st.Not(c)
			}
			in.addFact(lit)
			return d == 3
		}
		panic(fmt.Sprintf("bad prefix decision %d", d))
	}
	v := c.eval(in.model) == 1
	lit, neg := c, in.st.Not(c)
	if !v {
		lit, neg = neg, lit
	}
	verdict, vals := in.solver.check(in.pc, neg, true)
	b2 := func(b bool) int16 {
		if b {
			return 1
		}
		return 0
	}
	switch verdict {
	case Unsat:
		in.addFact(lit)
		in.declog = append(in.declog, 2+b2(v))
		return v
	case Unknown:
		in.local.Inconclusive["solver returned unknown on a branch"]++
		in.assertPC(lit)
		in.declog = append(in.declog, b2(v))
		return v
	}
	if in.clo != nil {
		in.clo.fail("symbolic branch")
	}
	cp := in.snapshot()
	cp.alt = neg
	cp.altVal = b2(!v)
	cp.altModel = in.newModel(vals)
	in.pushCP(cp)
	in.declog = append(in.declog, b2(v))
	in.assertPC(lit)
	return v
}

func (in *Interp) snapshot() *choicePoint {
	if in.pureDepth > 0 {
		unsupp("fork in a pure region")
	}
	cp := &choicePoint{cur: in.cur, trail: in.im.trail, nondet: in.im.nondet, ctr: in.im.ctr,
		pc: len(in.pc), facts: len(in.facts), declog: len(in.declog), steps: in.steps,
		idleHook: in.idleHook, pending: in.pending, obs: len(in.obs), reach: len(in.reach)}
	cp.gs = make([]G, len(in.gs))
	for i, g := range in.gs {
		cp.gs[i] = *g
		fr := g.frames
		if i == in.cur && in.nestLevel > 0 {
			fr = fr[:in.outerDepth]
		}
		cp.gs[i].frames = append([]*Frame(nil), fr...)
	}
	in.gen++
	in.local.Forks++
	return cp
}

func (in *Interp) pushCP(cp *choicePoint) {
	in.cps = append(in.cps, cp)
	in.local.MaxDepth = max(in.local.MaxDepth, len(in.cps))
	if in.w.sh.idleWorkers() {
		in.donate()
	}
}

// choose makes an n-way choice of a fresh variable.
func (in *Interp) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if in.noTrail > 0 {
		unsupp("choice in a package initialiser")
	}
	if in.clo != nil {
		k := in.clo.choose(n)
		in.nondet = append(in.nondet, Nondet{Kind: label, val: uint64(k)})
		return k
	}
	v := in.freshVar(label, 8)
	in.nondet = append(in.nondet, Nondet{Kind: label, term: v})
	eq := func(k int) *Term { return in.st.Eq(v, in.st.Const(8, uint64(k))) }
	for k := 0; k < n; k++ {
		if in.factSet[eq(k)] {
			return k
		}
	}
	if len(in.prefix) > 0 {
		d := in.prefix[0]
		in.prefix = in.prefix[1:]
		in.declog = append(in.declog, d)
		in.assertPC(eq(int(d) - 16))
		return int(d) - 16
	}
	cp := in.snapshot()
	cp.cvar, cp.next, cp.n = v, 1, n
	cp.altModel = in.model
	in.pushCP(cp)
	in.declog = append(in.declog, 16)
	in.assertPC(eq(0))
	in.model = in.newModel(in.model.with(0, map[string]uint64{v.name: 0}).v)
	return 0
}

func (in *Interp) freshVar(label string, w uint8) *Term {
	name := fmt.Sprintf("%s!%d!%d", label, in.varCtr, w)
	if in.clo != nil {
		name = in.clo.freshName(label, w)
	}
	in.varCtr++
	return in.st.Var(name, w)
}

// assume constrains the path.
func (in *Interp) assume(c *Term) {
	if b, ok := in.known(c); ok {
		if !b {
			panic(pathEnd{endKilled, "assume"})
		}
		return
	}
	if len(in.prefix) > 0 {
		in.assertPC(c)
		return
	}
	if in.clo != nil {
		in.clo.fail("assumption on a symbolic value")
	}
	if c.eval(in.model) == 1 {
		in.assertPC(c)
		return
	}
	verdict, vals := in.solver.check(in.pc, c, true)
	switch verdict {
	case Unsat:
		panic(pathEnd{endKilled, "assume"})
	case Unknown:
		panic(pathEnd{endInconclusive, "solver returned unknown on an assumption"})
	}
	in.model = in.newModel(vals)
	in.assertPC(c)
}

// assertTrue checks that c holds on every input of the current path.
func (in *Interp) assertTrue(v Value, msg string) {
	in.local.Asserts++
	switch c := v.(type) {
	case bool:
		if !c {
			in.violation("assert", msg)
		}
		in.local.ConcreteAsserts++
		return
	case *Term:
		if b, ok := in.known(c); ok {
			if !b {
				in.violation("assert", msg)
			}
			return
		}
		if len(in.prefix) > 0 {
			in.addFact(c)
			return
		}
		neg := in.st.Not(c)
		if c.eval(in.model) == 0 {
			in.violation("assert", msg)
		}
		verdict, vals := in.solver.check(in.pc, neg, true)
		switch verdict {
		case Sat:
			in.model = in.newModel(vals)
			in.violation("assert", msg)
		case Unknown:
			in.local.Inconclusive["solver returned unknown on an assertion"]++
			in.assertPC(c)
			return
		}
		in.local.Proved++
		in.addFact(c)
	}
}

// violation ends the path and records a counterexample.
func (in *Interp) violation(kind, msg string) {
	panic(pathEnd{endViolation, kind + ": " + msg})
}

func (in *Interp) witness(kind, msg string) *Violation {
	v := &Violation{Kind: kind, Msg: msg}
	for _, n := range in.nondet {
		nv := NondetVal{K: n.Kind}
		if n.term != nil {
			nv.V = n.term.eval(in.model)
		} else {
			nv.V = n.val
		}
		v.Vals = append(v.Vals, nv)
	}
	for _, o := range in.obs {
		v.Obs = append(v.Obs, in.concreteStr(o))
	}
	v.Reach = append([]string(nil), in.reach...)
	return v
}

// concreteStr renders an observed string under the model.
func (in *Interp) concreteStr(v Value) string {
	var b strings.Builder
	for i := 0; i < strLen(v); i++ {
		switch x := strAt(v, i).(type) {
		case uint64:
			b.WriteByte(byte(x))
		case *Term:
			b.WriteByte(byte(x.eval(in.model)))
		}
	}
	return b.String()
}

func (in *Interp) stack() []string {
	var s []string
	if in.cur >= len(in.gs) {
		return nil
	}
	g := in.gs[in.cur]
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		pc := int(f.pc)
		ins := f.fi.blocks[f.blk].ins
		if pc >= len(ins) {
			pc = len(ins) - 1
		}
		if pc > 0 && i != len(g.frames)-1 {
			pc--
		}
		s = append(s, f.fi.name+" "+in.posStr(ins[pc].pos))
		if len(s) > 25 {
			break
		}
	}
	return s
}

// backtrack restores the latest choice point and takes its next alternative.
func (in *Interp) backtrack() bool {
	for len(in.cps) > 0 && in.cps[len(in.cps)-1].clo != nil {
		cp := in.cps[len(in.cps)-1]
		in.restore(cp)
		if cp.clo.next() {
			in.clo = cp.clo
			in.clo.begin()
			return true
		}
		in.cps = in.cps[:len(in.cps)-1]
	}
	if len(in.cps) == 0 {
		return false
	}
	cp := in.cps[len(in.cps)-1]
	last := true
	if cp.cvar != nil && cp.next < cp.n-1 {
		last = false
	}
	if last {
		in.cps = in.cps[:len(in.cps)-1]
	}
	in.restore(cp)
	if cp.cvar != nil {
		k := cp.next
		cp.next++
		in.declog = append(in.declog, int16(16+k))
		in.model = in.newModel(cp.altModel.with(0, map[string]uint64{cp.cvar.name: uint64(k)}).v)
		in.assertPC(in.st.Eq(cp.cvar, in.st.Const(8, uint64(k))))
		return true
	}
	in.declog = append(in.declog, cp.altVal)
	in.model = cp.altModel
	in.assertPC(cp.alt)
	return true
}

func (in *Interp) restore(cp *choicePoint) {
	in.clo = nil
	in.undoTo(cp.trail)
	for i := len(in.facts) - 1; i >= cp.facts; i-- {
		delete(in.factSet, in.facts[i])
	}
	in.facts = in.facts[:cp.facts]
	in.pc = in.pc[:cp.pc]
	in.nondet = in.nondet[:cp.nondet]
	in.varCtr = cp.ctr
	in.declog = in.declog[:cp.declog]
	in.cur = cp.cur
	in.gs = make([]*G, len(cp.gs))
	for i := range cp.gs {
		g := cp.gs[i]
		g.frames = append([]*Frame(nil), g.frames...)
		in.gs[i] = &g
	}
	in.gen++
	in.steps = cp.steps
	in.baseSteps = cp.steps
	in.nestLevel, in.nestBase, in.inDefers, in.ended = 0, 0, false, false
	in.idleHook, in.pending = cp.idleHook, cp.pending
	in.obs, in.reach = in.obs[:cp.obs], in.reach[:cp.reach]
	in.pureDepth = 0
}

// donate hands the oldest open alternative to another worker.
func (in *Interp) donate() {
	for i, cp := range in.cps {
		if cp.clo != nil {
			continue
		}
		pre := append([]int16(nil), in.declog[:cp.declog]...)
		if cp.cvar != nil {
			k := cp.n - 1
			cp.n--
			if cp.n <= cp.next {
				in.cps = append(in.cps[:i:i], in.cps[i+1:]...)
			}
			m := cp.altModel.with(0, map[string]uint64{cp.cvar.name: uint64(k)})
			in.w.sh.put(&job{append(pre, int16(16+k)), m})
			return
		}
		in.cps = append(in.cps[:i:i], in.cps[i+1:]...)
		in.w.sh.put(&job{append(pre, cp.altVal), cp.altModel})
		return
	}
}

func (sh *Shared) idleWorkers() bool {
	sh.mu.Lock()
	b := sh.idle > len(sh.queue)
	sh.mu.Unlock()
	return b
}

func (sh *Shared) put(j *job) {
	sh.mu.Lock()
	sh.queue = append(sh.queue, j)
	sh.cond.Signal()
	sh.mu.Unlock()
}

func (sh *Shared) get() *job {
	sh.mu.Lock()
	defer sh.mu.Unlock()
	sh.idle++
	for len(sh.queue) == 0 && !sh.stop {
		if sh.idle == sh.workers {
			sh.stop = true
			sh.cond.Broadcast()
			return nil
		}
		sh.cond.Wait()
	}
	if sh.stop {
		return nil
	}
	sh.idle--
	j := sh.queue[0]
	sh.queue = sh.queue[1:]
	return j
}

// explore runs one harness over all its paths.
func explore(prog *ssa.Program, cfg *Config, workers int) *Result {
	sh := &Shared{prog: prog, cfg: cfg, workers: workers, start: time.Now()}
	sh.cond = sync.NewCond(&sh.mu)
	sh.res.init()
	sh.queue = []*job{{}}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w := &Worker{id: id, sh: sh}
			w.run()
		}(i)
	}
	wg.Wait()
	sh.res.Wall = time.Since(sh.start)
	sort.Slice(sh.res.Violations, func(i, j int) bool {
		return len(sh.res.Violations[i].Vals) < len(sh.res.Violations[j].Vals)
	})
	return &sh.res
}

func (w *Worker) run() {
	var in *Interp
	for {
		j := w.sh.get()
		if j == nil {
			break
		}
		if in == nil {
			in = newInterp(w)
			s, err := newSolver(w.sh.cfg.Solver, w.sh.cfg.Cross, w.sh.cfg.SolverMs)
			if err != nil {
				panic(err)
			}
			in.solver = s
			w.in = in
		}
		in.runJob(j)
	}
	if in != nil {
		in.local.Queries, in.local.Sat, in.local.Unsat, in.local.Unk = in.solver.Queries, in.solver.Sat, in.solver.Unsat, in.solver.Unknown
		in.local.CrossSame, in.local.CrossUnk = in.solver.CrossSame, in.solver.CrossUnk
		in.local.SolverErr, in.local.SolverTime = in.solver.Errors, in.solver.Time
		if in.solver.Errors > 0 {
			in.local.Inconclusive["solver error: "+in.solver.lastErr] += in.solver.Errors
		}
		for fi := range in.seenFn {
			in.local.Funcs[fi.name]++
		}
		in.solver.stop()
		if in.ordSolver != nil {
			in.ordSolver.stop()
		}
		w.sh.mu.Lock()
		w.sh.res.add(&in.local)
		w.sh.mu.Unlock()
	}
}

func (in *Interp) runJob(j *job) {
	// reset path state
	in.clo = nil
	in.undoTo(0)
	in.gs, in.cur = nil, 0
	in.pc, in.facts = nil, nil
	in.factSet = map[*Term]bool{}
	in.nondet, in.varCtr, in.declog, in.cps = nil, 0, nil, nil
	in.baseSteps = 0
	in.steps, in.nestLevel, in.nestBase, in.inDefers, in.ended = 0, 0, 0, false, false
	in.preempt, in.idleHook, in.pending, in.obs, in.reach = 0, nil, nil, nil, nil
	in.im.trail, in.im.nondet, in.im.ctr = 0, 0, 0
	in.gen++
	in.pureDepth = 0
	in.prefix = append([]int16(nil), j.prefix...)
	if j.model != nil {
		in.model = in.newModel(j.model.v)
	} else {
		in.model = in.newModel(nil)
	}
	in.gs = []*G{{}}
	first := true
	for {
		if in.w.sh.done() {
			in.cps = nil
			return
		}
		end := in.runPath(first)
		first = false
		if in.clo != nil {
			in.clo.finish(end)
		}
		in.finishPath(end)
		in.nestLevel, in.nestBase = 0, 0
		if in.w.sh.done() || !in.backtrack() {
			return
		}
	}
}

func (sh *Shared) done() bool {
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if sh.stop {
		return true
	}
	if sh.cfg.Budget > 0 && time.Since(sh.start) > sh.cfg.Budget {
		sh.res.OutOfBudget = true
		sh.stop = true
		sh.cond.Broadcast()
		return true
	}
	return false
}

func (in *Interp) runPath(first bool) (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x
			case unsupported:
				end = pathEnd{endInconclusive, x.msg}
			case goPanicExc:
				end = pathEnd{endViolation, "panic: " + in.describe(x.val)}
			default:
				if os.Getenv("ENGINE_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "ENGINE PANIC", r, strings.Join(in.stack(), "\n  "))
					debug.PrintStack()
				}
				end = pathEnd{endInconclusive, fmt.Sprintf("engine: %v", r)}
			}
		}
	}()
	if first {
		// package initialisers, then the harness, as one driver
		in.pushFrame(in.gs[0], in.driver(), nil, nil, noReg)
	}
	in.loop(0)
	return pathEnd{endDone, ""}
}

// driver is a native-like function: a synthetic FuncInfo that calls the
// initialisers and the entry in sequence.
func (in *Interp) driver() *FuncInfo {
	fi := &FuncInfo{name: "driver", recover: -1, fn: in.w.sh.cfg.Entry}
	var b BlockInfo
	for _, p := range in.w.sh.cfg.Inits {
		f := p.Func("init")
		in.inited[p] = 2
		b.ins = append(b.ins, Instr{op: xCall, sfn: f, dst: noReg})
		in.scratch["init:"+p.Pkg.Path()] = true
	}
	b.ins = append(b.ins, Instr{op: xCall, sfn: in.w.sh.cfg.Entry, dst: noReg})
	b.ins = append(b.ins, Instr{op: xReturn})
	fi.blocks = []BlockInfo{b}
	return fi
}

func (in *Interp) finishPath(end pathEnd) {
	r := &in.local
	r.Steps += in.steps - in.baseSteps
	r.Transition = in.transitions
	r.Nondets = max(r.Nondets, len(in.nondet))
	switch end.kind {
	case endKilled:
		r.Killed++
		return
	case endDone:
		r.Paths++
		for _, l := range in.reach {
			r.Reach[l]++
		}
		if len(r.Witness) < in.w.sh.cfg.Witnesses {
			r.Witness = append(r.Witness, in.witness("pass", ""))
		} else if in.w.sh.cfg.Witnesses > 0 && r.Paths&(r.Paths-1) == 0 {
			r.Witness[(r.Paths/7)%len(r.Witness)] = in.witness("pass", "")
		}
	case endViolation:
		r.Paths++
		for _, l := range in.reach {
			r.Reach[l]++
		}
		kind, msg, _ := strings.Cut(end.msg, ": ")
		v := in.witness(kind, msg)
		v.Stack = in.stack()
		r.Violations = append(r.Violations, v)
		if len(r.Violations) >= in.w.sh.cfg.MaxViol {
			in.w.sh.mu.Lock()
			in.w.sh.stop = true
			in.w.sh.cond.Broadcast()
			in.w.sh.mu.Unlock()
		}
	case endInconclusive:
		r.Paths++
		key := end.msg
		if s := in.stack(); len(s) > 0 && os.Getenv("ENGINE_DEBUG") != "" {
			key += " @ " + strings.Join(s[:min(4, len(s))], " <- ")
		}
		r.Inconclusive[key]++
		if len(r.InconWit) < 20 {
			v := in.witness("inconclusive", end.msg)
			v.Stack = in.stack()
			r.InconWit = append(r.InconWit, v)
		}
	}
}

// ---- globals and package initialisation

func (in *Interp) global(g *ssa.Global) Ptr {
	if p, ok := in.globals[g]; ok {
		return p
	}
	c := new(Value)
	*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
	in.globals[g] = c
	if g.Pkg != nil {
		if skipInit[g.Pkg.Pkg.Path()] {
			if initStores(g.Pkg)[g] {
				*c = Undef{"initial value of " + g.String()}
			}
			return c
		}
		in.ensureInit(g.Pkg, nil)
	}
	return c
}

var (
	initStoresMu sync.Mutex
	initStoresOf = map[*ssa.Package]map[*ssa.Global]bool{}
)

// initStores lists the variables that a package's initialiser sets.
func initStores(p *ssa.Package) map[*ssa.Global]bool {
	initStoresMu.Lock()
	defer initStoresMu.Unlock()
	if m, ok := initStoresOf[p]; ok {
		return m
	}
	m := map[*ssa.Global]bool{}
	if f := p.Func("init"); f != nil {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					a := s.Addr
					for {
						switch x := a.(type) {
						case *ssa.FieldAddr:
							a = x.X
							continue
						case *ssa.IndexAddr:
							a = x.X
							continue
						}
						break
					}
					if g, ok := a.(*ssa.Global); ok && g.Name() != "init$guard" {
						m[g] = true
					}
				}
			}
		}
	}
	initStoresOf[p] = m
	return m
}

func (in *Interp) isPathPkg(p *ssa.Package) bool {
	path := p.Pkg.Path()
	return strings.HasPrefix(path, "github.com/zenazn/goji") || strings.HasPrefix(path, "verif/")
}

// ensureInit runs a library package's variable initialisers once per worker.
func (in *Interp) ensureInit(p *ssa.Package, fn *ssa.Function) {
	if in.inited[p] != 0 || in.isPathPkg(p) || skipInit[p.Pkg.Path()] {
		return
	}
	if fn != nil && fn == p.Func("init") {
		return
	}
	in.inited[p] = 1
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	saveClo := in.clo
	in.clo = nil
	saveG, saveCur := in.gs, in.cur
	saveNest, saveBase, saveDef, saveOuter := in.nestLevel, in.nestBase, in.inDefers, in.outerDepth
	saveRes := in.nestRes
	saveSteps, saveMax := in.steps, in.maxSteps
	in.maxSteps = 1 << 60
	in.noTrail++
	defer func() {
		in.noTrail--
		in.clo = saveClo
		in.gs, in.cur = saveG, saveCur
		in.nestLevel, in.nestBase, in.inDefers, in.outerDepth = saveNest, saveBase, saveDef, saveOuter
		in.nestRes = saveRes
		in.steps, in.maxSteps = saveSteps, saveMax
		in.inited[p] = 2
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				in.local.Inconclusive["init of "+p.Pkg.Path()+": "+x.msg] += 0
				if os.Getenv("ENGINE_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "init of", p.Pkg.Path(), ":", x.msg)
				}
			case goPanicExc:
				if os.Getenv("ENGINE_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "init of", p.Pkg.Path(), "panics:", in.describe(x.val))
				}
			default:
				panic(r)
			}
		}
	}()
	// a dummy outer frame keeps the nested-call bookkeeping simple
	g := &G{frames: []*Frame{{gen: in.gen, fi: &FuncInfo{name: "driver", fn: f, recover: -1, blocks: []BlockInfo{{}}}}}}
	in.gs = []*G{g}
	in.cur = 0
	in.nestLevel = 1
	in.nestBase = 1
	fi := &FuncInfo{fn: f, name: f.String(), recover: -1}
	in.compileBody(fi)
	in.pushFrame(g, fi, nil, nil, noReg)
	for !in.initLoop(g, p) {
	}
}

// initLoop runs an initialiser; when one of its instructions cannot be
// executed its result is left undefined and the initialiser goes on.
func (in *Interp) initLoop(g *G, p *ssa.Package) (done bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		msg := ""
		switch x := r.(type) {
		case unsupported:
			msg = x.msg
		case goPanicExc:
			msg = "panic: " + in.describe(x.val)
		case pathEnd:
			msg = x.msg
		default:
			msg = fmt.Sprint(r)
		}
		if len(g.frames) < 2 {
			panic(r)
		}
		g.frames = g.frames[:2]
		in.nestLevel, in.nestBase, in.inDefers = 1, 1, false
		in.gs, in.cur = []*G{g}, 0
		f := g.frames[1]
		f.unwind, f.panic = false, nil
		I := &f.fi.blocks[f.blk].ins[f.pc]
		if os.Getenv("ENGINE_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "init of", p.Pkg.Path(), ":", msg, "at", in.posStr(I.pos))
		}
		switch I.op {
		case xIf, xJump, xReturn:
			panic(r)
		}
		if I.dst != noReg {
			f.regs[I.dst] = Undef{msg}
		}
		f.pc++
		done = false
	}()
	in.loop(1)
	return true
}

// Undef is the value of an initialiser the engine could not execute.
type Undef struct{ why string }

func (in *Interp) describe(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	if i.t == in.rtErrT {
		return "runtime error: " + in.showStr(i.v)
	}
	switch i.v.(type) {
	case string, *SymStr:
		return in.showStr(i.v)
	}
	return i.t.String()
}

func (in *Interp) showStr(v Value) string {
	switch v.(type) {
	case string, *SymStr:
		return in.concreteStr(v)
	}
	return fmt.Sprintf("%T", v)
}
