package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is one unit of exploration: a harness plus the values of its first choices.
type Job struct {
	harness *Harness
	prefix  []int
}

// Harness is an entry of harness.All.
type Harness struct {
	Name   string
	Props  string
	Bounds string
	Quick  bool
	Split  int
	fn     *ssa.Function

	mu      sync.Mutex
	paths   int64
	jobs    int64
	reached map[string]int64
	time    time.Duration
	traces  []*Trace
	seenTr  int64
}

// InputVal is one nondeterministic value of a path.
type InputVal struct {
	Name string `json:"name"`
	Val  uint64 `json:"val"`
}

type ObsVal struct {
	Label string `json:"label"`
	Hex   string `json:"hex"`
}

// Trace is a concrete instance of an explored path.
type Trace struct {
	Harness string     `json:"harness"`
	Tier    int        `json:"tier"`
	Prop    string     `json:"prop"`
	Inputs  []InputVal `json:"inputs"`
	Obs     []ObsVal   `json:"observations,omitempty"`
	// for findings
	Label   string `json:"label,omitempty"`
	Message string `json:"message,omitempty"`
	Seed    uint64 `json:"seed,omitempty"`
}

type stats struct {
	Branches, Bounded, Steps, Asserts, AssertQueries, Assumed, Paths, Forks int64
}

type Run struct {
	prop       string
	tier       int
	splitDepth int
	deadline   time.Time
	maxFind    int
	prog       *Program
	solverMS   int
	seed       int64
	keepTraces int

	mu                             sync.Mutex
	cond                           *sync.Cond
	queue                          []*Job
	busy                           int
	findings                       map[string][]*Trace
	nfind                          int
	incon                          map[string]int
	labels                         map[string]int64
	tot                            stats
	cover                          map[int]map[int]bool
	slvQ, slvSat, slvUnsat, slvUnk int64
	slvTime                        time.Duration
	stopped                        bool
	opLimit                        int64
	bootErr                        string
}

func (r *Run) addJob(j *Job) {
	r.mu.Lock()
	r.queue = append(r.queue, j)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) next() *Job {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stopped {
			return nil
		}
		if n := len(r.queue); n > 0 {
			j := r.queue[0]
			r.queue = r.queue[1:]
			r.busy++
			return j
		}
		if r.busy == 0 {
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *Run) done() {
	r.mu.Lock()
	r.busy--
	r.mu.Unlock()
	r.cond.Broadcast()
}

// Worker owns a term context, a solver process and a stack of states.
type Worker struct {
	run       *Run
	frames    [64][]*Frame
	prog      *Program
	ctx       *TermCtx
	solver    *Solver
	stack     []*State
	gen       uint32
	stats     stats
	job       *Job
	jobPrefix []int
	forked    bool
	cov       [][]bool
	labels    map[string]int64
	boot      *State
	codeCache map[*ssa.Function]*Code
	methCache map[methKey]*Code
	sinceDL   int
}

func newWorker(r *Run) (*Worker, error) {
	w := &Worker{run: r, prog: r.prog, labels: map[string]int64{}, codeCache: map[*ssa.Function]*Code{}, methCache: map[methKey]*Code{}}
	return w, w.reset()
}

// reset starts a fresh term context and solver and runs the package initialisers.
func (w *Worker) reset() error {
	w.flushSolver()
	w.ctx = newTermCtx()
	s, err := newSolver(w.ctx, w.run.solverMS)
	if err != nil {
		return err
	}
	w.solver = s
	w.boot = nil
	return w.runBoot()
}

func (w *Worker) flushSolver() {
	s := w.solver
	if s == nil {
		return
	}
	r := w.run
	r.mu.Lock()
	r.slvQ += int64(s.Queries)
	r.slvSat += int64(s.Sat)
	r.slvUnsat += int64(s.Unsat)
	r.slvUnk += int64(s.Unknown)
	r.slvTime += s.Time
	r.mu.Unlock()
	s.close()
	w.solver = nil
}

func (w *Worker) newState() *State {
	return &State{w: w, known: map[*Term]bool{}, model: Model{}, nin: map[string]int{}, reached: map[string]bool{}, files: map[string]int{}, tok: &owner{}, choicePending: -1, opLimit: w.run.opLimit, base: 0}
}

// runBoot executes the initialisers of the harness package and its imports.
func (w *Worker) runBoot() error {
	st := w.newState()
	initFn := w.prog.harnessPkg.Func("init")
	st.doCall(w.codeOf(initFn), Value{}, nil, nil, -1)
	w.job = &Job{harness: &Harness{Name: "<init>", reached: map[string]int64{}}}
	var boot *State
	err := w.protect(func() {
		for !st.dead && len(st.frames) > 0 {
			st.steps++
			st.step()
		}
	})
	if err != nil {
		return err
	}
	if st.dead {
		return fmt.Errorf("package initialisation failed")
	}
	if st.pc != nil || len(w.stack) > 0 {
		return fmt.Errorf("package initialisation is not deterministic")
	}
	boot = st
	boot.steps = 0
	w.boot = boot
	return nil
}

func (w *Worker) protect(f func()) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if ee, ok := e.(engineError); ok {
				err = fmt.Errorf("%s", ee.msg)
				return
			}
			if debugEngine {
				fmt.Fprintf(os.Stderr, "engine fault: %v\n%s\n", e, debug.Stack())
			}
			err = fmt.Errorf("engine fault: %v", e)
		}
	}()
	f()
	return nil
}

var debugEngine = os.Getenv("VERIF_DEBUG") != ""

func (w *Worker) push(st *State) {
	w.forked = true
	w.stats.Forks++
	w.stack = append(w.stack, st)
}

func (w *Worker) touch(c *Code, blk int) {
	if !c.lib {
		return
	}
	for c.id >= len(w.cov) {
		w.cov = append(w.cov, make([][]bool, 64)...)
	}
	b := w.cov[c.id]
	if b == nil {
		b = make([]bool, c.nblk)
		w.cov[c.id] = b
	}
	b[blk] = true
}

func (w *Worker) deadlineHit() bool { return w.run.stopped || time.Now().After(w.run.deadline) }

func (w *Worker) noteInconclusive(st *State, msg string) {
	w.run.mu.Lock()
	w.run.incon[w.job.harness.Name+": "+msg]++
	w.run.mu.Unlock()
}

func (w *Worker) assertLabel(l string) { w.labels[l]++ }

func (w *Worker) codeOf(fn *ssa.Function) *Code {
	if c, ok := w.codeCache[fn]; ok {
		return c
	}
	c := w.prog.getCode(fn)
	w.codeCache[fn] = c
	return c
}

func (w *Worker) method(t types.Type, name string, in *ins) *Code {
	k := methKey{t, name}
	if c, ok := w.methCache[k]; ok {
		return c
	}
	m := in.in.(ssa.CallInstruction).Common().Method
	w.prog.mu.Lock()
	fn := w.prog.prog.LookupMethod(t, m.Pkg(), name)
	w.prog.mu.Unlock()
	if fn == nil {
		panic(engineError{"no method " + name + " on " + t.String()})
	}
	c := w.prog.getCode(fn)
	w.methCache[k] = c
	return c
}

func (w *Worker) uninitChunk() *symChunk {
	c := new(symChunk)
	for i := range c {
		c[i] = w.ctx.uninit
	}
	return c
}

func (w *Worker) loop() {
	defer w.flush()
	for {
		j := w.run.next()
		if j == nil {
			return
		}
		w.runJob(j)
		w.run.done()
	}
}

func (w *Worker) flush() {
	w.flushSolver()
	r := w.run
	r.mu.Lock()
	defer r.mu.Unlock()
	a, b := &r.tot, &w.stats
	a.Branches += b.Branches
	a.Bounded += b.Bounded
	a.Steps += b.Steps
	a.Asserts += b.Asserts
	a.AssertQueries += b.AssertQueries
	a.Assumed += b.Assumed
	a.Paths += b.Paths
	a.Forks += b.Forks
	for l, n := range w.labels {
		r.labels[l] += n
	}
	for id, bl := range w.cov {
		for k, v := range bl {
			if v {
				m := r.cover[id]
				if m == nil {
					m = map[int]bool{}
					r.cover[id] = m
				}
				m[k] = true
			}
		}
	}
}

func (w *Worker) runJob(j *Job) {
	if len(w.ctx.tab) > 3000000 || w.solver == nil || w.boot == nil {
		if err := w.reset(); err != nil {
			w.job = j
			w.noteInconclusive(nil, "start-up: "+err.Error())
			return
		}
	}
	start := time.Now()
	w.job = j
	w.jobPrefix = j.prefix
	w.forked = false
	st := w.boot.clone()
	st.model = Model{}
	if err := w.protect(func() { st.doCall(w.codeOf(j.harness.fn), Value{}, nil, nil, -1) }); err != nil {
		w.noteInconclusive(st, err.Error())
		return
	}
	w.stack = append(w.stack[:0], st)
	for len(w.stack) > 0 {
		n := len(w.stack) - 1
		s := w.stack[n]
		w.stack[n] = nil
		w.stack = w.stack[:n]
		if w.deadlineHit() {
			if !w.run.stopped {
				w.noteInconclusive(s, "time budget")
			}
			w.stack = w.stack[:0]
			break
		}
		if err := w.protect(s.run); err != nil {
			w.noteInconclusive(s, err.Error())
		}
	}
	j.harness.mu.Lock()
	j.harness.jobs++
	j.harness.time += time.Since(start)
	j.harness.mu.Unlock()
}

// finish records a completed path.
func (w *Worker) finish(st *State) {
	w.stats.Paths++
	h := w.job.harness
	h.mu.Lock()
	h.paths++
	for l := range st.reached {
		h.reached[l]++
	}
	h.seenTr++
	n := h.seenTr
	keep := -1
	if len(h.traces) < w.run.keepTraces {
		keep = len(h.traces)
		h.traces = append(h.traces, nil)
	} else if w.run.keepTraces > 0 {
		// deterministic-seeded reservoir
		x := uint64(n)*0x9e3779b97f4a7c15 + uint64(w.run.seed)*0xd1342543de82ef95
		x ^= x >> 29
		if k := int(x % uint64(n)); k < w.run.keepTraces {
			keep = k
		}
	}
	h.mu.Unlock()
	if keep >= 0 {
		t := st.trace()
		h.mu.Lock()
		h.traces[keep] = t
		h.mu.Unlock()
	}
}

func (st *State) trace() *Trace {
	t := &Trace{Harness: st.w.job.harness.Name, Tier: st.w.run.tier, Prop: st.w.run.prop}
	for e := st.inputs; e != nil; e = e.prev {
		v := e.val
		if e.kind == 's' {
			v = st.model.Eval(e.term)
		}
		t.Inputs = append(t.Inputs, InputVal{e.name, v})
	}
	for i, j := 0, len(t.Inputs)-1; i < j; i, j = i+1, j-1 {
		t.Inputs[i], t.Inputs[j] = t.Inputs[j], t.Inputs[i]
	}
	for e := st.obs; e != nil; e = e.prev {
		var b []byte
		if e.bytes != nil {
			b = make([]byte, len(e.bytes))
			for i, x := range e.bytes {
				b[i] = byte(st.model.Eval(x))
			}
		} else {
			b = e.raw
		}
		t.Obs = append(t.Obs, ObsVal{e.label, fmt.Sprintf("%x", b)})
	}
	for i, j := 0, len(t.Obs)-1; i < j; i, j = i+1, j-1 {
		t.Obs[i], t.Obs[j] = t.Obs[j], t.Obs[i]
	}
	return t
}

// report records a counterexample described by the state's current model.
func (st *State) report(label, msg string) {
	t := st.trace()
	t.Label, t.Message = label, msg
	r := st.w.run
	key := t.Harness + "|" + label + "|" + msg
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nfind++
	if len(r.findings[key]) < 3 {
		r.findings[key] = append(r.findings[key], t)
	}
	if r.maxFind > 0 && r.nfind >= r.maxFind && !r.stopped {
		r.stopped = true
		r.cond.Broadcast()
	}
}

// violate reports and ends the path.
func (st *State) violate(label, msg string) {
	if label == "engine" {
		st.unsupported(msg)
	}
	st.report(label, msg)
	st.dead = true
	st.pushed = true
}

func (r *Run) findingList() []*Trace {
	var keys []string
	for k := range r.findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []*Trace
	for i := 0; i < 3; i++ {
		for _, k := range keys {
			if i < len(r.findings[k]) {
				out = append(out, r.findings[k][i])
			}
		}
	}
	return out
}

func propMatch(props, prop string) bool {
	for _, p := range strings.Fields(props) {
		if p == prop || prop == "ALL" {
			return true
		}
	}
	return false
}
