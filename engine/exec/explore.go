package exec

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

// Config bounds a run.
type Config struct {
	Workers        int
	MaxSteps       int64 // per path
	MaxPaths       int64
	Preempt        int
	FixedMapOrder  bool
	Deadline       time.Time
	MaxViolations  int
	SamplePaths    int // how many completed paths to keep with their models
	NoRace         bool
	Verbose        bool
	PoolAlwaysHits bool
	Tier           int
}

// Violation is a candidate counterexample.
type Violation struct {
	Harness string
	Msg     string
	Where   string
	Inputs  []uint64
	Choices []int
	Sched   []int8
}

// Sample is a completed path with one concrete input of it.
type Sample struct {
	Inputs []uint64
	Obs    []ObsVal
	Env    bool // environment choices were made on the path
}

type ObsVal struct {
	Name string
	Val  uint64
}

// Result of exploring one harness.
type Result struct {
	Harness     string
	Paths       int64
	Killed      int64
	Forks       int64
	Steps       int64
	Violations  []Violation
	Unsupported []string
	Cut         int64    // paths that could not be executed to their end
	Partial     []Sample // inputs leading to the cut
	Incomplete  string
	Reached     map[string]bool
	Samples     []Sample
	Wall        time.Duration
	MaxDepth    int64
	Vars        int64
	Schedules   int64
	Asserts     int64
}

type runner struct {
	prog  *Program
	cfg   Config
	stats *SolverStats

	mu          sync.Mutex
	cond        *sync.Cond
	queue       []*State
	active      int
	stop        bool
	res         *Result
	seenMsg     map[string]int
	pathN       atomic.Int64
	killN       atomic.Int64
	forkN       atomic.Int64
	stepN       atomic.Int64
	asserts     atomic.Int64
	sampleEvery int64
}

type worker struct {
	r      *runner
	cfg    *Config
	solver *Solver
	local  []*State
	seen   map[*Fn]bool
}

func (w *worker) cover(fn *Fn) {
	if !w.seen[fn] {
		w.seen[fn] = true
		w.r.prog.Covered.Store(fn, true)
	}
}

func (w *worker) push(s *State) {
	w.r.forkN.Add(1)
	r := w.r
	r.mu.Lock()
	r.queue = append(r.queue, s)
	r.mu.Unlock()
	r.cond.Signal()
}

// Explore runs a harness function to completion over all its paths.
func Explore(pr *Program, fn *ssa.Function, cfg Config, stats *SolverStats) *Result {
	t0 := time.Now()
	r := &runner{prog: pr, cfg: cfg, stats: stats, seenMsg: map[string]int{}}
	r.cond = sync.NewCond(&r.mu)
	r.res = &Result{Harness: fn.Name(), Reached: map[string]bool{}}
	init := &State{prog: pr, ep: new(epoch), fixed: map[*sym.Expr]uint64{}, reach: map[string]bool{}, maxSteps: cfg.MaxSteps}
	init.ignoreRace = cfg.NoRace
	init.threads = []*thread{{}}
	init.threads[0].vc[0] = 1
	w0 := &worker{r: r, cfg: &r.cfg, seen: map[*Fn]bool{}}
	init.w = w0
	perr := func() (e string) {
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(unsupported); ok {
					e = u.msg
					return
				}
				panic(x)
			}
		}()
		init.push(pr.fn(fn), nil, nil, -1)
		for _, p := range pr.eager {
			i := pr.pkgIndex(p)
			if !init.isInited(i) {
				init.startInit(i)
			}
		}
		return ""
	}()
	if perr != "" {
		r.res.Unsupported = append(r.res.Unsupported, perr)
		return r.res
	}
	r.queue = []*State{init}
	n := cfg.Workers
	if n < 1 {
		n = 1
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &worker{r: r, cfg: &r.cfg, solver: NewSolver(stats), seen: map[*Fn]bool{}}
			defer w.solver.Close()
			w.loop()
		}()
	}
	wg.Wait()
	r.res.Paths = r.pathN.Load()
	r.res.Killed = r.killN.Load()
	r.res.Forks = r.forkN.Load()
	r.res.Steps = r.stepN.Load()
	r.res.Asserts = r.asserts.Load()
	r.res.Wall = time.Since(t0)
	sort.Slice(r.res.Violations, func(i, j int) bool { return r.res.Violations[i].Msg < r.res.Violations[j].Msg })
	return r.res
}

func (w *worker) loop() {
	r := w.r
	for {
		r.mu.Lock()
		for len(r.queue) == 0 && r.active > 0 && !r.stop {
			r.cond.Wait()
		}
		if r.stop || len(r.queue) == 0 {
			r.mu.Unlock()
			r.cond.Broadcast()
			return
		}
		s := r.queue[len(r.queue)-1]
		r.queue = r.queue[:len(r.queue)-1]
		r.active++
		r.mu.Unlock()
		s.w = w
		w.run(s)
		r.mu.Lock()
		r.active--
		if r.active == 0 && len(r.queue) == 0 {
			r.cond.Broadcast()
		}
		r.mu.Unlock()
	}
}

func (r *runner) halt(why string) {
	r.mu.Lock()
	if why != "" && r.res.Incomplete == "" {
		r.res.Incomplete = why
	}
	r.stop = true
	r.mu.Unlock()
	r.cond.Broadcast()
}

// run executes one path to its end.
func (w *worker) run(st *State) {
	r := w.r
	start := st.steps
	defer func() { r.stepN.Add(st.steps - start) }()
	for {
		end := w.steps(st)
		if end == "" {
			continue
		}
		switch end {
		case "done":
			n := r.pathN.Add(1)
			r.mu.Lock()
			for k := range st.reach {
				r.res.Reached[k] = true
			}
			if st.steps > r.res.MaxDepth {
				r.res.MaxDepth = st.steps
			}
			if v := int64(len(st.nondet)); v > r.res.Vars {
				r.res.Vars = v
			}
			if r.cfg.SamplePaths > 0 && (len(r.res.Samples) < r.cfg.SamplePaths || n&(n-1) == 0) {
				s := Sample{Inputs: st.inputs(st.model), Env: len(st.choices) > 0}
				for _, o := range st.obs {
					s.Obs = append(s.Obs, ObsVal{o.name, sym.Eval(o.e, st.model)})
				}
				if len(r.res.Samples) < r.cfg.SamplePaths {
					r.res.Samples = append(r.res.Samples, s)
				} else {
					r.res.Samples[int(n>>1)%r.cfg.SamplePaths] = s
				}
			}
			r.mu.Unlock()
			if r.cfg.MaxPaths > 0 && n >= r.cfg.MaxPaths {
				r.halt("path limit")
			}
			if !r.cfg.Deadline.IsZero() && n%16 == 0 && time.Now().After(r.cfg.Deadline) {
				r.halt("time limit")
			}
		case "killed":
			r.killN.Add(1)
		case "stopped":
		}
		return
	}
}

func (st *State) inputs(m sym.Model) []uint64 {
	out := make([]uint64, 0, len(st.nondet))
	for _, n := range st.nondet {
		if !n.aux {
			out = append(out, sym.Eval(n.v, m))
		}
	}
	return out
}

func (st *State) where() string {
	s := ""
	th := st.th()
	for i := len(th.frames) - 1; i >= 0 && i >= len(th.frames)-6; i-- {
		f := th.frames[i]
		pos := ""
		if f.blk < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.blk].instrs) {
			p := st.prog.SSA.Fset.Position(f.fn.blocks[f.blk].instrs[f.pc].op.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf(" (%s:%d)", p.Filename, p.Line)
			}
		}
		s += f.fn.Name + pos + " < "
	}
	return s
}

// steps runs until the path ends or a signal was handled.
func (w *worker) steps(st *State) (end string) {
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		switch e := x.(type) {
		case needInit:
			st.startInit(e.pkg)
		case goPanic:
			end = w.guard(st, func() { st.raise(e.val) })
		case blockThread:
		case killPath:
			end = "killed"
		case violation:
			w.report(st, e.msg, st.model)
			end = "killed"
		case unsupported:
			w.unsupported(st, e.msg)
			end = "stopped"
		default:
			if os.Getenv("VERIF_PANIC") != "" {
				fmt.Fprintln(os.Stderr, "at", st.where())
				panic(x)
			}
			w.unsupported(st, fmt.Sprintf("engine failure: %v", x))
			end = "stopped"
		}
	}()
	for i := 0; ; i++ {
		th := st.th()
		if th.done {
			if st.cur == 0 {
				return "done"
			}
			if !th.joined {
				th.joined = true
				st.wake()
			}
			st.schedule(th)
			continue
		}
		if th.block {
			st.schedule(th)
			continue
		}
		st.step()
		if i&1023 == 1023 {
			if w.r.stop {
				return "stopped"
			}
			if !w.cfg.Deadline.IsZero() && time.Now().After(w.cfg.Deadline) {
				w.r.halt("time limit")
				return "stopped"
			}
		}
	}
}

// guard runs f, which may itself end the path.
func (w *worker) guard(st *State, f func()) (end string) {
	defer func() {
		x := recover()
		switch e := x.(type) {
		case nil:
		case violation:
			w.report(st, e.msg, st.model)
			end = "killed"
		case unsupported:
			w.unsupported(st, e.msg)
			end = "stopped"
		case blockThread:
		default:
			panic(x)
		}
	}()
	f()
	return ""
}

func (w *worker) unsupported(st *State, msg string) {
	r := w.r
	r.mu.Lock()
	r.res.Cut++
	m := msg + " at " + st.where()
	if i := strings.Index(m, " < "); i >= 0 {
		m = m[:i]
	}
	dup := false
	for _, u := range r.res.Unsupported {
		dup = dup || u == m
	}
	if !dup && len(r.res.Unsupported) < 8 {
		r.res.Unsupported = append(r.res.Unsupported, m)
	}
	if len(r.res.Partial) < 200 {
		r.res.Partial = append(r.res.Partial, Sample{Inputs: st.inputs(st.model), Env: true})
	}
	n := r.res.Cut
	r.mu.Unlock()
	if n >= 2000 {
		r.halt("too many paths cut")
	}
}

func (w *worker) report(st *State, msg string, m sym.Model) {
	r := w.r
	in := st.inputs(m)
	v := Violation{Msg: msg, Where: st.where(), Inputs: in, Choices: append([]int(nil), st.choices...), Sched: append([]int8(nil), st.sched...)}
	r.mu.Lock()
	v.Harness = r.res.Harness
	r.seenMsg[msg]++
	if r.seenMsg[msg] <= 3 && len(r.res.Violations) < 40 {
		r.res.Violations = append(r.res.Violations, v)
	}
	n := 0
	for _, c := range r.seenMsg {
		n += c
	}
	stop := r.cfg.MaxViolations > 0 && n >= r.cfg.MaxViolations
	r.mu.Unlock()
	if stop {
		r.halt("")
	}
}

// VERIF_FORKS=1 counts where paths split.
var forkProfile = os.Getenv("VERIF_FORKS") != ""
var forkAt = map[string]int{}
var forkMu sync.Mutex

func noteFork(st *State) {
	w := st.where()
	forkMu.Lock()
	forkAt[w]++
	forkMu.Unlock()
}

// ForkReport lists the places where most splits happened.
func ForkReport() []string {
	var l []string
	for k, n := range forkAt {
		l = append(l, fmt.Sprintf("%8d %s", n, k))
	}
	sort.Sort(sort.Reverse(sort.StringSlice(l)))
	if len(l) > 25 {
		l = l[:25]
	}
	return l
}
