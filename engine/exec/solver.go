package exec

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/engine/sym"
)

// SolverStats are accumulated over all workers of a run.
type SolverStats struct {
	Queries, CacheHits, Sat, Unsat, Unknown atomic.Int64
	Nanos                                   atomic.Int64
	MaxNanos                                atomic.Int64
}

// Solver is one SMT solver process; queries are self-contained sets of
// boolean terms.
type Solver struct {
	bin     []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defined map[uint32]bool
	vars    map[string]bool
	stats   *SolverStats
	dump    io.Writer
}

var SolverBin = []string{"z3-new", "-in", "-smt2"}

// QueryTimeoutMS bounds a single query; running into it makes the run inconclusive.
var QueryTimeoutMS = 60000

func NewSolver(stats *SolverStats) *Solver { return &Solver{bin: SolverBin, stats: stats} }

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(unsupported{"cannot start solver: " + err.Error()})
	}
	s.defined = map[uint32]bool{}
	s.vars = map[string]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n")
	if strings.HasPrefix(s.bin[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", QueryTimeoutMS)
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(e *sym.Expr) {
	switch e.Op {
	case sym.OConst:
		return
	case sym.OVar:
		r := e.Ref()
		if !s.vars[r] {
			s.vars[r] = true
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", r, e.Sort())
		}
		return
	}
	if s.defined[e.ID] {
		return
	}
	s.defined[e.ID] = true
	for _, x := range [3]*sym.Expr{e.A, e.B, e.C} {
		if x != nil {
			s.define(x)
		}
	}
	fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", e.Ref(), e.Sort(), e.Body())
}

func varsOf(cs []*sym.Expr) []*sym.Expr {
	seen := map[*sym.Expr]bool{}
	var out []*sym.Expr
	var walk func(e *sym.Expr)
	walk = func(e *sym.Expr) {
		if e == nil || e.Op == sym.OConst || seen[e] {
			return
		}
		seen[e] = true
		if e.Op == sym.OVar {
			out = append(out, e)
			return
		}
		walk(e.A)
		walk(e.B)
		walk(e.C)
	}
	for _, c := range cs {
		walk(c)
	}
	return out
}

type assign struct {
	idx int
	val uint64
}

type result struct {
	sat  bool
	vals []assign
}

var qcache [64]struct {
	mu sync.Mutex
	m  map[string]result
}

// Check decides satisfiability of the conjunction.
func (s *Solver) Check(cs []*sym.Expr) result {
	ids := make([]uint32, len(cs))
	for i, c := range cs {
		ids[i] = c.ID
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	kb := make([]byte, 0, 4*len(ids))
	h := uint32(2166136261)
	for _, id := range ids {
		kb = append(kb, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
		h = (h ^ id) * 16777619
	}
	k := string(kb)
	sh := &qcache[(h>>7)%64]
	sh.mu.Lock()
	r, ok := sh.m[k]
	sh.mu.Unlock()
	if ok {
		s.stats.CacheHits.Add(1)
		return r
	}
	r = s.check(cs)
	sh.mu.Lock()
	if sh.m == nil || len(sh.m) > 200000 {
		sh.m = map[string]result{}
	}
	sh.m[k] = r
	sh.mu.Unlock()
	return r
}

func (s *Solver) check(cs []*sym.Expr) result {
	if s.cmd != nil && len(s.defined) > 300000 {
		s.Close()
	}
	if s.cmd == nil {
		s.start()
	}
	t0 := time.Now()
	for _, c := range cs {
		s.define(c)
	}
	vs := varsOf(cs)
	s.in.WriteString("(push 1)\n")
	for _, c := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", c.Ref())
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line := s.line()
	var r result
	switch line {
	case "sat":
		r.sat = true
		s.stats.Sat.Add(1)
		if len(vs) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vs {
				s.in.WriteString(v.Ref())
				s.in.WriteByte(' ')
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt := s.sexpr()
			r.vals = parseValues(txt)
			if len(r.vals) != len(vs) {
				panic(unsupported{"solver model: " + txt})
			}
		}
	case "unsat":
		s.stats.Unsat.Add(1)
	default:
		s.stats.Unknown.Add(1)
		s.Close()
		panic(unsupported{"solver answered " + strconv.Quote(line)})
	}
	s.in.WriteString("(pop 1)\n")
	d := time.Since(t0).Nanoseconds()
	s.stats.Queries.Add(1)
	s.stats.Nanos.Add(d)
	for {
		m := s.stats.MaxNanos.Load()
		if d <= m || s.stats.MaxNanos.CompareAndSwap(m, d) {
			break
		}
	}
	if r.sat { // the encoding is trusted only if the model really satisfies the query
		var m sym.Model
		for _, a := range r.vals {
			m = setModel(m, a.idx, a.val)
		}
		for _, c := range cs {
			if !sym.EvalBool(c, m) {
				panic(unsupported{"solver model does not satisfy " + c.String()})
			}
		}
	}
	return r
}

func setModel(m sym.Model, i int, v uint64) sym.Model {
	for len(m) <= i {
		m = append(m, 0)
	}
	m[i] = v
	return m
}

func (s *Solver) line() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			panic(unsupported{"solver died: " + err.Error() + " " + l})
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) sexpr() string {
	var sb strings.Builder
	d := 0
	for {
		l := s.line()
		sb.WriteString(l)
		sb.WriteByte(' ')
		d += strings.Count(l, "(") - strings.Count(l, ")")
		if d <= 0 {
			return sb.String()
		}
	}
}

func parseValues(t string) []assign {
	f := strings.FieldsFunc(t, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	var out []assign
	for i := 0; i+1 < len(f); i += 2 {
		n := f[i]
		j := strings.IndexByte(n, '_')
		if n[0] != 'v' || j < 0 {
			return nil
		}
		idx, err := strconv.Atoi(n[1:j])
		if err != nil {
			return nil
		}
		var v uint64
		x := f[i+1]
		switch {
		case strings.HasPrefix(x, "#x"):
			v, err = strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			v, err = strconv.ParseUint(x[2:], 2, 64)
		case x == "true":
			v = 1
		case x == "false":
		default:
			return nil
		}
		if err != nil {
			return nil
		}
		out = append(out, assign{idx, v})
	}
	return out
}
