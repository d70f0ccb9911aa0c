// check decides one property by symbolic execution of the real code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/exec"
)

const module = "github.com/RomiChan/protobuf"
const zz = "internal/zzverif"

// harness is one entry point with its options, read from its comment.
type harness struct {
	Name string
	Pkg  string // directory under harness
	Opts map[string]string
	Doc  string
}

func (h *harness) int(k string, d int) int {
	if v, ok := h.Opts[k]; ok {
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	}
	return d
}

var funcRE = regexp.MustCompile(`(?m)((?:^//.*\n)*)^func (H_\w+)\(\)`)

func readHarnesses(dir string) ([]*harness, error) {
	var out []*harness
	files, _ := filepath.Glob(filepath.Join(dir, "h", "*.go"))
	for _, d := range []string{"g", "k", "o"} {
		more, _ := filepath.Glob(filepath.Join(dir, d, "*.go"))
		files = append(files, more...)
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		for _, m := range funcRE.FindAllStringSubmatch(string(b), -1) {
			if m[2] == "H_" {
				continue
			}
			h := &harness{Name: m[2], Pkg: filepath.Base(filepath.Dir(f)), Opts: map[string]string{}}
			for _, l := range strings.Split(m[1], "\n") {
				l = strings.TrimSpace(strings.TrimPrefix(l, "//"))
				if !strings.HasPrefix(l, "verif:") {
					h.Doc = strings.TrimSpace(h.Doc + " " + l)
					continue
				}
				for _, o := range strings.Fields(l[6:]) {
					kv := strings.SplitN(o, "=", 2)
					if len(kv) == 1 {
						kv = append(kv, "1")
					}
					h.Opts[kv[0]] = kv[1]
				}
			}
			out = append(out, h)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out, nil
}

type finding struct {
	prop, harness string
	match, text   string // what a message must contain, and what is printed
}

// readKnown reads the known-findings file. Only lines starting with
// "known:" suppress anything.
func readKnown(file string) []finding {
	b, _ := os.ReadFile(file)
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := finding{}
		for _, w := range strings.Fields(l[7:]) {
			switch {
			case f.prop == "" && strings.HasPrefix(w, "property="):
				f.prop = w[9:]
			case f.harness == "" && strings.HasPrefix(w, "harness="):
				f.harness = w[8:]
			}
		}
		if i := strings.Index(l, "fails="); i >= 0 {
			f.text = l[i+6:]
			f.match = strings.SplitN(f.text, " -- ", 2)[0]
		}
		out = append(out, f)
	}
	return out
}

type harnessReport struct {
	Harness      string   `json:"harness"`
	About        string   `json:"about,omitempty"`
	Paths        int64    `json:"paths"`
	Discarded    int64    `json:"paths_outside_assumptions"`
	Forks        int64    `json:"forks"`
	Instructions int64    `json:"ssa_instructions"`
	Assertions   int64    `json:"assertions_decided"`
	MaxVars      int64    `json:"max_symbolic_inputs_on_a_path"`
	Cut          int64    `json:"paths_cut,omitempty"`
	CutWhy       []string `json:"cut_because,omitempty"`
	Incomplete   string   `json:"incomplete,omitempty"`
	Reached      []string `json:"witnesses_reached,omitempty"`
	Replayed     int      `json:"paths_replayed_natively"`
	Wall         float64  `json:"wall_s"`
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

func main() {
	prop := flag.String("p", "", "property")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "code under test")
	verif := flag.String("verif", "/verif", "this framework")
	only := flag.String("only", "", "run only harnesses containing this")
	replay := flag.String("replay", "", "replay a recorded violation")
	solver := flag.String("solver", "", "z3 or cvc5")
	budget := flag.Int("budget", 0, "seconds")
	verbose := flag.Bool("v", false, "print every harness")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tnum := 0
	if *tier == "thorough" {
		tnum = 1
	}
	secs := 420
	if tnum == 1 {
		secs = 3 * 3600
	}
	if *budget > 0 {
		secs = *budget
	}
	t0 := time.Now()
	deadline := t0.Add(time.Duration(secs) * time.Second)

	all, err := readHarnesses(filepath.Join(*verif, "harness"))
	if err != nil {
		fatal(err)
	}
	tmp, err := os.MkdirTemp("", "verif-check-")
	if err != nil {
		fatal(err)
	}
	code := 2
	func() {
		defer os.RemoveAll(tmp)
		nat := &native{repo: *repo, verif: *verif, tmp: tmp, all: all}
		if *replay != "" {
			code = nat.replayFile(*replay)
			return
		}
		c := &check{prop: *prop, tier: *tier, tnum: tnum, seed: seed, repo: *repo, verif: *verif, nat: nat, deadline: deadline, t0: t0, verbose: *verbose}
		for _, h := range all {
			if !strings.HasPrefix(h.Name, "H_"+*prop+"_") || *only != "" && !strings.Contains(h.Name, *only) {
				continue
			}
			if _, ok := h.Opts["thorough"]; ok && tnum == 0 {
				continue
			}
			c.hs = append(c.hs, h)
			nat.pkg = h.Pkg
		}
		if len(c.hs) == 0 {
			fmt.Fprintln(os.Stderr, "no harness for", *prop)
			return
		}
		if *solver == "cvc5" {
			exec.SolverBin = []string{"cvc5", "--incremental", "--produce-models", "--lang", "smt2", "-q"}
		}
		code = c.run()
	}()
	os.Exit(code)
}

type check struct {
	prop, tier  string
	tnum, seed  int
	repo, verif string
	nat         *native
	hs          []*harness
	deadline    time.Time
	t0          time.Time
	verbose     bool

	stats    exec.SolverStats
	reports  []*harnessReport
	problems []string
	cands    int
	unrepro  []string
	confirm  []confirmed
	samples  []interface{}
	replayed int
}

type confirmed struct {
	h     *harness
	v     exec.Violation
	msg   string
	file  string
	known *finding
}

func (c *check) run() int {
	if c.nat.generates() {
		bad, err := c.nat.generate()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if bad != "" {
			return c.broken(bad)
		}
	}
	ov := c.nat.overlay()
	pr, err := exec.Load(exec.LoadConfig{Dir: c.repo, Module: module, Overlay: ov,
		Patterns: []string{module + "/" + zz + "/" + c.nat.pkg, module + "/" + zz + "/model"}})
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the code:", err)
		return 2
	}
	built := make(chan error, 1)
	go func() { built <- c.nat.build("") }()
	pkg := pr.Pkgs[module+"/"+zz+"/"+c.nat.pkg]
	pkg.Build()
	var built1 bool
	known := readKnown(filepath.Join(c.verif, "known_findings.txt"))
	complete := int64(0)
	for i, h := range c.hs {
		fn := pkg.Func(h.Name)
		if fn == nil {
			c.problems = append(c.problems, h.Name+": not found")
			continue
		}
		// time left is shared by the harnesses still to run
		left := time.Until(c.deadline)
		share := left / time.Duration(len(c.hs)-i) * 3
		if share > left {
			share = left
		}
		if share < 2*time.Second {
			share = 2 * time.Second
		}
		res := c.explore(pr, fn, h, time.Now().Add(share))
		if !built1 {
			if err := <-built; err != nil {
				fmt.Fprintln(os.Stderr, "cannot build the replay program:", err)
				return 2
			}
			built1 = true
		}
		rep := &harnessReport{Harness: h.Name, About: h.Doc, Paths: res.Paths, Discarded: res.Killed, Forks: res.Forks, Instructions: res.Steps,
			Assertions: res.Asserts, MaxVars: res.Vars, Cut: res.Cut, CutWhy: res.Unsupported, Incomplete: res.Incomplete, Wall: res.Wall.Seconds()}
		for k := range res.Reached {
			rep.Reached = append(rep.Reached, k)
		}
		sort.Strings(rep.Reached)
		for _, r := range strings.Split(h.Opts["reach"], ",") {
			if r != "" && !res.Reached[r] && len(res.Violations) == 0 {
				c.problems = append(c.problems, h.Name+": situation never reached: "+r)
			}
		}
		complete += res.Paths
		c.reports = append(c.reports, rep)
		if res.Cut > 0 || res.Incomplete != "" {
			c.problems = append(c.problems, fmt.Sprintf("%s: %s cut=%d %s", h.Name, res.Incomplete, res.Cut, strings.Join(res.Unsupported, " | ")))
		}
		c.violations(h, res, known)
		c.validate(h, res, rep, known)
		if c.verbose {
			b, _ := json.Marshal(rep)
			fmt.Println(string(b))
		}
		if c.failed() {
			break
		}
	}
	c.write(pr)
	n := 0
	for _, f := range c.confirm {
		if f.known != nil {
			fmt.Printf("KNOWN-FINDING: property=%s harness=%s fails=%s\n", c.prop, f.h.Name, f.known.text)
			continue
		}
		n++
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, f.file)
		fmt.Printf("  harness %s: %s\n  at %s\n  inputs %v\n", f.h.Name, f.msg, f.v.Where, clip(f.v.Inputs))
	}
	for _, p := range c.problems {
		fmt.Println("NOTE:", p)
	}
	for _, u := range c.unrepro {
		fmt.Println("UNREPRODUCED:", u)
	}
	for _, r := range c.reports {
		fmt.Printf("%s: %d paths, %d assertions decided, %d replayed, %.1fs\n", r.Harness, r.Paths, r.Assertions, r.Replayed, r.Wall)
	}
	fmt.Printf("property=%s tier=%s queries=%d cached=%d solver=%.1fs wall=%.1fs violations=%d\n", c.prop, c.tier, c.stats.Queries.Load(), c.stats.CacheHits.Load(), float64(c.stats.Nanos.Load())/1e9, time.Since(c.t0).Seconds(), n)
	if os.Getenv("VERIF_FORKS") != "" {
		fmt.Println(strings.Join(exec.ForkReport(), "\n"))
	}
	switch {
	case n > 0:
		return 1
	case complete == 0:
		fmt.Println("ERROR: nothing could be explored")
		return 2
	case len(c.unrepro) > 0:
		fmt.Println("ERROR: the encoding and the code disagree")
		return 2
	}
	return 0
}

// broken reports generated code that cannot be used at all.
func (c *check) broken(msg string) int {
	dir := filepath.Join(c.verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	f := confirmed{h: &harness{Name: "generated"}, msg: msg, file: filepath.Join(dir, c.prop+"-0.json")}
	b, _ := json.MarshalIndent(map[string]interface{}{"property": c.prop, "harness": "generated", "package": c.nat.pkg, "message": msg}, "", " ")
	os.WriteFile(f.file, append(b, '\n'), 0o644)
	c.confirm = append(c.confirm, f)
	c.write(nil)
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", c.prop, f.file, msg)
	return 1
}

func clip(v []uint64) []uint64 {
	if len(v) > 40 {
		return v[:40]
	}
	return v
}

func (c *check) failed() bool {
	for _, f := range c.confirm {
		if f.known == nil {
			return true
		}
	}
	return false
}

func (c *check) explore(pr *exec.Program, fn *ssa.Function, h *harness, dl time.Time) *exec.Result {
	cfg := exec.Config{
		Workers:       runtime.NumCPU(),
		MaxSteps:      int64(h.int("steps", 4000000)),
		Preempt:       h.int("preempt", 2+c.tnum),
		SamplePaths:   h.int("samples", 24+c.tnum*200),
		Deadline:      dl,
		MaxViolations: 12,
		Tier:          c.tnum,
	}
	if _, ok := h.Opts["fixedmap"]; ok {
		cfg.FixedMapOrder = true
	}
	if _, ok := h.Opts["poolhits"]; ok {
		cfg.PoolAlwaysHits = true
	}
	return exec.Explore(pr, fn, cfg, &c.stats)
}

// violations replays each candidate against the real code.
func (c *check) violations(h *harness, res *exec.Result, known []finding) {
	msgs := map[string]bool{}
	for _, v := range res.Violations {
		c.cands++
		if msgs[v.Msg] {
			continue
		}
		ok, msg := c.nat.reproduce(h, v, c.tnum)
		if !ok {
			// maybe another candidate of the same kind reproduces
			c.unrepro = append(c.unrepro, fmt.Sprintf("%s: %s at %s inputs %v", h.Name, v.Msg, v.Where, clip(v.Inputs)))
			continue
		}
		msgs[v.Msg] = true
		c.add(h, v, v.Msg+" (natively: "+msg+")", known)
	}
	if len(msgs) > 0 {
		c.unrepro = nil
	}
}

func (c *check) add(h *harness, v exec.Violation, msg string, known []finding) {
	f := confirmed{h: h, v: v, msg: msg}
	for i := range known {
		k := &known[i]
		if k.prop == c.prop && k.harness == h.Name && k.match != "" && strings.Contains(msg, k.match) {
			f.known = k
			for _, g := range c.confirm {
				if g.known == k {
					return
				}
			}
		}
	}
	dir := filepath.Join(c.verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	f.file = filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.prop, len(c.confirm)))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": c.prop, "harness": h.Name, "message": msg, "where": v.Where, "inputs": v.Inputs, "choices": v.Choices, "schedule": v.Sched, "tier": c.tnum, "concurrent": h.Opts["race"] != ""}, "", " ")
	os.WriteFile(f.file, append(b, '\n'), 0o644)
	c.confirm = append(c.confirm, f)
}

// validate runs sampled paths, and the inputs of paths that were cut,
// against the real code and compares what it observes.
func (c *check) validate(h *harness, res *exec.Result, rep *harnessReport, known []finding) {
	if len(res.Violations) > 0 {
		return
	}
	rng := rand.New(rand.NewSource(int64(c.seed)))
	rng.Shuffle(len(res.Samples), func(i, j int) { res.Samples[i], res.Samples[j] = res.Samples[j], res.Samples[i] })
	jobs := append(append([]exec.Sample(nil), res.Samples...), res.Partial...)
	ans := c.nat.batch(h, jobs, c.tnum)
	for i, a := range ans {
		s := jobs[i]
		switch a.Status {
		case "ok":
			if i >= len(res.Samples) {
				continue
			}
			rep.Replayed++
			c.replayed++
			if len(c.samples) < 6 && (len(c.samples) == 0 || i == 0) {
				c.samples = append(c.samples, map[string]interface{}{"harness": h.Name, "inputs": clip(s.Inputs), "observed": a.Obs})
			}
			if s.Env {
				continue
			}
			want := []string{}
			for _, o := range s.Obs {
				want = append(want, fmt.Sprintf("%s=%d", o.Name, o.Val))
			}
			if strings.Join(want, " ") != strings.Join(a.Obs, " ") {
				c.unrepro = append(c.unrepro, fmt.Sprintf("%s: path observed %v, the code %v, inputs %v", h.Name, want, a.Obs, clip(s.Inputs)))
			}
		case "skip":
			if i < len(res.Samples) {
				c.unrepro = append(c.unrepro, fmt.Sprintf("%s: inputs of a path violate its assumptions: %v", h.Name, clip(s.Inputs)))
			}
		default:
			v := exec.Violation{Harness: h.Name, Msg: "native run of a path: " + a.Msg, Where: "replay", Inputs: s.Inputs}
			if ok, msg := c.nat.reproduce(h, v, c.tnum); ok {
				c.add(h, v, "native run of an explored input: "+msg, known)
				return
			}
		}
	}
}

func (c *check) write(pr *exec.Program) {
	var mod, other, loaded []string
	if pr != nil {
		mod, other = pr.FnNames()
		loaded = pr.Files()
	}
	var st, tr, paths, asserts, vars int64
	for _, r := range c.reports {
		st += r.Paths + r.Discarded
		tr += r.Instructions
		paths += r.Paths
		asserts += r.Assertions
		if r.MaxVars > vars {
			vars = r.MaxVars
		}
	}
	var files []string
	for _, f := range loaded {
		if strings.HasPrefix(f, c.repo+"/") && !strings.Contains(f, zz) {
			files = append(files, strings.TrimPrefix(f, c.repo+"/"))
		}
	}
	nv := 0
	for _, f := range c.confirm {
		if f.known == nil {
			nv++
		}
	}
	bounds, assume := boundsOf(c.verif, c.prop)
	if c.samples == nil {
		c.samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "wall_s": time.Since(c.t0).Seconds(), "violations": nv,
		"coverage": map[string]interface{}{
			"states": st, "transitions": tr, "traces_validated_against_impl": c.replayed, "samples": c.samples,
			"states_are":                "symbolic execution paths (each stands for every input satisfying its path condition)",
			"transitions_are":           "SSA instructions of the real code and the harness executed symbolically",
			"paths_completed":           paths,
			"assertions_decided":        asserts,
			"solver":                    strings.Join(exec.SolverBin, " "),
			"queries_discharged":        c.stats.Queries.Load(),
			"queries_answered_cached":   c.stats.CacheHits.Load(),
			"queries_sat":               c.stats.Sat.Load(),
			"queries_unsat":             c.stats.Unsat.Load(),
			"queries_unknown":           c.stats.Unknown.Load(),
			"solver_s":                  float64(c.stats.Nanos.Load()) / 1e9,
			"slowest_query_s":           float64(c.stats.MaxNanos.Load()) / 1e9,
			"functions_encoded":         mod,
			"library_functions_encoded": other,
			"source_files":              files,
			"bounds":                    bounds,
			"max_symbolic_inputs":       vars,
			"harnesses":                 c.reports,
			"reduced":                   c.problems,
			"candidates":                c.cands,
			"disagreements":             c.unrepro,
		},
		"assumptions": assume,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err)
	}
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
}

// boundsOf reads the stated bounds and assumptions of a property.
func boundsOf(verif, prop string) (bounds, assume []string) {
	b, err := os.ReadFile(filepath.Join(verif, "bounds.json"))
	if err != nil {
		return nil, nil
	}
	var m map[string]struct{ Bounds, Assumptions []string }
	if err := json.Unmarshal(b, &m); err != nil {
		fatal("bounds.json:", err)
	}
	bounds = append(append(bounds, m["*"].Bounds...), m[prop].Bounds...)
	assume = append(append(assume, m["*"].Assumptions...), m[prop].Assumptions...)
	return
}
