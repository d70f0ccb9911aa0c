package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strconv"

	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	osexec "os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/engine/exec"
)

// native builds and runs the replay program: the harnesses compiled with the
// real code.
type native struct {
	repo, verif, tmp string
	all              []*harness
	pkg              string            // the harness package in use
	gen              map[string]string // generated files
	bin, raceBin     string
	gcBin            string
	mu               sync.Mutex
}

type job struct {
	ID     int
	H      string
	Inputs []uint64
	Tier   int
}

type answer struct {
	ID     int
	Status string
	Msg    string
	Obs    []string
}

// overlay maps files that appear inside the module to the harness files.
func (n *native) overlay() map[string]string {
	ov := map[string]string{}
	root := filepath.Join(n.verif, "harness")
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && (strings.HasSuffix(p, ".go") || strings.HasSuffix(p, ".s")) {
			r, _ := filepath.Rel(root, p)
			ov[filepath.Join(n.repo, zz, r)] = p
		}
		return nil
	})
	for k, v := range n.gen {
		ov[k] = v
	}
	if n.pkg == "g" {
		n.command(ov)
	}
	return ov
}

// command overlays the source of the plugin's command as package plugin, which
// harnesses can call, with protogen replaced by what stands in for it.
func (n *native) command(ov map[string]string) {
	files, _ := filepath.Glob(filepath.Join(n.repo, "cmd", "protoc-gen-golite", "*.go"))
	for i, p := range files {
		src, err := os.ReadFile(p)
		if err != nil || strings.HasSuffix(p, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), "", src, parser.ImportsOnly)
		if err != nil {
			continue
		}
		out := string(src)
		put := func(from, to token.Pos, s string) { out = out[:from-1] + s + out[to-1:] }
		for j := len(f.Imports) - 1; j >= 0; j-- {
			if s := f.Imports[j]; s.Path.Value == `"google.golang.org/protobuf/compiler/protogen"` {
				put(s.Path.Pos(), s.Path.End(), `"`+module+"/"+zz+`/protogen"`)
			}
		}
		put(f.Name.Pos(), f.Name.End(), "plugin")
		to := filepath.Join(n.tmp, fmt.Sprintf("command%d.go", i))
		if os.WriteFile(to, []byte(out), 0o644) == nil {
			ov[filepath.Join(n.repo, zz, "plugin", filepath.Base(p))] = to
		}
	}
}

// generates reports whether the harness needs generated code.
func (n *native) generates() bool { return n.pkg == "k" || n.pkg == "o" }

// generate builds the plugin of the tree under test, runs it on the proto files
// of the harness and makes what it writes part of the overlay. It returns what
// is wrong with the generated code, if anything.
func (n *native) generate() (string, error) {
	n.gen = map[string]string{}
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")
	plug, main := filepath.Join(n.tmp, "plugin"), filepath.Join(n.tmp, "genmain")
	ovf := filepath.Join(n.tmp, "overlay-gen.json")
	write := func() {
		b, _ := json.Marshal(map[string]interface{}{"Replace": n.overlay()})
		os.WriteFile(ovf, b, 0o644)
	}
	write()
	run := func(name string, args ...string) (string, error) {
		cmd := osexec.Command(name, args...)
		cmd.Dir, cmd.Env = n.repo, env
		o, err := cmd.CombinedOutput()
		return string(o), err
	}
	if o, err := run("go", "build", "-o", plug, "./cmd/protoc-gen-golite"); err != nil {
		return "", fmt.Errorf("building the plugin: %v: %s", err, o)
	}
	if o, err := run("go", "build", "-overlay", ovf, "-o", main, "./"+zz+"/genmain"); err != nil {
		return "", fmt.Errorf("building the driver: %v: %s", err, o)
	}
	out := filepath.Join(n.tmp, "generated")
	if o, err := run(main, plug, out); err != nil {
		return "the generator fails: " + o, nil
	}
	filepath.Walk(out, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			r, _ := filepath.Rel(filepath.Join(out, module), p)
			n.gen[filepath.Join(n.repo, r)] = p
		}
		return nil
	})
	if len(n.gen) == 0 {
		return "the generator writes nothing", nil
	}
	write()
	if o, err := run("go", "build", "-overlay", ovf, "./"+zz+"/gen/...", "./"+zz+"/"+n.pkg); err != nil {
		return "the generated code does not compile: " + o, nil
	}
	return "", nil
}

func (n *native) build(mode string) error {
	n.mu.Lock()
	defer n.mu.Unlock()
	gc, race := mode == "gc", mode != ""
	if mode == "race" && n.raceBin != "" || gc && n.gcBin != "" || mode == "" && n.bin != "" {
		return nil
	}
	t, err := os.ReadFile(filepath.Join(n.verif, "harness", "run.tmpl"))
	if err != nil {
		return err
	}
	var reg strings.Builder
	for _, h := range n.all {
		if h.Pkg == n.pkg {
			fmt.Fprintf(&reg, "\t%q: h.%s,\n", h.Name, h.Name)
		}
	}
	main := filepath.Join(n.tmp, "run.go")
	src := strings.Replace(string(t), "//HARNESSES\n", reg.String(), 1)
	src = strings.Replace(src, "zzverif/h\"", "zzverif/"+n.pkg+"\"", 1)
	if err := os.WriteFile(main, []byte(src), 0o644); err != nil {
		return err
	}
	ov := n.overlay()
	ov[filepath.Join(n.repo, zz, "run", "main.go")] = main
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(n.tmp, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return err
	}
	if race {
		n.jitter(ov)
		b, _ = json.Marshal(map[string]interface{}{"Replace": ov})
		ovf = filepath.Join(n.tmp, "overlay-jit.json")
		if err := os.WriteFile(ovf, b, 0o644); err != nil {
			return err
		}
	}
	out := filepath.Join(n.tmp, "run")
	args := []string{"build", "-overlay", ovf, "-o", out}
	if gc {
		out += "-gc"
		args[4] = out
	} else if race {
		out += "-race"
		args = []string{"build", "-race", "-overlay", ovf, "-o", out}
	}
	cmd := osexec.Command("go", append(args, "./"+zz+"/run")...)
	cmd.Dir = n.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")
	o, err := cmd.CombinedOutput()
	if err != nil && race && !gc {
		// without the disturbance
		args[3] = filepath.Join(n.tmp, "overlay.json")
		cmd = osexec.Command("go", append(args, "./"+zz+"/run")...)
		cmd.Dir = n.repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")
		o, err = cmd.CombinedOutput()
	}
	if err != nil {
		return fmt.Errorf("%v: %s", err, o)
	}
	if gc {
		n.gcBin = out
	} else if race {
		n.raceBin = out
	} else {
		n.bin = out
	}
	return nil
}

// jitter overlays copies of the code under test that call jit.Y before every
// statement.
func (n *native) jitter(ov map[string]string) {
	for _, dir := range []string{"proto", "internal/runtime_reflect"} {
		files, _ := filepath.Glob(filepath.Join(n.repo, dir, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			fset := token.NewFileSet()
			t, err := parser.ParseFile(fset, f, src, 0)
			if err != nil {
				continue
			}
			var at []int
			list := func(l []ast.Stmt) {
				for _, s := range l {
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
			ast.Inspect(t, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.BlockStmt:
					if len(x.List) > 0 {
						switch x.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
				case *ast.CommClause:
					list(x.Body)
				}
				return true
			})
			if len(at) == 0 {
				continue
			}
			sort.Ints(at)
			var b bytes.Buffer
			end := fset.Position(t.Name.End()).Offset
			b.Write(src[:end])
			b.WriteString("; import zzjit " + strconv.Quote(module+"/"+zz+"/jit"))
			last := end
			for _, o := range at {
				b.Write(src[last:o])
				b.WriteString("zzjit.Y(); ")
				last = o
			}
			b.Write(src[last:])
			out := filepath.Join(n.tmp, strings.ReplaceAll(dir, "/", "_")+"_"+filepath.Base(f))
			if os.WriteFile(out, b.Bytes(), 0o644) == nil {
				ov[f] = out
			}
		}
	}
}

// runJobs runs jobs in one process until it ends; fewer answers than jobs
// mean that it died.
func (n *native) runJobs(bin string, jobs []job, env []string) ([]answer, string) {
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, j := range jobs {
		enc.Encode(j)
	}
	cmd := osexec.Command(bin)
	cmd.Dir = n.tmp
	cmd.Stdin = &in
	cmd.Env = append(append(os.Environ(), "GOTRACEBACK=single", "GODEBUG=clobberfree=1"), env...)
	var stderr bytes.Buffer
	cmd.Stderr = &limited{w: &stderr, n: 1 << 16}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err.Error()
	}
	if err := cmd.Start(); err != nil {
		return nil, err.Error()
	}
	kill := time.AfterFunc(5*time.Minute, func() { cmd.Process.Kill() })
	var ans []answer
	sc := bufio.NewReaderSize(out, 1<<20)
	for {
		l, err := sc.ReadBytes('\n')
		var a answer
		if len(l) > 0 && json.Unmarshal(l, &a) == nil {
			ans = append(ans, a)
		}
		if err != nil {
			break
		}
	}
	werr := cmd.Wait()
	kill.Stop()
	msg := stderr.String()
	if werr != nil && msg == "" {
		msg = werr.Error()
	}
	if werr == nil && !strings.Contains(msg, "DATA RACE") {
		msg = ""
	}
	return ans, msg
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(b []byte) (int, error) {
	if l.n > 0 {
		k := len(b)
		if k > l.n {
			k = l.n
		}
		l.w.Write(b[:k])
		l.n -= k
	}
	return len(b), nil
}

// batch runs many inputs, restarting the process where it dies.
func (n *native) batch(h *harness, ss []exec.Sample, tier int) []answer {
	out := make([]answer, len(ss))
	var jobs []job
	for i, s := range ss {
		jobs = append(jobs, job{i, h.Name, s.Inputs, tier})
	}
	for len(jobs) > 0 {
		ans, msg := n.runJobs(n.bin, jobs, nil)
		k := 0
		for _, a := range ans {
			if a.ID < 0 {
				break
			}
			out[a.ID] = a
			k++
		}
		if k < len(jobs) {
			out[jobs[k].ID] = answer{jobs[k].ID, "fail", "the process died: " + first(msg), nil}
			k++
		}
		jobs = jobs[k:]
	}
	return out
}

func first(s string) string {
	l := strings.SplitN(strings.TrimSpace(s), "\n", 4)
	if len(l) > 3 {
		l = l[:3]
	}
	return strings.Join(l, " / ")
}

// reproduce shows a candidate on the real code, in fresh processes.
func (n *native) reproduce(h *harness, v exec.Violation, tier int) (bool, string) {
	if err := n.build(""); err != nil {
		return false, err.Error()
	}
	j := []job{{0, h.Name, v.Inputs, tier}}
	tries := 1
	if len(v.Choices) > 0 || len(v.Sched) > 0 {
		tries = 40
	}
	try := func(bin string, env []string) (bool, string) {
		ans, msg := n.runJobs(bin, j, env)
		if len(ans) == 0 || ans[0].ID < 0 {
			if msg == "" && len(ans) > 0 {
				msg = "the call does not return"
			}
			return true, "the process died: " + first(msg)
		}
		if ans[0].Status == "fail" {
			return true, ans[0].Msg
		}
		if strings.Contains(msg, "DATA RACE") {
			return true, "data race: " + first(msg)
		}
		return false, ""
	}
	for i := 0; i < tries; i++ {
		if ok, msg := try(n.bin, nil); ok {
			return true, msg
		}
	}
	_, gc := h.Opts["gc"]
	_, work := h.Opts["work"]
	if gc || work {
		if err := n.build("gc"); err != nil {
			return false, err.Error()
		}
		for i := 0; i < 3; i++ {
			if ok, msg := try(n.gcBin, nil); ok {
				return true, msg
			}
		}
	}
	if h.Opts["race"] != "" {
		if err := n.build("race"); err != nil {
			return false, err.Error()
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		found := ""
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < 40; i++ {
					mu.Lock()
					stop := found != ""
					mu.Unlock()
					if stop {
						return
					}
					env := []string{"GORACE=halt_on_error=1", fmt.Sprintf("VERIF_JITTER=%d", 1+w*40+i)}
					if ok, msg := try(n.raceBin, env); ok {
						mu.Lock()
						found = msg
						mu.Unlock()
					}
				}
			}(w)
		}
		wg.Wait()
		if found != "" {
			return true, found
		}
	}
	return false, ""
}

func (n *native) replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal(err)
	}
	var r struct {
		Property, Harness, Message, Package string
		Inputs                              []uint64
		Choices                             []int
		Schedule                            []int8
		Tier                                int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(err)
	}
	if r.Harness == "generated" {
		n.pkg = r.Package
		bad, err := n.generate()
		fmt.Println("generated code:", bad, err)
		if bad != "" || err != nil {
			return 1
		}
		return 0
	}
	for _, h := range n.all {
		if h.Name == r.Harness {
			n.pkg = h.Pkg
			if n.generates() {
				if bad, err := n.generate(); bad != "" || err != nil {
					fmt.Println("generated code:", bad, err)
					return 1
				}
			}
			ok, msg := n.reproduce(h, exec.Violation{Inputs: r.Inputs, Choices: r.Choices, Sched: r.Schedule}, r.Tier)
			fmt.Println("reproduced:", ok, msg)
			if ok {
				return 1
			}
			return 0
		}
	}
	fatal("no such harness")
	return 2
}
