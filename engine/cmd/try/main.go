package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif/engine/exec"
)

func main() {
	t0 := time.Now()
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	ov := map[string]string{}
	filepath.Walk("/verif/harness", func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			r, _ := filepath.Rel("/verif/harness", p)
			ov[repo+"/internal/zzverif/"+r] = p
		}
		return nil
	})
	pr, err := exec.Load(exec.LoadConfig{Dir: repo, Module: "github.com/RomiChan/protobuf", Overlay: ov,
		Patterns: []string{"github.com/RomiChan/protobuf/internal/zzverif/h", "github.com/RomiChan/protobuf/internal/zzverif/model"}})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("loaded in", time.Since(t0))
	p := pr.Pkgs["github.com/RomiChan/protobuf/internal/zzverif/h"]
	p.Build()
	for _, a := range os.Args[1:] {
		for n := range p.Members {
			if !strings.HasPrefix(n, "H_") || !strings.Contains(n, a) {
				continue
			}
			var st exec.SolverStats
			res := exec.Explore(pr, p.Func(n), exec.Config{Workers: 8, MaxSteps: 2000000, Preempt: 2, SamplePaths: 3, Deadline: time.Now().Add(300 * time.Second), MaxViolations: 10}, &st)
			b, _ := json.MarshalIndent(res, "", " ")
			fmt.Println(string(b))
			b, _ = json.MarshalIndent(&st, "", " ")
			fmt.Println(string(b))
		}
	}
	fmt.Println("total", time.Since(t0))
}
