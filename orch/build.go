package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// sim is a built simulator.
type sim struct {
	bin   string
	dir   string
	sites []string

	buildS float64
}

func goTool() (string, string, error) {
	for _, g := range []string{"/opt/veriftools/go1.27.3"} {
		if _, err := os.Stat(filepath.Join(g, "bin", "go")); err == nil {
			return filepath.Join(g, "bin", "go"), g, nil
		}
	}
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", "", fmt.Errorf("no go tool: %v", err)
	}
	g := strings.TrimSpace(string(out))
	return filepath.Join(g, "bin", "go"), g, nil
}

// buildSim builds the simulator from /repo's working tree into dir.
func buildSim(repo, verif, dir string) (*sim, error) {
	t0 := time.Now()
	gobin, goroot, err := goTool()
	if err != nil {
		return nil, err
	}
	var last error
	// If the splitting instrumentation does not compile with the current
	// tree, fall back to plain scheduling points.
	for _, rmw := range []bool{true, false} {
		ov, err := writeGoroot(goroot, dir, verif)
		if err != nil {
			return nil, err
		}
		in, sites, err := instrument(repo, dir, rmw)
		if err != nil {
			return nil, err
		}
		for k, v := range in {
			ov[k] = v
		}
		hs, err := filepath.Glob(filepath.Join(verif, "sim", "*.go"))
		if err != nil || len(hs) == 0 {
			return nil, fmt.Errorf("no harness in %s/sim", verif)
		}
		for _, h := range hs {
			ov[filepath.Join(repo, "cmd", "j8a", "zz_verifsim_"+filepath.Base(h))] = h
		}
		b, _ := json.Marshal(map[string]any{"Replace": ov})
		of := filepath.Join(dir, "overlay.json")
		if err := os.WriteFile(of, b, 0o644); err != nil {
			return nil, err
		}
		for _, f := range []string{"go.mod", "go.sum"} {
			b, err := os.ReadFile(filepath.Join(repo, f))
			if err != nil {
				return nil, err
			}
			if err := os.WriteFile(filepath.Join(dir, f), b, 0o644); err != nil {
				return nil, err
			}
		}
		s := &sim{bin: filepath.Join(dir, "j8asim"), dir: dir, sites: sites}
		c := exec.Command(gobin, "build", "-tags", "faketime", "-overlay", of, "-modfile", filepath.Join(dir, "go.mod"),
			"-buildvcs=false", "-trimpath=false", "-o", s.bin, "./cmd/j8a")
		c.Dir = repo
		c.Env = goEnv()
		out, err := c.CombinedOutput()
		if err == nil {
			s.buildS = time.Since(t0).Seconds()
			return s, nil
		}
		last = fmt.Errorf("building the simulator: %v\n%s", err, out)
	}
	return nil, last
}

func goEnv() []string {
	env := []string{"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOSUMDB=off"}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e+"=", '=')]
		switch k {
		case "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "CGO_ENABLED", "GOSUMDB", "GOROOT", "GOEXPERIMENT", "GODEBUG", "GOGC", "GOMAXPROCS", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	return env
}
