// Command orch builds the simulator from /repo's working tree, searches seeds
// for a property, confirms, minimises and reports violations, and writes the
// evidence file.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

const repoDir = "/repo"

var verifDir = "/verif"

func fail(f string, a ...any) {
	fmt.Printf("ERROR: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 2 {
		fail("usage: check P01..P23 | replay FILE | build DIR | sweep PROFILE FROM TO")
	}
	switch os.Args[1] {
	case "build":
		s, err := buildSim(repoDir, verifDir, os.Args[2])
		if err != nil {
			fail("%v", err)
		}
		fmt.Println(len(s.sites), "scheduling points,", s.bin)
	case "smoke":
		os.Exit(smoke())
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "sweep":
		a, _ := strconv.ParseUint(os.Args[3], 10, 64)
		b, _ := strconv.ParseUint(os.Args[4], 10, 64)
		os.Exit(sweep(os.Args[2], a, b))
	default:
		os.Exit(check(os.Args[1]))
	}
}

// scratch makes a directory of this process's own.
func scratch() (string, func()) {
	d, err := os.MkdirTemp("", "verifsim-")
	if err != nil {
		fail("%v", err)
	}
	return d, func() { os.RemoveAll(d) }
}

func check(id string) int {
	pr := props[id]
	if pr == nil {
		fail("unknown property %s", id)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseUint(s, 10, 32)
		if err != nil {
			fail("VERIF_SEED=%q is not a number", s)
		}
		seed = n
	}
	t0 := time.Now()
	dir, done := scratch()
	s, err := buildSim(repoDir, verifDir, dir)
	if err != nil {
		done()
		fail("%v", err)
	}
	k, err := loadKnown()
	if err != nil {
		done()
		fail("%v", err)
	}
	e := newExplorer(s, pr, tier, seed, k)
	e.t0 = t0
	rc := e.run()
	done()
	return rc
}

// smoke builds the simulator and runs a few seeds, as a test of the framework.
func smoke() int {
	dir, done := scratch()
	defer done()
	s, err := buildSim(repoDir, verifDir, dir)
	if err != nil {
		done()
		fail("%v", err)
	}
	for _, p := range profiles {
		r := s.run(job{profile: p, seed: 1}, false)
		r2 := s.run(job{profile: p, seed: 1}, false)
		if r.res == nil || r2.res == nil {
			done()
			fail("profile %s does not run: %s", p, r.err)
		}
		if r.res.Hash != r2.res.Hash {
			done()
			fail("profile %s seed 1 is not repeatable: %s %s", p, r.res.Hash, r2.res.Hash)
		}
	}
	fmt.Printf("built in %.1fs, %d scheduling points, %d profiles run repeatably\n", s.buildS, len(s.sites), len(profiles))
	return 0
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fail("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fail("%v", err)
	}
	dir, done := scratch()
	defer done()
	s, err := buildSim(repoDir, verifDir, dir)
	if err != nil {
		done()
		fail("%v", err)
	}
	r := s.run(job{plan: rf.Plan, wd: watchdog}, true)
	hit := false
	for _, v := range r.viols() {
		for _, p := range v.Props {
			if p == rf.Property && v.Kind == rf.Kind {
				hit = true
			}
		}
		fmt.Printf("%v %s: %s\n", v.Props, v.Kind, v.Msg)
	}
	if r.res != nil {
		for _, l := range r.res.Trace {
			fmt.Println(" ", l)
		}
		fmt.Printf("hash %s, recorded %s\n", r.res.Hash, rf.Hash)
	}
	if hit {
		abs, _ := filepath.Abs(file)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, abs)
		return 1
	}
	fmt.Println("the violation does not occur on this tree")
	return 0
}

func sweep(profile string, a, b uint64) int {
	dir, done := scratch()
	defer done()
	s, err := buildSim(repoDir, verifDir, dir)
	if err != nil {
		done()
		fail("%v", err)
	}
	jobs := make([]job, 0)
	for i := a; i < b; i++ {
		jobs = append(jobs, job{profile: profile, seed: i})
	}
	n := 0
	s.each(jobs, func(i int, r *outcome) bool {
		for _, v := range r.viols() {
			n++
			fmt.Printf("%s:%d %v %s: %s\n", profile, jobs[i].seed, v.Props, v.Kind, v.Msg)
		}
		if r.harness != "" {
			fmt.Printf("%s:%d HARNESS %s\n", profile, jobs[i].seed, r.harness)
		}
		return true
	})
	fmt.Println(len(jobs), "runs,", n, "violations")
	if n > 0 {
		return 1
	}
	return 0
}
