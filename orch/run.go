package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const watchdog = 150 * time.Second

var profiles = []string{"mix", "fault", "race", "deadline", "retry", "body", "slow", "jwt", "jwks", "policy", "tls", "boot", "daemon", "about", "codec", "pool", "log", "heal", "deflt", "crowd"}

// crashProps are the properties, besides P01, that a crash or a hang of the
// process breaks in each profile.
var crashProps = map[string][]string{
	"daemon": {"P18"}, "jwks": {"P10", "P11"}, "jwt": {"P09"}, "about": {"P20"}, "codec": {"P21", "P06"},
	"boot": {"P17"}, "tls": {"P15"}, "body": {"P08"}, "policy": {"P12"}, "retry": {"P05"}, "deadline": {"P02"},
	"slow": {"P13"}, "log": {"P16"}, "race": {"P06"}, "pool": {"P14"}, "heal": {"P05"}, "deflt": {"P17"}, "crowd": {"P22"},
}

type job struct {
	profile string
	seed    uint64
	plan    json.RawMessage
	wd      time.Duration
}

type Viol struct {
	Props []string `json:"props"`
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
	Rid   int      `json:"rid"`
}

func (v Viol) has(id string) bool {
	for _, p := range v.Props {
		if p == id {
			return true
		}
	}
	return false
}

type Result struct {
	Profile string          `json:"profile"`
	Seed    uint64          `json:"seed"`
	Hash    string          `json:"hash"`
	End     string          `json:"end"`
	Viols   []Viol          `json:"viols"`
	Fired   map[string]int  `json:"fired"`
	Metrics map[string]int  `json:"metrics"`
	SimNs   int64           `json:"simNs"`
	Steps   uint64          `json:"steps"`
	Decs    uint64          `json:"decisions"`
	Yields  uint64          `json:"yields"`
	Stalls  uint64          `json:"stalls"`
	StallNs int64           `json:"stallNs"`
	Plan    json.RawMessage `json:"plan"`
	Trace   []string        `json:"trace"`
}

// outcome is what became of one run: a result, a crash or hang of the code
// under test, or an error of the harness.
type outcome struct {
	res     *Result
	crash   *Viol
	harness string
	err     string
	rss     int64
	wall    time.Duration
}

func (o *outcome) viols() []Viol {
	if o.crash != nil {
		return []Viol{*o.crash}
	}
	if o.res != nil {
		return o.res.Viols
	}
	return nil
}

var runSeq atomic.Int64

// run executes one simulated execution in a process of its own.
func (s *sim) run(j job, trace bool) *outcome {
	d := filepath.Join(s.dir, "r", fmt.Sprint(runSeq.Add(1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		return &outcome{harness: err.Error(), err: err.Error()}
	}
	defer os.RemoveAll(d)
	sc := filepath.Join(d, "s")
	os.Mkdir(sc, 0o755)
	out := filepath.Join(d, "out.json")
	env := []string{"GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=3GiB", "GODEBUG=memprofilerate=0,x509usefallbackroots=1",
		"VERIFSIM_SCRATCH=" + sc, "VERIFSIM_OUT=" + out, "HOME=" + sc, "GOTRACEBACK=all"}
	if j.plan != nil {
		pf := filepath.Join(d, "plan.json")
		if err := os.WriteFile(pf, j.plan, 0o644); err != nil {
			return &outcome{harness: err.Error(), err: err.Error()}
		}
		env = append(env, "VERIFSIM_PLAN="+pf)
	} else {
		env = append(env, fmt.Sprintf("VERIFSIM_GEN=%s:%d", j.profile, j.seed))
	}
	if trace {
		env = append(env, "VERIFSIM_TRACE=1", "VERIFSIM_WANTPLAN=1")
	}
	wd := j.wd
	if wd == 0 {
		wd = watchdog
	}
	ctx, cancel := context.WithTimeout(context.Background(), wd)
	defer cancel()
	c := exec.CommandContext(ctx, s.bin)
	c.Env = env
	c.Dir = sc
	var eb bytes.Buffer
	c.Stderr = &eb
	t0 := time.Now()
	err := c.Run()
	o := &outcome{wall: time.Since(t0)}
	if c.ProcessState != nil {
		if ru, ok := c.ProcessState.SysUsage().(*syscall.Rusage); ok {
			o.rss = ru.Maxrss
		}
	}
	if b, e := os.ReadFile(out); e == nil && err == nil {
		r := &Result{}
		if e := json.Unmarshal(b, r); e == nil {
			o.res = r
			return o
		}
	}
	prof := j.profile
	pl := struct {
		Profile  string `json:"profile"`
		Expect   string `json:"expect"`
		BootOnly bool   `json:"bootOnly"`
	}{}
	if j.plan != nil {
		json.Unmarshal(j.plan, &pl)
		prof = pl.Profile
	} else if prof == "boot" {
		// what the boot was expected to do decides what a crash means
		g := exec.Command(s.bin)
		g.Env = append(env, "VERIFSIM_GENONLY=1")
		if b, e := g.Output(); e == nil {
			json.Unmarshal(b, &pl)
		}
	}
	pp := append([]string{"P01"}, crashProps[prof]...)
	st := eb.String()
	o.err = tail(st, 3000)
	if ctx.Err() != nil {
		o.crash = &Viol{Props: pp, Kind: "hang", Msg: fmt.Sprintf("the process made no progress and did not end within %s of real time", wd), Rid: -1}
		return o
	}
	code := -1
	if c.ProcessState != nil {
		code = c.ProcessState.ExitCode()
	}
	switch {
	case code == 3 || strings.Contains(st, "verifsim-harness:"):
		o.harness = tail(st, 1500)
	case code == 2 && strings.Contains(st, "verifsim: livelock"):
		o.crash = &Viol{Props: pp, Kind: "livelock", Msg: "the process keeps running without simulated time ever advancing: " + firstFrame(st), Rid: -1}
	case code == 2:
		who, frame := blame(st)
		if who == "harness" {
			o.harness = tail(st, 3000)
			break
		}
		if prof == "boot" && pl.Expect != "serve" {
			// it did not serve, which is what the property demands
			o.res = &Result{Profile: prof, Seed: j.seed, Hash: "crash", End: "crash", Fired: map[string]int{"boot_crash": 1}, Metrics: map[string]int{}}
			break
		}
		m := st
		if i := strings.Index(m, "panic:"); i >= 0 {
			m = m[i:]
		} else if i := strings.Index(m, "fatal error:"); i >= 0 {
			m = m[i:]
		}
		if i := strings.IndexByte(m, '\n'); i > 0 {
			m = m[:i]
		}
		o.crash = &Viol{Props: pp, Kind: "crash", Msg: "the process crashed: " + m + " at " + frame, Rid: -1}
	case code == 0:
		o.crash = &Viol{Props: pp, Kind: "quit", Msg: "the process ended by itself", Rid: -1}
	default:
		if code == 1 {
			o.crash = &Viol{Props: pp, Kind: "quit", Msg: "the process exited with status 1: " + tail(st, 300), Rid: -1}
			break
		}
		o.harness = fmt.Sprintf("exit %d: %v %s", code, err, tail(st, 1500))
	}
	return o
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

var frameRe = regexp.MustCompile(`(?m)^\t(\S+\.go):(\d+)`)

// blame decides from a crash dump whose code failed.
func blame(st string) (string, string) {
	i := strings.Index(st, "\ngoroutine ")
	if i < 0 {
		return "code", "?"
	}
	g := st[i+1:]
	if j := strings.Index(g, "\n\n"); j >= 0 {
		g = g[:j]
	}
	first := "?"
	for _, m := range frameRe.FindAllStringSubmatch(g, -1) {
		p := m[1]
		if strings.Contains(p, "/src/runtime/") || strings.Contains(p, "runtime_sim") {
			continue
		}
		if first == "?" {
			first = filepath.Base(p) + ":" + m[2]
		}
		if strings.Contains(p, "verifsim_") || strings.Contains(p, "/sim/") {
			return "harness", first
		}
		if strings.HasPrefix(p, repoDir+"/") || strings.Contains(p, "/instr/") {
			return "code", first
		}
	}
	return "code", first
}

func firstFrame(st string) string {
	_, f := blame(st)
	return f
}

// each runs jobs on all cores and hands over the outcomes as they come, one at
// a time, until f says no.
func (s *sim) each(jobs []job, f func(i int, o *outcome) bool) {
	s.eachN(jobs, workers(), f)
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}

func (s *sim) eachN(jobs []job, w int, f func(i int, o *outcome) bool) {
	var next atomic.Int64
	var stop atomic.Bool
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				i := int(next.Add(1)) - 1
				if i >= len(jobs) {
					return
				}
				o := s.run(jobs[i], false)
				mu.Lock()
				if !stop.Load() && !f(i, o) {
					stop.Store(true)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}
