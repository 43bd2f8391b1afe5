package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type replayFile struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"`
	Message  string          `json:"message"`
	Profile  string          `json:"profile"`
	Seed     uint64          `json:"seed"`
	Hash     string          `json:"hash"`
	Note     string          `json:"note"`
	Plan     json.RawMessage `json:"plan"`
	Trace    []string        `json:"trace,omitempty"`
}

// known is one entry of known-findings.json.
type known struct {
	Property string `json:"property"`
	Kind     string `json:"kind,omitempty"`
	Match    string `json:"match,omitempty"` // the message of the violation
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"` // a fixed entry suppresses nothing
	re       *regexp.Regexp
}

func loadKnown() ([]*known, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var d struct {
		Findings []*known `json:"findings"`
	}
	if err := json.Unmarshal(b, &d); err != nil {
		return nil, fmt.Errorf("known-findings.json: %v", err)
	}
	var out []*known
	for _, k := range d.Findings {
		if k.Fixed != "" || k.Kind == "" || k.Match == "" {
			continue
		}
		if k.re, err = regexp.Compile(k.Match); err != nil {
			return nil, err
		}
		out = append(out, k)
	}
	return out, nil
}

type explorer struct {
	s     *sim
	p     *prop
	tier  string
	seed  uint64
	known []*known
	t0    time.Time

	runs, nontrivial, events int
	hashes                   map[string]bool
	nhashes                  map[string]bool
	fired, metrics           map[string]int
	perProfile               map[string]int
	simNs, stallNs           int64
	steps, decs, yields      uint64
	maxRss                   int64
	samples                  []any
	sampled                  map[string]int
	other                    map[string]int
	unrepro                  []string
	harness                  []string
	knownHit                 map[*known]int
	exploreS                 float64
	deterministic            int
	nondet                   int
	violations               int
}

func newExplorer(s *sim, p *prop, tier string, seed uint64, k []*known) *explorer {
	return &explorer{s: s, p: p, tier: tier, seed: seed, known: k, hashes: map[string]bool{}, nhashes: map[string]bool{}, fired: map[string]int{}, metrics: map[string]int{},
		perProfile: map[string]int{}, sampled: map[string]int{}, other: map[string]int{}, knownHit: map[*known]int{}}
}

// plan makes the list of seeds: a smooth weighted round robin over profiles.
func (e *explorer) jobs(n int) []job {
	cur := make([]float64, len(e.p.shares))
	sum := 0.0
	for _, s := range e.p.shares {
		sum += s.w
	}
	next := make([]uint64, len(cur))
	var out []job
	for len(out) < n {
		best := 0
		for i := range cur {
			cur[i] += e.p.shares[i].w
			if cur[i] > cur[best] {
				best = i
			}
		}
		cur[best] -= sum
		out = append(out, job{profile: e.p.shares[best].profile, seed: e.seed*1_000_000 + next[best]})
		next[best]++
	}
	return out
}

func (e *explorer) isKnown(v Viol) *known {
	for _, k := range e.known {
		if k.Property == e.p.id && k.Kind == v.Kind && k.re.MatchString(v.Msg) {
			return k
		}
	}
	return nil
}

func (e *explorer) touched(r *Result) bool {
	for _, t := range e.p.touch {
		switch {
		case t == "stalls":
			if r.Stalls > 0 {
				return true
			}
		case t == "boot":
			return true
		case strings.HasPrefix(t, "fired:"):
			for k, n := range r.Fired {
				if n > 0 && strings.HasPrefix(k, t[6:]) {
					return true
				}
			}
		case strings.HasPrefix(t, "metric:"):
			for k, n := range r.Metrics {
				if n > 0 && strings.HasPrefix(k, t[7:]) {
					return true
				}
			}
		}
	}
	return false
}

func (e *explorer) note(j job, o *outcome) {
	e.runs++
	if o.rss > e.maxRss {
		e.maxRss = o.rss
	}
	e.perProfile[j.profile]++
	r := o.res
	if r == nil {
		return
	}
	for k, n := range r.Fired {
		e.fired[k] += n
	}
	for k, n := range r.Metrics {
		e.metrics[k] += n
	}
	e.simNs += r.SimNs
	e.stallNs += r.StallNs
	e.steps += r.Steps
	e.decs += r.Decs
	e.yields += r.Yields
	e.hashes[r.Hash] = true
	if e.touched(r) {
		e.nhashes[r.Hash] = true
		if e.sampled[j.profile] < 1 && len(e.samples) < 12 {
			e.sampled[j.profile]++
			e.samples = append(e.samples, map[string]any{"profile": j.profile, "seed": j.seed, "hash": r.Hash, "end": r.End, "simulated_s": float64(r.SimNs) / 1e9,
				"scheduling_decisions": r.Decs, "faults": r.Fired, "metrics": r.Metrics})
		}
	}
}

type hit struct {
	j job
	v Viol
}

func (e *explorer) run() int {
	n := e.p.quick
	limit := 240 * time.Second
	if e.tier == "thorough" {
		n *= 200
		limit = 600 * time.Second
	}
	js := e.jobs(n)
	tx := time.Now()
	var hits []hit
	e.s.each(js, func(i int, o *outcome) bool {
		e.note(js[i], o)
		if o.harness != "" {
			e.harness = append(e.harness, fmt.Sprintf("%s:%d %s", js[i].profile, js[i].seed, o.harness))
			return len(e.harness) < 4
		}
		stop := false
		var mine []hit // one per kind
		for _, v := range o.viols() {
			if !v.has(e.p.id) {
				e.other[strings.Join(v.Props, ",")+" "+v.Kind]++
				continue
			}
			if k := e.isKnown(v); k != nil {
				e.knownHit[k]++
				continue
			}
			stop = true
			seen := false
			for _, h := range mine {
				seen = seen || h.v.Kind == v.Kind
			}
			if !seen {
				mine = append(mine, hit{js[i], v})
			}
		}
		// one violating run that repeats is enough
		if stop && e.confirm(mine, &hits) {
			return false
		}
		return time.Since(tx) < limit
	})
	e.exploreS = time.Since(tx).Seconds()
	if len(hits) == 0 {
		e.selfCheck(js)
	}
	for _, k := range e.known {
		if k.Property == e.p.id {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d occurrences in this run)\n", e.p.id, k.What, e.knownHit[k])
		}
	}
	rc := 0
	if len(hits) > 0 {
		e.violations = len(hits)
		h := hits[0]
		file := e.report(h)
		fmt.Printf("VIOLATION property=%s replay=%s\n", e.p.id, file)
		rc = 1
	}
	e.evidence()
	if rc == 0 {
		fmt.Printf("%s: held on %d simulated runs (%d distinct schedules, %.0f simulated s) in %.1fs\n", e.p.id, e.runs, len(e.hashes), float64(e.simNs)/1e9, time.Since(e.t0).Seconds())
		if len(e.harness) > 0 {
			fmt.Printf("ERROR: %d runs ended in an error of the harness: %s\n", len(e.harness), e.harness[0])
			return 2
		}
	}
	return rc
}

// confirm repeats a violating run; only what repeats is reported.
func (e *explorer) confirm(mine []hit, hits *[]hit) bool {
	for range 2 {
		o := e.s.run(mine[0].j, false)
		for _, h := range mine {
			for _, v := range o.viols() {
				if v.has(e.p.id) && v.Kind == h.v.Kind {
					*hits = append(*hits, h)
					return true
				}
			}
		}
	}
	h := mine[0]
	e.unrepro = append(e.unrepro, fmt.Sprintf("%s:%d %s: %s", h.j.profile, h.j.seed, h.v.Kind, h.v.Msg))
	return false
}

// selfCheck runs some seeds again and compares the hashes of the executions.
func (e *explorer) selfCheck(js []job) {
	var again []job
	for i := 0; i < len(js) && len(again) < 8; i += len(js)/8 + 1 {
		again = append(again, js[i], js[i])
	}
	hs := make([]string, len(again))
	e.s.each(again, func(i int, o *outcome) bool {
		if o.res != nil {
			hs[i] = o.res.Hash
		}
		return true
	})
	for i := 0; i+1 < len(hs); i += 2 {
		if hs[i] == hs[i+1] {
			e.deterministic++
		} else {
			e.nondet++
		}
	}
}

func (e *explorer) report(h hit) string {
	full := e.s.run(h.j, true)
	rf := replayFile{Property: e.p.id, Kind: h.v.Kind, Message: h.v.Msg, Profile: h.j.profile, Seed: h.j.seed}
	if full.res != nil && full.res.Plan != nil {
		rf.Plan = full.res.Plan
		rf.Hash = full.res.Hash
		rf.Trace = full.res.Trace
	} else {
		rf.Plan = e.s.genPlan(h.j)
	}
	if rf.Plan != nil {
		m, tried, kept := e.minimise(rf.Plan, h.v.Kind)
		o := e.s.run(job{plan: m}, true)
		for _, v := range o.viols() {
			if v.has(e.p.id) && v.Kind == h.v.Kind {
				rf.Plan, rf.Message = m, v.Msg
				if o.res != nil {
					rf.Hash, rf.Trace = o.res.Hash, o.res.Trace
				}
				rf.Note = fmt.Sprintf("minimised: %d of %d tried reductions kept", kept, tried)
				break
			}
		}
	}
	fmt.Printf("%s %s (profile %s, seed %d): %s\n", e.p.id, h.v.Kind, h.j.profile, h.j.seed, rf.Message)
	d := filepath.Join(verifDir, "replays")
	os.MkdirAll(d, 0o755)
	file := filepath.Join(d, fmt.Sprintf("%s-%s-%d.json", e.p.id, h.j.profile, h.j.seed))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(file, b, 0o644); err != nil {
		fail("%v", err)
	}
	return file
}

func (e *explorer) evidence() {
	wall := time.Since(e.t0).Seconds()
	h := e.exploreS / 3600
	if h == 0 {
		h = 1
	}
	if len(e.samples) == 0 {
		e.samples = []any{"no run of this check was non-trivial"}
	}
	shares := []string{}
	for _, s := range e.p.shares {
		shares = append(shares, fmt.Sprintf("%s:%g", s.profile, s.w))
	}
	faults := map[string]int{}
	nf := 0
	for k, n := range e.fired {
		faults[k] = n
		nf += n
	}
	cov := map[string]any{
		"evaluations":                e.runs,
		"distinct_nontrivial":        len(e.nhashes),
		"rule":                       "each evaluation is one seeded simulated execution of the real proxy (profiles and weights: " + strings.Join(shares, " ") + "); distinct executions are told apart by a hash over every scheduling decision and every network, upstream and client event with its simulated time; a run is non-trivial when " + e.p.what,
		"samples":                    e.samples,
		"runs_per_hour":              float64(e.runs) / h,
		"seeds_per_hour":             float64(e.runs) / h,
		"runs_per_profile":           e.perProfile,
		"distinct_executions":        len(e.hashes),
		"simulated_seconds":          float64(e.simNs) / 1e9,
		"faults_injected":            faults,
		"faults_injected_total":      nf,
		"injected_stall_seconds":     float64(e.stallNs) / 1e9,
		"scheduler_steps":            e.steps,
		"scheduling_decisions":       e.decs,
		"preemptions_at_statements":  e.yields,
		"observed":                   e.metrics,
		"violations_of_other_props":  e.other,
		"unreproducible_alarms":      e.unrepro,
		"harness_errors":             len(e.harness),
		"repeat_runs_same_hash":      e.deterministic,
		"repeat_runs_different_hash": e.nondet,
		"scheduling_points_in_code":  len(e.s.sites),
		"max_rss_kb":                 e.maxRss,
		"build_s":                    e.s.buildS,
		"real_components":            []string{"all of github.com/simonmittag/j8a and its main package from /repo's working tree, with scheduling points inserted before every statement", "net/http client and server, HTTP/2, crypto/tls, x509, compress/gzip, lestrrat jwx, zerolog, gopsutil, yaml", "the Go scheduler, timers, channels and garbage collector, under a patched runtime that takes scheduling, time and randomness from the seed"},
		"stub_components":            []string{"TCP (in-memory simulated network behind net.Dial and net.Listen)", "upstream servers, key servers and clients", "wall and monotonic clock", "name resolution", "/proc and file reads (simulated errors and short reads on real scratch files)", "process exit"},
	}
	ev := map[string]any{
		"property": e.p.id, "tier": e.tier, "seed": e.seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": e.violations,
		"assumptions": []string{
			"goroutines interleave at statement boundaries of the proxy's own code (reads and writes of one shared-location update are split) and at blocking operations, sequentially consistent; weaker memory orders are not simulated",
			"libraries interleave only at their blocking operations",
			"the simulated TCP network never corrupts or reorders bytes within a connection",
			"the search samples seeds: absence of a violation is evidence, not proof",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verifDir, "evidence")
	os.MkdirAll(d, 0o755)
	if err := os.WriteFile(filepath.Join(d, e.p.id+".json"), b, 0o644); err != nil {
		fail("%v", err)
	}
}

func sortedKeys[T any](m map[string]T) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
