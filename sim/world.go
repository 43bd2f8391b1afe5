//go:build go1.22

// The simulated world: sets up the network, operating system, clients and
// servers around the real proxy process and collects the verdict.
//
// These files are overlaid into /repo/cmd/j8a, so the program that runs is
// the real main package, started by its real main function; everything here
// happens in init() and in goroutines it starts.

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/rs/zerolog"
	zlog "github.com/rs/zerolog/log"
	"github.com/simonmittag/j8a"
)

var (
	plan      *Plan
	firedCnt        = map[string]int{}
	bootedAt  int64 = -1
	exitCode        = -1
	exitAt    int64 = -1
	logLines  []logLine
	finishing bool
	stopAll   = make(chan struct{})
	outPath   string
	wantPlan  bool
	baseGor   map[string]int
	endGor    map[string]int
	leftConns []string
	metrics   = map[string]int{}
	trace     []string
	wantTrace bool
	idleAt    int64 = -1
)

type logLine struct {
	T int64
	M map[string]any
	S string
}

// Viol is one violated expectation.
type Viol struct {
	Props []string `json:"props"`
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
	Rid   int      `json:"rid"`
}

// Result is what a run reports.
type Result struct {
	Profile string         `json:"profile"`
	Seed    uint64         `json:"seed"`
	Hash    string         `json:"hash"`
	End     string         `json:"end"`
	Viols   []Viol         `json:"viols"`
	Fired   map[string]int `json:"fired"`
	Metrics map[string]int `json:"metrics"`
	SimNs   int64          `json:"simNs"`
	Steps   uint64         `json:"steps"`
	Decs    uint64         `json:"decisions"`
	Yields  uint64         `json:"yields"`
	Stalls  uint64         `json:"stalls"`
	StallNs int64          `json:"stallNs"`
	Hot     map[string]int `json:"hot,omitempty"`
	Plan    *Plan          `json:"plan,omitempty"`
	Trace   []string       `json:"trace,omitempty"`
}

func fired(kind string) { firedCnt[kind]++ }

func logEvent(kind string, id int, v uint64) {
	runtime.SimMix(strHash(kind) ^ uint64(id)<<20 ^ v ^ uint64(now())<<8)
	if wantTrace {
		trace = append(trace, fmt.Sprintf("%12.6f %s %d %d", float64(now())/1e9, kind, id, v))
	}
}

type logSink struct{}

var logMu sync.Mutex

func (logSink) Write(p []byte) (int, error) {
	var m map[string]any
	logMu.Lock()
	if json.Unmarshal(p, &m) == nil {
		logLines = append(logLines, logLine{T: now(), M: m})
	} else {
		logLines = append(logLines, logLine{T: now(), S: string(p)})
	}
	logMu.Unlock()
	return len(p), nil
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "verifsim-harness: "+f+"\n", a...)
	syscall.Exit(3)
}

func init() {
	if os.Getenv("VERIFSIM_OUT") == "" && os.Getenv("VERIFSIM_GEN") == "" {
		return
	}
	simInit()
}

func simInit() {
	outPath = os.Getenv("VERIFSIM_OUT")
	wantPlan = os.Getenv("VERIFSIM_WANTPLAN") != ""
	wantTrace = os.Getenv("VERIFSIM_TRACE") != ""
	if f := os.Getenv("VERIFSIM_PLAN"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			die("%v", err)
		}
		plan = &Plan{}
		if err := json.Unmarshal(b, plan); err != nil {
			die("%v", err)
		}
	} else {
		g := os.Getenv("VERIFSIM_GEN")
		i := strings.LastIndexByte(g, ':')
		s, err := strconv.ParseUint(g[i+1:], 10, 64)
		if err != nil {
			die("bad VERIFSIM_GEN %q", g)
		}
		plan = genPlan(g[:i], s)
		// the plan that runs is the plan as it reads back from a file
		b, _ := json.Marshal(plan)
		plan = &Plan{}
		json.Unmarshal(b, plan)
	}
	if os.Getenv("VERIFSIM_GENONLY") != "" {
		b, _ := json.MarshalIndent(plan, "", " ")
		os.Stdout.Write(b)
		syscall.Exit(0)
	}
	for _, r := range plan.Reqs {
		reqByID[r.ID] = r
	}
	setupCA()
	simEpoch = runtime.SimNow()

	// the process environment
	scratch := os.Getenv("VERIFSIM_SCRATCH")
	if scratch == "" {
		die("no scratch directory")
	}
	for _, e := range []string{"OS", "VERSION", "TZ", "LOGCOLOR", "J8ACFG_YML", "HTTP_PROXY", "HTTPS_PROXY", "http_proxy", "https_proxy"} {
		os.Unsetenv(e)
	}
	os.Setenv("HOSTNAME", "simhost")
	os.Setenv("LOGLEVEL", plan.LogLevel)
	os.Setenv("PATH", "")
	os.Setenv("HOST_PROC", filepath.Join(scratch, "proc"))
	for _, kv := range plan.Env {
		os.Setenv(kv[0], kv[1])
	}
	setupProc(scratch)
	conf := configText()
	os.Args = []string{"j8a"}
	put := func(name, text string) string {
		p := filepath.Join(scratch, name)
		os.Mkdir(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
			die("%v", err)
		}
		return p
	}
	// a configuration in a place that counts for less must not be used
	decoy := fmt.Sprintf("connection:\n  downstream:\n    port: %d\n    mode: HTTP\nroutes:\n  - path: /decoy\n    resource: about\n", plan.Cfg.port()%60000+1)
	if d := plan.Cfg.Decoy; d != "" {
		os.Chdir(scratch)
		if d != "default" && plan.Cfg.Source == "file" {
			os.Setenv("J8ACFG_YML", decoy)
		}
		if d != "env" && plan.Cfg.Source != "default" {
			put("j8acfg.yml", decoy)
		}
	}
	switch plan.Cfg.Source {
	case "file":
		p := filepath.Join(scratch, "cfg", "j8acfg.yml")
		if !plan.Cfg.Missing {
			put("cfg/j8acfg.yml", conf)
		}
		os.Args = []string{"j8a", "-c", p}
	case "default":
		if !plan.Cfg.Missing {
			put("j8acfg.yml", conf)
		}
		os.Chdir(scratch)
	default:
		os.Setenv("J8ACFG_YML", conf)
	}

	zlog.Logger = zerolog.New(logSink{}).With().Timestamp().Logger()
	net.SimDial = simDial
	net.SimListen = simListen
	http.SimReplay = func(r *http.Request) {
		id := ridOf(r.URL.String(), nil)
		if id < 0 {
			if v := r.Header["X-Sim-Id"]; len(v) > 0 {
				id, _ = strconv.Atoi(v[0])
			}
		}
		if id >= 0 {
			replays[id] = append(replays[id], now())
			fired("transport_replay")
		}
	}
	os.SimOpen = simOpen
	os.SimRead = simRead
	os.SimExit = func(code int) {
		if finishing {
			return
		}
		exitCode, exitAt = code, now()
		finish("exit")
	}
	startHosts()
	startFaults()
	s := plan.Sched
	runtime.SimStart(&runtime.SimConfig{
		Sched: s.Seed, Rand: s.Rand, Yield: s.Yield, SchedMode: s.Mode, YieldP: s.YieldP,
		StallP: s.StallP, StallMin: s.StallMin, StallMax: s.StallMax, StallBudget: s.Budget,
		HotSite: s.Hot, HotP: s.HotP, HotMax: s.HotMax, StepLimit: 300e6, SameLimit: 3e6,
	})
	runtime.SimMapPrefix = "github.com/simonmittag/j8a."
	go drive()
}

// drive runs the clients once the proxy listens and ends the run.
func drive() {
	limit := now() + 300*sec
	for lstn == nil {
		simSleep(ms)
		if now() > limit {
			finish("noboot")
		}
	}
	bootedAt = now()
	if _, p, _ := net.SplitHostPort(lstn.addr.String()); p != fmt.Sprint(plan.Cfg.port()) {
		violate(-1, "wrong-port", ps("P17"), "the proxy listens on port %s, its configuration says %d", p, plan.Cfg.port())
	}
	if !plan.Early {
		simSleep(5 * sec) // let boot-time daemons settle
		baseGor = gorCount()
	}
	logEvent("booted", 0, 0)
	if plan.BootOnly {
		finish("booted")
	}
	<-runClients()
	lastClient := now()
	logEvent("clients-done", 0, 0)
	// after the last client, every upstream exchange must be given up in bounded time
	grace := int64(plan.Cfg.UpRead+plan.Cfg.UpSocket*2+plan.Cfg.DnRound+3) * sec
	runtime.SimQuiet()
	if plan.Linger > 0 {
		simSleep(plan.Linger)
	}
	simSleep(lastClient + grace - now())
	noteBusy("after every deadline has passed")
	idleAt = now()
	simSleep(int64(plan.Cfg.UpIdle+plan.Cfg.DnIdle+15) * sec)
	noteOpen()
	for _, h := range plan.Hosts {
		if h.Kind == "jwks" {
			simSleep(130 * sec) // the key fetcher's own client and its pauses
			break
		}
	}
	endGor = gorCount()
	finish("ok")
}

func noteBusy(when string) {
	for _, u := range upConns {
		if u.busy && u.Closed < 0 && !u.c.peer.closed && !isJwks(u.Host) {
			leftConns = append(leftConns, fmt.Sprintf("connection %d to %s still has a request in flight %s", u.ID, u.Host, when))
		}
	}
}

func noteOpen() {
	for _, u := range upConns {
		if u.Closed < 0 && !u.c.peer.closed && !isJwks(u.Host) {
			leftConns = append(leftConns, fmt.Sprintf("connection %d to %s (%d requests served, idle since %.3fs) still open at %.3fs, past the idle timeout of %ds", u.ID, u.Host, u.Reqs, f(u.IdleAt), f(now()), plan.Cfg.UpIdle))
		}
	}
}

// gorCount counts the goroutines that run the proxy's own code, by where they
// were created.
func gorCount() map[string]int {
	b := make([]byte, 1<<20)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	out := map[string]int{}
	for _, g := range bytes.Split(b, []byte("\n\n")) {
		s := string(g)
		if !strings.Contains(s, "github.com/simonmittag/j8a.") && !strings.Contains(s, "net/http.(*persistConn)") && !strings.Contains(s, "lestrrat-go") {
			continue
		}
		if strings.Contains(s, "main.doH2") || strings.Contains(s, "main.runH2") {
			continue
		}
		who := "?"
		if i := strings.LastIndex(s, "created by "); i >= 0 {
			who = s[i+11:]
			if j := strings.IndexAny(who, " \n"); j > 0 {
				who = who[:j]
			}
		} else if strings.Contains(s, "main.main") {
			who = "main.main"
		}
		out[who]++
	}
	return out
}

func finish(end string) {
	if finishing {
		select {}
	}
	finishing = true
	st := runtime.SimGet()
	if n := runtime.SimMapYields(); n > 0 {
		firedCnt["map_write_interrupted"] = int(n)
	}
	res := &Result{Profile: plan.Profile, Seed: plan.Seed, Hash: fmt.Sprintf("%016x", st.Hash), End: end, Fired: firedCnt, Metrics: metrics,
		SimNs: now(), Steps: st.Steps, Decs: st.Decisions, Yields: st.Yields, Stalls: st.Stalls, StallNs: st.StallTotal}
	if end == "exit" {
		res.End = fmt.Sprintf("exit %d", exitCode)
	}
	oracle(end)
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Kind < viols[j].Kind })
	res.Viols = viols
	if wantPlan || len(viols) > 0 {
		res.Plan = plan
	}
	if wantTrace {
		res.Trace = dumpTrace()
	}
	b, err := json.Marshal(res)
	if err != nil {
		die("%v", err)
	}
	os.SimOpen, os.SimRead = nil, nil
	if outPath == "-" {
		os.Stdout.Write(append(b, '\n'))
	} else if err := os.WriteFile(outPath, b, 0o644); err != nil {
		die("%v", err)
	}
	syscall.Exit(0)
}

// ---------------------------------------------------------------- faults

func startFaults() {
	for _, ft := range plan.Faults {
		ft := ft
		switch ft.Kind {
		case "wall_jump":
			go func() {
				simSleep(ft.At)
				runtime.SimWallJump(ft.Arg)
				fired("wall_clock_jump")
				wallJumps = append(wallJumps, wallJump{now(), ft.Arg})
				logEvent("walljump", 0, uint64(ft.Arg))
			}()
		}
	}
}

// replays are the times at which the HTTP transport repeated a request.
var replays = map[int][]int64{}

func simSites() int { return j8a.SimSites_ }

// calmed is set when the heal profile's trouble ends.
var calmed bool

func calmDown() {
	if calmed {
		return
	}
	calmed = true
	runtime.SimQuiet()
	logEvent("calm", 0, 0)
}

type wallJump struct{ At, D int64 }

var wallJumps []wallJump

func osFault(name string) *Fault {
	for _, ft := range plan.Faults {
		if ft.Kind != "os_open" && ft.Kind != "os_read" && ft.Kind != "os_short" && ft.Kind != "os_slow" {
			continue
		}
		t := now()
		if t < ft.At || (ft.Dur > 0 && t >= ft.At+ft.Dur) {
			continue
		}
		if strings.Contains(name, ft.Path) {
			return ft
		}
	}
	return nil
}

func simOpen(name string, flag int) error {
	if plan == nil {
		return nil
	}
	if ft := osFault(name); ft != nil && ft.Kind == "os_open" {
		fired("os_open_error")
		e := []syscall.Errno{syscall.EMFILE, syscall.EACCES, syscall.ENOENT, syscall.EIO}[ft.Arg%4]
		return e
	}
	return nil
}

var readSoFar = map[string]int64{}

func simRead(name string, n int) (int, error) {
	if plan == nil {
		return -1, nil
	}
	ft := osFault(name)
	if ft == nil {
		return -1, nil
	}
	switch ft.Kind {
	case "os_read":
		// Arg bytes are readable, then the disk fails
		left := ft.Arg - readSoFar[name]
		if left <= 0 {
			fired("os_read_error")
			return 0, syscall.EIO
		}
		if int64(n) > left {
			n = int(left)
		}
		readSoFar[name] += int64(n)
		return n, nil
	case "os_short":
		fired("os_short_read")
		k := int(ft.Arg)
		if k < 1 {
			k = 1
		}
		return k, nil
	}
	return -1, nil
}

// setupProc writes the simulated /proc the process statistics read.
func setupProc(scratch string) {
	pid := strconv.Itoa(os.Getpid())
	d := filepath.Join(scratch, "proc")
	if err := os.MkdirAll(filepath.Join(d, "self"), 0o755); err != nil {
		die("%v", err)
	}
	w := func(n, s string) {
		if b, err := os.ReadFile(filepath.Join(d, n)); err == nil && string(b) == s {
			return
		}
		if err := os.WriteFile(filepath.Join(d, n), []byte(s), 0o644); err != nil {
			die("%v", err)
		}
	}
	w("self/stat", "4242 (j8a) S 1 4242 4242 0 -1 4194304 3000 0 0 0 120 60 0 0 20 0 9 0 100 1200000000 4000 18446744073709551615 1 1 0 0 0 0 0 0 2143420159 0 0 0 17 1 0 0 0 0 0\n")
	w("self/statm", "292968 4000 2000 500 0 30000 0\n")
	w("self/status", "Name:\tj8a\nState:\tS (sleeping)\nTgid:\t4242\nPid:\t4242\nPPid:\t1\nUid:\t0\t0\t0\t0\nGid:\t0\t0\t0\t0\nVmRSS:\t16000 kB\nThreads:\t9\n")
	w("meminfo", "MemTotal:       16384000 kB\nMemFree:         8192000 kB\nMemAvailable:   12000000 kB\nBuffers:          100000 kB\nCached:          2000000 kB\nSwapCached:            0 kB\nSwapTotal:             0 kB\nSwapFree:              0 kB\n")
	w("stat", "cpu  100 0 100 10000 0 0 0 0 0 0\ncpu0 100 0 100 10000 0 0 0 0 0 0\nbtime 1767225000\nprocesses 100\n")
	w("uptime", "1000.00 1000.00\n")
	os.Remove(filepath.Join(d, pid))
	if err := os.Symlink("self", filepath.Join(d, pid)); err != nil && !os.IsExist(err) {
		die("%v", err)
	}
	es, _ := os.ReadDir(d)
	for _, e := range es {
		if n := e.Name(); n != pid && n[0] >= '0' && n[0] <= '9' {
			os.Remove(filepath.Join(d, n))
		}
	}
}

// ---------------------------------------------------------------- config

func configText() string {
	c := &plan.Cfg
	if c.Raw != "" {
		return c.Raw
	}
	up := map[string]any{}
	short := map[string]string{"poolSize": "upPool", "socketTimeoutSeconds": "upSocket", "maxAttempts": "maxAttempts", "roundTripTimeoutSeconds": "dnRound", "maxBodyBytes": "maxBody"}
	side := "up"
	set := func(m map[string]any, k string, v int) {
		n := short[k]
		switch k {
		case "idleTimeoutSeconds":
			n = side + "Idle"
		case "readTimeoutSeconds":
			n = side + "Read"
		}
		if v != 0 && !c.left(n) {
			m[k] = v
		}
	}
	set(up, "poolSize", c.UpPool)
	set(up, "idleTimeoutSeconds", c.UpIdle)
	set(up, "socketTimeoutSeconds", c.UpSocket)
	set(up, "readTimeoutSeconds", c.UpRead)
	set(up, "maxAttempts", c.MaxAttempts)
	if c.Insecure {
		up["tlsInsecureSkipVerify"] = true
	}
	side = "dn"
	dn := map[string]any{}
	if !c.left("port") {
		dn["port"] = c.port()
	}
	set(dn, "readTimeoutSeconds", c.DnRead)
	set(dn, "roundTripTimeoutSeconds", c.DnRound)
	set(dn, "idleTimeoutSeconds", c.DnIdle)
	set(dn, "maxBodyBytes", int(c.MaxBody))
	if c.TLS {
		dn["mode"] = "TLS"
		dn["cert"], dn["key"] = downstreamCert(c)
		if c.BadTLS != "" {
			badDownstream(c.BadTLS, dn)
		}
	} else {
		dn["mode"] = "HTTP"
	}
	if c.Mode != "" {
		dn["mode"] = c.Mode
	}
	if c.left("mode") {
		delete(dn, "mode")
	}
	routes := []any{}
	for _, r := range c.Routes {
		m := map[string]any{"path": r.Path, "resource": r.Resource}
		if r.Transform != "" {
			m["transform"] = r.Transform
		}
		if r.Policy != "" {
			m["policy"] = r.Policy
		}
		if r.Jwt != "" {
			m["jwt"] = r.Jwt
		}
		routes = append(routes, m)
	}
	res := map[string]any{}
	for n, rs := range c.Resources {
		l := []any{}
		for _, r := range rs {
			u := map[string]any{"scheme": r.Scheme, "host": r.Host, "port": r.Port}
			m := map[string]any{"url": u}
			if len(r.Labels) > 0 {
				m["labels"] = r.Labels
			}
			l = append(l, m)
		}
		res[n] = l
	}
	out := map[string]any{"routes": routes, "resources": res, "connection": map[string]any{"upstream": up, "downstream": dn}}
	if len(c.Policies) > 0 {
		p := map[string]any{}
		for n, ls := range c.Policies {
			l := []any{}
			for _, x := range ls {
				l = append(l, map[string]any{"label": x.Label, "weight": x.Weight})
			}
			p[n] = l
		}
		out["policies"] = p
	}
	if len(c.Jwts) > 0 {
		j := map[string]any{}
		for n, w := range c.Jwts {
			m := map[string]any{}
			if w.Alg != "" {
				m["alg"] = w.Alg
			}
			if w.Key != "" {
				m["key"] = jwtKeyText(w)
			}
			if w.URL != "" {
				m["jwksUrl"] = w.URL
			}
			if w.Skew != "" {
				m["acceptableSkewSeconds"] = w.Skew
			}
			j[n] = m
		}
		out["jwt"] = j
	}
	for k, v := range c.Extra {
		out[k] = v
	}
	b, err := json.Marshal(out)
	if err != nil {
		die("%v", err)
	}
	return string(b)
}

// port is where the configuration says the proxy listens.
func (c *J8Cfg) port() int {
	switch {
	case c.Raw != "":
		return 8080
	case c.left("port") && c.TLS:
		return 443
	case c.left("port"):
		return 8080
	case c.Port != 0:
		return c.Port
	case c.TLS:
		return 8443
	}
	return 8080
}

func jwtKeyText(w *JwtCfg) string {
	if _, ok := keyPEM[w.Key]; ok {
		if w.Cert {
			return keyCertPEM(w.Key)
		}
		return pubPEM(w.Key)
	}
	if strings.HasPrefix(w.Key, "priv:") {
		return strings.TrimSpace(keyPEM[w.Key[5:]])
	}
	return w.Key
}

func f(ns int64) float64 { return float64(ns) / 1e9 }

func dumpTrace() []string {
	out := append([]string{}, trace...)
	for _, l := range logLines {
		b, _ := json.Marshal(l.M)
		out = append(out, fmt.Sprintf("%12.6f log %s%s", f(l.T), b, l.S))
	}
	for _, d := range dialLog {
		out = append(out, fmt.Sprintf("%12.6f dial %s -> %s at %.6f conn %d", f(d.T0), d.Host, d.Outcome, f(d.T1), d.Conn))
	}
	for i := 0; ; i++ {
		at, d, site, ok := runtime.SimStallLog(i)
		if !ok {
			break
		}
		out = append(out, fmt.Sprintf("%12.6f stall %.6f at site %d", f(at-simEpoch), f(d), site))
	}
	for _, a := range arrivals {
		out = append(out, fmt.Sprintf("%12.6f arrival rid=%d k=%d %s %s conn=%d/%d full=%v outcome=%s failT=%.6f t1=%.6f gone=%.6f body=%d bad=%s", f(a.T), a.Rid, a.K, a.Method, a.URI, a.Conn, a.ConnReq, a.Full, a.Outcome, f(a.FailT), f(a.T1), f(a.Gone), len(a.Body), a.Bad))
	}
	for _, r := range recs {
		out = append(out, fmt.Sprintf("%12.6f request rid=%d %s %s hdr=%.6f body=%.6f first=%.6f last=%.6f status=%d err=%q len=%d hdrs=%v", f(r.T0), r.P.ID, r.P.Method, r.P.URI, f(r.THdr), f(r.TBody), f(r.TFirst), f(r.TLast), r.Status, r.Err, len(r.Body), r.Hdr))
	}
	for _, c := range physConn {
		out = append(out, fmt.Sprintf("%12.6f clientconn %d plan=%d fin=%.6f extra=%q tls=%q", f(c.open), c.seq, c.plan.ID, f(c.fin), c.extra, c.tlsErr))
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i][:12] < out[j][:12] })
	return out
}

var _ = time.Now
