//go:build go1.22

// Seeded generation of plans: which proxy configuration, which traffic and
// which faults one run has.  genPlan is a pure function of profile and seed.

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type gen struct {
	r   *rng
	p   *Plan
	rid int
	cid int
}

var profiles = []string{"mix", "fault", "race", "deadline", "retry", "body", "slow", "jwt", "jwks", "policy", "tls", "boot", "daemon", "about", "codec", "pool", "log", "heal", "deflt", "crowd"}

func genPlan(profile string, seed uint64) *Plan {
	g := &gen{r: newRng(strHash(profile), seed, 0x5eed), rid: 1}
	r := g.r
	g.p = &Plan{Profile: profile, Seed: seed, NetSeed: r.next(), LogLevel: pick(r, "INFO", "INFO", "INFO", "WARN0", "DEBUG", "TRACE")}
	if g.p.LogLevel == "WARN0" {
		g.p.LogLevel = "INFO"
	}
	g.p.Sched = SchedPlan{Seed: r.next(), Rand: r.next(), Yield: r.next(), Mode: uint32(r.n(4)), YieldP: []uint32{0, 400, 4000, 16000}[r.n(4)]}
	c := &g.p.Cfg
	c.Source = pick(r, "env", "env", "file", "default")
	c.UpPool = 1 + r.n(20)
	c.UpIdle = 3 + r.n(20)
	c.UpSocket = 1 + r.n(4)
	c.UpRead = 1 + r.n(6)
	c.MaxAttempts = 1 + r.n(5)
	c.DnRead = 3 + r.n(8)
	c.DnRound = c.DnRead + 1 + r.n(20)
	c.DnIdle = 4 + r.n(20)
	c.MaxBody = int64(1000 + r.n(30000))
	c.Resources = map[string][]*ResMap{}
	g.drawDefaults()
	g.defaults()
	switch profile {
	case "fault":
		g.mix(true, nil)
		g.stalls()
	case "race":
		g.race()
	case "deadline":
		g.deadline()
	case "retry":
		g.retry()
	case "body":
		g.body()
	case "slow":
		g.slow()
	case "jwt":
		g.jwt()
	case "jwks":
		g.jwks()
	case "policy":
		g.policy()
	case "tls":
		g.tls()
	case "boot":
		g.boot()
	case "daemon":
		g.daemon()
	case "about":
		g.about()
	case "codec":
		g.codec()
	case "pool":
		g.pool()
	case "log":
		g.p.LogLevel = pick(r, "TRACE", "DEBUG", "INFO")
		g.mix(r.p(0.5), nil)
		for _, q := range g.p.Reqs {
			if r.p(0.3) {
				q.Hdr = append(q.Hdr, [2]string{"X-Request-Debug", pick(r, "true", "TRUE", "false", "1")})
			}
		}
	case "heal":
		g.heal()
	case "deflt":
		g.deflt()
	case "crowd":
		g.crowd()
	default:
		g.p.NoFaults = true
		g.mix(false, nil)
	}
	switch profile {
	case "mix", "fault", "codec", "retry", "pool", "log":
		g.big()
	}
	g.surroundings()
	return g.p
}

// surroundings draws environment variables that are no configuration.
func (g *gen) surroundings() {
	r := newRng(g.p.Seed, strHash(g.p.Profile), 0xe4)
	add := func(k, v string) { g.p.Env = append(g.p.Env, [2]string{k, v}) }
	if r.p(0.06) && len(g.p.Cfg.Jwts) == 0 {
		add(pick(r, "HTTP_PROXY", "http_proxy", "HTTPS_PROXY", "https_proxy", "ALL_PROXY"), "http://egress.example:3128")
	}
	if c := &g.p.Cfg; r.p(0.1) {
		if c.TLS {
			c.Mode = pick(r, "tls", "Tls", "tLS")
		} else if r.p(0.5) {
			c.Mode = pick(r, "http", "Http")
		} else {
			c.Defaults = append(c.Defaults, "mode")
		}
	}
	for _, n := range sortedKeys(g.p.Cfg.Jwts) {
		if w := g.p.Cfg.Jwts[n]; r.p(0.25) && keyPEM[w.Key] != "" {
			w.Cert = true
		}
	}
	for _, h := range g.p.Hosts {
		if h.TLS != "" && r.p(0.3) {
			h.TLSMax = 3 + r.n(2)
		}
		if h.TLS != "" && r.p(0.3) {
			h.TLSKind = "rsa"
		}
	}
	if r.p(0.05) {
		add("TZ", pick(r, "Asia/Tokyo", "America/St_Johns", ":nonsense"))
	}
	if pr := g.p.Profile; pr != "daemon" && pr != "policy" && r.p(0.08) {
		g.p.LogLevel = pick(r, "", "", "warn", "WARN", "Info", "debug", "verbose")
	}
	if r.p(0.05) {
		add("OS", pick(r, "windows", "darwin", "plan9"))
	}
	if r.p(0.05) {
		add("VERSION", pick(r, "v9.9.9", "1", "v1 \"rc\"", `v0\7`, "v1 %s", "<v1&2>", "v1é"))
	}
	if r.p(0.03) {
		add(pick(r, "PORT", "MODE", "HOST", "J8ACFG", "CONFIG", "GIN_MODE"), pick(r, "1", "9999", "TLS", "release"))
	}
}

// drawDefaults decides which parameters the configuration leaves out; they then
// have their documented values.
func (g *gen) drawDefaults() {
	c := &g.p.Cfg
	r := newRng(strHash("defaults"), g.p.Seed, strHash(g.p.Profile))
	if r.p(0.3) {
		c.Defaults = append(c.Defaults, "port")
	} else if r.p(0.5) {
		c.Port = []int{80, 8090, 443, 18443, 65000}[r.n(5)]
	}
	if r.p(0.15) || (g.p.Profile == "boot" && r.p(0.3)) {
		c.Decoy = pick(r, "env", "default", "both", "both")
	}
	switch g.p.Profile {
	case "daemon", "policy", "jwks", "race":
		return
	}
	if !r.p(0.12) {
		return
	}
	all := r.p(0.2)
	on := func(k string, p float64) {
		if all || r.p(p) {
			c.Defaults = append(c.Defaults, k)
		}
	}
	on("upPool", .2)
	on("upIdle", .3)
	on("upSocket", .3)
	on("upRead", .25)
	on("maxAttempts", .3)
	on("dnRound", .3)
	if c.left("dnRound") {
		on("dnRead", .5)
	}
	on("dnIdle", .3)
	on("maxBody", .2)
}

func (c *J8Cfg) left(k string) bool {
	for _, d := range c.Defaults {
		if d == k && k != "" {
			return true
		}
	}
	return false
}

// defaults gives the parameters the configuration leaves out their documented values.
func (g *gen) defaults() {
	c := &g.p.Cfg
	for _, d := range c.Defaults {
		switch d {
		case "upPool":
			c.UpPool = 32768
		case "upIdle":
			c.UpIdle = 120
		case "upSocket":
			c.UpSocket = 3
		case "upRead":
			c.UpRead = 120
		case "maxAttempts":
			c.MaxAttempts = 1
		case "dnRead":
			c.DnRead = 120
		case "dnRound":
			c.DnRound = 240
		case "dnIdle":
			c.DnIdle = 120
		case "maxBody":
			c.MaxBody = 2 << 20
		}
	}
}

func pick(r *rng, xs ...string) string { return xs[r.n(len(xs))] }

func (g *gen) stalls() {
	s := &g.p.Sched
	if g.r.p(0.35) {
		return
	}
	s.StallP = uint32([]int{200, 1500, 6000}[g.r.n(3)])
	s.StallMin = 1000
	s.StallMax = []int64{20 * ms, 300 * ms, 2 * sec}[g.r.n(3)]
	s.Budget = []int64{200 * ms, 1 * sec, 3 * sec}[g.r.n(3)]
	g.hot(s.Budget)
}

// hot picks a few statements that are stalled often.
func (g *gen) hot(budget int64) {
	s := &g.p.Sched
	n := simSites()
	if n == 0 || g.r.p(0.3) {
		return
	}
	base := g.r.n(n)
	for i := range s.Hot {
		if g.r.p(0.5) {
			s.Hot[i] = uint32((base+g.r.n(12))%n) + 1
		} else {
			s.Hot[i] = uint32(g.r.n(n)) + 1
		}
	}
	s.HotP = uint32([]int{3000, 16000, 40000}[g.r.n(3)])
	s.HotMax = []int64{5 * ms, 100 * ms, 1200 * ms}[g.r.n(3)]
	if s.Budget < budget {
		s.Budget = budget
	}
}

// ---------------------------------------------------------------- topology

func (g *gen) host(i int, faulty bool) *HostPlan {
	r := g.r
	h := &HostPlan{Host: []string{"alpha.example", "beta.example", "gamma.example", "delta.example"}[i%4], Port: 9000 + i, Kind: "app",
		Lat: r.rangeI(50_000, 20*ms), Window: 1000 + r.n(60000)}
	if r.p(0.5) {
		h.Jitter = r.rangeI(0, 20*ms)
	}
	h.Tiny = r.p(0.1)
	if r.p(0.3) {
		h.IdleClose = r.rangeI(200*ms, 6*sec)
	}
	if faulty {
		if r.p(0.3) {
			h.Loss = 0.02 + float64(r.n(10))/100
		}
		if r.p(0.35) {
			h.Dial = map[int]string{}
			for k := 0; k < 1+r.n(4); k++ {
				h.Dial[r.n(8)] = pick(r, "refused", "refused", "unreach", "hang", "slow", "emfile")
			}
		}
		if r.p(0.35) {
			h.Accept = map[int]string{}
			for k := 0; k < 1+r.n(3); k++ {
				h.Accept[r.n(8)] = pick(r, "reset", "close", "stall")
			}
		}
		if r.p(0.2) {
			t := r.rangeI(5*sec, 20*sec)
			h.Down = []Window{{t, t + r.rangeI(100*ms, 8*sec)}}
		}
		if r.p(0.2) {
			t := r.rangeI(5*sec, 20*sec)
			h.Outages = []Window{{t, t + r.rangeI(100*ms, 6*sec)}}
		}
	}
	g.p.Hosts = append(g.p.Hosts, h)
	return h
}

func (g *gen) route(rt *RouteCfg) *RouteCfg {
	g.p.Cfg.Routes = append(g.p.Cfg.Routes, rt)
	return rt
}

func scheme(h *HostPlan) string {
	if h.TLS != "" {
		return "https"
	}
	return "http"
}

func (g *gen) resource(name string, h ...*HostPlan) {
	for _, x := range h {
		s := "http"
		if x.TLS != "" {
			s = "https"
		}
		switch { // as it may be written
		case g.r.p(0.06):
			s += pick(g.r, "://", ":")
		case g.r.p(0.06) && s == "http":
			s = ""
		}
		g.p.Cfg.Resources[name] = append(g.p.Cfg.Resources[name], &ResMap{Scheme: s, Host: x.Host, Port: x.Port})
	}
}

// topo makes a few hosts, resources and overlapping routes.
func (g *gen) topo(faulty bool) {
	r := g.r
	n := 1 + r.n(3)
	var names []string
	for i := 0; i < n; i++ {
		h := g.host(i, faulty)
		if r.p(0.12) {
			h.TLS = "ok"
		}
		nm := fmt.Sprintf("res%d", i)
		g.resource(nm, h)
		names = append(names, nm)
	}
	pol := ""
	if n > 1 && r.p(0.3) {
		// a labelled resource over the same hosts, and policies that choose between them
		var ms []*ResMap
		var lw, lw2 []LW
		for i, h := range g.p.Hosts[len(g.p.Hosts)-n:] {
			l := []string{"blue", "green", "red"}[i]
			m := &ResMap{Labels: []string{l}, Scheme: scheme(h), Host: h.Host, Port: h.Port}
			if r.p(0.3) {
				m.Labels = append(m.Labels, "spare")
				if r.p(0.5) {
					m.Labels[0], m.Labels[1] = "spare", l
				}
			}
			ms = append(ms, m)
			w := []float64{0.5, 0.25, 0.25}[i]
			if n == 2 {
				w = []float64{0.7, 0.3}[i]
			}
			lw = append(lw, LW{l, w})
			lw2 = append(lw2, LW{l, float64((i + 1) % 2)})
			if n == 3 && i != 1 {
				lw2[i].Weight = float64(i / 2)
			}
		}
		g.p.Cfg.Resources["labelled"] = ms
		g.p.Cfg.Policies = map[string][]LW{"share": lw, "only": lw2}
		names = append(names, "labelled")
		pol = "share"
	}
	all := []string{"/", "/a", "/api", "/api/v1", "/api/v1/users", "/b/c", "/svc", "/svc2", "/x-y_z", "/abouts", "/longest/path/of/them/all", "/tail/", "/api/"}
	perm(r, all)
	k := 1 + r.n(5)
	for i := 0; i < k; i++ {
		rt := &RouteCfg{Path: all[i], Resource: names[r.n(len(names))]}
		if len(rt.Path) > 1 && r.p(0.08) {
			rt.Path = rt.Path[1:] // the leading slash is optional
		}
		if pol != "" && (rt.Resource == "labelled" && r.p(0.8) || r.p(0.3)) {
			rt.Resource, rt.Policy = "labelled", pick(r, pol, pol, "only")
		}
		if r.p(0.35) {
			rt.Transform = pick(r, "/t", "/", "/deep/er", "/api", "/a", "/t/", "/two//", "/"+strings.TrimPrefix(rt.Path, "/")+"2", "/t?v=1&p=")
		}
		g.route(rt)
	}
	if r.p(0.12) {
		// a route that leads nowhere, or only sometimes somewhere
		rt := &RouteCfg{Path: all[k], Resource: "nowhere"}
		switch r.n(4) {
		case 0:
			g.p.Cfg.Resources["nowhere"] = []*ResMap{}
		case 1:
			rt.Resource, rt.Policy = names[0], "undefined"
		case 2:
			h := g.p.Hosts[len(g.p.Hosts)-n]
			g.p.Cfg.Resources["nowhere"] = []*ResMap{{Labels: []string{"there"}, Scheme: scheme(h), Host: h.Host, Port: h.Port}}
			if g.p.Cfg.Policies == nil {
				g.p.Cfg.Policies = map[string][]LW{}
			}
			rt.Policy = "gap"
			g.p.Cfg.Policies["gap"] = [][]LW{{{"there", 0.5}, {"gone", 0.5}}, {{"gone", 1}}, {{"there", 0.4}}, {}}[r.n(4)]
		}
		g.route(rt)
	}
	if r.p(0.5) {
		g.route(&RouteCfg{Path: "/about", Resource: "about"})
	}
}

func perm(r *rng, xs []string) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.n(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

func (g *gen) conn(start int64, faulty bool) *ConnPlan {
	r := g.r
	c := &ConnPlan{ID: g.cid, Start: start, Proto: "http", Lat: r.rangeI(50_000, 15*ms), Window: 1000 + r.n(60000)}
	g.cid++
	if r.p(0.5) {
		c.Jitter = r.rangeI(0, 10*ms)
	}
	c.Tiny = r.p(0.1)
	if faulty {
		if r.p(0.2) {
			c.Loss = 0.03
		}
		if r.p(0.1) {
			t := r.rangeI(5*sec, 20*sec)
			c.Outages = []Window{{t, t + r.rangeI(100*ms, 3*sec)}}
		}
	}
	if g.p.Cfg.TLS {
		c.Proto = pick(r, "tls", "tls", "h2")
	}
	g.p.Conns = append(g.p.Conns, c)
	return c
}

// proxied routes only
func (g *gen) proxyRoutes() []*RouteCfg {
	var o []*RouteCfg
	for _, rt := range g.p.Cfg.Routes {
		if rt.Resource != "about" {
			o = append(o, rt)
		}
	}
	return o
}

func (g *gen) uri(path string) string {
	r := g.r
	if !strings.HasPrefix(path, "/") {
		path = "/" + path
	}
	u := path
	if r.p(0.75) {
		s := pick(r, "/x", "/x/y/z", "/items/42", "/%20sp%C3%A4ce", "/semi;colon=1", "/tilde~t", "/dot.json", "/plus+plus", "/caf%c3%a9", "/pct%25", "/a", "/api", "/svc", "/sub,comma", "/at@sign", "/colon:8080", "/paren(1)", "/q'uote", "/enc%2fslash", "/exclaim!", "/%7Euser", "/%41bc", "/%2ex", "/%c3%A9", "/star*", "/dollar$&x=1", "/%00", "/a%3Fb%23c", "/a%5Cb", "/-._~")
		u = strings.TrimSuffix(u, "/") + s
		if r.p(0.2) {
			u += "/"
		}
	}
	if r.p(0.06) && len(path) > 1 {
		u = path + pick(r, "1", "x/y", "@evil.example/x", ".evil.example/x", ":99/x", "-", ";a=b", "%20", path)
	}
	for strings.Contains(u, "//") { // net/http answers what is not clean itself
		u = strings.Replace(u, "//", "/", -1)
	}
	return u
}

func (g *gen) req(c *ConnPlan, rt *RouteCfg) *ReqPlan {
	r := g.r
	q := &ReqPlan{ID: g.rid, Conn: c.ID, Think: r.rangeI(0, 2*sec)}
	g.rid++
	if r.p(0.5) {
		q.Think = r.rangeI(0, 30*ms)
	}
	q.URI = g.uri(rt.Path)
	switch r.n(10) {
	case 0:
		if r.p(0.1) {
			q.URI += pick(r, "?", "?&", "?x", "?=", "?x&", "?%3F", "?;")
		}
	case 1:
		q.URI += fmt.Sprintf("?rid=%d&k=v%%20w&e=%s", q.ID, pick(r, "a+b", "%26", "x=y", "%E2%82%AC", "/", "a;b", "/api", "?", "http://x.example//y/../z", "//", "../..", "%7E%41", "%2F%2f", "a&&b=", "[0]=1", "+", "%", "100%", "\"q\"", "{}|^`"))
	default:
		q.URI += fmt.Sprintf("?rid=%d", q.ID)
	}
	q.Method = pick(r, "GET", "GET", "GET", "GET", "POST", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE")
	switch q.Method {
	case "POST", "PUT":
		if r.p(0.85) {
			g.setBody(q)
		}
	case "DELETE":
		if r.p(0.3) {
			g.setBody(q)
		}
	case "GET", "OPTIONS":
		if r.p(0.04) {
			g.setBody(q)
		}
	}
	g.headers(q)
	return q
}

func (g *gen) setBody(q *ReqPlan) {
	r := g.r
	mb := int(g.p.Cfg.MaxBody)
	if mb > 60000 && !r.p(0.15) {
		mb = 60000
	}
	q.Framing = pick(r, "cl", "cl", "chunked")
	switch r.n(8) {
	case 0:
		q.Body = 1
	case 1:
		q.Body = mb - 1
	case 2:
		q.Body = 0
		if q.Framing == "chunked" && r.p(0.5) {
			q.Body = 2
		}
	default:
		q.Body = 1 + r.n(mb-2)
	}
	if r.p(0.25) {
		q.Pieces = 2 + r.n(4)
		q.Gap = r.rangeI(ms, 100*ms)
	} else if r.p(0.15) && q.Body > 0 {
		q.Expect100 = true
	}
}

// unusual ways to say which codings are accepted
var oddAccept = []string{"gzip;", "gzip;q", "gzip;q=", "GZIP", ",,gzip,", "*", ";", ",", ";q=1", "x-gzip", "gzip;q=0.000", "gzip;q=1;x=y", "identity;q=1, *;q=0", "gzip;q=0.001", "deflate;q=0.5;gzip"}

// end-to-end headers that somebody may think need treatment
var reqNames = []string{"From", "Referer", "Origin", "If-Modified-Since", "If-Unmodified-Since", "If-Range", "Range", "Via", "Forwarded", "X-Forwarded-Host", "X-Forwarded-Proto", "X-Forwarded-Port", "X-Real-Ip", "X-Client-Ip", "Max-Forwards", "Dnt", "Pragma", "Warning", "Age", "Content-Language", "Content-Location", "Content-Disposition", "Content-Md5", "Content-Encoding", "Digest", "Accept-Language", "Accept-Charset", "Accept-Ranges", "Upgrade-Insecure-Requests", "Sec-Fetch-Mode", "X-Csrf-Token", "Proxy-Authorization", "Traceparent", "X-B3-Traceid", "X-Amzn-Trace-Id", "X-Correlation-Id", "Prefer", "Access-Control-Request-Method", "X-Original-Url", "X-Rewrite-Url", "X-Method-Override", "X-Api-Key", "Cdn-Loop", "Link", "Vary", "Etag", "X-Up-Tok2", "Set-Cookie", "Content-Range", "X_under_score", "Priority", "Server-Timing", "Strict-Transport-Security"}
var respNames = []string{"Expires", "Age", "Content-Language", "Content-Location", "Content-Disposition", "Accept-Ranges", "Content-Md5", "Digest", "Retry-After", "Allow", "Access-Control-Allow-Origin", "Access-Control-Expose-Headers", "X-Powered-By", "Refresh", "Sec-Fetch", "Upgrade-Insecure", "Via", "Content-Range", "Link", "Warning", "Pragma", "Last-Modified", "Etag", "Www-Authenticate", "Proxy-Authenticate", "Authentication-Info", "Location", "Alt-Svc", "Server-Timing", "Content-Security-Policy", "X-Frame-Options", "X-Content-Type-Options", "X-Cache", "P3p", "Cookie", "Authorization", "Host", "User-Agent", "X-Forwarded-For", "Traceparent", "X-Correlation-Id", "X_under_score", "Clear-Site-Data", "Tk", "Im"}
var oddValues = []string{"0", "a, b", "-1", "*", "\u00e9", "bytes=0-1", "Wed, 21 Oct 2026 07:28:00 GMT", "\"q, r\"; s=\"\\\"\"", "https://elsewhere.example/p?q=1#f", "gzip", "x", strings.Repeat("v", 300), "1 2  3", "", "<>&%00"}

func (g *gen) headers(q *ReqPlan) {
	r := g.r
	add := func(k, v string) { q.Hdr = append(q.Hdr, [2]string{k, v}) }
	switch r.n(6) {
	case 0:
		add("Accept-Encoding", "gzip")
	case 1:
		add("Accept-Encoding", pick(r, "gzip, deflate, br", "deflate, gzip;q=1.0"))
	case 2:
		add("Accept-Encoding", pick(r, "identity", "br", "deflate", "gzip;q=0"))
		if r.p(0.2) {
			q.Hdr[len(q.Hdr)-1][1] = pick(r, oddAccept...)
		}
	}
	if r.p(0.5) {
		add("Accept", pick(r, "*/*", "application/json", "text/html;q=0.8, */*;q=0.1"))
	}
	if r.p(0.4) {
		add("User-Agent", pick(r, "curl/7.1", "sim agent (x; y)", "Mozilla/5.0 (compatible)"))
		if r.p(0.15) {
			q.Hdr[len(q.Hdr)-1][1] = pick(r, "x", "agent", "\u00e9/1", "/", "%s %d", `"a" {}`, strings.Repeat("agent ", 300)+"x")
		}
	}
	if r.p(0.25) {
		add("X-Custom", fmt.Sprintf("v%d", q.ID))
	}
	if r.p(0.15) {
		add("X-Multi", fmt.Sprintf("one%d", q.ID))
		add("X-Multi", "two, three")
		if r.p(0.4) {
			add("X-Multi", pick(r, "two, three", "two, three", "", fmt.Sprintf("one%d", q.ID)))
		}
		if r.p(0.1) {
			for i := r.n(80); i >= 0; i-- {
				add("X-Multi", fmt.Sprintf("m%d", i))
			}
		}
	}
	if r.p(0.15) {
		add("Cookie", fmt.Sprintf("sid=%d; theme=dark", q.ID))
		if r.p(0.25) {
			add("Cookie", "more=1")
		}
	}
	if r.p(0.1) {
		add("X-Empty", "")
	}
	if r.p(0.1) {
		add("x-lower-case", "ok")
	}
	if r.p(0.12) {
		add(pick(r, "Idempotency-Key", "X-Idempotency-Key", "X-Http-Method-Override", "If-Match", "Range"), pick(r, "PUT", `"k1"`, "GET"))
	}
	if r.p(0.1) {
		add("Cache-Control", "no-cache")
		add("If-None-Match", `"abc"`)
	}
	if r.p(0.1) {
		add("X-Forwarded-For", "1.2.3.4")
	}
	if r.p(0.25) {
		id := fmt.Sprintf("client-%d", q.ID)
		switch {
		case r.p(0.05):
			id = "" // none
		case r.p(0.1):
			id += pick(r, `"quoted\`, "<b>&amp;", " with spaces", "{\"a\":1}", "\u00e9\u4e16", strings.Repeat("-long", 200), "%s%d", ",x")
		}
		add(pick(r, "X-Request-Id", "X-REQUEST-ID", "x-request-id"), id)
	}
	if r.p(0.06) {
		add("X-Request-Debug", "true")
	}
	if q.Framing != "" && q.ID%16 == 5 && r.p(0.8) {
		add("Content-Encoding", "gzip")
	}
	if q.Framing != "" && r.p(0.6) {
		add("Content-Type", pick(r, "application/json", "text/plain; charset=utf-8", "application/octet-stream", "application/x-www-form-urlencoded", "multipart/form-data; boundary=xyz"))
	}
	for r.p(0.12) {
		k := pick(r, reqNames...)
		if _, dup := hget(q.Hdr, k); !dup {
			add(k, pick(r, oddValues...))
		}
	}
	if r.p(0.03) {
		add("X-Big", strings.Repeat("b", 1500+r.n(3000)))
	}
}

// ---------------------------------------------------------------- upstream behaviour

// aURL is the root of some upstream, as it might name itself.
func (g *gen) aURL() string {
	if len(g.p.Hosts) == 0 {
		return ""
	}
	h := g.p.Hosts[g.r.n(len(g.p.Hosts))]
	s := "http://"
	if h.TLS != "" {
		s = "https://"
	}
	return fmt.Sprintf("%s%s:%d", s, h.Host, h.Port)
}

func (g *gen) okBehav() *Behav {
	r := g.r
	b := &Behav{Status: 200, Kind: pick(r, "text", "json", "bin")}
	if r.p(0.04) {
		b.Kind = "gz"
	}
	switch r.n(8) {
	case 0:
		b.Status = []int{201, 202, 203, 206, 226}[r.n(5)]
	case 1:
		b.Status = []int{301, 302, 303, 307, 308, 300}[r.n(6)]
		b.Hdr = append(b.Hdr, [2]string{"Location", pick(r, "http://elsewhere.example/x?y=1", "/x?y=1", "../up%2f", g.aURL()+"/x")})
	case 2:
		b.Status = []int{204, 304}[r.n(2)]
	case 3:
		if r.p(0.5) {
			b.Status = []int{400, 401, 403, 404, 405, 408, 409, 410, 413, 418, 422, 429, 451, 419, 420, 425, 430, 440, 444, 452, 460, 463, 494, 499}[r.n(24)]
			if b.Status == 429 || b.Status == 408 {
				b.Hdr = append(b.Hdr, [2]string{"Retry-After", pick(r, "0", "1")})
			}
		}
	}
	switch r.n(6) {
	case 0:
		b.Size = 0
	case 1:
		b.Size = 1 + r.n(3)
	case 2:
		b.Size = 2000 + r.n(40000)
	default:
		b.Size = 10 + r.n(1500)
	}
	if b.Kind == "json" && b.Size < 30 {
		b.Size = 40
	}
	if b.Kind == "bin" && b.Size == 1 {
		b.Size = 2
	}
	b.Framing = pick(r, "cl", "cl", "chunked", "close")
	if b.Size == 0 && b.Framing == "cl" && r.p(0.5) {
		b.Framing = "chunked"
	}
	if b.Framing == "close" && r.p(0.6) {
		b.Framing = "cl"
	}
	if r.p(0.15) && b.Size > 0 {
		b.Enc = pick(r, "gzip", "gzip", "identity")
		b.Zip = pick(r, "", "", "multi", "named", "stored", "empties")
	}
	b.Close = r.p(0.08)
	if r.p(0.3) {
		b.Pieces = 2 + r.n(5)
		b.Gap = r.rangeI(0, 60*ms)
	}
	if r.p(0.6) {
		b.Delay = r.rangeI(0, 300*ms)
	} else if r.p(0.2) {
		b.Delay = r.rangeI(0, int64(g.p.Cfg.UpRead)*sec*7/10)
	}
	add := func(k, v string) { b.Hdr = append(b.Hdr, [2]string{k, v}) }
	if r.p(0.7) {
		add("Content-Type", pick(r, "application/json", "text/plain", "application/octet-stream"))
	}
	if r.p(0.2) {
		add("Set-Cookie", "a=1; Path=/")
		add("Set-Cookie", "b=2; HttpOnly")
		if h := g.aURL(); r.p(0.3) && strings.Contains(h, "//") {
			add("Set-Cookie", "c=3; Secure; SameSite=None; Path=/a; Domain="+strings.Split(strings.Split(h, "//")[1], ":")[0])
		}
	}
	if r.p(0.05) {
		add(pick(r, "Content-Location", "Refresh", "Link"), g.aURL()+"/y")
	}
	if r.p(0.2) {
		add("Etag", `W/"xyz"`)
		add("Cache-Control", "max-age=60")
	}
	if r.p(0.1) {
		add("X-Up-Empty", "")
	}
	if r.p(0.12) {
		k := pick(r, "Link", "Warning", "x-up-multi", "Www-Authenticate", "P3p", "Cache-Status")
		m := 1 + r.n(3)
		n := 2 + r.n(3)
		if r.p(0.1) {
			n, m = 5+r.n(60), 100
			k = pick(r, k, "Set-Cookie")
		}
		for i := 0; i < n; i++ {
			add(k, fmt.Sprintf("<v%d>; x=\"y, z\"", i%m))
		}
	}
	if r.p(0.04) {
		add("X-Up-Big", strings.Repeat("u", 1000+r.n(6000)))
	}
	for r.p(0.1) {
		k := pick(r, respNames...)
		if _, dup := hget(b.Hdr, k); !dup {
			add(k, pick(r, oddValues...))
		}
	}
	if r.p(0.2) {
		add("Date", "Thu, 01 Jan 2026 00:00:00 GMT")
		add("Server", "upstream/1.0")
	}
	if r.p(0.1) {
		add("Vary", "Accept-Encoding, Origin")
	}
	if r.p(0.05) && b.Status != 304 && b.Status != 204 {
		b.Interim = []int{100, 103}[r.n(2)]
	}
	return b
}

func (g *gen) failBehav() *Behav {
	r := g.r
	b := g.okBehav()
	if b.Status == 204 || b.Status == 304 {
		b.Status = 200
	}
	if b.Size < 4 {
		b.Size = 100
	}
	b.Interim = 0
	b.Enc = ""
	b.Close = false
	if b.Framing == "close" {
		b.Framing = "cl"
	}
	b.At = r.n(1 << 16)
	switch r.n(9) {
	case 0:
		b.Status = []int{500, 502, 503, 503, 504, 501, 599}[r.n(7)]
		if r.p(0.15) {
			b.Status = []int{42, 99, 7, 101, 600, 700, 999}[r.n(7)] // not a status HTTP has, or not here
			b.Close = b.Status == 101
		}
		b.Fail, b.Stage = "", ""
		if r.p(0.35) {
			b.Hdr = append(b.Hdr, [2]string{"Retry-After", pick(r, "0", "1", "120", "Wed, 21 Oct 2026 07:28:00 GMT")})
		}
	case 1:
		b.Fail, b.Stage = "garbage", "req"
	case 2:
		b.Fail, b.Stage = "stall", pick(r, "head", "req", "hdr", "body")
	case 3:
		b.Delay = int64(g.p.Cfg.UpRead)*sec + r.rangeI(50*ms, 3*sec) // too late
	case 4:
		b.Fail, b.Stage = pick(r, "rst", "fin"), pick(r, "line", "head", "req")
	default:
		b.Fail, b.Stage = pick(r, "rst", "fin", "stall"), pick(r, "hdr", "body", "body", "req")
	}
	if b.Stage == "body" && r.p(0.3) {
		b.Framing = "chunked"
	}
	return b
}

// behavs scripts a request's attempts: k failures, then success.
func (g *gen) behavs(q *ReqPlan, pf float64) {
	r := g.r
	for r.p(pf) && len(q.Behavs) < 6 {
		q.Behavs = append(q.Behavs, g.failBehav())
	}
	q.Behavs = append(q.Behavs, g.okBehav())
	for _, b := range q.Behavs {
		g.fixHead(q, b)
	}
}

func (g *gen) fixHead(q *ReqPlan, b *Behav) {
	if q.Method == "HEAD" && b.Framing == "close" {
		b.Framing = "cl"
	}
	if q.Method == "HEAD" && b.Stage == "body" {
		b.Stage = "hdr"
	}
	if q.Method == "HEAD" && b.Framing == "cl" && g.r.p(0.3) {
		b.Declare = 1 << uint(1+g.r.n(40))
	}
	if q.Body > 0 && b.Fail == "" && b.Framing != "close" && !b.Close && g.r.p(0.12) {
		b.Early, b.At = true, g.r.n(1<<16)
	}
}

// big makes some upstream answers large, on links that can take it.
func (g *gen) big() {
	r := g.r
	if !r.p(0.03) {
		return
	}
	for _, h := range g.p.Hosts {
		h.Tiny, h.Loss, h.Window = false, 0, 1<<20
	}
	for _, c := range g.p.Conns {
		c.Tiny, c.Loss, c.Window = false, 0, 1<<20
	}
	n := 0
	for _, q := range g.p.Reqs {
		if n > 2 || len(q.Behavs) == 0 || q.Method == "HEAD" || q.ReadGap > 0 {
			continue
		}
		b := q.Behavs[len(q.Behavs)-1]
		if b.Status != 200 || b.Pieces > 1 || (n > 0 && r.p(0.7)) || strings.HasPrefix(b.Enc, "gzip_") {
			continue
		}
		n++
		if r.p(0.4) {
			q.Hdr = append(q.Hdr, [2]string{"X-Huge", strings.Repeat("h", pick2(r, 9_000, 17_000, 70_000, 300_000))})
		}
		if r.p(0.4) {
			b.Hdr = append(b.Hdr, [2]string{"X-Up-Huge", strings.Repeat("g", pick2(r, 9_000, 17_000, 70_000, 300_000))})
		}
		b.Kind, b.Framing = "text", pick(r, "cl", "chunked")
		b.Size = pick2(r, 70_000, 140_000, 600_000, 1_200_000, 1_200_000, 2_300_000, 4_500_000, 9_000_000)
		b.Enc = pick(r, "", "gzip", "br")
	}
}

func pick3(r *rng, xs ...float64) float64 { return xs[r.n(len(xs))] }
func pick2(r *rng, xs ...int) int         { return xs[r.n(len(xs))] }

// ---------------------------------------------------------------- profiles

func (g *gen) mix(faulty bool, _ any) {
	r := g.r
	if r.p(0.2) {
		g.p.Cfg.TLS = true
		g.p.Cfg.CertDays, g.p.Cfg.CertAge = 90, 10
	}
	g.topo(faulty)
	rts := g.proxyRoutes()
	nc := 1 + r.n(6)
	pf := 0.0
	if faulty {
		pf = 0.35
	}
	for i := 0; i < nc; i++ {
		c := g.conn(6*sec+r.rangeI(0, 3*sec), faulty)
		if r.p(0.2) {
			c.IdleEnd = r.rangeI(100*ms, int64(g.p.Cfg.DnIdle+5)*sec)
		}
		k := 1 + r.n(6)
		for j := 0; j < k; j++ {
			rt := rts[r.n(len(rts))]
			q := g.req(c, rt)
			g.behavs(q, pf)
			if !faulty {
				for _, b := range q.Behavs {
					if m := int64(g.p.Cfg.UpRead) * sec / 2; b.Delay > m {
						b.Delay = m
					}
				}
			}
			switch {
			case r.p(0.03):
				q.Method = pick(r, "PATCH", "BREW", "PROPFIND")
			case r.p(0.04):
				q.URI = g.noRoute(q.ID)
			case r.p(0.04):
				g.aboutReq(q)
			case c.Proto == "http" && r.p(0.03) && q.Framing != "chunked":
				q.Http10 = true
			case c.Proto != "h2" && r.p(0.04):
				q.Abs = true
			}
			if faulty && r.p(0.06) && q.Http10 == false {
				g.abort(q)
			}
			g.h2fix(c, q)
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
	if faulty && r.p(0.15) {
		g.p.Faults = append(g.p.Faults, &Fault{Kind: "accept_emfile", At: 6 * sec})
	}
	if faulty && r.p(0.25) {
		g.jumps(3)
	}
}

func (g *gen) h2fix(c *ConnPlan, q *ReqPlan) {
	if c.Proto == "tls" && q.Expect100 {
		q.Expect100 = false
	}
	if c.Proto != "h2" {
		return
	}
	q.Expect100, q.Pieces, q.Gap, q.Http10, q.Abs = false, 0, 0, false, false
	switch {
	case strings.HasPrefix(q.Abort, "sent"):
		q.Abort = "sent-rst" // the stream is reset
	case strings.HasPrefix(q.Abort, "body") && q.Body > 1:
		q.Abort = "body-rst"
	default:
		q.Abort = ""
	}
	if q.Framing == "cl" && q.Body == 0 || q.Framing == "chunked" && q.Body == 0 {
		q.Framing = ""
	}
	// header names are sent by the Go client in canonical form
	if q.Method == "TRACE" || q.Method == "CONNECT" {
		q.Framing, q.Body = "", 0
	}
}

func (g *gen) noRoute(id int) string {
	for _, rt := range g.p.Cfg.Routes {
		if rt.Path == "/" {
			return fmt.Sprintf("/zz/none?rid=%d", id)
		}
	}
	return fmt.Sprintf("/%s?rid=%d", pick(g.r, "zz/none", "favicon.ico", "ap", "Api", "sv", ""), id)
}

func (g *gen) aboutReq(q *ReqPlan) {
	q.URI = "/about"
	q.Method = pick(g.r, "GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "PATCH", "PROPFIND")
	q.Framing, q.Body, q.Pieces, q.Expect100 = "", 0, 0, false
	if g.r.p(0.1) {
		q.URI += pick(g.r, "/x", "/", "x", "/about")
	}
	if g.r.p(0.3) {
		q.URI += "?x=1"
	}
	q.Behavs = []*Behav{{Status: 200, Size: 20}}
}

func (g *gen) abort(q *ReqPlan) {
	r := g.r
	how := pick(r, "fin", "rst")
	st := pick(r, "hdr", "body", "sent")
	if st == "body" && (q.Framing == "" || q.Body < 2) {
		st = "sent"
	}
	q.Abort = st + "-" + how
	q.AbortAt = 1 + r.n(400)
	if st == "sent" {
		q.Framing, q.Body, q.Pieces, q.Expect100 = "", 0, 0, false
		if q.Method == "POST" || q.Method == "PUT" {
			q.Method = "GET"
		}
	}
	if st == "hdr" || st == "body" {
		q.Expect100 = false
	}
}

func (g *gen) jumps(n int) {
	for i := 0; i < 1+g.r.n(n); i++ {
		d := []int64{-3600, 3600, -30, 30, -86400 * 40, 86400 * 3, -1, 5}[g.r.n(8)]
		g.p.Faults = append(g.p.Faults, &Fault{Kind: "wall_jump", At: g.r.rangeI(5*sec, 30*sec), Arg: d * sec})
	}
}

// race: upstream answers land around the read timeout.
func (g *gen) race() {
	r := g.r
	c := &g.p.Cfg
	c.UpRead = 1 + r.n(2)
	c.MaxAttempts = 2 + r.n(3)
	c.DnRound = 6 + r.n(10)
	c.DnRead = 3
	if r.p(0.3) {
		c.DnRound = c.UpRead + r.n(3)
		if c.DnRound < 2 {
			c.DnRound = 2
		}
	}
	h := g.host(0, false)
	h.Lat, h.Jitter, h.IdleClose = r.rangeI(50_000, 2*ms), 0, 0
	g.resource("res0", h)
	g.route(&RouteCfg{Path: "/r", Resource: "res0"})
	s := &g.p.Sched
	s.Budget = 3 * sec
	if r.p(0.6) {
		s.StallP, s.StallMin, s.StallMax = 20000, 1000, 3*ms
	}
	g.hot(3 * sec)
	ur := int64(c.UpRead) * sec
	for i := 0; i < 2+r.n(4); i++ {
		cp := g.conn(6*sec, false)
		cp.Lat, cp.Jitter = r.rangeI(50_000, 2*ms), 0
		for j := 0; j < 2+r.n(4); j++ {
			q := g.req(cp, c.Routes[0])
			q.Method = pick(r, "GET", "PUT", "DELETE", "GET")
			q.Framing, q.Body, q.Pieces, q.Expect100 = "", 0, 0, false
			for k := 0; k < c.MaxAttempts; k++ {
				b := g.okBehav()
				b.Interim = 0
				edge := ur
				if r.p(0.25) {
					edge = int64(c.DnRound)*sec - int64(k)*ur
					if edge < 0 {
						edge = ur
					}
				}
				b.Delay = edge - 2*h.Lat + r.rangeI(-3*ms, 3*ms)
				if r.p(0.5) {
					b.Delay = edge - 2*h.Lat + r.rangeI(-50_000, 50_000)
				}
				if b.Delay < 0 {
					b.Delay = 0
				}
				if r.p(0.3) {
					// headers early, body at the edge
					b.Gap = b.Delay
					b.Pieces = 2
					b.Delay = 0
				} else {
					b.Pieces = 1
				}
				if r.p(0.15) {
					b.Status = 500 + r.n(5)
				}
				g.fixHead(q, b)
				q.Behavs = append(q.Behavs, b)
			}
			q.Behavs = append(q.Behavs, g.okBehav())
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
}

// deadline: round trips that cannot finish in time, wall clock jumping.
func (g *gen) deadline() {
	r := g.r
	c := &g.p.Cfg
	c.DnRound = 2 + r.n(7)
	c.DnRead = 2 + r.n(5)
	c.UpRead = 1 + r.n(10)
	c.UpSocket = 1 + r.n(5)
	c.MaxAttempts = 1 + r.n(8)
	g.defaults()
	g.topo(false)
	for _, h := range g.p.Hosts {
		if r.p(0.3) {
			h.Dial = map[int]string{}
			for k := 0; k < 6; k++ {
				h.Dial[r.n(10)] = pick(r, "hang", "hang", "slow", "refused")
			}
		}
		if r.p(0.25) {
			h.Accept = map[int]string{r.n(5): "stall", r.n(5): "stall"}
		}
		if r.p(0.2) {
			t := r.rangeI(6*sec, 12*sec)
			h.Outages = []Window{{t, t + r.rangeI(1*sec, 20*sec)}}
		}
	}
	rts := g.proxyRoutes()
	for i := 0; i < 2+r.n(5); i++ {
		cp := g.conn(6*sec+r.rangeI(0, sec), false)
		for j := 0; j < 1+r.n(4); j++ {
			q := g.req(cp, rts[r.n(len(rts))])
			for k := 0; k < 9; k++ {
				b := g.okBehav()
				b.Interim = 0
				switch r.n(6) {
				case 0:
					b.Fail, b.Stage, b.At = "stall", pick(r, "line", "head", "req", "hdr", "body"), r.n(1<<16)
					b.Framing = "cl"
				case 1, 2:
					b.Delay = r.rangeI(0, int64(c.DnRound+2)*sec)
				case 3:
					b.Pieces = 4 + r.n(10)
					b.Gap = r.rangeI(100*ms, 2*sec)
					b.Size = 1000
				case 4:
					b.Status = 503
					b.Delay = r.rangeI(0, 2*sec)
				case 5:
					b.Delay = int64(c.DnRound)*sec + r.rangeI(-200*ms, 200*ms)
				}
				g.fixHead(q, b)
				q.Behavs = append(q.Behavs, b)
			}
			if r.p(0.25) && cp.Proto != "h2" {
				g.slowBody(q)
			}
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
	if r.p(0.7) {
		g.jumps(5)
	}
	if r.p(0.3) {
		g.stalls()
	}
}

// slowBody makes the request body take a good part of what time there is for it.
func (g *gen) slowBody(q *ReqPlan) {
	r := g.r
	q.Method = pick(r, "PUT", "PUT", "POST")
	q.Framing = pick(r, "cl", "chunked")
	q.Body = 10 + r.n(500)
	q.Expect100, q.Http10 = false, false
	q.Pieces = 2 + r.n(4)
	t := int64(g.p.Cfg.DnRead) * sec * 8 / 10
	if m := int64(g.p.Cfg.DnRound) * sec; t > m*8/10 {
		t = m * 8 / 10
	}
	q.Gap = r.rangeI(t/2, t) / int64(q.Pieces)
	for _, b := range q.Behavs {
		g.fixHead(q, b)
	}
}

// retry: failing attempts of every kind, immediate and slow.
func (g *gen) retry() {
	r := g.r
	c := &g.p.Cfg
	c.MaxAttempts = 1 + r.n(6)
	c.DnRound = 10 + r.n(30)
	c.UpRead = 1 + r.n(4)
	g.defaults()
	g.topo(r.p(0.4))
	rts := g.proxyRoutes()
	for i := 0; i < 1+r.n(5); i++ {
		cp := g.conn(6*sec+r.rangeI(0, sec), false)
		for j := 0; j < 1+r.n(5); j++ {
			q := g.req(cp, rts[r.n(len(rts))])
			n := r.n(c.MaxAttempts + 2)
			for k := 0; k < n; k++ {
				q.Behavs = append(q.Behavs, g.failBehav())
			}
			q.Behavs = append(q.Behavs, g.okBehav())
			for _, b := range q.Behavs {
				g.fixHead(q, b)
			}
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
	if r.p(0.3) {
		g.stalls()
	}
}

// body: request bodies around the limit, incomplete, slow and aborted.
func (g *gen) body() {
	r := g.r
	c := &g.p.Cfg
	c.MaxBody = int64([]int{100, 1000, 5000, 20000}[r.n(4)])
	c.DnRead = 2 + r.n(4)
	c.DnRound = c.DnRead + 2 + r.n(6)
	g.defaults()
	if r.p(0.25) {
		c.TLS, c.CertDays, c.CertAge = true, 90, 10
	}
	g.topo(false)
	rts := g.proxyRoutes()
	mb := int(c.MaxBody)
	for i := 0; i < 2+r.n(5); i++ {
		cp := g.conn(6*sec+r.rangeI(0, sec), r.p(0.3))
		for j := 0; j < 1+r.n(5); j++ {
			q := g.req(cp, rts[r.n(len(rts))])
			q.Method = pick(r, "POST", "POST", "PUT", "PUT", "DELETE")
			q.Framing = pick(r, "cl", "chunked")
			q.Expect100, q.Pieces, q.Gap = false, 0, 0
			q.Body = 1 + r.n(min(mb, 60000)-2)
			switch r.n(10) {
			case 0, 1:
				q.Body = mb + 1 + r.n(200)
			case 2:
				q.Body = mb + 1 + r.n(4*min(mb, 1<<18))
			case 3:
				q.Body = mb - 1
			case 4:
				q.Body = 300000 + r.n(200000)
			case 5:
				if q.Body > 2 {
					q.Abort = "body-" + pick(r, "fin", "rst", "stall")
					q.AbortAt = r.n(q.Body)
				}
				if r.p(0.3) {
					q.Pieces, q.Gap = 3, 20*ms
				}
			case 6:
				q.Framing = "cl"
				q.Declared = q.Body + 1 + r.n(mb)
				if q.Declared >= mb {
					q.Declared = mb - 1
				}
				if q.Declared <= q.Body {
					q.Body = q.Declared - 1
				}
				if q.Body < 1 {
					q.Body, q.Declared = 1, 5
				}
			case 7:
				q.Pieces = 3 + r.n(6)
				q.Gap = r.rangeI(50*ms, int64(c.DnRead)*sec/2)
			case 8:
				q.Pieces = 3
				q.Gap = int64(c.DnRead) * sec
			}
			if q.Pieces == 0 && q.Abort == "" && q.Declared == 0 && r.p(0.15) {
				q.Expect100 = true
			}
			if r.p(0.15) && q.Abort == "" && q.Declared == 0 {
				q.Pieces, q.Gap, q.Expect100 = 2+r.n(8), r.rangeI(0, 50*ms), false
			}
			g.behavs(q, 0.1)
			if q.Declared > 0 && cp.Proto == "h2" {
				q.Declared = 0
			}
			if cp.Proto == "tls" {
				q.Expect100 = false
			}
			g.h2fix(cp, q)
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
	if r.p(0.3) {
		// many bodies at once, some of them answered before they have been read
		at := 8*sec + r.rangeI(0, sec)
		if r.p(0.7) {
			if !c.left("maxBody") {
				// larger than what the http client copies at once
				c.MaxBody = int64(pick2(r, 20000, 60000, 120000))
			}
			for _, h := range g.p.Hosts {
				h.Window = 1000 + r.n(pick2(r, 4000, 20000))
				if r.p(0.7) {
					h.Lat, h.Jitter, h.Tiny = r.rangeI(50_000, 2*ms), 0, false
				}
			}
		}
		mb = int(c.MaxBody)
		for i := 0; i < 3+r.n(5); i++ {
			cp := g.conn(at+r.rangeI(0, 20*ms), false)
			cp.Lat, cp.Jitter = r.rangeI(50_000, 2*ms), 0
			if r.p(0.7) {
				cp.Window, cp.Tiny = 40000+r.n(60000), false
			}
			for j := 0; j < 2+r.n(5); j++ {
				q := g.req(cp, rts[r.n(len(rts))])
				q.Method, q.Think = pick(r, "POST", "PUT"), r.rangeI(0, 10*ms)
				q.Framing, q.Body = pick(r, "cl", "chunked"), 1+r.n(min(mb, 120000)-2)
				q.Expect100, q.Pieces, q.Gap = false, 0, 0
				b := g.okBehav()
				b.Delay, b.Pieces, b.Close, b.Interim, b.Framing = r.rangeI(0, 5*ms), 1, false, 0, pick(r, "cl", "chunked")
				b.Early, b.At = r.p(0.5), r.n(1<<16)
				q.Behavs = []*Behav{b}
				g.h2fix(cp, q)
				g.p.Reqs = append(g.p.Reqs, q)
			}
		}
	}
	if r.p(0.3) {
		g.stalls()
	}
}

// slow: clients that trickle, stall or go silent, next to healthy ones.
func (g *gen) slow() {
	r := g.r
	c := &g.p.Cfg
	c.DnRead = 2 + r.n(5)
	c.DnIdle = 3 + r.n(6)
	c.DnRound = c.DnRead + 2 + r.n(6)
	g.defaults()
	if r.p(0.25) {
		c.TLS, c.CertDays, c.CertAge = true, 100, 5
	}
	g.topo(false)
	rts := g.proxyRoutes()
	for i := 0; i < 3+r.n(6); i++ {
		cp := g.conn(6*sec+r.rangeI(0, 2*sec), false)
		if cp.Proto == "h2" {
			cp.Proto = "tls"
		}
		switch r.n(7) {
		case 0:
			cp.Silent, cp.Proto = true, "http"
			continue
		case 1:
			cp.IdleEnd = int64(c.DnIdle+5)*sec + r.rangeI(0, 10*sec)
			cp.Window = 60000
		case 2:
			if cp.Proto == "http" {
				q := g.req(cp, rts[r.n(len(rts))])
				q.Expect100, q.Pieces = false, 0
				q.Abort = "hdr-stall"
				q.AbortAt = r.n(100)
				g.p.Reqs = append(g.p.Reqs, q)
				continue
			}
		case 3:
			q := g.req(cp, rts[r.n(len(rts))])
			q.Method, q.Framing, q.Body, q.Expect100, q.Pieces = "POST", "chunked", 50+r.n(400), false, 0
			q.Abort = "body-stall"
			q.AbortAt = 1 + r.n(q.Body)
			g.p.Reqs = append(g.p.Reqs, q)
			continue
		case 4:
			if cp.Proto == "http" {
				q := g.req(cp, rts[r.n(len(rts))])
				q.Method, q.Framing, q.Body, q.Expect100, q.Pieces = "GET", "", 0, false, 0
				b := g.okBehav()
				b.Status, b.Size, b.Framing, b.Enc, b.Interim, b.Kind = 200, 200000, "cl", "", 0, "bin"
				cp.Window = 2000
				if r.p(0.5) {
					q.ReadDelay = int64(c.DnRound+4) * sec
				} else {
					q.ReadGap = r.rangeI(50*ms, 500*ms)
				}
				q.Behavs = []*Behav{b}
				g.p.Reqs = append(g.p.Reqs, q)
				continue
			}
		}
		for j := 0; j < 1+r.n(4); j++ {
			q := g.req(cp, rts[r.n(len(rts))])
			if r.p(0.3) {
				q.Think = r.rangeI(0, int64(c.DnIdle+3)*sec)
			}
			g.behavs(q, 0)
			g.h2fix(cp, q)
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
	if r.p(0.2) {
		g.stalls()
	}
}

var algKeys = map[string][]string{
	"RS": {"rsa1", "rsa2", "rsa3"}, "PS": {"rsa1", "rsa2", "rsa3"},
	"ES256": {"ec256_1", "ec256_2", "ec256_3"}, "ES384": {"ec384_1", "ec384_2", "ec384_3"}, "ES512": {"ec521_1", "ec521_2", "ec521_3"},
}
var allAlgs = []string{"RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384", "ES512", "HS256", "HS384", "HS512"}

func keysFor(alg string) []string {
	if k := algKeys[alg]; k != nil {
		return k
	}
	if k := algKeys[alg[:2]]; k != nil {
		return k
	}
	return []string{"a-very-secret-key-0001", "another-secret-key-0002", "third-secret-key-0003"}
}

func i64(x int64) *int64 { return &x }

// token for alg signed by key, sometimes with dates, sometimes broken.
func (g *gen) token(w *JwtCfg, key, kid string) *TokSpec {
	r := g.r
	t := &TokSpec{Alg: w.Alg, Key: key, Kid: kid}
	skew := int64(120)
	if w.Skew != "" {
		fmt.Sscan(w.Skew, &skew)
	}
	edge := func(sign int64) int64 {
		switch r.n(6) {
		case 0:
			return sign * (skew + r.rangeI(3, 20)) // just beyond
		case 1:
			return sign * (skew - r.rangeI(3, 20)) // just within, if there is room
		case 2:
			return sign * (skew + r.rangeI(100, 100000))
		default:
			return -sign * r.rangeI(30, 3600)
		}
	}
	if r.p(0.6) {
		t.Exp = i64(edge(-1))
	}
	if r.p(0.3) {
		t.Nbf = i64(edge(1))
	}
	if r.p(0.3) {
		t.Iat = i64(edge(1))
	}
	return t
}

// jwt: the token gate with keys from the configuration.
func (g *gen) jwt() {
	r := g.r
	c := &g.p.Cfg
	c.Jwts = map[string]*JwtCfg{}
	if r.p(0.15) {
		c.TLS, c.CertDays, c.CertAge = true, 100, 5
	}
	h := g.host(0, false)
	g.resource("res0", h)
	g.route(&RouteCfg{Path: "/open", Resource: "res0"})
	n := 1 + r.n(3)
	var ws []*JwtCfg
	var rts []*RouteCfg
	for i := 0; i < n; i++ {
		alg := allAlgs[r.n(len(allAlgs))]
		w := &JwtCfg{Alg: alg, Key: keysFor(alg)[r.n(3)]}
		if r.p(0.06) {
			w.Alg, w.Key = "none", ""
		}
		if r.p(0.5) {
			w.Skew = pick(r, "0", "10", "60", "300", "7200", "2592000")
		}
		nm := fmt.Sprintf("jwt%d", i)
		c.Jwts[nm] = w
		ws = append(ws, w)
		rts = append(rts, g.route(&RouteCfg{Path: fmt.Sprintf("/sec%d", i), Resource: "res0", Jwt: nm}))
	}
	if r.p(0.5) {
		rts = append(rts, g.route(&RouteCfg{Path: "/open/not", Resource: "res0", Jwt: "jwt0"}))
		ws = append(ws, ws[0])
	}
	var minted []*ReqPlan
	reuse, short := 0.15, false
	if r.p(0.3) {
		reuse, short = 0.4, true
	}
	for i := 0; i < 1+r.n(4); i++ {
		cp := g.conn(6*sec+r.rangeI(0, sec), false)
		for j := 0; j < 2+r.n(8); j++ {
			k := r.n(len(rts))
			q := g.req(cp, rts[k])
			w := ws[k]
			g.behavs(q, 0.05)
			keys := keysFor("HS256")
			if w.Alg != "none" {
				keys = keysFor(w.Alg)
			}
			switch r.n(12) {
			case 0:
				// no token at all
				if r.p(0.5) {
					q.Hdr = append(q.Hdr, [2]string{"Authorization", pick(r, "Basic dXNlcjpwdw==", "Bearer", "", "Bearer x", "Bearer a.b", "Bearer ..", "bearer", "Bearer .")})
				}
			case 1, 2:
				// signed by somebody else
				q.Tok = g.token(w, keys[(idx(keys, w.Key)+1+r.n(2))%3], pick(r, "", "", "zz"))
				if r.p(0.35) {
					// who says where to find the key
					q.Tok.Mangle = pick(r, "hdr_jwk", "hdr_jwk", "hdr_jku", "hdr_x5u", "hdr_crit")
				}
			case 3:
				// other algorithm
				alg := allAlgs[r.n(len(allAlgs))]
				q.Tok = g.token(w, keysFor(alg)[r.n(3)], "")
				q.Tok.Alg = alg
				if r.p(0.3) && w.Alg != "none" {
					q.Tok.Alg, q.Tok.Key = "none", ""
				}
				if r.p(0.3) && (strings.HasPrefix(w.Alg, "RS") || strings.HasPrefix(w.Alg, "ES") || strings.HasPrefix(w.Alg, "PS")) {
					// the public key used as a secret
					q.Tok.Alg, q.Tok.Key = "HS256", "pub:"+w.Key
				}
			case 4, 5:
				q.Tok = g.token(w, w.Key, "")
				q.Tok.Mangle = pick(r, "sig", "claims", "exp", "nosig", "twoparts", "garbage", "onepart", "badb64", "trunc", "noscheme", "doublespace",
					"hdr_kid", "hdr_alg", "hdr_none", "hdr_arr", "json", "json2", "jsonbad", "fourparts", "dots", "long")
			default:
				q.Tok = g.token(w, w.Key, pick(r, "", "", "kid1"))
			}
			if q.Tok != nil && w.Alg == "none" {
				q.Tok.Alg, q.Tok.Key, q.Tok.Mangle = "none", "", ""
			}
			if q.Tok != nil && q.Tok.Mangle == "" && r.p(0.15) {
				q.Tok.Raw, q.Tok.Exp, q.Tok.Nbf, q.Tok.Iat = 1+r.n(len(rawClaims)), nil, nil, nil
			}
			if short && q.Tok != nil && q.Tok.Mangle == "" && q.Tok.Raw == 0 && r.p(0.5) {
				// good for a few seconds more, whatever the skew
				s := int64(120)
				if w.Skew != "" {
					s, _ = strconv.ParseInt(w.Skew, 10, 64)
				}
				q.Tok.Exp, q.Tok.Nbf, q.Tok.Iat = i64(r.rangeI(3, 12)-s), nil, nil
			}
			if len(minted) > 0 && r.p(reuse) {
				o := minted[r.n(len(minted))]
				if r.p(0.5) {
					o = minted[len(minted)-1]
				}
				t := *o.Tok
				t.Reuse = o.ID + 1
				var hs [][2]string
				for _, kv := range q.Hdr {
					if kv[0] != "Authorization" {
						hs = append(hs, kv)
					}
				}
				q.Hdr = hs
				q.Tok = &t
				if short && r.p(0.6) {
					q.Think = r.rangeI(0, 12*sec)
				}
				if r.p(0.8) {
					q.URI = strings.Replace(q.URI, rts[k].Path, routeFor2(rts, o.URI).Path, 1)
				}
			} else if q.Tok != nil && q.Tok.Mangle == "" {
				minted = append(minted, q)
			}
			if r.p(0.1) {
				q.URI = fmt.Sprintf("/open/x?rid=%d", q.ID)
			}
			g.h2fix(cp, q)
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
	if r.p(0.35) {
		g.jumps(3)
	}
	if r.p(0.15) {
		g.stalls()
	}
}

// the protected route a request was made for
func routeFor2(rts []*RouteCfg, uri string) *RouteCfg {
	var best *RouteCfg
	for _, rt := range rts {
		if strings.HasPrefix(uri, rt.Path) && (best == nil || len(rt.Path) > len(best.Path)) {
			best = rt
		}
	}
	if best == nil {
		best = rts[0]
	}
	return best
}

func idx(xs []string, x string) int {
	for i, y := range xs {
		if y == x {
			return i
		}
	}
	return 0
}

// jwks: key rotation over a faulty key server.
func (g *gen) jwks() {
	r := g.r
	c := &g.p.Cfg
	c.UpRead = 2
	h := g.host(0, false)
	g.resource("res0", h)
	alg := pick(r, "RS256", "RS512", "PS256", "ES256", "ES256", "ES384", "ES512")
	keys := keysFor(alg)
	other := map[string]string{"ES256": "ec384_1", "ES384": "ec256_1", "ES512": "ec256_2"}[alg]
	if other == "" {
		other = "ec256_1"
	}
	ks := &HostPlan{Host: "jwks.example", Port: 7000, Kind: "jwks", Lat: r.rangeI(100_000, 20*ms), Window: 60000}
	g.p.Hosts = append(g.p.Hosts, ks)
	w := &JwtCfg{Alg: alg, URL: "http://jwks.example:7000/keys"}
	if r.p(0.2) {
		ks.TLS = "ok"
		if r.p(0.3) {
			ks.TLS, ks.TLSUntil, ks.IdleClose = "until", 10+int64(r.n(60)), 500*ms
		}
		w.URL = "https://jwks.example:7000/keys"
	}
	if r.p(0.5) {
		w.Skew = "0"
	}
	c.Jwts = map[string]*JwtCfg{"rot": w}
	g.route(&RouteCfg{Path: "/sec", Resource: "res0", Jwt: "rot"})
	g.route(&RouteCfg{Path: "/open", Resource: "res0"})
	spec := func(k int, kid string) *JwkSpec { return &JwkSpec{Key: keys[k], Kid: kid, Alg: alg} }
	ks.Jwks = []*JwksState{{At: 0, Mode: "ok", Keys: []*JwkSpec{spec(0, "k0")}}}
	if r.p(0.3) {
		ks.Jwks[0].Keys = append(ks.Jwks[0].Keys, spec(1, "k1"))
	}
	t := 10*sec + r.rangeI(0, 10*sec)
	// a spell of trouble
	trouble := r.p(0.7)
	if trouble {
		for i := 0; i < 1+r.n(2); i++ {
			s := &JwksState{At: t, Mode: pick(r, "500", "garbage", "empty", "null", "odd", "odd", "odd", "hang", "hang_body", "partial", "reset", "slow", "ok", "ok", "ok")}
			s.Doc = r.n(len(oddJwks))
			s.Keys = []*JwkSpec{spec(0, "k0"), spec(2, "k2")}
			if s.Mode == "ok" {
				// keys that cannot be used
				b := &JwkSpec{Key: keys[1], Kid: "bad", Alg: alg, Bad: pick(r, "noalg", "badkty", "missing", "oct", "")}
				if b.Bad == "" {
					b.Key = other
					if r.p(0.5) {
						b.Alg = "RS384"
					}
				}
				s.Keys = []*JwkSpec{b}
				if r.p(0.5) {
					s.Keys = append([]*JwkSpec{spec(0, "k0")}, s.Keys...)
				}
			}
			if r.p(0.2) {
				s.Delay = r.rangeI(100*ms, 3*sec)
			}
			ks.Jwks = append(ks.Jwks, s)
			t += r.rangeI(5*sec, 40*sec)
		}
		if r.p(0.3) {
			ks.Down = []Window{{t - 10*sec, t}}
		}
	}
	// the key set rotates and stays
	fin := &JwksState{At: t, Mode: "ok"}
	newKid := "k2"
	switch r.n(3) {
	case 0:
		fin.Keys = []*JwkSpec{spec(0, "k0"), spec(2, "k2")}
	case 1:
		fin.Keys = []*JwkSpec{spec(2, "k2")}
	case 2:
		// the key behind a known id changes too
		fin.Keys = []*JwkSpec{spec(1, "k0"), spec(2, "k2")}
	}
	if r.p(0.25) {
		// one of them cannot be used
		i := r.n(len(fin.Keys))
		fin.Keys = append(append(append([]*JwkSpec{}, fin.Keys[:i]...), &JwkSpec{Key: other, Kid: pick(r, "odd", "k9", ""), Alg: alg}), fin.Keys[i:]...)
	}
	ks.Jwks = append(ks.Jwks, fin)
	end := t + 110*sec
	// a set of many keys that grows
	var many []*JwkSpec
	if r.p(0.4) {
		n := 3 + r.n(12)
		if r.p(0.3) {
			n = 15 + r.n(60)
		}
		for i := 0; i < n; i++ {
			k := keys[1]
			if alg == "ES256" {
				k = fmt.Sprintf("ec256_d%d", i)
			}
			many = append(many, &JwkSpec{Key: k, Kid: fmt.Sprintf("m%d", i), Alg: alg})
		}
		a := r.n(n + 1)
		first := many[:a]
		ks.Jwks[0].Keys = append(append([]*JwkSpec{}, first...), ks.Jwks[0].Keys...)
		fin.Keys = append(append([]*JwkSpec{}, fin.Keys...), many...)
		if r.p(0.3) {
			fin.Keys = fin.Keys[:len(fin.Keys)-len(many)]
			many = first
		} else if r.p(0.5) {
			// one after the other
			fin.Keys = append(append([]*JwkSpec{}, fin.Keys[:len(fin.Keys)-len(many)]...), first...)
			have := fin.Keys
			for i := a; i < n; i++ {
				have = append(append([]*JwkSpec{}, have...), many[i])
				t += r.rangeI(sec, 15*sec)
				ks.Jwks = append(ks.Jwks, &JwksState{At: t, Mode: "ok", Keys: have})
			}
			end = t + 110*sec
		}
	}
	// another key set under the same kids, which has nothing to do with the first
	two := r.p(0.35)
	if two {
		k2 := &HostPlan{Host: "jwks2.example", Port: 7001, Kind: "jwks", Lat: r.rangeI(100_000, 20*ms), Window: 60000}
		g.p.Hosts = append(g.p.Hosts, k2)
		c.Jwts["alt"] = &JwtCfg{Alg: alg, URL: "http://jwks2.example:7001/keys", Skew: w.Skew}
		g.route(&RouteCfg{Path: "/alt", Resource: "res0", Jwt: "alt"})
		k2.Jwks = []*JwksState{{At: 0, Mode: "ok", Keys: []*JwkSpec{spec(2, "k0")}}}
		at := 10*sec + r.rangeI(0, 20*sec)
		for i := 0; i < r.n(3); i++ {
			k2.Jwks = append(k2.Jwks, &JwksState{At: at, Mode: pick(r, "500", "garbage", "hang", "hang_body", "reset", "ok"), Keys: []*JwkSpec{spec(2, "k0")}})
			at += r.rangeI(5*sec, 40*sec)
		}
		k2.Jwks = append(k2.Jwks, &JwksState{At: at, Mode: "ok", Keys: []*JwkSpec{spec(2, "k0"), spec(1, "k2")}})
	}
	if r.p(0.4) && ks.TLS == "" {
		for i := 0; i < 1+r.n(4); i++ {
			g.p.Faults = append(g.p.Faults, &Fault{Kind: "wall_jump", At: r.rangeI(5*sec, end), Arg: r.rangeI(-7200, 7200) * sec})
		}
	}
	// clients ask all the time
	cp := g.conn(6*sec, false)
	cp2 := g.conn(7*sec, false)
	tt := 6 * sec
	for tt < end {
		step := r.rangeI(500*ms, 9*sec)
		tt += step
		q := g.req(cp, c.Routes[0])
		q.Conn = cp.ID
		q.Think = step
		q.Framing, q.Body, q.Pieces, q.Expect100 = "", 0, 0, false
		q.Behavs = []*Behav{{Status: 200, Size: 50}}
		q.Tok = &TokSpec{Alg: alg}
		switch r.n(8) {
		case 0, 1:
			q.Tok.Key, q.Tok.Kid = keys[0], "k0"
		case 2:
			q.Tok.Key, q.Tok.Kid = keys[1], "k0"
		case 3:
			q.Tok.Key, q.Tok.Kid = keys[1], pick(r, "nokey", "bad", "k1")
		default:
			q.Tok.Key, q.Tok.Kid = keys[2], newKid
		}
		if len(many) > 0 && r.p(0.6) {
			m := many[r.n(len(many))]
			q.Tok.Key, q.Tok.Kid = m.Key, m.Kid
		}
		if r.p(0.1) {
			q.Tok.Kid = ""
		}
		if two && r.p(0.4) {
			q.URI = "/alt" + strings.TrimPrefix(q.URI, "/sec")
			q.Tok.Key, q.Tok.Kid = keys[r.n(3)], pick(r, "k0", "k2", "k0", "k2", "k1", "")
			if r.p(0.5) {
				q.Tok.Key, q.Tok.Kid = keys[1], "k2"
			}
		}
		g.p.Reqs = append(g.p.Reqs, q)
	}
	// a second route with the same tokens
	defer func() {
		if !g.r.p(0.4) {
			return
		}
		g.route(&RouteCfg{Path: "/more", Resource: "res0", Jwt: "rot"})
		for _, q := range g.p.Reqs {
			if strings.HasPrefix(q.URI, "/sec") && g.r.p(0.4) {
				q.URI = "/more" + strings.TrimPrefix(q.URI, "/sec")
			}
		}
	}()
	// a crowd with unknown keys
	tt = 7 * sec
	for i := 0; i < 10+r.n(30); i++ {
		q := g.req(cp2, c.Routes[r.n(2)])
		q.Conn = cp2.ID
		q.Think = r.rangeI(0, 2*sec)
		q.Framing, q.Body, q.Pieces, q.Expect100 = "", 0, 0, false
		q.Behavs = []*Behav{{Status: 200, Size: 50}}
		if strings.HasPrefix(q.URI, "/sec") {
			q.Tok = &TokSpec{Alg: alg, Key: keys[r.n(3)], Kid: pick(r, "k0", "k1", "k2", "zz")}
			if len(many) > 0 && r.p(0.5) {
				m := many[r.n(len(many))]
				q.Tok.Key, q.Tok.Kid = m.Key, m.Kid
			}
		}
		g.p.Reqs = append(g.p.Reqs, q)
	}
	if r.p(0.3) {
		g.renameKids()
	} else if r.p(0.2) {
		g.dropKids()
	}
}

// dropKids: keys need not have a name.
func (g *gen) dropKids() {
	drop := map[string]bool{"k1": true, "k2": true, "m0": true, "m1": true, "m2": true}
	if g.r.p(0.5) {
		drop["k0"] = true
	}
	for _, h := range g.p.Hosts {
		for _, st := range h.Jwks {
			for _, k := range st.Keys {
				if drop[k.Kid] {
					k.Kid = ""
				}
			}
		}
	}
	for _, q := range g.p.Reqs {
		if q.Tok != nil && drop[q.Tok.Kid] && g.r.p(0.6) {
			q.Tok.Kid = pick(g.r, "", "", "unnamed")
		}
	}
}

// renameKids: kids are opaque, whatever they look like.
func (g *gen) renameKids() {
	r := g.r
	as := [][2]string{{"k2", "K0"}, {"k2", "k0k0"}, {"k2", "k"}, {"k2", "k0 "}, {"k2", "0"}, {"k2", "null"}, {"k2", "K0/+="}, {"k2", strings.Repeat("k", 300)}, {"k0", "K2"}}[r.n(9)]
	ren := func(s *string) {
		if *s == as[0] {
			*s = as[1]
		}
	}
	done := map[*JwkSpec]bool{}
	for _, h := range g.p.Hosts {
		for _, st := range h.Jwks {
			for _, k := range st.Keys {
				if !done[k] {
					done[k] = true
					ren(&k.Kid)
				}
			}
		}
	}
	for _, q := range g.p.Reqs {
		if q.Tok != nil {
			ren(&q.Tok.Kid)
		}
	}
}

func perm2(r *rng, xs []LW) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.n(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

// policy: weighted routing.
func (g *gen) policy() {
	r := g.r
	c := &g.p.Cfg
	g.p.LogLevel = "INFO"
	c.UpPool = 200
	c.UpRead = 5
	nh := 2 + r.n(3)
	labels := []string{"blue", "green", "red", "canary"}
	switch r.n(4) {
	case 0:
		labels = []string{"green", "green-canary", "green-canary2", "Green"}
	case 1:
		labels = []string{"v10", "v1", "v1.0", "v"}
	}
	for i := len(labels) - 1; i > 0; i-- {
		j := r.n(i + 1)
		labels[i], labels[j] = labels[j], labels[i]
	}
	for i := 0; i < nh; i++ {
		h := g.host(i, false)
		h.IdleClose = 0
		l := []string{labels[i]}
		if r.p(0.3) {
			l = append([]string{"extra"}, l...)
		}
		if r.p(0.2) {
			l = append(l, "other")
		}
		c.Resources["multi"] = append(c.Resources["multi"], &ResMap{Labels: l, Scheme: "http", Host: h.Host, Port: h.Port})
	}
	var lw []LW
	left := 100
	rare := r.p(0.05) // one gets almost nothing
	if rare {
		nh = 2
	}
	for i := 0; i < nh; i++ {
		w := left
		if i < nh-1 {
			w = 1 + r.n(left-(nh-i-1))
		}
		if rare && i == 0 {
			w = 1 + r.n(4)
		}
		left -= w
		lw = append(lw, LW{labels[i], float64(w) / 100})
	}
	for i := len(lw) - 1; i > 0; i-- {
		j := r.n(i + 1)
		lw[i], lw[j] = lw[j], lw[i]
	}
	if nh < len(labels) && r.p(0.3) {
		// a label nobody must get
		h := g.host(nh, false)
		c.Resources["multi"] = append(c.Resources["multi"], &ResMap{Labels: []string{labels[nh]}, Scheme: "http", Host: h.Host, Port: h.Port})
		if r.p(0.7) {
			lw = append(lw, LW{labels[nh], 0})
			perm2(r, lw)
		}
	}
	c.Policies = map[string][]LW{"split": lw}
	g.route(&RouteCfg{Path: "/split", Resource: "multi", Policy: "split"})
	g.route(&RouteCfg{Path: "/first", Resource: "multi"})
	split := []string{"/split"}
	if r.p(0.6) {
		// the same policy for another route, over the same labels in another order
		ms := append([]*ResMap{}, c.Resources["multi"]...)
		for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
			ms[i], ms[j] = ms[j], ms[i]
		}
		c.Resources["again"] = ms
		g.route(&RouteCfg{Path: "/again", Resource: "again", Policy: "split"})
		split = append(split, "/again")
	}
	if nh > 2 && r.p(0.4) {
		// another policy, naming only some of the upstreams
		c.Policies["some"] = []LW{{labels[0], 0.5}, {labels[1], 0.5}}
		g.route(&RouteCfg{Path: "/some", Resource: "multi", Policy: "some"})
		split = append(split, "/some")
	}
	g.route(&RouteCfg{Path: "/about", Resource: "about"})
	nc := 4 + r.n(8)
	per := 40 + r.n(60)
	think := []int64{0, 5 * ms, 100 * ms, 1 * sec}[r.n(4)]
	abouts := []float64{0, 0.1, 0.5}[r.n(3)]
	if rare {
		nc, per, abouts = 12, 210, 0
		think = min64(think, 5*ms)
		split = split[:1]
	}
	for i := 0; i < nc; i++ {
		cp := g.conn(6*sec, false)
		for j := 0; j < per; j++ {
			q := &ReqPlan{ID: g.rid, Conn: cp.ID, Method: "GET", Think: r.rangeI(0, think)}
			g.rid++
			q.URI = fmt.Sprintf("%s/x?rid=%d", split[r.n(len(split))], q.ID)
			first := r.p(0.05)
			if first {
				q.URI = fmt.Sprintf("/first/x?rid=%d", q.ID)
			}
			if r.p(abouts) {
				q.URI = "/about"
			} else if r.p(0.05) || (first && r.p(0.3)) {
				for k := r.n(4); k >= 0; k-- {
					q.Behavs = append(q.Behavs, &Behav{Status: 503})
				}
				q.Behavs = append(q.Behavs, &Behav{Status: 200, Size: 20})
			}
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
}

// keyServer adds a key server in the states given and a route that asks it, and
// returns what makes a request one for that route.
func (g *gen) keyServer(tls string, modes ...string) (*HostPlan, func(q *ReqPlan)) {
	r := g.r
	c := &g.p.Cfg
	alg := pick(r, "ES256", "ES256", "RS256")
	keys := keysFor(alg)
	ks := &HostPlan{Host: "jwks.example", Port: 7000, Kind: "jwks", Lat: r.rangeI(100_000, 20*ms), Window: 60000, TLS: tls}
	g.p.Hosts = append(g.p.Hosts, ks)
	w := &JwtCfg{Alg: alg, URL: "http://jwks.example:7000/keys"}
	if tls != "" {
		w.URL = "https://jwks.example:7000/keys"
	}
	if c.Jwts == nil {
		c.Jwts = map[string]*JwtCfg{}
	}
	c.Jwts["rot"] = w
	g.route(&RouteCfg{Path: "/keyed", Resource: "res0", Jwt: "rot"})
	ks.Jwks = []*JwksState{{At: 0, Mode: "ok", Keys: []*JwkSpec{{Key: keys[0], Kid: "k0", Alg: alg}}}}
	t := 6 * sec
	for _, m := range modes {
		t += r.rangeI(0, 10*sec)
		ks.Jwks = append(ks.Jwks, &JwksState{At: t, Mode: m, Keys: []*JwkSpec{{Key: keys[0], Kid: "k0", Alg: alg}, {Key: keys[1], Kid: "k1", Alg: alg}}})
	}
	return ks, func(q *ReqPlan) {
		q.URI = fmt.Sprintf("/keyed/x?rid=%d", q.ID)
		k := r.n(4)
		q.Tok = &TokSpec{Alg: alg, Key: keys[min(k, 2)], Kid: pick(r, "k0", "k1", "k1", "k2", "k3")}
		if k == 3 {
			q.Tok.Key, q.Tok.Kid = keys[0], "k0"
		}
	}
}

// tls: certificates good and bad on both sides.
func (g *gen) tls() {
	r := g.r
	c := &g.p.Cfg
	c.TLS = true
	c.CertDays, c.CertAge = 40+r.n(300), r.n(100)
	c.Chain = r.p(0.5)
	c.InterDays = 700
	c.Insecure = r.p(0.25)
	c.UpSocket = 2 + r.n(3)
	if r.p(0.3) {
		c.UpRead, c.DnRound = c.UpSocket+2+r.n(4), 12
	}
	g.defaults()
	n := 1 + r.n(3)
	for i := 0; i < n; i++ {
		h := g.host(i, false)
		h.TLS = pick(r, "ok", "ok", "expired", "notyet", "wronghost", "unknownca", "until")
		if h.TLS == "until" {
			h.TLSUntil = 10 + int64(r.n(20))
			h.IdleClose = 500 * ms
		}
		if r.p(0.25) {
			h.Accept = map[int]string{r.n(4): pick(r, "reset", "close", "stall", "stall")}
		}
		g.resource(fmt.Sprintf("res%d", i), h)
		g.route(&RouteCfg{Path: fmt.Sprintf("/t%d", i), Resource: fmt.Sprintf("res%d", i)})
	}
	g.route(&RouteCfg{Path: "/about", Resource: "about"})
	rts := g.proxyRoutes()
	var keyed func(q *ReqPlan)
	if r.p(0.35) {
		ks, f := g.keyServer(pick(r, "ok", "until", "until"), pick(r, "ok", "500", "hang"), "ok")
		if ks.TLS == "until" {
			ks.TLSUntil, ks.IdleClose = 7+int64(r.n(12)), 500*ms
		}
		keyed = f
	}
	for i := 0; i < 2+r.n(5); i++ {
		cp := g.conn(6*sec+r.rangeI(0, 3*sec), false)
		if cp.Proto == "tls" {
			cp.TLSMax = []int{0, 0, 3, 4, 1, 2}[r.n(6)]
		}
		for j := 0; j < 1+r.n(5); j++ {
			q := g.req(cp, rts[r.n(len(rts))])
			if r.p(0.3) {
				q.Think = r.rangeI(0, 8*sec)
			}
			g.behavs(q, 0.1)
			if keyed != nil && r.p(0.4) {
				keyed(q)
			} else if r.p(0.1) {
				g.aboutReq(q)
			} else if r.p(0.05) {
				q.URI = g.noRoute(q.ID)
			}
			g.h2fix(cp, q)
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
	for i := 0; i < n; i++ {
		h := g.p.Hosts[i]
		if h.TLS != "until" || r.p(0.4) {
			continue
		}
		// its certificate is good when it is met first and is not later on
		cp := g.conn(6*sec+r.rangeI(0, 2*sec), false)
		cp.TLSMax = 0
		for j := 0; j < 3; j++ {
			q := g.req(cp, c.Routes[i])
			q.Think = r.rangeI(0, sec)
			if j == 2 {
				q.Think = max64(h.TLSUntil-8, 0)*sec + r.rangeI(sec, 4*sec)
			}
			g.behavs(q, 0)
			g.h2fix(cp, q)
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
	if r.p(0.3) {
		g.jumps(2)
	}
}

// daemon: days of uptime.
func (g *gen) daemon() {
	r := g.r
	c := &g.p.Cfg
	g.p.LogLevel = pick(r, "INFO", "DEBUG", "DEBUG")
	g.p.Sched.YieldP = 0
	h := g.host(0, false)
	h.IdleClose = 0
	g.resource("res0", h)
	g.route(&RouteCfg{Path: "/a", Resource: "res0"})
	g.route(&RouteCfg{Path: "/about", Resource: "about"})
	days := int64(2 + r.n(4))
	if r.p(0.1) {
		days += 6
	}
	c.TLS = r.p(0.75)
	c.CertAge = r.n(60)
	c.CertDays = []int{3 + r.n(8), 10, 29, 30, 31, 32, 33, 60, 380}[r.n(9)]
	c.Chain = r.p(0.5)
	c.InterDays = []int{c.CertDays + 100, 28, 30 + r.n(4), 700}[r.n(4)]
	cp := g.conn(6*sec, false)
	if cp.Proto == "h2" {
		cp.Proto = "tls"
	}
	for i := 0; i < 4; i++ {
		q := g.req(cp, c.Routes[r.n(2)])
		q.Method, q.Framing, q.Body, q.Pieces, q.Expect100 = "GET", "", 0, 0, false
		if strings.HasPrefix(q.URI, "/about") {
			q.URI = "/about"
		}
		q.Behavs = []*Behav{{Status: 200, Size: 30}}
		if i > 0 {
			q.Think = days * 86400 * sec / 4
		}
		g.p.Reqs = append(g.p.Reqs, q)
	}
	for i := 0; i < r.n(4); i++ {
		k := pick(r, "os_open", "os_read", "os_short")
		g.p.Faults = append(g.p.Faults, &Fault{Kind: k, At: r.rangeI(3*sec, 12*3600*sec), Dur: r.rangeI(30*sec, 3*3600*sec), Arg: int64(r.n(40)), Path: pick(r, "/proc/", "statm", "/stat", "meminfo", "status")})
	}
	jump := func(at, d int64) {
		g.p.Faults = append(g.p.Faults, &Fault{Kind: "wall_jump", At: at, Arg: d * sec})
	}
	if r.p(0.3) {
		jump(r.rangeI(10*sec, 86400*sec), []int64{-3600, 3600, 7200, -86400}[r.n(4)])
	}
	if r.p(0.25) {
		// the clock is off by days for a while, before the chain is valid or past its end, and is set right again
		d := int64(c.CertDays+1+r.n(20)) * 86400
		if r.p(0.5) {
			d = -int64(c.CertAge+1+r.n(20)) * 86400
		}
		from := r.rangeI(10*sec, days*86400*sec*2/3)
		jump(from, d)
		jump(from+r.rangeI(3600*sec, 30*3600*sec), -d)
	}
}

// about: the status page while everything else is in trouble.
func (g *gen) about() {
	r := g.r
	c := &g.p.Cfg
	c.MaxAttempts = 1 + r.n(3)
	g.defaults()
	if r.p(0.2) {
		c.TLS, c.CertDays, c.CertAge = true, 100, 5
	}
	g.topo(true)
	has := false
	for _, rt := range c.Routes {
		has = has || rt.Path == "/about"
	}
	if !has {
		g.route(&RouteCfg{Path: "/about", Resource: "about"})
	}
	rts := g.proxyRoutes()
	var keyed func(q *ReqPlan)
	if r.p(0.4) {
		_, keyed = g.keyServer(pick(r, "", "", "ok"), pick(r, "hang", "hang", "hang_body", "slow", "500", "ok"))
	}
	// the process takes its own pulse at boot and every minute
	g.p.Early = r.p(0.3)
	late := r.p(0.3)
	for i := 0; i < 3+r.n(5); i++ {
		at := 6*sec + r.rangeI(0, sec)
		if g.p.Early {
			at = r.rangeI(0, 6*sec)
		}
		if late && i%2 == 0 {
			at = 60*sec + r.rangeI(-sec, 3*sec)
		}
		cp := g.conn(at, false)
		for j := 0; j < 2+r.n(6); j++ {
			q := g.req(cp, rts[r.n(len(rts))])
			if i < 2 || r.p(0.3) {
				g.aboutReq(q)
				if r.p(0.3) {
					q.Method = "POST"
					g.setBody(q)
				}
				q.Think = r.rangeI(0, 3*sec)
			} else if keyed != nil && r.p(0.5) {
				keyed(q)
				g.behavs(q, 0)
			} else {
				g.behavs(q, 0.6)
			}
			g.h2fix(cp, q)
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
	if r.p(0.35) {
		// everybody asks at once
		at := 7*sec + r.rangeI(0, 3*sec)
		g.stalls()
		for i := 0; i < 4+r.n(8); i++ {
			cp := g.conn(at+r.rangeI(0, ms), false)
			cp.Lat, cp.Jitter = ms, r.rangeI(0, ms)
			for j := 0; j < 1+r.n(5); j++ {
				q := g.req(cp, rts[0])
				g.aboutReq(q)
				q.Think = 0
				g.h2fix(cp, q)
				g.p.Reqs = append(g.p.Reqs, q)
			}
		}
	}
	if r.p(0.3) {
		g.jumps(2)
	}
}

// codec: every combination of upstream coding and client acceptance.
func (g *gen) codec() {
	r := g.r
	g.p.Cfg.MaxAttempts = 1 + r.n(3)
	g.defaults()
	g.topo(false)
	rts := g.proxyRoutes()
	for i := 0; i < 1+r.n(5); i++ {
		cp := g.conn(6*sec+r.rangeI(0, sec), false)
		for j := 0; j < 3+r.n(6); j++ {
			q := g.req(cp, rts[r.n(len(rts))])
			q.Method = pick(r, "GET", "GET", "POST", "PUT", "HEAD", "DELETE")
			if q.Method == "GET" || q.Method == "HEAD" {
				q.Framing, q.Body, q.Pieces, q.Expect100 = "", 0, 0, false
			}
			var hs [][2]string
			for _, kv := range q.Hdr {
				if !strings.EqualFold(kv[0], "Accept-Encoding") {
					hs = append(hs, kv)
				}
			}
			q.Hdr = hs
			switch r.n(4) {
			case 0, 1:
				q.Hdr = append(q.Hdr, [2]string{"Accept-Encoding", pick(r, "gzip", "gzip, br", "br, gzip", "deflate, gzip;q=0.5")})
			case 2:
				q.Hdr = append(q.Hdr, [2]string{"Accept-Encoding", pick(r, "identity", "br", "deflate", "gzip;q=0", "identity, gzip;q=0", "br;q=1.0, gzip; q=0.0, *;q=0.1")})
			}
			if r.p(0.08) {
				q.Hdr = append(q.Hdr, [2]string{"Accept-Encoding", pick(r, oddAccept...)})
			}
			n := 1
			if r.p(0.25) {
				n = 2
			}
			for k := 0; k < n; k++ {
				b := g.okBehav()
				b.Enc = pick(r, "", "", "gzip", "gzip", "gzip", "GZIP", "br", "deflate", "zstd", "x-gzip", "identity", "gzip_trunc", "gzip_corrupt", "gzip_not", "gzip_stub",
					"gzip|gzip", "gzip|br", "br|gzip", "gzip, gzip", "deflate, gzip", "identity|gzip")
				b.At = r.n(1000)
				if r.p(0.25) {
					b.Kind = pick(r, "gz", "magic")
				}
				b.Zip = pick(r, "", "", "", "multi", "named", "stored", "empties")
				if b.Size == 0 && b.Enc != "" {
					b.Size = 5 + r.n(200)
				}
				if strings.HasPrefix(b.Enc, "gzip_") {
					b.Status = 200
					b.Size = 100 + r.n(3000)
					if b.Enc == "gzip_not" {
						b.Kind = pick(r, "text", "json")
					}
				}
				if r.p(0.15) {
					b.Status = []int{500, 404, 403, 503, 302}[r.n(5)]
					if b.Status == 302 {
						b.Hdr = append(b.Hdr, [2]string{"X-Loc", "1"})
					}
				}
				g.fixHead(q, b)
				q.Behavs = append(q.Behavs, b)
			}
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
	if r.p(0.35) {
		// a crowd: responses coded while others wait for clients to read them
		g.p.Cfg.UpPool = 20
		n := 3 + r.n(6)
		at := 9*sec + r.rangeI(0, sec)
		for i := 0; i < n; i++ {
			cp := g.conn(at+r.rangeI(0, 300*ms), false)
			if r.p(0.6) {
				cp.Window = 1000 + r.n(4000)
			}
			for j := 0; j < 2+r.n(4); j++ {
				q := g.req(cp, rts[r.n(len(rts))])
				q.Method, q.Framing, q.Body, q.Pieces, q.Expect100 = "GET", "", 0, 0, false
				q.Think = r.rangeI(0, 20*ms)
				if cp.Proto != "h2" && r.p(0.5) {
					q.ReadDelay = r.rangeI(ms, 400*ms)
				}
				var hs [][2]string
				for _, kv := range q.Hdr {
					if !strings.EqualFold(kv[0], "Accept-Encoding") {
						hs = append(hs, kv)
					}
				}
				q.Hdr = hs
				b := &Behav{Status: 200, Kind: pick(r, "bin", "bin", "text"), Framing: "cl", Size: 3000 + r.n(50000), Delay: r.rangeI(0, 200*ms)}
				if r.p(0.75) {
					q.Hdr = append(q.Hdr, [2]string{"Accept-Encoding", "gzip"})
					b.Enc = pick(r, "", "", "", "gzip")
				} else {
					b.Enc = pick(r, "gzip", "gzip", "")
				}
				q.Behavs = []*Behav{b}
				g.p.Reqs = append(g.p.Reqs, q)
			}
		}
	}
	if r.p(0.2) {
		g.stalls()
	}
}

// pool: bursts against a small pool, then idleness.
func (g *gen) pool() {
	r := g.r
	c := &g.p.Cfg
	c.UpPool = 1 + r.n(6)
	c.UpIdle = 2 + r.n(8)
	c.UpRead = 1 + r.n(3)
	g.defaults()
	g.topo(r.p(0.3))
	for _, h := range g.p.Hosts {
		if r.p(0.6) {
			h.IdleClose = 0
		}
	}
	rts := g.proxyRoutes()
	burst := r.rangeI(0, 100*ms)
	for i := 0; i < 3+r.n(12); i++ {
		cp := g.conn(6*sec+r.rangeI(0, burst), false)
		for j := 0; j < 1+r.n(4); j++ {
			q := g.req(cp, rts[r.n(len(rts))])
			if j > 0 {
				q.Think = r.rangeI(0, int64(c.UpIdle+3)*sec)
			} else {
				q.Think = 0
			}
			g.behavs(q, 0.2)
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
	g.p.Linger = r.rangeI(0, 20*sec)
	if r.p(0.3) {
		g.stalls()
	}
}

// heal: heavy trouble, then calm: the proxy must serve again.
func (g *gen) heal() {
	r := g.r
	if r.p(0.5) {
		g.mix(true, nil)
	} else {
		g.body()
	}
	g.stalls()
	if r.p(0.5) {
		g.jumps(3)
	}
	last := int64(0)
	for _, h := range g.p.Hosts {
		for _, w := range append(append([]Window{}, h.Down...), h.Outages...) {
			if w.To > last {
				last = w.To
			}
		}
	}
	calm := 120*sec + last + r.rangeI(0, 20*sec)
	for _, rt := range g.p.Cfg.Routes {
		cp := g.conn(calm, false)
		cp.Outages, cp.Loss = nil, 0
		q := g.req(cp, rt)
		q.Probe = true
		q.Think = 0
		if rt.Resource == "about" {
			q.URI = "/about"
		}
		q.Method, q.Framing, q.Body, q.Pieces, q.Expect100 = pick(r, "GET", "PUT", "DELETE"), "", 0, 0, false
		q.Behavs = []*Behav{{Status: 200, Size: 100}}
		g.p.Reqs = append(g.p.Reqs, q)
	}
}

// crowd: many requests get nowhere, held up by their upstream, their client or a key server; the others must not notice.
func (g *gen) crowd() {
	r := g.r
	c := &g.p.Cfg
	c.UpRead = 20 + r.n(20)
	c.DnRead = 20 + r.n(20)
	c.DnRound = 30 + r.n(30)
	c.UpSocket = 5 + r.n(20)
	c.UpPool = 1 + r.n(4)
	c.MaxAttempts = 1 + r.n(3)
	g.defaults()
	if r.p(0.25) {
		c.TLS, c.CertDays, c.CertAge = true, 100, 5
	}
	good, bad := g.host(0, false), g.host(1, false)
	g.resource("res0", good)
	g.resource("bad", bad)
	g.route(&RouteCfg{Path: "/good", Resource: "res0"})
	g.route(&RouteCfg{Path: "/bad", Resource: "bad"})
	g.route(&RouteCfg{Path: "/about", Resource: "about"})
	how := pick(r, "stall", "stall", "slow", "dial", "accept", "outage")
	switch how {
	case "dial":
		bad.Dial = map[int]string{}
		for i := 0; i < 200; i++ {
			bad.Dial[i] = "hang"
		}
	case "accept":
		bad.Accept = map[int]string{}
		for i := 0; i < 200; i++ {
			bad.Accept[i] = "stall"
		}
	case "outage":
		bad.Outages = []Window{{6 * sec, 6*sec + r.rangeI(10*sec, 60*sec)}}
	}
	same := r.p(0.5) // the good upstream has its bad moments, too
	var keyed func(q *ReqPlan)
	if r.p(0.4) {
		_, keyed = g.keyServer("", pick(r, "hang", "hang", "hang_body"))
	}
	stuck := func(q *ReqPlan) {
		for k := 0; k < c.MaxAttempts; k++ {
			b := &Behav{Status: 200, Size: 50 + r.n(500), Framing: "cl"}
			if how == "slow" {
				b.Delay = int64(c.DnRound+1) * sec
			} else {
				b.Fail, b.Stage, b.At = "stall", pick(r, "line", "head", "req", "hdr", "body"), r.n(1<<16)
			}
			g.fixHead(q, b)
			q.Behavs = append(q.Behavs, b)
		}
	}
	plain := func(q *ReqPlan) {
		q.Expect100, q.Http10 = false, false
	}
	n := 3 + r.n(25)
	if r.p(0.03) {
		n = 70 + r.n(250)
	}
	at := 6 * sec
	theme := -1 // all are slow for the same reason
	if r.p(0.35) {
		theme = r.n(2)
	}
	for i := 0; i < n; i++ {
		cp := g.conn(at+r.rangeI(0, 2*sec), false)
		rt := c.Routes[1]
		if (same && r.p(0.5)) || theme >= 0 {
			rt = c.Routes[0]
		}
		q := g.req(cp, rt)
		plain(q)
		q.Think = 0
		k := r.n(6)
		if theme >= 0 {
			k = theme
		}
		switch {
		case k == 0 && cp.Proto == "http": // the client is the slow one
			q.Method, q.Framing, q.Body = "PUT", "cl", 500
			q.Abort, q.AbortAt = "body-stall", 1+r.n(498)
		case k == 1 && cp.Proto == "http":
			cp.Window = 1000
			q.Method, q.Framing, q.Body = "GET", "", 0
			q.Behavs = []*Behav{{Status: 200, Size: 60000 + r.n(100000), Framing: "cl"}}
			q.ReadDelay = r.rangeI(sec, 20*sec)
		case k == 2 && keyed != nil:
			keyed(q)
			q.Behavs = []*Behav{{Status: 200, Size: 10}}
			g.fixHead(q, q.Behavs[0])
		default:
			stuck(q)
		}
		g.h2fix(cp, q)
		g.p.Reqs = append(g.p.Reqs, q)
	}
	for i := 0; i < 2+r.n(6); i++ {
		cp := g.conn(at+r.rangeI(0, 15*sec), false)
		for j := 0; j < 1+r.n(5); j++ {
			q := g.req(cp, c.Routes[0])
			q.Think = r.rangeI(0, 4*sec)
			switch {
			case r.p(0.2):
				g.aboutReq(q)
			case keyed != nil && r.p(0.3):
				keyed(q)
				g.behavs(q, 0)
			default:
				g.behavs(q, pick3(r, 0, 0, .5))
				if b := q.Behavs[len(q.Behavs)-1]; r.p(0.3) && b.Size > 0 && b.Enc == "" {
					b.Size = 30000 + r.n(150000)
				}
			}
			g.h2fix(cp, q)
			g.p.Reqs = append(g.p.Reqs, q)
		}
	}
}

// deflt: parameters are left out of the configuration; what they default to is probed from both sides.
func (g *gen) deflt() {
	r := g.r
	c := &g.p.Cfg
	all := []string{"upPool", "upIdle", "upSocket", "upRead", "maxAttempts", "dnRead", "dnRound", "dnIdle", "maxBody"}
	what := all[r.n(len(all))]
	out := []string{what}
	for _, k := range all {
		// leaving out others must make no difference to this one; those which bound it stay
		if k != what && r.p(0.15) && k != "dnRound" && k != "dnRead" && k != "upRead" {
			out = append(out, k)
		}
	}
	if c.left("port") {
		out = append(out, "port")
	}
	c.Defaults = out
	c.UpPool, c.UpIdle, c.UpSocket, c.UpRead, c.MaxAttempts = 10+r.n(90), 130+r.n(60), 4+r.n(6), 280, 1+r.n(3)
	c.DnRead, c.DnRound, c.DnIdle, c.MaxBody = 130+r.n(60), 310, 130+r.n(60), int64(1000000+r.n(1000000))
	if what == "dnRead" {
		c.UpRead = 20 + r.n(20)
	}
	g.defaults()
	h := g.host(0, false)
	h.IdleClose, h.Tiny = 0, false
	g.resource("app", h)
	rt := g.route(&RouteCfg{Path: "/app", Resource: "app"})
	one := func(at int64) (*ConnPlan, *ReqPlan) {
		cp := g.conn(at, false)
		cp.Tiny = false
		q := g.req(cp, rt)
		q.Method, q.Framing, q.Body, q.Declared, q.Pieces, q.Gap = pick(r, "GET", "OPTIONS"), "", 0, 0, 0, 0
		q.Expect100, q.Http10, q.Think = false, false, 0
		g.p.Reqs = append(g.p.Reqs, q)
		return cp, q
	}
	put := func(at int64, n int) *ReqPlan {
		_, q := one(at)
		q.Method, q.Framing, q.Body = pick(r, "PUT", "POST"), pick(r, "cl", "chunked"), n
		q.Behavs = []*Behav{{Status: 200, Size: 20}}
		return q
	}
	t := 6*sec + r.rangeI(0, sec)
	slow := func(most int) *Behav { // within what is allowed
		return &Behav{Status: 200, Size: 60, Delay: int64(most)*sec - r.rangeI(sec, int64(most)*sec/8)}
	}
	stall := func() *Behav {
		return &Behav{Status: 200, Size: 100, Framing: "cl", Fail: "stall", Stage: pick(r, "req", "hdr", "body"), At: r.n(1 << 16)}
	}
	switch what {
	case "upRead":
		c.MaxAttempts = 1
		_, q := one(t)
		q.Behavs = []*Behav{stall()}
		_, q = one(t)
		q.Behavs = []*Behav{slow(120)}
	case "dnRound":
		c.MaxAttempts = 1
		_, q := one(t)
		q.Behavs = []*Behav{stall()}
		_, q = one(t)
		q.Behavs = []*Behav{slow(240)}
	case "upSocket":
		h.Dial = map[int]string{0: "hang", 1: pick(r, "hang", "slow")}
		for i := 0; i < 3; i++ {
			_, q := one(t)
			q.Behavs = []*Behav{{Status: 200, Size: 10}}
			t += r.rangeI(0, 5*sec)
		}
	case "upIdle":
		for i := 0; i < 1+r.n(3); i++ {
			_, q := one(t)
			q.Behavs = []*Behav{{Status: 200, Size: r.n(3000)}}
		}
		_, q := one(t + r.rangeI(90*sec, 118*sec))
		q.Behavs = []*Behav{{Status: 200, Size: r.n(3000)}}
		g.p.Linger = 200 * sec
	case "maxAttempts":
		for i := 0; i < 3; i++ {
			_, q := one(t)
			q.Behavs = []*Behav{{Status: pick2(r, 500, 503, 404, 200), Size: 10}, {Status: 200, Size: 20}, {Status: 200, Size: 20}}
			if r.p(0.5) {
				q.Behavs[0].Fail, q.Behavs[0].Stage = pick(r, "rst", "fin", "garbage"), pick(r, "req", "hdr")
			}
		}
	case "dnRead":
		cp := g.conn(t, false)
		if cp.Proto == "http" {
			cp.Silent = true
		}
		q := put(t, 100+r.n(3000)) // takes its time, within what is allowed
		q.Pieces = 8
		q.Gap = (120*sec - r.rangeI(5*sec, 15*sec)) / 8
		if cp, q := one(t); cp.Proto == "http" {
			q.Method, q.Framing, q.Body, q.Abort, q.AbortAt = "PUT", "cl", 1000, "body-stall", 500
		}
	case "dnIdle":
		cp, q := one(t)
		q.Behavs = []*Behav{{Status: 200, Size: 30}}
		q2 := g.req(cp, rt)
		q2.Method, q2.Framing, q2.Body, q2.Expect100, q2.Http10 = "GET", "", 0, false, false
		q2.Think = r.rangeI(90*sec, 118*sec)
		q2.Behavs = []*Behav{{Status: 200, Size: 30}}
		g.p.Reqs = append(g.p.Reqs, q2)
		cp.IdleEnd = 200 * sec
	case "maxBody":
		for _, n := range []int{2<<20 - 1, 2<<20 - r.n(90000), 2 << 20, 2<<20 + 1 + r.n(100), 3 << 20} {
			if r.p(0.5) {
				put(t, n)
			}
		}
	case "upPool":
		for i := 0; i < 5+r.n(30); i++ {
			_, q := one(t + r.rangeI(0, 5*ms))
			q.Behavs = []*Behav{{Status: 200, Size: 30, Delay: r.rangeI(0, 50*ms)}}
		}
		g.p.Linger = 20 * sec
	}
}

// boot: configurations that can and cannot be honoured.
func (g *gen) boot() {
	r := g.r
	c := &g.p.Cfg
	g.p.BootOnly = true
	g.p.Sched.YieldP = 0
	g.topo(false)
	g.p.Expect = "exit"
	bad := func(s string) { g.p.Note = s }
	file := func() { c.Source = pick(r, "file", "default") }
	jw := func(w *JwtCfg) {
		c.Jwts = map[string]*JwtCfg{"j": w}
		c.Routes[0].Jwt = "j"
	}
	key := func() (string, string) {
		a := allAlgs[r.n(len(allAlgs))]
		return a, keysFor(a)[0]
	}
	jwksHost := func(s *JwksState) {
		g.p.Hosts = append(g.p.Hosts, &HostPlan{Host: "jwks.example", Port: 7000, Kind: "jwks", Lat: ms, Window: 60000, Jwks: []*JwksState{s}})
	}
	tlsOn := func() { c.TLS, c.CertDays, c.CertAge = true, 100, 5 }
	switch n := r.n(45); n {
	case 0:
		c.Raw = pick(r, " ", "{", "routes: [", "just text", "- a\n- b\n", "routes:\n\t- path: /x\n", "\x00\x01")
		if r.p(0.5) || strings.Contains(c.Raw, "\x00") { // which the environment cannot hold
			file()
		}
		bad("configuration text is not a configuration")
	case 1:
		c.Routes = nil
		bad("no routes")
	case 2:
		file()
		if c.Missing = r.p(0.5); !c.Missing {
			g.p.Faults = append(g.p.Faults, &Fault{Kind: "os_open", Path: "j8acfg.yml", Arg: int64(r.n(4))})
		}
		bad("configuration file cannot be opened")
	case 3, 4, 5:
		file()
		g.p.Faults = append(g.p.Faults, &Fault{Kind: "os_read", Path: "j8acfg.yml", Arg: int64(1 + r.n(900))})
		g.yamlText(r.p(0.7))
		bad("reading the configuration file fails half way")
	case 6:
		c.Routes[0].Path = pick(r, "/a[", "/(", "/a(b", "/x{2,1}", "/\\", "/+*")
		bad("route path is not a legal expression")
	case 7:
		c.Routes[0].Transform = pick(r, "t", "t/x", "..", "http://x/", " /a")
		bad("transform without a leading slash")
	case 8:
		c.Routes[0].Jwt = "nosuch"
		if r.p(0.5) {
			a, k := key()
			c.Jwts = map[string]*JwtCfg{"other": {Alg: a, Key: k}}
		}
		bad("route names a token configuration that does not exist")
	case 9:
		_, k := key()
		jw(&JwtCfg{Alg: pick(r, "RS111", "rs256", "XX", "HS255", "none "), Key: k})
		bad("unknown token algorithm")
	case 10:
		_, k := key()
		jw(&JwtCfg{Key: k})
		bad("token key without algorithm")
	case 11:
		a, _ := key()
		jw(&JwtCfg{Alg: a})
		bad("token algorithm without key")
	case 12:
		jw(&JwtCfg{Alg: pick(r, "RS256", "PS512", "RS384"), Key: pick(r, "ec256_1", "ec521_1", "priv:rsa1", "not a key", "priv:ec256_1")})
		bad("key does not fit an RSA algorithm")
	case 13:
		jw(&JwtCfg{Alg: pick(r, "ES256", "ES384", "ES512"), Key: pick(r, "rsa1", "priv:ec256_1", "not a key", "rsa2")})
		bad("key does not fit an EC algorithm")
	case 14:
		a := pick(r, "ES256", "ES384", "ES512")
		k := pick(r, "ec256_1", "ec384_1", "ec521_1")
		for strings.HasPrefix(keysFor(a)[0], k[:5]) {
			k = pick(r, "ec256_1", "ec384_1", "ec521_1")
		}
		jw(&JwtCfg{Alg: a, Key: k, Cert: r.p(0.5)})
		bad("EC key of the wrong size")
	case 15:
		jw(&JwtCfg{Alg: "none", Key: "secret"})
		bad("algorithm none with key data")
	case 16:
		a, k := key()
		jw(&JwtCfg{Alg: a, Key: k, Skew: pick(r, "-1", "abc", "1.5", "10s", "0x10")})
		bad("illegal skew")
	case 17:
		a, k := key()
		jw(&JwtCfg{Alg: a, Key: k})
		if strings.HasPrefix(a, "HS") {
			jw(&JwtCfg{Alg: "ES256", Key: "ec384_1"})
		} else {
			c.Jwts["k"] = &JwtCfg{Alg: "RS256", Key: "ec256_2"}
		}
		bad("one of several token configurations has a bad key")
	case 18, 19:
		jw(&JwtCfg{Alg: pick(r, "RS256", "ES256"), URL: "http://jwks.example:7000/k"})
		m := pick(r, "500", "garbage", "empty", "null", "odd", "odd", "odd", "reset", "partial", "hang", "hang_body")
		jwksHost(&JwksState{Mode: m, Doc: r.n(len(oddJwks)), Keys: []*JwkSpec{}})
		bad("key server answers " + m)
	case 20:
		jw(&JwtCfg{Alg: pick(r, "RS256", "ES256"), URL: pick(r, "http://nowhere.example:7000/k", "http://jwks.example:7000/k")})
		jwksHost(&JwksState{Mode: "hang"})
		g.p.Hosts[len(g.p.Hosts)-1].Dial = map[int]string{0: pick(r, "refused", "unreach", "hang"), 1: "refused", 2: "refused"}
		bad("key server cannot be reached")
	case 21:
		alg := pick(r, "RS256", "ES256", "ES384")
		k := &JwkSpec{Key: keysFor(alg)[0], Kid: "a", Alg: alg, Bad: pick(r, "noalg", "badkty", "missing", "oct")}
		if r.p(0.4) {
			k.Bad = ""
			k.Alg = "RS512"
		}
		jw(&JwtCfg{Alg: alg, URL: "http://jwks.example:7000/k"})
		jwksHost(&JwksState{Mode: "ok", Keys: []*JwkSpec{k}})
		bad("key server has only an unusable key")
	case 22, 23, 24:
		tlsOn()
		c.BadTLS = pick(r, "nocert", "garbagecert", "nokey", "garbagekey", "mismatch", "nodns", "truncated", "keyascert")
		bad("TLS mode with " + c.BadTLS)
	case 25:
		tlsOn()
		c.CertDays, c.CertAge = -1-r.n(50), 100
		c.Chain, c.InterDays = r.p(0.5), 500
		bad("TLS certificate expired")
	case 26:
		tlsOn()
		c.CertAge = -1 - r.n(50)
		bad("TLS certificate not yet valid")
	case 27:
		tlsOn()
		c.Chain, c.InterDays = true, -1-r.n(20)
		bad("intermediate certificate expired")
	case 28:
		tlsOn()
		c.BadTLS = "unknownca"
		bad("TLS certificate without a known issuer")
	case 29, 30:
		g.p.ListenFail = true
		if r.p(0.4) {
			tlsOn()
		}
		bad("port in use")
	case 31, 32, 33:
		g.yamlText(true)
		if r.p(0.6) {
			file()
		}
		rt := fmt.Sprintf("roundTripTimeoutSeconds: %d", c.DnRound)
		alts := [][2]string{
			{"    jwt: j\n", "    jwt: [j]\n"}, {"    jwt: j\n", "    jwt: {name: j}\n"}, {"    jwt: j\n", "    jwt j\n"}, {"    jwt: j\n", "    \tjwt: j\n"},
			{"    jwt: j\n", "   jwt: j\n"}, {"    jwt: j\n", "    jwt: \"j\n"}, {"    jwt: j\n", "    jwt: [j\n"},
			{"maxBodyBytes: ", "maxBodyBytes: x"}, {rt, rt + "s"}, {rt, "roundTripTimeoutSeconds: -20.5"}, {"maxAttempts: ", "maxAttempts: [1]\n    foo: "},
			{"readTimeoutSeconds: ", "readTimeoutSeconds: {a: 1}\n    foo: "}, {"    alg: HS256\n", "    alg: [HS256]\n"}, {"    key: a", "    key: {a: b}\n    foo: a"},
			{"resources:\n", "resources: none\nother:\n"}, {"jwt:\n  j:\n", "jwt:\n  - j:\n  "}, {"routes:\n", "routes:\n  a: b\nother:\n"}, {"    port: 8080\n", "    port: 8080\n   mode: HTTP\n"},
			{"connection:\n", "connection: [\n"}, {"        scheme: ", "        scheme: [a]\n        foo: "},
		}
		a := alts[r.n(len(alts))]
		if !strings.Contains(c.Raw, a[0]) {
			panic("harness: " + a[0])
		}
		c.Raw = strings.Replace(c.Raw, a[0], a[1], 1)
		bad(fmt.Sprintf("configuration text does not parse: %q", a[1]))
	case 34:
		alg := pick(r, "RS256", "ES256", "ES384")
		jw(&JwtCfg{Alg: alg, URL: "https://jwks.example:7000/k"})
		jwksHost(&JwksState{Mode: "ok", Keys: []*JwkSpec{{Key: keysFor(alg)[0], Kid: "a", Alg: alg}}})
		h := g.p.Hosts[len(g.p.Hosts)-1]
		h.TLS = pick(r, "expired", "notyet", "wronghost", "unknownca")
		c.Insecure = r.p(0.5)
		bad("key server with TLS certificate " + h.TLS)
	default:
		// valid configurations come up whatever the surroundings
		g.p.Expect = "serve"
		switch r.n(6) {
		case 0:
			file()
			g.p.Faults = append(g.p.Faults, &Fault{Kind: "os_short", Path: "j8acfg.yml", Arg: int64(1 + r.n(60))})
			g.yamlText(false)
			bad("short reads of the configuration file")
		case 1, 2:
			g.p.Faults = append(g.p.Faults, &Fault{Kind: pick(r, "os_open", "os_read"), Path: pick(r, "/proc/", "statm", "/stat", "status", "meminfo"), Arg: int64(r.n(4))})
			bad("process statistics cannot be read")
		case 3:
			tlsOn()
			c.Chain, c.InterDays = r.p(0.5), 300
			bad("TLS")
		case 4:
			a := pick(r, "RS256", "ES256", "PS384", "ES512")
			jw(&JwtCfg{Alg: a, URL: "http://jwks.example:7000/k"})
			jwksHost(&JwksState{Mode: pick(r, "ok", "slow"), Delay: r.rangeI(0, 3*sec), Keys: []*JwkSpec{{Key: keysFor(a)[0], Kid: "a", Alg: a}}})
			bad("key server")
		case 5:
			c.Jwts = map[string]*JwtCfg{}
			for i := 0; i < 1+r.n(4); i++ {
				a, k := key()
				c.Jwts[fmt.Sprintf("j%d", i)] = &JwtCfg{Alg: a, Key: k, Skew: pick(r, "", "0", "55")}
			}
			c.Routes[0].Jwt = "j0"
			bad("token keys")
		}
	}
}

// yamlText writes the configuration as YAML text, in which a prefix can be a
// legal document too.
func (g *gen) yamlText(jwtLast bool) {
	c := &g.p.Cfg
	var o strings.Builder
	o.WriteString("---\nroutes:\n")
	for i, rt := range c.Routes {
		fmt.Fprintf(&o, "  - path: %s\n    resource: %s\n", rt.Path, rt.Resource)
		if rt.Transform != "" {
			fmt.Fprintf(&o, "    transform: %s\n", rt.Transform)
		}
		if jwtLast && i == 0 {
			o.WriteString("    jwt: j\n")
		}
	}
	o.WriteString("resources:\n")
	for _, n := range sortedKeys(c.Resources) {
		fmt.Fprintf(&o, "  %s:\n", n)
		for _, m := range c.Resources[n] {
			fmt.Fprintf(&o, "    - url:\n        scheme: %q\n        host: %s\n        port: %d\n", m.Scheme, m.Host, m.Port)
		}
	}
	if jwtLast {
		o.WriteString("jwt:\n  j:\n    alg: HS256\n    key: " + rawSecret + "\n")
	}
	fmt.Fprintf(&o, "connection:\n  downstream:\n    mode: HTTP\n    port: 8080\n    maxBodyBytes: %d\n    roundTripTimeoutSeconds: %d\n  upstream:\n    maxAttempts: %d\n    readTimeoutSeconds: %d\n", c.MaxBody, c.DnRound, c.MaxAttempts, c.UpRead)
	c.Raw = o.String()
	// a fault at or past the end of the text is no fault
	for _, ft := range g.p.Faults {
		if ft.Kind == "os_read" && ft.Arg >= int64(len(c.Raw)) {
			ft.Arg = int64(len(c.Raw)) - 1
		}
	}
}

func sortedKeys[T any](m map[string]T) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// badDownstream makes the downstream certificate or key unusable.
func badDownstream(kind string, dn map[string]any) {
	cert, _ := dn["cert"].(string)
	key, _ := dn["key"].(string)
	switch kind {
	case "nocert":
		delete(dn, "cert")
	case "garbagecert":
		dn["cert"] = "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"
	case "nokey":
		delete(dn, "key")
	case "garbagekey":
		dn["key"] = "hello"
	case "mismatch":
		dn["key"] = keyPEM["rsa1"]
	case "truncated":
		dn["cert"] = cert[:len(cert)/2]
	case "keyascert":
		dn["cert"], dn["key"] = key, cert
	case "nodns":
		dn["cert"] = certPEM(leaf("", certEpoch.AddDate(0, 0, -1), certEpoch.AddDate(1, 0, 0), caCert, "ca"))
	case "unknownca":
		dn["cert"] = certPEM(leaf("proxy.example", certEpoch.AddDate(0, 0, -1), certEpoch.AddDate(1, 0, 0), ca2Cert, "ca2"))
	}
}
