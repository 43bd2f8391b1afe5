//go:build go1.22

// The checks over the recorded history of a run.

package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"runtime"
	"slices"
	"sort"
	"strings"
	"time"
)

var viols []Viol

// heldUp are the kinds of violation in which a request had to wait for something that is none of its business.
var heldUp = map[string]bool{"slow-start": true, "slow-relay": true, "slow-failure": true, "gate-slow": true, "about-slow": true, "never-started": true, "slow-retry": true}

func violate(rid int, kind string, props []string, f string, a ...any) {
	if len(viols) < 60 {
		if heldUp[kind] || (kind == "no-response" && plan.Profile == "crowd") {
			props = append(props, "P22")
		}
		if plan.Profile == "deflt" && !slices.Contains(props, "P17") {
			props = append(props, "P17") // a parameter was left out: what fails is what it should default to
		}
		viols = append(viols, Viol{props, kind, fmt.Sprintf(f, a...), rid})
	}
}

func ps(p ...string) []string { return p }

var stallSlack int64

func delayMax(l *link) int64 {
	d := l.lat + l.jitter
	if l.loss > 0 {
		d += 700 * ms
	}
	for _, w := range l.out {
		d += w.To - w.From
	}
	return d
}

func oracle(end string) {
	st := runtime.SimGet()
	stallSlack = st.StallTotal + 20*ms
	metrics["requests"] = len(recs)
	metrics["arrivals"] = len(arrivals)
	metrics["upstream_conns"] = len(upConns)
	metrics["client_conns"] = len(physConn)
	metrics["segments"] = int(netSegs)
	metrics["dials"] = len(dialLog)
	metrics["jwks_fetches"] = len(jwksLog)
	metrics["log_lines"] = len(logLines)
	evalBoot(end)
	evalSecrets()
	if plan.BootOnly {
		return
	}
	for _, r := range recs {
		metrics[fmt.Sprintf("status_%d", r.Status)]++
		evalReq(r)
	}
	evalArrivals()
	evalConns(end)
	evalLogs()
	evalJwks()
	evalTLS()
	evalDials()
	evalPolicy()
	evalDaemon(end)
}

// ---------------------------------------------------------------- boot

func evalBoot(end string) {
	exited := strings.HasPrefix(end, "exit") && exitCode != 0
	switch plan.Expect {
	case "exit":
		if lstn != nil {
			violate(-1, "boot-open", ps("P17"), "the proxy opened its listening socket although its configuration could not be honoured (%s)", plan.Note)
		} else if !exited {
			violate(-1, "boot-noexit", ps("P17"), "the proxy neither served nor exited with an error (%s): end=%s", plan.Note, end)
		}
		return
	case "any":
		return
	}
	if end == "noboot" || (end == "exit" && lstn == nil) {
		violate(-1, "boot-fail", ps("P17", "P01"), "the proxy did not start to listen with a valid configuration: end=%s code=%d log=%s (%s)", end, exitCode, lastLog(), plan.Note)
		return
	}
	if end == "exit" {
		violate(-1, "exit", ps("P01", "P18"), "the process exited with code %d at %.3fs while serving: %s", exitCode, f(exitAt), lastLog())
	}
}

func lastLog() string {
	if len(logLines) == 0 {
		return ""
	}
	b, _ := json.Marshal(logLines[len(logLines)-1].M)
	return string(b)
}

// ---------------------------------------------------------------- model

var legalMethods = map[string]bool{"GET": true, "HEAD": true, "OPTIONS": true, "TRACE": true, "PUT": true, "DELETE": true, "POST": true, "CONNECT": true}
var repeatable = map[string]bool{"GET": true, "HEAD": true, "OPTIONS": true, "TRACE": true, "PUT": true, "DELETE": true}
var safeMethods = map[string]bool{"GET": true, "HEAD": true, "OPTIONS": true, "TRACE": true}

func routePath(r *RouteCfg) string {
	if !strings.HasPrefix(r.Path, "/") {
		return "/" + r.Path
	}
	return r.Path
}

func routeFor(uri string) *RouteCfg {
	var best *RouteCfg
	for _, r := range plan.Cfg.Routes {
		if strings.HasPrefix(uri, routePath(r)) && (best == nil || len(routePath(r)) > len(routePath(best))) {
			best = r
		}
	}
	return best
}

func aboutPath(uri string) bool {
	p := uri
	if i := strings.IndexByte(p, '?'); i >= 0 {
		p = p[:i]
	}
	for _, r := range plan.Cfg.Routes {
		if r.Resource == "about" && p == routePath(r) {
			return true
		}
	}
	return false
}

// upstreamURI is what the upstream must be asked for.
func upstreamURI(r *RouteCfg, uri string) string {
	u := uri
	if r.Transform != "" {
		t := r.Transform
		if t == "/" {
			t = ""
		}
		u = t + strings.TrimPrefix(uri, routePath(r))
	}
	if !strings.HasPrefix(u, "/") {
		u = "/" + u
	}
	return u
}

func routeHosts(r *RouteCfg) []string {
	var out []string
	ms := plan.Cfg.Resources[r.Resource]
	for i, m := range ms {
		if r.Policy == "" && i > 0 {
			break
		}
		out = append(out, hostPort(m.Host, m.Port))
	}
	return out
}

// allowedHosts are those a request on this route may legitimately reach.
func allowedHosts(r *RouteCfg) map[string]bool {
	out := map[string]bool{}
	ms := plan.Cfg.Resources[r.Resource]
	if r.Policy == "" {
		if len(ms) > 0 {
			out[hostPort(ms[0].Host, ms[0].Port)] = true
		}
		return out
	}
	for _, lw := range plan.Cfg.Policies[r.Policy] {
		if lw.Weight <= 0 {
			continue
		}
		for _, m := range ms {
			hit := false
			for _, l := range m.Labels {
				hit = hit || l == lw.Label
			}
			if hit {
				out[hostPort(m.Host, m.Port)] = true
				break
			}
		}
	}
	return out
}

// unmapped tells whether requests on a route cannot be mapped to an upstream: 0
// they can, 1 none can, 2 some cannot.
func unmapped(r *RouteCfg) int {
	if len(allowedHosts(r)) == 0 {
		return 1
	}
	if r.Policy == "" {
		return 0
	}
	sum := 0.0
	for _, lw := range plan.Cfg.Policies[r.Policy] {
		sum += lw.Weight
		served := lw.Weight <= 0
		for _, m := range plan.Cfg.Resources[r.Resource] {
			for _, l := range m.Labels {
				served = served || l == lw.Label
			}
		}
		if !served {
			return 2
		}
	}
	if sum < 0.9999 {
		return 2
	}
	return 0
}

func hdrTime(r *ReqRec) int64 {
	if r.THdr >= 0 {
		return r.THdr
	}
	return r.T0
}

// body state of a request
const (
	bodyNone = iota
	bodyWhole
	bodyTooLarge
	bodyBroken    // never completely sent, or cut off by the read timeout for certain
	bodyAmbiguous // may or may not have been read in time
)

func bodyState(r *ReqRec) int {
	p := r.P
	if p.Framing == "" {
		return bodyNone
	}
	n := p.Body
	declared := n
	if p.Declared > 0 {
		declared = p.Declared
	}
	if p.Framing == "cl" && declared == 0 {
		return bodyNone
	}
	max := int(plan.Cfg.MaxBody)
	if p.Framing == "cl" && declared >= max {
		return bodyTooLarge
	}
	if strings.HasPrefix(p.Abort, "body") || (p.Framing == "cl" && declared > n) {
		if p.Framing == "chunked" && p.Abort != "" && n > max {
			return bodyAmbiguous
		}
		return bodyBroken
	}
	if p.Framing == "chunked" && n > max {
		l := clientLink(r.C)
		unit := 0 // the limit shows when the frame or record that crosses it has arrived
		if r.C.Proto == "h2" {
			unit = n
			if unit > 512<<10 {
				unit = 512 << 10
			}
		} else if plan.Cfg.TLS {
			unit = 16 << 10
		}
		if int64(p.Pieces)*p.Gap+int64((max+unit)/r.C.Window+2)*2*delayMax(l) > int64(plan.Cfg.DnRead)*sec/2 {
			return bodyBroken // the read timeout may come before the limit
		}
		return bodyTooLarge
	}
	if r.TBody < 0 {
		if r.SendErr != "" || r.Err != "" {
			return bodyAmbiguous
		}
		return bodyAmbiguous
	}
	took := r.TBody - r.T0
	lim := int64(plan.Cfg.DnRead) * sec
	cl := delayMax(clientLink(r.C))
	if took < lim-stallSlack-2*cl-50*ms {
		return bodyWhole
	}
	if r.C.Proto == "h2" {
		// the streams of a connection wait for each other, and the time to
		// read a stream begins when its header arrives
		took = r.TBody - hdrTime(r)
	}
	if took > lim+stallSlack+2*cl+50*ms {
		return bodyBroken
	}
	return bodyAmbiguous
}

// respAt is when the final response began to reach the client; the rest of it
// takes as long as the client's own link takes.
// clientDelay bounds how long the way between client and proxy takes. Streams
// of one HTTP/2 connection wait for each other.
func clientDelay(r *ReqRec) int64 {
	d := delayMax(clientLink(r.C))
	if r.C.Proto != "h2" {
		return d
	}
	n := int64(1)
	for _, o := range recs {
		if o.C == r.C && o != r {
			n += int64((len(o.Body)+o.P.Body)/(1+r.C.Window)) + 2
		}
	}
	return d * n
}

func respAt(r *ReqRec) int64 {
	if r.TFirst >= 0 {
		return r.TFirst
	}
	return r.TLast
}

// prompt reports whether the client did everything a well-behaved client does
// in good time.
func prompt(r *ReqRec) bool {
	p := r.P
	if r.Aborted || p.ReadDelay > 0 || p.ReadGap > 0 || p.Abort != "" || p.Declared > p.Body {
		return false
	}
	start := r.T0
	if r.Conn != nil && r.Idx == 0 {
		start = r.Conn.open
	}
	lim := int64(plan.Cfg.DnRead) * sec
	cl := delayMax(clientLink(r.C))
	last := r.THdr
	if r.TBody > last {
		last = r.TBody
	}
	if last < 0 || last-start > lim-stallSlack-50*ms-2*cl {
		return false
	}
	if r.Idx > 0 {
		// racing the idle timeout of the proxy
		idle := r.T0 - r.PrevEnd
		if idle > int64(plan.Cfg.DnIdle)*sec-stallSlack-4*cl-50*ms {
			return false
		}
	}
	if r.C.Proto == "h2" {
		// the connection may have been closed as idle
		last := int64(-1)
		if r.Conn != nil {
			last = r.Conn.open
		}
		for _, o := range recs {
			if o.C == r.C && o.T0 < r.T0 {
				t := o.TLast
				if t < 0 || t > r.T0 {
					t = o.T0
				}
				last = max64(last, t)
			}
		}
		if r.T0-last > int64(plan.Cfg.DnIdle)*sec-stallSlack-4*cl-50*ms {
			return false
		}
	}
	// the response must fit through this client's link before the write timeout
	return true
}

func decode(h [][2]string, b []byte) ([]byte, string, error) {
	ce, _ := hget(h, "Content-Encoding")
	switch strings.ToLower(strings.TrimSpace(ce)) {
	case "", "identity":
		return b, ce, nil
	case "gzip":
		if len(b) == 0 {
			return nil, ce, nil
		}
		rd, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, ce, err
		}
		o, err := io.ReadAll(rd)
		return o, ce, err
	default:
		return b, ce, nil
	}
}

// acceptsGzip reports whether the client may be sent gzip, as anybody could read
// what it says.
func acceptsGzip(p *ReqPlan) bool {
	for _, v := range hall(p.Hdr, "Accept-Encoding") {
		for _, c := range strings.Split(v, ",") {
			c = strings.ToLower(strings.ReplaceAll(c, " ", ""))
			i := strings.Index(c, ";q=")
			if i < 0 {
				i = len(c)
			} else if q := strings.TrimRight(c[i+3:], "0."); q == "" && i+3 < len(c) {
				continue
			}
			if c[:i] == "*" || strings.Contains(c[:i], "gzip") {
				return true
			}
		}
	}
	return false
}

// layered content has more than one coding. Lines are separated by "|".
func layered(enc string) bool { return strings.ContainsAny(enc, "|,") }

func codings(enc string) []string {
	var o []string
	for _, e := range strings.FieldsFunc(strings.ToLower(enc), func(c rune) bool { return c == '|' || c == ',' || c == ' ' }) {
		if e != "identity" {
			o = append(o, e)
		}
	}
	return o
}

// undo the outer codings as far as gzip goes.
func peel(l []string, b []byte) ([]string, []byte) {
	for len(l) > 0 && l[len(l)-1] == "gzip" && len(b) > 0 {
		rd, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			break
		}
		o, err := io.ReadAll(rd)
		if err != nil {
			break
		}
		l, b = l[:len(l)-1], o
	}
	return l, b
}

// opaque codings are none of the proxy's business.
func opaque(enc string) bool {
	switch enc {
	case "", "identity", "gzip", "GZIP":
		return false
	}
	return !strings.HasPrefix(enc, "gzip_")
}

type ridArr struct{ as []*Arrival }

var arrIdx map[int][]*Arrival

func arrFor(rid int) []*Arrival {
	if arrIdx == nil {
		arrIdx = map[int][]*Arrival{}
		for _, a := range arrivals {
			if p := a.c.peer; p.closed {
				a.PG = p.closedAt
			}
			arrIdx[a.Rid] = append(arrIdx[a.Rid], a)
		}
		for i, a := range arrivals {
			for _, b := range arrivals[i+1:] {
				if b.c == a.c {
					a.PG = -1 // the connection lived on
					break
				}
			}
		}
		for _, as := range arrIdx {
			// in the order in which they were sent
			sort.SliceStable(as, func(i, j int) bool { return as[i].TSent < as[j].TSent })
		}
	}
	return arrIdx[rid]
}

// usable reports whether an arrival was answered with a response that the
// proxy has to relay.
func usable(a *Arrival) bool {
	if a.Outcome != "ok" || a.Status >= 500 || a.Status < 200 {
		return false
	}
	return !corrupt(a)
}

func corrupt(a *Arrival) bool {
	return a.B != nil && strings.HasPrefix(a.B.Enc, "gzip_")
}

// ---------------------------------------------------------------- requests

func evalReq(r *ReqRec) {
	p := r.P
	if strings.HasPrefix(r.Err, "connect:") {
		violate(p.ID, "connect", ps("P01"), "request %d: the proxy does not accept connections: %s", p.ID, r.Err)
		return
	}
	if strings.HasPrefix(r.Err, "tls:") {
		if r.C.TLSMax != 0 && r.C.TLSMax < 3 {
			return // refused, as it must be
		}
		if len(r.C.Outages) == 0 {
			violate(p.ID, "dn-tls", ps("P15", "P01"), "request %d: TLS handshake with the proxy failed: %s", p.ID, r.Err)
		}
		return
	}
	if r.Conn != nil && r.Conn.tlsVer != 0 && r.Conn.tlsVer < 0x0303 {
		violate(p.ID, "dn-tls-version", ps("P15"), "request %d: the proxy negotiated TLS version %x below 1.2", p.ID, r.Conn.tlsVer)
	}
	as := arrFor(p.ID)
	bs := bodyState(r)
	route := routeFor(p.URI)
	about := aboutPath(p.URI)
	tEnd := r.TLast
	if tEnd < 0 {
		tEnd = r.PeerFin
	}

	// what must never reach an upstream
	hdrDone := !strings.HasPrefix(p.Abort, "hdr")
	forbid := func(why string, props ...string) {
		if len(as) > 0 {
			violate(p.ID, "forwarded", props, "request %d (%s %s) reached %s although %s (got %d body bytes)", p.ID, p.Method, p.URI, as[0].Host, why, len(as[0].Body))
		}
	}
	gate := 0
	switch {
	case !hdrDone:
		forbid("its header was never completely sent", "P08", "P01")
	case about:
		gate = 200
		forbid("it is for the proxy itself", "P20", "P07")
	case bs == bodyTooLarge:
		gate = 413
		forbid("its body exceeds the configured limit", "P08")
	case !legalMethods[p.Method]:
		gate = 400
		forbid("its method is not allowed", "P07")
	case bs == bodyBroken:
		gate = -1
		forbid("its body was never completely received", "P08")
	case route == nil:
		gate = 404
		forbid("no route matches", "P07")
	case route.Jwt != "":
		switch jwtVerdict(r, route.Jwt) {
		case -1:
			gate = 401
			forbid("its token is not valid", "P09", "P10")
		case 0:
			gate = -2
		}
	}
	if gate == 0 && route != nil && unmapped(route) == 1 {
		gate = 503
		forbid("its route leads to no upstream", "P07", "P12")
	}
	if route != nil && !about {
		ok := allowedHosts(route)
		for _, a := range as {
			if !ok[a.Host] {
				violate(p.ID, "wrong-upstream", ps("P07", "P12"), "request %d (%s) for route %s was sent to %s", p.ID, p.URI, route.Path, a.Host)
			}
		}
	}
	cl := clientDelay(r)
	round := int64(plan.Cfg.DnRound) * sec
	good := prompt(r)
	deadline := hdrTime(r) + round

	// every request gets exactly one complete response
	if r.Err != "" {
		if good && !r.Aborted {
			late := tEnd >= 0 && tEnd-hdrTime(r) >= round-stallSlack-cl
			if !late || stallSlack < 500*ms {
				violate(p.ID, "no-response", noRespProps(r, as, tEnd >= 0 && tEnd-hdrTime(r) >= round-sec-stallSlack), "request %d (%s %s sent at %.3fs) got no complete response: %s at %.3fs (status %d, %d bytes)", p.ID, p.Method, p.URI, f(r.T0), r.Err, f(tEnd), r.Status, r.Bytes)
			}
		}
		evalCut(r, bs)
		return
	}
	if !r.Sent || r.TLast < 0 {
		return
	}
	metrics["responses"]++
	if r.Extra == "prehandler" {
		return
	}
	checkEnvelope(r, as)
	checkStd(r)
	if p.Probe && r.Status != 200 && (about || (route != nil && route.Jwt == "" && unmapped(route) == 0)) {
		pr := ps("P05", "P01")
		if about {
			pr = ps("P20")
		}
		violate(p.ID, "not-healed", pr, "request %d (%s %s) was answered %d although all trouble had long ended when it was sent at %.3fs", p.ID, p.Method, p.URI, r.Status, f(r.T0))
	}

	// the round trip deadline
	if good && respAt(r) > deadline+sec+stallSlack+2*cl {
		violate(p.ID, "late", append(ps("P02"), keySetProps(route)...), "request %d answered %d only %.3fs after its header arrived, round trip timeout is %ds", p.ID, r.Status, f(respAt(r)-hdrTime(r)), plan.Cfg.DnRound)
	}

	switch gate {
	case 200:
		checkAbout(r)
		return
	case 400, 401, 404, 413, 503:
		if gate == 503 && bs == bodyAmbiguous && (r.Status == 400 || r.Status == 413) {
			return
		}
		if r.Status != gate {
			pr := map[int][]string{400: ps("P07"), 401: ps("P09", "P10"), 404: ps("P07"), 413: ps("P08"), 503: ps("P07", "P12")}[gate]
			violate(p.ID, "gate", pr, "request %d (%s %s) must be answered %d but got %d", p.ID, p.Method, p.URI, gate, r.Status)
		}
		if good && r.TLast-max64(hdrTime(r), r.TBody) > stallSlack+2*cl+500*ms {
			pr := map[int][]string{400: ps("P01"), 401: slowGate(route), 404: ps("P01"), 413: ps("P08"), 503: ps("P01")}[gate]
			violate(p.ID, "gate-slow", pr, "request %d rejected with %d only after %.3fs", p.ID, r.Status, f(r.TLast-hdrTime(r)))
		}
		return
	case -1:
		if r.Status < 400 || r.Status >= 500 {
			violate(p.ID, "broken-body", ps("P08"), "request %d whose body was never completely received was answered %d", p.ID, r.Status)
		}
		return
	case -2:
		theirs := false // the upstream's own 401
		for _, a := range as {
			theirs = theirs || (a.B != nil && a.B.Status == 401)
		}
		if r.Status == 401 && !theirs {
			if len(as) > 0 {
				violate(p.ID, "401-forwarded", ps("P09"), "request %d was forwarded and then answered 401", p.ID)
			}
			if good && r.TLast-max64(hdrTime(r), r.TBody) > stallSlack+2*cl+500*ms {
				violate(p.ID, "gate-slow", slowGate(route), "request %d rejected with 401 only after %.3fs", p.ID, f(r.TLast-hdrTime(r)))
			}
			return
		}
	}
	if bs == bodyAmbiguous && (r.Status == 400 || r.Status == 408 || r.Status == 413) && len(as) == 0 {
		return
	}
	if r.Status == 401 && len(as) == 0 && route.Jwt != "" {
		violate(p.ID, "jwt-refused", ps("P09", "P10"), "request %d carries a valid token but was answered 401", p.ID)
		return
	}
	if !hdrDone {
		return
	}
	if r.Status == 503 && len(as) == 0 && route != nil && unmapped(route) != 0 {
		return
	}
	evalUpstream(r, as, route, good, bs)
}

// noRespProps names what a missing or broken response is a violation of.
func noRespProps(r *ReqRec, as []*Arrival, late bool) []string {
	pr := ps("P01")
	if rt := routeFor(r.P.URI); rt != nil && rt.Jwt != "" {
		pr = append(pr, "P09")
		if w := plan.Cfg.Jwts[rt.Jwt]; w != nil && w.URL != "" {
			pr = append(pr, "P10", "P11")
		}
	}
	if late { // it should have been answered 504 by then
		pr = append(pr, "P02")
	}
	for _, a := range as {
		if usable(a) && r.Status > 0 {
			pr = append(pr, "P06")
			if a.B.Enc != "" || acceptsGzip(r.P) {
				pr = append(pr, "P21")
			}
			break
		}
	}
	if r.Status >= 400 && len(pr) == 1 {
		pr = append(pr, "P19")
	}
	if aboutPath(r.P.URI) {
		pr = append(pr, "P20")
	}
	return pr
}

// keySetProps is P11 for a route whose tokens are checked by a fetched key set.
func keySetProps(rt *RouteCfg) []string {
	if rt != nil {
		if w := plan.Cfg.Jwts[rt.Jwt]; w != nil && w.URL != "" {
			return ps("P11")
		}
	}
	return nil
}

func slowGate(rt *RouteCfg) []string {
	if w := plan.Cfg.Jwts[rt.Jwt]; w != nil && w.URL != "" {
		return ps("P11", "P01")
	}
	return ps("P01")
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// unhindered reports whether nothing that goes on between the proxy and its
// upstreams from a time on can have kept it from sending what arrived as a.
func unhindered(r *ReqRec, hs map[string]bool, up, from int64, a *Arrival) bool {
	for _, d := range dialLog {
		if hs[d.Host] && d.T0 <= a.TSent && (d.T1 >= from || d.Outcome == "") {
			return false
		}
	}
	// a connection that the host took and never served may have been tried first
	for _, x := range hostFails {
		if _, ok := x.within(min64(from, r.T0), a.TSent, up); ok && hs[x.Host] {
			return false
		}
	}
	for _, u := range upConns {
		if hs[u.Host] && u.HsDone < 0 {
			return false
		}
	}
	for _, o := range arrivals {
		// the server was still taking in the request that it had answered before
		if o.c == a.c && o.ConnReq < a.ConnReq && o.B != nil && o.B.Early {
			return false
		}
	}
	return true
}

// evalUpstream checks the answer to a request that was to be proxied.
func evalUpstream(r *ReqRec, as []*Arrival, route *RouteCfg, good bool, bs int) {
	p := r.P
	cfg := &plan.Cfg
	cl := clientDelay(r)
	up := int64(0)
	hs := allowedHosts(route)
	for h := range hs {
		if x := hosts[h]; x != nil {
			if d := delayMax(x.lk); d > up {
				up = d
			}
		}
	}
	slack := stallSlack + 2*cl + 4*up + 30*ms
	for _, a := range as {
		if a.B != nil && a.B.Early {
			slack += 60 * ms // the http client waits a moment for the rest of the request to be taken
		}
	}
	start := hdrTime(r)
	ready := max64(start, r.TBody) // the proxy starts its first attempt after the body
	deadline := start + int64(cfg.DnRound)*sec
	upRead := int64(cfg.UpRead) * sec

	// it is begun at once
	if good && len(as) > 0 && as[0].TSent > ready+slack {
		if unhindered(r, hs, up, ready, as[0]) {
			violate(p.ID, "slow-start", append(ps("P01"), keySetProps(route)...), "request %d (%s %s) was complete at %.3fs but sent upstream only at %.3fs", p.ID, p.Method, p.URI, f(ready), f(as[0].TSent))
		}
	}
	// and so are the attempts after it
	for i := 1; i < len(as) && good; i++ {
		pa := as[i-1]
		ft := failTime(pa)
		if usable(pa) || corrupt(pa) || ft < 0 || (pa.B != nil && pa.B.Early) || as[i].TSent <= max64(ft, ready)+slack {
			continue
		}
		if unhindered(r, hs, up, ft, as[i]) {
			violate(p.ID, "slow-retry", ps("P05"), "request %d (%s %s): attempt %d had failed at %.3fs but the next was sent only at %.3fs", p.ID, p.Method, p.URI, pa.K, f(ft), f(as[i].TSent))
		}
	}
	// the last usable answer, if any
	var okA *Arrival
	for _, a := range as {
		if usable(a) && okA == nil {
			okA = a
		}
	}
	// which upstream answer does the response carry?
	toks := hall(r.Hdr, "X-Up-Tok")
	if r.Status < 400 {
		if len(toks) != 1 {
			violate(p.ID, "no-origin", ps("P06"), "request %d got status %d with %d upstream answer markers %v", p.ID, r.Status, len(toks), toks)
			return
		}
		var a *Arrival
		for _, x := range as {
			if fmt.Sprintf("U%d.%d", x.Rid, x.K) == toks[0] {
				a = x
			}
		}
		if a == nil {
			violate(p.ID, "foreign-response", ps("P06"), "request %d was answered with %s, which is not an answer to it", p.ID, toks[0])
			return
		}
		checkFidelity(r, a)
		if good && a.Outcome == "ok" && respAt(r) > a.T1+slack && a.T1 >= 0 {
			violate(p.ID, "slow-relay", ps("P01", "P02"), "request %d: the upstream answer was complete at %.3fs but was relayed only at %.3fs", p.ID, f(a.T1), f(respAt(r)))
		}
		return
	}
	if len(toks) > 0 {
		violate(p.ID, "error-with-upstream-headers", ps("P06", "P19"), "request %d got error %d carrying upstream headers %v", p.ID, r.Status, toks)
	}
	if r.Status < 500 {
		// relayed client error
		var a *Arrival
		for _, x := range as {
			if x.Outcome == "ok" && x.Status == r.Status {
				a = x
			}
		}
		if a == nil {
			violate(p.ID, "unexplained-4xx", ps("P06"), "request %d (%s %s) was answered %d which neither the proxy's rules nor any of %d upstream answers explain", p.ID, p.Method, p.URI, r.Status, len(as))
		}
		return
	}
	if r.Status != 502 && r.Status != 504 {
		pr := ps("P05", "P06")
		if r.Status == 503 {
			pr = ps("P12", "P07")
		}
		violate(p.ID, "unexplained-5xx", pr, "request %d (%s %s) was answered %d", p.ID, p.Method, p.URI, r.Status)
		return
	}
	// 502 or 504: must be justified
	ev, exact, lastEv := evidence(r, as, hs, up)
	deadline = r.T0 + int64(cfg.DnRound)*sec // no earlier than this
	atDeadline := r.TLast >= deadline-slack
	maxA := cfg.MaxAttempts
	if !repeatable[p.Method] {
		maxA = 1
	}
	if okA != nil && okA.T1 >= 0 {
		// a complete usable answer existed; was it in time?
		as0 := ready
		for i, a := range as {
			if a == okA {
				as0 = begun(p, as, i, ready)
			}
		}
		if okA.T1 < deadline-slack && okA.T1-as0 < upRead-slack {
			violate(p.ID, "success-discarded", ps("P05", "P06", "P03"), "request %d was answered %d although attempt %d got a complete %d answer at %.3fs (deadline %.3fs)", p.ID, r.Status, okA.K, okA.Status, f(okA.T1), f(deadline))
			return
		}
	}
	if atDeadline && good && exact && ev == 0 && len(as) == 0 && ready < deadline-sec-2*slack {
		violate(p.ID, "never-started", append(ps("P01"), keySetProps(route)...), "request %d (%s %s) was complete at %.3fs but never sent upstream, and answered %d at %.3fs", p.ID, p.Method, p.URI, f(ready), r.Status, f(r.TLast))
	}
	if !atDeadline && ev < maxA {
		violate(p.ID, "gave-up", ps("P05"), "request %d (%s) was answered %d at %.3fs with at most %d failed attempts of %d allowed and the round trip deadline at %.3fs", p.ID, p.Method, r.Status, f(r.TLast), ev, maxA, f(deadline))
	}
	if r.Status == 504 && r.TLast-r.T0 < min64(upRead, int64(cfg.DnRound)*sec)-slack {
		violate(p.ID, "early-504", ps("P02", "P03"), "request %d was answered 504 after only %.3fs (round trip timeout %ds, upstream read timeout %ds)", p.ID, f(r.TLast-start), cfg.DnRound, cfg.UpRead)
	}
	if exact && len(as) > 0 && !atDeadline && good {
		la := as[len(as)-1]
		ft := failTime(la)
		timedOut := la.Outcome != "ok" && la.FailT < 0 && la.PG >= 0 && !corrupt(la)
		if timedOut && r.Status != 504 {
			violate(p.ID, "timeout-status", ps("P03"), "request %d: the last attempt ran into the upstream read timeout but the answer is %d", p.ID, r.Status)
		}
		as0 := begun(p, as, len(as)-1, ready)
		if !timedOut && r.Status == 504 && ft >= 0 && ft < as0+upRead-slack {
			violate(p.ID, "failure-status", ps("P05", "P03"), "request %d: the last attempt failed at %.3fs without a timeout but the answer is 504", p.ID, f(ft))
		}
		if ft >= 0 && respAt(r) > max64(ft, lastEv)+slack {
			violate(p.ID, "slow-failure", ps("P01", "P02", "P05"), "request %d: its last attempt had failed at %.3fs but the answer %d came only at %.3fs", p.ID, f(ft), r.Status, f(r.TLast))
		}
	}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// failTime is when the proxy could know that an attempt had ended.
func failTime(a *Arrival) int64 {
	e := a.PG
	if a.Outcome == "ok" {
		e = a.T1
	} else if a.FailT >= 0 {
		e = a.FailT
	}
	if a.PG >= 0 && a.PG < e {
		e = a.PG
	}
	return e
}

// begun is a time before which attempt i cannot have begun.
func begun(p *ReqPlan, as []*Arrival, i int, ready int64) int64 {
	for replayed(p, as, i) {
		i--
	}
	return max64(ready, prevEnd(as, i))
}

// evidence counts, generously, the attempts for a request that can have
// failed. exact means every one of them is an arrival of this request.
func evidence(r *ReqRec, as []*Arrival, hs map[string]bool, up int64) (n int, exact bool, last int64) {
	exact = true
	lo, hi := r.T0, r.TLast
	for _, a := range as {
		if !usable(a) || a.T1 >= max64(hdrTime(r), r.TBody)+int64(plan.Cfg.UpRead)*sec-stallSlack-10*ms {
			n++
		}
	}
	other := func(t int64) {
		n++
		exact = false
		if t > last {
			last = t
		}
	}
	for _, d := range dialLog {
		if !hs[d.Host] {
			continue
		}
		if d.Outcome != "ok" {
			e := d.T1
			if d.Outcome == "" {
				e = hi
			}
			if e >= lo && d.T0 <= hi {
				other(e)
			}
		} else if d.T1-d.T0 > 500*ms && d.T1 >= lo && d.T0 <= hi {
			// an attempt may have timed out waiting for it
			other(min64(d.T1, hi))
		}
	}
	for h := range hs {
		if x := hosts[h]; x != nil {
			for _, w := range x.lk.out {
				if d := min64(w.To, hi) - max64(w.From, lo); d > 0 || (w.From <= hi && w.To >= lo) {
					// attempts that got lost in the outage leave no other trace
					n += 1 + int(d/(int64(plan.Cfg.UpRead)*sec))
					exact = false
					last = max64(last, w.To)
				}
			}
		}
	}
	if d := stallIn(lo, hi) + 20*ms + 4*up; d >= int64(plan.Cfg.UpRead)*sec-100*ms {
		// attempts that timed out while the process was held up leave no trace either
		n += 1 + int(d/(int64(plan.Cfg.UpRead)*sec))
		exact = false
		last = hi
	}
	for _, x := range hostFails {
		if t, ok := x.within(lo, hi, up); ok && hs[x.Host] {
			other(t)
		}
	}
	for _, u := range upConns {
		if hs[u.Host] && u.HsDone < 0 && u.Opened-up <= hi && (u.Closed < 0 || u.Closed+up >= lo) {
			// a TLS handshake that failed, or that the proxy turned down: its end is
			// known here a little later than there
			if u.Closed < 0 {
				other(hi)
			} else {
				other(min64(u.Closed+up, hi))
			}
		}
		if hs[u.Host] && u.Closed >= 0 && (u.By == "idle" || u.By == "server") && u.Closed+2*up+stallSlack >= lo && u.Closed <= hi {
			// a pooled connection that had just been closed by the server; if it is
			// one that carried this request it has been counted already
			own := false
			for _, a := range as {
				own = own || a.Conn == u.ID
			}
			if !own {
				other(u.Closed + up)
			}
		}
	}
	return
}

// stallIn is how long, at most, statements were held up within [lo,hi].
func stallIn(lo, hi int64) (sum int64) {
	for i := 0; ; i++ {
		at, d, _, ok := runtime.SimStallLog(i)
		if !ok {
			if i >= 4096 {
				return stallSlack
			}
			return
		}
		at -= simEpoch
		if at <= hi && at+d >= lo {
			sum += d
		}
	}
}

// ---------------------------------------------------------------- responses

var hopOrOwn = map[string]bool{"Date": true, "Content-Length": true, "Transfer-Encoding": true, "Server": true, "Connection": true, "Content-Encoding": true, "X-Request-Id": true, "Strict-Transport-Security": true, "Keep-Alive": true, "Content-Type": true, "Trailer": true}

func checkFidelity(r *ReqRec, a *Arrival) {
	p := r.P
	if r.Status != a.Status {
		violate(p.ID, "status", ps("P06"), "request %d: upstream answered %d, client got %d", p.ID, a.Status, r.Status)
	}
	if a.Outcome != "ok" && !(a.B.Fail == "fin" && a.B.Framing == "close") {
		violate(p.ID, "broken-relayed", ps("P06", "P05"), "request %d: the client got %d with %d body bytes from an upstream answer that failed half way (%s at %s)", p.ID, r.Status, len(r.Body), a.B.Fail, a.B.Stage)
		return
	}
	want := map[string][]string{}
	for _, kv := range a.B.Hdr {
		k := http.CanonicalHeaderKey(kv[0])
		if k == "Date" || k == "Server" || k == "Content-Length" || k == "Transfer-Encoding" || k == "Connection" {
			continue
		}
		want[k] = append(want[k], kv[1])
	}
	got := map[string][]string{}
	for _, kv := range r.Hdr {
		k := http.CanonicalHeaderKey(kv[0])
		got[k] = append(got[k], kv[1])
	}
	for k, v := range want {
		if a.Status == 304 && k == "Content-Type" {
			continue // describes the representation that is not sent
		}
		if !slices.Equal(got[k], v) {
			violate(p.ID, "resp-header", ps("P06"), "request %d: response header %s: upstream sent %q, client got %q", p.ID, k, v, got[k])
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok && !hopOrOwn[k] && k != "X-Up-Tok" {
			violate(p.ID, "resp-header-added", ps("P06"), "request %d: response header %s: %q was never sent by the upstream", p.ID, k, v)
		}
	}
	if p.Method == "HEAD" && a.Status != 204 && a.Status != 304 && a.B.Framing == "cl" {
		n := a.B.Declare
		if n == 0 {
			w, _ := upBody(a.Rid, a.K, a.B)
			n = len(w)
		}
		if v, _ := hget(r.Hdr, "Content-Length"); v != fmt.Sprint(n) {
			violate(p.ID, "head-length", ps("P06"), "request %d: the upstream declared a length of %d in answer to HEAD, the client was told %q", p.ID, n, v)
		}
	}
	if p.Method == "HEAD" || a.Status == 204 || a.Status == 304 {
		if len(r.Body) > 0 {
			violate(p.ID, "body-on-bodyless", ps("P06"), "request %d: body on a %d response to %s", p.ID, a.Status, p.Method)
		}
		return
	}
	plain := upPlain(a.Rid, a.K, a.B)
	ce, _ := hget(r.Hdr, "Content-Encoding")
	if corrupt(a) {
		// only passing it through as it came, under its own name, is honest
		wire, _ := upBody(a.Rid, a.K, a.B)
		if !strings.EqualFold(ce, "gzip") {
			violate(p.ID, "corrupt-relayed", ps("P21", "P06"), "request %d: a damaged gzip body from upstream was relayed as a complete %d answer in coding %q", p.ID, r.Status, ce)
		} else if !bytes.Equal(wire, r.Body) {
			violate(p.ID, "corrupt-altered", ps("P21", "P06"), "request %d: a damaged gzip body was altered on its way through", p.ID)
		}
		return
	}
	if layered(a.B.Enc) && len(plain) > 0 {
		wire, _ := upBody(a.Rid, a.K, a.B)
		wl, wb := peel(codings(a.B.Enc), wire)
		ce = strings.Join(hall(r.Hdr, "Content-Encoding"), ", ")
		gl, gb := peel(codings(ce), r.Body)
		if fmt.Sprint(gl) != fmt.Sprint(wl) || !bytes.Equal(gb, wb) {
			violate(p.ID, "layered-coding", ps("P21"), "request %d: the upstream body is coded %q, the client was told %q and ends up with other content (%d bytes left in %v, not %d in %v)", p.ID, a.B.Enc, ce, len(gb), gl, len(wb), wl)
		}
		return
	}
	if strings.EqualFold(ce, "gzip") && !acceptsGzip(p) && len(r.Body) > 0 {
		violate(p.ID, "unaccepted-coding", ps("P21"), "request %d: the client does not accept gzip but got a gzip body", p.ID)
	}
	dec, _, err := decode(r.Hdr, r.Body)
	if err != nil {
		violate(p.ID, "undecodable", ps("P21", "P06"), "request %d: the response body does not decode as its Content-Encoding %q says: %v", p.ID, ce, err)
		return
	}
	if opaque(a.B.Enc) && !strings.EqualFold(ce, a.B.Enc) && len(plain) > 0 {
		violate(p.ID, "coding-lost", ps("P21"), "request %d: the upstream body is %s-coded, the client was told %q and cannot know", p.ID, a.B.Enc, ce)
		return
	}
	if !bytes.Equal(dec, plain) {
		i := 0
		for i < len(dec) && i < len(plain) && dec[i] == plain[i] {
			i++
		}
		kind := "body"
		pr := ps("P06")
		if a.B.Enc != "" || acceptsGzip(p) {
			pr = append(pr, "P21")
		}
		violate(p.ID, kind, pr, "request %d: response body differs from the upstream's: %d bytes, upstream sent %d, first difference at %d (%q)", p.ID, len(dec), len(plain), i, snippet(dec, i))
	}
}

func snippet(b []byte, i int) string {
	if i > len(b) {
		i = len(b)
	}
	j := i + 24
	if j > len(b) {
		j = len(b)
	}
	return string(b[i:j])
}

// checkEnvelope verifies error answers the proxy makes itself.
func checkEnvelope(r *ReqRec, as []*Arrival) {
	if r.Status < 400 || r.P.Method == "HEAD" {
		return
	}
	p := r.P
	pr := ps("P19")
	if acceptsGzip(p) {
		pr = ps("P19", "P21")
	}
	dec, ce, err := decode(r.Hdr, r.Body)
	if err != nil {
		violate(p.ID, "envelope-coding", pr, "request %d: error body of status %d does not decode as Content-Encoding %q: %v", p.ID, r.Status, ce, err)
		return
	}
	var m struct {
		Code    *int
		Message *string
	}
	if err := json.Unmarshal(dec, &m); err != nil || m.Code == nil || m.Message == nil {
		violate(p.ID, "envelope", pr, "request %d: the body of the %d answer is not the JSON error document (Content-Encoding %q, accepts gzip %v): %.60q", p.ID, r.Status, ce, acceptsGzip(p), r.Body)
		return
	}
	if *m.Message == "" || *m.Message == "none" {
		violate(p.ID, "envelope-message", ps("P19"), "request %d: the error document of status %d has the message %q", p.ID, r.Status, *m.Message)
	}
	if *m.Code != r.Status {
		violate(p.ID, "envelope-code", ps("P19"), "request %d: status %d but error document says %d", p.ID, r.Status, *m.Code)
	}
	if ct, _ := hget(r.Hdr, "Content-Type"); !strings.EqualFold(strings.TrimSpace(strings.Split(ct, ";")[0]), "application/json") || len(hall(r.Hdr, "Content-Type")) != 1 {
		violate(p.ID, "envelope-type", ps("P19"), "request %d: error document of status %d has Content-Type %q", p.ID, r.Status, ct)
	}
	if strings.EqualFold(ce, "gzip") && !acceptsGzip(p) {
		violate(p.ID, "unaccepted-coding", ps("P21", "P19"), "request %d: the client does not accept gzip but got a gzip error body", p.ID)
	}
}

var seenXr = map[string]int{}

func checkStd(r *ReqRec) {
	p := r.P
	xs := hall(r.Hdr, "X-Request-Id")
	if len(xs) != 1 || xs[0] == "" {
		violate(p.ID, "xrid", ps("P16"), "request %d (status %d): X-Request-Id on the response: %q", p.ID, r.Status, xs)
		return
	}
	if v, ok := hget(p.Hdr, "X-Request-Id"); ok && v != "" {
		if xs[0] != v {
			violate(p.ID, "xrid-echo", ps("P16"), "request %d sent X-Request-Id %q, response says %q", p.ID, v, xs[0])
		}
	} else {
		if o, dup := seenXr[xs[0]]; dup {
			violate(p.ID, "xrid-dup", ps("P16"), "requests %d and %d got the same generated X-Request-Id %s", o, p.ID, xs[0])
		}
		seenXr[xs[0]] = p.ID
	}
	if plan.Cfg.TLS {
		if v := hall(r.Hdr, "Strict-Transport-Security"); len(v) < 1 || !strings.HasPrefix(v[0], "max-age=") || v[0] == "max-age=0" {
			violate(p.ID, "hsts", ps("P15"), "request %d: no HSTS header on a TLS response (status %d): %q", p.ID, r.Status, v)
		}
	}
}

func checkAbout(r *ReqRec) {
	p := r.P
	if r.Status != 200 {
		violate(p.ID, "about", ps("P20"), "/about was answered %d", r.Status)
		return
	}
	if prompt(r) {
		if d := r.TLast - max64(hdrTime(r), r.TBody); d > stallSlack+2*clientDelay(r)+500*ms {
			violate(p.ID, "about-slow", ps("P20"), "/about took %.3fs", f(d))
		}
	}
	if p.Method == "HEAD" {
		return
	}
	dec, ce, err := decode(r.Hdr, r.Body)
	var m map[string]any
	if err == nil {
		err = json.Unmarshal(dec, &m)
	}
	if err != nil || m["Version"] == nil || m["ServerID"] == nil {
		violate(p.ID, "about-body", ps("P20", "P21"), "/about body is not its JSON document (Content-Encoding %q): %.60q", ce, r.Body)
	}
	if strings.EqualFold(ce, "gzip") && !acceptsGzip(p) {
		violate(p.ID, "unaccepted-coding", ps("P21"), "/about sent gzip to a client that does not accept it")
	}
}

// ---------------------------------------------------------------- bad clients

// evalCut checks requests that did not get a complete response: what the
// proxy must have done about a client that stalls.
func evalCut(r *ReqRec, bs int) {
	p := r.P
	if r.Conn == nil {
		return
	}
	c := r.Conn.c
	srv := c.peer
	cl := delayMax(clientLink(r.C))
	slack := stallSlack + 3*cl + 200*ms
	dnRead := int64(plan.Cfg.DnRead) * sec
	dnIdle := int64(plan.Cfg.DnIdle) * sec
	round := int64(plan.Cfg.DnRound) * sec
	limit := int64(-1)
	why := ""
	switch {
	case p.Abort == "hdr-stall":
		limit, why = r.T0+max64(dnRead, dnIdle)+slack, "its request header never completed"
	case p.Abort == "body-stall" || p.Declared > p.Body:
		limit, why = r.T0+max64(dnRead, 0)+slack+round+sec, "its request body never completed"
		if r.Status == 0 && bs == bodyBroken {
			limit = r.T0 + dnRead + slack + 2*sec
		}
	case p.ReadDelay > 0 || p.ReadGap > 0:
		limit, why = hdrTime(r)+round+sec+slack, "it did not read its response"
		if r.TBody > r.THdr {
			limit += r.TBody - r.THdr
		}
	default:
		return
	}
	t := srv.closedAt
	if !srv.closed {
		t = now()
	}
	if t > limit {
		violate(p.ID, "slow-client", ps("P13"), "request %d: the connection of a client was kept until %.3fs although %s (limit %.3fs)", p.ID, f(t), why, f(limit))
	}
}

// ---------------------------------------------------------------- arrivals

func evalArrivals() {
	ids := make([]int, 0)
	arrFor(-1)
	for id := range arrIdx {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	recOf := map[int]*ReqRec{}
	for _, r := range recs {
		recOf[r.P.ID] = r
	}
	for _, id := range ids {
		as := arrIdx[id]
		r := recOf[id]
		if r == nil {
			for _, a := range as {
				if a.Bad == "" {
					violate(id, "phantom", ps("P07"), "%s received a request nobody sent: %s %s", a.Host, a.Method, a.URI)
				} else if !strings.HasPrefix(a.Bad, "partial") && !strings.HasPrefix(a.Bad, "head:") {
					violate(id, "malformed-upstream", ps("P07"), "%s received a malformed request: %s", a.Host, a.Bad)
				}
			}
			continue
		}
		p := r.P
		up := int64(0)
		for _, a := range as {
			if h := hosts[a.Host]; h != nil {
				if d := delayMax(h.lk); d > up {
					up = d
				}
			}
		}
		cl := delayMax(clientLink(r.C))
		slack := stallSlack + 4*up + 2*cl + 30*ms
		upRead := int64(plan.Cfg.UpRead) * sec
		round := int64(plan.Cfg.DnRound) * sec
		start := hdrTime(r)
		if start < r.T0 {
			start = r.T0
		}
		// at most once for POST
		if !repeatable[p.Method] && len(as) > 1 {
			violate(id, "post-twice", ps("P04"), "%s request %d reached an upstream %d times (%s at %.3fs, %s at %.3fs)", p.Method, id, len(as), as[0].Host, f(as[0].T), as[1].Host, f(as[1].T))
		}
		logical := 0
		for i, a := range as {
			replay := replayed(p, as, i)
			if !replay {
				logical++
			}
			if i > 0 {
				pa := as[i-1]
				ft := failTime(pa)
				if usable(pa) && pa.T1 >= 0 {
					// was the success in time?
					if pa.T1-begun(p, as, i-1, r.T0) < upRead-slack && pa.T1 < r.T0+round-slack {
						violate(id, "retry-after-success", ps("P05", "P04"), "request %d was sent upstream again at %.3fs although attempt %d had got a complete %d answer at %.3fs", id, f(a.T), pa.K, pa.Status, f(pa.T1))
					}
				}
				// damage may have shown before the answer was complete
				if !corrupt(pa) && (ft < 0 || a.TSent < ft-stallSlack-5*ms) {
					violate(id, "overlap", ps("P05"), "request %d: attempt %d reached %s at %.3fs while attempt %d was still in progress (ended %.3fs)", id, a.K, a.Host, f(a.TSent), pa.K, f(ft))
				}
			}
			if r.TLast >= 0 && r.Err == "" && a.TSent > r.TLast+stallSlack+5*ms {
				violate(id, "after-response", ps("P02", "P05"), "request %d reached %s at %.3fs after the client had been answered at %.3fs", id, a.Host, f(a.T), f(r.TLast))
			}
			if a.TSent > start+round+slack && a.TSent > r.TBody+slack+round {
				violate(id, "after-deadline", ps("P02"), "request %d reached %s at %.3fs after its round trip deadline %.3fs", id, a.Host, f(a.T), f(start+round))
			}
			// attempts are not cut short, and are given up in time
			if (a.Gone >= 0 || stalledOpen(a)) && a.Outcome != "ok" && a.FailT < 0 {
				as0 := begun(p, as, i, max64(start, r.TBody))
				if a.PG >= 0 && a.B != nil && a.B.Fail != "garbage" && a.Bad == "" && a.Full && !corrupt(a) {
					if a.PG < as0+upRead-stallSlack-5*ms && a.PG < r.T0+round-stallSlack-5*ms {
						violate(id, "cut-short", ps("P03", "P02"), "request %d: attempt %d to %s was abandoned at %.3fs, begun no earlier than %.3fs, read timeout %ds, round trip timeout %ds", id, a.K, a.Host, f(a.PG), f(as0), plan.Cfg.UpRead, plan.Cfg.DnRound)
					}
				}
				end := a.PG
				if end < 0 {
					end = now()
				}
				from := a.TSent
				if b := max64(start, r.TBody); i == 0 && b < from && (!repeatable[p.Method] || plan.Cfg.MaxAttempts == 1) {
					from = b // the time it takes to connect counts
				}
				lim := from + upRead + slack
				if dl := max64(start, r.TBody) + round + slack; dl < lim {
					lim = dl
				}
				if end > lim {
					violate(id, "not-released", ps("P03", "P02", "P14"), "request %d: attempt %d to %s (arrived %.3fs) still held its connection at %.3fs, limit %.3fs", id, a.K, a.Host, f(a.T), f(end), f(lim))
				}
			}
			checkRequestFidelity(r, a)
		}
		if logical > plan.Cfg.MaxAttempts && repeatable[p.Method] {
			violate(id, "too-many-attempts", ps("P05"), "request %d (%s) was attempted %d times, at most %d allowed", id, p.Method, logical, plan.Cfg.MaxAttempts)
		}
	}
}

// replayed reports whether arrival i is the transport repeating, within the
// same attempt, a request whose kept-alive connection had died before the first
// byte of a response.
func replayed(p *ReqPlan, as []*Arrival, i int) bool {
	if i == 0 || !safeMethods[p.Method] {
		return false
	}
	for _, t := range replays[p.ID] {
		if t >= as[i-1].TSent && t <= as[i].TSent {
			return true
		}
	}
	return false
}

func stalledOpen(a *Arrival) bool {
	return a.B != nil && a.B.Fail == "stall" && a.Gone < 0 && a.FailT < 0 && a.Bad == ""
}

func prevEnd(as []*Arrival, i int) int64 {
	if i == 0 {
		return 0
	}
	t := failTime(as[i-1])
	if t > as[i].TSent {
		return 0 // its end is not known well enough
	}
	return t
}

func checkRequestFidelity(r *ReqRec, a *Arrival) {
	p := r.P
	rt := routeFor(p.URI)
	if rt == nil {
		return
	}
	if sent := reqBody(p.ID, p.Body); !a.Full && !bytes.HasPrefix(sent, a.Body) {
		violate(p.ID, "req-body", ps("P07", "P08"), "request %d: what %s received of the body is not how it begins (%d bytes)", p.ID, a.Host, len(a.Body))
	}
	if a.Bad != "" {
		if strings.HasPrefix(a.Bad, "malformed") {
			violate(p.ID, "malformed-upstream", ps("P07"), "request %d arrived malformed at %s: %s", p.ID, a.Host, a.Bad)
		}
		return
	}
	if a.Method != p.Method {
		violate(p.ID, "method", ps("P07"), "request %d: method %s became %s", p.ID, p.Method, a.Method)
	}
	if w := upstreamURI(rt, p.URI); a.URI != w {
		violate(p.ID, "uri", ps("P07"), "request %d: URI %q on route %s (transform %q) must be %q upstream but was %q", p.ID, p.URI, rt.Path, rt.Transform, w, a.URI)
	}
	if a.Hdr == nil {
		return
	}
	skip := map[string]bool{"Host": true, "Date": true, "Content-Length": true, "Transfer-Encoding": true, "Server": true, "Connection": true, "X-Request-Id": true, "Authorization": true, "Expect": true}
	want := map[string][]string{"X-Sim-Id": {fmt.Sprint(p.ID)}}
	for _, kv := range p.Hdr {
		k := http.CanonicalHeaderKey(kv[0])
		if !skip[k] {
			want[k] = append(want[k], kv[1])
		}
	}
	if c := want["Cookie"]; r.C.Proto == "h2" && len(c) > 1 {
		want["Cookie"] = []string{strings.Join(c, "; ")} // they travel in crumbs
	}
	got := map[string][]string{}
	for _, kv := range a.Hdr {
		k := http.CanonicalHeaderKey(kv[0])
		got[k] = append(got[k], kv[1])
	}
	for k, v := range want {
		if !slices.Equal(got[k], v) {
			violate(p.ID, "req-header", ps("P07"), "request %d: header %s: client sent %q, upstream got %q", p.ID, k, v, got[k])
		}
	}
	for k, v := range got {
		if _, ok := want[k]; ok || skip[k] {
			continue
		}
		violate(p.ID, "req-header-added", ps("P07"), "request %d: upstream got header %s: %q which the client did not send", p.ID, k, v)
	}
	if h := got["Host"]; len(h) != 1 || !sameHost(h[0], a.Host) {
		violate(p.ID, "host-header", ps("P07"), "request %d: the Host header at upstream %s was %q", p.ID, a.Host, h)
	}
	auth := hall(p.Hdr, "Authorization")
	for i := range auth {
		auth[i] = strings.TrimSpace(auth[i])
	}
	if p.Tok != nil {
		switch v := "Bearer " + r.Token; p.Tok.Mangle {
		case "noscheme":
			auth = append(auth, r.Token)
		case "doublespace":
			auth = append(auth, "Bearer  "+r.Token)
		default:
			auth = append(auth, strings.TrimSpace(v))
		}
	}
	if !slices.Equal(got["Authorization"], auth) {
		violate(p.ID, "req-header", ps("P07"), "request %d: Authorization %q reached the upstream as %q", p.ID, auth, got["Authorization"])
	}
	xs := got["X-Request-Id"]
	if len(xs) != 1 || xs[0] == "" {
		violate(p.ID, "xrid-upstream", ps("P07", "P16"), "request %d: X-Request-Id upstream %q", p.ID, xs)
	} else if v, ok := hget(p.Hdr, "X-Request-Id"); ok && v != "" && xs[0] != v {
		violate(p.ID, "xrid-upstream", ps("P07", "P16"), "request %d: X-Request-Id %q became %q upstream", p.ID, v, xs[0])
	} else if rx, ok := hget(r.Hdr, "X-Request-Id"); ok && r.Err == "" && rx != xs[0] {
		violate(p.ID, "xrid-upstream", ps("P07", "P16"), "request %d: X-Request-Id is %q upstream but %q downstream", p.ID, xs[0], rx)
	}
	if a.Full {
		want := reqBody(p.ID, p.Body)
		if p.Framing == "" {
			want = nil
		}
		if !bytes.Equal(a.Body, want) {
			pr := ps("P07", "P08")
			if a.K > 1 {
				pr = append(pr, "P05")
			}
			violate(p.ID, "req-body", pr, "request %d: the client sent a body of %d bytes, %s received %d bytes", p.ID, len(want), a.Host, len(a.Body))
		}
	}
}

// sameHost says whether a Host header names the server at addr.
func sameHost(h, addr string) bool {
	if strings.EqualFold(h, addr) {
		return true
	}
	i := strings.LastIndexByte(addr, ':')
	return i > 0 && strings.EqualFold(h, addr[:i])
}

// ---------------------------------------------------------------- connections

func evalConns(end string) {
	if end != "ok" {
		return
	}
	for _, l := range leftConns {
		violate(-1, "conn-leak", ps("P14"), "%s", l)
	}
	for who, n := range endGor {
		if n > baseGor[who] && !plan.Early {
			violate(-1, "goroutine-leak", ps("P14"), "%d goroutines created by %s remain after all traffic has ended (%d after boot)", n, who, baseGor[who])
		}
	}
	// idle connections kept
	type ev struct {
		t int64
		d int
	}
	if plan.Cfg.UpPool > 0 {
		for _, h := range hosts {
			if isJwks(h.Addr) {
				continue
			}
			var evs []ev
			for _, u := range upConns {
				if u.Host != h.Addr || u.Reqs == 0 || u.busy {
					continue
				}
				e := u.Closed
				if e < 0 {
					e = now()
				}
				if u.By == "server" || u.By == "idle" || u.By == "tlsfail" || u.damaged {
					continue
				}
				// closed by the proxy after being idle: idle from IdleAt to Closed
				if e-u.IdleAt > stallSlack+4*delayMax(h.lk)+200*ms {
					evs = append(evs, ev{u.IdleAt + stallSlack + 4*delayMax(h.lk) + 200*ms, 1}, ev{e, -1})
				}
			}
			sort.SliceStable(evs, func(i, j int) bool { return evs[i].t < evs[j].t || (evs[i].t == evs[j].t && evs[i].d < evs[j].d) })
			n, mx := 0, 0
			for _, e := range evs {
				n += e.d
				if n > mx {
					mx = n
				}
			}
			if mx > plan.Cfg.UpPool {
				violate(-1, "pool-size", ps("P14"), "%d idle connections to %s were kept at once, pool size is %d", mx, h.Addr, plan.Cfg.UpPool)
			}
		}
	}
	for _, u := range upConns {
		if isJwks(u.Host) {
			continue
		}
		if u.By == "proxy" && u.Reqs > 0 && !u.busy && !u.damaged {
			idle := u.Closed - u.IdleAt
			h := hosts[u.Host]
			if lim := int64(plan.Cfg.UpIdle)*sec + stallSlack + 4*delayMax(h.lk) + 500*ms; idle > lim {
				violate(-1, "idle-timeout", ps("P14"), "connection %d to %s stayed idle for %.3fs, idle timeout is %ds", u.ID, u.Host, f(idle), plan.Cfg.UpIdle)
			} else if plan.Profile == "deflt" && idle < int64(plan.Cfg.UpIdle)*sec-sec {
				violate(-1, "idle-cut-early", ps("P17"), "the idle connection %d to %s was closed after %.3fs, idle timeout is %ds", u.ID, u.Host, f(idle), plan.Cfg.UpIdle)
			}
		}
	}
	for _, c := range physConn {
		if c.extra != "" {
			violate(-1, "extra-bytes", ps("P01", "P06"), "client connection %d: %s", c.seq, c.extra)
		}
		cl := delayMax(clientLink(c.plan))
		if c.plan.Silent {
			lim := c.open + max64(int64(plan.Cfg.DnRead), 0)*sec + stallSlack + 3*cl + 500*ms
			if c.fin < 0 || c.fin > lim {
				violate(-1, "silent-client", ps("P13"), "a client connection on which nothing was ever sent was still open at %.3fs (opened %.3fs, read timeout %ds)", f(max64(c.fin, now()*bool64(c.fin < 0))), f(c.open), plan.Cfg.DnRead)
			}
		} else if c.planned && c.plan.IdleEnd > 0 && c.n > 0 && !c.lastCl && c.last > 0 {
			idle := int64(plan.Cfg.DnIdle) * sec
			if c.fin >= 0 && c.fin < c.last+idle-stallSlack-2*cl-50*ms {
				violate(-1, "idle-cut-early", ps("P13"), "an idle client connection was closed %.3fs after its last response, idle timeout is %ds", f(c.fin-c.last), plan.Cfg.DnIdle)
			}
			if c.plan.IdleEnd > idle+stallSlack+4*cl+2*sec && (c.fin < 0 || c.fin > c.last+idle+stallSlack+3*cl+500*ms) {
				violate(-1, "idle-client", ps("P13"), "an idle client connection was not closed %ds after its last response at %.3fs (closed %.3fs)", plan.Cfg.DnIdle, f(c.last), f(c.fin))
			}
		}
	}
	for _, a := range dialLog {
		if a.Outcome == "timeout" || a.Outcome == "" {
			e := a.T1
			if e == 0 {
				e = now()
			}
			h := hosts[a.Host]
			lim := a.T0 + int64(plan.Cfg.UpSocket)*sec + stallSlack + 200*ms
			if h != nil && !strings.HasPrefix(a.Host, "jwks") && e > lim {
				violate(-1, "dial-timeout", ps("P03"), "connecting to %s took %.3fs, socket timeout is %ds", a.Host, f(e-a.T0), plan.Cfg.UpSocket)
			}
			if h != nil && !isJwks(a.Host) && a.Own && e-a.T0 < int64(plan.Cfg.UpSocket)*sec-10*ms {
				violate(-1, "dial-cut-short", ps("P03"), "connecting to %s was given up after %.3fs, socket timeout is %ds", a.Host, f(e-a.T0), plan.Cfg.UpSocket)
			}
		}
	}
	for _, x := range hostFails {
		// a TLS handshake that gets nowhere
		hp := hostPlan(x.Host)
		if x.Kind != "accept_stall" || hp == nil || hp.TLS == "" || hp.Kind != "app" {
			continue
		}
		e := x.uc.Closed
		if e < 0 {
			e = now()
		}
		lim := x.T + int64(plan.Cfg.UpSocket)*sec + stallSlack + 4*delayMax(hosts[x.Host].lk) + 200*ms
		metrics["stalled_handshakes"]++
		if e > lim {
			violate(-1, "handshake-timeout", ps("P03"), "a TLS handshake with %s that got no answer was held up %.3fs, socket timeout is %ds", x.Host, f(e-x.T), plan.Cfg.UpSocket)
		}
	}
}

func isJwks(addr string) bool {
	for _, h := range plan.Hosts {
		if hostPort(h.Host, h.Port) == addr {
			return h.Kind == "jwks"
		}
	}
	return false
}

func bool64(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------- access log

func evalLogs() {
	byX := map[string][]logLine{}
	for _, l := range logLines {
		if _, ok := l.M["dwnResCode"]; !ok {
			continue
		}
		x, _ := l.M["X-Request-Id"].(string)
		if x == "" {
			violate(-1, "log-no-id", ps("P16"), "an access log record has no request id: %v", l.M)
			continue
		}
		byX[x] = append(byX[x], l)
	}
	for _, r := range recs {
		x, ok := hget(r.Hdr, "X-Request-Id")
		p := r.P
		if !ok || r.Status == 0 {
			if v, ok := hget(p.Hdr, "X-Request-Id"); ok {
				if n := len(byX[v]); n > 1 {
					violate(p.ID, "log-dup", ps("P16"), "request %d produced %d access log records", p.ID, n)
				}
			}
			continue
		}
		ls := byX[x]
		if strings.EqualFold(plan.LogLevel, "WARN") && r.Status <= 399 && len(ls) == 0 {
			continue // asked not to be told
		}
		if len(ls) != 1 {
			violate(p.ID, "log-count", ps("P16"), "request %d (%s %s, status %d) produced %d access log records, want 1", p.ID, p.Method, p.URI, r.Status, len(ls))
			continue
		}
		m := ls[0].M
		if c, _ := m["dwnResCode"].(float64); int(c) != r.Status {
			violate(p.ID, "log-status", ps("P16"), "request %d was answered %d but logged as %v", p.ID, r.Status, m["dwnResCode"])
		}
		if v, _ := m["dwnReqMethod"].(string); v != p.Method {
			violate(p.ID, "log-method", ps("P16"), "request %d: method %s logged as %q", p.ID, p.Method, v)
		}
		path := p.URI
		if i := strings.IndexByte(path, '?'); i >= 0 {
			path = path[:i]
		}
		if v, _ := m["dwnReqPath"].(string); v != path {
			violate(p.ID, "log-path", ps("P16"), "request %d: path %s logged as %q", p.ID, path, v)
		}
		if us, ok := m["dwnElapsedMicros"].(float64); ok {
			el := int64(us) * 1000
			if el < 0 || el > ls[0].T-r.T0+ms {
				violate(p.ID, "log-elapsed", ps("P16"), "request %d: logged elapsed time %.6fs is impossible, it was sent at %.6fs and logged at %.6fs", p.ID, f(el), f(r.T0), f(ls[0].T))
			}
			if lo := ls[0].T - max64(hdrTime(r), r.TBody) - stallSlack - 2*delayMax(clientLink(r.C)) - 5*ms; el < lo && r.P.Abort == "" {
				violate(p.ID, "log-elapsed", ps("P16"), "request %d: logged elapsed time %.6fs is less than the %.6fs it took", p.ID, f(el), f(lo))
			}
		}
		if v, ok := m["upAtmptResCode"].(float64); ok && r.Status < 500 && r.Status >= 200 {
			as := arrFor(p.ID)
			hit := false
			for _, a := range as {
				hit = hit || a.Status == int(v)
			}
			if len(as) > 0 && !hit {
				violate(p.ID, "log-upstream", ps("P16"), "request %d: log names upstream status %v which no attempt had", p.ID, v)
			}
		}
		if v, ok := m["level"].(string); ok {
			if (r.Status > 399) != (v == "warn") {
				violate(p.ID, "log-level", ps("P16"), "request %d with status %d was logged at level %s", p.ID, r.Status, v)
			}
		}
	}
}

// ---------------------------------------------------------------- policy

func evalPolicy() {
	for _, rt := range plan.Cfg.Routes {
		if rt.Policy == "" || plan.Profile != "policy" {
			continue
		}
		first := map[int]string{}
		for _, a := range arrivals {
			if _, ok := first[a.Rid]; !ok && a.Rid >= 0 && reqByID[a.Rid] != nil && routeFor(reqByID[a.Rid].URI) == rt {
				first[a.Rid] = a.Host
			}
		}
		n := len(first)
		if n < 50 {
			continue
		}
		cnt := map[string]int{}
		for _, h := range first {
			cnt[h]++
		}
		metrics["policy_samples"] += n
		w := map[string]float64{}
		ms := plan.Cfg.Resources[rt.Resource]
		for _, lw := range plan.Cfg.Policies[rt.Policy] {
			for _, m := range ms {
				hit := false
				for _, l := range m.Labels {
					hit = hit || l == lw.Label
				}
				if hit {
					w[hostPort(m.Host, m.Port)] += lw.Weight
					break
				}
			}
		}
		for h, p := range w {
			exp := p * float64(n)
			if unlikely := binomial(n, cnt[h], p, float64(cnt[h]) > exp); unlikely < 1e-11 {
				violate(-1, "policy-split", ps("P12"), "route %s: upstream %s has weight %.2f but got %d of %d requests, which has a probability of %.1g", rt.Path, h, p, cnt[h], n, unlikely)
			}
		}
	}
}

// binomial is the probability of k or fewer, or k or more, hits in n tries.
func binomial(n, k int, p float64, more bool) float64 {
	if p <= 0 || p >= 1-1e-9 {
		if (p <= 0 && k > 0) || (p > 0 && k < n) {
			return 0
		}
		return 1
	}
	lg := func(x int) float64 { v, _ := math.Lgamma(float64(x) + 1); return v }
	lo, hi := 0, k
	if more {
		lo, hi = k, n
	}
	sum := 0.0
	for i := lo; i <= hi; i++ {
		sum += math.Exp(lg(n) - lg(i) - lg(n-i) + float64(i)*math.Log(p) + float64(n-i)*math.Log(1-p))
	}
	return sum
}

var _ = time.Now

// evalTLS: nothing is said to, or believed from, a server the proxy could not
// authenticate; and servers it can authenticate are not refused.
func evalTLS() {
	for _, u := range upConns {
		hp := hostPlan(u.Host)
		if hp == nil || hp.TLS == "" {
			continue
		}
		up := delayMax(hosts[u.Host].lk)
		lo := u.Opened - up - ms
		hi := u.HsDone
		if hi < 0 {
			hi = u.Closed
		}
		if hi < 0 {
			continue
		}
		mn, mx := wallRange(lo, hi)
		nb, na := certEpoch.AddDate(-1, 0, 0).Unix(), certEpoch.AddDate(5, 0, 0).Unix()
		bad, maybe := false, false
		switch hp.TLS {
		case "expired":
			na = certEpoch.Unix() - 3600
		case "notyet":
			nb = certEpoch.AddDate(1, 0, 0).Unix()
		case "until":
			na = certEpoch.Unix() + hp.TLSUntil
		case "wronghost", "unknownca":
			bad = true
		}
		if mx < nb-1 || mn > na+1 {
			bad = true
		} else if mn <= nb+1 || mx >= na-1 {
			maybe = true
		}
		pr := ps("P15")
		if hp.Kind == "jwks" {
			pr = ps("P15", "P10")
		}
		insecure := plan.Cfg.Insecure && hp.Kind != "jwks"
		if u.HsDone >= 0 && u.Reqs > 0 {
			metrics["tls_conns_used"]++
		}
		if bad && !insecure && u.HsDone >= 0 && u.Reqs > 0 {
			violate(-1, "tls-unauthentic", pr, "a request was sent to %s over connection %d although its certificate is not valid there and then (%s)", u.Host, u.ID, hp.TLS)
		}
		if u.HsDone < 0 && strings.Contains(u.TLSFail, "tls:") && !strings.Contains(u.TLSFail, "certificate") && !strings.Contains(u.TLSFail, "notify") {
			// they could have agreed: the server speaks 1.2 or 1.3, as everyone does
			violate(-1, "tls-no-terms", pr, "the proxy and %s could not agree on terms (version %d, key %s): %s", u.Host, hp.TLSMax, hp.TLSKind, u.TLSFail)
		}
		if u.HsDone < 0 && strings.Contains(u.TLSFail, "certificate") {
			metrics["tls_refused"]++
			if insecure || (!bad && !maybe) {
				violate(-1, "tls-refused", pr, "the proxy refused the certificate of %s, which is valid (%s, insecure %v): %s", u.Host, hp.TLS, plan.Cfg.Insecure, u.TLSFail)
			}
		}
	}
}

func hostPlan(addr string) *HostPlan {
	for _, h := range plan.Hosts {
		if hostPort(h.Host, h.Port) == addr {
			return h
		}
	}
	return nil
}

// wallRange is the least and the greatest wall clock (unix seconds) shown in [lo,hi].
func wallRange(lo, hi int64) (int64, int64) {
	mn, mx := wallAt(lo), wallAt(lo)
	see := func(x int64) {
		mn, mx = min64(mn, x), max64(mx, x)
	}
	see(wallAt(hi))
	for _, j := range wallJumps {
		if j.At >= lo-ms && j.At <= hi+ms {
			see(wallAt(j.At - 1))
			see(wallAt(j.At + 1))
		}
	}
	return mn, mx
}

// evalDials: only what the configuration names is ever contacted.
func evalDials() {
	ok := map[string]bool{}
	for _, ms := range plan.Cfg.Resources {
		for _, m := range ms {
			ok[hostPort(m.Host, m.Port)] = true
		}
	}
	urls := ""
	for _, j := range plan.Cfg.Jwts {
		urls += " " + j.URL + " "
	}
	for _, d := range dialLog {
		if !ok[d.Host] && !strings.Contains(urls, "//"+d.Host+"/") {
			violate(-1, "foreign-dial", ps("P07"), "the proxy connected to %s at %.3fs, which its configuration does not name", d.Host, f(d.T0))
			return
		}
	}
}
