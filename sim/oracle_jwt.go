//go:build go1.22

// Reference model of the token gate, key rotation and the background daemons.

package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// wallAt is the wall clock (unix seconds) at simulated time t.
func wallAt(t int64) int64 {
	w := certEpoch.UnixNano() + t
	for _, j := range wallJumps {
		if j.At <= t {
			w += j.D
		}
	}
	return w / sec
}

func isHS(alg string) bool { return strings.HasPrefix(alg, "HS") }

// jwksHost finds the key server a token configuration loads its keys from.
func jwksHost(w *JwtCfg) *HostPlan {
	for _, h := range plan.Hosts {
		if h.Kind == "jwks" && strings.Contains(w.URL, "//"+hostPort(h.Host, h.Port)) {
			return h
		}
	}
	return nil
}

type keyView struct {
	sure map[string]string   // kid -> key installed for certain, the latest
	may  map[string][]string // kid -> keys that may be installed
}

func goodKey(w *JwtCfg, k *JwkSpec) bool {
	if k.Bad != "" || k.Alg != w.Alg {
		return false
	}
	switch w.Alg[:2] {
	case "RS", "PS":
		return strings.HasPrefix(k.Key, "rsa")
	case "ES":
		return strings.HasPrefix(k.Key, map[string]string{"ES256": "ec256", "ES384": "ec384", "ES512": "ec521"}[w.Alg])
	}
	return false
}

// harmless: such a key cannot be used but does not keep the proxy from the ones that follow it.
func harmless(w *JwtCfg, k *JwkSpec) bool {
	return k.Bad == "" && k.Alg == w.Alg && !goodKey(w, k)
}

// keysAt is what the proxy may know in the window [lo,hi].
func keysAt(w *JwtCfg, h *HostPlan, lo, hi int64) keyView {
	v := keyView{map[string]string{}, map[string][]string{}}
	for _, jf := range jwksLog {
		if jf.Host != hostPort(h.Host, h.Port) || jf.State < 0 || jf.T > hi {
			continue
		}
		s := h.Jwks[jf.State]
		if s.Mode != "ok" && s.Mode != "slow" {
			continue
		}
		certain := jf.TDone >= 0 && jf.TDone+stallSlack+100*ms <= lo && jf.TDone-jf.T < 4*sec
		if jf.TDone >= 0 && jf.TDone > hi {
			continue
		}
		broken := false
		for _, k := range s.Keys {
			if !goodKey(w, k) {
				broken = broken || !harmless(w, k)
				continue
			}
			kid := k.Kid
			if kid == "" {
				kid = "\x00" + k.Key // keys without a name do not replace each other
			}
			if certain && !broken {
				v.sure[kid] = k.Key
				v.may[kid] = []string{k.Key}
			} else {
				v.may[kid] = append(v.may[kid], k.Key)
			}
		}
	}
	return v
}

// window in which the proxy decides about a token
func decisionWindow(r *ReqRec) (int64, int64) {
	lo := hdrTime(r)
	hi := now()
	if r.TLast >= 0 {
		hi = r.TLast
	} else if r.PeerFin >= 0 {
		hi = r.PeerFin
	}
	if as := arrFor(r.P.ID); len(as) > 0 && as[0].T < hi {
		hi = as[0].T
	}
	return lo, hi
}

// jwtVerdict is 1 if the token must be accepted, -1 if it must be rejected, 0
// if either is legitimate.
func jwtVerdict(r *ReqRec, name string) int {
	w := plan.Cfg.Jwts[name]
	t := r.P.Tok
	if t == nil {
		if v, ok := hget(r.P.Hdr, "Authorization"); ok && strings.Count(v, ".") == 2 {
			return 0
		}
		return -1
	}
	switch t.Mangle {
	case "", "sigfirst", "doublespace":
	case "json", "hdr_kid", "hdr_none", "hdr_alg", "hdr_arr", "hdr_jwk", "hdr_jku", "hdr_x5u", "hdr_crit":
		// signed as it should be, however odd it looks
	default:
		if w.Alg == "none" && (t.Mangle == "sig" || t.Mangle == "nosig" || t.Mangle == "claims" || t.Mangle == "exp") {
			return 0
		}
		return -1
	}
	lo, hi := decisionWindow(r)
	d := dateVerdict(r, w, lo, hi)
	if d < 0 {
		return -1
	}
	k := keyVerdict(r, w, lo, hi)
	if k < 0 {
		return -1
	}
	if d == 0 || k == 0 || t.Mangle == "doublespace" || t.Mangle == "json" || strings.HasPrefix(t.Mangle, "hdr_") {
		return 0
	}
	return 1
}

func dateVerdict(r *ReqRec, w *JwtCfg, lo, hi int64) int {
	skew := int64(120)
	if w.Skew != "" {
		n, _ := strconv.Atoi(w.Skew)
		skew = int64(n)
	}
	t := r.P.Tok
	mn, mx := wallRange(lo, hi)
	verdict := 1
	judge := func(validFrom, validTo int64) {
		// valid for wall clocks in [validFrom, validTo)
		if mn >= validFrom+2 && mx < validTo-2 {
			return
		}
		if mx < validFrom-2 || mn >= validTo+2 {
			verdict = -1
			return
		}
		if verdict > 0 {
			verdict = 0
		}
	}
	const far = int64(1) << 50
	if t.Raw > 0 {
		if c := rawClaims[t.Raw-1]; c.V <= 0 || !strings.Contains(c.Doc, "$") {
			return c.V
		}
		judge(-far, r.TokExp+skew)
		return verdict
	}
	if t.Exp != nil {
		judge(-far, r.TokExp+skew)
	}
	if t.Nbf != nil {
		judge(r.TokNbf-skew, far)
	}
	if t.Iat != nil {
		judge(r.TokIat-skew, far)
	}
	return verdict
}

func keyVerdict(r *ReqRec, w *JwtCfg, lo, hi int64) int {
	t := r.P.Tok
	if w.Alg == "none" {
		return 1
	}
	if t.Alg != w.Alg {
		return -1
	}
	if w.URL == "" {
		if t.Key == w.Key {
			return 1
		}
		return -1
	}
	h := jwksHost(w)
	if h == nil {
		return -1
	}
	v := keysAt(w, h, lo, hi)
	sure, may := false, false
	for kid, k := range v.sure {
		if k == t.Key && len(v.may[kid]) == 1 {
			sure = true
		}
	}
	for _, ks := range v.may {
		for _, k := range ks {
			may = may || k == t.Key
		}
	}
	if sure {
		return 1
	}
	if may {
		return 0
	}
	return -1
}

// evalJwks checks fetching: how often, and that rotation completes.
func evalJwks() {
	for name, w := range plan.Cfg.Jwts {
		if w.URL == "" {
			continue
		}
		h := jwksHost(w)
		if h == nil {
			continue
		}
		addr := hostPort(h.Host, h.Port)
		users := 0
		for _, w2 := range plan.Cfg.Jwts {
			if jwksHost(w2) == h {
				users++
			}
		}
		var fs []*jwksFetch
		for _, jf := range jwksLog {
			if jf.Host == addr {
				fs = append(fs, jf)
			}
		}
		if users == 1 {
			for i := 2; i < len(fs); i++ {
				p := fs[i-1]
				if p.Mode == "reset" || p.Mode == "partial" || p.Mode == "" {
					continue // the transport may replay a request on a connection that died
				}
				if fs[i].T-p.T < 10*sec-stallSlack-delayMax(hosts[addr].lk)*6-sec {
					violate(-1, "jwks-rate", ps("P11"), "jwt %s: the key server was asked at %.3fs and again at %.3fs, less than 10s apart", name, f(p.T), f(fs[i].T))
				}
			}
		}
		evalRotation(name, w, h)
	}
}

const rotationBound = 45 * sec // longest fetch before it times out plus the pause between fetches

func evalRotation(name string, w *JwtCfg, h *HostPlan) {
	lk := hosts[hostPort(h.Host, h.Port)].lk
	if h.TLS != "" && h.TLS != "ok" {
		return // the proxy is right not to believe this server once its certificate has lapsed
	}
	for _, r := range recs {
		rt := routeFor(r.P.URI)
		if rt == nil || rt.Jwt != name || r.P.Tok == nil || r.P.Tok.Kid == "" || r.P.Tok.Mangle != "" || r.Err != "" || r.P.Tok.Alg != w.Alg {
			continue
		}
		if r.Status != 401 {
			continue
		}
		lo, hi := decisionWindow(r)
		if dateVerdict(r, w, lo, hi) != 1 {
			continue
		}
		// a kid the proxy knows, with another key, is no news to it
		reused := false
		for _, s := range h.Jwks {
			for _, k := range s.Keys {
				reused = reused || (k.Kid == r.P.Tok.Kid && k.Key != r.P.Tok.Key)
			}
		}
		if reused {
			continue
		}
		// since when has the server offered this key without interruption?
		since := int64(-1)
		for i, s := range h.Jwks {
			if s.At > r.T0 {
				break
			}
			has := s.Mode == "ok" && s.Delay < sec
			found := false
			for _, k := range s.Keys {
				if !goodKey(w, k) && !harmless(w, k) {
					has = false
				}
				found = found || (k.Kid == r.P.Tok.Kid && k.Key == r.P.Tok.Key)
			}
			if has && found {
				if since < 0 {
					since = s.At
				}
			} else {
				since = -1
			}
			_ = i
		}
		if since < 0 {
			continue
		}
		for _, win := range append(append([]Window{}, h.Down...), lk.out...) {
			if win.To > since && win.From < r.T0 {
				since = win.To
			}
		}
		if since > r.T0 {
			continue
		}
		for _, q := range recs {
			qr := routeFor(q.P.URI)
			if qr == nil || qr.Jwt != name || q.P.Tok == nil || q.P.Tok.Kid != r.P.Tok.Kid || q.P.Tok.Mangle != "" || q.Status != 401 || q == r {
				continue
			}
			if q.T0 >= since+rotationBound+stallSlack && q.TLast >= 0 && q.TLast+3*sec+stallSlack+4*delayMax(lk) <= r.T0 {
				violate(r.P.ID, "rotation-stuck", ps("P10"), "request %d at %.3fs was refused although the key server has offered key %s since %.3fs and a token with it was seen at %.3fs", r.P.ID, f(r.T0), r.P.Tok.Kid, f(since), f(q.T0))
				return
			}
		}
	}
}

// ---------------------------------------------------------------- daemons

func evalDaemon(end string) {
	if plan.Profile != "daemon" {
		return
	}
	metrics["daemon_hours"] = int(now() / (3600 * sec))
	c := &plan.Cfg
	if c.TLS {
		expiry := certEpoch.Unix() + int64(c.CertDays)*86400
		if c.Chain {
			if e := certEpoch.Unix() + int64(c.InterDays)*86400; e < expiry {
				expiry = e
			}
		}
		var warns []int64
		for _, l := range logLines {
			if lv, _ := l.M["level"].(string); lv != "warn" {
				continue
			}
			if _, ok := l.M["dwnResCode"]; ok {
				continue
			}
			m, _ := l.M["message"].(string)
			if strings.Contains(strings.ToLower(m), "cert") {
				warns = append(warns, l.T)
				if rem := expiry - wallAt(l.T); rem > 30*86400+120 {
					b, _ := json.Marshal(l.M)
					violate(-1, "expiry-warn-early", ps("P18"), "certificate expiry warning with %d days left: %s", rem/86400, b)
				}
			}
		}
		// from boot, from every warning and from every clock jump on, the next warning follows within a day
		// as long as the chain stays valid and short of 30 days all the while
		day := 86400 * sec
		valid := certEpoch.Unix() - int64(c.CertAge)*86400
		in := func(t int64) bool {
			w := wallAt(t)
			return expiry-w > 120 && expiry-w < 30*86400-120 && w-valid > 120
		}
		starts := append([]int64{bootedAt}, warns...)
		for _, j := range wallJumps {
			starts = append(starts, j.At)
		}
		for t := bootedAt + 6*3600*sec; t < now(); t += 6 * 3600 * sec {
			starts = append(starts, t)
		}
		sort.Slice(starts, func(i, k int) bool { return starts[i] < starts[k] })
		for _, from := range starts {
			to := from + day + 60*sec + stallSlack
			if to > now() {
				break
			}
			ok := in(from) && in(to)
			for _, j := range wallJumps {
				if j.At >= from && j.At <= to {
					ok = ok && in(j.At-1) && in(j.At)
				}
			}
			if !ok || from < bootedAt {
				continue
			}
			hit := false
			for _, t := range warns {
				hit = hit || (t > from && t <= to) || (from == bootedAt && t <= to)
			}
			metrics["expiry_days"]++
			if !hit {
				violate(-1, "expiry-warn-missing", ps("P18"), "no certificate expiry warning between %.1fh and %.1fh although the certificate expires in %d days", f(from)/3600, f(to)/3600, (expiry-wallAt(from))/86400)
				break
			}
		}
		metrics["expiry_warnings"] = len(warns)
	}
	if strings.EqualFold(plan.LogLevel, "DEBUG") && end == "ok" {
		var ts []int64
		for _, l := range logLines {
			if _, ok := l.M["rssBytes"]; ok {
				ts = append(ts, l.T)
			}
		}
		metrics["perf_samples"] = len(ts)
		sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
		last := bootedAt
		for _, t := range append(ts, now()) {
			if quiet := longestCalm(last, t); quiet > 150*sec+stallSlack {
				violate(-1, "stats-stopped", ps("P18"), "no process statistics were logged between %.1fs and %.1fs", f(last), f(t))
				break
			}
			last = t
		}
	}
}

// longestCalm is the longest time between a and b without disk faults, or their aftermath.
func longestCalm(a, b int64) int64 {
	best := int64(0)
	for a < b {
		// the first fault that still matters
		from, to := b, b
		for _, ft := range plan.Faults {
			if !strings.HasPrefix(ft.Kind, "os_") || ft.At >= b {
				continue
			}
			e := b
			if ft.Dur != 0 {
				e = ft.At + ft.Dur + 120*sec
			}
			if e > a && ft.At < from {
				from, to = ft.At, e
			}
		}
		if from-a > best {
			best = from - a
		}
		a = to
	}
	return best
}

var _ = fmt.Sprint
