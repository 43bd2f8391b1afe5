//go:build go1.22

// What must stay confidential: nothing of it may show up in the log or in the
// documents the proxy makes itself.

package main

import (
	"encoding/base64"
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// walkText calls f with every string in a log record, keys included.
func walkText(v any, f func(string)) {
	switch x := v.(type) {
	case string:
		f(x)
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			f(k)
			walkText(x[k], f)
		}
	case []any:
		for _, y := range x {
			walkText(y, f)
		}
	}
}

type secret struct{ what, text string }

// pemLine is a line out of the middle of a PEM block, which only who has the key can know.
func pemLine(p string) string {
	var ls []string
	for _, l := range strings.Split(p, "\n") {
		if l = strings.TrimSpace(l); len(l) >= 40 && !strings.HasPrefix(l, "-") {
			ls = append(ls, l)
		}
	}
	if len(ls) == 0 {
		return ""
	}
	return ls[len(ls)/2]
}

// rawSecret is the token key in configurations that are written as text.
const rawSecret = "a-very-secret-key-0001"

func secrets() []secret {
	var o []secret
	add := func(what, text string) {
		if len(text) >= 8 {
			o = append(o, secret{what, text})
			if len(text) >= 12 {
				o = append(o, secret{what + " in base64", strings.TrimRight(base64.StdEncoding.EncodeToString([]byte(text[:len(text)/3*3])), "=")})
			}
		}
	}
	for name, w := range plan.Cfg.Jwts {
		switch {
		case strings.HasPrefix(w.Alg, "HS") && w.URL == "":
			add("the secret of jwt "+name, w.Key)
		case strings.HasPrefix(w.Key, "priv:"):
			add("a private key", pemLine(keyPEM[w.Key[5:]]))
		}
	}
	if strings.Contains(plan.Cfg.Raw, rawSecret) {
		add("the secret of jwt j", rawSecret)
	}
	if plan.Cfg.TLS && plan.Cfg.Raw == "" {
		_, k := downstreamCert(&plan.Cfg)
		add("the private key of the proxy", pemLine(k))
	}
	for _, r := range recs {
		if t := strings.TrimSpace(r.Token); t != "" {
			if i := strings.LastIndexByte(t, '.'); i >= 0 && len(t)-i > 24 {
				o = append(o, secret{fmt.Sprintf("the signature of the token of request %d", r.P.ID), t[i+1:]})
			} else if len(t) >= 24 {
				o = append(o, secret{fmt.Sprintf("the token of request %d", r.P.ID), t})
			}
		}
		for _, kv := range r.P.Hdr {
			if strings.EqualFold(kv[0], "Cookie") && len(kv[1]) >= 12 {
				o = append(o, secret{fmt.Sprintf("the cookie of request %d", r.P.ID), kv[1]})
			}
		}
	}
	// what clients send to be logged is no secret
	var open strings.Builder
	for _, r := range recs {
		open.WriteString(r.P.URI + "\x00")
		for _, kv := range r.P.Hdr {
			if strings.EqualFold(kv[0], "X-Request-Id") || strings.EqualFold(kv[0], "User-Agent") {
				open.WriteString(kv[1] + "\x00")
			}
		}
	}
	said := open.String()
	k := o[:0]
	seen := map[string]bool{}
	for _, s := range o {
		if !seen[s.text] && !strings.Contains(said, s.text) {
			k = append(k, s)
		}
		seen[s.text] = true
	}
	return k
}

func evalSecrets() {
	ss := secrets()
	metrics["secrets_watched"] = len(ss)
	var all strings.Builder
	for _, l := range logLines {
		if l.M != nil {
			walkText(l.M, func(s string) { all.WriteString(s); all.WriteByte(0) })
		} else {
			all.WriteString(l.S)
			all.WriteByte(0)
		}
	}
	text := all.String()
	metrics["log_bytes"] = len(text)
	for _, s := range ss {
		if i := strings.Index(text, s.text); i >= 0 {
			violate(-1, "secret-logged", ps("P23"), "%s is in the log: %.120q", s.what, text[max(0, i-40):min(len(text), i+80)])
			break
		}
	}
	if i := bodyMark.FindStringIndex(text); i != nil {
		violate(-1, "secret-logged", ps("P23"), "a piece of a body is in the log: %.120q", text[max(0, i[0]-40):min(len(text), i[1]+80)])
	}
	for _, r := range recs {
		if _, theirs := hget(r.Hdr, "X-Up-Tok"); (r.Status < 400 && theirs) || r.TLast < 0 || r.Err != "" {
			continue
		}
		dec, _, err := decode(r.Hdr, r.Body)
		if err != nil {
			continue
		}
		metrics["own_documents"]++
		own := string(dec)
		for _, kv := range r.Hdr {
			own += "\x00" + kv[1]
		}
		for _, s := range ss {
			if strings.Contains(own, s.text) {
				violate(r.P.ID, "secret-told", ps("P23"), "request %d: %s is in the %d answer that the proxy made itself: %.80q", r.P.ID, s.what, r.Status, own)
				break
			}
		}
		if m := bodyMark.FindString(own); m != "" {
			violate(r.P.ID, "body-told", ps("P23", "P06"), "request %d: a piece of a body, %s, is in the %d answer that the proxy made itself: %.80q", r.P.ID, m, r.Status, own)
		}
	}
}

// bodyMark is what all simulated request and upstream bodies are full of.
var bodyMark = regexp.MustCompile(`<R\d+>|\[U\d+\.\d+\]`)
