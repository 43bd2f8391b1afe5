//go:build go1.22

// Keys, certificates, key sets and tokens used by the simulated world.

package main

import (
	"bufio"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"hash"
	"math/big"
	"net"
	"strings"
	"time"
)

var keyCache = map[string]any{}

func privKey(name string) any {
	if k, ok := keyCache[name]; ok {
		return k
	}
	if strings.HasPrefix(name, "ec256_d") {
		// one of any number of derived keys
		k := &ecdsa.PrivateKey{D: new(big.Int).SetUint64(strHash(name))}
		k.Curve = elliptic.P256()
		k.X, k.Y = k.Curve.ScalarBaseMult(k.D.Bytes())
		keyCache[name] = k
		return k
	}
	p, _ := pem.Decode([]byte(keyPEM[name]))
	if p == nil {
		panic("harness: no fixture key " + name)
	}
	k, err := x509.ParsePKCS8PrivateKey(p.Bytes)
	if err != nil {
		panic(err)
	}
	keyCache[name] = k
	return k
}

func pubPEM(name string) string {
	var pub any
	switch k := privKey(name).(type) {
	case *rsa.PrivateKey:
		pub = &k.PublicKey
	case *ecdsa.PrivateKey:
		pub = &k.PublicKey
	}
	b, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		panic(err)
	}
	return strings.TrimSpace(string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b})))
}

var certEpoch = time.Unix(1767225600, 0) // simulated start, wall

func makeCA(key, cn string) (*x509.Certificate, []byte) {
	t := &x509.Certificate{SerialNumber: big.NewInt(int64(strHash(cn) >> 16)), Subject: pkix.Name{CommonName: cn},
		NotBefore: certEpoch.AddDate(-10, 0, 0), NotAfter: certEpoch.AddDate(20, 0, 0), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign}
	k := privKey(key).(*ecdsa.PrivateKey)
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	return c, der
}

var (
	caCert, ca2Cert *x509.Certificate
	caDER           []byte
)

func setupCA() {
	caCert, caDER = makeCA("ca", "Sim Root")
	ca2Cert, _ = makeCA("ca2", "Other Root")
	pool := x509.NewCertPool()
	pool.AddCert(caCert)
	x509.SetFallbackRoots(pool) // with GODEBUG=x509usefallbackroots=1 these are the system roots
}

func certPEM(der []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
}

// proxyKey is an RSA key: the proxy offers no other kind under TLS 1.2.
const proxyKey = "rsa4"

func leaf(dns string, nb, na time.Time, ca *x509.Certificate, caKey string) []byte {
	if dns == "proxy.example" || dns == "" {
		return leafFor(proxyKey, dns, nb, na, ca, caKey)
	}
	return leafFor("srv", dns, nb, na, ca, caKey)
}

// keyCertPEM is a certificate for a token key.
func keyCertPEM(name string) string {
	return strings.TrimSpace(certPEM(leafFor(name, "issuer.example", certEpoch.AddDate(-1, 0, 0), certEpoch.AddDate(5, 0, 0), caCert, "ca")))
}

func leafFor(name, dns string, nb, na time.Time, ca *x509.Certificate, caKey string) []byte {
	t := &x509.Certificate{SerialNumber: big.NewInt(int64(strHash(dns+na.String()) >> 8)), Subject: pkix.Name{CommonName: dns},
		NotBefore: nb, NotAfter: na, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	if dns != "" {
		t.DNSNames = []string{dns}
	}
	if ip := net.ParseIP(dns); ip != nil {
		t.IPAddresses = []net.IP{ip}
	}
	der, err := x509.CreateCertificate(rand.Reader, t, ca, privKey(name).(crypto.Signer).Public(), privKey(caKey))
	if err != nil {
		panic(err)
	}
	return der
}

var hostTLSCache = map[string]*tls.Config{}

func hostTLS(hp *HostPlan) *tls.Config {
	id := hostPort(hp.Host, hp.Port)
	if c := hostTLSCache[id]; c != nil {
		return c
	}
	nb, na := certEpoch.AddDate(-1, 0, 0), certEpoch.AddDate(5, 0, 0)
	ca, cak, dns := caCert, "ca", hp.Host
	switch hp.TLS {
	case "expired":
		na = certEpoch.Add(-time.Hour)
	case "notyet":
		nb = certEpoch.AddDate(1, 0, 0)
	case "wronghost":
		dns = "other.example"
	case "unknownca":
		ca, cak = ca2Cert, "ca2"
	case "until":
		na = certEpoch.Add(time.Duration(hp.TLSUntil) * time.Second)
	}
	name := "srv"
	if hp.TLSKind == "rsa" {
		name = "rsa3"
	}
	c := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{leafFor(name, dns, nb, na, ca, cak)}, PrivateKey: privKey(name).(crypto.Signer)}}, NextProtos: []string{"http/1.1"}}
	if hp.TLSMax != 0 {
		c.MinVersion, c.MaxVersion = uint16(0x0300+hp.TLSMax), uint16(0x0300+hp.TLSMax)
	}
	hostTLSCache[id] = c
	return c
}

// downstreamCert makes the proxy's certificate chain and key as PEM.
func downstreamCert(cfg *J8Cfg) (string, string) {
	nb := certEpoch.AddDate(0, 0, -cfg.CertAge)
	na := certEpoch.Add(time.Duration(cfg.CertDays) * 24 * time.Hour)
	var o strings.Builder
	enc := func(der []byte) {
		pem.Encode(&o, &pem.Block{Type: "CERTIFICATE", Bytes: der})
	}
	if cfg.Chain {
		k := privKey("int").(*ecdsa.PrivateKey)
		t := &x509.Certificate{SerialNumber: big.NewInt(4242), Subject: pkix.Name{CommonName: "Sim Intermediate"},
			NotBefore: nb.AddDate(-1, 0, 0), NotAfter: certEpoch.Add(time.Duration(cfg.InterDays) * 24 * time.Hour), IsCA: true, BasicConstraintsValid: true,
			KeyUsage: x509.KeyUsageCertSign}
		der, err := x509.CreateCertificate(rand.Reader, t, caCert, &k.PublicKey, privKey("ca"))
		if err != nil {
			panic(err)
		}
		ic, _ := x509.ParseCertificate(der)
		enc(leaf("proxy.example", nb, na, ic, "int"))
		enc(der)
		enc(caDER)
	} else {
		enc(leaf("proxy.example", nb, na, caCert, "ca"))
	}
	kb, _ := x509.MarshalPKCS8PrivateKey(privKey(proxyKey))
	return o.String(), string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb}))
}

// ---------------------------------------------------------------- JWKS

type jwksFetch struct {
	Host  string
	T     int64
	TDone int64 // when a complete good answer reached the proxy, -1 otherwise
	End   int64 // when the fetch ended in whatever way
	State int
	Mode  string
	Path  string
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func jwkJSON(s *JwkSpec) map[string]any {
	m := map[string]any{"kid": s.Kid, "alg": s.Alg, "use": "sig"}
	if s.Kid == "" {
		delete(m, "kid")
	}
	switch k := privKey(s.Key).(type) {
	case *rsa.PrivateKey:
		m["kty"] = "RSA"
		m["n"] = b64(k.N.Bytes())
		m["e"] = b64(big.NewInt(int64(k.E)).Bytes())
	case *ecdsa.PrivateKey:
		m["kty"] = "EC"
		m["crv"] = k.Curve.Params().Name
		sz := (k.Curve.Params().BitSize + 7) / 8
		m["x"] = b64(k.X.FillBytes(make([]byte, sz)))
		m["y"] = b64(k.Y.FillBytes(make([]byte, sz)))
	}
	switch s.Bad {
	case "noalg":
		delete(m, "alg")
	case "badkty":
		m["kty"] = "XYZ"
	case "missing":
		delete(m, "n")
		delete(m, "x")
	case "oct":
		m = map[string]any{"kty": "oct", "kid": s.Kid, "alg": s.Alg, "k": b64([]byte("secretsecretsecretsecret"))}
	}
	return m
}

func serveJwks(h *Host, hp *HostPlan, c *Conn, nc net.Conn, br *bufio.Reader, uc *UpConn) bool {
	l, err := readLine(br)
	if err != nil {
		uc.Closed, uc.By = now(), "proxy"
		return false
	}
	f := strings.Split(l, " ")
	for {
		l, err := readLine(br)
		if err != nil {
			uc.Closed, uc.By = now(), "proxy"
			return false
		}
		if l == "" {
			break
		}
	}
	si := -1
	for i, s := range hp.Jwks {
		if s.At <= now() {
			si = i
		}
	}
	jf := &jwksFetch{Host: h.Addr, T: now(), TDone: -1, End: -1, State: si}
	if len(f) > 1 {
		jf.Path = f[1]
	}
	jwksLog = append(jwksLog, jf)
	logEvent("jwks", si, 0)
	defer func() { jf.End = now() }()
	if si < 0 {
		return false
	}
	s := hp.Jwks[si]
	jf.Mode = s.Mode
	if s.Mode != "ok" {
		fired("jwks_" + s.Mode)
	}
	simSleep(s.Delay)
	keys := []any{}
	for _, k := range s.Keys {
		if k.Bad != "" {
			fired("jwks_key_" + k.Bad)
		}
		keys = append(keys, jwkJSON(k))
	}
	body, _ := json.Marshal(map[string]any{"keys": keys})
	status := 200
	switch s.Mode {
	case "500":
		status = 500
	case "garbage":
		body = []byte("<html>definitely not a key set</html>")
	case "odd":
		// none of these holds a key that could be used
		doc := oddJwks[s.Doc%len(oddJwks)]
		if strings.HasPrefix(doc, `"kty"`) || strings.HasPrefix(doc, `"alg"`) {
			alg := "RS256"
			for _, w := range plan.Cfg.Jwts {
				alg = w.Alg
			}
			doc = fmt.Sprintf(`{"keys":[{"alg":"%s","kid":"k0","use":"sig",%s}]}`, alg, doc)
		}
		body = []byte(doc)
	case "empty":
		body = []byte(`{"keys":[]}`)
	case "null":
		body = []byte(`null`)
	case "hang":
		waitGone(c, uc)
		return false
	case "reset":
		c.Reset()
		uc.Closed, uc.By = now(), "server"
		return false
	}
	msg := fmt.Sprintf("HTTP/1.1 %d X\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", status, len(body), body)
	switch s.Mode {
	case "partial":
		nc.Write([]byte(msg[:len(msg)-len(body)/2]))
		simSleep(10 * ms)
		return false
	case "hang_body":
		nc.Write([]byte(msg[:len(msg)-len(body)/2]))
		waitGone(c, uc)
		return false
	case "slow":
		half := len(msg) / 2
		nc.Write([]byte(msg[:half]))
		simSleep(2 * sec)
		nc.Write([]byte(msg[half:]))
	default:
		nc.Write([]byte(msg))
	}
	if s.Mode == "ok" || s.Mode == "slow" {
		jf.TDone = c.arrival()
	}
	return true
}

// ---------------------------------------------------------------- tokens

func hashFor(alg string) (crypto.Hash, func() hash.Hash) {
	switch alg[2:] {
	case "384":
		return crypto.SHA384, sha512.New384
	case "512":
		return crypto.SHA512, sha512.New
	}
	return crypto.SHA256, sha256.New
}

func sign(alg, key string, input []byte) []byte {
	ch, hf := hashFor(alg)
	switch alg[:2] {
	case "HS":
		k := []byte(key)
		if strings.HasPrefix(key, "pub:") {
			k = []byte(pubPEM(key[4:]))
		}
		m := hmac.New(hf, k)
		m.Write(input)
		return m.Sum(nil)
	}
	h := hf()
	h.Write(input)
	d := h.Sum(nil)
	switch k := privKey(key).(type) {
	case *rsa.PrivateKey:
		var b []byte
		var err error
		if alg[:2] == "PS" {
			b, err = rsa.SignPSS(rand.Reader, k, ch, d, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
		} else {
			b, err = rsa.SignPKCS1v15(nil, k, ch, d)
		}
		if err != nil {
			panic(err)
		}
		return b
	case *ecdsa.PrivateKey:
		r, s, err := ecdsa.Sign(rand.Reader, k, d)
		if err != nil {
			panic(err)
		}
		sz := (k.Curve.Params().BitSize + 7) / 8
		return append(r.FillBytes(make([]byte, sz)), s.FillBytes(make([]byte, sz))...)
	}
	panic("harness: bad key")
}

func wallNow() int64 { return time.Now().Unix() }

// oddJwks are key sets without a usable key; those that start with a member are keys under a known key id.
var oddJwks = []string{
	`{"keys":null}`, `{"keys":{}}`, `{"keys":[null]}`, `{"keys":[{}]}`, `[]`, `"keys"`, `{}`, `{"keys":[[]]}`, `{"keys":["a",1,true]}`, ``, `5`,
	`{"keys":[{"kty":5}]}`, `{"keys":[{"kty":null,"alg":[]}]}`, strings.Repeat(`{"keys":[`, 3000), strings.Repeat("[", 20000),
	`{"kid":"k0","kty":"RSA"}`,
	`"kty":"RSA","n":"","e":"AQAB"`, `"kty":"RSA","n":"AQ","e":"AQAB"`, `"kty":"RSA","n":"AA","e":"AQAB"`, `"kty":"RSA","n":"Ag","e":"AQAB"`,
	`"kty":"RSA","n":"***","e":"AQAB"`, `"kty":"RSA","n":5,"e":"AQAB"`, `"kty":"RSA","n":null,"e":null`, `"kty":"RSA","e":"AQAB"`,
	`"kty":"RSA","n":"` + strings.Repeat("_w", 128) + `"`, `"kty":"RSA","n":"` + strings.Repeat("_w", 128) + `","e":""`,
	`"kty":"RSA","n":"` + strings.Repeat("_w", 128) + `","e":"AA"`, `"kty":"RSA","n":"` + strings.Repeat("_w", 128) + `","e":"` + strings.Repeat("__8A", 30) + `"`,
	`"kty":"RSA","n":"AQ","e":"AQAB","d":"AQ","p":"","q":""`, `"kty":"RSA","n":"AQ","e":"AQAB","d":"AQ"`, `"kty":"RSA","d":""`,
	`"kty":"EC"`, `"kty":"EC","crv":"P-256"`, `"kty":"EC","crv":"P-256","x":"","y":""`, `"kty":"EC","crv":"P-256","x":"AA","y":"AA"`, `"kty":"EC","crv":"P-256","x":"AQ","y":"AQ"`,
	`"kty":"EC","crv":"P-384","x":"AQ","y":"AQ"`, `"kty":"EC","crv":"P-521","x":"AQ","y":"AQ"`, `"kty":"EC","crv":"P-521","x":"AA","y":"AA"`,
	`"kty":"EC","crv":"P-999","x":"AQ","y":"AQ"`, `"kty":"EC","crv":7,"x":"AQ","y":"AQ"`, `"kty":"EC","crv":null,"x":null,"y":null`, `"kty":"EC","x":"AQ","y":"AQ"`,
	`"kty":"EC","crv":"P-256","x":"` + strings.Repeat("_w", 200) + `","y":"AQ"`, `"kty":"EC","crv":"P-256","x":"AQ","y":"AQ","d":"AQ"`, `"kty":"EC","crv":"P-256","d":"AQ"`,
	`"kty":"oct","k":"AAAA"`, `"kty":"oct","k":""`, `"kty":"oct"`, `"kty":"OKP","crv":"Ed25519","x":"AAAA"`, `"kty":"XYZ"`, `"kty":""`,
	`"kty":"RSA","n":"AQ","e":"AQAB","x5c":"AAAA"`, `"kty":"RSA","n":"AQ","e":"AQAB","x5c":["!!"]`, `"kty":"RSA","n":"AQ","e":"AQAB","x5c":[null]`, `"kty":"RSA","n":"AQ","e":"AQAB","key_ops":5`,
	`"alg":"none","kty":"RSA"`,
}

// rawClaims are claims documents off the beaten track; a $ stands for an hour from now. V is what their dates
// amount to (1 good, -1 bad, 0 a matter of opinion).
var rawClaims = []struct {
	Doc string
	V   int
}{
	{`{"exp":$}`, 1},
	{`{"exp":$.75,"nbf":1.5,"iat":0.5}`, 1},
	{`{"exp":99999999999}`, 1},
	{`{"nbf":1,"iat":1}`, 1},
	{`{"nbf":0,"iat":0,"exp":$}`, 1},
	{`{"nbf":-5}`, 1},
	{`{"aud":["a","b"],"iss":"x","jti":"1","exp":$,"x":{"y":[1,2,{"z":null}]}}`, 1},
	{`{}`, 1},
	{" {\n\t\"exp\" : $ } ", 1},
	{`{"big":"` + strings.Repeat("claims", 3000) + `","exp":$}`, 1},
	{`{"exp":0}`, -1},
	{`{"exp":1}`, -1},
	{`{"exp":2,"iat":1}`, -1},
	{`{"exp":-5}`, -1},
	{`{"exp":-99999999999}`, -1},
	{`{"exp":1.5}`, -1},
	{`{"nbf":99999999999}`, -1},
	{`{"iat":99999999999}`, -1},
	{`{"exp":$,"nbf":99999999999}`, -1},
	{`{"exp":"1"}`, -1},
	{`{"exp":true}`, -1},
	{`{"exp":[1]}`, -1},
	{`{"exp":{"a":1}}`, -1},
	{`{"exp":"soon"}`, -1},
	{`[]`, -1},
	{`"exp"`, -1},
	{`5`, -1},
	{``, -1},
	{`{"exp":$`, -1},
	{`not json`, -1},
	{"\x00\xff\xfe", -1},
	{`null`, 0},
	{`{"exp":null}`, 0},
	{`{"exp":"$"}`, 0},
	{`{"exp":99999999999999999999}`, 0},
	{`{"exp":1e300}`, 0},
	{`{"exp":1,"exp":$}`, 0},
	{`{"aud":5}`, 0},
	{`{"iss":7,"sub":[],"jti":{}}`, 0},
	{strings.Repeat(`{"a":`, 4000) + "1" + strings.Repeat("}", 4000), 0},
	{strings.Repeat("[", 9000), -1},
}

func mint(rid int, t *TokSpec, rec *ReqRec) string {
	h := map[string]any{"typ": "JWT", "alg": t.Alg}
	if t.Kid != "" {
		h["kid"] = t.Kid
	}
	w := wallNow()
	cl := map[string]any{"sub": fmt.Sprintf("user%d", rid), "rid": rid}
	if t.Exp != nil {
		cl["exp"] = w + *t.Exp
		rec.TokExp = w + *t.Exp
	}
	if t.Nbf != nil {
		cl["nbf"] = w + *t.Nbf
		rec.TokNbf = w + *t.Nbf
	}
	if t.Iat != nil {
		cl["iat"] = w + *t.Iat
		rec.TokIat = w + *t.Iat
	}
	switch t.Mangle {
	case "hdr_kid":
		h["kid"] = []any{1, map[string]any{"kid": nil}, true, 1.5, []any{"a"}, nil}[rid%6]
	case "hdr_alg":
		h["alg"] = []any{5, nil, true, "", "RS999", []any{t.Alg}}[rid%6]
	case "hdr_none":
		h["alg"] = []any{"none", "None", "NONE"}[rid%3]
	case "hdr_jwk":
		if isHS(t.Alg) {
			h["jwk"] = map[string]any{"kty": "oct", "k": b64([]byte(t.Key)), "alg": t.Alg, "kid": t.Kid}
		} else {
			h["jwk"] = jwkJSON(&JwkSpec{Key: t.Key, Kid: t.Kid, Alg: t.Alg})
		}
	case "hdr_jku":
		h["jku"] = "http://evil.example/keys"
	case "hdr_x5u":
		h["x5u"] = "https://evil.example/cert"
	case "hdr_crit":
		h["crit"] = []string{"exp", "jku"}
		h["jku"] = "http://evil.example/keys"
	}
	hb, _ := json.Marshal(h)
	switch t.Mangle {
	case "hdr_arr":
		hb = []byte([]string{"[]", "null", "{}", "5", "", strings.Repeat("[", 9000)}[rid%6])
	}
	cb, _ := json.Marshal(cl)
	if t.Raw > 0 {
		rec.TokExp = w + 3600
		cb = []byte(strings.ReplaceAll(rawClaims[t.Raw-1].Doc, "$", fmt.Sprint(w+3600)))
	}
	in := b64(hb) + "." + b64(cb)
	if t.Alg == "none" {
		return in + "."
	}
	sig := sign(t.Alg, t.Key, []byte(in))
	switch t.Mangle {
	case "sig":
		sig[len(sig)/2] ^= 1
	case "claims":
		cl["admin"] = true
		cb, _ = json.Marshal(cl)
		in = b64(hb) + "." + b64(cb)
	case "exp":
		cl["exp"] = w + 1000000
		cb, _ = json.Marshal(cl)
		in = b64(hb) + "." + b64(cb)
	case "nosig":
		return in + "."
	case "twoparts":
		return in
	case "garbage":
		return "not.a.token"
	case "onepart":
		return "xyzzy"
	case "badb64":
		return in + ".%%%"
	case "json":
		return fmt.Sprintf(`{"payload":"%s","protected":"%s","signature":"%s"}`, b64(cb), b64(hb), b64(sig))
	case "json2":
		return fmt.Sprintf(`{"payload":"%s","signatures":[{"protected":"%s","signature":"AAAA"},{"protected":"%s","signature":"%s"}]}`, b64(cb), b64(hb), b64(hb), b64(sig[1:]))
	case "jsonbad":
		return []string{`{"payload":5}`, `{"payload":"","signatures":[]}`, `{}`, `{"payload":"e30","signatures":[null]}`, `{"payload":"e30","protected":7,"signature":[]}`, `{"payload":"e30","signatures":[{"header":{}}]}`}[rid%6]
	case "fourparts":
		return in + "." + b64(sig) + ".AAAA"
	case "dots":
		return []string{"....", "..", "a..b", "...", in + "..", "." + in}[rid%6]
	case "long":
		return strings.Repeat("A", 60000) + "." + b64(cb) + "." + b64(sig)
	case "trunc":
		s := in + "." + b64(sig)
		return s[:len(s)/2]
	}
	return in + "." + b64(sig)
}
