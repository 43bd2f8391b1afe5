From 6d22fb733ad2f7487cd4017fdf7008d5f5ccd692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:22 +0000
Subject: [PATCH 01/31] fix: compile route paths after they were given their
 leading slash

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index ccb4004..56a3ff9 100644
--- a/server.go
+++ b/server.go
@@ -64,9 +64,9 @@ func BootStrap() {
 		reApplyResourceSchemes().
 		reApplyResourceNames().
 		validateJwt().
+		validateRoutes().
 		compileRoutePaths().
 		compileRouteTransforms().
-		validateRoutes().
 		addDefaultPolicy().
 		setDefaultUpstreamParams().
 		setDefaultDownstreamParams()
-- 
2.43.0


From 3bff46348a98779c85a3d0098926d82419dc9234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:37 +0000
Subject: [PATCH 02/31] fix: label gzipped error documents with their
 Content-Encoding

---
 server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 56a3ff9..b79a605 100644
--- a/server.go
+++ b/server.go
@@ -214,7 +214,10 @@ func (runtime Runtime) tlsConfig() *tls.Config {
 func sendStatusCodeAsJSON(proxy *Proxy) {
 	proxy.writeStandardResponseHeaders()
 	proxy.Dwn.Resp.Writer.Header().Set("Content-Type", "application/json")
-	proxy.writeContentEncodingHeader()
+	//the content length is unknown until the body is rendered below, label the encoding here.
+	if proxy.Dwn.Resp.SendGzip {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "gzip")
+	}
 
 	proxy.Dwn.Resp.Writer.WriteHeader(proxy.Dwn.Resp.StatusCode)
 
-- 
2.43.0


From 6ccb8da31502dec3c1182637dc88d9401c77f170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:37 +0000
Subject: [PATCH 03/31] fix: survive process statistics being unavailable

---
 stats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stats.go b/stats.go
index a3056e7..50ec726 100644
--- a/stats.go
+++ b/stats.go
@@ -91,6 +91,10 @@ func getSample(proc *process.Process) sample {
 	mInfo, _ := proc.MemoryInfo()
 
 	procStatsLock.Unlock()
+	if mInfo == nil {
+		//the OS may refuse this at any time, i.e. when out of file descriptors.
+		mInfo = &process.MemoryInfoStat{}
+	}
 	return sample{
 		pid:       proc.Pid,
 		cpuPc:     cpuPc,
-- 
2.43.0


From e8905e6b53a1671c9de7ecf6ab67b430240f3dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:37 +0000
Subject: [PATCH 04/31] fix: reject oversize and incomplete request bodies
 instead of forwarding them empty

---
 proxy.go        | 13 ++++++++++++-
 proxyhandler.go |  3 ++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index c07c6ca..6afd261 100644
--- a/proxy.go
+++ b/proxy.go
@@ -26,6 +26,9 @@ import (
 
 var httpUpstreamMaxAttempts int
 
+//reqBodyTooLarge is the error message of http.MaxBytesReader
+const reqBodyTooLarge = "http: request body too large"
+
 type TLSType string
 
 const (
@@ -97,7 +100,9 @@ type Down struct {
 	Aborted     <-chan struct{}
 	AbortedFlag bool
 	ReqTooLarge bool
-	startDate   time.Time
+	//ReqIncomplete is set when the request body could not be read in full
+	ReqIncomplete bool
+	startDate     time.Time
 	HttpVer     string
 	TlsVer      string
 }
@@ -267,6 +272,12 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
 			Msgf("downstream request body too large. %d body bytes > server max %d", n, Runner.Connection.Downstream.MaxBodyBytes)
 	} else if err != nil && err != io.EOF {
+		//never forward a request without its complete body
+		if err.Error() == reqBodyTooLarge {
+			proxy.Dwn.ReqTooLarge = true
+		} else {
+			proxy.Dwn.ReqIncomplete = true
+		}
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
diff --git a/proxyhandler.go b/proxyhandler.go
index a32064b..77622d4 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -77,7 +77,8 @@ func proxyHandler(response http.ResponseWriter, request *http.Request) {
 
 func validate(proxy *Proxy) bool {
 	return proxy.hasLegalHTTPMethod() &&
-		!proxy.Dwn.ReqTooLarge
+		!proxy.Dwn.ReqTooLarge &&
+		!proxy.Dwn.ReqIncomplete
 }
 
 func handle(proxy *Proxy) {
-- 
2.43.0


From 1bed2863b9d4c802d42d46ca372ba407e7aa431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:12 +0000
Subject: [PATCH 05/31] fix: keep transformed upstream paths apart from the
 upstream host

---
 proxy.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 6afd261..b7d0836 100644
--- a/proxy.go
+++ b/proxy.go
@@ -138,7 +138,12 @@ func (proxy *Proxy) resolveUpstreamURI() string {
 		if t == "/" {
 			t = ""
 		}
-		uri = proxy.Up.Atmpt.URL.String() + strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
+		path := strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
+		//without its leading slash the path would run into the upstream host and port
+		if !strings.HasPrefix(path, "/") {
+			path = "/" + path
+		}
+		uri = proxy.Up.Atmpt.URL.String() + path
 	}
 	return uri
 }
-- 
2.43.0


From febbb141b91514b61f91a289ce33fc40dd3bda90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:22 +0000
Subject: [PATCH 06/31] fix: reject bearer tokens that do not parse as JWS

verifySignature used the parsed message before looking at the error, so any
token that is not a JWS made the handler panic and the client got its
connection closed instead of a 401.
---
 proxy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy.go b/proxy.go
index b7d0836..e4e52a8 100644
--- a/proxy.go
+++ b/proxy.go
@@ -595,6 +595,9 @@ func (proxy *Proxy) verifySignature(token string, keySet KeySet, alg jwa.Signatu
 	var parsed jwt.Token
 
 	msg, err = jws.Parse(bytes.NewReader([]byte(token)))
+	if err != nil {
+		return nil, err
+	}
 	if len(msg.Signatures()) > 0 {
 		//first we try to validate by a key with the kid parameter to match.
 		kid := extractKid(token)
-- 
2.43.0


From d1c7029c2618508490dac8e1e9d3543991aed7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:22 +0000
Subject: [PATCH 07/31] fix: survive JWKS entries that are not usable EC keys

The error of key.Raw was overwritten and the bit size of the empty key checked,
a nil dereference in a goroutine of its own that ended the whole process.
---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index bbd7114..a517ecd 100644
--- a/jwt.go
+++ b/jwt.go
@@ -224,7 +224,9 @@ func (jwt *Jwt) LoadJwks() error {
 							},
 						}
 						err = key.Raw(k.Key)
-						err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						if err == nil {
+							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						}
 						if err == nil {
 							jwt.ECDSAPublic.Upsert(k)
 						}
-- 
2.43.0


From 76dd5582e380ca7cb46734575a68f3bd30d9e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:22 +0000
Subject: [PATCH 08/31] fix: give up on key servers that do not answer

jwk.Fetch without a client of its own waits for ever. One unresponsive answer
kept the lock of LoadJwks for good, so no key was ever rotated in again, and at
boot the process neither started nor exited.
---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index a517ecd..6de04c6 100644
--- a/jwt.go
+++ b/jwt.go
@@ -12,6 +12,7 @@ import (
 	"github.com/lestrrat-go/jwx/jwk"
 	"github.com/rs/zerolog/log"
 	"golang.org/x/sync/semaphore"
+	"net/http"
 	"strconv"
 	"time"
 )
@@ -80,6 +81,7 @@ const ecdsaKeySizeBad = "jwt [%s] invalid key size for alg [%s], parsed bitsize
 
 const defaultSkew = "120"
 const jwksRefreshSlowwait = time.Second * 10
+const jwksFetchTimeout = time.Second * 30
 
 func NewJwt(name string, alg string, key string, jwksUrl string, acceptableSkewSeconds string) *Jwt {
 	jwt := Jwt{
@@ -173,7 +175,7 @@ func (jwt *Jwt) LoadJwks() error {
 	//acquires the lock with true else skips
 	if jwt.lock.TryAcquire(1) {
 		var keyset *jwk.Set
-		keyset, err = jwk.Fetch(jwt.JwksUrl)
+		keyset, err = jwk.Fetch(jwt.JwksUrl, jwk.WithHTTPClient(&http.Client{Timeout: jwksFetchTimeout}))
 		if err == nil {
 			log.Debug().Msgf("jwt [%s] fetched %d jwk from jwks URL %s", jwt.Name, keyset.Len(), jwt.JwksUrl)
 		} else {
-- 
2.43.0


From 5ce291983547a8f72e96d89043385e4de40fb881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:22 +0000
Subject: [PATCH 09/31] fix: replace rotated keys in the key set

Upsert changed a copy of the entry, so a key published again under a known kid
was never taken over.
---
 jwt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jwt.go b/jwt.go
index 6de04c6..fd4bdc7 100644
--- a/jwt.go
+++ b/jwt.go
@@ -21,9 +21,9 @@ type KeySet []KidPair
 
 func (ks *KeySet) Upsert(kp KidPair) {
 	updated := false
-	for _, k := range *ks {
+	for i, k := range *ks {
 		if k.Kid == kp.Kid {
-			k.Key = kp.Key
+			(*ks)[i].Key = kp.Key
 			updated = true
 		}
 	}
-- 
2.43.0


From ca6d0d7cf9d681f156ed28fa2c225eb7d52b6fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:50 +0000
Subject: [PATCH 10/31] fix: do not reseed the shared random source on every
 /about

Policies draw from the same source. Reseeding it with the time in seconds made
all requests that followed an /about within a second take the same decision.
---
 responses.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/responses.go b/responses.go
index b983b15..8dca19c 100644
--- a/responses.go
+++ b/responses.go
@@ -147,8 +147,9 @@ func (statusCodeResponse StatusCodeResponse) AsString() string {
 }
 
 func randomHuttese() string {
-	rand.Seed(time.Now().Unix())
-	return huttese[rand.Int()%len(huttese)]
+	//a source of its own, reseeding the shared one would skew policy decisions
+	rnd := rand.New(rand.NewSource(time.Now().Unix()))
+	return huttese[rnd.Int()%len(huttese)]
 }
 
 func aboutHandler(w http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From d947ad42e83d5c7a1e5a22e35a27a5f8aa74761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:50 +0000
Subject: [PATCH 11/31] fix: do not sort a shared policy while requests resolve
 it

Concurrent requests swapped the entries of the one slice under each other's
feet, losing labels and duplicating others for good.
---
 policy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/policy.go b/policy.go
index a2603e7..f0f6041 100644
--- a/policy.go
+++ b/policy.go
@@ -28,7 +28,9 @@ func (policy Policy) Less(i, j int) bool {
 //resolve a label inside a policy
 func (policy Policy) resolveLabel() string {
 	dice := rand.Float64()
-	sort.Sort(Policy(policy))
+	//requests resolve concurrently, never sort the shared slice
+	policy = append(Policy{}, policy...)
+	sort.Sort(policy)
 	var cw []float64
 	//add up cumulative weights 0 < w < 1
 	for i := 1; i <= len(policy); i++ {
-- 
2.43.0


From 30cc8195af7d4c71b51c0d60f0cc0f77dda58a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:17 +0000
Subject: [PATCH 12/31] fix: refuse to start from a configuration file that
 could not be read

The error of reading it was dropped and whatever had been read until then was
served, for instance without the jwt of a route.
---
 config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 4ac0c52..4860941 100644
--- a/config.go
+++ b/config.go
@@ -85,7 +85,10 @@ func (config Config) readYmlFile(file string) *Config {
 		log.Fatal().Msg(msg)
 		panic(msg)
 	}
-	byteValue, _ := ioutil.ReadAll(f)
+	byteValue, err := ioutil.ReadAll(f)
+	if err != nil {
+		config.panic(fmt.Sprintf("unable to read config from %s, cause: %v,", file, err))
+	}
 	return config.parse(byteValue)
 }
 
-- 
2.43.0


From f70887515ec68dd4bd98a08ed03afdad4e81878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:45 +0000
Subject: [PATCH 13/31] fix: refuse to start from a configuration that does not
 parse

Errors of the YAML and JSON decoders were dropped. A value of the wrong type,
such as a number for the jwt of a route, silently lost that setting and the
route was served without it.
---
 config.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index 4860941..1606914 100644
--- a/config.go
+++ b/config.go
@@ -93,8 +93,13 @@ func (config Config) readYmlFile(file string) *Config {
 }
 
 func (config Config) parse(yml []byte) *Config {
-	jsn, _ := yaml.YAMLToJSON(yml)
-	json.Unmarshal(jsn, &config)
+	jsn, err := yaml.YAMLToJSON(yml)
+	if err == nil {
+		err = json.Unmarshal(jsn, &config)
+	}
+	if err != nil {
+		config.panic(fmt.Sprintf("unable to parse config, cause: %v,", err))
+	}
 	return &config
 }
 
-- 
2.43.0


From a8f5c638523b60457a297f4090a4f126e8adb01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:01 +0000
Subject: [PATCH 14/31] fix: pass damaged gzip bodies on as they are instead of
 what decoded of them

---
 gzip.go  | 18 +++++++++++++-----
 proxy.go | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/gzip.go b/gzip.go
index b9f5533..a7243b9 100644
--- a/gzip.go
+++ b/gzip.go
@@ -44,14 +44,22 @@ func Gzip(input []byte) *[]byte {
 
 // Gunzip a []byte
 func Gunzip(input []byte) *[]byte {
+	dec, _ := gunzip(input)
+	return &dec
+}
+
+// gunzip a []byte and tell if it was damaged or incomplete.
+func gunzip(input []byte) ([]byte, error) {
 	rd, _ := unzipPool.Get().(*gzip.Reader)
-	buf := bytes.NewBuffer(input)
-	_ = rd.Reset(buf)
+	defer unzipPool.Put(rd)
 
-	dec, _ := ioutil.ReadAll(rd)
+	err := rd.Reset(bytes.NewBuffer(input))
+	if err != nil {
+		return nil, err
+	}
+	dec, err := ioutil.ReadAll(rd)
 	_ = rd.Close()
-	defer unzipPool.Put(rd)
 
 	log.Trace().Msgf("unzipped byte buffer size %d", len(dec))
-	return &dec
+	return dec, err
 }
diff --git a/proxy.go b/proxy.go
index e4e52a8..dd20e50 100644
--- a/proxy.go
+++ b/proxy.go
@@ -428,8 +428,7 @@ func (proxy *Proxy) encodeUpstreamResponseBody() {
 			scaffoldUpAttemptLog(proxy).
 				Msg("copying upstream body with gzip re-encoding")
 		} else {
-			if proxy.shouldGzipDecodeResponseBody() {
-				proxy.Dwn.Resp.Body = Gunzip(*proxy.Up.Atmpt.respBody)
+			if proxy.shouldGzipDecodeResponseBody() && proxy.gunzipUpstreamResponseBody() {
 				scaffoldUpAttemptLog(proxy).
 					Msg("copying upstream body with gzip re-decoding")
 			} else {
@@ -447,6 +446,18 @@ func (proxy *Proxy) encodeUpstreamResponseBody() {
 	}
 }
 
+//decode the upstream body for downstream. a body that does not decode is not touched, it must be passed on as is
+//under it's own content encoding so downstream can tell it is damaged.
+func (proxy *Proxy) gunzipUpstreamResponseBody() bool {
+	dec, err := gunzip(*proxy.Up.Atmpt.respBody)
+	if err != nil {
+		proxy.Up.Atmpt.isGzip = false
+		return false
+	}
+	proxy.Dwn.Resp.Body = &dec
+	return true
+}
+
 func (proxy *Proxy) contentEncoding() string {
 	ce := "identity"
 	if proxy.Dwn.Resp.SendGzip {
-- 
2.43.0


From 76f0e7464996705a7683538dbd7a2896c7f02d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:22 +0000
Subject: [PATCH 15/31] fix: pass on upstream bodies in other content encodings
 unchanged

---
 proxy.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index dd20e50..a7d776c 100644
--- a/proxy.go
+++ b/proxy.go
@@ -460,7 +460,8 @@ func (proxy *Proxy) gunzipUpstreamResponseBody() bool {
 
 func (proxy *Proxy) contentEncoding() string {
 	ce := "identity"
-	if proxy.Dwn.Resp.SendGzip {
+	//documents of our own have no response body set here
+	if proxy.Dwn.Resp.SendGzip && (proxy.Dwn.Resp.Body == nil || !proxy.hasForeignContentEncoding()) {
 		ce = "gzip"
 	} else if proxy.hasMadeUpstreamAttempt() && !proxy.shouldGzipDecodeResponseBody() {
 		ceA := proxy.Up.Atmpt.resp.Header[contentEncoding]
@@ -534,7 +535,16 @@ func (proxy *Proxy) hasLegalHTTPMethod() bool {
 }
 
 func (proxy *Proxy) shouldGzipEncodeResponseBody() bool {
-	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip
+	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip && !proxy.hasForeignContentEncoding()
+}
+
+//upstream bodies in a content encoding other than gzip are passed on as they are.
+func (proxy *Proxy) hasForeignContentEncoding() bool {
+	if !proxy.hasMadeUpstreamAttempt() || proxy.Up.Atmpt.isGzip {
+		return false
+	}
+	ce := strings.TrimSpace(proxy.Up.Atmpt.resp.Header.Get(contentEncoding))
+	return len(ce) > 0 && !strings.EqualFold(ce, "identity") && !strings.EqualFold(ce, "gzip")
 }
 
 func (proxy *Proxy) shouldGzipDecodeResponseBody() bool {
-- 
2.43.0


From 48a7eb5e6a7db0b67c8fb91534d049e7f815c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:37 +0000
Subject: [PATCH 16/31] fix: survive certificate serial numbers with a leading
 zero nibble in the TLS health check

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index 1654702..eaaafb8 100644
--- a/tls.go
+++ b/tls.go
@@ -106,7 +106,7 @@ func verifyOptions(inter *x509.CertPool, root *x509.CertPool) x509.VerifyOptions
 
 func formatSerial(serial *big.Int) string {
 	hex := fmt.Sprintf("%X", serial)
-	if len(hex) == 1 || len(hex) == 31 {
+	if len(hex)%2 == 1 {
 		hex = "0" + hex
 	}
 	if len(hex) > 2 {
-- 
2.43.0


From c607747fdfca0fc4720758e466c27f275a5f0456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:19 +0000
Subject: [PATCH 17/31] fix: keep aborted upstream attempts from writing into
 the attempt that follows

---
 proxyhandler.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 77622d4..cfa333b 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -145,8 +145,9 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 }
 
 func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
-	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
+	//get a reference to this before any race conditions may occur. the goroutine below can outlive
+	//an aborted attempt and must not touch the one that follows.
+	atmpt := proxy.Up.Atmpt
 	req := scaffoldUpstreamRequest(proxy)
 	var upstreamResponse *http.Response
 	var upstreamError error
@@ -154,21 +155,21 @@ func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
 	go func() {
 		//this blocks until upstream headers come in
 		upstreamResponse, upstreamError = httpClient.Do(req)
-		proxy.Up.Atmpt.resp = upstreamResponse
+		atmpt.resp = upstreamResponse
 
 		defer func() {
 			if err := recover(); err != nil {
 				log.Trace().
 					Str("error", fmt.Sprintf("error: %v", err)).
 					Str(XRequestID, proxy.XRequestID).
-					Int64("upAtmptElapsedMicros", time.Since(proxy.Up.Atmpt.startDate).Microseconds()).
-					Str("upAtmpt", proxy.Up.Atmpt.print()).
+					Int64("upAtmptElapsedMicros", time.Since(atmpt.startDate).Microseconds()).
+					Str("upAtmpt", atmpt.print()).
 					Msgf("safe to ignore. recovered internally from closed header success channel after request already handled.")
 			}
 		}()
 
-		if proxy.Up.Atmpts[attemptIndex].CompleteHeader != nil && !proxy.Up.Atmpts[attemptIndex].AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteHeader)
+		if atmpt.CompleteHeader != nil && !atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
+			close(atmpt.CompleteHeader)
 		}
 	}()
 
@@ -198,14 +199,14 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 	var upstreamResponseBody []byte
 	var bodyError error
 
-	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
+	//get a reference to this before any race conditions may occur. see above
+	atmpt := proxy.Up.Atmpt
 
 	go func() {
-		proxy.Up.Atmpt.StatusCode = upstreamResponse.StatusCode
+		atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
 		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 {
-			proxy.Up.Atmpt.isGzip = true
+			atmpt.isGzip = true
 		}
 
 		defer func() {
@@ -216,8 +217,8 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 		}()
 
 		//this is ok, see: https://stackoverflow.com/questions/8593645/is-it-ok-to-leave-a-channel-open#:~:text=5%20Answers&text=It's%20OK%20to%20leave%20a,it%20will%20be%20garbage%20collected.&text=Closing%20the%20channel%20is%20a,that%20no%20more%20data%20follows.
-		if proxy.Up.Atmpt.CompleteBody != nil && !proxy.Up.Atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteBody)
+		if atmpt.CompleteBody != nil && !atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
+			close(atmpt.CompleteBody)
 		}
 	}()
 
-- 
2.43.0


From 6d74d57f532a844bc88f6d8c0a1d22da6e54b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:38 +0000
Subject: [PATCH 18/31] fix: route requests whose target is in absolute form

---
 route.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/route.go b/route.go
index 7bcdbf1..1d70a10 100644
--- a/route.go
+++ b/route.go
@@ -34,10 +34,15 @@ type Route struct {
 
 func (route Route) matchURI(request *http.Request) bool {
 	matched := false
+	uri := request.RequestURI
+	//the request target may be in absolute form, see RFC7230, section 5.3.2
+	if request.URL != nil && request.URL.IsAbs() {
+		uri = request.URL.RequestURI()
+	}
 	if route.PathRegex != nil {
-		matched = route.PathRegex.MatchString(request.RequestURI)
+		matched = route.PathRegex.MatchString(uri)
 	} else {
-		matched, _ = regexp.MatchString("^"+route.Path, request.RequestURI)
+		matched, _ = regexp.MatchString("^"+route.Path, uri)
 	}
 
 	return matched
-- 
2.43.0


From f63127e2fc6d1b223f193c6bd2d0c9c835712f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:38 +0000
Subject: [PATCH 19/31] fix: leave upstream bodies that merely start like gzip
 as they are

---
 proxyhandler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index cfa333b..2c5afc8 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -205,7 +205,9 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 	go func() {
 		atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
-		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 {
+		//without its label, a body starting with these bytes is a document like any other, i.e. a .gz archive.
+		ce := strings.TrimSpace(upstreamResponse.Header.Get(contentEncoding))
+		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 && strings.EqualFold(ce, "gzip") {
 			atmpt.isGzip = true
 		}
 
-- 
2.43.0


From bfc16106a7c5e00f8a3af95f9feb944d96fbb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:33 +0000
Subject: [PATCH 20/31] fix: do not gzip for clients that refuse it with a
 quality value of 0

---
 gzip.go      | 20 ++++++++++++++++++++
 proxy.go     |  2 +-
 responses.go |  3 +--
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/gzip.go b/gzip.go
index a7243b9..ff874d3 100644
--- a/gzip.go
+++ b/gzip.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"compress/gzip"
 	"io/ioutil"
+	"strconv"
+	"strings"
 	"sync"
 
 	"github.com/rs/zerolog/log"
@@ -63,3 +65,21 @@ func gunzip(input []byte) ([]byte, error) {
 	log.Trace().Msgf("unzipped byte buffer size %d", len(dec))
 	return dec, err
 }
+
+// tell if gzip is acceptable, a quality value of 0 means not acceptable. RFC7231, section 5.3.4
+func acceptsGzip(acceptEncoding string) bool {
+	for _, coding := range strings.Split(acceptEncoding, ",") {
+		params := strings.Split(coding, ";")
+		if !strings.Contains(params[0], "gzip") {
+			continue
+		}
+		for _, param := range params[1:] {
+			param = strings.ToLower(strings.TrimSpace(param))
+			if q, err := strconv.ParseFloat(strings.TrimPrefix(param, "q="), 64); err == nil && q == 0 {
+				return false
+			}
+		}
+		return true
+	}
+	return false
+}
diff --git a/proxy.go b/proxy.go
index a7d776c..39f57d9 100644
--- a/proxy.go
+++ b/proxy.go
@@ -226,7 +226,7 @@ func (proxy *Proxy) parseIncoming(request *http.Request) *Proxy {
 	proxy.Dwn.Req = request
 
 	proxy.Dwn.AbortedFlag = false
-	proxy.Dwn.Resp.SendGzip = strings.Contains(request.Header.Get("Accept-Encoding"), "gzip")
+	proxy.Dwn.Resp.SendGzip = acceptsGzip(request.Header.Get("Accept-Encoding"))
 
 	log.Trace().
 		Str("path", proxy.Dwn.Path).
diff --git a/responses.go b/responses.go
index 8dca19c..2096c5a 100644
--- a/responses.go
+++ b/responses.go
@@ -164,8 +164,7 @@ func aboutHandler(w http.ResponseWriter, r *http.Request) {
 	res := AboutResponse{}.AsJSON()
 	w.Header().Set("Content-Type", "application/json")
 	if len(ae) > 0 {
-		s := strings.Join(ae, " ")
-		if strings.Contains(s, "gzip") {
+		if acceptsGzip(strings.Join(ae, ",")) {
 			w.Header().Set("Content-Encoding", "gzip")
 			res = *Gzip(res)
 			w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
-- 
2.43.0


From 69491f42cbae831a761ea24e6116712f0e9e78a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:54 +0000
Subject: [PATCH 21/31] fix: pass bodies labelled gzip that are not gzip on
 under their own label

---
 proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 39f57d9..3f3500a 100644
--- a/proxy.go
+++ b/proxy.go
@@ -544,7 +544,7 @@ func (proxy *Proxy) hasForeignContentEncoding() bool {
 		return false
 	}
 	ce := strings.TrimSpace(proxy.Up.Atmpt.resp.Header.Get(contentEncoding))
-	return len(ce) > 0 && !strings.EqualFold(ce, "identity") && !strings.EqualFold(ce, "gzip")
+	return len(ce) > 0 && !strings.EqualFold(ce, "identity")
 }
 
 func (proxy *Proxy) shouldGzipDecodeResponseBody() bool {
-- 
2.43.0


From 1709b31fea11ca37bb20d7380637781eced302b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 22/31] fix: treat several Content-Encoding headers as one list
 of codings

---
 proxy.go        | 12 ++++++++----
 proxyhandler.go |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/proxy.go b/proxy.go
index 3f3500a..2d4a029 100644
--- a/proxy.go
+++ b/proxy.go
@@ -464,9 +464,8 @@ func (proxy *Proxy) contentEncoding() string {
 	if proxy.Dwn.Resp.SendGzip && (proxy.Dwn.Resp.Body == nil || !proxy.hasForeignContentEncoding()) {
 		ce = "gzip"
 	} else if proxy.hasMadeUpstreamAttempt() && !proxy.shouldGzipDecodeResponseBody() {
-		ceA := proxy.Up.Atmpt.resp.Header[contentEncoding]
-		if len(ceA) > 0 {
-			ce = strings.Join(ceA, " ")
+		if ceA := upstreamContentEncoding(proxy.Up.Atmpt.resp.Header); len(ceA) > 0 {
+			ce = ceA
 		}
 	}
 
@@ -538,12 +537,17 @@ func (proxy *Proxy) shouldGzipEncodeResponseBody() bool {
 	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip && !proxy.hasForeignContentEncoding()
 }
 
+//several content encoding headers are one list of codings, see RFC7230, section 3.2.2
+func upstreamContentEncoding(header http.Header) string {
+	return strings.TrimSpace(strings.Join(header.Values(contentEncoding), ", "))
+}
+
 //upstream bodies in a content encoding other than gzip are passed on as they are.
 func (proxy *Proxy) hasForeignContentEncoding() bool {
 	if !proxy.hasMadeUpstreamAttempt() || proxy.Up.Atmpt.isGzip {
 		return false
 	}
-	ce := strings.TrimSpace(proxy.Up.Atmpt.resp.Header.Get(contentEncoding))
+	ce := upstreamContentEncoding(proxy.Up.Atmpt.resp.Header)
 	return len(ce) > 0 && !strings.EqualFold(ce, "identity")
 }
 
diff --git a/proxyhandler.go b/proxyhandler.go
index 2c5afc8..5b93c43 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -206,7 +206,7 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 		atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
 		//without its label, a body starting with these bytes is a document like any other, i.e. a .gz archive.
-		ce := strings.TrimSpace(upstreamResponse.Header.Get(contentEncoding))
+		ce := upstreamContentEncoding(upstreamResponse.Header)
 		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 && strings.EqualFold(ce, "gzip") {
 			atmpt.isGzip = true
 		}
-- 
2.43.0


From a132bce9966087456983c12b75ce04ab3ba209e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 23/31] fix: do not ask upstreams for gzip when the client did
 not

---
 httpclient.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httpclient.go b/httpclient.go
index 5c94500..9a48a0d 100644
--- a/httpclient.go
+++ b/httpclient.go
@@ -38,6 +38,8 @@ func scaffoldHTTPClient(runtime Runtime) HTTPClient {
 			MaxIdleConns:        runtime.Connection.Upstream.PoolSize,
 			MaxIdleConnsPerHost: runtime.Connection.Upstream.PoolSize,
 			IdleConnTimeout:     idleConnTimeoutDuration,
+			//codings are negotiated between downstream and upstream and decoded by us where necessary.
+			DisableCompression: true,
 		},
 		//Timeout: readTimeoutDuration, don't use this anymore, proxyHandler now has it built-in
 		CheckRedirect: func(req *http.Request, via []*http.Request) error {
-- 
2.43.0


From 79f6abd2265351e55a5598b266c823bc1cfa31c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 24/31] fix: do not add a user agent to requests that have none

---
 proxyhandler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxyhandler.go b/proxyhandler.go
index 5b93c43..6a4e144 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -139,6 +139,10 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 			}
 		}
 	}
+	if _, ok := upstreamRequest.Header["User-Agent"]; !ok {
+		//keeps the http client from sending its own
+		upstreamRequest.Header.Set("User-Agent", "")
+	}
 	upstreamRequest.Header.Set(XRequestID, proxy.XRequestID)
 
 	return upstreamRequest
-- 
2.43.0


From 0a6b0e471352253ea8aecded6358ae08a5c0e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:29 +0000
Subject: [PATCH 25/31] fix: apply acceptable skews of weeks to iat and nbf
 claims

---
 proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index 2d4a029..3a052aa 100644
--- a/proxy.go
+++ b/proxy.go
@@ -709,10 +709,10 @@ func verifyDateClaims(token string, skew int) error {
 	//so i need to parse it again.
 	skewed, _ := jwt.Parse(bytes.NewReader([]byte(token)))
 
-	if skewed.IssuedAt().Unix() > int64(skew*1000) {
+	if skewed.IssuedAt().Unix() > int64(skew) {
 		skewed.Set("iat", skewed.IssuedAt().Add(-time.Second*time.Duration(skew)))
 	}
-	if skewed.NotBefore().Unix() > int64(skew*1000) {
+	if skewed.NotBefore().Unix() > int64(skew) {
 		skewed.Set("nbf", skewed.NotBefore().Add(-time.Second*time.Duration(skew)))
 	}
 	if skewed.Expiration().Unix() > 1 {
-- 
2.43.0


From 82865ffaddd3dae5b344351d7d8cbb8248c0e615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:15 +0000
Subject: [PATCH 26/31] fix: reject bearer tokens in JSON serialization, they
 can crash the JWS parser

---
 proxy.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index 3a052aa..d6fe5c0 100644
--- a/proxy.go
+++ b/proxy.go
@@ -568,7 +568,9 @@ func (proxy *Proxy) validateJwt() bool {
 	auth := proxy.Dwn.Req.Header.Get(Authorization)
 	bearer := strings.Split(auth, Sep)
 
-	if len(bearer) > 1 {
+	//jwt are always in compact serialization, see RFC7519, section 1. the jws parser takes JSON as well but does not
+	//survive everything it finds in there.
+	if len(bearer) > 1 && !strings.Contains(bearer[1], "{") {
 		token = bearer[1]
 		routeSec := Runner.Jwt[proxy.Route.Jwt]
 		alg := *new(jwa.SignatureAlgorithm)
@@ -601,7 +603,7 @@ func (proxy *Proxy) validateJwt() bool {
 
 		ok = parsed != nil && err == nil
 	} else {
-		err = errors.New("jwt bearer token not present")
+		err = errors.New("jwt bearer token not present or not in compact serialization")
 	}
 
 	if ok {
-- 
2.43.0


From 46efa22ab529a5ab66cdaf8d050cff524631b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:33 +0000
Subject: [PATCH 27/31] fix: do not let unusable keys of a key set replace good
 ones

---
 jwt.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/jwt.go b/jwt.go
index fd4bdc7..0c97736 100644
--- a/jwt.go
+++ b/jwt.go
@@ -77,6 +77,8 @@ const noneWithKeyData = "jwt [%s] none type signature does not allow key data, c
 const missingKeyOrJwks = "jwt [%s] alg [%s] must specify one of key or jwksUrl"
 const skewInvalid = "jwt [%s] acceptable skew seconds, must be 0 or greater, was %s"
 
+const rsaKeyBad = "jwt [%s] invalid RSA public key for alg [%s], parsed bitsize %d, check your jwks"
+const ecdsaKeyBad = "jwt [%s] invalid ECDSA public key for alg [%s], point is not on the curve, check your jwks"
 const ecdsaKeySizeBad = "jwt [%s] invalid key size for alg [%s], parsed bitsize %d, check your configuration"
 
 const defaultSkew = "120"
@@ -212,6 +214,9 @@ func (jwt *Jwt) LoadJwks() error {
 							},
 						}
 						err = key.Raw(k.Key)
+						if err == nil {
+							err = jwt.checkRSAPublic(alg, k.Key.(*rsa.PublicKey))
+						}
 						if err == nil {
 							jwt.RSAPublic.Upsert(k)
 						}
@@ -229,6 +234,9 @@ func (jwt *Jwt) LoadJwks() error {
 						if err == nil {
 							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
 						}
+						if err == nil {
+							err = jwt.checkECDSAPoint(alg, k.Key.(*ecdsa.PublicKey))
+						}
 						if err == nil {
 							jwt.ECDSAPublic.Upsert(k)
 						}
@@ -385,6 +393,22 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 	return err
 }
 
+//no signature ever verifies with a key like this.
+func (jwt *Jwt) checkRSAPublic(alg jwa.SignatureAlgorithm, parsed *rsa.PublicKey) error {
+	if parsed.N.BitLen() < 512 || parsed.N.Bit(0) == 0 || parsed.E < 3 || parsed.E&1 == 0 {
+		return errors.New(fmt.Sprintf(rsaKeyBad, jwt.Name, alg, parsed.N.BitLen()))
+	}
+	return nil
+}
+
+//the same goes for points that are not on their curve.
+func (jwt *Jwt) checkECDSAPoint(alg jwa.SignatureAlgorithm, parsed *ecdsa.PublicKey) error {
+	if !parsed.Curve.IsOnCurve(parsed.X, parsed.Y) {
+		return errors.New(fmt.Sprintf(ecdsaKeyBad, jwt.Name, alg))
+	}
+	return nil
+}
+
 func (jwt *Jwt) checkECDSABitSize(alg jwa.SignatureAlgorithm, parsed *ecdsa.PublicKey) error {
 	bitsize := parsed.Curve.Params().BitSize
 
-- 
2.43.0


From 787c01980c0217cbdc646bca10ab08e8cd2efa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 28/31] fix: keep the http client from repeating requests with
 an idempotency key by itself

---
 proxyhandler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proxyhandler.go b/proxyhandler.go
index 6a4e144..92dae83 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -139,6 +139,13 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 			}
 		}
 	}
+	for _, key := range []string{"Idempotency-Key", "X-Idempotency-Key"} {
+		//the http client repeats requests that carry these by itself, even POST, but only knows them by this spelling
+		if values, ok := upstreamRequest.Header[key]; ok {
+			delete(upstreamRequest.Header, key)
+			upstreamRequest.Header[strings.ToLower(key)] = values
+		}
+	}
 	if _, ok := upstreamRequest.Header["User-Agent"]; !ok {
 		//keeps the http client from sending its own
 		upstreamRequest.Header.Set("User-Agent", "")
-- 
2.43.0


From 461879faa48a3dc2dd182ffe61d3eb00e0f58619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:29 +0000
Subject: [PATCH 29/31] fix: answer 503 on routes whose resource lists no
 upstream

---
 route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/route.go b/route.go
index 1d70a10..fd8d6d7 100644
--- a/route.go
+++ b/route.go
@@ -58,7 +58,7 @@ func (route Route) mapURL(proxy *Proxy) (*URL, string, bool) {
 	}
 
 	resource := Runner.Resources[route.Resource]
-	if resource == nil {
+	if len(resource) == 0 {
 		return nil, "", false
 	}
 	//if a policy exists, we match resources with a label. TODO: this should be an interface
-- 
2.43.0


From e8e071f6cf39f802b98a5cef20e835d8148f99ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:26 +0000
Subject: [PATCH 30/31] fix: do not relay upstream answers without a final
 status

---
 proxyhandler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxyhandler.go b/proxyhandler.go
index 92dae83..a702d9e 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -293,6 +293,8 @@ func shouldProxyUpstreamResponse(proxy *Proxy, bodyError error) bool {
 	return !proxy.hasDownstreamAborted() &&
 		!proxy.hasUpstreamAttemptAborted() &&
 		bodyError == nil &&
+		//anything below is not a final status, downstream cannot be sent one
+		proxy.Up.Atmpt.resp.StatusCode > 199 &&
 		proxy.Up.Atmpt.resp.StatusCode < 500
 }
 
-- 
2.43.0


From 7909c13824cc40ceb08a9eadf798f1b3e1b82c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:54 +0000
Subject: [PATCH 31/31] fix: do not let keys without an id replace each other

---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 0c97736..be0ed33 100644
--- a/jwt.go
+++ b/jwt.go
@@ -13,6 +13,7 @@ import (
 	"github.com/rs/zerolog/log"
 	"golang.org/x/sync/semaphore"
 	"net/http"
+	"reflect"
 	"strconv"
 	"time"
 )
@@ -22,7 +23,8 @@ type KeySet []KidPair
 func (ks *KeySet) Upsert(kp KidPair) {
 	updated := false
 	for i, k := range *ks {
-		if k.Kid == kp.Kid {
+		//keys without an id are not versions of each other
+		if k.Kid == kp.Kid && (len(kp.Kid) > 0 || reflect.DeepEqual(k.Key, kp.Key)) {
 			(*ks)[i].Key = kp.Key
 			updated = true
 		}
-- 
2.43.0

