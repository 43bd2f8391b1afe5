//go:build go1.22

// Simulated downstream clients: raw HTTP/1.1 over the simulated network, with
// a strict response parser, scripted pacing and scripted misbehaviour.

package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"net"
	"net/http"
	"net/http/httptrace"
	"strconv"
	"strings"
	"time"
)

var (
	reqByID  = map[int]*ReqPlan{}
	recs     []*ReqRec
	physConn []*clientConn
)

type clientConn struct {
	plan   *ConnPlan
	seq    int
	c      *Conn
	nc     net.Conn
	br     *bufio.Reader
	n      int
	open   int64
	last   int64 // end of the last response
	lastCl bool  // last response announced close
	dead   bool
	fin    int64
	extra  string
	tlsErr string
	tlsVer uint16
	// planned: the client meant to keep the connection idle to the end
	planned bool
	dead2   bool // the client itself ended it
}

func reqBody(id, n int) []byte {
	if n == 0 {
		return nil
	}
	r := newRng(uint64(id), 99)
	tok := fmt.Sprintf("<R%d>", id)
	var o bytes.Buffer
	for o.Len() < n {
		o.WriteString(tok)
		for i := 0; i < 14; i++ {
			o.WriteByte(byte(r.next()))
		}
	}
	if id%16 == 5 && n > 100 && n < 60000 {
		// a valid gzip document
		d := o.Bytes()[:n-23]
		z := []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255, 1}
		z = binary.LittleEndian.AppendUint16(z, uint16(len(d)))
		z = binary.LittleEndian.AppendUint16(z, ^uint16(len(d)))
		z = append(z, d...)
		z = binary.LittleEndian.AppendUint32(z, crc32.ChecksumIEEE(d))
		return binary.LittleEndian.AppendUint32(z, uint32(len(d)))
	}
	return o.Bytes()[:n]
}

func runClients() (done chan struct{}) {
	done = make(chan struct{})
	n := len(plan.Conns)
	left := n
	if n == 0 {
		close(done)
	}
	for i, cp := range plan.Conns {
		var rs []*ReqPlan
		for _, r := range plan.Reqs {
			if r.Conn == cp.ID {
				rs = append(rs, r)
			}
		}
		port := 30000 + i
		go func() {
			simSleep(cp.Start - now())
			if len(rs) > 0 && rs[0].Probe {
				calmDown()
			}
			if cp.Proto == "h2" {
				runH2(cp, rs, port)
			} else {
				runConn(cp, rs, port)
			}
			left--
			if left == 0 {
				close(done)
			}
		}()
	}
	return done
}

func clientIP(cp *ConnPlan) string {
	switch cp.ID % 9 {
	case 4:
		return fmt.Sprintf("2001:db8::%x", cp.ID+1)
	case 8:
		return fmt.Sprintf("fe80::1:%x:2:3:%x", cp.ID, cp.ID+1)
	}
	return fmt.Sprintf("10.1.%d.%d", cp.ID/200, cp.ID%200+1)
}

func dialClient(cp *ConnPlan, port int, seq int) (*clientConn, error) {
	lk := clientLink(cp)
	c, err := connectProxy(lk, clientIP(cp), port, plan.NetSeed^uint64(cp.ID)<<20^uint64(seq))
	if err != nil {
		return nil, err
	}
	cc := &clientConn{plan: cp, seq: len(physConn), c: c, nc: c, open: now(), fin: -1}
	physConn = append(physConn, cc)
	if cp.Proto == "tls" {
		pool := x509.NewCertPool()
		pool.AddCert(caCert)
		cfg := &tls.Config{RootCAs: pool, ServerName: "proxy.example", Time: func() time.Time { return certEpoch }}
		if cp.TLSMax != 0 {
			cfg.MinVersion, cfg.MaxVersion = uint16(0x0300+cp.TLSMax), uint16(0x0300+cp.TLSMax)
		}
		tc := tls.Client(c, cfg)
		c.SetDeadline(time.Now().Add(30 * time.Second))
		if err := tc.Handshake(); err != nil {
			cc.tlsErr = err.Error()
			cc.dead = true
			c.Close()
			return cc, nil
		}
		cc.tlsVer = tc.ConnectionState().Version
		c.SetDeadline(time.Time{})
		cc.nc = tc
	}
	cc.br = bufio.NewReaderSize(cc.nc, 8192)
	return cc, nil
}

func runConn(cp *ConnPlan, rs []*ReqPlan, port int) {
	var cc *clientConn
	seq := 0
	finish := func() {
		if cc == nil || cc.dead {
			return
		}
		// anything after the last response is a protocol violation
		cc.planned = true
		if cp.IdleEnd > 0 {
			cc.nc.SetReadDeadline(time.Now().Add(time.Duration(cp.IdleEnd)))
		} else {
			cc.nc.SetReadDeadline(time.Now().Add(time.Duration(2*cp.Lat + 20*ms)))
		}
		if b, err := cc.br.Peek(1); err == nil {
			cc.extra = fmt.Sprintf("unexpected bytes after the last response: %q", b)
		} else if !isTimeout(err) {
			cc.fin = now()
		}
		cc.c.Close()
		cc.dead = true
	}
	if cp.Silent {
		fired("client_silent_connection")
		var err error
		if cc, err = dialClient(cp, port, seq); err == nil && !cc.dead {
			cc.c.SetReadDeadline(time.Now().Add(maxWait()))
			if _, err := cc.br.Peek(1); err == nil {
				cc.extra = "bytes on a silent connection"
			} else if !isTimeout(err) {
				cc.fin = now()
			}
			cc.c.Close()
			cc.dead = true
		}
		return
	}
	for _, r := range rs {
		simSleep(r.Think)
		if cc != nil && !cc.dead {
			// stray bytes while idle, or the proxy hung up while idle
			cc.nc.SetReadDeadline(time.Now())
			if b, err := cc.br.Peek(1); err == nil {
				cc.extra = fmt.Sprintf("unexpected bytes between responses: %q", b)
				cc.c.Close()
				cc.dead = true
			} else if !isTimeout(err) {
				cc.fin = now()
				cc.c.Close()
				cc.dead = true
			}
			if cc.tlsVer != 0 && !cc.dead {
				cc.nc.SetReadDeadline(time.Time{})
			}
		}
		if cc == nil || cc.dead || cc.lastCl {
			if cc != nil && !cc.dead {
				finish()
			}
			var err error
			cc, err = dialClient(cp, port, seq)
			seq++
			if err != nil {
				rec := &ReqRec{P: r, C: cp, Err: "connect: " + err.Error(), T0: now()}
				recs = append(recs, rec)
				cc = nil
				continue
			}
			if cc.dead {
				rec := &ReqRec{P: r, C: cp, ConnSeq: cc.seq, Err: "tls: " + cc.tlsErr, T0: now()}
				recs = append(recs, rec)
				cc = nil
				continue
			}
		}
		doReq(cc, r)
	}
	finish()
}

func buildHead(rec *ReqRec) []byte {
	r := rec.P
	var o bytes.Buffer
	v := "1.1"
	if r.Http10 {
		v = "1.0"
	}
	target := r.URI
	if r.Abs {
		target = "http://proxy.example:8080" + r.URI
		if rec.C.Proto == "tls" {
			target = "https://proxy.example" + r.URI
		}
		fired("absolute_form_target")
	}
	fmt.Fprintf(&o, "%s %s HTTP/%s\r\nHost: proxy.example\r\n", r.Method, target, v)
	fmt.Fprintf(&o, "X-Sim-Id: %d\r\n", r.ID)
	for _, kv := range r.Hdr {
		fmt.Fprintf(&o, "%s: %s\r\n", kv[0], kv[1])
	}
	if r.Tok != nil {
		fmt.Fprintf(&o, "Authorization: %s\r\n", authHeader(r, rec))
	}
	switch r.Framing {
	case "cl":
		n := r.Body
		if r.Declared > 0 {
			n = r.Declared
		}
		fmt.Fprintf(&o, "Content-Length: %d\r\n", n)
	case "chunked":
		o.WriteString("Transfer-Encoding: chunked\r\n")
	}
	if r.Expect100 {
		o.WriteString("Expect: 100-continue\r\n")
	}
	o.WriteString("\r\n")
	return o.Bytes()
}

func doReq(cc *clientConn, r *ReqPlan) {
	rec := &ReqRec{P: r, C: cc.plan, Conn: cc, ConnSeq: cc.seq, Idx: cc.n, THdr: -1, TBody: -1, TFirst: -1, TLast: -1, PeerFin: -1, PrevEnd: cc.last, PrevCl: cc.lastCl, GoneAt: -1}
	cc.n++
	recs = append(recs, rec)
	rec.T0 = now()
	rec.WallT0 = wallNow()
	rec.Sent = true
	logEvent("send", r.ID, 0)
	head := buildHead(rec)
	body := reqBody(r.ID, r.Body)
	if r.Framing == "chunked" {
		body = chunk(body, newRng(plan.NetSeed, uint64(r.ID), 5))
	}
	kind, how := "", ""
	if r.Abort != "" {
		i := strings.IndexByte(r.Abort, '-')
		kind, how = r.Abort[:i], r.Abort[i+1:]
	}
	abort := func() {
		fired("client_abort_" + r.Abort)
		rec.Aborted = true
		switch how {
		case "rst":
			cc.c.Reset()
			cc.dead = true
			rec.Err = "aborted"
		case "fin":
			cc.c.Close()
			cc.dead = true
			rec.Err = "aborted"
		}
	}
	wr := func(b []byte) bool {
		cc.nc.SetWriteDeadline(time.Now().Add(maxWait()))
		_, err := cc.nc.Write(b)
		if err != nil && rec.SendErr == "" {
			rec.SendErr = err.Error()
		}
		return err == nil
	}
	// a reader runs alongside the sender so early answers are seen
	readDone := make(chan struct{})
	startRead := make(chan struct{})
	go func() {
		defer close(readDone)
		<-startRead
		if r.ReadDelay > 0 {
			fired("client_slow_read")
			simSleep(r.ReadDelay)
		}
		readResponse(cc, rec)
	}()
	started := false
	start := func() {
		if !started {
			started = true
			close(startRead)
		}
	}
	if cc.nc == net.Conn(cc.c) {
		cc.c.out.mark, cc.c.out.markAt = cc.c.out.total+int64(len(head)), -1
		defer func() {
			if rec.THdr >= 0 && cc.c.out.markAt >= 0 {
				rec.THdr = cc.c.out.markAt
			}
		}()
	}
	if kind == "hdr" {
		k := 1 + r.AbortAt%(len(head)-2)
		wr(head[:k])
		rec.GoneAt = -1
		abort()
		start()
		<-readDone
		rec.Extra = "prehandler" // the HTTP server answers this itself
		cc.last = now()
		if !cc.dead {
			cc.c.Close()
			cc.dead = true
		}
		return
	}
	if len(body) > 0 && r.Pieces > 1 {
		wr(head)
		rec.THdr = cc.c.arrival()
		start()
		ok := true
		stop := len(body)
		if kind == "body" {
			stop = r.AbortAt % len(body)
		}
		for i := 0; i < r.Pieces && ok; i++ {
			simSleep(r.Gap)
			if rec.Err != "" || rec.TLast >= 0 {
				break
			}
			lo, hi := stop*i/r.Pieces, stop*(i+1)/r.Pieces
			if lo < hi {
				ok = wr(body[lo:hi])
			}
		}
		if kind == "body" {
			abort()
		} else if ok {
			rec.SentAll = true
			rec.TBody = cc.c.arrival()
		}
	} else if kind == "body" && len(body) > 0 {
		wr(append(head, body[:r.AbortAt%len(body)]...))
		rec.THdr = cc.c.arrival()
		abort()
		start()
	} else {
		if r.Expect100 {
			wr(head)
			rec.THdr = cc.c.arrival()
			start()
			simSleep(30 * ms)
			wr(body)
		} else {
			wr(append(head, body...))
			rec.THdr = cc.c.arrival()
		}
		rec.TBody = cc.c.arrival()
		if r.Declared <= r.Body {
			rec.SentAll = true
		}
		if kind == "sent" {
			simSleep(int64(r.AbortAt) * ms)
			if rec.TLast < 0 {
				abort()
			}
		}
		start()
	}
	if len(body) > 0 && kind != "body" && rec.SendErr == "" && rec.TBody < 0 {
		rec.TBody = cc.c.arrival()
	}
	<-readDone
	cc.last = now()
	cc.lastCl = rec.Close
	if rec.Err != "" || r.Declared > r.Body {
		if !cc.dead {
			cc.c.Close()
			cc.dead = true
		}
	}
	logEvent("resp", r.ID, uint64(rec.Status))
}

func maxWait() time.Duration {
	return time.Duration(plan.Cfg.DnRound+plan.Cfg.DnRead+plan.Cfg.DnIdle+120) * time.Second
}

func readResponse(cc *clientConn, rec *ReqRec) {
	cc.nc.SetReadDeadline(time.Now().Add(maxWait()))
	before := cc.c.readB
	br := cc.br
	fail := func(s string, err error) {
		if err != nil {
			s += ": " + err.Error()
		}
		if rec.Err == "" {
			rec.Err = s
		}
		rec.Bytes = int(cc.c.readB - before)
		if isTimeout(err) {
			rec.Err = "timeout " + rec.Err
		}
		rec.PeerFin = now()
	}
	for {
		if _, err := br.Peek(1); err != nil {
			fail("no response", err)
			return
		}
		rec.TFirst = now()
		if rec.P.ReadGap > 0 {
			fired("client_slow_read")
			cc.c.maxRead = 512
		}
		l, err := readLine(br)
		if err != nil {
			fail("status line", err)
			return
		}
		if len(l) < 12 || !strings.HasPrefix(l, "HTTP/1.") || l[8] != ' ' {
			fail("malformed status line "+l, nil)
			return
		}
		st, err := strconv.Atoi(l[9:12])
		if err != nil || (len(l) > 12 && l[12] != ' ') {
			fail("malformed status line "+l, nil)
			return
		}
		var h [][2]string
		for {
			l, err := readLine(br)
			if err != nil {
				fail("headers", err)
				return
			}
			if l == "" {
				break
			}
			i := strings.IndexByte(l, ':')
			if i <= 0 || strings.ContainsAny(l[:i], " \t") {
				fail("malformed header "+l, nil)
				return
			}
			h = append(h, [2]string{l[:i], strings.TrimSpace(l[i+1:])})
		}
		if st >= 100 && st < 200 {
			rec.Interim = append(rec.Interim, st)
			rec.TFirst = -1
			continue
		}
		rec.Status = st
		rec.Hdr = h
		break
	}
	if v, ok := hget(rec.Hdr, "Connection"); ok && strings.EqualFold(v, "close") {
		rec.Close = true
	}
	if rec.P.Http10 {
		rec.Close = true
	}
	cls := hall(rec.Hdr, "Content-Length")
	if len(cls) > 1 {
		fail(fmt.Sprintf("several content-length headers %v", cls), nil)
		return
	}
	_, te := hget(rec.Hdr, "Transfer-Encoding")
	if te && len(cls) > 0 {
		fail("both content-length and transfer-encoding", nil)
		return
	}
	rd := func(n int) ([]byte, error) {
		out := make([]byte, 0, n)
		buf := make([]byte, 512)
		for len(out) < n {
			if rec.P.ReadGap > 0 {
				simSleep(rec.P.ReadGap)
			}
			k := n - len(out)
			if k > len(buf) {
				k = len(buf)
			}
			m, err := br.Read(buf[:k])
			out = append(out, buf[:m]...)
			if err != nil {
				return out, err
			}
		}
		return out, nil
	}
	var err error
	switch {
	case rec.P.Method == "HEAD" || rec.Status == 204 || rec.Status == 304:
	case te:
		rec.Body, err = readBody(br, rec.Hdr)
	case len(cls) == 1:
		n, e := strconv.Atoi(cls[0])
		if e != nil || n < 0 {
			fail("bad content-length "+cls[0], nil)
			return
		}
		rec.Body, err = rd(n)
	default:
		rec.Body, err = io.ReadAll(br)
		rec.Close = true
	}
	if err != nil {
		fail("incomplete body", err)
		return
	}
	rec.TLast = now()
	rec.Bytes = int(cc.c.readB - before)
}

// ---------------------------------------------------------------- HTTP/2

func runH2(cp *ConnPlan, rs []*ReqPlan, port int) {
	pool := x509.NewCertPool()
	pool.AddCert(caCert)
	tr := &http.Transport{ForceAttemptHTTP2: true, DisableCompression: true,
		TLSClientConfig: &tls.Config{RootCAs: pool, ServerName: "proxy.example", NextProtos: []string{"h2"}, Time: func() time.Time { return certEpoch }}}
	tr.DialContext = dialFor(cp, port)
	left := len(rs)
	if left == 0 {
		return
	}
	done := make(chan struct{})
	for _, r := range rs {
		simSleep(r.Think)
		go func() {
			doH2(tr, cp, r)
			left--
			if left == 0 {
				close(done)
			}
		}()
	}
	<-done
	tr.CloseIdleConnections()
}

func doH2(tr *http.Transport, cp *ConnPlan, r *ReqPlan) {
	rec := &ReqRec{P: r, C: cp, T0: now(), THdr: -1, TBody: -1, TFirst: -1, TLast: -1, PeerFin: -1, Sent: true, SentAll: true, GoneAt: -1, WallT0: wallNow()}
	recs = append(recs, rec)
	logEvent("send2", r.ID, 0)
	var body io.Reader
	if r.Body > 0 {
		if r.Framing == "chunked" {
			body = struct{ io.Reader }{bytes.NewReader(reqBody(r.ID, r.Body))}
		} else {
			body = bytes.NewReader(reqBody(r.ID, r.Body))
		}
	}
	if r.Abort == "body-rst" {
		body = io.MultiReader(bytes.NewReader(reqBody(r.ID, r.Body)[:r.AbortAt%r.Body]), brokenReader{})
	}
	q, err := http.NewRequest(r.Method, "https://proxy.example:443"+r.URI, body)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if r.Abort == "body-rst" && r.Framing == "cl" {
		q.ContentLength = int64(r.Body)
	}
	if r.Abort == "sent-rst" {
		ctx, cancel := context.WithCancel(q.Context())
		defer cancel()
		q = q.WithContext(ctx)
		go func() {
			simSleep(int64(r.AbortAt) * ms)
			if rec.TLast < 0 {
				fired("client_h2_stream_reset")
				rec.Aborted = true
				cancel()
			}
		}()
	}
	q.Header.Set("X-Sim-Id", strconv.Itoa(r.ID))
	for _, kv := range r.Hdr {
		q.Header.Add(kv[0], kv[1])
	}
	if r.Tok != nil {
		q.Header.Set("Authorization", authHeader(r, rec))
	}
	if q.Header.Get("User-Agent") == "" {
		q.Header.Set("User-Agent", "") // none
	}
	var under *Conn
	q = q.WithContext(httptrace.WithClientTrace(q.Context(), &httptrace.ClientTrace{
		GotConn: func(i httptrace.GotConnInfo) {
			rec.T0 = now()
			rec.WallT0 = wallNow()
			if t, ok := i.Conn.(interface{ NetConn() net.Conn }); ok {
				under, _ = t.NetConn().(*Conn)
			}
		},
		WroteHeaders: func() {
			if under != nil {
				rec.THdr = under.arrival()
			}
		},
		WroteRequest: func(httptrace.WroteRequestInfo) {
			if under != nil {
				rec.TBody = under.arrival()
			}
		},
	}))
	resp, err := tr.RoundTrip(q)
	if err != nil {
		rec.Err = "h2: " + err.Error()
		rec.PeerFin = now()
		return
	}
	rec.TFirst = now()
	rec.Status = resp.StatusCode
	for k, vs := range resp.Header {
		for _, v := range vs {
			rec.Hdr = append(rec.Hdr, [2]string{k, v})
		}
	}
	rec.Body, err = io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		rec.Err = "h2 body: " + err.Error()
		return
	}
	rec.TLast = now()
	logEvent("resp2", r.ID, uint64(rec.Status))
}

type brokenReader struct{}

func (brokenReader) Read([]byte) (int, error) {
	fired("client_h2_body_broken")
	return 0, io.ErrUnexpectedEOF
}

// dialFor dials the simulated proxy for an HTTP/2 client.
func dialFor(cp *ConnPlan, port int) func(context.Context, string, string) (net.Conn, error) {
	seq := 0
	return func(context.Context, string, string) (net.Conn, error) {
		seq++
		lk := clientLink(cp)
		c, err := connectProxy(lk, clientIP(cp), port, plan.NetSeed^uint64(cp.ID)<<20^uint64(seq))
		if err != nil {
			return nil, err
		}
		return c, nil
	}
}

func clientLink(cp *ConnPlan) *link {
	return &link{name: fmt.Sprintf("client%d", cp.ID), lat: cp.Lat, jitter: cp.Jitter, loss: cp.Loss, tiny: cp.Tiny, out: cp.Outages, window: cp.Window}
}

// authHeader mints the request's token and wraps it in the header value.
func authHeader(r *ReqPlan, rec *ReqRec) string {
	if r.Tok.Mangle == "empty" {
		return "Bearer "
	}
	if r.Tok.Reuse > 0 {
		for _, o := range recs {
			if o.P.ID == r.Tok.Reuse-1 && o.Token != "" {
				rec.Token, rec.TokExp, rec.TokNbf, rec.TokIat = o.Token, o.TokExp, o.TokNbf, o.TokIat
				fired("token_presented_again")
				break
			}
		}
	}
	if rec.Token == "" {
		rec.Token = mint(r.ID, r.Tok, rec)
	}
	switch r.Tok.Mangle {
	case "noscheme":
		return rec.Token
	case "doublespace":
		return "Bearer  " + rec.Token
	}
	return "Bearer " + rec.Token
}
