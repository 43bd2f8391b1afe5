//go:build go1.22

// Simulated upstream servers: a strict HTTP/1.1 parser and scripted,
// faulty behaviour per request and attempt.

package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"
)

var (
	arrivals  []*Arrival
	upConns   []*UpConn
	ridCount  = map[int]int{}
	hostFails []*hostFail
	jwksLog   []*jwksFetch
)

type hostFail struct {
	Host string
	T    int64
	Kind string
	Conn int
	c    *Conn   // accept_stall: the connection that was left hanging
	uc   *UpConn // and its record
}

// within tells whether the failure can have hit an attempt made within [lo,hi].
func (x *hostFail) within(lo, hi, up int64) (int64, bool) {
	if x.Kind != "accept_stall" {
		return x.T + up, x.T+up >= lo && x.T <= hi
	}
	if hp := hostPlan(x.Host); hp != nil && hp.TLS != "" {
		// hangs in the handshake, whichever request it was begun for
		e := hi
		if x.uc.Closed >= 0 {
			e = min64(x.uc.Closed+up, hi)
		}
		return e, x.T-up <= hi && e >= lo
	}
	// hangs from when a request was written to it, be it straight away or out of the pool
	w := x.c.in.wlog
	if len(w) == 0 {
		return 0, false
	}
	t := w[0].t
	return min64(t+int64(plan.Cfg.UpRead)*sec, hi), t+up >= lo && t <= hi
}

func startHosts() {
	for _, hp := range plan.Hosts {
		hp := hp
		h := &Host{Addr: hostPort(hp.Host, hp.Port), down: hp.Down, script: hp.Dial, open: map[*Conn]bool{},
			lk: &link{name: hp.Host, lat: hp.Lat, jitter: hp.Jitter, loss: hp.Loss, tiny: hp.Tiny, out: hp.Outages, window: hp.Window}}
		idx := 0
		h.serve = func(c *Conn) {
			k := idx
			idx++
			serveHost(h, hp, c, k)
		}
		hosts[h.Addr] = h
	}
}

func serveHost(h *Host, hp *HostPlan, c *Conn, k int) {
	uc := &UpConn{Host: h.Addr, ID: c.id, Opened: now(), Closed: -1, c: c}
	upConns = append(upConns, uc)
	defer func() {
		if uc.Closed < 0 {
			uc.Closed = now()
			uc.By = "server"
		}
		c.Close()
	}()
	if f := hp.Accept[k]; f != "" && !calmed {
		fired("upstream_accept_" + f)
		switch f {
		case "reset":
			hostFails = append(hostFails, &hostFail{Host: h.Addr, T: now(), Kind: "accept_reset", Conn: c.id})
			c.Reset()
			uc.Closed, uc.By = now(), "server"
			return
		case "close":
			hostFails = append(hostFails, &hostFail{Host: h.Addr, T: now(), Kind: "accept_close", Conn: c.id})
			return
		case "stall":
			hostFails = append(hostFails, &hostFail{Host: h.Addr, T: now(), Kind: "accept_stall", Conn: c.id, c: c, uc: uc})
			waitGone(c, uc)
			return
		}
	}
	var nc net.Conn = c
	if hp.TLS != "" {
		uc.HsDone = -1
		tc := tls.Server(c, hostTLS(hp))
		c.SetDeadline(time.Now().Add(20 * time.Second))
		if err := tc.Handshake(); err != nil {
			uc.TLSFail = err.Error()
			fired("upstream_tls_handshake_failed")
			uc.Closed, uc.By = now(), "tlsfail"
			return
		}
		c.SetDeadline(time.Time{})
		uc.HsDone = now()
		nc = tc
	}
	br := bufio.NewReaderSize(nc, 4096)
	uc.nc = nc
	for {
		uc.IdleAt = now()
		uc.next = c.readB
		if hp.IdleClose > 0 && uc.Reqs > 0 {
			nc.SetReadDeadline(time.Now().Add(time.Duration(hp.IdleClose)))
		}
		if _, err := br.Peek(1); err != nil {
			if errors.Is(err, errTimeout) || isTimeout(err) {
				fired("upstream_idle_close")
				uc.By = "idle"
			} else {
				uc.By = "proxy"
			}
			uc.Closed = now()
			return
		}
		nc.SetReadDeadline(time.Time{})
		uc.Reqs++
		uc.busy = true
		var keep bool
		if hp.Kind == "jwks" {
			keep = serveJwks(h, hp, c, nc, br, uc)
		} else {
			keep = serveOne(h, hp, c, nc, br, uc)
		}
		if !keep {
			return
		}
		uc.busy = false
	}
}

var errTimeout = errors.New("timeout")

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

// waitGone blocks until the proxy abandons the connection.
func waitGone(c *Conn, uc *UpConn) int64 {
	b := make([]byte, 512)
	for {
		_, err := c.Read(b)
		if err != nil {
			t := now()
			if e, gone := c.peerGone(); gone && e < t {
				t = e
			}
			if uc != nil && uc.Closed < 0 {
				uc.Closed, uc.By = t, "proxy"
			}
			return t
		}
	}
}

// sentAt is when the proxy began to write the request that has just been read.
func sentAt(c *Conn, uc *UpConn, t int64) int64 {
	w := c.in.wlog
	first := uc.Reqs <= 1
	if _, plain := uc.nc.(*Conn); !plain && first {
		// the third write: hello and finished come before it
		if len(w) > 2 {
			return w[2].t
		}
		return w[len(w)-1].t
	}
	for _, m := range w {
		if m.pos >= uc.next {
			return m.t
		}
	}
	return w[len(w)-1].t
}

func readLine(br *bufio.Reader) (string, error) {
	s, err := br.ReadString('\n')
	if err != nil {
		return s, err
	}
	if !strings.HasSuffix(s, "\r\n") {
		return s, fmt.Errorf("line not terminated by CRLF")
	}
	return s[:len(s)-2], nil
}

func hget(h [][2]string, k string) (string, bool) {
	for _, kv := range h {
		if strings.EqualFold(kv[0], k) {
			return kv[1], true
		}
	}
	return "", false
}
func hall(h [][2]string, k string) (r []string) {
	for _, kv := range h {
		if strings.EqualFold(kv[0], k) {
			r = append(r, kv[1])
		}
	}
	return
}

func ridOf(uri string, h [][2]string) int {
	if i := strings.Index(uri, "rid="); i >= 0 {
		s := uri[i+4:]
		j := 0
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if n, err := strconv.Atoi(s[:j]); err == nil {
			return n
		}
	}
	if v, ok := hget(h, "X-Sim-Id"); ok {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return -1
}

func readBody(br *bufio.Reader, h [][2]string) ([]byte, error) {
	if te, ok := hget(h, "Transfer-Encoding"); ok {
		if !strings.EqualFold(te, "chunked") {
			return nil, fmt.Errorf("unknown transfer-encoding %q", te)
		}
		var out []byte
		for {
			l, err := readLine(br)
			if err != nil {
				return out, err
			}
			n, err := strconv.ParseInt(l, 16, 32)
			if err != nil {
				return out, fmt.Errorf("bad chunk size %q", l)
			}
			if n == 0 {
				for {
					l, err := readLine(br)
					if err != nil {
						return out, err
					}
					if l == "" {
						return out, nil
					}
				}
			}
			b := make([]byte, n)
			k, err := io.ReadFull(br, b)
			out = append(out, b[:k]...)
			if err != nil {
				return out, err
			}
			if l, err := readLine(br); err != nil || l != "" {
				return out, fmt.Errorf("chunk not terminated")
			}
		}
	}
	if cl, ok := hget(h, "Content-Length"); ok {
		n, err := strconv.Atoi(cl)
		if err != nil || n < 0 {
			return nil, fmt.Errorf("bad content-length %q", cl)
		}
		b := make([]byte, n)
		k, err := io.ReadFull(br, b)
		return b[:k], err
	}
	return nil, nil
}

func serveOne(h *Host, hp *HostPlan, c *Conn, nc net.Conn, br *bufio.Reader, uc *UpConn) bool {
	a := &Arrival{Rid: -1, Host: h.Addr, Conn: c.id, ConnReq: uc.Reqs - 1, Reused: uc.Reqs > 1, Outcome: "fail", Gone: -1, FailT: -1, T1: -1, PG: -1, c: c}
	l, err := readLine(br)
	a.T = now()
	a.TSent = sentAt(c, uc, a.T)
	if err != nil {
		// the proxy left while sending the request line: nothing identifiable arrived
		uc.Closed, uc.By = now(), "proxy"
		if len(l) > 0 {
			a.Bad = "partial request line: " + err.Error()
			a.Method = l
			arrivals = append(arrivals, a)
		}
		return false
	}
	f := strings.Split(l, " ")
	if len(f) != 3 || f[2] != "HTTP/1.1" {
		a.Bad = "malformed request line " + l
		arrivals = append(arrivals, a)
		return false
	}
	a.Method, a.URI = f[0], f[1]
	a.Rid = ridOf(a.URI, nil)
	arrivals = append(arrivals, a)
	logEvent("arrival", a.Rid, 0)

	bind := func() {
		if a.B != nil {
			return
		}
		rp := reqByID[a.Rid]
		a.K = ridCount[a.Rid]
		ridCount[a.Rid]++
		if rp == nil {
			a.B = &Behav{Status: 200}
			return
		}
		if len(rp.Behavs) == 0 {
			a.B = &Behav{Status: 200, Size: 20}
		} else if a.K < len(rp.Behavs) {
			a.B = rp.Behavs[a.K]
		} else {
			a.B = rp.Behavs[len(rp.Behavs)-1]
		}
		uc.damaged = uc.damaged || corrupt(a)
	}
	// fail makes the scripted failure happen now and ends the connection
	fail := func(kind string) bool {
		fired("upstream_" + kind + "_" + a.B.Stage)
		switch kind {
		case "rst":
			c.Reset()
			a.FailT = c.out.endAt
			uc.Closed, uc.By = now(), "server"
		case "fin":
			c.Close()
			a.FailT = c.out.endAt
			uc.Closed, uc.By = now(), "server"
		case "stall":
			a.Gone = waitGone(c, uc)
		}
		return false
	}
	if a.Rid >= 0 {
		bind()
		if a.B.Stage == "line" && a.B.Fail != "" && a.B.Fail != "garbage" {
			simSleep(a.B.Delay)
			return fail(a.B.Fail)
		}
	}
	for {
		l, err := readLine(br)
		if err != nil {
			a.Bad = "head: " + err.Error()
			uc.Closed, uc.By = now(), "proxy"
			a.Gone = now()
			return false
		}
		if l == "" {
			break
		}
		i := strings.IndexByte(l, ':')
		if i <= 0 {
			a.Bad = "malformed header " + l
			return false
		}
		a.Hdr = append(a.Hdr, [2]string{l[:i], strings.TrimSpace(l[i+1:])})
	}
	if a.Rid < 0 {
		a.Rid = ridOf("", a.Hdr)
	}
	bind()
	b := a.B
	if b.Stage == "head" && b.Fail != "" && b.Fail != "garbage" {
		simSleep(b.Delay)
		return fail(b.Fail)
	}
	if v, ok := hget(a.Hdr, "Expect"); ok && strings.EqualFold(v, "100-continue") {
		nc.Write([]byte("HTTP/1.1 100 Continue\r\n\r\n"))
	}
	if !b.Early {
		a.Body, err = readBody(br, a.Hdr)
		if err != nil {
			a.Bad = "body: " + err.Error()
			uc.Closed, uc.By = now(), "proxy"
			a.Gone = now()
			return false
		}
		a.Full = true
		a.TDone = now()
	}
	if b.Delay > 0 {
		// a server at work notices when its caller leaves
		done := make(chan struct{})
		gone := make(chan int64, 1)
		go watchGone(c, done, gone)
		t := time.NewTimer(time.Duration(b.Delay))
		select {
		case <-t.C:
			close(done)
		case g := <-gone:
			t.Stop()
			a.Gone = g
			uc.Closed, uc.By = g, "proxy"
			return false
		}
	}
	if b.Stage == "req" && b.Fail != "" && b.Fail != "garbage" {
		return fail(b.Fail)
	}
	if b.Fail == "garbage" {
		fired("upstream_garbage")
		g := []string{"HTP/9 banana\r\n\r\n", "\x16\x03\x01\x02garbage", "HTTP/1.1 abc OK\r\n\r\n", "HTTP/1.1 200 OK\r\nno colon here\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n"}[b.At%5]
		nc.Write([]byte(g))
		a.Sent = len(g)
		a.FailT = now() + c.lk.lat
		simSleep(5 * ms)
		return false
	}
	body, enc := upBody(a.Rid, a.K, b)
	var hd bytes.Buffer
	if b.Interim > 0 {
		fmt.Fprintf(&hd, "HTTP/1.1 %d Interim\r\nX-Interim: 1\r\n\r\n", b.Interim)
	}
	fmt.Fprintf(&hd, "HTTP/1.1 %03d Reason\r\n", b.Status)
	fmt.Fprintf(&hd, "X-Up-Tok: U%d.%d\r\n", a.Rid, a.K)
	for _, kv := range b.Hdr {
		fmt.Fprintf(&hd, "%s: %s\r\n", kv[0], kv[1])
	}
	if enc != "" {
		for _, e := range strings.Split(enc, "|") {
			fmt.Fprintf(&hd, "Content-Encoding: %s\r\n", e)
		}
	}
	noBody := b.Status == 204 || b.Status == 304 || b.Status/100 == 1
	framing := b.Framing
	if framing == "" {
		framing = "cl"
	}
	cl := b.Close || framing == "close"
	if cl {
		hd.WriteString("Connection: close\r\n")
	}
	var wire []byte
	switch {
	case noBody:
		hd.WriteString("\r\n")
	case framing == "cl":
		n := len(body)
		if a.Method == "HEAD" && b.Declare > 0 {
			n = b.Declare
		}
		fmt.Fprintf(&hd, "Content-Length: %d\r\n\r\n", n)
		wire = body
	case framing == "chunked":
		hd.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		wire = chunk(body, newRng(plan.NetSeed, uint64(a.Rid), uint64(a.K)))
	default:
		hd.WriteString("\r\n")
		wire = body
	}
	if a.Method == "HEAD" || noBody {
		wire = nil
	}
	msg := append(hd.Bytes(), wire...)
	stop := len(msg)
	if b.Fail != "" {
		hl := hd.Len()
		if b.Stage == "hdr" {
			stop = 1 + b.At%(hl-4)
		} else {
			stop = hl
			if len(wire) > 1 {
				stop += b.At % len(wire)
			}
			if framing == "close" && b.Fail == "fin" {
				stop = hl // cannot be told from a complete response
			}
			if len(wire) == 0 {
				stop = hl - 2
			}
		}
	}
	pieces := b.Pieces
	if pieces < 1 {
		pieces = 1
	}
	a.Status = b.Status
	for i := 0; i < pieces; i++ {
		lo, hi := stop*i/pieces, stop*(i+1)/pieces
		if i > 0 && b.Gap > 0 {
			done := make(chan struct{})
			gone := make(chan int64, 1)
			go watchGone(c, done, gone)
			t := time.NewTimer(time.Duration(b.Gap))
			select {
			case <-t.C:
				close(done)
			case g := <-gone:
				t.Stop()
				a.Gone = g
				uc.Closed, uc.By = g, "proxy"
				return false
			}
		}
		if lo == hi {
			continue
		}
		n, err := nc.Write(msg[lo:hi])
		a.Sent += n
		if err != nil {
			a.Gone = now()
			uc.Closed, uc.By = now(), "proxy"
			return false
		}
	}
	a.T1 = c.arrival()
	if b.Fail != "" {
		// let the bytes that were sent arrive, then fail
		if b.At%2 == 0 {
			simSleep(a.T1 - now() + ms)
		}
		return fail(b.Fail)
	}
	a.Outcome = "ok"
	if cl {
		if framing == "close" {
			c.CloseWrite()
			a.T1 = c.out.endAt
			if tc, ok := nc.(*tls.Conn); ok {
				_ = tc
			}
		}
		uc.Closed, uc.By = now(), "server"
		// read until the proxy closes too, so no data is lost to a reset
		c.SetReadDeadline(time.Now().Add(3 * time.Second))
		io.Copy(io.Discard, c)
		return false
	}
	if b.Early {
		fired("upstream_answered_early")
		simSleep([]int64{0, 5, 20, 45, 300}[b.At%5] * ms)
		a.Body, err = readBody(br, a.Hdr)
		if err != nil {
			uc.Closed, uc.By = now(), "proxy"
			return false
		}
		a.Full = true
		a.TDone = now()
	}
	return true
}

// watchGone reports when the proxy's end of c is seen to be closed.
func watchGone(c *Conn, done chan struct{}, gone chan int64) {
	for {
		wake := c.in.wakeR
		if t, g := c.peerGone(); g {
			if d := t - now(); d > 0 {
				tm := time.NewTimer(time.Duration(d))
				select {
				case <-tm.C:
				case <-done:
					tm.Stop()
					return
				}
			}
			gone <- now()
			return
		}
		select {
		case <-wake:
		case <-done:
			return
		}
	}
}

func chunk(b []byte, r *rng) []byte {
	var out bytes.Buffer
	for len(b) > 0 {
		n := 1 + r.n(600)
		if n > len(b) {
			n = len(b)
		}
		fmt.Fprintf(&out, "%x\r\n", n)
		out.Write(b[:n])
		out.WriteString("\r\n")
		b = b[n:]
	}
	out.WriteString("0\r\n\r\n")
	return out.Bytes()
}

// upPlain is the content of the response to request rid, attempt k.
func upPlain(rid, k int, b *Behav) []byte {
	if b.Size == 0 {
		return nil
	}
	r := newRng(uint64(rid)*1000+uint64(k), 77)
	if b.Kind == "gz" {
		c := *b
		c.Kind = "text"
		return zipped(upPlain(rid, k, &c))
	}
	tok := fmt.Sprintf("[U%d.%d]", rid, k)
	var o bytes.Buffer
	if b.Kind == "magic" {
		o.WriteString("\x1f\x8b\x08")
	}
	if b.Kind == "json" {
		fmt.Fprintf(&o, `{"tok":"%s","v":"`, tok)
	}
	for o.Len() < b.Size {
		switch b.Kind {
		case "bin":
			for i := 0; i < 16; i++ {
				x := byte(r.next())
				o.WriteByte(x)
			}
			o.WriteString(tok)
		default:
			o.WriteString(tok)
			for i := 0; i < 12; i++ {
				o.WriteByte("abcdefghijklmnopqrstuvwxyz 0123456789"[r.n(37)])
			}
		}
	}
	if b.Kind == "json" {
		o.WriteString(`"}`)
		return o.Bytes()
	}
	return o.Bytes()[:b.Size]
}

// upBody is what goes on the wire and the content-encoding that labels it.
func upBody(rid, k int, b *Behav) ([]byte, string) {
	p := upPlain(rid, k, b)
	switch b.Enc {
	case "gzip", "GZIP", "gzip_trunc", "gzip_corrupt":
		z := zippedAs(p, b.Zip)
		if b.Enc == "gzip_trunc" {
			z = z[:len(z)-9-b.At%(len(z)/3+1)]
			if zr, err := gzip.NewReader(bytes.NewReader(z)); err == nil {
				if _, err := io.Copy(io.Discard, zr); err == nil {
					z = z[:len(z)-1] // it was cut right between two members
				}
			}
			fired("upstream_gzip_truncated")
		}
		if b.Enc == "gzip_corrupt" {
			z = damaged(z, b.At)
			fired("upstream_gzip_corrupted")
		}
		if b.Enc == "GZIP" {
			return z, b.Enc
		}
		return z, "gzip"
	case "gzip_not":
		fired("upstream_gzip_mislabelled")
		return p, "gzip"
	case "gzip_stub":
		fired("upstream_gzip_truncated")
		return zipped(p)[:1], "gzip"
	}
	if layered(b.Enc) {
		// several codings, in one header line or in several
		for _, e := range codings(b.Enc) {
			if e == "gzip" {
				p = zipped(p)
			}
		}
	}
	return p, b.Enc // identity, or opaque to the proxy
}

// damaged alters a gzip stream, at a place chosen by at, so that it does not decode.
func damaged(z []byte, at int) []byte {
	d := append([]byte{}, z...)
	switch n := len(d); at % 6 {
	case 1:
		d[2] = 9 // method
	case 2:
		d[3] |= 0x1e // says there is more of a header
	case 3:
		d[10+at%(n-18)] ^= byte(1 << (at % 8))
	case 4:
		d[n-1] ^= 0x55 // length
	case 5:
		d[1] = 0x8a
	default:
		d[n-5] ^= 0x55 // checksum
	}
	zr, err := gzip.NewReader(bytes.NewReader(d))
	if err == nil {
		_, err = io.Copy(io.Discard, zr)
	}
	if err == nil {
		d[len(d)-5] ^= 0x55
	}
	return d
}

// zippedAs makes gzip streams other than those the Go library writes by itself.
func zippedAs(p []byte, how string) []byte {
	var o bytes.Buffer
	put := func(p []byte, level int, name string) {
		w, _ := gzip.NewWriterLevel(&o, level)
		if name != "" {
			w.Name, w.Comment, w.Extra, w.ModTime = name, "c", []byte("extra"), time.Unix(1e9, 0)
		}
		w.Write(p)
		w.Close()
	}
	switch n := len(p); how {
	case "multi":
		put(p[:n/3], 6, "")
		put(p[n/3:n/2], 1, "")
		put(p[n/2:], 9, "")
	case "empties":
		put(nil, 6, "")
		put(p, 6, "")
		put(nil, 6, "")
	case "named":
		put(p, 6, "file.txt")
	case "stored":
		put(p, gzip.NoCompression, "")
	default:
		return zipped(p)
	}
	return o.Bytes()
}

func zipped(p []byte) []byte {
	var o bytes.Buffer
	w := gzip.NewWriter(&o)
	w.Write(p)
	w.Close()
	return o.Bytes()
}
