//go:build go1.22

// Simulated TCP network: every byte, connection, delay, reset, outage and
// refusal is decided here from the plan's seeds, on the simulated clock.

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"syscall"
	"time"
)

const (
	ms  = int64(time.Millisecond)
	sec = int64(time.Second)
)

// ---------------------------------------------------------------- randomness

type rng struct{ s uint64 }

func newRng(parts ...uint64) *rng {
	r := &rng{s: 0x243F6A8885A308D3}
	for _, p := range parts {
		r.s ^= p
		r.next()
	}
	return r
}

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}
func (r *rng) rangeI(a, b int64) int64 {
	if b <= a {
		return a
	}
	return a + int64(r.next()%uint64(b-a+1))
}
func (r *rng) p(x float64) bool { return float64(r.next()>>11)/(1<<53) < x }

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// ---------------------------------------------------------------- clock

var simEpoch int64

func now() int64 { return runtime.SimNow() - simEpoch }

func simSleep(ns int64) {
	if ns > 0 {
		time.Sleep(time.Duration(ns))
	}
}

// ---------------------------------------------------------------- links

// Window is a period (ns since start) during which a link delivers nothing.
type Window struct {
	From int64 `json:"from"`
	To   int64 `json:"to"`
}

type link struct {
	name   string
	lat    int64
	jitter int64
	loss   float64 // probability a segment needs a retransmission
	tiny   bool    // very small segments
	out    []Window
	window int // socket buffer size in bytes
}

func (l *link) delay(r *rng) int64 {
	d := l.lat
	if l.jitter > 0 {
		d += r.rangeI(0, l.jitter)
	}
	if l.loss > 0 && !calmed && r.p(l.loss) {
		d += r.rangeI(200*ms, 700*ms)
		fired("net_loss_retransmit")
	}
	return d
}

// deliverable moves an arrival time out of any outage.
func (l *link) deliverable(at int64) int64 {
	for _, w := range l.out {
		if at >= w.From && at < w.To {
			fired("net_outage_delay")
			at = w.To + l.lat
		}
	}
	return at
}

// ---------------------------------------------------------------- pipe

type seg struct {
	at int64
	b  []byte
}

type half struct {
	q      []seg
	qbytes int
	lastAt int64
	fin    bool
	rst    bool
	endAt  int64
	wakeR  chan struct{}
	wakeW  chan struct{}
	r      *rng
	nseg   int
	total  int64
	wlog   []wmark
	mark   int64 // byte position whose arrival time is wanted
	markAt int64
}

// wmark is the beginning of one Write: the position in the stream and the time.
type wmark struct{ pos, t int64 }

func newHalf(r *rng) *half {
	return &half{wakeR: make(chan struct{}), wakeW: make(chan struct{}), r: r}
}
func (h *half) kickR() { close(h.wakeR); h.wakeR = make(chan struct{}) }
func (h *half) kickW() { close(h.wakeW); h.wakeW = make(chan struct{}) }

type deadline struct {
	timer *time.Timer
	ch    chan struct{}
}

func (d *deadline) set(t time.Time) {
	if d.timer != nil && !d.timer.Stop() {
		<-d.ch
	}
	d.timer = nil
	closed := false
	select {
	case <-d.ch:
		closed = true
	default:
	}
	if t.IsZero() {
		if closed {
			d.ch = make(chan struct{})
		}
		return
	}
	if dur := time.Until(t); dur > 0 {
		if closed {
			d.ch = make(chan struct{})
		}
		ch := d.ch
		d.timer = time.AfterFunc(dur, func() { close(ch) })
		return
	}
	if !closed {
		close(d.ch)
	}
}
func (d *deadline) passed() bool {
	select {
	case <-d.ch:
		return true
	default:
		return false
	}
}

// Conn is one end of a simulated TCP connection.
type Conn struct {
	id       int
	side     string
	in, out  *half
	lk       *link
	la, ra   net.Addr
	rdl, wdl deadline
	peer     *Conn
	closed   bool
	wclosed  bool
	closedAt int64
	onClose  func()
	readB    int64
	wroteB   int64
	maxRead  int // limit of a single read, 0 none
}

var connSeq int

func newPair(lk *link, ca, sa net.Addr, seed uint64) (*Conn, *Conn) {
	connSeq++
	id := connSeq
	c2s, s2c := newHalf(newRng(seed, 1)), newHalf(newRng(seed, 2))
	c := &Conn{id: id, side: "c", in: s2c, out: c2s, lk: lk, la: ca, ra: sa}
	s := &Conn{id: id, side: "s", in: c2s, out: s2c, lk: lk, la: sa, ra: ca}
	c.peer, s.peer = s, c
	for _, x := range []*Conn{c, s} {
		x.rdl.ch = make(chan struct{})
		x.wdl.ch = make(chan struct{})
	}
	return c, s
}

func (c *Conn) operr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.la, Addr: c.ra, Err: err}
}

func (c *Conn) Read(b []byte) (int, error) {
	h := c.in
	for {
		if c.closed {
			return 0, c.operr("read", net.ErrClosed)
		}
		if c.rdl.passed() {
			return 0, c.operr("read", os.ErrDeadlineExceeded)
		}
		t := now()
		if len(h.q) > 0 && h.q[0].at <= t {
			if len(b) == 0 {
				return 0, nil
			}
			n := 0
			lim := len(b)
			if c.maxRead > 0 && lim > c.maxRead {
				lim = c.maxRead
			}
			for n < lim && len(h.q) > 0 && h.q[0].at <= t {
				k := copy(b[n:lim], h.q[0].b)
				n += k
				if k == len(h.q[0].b) {
					h.q = h.q[1:]
				} else {
					h.q[0].b = h.q[0].b[k:]
				}
			}
			h.qbytes -= n
			h.kickW()
			c.readB += int64(n)
			return n, nil
		}
		wait := int64(-1)
		if len(h.q) > 0 {
			wait = h.q[0].at - t
		} else if h.rst || h.fin {
			if h.endAt <= t {
				if h.rst {
					return 0, c.operr("read", os.NewSyscallError("read", syscall.ECONNRESET))
				}
				return 0, io.EOF
			}
			wait = h.endAt - t
		}
		if len(b) == 0 {
			return 0, nil
		}
		var tc <-chan time.Time
		var tm *time.Timer
		if wait >= 0 {
			tm = time.NewTimer(time.Duration(wait))
			tc = tm.C
		}
		select {
		case <-h.wakeR:
		case <-c.rdl.ch:
		case <-tc:
		}
		if tm != nil {
			tm.Stop()
		}
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	h := c.out
	n := 0
	if len(b) > 0 {
		h.wlog = append(h.wlog, wmark{h.total, now()})
	}
	for {
		if c.closed || c.wclosed {
			return n, c.operr("write", net.ErrClosed)
		}
		if c.wdl.passed() {
			return n, c.operr("write", os.ErrDeadlineExceeded)
		}
		t := now()
		if c.in.rst && c.in.endAt <= t {
			return n, c.operr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if n == len(b) {
			return n, nil
		}
		if c.peer.closed {
			// the peer is gone: the data is lost and answered by a reset
			c.in.rst = true
			if e := t + 2*c.lk.lat; c.in.endAt < e {
				c.in.endAt = e
			}
			c.in.kickR()
			c.wroteB += int64(len(b) - n)
			return len(b), nil
		}
		room := c.lk.window - h.qbytes
		if room > 0 {
			k := len(b) - n
			if k > room {
				k = room
			}
			c.push(b[n : n+k])
			n += k
			c.wroteB += int64(k)
			continue
		}
		var tc <-chan time.Time
		var tm *time.Timer
		if c.in.rst {
			tm = time.NewTimer(time.Duration(c.in.endAt - t))
			tc = tm.C
		}
		fired("net_backpressure")
		select {
		case <-h.wakeW:
		case <-c.wdl.ch:
		case <-tc:
		}
		if tm != nil {
			tm.Stop()
		}
	}
}

func (c *Conn) push(b []byte) {
	h := c.out
	b = append([]byte(nil), b...)
	for len(b) > 0 {
		k := len(b)
		if h.nseg < 24 {
			if c.lk.tiny {
				k = 1 + h.r.n(40)
			} else {
				k = 1 + h.r.n(1460)
			}
		} else if k > 16384 {
			k = 16384
		}
		if k > len(b) {
			k = len(b)
		}
		at := c.lk.deliverable(now() + c.lk.delay(h.r))
		if at < h.lastAt {
			at = h.lastAt
		}
		h.lastAt = at
		h.q = append(h.q, seg{at, b[:k:k]})
		h.qbytes += k
		h.total += int64(k)
		if h.mark > 0 && h.total >= h.mark {
			h.mark, h.markAt = 0, at
		}
		h.nseg++
		netSegs++
		b = b[k:]
	}
	h.kickR()
}

var netSegs int64

// arrival returns when everything written so far reaches the peer.
func (c *Conn) arrival() int64 {
	if c.out.lastAt < now() {
		return now()
	}
	return c.out.lastAt
}

func (c *Conn) end(rst bool) {
	h := c.out
	if h.fin || h.rst {
		if rst && !h.rst {
			h.rst = true
		} else {
			return
		}
	}
	at := c.lk.deliverable(now() + c.lk.delay(h.r))
	if at < h.lastAt {
		at = h.lastAt
	}
	h.endAt = at
	if rst {
		h.rst = true
	} else {
		h.fin = true
	}
	h.kickR()
	h.kickW()
	c.in.kickW()
}

func (c *Conn) Close() error {
	if c.closed {
		return c.operr("close", net.ErrClosed)
	}
	c.closed = true
	c.closedAt = now()
	c.end(c.in.qbytes > 0)
	c.in.kickR()
	c.out.kickW()
	if c.onClose != nil {
		c.onClose()
	}
	return nil
}

// Reset aborts the connection with a TCP reset; undelivered data is lost.
func (c *Conn) Reset() {
	if c.closed {
		return
	}
	c.closed = true
	c.closedAt = now()
	h := c.out
	t := now()
	keep := h.q[:0]
	h.qbytes = 0
	for _, s := range h.q {
		if s.at <= t {
			keep = append(keep, s)
			h.qbytes += len(s.b)
		}
	}
	h.q = keep
	h.lastAt = t
	c.end(true)
	c.in.kickR()
	c.out.kickW()
	if c.onClose != nil {
		c.onClose()
	}
}

func (c *Conn) CloseWrite() error {
	if c.closed {
		return c.operr("close", net.ErrClosed)
	}
	c.wclosed = true
	c.end(false)
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return c.la }
func (c *Conn) RemoteAddr() net.Addr { return c.ra }
func (c *Conn) SetDeadline(t time.Time) error {
	c.rdl.set(t)
	c.wdl.set(t)
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return c.operr("set", net.ErrClosed)
	}
	c.rdl.set(t)
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return c.operr("set", net.ErrClosed)
	}
	c.wdl.set(t)
	return nil
}

// peerGone reports whether the other end has closed or reset and, if so, when
// that becomes visible here.
func (c *Conn) peerGone() (int64, bool) {
	if c.in.fin || c.in.rst {
		return c.in.endAt, true
	}
	return 0, false
}

// ---------------------------------------------------------------- hosts

// Host is a simulated listener reachable by dialing.
type Host struct {
	Addr   string
	lk     *link
	down   []Window // connection refused
	serve  func(c *Conn)
	dials  int
	script map[int]string // dial index -> fault
	open   map[*Conn]bool // server-side ends
	nconn  int
	ports  int
}

// dialRec is one attempt of the proxy to connect to a host.
type dialRec struct {
	Host    string
	T0, T1  int64
	Outcome string
	Conn    int
	Own     bool // given up at the dialer's own deadline, not because nobody waits any more
}

var (
	hosts   = map[string]*Host{}
	dialLog []*dialRec
	lstn    *simListener
	theBoot bool
)

func addrOf(a string, port int) *net.TCPAddr {
	h, p, _ := net.SplitHostPort(a)
	ip := net.ParseIP(h)
	if ip == nil {
		x := strHash(h)
		ip = net.IPv4(10, 9, byte(x>>8), byte(x)|1)
	}
	n, _ := strconv.Atoi(p)
	if port > 0 {
		n = port
	}
	return &net.TCPAddr{IP: ip, Port: n}
}

func simDial(ctx context.Context, network, address string) (net.Conn, error) {
	rec := &dialRec{Host: address, T0: now()}
	dialLog = append(dialLog, rec)
	fail := func(kind string, err error) (net.Conn, error) {
		rec.T1, rec.Outcome = now(), kind
		return nil, &net.OpError{Op: "dial", Net: network, Addr: addrOf(address, 0), Err: err}
	}
	wait := func(d int64) error {
		if d <= 0 {
			return ctx.Err()
		}
		t := time.NewTimer(time.Duration(d))
		defer t.Stop()
		select {
		case <-t.C:
			return nil
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	ctxErr := func(e error) error {
		if errors.Is(e, context.DeadlineExceeded) {
			rec.Own = true
			return os.ErrDeadlineExceeded
		}
		return errCanceled
	}
	h := hosts[address]
	if h == nil {
		fired("dial_no_such_host")
		if e := wait(3 * ms); e != nil {
			return fail("ctx", ctxErr(e))
		}
		hn, _, _ := net.SplitHostPort(address)
		return fail("nohost", &net.DNSError{Err: "no such host", Name: hn, IsNotFound: true})
	}
	k := h.dials
	h.dials++
	f := h.script[k]
	if calmed {
		f = ""
	}
	switch f {
	case "refused":
		fired("dial_refused")
		if e := wait(2 * h.lk.lat); e != nil {
			return fail("ctx", ctxErr(e))
		}
		return fail("refused", os.NewSyscallError("connect", syscall.ECONNREFUSED))
	case "unreach":
		fired("dial_unreachable")
		if e := wait(h.lk.lat); e != nil {
			return fail("ctx", ctxErr(e))
		}
		return fail("unreach", os.NewSyscallError("connect", syscall.EHOSTUNREACH))
	case "emfile":
		fired("dial_emfile")
		return fail("emfile", os.NewSyscallError("socket", syscall.EMFILE))
	case "hang":
		fired("dial_blackhole")
		if e := wait(1 << 62); e != nil {
			return fail("timeout", ctxErr(e))
		}
	case "slow":
		fired("dial_slow")
		if e := wait(700 * ms); e != nil {
			return fail("timeout", ctxErr(e))
		}
	}
	// SYN / SYN-ACK
	at := h.lk.deliverable(now() + 2*h.lk.lat)
	if e := wait(at - now()); e != nil {
		if at-rec.T0 > 2*h.lk.lat {
			fired("dial_outage_timeout")
		}
		return fail("timeout", ctxErr(e))
	}
	for _, w := range h.down {
		if t := now(); t >= w.From && t < w.To {
			fired("dial_refused_down")
			return fail("refused", os.NewSyscallError("connect", syscall.ECONNREFUSED))
		}
	}
	h.ports++
	c, s := newPair(h.lk, addrOf("10.0.0.1:0", 20000+h.ports%40000), addrOf(address, 0), plan.NetSeed^strHash(address)^uint64(k)<<32)
	h.nconn++
	h.open[s] = true
	s.onClose = func() { delete(h.open, s) }
	rec.T1, rec.Outcome, rec.Conn = now(), "ok", c.id
	go h.serve(s)
	return c, nil
}

var errCanceled = errors.New("operation was canceled")

// ---------------------------------------------------------------- listener

type simListener struct {
	addr   net.Addr
	q      []*Conn
	wake   chan struct{}
	closed bool
	errs   []int64 // times from which one Accept each fails with EMFILE
}

func simListen(network, address string) (net.Listener, error) {
	if plan.ListenFail {
		fired("listen_fail")
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	_, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, _ := strconv.Atoi(p)
	lstn = &simListener{addr: &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: port}, wake: make(chan struct{})}
	for _, f := range plan.Faults {
		if f.Kind == "accept_emfile" {
			lstn.errs = append(lstn.errs, f.At)
		}
	}
	return lstn, nil
}

func (l *simListener) Accept() (net.Conn, error) {
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		for i, at := range l.errs {
			if now() >= at && len(l.q) > 0 {
				l.errs = append(l.errs[:i:i], l.errs[i+1:]...)
				fired("accept_emfile")
				return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.NewSyscallError("accept4", syscall.EMFILE)}
			}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		<-l.wake
	}
}
func (l *simListener) Close() error {
	l.closed = true
	close(l.wake)
	l.wake = make(chan struct{})
	return nil
}
func (l *simListener) Addr() net.Addr { return l.addr }

// connect opens a client connection to the proxy.
func connectProxy(lk *link, clientIP string, port int, seed uint64) (*Conn, error) {
	simSleep(lk.deliverable(now()+2*lk.lat) - now())
	if lstn == nil || lstn.closed {
		return nil, os.NewSyscallError("connect", syscall.ECONNREFUSED)
	}
	c, s := newPair(lk, &net.TCPAddr{IP: net.ParseIP(clientIP), Port: port}, lstn.addr, seed)
	lstn.q = append(lstn.q, s)
	close(lstn.wake)
	lstn.wake = make(chan struct{})
	return c, nil
}

func hostPort(h string, p int) string { return fmt.Sprintf("%s:%d", h, p) }
