package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// A patch is an exact textual replacement in a file of the Go distribution.
// Every "old" must occur exactly once (n<0: at least once); anything else stops the build loudly,
// so a different toolchain can never silently lose the simulator's control.
type patch struct {
	file     string
	old, new string
	n        int
}

var patches = []patch{
	// no sysmon thread: nothing preempts, nothing retakes the P on wall time
	{file: "runtime/proc.go", old: `const haveSysmon = GOARCH != "wasm"`, new: `const haveSysmon = false`},
	// seeded choice among the runnable goroutines
	{file: "runtime/proc.go", old: `		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}
	}
}

// runqdrain drains`, new: `		if simOn && t-h > 1 {
			if i := simPick(t - h); i != 0 {
				a, b := h%uint32(len(pp.runq)), (h+i)%uint32(len(pp.runq))
				x := pp.runq[b]
				// keep the relative order of the others
				for k := i; k > 0; k-- {
					pp.runq[(h+k)%uint32(len(pp.runq))] = pp.runq[(h+k-1)%uint32(len(pp.runq))]
				}
				pp.runq[a] = x
			}
		}
		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}
	}
}

// runqdrain drains`},
	// discrete-event clock: when nothing is runnable, jump to the next timer
	{file: "runtime/proc.go", old: `	// Spinning Ms: steal work from other Ps.
	//
	// Limit the number`, new: `	if simOn && gcBlackenEnabled == 0 {
		if when := timeSleepUntil(); when < maxWhen {
			if when > faketime {
				faketime = when
			}
			simJumps++
			goto top
		}
	}

	// Spinning Ms: steal work from other Ps.
	//
	// Limit the number`},
	// keep goroutines that call Gosched on the (seeded) local queue
	{file: "runtime/rand.go", old: `	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next is marked nosplit,
		// so we don't need to use mp.locks
		// on the fast path, which is that the
		// first attempt succeeds.
		x, ok := c.Next()
		if ok {
			return x
		}
		mp.locks++ // hold m even though c.Refill may do stack split checks
		c.Refill()
		mp.locks--
	}
`, new: `	return simNext(&simRandState)
`},
	{file: "runtime/rand.go", old: `	mp := getg().m
	// Implement wyrand: https://github.com/wangyi-fudan/wyhash
	// Only the platform that supports 64-bit multiplication
	// natively should be allowed.
	if bits.UintSize == 64 {
		mp.cheaprand += 0x53c5ca59
		hi, lo := bits.Mul32(mp.cheaprand, mp.cheaprand^0x74743c1b)
		return hi ^ lo
	}
`, new: `	if bits.UintSize == 64 {
		return uint32(simNext(&simCheapState))
	}
	mp := getg().m
`},
	{file: "runtime/rand.go", old: `		mp := getg().m
		// Implement wyrand: https://github.com/wangyi-fudan/wyhash
		mp.cheaprand64 += 0xa0761d6478bd642f
		hi, lo := bits.Mul64(mp.cheaprand64, mp.cheaprand64^0xe7037ed1a0b428db)
		return hi ^ lo
`, new: `		return simNext(&simCheapState)
`},
	{file: "runtime/rand.go", old: `	if len(startupRand) >= 16 &&
		// Check that`, new: `	for i := range seed {
		seed[i] = byte(i*7 + 1)
	}
	startupRand = nil
	if true {
	} else if len(startupRand) >= 16 &&
		// Check that`},
	// network seam
	{file: "net/dial.go", old: `	ctx, cancel := d.dialCtx(ctx)
	defer cancel()

	// Shadow the nettrace`, new: `	ctx, cancel := d.dialCtx(ctx)
	defer cancel()

	if SimDial != nil {
		return SimDial(ctx, network, address)
	}

	// Shadow the nettrace`},
	{file: "net/dial.go", old: `	addrs, err := DefaultResolver.resolveAddrList(ctx, "listen", network, address, nil)
	if err != nil {
		return nil, &OpError{Op: "listen", Net: network, Source: nil, Addr: nil, Err: err}
	}
	sl := &sysListener{
		ListenConfig: *lc,
		network:      network,
		address:      address,
	}
	var l Listener
`, new: `	if SimListen != nil {
		return SimListen(network, address)
	}
	addrs, err := DefaultResolver.resolveAddrList(ctx, "listen", network, address, nil)
	if err != nil {
		return nil, &OpError{Op: "listen", Net: network, Source: nil, Addr: nil, Err: err}
	}
	sl := &sysListener{
		ListenConfig: *lc,
		network:      network,
		address:      address,
	}
	var l Listener
`},
	{file: "net/dial.go", old: "type Dialer struct {", new: "type simHooks struct{}\n\n// SimDial and SimListen are the simulated network.\nvar SimDial func(ctx context.Context, network, address string) (Conn, error)\nvar SimListen func(network, address string) (Listener, error)\n\n// A Dialer contains options for connecting to an address.\ntype Dialer struct {"},
	// a record of requests the HTTP transport repeats by itself
	{file: "net/http/transport.go", old: `		testHookRoundTripRetried()

		// Rewind`, new: `		testHookRoundTripRetried()
		if SimReplay != nil {
			SimReplay(req)
		}

		// Rewind`},
	{file: "net/http/transport.go", old: `// shouldRetryRequest reports whether`, new: `// SimReplay is told of every request the transport sends again.
var SimReplay func(*Request)

// shouldRetryRequest reports whether`},
	// file seam
	{file: "os/file.go", old: `	testlog.Open(name)
	f, err := openFileNolog(name, flag, perm)`, new: `	testlog.Open(name)
	if SimOpen != nil {
		if err := SimOpen(name, flag); err != nil {
			return nil, &PathError{Op: "open", Path: name, Err: err}
		}
	}
	f, err := openFileNolog(name, flag, perm)`},
	{file: "os/file.go", old: `		return 0, err
	}
	n, e := f.read(b)
	return n, f.wrapErr("read", e)`, new: `		return 0, err
	}
	if SimRead != nil {
		max, err := SimRead(f.name, len(b))
		if err != nil {
			return 0, &PathError{Op: "read", Path: f.name, Err: err}
		}
		if max >= 0 && max < len(b) {
			b = b[:max]
		}
	}
	n, e := f.read(b)
	return n, f.wrapErr("read", e)`},
	{file: "os/proc.go", old: `func Exit(code int) {
`, new: `func Exit(code int) {
	if SimExit != nil {
		SimExit(code)
	}
`},
	{file: "os/proc.go", old: "// Exit causes the current program", new: `// SimOpen, SimRead and SimExit are the simulated operating system.
var SimOpen func(name string, flag int) error
var SimRead func(name string, n int) (max int, err error)
var SimExit func(code int)

// Exit causes the current program`},
	// crypto randomness
	{file: "crypto/internal/sysrand/rand.go", old: `func Read(b []byte) {
`, new: `func Read(b []byte) {
	if true {
		for i := 0; i < len(b); {
			v := simRuntimeRand()
			for k := 0; k < 8 && i < len(b); k++ {
				b[i] = byte(v)
				v >>= 8
				i++
			}
		}
		return
	}
`},
	{file: "crypto/internal/sysrand/rand.go", old: `//go:linkname fatal
func fatal(string)
`, new: `//go:linkname fatal
func fatal(string)

//go:linkname simRuntimeRand runtime.rand
func simRuntimeRand() uint64
`},
}

// Map writes are interruptible half way, see simMapWrite.
func init() {
	for _, f := range []string{"map.go", "runtime.go", "runtime_fast32.go", "runtime_fast64.go", "runtime_faststr.go"} {
		patches = append(patches, patch{file: "internal/runtime/maps/" + f, old: "\tm.writing ^= 1 // toggle, see comment on writing\n",
			new: "\tm.writing ^= 1 // toggle, see comment on writing\n\tsimMapWrite()\n", n: -1})
	}
	patches = append(patches, patch{file: "internal/runtime/maps/runtime.go", old: "//go:linkname fatal\nfunc fatal(s string)\n",
		new: "//go:linkname fatal\nfunc fatal(s string)\n\n//go:linkname simMapWrite\nfunc simMapWrite()\n"})
}

// writeGoroot writes the patched distribution files under dir and returns
// the overlay entries.
func writeGoroot(goroot, dir, verif string) (map[string]string, error) {
	out := map[string]string{}
	bodies := map[string]string{}
	for _, p := range patches {
		src := filepath.Join(goroot, "src", p.file)
		b, ok := bodies[src]
		if !ok {
			x, err := os.ReadFile(src)
			if err != nil {
				return nil, err
			}
			b = string(x)
		}
		if c := strings.Count(b, p.old); c != 1 && !(p.n < 0 && c > 1) {
			return nil, fmt.Errorf("simulator patch for %s: anchor occurs %d times, want 1: %q", p.file, c, firstLine(p.old))
		}
		bodies[src] = strings.ReplaceAll(b, p.old, p.new)
	}
	i := 0
	for src, b := range bodies {
		i++
		dst := filepath.Join(dir, "goroot", strings.ReplaceAll(strings.TrimPrefix(src, goroot+"/src/"), "/", "__"))
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(dst, []byte(b), 0o644); err != nil {
			return nil, err
		}
		out[src] = dst
	}
	for name, f := range map[string]string{
		"runtime/zz_verifsim.go": "runtime_sim.go.txt",
		"runtime/time_fake.go":   "time_fake.go.txt",
	} {
		b, err := os.ReadFile(filepath.Join(verif, "overlay", f))
		if err != nil {
			return nil, err
		}
		dst := filepath.Join(dir, "goroot", strings.ReplaceAll(name, "/", "__"))
		if err := os.WriteFile(dst, b, 0o644); err != nil {
			return nil, err
		}
		out[filepath.Join(goroot, "src", name)] = dst
	}
	return out, nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i > 0 {
		return s[:i]
	}
	return s
}
