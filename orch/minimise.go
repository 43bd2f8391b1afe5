package main

import (
	"bytes"
	"encoding/json"
	"os/exec"
	"time"
)

// genPlan asks the simulator for the plan of a seed without running it.
func (s *sim) genPlan(j job) json.RawMessage {
	if j.plan != nil {
		return j.plan
	}
	c := exec.Command(s.bin)
	c.Env = []string{"GOMAXPROCS=1", "VERIFSIM_GENONLY=1", "VERIFSIM_OUT=-", "VERIFSIM_SCRATCH=" + s.dir, "VERIFSIM_GEN=" + j.profile + ":" + itoa(j.seed)}
	b, err := c.Output()
	if err != nil || !json.Valid(b) {
		return nil
	}
	return b
}

func itoa(n uint64) string {
	b, _ := json.Marshal(n)
	return string(b)
}

type jmap = map[string]any

func decodePlan(b []byte) jmap {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var m jmap
	if d.Decode(&m) != nil {
		return nil
	}
	return m
}

func clone(m jmap) jmap {
	b, _ := json.Marshal(m)
	return decodePlan(b)
}

// minimise shrinks a plan while the same kind of violation of the same
// property remains.
func (e *explorer) minimise(plan json.RawMessage, kind string) (json.RawMessage, int, int) {
	budget := 45 * time.Second
	if kind == "hang" {
		return plan, 0, 0
	}
	t0 := time.Now()
	cur := decodePlan(plan)
	if cur == nil {
		return plan, 0, 0
	}
	tried, kept := 0, 0
	fails := func(b json.RawMessage) bool {
		o := e.s.run(job{plan: b, wd: 40 * time.Second}, false)
		for _, v := range o.viols() {
			if v.has(e.p.id) && v.Kind == kind && e.isKnown(v) == nil {
				return true
			}
		}
		return false
	}
	// try evaluates candidates in parallel and takes the first, in order,
	// that still fails.
	try := func(cands []jmap) bool {
		for len(cands) > 0 && time.Since(t0) < budget {
			n := workers()
			if n > len(cands) {
				n = len(cands)
			}
			ok := make([]bool, n)
			done := make(chan int, n)
			bs := make([]json.RawMessage, n)
			for i := 0; i < n; i++ {
				bs[i], _ = json.Marshal(cands[i])
				go func(i int) { ok[i] = fails(bs[i]); done <- i }(i)
			}
			for i := 0; i < n; i++ {
				<-done
			}
			tried += n
			for i := 0; i < n; i++ {
				if ok[i] {
					cur = cands[i]
					kept++
					return true
				}
			}
			cands = cands[n:]
		}
		return false
	}
	with := func(f func(m jmap) bool) []jmap {
		m := clone(cur)
		if m == nil || !f(m) {
			return nil
		}
		return []jmap{m}
	}
	// ddmin over a list found by get
	shrink := func(get func(m jmap) []any, set func(m jmap, l []any)) {
		size := len(get(cur))
		for chunk := (size + 1) / 2; chunk >= 1; {
			l := get(cur)
			if len(l) == 0 || time.Since(t0) > budget {
				return
			}
			var cands []jmap
			for at := 0; at < len(l); at += chunk {
				end := at + chunk
				if end > len(l) {
					end = len(l)
				}
				m := clone(cur)
				x := get(m)
				set(m, append(append([]any{}, x[:at]...), x[end:]...))
				cands = append(cands, m)
			}
			if !try(cands) {
				if chunk == 1 {
					return
				}
				chunk = (chunk + 1) / 2
			} else if n := len(get(cur)); chunk > n && n > 0 {
				chunk = (n + 1) / 2
			}
		}
	}
	list := func(k string) (func(m jmap) []any, func(m jmap, l []any)) {
		return func(m jmap) []any { l, _ := m[k].([]any); return l }, func(m jmap, l []any) { m[k] = l }
	}
	shrink(list("reqs"))
	// connections without requests go too, if that keeps the failure
	shrink(list("conns"))
	shrink(list("faults"))
	// the schedule
	sched := func(kv jmap) {
		try(with(func(m jmap) bool {
			s, _ := m["sched"].(jmap)
			ch := false
			for k, v := range kv {
				if s != nil && json.Number(itoa64(v)) != s[k] {
					s[k] = v
					ch = true
				}
			}
			return ch
		}))
	}
	sched(jmap{"stallP": 0, "yieldP": 0, "hotP": 0, "mode": 0})
	sched(jmap{"hotP": 0})
	sched(jmap{"stallP": 0})
	sched(jmap{"yieldP": 0})
	sched(jmap{"mode": 0})
	// objects: drop optional fields
	objs := func(get func(m jmap) []any, keys []string) {
		for i := range get(cur) {
			for _, k := range keys {
				try(with(func(m jmap) bool {
					l := get(m)
					if i >= len(l) {
						return false
					}
					o, _ := l[i].(jmap)
					if o == nil {
						return false
					}
					if _, ok := o[k]; !ok {
						return false
					}
					delete(o, k)
					return true
				}))
			}
		}
	}
	hosts, _ := list("hosts")
	for i := range hosts(cur) {
		for _, k := range []string{"outages", "down", "jwks"} {
			shrink(func(m jmap) []any { o, _ := hosts(m)[i].(jmap); l, _ := o[k].([]any); return l },
				func(m jmap, l []any) { o, _ := hosts(m)[i].(jmap); o[k] = l })
		}
		for _, k := range []string{"dial", "accept"} {
			o, _ := hosts(cur)[i].(jmap)
			d, _ := o[k].(jmap)
			for _, key := range sortedKeys(d) {
				try(with(func(m jmap) bool {
					o, _ := hosts(m)[i].(jmap)
					d, _ := o[k].(jmap)
					delete(d, key)
					return true
				}))
			}
		}
	}
	objs(hosts, []string{"loss", "tiny", "idleClose"})
	conns, _ := list("conns")
	objs(conns, []string{"loss", "tiny", "outages", "idleEnd"})
	reqs, _ := list("reqs")
	for i := range reqs(cur) {
		shrink(func(m jmap) []any { o, _ := reqs(m)[i].(jmap); l, _ := o["hdr"].([]any); return l },
			func(m jmap, l []any) { o, _ := reqs(m)[i].(jmap); o["hdr"] = l })
	}
	objs(reqs, []string{"gap", "pieces", "readDelay", "readGap", "expect100"})
	for i := range reqs(cur) {
		bl := func(m jmap) []any { o, _ := reqs(m)[i].(jmap); l, _ := o["behavs"].([]any); return l }
		for n := len(bl(cur)); n > 1; n-- {
			if !try(with(func(m jmap) bool {
				o, _ := reqs(m)[i].(jmap)
				l := bl(m)
				if len(l) < 2 {
					return false
				}
				o["behavs"] = l[:len(l)-1]
				return true
			})) {
				break
			}
		}
		objs(bl, []string{"hdr", "enc", "framing", "pieces", "gap", "close", "early", "interim"})
	}
	b, err := json.Marshal(cur)
	if err != nil {
		return plan, tried, kept
	}
	return b, tried, kept
}

func itoa64(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
