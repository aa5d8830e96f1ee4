package main

import (
	"fmt"
	"math"
	"time"
	"vsa"
	"vsa/zsim/rt"
)

// Scenario "vsa": several goroutines drive one accumulator through its whole
// API, under every constructor option.

type vst struct{ S, Net int64 }

func iabs(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

// vsaSpec is the sequential meaning of the API: S durable base, Net volatile.
func vsaSpec(s vst, e *Ev, mayDeny bool) []vst {
	one := func(ok bool, n vst) []vst {
		if ok {
			return []vst{n}
		}
		return nil
	}
	switch e.K {
	case "con":
		can := e.N > 0 && s.S-iabs(s.Net) >= e.N
		if e.OK {
			return one(can, vst{s.S, s.Net + e.N})
		}
		return one(!can || mayDeny, s)
	case "ref":
		if e.N <= 0 || s.Net <= 0 {
			return one(!e.OK, s)
		}
		return one(e.OK, vst{s.S, s.Net - min(e.N, s.Net)})
	case "upd":
		return []vst{{s.S, s.Net + e.N}}
	case "av":
		return one(e.R1 == s.S-iabs(s.Net), s)
	case "st":
		return one(e.R1 == s.S && e.R2 == s.Net, s)
	case "cc":
		if iabs(s.Net) >= e.N {
			return one(e.OK && e.R1 == s.Net, s)
		}
		return one(!e.OK, s)
	case "com":
		m := min(iabs(e.N), iabs(s.Net))
		if s.Net > 0 {
			return []vst{{s.S - m, s.Net - m}}
		}
		return []vst{{s.S - m, s.Net + m}}
	case "close":
		return []vst{s}
	}
	panic("kind " + e.K)
}

const (
	vmGate  = 0 // TryConsume/TryRefund/Commit/reads only
	vmPos   = 1 // plus positive Updates, no refunds
	vmMixed = 2 // signed Updates, no commits
	vmSeq   = 3 // everything, one client
)

func vsaOpts(w *World) vsa.Options {
	return vsa.Options{
		Stripes: int(w.P("stripes")), CheapUpdateChooser: w.P("cheap") == 1, PerPUpdateChooser: w.P("perp") == 1,
		UseCachedGate: w.P("cached") == 1, CacheInterval: time.Duration(w.P("cint")), CacheSlack: w.P("slack"),
		GroupCount: int(w.P("groups")), GroupSlack: w.P("gslack"), FastPathGuard: w.P("guard"), HierarchicalGroups: int(w.P("hier")),
	}
}

func genOpts(r *rt.RNG, P map[string]int64, plain bool) {
	P["stripes"] = rt.Pick(r, int64(0), 0, 1, 8, 9, 16, 64, 200)
	P["cheap"] = int64(r.N(8) / 7)
	P["perp"] = int64(r.N(8) / 7)
	if r.N(3) == 0 {
		P["hier"] = rt.Pick(r, int64(2), 3, 5, 7, 8, 64, 1000)
	}
	if plain {
		return
	}
	if r.N(3) == 0 {
		P["cached"] = 1
		P["cint"] = rt.Pick(r, int64(0), 20_000, 50_000, 300_000, 1_000_000)
		P["slack"] = rt.Pick(r, int64(0), 0, 1, 3, 10)
	}
	if r.N(3) == 0 {
		P["groups"] = rt.Pick(r, int64(2), 3, 4, 7, 8, 16, 100)
		P["gslack"] = rt.Pick(r, int64(0), 0, 1, 5)
	}
	if r.N(3) == 0 {
		P["guard"] = rt.Pick(r, int64(1), 2, 5, 10, 40)
		if r.N(30) == 0 {
			P["guard"] = math.MaxInt64
		}
	}
}

func genVSA(r *rt.RNG, p *Plan) {
	P := p.P
	genOpts(r, P, p.Prop == "C02" && r.N(2) == 0)
	if P["cached"] == 1 {
		p.Cfg.StepNs = min(p.Cfg.StepNs, 20)
		p.Cfg.StallMax = min(p.Cfg.StallMax, 400_000)
	}
	mode := rt.Pick(r, vmGate, vmGate, vmGate, vmGate, vmPos, vmMixed, vmSeq)
	if p.Prop == "C01" && mode == vmMixed {
		mode = vmGate
	}
	P["mode"] = int64(mode)
	clients := 2 + r.N(3)
	if mode == vmSeq {
		clients = 1
	}
	small := r.N(2) == 0
	P["s0"] = rt.Pick(r, int64(0), 1, 5, 12, 30, 100, 1000, 1000, 1<<40)
	if mode == vmSeq && r.N(4) == 0 {
		P["s0"] = -5
	}
	if P["guard"] > 0 && P["guard"] < 100 && r.N(2) == 0 {
		P["s0"] = P["guard"] + int64(r.N(30))
	}
	amt := func() int64 {
		if r.N(25) == 0 {
			return rt.Pick(r, int64(0), -1, -7)
		}
		if small {
			return 1 + r.I64(4)
		}
		return 1 + r.I64(max(2, P["s0"]))
	}
	per := 2 + r.N(6)
	if mode == vmSeq {
		per = 10 + r.N(25)
	}
	committer := r.N(2) == 0 // one dedicated committer or everybody
	for c := 0; c < clients; c++ {
		for i := 0; i < per; i++ {
			o := Op{C: c}
			switch x := r.N(100); {
			case committer && c == clients-1 && mode != vmMixed:
				o.K = rt.Pick(r, "scom", "scom", "com", "cc", "st")
				if o.K == "com" {
					o.N = amt()
				} else if o.K == "cc" {
					o.N = r.I64(8)
				}
			case x < 45:
				o.K, o.N = "con", amt()
			case x < 62:
				o.K, o.N = "ref", amt()
			case x < 70:
				o.K = "av"
			case x < 78:
				o.K = "st"
			case x < 83:
				o.K, o.N = "cc", r.I64(8)
			case x < 92:
				o.K = "scom"
			case x < 96:
				o.K, o.N = "com", amt()
				if r.N(3) == 0 {
					o.N = -o.N
				}
			default:
				o.K = "con"
				o.N = max(1, P["s0"]-r.I64(5))
			}
			switch mode {
			case vmPos:
				if o.K == "ref" || r.N(4) == 0 {
					o.K, o.N = "upd", 1+r.I64(4)
				}
			case vmMixed:
				if o.K == "ref" || o.K == "con" || o.K == "scom" || o.K == "com" {
					o.K = "upd"
					o.N = amt()
					if r.N(2) == 0 {
						o.N = -o.N
					}
				}
			case vmSeq:
				if r.N(4) == 0 {
					o.K, o.N = "upd", amt()
					if r.N(2) == 0 {
						o.N = -o.N
					}
				}
			}
			if r.N(6) == 0 {
				o.D = r.I64(3000)
				if P["cached"] == 1 {
					o.D = r.I64(3 * max(P["cint"], 1000))
				}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	// sequential tail by client 90
	for i := 0; i < 3+r.N(5); i++ {
		o := Op{C: clients, K: rt.Pick(r, "con", "con", "con", "ref", "scom", "st", "av"), N: 1 + r.I64(max(2, P["s0"]/2))}
		if (mode == vmMixed || mode == vmPos) && o.K == "ref" {
			o.K = "con"
		}
		if mode == vmMixed && (o.K == "scom") {
			o.K = "st"
		}
		if r.N(3) == 0 {
			o.N = 1
		}
		if mode != vmMixed && r.N(6) == 0 { // a commit of any amount, also one in the wrong direction
			o.K = "com"
			if r.N(3) == 0 {
				o.N = -o.N
			}
		}
		p.Ops = append(p.Ops, o)
	}
	if mode != vmMixed && r.N(4) == 0 { // absurd amounts
		for n := 1 + r.N(3); n > 0; n-- {
			o := &p.Ops[r.N(len(p.Ops))]
			if o.K == "con" || o.K == "ref" && mode != vmPos || o.K == "com" {
				o.N = rt.Pick(r, math.MaxInt64, math.MaxInt64, math.MaxInt64-r.I64(100), math.MaxInt64/2+r.I64(3), hugeN)
			}
		}
	}
	P["tail"] = int64(clients)
	P["close"] = int64(r.N(3))
}

// hugeN is more than any plan ever has available; larger amounts are recorded as this one.
const hugeN = 1 << 50

func doVSA(w *World, v *vsa.VSA, c int, o Op) {
	if o.D > 0 {
		rt.Sleep(o.D)
	}
	switch o.K {
	case "con":
		e := w.Begin(c, "con", "", min(o.N, hugeN), 0)
		e.OK = v.TryConsume(o.N)
		w.End(e)
	case "ref":
		e := w.Begin(c, "ref", "", min(o.N, hugeN), 0)
		e.OK = v.TryRefund(o.N)
		w.End(e)
	case "upd":
		e := w.Begin(c, "upd", "", o.N, 0)
		v.Update(o.N)
		w.End(e)
	case "av":
		e := w.Begin(c, "av", "", 0, 0)
		e.R1 = v.Available()
		w.End(e)
	case "st":
		e := w.Begin(c, "st", "", 0, 0)
		e.R1, e.R2 = v.State()
		w.End(e)
	case "cc":
		e := w.Begin(c, "cc", "", o.N, 0)
		e.OK, e.R1 = v.CheckCommit(o.N)
		w.End(e)
	case "scom": // what a committer does: read the vector, persist, commit it
		e := w.Begin(c, "st", "", 0, 0)
		e.R1, e.R2 = v.State()
		w.End(e)
		e2 := w.Begin(c, "com", "", e.R2, 0)
		v.Commit(e.R2)
		w.End(e2)
	case "com":
		e := w.Begin(c, "com", "", min(o.N, hugeN), 0)
		v.Commit(o.N)
		w.End(e)
	}
}

func runVSA(w *World) {
	s0 := w.P("s0")
	p := rt.NewProc("app")
	var v *vsa.VSA
	tasks := []*rt.Task{rt.Spawn(p, "new", func() {
		if v = nil; vsaOpts(w) == (vsa.Options{}) {
			v = vsa.New(s0)
		} else {
			v = vsa.NewWithOptions(s0, vsaOpts(w))
		}
	})}
	rt.Join(0, tasks...)
	byc, _ := w.ByClient()
	tail := int(w.P("tail"))
	var ts []*rt.Task
	gate := w.P("mode") == vmGate
	for c, ops := range byc {
		if c == tail {
			continue
		}
		c, ops := c, ops
		ts = append(ts, rt.Spawn(p, fmt.Sprintf("client%d", c), func() {
			for _, o := range ops {
				doVSA(w, v, c, o)
				if gate {
					watchA(w, v)
				}
			}
		}))
	}
	if w.P("close") == 1 && w.P("cached") == 1 { // closed while in use
		ts = append(ts, rt.Spawn(p, "closer", func() { rt.Sleep(w.P("cint") * 3); v.Close() }))
	}
	if !rt.Join(60_000_000_000, ts...) {
		w.Fail("C02", "hang", "operations did not finish: %s", w.Dump())
		rt.Stop()
	}
	quiet := 5*max(w.P("cint"), 100_000) + 4*w.Cfg.StallMax + w.Held()
	nConc := len(w.Hist)
	closed := w.P("close") == 1
	if len(byc) > tail {
		rt.Join(0, rt.Spawn(p, "tail", func() {
			for _, o := range byc[tail] {
				if w.P("cached") == 1 {
					rt.Sleep(quiet)
				}
				s, n := v.State()
				doVSA(w, v, 900, o)
				last := w.Hist[len(w.Hist)-1]
				for i := 0; i < 8 && o.K == "con" && !last.OK && w.P("cached") == 1 && s-iabs(n) >= o.N && !closed; i++ {
					rt.Sleep(quiet) // the cached value may refuse until it is refreshed
					doVSA(w, v, 900, Op{K: "con", N: o.N})
					last = w.Hist[len(w.Hist)-1]
				}
				// quiescent: the decision follows exactly from what State shows
				if o.K == "con" && o.N > 0 {
					can := s-iabs(n) >= o.N
					if last.OK && !can {
						w.Fail("C01", "oversubscribed-quiescent", "TryConsume(%d) was granted with S=%d and vector %d (only %d available)", o.N, s, n, s-iabs(n))
					}
					slack := int64(0)
					if w.P("cached") == 1 {
						slack = w.P("slack")
						if w.P("groups") > 1 {
							slack += w.P("gslack")
						}
					}
					if !last.OK && s-iabs(n)-slack >= o.N && !(closed && w.P("cached") == 1) {
						w.Fail("C02", "refused-quiescent", "TryConsume(%d) was refused with S=%d and vector %d (%d available, slack %d) and nothing else running", o.N, s, n, s-iabs(n), slack)
					}
				}
				if o.K == "ref" && o.N > 0 {
					s2, n2 := v.State()
					want := n
					if n > 0 {
						want = n - min(n, o.N)
					}
					if s2 != s || n2 != want || last.OK != (n > 0) {
						w.Fail("C03", "refund-effect", "TryRefund(%d) on S=%d vector=%d returned %v and left S=%d vector=%d", o.N, s, n, last.OK, s2, n2)
					}
				}
				if o.K == "com" {
					// moves up to what is pending out of the vector into the base, and nothing else
					s2, n2 := v.State()
					m := min(iabs(o.N), iabs(n))
					want := n - m
					if n < 0 {
						want = n + m
					}
					if s2 != s-m || n2 != want {
						w.Fail("C03", "commit-effect", "Commit(%d) on S=%d vector=%d left S=%d vector=%d", o.N, s, n, s2, n2)
					}
				}
			}
		}))
	}
	final := struct{ s, n, a int64 }{}
	rt.Join(0, rt.Spawn(p, "final", func() {
		final.a = v.Available()
		final.s, final.n = v.State()
	}))
	w.Hist = append(w.Hist, &Ev{C: 901, K: "st", Call: rt.Seq(), Ret: rt.Seq(), R1: final.s, R2: final.n})
	if final.a != final.s-iabs(final.n) {
		w.Fail("C02", "available-formula", "Available()=%d but State()=(%d,%d)", final.a, final.s, final.n)
	}
	vsaOracle(w, final.s, final.n, nConc)
	// the background refresher must end after Close, however often it is called
	if len(w.Violations) == 0 {
		// a request that is refused now is refused after Close, one that fits now fits then
		avail, refusedBefore := final.s-iabs(final.n), false
		probe := gate && !closed
		if probe {
			rt.Sleep(quiet)
			if avail > 0 {
				rt.Join(0, rt.Spawn(p, "probe", func() {
					if v.TryConsume(avail) {
						avail = 0
						final.s, final.n = v.State()
					} else {
						refusedBefore = true
					}
				}))
			}
			rt.Sleep(quiet)
		}
		n := 1 + w.R.N(3)
		var cs []*rt.Task
		for i := 0; i < n; i++ {
			cs = append(cs, rt.Spawn(p, "close", func() { v.Close() }))
		}
		if !rt.Join(1_000_000_000, cs...) {
			w.Fail("C04", "close-hang", "Close did not return: %s", w.Dump())
			rt.Stop()
		}
		rt.Poll(20_000_000_000, quiet, func() bool { return len(p.LiveTasks()) == 0 })
		if l := p.LiveTasks(); len(l) > 0 {
			w.Fail("C04", "goroutine-leak", "goroutines still alive after Close: %v", l)
		}
		rt.Join(0, rt.Spawn(p, "after", func() {
			if s, n := v.State(); s != final.s || n != final.n {
				w.Fail("C04", "close-changes-state", "Close changed the state from (%d,%d) to (%d,%d)", final.s, final.n, s, n)
			}
			if !probe {
				return
			}
			if refusedBefore && v.TryConsume(avail) {
				w.Fail("C04", "close-changes-decisions", "TryConsume(%d) was refused before Close and granted after it, with the state still (%d,%d)", avail, final.s, final.n)
			}
			slack := w.P("gslack") + w.P("slack")
			if k := avail - slack; refusedBefore && k > 0 && !v.TryConsume(k) {
				w.Fail("C04", "close-changes-decisions", "TryConsume(%d) was refused after Close with the state (%d,%d) and slack %d", k, final.s, final.n, slack)
			}
		}))
	}
}

// watchA observes the invariant A >= 0 while the run proceeds.
func watchA(w *World, v *vsa.VSA) {
	if w.P("s0") < 0 {
		return
	}
	if w.R.N(4) == 0 {
		if a := v.Available(); a < 0 {
			w.Fail("C01", "negative-availability", "Available() = %d: more was admitted than the limit %d", a, w.P("s0"))
		}
	}
}

func vsaOracle(w *World, fs, fn int64, nConc int) {
	s0 := w.P("s0")
	mode := w.P("mode")
	fast := w.P("guard") > 0
	// the only options that may refuse what would fit: a cached value, and a configured slack
	approx := w.P("cached") == 1 || (w.P("groups") > 1 && w.P("gslack") > 0)
	hist := w.Hist
	if mode == vmGate {
		var con, ref, refOps int64
		for _, e := range hist {
			if e.K == "con" && e.OK {
				con += e.N
			}
			if e.K == "ref" && e.OK {
				ref += e.N
				refOps++
			}
		}
		// no oversubscription, whatever the options
		if s0 >= 0 && fs-iabs(fn) < 0 {
			w.Fail("C01", "oversubscribed", "limit %d, but after all clients finished S=%d and vector=%d: availability is %d", s0, fs, fn, fs-iabs(fn))
		}
		if ref == 0 && s0 >= 0 && con > s0 {
			w.Fail("C01", "oversubscribed", "limit %d, but TryConsume granted %d in total without any refund", s0, con)
		}
		var outNow int64
		worst := int64(0)
		for _, e := range hist { // in order of invocation: a lower bound on what was outstanding when each grant ended
			if e.K == "con" && e.OK {
				outNow = 0
				for _, x := range hist {
					if x.K == "con" && x.OK && x.Ret <= e.Ret {
						outNow += x.N
					}
					if x.K == "ref" && x.OK && x.Call < e.Ret {
						outNow -= x.N
					}
				}
				worst = max(worst, outNow)
			}
		}
		if s0 >= 0 && worst > s0 {
			w.Fail("C01", "oversubscribed", "limit %d, but %d units were granted and not refunded at one instant", s0, worst)
		}
		// conservation across commits: consumed - refunded = (S0-S) + vector
		got := s0 - fs + fn
		if got > con || got < con-ref || (refOps == 0 && got != con) {
			w.Fail("C02", "conservation", "granted %d, refunded at most %d, but S went %d -> %d with vector %d (outstanding %d)", con, ref, s0, fs, fn, got)
		}
		if fn < 0 {
			w.Fail("C03", "negative-vector", "vector is %d after only admissions, refunds and commits", fn)
		}
		if got < 0 || s0-fs < 0 {
			w.Fail("C03", "refund-touches-base", "S rose from %d to %d", s0, fs)
		}
	}
	// S never rises and only moves while some Commit is running
	var lastS, lastAt, lastCall = s0, uint64(0), uint64(0)
	for _, e := range hist {
		if e.K != "st" || e.Ret == 0 {
			continue
		}
		overl := false
		for _, x := range hist {
			if x.K == "com" && x.N != 0 && x.Call < e.Ret && (x.Ret == 0 || x.Ret > lastCall) {
				overl = true
			}
		}
		if !overl && e.Call > lastAt && e.R1 != lastS {
			w.Fail("C03", "base-changed-without-commit", "S changed from %d to %d although no Commit ran", lastS, e.R1)
		}
		if e.Call > lastAt {
			if e.R1 > lastS {
				w.Fail("C03", "base-rose", "S rose from %d to %d", lastS, e.R1)
			}
			lastS, lastAt, lastCall = e.R1, e.Ret, e.Call
		}
	}
	switch {
	case (mode == vmGate && !fast) || mode == vmSeq:
		var h []*Ev
		for _, e := range hist {
			if e.C == 900 && e.K == "con" && !e.OK && approx {
				continue // refusals have no effect
			}
			if len(h) < 60 {
				h = append(h, e)
			}
		}
		mk := func(deny bool) linModel[vst] {
			return linModel[vst]{init: vst{s0, 0}, step: func(s vst, e *Ev) []vst { return vsaSpec(s, e, deny) }}
		}
		if !linearizable(mk(approx), h) {
			class, pr := "not-linearizable", "C02"
			w.Fail(pr, class, "no order of the %d operations explains their results (S0=%d):%s", len(h), s0, histStr(h))
			// which guarantee is it? try the history with one kind of result unconstrained
			if !hasReads(h) || linearizable(linModel[vst]{init: vst{s0, 0}, step: func(s vst, e *Ev) []vst {
				if e.K == "av" || e.K == "st" || e.K == "cc" {
					return []vst{s}
				}
				return vsaSpec(s, e, approx)
			}}, h) {
				break
			}
		}
	case mode == vmPos || (mode == vmGate && fast):
		intervalOracle(w, hist, s0, approx)
	case mode == vmMixed:
		var sum int64
		for _, e := range hist {
			if e.K == "upd" || (e.K == "con" && e.OK) {
				sum += e.N
			}
		}
		if fn != sum || fs != s0 {
			w.Fail("C02", "lost-update", "updates add up to %d but State() is (%d,%d), S0=%d", sum, fs, fn, s0)
		}
		for _, e := range hist {
			if e.K != "st" && e.K != "av" {
				continue
			}
			lo, hi := int64(0), int64(0)
			for _, x := range hist {
				if x == e || !(x.K == "upd" || (x.K == "con" && x.OK)) {
					continue
				}
				switch {
				case x.Ret != 0 && x.Ret < e.Call:
					lo += x.N
					hi += x.N
				case x.Call < e.Ret:
					if x.N > 0 {
						hi += x.N
					} else {
						lo += x.N
					}
				}
			}
			if e.K == "st" && (e.R2 < lo || e.R2 > hi) {
				w.Fail("C02", "read-out-of-bounds", "State() vector %d outside [%d,%d], what completed and concurrent updates allow", e.R2, lo, hi)
			}
			if e.K == "av" {
				m := max(iabs(lo), iabs(hi))
				if e.R1 > s0 || e.R1 < s0-m {
					w.Fail("C02", "read-out-of-bounds", "Available() %d outside [%d,%d]", e.R1, s0-m, s0)
				}
			}
		}
	}
}

func hasReads(h []*Ev) bool {
	for _, e := range h {
		if e.K == "av" || e.K == "st" || e.K == "cc" {
			return true
		}
	}
	return false
}

func histStr(h []*Ev) string {
	s := ""
	for _, e := range h {
		s += "\n    " + e.String()
	}
	return s
}

// intervalOracle: consumption so far lies between what had completed before
// an operation began and what had begun before it ended.
func intervalOracle(w *World, hist []*Ev, s0 int64, mayDeny bool) {
	for _, e := range hist {
		if e.Ret == 0 {
			continue
		}
		lo, hi, tried := int64(0), int64(0), int64(0)
		for _, x := range hist {
			if x == e {
				continue
			}
			add := x.K == "upd" || (x.K == "con" && x.OK)
			sub := x.K == "ref" && x.OK
			if x.K == "con" && !x.OK && x.N > 0 && x.Call < e.Ret && (x.Ret == 0 || x.Ret > e.Call) {
				tried += min(x.N, max(s0-tried, 0)) // may have been reserved for a moment
			}
			if !add && !sub {
				continue
			}
			before := x.Ret != 0 && x.Ret < e.Call
			during := x.Call < e.Ret
			switch {
			case add && before:
				lo += x.N
				hi += x.N
			case add && during:
				hi += x.N
			case sub && during:
				lo -= x.N
			}
		}
		lo = max(lo, 0)
		switch e.K {
		case "st":
			if g := s0 - e.R1 + e.R2; g < lo || g > hi {
				w.Fail("C02", "read-out-of-bounds", "State() = (%d,%d) shows %d consumed of %d, but it must lie in [%d,%d]", e.R1, e.R2, g, s0, lo, hi)
			}
		case "av":
			if g := s0 - e.R1; g < lo || g > hi {
				w.Fail("C02", "read-out-of-bounds", "Available() = %d shows %d consumed of %d, but it must lie in [%d,%d]", e.R1, g, s0, lo, hi)
			}
		case "con":
			if e.OK && lo+e.N > s0 {
				w.Fail("C01", "oversubscribed", "TryConsume(%d) granted although at least %d of %d was already taken", e.N, lo, s0)
			}
			if !e.OK && !mayDeny && e.N > 0 && e.N <= s0-hi-tried {
				w.Fail("C02", "refused", "TryConsume(%d) refused although at most %d of %d could have been taken", e.N, hi, s0)
			}
		}
	}
}

func init() {
	register(&Scenario{Name: "vsa", HoldMax: 200_000, Real: "vsa.VSA (all of vsa.go), its background refresher goroutine", Stub: "clock, scheduler, sync, sync/atomic, sync.Pool, procPin", Gen: genVSA, Run: runVSA, Hang: "C02", Panic: "C02"})
	prop(&PropDef{ID: "C01", Uses: []Use{{"vsa", 1}}, Quick: 1000000, Rule: "Cases: 2-5 goroutines each run a random program over one accumulator built with random options."})
	prop(&PropDef{ID: "C02", Uses: []Use{{"vsa", 1}}, Quick: 1000000, Rule: "Cases: 2-5 goroutines each run a random program over one accumulator built with random options."})
	prop(&PropDef{ID: "C03", Uses: []Use{{"vsa", 1}}, Quick: 1000000, Rule: "Cases: 2-5 goroutines each run a random program over one accumulator built with random options."})
	prop(&PropDef{ID: "C04", Uses: []Use{{"vsa", 15}, {"worker", 1}}, Quick: 800000, Rule: "Cases: 2-5 goroutines each run a random program over one accumulator built with random options; in one case of sixteen, a store whose accumulators have background refreshers, raced for on first touch, evicted, stopped and closed."})
}
