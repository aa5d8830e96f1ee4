package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"
	"vsa"
	"vsa/internal/ratelimiter/core"
	"vsa/zsim/rt"
)

// Scenario "worker": client goroutines admit and refund through a Store while
// the real background worker commits to a simulated storage that is slow and
// fails, evicts idle keys, and is finally stopped.

type row struct {
	Key     string
	Vec     int64
	Call    uint64
	Ret     uint64
	T0, T1  int64
	OK      bool
	Done    bool
	Batch   int
	AfterSt bool // the call began after Stop was invoked
}

type access struct {
	T0, T1 int64
	Ret    uint64
	ptr    *vsa.VSA
}

type workerWorld struct {
	w        *World
	rows     []*row
	durable  map[string]int64
	calls    int
	acc      map[string][]access
	stopCall uint64
	stopT    int64
	stopRet  uint64
	slowMax  int64
	evByKey  map[string][]*Ev
}

var errStore = errors.New("simulated storage failure")

// granted is how many units may have been taken for key so far (operations in flight included).
func (x *workerWorld) granted(key string) (hi int64) {
	for _, e := range x.evByKey[key] {
		if e.K == "con" && (e.Ret == 0 || e.OK) {
			hi += e.N
		}
	}
	return
}

// net of the operations on key that satisfy f.
func (x *workerWorld) net(key string, f func(e *Ev) bool) (n int64) {
	for _, e := range x.evByKey[key] {
		if e.Ret == 0 || !e.OK || !f(e) {
			continue
		}
		switch e.K {
		case "con":
			n += e.N
		case "ref":
			n -= e.N
		}
	}
	return
}

func anyEv(*Ev) bool { return true }

func (x *workerWorld) CommitBatch(cs []core.Commit) error {
	w := x.w
	x.calls++
	var mine []*row
	for _, c := range cs {
		r := &row{Key: c.Key, Vec: c.Vector, Call: rt.Seq(), T0: rt.Now(), Batch: x.calls, AfterSt: x.stopCall != 0}
		mine = append(mine, r)
		x.rows = append(x.rows, r)
		rt.Tracef("persist %s %d", c.Key, c.Vector)
	}
	kind, arg := rt.Fault("persist", "err", "slow", "slow-ack", "slow-err")
	if kind != "" && kind != "err" {
		d := arg % max(1, x.slowMax)
		if kind == "slow-ack" {
			d /= 2
			defer func() { // applied, but the acknowledgement takes its time
				rt.Sleep(d)
				for _, r := range mine {
					r.Ret, r.T1 = rt.Seq(), rt.Now()
				}
			}()
		}
		rt.Sleep(d)
	}
	if x.stopRet != 0 {
		w.Fail("C09", "persist-after-stop", "CommitBatch was still running or called after Stop had returned")
	}
	fail := kind == "err" || kind == "slow-err"
	seen := map[string]bool{}
	for i, r := range mine {
		r.Done, r.OK = true, !fail
		if fail {
			continue
		}
		if seen[r.Key] {
			w.Fail("C08", "duplicate-row", "one batch carries key %s twice", r.Key)
		}
		seen[r.Key] = true
		x.durable[r.Key] += cs[i].Vector
		if hi := x.granted(r.Key); x.durable[r.Key] > hi {
			w.Fail("C07,C08,C10", "over-persisted", "key %s: storage has recorded %d units, but at most %d have ever been admitted", r.Key, x.durable[r.Key], hi)
		}
	}
	for _, r := range mine {
		r.Ret, r.T1 = rt.Seq(), rt.Now()
	}
	if fail {
		return errStore
	}
	return nil
}

func (x *workerWorld) PrintFinalMetrics() {}

func genWorker(r *rt.RNG, p *Plan) {
	P := p.P
	genOpts(r, P, true)
	if r.N(6) == 0 || p.Prop == "C04" {
		P["cached"], P["cint"] = 1, 20_000_000
	}
	if r.N(6) == 0 {
		P["guard"] = rt.Pick(r, int64(2), 10)
	}
	p.Cfg.StallMax = min(p.Cfg.StallMax, 1_000_000)
	ms := int64(1_000_000)
	ci := rt.Pick(r, 2*ms, 10*ms, 50*ms)
	P["ci"] = ci
	P["limit"] = rt.Pick(r, int64(3), 20, 20, 100, 1000)
	T := rt.Pick(r, int64(1), 2, 3, 5, 10, 30)
	P["T"] = T
	if r.N(2) == 0 {
		P["low"] = rt.Pick(r, int64(1), T/2, max(1, T-1), T)
	}
	if r.N(3) == 0 || p.Prop == "C11" {
		P["ma"] = rt.Pick(r, ci, 5*ci, 20*ci) + 20*ms
	}
	P["ea"], P["ei"] = int64(time.Hour), 600_000*ms
	if r.N(2) == 0 || p.Prop == "C10" {
		P["ea"] = rt.Pick(r, 400*ms, 1000*ms)
		ci = max(ci, 10*ms)
		P["ci"] = ci
		P["ei"] = rt.Pick(r, 20*ms, 100*ms, 500*ms)
	}
	if r.N(3) != 0 {
		p.Rates["persist"] = rt.Pick(r, 0.1, 0.3, 0.7)
	}
	P["slow"] = rt.Pick(r, 2*ms, 30*ms, 200*ms)
	if P["ea"] < 2000*ms && r.N(2) == 0 {
		P["slow"] = P["ea"] * 2
	}
	nkeys := 1 + r.N(3)
	clients := 1 + r.N(4)
	if p.Prop == "C05" || p.Prop == "C04" || r.N(4) == 0 { // races around the first touch of a key
		nkeys, clients = 1+r.N(2), 2+r.N(4)
		P["rush"] = 1
	}
	P["refunds"] = int64(r.N(2))
	P["racystop"] = int64(r.N(4) / 3)
	if p.Prop == "C09" {
		P["racystop"] = int64(r.N(2))
	}
	if P["racystop"] == 1 {
		P["refunds"] = 0
	}
	P["stops"] = int64(1 + r.N(3))
	P["stopat"] = r.I64(12 * ci)
	P["wait"] = int64(r.N(3)) // quiet period before Stop
	if p.Prop == "C06" || p.Prop == "C10" || p.Prop == "C11" {
		P["wait"] = 1
	}
	per := 3 + r.N(14)
	hot := r.N(3) == 0
	names := keyNames(r)
	for c := 0; c < clients; c++ {
		for i := 0; i < per; i++ {
			o := Op{C: c, K: "con", S: names[r.N(nkeys)], N: 1}
			if hot && r.N(3) > 0 {
				o.S = names[0]
			}
			switch v := r.N(20); {
			case v < 5 && P["refunds"] == 1:
				o.K = "ref"
			case v < 7:
				o.K = "av"
			case v < 9:
				o.N = 1 + r.I64(max(1, T))
			case v < 11:
				o.N = T
			case v < 12:
				o.N = 1 + r.I64(P["limit"])
			}
			switch v := r.N(12); {
			case P["rush"] == 1 && i < 3:
			case v < 5:
				o.D = r.I64(2 * ci)
			case v < 6:
				o.D = r.I64(8 * ci)
			case v < 7 && P["ea"] < 2000*ms:
				o.D = P["ea"] - 60*ms + r.I64(120*ms+P["ei"]) // around the moment the key becomes stale
			case v < 8 && P["ma"] > 0:
				o.D = P["ma"] - 5*ms + r.I64(2*ci+10*ms)
			default:
				o.D = r.I64(20_000)
			}
			p.Ops = append(p.Ops, o)
		}
	}
	if q := rt.NewRNG(p.Seed ^ 0x10a); p.Prop == "C06" && q.N(12) == 0 { // grows during a commit, falls to the low watermark, grows again
		T := rt.Pick(q, int64(3), 5, 10)
		low := 1 + q.I64(T-1)
		for _, k := range []string{"ma", "wide", "cached"} {
			delete(P, k)
		}
		P["T"], P["low"], P["limit"], P["ci"], P["refunds"], P["racystop"], P["slow"] = T, low, 100, 10*ms, 1, 0, 30*ms
		P["ea"], P["ei"] = int64(time.Hour), 600_000*ms
		p.Rates["persist"] = rt.Pick(q, 0.7, 1)
		b := low + q.I64(max(1, T-low)) + q.I64(2)
		to := low + int64(q.N(3)) - 1
		p.Ops = []Op{{K: "con", S: names[0], N: T}, {K: "con", S: names[0], N: b, M: 2, D: 200_000 + q.I64(6*ms)}}
		for i := b; i > to; i-- {
			p.Ops = append(p.Ops, Op{K: "ref", S: names[0], N: 1, D: q.I64(rt.Pick(q, 20_000, 60*ms))})
		}
		p.Ops = append(p.Ops, Op{K: "con", S: names[0], N: T - to, D: 10*ms + q.I64(120*ms)})
	}
	if q := rt.NewRNG(p.Seed ^ 0xa119); q.N(4) == 0 { // operations that meet the background cycles
		kind := rt.Pick(q, int64(1), 2)
		if P["ea"] > 10_000*ms {
			kind = 2
		} else if p.Prop == "C10" {
			kind = 1
		}
		for i := range p.Ops {
			if q.N(3) == 0 {
				p.Ops[i].M, p.Ops[i].D = kind, q.I64(rt.Pick(q, int64(250_000), 2_000_000, 40_000_000))
			}
		}
	}
	if p.Prop == "C11" && P["ea"] < 10_000*ms && r.N(4) == 0 {
		P["ei"] = 3_000 * ms // long after the maximum age
		delete(P, "cached")
		for i := range p.Ops {
			p.Ops[i].M = 2 * min(p.Ops[i].M, 1)
		}
	}
	if r.N(50) == 0 { // many keys at once
		P["ci"] = max(P["ci"], 50*ms)
		P["slow"] = 100_000
		if P["ea"] < 10_000*ms {
			P["ei"] = 500 * ms
		}
		delete(P, "cached") // one ticker per key
		if P["stripes"] > 2 {
			P["stripes"] = 2
		}
		p.Cfg.StallMax = min(p.Cfg.StallMax, 2_000)
		P["limit"] = max(P["limit"], 2*T)
		n := wideSize(r, rt.Pick(r, int64(300), 300, 300, 1200), "core")
		for f := 1 + r.N(2); f > 0; f-- {
			o := Op{C: r.N(clients), K: "fill", S: "w", N: n, M: rt.Pick(r, int64(1), T, T, T+1), D: r.I64(3 * ci)}
			i := r.N(len(p.Ops) + 1)
			p.Ops = append(p.Ops[:i], append([]Op{o}, p.Ops[i:]...)...)
		}
	}
}

func runWorker(w *World) {
	x := &workerWorld{w: w, durable: map[string]int64{}, acc: map[string][]access{}, slowMax: w.P("slow"), evByKey: map[string][]*Ev{}}
	w.X = x
	p := rt.NewProc("app")
	limit, ci := w.P("limit"), w.P("ci")
	T, low, ma, ea, ei := w.P("T"), w.P("low"), w.P("ma"), w.P("ea"), w.P("ei")
	slack := 80*w.Cfg.StallMax + w.Lag(5000) + 20_000_000
	var store *core.Store
	var wk *core.Worker
	rt.Join(0, rt.Spawn(p, "init", func() {
		store = core.NewStoreWithOptions(limit, vsaOpts(w))
		wk = core.NewWorker(store, x, T, low, time.Duration(ci), time.Duration(ma), time.Duration(ea), time.Duration(ei))
		wk.Start()
	}))
	t00 := rt.Now()
	touch := func(key string) *vsa.VSA {
		a := access{T0: rt.Now()}
		a.ptr = store.GetOrCreate(key)
		a.T1 = rt.Now()
		a.Ret = rt.Seq()
		for _, b := range x.acc[key] {
			if b.ptr != a.ptr && iabs(a.T1-b.T0) < ea-slack && iabs(b.T1-a.T0) < ea-slack {
				w.Fail("C05,C10", "two-instances", "key %s: two instances within %d ms of each other although eviction needs %d ms of idleness", key, iabs(a.T1-b.T0)/1e6, ea/1e6)
			}
		}
		x.acc[key] = append(x.acc[key], a)
		return a.ptr
	}
	do := func(c int, o Op) {
		e := w.Begin(c, o.K, o.S, o.N, 0)
		x.evByKey[o.S] = append(x.evByKey[o.S], e)
		v := touch(o.S)
		switch o.K {
		case "con":
			e.OK = v.TryConsume(o.N)
		case "ref":
			e.OK = v.TryRefund(1)
			e.N = 1
		case "av":
			e.R1 = v.Available()
			e.OK = true
			if w.P("limit") >= 0 && e.R1 < 0 {
				w.Fail("C01,C05", "negative-availability", "key %s: Available() = %d", o.S, e.R1)
			}
			if e.R1 > limit {
				w.Fail("C05", "above-limit", "key %s: Available() = %d with limit %d", o.S, e.R1, limit)
			}
		}
		w.End(e)
	}
	byc, _ := w.ByClient()
	var ts []*rt.Task
	for c, ops := range byc {
		c, ops := c, ops
		ts = append(ts, rt.Spawn(p, fmt.Sprintf("client%d", c), func() {
			for _, o := range ops {
				if o.K != "fill" && o.M > 0 { // shortly before or after the next cycle (the next that finds the key idle)
					at, per := rt.Now()-t00, ci
					if o.M == 1 {
						at, per = at+ea, ei
					}
					rt.Sleep((at/per+1)*per - (rt.Now() - t00) - 200_000)
				}
				if o.D > 0 {
					rt.Sleep(o.D)
				}
				if o.K != "fill" {
					do(c, o)
					continue
				}
				for k := int64(0); k < o.N; k++ {
					do(c, Op{K: "con", S: fmt.Sprintf("%s%d", o.S, k), N: o.M})
				}
			}
		}))
	}
	long := int64(3600e9)
	racy := w.P("racystop") == 1
	if !racy {
		if !rt.Join(long, ts...) {
			w.Fail("C05", "hang", "clients did not finish: %s", w.Dump())
			rt.Stop()
		}
		x.policySafety()
		if w.P("wait") == 1 {
			w.FaultsOff = true
			last := rt.Now()
			quiet := (x.slowMax+200_000)*int64(2+len(x.evByKey)) + 5*ci + slack
			rt.Sleep(quiet)
			x.quietThreshold(slack)
			if ma > 0 {
				rt.Sleep(ma + 4*ci + slack)
				for k := range x.evByKey {
					if n := x.net(k, anyEv); x.durable[k] != n {
						w.Fail("C11", "max-age", "key %s has been idle for %d ms (max age %d ms, cycle %d ms) and storage works, but storage has %d of %d units", k, (rt.Now()-last)/1e6, ma/1e6, ci/1e6, x.durable[k], n)
					}
				}
			}
			if ea < 10e9 {
				rt.Sleep(ea + 3*ei + slack)
				for k := range x.evByKey {
					if n := x.net(k, anyEv); x.durable[k] != n {
						w.Fail("C10,C08", "evict-persist", "key %s is past its eviction age and storage works, but storage has %d of %d units", k, x.durable[k], n)
					}
				}
				rt.Join(0, rt.Spawn(p, "probe", func() {
					for k, as := range x.acc {
						old := as[len(as)-1].ptr
						v := store.GetOrCreate(k)
						if v == old {
							w.Fail("C10", "never-evicted", "key %s has been idle for its eviction age plus three scan intervals and is still in memory", k)
						}
						if s, n := v.State(); s != limit || n != 0 {
							w.Fail("C10,C05", "bad-fresh", "key %s came back after eviction with S=%d vector=%d instead of a fresh budget of %d", k, s, n, limit)
						}
					}
				}))
				rt.Sleep(ea + 3*ei + slack)
			}
		}
	} else {
		rt.Sleep(w.P("stopat"))
	}
	// Stop, possibly from several goroutines
	if w.R.N(3) > 0 {
		w.FaultsOff = true
	}
	before := map[string]int64{}
	var stops []*rt.Task
	nrows := len(x.rows)
	for i := int64(0); i < w.P("stops"); i++ {
		i := i
		stops = append(stops, rt.Spawn(p, "stop", func() {
			if i > 0 {
				rt.Sleep(i * 50_000)
			}
			first := x.stopCall == 0
			if first {
				x.stopCall, x.stopT = rt.Seq(), rt.Now()
				nrows = len(x.rows)
				for k := range x.evByKey {
					before[k] = x.net(k, anyEv)
				}
			}
			wk.Stop()
		}))
	}
	if !rt.Join(x.slowMax*20+60e9, stops...) {
		w.Fail("C09", "stop-hang", "Stop did not return: %s", w.Dump())
		rt.Stop()
	}
	x.stopRet = rt.Seq() // every caller of Stop has it back; the first one waits for the flush
	x.stopped(before, nrows, racy)
	if !rt.Join(long, ts...) {
		w.Fail("C05", "hang", "clients did not finish: %s", w.Dump())
		rt.Stop()
	}
	nAfter := len(x.rows)
	rt.Sleep(3*ci + min(3*ei, 5e9) + slack)
	if len(x.rows) != nAfter {
		w.Fail("C09", "persist-after-stop", "CommitBatch was called after Stop had returned")
	}
	x.final(store)
	// no goroutine outlives Stop and CloseAll
	rt.Join(0, rt.Spawn(p, "closeall", func() {
		if w.P("T")%2 == 1 {
			var ks []string
			for k := range x.evByKey {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks[:(len(ks)+1)/2] {
				store.Delete(k)
			}
		}
		store.CloseAll()
	}))
	rt.Poll(5e9, 1e6, func() bool { return len(p.LiveTasks()) == 0 })
	if l := p.LiveTasks(); len(l) > 0 {
		w.Fail("C04,C09", "goroutine-leak", "goroutines still alive after Stop and CloseAll: %v", l)
	}
	_ = t00
}

// policySafety: every row was due when it was written.
func (x *workerWorld) policySafety() {
	w := x.w
	T, low, ma, ea := w.P("T"), w.P("low"), w.P("ma"), w.P("ea")
	slack := w.Lag(2000) + 4_000_000
	failed := map[string]bool{}
	lastOK := map[string]*row{} // the key's last row, if it was a successful, purely threshold-driven one
	for _, r := range x.rows {
		if r.AfterSt {
			break
		}
		// why may this row be written?
		byT := iabs(r.Vec) >= T
		idleFor := func(age int64) bool { // may the key have been idle for age when the cycle looked?
			for _, a := range x.acc[r.Key] {
				if a.T1 <= r.T0-slack && r.T0-a.T0 < age-slack {
					return false
				}
			}
			return true
		}
		byAge := ma > 0 && idleFor(ma)
		byEvict := idleFor(ea)
		if !byT && !byAge && !byEvict {
			w.Fail("C06", "premature", "key %s: a row of %d was persisted below the threshold %d and without the key having been idle (max age %d ms, eviction age %d ms)", r.Key, r.Vec, T, ma/1e6, ea/1e6)
		}
		// hysteresis (decidable without refunds): after a commit the key must have been at or
		// below the low watermark, or have accumulated another full threshold
		if p := lastOK[r.Key]; p != nil && low > 0 && byT && !byAge && !byEvict && w.P("refunds") == 0 && !failed[r.Key] {
			var persisted int64
			for _, q := range x.rows {
				if q.Key == r.Key && q.OK && q.Ret <= p.Ret && q.Ret != 0 {
					persisted += q.Vec
				}
			}
			left := x.net(r.Key, func(e *Ev) bool { return e.Ret < p.Ret }) - persisted
			if left > low && r.Vec < left+T {
				w.Fail("C06", "hysteresis", "key %s: committed %d although it still held %d (low watermark %d) after the previous commit and had not grown by the threshold %d since", r.Key, r.Vec, left, low, T)
			}
			rt.Probe("hysteresis-judged")
			if left > low {
				rt.Probe("hysteresis-above-low")
			}
		}
		failed[r.Key] = !r.OK
		if r.OK {
			lastOK[r.Key] = r
			if byAge || byEvict || !byT {
				delete(lastOK, r.Key)
			}
		}
	}
}

// quietThreshold: nothing at or above the threshold stays uncommitted.
func (x *workerWorld) quietThreshold(slack int64) {
	w := x.w
	T, low := w.P("T"), w.P("low")
	for k := range x.evByKey {
		v := iabs(x.net(k, anyEv) - x.durable[k])
		if v < T || v <= low {
			continue
		}
		var resid int64
		if low > 0 {
			var last *row
			for _, r := range x.rows {
				if r.Key == k && r.OK {
					last = r
				}
			}
			if last != nil { // what the key may have held when that commit was applied
				base := x.net(k, func(e *Ev) bool { return e.Ret != 0 && e.Ret < last.Ret })
				for _, r := range x.rows {
					if r.Key == k && r.OK && r.Ret <= last.Ret {
						base -= r.Vec
					}
				}
				var up, dn int64
				for _, e := range x.evByKey[k] {
					if (e.K == "con" || e.K == "ref") && e.OK && (e.Ret == 0 || e.Ret > last.Ret) && e.T0 <= last.T1+slack {
						if e.K == "con" {
							up += e.N
						} else {
							dn += e.N
						}
					}
				}
				resid = max(iabs(base+up), iabs(base-dn))
			}
			if resid <= low || x.wasLow(k, last, slack) {
				resid = 0
			}
		}
		if v >= T+resid {
			w.Fail("C06", "never-committed", "key %s: %d units (threshold %d, low watermark %d) stay unpersisted although storage works and many commit intervals have passed", k, v, T, low)
		}
	}
}

// wasLow: after the row last the key has certainly been at or below the low watermark for a
// whole commit cycle, with nobody using it.
func (x *workerWorld) wasLow(k string, last *row, slack int64) bool {
	if last == nil {
		return false
	}
	at := int64(0) // when the latest operation so far was over
	for _, e := range x.evByKey[k] {
		if e.K != "av" && e.T0 > max(at, last.T1)+2*x.w.P("ci")+slack {
			if v := x.net(k, func(f *Ev) bool { return f.Call < e.Call }) - x.durable[k]; iabs(v) <= x.w.P("low") {
				rt.Probe("rearmed-at-low")
				return true
			}
		}
		if e.Ret == 0 {
			return false
		}
		at = max(at, e.T1)
	}
	return false
}

// stopped judges the moment the first Stop returned.
func (x *workerWorld) stopped(before map[string]int64, nrows int, racy bool) {
	w := x.w
	okAll := true
	for _, r := range x.rows[nrows:] {
		if !r.OK {
			okAll = false
		}
	}
	for _, r := range x.rows[:nrows] { // a batch that was under way
		if r.Ret == 0 || r.Ret > x.stopCall {
			if !r.OK {
				okAll = false
			}
		}
	}
	if !okAll {
		rt.Probe("final-flush-failed")
		return
	}
	for k, n := range before {
		if x.durable[k] < n {
			w.Fail("C09", "final-flush", "Stop returned and storage works, but key %s has %d of the %d units admitted before Stop was called in storage", k, x.durable[k], n)
		}
		if !racy && x.durable[k] != n {
			w.Fail("C08,C09", "conservation", "after Stop storage has %d units for key %s, but %d were admitted and not refunded", x.durable[k], k, n)
		}
	}
}

// final judges the state after Stop and after the clients ended.
func (x *workerWorld) final(store *core.Store) {
	w := x.w
	limit, ea := w.P("limit"), w.P("ea")
	ks := make([]string, 0, len(x.acc))
	for k := range x.acc {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	rt.Join(0, rt.Spawn(rt.NewProc("inspect"), "inspect", func() {
		for _, k := range ks {
			net := x.net(k, anyEv)
			d := x.durable[k]
			if d > x.granted(k) {
				w.Fail("C08", "over-persisted", "key %s: storage has %d units, only %d were admitted", k, d, x.granted(k))
			}
			if ea < 10e9 {
				// across evictions: storage plus what is still in memory
				v := store.GetOrCreate(k)
				s, n := v.State()
				_ = s
				if d+n < net && w.P("refunds") == 0 {
					w.Fail("C10,C08", "lost-units", "key %s: %d units admitted, storage has %d and memory %d", k, net, d, n)
				}
				continue
			}
			v := store.GetOrCreate(k)
			s, n := v.State()
			if limit-s+n != net {
				w.Fail("C07,C08", "memory-conservation", "key %s: %d units are taken, but S fell from %d to %d with vector %d", k, net, limit, s, n)
			}
			if w.P("refunds") == 0 && limit-s != d {
				w.Fail("C07,C08", "applied-differs", "key %s: storage has recorded %d units, but memory has applied %d (S %d of %d)", k, d, limit-s, s, limit)
			}
			if n < 0 {
				w.Fail("C08", "negative-vector", "key %s: vector %d", k, n)
			}
			// one budget per key, whoever asks
			if w.P("refunds") == 0 && net > limit {
				w.Fail("C01,C05", "oversubscribed", "key %s: %d units admitted with a limit of %d", k, net, limit)
			}
		}
	}))
}

func rowsStr(rs []*row) string {
	var b strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&b, "\n    %s %d ok=%v [%d..%d] %d..%d us", r.Key, r.Vec, r.OK, r.Call, r.Ret, r.T0/1000, r.T1/1000)
	}
	return b.String()
}

func init() {
	register(&Scenario{Name: "worker", HoldMax: 50_000_000, Real: "core.Store, core.Worker (commit loop, eviction loop, final flush), vsa.VSA, churn hooks", Stub: "the Persister (in-memory storage with injected errors and delays), clock, scheduler", Gen: genWorker, Run: runWorker, Hang: "C09", Panic: "C08"})
	rule := "Cases: 1-5 clients admit and refund on 1-3 keys through the store while the worker commits, evicts and is stopped; storage delays and failures injected."
	for _, id := range []string{"C05", "C06", "C07", "C08", "C09", "C10", "C11"} {
		uses := []Use{{"worker", 1}}
		if id == "C11" { // also with attempts that failed but were recorded
			uses = []Use{{"worker", 7}, {"durable", 1}}
		}
		if id == "C10" { // also as the service wires it
			uses = []Use{{"worker", 4}, {"api", 1}}
		}
		prop(&PropDef{ID: id, Uses: uses, Quick: 180000, Rule: rule})
	}
}
