package main

import (
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	proxy_main "vsa/cmd/tfd-proxy"
	"vsa/internal/sinks"
	"vsa/plugin/tfd"
	"vsa/zsim/rt"
	"vsa/zsim/shttp"
	"vsa/zsim/sos"
	"vsa/zsim/ssignal"
)

// Scenario "proxy": the whole two-lane proxy as its main() wires it, over
// several process lifetimes that share the logs.

const proxyAddr = ":9090"

type pop struct {
	e       *Ev
	key     string
	bucket  string
	delta   int64
	vec     bool
	seq     uint64 // known from the response
	known   bool   // answered 202
	durable uint64 // since when: a later /state answer was read from the logs, or the process ended in an orderly way
	gen     int
}

type proxyWorld struct {
	w       *World
	proc    *rt.Proc
	ops     []*pop
	gen     int
	downAt  uint64 // the current process is on its way out
	upAt    int64
	sigAt   int64 // when it was told to, 0 for a crash
	crashed map[int]bool
	werr0   int64 // failed writes when the current process came up
}

// disk sets which faults the disk produces: errors only while a process serves.
func (x *proxyWorld) disk(errors bool) {
	w := x.w
	w.FaultOnly = map[string][]string{"disk.write": {"slow"}, "disk.read": {}, "disk.open": {}}
	switch {
	case w.P("midcrash") == 1:
		w.FaultOnly["disk.write"] = []string{"slow", "slow", "crash-mid-write"}
	case w.P("diskerr") == 1 && errors:
		w.FaultOnly["disk.write"] = []string{"slow", "slow", "enospc", "eio", "short-enospc"}
		w.FaultOnly["disk.read"] = []string{"short-read", "eio-read"}
		w.FaultOnly["disk.open"] = []string{"emfile"}
	}
}

func (x *proxyWorld) werr() int64 {
	f := x.w.FaultCount
	return int64(f["enospc@disk.write"] + f["eio@disk.write"] + f["short-enospc@disk.write"])
}

func (x *proxyWorld) rerr() int64 {
	return int64(x.w.FaultCount["eio-read@disk.read"] + x.w.FaultCount["emfile@disk.open"])
}

// sick: a write of the current process failed, so it may lose what it accepts.
func (x *proxyWorld) sick() bool { return x.werr() > x.werr0 }

func genProxy(r *rt.RNG, p *Plan) {
	P := p.P
	ms := int64(1_000_000)
	p.Cfg.StallMax = min(p.Cfg.StallMax, 1_000_000)
	p.Cfg.MeanGap = max(p.Cfg.MeanGap, 8)
	P["shards"] = rt.Pick(r, int64(0), 1, 2, 4)
	P["order"] = rt.Pick(r, int64(0), 1, 1, 3)
	P["count"] = rt.Pick(r, int64(0), 1, 3, 1000)
	P["cap"] = rt.Pick(r, int64(0), 1*ms, 20*ms)
	P["fi"] = rt.Pick(r, int64(0), 2*ms, 20*ms, 200*ms)
	if r.N(2) == 0 {
		p.Rates["net.request"] = rt.Pick(r, 0.05, 0.2)
	}
	if r.N(2) == 0 {
		p.Rates["disk.write"] = rt.Pick(r, 0.1, 0.5)
		P["midcrash"] = int64(r.N(3) / 2)
	}
	if r.N(4) == 0 { // a failing disk
		P["diskerr"], P["midcrash"] = 1, 0
		p.Rates["disk.write"] = rt.Pick(r, 0.02, 0.1, 0.3)
		p.Rates["disk.read"] = rt.Pick(r, 0, 0.02, 0.2)
		p.Rates["disk.open"] = rt.Pick(r, 0, 0, 0.1)
	}
	gens := 1 + r.N(3)
	P["gens"] = int64(gens)
	P["early"] = int64(r.N(60) / 59)
	nk := 1 + r.N(3)
	names := keyNames(r)
	for g := 0; g < gens; g++ {
		P[fmt.Sprint("end", g)] = int64(r.N(3) / 2) // 1: crash
		P[fmt.Sprint("racy", g)] = int64(r.N(2))
		P[fmt.Sprint("endat", g)] = r.I64(rt.Pick(r, 2*ms, 20*ms, 300*ms))
		clients := 1 + r.N(4)
		for c := 0; c < clients; c++ {
			for i := 1 + r.N(12); i > 0; i-- {
				o := Op{C: c, M: int64(g), S: names[r.N(nk)], K: "con", N: r.I64(8)}
				switch v := r.N(24); {
				case v < 6:
					o.K = "rev"
				case v < 7:
					o.K = "lim"
				case v < 9:
					o.K = "sum"
				case v < 11:
					o.K = "sumb"
				case v == 11:
					o.K = "cells"
				case v == 12:
					o.K = "all"
				case v == 13:
					o.K = rt.Pick(r, "bad", "badrev", "badlim", "health", "met", "notfound")
				}
				switch v := r.N(10); {
				case v < 3:
					o.D = r.I64(2 * ms)
				case v < 5:
					o.D = r.I64(30 * ms)
				case v == 5:
					o.D = r.I64(250 * ms)
				}
				p.Ops = append(p.Ops, o)
			}
		}
		if r.N(5) == 0 { // connections whose request comes when the shutdown gives up waiting
			P[fmt.Sprint("racy", g)], P[fmt.Sprint("end", g)] = 1, 0
			P[fmt.Sprint("late", g)] = P[fmt.Sprint("endat", g)] + 5000*ms - 200_000 + r.I64(1500_000)
			for i := 1 + r.N(3); i > 0; i-- {
				p.Ops = append(p.Ops, Op{C: 4 + i, M: int64(g), S: names[r.N(nk)], K: rt.Pick(r, "lcon", "lcon", "lrev", "idle", "stuck"), N: r.I64(8)})
			}
		}
	}
}

func (x *proxyWorld) flags() []string {
	w := x.w
	d := func(k string) string { return time.Duration(w.P(k)).String() }
	n := func(k string) string { return strconv.FormatInt(w.P(k), 10) }
	return []string{"-shards=" + n("shards"), "-order_pow2=" + n("order"), "-count_thresh=" + n("count"), "-time_cap=" + d("cap"), "-flush=" + d("fi"),
		"-s_log=s.log", "-v_log=v.log", "-http=" + proxyAddr}
}

func bucketName(o Op) string {
	i := (o.N + int64(o.C)) % 3
	if len(o.S) > 60 && i > 0 { // long as the key, alike but for the end
		return strings.TrimSuffix(strings.TrimSuffix(o.S, "a"), "b") + fmt.Sprint(i)
	}
	return []string{"", "b0", "B0 &"}[i]
}

var amounts = []string{"", "1", "-1", "3", "0", "1000000000000000", "-7", "abc"}
var amountVal = []int64{1, 1, -1, 3, 0, 1000000000000000, -7, 1}

func (x *proxyWorld) request(c int, o Op) {
	w := x.w
	key := url.QueryEscape(o.S)
	bucket := bucketName(o)
	amt := int(o.N) % len(amounts)
	target := ""
	var po *pop
	late := int64(0)
	switch o.K {
	case "stuck":
		shttp.Stuck(proxyAddr, 600e9)
		return
	case "idle":
		shttp.Idle(proxyAddr, w.P(fmt.Sprint("late", x.gen)))
		return
	case "lcon", "lrev":
		o.K = o.K[1:]
		late = w.P(fmt.Sprint("late", x.gen))
	}
	switch o.K {
	case "con", "rev":
		target = fmt.Sprintf("/%s?key=%s&bucket=%s&n=%s", map[string]string{"con": "consume", "rev": "reverse"}[o.K], key, url.QueryEscape(bucket), amounts[amt])
		po = &pop{key: o.S, bucket: bucket, delta: amountVal[amt], vec: o.K == "rev"}
		if po.vec {
			po.delta = -po.delta
		}
	case "lim":
		target = "/set_limit?key=" + key + "&rps=10"
		po = &pop{key: o.S, vec: true}
	case "sum":
		target = "/state?sum=1&key=" + key
	case "sumb":
		if bucket == "" {
			bucket = "b0"
		}
		target = "/state?sum=1&key=" + key + "&bucket=" + url.QueryEscape(bucket)
	case "cells":
		target = "/state?key=" + key
	case "all":
		target = "/state"
	case "bad":
		target = "/consume?bucket=b0&n=1"
	case "badrev":
		target = "/reverse?n=1"
	case "badlim":
		target = "/set_limit?rps=3"
	case "health":
		target = "/healthz"
	case "met":
		target = "/metrics"
	case "notfound":
		target = "/nothing"
	}
	e := w.Begin(c, o.K, o.S, o.N, int64(x.gen))
	if po != nil {
		po.e, po.gen = e, x.gen
		x.ops = append(x.ops, po)
	}
	rerr := x.rerr()
	r := shttp.DoLate(proxyAddr, "POST", target, 60e9, late)
	switch {
	case r.Err == shttp.ErrRefused:
		e.Err = "refused"
	case r.Err == shttp.ErrTimeout:
		w.Fail("C24", "no-answer", "%s got no answer within 60 s", target)
	case r.Err != nil:
		e.Err = "unknown"
	default:
		e.R1, e.Str = int64(r.Status), r.Body
	}
	w.End(e)
	if (e.Err == "refused" || e.Err == "unknown") && x.downAt == 0 && w.Rates("net.request") == 0 && x.proc.Alive {
		w.Fail("C24", "dropped", "%s: %s although the service is up", target, e.Err)
	}
	if r.CutAt > 0 && x.sigAt > 0 && !x.proc.Crashed && r.CutAt < x.sigAt+4e9 {
		w.Fail("C24", "cut", "%s was under way when the termination signal came; its connection was dropped %d ms later", target, (r.CutAt-x.sigAt)/1e6)
	}
	switch o.K {
	case "sum", "sumb", "cells", "all":
		if e.Err == "" && r.Status >= 500 && (x.sick() || x.rerr() > rerr) {
			e.Err = "disk"
			rt.Probe("state-reports-disk-error")
		}
	}
	if e.Err == "" {
		x.judgeResponse(e, po, target, bucket, r)
	}
}

func (x *proxyWorld) judgeResponse(e *Ev, po *pop, target, bucket string, r shttp.Response) {
	w := x.w
	bad := func(f string, a ...any) {
		w.Fail("C24", "bad-response", "%s -> %d %q: %s", target, r.Status, r.Body, fmt.Sprintf(f, a...))
	}
	switch e.K {
	case "con", "rev", "lim":
		var m struct {
			Accepted bool   `json:"accepted"`
			Channel  string `json:"channel"`
			KeyID    uint64 `json:"key_id"`
			BucketID uint64 `json:"bucket_id"`
			SeqEnd   uint64 `json:"seq_end"`
		}
		if r.Status != 202 || json.Unmarshal([]byte(r.Body), &m) != nil || !m.Accepted {
			bad("must be 202 and accepted")
			return
		}
		var bid uint64
		if po.bucket != "" {
			bid = tfd.HashKey(po.bucket)
		}
		if m.KeyID != tfd.HashKey(po.key) || m.BucketID != bid || (m.Channel == "V") != po.vec || m.Channel == "S" && po.vec {
			bad("names another cell or lane")
		}
		po.seq, po.known = m.SeqEnd, true
	case "sum", "sumb":
		var m struct {
			Sum *int64 `json:"sum"`
		}
		if r.Status != 200 || json.Unmarshal([]byte(r.Body), &m) != nil || m.Sum == nil {
			bad("must be 200 with a sum")
			return
		}
		x.judgeSum(e, target, *m.Sum, func(po *pop) bool { return po.key == e.S && (e.K == "sum" || po.bucket == bucket) })
		x.nowDurable(e)
	case "cells", "all":
		if r.Status != 200 {
			bad("must be 200")
			return
		}
		m := map[string]int64{}
		if err := json.Unmarshal([]byte(r.Body), &m); err != nil {
			bad("must be a JSON object of cells: %v", err)
			return
		}
		names := map[string][2]string{}
		for _, po := range x.ops {
			var bid uint64
			if po.bucket != "" {
				bid = tfd.HashKey(po.bucket)
			}
			names[fmt.Sprintf("%d:%d", tfd.HashKey(po.key), bid)] = [2]string{po.key, po.bucket}
		}
		ids := make([]string, 0, len(names))
		for id := range names {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for id := range m {
			if kb, ok := names[id]; !ok || e.K == "cells" && kb[0] != e.S {
				bad("cell %s is not one that was asked for", id)
			}
		}
		for _, id := range ids {
			kb := names[id]
			if e.K == "all" || kb[0] == e.S {
				x.judgeSum(e, target+" cell "+kb[0]+"/"+kb[1], m[id], func(po *pop) bool { return po.key == kb[0] && po.bucket == kb[1] })
			}
		}
		x.nowDurable(e)
	case "bad", "badrev", "badlim":
		if r.Status != 400 {
			bad("an operation without a key must be refused with 400")
		}
	case "health", "met":
		if r.Status != 200 {
			bad("must be 200")
		}
	case "notfound":
		if r.Status != 404 {
			bad("must be 404")
		}
	}
}

// nowDurable: e was answered from the logs, so what it had to contain is in them.
func (x *proxyWorld) nowDurable(e *Ev) {
	for _, po := range x.ops {
		if po.durable == 0 && po.known && po.e.Ret < e.Call && !x.lost(po, e.M) {
			po.durable = rt.Seq()
		}
	}
}

// lost: the operation may have died with its process, as seen by generation g.
func (x *proxyWorld) lost(po *pop, g int64) bool { return x.crashed[po.gen] && int64(po.gen) != g }

// sumBounds: what the operations can add up to as seen by a read that was
// called at a and returned at b.
func (x *proxyWorld) sumBounds(a, b uint64, g int64, sel func(*pop) bool) (lo, hi int64, n int) {
	for _, po := range x.ops {
		if !sel(po) || po.e.Err == "refused" || po.e.Call > b {
			continue
		}
		if po.durable != 0 && po.durable < a || po.known && po.e.Ret < a && !x.lost(po, g) {
			lo += po.delta
			hi += po.delta
			continue
		}
		n++
		lo += min(0, po.delta)
		hi += max(0, po.delta)
	}
	return
}

func (x *proxyWorld) judgeSum(e *Ev, what string, sum int64, sel func(*pop) bool) {
	lo, hi, n := x.sumBounds(e.Call, e.Ret, e.M, sel)
	if sum < lo || sum > hi {
		x.w.Fail("C24", "state", "%s says %d; the operations accepted before it and possibly seen by it add up to %s", what, sum, rng(lo, hi))
	}
	if n == 0 {
		rt.Probe("state-exact")
	}
}

func (x *proxyWorld) start() bool {
	w := x.w
	x.proc = rt.NewProc(fmt.Sprint("proxy", x.gen))
	newProcess(x.flags()...)
	x.downAt, x.sigAt = 0, 0
	x.werr0 = x.werr()
	x.disk(false)
	rt.StartMain(x.proc, proxy_main.SimMain)
	if !rt.Poll(5e9, 1_000_000, func() bool { return shttp.Up(proxyAddr) || !x.proc.Alive }) || !x.proc.Alive {
		if !x.proc.Crashed {
			w.Fail("C24", "no-start", "the proxy does not come up (exit code %d): %s", x.proc.ExitCode, outTail(w.Stdout.String()))
			rt.Stop()
		}
		x.crashed[x.gen] = true
		return false
	}
	x.disk(true)
	x.upAt = rt.Now()
	return true
}

func runProxy(w *World) {
	x := &proxyWorld{w: w, crashed: map[int]bool{}}
	w.X = x
	w.OutOn = true
	gens := int(w.P("gens"))
	if w.P("early") == 1 {
		w.FaultsOff = true
		p := rt.NewProc("proxy-early")
		newProcess(x.flags()...)
		earlySignal(w, p, "C24", func() { rt.StartMain(p, proxy_main.SimMain) })
		w.FaultsOff = false
	}
	for x.gen = 0; x.gen < gens; x.gen++ {
		if !x.start() {
			continue
		}
		ts := x.clients(x.gen)
		join := func() {
			if !rt.Join(3600e9, ts...) {
				w.Fail("C24", "hang", "clients did not finish: %s", w.Dump())
				rt.Stop()
			}
		}
		if w.P(fmt.Sprint("racy", x.gen)) == 0 {
			join()
		} else {
			rt.Sleep(w.P(fmt.Sprint("endat", x.gen)))
		}
		if w.P(fmt.Sprint("end", x.gen)) == 1 {
			if x.proc.Alive {
				x.downAt = rt.Seq()
				rt.Crash(x.proc)
				w.FaultCount["process-crash"]++
			}
			x.crashed[x.gen] = true
			join()
			continue
		}
		if x.term() && x.sick() {
			x.crashed[x.gen] = true // what it accepted may be missing, with notice
			join()
			x.judgeLogs(fmt.Sprintf("after process %d ended", x.gen))
		} else if !x.crashed[x.gen] {
			for _, po := range x.ops {
				if po.known && po.gen == x.gen {
					po.durable = rt.Seq()
				}
			}
			join()
			for _, po := range x.ops { // answers that were still on the network
				if po.known && po.gen == x.gen {
					po.durable = rt.Seq()
				}
			}
			x.judgeLogs(fmt.Sprintf("after process %d ended", x.gen))
		}
		join()
	}
	// a last healthy process tells the same
	w.FaultsOff, w.StallsOff = true, true
	if x.start() {
		keys := map[string]bool{}
		for _, po := range x.ops {
			keys[po.key] = true
		}
		for i := 0; i < 3; i++ {
			k := fmt.Sprint("k", i)
			if keys[k] {
				x.request(9, Op{K: "sum", S: k})
				x.request(9, Op{K: "sumb", S: k, N: 1})
				x.request(9, Op{K: "cells", S: k})
			}
		}
		x.request(9, Op{K: "all"})
		rt.Sleep(100_000_000 + w.Lag(20000))
		x.term()
		x.judgeLogs("at the end")
	}
}

// term asks the process to end and waits for it.
func (x *proxyWorld) term() bool {
	w := x.w
	if !x.proc.Alive {
		x.crashed[x.gen] = true
		return false
	}
	sig := rt.Pick(w.R, syscall.SIGTERM, syscall.SIGINT)
	x.downAt, x.sigAt = rt.Seq(), rt.Now()
	rt.Tracef("signal %v", sig)
	ssignal.Send(x.proc, sig)
	if !x.proc.Wait(120e9) {
		w.Fail("C24", "no-exit", "the process does not end after %v: %s", sig, w.Dump())
		rt.Stop()
	}
	if x.proc.Crashed {
		if s := x.sigAt - x.upAt; s > 50_000_000+w.Lag(20000) && w.P("midcrash") == 0 {
			w.Fail("C24", "killed", "%v %d ms after the start killed the process; it must end in an orderly way", sig, s/1e6)
		}
		x.crashed[x.gen] = true
		return false
	}
	if x.proc.ExitCode != 0 && !x.sick() {
		w.Fail("C24", "exit-code", "the process ended with code %d after %v: %s", x.proc.ExitCode, sig, outTail(w.Stdout.String()))
	}
	return true
}

func (x *proxyWorld) clients(g int) []*rt.Task {
	byc := map[int][]Op{}
	n := 0
	for _, o := range x.w.Plan.Ops {
		if o.M == int64(g) {
			byc[o.C] = append(byc[o.C], o)
			n = max(n, o.C+1)
		}
	}
	var ts []*rt.Task
	for c := 0; c < n; c++ {
		c := c
		ts = append(ts, rt.Spawn(nil, fmt.Sprintf("client%d.%d", g, c), func() {
			for _, o := range byc[c] {
				if o.D > 0 {
					rt.Sleep(o.D)
				}
				x.request(c, o)
			}
		}))
	}
	return ts
}

// judgeLogs reads the two logs themselves.
func (x *proxyWorld) judgeLogs(when string) {
	w := x.w
	var sb []tfd.SBatch
	var ve []tfd.Envelope
	var err, err2 error
	x.disk(false)
	rt.Join(0, rt.Spawn(rt.NewProc("reader"), "reader", func() {
		sb, err = sinks.ReadAllSLog("s.log")
		ve, err2 = sinks.ReadAllVLog("v.log")
	}))
	if err != nil || err2 != nil {
		w.Fail("C24", "unreadable", "%s the logs cannot be read: %v, %v; files %v", when, err, err2, sos.D().Names())
		return
	}
	type cell struct {
		k, b uint64
	}
	ids := func(po *pop) cell {
		c := cell{k: tfd.HashKey(po.key)}
		if po.bucket != "" {
			c.b = tfd.HashKey(po.bucket)
		}
		return c
	}
	sums := map[cell]int64{}
	for _, b := range sb {
		sums[cell{b.KeyID, b.BucketID}] += b.NetDelta
	}
	cells := map[cell]bool{}
	for _, po := range x.ops {
		cells[ids(po)] = true
	}
	for c, v := range sums {
		if !cells[c] {
			w.Fail("C24", "phantom", "%s the S log has a cell %v (%d) that nobody used", when, c, v)
		}
	}
	cs := make([]cell, 0, len(cells))
	for c := range cells {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].k < cs[j].k || cs[i].k == cs[j].k && cs[i].b < cs[j].b })
	for _, c := range cs {
		lo, hi, n := x.sumBounds(math.MaxUint64, math.MaxUint64, -1, func(po *pop) bool { return !po.vec && ids(po) == c })
		if s := sums[c]; s < lo || s > hi {
			w.Fail("C24", "s-log", "%s the S log of cell %v adds up to %d; the accepted operations give %s", when, c, s, rng(lo, hi))
		}
		if n == 0 {
			rt.Probe("s-log-exact")
		}
	}
	// V: every accepted operation exactly once, per key in order
	bySeq := map[uint64][]*pop{}
	unknown := map[string]int{}
	sig := func(c cell, d int64) string { return fmt.Sprint(c, d) }
	for _, po := range x.ops {
		if !po.vec || po.e.Err == "refused" {
			continue
		}
		if po.known {
			bySeq[po.seq] = append(bySeq[po.seq], po)
		} else {
			unknown[sig(ids(po), po.delta)]++
		}
	}
	found := map[*pop]int{}
	last := map[uint64]*pop{}
	for _, e := range ve {
		c := cell{e.Footprint.KeyID, e.Footprint.Time.BucketID}
		if e.HashPrev != tfd.Hash128(e.Footprint.KeyID, e.SeqEnd) {
			w.Fail("C24,C21", "v-audit", "%s the V log has an entry whose audit link does not verify: %+v", when, e)
		}
		if e.Channel != tfd.ChannelVector {
			w.Fail("C24", "v-lane", "%s the V log has an entry of the other lane: %+v", when, e)
		}
		var m *pop
		for _, po := range bySeq[e.SeqEnd] {
			if ids(po) == c && po.delta == e.Delta && found[po] == 0 {
				m = po
				break
			}
		}
		if m == nil {
			if unknown[sig(c, e.Delta)]--; unknown[sig(c, e.Delta)] < 0 {
				w.Fail("C24", "v-phantom", "%s the V log has an entry that was never submitted, or is there twice: %+v", when, e)
			}
			continue
		}
		found[m]++
		if l := last[c.k]; l != nil && m.e.Ret < l.e.Call {
			w.Fail("C24,C21", "v-order", "%s the V log has operation %s after %s", when, m.e, l.e)
		}
		if l := last[c.k]; l == nil || m.e.Call > l.e.Call {
			last[c.k] = m
		}
	}
	for _, po := range x.ops {
		if po.vec && po.durable != 0 && found[po] == 0 {
			w.Fail("C24", "v-lost", "%s the V log lacks the accepted operation %s", when, po.e)
		}
	}
	rt.Probe("logs-judged")
}

func init() {
	register(&Scenario{Name: "proxy", HoldMax: 20_000_000, Real: "cmd/tfd-proxy main(), tfd.Classify, tfd.Pipeline and below, both file sinks and their readers, tfd.State, promhttp", Stub: "net/http transport, file system (in memory, with faults), clock, scheduler, signals, process lifetime", Gen: genProxy, Run: runProxy, Hang: "C24", Panic: "C24"})
	prop(&PropDef{ID: "C24", Uses: []Use{{"proxy", 1}}, Quick: 20000, Rule: "Cases: 1-4 HTTP clients consume, reverse, set limits and read the state over 1-3 lifetimes of the whole proxy, each ended by a signal or a crash, sharing the logs; network faults, slow and torn log writes."})
}
