package main

import (
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	tsim_main "vsa/cmd/tfd-sim"
	"vsa/internal/sinks"
	"vsa/plugin/tfd"
	"vsa/zsim/rt"
	"vsa/zsim/shttp"
	"vsa/zsim/sos"
	"vsa/zsim/ssignal"
)

// Scenario "tsim": the traffic simulator as its main() wires it, for one or
// two lifetimes that share the logs; HTTP clients inject operations besides.

const tsimAddr = ":8080"

type tsimWorld struct {
	w     *World
	proc  *rt.Proc
	gen   int
	t0    int64
	sigAt int64
	inj   []*injOp
	base  tsimLogs // what the logs held when the current process came up
	cur   map[string]float64
}

type injOp struct {
	e      *Ev
	key    string
	bucket string
	n      int64
	gen    int
}

type tsimLogs struct {
	rows  int
	sum   map[[2]uint64]int64
	total int64
	v     []tfd.Envelope
}

func genTSim(r *rt.RNG, p *Plan) {
	P := p.P
	ms := int64(1_000_000)
	p.Cfg.StallMax = min(p.Cfg.StallMax, 1_000_000)
	p.Cfg.MeanGap = max(p.Cfg.MeanGap, 8)
	P["shards"] = rt.Pick(r, int64(0), 1, 2, 4)
	P["order"] = rt.Pick(r, int64(0), 1, 1, 3)
	P["count"] = rt.Pick(r, int64(0), 1, 3, 1000)
	P["cap"] = rt.Pick(r, int64(0), 1*ms, 20*ms)
	P["fi"] = rt.Pick(r, int64(0), 2*ms, 20*ms, 200*ms)
	P["cov"] = rt.Pick(r, int64(-5), 0, 50, 85, 100, 130) // percent
	P["keys"] = rt.Pick(r, int64(0), 1, 2, 10)
	P["buckets"] = rt.Pick(r, int64(0), 1, 2, 10)
	P["qps"] = rt.Pick(r, int64(20), 200, 2000, 20000)
	P["burst"] = rt.Pick(r, int64(1), 3, 20, 100)
	P["gens"] = int64(1 + r.N(2))
	P["early"] = int64(r.N(60) / 59)
	budget := int64(1500) // operations
	if P["order"] == 0 && P["count"] > 0 && P["count"] < 1000 || P["count"] == 1 {
		budget = 150 // every one of them scans a table
	}
	if r.N(40) == 0 { // more than the service's buffer holds, at once
		P["qps"], P["burst"], P["gens"], P["order"], P["count"], P["keys"], P["buckets"] = 20000, 9000+r.I64(3000), 1, 3, 1000, 2, 2
		P["cov"] = rt.Pick(r, int64(85), 100)
		P["cap"], p.Cfg.StallP, budget = 20*ms, 0, 22000
		p.Rates["disk.write"] = 0.5
	}
	if r.N(2) == 0 {
		p.Rates["net.request"] = rt.Pick(r, 0.05, 0.2)
	}
	if r.N(2) == 0 && P["burst"] < 9000 {
		p.Rates["disk.write"] = rt.Pick(r, 0.1, 0.5)
	}
	for g := int64(0); g < P["gens"]; g++ {
		dur := r.I64(rt.Pick(r, 20*ms, 200*ms, 600*ms))
		if P["burst"] > 9000 {
			dur = 620 * ms
		}
		dur = min(dur, 1_000_000_000*budget/P["qps"])
		P[fmt.Sprint("dur", g)] = max(1000, dur) // ns
		if r.N(2) == 0 {                         // ended by a signal
			P[fmt.Sprint("sig", g)] = 1 + r.I64(rt.Pick(r, dur+2, 300*ms))
			P[fmt.Sprint("forever", g)] = int64(r.N(2))
			P[fmt.Sprint("sig", g)] = min(P[fmt.Sprint("sig", g)], 1_000_000_000*budget/P["qps"])
		}
		names := keyNames(r)
		for c := r.N(3); c > 0; c-- {
			for i := 1 + r.N(8); i > 0; i-- {
				o := Op{C: c, M: g, S: names[r.N(len(names))], K: "con", N: r.I64(8)}
				switch r.N(8) {
				case 0:
					o.K = "met"
				case 1:
					o.K = rt.Pick(r, "bad", "notfound")
				case 2:
					if i == 1 && r.N(4) == 0 {
						o.K = "stuck"
					}
				}
				if r.N(2) == 0 {
					o.D = r.I64(max(2, dur/2))
				}
				p.Ops = append(p.Ops, o)
			}
		}
	}
}

func (x *tsimWorld) flags() []string {
	w := x.w
	d := func(k string) string { return time.Duration(w.P(k)).String() }
	n := func(k string) string { return strconv.FormatInt(w.P(k), 10) }
	dur := time.Duration(w.P(fmt.Sprint("dur", x.gen))).String()
	if w.P(fmt.Sprint("forever", x.gen)) == 1 {
		dur = "0"
	}
	return []string{"-shards=" + n("shards"), "-order_pow2=" + n("order"), "-count_thresh=" + n("count"), "-time_cap=" + d("cap"), "-flush=" + d("fi"),
		"-s_log=s.log", "-v_log=v.log", "-http=" + tsimAddr, "-duration=" + dur, "-qps=" + n("qps"), "-burst=" + n("burst"), "-keys=" + n("keys"), "-buckets=" + n("buckets"),
		fmt.Sprintf("-s_coverage=%.2f", float64(w.P("cov"))/100)}
}

func (x *tsimWorld) request(c int, o Op) {
	w := x.w
	target := ""
	e := w.Begin(c, o.K, o.S, o.N, int64(x.gen))
	bucket := bucketName(o)
	amt := int(o.N) % len(amounts)
	var in *injOp
	switch o.K {
	case "con":
		target = fmt.Sprintf("/consume?key=%s&bucket=%s&n=%s", url.QueryEscape(o.S), url.QueryEscape(bucket), amounts[amt])
		in = &injOp{e: e, key: o.S, bucket: bucket, n: amountVal[amt], gen: x.gen}
		x.inj = append(x.inj, in)
	case "stuck":
		x.w.End(e)
		e.Err = "refused"
		shttp.Stuck(tsimAddr, 600e9)
		return
	case "met":
		target = "/metrics"
	case "bad":
		target = "/consume?bucket=b0&n=1"
	case "notfound":
		target = "/nothing"
	}
	r := shttp.Do(tsimAddr, "POST", target, 60e9)
	switch {
	case r.Err == shttp.ErrRefused:
		e.Err = "refused"
	case r.Err == shttp.ErrTimeout:
		w.Fail("C26", "no-answer", "%s got no answer within 60 s", target)
	case r.Err != nil:
		e.Err = "unknown"
	default:
		e.R1, e.Str = int64(r.Status), r.Body
	}
	w.End(e)
	if r.CutAt > 0 && x.sigAt > 0 && !x.proc.Crashed && r.CutAt < x.sigAt+4e9 {
		w.Fail("C26", "cut", "%s was under way when the end came; its connection was dropped %d ms later", target, (r.CutAt-x.sigAt)/1e6)
	}
	if e.Err != "" {
		return
	}
	want := map[string]int{"con": 202, "met": 200, "bad": 400, "notfound": 404}[o.K]
	if r.Status != want {
		w.Fail("C26", "bad-response", "%s -> %d %q; it must be %d", target, r.Status, r.Body, want)
	}
	if o.K == "met" {
		for _, m := range []string{"tfd_total_ops", "tfd_s_ops", "tfd_v_ops", "tfd_s_batches_in_total", "tfd_s_batches_out_total", "tfd_try_ingest_fail_total", "tfd_s_flush_interval_seconds_count"} {
			if !strings.Contains(r.Body, "\n"+m+" ") {
				w.Fail("C26", "no-metric", "/metrics does not have %s", m)
			}
		}
	}
}

func gatherMap() map[string]float64 {
	m := map[string]float64{}
	fs, _ := prometheus.DefaultGatherer.Gather()
	for _, f := range fs {
		for _, v := range f.Metric {
			switch {
			case v.Counter != nil:
				m[f.GetName()] = v.Counter.GetValue()
			case v.Histogram != nil:
				m[f.GetName()+"_count"] = float64(v.Histogram.GetSampleCount())
				m[f.GetName()+"_sum"] = v.Histogram.GetSampleSum()
			}
		}
	}
	return m
}

func (x *tsimWorld) read() (l tsimLogs, ok bool) {
	w := x.w
	l.sum = map[[2]uint64]int64{}
	for _, f := range []string{"s.log", "v.log"} {
		if _, ok := sos.D().Content(f); !ok {
			return l, true
		}
	}
	var sb []tfd.SBatch
	var err, err2 error
	rt.Join(0, rt.Spawn(rt.NewProc("reader"), "reader", func() {
		sb, err = sinks.ReadAllSLog("s.log")
		l.v, err2 = sinks.ReadAllVLog("v.log")
	}))
	if err != nil || err2 != nil {
		w.Fail("C26", "unreadable", "the logs cannot be read: %v, %v; files %v", err, err2, sos.D().Names())
		return l, false
	}
	for _, b := range sb {
		l.sum[[2]uint64{b.KeyID, b.BucketID}] += b.NetDelta
		l.total += b.NetDelta
	}
	l.rows = len(sb)
	return l, true
}

func bucketID(b string) uint64 {
	if b == "" {
		return 0
	}
	return tfd.HashKey(b)
}

func runTSim(w *World) {
	x := &tsimWorld{w: w}
	w.X = x
	w.OutOn = true
	w.FaultOnly = map[string][]string{"disk.write": {"slow"}, "disk.read": {}, "disk.open": {}}
	if w.P("early") == 1 {
		x.early()
	}
	for x.gen = 0; x.gen < int(w.P("gens")); x.gen++ {
		x.life()
	}
}

// early: a lifetime that is told to end as soon as it listens for signals.
func (x *tsimWorld) early() {
	w := x.w
	p := rt.NewProc("sim-early")
	newProcess(x.flags()...)
	earlySignal(w, p, "C26", func() { rt.StartMain(p, tsim_main.SimMain) })
}

func (x *tsimWorld) life() {
	w := x.w
	var ok bool
	if x.base, ok = x.read(); !ok {
		return
	}
	x.proc = rt.NewProc(fmt.Sprint("sim", x.gen))
	newProcess(x.flags()...)
	x.sigAt = 0
	x.t0 = rt.Now()
	rt.StartMain(x.proc, tsim_main.SimMain)
	if !rt.Poll(5e9, 100_000, func() bool { return shttp.Up(tsimAddr) || !x.proc.Alive }) {
		w.Fail("C26", "no-start", "the simulator does not come up: %s", outTail(w.Stdout.String()))
		rt.Stop()
	}
	upAt := rt.Now()
	byc := map[int][]Op{}
	n := 0
	for _, o := range w.Plan.Ops {
		if o.M == int64(x.gen) {
			byc[o.C] = append(byc[o.C], o)
			n = max(n, o.C+1)
		}
	}
	var ts []*rt.Task
	for c := 0; c < n; c++ {
		c := c
		ts = append(ts, rt.Spawn(nil, fmt.Sprintf("client%d.%d", x.gen, c), func() {
			for _, o := range byc[c] {
				if o.D > 0 {
					rt.Sleep(o.D)
				}
				x.request(c, o)
			}
		}))
	}
	dur := w.P(fmt.Sprint("dur", x.gen))
	if s := w.P(fmt.Sprint("sig", x.gen)); s > 0 {
		rt.Poll(s, 1_000_000, func() bool { return !x.proc.Alive })
		if x.proc.Alive {
			sig := rt.Pick(w.R, syscall.SIGTERM, syscall.SIGINT)
			x.sigAt = rt.Now()
			rt.Tracef("signal %v", sig)
			ssignal.Send(x.proc, sig)
		}
	}
	if !x.proc.Wait(dur + 120e9) {
		w.Fail("C26", "no-exit", "the simulator does not end: %s", w.Dump())
		rt.Stop()
	}
	end := rt.Now()
	x.cur = gatherMap()
	if x.proc.Crashed && x.sigAt-upAt > 50_000_000+w.Lag(20000) {
		w.Fail("C26", "killed", "a termination signal %d ms after the start killed the simulator; it must end in an orderly way", (x.sigAt-upAt)/1e6)
	}
	if x.proc.Crashed { // the signal came before the simulator was prepared for it
		rt.Join(3600e9, ts...)
		return
	}
	if x.proc.ExitCode != 0 {
		w.Fail("C26", "exit-code", "the simulator ended with code %d: %s", x.proc.ExitCode, outTail(w.Stdout.String()))
	}
	if x.sigAt == 0 && end-x.t0 < dur {
		w.Fail("C26", "short", "the simulator ended after %d us; its duration is %d us", (end-x.t0)/1000, dur/1000)
	}
	if !rt.Join(3600e9, ts...) {
		w.Fail("C26", "hang", "clients did not finish: %s", w.Dump())
		rt.Stop()
	}
	if l, ok := x.read(); ok {
		x.judge(l, end)
	}
}

// endAt: when the simulator was to stop.
func (x *tsimWorld) endAt() int64 {
	end := x.t0 + x.w.P(fmt.Sprint("dur", x.gen))
	if x.sigAt > 0 && (x.sigAt < end || x.w.P(fmt.Sprint("forever", x.gen)) == 1) {
		end = x.sigAt
	}
	return end
}

func (x *tsimWorld) judge(l tsimLogs, end int64) {
	w := x.w
	c := x.cur
	// injected operations of this lifetime
	var nInj, nMaybe int64
	lo, hi := map[[2]uint64]int64{}, map[[2]uint64]int64{}
	var lot, hit int64
	for _, in := range x.inj {
		if in.gen != x.gen || in.e.Err == "refused" {
			continue
		}
		id := [2]uint64{tfd.HashKey(in.key), bucketID(in.bucket)}
		if in.e.Err == "" && in.e.R1 == 202 {
			nInj++
			lo[id] += in.n
			hi[id] += in.n
			lot += in.n
			hit += in.n
		} else {
			nMaybe++
			lo[id] += min(0, in.n)
			hi[id] += max(0, in.n)
			lot += min(0, in.n)
			hit += max(0, in.n)
		}
	}
	genS := int64(c["tfd_s_ops"]) // including injected ones, of which some answers may have got lost
	vops := int64(c["tfd_v_ops"])
	total := int64(c["tfd_total_ops"])
	if genS+vops < total+nInj || genS+vops > total+nInj+nMaybe {
		w.Fail("C26", "ops", "the simulator generated %d operations and accepted %s over HTTP, but counts %d S and %d V operations", total, rng(nInj, nInj+nMaybe), genS, vops)
	}
	nv := int64(len(l.v) - len(x.base.v))
	if nv != vops {
		w.Fail("C26", "v-log", "tfd_v_ops is %d, but the V log has %d new entries", vops, nv)
	}
	if rows, out := int64(l.rows-x.base.rows), int64(c["tfd_s_batches_out_total"]); rows != out {
		w.Fail("C26", "s-rows", "tfd_s_batches_out_total is %d, but the S log has %d new batches", out, rows)
	}
	if in, out := int64(c["tfd_s_batches_in_total"]), int64(c["tfd_s_batches_out_total"]); out > in || in > genS {
		w.Fail("C26", "s-compress", "%d S operations gave %d batches, compressed to %d", genS, in, out)
	}
	// every injected cell
	var injSum int64
	for id := range hi {
		d := l.sum[id] - x.base.sum[id]
		injSum += d
		if d < lo[id] || d > hi[id] {
			w.Fail("C26", "s-inject", "the S log gives cell %v %d; the operations accepted over HTTP add up to %s", id, d, rng(lo[id], hi[id]))
		}
	}
	// the generated ones: one unit each
	keys, buckets := w.P("keys"), w.P("buckets")
	if keys <= 0 {
		keys = 1000
	}
	if buckets <= 0 {
		buckets = 64
	}
	mine := map[[2]uint64]bool{}
	for k := int64(0); k < keys; k++ {
		for b := int64(0); b < buckets; b++ {
			mine[[2]uint64{tfd.HashKey(fmt.Sprintf("user:%d", k)), tfd.HashKey(fmt.Sprintf("t1s/%d", b))}] = true
		}
	}
	for id := range l.sum {
		if _, inj := hi[id]; !inj && !mine[id] && x.base.sum[id] != l.sum[id] {
			w.Fail("C26", "phantom", "the S log has a cell %v that was neither generated nor injected", id)
		}
	}
	gs := l.total - x.base.total - injSum
	sGen := genS - nInj
	if gs > sGen || gs < sGen-nMaybe {
		w.Fail("C26", "s-log", "%s generated S operations of one unit each were counted, but the S log has %d units of them", rng(sGen-nMaybe, sGen), gs)
	}
	last := map[uint64]uint64{}
	for i, v := range l.v[len(x.base.v):] {
		if v.HashPrev != tfd.Hash128(v.Footprint.KeyID, v.SeqEnd) {
			w.Fail("C26,C21", "v-audit", "entry %d of the V log has an audit link that does not verify: %+v", i, v)
		}
		if v.SeqEnd < last[v.Footprint.KeyID] {
			w.Fail("C26,C21", "v-order", "entry %d of the V log is older than the one before it for the same key: %+v", i, v)
		}
		last[v.Footprint.KeyID] = v.SeqEnd
		if v.Channel != tfd.ChannelVector || v.Delta != 1 || !mine[[2]uint64{v.Footprint.KeyID, v.Footprint.Time.BucketID}] {
			w.Fail("C26", "v-entry", "entry %d of the V log is not one the simulator generates: %+v", i, v)
		}
	}
	switch cov := w.P("cov"); {
	case cov >= 100 && vops != 0:
		w.Fail("C26", "coverage", "%d V operations although s_coverage is 1", vops)
	case cov <= 0 && sGen > nMaybe:
		w.Fail("C26", "coverage", "%d S operations although s_coverage is 0", sGen)
	}
	// flush intervals: between writes, so together no longer than the run
	if s := c["tfd_s_flush_interval_seconds_sum"]; s > 2*float64(end-x.t0)/1e9+0.1 {
		w.Fail("C26", "flush-interval", "the intervals between the writes of this run add up to %.3f s, but it took %.3f s", s, float64(end-x.t0)/1e9)
	}
	// qps operations per second, a burst per tick
	if most := int64(float64(end-x.t0)/1e9*float64(w.P("qps"))) + w.P("burst"); total > most {
		w.Fail("C26", "rate", "%d operations were generated in %.3f s; %d per second make no more than %d", total, float64(end-x.t0)/1e9, w.P("qps"), most)
	}
	if run := float64(x.endAt()-x.t0) / 1e9; w.P("qps") <= 200 && w.P("burst") <= 20 && w.Cfg.StallP == 0 {
		if least := int64(run*float64(w.P("qps"))/2) - 2*w.P("burst"); total < least {
			w.Fail("C26", "rate-low", "only %d operations were generated in %.3f s at %d per second", total, run, w.P("qps"))
		}
	}
	if c["tfd_try_ingest_fail_total"] > 0 {
		rt.Probe("buffer-full")
	}
	if total > 0 {
		rt.Probe("sim-judged")
	}
}

func init() {
	register(&Scenario{Name: "tsim", HoldMax: 20_000_000, Real: "cmd/tfd-sim main(), tfd.Classify, SService, SAccumulator, SimpleVSA, VRouter, both file sinks and their readers, promhttp", Stub: "net/http transport, file system (in memory, with faults), clock, scheduler, randomness, signals, process lifetime", Gen: genTSim, Run: runTSim, Hang: "C26", Panic: "C26"})
	prop(&PropDef{ID: "C26", Uses: []Use{{"tsim", 1}}, Quick: 15000, Rule: "Cases: the whole traffic simulator for 1-2 lifetimes that share the logs, each ended by its duration or by a signal, with up to 3 HTTP clients injecting operations; network faults and slow disks."})
}
