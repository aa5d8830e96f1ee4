package main

import (
	"fmt"
	"sort"
	"time"

	"vsa/internal/ratelimiter/core"
	"vsa/internal/ratelimiter/persistence"
	"vsa/zsim/rt"
)

// Scenario "durable": the whole write path - admissions in the store, the
// worker, the idempotency shim, a storage adapter and its server - with
// replicas, crashes and restarts.

type inst struct {
	name    string
	proc    *rt.Proc
	store   *core.Store
	wk      *core.Worker
	acked   map[string]int64
	evs     []*Ev
	crashed bool
	crashT  int64
	x       *durWorld
	impl    core.Persister
}

type durWorld struct {
	w     *World
	rd    *fakeRedis
	pg    *fakePG
	kf    *fakeKafka
	insts []*inst
	keys  map[string]bool
}

func (i *inst) CommitBatch(cs []core.Commit) error {
	for _, c := range cs {
		rt.Tracef("%s persist %s %d", i.name, c.Key, c.Vector)
	}
	err := i.impl.CommitBatch(cs)
	rt.Tracef("%s persist -> %v", i.name, err)
	if err == nil {
		for _, c := range cs {
			i.acked[c.Key] += c.Vector
		}
	}
	return err
}
func (i *inst) PrintFinalMetrics() { i.impl.PrintFinalMetrics() }

func (x *durWorld) stored(k string) int64 {
	switch {
	case x.rd != nil:
		return -x.rd.hash(persistence.RedisCounterKey(k), "scalar")
	case x.pg != nil:
		r := x.pg.committed("counters", k)
		if r == nil {
			return 0
		}
		return -r["scalar"].(int64)
	}
	return x.kf.materialise()[k]
}

// net admitted by i on k among operations satisfying f.
func (i *inst) net(k string, f func(*Ev) bool) (n int64) {
	for _, e := range i.evs {
		if e.S != k || e.Ret == 0 || !e.OK || f != nil && !f(e) {
			continue
		}
		if e.K == "con" {
			n += e.N
		} else if e.K == "ref" {
			n -= e.N
		}
	}
	return
}
func (i *inst) granted(k string) (n int64) {
	for _, e := range i.evs {
		if e.S == k && e.K == "con" && (e.Ret == 0 || e.OK) {
			n += e.N
		}
	}
	return
}

func genDurable(r *rt.RNG, p *Plan) {
	P := p.P
	ms := int64(1_000_000)
	P["backend"] = int64(r.N(3))
	if p.Prop == "C12" || p.Prop == "C13" || p.Prop == "C14" {
		P["backend"] = map[string]int64{"C12": 0, "C13": 1, "C14": 2}[p.Prop]
	}
	site := []string{"redis", "pg", "kafka"}[P["backend"]]
	p.Cfg.StallMax = min(p.Cfg.StallMax, 1_000_000)
	P["calm"] = int64(r.N(4) / 3)
	if P["calm"] == 0 {
		p.Rates[site] = rt.Pick(r, 0.05, 0.2, 0.5)
	}
	P["cli"] = int64(r.N(2))
	if P["backend"] == bkPG && r.N(5) == 0 {
		P["pgstall"] = 1
	}
	P["limit"] = rt.Pick(r, int64(20), 100, 1000)
	P["T"] = rt.Pick(r, int64(1), 2, 5, 20)
	if r.N(2) == 0 {
		P["low"] = rt.Pick(r, int64(1), P["T"]/2)
	}
	P["ci"] = rt.Pick(r, 5*ms, 20*ms, 100*ms)
	if r.N(2) == 0 {
		P["ma"] = 3 * P["ci"]
	}
	P["ea"], P["ei"] = int64(time.Hour), 600_000*ms
	if r.N(3) == 0 {
		P["ea"], P["ei"] = 500*ms, 100*ms
	}
	P["replicas"] = int64(1 + r.N(2))
	P["crash"] = int64(r.N(2))
	if P["calm"] == 1 {
		P["crash"] = 1
	}
	P["crashat"] = r.I64(rt.Pick(r, 20*ms, 200*ms, 2000*ms))
	if P["calm"] == 0 {
		P["refunds"] = int64(r.N(2))
	}
	nk := 1 + r.N(3)
	names := keyNames(r)
	clients := 1 + r.N(3)
	if P["replicas"] == 2 {
		clients = 2 + r.N(2)
	}
	for c := 0; c < clients; c++ {
		for i := 2 + r.N(12); i > 0; i-- {
			o := Op{C: c, K: "con", S: names[r.N(nk)], N: 1 + r.I64(max(2, P["T"]))}
			if r.N(4) == 0 && P["refunds"] == 1 {
				o.K, o.N = "ref", 1
			}
			switch v := r.N(10); {
			case v < 5:
				o.D = r.I64(3 * P["ci"])
			case v < 6:
				o.D = r.I64(20 * P["ci"])
			case v < 7 && P["ea"] < 2000*ms:
				o.D = P["ea"] + r.I64(P["ei"])
			default:
				o.D = r.I64(50_000)
			}
			p.Ops = append(p.Ops, o)
		}
	}
	if q := rt.NewRNG(p.Seed ^ 0x0a7a6e); P["calm"] == 0 && q.N(6) == 0 { // a long outage under traffic: hardly an answer comes through
		P["outage"], P["crash"], P["limit"] = 1, 0, 1000
		delete(P, "pgstall")
		p.Rates[site] = rt.Pick(q, 0.97, 0.9, 0.7)
		key := names[q.N(nk)]
		for i := 12 + q.N(40); i > 0; i-- {
			o := Op{C: clients, K: "con", S: key, N: max(1, P["T"]-q.I64(2)), D: q.I64(2 * P["ci"])}
			if P["refunds"] == 1 && q.N(5) == 0 {
				o.K, o.N = "ref", 1
			}
			p.Ops = append(p.Ops, o)
		}
	}
}

func (x *durWorld) start(name string) *inst {
	w := x.w
	i := &inst{name: name, proc: rt.NewProc(name), acked: map[string]int64{}, x: x}
	x.insts = append(x.insts, i)
	rt.Join(0, rt.Spawn(i.proc, "init", func() {
		switch {
		case x.rd != nil && w.P("cli") == 1:
			var err error
			i.impl, err = persistence.BuildPersister("redis", persistence.DemoOptions{RedisAddr: "10.0.0.2:6379"})
			if err != nil {
				w.Fail("C15", "build", "BuildPersister: %v", err)
			}
		case x.rd != nil:
			i.impl = persistence.NewIdemShim(persistence.NewRedisPersister(evaler{x.rd}, 0))
		case x.pg != nil:
			i.impl = persistence.NewIdemShim(persistence.NewPostgresPersister(x.pg.open(), true))
		default:
			i.impl = persistence.NewIdemShim(persistence.NewKafkaPersister(x.kf, "vsa-commits"))
		}
		i.store = core.NewStore(w.P("limit"))
		i.wk = core.NewWorker(i.store, i, w.P("T"), w.P("low"), time.Duration(w.P("ci")), time.Duration(w.P("ma")), time.Duration(w.P("ea")), time.Duration(w.P("ei")))
		i.wk.Start()
	}))
	return i
}

func runDurable(w *World) {
	x := &durWorld{w: w, keys: map[string]bool{}}
	w.X = x
	switch w.P("backend") {
	case bkRedis:
		x.rd = newFakeRedis()
		x.rd.install()
		x.rd.onExec = x.bound
	case bkPG:
		x.pg = newFakePG()
		x.pg.onCommit = x.bound
		x.pg.stall = w.P("pgstall") == 1
	default:
		x.kf = newFakeKafka()
		x.kf.onAppend = func(*kmsg) { x.bound() }
	}
	for _, o := range w.Plan.Ops {
		x.keys[o.S] = true
	}
	if w.P("outage") == 1 {
		w.FaultOnly = map[string][]string{"redis": {"lost-reply", "lost-reply", "lost-request", "slow-reply"}, "pg": {"commit-ack-lost", "commit-failed"}, "kafka": {"lost-ack", "lost-ack", "lost-request"}}
	}
	byc, _ := w.ByClient()
	cur := []*inst{x.start("app0")}
	if w.P("replicas") == 2 {
		cur = append(cur, x.start("app1"))
	}
	var ts []*rt.Task
	for c, ops := range byc {
		c, ops := c, ops
		ts = append(ts, rt.Spawn(nil, fmt.Sprintf("client%d", c), func() {
			for _, o := range ops {
				if o.D > 0 {
					rt.Sleep(o.D)
				}
				i := cur[c%len(cur)]
				e := w.Begin(c, o.K, o.S, o.N, int64(len(x.insts)))
				i.evs = append(i.evs, e)
				// the call runs inside the application process, and dies with it
				t := rt.Spawn(i.proc, fmt.Sprintf("client%d", c), func() {
					v := i.store.GetOrCreate(o.S)
					if o.K == "con" {
						e.OK = v.TryConsume(o.N)
					} else {
						e.OK = v.TryRefund(o.N)
					}
					w.End(e)
				})
				rt.Join(60e9, t)
			}
		}))
	}
	if w.P("crash") == 1 {
		rt.Sleep(w.P("crashat"))
		i := cur[0]
		i.crashed, i.crashT = true, rt.Now()
		if w.P("calm") == 1 {
			x.lossBound(i)
		}
		rt.Tracef("crash %s", i.name)
		rt.Crash(i.proc)
		w.FaultCount["process-crash"]++
		if x.pg != nil {
			x.pg.dropProc(i.proc)
		}
		if len(cur) == 1 {
			newProcess() // package state does not survive
			if x.rd != nil {
				x.rd.install()
			}
		}
		cur[0] = x.start("app0b")
	}
	if !rt.Join(36000e9, ts...) {
		w.Fail("C15", "hang", "clients did not finish: %s", w.Dump())
		rt.Stop()
	}
	rt.Sleep(w.P("ci") * 2)
	w.FaultsOff = true
	if w.P("pgstall") == 1 {
		rt.Sleep(14_000_000_000)
	}
	rt.Sleep(4_000_000_000) // what is on the network arrives, calls under way end
	if w.P("ma") > 0 {      // every remainder is past the maximum age, those of failed attempts included
		rt.Sleep(14_000_000_000 + w.P("ma") + 4*w.P("ci") + w.Lag(5000) + 20_000_000)
		x.settled("C11", "max-age", "all keys have been idle beyond the maximum age with storage working; ")
	}
	var st []*rt.Task
	for _, i := range x.insts {
		if !i.crashed {
			i := i
			st = append(st, rt.Spawn(i.proc, "stop", func() { i.wk.Stop() }))
		}
	}
	if !rt.Join(120e9, st...) {
		w.Fail("C15", "stop-hang", "Stop did not return: %s", w.Dump())
		rt.Stop()
	}
	if x.pg != nil && x.pg.unsup != "" {
		unsupported("SQL: " + x.pg.unsup)
	}
	x.settled("C15,"+bkProp(w), "not-exactly-once", "")
	x.bound()
}

// settled: storage holds what was admitted, as far as crashes leave that determined.
func (x *durWorld) settled(props, class, when string) {
	w := x.w
	ks := make([]string, 0, len(x.keys))
	for k := range x.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var lo, hi int64
		for _, i := range x.insts {
			if i.crashed {
				lo += i.acked[k]
				hi += i.granted(k)
				if w.P("refunds") == 1 {
					lo = min(lo, 0)
				}
			} else {
				lo += i.net(k, nil)
				hi += i.net(k, nil)
			}
		}
		if w.P("refunds") == 1 && w.P("crash") == 1 {
			lo = -1 << 60
		}
		if s := x.stored(k); s < lo || s > hi {
			w.Fail(props, class, "%skey %s: storage has recorded %d units; it must be %s%s", when, k, s, rng(lo, hi), x.dump(k))
		}
	}
}

func bkProp(w *World) string { return []string{"C12", "C13", "C14"}[w.P("backend")] }

func rng(lo, hi int64) string {
	if lo == hi {
		return fmt.Sprint(lo)
	}
	return fmt.Sprintf("within [%d,%d]", lo, hi)
}

func (x *durWorld) dump(k string) (s string) {
	for _, i := range x.insts {
		s += fmt.Sprintf("; %s admitted %d net, acknowledged rows %d, crashed %v", i.name, i.net(k, nil), i.acked[k], i.crashed)
	}
	return
}

// bound: storage never holds more than was ever admitted.
func (x *durWorld) bound() {
	for k := range x.keys {
		var hi int64
		for _, i := range x.insts {
			hi += i.granted(k)
		}
		if s := x.stored(k); s > hi {
			x.w.Fail("C15,"+bkProp(x.w), "over-applied", "key %s: storage has recorded %d units, but at most %d were ever admitted", k, s, hi)
		}
	}
}

// lossBound: with healthy storage, a crash loses per key less than the
// threshold plus what was admitted during the last few commit intervals.
func (x *durWorld) lossBound(i *inst) {
	w := x.w
	win := 3*w.P("ci") + 40*w.Cfg.StallMax + w.Lag(5000) + 20_000_000
	low := w.P("low")
	for k := range x.keys {
		old := i.net(k, func(e *Ev) bool { return e.T1 < i.crashT-win })
		recent := i.net(k, func(e *Ev) bool { return e.T1 >= i.crashT-win })
		_ = recent
		have := i.acked[k]
		lim := w.P("T")
		if low > 0 {
			lim += w.P("T") + low // a row may have to grow by another threshold after a commit that left more than the low watermark
			continue
		}
		if old-have >= lim {
			w.Fail("C15", "loss-bound", "key %s: %d units admitted more than %d ms ago are not in storage (threshold %d), although storage works", k, old-have, win/1e6, w.P("T"))
		}
		if ma := w.P("ma"); ma > 0 {
			quiet := true
			for _, e := range i.evs {
				if e.S == k && (e.Ret == 0 || e.T1 > i.crashT-ma-win) {
					quiet = false
				}
			}
			if quiet && old != have {
				w.Fail("C15,C11", "max-age-loss", "key %s was idle for more than the max age %d ms, but %d units are not in storage", k, ma/1e6, old-have)
			}
		}
	}
}

func init() {
	register(&Scenario{Name: "durable", HoldMax: 30_000_000, Real: "core.Store, core.Worker, vsa.VSA, persistence.IdemShim, BuildPersister, the Redis/Postgres/Kafka adapters, database/sql", Stub: "the Redis, Postgres and Kafka servers, network, clock, scheduler, process lifetime", Gen: genDurable, Run: runDurable, Hang: "C15", Panic: "C15"})
	prop(&PropDef{ID: "C15", Uses: []Use{{"durable", 1}}, Quick: 60000, Rule: "Cases: 1-2 application processes (one may crash and restart) admit and refund units while their workers commit through the shim and an adapter to a simulated storage server; network, server and process faults injected, then storage heals and every survivor is stopped."})
}
