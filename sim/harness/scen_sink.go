package main

import (
	"errors"
	"fmt"
	"io/fs"

	"vsa/internal/sinks"
	"vsa/plugin/tfd"
	"vsa/zsim/rt"
)

// Scenario "sink": concurrent writers append to the S and V file logs across
// several process lifetimes, with failing, short and slow disk writes and
// crashes, and read them back.

type srec struct {
	id        uint64
	call, ret uint64
	t0, t1    int64
	gen, k    int // process lifetime; position within the call
	s         tfd.SBatch
	v         tfd.Envelope
	durable   string // why it has to be in the file
}

type lane struct {
	name string
	path string
	recs []*srec
	byID map[uint64]*srec
}

type sinkWorld struct {
	w     *World
	lanes [2]*lane // S, V
	gen   int
}

func genSink(r *rt.RNG, p *Plan) {
	P := p.P
	ms := int64(1_000_000)
	p.Cfg.StallMax = min(p.Cfg.StallMax, 1_000_000)
	if r.N(3) > 0 {
		p.Rates["disk.write"] = rt.Pick(r, 0.05, 0.2, 0.5)
	}
	if r.N(3) == 0 {
		p.Rates["disk.read"] = rt.Pick(r, 0.05, 0.3)
	}
	if r.N(4) == 0 {
		p.Rates["disk.open"] = 0.2
		p.Rates["disk.close"] = 0.3
		p.Rates["disk.sync"] = 0.3
	}
	gens := 1 + r.N(3)
	P["gens"] = int64(gens)
	big := r.N(250) == 0 // exceed the writer's buffer
	same := int64(0)
	if !big && r.N(8) == 0 { // one writer, whose records often repeat
		same = 1
		P["same"] = 1
	}
	for g := 0; g < gens; g++ {
		P[fmt.Sprint("crash", g)] = int64(r.N(2))
		P[fmt.Sprint("crashat", g)] = r.I64(rt.Pick(r, 1*ms, 100*ms, 1000*ms))
		clients := 1 + r.N(3)
		if same == 1 {
			clients = 1
		}
		for c := 0; c < clients; c++ {
			for i := 1 + r.N(rt.Pick(r, 4, 12)); i > 0; i-- {
				o := Op{C: c, M: int64(g), N: 1 + r.I64(4)}
				switch v := r.N(20); {
				case v < 7:
					o.K = "s"
				case v < 10:
					o.K = "v"
				case v < 13:
					o.K = "va"
				case v < 15:
					o.K = "fs"
				case v < 17:
					o.K = "fv"
				case v < 18:
					o.K = "rs"
				case v < 19:
					o.K = "rv"
				default:
					o.K, o.N = "s", 0
				}
				if big && (o.K == "s" || o.K == "va") && r.N(3) == 0 {
					o.N = 3000 + r.I64(9000)
					big = r.N(3) > 0
				}
				switch v := r.N(10); {
				case v < 3:
					o.D = r.I64(200 * ms)
				case v < 5:
					o.D = 99*ms + r.I64(3*ms)
				case v < 8:
					o.D = r.I64(2 * ms)
				}
				p.Ops = append(p.Ops, o)
			}
		}
	}
}

func (x *sinkWorld) mk(l *lane, e *Ev) *srec {
	id := uint64(len(l.recs) + 1)
	if n := len(l.recs); x.w.P("same") == 1 && n > 0 && rt.NewRNG(id*0x9e3779b97f4a7c15+7).N(2) == 0 {
		r := *l.recs[n-1]
		r.id, r.call, r.ret, r.t0, r.t1, r.gen, r.k, r.durable = id, e.Call, 0, e.T0, 0, x.gen, 0, ""
		l.recs = append(l.recs, &r)
		return &r
	}
	h := rt.NewRNG(id * 0x9e3779b97f4a7c15)
	r := &srec{id: id, call: e.Call, t0: e.T0, gen: x.gen}
	l.recs = append(l.recs, r)
	l.byID[id] = r
	key, bucket, delta := h.U64(), h.U64(), int64(h.U64())
	switch h.N(3) {
	case 0:
		key, bucket, delta = uint64(h.N(3)), 0, int64(h.N(5))-2
	}
	r.s = tfd.SBatch{KeyID: key, BucketID: bucket, NetDelta: delta, SeqEnd: id}
	r.v = tfd.Envelope{Channel: tfd.ChannelVector, Footprint: tfd.Footprint{KeyID: key, Time: tfd.TimeFootprint{BucketID: bucket, All: h.N(2) == 0}, Scope: tfd.ChannelVector},
		Delta: delta, SeqEnd: id, HashPrev: tfd.Hash128(key, id)}
	return r
}

// mark: what was appended before is in the file from now on.
func (l *lane) mark(gen int, why string, cond func(*srec) bool) {
	for _, r := range l.recs {
		if r.gen == gen && r.durable == "" && r.ret != 0 && cond(r) {
			r.durable = why
		}
	}
}

// judgeSame judges what a reader returned when one writer appended records that may be alike: the
// file is a subsequence of what was appended that contains every record that has to be there.
func (x *sinkWorld) judgeSame(l *lane, n int, same func(i int, r *srec) bool, must bool, when string) {
	can := make([]bool, n+1) // can[i]: the records so far explain the first i read
	can[0] = true
	nmust := 0
	for _, r := range l.recs {
		need := must && r.durable != ""
		if need {
			nmust++
		}
		for i := n; i >= 0; i-- {
			can[i] = can[i] && !need || i > 0 && can[i-1] && same(i-1, r)
		}
	}
	if !can[n] {
		x.w.Fail("C23", "alike", "%s log, %s: the %d records read are not the %d appended ones in order with all %d durable ones among them", l.name, when, n, len(l.recs), nmust)
	}
	if nmust > 0 {
		rt.Probe("durable-alike-judged")
	}
}

// judge what a reader returned.
func (x *sinkWorld) judge(l *lane, ids []uint64, same func(i int, r *srec) bool, must []*srec, when string) {
	w := x.w
	seen := map[uint64]bool{}
	var maxCall uint64
	var lastOf *srec
	for i, id := range ids {
		r := l.byID[id]
		if r == nil || !same(i, r) {
			w.Fail("C23", "phantom", "%s log, %s: record %d is not one that was appended", l.name, when, id)
			continue
		}
		if seen[id] {
			w.Fail("C23", "duplicate", "%s log, %s: record %d is there twice", l.name, when, id)
		}
		seen[id] = true
		if r.ret != 0 && r.ret < maxCall {
			w.Fail("C23", "order", "%s log, %s: record %d stands after one that was appended later", l.name, when, id)
		}
		maxCall = max(maxCall, r.call)
		if lastOf != nil && lastOf.call == r.call && lastOf.k+1 != r.k { // one call's records stay together and in order
			w.Fail("C23", "order", "%s log, %s: record %d of one batch is followed by record %d", l.name, when, lastOf.id, r.id)
		}
		lastOf = r
	}
	for _, r := range must {
		if !seen[r.id] {
			w.Fail("C23", "lost", "%s log, %s: record %d is missing, although %s", l.name, when, r.id, r.durable)
		}
	}
	if len(must) > 0 {
		rt.Probe("durable-judged")
	}
}

func (l *lane) must() (out []*srec) {
	for _, r := range l.recs {
		if r.durable != "" {
			out = append(out, r)
		}
	}
	return
}

func (x *sinkWorld) read(i int, when string) {
	w, l := x.w, x.lanes[i]
	must := l.must()
	var ids []uint64
	var err error
	var same func(int, *srec) bool
	if i == 0 {
		var got []tfd.SBatch
		got, err = sinks.ReadAllSLog(l.path)
		for _, b := range got {
			ids = append(ids, b.SeqEnd)
		}
		same = func(i int, r *srec) bool { return got[i] == r.s }
	} else {
		var got []tfd.Envelope
		got, err = sinks.ReadAllVLog(l.path)
		for _, b := range got {
			ids = append(ids, b.SeqEnd)
		}
		same = func(i int, r *srec) bool { return got[i] == r.v }
	}
	if err != nil {
		// only a failing disk or a file that is not there yet excuses this
		if w.Rates("disk.read") == 0 && w.Rates("disk.open") == 0 && !(errors.Is(err, fs.ErrNotExist) && len(must) == 0) {
			w.Fail("C23", "read-error", "%s log, %s: %v", l.name, when, err)
		}
		rt.Probe("read-refused")
		must = nil
	}
	if w.P("same") == 1 {
		x.judgeSame(l, len(ids), same, err == nil, when)
		return
	}
	x.judge(l, ids, same, must, when)
}

func runSink(w *World) {
	x := &sinkWorld{w: w}
	x.lanes[0] = &lane{name: "S", path: "s.log", byID: map[uint64]*srec{}}
	x.lanes[1] = &lane{name: "V", path: "v.log", byID: map[uint64]*srec{}}
	w.X = x
	for x.gen = 0; x.gen < int(w.P("gens")); x.gen++ {
		x.generation()
	}
	w.FaultsOff = true
	x.settle("at the end")
	// and a healthy process can still append to what the others left
	x.gen = 99
	rt.Join(0, rt.Spawn(rt.NewProc("last"), "last", func() {
		s, err := sinks.NewSBatchFileSink("s.log")
		v, err2 := sinks.NewVEnvFileSink("v.log")
		if err != nil || err2 != nil {
			w.Fail("C23", "open", "the logs cannot be opened any more: %v, %v", err, err2)
			return
		}
		for i := 0; i < 2; i++ {
			x.append(9, Op{K: "s", N: 2}, s, v)
			x.append(9, Op{K: "va", N: 2}, s, v)
		}
		x.closeBoth(s, v)
	}))
	x.settle("after a healthy restart")
}

func (x *sinkWorld) settle(when string) {
	rt.Join(0, rt.Spawn(rt.NewProc("reader"), "reader", func() {
		for i := range x.lanes {
			x.read(i, when)
		}
	}))
}

func (x *sinkWorld) append(c int, o Op, s *sinks.SBatchFileSink, v *sinks.VEnvFileSink) {
	w := x.w
	li := 0
	if o.K[0] == 'v' {
		li = 1
	}
	l := x.lanes[li]
	e := w.Begin(c, o.K, l.name, o.N, int64(x.gen))
	var rs []*srec
	n := o.N
	if o.K == "v" {
		n = 1
	}
	for i := int64(0); i < n; i++ {
		r := x.mk(l, e)
		r.k = int(i)
		rs = append(rs, r)
	}
	switch o.K {
	case "s":
		b := make([]tfd.SBatch, n)
		for i, r := range rs {
			b[i] = r.s
		}
		s.OnSBatches(b)
	case "v":
		v.Append(rs[0].v)
	case "va":
		b := make([]tfd.Envelope, n)
		for i, r := range rs {
			b[i] = r.v
		}
		v.AppendAll(b)
	}
	w.End(e)
	for _, r := range rs {
		r.ret, r.t1 = e.Ret, e.T1
	}
	if w.Rates("disk.write") == 0 && n > 0 {
		l.mark(x.gen, fmt.Sprintf("another was appended more than 100 ms later (at %d us)", e.T0/1000), func(r *srec) bool { return r.t1 < e.T0-100_000_000-w.Held() })
	}
}

func (x *sinkWorld) closeBoth(s *sinks.SBatchFileSink, v *sinks.VEnvFileSink) {
	for i, f := range []func() error{s.Close, v.Close} {
		l := x.lanes[i]
		e := x.w.Begin(99, "close", l.name, 0, 0)
		err := f()
		e.OK = err == nil
		x.w.End(e)
		if e.OK {
			l.mark(x.gen, "Close succeeded afterwards", func(r *srec) bool { return r.ret < e.Call })
		} else if x.w.Rates("disk.write") == 0 && x.w.Rates("disk.close") == 0 {
			x.w.Fail("C23", "close-error", "%s log: Close failed on a healthy disk: %v", l.name, err)
		}
	}
}

func (x *sinkWorld) generation() {
	w := x.w
	p := rt.NewProc(fmt.Sprint("app", x.gen))
	var s *sinks.SBatchFileSink
	var v *sinks.VEnvFileSink
	rt.Join(0, rt.Spawn(p, "open", func() {
		var err, err2 error
		s, err = sinks.NewSBatchFileSink("s.log")
		v, err2 = sinks.NewVEnvFileSink("v.log")
		if (err != nil || err2 != nil) && w.Rates("disk.open") == 0 && w.Rates("disk.write") == 0 {
			w.Fail("C23", "open", "the logs cannot be opened: %v, %v", err, err2)
		}
	}))
	if s == nil || v == nil || !p.Alive {
		return
	}
	byc := map[int][]Op{}
	n := 0
	for _, o := range w.Plan.Ops {
		if o.M == int64(x.gen) {
			byc[o.C] = append(byc[o.C], o)
			n = max(n, o.C+1)
		}
	}
	var ts []*rt.Task
	for c := 0; c < n; c++ {
		c := c
		ts = append(ts, rt.Spawn(p, fmt.Sprintf("client%d", c), func() {
			for _, o := range byc[c] {
				if o.D > 0 {
					rt.Sleep(o.D)
				}
				switch o.K {
				case "s", "v", "va":
					x.append(c, o, s, v)
				case "fs", "fv":
					i := int(b2i64(o.K == "fv"))
					f := s.Flush
					if i == 1 {
						f = v.Flush
					}
					l := x.lanes[i]
					e := w.Begin(c, o.K, l.name, 0, 0)
					err := f()
					e.OK = err == nil
					w.End(e)
					if e.OK {
						l.mark(x.gen, fmt.Sprintf("Flush [%d..%d] succeeded afterwards", e.Call, e.Ret), func(r *srec) bool { return r.ret < e.Call })
					} else if w.Rates("disk.write") == 0 {
						w.Fail("C23", "flush-error", "%s log: Flush failed on a healthy disk: %v", l.name, err)
					}
				case "rs":
					x.read(0, "while it is written")
				case "rv":
					x.read(1, "while it is written")
				}
			}
		}))
	}
	if w.P(fmt.Sprint("crash", x.gen)) == 1 {
		rt.Sleep(w.P(fmt.Sprint("crashat", x.gen)))
		if p.Alive {
			rt.Tracef("crash of generation %d", x.gen)
			rt.Crash(p)
			w.FaultCount["process-crash"]++
		}
		rt.Join(0, ts...)
		x.settle("after a crash")
		return
	}
	if !rt.Join(600e9, ts...) {
		w.Fail("C23", "hang", "writers did not finish: %s", w.Dump())
		rt.Stop()
	}
	if p.Alive {
		rt.Join(0, rt.Spawn(p, "close", func() { x.closeBoth(s, v) }))
	}
	x.settle("after the process ended")
}

func init() {
	register(&Scenario{Name: "sink", HoldMax: 20_000_000, Real: "sinks.SBatchFileSink, VEnvFileSink, ReadAllSLog, ReadAllVLog, bufio, encoding/json", Stub: "file system (in memory, with faults), clock, scheduler", Gen: genSink, Run: runSink, Hang: "C23", Panic: "C23"})
	prop(&PropDef{ID: "C23", Uses: []Use{{"sink", 1}}, Quick: 60000, Rule: "Cases: 1-3 writers append batches to both file logs over 1-3 process lifetimes that end by Close or by a crash, with flushes, concurrent readers, and failing, short, torn and slow disk operations; then a healthy process appends once more."})
}
