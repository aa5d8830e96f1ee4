package main

import (
	"fmt"
	"sort"
	"time"

	"vsa/plugin/tfd"
	"vsa/zsim/rt"
)

// Scenario "tfd": concurrent producers drive the two-lane pipeline (or the
// S-lane service directly) into an observed sink, flush it and stop it.

type tcell struct {
	key, bucket uint64
}

type tenv struct {
	c     int // client
	cell  int
	delta int64
	seq   uint64
	vec   bool
	e     *Ev
	acc   int // 1 accepted, 0 refused, -1 unknown
}

type tfdWorld struct {
	w       *World
	cells   []tcell
	envs    []*tenv // in call order
	bySeq   map[uint64]*tenv
	cum     map[int]int64 // per cell, what the sink received
	batches []tfd.SBatch
	lastSeq map[int]uint64
	seen    map[[3]uint64]bool
	slow    int64
	slowTot int64
	vlog    map[uint64][]tfd.Envelope // persisted, per key
	drained map[uint64][]tfd.Envelope
	solo    bool
	stopRet uint64
	busy    bool
	held    []tfd.SBatch // what the sink keeps to compress it with what follows
	calls   int64
	nbits   map[int]int // per cell, operations with a power of two of their own; -1 when there were too many
	bits    map[int]uint64
	vs      tfd.VSATransformer
	vbusy   map[uint64]bool
}

func (x *tfdWorld) cellOf(k, b uint64) int {
	for i, c := range x.cells {
		if c.key == k && c.bucket == b {
			return i
		}
	}
	return -1
}

func (x *tfdWorld) OnSBatches(bs []tfd.SBatch) {
	w := x.w
	if x.busy {
		w.Fail("C19", "sink-reentered", "the sink was called while a call was still running")
	}
	x.busy = true
	defer func() { x.busy = false }()
	if k, arg := rt.Fault("sink", "slow"); k != "" {
		d := arg % x.slow
		x.slowTot += d
		rt.Sleep(d)
	}
	if x.stopRet != 0 {
		w.Fail("C20", "sink-after-stop", "the sink was called after Stop had returned")
	}
	if g := w.P("regroup"); g > 0 {
		x.held = append(x.held, bs...)
		if x.calls++; x.calls%g == 0 {
			x.release()
		}
	} else {
		x.take(bs)
	}
	rt.YS()
}

// release compresses what the sink has kept and takes it.
func (x *tfdWorld) release() {
	if len(x.held) == 0 {
		return
	}
	in := x.held
	type sum struct {
		net  int64
		mark uint64
	}
	want := map[tcell]sum{}
	for _, b := range in {
		c := tcell{b.KeyID, b.BucketID}
		want[c] = sum{want[c].net + b.NetDelta, max(want[c].mark, b.SeqEnd)}
	}
	arg := append([]tfd.SBatch(nil), in...)
	for i := len(arg) - 1; i > 0; i-- {
		j := x.w.R.N(i + 1)
		arg[i], arg[j] = arg[j], arg[i]
	}
	out := x.vs.Compress(arg)
	if n := x.vs.Compress(arg[:0]); len(n) > 0 {
		x.w.Fail("C19", "compress", "compressing nothing gives %d batches", len(n))
	}
	for _, b := range out {
		c := tcell{b.KeyID, b.BucketID}
		if want[c] != (sum{b.NetDelta, b.SeqEnd}) {
			x.w.Fail("C19", "compress", "compressing %d batches gives one of net %d and mark %d for cell (%x,%x); they add up to %d and the highest mark is %d", len(in), b.NetDelta, b.SeqEnd, c.key, c.bucket, want[c].net, want[c].mark)
		}
		delete(want, c)
	}
	for _, b := range in {
		if c := (tcell{b.KeyID, b.BucketID}); want[c].net != 0 {
			x.w.Fail("C19", "compress", "compressing %d batches drops cell (%x,%x), of which they have %d", len(in), c.key, c.bucket, want[c].net)
			break
		}
	}
	rt.Probe("compress-judged")
	x.held = nil
	x.take(out)
}

// got is what the sink has of a cell.
func (x *tfdWorld) got(ci int) int64 {
	n := x.cum[ci]
	for _, b := range x.held {
		if b.KeyID == x.cells[ci].key && b.BucketID == x.cells[ci].bucket {
			n += b.NetDelta
		}
	}
	return n
}

// decode: the operations of these cells have powers of two for amounts, so that a batch tells
// which it contains.
func (x *tfdWorld) decode(i int, b tfd.SBatch) {
	if x.nbits[i] <= 0 {
		return
	}
	net := uint64(b.NetDelta)
	if i%2 == 1 {
		net = uint64(-b.NetDelta)
	}
	if net>>x.nbits[i] != 0 || net&x.bits[i] != 0 {
		x.w.Fail("C19", "wrong-net", "cell %d: a batch has net %d, which no set of operations not delivered before adds up to", i, b.NetDelta)
		return
	}
	x.bits[i] |= net
	k, top := 0, uint64(0)
	for _, t := range x.envs {
		if t.cell == i && !t.vec {
			if net>>k&1 == 1 {
				top = max(top, t.seq)
			}
			k++
		}
	}
	if top != b.SeqEnd {
		x.w.Fail("C19", "wrong-mark", "cell %d: a batch carries sequence mark %d; the highest of the operations it contains is %d", i, b.SeqEnd, top)
	}
	rt.Probe("batch-decoded")
}

func (x *tfdWorld) take(bs []tfd.SBatch) {
	w := x.w
	for _, b := range bs {
		i := x.cellOf(b.KeyID, b.BucketID)
		if i < 0 {
			w.Fail("C19", "phantom-cell", "a batch for cell (%x,%x), which nobody wrote", b.KeyID, b.BucketID)
			continue
		}
		t := x.bySeq[b.SeqEnd]
		if t == nil || t.vec || t.cell != i {
			w.Fail("C19", "bad-seq", "cell %d: a batch carries sequence mark %d, which is none of the cell's", i, b.SeqEnd)
			continue
		}
		id := [3]uint64{b.KeyID, b.BucketID, b.SeqEnd}
		if x.seen[id] {
			w.Fail("C19", "duplicate-mark", "cell %d: two batches carry the sequence mark %d; a reader that discards known marks loses one", i, b.SeqEnd)
		}
		x.seen[id] = true
		x.decode(i, b)
		x.cum[i] += b.NetDelta
		x.batches = append(x.batches, b)
		if x.solo {
			if b.SeqEnd <= x.lastSeq[i] {
				w.Fail("C19", "mark-regressed", "cell %d: a batch carries sequence mark %d after %d", i, b.SeqEnd, x.lastSeq[i])
			}
			x.lastSeq[i] = b.SeqEnd
			var want int64
			for _, t := range x.envs {
				if t.cell == i && !t.vec && t.seq <= b.SeqEnd && t.acc != 0 {
					want += t.delta
				}
			}
			if x.cum[i] != want {
				w.Fail("C19", "wrong-net", "cell %d: batches up to sequence mark %d add up to %d; the operations up to it add up to %d", i, b.SeqEnd, x.cum[i], want)
			}
		}
		rt.Tracef("sink cell %d net %d seq %d", i, b.NetDelta, b.SeqEnd)
	}
}

func (x *tfdWorld) persistV(e tfd.Envelope) {
	k := e.Footprint.KeyID
	if x.vbusy[k] {
		x.w.Fail("C21", "v-overlap", "key %x: two ordered operations are being persisted at the same time", k)
	}
	x.vbusy[k] = true
	if f, arg := rt.Fault("vpersist", "slow"); f != "" {
		rt.Sleep(arg % x.slow)
	}
	rt.YS()
	x.vlog[k] = append(x.vlog[k], e)
	x.vbusy[k] = false
	rt.Tracef("v-persist %x seq %d", k, e.SeqEnd)
}

func genTFD(r *rt.RNG, p *Plan) {
	P := p.P
	ms := int64(1_000_000)
	p.Cfg.StallMax = min(p.Cfg.StallMax, 500_000)
	P["direct"] = int64(r.N(2)) // the S-lane service without the pipeline
	if p.Prop == "C21" || p.Prop == "C22" {
		P["direct"] = 0
	}
	P["shards"] = rt.Pick(r, int64(0), 1, 1, 2, 4, 7)
	P["order"] = rt.Pick(r, int64(0), 1, 2, 3, 6)
	P["count"] = rt.Pick(r, int64(0), 1, 2, 3, 5, 1000)
	P["cap"] = rt.Pick(r, int64(0), 1*ms, 5*ms, 50*ms)
	P["fi"] = rt.Pick(r, int64(0), 1*ms, 2*ms, 20*ms, 3_600_000*ms)
	P["buf"] = rt.Pick(r, int64(0), 1, 1, 2, 16)
	P["vsa"] = int64(r.N(4)+2) / 3
	P["cells"] = rt.Pick(r, int64(1), 2, 4, 9, 70)
	P["solo"] = int64(r.N(4)+2) / 3
	P["slow"] = rt.Pick(r, 1*ms, 20*ms)
	if r.N(2) == 0 {
		p.Rates["sink"] = rt.Pick(r, 0.1, 0.5)
		p.Rates["vpersist"] = 0.3
	}
	P["bits"] = int64(r.N(3) / 2)
	if r.N(4) == 0 { // a sink that compresses several deliveries together
		P["regroup"] = rt.Pick(r, int64(2), 3, 8, 1000)
	}
	P["racystop"] = int64(r.N(2))
	P["stops"] = int64(1 + r.N(3))
	P["stopat"] = r.I64(rt.Pick(r, 100_000, 5*ms, 60*ms))
	clients := 1 + r.N(4)
	per := rt.Pick(r, 6, 20, 60)
	for c := 0; c < clients; c++ {
		for i := 1 + r.N(per); i > 0; i-- {
			o := Op{C: c, K: "s", N: r.I64(P["cells"]), M: int64(r.N(8)) - 3}
			switch v := r.N(20); {
			case v < 5 && P["direct"] == 0:
				o.K = "v"
			case v == 5:
				o.K = "fl"
			case v == 6 && c == 0:
				o.K = "dr"
			case v == 7:
				o.K = "si" // blocking ingest
			}
			switch v := r.N(12); {
			case v == 0:
				o.D = r.I64(2*max(P["cap"], ms) + 1)
			case v == 1:
				o.D = r.I64(30 * ms)
			case v < 4:
				o.D = r.I64(100_000)
			}
			p.Ops = append(p.Ops, o)
		}
	}
	P["clients"] = int64(clients)
	P["late"] = int64(r.N(2)) // operations after Stop
	if r.N(60) == 0 {         // bursts that queue up, many cells
		p.Cfg.StallMax = min(p.Cfg.StallMax, 2_000)
		P["wide"] = 1
		P["slow"] = 1 * ms
		P["cells"] = rt.Pick(r, int64(1), 9, wideSize(r, 1100, "tfd"), wideSize(r, 1100, "tfd"))
		P["buf"] = rt.Pick(r, int64(0), 0, wideSize(r, 1100, "tfd"))
		P["count"] = rt.Pick(r, int64(0), 1000, wideSize(r, 1100, "tfd"))
		P["order"] = rt.Pick(r, int64(1), 3, 6, 9)
		P["shards"] = rt.Pick(r, int64(0), 1, 1, 2, 64, 100)
		P["fi"] = rt.Pick(r, int64(0), 2*ms, 20*ms, 3_600_000*ms)
		p.Rates = map[string]float64{}
		if r.N(2) == 0 {
			p.Rates["sink"] = rt.Pick(r, 0.1, 0.5)
		}
		var ops []Op
		clients = 1 + r.N(2)
		P["clients"] = int64(clients)
		for c := 0; c < clients; c++ {
			for i := 1 + r.N(4); i > 0; i-- {
				o := Op{C: c, K: rt.Pick(r, "b", "b", "b", "bv"), N: r.I64(P["cells"]), M: wideSize(r, 1100, "tfd")}
				if r.N(4) == 0 {
					o.D = r.I64(5 * ms)
				}
				if o.K == "bv" && P["direct"] == 1 {
					o.K = "b"
				} else if o.K == "bv" {
					o.M = min(o.M, 400)
				}
				ops = append(ops, o)
				switch r.N(4) {
				case 0, 1:
					ops = append(ops, Op{C: c, K: "fl"})
				case 2:
					if c == 0 {
						ops = append(ops, Op{C: c, K: "dr", N: o.N})
					}
				}
			}
		}
		p.Ops = ops
	}
}

func runTFD(w *World) {
	x := &tfdWorld{w: w, bySeq: map[uint64]*tenv{}, cum: map[int]int64{}, lastSeq: map[int]uint64{}, seen: map[[3]uint64]bool{}, slow: w.P("slow"),
		vlog: map[uint64][]tfd.Envelope{}, drained: map[uint64][]tfd.Envelope{}, solo: w.P("solo") == 1, vbusy: map[uint64]bool{}}
	w.X = x
	for i := 0; i < int(w.P("cells")); i++ {
		c := tcell{uint64(i/3) * 0x9e37, uint64(i % 3)}
		switch i % 5 {
		case 3: // same composite as another cell: the top bit of the bucket is shifted out
			c = tcell{uint64(i/5) * 0x9e37, 1<<63 | uint64(i%2)}
		case 4: // a real hashed name
			c = tcell{tfd.HashKey(fmt.Sprint("user", i/2)), tfd.HashKey(fmt.Sprint("t", i%2))}
		}
		x.cells = append(x.cells, c)
	}
	for i := range x.cells { // distinct cells only
		for j := 0; j < i; j++ {
			if x.cells[i] == x.cells[j] {
				x.cells[i] = tcell{uint64(1000 + i), uint64(i)}
			}
		}
	}
	x.vs, x.nbits, x.bits = tfd.SimpleVSA{}, map[int]int{}, map[int]uint64{}
	p := rt.NewProc("app")
	direct := w.P("direct") == 1
	var pipe *tfd.Pipeline
	var svc *tfd.SService
	var vs tfd.VSATransformer
	if w.P("vsa") == 1 {
		vs = tfd.SimpleVSA{}
	}
	rt.Join(0, rt.Spawn(p, "init", func() {
		if direct {
			acc := tfd.NewSAccumulator(int(w.P("shards")), int(w.P("order")), int(w.P("count")), time.Duration(w.P("cap")))
			svc = tfd.NewSService(acc, vs, x, tfd.SServiceOptions{Buffer: int(w.P("buf")), FlushInterval: time.Duration(w.P("fi"))})
			svc.Start()
			return
		}
		pipe = tfd.NewPipeline(tfd.PipelineOptions{Shards: int(w.P("shards")), OrderPow2: int(w.P("order")), CountThresh: int(w.P("count")),
			TimeCap: time.Duration(w.P("cap")), FlushInterval: time.Duration(w.P("fi")), Buffer: int(w.P("buf")), VSA: vs, SSink: x})
		pipe.Start()
	}))
	var seq uint64
	var stopCall uint64
	do := func(c int, o Op) {
		ci := int(o.N) % len(x.cells)
		if x.solo && (o.K == "s" || o.K == "si") { // every cell has one producer
			n := int(w.P("clients"))
			ci = ci - ci%n + c%n
			if ci >= len(x.cells) {
				ci = c
			}
			if ci >= len(x.cells) {
				o.K = "v"
				ci = 0
				if direct {
					return
				}
			}
		}
		e := w.Begin(c, o.K, "", int64(ci), o.M)
		switch o.K {
		case "s", "si", "v":
			seq++
			if w.P("bits") == 1 && o.K != "v" {
				switch n := x.nbits[ci]; {
				case n >= 0 && n < 62:
					o.M = 1 << n * (1 - 2*int64(ci%2))
					x.nbits[ci]++
				default:
					x.nbits[ci] = -1
				}
			}
			t := &tenv{c: c, cell: ci, delta: o.M, seq: seq, vec: o.K == "v", e: e, acc: -1}
			x.envs = append(x.envs, t)
			x.bySeq[seq] = t
			env := tfd.Envelope{Channel: tfd.ChannelScalar, Delta: o.M, SeqEnd: seq,
				Footprint: tfd.Footprint{KeyID: x.cells[ci].key, Time: tfd.TimeFootprint{BucketID: x.cells[ci].bucket}, Scope: tfd.ChannelScalar}}
			if t.vec {
				env.Channel, env.Footprint.Scope = tfd.ChannelVector, tfd.ChannelVector
			}
			if direct && seq%53 == 7 { // what does not belong here is ignored
				mis := env
				mis.Channel, mis.SeqEnd = tfd.ChannelVector, 1<<60+seq
				if o.K == "s" {
					svc.TryIngest(mis)
				} else {
					svc.Ingest(mis)
				}
			}
			switch {
			case !direct:
				pipe.Handle(env, x.persistV)
				if t.vec || stopCall == 0 {
					t.acc = 1
				}
			case o.K == "s":
				ok := svc.TryIngest(env)
				if !ok {
					ok = svc.Ingest(env)
				}
				t.acc = int(b2i64(ok))
			default:
				t.acc = int(b2i64(svc.Ingest(env)))
			}
			if direct && stopCall == 0 && t.acc == 0 {
				w.Fail("C20", "refused", "an operation was refused although nobody called Stop")
			}
		case "fl":
			idx := map[int]int{}
			if x.solo {
				for i, t := range x.envs {
					if !t.vec && t.acc == 1 && t.e.Ret != 0 {
						idx[t.cell] = i + 1
					}
				}
			}
			if direct {
				svc.Flush()
			} else {
				pipe.FlushS()
			}
			cis := make([]int, 0, len(idx))
			for ci := range idx {
				cis = append(cis, ci)
			}
			sort.Ints(cis)
			for _, ci := range cis {
				if !x.covers(ci, idx[ci]) {
					w.Fail("C20", "flush-incomplete", "cell %d: Flush returned, but the sink has %d; operations that had completed before the Flush are missing", ci, x.got(ci))
				}
			}
			rt.Probe("flush-judged")
		case "dr":
			if !direct {
				k := x.cells[ci].key
				x.drained[k] = append(x.drained[k], pipe.DrainV(k)...)
			}
		}
		w.End(e)
	}
	byc, _ := w.ByClient()
	var ts []*rt.Task
	for c, ops := range byc {
		c, ops := c, ops
		ts = append(ts, rt.Spawn(p, fmt.Sprintf("client%d", c), func() {
			for _, o := range ops {
				if o.D > 0 {
					rt.Sleep(o.D)
				}
				switch o.K {
				case "b":
					for j := int64(0); j < o.M; j++ {
						do(c, Op{C: c, K: "s", N: o.N + j, M: j%5 - 1})
					}
				case "bv": // one key
					for j := int64(0); j < o.M; j++ {
						do(c, Op{C: c, K: "v", N: o.N, M: j%5 - 1})
					}
				default:
					do(c, o)
				}
			}
		}))
	}
	join := func() {
		if !rt.Join(3600e9, ts...) {
			w.Fail("C20", "hang", "producers did not finish: %s", w.Dump())
			rt.Stop()
		}
	}
	if w.P("racystop") == 0 {
		join()
		x.quiet()
	} else {
		rt.Sleep(w.P("stopat"))
	}
	var ss []*rt.Task
	for i := int64(0); i < w.P("stops"); i++ {
		i := i
		ss = append(ss, rt.Spawn(p, "stop", func() {
			rt.Sleep(i * 20_000)
			if stopCall == 0 {
				stopCall = rt.Seq()
			}
			if direct {
				svc.Stop()
			} else {
				pipe.Stop()
			}
			x.final("after Stop returned", stopCall)
		}))
	}
	if !rt.Join(600e9, ss...) {
		w.Fail("C20", "stop-hang", "Stop did not return: %s", w.Dump())
		rt.Stop()
	}
	x.stopRet = rt.Seq()
	if w.P("late") == 1 {
		ts = append(ts, rt.Spawn(p, "late", func() {
			do(0, Op{K: "s", N: 0, M: 1})
			do(0, Op{K: "fl"})
		}))
	}
	join()
	rt.Sleep(100_000_000)
	w.FaultsOff = true
	rt.Join(0, rt.Spawn(p, "per-key", x.perKey))
	x.release()
	x.final("at the end", 0)
	if !direct {
		x.vlane(pipe, p)
		x.replay()
	}
	rt.Poll(5e9, 1e6, func() bool { return len(p.LiveTasks()) == 0 })
	if l := p.LiveTasks(); len(l) > 0 {
		w.Fail("C20", "goroutine-leak", "goroutines still alive after Stop: %v", l)
	}
}

// perKey drives an accumulator of its own that is also flushed key by key: everything accepted is
// handed out exactly once, of a flushed key all of it, and nothing of any other.
func (x *tfdWorld) perKey() {
	w := x.w
	if w.P("wide") == 1 {
		return // flushing a key scans the tables
	}
	acc := tfd.NewSAccumulator(int(w.P("shards")), int(min(w.P("order"), 3)), int(w.P("count")), time.Duration(w.P("cap")))
	type cs struct {
		net  int64
		mark uint64
	}
	open := map[tcell]cs{} // accepted since the cell was last handed out
	judge := func(what string, out []tfd.SBatch, key uint64, all bool) {
		got := map[tcell]cs{}
		for _, b := range out {
			c := tcell{b.KeyID, b.BucketID}
			if !all && b.KeyID != key {
				w.Fail("C19", "flush-key", "flushing key %x hands out a batch of key %x", key, b.KeyID)
			}
			if g, ok := got[c]; ok && g.mark == b.SeqEnd {
				w.Fail("C19", "flush-key", "%s hands out two batches of cell (%x,%x) with mark %d", what, c.key, c.bucket, b.SeqEnd)
			}
			got[c] = cs{got[c].net + b.NetDelta, max(got[c].mark, b.SeqEnd)}
		}
		for _, c := range x.cells {
			want := open[c]
			if !all && c.key != key {
				continue
			}
			if got[c] != want {
				w.Fail("C19", "flush-key", "%s hands out net %d, highest mark %d for cell (%x,%x); accepted since it was last flushed: net %d, highest mark %d", what, got[c].net, got[c].mark, c.key, c.bucket, want.net, want.mark)
			}
			delete(open, c)
		}
	}
	n := len(x.cells)
	for i := 0; i < min(3*n+20, 120); i++ {
		c := x.cells[w.R.N(n)]
		switch k := w.R.N(8); {
		case k == 0:
			var out []tfd.SBatch
			if !tfd.SimFlushKey(acc, c.key, &out) {
				return
			}
			judge("flushing the key", out, c.key, false)
			rt.Probe("flush-key")
		case k == 1 && i%5 == 0:
			judge("flushing everything", acc.FlushAll(), 0, true)
		default:
			d := int64(w.R.N(9)) - 3
			mark := uint64(i)*16 + uint64(w.R.N(200)) // they need not arrive in order
			full := acc.Ingest(tfd.Envelope{Channel: tfd.ChannelScalar, Delta: d, SeqEnd: mark,
				Footprint: tfd.Footprint{KeyID: c.key, Time: tfd.TimeFootprint{BucketID: c.bucket}, Scope: tfd.ChannelScalar}})
			open[c] = cs{open[c].net + d, max(open[c].mark, mark)}
			if n := w.P("count"); w.P("shards") == 1 && n > 0 && len(open) >= int(n) && !full {
				w.Fail("C20", "cell-threshold", "an accumulator with %d open cells does not ask for a flush at a threshold of %d", len(open), n)
			}
		}
	}
	judge("flushing everything", acc.FlushAll(), 0, true)
}

// covers: the sink's total for the cell is that of a prefix of its operations
// with at least the first n of x.envs.
func (x *tfdWorld) covers(ci, n int) bool {
	var s int64
	for i, t := range x.envs {
		if i >= n && s == x.got(ci) {
			return true
		}
		if t.cell == ci && !t.vec && t.acc != 0 {
			s += t.delta
		}
	}
	return s == x.got(ci)
}

func (x *tfdWorld) sums() map[int]int64 {
	exact := map[int]int64{}
	for _, t := range x.envs {
		if !t.vec && t.acc == 1 {
			exact[t.cell] += t.delta
		}
	}
	return exact
}

// work bounds the time the worker spends on one operation, a flush included.
func (x *tfdWorld) work() int64 {
	w := x.w
	n := int64(100)
	if w.P("wide") == 1 { // flushing scans the tables
		n += 10 * (max(1, w.P("shards"))<<w.P("order") + 4*w.P("cells"))
	}
	return n * w.Cfg.StepNs
}

// quiet: nobody produces any more; what the triggers promise has been flushed.
func (x *tfdWorld) quiet() {
	w := x.w
	fi := w.P("fi")
	if fi == 0 {
		fi = 2_000_000
	}
	slack := w.Held() + 10*w.Cfg.StallMax + 10*x.slow + 2_000_000
	t0 := rt.Now()
	want := x.sums()
	// faults stop here; progress is to follow
	w.FaultsOff, w.StallsOff = true, true
	back := int64(20+len(x.envs)) * x.work()
	if fi < 1e9 {
		rt.Sleep(4*fi + slack)
		rt.Poll(back, 1_000_000, func() bool {
			for ci := range x.cells {
				if x.got(ci) != want[ci] {
					return false
				}
			}
			return true
		})
		for ci := range x.cells {
			if x.got(ci) != want[ci] {
				w.Fail("C20", "not-flushed", "cell %d: %d ms after the last operation the sink has %d of %d (flush interval %d ms)", ci, (rt.Now()-t0)/1e6, x.got(ci), want[ci], fi/1e6)
			}
		}
		rt.Probe("interval-judged")
		return
	}
	rt.Sleep(slack + back)
	if w.P("shards") > 1 {
		return
	}
	open := 0
	for ci := range x.cells {
		if x.got(ci) != want[ci] {
			open++
		}
	}
	if n := w.P("count"); n > 0 && open >= int(n) {
		w.Fail("C20", "count-trigger", "%d cells wait in one shard although %d are to trigger a flush", open, n)
	}
	if cp := w.P("cap"); cp > 0 && len(x.envs) > 0 {
		last := int64(-1)
		for _, t := range x.envs {
			if !t.vec {
				last = max(last, t.e.T0)
			}
		}
		// what was in before that moment has been flushed by the last operation at the latest
		if x.solo {
			idx := map[int]int{}
			late := 2_000_000 + rt.S.Stalled + x.slowTot + back // the worker ages an operation from when it takes it off the queue
			for i, t := range x.envs {
				if !t.vec && t.e.T1 < last-cp-late {
					idx[t.cell] = i + 1
				}
			}
			for ci := range x.cells {
				if n := idx[ci]; n > 0 && !x.covers(ci, n) {
					w.Fail("C20", "time-trigger", "cell %d: operations that were older than the time cap %d ms when another one arrived are not in the sink", ci, cp/1e6)
				}
				if idx[ci] > 0 {
					rt.Probe("time-cap-judged")
				}
			}
		}
	}
}

// final: everything accepted (before seq, if given) is in the sink.
func (x *tfdWorld) final(when string, before uint64) {
	w := x.w
	known, may := map[int]int64{}, map[int]bool{}
	for _, t := range x.envs {
		if t.vec || t.acc == 0 {
			continue
		}
		if t.acc == 1 && (before == 0 || t.e.Ret != 0 && t.e.Ret < before) {
			known[t.cell] += t.delta
		} else if before != 0 || t.acc == -1 {
			may[t.cell] = true
		}
	}
	for ci := range x.cells {
		if may[ci] {
			continue
		}
		if x.got(ci) != known[ci] {
			w.Fail("C19,C20", "not-conserved", "cell %d: %s the sink has %d, but the accepted operations add up to %d", ci, when, x.got(ci), known[ci])
		}
	}
	rt.Probe("conservation-judged")
}

// vlane judges the ordered lane.
func (x *tfdWorld) vlane(pipe *tfd.Pipeline, p *rt.Proc) {
	w := x.w
	keys := map[uint64]bool{}
	for _, c := range x.cells {
		keys[c.key] = true
	}
	ks := make([]uint64, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	rt.Join(0, rt.Spawn(p, "drain", func() {
		for _, k := range ks {
			x.drained[k] = append(x.drained[k], pipe.DrainV(k)...)
		}
	}))
	for _, k := range ks {
		log := x.vlog[k]
		seen := map[uint64]bool{}
		lastOf := map[int]uint64{}
		for _, e := range log {
			t := x.bySeq[e.SeqEnd]
			if t == nil || !t.vec || x.cells[t.cell].key != k || e.Delta != t.delta || e.Footprint.Time.BucketID != x.cells[t.cell].bucket || e.Channel != tfd.ChannelVector {
				w.Fail("C21", "v-altered", "key %x: a persisted ordered operation is not one that was submitted: %+v", k, e)
				continue
			}
			if seen[e.SeqEnd] {
				w.Fail("C21", "v-duplicate", "key %x: operation %d was persisted twice", k, e.SeqEnd)
			}
			seen[e.SeqEnd] = true
			if e.SeqEnd < lastOf[t.c] {
				w.Fail("C21", "v-order", "key %x: operation %d was persisted after %d, which the same producer submitted later", k, e.SeqEnd, lastOf[t.c])
			}
			lastOf[t.c] = e.SeqEnd
			if e.HashPrev != tfd.Hash128(k, e.SeqEnd) {
				w.Fail("C21", "v-audit", "key %x: operation %d is persisted with an audit link that does not verify", k, e.SeqEnd)
			}
		}
		for i, e := range log { // real-time order: completed before the other was submitted
			for _, f := range log[i+1:] {
				a, b := x.bySeq[e.SeqEnd], x.bySeq[f.SeqEnd]
				if a != nil && b != nil && b.e.Ret != 0 && b.e.Ret < a.e.Call {
					w.Fail("C21", "v-order", "key %x: operation %d is persisted before %d, which had completed before it was submitted", k, e.SeqEnd, f.SeqEnd)
				}
			}
		}
		for _, t := range x.envs {
			if t.vec && x.cells[t.cell].key == k && t.e.Ret != 0 && !seen[t.seq] {
				w.Fail("C21", "v-lost", "key %x: operation %d completed but was not persisted", k, t.seq)
			}
		}
		d := x.drained[k]
		if len(d) != len(log) {
			w.Fail("C21", "v-queue", "key %x: %d ordered operations were queued, %d persisted", k, len(d), len(log))
			continue
		}
		for i := range d {
			if d[i].SeqEnd != log[i].SeqEnd || d[i].HashPrev != log[i].HashPrev {
				w.Fail("C21", "v-order", "key %x: the queue has operation %d where the log has %d", k, d[i].SeqEnd, log[i].SeqEnd)
			}
		}
		if len(log) > 1 {
			rt.Probe("v-order-judged")
		}
	}
}

// replay: reconstruction from what was persisted, in any order the contract
// allows, gives what the operations themselves give.
func (x *tfdWorld) replay() {
	w := x.w
	for _, t := range x.envs {
		if t.acc == -1 {
			return
		}
	}
	rt.Join(0, rt.Spawn(rt.NewProc("reader"), "reader", func() {
		base := tfd.NewState()
		var all []tfd.Envelope
		for _, t := range x.envs {
			if t.acc == 1 {
				ch := tfd.ChannelScalar
				if t.vec {
					ch = tfd.ChannelVector
				}
				c := x.cells[t.cell]
				all = append(all, tfd.Envelope{Channel: ch, Delta: t.delta, SeqEnd: t.seq, Footprint: tfd.Footprint{KeyID: c.key, Time: tfd.TimeFootprint{BucketID: c.bucket}, Scope: ch}})
			}
		}
		base.BaselineApply(all)
		for round := 0; round < 2; round++ {
			sb := append([]tfd.SBatch(nil), x.batches...)
			var ve []tfd.Envelope
			var q [][]tfd.Envelope
			var keys []uint64
			for k := range x.vlog {
				keys = append(keys, k)
			}
			sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
			for _, k := range keys {
				q = append(q, append([]tfd.Envelope(nil), x.vlog[k]...))
			}
			for i := len(sb) - 1; i > 0; i-- {
				j := w.R.N(i + 1)
				sb[i], sb[j] = sb[j], sb[i]
			}
			for len(q) > 0 { // per-key order kept, keys interleaved
				i := w.R.N(len(q))
				if len(q[i]) == 0 {
					q = append(q[:i], q[i+1:]...)
					continue
				}
				ve = append(ve, q[i][0])
				q[i] = q[i][1:]
			}
			st := tfd.NewState()
			if round == 1 { // in two sittings
				n := w.R.N(len(sb) + 1)
				st.Reconstruct(sb[:n], nil)
				st.Reconstruct(sb[n:], ve)
			} else {
				st.Reconstruct(sb, ve)
			}
			a, b := st.Cells(), base.Cells()
			for ci, c := range x.cells {
				k := [2]uint64{c.key, c.bucket}
				if a[k] != b[k] {
					w.Fail("C22", "replay-differs", "cell %d: replaying the persisted logs gives %d, applying the operations in order gives %d", ci, a[k], b[k])
				}
			}
			for k, v := range a {
				if x.cellOf(k[0], k[1]) < 0 && v != 0 {
					w.Fail("C22", "replay-phantom", "replay makes a cell %x with %d that nobody wrote", k, v)
				}
			}
		}
		// The log of another process, with marks of its own that may coincide with these, is
		// replayed with them.
		st, want := tfd.NewState(), map[[2]uint64]int64{}
		var sb []tfd.SBatch
		var ve []tfd.Envelope
		add := func(b tfd.SBatch) {
			sb = append(sb, b)
			want[[2]uint64{b.KeyID, b.BucketID}] += b.NetDelta
		}
		for _, b := range x.batches {
			add(b)
			if w.R.N(2) == 0 {
				b.NetDelta = int64(w.R.N(9)) - 3
				b.SeqEnd = rt.Pick(w.R, b.SeqEnd, b.SeqEnd, 1, 0, 1<<63)
				add(b)
			}
		}
		for _, t := range x.envs {
			if c := x.cells[t.cell]; t.vec && t.acc == 1 {
				for i := w.R.N(2); i >= 0; i-- {
					ve = append(ve, tfd.Envelope{Channel: tfd.ChannelVector, Delta: t.delta, SeqEnd: t.seq, Footprint: tfd.Footprint{KeyID: c.key, Time: tfd.TimeFootprint{BucketID: c.bucket}, Scope: tfd.ChannelVector}})
					want[[2]uint64{c.key, c.bucket}] += t.delta
				}
			}
		}
		if w.R.N(2) == 0 {
			for i := len(sb) - 1; i > 0; i-- {
				j := w.R.N(i + 1)
				sb[i], sb[j] = sb[j], sb[i]
			}
		}
		st.Reconstruct(sb, ve)
		for _, c := range x.cells {
			k := [2]uint64{c.key, c.bucket}
			if g := st.Cells()[k]; g != want[k] {
				w.Fail("C22", "replay-differs", "cell (%x,%x): replaying the logs of two processes gives %d, their operations add up to %d", c.key, c.bucket, g, want[k])
			}
		}
		rt.Probe("replay-judged")
	}))
}

func b2i64(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func init() {
	register(&Scenario{Name: "tfd", HoldMax: 3_000_000, Real: "tfd.Pipeline, SService, SAccumulator, SimpleVSA, VRouter, VActor, State", Stub: "the sinks (observed, in memory), clock, scheduler", Gen: genTFD, Run: runTFD, Hang: "C20", Panic: "C20"})
	rule := "Cases: 1-4 producers feed both lanes with random deltas on 1-70 cells (some with colliding composites) under random shard, threshold, time-cap, interval and buffer settings, with flushes, drains, slow sinks and concurrent Stop calls."
	for _, id := range []string{"C19", "C20", "C21", "C22"} {
		prop(&PropDef{ID: id, Uses: []Use{{"tfd", 1}}, Quick: 500000, Rule: rule})
	}
}
