package main

import (
	"context"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	redis "github.com/redis/go-redis/v9"
	"vsa/internal/ratelimiter/persistence"
	"vsa/zsim/rt"
	"vsa/zsim/sctx"
)

// Scenario "commit": several writers send overlapping batches of commits, with
// retries, through one storage adapter to a simulated server.

const (
	bkRedis = 0
	bkPG    = 1
	bkKafka = 2
)

func unsupported(what string) {
	fmt.Fprintln(os.Stderr, "the stand-in cannot run "+what)
	os.Exit(3)
}

func simTimeout(d int64) (context.Context, func()) {
	c, f := sctx.WithTimeout(context.Background(), time.Duration(d))
	return c, f
}

var sctxTimeout = func(d int64) (context.Context, func()) {
	if d <= 0 {
		return context.Background(), func() {}
	}
	return simTimeout(d)
}

type centry struct {
	key, id string
	vec     int64
	tok     *int64
	j       int   // position among the key's entries, for decoding
	last    int64 // when it was last seen to be applied
	applied int
	sent    bool
	acked   bool
}

type cbatch struct {
	idx  []int
	sent bool
}

type commitWorld struct {
	w       *World
	ents    map[int]*centry
	order   []int
	batches []*cbatch
	rd      *fakeRedis
	pg      *fakePG
	kf      *fakeKafka
	p       persistence.IdempotentPersister
	ttl     int64
	decode  bool
	prop    string
	lastTok map[string]int64
	calls   map[*rt.Task]*ccall
	born    map[string]int64 // Redis: when a key with an expiry appeared
	gone    map[string]int64 // and when it expires
}

type ccall struct {
	ents []persistence.CommitEntry
	pos  int
	t0   int64
	bad  bool
	fail bool
}

func genCommit(r *rt.RNG, p *Plan) {
	P := p.P
	switch p.Prop {
	case "C12":
		P["backend"] = bkRedis
	case "C13":
		P["backend"] = bkPG
	case "C14":
		P["backend"] = bkKafka
	default:
		P["backend"] = int64(r.N(3))
	}
	site := []string{"redis", "pg", "kafka"}[P["backend"]]
	if r.N(8) != 0 {
		p.Rates[site] = rt.Pick(r, 0.03, 0.1, 0.3)
	}
	p.Rates["pg.connect"] = rt.Pick(r, 0.0, 0.0, 0.1)
	p.Cfg.StallMax = min(p.Cfg.StallMax, 1_000_000)
	nk := 1 + r.N(3)
	P["decode"] = int64(r.N(3)+1) / 2 // 0 1 1
	P["ttl"] = rt.Pick(r, int64(0), 0, 3600, 3, 1, 60) * 1_000_000_000
	if r.N(4) == 0 {
		P["ttl"] = rt.Pick(r, int64(300), 1500, 2700) * 1_000_000
	}
	P["cli"] = int64(r.N(2))
	P["ids"] = int64(r.N(10)) // 1-4: long ones
	P["create"] = int64(r.N(2))
	P["tok"] = int64(r.N(2))
	P["tokv"] = rt.NewRNG(p.Seed ^ 0x70cef).I64(6)
	P["tmo"] = rt.Pick(r, int64(0), 0, 5_000_000, 200_000_000, 1_500_000_000)
	if r.N(6) == 0 {
		P["bad"] = 1 + int64(r.N(2))
	}
	P["nilctx"] = int64(r.N(2))
	P["retries"] = int64(r.N(4))
	P["conns"] = int64(r.N(4))
	P["gap"] = rt.Pick(r, int64(1_000_000), 100_000_000, 2_000_000_000)
	keys := []string{"alice", "a:b", "ключ é", "x y\"z\\", "k}{"}
	r0 := r.N(len(keys))
	cnt := map[string]int{}
	type ent struct {
		k string
		v int64
	}
	var pool []ent
	ne := 2 + r.N(7)
	for i := 0; i < ne; i++ {
		k := keys[(r0+r.N(nk))%len(keys)]
		if cnt[k] >= 10 {
			continue
		}
		v := int64(1) << (4 * cnt[k])
		if P["decode"] == 0 {
			v = rt.Pick(r, int64(0), 1, 3, 100, 1+r.I64(1000), 1<<40, 1<<52)
			if q := rt.NewRNG(p.Seed + uint64(i)); P["backend"] == bkKafka && q.N(4) == 0 {
				v = math.MaxInt64 - q.I64(3)
			}
		}
		if r.N(3) == 0 {
			v = -v
		}
		cnt[k]++
		pool = append(pool, ent{k, v})
	}
	clients := 1 + r.N(4)
	P["own"] = int64(r.N(3) / 2)
	for c := 0; c < clients; c++ {
		for b := 1 + r.N(4); b > 0; b-- {
			sz := 1
			if r.N(3) > 0 {
				sz = 1 + r.N(5)
			}
			for i := 0; i < sz; i++ {
				e := r.N(len(pool))
				if P["own"] == 1 { // nobody else sends this commit
					e = (e - e%clients + c) % len(pool)
				}
				o := Op{C: c, K: "b+", S: pool[e].k, N: pool[e].v, M: int64(e)}
				if i == 0 {
					o.K = "b"
					if r.N(2) == 0 {
						o.D = r.I64(P["gap"])
					}
				}
				p.Ops = append(p.Ops, o)
			}
		}
	}
}

func runCommit(w *World) {
	x := &commitWorld{w: w, ents: map[int]*centry{}, decode: w.P("decode") == 1, lastTok: map[string]int64{}, calls: map[*rt.Task]*ccall{}, born: map[string]int64{}, gone: map[string]int64{}}
	w.X = x
	x.prop = []string{"C12", "C13", "C14"}[w.P("backend")]
	cnt := map[string]int{}
	ops := append([]Op(nil), w.Plan.Ops...)
	for _, o := range ops {
		if x.ents[int(o.M)] == nil {
			v := o.N
			e := &centry{key: o.S, id: commitID(w.P("ids"), o.M), vec: v, j: int(math.Round(math.Log2(float64(max(1, iabs(v)))))) / 4}
			if w.P("tok") == 1 && o.M%3 != 0 {
				t := int64(1 + (o.M*7)%5)
				switch w.P("tokv") { // any 64-bit token is one
				case 1:
					t -= 3
				case 2:
					t += 1<<53 - 2
				case 3:
					t = math.MaxInt64 - t
				case 4:
					t += math.MinInt64
				}
				e.tok = &t
			}
			x.ents[int(o.M)] = e
			x.order = append(x.order, int(o.M))
			cnt[o.S]++
		}
	}
	sort.Ints(x.order)
	app := rt.NewProc("app")
	setup := func() {
		switch w.P("backend") {
		case bkRedis:
			x.rd = newFakeRedis()
			x.rd.install()
			x.rd.onExec = x.afterRedis
			var ev persistence.RedisEvaler = evaler{x.rd}
			if w.P("cli") == 1 {
				ev = persistence.NewGoRedisEvaler("10.0.0.2:6379")
			}
			x.ttl = w.P("ttl")
			if w.P("decode") == 0 && x.ttl != 0 { // not decodable, so no time-outs of markers
				x.ttl = 3600_000_000_000
			}
			x.p = persistence.NewRedisPersister(ev, time.Duration(x.ttl))
			if x.ttl == 0 {
				x.ttl = 24 * 3600_000_000_000
			}
		case bkPG:
			x.pg = newFakePG()
			x.pg.onCommit = x.afterPG
			db := x.pg.open()
			if n := w.P("conns"); n > 0 {
				db.SetMaxOpenConns(int(n))
			}
			if w.P("create") == 0 {
				ks := make([]string, 0, len(cnt))
				for k := range cnt {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					x.pg.put("counters", k, map[string]sqlVal{"key": k, "scalar": int64(1000), "last_token": nil})
				}
			}
			x.p = persistence.NewPostgresPersister(db, w.P("create") == 1)
		case bkKafka:
			x.kf = newFakeKafka()
			x.kf.onAppend = x.afterKafka
			x.kf.onCall = x.kafkaCall
			x.kf.onErr = func(t *rt.Task) {
				if cc := x.calls[t]; cc != nil {
					cc.fail = true
				}
			}
			x.p = persistence.NewKafkaPersister(x.kf, "vsa-commits")
		}
	}
	rt.Join(0, rt.Spawn(app, "init", setup))
	byc, _ := w.ByClient()
	var ts []*rt.Task
	for c, os := range byc {
		c, os := c, os
		ts = append(ts, rt.Spawn(app, fmt.Sprintf("writer%d", c), func() {
			var b *cbatch
			var delay int64
			flush := func() {
				if b == nil {
					return
				}
				if delay > 0 {
					rt.Sleep(delay)
				}
				x.batches = append(x.batches, b)
				if w.P("bad") > 0 && len(x.batches)%2 == 0 {
					x.sendBad(c, b)
				}
				for try := int64(0); try <= w.P("retries"); try++ {
					if x.send(c, b.idx, w.P("tmo")) == nil {
						break
					}
					rt.Sleep(1_000_000 << min(try, 8))
				}
				b = nil
			}
			for _, o := range os {
				if o.K == "b" || b == nil {
					flush()
					b = &cbatch{}
					delay = o.D
				}
				b.idx = append(b.idx, int(o.M))
			}
			flush()
		}))
	}
	if !rt.Join(3600e9, ts...) {
		w.Fail(x.prop, "hang", "writers did not finish: %s", w.Dump())
		rt.Stop()
	}
	w.FaultsOff = true
	rt.Sleep(2_500_000_000) // whatever is still on the network arrives
	rt.Join(0, rt.Spawn(app, "settle", func() {
		for _, b := range x.batches {
			var err error
			for try := 0; try < 6; try++ {
				if err = x.send(99, b.idx, 0); err == nil {
					break
				}
			}
			if err != nil {
				w.Fail(x.prop, "no-progress", "storage works again, but a batch still fails: %v", err)
			}
		}
	}))
	if x.pg != nil && x.pg.unsup != "" {
		unsupported("SQL: " + x.pg.unsup)
	}
	x.final()
	w.Notes["batches"] += int64(len(x.batches))
}

// commitID makes the identifier of entry m: short, or long and different only in one place.
func commitID(form, m int64) string {
	id := fmt.Sprintf("%08x-%d", 0x9e3779b9*uint32(m+1), m)
	const pad = "00c0ffee00c0ffee00c0ffee00c0ffee"
	switch form {
	case 1:
		return pad + id
	case 2:
		return id + pad
	case 3:
		return pad + id + pad
	case 4: // as the shim makes them
		return fmt.Sprintf("%08x%024x", 0x9e3779b9*uint32(m+1), m)
	}
	return id
}

// sendBad sends nothing at all, or b with an entry in it that has no identifier: such an entry could
// never be told from another and must not be taken for done.
func (x *commitWorld) sendBad(c int, b *cbatch) {
	ctx, cancel := sctxTimeout(0)
	defer cancel()
	cc := &ccall{t0: rt.Now()}
	if x.w.P("bad") == 1 {
		x.calls[rt.Cur()] = cc
		err := x.p.CommitBatch(ctx, nil)
		delete(x.calls, rt.Cur())
		if err != nil {
			x.w.Fail(x.prop, "empty-batch", "a batch of nothing failed: %v", err)
		}
		return
	}
	at := len(x.batches) / 2 % (len(b.idx) + 1)
	for k, i := range b.idx {
		if k == at {
			cc.ents = append(cc.ents, persistence.CommitEntry{Key: x.ents[i].key, Vector: 1})
		}
		e := x.ents[i]
		e.sent = true
		cc.ents = append(cc.ents, persistence.CommitEntry{Key: e.key, Vector: e.vec, CommitID: e.id, FencingToken: e.tok})
	}
	if at == len(b.idx) {
		cc.ents = append(cc.ents, persistence.CommitEntry{Key: x.ents[b.idx[0]].key, Vector: 1})
	}
	b.sent = true
	x.calls[rt.Cur()] = cc
	err := x.p.CommitBatch(ctx, append([]persistence.CommitEntry(nil), cc.ents...))
	delete(x.calls, rt.Cur())
	if err == nil {
		x.w.Fail(x.prop, "no-id-accepted", "a batch with an entry that has no commit identifier was reported as done")
	}
	rt.Probe("no-id-refused")
}

// send calls CommitBatch once and judges its result.
func (x *commitWorld) send(c int, idx []int, tmo int64) error {
	var es []persistence.CommitEntry
	for _, i := range idx {
		e := x.ents[i]
		e.sent = true
		var tok *int64
		if e.tok != nil {
			t := *e.tok
			tok = &t
		}
		es = append(es, persistence.CommitEntry{Key: e.key, Vector: e.vec, CommitID: e.id, FencingToken: tok})
	}
	for _, b := range x.batches {
		if len(b.idx) > 0 && &b.idx[0] == &idx[0] {
			b.sent = true
		}
	}
	ctx, cancel := sctxTimeout(tmo)
	defer cancel()
	ev := x.w.Begin(c, "commit", fmt.Sprint(idx), 0, 0)
	cc := &ccall{ents: es, t0: rt.Now()}
	x.calls[rt.Cur()] = cc
	if tmo == 0 && x.rd == nil && x.w.P("nilctx") == 1 {
		ctx = nil
	}
	err := x.p.CommitBatch(ctx, es)
	delete(x.calls, rt.Cur())
	ev.OK = err == nil
	if err != nil {
		ev.Err = err.Error()
	}
	x.w.End(ev)
	if x.pg != nil && err != nil && strings.Contains(err.Error(), "deadlock") && c != 99 {
		mine := map[int]bool{}
		for _, i := range idx {
			mine[i] = true
		}
		shared := false
		for _, b := range x.batches {
			if len(b.idx) > 0 && &b.idx[0] != &idx[0] {
				for _, i := range b.idx {
					shared = shared || mine[i]
				}
			}
		}
		if !shared {
			x.w.Fail("C13", "deadlock", "a batch of commits that no other writer sends was aborted by a deadlock")
		}
	}
	if err == nil {
		if cc.fail {
			x.w.Fail(x.prop, "swallowed-error", "publishing an entry failed, but the batch was reported as done")
		}
		for _, i := range idx {
			x.ents[i].acked = true
			x.judgeAcked(x.ents[i])
		}
	}
	lim := int64(10_000_000_000)
	if tmo > 0 {
		lim = tmo
	}
	if x.rd == nil || tmo > 0 {
		if d := ev.T1 - ev.T0; d > lim+3_500_000_000 {
			x.w.Fail(x.prop, "unbounded-call", "CommitBatch took %d ms although its time limit is %d ms", d/1e6, lim/1e6)
		}
	}
	return err
}

func (x *commitWorld) judgeAcked(e *centry) {
	switch {
	case x.rd != nil:
		if x.decode && e.applied == 0 {
			x.w.Fail("C12", "acked-not-applied", "CommitBatch reported commit %s of %d for key %q as done, but the counter does not show it", e.id, e.vec, e.key)
		}
	case x.pg != nil:
		if x.pg.committed("applied_commits", e.id) == nil {
			x.w.Fail("C13", "acked-not-applied", "CommitBatch returned nil, but commit %s is not recorded", e.id)
		}
	case x.kf != nil:
		if e.applied == 0 {
			x.w.Fail("C14", "acked-not-published", "CommitBatch returned nil, but commit %s is not in the log", e.id)
		}
	}
}

// afterRedis decodes each counter into how often every entry was applied.
func (x *commitWorld) afterRedis() {
	now := rt.Now()
	var ks []string
	for k, v := range x.rd.kv {
		if v.exp != 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		v := x.rd.get(k)
		if v == nil {
			continue
		}
		if x.born[k] == 0 || x.gone[k] <= now {
			x.born[k] = now
		} else {
			rt.Probe("marker-seen-again")
		}
		x.gone[k] = v.exp
		if v.exp-x.born[k] > x.ttl+1_100_000_000 {
			x.w.Fail("C12", "marker-extended", "%q appeared %d ms ago and is to be kept for another %d ms; markers live for %d ms", k, (now-x.born[k])/1e6, (v.exp-now)/1e6, x.ttl/1e6)
		}
	}
	if !x.decode {
		return
	}
	sums := map[string]int64{}
	for _, i := range x.order {
		sums[x.ents[i].key] = 0
	}
	for k := range sums {
		v := -x.rd.hash(persistence.RedisCounterKey(k), "scalar")
		var es []*centry
		for _, i := range x.order {
			if x.ents[i].key == k {
				es = append(es, x.ents[i])
			}
		}
		sort.Slice(es, func(a, b int) bool { return es[a].j < es[b].j })
		// balanced base 16, digits -7..8 in units of the entry's sign
		d := map[int]int64{}
		for j := 0; v != 0 && j < 15; j++ {
			m := ((v % 16) + 16) % 16
			if m > 8 {
				m -= 16
			}
			d[j] = m
			v = (v - m) / 16
		}
		for _, e := range es {
			n := int(d[e.j])
			if e.vec < 0 {
				n = -n
			}
			delete(d, e.j)
			if n == e.applied {
				continue
			}
			now := rt.Now()
			switch {
			case !e.sent:
				x.w.Fail("C12", "phantom", "key %q: commit %s was applied before it was submitted", k, e.id)
			case n < e.applied || n > e.applied+1:
				x.w.Fail("C12", "wrong-effect", "key %q: commit %s of %d now counts %d times, before %d times", k, e.id, e.vec, n, e.applied)
			case e.applied > 0 && now-e.last < x.ttl-1_000_000:
				x.w.Fail("C12", "applied-twice", "key %q: commit %s of %d was applied again %d ms after it was applied; markers are kept for %d ms", k, e.id, e.vec, (now-e.last)/1e6, x.ttl/1e6)
			}
			if e.applied > 0 {
				rt.Probe("marker-expired-reapply")
			}
			e.applied = n
			e.last = now
		}
		for j, n := range d {
			if n != 0 {
				x.w.Fail("C12", "wrong-effect", "key %q: the counter holds an amount nobody submitted (digit %d is %d)", k, j, n)
			}
		}
	}
}

func (x *commitWorld) afterPG() {
	byKey := map[string]int64{}
	tok := map[string]int64{}
	var applied []int
	for _, i := range x.order {
		e := x.ents[i]
		r := x.pg.committed("applied_commits", e.id)
		if r == nil {
			if e.applied > 0 {
				x.w.Fail("C13", "marker-gone", "commit %s was recorded and is gone", e.id)
			}
			continue
		}
		if !e.sent {
			x.w.Fail("C13", "phantom", "commit %s is recorded before it was submitted", e.id)
		}
		if r["key"] != e.key || r["vc"] != e.vec {
			x.w.Fail("C13", "wrong-record", "commit %s of %d for %q is recorded as %v for %v", e.id, e.vec, e.key, r["vc"], r["key"])
		}
		e.applied = 1
		applied = append(applied, i)
		byKey[e.key] += e.vec
		if e.tok != nil {
			if t, ok := tok[e.key]; !ok || *e.tok > t {
				tok[e.key] = *e.tok
			}
		}
	}
	base := int64(1000)
	if x.w.P("create") == 1 {
		base = 0
	}
	for _, k := range x.keys() {
		r := x.pg.committed("counters", k)
		if r == nil {
			if byKey[k] != 0 {
				x.w.Fail("C13", "no-counter", "commits for %q are recorded, but it has no counter", k)
			}
			continue
		}
		if s := r["scalar"].(int64); s != base-byKey[k] {
			x.w.Fail("C13", "not-atomic", "counter of %q is %d, but the recorded commits make it %d", k, s, base-byKey[k])
		}
		const none = math.MinInt64 // of tokens: math.MinInt64+1 is the least
		t, ok := r["last_token"].(int64)
		if !ok {
			t = none
		}
		if last, ok := x.lastTok[k]; ok && t < last {
			x.w.Fail("C13", "token-regressed", "last_token of %q went from %d to %d", k, x.lastTok[k], t)
		}
		if want, ok := tok[k]; ok && t != want || !ok && t != none {
			x.w.Fail("C13", "token", "last_token of %q is %d, but the highest token among its applied commits is %d", k, t, tok[k])
		}
		x.lastTok[k] = t
	}
	// all or nothing per batch, judged on the entries no other batch carries
	use := map[int]int{}
	for _, b := range x.batches {
		in := map[int]bool{}
		for _, i := range b.idx {
			if !in[i] {
				in[i] = true
				use[i]++
			}
		}
	}
	for _, b := range x.batches {
		yes, no := 0, 0
		for _, i := range b.idx {
			if use[i] == 1 {
				if x.ents[i].applied > 0 {
					yes++
				} else {
					no++
				}
			}
		}
		if yes > 0 && no > 0 {
			x.w.Fail("C13", "torn-batch", "a batch is recorded in part (entries %v)", b.idx)
		}
	}
}

func (x *commitWorld) keys() []string {
	seen := map[string]bool{}
	var ks []string
	for _, i := range x.order {
		if k := x.ents[i].key; !seen[k] {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	return ks
}

// kafkaCall judges what the adapter hands to the producer.
func (x *commitWorld) kafkaCall(m *kmsg) {
	w := x.w
	if m.topic != "vsa-commits" {
		w.Fail("C14", "wrong-topic", "published to %q", m.topic)
	}
	p, err := m.payload()
	if err != nil || p.Vec == nil {
		w.Fail("C14", "bad-payload", "the message %q cannot be decoded: %v", m.value, err)
		return
	}
	cc := x.calls[m.task]
	if cc == nil {
		return // published from another goroutine
	}
	// the message must be one of the batch's entries, in order; entries may not be skipped
	if cc.pos >= len(cc.ents) {
		w.Fail("C14", "extra-message", "more messages than entries: %s", m.value)
		return
	}
	e := cc.ents[cc.pos]
	cc.pos++
	same := p.Key == e.Key && *p.Vec == e.Vector && p.ID == e.CommitID && (p.Tok == nil) == (e.FencingToken == nil) && (p.Tok == nil || *p.Tok == *e.FencingToken)
	if !same {
		w.Fail("C14", "wrong-message", "entry %d of the batch is %q %d %s, but the message says %s", cc.pos-1, e.Key, e.Vector, e.CommitID, m.value)
	}
	if m.key != e.CommitID {
		w.Fail("C14", "wrong-key", "the message for commit %s is keyed %q", e.CommitID, m.key)
	}
}

func (x *commitWorld) afterKafka(m *kmsg) {
	p, err := m.payload()
	if err != nil {
		return
	}
	for _, i := range x.order {
		e := x.ents[i]
		if e.id == p.ID && e.key == p.Key {
			if !e.sent {
				x.w.Fail("C14", "phantom", "commit %s was published before it was submitted", e.id)
			}
			e.applied++
			return
		}
	}
	x.w.Fail("C14", "phantom", "the log holds a commit nobody submitted: %s", m.value)
}

func (x *commitWorld) final() {
	w := x.w
	want := map[string]int64{}
	for _, i := range x.order {
		e := x.ents[i]
		want[e.key] += e.vec
		if !e.sent {
			continue
		}
		if x.rd == nil || x.decode {
			if e.applied == 0 {
				w.Fail(x.prop, "lost", "commit %s of %d for %q was acknowledged and is not in storage", e.id, e.vec, e.key)
			}
		}
	}
	switch {
	case x.rd != nil:
		if !x.decode {
			for _, k := range x.keys() {
				if got := x.rd.hash(persistence.RedisCounterKey(k), "scalar"); got != -want[k] {
					w.Fail("C12", "wrong-sum", "counter of %q is %d after every commit was applied; it must be %d", k, got, -want[k])
				}
			}
		}
		for k := range x.rd.kv {
			if v := x.rd.get(k); v != nil && v.exp == 0 {
				for _, kk := range x.keys() {
					if k == persistence.RedisCounterKey(kk) {
						v = nil
						break
					}
				}
				if v != nil {
					w.Fail("C12", "marker-leak", "%q has no expiry", k)
				}
			} else if v != nil && v.exp-rt.Now() > x.ttl+2_000_000_000 {
				w.Fail("C12", "marker-leak", "%q lives for another %d s; markers are to be kept for %d ms", k, (v.exp-rt.Now())/1e9, x.ttl/1e6)
			}
		}
	case x.kf != nil:
		got := x.kf.materialise()
		for _, k := range x.keys() {
			if got[k] != want[k] {
				w.Fail("C14", "wrong-sum", "a consumer that skips known commit IDs arrives at %d for %q; it must be %d", got[k], k, want[k])
			}
		}
	}
}

var _ = redis.Nil

func init() {
	register(&Scenario{Name: "commit", HoldMax: 50_000_000, Real: "persistence.RedisPersister with its Lua script, PostgresPersister with its SQL over database/sql, KafkaPersister, GoRedisEvaler", Stub: "the Redis server and client library (a Lua interpreter over an in-memory store), the Postgres server (two tables, row locks, READ COMMITTED), the Kafka broker, network", Gen: genCommit, Run: runCommit, Hang: "C12", Panic: "C12"})
	rule := "Cases: 1-4 writers send overlapping batches of 1-5 commits with retries; network, server and time-out faults injected."
	for _, id := range []string{"C12", "C13", "C14"} {
		prop(&PropDef{ID: id, Uses: []Use{{"commit", 1}}, Quick: 180000, Rule: rule})
	}
}
