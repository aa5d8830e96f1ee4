package main

import (
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	api_main "vsa/cmd/ratelimiter-api"
	"vsa/internal/ratelimiter/api"
	"vsa/internal/ratelimiter/core"
	"vsa/internal/ratelimiter/persistence"
	"vsa/internal/ratelimiter/telemetry/churn"
	"vsa/zsim/rt"
	"vsa/zsim/shttp"
	"vsa/zsim/ssignal"
)

// Scenario "api": the whole service - HTTP API, store, worker, telemetry and a
// storage adapter - as its main() wires it, or (mode 1) wired by the harness
// around a persister that the harness observes.

const apiAddr = ":8080"

const metAddr = ":9091"

type apiWorld struct {
	*workerWorld
	rd     *fakeRedis
	proc   *rt.Proc
	evs    []*Ev
	limit  int64
	exact  bool // no slack configured: a refusal must be justified
	enable int64
	sigAt  int64

	printed map[*Ev][2]float64 // the summary line that was the last one printed when a scrape began
}

func genAPI(r *rt.RNG, p *Plan) {
	P := p.P
	ms := int64(1_000_000)
	genOpts(r, P, r.N(2) == 0)
	if P["cached"] == 1 { // the refresher must not dominate the run
		P["cint"] = rt.Pick(r, 20*ms, 100*ms)
	}
	P["mode"] = int64(r.N(2))
	switch p.Prop {
	case "C17":
		P["mode"] = 0
	case "C18":
		P["mode"] = min(1, int64(r.N(4)))
	}
	P["adapter"] = int64(r.N(2)) // 0 mock, 1 redis, 2 redis that only prints, 3 kafka that only prints
	if r.N(8) == 0 {
		P["adapter"] = 2 + int64(r.N(2))
	}
	P["limit"] = rt.Pick(r, int64(1), 3, 10, 30, 1000)
	P["T"] = rt.Pick(r, int64(1), 2, 5, 50)
	if r.N(3) == 0 {
		P["low"] = rt.Pick(r, int64(1), max(1, P["T"]/2))
	}
	P["ci"] = rt.Pick(r, 5*ms, 20*ms, 100*ms)
	if r.N(3) == 0 {
		P["ma"] = rt.Pick(r, 30*ms, 300*ms)
	}
	P["ea"], P["ei"] = int64(time.Hour), 600_000*ms
	if r.N(5) == 0 || p.Prop == "C10" {
		P["ea"], P["ei"] = 500*ms, 100*ms
		if r.N(2) == 0 {
			P["ea"], P["ei"] = rt.Pick(r, 200*ms, 1500*ms), rt.Pick(r, 20*ms, 150*ms, 1100*ms)
		}
		P["idle"] = P["ea"] + rt.Pick(r, int64(0), 1, 2)*P["ei"]
	}
	p.Cfg.StallMax = min(p.Cfg.StallMax, 1_000_000)
	P["churn"] = int64(r.N(2))
	if p.Prop == "C18" {
		P["churn"] = int64(r.N(8)+6) / 7
		p.Cfg.StallMax = min(p.Cfg.StallMax, 100_000)
	}
	P["li"] = rt.Pick(r, 40*ms, 100*ms, 300*ms)
	P["win"] = P["li"] * rt.Pick(r, int64(1), 2, 3, 7, 70)
	P["sample"] = rt.Pick(r, int64(100), 100, 100, 50, 0)
	switch r.N(12) {
	case 0:
		P["sample"] = 150
	case 1:
		P["sample"] = -50
	}
	P["term"] = r.I64(4)
	P["topn"] = rt.Pick(r, int64(0), 50, 1, 2, -1)
	P["hashlen"] = rt.Pick(r, int64(0), 8, 1, 16, 40, -3)
	if r.N(2) == 0 {
		p.Rates["net.request"] = rt.Pick(r, 0.05, 0.2)
	}
	if r.N(2) == 0 && P["mode"] == 0 && P["adapter"] == 1 {
		p.Rates["redis"] = rt.Pick(r, 0.1, 0.4)
	}
	if r.N(3) == 0 && P["mode"] == 0 && P["adapter"] == 1 {
		P["slowexit"] = 1 // storage works but is slow when the service ends
		p.Rates["redis"] = rt.Pick(r, 0.4, 0.9)
	}
	if r.N(2) == 0 && P["mode"] == 1 {
		p.Rates["persist"] = rt.Pick(r, 0.2, 0.5)
	}
	P["slow"] = rt.Pick(r, 5*ms, 100*ms, 1000*ms)
	if P["churn"] == 1 && r.N(4) == 0 {
		P["maddr"] = 1
	}
	nk := 1 + r.N(3)
	names := keyNames(r)
	if P["mode"] == 0 && P["adapter"] >= 2 { // what is printed must be readable
		names = []string{"k0", "k1", "user:1"}
	}
	P["rels"] = int64(r.N(2))
	linger := r.N(3) == 0
	gen := func(phase int64, clients, per int) {
		for c := 0; c < clients; c++ {
			for i := 1 + r.N(per); i > 0; i-- {
				o := Op{C: c, K: "chk", S: names[r.N(nk)], M: phase}
				switch v := r.N(24); {
				case v < 5 && P["rels"] == 1:
					o.K = "rel"
				case v == 5:
					o.K = "bad"
				case v == 6:
					o.K = "badrel"
				case v < 9 && P["churn"] == 1:
					o.K = "met"
					if P["maddr"] == 1 && r.N(2) == 0 {
						o.S = "metrics_addr"
					}
				case v == 9:
					o.K = "notfound"
				case v == 10 && phase == 1 && linger:
					o.K, o.N = rt.Pick(r, "idle", "stuck"), r.I64(12_000*ms)
				}
				switch v := r.N(10); {
				case v < 4:
					o.D = r.I64(2 * ms)
				case v < 7:
					o.D = r.I64(3 * P["ci"])
				case v == 7:
					o.D = r.I64(3 * P["li"])
				case v == 8 && P["ea"] < 2000*ms:
					o.D = P["idle"] - 20*ms + r.I64(300*ms)
				}
				p.Ops = append(p.Ops, o)
			}
		}
	}
	gen(0, 1+r.N(4), 12)
	if P["mode"] == 0 {
		gen(1, 1+r.N(4), 10)
		P["sigat"] = r.I64(rt.Pick(r, 1*ms, 10*ms, 200*ms))
		P["sig2"] = int64(r.N(4) / 3)
		P["early"] = int64(r.N(60) / 59)
		for i := r.N(4); linger && i > 0; i-- { // requests around the moment the shutdown gives up waiting
			o := Op{C: 5 + i, K: rt.Pick(r, "idle", "chk"), S: names[r.N(nk)], M: 1, N: P["sigat"] + 5000*ms + r.I64(2*ms) - 300_000}
			p.Ops = append(p.Ops, o)
		}
	}
}

// keyNames lists the keys of a run: plain ones, or ones that differ in little or carry odd characters.
func keyNames(r *rt.RNG) []string {
	if r.N(3) > 0 {
		return []string{"k0", "k1", "k2"}
	}
	n := []string{"k0", "K0", " k0", "k0/", "k0 x", "user:1", "user:10", "ключ", "a&b=c%20+", "0", "key of forty characters, give or take one", "key of forty characters, give or take two", "null", "../k0"}
	if r.N(4) == 0 { // long ones that differ at one end
		l := strings.Repeat("0123456789", rt.Pick(r, 7, 13, 26, 52, 110))
		return []string{l + "a", l + "b", rt.Pick(r, "x", "") + l}
	}
	i, j := r.N(len(n)), 1+r.N(len(n)-1)
	return []string{n[i], n[(i+j)%len(n)], n[(i+1+r.N(len(n)-1))%len(n)]}
}

// earlySignal: a process that is told to end as soon as it listens for signals ends orderly.
func earlySignal(w *World, p *rt.Proc, id string, start func()) {
	sig := rt.Pick(w.R, syscall.SIGTERM, syscall.SIGINT)
	ssignal.SendOnNotify(p, sig)
	start()
	if !p.Wait(120e9) {
		w.Fail(id, "no-exit", "the process does not end after %v, which came as soon as it listened for signals: %s", sig, w.Dump())
		rt.Stop()
	}
	if p.ExitCode != 0 || p.Crashed {
		w.Fail(id, "exit-code", "the process ended with code %d after an early %v: %s", p.ExitCode, sig, outTail(w.Stdout.String()))
	}
}

func (x *apiWorld) flags() []string {
	w := x.w
	d := func(k string) string { return time.Duration(w.P(k)).String() }
	b := func(k string) string { return strconv.FormatBool(w.P(k) == 1) }
	n := func(k string) string { return strconv.FormatInt(w.P(k), 10) }
	a := []string{"-rate_limit=" + n("limit"), "-commit_threshold=" + n("T"), "-commit_low_watermark=" + n("low"), "-commit_interval=" + d("ci"),
		"-commit_max_age=" + d("ma"), "-eviction_age=" + d("ea"), "-eviction_interval=" + d("ei"), "-http_addr=" + apiAddr,
		"-vsa_stripes=" + n("stripes"), "-vsa_cheap_update_chooser=" + b("cheap"), "-vsa_per_p_update_chooser=" + b("perp"),
		"-vsa_use_cached_gate=" + b("cached"), "-vsa_cache_slack=" + n("slack"), "-vsa_group_count=" + n("groups"), "-vsa_group_slack=" + n("gslack"),
		"-vsa_fast_path_guard=" + n("guard"), "-vsa_hierarchical_groups=" + n("hier"),
		"-churn_metrics=" + b("churn"), "-churn_log_interval=" + d("li"), "-churn_top_n=" + n("topn"), "-churn_key_hash_len=" + n("hashlen"), fmt.Sprintf("-churn_sample=%g", float64(w.P("sample"))/100)}
	if w.P("maddr") == 1 {
		a = append(a, "-metrics_addr="+metAddr)
	}
	if w.P("cached") == 1 {
		a = append(a, "-vsa_cache_interval="+d("cint"))
	}
	switch w.P("adapter") {
	case 1:
		a = append(a, "-persistence_adapter=redis", "-redis_addr=10.0.0.2:6379")
	case 2:
		a = append(a, "-persistence_adapter=redis")
	case 3:
		a = append(a, "-persistence_adapter=kafka", "-kafka_topic=t1")
	}
	return a
}

func (x *apiWorld) request(c int, o Op) {
	w := x.w
	target := ""
	switch o.K {
	case "stuck": // half a request, for ten minutes
		shttp.Stuck(apiAddr, 600e9)
		return
	case "idle":
		shttp.Idle(apiAddr, o.N)
		return
	case "chk":
		target = "/check?api_key=" + url.QueryEscape(o.S)
	case "rel":
		target = "/release?api_key=" + url.QueryEscape(o.S)
	case "bad":
		target = "/check"
	case "badrel":
		target = "/release?api_key="
	case "met":
		target = "/metrics"
	case "notfound":
		target = "/checks?api_key=" + url.QueryEscape(o.S)
	}
	addr := apiAddr
	if o.K == "met" && o.S == "metrics_addr" {
		addr = metAddr
	}
	e := w.Begin(c, o.K, o.S, 1, o.M)
	x.evs = append(x.evs, e)
	if o.K == "chk" {
		x.evByKey[o.S] = append(x.evByKey[o.S], &Ev{})
	}
	var sum []string
	if o.K == "met" && w.P("mode") == 1 && w.P("churn") == 1 {
		if all := reSummary.FindAllStringSubmatch(w.Stdout.String(), -1); len(all) > 0 {
			sum = all[len(all)-1]
		}
	}
	r := shttp.DoLate(addr, "GET", target, 30e9, o.N)
	switch {
	case r.Err == shttp.ErrRefused:
		e.Str = "refused"
		e.Err = "refused"
	case r.Err == shttp.ErrTimeout:
		w.Fail("C16", "no-answer", "%s got no answer within 30 s", target)
	case r.Err != nil:
		e.Err = "unknown"
	default:
		e.R1 = int64(r.Status)
		e.OK = r.Status == 200
		e.Str = r.Body
		if sum != nil {
			n, _ := strconv.ParseFloat(sum[1], 64)
			c, _ := strconv.ParseFloat(sum[2], 64)
			x.printed[e] = [2]float64{n, c}
		}
		x.judgeResponse(e, target, r)
	}
	w.End(e)
	if e.Err == "unknown" {
		e.T1 = math.MaxInt64 / 2
	}
	if e.Err == "unknown" && x.sigAt == 0 && w.Rates("net.request") == 0 {
		w.Fail("C16", "dropped", "%s: the connection was dropped without a response", target)
	}
	if r.CutAt > 0 && addr == apiAddr && x.sigAt > 0 && r.CutAt < x.sigAt+4e9 {
		w.Fail("C17", "cut", "%s was under way when the termination signal came; its connection was dropped %d ms later", target, (r.CutAt-x.sigAt)/1e6)
	}
	if e.Err == "refused" && x.sigAt == 0 && w.Rates("net.request") == 0 {
		w.Fail("C16", "refused", "%s: the service does not listen", target)
	}
}

// Rates is the configured fault rate of a site.
func (w *World) Rates(site string) float64 {
	return w.Plan.Rates[site]
}

// judgeResponse checks one response by itself.
func (x *apiWorld) judgeResponse(e *Ev, target string, r shttp.Response) {
	w := x.w
	props := "C16"
	if e.K == "met" {
		props = "C16,C18"
	}
	bad := func(f string, a ...any) {
		w.Fail(props, "bad-response", "%s -> %d %v %q: %s", target, r.Status, r.Header, r.Body, fmt.Sprintf(f, a...))
	}
	switch e.K {
	case "chk":
		want := "OK"
		switch r.Status {
		case 200:
			if strings.TrimSpace(r.Body) != "OK" {
				bad("body")
			}
		case 429:
			want = "Exceeded"
			if strings.TrimSpace(r.Body) != "Too Many Requests" {
				bad("body")
			}
			if n, err := strconv.Atoi(r.Header.Get("Retry-After")); err != nil || n <= 0 {
				bad("Retry-After")
			}
		default:
			bad("status")
		}
		if r.Header.Get("X-RateLimit-Status") != want {
			bad("X-RateLimit-Status")
		}
		if r.Header.Get("X-RateLimit-Limit") != fmt.Sprint(x.limit) {
			bad("X-RateLimit-Limit must be %d", x.limit)
		}
		n, err := strconv.ParseInt(r.Header.Get("X-RateLimit-Remaining"), 10, 64)
		if err != nil || n < 0 || n > x.limit {
			bad("X-RateLimit-Remaining must be within [0,%d]", x.limit)
		}
		e.R2 = n
	case "rel":
		if r.Status != 204 || r.Body != "" {
			bad("must be 204 without a body")
		}
	case "bad", "badrel":
		if r.Status != 400 {
			bad("a request without a key must be answered 400")
		}
	case "notfound":
		if r.Status != 404 {
			bad("must be 404")
		}
	case "met":
		if r.Status != 200 {
			bad("status")
		}
	}
}

// counts of key k: admissions certain to have happened before a, admissions
// possible before b, releases possible before b, undecided requests in between.
func (x *apiWorld) counts(k string, a, b uint64) (lo, hi, rel, resv int64) {
	for _, e := range x.evs {
		if e.S != k || e.Err == "refused" {
			continue
		}
		switch e.K {
		case "chk":
			if e.OK && e.Ret < a {
				lo++
			}
			if e.Call < b && (e.OK || e.Err == "unknown" || e.Ret == 0) {
				hi++
			} else if x.w.P("guard") > 0 && e.Call < b && e.Ret > a { // the fast path reserves before it looks
				resv++
			}
		case "rel":
			if e.Call < b {
				rel++
			}
		}
	}
	return
}

// judgeBudget relates every decision to the others on the same key.
func (x *apiWorld) judgeBudget() {
	w := x.w
	if w.P("ea") < 10e9 {
		x.judgeEvictions()
		return
	}
	for _, e := range x.evs {
		if e.K != "chk" || e.R1 == 0 {
			continue
		}
		lo, hi, rel, resv := x.counts(e.S, e.Call, e.Ret)
		if e.OK {
			lo++
		}
		lo = max(0, lo-rel)
		if e.OK && lo > x.limit {
			w.Fail("C16,C01", "oversubscribed", "key %s: request %s was admitted as unit %d of a budget of %d", e.S, e, lo, x.limit)
		}
		if !e.OK && x.exact && hi+max(0, resv-1) < x.limit { // resv counts e itself
			w.Fail("C16,C02", "refused", "key %s: a request was refused although at most %d of %d units can have been taken", e.S, hi, x.limit)
		}
		if e.R2 > x.limit-lo || e.R2 < x.limit-hi {
			w.Fail("C16,C02", "remaining", "key %s: X-RateLimit-Remaining is %d (status %d); it must lie in [%d,%d]", e.S, e.R2, e.R1, max(0, x.limit-hi), x.limit-lo)
		}
		rt.Probe("budget-judged")
	}
}

// judgeEvictions: a key keeps its budget while it is in use and gets a fresh one once it has
// been idle for long enough.
func (x *apiWorld) judgeEvictions() {
	w := x.w
	ea, ei := w.P("ea"), w.P("ei")
	byKey := map[string][]*Ev{}
	var keys []string
	for _, e := range x.evs {
		if (e.K == "chk" || e.K == "rel") && e.Err != "refused" {
			if byKey[e.S] == nil {
				keys = append(keys, e.S)
			}
			byKey[e.S] = append(byKey[e.S], e)
		}
	}
	healthy := w.Rates("redis") == 0 && w.Rates("persist") == 0
	idle := ea + 2*ei + w.Lag(3000) + 5_000_000
	for _, k := range keys {
		evs := byKey[k]
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].T0 < evs[j].T0 })
		short := true // so that requests use the instance in about the order of T0
		for _, e := range evs {
			short = short && (e.R1 == 0 || e.T1-e.T0 < ea/2)
		}
		if !short {
			continue
		}
		var prev *Ev
		var epoch []*Ev // accesses that certainly share an instance
		var last int64  // when the latest access so far was over
		fresh := -1     // evs[fresh:] got an instance that none of the earlier ones had
		for i, e := range evs {
			if i > 0 && e.T0-last > idle && healthy && (x.sigAt == 0 || e.T0 < x.sigAt) {
				fresh = i
			}
			last = max(last, e.T1)
			if e.R1 == 0 {
				continue
			}
			if prev != nil && e.T1-prev.T0 >= ea {
				epoch = nil
			}
			prev = e
			epoch = append(epoch, e)
			if e.K != "chk" {
				continue
			}
			var lo, rel int64
			for _, f := range epoch {
				if f.K == "chk" && f.OK && (f == e || f.Ret < e.Call) {
					lo++
				}
			}
			for _, f := range evs {
				if f.K == "rel" && f.Call < e.Ret {
					rel++
				}
			}
			lo = max(0, lo-rel)
			if e.OK && lo > x.limit || e.R2 > x.limit-lo {
				w.Fail("C10,C16", "second-budget", "key %s: request %s is unit %d of a budget of %d since the key was last idle for the eviction age %d ms", e.S, e, lo, x.limit, ea/1e6)
			}
			rt.Probe("eviction-budget-judged")
			if fresh < 0 {
				continue
			}
			var hi, resv int64
			for _, f := range evs[fresh:] {
				if f.K == "chk" && f.Call < e.Ret {
					if f.OK || f.R1 == 0 {
						hi++
					} else if w.P("guard") > 0 && f.Ret > e.Call {
						resv++
					}
				}
			}
			if e.R2 < x.limit-hi || !e.OK && x.exact && hi+max(0, resv-1) < x.limit {
				w.Fail("C10,C16", "not-fresh", "key %s: %s, although at most %d of %d units have been taken since the key was idle for more than %d ms (eviction age %d ms, interval %d ms)", e.S, e, hi, x.limit, idle/1e6, ea/1e6, ei/1e6)
			}
			rt.Probe("eviction-fresh-judged")
		}
	}
}

func runAPI(w *World) {
	x := &apiWorld{workerWorld: &workerWorld{w: w, durable: map[string]int64{}, acc: map[string][]access{}, slowMax: w.P("slow"), evByKey: map[string][]*Ev{}}, limit: w.P("limit"), printed: map[*Ev][2]float64{}}
	w.X = x
	x.exact = w.P("cached") == 0
	x.proc = rt.NewProc("api")
	x.proc.Env = []map[string]string{nil, {"VSA_CHURN_LIVE": "0"}, {"TERM": "xterm"}, {"NO_COLOR": "1"}}[w.P("term")]
	w.OutOn = true
	var stop func() // mode 1
	if w.P("mode") == 0 {
		if w.P("adapter") == 1 {
			x.rd = newFakeRedis()
		}
		newProcess(x.flags()...)
		if x.rd != nil {
			x.rd.install()
		}
		x.enable = rt.Now()
		if w.P("early") == 1 {
			earlySignal(w, x.proc, "C17", func() { rt.StartMain(x.proc, api_main.SimMain) })
			return
		}
		rt.StartMain(x.proc, api_main.SimMain)
	} else {
		// every unit the API admits counts before storage may hold it
		rt.Join(0, rt.Spawn(x.proc, "init", func() {
			x.enable = rt.Now()
			ma := ""
			if w.P("maddr") == 1 {
				ma = metAddr
			}
			churn.Enable(churn.Config{Enabled: w.P("churn") == 1, SampleRate: float64(w.P("sample")) / 100, LogInterval: time.Duration(w.P("li")), Window: time.Duration(w.P("win")), MetricsAddr: ma, TopN: int(w.P("topn")), KeyHashLen: int(w.P("hashlen"))})
			store := core.NewStoreWithOptions(x.limit, vsaOpts(w))
			wk := core.NewWorker(store, apiPersister{x}, w.P("T"), w.P("low"), time.Duration(w.P("ci")), time.Duration(w.P("ma")), time.Duration(w.P("ea")), time.Duration(w.P("ei")))
			wk.Start()
			srv := api.NewServer(store, x.limit)
			mux := http.NewServeMux()
			srv.RegisterRoutes(mux)
			hs := &http.Server{Addr: apiAddr, Handler: mux}
			rt.Go(func() { shttp.ListenAndServe(hs) })
			stop = func() { wk.Stop(); store.CloseAll() }
		}))
	}
	if !rt.Poll(5e9, 1_000_000, func() bool { return shttp.Up(apiAddr) && (w.P("maddr") == 0 || shttp.Up(metAddr)) || !x.proc.Alive }) || !x.proc.Alive {
		pr := "C16,C17"
		if x.proc.Alive && shttp.Up(apiAddr) { // only the metrics listener is missing
			pr = "C18"
		}
		w.Fail(pr, "no-start", "the service does not come up: %s", outTail(w.Stdout.String()))
		rt.Stop()
	}
	phase := func(m int64) []*rt.Task {
		byc := map[int][]Op{}
		n := 0
		for _, o := range w.Plan.Ops {
			if o.M == m {
				byc[o.C] = append(byc[o.C], o)
				n = max(n, o.C+1)
			}
		}
		var ts []*rt.Task
		for c := 0; c < n; c++ {
			c := c
			ts = append(ts, rt.Spawn(nil, fmt.Sprintf("client%d.%d", m, c), func() {
				for _, o := range byc[c] {
					if o.D > 0 {
						rt.Sleep(o.D)
					}
					x.request(c, o)
				}
			}))
		}
		return ts
	}
	join := func(ts []*rt.Task) {
		if !rt.Join(36000e9, ts...) {
			w.Fail("C16", "hang", "clients did not finish: %s", w.Dump())
			rt.Stop()
		}
	}
	join(phase(0))
	// storage and network heal; calls under way end
	if w.P("slowexit") == 1 {
		w.FaultOnly = map[string][]string{"redis": {"slow", "slow-reply"}, "net.request": {}}
	} else {
		w.FaultsOff = true
	}
	if w.P("redis") > 0 || w.Rates("redis") > 0 || w.Rates("persist") > 0 {
		rt.Sleep(4_000_000_000 + 3*w.P("slow"))
	} else {
		rt.Sleep(3 * w.P("ci"))
	}
	if w.P("mode") == 1 {
		if !rt.Join(60e9, rt.Spawn(x.proc, "stop", stop)) {
			w.Fail("C09", "stop-hang", "Stop did not return: %s", w.Dump())
			rt.Stop()
		}
		x.stopT = rt.Now()
		rt.Sleep(3*w.P("li") + 10_000_000)
		for i := int64(0); i < 3; i++ {
			x.request(99, Op{K: "met"})
			rt.Sleep(w.P("win")/2 + w.P("li")/2)
		}
		x.judgeBudget()
		x.judgeMetrics()
		return
	}
	x.request(99, Op{K: "met"})
	x.request(99, Op{K: "met"})
	ts := phase(1)
	rt.Sleep(w.P("sigat"))
	x.sigAt = rt.Now()
	sig := syscall.SIGTERM
	if w.R.N(2) == 0 {
		sig = syscall.SIGINT
	}
	rt.Tracef("signal %v", sig)
	ssignal.Send(x.proc, sig)
	if w.P("sig2") == 1 { // an impatient operator
		rt.Sleep(1_000_000)
		if x.proc.Alive {
			ssignal.Send(x.proc, sig)
		}
	}
	if !x.proc.Wait(120e9) {
		w.Fail("C17", "no-exit", "the process does not end after %v: %s", sig, w.Dump())
		rt.Stop()
	}
	if x.proc.ExitCode != 0 || x.proc.Crashed {
		w.Fail("C17", "exit-code", "the process ended with code %d after %v: %s", x.proc.ExitCode, sig, outTail(w.Stdout.String()))
	}
	join(ts)
	x.judgeBudget()
	x.judgeMetrics()
	x.judgeShutdown()
}

// apiPersister observes the batches; which units were admitted is known only
// from the responses, so the upper bound is judged afterwards.
type apiPersister struct{ x *apiWorld }

func (p apiPersister) CommitBatch(cs []core.Commit) error {
	x := p.x
	for _, c := range cs {
		if len(x.evByKey[c.Key]) == 0 {
			x.w.Fail("C08", "phantom", "a row for key %q, which nobody uses", c.Key)
		}
		// one unit per request under way or answered
		for _, e := range x.evByKey[c.Key] {
			e.K, e.N = "con", 1
		}
	}
	return x.CommitBatch(cs)
}
func (p apiPersister) PrintFinalMetrics() {}

func outTail(s string) string {
	if len(s) > 400 {
		s = s[len(s)-400:]
	}
	return s
}

var reBatch = regexp.MustCompile(`Persisting batch of \d+ commits`)

var reKafka = regexp.MustCompile(`(?m)\[kafka-demo\] TOPIC=t1 KEY=(\S+) VALUE=(\{.*\}) HEADERS=`)

var reRedis = regexp.MustCompile(`(?m)\[redis-demo\] EVAL .*KEYS=\[counter:(\S+) (\S+)\] ARGS=\[(-?\d+) `)

var reSummary = regexp.MustCompile(`naive=(-?\d+) commits=(-?\d+) `)

var reRow = regexp.MustCompile(`(?m)KEY: (.*?) +VECTOR: +(-?\d+)$`)

// judgeShutdown: after a signalled exit storage holds exactly what was admitted.
func (x *apiWorld) judgeShutdown() {
	w := x.w
	stored := map[string]int64{}
	rows := 0
	ks := map[string]bool{}
	for _, e := range x.evs {
		if e.S != "" {
			ks[e.S] = true
		}
	}
	if x.rd != nil {
		for k := range ks {
			stored[k] = -x.rd.hash(persistence.RedisCounterKey(k), "scalar")
		}
	} else if w.P("adapter") == 3 {
		ids := map[string]bool{}
		for _, m := range reKafka.FindAllStringSubmatch(w.Stdout.String(), -1) {
			var c struct {
				Key string `json:"key"`
				Vc  int64  `json:"vc"`
			}
			if err := json.Unmarshal([]byte(m[2]), &c); err != nil {
				w.Fail("C17", "bad-message", "message %s: %v", m[0], err)
			}
			if !ids[m[1]] { // consumers ignore what they have seen
				stored[c.Key] += c.Vc
			}
			ids[m[1]] = true
		}
	} else if w.P("adapter") == 2 {
		ids := map[string]bool{}
		for _, m := range reRedis.FindAllStringSubmatch(w.Stdout.String(), -1) {
			n, _ := strconv.ParseInt(m[3], 10, 64)
			if !ids[m[2]] {
				stored[m[1]] += n
			}
			ids[m[2]] = true
		}
	} else {
		for _, m := range reRow.FindAllStringSubmatch(w.Stdout.String(), -1) {
			n, _ := strconv.ParseInt(m[2], 10, 64)
			stored[m[1]] += n
			rows++
		}
	}
	keys := make([]string, 0, len(ks))
	for k := range ks {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		var ok, unk, rel, relUnk int64
		for _, e := range x.evs {
			if e.S != k || e.Err == "refused" {
				continue
			}
			switch {
			case e.K == "chk" && e.OK:
				ok++
			case e.K == "chk" && e.Err == "unknown":
				unk++
			case e.K == "rel":
				rel++
			}
		}
		_ = relUnk
		lo, hi := ok-rel, ok+unk
		if rel == 0 {
			lo = ok
		}
		if s := stored[k]; s < lo || s > hi {
			w.Fail("C17", "shutdown-loss", "key %s: %d requests were admitted (%d more unknown, %d releases), but after the graceful exit storage has recorded %d", k, ok, unk, rel, s)
		}
		if rel == 0 {
			rt.Probe("shutdown-exact")
		}
	}
	if w.P("adapter") != 0 {
		return
	}
	// the printed summary agrees with what happened
	out := w.Stdout.String()
	get := func(name string) int64 {
		m := regexp.MustCompile(name+`\s+(-?\d+)\s`).FindAllStringSubmatch(out, -1)
		if len(m) == 0 {
			w.Fail("C18", "no-summary", "the final summary does not report %s: %s", name, outTail(out))
			return -1
		}
		n, _ := strconv.ParseInt(m[len(m)-1][1], 10, 64)
		return n
	}
	var chk, ok, unk, rel, relUnk int64
	for _, e := range x.evs {
		switch {
		case e.Err == "refused":
		case e.K == "chk" && e.Err == "unknown":
			unk++
		case e.K == "chk":
			chk++
			if e.OK {
				ok++
			}
		case e.K == "rel":
			rel++
			if e.Err == "unknown" {
				relUnk++
			}
		}
	}
	in := func(name string, lo, hi int64) {
		if n := get(name); n < lo || n > hi {
			w.Fail("C18", "summary", "the final summary says %s %d; it must be within [%d,%d]", name, n, lo, hi)
		}
	}
	in("Attempted", chk, chk+unk)
	in("Admits", ok, ok+unk)
	in("Refunds", 0, rel)
	if unk == 0 && relUnk == 0 {
		var tot int64
		for _, k := range keys {
			tot += stored[k]
		}
		if a, r := get("Admits"), get("Refunds"); a-r != tot {
			w.Fail("C18", "summary", "the final summary says %d admits and %d refunds; storage holds %d units", a, r, tot)
		}
		rt.Probe("summary-refunds")
	}
	in("Writes", int64(rows), int64(rows))
	nb := int64(len(reBatch.FindAllString(out, -1)))
	if nb > 0 || rows == 0 {
		in("Batches", nb, nb)
	}
	ev := get("Admits") + get("Refunds")
	in(`Events \(A\+R\)`, ev, ev)
	want := "n/a"
	if ev > 0 {
		want = fmt.Sprintf("%.1f%%", 100*min(1, max(0, 1-float64(rows)/float64(ev))))
	}
	if m := regexp.MustCompile(`Write reduction\s+(\S+)`).FindAllStringSubmatch(out, -1); len(m) == 0 || m[len(m)-1][1] != want {
		w.Fail("C18", "summary", "the final summary reports a write reduction of %v; %d rows for %d events make it %s", m, rows, ev, want)
	}
}

var reMetric = regexp.MustCompile(`(?m)^(vsa_[a-z_]+(?:\{[^}]*\})?) ([-+0-9.eE]+|NaN|[+-]Inf)$`)

var reBucket = regexp.MustCompile(`(?m)^(vsa_rows_per_batch_bucket\{le="([^"]*)"\})`)

type iv struct{ lo, hi float64 }

func (v iv) add(lo, hi float64) iv { return iv{min(v.lo, lo), max(v.hi, hi)} }

// judgeMetrics compares every scrape with the responses and the batches.
func (x *apiWorld) judgeMetrics() {
	w := x.w
	if w.P("li") == 0 {
		return
	}
	on := w.P("churn") == 1
	slack := w.Lag(1000) + 1_000_000
	// cumulative numbers known to have been reached before t, and possible by t
	naive := func(t0, t1 int64, in func(string) bool) (lo, hi int64) {
		for _, e := range x.evs {
			if e.K != "chk" || !in(e.S) || e.Err == "refused" || e.R1 == 429 {
				continue
			}
			if e.OK && e.T1 <= t0 {
				lo++
			}
			if e.T0 <= t1 {
				hi++
			}
		}
		return
	}
	allKeys := func(string) bool { return true }
	none := iv{math.Inf(1), math.Inf(-1)}
	var keys []string
	for k := range x.evByKey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	sets := []int{1<<len(keys) - 1} // of sampled keys, as far as is known
	switch s := w.P("sample"); {
	case s <= 0:
		sets = []int{0}
	case s < 100:
		sets = nil
		for i := 0; i < 1<<len(keys); i++ {
			sets = append(sets, i)
		}
	}
	type bt struct {
		n      int64
		net    map[string]int64
		T0, T1 int64
		ok     bool
	}
	var bs []*bt
	byID := map[int]*bt{}
	for _, r := range x.rows {
		b := byID[r.Batch]
		if b == nil {
			b = &bt{T0: r.T0, T1: r.T1, ok: r.OK, net: map[string]int64{}}
			byID[r.Batch] = b
			bs = append(bs, b)
		}
		if r.Ret == 0 {
			b.T1 = math.MaxInt64 / 2
		}
		b.n++
		b.net[r.Key] += iabs(r.Vec)
	}
	batches := func(t0, t1 int64, ok bool, in func(string) bool) (nlo, nhi, rlo, rhi, vlo, vhi int64) {
		for _, b := range bs {
			var net int64
			for k, v := range b.net {
				if in(k) {
					net += v
				}
			}
			if b.ok != ok && b.T1 < math.MaxInt64/2 {
				continue
			}
			if b.T1+slack <= t0 {
				nlo++
				rlo += b.n
				vlo += net
			}
			if b.T0 <= t1 {
				nhi++
				rhi += b.n
				vhi += net
			}
		}
		return
	}
	chk := func(name, txt string, m map[string]float64, lo, hi float64) {
		g, ok := m[name]
		if !ok {
			w.Fail("C18", "no-metric", "/metrics does not show %s", name)
			return
		}
		if !(g >= lo-1e-9 && g <= hi+1e-9) {
			w.Fail("C18", "metric:"+name, "%s is %v; %s makes it %v..%v", name, g, txt, lo, hi)
		}
		if lo == hi {
			rt.Probe("metric-exact:" + name)
		}
	}
	for _, e := range x.evs {
		if e.K != "met" || e.R1 != 200 {
			continue
		}
		m := map[string]float64{}
		for _, l := range reMetric.FindAllStringSubmatch(e.Str, -1) {
			f, _ := strconv.ParseFloat(l[2], 64)
			m[l[1]] = f
		}
		if !on {
			for _, n := range []string{"vsa_naive_writes_total", "vsa_commits_rows_total", "vsa_commit_errors_total", "vsa_keys_tracked", "vsa_write_reduction_ratio", "vsa_churn_ratio"} {
				if m[n] != 0 {
					w.Fail("C18", "metric-off:"+n, "telemetry is off, yet %s is %v", n, m[n])
				}
			}
			continue
		}
		lo, hi := naive(e.T0, e.T1, allKeys)
		chk("vsa_naive_writes_total", "the responses", m, float64(lo), float64(hi))
		if w.P("mode") == 0 {
			continue // batches are not observed one by one
		}
		nlo, nhi, rlo, rhi, _, _ := batches(e.T0, e.T1, true, allKeys)
		chk("vsa_commits_rows_total", "the batches that storage accepted", m, float64(rlo), float64(rhi))
		chk("vsa_rows_per_batch_sum", "the batches that storage accepted", m, float64(rlo), float64(rhi))
		chk("vsa_rows_per_batch_count", "the batches that storage accepted", m, float64(nlo), float64(nhi))
		for _, l := range reBucket.FindAllStringSubmatch(e.Str, -1) { // whatever the bounds are
			le, _ := strconv.ParseFloat(l[2], 64)
			var lo, hi float64
			for _, b := range bs {
				if !b.ok && b.T1 < math.MaxInt64/2 || float64(b.n) > le {
					continue
				}
				if b.T1+slack <= e.T0 {
					lo++
				}
				if b.T0 <= e.T1 {
					hi++
				}
			}
			chk(l[1], "the batches that storage accepted", m, lo, hi)
		}
		flo, fhi, _, _, _, _ := batches(e.T0, e.T1, false, allKeys)
		chk("vsa_commit_errors_total", "the batches that storage refused", m, float64(flo), float64(fhi))

		// gauges: as of the last tick before the scrape
		li, win := w.P("li"), w.P("win")
		tick := func(t int64) int64 { return (t - x.enable) / li }
		if tick(e.T0-slack) != tick(e.T1) || (e.T0-x.enable)%li < slack {
			continue
		}
		k := tick(e.T0)
		at := func(j int64) (N, C iv) { // snapshot of tick j
			t := x.enable + j*li
			a, b := naive(t, t+slack, allKeys)
			_, _, c, d, _, _ := batches(t, t+slack, true, allKeys)
			return iv{float64(a), float64(b)}, iv{float64(c), float64(d)}
		}
		if k < 1 {
			continue
		}
		first := max(1, k-win/li)
		js := []int64{first}
		if j := min(k, first+1); j != first && k-win/li >= 1 { // the boundary point may just have left the window
			js = append(js, j)
		}
		N, C := at(k)
		wr, wn, wc := none, none, none
		for _, j := range js {
			N0, C0 := at(j)
			dn := iv{max(0, N.lo-N0.hi), N.hi - N0.lo}
			dc := iv{max(0, C.lo-C0.hi), C.hi - C0.lo}
			if j == k {
				dn, dc = iv{}, iv{}
			}
			wr = wr.add(1-dc.hi/max(1, dn.lo), 1-dc.lo/max(1, dn.hi))
			wn, wc = wn.add(dn.lo, dn.hi), wc.add(dc.lo, dc.hi)
		}
		chk("vsa_write_reduction_ratio", "one minus rows over admissions in the window", m, wr.lo, wr.hi)
		if p, ok := x.printed[e]; ok {
			if p[0] < wn.lo || p[0] > wn.hi || p[1] < wc.lo || p[1] > wc.hi {
				w.Fail("C18", "printed", "the last summary printed says naive=%v commits=%v; admissions in the window are %v, rows %v", p[0], p[1], wn, wc)
			}
			rt.Probe("printed-judged")
		}
		// Which keys are sampled is fixed for the process: one set of keys explains everything.
		last := ""
		left := sets[:0:0]
		for _, set := range sets {
			in := func(key string) bool {
				for i, k := range keys {
					if k == key {
						return set>>i&1 == 1
					}
				}
				return false
			}
			snap := func(j int64) (A, V iv) {
				t := x.enable + j*li
				a, b := naive(t, t+slack, in)
				_, _, _, _, v, u := batches(t, t+slack, true, in)
				return iv{float64(a), float64(b)}, iv{float64(v), float64(u)}
			}
			A, V := snap(k)
			cr := none
			for _, j := range js {
				A0, V0 := snap(j)
				da := iv{max(0, A.lo-A0.hi), A.hi - A0.lo}
				dv := iv{max(0, V.lo-V0.hi), V.hi - V0.lo}
				if j == k {
					da, dv = iv{}, iv{}
				}
				cr = cr.add(da.lo/max(1, dv.hi), da.hi/max(1, dv.lo))
			}
			var tr iv
			for _, key := range keys {
				if !in(key) {
					continue
				}
				tl, th := int64(math.MinInt64), int64(math.MinInt64)
				t := x.enable + k*li
				for _, e := range x.evs {
					if e.S == key && e.K == "chk" && e.R1 != 429 && e.Err != "refused" && e.T0 <= t+slack {
						th = max(th, min(e.T1, t+slack))
						if e.OK && e.T1 <= t {
							tl = max(tl, e.T0)
						}
					}
				}
				for _, r := range x.rows {
					if r.Key == key && r.OK && r.Vec != 0 && r.T0 <= t+slack {
						th = max(th, min(r.T1+slack, t+slack))
						if r.T1+slack <= t {
							tl = max(tl, r.T1)
						}
					}
				}
				if tl > t-2*win+slack {
					tr.lo++
				}
				if th != math.MinInt64 && th >= t-2*win-slack {
					tr.hi++
				}
			}
			if len(sets) == 1 {
				chk("vsa_churn_ratio", "admissions over committed units in the window", m, cr.lo, cr.hi)
				chk("vsa_keys_tracked", "keys active within two windows", m, tr.lo, tr.hi)
			}
			c, n := m["vsa_churn_ratio"], m["vsa_keys_tracked"]
			if c >= cr.lo-1e-9 && c <= cr.hi+1e-9 && n >= tr.lo-1e-9 && n <= tr.hi+1e-9 {
				left = append(left, set)
			} else {
				last = fmt.Sprintf("churn %v (sampling set %b makes it %v), keys %v (%v)", c, set, cr, n, tr)
			}
		}
		if len(left) == 0 && len(sets) > 1 {
			w.Fail("C18", "sampling", "no set of sampled keys explains the churn ratio and the number of tracked keys of this and the earlier scrapes: %s", last)
		}
		if len(sets) > 1 {
			rt.Probe("sampling-judged")
		}
		if len(left) > 0 {
			sets = left
		}
	}
}

func init() {
	register(&Scenario{Name: "api", HoldMax: 20_000_000, Real: "cmd/ratelimiter-api main(), api.Server, core.Store, core.Worker, vsa.VSA, BuildPersister (mock, Redis), IdemShim, churn telemetry and exporter, promhttp", Stub: "net/http transport, Redis server, clock, scheduler, signals, process lifetime", Gen: genAPI, Run: runAPI, Hang: "C16", Panic: "C16"})
	rule := "Cases: up to 8 HTTP clients check and release keys against the whole service while it commits, evicts, publishes telemetry and is finally signalled; network and storage faults injected."
	for _, id := range []string{"C16", "C17", "C18"} {
		prop(&PropDef{ID: id, Uses: []Use{{"api", 1}}, Quick: 50000, Rule: rule})
	}
}
