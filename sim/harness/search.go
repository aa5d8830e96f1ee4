package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"vsa/zsim/rt"
)

// Use is one scenario of a property's check, with its share of the runs.
type Use struct {
	Scen   string
	Weight int
}

type PropDef struct {
	ID       string
	Uses     []Use
	Quick    int // runs
	Thorough int
	Rule     string
	Assume   []string
}

var props = map[string]*PropDef{}

func prop(p *PropDef) { props[p.ID] = p }

type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Class    string `json:"class"`
	Match    string `json:"match,omitempty"` // substring of the message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	Plan     string `json:"plan,omitempty"` // replay file, relative to /verif
}

func loadKnown(dir string) []Known {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var ks []Known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "{") { // comments and "fixed:" records suppress nothing
			continue
		}
		var k Known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fmt.Fprintf(os.Stderr, "known-findings.txt: %v\n", err)
			os.Exit(3)
		}
		ks = append(ks, k)
	}
	return ks
}

func isKnown(ks []Known, v rt.Violation) *Known {
	for i, k := range ks {
		if k.Status == "known" && concerns(v, k.Property) && k.Class == v.Class && strings.Contains(v.Msg, k.Match) {
			return &ks[i]
		}
	}
	return nil
}

// concerns reports whether a violation counts against a property: an oracle
// names every property whose statement it decides.
func concerns(v rt.Violation, id string) bool {
	for _, p := range strings.Split(v.Prop, ",") {
		if p == id {
			return true
		}
	}
	return false
}

type Stats struct {
	Runs      int
	Steps     int64
	SimNs     int64
	Switches  int64
	Ops       int64
	Faults    map[string]int
	Probes    map[string]int
	Notes     map[string]int64
	Outcomes  map[string]int
	PerScen   map[string]int
	Ilv       []uint64 // distinct interleaving hashes
	Nontriv   int
	Known     map[string]int
	Other     map[string]int // violations of other properties, by class
	Decisions int64
	FaultRuns int
}

type line struct {
	Stat *Stats        `json:"stat,omitempty"`
	Plan *Plan         `json:"plan,omitempty"`
	Viol *rt.Violation `json:"viol,omitempty"`
	Err  string        `json:"err,omitempty"`
	Idx  int           `json:"idx,omitempty"`
	Samp *sample       `json:"sample,omitempty"`
}

type sample struct {
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	Cfg      rt.SchedCfg      `json:"cfg"`
	Params   map[string]int64 `json:"params"`
	Ops      []string         `json:"ops"`
	Sched    int              `json:"scheduling_decisions"`
	Faults   []rt.FaultDec    `json:"faults"`
	Steps    int64            `json:"steps"`
	SimMs    float64          `json:"sim_ms"`
}

func smix(a uint64, b string, i int) uint64 {
	r := rt.NewRNG(a)
	x := r.U64()
	for _, c := range b {
		x = rt.NewRNG(x ^ uint64(c)).U64()
	}
	return rt.NewRNG(x^uint64(i)*0x9e3779b97f4a7c15).U64() >> 1
}

func planFor(pd *PropDef, base uint64, i int) *Plan {
	tot := 0
	for _, u := range pd.Uses {
		tot += u.Weight
	}
	seed := smix(base, pd.ID, i)
	k := int(seed>>7) % tot
	for _, u := range pd.Uses {
		if k < u.Weight {
			return genPlan(pd.ID, u.Scen, seed)
		}
		k -= u.Weight
	}
	panic("unreachable")
}

// worker runs plans idx, idx+nw, ... and reports.
func worker(dir, id string, base uint64, idx, nw, runs int, deadline time.Time) {
	debug.SetGCPercent(400)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	pd := props[id]
	ks := loadKnown(dir)
	st := &Stats{Faults: map[string]int{}, Probes: map[string]int{}, Notes: map[string]int64{}, Outcomes: map[string]int{}, PerScen: map[string]int{}, Known: map[string]int{}, Other: map[string]int{}}
	seen := map[uint64]bool{}
	var mu sync.Mutex
	curSeed, curAt := -1, time.Now()
	go func() { // watchdog: code that never reaches a yield point
		for {
			time.Sleep(2 * time.Second)
			mu.Lock()
			s, at := curSeed, curAt
			mu.Unlock()
			if s >= 0 && time.Since(at) > 60*time.Second {
				json.NewEncoder(os.Stdout).Encode(line{Err: fmt.Sprintf("run %d made no progress for 60 s of real time", s), Idx: s})
				os.Exit(4)
			}
		}
	}()
	for i := idx; i < runs; i += nw {
		if st.Runs%16 == 0 && time.Now().After(deadline) {
			break
		}
		mu.Lock()
		curSeed, curAt = i, time.Now()
		mu.Unlock()
		p := planFor(pd, base, i)
		r := runPlan(p, false)
		st.add(r, p, seen)
		if i < 2*nw && idx < 2 {
			enc.Encode(line{Samp: mkSample(p, r)})
		}
		stop := false
		for _, v := range r.Violations {
			v := v
			if !concerns(v, id) && os.Getenv("SIM_ANY") == "" {
				st.Other[v.Prop+" "+v.Class]++
				continue
			}
			if k := isKnown(ks, v); k != nil {
				st.Known[k.What]++
				continue
			}
			q := p.clone()
			q.Prop = id
			enc.Encode(line{Plan: q, Viol: &v, Idx: i})
			out.Flush()
			stop = true
			break
		}
		if stop {
			break
		}
	}
	for h := range seen {
		st.Ilv = append(st.Ilv, h)
	}
	sort.Slice(st.Ilv, func(a, b int) bool { return st.Ilv[a] < st.Ilv[b] })
	enc.Encode(line{Stat: st})
	out.Flush()
}

func mkSample(p *Plan, r *Result) *sample {
	s := &sample{Scenario: p.Scenario, Seed: p.Seed, Cfg: p.Cfg, Params: p.P, Sched: len(r.Decs), Faults: r.Faults, Steps: r.Steps, SimMs: float64(r.SimNs) / 1e6}
	for i, o := range p.Ops {
		if i >= 12 {
			s.Ops = append(s.Ops, fmt.Sprintf("... %d more", len(p.Ops)-i))
			break
		}
		s.Ops = append(s.Ops, o.String())
	}
	if len(s.Faults) > 8 {
		s.Faults = s.Faults[:8]
	}
	return s
}

func (st *Stats) add(r *Result, p *Plan, seen map[uint64]bool) {
	st.Runs++
	st.PerScen[p.Scenario]++
	st.Steps += r.Steps
	st.SimNs += r.SimNs
	st.Switches += int64(r.Switches)
	st.Ops += int64(r.Ops)
	st.Decisions += int64(len(r.Decs))
	nf := 0
	for k, n := range r.FaultCount {
		st.Faults[k] += n
		nf += n
	}
	if nf > 0 {
		st.FaultRuns++
	}
	for k, n := range r.Probes {
		st.Probes[k] += n
	}
	for k, n := range r.Notes {
		st.Notes[k] += n
	}
	o := r.Outcome
	if o == "" {
		o = "completed"
	}
	st.Outcomes[o]++
	// non-trivial: several tasks were interleaved by the seeded scheduler or a
	// fault was injected, and at least one client operation ran
	h := r.Ilv ^ uint64(len(r.Faults))*0x9e37 ^ uint64(r.Ops)<<20
	for _, f := range r.Faults {
		h = h*31 + uint64(f.N) + uint64(len(f.Kind))*131 + uint64(len(f.Site))
	}
	if (len(r.Decs) > 0 || nf > 0) && r.Ops > 0 && !seen[h] {
		seen[h] = true
		st.Nontriv++
	}
}

func (a *Stats) merge(b *Stats, seen map[uint64]bool) {
	a.Runs += b.Runs
	a.Steps += b.Steps
	a.SimNs += b.SimNs
	a.Switches += b.Switches
	a.Ops += b.Ops
	a.Decisions += b.Decisions
	a.FaultRuns += b.FaultRuns
	for k, n := range b.Faults {
		a.Faults[k] += n
	}
	for k, n := range b.Probes {
		a.Probes[k] += n
	}
	for k, n := range b.Notes {
		a.Notes[k] += n
	}
	for k, n := range b.Outcomes {
		a.Outcomes[k] += n
	}
	for k, n := range b.PerScen {
		a.PerScen[k] += n
	}
	for k, n := range b.Known {
		a.Known[k] += n
	}
	for k, n := range b.Other {
		a.Other[k] += n
	}
	for _, h := range b.Ilv {
		seen[h] = true
	}
}

// Replay is what a violation leaves behind.
type Replay struct {
	Property  string       `json:"property"`
	Seed      uint64       `json:"seed"`
	Violation rt.Violation `json:"violation"`
	Plan      *Plan        `json:"plan"`     // minimised
	Original  *Plan        `json:"original"` // as found
	Steps     int64        `json:"steps"`
	SchedHash string       `json:"schedule_hash"`
	Trace     []string     `json:"trace"`
	How       string       `json:"how_to_replay"`
}

func hits(r *Result, v *rt.Violation) *rt.Violation {
	for i := range r.Violations {
		if r.Violations[i].Prop == v.Prop && r.Violations[i].Class == v.Class {
			return &r.Violations[i]
		}
	}
	return nil
}

// minimise shrinks a failing plan.
func minimise(p *Plan, v *rt.Violation, budget time.Duration) *Plan {
	end := time.Now().Add(budget)
	fails := func(q *Plan) bool { return hits(runPlan(q, false), v) != nil }
	r0 := runPlan(p, false)
	if hits(r0, v) == nil {
		return p // not reproducible: report as is
	}
	best := p.clone()
	ex := p.clone()
	ex.Explicit, ex.Sched, ex.Faults = true, r0.Decs, r0.Faults
	if fails(ex) {
		best = ex
	} else {
		return best
	}
	for round := 0; round < 6; round++ {
		before := len(best.Ops) + len(best.Faults) + len(best.Sched)
		best = ddmin(best, end, len(best.Sched), func(q *Plan, lo, hi int) {
			q.Sched = append(append([]rt.Dec(nil), q.Sched[:lo]...), q.Sched[hi:]...)
		}, func(q *Plan) int { return len(q.Sched) }, fails)
		best = ddmin(best, end, len(best.Faults), func(q *Plan, lo, hi int) {
			q.Faults = append(append([]rt.FaultDec(nil), q.Faults[:lo]...), q.Faults[hi:]...)
		}, func(q *Plan) int { return len(q.Faults) }, fails)
		best = ddmin(best, end, len(best.Ops), func(q *Plan, lo, hi int) {
			q.Ops = append(append([]Op(nil), q.Ops[:lo]...), q.Ops[hi:]...)
		}, func(q *Plan) int { return len(q.Ops) }, fails)
		if len(best.Ops)+len(best.Faults)+len(best.Sched) == before || time.Now().After(end) {
			break
		}
	}
	return best
}

func ddmin(p *Plan, end time.Time, n int, cut func(q *Plan, lo, hi int), size func(*Plan) int, fails func(*Plan) bool) *Plan {
	chunk := (size(p) + 1) / 2
	for chunk >= 1 && size(p) > 0 {
		shrunk := false
		for lo := 0; lo < size(p); {
			if time.Now().After(end) {
				return p
			}
			hi := min(lo+chunk, size(p))
			q := p.clone()
			cut(q, lo, hi)
			if fails(q) {
				p = q
				shrunk = true
			} else {
				lo = hi
			}
		}
		if chunk == 1 && !shrunk {
			break
		}
		if !shrunk || chunk > size(p) {
			chunk = min(chunk/2, max(1, size(p)))
			if chunk == 0 {
				break
			}
		}
	}
	return p
}

func envInt(k string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return def
}

func check(dir, id string) int {
	pd := props[id]
	if pd == nil {
		fmt.Fprintf(os.Stderr, "no property %s\n", id)
		return 3
	}
	t0 := time.Now()
	seed := envInt("VERIF_SEED", 1)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	runs, limit := pd.Quick, 240*time.Second
	if tier == "thorough" {
		runs, limit = pd.Thorough, 4*time.Hour
		if runs == 0 {
			runs = pd.Quick * 40
		}
	}
	if v := envInt("SIM_RUNS", 0); v > 0 {
		runs = int(v)
	}
	if v := envInt("SIM_LIMIT_S", 0); v > 0 {
		limit = time.Duration(v) * time.Second
	}
	nw := int(envInt("SIM_WORKERS", int64(min(8, runtime.NumCPU()))))
	deadline := t0.Add(limit)
	self, _ := os.Executable()
	tot := &Stats{Faults: map[string]int{}, Probes: map[string]int{}, Notes: map[string]int64{}, Outcomes: map[string]int{}, PerScen: map[string]int{}, Known: map[string]int{}, Other: map[string]int{}}
	seen := map[uint64]bool{}
	var found []line
	var samples []*sample
	var trouble []string
	var mu sync.Mutex
	var wg sync.WaitGroup
	var cmds []*exec.Cmd
	for i := 0; i < nw; i++ {
		cmd := exec.Command(self, "worker", dir, id, fmt.Sprint(seed), fmt.Sprint(i), fmt.Sprint(nw), fmt.Sprint(runs), fmt.Sprint(deadline.UnixMilli()))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
		var errb strings.Builder
		cmd.Stderr = &errb
		pipe, err := cmd.StdoutPipe()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		cmds = append(cmds, cmd)
		wg.Add(1)
		go func() {
			defer wg.Done()
			sc := bufio.NewScanner(pipe)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			got := false
			for sc.Scan() {
				var l line
				if json.Unmarshal(sc.Bytes(), &l) != nil {
					continue
				}
				mu.Lock()
				switch {
				case l.Stat != nil:
					tot.merge(l.Stat, seen)
					got = true
				case l.Plan != nil:
					found = append(found, l)
					for _, c := range cmds { // one violation is enough
						if c != cmd {
							c.Process.Kill()
						}
					}
				case l.Samp != nil:
					samples = append(samples, l.Samp)
				case l.Err != "":
					trouble = append(trouble, l.Err)
				}
				mu.Unlock()
			}
			err := cmd.Wait()
			mu.Lock()
			if (err != nil || !got) && len(found) == 0 {
				trouble = append(trouble, fmt.Sprintf("worker: %v %s", err, tail(errb.String(), 3000)))
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	// stored plans of known findings
	ks := loadKnown(dir)
	for _, k := range ks {
		if k.Property != id || k.Status != "known" {
			continue
		}
		n := tot.Known[k.What]
		if k.Plan != "" {
			var rp Replay
			if b, err := os.ReadFile(filepath.Join(dir, k.Plan)); err == nil && json.Unmarshal(b, &rp) == nil {
				if hits(runPlan(rp.Plan, false), &rp.Violation) != nil {
					n++
				}
			}
		}
		if n > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	sort.Slice(found, func(a, b int) bool { return found[a].Idx < found[b].Idx })
	code := 0
	nviol := 0
	if len(found) > 0 {
		f := found[0]
		nviol = 1
		code = 1
		rp := mkReplay(dir, f.Plan, f.Viol)
		path := filepath.Join(dir, "replays", fmt.Sprintf("%s-%d.json", id, f.Plan.Seed))
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			path = filepath.Join(os.TempDir(), filepath.Base(path))
			os.WriteFile(path, b, 0o644)
		}
		fmt.Printf("violation of %s (%s), seed %d, scenario %s, after %d runs\n  %s\n", id, rp.Violation.Class, f.Plan.Seed, f.Plan.Scenario, f.Idx+1, rp.Violation.Msg)
		fmt.Printf("  minimised: %d ops, %d scheduling decisions, %d faults (found with %d ops)\n", len(rp.Plan.Ops), len(rp.Plan.Sched), len(rp.Plan.Faults), len(f.Plan.Ops))
		for _, o := range rp.Plan.Ops {
			if len(rp.Plan.Ops) <= 20 {
				fmt.Printf("    op %s\n", o)
			}
		}
		for _, d := range rp.Plan.Faults {
			fmt.Printf("    fault %s visit %d: %s\n", d.Site, d.N, d.Kind)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	} else if len(trouble) > 0 {
		sort.Strings(trouble)
		fmt.Fprintf(os.Stderr, "check %s could not complete: %s\n", id, strings.Join(trouble, "\n"))
		code = 3
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(dir, pd, tier, seed, tot, seen, samples, wall, nviol, nw)
	if code == 0 {
		fmt.Printf("%s held: %d runs (%d distinct non-trivial), %.1f simulated s, %d faults, %.1f s\n", id, tot.Runs, len(seen), float64(tot.SimNs)/1e9, sum(tot.Faults), wall)
		for _, k := range keys(tot.Other) {
			fmt.Printf("  note: also saw %s x%d\n", k, tot.Other[k])
		}
	}
	return code
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func sum(m map[string]int) int {
	t := 0
	for _, v := range m {
		t += v
	}
	return t
}

func mkReplay(dir string, p *Plan, v *rt.Violation) *Replay {
	best := minimise(p, v, 25*time.Second)
	r := runPlan(best, true)
	got := hits(r, v)
	if got == nil {
		got = v
	}
	tr := r.Trace
	if len(tr) > 600 {
		tr = append(append([]string(nil), tr[:100]...), tr[len(tr)-500:]...)
	}
	pid := p.Prop
	if pid == "" {
		pid = v.Prop
	}
	return &Replay{Property: pid, Seed: p.Seed, Violation: *got, Plan: best, Original: p, Steps: r.Steps, SchedHash: fmt.Sprintf("%016x", r.Ilv), Trace: tr,
		How: "cd /verif && ./check replay FILE"}
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	r := runPlan(rp.Plan, true)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	v := hits(r, &rp.Violation)
	fmt.Printf("schedule hash %016x (recorded %s), %d steps (recorded %d)\n", r.Ilv, rp.SchedHash, r.Steps, rp.Steps)
	if v == nil {
		fmt.Println("not reproduced: the violation does not happen on this tree")
		return 0
	}
	fmt.Printf("reproduced: %s %s\n  %s\n", v.Prop, v.Class, v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
	return 1
}

func keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func writeEvidence(dir string, pd *PropDef, tier string, seed int64, st *Stats, seen map[uint64]bool, samples []*sample, wall float64, nviol, nw int) {
	hours := wall / 3600
	comp := map[string]any{}
	for _, u := range pd.Uses {
		s := scenarios[u.Scen]
		comp[u.Scen] = map[string]string{"real": s.Real, "stub": s.Stub}
	}
	sort.Slice(samples, func(a, b int) bool { return samples[a].Seed < samples[b].Seed })
	if len(samples) > 3 {
		samples = samples[:3]
	}
	var sa []any
	for _, s := range samples {
		sa = append(sa, s)
	}
	if sa == nil {
		sa = []any{"none: a violation ended the search first"}
	}
	cov := map[string]any{
		"evaluations":                         st.Runs,
		"distinct_nontrivial":                 len(seen),
		"rule":                                "one evaluation is one simulated run of the real code, decided by one seed (workload, scheduler decisions, delays, faults). " + pd.Rule + " A run counts as non-trivial if the seeded scheduler made at least one non-default decision or a fault was injected, and at least one client operation ran; two runs are distinct when their interleaving hash (sequence of task and yield-count at each context switch) or their fault list differ.",
		"samples":                             sa,
		"runs_per_hour":                       int64(float64(st.Runs) / hours),
		"seeds_per_hour":                      int64(float64(st.Runs) / hours),
		"simulated_seconds":                   float64(st.SimNs) / 1e9,
		"simulated_steps":                     st.Steps,
		"context_switches":                    st.Switches,
		"nondefault_schedule_choices":         st.Decisions,
		"client_operations":                   st.Ops,
		"faults_injected":                     st.Faults,
		"runs_with_faults":                    st.FaultRuns,
		"situations_reached":                  st.Probes,
		"counters":                            st.Notes,
		"outcomes":                            st.Outcomes,
		"runs_per_scenario":                   st.PerScen,
		"components":                          comp,
		"worker_processes":                    nw,
		"known_findings_seen":                 st.Known,
		"violations_of_other_properties_seen": st.Other,
		"determinism":                         "one seed is one execution; every reported violation is re-run from its explicit decision list before it is printed",
	}
	ev := map[string]any{"property": pd.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": append([]string{
			"sequentially consistent memory: interleavings at statement and synchronisation-operation granularity, no weak-memory reorderings",
			"the Go compiler, the rewriter (sim/instr) and the simulated runtime (channels, locks, timers, contexts, files, sockets) are faithful to Go semantics",
		}, pd.Assume...)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", pd.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

// selftest runs a number of plans twice and from their explicit decisions and
// compares the executions.
func selftest(ids []string, n int) int {
	bad := 0
	for _, id := range ids {
		pd := props[id]
		for i := 0; i < n; i++ {
			p := planFor(pd, 99, i)
			a := runPlan(p, true)
			b := runPlan(p, true)
			q := p.clone()
			q.Explicit, q.Sched, q.Faults = true, a.Decs, a.Faults
			c := runPlan(q, true)
			for j, x := range []*Result{b, c} {
				if x.Ilv != a.Ilv || x.Steps != a.Steps || x.SimNs != a.SimNs || strings.Join(x.Trace, "\n") != strings.Join(a.Trace, "\n") {
					bad++
					fmt.Printf("%s run %d (%s seed %d): %s differs: steps %d/%d hash %x/%x\n", id, i, p.Scenario, p.Seed, []string{"second run", "explicit replay"}[j], a.Steps, x.Steps, a.Ilv, x.Ilv)
					for k := range a.Trace {
						if k >= len(x.Trace) || x.Trace[k] != a.Trace[k] {
							fmt.Println("   A:", a.Trace[k])
							if k < len(x.Trace) {
								fmt.Println("   B:", x.Trace[k])
							}
							break
						}
					}
					break
				}
			}
			if bad > 5 {
				return 1
			}
		}
	}
	if bad == 0 {
		fmt.Println("deterministic")
		return 0
	}
	return 1
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check DIR ID | replay FILE | selftest N [ID...]")
		os.Exit(3)
	}
	args := append([]string(nil), os.Args...)
	switch args[1] {
	case "worker":
		base, _ := strconv.ParseUint(args[4], 10, 64)
		idx, _ := strconv.Atoi(args[5])
		nw, _ := strconv.Atoi(args[6])
		runs, _ := strconv.Atoi(args[7])
		dl, _ := strconv.ParseInt(args[8], 10, 64)
		worker(args[2], args[3], base, idx, nw, runs, time.UnixMilli(dl))
	case "check":
		os.Exit(check(args[2], args[3]))
	case "replay":
		os.Exit(replay(args[2]))
	case "one":
		base := uint64(envInt("VERIF_SEED", 1))
		i, _ := strconv.Atoi(args[3])
		p := planFor(props[args[2]], base, i)
		r := runPlan(p, true)
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		fmt.Println(r.Outcome, r.Steps, len(r.Decs), r.Violations)
	case "selftest":
		n, _ := strconv.Atoi(args[2])
		ids := args[3:]
		if len(ids) == 0 {
			ids = keys(props)
		}
		os.Exit(selftest(ids, n))
	case "consts":
		printConsts()
	case "ids":
		fmt.Println(strings.Join(keys(props), " "))
	default:
		os.Exit(3)
	}
}
