package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	"vsa/zsim/rt"
)

// Op is one step of a simulated client.
type Op struct {
	C int    `json:"c"`           // client
	K string `json:"k"`           // kind
	S string `json:"s,omitempty"` // string argument (key, target)
	N int64  `json:"n,omitempty"`
	M int64  `json:"m,omitempty"`
	D int64  `json:"d,omitempty"` // delay before the op, ns
}

func (o Op) String() string { b, _ := json.Marshal(o); return string(b) }

// Plan decides one run completely: running the same plan twice gives the same
// execution.
type Plan struct {
	Prop     string             `json:"property,omitempty"`
	Scenario string             `json:"scenario"`
	Seed     uint64             `json:"seed"`
	Cfg      rt.SchedCfg        `json:"cfg"`
	P        map[string]int64   `json:"params,omitempty"`
	Rates    map[string]float64 `json:"fault_rates,omitempty"`
	Ops      []Op               `json:"ops"`
	Explicit bool               `json:"explicit,omitempty"`
	Sched    []rt.Dec           `json:"schedule,omitempty"`
	Faults   []rt.FaultDec      `json:"faults,omitempty"`
}

func (p *Plan) clone() *Plan {
	q := *p
	q.Ops = append([]Op(nil), p.Ops...)
	q.Sched = append([]rt.Dec(nil), p.Sched...)
	q.Faults = append([]rt.FaultDec(nil), p.Faults...)
	return &q
}

// Scenario is one simulated world.
type Scenario struct {
	Name    string
	Real    string // what runs real code
	Stub    string // what is a stand-in
	Gen     func(r *rt.RNG, p *Plan)
	Run     func(w *World)
	Post    func(w *World) // after the simulation ended
	HoldMax int64          // how long a task may be held back at one statement (0: never)
	// properties that a hang or a panic counts against
	Hang, Panic string
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Name] = s }

// World is the state of one run.
type World struct {
	*rt.Sim
	Plan  *Plan
	R     *rt.RNG // for set-up choices that are not in the plan
	Hist  []*Ev
	X     any // scenario state
	done  bool
	Notes map[string]int64
}

func (w *World) P(k string) int64 { return w.Plan.P[k] }

// Ev is one recorded operation of a client.
type Ev struct {
	C      int
	K, S   string
	N, M   int64
	Call   uint64
	Ret    uint64 // 0: still pending
	T0, T1 int64
	OK     bool
	R1, R2 int64
	Err    string
	Str    string
}

func (e *Ev) String() string {
	return fmt.Sprintf("[%d..%d] c%d %s(%s %d %d) -> ok=%v %d %d %s", e.Call, e.Ret, e.C, e.K, e.S, e.N, e.M, e.OK, e.R1, e.R2, e.Err)
}

func (w *World) Begin(c int, k, s string, n, m int64) *Ev {
	e := &Ev{C: c, K: k, S: s, N: n, M: m, Call: rt.Seq(), T0: rt.Now()}
	w.Hist = append(w.Hist, e)
	return e
}

func (w *World) End(e *Ev) {
	e.Ret = rt.Seq()
	e.T1 = rt.Now()
	rt.Tracef("op %s", e)
}

// Held bounds the time that tasks are held back at single statements.
func (w *World) Held() int64 { return int64(w.Cfg.HoldN) * w.Cfg.HoldMax }

// Lag bounds the simulated time that n steps of some task take, stalls included.
func (w *World) Lag(n int64) int64 {
	c := &w.Cfg
	return w.Held() + 20*c.StallMax + n*20*c.StepNs + int64(float64(n)*c.StallP/float64(max(1, c.MeanGap))*float64(c.StallMax))*int64(max(1, c.SyncW))
}

func (w *World) Fail(prop, class, f string, a ...any) { rt.Fail(prop, class, f, a...) }

// ByClient splits the plan's ops per client, in order.
func (w *World) ByClient() ([][]Op, int) {
	n := 0
	for _, o := range w.Plan.Ops {
		if o.C+1 > n {
			n = o.C + 1
		}
	}
	out := make([][]Op, n)
	for _, o := range w.Plan.Ops {
		out[o.C] = append(out[o.C], o)
	}
	return out, n
}

type Result struct {
	Violations []rt.Violation
	Outcome    string
	Steps      int64
	SimNs      int64
	Ilv        uint64
	Switches   int
	Tasks      int
	Faults     []rt.FaultDec
	FaultCount map[string]int
	Probes     map[string]int
	Decs       []rt.Dec
	Trace      []string
	Notes      map[string]int64
	Ops        int
	Panic      string
}

func resetGlobals() {
	reg := prometheus.NewRegistry()
	prometheus.DefaultRegisterer = reg
	prometheus.DefaultGatherer = reg
	http.DefaultServeMux = http.NewServeMux()
	flag.CommandLine = flag.NewFlagSet("sim", flag.ContinueOnError)
	flag.CommandLine.SetOutput(io.Discard)
	os.Args = []string{"sim"}
	rt.ResetPackages()
}

// newProcess makes the state of a fresh OS process for the packages under test.
func newProcess(args ...string) {
	resetGlobals()
	os.Args = append([]string{"sim"}, args...)
}

func runPlan(p *Plan, trace bool) *Result {
	sc := scenarios[p.Scenario]
	if sc == nil {
		panic("no scenario " + p.Scenario)
	}
	s := rt.New(p.Seed, p.Cfg)
	s.TraceOn = trace
	for k, v := range p.Rates {
		s.FaultRate[k] = v
	}
	if p.Explicit {
		s.SetExplicit(p.Sched, p.Faults)
	}
	resetGlobals()
	w := &World{Sim: s, Plan: p, R: rt.NewRNG(p.Seed ^ 0x5151), Notes: map[string]int64{}}
	s.Run(func() {
		sc.Run(w)
		w.done = true
	})
	res := &Result{Outcome: s.Outcome, Steps: s.Steps(), SimNs: s.Now(), Ilv: s.Ilv(), Switches: s.Switches, Tasks: s.NTasks(),
		FaultCount: s.FaultCount, Probes: s.Probes, Decs: s.Decs(), Faults: s.FaultLog, Notes: w.Notes, Ops: len(w.Hist)}
	if len(s.Violations) == 0 && sc.Post != nil && (w.done || s.Outcome == "") {
		sc.Post(w)
	}
	if s.Outcome == "panic" || s.Ext["procpanic"] != nil {
		res.Panic = fmt.Sprint(s.Ext["panic"])
	}
	if len(s.Violations) == 0 {
		// a panic or hang of the code defeats whatever property is being decided
		hang, panc := sc.Hang, sc.Panic
		if p.Prop != "" {
			hang, panc = p.Prop, p.Prop
		}
		switch {
		case res.Panic != "":
			s.Violations = append(s.Violations, rt.Violation{Prop: panc, Class: "panic:" + firstN(res.Panic, 60), Msg: "the code panicked: " + res.Panic})
		case s.Outcome == "deadlock":
			s.Violations = append(s.Violations, rt.Violation{Prop: hang, Class: "hang", Msg: "nothing can run any more and operations are still pending: " + s.Dump0})
		case s.Outcome == "steps":
			s.Violations = append(s.Violations, rt.Violation{Prop: hang, Class: "livelock", Msg: "no end within the step budget: " + s.Dump0})
		}
	}
	res.Violations = s.Violations
	res.Trace = s.Trace
	return res
}

func firstN(s string, n int) string {
	if i := strings.IndexAny(s, "@\n"); i >= 0 {
		s = s[:i]
	}
	if len(s) > n {
		return s[:n]
	}
	return s
}

// genPlan makes the plan of one seed.
func genPlan(prop, scen string, seed uint64) *Plan {
	r := rt.NewRNG(seed)
	p := &Plan{Prop: prop, Scenario: scen, Seed: seed, P: map[string]int64{}, Rates: map[string]float64{}}
	p.Cfg = rt.SchedCfg{
		Mode:     rt.Pick(r, 0, 0, 1),
		MeanGap:  rt.Pick(r, 3, 8, 20, 60, 200, 1000),
		SyncW:    rt.Pick(r, 1, 3, 6),
		StepNs:   int64(rt.Pick(r, 5, 20, 20, 100)),
		Procs:    rt.Pick(r, 1, 2, 4, 8, 16),
		MaxSteps: 12_000_000,
	}
	if r.N(3) == 0 {
		p.Cfg.StallP = rt.Pick(r, 0.02, 0.1, 0.3)
		p.Cfg.StallMax = rt.Pick(r, int64(2_000), int64(100_000), int64(3_000_000))
	}
	scenarios[scen].Gen(r, p)
	if q := rt.NewRNG(seed ^ 0xd1c7); q.N(6) == 0 {
		steerDelays(p, q)
	}
	if q := rt.NewRNG(seed ^ 0x401d); scenarios[scen].HoldMax > 0 && q.N(3) == 0 {
		c := &p.Cfg
		c.HoldSalt = q.U64()
		c.HoldMod = rt.Pick(q, uint64(20), 60, 150, 400)
		c.HoldP = rt.Pick(q, 1, 0.3, 0.05)
		c.HoldN = 1 + q.N(3)
		c.HoldMax = rt.Pick(q, scenarios[scen].HoldMax, scenarios[scen].HoldMax/10)
	}
	return p
}

var _ = time.Now
