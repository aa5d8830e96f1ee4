// Package rt is the deterministic simulation runtime: a seeded cooperative
// scheduler, virtual clock, fault points and a happens-before tracker. The code
// under test is rewritten (see /verif/sim/instr) so that every goroutine,
// channel, lock, atomic, timer, file and socket operation comes through here.
package rt

import (
	"fmt"
	"iter"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// ---- deterministic randomness -------------------------------------------------

type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{s: seed*0x9e3779b97f4a7c15 + 0x1234567} }
func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}
func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *RNG) I64(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(r.U64() % uint64(n))
}
func (r *RNG) F() float64             { return float64(r.U64()>>11) / (1 << 53) }
func (r *RNG) P(p float64) bool       { return r.F() < p }
func (r *RNG) Range(a, b int64) int64 { return a + r.I64(b-a+1) }
func Pick[T any](r *RNG, xs ...T) T   { return xs[r.N(len(xs))] }

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// ---- plan: everything that decides a run ---------------------------------------

// SchedCfg are the swarm-chosen scheduler knobs of one run.
type SchedCfg struct {
	Mode      int     `json:"mode"`       // 0 uniform preemption, 1 PCT-like priorities, 2 stall bursts
	MeanGap   int     `json:"mean_gap"`   // mean number of steps between forced preemptions
	SyncW     int     `json:"sync_w"`     // steps charged at a synchronisation operation
	StallP    float64 `json:"stall_p"`    // probability that a preemption also stalls the task
	StallMax  int64   `json:"stall_max"`  // ns
	StepNs    int64   `json:"step_ns"`    // simulated ns per step
	Procs     int     `json:"procs"`      // GOMAXPROCS seen by the code
	MaxSteps  int64   `json:"max_steps"`  // budget
	WallJumps bool    `json:"wall_jumps"` // wall clock may jump (monotonic never does)
	// Holding back tasks at a few statements of the code, chosen by the salt.
	HoldSalt uint64  `json:"hold_salt,omitempty"`
	HoldMod  uint64  `json:"hold_mod,omitempty"` // one in so many statements (0: none)
	HoldP    float64 `json:"hold_p,omitempty"`   // probability per visit
	HoldN    int     `json:"hold_n,omitempty"`   // at most so often
	HoldMax  int64   `json:"hold_max,omitempty"` // ns
}

// Dec is one non-default scheduling decision: after task T reached its Y-th
// yield point, run task N (and stall T for D ns if D>0).
type Dec struct {
	T int    `json:"t"`
	Y uint64 `json:"y"`
	N int    `json:"n"`
	D int64  `json:"d,omitempty"`
}

// FaultDec is one injected fault: the N-th visit of fault point Site got Kind.
type FaultDec struct {
	Site string `json:"site"`
	N    int    `json:"n"`
	Kind string `json:"kind"`
	Arg  int64  `json:"arg,omitempty"`
}

type Violation struct {
	Prop  string `json:"property"`
	Class string `json:"class"` // stable identification of what failed
	Msg   string `json:"message"`
}

// ---- tasks ----------------------------------------------------------------------

const (
	stRunnable = iota
	stBlocked
	stDone
)

type Task struct {
	id     int
	name   string
	proc   *Proc
	next   func() (struct{}, bool)
	stop   func()
	yield  func(struct{}) bool
	state  int
	dead   bool
	yc     uint64 // task-local yield count
	forced []Dec  // explicit mode: pending decisions for this task
	vc     []uint32
	why    string
	prio   uint64
	waits  bool // spinning in a wait loop (diagnostic)
	P      int
	steps0 int64
	exitF  []func()
}

func (t *Task) Name() string { return t.name }
func (t *Task) ID() int      { return t.id }

// Proc is a simulated OS process.
type Proc struct {
	ID       int
	Name     string
	Alive    bool
	ExitCode int
	Crashed  bool
	Panic    string
	tasks    []*Task
	OnExit   []func()
	Env      map[string]string
	waitQ    []*Task
	vc       []uint32
}

type killT struct{}

var killSentinel = &killT{}

// IsKill reports whether a recovered value is the simulator's unwind signal.
func IsKill(v any) bool { k, ok := v.(*killT); return ok && k == killSentinel }

type timer struct {
	at  int64
	seq uint64
	fn  func()
	idx int
	on  bool
}

type Sim struct {
	FaultsOff bool                // set by the world once faults are to stop
	FaultOnly map[string][]string // the kinds a site may produce, if restricted
	Stalled   int64               // how long tasks have been stalled and held back, in total
	StallsOff bool                // same for stalls of single tasks
	Seed      uint64
	Cfg       SchedCfg
	Explicit  bool

	tasks   []*Task
	runq    []*Task // runnable tasks, sorted by id
	timers  []*timer
	tseq    uint64
	holds   int // holds left
	steps   int64
	off     int64 // ns offset: now = off + steps*StepNs
	alarm   int64 // step at which Y must look closer
	preempt int64 // step of next preemption decision
	rng     *RNG
	lastRun *Task
	runFor  int64 // steps since the last switch

	wallOff int64
	Wall0   int64

	decs       []Dec
	forcedDecs map[int][]Dec
	faultsIn   map[string]map[int]FaultDec
	FaultLog   []FaultDec
	faultN     map[string]int
	siteN      map[string]uint64
	FaultRate  map[string]float64 // site prefix -> probability
	FaultCount map[string]int
	Probes     map[string]int

	Violations []Violation
	failed     bool
	stopped    bool
	Outcome    string // "", "steps", "deadlock", ...
	procs      []*Proc
	RootProc   *Proc
	Trace      []string
	TraceOn    bool
	Switches   int
	ilv        uint64 // interleaving hash
	evSeq      uint64

	maps   map[unsafe.Pointer]*mapState
	syncVC map[unsafe.Pointer]*vclock
	chans  map[unsafe.Pointer]*chanState
	Ext    map[string]any // other simulator parts (disk, network) keep state here
	hung   func() (prop, class, msg string)
	phase  string
	Stdout strings.Builder
	OutOn  bool
	Dump0  string // tasks alive when a run ended abnormally
}

var (
	S   *Sim
	cur *Task
)

func Cur() *Task { return cur }

// New installs a fresh simulation.
func New(seed uint64, cfg SchedCfg) *Sim {
	if cfg.MeanGap <= 0 {
		cfg.MeanGap = 50
	}
	if cfg.SyncW <= 0 {
		cfg.SyncW = 4
	}
	if cfg.StepNs <= 0 {
		cfg.StepNs = 20
	}
	if cfg.Procs <= 0 {
		cfg.Procs = 8
	}
	if cfg.MaxSteps <= 0 {
		cfg.MaxSteps = 3_000_000
	}
	s := &Sim{Seed: seed, Cfg: cfg, rng: NewRNG(seed ^ 0xabcdef),
		faultN: map[string]int{}, siteN: map[string]uint64{}, FaultRate: map[string]float64{}, FaultCount: map[string]int{}, Probes: map[string]int{},
		maps: map[unsafe.Pointer]*mapState{}, syncVC: map[unsafe.Pointer]*vclock{}, chans: map[unsafe.Pointer]*chanState{}, Ext: map[string]any{}}
	s.Wall0 = 1_767_225_600_000_000_000 // 2026-01-01
	s.RootProc = &Proc{ID: 0, Name: "world", Alive: true}
	s.procs = append(s.procs, s.RootProc)
	S = s
	cur = nil
	s.drawPreempt()
	s.holds = cfg.HoldN
	return s
}

// SetExplicit makes the run follow recorded decisions only.
func (s *Sim) SetExplicit(decs []Dec, faults []FaultDec) {
	s.Explicit = true
	s.forcedDecs = map[int][]Dec{}
	for _, d := range decs {
		s.forcedDecs[d.T] = append(s.forcedDecs[d.T], d)
	}
	s.faultsIn = map[string]map[int]FaultDec{}
	for _, f := range faults {
		if s.faultsIn[f.Site] == nil {
			s.faultsIn[f.Site] = map[int]FaultDec{}
		}
		s.faultsIn[f.Site][f.N] = f
	}
	s.drawPreempt()
}

func (s *Sim) Decs() []Dec { return s.decs }

func (s *Sim) Now() int64 { return s.off + s.steps*s.Cfg.StepNs }

// Now is the simulated monotonic clock in ns.
func Now() int64 {
	if S == nil {
		return 0
	}
	return S.Now()
}

// WallNow is the simulated wall clock in unix ns.
func WallNow() int64 {
	if S == nil {
		return 1_767_225_600_000_000_000
	}
	return S.Wall0 + S.wallOff + S.Now()
}

// JumpWall moves the wall clock (not the monotonic one).
func JumpWall(d int64) { S.wallOff += d; S.count("clock-jump") }

func (s *Sim) count(k string) { s.FaultCount[k]++ }

// Probe counts that a situation of interest was reached.
func Probe(k string) {
	if S != nil {
		S.Probes[k]++
	}
}

func (s *Sim) drawPreempt() {
	if s.Explicit {
		s.preempt = 1 << 62
	} else {
		// geometric-ish gap with heavy tail
		g := s.Cfg.MeanGap
		n := 1 + s.rng.N(2*g)
		if s.rng.N(8) == 0 {
			n = 1 + s.rng.N(4)
		}
		s.preempt = s.steps + int64(n)
	}
	s.setAlarm()
}

const fairCap = 20000 // a task may run at most this many steps while others wait

func (s *Sim) setAlarm() {
	a := s.preempt
	if len(s.timers) > 0 {
		d := s.timers[0].at - s.off
		st := (d + s.Cfg.StepNs - 1) / s.Cfg.StepNs
		if st < a {
			a = st
		}
	}
	if s.Cfg.MaxSteps < a {
		a = s.Cfg.MaxSteps
	}
	if c := s.runFor + fairCap; c < a {
		a = c
	}
	s.alarm = a
}

// ---- yield points ---------------------------------------------------------------

// Y is a plain yield point between two statements.
func Y() {
	t := cur
	if t == nil {
		return
	}
	t.yc++
	s := S
	s.steps++
	if s.steps >= s.alarm || t.dead || (len(t.forced) > 0 && t.forced[0].Y <= t.yc) {
		s.slow(t)
	}
}

// YA is a plain yield point at the given statement.
func YA(site int) {
	Y()
	if t := cur; t != nil && S.Cfg.HoldMod > 0 && ((uint64(site)*0x9e3779b97f4a7c15)^S.Cfg.HoldSalt)*0xbf58476d1ce4e5b9>>32%S.Cfg.HoldMod == 0 {
		S.hold(t)
	}
}

// hold may keep t where it is for up to HoldMax, on a logarithmic scale.
func (s *Sim) hold(t *Task) {
	t.yc++ // a decision point of its own
	if len(t.forced) > 0 && t.forced[0].Y <= t.yc {
		s.slow(t)
		return
	}
	if s.holds == 0 || s.StallsOff || s.Explicit || t.dead || !s.rng.P(s.Cfg.HoldP) {
		return
	}
	s.holds--
	d := s.Cfg.HoldMax
	for i := s.rng.N(8); i > 0; i-- {
		d /= 3
	}
	d = 1 + d/2 + s.rng.I64(d/2+1)
	s.count("task-hold")
	s.decs = append(s.decs, Dec{T: t.id, Y: t.yc, N: -1, D: d})
	s.stall(t, d)
}

// YS is a yield point at a synchronisation operation.
func YS() {
	t := cur
	if t == nil {
		return
	}
	t.yc++
	s := S
	s.steps += int64(s.Cfg.SyncW)
	if s.steps >= s.alarm || t.dead || (len(t.forced) > 0 && t.forced[0].Y <= t.yc) {
		s.slow(t)
	}
}

// Dead reports whether the current task's process has been killed: simulator
// operations then have no effect.
func Dead() bool { return cur != nil && cur.dead }

func (s *Sim) slow(t *Task) {
	if t.dead {
		panic(killSentinel)
	}
	s.fireDue()
	if s.steps >= s.Cfg.MaxSteps {
		s.Outcome = "steps"
		s.stopped = true
		t.park()
		return
	}
	if s.steps >= s.runFor+fairCap {
		s.runFor = s.steps
		s.setAlarm()
		if len(s.runq) > 1 {
			t.park()
			return
		}
	}
	if len(t.forced) > 0 && t.forced[0].Y <= t.yc {
		d := t.forced[0]
		if d.Y < t.yc {
			t.forced = t.forced[1:]
			s.setAlarm()
			if len(t.forced) > 0 && t.forced[0].Y <= t.yc {
				s.slow(t)
			}
			return
		}
		if d.D > 0 {
			t.forced[0].D = 0
			s.stall(t, d.D)
			return
		}
		s.setAlarm()
		t.park()
		return
	}
	if s.steps >= s.preempt {
		stall := s.Cfg.StallP > 0 && !s.StallsOff && s.rng.P(s.Cfg.StallP)
		s.drawPreempt()
		if stall {
			d := 1 + s.rng.I64(s.Cfg.StallMax)
			if s.rng.N(3) > 0 { // prefer shorter ones
				d = 1 + s.rng.I64(d)
			}
			s.decs = append(s.decs, Dec{T: t.id, Y: t.yc, N: -1, D: d})
			s.stall(t, d)
			return
		}
		if len(s.runq) > 1 {
			t.park()
			return
		}
	}
	s.setAlarm()
}

func (s *Sim) stall(t *Task, d int64) {
	s.count("task-stall")
	s.Stalled += d
	s.setState(t, stBlocked, "stalled")
	s.addTimer(s.Now()+d, func() { s.wake(t) })
	t.park()
}

// park hands control back to the scheduler.
func (t *Task) park() {
	if !t.yield(struct{}{}) {
		t.dead = true
	}
	if t.dead {
		cur = t
		panic(killSentinel)
	}
}

func (s *Sim) setState(t *Task, st int, why string) {
	if t.state == st {
		t.why = why
		return
	}
	if t.state == stRunnable {
		for i, x := range s.runq {
			if x == t {
				s.runq = append(s.runq[:i], s.runq[i+1:]...)
				break
			}
		}
	}
	t.state = st
	t.why = why
	if st == stRunnable {
		i := sort.Search(len(s.runq), func(i int) bool { return s.runq[i].id > t.id })
		s.runq = append(s.runq, nil)
		copy(s.runq[i+1:], s.runq[i:])
		s.runq[i] = t
	}
}

func (s *Sim) wake(t *Task) {
	if t.state == stBlocked && !t.dead {
		s.setState(t, stRunnable, "")
	}
}

// Block parks the current task until Wake. Every waiter must re-check its
// condition in a loop (spurious wake-ups are possible).
func Block(why string) {
	t := cur
	if t == nil {
		panic("simrt: blocking operation outside a task: " + why)
	}
	if t.dead {
		panic(killSentinel)
	}
	t.yc++
	S.setState(t, stBlocked, why)
	t.park()
}

func Wake(t *Task) {
	if S != nil {
		S.wake(t)
	}
}

func WakeAll(q *[]*Task) {
	for _, t := range *q {
		Wake(t)
	}
	*q = (*q)[:0]
}

// ---- timers ---------------------------------------------------------------------

func (s *Sim) addTimer(at int64, fn func()) *timer {
	if at < s.Now() {
		at = s.Now()
	}
	s.tseq++
	tm := &timer{at: at, seq: s.tseq, fn: fn, on: true}
	i := sort.Search(len(s.timers), func(i int) bool {
		x := s.timers[i]
		return x.at > at || (x.at == at && x.seq > tm.seq)
	})
	s.timers = append(s.timers, nil)
	copy(s.timers[i+1:], s.timers[i:])
	s.timers[i] = tm
	s.setAlarm()
	return tm
}

func (s *Sim) delTimer(tm *timer) bool {
	if tm == nil || !tm.on {
		return false
	}
	tm.on = false
	for i, x := range s.timers {
		if x == tm {
			s.timers = append(s.timers[:i], s.timers[i+1:]...)
			break
		}
	}
	return true
}

func (s *Sim) fireDue() {
	now := s.Now()
	for len(s.timers) > 0 && s.timers[0].at <= now {
		tm := s.timers[0]
		s.timers = s.timers[1:]
		tm.on = false
		tm.fn()
	}
}

// At runs fn (scheduler context: must not block) at a simulated time.
func At(at int64, fn func()) func() bool {
	tm := S.addTimer(at, fn)
	s := S
	return func() bool { return s.delTimer(tm) }
}

// Sleep suspends the current task for d ns of simulated time.
func Sleep(d int64) {
	t := cur
	if t == nil {
		return
	}
	if t.dead {
		panic(killSentinel)
	}
	if d <= 0 {
		YS()
		return
	}
	done := false
	s := S
	s.addTimer(s.Now()+d, func() { done = true; s.wake(t) })
	for !done {
		Block("sleep")
	}
}

// ---- tasks ----------------------------------------------------------------------

func (s *Sim) newTask(p *Proc, name string, fn func()) *Task {
	t := &Task{id: len(s.tasks), name: name, proc: p}
	t.prio = mix(s.Seed ^ uint64(t.id+1)*0x9e37)
	t.P = int(mix(s.Seed^uint64(t.id)*77) % uint64(s.Cfg.Procs))
	s.tasks = append(s.tasks, t)
	p.tasks = append(p.tasks, t)
	if s.forcedDecs != nil {
		t.forced = s.forcedDecs[t.id]
	}
	// happens-before: child starts after parent's past
	t.vc = make([]uint32, t.id+1)
	if cur != nil {
		copy(t.vc, cur.vc)
		cur.tick()
	}
	t.vc[t.id] = 1
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if r := recover(); r != nil && !IsKill(r) {
				stack := trimStack(string(debug.Stack()))
				s.procPanic(t, fmt.Sprint(r), stack)
			}
			t.yc++
			for _, f := range t.exitF {
				f()
			}
			s.setState(t, stDone, "")
		}()
		fn()
	})
	t.state = stBlocked
	s.setState(t, stRunnable, "")
	return t
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "zsim") || strings.Contains(l, "/runtime/") || strings.Contains(l, "panic(") || strings.Contains(l, "runtime/debug") {
			continue
		}
		out = append(out, strings.TrimSpace(l))
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// Go starts a goroutine of the code under test.
func Go(fn func()) {
	if S == nil {
		panic("simrt: go statement outside a simulation")
	}
	p := S.RootProc
	if cur != nil {
		if cur.dead {
			return
		}
		p = cur.proc
	}
	YS()
	S.newTask(p, "g", fn)
	YS()
}

// Spawn starts a harness task.
func Spawn(p *Proc, name string, fn func()) *Task {
	if p == nil {
		p = S.RootProc
		if cur != nil {
			p = cur.proc
		}
	}
	return S.newTask(p, name, fn)
}

// Join waits for harness tasks to end, up to a simulated timeout (0: forever).
func Join(timeout int64, ts ...*Task) bool {
	me := cur
	ok := true
	for _, t := range ts {
		t := t
		if t.state != stDone {
			t.exitF = append(t.exitF, func() { Wake(me) })
		}
	}
	expired := false
	var cancel func() bool
	if timeout > 0 {
		cancel = At(Now()+timeout, func() { expired = true; Wake(me) })
	}
	for _, t := range ts {
		for t.state != stDone && !expired {
			Block("join " + t.name)
		}
		if t.state != stDone {
			ok = false
		} else {
			me.merge(t.vc)
		}
	}
	if cancel != nil {
		cancel()
	}
	return ok
}

// Poll waits until cond holds, checking every step ns, up to timeout.
func Poll(timeout, step int64, cond func() bool) bool {
	end := Now() + timeout
	for !cond() {
		if Now() >= end {
			return false
		}
		Sleep(step)
	}
	return true
}

func (t *Task) Done() bool { return t.state == stDone }

// ---- processes ------------------------------------------------------------------

func NewProc(name string) *Proc {
	p := &Proc{ID: len(S.procs), Name: name, Alive: true, Env: map[string]string{}}
	S.procs = append(S.procs, p)
	return p
}

// StartMain runs main as process p's main goroutine; when it returns the
// process exits as a Go program does: other goroutines just stop.
func StartMain(p *Proc, main func()) *Task {
	return S.newTask(p, p.Name+".main", func() {
		main()
		S.exit(p, 0, false)
	})
}

func CurProc() *Proc {
	if cur == nil {
		return S.RootProc
	}
	return cur.proc
}

func (s *Sim) exit(p *Proc, code int, crash bool) {
	if !p.Alive {
		return
	}
	p.Alive = false
	p.ExitCode = code
	p.Crashed = crash
	for i := 0; i < len(p.tasks); i++ {
		t := p.tasks[i]
		if t.state != stDone && !t.dead {
			t.dead = true
			if t != cur {
				s.reap(t)
			}
		}
	}
	for _, f := range p.OnExit {
		f()
	}
	WakeAll(&p.waitQ)
}

// Exit is os.Exit in the current process.
func Exit(code int) {
	t := cur
	S.exit(t.proc, code, false)
	panic(killSentinel)
}

// Crash kills a process at this instant (kill -9).
func Crash(p *Proc) {
	S.count("process-crash")
	S.exit(p, 137, true)
	if cur != nil && cur.proc == p {
		panic(killSentinel)
	}
}

// Wait blocks until p has exited, or the timeout passes.
func (p *Proc) Wait(timeout int64) bool {
	me := cur
	expired := false
	cancel := At(Now()+timeout, func() { expired = true; Wake(me) })
	for p.Alive && !expired {
		p.waitQ = append(p.waitQ, me)
		Block("wait for process " + p.Name)
	}
	cancel()
	if p.vc != nil {
		me.merge(p.vc)
	}
	return !p.Alive
}

func (p *Proc) LiveTasks() []string {
	var out []string
	for _, t := range p.tasks {
		if t.state != stDone && !t.dead {
			out = append(out, fmt.Sprintf("%s#%d(%s)", t.name, t.id, t.why))
		}
	}
	return out
}

// PanicProp tells which property a process panic counts against.
func (s *Sim) procPanic(t *Task, msg, stack string) {
	t.proc.Panic = msg
	Tracef("PANIC in %s: %s @ %s", t.name, msg, stack)
	s.Ext["panic"] = msg + " @ " + stack
	if t.proc == s.RootProc {
		// a panic in library code called by the harness or one of its goroutines
		s.Outcome = "panic"
		s.stopped = true
		return
	}
	s.exit(t.proc, 2, true)
	s.Ext["procpanic"] = true
}

// Fatal emulates runtime.throw: the process dies.
func Fatal(msg string) {
	t := cur
	if t == nil {
		panic(msg)
	}
	S.procPanic(t, "fatal error: "+msg, trimStack(string(debug.Stack())))
	if t.proc == S.RootProc {
		t.park()
	}
	panic(killSentinel)
}

// ---- the scheduler --------------------------------------------------------------

// Run executes main as the world task until it returns, fails, deadlocks or
// exhausts its step budget.
func (s *Sim) Run(main func()) {
	root := s.newTask(s.RootProc, "world", main)
	for !s.stopped && root.state != stDone {
		s.fireDue()
		if len(s.runq) == 0 {
			if len(s.timers) == 0 {
				s.Outcome = "deadlock"
				break
			}
			if at := s.timers[0].at; at > s.Now() {
				s.off += at - s.Now()
			}
			continue
		}
		t := s.pick()
		if debugPicks && s.TraceOn && t != s.lastRun {
			pi, py := -1, uint64(0)
			if s.lastRun != nil {
				pi, py = s.lastRun.id, s.lastRun.yc
			}
			s.Trace = append(s.Trace, fmt.Sprintf("%12d pick %d after %d@%d steps %d", s.Now(), t.id, pi, py, s.steps))
		}
		s.runTask(t)
	}
	if s.Outcome != "" && s.Outcome != "panic" {
		s.Dump0 = s.Dump()
		Tracef("outcome %s: %s", s.Outcome, s.Dump())
	}
	s.stopped = true
	// unwind everything that is still alive
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state != stDone {
			t.dead = true
			s.reap(t)
		}
	}
	cur = nil
}

func (s *Sim) reap(t *Task) {
	if t.state == stDone {
		return
	}
	saved := cur
	cur = t
	t.dead = true
	t.stop()
	if t.state != stDone {
		s.setState(t, stDone, "")
		for _, f := range t.exitF {
			f()
		}
	}
	cur = saved
}

func (s *Sim) runTask(t *Task) {
	if s.lastRun != t {
		s.Switches++
		s.ilv = mix(s.ilv ^ uint64(t.id)<<40 ^ t.yc)
		s.runFor = s.steps
	}
	s.lastRun = t
	s.setAlarm()
	cur = t
	t.next()
	cur = nil
}

func (s *Sim) pick() *Task {
	prev := s.lastRun
	pid, py := -1, uint64(0)
	if prev != nil {
		pid, py = prev.id, prev.yc
	}
	def := s.defaultPick(prev)
	if s.Explicit {
		if prev != nil && len(prev.forced) > 0 {
			for len(prev.forced) > 0 && prev.forced[0].Y < py {
				prev.forced = prev.forced[1:]
			}
			if len(prev.forced) > 0 && prev.forced[0].Y == py {
				d := prev.forced[0]
				if d.N < 0 { // stall record; the choice, if any, follows
					prev.forced = prev.forced[1:]
					if len(prev.forced) == 0 || prev.forced[0].Y != py {
						return def
					}
					d = prev.forced[0]
				}
				prev.forced = prev.forced[1:]
				for _, t := range s.runq {
					if t.id == d.N {
						return t
					}
				}
			}
		}
		return def
	}
	var t *Task
	switch {
	case len(s.runq) == 1:
		t = s.runq[0]
	case s.Cfg.Mode == 1:
		// PCT-like: highest priority runs; preemption points demote the last one
		if prev != nil && prev.state == stRunnable {
			prev.prio = s.rng.U64() >> 1
		}
		for _, x := range s.runq {
			if t == nil || x.prio > t.prio {
				t = x
			}
		}
	default:
		t = s.runq[s.rng.N(len(s.runq))]
	}
	if t != def {
		s.decs = append(s.decs, Dec{T: pid, Y: py, N: t.id})
	}
	return t
}

func (s *Sim) defaultPick(prev *Task) *Task {
	if prev != nil && prev.state == stRunnable && s.runFor != s.steps {
		return prev
	}
	if prev != nil {
		for _, t := range s.runq {
			if t.id > prev.id {
				return t
			}
		}
	}
	return s.runq[0]
}

// Dump lists the tasks that are not done, for diagnostics.
func (s *Sim) Dump() string {
	var b strings.Builder
	n := 0
	for _, t := range s.tasks {
		if t.state == stDone {
			continue
		}
		st := "blocked:" + t.why
		if t.state == stRunnable {
			st = "runnable"
		}
		fmt.Fprintf(&b, "%s#%d[%s] ", t.name, t.id, st)
		n++
		if n > 20 {
			b.WriteString("...")
			break
		}
	}
	return b.String()
}

func (s *Sim) Ilv() uint64  { return s.ilv }
func (s *Sim) Steps() int64 { return s.steps }
func (s *Sim) NTasks() int  { return len(s.tasks) }

// Seq returns the next global event number, for history stamps.
func Seq() uint64 { S.evSeq++; return S.evSeq }

// Tracef appends to the run's event log (only kept when tracing).
func Tracef(f string, a ...any) {
	s := S
	if s == nil {
		return
	}
	if s.TraceOn {
		name := "-"
		if cur != nil {
			name = fmt.Sprintf("%s#%d", cur.name, cur.id)
		}
		s.Trace = append(s.Trace, fmt.Sprintf("%12d %-14s ", s.Now(), name)+fmt.Sprintf(f, a...))
	}
}

// Fail records a violation and ends the run.
func Fail(prop, class, f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	Tracef("VIOLATION %s %s: %s", prop, class, m)
	S.Violations = append(S.Violations, Violation{prop, class, m})
}

// Stop ends the run at once (from the world task or any other).
func Stop() {
	S.stopped = true
	if cur != nil {
		cur.park()
	}
}

// ---- aux randomness: stable under trace shrinking -------------------------------

// Rand returns a pseudo-random value that depends only on the seed, the site
// name and how often that site has been asked.
func Rand(site string) uint64 {
	if S == nil {
		return 0
	}
	n := S.siteN[site]
	S.siteN[site] = n + 1
	return mix(S.Seed*31 ^ hashStr(site) ^ mix(n+1))
}

// Fault visits a fault point. kinds are the faults that may happen here.
func Fault(site string, kinds ...string) (kind string, arg int64) {
	s := S
	if s == nil || Dead() || len(kinds) == 0 || s.FaultsOff {
		return "", 0
	}
	if only := s.FaultOnly[site]; only != nil {
		var ks []string
		for _, k := range kinds {
			for _, o := range only {
				if k == o {
					ks = append(ks, k)
				}
			}
		}
		if kinds = ks; len(ks) == 0 {
			return "", 0
		}
	}
	n := s.faultN[site]
	s.faultN[site] = n + 1
	if s.Explicit {
		f, ok := s.faultsIn[site][n]
		if !ok {
			return "", 0
		}
		for _, k := range kinds {
			if k == f.Kind {
				s.FaultCount[f.Kind+"@"+site]++
				s.FaultLog = append(s.FaultLog, f)
				Tracef("FAULT %s #%d %s", site, n, f.Kind)
				return f.Kind, f.Arg
			}
		}
		return "", 0
	}
	rate := s.FaultRate[site]
	if rate <= 0 {
		return "", 0
	}
	h := mix(s.Seed*131 ^ hashStr(site) ^ mix(uint64(n)+77))
	if float64(h>>11)/(1<<53) >= rate {
		return "", 0
	}
	h2 := mix(h + 1)
	k := kinds[int(h2%uint64(len(kinds)))]
	f := FaultDec{Site: site, N: n, Kind: k, Arg: int64(mix(h2) >> 2)}
	s.FaultLog = append(s.FaultLog, f)
	s.FaultCount[k+"@"+site]++
	Tracef("FAULT %s #%d %s", site, n, k)
	return f.Kind, f.Arg
}

var debugPicks = os.Getenv("SIMRT_PICKS") != ""

// Recover wraps recover() of the code under test: the unwind signal is not for it.
func Recover(v any) any {
	if v != nil && IsKill(v) {
		panic(v)
	}
	return v
}

// Out receives what the program prints.
func Out(s string) {
	if S != nil && S.OutOn && !Dead() {
		S.Stdout.WriteString(s)
	}
}

// OnTaskExit runs f when t ends, for whatever reason.
func OnTaskExit(t *Task, f func()) {
	if t.state == stDone {
		f()
		return
	}
	t.exitF = append(t.exitF, f)
}

// MergeTask makes everything t did happen before what the current task does next.
func MergeTask(t *Task) {
	if cur != nil {
		cur.merge(t.vc)
	}
}

// ---- package state resets ---------------------------------------------------------

type resetFn struct {
	path string
	fn   func()
}

var resets []resetFn

// RegisterReset is called by every rewritten package: fn re-runs its
// package-level initialisation.
func RegisterReset(path string, fn func()) { resets = append(resets, resetFn{path, fn}) }

// ResetPackages re-initialises all rewritten packages (dependencies first, the
// order in which Go initialised them).
func ResetPackages() {
	for _, r := range resets {
		r.fn()
	}
}

// ---- constants of the code under test ------------------------------------------------

var constInts, constDurs = map[string][]int64{}, map[string][]int64{}

// RegisterConsts is called by every rewritten package with the constants it uses.
func RegisterConsts(path string, ints, durs []int64) { constInts[path], constDurs[path] = ints, durs }

// Consts returns the integer and duration constants registered, by package.
func Consts() (ints, durs map[string][]int64) { return constInts, constDurs }
