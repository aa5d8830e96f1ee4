// Package ssync is sync under the simulator's scheduler.
package ssync

import (
	"sort"
	"vsa/zsim/rt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	held bool
	q    []*rt.Task
	vc   rt.VC
}

func (m *Mutex) Lock() {
	if rt.Cur() == nil {
		return
	}
	rt.YS()
	for m.held {
		m.q = append(m.q, rt.Cur())
		rt.Block("mutex")
	}
	m.held = true
	m.vc.Acquire()
}

func (m *Mutex) TryLock() bool {
	if rt.Cur() == nil {
		return true
	}
	rt.YS()
	if m.held {
		return false
	}
	m.held = true
	m.vc.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if rt.Cur() == nil || rt.Dead() {
		return
	}
	if !m.held {
		rt.Fatal("sync: unlock of unlocked mutex")
	}
	m.vc.Release()
	m.held = false
	rt.WakeAll(&m.q)
	rt.YS()
}

type RWMutex struct {
	w     bool
	r     int
	wwait int
	q     []*rt.Task
	vc    rt.VC // released by writers
	rvc   rt.VC // released by readers
}

func (m *RWMutex) Lock() {
	if rt.Cur() == nil {
		return
	}
	rt.YS()
	m.wwait++
	for m.w || m.r > 0 {
		m.q = append(m.q, rt.Cur())
		rt.Block("rwmutex w")
	}
	m.wwait--
	m.w = true
	m.vc.Acquire()
	m.rvc.Acquire()
}
func (m *RWMutex) TryLock() bool {
	if rt.Cur() == nil {
		return true
	}
	rt.YS()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.vc.Acquire()
	m.rvc.Acquire()
	return true
}
func (m *RWMutex) Unlock() {
	if rt.Cur() == nil || rt.Dead() {
		return
	}
	if !m.w {
		rt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.vc.Release()
	m.w = false
	rt.WakeAll(&m.q)
	rt.YS()
}
func (m *RWMutex) RLock() {
	if rt.Cur() == nil {
		return
	}
	rt.YS()
	for m.w || m.wwait > 0 {
		m.q = append(m.q, rt.Cur())
		rt.Block("rwmutex r")
	}
	m.r++
	m.vc.Acquire()
}
func (m *RWMutex) TryRLock() bool {
	if rt.Cur() == nil {
		return true
	}
	rt.YS()
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	m.vc.Acquire()
	return true
}
func (m *RWMutex) RUnlock() {
	if rt.Cur() == nil || rt.Dead() {
		return
	}
	if m.r <= 0 {
		rt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.rvc.Release()
	m.r--
	rt.WakeAll(&m.q)
	rt.YS()
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n  int
	q  []*rt.Task
	vc rt.VC
}

func (w *WaitGroup) Add(d int) {
	if rt.Cur() == nil || rt.Dead() {
		return
	}
	rt.YS()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		w.vc.Release()
	}
	if w.n == 0 {
		rt.WakeAll(&w.q)
	}
	rt.YS()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	rt.YS()
	for w.n > 0 {
		w.q = append(w.q, rt.Cur())
		rt.Block("waitgroup")
	}
	w.vc.Acquire()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if rt.Cur() == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type Cond struct {
	L Locker
	q []*condW
}
type condW struct {
	t    *rt.Task
	sig  bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	w := &condW{t: rt.Cur()}
	c.q = append(c.q, w)
	c.L.Unlock()
	for !w.sig {
		rt.Block("cond")
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	rt.YS()
	if rt.Dead() || len(c.q) == 0 {
		return
	}
	w := c.q[0]
	c.q = c.q[1:]
	w.sig = true
	rt.Wake(w.t)
}
func (c *Cond) Broadcast() {
	rt.YS()
	if rt.Dead() {
		return
	}
	for _, w := range c.q {
		w.sig = true
		rt.Wake(w.t)
	}
	c.q = nil
}

// Pool keeps items but may lose any of them at any time, as the real one may.
type Pool struct {
	New   func() any
	items []any
	vc    rt.VC
}

func (p *Pool) Get() any {
	rt.YS()
	p.vc.Acquire()
	if n := len(p.items); n > 0 && rt.Rand("pool")%4 != 0 {
		i := int(rt.Rand("pool.i") % uint64(n))
		v := p.items[i]
		p.items = append(p.items[:i], p.items[i+1:]...)
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	if v == nil || rt.Dead() {
		return
	}
	rt.YS()
	p.vc.Release()
	p.items = append(p.items, v)
}

// Map: entries in insertion order; Range walks a live view with yields between
// entries, so concurrent stores and deletes interleave as they may in sync.Map.
type Map struct {
	m    map[any]*ment
	ord  []*ment
	vc   rt.VC
	live int
}
type ment struct {
	k, v any
	del  bool
}

func (m *Map) sync() { m.vc.Acquire(); m.vc.Release() }
func (m *Map) pre() {
	rt.YS()
	if m.m == nil {
		m.m = map[any]*ment{}
	}
	m.sync()
}
func (m *Map) add(k, v any) {
	e := &ment{k: k, v: v}
	m.m[k] = e
	m.ord = append(m.ord, e)
	m.live++
}
func (m *Map) drop(e *ment) {
	e.del = true
	delete(m.m, e.k)
	m.live--
	if len(m.ord) > 32 && m.live < len(m.ord)/2 {
		var o []*ment
		for _, x := range m.ord {
			if !x.del {
				o = append(o, x)
			}
		}
		m.ord = o
	}
}
func (m *Map) Load(k any) (any, bool) {
	m.pre()
	if e := m.m[k]; e != nil {
		return e.v, true
	}
	return nil, false
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.pre()
	if rt.Dead() {
		return nil, false
	}
	if e := m.m[k]; e != nil {
		old := e.v
		e.v = v
		return old, true
	}
	m.add(k, v)
	return nil, false
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pre()
	if e := m.m[k]; e != nil {
		return e.v, true
	}
	m.add(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pre()
	if e := m.m[k]; e != nil {
		m.drop(e)
		return e.v, true
	}
	return nil, false
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.pre()
	if e := m.m[k]; e != nil && e.v == old {
		e.v = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.pre()
	if e := m.m[k]; e != nil && e.v == old {
		m.drop(e)
		return true
	}
	return false
}
func (m *Map) Clear() {
	m.pre()
	for _, e := range m.ord {
		e.del = true
	}
	m.m = map[any]*ment{}
	m.ord = nil
	m.live = 0
}
func (m *Map) Range(f func(k, v any) bool) {
	m.pre()
	snap := make([]*ment, 0, len(m.ord))
	for _, e := range m.ord {
		if !e.del {
			snap = append(snap, e)
		}
	}
	if len(snap) > 1 {
		r := rt.NewRNG(rt.Rand("syncmap.order"))
		for i := len(snap) - 1; i > 0; i-- {
			j := r.N(i + 1)
			snap[i], snap[j] = snap[j], snap[i]
		}
	}
	for _, e := range snap {
		rt.YS()
		m.sync()
		if e.del {
			continue
		}
		if !f(e.k, e.v) {
			return
		}
	}
}

var _ = sort.Ints
