package rt

import (
	"fmt"
	"sort"
	"unsafe"
)

// Channels keep their Go type; their content lives in a shadow state keyed by
// the channel's identity.

type chanState struct {
	cap    int
	buf    []chanItem
	closed bool
	cvc    vclock // clock at close
	recvq  []*waiter
	sendq  []*waiter
	rvc    []vclock // clocks of recent receives, for the buffered-channel rule
	nrecv  int
	nsend  int
	keep   any
}

type chanItem struct {
	v  any
	vc []uint32
}

// waiter is one parked operation on one channel (a select parks several).
type waiter struct {
	t    *Task
	grp  *waitGrp
	idx  int // case index within the select
	send bool
	item chanItem
}

type waitGrp struct {
	fired       bool
	idx         int
	item        chanItem
	ok          bool
	vc          []uint32
	panicClosed bool
}

func chp[T any](c chan T) unsafe.Pointer    { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }
func chpR[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }
func chpS[T any](c chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func chst(p unsafe.Pointer, capn int, keep any) *chanState {
	if p == nil {
		return nil
	}
	st := S.chans[p]
	if st == nil {
		st = &chanState{cap: capn, keep: keep}
		S.chans[p] = st
	}
	return st
}

// NewChan registers a channel made by the code under test.
func NewChan[C ~chan T, T any](c C, n int) C { return c }

// MakeChan is make(chan T, n) with a simulated buffer.
func copyVC(t *Task) []uint32 {
	c := make([]uint32, len(t.vc))
	copy(c, t.vc)
	t.tick()
	return c
}

func (st *chanState) popRecvWaiter() *waiter {
	for len(st.recvq) > 0 {
		i := 0
		w := st.recvq[i]
		st.recvq = st.recvq[1:]
		if !w.grp.fired && !w.t.dead && w.t.state != stDone {
			return w
		}
	}
	return nil
}

func (st *chanState) popSendWaiter() *waiter {
	for len(st.sendq) > 0 {
		w := st.sendq[0]
		st.sendq = st.sendq[1:]
		if !w.grp.fired && !w.t.dead && w.t.state != stDone {
			return w
		}
	}
	return nil
}

func (st *chanState) hasRecvWaiter(self *Task) bool {
	for _, w := range st.recvq {
		if !w.grp.fired && !w.t.dead && w.t.state != stDone && w.t != self {
			return true
		}
	}
	return false
}
func (st *chanState) hasSendWaiter(self *Task) bool {
	for _, w := range st.sendq {
		if !w.grp.fired && !w.t.dead && w.t.state != stDone && w.t != self {
			return true
		}
	}
	return false
}

func (st *chanState) canSend() bool {
	return st.closed || len(st.buf) < st.cap || st.hasRecvWaiter(cur)
}
func (st *chanState) canRecv() bool {
	return len(st.buf) > 0 || st.closed || st.hasSendWaiter(cur)
}

func vcOf() []uint32 {
	if cur == nil {
		return nil
	}
	return copyVC(cur)
}

func mergeCur(vc []uint32) {
	if cur != nil {
		cur.merge(vc)
	}
}

// doSend performs a send that canSend() allowed.
func (st *chanState) doSend(v any) {
	if st.closed {
		panic(fmt.Errorf("send on closed channel"))
	}
	if w := st.popRecvWaiter(); w != nil {
		w.grp.fired, w.grp.idx, w.grp.ok = true, w.idx, true
		w.grp.item = chanItem{v, vcOf()}
		// unbuffered/handed over: receive happens before send completes
		if st.cap == 0 {
			mergeCur(w.t.vc)
		}
		S.wake(w.t)
		return
	}
	// k-th receive happens before the (k+cap)-th send completes
	k := st.nsend - st.cap
	if k >= 0 && k < len(st.rvc) {
		mergeCur(st.rvc[k].c)
	}
	st.nsend++
	st.buf = append(st.buf, chanItem{v, vcOf()})
}

func (st *chanState) doRecv() (any, bool) {
	if len(st.buf) > 0 {
		it := st.buf[0]
		st.buf = st.buf[1:]
		mergeCur(it.vc)
		if st.nrecv < 4096 {
			st.rvc = append(st.rvc, vclock{vcOf()})
		}
		st.nrecv++
		if w := st.popSendWaiter(); w != nil {
			w.grp.fired, w.grp.idx = true, w.idx
			if cur != nil {
				w.grp.vc = vcOf()
			}
			st.nsend++
			st.buf = append(st.buf, w.item)
			S.wake(w.t)
		}
		return it.v, true
	}
	if w := st.popSendWaiter(); w != nil {
		w.grp.fired, w.grp.idx = true, w.idx
		w.grp.vc = vcOf()
		mergeCur(w.item.vc)
		S.wake(w.t)
		return w.item.v, true
	}
	// closed
	mergeCur(st.cvc.c)
	return nil, false
}

// Send is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if Dead() {
			panic(killSentinel)
		}
		YS()
		p := chpS(ch)
		if p == nil {
			for {
				Block("send on nil channel")
			}
		}
		st := chst(p, cap(ch), ch)
		if st.canSend() {
			st.doSend(v)
			YS()
			return
		}
		g := &waitGrp{}
		st.sendq = append(st.sendq, &waiter{t: cur, grp: g, send: true, item: chanItem{v, vcOf()}})
		for !g.fired {
			Block("chan send")
		}
		mergeCur(g.vc)
		if g.panicClosed {
			panic(fmt.Errorf("send on closed channel"))
		}
	}
}

func recv(p unsafe.Pointer, capn int, keep any) (any, bool) {
	if Dead() {
		panic(killSentinel)
	}
	YS()
	if p == nil {
		for {
			Block("receive from nil channel")
		}
	}
	st := chst(p, capn, keep)
	if st.canRecv() {
		v, ok := st.doRecv()
		return v, ok
	}
	g := &waitGrp{}
	st.recvq = append(st.recvq, &waiter{t: cur, grp: g})
	for !g.fired {
		Block("chan receive")
	}
	mergeCur(g.item.vc)
	return g.item.v, g.ok
}

func cast[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := recv(chpR(ch), cap(ch), ch)
	return cast[T](v)
}
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := recv(chpR(ch), cap(ch), ch)
	return cast[T](v), ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if Dead() {
		return
	}
	YS()
	p := chpS(ch)
	if p == nil {
		panic(fmt.Errorf("close of nil channel"))
	}
	st := chst(p, cap(ch), ch)
	if st.closed {
		panic(fmt.Errorf("close of closed channel"))
	}
	closeState(st)
	YS()
}

func closeState(st *chanState) {
	st.closed = true
	st.cvc.merge(vcOf())
	for {
		w := st.popRecvWaiter()
		if w == nil {
			break
		}
		w.grp.fired, w.grp.idx, w.grp.ok = true, w.idx, false
		w.grp.item = chanItem{nil, st.cvc.c}
		S.wake(w.t)
	}
	for {
		w := st.popSendWaiter()
		if w == nil {
			break
		}
		w.grp.fired, w.grp.idx, w.grp.panicClosed = true, w.idx, true
		S.wake(w.t)
	}
}

// CloseQuiet closes ch if it is open; usable from scheduler context.
func CloseQuiet[T any](ch chan T) {
	st := chst(chp(ch), cap(ch), ch)
	if !st.closed {
		closeState(st)
	}
}

// PostTo delivers v without blocking (timers, signals); false if full.
func PostTo[T any](ch chan<- T, v T) bool {
	st := chst(chpS(ch), cap(ch), ch)
	if st == nil || st.closed || !(len(st.buf) < st.cap || st.hasRecvWaiter(nil)) {
		return false
	}
	st.doSend(v)
	return true
}

// DrainChan empties the buffer (Timer.Stop/Reset semantics of Go 1.23+).
func DrainChan[T any](ch chan T) {
	if st := chst(chp(ch), cap(ch), ch); st != nil {
		st.buf = nil
	}
}

func LenChan[T any](ch <-chan T) int {
	YS()
	if p := chpR(ch); p != nil {
		return len(chst(p, cap(ch), ch).buf)
	}
	return 0
}

// ---- select -----------------------------------------------------------------------

type SelCase interface {
	st() *chanState
	isSend() bool
	sendVal() any
	setRecv(v any, ok bool)
}

type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }
func (c *RecvCase[T]) st() *chanState          { return chst(chpR(c.ch), cap(c.ch), c.ch) }
func (c *RecvCase[T]) isSend() bool            { return false }
func (c *RecvCase[T]) sendVal() any            { return nil }
func (c *RecvCase[T]) setRecv(v any, ok bool)  { c.V, c.OK = cast[T](v), ok }

type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func CaseSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}
func (c *SendCase[T]) st() *chanState         { return chst(chpS(c.ch), cap(c.ch), c.ch) }
func (c *SendCase[T]) isSend() bool           { return true }
func (c *SendCase[T]) sendVal() any           { return c.v }
func (c *SendCase[T]) setRecv(v any, ok bool) {}

// Select returns the index of the case that ran, or -1 for default.
func Select(hasDefault bool, cases ...SelCase) int {
	if Dead() {
		panic(killSentinel)
	}
	YS()
	var ready []int
	sts := make([]*chanState, len(cases))
	for i, c := range cases {
		st := c.st()
		sts[i] = st
		if st == nil {
			continue
		}
		if c.isSend() && st.canSend() || !c.isSend() && st.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[int(Rand("select")%uint64(len(ready)))]
		}
		c := cases[i]
		if c.isSend() {
			sts[i].doSend(c.sendVal())
		} else {
			c.setRecv(sts[i].doRecv())
		}
		YS()
		return i
	}
	if hasDefault {
		return -1
	}
	g := &waitGrp{}
	n := 0
	for i, c := range cases {
		if sts[i] == nil {
			continue
		}
		n++
		w := &waiter{t: cur, grp: g, idx: i}
		if c.isSend() {
			w.send = true
			w.item = chanItem{c.sendVal(), vcOf()}
			sts[i].sendq = append(sts[i].sendq, w)
		} else {
			sts[i].recvq = append(sts[i].recvq, w)
		}
	}
	for !g.fired {
		Block("select")
	}
	// drop stale waiters
	for i := range cases {
		if st := sts[i]; st != nil {
			st.recvq = dropGrp(st.recvq, g)
			st.sendq = dropGrp(st.sendq, g)
		}
	}
	c := cases[g.idx]
	if c.isSend() {
		mergeCur(g.vc)
		if g.panicClosed {
			panic(fmt.Errorf("send on closed channel"))
		}
	} else {
		mergeCur(g.item.vc)
		c.setRecv(g.item.v, g.ok)
	}
	return g.idx
}

func dropGrp(q []*waiter, g *waitGrp) []*waiter {
	out := q[:0]
	for _, w := range q {
		if w.grp != g {
			out = append(out, w)
		}
	}
	return out
}

// BlockForever is select {}.
func BlockForever() {
	for {
		Block("select {}")
	}
}

// ---- deterministic map iteration ------------------------------------------------

type MapEnt[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live re-reads the entry; an entry deleted during the iteration is skipped.
func (e MapEnt[K, V]) Live() bool {
	if cur != nil && S != nil {
		mapAccess(mapPtr(e.m), e.m, false)
	}
	_, ok := e.m[e.K]
	return ok
}
func (e MapEnt[K, V]) V() V { return e.m[e.K] }

func MapIter[M ~map[K]V, K comparable, V any](m M) []MapEnt[K, V] {
	MR(m)
	out := make([]MapEnt[K, V], 0, len(m))
	for k := range m {
		out = append(out, MapEnt[K, V]{k, m})
	}
	sort.Slice(out, func(i, j int) bool { return keyLess(out[i].K, out[j].K) })
	if S != nil && len(out) > 1 {
		r := NewRNG(Rand("maporder"))
		for i := len(out) - 1; i > 0; i-- {
			j := r.N(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func keyLess(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	case int64:
		return x < b.(int64)
	case uint64:
		return x < b.(uint64)
	case [2]uint64:
		y := b.([2]uint64)
		return x[0] < y[0] || x[0] == y[0] && x[1] < y[1]
	}
	return fmt.Sprintf("%v", a) < fmt.Sprintf("%v", b)
}
