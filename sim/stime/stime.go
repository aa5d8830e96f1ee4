// Package stime is the simulated clock behind package time.
package stime

import (
	"time"
	"unsafe"
	"vsa/zsim/rt"
)

type Timer struct {
	C     <-chan time.Time
	c     chan time.Time
	f     func()
	stop  func() bool
	alive bool
}

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    int64
	stop func() bool
	gen  int
}

type timeRep struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// mk builds a time.Time carrying both a wall and a monotonic reading, as
// time.Now does.
func mk(wall, mono int64) time.Time {
	t := time.Unix(0, wall)
	r := (*timeRep)(unsafe.Pointer(&t))
	const wallToUnix1885 = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	sec := wall/1e9 + unixToInternal - wallToUnix1885
	nsec := wall % 1e9
	r.wall = 1<<63 | uint64(sec)<<30 | uint64(nsec)
	r.ext = mono + 1
	return t
}

func Now() time.Time {
	rt.Y()
	return nowT()
}
func nowT() time.Time                          { return mk(rt.WallNow(), rt.Now()) }
func Since(t time.Time) time.Duration          { return Now().Sub(t) }
func Until(t time.Time) time.Duration          { return t.Sub(Now()) }
func Sleep(d time.Duration)                    { rt.Sleep(int64(d)) }
func After(d time.Duration) <-chan time.Time   { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) start(d time.Duration) {
	t.alive = true
	p := rt.CurProc()
	t.stop = rt.At(rt.Now()+int64(d), func() {
		t.alive = false
		if !p.Alive {
			return
		}
		if t.f != nil {
			rt.Spawn(p, "afterfunc", t.f)
			return
		}
		rt.PostTo((chan<- time.Time)(t.c), nowT())
	})
}

func (t *Timer) Stop() bool {
	rt.YS()
	if rt.Dead() {
		return false
	}
	was := t.alive
	t.alive = false
	if t.stop != nil {
		t.stop()
	}
	if t.c != nil {
		rt.DrainChan(t.c)
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: int64(d)}
	t.arm(rt.Now()+t.d, rt.CurProc())
	return t
}

func (t *Ticker) arm(at int64, p *rt.Proc) {
	g := t.gen
	t.stop = rt.At(at, func() {
		if g != t.gen || !p.Alive {
			return
		}
		rt.PostTo((chan<- time.Time)(t.c), nowT())
		next := at + t.d
		if now := rt.Now(); next <= now { // slow receiver: ticks are dropped
			next += (now - next) / t.d * t.d
			if next <= now {
				next += t.d
			}
		}
		t.arm(next, p)
	})
}

func (t *Ticker) Stop() {
	if rt.Dead() {
		return
	}
	rt.YS()
	t.gen++
	if t.stop != nil {
		t.stop()
	}
	rt.DrainChan(t.c)
}

func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.Stop()
	t.d = int64(d)
	t.arm(rt.Now()+t.d, rt.CurProc())
}
