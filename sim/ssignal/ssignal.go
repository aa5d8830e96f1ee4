package ssignal

import (
	"context"
	"os"
	"vsa/zsim/rt"
	"vsa/zsim/sctx"
)

type reg struct {
	p    *rt.Proc
	c    chan<- os.Signal
	sigs []os.Signal
}

func regs() *[]*reg {
	r, ok := rt.S.Ext["signals"].(*[]*reg)
	if !ok {
		r = &[]*reg{}
		rt.S.Ext["signals"] = r
	}
	return r
}

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	rt.YS()
	r := regs()
	*r = append(*r, &reg{rt.CurProc(), c, sigs})
	if m, ok := rt.S.Ext["signal-on-notify"].(map[*rt.Proc]os.Signal); ok {
		if s, ok := m[rt.CurProc()]; ok {
			for _, x := range sigs {
				if x == s {
					delete(m, rt.CurProc())
					rt.Probe("signal-at-notify")
					Send(rt.CurProc(), s)
					return
				}
			}
		}
	}
}

// SendOnNotify delivers sig as soon as p has asked for it.
func SendOnNotify(p *rt.Proc, sig os.Signal) {
	m, ok := rt.S.Ext["signal-on-notify"].(map[*rt.Proc]os.Signal)
	if !ok {
		m = map[*rt.Proc]os.Signal{}
		rt.S.Ext["signal-on-notify"] = m
	}
	m[p] = sig
}
func Stop(c chan<- os.Signal) {
	r := regs()
	for _, x := range *r {
		if x.c == c {
			x.p = nil
		}
	}
}
func Ignore(...os.Signal) {}
func Reset(...os.Signal)  {}
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := sctx.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sigs...)
	rt.Go(func() {
		switch a, b := rt.CaseRecv((<-chan os.Signal)(ch)), rt.CaseRecv(ctx.Done()); rt.Select(false, a, b) {
		case 0:
			cancel()
		}
	})
	return ctx, cancel
}

// Send delivers sig to p; an unhandled signal kills the process.
func Send(p *rt.Proc, sig os.Signal) {
	handled := false
	for _, x := range *regs() {
		if x.p != p {
			continue
		}
		match := len(x.sigs) == 0
		for _, s := range x.sigs {
			if s == sig {
				match = true
			}
		}
		if match {
			handled = true
			rt.PostTo(x.c, sig)
		}
	}
	if !handled {
		rt.Crash(p)
	}
}
