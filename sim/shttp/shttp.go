// Package shttp is the simulated network for net/http servers: requests reach
// handlers as separate goroutines of the server's process.
package shttp

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"syscall"
	"vsa/zsim/rt"
	"vsa/zsim/sctx"
)

type listener struct {
	addr     string
	srv      *http.Server
	h        http.Handler
	p        *rt.Proc
	closed   bool
	serving  bool
	inflight int
	cut      bool // Close: connections are gone
	cutAt    int64
	clients  []*rt.Task
	waitQ    []*rt.Task
	conns    []*conn // accepted, nothing received yet
}

type conn struct {
	open   int64
	closed bool
	active bool // part of a request has come
}

func (l *listener) accept() *conn {
	c := &conn{open: rt.Now()}
	l.conns = append(l.conns, c)
	return c
}

func (l *listener) drop(c *conn) {
	c.closed = true
	rest := l.conns[:0]
	for _, o := range l.conns {
		if o != c {
			rest = append(rest, o)
		}
	}
	l.conns = rest
}

type netw struct{ ls []*listener }

func nw() *netw {
	n, ok := rt.S.Ext["net"].(*netw)
	if !ok {
		n = &netw{}
		rt.S.Ext["net"] = n
	}
	return n
}

func bySrv(s *http.Server) *listener {
	for _, l := range nw().ls {
		if l.srv == s {
			return l
		}
	}
	return nil
}

func portOf(addr string) string { return addr[strings.LastIndex(addr, ":")+1:] }

func (n *netw) at(addr string) *listener {
	for _, l := range n.ls {
		if l.serving && !l.closed && l.p.Alive && portOf(l.addr) == portOf(addr) {
			return l
		}
	}
	return nil
}

// ListenAndServe stands for (*http.Server).ListenAndServe.
func ListenAndServe(s *http.Server) error {
	rt.YS()
	n := nw()
	l := bySrv(s)
	if l != nil && l.closed {
		return http.ErrServerClosed
	}
	if n.at(s.Addr) != nil {
		return &net.OpError{Op: "listen", Net: "tcp", Err: syscall.EADDRINUSE}
	}
	if k, _ := rt.Fault("net.listen", "eaddrinuse"); k != "" {
		return &net.OpError{Op: "listen", Net: "tcp", Err: syscall.EADDRINUSE}
	}
	if l == nil {
		l = &listener{addr: s.Addr, srv: s, p: rt.CurProc()}
		n.ls = append(n.ls, l)
	}
	l.h = s.Handler
	if l.h == nil {
		l.h = http.DefaultServeMux
	}
	l.serving = true
	for !l.closed {
		l.waitQ = append(l.waitQ, rt.Cur())
		rt.Block("http serve " + s.Addr)
	}
	return http.ErrServerClosed
}

// ListenAndServeAddr stands for http.ListenAndServe.
func ListenAndServeAddr(addr string, h http.Handler) error {
	return ListenAndServe(&http.Server{Addr: addr, Handler: h})
}

// Serve stands for (*http.Server).Serve with a simulated listener.
func Serve(s *http.Server, ln net.Listener) error {
	if s.Addr == "" && ln != nil {
		s.Addr = ln.Addr().String()
	}
	return ListenAndServe(s)
}

type fakeListener struct{ addr string }

func (f *fakeListener) Accept() (net.Conn, error) { rt.BlockForever(); return nil, nil }
func (f *fakeListener) Close() error              { return nil }
func (f *fakeListener) Addr() net.Addr            { return fakeAddr(f.addr) }

type fakeAddr string

func (fakeAddr) Network() string  { return "tcp" }
func (a fakeAddr) String() string { return string(a) }

// Listen stands for net.Listen.
func Listen(network, addr string) (net.Listener, error) {
	rt.YS()
	if nw().at(addr) != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EADDRINUSE}
	}
	return &fakeListener{addr}, nil
}

// Shutdown stands for (*http.Server).Shutdown: stop accepting, then wait for
// active requests until ctx ends.
func Shutdown(s *http.Server, ctx context.Context) error {
	rt.YS()
	l := bySrv(s)
	if l == nil {
		l = &listener{addr: s.Addr, srv: s, p: rt.CurProc()}
		nw().ls = append(nw().ls, l)
	}
	l.closed = true
	rt.WakeAll(&l.waitQ)
	for {
		for _, c := range append([]*conn(nil), l.conns...) {
			// net/http lets a new connection linger for some seconds to send its first request
			if !c.active && c.open/1e9 < rt.Now()/1e9-5 {
				l.drop(c)
			}
		}
		if l.inflight == 0 && len(l.conns) == 0 {
			break
		}
		if err := ctx.Err(); err != nil {
			rt.Probe("shutdown-timeout")
			return err
		}
		rt.Sleep(1_000_000)
	}
	return nil
}

// Close stands for (*http.Server).Close: active requests are cut.
func Close(s *http.Server) error {
	rt.YS()
	l := bySrv(s)
	if l == nil {
		l = &listener{addr: s.Addr, srv: s, p: rt.CurProc()}
		nw().ls = append(nw().ls, l)
	}
	l.closed = true
	if !l.cut {
		l.cut, l.cutAt = true, rt.Now()
	}
	for len(l.conns) > 0 {
		l.drop(l.conns[0])
	}
	rt.WakeAll(&l.clients)
	rt.WakeAll(&l.waitQ)
	return nil
}

func RegisterOnShutdown(s *http.Server, f func()) {}

type Response struct {
	Status int
	Header http.Header
	Body   string
	Err    error // transport-level failure: the outcome is unknown if Sent
	Sent   bool  // the request reached the server
	CutAt  int64 // the server ended the connection at this time, before the handler returned
}

type respWriter struct {
	h      http.Header
	snap   http.Header
	status int
	buf    bytes.Buffer
}

func (w *respWriter) Header() http.Header { return w.h }
func (w *respWriter) WriteHeader(c int) {
	if w.status == 0 {
		rt.Y()
		w.status = c
		w.snap = w.h.Clone()
	}
}
func (w *respWriter) Write(b []byte) (int, error) {
	rt.Y()
	if w.status == 0 {
		w.WriteHeader(200)
	}
	return w.buf.Write(b)
}
func (w *respWriter) Flush() {}

var ErrRefused = errors.New("connection refused")
var ErrReset = errors.New("connection reset by peer")
var ErrTimeout = errors.New("client timeout")

func newReq(method, target string, ctx context.Context) *http.Request {
	u, err := url.ParseRequestURI(target)
	if err != nil {
		panic(err)
	}
	r := &http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: http.NoBody, Host: "sim", RemoteAddr: "10.0.0.1:1234", RequestURI: target}
	return r.WithContext(ctx)
}

// Do sends one request from a client outside the server's process.
func Do(addr, method, target string, timeout int64) Response {
	return DoLate(addr, method, target, timeout, 0)
}

// DoLate connects and sends the request only after late.
func DoLate(addr, method, target string, timeout, late int64) Response {
	me := rt.Cur()
	// network latency to the server
	lat := int64(rt.Rand("net.lat")%200_000) + 1000
	k, arg := rt.Fault("net.request", "refuse", "slow-request", "lost-response", "slow-response")
	if k == "refuse" {
		return Response{Err: ErrRefused}
	}
	rt.Sleep(lat)
	l := nw().at(addr)
	if l == nil {
		return Response{Err: ErrRefused}
	}
	if k == "slow-request" || late > 0 { // connected, but the request takes its time
		c := l.accept()
		if late == 0 {
			late = arg % 3_000_000_000
		}
		rt.Sleep(late)
		if c.closed || !l.p.Alive {
			return Response{Err: ErrRefused}
		}
		l.drop(c)
	}
	ctx, cancel := sctx.WithCancel(context.Background())
	w := &respWriter{h: http.Header{}}
	req := newReq(method, target, ctx)
	l.inflight++
	done, bad, cut, returned := false, false, false, false
	cutAt := int64(0)
	t := rt.Spawn(l.p, "handler", func() {
		defer func() {
			if r := recover(); r != nil {
				if rt.IsKill(r) {
					panic(r)
				}
				bad = true // net/http recovers handler panics and drops the connection
				rt.Probe("handler-panic")
				rt.Tracef("handler panic: %v", r)
			}
		}()
		l.h.ServeHTTP(w, req)
		returned = true
	})
	finish := func() {
		if !done {
			done, cut = true, l.cut
			l.inflight--
			if cut {
				cutAt = l.cutAt
			} else if !returned && !bad {
				cutAt = rt.Now() // the process is gone
			}
		}
		rt.Wake(me)
	}
	rt.OnTaskExit(t, finish)
	expired := false
	var stop func() bool
	if timeout > 0 {
		stop = rt.At(rt.Now()+timeout, func() { expired = true; rt.Wake(me) })
	}
	for !done && !expired && !l.cut {
		l.clients = append(l.clients, me)
		rt.Block("http response")
	}
	rest := l.clients[:0]
	for _, c := range l.clients {
		if c != me {
			rest = append(rest, c)
		}
	}
	l.clients = rest
	if stop != nil {
		stop()
	}
	if !done {
		cancel()
		if l.cut {
			return Response{Err: ErrReset, Sent: true, CutAt: l.cutAt}
		}
		return Response{Err: ErrTimeout, Sent: true}
	}
	rt.MergeTask(t)
	if bad || cut || !returned {
		return Response{Err: ErrReset, Sent: true, CutAt: cutAt}
	}
	if k == "lost-response" {
		return Response{Err: ErrReset, Sent: true}
	}
	rl := int64(rt.Rand("net.lat2")%100_000) + 1000
	if k == "slow-response" {
		rl += arg % 2_000_000_000
	}
	// the response is in flight: a later crash of the server cannot take it back
	if w.status == 0 {
		w.status = 200
		w.snap = w.h.Clone()
	}
	rt.Sleep(rl)
	return Response{Status: w.status, Header: w.snap, Body: w.buf.String(), Sent: true}
}

// Idle opens a connection and sends nothing for d.
func Idle(addr string, d int64) {
	if l := nw().at(addr); l != nil {
		c := l.accept()
		rt.Sleep(d)
		l.drop(c)
	}
}

// Stuck opens a connection, sends half of a request and nothing more for d.
func Stuck(addr string, d int64) {
	l := nw().at(addr)
	if l == nil {
		return
	}
	c := l.accept()
	c.active = true
	t := l.srv.ReadHeaderTimeout
	if t == 0 {
		t = l.srv.ReadTimeout
	}
	if t > 0 && int64(t) < d {
		d = int64(t)
	}
	for end := rt.Now() + d; !c.closed && l.p.Alive && rt.Now() < end; {
		rt.Sleep(min(end-rt.Now(), 250_000_000))
	}
	l.drop(c)
}

// Up reports whether something listens at addr.
func Up(addr string) bool { return nw().at(addr) != nil }

var _ = io.EOF
