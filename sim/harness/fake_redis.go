package main

import (
	"context"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	redis "github.com/redis/go-redis/v9"
	"vsa/zsim/rt"
)

// fakeRedis is the simulated Redis server: strings and hashes with expiry,
// scripts executed atomically. Commands reach it over a faulty network.
type fakeRedis struct {
	kv       map[string]*rval
	scripts  map[string]string
	inScript int
	onExec   func() // after every applied command or script
	nExec    int
	proc     *rt.Proc
}

type rval struct {
	s    string
	h    map[string]string
	exp  int64 // sim ns, 0 none
	born int64
}

func newFakeRedis() *fakeRedis {
	return &fakeRedis{kv: map[string]*rval{}, scripts: map[string]string{}, proc: rt.NewProc("redis")}
}

var (
	errRConn    = fmt.Errorf("read tcp 10.0.0.1:50412->10.0.0.2:6379: %w", io.EOF)
	errRRefused = errors.New("dial tcp 10.0.0.2:6379: connect: connection refused")
	errROOM     = errors.New("OOM command not allowed when used memory > 'maxmemory'.")
)

func (f *fakeRedis) get(k string) *rval {
	v := f.kv[k]
	if v != nil && v.exp != 0 && rt.Now() >= v.exp {
		delete(f.kv, k)
		return nil
	}
	return v
}

const errWrongType = "WRONGTYPE Operation against a key holding the wrong kind of value"

func (f *fakeRedis) command(a []string) (any, error) {
	if len(a) == 0 {
		return nil, errors.New("ERR empty command")
	}
	name := strings.ToLower(a[0])
	a = a[1:]
	need := func(n int) error {
		if len(a) < n {
			return fmt.Errorf("ERR wrong number of arguments for '%s' command", name)
		}
		return nil
	}
	pint := func(s string) (int64, error) {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return 0, errors.New("ERR value is not an integer or out of range")
		}
		return n, nil
	}
	b2i := func(b bool) any {
		if b {
			return int64(1)
		}
		return int64(0)
	}
	switch name {
	case "ping":
		return status("PONG"), nil
	case "time":
		n := rt.WallNow()
		return []any{strconv.FormatInt(n/1e9, 10), strconv.FormatInt(n/1000%1e6, 10)}, nil
	case "setnx", "set", "setex", "psetex":
		if err := need(2); err != nil {
			return nil, err
		}
		k, v := a[0], a[1]
		var exp int64
		nx, xx, keep, getOld := name == "setnx", false, false, false
		opts := a[2:]
		if name == "setex" || name == "psetex" {
			if err := need(3); err != nil {
				return nil, err
			}
			v = a[2]
			opts = []string{map[string]string{"setex": "ex", "psetex": "px"}[name], a[1]}
		}
		for i := 0; i < len(opts); i++ {
			switch strings.ToLower(opts[i]) {
			case "nx":
				nx = true
			case "xx":
				xx = true
			case "keepttl":
				keep = true
			case "get":
				getOld = true
			case "ex", "px", "exat", "pxat":
				if i+1 >= len(opts) {
					return nil, errors.New("ERR syntax error")
				}
				n, err := pint(opts[i+1])
				if err != nil {
					return nil, err
				}
				if n <= 0 {
					return nil, errors.New("ERR invalid expire time in 'set' command")
				}
				switch strings.ToLower(opts[i]) {
				case "ex":
					exp = rt.Now() + n*1e9
				case "px":
					exp = rt.Now() + n*1e6
				case "exat":
					exp = rt.Now() + n*1e9 - rt.WallNow()
				case "pxat":
					exp = rt.Now() + n*1e6 - rt.WallNow()
				}
				i++
			default:
				return nil, errors.New("ERR syntax error")
			}
		}
		old := f.get(k)
		var prev any
		if old != nil && old.h == nil {
			prev = old.s
		}
		if nx && old != nil || xx && old == nil {
			if name == "setnx" {
				return int64(0), nil
			}
			return prev2(getOld, prev), nil
		}
		n := &rval{s: v, exp: exp, born: rt.Now()}
		if keep && old != nil {
			n.exp = old.exp
		}
		f.kv[k] = n
		if name == "setnx" {
			return int64(1), nil
		}
		if getOld {
			return prev, nil
		}
		return status("OK"), nil
	case "get":
		if err := need(1); err != nil {
			return nil, err
		}
		v := f.get(a[0])
		if v == nil {
			return nil, nil
		}
		if v.h != nil {
			return nil, errors.New(errWrongType)
		}
		return v.s, nil
	case "exists", "del", "unlink":
		n := int64(0)
		for _, k := range a {
			if f.get(k) != nil {
				n++
				if name != "exists" {
					delete(f.kv, k)
				}
			}
		}
		return n, nil
	case "incr", "decr", "incrby", "decrby":
		if err := need(1); err != nil {
			return nil, err
		}
		d := int64(1)
		if strings.HasSuffix(name, "by") {
			if err := need(2); err != nil {
				return nil, err
			}
			var err error
			if d, err = pint(a[1]); err != nil {
				return nil, err
			}
		}
		if strings.HasPrefix(name, "decr") {
			d = -d
		}
		v := f.get(a[0])
		if v == nil {
			v = &rval{s: "0", born: rt.Now()}
			f.kv[a[0]] = v
		}
		n, err := addStr(v.s, d)
		if err != nil || v.h != nil {
			return nil, errors.New("ERR value is not an integer or out of range")
		}
		v.s = strconv.FormatInt(n, 10)
		return n, nil
	case "hincrby", "hget", "hset", "hsetnx", "hexists", "hdel", "hgetall":
		if err := need(1); err != nil {
			return nil, err
		}
		v := f.get(a[0])
		if v != nil && v.h == nil {
			return nil, errors.New(errWrongType)
		}
		mk := func() {
			if v == nil {
				v = &rval{h: map[string]string{}, born: rt.Now()}
				f.kv[a[0]] = v
			}
		}
		field := func(i int) (string, bool) {
			if v == nil {
				return "", false
			}
			s, ok := v.h[a[i]]
			return s, ok
		}
		switch name {
		case "hincrby":
			if err := need(3); err != nil {
				return nil, err
			}
			d, err := pint(a[2])
			if err != nil {
				return nil, err
			}
			cur, ok := field(1)
			if !ok {
				cur = "0"
			}
			n, err := addStr(cur, d)
			if err != nil {
				return nil, err
			}
			mk()
			v.h[a[1]] = strconv.FormatInt(n, 10)
			return n, nil
		case "hget":
			if err := need(2); err != nil {
				return nil, err
			}
			if s, ok := field(1); ok {
				return s, nil
			}
			return nil, nil
		case "hexists":
			if err := need(2); err != nil {
				return nil, err
			}
			_, ok := field(1)
			return b2i(ok), nil
		case "hset":
			if err := need(3); err != nil {
				return nil, err
			}
			n := int64(0)
			for i := 1; i+1 < len(a); i += 2 {
				if _, ok := field(i); !ok {
					n++
				}
				mk()
				v.h[a[i]] = a[i+1]
			}
			return n, nil
		case "hsetnx":
			if err := need(3); err != nil {
				return nil, err
			}
			if _, ok := field(1); ok {
				return int64(0), nil
			}
			mk()
			v.h[a[1]] = a[2]
			return int64(1), nil
		case "hdel":
			n := int64(0)
			for i := 1; i < len(a); i++ {
				if _, ok := field(i); ok {
					delete(v.h, a[i])
					n++
				}
			}
			return n, nil
		case "hgetall":
			var out []any
			if v != nil {
				for k, s := range v.h {
					out = append(out, k, s)
				}
			}
			return out, nil
		}
	case "expire", "pexpire", "expireat", "pexpireat":
		if err := need(2); err != nil {
			return nil, err
		}
		n, err := pint(a[1])
		if err != nil {
			return nil, err
		}
		v := f.get(a[0])
		if v == nil {
			return int64(0), nil
		}
		for _, o := range a[2:] {
			switch strings.ToLower(o) {
			case "nx":
				if v.exp != 0 {
					return int64(0), nil
				}
			case "xx":
				if v.exp == 0 {
					return int64(0), nil
				}
			}
		}
		switch name {
		case "expire":
			v.exp = rt.Now() + n*1e9
		case "pexpire":
			v.exp = rt.Now() + n*1e6
		case "expireat":
			v.exp = rt.Now() + n*1e9 - rt.WallNow()
		default:
			v.exp = rt.Now() + n*1e6 - rt.WallNow()
		}
		if v.exp <= rt.Now() {
			delete(f.kv, a[0])
		}
		return int64(1), nil
	case "persist":
		if v := f.get(a[0]); v != nil && v.exp != 0 {
			v.exp = 0
			return int64(1), nil
		}
		return int64(0), nil
	case "ttl", "pttl":
		if err := need(1); err != nil {
			return nil, err
		}
		v := f.get(a[0])
		switch {
		case v == nil:
			return int64(-2), nil
		case v.exp == 0:
			return int64(-1), nil
		case name == "ttl":
			return (v.exp - rt.Now() + 5e8) / 1e9, nil
		}
		return (v.exp - rt.Now()) / 1e6, nil
	case "script":
		if len(a) == 2 && strings.ToLower(a[0]) == "load" {
			if _, err := luaParse(a[1]); err != nil {
				return nil, err
			}
			return f.load(a[1]), nil
		}
		return status("OK"), nil
	case "eval", "evalsha":
		if err := need(2); err != nil {
			return nil, err
		}
		if f.inScript > 0 {
			return nil, errors.New("ERR This Redis command is not allowed from script")
		}
		src := a[0]
		if name == "evalsha" {
			s, ok := f.scripts[strings.ToLower(a[0])]
			if !ok {
				return nil, errors.New("NOSCRIPT No matching script. Please use EVAL.")
			}
			src = s
		}
		n, err := pint(a[1])
		if err != nil || n < 0 || int(n) > len(a)-2 {
			return nil, errors.New("ERR Number of keys can't be greater than number of args")
		}
		body := luaCache[src]
		if body == nil {
			if body, err = luaParse(src); err != nil {
				return nil, err
			}
			luaCache[src] = body
		}
		f.load(src)
		f.inScript++
		defer func() { f.inScript-- }()
		return luaRun(body, a[2:2+n], a[2+n:], f.command)
	}
	return nil, fmt.Errorf("ERR unknown command '%s'", name)
}

func prev2(get bool, prev any) any {
	if get {
		return prev
	}
	return nil
}

func (f *fakeRedis) load(src string) string {
	h := sha1.Sum([]byte(src))
	k := hex.EncodeToString(h[:])
	f.scripts[k] = src
	return k
}

func addStr(s string, d int64) (int64, error) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, errors.New("ERR hash value is not an integer")
	}
	if d > 0 && n > math.MaxInt64-d || d < 0 && n < math.MinInt64-d {
		return 0, errors.New("ERR increment or decrement would overflow")
	}
	return n + d, nil
}

func redisStr(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case []byte:
		return string(x)
	case bool:
		if x {
			return "1"
		}
		return "0"
	}
	return fmt.Sprint(v)
}

// roundTrip carries one command over the network. kind tells what the network
// or the server does to it.
func (f *fakeRedis) roundTrip(ctx context.Context, args []any) (any, error) {
	var as []string
	for _, a := range args {
		as = append(as, redisStr(a))
	}
	if err := ctxErr(ctx); err != nil {
		return nil, err
	}
	kind, arg := rt.Fault("redis", "refused", "lost-request", "lost-reply", "client-retry", "slow", "slow-reply", "late", "oom", "restart")
	wait := func(d int64) error { return sleepCtx(ctx, d) }
	if err := wait(50_000 + arg%100_000); err != nil {
		return nil, err
	}
	switch kind {
	case "refused":
		return nil, errRRefused
	case "late": // the client gives up; the server executes the command later
		f.late(as, arg%1_500_000_000)
		wait(arg / 7 % 50_000_000)
		return nil, errRConn
	case "lost-request":
		wait(arg % 3_000_000)
		return nil, errRConn
	case "oom":
		return nil, errROOM
	case "restart":
		f.scripts = map[string]string{}
		return nil, errRConn
	case "slow":
		if err := wait(arg % 2_000_000_000); err != nil {
			f.late(as, arg%7_000_000) // the request is on its way all the same
			return nil, err
		}
	case "client-retry": // the reply is lost and the client library sends the command again
		f.exec(as)
		wait(arg % 5_000_000)
	}
	v, err := f.exec(as)
	switch kind {
	case "lost-reply":
		wait(arg % 3_000_000)
		return nil, errRConn
	case "slow-reply":
		if e := wait(arg % 2_000_000_000); e != nil {
			return nil, e
		}
	}
	if s, ok := v.(status); ok {
		v = string(s)
	}
	if v == nil && err == nil {
		err = redis.Nil
	}
	return v, err
}

func (f *fakeRedis) exec(as []string) (any, error) {
	v, err := f.command(as)
	f.nExec++
	rt.Tracef("redis %s -> %v %v", clip(strings.Join(skipScript(as), " "), 120), v, err)
	if f.onExec != nil {
		f.onExec()
	}
	return v, err
}

func (f *fakeRedis) late(as []string, d int64) {
	rt.Spawn(f.proc, "redis-late", func() {
		rt.Sleep(d)
		f.exec(as)
	})
}

func skipScript(as []string) []string {
	if len(as) > 1 && strings.HasPrefix(strings.ToLower(as[0]), "eval") {
		return append([]string{as[0]}, as[2:]...)
	}
	return as
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func ctxErr(ctx context.Context) error {
	if ctx == nil {
		return nil
	}
	return ctx.Err()
}

// sleepCtx sleeps d simulated ns or until ctx ends.
func sleepCtx(ctx context.Context, d int64) error {
	if d <= 0 {
		return ctxErr(ctx)
	}
	if ctx == nil || ctx.Done() == nil {
		rt.Sleep(d)
		return nil
	}
	rt.Poll(d, min(20_000_000, max(1000, d/16)), func() bool { return ctx.Err() != nil })
	return ctx.Err()
}

func (f *fakeRedis) hash(key, field string) int64 {
	v := f.get(key)
	if v == nil || v.h == nil {
		return 0
	}
	n, _ := strconv.ParseInt(v.h[field], 10, 64)
	return n
}

// install makes the go-redis client talk to this server.
func (f *fakeRedis) install() {
	redis.Backend = func(ctx context.Context, addr string, opt *redis.Options, args []any) (any, error) {
		return f.roundTrip(ctx, args)
	}
}

// evaler is a RedisEvaler over the same network, for harnesses that construct the persister themselves.
type evaler struct{ f *fakeRedis }

func (e evaler) Eval(ctx context.Context, script string, keys []string, args ...any) (any, error) {
	a := []any{"eval", script, len(keys)}
	for _, k := range keys {
		a = append(a, k)
	}
	return e.f.roundTrip(ctx, append(a, args...))
}
