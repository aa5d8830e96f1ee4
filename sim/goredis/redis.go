// Package redis stands in for github.com/redis/go-redis/v9 in simulation: the
// same client surface, with the network and the server supplied by Backend.
package redis

import (
	"context"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"strconv"
	"time"
)

// Backend performs one command against the simulated server at addr.
var Backend func(ctx context.Context, addr string, opt *Options, args []interface{}) (interface{}, error)

var Nil = errors.New("redis: nil")

type Options struct {
	Network, Addr, ClientName, Username, Password string
	DB, Protocol, MaxRetries, PoolSize            int
	MinRetryBackoff, MaxRetryBackoff              time.Duration
	DialTimeout, ReadTimeout, WriteTimeout        time.Duration
	ContextTimeoutEnabled, PoolFIFO               bool
	PoolTimeout, ConnMaxIdleTime, ConnMaxLifetime time.Duration
	MinIdleConns, MaxIdleConns, MaxActiveConns    int
}

type UniversalOptions = Options

type Client struct {
	opt Options
}

type Cmdable interface {
	Eval(ctx context.Context, script string, keys []string, args ...interface{}) *Cmd
	EvalSha(ctx context.Context, sha1 string, keys []string, args ...interface{}) *Cmd
	ScriptLoad(ctx context.Context, script string) *StringCmd
}

type UniversalClient interface{ Cmdable }

func NewClient(o *Options) *Client { return &Client{opt: *o} }

func (c *Client) Options() *Options { o := c.opt; return &o }
func (c *Client) Close() error      { return nil }

func (c *Client) do(ctx context.Context, args ...interface{}) (interface{}, error) {
	return Backend(ctx, c.opt.Addr, &c.opt, args)
}

type Cmd struct {
	val interface{}
	err error
}

func (c *Cmd) Result() (interface{}, error) { return c.val, c.err }
func (c *Cmd) Err() error                   { return c.err }
func (c *Cmd) Val() interface{}             { return c.val }
func (c *Cmd) SetErr(e error)               { c.err = e }
func (c *Cmd) Int64() (int64, error) {
	if c.err != nil {
		return 0, c.err
	}
	switch v := c.val.(type) {
	case int64:
		return v, nil
	case string:
		return strconv.ParseInt(v, 10, 64)
	}
	return 0, fmt.Errorf("redis: unexpected type=%T for Int64", c.val)
}
func (c *Cmd) Int() (int, error) { n, err := c.Int64(); return int(n), err }
func (c *Cmd) Bool() (bool, error) {
	n, err := c.Int64()
	return n == 1, err
}
func (c *Cmd) Text() (string, error) {
	if c.err != nil {
		return "", c.err
	}
	return fmt.Sprint(c.val), nil
}

type StringCmd struct{ Cmd }

func (c *StringCmd) Result() (string, error) {
	if c.err != nil {
		return "", c.err
	}
	return fmt.Sprint(c.val), nil
}
func (c *StringCmd) Val() string { s, _ := c.Result(); return s }

type IntCmd struct{ Cmd }

func (c *IntCmd) Result() (int64, error) { return c.Int64() }
func (c *IntCmd) Val() int64             { n, _ := c.Int64(); return n }

type BoolCmd struct{ Cmd }

func (c *BoolCmd) Result() (bool, error) { return c.Bool() }
func (c *BoolCmd) Val() bool             { b, _ := c.Bool(); return b }

type StatusCmd = StringCmd

func (c *Client) eval(ctx context.Context, name, script string, keys []string, args []interface{}) *Cmd {
	a := []interface{}{name, script, len(keys)}
	for _, k := range keys {
		a = append(a, k)
	}
	a = append(a, args...)
	v, err := c.do(ctx, a...)
	return &Cmd{v, err}
}

func (c *Client) Eval(ctx context.Context, script string, keys []string, args ...interface{}) *Cmd {
	return c.eval(ctx, "eval", script, keys, args)
}
func (c *Client) EvalSha(ctx context.Context, sha string, keys []string, args ...interface{}) *Cmd {
	return c.eval(ctx, "evalsha", sha, keys, args)
}
func (c *Client) ScriptLoad(ctx context.Context, script string) *StringCmd {
	v, err := c.do(ctx, "script", "load", script)
	return &StringCmd{Cmd{v, err}}
}
func (c *Client) Do(ctx context.Context, args ...interface{}) *Cmd {
	v, err := c.do(ctx, args...)
	return &Cmd{v, err}
}
func (c *Client) Ping(ctx context.Context) *StatusCmd {
	v, err := c.do(ctx, "ping")
	return &StatusCmd{Cmd{v, err}}
}
func (c *Client) Get(ctx context.Context, k string) *StringCmd {
	v, err := c.do(ctx, "get", k)
	if err == nil && v == nil {
		err = Nil
	}
	return &StringCmd{Cmd{v, err}}
}
func (c *Client) HGet(ctx context.Context, k, f string) *StringCmd {
	v, err := c.do(ctx, "hget", k, f)
	if err == nil && v == nil {
		err = Nil
	}
	return &StringCmd{Cmd{v, err}}
}
func (c *Client) HIncrBy(ctx context.Context, k, f string, n int64) *IntCmd {
	v, err := c.do(ctx, "hincrby", k, f, n)
	return &IntCmd{Cmd{v, err}}
}
func (c *Client) SetNX(ctx context.Context, k string, val interface{}, exp time.Duration) *BoolCmd {
	var v interface{}
	var err error
	if exp > 0 {
		v, err = c.do(ctx, "set", k, val, "px", exp.Milliseconds(), "nx")
		if err == nil {
			if v == nil {
				v = int64(0)
			} else {
				v = int64(1)
			}
		}
	} else {
		v, err = c.do(ctx, "setnx", k, val)
	}
	return &BoolCmd{Cmd{v, err}}
}
func (c *Client) Expire(ctx context.Context, k string, exp time.Duration) *BoolCmd {
	v, err := c.do(ctx, "expire", k, int64(exp/time.Second))
	return &BoolCmd{Cmd{v, err}}
}
func (c *Client) Del(ctx context.Context, ks ...string) *IntCmd {
	a := []interface{}{"del"}
	for _, k := range ks {
		a = append(a, k)
	}
	v, err := c.do(ctx, a...)
	return &IntCmd{Cmd{v, err}}
}

type Script struct{ src, hash string }

func NewScript(src string) *Script {
	h := sha1.Sum([]byte(src))
	return &Script{src, hex.EncodeToString(h[:])}
}
func (s *Script) Hash() string { return s.hash }
func (s *Script) Eval(ctx context.Context, c Cmdable, keys []string, args ...interface{}) *Cmd {
	return c.Eval(ctx, s.src, keys, args...)
}
func (s *Script) EvalSha(ctx context.Context, c Cmdable, keys []string, args ...interface{}) *Cmd {
	return c.EvalSha(ctx, s.hash, keys, args...)
}
func (s *Script) Run(ctx context.Context, c Cmdable, keys []string, args ...interface{}) *Cmd {
	r := s.EvalSha(ctx, c, keys, args...)
	if r.err != nil && len(r.err.Error()) >= 8 && r.err.Error()[:8] == "NOSCRIPT" {
		return s.Eval(ctx, c, keys, args...)
	}
	return r
}
