package main

import (
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// A small Lua, enough for Redis scripts: the fake Redis server runs whatever
// script the code under test sends.

type lval = any // nil, bool, float64, string, *ltab, lfunc
type lfunc func(args []lval) ([]lval, error)
type ltab struct {
	lib string // the library it is
	arr []lval
	h   map[lval]lval
}

func (t *ltab) get(k lval) lval {
	if f, ok := k.(float64); ok && f == math.Trunc(f) && f >= 1 && int(f) <= len(t.arr) {
		return t.arr[int(f)-1]
	}
	return t.h[k]
}
func (t *ltab) set(k, v lval) {
	if f, ok := k.(float64); ok && f == math.Trunc(f) && f >= 1 && int(f) <= len(t.arr)+1 {
		if int(f) == len(t.arr)+1 {
			if v != nil {
				t.arr = append(t.arr, v)
			}
		} else if v == nil && int(f) == len(t.arr) {
			t.arr = t.arr[:len(t.arr)-1]
		} else {
			t.arr[int(f)-1] = v
		}
		return
	}
	if t.h == nil {
		t.h = map[lval]lval{}
	}
	if v == nil {
		delete(t.h, k)
	} else {
		t.h[k] = v
	}
}

var errLuaSyntax = errors.New("ERR Error compiling script")

type ltok struct {
	k string // "n" name, "s" string, "#" number, "op", "kw", "eof"
	v string
	f float64
}

var luaKw = map[string]bool{}

func init() {
	for _, k := range strings.Fields("and break do else elseif end false for function if in local nil not or repeat return then true until while") {
		luaKw[k] = true
	}
}

func luaLex(s string) (ts []ltok, err error) {
	long := func(i int) (string, int, bool) { // at '[': [[ ... ]] or [=[ ... ]=]
		j := i + 1
		for j < len(s) && s[j] == '=' {
			j++
		}
		if j >= len(s) || s[j] != '[' {
			return "", i, false
		}
		end := "]" + strings.Repeat("=", j-i-1) + "]"
		e := strings.Index(s[j+1:], end)
		if e < 0 {
			return "", i, false
		}
		return strings.TrimPrefix(s[j+1:j+1+e], "\n"), j + 1 + e + len(end), true
	}
	isN := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "--"):
			if i+2 < len(s) && s[i+2] == '[' {
				if _, n, ok := long(i + 2); ok {
					i = n
					continue
				}
			}
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '[' && i+1 < len(s) && (s[i+1] == '[' || s[i+1] == '='):
			v, n, ok := long(i)
			if !ok {
				return nil, errLuaSyntax
			}
			ts = append(ts, ltok{k: "s", v: v})
			i = n
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i
			for j < len(s) && (isN(s[j]) || s[j] == '.' || (s[j] == '-' || s[j] == '+') && (s[j-1] == 'e' || s[j-1] == 'E')) {
				j++
			}
			f, err := strconv.ParseFloat(s[i:j], 64)
			if err != nil {
				u, e2 := strconv.ParseInt(s[i:j], 0, 64)
				if e2 != nil {
					return nil, errLuaSyntax
				}
				f = float64(u)
			}
			ts = append(ts, ltok{k: "#", f: f})
			i = j
		case isN(c):
			j := i
			for j < len(s) && isN(s[j]) {
				j++
			}
			w := s[i:j]
			k := "n"
			if luaKw[w] {
				k = "kw"
			}
			ts = append(ts, ltok{k: k, v: w})
			i = j
		case c == '\'' || c == '"':
			var b strings.Builder
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && j+1 < len(s) {
					j++
					switch s[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					default:
						b.WriteByte(s[j])
					}
				} else {
					b.WriteByte(s[j])
				}
				j++
			}
			if j >= len(s) {
				return nil, errLuaSyntax
			}
			ts = append(ts, ltok{k: "s", v: b.String()})
			i = j + 1
		default:
			op := ""
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">=", "+", "-", "*", "/", "%", "^", "#", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", "."} {
				if strings.HasPrefix(s[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				return nil, errLuaSyntax
			}
			ts = append(ts, ltok{k: "op", v: op})
			i += len(op)
		}
	}
	return append(ts, ltok{k: "eof"}), nil
}

type lscope struct {
	vars map[string]*lval
	up   *lscope
}

func (s *lscope) find(n string) *lval {
	for c := s; c != nil; c = c.up {
		if v, ok := c.vars[n]; ok {
			return v
		}
	}
	return nil
}
func (s *lscope) def(n string, v lval) { s.vars[n] = &v }
func sub(s *lscope) *lscope            { return &lscope{vars: map[string]*lval{}, up: s} }

type lctl struct {
	ret   bool
	brk   bool
	vals  []lval
	steps *int
}
type lexpr func(s *lscope) ([]lval, error) // multi-value
type lstmt func(s *lscope, c *lctl) error

type lparser struct {
	t []ltok
	i int
}

type lsyn struct{ m string }

func (p *lparser) fail(m string) { panic(lsyn{m}) }
func (p *lparser) is(k, v string) bool {
	return p.t[p.i].k == k && (v == "" || p.t[p.i].v == v)
}
func (p *lparser) acc(k, v string) bool {
	if p.is(k, v) {
		p.i++
		return true
	}
	return false
}
func (p *lparser) exp(k, v string) ltok {
	if !p.is(k, v) {
		p.fail("expected " + v + " near " + p.t[p.i].v)
	}
	p.i++
	return p.t[p.i-1]
}

func luaParse(src string) (b lstmt, err error) {
	ts, err := luaLex(src)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(lsyn); ok {
				err = fmt.Errorf("%w: %s", errLuaSyntax, s.m)
				return
			}
			panic(r)
		}
	}()
	for _, t := range ts {
		if t.k == "op" && t.v == "..." {
			unsupported("Lua: ...")
		}
	}
	p := &lparser{t: ts}
	b = p.block()
	if !p.is("eof", "") {
		p.fail("'<eof>' expected near " + p.t[p.i].v)
	}
	return b, nil
}

func (p *lparser) block() lstmt {
	var ss []lstmt
	for {
		for p.acc("op", ";") {
		}
		if p.is("eof", "") || p.is("kw", "end") || p.is("kw", "else") || p.is("kw", "elseif") || p.is("kw", "until") {
			break
		}
		if p.acc("kw", "return") {
			var es []lexpr
			if !(p.is("eof", "") || p.is("kw", "end") || p.is("kw", "else") || p.is("kw", "elseif") || p.is("kw", "until") || p.is("op", ";")) {
				es = p.exprs()
			}
			p.acc("op", ";")
			ss = append(ss, func(s *lscope, c *lctl) error {
				v, err := evalAll(es, s)
				c.ret, c.vals = true, v
				return err
			})
			break
		}
		ss = append(ss, p.stmt())
	}
	return func(s *lscope, c *lctl) error {
		for _, st := range ss {
			*c.steps++
			if *c.steps > 100000 {
				return errors.New("BUSY script too long")
			}
			if err := st(s, c); err != nil {
				return err
			}
			if c.ret || c.brk {
				return nil
			}
		}
		return nil
	}
}

func evalAll(es []lexpr, s *lscope) ([]lval, error) {
	var out []lval
	for i, e := range es {
		v, err := e(s)
		if err != nil {
			return nil, err
		}
		if i == len(es)-1 {
			out = append(out, v...)
		} else {
			out = append(out, first(v))
		}
	}
	return out, nil
}
func first(v []lval) lval {
	if len(v) == 0 {
		return nil
	}
	return v[0]
}
func truthy(v lval) bool { b, ok := v.(bool); return v != nil && (!ok || b) }

func (p *lparser) exprs() []lexpr {
	es := []lexpr{p.expr(0)}
	for p.acc("op", ",") {
		es = append(es, p.expr(0))
	}
	return es
}

func (p *lparser) stmt() lstmt {
	switch {
	case p.acc("kw", "local"):
		if p.acc("kw", "function") {
			n := p.exp("n", "").v
			f := p.funcBody()
			return func(s *lscope, c *lctl) error {
				s.def(n, nil)
				v, err := f(s)
				*s.find(n) = first(v)
				return err
			}
		}
		ns := []string{p.exp("n", "").v}
		for p.acc("op", ",") {
			ns = append(ns, p.exp("n", "").v)
		}
		var es []lexpr
		if p.acc("op", "=") {
			es = p.exprs()
		}
		return func(s *lscope, c *lctl) error {
			v, err := evalAll(es, s)
			if err != nil {
				return err
			}
			for i, n := range ns {
				if i < len(v) {
					s.def(n, v[i])
				} else {
					s.def(n, nil)
				}
			}
			return nil
		}
	case p.acc("kw", "if"):
		type arm struct {
			c lexpr
			b lstmt
		}
		var arms []arm
		for {
			c := p.expr(0)
			p.exp("kw", "then")
			arms = append(arms, arm{c, p.block()})
			if p.acc("kw", "elseif") {
				continue
			}
			break
		}
		var els lstmt
		if p.acc("kw", "else") {
			els = p.block()
		}
		p.exp("kw", "end")
		return func(s *lscope, c *lctl) error {
			for _, a := range arms {
				v, err := a.c(s)
				if err != nil {
					return err
				}
				if truthy(first(v)) {
					return a.b(sub(s), c)
				}
			}
			if els != nil {
				return els(sub(s), c)
			}
			return nil
		}
	case p.acc("kw", "do"):
		b := p.block()
		p.exp("kw", "end")
		return func(s *lscope, c *lctl) error { return b(sub(s), c) }
	case p.acc("kw", "break"):
		return func(s *lscope, c *lctl) error { c.brk = true; return nil }
	case p.acc("kw", "while"):
		cnd := p.expr(0)
		p.exp("kw", "do")
		b := p.block()
		p.exp("kw", "end")
		return func(s *lscope, c *lctl) error {
			for {
				v, err := cnd(s)
				if err != nil || !truthy(first(v)) {
					return err
				}
				if *c.steps++; *c.steps > 100000 {
					return errors.New("BUSY script too long")
				}
				if err := b(sub(s), c); err != nil || c.ret {
					return err
				}
				if c.brk {
					c.brk = false
					return nil
				}
			}
		}
	case p.acc("kw", "for"):
		n := p.exp("n", "").v
		if p.acc("op", "=") {
			es := p.exprs()
			p.exp("kw", "do")
			b := p.block()
			p.exp("kw", "end")
			return func(s *lscope, c *lctl) error {
				v, err := evalAll(es, s)
				if err != nil {
					return err
				}
				if len(v) < 2 {
					return errors.New("ERR bad for")
				}
				a, ok1 := num(v[0])
				z, ok2 := num(v[1])
				st := 1.0
				if len(v) > 2 {
					st, _ = num(v[2])
				}
				if !ok1 || !ok2 || st == 0 {
					return errors.New("ERR 'for' limits must be numbers")
				}
				for i := a; st > 0 && i <= z || st < 0 && i >= z; i += st {
					if *c.steps++; *c.steps > 100000 {
						return errors.New("BUSY script too long")
					}
					q := sub(s)
					q.def(n, i)
					if err := b(q, c); err != nil || c.ret {
						return err
					}
					if c.brk {
						c.brk = false
						return nil
					}
				}
				return nil
			}
		}
		n2 := ""
		if p.acc("op", ",") {
			n2 = p.exp("n", "").v
		}
		p.exp("kw", "in")
		es := p.exprs() // ipairs(t) / pairs(t): our builtins return a marker table of pairs
		p.exp("kw", "do")
		b := p.block()
		p.exp("kw", "end")
		return func(s *lscope, c *lctl) error {
			v, err := evalAll(es, s)
			if err != nil {
				return err
			}
			t, ok := first(v).(*ltab)
			if !ok {
				return errors.New("ERR attempt to iterate")
			}
			for i, x := range t.arr {
				q := sub(s)
				q.def(n, float64(i+1))
				if n2 != "" {
					q.def(n2, x)
				}
				if err := b(q, c); err != nil || c.ret {
					return err
				}
				if c.brk {
					c.brk = false
					return nil
				}
			}
			return nil
		}
	case p.acc("kw", "function"):
		p.fail("global functions are not allowed in scripts")
	}
	// assignment or call
	e, set, isCall := p.suffixed()
	if p.is("op", "=") || p.is("op", ",") {
		sets := []func(*lscope, lval) error{set}
		for p.acc("op", ",") {
			_, s2, _ := p.suffixed()
			sets = append(sets, s2)
		}
		p.exp("op", "=")
		es := p.exprs()
		for _, f := range sets {
			if f == nil {
				p.fail("cannot assign")
			}
		}
		return func(s *lscope, c *lctl) error {
			v, err := evalAll(es, s)
			if err != nil {
				return err
			}
			for i, f := range sets {
				var x lval
				if i < len(v) {
					x = v[i]
				}
				if err := f(s, x); err != nil {
					return err
				}
			}
			return nil
		}
	}
	if !isCall {
		p.fail("syntax error near " + p.t[p.i].v)
	}
	return func(s *lscope, c *lctl) error { _, err := e(s); return err }
}

func (p *lparser) funcBody() lexpr {
	p.exp("op", "(")
	var ps []string
	for !p.acc("op", ")") {
		ps = append(ps, p.exp("n", "").v)
		p.acc("op", ",")
	}
	b := p.block()
	p.exp("kw", "end")
	return func(s *lscope) ([]lval, error) {
		return []lval{lfunc(func(args []lval) ([]lval, error) {
			q := sub(s)
			for i, n := range ps {
				if i < len(args) {
					q.def(n, args[i])
				} else {
					q.def(n, nil)
				}
			}
			st := 0
			c := &lctl{steps: &st}
			err := b(q, c)
			return c.vals, err
		})}, nil
	}
}

// suffixed parses a prefix expression with its indexings and calls.
func (p *lparser) suffixed() (lexpr, func(*lscope, lval) error, bool) {
	var e lexpr
	var set func(*lscope, lval) error
	call := false
	switch {
	case p.acc("op", "("):
		in := p.expr(0)
		p.exp("op", ")")
		e = func(s *lscope) ([]lval, error) {
			v, err := in(s)
			return []lval{first(v)}, err
		}
	case p.is("n", ""):
		n := p.exp("n", "").v
		e = func(s *lscope) ([]lval, error) {
			if v := s.find(n); v != nil {
				return []lval{*v}, nil
			}
			luaMissing(n)
			return nil, fmt.Errorf("ERR Script attempted to access nonexistent global variable '%s'", n)
		}
		set = func(s *lscope, v lval) error {
			if x := s.find(n); x != nil {
				*x = v
				return nil
			}
			return fmt.Errorf("ERR Script attempted to create global variable '%s'", n)
		}
	default:
		p.fail("unexpected symbol near " + p.t[p.i].v)
	}
	for {
		base := e
		switch {
		case p.is("op", ".") || p.is("op", "["):
			var ix lexpr
			if p.acc("op", ".") {
				n := p.exp("n", "").v
				ix = func(*lscope) ([]lval, error) { return []lval{n}, nil }
			} else {
				p.exp("op", "[")
				ix = p.expr(0)
				p.exp("op", "]")
			}
			tab := func(s *lscope) (*ltab, lval, error) {
				v, err := base(s)
				if err != nil {
					return nil, nil, err
				}
				k, err := ix(s)
				if err != nil {
					return nil, nil, err
				}
				t, ok := first(v).(*ltab)
				if !ok {
					return nil, nil, errors.New("ERR attempt to index a non-table value")
				}
				return t, first(k), nil
			}
			e = func(s *lscope) ([]lval, error) {
				t, k, err := tab(s)
				if err != nil {
					return nil, err
				}
				v := t.get(k)
				if v == nil && t.lib != "" {
					luaMissing(t.lib + "." + fmt.Sprint(k))
				}
				return []lval{v}, nil
			}
			set = func(s *lscope, v lval) error {
				t, k, err := tab(s)
				if err == nil {
					t.set(k, v)
				}
				return err
			}
			call = false
		case p.is("op", ":") && p.t[p.i+1].k == "n":
			p.exp("op", ":")
			n := p.exp("n", "").v
			p.exp("op", "(")
			var es []lexpr
			if !p.is("op", ")") {
				es = p.exprs()
			}
			p.exp("op", ")")
			e = func(s *lscope) ([]lval, error) {
				o, err := base(s)
				if err != nil {
					return nil, err
				}
				a, err := evalAll(es, s)
				if err != nil {
					return nil, err
				}
				t, ok := first(o).(*ltab)
				if _, isStr := first(o).(string); isStr {
					t, ok = (*s.find("string")).(*ltab)
				}
				if !ok {
					return nil, errors.New("ERR attempt to index a non-table value")
				}
				fn, ok := t.get(n).(lfunc)
				if !ok {
					if t.lib != "" {
						luaMissing(t.lib + "." + n)
					}
					return nil, errors.New("ERR attempt to call a nil value")
				}
				return fn(append([]lval{first(o)}, a...))
			}
			set = nil
			call = true
		case p.is("op", "(") || p.is("s", "") || p.is("op", "{"):
			var es []lexpr
			if p.acc("op", "(") {
				if !p.is("op", ")") {
					es = p.exprs()
				}
				p.exp("op", ")")
			} else {
				es = []lexpr{p.primary()}
			}
			e = func(s *lscope) ([]lval, error) {
				f, err := base(s)
				if err != nil {
					return nil, err
				}
				a, err := evalAll(es, s)
				if err != nil {
					return nil, err
				}
				fn, ok := first(f).(lfunc)
				if !ok {
					return nil, errors.New("ERR attempt to call a nil value")
				}
				return fn(a)
			}
			set = nil
			call = true
		default:
			return e, set, call
		}
	}
}

func constE(v lval) lexpr { return func(*lscope) ([]lval, error) { return []lval{v}, nil } }

func (p *lparser) primary() lexpr {
	switch {
	case p.is("#", ""):
		return constE(p.exp("#", "").f)
	case p.is("s", ""):
		return constE(p.exp("s", "").v)
	case p.acc("kw", "nil"):
		return constE(nil)
	case p.acc("kw", "true"):
		return constE(true)
	case p.acc("kw", "false"):
		return constE(false)
	case p.acc("kw", "function"):
		return p.funcBody()
	case p.acc("op", "{"):
		type ent struct{ k, v lexpr }
		var es []ent
		for !p.acc("op", "}") {
			switch {
			case p.acc("op", "["):
				k := p.expr(0)
				p.exp("op", "]")
				p.exp("op", "=")
				es = append(es, ent{k, p.expr(0)})
			case p.is("n", "") && p.t[p.i+1].k == "op" && p.t[p.i+1].v == "=":
				k := p.exp("n", "").v
				p.exp("op", "=")
				es = append(es, ent{constE(k), p.expr(0)})
			default:
				es = append(es, ent{nil, p.expr(0)})
			}
			if !p.acc("op", ",") {
				p.acc("op", ";")
			}
		}
		return func(s *lscope) ([]lval, error) {
			t := &ltab{}
			for _, e := range es {
				v, err := e.v(s)
				if err != nil {
					return nil, err
				}
				if e.k == nil {
					t.arr = append(t.arr, first(v))
					continue
				}
				k, err := e.k(s)
				if err != nil {
					return nil, err
				}
				t.set(first(k), first(v))
			}
			return []lval{t}, nil
		}
	}
	e, _, _ := p.suffixed()
	return e
}

var lprec = map[string]int{"or": 1, "and": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "~=": 3, "==": 3, "..": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6, "^": 8}

func (p *lparser) expr(min int) lexpr {
	var l lexpr
	switch {
	case p.acc("kw", "not"):
		e := p.expr(7)
		l = func(s *lscope) ([]lval, error) {
			v, err := e(s)
			return []lval{!truthy(first(v))}, err
		}
	case p.acc("op", "-"):
		e := p.expr(7)
		l = func(s *lscope) ([]lval, error) {
			v, err := e(s)
			if err != nil {
				return nil, err
			}
			f, ok := num(first(v))
			if !ok {
				return nil, errors.New("ERR attempt to perform arithmetic on a nil value")
			}
			return []lval{-f}, nil
		}
	case p.acc("op", "#"):
		e := p.expr(7)
		l = func(s *lscope) ([]lval, error) {
			v, err := e(s)
			if err != nil {
				return nil, err
			}
			switch x := first(v).(type) {
			case string:
				return []lval{float64(len(x))}, nil
			case *ltab:
				return []lval{float64(len(x.arr))}, nil
			}
			return nil, errors.New("ERR attempt to get length of a nil value")
		}
	default:
		l = p.primary()
	}
	for {
		t := p.t[p.i]
		pr := lprec[t.v]
		if (t.k != "op" && t.k != "kw") || pr == 0 || pr <= min && !(pr == min && (t.v == ".." || t.v == "^")) {
			return l
		}
		p.i++
		a, op := l, t.v
		b := p.expr(pr)
		l = func(s *lscope) ([]lval, error) {
			x, err := a(s)
			if err != nil {
				return nil, err
			}
			u := first(x)
			if op == "and" && !truthy(u) || op == "or" && truthy(u) {
				return []lval{u}, nil
			}
			y, err := b(s)
			if err != nil {
				return nil, err
			}
			v := first(y)
			switch op {
			case "and", "or":
				return []lval{v}, nil
			case "==":
				return []lval{u == v}, nil
			case "~=":
				return []lval{u != v}, nil
			case "..":
				s1, ok1 := lstr(u)
				s2, ok2 := lstr(v)
				if !ok1 || !ok2 {
					return nil, errors.New("ERR attempt to concatenate a nil value")
				}
				return []lval{s1 + s2}, nil
			case "<", ">", "<=", ">=":
				var c int
				f1, ok1 := u.(float64)
				f2, ok2 := v.(float64)
				s1, ok3 := u.(string)
				s2, ok4 := v.(string)
				switch {
				case ok1 && ok2:
					switch {
					case f1 < f2:
						c = -1
					case f1 > f2:
						c = 1
					}
				case ok3 && ok4:
					c = strings.Compare(s1, s2)
				default:
					return nil, fmt.Errorf("ERR attempt to compare %T with %T", u, v)
				}
				return []lval{op == "<" && c < 0 || op == ">" && c > 0 || op == "<=" && c <= 0 || op == ">=" && c >= 0}, nil
			}
			f1, ok1 := num(u)
			f2, ok2 := num(v)
			if !ok1 || !ok2 {
				return nil, errors.New("ERR attempt to perform arithmetic on a nil value")
			}
			switch op {
			case "+":
				return []lval{f1 + f2}, nil
			case "-":
				return []lval{f1 - f2}, nil
			case "*":
				return []lval{f1 * f2}, nil
			case "/":
				return []lval{f1 / f2}, nil
			case "%":
				return []lval{f1 - math.Floor(f1/f2)*f2}, nil
			case "^":
				return []lval{math.Pow(f1, f2)}, nil
			}
			return nil, errors.New("ERR operator")
		}
	}
}

func num(v lval) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case string:
		f, err := strconv.ParseFloat(strings.TrimSpace(x), 64)
		if err != nil {
			n, e := strconv.ParseInt(strings.TrimSpace(x), 0, 64)
			return float64(n), e == nil
		}
		return f, true
	}
	return 0, false
}

func lstr(v lval) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case float64:
		return strconv.FormatFloat(x, 'g', 14, 64), true
	}
	return "", false
}

// redisArg renders a Lua value as a command argument, as redis.call does.
func redisArg(v lval) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case float64:
		if x == math.Trunc(x) && math.Abs(x) < 1e18 {
			return strconv.FormatInt(int64(x), 10), true
		}
		return strconv.FormatFloat(x, 'g', 17, 64), true
	}
	return "", false
}

// toLua and fromLua convert between replies and Lua values.
func toLua(v any) lval {
	switch x := v.(type) {
	case nil:
		return false
	case int64:
		return float64(x)
	case string:
		return x
	case status:
		t := &ltab{}
		t.set("ok", string(x))
		return t
	case []any:
		t := &ltab{}
		for _, e := range x {
			t.arr = append(t.arr, toLua(e))
		}
		return t
	}
	return false
}

type status string

func fromLua(v lval) (any, error) {
	switch x := v.(type) {
	case nil:
		return nil, nil
	case bool:
		if x {
			return int64(1), nil
		}
		return nil, nil
	case float64:
		return int64(x), nil
	case string:
		return x, nil
	case *ltab:
		if e, ok := x.h["err"].(string); ok {
			return nil, errors.New(e)
		}
		if e, ok := x.h["ok"].(string); ok {
			return status(e), nil
		}
		out := []any{}
		for _, e := range x.arr {
			if e == nil {
				break
			}
			r, err := fromLua(e)
			if err != nil {
				return nil, err
			}
			out = append(out, r)
		}
		return out, nil
	}
	return nil, nil
}

var luaCache = map[string]lstmt{}

// luaRun executes a script; call performs a redis command.
func luaRun(body lstmt, keys, argv []string, call func(args []string) (any, error)) (any, error) {
	g := sub(nil)
	mk := func(xs []string) *ltab {
		t := &ltab{}
		for _, x := range xs {
			t.arr = append(t.arr, x)
		}
		return t
	}
	g.def("KEYS", mk(keys))
	g.def("ARGV", mk(argv))
	do := func(args []lval) (any, error) {
		var as []string
		for _, a := range args {
			s, ok := redisArg(a)
			if !ok {
				return nil, errors.New("ERR Lua redis lib command arguments must be strings or integers")
			}
			as = append(as, s)
		}
		return call(as)
	}
	r := &ltab{}
	r.set("call", lfunc(func(a []lval) ([]lval, error) {
		v, err := do(a)
		return []lval{toLua(v)}, err
	}))
	r.set("pcall", lfunc(func(a []lval) ([]lval, error) {
		v, err := do(a)
		if err != nil {
			t := &ltab{}
			t.set("err", err.Error())
			return []lval{t}, nil
		}
		return []lval{toLua(v)}, nil
	}))
	mkst := func(f string) lfunc {
		return func(a []lval) ([]lval, error) {
			t := &ltab{}
			s, _ := lstr(first(a))
			t.set(f, s)
			return []lval{t}, nil
		}
	}
	r.set("status_reply", mkst("ok"))
	r.set("error_reply", mkst("err"))
	nop := lfunc(func([]lval) ([]lval, error) { return nil, nil })
	r.set("log", nop)
	r.set("replicate_commands", nop)
	r.set("LOG_NOTICE", 2.0)
	r.set("LOG_WARNING", 3.0)
	g.def("redis", r)
	g.def("tonumber", lfunc(func(a []lval) ([]lval, error) {
		if f, ok := num(first(a)); ok {
			return []lval{f}, nil
		}
		return []lval{nil}, nil
	}))
	g.def("tostring", lfunc(func(a []lval) ([]lval, error) {
		switch x := first(a).(type) {
		case nil:
			return []lval{"nil"}, nil
		case bool:
			return []lval{fmt.Sprint(x)}, nil
		}
		s, _ := lstr(first(a))
		return []lval{s}, nil
	}))
	g.def("type", lfunc(func(a []lval) ([]lval, error) {
		n := "nil"
		switch first(a).(type) {
		case bool:
			n = "boolean"
		case float64:
			n = "number"
		case string:
			n = "string"
		case *ltab:
			n = "table"
		case lfunc:
			n = "function"
		}
		return []lval{n}, nil
	}))
	ident := lfunc(func(a []lval) ([]lval, error) { return []lval{first(a)}, nil })
	g.def("ipairs", ident)
	g.def("pairs", ident)
	m := &ltab{}
	f1 := func(f func(float64) float64) lfunc {
		return func(a []lval) ([]lval, error) {
			x, _ := num(first(a))
			return []lval{f(x)}, nil
		}
	}
	m.set("floor", f1(math.Floor))
	m.set("ceil", f1(math.Ceil))
	m.set("abs", f1(math.Abs))
	mm := func(pick func(a, b float64) float64) lfunc {
		return func(a []lval) ([]lval, error) {
			x, _ := num(first(a))
			for _, v := range a {
				y, _ := num(v)
				x = pick(x, y)
			}
			return []lval{x}, nil
		}
	}
	m.set("max", mm(math.Max))
	m.set("min", mm(math.Min))
	g.def("math", m)
	luaLibs(g, m)
	st := 0
	c := &lctl{steps: &st}
	if err := body(g, c); err != nil {
		return nil, err
	}
	return fromLua(first(c.vals))
}

// luaMissing ends the check when a script uses something real Redis has and this interpreter has not.
func luaMissing(n string) {
	b, f, isLib := strings.Cut(n, ".")
	var has string
	switch b {
	case "math":
		has = "acos asin atan atan2 cos cosh deg exp fmod frexp ldexp log log10 modf pi pow rad random randomseed sin sinh sqrt tan tanh huge"
	case "string":
		has = "byte char dump find gmatch gsub match reverse"
	case "table":
		has = "foreach foreachi getn maxn setn sort"
	case "redis":
		has = "sha1hex setresp breakpoint debug set_repl acl_check_cmd REDIS_VERSION REDIS_VERSION_NUM LOG_DEBUG LOG_VERBOSE REPL_ALL REPL_NONE REPL_AOF REPL_SLAVE REPL_REPLICA"
	}
	if !isLib {
		has, f = "cjson cmsgpack bit struct os rawget rawset rawequal rawlen getmetatable setmetatable loadstring load xpcall getfenv setfenv collectgarbage gcinfo newproxy _G _VERSION", b
	}
	for _, x := range strings.Fields(has) {
		if x == f {
			unsupported("Lua: " + n)
		}
	}
}

func luaLibs(g *lscope, m *ltab) {
	m.lib = "math"
	str := func(a []lval, i int) string {
		if i < len(a) {
			s, _ := lstr(a[i])
			return s
		}
		return ""
	}
	n := func(a []lval, i int, d float64) float64 {
		if i < len(a) {
			if f, ok := num(a[i]); ok {
				return f
			}
		}
		return d
	}
	one := func(f func(a []lval) lval) lfunc { return func(a []lval) ([]lval, error) { return []lval{f(a)}, nil } }
	s := &ltab{lib: "string"}
	s.set("len", one(func(a []lval) lval { return float64(len(str(a, 0))) }))
	s.set("lower", one(func(a []lval) lval { return strings.ToLower(str(a, 0)) }))
	s.set("upper", one(func(a []lval) lval { return strings.ToUpper(str(a, 0)) }))
	s.set("rep", one(func(a []lval) lval { return strings.Repeat(str(a, 0), max(0, int(n(a, 1, 0)))) }))
	s.set("sub", one(func(a []lval) lval {
		x := str(a, 0)
		i, j := int(n(a, 1, 1)), int(n(a, 2, -1))
		if i < 0 {
			i = max(1, len(x)+i+1)
		}
		if j < 0 {
			j = len(x) + j + 1
		}
		i, j = max(1, i), min(j, len(x))
		if i > j {
			return ""
		}
		return x[i-1 : j]
	}))
	s.set("format", lfunc(func(a []lval) ([]lval, error) {
		f, out, k := str(a, 0), "", 1
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				out += f[i : i+1]
				continue
			}
			j := i + 1
			for j < len(f) && strings.IndexByte("-+ #.0123456789", f[j]) >= 0 {
				j++
			}
			if j >= len(f) {
				return nil, errors.New("ERR invalid option to 'format'")
			}
			spec := f[i:j]
			switch f[j] {
			case '%':
				out += "%"
				k--
			case 'd', 'i':
				x, ok := num(lnth(a, k))
				if !ok {
					return nil, errors.New("ERR bad argument to 'format' (number expected)")
				}
				out += fmt.Sprintf(spec+"d", int64(x))
			case 'f', 'g', 'e', 'x', 'X':
				x, ok := num(lnth(a, k))
				if !ok {
					return nil, errors.New("ERR bad argument to 'format' (number expected)")
				}
				if f[j] == 'x' || f[j] == 'X' {
					out += fmt.Sprintf(spec+f[j:j+1], int64(x))
				} else {
					out += fmt.Sprintf(spec+f[j:j+1], x)
				}
			case 's':
				x, ok := lstr(lnth(a, k))
				if !ok {
					return nil, errors.New("ERR bad argument to 'format' (string expected)")
				}
				out += fmt.Sprintf(spec+"s", x)
			default:
				unsupported("Lua: string.format " + f[i:j+1])
			}
			k++
			i = j
		}
		return []lval{out}, nil
	}))
	g.def("string", s)
	t := &ltab{lib: "table"}
	tab := func(a []lval) *ltab {
		x, _ := first(a).(*ltab)
		if x == nil {
			x = &ltab{}
		}
		return x
	}
	t.set("insert", lfunc(func(a []lval) ([]lval, error) {
		x := tab(a)
		if len(a) >= 3 {
			i := min(max(1, int(n(a, 1, 1))), len(x.arr)+1)
			x.arr = append(x.arr[:i-1], append([]lval{a[2]}, x.arr[i-1:]...)...)
		} else {
			x.arr = append(x.arr, lnth(a, 1))
		}
		return nil, nil
	}))
	t.set("remove", lfunc(func(a []lval) ([]lval, error) {
		x := tab(a)
		i := int(n(a, 1, float64(len(x.arr))))
		if i < 1 || i > len(x.arr) {
			return []lval{nil}, nil
		}
		v := x.arr[i-1]
		x.arr = append(x.arr[:i-1], x.arr[i:]...)
		return []lval{v}, nil
	}))
	t.set("concat", lfunc(func(a []lval) ([]lval, error) {
		var ss []string
		for _, v := range tab(a).arr {
			x, ok := lstr(v)
			if !ok {
				return nil, errors.New("ERR invalid value in table for 'concat'")
			}
			ss = append(ss, x)
		}
		return []lval{strings.Join(ss, str(a, 1))}, nil
	}))
	unpack := lfunc(func(a []lval) ([]lval, error) {
		x := tab(a)
		i, j := int(n(a, 1, 1)), int(n(a, 2, float64(len(x.arr))))
		var out []lval
		for ; i <= j; i++ {
			out = append(out, x.get(float64(i)))
		}
		return out, nil
	})
	t.set("unpack", unpack)
	g.def("unpack", unpack)
	g.def("table", t)
	g.def("assert", lfunc(func(a []lval) ([]lval, error) {
		if !truthy(first(a)) {
			return nil, errors.New("ERR assertion failed " + str(a, 1))
		}
		return a, nil
	}))
	g.def("error", lfunc(func(a []lval) ([]lval, error) {
		if x, ok := first(a).(*ltab); ok {
			e, _ := lstr(x.get("err"))
			return nil, errors.New(e)
		}
		return nil, errors.New("ERR " + str(a, 0))
	}))
	g.def("pcall", lfunc(func(a []lval) ([]lval, error) {
		f, ok := first(a).(lfunc)
		if !ok {
			return []lval{false, "attempt to call a nil value"}, nil
		}
		v, err := f(a[1:])
		if err != nil {
			return []lval{false, err.Error()}, nil
		}
		return append([]lval{true}, v...), nil
	}))
	g.def("select", lfunc(func(a []lval) ([]lval, error) {
		if first(a) == "#" {
			return []lval{float64(len(a) - 1)}, nil
		}
		i := int(n(a, 0, 1))
		if i < 1 || i >= len(a) {
			return nil, nil
		}
		return a[i:], nil
	}))
}

func lnth(a []lval, i int) lval {
	if i < len(a) {
		return a[i]
	}
	return nil
}
