package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
)

// A small SQL, enough to run what a Go service would send to the two tables of
// the Postgres adapter.

type sqlVal = any // nil, int64, string, bool, float64

type sqlTok struct {
	k string // id num str par op eof
	v string
	n int64
}

type sqlSyntax struct{ m string }

func sqlLex(s string) ([]sqlTok, error) {
	var ts []sqlTok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == ';':
			i++
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			e := strings.Index(s[i:], "*/")
			if e < 0 {
				return nil, errors.New("unterminated comment")
			}
			i += e + 2
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			n, _ := strconv.ParseInt(s[i:j], 10, 64)
			ts = append(ts, sqlTok{k: "num", n: n})
			i = j
		case c == '$':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			n, _ := strconv.ParseInt(s[i+1:j], 10, 64)
			ts = append(ts, sqlTok{k: "par", n: n})
			i = j
		case c == '\'':
			j := i + 1
			var b strings.Builder
			for j < len(s) {
				if s[j] == '\'' {
					if j+1 < len(s) && s[j+1] == '\'' {
						b.WriteByte('\'')
						j += 2
						continue
					}
					break
				}
				b.WriteByte(s[j])
				j++
			}
			ts = append(ts, sqlTok{k: "str", v: b.String()})
			i = j + 1
		case c == '"':
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 {
				return nil, errors.New("unterminated identifier")
			}
			ts = append(ts, sqlTok{k: "id", v: s[i+1 : i+1+j]})
			i += j + 2
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			ts = append(ts, sqlTok{k: "id", v: strings.ToLower(s[i:j])})
			i = j
		default:
			op := string(c)
			for _, o := range []string{"<>", "!=", "<=", ">=", "::", "||"} {
				if strings.HasPrefix(s[i:], o) {
					op = o
				}
			}
			if !strings.Contains("<>!=:|+-*/%(),.", op[:1]) {
				return nil, fmt.Errorf("unexpected character %q", c)
			}
			ts = append(ts, sqlTok{k: "op", v: op})
			i += len(op)
		}
	}
	return append(ts, sqlTok{k: "eof"}), nil
}

type sqlEnv struct {
	rows map[string]map[string]sqlVal // alias -> row
	par  []sqlVal
	run  *sqlRun
	agg  []map[string]map[string]sqlVal // rows of the group, for aggregates
}

type sqlRun struct {
	tx  *pgTx
	cte map[string][]map[string]sqlVal
}

type sqlExpr func(e *sqlEnv) (sqlVal, error)

type sqlStmt struct {
	kind   string // insert update delete select noop
	table  string
	alias  string
	from   string // second table (UPDATE ... FROM, INSERT ... SELECT FROM)
	fromAs string
	cols   []string
	values [][]sqlExpr // insert values
	sel    []sqlExpr   // select list (also INSERT ... SELECT)
	selN   []string
	selAgg bool
	set    []sqlExpr
	where  sqlExpr
	confl  string // "", "nothing", "update"
	ctgt   []string
	cset   []sqlExpr
	ccols  []string
	cwhere sqlExpr
	ret    []sqlExpr
	retN   []string
	lock   bool
	ctes   []struct {
		n string
		s *sqlStmt
	}
	params int
}

type sqlParser struct {
	t   []sqlTok
	i   int
	max int
}

func (p *sqlParser) fail(m string) {
	panic(sqlSyntax{fmt.Sprintf("syntax error: %s near %q", m, p.t[p.i].v)})
}
func (p *sqlParser) id(v string) bool { return p.t[p.i].k == "id" && p.t[p.i].v == v }
func (p *sqlParser) op(v string) bool { return p.t[p.i].k == "op" && p.t[p.i].v == v }
func (p *sqlParser) kw(vs ...string) bool {
	for j, v := range vs {
		if p.i+j >= len(p.t) || p.t[p.i+j].k != "id" || p.t[p.i+j].v != v {
			return false
		}
	}
	p.i += len(vs)
	return true
}
func (p *sqlParser) o(v string) bool {
	if p.op(v) {
		p.i++
		return true
	}
	return false
}
func (p *sqlParser) want(v string) {
	if !p.o(v) && !p.kw(v) {
		p.fail("expected " + v)
	}
}
func (p *sqlParser) name() string {
	if p.t[p.i].k != "id" {
		p.fail("expected a name")
	}
	p.i++
	n := p.t[p.i-1].v
	if p.op(".") && n == "public" {
		p.i++
		return p.name()
	}
	return n
}

var sqlCache = map[string]*sqlStmt{}

func sqlParse(src string) (st *sqlStmt, err error) {
	if s := sqlCache[src]; s != nil {
		return s, nil
	}
	ts, err := sqlLex(src)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(sqlSyntax)
			if !ok {
				panic(r)
			}
			st, err = nil, errors.New(s.m)
		}
	}()
	p := &sqlParser{t: ts}
	st = p.stmt()
	if p.t[p.i].k != "eof" {
		p.fail("trailing input")
	}
	st.params = p.max
	sqlCache[src] = st
	return st, nil
}

func (p *sqlParser) stmt() *sqlStmt {
	s := &sqlStmt{}
	if p.kw("with") {
		for {
			n := p.name()
			p.want("as")
			p.want("(")
			c := p.stmt()
			p.want(")")
			s.ctes = append(s.ctes, struct {
				n string
				s *sqlStmt
			}{n, c})
			if !p.o(",") {
				break
			}
		}
	}
	switch {
	case p.kw("set"), p.kw("create"), p.kw("lock"), p.kw("savepoint"), p.kw("release"):
		s.kind = "noop"
		for p.t[p.i].k != "eof" {
			p.i++
		}
	case p.kw("insert"):
		s.kind = "insert"
		p.want("into")
		s.table = p.name()
		s.alias = s.table
		if p.kw("as") {
			s.alias = p.name()
		}
		p.want("(")
		for {
			s.cols = append(s.cols, p.name())
			if !p.o(",") {
				break
			}
		}
		p.want(")")
		if p.kw("values") {
			for {
				p.want("(")
				var vs []sqlExpr
				for {
					vs = append(vs, p.expr(0))
					if !p.o(",") {
						break
					}
				}
				p.want(")")
				if len(vs) != len(s.cols) {
					p.fail("INSERT has a different number of expressions and columns")
				}
				s.values = append(s.values, vs)
				if !p.o(",") {
					break
				}
			}
		} else {
			p.want("select")
			p.selectTail(s)
		}
		if p.kw("on", "conflict") {
			if p.o("(") {
				for {
					s.ctgt = append(s.ctgt, p.name())
					if !p.o(",") {
						break
					}
				}
				p.want(")")
			} else if p.kw("on", "constraint") {
				p.name()
			}
			p.want("do")
			if p.kw("nothing") {
				s.confl = "nothing"
			} else {
				p.want("update")
				p.want("set")
				s.confl = "update"
				s.ccols, s.cset = p.sets()
				if p.kw("where") {
					s.cwhere = p.expr(0)
				}
			}
		}
		p.returning(s)
	case p.kw("update"):
		s.kind = "update"
		s.table = p.name()
		s.alias = s.table
		if p.kw("as") {
			s.alias = p.name()
		} else if p.t[p.i].k == "id" && !p.id("set") {
			s.alias = p.name()
		}
		p.want("set")
		s.cols, s.set = p.sets()
		if p.kw("from") {
			s.from = p.name()
			s.fromAs = s.from
			if p.t[p.i].k == "id" && !p.id("where") && !p.id("returning") {
				p.kw("as")
				s.fromAs = p.name()
			}
		}
		if p.kw("where") {
			s.where = p.expr(0)
		}
		p.returning(s)
	case p.kw("delete"):
		s.kind = "delete"
		p.want("from")
		s.table = p.name()
		s.alias = s.table
		if p.kw("where") {
			s.where = p.expr(0)
		}
		p.returning(s)
	case p.kw("select"):
		s.kind = "select"
		p.selectTail(s)
		for {
			if p.kw("for", "update") || p.kw("for", "no", "key", "update") || p.kw("for", "share") {
				s.lock = true
			} else if p.kw("limit") {
				p.expr(0)
			} else if p.kw("order", "by") {
				p.expr(0)
				if !p.kw("asc") {
					p.kw("desc")
				}
			} else {
				break
			}
		}
	default:
		p.fail("unsupported statement")
	}
	return s
}

func (p *sqlParser) returning(s *sqlStmt) {
	if p.kw("returning") {
		s.ret, s.retN = p.list()
	}
}

func (p *sqlParser) list() (es []sqlExpr, ns []string) {
	for {
		n := fmt.Sprintf("col%d", len(ns))
		if p.op("*") {
			p.i++
			es, ns = append(es, nil), append(ns, "*")
		} else {
			if p.t[p.i].k == "id" {
				n = p.t[p.i].v
			}
			es = append(es, p.expr(0))
			if p.kw("as") {
				n = p.name()
			}
			ns = append(ns, n)
		}
		if !p.o(",") {
			return
		}
	}
}

func (p *sqlParser) selectTail(s *sqlStmt) {
	start := p.i
	s.sel, s.selN = p.list()
	for _, t := range p.t[start:p.i] {
		if t.k == "id" && (t.v == "count" || t.v == "sum" || t.v == "max" || t.v == "min") {
			s.selAgg = true
		}
	}
	if p.kw("from") {
		s.from = p.name()
		s.fromAs = s.from
		if p.kw("as") {
			s.fromAs = p.name()
		} else if p.t[p.i].k == "id" && !strings.Contains(" where for limit order returning on ", " "+p.t[p.i].v+" ") {
			s.fromAs = p.name()
		}
	}
	if p.kw("where") {
		s.where = p.expr(0)
	}
}

func (p *sqlParser) sets() (cols []string, es []sqlExpr) {
	for {
		cols = append(cols, p.name())
		p.want("=")
		es = append(es, p.expr(0))
		if !p.o(",") {
			return
		}
	}
}

// precedence: or 1, and 2, not 3, is/comparison 4, + - || 5, * / % 6
func (p *sqlParser) expr(min int) sqlExpr {
	var l sqlExpr
	switch {
	case p.kw("not"):
		e := p.expr(3)
		l = func(v *sqlEnv) (sqlVal, error) {
			x, err := e(v)
			if x == nil || err != nil {
				return nil, err
			}
			b, _ := x.(bool)
			return !b, nil
		}
	case p.o("-"):
		e := p.expr(7)
		l = func(v *sqlEnv) (sqlVal, error) {
			x, err := e(v)
			if n, ok := x.(int64); ok {
				return -n, err
			}
			return nil, err
		}
	default:
		l = p.primary()
	}
	for {
		for p.o("::") {
			p.name()
		}
		t := p.t[p.i]
		pr := 0
		switch {
		case t.k == "id" && t.v == "or":
			pr = 1
		case t.k == "id" && t.v == "and":
			pr = 2
		case t.k == "id" && (t.v == "is" || t.v == "in" || t.v == "between"):
			pr = 4
		case t.k == "op" && strings.Contains(" = <> != < > <= >= ", " "+t.v+" "):
			pr = 4
		case t.k == "op" && (t.v == "+" || t.v == "-" || t.v == "||"):
			pr = 5
		case t.k == "op" && (t.v == "*" || t.v == "/" || t.v == "%"):
			pr = 6
		}
		if pr == 0 || pr <= min {
			return l
		}
		p.i++
		a := l
		if t.v == "is" {
			not := p.kw("not")
			if p.kw("distinct", "from") {
				b := p.expr(pr)
				l = func(v *sqlEnv) (sqlVal, error) {
					x, err := a(v)
					if err != nil {
						return nil, err
					}
					y, err := b(v)
					return (x != y) != not, err
				}
				continue
			}
			p.want("null")
			l = func(v *sqlEnv) (sqlVal, error) {
				x, err := a(v)
				return (x == nil) != not, err
			}
			continue
		}
		if t.v == "in" {
			p.want("(")
			var es []sqlExpr
			var q *sqlStmt
			if p.id("select") {
				q = p.stmt()
			} else {
				for {
					es = append(es, p.expr(0))
					if !p.o(",") {
						break
					}
				}
			}
			p.want(")")
			l = func(v *sqlEnv) (sqlVal, error) {
				x, err := a(v)
				if err != nil {
					return nil, err
				}
				if q != nil {
					rows, err := v.run.query(q, v)
					for _, r := range rows {
						if r[0] == x {
							return true, err
						}
					}
					return false, err
				}
				for _, e := range es {
					y, err := e(v)
					if err != nil {
						return nil, err
					}
					if x == y {
						return true, nil
					}
				}
				return false, nil
			}
			continue
		}
		b := p.expr(pr)
		op := t.v
		l = func(v *sqlEnv) (sqlVal, error) {
			x, err := a(v)
			if err != nil {
				return nil, err
			}
			if op == "and" && x == false || op == "or" && x == true {
				return x, nil
			}
			y, err := b(v)
			if err != nil {
				return nil, err
			}
			switch op {
			case "and":
				if y == false {
					return false, nil
				}
				if x == nil || y == nil {
					return nil, nil
				}
				return true, nil
			case "or":
				if y == true {
					return true, nil
				}
				if x == nil || y == nil {
					return nil, nil
				}
				return false, nil
			}
			if x == nil || y == nil {
				return nil, nil
			}
			n, ok1 := x.(int64)
			m, ok2 := y.(int64)
			if op == "||" {
				return fmt.Sprint(x) + fmt.Sprint(y), nil
			}
			if ok1 && ok2 {
				switch op {
				case "+":
					return n + m, nil
				case "-":
					return n - m, nil
				case "*":
					return n * m, nil
				case "/", "%":
					if m == 0 {
						return nil, errors.New("division by zero")
					}
					if op == "/" {
						return n / m, nil
					}
					return n % m, nil
				case "<":
					return n < m, nil
				case ">":
					return n > m, nil
				case "<=":
					return n <= m, nil
				case ">=":
					return n >= m, nil
				}
			}
			switch op {
			case "=":
				return x == y, nil
			case "<>", "!=":
				return x != y, nil
			}
			return nil, fmt.Errorf("operator does not exist: %T %s %T", x, op, y)
		}
	}
}

func (p *sqlParser) primary() sqlExpr {
	t := p.t[p.i]
	switch {
	case t.k == "num":
		p.i++
		return func(*sqlEnv) (sqlVal, error) { return t.n, nil }
	case t.k == "str":
		p.i++
		return func(*sqlEnv) (sqlVal, error) { return t.v, nil }
	case t.k == "par":
		p.i++
		p.max = max(p.max, int(t.n))
		return func(e *sqlEnv) (sqlVal, error) {
			if int(t.n) > len(e.par) || t.n < 1 {
				return nil, fmt.Errorf("there is no parameter $%d", t.n)
			}
			return e.par[t.n-1], nil
		}
	case p.o("("):
		if p.id("select") {
			q := p.stmt()
			p.want(")")
			return func(e *sqlEnv) (sqlVal, error) {
				rows, err := e.run.query(q, e)
				if err != nil || len(rows) == 0 {
					return nil, err
				}
				return rows[0][0], nil
			}
		}
		e := p.expr(0)
		p.want(")")
		return e
	case p.kw("null"):
		return func(*sqlEnv) (sqlVal, error) { return nil, nil }
	case p.kw("true"):
		return func(*sqlEnv) (sqlVal, error) { return true, nil }
	case p.kw("false"):
		return func(*sqlEnv) (sqlVal, error) { return false, nil }
	case p.kw("exists"):
		p.want("(")
		q := p.stmt()
		p.want(")")
		return func(e *sqlEnv) (sqlVal, error) {
			rows, err := e.run.query(q, e)
			return len(rows) > 0, err
		}
	case p.kw("cast"):
		p.want("(")
		e := p.expr(0)
		p.want("as")
		p.name()
		p.want(")")
		return e
	case p.kw("case"):
		type arm struct{ c, v sqlExpr }
		var arms []arm
		for p.kw("when") {
			c := p.expr(0)
			p.want("then")
			arms = append(arms, arm{c, p.expr(0)})
		}
		var els sqlExpr
		if p.kw("else") {
			els = p.expr(0)
		}
		p.want("end")
		return func(e *sqlEnv) (sqlVal, error) {
			for _, a := range arms {
				v, err := a.c(e)
				if err != nil {
					return nil, err
				}
				if v == true {
					return a.v(e)
				}
			}
			if els != nil {
				return els(e)
			}
			return nil, nil
		}
	case t.k == "id":
		n := p.name()
		if p.o("(") {
			star := p.o("*")
			var as []sqlExpr
			for !p.o(")") {
				as = append(as, p.expr(0))
				p.o(",")
			}
			return sqlFunc(p, n, as, star)
		}
		if p.o(".") {
			c := p.name()
			return func(e *sqlEnv) (sqlVal, error) {
				r, ok := e.rows[n]
				if !ok {
					return nil, fmt.Errorf("missing FROM-clause entry for table %q", n)
				}
				v, ok := r[c]
				if !ok {
					return nil, fmt.Errorf("column %s.%s does not exist", n, c)
				}
				return v, nil
			}
		}
		if n == "current_timestamp" {
			return func(*sqlEnv) (sqlVal, error) { return int64(0), nil }
		}
		return func(e *sqlEnv) (sqlVal, error) {
			var got sqlVal
			found := 0
			for a, r := range e.rows {
				if v, ok := r[n]; ok && a != "excluded" {
					got = v
					found++
				}
			}
			if found == 0 {
				return nil, fmt.Errorf("column %q does not exist", n)
			}
			if found > 1 {
				return nil, fmt.Errorf("column reference %q is ambiguous", n)
			}
			return got, nil
		}
	}
	p.fail("unexpected token")
	return nil
}

func sqlFunc(p *sqlParser, n string, as []sqlExpr, star bool) sqlExpr {
	switch n {
	case "now", "clock_timestamp", "statement_timestamp":
		return func(*sqlEnv) (sqlVal, error) { return int64(0), nil }
	case "coalesce", "greatest", "least", "nullif", "abs":
		return func(e *sqlEnv) (sqlVal, error) {
			var best sqlVal
			for i, a := range as {
				v, err := a(e)
				if err != nil {
					return nil, err
				}
				switch n {
				case "abs":
					x, _ := v.(int64)
					return iabs(x), nil
				case "coalesce":
					if v != nil {
						return v, nil
					}
				case "nullif":
					if i == 0 {
						best = v
					} else if best == v {
						return nil, nil
					}
				default:
					if v == nil {
						continue
					}
					x, ok := v.(int64)
					if !ok {
						return nil, fmt.Errorf("%s: not a number", n)
					}
					if best == nil || n == "greatest" && x > best.(int64) || n == "least" && x < best.(int64) {
						best = x
					}
				}
			}
			return best, nil
		}
	case "count", "sum", "max", "min":
		return func(e *sqlEnv) (sqlVal, error) {
			if n == "count" && star {
				return int64(len(e.agg)), nil
			}
			var acc sqlVal
			c := int64(0)
			for _, rows := range e.agg {
				v, err := as[0](&sqlEnv{rows: rows, par: e.par, run: e.run})
				if err != nil {
					return nil, err
				}
				x, ok := v.(int64)
				if v == nil {
					continue
				}
				c++
				if !ok {
					continue
				}
				y, has := acc.(int64)
				switch {
				case !has:
					acc = x
				case n == "sum":
					acc = y + x
				case n == "max":
					acc = max(x, y)
				case n == "min":
					acc = min(x, y)
				}
			}
			if n == "count" {
				return c, nil
			}
			return acc, nil
		}
	}
	p.fail("function " + n + " does not exist")
	return nil
}
