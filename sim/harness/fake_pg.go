package main

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"sort"

	"vsa/zsim/rt"
	sql "vsa/zsim/zstd/database/sql"
)

// fakePG is the simulated Postgres server: two tables, READ COMMITTED
// transactions with row locks, unique-key waits, deadlock detection and
// ambiguous commits. It survives the clients' crashes and its own restarts
// with the committed rows only.
type fakePG struct {
	tabs     map[string]*pgTable
	txs      map[*pgTx]bool
	onCommit func()
	ncommit  int
	stall    bool // a COMMIT may stay unanswered past the caller's deadline
	unsup    string
}

type pgTable struct {
	name  string
	cols  []string
	pk    string
	nn    map[string]bool
	rows  map[string]*pgRow
	order []string
}

type pgRow struct {
	val  map[string]sqlVal // committed, nil: none
	pend map[string]sqlVal // uncommitted, nil with lock set and mod: deleted
	mod  bool
	lock *pgTx
}

type pgTx struct {
	f       *fakePG
	rows    []*pgRow
	aborted bool
	done    bool
	wait    *pgTx
	proc    *rt.Proc
	ro      bool
}

type pgErr struct{ code, msg string }

func (e *pgErr) Error() string { return "pq: " + e.msg }

func newFakePG() *fakePG {
	f := &fakePG{tabs: map[string]*pgTable{}, txs: map[*pgTx]bool{}}
	f.tabs["counters"] = &pgTable{name: "counters", cols: []string{"key", "scalar", "last_token"}, pk: "key", nn: map[string]bool{"key": true, "scalar": true}, rows: map[string]*pgRow{}}
	f.tabs["applied_commits"] = &pgTable{name: "applied_commits", cols: []string{"commit_id", "key", "vc", "ts"}, pk: "commit_id", nn: map[string]bool{"commit_id": true, "key": true, "vc": true}, rows: map[string]*pgRow{}}
	return f
}

func (f *fakePG) put(tab, key string, row map[string]sqlVal) {
	t := f.tabs[tab]
	t.rows[key] = &pgRow{val: row}
	t.order = append(t.order, key)
}

func (f *fakePG) committed(tab, key string) map[string]sqlVal {
	if r := f.tabs[tab].rows[key]; r != nil {
		return r.val
	}
	return nil
}

func (t *pgTx) vis(r *pgRow) map[string]sqlVal {
	if r.lock == t && r.mod {
		return r.pend
	}
	return r.val
}

func (t *pgTx) end(commit bool) {
	if t.done {
		return
	}
	t.done = true
	for _, r := range t.rows {
		if commit && r.mod {
			r.val = r.pend
		}
		r.pend, r.mod, r.lock = nil, false, nil
	}
	delete(t.f.txs, t)
	if commit {
		t.f.ncommit++
		if t.f.onCommit != nil {
			t.f.onCommit()
		}
	}
}

// lockRow takes the row's lock for t, waiting for its holder.
func (t *pgTx) lockRow(ctx context.Context, r *pgRow) error {
	for r.lock != nil && r.lock != t {
		if err := t.waitFor(ctx, r.lock); err != nil {
			return err
		}
	}
	if r.lock == nil {
		r.lock = t
		t.rows = append(t.rows, r)
	}
	return nil
}

func (t *pgTx) waitFor(ctx context.Context, h *pgTx) error {
	for c := h; c != nil; c = c.wait {
		if c == t {
			rt.Probe("pg-deadlock")
			return &pgErr{"40P01", "deadlock detected"}
		}
	}
	rt.Probe("pg-lock-wait")
	t.wait = h
	defer func() { t.wait = nil }()
	for !h.done {
		if err := ctxErr(ctx); err != nil {
			return err
		}
		if t.done {
			return errPGGone
		}
		rt.Poll(1e9, 100_000, func() bool { return h.done || t.done || ctxErr(ctx) != nil })
	}
	if t.done {
		return errPGGone
	}
	return nil
}

var errPGGone = &pgErr{"57P01", "terminating connection due to administrator command"}

func (t *pgTx) set(r *pgRow, v map[string]sqlVal) { r.pend, r.mod = v, true }

type pgRes struct {
	n    int64
	cols []string
	rows [][]sqlVal
}

func (t *pgTx) run(ctx context.Context, q string, par []sqlVal) (*pgRes, error) {
	st, err := sqlParse(q)
	if err != nil {
		t.f.unsup = q + ": " + err.Error()
		return nil, &pgErr{"42601", err.Error()}
	}
	if len(par) != st.params {
		return nil, fmt.Errorf("pq: got %d parameters but the statement requires %d", len(par), st.params)
	}
	x := &sqlRun{tx: t, cte: map[string][]map[string]sqlVal{}}
	return x.exec(ctx, st, par)
}

func (x *sqlRun) exec(ctx context.Context, st *sqlStmt, par []sqlVal) (*pgRes, error) {
	t := x.tx
	for _, c := range st.ctes {
		r, err := x.exec(ctx, c.s, par)
		if err != nil {
			return nil, err
		}
		var rows []map[string]sqlVal
		for _, v := range r.rows {
			m := map[string]sqlVal{}
			for i, n := range r.cols {
				m[n] = v[i]
			}
			rows = append(rows, m)
		}
		x.cte[c.n] = rows
	}
	env := func(rows map[string]map[string]sqlVal) *sqlEnv { return &sqlEnv{rows: rows, par: par, run: x} }
	res := &pgRes{}
	ret := func(alias string, row map[string]sqlVal, more map[string]map[string]sqlVal) error {
		res.n++
		if len(st.ret) == 0 {
			return nil
		}
		rows := map[string]map[string]sqlVal{alias: row}
		for k, v := range more {
			rows[k] = v
		}
		vs, ns, err := x.project(st.ret, st.retN, env(rows), alias)
		res.cols = ns
		res.rows = append(res.rows, vs)
		return err
	}
	switch st.kind {
	case "noop":
		return res, nil
	case "select":
		rows, err := x.query(st, env(nil))
		res.rows = rows
		res.n = int64(len(rows))
		for i, n := range st.selN {
			if n == "*" {
				if tb := t.f.tabs[st.from]; tb != nil {
					res.cols = append(res.cols, tb.cols...)
				}
				continue
			}
			_ = i
			res.cols = append(res.cols, n)
		}
		return res, err
	case "insert":
		tb := t.f.tabs[st.table]
		if tb == nil {
			return nil, &pgErr{"42P01", "relation " + st.table + " does not exist"}
		}
		var src [][]sqlVal
		if st.values != nil {
			for _, vs := range st.values {
				var row []sqlVal
				for _, e := range vs {
					v, err := e(env(nil))
					if err != nil {
						return nil, &pgErr{"42000", err.Error()}
					}
					row = append(row, v)
				}
				src = append(src, row)
			}
		} else {
			rows, err := x.query(st, env(nil))
			if err != nil {
				return nil, err
			}
			src = rows
		}
		for _, vs := range src {
			row := map[string]sqlVal{}
			for _, c := range tb.cols {
				row[c] = nil
			}
			row["ts"] = int64(0)
			if tb.name != "applied_commits" {
				delete(row, "ts")
			}
			for i, c := range st.cols {
				if _, ok := row[c]; !ok {
					return nil, &pgErr{"42703", "column " + c + " does not exist"}
				}
				row[c] = vs[i]
			}
			if err := tb.check(row); err != nil {
				return nil, err
			}
			k := fmt.Sprint(row[tb.pk])
			r := tb.rows[k]
			if r == nil {
				r = &pgRow{}
				tb.rows[k] = r
				tb.order = append(tb.order, k)
			}
			for r.lock != nil && r.lock != t && (r.val == nil || r.mod && r.pend == nil) { // speculative insert of another transaction
				if err := t.waitFor(ctx, r.lock); err != nil {
					return nil, err
				}
			}
			if cur := t.vis(r); cur != nil {
				switch st.confl {
				case "":
					return nil, &pgErr{"23505", "duplicate key value violates unique constraint \"" + tb.name + "_pkey\""}
				case "nothing":
					continue
				}
				if err := t.lockRow(ctx, r); err != nil {
					return nil, err
				}
				cur = t.vis(r)
				if cur == nil {
					return nil, &pgErr{"40001", "could not serialize access"}
				}
				rows := map[string]map[string]sqlVal{st.alias: cur, "excluded": row}
				if st.cwhere != nil {
					v, err := st.cwhere(env(rows))
					if err != nil {
						return nil, &pgErr{"42000", err.Error()}
					}
					if v != true {
						continue
					}
				}
				n, err := x.assign(tb, cur, st.ccols, st.cset, env(rows))
				if err != nil {
					return nil, err
				}
				t.set(r, n)
				if err := ret(st.alias, n, nil); err != nil {
					return nil, err
				}
				continue
			}
			if err := t.lockRow(ctx, r); err != nil {
				return nil, err
			}
			t.set(r, row)
			if err := ret(st.alias, row, nil); err != nil {
				return nil, err
			}
		}
		return res, nil
	case "update", "delete":
		tb := t.f.tabs[st.table]
		if tb == nil {
			return nil, &pgErr{"42P01", "relation " + st.table + " does not exist"}
		}
		var others []map[string]sqlVal
		if st.from != "" {
			var err error
			if others, err = x.scan(st.from); err != nil {
				return nil, err
			}
		} else {
			others = []map[string]sqlVal{nil}
		}
		keys := append([]string(nil), tb.order...)
		for _, k := range keys {
			r := tb.rows[k]
			for _, o := range others {
				match := func() (map[string]map[string]sqlVal, bool, error) {
					cur := t.vis(r)
					if cur == nil {
						return nil, false, nil
					}
					rows := map[string]map[string]sqlVal{st.alias: cur}
					if o != nil {
						rows[st.fromAs] = o
					}
					if st.where == nil {
						return rows, true, nil
					}
					v, err := st.where(env(rows))
					return rows, v == true, err
				}
				_, ok, err := match()
				if err != nil {
					return nil, &pgErr{"42000", err.Error()}
				}
				if !ok {
					continue
				}
				if err := t.lockRow(ctx, r); err != nil {
					return nil, err
				}
				rows, ok, err := match() // the row as it is now
				if err != nil {
					return nil, &pgErr{"42000", err.Error()}
				}
				if !ok {
					continue
				}
				if st.kind == "delete" {
					old := rows[st.alias]
					t.set(r, nil)
					if err := ret(st.alias, old, nil); err != nil {
						return nil, err
					}
					break
				}
				n, err := x.assign(tb, rows[st.alias], st.cols, st.set, env(rows))
				if err != nil {
					return nil, err
				}
				t.set(r, n)
				more := map[string]map[string]sqlVal{}
				if o != nil {
					more[st.fromAs] = o
				}
				if err := ret(st.alias, n, more); err != nil {
					return nil, err
				}
				break
			}
		}
		return res, nil
	}
	return nil, &pgErr{"0A000", "unsupported statement"}
}

func (tb *pgTable) check(row map[string]sqlVal) error {
	for c := range tb.nn {
		if row[c] == nil {
			return &pgErr{"23502", "null value in column \"" + c + "\" violates not-null constraint"}
		}
	}
	for c, v := range row {
		if v == nil {
			continue
		}
		_, isI := v.(int64)
		_, isS := v.(string)
		if (c == "key" || c == "commit_id") && !isS || (c == "scalar" || c == "vc" || c == "last_token") && !isI {
			return &pgErr{"42804", fmt.Sprintf("column %q has the wrong type (%T)", c, v)}
		}
	}
	return nil
}

func (x *sqlRun) assign(tb *pgTable, cur map[string]sqlVal, cols []string, es []sqlExpr, e *sqlEnv) (map[string]sqlVal, error) {
	n := map[string]sqlVal{}
	for k, v := range cur {
		n[k] = v
	}
	for i, c := range cols {
		if _, ok := n[c]; !ok {
			return nil, &pgErr{"42703", "column " + c + " does not exist"}
		}
		v, err := es[i](e)
		if err != nil {
			return nil, &pgErr{"42000", err.Error()}
		}
		n[c] = v
	}
	return n, tb.check(n)
}

func (x *sqlRun) project(es []sqlExpr, ns []string, e *sqlEnv, star string) ([]sqlVal, []string, error) {
	var out []sqlVal
	var cols []string
	for i, f := range es {
		if f == nil {
			tb := x.tx.f.tabs[star]
			row := e.rows[star]
			var cs []string
			if tb != nil {
				cs = tb.cols
			} else {
				for c := range row {
					cs = append(cs, c)
				}
				sort.Strings(cs)
			}
			for _, c := range cs {
				out, cols = append(out, row[c]), append(cols, c)
			}
			continue
		}
		v, err := f(e)
		if err != nil {
			return nil, nil, &pgErr{"42000", err.Error()}
		}
		out, cols = append(out, v), append(cols, ns[i])
	}
	return out, cols, nil
}

func (x *sqlRun) scan(name string) ([]map[string]sqlVal, error) {
	if r, ok := x.cte[name]; ok {
		return r, nil
	}
	tb := x.tx.f.tabs[name]
	if tb == nil {
		return nil, &pgErr{"42P01", "relation " + name + " does not exist"}
	}
	var out []map[string]sqlVal
	for _, k := range tb.order {
		if v := x.tx.vis(tb.rows[k]); v != nil {
			out = append(out, v)
		}
	}
	return out, nil
}

// query evaluates a SELECT (or the SELECT of an INSERT) under e's rows.
func (x *sqlRun) query(st *sqlStmt, e *sqlEnv) ([][]sqlVal, error) {
	if st.kind != "select" && st.kind != "insert" {
		r, err := x.exec(context.Background(), st, e.par)
		if err != nil {
			return nil, err
		}
		return r.rows, nil
	}
	var out [][]sqlVal
	src := []map[string]sqlVal{nil}
	if st.from != "" {
		var err error
		if src, err = x.scan(st.from); err != nil {
			return nil, err
		}
	}
	var grp []map[string]map[string]sqlVal
	for _, row := range src {
		rows := map[string]map[string]sqlVal{}
		if e != nil {
			for k, v := range e.rows {
				rows[k] = v
			}
		}
		if row != nil {
			// an inner table hides outer columns of the same name
			for k, v := range rows {
				m := map[string]sqlVal{}
				for c, z := range v {
					if _, dup := row[c]; !dup {
						m[c] = z
					}
				}
				_ = k
				rows[k] = v
			}
			rows[st.fromAs] = row
		}
		en := &sqlEnv{rows: rows, par: e.par, run: x}
		if st.where != nil {
			v, err := st.where(en)
			if err != nil {
				return nil, &pgErr{"42000", err.Error()}
			}
			if v != true {
				continue
			}
		}
		if st.lock {
			if tb := x.tx.f.tabs[st.from]; tb != nil && row != nil {
				r := tb.rows[fmt.Sprint(row[tb.pk])]
				if err := x.tx.lockRow(context.Background(), r); err != nil {
					return nil, err
				}
				if rows[st.fromAs] = x.tx.vis(r); rows[st.fromAs] == nil {
					continue
				}
			}
		}
		if st.selAgg {
			grp = append(grp, rows)
			continue
		}
		vs, _, err := x.project(st.sel, st.selN, en, st.fromAs)
		if err != nil {
			return nil, err
		}
		out = append(out, vs)
	}
	if st.selAgg {
		vs, _, err := x.project(st.sel, st.selN, &sqlEnv{rows: map[string]map[string]sqlVal{}, par: e.par, run: x, agg: grp}, st.fromAs)
		if err != nil {
			return nil, err
		}
		return [][]sqlVal{vs}, nil
	}
	return out, nil
}

// crash restarts the server: open transactions are gone, connections break.
func (f *fakePG) crash() {
	rt.Probe("pg-restart")
	var ts []*pgTx
	for t := range f.txs {
		ts = append(ts, t)
	}
	for _, t := range ts {
		t.end(false)
	}
}

// dropProc ends the transactions of a crashed client process.
func (f *fakePG) dropProc(p *rt.Proc) {
	var ts []*pgTx
	for t := range f.txs {
		if t.proc == p {
			ts = append(ts, t)
		}
	}
	for _, t := range ts {
		t.end(false)
	}
}

// ---- database/sql driver ----------------------------------------------------

type pgConnector struct{ f *fakePG }

func (c pgConnector) Driver() driver.Driver { return pgDriver{} }
func (c pgConnector) Connect(ctx context.Context) (driver.Conn, error) {
	if k, _ := rt.Fault("pg.connect", "refused"); k != "" {
		return nil, errors.New("dial tcp 10.0.0.3:5432: connect: connection refused")
	}
	if err := sleepCtx(ctx, 200_000); err != nil {
		return nil, err
	}
	return &pgConn{f: c.f}, nil
}

type pgDriver struct{}

func (pgDriver) Open(string) (driver.Conn, error) { return nil, errors.New("use a connector") }

type pgConn struct {
	f   *fakePG
	tx  *pgTx
	bad bool
}

func (f *fakePG) open() *sql.DB { return sql.OpenDB(pgConnector{f}) }

func (c *pgConn) IsValid() bool { return !c.bad }
func (c *pgConn) ResetSession(context.Context) error {
	if c.bad {
		return driver.ErrBadConn
	}
	return nil
}
func (c *pgConn) Close() error {
	c.bad = true
	if c.tx != nil {
		c.tx.end(false)
	}
	return nil
}

var errPGConn = fmt.Errorf("read tcp 10.0.0.1:40112->10.0.0.3:5432: %w", io.ErrUnexpectedEOF)

// net carries one message exchange; before reports what happens to it.
func (c *pgConn) net(ctx context.Context, kinds ...string) (string, int64, error) {
	if c.bad {
		return "", 0, driver.ErrBadConn
	}
	kind, arg := rt.Fault("pg", append([]string{"conn-lost", "slow", "server-restart"}, kinds...)...)
	d := 50_000 + arg%100_000
	if kind == "slow" {
		d = arg % 3_000_000_000
	}
	if err := sleepCtx(ctx, d); err != nil {
		c.abort()
		return kind, arg, err
	}
	switch kind {
	case "server-restart":
		c.f.crash()
		fallthrough
	case "conn-lost":
		c.bad = true
		if c.tx != nil {
			c.tx.end(false)
		}
		return kind, arg, errPGConn
	}
	return kind, arg, nil
}

func (c *pgConn) abort() {
	if c.tx != nil {
		c.tx.aborted = true
	}
}

func (c *pgConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *pgConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if _, _, err := c.net(ctx); err != nil {
		return nil, err
	}
	t := &pgTx{f: c.f, proc: rt.CurProc()}
	c.f.txs[t] = true
	c.tx = t
	return &pgDTx{c, t}, nil
}

type pgDTx struct {
	c *pgConn
	t *pgTx
}

func (d *pgDTx) Commit() error {
	defer func() { d.c.tx = nil }()
	if d.t.aborted {
		d.t.end(false)
		return errors.New("pq: Could not complete operation in a failed transaction")
	}
	kinds := []string{"commit-ack-lost", "commit-failed"}
	if d.c.f.stall {
		kinds = append(kinds, "commit-timeout")
	}
	k, arg, err := d.c.net(context.Background(), kinds...)
	if k == "commit-timeout" { // no answer until the client's TCP gives up
		rt.Sleep(8_000_000_000 + arg%5_000_000_000)
		k = []string{"commit-ack-lost", "commit-failed"}[arg&1]
	}
	if err != nil {
		d.t.end(false)
		return err
	}
	if d.t.done {
		d.c.bad = true
		return errPGGone
	}
	switch k {
	case "commit-failed":
		d.t.end(false)
		d.c.bad = true
		return errPGConn
	case "commit-ack-lost":
		rt.Tracef("pg COMMIT (ack lost)")
		d.t.end(true)
		d.c.bad = true
		return errPGConn
	}
	rt.Tracef("pg COMMIT")
	d.t.end(true)
	return nil
}

func (d *pgDTx) Rollback() error {
	defer func() { d.c.tx = nil }()
	rt.Tracef("pg ROLLBACK")
	d.t.end(false)
	return nil
}

func (c *pgConn) do(ctx context.Context, q string, args []driver.NamedValue) (*pgRes, error) {
	if _, err := sqlParse(q); err != nil && c.f.unsup == "" {
		c.f.unsup = q + ": " + err.Error()
	}
	k, _, err := c.net(ctx, "server-error")
	if err != nil {
		return nil, err
	}
	t := c.tx
	auto := t == nil
	if auto {
		t = &pgTx{f: c.f, proc: rt.CurProc()}
		c.f.txs[t] = true
	}
	if t.done {
		c.bad = true
		return nil, errPGGone
	}
	if t.aborted {
		return nil, &pgErr{"25P02", "current transaction is aborted, commands ignored until end of transaction block"}
	}
	var par []sqlVal
	for _, a := range args {
		v := a.Value
		if b, ok := v.([]byte); ok {
			v = string(b)
		}
		par = append(par, v)
	}
	var r *pgRes
	if k == "server-error" {
		err = &pgErr{"53100", "could not extend file: No space left on device"}
	} else {
		r, err = t.run(ctx, q, par)
	}
	rt.Tracef("pg %s %v -> %v", clip(q, 60), par, err)
	if auto {
		t.end(err == nil)
	} else if err != nil {
		t.aborted = true
	}
	return r, err
}

func (c *pgConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	r, err := c.do(ctx, q, args)
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(r.n), nil
}
func (c *pgConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	r, err := c.do(ctx, q, args)
	if err != nil {
		return nil, err
	}
	return &pgRows{r: r}, nil
}
func (c *pgConn) Prepare(q string) (driver.Stmt, error) { return &pgStmt{c, q}, nil }

type pgStmt struct {
	c *pgConn
	q string
}

func (s *pgStmt) Close() error  { return nil }
func (s *pgStmt) NumInput() int { return -1 }
func (s *pgStmt) Exec(args []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(args))
}
func (s *pgStmt) Query(args []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(args))
}
func (s *pgStmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	return s.c.ExecContext(ctx, s.q, args)
}
func (s *pgStmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	return s.c.QueryContext(ctx, s.q, args)
}

func named(vs []driver.Value) (out []driver.NamedValue) {
	for i, v := range vs {
		out = append(out, driver.NamedValue{Ordinal: i + 1, Value: v})
	}
	return
}

type pgRows struct {
	r *pgRes
	i int
}

func (r *pgRows) Columns() []string {
	if len(r.r.cols) == 0 && len(r.r.rows) > 0 {
		return make([]string, len(r.r.rows[0]))
	}
	return r.r.cols
}
func (r *pgRows) Close() error { return nil }
func (r *pgRows) Next(dest []driver.Value) error {
	if r.i >= len(r.r.rows) {
		return io.EOF
	}
	for i, v := range r.r.rows[r.i] {
		dest[i] = v
	}
	r.i++
	return nil
}
