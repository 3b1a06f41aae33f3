package sess

import (
	"context"
	"fmt"
	"runtime"
	"slices"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/types"

	"mahoverif/h"

	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"
)

// The names of the concurrent part.
var (
	concDatabases = []name{plain("maho"), plain("d")}
	concSchemas   = []name{plain("s"), plain("sa"), plain("sb")}
	concTables    = []name{plain("t"), plain("ta")}
	concLoose     = []name{plain("p"), plain("q")} // databases that come and go
	versions      = types.SchemaName{Database: types.ID("versions", true)}
)

// seen is what a transaction saw when it began, or before it was completed.
type seen struct {
	version int
	cat     catalog
	tids    map[string]int64 // number of each definition, by its first column
	loose   map[string]bool
}

func look(tx engine.Transaction) (*seen, error) {
	s := &seen{cat: catalog{}, tids: map[string]int64{}, loose: map[string]bool{}}
	ids, err := tx.ListSchemas(ctx, versions.Database)
	if err != nil {
		return nil, err
	}
	s.version = len(ids)
	for _, d := range concDatabases {
		ids, err := tx.ListSchemas(ctx, d.id)
		if err != nil {
			return nil, err
		}
		s.cat[d.id.String()] = map[string]map[string]*def{}
		for _, id := range ids {
			ts := map[string]*def{}
			s.cat[d.id.String()][id.String()] = ts
			for _, t := range concTables {
				tbl, err := tx.OpenTable(ctx, types.TableName{Database: d.id, Schema: id, Table: t.id})
				if err != nil {
					continue
				}
				tt := tbl.Type()
				ts[t.id.String()] = &def{tt.ColumnNames, tt.ColumnTypes, tt.Key}
				s.tids[tt.ColumnNames[0].String()] = int64(tbl.TableId())
			}
		}
	}
	for _, d := range concLoose {
		_, err := tx.ListSchemas(ctx, d.id)
		s.loose[d.id.String()] = err == nil
	}
	return s, nil
}

func catDiff(got, want catalog) string {
	for d, ss := range want {
		if d == "system" {
			continue
		}
		for s, ts := range ss {
			if _, ok := got[d][s]; !ok {
				return fmt.Sprintf("schema %q.%q was not there", d, s)
			}
			for t, def := range ts {
				o := got[d][s][t]
				if o == nil {
					return fmt.Sprintf("table %q.%q.%q was not there", d, s, t)
				}
				if !slices.Equal(def.cols, o.cols) || !slices.Equal(def.types, o.types) ||
					!slices.Equal(def.key, o.key) {
					return fmt.Sprintf("table %q.%q.%q was %v; want %v", d, s, t, o, def)
				}
			}
			for t := range got[d][s] {
				if ts[t] == nil {
					return fmt.Sprintf("table %q.%q.%q was there", d, s, t)
				}
			}
		}
		for s := range got[d] {
			if _, ok := ss[s]; !ok {
				return fmt.Sprintf("schema %q.%q was there", d, s)
			}
		}
	}
	return ""
}

// logged is an engine that notes what its transactions see and numbers those that are committed,
// by a schema in a database of its own.
type logged struct {
	engine.Engine
	yields func() int
	cur    *loggedTx // the last one that began
	err    error
}

type loggedTx struct {
	engine.Transaction
	eng       *logged
	first     *seen
	last      *seen
	committed bool
}

func (e *logged) failed(err error) {
	if e.err == nil {
		e.err = err
	}
}

func (e *logged) Begin() engine.Transaction {
	pause(e.yields())
	tx := &loggedTx{Transaction: e.Engine.Begin(), eng: e}
	pause(e.yields())
	var err error
	tx.first, err = look(tx.Transaction)
	if err != nil {
		e.failed(err)
	}
	e.cur = tx
	return tx
}

func (tx *loggedTx) Commit(ctx context.Context) error {
	pause(tx.eng.yields())
	var err error
	tx.last, err = look(tx.Transaction)
	if err == nil {
		sn := versions
		sn.Schema = types.ID(fmt.Sprintf("v%06d", tx.first.version), true)
		err = tx.Transaction.CreateSchema(ctx, sn)
	}
	if err != nil {
		tx.eng.failed(err)
	}
	pause(tx.eng.yields())
	err = tx.Transaction.Commit(ctx)
	if err != nil {
		tx.eng.failed(err)
	}
	tx.committed = true
	return err
}

func (tx *loggedTx) Rollback() error {
	pause(tx.eng.yields())
	var err error
	tx.last, err = look(tx.Transaction)
	if err != nil {
		tx.eng.failed(err)
	}
	err = tx.Transaction.Rollback()
	if err != nil {
		tx.eng.failed(err)
	}
	return err
}

func pause(n int) {
	switch n {
	case 0:
	case 1, 2:
		runtime.Gosched()
	default:
		time.Sleep(time.Duration(n) * 10 * time.Microsecond)
	}
}

// job is a transaction of a session, or a statement on its own.
type job struct {
	stmts  []stmt
	single bool
	commit bool
}

// done is what became of it.
type outcome struct {
	job          *job
	worker       int
	tx           *loggedTx
	oks          []bool
	began, ended int64
	user         user // before
}

// looseOp is what happened to a database that comes and goes.
type looseOp struct {
	create, ifExists, ok bool
	read, there          bool
}

var looseModel = porcupine.Model{
	Init: func() any { return false },
	Step: func(state, in, _ any) (bool, any) {
		there, op := state.(bool), in.(looseOp)
		switch {
		case op.read:
			return op.there == there, there
		case op.create:
			return op.ok == !there, true
		default:
			return op.ok == (there || op.ifExists), false
		}
	},
	Equal: func(a, b any) bool { return a == b },
}

// TestP37: concurrent sessions behave as if run one after another.
func TestP37(t *testing.T) {
	h.CheckTimed(t, 30, 40, func(rt *rapid.T, c *h.Case) {
		g := &stmts{t: rt, dbs: concDatabases, schemas: concSchemas, tables: concTables,
			weigh: [10]int{5: 6, 6: 4, 7: 9, 8: 3, 9: 1}}
		workers := 2 + h.N(rt, 6, "workers")
		jobs := make([][]*job, workers)
		full := catalog{}
		for _, d := range concDatabases {
			full[d.id.String()] = map[string]map[string]*def{}
			for _, s := range concSchemas {
				full[d.id.String()][s.id.String()] = map[string]*def{}
			}
		}
		for w := range jobs {
			for n := 2 + h.N(rt, 8, "jobs"); n > 0; n-- {
				j := &job{}
				jobs[w] = append(jobs[w], j)
				switch {
				case h.Chance(rt, 20, "database"):
					d := concLoose[h.N(rt, len(concLoose), "database")]
					s := stmt{kind: "database", text: "create database " + d.text}
					if h.Chance(rt, 45, "drop") {
						s.text = "drop database " + d.text
						if h.Chance(rt, 30, "if exists") {
							s.text = "drop database if exists " + d.text
						}
					}
					j.single = true
					j.stmts = []stmt{s}
				case h.Chance(rt, 40, "single"):
					j.single = true
					j.stmts = []stmt{g.stmt(full)}
				default:
					j.commit = h.Chance(rt, 70, "commit")
					for k := 1 + h.N(rt, 5, "statements"); k > 0; k-- {
						j.stmts = append(j.stmts, g.stmt(full))
					}
				}
			}
		}
		yields := make([][]int, workers)
		for w := range yields {
			for k := 0; k < 16; k++ {
				yields[w] = append(yields[w], h.N(rt, 5, "yield"))
			}
		}
		c.Note("%d workers", workers)

		real := newEngine()
		for _, d := range []types.Identifier{versions.Database, concDatabases[1].id} {
			if err := real.CreateDatabase(d, nil); err != nil {
				rt.Fatalf("create database: %s", err)
			}
		}

		outs := make([][]*outcome, workers)
		loose := make([][]porcupine.Operation, workers)
		names := make([][]string, workers)
		errs := make([]error, workers)
		var clock atomic.Int64
		start := make(chan struct{})
		var wg sync.WaitGroup
		for w := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[w] = fmt.Errorf("panic: %v", p)
					}
				}()
				i := 0
				eng := &logged{Engine: real, yields: func() int {
					i++
					return yields[w][i%len(yields[w])]
				}}
				u := &user{database: concDatabases[w%2].id, schema: concSchemas[w%3].id}
				ses := evaluate.NewSession(eng, u.database, u.schema)
				<-start
				for _, j := range jobs[w] {
					o := &outcome{job: j, worker: w, user: *u}
					eval := func(text string) (bool, error) {
						stm, err := parse(text)
						if err != nil {
							return false, fmt.Errorf("parse of %s: %s", text, err)
						}
						return ses.Evaluate(ctx, stm) == nil, nil
					}
					eng.cur = nil
					o.began = clock.Add(1)
					var err error
					ok := true
					if !j.single {
						if ok, err = eval("begin"); err == nil && !ok {
							err = fmt.Errorf("begin failed")
						}
						if err != nil {
							errs[w] = err
							return
						}
					}
					for _, s := range j.stmts {
						ok, err := eval(s.text)
						if err != nil {
							errs[w] = err
							return
						}
						o.oks = append(o.oks, ok)
						if s.kind == "set" && ok {
							s.apply(nil, u)
						}
					}
					if !j.single {
						end := "rollback"
						if j.commit {
							end = "commit"
						}
						if ok, err = eval(end); err == nil && !ok {
							err = fmt.Errorf("%s failed", end)
						}
						if err != nil {
							errs[w] = err
							return
						}
					}
					o.ended = clock.Add(1)
					o.tx = eng.cur
					if eng.err != nil {
						errs[w] = eng.err
						return
					}
					if j.stmts[0].kind == "database" {
						s := j.stmts[0].text
						op := looseOp{create: s[:6] == "create", ok: o.oks[0],
							ifExists: len(s) > 17 && s[14:16] == "if"}
						loose[w] = append(loose[w], porcupine.Operation{ClientId: w, Input: op,
							Call: o.began, Return: o.ended})
						names[w] = append(names[w], s[len(s)-1:])
						continue
					}
					if o.tx == nil {
						continue // only a SET
					}
					for d, there := range o.tx.first.loose {
						if o.tx.last != nil && o.tx.last.loose[d] != there {
							errs[w] = fmt.Errorf("database %s came or went during a transaction", d)
							return
						}
						loose[w] = append(loose[w], porcupine.Operation{ClientId: w,
							Input: looseOp{read: true, there: there}, Call: o.began, Return: o.ended})
						names[w] = append(names[w], d)
					}
					outs[w] = append(outs[w], o)
				}
			}()
		}
		close(start)
		wg.Wait()
		for w, err := range errs {
			if err != nil {
				rt.Fatalf("worker %d: %s", w, err)
			}
		}

		// The committed transactions in the order of their versions.
		var all []*outcome
		byVersion := map[int]*outcome{}
		for _, os := range outs {
			for _, o := range os {
				all = append(all, o)
				if o.tx.committed {
					if p := byVersion[o.tx.first.version]; p != nil {
						rt.Fatalf("two transactions changed version %d", o.tx.first.version)
					}
					byVersion[o.tx.first.version] = o
				}
			}
		}
		commits := len(byVersion)
		states := make([]catalog, commits+1)
		states[0] = catalog{"maho": {"public": {}}, "d": {}}
		for v := 0; v < commits; v++ {
			o := byVersion[v]
			if o == nil {
				rt.Fatalf("no transaction changed version %d; %d committed", v, commits)
			}
			next, msg := o.replay(states[v])
			if msg != "" {
				rt.Fatalf("worker %d at version %d: %s", o.worker, v, msg)
			}
			states[v+1] = next
		}
		sort.SliceStable(all, func(i, j int) bool { return all[i].began < all[j].began })
		tids := map[string]int64{}     // of definitions
		ever := map[int64]string{}     // committed definitions of numbers
		committed := map[string]bool{} // definitions
		for _, st := range states {
			for _, ss := range st {
				for _, ts := range ss {
					for _, d := range ts {
						committed[d.cols[0].String()] = true
					}
				}
			}
		}
		number := func(s *seen) {
			for col, tid := range s.tids {
				if tid <= 511 {
					rt.Fatalf("the table with %s has the reserved number %d", col, tid)
				}
				if old, ok := tids[col]; ok && old != tid {
					rt.Fatalf("the table with %s had number %d, now %d", col, old, tid)
				}
				tids[col] = tid
				if committed[col] {
					if o, ok := ever[tid]; ok && o != col {
						rt.Fatalf("the tables with %s and %s have number %d", o, col, tid)
					}
					ever[tid] = col
				}
			}
		}
		for _, o := range all {
			v := o.tx.first.version
			if v > commits {
				rt.Fatalf("worker %d saw version %d; %d were committed", o.worker, v, commits)
			}
			if s := catDiff(o.tx.first.cat, states[v]); s != "" {
				rt.Fatalf("worker %d at version %d: %s", o.worker, v, s)
			}
			after, msg := o.replay(states[v])
			if msg != "" {
				rt.Fatalf("worker %d at version %d: %s", o.worker, v, msg)
			}
			if o.tx.last == nil {
				rt.Fatalf("worker %d at version %d: a transaction was not completed", o.worker, v)
			}
			if o.tx.last.version != v {
				rt.Fatalf("worker %d: from version %d to %d in a transaction", o.worker, v,
					o.tx.last.version)
			}
			if s := catDiff(o.tx.last.cat, after); s != "" {
				rt.Fatalf("worker %d at version %d, at the end: %s", o.worker, v, s)
			}
			number(o.tx.first)
			if o.tx.committed {
				number(o.tx.last)
				for _, p := range all {
					if p.began > o.ended && p.tx.first.version <= v {
						rt.Fatalf("worker %d began after version %d was committed but saw version %d",
							p.worker, v+1, p.tx.first.version)
					}
				}
			}
		}
		tx := real.Begin()
		end, err := look(tx)
		if err != nil {
			rt.Fatalf("at the end: %s", err)
		}
		if end.version != commits {
			rt.Fatalf("version %d at the end; %d committed", end.version, commits)
		}
		if s := catDiff(end.cat, states[commits]); s != "" {
			rt.Fatalf("at the end: %s", s)
		}
		number(end)
		tx.Rollback()

		for _, d := range concLoose {
			now := clock.Add(1)
			ops := []porcupine.Operation{{ClientId: workers, Call: now, Return: now + 1,
				Input: looseOp{read: true, there: end.loose[d.text]}}}
			clock.Add(1)
			changes := 0
			for w := range loose {
				for i, op := range loose[w] {
					if names[w][i] == d.text {
						ops = append(ops, op)
						if !op.Input.(looseOp).read {
							changes++
						}
					}
				}
			}
			if porcupine.CheckOperationsTimeout(looseModel, ops, 20*time.Second) == porcupine.Illegal {
				rt.Fatalf("database %s came and went in no order", d.text)
			}
			c.LabelIf(changes > 1, "databases came and went")
		}

		switches, failures := 0, 0
		for v := 1; v < commits; v++ {
			if byVersion[v].worker != byVersion[v-1].worker {
				switches++
			}
		}
		for _, o := range all {
			for _, ok := range o.oks {
				if !ok {
					failures++
				}
			}
		}
		c.LabelIf(failures > 0, "statement failed")
		c.LabelIf(commits < len(all), "rolled back")
		c.LabelIf(switches > 0, "workers alternated")
		c.LabelIf(len(committed) > 2, "more than two tables")
		if switches > 0 && len(committed) > 0 {
			c.NonTrivial("%d workers, %d transactions, %d committed, %d changes of worker, %d tables, "+
				"%d statements failed", workers, len(all), commits, switches, len(committed), failures)
		}
	})
}

// replay does what the transaction did from the state it saw.
func (o *outcome) replay(from catalog) (catalog, string) {
	cat := from.clone()
	u := o.user
	for i, s := range o.job.stmts {
		if ok := s.apply(cat, &u); ok != o.oks[i] {
			return nil, fmt.Sprintf("%s succeeded: %v; want %v", s.text, o.oks[i], ok)
		}
	}
	return cat, ""
}
