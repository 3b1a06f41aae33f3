package store

import (
	"errors"
	"fmt"
	"runtime"
	"slices"
	"sync"
	"testing"
	"time"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"

	"mahoverif/h"
	"mahoverif/vals"

	"pgregory.net/rapid"
)

// TestP27: tables are created, opened and dropped exactly.
func TestP27(t *testing.T) {
	cfg := config{tables: 10, maxRows: 30, insert: 10, batch: 4, update: 2, delete: 2, sweep: 1, end: 2,
		dropTable: 4, create: 7, deep: 60, shape: shape{maxCols: 5}}
	t.Run("small", func(t *testing.T) {
		h.Check(t, 500, func(rt *rapid.T, c *h.Case) {
			m := newMachine(rt, c, cfg)
			for n := 5 + h.N(rt, 30, "operations"); n > 0; n-- {
				if h.Chance(rt, 50, "change") {
					m.op()
					continue
				}
				tid := m.tid()
				tbl := m.db[tid]
				if tbl == nil {
					if h.Chance(rt, 40, "reserved name") {
						m.rowid(tid)
						continue
					}
					tbl = m.create(tid)
					m.check(tbl)
					continue
				}
				switch h.N(rt, 4, "what") {
				case 0:
					m.report(tbl)
				case 1:
					m.misuse(tbl)
				case 2:
					// The number is taken.
					o := *tbl
					if h.Chance(rt, 60, "another") {
						o = *genTable(rt, tid, cfg.shape)
					}
					m.log("create again %s", &o)
					err := h.Refused(fmt.Sprintf("creating %s again as %s", tbl, &o), func() error {
						return o.create(m.tx)
					})
					if err != nil {
						rt.Fatalf("%s", err)
					}
					m.cnt["create refused"]++
					m.check(tbl)
				case 3:
					m.absent()
				}
			}
			m.checkAll()
			m.end(true)
			m.begin()
			m.checkAll()
			for _, tid := range m.db.tids() {
				m.report(m.db[tid])
			}
			m.end(false)
			for k, n := range m.cnt {
				c.LabelIf(n > 0, k)
			}
			if m.cnt["create"] > 1 && m.cnt["insert"] > 0 {
				c.NonTrivial("%s", show(m, ""))
			}
		})
	})
	t.Run("setup", func(t *testing.T) {
		h.Check(t, 300, func(rt *rapid.T, c *h.Case) {
			tbl := genTable(rt, 16, shape{maxCols: 5})
			key := tbl.key
			if h.Chance(rt, 60, "no key") {
				key = nil
			}
			c.Note("%s key %v", tbl, key)
			c.NonTrivial("%s key %v", tbl, key)
			room := h.N(rt, 4, "room") // The arguments must not be written to.
			cols := append(make([]types.Identifier, 0, len(tbl.cols)+room), tbl.cols...)
			cts := append(make([]types.ColumnType, 0, len(tbl.types)+room), tbl.types...)
			st := newStore()
			ncols, ncts, nkey := st.SetupColumns(cols, cts, key)
			wcols, wcts, wkey := tbl.cols, tbl.types, key
			if key == nil {
				wcols = append([]types.Identifier{types.ROWID}, tbl.cols...)
				wcts = append([]types.ColumnType{types.Int64ColType}, tbl.types...)
				wkey = []types.ColumnKey{types.MakeColumnKey(0, false)}
			}
			if !slices.Equal(ncols, wcols) || !slices.Equal(ncts, wcts) || !slices.Equal(nkey, wkey) {
				rt.Fatalf("setup of %s key %v: got %v, %v, %v", tbl, key, ncols, ncts, nkey)
			}
			if !slices.Equal(cols, tbl.cols) || !slices.Equal(cts, tbl.types) {
				rt.Fatalf("setup of %s key %v changed its arguments: %v, %v", tbl, key, cols, cts)
			}
			// What was set up can be created and used.
			ntbl := *tbl
			ntbl.cols, ntbl.types, ntbl.key, ntbl.rows = ncols, ncts, nkey, nil
			tx := st.Begin()
			if err := ntbl.create(tx); err != nil {
				rt.Fatalf("create of %s key %v: %s", tbl, key, err)
			}
			row := ntbl.genRow(rt, shape{})
			stbl, err := ntbl.open(tx)
			if err == nil {
				err = stbl.Insert(ctx, []types.Row{row})
			}
			if err != nil {
				rt.Fatalf("insert of %s into %s: %s", vals.ShowRow(row), &ntbl, err)
			}
			ntbl.put(&Row{1, row})
			if err := ntbl.check(tx); err != nil {
				rt.Fatalf("%s", err)
			}
			tx.Commit(ctx)
		})
	})
	bulk(t, 15, cfg)
}

// report checks what an open table says about itself.
func (m *machine) report(tbl *Table) {
	m.log("report %d", tbl.tid)
	st, err := tbl.open(m.tx)
	if err != nil {
		m.fail("open %s: %s", tbl, err)
	}
	if st.TID() != tbl.tid || st.Name() != tbl.name || !slices.Equal(st.ColumnNames(), tbl.cols) ||
		!slices.Equal(st.ColumnTypes(), tbl.types) || !slices.Equal(st.Key(), tbl.key) {
		m.fail("table %s %s says %d %s %v %v %v", tbl.name, tbl, st.TID(), st.Name(), st.ColumnNames(),
			st.ColumnTypes(), st.Key())
	}
	if st.Version() != 1 {
		m.fail("table %s has version %d", tbl, st.Version())
	}
	if m.tx.Store() != m.st {
		m.fail("the transaction is of another store")
	}
}

// misuse opens a table with another definition than its own.
func (m *machine) misuse(tbl *Table) {
	o := *tbl
	what := ""
	t := m.t
	o.cols = slices.Clone(tbl.cols)
	o.types = slices.Clone(tbl.types)
	o.key = slices.Clone(tbl.key)
	n := h.N(t, len(o.cols), "column")
	k := h.N(t, len(o.key), "key column")
	switch h.N(t, 13, "misuse") {
	case 0:
		what = "database"
		o.name.Database = types.ID("db2", true)
	case 1:
		what = "schema"
		o.name.Schema = types.ID("scm2", true)
	case 2:
		what = "name"
		o.name.Table = types.ID("another", true)
	case 3:
		what = "column name"
		o.cols[n] = types.ID("other_column", true)
	case 4:
		what = "fewer columns"
		o.cols = o.cols[:len(o.cols)-1]
		o.types = o.types[:len(o.types)-1]
	case 5:
		what = "more columns"
		o.cols = append(o.cols, types.ID("more", true))
		o.types = append(o.types, types.Int64ColType)
	case 6:
		what = "null"
		o.types[n].NotNull = !o.types[n].NotNull
	case 7:
		what = "size"
		o.types[n].Size++
	case 8:
		what = "fixed"
		o.types[n].Fixed = !o.types[n].Fixed
	case 9:
		what = "type"
		o.types[n].Type = o.types[n].Type%types.Int64Type + 1
	case 10:
		what = "direction"
		o.key[k] = -o.key[k]
	case 11:
		what = "longer key"
		o.key = append(o.key, types.MakeColumnKey(0, false))
	case 12:
		what = "order of key"
		if len(o.key) < 2 {
			what = "shorter key"
			o.key = nil
		} else {
			o.key[0], o.key[1] = o.key[1], o.key[0]
		}
	}
	if o.same(tbl) {
		return
	}
	m.log("open %d with another %s", tbl.tid, what)
	err := h.Refused(fmt.Sprintf("opening %s %s with another %s", tbl.name, tbl, what), func() error {
		_, err := o.open(m.tx)
		return err
	})
	if err != nil {
		t.Fatalf("%s", err)
	}
	m.cnt["open refused"]++
	m.report(tbl)
}

// absent uses a table that is not there.
func (m *machine) absent() {
	var gone []storage.TableId
	for _, tid := range tids {
		if m.db[tid] == nil {
			gone = append(gone, tid)
		}
	}
	if len(gone) == 0 {
		return
	}
	tid := gone[h.N(m.t, len(gone), "gone")]
	tbl := m.gone[tid]
	if tbl == nil {
		tbl = genTable(m.t, tid, m.cfg.shape)
	}
	drop := h.Chance(m.t, 50, "drop")
	m.log("missing %d: drop %v", tid, drop)
	err := h.Refused(fmt.Sprintf("using the missing table %s (drop %v)", tbl, drop), func() error {
		if drop {
			return m.tx.DropTable(ctx, tid)
		}
		_, err := tbl.open(m.tx)
		return err
	})
	if err != nil {
		m.fail("%s", err)
	}
	m.cnt["missing refused"]++
}

// rowid creates a table that uses the reserved column name as it must not be used, or another
// table that must be refused.
func (m *machine) rowid(tid storage.TableId) {
	o := genTable(m.t, tid, m.cfg.shape)
	what := ""
	switch h.N(m.t, 5, "how") {
	case 0:
		n := len(o.cols)
		o.cols = append(o.cols, types.ROWID)
		o.types = append(o.types, types.Int64ColType)
		o.key = []types.ColumnKey{types.MakeColumnKey(types.ColumnNum(n), false)}
		what = "row number not first"
	case 1:
		o.cols[0] = types.ROWID
		o.types[0] = types.ColumnType{Type: types.Int64Type, Size: 4, NotNull: true}
		o.key = []types.ColumnKey{types.MakeColumnKey(0, false)}
		what = "row number of another type"
	case 2:
		o.cols[0] = types.ROWID
		o.types[0] = types.Int64ColType
		o.key = []types.ColumnKey{types.MakeColumnKey(0, true)}
		what = "row number descending"
	case 3:
		o.cols[0] = types.ROWID
		o.types[0] = types.Int64ColType
		o.cols = append(o.cols, types.ID("more", true))
		o.types = append(o.types, types.BoolColType)
		o.key = []types.ColumnKey{types.MakeColumnKey(0, false), types.MakeColumnKey(1, false)}
		what = "row number in a longer key"
	case 4:
		what = "key out of range"
		o.key[h.N(m.t, len(o.key), "key column")] = types.MakeColumnKey(types.ColumnNum(len(o.cols)),
			false)
	}
	m.log("create %d: %s", tid, what)
	err := h.Refused(fmt.Sprintf("creating a table with %s: %v %v %v", what, o.cols, o.types, o.key),
		func() error {
			return o.create(m.tx)
		})
	if err != nil {
		m.fail("%s", err)
	}
	m.cnt["create refused"]++
}

// TestP28: a finished transaction refuses further use and never blocks others.
func TestP28(t *testing.T) {
	cfg := config{tables: 6, maxRows: 30, insert: 10, batch: 4, update: 4, delete: 3, sweep: 1, open: 8,
		step: 6, close: 1, end: 5, endScans: 70, create: 1, deep: 5, shape: shape{maxCols: 4}}
	t.Run("sequence", func(t *testing.T) {
		h.CheckTimed(t, 400, 20, func(rt *rapid.T, c *h.Case) {
			m := newMachine(rt, c, cfg)
			var old []storage.Transaction
			again := 0
			useOld := func(when string) {
				for len(old) > 0 && h.Chance(rt, 40, "again") {
					otx := old[h.N(rt, len(old), "which")]
					commit := h.Chance(rt, 50, "commit")
					m.log("%s: complete an old transaction again: commit %v", when, commit)
					var err error
					if commit {
						err = otx.Commit(ctx)
					} else {
						err = otx.Rollback()
					}
					if err == nil {
						rt.Fatalf("an old transaction completed again: commit %v", commit)
					}
					again++
				}
			}
			m.create(16)
			for n := 4 + h.N(rt, 25, "operations"); n > 0; n-- {
				tx := m.tx
				m.op()
				if m.tx != tx {
					old = append(old, tx)
				}
				if h.Chance(rt, 30, "old") {
					useOld("during the next")
					m.checkAll()
				}
			}
			m.end(h.Chance(rt, 60, "commit"))
			old = append(old, m.tx)
			useOld("between")
			m.begin()
			m.checkAll()
			useOld("at the end")
			m.end(true)
			c.LabelIf(again > 0, "completed again")
			c.LabelIf(m.cnt["end refused"] > 0, "completion refused with open scans")
			if again > 0 && m.cnt["insert"] > 0 {
				c.NonTrivial("%d completed again; %s", again, show(m, ""))
			}
		})
	})
	t.Run("others", func(t *testing.T) {
		// While a transaction is open, completing an older one again neither lets others see what
		// is not committed nor keeps them from running afterwards.
		h.CheckTimed(t, 60, 20, func(rt *rapid.T, c *h.Case) {
			st := newStore()
			tbl := &Table{tid: 16, name: types.TableName{Table: types.ID("t", true)},
				cols:  []types.Identifier{types.ID("a", true), types.ID("b", true)},
				types: []types.ColumnType{types.Int64ColType, types.Int64ColType},
				key:   []types.ColumnKey{types.MakeColumnKey(0, false)}}
			must := func(err error) {
				if err != nil {
					rt.Fatalf("%s", err)
				}
			}
			tx0 := st.Begin()
			must(tbl.create(tx0))
			if h.Chance(rt, 50, "commit") {
				must(tx0.Commit(ctx))
			} else {
				must(tx0.Commit(ctx))
				tx0 = st.Begin()
				must(tx0.Rollback())
			}
			tx1 := st.Begin()
			n := 1 + h.N(rt, 5, "others")
			again := h.Perm(rt, 4, "again")
			commit := h.Chance(rt, 60, "commit")
			pause := time.Duration(h.N(rt, 3, "pause")) * time.Millisecond
			c.Note("%d others, again %v, commit %v", n, again, commit)
			c.NonTrivial("%d others, again %v, commit %v, pause %s", n, again, commit, pause)

			seen := make([]int, n)
			errs := make([]error, n)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					errs[i] = func() error {
						tx := st.Begin()
						s, err := tbl.open(tx)
						if err != nil {
							return err
						}
						rs, err := read(s)
						if err != nil {
							return err
						}
						seen[i] = len(rs)
						return tx.Rollback()
					}()
				}()
			}
			s, err := tbl.open(tx1)
			must(err)
			for i := 0; i < 4; i++ {
				must(s.Insert(ctx, []types.Row{{types.Int64Value(i), types.Int64Value(i)}}))
				if again[i] < 2 {
					var err error
					if again[i] == 0 {
						err = tx0.Commit(ctx)
					} else {
						err = tx0.Rollback()
					}
					if err == nil {
						rt.Fatalf("an old transaction completed again")
					}
				}
				time.Sleep(pause)
				runtime.Gosched()
			}
			want := 0
			if commit {
				must(tx1.Commit(ctx))
				want = 4
			} else {
				must(tx1.Rollback())
			}
			wg.Wait()
			for i := range seen {
				must(errs[i])
				if seen[i] != 0 && seen[i] != want {
					rt.Fatalf("another transaction saw %d rows of an open one", seen[i])
				}
			}
			tx := st.Begin()
			s, err = tbl.open(tx)
			must(err)
			rs, err := read(s)
			must(err)
			if len(rs) != want {
				rt.Fatalf("%d rows afterwards; want %d", len(rs), want)
			}
			must(tx.Commit(ctx))
		})
	})
}

// ---- P26 ----

// cellOp is what a concurrent transaction does to a row of one of the tables.
type cellOp struct {
	table int
	key   int
	del   bool
	val   int
}

type job struct {
	worker, num int
	ops         []cellOp
	commit      bool
	fail        bool // an operation that fails comes in between
	yields      []int
}

// outcome is what a transaction saw.
type outcome struct {
	job       *job
	version   int
	state     [3]map[int64]int64
	began     int64
	ended     int64
	committed bool
}

// epoch is what the times of transactions count from, by the monotonic clock.
var epoch = time.Now()

var versionKey = int64(-1 << 40)

func pause(n int) {
	switch n {
	case 0:
	case 1, 2:
		runtime.Gosched()
	default:
		time.Sleep(time.Duration(n) * 10 * time.Microsecond)
	}
}

// TestP26: concurrent transactions behave as if run one after another.
//
// Every transaction reads a version number and everything else, does its changes and adds one to
// the version if it commits. The versions of the committed transactions are then the serial order
// that explains all of them, or there is none.
func TestP26(t *testing.T) {
	h.CheckTimed(t, 40, 30, func(rt *rapid.T, c *h.Case) {
		ntbls := 1 + h.N(rt, 3, "tables")
		tbls := make([]*Table, ntbls)
		for i := range tbls {
			tbls[i] = &Table{tid: storage.TableId(16 + i),
				name:  types.TableName{Table: types.ID(fmt.Sprintf("t%d", i), true)},
				cols:  []types.Identifier{types.ID("k", true), types.ID("v", true)},
				types: []types.ColumnType{types.Int64ColType, types.Int64ColType},
				key:   []types.ColumnKey{types.MakeColumnKey(0, h.Chance(rt, 30, "desc"))}}
		}
		keys := 2 + h.N(rt, 12, "keys")
		workers := 2 + h.N(rt, 7, "workers")
		var jobs [][]*job
		val := 0
		for w := 0; w < workers; w++ {
			var js []*job
			for n := 2 + h.N(rt, 12, "transactions"); n > 0; n-- {
				j := &job{worker: w, num: len(js), commit: h.Chance(rt, 70, "commit"),
					fail: h.Chance(rt, 15, "fail")}
				for k := h.N(rt, 6, "changes"); k > 0; k-- {
					val++
					j.ops = append(j.ops, cellOp{h.N(rt, ntbls, "table"), h.N(rt, keys, "key"),
						h.Chance(rt, 25, "delete"), val})
				}
				for k := len(j.ops) + 3; k > 0; k-- {
					j.yields = append(j.yields, h.N(rt, 5, "yield"))
				}
				js = append(js, j)
			}
			jobs = append(jobs, js)
		}
		c.Note("%d tables, %d keys, %d workers", ntbls, keys, workers)

		st := newStore()
		tx := st.Begin()
		for _, tbl := range tbls {
			if err := tbl.create(tx); err != nil {
				rt.Fatalf("create: %s", err)
			}
		}
		s, err := tbls[0].open(tx)
		if err == nil {
			err = s.Insert(ctx, []types.Row{{types.Int64Value(versionKey), types.Int64Value(0)}})
		}
		if err == nil {
			err = tx.Commit(ctx)
		}
		if err != nil {
			rt.Fatalf("set up: %s", err)
		}

		outs := make([][]*outcome, workers)
		errs := make([]error, workers)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for w := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, j := range jobs[w] {
					out, err := j.run(st, tbls)
					if err != nil {
						errs[w] = err
						return
					}
					outs[w] = append(outs[w], out)
				}
			}()
		}
		close(start)
		wg.Wait()
		for w, err := range errs {
			if err != nil {
				rt.Fatalf("worker %d: %s", w, err)
			}
		}

		// The committed transactions in the order of their versions.
		var all []*outcome
		byVersion := map[int]*outcome{}
		commits := 0
		for _, os := range outs {
			for _, o := range os {
				all = append(all, o)
				if o.committed {
					commits++
					if p := byVersion[o.version]; p != nil {
						rt.Fatalf("lost update: two transactions changed version %d", o.version)
					}
					byVersion[o.version] = o
				}
			}
		}
		states := make([][3]map[int64]int64, commits+1)
		states[0] = emptyState()
		for v := 0; v < commits; v++ {
			o := byVersion[v]
			if o == nil {
				rt.Fatalf("no transaction changed version %d; %d committed", v, commits)
			}
			states[v+1] = o.job.apply(states[v])
		}
		for _, o := range all {
			if o.version < 0 || o.version > commits {
				rt.Fatalf("a transaction saw version %d; %d committed", o.version, commits)
			}
			if d := diffState(o.state, states[o.version]); d != "" {
				rt.Fatalf("transaction %d of worker %d saw version %d but %s", o.job.num, o.job.worker,
					o.version, d)
			}
			// A transaction sees what was committed before it began.
			if o.committed {
				for _, p := range all {
					if p.began > o.ended && p.version <= o.version {
						rt.Fatalf("transaction %d of worker %d began after version %d was committed but "+
							"saw version %d", p.job.num, p.job.worker, o.version+1, p.version)
					}
				}
			}
		}

		tx = st.Begin()
		state, version, err := readState(tx, tbls)
		if err != nil {
			rt.Fatalf("%s", err)
		}
		if version != commits {
			rt.Fatalf("version %d at the end; %d committed", version, commits)
		}
		if d := diffState(state, states[commits]); d != "" {
			rt.Fatalf("at the end %s", d)
		}
		tx.Commit(ctx)

		c.LabelIf(commits < len(all), "rolled back")
		// Did the workers interleave?
		switches := 0
		for v := 1; v < commits; v++ {
			if byVersion[v].job.worker != byVersion[v-1].job.worker {
				switches++
			}
		}
		c.LabelIf(switches > 0, "workers alternated")
		if switches > 0 {
			c.NonTrivial("%d tables, %d keys, %d workers, %d transactions, %d committed, "+
				"%d changes of worker", ntbls, keys, workers, len(all), commits, switches)
		}
	})
}

func emptyState() [3]map[int64]int64 {
	return [3]map[int64]int64{{}, {}, {}}
}

func diffState(got, want [3]map[int64]int64) string {
	for i := range want {
		for k, v := range want[i] {
			if g, ok := got[i][k]; !ok || g != v {
				return fmt.Sprintf("row %d of table %d was %d (there: %v); want %d", k, i, g, ok, v)
			}
		}
		for k, v := range got[i] {
			if _, ok := want[i][k]; !ok {
				return fmt.Sprintf("row %d of table %d was there with %d", k, i, v)
			}
		}
	}
	return ""
}

func (j *job) apply(s [3]map[int64]int64) [3]map[int64]int64 {
	n := emptyState()
	for i := range s {
		for k, v := range s[i] {
			n[i][k] = v
		}
	}
	for _, op := range j.ops {
		if op.del {
			delete(n[op.table], int64(op.key))
		} else {
			n[op.table][int64(op.key)] = int64(op.val)
		}
	}
	return n
}

func readState(tx storage.Transaction, tbls []*Table) ([3]map[int64]int64, int, error) {
	state := emptyState()
	version := -1
	for i, tbl := range tbls {
		s, err := tbl.open(tx)
		if err != nil {
			return state, 0, err
		}
		rs, err := read(s)
		if err != nil {
			return state, 0, err
		}
		for _, r := range rs {
			k, v := int64(r[0].(types.Int64Value)), int64(r[1].(types.Int64Value))
			if i == 0 && k == versionKey {
				version = int(v)
				continue
			}
			if _, ok := state[i][k]; ok {
				return state, 0, fmt.Errorf("row %d twice in table %d", k, i)
			}
			state[i][k] = v
		}
	}
	if version < 0 {
		return state, 0, errors.New("no version row")
	}
	return state, version, nil
}

// set writes or deletes one row.
func set(tx storage.Transaction, tbl *Table, key, val int64, del bool) error {
	s, err := tbl.open(tx)
	if err != nil {
		return err
	}
	row := types.Row{types.Int64Value(key), types.Int64Value(val)}
	rows, err := s.Rows(ctx, nil, row, row, nil)
	if err != nil {
		return err
	}
	defer rows.Close(ctx)
	if _, err := rows.Next(ctx); err != nil {
		if del {
			return nil
		}
		return s.Insert(ctx, []types.Row{row})
	}
	rr, err := rows.Current()
	if err != nil {
		return err
	}
	if del {
		return rr.Delete(ctx)
	}
	return rr.Update(ctx, []types.ColumnNum{1}, []types.Value{row[1]})
}

func (j *job) run(st storage.Store, tbls []*Table) (*outcome, error) {
	out := &outcome{job: j}
	pause(j.yields[0])
	out.began = int64(time.Since(epoch))
	tx := st.Begin()
	pause(j.yields[1])
	state, version, err := readState(tx, tbls)
	if err != nil {
		return nil, err
	}
	out.state, out.version = state, version

	for i, op := range j.ops {
		if err := set(tx, tbls[op.table], int64(op.key), int64(op.val), op.del); err != nil {
			return nil, err
		}
		pause(j.yields[2+i])
	}
	if j.fail {
		s, err := tbls[0].open(tx)
		if err != nil {
			return nil, err
		}
		err = s.Insert(ctx, []types.Row{{types.Int64Value(1 << 41), types.Int64Value(1)},
			{types.Int64Value(versionKey), types.Int64Value(1)}})
		if err == nil {
			return nil, errors.New("a duplicate was inserted")
		}
	}
	// Everything is as it was, but for what the transaction itself did.
	after, nversion, err := readState(tx, tbls)
	if err != nil {
		return nil, err
	}
	if nversion != version {
		return nil, fmt.Errorf("the version went from %d to %d during a transaction", version, nversion)
	}
	if d := diffState(after, j.apply(state)); d != "" {
		return nil, fmt.Errorf("in a transaction after its changes %s", d)
	}
	if !j.commit {
		if err := tx.Rollback(); err != nil {
			return nil, err
		}
		out.ended = int64(time.Since(epoch))
		return out, nil
	}
	if err := set(tx, tbls[0], versionKey, int64(version+1), false); err != nil {
		return nil, err
	}
	if err := tx.Commit(ctx); err != nil {
		return nil, err
	}
	out.committed = true
	out.ended = int64(time.Since(epoch))
	return out, nil
}
