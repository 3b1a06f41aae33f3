package store

import (
	"fmt"
	"io"
	"strings"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"

	"mahoverif/h"
	"mahoverif/vals"

	"pgregory.net/rapid"
)

// scan is an open scan and what it has to return.
type scan struct {
	n    int
	tid  storage.TableId
	rows storage.Rows
	cols []types.ColumnNum
	want []*Row
	next int
	held []heldRef
}

// heldRef is a reference that was got from a scan on an earlier row.
type heldRef struct {
	row *Row
	ref storage.RowRef
}

// config says what a machine does: the weights of its operations.
type config struct {
	tables    int
	maxRows   int
	shape     shape
	insert    int
	batch     int // largest insert
	bad       int // percent of changes that should fail
	update    int // by a new scan of one row
	delete    int
	sweep     int // scan the table and change it on the way
	open      int // open a scan
	step      int // step an open scan, changing the row it is on
	close     int
	dropTable int
	create    int
	end       int // commit or rollback
	endScans  int // percent of ends tried while scans are open
	deep      int // percent of checks against the whole store
	bulk      int // change hundreds of rows
}

// machine runs operations against the store and the model.
type machine struct {
	t    *rapid.T
	c    *h.Case
	cfg  config
	st   storage.Store
	tx   storage.Transaction
	done DB // as committed
	db   DB // as the transaction has it

	scans  []*scan
	nscan  int
	ids    int
	ops    int
	cnt    map[string]int
	handle map[storage.TableId]storage.Table
	gone   map[storage.TableId]*Table // the last definition of each table
	keeps  bool                       // keep using one handle for a table
}

func newMachine(t *rapid.T, c *h.Case, cfg config) *machine {
	m := &machine{t: t, c: c, cfg: cfg, st: newStore(), done: DB{}, cnt: map[string]int{},
		gone: map[storage.TableId]*Table{}}
	m.begin()
	return m
}

func (m *machine) log(format string, args ...any) {
	m.c.Note(format, args...)
}

func (m *machine) fail(format string, args ...any) {
	m.t.Helper()
	m.t.Fatalf(format, args...)
}

func (m *machine) begin() {
	m.tx = m.st.Begin()
	if m.tx == nil {
		m.fail("no transaction")
	}
	m.db = m.done.clone()
	m.handle = map[storage.TableId]storage.Table{}
	m.keeps = h.Chance(m.t, 50, "keep handles")
	m.log("begin")
}

func (m *machine) open(tbl *Table) storage.Table {
	if st, ok := m.handle[tbl.tid]; ok && m.keeps {
		return st
	}
	st, err := tbl.open(m.tx)
	if err != nil {
		m.fail("open table %s: %s", tbl, err)
	}
	m.handle[tbl.tid] = st
	return st
}

func (m *machine) create(tid storage.TableId) *Table {
	tbl := genTable(m.t, tid, m.cfg.shape)
	m.log("create %s", tbl)
	if err := tbl.create(m.tx); err != nil {
		m.fail("create table %s: %s", tbl, err)
	}
	m.db[tid] = tbl
	m.gone[tid] = tbl
	m.cnt["create"]++
	return tbl
}

func (m *machine) pick() *Table {
	ts := m.db.tids()
	if len(ts) == 0 {
		return nil
	}
	return m.db[ts[h.N(m.t, len(ts), "table")]]
}

func (m *machine) check(tbl *Table) {
	if err := tbl.check(m.tx); err != nil {
		m.fail("%s", err)
	}
}

func (m *machine) checkAll() {
	if err := m.db.check(m.tx); err != nil {
		m.fail("%s", err)
	}
	if m.cfg.create == 0 {
		return
	}
	// Tables that are not there cannot be opened.
	for n := 0; n < m.cfg.tables; n++ {
		tid := tids[n%len(tids)]
		if m.db[tid] != nil {
			continue
		}
		tbl := m.gone[tid]
		if tbl == nil {
			continue
		}
		err := h.Refused(fmt.Sprintf("opening the missing table %s", tbl), func() error {
			_, err := tbl.open(m.tx)
			return err
		})
		if err != nil {
			m.fail("%s", err)
		}
	}
}

// conforms tells values that genValue could have given from bad ones.
func (tbl *Table) conforms(row types.Row) bool {
	for i, v := range row {
		if vals.Conforms(tbl.types[i], v) != "" {
			return false
		}
	}
	return true
}

func (m *machine) insert(tbl *Table) {
	n := h.N(m.t, m.cfg.batch+1, "rows")
	if len(tbl.rows)+n > m.cfg.maxRows {
		n = min(n, 1)
	}
	var rows []types.Row
	var bad string
	ntbl := *tbl
	ntbl.rows = append([]*Row(nil), tbl.rows...)
	breakAt := -1
	if n > 0 && h.Chance(m.t, m.cfg.bad, "bad") {
		breakAt = h.N(m.t, n, "break at")
	}
	for i := 0; i < n; i++ {
		row := tbl.genRow(m.t, m.cfg.shape)
		if i == breakAt {
			if len(ntbl.rows) > 0 && h.Chance(m.t, 60, "duplicate") {
				tbl.likeKey(m.t, row, ntbl.rows[h.N(m.t, len(ntbl.rows), "of")].row)
			} else {
				col := h.N(m.t, len(row), "bad column")
				if v, ok := badValue(m.t, tbl.types[col]); ok {
					row[col] = v
					bad = "a bad value"
				}
			}
		}
		if _, dup := ntbl.find(row); bad == "" && dup {
			if i != breakAt && h.Chance(m.t, 90, "leave out") {
				continue
			}
			bad = "a duplicate key"
		}
		rows = append(rows, row)
		if bad == "" {
			m.ids++
			ntbl.put(&Row{m.ids, row})
		}
	}

	m.log("insert into %d: %s", tbl.tid, showRows(rows))
	given := make([]types.Row, len(rows))
	for i := range rows {
		given[i] = append(types.Row(nil), rows[i]...)
	}
	err := m.open(tbl).Insert(ctx, given)
	// What was given is the caller's, to use again.
	for i := range given {
		for j := range given[i] {
			given[i][j] = types.StringValue("used again")
		}
		given[i] = nil
	}
	if bad != "" {
		m.log("... with %s: %v", bad, err)
		if err == nil {
			m.fail("insert of %s into %s with %s succeeded", showRows(rows), tbl, bad)
		}
		m.cnt["failed insert"]++
		if len(rows) > 1 {
			m.cnt["failed insert of rows"]++
		}
		return
	}
	if err != nil {
		m.fail("insert of %s into %s: %s", showRows(rows), tbl, err)
	}
	tbl.rows = ntbl.rows
	m.cnt["insert"] += len(rows)
	m.cnt["max rows"] = max(m.cnt["max rows"], len(tbl.rows))
}

// current finds the row that a scan is on, if it is where it was.
func (m *machine) current(sc *scan) *Row {
	tbl := m.db[sc.tid]
	if tbl == nil || sc.next == 0 || sc.next > len(sc.want) {
		return nil
	}
	r := sc.want[sc.next-1]
	n, ok := tbl.find(r.row)
	if !ok || tbl.rows[n].id != r.id {
		return nil
	}
	return tbl.rows[n]
}

// step gets the next row of a scan.
func (m *machine) step(sc *scan) bool {
	row, err := sc.rows.Next(ctx)
	if sc.next >= len(sc.want) {
		if err != io.EOF {
			m.fail("scan %d of %d: got %v, %v at its end", sc.n, sc.tid, row, err)
		}
		sc.next = len(sc.want) + 1
		m.log("scan %d: end", sc.n)
		return false
	}
	if err != nil {
		m.fail("scan %d of %d: %s; want %s", sc.n, sc.tid, err,
			vals.ShowRow(sc.want[sc.next].row))
	}
	want := project(sc.want[sc.next].row, sc.cols)
	m.log("scan %d: %s", sc.n, vals.ShowRow(row))
	if !vals.SameRow(row, want) {
		m.fail("scan %d of %d: got %s; want %s", sc.n, sc.tid, vals.ShowRow(row),
			vals.ShowRow(want))
	}
	sc.next++
	return true
}

func project(row types.Row, cols []types.ColumnNum) types.Row {
	if cols == nil {
		return row
	}
	nrow := types.Row{}
	for _, col := range cols {
		nrow = append(nrow, row[col])
	}
	return nrow
}

func genCols(t *rapid.T, n int) []types.ColumnNum {
	if h.Chance(t, 50, "all columns") {
		return nil
	}
	cols := []types.ColumnNum{}
	for k := h.N(t, n+2, "columns"); k > 0; k-- {
		cols = append(cols, types.ColumnNum(h.N(t, n, "column")))
	}
	return cols
}

func (m *machine) openScan(tbl *Table) *scan {
	m.nscan++
	sc := &scan{n: m.nscan, tid: tbl.tid, cols: genCols(m.t, len(tbl.cols))}
	var min, max types.Row
	if h.Chance(m.t, 30, "bounded") {
		min, max = tbl.genBounds(m.t, m.cfg.shape)
	}
	for _, r := range tbl.rows {
		if tbl.within(r.row, min, max) {
			sc.want = append(sc.want, r)
		}
	}
	m.log("scan %d: open on %d columns %v from %s to %s", sc.n, tbl.tid, sc.cols,
		vals.ShowRow(min), vals.ShowRow(max))
	rows, err := m.open(tbl).Rows(ctx, sc.cols, min, max, nil)
	if err != nil {
		m.fail("rows of %s: %s", tbl, err)
	}
	sc.rows = rows
	m.cnt["scan"]++
	return sc
}

func (tbl *Table) within(row, min, max types.Row) bool {
	return (min == nil || vals.CompareKeys(tbl.key, row, min) >= 0) &&
		(max == nil || vals.CompareKeys(tbl.key, row, max) <= 0)
}

// genBounds draws bounds; a bound is often a row that is there.
func (tbl *Table) genBounds(t *rapid.T, sh shape) (min, max types.Row) {
	bound := func(label string) types.Row {
		if h.Chance(t, 25, "no "+label) {
			return nil
		}
		row := tbl.genRow(t, sh)
		if len(tbl.rows) > 0 && h.Chance(t, 60, "existing") {
			tbl.likeKey(t, row, tbl.rows[h.N(t, len(tbl.rows), "row")].row)
		}
		for _, ck := range tbl.key {
			if h.Chance(t, 6, "null") {
				row[ck.Column()] = nil
			}
		}
		return row
	}
	min, max = bound("min"), bound("max")
	if min != nil && max != nil && vals.CompareKeys(tbl.key, min, max) > 0 && h.Chance(t, 85, "swap") {
		min, max = max, min
	}
	return min, max
}

func (m *machine) closeScan(sc *scan) {
	m.log("scan %d: close", sc.n)
	if err := sc.rows.Close(ctx); err != nil {
		m.fail("close scan %d: %s", sc.n, err)
	}
	for i := range m.scans {
		if m.scans[i] == sc {
			m.scans = append(m.scans[:i:i], m.scans[i+1:]...)
			break
		}
	}
}

// change updates or deletes the row that a scan is on.
func (m *machine) change(sc *scan, del bool) {
	r := m.current(sc)
	if r == nil {
		return
	}
	rr, err := sc.rows.Current()
	if err != nil {
		m.fail("current of scan %d: %s", sc.n, err)
	}
	m.changeRow(sc, r, rr, del)
}

// hold keeps a reference to the row that a scan is on, for later.
func (m *machine) hold(sc *scan) {
	r := m.current(sc)
	if r == nil {
		return
	}
	rr, err := sc.rows.Current()
	if err != nil {
		m.fail("current of scan %d: %s", sc.n, err)
	}
	m.log("scan %d: hold %s", sc.n, vals.ShowRow(r.row))
	sc.held = append(sc.held, heldRef{r, rr})
}

// changeHeld changes a row that a scan was on some time ago.
func (m *machine) changeHeld(sc *scan) {
	tbl := m.db[sc.tid]
	if tbl == nil || len(sc.held) == 0 {
		return
	}
	n := h.N(m.t, len(sc.held), "held")
	hr := sc.held[n]
	sc.held = append(sc.held[:n:n], sc.held[n+1:]...)
	i, ok := tbl.find(hr.row.row)
	if !ok || tbl.rows[i].id != hr.row.id {
		return // it is gone, or has another key
	}
	m.cnt["held"]++
	m.changeRow(sc, tbl.rows[i], hr.ref, h.Chance(m.t, 50, "delete"))
}

// changeRow updates or deletes a row through a reference to it.
func (m *machine) changeRow(sc *scan, r *Row, rr storage.RowRef, del bool) {
	tbl := m.db[sc.tid]
	if del {
		m.log("scan %d: delete %s", sc.n, vals.ShowRow(r.row))
		if err := rr.Delete(ctx); err != nil {
			m.fail("delete %s from %s: %s", vals.ShowRow(r.row), tbl, err)
		}
		tbl.remove(r.row)
		m.cnt["delete"]++
		return
	}

	n := len(tbl.cols)
	perm := h.Perm(m.t, n, "columns")[:1+h.N(m.t, n, "number of columns")]
	nrow := append(types.Row(nil), r.row...)
	var cols []types.ColumnNum
	var vs []types.Value
	bad := ""
	wantBad := h.Chance(m.t, m.cfg.bad, "bad")
	asDuplicate := wantBad && len(tbl.rows) > 1 && h.Chance(m.t, 60, "duplicate")
	var other types.Row
	if asDuplicate {
		other = tbl.rows[h.N(m.t, len(tbl.rows), "other row")].row
		if h.Chance(m.t, 80, "whole key") {
			for _, ck := range tbl.key {
				found := false
				for _, p := range perm {
					found = found || p == int(ck.Column())
				}
				if !found {
					perm = append(perm, int(ck.Column()))
				}
			}
		}
	}
	for i, col := range perm {
		v := genValue(m.t, tbl.types[col], m.cfg.shape)
		if other != nil && tbl.isKey(col) {
			v = other[col]
		} else if h.Chance(m.t, 20, "keep") {
			v = r.row[col]
		}
		if wantBad && !asDuplicate && (i == len(perm)-1 || h.Chance(m.t, 30, "here")) {
			if bv, ok := badValue(m.t, tbl.types[col]); ok {
				v, bad = bv, "a bad value"
			}
		}
		cols = append(cols, types.ColumnNum(col))
		vs = append(vs, v)
		nrow[col] = v
	}
	if bad == "" {
		if i, dup := tbl.find(nrow); dup && tbl.rows[i].id != r.id {
			bad = "a duplicate key"
		}
	}

	m.log("scan %d: update %s set %v to %s", sc.n, vals.ShowRow(r.row), cols, vals.ShowRow(vs))
	err := rr.Update(ctx, cols, vs)
	if bad != "" {
		m.log("... with %s: %v", bad, err)
		if err == nil {
			m.fail("update of %s in %s: set %v to %s with %s succeeded", vals.ShowRow(r.row), tbl,
				cols, vals.ShowRow(vs), bad)
		}
		m.cnt["failed update"]++
		return
	}
	if err != nil {
		m.fail("update of %s in %s: set %v to %s: %s", vals.ShowRow(r.row), tbl, cols,
			vals.ShowRow(vs), err)
	}
	if vals.CompareKeys(tbl.key, r.row, nrow) != 0 {
		m.cnt["move"]++
	}
	tbl.remove(r.row)
	tbl.put(&Row{r.id, nrow})
	m.cnt["update"]++
}

// roomy finds a key column with room for a lot of keys.
func (tbl *Table) roomy() (types.ColumnNum, bool) {
	for _, ck := range tbl.key {
		switch ct := tbl.types[ck.Column()]; ct.Type {
		case types.Int64Type:
			if ct.Size >= 4 {
				return ck.Column(), true
			}
		case types.StringType, types.BytesType:
			if ct.Size >= 8 {
				return ck.Column(), true
			}
		}
	}
	return 0, false
}

// roomyValue is a different value for each number.
func roomyValue(ct types.ColumnType, n int) types.Value {
	switch ct.Type {
	case types.StringType:
		return types.StringValue(fmt.Sprintf("%x", n))
	case types.BytesType:
		u := uint32(n)
		return types.BytesValue{byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24)}
	}
	return types.Int64Value(n)
}

// bulk changes a lot of rows in one way.
func (m *machine) bulk(tbl *Table) {
	col, ok := tbl.roomy()
	if !ok {
		return
	}
	kind := h.Weighted(m.t, "bulk", 5, 1, 1, 1)
	if len(tbl.rows) < 30 {
		kind = 0
	}
	if kind != 0 {
		// Change every so many rows.
		sc := m.openScan(tbl)
		every, from := 1+h.N(m.t, 4, "every"), h.N(m.t, 4, "from")
		shift := h.Pick(m.t, "shift", 1, 100000, -100000, 3)
		like := tbl.genRow(m.t, m.cfg.shape)
		m.log("scan %d: kind %d of every %d rows from %d: %s, %d", sc.n, kind, every, from,
			vals.ShowRow(like), shift)
		for n := 0; m.step(sc); n++ {
			r := m.current(sc)
			if n%every != from%every || r == nil {
				continue
			}
			rr, err := sc.rows.Current()
			if err != nil {
				m.fail("current of scan %d: %s", sc.n, err)
			}
			if kind == 1 {
				if err := rr.Delete(ctx); err != nil {
					m.fail("delete %s from %s: %s", vals.ShowRow(r.row), tbl, err)
				}
				tbl.remove(r.row)
				m.cnt["delete"]++
				continue
			}
			nrow := append(types.Row(nil), r.row...)
			var cols []types.ColumnNum
			var vs []types.Value
			for i := range nrow {
				if kind == 2 && !tbl.isKey(i) {
					nrow[i] = like[i]
				} else if kind == 3 && i == int(col) {
					nrow[i] = roomyValue(tbl.types[i], int(r.id)+shift)
				} else {
					continue
				}
				cols, vs = append(cols, types.ColumnNum(i)), append(vs, nrow[i])
			}
			i, dup := tbl.find(nrow)
			dup = dup && tbl.rows[i].id != r.id
			if err := rr.Update(ctx, cols, vs); (err != nil) != dup {
				m.fail("update of %s in %s to %s: %v; want failure: %v", vals.ShowRow(r.row), tbl,
					vals.ShowRow(nrow), err, dup)
			}
			if !dup {
				tbl.remove(r.row)
				tbl.put(&Row{r.id, nrow})
				m.cnt["update"]++
			}
		}
		m.closeScan(sc)
		m.cnt["bulk change"]++
		return
	}

	n := 20 + h.N(m.t, 1+h.N(m.t, 800, "up to"), "rows")
	if len(tbl.rows)+n > 1600 {
		return
	}
	first := h.Pick(m.t, "first", 0, -n/2, m.ids, 1000)
	step := 1 + h.N(m.t, 3, "step")
	order := h.N(m.t, 3, "order")
	var likes []types.Row
	for k := 1 + h.N(m.t, 3, "templates"); k > 0; k-- {
		likes = append(likes, tbl.genRow(m.t, m.cfg.shape))
	}
	breakAt := -1
	if h.Chance(m.t, m.cfg.bad, "bad") {
		breakAt = h.N(m.t, n, "break at")
	}
	m.log("insert into %d %d rows from %d by %d, order %d, like %s, break at %d", tbl.tid, n, first,
		step, order, showRows(likes), breakAt)
	ntbl := *tbl
	ntbl.rows = append([]*Row(nil), tbl.rows...)
	var given []types.Row
	bad := ""
	for i := 0; i < n; i++ {
		k := i
		switch order {
		case 1:
			k = n - 1 - i
		case 2:
			k = i * 7919 % n // in some other order; keys may be equal, which are left out
		}
		row := append(types.Row(nil), likes[i%len(likes)]...)
		row[col] = roomyValue(tbl.types[col], first+k*step)
		_, dup := ntbl.find(row)
		if i == breakAt {
			bcol := h.N(m.t, len(row), "bad column")
			if v, ok := badValue(m.t, tbl.types[bcol]); ok && h.Chance(m.t, 40, "bad value") {
				row[bcol] = v
				bad = "a bad value"
			} else if len(ntbl.rows) > 0 && bad == "" {
				for _, ck := range tbl.key {
					row[ck.Column()] = ntbl.rows[h.N(m.t, len(ntbl.rows), "of")].row[ck.Column()]
				}
				_, dup = ntbl.find(row)
				if dup {
					bad = "a duplicate key"
				}
			}
		} else if dup {
			continue
		}
		given = append(given, append(types.Row(nil), row...))
		if bad == "" {
			m.ids++
			ntbl.put(&Row{m.ids, row})
		}
	}
	err := m.open(tbl).Insert(ctx, given)
	if (err != nil) != (bad != "") {
		m.fail("insert of %d rows into %s with %s: %v", len(given), tbl, bad, err)
	}
	m.cnt["bulk insert"]++
	if bad != "" {
		m.cnt["failed bulk insert"]++
		return
	}
	tbl.rows = ntbl.rows
	m.cnt["insert"] += len(given)
	m.cnt["max rows"] = max(m.cnt["max rows"], len(tbl.rows))
}

// sweep scans a table from end to end and changes it on the way.
func (m *machine) sweep(tbl *Table) {
	sc := m.openScan(tbl)
	kind := h.Weighted(m.t, "sweep", 3, 2, 2, 2, 2)
	for m.step(sc) {
		switch kind {
		case 0:
			if h.Chance(m.t, 50, "update") {
				m.change(sc, false)
			}
		case 1:
			if h.Chance(m.t, 50, "delete") {
				m.change(sc, true)
			}
		case 2:
			switch h.N(m.t, 4, "what") {
			case 0:
				m.change(sc, true)
			case 1:
				m.change(sc, false)
			case 2:
				m.insert(tbl)
			}
		case 3:
			m.change(sc, false)
			if h.Chance(m.t, 30, "again") {
				m.change(sc, h.Chance(m.t, 30, "delete"))
			}
		case 4:
			if h.Chance(m.t, 60, "hold") {
				m.hold(sc)
			}
			if h.Chance(m.t, 30, "change an earlier one") {
				m.changeHeld(sc)
			}
		}
	}
	for len(sc.held) > 0 {
		m.changeHeld(sc)
	}
	m.closeScan(sc)
	m.cnt["sweep"]++
}

func (m *machine) one(tbl *Table, del bool) {
	if len(tbl.rows) == 0 {
		return
	}
	r := tbl.rows[h.N(m.t, len(tbl.rows), "row")]
	rows, err := m.open(tbl).Rows(ctx, nil, r.row, r.row, nil)
	if err != nil {
		m.fail("rows of %s: %s", tbl, err)
	}
	m.nscan++
	sc := &scan{n: m.nscan, tid: tbl.tid, rows: rows, want: []*Row{r}}
	m.log("scan %d: open on the row %s of %d", sc.n, vals.ShowRow(r.row), tbl.tid)
	m.step(sc)
	m.change(sc, del)
	m.closeScan(sc)
}

func (m *machine) end(commit bool) {
	for len(m.scans) > 0 {
		if h.Chance(m.t, m.cfg.endScans, "try with open scans") {
			tryCommit := h.Chance(m.t, 50, "try commit")
			m.log("try to end with open scans: commit %v", tryCommit)
			err := h.Refused("completing a transaction with open scans", func() error {
				if tryCommit {
					return m.tx.Commit(ctx)
				}
				return m.tx.Rollback()
			})
			if err != nil {
				m.fail("%s", err)
			}
			m.cnt["end refused"]++
			m.checkAll()
		}
		m.closeScan(m.scans[h.N(m.t, len(m.scans), "close")])
	}
	if commit {
		m.log("commit")
		if err := m.tx.Commit(ctx); err != nil {
			m.fail("commit: %s", err)
		}
		m.done = m.db
		m.cnt["commit"]++
	} else {
		m.log("rollback")
		if err := m.tx.Rollback(); err != nil {
			m.fail("rollback: %s", err)
		}
		m.cnt["rollback"]++
	}
}

func (m *machine) op() {
	m.ops++
	cfg := &m.cfg
	if h.Chance(m.t, 20, "next statement") {
		m.tx.NextStmt()
	}
	var tbl *Table
	switch h.Weighted(m.t, "op", cfg.insert, cfg.update, cfg.delete, cfg.sweep, cfg.open, cfg.step,
		cfg.close, cfg.dropTable, cfg.create, cfg.end, cfg.bulk) {
	case 0:
		if tbl = m.pick(); tbl != nil {
			m.insert(tbl)
		}
	case 1:
		if tbl = m.pick(); tbl != nil {
			m.one(tbl, false)
		}
	case 2:
		if tbl = m.pick(); tbl != nil {
			m.one(tbl, true)
		}
	case 3:
		if tbl = m.pick(); tbl != nil {
			m.sweep(tbl)
		}
	case 4:
		if tbl = m.pick(); tbl != nil && len(m.scans) < 4 {
			m.scans = append(m.scans, m.openScan(tbl))
		}
	case 5:
		if len(m.scans) > 0 {
			sc := m.scans[h.N(m.t, len(m.scans), "scan")]
			if sc.next <= len(sc.want) && m.step(sc) {
				switch h.N(m.t, 6, "then") {
				case 1:
					m.change(sc, true)
				case 2:
					m.change(sc, false)
				case 3:
					m.hold(sc)
				case 4:
					m.changeHeld(sc)
				}
			}
			tbl = m.db[sc.tid]
		}
	case 6:
		if len(m.scans) > 0 {
			m.closeScan(m.scans[h.N(m.t, len(m.scans), "scan")])
		}
	case 7:
		if tbl = m.pick(); tbl != nil {
			for _, sc := range m.scans {
				if sc.tid == tbl.tid {
					return
				}
			}
			m.log("drop %d", tbl.tid)
			if err := m.tx.DropTable(ctx, tbl.tid); err != nil {
				m.fail("drop table %s: %s", tbl, err)
			}
			delete(m.db, tbl.tid)
			delete(m.handle, tbl.tid)
			tbl = nil
			m.cnt["drop"]++
		}
	case 8:
		tid := m.tid()
		if m.db[tid] == nil {
			tbl = m.create(tid)
		}
	case 9:
		m.end(h.Chance(m.t, 60, "commit"))
		m.begin()
		m.checkAll()
	case 10:
		if tbl = m.pick(); tbl != nil {
			m.bulk(tbl)
		}
	}

	if tbl != nil {
		m.check(tbl)
	}
	if h.Chance(m.t, cfg.deep, "check all") {
		m.checkAll()
	}
}

// tid draws a table number, numbers of neighbours above all.
func (m *machine) tid() storage.TableId {
	n := h.N(m.t, m.cfg.tables, "table number")
	return tids[n%len(tids)]
}

var tids = []storage.TableId{16, 17, 18, 1 << 31, 255, 256, 0xffffffff, 1<<31 - 1, 0x10010, 1000}

func (m *machine) summary() string {
	var ss []string
	for _, k := range h.SortedKeys(m.cnt) {
		ss = append(ss, fmt.Sprintf("%s %d", k, m.cnt[k]))
	}
	return strings.Join(ss, ", ")
}
