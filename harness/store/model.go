// Package store checks the storage layer against a model: tables that are sorted lists of rows.
package store

import (
	"context"
	"fmt"
	"io"
	"slices"
	"sort"
	"strings"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"

	"mahoverif/h"
	"mahoverif/vals"

	"pgregory.net/rapid"
)

var ctx = context.Background()

// Row is a row with an identity of its own that it keeps when it is changed.
type Row struct {
	id  int
	row types.Row
}

// Table is the model of a table.
type Table struct {
	tid   storage.TableId
	name  types.TableName
	cols  []types.Identifier
	types []types.ColumnType
	key   []types.ColumnKey
	rows  []*Row // in key order
}

// DB is the model of a store.
type DB map[storage.TableId]*Table

func (db DB) clone() DB {
	ndb := DB{}
	for tid, tbl := range db {
		t := *tbl
		t.rows = append([]*Row(nil), tbl.rows...)
		ndb[tid] = &t
	}
	return ndb
}

func (db DB) tids() []storage.TableId {
	var ts []storage.TableId
	for tid := range db {
		ts = append(ts, tid)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	return ts
}

// find gives where a row with the key of row is or would be.
func (tbl *Table) find(row types.Row) (int, bool) {
	n := sort.Search(len(tbl.rows), func(i int) bool {
		return vals.CompareKeys(tbl.key, tbl.rows[i].row, row) >= 0
	})
	return n, n < len(tbl.rows) && vals.CompareKeys(tbl.key, tbl.rows[n].row, row) == 0
}

func (tbl *Table) put(r *Row) {
	n, ok := tbl.find(r.row)
	if ok {
		tbl.rows[n] = r
		return
	}
	tbl.rows = append(tbl.rows, nil)
	copy(tbl.rows[n+1:], tbl.rows[n:])
	tbl.rows[n] = r
}

func (tbl *Table) remove(row types.Row) {
	n, ok := tbl.find(row)
	if !ok {
		panic("model: no row to remove")
	}
	tbl.rows = append(tbl.rows[:n:n], tbl.rows[n+1:]...)
}

func (tbl *Table) String() string {
	var ss []string
	for i, ct := range tbl.types {
		s := fmt.Sprintf("%s %s", tbl.cols[i], ct)
		if ct.NotNull {
			s += " NOT NULL"
		}
		ss = append(ss, s)
	}
	return fmt.Sprintf("%d (%s) key %v", tbl.tid, strings.Join(ss, ", "), tbl.key)
}

// open opens the table in a transaction with its definition.
func (tbl *Table) open(tx storage.Transaction) (storage.Table, error) {
	return tx.OpenTable(ctx, tbl.tid, tbl.name, tbl.cols, tbl.types, tbl.key)
}

func (tbl *Table) create(tx storage.Transaction) error {
	return tx.CreateTable(ctx, tbl.tid, tbl.name, tbl.cols, tbl.types, tbl.key)
}

func (tbl *Table) same(o *Table) bool {
	return tbl.tid == o.tid && tbl.name == o.name && slices.Equal(tbl.cols, o.cols) &&
		slices.Equal(tbl.types, o.types) && slices.Equal(tbl.key, o.key)
}

// read reads everything.
func read(tbl storage.Table) ([]types.Row, error) {
	return readRange(tbl, nil, nil, nil, nil)
}

func readRange(tbl storage.Table, cols []types.ColumnNum, min, max types.Row,
	pred storage.Predicate) ([]types.Row, error) {

	rows, err := tbl.Rows(ctx, cols, min, max, pred)
	if err != nil {
		return nil, err
	}
	defer rows.Close(ctx)

	var rs []types.Row
	for {
		row, err := rows.Next(ctx)
		if err == io.EOF {
			// The end stays the end.
			if _, err := rows.Next(ctx); err != io.EOF {
				return nil, fmt.Errorf("next after the end of the rows: %v", err)
			}
			return rs, nil
		} else if err != nil {
			return nil, err
		}
		rs = append(rs, row)
	}
}

func showRows(rs []types.Row) string {
	if len(rs) == 0 {
		return "no rows"
	}
	var ss []string
	for _, r := range rs {
		ss = append(ss, vals.ShowRow(r))
	}
	return strings.Join(ss, " ")
}

func sameRows(a, b []types.Row) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vals.SameRow(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (tbl *Table) all() []types.Row {
	rs := make([]types.Row, 0, len(tbl.rows))
	for _, r := range tbl.rows {
		rs = append(rs, r.row)
	}
	return rs
}

// check compares a table with its model.
func (tbl *Table) check(tx storage.Transaction) error {
	st, err := tbl.open(tx)
	if err != nil {
		return fmt.Errorf("open table %d: %s", tbl.tid, err)
	}
	rs, err := read(st)
	if err != nil {
		return fmt.Errorf("read table %d: %s", tbl.tid, err)
	}
	if !sameRows(rs, tbl.all()) {
		return fmt.Errorf("table %s: got %s; want %s", tbl, showRows(rs), showRows(tbl.all()))
	}
	return nil
}

func (db DB) check(tx storage.Transaction) error {
	for _, tid := range db.tids() {
		if err := db[tid].check(tx); err != nil {
			return err
		}
	}
	return nil
}

func newStore() storage.Store {
	st, err := basic.NewStore("")
	if err != nil {
		panic(err)
	}
	return st
}

// ---- Generators ----

type shape struct {
	wide     bool // keys are rarely equal
	maxCols  int
	intsOnly bool
	roomy    bool // there is a key column with room for a lot of keys
}

func tableName(t *rapid.T, tid storage.TableId) types.TableName {
	return types.TableName{
		Database: types.ID(h.Pick(t, "database", "db", "db", "Other"), true),
		Schema:   types.ID(h.Pick(t, "schema", "scm", "scm", "public"), true),
		Table:    types.ID(fmt.Sprintf("tbl%d", tid), true),
	}
}

func genTable(t *rapid.T, tid storage.TableId, sh shape) *Table {
	tbl := &Table{tid: tid, name: tableName(t, tid)}
	n := 1 + h.N(t, sh.maxCols, "columns")
	many := h.Chance(t, 3, "many columns")
	if many {
		n = 8 + h.N(t, 40, "columns")
	}
	for i := 0; i < n; i++ {
		tbl.cols = append(tbl.cols, types.ID(fmt.Sprintf("c%d", i), true))
		ct := vals.ColumnType(t)
		if sh.intsOnly || sh.wide && i == 0 && h.Chance(t, 60, "wide int") {
			ct = types.Int64ColType
		}
		tbl.types = append(tbl.types, ct)
	}
	nk := 1 + h.N(t, min(n, 3), "key columns")
	if many && h.Chance(t, 50, "long key") {
		nk = 1 + h.N(t, n, "key columns")
	}
	perm := h.Perm(t, n, "key")
	if sh.roomy {
		tbl.types[perm[0]] = h.Pick(t, "roomy", types.Int64ColType, types.NullInt64ColType,
			types.StringColType, types.ColumnType{Type: types.BytesType, Size: 8})
	}
	for _, i := range perm[:nk] {
		tbl.key = append(tbl.key, types.MakeColumnKey(types.ColumnNum(i), h.Chance(t, 40, "desc")))
	}
	return tbl
}

func (tbl *Table) isKey(col int) bool {
	for _, ck := range tbl.key {
		if int(ck.Column()) == col {
			return true
		}
	}
	return false
}

func cut(s string, n uint32) string {
	if uint64(len(s)) <= uint64(n) {
		return s
	}
	r := []rune(s)
	for len(string(r)) > int(n) {
		r = r[:len(r)-1]
	}
	return string(r)
}

// genValue draws a value that the column holds as it is.
func genValue(t *rapid.T, ct types.ColumnType, sh shape) types.Value {
	if !ct.NotNull && h.Chance(t, 15, "null") {
		return nil
	}
	switch ct.Type {
	case types.BoolType:
		return types.BoolValue(h.Chance(t, 50, "bool"))
	case types.Int64Type:
		var i int64
		switch {
		case sh.wide && h.Chance(t, 80, "wide"):
			i = int64(h.N(t, 1<<14, "wide int"))
		case h.Chance(t, 60, "few"):
			i = int64(h.N(t, 7, "few")) - 2
		default:
			i = vals.Int(t)
		}
		switch ct.Size {
		case 1:
			return types.Int64Value(int8(i))
		case 2:
			return types.Int64Value(int16(i))
		case 4:
			return types.Int64Value(int32(i))
		}
		return types.Int64Value(i)
	case types.Float64Type:
		if h.Chance(t, 50, "few") {
			return types.Float64Value(float64(h.N(t, 7, "few"))/2 - 1)
		}
		return types.Float64Value(vals.Float(t))
	case types.StringType:
		if sh.wide && h.Chance(t, 50, "wide") {
			return types.StringValue(cut(fmt.Sprintf("%d", h.N(t, 5000, "wide string")), ct.Size))
		}
		return types.StringValue(cut(vals.String(t, 3), ct.Size))
	case types.BytesType:
		b := vals.Bytes(t, 4)
		if uint64(len(b)) > uint64(ct.Size) {
			b = b[:ct.Size]
		}
		return types.BytesValue(b)
	}
	panic("unexpected type")
}

// badValue draws a value that the column cannot hold; nil, false if there is none.
func badValue(t *rapid.T, ct types.ColumnType) (types.Value, bool) {
	var vs []types.Value
	if ct.NotNull {
		vs = append(vs, nil)
	}
	switch ct.Type {
	case types.BoolType:
		vs = append(vs, types.StringValue("maybe"), types.BytesValue("t"))
	case types.Int64Type:
		vs = append(vs, types.StringValue("x1"), types.BoolValue(true), types.BytesValue("1"),
			types.Float64Value(1e30))
		switch ct.Size {
		case 1:
			vs = append(vs, types.Int64Value(128), types.Int64Value(-129),
				types.StringValue("128"))
		case 2:
			vs = append(vs, types.Int64Value(32768), types.Int64Value(-32769),
				types.StringValue("70000"))
		case 4:
			vs = append(vs, types.Int64Value(1<<31), types.Int64Value(-1<<31-1),
				types.Float64Value(1<<33))
		}
	case types.Float64Type:
		vs = append(vs, types.StringValue("1.5.5"), types.BoolValue(false), types.BytesValue("1"))
	case types.StringType:
		vs = append(vs, types.BoolValue(true), types.BytesValue("\xff"))
		if ct.Size < 100 {
			vs = append(vs, types.StringValue(strings.Repeat("x", int(ct.Size)+1)),
				types.BytesValue(strings.Repeat("é", int(ct.Size)+1)))
		}
	case types.BytesType:
		vs = append(vs, types.BoolValue(true), types.Int64Value(1))
		if ct.Size < 100 {
			vs = append(vs, types.BytesValue(strings.Repeat("x", int(ct.Size)+1)),
				types.StringValue(strings.Repeat("y", int(ct.Size)+1)))
		}
	}
	if len(vs) == 0 {
		return nil, false
	}
	return vs[h.N(t, len(vs), "bad")], true
}

func (tbl *Table) genRow(t *rapid.T, sh shape) types.Row {
	row := make(types.Row, len(tbl.types))
	for i, ct := range tbl.types {
		row[i] = genValue(t, ct, sh)
	}
	return row
}

// likeKey gives a row the key of another, or one close to it.
func (tbl *Table) likeKey(t *rapid.T, row, like types.Row) {
	for _, ck := range tbl.key {
		if !h.Chance(t, 12, "other key") {
			row[ck.Column()] = like[ck.Column()]
		}
	}
}
