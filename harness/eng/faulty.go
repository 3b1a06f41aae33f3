package eng

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

// failures are the errors that the store may fail with; also those of contexts and files.
var failures = []error{errors.New("injected failure"), errors.New("injected failure"),
	context.Canceled, context.DeadlineExceeded, io.ErrUnexpectedEOF, io.ErrClosedPipe,
	&fs.PathError{Op: "read", Path: "table", Err: fs.ErrNotExist},
	fmt.Errorf("injected: %w", fs.ErrExist), errors.New("EOF")}

// faulty is a store of which one operation fails, if it is armed. It also watches what is open.
type faulty struct {
	storage.Store
	armed bool
	left  int  // operations until one fails
	late  bool // a change is done, and fails
	fired string
	err   error // the failure
	open  int   // transactions
	rows  int   // scans
	count map[string]int
}

type faultyTx struct {
	storage.Transaction
	st   *faulty
	done bool
}

type faultyTable struct {
	storage.Table
	st *faulty
}

type faultyRows struct {
	storage.Rows
	st     *faulty
	closed bool
}

type faultyRef struct {
	storage.RowRef
	st *faulty
}

func (st *faulty) arm(left int, late bool, err error) {
	st.armed, st.left, st.late, st.fired, st.err = true, left, late, "", err
}

func (st *faulty) disarm() string {
	st.armed = false
	return st.fired
}

// fails tells whether this operation is the one to fail.
func (st *faulty) fails(op string) bool {
	if !st.armed {
		return false
	}
	if st.left > 0 {
		st.left--
		return false
	}
	st.armed = false
	st.fired = op
	st.count[op]++
	return true
}

// change runs an operation that changes something.
func (st *faulty) change(op string, fn func() error) error {
	if !st.fails(op) {
		return fn()
	}
	if st.late {
		if err := fn(); err != nil {
			st.fired = "" // not by us
			st.count[op]--
			return err
		}
	}
	return st.err
}

func (st *faulty) Begin() storage.Transaction {
	if st.open > 0 {
		panic("a transaction begins while another is open: it would wait for ever")
	}
	st.open++
	return &faultyTx{Transaction: st.Store.Begin(), st: st}
}

func (tx *faultyTx) Store() storage.Store {
	return tx.st
}

func (tx *faultyTx) finish() {
	if !tx.done {
		tx.done = true
		tx.st.open--
	}
}

func (tx *faultyTx) OpenTable(ctx context.Context, tid storage.TableId, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType,
	primary []types.ColumnKey) (storage.Table, error) {

	if tx.st.fails("open table") {
		return nil, tx.st.err
	}
	tbl, err := tx.Transaction.OpenTable(ctx, tid, tn, colNames, colTypes, primary)
	if err != nil {
		return nil, err
	}
	return &faultyTable{tbl, tx.st}, nil
}

func (tx *faultyTx) CreateTable(ctx context.Context, tid storage.TableId, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) error {

	return tx.st.change("create table", func() error {
		return tx.Transaction.CreateTable(ctx, tid, tn, colNames, colTypes, primary)
	})
}

func (tx *faultyTx) DropTable(ctx context.Context, tid storage.TableId) error {
	return tx.st.change("drop table", func() error { return tx.Transaction.DropTable(ctx, tid) })
}

func (tx *faultyTx) Commit(ctx context.Context) error {
	if !tx.done && tx.st.fails("commit") {
		tx.Transaction.Rollback()
		tx.finish()
		return tx.st.err
	}
	err := tx.Transaction.Commit(ctx)
	if err == nil {
		tx.finish()
	}
	return err
}

func (tx *faultyTx) Rollback() error {
	err := tx.Transaction.Rollback()
	if err == nil {
		tx.finish()
		if tx.st.fails("rollback") {
			return tx.st.err
		}
	}
	return err
}

func (tbl *faultyTable) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxRow types.Row,
	pred storage.Predicate) (storage.Rows, error) {

	if tbl.st.fails("rows") {
		return nil, tbl.st.err
	}
	rows, err := tbl.Table.Rows(ctx, cols, minRow, maxRow, pred)
	if err != nil {
		return nil, err
	}
	tbl.st.rows++
	return &faultyRows{Rows: rows, st: tbl.st}, nil
}

func (tbl *faultyTable) Insert(ctx context.Context, rows []types.Row) error {
	return tbl.st.change("insert", func() error { return tbl.Table.Insert(ctx, rows) })
}

func (rs *faultyRows) Next(ctx context.Context) (types.Row, error) {
	if rs.st.fails("next") {
		return nil, rs.st.err
	}
	return rs.Rows.Next(ctx)
}

func (rs *faultyRows) Current() (storage.RowRef, error) {
	if rs.st.fails("current") {
		return nil, rs.st.err
	}
	rr, err := rs.Rows.Current()
	if err != nil {
		return nil, err
	}
	return &faultyRef{rr, rs.st}, nil
}

func (rs *faultyRows) Close(ctx context.Context) error {
	err := rs.Rows.Close(ctx)
	if err == nil {
		if !rs.closed {
			rs.closed = true
			rs.st.rows--
		}
		if rs.st.fails("close") {
			return rs.st.err
		}
	}
	return err
}

func (rr *faultyRef) Update(ctx context.Context, cols []types.ColumnNum, vals []types.Value) error {
	return rr.st.change("update", func() error { return rr.RowRef.Update(ctx, cols, vals) })
}

func (rr *faultyRef) Delete(ctx context.Context) error {
	return rr.st.change("delete", func() error { return rr.RowRef.Delete(ctx) })
}
