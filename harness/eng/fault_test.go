package eng

import (
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/types"

	"mahoverif/h"
	"mahoverif/vals"

	"pgregory.net/rapid"
)

// faultMachine runs catalog operations on a store that fails.
type faultMachine struct {
	*catMachine
	st *faulty
}

// try runs one operation that may meet the failure; ok tells whether it should succeed otherwise.
// It reports whether the operation took effect.
func (m *faultMachine) try(what string, ok bool, fn func() error) bool {
	m.t.Helper()
	m.st.fired = ""
	err := fn()
	fired := m.st.fired
	m.c.Note("%s: %v; failed: %s", what, err, fired)
	switch {
	case fired == "":
		return m.expect(what, ok, err)
	case err == nil && (fired != "close" || !ok):
		m.fail("%s succeeded although %s failed; catalog %s", what, fired, m.cat)
	case err == nil:
		return ok
	case fired == "rollback" || fired == "close" && !ok:
	case !strings.Contains(err.Error(), m.st.err.Error()):
		m.fail("%s: %s failed but is reported as: %s", what, fired, err)
	}
	m.cnt["failed "+fired]++
	m.cnt["failed"]++
	return false
}

// quiet checks that nothing is left open between transactions.
func (m *faultMachine) quiet(what string) {
	m.t.Helper()
	if m.st.rows != 0 {
		m.fail("%s left %d scans open", what, m.st.rows)
	}
	if m.tx == nil && m.st.open != 0 {
		m.fail("%s left a transaction open", what)
	}
}

func (m *faultMachine) arm() {
	if h.Chance(m.t, 85, "arm") {
		n := h.N(m.t, 16, "operations until the failure")
		late := h.Chance(m.t, 50, "late")
		m.c.Note("armed %d %v", n, late)
		m.st.arm(n, late, h.Pick(m.t, "failure", failures...))
	}
}

// database runs one operation of the engine itself.
func (m *faultMachine) database() {
	d := m.db()
	_, there := m.done[d.String()]
	n := m.done.clone()
	m.arm()
	switch h.N(m.t, 4, "operation") {
	case 0:
		if m.try(fmt.Sprintf("create database %q", d), !there,
			func() error { return m.eng.CreateDatabase(d, nil) }) {
			n[d.String()] = map[string]map[string]*def{}
		}
	case 1, 2:
		ifExists := h.Chance(m.t, 40, "if exists")
		if m.try(fmt.Sprintf("drop database %q, if exists %v", d, ifExists), there || ifExists,
			func() error { return m.eng.DropDatabase(d, ifExists) }) {
			delete(n, d.String())
		}
	case 3:
		var ids []types.Identifier
		if m.try("list databases", true,
			func() (err error) { ids, err = m.eng.ListDatabases(); return }) {
			if got, want := strs(ids), h.SortedKeys(m.done); fmt.Sprint(got) != fmt.Sprint(want) {
				m.fail("databases %q; want %q", got, want)
			}
		}
	}
	m.st.disarm()
	m.done, m.cat = n, n
	m.quiet("the operation")
}

// transaction runs a transaction until an operation fails, or else to its end.
func (m *faultMachine) transaction() {
	m.begin()
	m.arm()
	failed := false
	for n := 1 + h.N(m.t, 5, "operations"); n > 0 && !failed; n-- {
		m.st.fired = ""
		switch h.N(m.t, 6, "operation") {
		case 0:
			sn := m.schema()
			ss, ok := m.cat[sn.Database.String()]
			if _, there := ss[sn.Schema.String()]; there {
				ok = false
			}
			if m.try(fmt.Sprintf("create schema %q.%q", sn.Database, sn.Schema), ok,
				func() error { return m.tx.CreateSchema(ctx, sn) }) {
				ss[sn.Schema.String()] = map[string]*def{}
			}
		case 1:
			sn := m.schema()
			ss := m.cat[sn.Database.String()]
			_, there := ss[sn.Schema.String()]
			ifExists := h.Chance(m.t, 40, "if exists")
			if m.try(fmt.Sprintf("drop schema %q.%q, if exists %v", sn.Database, sn.Schema, ifExists),
				there || ifExists, func() error { return m.tx.DropSchema(ctx, sn, ifExists) }) {
				delete(ss, sn.Schema.String())
			}
		case 2, 3:
			tn := m.table()
			d := genDef(m.t, false)
			ts, ok := m.cat[tn.Database.String()][tn.Schema.String()]
			if _, there := ts[tn.Table.String()]; there {
				ok = false
			}
			if m.try(fmt.Sprintf("create table %q.%q.%q", tn.Database, tn.Schema, tn.Table), ok,
				func() error { return m.tx.CreateTable(ctx, tn, d.names, d.types, d.key) }) {
				ts[tn.Table.String()] = d
			}
		case 4:
			tn := m.table()
			_, ok := m.cat[tn.Database.String()][tn.Schema.String()][tn.Table.String()]
			m.try(fmt.Sprintf("open table %q.%q.%q", tn.Database, tn.Schema, tn.Table), ok,
				func() error { _, err := m.tx.OpenTable(ctx, tn); return err })
		case 5:
			d := m.db()
			ss, ok := m.cat[d.String()]
			var ids []types.Identifier
			if m.try(fmt.Sprintf("list schemas of %q", d), ok,
				func() (err error) { ids, err = m.tx.ListSchemas(ctx, d); return }) {
				if got, want := strs(ids), h.SortedKeys(ss); fmt.Sprint(got) != fmt.Sprint(want) {
					m.fail("schemas of %q: %q; want %q", d, got, want)
				}
			}
		}
		failed = m.st.fired != ""
		m.quiet("the operation")
	}
	tx := m.tx
	m.tx = nil
	if failed || h.Chance(m.t, 30, "roll back") {
		if m.st.armed && h.Chance(m.t, 50, "fail at once") {
			m.st.left = 0
		}
		m.st.fired = ""
		if err := tx.Rollback(); (err != nil) != (m.st.fired != "") {
			m.fail("rollback: %v; failed: %s", err, m.st.fired)
		}
		m.cat = m.done
		m.c.Note("rolled back")
	} else {
		if m.st.armed && h.Chance(m.t, 60, "fail at once") {
			m.st.left = 0
		}
		if m.try("commit", true, func() error { return tx.Commit(ctx) }) {
			m.done = m.cat
			for tid := range m.fresh {
				m.tids[tid] = true
			}
		}
		m.cat = m.done
	}
	if h.Chance(m.t, 30, "again") {
		if tx.Commit(ctx) == nil || tx.Rollback() == nil {
			m.fail("a completed transaction could be completed again")
		}
	}
	m.st.disarm()
	m.quiet("the transaction")
}

// TestP39: failures of the store are reported, hold nothing, and leave no trace.
func TestP39(t *testing.T) {
	t.Run("catalog", func(t *testing.T) {
		h.Check(t, 200, func(rt *rapid.T, c *h.Case) {
			st := &faulty{Store: newStore(), count: map[string]int{}}
			m := &faultMachine{st: st}
			// The initialisation fails, and then does not.
			if h.Chance(rt, 30, "fail to initialise") {
				n := h.N(rt, 22, "operations")
				st.arm(n, h.Chance(rt, 50, "late"), h.Pick(rt, "failure", failures...))
				err := engine.Init(st)
				fired := st.disarm()
				c.Note("init failing after %d operations at %s: %v", n, fired, err)
				if fired != "" && fired != "close" &&
					(err == nil || !strings.Contains(err.Error(), st.err.Error())) {
					rt.Fatalf("init: %s failed but is reported as: %v", fired, err)
				}
				if st.open != 0 || st.rows != 0 {
					rt.Fatalf("init left %d transactions and %d scans open", st.open, st.rows)
				}
				if err == nil {
					if fired == "" {
						c.Label("initialised")
					}
					st.Store = newStore()
				}
			}
			m.catMachine = newCatMachineOn(rt, c, st)
			for n := 2 + h.N(rt, 8, "rounds"); n > 0; n-- {
				for k := h.N(rt, 4, "operations without failure"); k > 0; k-- {
					m.op(6)
				}
				if m.tx != nil {
					m.end(h.Chance(rt, 80, "commit"))
				}
				if h.Chance(rt, 40, "database") {
					m.database()
				} else {
					m.transaction()
				}
				m.check(h.Chance(rt, 25, "everything"))
			}
			m.check(true)
			for k, n := range m.cnt {
				c.LabelIf(n > 0, k)
			}
			if m.cnt["failed"] > 0 && m.cnt["create schema"]+m.cnt["create table"] > 0 {
				c.NonTrivial("%v: %s", m.cnt, m.done)
			}
		})
	})
	t.Run("typed", func(t *testing.T) {
		h.Check(t, 300, typedFaults)
	})
}

// typedFaults runs typed operations on a store that fails.
func typedFaults(rt *rapid.T, c *h.Case) {
	gs := genStruct(rt, true)
	c.Note("%s", gs)
	st := &faulty{Store: newStore(), count: map[string]int{}}
	ti := engine.MakeTypedInfo(100, tableName, reflect.New(gs.typ).Interface())
	tx := st.Begin()
	if err := engine.CreateTypedTable(ctx, tx, ti); err != nil {
		rt.Fatalf("create typed table: %s", err)
	}
	m := &typedModel{st: gs}
	for n := h.N(rt, 8, "structs"); n > 0; n-- {
		p := gs.gen(rt)
		if m.insert(gs.clone(p)) {
			c.Note("%s", gs.show(p))
			if err := engine.TypedTableInsert(ctx, tx, ti, p.Interface()); err != nil {
				rt.Fatalf("insert: %s", err)
			}
		}
	}
	if err := tx.Commit(ctx); err != nil {
		rt.Fatalf("commit: %s", err)
	}

	for n := 1 + h.N(rt, 5, "rounds"); n > 0; n-- {
		tx := st.Begin()
		left := h.N(rt, 3*len(m.ps)+4, "operations until the failure")
		late := h.Chance(rt, 50, "late")
		nm := m.clone()
		seen := 0
		visit := func(row types.Row) reflect.Value {
			if st.fired != "" {
				rt.Fatalf("visited %s after a failure", vals.ShowRow(row))
			}
			if seen >= len(m.ps) || !vals.SameRow(row, gs.row(m.ps[seen])) {
				rt.Fatalf("visited %s as number %d", vals.ShowRow(row), seen)
			}
			seen++
			return m.ps[seen-1]
		}
		var what string
		var ok error // what the operation returns without a failure
		st.arm(left, late, h.Pick(rt, "failure", failures...))
		var err error
		switch h.N(rt, 5, "operation") {
		case 0:
			what = "insert"
			p := gs.gen(rt)
			if !nm.insert(gs.clone(p)) {
				st.disarm()
				tx.Rollback()
				continue
			}
			err = engine.TypedTableInsert(ctx, tx, ti, p.Interface())
		case 1:
			what = "select"
			seen = 0
			err = engine.TypedTableSelect(ctx, tx, ti, nil, nil, func(row types.Row) error {
				visit(row)
				return nil
			})
		case 2:
			what = "lookup"
			p := gs.gen(rt)
			if len(m.ps) > 0 && h.Chance(rt, 60, "existing") {
				p = gs.clone(m.ps[h.N(rt, len(m.ps), "which")])
			}
			if _, there := m.find(gs.row(p)); !there {
				ok = io.EOF
			}
			err = engine.TypedTableLookup(ctx, tx, ti, p.Interface())
		case 3:
			what = "delete"
			err = engine.TypedTableDelete(ctx, tx, ti, nil, nil, func(row types.Row) (bool, error) {
				p := visit(row)
				if h.Chance(rt, 50, "delete") {
					nm.remove(p)
					return true, nil
				}
				return false, nil
			})
		case 4:
			what = "update"
			// Fields that are not in the key.
			up := &structure{}
			var at []int
			for i, f := range gs.fields {
				if !f.primary {
					f.tag = ""
					up.fields = append(up.fields, f)
					at = append(at, i)
				}
			}
			if len(at) == 0 || len(gs.key) == len(gs.fields) {
				st.disarm()
				tx.Rollback()
				continue
			}
			up.typ = structOf(up.fields)
			err = engine.TypedTableUpdate(ctx, tx, ti, nil, nil,
				func(row types.Row) (interface{}, error) {
					p := visit(row)
					if h.Chance(rt, 30, "leave") {
						return nil, nil
					}
					u := up.gen(rt)
					np := gs.clone(p)
					for i, f := range at {
						np.Elem().Field(f).Set(up.clone(u).Elem().Field(i))
					}
					nm.remove(p)
					nm.insert(np)
					return u.Interface(), nil
				})
		}
		fired := st.disarm()
		c.Note("%s failing after %d operations at %s: %v", what, left, fired, err)
		c.Label(what)
		if st.rows != 0 {
			rt.Fatalf("%s left %d scans open", what, st.rows)
		}
		switch {
		case fired == "" || fired == "close" && err == ok:
			if err != ok {
				rt.Fatalf("%s: got error %v; want %v", what, err, ok)
			}
			if seen != len(m.ps) && what != "insert" && what != "lookup" {
				rt.Fatalf("%s visited %d rows; want %d", what, seen, len(m.ps))
			}
			m = nm
			if err := tx.Commit(ctx); err != nil {
				rt.Fatalf("commit: %s", err)
			}
		default:
			if err == nil || !strings.Contains(err.Error(), st.err.Error()) {
				rt.Fatalf("%s: %s failed but is reported as: %v", what, fired, err)
			}
			c.Label("failed " + fired)
			c.NonTrivial("%s: %s failed after %d operations with %d rows", what, fired, left, len(m.ps))
			if err := tx.Rollback(); err != nil {
				rt.Fatalf("rollback: %s", err)
			}
		}
		tx = st.Begin()
		got := readAll(rt, tx, ti, gs, func() reflect.Value { return reflect.New(gs.typ) })
		if len(got) != len(m.ps) {
			rt.Fatalf("%d structs after %s; want %d", len(got), what, len(m.ps))
		}
		for i := range got {
			if d := gs.diff(got[i], m.ps[i]); d != "" {
				rt.Fatalf("struct %d after %s: %s", i, what, d)
			}
		}
		if err := tx.Rollback(); err != nil {
			rt.Fatalf("rollback: %s", err)
		}
	}
}
