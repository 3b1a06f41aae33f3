package sess

import (
	"fmt"
	"testing"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/types"

	"mahoverif/h"

	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	h.Main(m)
}

// machine runs statements in sessions and in the model.
type machine struct {
	t     *rapid.T
	c     *h.Case
	eng   *watched
	other engine.Engine // not watched
	g     *stmts
	ses   []*evaluate.Session
	users []*user
	done  catalog
	cat   catalog // of the open transaction, or done
	owner int     // the session with a transaction, or -1
	cnt   map[string]int
}

func newMachine(t *rapid.T, c *h.Case, sessions int, weigh [10]int) *machine {
	real := newEngine()
	m := &machine{t: t, c: c, eng: &watched{Engine: real}, other: real, done: fresh(), owner: -1,
		cnt: map[string]int{}}
	m.cat = m.done
	m.g = &stmts{t: t, weigh: weigh, known: true,
		dbs:     databases[:1+h.N(t, len(databases), "databases")],
		schemas: schemas[:1+h.N(t, len(schemas), "schemas")],
		tables:  tables[:1+h.N(t, len(tables), "tables")]}
	for i := 0; i < sessions; i++ {
		u := &user{database: types.MAHO, schema: types.PUBLIC}
		if h.Chance(t, 30, "elsewhere") {
			u.database = m.g.pick(m.g.dbs, "database").id
			u.schema = m.g.pick(m.g.schemas, "schema").id
		}
		m.users = append(m.users, u)
		m.ses = append(m.ses, evaluate.NewSession(m.eng, u.database, u.schema))
		c.Note("session %d in %q.%q", i, u.database, u.schema)
	}
	return m
}

// expect is what should come of a statement, and changes the model.
func (m *machine) expect(s stmt, i int) (ok bool) {
	u := m.users[i]
	switch s.kind {
	case "begin":
		if u.inTx {
			return false
		}
		u.inTx = true
		m.owner = i
		m.cat = m.done.clone()
		return true
	case "commit", "rollback":
		if !u.inTx {
			return false
		}
		ok := true
		if s.kind == "commit" && m.eng.fault == failCommit || s.kind == "rollback" && m.eng.fault == failRoll {
			ok = false
			m.cnt["failure injected"]++
		} else if s.kind == "commit" {
			m.done = m.cat
		}
		if len(m.cat.String()) != len(m.done.String()) {
			m.cnt["changes rolled back"]++
		}
		u.inTx = false
		m.owner = -1
		m.cat = m.done
		return ok
	case "set":
		return s.apply(m.cat, u)
	case "database":
		if u.inTx {
			m.cnt["database statement in transaction"]++
			return false
		}
		return s.apply(m.cat, u)
	}
	f := m.eng.fault
	if f == failBefore || f == failAfter {
		m.cnt["failure injected"]++
		return false
	} else if f == failCommit && !u.inTx && s.try(m.cat, u) {
		m.cnt["failure injected"]++
		return false
	}
	return s.apply(m.cat, u)
}

// run runs one statement in one session.
func (m *machine) run(s stmt, i int, f fault) bool {
	u := m.users[i]
	stm, err := parse(s.text)
	if err != nil {
		m.t.Fatalf("parse of %s: %s", s.text, err)
	}
	if f == failAfter && u.inTx {
		// What a failed change leaves in an open transaction is not the session's doing.
		f = noFault
	}
	if (f == failBefore || f == failAfter) && (s.mutates == nil || !s.mutates(m.cat, u)) {
		f = noFault
	}
	m.eng.fault = f
	before := m.cat.String()
	ok := m.expect(s, i)

	m.eng.fault = f
	err = m.ses[i].Evaluate(ctx, stm)
	m.eng.fault = noFault
	m.c.Note("session %d: %s: %v", i, s.text, err)
	if ok && err != nil {
		m.t.Fatalf("session %d: %s failed: %s\n%s\ncatalog %s", i, s.text, err, faultNames[f], before)
	} else if !ok && err == nil {
		m.t.Fatalf("session %d: %s succeeded\n%s\ncatalog %s", i, s.text, faultNames[f], before)
	}
	if ok {
		m.cnt[s.kind+s.what]++
	} else {
		m.cnt["refused"]++
	}
	// Between transactions none is open.
	if m.owner < 0 && len(m.eng.open) > 0 {
		m.t.Fatalf("session %d: %s left a transaction open", i, s.text)
	}
	return ok
}

// diff compares what a transaction sees with the model, or some of it.
func (m *machine) diff(tx engine.Transaction, everything bool) string {
	if everything {
		return diff(tx, m.cat)
	}
	for i := 0; i < 4; i++ {
		d := m.g.db(m.cat)
		sc := m.g.schema(m.cat, d)
		tn := types.TableName{Database: d.id, Schema: sc.id, Table: m.g.pick(m.g.tables, "table").id}
		if s := diffTable(tx, m.cat, tn); s != "" {
			return s
		}
		if s := diffDatabase(tx, m.cat, d.id); s != "" {
			return s
		}
	}
	return ""
}

// check compares the catalog with the model.
func (m *machine) check(everything bool) {
	if m.owner >= 0 {
		if len(m.eng.open) != 1 {
			if len(m.eng.open) > 1 {
				m.t.Fatalf("%d transactions are open", len(m.eng.open))
			}
			return
		}
		if s := m.diff(m.eng.open[0].Transaction, everything); s != "" {
			m.t.Fatalf("in the transaction: %s", s)
		}
		return
	}
	dbs, err := m.other.ListDatabases()
	if err != nil {
		m.t.Fatalf("list databases: %s", err)
	}
	if got, want := fmt.Sprint(strs(dbs)), fmt.Sprint(h.SortedKeys(m.done)); got != want {
		m.t.Fatalf("databases: got %s, want %s", got, want)
	}
	tx := m.other.Begin()
	s := m.diff(tx, everything)
	tx.Rollback()
	if s != "" {
		m.t.Fatalf("%s", s)
	}
}

// session draws the session that goes on: while one has a transaction open, the others would wait
// for it.
func (m *machine) step(fault bool) {
	i := h.N(m.t, len(m.ses), "session")
	s := m.g.stmt(m.cat)
	for k := 0; k < 2 && h.Chance(m.t, 75, "another"); k++ {
		// Mostly not what is surely refused.
		if s.kind == "" || s.kind == "set" ||
			(m.owner >= 0) == (s.kind == "commit" || s.kind == "rollback") {
			break
		}
		s = m.g.stmt(m.cat)
	}
	if m.owner >= 0 && i != m.owner {
		// Only what needs no transaction.
		switch s.kind {
		case "set", "commit", "rollback":
		default:
			i = m.owner
		}
	}
	f := noFault
	if fault {
		f = failCommit + faultKind(m.t)
	}
	m.run(s, i, f)
}

func faultKind(t *rapid.T) fault {
	return fault(h.N(t, 4, "failure"))
}

// finish ends the open transaction.
func (m *machine) finish() {
	if m.owner >= 0 {
		m.run(stmt{text: "commit", kind: "commit"}, m.owner, noFault)
	}
	m.check(true)
	for k, n := range m.cnt {
		m.c.LabelIf(n > 0, k)
	}
}

// TestP34: statements run in the right transaction.
func TestP34(t *testing.T) {
	h.CheckTimed(t, 300, 20, func(rt *rapid.T, c *h.Case) {
		m := newMachine(rt, c, 1+h.N(rt, 3, "sessions"), [10]int{6, 3, 3, 4, 1, 8, 3, 9, 4, 1})
		faults := h.Pick(rt, "failures", 0, 0, 15, 40)
		for n := 4 + h.N(rt, 40, "statements"); n > 0; n-- {
			m.step(h.Chance(rt, faults, "fail"))
			m.check(h.Chance(rt, 10, "everything"))
		}
		m.finish()
		if m.cnt["begin"] > 0 && m.cnt["commit"]+m.cnt["rollback"] > 0 && m.cnt["refused"] > 0 {
			c.NonTrivial("%v: %s", m.cnt, m.done)
		}
	})
}

// TestP35: names refer to the current database and schema.
func TestP35(t *testing.T) {
	t.Run("statements", func(t *testing.T) {
		h.Check(t, 800, checkResolve)
	})
	t.Run("sessions", func(t *testing.T) {
		h.CheckTimed(t, 200, 20, func(rt *rapid.T, c *h.Case) {
			m := newMachine(rt, c, 1+h.N(rt, 4, "sessions"), [10]int{2, 3, 1, 3, 1, 7, 2, 9, 5, 11})
			m.g.dbs = databases[:4]
			m.g.schemas = schemas[:4]
			m.g.tables = tables[:3]
			for _, d := range m.g.dbs[1:] {
				if h.Chance(rt, 60, "there") {
					m.run(stmt{text: "create database " + d.text, kind: "database",
						apply: func(cat catalog, u *user) bool {
							cat[d.id.String()] = map[string]map[string]*def{}
							return true
						}}, 0, noFault)
				}
			}
			for n := 4 + h.N(rt, 40, "statements"); n > 0; n-- {
				m.step(false)
				for k := h.N(rt, 3, "resolve"); k > 0; k-- {
					m.resolve()
				}
				m.check(h.Chance(rt, 10, "everything"))
			}
			m.finish()
			if m.cnt["setset"] > 1 && m.cnt["create table"]+m.cnt["create schema"] > 0 {
				c.NonTrivial("%v: %s", m.cnt, m.done)
			}
		})
	})
}

// resolve asks a session what a name refers to.
func (m *machine) resolve() {
	i := h.N(m.t, len(m.ses), "asked")
	_, tn := m.g.tableName(m.cat)
	if got, want := m.ses[i].ResolveTable(tn), m.users[i].resolveTable(tn); got != want {
		m.t.Fatalf("session %d: table %q is %q; want %q", i, tn, got, want)
	}
	_, sn := m.g.schemaName(m.cat)
	if got, want := m.ses[i].ResolveSchema(sn), m.users[i].resolveSchema(sn); got != want {
		m.t.Fatalf("session %d: schema %q is %q; want %q", i, sn, got, want)
	}
}
