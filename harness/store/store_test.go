package store

import (
	"fmt"
	"testing"

	"mahoverif/h"

	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	h.Main(m)
}

// history runs a history of operations and checks the store at its end.
func history(t *rapid.T, c *h.Case, cfg config, tables, ops int) *machine {
	m := newMachine(t, c, cfg)
	for len(m.db) < tables {
		if tid := m.tid(); m.db[tid] == nil {
			m.create(tid)
		}
	}
	for i := 0; i < ops; i++ {
		m.op()
	}
	m.end(h.Chance(t, 70, "commit"))
	m.begin()
	m.checkAll()
	m.end(true)
	for k, n := range m.cnt {
		if k != "max rows" {
			c.LabelIf(n > 0, k)
		} else {
			c.LabelIf(n > 16, "more than 16 rows")
			c.LabelIf(n > 130, "more than 130 rows")
			c.LabelIf(n > 500, "more than 500 rows")
		}
	}
	return m
}

func show(m *machine, extra string) string {
	s := extra + "; " + m.summary()
	for _, tid := range m.db.tids() {
		s += "; " + m.db[tid].String() + ": " + showRows(m.db[tid].all())
	}
	return s
}

// bulk runs histories in which hundreds of rows change at once.
func bulk(t *testing.T, base int, cfg config) {
	cfg.bulk, cfg.maxRows, cfg.shape.roomy, cfg.tables = 12, 1000, true, 3
	t.Run("bulk", func(t *testing.T) {
		h.Check(t, base, func(rt *rapid.T, c *h.Case) {
			m := history(rt, c, cfg, 1+h.N(rt, 2, "tables"), 5+h.N(rt, 20, "operations"))
			if m.cnt["bulk insert"] > 0 {
				c.NonTrivial("%d operations; %s", m.ops, m.summary())
			}
		})
	})
}

// TestP20: a table holds exactly the rows its history leaves.
func TestP20(t *testing.T) {
	cfg := config{tables: 10, maxRows: 60, insert: 10, batch: 5, update: 6, delete: 4, sweep: 2,
		bad: 3, end: 1, deep: 10, shape: shape{maxCols: 6}}
	t.Run("small", func(t *testing.T) {
		h.Check(t, 600, func(rt *rapid.T, c *h.Case) {
			m := history(rt, c, cfg, 1+h.N(rt, 2, "tables"), 3+h.N(rt, 25, "operations"))
			if m.cnt["insert"] > 1 && m.cnt["update"]+m.cnt["delete"] > 0 {
				c.NonTrivial("%s", show(m, fmt.Sprintf("%d operations", m.ops)))
			}
		})
	})
	cfg20 := cfg
	cfg.maxRows, cfg.batch, cfg.shape.wide, cfg.deep, cfg.sweep = 600, 60, true, 0, 1
	cfg.insert = 12
	t.Run("large", func(t *testing.T) {
		h.Check(t, 60, func(rt *rapid.T, c *h.Case) {
			m := history(rt, c, cfg, 1, 5+h.N(rt, 25, "operations"))
			if m.cnt["insert"] > 1 && m.cnt["update"]+m.cnt["delete"] > 0 {
				c.NonTrivial("%s", show(m, fmt.Sprintf("%d operations", m.ops)))
			}
		})
	})
	bulk(t, 20, cfg20)
}

// TestP22: transactions are all or nothing.
func TestP22(t *testing.T) {
	cfg := config{tables: 6, maxRows: 40, insert: 10, batch: 4, update: 6, delete: 4, sweep: 2,
		bad: 5, end: 7, dropTable: 2, create: 3, deep: 30, shape: shape{maxCols: 4}}
	t.Run("small", func(t *testing.T) {
		h.Check(t, 600, func(rt *rapid.T, c *h.Case) {
			m := history(rt, c, cfg, 1+h.N(rt, 3, "tables"), 5+h.N(rt, 30, "operations"))
			if m.cnt["insert"] > 1 && m.cnt["commit"] > 1 && m.cnt["rollback"] > 0 {
				c.NonTrivial("%s", show(m, fmt.Sprintf("%d operations", m.ops)))
			}
		})
	})
	bulk(t, 15, cfg)
}

// TestP23: keys are unique and a failing change changes nothing.
func TestP23(t *testing.T) {
	cfg := config{tables: 6, maxRows: 40, insert: 10, batch: 5, update: 10, delete: 4, sweep: 1,
		bad: 45, end: 1, deep: 20, shape: shape{maxCols: 4}}
	t.Run("small", func(t *testing.T) {
		h.Check(t, 700, func(rt *rapid.T, c *h.Case) {
			m := history(rt, c, cfg, 1+h.N(rt, 2, "tables"), 3+h.N(rt, 25, "operations"))
			if m.cnt["insert"] > 1 && m.cnt["failed insert"]+m.cnt["failed update"] > 0 {
				c.NonTrivial("%s", show(m, fmt.Sprintf("%d operations", m.ops)))
			}
		})
	})
	bulk(t, 15, cfg)
}

// TestP25: an open scan sees the table as it was when it was opened.
func TestP25(t *testing.T) {
	cfg := config{tables: 6, maxRows: 40, insert: 8, batch: 5, update: 5, delete: 4, sweep: 5,
		open: 4, step: 25, close: 2, bad: 5, end: 1, deep: 10, shape: shape{maxCols: 4}}
	t.Run("small", func(t *testing.T) {
		h.Check(t, 500, func(rt *rapid.T, c *h.Case) {
			m := history(rt, c, cfg, 1+h.N(rt, 2, "tables"), 5+h.N(rt, 40, "operations"))
			if m.cnt["scan"] > 0 && m.cnt["insert"] > 1 && m.cnt["update"]+m.cnt["delete"] > 0 {
				c.NonTrivial("%s", show(m, fmt.Sprintf("%d operations", m.ops)))
			}
		})
	})
	bulk(t, 12, cfg)
}
