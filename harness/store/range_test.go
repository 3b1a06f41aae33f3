package store

import (
	"fmt"
	"testing"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"

	"mahoverif/h"
	"mahoverif/vals"

	"pgregory.net/rapid"
)

// predicate is a filter on a column of its type: the value compares to a pivot as wanted.
type predicate struct {
	col    types.ColumnNum
	desc   string
	accept func(v types.Value) bool
}

func (p *predicate) Column() types.ColumnNum { return p.col }

type boolPredicate struct{ *predicate }
type stringPredicate struct{ *predicate }
type bytesPredicate struct{ *predicate }
type floatPredicate struct{ *predicate }
type intPredicate struct{ *predicate }

func (p boolPredicate) BoolPred(v types.BoolValue) bool        { return p.accept(v) }
func (p stringPredicate) StringPred(v types.StringValue) bool  { return p.accept(v) }
func (p bytesPredicate) BytesPred(v types.BytesValue) bool     { return p.accept(v) }
func (p floatPredicate) Float64Pred(v types.Float64Value) bool { return p.accept(v) }
func (p intPredicate) Int64Pred(v types.Int64Value) bool       { return p.accept(v) }

func (tbl *Table) genPredicate(t *rapid.T, sh shape) (*predicate, storage.Predicate) {
	col := h.N(t, len(tbl.cols), "filter column")
	ct := tbl.types[col]
	ct.NotNull = true
	pivot := genValue(t, ct, sh)
	if len(tbl.rows) > 0 && h.Chance(t, 50, "pivot of row") {
		if v := tbl.rows[h.N(t, len(tbl.rows), "row")].row[col]; v != nil {
			pivot = v
		}
	}
	p := &predicate{col: types.ColumnNum(col)}
	rel := h.Pick(t, "relation", "<", "<=", "=", "<>", ">=", ">", "all", "none")
	p.desc = fmt.Sprintf("c%d %s %s", col, rel, vals.Show(pivot))
	p.accept = func(v types.Value) bool {
		c := vals.Compare(v, pivot)
		switch rel {
		case "<":
			return c < 0
		case "<=":
			return c <= 0
		case "=":
			return c == 0
		case "<>":
			return c != 0
		case ">=":
			return c >= 0
		case ">":
			return c > 0
		case "all":
			return true
		}
		return false
	}
	switch ct.Type {
	case types.BoolType:
		return p, boolPredicate{p}
	case types.StringType:
		return p, stringPredicate{p}
	case types.BytesType:
		return p, bytesPredicate{p}
	case types.Float64Type:
		return p, floatPredicate{p}
	}
	return p, intPredicate{p}
}

// TestP21: bounds, filter and columns pick exactly the right rows.
func TestP21(t *testing.T) {
	check := func(t *testing.T, cases int, cfg config, tables, ops, ranges int) {
		h.Check(t, cases, func(rt *rapid.T, c *h.Case) {
			m := newMachine(rt, c, cfg)
			for len(m.db) < tables {
				if tid := m.tid(); m.db[tid] == nil {
					m.create(tid)
				}
			}
			for i := 0; i < ops; i++ {
				tbl := m.pick()
				if h.Chance(rt, 75, "insert") {
					m.insert(tbl)
				} else {
					m.one(tbl, h.Chance(rt, 40, "delete"))
				}
			}
			if h.Chance(rt, 50, "committed") {
				m.end(true)
				m.begin()
			}
			some := ""
			for i := 0; i < ranges; i++ {
				tbl := m.pick()
				min, max := tbl.genBounds(rt, cfg.shape)
				cols := genCols(rt, len(tbl.cols))
				var pred storage.Predicate
				var p *predicate
				desc := ""
				if h.Chance(rt, 50, "filter") {
					p, pred = tbl.genPredicate(rt, cfg.shape)
					desc = " where " + p.desc
				}
				var want []types.Row
				filtered, nulls := 0, 0
				for _, r := range tbl.rows {
					if !tbl.within(r.row, min, max) {
						continue
					}
					if p != nil && r.row[p.col] == nil {
						nulls++
						continue
					}
					if p != nil && !p.accept(r.row[p.col]) {
						filtered++
						continue
					}
					want = append(want, project(r.row, cols))
				}
				what := fmt.Sprintf("columns %v of %s from %s to %s%s", cols, tbl, vals.ShowRow(min),
					vals.ShowRow(max), desc)
				c.Note("%s", what)
				got, err := readRange(m.open(tbl), cols, min, max, pred)
				if err != nil {
					rt.Fatalf("%s: %s", what, err)
				}
				if !sameRows(got, want) {
					rt.Fatalf("%s: got %s; want %s", what, showRows(got), showRows(want))
				}
				c.LabelIf(min != nil, "lower bound")
				c.LabelIf(max != nil, "upper bound")
				c.LabelIf(p != nil, "filter")
				c.LabelIf(filtered > 0, "filtered out")
				c.LabelIf(nulls > 0, "NULL met by filter")
				c.LabelIf(cols != nil, "columns")
				c.LabelIf(len(want) == 0, "no rows")
				if n := len(want); n > 0 && n < len(tbl.rows) {
					some = fmt.Sprintf("%s: %d of %d rows: %s", what, n, len(tbl.rows), showRows(got))
				}
			}
			if some != "" {
				c.NonTrivial("%s", some)
			}
			m.checkAll()
		})
	}
	cfg := config{tables: 10, maxRows: 40, batch: 8, shape: shape{maxCols: 5}}
	t.Run("small", func(t *testing.T) {
		check(t, 500, cfg, 2, 4, 8)
	})
	cfg.maxRows, cfg.batch, cfg.shape.wide = 500, 80, true
	t.Run("large", func(t *testing.T) {
		check(t, 50, cfg, 2, 8, 12)
	})
}

// TestP24: stored rows conform, whatever is inserted.
func TestP24(t *testing.T) {
	sh := shape{maxCols: 5}
	h.Check(t, 800, func(rt *rapid.T, c *h.Case) {
		st := newStore()
		tx := st.Begin()
		tbl := genTable(rt, 20, sh)
		c.Note("create %s", tbl)
		if err := tbl.create(tx); err != nil {
			rt.Fatalf("create %s: %s", tbl, err)
		}
		stbl, err := tbl.open(tx)
		if err != nil {
			rt.Fatalf("open %s: %s", tbl, err)
		}

		// value draws anything, often something that the column can hold.
		value := func(ct types.ColumnType) types.Value {
			switch h.Weighted(rt, "value", 5, 2, 3) {
			case 0:
				return genValue(rt, ct, sh)
			case 1:
				return vals.Near(rt, genValue(rt, ct, sh))
			}
			return vals.Value(rt)
		}
		all := func() []types.Row {
			rs, err := read(stbl)
			if err != nil {
				rt.Fatalf("read %s: %s", tbl, err)
			}
			for i, r := range rs {
				if len(r) != len(tbl.types) {
					rt.Fatalf("%s: row %s", tbl, vals.ShowRow(r))
				}
				for j, v := range r {
					if why := vals.Conforms(tbl.types[j], v); why != "" {
						rt.Fatalf("%s: row %s, column %d: %s", tbl, vals.ShowRow(r), j, why)
					}
				}
				if i > 0 && vals.CompareKeys(tbl.key, rs[i-1], r) >= 0 {
					rt.Fatalf("%s: rows out of order: %s", tbl, showRows(rs))
				}
			}
			return rs
		}
		// fits checks one row that was stored against what was supplied.
		fits := func(from, to types.Row) string {
			for i := range from {
				if why := vals.CheckConversion(tbl.types[i], from[i], to[i], nil); why != "" {
					return fmt.Sprintf("column %d: %s became %s: %s", i, vals.Show(from[i]),
						vals.Show(to[i]), why)
				}
			}
			return ""
		}
		// without gives the rows of a that are not in b; both are in key order.
		without := func(a, b []types.Row) []types.Row {
			var rs []types.Row
			for _, r := range a {
				found := false
				for _, o := range b {
					found = found || vals.SameRow(r, o)
				}
				if !found {
					rs = append(rs, r)
				}
			}
			return rs
		}

		old := all()
		stored, refused, converted := 0, 0, 0
		for n := 3 + h.N(rt, 8, "operations"); n > 0; n-- {
			if len(old) == 0 || h.Chance(rt, 60, "insert") {
				row := make(types.Row, len(tbl.types))
				same := true
				for i, ct := range tbl.types {
					row[i] = value(ct)
					same = same && vals.Conforms(ct, row[i]) == ""
				}
				err := stbl.Insert(ctx, []types.Row{append(types.Row(nil), row...)})
				c.Note("insert %s: %v", vals.ShowRow(row), err)
				now := all()
				if err != nil {
					if !sameRows(old, now) {
						rt.Fatalf("failed insert of %s into %s left %s; was %s", vals.ShowRow(row), tbl,
							showRows(now), showRows(old))
					}
					refused++
					must := true
					for i, ct := range tbl.types {
						must = must && vals.Must(ct, row[i])
					}
					if must {
						// Only an equal key is a reason.
						dup := false
						for _, o := range old {
							d := true
							for _, ck := range tbl.key {
								i := ck.Column()
								// (What a value becomes is the matter of fits.)
								v, err := types.ConvertValue(tbl.types[i], row[i])
								d = d && err == nil && vals.Compare(v, o[i]) == 0
							}
							dup = dup || d
						}
						if !dup {
							rt.Fatalf("insert of %s into %s was refused: %s; it holds %s", vals.ShowRow(row),
								tbl, err, showRows(old))
						}
					}
				} else {
					add, del := without(now, old), without(old, now)
					if len(add) != 1 || len(del) != 0 || len(now) != len(old)+1 {
						rt.Fatalf("insert of %s into %s left %s; was %s", vals.ShowRow(row), tbl,
							showRows(now), showRows(old))
					}
					if why := fits(row, add[0]); why != "" {
						rt.Fatalf("insert of %s into %s: %s", vals.ShowRow(row), tbl, why)
					}
					stored++
					if !same {
						converted++
					}
				}
				old = now
				continue
			}

			at := h.N(rt, len(old), "row")
			rows, err := stbl.Rows(ctx, nil, old[at], old[at], nil)
			if err != nil {
				rt.Fatalf("rows: %s", err)
			}
			if r, err := rows.Next(ctx); err != nil || !vals.SameRow(r, old[at]) {
				rt.Fatalf("%s: looking for %s: got %s, %v", tbl, vals.ShowRow(old[at]), vals.ShowRow(r),
					err)
			}
			rr, err := rows.Current()
			if err != nil {
				rt.Fatalf("current: %s", err)
			}
			perm := h.Perm(rt, len(tbl.cols), "columns")[:1+h.N(rt, len(tbl.cols), "number of columns")]
			var cols []types.ColumnNum
			var vs []types.Value
			same := true
			for _, col := range perm {
				cols = append(cols, types.ColumnNum(col))
				vs = append(vs, value(tbl.types[col]))
				same = same && vals.Conforms(tbl.types[col], vs[len(vs)-1]) == ""
			}
			err = rr.Update(ctx, cols, append([]types.Value(nil), vs...))
			c.Note("update %s set %v to %s: %v", vals.ShowRow(old[at]), cols, vals.ShowRow(vs), err)
			rows.Close(ctx)
			now := all()
			if err != nil {
				if !sameRows(old, now) {
					rt.Fatalf("failed update of %s in %s left %s; was %s", vals.ShowRow(old[at]), tbl,
						showRows(now), showRows(old))
				}
				refused++
				must := true
				for i, col := range perm {
					must = must && !tbl.isKey(col) && vals.Must(tbl.types[col], vs[i])
				}
				if must {
					rt.Fatalf("update of %s in %s set %v to %s was refused: %s", vals.ShowRow(old[at]),
						tbl, cols, vals.ShowRow(vs), err)
				}
			} else {
				add := without(now, old)
				if len(add) > 1 || len(now) != len(old) {
					rt.Fatalf("update of %s in %s set %v to %s left %s; was %s", vals.ShowRow(old[at]),
						tbl, cols, vals.ShowRow(vs), showRows(now), showRows(old))
				}
				nrow := old[at]
				if len(add) == 1 {
					nrow = add[0]
				}
				want := append(types.Row(nil), old[at]...)
				for i, col := range perm {
					want[col] = vs[i]
				}
				if why := fits(want, nrow); why != "" {
					rt.Fatalf("update of %s in %s set %v to %s left %s: %s", vals.ShowRow(old[at]), tbl,
						cols, vals.ShowRow(vs), vals.ShowRow(nrow), why)
				}
				stored++
				if !same {
					converted++
				}
			}
			old = now
		}
		c.LabelIf(converted > 0, "converted")
		c.LabelIf(refused > 0, "refused")
		if stored > 0 && converted+refused > 0 {
			c.NonTrivial("%s: %d stored, %d of them converted, %d refused: %s", tbl, stored, converted,
				refused, showRows(old))
		}
		if err := tx.Commit(ctx); err != nil {
			rt.Fatalf("commit: %s", err)
		}
	})
}
