package sess

import (
	"fmt"
	"io"
	"slices"
	"strings"
	"sync"
	"testing"

	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/testutil"
	"github.com/leftmike/maho/types"

	"mahoverif/gen"
	"mahoverif/h"
	"mahoverif/vals"

	"pgregory.net/rapid"
)

// A task is something that is done with instances of its own; it gives a transcript. It is drawn
// completely before it is run, and can be run again and again.
type task struct {
	kind string
	text string // what identifies it
	run  func(tr *transcript)
}

type transcript struct {
	strings.Builder
}

func (tr *transcript) say(format string, args ...any) {
	fmt.Fprintf(tr, format+"\n", args...)
}

// transcribe runs a task; a panic is part of the transcript.
func (tk *task) transcribe() (s string) {
	tr := &transcript{}
	defer func() {
		if p := recover(); p != nil {
			s = fmt.Sprintf("%spanic: %v\n", tr.String(), p)
		}
	}()
	tk.run(tr)
	return tr.String()
}

// drawTexts: statements, some of them malformed, go through a parser and are printed.
func drawTexts(rt *rapid.T) *task {
	w := gen.NewWriter()
	for n := 1 + h.N(rt, 6, "statements"); n > 0; n-- {
		s := gen.NewG(rt, h.Chance(rt, 30, "plain")).Stmt()
		toks := s.Toks
		if h.Chance(rt, 25, "malformed") {
			toks = gen.BadStmt(rt, s).Toks
		}
		w.Tokens(rt, toks, layout(rt))
		w.Write(";\n")
	}
	text := w.String()
	return &task{"text", text, func(tr *transcript) {
		p := parser.NewParser(strings.NewReader(text), "file.sql")
		for {
			s, err := p.Parse()
			if err == io.EOF {
				return
			} else if err != nil {
				tr.say("error %s", err)
				continue
			}
			tr.say("%s %s", gen.Dump(s), s)
			if cp, ok := s.(*sql.Copy); ok {
				for n := 0; n < 20; n++ {
					r, _, err := cp.From.ReadRune()
					if err != nil || r == '\n' {
						break
					}
				}
			}
		}
	}}
}

// drawExprs: expressions.
func drawExprs(rt *rapid.T) *task {
	var texts []string
	for n := 1 + h.N(rt, 5, "expressions"); n > 0; n-- {
		toks, _ := gen.NewG(rt, false).ExprN(4)
		texts = append(texts, gen.Text(rt, toks, layout(rt)))
	}
	return &task{"expressions", strings.Join(texts, "; "), func(tr *transcript) {
		for _, text := range texts {
			e, err := parser.NewParser(strings.NewReader(text), "expr").ParseExpr()
			if err != nil {
				tr.say("error %s", err)
				continue
			}
			tr.say("%s %s", gen.Dump(e), e)
		}
	}}
}

// drawSession: statements in a session of an engine and store of its own.
func drawSession(rt *rapid.T) *task {
	g := &stmts{t: rt, weigh: [10]int{2, 2, 1, 2, 1, 6, 4, 9, 3, 2}, dbs: databases[:3],
		schemas: schemas[:3], tables: tables[:3]}
	full := catalog{}
	for _, d := range g.dbs {
		full[d.id.String()] = map[string]map[string]*def{}
		for _, s := range g.schemas {
			full[d.id.String()][s.id.String()] = map[string]*def{}
		}
	}
	var texts []string
	for n := 3 + h.N(rt, 15, "statements"); n > 0; n-- {
		texts = append(texts, g.stmt(full).text)
	}
	return &task{"session", strings.Join(texts, "; "), func(tr *transcript) {
		eng := newEngine()
		ses := evaluate.NewSession(eng, types.MAHO, types.PUBLIC)
		open := false
		for _, text := range texts {
			stm, err := parse(text)
			if err != nil {
				tr.say("%s: error %s", text, err)
				continue
			}
			switch stm.(type) {
			case *sql.Begin:
				open = true
			case *sql.Commit, *sql.Rollback:
				open = false
			}
			tr.say("%s: %v", text, ses.Evaluate(ctx, stm) == nil)
		}
		if open {
			tr.say("rollback: %v", ses.Evaluate(ctx, &sql.Rollback{}) == nil)
		}
		dbs, err := eng.ListDatabases()
		tr.say("%v %v", strs(dbs), err)
		tx := eng.Begin()
		for _, d := range dbs {
			ss, err := tx.ListSchemas(ctx, d)
			tr.say("%s: %v %v", d, strs(ss), err)
			for _, s := range ss {
				for _, t := range tables {
					tbl, err := tx.OpenTable(ctx, types.TableName{Database: d, Schema: s, Table: t.id})
					if err == nil {
						tt := tbl.Type()
						tr.say("%s: %s %d %v %v %v", s, tbl.Name(), tbl.TableId(), tt.ColumnNames,
							tt.ColumnTypes, tt.Key)
					}
				}
			}
		}
		tr.say("%v", tx.Rollback())
	}}
}

type apartOp struct {
	kind     string
	rows     []types.Row
	min, max types.Row
	cols     []types.ColumnNum
	vals     []types.Value
	nth      int
}

// drawRows: rows in a table of a store of its own.
func drawRows(rt *rapid.T) *task {
	names := []types.Identifier{types.ID("a", false), types.ID("b", false), types.ID("c", false)}
	colTypes := []types.ColumnType{{Type: types.Int64Type, Size: 4}, {Type: types.StringType, Size: 8},
		{Type: types.Float64Type, Size: 8}}
	var key []types.ColumnKey
	for _, i := range h.Perm(rt, 3, "key")[:1+h.N(rt, 2, "key columns")] {
		key = append(key, types.MakeColumnKey(types.ColumnNum(i), h.Chance(rt, 40, "desc")))
	}
	val := func(i int) types.Value {
		switch i {
		case 0:
			return types.Int64Value(h.N(rt, 9, "integer"))
		case 1:
			return types.StringValue(strings.Repeat("x", h.N(rt, 10, "string")))
		}
		return types.Float64Value(h.N(rt, 5, "float")) / 2
	}
	row := func() types.Row { return types.Row{val(0), val(1), val(2)} }
	var ops []apartOp
	for n := 3 + h.N(rt, 20, "operations"); n > 0; n-- {
		op := apartOp{kind: h.Pick(rt, "operation", "insert", "insert", "insert", "update", "delete", "scan",
			"commit", "rollback")}
		switch op.kind {
		case "insert":
			for k := 1 + h.N(rt, 3, "rows"); k > 0; k-- {
				op.rows = append(op.rows, row())
			}
		case "update":
			i := h.N(rt, 3, "column")
			op.cols, op.vals = []types.ColumnNum{types.ColumnNum(i)}, []types.Value{val(i)}
		case "scan":
			if h.Chance(rt, 50, "bounds") {
				op.min, op.max = row(), row()
			}
		}
		op.nth = h.N(rt, 5, "row")
		ops = append(ops, op)
	}
	return &task{"rows", fmt.Sprint(key, ops), func(tr *transcript) {
		st, err := basic.NewStore("")
		if err != nil {
			tr.say("store: %s", err)
			return
		}
		tn := types.TableName{Database: names[0], Schema: names[1], Table: names[2]}
		tx := st.Begin()
		tr.say("%v", tx.CreateTable(ctx, 100, tn, names, colTypes, key))
		tr.say("%v", tx.Commit(ctx))
		tx = st.Begin()
		open := func() storage.Table {
			tbl, err := tx.OpenTable(ctx, 100, tn, names, colTypes, key)
			if err != nil {
				panic(err.Error())
			}
			return tbl
		}
		scan := func(op apartOp, fn func(i int, rows storage.Rows) bool) {
			rows, err := open().Rows(ctx, nil, op.min, op.max, nil)
			if err != nil {
				tr.say("scan: %s", err)
				return
			}
			for i := 0; ; i++ {
				row, err := rows.Next(ctx)
				if err != nil {
					tr.say("end: %v", err)
					break
				}
				if fn == nil {
					tr.say("%s", row)
				} else if fn(i, rows) {
					break
				}
			}
			tr.say("%v", rows.Close(ctx))
		}
		for _, op := range append(slices.Clone(ops), apartOp{kind: "scan"}) {
			switch op.kind {
			case "insert":
				var rows []types.Row
				for _, r := range op.rows {
					rows = append(rows, append(types.Row{}, r...))
				}
				tr.say("insert %v", open().Insert(ctx, rows) == nil)
			case "update", "delete":
				scan(op, func(i int, rows storage.Rows) bool {
					if i < op.nth {
						return false
					}
					ref, err := rows.Current()
					if err == nil && op.kind == "update" {
						err = ref.Update(ctx, op.cols, op.vals)
					} else if err == nil {
						err = ref.Delete(ctx)
					}
					tr.say("%s %v", op.kind, err == nil)
					return true
				})
			case "scan":
				scan(op, nil)
			case "commit":
				tr.say("commit %v", tx.Commit(ctx))
				tx = st.Begin()
			case "rollback":
				tr.say("rollback %v", tx.Rollback())
				tx = st.Begin()
			}
		}
		tr.say("rollback %v", tx.Rollback())
	}}
}

type apartRow struct {
	Id    int64   `maho:"primary"`
	Name  string  `maho:"size=12"`
	Other *string `maho:"size=8"`
	Bytes []byte  `maho:"size=6"`
	Ok    bool
}

var apartName = types.TableName{Database: types.ID("a", false), Schema: types.ID("b", false),
	Table: types.ID("typed", false)}

// apartInfo is a description that all tasks use together, as the engines do theirs.
var apartInfo = engine.MakeTypedInfo(100, apartName, apartRow{})

// drawTyped: structs in a typed table of a store of its own.
func drawTyped(rt *rapid.T) *task {
	type op struct {
		kind string
		row  apartRow
	}
	var ops []op
	other := "other"
	for n := 3 + h.N(rt, 15, "operations"); n > 0; n-- {
		o := op{h.Pick(rt, "operation", "insert", "insert", "insert", "lookup", "update", "delete", "select"),
			apartRow{Id: int64(h.N(rt, 6, "id")), Name: strings.Repeat("n", h.N(rt, 13, "name")),
				Bytes: []byte{byte(h.N(rt, 256, "byte"))}, Ok: h.Chance(rt, 50, "ok")}}
		if h.Chance(rt, 50, "other") {
			o.row.Other = &other
		}
		ops = append(ops, o)
	}
	shared := h.Chance(rt, 50, "shared")
	text := ""
	for _, o := range ops {
		text += fmt.Sprintf("%s %d %q; ", o.kind, o.row.Id, o.row.Name)
	}
	return &task{"typed", text, func(tr *transcript) {
		ti := apartInfo
		if !shared {
			ti = engine.MakeTypedInfo(100, apartName, apartRow{})
		}
		st, err := basic.NewStore("")
		if err != nil {
			tr.say("store: %s", err)
			return
		}
		tx := st.Begin()
		tr.say("%v", engine.CreateTypedTable(ctx, tx, ti))
		show := func(r *apartRow) string {
			o := "-"
			if r.Other != nil {
				o = *r.Other
			}
			return fmt.Sprintf("%d %q %s %x %v", r.Id, r.Name, o, r.Bytes, r.Ok)
		}
		visit := func(row types.Row) *apartRow {
			var r apartRow
			ti.RowToStruct(row, &r)
			tr.say("visit %s", show(&r))
			return &r
		}
		for _, o := range append(slices.Clone(ops), op{kind: "select"}) {
			var err error
			switch o.kind {
			case "insert":
				r := o.row
				err = engine.TypedTableInsert(ctx, tx, ti, &r)
			case "lookup":
				r := apartRow{Id: o.row.Id}
				err = engine.TypedTableLookup(ctx, tx, ti, &r)
				tr.say("%s", show(&r))
			case "update":
				err = engine.TypedTableUpdate(ctx, tx, ti, nil, nil, func(row types.Row) (interface{}, error) {
					if r := visit(row); r.Id != o.row.Id {
						return nil, nil
					}
					return &struct {
						Name string
						Ok   bool
					}{o.row.Name, o.row.Ok}, nil
				})
			case "delete":
				err = engine.TypedTableDelete(ctx, tx, ti, nil, nil, func(row types.Row) (bool, error) {
					return visit(row).Id == o.row.Id, nil
				})
			case "select":
				err = engine.TypedTableSelect(ctx, tx, ti, nil, nil, func(row types.Row) error {
					visit(row)
					return nil
				})
			}
			tr.say("%s %v", o.kind, err == nil)
		}
		tr.say("%v", tx.Rollback())
	}}
}

// drawValues: conversions, keys and encodings of values, text of rows.
func drawValues(rt *rapid.T) *task {
	var rows []types.Row
	for n := 1 + h.N(rt, 6, "rows"); n > 0; n-- {
		var row types.Row
		for k := 1 + h.N(rt, 3, "columns"); k > 0; k-- {
			row = append(row, vals.Value(rt))
		}
		rows = append(rows, row)
	}
	kinds := []types.ColumnType{{Type: types.Int64Type, Size: 4}, {Type: types.StringType, Size: 8},
		{Type: types.BytesType, Size: 9}, {Type: types.Float64Type, Size: 8}, {Type: types.BoolType, Size: 1}}
	return &task{"values", testutil.FormatRows(rows, ", "), func(tr *transcript) {
		for i, row := range rows {
			var key []types.ColumnKey
			var cts []types.ColumnType
			for j := range row {
				key = append(key, types.MakeColumnKey(types.ColumnNum(j), (i+j)%2 == 0))
				cts = append(cts, kinds[(i+j)%len(kinds)])
			}
			tr.say("%s %x", row, encode.MakeKey(key, row))
			buf := encode.EncodeVarint(nil, uint64(i*1000003))
			for _, v := range row {
				buf = append(buf, []byte(types.FormatValue(v))...)
			}
			tr.say("%x %d", buf, testutil.CompareRows(row, rows[0]))
			got, err := types.ConvertRow(cts, append(types.Row{}, row...))
			tr.say("%s %v", got, err)
			back, err := testutil.ParseRows(strings.NewReader(row.String()))
			tr.say("%s %v", testutil.FormatRows(back, ","), err)
		}
	}}
}

// TestP44: what is done with different parsers, stores, engines and sessions at the same time goes
// as it does alone.
func TestP44(t *testing.T) {
	h.CheckTimed(t, 40, 60, func(rt *rapid.T, c *h.Case) {
		var tasks []*task
		weights := []int{5, 3, 4, 4, 4, 3}
		if h.Chance(rt, 40, "one kind") {
			k := h.N(rt, len(weights), "kind")
			weights = make([]int, len(weights))
			weights[k] = 1
		}
		workers := 2 + h.N(rt, 7, "workers")
		work := make([][]*task, workers)
		for w := range work {
			for n := 1 + h.N(rt, 3, "tasks"); n > 0; n-- {
				if len(tasks) > 0 && h.Chance(rt, 25, "the same") {
					work[w] = append(work[w], tasks[h.N(rt, len(tasks), "which")])
					continue
				}
				var tk *task
				switch h.Weighted(rt, "task", weights...) {
				case 0:
					tk = drawTexts(rt)
				case 1:
					tk = drawExprs(rt)
				case 2:
					tk = drawSession(rt)
				case 3:
					tk = drawRows(rt)
				case 4:
					tk = drawTyped(rt)
				case 5:
					tk = drawValues(rt)
				}
				c.Label(tk.kind)
				tasks = append(tasks, tk)
				work[w] = append(work[w], tk)
			}
		}
		for i, tk := range tasks {
			c.Note("task %d %s: %.200q", i, tk.kind, tk.text)
		}
		alone := map[*task]string{}
		before := h.Chance(rt, 50, "alone before")
		if before {
			for _, tk := range tasks {
				alone[tk] = tk.transcribe()
			}
		}
		got := make([][]string, workers)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for w := range work {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, tk := range work[w] {
					got[w] = append(got[w], tk.transcribe())
				}
			}()
		}
		close(start)
		wg.Wait()
		if !before {
			for _, tk := range tasks {
				alone[tk] = tk.transcribe()
			}
		}
		shown := ""
		for w := range work {
			shown += " |"
			for i, tk := range work[w] {
				shown += fmt.Sprintf(" %s %.40q", tk.kind, tk.text)
				if got[w][i] != alone[tk] {
					rt.Fatalf("task %s %q\ntogether with others:\n%s\nalone:\n%s", tk.kind, tk.text, got[w][i],
						alone[tk])
				}
				c.LabelIf(strings.Contains(alone[tk], "panic: "), tk.kind+" panics")
			}
		}
		c.NonTrivial("%s", shown)
	})
}
