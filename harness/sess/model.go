// Package sess checks sessions: from the text of statements to the catalog of a real store.
package sess

import (
	"context"
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

var ctx = context.Background()

// def is the definition of a table.
type def struct {
	cols  []types.Identifier
	types []types.ColumnType
	key   []types.ColumnKey
}

func (d *def) same(tt *engine.TableType) bool {
	return slices.Equal(d.cols, tt.ColumnNames) && slices.Equal(d.types, tt.ColumnTypes) &&
		slices.Equal(d.key, tt.Key)
}

func (d *def) has(col types.Identifier) bool {
	return slices.Contains(d.cols, col)
}

// catalog is the model: databases with schemas with tables, by their names.
type catalog map[string]map[string]map[string]*def

func (cat catalog) clone() catalog {
	n := catalog{}
	for d, ss := range cat {
		n[d] = map[string]map[string]*def{}
		for s, ts := range ss {
			n[d][s] = map[string]*def{}
			for t, def := range ts {
				n[d][s][t] = def
			}
		}
	}
	return n
}

func (cat catalog) String() string {
	var ss []string
	for d, schemas := range cat {
		if d == "system" {
			continue
		}
		if len(schemas) == 0 {
			ss = append(ss, fmt.Sprintf("%q", d))
		}
		for s, tables := range schemas {
			if len(tables) == 0 {
				ss = append(ss, fmt.Sprintf("%q.%q", d, s))
			}
			for t := range tables {
				ss = append(ss, fmt.Sprintf("%q.%q.%q", d, s, t))
			}
		}
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

func (cat catalog) table(tn types.TableName) *def {
	return cat[tn.Database.String()][tn.Schema.String()][tn.Table.String()]
}

func fresh() catalog {
	return catalog{"maho": {"public": {}}, "system": {"info": {}}}
}

// name is a name as it is written and what it denotes.
type name struct {
	text string
	id   types.Identifier
}

// set reports whether the text of the name in quotes, as the value of SET, denotes it too.
func (n name) settable() bool {
	return n.text[0] != '"'
}

func plain(s string) name {
	return name{s, types.ID(s, false)}
}

func quoted(s string) name {
	return name{`"` + s + `"`, types.ID(s, true)}
}

var (
	databases = []name{plain("maho"), plain("d"), plain("da"), plain("int"), quoted("D"),
		quoted("select"), plain("é")}
	schemas = []name{plain("public"), plain("s"), plain("sa"), plain("text"), quoted("S"),
		quoted("s.t"), plain("d")}
	tables = []name{plain("t"), plain("ta"), plain("double"), quoted("T"), quoted("table"), plain("s")}
	// absent is never a database, schema, table or column.
	absent = plain("nowhere")
)

// newEngine makes a fresh catalog.
func newEngine() engine.Engine {
	st, err := basic.NewStore("")
	if err == nil {
		err = engine.Init(st)
	}
	if err != nil {
		panic(err)
	}
	return engine.NewEngine(st)
}

func parse(text string) (sql.Stmt, error) {
	return parser.NewParser(strings.NewReader(text), "session").Parse()
}

func strs(ids []types.Identifier) []string {
	ss := []string{}
	for _, id := range ids {
		ss = append(ss, id.String())
	}
	sort.Strings(ss)
	return ss
}

// diff compares what a transaction sees with the model.
func diff(tx engine.Transaction, cat catalog) string {
	for _, d := range append([]name{{"system", types.SYSTEM}, absent}, databases...) {
		if s := diffDatabase(tx, cat, d.id); s != "" {
			return s
		}
	}
	for _, d := range databases {
		if cat[d.id.String()] == nil {
			continue
		}
		for _, s := range schemas {
			for i, t := range tables {
				tn := types.TableName{Database: d.id, Schema: s.id, Table: t.id}
				if cat[d.id.String()][s.id.String()] != nil || i == 0 {
					if s := diffTable(tx, cat, tn); s != "" {
						return s
					}
				}
			}
		}
	}
	return ""
}

func diffDatabase(tx engine.Transaction, cat catalog, d types.Identifier) string {
	ids, err := tx.ListSchemas(ctx, d)
	ss, ok := cat[d.String()]
	if ok != (err == nil) {
		return fmt.Sprintf("listing the schemas of %q: %v; want %s", d, err, cat)
	}
	var want []string
	for s := range ss {
		want = append(want, s)
	}
	sort.Strings(want)
	if !slices.Equal(strs(ids), want) {
		return fmt.Sprintf("schemas of %q: got %q, want %q", d, strs(ids), want)
	}
	return ""
}

func diffTable(tx engine.Transaction, cat catalog, tn types.TableName) string {
	tbl, err := tx.OpenTable(ctx, tn)
	d := cat.table(tn)
	if (d != nil) != (err == nil) {
		return fmt.Sprintf("opening %q.%q.%q: %v; want %s", tn.Database, tn.Schema, tn.Table, err, cat)
	}
	if d == nil {
		return ""
	}
	if tt := tbl.Type(); !d.same(tt) {
		return fmt.Sprintf("table %q.%q.%q: got columns %v %v key %v; want %v %v key %v", tn.Database,
			tn.Schema, tn.Table, tt.ColumnNames, tt.ColumnTypes, tt.Key, d.cols, d.types, d.key)
	}
	if tbl.TableId() <= 511 {
		return fmt.Sprintf("table %q has the reserved number %d", tn, tbl.TableId())
	}
	return ""
}

// ---- An engine that counts its transactions and can fail ----

type fault int

const (
	noFault     fault = iota
	failCommit        // a commit changes nothing and fails
	failBefore        // a change fails
	failAfter         // a change is done but fails
	failRoll          // a rollback is done but fails
	failedFault       // has happened
)

var faultNames = []string{"", "commit fails", "change fails", "change fails late", "rollback fails"}

type watched struct {
	engine.Engine
	open  []*watchedTx
	fault fault
}

type watchedTx struct {
	engine.Transaction
	eng *watched
}

type injected struct{}

func (injected) Error() string { return "injected failure" }

func (e *watched) Begin() engine.Transaction {
	tx := &watchedTx{e.Engine.Begin(), e}
	e.open = append(e.open, tx)
	return tx
}

func (e *watched) fail(f fault) bool {
	if e.fault == f {
		e.fault = failedFault
		return true
	}
	return false
}

func (tx *watchedTx) done() {
	tx.eng.open = slices.DeleteFunc(tx.eng.open, func(o *watchedTx) bool { return o == tx })
}

func (tx *watchedTx) Commit(ctx context.Context) error {
	if tx.eng.fail(failCommit) {
		tx.Transaction.Rollback()
		tx.done()
		return injected{}
	}
	err := tx.Transaction.Commit(ctx)
	if err == nil {
		tx.done()
	}
	return err
}

func (tx *watchedTx) Rollback() error {
	err := tx.Transaction.Rollback()
	if err == nil {
		tx.done()
		if tx.eng.fail(failRoll) {
			return injected{}
		}
	}
	return err
}

func (tx *watchedTx) change(fn func() error) error {
	if tx.eng.fail(failBefore) {
		return injected{}
	}
	err := fn()
	if err == nil && tx.eng.fail(failAfter) {
		return injected{}
	}
	return err
}

func (tx *watchedTx) CreateSchema(ctx context.Context, sn types.SchemaName) error {
	return tx.change(func() error { return tx.Transaction.CreateSchema(ctx, sn) })
}

func (tx *watchedTx) DropSchema(ctx context.Context, sn types.SchemaName, ifExists bool) error {
	return tx.change(func() error { return tx.Transaction.DropSchema(ctx, sn, ifExists) })
}

func (tx *watchedTx) CreateTable(ctx context.Context, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) error {

	return tx.change(func() error {
		return tx.Transaction.CreateTable(ctx, tn, colNames, colTypes, primary)
	})
}

func (tx *watchedTx) CreateIndex(ctx context.Context, tn types.TableName, in types.Identifier,
	key []types.ColumnKey) error {

	return tx.change(func() error { return tx.Transaction.CreateIndex(ctx, tn, in, key) })
}
