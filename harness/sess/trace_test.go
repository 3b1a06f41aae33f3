package sess

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"

	"mahoverif/gen"
	"mahoverif/h"

	"pgregory.net/rapid"
)

// recorder is an engine that records what it is told to do. Anything may be told to fail.
type recorder struct {
	tables map[types.TableName]*engine.TableType
	calls  []string // changes
	begun  int
	ends   []string // of transactions
	open   *recorderTx
	fail   int // which call fails, if it is 1 or more
	failed string
}

type recorderTx struct {
	r    *recorder
	undo map[types.TableName]*engine.TableType
}

type recorderTable struct {
	engine.Table
	tt *engine.TableType
}

func (tbl recorderTable) Type() *engine.TableType { return tbl.tt }

func cloneTables(ts map[types.TableName]*engine.TableType) map[types.TableName]*engine.TableType {
	n := map[types.TableName]*engine.TableType{}
	for tn, tt := range ts {
		c := *tt
		c.Indexes = slices.Clone(tt.Indexes)
		n[tn] = &c
	}
	return n
}

// failing reports whether this call fails.
func (r *recorder) failing(what string) bool {
	r.fail--
	if r.fail == 0 {
		r.failed = what
		return true
	}
	return false
}

func (r *recorder) call(format string, args ...any) error {
	r.calls = append(r.calls, fmt.Sprintf(format, args...))
	if r.failing("call") {
		return injected{}
	}
	return nil
}

func (r *recorder) CreateDatabase(dn types.Identifier, opts storage.OptionsMap) error {
	return r.call("create database %s %s", gen.Dump(dn), dumpOptions(opts))
}

func dumpOptions(opts map[types.Identifier]string) string {
	var ss []string
	for id, v := range opts {
		ss = append(ss, fmt.Sprintf("%s=%q", gen.Dump(id), v))
	}
	slices.Sort(ss)
	return strings.Join(ss, ", ")
}

func (r *recorder) DropDatabase(dn types.Identifier, ifExists bool) error {
	return r.call("drop database %s %v", gen.Dump(dn), ifExists)
}

func (r *recorder) ListDatabases() ([]types.Identifier, error) {
	return nil, nil
}

func (r *recorder) Begin() engine.Transaction {
	if r.open != nil {
		panic("a transaction is already open")
	}
	r.begun++
	r.open = &recorderTx{r, cloneTables(r.tables)}
	return r.open
}

func (tx *recorderTx) end(what string) error {
	r := tx.r
	if r.open != tx {
		panic("not the open transaction")
	}
	r.open = nil
	r.ends = append(r.ends, what)
	if what == "rollback" {
		r.tables = tx.undo
	}
	if r.failing(what) {
		r.tables = tx.undo
		return injected{}
	}
	return nil
}

func (tx *recorderTx) Commit(ctx context.Context) error { return tx.end("commit") }
func (tx *recorderTx) Rollback() error                  { return tx.end("rollback") }

func (tx *recorderTx) call(format string, args ...any) error {
	if tx.r.open != tx {
		panic("not the open transaction")
	}
	return tx.r.call(format, args...)
}

func (tx *recorderTx) CreateSchema(ctx context.Context, sn types.SchemaName) error {
	return tx.call("create schema %s", gen.Dump(sn))
}

func (tx *recorderTx) DropSchema(ctx context.Context, sn types.SchemaName, ifExists bool) error {
	return tx.call("drop schema %s %v", gen.Dump(sn), ifExists)
}

func (tx *recorderTx) ListSchemas(ctx context.Context, dn types.Identifier) ([]types.Identifier,
	error) {

	return nil, nil
}

func (tx *recorderTx) OpenTable(ctx context.Context, tn types.TableName) (engine.Table, error) {
	if tx.r.open != tx {
		panic("not the open transaction")
	}
	tt, ok := tx.r.tables[tn]
	if !ok {
		return nil, fmt.Errorf("no such table: %s", tn)
	}
	return recorderTable{tt: tt}, nil
}

func (tx *recorderTx) CreateTable(ctx context.Context, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) error {

	err := tx.call("create table %s", dumpTable(tn, colNames, colTypes, primary))
	if err != nil {
		return err
	}
	if tx.r.tables[tn] != nil {
		return fmt.Errorf("already a table: %s", tn)
	}
	tx.r.tables[tn] = &engine.TableType{ColumnNames: slices.Clone(colNames),
		ColumnTypes: slices.Clone(colTypes), Key: slices.Clone(primary)}
	return nil
}

func dumpTable(tn types.TableName, colNames []types.Identifier, colTypes []types.ColumnType,
	primary []types.ColumnKey) string {

	s := gen.Dump(tn) + " ("
	for i, col := range colNames {
		s += gen.Dump(col) + " "
		if i < len(colTypes) {
			s += gen.Dump(colTypes[i])
		}
		s += ", "
	}
	return s + fmt.Sprintf("%d types) %v", len(colTypes), primary)
}

func (tx *recorderTx) DropTable(ctx context.Context, tn types.TableName) error {
	err := tx.call("drop table %s", gen.Dump(tn))
	if err != nil {
		return err
	}
	if tx.r.tables[tn] == nil {
		return fmt.Errorf("no such table: %s", tn)
	}
	delete(tx.r.tables, tn)
	return nil
}

func (tx *recorderTx) ListTables(ctx context.Context, sn types.SchemaName) ([]types.Identifier,
	error) {

	return nil, nil
}

func (tx *recorderTx) CreateIndex(ctx context.Context, tn types.TableName, in types.Identifier,
	key []types.ColumnKey) error {

	err := tx.call("create index %s %s %v", gen.Dump(tn), gen.Dump(in), key)
	if err != nil {
		return err
	}
	tt := tx.r.tables[tn]
	if tt == nil {
		return fmt.Errorf("no such table: %s", tn)
	}
	tt.Indexes = append(tt.Indexes, engine.IndexType{Name: in, Key: slices.Clone(key)})
	return nil
}

func (tx *recorderTx) DropIndex(ctx context.Context, tn types.TableName, in types.Identifier) error {
	err := tx.call("drop index %s %s", gen.Dump(tn), gen.Dump(in))
	if err != nil {
		return err
	}
	tt := tx.r.tables[tn]
	if tt == nil {
		return fmt.Errorf("no such table: %s", tn)
	}
	i := slices.IndexFunc(tt.Indexes, func(it engine.IndexType) bool { return it.Name == in })
	if i < 0 {
		return fmt.Errorf("no such index: %s", in)
	}
	tt.Indexes = slices.Delete(tt.Indexes, i, i+1)
	return nil
}

// teller is the model: what a session is to tell the engine.
type teller struct {
	tables map[types.TableName]*engine.TableType
	undo   map[types.TableName]*engine.TableType
	calls  []string
	fail   int
	inTx   bool
	ends   []string
	cnt    map[string]int
}

// tell records a call and reports whether it succeeds.
func (m *teller) tell(format string, args ...any) bool {
	m.calls = append(m.calls, fmt.Sprintf(format, args...))
	m.fail--
	return m.fail != 0
}

func (m *teller) end(what string) bool {
	m.ends = append(m.ends, what)
	m.fail--
	if what == "rollback" || m.fail == 0 {
		m.tables = m.undo
	}
	return m.fail != 0
}

// columnKeys is what the written columns are, in a table.
func columnKeys(ik sql.IndexKey, cols []types.Identifier) ([]types.ColumnKey, bool) {
	var key []types.ColumnKey
	for i, col := range ik.Columns {
		num := slices.Index(cols, col)
		if num < 0 {
			return nil, false
		}
		key = append(key, types.MakeColumnKey(types.ColumnNum(num), ik.Reverse[i]))
	}
	return key, true
}

// do is what comes of a statement that changes tables or schemas, inside of a transaction.
func (m *teller) do(s sql.Stmt) bool {
	switch s := s.(type) {
	case *sql.CreateSchema:
		return m.tell("create schema %s", gen.Dump(s.Schema))
	case *sql.DropSchema:
		return m.tell("drop schema %s %v", gen.Dump(s.Schema), s.IfExists)
	case *sql.CreateTable:
		if m.tables[s.Table] != nil {
			m.cnt["table already there"]++
			return s.IfNotExists
		}
		var key []types.ColumnKey
		for _, con := range s.Constraints {
			if con.Type == sql.PrimaryConstraint {
				var ok bool
				key, ok = columnKeys(con.Key, s.Columns)
				if !ok {
					return false
				}
			}
		}
		if !m.tell("create table %s", dumpTable(s.Table, s.Columns, s.ColumnTypes, key)) {
			return false
		}
		m.cnt["create table"]++
		m.tables[s.Table] = &engine.TableType{ColumnNames: s.Columns, ColumnTypes: s.ColumnTypes,
			Key: key}
		return true
	case *sql.CreateIndex:
		tt := m.tables[s.Table]
		if tt == nil {
			m.cnt["index on no table"]++
			return false
		}
		if m.index(tt, s.Index) >= 0 {
			m.cnt["index already there"]++
			return s.IfNotExists
		}
		key, ok := columnKeys(s.Key, tt.ColumnNames)
		if !ok {
			m.cnt["index of no column"]++
			return false
		}
		if !m.tell("create index %s %s %v", gen.Dump(s.Table), gen.Dump(s.Index), key) {
			return false
		}
		m.cnt["create index"]++
		tt.Indexes = append(tt.Indexes, engine.IndexType{Name: s.Index, Key: key})
		return true
	case *sql.DropIndex:
		if !m.tell("drop index %s %s", gen.Dump(s.Table), gen.Dump(s.Index)) {
			return false
		}
		tt := m.tables[s.Table]
		if tt == nil {
			return false
		}
		i := m.index(tt, s.Index)
		if i < 0 {
			return false
		}
		m.cnt["drop index"]++
		tt.Indexes = append(tt.Indexes[:i:i], tt.Indexes[i+1:]...)
		return true
	case *sql.DropTable:
		for _, tn := range s.Tables {
			if !m.tell("drop table %s", gen.Dump(tn)) || m.tables[tn] == nil {
				return false
			}
			m.cnt["drop table"]++
			delete(m.tables, tn)
		}
		return true
	}
	panic(fmt.Sprintf("unexpected %T", s))
}

func (m *teller) index(tt *engine.TableType, in types.Identifier) int {
	return slices.IndexFunc(tt.Indexes, func(it engine.IndexType) bool { return it.Name == in })
}

// statement is what comes of a statement.
func (m *teller) statement(s sql.Stmt) bool {
	switch s := s.(type) {
	case *sql.Begin:
		if m.inTx {
			return false
		}
		m.inTx = true
		m.undo = cloneTables(m.tables)
		return true
	case *sql.Commit:
		if !m.inTx {
			return false
		}
		m.inTx = false
		return m.end("commit")
	case *sql.Rollback:
		if !m.inTx {
			return false
		}
		m.inTx = false
		return m.end("rollback")
	case *sql.CreateDatabase:
		if m.inTx {
			return false
		}
		return m.tell("create database %s %s", gen.Dump(s.Database), dumpOptions(s.Options))
	case *sql.DropDatabase:
		if m.inTx {
			return false
		}
		return m.tell("drop database %s %v", gen.Dump(s.Database), s.IfExists)
	}
	if m.inTx {
		return m.do(s)
	}
	m.undo = cloneTables(m.tables)
	if !m.do(s) {
		m.end("rollback")
		return false
	}
	return m.end("commit")
}

// missing reports whether something is not there that the statement drops if it exists.
func (m *teller) missing(s sql.Stmt) bool {
	switch s := s.(type) {
	case *sql.DropTable:
		gone := map[types.TableName]bool{}
		for _, tn := range s.Tables {
			if m.tables[tn] == nil || gone[tn] {
				return s.IfExists
			}
			gone[tn] = true
		}
	case *sql.DropIndex:
		tt := m.tables[s.Table]
		return s.IfExists && (tt == nil || m.index(tt, s.Index) < 0)
	}
	return false
}

// idTok is a name as it can be written.
func idTok(id types.Identifier) gen.Tok {
	s := quoteID(id)
	if s[0] == '[' {
		return gen.Tok{Text: s, Kind: gen.Quoted}
	}
	return gen.Tok{Text: s, Kind: gen.Word}
}

// tableRefs draws names of a few tables, some of them in several ways.
func tableRefs(t *rapid.T, g *gen.G, u *user) []gen.TableRef {
	word := func(s string) gen.Tok { return gen.Tok{Text: s, Kind: gen.Word} }
	dot := gen.Tok{Text: ".", Kind: gen.Punct}
	var refs []gen.TableRef
	for n := 1 + h.N(t, 3, "tables"); n > 0; n-- {
		nm := gen.AnyName(t, g.Plain)
		refs = append(refs, gen.TableRef{Toks: []gen.Tok{nm.Tok},
			Name: types.TableName{Table: nm.ID}})
		if h.Chance(t, 50, "same table") {
			refs = append(refs, gen.TableRef{
				Toks: []gen.Tok{idTok(u.database), dot, idTok(u.schema), dot, nm.Tok},
				Name: types.TableName{Database: u.database, Schema: u.schema, Table: nm.ID}})
		}
		if h.Chance(t, 30, "other schema") {
			refs = append(refs, gen.TableRef{Toks: []gen.Tok{word("s"), dot, nm.Tok},
				Name: types.TableName{Schema: types.ID("s", false), Table: nm.ID}})
		}
		if h.Chance(t, 30, "other database") {
			refs = append(refs, gen.TableRef{
				Toks: []gen.Tok{word("d"), dot, idTok(u.schema), dot, nm.Tok},
				Name: types.TableName{Database: types.ID("d", false), Schema: u.schema,
					Table: nm.ID}})
		}
	}
	return refs
}

// there are those names that are of tables that are there, if any.
func there(tables map[types.TableName]*engine.TableType, u *user, refs []gen.TableRef) []gen.TableRef {
	var some []gen.TableRef
	for _, tr := range refs {
		if tables[u.resolveTable(tr.Name)] != nil {
			some = append(some, tr)
		}
	}
	if some == nil {
		return refs
	}
	return some
}

// manyTables draws statements which create many tables and drop some of them together.
func manyTables(t *rapid.T) []gen.Stmt {
	word := func(s string) gen.Tok { return gen.Tok{Text: s, Kind: gen.Word} }
	punct := func(s string) gen.Tok { return gen.Tok{Text: s, Kind: gen.Punct} }
	kw := func(s string) []gen.Tok {
		var toks []gen.Tok
		for _, w := range strings.Fields(s) {
			toks = append(toks, gen.Tok{Text: w, Kind: gen.Kw})
		}
		return toks
	}
	n := 10 + h.N(t, 40, "many")
	name := func(i int) types.Identifier { return types.ID(fmt.Sprintf("many_%d", i), false) }
	var ss []gen.Stmt
	for i := 0; i < n; i++ {
		ss = append(ss, gen.Stmt{Kind: "CREATE TABLE",
			Toks: append(kw("CREATE TABLE"), idTok(name(i)), punct("("), word("a"), word("int"),
				punct(")")),
			Want: &sql.CreateTable{Table: types.TableName{Table: name(i)},
				Columns:        []types.Identifier{types.ID("a", false)},
				ColumnTypes:    []types.ColumnType{{Type: types.Int64Type, Size: 4}},
				ColumnDefaults: []sql.Expr{nil}}})
	}
	perm := h.Perm(t, n, "dropped")
	for i, k := 0, 1+h.N(t, n, "dropped together"); i < n && k > 0; k = h.N(t, n-i, "dropped together") {
		dt := &sql.DropTable{}
		toks := kw("DROP TABLE")
		for j := i; j < i+k && j < n; j++ {
			if j > i {
				toks = append(toks, punct(","))
			}
			toks = append(toks, idTok(name(perm[j])))
			dt.Tables = append(dt.Tables, types.TableName{Table: name(perm[j])})
		}
		i += k
		if h.Chance(t, 15, "twice") {
			j := perm[h.N(t, n, "which")]
			toks = append(toks, punct(","), idTok(name(j)))
			dt.Tables = append(dt.Tables, types.TableName{Table: name(j)})
		}
		ss = append(ss, gen.Stmt{Kind: "DROP TABLE", Toks: toks, Want: dt})
	}
	return ss
}

// TestP40: statements tell the engine exactly what they say.
func TestP40(t *testing.T) {
	h.CheckTimed(t, 3000, 20, func(rt *rapid.T, c *h.Case) {
		u := &user{database: databases[h.N(rt, len(databases), "database")].id,
			schema: schemas[h.N(rt, len(schemas), "schema")].id}
		eng := &recorder{tables: map[types.TableName]*engine.TableType{}}
		ses := evaluate.NewSession(eng, u.database, u.schema)
		m := &teller{tables: map[types.TableName]*engine.TableType{}, cnt: map[string]int{}}
		plain := h.Chance(rt, 30, "plain")
		g := gen.NewG(rt, plain)
		refs := tableRefs(rt, g, u)
		var idxs []gen.Name
		for n := 1 + h.N(rt, 3, "indexes"); n > 0; n-- {
			idxs = append(idxs, gen.AnyName(rt, plain))
		}
		columns := func(tn types.TableName) []gen.Name {
			tt := m.tables[u.resolveTable(tn)]
			if tt == nil {
				return nil
			}
			var ns []gen.Name
			for _, col := range tt.ColumnNames {
				ns = append(ns, gen.Name{Tok: idTok(col), ID: col})
			}
			if h.Chance(rt, 10, "unknown column") {
				nm := gen.AnyName(rt, plain)
				if len(ns) > 0 && h.Chance(rt, 40, "case") {
					s := ns[h.N(rt, len(ns), "column")].ID.String()
					s = h.Pick(rt, "another", strings.ToUpper(s), strings.ToLower(s), s+" ", s[:len(s)-1]+"_")
					nm.ID = types.ID(s, true)
					nm.Tok = idTok(nm.ID)
				}
				if !slices.Contains(tt.ColumnNames, nm.ID) {
					ns = append(ns, nm)
				}
			}
			return ns
		}
		var queue []gen.Stmt
		if h.Chance(rt, 8, "many tables") {
			queue = manyTables(rt)
			c.Label("many tables")
		}
		for n := len(queue) + 2 + h.N(rt, 24, "statements"); n > 0; n-- {
			var s gen.Stmt
			k := h.Weighted(rt, "statement", 10, 1, 1, 1)
			if len(queue) > 0 {
				k = 4
			}
			switch k {
			case 4:
				s, queue = queue[0], queue[1:]
			case 0:
				g := gen.NewG(rt, plain)
				g.Tables, g.Indexes, g.Columns = refs, idxs, columns
				if h.Chance(rt, 70, "there") {
					g.Tables = there(m.tables, u, refs)
				}
				s = g.DDL()
				if s.Kind == "ALTER TABLE" {
					continue
				}
			case 1:
				s = gen.Stmt{Kind: "BEGIN", Toks: []gen.Tok{{Text: "BEGIN"}}, Want: &sql.Begin{}}
			case 2:
				s = gen.Stmt{Kind: "COMMIT", Toks: []gen.Tok{{Text: "COMMIT"}}, Want: &sql.Commit{}}
			case 3:
				s = gen.Stmt{Kind: "ROLLBACK", Toks: []gen.Tok{{Text: "ROLLBACK"}},
					Want: &sql.Rollback{}}
			}
			text := gen.Text(rt, s.Toks, layout(rt))
			u.resolved(s.Want)
			if m.missing(s.Want) {
				continue // not done by the evaluator yet
			}
			got, err := parse(text)
			if err != nil {
				rt.Fatalf("parse of %s: %s", text, err)
			}
			fail := 0
			if h.Chance(rt, 15, "fail") {
				fail = 1 + h.N(rt, 3, "which call")
			}
			eng.fail, eng.failed, m.fail = fail, "", fail
			eng.calls, eng.ends, m.calls, m.ends = nil, nil, nil, nil
			wasOpen := eng.open
			want := m.statement(s.Want)
			err = ses.Evaluate(ctx, got)
			c.Note("%s: %v", text, err)
			if (err == nil) != want {
				rt.Fatalf("%s\ngot error %v; want success %v", text, err, want)
			}
			if !slices.Equal(eng.calls, m.calls) {
				rt.Fatalf("%s\ntold the engine:\n%s\nwant:\n%s", text, strings.Join(eng.calls, "\n"),
					strings.Join(m.calls, "\n"))
			}
			if (eng.open != nil) != m.inTx {
				rt.Fatalf("%s\ntransaction open: %v; want %v", text, eng.open != nil, m.inTx)
			}
			if wasOpen != nil && eng.open != nil && wasOpen != eng.open {
				rt.Fatalf("%s\nhas replaced the transaction", text)
			}
			// How a transaction that changed nothing ends does not matter.
			if wasOpen != nil || len(m.calls) > 0 {
				if !slices.Equal(eng.ends, m.ends) {
					rt.Fatalf("%s\nends of transactions: %q; want %q", text, eng.ends, m.ends)
				}
			}
			if eng.failed != "" {
				m.cnt["failure injected"]++
				implicit := wasOpen == nil && eng.failed == "rollback"
				if err == nil || !implicit && !strings.Contains(err.Error(), injected{}.Error()) {
					rt.Fatalf("%s\nlost the failure of the engine: %s", text, err)
				}
			}
			if fmt.Sprint(keys(eng.tables)) != fmt.Sprint(keys(m.tables)) {
				rt.Fatalf("%s\ntables %v; want %v", text, keys(eng.tables), keys(m.tables))
			}
			m.cnt[s.Kind]++
			if !want {
				m.cnt["refused"]++
			}
		}
		for k, n := range m.cnt {
			c.LabelIf(n > 0, k)
		}
		if m.cnt["create index"]+m.cnt["drop table"]+m.cnt["drop index"] > 0 {
			c.NonTrivial("%v in %q.%q", m.cnt, u.database, u.schema)
		}
	})
}

func keys(ts map[types.TableName]*engine.TableType) []string {
	var ss []string
	for tn, tt := range ts {
		var is []string
		for _, it := range tt.Indexes {
			is = append(is, gen.Dump(it.Name))
		}
		slices.Sort(is)
		ss = append(ss, fmt.Sprint(gen.Dump(tn), is))
	}
	slices.Sort(ss)
	return ss
}
