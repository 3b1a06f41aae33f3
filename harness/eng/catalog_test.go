package eng

import (
	"fmt"
	"io"
	"slices"
	"sort"
	"strings"
	"testing"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"

	"mahoverif/h"
	"mahoverif/vals"

	"pgregory.net/rapid"
)

// def is the definition of a table.
type def struct {
	tid   storage.TableId
	names []types.Identifier
	types []types.ColumnType
	key   []types.ColumnKey
}

// catalog is the model: databases with schemas with tables, by their names.
type catalog map[string]map[string]map[string]*def

func (cat catalog) clone() catalog {
	n := catalog{}
	for d, ss := range cat {
		n[d] = map[string]map[string]*def{}
		for s, ts := range ss {
			n[d][s] = map[string]*def{}
			for t, def := range ts {
				n[d][s][t] = def
			}
		}
	}
	return n
}

func (cat catalog) String() string {
	var ss []string
	for d, schemas := range cat {
		if len(schemas) == 0 {
			ss = append(ss, fmt.Sprintf("%q", d))
		}
		for s, tables := range schemas {
			if len(tables) == 0 {
				ss = append(ss, fmt.Sprintf("%q.%q", d, s))
			}
			for t := range tables {
				if d != "system" {
					ss = append(ss, fmt.Sprintf("%q.%q.%q", d, s, t))
				}
			}
		}
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

// Names of which some start with others, sort next to each other, or are special.
var (
	databaseNames = []types.Identifier{types.ID("d", true), types.ID("da", true),
		types.ID("d\x00", true), types.ID("D", true), types.MAHO, types.ID("mah", true),
		types.ID("system2", true), types.ID("int", false), types.ID("select", true),
		types.ID("é", true), types.ID("É", true), types.ID("d ", true), types.ID(" d", true),
		types.ID("d.s", true), types.ID("1", true), types.ID("\x7f", true), types.ID("\U0010ffff", true),
		types.ID("日本", true)}
	schemaNames = []types.Identifier{types.PUBLIC, types.ID("s", true), types.ID("sa", true),
		types.ID("s.t", true), types.ID("text", false), types.ID("S", true), types.ID("a", true),
		types.ID("s ", true), types.ID("\ts", true), types.ID("s\x00", true), types.ID("s\x01", true),
		types.ID("sec", true), types.ID("pub", true), types.ID("info", true), types.ID("é", true),
		types.ID("\x7f", true), types.ID("日本", true), types.ID("\U0010ffff", true), types.ID("~", true)}
	tableNames = []types.Identifier{types.ID("t", true), types.ID("ta", true), types.ID("T", true),
		types.ID("double", false), types.ID("table", true), types.ID("a", true),
		types.ID(strings.Repeat("x", 127)+"y", true), types.ID(strings.Repeat("x", 127)+"z", true),
		types.ID("t ", true), types.ID("t\n", true), types.ID(" t", true), types.ID("t\x00", true),
		types.ID("t\x01", true), types.ID("t;", true), types.ID("t%", true),
		types.ID("\U0001f600", true), types.ID("\u00e9", true), types.ID("e\u0301", true),
		types.ID(strings.Repeat("x", 127), true)}
)

// choose chooses some of the names, often the first ones.
func choose(t *rapid.T, names []types.Identifier, least, most int) []types.Identifier {
	n := least + h.N(t, most-least+1, "names")
	if h.Chance(t, 30, "the first names") {
		return names[:n]
	}
	var some []types.Identifier
	for _, i := range h.Perm(t, len(names), "which names")[:n] {
		some = append(some, names[i])
	}
	for _, id := range []types.Identifier{types.MAHO, types.PUBLIC} {
		if slices.Contains(names, id) && !slices.Contains(some, id) && h.Chance(t, 70, "always there") {
			some[0] = id
		}
	}
	return some
}

type catMachine struct {
	t     *rapid.T
	c     *h.Case
	store storage.Store
	eng   engine.Engine
	other engine.Engine // of the same store
	tx    engine.Transaction
	done  catalog
	cat   catalog
	cnt   map[string]int
	tids  map[storage.TableId]bool // of tables that were committed
	fresh map[storage.TableId]bool // and those of the transaction
	dns   []types.Identifier       // the names in use, a choice of those above
	sns   []types.Identifier
	tns   []types.Identifier
	big   bool
	bulk  int // how many tables of one schema have numbers for names
}

func newCatMachine(t *rapid.T, c *h.Case) *catMachine {
	return newCatMachineOn(t, c, newStore())
}

func newCatMachineOn(t *rapid.T, c *h.Case, store storage.Store) *catMachine {
	m := &catMachine{t: t, c: c, store: store, cnt: map[string]int{},
		tids: map[storage.TableId]bool{}, fresh: map[storage.TableId]bool{},
		dns: choose(t, databaseNames, 3, 8), sns: choose(t, schemaNames, 2, 6),
		tns: choose(t, tableNames, 3, 8)}
	if err := engine.Init(m.store); err != nil {
		t.Fatalf("init: %s", err)
	}
	m.eng = engine.NewEngine(m.store)
	m.done = catalog{
		"maho":   {"public": {}},
		"system": {"info": {"sequences": nil, "databases": nil, "schemas": nil, "tables": nil}},
	}
	m.cat = m.done
	return m
}

func (m *catMachine) db() types.Identifier {
	return m.dns[h.N(m.t, len(m.dns), "database")]
}

func (m *catMachine) schema() types.SchemaName {
	d := m.db()
	// Mostly a schema of a database that is there.
	if h.Chance(m.t, 60, "there") {
		d = types.MAHO
		for _, o := range m.dns {
			if m.cat[o.String()] != nil && h.Chance(m.t, 40, "this") {
				d = o
				break
			}
		}
	}
	return types.SchemaName{Database: d, Schema: m.sns[h.N(m.t, len(m.sns), "schema")]}
}

func (m *catMachine) table() types.TableName {
	sn := m.schema()
	if h.Chance(m.t, 70, "there") {
		for _, s := range m.sns {
			if m.cat[sn.Database.String()][s.String()] != nil && h.Chance(m.t, 60, "this") {
				sn.Schema = s
				break
			}
		}
	}
	return types.TableName{Database: sn.Database, Schema: sn.Schema,
		Table: m.tns[h.N(m.t, len(m.tns), "table")]}
}

func (m *catMachine) fail(format string, args ...any) {
	m.t.Helper()
	m.t.Fatalf(format, args...)
}

// expect checks that a call failed or succeeded as it should.
func (m *catMachine) expect(what string, ok bool, err error) bool {
	m.t.Helper()
	m.c.Note("%s: %v", what, err)
	if ok && err != nil {
		m.fail("%s: %s; catalog %s", what, err, m.cat)
	} else if !ok && err == nil {
		m.fail("%s succeeded; catalog %s", what, m.cat)
	}
	m.isFailure(what, err)
	if !ok {
		m.cnt["refused"]++
	}
	return ok
}

// isFailure checks that an error does not read as the end of rows.
func (m *catMachine) isFailure(what string, err error) {
	m.t.Helper()
	if err == io.EOF {
		m.fail("%s gives io.EOF; catalog %s", what, m.cat)
	}
}

func strs(ids []types.Identifier) []string {
	ss := []string{}
	for _, id := range ids {
		ss = append(ss, id.String())
	}
	sort.Strings(ss)
	return ss
}

func (m *catMachine) listDatabases() {
	ids, err := m.eng.ListDatabases()
	if err != nil {
		m.fail("list databases: %s", err)
	}
	if want := h.SortedKeys(m.done); !slices.Equal(strs(ids), want) {
		m.fail("databases %q; want %q", strs(ids), want)
	}
}

func (m *catMachine) listSchemas(d types.Identifier) {
	ids, err := m.tx.ListSchemas(ctx, d)
	ss, ok := m.cat[d.String()]
	if !ok {
		if err == nil {
			m.fail("schemas of the missing database %q: %q", d, strs(ids))
		}
		m.isFailure("list schemas", err)
		return
	}
	if err != nil {
		m.fail("list schemas of %q: %s", d, err)
	}
	if want := h.SortedKeys(ss); !slices.Equal(strs(ids), want) {
		m.fail("schemas of %q: %q; want %q", d, strs(ids), want)
	}
}

func (m *catMachine) openTable(tn types.TableName) {
	tbl, err := m.tx.OpenTable(ctx, tn)
	d, ok := m.cat[tn.Database.String()][tn.Schema.String()][tn.Table.String()]
	if !ok {
		if err == nil {
			m.fail("the missing table %q.%q.%q was opened; catalog %s", tn.Database, tn.Schema, tn.Table,
				m.cat)
		}
		m.isFailure("open table", err)
		return
	}
	if err != nil {
		m.fail("open table %q.%q.%q: %s; catalog %s", tn.Database, tn.Schema, tn.Table, err, m.cat)
	}
	if tbl.Name() != tn {
		m.fail("table %q says it is %q", tn, tbl.Name())
	}
	if d == nil { // an initial one
		if tbl.TableId() > 511 || tbl.TableId() < storage.EngineTableId {
			m.fail("table %s has number %d", tn, tbl.TableId())
		}
		return
	}
	tt := tbl.Type()
	if !slices.Equal(tt.ColumnNames, d.names) || !slices.Equal(tt.ColumnTypes, d.types) ||
		!slices.Equal(tt.Key, d.key) {
		m.fail("table %q: got columns %q %v key %v; want %q %v key %v", tn, tt.ColumnNames,
			tt.ColumnTypes, tt.Key, d.names, d.types, d.key)
	}
	if len(tt.ColumnDefaults) != 0 || len(tt.Indexes) != 0 {
		m.fail("table %q: got defaults %v, indexes %v", tn, tt.ColumnDefaults, tt.Indexes)
	}
	if d.tid == 0 {
		// Just created.
		tid := tbl.TableId()
		if tid <= 511 {
			m.fail("table %q has the reserved number %d", tn, tid)
		}
		if m.tids[tid] || m.fresh[tid] {
			m.fail("table %q has number %d, which another table has or had", tn, tid)
		}
		m.fresh[tid] = true
		d.tid = tid
	} else if d.tid != tbl.TableId() {
		m.fail("table %q had number %d, now has %d", tn, d.tid, tbl.TableId())
	}
}

// checkTx checks the catalog as the transaction sees it.
func (m *catMachine) checkTx() {
	for _, d := range m.dns {
		m.listSchemas(d)
	}
	m.listSchemas(types.SYSTEM)
	all := append([]types.TableName(nil),
		types.TableName{Database: types.SYSTEM, Schema: types.INFO, Table: types.TABLES},
		types.TableName{Database: types.SYSTEM, Schema: types.INFO, Table: types.SEQUENCES},
		types.TableName{Database: types.SYSTEM, Schema: types.INFO, Table: types.DATABASES},
		types.TableName{Database: types.SYSTEM, Schema: types.INFO, Table: types.SCHEMAS})
	for _, d := range m.dns {
		for _, s := range m.sns {
			there := m.cat[d.String()][s.String()]
			for i, t := range m.tns {
				if _, ok := there[t.String()]; ok || i == len(all)%37 {
					all = append(all, types.TableName{Database: d, Schema: s, Table: t})
				}
			}
		}
	}
	for d, ss := range m.cat {
		for s := range ss {
			if m.bulk > 0 && d != "system" {
				for i := 0; i < m.bulk; i++ {
					all = append(all, types.TableName{Database: types.ID(d, true),
						Schema: types.ID(s, true), Table: bulkName("t", i)})
				}
			}
		}
	}
	for _, tn := range all {
		m.openTable(tn)
	}
}

func bulkName(what string, i int) types.Identifier {
	return types.ID(fmt.Sprintf("%s%d", what, i), true)
}

// sometimes completes the transaction now and then, and starts another.
func (m *catMachine) sometimes() {
	if h.Chance(m.t, 25, "commit") {
		m.end(true)
		m.begin()
	}
}

// bulkTables makes many tables in a schema, and drops the schema.
func (m *catMachine) bulkTables() {
	sn := types.SchemaName{Database: m.db(), Schema: m.sns[h.N(m.t, len(m.sns), "schema")]}
	ss := m.cat[sn.Database.String()]
	if ss == nil {
		sn.Database = types.MAHO
		if ss = m.cat["maho"]; ss == nil {
			return
		}
	}
	if ss[sn.Schema.String()] == nil {
		if m.expect("create schema", true, m.tx.CreateSchema(ctx, sn)) {
			ss[sn.Schema.String()] = map[string]*def{}
		}
	}
	n := 20 + h.N(m.t, 60, "tables")
	m.bulk = max(m.bulk, n)
	for i := 0; i < n; i++ {
		tn := types.TableName{Database: sn.Database, Schema: sn.Schema, Table: bulkName("t", i)}
		if _, there := ss[sn.Schema.String()][tn.Table.String()]; !there {
			m.createTable(tn)
		}
	}
	m.sometimes()
	ss = m.cat[sn.Database.String()]
	m.check(h.Chance(m.t, 30, "everything"))
	if h.Chance(m.t, 20, "keep") {
		return
	}
	m.expect("drop schema", true, m.tx.DropSchema(ctx, sn, false))
	delete(ss, sn.Schema.String())
	m.sometimes()
	ss = m.cat[sn.Database.String()]
	m.expect("create schema", true, m.tx.CreateSchema(ctx, sn))
	ss[sn.Schema.String()] = map[string]*def{}
	m.check(true)
	m.cnt["drop schema with many tables"]++
}

// bulkSchemas makes many schemas in a database, and drops the database.
func (m *catMachine) bulkSchemas() {
	d := m.db()
	if m.cat[d.String()] == nil {
		d = types.MAHO
	}
	ss := m.cat[d.String()]
	if ss == nil {
		return
	}
	for i, n := 0, 20+h.N(m.t, 80, "schemas"); i < n; i++ {
		sn := types.SchemaName{Database: d, Schema: bulkName("s", i)}
		_, there := ss[sn.Schema.String()]
		if m.expect("create schema", !there, m.tx.CreateSchema(ctx, sn)) {
			ss[sn.Schema.String()] = map[string]*def{}
		}
	}
	m.check(false)
	m.end(true)
	m.check(h.Chance(m.t, 30, "everything"))
	if h.Chance(m.t, 20, "keep") {
		return
	}
	m.expect("drop database", true, m.eng.DropDatabase(d, false))
	m.done = m.done.clone()
	delete(m.done, d.String())
	m.cat = m.done
	m.check(false)
	m.expect("create database", true, m.eng.CreateDatabase(d, nil))
	m.done = m.done.clone()
	m.done[d.String()] = map[string]map[string]*def{}
	m.cat = m.done
	m.check(true)
	m.cnt["drop database with many schemas"]++
}

// bulkDatabases makes many databases, and drops some of them.
func (m *catMachine) bulkDatabases() {
	n := 10 + h.N(m.t, 60, "databases")
	for i := 0; i < n; i++ {
		d := bulkName("d", i)
		_, there := m.done[d.String()]
		if m.expect("create database", !there, m.eng.CreateDatabase(d, nil)) {
			m.done = m.done.clone()
			m.done[d.String()] = map[string]map[string]*def{}
		}
	}
	m.cat = m.done
	m.check(false)
	dropped := 0
	for i := 0; i < n; i++ {
		if h.Chance(m.t, 50, "drop") {
			m.expect("drop database", true, m.eng.DropDatabase(bulkName("d", i), false))
			m.done = m.done.clone()
			delete(m.done, bulkName("d", i).String())
			dropped++
		}
	}
	m.cat = m.done
	m.check(h.Chance(m.t, 30, "everything"))
	if dropped > 5 {
		m.cnt["dropped some of many databases"]++
	}
}

// look checks some of the catalog.
func (m *catMachine) look() {
	m.listSchemas(m.db())
	m.openTable(m.table())
	m.openTable(m.table())
}

// check checks everything, or else some of it.
func (m *catMachine) check(everything bool) {
	if m.tx != nil {
		if everything {
			m.checkTx()
		} else {
			m.look()
		}
		return
	}
	m.listDatabases()
	m.begin()
	if everything {
		m.checkTx()
	} else {
		m.look()
	}
	m.end(h.Chance(m.t, 50, "commit"))
}

func (m *catMachine) begin() {
	m.tx = m.eng.Begin()
	m.cat = m.done.clone()
	m.fresh = map[storage.TableId]bool{}
}

func (m *catMachine) end(commit bool) {
	tx := m.tx
	if commit {
		if err := tx.Commit(ctx); err != nil {
			m.fail("commit: %s", err)
		}
		m.done = m.cat
		for tid := range m.fresh {
			m.tids[tid] = true
		}
	} else {
		if err := tx.Rollback(); err != nil {
			m.fail("rollback: %s", err)
		}
		m.cat = m.done
	}
	m.tx = nil
	if h.Chance(m.t, 20, "again") {
		if err := tx.Commit(ctx); err == nil {
			m.fail("a completed transaction was committed again")
		}
		if err := tx.Rollback(); err == nil {
			m.fail("a completed transaction was rolled back again")
		}
	}
}

func (m *catMachine) createTable(tn types.TableName) {
	d := genDef(m.t, m.big)
	exact := 0
	if m.big && h.Chance(m.t, 50, "sized") {
		d, exact = sizedDef(m.t)
	}
	ts, ok := m.cat[tn.Database.String()][tn.Schema.String()]
	if _, there := ts[tn.Table.String()]; there {
		ok = false
	}
	// The arguments are copied, and may be changed afterwards.
	names, cts, key := slices.Clone(d.names), slices.Clone(d.types), slices.Clone(d.key)
	err := m.tx.CreateTable(ctx, tn, names, cts, key)
	for i := range names {
		names[i], cts[i] = types.SYSTEM, types.BoolColType
	}
	what := fmt.Sprintf("create table %q.%q.%q with %d columns", tn.Database, tn.Schema, tn.Table,
		len(names))
	if exact == maxDef {
		m.cnt["exactly as large as it may be"]++
	}
	if ok && err != nil && d.large() && (exact == 0 || exact > maxDef) {
		m.c.Note("%s: %s", what, err)
		m.cnt["too large"]++
		return
	}
	if m.expect(what, ok, err) {
		m.cnt["create table"]++
		ts[tn.Table.String()] = d
		m.openTable(tn) // learns its number
	}
}

// maxDef is the size of the column of the catalog that holds the definition.
const maxDef = 8192

// sizedDef makes a definition that is about as large as it may be, and gives its encoded size.
func sizedDef(t *rapid.T) (*def, int) {
	want := maxDef + h.Pick(t, "size", 0, 0, 0, -1, 1, -2, -100)
	ct := vals.ColumnType(t)
	size := func(d *def) int {
		buf, err := (&engine.TableType{Version: 1, ColumnNames: d.names, ColumnTypes: d.types,
			Key: d.key}).Encode()
		if err != nil {
			t.Fatalf("encode %v: %s", d, err)
		}
		return len(buf)
	}
	d := &def{}
	for size(d) < want-200 {
		d.names = append(d.names, types.ID(fmt.Sprintf("%0100d", len(d.names)), true))
		d.types = append(d.types, ct)
	}
	last := len(d.names)
	d.names = append(d.names, types.SYSTEM)
	d.types = append(d.types, ct)
	for n := 1; n <= types.MaxIdentifier; n++ {
		d.names[last] = types.ID(strings.Repeat("p", n), true)
		if size(d) >= want {
			break
		}
	}
	return d, size(d)
}

// large tells definitions that may be refused.
func (d *def) large() bool {
	n := 0
	for _, id := range d.names {
		n += len(id.String()) + 8
	}
	return n+16*len(d.types)+8*len(d.key) > 4000
}

var columnPool = []types.Identifier{types.ID("a", true), types.ID("b", true), types.ID("A", true),
	types.ID("int", false), types.ID("text", false), types.ID("select", true), types.ID("é", true),
	types.ID("a b", true), types.ID(`q"`, true), types.TABLES, types.COUNT_ALL, types.MAHO,
	types.ID(strings.Repeat("n", 128), true), types.ID("\x00", true), types.ID("precision", false),
	types.ID("stdin", false), types.ID("where", true), types.ID("path", false)}

func genDef(t *rapid.T, big bool) *def {
	d := &def{}
	n := 1 + h.N(t, 7, "columns")
	if big {
		n = 1 + h.N(t, 900, "many columns")
	}
	perm := h.Perm(t, len(columnPool), "names")
	for i := 0; i < n; i++ {
		id := types.ID(fmt.Sprintf("col%d", i), true)
		if i < len(perm) {
			id = columnPool[perm[i]]
		}
		d.names = append(d.names, id)
		if big && i > 20 {
			d.types = append(d.types, d.types[i%20])
		} else {
			d.types = append(d.types, vals.ColumnType(t))
		}
	}
	if h.Chance(t, 75, "key") {
		kn := 1 + h.N(t, min(n, 4), "key columns")
		for _, i := range h.Perm(t, n, "key")[:kn] {
			d.key = append(d.key, types.MakeColumnKey(types.ColumnNum(i), h.Chance(t, 40, "desc")))
		}
	}
	return d
}

// op runs one operation; tables weighs operations on tables.
func (m *catMachine) op(tables int) {
	if m.tx == nil {
		switch h.Weighted(m.t, "op", 8, 6, 16, 2, 1) {
		case 0:
			d := m.db()
			_, there := m.done[d.String()]
			var opts storage.OptionsMap
			if h.Chance(m.t, 10, "options") {
				opts = storage.OptionsMap{types.PATH: "x"}
				there = true // refused as well
			}
			if m.expect(fmt.Sprintf("create database %q %v", d, opts), !there,
				m.eng.CreateDatabase(d, opts)) {
				m.done = m.done.clone()
				m.done[d.String()] = map[string]map[string]*def{}
				m.cnt["create database"]++
			}
		case 1:
			d := m.db()
			ss, there := m.done[d.String()]
			ifExists := h.Chance(m.t, 40, "if exists")
			if m.expect(fmt.Sprintf("drop database %q, if exists %v", d, ifExists), there || ifExists,
				m.eng.DropDatabase(d, ifExists)) {
				m.done = m.done.clone()
				delete(m.done, d.String())
				if there {
					m.cnt["drop database"]++
				}
				if len(ss) > 0 {
					m.cnt["drop database with schemas"]++
				}
			}
		case 2:
			m.c.Note("begin")
			m.begin()
		case 3:
			m.listDatabases()
		case 4:
			// The catalog is in the store: another engine finds it there.
			m.c.Note("another engine")
			other := m.other
			if other == nil || h.Chance(m.t, 40, "new") {
				other = engine.NewEngine(m.store)
			}
			m.eng, m.other = other, m.eng
			m.cnt["another engine"]++
		}
		m.cat = m.done
		if m.tx != nil {
			m.cat = m.done.clone()
		}
		return
	}
	switch h.Weighted(m.t, "op in transaction", 6, 4, 3+tables, 4, 2, 2) {
	case 0:
		sn := m.schema()
		ss, ok := m.cat[sn.Database.String()]
		if _, there := ss[sn.Schema.String()]; there {
			ok = false
		}
		if m.expect(fmt.Sprintf("create schema %q.%q", sn.Database, sn.Schema), ok,
			m.tx.CreateSchema(ctx, sn)) {
			ss[sn.Schema.String()] = map[string]*def{}
			m.cnt["create schema"]++
		}
	case 1:
		sn := m.schema()
		ss := m.cat[sn.Database.String()]
		ts, there := ss[sn.Schema.String()]
		ifExists := h.Chance(m.t, 40, "if exists")
		if m.expect(fmt.Sprintf("drop schema %q.%q, if exists %v", sn.Database, sn.Schema, ifExists),
			there || ifExists, m.tx.DropSchema(ctx, sn, ifExists)) {
			delete(ss, sn.Schema.String())
			if there {
				m.cnt["drop schema"]++
			}
			if len(ts) > 0 {
				m.cnt["drop schema with tables"]++
			}
		}
	case 2:
		m.createTable(m.table())
	case 3:
		m.openTable(m.table())
	case 4:
		m.listSchemas(m.db())
	case 5:
		commit := h.Chance(m.t, 65, "commit")
		m.c.Note("end: commit %v", commit)
		m.end(commit)
		if commit {
			m.cnt["commit"]++
		} else {
			m.cnt["rollback"]++
		}
	}
}

func (m *catMachine) run(ops, tables int) {
	m.check(h.Chance(m.t, 5, "everything at first"))
	for i := 0; i < ops; i++ {
		m.op(tables)
		m.check(h.Chance(m.t, 3, "everything"))
	}
	if m.tx != nil {
		m.end(h.Chance(m.t, 60, "commit"))
	}
	m.check(true)
	for k, n := range m.cnt {
		m.c.LabelIf(n > 0, k)
	}
}

// bulkHistory is one in which there are many tables or schemas at times.
func bulkHistory(rt *rapid.T, c *h.Case) {
	m := newCatMachine(rt, c)
	for n := 1 + h.N(rt, 3, "rounds"); n > 0; n-- {
		for i := h.N(rt, 12, "operations"); i > 0; i-- {
			m.op(3)
		}
		if m.tx == nil && h.Chance(rt, 50, "databases") {
			m.bulkDatabases()
		}
		if m.tx == nil {
			m.begin()
		}
		if h.Chance(rt, 60, "tables") {
			m.bulkTables()
		} else {
			m.bulkSchemas()
		}
	}
	m.run(h.N(rt, 5, "operations"), 3)
	c.NonTrivial("%v: %d tables in a schema", m.cnt, m.bulk)
}

// TestP32: the catalog holds exactly what its history leaves.
func TestP32(t *testing.T) {
	t.Run("bulk", func(t *testing.T) {
		h.Check(t, 20, bulkHistory)
	})
	h.Check(t, 200, func(rt *rapid.T, c *h.Case) {
		m := newCatMachine(rt, c)
		m.run(5+h.N(rt, 35, "operations"), 2)
		if m.cnt["create schema"]+m.cnt["create table"] > 1 && m.cnt["refused"] > 0 {
			c.NonTrivial("%v: %s", m.cnt, m.done)
		}
	})
}

// TestP33: tables keep their definition and have a number of their own.
func TestP33(t *testing.T) {
	t.Run("catalog", func(t *testing.T) {
		h.Check(t, 150, func(rt *rapid.T, c *h.Case) {
			m := newCatMachine(rt, c)
			m.run(5+h.N(rt, 35, "operations"), 14)
			if m.cnt["create table"] > 1 {
				c.NonTrivial("%v: %s", m.cnt, m.done)
			}
		})
	})
	t.Run("large", func(t *testing.T) {
		h.Check(t, 45, func(rt *rapid.T, c *h.Case) {
			m := newCatMachine(rt, c)
			m.big = true
			m.run(5+h.N(rt, 10, "operations"), 40)
			if m.cnt["create table"]+m.cnt["too large"] > 0 {
				c.NonTrivial("%v: %s", m.cnt, m.done)
			}
		})
	})
	t.Run("many", func(t *testing.T) {
		h.Check(t, 25, manyTables)
	})
	t.Run("bulk", func(t *testing.T) {
		h.Check(t, 10, bulkHistory)
	})
	t.Run("encode", func(t *testing.T) {
		h.Check(t, 600, func(rt *rapid.T, c *h.Case) {
			d := genDef(rt, h.Chance(rt, 5, "big"))
			tt := engine.TableType{Version: rapid.Uint32().Draw(rt, "version"), ColumnNames: d.names,
				ColumnTypes: d.types, Key: d.key}
			for n := h.N(rt, 3, "indexes"); n > 0; n-- {
				tt.Indexes = append(tt.Indexes, engine.IndexType{
					Name: columnPool[h.N(rt, len(columnPool), "name")], Key: genDef(rt, false).key})
			}
			c.Note("%v", tt)
			c.NonTrivial("%v", tt)
			buf, err := tt.Encode()
			if err != nil {
				rt.Fatalf("encode %v: %s", tt, err)
			}
			got, err := engine.DecodeTableType(buf)
			if err != nil {
				rt.Fatalf("decode %v: %s", tt, err)
			}
			same := got.Version == tt.Version && slices.Equal(got.ColumnNames, tt.ColumnNames) &&
				slices.Equal(got.ColumnTypes, tt.ColumnTypes) && slices.Equal(got.Key, tt.Key) &&
				len(got.ColumnDefaults) == 0 && slices.EqualFunc(got.Indexes, tt.Indexes,
				func(a, b engine.IndexType) bool {
					return a.Name == b.Name && slices.Equal(a.Key, b.Key)
				})
			if !same {
				rt.Fatalf("%v became %v", tt, *got)
			}
		})
	})
}

// manyTables creates a lot of tables, in transactions of which some are rolled back: each has a
// number that no other has.
func manyTables(t *rapid.T, c *h.Case) {
	store := newStore()
	if err := engine.Init(store); err != nil {
		t.Fatalf("init: %s", err)
	}
	eng := engine.NewEngine(store)
	name := func(n int) types.TableName {
		return types.TableName{Database: types.MAHO, Schema: types.PUBLIC,
			Table: types.ID(fmt.Sprintf("many%d", n), true)}
	}
	defs := []*def{genDef(t, false), genDef(t, false)}
	owner := map[storage.TableId]int{} // of the tables that were committed
	tids := map[int]storage.TableId{}
	var next, back, refused, restarts int
	for txs := 4 + h.N(t, 50, "transactions"); txs > 0; txs-- {
		if h.Chance(t, 8, "restart") {
			eng = engine.NewEngine(store)
			restarts++
		}
		tx := eng.Begin()
		fresh := map[storage.TableId]int{}
		first := next
		for n := 1 + h.N(t, 1+h.N(t, 8, "up to"), "tables"); n > 0; n-- {
			if h.Chance(t, 10, "refused") {
				// Of which the failures may cost a number.
				tn := types.TableName{Database: types.MAHO, Schema: types.ID("missing", true),
					Table: types.ID("t", true)}
				if next > first {
					tn = name(next - 1)
				}
				if tx.CreateTable(ctx, tn, defs[0].names, defs[0].types, defs[0].key) == nil {
					t.Fatalf("table %q was created again", tn)
				}
				refused++
				continue
			}
			d := defs[h.N(t, 2, "definition")]
			if err := tx.CreateTable(ctx, name(next), d.names, d.types, d.key); err != nil {
				t.Fatalf("create table %q: %s", name(next), err)
			}
			tbl, err := tx.OpenTable(ctx, name(next))
			if err != nil {
				t.Fatalf("open table %q: %s", name(next), err)
			}
			tid := tbl.TableId()
			if tid <= 511 {
				t.Fatalf("table %q has the reserved number %d", name(next), tid)
			}
			for _, o := range []map[storage.TableId]int{owner, fresh} {
				if n, ok := o[tid]; ok {
					t.Fatalf("table %q has number %d, which table %q has", name(next), tid, name(n))
				}
			}
			fresh[tid] = next
			next++
		}
		if h.Chance(t, 30, "roll back") {
			if err := tx.Rollback(); err != nil {
				t.Fatalf("rollback: %s", err)
			}
			back++
			next = first // the names are free again
			continue
		}
		if err := tx.Commit(ctx); err != nil {
			t.Fatalf("commit: %s", err)
		}
		for tid, n := range fresh {
			owner[tid] = n
			tids[n] = tid
		}
	}
	tx := engine.NewEngine(store).Begin()
	for n := 0; n < next; n++ {
		tbl, err := tx.OpenTable(ctx, name(n))
		if err != nil {
			t.Fatalf("open table %q: %s", name(n), err)
		} else if tbl.TableId() != tids[n] {
			t.Fatalf("table %q had number %d, now has %d", name(n), tids[n], tbl.TableId())
		}
	}
	if err := tx.Rollback(); err != nil {
		t.Fatalf("rollback: %s", err)
	}
	c.LabelIf(next > 60, "more than 60 tables")
	c.LabelIf(restarts > 0, "restarted")
	if next > 16 && back > 0 && refused > 0 {
		c.NonTrivial("%d tables, %d rollbacks, %d refused, %d restarts", next, back, refused, restarts)
	}
}
