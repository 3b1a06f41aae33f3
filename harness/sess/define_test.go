package sess

import (
	"slices"
	"strings"
	"testing"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"

	"mahoverif/gen"
	"mahoverif/h"

	"pgregory.net/rapid"
)

func layout(t *rapid.T) gen.Layout {
	return gen.Layout{
		Comments: h.Chance(t, 30, "comments"),
		Tight:    h.Chance(t, 20, "tight"),
		Case:     h.Chance(t, 40, "case"),
	}
}

// resolved gives the statement the names that it refers to.
func (u *user) resolved(s sql.Stmt) (any bool) {
	switch s := s.(type) {
	case *sql.CreateTable:
		s.Table = u.resolveTable(s.Table)
	case *sql.CreateIndex:
		s.Table = u.resolveTable(s.Table)
	case *sql.AlterTable:
		s.Table = u.resolveTable(s.Table)
	case *sql.DropTable:
		ts := make([]types.TableName, len(s.Tables))
		for i, tn := range s.Tables {
			ts[i] = u.resolveTable(tn)
		}
		s.Tables = ts
	case *sql.DropIndex:
		s.Table = u.resolveTable(s.Table)
	case *sql.CreateSchema:
		s.Schema = u.resolveSchema(s.Schema)
	case *sql.DropSchema:
		s.Schema = u.resolveSchema(s.Schema)
	case *sql.Copy:
		s.Table = u.resolveTable(s.Table)
	case *sql.InsertValues:
		s.Table = u.resolveTable(s.Table)
	case *sql.Update:
		s.Table = u.resolveTable(s.Table)
	case *sql.Delete:
		s.Table = u.resolveTable(s.Table)
	case *sql.Explain:
		return u.resolved(s.Stmt)
	default:
		return false
	}
	return true
}

// target is what the statement is about.
func target(s sql.Stmt) string {
	switch s := s.(type) {
	case *sql.CreateTable:
		return gen.Dump(s.Table)
	case *sql.CreateIndex:
		return gen.Dump(s.Table)
	case *sql.AlterTable:
		return gen.Dump(s.Table)
	case *sql.DropTable:
		return gen.Dump(s.Tables)
	case *sql.DropIndex:
		return gen.Dump(s.Table)
	case *sql.CreateSchema:
		return gen.Dump(s.Schema)
	case *sql.DropSchema:
		return gen.Dump(s.Schema)
	case *sql.Copy:
		return gen.Dump(s.Table)
	case *sql.InsertValues:
		return gen.Dump(s.Table)
	case *sql.Update:
		return gen.Dump(s.Table)
	case *sql.Delete:
		return gen.Dump(s.Table)
	case *sql.Explain:
		return target(s.Stmt)
	}
	return ""
}

// checkResolve: every statement about a table or schema is about the one that its session
// means.
func checkResolve(rt *rapid.T, c *h.Case) {
	u := &user{database: databases[h.N(rt, len(databases), "database")].id,
		schema: schemas[h.N(rt, len(schemas), "schema")].id}
	ses := evaluate.NewSession(nil, u.database, u.schema)
	g := gen.NewG(rt, h.Chance(rt, 50, "plain"))
	var s gen.Stmt
	if h.Chance(rt, 5, "copy") {
		s.Toks, s.Want = nil, nil
		toks, cp := g.Copy()
		s.Kind, s.Toks, s.Want = "COPY", toks, cp
	} else {
		s = g.Stmt()
		for i := 0; i < 20 && target(s.Want) == ""; i++ {
			s = g.Stmt()
		}
	}
	text := gen.Text(rt, s.Toks, layout(rt))
	if s.Kind == "COPY" {
		text = gen.Simple(s.Toks) + ";\n\\.\n"
	}
	c.Note("in %q.%q: %s", u.database, u.schema, text)
	got, err := parse(text)
	if err != nil {
		rt.Fatalf("parse of %s: %s", text, err)
	}
	before := target(s.Want)
	if !u.resolved(s.Want) {
		return
	}
	got.Resolve(ses)
	if g, w := target(got), target(s.Want); g != w {
		rt.Fatalf("%s\nin %q.%q is about %s; want %s", text, u.database, u.schema, g, w)
	}
	c.Label(s.Kind)
	if before != target(s.Want) {
		c.NonTrivial("in %q.%q: %s", u.database, u.schema, text)
	}
}

// definer executes definitions in one session.
type definer struct {
	t    *rapid.T
	c    *h.Case
	eng  engine.Engine
	ses  *evaluate.Session
	u    *user
	g    *gen.G
	defs map[types.TableName]*def
	cnt  map[string]int
	open bool
}

func (d *definer) run(text string) error {
	stm, err := parse(text)
	if err != nil {
		d.t.Fatalf("parse of %s: %s", text, err)
	}
	err = d.ses.Evaluate(ctx, stm)
	d.c.Note("%s: %v", text, err)
	return err
}

func (d *definer) must(text string) {
	if err := d.run(text); err != nil {
		d.t.Fatalf("%s\nfailed: %s", text, err)
	}
}

func (d *definer) refuse(text string) {
	if err := d.run(text); err == nil {
		d.t.Fatalf("%s\nsucceeded", text)
	}
	d.cnt["refused"]++
}

// home makes a place for the table.
func (d *definer) home(tn types.TableName) {
	if d.open {
		d.must("commit")
		d.open = false
	}
	var there bool
	ids, err := d.eng.ListDatabases()
	if err != nil {
		d.t.Fatalf("list databases: %s", err)
	}
	for _, id := range ids {
		there = there || id.String() == tn.Database.String()
	}
	if !there {
		if err := d.eng.CreateDatabase(tn.Database, nil); err != nil {
			d.t.Fatalf("create database %q: %s", tn.Database, err)
		}
	}
	tx := d.eng.Begin()
	sids, err := tx.ListSchemas(ctx, tn.Database)
	if err != nil {
		d.t.Fatalf("list schemas of %q: %s", tn.Database, err)
	}
	if !slices.Contains(strs(sids), tn.Schema.String()) {
		if err := tx.CreateSchema(ctx, tn.SchemaName()); err != nil {
			d.t.Fatalf("create schema %q: %s", tn, err)
		}
	}
	if err := tx.Commit(ctx); err != nil {
		d.t.Fatalf("commit: %s", err)
	}
}

// same reports whether a name is that of a table that is there, also if only the identities of
// the names differ.
func (d *definer) find(tn types.TableName) *def {
	for o, def := range d.defs {
		if o.Database.String() == tn.Database.String() && o.Schema.String() == tn.Schema.String() &&
			o.Table.String() == tn.Table.String() {
			return def
		}
	}
	return nil
}

func (d *definer) createTable() {
	toks, want := d.g.CreateTable()
	text := gen.Text(d.t, toks, layout(d.t))
	tn := d.u.resolveTable(want.Table)
	nd := &def{cols: want.Columns, types: want.ColumnTypes}
	for _, con := range want.Constraints {
		if con.Type == sql.PrimaryConstraint {
			for i, col := range con.Key.Columns {
				nd.key = append(nd.key, types.MakeColumnKey(
					types.ColumnNum(slices.Index(want.Columns, col)), con.Key.Reverse[i]))
			}
			d.cnt["primary key"]++
			if len(nd.key) > 1 {
				d.cnt["primary key of several columns"]++
			}
		}
	}
	if h.Chance(d.t, 10, "nowhere") && d.find(tn) == nil {
		// Not in a database or schema that is not there.
		tx := d.eng.Begin
		if d.open {
			tx = nil
		}
		if tx != nil {
			t := tx()
			ids, err := t.ListSchemas(ctx, tn.Database)
			t.Rollback()
			if err != nil || !slices.Contains(strs(ids), tn.Schema.String()) {
				d.refuse(text)
				d.cnt["no such schema"]++
			}
		}
	}
	d.home(tn)
	if h.Chance(d.t, 30, "in a transaction") {
		d.must("begin")
		d.open = true
	}
	if old := d.find(tn); old != nil {
		if want.IfNotExists {
			d.must(text)
			d.cnt["already there"]++
		} else {
			d.refuse(text)
		}
		return
	}
	d.must(text)
	d.defs[tn] = nd
	d.cnt["create table"]++
	// Another definition changes nothing.
	if h.Chance(d.t, 30, "again") {
		name := quotedName(tn)
		rest := " (other_column int primary key)"
		if h.Chance(d.t, 50, "if not exists") {
			d.must("create table if not exists " + name + rest)
			d.cnt["already there"]++
		} else {
			d.refuse("create table " + name + rest)
		}
	}
}

// quote writes a name; those with an unreserved meaning must stay bare.
func quoteID(id types.Identifier) string {
	for s, u := range gen.Unreserved {
		if u == id {
			return s
		}
	}
	return "[" + id.String() + "]"
}

func quotedName(tn types.TableName) string {
	return quoteID(tn.Database) + "." + quoteID(tn.Schema) + "." + quoteID(tn.Table)
}

// index creates an index over the columns of a table, or other ones.
func (d *definer) index() {
	if len(d.defs) == 0 {
		return
	}
	// In the order of their names.
	var tns []types.TableName
	for tn := range d.defs {
		tns = append(tns, tn)
	}
	slices.SortFunc(tns, func(a, b types.TableName) int {
		if a.String() < b.String() {
			return -1
		}
		return 1
	})
	tn := tns[h.N(d.t, len(tns), "table")]
	def := d.defs[tn]
	text := "create " + h.Pick(d.t, "unique", "", "unique ") + "index " +
		h.Pick(d.t, "if not exists", "", "if not exists ") + "an_index on " + quotedName(tn) + " ("
	sep := ""
	for _, i := range h.Perm(d.t, len(def.cols), "columns")[:1+h.N(d.t, len(def.cols), "columns")] {
		text += sep + quoteID(def.cols[i]) + h.Pick(d.t, "direction", "", " asc", " desc")
		sep = ", "
	}
	switch h.N(d.t, 4, "index") {
	case 0:
		col := "no_such_column"
		up := types.ID(strings.ToUpper(def.cols[h.N(d.t, len(def.cols), "column")].String()), true)
		if !slices.Contains(def.cols, up) && h.Chance(d.t, 50, "in capitals") {
			col = quoteID(up)
		}
		d.refuse(text + ", " + col + ")")
		d.cnt["index over unknown column"]++
	case 1:
		other := tn
		other.Table = types.ID("no_such_table", true)
		d.refuse("create index if not exists an_index on " + quotedName(other) + " (a)")
		d.cnt["index over unknown table"]++
	default:
		d.must(text + ")")
		d.cnt["index"]++
	}
}

// badKey creates a table with a key over an unknown column.
func (d *definer) badKey() {
	text := "create table maho.public.bad_table ("
	n := 1 + h.N(d.t, 4, "columns")
	key := ""
	bad := h.N(d.t, n+1, "unknown")
	for i, j := range h.Perm(d.t, n+1, "key") {
		if i > 0 {
			key += ", "
		}
		if j == bad {
			key += h.Pick(d.t, "bad", "no_such_column", `"A0"`, `"a0 "`, "a00")
		} else {
			key += "a" + string(rune('0'+j))
		}
		key += h.Pick(d.t, "direction", "", " asc", " desc")
	}
	for i := 0; i <= n; i++ {
		text += "a" + string(rune('0'+i)) + " int, "
	}
	d.refuse(text + "primary key (" + key + "))")
	d.cnt["key over unknown column"]++
}

// TestP36: definitions reach the catalog as they are written.
func TestP36(t *testing.T) {
	t.Run("tables", func(t *testing.T) {
		h.CheckTimed(t, 400, 20, func(rt *rapid.T, c *h.Case) {
			d := &definer{t: rt, c: c, eng: newEngine(), defs: map[types.TableName]*def{},
				u: &user{database: types.MAHO, schema: types.PUBLIC}, cnt: map[string]int{}}
			d.g = gen.NewG(rt, h.Chance(rt, 20, "plain"))
			if h.Chance(rt, 50, "elsewhere") {
				d.u = &user{database: types.ID("here", true), schema: types.ID("below", true)}
			}
			d.ses = evaluate.NewSession(d.eng, d.u.database, d.u.schema)
			for n := 1 + h.N(rt, 7, "definitions"); n > 0; n-- {
				switch h.Weighted(rt, "definition", 6, 2, 1) {
				case 0:
					d.createTable()
				case 1:
					d.index()
				case 2:
					d.badKey()
				}
			}
			if d.open {
				d.must("commit")
			}
			tx := d.eng.Begin()
			for tn, want := range d.defs {
				tbl, err := tx.OpenTable(ctx, tn)
				if err != nil {
					rt.Fatalf("open %q: %s", tn, err)
				}
				tt := tbl.Type()
				if !want.same(tt) {
					rt.Fatalf("table %q: got columns %v %v key %v; want %v %v key %v", tn, tt.ColumnNames,
						tt.ColumnTypes, tt.Key, want.cols, want.types, want.key)
				}
			}
			bad := types.TableName{Database: types.MAHO, Schema: types.PUBLIC,
				Table: types.ID("bad_table", true)}
			if _, err := tx.OpenTable(ctx, bad); err == nil {
				rt.Fatalf("a refused table is there")
			}
			tx.Rollback()
			for k, n := range d.cnt {
				c.LabelIf(n > 0, k)
			}
			if d.cnt["create table"] > 0 {
				c.NonTrivial("%v: %s", d.cnt, quotedNames(d.defs))
			}
		})
	})
	t.Run("if exists", func(t *testing.T) {
		h.CheckTimed(t, 150, 20, func(rt *rapid.T, c *h.Case) {
			m := newMachine(rt, c, 1, [10]int{1, 1, 1, 5, 4, 6, 6, 6, 3, 1})
			for n := 4 + h.N(rt, 30, "statements"); n > 0; n-- {
				m.step(false)
				m.check(h.Chance(rt, 10, "everything"))
			}
			m.finish()
			if m.cnt["refused"] > 0 && m.cnt["create schema"] > 0 {
				c.NonTrivial("%v: %s", m.cnt, m.done)
			}
		})
	})
}

func quotedNames(defs map[types.TableName]*def) []string {
	var ss []string
	for tn := range defs {
		ss = append(ss, quotedName(tn))
	}
	slices.Sort(ss)
	return ss
}
