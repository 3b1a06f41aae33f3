package sess

import (
	"fmt"
	"strings"

	"github.com/leftmike/maho/types"

	"mahoverif/h"

	"pgregory.net/rapid"
)

// user is the model of a session.
type user struct {
	database, schema types.Identifier
	inTx             bool
}

func (u *user) resolveTable(tn types.TableName) types.TableName {
	if tn.Database == 0 {
		tn.Database = u.database
		if tn.Schema == 0 {
			tn.Schema = u.schema
		}
	}
	return tn
}

func (u *user) resolveSchema(sn types.SchemaName) types.SchemaName {
	if sn.Database == 0 {
		sn.Database = u.database
	}
	return sn
}

// stmt is a statement as written and what it does.
type stmt struct {
	text string
	kind string // "begin", "commit", "rollback", "database", "set" or else
	what string // label
	// apply changes the catalog, or reports that the statement must be refused.
	apply func(cat catalog, u *user) bool
	// mutates tells that apply calls the engine to change something, when it succeeds.
	mutates func(cat catalog, u *user) bool
}

// stmts draws statements; the weights are those of each kind of statement.
type stmts struct {
	t     *rapid.T
	n     int // of unique names
	weigh [10]int
	// Which of the names are used.
	dbs, schemas, tables []name
	known                bool // and names known from the start
}

func (g *stmts) chance(pct int, label string) bool {
	return h.Chance(g.t, pct, label)
}

func (g *stmts) pick(names []name, label string) name {
	if g.chance(2, "absent") {
		return absent
	}
	return names[h.N(g.t, len(names), label)]
}

func (g *stmts) kw(s string) string {
	switch h.N(g.t, 6, "case") {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

// db draws a database, mostly one that there is.
func (g *stmts) db(cat catalog) name {
	n := g.pick(g.dbs, "database")
	for i := 0; i < 3 && cat[n.id.String()] == nil && g.chance(75, "another"); i++ {
		n = g.pick(g.dbs, "database")
	}
	return n
}

// schema draws a schema, mostly one that there is in the database, if it is given.
func (g *stmts) schema(cat catalog, d name) name {
	n := g.pick(g.schemas, "schema")
	for i := 0; i < 3 && d.text != "" && cat[d.id.String()][n.id.String()] == nil &&
		g.chance(75, "another"); i++ {
		n = g.pick(g.schemas, "schema")
	}
	return n
}

func (g *stmts) schemaName(cat catalog) (string, types.SchemaName) {
	s := g.pick(g.schemas, "schema")
	if g.chance(50, "qualified") {
		d := g.db(cat)
		return d.text + "." + s.text, types.SchemaName{Database: d.id, Schema: s.id}
	}
	return s.text, types.SchemaName{Schema: s.id}
}

func (g *stmts) tableName(cat catalog) (string, types.TableName) {
	t := g.pick(g.tables, "table")
	switch h.N(g.t, 4, "qualified") {
	case 1:
		s := g.schema(cat, name{})
		return s.text + "." + t.text, types.TableName{Schema: s.id, Table: t.id}
	case 2, 3:
		d := g.db(cat)
		s := g.schema(cat, d)
		return d.text + "." + s.text + "." + t.text,
			types.TableName{Database: d.id, Schema: s.id, Table: t.id}
	}
	return t.text, types.TableName{Table: t.id}
}

var simpleTypes = []struct {
	text string
	ct   types.ColumnType
}{
	{"int", types.ColumnType{Type: types.Int64Type, Size: 4}},
	{"bigint not null", types.ColumnType{Type: types.Int64Type, Size: 8, NotNull: true}},
	{"bool", types.ColumnType{Type: types.BoolType, Size: 1}},
	{"text", types.ColumnType{Type: types.StringType, Size: 4294967294}},
	{"varchar(12) not null", types.ColumnType{Type: types.StringType, Size: 12, NotNull: true}},
	{"binary(3)", types.ColumnType{Type: types.BytesType, Fixed: true, Size: 3}},
	{"double", types.ColumnType{Type: types.Float64Type, Size: 8}},
	{"real", types.ColumnType{Type: types.Float64Type, Size: 4}},
	{"smallint", types.ColumnType{Type: types.Int64Type, Size: 2}},
	{"char(5)", types.ColumnType{Type: types.StringType, Fixed: true, Size: 5}},
	{"bytes not null", types.ColumnType{Type: types.BytesType, Size: 4294967294, NotNull: true}},
}

// columns draws the definition of a table with a first column that no other table has.
func (g *stmts) columns() (text string, d *def, ok bool) {
	g.n++
	d = &def{}
	ok = true
	var parts []string
	for i, n := 0, 1+h.N(g.t, 4, "columns"); i < n; i++ {
		s := fmt.Sprintf("c%d_%d", g.n, i)
		ct := simpleTypes[h.N(g.t, len(simpleTypes), "type")]
		parts = append(parts, s+" "+ct.text)
		d.cols = append(d.cols, types.ID(s, false))
		d.types = append(d.types, ct.ct)
	}
	switch h.N(g.t, 8, "key") {
	case 1:
		i := h.N(g.t, len(parts), "key")
		parts[i] += " primary key"
		d.key = []types.ColumnKey{types.MakeColumnKey(types.ColumnNum(i), false)}
	case 2, 3, 4:
		var key []string
		for _, i := range h.Perm(g.t, len(parts), "key")[:1+h.N(g.t, len(parts), "key columns")] {
			dir := h.N(g.t, 3, "direction")
			key = append(key, d.cols[i].String()+[]string{"", " asc", " desc"}[dir])
			d.key = append(d.key, types.MakeColumnKey(types.ColumnNum(i), dir == 2))
		}
		if g.chance(15, "unknown column") {
			key = append(key, absent.text)
			ok = false
		}
		parts = append(parts, "primary key ("+strings.Join(key, ", ")+")")
	}
	return strings.Join(parts, ", "), d, ok
}

// stmt draws a statement.
func (g *stmts) stmt(cat catalog) stmt {
	w := g.weigh
	k := h.Weighted(g.t, "statement", w[:]...)
	var s stmt
	no := func(catalog, *user) bool { return false }
	s.mutates = no
	switch k {
	case 0:
		s.text = h.Pick(g.t, "begin", "begin", "start transaction")
		s.kind = "begin"
	case 1:
		s.text = "commit"
		s.kind = "commit"
	case 2:
		s.text = "rollback"
		s.kind = "rollback"
	case 3:
		d := g.pick(g.dbs, "database")
		s.kind = "database"
		s.what = "create database"
		s.text = "create database " + d.text
		if g.chance(5, "options") {
			s.text += " with path = 'x'"
			s.apply = no
			break
		}
		s.apply = func(cat catalog, u *user) bool {
			if cat[d.id.String()] != nil || d == absent {
				return false
			}
			cat[d.id.String()] = map[string]map[string]*def{}
			return true
		}
		if d == absent {
			return g.stmt(cat)
		}
	case 4:
		d := g.db(cat)
		ife := g.chance(35, "if exists")
		s.kind = "database"
		s.what = "drop database"
		s.text = "drop database " + onlyIf(ife, "if exists ") + d.text
		s.apply = func(cat catalog, u *user) bool {
			if cat[d.id.String()] == nil {
				return ife
			}
			delete(cat, d.id.String())
			return true
		}
	case 5:
		text, sn := g.schemaName(cat)
		if sn.Schema == absent.id {
			return g.stmt(cat)
		}
		s.what = "create schema"
		s.text = "create schema " + text
		s.apply = func(cat catalog, u *user) bool {
			sn := u.resolveSchema(sn)
			ss := cat[sn.Database.String()]
			if ss == nil || ss[sn.Schema.String()] != nil {
				return false
			}
			ss[sn.Schema.String()] = map[string]*def{}
			return true
		}
		s.mutates = s.try
	case 6:
		text, sn := g.schemaName(cat)
		ife := g.chance(35, "if exists")
		s.what = "drop schema"
		s.text = "drop schema " + onlyIf(ife, "if exists ") + text
		s.apply = func(cat catalog, u *user) bool {
			sn := u.resolveSchema(sn)
			ss := cat[sn.Database.String()]
			if ss[sn.Schema.String()] == nil {
				return ife
			}
			delete(ss, sn.Schema.String())
			return true
		}
		s.mutates = func(cat catalog, u *user) bool {
			sn := u.resolveSchema(sn)
			return cat[sn.Database.String()][sn.Schema.String()] != nil
		}
	case 7:
		text, tn := g.tableName(cat)
		if tn.Table == absent.id {
			return g.stmt(cat)
		}
		ine := g.chance(35, "if not exists")
		cols, d, ok := g.columns()
		s.what = "create table"
		s.text = "create table " + onlyIf(ine, "if not exists ") + text + " (" + cols + ")"
		there := func(cat catalog, u *user) bool {
			return cat.table(u.resolveTable(tn)) != nil
		}
		s.apply = func(cat catalog, u *user) bool {
			if there(cat, u) {
				return ine
			}
			tn := u.resolveTable(tn)
			ts := cat[tn.Database.String()][tn.Schema.String()]
			if !ok || ts == nil {
				return false
			}
			ts[tn.Table.String()] = d
			return true
		}
		s.mutates = func(cat catalog, u *user) bool {
			return !there(cat, u) && s.try(cat, u)
		}
	case 8:
		text, tn := g.tableName(cat)
		ine := g.chance(35, "if not exists")
		g.n++
		// Mostly a table that there is, with its columns.
		var there *def
		var found [][3]name
		for _, d := range g.dbs {
			for _, sc := range g.schemas {
				for _, t := range g.tables {
					if cat[d.id.String()][sc.id.String()][t.id.String()] != nil {
						found = append(found, [3]name{d, sc, t})
					}
				}
			}
		}
		if len(found) > 0 {
			f := found[h.N(g.t, len(found), "there")]
			there = cat[f[0].id.String()][f[1].id.String()][f[2].id.String()]
			if g.chance(75, "there") {
				tn = types.TableName{Database: f[0].id, Schema: f[1].id, Table: f[2].id}
				text = f[0].text + "." + f[1].text + "." + f[2].text
				// Only as much as may do.
				switch h.N(g.t, 4, "qualified") {
				case 0:
					tn.Database, tn.Schema = 0, 0
					text = f[2].text
				case 1:
					tn.Database = 0
					text = f[1].text + "." + f[2].text
				}
			}
		}
		s.what = "create index"
		s.text = fmt.Sprintf("create %sindex %si%d on %s (", onlyIf(g.chance(30, "unique"), "unique "),
			onlyIf(ine, "if not exists "), g.n, text)
		var cols []types.Identifier
		if d := there; d != nil {
			for _, i := range h.Perm(g.t, len(d.cols), "columns")[:1+h.N(g.t, len(d.cols), "columns")] {
				cols = append(cols, d.cols[i])
			}
		}
		if len(cols) == 0 || g.chance(20, "unknown column") {
			cols = append(cols, absent.id)
		}
		for i, c := range cols {
			if i > 0 {
				s.text += ", "
			}
			s.text += c.String() + h.Pick(g.t, "direction", "", " asc", " desc")
		}
		s.text += ")"
		s.apply = func(cat catalog, u *user) bool {
			d := cat.table(u.resolveTable(tn))
			if d == nil {
				return false
			}
			for _, c := range cols {
				if !d.has(c) {
					return false
				}
			}
			return true
		}
		s.mutates = s.try
	case 9:
		s.kind = "set"
		s.what = "set"
		eq := h.Pick(g.t, "to", " = ", " to ")
		switch h.N(g.t, 6, "variable") {
		case 0, 1, 2:
			n := g.db(cat)
			for !n.settable() {
				n = plain("maho")
			}
			if g.known && g.chance(8, "known") {
				n = plain(h.Pick(g.t, "known", "system", "info", "private", "metadata"))
			}
			s.text = "set database" + eq + "'" + n.text + "'"
			if g.chance(50, "use") {
				s.text = "use '" + n.text + "'"
			}
			s.apply = func(cat catalog, u *user) bool {
				u.database = n.id
				return true
			}
		case 3, 4:
			n := g.schema(cat, g.db(cat))
			for !n.settable() {
				n = plain("public")
			}
			if g.known && g.chance(8, "known") {
				n = plain(h.Pick(g.t, "known", "info", "system", "private", "metadata"))
			}
			s.text = "set schema" + eq + "'" + n.text + "'"
			s.apply = func(cat catalog, u *user) bool {
				u.schema = n.id
				return true
			}
		case 5:
			s.what = "set another"
			s.text = "set " + h.Pick(g.t, "variable", "databases", "schemas", "nothing", "tables",
				`"DATABASE"`, "path", "d") + eq + h.Pick(g.t, "value", "'d'", "1", "true", "'public'")
			s.apply = no
		}
	}
	// Keywords in another case; names keep theirs.
	if w, rest, ok := strings.Cut(s.text, " "); ok {
		s.text = g.kw(w) + " " + rest
	} else {
		s.text = g.kw(s.text)
	}
	return s
}

// try reports whether the statement would succeed.
func (s stmt) try(cat catalog, u *user) bool {
	v := *u
	return s.apply(cat.clone(), &v)
}

func onlyIf(b bool, s string) string {
	if b {
		return s
	}
	return ""
}
