package gen

import (
	"slices"
	"strconv"

	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"

	"mahoverif/h"
)

// ColumnTypeNames gives the type that each type name denotes without a length.
var ColumnTypeNames = []struct {
	Name string
	Type types.ColumnType
}{
	{"BINARY", types.ColumnType{Type: types.BytesType, Fixed: true, Size: 1}},
	{"VARBINARY", types.ColumnType{Type: types.BytesType, Size: 1}},
	{"BLOB", types.ColumnType{Type: types.BytesType, Size: 4294967294}},
	{"BYTEA", types.ColumnType{Type: types.BytesType, Size: 4294967294}},
	{"BYTES", types.ColumnType{Type: types.BytesType, Size: 4294967294}},
	{"CHAR", types.ColumnType{Type: types.StringType, Fixed: true, Size: 1}},
	{"CHARACTER", types.ColumnType{Type: types.StringType, Fixed: true, Size: 1}},
	{"VARCHAR", types.ColumnType{Type: types.StringType, Size: 1}},
	{"TEXT", types.ColumnType{Type: types.StringType, Size: 4294967294}},
	{"BOOL", types.ColumnType{Type: types.BoolType, Size: 1}},
	{"BOOLEAN", types.ColumnType{Type: types.BoolType, Size: 1}},
	{"DOUBLE", types.ColumnType{Type: types.Float64Type, Size: 8}},
	{"DOUBLE PRECISION", types.ColumnType{Type: types.Float64Type, Size: 8}},
	{"REAL", types.ColumnType{Type: types.Float64Type, Size: 4}},
	{"SMALLINT", types.ColumnType{Type: types.Int64Type, Size: 2}},
	{"INT2", types.ColumnType{Type: types.Int64Type, Size: 2}},
	{"INT", types.ColumnType{Type: types.Int64Type, Size: 4}},
	{"INTEGER", types.ColumnType{Type: types.Int64Type, Size: 4}},
	{"INT4", types.ColumnType{Type: types.Int64Type, Size: 4}},
	{"INT8", types.ColumnType{Type: types.Int64Type, Size: 8}},
	{"BIGINT", types.ColumnType{Type: types.Int64Type, Size: 8}},
}

func num(i int64) Tok {
	return Tok{Text: strconv.FormatInt(i, 10), Kind: Num}
}

// ColumnType draws a column type, without nullability.
func (g *G) ColumnType() ([]Tok, types.ColumnType) {
	k := h.Pick(g.T, "type", ColumnTypeNames...)
	ct := k.Type
	toks := kw(k.Name)
	if (ct.Type == types.StringType || ct.Type == types.BytesType) && h.Chance(g.T, 60, "length") {
		n := h.Pick(g.T, "length", int64(0), 1, 2, 10, 255, 4096, 65536, 2147483648, 4294967294)
		if h.Chance(g.T, 40, "any") {
			n = 1 + int64(h.N(g.T, 5000, "length"))
		}
		toks = cat(toks, paren([]Tok{num(n)}))
		ct.Size = uint32(n)
	}
	return toks, ct
}

type constraintNames struct {
	used map[types.Identifier]bool
	keys []sql.IndexKey
}

func (cn *constraintNames) explicit(g *G) ([]Tok, types.Identifier) {
	n := g.name()
	for i := 0; cn.used[n.ID]; i++ {
		s := "con_" + strconv.Itoa(i)
		n = Name{Tok{Text: s, Kind: Word}, Ordinary(s)}
	}
	cn.used[n.ID] = true
	return cat("CONSTRAINT", n.Tok), n.ID
}

// optional draws a name, or none.
func (cn *constraintNames) optional(g *G, pct int) ([]Tok, types.Identifier) {
	if h.Chance(g.T, pct, "constraint name") {
		return cn.explicit(g)
	}
	return nil, 0
}

// key draws a name for a key, or the one that it gets without one.
func (cn *constraintNames) key(g *G, key sql.IndexKey, suffix string) ([]Tok, types.Identifier) {
	if !h.Chance(g.T, 50, "constraint name") {
		s := ""
		for _, c := range key.Columns {
			s += c.String() + "_"
		}
		id := types.ID(s+suffix, false)
		if !cn.used[id] {
			cn.used[id] = true
			return nil, id
		}
	}
	return cn.explicit(g)
}

func (cn *constraintNames) newKey(key sql.IndexKey) bool {
	for _, k := range cn.keys {
		if slices.Equal(k.Columns, key.Columns) && slices.Equal(k.Reverse, key.Reverse) {
			return false
		}
	}
	cn.keys = append(cn.keys, key)
	return true
}

// keyColumns draws columns with directions.
func (g *G) keyColumns(from []Name, unique bool) ([]Tok, sql.IndexKey) {
	n := 1 + h.N(g.T, min(3, len(from)), "key columns")
	if len(from) > 6 && h.Chance(g.T, 50, "many") {
		n = 1 + h.N(g.T, len(from), "key columns")
	}
	perm := h.Perm(g.T, len(from), "key")
	key := sql.IndexKey{Unique: unique}
	var items [][]Tok
	for _, i := range perm[:n] {
		it := []Tok{from[i].Tok}
		rev := false
		switch h.N(g.T, 3, "direction") {
		case 1:
			it = cat(it, "ASC")
		case 2:
			it = cat(it, "DESC")
			rev = true
		}
		items = append(items, it)
		key.Columns = append(key.Columns, from[i].ID)
		key.Reverse = append(key.Reverse, rev)
	}
	return paren(list(items)), key
}

var refActions = []struct {
	text string
	act  sql.RefAction
}{
	{"NO ACTION", sql.NoAction}, {"RESTRICT", sql.Restrict}, {"CASCADE", sql.Cascade},
	{"SET NULL", sql.SetNull}, {"SET DEFAULT", sql.SetDefault},
}

func (g *G) onActions(fk *sql.ForeignKey) []Tok {
	var toks []Tok
	del := func() {
		a := h.Pick(g.T, "action", refActions...)
		toks = cat(toks, "ON DELETE", a.text)
		fk.OnDelete = a.act
	}
	upd := func() {
		a := h.Pick(g.T, "action", refActions...)
		toks = cat(toks, "ON UPDATE", a.text)
		fk.OnUpdate = a.act
	}
	switch h.N(g.T, 5, "actions") {
	case 1:
		del()
	case 2:
		upd()
	case 3:
		del()
		upd()
	case 4:
		upd()
		del()
	}
	return toks
}

// foreignKey draws what follows FOREIGN KEY.
func (g *G) foreignKey(name types.Identifier) ([]Tok, *sql.ForeignKey) {
	n := g.length(3)
	ct, cols := nameList(g.names(n))
	rt, rtn := g.tableName()
	fk := &sql.ForeignKey{Name: name, FKCols: cols, RefTable: rtn}
	toks := cat("FOREIGN KEY", paren(ct), "REFERENCES", rt)
	if h.Chance(g.T, 60, "referenced") {
		rc, refs := nameList(g.names(n))
		toks = cat(toks, paren(rc))
		fk.RefCols = refs
	}
	return cat(toks, g.onActions(fk)), fk
}

// column draws a column with its constraints.
func (g *G) column(s *sql.CreateTable, cn *constraintNames, nm Name, primary *bool) []Tok {
	toks := []Tok{nm.Tok}
	tt, ct := g.ColumnType()
	toks = cat(toks, tt)
	col := len(s.Columns)
	s.Columns = append(s.Columns, nm.ID)

	var dflt sql.Expr
	single := sql.IndexKey{Unique: true, Columns: []types.Identifier{nm.ID}, Reverse: []bool{false}}
	for i := 0; i < 5 && h.Chance(g.T, 45, "constraint"); i++ {
		switch h.N(g.T, 6, "constraint") {
		case 0:
			if dflt != nil {
				continue
			}
			nt, id := cn.optional(g, 30)
			if id != 0 {
				s.Constraints = append(s.Constraints,
					sql.Constraint{Type: sql.DefaultConstraint, Name: id, ColNum: col})
			}
			et, e := g.ExprN(3)
			dflt = e
			toks = cat(toks, nt, "DEFAULT", et)
		case 1:
			if ct.NotNull {
				continue
			}
			nt, id := cn.optional(g, 30)
			if id != 0 {
				s.Constraints = append(s.Constraints,
					sql.Constraint{Type: sql.NotNullConstraint, Name: id, ColNum: col})
			}
			ct.NotNull = true
			toks = cat(toks, nt, "NOT NULL")
		case 2:
			if *primary || !cn.newKey(single) {
				continue
			}
			*primary = true
			nt, id := cn.key(g, single, "primary")
			s.Constraints = append(s.Constraints,
				sql.Constraint{Type: sql.PrimaryConstraint, Name: id, ColNum: -1, Key: single})
			toks = cat(toks, nt, "PRIMARY KEY")
		case 3:
			if !cn.newKey(single) {
				continue
			}
			nt, id := cn.key(g, single, "unique")
			s.Constraints = append(s.Constraints,
				sql.Constraint{Type: sql.UniqueConstraint, Name: id, ColNum: -1, Key: single})
			toks = cat(toks, nt, "UNIQUE")
		case 4:
			nt, id := cn.optional(g, 40)
			et, e := g.ExprN(3)
			s.Constraints = append(s.Constraints,
				sql.Constraint{Type: sql.CheckConstraint, Name: id, ColNum: col, Check: e})
			toks = cat(toks, nt, "CHECK", paren(et))
		case 5:
			nt, id := cn.optional(g, 40)
			rt, rtn := g.tableName()
			fk := &sql.ForeignKey{Name: id, FKCols: []types.Identifier{nm.ID}, RefTable: rtn}
			toks = cat(toks, nt, "REFERENCES", rt)
			if h.Chance(g.T, 50, "referenced") {
				rn := g.name()
				toks = cat(toks, paren([]Tok{rn.Tok}))
				fk.RefCols = []types.Identifier{rn.ID}
			}
			toks = cat(toks, g.onActions(fk))
			s.ForeignKeys = append(s.ForeignKeys, fk)
		}
	}
	s.ColumnTypes = append(s.ColumnTypes, ct)
	s.ColumnDefaults = append(s.ColumnDefaults, dflt)
	return toks
}

func (g *G) ifExists(pct int, text string) ([]Tok, bool) {
	if h.Chance(g.T, pct, "if") {
		return kw(text), true
	}
	return nil, false
}

func (g *G) CreateTable() ([]Tok, *sql.CreateTable) {
	head, items, s := g.createTable()
	var ts [][]Tok
	for _, it := range items {
		ts = append(ts, it.toks)
	}
	return cat(head, paren(list(ts))), s
}

// tableItem is an element of the list in a CREATE TABLE statement.
type tableItem struct {
	kind string // "column", "key", "check" or "foreign"
	toks []Tok
	col  int // of a column
}

func (g *G) createTable() ([]Tok, []tableItem, *sql.CreateTable) {
	s := &sql.CreateTable{}
	it, ine := g.ifExists(30, "IF NOT EXISTS")
	s.IfNotExists = ine
	tt, tn := g.tableName()
	s.Table = tn

	cols := g.names(g.length(5))
	cn := &constraintNames{used: map[types.Identifier]bool{}}
	primary := false
	var items []tableItem
	next := 0
	extra, _ := g.long()
	for {
		if next < len(cols) && (next == 0 || h.Chance(g.T, 65, "column")) {
			items = append(items,
				tableItem{"column", g.column(s, cn, cols[next], &primary), next})
			next++
		} else if next == len(cols) && extra <= 0 && !h.Chance(g.T, 35, "constraint") {
			break
		} else {
			extra--
			switch h.N(g.T, 4, "table constraint") {
			case 0, 1:
				kt, key := g.keyColumns(cols, true)
				if !cn.newKey(key) {
					continue
				}
				if !primary && h.Chance(g.T, 50, "primary") {
					primary = true
					nt, id := cn.key(g, key, "primary")
					s.Constraints = append(s.Constraints, sql.Constraint{
						Type: sql.PrimaryConstraint, Name: id, ColNum: -1, Key: key})
					items = append(items, tableItem{"key", cat(nt, "PRIMARY KEY", kt), -1})
				} else {
					nt, id := cn.key(g, key, "unique")
					s.Constraints = append(s.Constraints, sql.Constraint{
						Type: sql.UniqueConstraint, Name: id, ColNum: -1, Key: key})
					items = append(items, tableItem{"key", cat(nt, "UNIQUE", kt), -1})
				}
			case 2:
				nt, id := cn.optional(g, 50)
				et, e := g.ExprN(3)
				s.Constraints = append(s.Constraints, sql.Constraint{
					Type: sql.CheckConstraint, Name: id, ColNum: -1, Check: e})
				items = append(items, tableItem{"check", cat(nt, "CHECK", paren(et)), -1})
			case 3:
				nt, id := cn.optional(g, 50)
				ft, fk := g.foreignKey(id)
				s.ForeignKeys = append(s.ForeignKeys, fk)
				items = append(items, tableItem{"foreign", cat(nt, ft), -1})
			}
		}
	}
	return cat("CREATE TABLE", it, tt), items, s
}

func (g *G) AlterTable() ([]Tok, sql.Stmt) {
	s := &sql.AlterTable{}
	tt, tn := g.tableName()
	s.Table = tn
	var items [][]Tok
	want, long := g.long()
	for {
		switch h.N(g.T, 3, "action") {
		case 0:
			var nt []Tok
			var id types.Identifier
			if h.Chance(g.T, 50, "named") {
				n := g.name()
				nt, id = cat("CONSTRAINT", n.Tok), n.ID
			}
			ft, fk := g.foreignKey(id)
			s.Actions = append(s.Actions, &sql.AddForeignKey{ForeignKey: *fk})
			items = append(items, cat("ADD", nt, ft))
		case 1:
			it, ie := g.ifExists(40, "IF EXISTS")
			n := g.name()
			s.Actions = append(s.Actions, &sql.DropConstraint{Name: n.ID, IfExists: ie})
			items = append(items, cat("DROP CONSTRAINT", it, n.Tok))
		case 2:
			toks := kw("ALTER")
			if h.Chance(g.T, 50, "column") {
				toks = kw("ALTER COLUMN")
			}
			n := g.name()
			dc := &sql.DropConstraint{Column: n.ID, Type: sql.DefaultConstraint}
			what := "DEFAULT"
			if h.Chance(g.T, 50, "not null") {
				what = "NOT NULL"
				dc.Type = sql.NotNullConstraint
			}
			s.Actions = append(s.Actions, dc)
			items = append(items, cat(toks, n.Tok, "DROP", what))
		}
		if long {
			if len(items) >= want {
				break
			}
		} else if len(items) >= 4 || !h.Chance(g.T, 45, "more") {
			break
		}
	}
	return cat("ALTER TABLE", tt, list(items)), s
}

func (g *G) indexName() Name {
	if len(g.Indexes) > 0 && h.Chance(g.T, 90, "known index") {
		return g.Indexes[h.N(g.T, len(g.Indexes), "index")]
	}
	return g.name()
}

func (g *G) CreateIndex() ([]Tok, *sql.CreateIndex) {
	s := &sql.CreateIndex{}
	unique := h.Chance(g.T, 50, "unique")
	toks := kw("CREATE INDEX")
	if unique {
		toks = kw("CREATE UNIQUE INDEX")
	}
	it, ine := g.ifExists(30, "IF NOT EXISTS")
	s.IfNotExists = ine
	n := g.indexName()
	s.Index = n.ID
	tt, tn := g.tableName()
	s.Table = tn
	toks = cat(toks, it, n.Tok, "ON", tt)
	if h.Chance(g.T, 30, "using") {
		toks = cat(toks, "USING", word(g, "btree"))
	}
	var cols []Name
	if g.Columns != nil {
		cols = g.Columns(tn)
	}
	if cols == nil {
		cols = g.names(g.length(4))
	}
	kt, key := g.keyColumns(cols, unique)
	s.Key = key
	return cat(toks, kt), s
}

func (g *G) option() ([]Tok, string) {
	switch h.N(g.T, 5, "option") {
	case 0:
		n := g.name()
		return []Tok{n.Tok}, n.ID.String()
	case 1:
		s, v := PlainString(g.T, true)
		return []Tok{{Text: s, Kind: Str}}, v
	case 2:
		s, v := intLit(g.T, false)
		return []Tok{{Text: s, Kind: Num}}, strconv.FormatInt(v, 10)
	case 3:
		s, v := floatLit(g.T, false)
		return []Tok{{Text: s, Kind: Num}}, strconv.FormatFloat(v, 'g', -1, 64)
	}
	s, v := HexBytes(g.T)
	return []Tok{{Text: s, Kind: Str}}, string(v)
}

// DDL draws a statement that defines something.
func (g *G) DDL() Stmt {
	var s Stmt
	switch h.Weighted(g.T, "definition", 8, 3, 3, 2, 2, 2, 1, 1, 1) {
	case 0:
		s.Kind = "CREATE TABLE"
		s.Toks, s.Want = g.CreateTable()
	case 1:
		s.Kind = "ALTER TABLE"
		s.Toks, s.Want = g.AlterTable()
	case 2:
		s.Kind = "CREATE INDEX"
		s.Toks, s.Want = g.CreateIndex()
	case 3:
		s.Kind = "CREATE DATABASE"
		n := g.name()
		cd := &sql.CreateDatabase{Database: n.ID}
		s.Toks = cat("CREATE DATABASE", n.Tok)
		if h.Chance(g.T, 60, "options") {
			cd.Options = map[types.Identifier]string{}
			s.Toks = cat(s.Toks, "WITH")
			want, long := g.long()
			count := 0
			for {
				o := g.name()
				s.Toks = append(s.Toks, o.Tok)
				if h.Chance(g.T, 50, "=") {
					s.Toks = append(s.Toks, op("="))
				}
				vt, v := g.option()
				s.Toks = cat(s.Toks, vt)
				cd.Options[o.ID] = v
				if long {
					if count++; count >= want {
						break
					}
				} else if len(cd.Options) >= 4 || !h.Chance(g.T, 40, "more") {
					break
				}
			}
		}
		s.Want = cd
	case 4:
		s.Kind = "DROP TABLE"
		dt := &sql.DropTable{}
		it, ie := g.ifExists(40, "IF EXISTS")
		dt.IfExists = ie
		var items [][]Tok
		want, long := g.long()
		for {
			tt, tn := g.tableName()
			items = append(items, tt)
			dt.Tables = append(dt.Tables, tn)
			if long {
				if len(items) >= want {
					break
				}
			} else if len(items) >= 4 || !h.Chance(g.T, 40, "more") {
				break
			}
		}
		s.Toks = cat("DROP TABLE", it, list(items))
		switch h.N(g.T, 3, "behaviour") {
		case 1:
			s.Toks = cat(s.Toks, "CASCADE")
			dt.Cascade = true
		case 2:
			s.Toks = cat(s.Toks, "RESTRICT")
		}
		s.Want = dt
	case 5:
		s.Kind = "DROP INDEX"
		it, ie := g.ifExists(40, "IF EXISTS")
		n := g.indexName()
		tt, tn := g.tableName()
		s.Toks = cat("DROP INDEX", it, n.Tok, "ON", tt)
		s.Want = &sql.DropIndex{Table: tn, Index: n.ID, IfExists: ie}
	case 6:
		s.Kind = "DROP DATABASE"
		it, ie := g.ifExists(40, "IF EXISTS")
		n := g.name()
		s.Toks = cat("DROP DATABASE", it, n.Tok)
		s.Want = &sql.DropDatabase{IfExists: ie, Database: n.ID}
	case 7:
		s.Kind = "CREATE SCHEMA"
		st, sn := g.schemaName()
		s.Toks = cat("CREATE SCHEMA", st)
		s.Want = &sql.CreateSchema{Schema: sn}
	case 8:
		s.Kind = "DROP SCHEMA"
		it, ie := g.ifExists(40, "IF EXISTS")
		st, sn := g.schemaName()
		s.Toks = cat("DROP SCHEMA", it, st)
		s.Want = &sql.DropSchema{IfExists: ie, Schema: sn}
	}
	return s
}

// Stmt draws any statement other than COPY.
func (g *G) Stmt() Stmt {
	if h.Chance(g.T, 60, "query") {
		return g.Query()
	}
	return g.DDL()
}
