package gen

import (
	"fmt"
	"strconv"

	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"

	"mahoverif/h"
)

// Stmt is a statement as written and what it means.
type Stmt struct {
	Kind string
	Toks []Tok
	Want sql.Stmt
}

func (g *G) tableName() ([]Tok, types.TableName) {
	if len(g.Tables) > 0 && h.Chance(g.T, 90, "known table") {
		tr := g.Tables[h.N(g.T, len(g.Tables), "table")]
		return tr.Toks, tr.Name
	}
	ns := []Name{g.name()}
	for len(ns) < 3 && h.Chance(g.T, 30, "qualified") {
		ns = append(ns, g.name())
	}
	var toks []Tok
	for i, n := range ns {
		if i > 0 {
			toks = append(toks, punct("."))
		}
		toks = append(toks, n.Tok)
	}
	tn := types.TableName{Table: ns[len(ns)-1].ID}
	if len(ns) > 1 {
		tn.Schema = ns[len(ns)-2].ID
	}
	if len(ns) > 2 {
		tn.Database = ns[0].ID
	}
	return toks, tn
}

func (g *G) schemaName() ([]Tok, types.SchemaName) {
	a := g.name()
	if h.Chance(g.T, 40, "qualified") {
		b := g.name()
		return cat(a.Tok, punct("."), b.Tok), types.SchemaName{Database: a.ID, Schema: b.ID}
	}
	return []Tok{a.Tok}, types.SchemaName{Schema: a.ID}
}

func (g *G) alias() ([]Tok, types.Identifier) {
	switch h.N(g.T, 4, "alias") {
	case 0:
		n := g.name()
		return cat("AS", n.Tok), n.ID
	case 1:
		n := g.name()
		return []Tok{n.Tok}, n.ID
	}
	return nil, 0
}

func (g *G) subquery() ([]Tok, sql.Stmt) {
	switch h.Weighted(g.T, "subquery", 6, 3, 2, 2) {
	case 0:
		return g.Select()
	case 1:
		return g.Values()
	case 2:
		return g.show(true)
	}
	toks, tn := g.tableName()
	return cat("TABLE", toks), &sql.Select{From: &sql.FromTableAlias{TableName: tn}}
}

func (g *G) exprs(max int) ([]Tok, []sql.Expr) {
	var items [][]Tok
	var es []sql.Expr
	more := g.series(max, 40)
	for {
		toks, e := g.Expr()
		items = append(items, toks)
		es = append(es, e)
		if !more(len(es)) {
			return list(items), es
		}
	}
}

func (g *G) Values() ([]Tok, sql.Stmt) {
	n := g.length(3)
	var items [][]Tok
	var s sql.Values
	more := g.series(4, 40)
	for {
		var row []sql.Expr
		var rt [][]Tok
		for i := 0; i < n; i++ {
			toks, e := g.Expr()
			rt = append(rt, toks)
			row = append(row, e)
		}
		items = append(items, paren(list(rt)))
		s.Expressions = append(s.Expressions, row)
		if !more(len(items)) {
			break
		}
	}
	return cat("VALUES", list(items)), &s
}

var joinTypes = []struct {
	text string
	jt   sql.JoinType
}{
	{"JOIN", sql.Join}, {"INNER JOIN", sql.Join}, {"LEFT JOIN", sql.LeftJoin},
	{"LEFT OUTER JOIN", sql.LeftJoin}, {"RIGHT JOIN", sql.RightJoin},
	{"RIGHT OUTER JOIN", sql.RightJoin}, {"FULL JOIN", sql.FullJoin},
	{"FULL OUTER JOIN", sql.FullJoin},
}

func (g *G) fromOperand() ([]Tok, sql.FromItem) {
	k := 0
	if g.Depth > 0 && g.Size > 0 {
		k = h.Weighted(g.T, "operand", 6, 1, 2, 2)
	}
	switch k {
	case 1:
		toks, tn := g.tableName()
		idx := g.name()
		at, a := g.alias()
		return cat(toks, punct("@"), idx.Tok, at),
			&sql.FromIndexAlias{TableName: tn, Index: idx.ID, Alias: a}
	case 2:
		g.Depth--
		toks, s := g.subquery()
		g.Depth++
		a := g.name()
		fs := sql.FromStmt{Stmt: s, Alias: a.ID}
		toks = paren(toks)
		if h.Chance(g.T, 50, "as") {
			toks = cat(toks, "AS")
		}
		toks = cat(toks, a.Tok)
		if h.Chance(g.T, 40, "columns") {
			ct, cols := nameList(g.names(g.length(3)))
			toks = cat(toks, paren(ct))
			fs.ColumnAliases = cols
		}
		return toks, fs
	case 3:
		g.Depth--
		toks, fi := g.fromList()
		g.Depth++
		return paren(toks), fi
	}
	toks, tn := g.tableName()
	at, a := g.alias()
	return cat(toks, at), &sql.FromTableAlias{TableName: tn, Alias: a}
}

// fromItem draws an operand and joins; with closed it does not end with a CROSS JOIN, so that
// the condition of an outer join may follow.
func (g *G) fromItem(closed bool) ([]Tok, sql.FromItem) {
	toks, fi := g.fromOperand()
	cross := false
	more := g.series(100, 30)
	for n := 0; more(n) || (closed && cross); n++ {
		if h.Chance(g.T, 25, "cross") && !(cross && closed) {
			rt, right := g.fromOperand()
			toks = cat(toks, "CROSS JOIN", rt)
			fi = sql.FromJoin{Left: fi, Right: right, Type: sql.CrossJoin}
			cross = true
			continue
		}
		cross = false
		jt := h.Pick(g.T, "join", joinTypes...)
		g.Depth--
		rt, right := g.fromItem(true)
		g.Depth++
		fj := sql.FromJoin{Left: fi, Right: right, Type: jt.jt}
		toks = cat(toks, jt.text, rt)
		if h.Chance(g.T, 30, "using") {
			ct, cols := nameList(g.names(g.length(3)))
			toks = cat(toks, "USING", paren(ct))
			fj.Using = cols
		} else {
			g.Depth--
			et, e := g.ExprN(3)
			g.Depth++
			toks = cat(toks, "ON", et)
			fj.On = e
		}
		fi = fj
	}
	return toks, fi
}

func (g *G) fromList() ([]Tok, sql.FromItem) {
	toks, fi := g.fromItem(false)
	more := g.series(100, 25)
	for n := 0; more(n); n++ {
		rt, right := g.fromItem(false)
		toks = cat(toks, punct(","), rt)
		fi = sql.FromJoin{Left: fi, Right: right, Type: sql.CrossJoin}
	}
	return toks, fi
}

func (g *G) Select() ([]Tok, sql.Stmt) {
	var s sql.Select
	toks := kw("SELECT")
	if h.Chance(g.T, 30, "star") {
		toks = append(toks, op("*"))
	} else {
		var items [][]Tok
		more := g.series(5, 45)
		for {
			if h.Chance(g.T, 20, "table.*") {
				n := g.name()
				items = append(items, cat(n.Tok, punct("."), op("*")))
				s.Results = append(s.Results, sql.TableResult{Table: n.ID})
			} else {
				et, e := g.ExprN(4)
				at, a := g.alias()
				items = append(items, cat(et, at))
				s.Results = append(s.Results, sql.ExprResult{Expr: e, Alias: a})
			}
			if !more(len(items)) {
				break
			}
		}
		toks = cat(toks, list(items))
	}
	if h.Chance(g.T, 65, "from") {
		ft, fi := g.fromList()
		toks = cat(toks, "FROM", ft)
		s.From = fi
	}
	if g.more(40) {
		et, e := g.Expr()
		toks = cat(toks, "WHERE", et)
		s.Where = e
	}
	if g.more(20) {
		et, es := g.exprs(3)
		toks = cat(toks, "GROUP BY", et)
		s.GroupBy = es
	}
	if g.more(20) {
		et, e := g.Expr()
		toks = cat(toks, "HAVING", et)
		s.Having = e
	}
	if g.more(30) {
		var items [][]Tok
		more := g.series(4, 40)
		for {
			n := g.name()
			by := sql.OrderBy{Expr: sql.Ref{n.ID}}
			it := []Tok{n.Tok}
			switch h.N(g.T, 3, "order") {
			case 1:
				it = cat(it, "ASC")
			case 2:
				it = cat(it, "DESC")
				by.Reverse = true
			}
			items = append(items, it)
			s.OrderBy = append(s.OrderBy, by)
			if !more(len(items)) {
				break
			}
		}
		toks = cat(toks, "ORDER BY", list(items))
	}
	return toks, &s
}

func (g *G) exprOrDefault() ([]Tok, sql.Expr) {
	if h.Chance(g.T, 15, "default") {
		return kw("DEFAULT"), nil
	}
	return g.Expr()
}

func (g *G) Insert() ([]Tok, sql.Stmt) {
	var s sql.InsertValues
	tt, tn := g.tableName()
	s.Table = tn
	toks := cat("INSERT INTO", tt)
	if h.Chance(g.T, 50, "columns") {
		ct, cols := nameList(g.names(g.length(4)))
		toks = cat(toks, paren(ct))
		s.Columns = cols
	}
	var items [][]Tok
	more := g.series(4, 40)
	for {
		var row []sql.Expr
		var rt [][]Tok
		for i, n := 0, g.length(4); i < n; i++ {
			et, e := g.exprOrDefault()
			rt = append(rt, et)
			row = append(row, e)
		}
		items = append(items, paren(list(rt)))
		s.Rows = append(s.Rows, row)
		if !more(len(items)) {
			break
		}
	}
	return cat(toks, "VALUES", list(items)), &s
}

func (g *G) Update() ([]Tok, sql.Stmt) {
	var s sql.Update
	tt, tn := g.tableName()
	s.Table = tn
	var items [][]Tok
	more := g.series(4, 40)
	for {
		n := g.name()
		et, e := g.exprOrDefault()
		items = append(items, cat(n.Tok, op("="), et))
		s.ColumnUpdates = append(s.ColumnUpdates, sql.ColumnUpdate{Column: n.ID, Expr: e})
		if !more(len(items)) {
			break
		}
	}
	toks := cat("UPDATE", tt, "SET", list(items))
	if g.more(50) {
		et, e := g.Expr()
		toks = cat(toks, "WHERE", et)
		s.Where = e
	}
	return toks, &s
}

func (g *G) Delete() ([]Tok, sql.Stmt) {
	var s sql.Delete
	tt, tn := g.tableName()
	s.Table = tn
	toks := cat("DELETE FROM", tt)
	if g.more(60) {
		et, e := g.Expr()
		toks = cat(toks, "WHERE", et)
		s.Where = e
	}
	return toks, &s
}

// value draws a literal for SET and USE and its text.
func (g *G) value() ([]Tok, string) {
	for {
		toks, e := g.literal()
		switch v := e.(sql.Literal).Value.(type) {
		case nil:
			continue
		case types.StringValue:
			return toks, string(v)
		case types.BoolValue:
			return toks, strconv.FormatBool(bool(v))
		case types.Int64Value:
			return toks, strconv.FormatInt(int64(v), 10)
		case types.Float64Value:
			return toks, fmt.Sprint(float64(v))
		case types.BytesValue:
			return toks, fmt.Sprintf(`'\x%x'`, []byte(v))
		}
	}
}

func (g *G) Set() ([]Tok, sql.Stmt) {
	if h.Chance(g.T, 25, "use") {
		vt, v := g.value()
		return cat("USE", vt), &sql.Set{Variable: types.DATABASE, Value: v}
	}
	toks := kw("SET")
	var id types.Identifier
	switch h.N(g.T, 3, "variable") {
	case 0:
		toks = cat(toks, "DATABASE")
		id = types.DATABASE
	case 1:
		toks = cat(toks, "SCHEMA")
		id = types.SCHEMA
	case 2:
		n := g.name()
		toks = append(toks, n.Tok)
		id = n.ID
	}
	if h.Chance(g.T, 50, "to") {
		toks = cat(toks, "TO")
	} else {
		toks = cat(toks, op("="))
	}
	vt, v := g.value()
	return cat(toks, vt), &sql.Set{Variable: id, Value: v}
}

func and(l, r sql.Expr) sql.Expr {
	return &sql.BinaryExpr{Op: sql.AndOp, Left: l, Right: r}
}

func equal(col string, e sql.Expr) sql.Expr {
	return &sql.BinaryExpr{Op: sql.EqualOp, Left: sql.Ref{Ordinary(col)}, Right: e}
}

func str(id types.Identifier) sql.Expr {
	return sql.Literal{Value: types.StringValue(id.String())}
}

func currentSchema(schema types.Identifier) sql.Expr {
	if schema == 0 {
		return equal("schema_name",
			&sql.Subquery{Op: sql.Scalar, Stmt: &sql.Show{Variable: types.SCHEMA}})
	}
	return equal("schema_name", str(schema))
}

func word(g *G, s string) Tok {
	return Tok{Text: mixCase(g.T, s), Kind: Word}
}

func (g *G) Show() ([]Tok, sql.Stmt) {
	return g.show(false)
}

func from(db, schema, tbl types.Identifier) sql.FromItem {
	return &sql.FromTableAlias{
		TableName: types.TableName{Database: db, Schema: schema, Table: tbl}}
}

func (g *G) show(sub bool) ([]Tok, sql.Stmt) {
	variant := h.N(g.T, 8, "show")
	if variant == 2 && g.Plain {
		variant = 3 // a name in SHOW CONFIG is a reserved word, which is not printed in quotes
	}
	switch variant {
	case 0, 1:
		w, id := "columns", types.COLUMNS
		if h.Chance(g.T, 50, "constraints") {
			w, id = "constraints", types.CONSTRAINTS
		}
		tt, tn := g.tableName()
		return cat("SHOW", word(g, w), "FROM", tt), &sql.Select{
			From:  from(tn.Database, types.METADATA, id),
			Where: and(equal("table_name", str(tn.Table)), currentSchema(tn.Schema)),
		}
	case 2:
		return cat("SHOW", word(g, "config")), &sql.Select{
			Results: []sql.SelectResult{
				sql.ExprResult{Expr: sql.Ref{Ordinary("name")}},
				sql.ExprResult{Expr: sql.Ref{Ordinary("value")}},
				sql.ExprResult{Expr: sql.Ref{Ordinary("by")}},
			},
			From:  from(types.SYSTEM, types.INFO, types.CONFIG),
			Where: equal("hidden", sql.Literal{Value: types.BoolValue(false)}),
		}
	case 3:
		return cat("SHOW", word(g, "databases")),
			&sql.Select{From: from(types.SYSTEM, types.INFO, types.DATABASES)}
	case 4:
		toks := cat("SHOW", word(g, "schemas"))
		var db types.Identifier
		if h.Chance(g.T, 50, "from") {
			n := g.name()
			toks = cat(toks, "FROM", n.Tok)
			db = n.ID
		}
		return toks, &sql.Select{From: from(db, types.METADATA, types.SCHEMAS)}
	case 5:
		toks := cat("SHOW", word(g, "tables"))
		var sn types.SchemaName
		if h.Chance(g.T, 50, "from") {
			var st []Tok
			st, sn = g.schemaName()
			toks = cat(toks, "FROM", st)
		}
		return toks, &sql.Select{
			From:  from(sn.Database, types.METADATA, types.TABLES),
			Where: currentSchema(sn.Schema),
		}
	case 6:
		if h.Chance(g.T, 50, "schema") {
			return kw("SHOW SCHEMA"), &sql.Show{Variable: types.SCHEMA}
		}
		return kw("SHOW DATABASE"), &sql.Show{Variable: types.DATABASE}
	}
	n := g.name()
	switch n.ID {
	case types.COLUMNS, types.CONFIG, types.CONSTRAINTS, types.DATABASES, types.SCHEMAS,
		types.TABLES:
		n = Name{Tok{Text: "flag", Kind: Word}, Ordinary("flag")}
	}
	return cat("SHOW", n.Tok), &sql.Show{Variable: n.ID}
}

// Query draws a query or data statement, other than COPY.
func (g *G) Query() Stmt {
	var s Stmt
	switch h.Weighted(g.T, "statement", 8, 2, 3, 3, 2, 2, 2, 1, 1) {
	case 0:
		s.Kind = "SELECT"
		s.Toks, s.Want = g.Select()
	case 1:
		s.Kind = "VALUES"
		s.Toks, s.Want = g.Values()
	case 2:
		s.Kind = "INSERT"
		s.Toks, s.Want = g.Insert()
	case 3:
		s.Kind = "UPDATE"
		s.Toks, s.Want = g.Update()
	case 4:
		s.Kind = "DELETE"
		s.Toks, s.Want = g.Delete()
	case 5:
		s.Kind = "SET"
		s.Toks, s.Want = g.Set()
	case 6:
		s.Kind = "SHOW"
		s.Toks, s.Want = g.Show()
	case 7:
		s.Kind = "EXPLAIN"
		toks, sel := g.Select()
		e := &sql.Explain{Stmt: sel}
		s.Toks = kw("EXPLAIN")
		if h.Chance(g.T, 50, "verbose") {
			e.Verbose = true
			s.Toks = cat(s.Toks, "VERBOSE")
		}
		s.Toks = cat(s.Toks, toks)
		s.Want = e
	case 8:
		s.Kind = "TRANSACTION"
		switch h.N(g.T, 4, "transaction") {
		case 0:
			s.Toks, s.Want = kw("BEGIN"), &sql.Begin{}
		case 1:
			s.Toks, s.Want = kw("START TRANSACTION"), &sql.Begin{}
		case 2:
			s.Toks, s.Want = kw("COMMIT"), &sql.Commit{}
		case 3:
			s.Toks, s.Want = kw("ROLLBACK"), &sql.Rollback{}
		}
	}
	return s
}

// Copy draws a COPY statement; Want has no reader.
func (g *G) Copy() ([]Tok, *sql.Copy) {
	tt, tn := g.tableName()
	s := &sql.Copy{Table: tn, Delimiter: '\t'}
	toks := cat("COPY", tt)
	if h.Chance(g.T, 60, "columns") {
		ct, cols := nameList(g.names(g.length(4)))
		toks = cat(toks, paren(ct))
		s.Columns = cols
	}
	toks = cat(toks, "FROM", word(g, "stdin"))
	if h.Chance(g.T, 50, "delimiter") {
		d := h.Pick(g.T, "delimiter", ',', '|', ';', ' ', '\'', 'x', '\\', '\t')
		if h.Chance(g.T, 30, "any") {
			d = rune(' ' + h.N(g.T, 95, "delimiter"))
		}
		txt := "'" + string(d) + "'"
		if d == '\'' {
			txt = "''''"
		} else if h.Chance(g.T, 20, "escape") {
			txt = fmt.Sprintf("e'\\x%02x'", d)
		}
		toks = cat(toks, "DELIMITER", Tok{Text: txt, Kind: Str})
		s.Delimiter = d
	}
	return toks, s
}
