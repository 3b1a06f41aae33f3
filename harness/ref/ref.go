// Package ref reads statements the way the grammar says: a parser of its own for the tokens that
// package gen writes, by recursive descent and precedence climbing, without looking back.
package ref

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/leftmike/maho/parser/scanner"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"

	"mahoverif/gen"
)

type kind int

const (
	end kind = iota
	keyword
	name
	integer
	float
	str
	byts
	sym  // operator or punctuation
	junk // no token of any statement
)

type tok struct {
	kind kind
	text string // of keywords in upper case, and of symbols
	id   types.Identifier
	i    int64
	f    float64
	sign byte
	s    string
}

var symbols = map[string]bool{}

func init() {
	for _, s := range strings.Fields("= == != <> < <= > >= + - * / % & | || << >> ( ) , . @") {
		symbols[s] = true
	}
}

// Classify tells what one token, as it is written, is.
func classify(t gen.Tok) tok {
	s := t.Text
	if symbols[s] {
		return tok{kind: sym, text: s}
	}
	switch c := s[0]; {
	case c == '"' || c == '`' || c == '[':
		return tok{kind: name, id: types.ID(s[1:len(s)-1], true)}
	case c == '\'' || len(s) > 1 && s[1] == '\'':
		return literal(s)
	case c >= '0' && c <= '9':
		return literal(s)
	case (c == '-' || c == '+') && len(s) > 1 && s[1] >= '0' && s[1] <= '9':
		return literal(s)
	case strings.IndexByte("$#?~{}^:\\!;", c) >= 0:
		return tok{kind: junk, text: s}
	}
	if _, ok := gen.ReservedWords[strings.ToUpper(s)]; ok {
		return tok{kind: keyword, text: strings.ToUpper(s)}
	}
	low := strings.ToLower(s)
	if id, ok := gen.Unreserved[low]; ok {
		return tok{kind: name, id: id}
	}
	return tok{kind: name, id: gen.Ordinary(low)}
}

// literal has the value of one literal read by the scanner, which other checks are about.
func literal(s string) tok {
	var sc scanner.Scanner
	var ctx scanner.ScanCtx
	sc.Init(strings.NewReader(s+" "), "literal")
	sc.Scan(&ctx)
	t := tok{text: s}
	switch ctx.Token {
	case token.String:
		t.kind, t.s = str, ctx.String
	case token.Bytes:
		t.kind, t.s = byts, string(bytes.Clone(ctx.Bytes))
	case token.Integer:
		t.kind, t.i = integer, ctx.Integer
	case token.Float:
		t.kind, t.f = float, ctx.Float
	default:
		t.kind = junk
	}
	if s[0] == '-' || s[0] == '+' {
		t.sign = s[0]
	}
	return t
}

type refused string

type parser struct {
	toks  []tok
	at    int
	loose bool // what this means is not said anywhere
}

// Verdict of reading tokens.
type Verdict struct {
	Stmt    sql.Stmt // unless refused
	Refused string
	At      int // of the token where it was noticed
	Loose   bool
}

// Junk tells whether no statement has a token like this.
func Junk(t gen.Tok) bool {
	return classify(t).kind == junk
}

// Parse reads the tokens of one statement.
func Parse(toks []gen.Tok) (v Verdict) {
	p := &parser{}
	for _, t := range toks {
		p.toks = append(p.toks, classify(t))
	}
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(refused)
			if !ok {
				panic(r)
			}
			v = Verdict{Refused: string(s), At: p.at, Loose: p.loose}
		}
	}()
	if len(toks) == 0 {
		return Verdict{}
	}
	s := p.stmt()
	if p.peek().kind != end {
		p.fail("end")
	}
	return Verdict{Stmt: s, Loose: p.loose}
}

func (p *parser) fail(why string) {
	panic(refused(why))
}

func (p *parser) peekN(n int) tok {
	if p.at+n < len(p.toks) {
		return p.toks[p.at+n]
	}
	return tok{}
}

func (p *parser) peek() tok {
	return p.peekN(0)
}

func (p *parser) isKw(words ...string) bool {
	for i, w := range words {
		if t := p.peekN(i); t.kind != keyword || t.text != w {
			return false
		}
	}
	return true
}

// kw takes the keywords if they are next, all of them.
func (p *parser) kw(words string) bool {
	ws := strings.Fields(words)
	if !p.isKw(ws...) {
		return false
	}
	p.at += len(ws)
	return true
}

func (p *parser) needKw(words string) {
	for _, w := range strings.Fields(words) {
		if !p.kw(w) {
			p.fail("keyword " + w)
		}
	}
}

func (p *parser) isSym(s string) bool {
	t := p.peek()
	return t.kind == sym && t.text == s
}

func (p *parser) sym(s string) bool {
	if p.isSym(s) {
		p.at++
		return true
	}
	return false
}

func (p *parser) needSym(s string) {
	if !p.sym(s) {
		p.fail("symbol " + s)
	}
}

func (p *parser) name() types.Identifier {
	t := p.peek()
	if t.kind != name {
		p.fail("name")
	}
	p.at++
	return t.id
}

func (p *parser) isName() bool {
	return p.peek().kind == name
}

// ifWords takes IF and the rest, which is needed after IF.
func (p *parser) ifWords(rest string) bool {
	if p.kw("IF") {
		p.needKw(rest)
		return true
	}
	return false
}

// separated reads one or more items with commas in between.
func (p *parser) separated(item func()) {
	for {
		item()
		if !p.sym(",") {
			return
		}
	}
}

func (p *parser) names(distinct bool) []types.Identifier {
	var ids []types.Identifier
	p.needSym("(")
	p.separated(func() {
		id := p.name()
		for _, i := range ids {
			if i == id && distinct {
				p.fail("name twice")
			}
		}
		ids = append(ids, id)
	})
	p.needSym(")")
	return ids
}

func (p *parser) optionalNames(distinct bool) []types.Identifier {
	if p.isSym("(") {
		return p.names(distinct)
	}
	return nil
}

func (p *parser) dotted(max int) []types.Identifier {
	ids := []types.Identifier{p.name()}
	for len(ids) < max && p.sym(".") {
		ids = append(ids, p.name())
	}
	return ids
}

func (p *parser) table() types.TableName {
	ids := append([]types.Identifier{0, 0}, p.dotted(3)...)
	ids = ids[len(ids)-3:]
	return types.TableName{Database: ids[0], Schema: ids[1], Table: ids[2]}
}

func (p *parser) schema() types.SchemaName {
	ids := append([]types.Identifier{0}, p.dotted(2)...)
	ids = ids[len(ids)-2:]
	return types.SchemaName{Database: ids[0], Schema: ids[1]}
}

func (p *parser) stmt() sql.Stmt {
	switch {
	case p.kw("BEGIN"):
		return &sql.Begin{}
	case p.kw("START"):
		p.needKw("TRANSACTION")
		return &sql.Begin{}
	case p.kw("COMMIT"):
		return &sql.Commit{}
	case p.kw("ROLLBACK"):
		return &sql.Rollback{}
	case p.kw("CREATE"):
		return p.create()
	case p.kw("DROP"):
		return p.drop()
	case p.kw("ALTER"):
		p.needKw("TABLE")
		return p.alter()
	case p.kw("SELECT"):
		return p.sel()
	case p.kw("VALUES"):
		return p.values()
	case p.kw("SHOW"):
		return p.show()
	case p.kw("EXPLAIN"):
		s := &sql.Explain{Verbose: p.kw("VERBOSE")}
		p.needKw("SELECT")
		s.Stmt = p.sel()
		return s
	case p.kw("INSERT"):
		p.needKw("INTO")
		s := &sql.InsertValues{Table: p.table()}
		s.Columns = p.optionalNames(true)
		p.needKw("VALUES")
		p.separated(func() {
			var row []sql.Expr
			p.needSym("(")
			p.separated(func() {
				row = append(row, p.exprOrDefault())
			})
			p.needSym(")")
			s.Rows = append(s.Rows, row)
		})
		return s
	case p.kw("UPDATE"):
		s := &sql.Update{Table: p.table()}
		p.needKw("SET")
		p.separated(func() {
			cu := sql.ColumnUpdate{Column: p.name()}
			p.needSym("=")
			cu.Expr = p.exprOrDefault()
			s.ColumnUpdates = append(s.ColumnUpdates, cu)
		})
		s.Where = p.where()
		return s
	case p.kw("DELETE"):
		p.needKw("FROM")
		s := &sql.Delete{Table: p.table()}
		s.Where = p.where()
		return s
	case p.kw("USE"):
		return &sql.Set{Variable: types.DATABASE, Value: p.value()}
	case p.kw("SET"):
		s := &sql.Set{}
		if p.kw("DATABASE") {
			s.Variable = types.DATABASE
		} else if p.kw("SCHEMA") {
			s.Variable = types.SCHEMA
		} else {
			s.Variable = p.name()
		}
		if !p.sym("=") {
			p.needKw("TO")
		}
		s.Value = p.value()
		return s
	}
	p.fail("statement")
	return nil
}

func (p *parser) where() sql.Expr {
	if p.kw("WHERE") {
		return p.expr(0)
	}
	return nil
}

func (p *parser) exprOrDefault() sql.Expr {
	if p.kw("DEFAULT") {
		return nil
	}
	return p.expr(0)
}

// value is a literal other than NULL, as text.
func (p *parser) value() string {
	e := p.expr(0)
	l, ok := e.(sql.Literal)
	if !ok {
		p.fail("literal")
	}
	switch v := l.Value.(type) {
	case types.StringValue:
		return string(v)
	case types.BoolValue:
		return strconv.FormatBool(bool(v))
	case types.Int64Value:
		return strconv.FormatInt(int64(v), 10)
	case types.Float64Value:
		return fmt.Sprint(float64(v))
	case types.BytesValue:
		return fmt.Sprintf(`'\x%x'`, []byte(v))
	}
	p.fail("literal")
	return ""
}

func (p *parser) create() sql.Stmt {
	switch {
	case p.kw("DATABASE"):
		s := &sql.CreateDatabase{Database: p.name()}
		if p.kw("WITH") {
			s.Options = map[types.Identifier]string{}
			for {
				opt := p.name()
				p.sym("=")
				t := p.peek()
				switch t.kind {
				case name:
					s.Options[opt] = t.id.String()
				case str, byts:
					s.Options[opt] = t.s
				case integer:
					s.Options[opt] = strconv.FormatInt(t.i, 10)
				case float:
					s.Options[opt] = strconv.FormatFloat(t.f, 'g', -1, 64)
				default:
					p.fail("value of option")
				}
				p.at++
				if !p.isName() {
					break
				}
			}
		}
		return s
	case p.kw("SCHEMA"):
		return &sql.CreateSchema{Schema: p.schema()}
	case p.kw("INDEX"):
		return p.createIndex(false)
	case p.kw("UNIQUE"):
		p.needKw("INDEX")
		return p.createIndex(true)
	}
	p.needKw("TABLE")
	return p.createTable()
}

func (p *parser) createIndex(unique bool) sql.Stmt {
	s := &sql.CreateIndex{IfNotExists: p.ifWords("NOT EXISTS")}
	s.Index = p.name()
	p.needKw("ON")
	s.Table = p.table()
	if p.kw("USING") && p.name() != types.BTREE {
		p.fail("btree")
	}
	s.Key = p.key(unique)
	return s
}

func (p *parser) key(unique bool) sql.IndexKey {
	k := sql.IndexKey{Unique: unique}
	p.needSym("(")
	p.separated(func() {
		id := p.name()
		for _, c := range k.Columns {
			if c == id {
				p.fail("column twice")
			}
		}
		k.Columns = append(k.Columns, id)
		desc := p.kw("DESC")
		if !desc {
			p.kw("ASC")
		}
		k.Reverse = append(k.Reverse, desc)
	})
	p.needSym(")")
	return k
}

// table is what is known of a table being created.
type table struct {
	*sql.CreateTable
	names   map[types.Identifier]bool // of constraints
	keys    []sql.IndexKey
	primary bool
}

func (p *parser) constraint(t *table, id types.Identifier) {
	if id == 0 {
		return
	}
	if t.names[id] {
		p.fail("constraint name twice")
	}
	t.names[id] = true
}

func (p *parser) addKey(t *table, primary bool, id types.Identifier, k sql.IndexKey) {
	con := sql.Constraint{Type: sql.UniqueConstraint, Name: id, ColNum: -1, Key: k}
	suffix := "unique"
	if primary {
		if t.primary {
			p.fail("second primary key")
		}
		t.primary = true
		con.Type = sql.PrimaryConstraint
		suffix = "primary"
	}
	if id == 0 {
		s := ""
		for _, c := range k.Columns {
			s += c.String() + "_"
		}
		con.Name = types.ID(s+suffix, false)
	}
	p.constraint(t, con.Name)
	for _, o := range t.keys {
		if fmt.Sprint(o.Columns, o.Reverse) == fmt.Sprint(k.Columns, k.Reverse) {
			p.fail("equal keys")
		}
	}
	t.keys = append(t.keys, k)
	t.Constraints = append(t.Constraints, con)
}

func (p *parser) constraintName() types.Identifier {
	if p.kw("CONSTRAINT") {
		return p.name()
	}
	return 0
}

func (p *parser) createTable() sql.Stmt {
	s := &sql.CreateTable{IfNotExists: p.ifWords("NOT EXISTS")}
	s.Table = p.table()
	t := &table{CreateTable: s, names: map[types.Identifier]bool{}}
	p.needSym("(")
	p.separated(func() {
		id := p.constraintName()
		switch {
		case p.kw("PRIMARY"):
			p.needKw("KEY")
			p.addKey(t, true, id, p.key(true))
		case p.kw("UNIQUE"):
			p.addKey(t, false, id, p.key(true))
		case p.isKw("CHECK"):
			p.check(t, id, -1)
		case p.isKw("FOREIGN"):
			p.constraint(t, id)
			fk := p.foreignKey(id)
			s.ForeignKeys = append(s.ForeignKeys, &fk)
		case id != 0:
			p.fail("constraint")
		default:
			p.column(t)
		}
	})
	p.needSym(")")
	return s
}

func (p *parser) check(t *table, id types.Identifier, col int) {
	p.constraint(t, id)
	p.needKw("CHECK")
	p.needSym("(")
	t.Constraints = append(t.Constraints,
		sql.Constraint{Type: sql.CheckConstraint, Name: id, ColNum: col, Check: p.expr(0)})
	p.needSym(")")
}

func (p *parser) columnType() types.ColumnType {
	id := p.name()
	for _, ctn := range gen.ColumnTypeNames {
		w := strings.Fields(strings.ToLower(ctn.Name))
		if len(w) > 1 || gen.Unreserved[w[0]] != id {
			continue
		}
		ct := ctn.Type
		if id == types.DOUBLE && p.isName() && p.peek().id == types.PRECISION {
			p.at++
		}
		if (ct.Type == types.StringType || ct.Type == types.BytesType) && p.sym("(") {
			n := p.peek()
			if n.kind != integer || n.i < 0 || n.i > types.MaxColumnSize {
				p.fail("length")
			}
			p.at++
			ct.Size = uint32(n.i)
			p.needSym(")")
		}
		return ct
	}
	p.fail("type")
	return types.ColumnType{}
}

func (p *parser) column(t *table) {
	id := p.name()
	for _, c := range t.Columns {
		if c == id {
			p.fail("column twice")
		}
	}
	col := len(t.Columns)
	t.Columns = append(t.Columns, id)
	ct := p.columnType()
	var dflt sql.Expr
	named := func(cn types.Identifier, typ sql.ConstraintType) {
		p.constraint(t, cn)
		if cn != 0 {
			t.Constraints = append(t.Constraints, sql.Constraint{Type: typ, Name: cn, ColNum: col})
		}
	}
	for more := true; more; {
		cn := p.constraintName()
		single := sql.IndexKey{Unique: true, Columns: []types.Identifier{id}, Reverse: []bool{false}}
		switch {
		case p.kw("DEFAULT"):
			if dflt != nil {
				p.fail("DEFAULT twice")
			}
			named(cn, sql.DefaultConstraint)
			dflt = p.expr(0)
		case p.kw("NOT"):
			p.needKw("NULL")
			if ct.NotNull {
				p.fail("NOT NULL twice")
			}
			named(cn, sql.NotNullConstraint)
			ct.NotNull = true
		case p.kw("PRIMARY"):
			p.needKw("KEY")
			p.addKey(t, true, cn, single)
		case p.kw("UNIQUE"):
			p.addKey(t, false, cn, single)
		case p.isKw("CHECK"):
			p.check(t, cn, col)
		case p.isKw("REFERENCES"):
			p.constraint(t, cn)
			fk := p.references(sql.ForeignKey{Name: cn, FKCols: []types.Identifier{id}}, true)
			t.ForeignKeys = append(t.ForeignKeys, &fk)
		default:
			if cn != 0 {
				p.fail("constraint")
			}
			more = false
		}
	}
	t.ColumnTypes = append(t.ColumnTypes, ct)
	t.ColumnDefaults = append(t.ColumnDefaults, dflt)
}

func (p *parser) foreignKey(id types.Identifier) sql.ForeignKey {
	p.needKw("FOREIGN KEY")
	return p.references(sql.ForeignKey{Name: id, FKCols: p.names(false)}, false)
}

func (p *parser) references(fk sql.ForeignKey, single bool) sql.ForeignKey {
	p.needKw("REFERENCES")
	fk.RefTable = p.table()
	if !single {
		fk.RefCols = p.optionalNames(false)
	} else if p.sym("(") {
		fk.RefCols = []types.Identifier{p.name()}
		p.needSym(")")
	}
	var del, upd bool
	for p.kw("ON") {
		act, done := &fk.OnDelete, &del
		if !p.kw("DELETE") {
			p.needKw("UPDATE")
			act, done = &fk.OnUpdate, &upd
		}
		if *done {
			p.fail("action twice")
		}
		*done = true
		switch {
		case p.kw("RESTRICT"):
			*act = sql.Restrict
		case p.kw("CASCADE"):
			*act = sql.Cascade
		case p.kw("SET NULL"):
			*act = sql.SetNull
		case p.kw("SET DEFAULT"):
			*act = sql.SetDefault
		default:
			p.needKw("NO ACTION")
			*act = sql.NoAction
		}
	}
	return fk
}

func (p *parser) alter() sql.Stmt {
	s := &sql.AlterTable{Table: p.table()}
	p.separated(func() {
		switch {
		case p.kw("ADD"):
			s.Actions = append(s.Actions,
				&sql.AddForeignKey{ForeignKey: p.foreignKey(p.constraintName())})
		case p.kw("DROP"):
			p.needKw("CONSTRAINT")
			ie := p.ifWords("EXISTS")
			s.Actions = append(s.Actions, &sql.DropConstraint{Name: p.name(), IfExists: ie})
		default:
			p.needKw("ALTER")
			p.kw("COLUMN")
			dc := &sql.DropConstraint{Column: p.name(), Type: sql.DefaultConstraint}
			p.needKw("DROP")
			if !p.kw("DEFAULT") {
				p.needKw("NOT NULL")
				dc.Type = sql.NotNullConstraint
			}
			s.Actions = append(s.Actions, dc)
		}
	})
	return s
}

func (p *parser) drop() sql.Stmt {
	switch {
	case p.kw("DATABASE"):
		s := &sql.DropDatabase{IfExists: p.ifWords("EXISTS")}
		s.Database = p.name()
		return s
	case p.kw("SCHEMA"):
		s := &sql.DropSchema{IfExists: p.ifWords("EXISTS")}
		s.Schema = p.schema()
		return s
	case p.kw("INDEX"):
		s := &sql.DropIndex{IfExists: p.ifWords("EXISTS")}
		s.Index = p.name()
		p.needKw("ON")
		s.Table = p.table()
		return s
	}
	p.needKw("TABLE")
	s := &sql.DropTable{IfExists: p.ifWords("EXISTS")}
	p.separated(func() {
		s.Tables = append(s.Tables, p.table())
	})
	s.Cascade = p.kw("CASCADE")
	if !s.Cascade {
		p.kw("RESTRICT")
	}
	return s
}

func (p *parser) values() sql.Stmt {
	s := &sql.Values{}
	p.separated(func() {
		var row []sql.Expr
		p.needSym("(")
		p.separated(func() {
			row = append(row, p.expr(0))
		})
		p.needSym(")")
		if len(s.Expressions) > 0 && len(s.Expressions[0]) != len(row) {
			p.fail("rows of different lengths")
		}
		s.Expressions = append(s.Expressions, row)
	})
	return s
}

func (p *parser) alias() types.Identifier {
	if p.kw("AS") || p.isName() {
		return p.name()
	}
	return 0
}

func (p *parser) sel() sql.Stmt {
	s := &sql.Select{}
	if !p.sym("*") {
		p.separated(func() {
			dot, star := p.peekN(1), p.peekN(2)
			if p.isName() && dot.kind == sym && dot.text == "." && star.kind == sym && star.text == "*" {
				s.Results = append(s.Results, sql.TableResult{Table: p.name()})
				p.at += 2
				return
			}
			e := p.expr(0)
			s.Results = append(s.Results, sql.ExprResult{Expr: e, Alias: p.alias()})
		})
	}
	if p.kw("FROM") {
		s.From = p.fromList()
	}
	s.Where = p.where()
	if p.kw("GROUP") {
		p.needKw("BY")
		p.separated(func() {
			s.GroupBy = append(s.GroupBy, p.expr(0))
		})
	}
	if p.kw("HAVING") {
		s.Having = p.expr(0)
	}
	if p.kw("ORDER") {
		p.needKw("BY")
		p.separated(func() {
			by := sql.OrderBy{Expr: sql.Ref{p.name()}}
			by.Reverse = p.kw("DESC")
			if !by.Reverse {
				p.kw("ASC")
			}
			s.OrderBy = append(s.OrderBy, by)
		})
	}
	return s
}

func (p *parser) fromList() sql.FromItem {
	var fi sql.FromItem
	p.separated(func() {
		next := p.fromItem()
		if fi == nil {
			fi = next
		} else {
			fi = sql.FromJoin{Left: fi, Right: next, Type: sql.CrossJoin}
		}
	})
	return fi
}

func (p *parser) joinType() sql.JoinType {
	for _, j := range []struct {
		word string
		jt   sql.JoinType
	}{{"LEFT", sql.LeftJoin}, {"RIGHT", sql.RightJoin}, {"FULL", sql.FullJoin}} {
		if p.kw(j.word) {
			p.kw("OUTER")
			p.needKw("JOIN")
			return j.jt
		}
	}
	switch {
	case p.kw("JOIN"):
		return sql.Join
	case p.kw("INNER"):
		p.needKw("JOIN")
		return sql.Join
	case p.kw("CROSS"):
		p.needKw("JOIN")
		return sql.CrossJoin
	}
	return sql.NoJoin
}

func (p *parser) fromItem() sql.FromItem {
	left := p.fromOperand()
	for {
		jt := p.joinType()
		if jt == sql.NoJoin {
			return left
		}
		j := sql.FromJoin{Left: left, Type: jt}
		if jt == sql.CrossJoin {
			// A condition directly after it is taken to be its own.
			j.Right = p.fromOperand()
			if p.isKw("ON") || p.isKw("USING") {
				p.fail("condition of cross join")
			}
		} else {
			j.Right = p.fromItem()
			if p.kw("ON") {
				j.On = p.expr(0)
			} else {
				p.needKw("USING")
				j.Using = p.names(true)
			}
		}
		left = j
	}
}

func (p *parser) fromOperand() sql.FromItem {
	if p.sym("(") {
		if s := p.subquery(); s != nil {
			p.needSym(")")
			fs := sql.FromStmt{Stmt: s, Alias: p.alias()}
			if fs.Alias == 0 {
				p.fail("alias")
			}
			fs.ColumnAliases = p.optionalNames(false)
			return fs
		}
		fi := p.fromList()
		p.needSym(")")
		return fi
	}
	tn := p.table()
	if p.sym("@") {
		idx := p.name()
		return &sql.FromIndexAlias{TableName: tn, Index: idx, Alias: p.alias()}
	}
	return &sql.FromTableAlias{TableName: tn, Alias: p.alias()}
}

// subquery reads a query, if there is one.
func (p *parser) subquery() sql.Stmt {
	switch {
	case p.kw("SELECT"):
		return p.sel()
	case p.kw("VALUES"):
		return p.values()
	case p.kw("SHOW"):
		return p.show()
	case p.kw("TABLE"):
		return &sql.Select{From: &sql.FromTableAlias{TableName: p.table()}}
	}
	return nil
}

func (p *parser) needSubquery() sql.Stmt {
	p.needSym("(")
	s := p.subquery()
	if s == nil {
		p.fail("subquery")
	}
	p.needSym(")")
	return s
}

func columnIs(col string, e sql.Expr) *sql.BinaryExpr {
	return &sql.BinaryExpr{Op: sql.EqualOp, Left: sql.Ref{gen.Ordinary(col)}, Right: e}
}

func text(id types.Identifier) sql.Expr {
	return sql.Literal{Value: types.StringValue(id.String())}
}

func schemaIs(id types.Identifier) sql.Expr {
	if id == 0 {
		return columnIs("schema_name",
			&sql.Subquery{Op: sql.Scalar, Stmt: &sql.Show{Variable: types.SCHEMA}})
	}
	return columnIs("schema_name", text(id))
}

func fromTable(ids ...types.Identifier) sql.FromItem {
	return &sql.FromTableAlias{
		TableName: types.TableName{Database: ids[0], Schema: ids[1], Table: ids[2]}}
}

func (p *parser) show() sql.Stmt {
	t := p.peek()
	p.at++
	if t.kind == keyword {
		switch t.text {
		case "DATABASE":
			return &sql.Show{Variable: types.DATABASE}
		case "SCHEMA":
			return &sql.Show{Variable: types.SCHEMA}
		}
		p.loose = true
		return &sql.Show{Variable: gen.ReservedWords[t.text]}
	}
	if t.kind != name {
		p.fail("what to show")
	}
	switch t.id {
	case types.COLUMNS, types.CONSTRAINTS:
		p.needKw("FROM")
		tn := p.table()
		return &sql.Select{
			From: fromTable(tn.Database, types.METADATA, t.id),
			Where: &sql.BinaryExpr{Op: sql.AndOp, Left: columnIs("table_name", text(tn.Table)),
				Right: schemaIs(tn.Schema)},
		}
	case types.CONFIG:
		var rs []sql.SelectResult
		for _, c := range []string{"name", "value", "by"} {
			rs = append(rs, sql.ExprResult{Expr: sql.Ref{gen.Ordinary(c)}})
		}
		return &sql.Select{Results: rs, From: fromTable(types.SYSTEM, types.INFO, types.CONFIG),
			Where: columnIs("hidden", sql.Literal{Value: types.BoolValue(false)})}
	case types.DATABASES:
		return &sql.Select{From: fromTable(types.SYSTEM, types.INFO, types.DATABASES)}
	case types.SCHEMAS:
		var db types.Identifier
		if p.kw("FROM") {
			db = p.name()
		}
		return &sql.Select{From: fromTable(db, types.METADATA, types.SCHEMAS)}
	case types.TABLES:
		var sn types.SchemaName
		if p.kw("FROM") {
			sn = p.schema()
		}
		return &sql.Select{From: fromTable(sn.Database, types.METADATA, types.TABLES),
			Where: schemaIs(sn.Schema)}
	}
	return &sql.Show{Variable: t.id}
}

type binary struct {
	op   sql.Op
	prec int
	cond bool // gives true or false
}

var operators = map[string]binary{
	"OR": {sql.OrOp, 1, true}, "AND": {sql.AndOp, 2, true},
	"=": {sql.EqualOp, 4, true}, "==": {sql.EqualOp, 4, true},
	"!=": {sql.NotEqualOp, 4, true}, "<>": {sql.NotEqualOp, 4, true},
	"<": {sql.LessThanOp, 5, true}, "<=": {sql.LessEqualOp, 5, true},
	">": {sql.GreaterThanOp, 5, true}, ">=": {sql.GreaterEqualOp, 5, true},
	"&": {sql.BinaryAndOp, 6, false}, "|": {sql.BinaryOrOp, 6, false},
	"<<": {sql.LShiftOp, 6, false}, ">>": {sql.RShiftOp, 6, false},
	"+": {sql.AddOp, 7, false}, "-": {sql.SubtractOp, 7, false},
	"*": {sql.MultiplyOp, 8, false}, "/": {sql.DivideOp, 8, false}, "%": {sql.ModuloOp, 8, false},
	"||": {sql.ConcatOp, 10, false},
}

const (
	notPrec    = 3
	negatePrec = 9
)

// expr reads an expression of operators that bind at least as tightly as min.
func (p *parser) expr(min int) sql.Expr {
	var e sql.Expr
	switch {
	case p.kw("NOT"):
		e = &sql.UnaryExpr{Op: sql.NotOp, Expr: p.expr(notPrec)}
	case p.sym("-"):
		e = &sql.UnaryExpr{Op: sql.NegateOp, Expr: p.expr(negatePrec)}
	default:
		e = p.tests(p.operand())
	}
	for {
		t := p.peek()
		b, ok := operators[t.text]
		if (t.kind == integer || t.kind == float) && t.sign != 0 {
			// A signed number after an operand is an operator and a number.
			if t.kind == integer && t.i == math.MinInt64 {
				p.fail("range")
			}
			if b = operators["+"]; b.prec < min {
				return e
			}
			if t.sign == '-' {
				b = operators["-"]
				t.i, t.f = -t.i, -t.f
			}
			t.sign = 0
			p.toks[p.at] = t
		} else if !ok || t.kind != sym && t.kind != keyword || b.prec < min {
			return e
		} else {
			p.at++
		}
		e = &sql.BinaryExpr{Op: b.op, Left: e, Right: p.expr(b.prec + 1)}
	}
}

// tests reads what may directly follow an operand.
func (p *parser) tests(e sql.Expr) sql.Expr {
	for {
		t := p.peek()
		b, isOp := operators[t.text]
		next := p.peekN(1)
		switch {
		case p.kw("IS"):
			not := p.kw("NOT")
			p.needKw("NULL")
			e = &sql.SExpr{Name: gen.Ordinary("is_null"), Args: []sql.Expr{e}}
			if not {
				e = &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
			}
		case p.kw("IN"):
			e = &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e, Stmt: p.needSubquery()}
		case p.kw("NOT IN"):
			e = &sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: e, Stmt: p.needSubquery()}
		case isOp && (t.kind == sym || t.kind == keyword) && next.kind == keyword &&
			(next.text == "ANY" || next.text == "SOME" || next.text == "ALL"):

			if !b.cond {
				p.fail("condition")
			}
			p.at += 2
			sq := &sql.Subquery{Op: sql.Any, ExprOp: b.op, Expr: e}
			if next.text == "ALL" {
				sq.Op = sql.All
			}
			sq.Stmt = p.needSubquery()
			e = sq
		default:
			return e
		}
	}
}

func (p *parser) operand() sql.Expr {
	t := p.peek()
	switch t.kind {
	case str:
		p.at++
		return sql.Literal{Value: types.StringValue(t.s)}
	case byts:
		p.at++
		return sql.Literal{Value: types.BytesValue(t.s)}
	case integer:
		p.at++
		return sql.Literal{Value: types.Int64Value(t.i)}
	case float:
		p.at++
		return sql.Literal{Value: types.Float64Value(t.f)}
	case keyword:
		switch {
		case p.kw("TRUE"):
			return sql.Literal{Value: types.BoolValue(true)}
		case p.kw("FALSE"):
			return sql.Literal{Value: types.BoolValue(false)}
		case p.kw("NULL"):
			return sql.Literal{}
		case p.kw("EXISTS"):
			return &sql.Subquery{Op: sql.Exists, Stmt: p.needSubquery()}
		}
	case name:
		id := p.name()
		if p.sym("(") {
			se := &sql.SExpr{Name: id}
			if id == types.COUNT && p.sym("*") {
				se.Name = types.COUNT_ALL
			} else if !p.isSym(")") {
				p.separated(func() {
					se.Args = append(se.Args, p.expr(0))
				})
			}
			p.needSym(")")
			return se
		}
		ref := sql.Ref{id}
		for p.sym(".") {
			ref = append(ref, p.name())
		}
		return ref
	case sym:
		if p.sym("(") {
			if s := p.subquery(); s != nil {
				p.needSym(")")
				return &sql.Subquery{Op: sql.Scalar, Stmt: s}
			}
			e := p.expr(0)
			p.needSym(")")
			return &sql.UnaryExpr{Op: sql.NoOp, Expr: e}
		}
	}
	p.fail("expression")
	return nil
}
