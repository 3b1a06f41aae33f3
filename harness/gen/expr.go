package gen

import (
	"fmt"
	"strings"

	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"

	"mahoverif/h"

	"pgregory.net/rapid"
)

// G generates statements and expressions.
type G struct {
	T     *rapid.T
	Plain bool // only plain names and literals with a printed form that can be parsed
	Depth int  // how deeply expressions and queries may nest
	Size  int  // how many more parts there may be
	Long  bool // one of the lists still to come may be long

	// If set, most statements are about these.
	Tables  []TableRef
	Indexes []Name
	Columns func(tn types.TableName) []Name
}

// TableRef is a name of a table as written and what it denotes.
type TableRef struct {
	Toks []Tok
	Name types.TableName
}

// NewG starts a statement.
func NewG(t *rapid.T, plain bool) *G {
	return &G{T: t, Plain: plain, Depth: 4, Size: 40, Long: h.Chance(t, 4, "long list")}
}

func kw(s string) []Tok {
	var toks []Tok
	for _, w := range strings.Fields(s) {
		toks = append(toks, Tok{Text: w, Kind: Kw})
	}
	return toks
}

func op(s string) Tok {
	return Tok{Text: s, Kind: Op}
}

func punct(s string) Tok {
	return Tok{Text: s, Kind: Punct}
}

func cat(parts ...any) []Tok {
	var toks []Tok
	for _, p := range parts {
		switch p := p.(type) {
		case Tok:
			toks = append(toks, p)
		case []Tok:
			toks = append(toks, p...)
		case string:
			toks = append(toks, kw(p)...)
		}
	}
	return toks
}

func paren(toks []Tok) []Tok {
	return cat(punct("("), toks, punct(")"))
}

func list(items [][]Tok) []Tok {
	var toks []Tok
	for i, it := range items {
		if i > 0 {
			toks = append(toks, punct(","))
		}
		toks = append(toks, it...)
	}
	return toks
}

func (g *G) name() Name {
	return AnyName(g.T, g.Plain)
}

// names draws different names.
func (g *G) names(n int) []Name {
	var ns []Name
	used := map[types.Identifier]bool{}
	for len(ns) < n {
		nm := g.name()
		for i := 0; used[nm.ID]; i++ {
			s := fmt.Sprintf("n%d_%d", len(ns), i)
			nm = Name{Tok{Text: s, Kind: Word}, Ordinary(s)}
		}
		used[nm.ID] = true
		ns = append(ns, nm)
	}
	return ns
}

func nameList(ns []Name) ([]Tok, []types.Identifier) {
	var items [][]Tok
	var ids []types.Identifier
	for _, n := range ns {
		items = append(items, []Tok{n.Tok})
		ids = append(ids, n.ID)
	}
	return list(items), ids
}

func (g *G) chance(pct int, label string) bool {
	return h.Chance(g.T, pct, label)
}

// more decides whether to go on with a list or a clause.
func (g *G) more(pct int) bool {
	if g.Size <= 0 || !h.Chance(g.T, pct, "more") {
		return false
	}
	g.Size--
	return true
}

// long decides whether a list is long, and how long; its elements, and everything after it, are
// simple.
func (g *G) long() (int, bool) {
	if !g.Long || !h.Chance(g.T, 50, "this list") {
		return 0, false
	}
	g.Long = false
	g.Depth = min(g.Depth, 1)
	g.Size = 0
	n := h.Pick(g.T, "long", 9, 16, 17, 31, 33, 64, 65, 100, 128, 200, 256, 300)
	return n + h.N(g.T, 4, "longer"), true
}

// length draws the length of a list.
func (g *G) length(max int) int {
	if n, ok := g.long(); ok {
		return n
	}
	return 1 + h.N(g.T, max, "length")
}

// series decides whether another element follows the first n ones.
func (g *G) series(max, pct int) func(n int) bool {
	want, long := g.long()
	return func(n int) bool {
		if long {
			return n < want
		}
		return n < max && g.more(pct)
	}
}

func (g *G) literal() ([]Tok, sql.Expr) {
	k := h.Weighted(g.T, "literal", 5, 2, 3, 1, 1, 1, 1)
	if g.Plain && (k == 4 || k == 5) {
		k = 2
	}
	switch k {
	case 0:
		s, i := intLit(g.T, false)
		return []Tok{{Text: s, Kind: Num}}, sql.Literal{Value: types.Int64Value(i)}
	case 1:
		s, f := floatLit(g.T, g.Plain)
		return []Tok{{Text: s, Kind: Num}}, sql.Literal{Value: types.Float64Value(f)}
	case 2:
		s, v := PlainString(g.T, true)
		return []Tok{{Text: s, Kind: Str}}, sql.Literal{Value: types.StringValue(v)}
	case 3:
		if h.Chance(g.T, 50, "escaped") {
			s, v := EscapedString(g.T, false)
			return []Tok{{Text: s, Kind: Str}}, sql.Literal{Value: types.StringValue(v)}
		}
		s, v := PlainString(g.T, false)
		return []Tok{{Text: s, Kind: Str}}, sql.Literal{Value: types.StringValue(v)}
	case 4:
		s, v := EscapedString(g.T, true)
		return []Tok{{Text: s, Kind: Str}}, sql.Literal{Value: types.BytesValue(v)}
	case 5:
		s, v := HexBytes(g.T)
		return []Tok{{Text: s, Kind: Str}}, sql.Literal{Value: types.BytesValue(v)}
	}
	switch h.N(g.T, 3, "constant") {
	case 0:
		return kw("TRUE"), sql.Literal{Value: types.BoolValue(true)}
	case 1:
		return kw("FALSE"), sql.Literal{Value: types.BoolValue(false)}
	}
	return kw("NULL"), sql.Literal{}
}

func (g *G) ref() ([]Tok, sql.Ref) {
	n := 1 + h.Weighted(g.T, "ref", 6, 3, 1)
	var toks []Tok
	var ref sql.Ref
	for i := 0; i < n; i++ {
		nm := g.name()
		if i > 0 {
			toks = append(toks, punct("."))
		}
		toks = append(toks, nm.Tok)
		ref = append(ref, nm.ID)
	}
	return toks, ref
}

// primary is an operand without prefix or postfix operators.
func (g *G) primary() ([]Tok, sql.Expr) {
	k := 0
	if g.Depth > 0 && g.Size > 0 {
		k = h.Weighted(g.T, "primary", 8, 8, 4, 3, 1, 1)
	} else {
		k = h.N(g.T, 2, "primary")
	}
	switch k {
	case 0:
		return g.literal()
	case 1:
		toks, ref := g.ref()
		return toks, ref
	}

	g.Depth--
	defer func() { g.Depth++ }()
	switch k {
	case 2:
		toks, e := g.Expr()
		return paren(toks), &sql.UnaryExpr{Op: sql.NoOp, Expr: e}
	case 3:
		if h.Chance(g.T, 15, "count") {
			return cat(Tok{Text: mixCase(g.T, "count"), Kind: Word}, paren([]Tok{op("*")})),
				&sql.SExpr{Name: types.COUNT_ALL}
		}
		nm := g.name()
		var items [][]Tok
		se := &sql.SExpr{Name: nm.ID}
		more := g.series(4, 55)
		for i := 0; more(i); i++ {
			toks, e := g.Expr()
			items = append(items, toks)
			se.Args = append(se.Args, e)
		}
		return cat(nm.Tok, paren(list(items))), se
	case 4:
		toks, s := g.subquery()
		return paren(toks), &sql.Subquery{Op: sql.Scalar, Stmt: s}
	case 5:
		toks, s := g.subquery()
		return cat("EXISTS", paren(toks)), &sql.Subquery{Op: sql.Exists, Stmt: s}
	}
	panic("never reached")
}

// item is one element of an expression written without parentheses around it.
type item struct {
	toks   []Tok
	prefix bool
	op     sql.Op   // of a prefix or binary operator
	e      sql.Expr // of an operand
}

var compareOps = []struct {
	text string
	op   sql.Op
}{
	{"=", sql.EqualOp}, {"==", sql.EqualOp}, {"!=", sql.NotEqualOp}, {"<>", sql.NotEqualOp},
	{"<", sql.LessThanOp}, {"<=", sql.LessEqualOp}, {">", sql.GreaterThanOp},
	{">=", sql.GreaterEqualOp},
}

var valueOps = []struct {
	text string
	op   sql.Op
}{
	{"+", sql.AddOp}, {"-", sql.SubtractOp}, {"*", sql.MultiplyOp}, {"/", sql.DivideOp},
	{"%", sql.ModuloOp}, {"&", sql.BinaryAndOp}, {"|", sql.BinaryOrOp}, {"||", sql.ConcatOp},
	{"<<", sql.LShiftOp}, {">>", sql.RShiftOp},
}

// The documented precedences, higher binds tighter.
var precedence = map[sql.Op]int{
	sql.OrOp: 1, sql.AndOp: 2, sql.NotOp: 3, sql.EqualOp: 4, sql.NotEqualOp: 4,
	sql.LessThanOp: 5, sql.LessEqualOp: 5, sql.GreaterThanOp: 5, sql.GreaterEqualOp: 5,
	sql.BinaryAndOp: 6, sql.BinaryOrOp: 6, sql.LShiftOp: 6, sql.RShiftOp: 6,
	sql.AddOp: 7, sql.SubtractOp: 7, sql.MultiplyOp: 8, sql.DivideOp: 8, sql.ModuloOp: 8,
	sql.NegateOp: 9, sql.ConcatOp: 10,
}

// group groups the items by precedence climbing: the operand of a prefix operator extends over
// all operators which bind tighter, and operators of one precedence group from left to right.
func group(items []item) sql.Expr {
	pos := 0
	var parse func(min int) sql.Expr
	parse = func(min int) sql.Expr {
		var left sql.Expr
		it := items[pos]
		pos++
		if it.prefix {
			left = &sql.UnaryExpr{Op: it.op, Expr: parse(precedence[it.op])}
		} else {
			left = it.e
		}
		for pos < len(items) && precedence[items[pos].op] > min {
			o := items[pos].op
			pos++
			left = &sql.BinaryExpr{Op: o, Left: left, Right: parse(precedence[o])}
		}
		return left
	}
	return parse(0)
}

const (
	anyLeft   = iota // an operator which is neither AND nor OR
	logicLeft        // nothing, AND, OR or NOT
)

func (g *G) binaryOp(logic bool) item {
	k := h.Weighted(g.T, "op", 3, 3, 6)
	if logic && k == 2 {
		k = h.N(g.T, 2, "op")
	}
	switch k {
	case 0:
		if h.Chance(g.T, 50, "and") {
			return item{toks: kw("AND"), op: sql.AndOp}
		}
		return item{toks: kw("OR"), op: sql.OrOp}
	case 1:
		if !logic {
			o := h.Pick(g.T, "compare", compareOps...)
			return item{toks: []Tok{op(o.text)}, op: o.op}
		}
		return item{toks: kw("AND"), op: sql.AndOp}
	}
	o := h.Pick(g.T, "value", valueOps...)
	return item{toks: []Tok{op(o.text)}, op: o.op}
}

// postfix applies tests to an operand.
func (g *G) postfix(toks []Tok, e sql.Expr) ([]Tok, sql.Expr) {
	for {
		k := h.N(g.T, 5, "postfix")
		if g.Depth <= 0 {
			k = h.N(g.T, 2, "postfix")
		}
		isNull := types.ID("is_null", false)
		switch k {
		case 0:
			toks, e = cat(toks, "IS NULL"), &sql.SExpr{Name: isNull, Args: []sql.Expr{e}}
		case 1:
			toks = cat(toks, "IS NOT NULL")
			e = &sql.UnaryExpr{Op: sql.NotOp, Expr: &sql.SExpr{Name: isNull, Args: []sql.Expr{e}}}
		default:
			g.Depth--
			sub, s := g.subquery()
			g.Depth++
			sub = paren(sub)
			switch k {
			case 2:
				toks = cat(toks, "IN", sub)
				e = &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e, Stmt: s}
			case 3:
				toks = cat(toks, "NOT IN", sub)
				e = &sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: e, Stmt: s}
			case 4:
				o := h.Pick(g.T, "compare", compareOps...)
				q := h.Pick(g.T, "quantifier", "ANY", "SOME", "ALL")
				sop := sql.Any
				if q == "ALL" {
					sop = sql.All
				}
				toks = cat(toks, op(o.text), q, sub)
				e = &sql.Subquery{Op: sop, ExprOp: o.op, Expr: e, Stmt: s}
			}
		}
		if !h.Chance(g.T, 15, "again") {
			return toks, e
		}
	}
}

// Expr draws an expression.
func (g *G) Expr() ([]Tok, sql.Expr) {
	return g.ExprN(12)
}

// ExprN draws an expression with at most n operands outside of any parentheses.
func (g *G) ExprN(n int) ([]Tok, sql.Expr) {
	var items []item
	logic := true
	for {
		for h.Chance(g.T, 14, "prefix") {
			if h.Chance(g.T, 50, "not") {
				items = append(items, item{toks: kw("NOT"), prefix: true, op: sql.NotOp})
			} else {
				items = append(items, item{toks: []Tok{{Text: "-", Kind: Op, Prefix: true}},
					prefix: true, op: sql.NegateOp})
				logic = false
			}
		}
		toks, e := g.primary()
		post := false
		if logic && h.Chance(g.T, 12, "post") {
			post = true
			toks, e = g.postfix(toks, e)
		}
		items = append(items, item{toks: toks, e: e})
		n--
		if n <= 0 || !g.more(45) {
			break
		}
		// A test of an operand next to another operator than AND or OR would be read in
		// different ways.
		o := g.binaryOp(post)
		logic = o.op == sql.AndOp || o.op == sql.OrOp
		items = append(items, o)
	}

	var toks []Tok
	for _, it := range items {
		toks = append(toks, it.toks...)
	}
	return toks, group(items)
}

// FlatExpr draws a long expression from simple operands.
func (g *G) FlatExpr(n int) ([]Tok, sql.Expr) {
	var items []item
	for i := 0; i < n; i++ {
		for h.Chance(g.T, 10, "prefix") {
			if h.Chance(g.T, 50, "not") {
				items = append(items, item{toks: kw("NOT"), prefix: true, op: sql.NotOp})
			} else {
				items = append(items, item{toks: []Tok{{Text: "-", Kind: Op, Prefix: true}},
					prefix: true, op: sql.NegateOp})
			}
		}
		s := h.Pick(g.T, "operand", "a", "b", "c", "7", "true")
		switch s {
		case "7":
			items = append(items, item{toks: []Tok{{Text: s, Kind: Num}},
				e: sql.Literal{Value: types.Int64Value(7)}})
		case "true":
			items = append(items, item{toks: kw("TRUE"), e: sql.Literal{Value: types.BoolValue(true)}})
		default:
			items = append(items, item{toks: []Tok{{Text: s, Kind: Word}}, e: sql.Ref{Ordinary(s)}})
		}
		if i < n-1 {
			items = append(items, g.binaryOp(false))
		}
	}
	var toks []Tok
	for _, it := range items {
		toks = append(toks, it.toks...)
	}
	return toks, group(items)
}

// Literal draws a literal.
func (g *G) Literal() ([]Tok, sql.Expr) {
	return g.literal()
}
