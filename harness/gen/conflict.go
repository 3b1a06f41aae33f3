package gen

import (
	"strings"

	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"

	"mahoverif/h"
)

// other spells a name that is already used again, maybe differently.
func (g *G) other(n Name) Tok {
	s := n.Tok.Text
	switch {
	case n.Tok.Kind == Word && h.Chance(g.T, 60, "respell"):
		low := strings.ToLower(s)
		if _, ok := Unreserved[low]; ok || h.Chance(g.T, 50, "case") {
			return Tok{Text: mixCase(g.T, s), Kind: Word}
		}
		return Tok{Text: quote(g.T, low), Kind: Quoted}
	case n.Tok.Kind == Quoted:
		return Tok{Text: quote(g.T, s[1:len(s)-1]), Kind: Quoted}
	}
	return n.Tok
}

// repeated gives a list of names one of which is there twice.
func (g *G) repeated(max int) [][]Tok {
	ns := g.names(g.length(max))
	var items [][]Tok
	for _, n := range ns {
		items = append(items, []Tok{n.Tok})
	}
	i := h.N(g.T, len(ns), "repeat")
	at := h.N(g.T, len(ns)+1, "at")
	return append(items[:at:at], append([][]Tok{{g.other(ns[i])}}, items[at:]...)...)
}

func (g *G) insertItem(items []tableItem, toks []Tok) []tableItem {
	at := h.N(g.T, len(items)+1, "at")
	return append(items[:at:at], append([]tableItem{{"extra", toks, -1}}, items[at:]...)...)
}

// columnItem draws one of the columns.
func (g *G) columnItem(items []tableItem) *tableItem {
	var cols []int
	for i := range items {
		if items[i].kind == "column" {
			cols = append(cols, i)
		}
	}
	return &items[cols[h.N(g.T, len(cols), "column")]]
}

func (g *G) directed(toks []Tok) []Tok {
	switch h.N(g.T, 3, "direction") {
	case 1:
		return cat(toks, "ASC")
	case 2:
		return cat(toks, "DESC")
	}
	return toks
}

// between draws something harmless that may stand between two constraints of a column.
func (g *G) between() []Tok {
	if h.Chance(g.T, 40, "between") {
		et, _ := g.ExprN(2)
		return cat("CHECK", paren(et))
	}
	return nil
}

func (g *G) aDefault() []Tok {
	switch h.N(g.T, 4, "default") {
	case 0:
		return cat("NULL")
	case 1:
		return []Tok{num(int64(h.N(g.T, 3, "number")))}
	case 2:
		toks, _ := g.Literal()
		return toks
	}
	toks, _ := g.ExprN(2)
	return toks
}

// conflictTable draws a CREATE TABLE statement with one contradiction.
func (g *G) conflictTable() (string, []Tok) {
	head, items, s := g.createTable()
	kind := ""
	colNames := map[int]Name{}
	for _, it := range items {
		if it.kind == "column" {
			colNames[it.col] = Name{it.toks[0], s.Columns[it.col]}
		}
	}
	hasPrimary := false
	for _, c := range s.Constraints {
		hasPrimary = hasPrimary || c.Type == sql.PrimaryConstraint
	}
	fresh := 0
	name := func() []Tok {
		fresh++
		return cat("CONSTRAINT", Tok{Text: "fresh_" + string(rune('0'+fresh)), Kind: Word})
	}

	switch h.N(g.T, 9, "conflict") {
	case 0:
		kind = "column twice"
		it := g.columnItem(items)
		tt, _ := g.ColumnType()
		items = g.insertItem(items, cat(g.other(colNames[it.col]), tt))
	case 1:
		kind = "column twice in key"
		var cols [][]Tok
		for _, r := range g.repeated(3) {
			cols = append(cols, g.directed(r))
		}
		w := "UNIQUE"
		if !hasPrimary && h.Chance(g.T, 50, "primary") {
			w = "PRIMARY KEY"
		}
		items = g.insertItem(items, cat(name(), w, paren(list(cols))))
	case 2:
		kind = "second primary key"
		n := 1
		if !hasPrimary {
			n = 2
		}
		for i := 0; i < n; i++ {
			c := "pk" + string(rune('a'+i))
			if h.Chance(g.T, 50, "column") {
				items = g.insertItem(items, cat(Tok{Text: c, Kind: Word}, "INT", name(), "PRIMARY KEY"))
			} else {
				items = g.insertItem(items,
					cat(name(), "PRIMARY KEY", paren([]Tok{{Text: c, Kind: Word}})))
			}
		}
	case 3:
		kind = "equal keys"
		if h.Chance(g.T, 40, "column") {
			it := g.columnItem(items)
			n := colNames[it.col]
			it.toks = cat(it.toks, name(), "UNIQUE")
			items = g.insertItem(items, cat(name(), "UNIQUE", paren([]Tok{g.other(n)})))
		} else {
			ns := g.names(g.length(3))
			var a, b [][]Tok
			for _, n := range ns {
				switch h.N(g.T, 3, "direction") {
				case 0:
					a, b = append(a, []Tok{n.Tok}), append(b, cat(g.other(n), "ASC"))
				case 1:
					a, b = append(a, cat(n.Tok, "DESC")), append(b, cat(g.other(n), "DESC"))
				case 2:
					a, b = append(a, cat(n.Tok, "ASC")), append(b, []Tok{g.other(n)})
				}
			}
			w := "UNIQUE"
			if !hasPrimary && h.Chance(g.T, 50, "primary") {
				w = "PRIMARY KEY"
			}
			items = g.insertItem(items, cat(name(), "UNIQUE", paren(list(a))))
			items = g.insertItem(items, cat(name(), w, paren(list(b))))
		}
	case 4:
		kind = "constraint name twice"
		n := Name{Tok{Text: "same", Kind: Word}, Ordinary("same")}
		used := map[types.Identifier]bool{}
		for _, c := range s.Constraints {
			used[c.Name] = true
		}
		for _, fk := range s.ForeignKeys {
			used[fk.Name] = true
		}
		if m := g.name(); !used[m.ID] {
			n = m
		}
		for i := 0; i < 2; i++ {
			con := cat("CONSTRAINT", g.other(n))
			c := Tok{Text: "nc" + string(rune('a'+i)), Kind: Word}
			switch h.N(g.T, 8, "constraint") {
			case 0:
				items = g.insertItem(items, cat(con, "UNIQUE", paren([]Tok{c})))
			case 1:
				items = g.insertItem(items, cat(con, "CHECK", paren([]Tok{c})))
			case 2:
				ft, _ := g.foreignKey(0)
				items = g.insertItem(items, cat(con, ft))
			case 3:
				items = g.insertItem(items, cat(c, "INT", con, "NOT NULL"))
			case 4:
				items = g.insertItem(items, cat(c, "INT", con, "DEFAULT", num(1)))
			case 5:
				it := g.columnItem(items)
				it.toks = cat(it.toks, con, "CHECK", paren([]Tok{num(1)}))
			case 6:
				it := g.columnItem(items)
				rt, _ := g.tableName()
				it.toks = cat(it.toks, con, "REFERENCES", rt)
			case 7:
				items = g.insertItem(items, cat(c, "INT", con, "UNIQUE"))
			}
		}
	case 5:
		it := g.columnItem(items)
		if h.Chance(g.T, 50, "default") {
			kind = "DEFAULT twice"
			for i := 0; i < 2; i++ {
				var con []Tok
				if h.Chance(g.T, 30, "named") {
					con = name()
				}
				it.toks = cat(it.toks, con, "DEFAULT", g.aDefault(), g.between())
			}
		} else {
			kind = "NOT NULL twice"
			for i := 0; i < 2; i++ {
				var con []Tok
				if h.Chance(g.T, 30, "named") {
					con = name()
				}
				it.toks = cat(it.toks, con, "NOT NULL", g.between())
			}
		}
	case 6:
		kind = "referential action twice"
		w := h.Pick(g.T, "on", "ON DELETE", "ON UPDATE")
		twice := cat(w, h.Pick(g.T, "action", refActions...).text, w,
			h.Pick(g.T, "action", refActions...).text)
		if h.Chance(g.T, 50, "column") {
			it := g.columnItem(items)
			rt, _ := g.tableName()
			it.toks = cat(it.toks, "REFERENCES", rt, twice)
		} else {
			ft, _ := g.foreignKey(0)
			items = g.insertItem(items, cat(ft, twice))
		}
	case 7:
		kind = "name without constraint"
		if h.Chance(g.T, 50, "column") {
			it := g.columnItem(items)
			it.toks = cat(it.toks, name())
		} else {
			tt, _ := g.ColumnType()
			items = g.insertItem(items, cat(name(), Tok{Text: "colx", Kind: Word}, tt))
		}
	case 8:
		kind = "length out of range"
		w := h.Pick(g.T, "type", "CHAR", "CHARACTER", "VARCHAR", "TEXT", "BINARY", "VARBINARY",
			"BLOB", "BYTEA", "BYTES")
		n := h.Pick(g.T, "length", "4294967295", "-1", "4294967296", "9223372036854775807",
			"-9223372036854775808", "5000000000")
		items = g.insertItem(items, cat(Tok{Text: "colx", Kind: Word}, w,
			paren([]Tok{{Text: n, Kind: Num}})))
	}

	var ts [][]Tok
	for _, it := range items {
		ts = append(ts, it.toks)
	}
	return kind, cat(head, paren(list(ts)))
}

// conflictFrom draws a from list with one contradiction.
func (g *G) conflictFrom() (string, []Tok) {
	a, _ := g.fromOperand()
	b, _ := g.fromOperand()
	jt := h.Pick(g.T, "join", joinTypes...).text
	et, _ := g.ExprN(2)
	ct, _ := nameList(g.names(g.length(2)))
	var toks []Tok
	kind := ""
	switch h.N(g.T, 6, "conflict") {
	case 0:
		kind = "join without condition"
		toks = cat(a, jt, b)
	case 1:
		kind = "join without condition"
		c, _ := g.fromOperand()
		toks = cat(a, jt, b, jt, c, "ON", et)
	case 2:
		kind = "cross join with condition"
		toks = cat(a, "CROSS JOIN", b, "ON", et)
	case 3:
		kind = "cross join with condition"
		toks = cat(a, "CROSS JOIN", b, "USING", paren(ct))
	case 4:
		kind = "join column twice"
		toks = cat(a, jt, b, "USING", paren(list(g.repeated(3))))
	case 5:
		kind = "derived table without alias"
		st, _ := g.subquery()
		toks = paren(st)
		if h.Chance(g.T, 50, "join") {
			toks = cat(toks, jt, b, "ON", et)
		}
	}
	if h.Chance(g.T, 30, "before") {
		x, _ := g.fromItem(false)
		toks = cat(x, punct(","), toks)
	}
	if h.Chance(g.T, 30, "after") {
		x, _ := g.fromItem(false)
		toks = cat(toks, punct(","), x)
	}
	for h.Chance(g.T, 20, "paren") {
		toks = paren(toks)
	}
	return kind, toks
}

// wrapQuery puts a query somewhere.
func (g *G) wrapQuery(toks []Tok) []Tok {
	sel := toks[0].Text == "SELECT"
	switch h.N(g.T, 7, "place") {
	case 0:
		if sel {
			return cat("EXPLAIN", toks)
		}
	case 1:
		n := g.name()
		return cat("SELECT", op("*"), "FROM", paren(toks), "AS", n.Tok)
	case 2:
		return cat("VALUES", paren(cat(num(1), punct(","), paren(toks))))
	case 3:
		tt, _ := g.tableName()
		return cat("DELETE FROM", tt, "WHERE EXISTS", paren(toks))
	case 4:
		tt, _ := g.tableName()
		n := g.name()
		return cat("UPDATE", tt, "SET", n.Tok, op("="), num(1), "WHERE", n.Tok, "IN", paren(toks))
	}
	return toks
}

// Conflict draws a statement that is well-formed but for one contradiction.
func (g *G) Conflict() (string, []Tok) {
	switch h.Weighted(g.T, "conflicting", 9, 6, 2, 1, 1, 1, 2, 1) {
	case 0:
		return g.conflictTable()
	case 1:
		kind, ft := g.conflictFrom()
		toks := cat("SELECT", op("*"), "FROM", ft)
		if h.Chance(g.T, 50, "where") {
			et, _ := g.ExprN(2)
			toks = cat(toks, "WHERE", et)
		}
		return kind, g.wrapQuery(toks)
	case 2:
		var rows [][]Tok
		n := g.length(3)
		m := n
		for m == n {
			m = max(1, n-3+h.N(g.T, 7, "other length"))
		}
		k := 1 + g.length(3)
		odd := h.N(g.T, k, "odd")
		for i := 0; i < k; i++ {
			var row [][]Tok
			l := n
			if i == odd {
				l = m
			}
			for j := 0; j < l; j++ {
				et, _ := g.ExprN(2)
				row = append(row, et)
			}
			rows = append(rows, paren(list(row)))
		}
		return "rows of different lengths", g.wrapQuery(cat("VALUES", list(rows)))
	case 3:
		tt, _ := g.tableName()
		return "insert column twice", cat("INSERT INTO", tt, paren(list(g.repeated(4))), "VALUES",
			paren([]Tok{num(1)}))
	case 4:
		tt, _ := g.tableName()
		return "copy column twice", cat("COPY", tt, paren(list(g.repeated(4))), "FROM",
			word(g, "stdin"))
	case 5:
		tt, _ := g.tableName()
		n := g.name()
		var cols [][]Tok
		for _, r := range g.repeated(4) {
			cols = append(cols, g.directed(r))
		}
		return "column twice in index", cat("CREATE INDEX", n.Tok, "ON", tt, paren(list(cols)))
	case 6:
		tt, _ := g.tableName()
		ft, _ := g.foreignKey(0)
		w := h.Pick(g.T, "on", "ON DELETE", "ON UPDATE")
		return "referential action twice", cat("ALTER TABLE", tt, "ADD", ft, w,
			h.Pick(g.T, "action", refActions...).text, w,
			h.Pick(g.T, "action", refActions...).text)
	case 7:
		tt, _ := g.tableName()
		ct, _ := nameList(g.names(g.length(3)))
		return "delimiter not one character", cat("COPY", tt, paren(ct), "FROM", word(g, "stdin"),
			"DELIMITER", h.Pick(g.T, "delimiter", Tok{Text: "''", Kind: Str},
				Tok{Text: "', '", Kind: Str}, Tok{Text: "'ab'", Kind: Str},
				Tok{Text: "'é'", Kind: Str}, Tok{Text: "e'\\t\\t'", Kind: Str},
				Tok{Text: "x'2c'", Kind: Str}, Tok{Text: "1", Kind: Num},
				Tok{Text: "comma", Kind: Word}, Tok{Text: ",", Kind: Punct}))
	}
	panic("never reached")
}
