package gen

import (
	"slices"

	"mahoverif/h"
)

// DrawTok draws any token.
func (g *G) DrawTok() Tok {
	switch h.Weighted(g.T, "token", 8, 4, 3, 3, 4, 3, 2, 1) {
	case 0:
		return Tok{Text: h.Pick(g.T, "word", reservedNames...), Kind: Kw}
	case 1:
		return g.name().Tok
	case 2:
		return Tok{Text: h.Pick(g.T, "number", "0", "1", "7", "-1", "+2", "1.5", "-0.5", "+3.0",
			"9223372036854775807", "-9223372036854775808", "5000000000", "-9223372036854775807"),
			Kind: Num}
	case 3:
		return Tok{Text: h.Pick(g.T, "string", "'a'", "''", "','", "e'\\n'", "b'x'", "x'00'", "x''"),
			Kind: Str}
	case 4:
		return Tok{Text: h.Pick(g.T, "operator", opTexts...), Kind: Op}
	case 5:
		return Tok{Text: h.Pick(g.T, "punctuation", "(", ")", ",", ".", "@"), Kind: Punct}
	case 6:
		return Tok{Text: h.Pick(g.T, "known", "int", "varchar", "text", "double", "precision", "count",
			"btree", "columns", "constraints", "config", "databases", "schemas", "tables", "stdin", "path",
			"bool", "char", "system", "maho", "public", "info", "private"), Kind: Word}
	}
	return Tok{Text: h.Pick(g.T, "junk", "#", "?", "$1", "$0", "!", "{", "^", "\\"), Kind: Op}
}

var typeWords = []string{"DOUBLE", "REAL", "PRECISION", "FLOAT", "INT", "INTEGER", "BIGINT", "SMALLINT", "INT2",
	"CHAR", "CHARACTER", "VARCHAR", "TEXT", "VARYING", "BINARY", "BYTES", "BLOB", "BOOL", "BOOLEAN"}

// similar draws a token that often may stand where the token stands.
func (g *G) similar(t Tok) Tok {
	groups := [][]string{
		{"ASC", "DESC"}, {"TABLE", "DATABASE", "SCHEMA", "INDEX", "COLUMN"}, {"LEFT", "RIGHT", "FULL", "INNER", "CROSS", "OUTER", "JOIN"},
		{"ON", "USING", "WHERE", "HAVING", "FROM", "AS"}, {"ANY", "SOME", "ALL", "IN", "EXISTS"},
		{"CREATE", "DROP", "ALTER", "ADD"}, {"SELECT", "VALUES", "SHOW", "TABLE", "INSERT", "UPDATE", "DELETE"},
		{"NULL", "TRUE", "FALSE", "DEFAULT", "NOT"}, {"IS", "NOT", "IN", "AND", "OR"},
		{"CASCADE", "RESTRICT", "NO", "SET", "ACTION"}, {"PRIMARY", "UNIQUE", "FOREIGN", "KEY", "CHECK", "REFERENCES", "CONSTRAINT"},
		{"IF", "NOT", "EXISTS"}, {"TO", "BY", "INTO", "WITH", "SET"}, {"GROUP", "ORDER", "BY"},
		{"DELETE", "UPDATE"}, {"BEGIN", "COMMIT", "ROLLBACK", "START", "TRANSACTION"}, {"USE", "SET", "SHOW"},
		typeWords, typeWords[:4],
	}
	switch t.Kind {
	case Kw:
		var fit [][]string
		for _, gr := range groups {
			for _, w := range gr {
				if w == t.Text {
					fit = append(fit, gr)
				}
			}
		}
		if len(fit) > 0 {
			return Tok{Text: h.Pick(g.T, "word", h.Pick(g.T, "group", fit...)...), Kind: Kw}
		}
	case Op:
		return Tok{Text: h.Pick(g.T, "operator", opTexts...), Kind: Op}
	case Num, Str, Word, Quoted:
		switch h.N(g.T, 5, "similar") {
		case 0:
			return g.name().Tok
		case 4:
			if h.Chance(g.T, 30, "unreserved") {
				return Tok{Text: h.Pick(g.T, "name", unreservedNames...), Kind: Word}
			}
			return Tok{Text: h.Pick(g.T, "name", builtinNames...), Kind: Word}
		case 1:
			return Tok{Text: h.Pick(g.T, "number", "0", "-7", "+2", "1.5", "-0.5"), Kind: Num}
		case 2:
			return Tok{Text: h.Pick(g.T, "string", "'a'", "b'x'", "e''", "x'00'"), Kind: Str}
		case 3:
			return Tok{Text: h.Pick(g.T, "word", "NULL", "TRUE", "DEFAULT"), Kind: Kw}
		}
	}
	return g.DrawTok()
}

// at finds one of the tokens like this, if there are any.
func (g *G) at(toks []Tok, i int, like func(t Tok) bool) int {
	var at []int
	for j, t := range toks {
		if like(t) {
			at = append(at, j)
		}
	}
	if len(at) == 0 {
		return i
	}
	return h.Pick(g.T, "which", at...)
}

// Mutate changes the tokens of a statement in a few places.
func (g *G) Mutate(toks []Tok) []Tok {
	for n := 1 + h.Weighted(g.T, "mutations", 6, 3, 1); n > 0; n-- {
		toks = append([]Tok{}, toks...)
		if len(toks) == 0 {
			return append(toks, g.DrawTok())
		}
		i := h.N(g.T, len(toks), "at")
		if h.Chance(g.T, 30, "near the end") {
			i = len(toks) - 1 - h.N(g.T, min(4, len(toks)), "at")
		}
		switch h.Weighted(g.T, "mutation", 6, 3, 3, 5, 4, 3, 2, 2, 2, 2, 2, 2, 1) {
		case 0: // leave one out
			toks = append(toks[:i:i], toks[i+1:]...)
		case 1: // repeat one
			toks = append(toks[:i:i], append([]Tok{toks[i]}, toks[i:]...)...)
		case 2: // exchange neighbours
			if i+1 < len(toks) {
				toks[i], toks[i+1] = toks[i+1], toks[i]
			}
		case 3:
			toks[i] = g.similar(toks[i])
		case 4: // insert one
			t := g.DrawTok()
			if h.Chance(g.T, 40, "similar") {
				t = g.similar(toks[i])
			}
			toks = append(toks[:i:i], append([]Tok{t}, toks[i:]...)...)
		case 5: // replace some by some of another statement
			s := g.Stmt().Toks
			a := h.N(g.T, len(s), "from")
			b := a + 1 + h.N(g.T, min(6, len(s)-a), "length")
			e := min(len(toks), i+h.N(g.T, 4, "replaced"))
			toks = append(append(toks[:i:i], s[a:b]...), toks[e:]...)
		case 6: // end early
			toks = toks[:i]
		case 7: // leave some out
			e := min(len(toks), i+2+h.N(g.T, 5, "left out"))
			toks = append(toks[:i:i], toks[e:]...)
		case 8: // the end of one statement after the beginning of another
			s := g.Stmt().Toks
			toks = append(toks[:i:i], s[h.N(g.T, len(s), "rest"):]...)
		case 10: // one more or less in a list
			i = g.at(toks, i, func(t Tok) bool { return t.Kind == Punct })
			after := h.N(g.T, 2, "after")
			t := []Tok{{Text: ",", Kind: Punct}}
			if h.Chance(g.T, 50, "element") {
				j := h.N(g.T, len(toks), "element")
				t = append(t, toks[j])
				if after == 0 {
					t[0], t[1] = t[1], t[0]
				}
			}
			toks = append(toks[:i+after:i+after], append(t, toks[i+after:]...)...)
		case 11: // a longer or shorter name
			i = g.at(toks, i, func(t Tok) bool { return t.Kind == Word || t.Kind == Quoted || t.Text == "." })
			if i+1 < len(toks) && toks[i].Text == "." && h.Chance(g.T, 40, "shorter") {
				toks = append(toks[:i:i], toks[i+2:]...)
				break
			}
			t := []Tok{{Text: ".", Kind: Punct}, g.name().Tok}
			for n := h.N(g.T, 3, "more"); n > 0; n-- {
				t = append(t, Tok{Text: ".", Kind: Punct}, g.name().Tok)
			}
			toks = append(toks[:i+1:i+1], append(t, toks[i+1:]...)...)
			if h.Chance(g.T, 30, "known") {
				toks[i] = Tok{Text: h.Pick(g.T, "name", builtinNames...), Kind: Word}
			}
		case 12: // a whole statement where another, or something else, is
			i = g.at(toks, i, func(t Tok) bool { return t.Kind == Kw })
			toks = append(toks[:i:i], g.Stmt().Toks...)
		case 9: // something about a type
			var at []int
			for j, t := range toks {
				if t.Kind == Kw && slices.Contains(typeWords, t.Text) {
					at = append(at, j)
				}
			}
			if len(at) == 0 {
				toks[i] = g.similar(toks[i])
				break
			}
			i = at[h.N(g.T, len(at), "type")]
			t := kw(h.Pick(g.T, "type", typeWords...))
			switch h.N(g.T, 4, "change") {
			case 0:
				toks[i] = t[0]
			case 1:
				toks = append(toks[:i:i], append(t, toks[i:]...)...)
			case 2:
				toks = append(toks[:i+1:i+1], append(t, toks[i+1:]...)...)
			case 3:
				n := paren([]Tok{num(int64(h.N(g.T, 10, "length")))})
				toks = append(toks[:i+1:i+1], append(n, toks[i+1:]...)...)
			}
		}
	}
	return toks
}
