package gen

import (
	"strings"

	"mahoverif/h"

	"pgregory.net/rapid"
)

// Bad is a malformed statement. Its first error is at token At, or, if At is the number of
// tokens, at the semicolon after it.
type Bad struct {
	Kind string
	Toks []Tok
	At   int
}

// BadStmt makes a malformed statement out of a well-formed one.
func BadStmt(t *rapid.T, s Stmt) Bad {
	toks := append([]Tok{}, s.Toks...)
	for {
		switch h.N(t, 8, "malformed") {
		case 0:
			return Bad{"trailing", append(toks, Tok{Text: ")", Kind: Punct}), len(toks)}
		case 1:
			first := h.Pick(t, "start", Tok{Text: "frobnicate", Kind: Word},
				Tok{Text: "12", Kind: Num}, Tok{Text: "'text'", Kind: Str},
				Tok{Text: "(", Kind: Punct}, Tok{Text: "WHERE", Kind: Kw},
				Tok{Text: "FROM", Kind: Kw}, Tok{Text: `"select"`, Kind: Quoted},
				Tok{Text: "DETACH", Kind: Kw})
			return Bad{"start", append([]Tok{first}, toks...), 0}
		case 2:
			// A character that is no token.
			i := h.N(t, len(toks)+1, "at")
			junk := Tok{Text: h.Pick(t, "junk", "#", "?", "~", "{", "}", "^", ":", "\\"), Kind: Op}
			toks = append(toks[:i:i], append([]Tok{junk}, toks[i:]...)...)
			return Bad{"junk", toks, i}
		case 3, 4:
			// End after a token that needs something after it.
			var ats []int
			for i, tok := range toks {
				if i > 0 && tok.Text == "(" && toks[i-1].Kind == Kw {
					switch toks[i-1].Text {
					case "EXISTS", "IN", "ANY", "SOME", "ALL":
						continue // what is missing is reported where the subquery begins
					}
				}
				if tok.Text == "," || tok.Text == "(" || tok.Text == "." ||
					(tok.Kind == Op && tok.Text != "*") {
					ats = append(ats, i)
				}
			}
			if len(ats) == 0 {
				continue
			}
			i := ats[h.N(t, len(ats), "at")]
			return Bad{"cut", toks[:i+1], i + 1}
		case 5:
			var ats []int
			for i, tok := range toks {
				if tok.Text == "," {
					ats = append(ats, i)
				}
			}
			if len(ats) == 0 {
				continue
			}
			i := ats[h.N(t, len(ats), "at")]
			toks = append(toks[:i:i], append([]Tok{{Text: ",", Kind: Punct}}, toks[i:]...)...)
			return Bad{"doubled", toks, i + 1}
		case 6:
			// Two statements without a semicolon.
			return Bad{"joined", append(toks, Tok{Text: "BEGIN", Kind: Kw}), len(toks)}
		case 7:
			// More errors on the way to the semicolon, and what would be a statement after them.
			b := BadStmt(t, s)
			for n := 1 + h.N(t, 2, "more errors"); n > 0; n-- {
				junk := Tok{Text: h.Pick(t, "junk", "#", "?", "~", "{", "}", "^", ":", "\\", "$0",
					"$"), Kind: Op}
				if junk.Text[0] == '$' {
					junk.Kind = Num
				}
				b.Toks = append(append(b.Toks[:len(b.Toks):len(b.Toks)], junk), s.Toks...)
			}
			b.Kind = "more errors"
			return b
		}
	}
}

var soupToks = func() []string {
	s := []string{";", ";", ";", "(", ")", "(", ")", ",", ".", "*", "@", "=", "==", "<", "<=", "<>",
		"!=", "||", "|", "&", "-", "+", "/", "%", ">>", "!", "$", "$1", "$0", "1", "0", "-1", "1.5",
		"9223372036854775807", "-9223372036854775808", "9223372036854775808", "'a'", "''", "e'\\n'",
		"b'x'", "x'00'", "x'0", "\"q\"", "[z]", "`y`", "'", "\"", "[", "--c\n", "/*c*/", "/*", "--",
		"#", "\\", "a", "b", "t", "text", "int", "varchar", "count", "stdin", "btree", "columns",
		"path", "tables", "e", "x", "NULL", "NOT", "AND", "OR", "IS", "IN", "\n", "é", "\x00",
		"SELECT * FROM t", "COPY t FROM STDIN", "CREATE TABLE t (a INT", "VALUES (1)", "\xff"}
	for _, w := range reservedNames {
		s = append(s, string(w))
	}
	return s
}()

// longTok draws a literal, name or comment, whole or not, that repeats one or two parts many times.
func longTok(t *rapid.T) string {
	part := func() string {
		return h.Pick(t, "part", "a", "0", "9", "é", "日", "\U0010ffff", "\x00", "\x80", "\xff", " ", "''", `\`,
			`\\`, `\x80`, `\200`, `\u0430`, "\n", ".", "_", "*", "-")
	}
	q := h.Pick(t, "quotes", "''", "e''", "e''", "b''", "b''", "x''", `""`, "[]", "``", "a ", "1 ", "1. ",
		"1e ", "$1 ", ". ", "- ", "/**/", "--\n")
	n := len(q) - 1
	if q == "/**/" {
		n = 2
	}
	s := q[:n] + strings.Repeat(part(), h.N(t, 200, "repeat"))
	if h.Chance(t, 30, "two parts") {
		s += strings.Repeat(part(), h.N(t, 80, "repeat"))
	}
	if h.Chance(t, 90, "close") {
		s += q[n:]
	}
	return s
}

var rawBytes = rapid.SliceOfN(rapid.Byte(), 0, 120)

// Fuzz draws any input at all.
func Fuzz(t *rapid.T) (string, string) {
	switch h.N(t, 6, "input") {
	case 0:
		return "bytes", string(rawBytes.Draw(t, "bytes"))
	case 1:
		return "characters", rapid.StringOfN(anyRune, 0, 100, -1).Draw(t, "text")
	case 2, 3:
		var toks []byte
		n := h.N(t, 60, "tokens")
		tight := h.Chance(t, 20, "tight")
		for i := 0; i < n; i++ {
			if h.Chance(t, 4, "long") {
				toks = append(toks, longTok(t)...)
			} else {
				toks = append(toks, h.Pick(t, "token", soupToks...)...)
			}
			if !tight && !h.Chance(t, 10, "join") {
				toks = append(toks, ' ')
			}
		}
		return "tokens", string(toks)
	}
	// Mutated statements.
	var text []byte
	for i, n := 0, 1+h.N(t, 3, "statements"); i < n; i++ {
		g := NewG(t, false)
		s := g.Stmt()
		toks := s.Toks
		if h.Chance(t, 10, "copy") {
			toks, _ = g.Copy()
		}
		for m := h.N(t, 3, "token mutations"); m > 0 && len(toks) > 0; m-- {
			i := h.N(t, len(toks), "at")
			j := h.N(t, len(toks), "with")
			toks = append([]Tok{}, toks...)
			switch h.N(t, 5, "mutation") {
			case 0:
				toks = append(toks[:i:i], toks[i+1:]...)
			case 1:
				toks = append(toks[:i:i], append([]Tok{toks[j]}, toks[i:]...)...)
			case 2:
				toks[i], toks[j] = toks[j], toks[i]
			case 3:
				toks[i] = Tok{Text: h.Pick(t, "token", soupToks...), Kind: Word}
				if h.Chance(t, 25, "long") {
					toks[i].Text = longTok(t)
				}
			case 4:
				toks = toks[:i]
			}
		}
		text = append(text, Text(t, toks, Layout{Comments: h.Chance(t, 30, "comments")})...)
		text = append(text, h.Pick(t, "end", ";", ";\n", "; ", "", "\n")...)
	}
	for m := h.N(t, 3, "byte mutations"); m > 0 && len(text) > 0; m-- {
		i := h.N(t, len(text), "at")
		switch h.N(t, 4, "mutation") {
		case 0:
			text = append(text[:i:i], text[i+1:]...)
		case 1:
			text[i] = h.Pick(t, "byte", byte('\''), '"', ';', '(', ')', '\\', '-', '/', '*', 0,
				'\n', '.', '1', 'e', 0xff, 0xc3)
		case 2:
			text = append(text[:i:i], append([]byte{text[h.N(t, len(text), "with")]}, text[i:]...)...)
		case 3:
			text = text[:i]
		}
	}
	return "mutated", string(text)
}

var opTexts = []string{"=", "==", "!=", "<>", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "&", "|",
	"||", "<<", ">>"}

// AnyOp draws an operator or a punctuation mark.
func AnyOp(t *rapid.T) Tok {
	if h.Chance(t, 40, "punctuation") {
		return Tok{Text: h.Pick(t, "punctuation", "(", ")", ",", ".", "@"), Kind: Punct}
	}
	return Tok{Text: h.Pick(t, "operator", opTexts...), Kind: Op}
}
