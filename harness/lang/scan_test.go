package lang

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"runtime/debug"
	"strings"
	"testing"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/scanner"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"

	"mahoverif/gen"
	"mahoverif/h"
	"mahoverif/ref"

	"pgregory.net/rapid"
)

// lexeme is a token as written and as it should be scanned.
type lexeme struct {
	tok   gen.Tok
	token rune
	id    types.Identifier
	str   string
	byts  []byte
	i     int64
	f     float64
}

func drawLexeme(t *rapid.T) lexeme {
	g := gen.NewG(t, false)
	if h.Chance(t, 10, "long") {
		repeat := 300
		if h.Chance(t, 15, "very long") {
			repeat = 20000
		}
		s := strings.Repeat(h.Pick(t, "part", "a", "xyz", "é", "''", "\n"), 1+h.N(t, repeat, "repeat"))
		if h.Chance(t, 50, "bytes") {
			return lexeme{tok: gen.Tok{Text: "b'" + s + "'", Kind: gen.Str}, token: token.Bytes,
				byts: []byte(strings.ReplaceAll(s, "''", "'"))}
		}
		return lexeme{tok: gen.Tok{Text: "'" + s + "'", Kind: gen.Str}, token: token.String,
			str: strings.ReplaceAll(s, "''", "'")}
	}
	switch h.N(t, 8, "lexeme") {
	case 0, 1, 2, 3, 4:
		for {
			toks, e := g.Literal()
			l := lexeme{tok: toks[0]}
			switch v := e.(sql.Literal).Value.(type) {
			case types.StringValue:
				l.token, l.str = token.String, string(v)
			case types.BytesValue:
				l.token, l.byts = token.Bytes, []byte(v)
			case types.Int64Value:
				l.token, l.i = token.Integer, int64(v)
			case types.Float64Value:
				l.token, l.f = token.Float, float64(v)
			default:
				continue
			}
			return l
		}
	case 5, 6:
		if h.Chance(t, 10, "within quotes") {
			// Anything but the closing quote, or nothing.
			q := h.Pick(t, "quotes", `""`, "``", "[]")
			s := strings.ReplaceAll(rapid.StringOfN(rapid.SampledFrom([]rune("aB\"`[]'\n\t;é\x00-/*\\")),
				0, 4, -1).Draw(t, "name"), q[1:], "")
			return lexeme{tok: gen.Tok{Text: q[:1] + s + q[1:], Kind: gen.Quoted}, token: token.Identifier,
				id: types.ID(s, true)}
		}
		n := gen.AnyName(t, false)
		return lexeme{tok: n.Tok, token: token.Identifier, id: n.ID}
	}
	if h.Chance(t, 50, "keyword") {
		w, id := gen.Reserved(t)
		return lexeme{tok: gen.Tok{Text: w, Kind: gen.Kw}, token: token.Reserved, id: id}
	}
	i := int64(1 + h.N(t, 1000, "parameter"))
	if h.Chance(t, 30, "large parameter") {
		i = rapid.Int64Range(1, math.MaxInt64).Draw(t, "large")
	}
	s := strings.Repeat("0", h.Pick(t, "zeros", 0, 0, 0, 0, 1, 2, 30)) + fmt.Sprint(i)
	return lexeme{tok: gen.Tok{Text: "$" + s, Kind: gen.Num}, token: token.Parameter,
		i: i}
}

// apart puts something between strings which would become one string when written on two lines,
// and keeps numbers away from the signs before them.
func apart(toks []gen.Tok) []gen.Tok {
	var r []gen.Tok
	for i, tok := range toks {
		if i > 0 && tok.Kind == gen.Str && tok.Text[0] == '\'' && toks[i-1].Kind == gen.Str {
			r = append(r, gen.Tok{Text: ",", Kind: gen.Punct})
		}
		if tok.Text == "-" || tok.Text == "+" {
			tok.Prefix = true
		}
		r = append(r, tok)
	}
	return r
}

type scanned struct {
	token rune
	err   error
	id    types.Identifier
	str   string
	byts  []byte
	i     int64
	f     float64
	pos   scanner.Position
}

// scanAll scans with one context, as the parser does, and keeps what it got.
func scanAll(text string, max int) ([]scanned, bool) {
	var s scanner.Scanner
	s.Init(strings.NewReader(text), "file")
	var sctx scanner.ScanCtx
	var toks []scanned
	for len(toks) <= max {
		s.Scan(&sctx)
		toks = append(toks, scanned{sctx.Token, nil, sctx.Identifier, sctx.String, sctx.Bytes,
			sctx.Integer, sctx.Float, sctx.Position})
		if sctx.Token == token.Error {
			toks[len(toks)-1].err = sctx.Error
		}
		if sctx.Token == token.EOF {
			return toks, true
		}
	}
	return toks, false
}

func checkLexeme(rt *rapid.T, text string, i int, want lexeme, got scanned) {
	fail := func(g, w any) {
		rt.Fatalf("token %d %q: got %v, want %v (error %v)\ntext: %q", i, want.tok.Text, g, w,
			got.err, text)
	}
	if got.token != want.token {
		fail(token.Format(got.token), token.Format(want.token))
	}
	switch want.token {
	case token.Identifier, token.Reserved:
		if got.id != want.id {
			fail(fmt.Sprintf("%q #%d", got.id, got.id), fmt.Sprintf("%q #%d", want.id, want.id))
		}
	case token.String:
		if got.str != want.str {
			fail(fmt.Sprintf("%q", got.str), fmt.Sprintf("%q", want.str))
		}
	case token.Bytes:
		if !bytes.Equal(got.byts, want.byts) {
			fail(fmt.Sprintf("%q", got.byts), fmt.Sprintf("%q", want.byts))
		}
	case token.Integer, token.Parameter:
		if got.i != want.i {
			fail(got.i, want.i)
		}
	case token.Float:
		if math.Float64bits(got.f) != math.Float64bits(want.f) {
			fail(got.f, want.f)
		}
	}
}

func TestP04(t *testing.T) {
	t.Run("tokens", func(t *testing.T) {
		h.Check(t, 4000, func(rt *rapid.T, c *h.Case) {
			n := 1 + h.N(rt, 8, "tokens")
			var ls []lexeme
			var toks []gen.Tok
			for i := 0; i < n; i++ {
				l := drawLexeme(rt)
				if i > 0 && l.tok.Kind == gen.Str && l.tok.Text[0] == '\'' &&
					toks[len(toks)-1].Kind == gen.Str {
					comma := gen.Tok{Text: ",", Kind: gen.Punct}
					ls = append(ls, lexeme{tok: comma, token: token.Comma})
					toks = append(toks, comma)
				}
				ls = append(ls, l)
				toks = append(toks, l.tok)
				c.Label(token.Format(l.token))
			}
			n = len(toks)
			text := gen.Text(rt, toks, gen.Layout{Comments: h.Chance(rt, 50, "comments"),
				Tight: h.Chance(rt, 30, "tight")})
			c.Note("%q", text)
			c.NonTrivial("%s", text)
			got, _ := scanAll(text, n+1)
			if len(got) != n+1 {
				rt.Fatalf("got %d tokens, want %d\ntext: %q", len(got)-1, n, text)
			}
			// Only now: later tokens must not have changed earlier ones.
			for i := range ls {
				checkLexeme(rt, text, i, ls[i], got[i])
			}
		})
	})
	t.Run("statements", func(t *testing.T) {
		h.Check(t, 2000, func(rt *rapid.T, c *h.Case) {
			// What was parsed does not change while more is parsed.
			n := 1 + h.N(rt, 5, "statements")
			w := gen.NewWriter()
			var want []sql.Stmt
			for i := 0; i < n; i++ {
				g := gen.NewG(rt, false)
				var toks []gen.Tok
				var row []sql.Expr
				for j := 0; j <= h.N(rt, 4, "values"); j++ {
					if j > 0 {
						toks = append(toks, gen.Tok{Text: ",", Kind: gen.Punct})
					}
					lt, e := g.Literal()
					toks = append(toks, lt...)
					row = append(row, e)
				}
				toks = append([]gen.Tok{{Text: "VALUES", Kind: gen.Kw}, {Text: "(", Kind: gen.Punct}},
					append(toks, gen.Tok{Text: ")", Kind: gen.Punct})...)
				w.Tokens(rt, toks, gen.Layout{Tight: h.Chance(rt, 50, "tight")})
				w.Write(";")
				want = append(want, &sql.Values{Expressions: [][]sql.Expr{row}})
			}
			text := w.String()
			c.Note("%q", text)
			c.NonTrivial("%s", text)
			p := parser.NewParser(strings.NewReader(text), "test")
			var got []sql.Stmt
			for i := 0; i < n; i++ {
				s, err := p.Parse()
				if err != nil {
					rt.Fatalf("statement %d: %s\ntext: %q", i, err, text)
				}
				got = append(got, s)
			}
			if s, err := p.Parse(); err != io.EOF {
				rt.Fatalf("at the end: got %v, %v\ntext: %q", s, err, text)
			}
			for i := range want {
				if g, w := gen.Dump(got[i]), gen.Dump(want[i]); g != w {
					rt.Fatalf("statement %d\ntext: %q\ngot:  %s\nwant: %s", i, text, g, w)
				}
			}
		})
	})
	t.Run("invalid", func(t *testing.T) {
		h.Check(t, 1500, func(rt *rapid.T, c *h.Case) {
			bad := gen.BadLiteral(rt)
			c.Note("%q", bad)
			c.NonTrivial("%s", bad)
			l := drawLexeme(rt)
			text := l.tok.Text + " , " + bad + " "
			got, _ := scanAll(text, 30)
			if len(got) < 3 || got[2].token != token.Error || got[2].err == nil {
				rt.Fatalf("%q is accepted: %+v", bad, got[2])
			}
			text = "VALUES (" + bad + ")"
			s, err := parser.NewParser(strings.NewReader(text), "test").Parse()
			if err == nil || err == io.EOF {
				rt.Fatalf("%q is accepted: %v, %v", text, s, err)
			}
		})
	})
}

func TestP05(t *testing.T) {
	t.Run("statements", func(t *testing.T) {
		h.Check(t, 4000, func(rt *rapid.T, c *h.Case) {
			g := gen.NewG(rt, false)
			var toks []gen.Tok
			malformed := h.Chance(rt, 20, "malformed")
			if malformed {
				if h.Chance(rt, 50, "conflict") {
					_, toks = g.Conflict()
				} else {
					toks = gen.BadStmt(rt, g.Stmt()).Toks
				}
				c.Label("malformed")
			} else {
				s := g.Stmt()
				toks = s.Toks
				c.Label(s.Kind)
			}
			a := gen.Text(rt, toks, gen.Layout{})
			lay := gen.Layout{Comments: h.Chance(rt, 60, "comments"), Tight: h.Chance(rt, 40, "tight"),
				Case: h.Chance(rt, 70, "case")}
			b := gen.Text(rt, toks, lay)
			if lay.Comments && h.Chance(rt, 50, "around") {
				b = "/* before */ -- and\n" + b + " -- after"
			}
			c.Note("%s\n%s", a, b)
			c.NonTrivial("%s", b)
			sa, ea := parseOne(a)
			sb, eb := parseOne(b)
			if (ea == nil) != (eb == nil) {
				rt.Fatalf("one layout is accepted, the other is not\n%q: %v\n%q: %v", a, ea, b, eb)
			}
			if ea != nil {
				return
			}
			if da, db := gen.Dump(sa), gen.Dump(sb); da != db {
				rt.Fatalf("two layouts differ\n%q: %s\n%q: %s", a, da, b, db)
			}
		})
	})
	t.Run("tokens", func(t *testing.T) {
		h.Check(t, 3000, func(rt *rapid.T, c *h.Case) {
			n := 2 + h.N(rt, 8, "tokens")
			var toks []gen.Tok
			for i := 0; i < n; i++ {
				if h.Chance(rt, 40, "operator") {
					toks = append(toks, gen.AnyOp(rt))
				} else {
					toks = append(toks, drawLexeme(rt).tok)
				}
			}
			toks = apart(toks)
			n = len(toks)
			a := gen.Text(rt, toks, gen.Layout{})
			b := gen.Text(rt, toks, gen.Layout{Comments: h.Chance(rt, 50, "comments"),
				Tight: h.Chance(rt, 70, "tight"), Case: h.Chance(rt, 50, "case")})
			c.Note("%q\n%q", a, b)
			c.NonTrivial("%s", b)
			ga, _ := scanAll(a, n+1)
			gb, _ := scanAll(b, n+1)
			if len(ga) != n+1 || len(gb) != n+1 {
				rt.Fatalf("%q: %d tokens; %q: %d tokens; want %d", a, len(ga)-1, b, len(gb)-1, n)
			}
			for i := range toks {
				x, y := ga[i], gb[i]
				ok := x.token == y.token
				switch x.token {
				case token.Identifier, token.Reserved:
					ok = ok && x.id == y.id
				case token.String:
					ok = ok && x.str == y.str
				case token.Bytes:
					ok = ok && bytes.Equal(x.byts, y.byts)
				case token.Integer, token.Parameter:
					ok = ok && x.i == y.i
				case token.Float:
					ok = ok && math.Float64bits(x.f) == math.Float64bits(y.f)
				}
				if !ok {
					rt.Fatalf("token %d %q differs\n%q: %+v\n%q: %+v", i, toks[i].Text, a, x, b, y)
				}
			}
		})
	})
}

func TestP06(t *testing.T) {
	t.Run("texts", func(t *testing.T) {
		h.CheckTimed(t, 8000, 30, func(rt *rapid.T, c *h.Case) {
			kind, text := "", ""
			if h.Chance(rt, 2, "deep") {
				kind = "deep"
				open := h.Pick(rt, "open", "(", "NOT ", "- ", "f(", "a + (", "((SELECT ", "a = (", "a ||",
					"a AND NOT ", "SELECT * FROM (", "a IN (SELECT ", "EXISTS (VALUES (")
				n := 1 + h.N(rt, 1500, "depth")
				text = h.Pick(rt, "start", "VALUES (", "SELECT ", "SELECT * FROM ", "SELECT * FROM t WHERE ") +
					strings.Repeat(open, n) + h.Pick(rt, "middle", "a", "1", "", "*") +
					strings.Repeat(")", h.Pick(rt, "close", 0, n, n+1, 2*n+1))
			} else {
				kind, text = gen.Fuzz(rt)
			}
			c.Label(kind)
			c.Note("%q", text)
			if len(text) > 3 {
				c.NonTrivial("%s: %q", kind, text)
			}

			max := len(text) + 3
			p := parser.NewParser(strings.NewReader(text), "test")
			ended := false
			good, bad := 0, 0
			for i := 0; i < max; i++ {
				s, err := p.Parse()
				if err == io.EOF {
					if s != nil {
						rt.Fatalf("statement %v together with the end\ntext: %q", s, text)
					}
					ended = true
					break
				}
				if err != nil {
					bad++
					if s != nil {
						rt.Fatalf("statement %v together with error %v\ntext: %q", s, err, text)
					}
					if err.Error() == "" {
						rt.Fatalf("empty error\ntext: %q", text)
					}
					continue
				}
				if s == nil {
					continue
				}
				good++
				if s.String() == "" {
					rt.Fatalf("statement without text: %#v\ntext: %q", s, text)
				}
				if cp, ok := s.(*sql.Copy); ok {
					c.Label("COPY read")
					for n := h.N(rt, 40, "read"); n > 0; n-- {
						if _, _, err := cp.From.ReadRune(); err != nil {
							break
						}
					}
				}
			}
			if !ended {
				rt.Fatalf("no end after %d results\ntext: %q", max, text)
			}
			c.LabelIf(good > 0, "some statement accepted")
			c.LabelIf(bad > 0, "some statement rejected")
			for i := 0; i < 3; i++ {
				if s, err := p.Parse(); s != nil || err != io.EOF {
					rt.Fatalf("after the end: got %v, %v\ntext: %q", s, err, text)
				}
			}

			e, err := parser.NewParser(strings.NewReader(text), "test").ParseExpr()
			if (e == nil) == (err == nil) {
				rt.Fatalf("expression %v and error %v\ntext: %q", e, err, text)
			}
			if e != nil {
				_ = e.String()
			}

			toks, ok := scanAll(text, max)
			if !ok {
				rt.Fatalf("scanner: no end after %d tokens\ntext: %q", max, text)
			}
			for _, tok := range toks {
				if tok.token == token.Error && tok.err == nil {
					rt.Fatalf("scanner: error token without error\ntext: %q", text)
				}
			}
		})
	})
	t.Run("long", testLong)
}

// testLong parses millions of levels of nesting, or operands of operators, which no stack has room for.
func testLong(t *testing.T) {
	defer debug.SetMaxStack(debug.SetMaxStack(1000000000)) // as it is in maho

	h.CheckTimed(t, 4, 120, func(rt *rapid.T, c *h.Case) {
		exprs := [][2]string{{"(", ")"}, {"f(", ")"}, {"- ", ""}, {"NOT ", ""}, {"1 +", ""}, {"a OR ", ""},
			{"a=", ""}, {"f(1,", ")"}, {"f(", ",1)"}, {"(SELECT ", ")"}, {"a IN (SELECT ", ")"},
			{"EXISTS (VALUES (", "))"}, {"a = ANY (SELECT ", ")"}, {"(", "+1)"}, {"", " IS NULL"},
			{"", "*2"}, {"", " IN (SELECT b)"}, {"(SELECT ", ", a)"}, {"(SELECT a FROM b WHERE ", ")"},
			{"(SELECT a FROM b JOIN c ON ", ")"}, {"(", ") AND a"}}
		froms := [][2]string{{"(", ")"}, {"(SELECT * FROM ", ") AS a"}, {"a, ", ""}, {"", ", a"},
			{"", " JOIN a ON b"}, {"", " CROSS JOIN a"}, {"(", ", b)"}, {"", " JOIN b USING (c)"}}
		parts, starts := exprs, []string{"SELECT ", "VALUES (1, ", "SELECT * FROM t WHERE ",
			"INSERT INTO t VALUES (", "UPDATE t SET a = ", "DELETE FROM t WHERE "}
		if h.Chance(rt, 30, "from") {
			parts, starts = froms, []string{"SELECT * FROM ", "SELECT a FROM "}
		}
		start := h.Pick(rt, "start", starts...)
		before, after := "", ""
		for n := h.Pick(rt, "parts", 1, 1, 1, 2, 3); n > 0; n-- {
			p := parts[h.N(rt, len(parts), "part")]
			before, after = before+p[0], p[1]+after
		}
		n := (12 + h.N(rt, 20, "size")) << 20 / (len(before) + len(after))
		// The end need not be there: what is too deep must be noticed on the way down.
		m := h.Pick(rt, "end", n, n, 0, n/2)
		c.Note("%q, %d times %q, a, %d times %q", start, n, before, m, after)
		c.NonTrivial("%q, %d times %q, a, %d times %q", start, n, before, m, after)
		text := start + strings.Repeat(before, n) + "a" + strings.Repeat(after, m)
		if strings.HasPrefix(start, "VALUES") || strings.HasPrefix(start, "INSERT") {
			text += ")"
		}
		text += ";VALUES (7)"
		p := parser.NewParser(strings.NewReader(text), "test")
		s, err := p.Parse()
		if (s == nil) == (err == nil) || err == io.EOF {
			rt.Fatalf("got %v, %v", s != nil, err)
		}
		c.LabelIf(s != nil, "accepted")
		c.LabelIf(err != nil, "refused")
		// Unless constants were open at the end, the statement after it is read.
		s, err = p.Parse()
		if err != nil || gen.Dump(s) != gen.Dump(&sql.Values{
			Expressions: [][]sql.Expr{{&sql.Literal{Value: types.Int64Value(7)}}}}) {
			rt.Fatalf("after it: got %v, %v", s, err)
		}
		if s, err := p.Parse(); s != nil || err != io.EOF {
			rt.Fatalf("at the end: got %v, %v", s, err)
		}
	})
}

func TestP08(t *testing.T) {
	t.Run("tokens", func(t *testing.T) {
		h.Check(t, 3000, func(rt *rapid.T, c *h.Case) {
			n := 1 + h.N(rt, 8, "tokens")
			var toks []gen.Tok
			bad := -1
			for i := 0; i < n; i++ {
				switch h.N(rt, 6, "token") {
				case 0:
					toks = append(toks, gen.AnyOp(rt))
				case 1:
					toks = append(toks, gen.Tok{Text: ";", Kind: gen.Punct})
				default:
					toks = append(toks, drawLexeme(rt).tok)
				}
			}
			toks = apart(toks)
			n = len(toks)
			if h.Chance(rt, 30, "bad") {
				// Nothing after a bad token is certain.
				toks = append(toks, gen.Tok{Text: gen.BadLiteral(rt), Kind: gen.Num})
				bad = n
				n++
			}
			lay := gen.Layout{Comments: h.Chance(rt, 60, "comments"), Tight: h.Chance(rt, 30, "tight")}
			w := gen.NewWriter()
			if h.Chance(rt, 50, "before") {
				w.Space(rt, lay)
			}
			pos := w.Tokens(rt, toks, lay)
			text := w.String()
			c.Note("%q", text)
			c.NonTrivial("%s", text)
			got, _ := scanAll(text, n+40)
			if len(got) < n {
				rt.Fatalf("got %d tokens, want %d\ntext: %q", len(got)-1, n, text)
			}
			for i := range toks {
				want := scanner.Position{Filename: "file", Line: pos[i].Line, Column: pos[i].Col}
				if got[i].pos != want {
					rt.Fatalf("token %d %q: at %s, want %s\ntext: %q", i, toks[i].Text, got[i].pos, want,
						text)
				}
				if (i == bad) != (got[i].token == token.Error) {
					rt.Fatalf("token %d %q: error %v\ntext: %q", i, toks[i].Text, got[i].err, text)
				}
			}
		})
	})
	t.Run("errors", func(t *testing.T) {
		h.Check(t, 3000, func(rt *rapid.T, c *h.Case) {
			lay := gen.Layout{Comments: h.Chance(rt, 60, "comments"), Tight: h.Chance(rt, 30, "tight"),
				Case: h.Chance(rt, 30, "case")}
			w := gen.NewWriter()
			before := h.N(rt, 3, "before")
			for i := 0; i < before; i++ {
				w.Tokens(rt, gen.NewG(rt, false).Stmt().Toks, lay)
				w.Write(";")
				w.Space(rt, gen.Layout{Comments: lay.Comments})
			}
			bad := gen.BadStmt(rt, gen.NewG(rt, false).Stmt())
			pos := w.Tokens(rt, bad.Toks, lay)
			w.Space(rt, gen.Layout{Comments: lay.Comments})
			pos = append(pos, w.Pos())
			w.Write(";")
			text := w.String()
			c.Label(bad.Kind)
			c.Note("%q", text)
			c.NonTrivial("%s", text)

			p := parser.NewParser(strings.NewReader(text), "file.sql")
			for i := 0; i < before; i++ {
				if _, err := p.Parse(); err != nil {
					rt.Fatalf("statement %d: %s\ntext: %q", i, err, text)
				}
			}
			_, err := p.Parse()
			if err == nil || err == io.EOF {
				rt.Fatalf("malformed statement (%s) gives %v\ntext: %q", bad.Kind, err, text)
			}
			want := fmt.Sprintf("file.sql:%d:%d:", pos[bad.At].Line, pos[bad.At].Col)
			if !strings.Contains(err.Error(), want) {
				rt.Fatalf("malformed statement (%s): got %q, want position %s\ntext: %q", bad.Kind, err,
					want, text)
			}
		})
	})
	t.Run("refused", func(t *testing.T) {
		h.Check(t, 3000, func(rt *rapid.T, c *h.Case) {
			g := gen.NewG(rt, h.Chance(rt, 60, "plain"))
			g.Size = h.Pick(rt, "size", 3, 8, 20)
			toks := apart(g.Mutate(g.Stmt().Toks))
			want := ref.Parse(toks)
			if want.Refused == "" || want.Loose || !plainRefusal(want.Refused) {
				c.Label("elsewhere")
				return
			}
			if i := want.At; i+1 < len(toks) && toks[i].Kind == gen.Kw && ref.Junk(toks[i+1]) {
				// NOT may be the first word of NOT IN; both tokens are wrong.
				c.Label("two")
				return
			}
			lay := gen.Layout{Comments: h.Chance(rt, 60, "comments"), Case: h.Chance(rt, 30, "case")}
			w := gen.NewWriter()
			before := h.N(rt, 2, "before")
			for i := 0; i < before; i++ {
				w.Tokens(rt, gen.NewG(rt, true).Stmt().Toks, lay)
				w.Write(";")
				w.Space(rt, gen.Layout{Comments: lay.Comments})
			}
			var pos []gen.Pos
			for _, tok := range toks {
				pos = append(pos, w.Tokens(rt, []gen.Tok{tok}, lay)...)
				w.Write(" ")
				w.Space(rt, lay)
			}
			pos = append(pos, w.Pos())
			w.Write(";")
			text := w.String()
			c.Label(want.Refused)
			c.Note("%q", text)
			c.NonTrivial("%s", text)
			p := parser.NewParser(strings.NewReader(text), "file.sql")
			for i := 0; i < before; i++ {
				if _, err := p.Parse(); err != nil {
					rt.Fatalf("statement %d: %s\ntext: %q", i, err, text)
				}
			}
			_, err := p.Parse()
			if err == nil || err == io.EOF {
				rt.Fatalf("%q\ngives %v, want an error: %s", text, err, want.Refused)
			}
			at := fmt.Sprintf("file.sql:%d:%d:", pos[want.At].Line, pos[want.At].Col)
			if !strings.Contains(err.Error(), at) {
				rt.Fatalf("%q\ngot %q, want position %s (%s)", text, err, at, want.Refused)
			}
		})
	})
	t.Run("near", func(t *testing.T) {
		// Every token there is, at one place of a statement.
		h.Check(t, 100, func(rt *rapid.T, c *h.Case) {
			g := gen.NewG(rt, true)
			g.Size = h.Pick(rt, "size", 2, 5, 12)
			for _, toks := range g.Near() {
				toks = apart(toks)
				want := ref.Parse(toks)
				if want.Refused == "" || want.Loose || !plainRefusal(want.Refused) {
					continue
				}
				if i := want.At; i+1 < len(toks) && toks[i].Kind == gen.Kw && ref.Junk(toks[i+1]) {
					continue
				}
				w := gen.NewWriter()
				var pos []gen.Pos
				for _, tok := range toks {
					pos = append(pos, w.Pos())
					w.Write(tok.Text + " ")
				}
				pos = append(pos, w.Pos())
				w.Write(";")
				text := w.String()
				c.Label(want.Refused)
				c.Renote("%q", text)
				c.NonTrivial("%s", text)
				_, err := parser.NewParser(strings.NewReader(text), "file.sql").Parse()
				if err == nil || err == io.EOF {
					rt.Fatalf("%q\ngives %v, want an error: %s", text, err, want.Refused)
				}
				at := fmt.Sprintf("file.sql:%d:%d:", pos[want.At].Line, pos[want.At].Col)
				if !strings.Contains(err.Error(), at) {
					rt.Fatalf("%q\ngot %q, want position %s (%s)", text, err, at, want.Refused)
				}
			}
		})
	})
}

// plainRefusal tells whether a statement is refused because one token is not what has to be there,
// so that this token is the offending one; contradictions concern more than one.
func plainRefusal(why string) bool {
	switch why {
	case "end", "expression":
		return true
	case "keyword USING", "keyword NO":
		return false
	}
	return strings.HasPrefix(why, "symbol ") || strings.HasPrefix(why, "keyword ")
}
