package lang

import (
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"

	"mahoverif/gen"
	"mahoverif/h"

	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	h.Main(m)
}

// parseOne parses a text that holds one statement.
func parseOne(text string) (sql.Stmt, error) {
	p := parser.NewParser(strings.NewReader(text), "test")
	stmt, err := p.Parse()
	if err != nil {
		return nil, err
	}
	rest, err := p.Parse()
	if err != io.EOF || rest != nil {
		return stmt, fmt.Errorf("after the statement: got %v, %v; want the end", rest, err)
	}
	return stmt, nil
}

func layout(t *rapid.T) gen.Layout {
	return gen.Layout{
		Comments: h.Chance(t, 40, "comments"),
		Tight:    h.Chance(t, 30, "tight"),
		Case:     h.Chance(t, 40, "case"),
	}
}

func checkOne(rt *rapid.T, c *h.Case, text string, want sql.Stmt) {
	c.Note("%s", text)
	got, err := parseOne(text)
	if err != nil {
		rt.Fatalf("parse failed: %s\ntext: %s", err, text)
	}
	if g, w := gen.Dump(got), gen.Dump(want); g != w {
		rt.Fatalf("wrong statement\ntext: %s\ngot:  %s\nwant: %s", text, g, w)
	}
}

func TestP01(t *testing.T) {
	t.Run("nested", func(t *testing.T) {
		h.Check(t, 3000, func(rt *rapid.T, c *h.Case) {
			g := gen.NewG(rt, false)
			toks, want := g.Expr()
			c.LabelIf(len(toks) > 10, "more than 10 tokens")
			checkExpr(rt, c, gen.Text(rt, toks, layout(rt)), want)
			if _, ok := want.(*sql.BinaryExpr); ok && len(toks) > 4 {
				c.NonTrivial("%s", gen.Simple(toks))
			}
		})
	})
	t.Run("flat", func(t *testing.T) {
		h.Check(t, 2500, func(rt *rapid.T, c *h.Case) {
			g := gen.NewG(rt, false)
			n := 2 + h.N(rt, 12, "operands")
			if h.Chance(rt, 2, "long") {
				n = 200 + h.N(rt, 400, "operands")
				c.Label("hundreds of operands")
			}
			toks, want := g.FlatExpr(n)
			checkExpr(rt, c, gen.Simple(toks), want)
			if n > 2 {
				c.NonTrivial("%s", gen.Simple(toks))
			}
		})
	})
	t.Run("places", func(t *testing.T) {
		h.Check(t, 1200, func(rt *rapid.T, c *h.Case) {
			g := gen.NewG(rt, false)
			toks, want := g.ExprN(8)
			lay := layout(rt)
			text := gen.Text(rt, toks, lay)
			c.NonTrivial("%s", text)
			place := h.N(rt, 8, "place")
			c.Label(fmt.Sprintf("place %d", place))
			var pre, post string
			var pick func(sql.Stmt) sql.Expr
			switch place {
			case 0:
				pre, post = "VALUES (1, ", ", 2)"
				pick = func(s sql.Stmt) sql.Expr { return s.(*sql.Values).Expressions[0][1] }
			case 1:
				pre, post = "SELECT a, ", " AS c FROM t"
				pick = func(s sql.Stmt) sql.Expr {
					return s.(*sql.Select).Results[1].(sql.ExprResult).Expr
				}
			case 2:
				pre, post = "SELECT * FROM t WHERE ", " GROUP BY a"
				pick = func(s sql.Stmt) sql.Expr { return s.(*sql.Select).Where }
			case 3:
				pre, post = "SELECT * FROM t GROUP BY a HAVING ", " ORDER BY a"
				pick = func(s sql.Stmt) sql.Expr { return s.(*sql.Select).Having }
			case 4:
				pre, post = "SELECT * FROM t JOIN u ON ", " JOIN v USING (a)"
				pick = func(s sql.Stmt) sql.Expr {
					return s.(*sql.Select).From.(sql.FromJoin).Left.(sql.FromJoin).On
				}
			case 5:
				pre, post = "UPDATE t SET a = 1, b = ", " WHERE c"
				pick = func(s sql.Stmt) sql.Expr { return s.(*sql.Update).ColumnUpdates[1].Expr }
			case 6:
				pre, post = "CREATE TABLE t (a INT, b INT DEFAULT ", " NOT NULL, c INT)"
				pick = func(s sql.Stmt) sql.Expr { return s.(*sql.CreateTable).ColumnDefaults[1] }
			case 7:
				pre, post = "DELETE FROM t WHERE f(a, (", "), b)"
				pick = func(s sql.Stmt) sql.Expr {
					return s.(*sql.Delete).Where.(*sql.SExpr).Args[1].(*sql.UnaryExpr).Expr
				}
			}
			text = pre + text + post
			c.Note("%s", text)
			s, err := parseOne(text)
			if err != nil {
				rt.Fatalf("parse failed: %s\ntext: %s", err, text)
			}
			if g, w := gen.Dump(pick(s)), gen.Dump(want); g != w {
				rt.Fatalf("wrong expression\ntext: %s\ngot:  %s\nwant: %s", text, g, w)
			}
		})
	})
}

func checkExpr(rt *rapid.T, c *h.Case, text string, want sql.Expr) {
	c.Note("%s", text)
	got, err := parser.NewParser(strings.NewReader(text), "test").ParseExpr()
	if err != nil {
		rt.Fatalf("parse failed: %s\ntext: %s", err, text)
	}
	if g, w := gen.Dump(got), gen.Dump(want); g != w {
		rt.Fatalf("wrong expression\ntext: %s\ngot:  %s\nwant: %s", text, g, w)
	}
}

func stmtLabels(c *h.Case, s gen.Stmt) {
	c.Label(s.Kind)
	c.LabelIf(len(s.Toks) > 30, "more than 30 tokens")
}

func TestP02(t *testing.T) {
	h.Check(t, 5000, func(rt *rapid.T, c *h.Case) {
		s := gen.NewG(rt, h.Chance(rt, 30, "plain")).DDL()
		stmtLabels(c, s)
		text := gen.Text(rt, s.Toks, layout(rt))
		if h.Chance(rt, 50, "semicolon") {
			text += ";"
		}
		if len(s.Toks) > 6 {
			c.NonTrivial("%s", gen.Simple(s.Toks))
		}
		checkOne(rt, c, text, s.Want)
	})
}

func TestP03(t *testing.T) {
	t.Run("statements", func(t *testing.T) {
		h.Check(t, 5000, func(rt *rapid.T, c *h.Case) {
			s := gen.NewG(rt, h.Chance(rt, 30, "plain")).Query()
			stmtLabels(c, s)
			text := gen.Text(rt, s.Toks, layout(rt))
			if h.Chance(rt, 50, "semicolon") {
				text += ";"
			}
			if len(s.Toks) > 6 {
				c.NonTrivial("%s", gen.Simple(s.Toks))
			}
			checkOne(rt, c, text, s.Want)
		})
	})
	t.Run("big", testBig)
	t.Run("copy", func(t *testing.T) {
		h.Check(t, 400, func(rt *rapid.T, c *h.Case) {
			toks, want := gen.NewG(rt, false).Copy()
			text := gen.Text(rt, toks, layout(rt)) + ";\n"
			c.Note("%s", text)
			c.NonTrivial("%s", gen.Simple(toks))
			got, err := parser.NewParser(strings.NewReader(text), "test").Parse()
			if err != nil {
				rt.Fatalf("parse failed: %s\ntext: %s", err, text)
			}
			if cp, ok := got.(*sql.Copy); ok {
				want.FromLine = cp.FromLine // see P11
			}
			if g, w := gen.Dump(got), gen.Dump(want); g != w {
				rt.Fatalf("wrong statement\ntext: %s\ngot:  %s\nwant: %s", text, g, w)
			}
		})
	})
}
