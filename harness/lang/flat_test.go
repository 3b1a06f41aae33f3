package lang

import (
	"fmt"
	"strings"
	"testing"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"

	"mahoverif/gen"
	"mahoverif/h"

	"pgregory.net/rapid"
)

// A bigList is a statement with one long list, of rows or expressions.
type bigList struct {
	before, after string
	item          [2]string // around each expression
	exprs         func(s sql.Stmt) []sql.Expr
}

func column(rows [][]sql.Expr) []sql.Expr {
	var es []sql.Expr
	for _, r := range rows {
		if len(r) != 1 {
			return nil
		}
		es = append(es, r[0])
	}
	return es
}

func onlyRow(rows [][]sql.Expr) []sql.Expr {
	if len(rows) != 1 {
		return nil
	}
	return rows[0]
}

var bigLists = []bigList{
	{"VALUES ", "", [2]string{"(", ")"},
		func(s sql.Stmt) []sql.Expr { return column(s.(*sql.Values).Expressions) }},
	{"VALUES (", ")", [2]string{},
		func(s sql.Stmt) []sql.Expr { return onlyRow(s.(*sql.Values).Expressions) }},
	{"INSERT INTO t VALUES ", "", [2]string{"(", ")"},
		func(s sql.Stmt) []sql.Expr { return column(s.(*sql.InsertValues).Rows) }},
	{"INSERT INTO t VALUES (", ")", [2]string{},
		func(s sql.Stmt) []sql.Expr { return onlyRow(s.(*sql.InsertValues).Rows) }},
	{"SELECT ", " FROM t WHERE a GROUP BY b", [2]string{},
		func(s sql.Stmt) []sql.Expr {
			var es []sql.Expr
			for _, r := range s.(*sql.Select).Results {
				es = append(es, r.(sql.ExprResult).Expr)
			}
			return es
		}},
	{"SELECT a FROM t WHERE b GROUP BY ", " HAVING c ORDER BY d", [2]string{},
		func(s sql.Stmt) []sql.Expr { return s.(*sql.Select).GroupBy }},
	{"DELETE FROM t WHERE f(", ") > 1", [2]string{},
		func(s sql.Stmt) []sql.Expr {
			return s.(*sql.Delete).Where.(*sql.BinaryExpr).Left.(*sql.SExpr).Args
		}},
	{"SELECT * FROM (VALUES ", ") AS a WHERE b", [2]string{"(", ")"},
		func(s sql.Stmt) []sql.Expr {
			fs := s.(*sql.Select).From.(sql.FromStmt)
			return column(fs.Stmt.(*sql.Values).Expressions)
		}},
	{"UPDATE t SET a = 1, b = (VALUES (", ")) WHERE b", [2]string{},
		func(s sql.Stmt) []sql.Expr {
			e := s.(*sql.Update).ColumnUpdates[1].Expr
			return onlyRow(e.(*sql.Subquery).Stmt.(*sql.Values).Expressions)
		}},
}

// sideBySide are statements with places for expressions none of which is part of another.
var sideBySide = []string{
	"VALUES (@, @, @)",
	"VALUES (@, @), (@, @)",
	"INSERT INTO t VALUES (@, @), (@, @)",
	"SELECT @ AS a, @ FROM t WHERE @ GROUP BY @, @ HAVING @ ORDER BY a",
	"SELECT f(@, @, @)",
	"SELECT f(@, @), f(@)",
	"SELECT @ FROM (SELECT @ FROM u WHERE @) AS a WHERE @",
	"SELECT @ FROM (VALUES (@), (@)) AS a GROUP BY @",
	"UPDATE t SET a = @, b = @ WHERE @",
	"DELETE FROM t WHERE (SELECT @ FROM u WHERE @) > 1",
	"VALUES ((SELECT @), (SELECT @, @))",
}

// testBig parses statements with more parts than could be nested.
func testBig(t *testing.T) {
	t.Run("list", func(t *testing.T) {
		h.CheckTimed(t, 3, 120, func(rt *rapid.T, c *h.Case) {
			g := gen.NewG(rt, false)
			l := h.Pick(rt, "list", bigLists...)
			var texts []string
			var want []string
			for n := 1 + h.N(rt, 3, "expressions"); n > 0; n-- {
				toks, e := g.ExprN(1 + h.N(rt, 3, "operands"))
				if len(toks) > 12 {
					toks, e = g.Literal()
				}
				texts = append(texts, l.item[0]+gen.Simple(toks)+l.item[1])
				want = append(want, gen.Dump(e))
			}
			n := 100001 + h.N(rt, 30000, "more")
			c.Note("%q %q, %d times: %q", l.before, l.after, n, texts)
			c.NonTrivial("%q, %d of %q, %q", l.before, n, texts, l.after)
			c.Label(l.before)
			var sb strings.Builder
			sb.WriteString(l.before)
			for i := 0; i < n; i++ {
				if i > 0 {
					sb.WriteByte(',')
				}
				sb.WriteString(texts[i%len(texts)])
			}
			sb.WriteString(l.after)
			s, err := parseOne(sb.String())
			if err != nil {
				rt.Fatalf("parse failed: %s", err)
			}
			got := l.exprs(s)
			if len(got) != n {
				rt.Fatalf("got %d parts, want %d", len(got), n)
			}
			for i := 0; i < n; i += 1 + i%97 {
				if d := gen.Dump(got[i]); d != want[i%len(want)] {
					rt.Fatalf("part %d of %d: got %s, want %s", i, n, d, want[i%len(want)])
				}
			}
		})
	})
	t.Run("deep", func(t *testing.T) {
		h.CheckTimed(t, 6, 120, func(rt *rapid.T, c *h.Case) {
			st := h.Pick(rt, "statement", sideBySide...)
			n := strings.Count(st, "@")
			fill := func(parts []string) string {
				text := st
				for _, p := range parts {
					text = strings.Replace(text, "@", p, 1)
				}
				return text
			}
			parts := make([]string, n)
			var what []string
			for i := range parts {
				w := h.Pick(rt, "part", [2]string{"- ", ""}, [2]string{"(", ")"},
					[2]string{"NOT ", ""}, [2]string{"f(", ")"}, [2]string{"(SELECT ", ")"},
					[2]string{"1+", ""}, [2]string{"", " OR b"}, [2]string{"f(1, ", ", 2)"},
					[2]string{"EXISTS (VALUES (", "))"}, [2]string{"(1-", ")"})
				d := 10000 + h.N(rt, 90000, "deep")
				if w[0] == "1+" || w[1] == " OR b" {
					d = 1000 + d/50 // the time these take grows with the square
				}
				if h.Chance(rt, 30, "shallow") {
					parts[i], d = "c", 0
					continue
				}
				// What is accepted on its own, is next to other parts as well.
				for ; ; d /= 2 {
					parts[i] = strings.Repeat(w[0], d) + "a" + strings.Repeat(w[1], d)
					alone := make([]string, n)
					for j := range alone {
						alone[j] = "b"
					}
					alone[i] = parts[i]
					if _, err := parser.NewParser(strings.NewReader(fill(alone)), "test").Parse(); err == nil {
						break
					} else if d < 100 {
						rt.Fatalf("part %d, %d of %q: %s\nstatement: %s", i, d, w, err, st)
					}
				}
				what = append(what, fmt.Sprintf("part %d: %d of %q", i, d, w))
			}
			c.Note("%s, %q", st, what)
			c.Label(st)
			if len(what) > 1 {
				c.NonTrivial("%s, %s", st, what)
			}
			if _, err := parseOne(fill(parts)); err != nil {
				rt.Fatalf("parse failed: %s\nstatement: %s\nparts: %s", err, st, what)
			}
		})
	})
}
