package lang

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"

	"mahoverif/gen"
	"mahoverif/h"

	"pgregory.net/rapid"
)

type span struct {
	from, to gen.Pos // to is the semicolon
}

func (s span) has(p gen.Pos) bool {
	return !less(p, s.from) && !less(s.to, p)
}

func less(a, b gen.Pos) bool {
	return a.Line < b.Line || a.Line == b.Line && a.Col < b.Col
}

type item struct {
	kind string // "statement", "empty", "malformed"
	what string
	want string
	span span
}

// drawStream writes statements one after the other.
func drawStream(rt *rapid.T, max int, weights [3]int, lay gen.Layout, plain bool) ([]item, string) {
	w := gen.NewWriter()
	var items []item
	n := 1 + h.N(rt, max, "items")
	for i := 0; i < n; i++ {
		w.Space(rt, gen.Layout{Comments: lay.Comments})
		it := item{span: span{from: w.Pos()}}
		switch h.Weighted(rt, "item", weights[:]...) {
		case 0:
			s := gen.NewG(rt, plain).Stmt()
			if i > 0 && h.Chance(rt, 25, "same kind") {
				for j := 0; j < 10 && s.Kind != items[i-1].what; j++ {
					s = gen.NewG(rt, plain).Stmt()
				}
			}
			it.kind, it.what, it.want = "statement", s.Kind, gen.Dump(s.Want)
			w.Tokens(rt, s.Toks, lay)
		case 1:
			it.kind, it.what = "empty", "empty"
		case 2:
			it.kind = "malformed"
			var toks []gen.Tok
			if h.Chance(rt, 25, "conflict") {
				it.what, toks = gen.NewG(rt, plain).Conflict()
			} else {
				bad := gen.BadStmt(rt, gen.NewG(rt, plain).Stmt())
				it.what, toks = bad.Kind, bad.Toks
			}
			w.Tokens(rt, toks, lay)
		}
		if i < n-1 || it.kind == "empty" || h.Chance(rt, 70, "last semicolon") {
			w.Space(rt, gen.Layout{Comments: lay.Comments})
			it.span.to = w.Pos()
			w.Write(";")
		} else {
			w.Space(rt, gen.Layout{Comments: lay.Comments})
			it.span.to = gen.Pos{Line: 1 << 30}
		}
		items = append(items, it)
	}
	w.Space(rt, gen.Layout{Comments: lay.Comments})
	return items, w.String()
}

var position = regexp.MustCompile(`^parser: file\.sql:(\d+):(\d+):`)

// errorPos gives the position in the text of an error.
func errorPos(err error) (gen.Pos, bool) {
	m := position.FindStringSubmatch(err.Error())
	if m == nil {
		return gen.Pos{}, false
	}
	l, _ := strconv.Atoi(m[1])
	c, _ := strconv.Atoi(m[2])
	return gen.Pos{Line: l, Col: c}, true
}

// counter counts the characters that are read.
type counter struct {
	io.RuneReader
	n int
}

func (r *counter) ReadRune() (rune, int, error) {
	c, size, err := r.RuneReader.ReadRune()
	if err == nil {
		r.n++
	}
	return c, size, err
}

// offset gives how many characters are before a position.
func offset(text string, pos gen.Pos) int {
	at := gen.Pos{Line: 1, Col: 1}
	n := 0
	for _, r := range text {
		if !less(at, pos) {
			break
		}
		if at.Col++; r == '\n' {
			at = gen.Pos{Line: at.Line + 1, Col: 1}
		}
		n++
	}
	return n
}

func TestP07(t *testing.T) {
	t.Run("streams", testStreams)
	t.Run("kept", func(t *testing.T) {
		// Statements stay what they are while others, mostly of the same kind, are parsed by the same
		// parser or by another.
		h.Check(t, 1500, func(rt *rapid.T, c *h.Case) {
			n := 2 + h.N(rt, 4, "statements")
			same := h.Chance(rt, 40, "same parser")
			plain := h.Chance(rt, 50, "plain")
			kind := ""
			var texts, wants []string
			for i := 0; i < n; i++ {
				var s gen.Stmt
				for j := 0; j < 20; j++ {
					if s = gen.NewG(rt, plain).Stmt(); !same && h.Chance(rt, 8, "copy") || kind == "COPY" {
						s.Kind = "COPY"
						toks, want := gen.NewG(rt, plain).Copy()
						want.FromLine = 2
						s.Toks, s.Want = toks, want
					}
					if i == 0 || s.Kind == kind {
						break
					}
				}
				kind = s.Kind
				texts = append(texts, gen.Simple(s.Toks)+";\n")
				wants = append(wants, gen.Dump(s.Want))
			}
			all := strings.Join(texts, "")
			c.Label(kind)
			c.Note("%s", all)
			c.NonTrivial("%s", all)
			p := parser.NewParser(strings.NewReader(all), "test")
			var got []sql.Stmt
			for i := range texts {
				if !same {
					p = parser.NewParser(strings.NewReader(texts[i]), "test")
				}
				s, err := p.Parse()
				if err != nil {
					rt.Fatalf("statement %d: %s\ntext: %s", i, err, all)
				}
				if g := gen.Dump(s); g != wants[i] {
					rt.Fatalf("statement %d\ntext: %s\ngot:  %s\nwant: %s", i, all, g, wants[i])
				}
				got = append(got, s)
			}
			for i, s := range got {
				if g := gen.Dump(s); g != wants[i] {
					rt.Fatalf("statement %d has changed\ntext: %s\ngot:  %s\nwant: %s", i, all, g, wants[i])
				}
			}
		})
	})
}

func testStreams(t *testing.T) {
	h.Check(t, 3500, func(rt *rapid.T, c *h.Case) {
		lay := gen.Layout{Comments: h.Chance(rt, 30, "comments"), Tight: h.Chance(rt, 40, "tight")}
		items, text := drawStream(rt, 8, [3]int{5, 1, 4}, lay, h.Chance(rt, 30, "plain"))
		c.Note("%q", text)
		bad, good := 0, 0
		for _, it := range items {
			c.Label(it.kind)
			if it.kind == "malformed" {
				bad++
			} else if it.kind == "statement" {
				good++
			}
		}
		if len(items) > 1 && good > 0 {
			c.NonTrivial("%s", text)
		}
		c.LabelIf(bad > 0 && good > 0, "malformed and well-formed")

		rd := &counter{RuneReader: strings.NewReader(text)}
		p := parser.NewParser(rd, "file.sql")
		next := 0 // the item that the next result belongs to
		errs := 0 // how many errors it had
		var kept []sql.Stmt
		desc := func(i int) string {
			if i >= len(items) {
				return "the end"
			}
			return fmt.Sprintf("%s %d (%s)", items[i].kind, i, items[i].what)
		}
		for n := 0; n < len(text)+10; n++ {
			s, err := p.Parse()
			if err == io.EOF {
				if s != nil {
					rt.Fatalf("statement %v together with the end\ntext: %q", s, text)
				}
				if next < len(items) && items[next].kind == "malformed" && errs > 0 {
					next++
				}
				if next != len(items) {
					rt.Fatalf("the end instead of %s\ntext: %q", desc(next), text)
				}
				for _, it := range items {
					if it.kind == "statement" {
						if got := gen.Dump(kept[0]); got != it.want {
							rt.Fatalf("%s has changed\ntext: %q\ngot:  %s\nwant: %s", it.what, text, got, it.want)
						}
						kept = kept[1:]
					}
				}
				return
			}
			if err != nil {
				pos, ok := errorPos(err)
				if !ok {
					rt.Fatalf("error without position: %v\ntext: %q", err, text)
				}
				// The statement it belongs to: this one, or the one after it when this one
				// already had an error.
				if next < len(items) && items[next].kind == "malformed" && errs > 0 &&
					!items[next].span.has(pos) {
					next, errs = next+1, 0
				}
				if next >= len(items) || items[next].kind != "malformed" ||
					!items[next].span.has(pos) {
					rt.Fatalf("error %q for %s\ntext: %q", err, desc(next), text)
				}
				errs++
				continue
			}
			if next < len(items) && items[next].kind == "malformed" {
				if errs == 0 {
					rt.Fatalf("%v instead of an error for %s\ntext: %q", s, desc(next), text)
				}
				next, errs = next+1, 0
			}
			if next >= len(items) {
				rt.Fatalf("%v after the end\ntext: %q", s, text)
			}
			it := items[next]
			switch it.kind {
			case "malformed":
				rt.Fatalf("%v instead of an error for %s\ntext: %q", s, desc(next), text)
			case "empty":
				if s != nil {
					rt.Fatalf("%v for %s\ntext: %q", s, desc(next), text)
				}
			case "statement":
				if got := gen.Dump(s); got != it.want {
					rt.Fatalf("%s\ntext: %q\ngot:  %s\nwant: %s", desc(next), text, got, it.want)
				}
				kept = append(kept, s)
			}
			// Whoever types a statement gets it when the semicolon has been read.
			if end := offset(text, it.span.to) + 1; rd.n != end && it.span.to.Line < 1<<30 {
				rt.Fatalf("after %s: %d characters are read; it ends after %d\ntext: %q", desc(next), rd.n, end,
					text)
			}
			next++
		}
		rt.Fatalf("no end\ntext: %q", text)
	})
}

func printed(rt *rapid.T, s fmt.Stringer, text string) string {
	var out string
	if r := h.Panicked(func() { out = s.String() }); r != nil {
		rt.Fatalf("printing fails: %v\ntext: %s", r, text)
	}
	// What package fmt writes when printing a part fails, unless a string or name contains it.
	for _, bad := range []string{"(PANIC=", "%!s(", "%!v(", "%!d(", "%!c(", "%!(", "<nil>", "&{"} {
		if strings.Contains(out, bad) && !strings.Contains(gen.Dump(s), bad) {
			rt.Fatalf("printing fails: %s\ntext: %s", out, text)
		}
	}
	if out == "" {
		rt.Fatalf("nothing printed\ntext: %s", text)
	}
	return out
}

// printsBack has the definitions whose printed text is the statement again.
var printsBack = map[string]bool{"CREATE INDEX": true, "CREATE SCHEMA": true, "DROP INDEX": true,
	"DROP TABLE": true, "DROP SCHEMA": true, "DROP DATABASE": true, "SHOW": true}

// printedTable finds what CREATE TABLE and ALTER TABLE print differently from what is parsed: strings
// and the names of constraints without one. Constants and quoted names are left alone.
var printedTable = regexp.MustCompile(
	`'(?:[^']|'')*'|"(?:[^"]|"")*"|\bSTRING\b|\bCONSTRAINT +(?:CHECK|FOREIGN)\b`)

var plainValue = regexp.MustCompile(`^(?:[a-z][a-z0-9_]*|-?[1-9][0-9]{0,17})$`)

func printsPlain(s sql.Stmt) bool {
	plain := func(v string) bool {
		_, reserved := gen.ReservedWords[strings.ToUpper(v)]
		return plainValue.MatchString(v) && !reserved
	}
	switch s := s.(type) {
	case *sql.Set:
		return !strings.ContainsFunc(s.Value, func(r rune) bool { return r < ' ' || r > '~' })
	case *sql.CreateDatabase:
		for _, v := range s.Options {
			if !plain(v) {
				return false
			}
		}
	}
	return true
}

// shown is the part of a statement that is printed.
func shown(s sql.Stmt) string {
	switch s := s.(type) {
	case *sql.CreateTable:
		c := *s
		c.ColumnTypes = append([]types.ColumnType{}, s.ColumnTypes...)
		for i := range c.ColumnTypes {
			c.ColumnTypes[i].Size, c.ColumnTypes[i].Fixed = 0, false
		}
		c.Constraints = nil
		for _, con := range s.Constraints {
			if con.Type != sql.DefaultConstraint && con.Type != sql.NotNullConstraint {
				con.ColNum = -1
				c.Constraints = append(c.Constraints, con)
			}
		}
		c.ForeignKeys = nil
		for _, fk := range s.ForeignKeys {
			f := *fk
			f.OnDelete, f.OnUpdate = sql.NoAction, sql.NoAction
			c.ForeignKeys = append(c.ForeignKeys, &f)
		}
		return gen.DumpLoose(&c)
	case *sql.AlterTable:
		a := *s
		a.Actions = nil
		for _, act := range s.Actions {
			if add, ok := act.(*sql.AddForeignKey); ok {
				f := add.ForeignKey
				f.OnDelete, f.OnUpdate = sql.NoAction, sql.NoAction
				act = &sql.AddForeignKey{ForeignKey: f}
			}
			a.Actions = append(a.Actions, act)
		}
		return gen.DumpLoose(&a)
	}
	return gen.DumpLoose(s)
}

// testDefinitionsPrint reads back what statements print that show only a part of what they are.
func testDefinitionsPrint(t *testing.T) {
	h.Check(t, 2500, func(rt *rapid.T, c *h.Case) {
		g := gen.NewG(rt, true)
		var s gen.Stmt
		switch h.Weighted(rt, "kind", 5, 2, 1, 1) {
		case 0:
			s.Toks, s.Want = g.CreateTable()
		case 1:
			s.Toks, s.Want = g.AlterTable()
		case 2:
			s.Toks, s.Want = g.Set()
		case 3:
			for s.Kind != "CREATE DATABASE" {
				s = g.DDL()
			}
		}
		c.Label(fmt.Sprintf("%T", s.Want))
		text := gen.Simple(s.Toks)
		c.Note("%s", text)
		a, err := parseOne(text)
		if err != nil {
			rt.Fatalf("parse failed: %s\ntext: %s", err, text)
		}
		if !printsPlain(a) {
			c.Label("value which does not print as such")
			printed(rt, a, text)
			return
		}
		if len(s.Toks) > 5 {
			c.NonTrivial("%s", text)
		}
		out := printed(rt, a, text)
		c.Note("%s", out)
		again := printedTable.ReplaceAllStringFunc(out, func(m string) string {
			if m == "STRING" {
				return "VARCHAR"
			} else if m[0] == 'C' {
				return m[len("CONSTRAINT"):]
			}
			return m
		})
		if s, ok := a.(*sql.Set); ok {
			// The value is printed as it is.
			if !strings.HasSuffix(out, " TO "+s.Value) {
				rt.Fatalf("what is printed lacks the value\ntext:    %s\nprinted: %s", text, out)
			}
			again = strings.TrimSuffix(out, s.Value) + "'" + strings.ReplaceAll(s.Value, "'", "''") + "'"
		}
		b, err := parseOne(again)
		if err != nil {
			rt.Fatalf("what is printed is not accepted: %s\ntext:    %s\nprinted: %s", err, text, out)
		}
		if x, y := shown(a), shown(b); x != y {
			rt.Fatalf("what is printed differs\ntext:    %s\nprinted: %s\ngot:  %s\nwant: %s", text,
				out, y, x)
		}
	})
}

func TestP09(t *testing.T) {
	t.Run("prints", func(t *testing.T) {
		h.Check(t, 4000, func(rt *rapid.T, c *h.Case) {
			g := gen.NewG(rt, h.Chance(rt, 50, "plain"))
			var toks []gen.Tok
			kind := "COPY"
			if h.Chance(rt, 5, "copy") {
				toks, _ = g.Copy()
			} else {
				s := g.Stmt()
				toks, kind = s.Toks, s.Kind
			}
			text := gen.Simple(toks) + ";\n"
			c.Note("%s", text)
			c.Label(kind)
			if len(toks) > 5 {
				c.NonTrivial("%s", text)
			}
			first := ""
			for i := 0; i < 2; i++ {
				s, err := parser.NewParser(strings.NewReader(text), "test").Parse()
				if err != nil {
					rt.Fatalf("parse failed: %s\ntext: %s", err, text)
				}
				for j := 0; j < 3; j++ {
					out := printed(rt, s, text)
					if first == "" {
						first = out
					} else if out != first {
						rt.Fatalf("printed differently\nfirst: %s\nthen:  %s\ntext: %s", first, out, text)
					}
				}
			}
		})
	})
	t.Run("statements", func(t *testing.T) {
		h.Check(t, 4000, func(rt *rapid.T, c *h.Case) {
			g := gen.NewG(rt, true)
			var s gen.Stmt
			end := ""
			switch h.Weighted(rt, "kind", 6, 2, 2, 2, 2, 2, 1, 3) {
			case 7:
				for s.Kind = "CREATE TABLE"; !printsBack[s.Kind]; {
					s = g.Stmt()
				}
				if h.Chance(rt, 20, "copy") {
					s.Kind, end = "COPY", "\n"
					s.Toks, s.Want = g.Copy()
				}
				c.Label(s.Kind)
			case 0:
				s.Toks, s.Want = g.Select()
			case 1:
				s.Toks, s.Want = g.Values()
			case 2:
				s.Toks, s.Want = g.Insert()
			case 3:
				s.Toks, s.Want = g.Update()
			case 4:
				s.Toks, s.Want = g.Delete()
			default:
				for {
					s = g.Query()
					if s.Kind == "EXPLAIN" || s.Kind == "TRANSACTION" {
						break
					}
				}
			}
			text := gen.Simple(s.Toks)
			c.Note("%s", text)
			if len(s.Toks) > 5 {
				c.NonTrivial("%s", text)
			}
			a, err := parseOne(text + end)
			if err != nil {
				rt.Fatalf("parse failed: %s\ntext: %s", err, text)
			}
			out := printed(rt, a, text)
			c.Note("%s", out)
			b, err := parseOne(out + end)
			if err != nil {
				rt.Fatalf("what is printed is not accepted: %s\ntext:    %s\nprinted: %s", err, text, out)
			}
			if x, y := gen.DumpLoose(a), gen.DumpLoose(b); x != y {
				rt.Fatalf("what is printed differs\ntext:    %s\nprinted: %s\ngot:  %s\nwant: %s", text,
					out, y, x)
			}
		})
	})
	t.Run("definitions", testDefinitionsPrint)
	t.Run("expressions", func(t *testing.T) {
		h.Check(t, 4000, func(rt *rapid.T, c *h.Case) {
			g := gen.NewG(rt, true)
			var toks []gen.Tok
			if h.Chance(rt, 30, "flat") {
				toks, _ = g.FlatExpr(2 + h.N(rt, 8, "operands"))
			} else {
				toks, _ = g.Expr()
			}
			text := gen.Simple(toks)
			c.Note("%s", text)
			if len(toks) > 3 {
				c.NonTrivial("%s", text)
			}
			a, err := parser.NewParser(strings.NewReader(text), "test").ParseExpr()
			if err != nil {
				rt.Fatalf("parse failed: %s\ntext: %s", err, text)
			}
			out := printed(rt, a, text)
			c.Note("%s", out)
			b, err := parser.NewParser(strings.NewReader(out), "test").ParseExpr()
			if err != nil {
				rt.Fatalf("what is printed is not accepted: %s\ntext:    %s\nprinted: %s", err, text, out)
			}
			if x, y := gen.DumpLoose(a), gen.DumpLoose(b); x != y {
				rt.Fatalf("what is printed differs\ntext:    %s\nprinted: %s\ngot:  %s\nwant: %s", text,
					out, y, x)
			}
		})
	})
}

func TestP10(t *testing.T) {
	h.Check(t, 6000, func(rt *rapid.T, c *h.Case) {
		kind, toks := gen.NewG(rt, h.Chance(rt, 50, "plain")).Conflict()
		text := gen.Text(rt, toks, layout(rt))
		c.Label(kind)
		c.Note("%s\n%s", kind, text)
		c.NonTrivial("%s: %s", kind, gen.Simple(toks))
		s, err := parser.NewParser(strings.NewReader(text+" ;"), "test").Parse()
		if err == nil || err == io.EOF {
			rt.Fatalf("accepted (%s): %v\ntext: %s", kind, s, text)
		}
		if s != nil {
			rt.Fatalf("statement %v together with error %v\ntext: %s", s, err, text)
		}
	})
}

var dataText = rapid.StringOfN(rapid.OneOf(rapid.SampledFrom([]rune("ab1,|\t;'\"-/*\\. ")),
	rapid.SampledFrom([]rune{'\n', '\n', '\r', 0, 'é', '日', 0x1F600})), 0, 60, -1)

func TestP11(t *testing.T) {
	t.Run("streams", testCopies)
	t.Run("delimiter", testDelimiter)
}

// testDelimiter tries any strings as delimiters.
func testDelimiter(t *testing.T) {
	h.Check(t, 300, func(rt *rapid.T, c *h.Case) {
		n := h.Pick(rt, "characters", 1, 1, 1, 1, 0, 2, 3)
		want := ""
		for i := 0; i < n; i++ {
			r := rune(h.N(rt, 128, "ASCII"))
			if h.Chance(rt, 50, "wide") {
				r = rapid.Rune().Draw(rt, "character")
			}
			if r == utf8.RuneError || r == 0 {
				r = '→'
			}
			want += string(r)
		}
		text := "'" + strings.ReplaceAll(want, "'", "''") + "'"
		if strings.ContainsAny(want, "\r\n") || h.Chance(rt, 30, "escaped") {
			text = "e'"
			for _, r := range want {
				text += fmt.Sprintf("\\U%08x", r)
			}
			text += "'"
		}
		text = "COPY t FROM STDIN DELIMITER " + text + ";\ndata"
		c.Note("%q", text)
		c.NonTrivial("%q", text)
		s, err := parser.NewParser(strings.NewReader(text), "test").Parse()
		c.LabelIf(err != nil, "refused")
		c.LabelIf(err == nil, "accepted")
		if err != nil {
			if n == 1 && len(want) == 1 {
				rt.Fatalf("refused: %s\ntext: %q", err, text)
			}
			return
		}
		// A wider character need not be supported, but must not become another one.
		if d := s.(*sql.Copy).Delimiter; string(d) != want {
			rt.Fatalf("got delimiter %q\ntext: %q", d, text)
		}
	})
}

func testCopies(t *testing.T) {
	h.Check(t, 3000, func(rt *rapid.T, c *h.Case) {
		w := gen.NewWriter()
		lay := gen.Layout{Comments: h.Chance(rt, 30, "comments"), Tight: h.Chance(rt, 30, "tight")}
		type part struct {
			want any
			copy *sql.Copy
			data string
			line int
			bad  gen.Pos
		}
		var parts []part
		copies := 0
		for i, n := 0, 1+h.N(rt, 4, "parts"); i < n || copies == 0; i++ {
			switch h.Weighted(rt, "part", 6, 3, 1) {
			case 0:
				toks, want := gen.NewG(rt, false).Copy()
				w.Tokens(rt, toks, lay)
				w.Write(h.Pick(rt, "blank", "", "", " ", "\t"))
				w.Write(";" + h.Pick(rt, "rest", "", "", " ", "  \t", "\r", " -- data follows"))
				pt := part{copy: want}
				copies++
				if i == n-1 && h.Chance(rt, 5, "no data") {
					pt.line = w.Pos().Line
					parts = append(parts, pt)
					break
				}
				w.Write("\n")
				pt.line = w.Pos().Line
				pt.data = dataText.Draw(rt, "data")
				w.Write(pt.data)
				parts = append(parts, pt)
			case 1:
				s := gen.NewG(rt, false).Stmt()
				w.Space(rt, gen.Layout{Comments: lay.Comments})
				w.Tokens(rt, s.Toks, lay)
				w.Write(";")
				parts = append(parts, part{want: s.Want})
			case 2:
				w.Space(rt, gen.Layout{Comments: lay.Comments})
				pt := part{bad: w.Pos()}
				w.Write("frobnicate " + gen.Simple(gen.NewG(rt, true).Stmt().Toks) + ";")
				parts = append(parts, pt)
			}
			if len(parts) > 20 {
				break
			}
		}
		text := w.String()
		c.Note("%q", text)
		c.LabelIf(copies > 1, "several COPY")

		var p *parser.Parser
		if h.Chance(rt, 50, "buffered") {
			p = parser.NewParser(bufio.NewReaderSize(strings.NewReader(text), 16), "file.sql")
		} else {
			p = parser.NewParser(strings.NewReader(text), "file.sql")
		}
		for i, pt := range parts {
			s, err := p.Parse()
			if pt.bad.Line > 0 {
				if err == nil {
					rt.Fatalf("part %d: got %v instead of an error\ntext: %q", i, s, text)
				}
				pos, _ := errorPos(err)
				if pos != pt.bad {
					rt.Fatalf("part %d: got error %q instead of one at %v\ntext: %q", i, err, pt.bad, text)
				}
				continue
			}
			if err != nil {
				rt.Fatalf("part %d: %v\ntext: %q", i, err, text)
			}
			if pt.copy == nil {
				if g, w := gen.Dump(s), gen.Dump(pt.want); g != w {
					rt.Fatalf("part %d\ntext: %q\ngot:  %s\nwant: %s", i, text, g, w)
				}
				continue
			}
			cp, ok := s.(*sql.Copy)
			if !ok {
				rt.Fatalf("part %d: got %v instead of COPY\ntext: %q", i, s, text)
			}
			pt.copy.FromLine = pt.line
			if g, w := gen.Dump(cp), gen.Dump(pt.copy); g != w {
				rt.Fatalf("part %d\ntext: %q\ngot:  %s\nwant: %s", i, text, g, w)
			}
			var sb strings.Builder
			for range []rune(pt.data) {
				r, _, err := cp.From.ReadRune()
				if err != nil {
					rt.Fatalf("part %d: reading data after %q: %v\ntext: %q", i, sb.String(), err, text)
				}
				sb.WriteRune(r)
			}
			if sb.String() != pt.data {
				rt.Fatalf("part %d: got data %q, want %q\ntext: %q", i, sb.String(), pt.data, text)
			}
			c.NonTrivial("%s", text)
			if i == len(parts)-1 && h.Chance(rt, 50, "read on") {
				if r, _, err := cp.From.ReadRune(); err != io.EOF {
					rt.Fatalf("after the data: got %q, %v\ntext: %q", r, err, text)
				}
			}
		}
		if s, err := p.Parse(); err != io.EOF || s != nil {
			rt.Fatalf("at the end: got %v, %v\ntext: %q", s, err, text)
		}
	})
}

func TestP12(t *testing.T) {
	prog := os.Getenv("VERIF_PROGRAM")
	if prog == "" {
		t.Fatal("VERIF_PROGRAM is not set")
	}
	t.Run("files", func(t *testing.T) { testConsole(t, prog) })
	t.Run("typed", func(t *testing.T) {
		// Someone who types a statement gets the answer before typing the next.
		h.CheckTimed(t, 25, 60, func(rt *rapid.T, c *h.Case) {
			var chunks []string
			text := ""
			for n := 1 + h.N(rt, 5, "statements"); n > 0; n-- {
				var toks []gen.Tok
				if h.Chance(rt, 30, "malformed") {
					toks = gen.BadStmt(rt, gen.NewG(rt, true).Stmt()).Toks
				} else {
					toks = gen.NewG(rt, true).Stmt().Toks
				}
				chunk := gen.Text(rt, toks, gen.Layout{}) + ";"
				if h.Chance(rt, 70, "newline") {
					chunk += "\n"
				}
				chunks = append(chunks, chunk)
				text += chunk
			}
			c.Note("%q", chunks)
			if len(chunks) > 1 {
				c.NonTrivial("%q", chunks)
			}

			cmd := exec.Command(prog)
			in, err := cmd.StdinPipe()
			if err != nil {
				t.Fatal(err)
			}
			out, err := cmd.StdoutPipe()
			if err != nil {
				t.Fatal(err)
			}
			if err := cmd.Start(); err != nil {
				t.Fatal(err)
			}
			timer := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
			defer func() {
				timer.Stop()
				in.Close()
				cmd.Process.Kill()
				cmd.Wait()
			}()
			got := ""
			buf := make([]byte, 4096)
			typed := ""
			for _, chunk := range chunks {
				if _, err := io.WriteString(in, chunk); err != nil {
					rt.Fatalf("the program does not read on: %s\ninput: %q\noutput: %q", err, typed, got)
				}
				typed += chunk
				want := ""
				for _, s := range answers(typed) {
					want += s
				}
				want += "maho: "
				for len(got) < len(want) && strings.HasPrefix(want, got) {
					n, err := out.Read(buf)
					if err != nil {
						rt.Fatalf("no answer: %v\ninput: %q\noutput: %q\nwant:   %q", err, typed, got, want)
					}
					got += string(buf[:n])
				}
				if got != want {
					rt.Fatalf("another answer\ninput: %q\noutput: %q\nwant:   %q", typed, got, want)
				}
			}
			in.Close()
			if err := cmd.Wait(); err != nil {
				rt.Fatalf("the program fails: %v\ninput: %q", err, text)
			}
		})
	})
}

// answers is what the console answers to an input, according to the parser, which TestP07 and others
// check.
func answers(text string) []string {
	var as []string
	p := parser.NewParser(strings.NewReader(text), "console")
	for {
		s, err := p.Parse()
		if err == io.EOF {
			return as
		}
		if err != nil {
			as = append(as, fmt.Sprintf("maho: maho: %s\n", err))
		} else {
			as = append(as, fmt.Sprintf("maho: %s\n", s.String()))
		}
	}
}

func testConsole(t *testing.T, prog string) {
	h.Check(t, 250, func(rt *rapid.T, c *h.Case) {
		lay := gen.Layout{Comments: h.Chance(rt, 30, "comments"), Tight: h.Chance(rt, 40, "tight")}
		max := 12
		if h.Chance(rt, 5, "long") {
			max = 150
			c.Label("long input")
		}
		items, text := drawStream(rt, max, [3]int{3, 0, 2}, lay, true)
		c.Note("%q", text)
		good, bad := 0, 0
		for i, it := range items {
			if it.kind == "malformed" {
				bad++
			} else {
				good++
				if i > 0 && items[i-1].kind == "malformed" {
					c.Label("well-formed after malformed")
				}
			}
		}
		if good > 0 && len(items) > 2 {
			c.NonTrivial("%s", text)
		}

		cmd := exec.Command(prog)
		cmd.Stdin = strings.NewReader(text)
		var sb, eb strings.Builder
		cmd.Stdout = &sb
		cmd.Stderr = &eb
		cmd.WaitDelay = time.Second
		timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Run()
		timer.Stop()
		if err != nil {
			rt.Fatalf("the program fails: %v\ninput: %q\noutput: %q\n%s", err, text, sb.String(),
				eb.String())
		}

		out := sb.String()
		for n, want := range answers(text) {
			if !strings.HasPrefix(out, want) {
				rt.Fatalf("result %d: want %q; output goes on with %q\ninput: %q", n, want, out, text)
			}
			out = out[len(want):]
		}
		if strings.TrimSuffix(out, "\n") != "maho: " {
			rt.Fatalf("at the end: want the prompt; output goes on with %q\ninput: %q", out, text)
		}
	})
}
