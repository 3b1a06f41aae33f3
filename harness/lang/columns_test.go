package lang

import (
	"slices"
	"strings"
	"testing"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/testutil"
	"github.com/leftmike/maho/types"

	"mahoverif/gen"
	"mahoverif/h"

	"pgregory.net/rapid"
)

// wordName draws a name that is not quoted.
func wordName(rt *rapid.T) gen.Name {
	for {
		if n := gen.AnyName(rt, false); n.Tok.Kind == gen.Word {
			return n
		}
	}
}

func words(s string) []gen.Tok {
	var toks []gen.Tok
	for _, w := range strings.Fields(s) {
		toks = append(toks, gen.Tok{Text: w, Kind: gen.Kw})
	}
	return toks
}

// checkColumns: a list of columns means the same to ParseColumns as in CREATE TABLE.
func checkColumns(rt *rapid.T, c *h.Case) {
	g := gen.NewG(rt, false)
	var toks []gen.Tok
	var cols []types.Identifier
	var colTypes []types.ColumnType
	var key []types.ColumnKey
	for n := 1 + h.N(rt, 6, "columns"); n > 0; n-- {
		nm := wordName(rt)
		if slices.Contains(cols, nm.ID) {
			continue
		}
		tt, ct := g.ColumnType()
		if len(tt) > 1 && strings.EqualFold(tt[1].Text, "PRECISION") {
			continue // not in test data
		}
		if len(cols) > 0 {
			toks = append(toks, gen.Tok{Text: ",", Kind: gen.Punct})
		}
		toks = append(append(toks, nm.Tok), tt...)
		notNull, primary := h.Chance(rt, 30, "not null"), h.Chance(rt, 25, "primary")
		parts := []string{}
		if notNull {
			ct.NotNull = true
			parts = append(parts, "NOT NULL")
		}
		if primary {
			key = append(key, types.MakeColumnKey(types.ColumnNum(len(cols)), false))
			parts = append(parts, "PRIMARY KEY")
		}
		if len(parts) == 2 && h.Chance(rt, 50, "order") {
			parts[0], parts[1] = parts[1], parts[0]
		}
		for _, s := range parts {
			toks = append(toks, words(s)...)
		}
		cols = append(cols, nm.ID)
		colTypes = append(colTypes, ct)
	}
	if len(cols) == 0 {
		return
	}
	lay := gen.Layout{Tight: h.Chance(rt, 30, "tight"), Case: h.Chance(rt, 50, "case")}
	text := gen.Text(rt, toks, lay) + h.Pick(rt, "end", "", " ", "\n")
	c.Note("%q", text)
	if len(cols) > 1 {
		c.NonTrivial("%s", text)
	}
	c.LabelIf(len(key) > 1, "key of several columns")
	c.LabelIf(len(key) == 1, "key")
	gotCols, gotTypes, gotKey, err := testutil.ParseColumns(strings.NewReader(text))
	if err != nil {
		rt.Fatalf("columns %q: %s", text, err)
	}
	if !slices.Equal(gotCols, cols) || !slices.Equal(gotTypes, colTypes) || !slices.Equal(gotKey, key) {
		rt.Fatalf("columns %q: got %v %v %v; want %v %v %v", text, gotCols, gotTypes, gotKey, cols,
			colTypes, key)
	}
	mustCols, mustTypes, mustKey := testutil.MustParseColumns(text)
	if !slices.Equal(mustCols, cols) || !slices.Equal(mustTypes, colTypes) ||
		!slices.Equal(mustKey, key) {
		rt.Fatalf("columns %q: got %v %v %v; want %v %v %v", text, mustCols, mustTypes, mustKey, cols,
			colTypes, key)
	}
	if len(key) > 1 {
		return // more than one PRIMARY KEY in CREATE TABLE
	}
	s, err := parser.NewParser(strings.NewReader("create table t ("+text+")"), "file.sql").Parse()
	if err != nil {
		rt.Fatalf("create table t (%s): %s", text, err)
	}
	ct := s.(*sql.CreateTable)
	for i := range ct.ColumnTypes {
		if len(key) == 1 && key[0].Column() == types.ColumnNum(i) {
			ct.ColumnTypes[i].NotNull = colTypes[i].NotNull
		}
	}
	if !slices.Equal(ct.Columns, cols) || !slices.Equal(ct.ColumnTypes, colTypes) {
		rt.Fatalf("create table t (%s): got %v %v; want %v %v", text, ct.Columns, ct.ColumnTypes, cols,
			colTypes)
	}
	// Cut short, it is no list of columns.
	if n := 1 + h.N(rt, len(toks), "cut"); n < len(toks) {
		cut := toks[:n]
		last := cut[len(cut)-1]
		whole := last.Kind == gen.Kw && (toks[n].Text == "," || toks[n].Kind == gen.Kw ||
			toks[n].Text == "(") || last.Text == ")"
		if !whole || last.Text == "PRIMARY" || last.Text == "NOT" {
			cs, _, _, err := testutil.ParseColumns(strings.NewReader(gen.Simple(cut)))
			if err == nil {
				rt.Fatalf("columns %q: got %v instead of an error", gen.Simple(cut), cs)
			}
			c.Label("cut short")
		}
	}
}

// checkTypeName: what a column type is shown as means the same.
func checkTypeName(rt *rapid.T, c *h.Case) {
	g := gen.NewG(rt, false)
	_, ct := g.ColumnType()
	if ct.Size == 0 {
		return // the type of columns without room for anything is never shown
	}
	if ct.Type == types.Float64Type {
		ct.Size = 8 // also REAL is shown as DOUBLE
	}
	text := "c " + ct.String()
	c.Note("%s", text)
	c.Label(strings.TrimRight(ct.String(), "0123456789()"))
	c.NonTrivial("%s", text)
	s, err := parser.NewParser(strings.NewReader("create table t ("+text+")"), "file.sql").Parse()
	if err != nil {
		rt.Fatalf("create table t (%s): %s", text, err)
	}
	if got := s.(*sql.CreateTable).ColumnTypes; len(got) != 1 || got[0] != ct {
		rt.Fatalf("%#v is shown as %s, which is %#v", ct, ct, got)
	}
	_, got, _, err := testutil.ParseColumns(strings.NewReader(text))
	if err != nil || len(got) != 1 || got[0] != ct {
		rt.Fatalf("%#v is shown as %s, which is %#v, %v", ct, ct, got, err)
	}
}

func checkIdentifiers(rt *rapid.T, c *h.Case) {
	var ids []types.Identifier
	text := ""
	for n := 1 + h.N(rt, 6, "names"); n > 0; n-- {
		nm := wordName(rt)
		if len(ids) > 0 {
			text += h.Pick(rt, "comma", ",", ", ", " ,\n", "\t,")
		}
		text += nm.Tok.Text
		ids = append(ids, nm.ID)
	}
	text = h.Pick(rt, "before", "", " ") + text + h.Pick(rt, "after", "", " ")
	c.Note("%q", text)
	if len(ids) > 1 {
		c.NonTrivial("%s", text)
	}
	got, err := testutil.ParseIdentifiers(strings.NewReader(text))
	if err != nil || !slices.Equal(got, ids) {
		rt.Fatalf("names %q: got %v, %v; want %v", text, got, err, ids)
	}
	if got := testutil.MustParseIdentifiers(text); !slices.Equal(got, ids) {
		rt.Fatalf("names %q: got %v; want %v", text, got, ids)
	}
	rd := strings.NewReader(text)
	id, err := testutil.ParseIdentifier(rd)
	if err != nil || id != ids[0] {
		rt.Fatalf("name %q: got %s, %v; want %s", text, id, err, ids[0])
	}
	if len(ids) > 1 {
		if got, err := testutil.ParseIdentifiers(strings.NewReader(text + ",")); err == nil {
			rt.Fatalf("names %q: got %v instead of an error", text+",", got)
		}
	}
}

// TestP42: column types and lists of columns are written the same everywhere.
func TestP42(t *testing.T) {
	t.Run("columns", func(t *testing.T) {
		h.Check(t, 4000, checkColumns)
	})
	t.Run("types", func(t *testing.T) {
		h.Check(t, 1000, checkTypeName)
	})
	t.Run("names", func(t *testing.T) {
		h.Check(t, 1000, checkIdentifiers)
	})
}
