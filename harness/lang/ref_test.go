package lang

import (
	"io"
	"strings"
	"testing"

	"github.com/leftmike/maho/parser"

	"mahoverif/gen"
	"mahoverif/h"
	"mahoverif/ref"

	"pgregory.net/rapid"
)

func TestP46(t *testing.T) {
	t.Run("written", func(t *testing.T) {
		h.Check(t, 400, func(rt *rapid.T, c *h.Case) {
			// The grammar is the one that statements are written by.
			s := gen.NewG(rt, false).Stmt()
			c.Label(s.Kind)
			v := ref.Parse(s.Toks)
			if g, w := gen.Dump(v.Stmt), gen.Dump(s.Want); v.Refused != "" || v.Loose || g != w {
				rt.Fatalf("reference: %s\n%s (%s)\nwant %s", gen.Simple(s.Toks), g, v.Refused, w)
			}
			checkRef(rt, c, s.Toks)
		})
	})
	t.Run("changed", func(t *testing.T) {
		h.Check(t, 8000, func(rt *rapid.T, c *h.Case) {
			g := gen.NewG(rt, h.Chance(rt, 60, "plain"))
			g.Size = h.Pick(rt, "size", 3, 8, 40)
			s := g.Stmt()
			c.Label(s.Kind)
			toks := g.Mutate(s.Toks)
			if h.Chance(rt, 50, "well-formed") {
				for i := 0; i < 12 && ref.Parse(toks).Refused != ""; i++ {
					toks = g.Mutate(s.Toks)
				}
			}
			checkRef(rt, c, toks)
		})
	})
	t.Run("near", func(t *testing.T) {
		// Every token there is, at one place of a statement.
		h.Check(t, 250, func(rt *rapid.T, c *h.Case) {
			g := gen.NewG(rt, true)
			g.Size = h.Pick(rt, "size", 2, 5, 12)
			for _, toks := range g.Near() {
				checkRef(rt, c, toks)
			}
		})
	})
}

// checkRef parses tokens and compares with what the grammar makes of them.
func checkRef(rt *rapid.T, c *h.Case, toks []gen.Tok) {
	text := gen.Simple(toks)
	c.Renote("%s", text)
	want := ref.Parse(toks)
	if want.Loose {
		c.Label("not specified")
		return
	}
	if len(toks) == 0 {
		return
	}
	if len(toks) > 3 {
		c.NonTrivial("%s", text)
	}
	p := parser.NewParser(strings.NewReader(text+" ;"), "test")
	got, err := p.Parse()
	if want.Refused != "" {
		c.Label("refused")
		c.Label("refused: " + want.Refused)
		if err == nil {
			rt.Fatalf("%s\nread as %s\nwant an error: %s", text, gen.Dump(got), want.Refused)
		}
		if err == io.EOF {
			rt.Fatalf("%s\ngot the end of input; want an error: %s", text, want.Refused)
		}
		return
	}
	c.Label("accepted")
	if err != nil {
		rt.Fatalf("%s\nrefused: %s\nwant %s", text, err, gen.Dump(want.Stmt))
	}
	if g, w := gen.Dump(got), gen.Dump(want.Stmt); g != w {
		rt.Fatalf("%s\ngot  %s\nwant %s", text, g, w)
	}
	if s, err := p.Parse(); err != io.EOF {
		rt.Fatalf("%s\nfollowed by %v, %v", text, s, err)
	}
}
