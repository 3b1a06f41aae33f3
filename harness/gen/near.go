package gen

import (
	"mahoverif/h"
)

// everyTok is every keyword, a few names, literals, and all symbols.
var everyTok = func() []Tok {
	var toks []Tok
	add := func(k Kind, texts ...string) {
		for _, s := range texts {
			toks = append(toks, Tok{Text: s, Kind: k})
		}
	}
	add(Kw, reservedNames...)
	add(Word, unreservedNames...)
	add(Word, "t", "a", "count", "maho", "system", "public", "info", "btree", "tables", "config")
	add(Quoted, `"a"`, "`select`", "[t u]")
	add(Num, "0", "1", "-7", "+2", "1.5", "-0.5")
	add(Str, "'a'", "''", "e'\\n'", "b'x'", "x'00'")
	add(Op, opTexts...)
	add(Punct, "(", ")", ",", ".", "@")
	add(Op, "#", "$1", "!")
	return toks
}()

// Near gives the sequences which have at one place of a statement any token there is instead or in
// addition: ending there, going on like the statement, or like others do after the same token.
func (g *G) Near() [][]Tok {
	short := func() []Tok {
		// There are hundreds of sequences, so they must not be long.
		for {
			if s := g.Stmt().Toks; len(s) <= 60 {
				return s
			}
		}
	}
	base := short()
	pool := [][]Tok{base}
	for n := 3 + h.N(g.T, 5, "others"); n > 0; n-- {
		pool = append(pool, short())
	}
	tails := map[string][][]Tok{}
	for _, s := range pool {
		for i, t := range s {
			if i+1 < len(s) && len(tails[t.Text]) < 4 {
				tails[t.Text] = append(tails[t.Text], s[i+1:])
			}
		}
	}

	i := h.N(g.T, len(base)+1, "at")
	if h.Chance(g.T, 40, "near the beginning") {
		i = h.N(g.T, min(5, len(base)), "at")
	}
	if i > 0 && h.Chance(g.T, 40, "another before") {
		base = append([]Tok{}, base...)
		base[i-1] = g.similar(base[i-1])
	}
	var near [][]Tok
	add := func(t Tok, tail []Tok) {
		near = append(near, append(append(base[:i:i], t), tail...))
	}
	for _, t := range everyTok {
		add(t, nil)
		add(t, base[i:])
		if i < len(base) {
			add(t, base[i+1:])
		}
		for _, tail := range tails[t.Text] {
			add(t, tail)
		}
	}
	return near
}
