// Package gen generates SQL: token sequences together with the statement they denote.
package gen

import (
	"strings"

	"mahoverif/h"

	"pgregory.net/rapid"
)

type Kind int

const (
	Kw     Kind = iota // keyword
	Word               // unquoted name
	Quoted             // quoted name
	Num
	Str
	Op
	Punct
)

// Tok is a token as it is written.
type Tok struct {
	Text   string
	Kind   Kind
	Prefix bool // a prefix minus: a number must not follow directly
}

type Pos struct {
	Line, Col int
}

func isOpByte(b byte) bool {
	return strings.IndexByte("-+*/%=<>&|!", b) >= 0
}

// MustSeparate reports whether two tokens change their meaning when written without anything
// in between.
func MustSeparate(a, b Tok) bool {
	wordish := func(t Tok) bool { return t.Kind == Kw || t.Kind == Word || t.Kind == Num }
	switch {
	case a.Kind == Num && b.Kind == Num:
		return true
	case wordish(a) && wordish(b):
		// A signed number could be joined to a name, but not a digit.
		return !(b.Kind == Num && (b.Text[0] == '-' || b.Text[0] == '+'))
	case a.Kind == Num && b.Text == ".":
		return true
	case (a.Kind == Kw || a.Kind == Word) && b.Kind == Str && b.Text[0] == '\'':
		return len(a.Text) == 1 && strings.ContainsAny(a.Text, "eEbBxX")
	case wordish(a) && b.Kind == Str:
		return b.Text[0] != '\''
	case a.Kind == Str && b.Kind == Str:
		return true
	case a.Kind == Op && a.Text == "-" && b.Text[0] == '-':
		return true
	case a.Prefix && b.Kind == Num:
		return true
	case a.Kind == Op && a.Text == "+" && !a.Prefix && b.Kind == Num:
		return false
	case a.Kind == Op && b.Kind == Op:
		// Only signs may directly follow an operator.
		return b.Text != "-"
	}
	return false
}

// Layout is how tokens are written down.
type Layout struct {
	Comments bool // comments and any whitespace, otherwise only blanks and newlines
	Tight    bool // join tokens wherever possible
	Case     bool // change the case of keywords and names
}

var commentText = rapid.StringOfN(rapid.SampledFrom([]rune("ab 'x;\"-*/`[é\t(\r")), 0, 8, -1)

// longSpace draws a lot of nothing.
func longSpace(t *rapid.T) string {
	n := h.Pick(t, "long", 260, 600, 1100, 4200, 9000, 33000, 70000)
	part := h.Pick(t, "part", " ", "\n", "x", " /", "\t\n", "-")
	s := strings.Repeat(part, n/len(part))
	switch h.N(t, 3, "kind") {
	case 0:
		return "/*" + s + "*/"
	case 1:
		return "--" + strings.ReplaceAll(s, "\n", " ") + "\n"
	}
	if strings.TrimSpace(s) != "" {
		return strings.Repeat(" ", n)
	}
	return s
}

func separator(t *rapid.T, lay Layout, must bool) string {
	if lay.Tight && !must {
		return ""
	}
	if !lay.Comments {
		if lay.Tight {
			return " "
		}
		return h.Pick(t, "sep", " ", " ", " ", "  ", "\n")
	}

	n := h.Weighted(t, "seps", 3, 6, 3, 1)
	if n == 0 && must {
		n = 1
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch h.N(t, 10, "sep") {
		case 0, 1, 2:
			sb.WriteString(" ")
		case 3:
			sb.WriteString("\n")
		case 4:
			sb.WriteString("\t")
		case 5:
			sb.WriteString("\r\n")
		case 6:
			sb.WriteString("\u00a0")
		case 7:
			s := strings.ReplaceAll(commentText.Draw(t, "comment"), "\n", " ")
			sb.WriteString("--" + s + "\n")
		case 8:
			s := strings.ReplaceAll(commentText.Draw(t, "comment"), "*/", "* ")
			if strings.HasSuffix(s, "*") && h.Chance(t, 50, "star") {
				s += "*"
			}
			sb.WriteString("/*" + s + "*/")
		case 9:
			if h.Chance(t, 1, "long") {
				sb.WriteString(longSpace(t))
			} else {
				sb.WriteString("/***\n ***/")
			}
		}
	}
	return sb.String()
}

func flipCase(t *rapid.T, s string) string {
	b := []byte(s)
	switch h.N(t, 4, "case") {
	case 0:
		return s
	case 1:
		for i, c := range b {
			if c >= 'a' && c <= 'z' {
				b[i] = c - 32
			}
		}
	case 2:
		for i, c := range b {
			if c >= 'A' && c <= 'Z' {
				b[i] = c + 32
			}
		}
	case 3:
		for i, c := range b {
			if (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') && h.Chance(t, 50, "flip") {
				b[i] = c ^ 32
			}
		}
	}
	return string(b)
}

// Writer writes tokens down and keeps track of positions.
type Writer struct {
	sb   strings.Builder
	line int
	col  int
}

func NewWriter() *Writer {
	return &Writer{line: 1}
}

func (w *Writer) Write(s string) {
	w.sb.WriteString(s)
	for _, r := range s {
		if r == '\n' {
			w.line++
			w.col = 0
		} else {
			w.col++
		}
	}
}

// Pos is the position of the next character written.
func (w *Writer) Pos() Pos {
	return Pos{w.line, w.col + 1}
}

func (w *Writer) String() string {
	return w.sb.String()
}

// Tokens writes the tokens and returns where each one starts.
func (w *Writer) Tokens(t *rapid.T, toks []Tok, lay Layout) []Pos {
	pos := make([]Pos, len(toks))
	for i, tok := range toks {
		if i > 0 {
			sep := separator(t, lay, MustSeparate(toks[i-1], tok))
			if strings.HasSuffix(toks[i-1].Text, "-") && strings.HasPrefix(sep, "-") {
				sep = " " + sep // otherwise the operator becomes part of the comment
			}
			w.Write(sep)
		}
		pos[i] = w.Pos()
		s := tok.Text
		if lay.Case && (tok.Kind == Kw || tok.Kind == Word) {
			s = flipCase(t, s)
		}
		w.Write(s)
	}
	return pos
}

// Space writes something that separates statements.
func (w *Writer) Space(t *rapid.T, lay Layout) {
	sep := separator(t, lay, false)
	if strings.HasPrefix(sep, "-") && strings.HasSuffix(w.sb.String(), "-") {
		sep = " " + sep
	}
	w.Write(sep)
}

// Text writes the tokens in a layout.
func Text(t *rapid.T, toks []Tok, lay Layout) string {
	w := NewWriter()
	w.Tokens(t, toks, lay)
	return w.String()
}

// Simple writes the tokens with one blank between them.
func Simple(toks []Tok) string {
	var sb strings.Builder
	for i, tok := range toks {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(tok.Text)
	}
	return sb.String()
}
