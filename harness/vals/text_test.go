package vals

import (
	"bufio"
	"errors"
	"io"
	"math"
	"math/big"
	"slices"
	"strings"
	"testing"
	"unicode"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/testutil"
	"github.com/leftmike/maho/types"

	"mahoverif/h"

	"pgregory.net/rapid"
)

var errText = errors.New("reading failed here")

// textReader reads runes; from the k-th rune on reading fails, if k is not negative.
type textReader struct {
	runes []rune
	at, k int
}

func (tr *textReader) ReadRune() (rune, int, error) {
	if tr.k >= 0 && tr.at >= tr.k {
		return 0, 0, errText
	}
	if tr.at >= len(tr.runes) {
		return 0, 0, io.EOF
	}
	r := tr.runes[tr.at]
	tr.at++
	return r, len(string(r)), nil
}

func (tr *textReader) UnreadRune() error {
	if tr.at == 0 {
		return errors.New("nothing to unread")
	}
	tr.at--
	return nil
}

type outcome int

const (
	good outcome = iota
	bad
	unread // what is needed cannot be read
)

// textModel recognises the text of values, rows, names and columns, apart from package testutil. at
// is where it stands.
type textModel struct {
	runes []rune
	at, k int
	big   bool // an integer that is too large was seen, or a length
}

type stop outcome

func (tm *textModel) peek() (rune, bool) {
	if tm.k >= 0 && tm.at >= tm.k {
		panic(stop(unread))
	}
	if tm.at >= len(tm.runes) {
		return 0, false
	}
	return tm.runes[tm.at], true
}

func (tm *textModel) need() rune {
	r, ok := tm.peek()
	if !ok {
		panic(stop(bad))
	}
	return r
}

func (tm *textModel) space() {
	for {
		r, ok := tm.peek()
		if !ok || !unicode.IsSpace(r) {
			return
		}
		tm.at++
	}
}

func (tm *textModel) while(pred func(r rune) bool) string {
	from := tm.at
	for {
		r, ok := tm.peek()
		if !ok || !pred(r) {
			return string(tm.runes[from:tm.at])
		}
		tm.at++
	}
}

func (tm *textModel) punct(r rune) {
	tm.space()
	if tm.need() != r {
		panic(stop(bad))
	}
	tm.at++
}

func (tm *textModel) value() types.Value {
	tm.space()
	r := tm.need()
	switch {
	case unicode.IsDigit(r) || r == '.':
		seen := 0
		s := tm.while(func(r rune) bool {
			if r == '.' {
				seen++
			} else if unicode.IsDigit(r) && (r < '0' || r > '9') {
				seen = 2
			}
			if seen > 1 {
				panic(stop(bad))
			}
			return unicode.IsDigit(r) || r == '.'
		})
		dots, digits := strings.Count(s, "."), 0
		for _, r := range s {
			if r >= '0' && r <= '9' {
				digits++
			}
		}
		if dots > 1 || digits == 0 || digits+dots != len(s) {
			panic(stop(bad))
		}
		rat, ok := new(big.Rat).SetString("0" + s + "0")
		if dots == 0 {
			rat, ok = new(big.Rat).SetString(s)
		}
		if !ok {
			panic(stop(bad))
		}
		if dots == 0 && rat.Num().IsInt64() {
			return types.Int64Value(rat.Num().Int64())
		}
		tm.big = tm.big || dots == 0
		f, _ := rat.Float64()
		if math.IsInf(f, 0) {
			panic(stop(bad))
		}
		return types.Float64Value(f)
	case unicode.IsLetter(r):
		w := ""
		switch strings.ToUpper(tm.while(func(r rune) bool {
			if !unicode.IsLetter(r) {
				return false
			}
			w += strings.ToUpper(string(r))
			if !strings.HasPrefix("TRUE", w) && !strings.HasPrefix("FALSE", w) &&
				!strings.HasPrefix("NULL", w) {
				panic(stop(bad))
			}
			return true
		})) {
		case "TRUE":
			return types.BoolValue(true)
		case "FALSE":
			return types.BoolValue(false)
		case "NULL":
			return nil
		}
		panic(stop(bad))
	case r == '\'':
		tm.at++
		sofar := ""
		s := tm.while(func(r rune) bool {
			if r == '\'' {
				return false
			}
			sofar += string(r)
			if sofar[0] == '\\' && (len(sofar) > 1 && sofar[1] != 'x' && sofar[1] != 'X' ||
				len(sofar) > 2 && !strings.ContainsRune("0123456789abcdefABCDEF", r)) {
				panic(stop(bad))
			}
			return true
		})
		b := []byte{}
		hex := strings.HasPrefix(s, "\\")
		if hex {
			if len(s) < 2 || s[1] != 'x' && s[1] != 'X' || len(s)%2 != 0 {
				panic(stop(bad))
			}
			const digits = "0123456789abcdef"
			low := strings.ToLower(s[2:])
			for i := 0; i < len(low); i += 2 {
				d1, d2 := strings.IndexByte(digits, low[i]), strings.IndexByte(digits, low[i+1])
				if d1 < 0 || d2 < 0 || len(low) != len(s)-2 {
					panic(stop(bad))
				}
				b = append(b, byte(d1*16+d2))
			}
		}
		tm.need()
		tm.at++
		if hex {
			return types.BytesValue(b)
		}
		return types.StringValue(s)
	}
	panic(stop(bad))
}

func (tm *textModel) row() types.Row {
	tm.punct('(')
	var row types.Row
	for {
		row = append(row, tm.value())
		tm.space()
		switch tm.need() {
		case ')':
			tm.at++
			return row
		case ',':
			tm.at++
		default:
			panic(stop(bad))
		}
	}
}

// end reports whether there is nothing more, and else takes the comma.
func (tm *textModel) end() bool {
	tm.space()
	r, ok := tm.peek()
	if ok && r != ',' {
		panic(stop(bad))
	} else if ok {
		tm.at++
	}
	return !ok
}

func plainNameRune(r rune) bool {
	return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '$'
}

func (tm *textModel) name() string {
	tm.space()
	if !plainNameRune(tm.need()) {
		panic(stop(bad))
	}
	return tm.while(plainNameRune)
}

func (tm *textModel) word(w string) {
	if !strings.EqualFold(tm.name(), w) {
		panic(stop(bad))
	}
}

type columnText struct {
	name    string
	typ     types.ColumnType
	primary int
}

func (tm *textModel) columns() []columnText {
	var cols []columnText
	for {
		var ct columnText
		ct.name = tm.name()
		typ, ok := parser.ColumnTypes[types.ID(tm.name(), false)]
		if !ok {
			panic(stop(bad))
		}
		ct.typ = typ
		if typ.Type == types.StringType || typ.Type == types.BytesType {
			tm.space()
			if r, ok := tm.peek(); ok && r == '(' {
				tm.at++
				tm.space()
				if !unicode.IsDigit(tm.need()) {
					panic(stop(bad))
				}
				s := tm.while(unicode.IsDigit)
				n, ok := new(big.Int).SetString(s, 10)
				if !ok || strings.Trim(s, "0123456789") != "" {
					panic(stop(bad))
				}
				if n.Cmp(big.NewInt(types.MaxColumnSize)) > 0 {
					panic(stop(bad))
				}
				ct.typ.Size = uint32(n.Int64())
				tm.punct(')')
			}
		}
		for {
			tm.space()
			if r, ok := tm.peek(); !ok || !plainNameRune(r) {
				break
			}
			switch strings.ToUpper(tm.name()) {
			case "PRIMARY":
				tm.word("KEY")
				ct.primary++
			case "NOT":
				tm.word("NULL")
				ct.typ.NotNull = true
			default:
				panic(stop(bad))
			}
		}
		cols = append(cols, ct)
		if tm.end() {
			return cols
		}
	}
}

func (tm *textModel) run(fn func()) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = outcome(r.(stop))
		}
	}()
	fn()
	return good
}

// drawBroken changes the text here and there.
func drawBroken(rt *rapid.T, text, alphabet string) string {
	runes := []rune(text)
	letters := []rune(alphabet)
	for n := h.N(rt, 4, "changes"); n > 0; n-- {
		at := h.N(rt, len(runes)+1, "where")
		r := letters[h.N(rt, len(letters), "rune")]
		switch h.N(rt, 6, "change") {
		case 5:
			if at < len(runes) {
				runes[at] ^= 1 << h.N(rt, 8, "bit")
			}
		case 0:
			if at < len(runes) {
				runes = slices.Delete(runes, at, at+1)
			}
		case 1:
			runes = slices.Insert(runes, at, r)
		case 2:
			if at < len(runes) {
				runes[at] = r
			}
		case 3:
			if at < len(runes) {
				runes = slices.Insert(runes, at, runes[at])
			}
		case 4:
			if h.Chance(rt, 30, "cut") {
				runes = runes[:at]
			}
		}
	}
	return string(runes)
}

const valueLetters = " \n\t(),'\\xX09afAFgG.tTrRuUeEnNlL-\u0663\u00e9\u00a0"

// choose draws one of the good choices, or also of the bad ones where the text may be wrong.
func choose(rt *rapid.T, fine bool, label string, goods, bads []string) string {
	n := len(goods)
	if !fine {
		n += len(bads)
	}
	i := h.N(rt, n, label)
	if i < len(goods) {
		return goods[i]
	}
	return bads[i-len(goods)]
}

func list(ss ...string) []string { return ss }

func drawValueText(rt *rapid.T, fine bool) string {
	n := 6
	if fine {
		n = 5
	}
	switch h.N(rt, n, "text") {
	case 0:
		return choose(rt, fine, "word", list("true", "FALSE", "null", "True", "nULL", "false"),
			list("tru", "nulll", "t", "falsetrue"))
	case 1:
		return choose(rt, fine, "number", list("0", "12", "007", "9223372036854775807", "1.5", ".5", "5.", "0.1",
			"123456789.987654321", "4.9406564584124654"), list("9223372036854775808", "99999999999999999999999",
			"1..2", ".", "1.2.3", "1\u0663", "\u0663"))
	case 2:
		s := ""
		for n := h.N(rt, 5, "digits"); n > 0; n-- {
			s += choose(rt, fine, "hex", list("00", "ff", "Ff", "a0", "09", "9A", "5c", "27", "20"),
				list("0x", "g0", "0", "1\u00e9", string(rune(h.N(rt, 128, "digit")))+"a",
					"7"+string(rune(h.N(rt, 256, "digit")))))
		}
		return "'\\" + choose(rt, fine, "x", list("x", "X"), list("y", "")) + s + "'"
	case 3:
		s := ""
		for n := h.N(rt, 5, "runes"); n > 0; n-- {
			if s == "" && fine {
				s = h.Pick(rt, "first", "b", "9", "'"[:0], "\x00")
			}
			s += h.Pick(rt, "rune", "a", " ", "(", ")", ",", "\\", "\x00", "\n", "\u00e9", "\U0001f600", "x", "0")
			if fine && s[0] == '\\' {
				s = "x" + s
			}
		}
		return "'" + s + "'"
	case 4:
		for {
			v := Value(rt)
			s := types.FormatValue(v)
			if !fine || s[0] != '-' && s[0] != '+' && s[0] != 'I' && s[0] != 'N' && s[0] != 'n' &&
				!strings.Contains(s, "e") && strings.Count(s, "'") < 3 {
				return s
			}
		}
	}
	return h.Pick(rt, "other", "", "-1", "'", "''", "'\\x'", "()", "\"a\"", "a b")
}

func drawRowText(rt *rapid.T, fine bool) string {
	gap := func() string { return h.Pick(rt, "gap", "", "", "", " ", "\n ", "\t") }
	s := gap() + "("
	for i, n := 0, h.N(rt, 4, "columns"); i <= n; i++ {
		if i > 0 {
			s += gap() + ","
		}
		s += gap() + drawValueText(rt, fine)
	}
	return s + gap() + ")"
}

const columnLetters = " \n\t(),_$'0123ab\u00e9\u0663-;"

func drawNameText(rt *rapid.T, fine bool) string {
	return choose(rt, fine, "name", list("a", "b", "B", "c1", "_x", "$", "\u00e9t\u00e9", "Select", "1"),
		list("", "x-y"))
}

func drawComma(rt *rapid.T, fine bool) string {
	return choose(rt, fine, "comma", list(",", ", ", " , ", ",\n"), list(",,", " "))
}

func drawColumnsText(rt *rapid.T, fine bool) string {
	s := ""
	for i, n := 0, h.N(rt, 3, "columns"); i <= n; i++ {
		if i > 0 {
			s += drawComma(rt, fine)
		}
		s += drawNameText(rt, fine) + choose(rt, fine, "gap", list(" ", "\t", "  "), list(""))
		if h.Chance(rt, 40, "length") {
			s += choose(rt, fine, "type", list("text", "char", "varchar", "Binary", "varbinary", "bytes", "BLOB"),
				list("int", "bool", "double")) + h.Pick(rt, "gap", "", " ") + "(" +
				choose(rt, fine, "length", list("1", " 12 ", "0", "255", "4294967294"), list("4294967295", "4294967296",
					"4294967297", "99999999999999999999", "-1", "", "x", "1 2", "\u0663")) + ")"
		} else {
			s += choose(rt, fine, "type", list("int", "INT4", "text", "char", "varchar", "Binary", "varbinary",
				"bool", "double", "real", "bytes", "bigint"), list("string", "number"))
		}
		for n := h.N(rt, 3, "words"); n > 0; n-- {
			s += " " + choose(rt, fine, "word", list("not null", "NOT  NULL", "primary key", "Primary\nKey"),
				list("null", "not", "primary", "key", "default 1", "unique"))
		}
	}
	return s
}

func pickReader(rt *rapid.T, text string, k int) io.RuneScanner {
	tr := &textReader{runes: []rune(text), k: k}
	if k < 0 {
		switch h.N(rt, 3, "reader") {
		case 1:
			return strings.NewReader(text)
		case 2:
			return bufio.NewReaderSize(strings.NewReader(text), 16)
		}
	}
	return tr
}

func restOf(rd io.RuneScanner) string {
	var sb strings.Builder
	for {
		r, _, err := rd.ReadRune()
		if err != nil {
			return sb.String()
		}
		sb.WriteRune(r)
	}
}

// TestP43: text that stands for values, rows, names or columns is understood completely or refused.
func TestP43(t *testing.T) {
	judge := func(rt *rapid.T, c *h.Case, what, text string, tm *textModel, want outcome, err error) bool {
		c.Label(what + [...]string{" good", " bad", " unread"}[want])
		switch {
		case want == good && err != nil:
			if tm.big {
				return false // a number that is too large may be refused
			}
			rt.Fatalf("%s of %q (reading fails at %d): %s", what, text, tm.k, err)
		case want == bad && err == nil:
			rt.Fatalf("%s of %q (reading fails at %d): no error", what, text, tm.k)
		case want == unread && !errors.Is(err, errText):
			rt.Fatalf("%s of %q, reading fails at %d: %v", what, text, tm.k, err)
		}
		return want == good
	}
	where := func(rt *rapid.T, text string) int {
		if h.Chance(rt, 75, "all") {
			return -1
		}
		return h.N(rt, len([]rune(text))+1, "reading fails")
	}
	must := func(rt *rapid.T, what, text string, o outcome, big bool, fn func()) {
		err, panicked := testutil.ErrorPanicked(func() error { fn(); return nil })
		if err != nil {
			rt.Fatalf("%s of %q: error %s", what, text, err)
		}
		if panicked != (o != good) && !big {
			rt.Fatalf("%s of %q: panicked %v", what, text, panicked)
		}
	}
	t.Run("values", func(t *testing.T) {
		h.Check(t, 6000, func(rt *rapid.T, c *h.Case) {
			fine := h.Chance(rt, 65, "fine")
			text := h.Pick(rt, "before", "", "", " ", "\n\t") + drawValueText(rt, fine) +
				h.Pick(rt, "after", "", " ", ",", ")", "x", "'", "1")
			if !fine && h.Chance(rt, 60, "broken") {
				text = drawBroken(rt, text, valueLetters)
			}
			tm := &textModel{runes: []rune(text), k: where(rt, text)}
			c.Note("%q %d", text, tm.k)
			c.NonTrivial("%q %d", text, tm.k)
			var want types.Value
			o := tm.run(func() { want = tm.value() })
			rd := pickReader(rt, text, tm.k)
			got, err := testutil.ParseValue(rd)
			if !judge(rt, c, "value", text, tm, o, err) {
				return
			}
			if types.Compare(got, want) != 0 || Show(got) != Show(want) {
				rt.Fatalf("value of %q: got %s, want %s", text, Show(got), Show(want))
			}
			if tm.k < 0 {
				if rest, w := restOf(rd), string(tm.runes[tm.at:]); rest != w {
					rt.Fatalf("value of %q: leaves %q, want %q", text, rest, w)
				}
			}
		})
	})
	t.Run("rows", func(t *testing.T) {
		h.Check(t, 4000, func(rt *rapid.T, c *h.Case) {
			fine := h.Chance(rt, 65, "fine")
			text := drawRowText(rt, fine)
			for n := h.N(rt, 3, "rows"); n > 0; n-- {
				text += choose(rt, fine, "between", list(",", ", ", "\n,"), list("", " ", ",,")) + drawRowText(rt, fine)
			}
			text += choose(rt, fine, "end", list("", "", "", " "), list(",", "x"))
			if !fine && h.Chance(rt, 60, "broken") {
				text = drawBroken(rt, text, valueLetters)
			}
			tm := &textModel{runes: []rune(text), k: where(rt, text)}
			c.Note("%q %d", text, tm.k)
			c.NonTrivial("%q %d", text, tm.k)
			var first types.Row
			o := tm.run(func() { first = tm.row() })
			rd := pickReader(rt, text, tm.k)
			row, err := testutil.ParseRow(rd)
			if judge(rt, c, "row", text, tm, o, err) {
				if ShowRow(row) != ShowRow(first) {
					rt.Fatalf("row of %q: got %s, want %s", text, ShowRow(row), ShowRow(first))
				}
				if tm.k < 0 {
					if rest, w := restOf(rd), string(tm.runes[tm.at:]); rest != w {
						rt.Fatalf("row of %q: leaves %q, want %q", text, rest, w)
					}
				}
			}
			if tm.k < 0 {
				must(rt, "row", text, o, tm.big, func() { testutil.MustParseRow(text) })
			}
			tm = &textModel{runes: tm.runes, k: tm.k}
			var want []types.Row
			o = tm.run(func() {
				for more := true; more; more = !tm.end() {
					want = append(want, tm.row())
				}
			})
			rows, err := testutil.ParseRows(pickReader(rt, text, tm.k))
			if judge(rt, c, "rows", text, tm, o, err) && showRows(rows) != showRows(want) {
				rt.Fatalf("rows of %q: got %s, want %s", text, showRows(rows), showRows(want))
			}
			if tm.k < 0 {
				must(rt, "rows", text, o, tm.big, func() { testutil.MustParseRows(text) })
			}
		})
	})
	t.Run("columns", func(t *testing.T) {
		h.Check(t, 4000, func(rt *rapid.T, c *h.Case) {
			fine := h.Chance(rt, 65, "fine")
			text := drawColumnsText(rt, fine)
			if !fine && h.Chance(rt, 60, "broken") {
				text = drawBroken(rt, text, columnLetters)
			}
			tm := &textModel{runes: []rune(text), k: where(rt, text)}
			c.Note("%q %d", text, tm.k)
			c.NonTrivial("%q %d", text, tm.k)
			var want []columnText
			o := tm.run(func() { want = tm.columns() })
			cols, colTypes, key, err := testutil.ParseColumns(pickReader(rt, text, tm.k))
			if judge(rt, c, "columns", text, tm, o, err) {
				var wcols []types.Identifier
				var wtypes []types.ColumnType
				var wkey []types.ColumnKey
				for i, ct := range want {
					wcols = append(wcols, types.ID(ct.name, false))
					wtypes = append(wtypes, ct.typ)
					for ; ct.primary > 0; ct.primary-- {
						wkey = append(wkey, types.MakeColumnKey(types.ColumnNum(i), false))
					}
				}
				if !slices.Equal(cols, wcols) || !slices.Equal(colTypes, wtypes) || !slices.Equal(key, wkey) {
					rt.Fatalf("columns of %q: got %v %v %v; want %v %v %v", text, cols, colTypes, key, wcols,
						wtypes, wkey)
				}
			}
			if tm.k < 0 {
				must(rt, "columns", text, o, tm.big, func() { testutil.MustParseColumns(text) })
			}
		})
	})
	t.Run("names", func(t *testing.T) {
		h.Check(t, 2000, func(rt *rapid.T, c *h.Case) {
			fine := h.Chance(rt, 65, "fine")
			text := ""
			for i, n := 0, h.N(rt, 4, "names"); i <= n; i++ {
				if i > 0 {
					text += drawComma(rt, fine)
				}
				text += drawNameText(rt, fine)
			}
			text += choose(rt, fine, "end", list("", "", " "), list(",", ";"))
			if !fine && h.Chance(rt, 60, "broken") {
				text = drawBroken(rt, text, columnLetters)
			}
			tm := &textModel{runes: []rune(text), k: where(rt, text)}
			c.Note("%q %d", text, tm.k)
			c.NonTrivial("%q %d", text, tm.k)
			var first string
			o := tm.run(func() { first = tm.name() })
			rd := pickReader(rt, text, tm.k)
			id, err := testutil.ParseIdentifier(rd)
			if judge(rt, c, "name", text, tm, o, err) {
				if id != types.ID(first, false) {
					rt.Fatalf("name of %q: got %s, want %s", text, id, first)
				}
				if tm.k < 0 {
					if rest, w := restOf(rd), string(tm.runes[tm.at:]); rest != w {
						rt.Fatalf("name of %q: leaves %q, want %q", text, rest, w)
					}
				}
			}
			tm = &textModel{runes: tm.runes, k: tm.k}
			var want []types.Identifier
			o = tm.run(func() {
				for more := true; more; more = !tm.end() {
					want = append(want, types.ID(tm.name(), false))
				}
			})
			ids, err := testutil.ParseIdentifiers(pickReader(rt, text, tm.k))
			if judge(rt, c, "names", text, tm, o, err) && !slices.Equal(ids, want) {
				rt.Fatalf("names of %q: got %v, want %v", text, ids, want)
			}
			if tm.k < 0 {
				must(rt, "names", text, o, false, func() { testutil.MustParseIdentifiers(text) })
			}
		})
	})
	t.Run("panicked", func(t *testing.T) {
		h.Check(t, 500, func(rt *rapid.T, c *h.Case) {
			what := h.N(rt, 5, "what")
			c.Note("%d", what)
			c.NonTrivial("%d", what)
			werr := errors.New("some error")
			var err error
			var panicked bool
			p := h.Panicked(func() {
				err, panicked = testutil.ErrorPanicked(func() error {
					switch what {
					case 0:
						panic("a message")
					case 1:
						return werr
					case 2:
						panic(werr)
					case 3:
						var m map[int]int
						m[1] = 1
					}
					return nil
				})
			})
			wantErr, wantPanicked := error(nil), what == 0
			if what == 1 {
				wantErr = werr
			}
			if (p != nil) != (what == 2 || what == 3) {
				rt.Fatalf("case %d: panics with %v", what, p)
			}
			if p == nil && (err != wantErr || panicked != wantPanicked) {
				rt.Fatalf("case %d: %v, %v", what, err, panicked)
			}
		})
	})
}
