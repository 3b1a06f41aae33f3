package gen

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/leftmike/maho/types"

	"mahoverif/h"

	"pgregory.net/rapid"
)

var (
	anyRune = rapid.OneOf(
		rapid.SampledFrom([]rune("abcxyz \t01'\"\\;-/*()[]`,.%&|")),
		rapid.SampledFrom([]rune{'\n', '\r', 0, 7, 0x7f, 0x80, 0xff, 0x100, 'é', 'ж', '日', 0x1F600,
			0x10FFFF, 0xFFFD, 0x2028}),
		rapid.Rune(),
	)
	plainRune = rapid.SampledFrom([]rune("abcdefghijklmnopqrstuvwxyz ABC_0123456789.,;:()[]-+*/\"\\éж日"))
)

// Spelling writes a literal so that it has the given value.
type Spelling struct {
	Text string
	Val  types.Value
}

// intText gives the spelling of an integer; the sign is part of it.
func intLit(t *rapid.T, nonneg bool) (string, int64) {
	var i int64
	switch h.N(t, 6, "int") {
	case 0, 1:
		i = int64(h.N(t, 10, "digit"))
	case 2:
		i = int64(h.N(t, 100000, "small"))
	case 3:
		i = h.Pick(t, "edge", int64(math.MaxInt64), math.MaxInt64-1, math.MaxInt32,
			math.MaxInt32+1, math.MaxInt16, 1<<53, 1<<53+1, 1000000000000000000)
	case 4:
		i = rapid.Int64Range(0, math.MaxInt64).Draw(t, "int64")
	case 5:
		if nonneg {
			return "0", 0
		}
		i = h.Pick(t, "negedge", int64(math.MinInt64), math.MinInt64+1, math.MinInt32, -1)
		return strconv.FormatInt(i, 10), i
	}
	s := strconv.FormatInt(i, 10)
	if h.Chance(t, 10, "zeros") {
		s = "00" + s
	}
	if nonneg {
		return s, i
	}
	switch h.N(t, 6, "sign") {
	case 0:
		return "-" + s, -i
	case 1:
		return "+" + s, i
	}
	return s, i
}

// floatLit gives the spelling of a float with a decimal point and without an exponent.
func floatLit(t *rapid.T, print bool) (string, float64) {
	var s string
	switch h.N(t, 4, "float") {
	case 0:
		s = fmt.Sprintf("%d.%d", h.N(t, 10, "whole"), 1+h.N(t, 9, "frac"))
	case 1:
		s = fmt.Sprintf("%d.%04d", h.N(t, 1000, "whole"), 1+h.N(t, 9999, "frac"))
	case 2:
		if print {
			s = "0.5"
		} else {
			s = h.Pick(t, "edge", "0.0", "1.", "00.50", "123456789012345678901234567890.125",
				"0.1", "0.30000000000000004", "9007199254740993.0",
				"179769313486231570000000000000000000000000000000000000.0",
				"0.00000000000000000000000000000000000000000000000000000000000049")
		}
	case 3:
		f := rapid.Float64Range(0.001, 100000).Draw(t, "float64")
		if f == math.Trunc(f) {
			f += 0.5
		}
		s = strconv.FormatFloat(f, 'f', -1, 64)
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		t.Fatalf("generator: %s: %s", s, err)
	}
	switch h.N(t, 6, "sign") {
	case 0:
		return "-" + s, math.Copysign(f, -1)
	case 1:
		return "+" + s, f
	}
	return s, f
}

func quoteSeparators(t *rapid.T) string {
	return h.Pick(t, "continue", "'\n'", "' \n '", "'\r\n\t'", "'\n\n  \n'", "'\r'")
}

// PlainString spells a string as '...', with continuations.
func PlainString(t *rapid.T, simple bool) (string, string) {
	var txt, val strings.Builder
	txt.WriteByte('\'')
	n := h.N(t, 8, "runes")
	for i := 0; i < n; i++ {
		var r rune
		if simple {
			r = plainRune.Draw(t, "rune")
		} else {
			r = anyRune.Draw(t, "rune")
			if !simple && h.Chance(t, 8, "break") {
				txt.WriteString(quoteSeparators(t))
			}
		}
		val.WriteRune(r)
		if r == '\'' {
			txt.WriteString("''")
		} else {
			txt.WriteRune(r)
		}
	}
	if h.Chance(t, 15, "quote") {
		txt.WriteString("''")
		val.WriteByte('\'')
	}
	txt.WriteByte('\'')
	return txt.String(), val.String()
}

var escapes = map[byte]string{
	'a': "\a", 'b': "\b", 't': "\t", 'n': "\n", 'v': "\v", 'f': "\f", 'r': "\r",
	'\\': "\\", '\'': "'", '"': "\"",
}

// escaped spells one element of an escaped string or, with byts, an escaped byte string.
func escaped(t *rapid.T, byts bool) (string, string) {
	switch h.N(t, 10, "element") {
	case 9: // any other character stands for itself
		r := anyRune.Draw(t, "rune")
		if strings.ContainsRune("abtnvfrxuU01234567", r) {
			r = h.Pick(t, "other", '\n', '8', 'q', 'N', '\r')
		}
		return "\\" + string(r), string(r)
	case 0, 1:
		c := h.Pick(t, "escape", 'a', 'b', 't', 'n', 'v', 'f', 'r', '\\', '\'', '"')
		return "\\" + string(c), escapes[byte(c)]
	case 2:
		b := byte(h.N(t, 256, "hex"))
		f := h.Pick(t, "hexcase", "\\x%02x", "\\x%02X")
		if byts {
			return fmt.Sprintf(f, b), string([]byte{b})
		}
		return fmt.Sprintf(f, b), string(rune(b))
	case 3:
		b := byte(h.N(t, 256, "octal"))
		if byts {
			return fmt.Sprintf("\\%03o", b), string([]byte{b})
		}
		return fmt.Sprintf("\\%03o", b), string(rune(b))
	case 4:
		r := validRune(t, 0xFFFF)
		return fmt.Sprintf(h.Pick(t, "ucase", "\\u%04x", "\\u%04X"), r), string(r)
	case 5:
		r := validRune(t, 0x10FFFF)
		return fmt.Sprintf(h.Pick(t, "Ucase", "\\U%08x", "\\U%08X"), r), string(r)
	case 6:
		return "''", "'"
	}
	r := anyRune.Draw(t, "rune")
	if r == '\'' || r == '\\' {
		r = 'q'
	}
	return string(r), string(r)
}

func validRune(t *rapid.T, max rune) rune {
	r := h.Pick(t, "rune", rune(0), 'A', 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd,
		0xffff, 0x10000, 0x1F600, 0x10FFFF)
	if h.Chance(t, 50, "any") {
		r = rapid.Int32Range(0, 0x10FFFF).Draw(t, "code")
	}
	if r > max {
		r &= 0xFFF
	}
	if r >= 0xD800 && r <= 0xDFFF {
		r -= 0x1000
	}
	return r
}

// EscapedString spells a string as E'...', or bytes as b'...'.
func EscapedString(t *rapid.T, byts bool) (string, string) {
	var txt, val strings.Builder
	if byts {
		txt.WriteString("b'")
	} else {
		txt.WriteString(h.Pick(t, "prefix", "e'", "E'"))
	}
	n := h.N(t, 7, "elements")
	for i := 0; i < n; i++ {
		if h.Chance(t, 6, "break") {
			txt.WriteString(quoteSeparators(t))
		}
		s, v := escaped(t, byts)
		txt.WriteString(s)
		val.WriteString(v)
	}
	txt.WriteByte('\'')
	return txt.String(), val.String()
}

// HexBytes spells bytes as x'...'.
func HexBytes(t *rapid.T) (string, []byte) {
	b := make([]byte, h.N(t, 6, "bytes"))
	var txt strings.Builder
	txt.WriteString(h.Pick(t, "prefix", "x'", "X'"))
	for i := range b {
		b[i] = byte(h.N(t, 256, "byte"))
		fmt.Fprintf(&txt, h.Pick(t, "hexcase", "%02x", "%02X"), b[i])
	}
	txt.WriteByte('\'')
	return txt.String(), b
}

// BadLiteral spells a literal that denotes no value; no quote in it is left open.
func BadLiteral(t *rapid.T) string {
	switch h.N(t, 9, "bad") {
	case 0:
		return "9223372036854775808"
	case 1:
		return "-9223372036854775809"
	case 2:
		return strings.Repeat("9", 19+h.N(t, 20, "digits"))
	case 3:
		return "1" + strings.Repeat("0", 309+h.N(t, 40, "digits")) + ".0"
	case 4:
		return h.Pick(t, "escape", `e'\xg1'`, `e'\x1g'`, `e'\u00g0'`, `e'\u12 4'`, `e'\U0011ffff'`,
			`e'\U00110000'`, `E'\ud800'`, `e'\udfff'`, `e'\UFFFFFFFF'`, `e'\081'`, `e'\18'`,
			`b'\xzz'`, `b'\400g'`[:4]+`8'`, `e'\U80000041'`)
	case 5:
		return h.Pick(t, "hex", "x'1'", "x'0g'", "x'123'", "X'zz'", "x'1 2'", "x'12 34'")
	case 6:
		return h.Pick(t, "parameter", "$0", "$000", "$99999999999999999999", "$", "$a")
	case 7:
		return h.Pick(t, "char", "#", "?", "~", "{", "}", "^", ":", "\\")
	case 8:
		// Digits of other scripts.
		digits := []rune(strconv.Itoa(h.N(t, 1000000, "number")))
		i := h.N(t, len(digits), "digit")
		digits[i] = h.Pick(t, "script", '\u0660', '\u06f0', '\u0966', '\uff10', '\U0001d7ce') + digits[i] - '0'
		s := string(digits)
		switch h.N(t, 5, "what") {
		case 0:
			s = "-" + s
		case 1:
			s = "1." + s
		case 2:
			s += ".5"
		case 3:
			s = "$" + s
		}
		return s
	}
	panic("never reached")
}
