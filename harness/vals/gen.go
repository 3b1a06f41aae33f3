// Package vals generates values and says what should become of them.
package vals

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/leftmike/maho/types"

	"mahoverif/h"

	"pgregory.net/rapid"
)

var (
	EdgeInts = []int64{0, 1, -1, 2, -2, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1,
		math.MinInt64 + 1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1,
		math.MaxInt16, math.MaxInt16 + 1, math.MinInt16, math.MinInt16 - 1, 1 << 53, 1<<53 + 1,
		1<<53 - 1, -(1 << 53), -(1<<53 + 1), 255, 256, 127, 128, -128, -129, 1 << 62,
		1<<62 + 1, 9007199254740995}
	EdgeFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 1.5, math.MaxFloat64,
		-math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Inf(1),
		math.Inf(-1), math.NaN(), 1 << 53, 1<<53 + 2, -(1 << 53), 1 << 63, -(1 << 63),
		9223372036854774784, -9223372036854777856, 32767.9, 32768, -32768.5, -32769, 2147483647.5,
		2147483648, -2147483649, 0.1, 1e-5, 1e300, 2.5, 3.5, -2.5,
		math.Float64frombits(0x7ff8000000000001), math.Float64frombits(0xfff8000000000000),
		math.Float64frombits(0x7ff0000000000001)}
)

func Int(t *rapid.T) int64 {
	switch h.N(t, 5, "int") {
	case 0:
		return int64(h.N(t, 7, "small")) - 3
	case 1, 2:
		return h.Pick(t, "edge", EdgeInts...)
	case 3:
		return h.Pick(t, "edge", EdgeInts...) + int64(h.N(t, 5, "near")) - 2
	}
	return rapid.Int64().Draw(t, "any")
}

func Float(t *rapid.T) float64 {
	switch h.N(t, 6, "float") {
	case 0:
		return float64(h.N(t, 9, "small"))/2 - 2
	case 1:
		return h.Pick(t, "edge", EdgeFloats...)
	case 2: // next to an integer
		f := float64(Int(t))
		switch h.N(t, 4, "next") {
		case 1:
			f = math.Nextafter(f, math.Inf(1))
		case 2:
			f = math.Nextafter(f, math.Inf(-1))
		case 3:
			f += 0.5
		}
		return f
	case 3:
		f := h.Pick(t, "edge", EdgeFloats...)
		if h.Chance(t, 50, "up") {
			return math.Nextafter(f, math.Inf(1))
		}
		return math.Nextafter(f, math.Inf(-1))
	case 4:
		return math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
	}
	return rapid.Float64Range(-1e6, 1e6).Draw(t, "any")
}

var byteAlphabet = []byte{0, 0, 1, 1, 2, 'a', 'b', 0x7f, 0x80, 0xfe, 0xff, 0xff}

// Bytes draws bytes out of few, so that they are often equal or prefixes of each other.
func Bytes(t *rapid.T, max int) []byte {
	n := h.N(t, max+1, "len")
	b := make([]byte, n)
	for i := range b {
		b[i] = byteAlphabet[h.N(t, len(byteAlphabet), "byte")]
	}
	return b
}

var strPieces = []string{"\x00", "\x01", "\x02", "a", "b", "ab", "é", "日", "\u00ff", "\u0080",
	"\U0010ffff", " ", "'", "A", "0", "z"}

func String(t *rapid.T, max int) string {
	var sb strings.Builder
	for n := h.N(t, max+1, "len"); n > 0; n-- {
		sb.WriteString(strPieces[h.N(t, len(strPieces), "piece")])
	}
	return sb.String()
}

var wordsLikeValues = []string{"t", "true", "y", "yes", "on", "1", "f", "false", "n", "no", "off",
	"0", "TRUE", "True", " true ", "\ttrue\n", "yes ", " 0", "", " ", "12", "-12", "+12", " 12 ", "012",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"32767", "32768", "-32769", "2147483648", "1.5", "-1.5", ".5", "5.", "1e3", "1E-3", "1e999", "-1e999",
	"inf", "-Inf", "nan", "NaN", "infinity", "0x10", "0x1p-2", "1_000", "--1", "1 2", "tt", "truee",
	"12a", "a12", "١", "1\x00", "0b1", "+", "-", "1e", "null", "NULL", "4.9406564584124654e-324",
	"0.1", "100000000000000000000000000000000.5", `\x`, `\x41`, `\\x41`, `\101`, `\n`, "x'41'", "0x41",
	"'a'", `"a"`, "%41", "&amp;"}

// StringValue draws any string, often one that reads like another value.
func AnyString(t *rapid.T) string {
	switch h.N(t, 7, "string") {
	case 0, 1, 2:
		return h.Pick(t, "word", wordsLikeValues...)
	case 6:
		// A value with one character too many, somewhere.
		s := h.Pick(t, "word", wordsLikeValues...)
		if h.Chance(t, 50, "number") {
			s = strconv.FormatInt(int64(h.N(t, 2000, "small"))-1000, 10)
		}
		i := h.Pick(t, "where", 0, len(s), h.N(t, len(s)+1, "at"))
		return s[:i] + string(rune(1+h.N(t, 127, "character"))) + s[i:]
	case 3:
		s := strconv.FormatInt(Int(t), 10)
		return h.Pick(t, "space", "", " ", "\n") + s + h.Pick(t, "space", "", " ", "\t")
	case 4:
		return strconv.FormatFloat(Float(t), h.Pick(t, "format", byte('g'), 'f', 'e'), -1, 64)
	}
	if h.Chance(t, 10, "invalid") {
		return String(t, 3) + "\xff"
	}
	return String(t, 8)
}

// Value draws any value.
func Value(t *rapid.T) types.Value {
	switch h.Weighted(t, "value", 1, 1, 4, 4, 3, 2) {
	case 0:
		return nil
	case 1:
		return types.BoolValue(h.Chance(t, 50, "bool"))
	case 2:
		return types.Int64Value(Int(t))
	case 3:
		return types.Float64Value(Float(t))
	case 4:
		if h.Chance(t, 50, "like") {
			return types.StringValue(AnyString(t))
		}
		return types.StringValue(String(t, 4))
	}
	return types.BytesValue(Bytes(t, 5))
}

// ValueOf draws a value of a type.
func ValueOf(t *rapid.T, vt types.ValueType) types.Value {
	switch vt {
	case types.BoolType:
		return types.BoolValue(h.Chance(t, 50, "bool"))
	case types.Int64Type:
		return types.Int64Value(Int(t))
	case types.Float64Type:
		return types.Float64Value(Float(t))
	case types.StringType:
		return types.StringValue(String(t, 4))
	}
	return types.BytesValue(Bytes(t, 5))
}

func Show(v types.Value) string {
	switch v := v.(type) {
	case nil:
		return "NULL"
	case types.Float64Value:
		return fmt.Sprintf("%v(%x)", float64(v), math.Float64bits(float64(v)))
	case types.StringValue:
		return fmt.Sprintf("%q", string(v))
	case types.BytesValue:
		return fmt.Sprintf("x'%x'", []byte(v))
	}
	return v.String()
}

func ShowRow(row types.Row) string {
	var ss []string
	for _, v := range row {
		ss = append(ss, Show(v))
	}
	return "(" + strings.Join(ss, ", ") + ")"
}

// rank gives the order of the kinds of values.
func rank(v types.Value) int {
	switch v.(type) {
	case nil:
		return 0
	case types.BoolValue:
		return 1
	case types.Int64Value, types.Float64Value:
		return 2
	case types.StringValue:
		return 3
	case types.BytesValue:
		return 4
	}
	panic("unexpected value")
}

// number gives the exact value of a number: its class (NaN, -infinity, finite, infinity) and, if
// it is finite, its value.
func number(v types.Value) (int, *big.Rat) {
	switch v := v.(type) {
	case types.Int64Value:
		return 2, new(big.Rat).SetInt64(int64(v))
	case types.Float64Value:
		f := float64(v)
		switch {
		case math.IsNaN(f):
			return 0, nil
		case math.IsInf(f, -1):
			return 1, nil
		case math.IsInf(f, 1):
			return 3, nil
		}
		return 2, new(big.Rat).SetFloat64(f)
	}
	panic("unexpected number")
}

// Compare is the model of types.Compare, with exact arithmetic.
func Compare(a, b types.Value) int {
	sign := func(x, y int) int {
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	}
	if c := sign(rank(a), rank(b)); c != 0 {
		return c
	}
	switch a := a.(type) {
	case nil:
		return 0
	case types.BoolValue:
		b2i := map[types.BoolValue]int{false: 0, true: 1}
		return sign(b2i[a], b2i[b.(types.BoolValue)])
	case types.StringValue:
		return compareBytes([]byte(a), []byte(b.(types.StringValue)))
	case types.BytesValue:
		return compareBytes([]byte(a), []byte(b.(types.BytesValue)))
	}
	ca, ra := number(a)
	cb, rb := number(b)
	if ca != cb || ra == nil {
		return sign(ca, cb)
	}
	return ra.Cmp(rb)
}

func compareBytes(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	} else if len(a) > len(b) {
		return 1
	}
	return 0
}

// CompareKeys is the model of the order of rows by key columns: NULL is first in either direction.
func CompareKeys(key []types.ColumnKey, a, b types.Row) int {
	for _, ck := range key {
		num, desc := int(ck), false
		if num < 0 {
			num, desc = -num, true
		}
		x, y := a[num-1], b[num-1]
		c := Compare(x, y)
		if desc && x != nil && y != nil {
			c = -c
		}
		if c != 0 {
			return c
		}
	}
	return 0
}

// Same reports whether two values are the same in type and every bit.
func Same(a, b types.Value) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case types.Float64Value:
		b, ok := b.(types.Float64Value)
		return ok && math.Float64bits(float64(a)) == math.Float64bits(float64(b))
	case types.BytesValue:
		b, ok := b.(types.BytesValue)
		return ok && string(a) == string(b)
	}
	return a == b
}

func SameRow(a, b types.Row) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Near draws a value that is equal or close to v.
func Near(t *rapid.T, v types.Value) types.Value {
	switch v := v.(type) {
	case types.BoolValue:
		return types.BoolValue(h.Chance(t, 50, "bool"))
	case types.Int64Value:
		switch h.N(t, 4, "near") {
		case 0:
			return v
		case 1:
			return types.Float64Value(v)
		case 2:
			return types.Float64Value(math.Nextafter(float64(v), math.Inf(h.Pick(t, "to", -1, 1))))
		}
		return v + types.Int64Value(h.N(t, 5, "by")-2)
	case types.Float64Value:
		switch h.N(t, 4, "near") {
		case 0:
			return -v
		case 1:
			if f := float64(v); f > -9e18 && f < 9e18 {
				return types.Int64Value(f)
			}
			return v
		case 2:
			return types.Float64Value(math.Nextafter(float64(v), math.Inf(h.Pick(t, "to", -1, 1))))
		}
		return v
	case types.StringValue:
		switch h.N(t, 5, "near") {
		case 0:
			return v + types.StringValue(strPieces[h.N(t, len(strPieces), "piece")])
		case 1:
			return v + "\x00"
		case 2:
			return types.BytesValue(v)
		case 3:
			if len(v) > 0 {
				r := []rune(string(v))
				return types.StringValue(string(r[:len(r)-1]))
			}
		}
		return v
	case types.BytesValue:
		switch h.N(t, 4, "near") {
		case 0:
			return append(append(types.BytesValue{}, v...), byteAlphabet[h.N(t, len(byteAlphabet), "byte")])
		case 1:
			return types.StringValue(v)
		case 2:
			if len(v) > 0 {
				return v[: len(v)-1 : len(v)-1]
			}
		}
		return append(types.BytesValue{}, v...)
	}
	return Value(t)
}

// ColumnType draws a column type.
func ColumnType(t *rapid.T) types.ColumnType {
	ct := types.ColumnType{NotNull: h.Chance(t, 40, "not null")}
	switch h.N(t, 5, "type") {
	case 0:
		ct.Type = types.BoolType
		ct.Size = h.Pick(t, "size", uint32(1), 1, 0)
	case 1:
		ct.Type = types.Int64Type
		ct.Size = h.Pick(t, "size", uint32(2), 4, 8, 1)
	case 2:
		ct.Type = types.Float64Type
		ct.Size = h.Pick(t, "size", uint32(8), 4, 8, 0)
	case 3:
		ct.Type = types.StringType
		ct.Size, ct.Fixed = size(t)
	case 4:
		ct.Type = types.BytesType
		ct.Size, ct.Fixed = size(t)
	}
	return ct
}

func size(t *rapid.T) (uint32, bool) {
	n := uint32(types.MaxColumnSize)
	if !h.Chance(t, 25, "unlimited") {
		n = uint32(1 + h.N(t, 12, "size"))
	}
	return n, h.Chance(t, 20, "fixed")
}
