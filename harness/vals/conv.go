package vals

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/leftmike/maho/types"
)

var (
	integer = regexp.MustCompile(`^[ \t\n]*([+-]?[0-9]+)[ \t\n]*$`)
	decimal = regexp.MustCompile(`^[ \t\n]*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?[ \t\n]*$`)
	truths  = map[string]bool{"t": true, "true": true, "y": true, "yes": true, "on": true, "1": true,
		"f": false, "false": false, "n": false, "no": false, "off": false, "0": false}
)

// Conforms says why a value does not belong in a column; "" if it does.
func Conforms(ct types.ColumnType, v types.Value) string {
	if v == nil {
		if ct.NotNull {
			return "NULL"
		}
		return ""
	}
	switch v := v.(type) {
	case types.BoolValue:
		if ct.Type == types.BoolType {
			return ""
		}
	case types.Int64Value:
		if ct.Type == types.Int64Type {
			if ct.Size == 1 && v != types.Int64Value(int8(v)) ||
				ct.Size == 2 && v != types.Int64Value(int16(v)) ||
				ct.Size == 4 && v != types.Int64Value(int32(v)) {
				return "out of range"
			}
			return ""
		}
	case types.Float64Value:
		if ct.Type == types.Float64Type {
			return ""
		}
	case types.StringValue:
		if ct.Type == types.StringType {
			if uint64(utf8.RuneCountInString(string(v))) > uint64(ct.Size) {
				return "too long"
			}
			return ""
		}
	case types.BytesValue:
		if ct.Type == types.BytesType {
			if uint64(len(v)) > uint64(ct.Size) {
				return "too long"
			}
			return ""
		}
	}
	return "wrong type"
}

// Must says whether a value has to be accepted by a column: values of its type that surely fit,
// and plain spellings of such values.
func Must(ct types.ColumnType, v types.Value) bool {
	switch v := v.(type) {
	case nil:
		return !ct.NotNull
	case types.BoolValue:
		return ct.Type == types.BoolType
	case types.Int64Value:
		return ct.Type == types.Int64Type && Conforms(ct, v) == "" || ct.Type == types.Float64Type ||
			ct.Type == types.StringType && len(v.String()) <= int(ct.Size)
	case types.Float64Value:
		f := float64(v)
		if ct.Type == types.Int64Type && f >= -(1<<63) && f < 1<<63 {
			return Conforms(ct, types.Int64Value(f)) == ""
		}
		return ct.Type == types.Float64Type || ct.Type == types.StringType && ct.Size > 40
	case types.StringValue:
		switch ct.Type {
		case types.StringType, types.BytesType:
			return uint64(len(v)) <= uint64(ct.Size)
		case types.BoolType:
			_, ok := truths[strings.Trim(string(v), " \t\n")]
			return ok
		case types.Int64Type:
			i, ok := intOf(string(v))
			return ok && i.IsInt64() && Conforms(ct, types.Int64Value(i.Int64())) == ""
		case types.Float64Type:
			f, err := strconv.ParseFloat(strings.Trim(string(v), " \t\n"), 64)
			return err == nil && decimal.MatchString(string(v)) && !math.IsInf(f, 0)
		}
	case types.BytesValue:
		return uint64(len(v)) <= uint64(ct.Size) &&
			(ct.Type == types.BytesType || ct.Type == types.StringType && utf8.Valid(v))
	}
	return false
}

func intOf(s string) (*big.Int, bool) {
	m := integer.FindStringSubmatch(s)
	if m == nil {
		return nil, false
	}
	return new(big.Int).SetString(m[1], 10)
}

// denotes says whether a converted value is what the value denotes in the type.
func denotes(vt types.ValueType, from, to types.Value) bool {
	switch vt {
	case types.BoolType:
		switch v := from.(type) {
		case types.BoolValue:
			return Same(v, to)
		case types.StringValue:
			b, ok := truths[strings.ToLower(strings.TrimSpace(string(v)))]
			return ok && Same(types.BoolValue(b), to)
		}
	case types.Int64Type:
		switch v := from.(type) {
		case types.Int64Value:
			return Same(v, to)
		case types.Float64Value:
			f := math.Trunc(float64(v))
			r := new(big.Rat)
			return r.SetFloat64(f) != nil && r.Cmp(new(big.Rat).SetInt64(int64(to.(types.Int64Value)))) == 0
		case types.StringValue:
			i, ok := intOf(string(v))
			return ok && i.Cmp(big.NewInt(int64(to.(types.Int64Value)))) == 0
		}
	case types.Float64Type:
		switch v := from.(type) {
		case types.Float64Value:
			return Same(v, to)
		case types.Int64Value:
			return Same(types.Float64Value(v), to)
		case types.StringValue:
			f, err := strconv.ParseFloat(strings.TrimSpace(string(v)), 64)
			return err == nil && (Same(types.Float64Value(f), to) ||
				math.IsNaN(f) && math.IsNaN(float64(to.(types.Float64Value))))
		}
	case types.StringType:
		s := string(to.(types.StringValue))
		switch v := from.(type) {
		case types.StringValue:
			return Same(v, to)
		case types.Int64Value:
			i, ok := intOf(s)
			return ok && i.Cmp(big.NewInt(int64(v))) == 0
		case types.Float64Value:
			f, err := strconv.ParseFloat(s, 64)
			return err == nil && (Same(types.Float64Value(f), v) || math.IsNaN(f) && math.IsNaN(float64(v)))
		case types.BytesValue:
			return utf8.Valid(v) && s == string(v)
		}
	case types.BytesType:
		b := string(to.(types.BytesValue))
		switch v := from.(type) {
		case types.BytesValue:
			return b == string(v)
		case types.StringValue:
			return b == string(v)
		}
	}
	return false
}

// CheckConversion says what is wrong with the result of converting a value to a column type.
func CheckConversion(ct types.ColumnType, from, to types.Value, err error) string {
	if err != nil {
		if Must(ct, from) {
			return fmt.Sprintf("refused: %s", err)
		}
		return ""
	}
	if why := Conforms(ct, to); why != "" {
		return "the result does not fit: " + why
	}
	if from == nil || to == nil {
		if from != nil || to != nil {
			return "NULL appeared or disappeared"
		}
		return ""
	}
	if !denotes(ct.Type, from, to) {
		return "the result is another value"
	}
	return ""
}
