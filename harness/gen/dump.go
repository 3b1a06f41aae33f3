package gen

import (
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

var (
	idType     = reflect.TypeOf(types.Identifier(0))
	readerType = reflect.TypeOf((*io.RuneReader)(nil)).Elem()
)

// Dump writes any value of the parser as text; equal values, and only those, give the same text.
// Pointers are transparent, and empty slices and maps are the same as missing ones.
func Dump(v any) string {
	var sb strings.Builder
	dumper{}.dump(&sb, reflect.ValueOf(v))
	return sb.String()
}

// DumpLoose is Dump, but parentheses around expressions make no difference.
func DumpLoose(v any) string {
	var sb strings.Builder
	dumper{loose: true}.dump(&sb, reflect.ValueOf(v))
	return sb.String()
}

type dumper struct {
	loose bool
}

func (d dumper) dump(sb *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if v.Type() == idType {
		fmt.Fprintf(sb, "%q#%d", v.Interface().(types.Identifier).String(), v.Int())
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Type() == readerType {
			sb.WriteString("reader")
			return
		}
		d.dump(sb, v.Elem())
	case reflect.Struct:
		if ue, ok := v.Interface().(sql.UnaryExpr); ok && d.loose && ue.Op == sql.NoOp {
			d.dump(sb, reflect.ValueOf(ue.Expr))
			return
		}
		sb.WriteString(v.Type().Name())
		sb.WriteByte('{')
		n := 0
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() {
				continue
			}
			if n > 0 {
				sb.WriteByte(' ')
			}
			n++
			sb.WriteString(f.Name)
			sb.WriteByte(':')
			if f.Type == readerType {
				sb.WriteString("reader")
				continue
			}
			d.dump(sb, v.Field(i))
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%s(%x)", v.Type().Name(), v.Bytes())
			return
		}
		if v.Len() == 0 {
			sb.WriteString("[]")
			return
		}
		sb.WriteString(v.Type().Name())
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			d.dump(sb, v.Index(i))
		}
		sb.WriteByte(']')
	case reflect.Map:
		var ss []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			d.dump(&e, k)
			e.WriteByte('=')
			d.dump(&e, v.MapIndex(k))
			ss = append(ss, e.String())
		}
		sort.Strings(ss)
		fmt.Fprintf(sb, "map%v", ss)
	case reflect.String:
		fmt.Fprintf(sb, "%s%q", v.Type().Name(), v.String())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%s(%g:%x)", v.Type().Name(), v.Float(), math.Float64bits(v.Float()))
	case reflect.Bool:
		fmt.Fprintf(sb, "%s(%t)", v.Type().Name(), v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(sb, "%s(%d)", v.Type().Name(), v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(sb, "%s(%d)", v.Type().Name(), v.Uint())
	default:
		panic("dump: " + v.Type().String())
	}
}
