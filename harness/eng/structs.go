// Package eng checks typed tables and the catalog of the engine.
package eng

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strings"

	"github.com/leftmike/maho/types"

	"mahoverif/h"
	"mahoverif/vals"

	"pgregory.net/rapid"
)

type (
	namedBool   bool
	namedInt    int32
	namedFloat  float32
	namedString string
	namedBytes  []byte
	namedByte   byte
)

// field is a field of a generated struct and the column it has to become.
type field struct {
	name    string
	typ     reflect.Type
	tag     string
	col     types.Identifier
	ct      types.ColumnType
	primary bool
}

// structure is a generated struct type.
type structure struct {
	fields []field
	typ    reflect.Type
	key    []types.ColumnKey
}

var scalars = []struct {
	typ reflect.Type
	vt  types.ValueType
	sz  uint32
}{
	{reflect.TypeOf(false), types.BoolType, 0},
	{reflect.TypeOf(namedBool(false)), types.BoolType, 0},
	{reflect.TypeOf(int(0)), types.Int64Type, 8},
	{reflect.TypeOf(int8(0)), types.Int64Type, 1},
	{reflect.TypeOf(int16(0)), types.Int64Type, 2},
	{reflect.TypeOf(int32(0)), types.Int64Type, 4},
	{reflect.TypeOf(int64(0)), types.Int64Type, 8},
	{reflect.TypeOf(namedInt(0)), types.Int64Type, 4},
	{reflect.TypeOf(float32(0)), types.Float64Type, 8},
	{reflect.TypeOf(float64(0)), types.Float64Type, 8},
	{reflect.TypeOf(namedFloat(0)), types.Float64Type, 8},
	{reflect.TypeOf(""), types.StringType, 0},
	{reflect.TypeOf(namedString("")), types.StringType, 0},
	{reflect.TypeOf([]byte(nil)), types.BytesType, 0},
	{reflect.TypeOf(namedBytes(nil)), types.BytesType, 0},
	{reflect.TypeOf([]namedByte(nil)), types.BytesType, 0},
}

var words = []string{"Id", "Name", "ABC", "X", "Y1", "Col", "Num", "TableID", "Née", "Éa", "B2b",
	"HTTPServer", "Is", "Q9", "Ünder", "Key", "Value"}

var wordStart = regexp.MustCompile(`(\P{Lu})(\p{Lu})`)

// columnName is the lower case of a field name, its words separated by underscores.
func columnName(name string) string {
	return strings.ToLower(wordStart.ReplaceAllString(name, "${1}_${2}"))
}

func fieldName(t *rapid.T) string {
	s := ""
	for n := 1 + h.N(t, 3, "words"); n > 0; n-- {
		s += words[h.N(t, len(words), "word")]
	}
	return s
}

var columnNames = []string{"c", "Mixed Case", "select", "int", "é", "a.b", "quo\"te", "tab\tle", "x y",
	"_id", "__rowid2", "日本"}

// column is what a field of a declared struct type has to become.
func column(col string, vt types.ValueType, size uint32, notNull, primary bool) field {
	return field{col: types.ID(col, true), primary: primary,
		ct: types.ColumnType{Type: vt, Size: size, NotNull: notNull}}
}

// declared has struct types of a program; they all have the same name.
var declared = func() []*structure {
	var sts []*structure
	declare := func(st interface{}, cols ...field) {
		typ := reflect.TypeOf(st)
		ret := &structure{typ: typ}
		for i, f := range cols {
			f.name, f.typ, f.tag = typ.Field(i).Name, typ.Field(i).Type, string(typ.Field(i).Tag)
			if f.primary {
				ret.key = append(ret.key, types.MakeColumnKey(types.ColumnNum(i), false))
			}
			ret.fields = append(ret.fields, f)
		}
		sts = append(sts, ret)
	}
	{
		type row struct {
			Id   int64  `maho:"primary"`
			Name string `maho:"size=16"`
		}
		declare(row{}, column("id", types.Int64Type, 8, true, true),
			column("name", types.StringType, 16, true, false))
	}
	{
		type row struct {
			Id   int32
			Name string `maho:"size=9,primary"`
		}
		declare(row{}, column("id", types.Int64Type, 4, true, false),
			column("name", types.StringType, 9, true, true))
	}
	{
		type row struct {
			Name *string `maho:"size=16"`
			Id   int64   `maho:"name=key,primary"`
		}
		declare(row{}, column("name", types.StringType, 16, false, false),
			column("key", types.Int64Type, 8, true, true))
	}
	{
		type row struct {
			Id   int64  `maho:"primary"`
			Name []byte `maho:"size=40,primary,notnull"`
		}
		declare(row{}, column("id", types.Int64Type, 8, true, true),
			column("name", types.BytesType, 40, true, true))
	}
	{
		type row struct {
			Value float32
			Title string `maho:"size=3,primary"`
		}
		declare(row{}, column("value", types.Float64Type, 8, true, false),
			column("title", types.StringType, 3, true, true))
	}
	{
		type row struct {
			Value *float64 `maho:"primary"`
			Title bool     `maho:"name=is_title"`
		}
		declare(row{}, column("value", types.Float64Type, 8, false, true),
			column("is_title", types.BoolType, 1, true, false))
	}
	return sts
}()

// genStruct draws a struct type; with a key if one is wanted.
func genStruct(t *rapid.T, withKey bool) *structure {
	if h.Chance(t, 6, "declared") {
		return declared[h.N(t, len(declared), "declared type")]
	}
	st := &structure{}
	used := map[string]bool{}
	usedCols := map[types.Identifier]bool{}
	n := 1 + h.N(t, 6, "fields")
	if h.Chance(t, 3, "wide") {
		n = 20 + h.N(t, 100, "many fields")
	}
	for ; n > 0; n-- {
		f := field{name: fieldName(t)}
		if used[f.name] {
			continue
		}
		used[f.name] = true
		sc := scalars[h.N(t, len(scalars), "type")]
		f.typ = sc.typ
		f.ct = types.ColumnType{Type: sc.vt, Size: sc.sz, NotNull: true}
		var tags []string
		f.col = types.ID(columnName(f.name), true)
		if h.Chance(t, 25, "named") {
			s := columnNames[h.N(t, len(columnNames), "column")]
			tags = append(tags, "name="+s)
			f.col = types.ID(s, true)
		}
		if usedCols[f.col] {
			continue
		}
		usedCols[f.col] = true
		size := uint32(1)
		if h.Chance(t, 60, "sized") {
			size = uint32(1 + h.N(t, 12, "size"))
			if h.Chance(t, 10, "large") {
				size = h.Pick(t, "large size", uint32(4096), 65536, 1<<31-1, 1<<31,
					types.MaxColumnSize)
			}
			tags = append(tags, fmt.Sprintf("size=%d", size))
		}
		switch sc.vt {
		case types.StringType, types.BytesType:
			f.ct.Size = size
		case types.BoolType:
			f.ct.Size = size // has no meaning
		}
		if sc.vt == types.BytesType {
			f.ct.NotNull = false
			if h.Chance(t, 50, "notnull") {
				tags = append(tags, "notnull")
				f.ct.NotNull = true
			}
		} else if h.Chance(t, 35, "pointer") {
			f.typ = reflect.PointerTo(f.typ)
			f.ct.NotNull = false
		}
		if h.Chance(t, 35, "primary") {
			f.primary = true
			tags = append(tags, "primary")
		}
		st.fields = append(st.fields, f)
		fp := &st.fields[len(st.fields)-1]
		perm := h.Perm(t, len(tags), "tags")
		var ts []string
		for _, i := range perm {
			ts = append(ts, tags[i])
		}
		fp.tag = makeTag(t, ts)
	}
	some := false
	for _, f := range st.fields {
		some = some || f.primary
	}
	if withKey && !some {
		n := h.N(t, len(st.fields), "key field")
		f := &st.fields[n]
		f.primary = true
		s, _ := reflect.StructTag(f.tag).Lookup("maho")
		if s != "" {
			s += ","
		}
		f.tag = fmt.Sprintf("maho:%q", s+"primary")
	}
	for i, f := range st.fields {
		if f.primary {
			st.key = append(st.key, types.MakeColumnKey(types.ColumnNum(i), false))
		}
	}
	st.typ = structOf(st.fields)
	return st
}

func makeTag(t *rapid.T, tags []string) string {
	s := ""
	if len(tags) > 0 {
		s = fmt.Sprintf("maho:%q", strings.Join(tags, ","))
	}
	if h.Chance(t, 15, "other tag") {
		s = strings.TrimSpace(`json:"primary,size=x" ` + s)
	}
	return s
}

func structOf(fields []field) reflect.Type {
	var fs []reflect.StructField
	for _, f := range fields {
		fs = append(fs, reflect.StructField{Name: f.name, Type: f.typ, Tag: reflect.StructTag(f.tag)})
	}
	return reflect.StructOf(fs)
}

func (st *structure) String() string {
	var ss []string
	for _, f := range st.fields {
		ss = append(ss, fmt.Sprintf("%s %s `%s`", f.name, f.typ, f.tag))
	}
	return "struct {" + strings.Join(ss, "; ") + "}"
}

// fill draws a value for a field.
func (f *field) fill(t *rapid.T, fv reflect.Value) {
	if f.typ.Kind() == reflect.Pointer {
		if h.Chance(t, 30, "nil") {
			fv.SetZero()
			return
		}
		p := reflect.New(f.typ.Elem())
		fill(t, p.Elem(), f.ct)
		fv.Set(p)
		return
	}
	if f.ct.Type == types.BytesType && h.Chance(t, 20, "nil") {
		fv.SetZero()
		return
	}
	fill(t, fv, f.ct)
}

func fill(t *rapid.T, fv reflect.Value, ct types.ColumnType) {
	switch ct.Type {
	case types.BoolType:
		fv.SetBool(h.Chance(t, 50, "bool"))
	case types.Int64Type:
		i := vals.Int(t)
		if h.Chance(t, 50, "few") {
			i = int64(h.N(t, 5, "few"))
		}
		shift := 64 - 8*ct.Size
		fv.SetInt(i << shift >> shift)
	case types.Float64Type:
		f := vals.Float(t)
		if h.Chance(t, 40, "few") {
			f = float64(h.N(t, 5, "few")) / 2
		}
		if fv.Kind() == reflect.Float32 && math.IsNaN(float64(float32(f))) {
			f = math.NaN() // a quiet one
		}
		fv.SetFloat(f)
	case types.StringType:
		s := vals.String(t, 3)
		for len(s) > int(ct.Size) {
			s = s[:len(s)-1]
		}
		fv.SetString(s)
	case types.BytesType:
		b := vals.Bytes(t, 4)
		if len(b) > int(ct.Size) {
			b = b[:ct.Size]
		}
		b = append(make([]byte, 0, len(b)+h.N(t, 3, "room")), b...)
		fv.SetBytes(b)
	}
}

// gen draws a struct; the result is a pointer to it.
func (st *structure) gen(t *rapid.T) reflect.Value {
	p := reflect.New(st.typ)
	for i := range st.fields {
		st.fields[i].fill(t, p.Elem().Field(i))
	}
	return p
}

// value is what the model says a field is as a value.
func (f *field) value(fv reflect.Value) types.Value {
	if !f.ct.NotNull && fv.IsNil() {
		return nil
	}
	if fv.Kind() == reflect.Pointer {
		fv = fv.Elem()
	}
	switch f.ct.Type {
	case types.BoolType:
		return types.BoolValue(fv.Bool())
	case types.Int64Type:
		return types.Int64Value(fv.Int())
	case types.Float64Type:
		return types.Float64Value(fv.Float())
	case types.StringType:
		return types.StringValue(fv.String())
	}
	return types.BytesValue(append([]byte{}, fv.Bytes()...))
}

func (st *structure) row(p reflect.Value) types.Row {
	row := make(types.Row, len(st.fields))
	for i := range st.fields {
		row[i] = st.fields[i].value(p.Elem().Field(i))
	}
	return row
}

// numbered draws n structs which mostly differ in a number.
func (st *structure) numbered(t *rapid.T, n int) []reflect.Value {
	var ps []reflect.Value
	p := st.gen(t)
	for i := 0; i < n; i++ {
		if h.Chance(t, 2, "other") {
			p = st.gen(t)
		}
		q := st.clone(p)
		for j, f := range st.fields {
			fv := q.Elem().Field(j)
			if fv.Kind() == reflect.Pointer {
				if fv.IsNil() {
					continue
				}
				fv = fv.Elem()
			}
			switch {
			case f.ct.Type == types.Int64Type && f.ct.Size > 1:
				fv.SetInt(int64(i * 7 % 1009))
			case f.ct.Type == types.Float64Type:
				fv.SetFloat(float64(i))
			case f.ct.Type == types.StringType && f.ct.Size >= 3:
				fv.SetString(fmt.Sprintf("%03d", i))
			case f.ct.Type == types.BytesType && f.ct.Size >= 3:
				fv.SetBytes([]byte(fmt.Sprintf("%03d", i)))
			}
		}
		ps = append(ps, q)
	}
	return ps
}

// clone copies a struct and everything it points to.
func (st *structure) clone(p reflect.Value) reflect.Value {
	n := reflect.New(st.typ)
	for i := range st.fields {
		from, to := p.Elem().Field(i), n.Elem().Field(i)
		switch {
		case from.Kind() == reflect.Pointer:
			if !from.IsNil() {
				to.Set(reflect.New(from.Type().Elem()))
				to.Elem().Set(from.Elem())
			}
		case from.Kind() == reflect.Slice:
			if !from.IsNil() {
				to.SetBytes(append([]byte{}, from.Bytes()...))
			}
		default:
			to.Set(from)
		}
	}
	return n
}

// diff says in which field two structs differ.
func (st *structure) diff(a, b reflect.Value) string {
	for i, f := range st.fields {
		x, y := a.Elem().Field(i), b.Elem().Field(i)
		if !f.ct.NotNull && x.IsNil() != y.IsNil() {
			return fmt.Sprintf("field %s: %s and %s", f.name, showField(x), showField(y))
		}
		same := false
		switch {
		case x.Kind() == reflect.Slice:
			same = bytes.Equal(x.Bytes(), y.Bytes())
		case x.Kind() == reflect.Pointer && x.IsNil():
			same = true
		default:
			same = vals.Same(f.value(x), f.value(y))
		}
		if !same {
			return fmt.Sprintf("field %s: %s and %s", f.name, showField(x), showField(y))
		}
	}
	return ""
}

func showField(v reflect.Value) string {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return "nil"
		}
		return "&" + showField(v.Elem())
	}
	return fmt.Sprintf("%#v", v.Interface())
}

func (st *structure) show(p reflect.Value) string {
	var ss []string
	for i, f := range st.fields {
		ss = append(ss, f.name+": "+showField(p.Elem().Field(i)))
	}
	return "{" + strings.Join(ss, ", ") + "}"
}

// scramble changes everything that a struct points to, and then its fields.
func (st *structure) scramble(p reflect.Value) {
	for i := range st.fields {
		fv := p.Elem().Field(i)
		switch {
		case fv.Kind() == reflect.Pointer && !fv.IsNil():
			scramble(fv.Elem())
		case fv.Kind() == reflect.Slice:
			b := fv.Bytes()
			b = b[:cap(b)]
			for i := range b {
				b[i] ^= 0x5a
			}
		default:
			scramble(fv)
		}
	}
}

func scramble(fv reflect.Value) {
	switch fv.Kind() {
	case reflect.Bool:
		fv.SetBool(!fv.Bool())
	case reflect.String:
		fv.SetString(fv.String() + "!")
	case reflect.Float32, reflect.Float64:
		fv.SetFloat(fv.Float() + 12345)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fv.SetInt(fv.Int() ^ 0x55)
	}
}
