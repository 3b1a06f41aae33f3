package vals

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"math"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/testutil"
	"github.com/leftmike/maho/types"

	"mahoverif/gen"
	"mahoverif/h"

	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	if os.Getenv(otherEnv) != "" {
		beOther()
	}
	h.Main(m)
}

func sign(i int) int {
	if i < 0 {
		return -1
	} else if i > 0 {
		return 1
	}
	return 0
}

func TestP13(t *testing.T) {
	t.Run("pairs", func(t *testing.T) {
		h.Check(t, 20000, func(rt *rapid.T, c *h.Case) {
			a := Value(rt)
			var b types.Value
			if h.Chance(rt, 50, "near") {
				b = Near(rt, a)
			} else {
				b = Value(rt)
			}
			c.Note("%s %s", Show(a), Show(b))
			if rank(a) == rank(b) && a != nil {
				c.NonTrivial("%s %s", Show(a), Show(b))
				c.Label(fmt.Sprintf("%T %T", a, b))
			}
			if g, w := sign(types.Compare(a, b)), Compare(a, b); g != w {
				rt.Fatalf("Compare(%s, %s): got %d, want %d", Show(a), Show(b), g, w)
			}
			if g, w := sign(types.Compare(b, a)), -Compare(a, b); g != w {
				rt.Fatalf("Compare(%s, %s): got %d, want %d", Show(b), Show(a), g, w)
			}
			if types.Compare(a, a) != 0 {
				rt.Fatalf("Compare(%s, itself) is not 0", Show(a))
			}
		})
	})
	t.Run("order", func(t *testing.T) {
		h.Check(t, 1500, func(rt *rapid.T, c *h.Case) {
			// Any set of values is sorted by Compare into an order that every pair agrees with.
			vs := []types.Value{Value(rt)}
			for n := 2 + h.N(rt, 8, "values"); n > 0; n-- {
				if h.Chance(rt, 60, "near") {
					vs = append(vs, Near(rt, vs[h.N(rt, len(vs), "which")]))
				} else {
					vs = append(vs, Value(rt))
				}
			}
			c.Note("%s", ShowRow(vs))
			c.NonTrivial("%s", ShowRow(vs))
			sort.SliceStable(vs, func(i, j int) bool { return types.Compare(vs[i], vs[j]) < 0 })
			for i := range vs {
				for j := i + 1; j < len(vs); j++ {
					if types.Compare(vs[i], vs[j]) > 0 {
						rt.Fatalf("not transitive: %s before %s in %s", Show(vs[i]), Show(vs[j]),
							ShowRow(vs))
					}
				}
			}
		})
	})
}

func TestP14(t *testing.T) {
	h.Check(t, 12000, func(rt *rapid.T, c *h.Case) {
		ncols, change := 1+h.N(rt, 5, "columns"), 40
		if h.Chance(rt, 4, "wide") {
			ncols, change = 10+h.N(rt, 50, "many columns"), 3
			c.Label("wide")
		}
		// Where the columns are.
		offset := 0
		if h.Chance(rt, 3, "far") {
			offset = h.Pick(rt, "offset", 120, 127, 128, 250, 254, 255, 256, 1000, 32766, 65534)
			c.Label("columns of high numbers")
		}
		cts := make([]types.ValueType, ncols)
		for i := range cts {
			cts[i] = h.Pick(rt, "type", types.BoolType, types.Int64Type, types.Float64Type,
				types.StringType, types.BytesType, types.StringType, types.BytesType)
		}
		// What all of the strings and bytes of this case start with.
		prefix := ""
		if ncols < 6 && h.Chance(rt, 6, "long") {
			prefix = strings.Repeat(h.Pick(rt, "unit", "a", "\x00", "\x01", "é", "\x00\x01", "\x7f"),
				h.Pick(rt, "length", 7, 15, 16, 31, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 1024, 4096,
					5000, 20000))
			c.Label("long values")
		}
		row := func() types.Row {
			r := make(types.Row, ncols)
			for i := range r {
				if !h.Chance(rt, 12, "null") {
					r[i] = ValueOf(rt, cts[i])
					switch v := r[i].(type) {
					case types.StringValue:
						r[i] = types.StringValue(prefix) + v
					case types.BytesValue:
						r[i] = append(types.BytesValue(prefix), v...)
					}
				}
			}
			return r
		}
		near := func(o types.Row) types.Row {
			r := append(types.Row{}, o...)
			for i := range r {
				if !h.Chance(rt, change, "change") {
					continue
				}
				n := Near(rt, r[i])
				if _, ok := n.(types.Float64Value); n != nil && ok != (cts[i] == types.Float64Type) {
					continue
				}
				if _, ok := n.(types.StringValue); n != nil && ok != (cts[i] == types.StringType) {
					continue
				}
				if _, ok := n.(types.BytesValue); n != nil && ok != (cts[i] == types.BytesType) {
					continue
				}
				if _, ok := n.(types.Int64Value); n != nil && ok != (cts[i] == types.Int64Type) {
					continue
				}
				if _, ok := n.(types.BoolValue); n != nil && ok != (cts[i] == types.BoolType) {
					continue
				}
				r[i] = n
			}
			return r
		}
		var key []types.ColumnKey
		desc := ""
		for _, i := range h.Perm(rt, ncols, "key")[:1+h.N(rt, ncols, "key columns")] {
			rev := h.Chance(rt, 50, "desc")
			num := types.ColumnNum(offset + i)
			ck := types.MakeColumnKey(num, rev)
			if ck.Column() != num || ck.Reverse() != rev {
				rt.Fatalf("column key %d: got column %d, reverse %v; want %d, %v", ck, ck.Column(),
					ck.Reverse(), num, rev)
			}
			key = append(key, ck)
			if rev {
				desc += fmt.Sprintf(" %d desc", i)
			} else {
				desc += fmt.Sprintf(" %d", i)
			}
		}

		// What is updated matters for the key if it is a column of it.
		var updated []types.ColumnNum
		inKey := false
		for _, i := range h.Perm(rt, ncols, "updated")[:h.N(rt, ncols+1, "updates")] {
			num := types.ColumnNum(offset + i)
			updated = append(updated, num)
			for _, ck := range key {
				inKey = inKey || ck.Column() == num
			}
		}
		if got := types.ColumnKeyUpdated(key, updated); got != inKey {
			rt.Fatalf("key%s updated by changes of columns %v: got %v", desc, updated, got)
		}

		rows := []types.Row{row()}
		for n := 1 + h.N(rt, 4, "rows"); n > 0; n-- {
			if h.Chance(rt, 60, "near") {
				rows = append(rows, near(rows[h.N(rt, len(rows), "which")]))
			} else {
				rows = append(rows, row())
			}
		}
		var shown []string
		for i, r := range rows {
			shown = append(shown, ShowRow(r))
			rows[i] = append(make(types.Row, offset), r...)
		}
		text := strings.Join(shown, " ") + " by" + desc
		if offset > 0 {
			text += fmt.Sprintf(" at %d", offset)
		}
		c.Note("%s", text)
		c.NonTrivial("%s", text)
		c.LabelIf(len(key) > 1, "several key columns")

		keys := make([][]byte, len(rows))
		for i, r := range rows {
			keys[i] = encode.MakeKey(key, r)
			if !bytes.Equal(keys[i], encode.MakeKey(key, append(types.Row{}, r...))) {
				rt.Fatalf("two keys for %s", shown[i])
			}
			if bytes.Compare(keys[i], encode.MaxKey) >= 0 {
				rt.Fatalf("key %x of %s is not below MaxKey", keys[i], shown[i])
			}
		}
		for i := range rows {
			for j := range rows {
				want := CompareKeys(key, rows[i], rows[j])
				if got := sign(bytes.Compare(keys[i], keys[j])); got != want {
					rt.Fatalf("%s and %s by%s: keys compare %d, rows %d\n%x\n%x", shown[i], shown[j], desc,
						got, want, keys[i], keys[j])
				}
				if want == 0 {
					c.Label("equal keys")
				} else if bytes.HasPrefix(keys[i], keys[j]) {
					rt.Fatalf("%s and %s by%s: one key starts the other\n%x\n%x", shown[i], shown[j],
						desc, keys[i], keys[j])
				}
			}
		}
	})
}

func TestP15(t *testing.T) {
	t.Run("values", func(t *testing.T) {
		h.Check(t, 25000, func(rt *rapid.T, c *h.Case) {
			ct := ColumnType(rt)
			if (ct.Type == types.StringType || ct.Type == types.BytesType) && h.Chance(rt, 5, "empty") {
				ct.Size = 0
			}
			v := Value(rt)
			c.Note("%+v %s", ct, Show(v))
			got, err := types.ConvertValue(ct, v)
			if v != nil {
				c.NonTrivial("%+v %s", ct, Show(v))
			}
			c.LabelIf(err == nil, ct.Type.String()+" accepted")
			c.LabelIf(err != nil, ct.Type.String()+" refused")
			if why := CheckConversion(ct, v, got, err); why != "" {
				rt.Fatalf("%s to %+v gives %s, %v: %s", Show(v), ct, Show(got), err, why)
			}
			if err != nil {
				if got != nil {
					rt.Fatalf("%s to %+v gives a value and an error: %s, %s", Show(v), ct, Show(got), err)
				}
				return
			}
			again, err := types.ConvertValue(ct, got)
			if err != nil || !Same(again, got) {
				rt.Fatalf("%s to %+v gives %s, and that gives %s, %v", Show(v), ct, Show(got), Show(again),
					err)
			}
		})
	})
	t.Run("casts", func(t *testing.T) {
		// To a type is to a column of that type without further limits.
		h.Check(t, 8000, func(rt *rapid.T, c *h.Case) {
			ct := types.ColumnType{Size: types.MaxColumnSize}
			ct.Type = h.Pick(rt, "type", types.BoolType, types.StringType, types.BytesType,
				types.Float64Type, types.Int64Type)
			if ct.Type == types.Int64Type {
				ct.Size = 8
			}
			v := Value(rt)
			c.Note("%v %s", ct, Show(v))
			c.NonTrivial("%v %s", ct, Show(v))
			got, err := types.CastValue(ct.Type, v)
			c.LabelIf(err == nil, ct.Type.String()+" accepted")
			c.LabelIf(err != nil, ct.Type.String()+" refused")
			if why := CheckConversion(ct, v, got, err); why != "" {
				rt.Fatalf("%s to %s gives %s, %v: %s", Show(v), ct.Type, Show(got), err, why)
			}
			if err != nil && got != nil {
				rt.Fatalf("%s to %s gives a value and an error: %s, %s", Show(v), ct.Type, Show(got), err)
			}
		})
	})
	t.Run("known columns", func(t *testing.T) {
		// The column types that have names, which the catalog and others use.
		known := []struct {
			name string
			ct   types.ColumnType
			size int64
			null bool
		}{
			{"IdColType", types.IdColType, types.MaxIdentifier, false},
			{"StringColType", types.StringColType, 4096, false},
			{"NullStringColType", types.NullStringColType, 4096, true},
			{"Int32ColType", types.Int32ColType, 4, false},
			{"Int64ColType", types.Int64ColType, 8, false},
			{"NullInt64ColType", types.NullInt64ColType, 8, true},
			{"BoolColType", types.BoolColType, 0, false},
		}
		h.Check(t, 1500, func(rt *rapid.T, c *h.Case) {
			k := known[h.N(rt, len(known), "column type")]
			var v types.Value
			want := true
			switch h.Pick(rt, "value", 0, 1, 1, 2, 2, 2) {
			case 0:
				want = k.null
			case 1:
				v = ValueOf(rt, k.ct.Type)
				switch k.ct.Type {
				case types.StringType:
					want = int64(len(v.(types.StringValue))) <= k.size
				case types.Int64Type:
					i := int64(v.(types.Int64Value))
					want = k.size == 8 || i == int64(int32(i))
				}
			case 2:
				switch k.ct.Type {
				case types.StringType:
					n := k.size - 2 + int64(h.N(rt, 5, "length"))
					v = types.StringValue(strings.Repeat("x", int(n)))
					want = n <= k.size
				case types.Int64Type:
					i := h.Pick(rt, "integer", int64(math.MaxInt32), math.MaxInt32+1, math.MinInt32,
						math.MinInt32-1, math.MaxInt64, math.MinInt64)
					v = types.Int64Value(i)
					want = k.size == 8 || i == int64(int32(i))
				default:
					v = types.BoolValue(h.Chance(rt, 50, "bool"))
				}
			}
			c.Note("%s %.100s", k.name, Show(v))
			c.NonTrivial("%s %s", k.name, Show(v))
			got, err := types.ConvertValue(k.ct, v)
			c.LabelIf(want, k.name+" accepts")
			c.LabelIf(!want, k.name+" refuses")
			if (err == nil) != want || err == nil && !Same(got, v) {
				rt.Fatalf("%.200s to %s gives %.200s, %v", Show(v), k.name, Show(got), err)
			}
		})
	})
	t.Run("lengths", func(t *testing.T) {
		// Long values, around the length of the column and around powers of two.
		edges := []int64{127, 255, 256, 257, 4096, 32767, 65535, 65536, 65537, 131072}
		h.Check(t, 600, func(rt *rapid.T, c *h.Case) {
			size := h.Pick(rt, "size", edges...)
			if h.Chance(rt, 40, "small") {
				size = int64(1 + h.N(rt, 12, "size"))
			}
			n := size
			if h.Chance(rt, 60, "other length") {
				n = h.Pick(rt, "length", edges...)
			}
			n += int64(h.N(rt, 5, "away")) - 2
			if n < 0 {
				n = 0
			}
			ct := types.ColumnType{Type: types.StringType, Size: uint32(size), Fixed: h.Chance(rt, 20, "fixed")}
			var v types.Value = types.StringValue(strings.Repeat("x", int(n)))
			if h.Chance(rt, 50, "bytes") {
				v = types.BytesValue(bytes.Repeat([]byte{h.Pick(rt, "byte", byte(0), 'x', 0xff)}, int(n)))
				ct.Type = types.BytesType
			}
			want := n <= size
			c.Note("%d to %v(%d)", n, ct.Type, size)
			c.NonTrivial("%d to %v(%d)", n, ct.Type, size)
			got, err := types.ConvertValue(ct, v)
			c.LabelIf(want, "fits")
			c.LabelIf(!want, "does not fit")
			if (err == nil) != want || err == nil && !Same(got, v) {
				rt.Fatalf("%d long to %v(%d) gives %.50s, %v", n, ct.Type, size, Show(got), err)
			}
		})
	})
	t.Run("rows", func(t *testing.T) {
		h.Check(t, 3000, func(rt *rapid.T, c *h.Case) {
			n := 1 + h.N(rt, 6, "columns")
			var cts []types.ColumnType
			var row types.Row
			for i := 0; i < n; i++ {
				ct := ColumnType(rt)
				cts = append(cts, ct)
				v := Value(rt)
				if !h.Chance(rt, 25, "anything") {
					if v = ValueOf(rt, ct.Type); Conforms(ct, v) != "" {
						v = nil
						cts[i].NotNull = false
					}
				}
				row = append(row, v)
			}
			extra := h.Chance(rt, 10, "too long")
			if extra {
				row = append(row, Value(rt))
			}
			orig := append(types.Row{}, row...)
			c.Note("%+v %s", cts, ShowRow(row))
			c.NonTrivial("%+v %s", cts, ShowRow(row))
			got, err := types.ConvertRow(cts, row)
			if !SameRow(orig, row) {
				rt.Fatalf("the row given is changed: %s to %s", ShowRow(orig), ShowRow(row))
			}
			fails := extra
			for i, ct := range cts {
				_, e := types.ConvertValue(ct, row[i])
				fails = fails || e != nil
			}
			if (err != nil) != fails {
				rt.Fatalf("%s to %+v: error %v, but want %v", ShowRow(row), cts, err, fails)
			}
			c.LabelIf(fails, "refused")
			if fails {
				return
			}
			if len(got) != n {
				rt.Fatalf("%s to %+v: got %s", ShowRow(row), cts, ShowRow(got))
			}
			for i, ct := range cts {
				if why := CheckConversion(ct, row[i], got[i], nil); why != "" {
					rt.Fatalf("%s to %+v gives %s: column %d: %s", ShowRow(row), cts, ShowRow(got), i, why)
				}
			}
		})
	})
}

func TestP16(t *testing.T) {
	edge := func(rt *rapid.T) uint64 {
		switch h.N(rt, 3, "int") {
		case 0:
			return rapid.Uint64().Draw(rt, "any")
		case 1:
			return uint64(1)<<h.N(rt, 64, "bit") + uint64(h.N(rt, 5, "near")) - 2
		}
		return uint64(Int(rt))
	}
	t.Run("integers", func(t *testing.T) {
		h.Check(t, 15000, func(rt *rapid.T, c *h.Case) {
			prefix := Bytes(rt, 3)
			suffix := Bytes(rt, 3)
			u := edge(rt)
			i := int64(u)
			c.Note("%d %d", u, i)
			if u > 127 {
				c.NonTrivial("%d %x %x", u, prefix, suffix)
			}
			check := func(what string, got, want []byte) {
				if !bytes.Equal(got, append(append([]byte{}, prefix...), want...)) {
					rt.Fatalf("%s of %d after %x: got %x, want %x", what, u, prefix, got, want)
				}
			}
			cp := func() []byte { return append([]byte{}, prefix...) }
			vu := binary.AppendUvarint(nil, u)
			check("varint", encode.EncodeVarint(cp(), u), vu)
			rest, gu, ok := encode.DecodeVarint(append(append([]byte{}, vu...), suffix...))
			if !ok || gu != u || !bytes.Equal(rest, suffix) {
				rt.Fatalf("%d decoded from a varint: got %d, %v, rest %x; want rest %x", u, gu, ok, rest,
					suffix)
			}
			vi := binary.AppendVarint(nil, i)
			check("zigzag", encode.EncodeZigzag64(cp(), i), vi)
			rest, gi, ok := encode.DecodeZigzag64(append(append([]byte{}, vi...), suffix...))
			if !ok || gi != i || !bytes.Equal(rest, suffix) {
				rt.Fatalf("%d decoded from zigzag: got %d, %v, rest %x; want rest %x", i, gi, ok, rest,
					suffix)
			}
			check("uint64", encode.EncodeUint64(cp(), u), binary.BigEndian.AppendUint64(nil, u))
			check("uint32", encode.EncodeUint32(cp(), uint32(u)),
				binary.BigEndian.AppendUint32(nil, uint32(u)))

			u2 := edge(rt)
			cmp := 0
			if u < u2 {
				cmp = -1
			} else if u > u2 {
				cmp = 1
			}
			if got := bytes.Compare(encode.EncodeUint64(nil, u), encode.EncodeUint64(nil, u2)); got != cmp {
				rt.Fatalf("encodings of %d and %d compare %d", u, u2, got)
			}
		})
	})
	t.Run("sequences", func(t *testing.T) {
		h.Check(t, 3000, func(rt *rapid.T, c *h.Case) {
			var us []uint64
			var buf []byte
			for n := 1 + h.N(rt, 12, "integers"); n > 0; n-- {
				u := edge(rt)
				us = append(us, u)
				if len(us)%2 == 0 {
					buf = encode.EncodeZigzag64(buf, int64(u))
				} else {
					buf = encode.EncodeVarint(buf, u)
				}
			}
			c.Note("%v", us)
			c.NonTrivial("%v", us)
			rest := buf
			for i, u := range us {
				var got uint64
				var ok bool
				if i%2 == 1 {
					var gi int64
					rest, gi, ok = encode.DecodeZigzag64(rest)
					got = uint64(gi)
				} else {
					rest, got, ok = encode.DecodeVarint(rest)
				}
				if !ok || got != u {
					rt.Fatalf("integer %d of %v: got %d, %v", i, us, got, ok)
				}
			}
			if len(rest) != 0 {
				rt.Fatalf("%v: %x is left", us, rest)
			}
		})
	})
	t.Run("bytes", func(t *testing.T) {
		h.Check(t, 12000, func(rt *rapid.T, c *h.Case) {
			var buf []byte
			if h.Chance(rt, 50, "continued") {
				for n := h.N(rt, 14, "continued"); n > 0; n-- {
					buf = append(buf, 0x80|byte(h.Pick(rt, "byte", 0, 1, 0x7f, 0x55)))
				}
				if h.Chance(rt, 70, "end") {
					buf = append(buf, byte(h.Pick(rt, "byte", 0, 1, 2, 0x7f)))
				}
			}
			buf = append(buf, Bytes(rt, 4)...)
			orig := append([]byte{}, buf...)
			c.Note("%x", buf)
			if len(buf) > 1 {
				c.NonTrivial("%x", buf)
			}
			want, n := binary.Uvarint(buf)
			var rest []byte
			var u uint64
			var i int64
			var ok, iok bool
			if r := h.Panicked(func() { rest, u, ok = encode.DecodeVarint(buf) }); r != nil {
				rt.Fatalf("decoding %x panics: %v", buf, r)
			}
			if r := h.Panicked(func() { _, i, iok = encode.DecodeZigzag64(buf) }); r != nil {
				rt.Fatalf("decoding %x panics: %v", buf, r)
			}
			if !bytes.Equal(orig, buf) {
				rt.Fatalf("decoding changes %x to %x", orig, buf)
			}
			c.LabelIf(ok, "decoded")
			if ok != iok {
				rt.Fatalf("%x: decoded %v, zigzag %v", buf, ok, iok)
			}
			switch {
			case n > 0:
				wi, _ := binary.Varint(buf)
				if !ok || u != want || i != wi || !bytes.Equal(rest, buf[n:]) {
					rt.Fatalf("%x: got %d, %d, %v, rest %x; want %d, %d, rest %x", buf, u, i, ok, rest, want,
						wi, buf[n:])
				}
			case n == 0:
				if ok {
					rt.Fatalf("%x is incomplete, but decoded to %d", buf, u)
				}
			default: // too large
				c.Label("too large")
				if ok && (len(rest) >= len(buf) || !bytes.HasSuffix(buf, rest)) {
					rt.Fatalf("%x decoded with rest %x", buf, rest)
				}
				if ok && len(buf)-len(rest) > 10 {
					rt.Fatalf("%x decoded more than ten bytes", buf)
				}
			}
		})
	})
}

type spelling struct {
	text   string
	quoted bool
}

func (sp spelling) String() string {
	if sp.quoted {
		return fmt.Sprintf("[%s]", sp.text)
	}
	return sp.text
}

// canonical says what a spelling denotes: its identity when it is known from the start, and its
// name.
func canonical(sp spelling) (types.Identifier, string) {
	s := sp.text
	if !sp.quoted {
		if id, ok := gen.ReservedWords[strings.ToUpper(s)]; ok {
			return id, strings.ToUpper(s)
		}
		if id, ok := gen.Unreserved[strings.ToLower(s)]; ok {
			return id, strings.ToUpper(s)
		}
		s = strings.ToLower(s)
	}
	if len(s) > types.MaxIdentifier {
		n := 0
		for i, r := range s {
			if i+utf8.RuneLen(r) > types.MaxIdentifier {
				break
			}
			n = i + utf8.RuneLen(r)
		}
		s = s[:n]
	}
	if id, ok := gen.Builtin[s]; ok {
		return id, s
	}
	return 0, s
}

var nameRune = rapid.SampledFrom([]rune("abcABCxyzXYZ_019$éÉжЖñß日𝒳\u00e5\u00c5λΛ\u212aȺⱥ"))

func drawSpelling(rt *rapid.T) spelling {
	sp := spelling{quoted: h.Chance(rt, 40, "quoted")}
	switch h.N(rt, 6, "name") {
	case 0:
		w, _ := gen.Reserved(rt)
		sp.text = w
	case 1:
		sp.text = h.Pick(rt, "unreserved", h.SortedKeys(gen.Unreserved)...)
	case 2:
		sp.text = h.Pick(rt, "builtin", h.SortedKeys(gen.Builtin)...)
	case 3: // around the limit
		unit := h.Pick(rt, "unit", "a", "é", "日", "𝒳", "aB", "aé", "\u212a", "\u023a", "\u1e9e")
		n := types.MaxIdentifier + h.N(rt, 9, "length") - 4
		sp.text = h.Pick(rt, "first", "", "x", "xy", "xyz")
		for len(sp.text) < n {
			sp.text += unit
		}
		sp.text += h.Pick(rt, "last", "", "b", "é", "日", "𝒳")
	default:
		sp.text = h.Pick(rt, "first", "a", "b", "é", "Q") + rapid.StringOfN(nameRune, 0, 5, -1).Draw(rt,
			"name")
		if sp.quoted && h.Chance(rt, 20, "odd") {
			sp.text += h.Pick(rt, "odd", " ", "'", "\"", ";", "\n", ".", "\x00")
		}
	}
	return sp
}

func respell(rt *rapid.T, sp spelling) spelling {
	switch h.N(rt, 6, "respell") {
	case 0:
		sp.quoted = !sp.quoted
	case 1:
		sp.text = strings.ToUpper(sp.text)
	case 2:
		sp.text = strings.ToLower(sp.text)
	case 3:
		sp.text += h.Pick(rt, "more", "a", "é", "_")
	case 4:
		r := []rune(sp.text)
		i := h.N(rt, len(r), "at")
		if unicode.IsUpper(r[i]) {
			r[i] = unicode.ToLower(r[i])
		} else {
			r[i] = unicode.ToUpper(r[i])
		}
		sp.text = string(r)
	}
	return sp
}

// simpleFold reports whether all letters have one upper and one lower case letter.
func simpleFold(s string) bool {
	return strings.ToLower(strings.ToUpper(s)) == strings.ToLower(s) &&
		utf8.RuneCountInString(strings.ToUpper(s)) == utf8.RuneCountInString(s)
}

func TestP17(t *testing.T) {
	h.Check(t, 6000, func(rt *rapid.T, c *h.Case) {
		sps := []spelling{drawSpelling(rt)}
		for n := 1 + h.N(rt, 8, "names"); n > 0; n-- {
			if h.Chance(rt, 60, "respell") {
				sps = append(sps, respell(rt, sps[h.N(rt, len(sps), "which")]))
			} else {
				sps = append(sps, drawSpelling(rt))
			}
		}
		c.Note("%q", sps)
		c.NonTrivial("%q", sps)
		type seen struct {
			sp   spelling
			id   types.Identifier
			name string
		}
		var all []seen
		for _, sp := range sps {
			if !sp.quoted && !simpleFold(sp.text) {
				continue
			}
			id := types.ID(sp.text, sp.quoted)
			known, name := canonical(sp)
			if known != 0 && id != known {
				rt.Fatalf("%q: got %d %q, want %d", sp, id, id, known)
			}
			_, reserved := gen.ReservedWords[strings.ToUpper(sp.text)]
			if reserved = reserved && !sp.quoted; id.IsReserved() != reserved {
				rt.Fatalf("%q: reserved is %v", sp, !reserved)
			}
			if id == 0 {
				rt.Fatalf("%q: no identity", sp)
			}
			if got := id.String(); got != name {
				rt.Fatalf("%q: printed as %q, want %q", sp, got, name)
			}
			if len(id.String()) > types.MaxIdentifier || !utf8.ValidString(id.String()) {
				rt.Fatalf("%q: printed as %q", sp, id)
			}
			c.LabelIf(len(sp.text) > types.MaxIdentifier, "too long")
			c.LabelIf(known != 0, "known name")
			all = append(all, seen{sp, id, name})
		}
		for i, a := range all {
			if got := types.ID(a.sp.text, a.sp.quoted); got != a.id {
				rt.Fatalf("%q: first %d, then %d", a.sp, a.id, got)
			}
			if got := a.id.String(); got != a.name {
				rt.Fatalf("%q: first printed as %q, then as %q", a.sp, a.name, got)
			}
			ka, _ := canonical(a.sp)
			for _, b := range all[:i] {
				kb, _ := canonical(b.sp)
				if same := ka == kb && a.name == b.name; same != (a.id == b.id) {
					rt.Fatalf("%q and %q: identities %d and %d", a.sp, b.sp, a.id, b.id)
				} else if same {
					c.Label("same name")
				}
			}
		}
	})
}

type nested struct {
	Name types.Identifier
	List []types.Identifier
	Map  map[types.Identifier]int
	Key  types.ColumnKey
	Type types.ColumnType
	Ptr  *types.Identifier
}

func roundTrip(rt *rapid.T, in, out any) {
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(in); err != nil {
		rt.Fatalf("encoding %v: %s", in, err)
	}
	if err := gob.NewDecoder(&buf).Decode(out); err != nil {
		rt.Fatalf("decoding %v: %s", in, err)
	}
}

func TestP18(t *testing.T) {
	drawID := func(rt *rapid.T) (types.Identifier, string) {
		sp := drawSpelling(rt)
		if h.Chance(rt, 10, "made up") {
			return types.PRIMARY_QUOTED, "primary, quoted"
		} else if h.Chance(rt, 3, "empty") {
			return types.ID("", true), "empty, quoted"
		}
		return types.ID(sp.text, sp.quoted), fmt.Sprintf("%q", sp)
	}
	t.Run("alone", func(t *testing.T) {
		h.Check(t, 8000, func(rt *rapid.T, c *h.Case) {
			id, text := drawID(rt)
			c.Note("%s", text)
			c.NonTrivial("%s", text)
			c.LabelIf(id.IsReserved(), "reserved")
			b, err := id.GobEncode()
			if err != nil {
				rt.Fatalf("encoding %s: %s", text, err)
			}
			var got types.Identifier
			if err := got.GobDecode(append([]byte{}, b...)); err != nil || got != id {
				rt.Fatalf("%s is %d %q, but comes back as %d %q, %v", text, id, id, got, got, err)
			}
		})
	})
	t.Run("inside", func(t *testing.T) {
		h.Check(t, 3000, func(rt *rapid.T, c *h.Case) {
			in := nested{Map: map[types.Identifier]int{}}
			var texts []string
			draw := func() types.Identifier {
				id, text := drawID(rt)
				texts = append(texts, text)
				return id
			}
			in.Name = draw()
			for n := h.N(rt, 6, "list"); n > 0; n-- {
				in.List = append(in.List, draw())
			}
			for n := h.N(rt, 4, "map"); n > 0; n-- {
				in.Map[draw()] = n
			}
			p := draw()
			in.Ptr = &p
			in.Type = ColumnType(rt)
			in.Key = types.MakeColumnKey(types.ColumnNum(h.N(rt, 5, "column")), h.Chance(rt, 50, "desc"))
			c.Note("%s", texts)
			c.NonTrivial("%s", texts)
			var out nested
			roundTrip(rt, in, &out)
			if g, w := dump(out), dump(in); g != w {
				rt.Fatalf("%s: got %s, want %s", texts, g, w)
			}
		})
	})
	t.Run("bytes", func(t *testing.T) {
		h.Check(t, 4000, func(rt *rapid.T, c *h.Case) {
			var b []byte
			if h.Chance(rt, 60, "tag") {
				b = append(b, byte(h.N(rt, 4, "tag")))
			}
			if h.Chance(rt, 50, "any") {
				b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(rt, "bytes")...)
			} else {
				b = append(b, drawSpelling(rt).text...)
			}
			c.Note("%q", b)
			c.NonTrivial("%q", b)
			var id types.Identifier
			var err error
			if r := h.Panicked(func() { err = id.GobDecode(b) }); r != nil {
				rt.Fatalf("decoding %q panics: %v", b, r)
			}
			if len(b) == 0 && err == nil {
				rt.Fatalf("nothing is decoded to %d", id)
			}
			if err == nil && id == 0 && len(b) > 1 {
				rt.Fatalf("%q is decoded to no identity", b)
			}
			// Decoding did not break the table of names.
			if id != 0 && utf8.Valid(b) {
				_ = id.String()
				e, _ := id.GobEncode()
				var again types.Identifier
				if err := again.GobDecode(e); err != nil || again != id {
					rt.Fatalf("%q is decoded to %d %q, which comes back as %d, %v", b, id, id, again, err)
				}
			}
		})
	})
	t.Run("definitions", func(t *testing.T) {
		h.Check(t, 2000, func(rt *rapid.T, c *h.Case) {
			tt := engine.TableType{Version: uint32(h.N(rt, 3, "version"))}
			for n := 1 + h.N(rt, 4, "columns"); n > 0; n-- {
				id, _ := drawID(rt)
				tt.ColumnNames = append(tt.ColumnNames, id)
				tt.ColumnTypes = append(tt.ColumnTypes, ColumnType(rt))
				tt.Key = append(tt.Key, types.MakeColumnKey(types.ColumnNum(n), h.Chance(rt, 50, "desc")))
			}
			good, err := tt.Encode()
			if err != nil {
				rt.Fatalf("encoding %v: %s", tt, err)
			}
			b := append([]byte{}, good...)
			for n := h.N(rt, 4, "changes"); n > 0 && len(b) > 0; n-- {
				at := h.N(rt, len(b), "where")
				if h.Chance(rt, 50, "near the end") {
					at = len(b) - 1 - at/8
				}
				switch h.N(rt, 5, "change") {
				case 0:
					b[at] ^= 1 << h.N(rt, 8, "bit")
				case 1:
					b[at] = byte(h.N(rt, 256, "byte"))
				case 2:
					b = b[:at]
				case 3:
					b = slices.Delete(b, at, at+1)
				case 4:
					b = slices.Insert(b, at, byte(h.N(rt, 256, "byte")))
				}
			}
			if h.Chance(rt, 5, "anything") {
				b = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(rt, "bytes")
			}
			c.Note("%x", b)
			c.NonTrivial("%x", b)
			var got *engine.TableType
			if r := h.Panicked(func() { got, err = engine.DecodeTableType(b) }); r != nil {
				rt.Fatalf("decoding %x panics: %v", b, r)
			}
			c.LabelIf(err == nil, "decoded")
			if (err == nil) != (got != nil) {
				rt.Fatalf("decoding %x: %v and %v", b, got, err)
			}
			if bytes.Equal(b, good) && err != nil {
				rt.Fatalf("decoding %v: %s", tt, err)
			}
			if err != nil {
				return
			}
			// What was understood can be stored again.
			if b, err = got.Encode(); err != nil {
				rt.Fatalf("encoding %v: %s", *got, err)
			}
			again, err := engine.DecodeTableType(b)
			if err != nil || !sameTableType(got, again) {
				rt.Fatalf("%v became %v, %v", *got, again, err)
			}
		})
	})
}

func dump(n nested) string {
	var m []string
	for k, v := range n.Map {
		m = append(m, fmt.Sprintf("%d:%d", k, v))
	}
	sort.Strings(m)
	return fmt.Sprintf("%d %d %v %d %+v %d", n.Name, n.List, m, n.Key, n.Type, *n.Ptr)
}

var raceCase int

func TestP19(t *testing.T) {
	h.Check(t, 250, func(rt *rapid.T, c *h.Case) {
		raceCase++
		nnames := 1 + h.N(rt, 24, "names")
		workers := 2 + h.N(rt, 7, "workers")
		// New names, so that every case creates names while others look them up.
		var sps []spelling
		for i := 0; i < nnames; i++ {
			sp := drawSpelling(rt)
			if h.Chance(rt, 70, "new") {
				sp.text = fmt.Sprintf("n%d_%d%s", raceCase, i, sp.text)
			}
			if !sp.quoted && !simpleFold(sp.text) {
				sp.quoted = true
			}
			sps = append(sps, sp)
		}
		type op struct {
			name  int
			flips bool
		}
		plans := make([][]op, workers)
		for w := range plans {
			for n := 1 + h.N(rt, 30, "operations"); n > 0; n-- {
				plans[w] = append(plans[w], op{h.N(rt, nnames, "name"), h.Chance(rt, 50, "case")})
			}
		}
		c.Note("%d workers %q", workers, sps)
		c.NonTrivial("%d workers, %v", workers, plans)

		ids := make([][]types.Identifier, workers)
		var wg sync.WaitGroup
		start := make(chan struct{})
		errs := make(chan string, workers)
		for w := range plans {
			ids[w] = make([]types.Identifier, len(plans[w]))
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs <- fmt.Sprintf("panic: %v", r)
					}
				}()
				<-start
				for i, o := range plans[w] {
					sp := sps[o.name]
					if o.flips && !sp.quoted {
						sp.text = strings.ToUpper(sp.text)
					}
					id := types.ID(sp.text, sp.quoted)
					ids[w][i] = id
					_, name := canonical(sp)
					if got := id.String(); got != name {
						errs <- fmt.Sprintf("%q is printed as %q", sp, got)
						return
					}
					b, err := id.GobEncode()
					var back types.Identifier
					if err == nil {
						err = back.GobDecode(b)
					}
					if err != nil || back != id {
						errs <- fmt.Sprintf("%q is %d, but decoded as %d, %v", sp, id, back, err)
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		select {
		case e := <-errs:
			rt.Fatalf("%s", e)
		default:
		}
		for w := range plans {
			for i, o := range plans[w] {
				if want := types.ID(sps[o.name].text, sps[o.name].quoted); ids[w][i] != want {
					rt.Fatalf("%q: a worker got %d, later it is %d", sps[o.name], ids[w][i], want)
				}
			}
		}
	})
}

func drawRow(rt *rapid.T) types.Row {
	var r types.Row
	n := h.N(rt, 4, "columns")
	if h.Chance(rt, 3, "wide") {
		n = 10 + h.N(rt, 60, "many columns")
	}
	for ; n > 0; n-- {
		r = append(r, Value(rt))
	}
	return r
}

func compareRows(a, b types.Row) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if c := Compare(a[i], b[i]); c != 0 {
			return c
		}
	}
	return sign(len(a) - len(b))
}

func showRows(rows []types.Row) string {
	var ss []string
	for _, r := range rows {
		ss = append(ss, ShowRow(r))
	}
	return strings.Join(ss, " ")
}

func TestP38(t *testing.T) {
	t.Run("rows", func(t *testing.T) {
		h.Check(t, 8000, func(rt *rapid.T, c *h.Case) {
			a := drawRow(rt)
			b := append(types.Row{}, a...)
			switch h.N(rt, 4, "other") {
			case 0:
				b = drawRow(rt)
			case 1:
				if len(b) > 0 {
					i := h.N(rt, len(b), "column")
					b[i] = Near(rt, b[i])
				}
			case 2:
				b = append(b, Value(rt))
			}
			c.Note("%s %s", ShowRow(a), ShowRow(b))
			if len(a) > 0 && len(b) > 0 {
				c.NonTrivial("%s %s", ShowRow(a), ShowRow(b))
			}
			if g, w := sign(testutil.CompareRows(a, b)), compareRows(a, b); g != w {
				rt.Fatalf("%s and %s compare %d, want %d", ShowRow(a), ShowRow(b), g, w)
			}
			if g, w := sign(testutil.CompareRows(b, a)), compareRows(b, a); g != w {
				rt.Fatalf("%s and %s compare %d, want %d", ShowRow(b), ShowRow(a), g, w)
			}
		})
	})
	t.Run("collections", func(t *testing.T) {
		h.Check(t, 6000, func(rt *rapid.T, c *h.Case) {
			var a, b []types.Row
			n, again := h.N(rt, 6, "rows"), 40
			if h.Chance(rt, 2, "many") {
				n, again = 40+h.N(rt, 240, "many rows"), h.Pick(rt, "repeats", 5, 70)
				c.Label("many rows")
			}
			for ; n > 0; n-- {
				var r types.Row
				if len(a) == 0 || !h.Chance(rt, again, "again") {
					r = drawRow(rt)
				} else {
					r = a[h.N(rt, len(a), "which")]
				}
				a = append(a, r)
			}
			for _, i := range h.Perm(rt, len(a), "order") {
				b = append(b, a[i])
			}
			switch h.N(rt, 5, "change") {
			case 0:
				if len(b) > 0 {
					b[h.N(rt, len(b), "row")] = drawRow(rt)
				}
			case 1:
				if len(b) > 0 {
					b[h.N(rt, len(b), "row")] = b[h.N(rt, len(b), "from")]
				}
			case 2:
				if len(b) > 0 {
					b = b[1:]
				}
			case 3:
				b = append([]types.Row{}, a...)
			}
			text := showRows(a) + " | " + showRows(b)
			c.Note("%s", text)
			if len(a) > 1 {
				c.NonTrivial("%s", text)
			}
			ordered := len(a) == len(b)
			for i := 0; ordered && i < len(a); i++ {
				ordered = compareRows(a[i], b[i]) == 0
			}
			cp := func(rows []types.Row) []types.Row { return append([]types.Row{}, rows...) }
			if got := testutil.RowsEqual(cp(a), cp(b), false); got != ordered {
				rt.Fatalf("%s: equal in order is %v", text, got)
			}
			// Count, without sorting.
			unordered := len(a) == len(b)
			used := make([]bool, len(b))
			for _, r := range a {
				found := false
				for j := range b {
					if !used[j] && compareRows(r, b[j]) == 0 {
						used[j], found = true, true
						break
					}
				}
				unordered = unordered && found
			}
			c.LabelIf(unordered && !ordered, "equal in another order")
			c.LabelIf(!unordered, "different")
			if got := testutil.RowsEqual(cp(a), cp(b), true); got != unordered {
				rt.Fatalf("%s: equal in any order is %v", text, got)
			}
		})
	})
	t.Run("text", func(t *testing.T) {
		h.Check(t, 6000, func(rt *rapid.T, c *h.Case) {
			var rows []types.Row
			for n := 1 + h.N(rt, 4, "rows"); n > 0; n-- {
				var row types.Row
				for n := 1 + h.N(rt, 5, "columns"); n > 0; n-- {
					v := Value(rt)
					switch x := v.(type) {
					case types.Int64Value:
						if x < 0 {
							x = ^x
						}
						v = x
					case types.Float64Value:
						v = types.Float64Value(h.N(rt, 1000000, "float")) / 8
						if s := v.String(); strings.ContainsAny(s, "e-+") {
							v = types.Float64Value(2.5)
						}
					case types.StringValue:
						s := strings.ReplaceAll(string(x), "'", "q")
						s = strings.ToValidUTF8(s, "?")
						if h.Chance(rt, 2, "long") {
							s = strings.Repeat("l"+s, 1+h.N(rt, 9000, "times")/(len(s)+1))
							c.LabelIf(len(s) > 4096, "a string of more than 4096 bytes")
						}
						if strings.HasPrefix(s, "\\") {
							s = "b" + s
						}
						v = types.StringValue(s)
					}
					row = append(row, v)
				}
				rows = append(rows, row)
			}
			text := testutil.FormatRows(rows, h.Pick(rt, "sep", ",", ", ", " ,\n"))
			c.Note("%s", text)
			c.NonTrivial("%s", text)
			got, err := testutil.ParseRows(strings.NewReader(text))
			if err != nil {
				rt.Fatalf("%s: %s", text, err)
			}
			if len(got) != len(rows) {
				rt.Fatalf("%s: got %d rows, want %d", text, len(got), len(rows))
			}
			for i := range rows {
				if compareRows(got[i], rows[i]) != 0 {
					rt.Fatalf("%s: row %d is %s, want %s", text, i, ShowRow(got[i]), ShowRow(rows[i]))
				}
			}
		})
	})
}
