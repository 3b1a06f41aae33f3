package eng

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"slices"
	"sort"
	"testing"
	"unsafe"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"

	"mahoverif/h"
	"mahoverif/vals"

	"pgregory.net/rapid"
)

var ctx = context.Background()

func TestMain(m *testing.M) {
	h.Main(m)
}

func newStore() storage.Store {
	st, err := basic.NewStore("")
	if err != nil {
		panic(err)
	}
	return st
}

var tableName = types.TableName{Database: types.ID("db", true), Schema: types.ID("scm", true),
	Table: types.ID("tbl", true)}

// ptr makes the struct type usable by the API.
func ptr(p reflect.Value) interface{} {
	if !p.IsValid() {
		return nil
	}
	return p.Interface()
}

func readAll(t *rapid.T, tx storage.Transaction, ti *engine.TypedInfo, st *structure,
	dirty func() reflect.Value) []reflect.Value {

	copyOf := func(p reflect.Value) reflect.Value {
		q := reflect.New(st.typ)
		q.Elem().Set(p.Elem())
		return q
	}
	var ps []reflect.Value
	one := dirty()
	useOne := h.Chance(t, 40, "one struct for all")
	err := engine.TypedTableSelect(ctx, tx, ti, nil, nil,
		func(row types.Row) error {
			p := one
			if !useOne {
				p = dirty()
			}
			// Copies of what was in the struct before may be in use.
			before := copyOf(p)
			keep := st.clone(before)
			ti.RowToStruct(row, p.Interface())
			if d := st.diff(before, keep); d != "" {
				t.Fatalf("what the struct pointed to is changed: %s; from %s to %s", d, st.show(keep),
					st.show(before))
			}
			if useOne {
				p = copyOf(p)
			}
			ps = append(ps, p)
			return nil
		})
	if err != nil {
		t.Fatalf("select: %s", err)
	}
	return ps
}

// TestP29: structs come back equal and unshared.
func TestP29(t *testing.T) {
	h.Check(t, 600, func(rt *rapid.T, c *h.Case) {
		st := genStruct(rt, true)
		c.Note("%s", st)
		store := newStore()
		var arg interface{} = reflect.New(st.typ).Interface()
		if h.Chance(rt, 50, "by value") {
			arg = reflect.New(st.typ).Elem().Interface()
		}
		ti := engine.MakeTypedInfo(100, tableName, arg)
		tx := store.Begin()
		if err := engine.CreateTypedTable(ctx, tx, ti); err != nil {
			rt.Fatalf("create typed table: %s", err)
		}

		var want []reflect.Value // in key order
		var args []interface{}
		var given []reflect.Value
		for n := 1 + h.N(rt, 8, "structs"); n > 0; n-- {
			p := st.gen(rt)
			row := st.row(p)
			if slices.ContainsFunc(want, func(q reflect.Value) bool {
				return vals.CompareKeys(st.key, st.row(q), row) == 0
			}) {
				continue
			}
			c.Note("%s", st.show(p))
			want = append(want, st.clone(p))
			given = append(given, p)
			args = append(args, p.Interface())
		}
		sort.SliceStable(want, func(i, j int) bool {
			return vals.CompareKeys(st.key, st.row(want[i]), st.row(want[j])) < 0
		})
		cut := h.N(rt, len(args)+1, "cut")
		for _, as := range [][]interface{}{args[:cut], args[cut:]} {
			if err := engine.TypedTableInsert(ctx, tx, ti, as...); err != nil {
				rt.Fatalf("insert: %s", err)
			}
		}
		for _, p := range given {
			st.scramble(p)
		}
		if h.Chance(rt, 50, "commit") {
			if err := tx.Commit(ctx); err != nil {
				rt.Fatalf("commit: %s", err)
			}
			tx = store.Begin()
		}

		dirty := func() reflect.Value {
			if h.Chance(rt, 50, "dirty") {
				return st.gen(rt)
			}
			return reflect.New(st.typ)
		}
		for round := 0; round < 3; round++ {
			got := readAll(rt, tx, ti, st, dirty)
			if len(got) != len(want) {
				rt.Fatalf("got %d structs; want %d", len(got), len(want))
			}
			for i := range got {
				if d := st.diff(got[i], want[i]); d != "" {
					rt.Fatalf("read %d: struct %d: %s; got %s; want %s", round, i, d, st.show(got[i]),
						st.show(want[i]))
				}
			}
			// Look one up, with anything in the fields that are not in the key.
			i := h.N(rt, len(want), "lookup")
			p := st.gen(rt)
			for _, ck := range st.key {
				p.Elem().Field(int(ck.Column())).Set(st.clone(want[i]).Elem().Field(int(ck.Column())))
			}
			if err := engine.TypedTableLookup(ctx, tx, ti, p.Interface()); err != nil {
				rt.Fatalf("lookup of %s: %s", st.show(want[i]), err)
			}
			if d := st.diff(p, want[i]); d != "" {
				rt.Fatalf("lookup: %s; got %s; want %s", d, st.show(p), st.show(want[i]))
			}
			// What was returned may be changed without harm, one struct at a time.
			for i := range got {
				st.scramble(got[i])
				for j := i + 1; j < len(got); j++ {
					if d := st.diff(got[j], want[j]); d != "" {
						rt.Fatalf("two structs share memory: %s", d)
					}
				}
			}
			st.scramble(p)
		}
		if err := tx.Commit(ctx); err != nil {
			rt.Fatalf("commit: %s", err)
		}
		nulls, bytes := false, false
		for i, f := range st.fields {
			for _, p := range want {
				nulls = nulls || !f.ct.NotNull && p.Elem().Field(i).IsNil()
				bytes = bytes || p.Elem().Field(i).Kind() == reflect.Slice && p.Elem().Field(i).Len() > 0
			}
		}
		c.LabelIf(nulls, "NULL")
		c.LabelIf(bytes, "bytes")
		if len(st.fields) > 1 {
			c.NonTrivial("%s: %s", st, st.show(want[0]))
		}
	})
}

// badField is a field that has to be refused.
func badField(t *rapid.T) (reflect.StructField, string) {
	tag := func(s string) reflect.StructTag {
		return reflect.StructTag(fmt.Sprintf("maho:%q", s))
	}
	intType := reflect.TypeOf(0)
	f := reflect.StructField{Name: "Bad", Type: intType}
	switch h.N(t, 7, "bad") {
	case 0:
		f.Type = h.Pick(t, "type", reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)),
			reflect.TypeOf(uint64(0)), reflect.TypeOf(map[string]int{}), reflect.TypeOf([]int16{}),
			reflect.TypeOf([]string{}), reflect.TypeOf([4]byte{}), reflect.TypeOf(struct{ A int }{}),
			reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(complex(1, 2)),
			reflect.TypeOf(func() {}), reflect.TypeOf(make(chan int)), reflect.TypeOf(uintptr(0)),
			reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf([]bool{}), reflect.TypeOf([][]byte{}),
			reflect.TypeOf([]int8{}), reflect.TypeOf(unsafe.Pointer(nil)))
		if h.Chance(t, 30, "pointer") {
			f.Type = reflect.PointerTo(f.Type)
		}
		return f, "type " + f.Type.String()
	case 1:
		f.Type = reflect.PointerTo(reflect.TypeOf([]byte{}))
		return f, "pointer to bytes"
	case 2:
		f.Type = reflect.PointerTo(reflect.PointerTo(intType))
		return f, "pointer to pointer"
	case 3:
		f.Type = h.Pick(t, "type", intType, reflect.TypeOf(""), reflect.TypeOf((*int)(nil)),
			reflect.TypeOf((*string)(nil)), reflect.TypeOf(1.5))
		f.Tag = tag(h.Pick(t, "tag", "notnull", "notnull,primary", "size=3,notnull"))
		return f, fmt.Sprintf("%s of %s", f.Tag, f.Type)
	case 4:
		f.Type = reflect.TypeOf("")
		s := h.Pick(t, "tag", "size=0", "size=-1", "size=abc", "size=", "size", "size=1.5", "size=1 ",
			"size=4294967295", "size=4294967296", "size=4294967297", "size=99999999999999999999", "size=0x10", "size=1=2")
		f.Tag = tag(s)
		return f, s
	case 5:
		s := h.Pick(t, "tag", "name", "name=a=b", "primary=1", "notnull=true", "primary,", ",primary",
			"unknown", "Primary", "primary size=1", "key", "name=a,,primary", " primary", "null")
		f.Tag = tag(s)
		return f, s
	}
	f.Name = "bad"
	f.PkgPath = "mahoverif/eng"
	if h.Chance(t, 50, "named") {
		f.Tag = `maho:"name=bad"`
	}
	return f, "not exported"
}

// TestP30: struct types are described by the right table definition.
func TestP30(t *testing.T) {
	t.Run("good", func(t *testing.T) {
		h.Check(t, 2000, func(rt *rapid.T, c *h.Case) {
			st := genStruct(rt, false)
			c.Note("%s", st)
			c.NonTrivial("%s", st)
			tid := storage.TableId(rapid.Uint32().Draw(rt, "tid"))
			var arg interface{} = reflect.New(st.typ).Interface()
			if h.Chance(rt, 50, "by value") {
				arg = reflect.New(st.typ).Elem().Interface()
			}
			ti := engine.MakeTypedInfo(tid, tableName, arg)
			if ti.TableId() != tid || ti.TableName() != tableName {
				rt.Fatalf("table %d %s; want %d %s", ti.TableId(), ti.TableName(), tid, tableName)
			}
			tt := ti.TableType()
			if len(tt.ColumnNames) != len(st.fields) || len(tt.ColumnTypes) != len(st.fields) {
				rt.Fatalf("%d names and %d types of columns; want %d", len(tt.ColumnNames),
					len(tt.ColumnTypes), len(st.fields))
			}
			for i, f := range st.fields {
				if tt.ColumnNames[i] != f.col {
					rt.Fatalf("field %s `%s`: column %q; want %q", f.name, f.tag, tt.ColumnNames[i], f.col)
				}
				got := tt.ColumnTypes[i]
				if got.Type == types.BoolType {
					got.Size = f.ct.Size
				}
				if got != f.ct {
					rt.Fatalf("field %s %s `%s`: type %#v; want %#v", f.name, f.typ, f.tag, got, f.ct)
				}
			}
			if !slices.Equal(tt.Key, st.key) {
				rt.Fatalf("key %v; want %v", tt.Key, st.key)
			}
			if tt.Version != 1 || len(tt.ColumnDefaults) != 0 || len(tt.Indexes) != 0 {
				rt.Fatalf("unexpected table type: %#v", tt)
			}
		})
	})
	t.Run("bad", func(t *testing.T) {
		h.Check(t, 1000, func(rt *rapid.T, c *h.Case) {
			st := genStruct(rt, false)
			bad, what := badField(rt)
			var fs []reflect.StructField
			for _, f := range st.fields {
				fs = append(fs, reflect.StructField{Name: f.name, Type: f.typ,
					Tag: reflect.StructTag(f.tag)})
			}
			n := h.N(rt, len(fs)+1, "at")
			fs = slices.Insert(fs, n, bad)
			typ := reflect.StructOf(fs)
			c.Note("%s", typ)
			c.NonTrivial("%s: %s", what, typ)
			err := h.Refused(fmt.Sprintf("a struct with %s: %s", what, typ), func() error {
				engine.MakeTypedInfo(100, tableName, reflect.New(typ).Interface())
				return nil
			})
			if err != nil {
				rt.Fatalf("%s", err)
			}
		})
	})
	t.Run("not a struct", func(t *testing.T) {
		h.Check(t, 50, func(rt *rapid.T, c *h.Case) {
			i := 1
			arg := h.Pick[interface{}](rt, "arg", 1, "s", &i, []int{1}, map[string]int{}, 1.5, []struct{}{})
			c.NonTrivial("%T", arg)
			err := h.Refused(fmt.Sprintf("%T", arg), func() error {
				engine.MakeTypedInfo(100, tableName, arg)
				return nil
			})
			if err != nil {
				rt.Fatalf("%s", err)
			}
		})
	})
}

var errStop = errors.New("stop here")

// typedModel is the model of a typed table: structs in key order.
type typedModel struct {
	st *structure
	ps []reflect.Value
}

func (m *typedModel) clone() *typedModel {
	return &typedModel{m.st, append([]reflect.Value(nil), m.ps...)}
}

func (m *typedModel) find(row types.Row) (int, bool) {
	n := sort.Search(len(m.ps), func(i int) bool {
		return vals.CompareKeys(m.st.key, m.st.row(m.ps[i]), row) >= 0
	})
	return n, n < len(m.ps) && vals.CompareKeys(m.st.key, m.st.row(m.ps[n]), row) == 0
}

func (m *typedModel) insert(p reflect.Value) bool {
	n, ok := m.find(m.st.row(p))
	if ok {
		return false
	}
	m.ps = slices.Insert(append([]reflect.Value(nil), m.ps...), n, p)
	return true
}

func (m *typedModel) remove(p reflect.Value) {
	n, ok := m.find(m.st.row(p))
	if !ok {
		panic("model: no struct to remove")
	}
	m.ps = slices.Delete(append([]reflect.Value(nil), m.ps...), n, n+1)
}

func (m *typedModel) within(min, max reflect.Value) []reflect.Value {
	var ps []reflect.Value
	for _, p := range m.ps {
		if min.IsValid() && vals.CompareKeys(m.st.key, m.st.row(p), m.st.row(min)) < 0 {
			continue
		}
		if max.IsValid() && vals.CompareKeys(m.st.key, m.st.row(p), m.st.row(max)) > 0 {
			continue
		}
		ps = append(ps, p)
	}
	return ps
}

// TestP31: typed operations affect exactly the right rows.
func TestP31(t *testing.T) {
	h.Check(t, 500, func(rt *rapid.T, c *h.Case) {
		st := genStruct(rt, true)
		c.Note("%s", st)
		store := newStore()
		ti := engine.MakeTypedInfo(100, tableName, reflect.New(st.typ).Interface())
		tx := store.Begin()
		if err := engine.CreateTypedTable(ctx, tx, ti); err != nil {
			rt.Fatalf("create typed table: %s", err)
		}
		if err := tx.Commit(ctx); err != nil {
			rt.Fatalf("commit: %s", err)
		}
		done := &typedModel{st: st}
		tx = store.Begin()
		m := done.clone()

		cnt := map[string]int{}
		bulk := h.Chance(rt, 4, "bulk")
		check := func() {
			got := readAll(rt, tx, ti, st, func() reflect.Value { return reflect.New(st.typ) })
			if len(got) != len(m.ps) {
				rt.Fatalf("%d structs; want %d", len(got), len(m.ps))
			}
			for i := range got {
				if d := st.diff(got[i], m.ps[i]); d != "" {
					rt.Fatalf("struct %d: %s; got %s; want %s", i, d, st.show(got[i]), st.show(m.ps[i]))
				}
			}
		}
		bounds := func() (min, max reflect.Value) {
			one := func(label string) reflect.Value {
				if h.Chance(rt, 25, "no "+label) {
					return reflect.Value{}
				}
				p := st.gen(rt)
				if len(m.ps) > 0 && h.Chance(rt, 60, "existing") {
					o := st.clone(m.ps[h.N(rt, len(m.ps), "which")])
					for _, ck := range st.key {
						p.Elem().Field(int(ck.Column())).Set(o.Elem().Field(int(ck.Column())))
					}
				}
				return p
			}
			min, max = one("min"), one("max")
			if min.IsValid() && max.IsValid() && h.Chance(rt, 85, "swap") &&
				vals.CompareKeys(st.key, st.row(min), st.row(max)) > 0 {
				min, max = max, min
			}
			for what, p := range map[string]reflect.Value{"min": min, "max": max} {
				if p.IsValid() {
					c.Note("%s %s", what, st.show(p))
				}
			}
			return min, max
		}
		// visit checks that the rows visited are those wanted, and says how to go on.
		visit := func(want []reflect.Value) (func(row types.Row) (reflect.Value, error), func(err error)) {
			n := 0
			stops := 1
			if bulk && h.Chance(rt, 70, "to the end") {
				stops = 0
			}
			var stop error
			fn := func(row types.Row) (reflect.Value, error) {
				if n >= len(want) {
					rt.Fatalf("visited %s; want only %d rows", vals.ShowRow(row), len(want))
				}
				if stop != nil {
					rt.Fatalf("visited %s after %v", vals.ShowRow(row), stop)
				}
				p := want[n]
				n++
				if !vals.SameRow(row, st.row(p)) {
					rt.Fatalf("visited %s; want %s", vals.ShowRow(row), st.show(p))
				}
				switch h.Weighted(rt, "stop", 20, stops, stops) {
				case 1:
					stop = io.EOF
				case 2:
					stop = errStop
				}
				return p, stop
			}
			return fn, func(err error) {
				switch {
				case stop == errStop:
					if !errors.Is(err, errStop) {
						rt.Fatalf("got error %v; want %v", err, errStop)
					}
					cnt["error in callback"]++
				case err != nil:
					rt.Fatalf("got error %v", err)
				case stop == nil && n != len(want):
					rt.Fatalf("visited %d rows; want %d", n, len(want))
				case stop == io.EOF:
					cnt["early stop"]++
				}
			}
		}

		ops := 5 + h.N(rt, 25, "operations")
		if bulk {
			ops = 3 + h.N(rt, 6, "operations")
			var args []interface{}
			for _, p := range st.numbered(rt, 100+h.N(rt, 500, "structs")) {
				if m.insert(st.clone(p)) {
					args = append(args, p.Interface())
				}
			}
			c.Note("insert %d", len(args))
			if len(args) > 1 && h.Chance(rt, 40, "with a duplicate") {
				// All of them are inserted or none.
				some := append([]interface{}{}, args...)
				i, j := h.N(rt, len(args), "one"), h.N(rt, len(args), "another")
				if i != j {
					some[i] = some[j]
					c.Label("many rows with a duplicate")
					if err := engine.TypedTableInsert(ctx, tx, ti, some...); err == nil {
						rt.Fatalf("a duplicate was inserted")
					}
				}
			}
			if err := engine.TypedTableInsert(ctx, tx, ti, args...); err != nil {
				rt.Fatalf("insert: %s", err)
			}
			c.LabelIf(len(args) > 100, "many rows")
			cnt["insert"] += len(args)
		}
		for ; ops > 0; ops-- {
			switch h.Weighted(rt, "op", 8, 4, 3, 6, 4, 2, 1) {
			case 0:
				nm := m.clone()
				var args []interface{}
				dup := false
				for n := h.N(rt, 4, "structs"); n > 0; n-- {
					p := st.gen(rt)
					if !nm.insert(st.clone(p)) {
						if h.Chance(rt, 80, "leave out") {
							continue
						}
						dup = true
					}
					c.Note("insert %s", st.show(p))
					args = append(args, p.Interface())
				}
				err := engine.TypedTableInsert(ctx, tx, ti, args...)
				if dup {
					if err == nil {
						rt.Fatalf("a duplicate was inserted")
					}
					cnt["failed insert"]++
				} else if err != nil {
					rt.Fatalf("insert: %s", err)
				} else {
					m = nm
					cnt["insert"] += len(args)
				}
			case 1:
				min, max := bounds()
				fn, end := visit(m.within(min, max))
				c.Note("select")
				end(engine.TypedTableSelect(ctx, tx, ti, ptr(min), ptr(max), func(row types.Row) error {
					_, err := fn(row)
					return err
				}))
				cnt["select"]++
			case 2:
				p := st.gen(rt)
				if len(m.ps) > 0 && h.Chance(rt, 70, "existing") {
					o := st.clone(m.ps[h.N(rt, len(m.ps), "which")])
					for _, ck := range st.key {
						p.Elem().Field(int(ck.Column())).Set(o.Elem().Field(int(ck.Column())))
					}
				}
				c.Note("lookup %s", st.show(p))
				i, ok := m.find(st.row(p))
				err := engine.TypedTableLookup(ctx, tx, ti, p.Interface())
				if !ok {
					if err != io.EOF {
						rt.Fatalf("lookup of what is not there: %v; got %s", err, st.show(p))
					}
					cnt["lookup of nothing"]++
				} else if err != nil {
					rt.Fatalf("lookup: %s", err)
				} else if d := st.diff(p, m.ps[i]); d != "" {
					rt.Fatalf("lookup: %s; got %s; want %s", d, st.show(p), st.show(m.ps[i]))
				}
				cnt["lookup"]++
			case 3:
				min, max := bounds()
				// The fields that the update names, in any order.
				perm := h.Perm(rt, len(st.fields), "fields")[:1+h.N(rt, len(st.fields), "number")]
				up := &structure{}
				for _, i := range perm {
					f := st.fields[i]
					f.tag = ""
					up.fields = append(up.fields, f)
				}
				up.typ = structOf(up.fields)
				fn, end := visit(m.within(min, max))
				c.Note("update %s", up)
				dup := false
				err := engine.TypedTableUpdate(ctx, tx, ti, ptr(min), ptr(max),
					func(row types.Row) (interface{}, error) {
						if dup {
							rt.Fatalf("visited %s after a failed update", vals.ShowRow(row))
						}
						p, err := fn(row)
						if err != nil || h.Chance(rt, 30, "leave") {
							return nil, err
						}
						u := up.gen(rt)
						np := st.clone(p)
						for i, f := range perm {
							np.Elem().Field(f).Set(up.clone(u).Elem().Field(i))
						}
						c.Note("  %s to %s", st.show(p), up.show(u))
						nm := m.clone()
						nm.remove(p)
						if nm.insert(np) {
							m = nm
							cnt["update"]++
						} else {
							dup = true
						}
						return u.Interface(), nil
					})
				if dup {
					if err == nil {
						rt.Fatalf("an update to a key that another row has succeeded")
					}
					cnt["failed update"]++
				} else {
					end(err)
				}
			case 4:
				min, max := bounds()
				fn, end := visit(m.within(min, max))
				c.Note("delete")
				end(engine.TypedTableDelete(ctx, tx, ti, ptr(min), ptr(max),
					func(row types.Row) (bool, error) {
						p, err := fn(row)
						del := h.Chance(rt, 50, "delete")
						if err != nil || !del {
							// Told to stop, it does not delete.
							return del && err == nil, err
						}
						c.Note("  %s", st.show(p))
						m.remove(p)
						cnt["delete"]++
						return true, nil
					}))
			case 5:
				commit := h.Chance(rt, 60, "commit")
				c.Note("end: commit %v", commit)
				if commit {
					if err := tx.Commit(ctx); err != nil {
						rt.Fatalf("commit: %s", err)
					}
					done = m
				} else if err := tx.Rollback(); err != nil {
					rt.Fatalf("rollback: %s", err)
				}
				tx = store.Begin()
				m = done.clone()
				cnt["end"]++
			case 6:
				// A struct of another type, or a value that is too long, is refused.
				var what string
				var fn func() error
				long, narrow := -1, -1
				for i, f := range st.fields {
					if f.ct.Type == types.Int64Type && f.ct.Size < 8 {
						narrow = i
					}
					if (f.ct.Type == types.StringType || f.ct.Type == types.BytesType) && f.ct.Size < 100 {
						long = i
					}
				}
				if narrow >= 0 && len(m.ps) > 0 && h.Chance(rt, 50, "narrow") {
					what = "too large an integer in an update"
					f := &st.fields[narrow]
					max := int64(1)<<(8*f.ct.Size-1) - 1
					n := h.Pick(rt, "large", max+1, -max-2, max+max+2, 1<<40, -1<<63, 1<<63-1)
					u := reflect.New(structOf([]field{{name: f.name, typ: reflect.TypeOf(n)}}))
					u.Elem().Field(0).SetInt(n)
					fn = func() error {
						return engine.TypedTableUpdate(ctx, tx, ti, nil, nil,
							func(row types.Row) (interface{}, error) {
								return u.Interface(), nil
							})
					}
				} else if long >= 0 && h.Chance(rt, 60, "long") {
					what = "too long a value"
					f := &st.fields[long]
					b := make([]byte, f.ct.Size+1)
					set := func(fv reflect.Value) {
						if fv.Kind() == reflect.Pointer {
							fv.Set(reflect.New(fv.Type().Elem()))
							fv = fv.Elem()
						}
						if f.ct.Type == types.StringType {
							fv.SetString(string(b))
						} else {
							fv.SetBytes(b)
						}
					}
					if h.Chance(rt, 50, "insert") || len(m.ps) == 0 {
						p := st.gen(rt)
						set(p.Elem().Field(long))
						fn = func() error {
							return engine.TypedTableInsert(ctx, tx, ti, p.Interface())
						}
					} else {
						what += " in an update"
						up := structOf([]field{{name: f.name, typ: f.typ}})
						u := reflect.New(up)
						set(u.Elem().Field(0))
						fn = func() error {
							return engine.TypedTableUpdate(ctx, tx, ti, nil, nil,
								func(row types.Row) (interface{}, error) {
									return u.Interface(), nil
								})
						}
					}
				} else {
					what = "a struct of another type"
					arg := h.Pick[interface{}](rt, "arg", &struct{ Other int }{}, struct{ Other int }{},
						&struct{}{}, st.gen(rt).Elem().Interface())
					if h.Chance(rt, 50, "insert") {
						fn = func() error { return engine.TypedTableInsert(ctx, tx, ti, arg) }
					} else {
						fn = func() error { return engine.TypedTableLookup(ctx, tx, ti, arg) }
					}
				}
				c.Note("misuse: %s", what)
				if err := h.Refused(what, fn); err != nil {
					rt.Fatalf("%s", err)
				}
				cnt["refused"]++
			}
			check()
		}
		if err := tx.Commit(ctx); err != nil {
			rt.Fatalf("commit at the end: %s", err)
		}
		tx = store.Begin()
		check()
		if err := tx.Rollback(); err != nil {
			rt.Fatalf("rollback at the end: %s", err)
		}
		for k, n := range cnt {
			c.LabelIf(n > 0, k)
		}
		if cnt["insert"] > 1 && cnt["update"]+cnt["delete"] > 0 {
			c.NonTrivial("%s %v", st, cnt)
		}
	})
}
