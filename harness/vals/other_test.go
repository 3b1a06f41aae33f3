package vals

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"slices"
	"strings"
	"testing"

	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/types"

	"mahoverif/h"

	"pgregory.net/rapid"
)

// What one process tells another: names by their spelling, as bytes, because JSON keeps only valid
// text.
type otherName struct {
	Text   []byte
	Quoted bool
}

func (on otherName) id() types.Identifier {
	return types.ID(string(on.Text), on.Quoted)
}

type otherValue struct {
	Type  types.ValueType
	Bool  bool
	Int   int64
	Float uint64 // its bits
	Bytes []byte
}

func toOther(v types.Value) otherValue {
	switch v := v.(type) {
	case types.BoolValue:
		return otherValue{Type: types.BoolType, Bool: bool(v)}
	case types.Int64Value:
		return otherValue{Type: types.Int64Type, Int: int64(v)}
	case types.Float64Value:
		return otherValue{Type: types.Float64Type, Float: math.Float64bits(float64(v))}
	case types.StringValue:
		return otherValue{Type: types.StringType, Bytes: []byte(v)}
	case types.BytesValue:
		return otherValue{Type: types.BytesType, Bytes: []byte(v)}
	}
	return otherValue{}
}

func (ov otherValue) value() types.Value {
	switch ov.Type {
	case types.BoolType:
		return types.BoolValue(ov.Bool)
	case types.Int64Type:
		return types.Int64Value(ov.Int)
	case types.Float64Type:
		return types.Float64Value(math.Float64frombits(ov.Float))
	case types.StringType:
		return types.StringValue(ov.Bytes)
	case types.BytesType:
		return types.BytesValue(ov.Bytes)
	}
	return nil
}

type otherTable struct {
	Version uint32
	Names   []int // of the names
	Types   []types.ColumnType
	Key     []types.ColumnKey
	Rows    [][]otherValue
}

func (ot otherTable) tableType(names []types.Identifier) *engine.TableType {
	tt := &engine.TableType{Version: ot.Version, ColumnTypes: ot.Types, Key: ot.Key}
	for _, n := range ot.Names {
		tt.ColumnNames = append(tt.ColumnNames, names[n])
	}
	return tt
}

type otherAsk struct {
	Before []otherName // these are seen first
	Names  []otherName
	Tables []otherTable
	Coded  [][]byte // the names, encoded by the one that asks
	Defs   [][]byte // and the tables
}

type otherAnswer struct {
	Wrong []string
	Coded [][]byte
	Defs  [][]byte
	Keys  [][][]byte
	Texts [][]byte // the names and types
}

// answer does in this process what was asked.
func (oa *otherAsk) answer() *otherAnswer {
	var ans otherAnswer
	for _, on := range oa.Before {
		on.id()
	}
	var names []types.Identifier
	if len(oa.Before)%2 == 1 {
		for i := range oa.Names {
			oa.Names[len(oa.Names)-1-i].id()
		}
	}
	wrong := func(format string, args ...any) {
		ans.Wrong = append(ans.Wrong, fmt.Sprintf(format, args...))
	}
	// What comes from the other process is read first, or after the names are known here.
	decode := func() {
		for i, b := range oa.Coded {
			var id types.Identifier
			err := id.GobDecode(b)
			if want := oa.Names[i].id(); err != nil || id != want {
				wrong("name %q, encoded as %q, becomes %q (%d): %v; want %q (%d)", oa.Names[i].Text, b, id,
					id, err, want, want)
			}
		}
		for i, b := range oa.Defs {
			tt, err := engine.DecodeTableType(b)
			if err != nil {
				wrong("decoding table %d: %s", i, err)
				continue
			}
			var ids []types.Identifier
			for _, on := range oa.Names {
				ids = append(ids, on.id())
			}
			if want := oa.Tables[i].tableType(ids); !sameTableType(tt, want) {
				wrong("table %v became %v", *want, *tt)
			}
		}
	}
	if len(oa.Before)%4 < 2 {
		decode()
	}
	for _, on := range oa.Names {
		names = append(names, on.id())
	}
	if len(oa.Before)%4 >= 2 {
		decode()
	}
	for _, id := range names {
		b, err := id.GobEncode()
		if err != nil {
			wrong("encoding %q: %s", id, err)
		}
		ans.Coded = append(ans.Coded, b)
		ans.Texts = append(ans.Texts, []byte(id.String()))
	}
	for i, ot := range oa.Tables {
		tt := ot.tableType(names)
		b, err := tt.Encode()
		if err != nil {
			wrong("encoding table %d: %s", i, err)
		}
		ans.Defs = append(ans.Defs, b)
		var keys [][]byte
		for _, row := range ot.Rows {
			var r types.Row
			for _, ov := range row {
				r = append(r, ov.value())
			}
			keys = append(keys, encode.MakeKey(ot.Key, r))
		}
		ans.Keys = append(ans.Keys, keys)
		for _, ct := range ot.Types {
			ans.Texts = append(ans.Texts, []byte(fmt.Sprintf("%d", ct.Type)))
		}
	}
	return &ans
}

func sameTableType(a, b *engine.TableType) bool {
	return a.Version == b.Version && slices.Equal(a.ColumnNames, b.ColumnNames) &&
		slices.Equal(a.ColumnTypes, b.ColumnTypes) && slices.Equal(a.Key, b.Key) &&
		len(a.ColumnDefaults) == 0 && len(b.ColumnDefaults) == 0 &&
		slices.EqualFunc(a.Indexes, b.Indexes, func(a, b engine.IndexType) bool {
			return a.Name == b.Name && slices.Equal(a.Key, b.Key)
		})
}

const otherEnv = "VERIF_OTHER_PROCESS"

// beOther is the other process.
func beOther() {
	var oa otherAsk
	if err := json.NewDecoder(os.Stdin).Decode(&oa); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := json.NewEncoder(os.Stdout).Encode(oa.answer()); err != nil {
		os.Exit(4)
	}
	os.Exit(0)
}

func askOther(rt *rapid.T, oa *otherAsk) *otherAnswer {
	in, err := json.Marshal(oa)
	if err != nil {
		rt.Fatalf("cannot ask: %s", err)
	}
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), otherEnv+"=1", "GOMAXPROCS=2")
	cmd.Stdin = bytes.NewReader(in)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err = cmd.Run(); err != nil {
		rt.Fatalf("the other process fails: %s: %s", err, errs.String())
	}
	var ans otherAnswer
	if err = json.Unmarshal(out.Bytes(), &ans); err != nil {
		rt.Fatalf("the other process fails: %s: %s", err, errs.String())
	}
	return &ans
}

// TestP45: what is to be stored means the same to another process.
func TestP45(t *testing.T) {
	h.Check(t, 60, func(rt *rapid.T, c *h.Case) {
		var oa otherAsk
		name := func() otherName {
			sp := drawSpelling(rt)
			return otherName{[]byte(sp.text), sp.quoted}
		}
		for n := h.N(rt, 20, "before"); n > 0; n-- {
			oa.Before = append(oa.Before, name())
		}
		for n := 1 + h.N(rt, 30, "names"); n > 0; n-- {
			oa.Names = append(oa.Names, name())
		}
		for n := h.N(rt, 4, "tables"); n > 0; n-- {
			ot := otherTable{Version: rapid.Uint32().Draw(rt, "version")}
			for n := 1 + h.N(rt, 6, "columns"); n > 0; n-- {
				ot.Names = append(ot.Names, h.N(rt, len(oa.Names), "name"))
				ot.Types = append(ot.Types, ColumnType(rt))
			}
			for i := range ot.Types {
				if h.Chance(rt, 50, "key") {
					ot.Key = append(ot.Key, types.MakeColumnKey(types.ColumnNum(i), h.Chance(rt, 50, "reverse")))
				}
			}
			for n := h.N(rt, 4, "rows"); n > 0; n-- {
				var row []otherValue
				for range ot.Types {
					row = append(row, toOther(Value(rt)))
				}
				ot.Rows = append(ot.Rows, row)
			}
			oa.Tables = append(oa.Tables, ot)
		}
		var texts []string
		for _, on := range oa.Names {
			texts = append(texts, fmt.Sprintf("%q", on.Text))
		}
		c.Note("%s; tables %v", strings.Join(texts, " "), oa.Tables)
		here := (&otherAsk{Names: oa.Names, Tables: oa.Tables}).answer()
		oa.Coded, oa.Defs = here.Coded, here.Defs
		there := askOther(rt, &oa)

		var ids []types.Identifier
		for i, on := range oa.Names {
			id := on.id()
			ids = append(ids, id)
			var got types.Identifier
			err := got.GobDecode(there.Coded[i])
			if err != nil || got != id {
				rt.Fatalf("name %q, encoded elsewhere as %q, becomes %q (%d): %v; want %q (%d)", on.Text,
					there.Coded[i], got, got, err, id, id)
			}
			c.LabelIf(id.IsReserved(), "reserved")
		}
		for i, b := range there.Defs {
			tt, err := engine.DecodeTableType(b)
			if err != nil {
				rt.Fatalf("decoding a table from elsewhere: %s", err)
			}
			if want := oa.Tables[i].tableType(ids); !sameTableType(tt, want) {
				rt.Fatalf("table %v from elsewhere became %v", *want, *tt)
			}
		}
		for i := range here.Keys {
			for j := range here.Keys[i] {
				if !bytes.Equal(here.Keys[i][j], there.Keys[i][j]) {
					rt.Fatalf("key %v of row %v is %q, and %q elsewhere", oa.Tables[i].Key, oa.Tables[i].Rows[j],
						here.Keys[i][j], there.Keys[i][j])
				}
			}
		}
		for i := range here.Texts {
			if !bytes.Equal(here.Texts[i], there.Texts[i]) {
				rt.Fatalf("%q is %q elsewhere", here.Texts[i], there.Texts[i])
			}
		}
		if len(there.Wrong) > 0 {
			rt.Fatalf("elsewhere: %s", strings.Join(there.Wrong, "; "))
		}
		if len(oa.Before) > 0 && len(oa.Names) > 3 && len(oa.Tables) > 0 {
			c.NonTrivial("%d names seen before; %s; tables %v", len(oa.Before), strings.Join(texts, " "),
				oa.Tables)
		}
	})
}
