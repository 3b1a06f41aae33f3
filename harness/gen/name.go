package gen

import (
	"strings"

	"github.com/leftmike/maho/types"

	"mahoverif/h"

	"pgregory.net/rapid"
)

// Unreserved are the names with a meaning of their own that may be used like any other name.
var Unreserved = map[string]types.Identifier{
	"bigint": types.BIGINT, "binary": types.BINARY, "blob": types.BLOB, "bool": types.BOOL,
	"boolean": types.BOOLEAN, "bytea": types.BYTEA, "bytes": types.BYTES, "char": types.CHAR,
	"character": types.CHARACTER, "double": types.DOUBLE, "int": types.INT, "int2": types.INT2,
	"int4": types.INT4, "int8": types.INT8, "integer": types.INTEGER, "path": types.PATH,
	"precision": types.PRECISION, "real": types.REAL, "smallint": types.SMALLINT,
	"stdin": types.STDIN, "text": types.TEXT, "varbinary": types.VARBINARY,
	"varchar": types.VARCHAR,
}

var unreservedNames = h.SortedKeys(Unreserved)

// Builtin are names known from the start, which otherwise are ordinary.
var Builtin = map[string]types.Identifier{
	"btree": types.BTREE, "columns": types.COLUMNS, "config": types.CONFIG,
	"constraints": types.CONSTRAINTS, "count": types.COUNT, "count_all": types.COUNT_ALL,
	"databases": types.DATABASES, "description": types.DESCRIPTION, "field": types.FIELD,
	"flags": types.FLAGS, "indexes": types.INDEXES, "info": types.INFO, "maho": types.MAHO,
	"metadata": types.METADATA, "private": types.PRIVATE, "public": types.PUBLIC,
	"__rowid": types.ROWID, "schemas": types.SCHEMAS, "sequences": types.SEQUENCES,
	"system": types.SYSTEM, "tables": types.TABLES, "tree": types.TREE,
}

var builtinNames = h.SortedKeys(Builtin)

// ReservedWords may be used as names only when quoted.
var ReservedWords = map[string]types.Identifier{
	"ACTION": types.ACTION, "ADD": types.ADD, "ALL": types.ALL, "ALTER": types.ALTER,
	"AND": types.AND, "ANY": types.ANY, "AS": types.AS, "ASC": types.ASC, "BEGIN": types.BEGIN,
	"BY": types.BY, "CASCADE": types.CASCADE, "CHECK": types.CHECK, "COLUMN": types.COLUMN,
	"COMMIT": types.COMMIT, "CONSTRAINT": types.CONSTRAINT, "COPY": types.COPY,
	"CREATE": types.CREATE, "CROSS": types.CROSS, "DATABASE": types.DATABASE,
	"DEFAULT": types.DEFAULT, "DELETE": types.DELETE, "DELIMITER": types.DELIMITER,
	"DESC": types.DESC, "DETACH": types.DETACH, "DROP": types.DROP, "EXECUTE": types.EXECUTE,
	"EXISTS": types.EXISTS, "EXPLAIN": types.EXPLAIN, "FALSE": types.FALSE,
	"FOREIGN": types.FOREIGN, "FROM": types.FROM, "FULL": types.FULL, "GROUP": types.GROUP,
	"HAVING": types.HAVING, "IF": types.IF, "IN": types.IN, "INDEX": types.INDEX,
	"INNER": types.INNER, "INSERT": types.INSERT, "INTO": types.INTO, "IS": types.IS,
	"JOIN": types.JOIN, "KEY": types.KEY, "LEFT": types.LEFT, "NO": types.NO, "NOT": types.NOT,
	"NULL": types.NULL, "ON": types.ON, "OR": types.OR, "ORDER": types.ORDER,
	"OUTER": types.OUTER, "PREPARE": types.PREPARE, "PRIMARY": types.PRIMARY,
	"REFERENCES": types.REFERENCES, "RESTRICT": types.RESTRICT, "RIGHT": types.RIGHT,
	"ROLLBACK": types.ROLLBACK, "SCHEMA": types.SCHEMA, "SELECT": types.SELECT,
	"SET": types.SET, "SHOW": types.SHOW, "SOME": types.SOME, "START": types.START,
	"TABLE": types.TABLE, "TO": types.TO, "TRANSACTION": types.TRANSACTION, "TRUE": types.TRUE,
	"UNIQUE": types.UNIQUE, "UPDATE": types.UPDATE, "USE": types.USE, "USING": types.USING,
	"VALUES": types.VALUES, "VERBOSE": types.VERBOSE, "WHERE": types.WHERE, "WITH": types.WITH,
}

var reservedNames = h.SortedKeys(ReservedWords)

var plainNames = []string{"t", "u", "a", "b", "c", "e", "x", "tbl", "col_2", "abc", "a1", "_n",
	"idx", "item$1", "very_long_name_of_something", "foo", "bar", "is_null", "nothing", "ordering",
	"selected", "null_", "true1"}

// Ordinary is the identity of a name that is neither reserved nor unreserved keyword, given as
// it is known: in lower case if it is written without quotes.
func Ordinary(s string) types.Identifier {
	return types.ID(s, true)
}

// Name is a name as written and what it denotes.
type Name struct {
	Tok Tok
	ID  types.Identifier
}

func mixCase(t *rapid.T, s string) string {
	return flipCase(t, s)
}

var wordRune = rapid.SampledFrom([]rune("abcdefghijklmnopqrstuvwxyz_0123456789$éжÑß日λ"))

// AnyName draws a name; plain ones are in lower case and not quoted.
func AnyName(t *rapid.T, plain bool) Name {
	if plain {
		s := h.Pick(t, "name", plainNames...)
		return Name{Tok{Text: s, Kind: Word}, Ordinary(s)}
	}
	switch h.Weighted(t, "name", 10, 4, 3, 3, 3, 4, 2) {
	case 1: // any case
		s := h.Pick(t, "name", plainNames...)
		return Name{Tok{Text: mixCase(t, s), Kind: Word}, Ordinary(s)}
	case 2: // letters
		n := 12
		if h.Chance(t, 5, "long") {
			n = 300
		}
		s := h.Pick(t, "first", "a", "z", "_", "é", "日") + rapid.StringOfN(wordRune, n/3-4, n, -1).Draw(t, "word")
		if _, ok := ReservedWords[strings.ToUpper(s)]; ok {
			s += "_"
		} else if id, ok := Unreserved[s]; ok {
			return Name{Tok{Text: s, Kind: Word}, id}
		}
		return Name{Tok{Text: mixCase(t, s), Kind: Word}, Ordinary(strings.ToLower(s))}
	case 3: // unreserved keyword
		s := h.Pick(t, "name", unreservedNames...)
		return Name{Tok{Text: mixCase(t, s), Kind: Word}, Unreserved[s]}
	case 4: // built in name
		s := h.Pick(t, "name", builtinNames...)
		return Name{Tok{Text: mixCase(t, s), Kind: Word}, Builtin[s]}
	case 5: // quoted
		return QuotedName(t)
	case 6: // quoted keyword
		s := h.Pick(t, "name", reservedNames...)
		if h.Chance(t, 50, "lower") {
			s = strings.ToLower(s)
		}
		return Name{Tok{Text: quote(t, s), Kind: Quoted}, types.ID(s, true)}
	}
	s := h.Pick(t, "name", plainNames...)
	return Name{Tok{Text: s, Kind: Word}, Ordinary(s)}
}

func quote(t *rapid.T, s string) string {
	switch h.N(t, 3, "quote") {
	case 0:
		return `"` + s + `"`
	case 1:
		return "`" + s + "`"
	}
	return "[" + s + "]"
}

var quotedRune = rapid.SampledFrom([]rune("abAB 01'.,;-*/()$#éЖ日\\"))

func QuotedName(t *rapid.T) Name {
	s := h.Pick(t, "first", "a", "A", "Q", " ", "1", "'", "é") +
		rapid.StringOfN(quotedRune, 0, 6, -1).Draw(t, "quoted")
	return Name{Tok{Text: quote(t, s), Kind: Quoted}, types.ID(s, true)}
}

// Reserved draws a reserved word as written.
func Reserved(t *rapid.T) (string, types.Identifier) {
	s := h.Pick(t, "reserved", reservedNames...)
	return mixCase(t, s), ReservedWords[s]
}
