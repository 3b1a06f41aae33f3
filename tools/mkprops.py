#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one line per property)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })

PARSER = "parser/parser.go"
SCAN = "parser/scanner/scanner.go"

# ---------------------------------------------------------------- language
prop("P01", "Expressions group by operator precedence, left to right",
"""A parsed expression has exactly the tree that the documented operator precedences and left
associativity give it, with parentheses and function arguments overriding them, whatever the mix of
binary and prefix operators and however the operands are nested. IS NULL, IN and comparisons with ANY,
SOME or ALL apply to the single or parenthesised operand directly before them. Parsing takes time
polynomial in the length of the expression.""",
["inputs"], "every expression built from literals, references, calls, prefix - and NOT, all binary operators, IS [NOT] NULL, [NOT] IN, ANY/SOME/ALL, EXISTS and scalar subqueries, with any nesting of parentheses",
"The tests list about a hundred fixed expressions, nearly all with two or three operators; grouping has to be right for every combination of operators and nesting, and the rotations interact only in longer chains.",
[PARSER, "parser/sql/expr.go"],
[("precedence table and tree rotation", PARSER + ": opPrecedence, adjustPrecedence"), ("recursive descent over operands", PARSER + ": parseSubExpr, optionalBinaryOp")],
["Parser.ParseExpr", "Parser.Parse of VALUES/SELECT/WHERE"])

prop("P02", "Schema statements are parsed to exactly what was written",
"""For every well-formed CREATE, DROP and ALTER statement, the parsed statement carries exactly the
names, column types with sizes and nullability, defaults, keys with their directions, constraints,
foreign keys with their actions, and options that the text spells out, and nothing else.""",
["inputs", "programs"], "every CREATE/DROP DATABASE, SCHEMA, TABLE, INDEX and ALTER TABLE statement of the grammar, over all optional clauses in every allowed order and count",
"The tests hold a few dozen fixed statements; optional clauses combine, and a clause that is dropped or attached to the wrong column only when another one is present is not sampled.",
[PARSER, "parser/sql/datadef.go", "types/column.go"],
[("DDL productions", PARSER + ": parseCreateDetails, parseColumn, parseKey, parseForeignKey, parseAlterTable, parseCreateIndex, parseOptions"), ("type table", PARSER + ": ColumnTypes")],
["Parser.Parse"])

prop("P03", "Query and data statements are parsed to exactly what was written",
"""For every well-formed SELECT, VALUES, INSERT, UPDATE, DELETE, COPY, SET, USE, SHOW, EXPLAIN and
transaction statement, the parsed statement carries exactly the result list, aliases, sources and
join tree, conditions, groupings, orderings, rows, assignments and variables that the text spells
out, with every omitted clause absent.""",
["inputs", "programs"], "every query or data statement of the grammar, with nested subqueries, parenthesised and chained joins, and all optional clauses",
"The tests hold a fixed list of statements; joins, subqueries, aliases and clauses nest and combine without bound.",
[PARSER, "parser/sql/query.go", "parser/sql/stmt.go"],
[("query productions", PARSER + ": parseSelect, parseFromItem, parseFromList, parseValues, parseInsert, parseUpdate, parseDelete, parseShow, parseSet"), ("token look-back", PARSER + ": unscan, lookBack")],
["Parser.Parse"])

prop("P04", "Literals and names decode to the value written and stay that value",
"""Every string, escaped string, byte string, number and quoted or unquoted name is decoded to exactly
the value its spelling denotes, including escapes, doubled quotes, continuation over newlines and the
extremes of each numeric type, and a literal that denotes no value is reported as an error. A decoded
value does not change when more input is parsed afterwards.""",
["inputs", "histories"], "every literal spelling of every kind, embedded at any position of a longer input",
"The scanner tests cover a few dozen literals one at a time and look at each before the next token is read, so neither the space of spellings nor what later tokens do to earlier values is exercised.",
[SCAN, PARSER, "types/identifier.go"],
[("constant scanning", SCAN + ": scanQuotedConstant, scanHexBytes, scanNumber, scanQuotedIdentifier"), ("shared token buffer", SCAN + ": Scanner.buffer")],
["Scanner.Scan", "sql.Literal values in parsed statements"])

prop("P05", "Layout, comments and keyword case do not change the meaning",
"""Replacing the whitespace or comments between the tokens of a statement by any other, removing them
where the tokens stay separate, or changing the letter case of keywords and unquoted names does not
change the parsed statement, or whether it is accepted.""",
["inputs", "programs"], "pairs of layouts of the same token sequence, over all statements of the grammar",
"A relation between two spellings of the same statement is not tested at all; the tests use one fixed layout per statement.",
[SCAN, PARSER, "types/identifier.go"],
[("whitespace and comment skipping, operator look-ahead", SCAN + ": scan"), ("case folding", "types/identifier.go: lookupID")],
["Parser.Parse", "Scanner.Scan"])

prop("P06", "Any input yields statements or errors; it never crashes, hangs or loops",
"""For any input text, parsing repeatedly produces a finite sequence of statements and errors and then
end of input: it never crashes, never fails to return, never returns both or neither of a result and
an error except for an empty statement, and end of input stays end of input.""",
["inputs"], "arbitrary byte strings, random token soups, and mutated well-formed statements",
"Absence of crashes and hangs quantifies over all inputs; the tests parse only inputs that their author thought of.",
[PARSER, SCAN],
[("error recovery by panic and recover", PARSER + ": Parse, ParseExpr, error"), ("look-back ring", PARSER + ": scanRune, unscan"), ("error tokens", SCAN + ": scan")],
["Parser.Parse", "Parser.ParseExpr", "Scanner.Scan"])

prop("P07", "Statements in a stream are independent; an error costs one statement",
"""In a sequence of statements separated by semicolons each well-formed statement is parsed to the
same result as when it stands alone, whatever surrounds it, is returned without reading beyond its semicolon,
and stays that result while more is parsed. Empty statements are harmless, and a
malformed statement is reported at least once, yields no statement, and does not affect any statement
after its terminating semicolon.""",
["inputs", "histories"], "every interleaving of well-formed, empty and malformed statements",
"The tests parse one or two statements per parser; recovery depends on where in the bad statement the error is and on what the look-back buffer holds.",
[PARSER, SCAN],
[("resynchronisation", PARSER + ": Parse (failed), expectEndOfStatement"), ("look-back ring", PARSER + ": scanRune, unscan")],
["Parser.Parse"])

prop("P08", "Reported positions are where the offending token starts",
"""Every token, and every error reported for a token, carries the file name and the line and column at
which that token starts in the input, counting lines and characters from one, whatever whitespace,
comments, multi-line strings and earlier statements precede it.""",
["inputs"], "every token sequence with arbitrary layout before and between tokens",
"No test checks a line or column number.",
[SCAN, PARSER],
[("position tracking", SCAN + ": readRune, scan"), ("error formatting", PARSER + ": error")],
["Scanner.Scan position", "error text of Parser.Parse"])

prop("P09", "Parsed statements can always be printed, and expressions print faithfully",
"""Every statement the parser returns can be printed without failing, and printing the same statement twice gives the same text. The
text of a statement or expression over plain lower-case names and literals other than byte strings and floats which print without a fraction or with an
exponent parses back to the same statement up to redundant parentheses and to what is not shown or spelled otherwise: lengths of column types, referential
actions, names of constraints of columns, STRING for VARCHAR, a bare CONSTRAINT before CHECK or FOREIGN KEY without a name, and values of SET, USE and
options without quotes.""",
["inputs", "programs"], "every statement the parser accepts; the parse-back part over statements with plain lower-case names and printable literals",
"Tests compare the printed text of some fixed statements; they never print statements with clauses omitted nor feed printed text back.",
["parser/sql/expr.go", "parser/sql/query.go", "parser/sql/datadef.go", "parser/sql/stmt.go", "main.go"],
[("printing", "parser/sql: String methods"), ("value printing", "types/value.go: FormatValue")],
["Stmt.String", "Expr.String", "console output"])

prop("P10", "Inconsistent statements are rejected with an error",
"""A statement that contradicts itself is rejected: a column named twice in one table, key, insert or
join list, a second primary key, equal keys or reused constraint names, a repeated default, NOT NULL
or referential action, a named constraint without a constraint, VALUES rows of different lengths, a
join without or a cross join with a condition, a derived table without an alias, or a length out of
range.""",
["inputs", "programs"], "every otherwise well-formed statement into which exactly one such contradiction is injected at any place",
"Tests reject a few fixed bad statements; each rule must fire wherever in the statement the contradiction is and whatever clauses are around it.",
[PARSER],
[("semantic checks during parsing", PARSER + ": parseColumn, parseKey, addKeyConstraint, addColumnConstraint, parseFromItem, parseValues, parseInsert, parseOnActions")],
["Parser.Parse"])

prop("P11", "COPY hands over exactly its inline data, then parsing goes on",
"""After a COPY statement the caller reads exactly the text that begins on the line after the
statement, with the right starting line number, columns and delimiter; when it has read the data it
wants, the statements after the data are parsed as usual and with right positions.""",
["inputs", "histories"], "every COPY statement followed by any inline data and any further statements",
"The tests read one fixed block; the hand-over point depends on the look-ahead that scanner and parser hold.",
[PARSER, SCAN],
[("reader hand-over", SCAN + ": RuneReader, runeReader.ReadRune"), ("COPY production", PARSER + ": parseCopy")],
["sql.Copy.From, FromLine, Delimiter", "Parser.Parse afterwards"])

prop("P12", "The console echoes every statement and survives every error",
"""The interactive program reads statements from its input to the end, prints every well-formed
statement in its printed form and one message for every malformed one, in input order, each as soon as its
semicolon has been read, and then exits normally.""",
["inputs", "histories"], "every input stream of well-formed and malformed statements",
"No test runs the program.",
["main.go", PARSER],
[("read loop", "main.go: main")],
["standard output and exit status of the program"])

# ---------------------------------------------------------------- values
prop("P13", "Value comparison is a total order consistent with the values",
"""Comparing any two values gives a total order: antisymmetric, transitive and equal only for values
that denote the same value. NULL comes first, then booleans, numbers by exact numeric value whatever
their representation with not-a-number lowest, then strings and byte strings in byte order.""",
["inputs"], "all pairs and triples of values, including extreme integers, integers and floats near each other, not-a-number, infinities and signed zeros",
"Tests compare a handful of pairs; transitivity is a statement about triples, and the mixed integer/float cases break only beyond 53 bits.",
["types/value.go"],
[("comparison", "types/value.go: Compare, compare methods, order")],
["types.Compare"])

prop("P14", "Row keys sort exactly like the rows they encode and never collide",
"""Encoding the key columns of rows, each ascending or descending, gives byte strings whose order is
the order of the rows column by column and which are equal only if the key columns are equal; NULL
sorts first in either direction, and no key is confused with another by its length or content. A key
is said to be updated exactly by changes to its columns.""",
["inputs"], "all pairs of rows of the same column types with any number of key columns in any order and direction",
"Tests check chains of fixed values in one or two columns; embedded terminators, prefixes, sign boundaries and mixed directions over several columns are not sampled.",
["encode/key.go", "encode/encode.go", "types/column.go"],
[("order-preserving encoding", "encode/key.go: MakeKey, encodeKeyBytes"), ("column keys", "types/column.go: MakeColumnKey")],
["encode.MakeKey", "types.ColumnKeyUpdated"])

prop("P15", "Conversion to a column type yields a conforming equal value or an error",
"""Converting a value to a column type yields either an error or a value of that type within the
declared size and nullability that denotes the same value in the target type (casting to a type: the
same without limits); NULL stays NULL or is refused, converting twice changes nothing, and a value that the column cannot hold is never silently
altered.""",
["inputs"], "all pairs of values and column types; a number with a fraction may be truncated toward zero and an integer rounded to the nearest float; a value of the column's own type that fits is always accepted",
"Tests convert a fixed table of values; overflow, not-a-number, length limits and idempotence hold over all values and types.",
["types/value.go", "types/column.go"],
[("casting and range checks", "types/value.go: CastValue, ConvertValue, ConvertRow")],
["types.ConvertValue", "types.ConvertRow", "types.CastValue"])

prop("P16", "Variable-length and fixed integer encodings round-trip",
"""Every 64-bit integer, signed or unsigned, encodes to the standard variable-length form and decodes
back to itself consuming exactly its own bytes; decoding arbitrary bytes either fails or consumes a
prefix, and never crashes. Fixed-width encodings are big-endian and keep the order of the integers.""",
["inputs"], "all 64-bit values, all byte strings, and all concatenations of encodings",
"Tests use a fixed list of values and never decode malformed input.",
["encode/encode.go"],
[("varint and zigzag", "encode/encode.go: EncodeVarint, DecodeVarint, EncodeZigzag64, DecodeZigzag64"), ("fixed width", "encode/encode.go: EncodeUint64, EncodeUint32")],
["encode package functions"])

prop("P17", "A name has one identity, decided by its spelling",
"""Two spellings of a name get the same identity exactly when they denote the same name: unquoted names
ignore case and reserved words are recognised in any case, quoted names keep theirs, and only the
first 128 bytes count. The printed form of an identity is its name, never longer than the limit and
always valid text for valid input, and does not change as more names appear.""",
["inputs", "histories"], "all pairs of spellings, quoted and unquoted, in any order of first use, with lengths around the limit and non-ASCII letters",
"Tests look up fixed names; the interning table is global state, so identity and stability are statements about histories of lookups.",
["types/identifier.go"],
[("interning", "types/identifier.go: lookupID, ID, names, identifiers, keywords")],
["types.ID", "Identifier.String", "Identifier.IsReserved"])

prop("P18", "Names survive being stored and reloaded",
"""Any identity that is encoded for storage, alone or inside a larger definition, decodes to the same
identity in the same process, for ordinary, quoted, reserved and built-in names, and decoding
arbitrary bytes fails cleanly.""",
["inputs"], "all identities: every keyword, every built-in name, quoted spellings of keywords, and arbitrary names",
"Tests encode a few names; the set of keywords and built-in names is large and some are spelled in both cases.",
["types/identifier.go", "storage/basic/basic.go", "engine/engine.go"],
[("gob encoding", "types/identifier.go: GobEncode, GobDecode")],
["gob round trip of Identifier, table definitions"])

prop("P19", "Names can be used from many goroutines at once",
"""Looking up, creating and printing names concurrently from many goroutines gives every goroutine the
same identity for the same name and the right printed name, without data races or crashes.""",
["schedules"], "all schedules of concurrent lookups, creations and printing of overlapping sets of names",
"No test uses names concurrently; the race detector and repeated schedules are needed to see it.",
["types/identifier.go"],
[("reader/writer lock", "types/identifier.go: mutex")],
["types.ID, Identifier.String under the race detector"])

# ---------------------------------------------------------------- storage
prop("P20", "A table holds exactly the rows its history of changes leaves",
"""After any history of inserts, updates and deletes, reading a table gives exactly the rows a simple
map from key to row would hold, with the values last written, in key order, each once, whatever the
column types, key columns and directions.""",
["histories", "configurations"], "all histories of operations on tables of every column type and key shape, with values including NULLs, empty and binary strings and extremes",
"Tests run fixed scripts on a few tables; the tree reorganises with size and history, and key changes interact with neighbouring rows.",
["storage/basic/basic.go", "storage/basic/btree.go", "encode/key.go"],
[("ordered tree keyed by relation and encoded key", "storage/basic/btree.go: lessItems, rowToItem"), ("row operations", "storage/basic/basic.go: Insert, rowRef.Update, rowRef.Delete, Rows")],
["storage.Table.Rows, Insert; RowRef.Update, Delete"])

prop("P21", "Range, filter and column selection pick exactly the right rows",
"""Scanning with a lower bound, an upper bound, a filter on one column and a choice of columns returns
exactly the rows whose key lies within the inclusive bounds and whose value satisfies the filter, in
key order, with exactly the chosen columns in the chosen order; a NULL never satisfies a filter.""",
["inputs", "configurations"], "all table contents, bounds present or absent, existing or not, equal, reversed or beyond the ends, all filters and column choices, ascending and descending keys",
"Tests scan a few fixed ranges; bounds that fall between keys, on tables with neighbours in the same tree and with descending keys are not covered.",
["storage/basic/basic.go", "storage/basic/btree.go"],
[("range iteration", "storage/basic/basic.go: Rows"), ("predicates by type", "storage/basic/basic.go: predicateFunction")],
["storage.Table.Rows, Rows.Next"])

prop("P22", "Transactions are all or nothing",
"""After a commit every change of the transaction is visible to all later transactions, and after a
rollback none is, including created and dropped tables and changed keys; within a transaction its own
changes are visible at once.""",
["histories"], "all histories of transactions with any mixture of table and row changes, each committed or rolled back",
"Tests commit and roll back a few fixed scripts; copy-on-write sharing between versions breaks only for particular histories and tree sizes.",
["storage/basic/basic.go"],
[("copy-on-write tree", "storage/basic/basic.go: forWrite, Commit, Rollback"), ("store lock", "storage/basic/basic.go: Begin")],
["storage.Transaction.Commit, Rollback"])

prop("P23", "Keys are unique and a failing row change changes nothing",
"""No history leaves two rows with equal keys in a table. An insert or update of a row that fails, for
a duplicate key or an invalid value, reports an error and leaves the existing rows exactly as they
were, and a key that was deleted or moved away can be used again.""",
["histories"], "all histories with inserts and key-changing updates that collide with existing rows or carry invalid values",
"Tests check that a duplicate insert fails; they do not check what the failure leaves behind, nor updates that fail.",
["storage/basic/basic.go"],
[("uniqueness check", "storage/basic/basic.go: Insert, rowRef.Update")],
["storage.Table.Insert, RowRef.Update"])

prop("P24", "Stored rows always conform to their table's column types",
"""Whatever values an insert or an update supplies, every row later read has a value of the declared
type within the declared size in every column and a non-NULL value where NULL is not allowed: a
convertible value is converted and any other is refused.""",
["histories", "inputs"], "all inserts of full rows and all updates of any columns with values of any type, fitting or not",
"Tests insert and update values of the right type; nothing checks what an update with a wrong value leaves.",
["storage/basic/basic.go", "types/value.go"],
[("conversion on write", "storage/basic/basic.go: Insert, rowRef.Update; types/value.go: ConvertRow")],
["storage.Table.Insert, RowRef.Update, Rows.Next"])

prop("P25", "An open scan sees the table as it was when it was opened",
"""A scan returns the rows that the table held when the scan was opened, each once, however the table is
changed while it is being read: a row changed or moved by the reader is not met again, and rows
inserted meanwhile are not seen. A row that a scan is on can be updated or deleted through it.""",
["histories"], "all interleavings of advancing one or several scans with inserts, updates and deletes in the same transaction",
"Tests update during a scan in one or two fixed patterns.",
["storage/basic/basic.go"],
[("materialised scan", "storage/basic/basic.go: Rows, rows.Next, rows.Current")],
["storage.Rows.Next, Current, Close"])

prop("P26", "Concurrent transactions behave as if run one after another",
"""Transactions run from many goroutines have the effect of some serial order: no update is lost, no
transaction sees another's uncommitted or partial changes, and a transaction sees one state of the
data throughout. Every transaction eventually runs once the others have finished, and there is no
data race.""",
["schedules", "histories"], "all schedules of concurrent reading, writing, committing and rolling back transactions",
"No test runs transactions concurrently.",
["storage/basic/basic.go"],
[("store lock held for the transaction", "storage/basic/basic.go: Begin, Commit, Rollback")],
["storage.Store.Begin and everything after it, under the race detector"])

prop("P27", "Tables are created, opened and dropped exactly, without sharing rows",
"""A created table is empty and can be opened with its definition, which it then reports unchanged; a
missing table, a second creation or a definition that differs is refused. Tables never see each
other's rows, and dropping a table removes its rows, so that a later table with its number starts
empty.""",
["histories", "configurations"], "all histories of creating, filling, opening rightly and wrongly, dropping and re-creating tables with adjacent numbers and any definition, with commits and rollbacks",
"Tests create and drop a few empty tables; rows left behind, boundaries between neighbouring tables and definitions with unusual names are not covered.",
["storage/basic/basic.go", "storage/basic/btree.go", "types/identifier.go"],
[("table types relation", "storage/basic/basic.go: getTableType, setTableType, deleteTableType"), ("relation prefix", "storage/basic/btree.go: toRelationId, lessItems")],
["storage.Transaction.CreateTable, OpenTable, DropTable"])

prop("P28", "A finished transaction refuses further use and never blocks others",
"""A transaction can be completed once: completing it again reports an error and has no effect on the
store, completing it while scans are open is refused and leaves it usable, and after every completion
the next transaction can start.""",
["histories"], "all sequences of begin, scan open and close, commit and rollback, including repeated completions",
"Tests try a second commit once; they do not check that later transactions still start or that a stale handle cannot disturb them.",
["storage/basic/basic.go", "engine/engine.go"],
[("completion state", "storage/basic/basic.go: Commit, Rollback, rowsCount"), ("engine wrapper", "engine/engine.go: Commit, Rollback")],
["storage.Transaction and engine.Transaction Commit, Rollback"])

# ---------------------------------------------------------------- typed tables
prop("P29", "Structs stored in typed tables come back equal and unshared",
"""Any struct of supported field types that is stored in a table described by its type is read back
equal in every field, with nil for NULL, and shares no memory with the stored data: changing the
struct given or the struct returned does not change what is stored.""",
["inputs", "programs"], "all struct types made of the supported field kinds, pointers to them and byte slices, with any tags and any field values within the declared sizes",
"Tests use a few fixed structs; the conversions switch on kind, size and nullability of each field.",
["engine/typedtable.go", "engine/typedinfo.go"],
[("reflection", "engine/typedtable.go: structToRow, RowToStruct, fieldToValue"), ("column derivation", "engine/typedinfo.go: MakeTypedInfo")],
["TypedTableInsert, TypedTableLookup, TypedTableSelect, RowToStruct"])

prop("P30", "Struct types are described by the right table definition",
"""The table definition derived from a struct type has one column per field in order, named by the tag
or else by the field name in lower case with words separated, with the type, size and nullability the
field and its tags call for and the marked fields as key; an unsupported field or malformed tag is
refused.""",
["programs", "inputs"], "all struct types with any field names, kinds and tags",
"Tests describe a few fixed structs and names.",
["engine/typedinfo.go"],
[("derivation", "engine/typedinfo.go: MakeTypedInfo, fieldNameToColumnName, fieldTags")],
["MakeTypedInfo", "TypedInfo.TableType"])

prop("P31", "Typed select, lookup, update and delete affect exactly the right rows",
"""Typed operations over a key range visit exactly the rows in the range in key order and change or
remove exactly those for which the caller asks, setting exactly the fields named in the update; lookup
finds the row with the given key or reports its absence, and an error or early stop ends the visit
and leaves the transaction usable.""",
["histories"], "all histories of typed operations with any ranges, updates of any subset of fields, early stops and errors",
"Tests run a fixed script.",
["engine/typedtable.go"],
[("typed iteration", "engine/typedtable.go: typedTableSelect, TypedTableUpdate, TypedTableDelete, TypedTableLookup"), ("partial updates", "engine/typedtable.go: structToColsVals")],
["TypedTable functions"])

# ---------------------------------------------------------------- engine
prop("P32", "The catalog holds exactly the databases and schemas its history leaves",
"""After any history of creating and dropping databases and schemas and creating tables in committed and
rolled back transactions, listings, opens and creations succeed and fail exactly as a simple nested catalog
would: nothing is created twice or under a missing parent, a dropped object takes everything inside it
along, a failed or rolled back change leaves no trace, no failure is io.EOF (the end of rows), and a fresh
catalog holds its initial objects.""",
["histories"], "all histories of catalog operations by transactions that commit or roll back",
"Tests run short fixed scripts; leftovers of dropped objects and neighbouring names show only in longer histories.",
["engine/engine.go", "engine/init.go"],
[("catalog tables", "engine/engine.go: databasesRow, schemasRow, tablesRow"), ("initialisation", "engine/init.go: initStore")],
["engine.Engine and engine.Transaction methods"])

prop("P33", "Tables keep their definition and a number of their own",
"""A created table opens, in any later transaction, with exactly the name, columns, types and key it was
created with, for any legal names and types, and has a number above the reserved range that no other
table has or gets, also after rollbacks and failed creations; a definition too large to be stored is
refused with an error.""",
["histories", "inputs"], "all table definitions, with up to hundreds of columns and names equal to type names or keywords, and all histories of creations with rollbacks",
"Tests create a few small tables.",
["engine/engine.go", "types/identifier.go"],
[("definition encoding", "engine/engine.go: Encode, DecodeTableType"), ("number sequence", "engine/engine.go: nextTableId")],
["engine.Transaction.CreateTable, OpenTable; Table.Type, TableId"])

# ---------------------------------------------------------------- sessions
prop("P34", "Sessions run statements in the right transaction",
"""Outside an explicit transaction each supported statement takes effect alone and completely or not at all;
between BEGIN and COMMIT or ROLLBACK the statements take effect together or not at all. BEGIN, COMMIT,
ROLLBACK and database statements are refused in the wrong state without changing it, a COMMIT that
fails ends the transaction without effect, and after any supported statement, failed or not, the session and all other sessions can go on.""",
["histories"], "all histories of statements, valid and failing, in any transaction state",
"Tests run fixed scripts against recording stand-ins; they do not look at the resulting state of a real store or at whether the store is left locked.",
["evaluate/session.go", "evaluate/evaluate.go"],
[("session state machine", "evaluate/session.go: Evaluate"), ("autocommit", "evaluate/session.go: Evaluate")],
["Session.Evaluate, then the catalog through another session"])

prop("P35", "Unqualified names refer to the session's current database and schema",
"""A name without database or schema refers to the session's current ones at the time of execution and
a fully qualified name to itself; SET and USE change the current ones for later statements of that
session only, and any other variable is refused.""",
["histories", "inputs"], "all sequences of SET, USE and statements with names qualified to any degree, over several sessions",
"Tests resolve a few names; order of SET and use, and independence of sessions, are statements about histories.",
["evaluate/session.go", "parser/sql/datadef.go", "parser/sql/query.go"],
[("resolution", "evaluate/session.go: ResolveTable, ResolveSchema, set; Resolve methods")],
["Session.Evaluate, Session.ResolveTable, ResolveSchema"])

prop("P36", "SQL definitions reach the catalog unchanged",
"""Executing the text of a CREATE TABLE statement makes a table with exactly the columns, types and
primary key, in order and direction, that the text spells out; IF NOT EXISTS and IF EXISTS turn only
the already-there and not-there cases into successes without effect; keys and indexes over unknown
columns or tables are refused.""",
["inputs", "programs", "histories"], "all CREATE TABLE, CREATE INDEX, CREATE/DROP SCHEMA and DATABASE texts with any constraints, over any catalog state",
"Tests use fixed statements against stand-ins; the whole path from text to stored definition is not exercised.",
["evaluate/evaluate.go", "engine/engine.go", PARSER],
[("translation", "evaluate/evaluate.go: EvaluateCreateTable, indexKeyToColumnKey, EvaluateCreateIndex")],
["Session.Evaluate of parsed text, then engine OpenTable"])

prop("P37", "Concurrent sessions behave as if run one after another",
"""Sessions run from many goroutines leave the catalog as some serial order of their transactions
would: each committed transaction takes effect once and whole, none sees another's unfinished work,
table numbers stay unique, every session finishes, and there is no data race.""",
["schedules", "histories"], "all schedules of concurrent sessions parsing and executing scripts",
"No test runs sessions concurrently.",
["evaluate/session.go", "engine/engine.go", "storage/basic/basic.go", "types/identifier.go"],
[("store lock", "storage/basic/basic.go: Begin"), ("name table lock", "types/identifier.go: mutex")],
["Session.Evaluate under the race detector"])

prop("P38", "Row comparison and row text used by the tests are faithful",
"""Rows compare column by column, a shorter row before a longer one it starts, and two collections of
rows are equal exactly if they hold the same rows in the same order or, when order is ignored, the
same number of times; printing rows and parsing the text gives equal rows back.""",
["inputs"], "all rows and permutations; the text part over non-negative numbers that print without an exponent and strings without quotes or leading backslash",
"The helpers' own tests use fixed rows, yet every other test's verdict rests on them.",
["testutil/rows.go", "testutil/parse.go"],
[("comparison", "testutil/rows.go: CompareRows, RowsEqual"), ("text", "testutil/parse.go: parseValue, parseRows; testutil/rows.go: FormatRows")],
["testutil functions"])

prop("P39", "Storage failures are reported, hold nothing and leave no trace",
"""When an operation of the store under the engine fails, the catalog or typed-table operation that
met the failure reports that failure, not success or another error, closes its scans, and visits no
more rows; an operation that runs its own transaction has ended it without effect, and after a
rollback or failed commit every later transaction can start and finds the data unchanged. An
initialisation that failed can be repeated.""",
["fault_sequences", "histories"], "every operation of the store failing, before or after its effect, at any point of any catalog or typed-table operation after any history",
"No test makes the store fail; nearly all error branches of the engine are never executed by the tests.",
["engine/engine.go", "engine/typedtable.go", "engine/init.go"],
[("transaction wrapper", "engine/engine.go: withTransaction, ListDatabases, Commit, Rollback"), ("scan loop", "engine/typedtable.go: typedTableSelect"), ("initialisation", "engine/init.go: Init")],
["engine.Init, Engine, Transaction and TypedTable functions over a failing storage.Store"])

prop("P40", "Statements tell the engine exactly what they say, once and in order",
"""A statement evaluated in a session causes exactly the changes it denotes to be asked of the
engine, once, in the written order, with every name, option, column type, key column and direction as
written and with the session's database and schema for the names left out: databases with their
options, schemas, tables with their primary key, indexes with their columns looked up in the table,
drops of several tables up to the first that fails. CREATE with IF NOT EXISTS asks for nothing if the
table or index is there, and an index or key over an unknown column, or over an unknown table, is
refused without a change. Outside of an explicit transaction the statement runs in one of its own,
committed if it succeeds and rolled back if not; a failure of the engine is the result of the
statement.""",
["histories", "fault_sequences"], "every history of definitions, drops and transactions in a session, over every engine and any failing call of it",
"The tests of package evaluate do not compile, and no test sees what a statement asks of the engine; DROP TABLE, DROP INDEX and CREATE INDEX have no visible effect with the present engine.",
["evaluate/evaluate.go", "evaluate/session.go"],
[("evaluation", "evaluate/evaluate.go: Evaluate, EvaluateCreateIndex, EvaluateCreateTable, EvaluateDropTable, EvaluateDropIndex"), ("transactions", "evaluate/session.go: Session.Evaluate")],
["Session.Evaluate over any engine.Engine"])

prop("P41", "A failure to read the input is reported, never taken for its end",
"""When reading the input fails, at any rune, once or from there on, the statements that end before
that point are parsed as always; then the failure is reported as an error before any other statement
and before the end of the input, also if it happened while looking ahead or inside of a comment,
literal or name. If reading goes on, the statements after the next semicolon are parsed as always;
if not, every later call reports the failure. The data of COPY ends with the failure after exactly
what was read, and a failure on the line of the statement is not lost. The console answers what it
has read, reports the failure and ends.""",
["inputs", "fault_sequences"], "every input, every point of failure, one failure or lasting failure, any reader",
"No test has a reader that fails.",
["parser/scanner/scanner.go", "parser/parser.go", "main.go"],
[("reading", "parser/scanner/scanner.go: readRune, unreadRune, RuneReader"), ("errors", "parser/parser.go: Parse, scanRune"), ("console", "main.go: main")],
["parser.NewParser", "Parser.Parse", "sql.Copy.From", "the maho program"])

prop("P42", "Column types and column lists mean the same wherever they are written",
"""The printed form of a column type, used as the type of a column in CREATE TABLE or in a column
list given to testutil, is that type again. A list of columns with types, lengths, NOT NULL and
PRIMARY KEY gives the same columns, types and key columns to testutil as it says and as CREATE TABLE
makes of it, in any case and spacing; a list of names likewise; lists that are cut short are refused.""",
["inputs"], "every column type and size, every list of columns and names",
"The tests parse a handful of lists, and do not compare the parsers with each other.",
["types/column.go", "testutil/parse.go", "parser/parser.go"],
[("printing", "types/column.go: ColumnType.String"), ("test data", "testutil/parse.go: ParseColumns, ParseIdentifiers"), ("types", "parser/parser.go: ColumnTypes, parseColumnType")],
["types.ColumnType.String", "testutil.ParseColumns", "testutil.ParseIdentifiers", "parser.ColumnTypes"])

prop("P43", "Text of values, rows, names and columns is understood fully or refused",
"""The functions of testutil that read values, rows, names and columns accept exactly the texts that
stand for them, give what they denote, and leave the reader right behind them; every other text
(broken off, with wrong digits, quotes or words, lengths that are too large, commas missing or too
many) is an error and not a crash or some other value, and so is a reader that fails, whose error is
returned. The Must functions panic with a message exactly where the others return an error, which
ErrorPanicked tells from errors and from crashes.""",
["inputs", "fault_sequences"], "every text and every point at which reading it fails",
"The tests have a handful of texts each; data of tests that is silently misread weakens every test that uses it.",
["testutil/parse.go", "testutil/panicked.go"],
[("values and rows", "testutil/parse.go: parseValue, parseRow, parseRows, hexDigit"), ("columns and names", "testutil/parse.go: parseColumns, parseOptionalSize, parseIdentifiers"), ("panics", "testutil/panicked.go: ErrorPanicked")],
["testutil functions"])

prop("P44", "Separate parsers, stores, engines and sessions never affect each other",
"""Whatever is done with one parser, store, engine, session or typed table, and with values, keys
and texts, gives the same results while others of their kind are used at the same time from other
goroutines (sharing nothing but names and descriptions of typed tables) as when it is done alone,
before or after; and without data races.""",
["schedules", "histories"], "every set of independent tasks and every interleaving of them",
"The tests use one parser, store and engine at a time, one after the other, without the race detector.",
["parser/parser.go", "parser/scanner/scanner.go", "storage/basic/basic.go", "engine/typedtable.go", "engine/engine.go", "evaluate/session.go", "encode/key.go", "types/value.go"],
[("state of instances", "parser.Parser, scanner.Scanner, basic.store, engine.engine, evaluate.Session, engine.TypedInfo"), ("global tables", "types/identifier.go, parser/parser.go: ColumnTypes, opPrecedence; engine/engine.go: typed infos of the system tables")],
["all exported functions, from several goroutines on separate instances"])

prop("P45", "What is stored means the same to another process",
"""Names and table definitions that one process encodes are decoded by any other process of the same
program to the same names, columns, types and keys, whichever names the two have seen before and in
whatever order; and both make the same bytes of the same keys and rows.""",
["inputs", "histories"], "all names, definitions, rows and keys, and every history of names in the two processes",
"Identities are numbers handed out as names appear, so anything that depends on them looks right within one process, which is all that tests run in.",
["types/identifier.go", "engine/engine.go", "encode/key.go"],
[("stored form of a name", "types/identifier.go: Identifier.GobEncode, GobDecode"), ("stored form of a table", "engine/engine.go: TableType.Encode, DecodeTableType"), ("keys", "encode/key.go: MakeKey")],
["Identifier.GobEncode", "Identifier.GobDecode", "TableType.Encode", "engine.DecodeTableType", "encode.MakeKey"])

prop("P46", "Any sequence of tokens is read as the grammar says, or refused",
"""A sequence of tokens is accepted as a statement exactly if the grammar of the statements derives it
and it does not contradict itself, and then means what the grammar says; every other sequence (a word,
symbol or literal missing, doubled, replaced, moved, or belonging to another statement) is refused with
an error, and never read as some other statement or in part.""",
["inputs"], "every sequence of tokens, well-formed or not",
"The tests have a few well-formed statements of each kind and fewer malformed ones; what lies between them, nearly right or right in an unusual way, is untested.",
[PARSER],
[("statements", "parser/parser.go: parseStmt and what it calls"), ("looking ahead and back", "parser/parser.go: scan, unscan, maybeToken, optionalReserved"), ("end of a statement", "parser/parser.go: expectEndOfStatement")],
["Parser.Parse"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
