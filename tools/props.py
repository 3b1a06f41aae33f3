"""What check.py runs for each property.

pkg, test   the harness package and test
race        build with the race detector
quick       scale of one run of the quick tier; each of `width` runs has its own seed
thorough    scale of one run of the thorough tier; runs are started until `budget` seconds passed
rule        when a case counts as non-trivial
"""

RAPID = "property-based testing (pgregory.net/rapid, shrinking to a fail file)"

PROPS = {
    "P01": dict(
        pkg="lang", test="TestP01", quick=8, thorough=10,
        oracle="grammar-directed generator that builds the text and, by an independent precedence "
               "climber, the tree it denotes; the parsed tree must equal it",
        rule="the expression has a binary operator at its root and at least five tokens, or is a "
             "chain of at least three operands, or stands in one of eight places of a statement",
        assumptions=["expressions of up to about 600 operands and nesting of about 6; a postfix test "
                     "stands directly after a single or parenthesised operand"]),
    "P02": dict(
        pkg="lang", test="TestP02", quick=10, thorough=10,
        oracle="grammar-directed generator of the text together with the statement it denotes",
        rule="the statement has more than six tokens",
        assumptions=["names that the parser makes up for unnamed constraints are as documented by "
                     "the tests; where they would collide the generator names the constraint"]),
    "P03": dict(
        pkg="lang", test="TestP03", quick=6, thorough=10,
        oracle="grammar-directed generator of the text together with the statement it denotes",
        rule="the statement has more than six tokens",
        assumptions=["a condition after CROSS JOIN is taken by the cross join and refused"]),
    "P04": dict(
        pkg="lang", test="TestP04", quick=16, thorough=10,
        oracle="generator that spells a chosen value; the decoded value must be that value after "
               "everything else was scanned, and spellings of no value must be errors",
        rule="every case holds a literal or name",
        assumptions=["unquoted names use letters whose case folding is simple"]),
    "P05": dict(
        pkg="lang", test="TestP05", quick=6, thorough=10,
        oracle="metamorphic: two layouts of one token sequence give the same tokens and statement",
        rule="every case has two layouts of a statement or a token sequence",
        assumptions=["adjacent string constants on two lines are one constant, so that pair is kept "
                     "apart"]),
    "P06": dict(
        pkg="lang", test="TestP06", quick=5, thorough=10,
        oracle="protocol invariant over Parse, ParseExpr and Scan on arbitrary input, with a "
               "watchdog on time and memory of each case",
        rule="the input has more than three bytes",
        assumptions=["input of up to about 40 kB; texts of 12 to 32 MB only as one statement which "
                     "repeats the same nesting or operands"]),
    "P07": dict(
        pkg="lang", test="TestP07", quick=4, thorough=10,
        oracle="each well-formed statement of the stream must equal what its generator says it "
               "denotes, errors must lie inside malformed statements, at least one in each",
        rule="the stream has at least two items, one of them a well-formed statement",
        assumptions=["malformed statements have no lexical error inside a quoted constant, which "
                     "hides where the statement ends"]),
    "P08": dict(
        pkg="lang", test="TestP08", quick=6, thorough=10,
        oracle="the writer of the text records where each token starts",
        rule="every case has at least one token",
        assumptions=["the column of the end of input is not specified"]),
    "P09": dict(
        pkg="lang", test="TestP09", quick=5, thorough=10,
        oracle="printing must not fail and be deterministic; round trip: the printed text parses to "
               "the same statement up to parentheses",
        rule="the statement has more than five tokens, the expression more than three",
        assumptions=["the parse-back part is over plain lower-case names and literals other than "
                     "byte strings and floats that print with an exponent or without a point"]),
    "P10": dict(
        pkg="lang", test="TestP10", quick=6, thorough=10,
        oracle="generator that injects one contradiction into a well-formed statement; the parser "
               "must refuse it",
        rule="every case holds one contradiction"),
    "P11": dict(
        pkg="lang", test="TestP11", quick=8, thorough=10,
        oracle="the generator knows the data, its first line and the statements around it",
        rule="the input has a COPY statement",
        assumptions=["the semicolon is on the last line of the COPY statement, the data starts on "
                     "the next line"]),
    "P12": dict(
        pkg="lang", test="TestP12", quick=5, thorough=4, program=True,
        oracle="the output of the program must be, prompt by prompt, the printed form or the error "
               "of each statement of the stream",
        rule="the input has at least three items, one of them a well-formed statement",
        assumptions=["COPY and empty statements are not in the input"]),
    "P13": dict(
        pkg="vals", test="TestP13", quick=12, thorough=40,
        oracle="model of the order with exact rational arithmetic; sorting must agree on all pairs",
        rule="two values of the same rank that are not NULL, or a set of at least three values"),
    "P14": dict(
        pkg="vals", test="TestP14", quick=10, thorough=20,
        oracle="model of the order of rows by key columns; byte order of the keys must agree for "
               "all pairs, and unequal keys may not start one another",
        rule="every case has at least two rows, often equal or close to each other",
        assumptions=["NULL is first in either direction, not-a-number lowest of the numbers",
                     "all values in a column are of one type"]),
    "P15": dict(
        pkg="vals", test="TestP15", quick=12, thorough=40,
        oracle="independent statement of which results are right, which values must be accepted, "
               "and that converting again changes nothing",
        rule="the value is not NULL, or a whole row",
        assumptions=["a string whose characters fit but whose bytes do not may be accepted or "
                     "refused; an integer becomes the nearest float"]),
    "P16": dict(
        pkg="vals", test="TestP16", quick=15, thorough=40,
        oracle="differential against encoding/binary, and round trips of sequences",
        rule="the integer needs more than one byte, or the input has more than one byte",
        assumptions=["ten bytes that hold more than 64 bits may be refused or accepted"]),
    "P17": dict(
        pkg="vals", test="TestP17", quick=8, thorough=20,
        oracle="model of what a spelling denotes; identities are equal exactly if that is",
        rule="every case has at least two spellings, usually of related names",
        assumptions=["letters whose upper and lower case are in one-to-one correspondence; valid "
                     "UTF-8"]),
    "P18": dict(
        pkg="vals", test="TestP18", quick=8, thorough=20,
        oracle="round trip through gob, alone and inside a larger value; arbitrary bytes may only "
               "fail",
        rule="every case encodes names or decodes bytes"),
    "P19": dict(
        pkg="vals", test="TestP19", quick=4, thorough=4, race=True,
        oracle="workers' identities must equal those found sequentially, their printed names the "
               "model's; the race detector watches",
        rule="every case has at least two workers with at least one operation each",
        assumptions=["the schedules that the Go scheduler happens to take"]),
    "P20": dict(
        pkg="store", test="TestP20", quick=4, thorough=10,
        oracle="stateful model: a sorted list of rows per table, compared with a full scan after "
               "every operation",
        rule="the history inserted at least two rows and updated or deleted at least one",
        assumptions=["full-width rows; values that the column holds as they are, or surely not"]),
    "P21": dict(
        pkg="store", test="TestP21", quick=10, thorough=10,
        oracle="the model's rows filtered by bounds and predicate and projected",
        rule="a scan returned some but not all rows of its table",
        assumptions=["a bound gives a value of the column's type or NULL for every key column"]),
    "P22": dict(
        pkg="store", test="TestP22", quick=6, thorough=10,
        oracle="stateful model with a committed state and a copy per transaction",
        rule="the history inserted at least two rows, committed at least twice and rolled back at "
             "least once"),
    "P23": dict(
        pkg="store", test="TestP23", quick=5, thorough=10,
        oracle="stateful model; nearly half of the changes hold a duplicate key or a value that "
               "cannot be converted and must fail and change nothing",
        rule="the history inserted at least two rows and had at least one failing change"),
    "P24": dict(
        pkg="store", test="TestP24", quick=24, thorough=20,
        oracle="every row read conforms to the column types and denotes the value supplied; "
               "refused changes had a reason and changed nothing",
        rule="a change was stored, and one was converted or refused"),
    "P25": dict(
        pkg="store", test="TestP25", quick=5, thorough=10,
        oracle="stateful model; an open scan must return the model's rows of when it was opened",
        rule="the history opened a scan, inserted at least two rows and changed at least one"),
    "P26": dict(
        pkg="store", test="TestP26", quick=4, thorough=4, race=True,
        oracle="the version numbers that committed transactions changed give the only possible "
               "serial order; every transaction must have seen exactly the state at its place; the "
               "race detector and a deadlock watch run along",
        rule="workers alternated in the serial order",
        assumptions=["the schedules that the Go scheduler happens to take, widened by pauses"]),
    "P27": dict(
        pkg="store", test="TestP27", quick=5, thorough=10,
        oracle="stateful model of tables by number; definitions reported must be those created, any "
               "other definition and any missing table must be refused",
        rule="the history created at least two tables and inserted a row, or columns were set up",
        assumptions=["refused by an error or by a panic with a message"]),
    "P28": dict(
        pkg="store", test="TestP28", quick=8, thorough=6,
        oracle="completed transactions are completed again at any later moment and must give an "
               "error and change nothing; completing with open scans must be refused",
        rule="a transaction was completed again, or others ran beside an open one",
        assumptions=["refused by an error or by a panic with a message"]),
    "P29": dict(
        pkg="eng", test="TestP29", quick=12, thorough=20,
        oracle="struct types made with reflect.StructOf; every field must come back equal, and "
               "scribbling over what was given and returned may not show in what is stored",
        rule="a struct with at least two fields was stored",
        assumptions=["values that fit the declared sizes"]),
    "P30": dict(
        pkg="eng", test="TestP30", quick=16, thorough=20,
        oracle="independent derivation of the definition from the field names, kinds and tags that "
               "the generator chose; wrong fields and tags must be refused",
        rule="the type has at least one field, or one field or tag is wrong",
        assumptions=["refused by an error or by a panic with a message"]),
    "P31": dict(
        pkg="eng", test="TestP31", quick=5, thorough=10,
        oracle="stateful model: a sorted list of structs; what is visited, changed and removed is "
               "compared after every operation",
        rule="the history inserted rows and changed or visited some"),
    "P32": dict(
        pkg="eng", test="TestP32", quick=5, thorough=10,
        oracle="stateful model: nested maps of names, one copy per transaction",
        rule="the history created at least two schemas or tables and had a refusal",
        assumptions=["tables are not dropped one by one, which the engine does not do yet"]),
    "P33": dict(
        pkg="eng", test="TestP33", quick=4, thorough=10,
        oracle="stateful model that remembers every definition and every number given out, and round "
               "trip of definitions through their stored form",
        rule="the history created at least two tables, or met a very large definition",
        assumptions=["a definition of more than about 4000 bytes may be refused"]),
    "P34": dict(
        pkg="sess", test="TestP34", quick=3, thorough=6,
        oracle="stateful model of sessions over a nested catalog; failures of the engine are injected "
               "into commits, rollbacks and changes",
        rule="the history began and ended an explicit transaction and had a refused statement",
        assumptions=["statements that the evaluator supports", "a commit that fails has changed "
                     "nothing and ends the transaction"]),
    "P35": dict(
        pkg="sess", test="TestP35", quick=2, thorough=6,
        oracle="model of the current database and schema of each session; the effect of every "
               "statement and the resolution of names must agree",
        rule="the history set the current database or schema at least twice and created something, "
             "or the statement has an unqualified name",
        assumptions=["SET and USE give names whose case folding is the name itself"]),
    "P36": dict(
        pkg="sess", test="TestP36", quick=3, thorough=8,
        oracle="generator that builds the text of a definition and what it denotes; the table that "
               "the engine opens must be that",
        rule="the case created a table, or a history of definitions with a refusal"),
    "P37": dict(
        pkg="sess", test="TestP37", quick=2, thorough=3, race=True,
        oracle="an engine that numbers committed transactions inside the store gives the only possible "
               "serial order, against which every statement is replayed; databases that come and go "
               "are checked for linearizability (porcupine); the race detector and a deadlock watch "
               "run along",
        rule="workers alternated in the serial order and a table was created",
        assumptions=["the schedules that the Go scheduler happens to take, widened by pauses"]),
    "P38": dict(
        pkg="vals", test="TestP38", quick=8, thorough=20,
        oracle="model of comparison, matching by counting, and round trip through text",
        rule="both rows have columns, or a collection has at least two rows, or text of rows",
        assumptions=["the text part is over non-negative numbers without exponent and strings "
                     "without quotes or leading backslash"]),
    "P39": dict(
        pkg="eng", test="TestP39", quick=5, thorough=10,
        oracle="fault injection: a store of which one chosen operation fails, before or after taking "
               "effect, under the catalog model; an operation that reports success has its whole "
               "effect, one that met a failure reports it, and nothing stays open or changed",
        rule="a failure was met by an operation of a catalog with schemas or tables, or by a typed "
             "operation",
        assumptions=["a transaction that met a failure is rolled back; a failure to close a scan or "
                     "to roll back may be passed over"]),
    "P40": dict(
        pkg="sess", test="TestP40", quick=1, thorough=5,
        oracle="a recording engine with failures injected into any call; the recorded calls must be "
               "those that a model derives from what the generator of the text meant",
        rule="the history created an index or dropped a table or index that was there",
        assumptions=["DROP ... IF EXISTS of something that is not there is not done yet, and not "
                     "generated", "how a transaction that changed nothing ends does not matter"]),
    "P41": dict(
        pkg="lang", test="TestP41", quick=3, thorough=10, program=True,
        oracle="fault injection: a reader that fails at a chosen rune; the generator knows which "
               "statements come before and after; the console is compared with the parser",
        rule="reading failed, or the console had several statements",
        assumptions=["after a single failure inside of a quoted literal, name or comment what follows "
                     "is not compared"]),
    "P42": dict(
        pkg="lang", test="TestP42", quick=10, thorough=20,
        oracle="generator that knows the columns, and differential between CREATE TABLE and the "
               "column lists of testutil; round trip through the printed type",
        rule="the list has several columns or names, or a type was printed",
        assumptions=["REAL, which is printed as DOUBLE, and DOUBLE PRECISION in test data are left "
                     "out"]),
    "P43": dict(
        pkg="vals", test="TestP43", quick=10, thorough=40,
        oracle="differential: an independent recogniser of the texts, which also says when a text "
               "that breaks off because of a failing reader cannot be judged",
        rule="every case holds a text",
        assumptions=["integers that do not fit 64 bits may be floats or refused"]),
    "P44": dict(
        pkg="sess", test="TestP44", quick=4, thorough=6, race=True,
        oracle="differential: the transcript of each task at the same time as others against its "
               "transcript alone, before or after; race detector",
        rule="every case has at least two workers with tasks of their own",
        assumptions=["interleavings are those the Go scheduler takes",
                     "tasks share nothing but names and the description of a typed table"]),
    "P45": dict(
        pkg="vals", test="TestP45", quick=12, thorough=30,
        oracle="differential between two processes: what one encodes the other must decode to what "
               "it denotes there, and both must make the same keys and texts",
        rule="the other process has seen other names before, and gets several names and a definition",
        assumptions=["both processes run the same program"]),
    "P46": dict(
        pkg="lang", test="TestP46", quick=5, thorough=15,
        oracle="differential: an independent reference parser (recursive descent, precedence climbing, "
               "no looking back) over generated and mutated sequences of tokens",
        rule="the sequence has more than three tokens",
        assumptions=["one statement, with a blank between tokens; COPY is left to P11",
                     "IS NULL, IN and comparisons with ANY, SOME or ALL apply to the operand directly "
                     "before them, as P01 says",
                     "SHOW of a reserved word other than DATABASE and SCHEMA is not specified",
                     "the values of single literals are taken from the scanner, which P04 is about"]),
}

for _p in PROPS.values():
    _p.setdefault("assumptions", [])
