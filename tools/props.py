#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a script so that wording stays reviewable."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(obs), "hook_needed": hook}})

prop("C01", "Encoded keys sort exactly like the key columns they encode",
 "For two rows over the same key columns, comparing their encoded keys byte by byte gives the order of the rows under the declared key: column by column, ascending or descending as declared, with NULL before every value in both directions. Two encoded keys are equal exactly when all key columns are equal, and no encoded key of a row is a proper prefix of another's.",
 ["inputs", "configurations"], "all pairs of rows of boolean, integer, float, string, bytes and NULL key columns, all asc/desc combinations, all column permutations",
 "The tests compare a hand-written list of about a hundred keys; an ordering slip at one byte value, sign, zero, NaN or length combination lies between the samples.",
 ["encode/key.go", "types/column.go"], [("tag + order preserving payload per value", "encode/key.go MakeKey"), ("escape/terminator and complement for reversed columns", "encode/key.go encodeKeyBytes"), ("column number and direction packing", "types/column.go MakeColumnKey")],
 obs=["encode.MakeKey"])
prop("C02", "Integer codecs are lossless, order preserving or rejecting",
 "Every 64-bit unsigned and signed integer decodes back to itself from its variable-length encoding, with exactly the bytes that followed it left over, and distinct integers have distinct encodings. Fixed-width encodings append the big-endian bytes and so sort like the integers. Decoding a truncated or over-long input reports failure and never reads outside the input.",
 ["inputs"], "all 64-bit and 32-bit integers, all byte strings up to 12 bytes", "Tests use a few dozen integers; the guarantee is over 2^64 values and every malformed byte string.",
 ["encode/encode.go"], [("varint loop", "encode/encode.go EncodeVarint/DecodeVarint"), ("zigzag mapping", "encode/encode.go EncodeZigzag64/DecodeZigzag64"), ("big-endian append", "encode/encode.go EncodeUint64/EncodeUint32")],
 obs=["encode.EncodeVarint", "encode.DecodeVarint", "encode.EncodeZigzag64", "encode.DecodeZigzag64", "encode.EncodeUint64", "encode.EncodeUint32"])
prop("C03", "Comparing values is a total order that agrees with stored key order",
 "Comparing SQL values is antisymmetric, transitive and total over NULL, booleans, numbers, strings and bytes, in that order; integers and floats compare by exact numeric value, NaN is below every other number and equal to itself. Within one column type the comparison gives the same answer as the order in which the values are stored as keys.",
 ["inputs"], "all pairs and triples of values of every kind", "A comparison table of samples cannot show transitivity across 2^64 integers and floats, where rounding makes distinct values look equal.",
 ["types/value.go", "encode/key.go"], [("rank by kind then per-kind comparison", "types/value.go Compare, order, compare")], obs=["types.Compare", "encode.MakeKey"])
prop("C04", "Values stored in a column always satisfy the column's type",
 "Converting a value for a column either fails or yields a value of the column's type within its declared size and nullability: integers fit 2, 4 or 8 bytes, strings and bytes do not exceed the declared length, NULL only where allowed. A value already of the right type that fits is returned unchanged, a conversion from another type preserves the denoted value (float to integer by truncation, and only in range), and rows that are too long are rejected.",
 ["inputs", "configurations"], "all values, all column types and sizes, rows up to three columns", "Tests convert listed values; limits and sign boundaries of every type pair need all inputs.",
 ["types/value.go"], [("type conversion", "types/value.go CastValue"), ("size and null checks", "types/value.go ConvertValue, ConvertRow")], obs=["types.ConvertValue", "types.ConvertRow", "types.CastValue"])
prop("C05", "A table scan returns exactly the matching rows in key order",
 "Scanning a table yields every row whose key lies between the optional inclusive lower and upper bound rows and whose predicate column satisfies the optional predicate, each once and in key order, projected onto the requested columns in the requested order. A NULL in the predicate column never matches. Rows of other tables are never returned, and after the last row every further read reports end of data.",
 ["inputs", "histories", "configurations"], "all table contents (bounded), all bounds, predicates and projections", "Scan tests use fixed tables; off-by-one bounds, neighbouring tables or NULLs show only for particular contents.",
 ["storage/basic/basic.go", "storage/basic/btree.go", "encode/key.go"], [("range scan over the shared ordered tree", "storage/basic/basic.go Rows"), ("(table, key) item order", "storage/basic/btree.go"), ("projection", "storage/basic/basic.go Next")], obs=["storage.Table.Rows", "storage.Rows.Next"])
prop("C06", "Inserts keep keys unique and store exactly the converted row",
 "An insert succeeds only if every row converts to the column types and no row with an equal primary key exists; afterwards a scan returns the previous rows plus exactly the inserted ones with converted values. A row omitting trailing columns stores NULL there, and is rejected if such a column does not allow NULL. A rejected row leaves every row that was stored before unchanged.",
 ["inputs", "histories"], "all existing contents and inserted rows (bounded), all key column sets", "Tests insert chosen rows; duplicate detection must hold for every pair of keys including NULL, negative zero and escaped bytes.",
 ["storage/basic/basic.go", "types/value.go", "encode/key.go"], [("convert, probe, insert", "storage/basic/basic.go Insert")], obs=["storage.Table.Insert", "storage.Table.Rows"])
prop("C07", "Updating a row changes exactly that row, or nothing at all",
 "Updating the current row of a scan sets exactly the given columns to the given values converted to their column types, leaves all other columns and all other rows unchanged, and moves the row to its new place when key columns change. If a value does not fit its column or the new key belongs to another row the update reports an error and the table is unchanged.",
 ["inputs", "histories"], "all table contents (bounded), all updated column subsets and values", "Tests update a handful of rows and check the error but not what is left behind after a failed update.",
 ["storage/basic/basic.go", "types/column.go"], [("replace or delete+insert", "storage/basic/basic.go Update"), ("key column test", "types/column.go ColumnKeyUpdated")], obs=["storage.RowRef.Update", "storage.Table.Rows"])
prop("C08", "Deleting rows removes exactly those rows and disturbs no open scan",
 "Deleting the current row of a scan removes exactly that row: every other row is still returned by later scans, and the key can be inserted again. A scan already open keeps returning the rows it had when it was opened, whatever is inserted, updated or deleted meanwhile.",
 ["inputs", "histories"], "all contents and delete subsets (bounded), interleaved with an open scan", "Tests delete fixed subsets; wrong-row deletion depends on key bytes and on tree shape.",
 ["storage/basic/basic.go", "storage/basic/btree.go"], [("delete by encoded key", "storage/basic/basic.go Delete"), ("scan snapshot", "storage/basic/basic.go Rows")], obs=["storage.RowRef.Delete", "storage.Rows.Next"])
prop("C09", "A transaction's changes become visible all together at commit or never",
 "Within a transaction its own changes are visible at once. After commit every later transaction sees exactly the committed state; after rollback every later transaction sees exactly the state before the transaction began, including created and dropped tables. Committing or rolling back a completed transaction reports an error and changes nothing.",
 ["histories", "inputs"], "all histories of up to a few transactions of create, drop, insert, update, delete ended by commit or rollback", "Tests run fixed scripts; leaking a change depends on which operation first writes after begin.",
 ["storage/basic/basic.go"], [("copy-on-write tree, published at commit", "storage/basic/basic.go forWrite, Commit, Rollback"), ("store lock held by the open transaction", "storage/basic/basic.go Begin")], state=[("tree", "committed contents", "storage/basic/basic.go store")], obs=["storage.Store.Begin", "storage.Transaction"])
prop("C10", "Concurrent transactions behave as if run one after another",
 "Transactions started from different threads over one store or engine have the same effect and see the same data as some order in which they run one after another; no committed change is lost and no uncommitted change is seen. When every transaction is ended no thread waits forever, and no data race occurs.",
 ["schedules"], "all interleavings (bounded preemptions) of two or three threads running read-modify-write transactions and catalog operations", "The tests are single threaded; a lost update needs a particular interleaving.",
 ["storage/basic/basic.go", "engine/engine.go"], [("store mutex from begin to end", "storage/basic/basic.go Begin, Commit, Rollback")], obs=["storage.Store.Begin", "engine.Engine"])
prop("C11", "The store's table catalog is exact and tables are isolated",
 "A table opens exactly with the identity, name, columns, types and key it was created with; opening with any difference is refused. Creating a table yields an empty table, also when its identity was used by a dropped table before; dropping a table removes it and all its rows and leaves every other table untouched. Reserved identities, duplicate creation and misuse of the hidden row-id column are refused.",
 ["inputs", "histories", "configurations"], "all table identities, names, column lists, types and keys (bounded), all create/drop/recreate histories", "Tests create a few tables with fixed shapes; catalogue rows are encoded, so equality must hold for every definition.",
 ["storage/basic/basic.go", "storage/basic/btree.go"], [("encoded table type rows in relation 0", "storage/basic/basic.go getTableType, setTableType"), ("shape comparison", "storage/basic/basic.go OpenTable"), ("relation id = table and index", "storage/basic/btree.go toRelationId")], obs=["storage.Transaction.CreateTable", "storage.Transaction.OpenTable", "storage.Transaction.DropTable"])
prop("C12", "Typed records survive the round trip through a table",
 "A record written to a typed table is read back with every field equal: booleans, integers of every width, floats, strings, byte slices and nil or non-nil pointers to them. Look-up by key returns that record or reports that none exists, range selection visits exactly the records in range in key order, and typed updates and deletes affect exactly the records the callback selects and only the fields it names. A value too long for its field is refused with an error.",
 ["inputs", "histories"], "all field values of all supported field types, all key ranges, all callback decisions (bounded)", "Tests use a few structs and literal values; nil pointers, extreme integers and every range need all inputs.",
 ["engine/typedtable.go", "engine/typedinfo.go"], [("struct to row", "engine/typedtable.go structToRow, fieldToValue"), ("row to struct", "engine/typedtable.go RowToStruct"), ("field mapping", "engine/typedinfo.go MakeTypedInfo")], obs=["engine.TypedTableInsert", "engine.TypedTableLookup", "engine.TypedTableSelect", "engine.TypedTableUpdate", "engine.TypedTableDelete"])
prop("C13", "Databases and schemas behave as sets of names",
 "After any sequence of create and drop the listed databases are exactly those created and not dropped plus the built-in ones, and likewise the schemas of each database, each listed once under the name it was created with. Creating one that exists or dropping one that does not fails (unless the drop says it may be missing) and changes nothing; a schema can only be created or listed in an existing database. Dropping a database or a schema removes everything in it: one created again under the same name is empty.",
 ["histories", "inputs"], "all sequences of create/drop database and schema (bounded length) over symbolic choices of names, in committed and rolled back transactions", "Tests run one script; set semantics must hold for every order of operations and every pair of names, including names that look like keywords.",
 ["engine/engine.go", "engine/init.go"], [("databases and schemas catalog tables", "engine/engine.go CreateDatabase, DropDatabase, ListDatabases, CreateSchema, DropSchema, ListSchemas")], obs=["engine.Engine", "engine.Transaction"])
prop("C14", "A created table is found again with its exact definition and its own id",
 "Opening a table by name returns exactly the column names, types, sizes, nullability and primary key it was created with, in any later transaction, and fails if no committed or own creation of that name exists. Every created table has an id above the reserved range that no other table has. Creating a table in a missing schema or with an existing name fails.",
 ["inputs", "histories"], "all table definitions (bounded columns, all types and sizes), all sequences of creations over names, commits and rollbacks", "Tests create one or two tables; identifier reuse and definition encoding must hold for all definitions and histories.",
 ["engine/engine.go", "engine/init.go", "types/identifier.go"], [("tables catalog with encoded definition", "engine/engine.go CreateTable, OpenTable, Encode, DecodeTableType"), ("table id sequence", "engine/engine.go nextTableId")], obs=["engine.Transaction.CreateTable", "engine.Transaction.OpenTable"])
prop("C15", "A session obeys its transaction state and autocommits otherwise",
 "BEGIN opens a transaction unless one is active; COMMIT and ROLLBACK end an active one and fail without one; database creation and removal are refused inside one. Statements inside a transaction take effect only on COMMIT and are undone by ROLLBACK; outside, each statement commits by itself when it succeeds and leaves no effect when it fails. After a failed statement outside a transaction the session and other sessions remain usable.",
 ["histories", "programs"], "all statement sequences up to a bounded length over the supported statements", "Tests run a few scripted sequences; the state machine must hold for every sequence.",
 ["evaluate/session.go", "evaluate/evaluate.go"], [("active transaction field and autocommit", "evaluate/session.go Evaluate")], obs=["evaluate.Session.Evaluate"])
prop("C16", "Unqualified names resolve against the session's current defaults",
 "A table name without a schema refers to the session's current database and schema, one without a database to the current database, and a fully qualified name to itself; a schema name without a database refers to the current database. Setting the database or the schema changes exactly that default for later statements; setting anything else fails. A statement that creates, drops, alters, indexes, copies into, inserts into, updates or deletes from tables or schemas resolves every one of them.",
 ["inputs", "programs"], "all qualification patterns, all defaults, all sequences of set statements, all statement kinds that name tables", "Tests check a few statements; each statement kind resolves its names separately.",
 ["evaluate/session.go", "parser/sql/datadef.go", "parser/sql/query.go", "parser/sql/stmt.go"], [("name defaulting", "evaluate/session.go ResolveTable, ResolveSchema"), ("per-statement resolution", "parser/sql Resolve methods")], obs=["evaluate.Session.ResolveTable", "evaluate.Session.ResolveSchema", "sql.Stmt.Resolve"])
prop("C17", "CREATE TABLE and CREATE INDEX create what the statement declares",
 "Evaluating CREATE TABLE creates the named table with the declared columns in order, their types and nullability, and as primary key exactly the declared key columns with their directions. A key naming an unknown column is rejected and nothing is created; an existing table is rejected, or left untouched when the statement says it may exist. CREATE INDEX is rejected when its table or a key column does not exist.",
 ["programs", "inputs"], "all small column lists, key column subsets, orders and directions, existing and missing tables", "Tests evaluate fixed statements; mapping names to positions must hold for every list and key.",
 ["evaluate/evaluate.go", "parser/parser.go"], [("key name to column position", "evaluate/evaluate.go indexKeyToColumnKey"), ("create", "evaluate/evaluate.go EvaluateCreateTable, EvaluateCreateIndex")], obs=["evaluate.Session.Evaluate", "engine.Transaction.OpenTable"])
prop("C18", "Identifiers are equal exactly when their names are the same name",
 "Two quoted names denote the same identifier exactly when their text is equal, and unquoted names ignore letter case and recognise keywords; an identifier always prints as its name. An identifier stored and loaded again denotes the same name. No name is longer than the maximum length, and shortening never produces invalid text.",
 ["inputs"], "all names up to a few bytes, names around the length limit, all known names and keywords", "Tests use listed names; uniqueness is over all pairs of strings.",
 ["types/identifier.go"], [("interning table with case folding", "types/identifier.go ID, lookupID"), ("binary form", "types/identifier.go GobEncode, GobDecode")], state=[("identifiers, names", "name to number and back", "types/identifier.go")], obs=["types.ID", "types.Identifier.String", "types.Identifier.GobEncode", "types.Identifier.GobDecode"])
prop("C19", "Identifiers can be created and printed from many threads at once",
 "Whatever the interleaving, threads naming the same text get the same identifier, threads naming different texts get different ones, printing any identifier gives its name, and no data race occurs. Sessions created concurrently are distinct.",
 ["schedules"], "all interleavings (bounded preemptions) of two or three threads creating and printing identifiers", "Tests are single threaded.",
 ["types/identifier.go", "evaluate/session.go"], [("read-write lock with re-check", "types/identifier.go ID")], obs=["types.ID", "types.Identifier.String"])
prop("C20", "Literals denote exactly the value written",
 "A string, escaped string, bytes, hexadecimal bytes, integer or decimal literal, a parameter and a quoted or plain identifier denote exactly the value its text describes, in any context and however many literals follow it in the same statement. Malformed or out-of-range literals are reported as errors.",
 ["inputs"], "all literal contents up to a few characters, all escapes, all 64-bit integers, several literals in a row", "Tests list examples; values at the extremes and one literal overwriting another need particular combinations.",
 ["parser/scanner/scanner.go"], [("literal scanning", "parser/scanner/scanner.go scanString, scanBytes, scanHexBytes, scanNumber, scanQuotedConstant"), ("shared token buffer", "parser/scanner/scanner.go Scan")], obs=["scanner.Scanner.Scan", "parser.Parser.ParseExpr"])
prop("C21", "Whitespace, comments and letter case never change what is parsed",
 "Inserting spaces, newlines, line comments or block comments between tokens, or changing the letter case of keywords and unquoted names, yields the same sequence of tokens and the same statement. No character of the input outside comments and whitespace is silently dropped.",
 ["inputs", "programs"], "all short token sequences with all placements of separators, all last characters", "Tests use conventional formatting.",
 ["parser/scanner/scanner.go", "types/identifier.go"], [("skip loop", "parser/scanner/scanner.go scan"), ("one-rune pushback", "parser/scanner/scanner.go unreadRune")], obs=["scanner.Scanner.Scan", "parser.Parser.Parse"])
prop("C22", "The parser terminates with a statement or an error on every input",
 "For every input text parsing ends with a statement, an error or end of input, without crashing or hanging, and repeated parsing reaches end of input. Every statement or expression it returns can be printed.",
 ["inputs"], "all byte strings up to a few bytes; all sequences of SQL tokens up to a bounded length, starting from every statement keyword", "Tests feed well-formed or mildly broken statements.",
 ["parser/parser.go", "parser/scanner/scanner.go", "parser/sql/query.go", "parser/sql/datadef.go", "parser/sql/stmt.go", "parser/sql/expr.go"], [("panic to error conversion", "parser/parser.go Parse, ParseExpr"), ("token look-back ring", "parser/parser.go scanRune, unscan"), ("printing", "parser/sql String methods")], obs=["parser.Parser.Parse", "parser.Parser.ParseExpr", "sql.Stmt.String"])
prop("C23", "Expressions group by operator precedence, left to right",
 "An expression parses to the tree given by operator precedence (concatenation, then unary minus, then multiplicative, additive, bitwise and shift, ordering, equality, NOT, AND, OR) with operators of equal precedence grouped from the left, and parentheses override it. Every operand appears once, in order.",
 ["programs"], "all expressions of up to five or six operators, including unary minus, NOT and parentheses", "Tests list some combinations of two or three operators; the grouping is built by local rotations whose combined effect depends on the whole sequence.",
 ["parser/parser.go", "parser/sql/expr.go"], [("rotation by precedence", "parser/parser.go adjustPrecedence"), ("operator precedences", "parser/sql/expr.go")], obs=["parser.Parser.ParseExpr"])
prop("C24", "Statements in one input do not influence each other",
 "Each statement up to its terminating semicolon parses to the same statement or is rejected just as if it stood alone, whatever precedes it: earlier statements, empty statements or statements that failed to parse. After a failed statement parsing continues with the one after the next semicolon.",
 ["programs", "histories"], "all sequences of up to three statements drawn from valid, invalid, empty and truncated ones, as token sequences", "Tests rarely parse more than one statement per input, and almost never after an error.",
 ["parser/parser.go"], [("resynchronisation at the semicolon", "parser/parser.go Parse"), ("look-back ring", "parser/parser.go unscan")], state=[("failed", "previous statement failed before its semicolon", "parser/parser.go Parser")], obs=["parser.Parser.Parse"])
prop("C25", "CREATE TABLE parses to exactly the declared columns and constraints",
 "A well-formed CREATE TABLE yields the named table with the declared columns in order, each with its declared type, length, nullability and default, and the declared primary, unique, check and foreign keys with their columns, directions and actions. Lengths outside the allowed range, repeated columns (in the table or in one key), a second primary key, a second key over the same columns and directions, two keys of one name, and repeated defaults, NOT NULLs or actions are rejected.",
 ["programs", "inputs"], "all column types with all lengths, all constraint combinations on up to two columns", "Tests list sample statements.",
 ["parser/parser.go", "parser/sql/datadef.go"], [("column and constraint parsing", "parser/parser.go parseCreateDetails, parseColumn, parseColumnType, addKeyConstraint")], obs=["parser.Parser.Parse"])
prop("C26", "Queries and row changes parse to exactly what is written",
 "SELECT, INSERT, UPDATE, DELETE, VALUES and COPY statements yield the tables, columns, aliases, joins, conditions, grouping, ordering, values and assignments that were written, each in its place and in order (joins group from the left unless parentheses say otherwise), and nothing that was not written. Rows of different length in VALUES, repeated columns, and joins without or with a misplaced condition are rejected.",
 ["programs"], "all combinations of optional clauses with small lists of items", "Tests list sample statements; the optional clauses interact through token look-back.",
 ["parser/parser.go", "parser/sql/query.go"], [("clause parsing", "parser/parser.go parseSelect, parseInsert, parseUpdate, parseDelete, parseValues, parseFromItem")], obs=["parser.Parser.Parse"])
prop("C27", "Other statements parse to exactly what is written",
 "Transaction, SET, USE, SHOW and EXPLAIN statements, and statements that create, alter or drop databases, schemas, tables and indexes yield the names, constant values, options, existence clauses, keys, directions and actions that were written, and nothing else is accepted as one of them.",
 ["programs"], "all combinations of optional words, names and short lists", "Tests list sample statements.",
 ["parser/parser.go", "parser/sql/datadef.go", "parser/sql/stmt.go"], [("statement dispatch and option parsing", "parser/parser.go parseStmt and helpers")], obs=["parser.Parser.Parse"])
prop("C28", "Printing a parsed expression or query and parsing it again changes nothing",
 "Printing an expression or a query and parsing the printed text yields an equal expression or query, for those forms whose printed form is SQL: string, integer, boolean and NULL constants, unquoted names, operators, calls, subqueries, and the queries and row changes built from them.",
 ["programs", "inputs"], "all expressions of bounded depth over literals, names, operators and calls, and simple queries over them", "Tests compare printed text with fixed strings.",
 ["parser/sql/expr.go", "parser/sql/query.go", "types/value.go"], [("String methods", "parser/sql/expr.go, parser/sql/query.go")], obs=["sql.Expr.String", "parser.Parser.ParseExpr"])
prop("C29", "A storage failure at any point is reported and leaves nothing behind",
 "Whenever the store fails a call (once, or from then on) while the engine, its typed tables or a session works, the operation reports a failure and never success (CREATE TABLE may take a table it cannot open for one that does not exist, if it then creates it); every scan it opened is closed and every transaction it started itself is ended. An operation that failed, or was rolled back, leaves the catalog unchanged, so that listing and opening show what they did before; a statement outside a transaction takes effect entirely or not at all; and trying again afterwards works. An operation that reports success has had its whole effect.",
 ["fault_sequences", "histories"], "a failure of any one storage call, or of all from then on, in every engine operation, typed table operation and statement", "The in-memory store never fails, so no test runs an error path of the layers above it.",
 ["engine/engine.go", "engine/typedtable.go", "evaluate/session.go", "evaluate/evaluate.go"], [("transactions ended on every path", "engine/engine.go CreateDatabase, DropDatabase, ListDatabases"), ("scans closed on every path", "engine/typedtable.go"), ("autocommit", "evaluate/session.go Session.Evaluate")], obs=["engine.Engine", "engine.Transaction", "evaluate.Session"])
prop("C30", "A failing input reader is reported, never taken for the end of the input",
 "When the reader a parser reads from fails, the statement being read is reported as failed with the reader's error: it is never returned as if it had ended there, and the failure is never reported as the end of the input or as another character. Statements read completely before the failure are not affected, and COPY passes a failure of its reader, in the rest of its own line too, on to whoever reads the rows. After a failure that was only temporary, statements after the next semicolon parse as if they stood alone.",
 ["fault_sequences", "programs"], "a reader that fails at any character of any of a menu of statements, once or for good", "Tests read from strings, which never fail.",
 ["parser/scanner/scanner.go", "parser/parser.go"], [("reader errors", "parser/scanner/scanner.go readRune, unreadRune"), ("resynchronisation", "parser/parser.go Parse")], obs=["parser.Parser.Parse", "scanner.Scanner.Scan", "sql.Copy.From"])
prop("C31", "Positions of tokens and errors are where they start",
 "The line and column the scanner gives for a token are those of its first character, whatever white space, comments and tokens precede it; the end of input is placed where the text ends. A parse error names the source and the line and column of the offending token, and COPY reports the line at which its rows start.",
 ["inputs", "programs"], "all token kinds, separators and line breaks within the bounds", "Tests check the positions of a few fixed texts.",
 ["parser/scanner/scanner.go", "parser/parser.go"], [("line and column counting", "parser/scanner/scanner.go readRune, Scan"), ("position in messages", "parser/parser.go error, token.Position")], obs=["scanner.ScanCtx", "parser.Parser.Parse error", "sql.Copy.FromLine"])
prop("C32", "Printing any other statement and parsing it again changes nothing",
 "Printing a transaction, SET, USE, SHOW or COPY statement, or one that creates or drops a database, schema or index, drops tables, or alters a table, and parsing the printed text yields an equal statement: the same names, values, existence clauses, keys with directions, constraint names, referenced columns and actions. Excluded are options of CREATE DATABASE, unnamed foreign keys and names that need quotes, whose printed form is not SQL.",
 ["programs", "inputs"], "all combinations of optional words, names, actions and values within the bounds", "Tests compare printed text with fixed strings.",
 ["parser/sql/stmt.go", "parser/sql/datadef.go", "parser/sql/query.go"], [("String methods", "parser/sql/stmt.go, parser/sql/datadef.go, parser/sql/query.go")], obs=["sql.Stmt.String", "parser.Parser.Parse"])
prop("C33", "Column types print as SQL declaring them; key columns keep their direction",
 "Printing the type of a column (any kind and any length a column can be given, except 0) yields SQL which, used in CREATE TABLE, declares a column of that type and length. A key column made from a column number and a direction yields that number and direction, two are equal exactly when both agree, and a change of columns is said to touch a key exactly when one of the changed columns is one of the key's, in whatever direction.",
 ["inputs"], "all kinds and lengths within the bounds; all 31-bit column numbers", "Tests list a dozen types and keys of the first few columns.",
 ["types/column.go"], [("type to text", "types/column.go ColumnType.String"), ("sign for direction", "types/column.go MakeColumnKey, Reverse, Column, ColumnKeyUpdated")], obs=["types.ColumnType.String", "parser.Parser.Parse", "types.MakeColumnKey", "types.ColumnKeyUpdated"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
