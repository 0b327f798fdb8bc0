check("C33", "length 0, which prints as a panic by an existing test; lengths beyond those near the limits; 4 byte floats, which print as DOUBLE",
 "every kind; lengths up to 255, around 65536 and up to the limit; every 31-bit column number",
 [H("parse.TypePrint", reach=["printed"], bounds="every kind of column, 256 lengths at each of three places"),
  H("types.KeyColumns", {"n": 2}, {"n": 3}, reach=["made"], bounds="keys of up to `n` columns and up to 2 changed columns")])
NA = {}

def sh(fn, quick, thorough=None, shapes=range(6), reach=(), bounds="", q={}, t={}, **kw):
    """One harness entry per table shape; q/t override parameters per shape."""
    out = []
    for s in shapes:
        qp = dict(quick, shape=s, **{}); qp.update(q.get(s, {}))
        tp = dict(quick, shape=s); tp.update(thorough or {}); tp.update(t.get(s, {}))
        out.append(H(fn, qp, tp, reach=reach, bounds=bounds + f" (table shape {s})", **kw))
    return out

SHAPES = "six table shapes cover every kind of key column, both directions and composite keys out of column order"

check("C01", "longer strings and more columns than the bounds; wider keys are covered only by the per-column composition",
 "bounded: every pair of rows within the column/length bounds is decided by the solver",
 [H("encode.KeyOrder", {"cols": 1, "len": 4}, {"cols": 1, "len": 5}, reach=["keys"], bounds="one key column of any kind, strings and bytes up to len bytes, all 64-bit integers and floats"),
  H("encode.KeyOrder", {"cols": 2, "len": 1}, {"cols": 2, "len": 2}, reach=["keys"], bounds="two key columns of any kinds, both column orders and directions")])
check("C02", "inputs longer than the bound for decoding; encoding is complete over all 64-bit integers",
 "complete over all 64-bit values; malformed input up to 12 bytes",
 [H("encode.Varint"), H("encode.VarintInjective"), H("encode.Zigzag"), H("encode.DecodeAny", {"len": 12}, {"len": 16}), H("encode.Fixed")])
check("C03", "strings and bytes longer than the bound",
 "every pair and triple of values; all 64-bit integers and floats, strings and bytes up to len bytes",
 [H("types.Compare", {"len": 3}, {"len": 4}, reach=["compared"], bounds="three values of any kinds, strings and bytes up to len bytes, all integers and floats"),
  H("types.CompareKey", {"len": 3}, {"len": 4}, reach=["compared"], bounds="two values of one column kind against the encoded keys")])
check("C04", "longer text; floats become text for listed values with any one bit changed, longer decimal text becomes a float for listed texts",
 "every value within the length bound for every column type, size and nullability",
 [H("types.Convert", {"len": 4}, {"len": 6}, reach=["converted"], bounds="any value, column type, symbolic size and nullability; strings and bytes up to len bytes"),
  H("types.LongDecimal", reach=["converted"], bounds="decimal texts around the 64-bit limits"),
  H("types.ConvertRow", {"cols": 2}, {"cols": 3}, reach=["converted"], bounds="rows with up to cols+1 values", thorough_s=600)])
check("C05", "larger tables and longer strings than the bounds",
 "every table content, bound row, predicate constant and projection within the bounds; " + SHAPES,
 sh("store.Scan", {"mode": 0, "rows": 2}, {"rows": 2}, q={1: {"rows": 1}}, reach=["scanned"], t={0: {"rows": 3, "small": 1}, 2: {"rows": 3}, 3: {"rows": 3}},
    bounds="up to `rows` rows with symbolic keys, optional symbolic lower and upper bound rows, neighbouring tables", thorough_s=300) +
 sh("store.Scan", {"mode": 1, "rows": 2}, {"rows": 2}, t={0: {"rows": 3}}, reach=["scanned"], bounds="up to `rows` symbolic rows, symbolic predicate on any column, projections", thorough_s=300) +
 sh("store.Scan", {"mode": 2, "rows": 2, "small": 1}, shapes=[0, 2, 3, 4], reach=["scanned"], bounds="bounds, predicate and projection together", only="thorough", thorough_s=300))
check("C06", "larger tables, batches and longer strings than the bounds; composite keys use 8-bit integers",
 "every batch of rows within the bounds against every table content within the bounds; " + SHAPES,
 sh("store.Insert", {"rows": 1, "batch": 2, "small": 1}, {"rows": 2}, t={1: {"batch": 1}}, q={0: {"rows": 2}, 2: {"rows": 2}, 4: {"rows": 2}}, reach=["inserted"],
    bounds="up to `rows` stored rows, batches of up to `batch` rows, each fitting, too short, too long, NULL or of an impossible type", thorough_s=300) +
 sh("store.Insert", {"rows": 1, "batch": 1}, reach=["inserted"], bounds="as above with 64-bit keys", only="thorough", shapes=[0, 4], thorough_s=300))
check("C07", "larger tables and longer strings than the bounds",
 "every update of any columns of any row within the bounds; " + SHAPES,
 sh("store.Update", {"rows": 2, "small": 1}, {"rows": 2}, q={1: {"rows": 1}, 5: {"rows": 1}}, reach=["updated"], bounds="up to `rows` rows, any subset of columns in either order, fitting, NULL or impossible values, open or closed projecting scan", thorough_s=300) +
 sh("store.Update", {"rows": 2}, shapes=[0, 3, 4], reach=["updated"], only="thorough", bounds="64-bit integer keys", thorough_s=300))
check("C08", "larger tables than the bounds",
 "every subset of deleted rows and every interleaved change within the bounds; " + SHAPES,
 sh("store.Delete", {"rows": 2, "small": 1}, {"rows": 3}, reach=["deleted"], bounds="up to `rows` rows, any subset deleted, another scan and table open", thorough_s=300) +
 sh("store.Snapshot", {"rows": 2, "steps": 1, "small": 1}, {"steps": 2, "rows": 2}, reach=["read"], bounds="`steps` changes while a scan is open", thorough_s=300))
check("C09", "longer histories than the bounds, crashes (the store is in memory only)",
 "every history of txs transactions with up to steps operations each over three tables with symbolic keys",
 [H("store.History", {"txs": 1, "steps": 2}, {"txs": 1, "steps": 3}, reach=["history"], bounds="one transaction of up to `steps` operations (create, insert, update, delete, drop on three tables), commit or rollback, ended twice", thorough_s=300),
  H("store.History", {"txs": 2, "steps": 1}, {"txs": 2, "steps": 2}, reach=["history"], bounds="`txs` transactions one after another, stale ends in between", thorough_s=600)])
check("C10", "more threads or preemptions than the bounds; scheduling points are synchronisation operations and every shared memory access of maho's own code",
 "every interleaving with a bounded number of preemptions, with symbolic keys and values; data races by vector clocks",
 [H("store.Concurrent", {"threads": 2, "preempt": 2}, {"threads": 2, "preempt": 3}, reach=["joined"], bounds="`threads` transactions (read, update or delete, insert, read; commit or rollback) at most `preempt` preemptions"),
  H("store.Concurrent", {"threads": 3, "preempt": 0}, {"threads": 3, "preempt": 1}, reach=["joined"], bounds="three threads in every order", quick_s=60, thorough_s=600),
  H("engine.Concurrent", {"threads": 2, "preempt": 1}, {"threads": 2, "preempt": 2}, reach=["joined"], bounds="`threads` threads creating databases, schemas and tables through one engine", thorough_s=600)])
check("C11", "more than two tables; three-column tables",
 "every identity (32 bit) of two tables, every single difference in an opened definition",
 sh("store.Tables", {"rows": 3}, {"rows": 4}, t={5: {"rows": 3}}, shapes=[0, 3, 5], reach=["dropped", "reserved", "duplicate"], bounds="two tables with arbitrary 32-bit identities, up to `rows` rows", thorough_s=300) +
 sh("store.Open", {}, reach=["opened"], bounds="one difference in identity, name, column names, types, sizes or key, with symbolic values") +
 [H("store.Create", reach=["create"], bounds="up to three columns, up to two key columns with symbolic numbers, the row-id column anywhere with any type"),
  H("store.Setup", reach=["setup"], bounds="up to three columns")])
check("C18", "longer names than the bounds except around the length limit; more than one letter outside ASCII in a name, in the quick tier letters from U+0800 to U+1DFF and from U+2200 on",
 "every pair of names up to the bound, every keyword in every case, every truncation position",
 [H("types.Keywords", {"per": 8}, {"per": 8, "maxlen": 8}, reach=["keyword"], bounds="every keyword, every letter in either case for keywords up to maxlen (5) letters, fixed case patterns beyond"),
  H("types.Known", reach=["known"], bounds="every predefined name"),
  H("types.Pair", {"len": 2}, {"len": 3}, reach=["pair"], bounds="two names of up to len bytes, quoted or not", thorough_s=300),
  H("types.Length", {"tail": 3}, {"tail": 4}, reach=["long"], bounds="names around the length limit with symbolic last bytes"),
  H("types.LongPair", reach=["pair"], bounds="two names which differ near the length limit"),
  H("types.Fold", {"limit": 0x800}, {"limit": 0x110000}, reach=["folded"], bounds="a name with any one letter outside ASCII below U+limit", thorough_s=900),
  H("types.GobAny", reach=["decoded"], bounds="stored names of any bytes")])
check("C19", "more threads or preemptions than the bounds",
 "every interleaving with a bounded number of preemptions over symbolic names; data races by vector clocks",
 [H("types.Concurrent", {"threads": 2, "preempt": 2}, {"threads": 2, "preempt": 3}, reach=["joined"], bounds="`threads` threads naming and printing one-letter names"),
  H("types.Concurrent", {"threads": 2, "preempt": 1, "len": 3}, reach=["joined"], bounds="three-letter names"),
  H("types.Concurrent", {"threads": 3, "preempt": 1}, {"threads": 3, "preempt": 2}, reach=["joined"], bounds="three threads", thorough_s=300),
  H("types.ConcurrentMany", {"preempt": 2}, {"preempt": 3}, reach=["joined"], bounds="an old and two new names", thorough_s=300),
  H("session.Concurrent", {"threads": 2, "preempt": 3}, {"threads": 3, "preempt": 3}, reach=["joined"], bounds="`threads` threads creating sessions")])
check("C12", "nested or embedded struct fields, larger tables than the bounds, strings longer than two bytes",
 "every field value of every supported field kind; every key, range and callback decision within the bounds",
 [H("engine.Types", reach=["types"], bounds="the column types derived for every supported field kind"),
  H("engine.Plain", reach=["record"], bounds="one record, every plain field kind, all values"),
  H("engine.Pointers", reach=["record"], bounds="one record, every pointer field kind, nil or any value"),
  H("engine.Long", reach=["long"], bounds="values around the declared length of a field"),
  H("engine.Lookup", {"rows": 2}, {"rows": 3}, reach=["lookup"], bounds="up to `rows` records, any key", thorough_s=300),
  H("engine.Range", {"rows": 2}, {"rows": 3}, reach=["range"], bounds="up to `rows` records, any lower and upper bound, callback may stop", thorough_s=600),
  H("engine.Change", {"rows": 2}, {"rows": 3}, reach=["changed"], bounds="up to `rows` records, callback updates, deletes, keeps or fails on each", thorough_s=600)])
check("C13", "longer histories than the bounds; more names than the pool (which includes keywords and predefined names)",
 "every sequence of operations within the bounds over symbolic choices of names",
 [H("engine.Databases", {"steps": 2}, {"steps": 3}, reach=["listed"], bounds="`steps` create/drop operations on databases and schemas, in one or several transactions, committed or rolled back", thorough_s=900),
  H("engine.Options", reach=["options"], bounds="options given with CREATE DATABASE"),
  H("engine.Lifecycle", reach=["again", "same"], bounds="drop and create again a database or schema holding a table with rows")])
check("C14", "longer histories than the bounds; tables of more than two columns",
 "every definition with up to two columns of any type, size, nullability and key; every history within the bounds",
 [H("engine.Definition", {"cols": 1}, reach=["opened"], bounds="one column of any type and any 32-bit size"),
  H("engine.Definition", {"cols": 2}, reach=["opened"], bounds="two columns", thorough_s=300),
  H("engine.Tables", {"steps": 2}, {"steps": 3}, reach=["tables"], bounds="`steps` operations (create, commit, roll back) over symbolic names", thorough_s=900),
  H("engine.System", reach=["system"], bounds="the built-in tables"),
  H("engine.Lifecycle", reach=["again", "same"], bounds="a table in a dropped and recreated database or schema")])
check("C15", "longer sequences than the bounds; statements the session does not support (they are refused by a panic)",
 "every statement sequence within the bounds, with every engine failure",
 [H("session.Protocol", {"steps": 3}, {"steps": 4}, reach=["done"], bounds="`steps` statements of every supported kind with arbitrary names, the engine refusing any call", thorough_s=600),
  H("session.State", {"steps": 2}, reach=["compared"], bounds="`steps` statements from two sessions on the real engine, starting without a transaction"),
  H("session.State", {"steps": 2, "begin": 1}, {"steps": 3, "begin": 1}, reach=["compared"], bounds="BEGIN, `steps` statements, then COMMIT or ROLLBACK", thorough_s=900)])
check("C16", "names inside queries, expressions and foreign keys (SELECT is not evaluated, and these are not resolved at all yet)",
 "every identifier of every name and default",
 [H("session.Names", reach=["resolved"], bounds="every table and schema name, every defaults"),
  H("session.Evaluated", {"sets": 2}, {"sets": 4}, reach=["evaluated"], bounds="up to `sets` SET, BEGIN and ROLLBACK statements, then every evaluated statement kind", thorough_s=300),
  H("session.Statements", reach=["resolved"], bounds="every statement kind with a target table")])
check("C17", "column lists and keys longer than the bounds; defaults and foreign keys (not stored by the engine)",
 "every definition within the bounds, with arbitrary names, types and sizes",
 [H("session.CreateTable", {"cols": 3, "keys": 2}, {"cols": 4, "keys": 3}, reach=["created"], bounds="up to `cols` columns with any types, key of up to `keys` columns, among other constraints"),
  H("session.CreateIndex", {"cols": 3, "keys": 2}, {"cols": 4, "keys": 3}, reach=["created"], bounds="up to `cols` columns, key of up to `keys` columns, up to two existing indexes"),
  H("session.Text", reach=["created"], bounds="statement texts with up to two columns, symbolic lengths, keys and orders, on the real engine")])

check("C20", "longer literals than the bounds; decimal exponents of a thousand and more; more than two characters outside ASCII in a literal",
 "every literal content within the bounds, read back through the parser",
 [H("parse.Literals", {"n": 2, "len": 1}, {"n": 2, "len": 1, "large": 1}, reach=["scanned"], bounds="`n` literals of any kinds after one another, contents up to len bytes", quick_s=200, thorough_s=900)] +
 [H("parse.Literals", {"kind": k, "n": 1, "len": 1, "large": 1}, {"kind": k, "n": 1, "len": 2, "large": 1}, reach=["scanned"], bounds="one literal of kind %d, every escape and value around the limits" % k, thorough_s=600) for k in range(8)] +
 [H("parse.Row", reach=["parsed"], bounds="several literals in one statement compared after all were read"),
  H("parse.Malformed", reach=["scanned"], bounds="malformed and out of range literals"),
  H("parse.Continued", {"parts": 3}, {"parts": 4}, reach=["scanned"], bounds="`parts` strings separated by one or two white space characters of any kinds", thorough_s=600),
  H("parse.Literals", {"kind": 1, "n": 1, "len": 1, "hex": 1}, reach=["scanned"], bounds="all hexadecimal digits of escapes", only="thorough", thorough_s=600)])
check("C21", "longer token sequences than the bounds; more than one character outside ASCII between tokens",
 "every token sequence, placement of separators and last character within the bounds",
 [H("parse.Tokens", {"n": 1, "seps": 1}, {"n": 1, "seps": 2}, reach=["scanned"], bounds="`n` tokens of any kind, up to `seps` separators (spaces, newlines, comments with any contents) at each place", thorough_s=600),
  H("parse.Tokens", {"n": 2, "seps": 1, "edges": 0}, {"n": 2, "seps": 2, "edges": 0}, reach=["scanned"], bounds="`n` tokens, separators between them", thorough_s=600),
  H("parse.Tokens", {"n": 3, "seps": 1, "edges": 0}, reach=["scanned"], bounds="three tokens", only="thorough", thorough_s=900),
  H("parse.Ends", reach=["scanned"], bounds="every last character"),
  H("parse.Lower", reach=["parsed"], bounds="every statement kind with its letters in either case"),
  H("parse.Layout", {}, {"seps": 2, "maxlen": 8}, reach=["parsed"], bounds="every statement kind with separators at one place", thorough_s=300),
  H("parse.Minus", reach=["parsed"], bounds="signs, operators and comments next to numbers")])
check("C22", "longer texts and token sequences than the bounds; characters outside ASCII except as in C20 and C21",
 "every byte string and token sequence within the bounds",
 [H("parse.Bytes", {"len": 3}, {"len": 4}, reach=["end"], bounds="any text of up to len bytes", thorough_s=600),
  H("parse.Bytes", {"len": 3, "before": 4}, {"len": 4, "before": 4}, reach=["end"], bounds="after the start of a statement, a string and an escape", thorough_s=900),
  H("parse.ExprBytes", {"len": 3, "before": 4}, {"len": 4, "before": 4}, reach=["parsed"], bounds="any expression text of up to len bytes", thorough_s=900),
  H("parse.ExprWalk", {"n": 3}, {"n": 4}, reach=["parsed"], bounds="every sequence of `n` of over a hundred tokens as an expression", thorough_s=900),
  H("parse.Walk", {"n": 2}, {"n": 3}, reach=["parsed"], bounds="every sequence of `n` tokens after the first words of every statement", thorough_s=900),
  H("parse.Copy", reach=["parsed", "rejected"], bounds="COPY with a delimiter of up to three characters"),
  H("parse.Splice", {"n": 1}, reach=["parsed"], bounds="one token replaced in, inserted in or cutting off every statement of a menu of all kinds", quick_s=200)])
check("C23", "longer expressions than the bounds",
 "every sequence of operators, prefixes and parentheses within the bounds",
 [H("parse.Expr", {"ops": 2, "binops": 20, "prefixes": 1}, {"ops": 3, "binops": 20, "prefixes": 1}, reach=["parsed"], bounds="`ops` of all binary operators, prefix operators before every operand", thorough_s=900),
  H("parse.Expr", {"ops": 3, "prefixes": 1}, {"ops": 4, "prefixes": 1}, reach=["parsed"], bounds="one operator of every precedence", thorough_s=900),
  H("parse.Expr", {"ops": 5, "prefixes": 0}, {"ops": 6, "prefixes": 0}, reach=["parsed"], bounds="`ops` operators without prefixes", thorough_s=900),
  H("parse.Expr", {"ops": 2, "prefixes": 2, "parens": 1, "inner": 1}, {"ops": 3, "prefixes": 1, "parens": 1, "inner": 1}, reach=["parsed"], bounds="with a pair of parentheses anywhere", quick_s=200, thorough_s=900),
  H("parse.Expr", {"ops": 1, "binops": 20, "kinds": 8, "prefixes": 0}, {"ops": 1, "binops": 20, "kinds": 8, "prefixes": 1}, reach=["parsed"], bounds="operands of every kind", thorough_s=900),
  H("parse.Postfix", {"post": 1}, {"post": 2}, reach=["parsed"], bounds="up to `post` NULL tests, IN and comparisons with subqueries between other operators", thorough_s=300)])
check("C24", "more statements than the bounds",
 "every sequence of statements and of broken statements within the bounds",
 [H("parse.Sequence", {"n": 3}, {"n": 4}, reach=["parsed", "rejected"], bounds="`n` of thirty valid, empty, broken and cut off statements, then one more", thorough_s=900),
  H("parse.Sequence", {"n": 2, "end": 1}, {"n": 3, "end": 1}, reach=["parsed", "rejected"], bounds="the same, the last one ended by the end of the text", thorough_s=600),
  H("parse.Walk", {"n": 2}, {"n": 3}, reach=["parsed"], bounds="a statement after every sequence of `n` tokens after the first words of every statement", thorough_s=900),
  H("parse.Splice", {"n": 1}, reach=["parsed"], bounds="a statement after every statement of a menu with one token replaced, inserted or the rest cut off", quick_s=200)])
check("C25", "more columns and constraints than the bounds",
 "every declaration within the bounds",
 [H("parse.Types", {"names": 0}, {"names": 2}, reach=["parsed"], bounds="one or two columns of all types, one constraint of any kind", thorough_s=300),
  H("parse.Lengths", {"digits": 3}, {"digits": 4}, reach=["parsed", "rejected"], bounds="lengths of all digits, short and around the limits of 32 and 64 bits, of every type"),
  H("parse.NotLengths", reach=["rejected"], bounds="negative, fractional, missing and other lengths"),
  H("parse.Columns", {"cols": 3}, {"cols": 5}, reach=["parsed", "rejected"], bounds="`cols` columns with repeated names", thorough_s=300),
  H("parse.Constraints", {"opts": 2, "actions": 0}, {"opts": 2}, reach=["parsed", "rejected"], bounds="a column with up to `opts` constraints, named alike or differently, or not", thorough_s=300),
  H("parse.Constraints", {"opts": 3, "actions": 0, "names": 0, "exprs": 1}, {"opts": 4, "actions": 0, "names": 0, "exprs": 1}, reach=["parsed", "rejected"], bounds="a column with up to `opts` unnamed constraints", thorough_s=300),
  H("parse.Constraints", {"opts": 1, "names": 0, "actions": 3, "exprs": 5}, reach=["parsed", "rejected"], bounds="defaults, checks, references with all actions"),
  H("parse.Keys", {"opts": 0, "kinds": 2}, {"opts": 1, "kinds": 2, "actions": 0, "exprs": 1}, reach=["parsed", "rejected"], bounds="two keys of up to two columns in all directions, named alike or not, before, between and after columns", thorough_s=900, quick_s=200),
  H("parse.Keys", {"opts": 0, "items": 1, "actions": 2, "exprs": 5}, {"opts": 0, "items": 1, "actions": 3, "exprs": 5}, reach=["parsed", "rejected"], bounds="one constraint of every kind", thorough_s=600),
  H("parse.Keys", {"opts": 0, "items": 1, "actions": 0, "exprs": 1, "qualified": 1, "keycols": 3}, reach=["parsed", "rejected"], bounds="qualified names, keys of up to three columns"),
  H("parse.Keys", {"opts": 1, "items": 1, "actions": 0, "exprs": 1}, reach=["parsed", "rejected"], bounds="a column constraint and a table constraint"),
  H("parse.Keys", {"items": 3, "opts": 0, "actions": 0, "exprs": 1, "keycols": 1, "names": 0}, reach=["parsed", "rejected"], bounds="three constraints", only="thorough", thorough_s=600)])
check("C26", "longer lists and deeper nesting than the bounds",
 "every combination of clauses and items within the bounds",
 [H("parse.Results", {"results": 2}, {"results": 3}, reach=["parsed"], bounds="up to `results` items of fourteen forms with and without aliases, followed by any clause", thorough_s=900),
  H("parse.From", {"joinsn": 0, "items": 2}, {"joinsn": 0, "items": 3}, reach=["parsed"], bounds="tables, indexes and subqueries with aliases, in a list", thorough_s=900),
  H("parse.From", {"joinsn": 1, "sources": 2}, {"joinsn": 1, "sources": 4}, reach=["parsed", "rejected"], bounds="one join of every kind", thorough_s=600),
  H("parse.From", {"joinsn": 2, "sources": 1, "paren": 2}, {"joinsn": 3, "sources": 1, "joins": 5}, reach=["parsed", "rejected"], bounds="up to `joinsn` joins, lists in parentheses", thorough_s=900),
  H("parse.From", {"joinsn": 1, "sources": 1, "items": 2, "exprs": 7}, reach=["parsed", "rejected"], bounds="two joins in a list, conditions of all forms"),
  H("parse.Clauses", {"exprs": 3, "list": 1}, {"exprs": 7, "list": 1}, reach=["parsed"], bounds="every combination of clauses with conditions of several forms, explained or not", thorough_s=600),
  H("parse.Clauses", {"exprs": 2, "list": 2}, {"exprs": 2, "list": 3}, reach=["parsed"], bounds="lists in GROUP BY and ORDER BY", thorough_s=600),
  H("parse.Values", {"rows": 2, "width": 2}, {"rows": 3, "width": 3, "cells": 2}, reach=["parsed", "rejected"], bounds="VALUES of several rows", thorough_s=300),
  H("parse.Insert", {"cells": 2}, {"cells": 4}, reach=["parsed", "rejected"], bounds="INSERT with and without columns, several rows, DEFAULT", thorough_s=300),
  H("parse.Insert", {"cells": 1, "rows": 1, "width": 1, "cols": 3}, reach=["parsed", "rejected"], bounds="INSERT with up to three columns"),
  H("parse.Update", reach=["parsed"], bounds="UPDATE of up to three columns"),
  H("parse.Delete", reach=["parsed"], bounds="DELETE"),
  H("parse.Copy", reach=["parsed", "rejected"], bounds="COPY and the rows after it")])
check("C27", "longer lists than the bounds; PREPARE and EXECUTE (rejected, as no statement of this version)",
 "every combination of optional words, names and values within the bounds",
 [H("parse.Settings", reach=["parsed", "rejected"], bounds="SET, USE and SHOW with any constants"),
  H("parse.NotSettings", reach=["rejected"], bounds="SET and USE with anything else"),
  H("parse.Transactions", reach=["parsed", "rejected"], bounds="transaction statements"),
  H("parse.Shows", reach=["parsed", "rejected"], bounds="SHOW of columns, constraints, settings, databases, schemas and tables"),
  H("parse.Databases", {"options": 2}, {"options": 3}, reach=["parsed", "rejected"], bounds="CREATE and DROP of databases and schemas, options with any constants"),
  H("parse.Drops", {"tables": 3}, {"tables": 4}, reach=["parsed", "rejected"], bounds="DROP of tables and indexes"),
  H("parse.Index", {"keycols": 2}, {"keycols": 3}, reach=["parsed", "rejected"], bounds="CREATE INDEX with up to `keycols` columns"),
  H("parse.Alter", {"actions": 0, "acts": 2}, {"actions": 1, "acts": 2}, reach=["parsed", "rejected"], bounds="ALTER TABLE with up to `acts` actions", thorough_s=900),
  H("parse.Alter", {"acts": 1, "actions": 2}, {"acts": 1, "actions": 3}, reach=["parsed", "rejected"], bounds="foreign keys with all actions", thorough_s=300),
  H("parse.Clauses", {"exprs": 2, "list": 1}, reach=["parsed"], bounds="EXPLAIN of queries")])
check("C28", "floats, bytes, names which need quotes, deeper nesting than the bounds",
 "every constant, expression and query within the bounds",
 [H("parse.Constants", {"bits": 7, "len": 1}, {"bits": 10, "len": 2}, reach=["printed"], bounds="strings of any ASCII characters up to len, integers of up to `bits` bits and the extremes, in expressions and queries", thorough_s=600),
  H("parse.Constants", {"bits": 10, "len": 2, "in": 1}, {"bits": 13, "len": 3, "in": 1}, reach=["printed"], bounds="constants alone", thorough_s=600),
  H("parse.Trees", {"depth": 2}, {"depth": 2, "leaves": 3, "binops": 12}, reach=["printed"], bounds="expressions of nested operators, calls and subqueries", thorough_s=900),
  H("parse.Expr", {"ops": 2, "binops": 20, "prefixes": 1, "round": 1}, {"ops": 3, "prefixes": 1, "round": 1}, reach=["printed"], bounds="parsed expressions of `ops` operators", thorough_s=300),
  H("parse.Expr", {"ops": 2, "prefixes": 1, "parens": 1, "inner": 1, "round": 1}, {"ops": 2, "prefixes": 1, "parens": 1, "inner": 1, "round": 1, "binops": 20}, reach=["printed"], bounds="with a pair of parentheses anywhere", thorough_s=600),
  H("parse.Postfix", {"round": 1}, {"round": 1, "post": 2}, reach=["printed"], bounds="NULL tests and subquery comparisons", thorough_s=300),
  H("parse.Results", {"round": 1}, reach=["printed"], bounds="select lists"),
  H("parse.From", {"joinsn": 1, "sources": 2, "round": 1}, {"joinsn": 1, "sources": 4, "round": 1}, reach=["printed"], bounds="tables, indexes, subqueries and joins", thorough_s=600),
  H("parse.From", {"joinsn": 0, "items": 2, "round": 1}, reach=["printed"], bounds="lists of tables and subqueries"),
  H("parse.From", {"joinsn": 2, "sources": 1, "paren": 2, "round": 1}, reach=["printed"], bounds="two joins"),
  H("parse.Clauses", {"exprs": 2, "list": 2, "round": 1}, {"exprs": 7, "list": 1, "round": 1}, reach=["printed"], bounds="clauses, explained or not", thorough_s=600),
  H("parse.Values", {"round": 1}, reach=["printed"], bounds="VALUES"),
  H("parse.Insert", {"cells": 2, "round": 1}, reach=["printed"], bounds="INSERT"),
  H("parse.Update", {"round": 1}, reach=["printed"], bounds="UPDATE"),
  H("parse.Delete", {"round": 1}, reach=["printed"], bounds="DELETE")])

check("C29", "a failure of closing a scan or of rolling back after another failure; a store which fails with the end of rows as its error; more than one separate failure",
 "a failure of every single storage call, once or from then on, over symbolic names and rows",
 [H("engine.FaultInit", reach=["failed", "worked"], bounds="setting up a store"),
  H("engine.FaultDatabases", reach=["failed", "worked"], bounds="creating, dropping and listing databases"),
  H("engine.FaultTx", reach=["failed", "worked"], bounds="every operation of an engine transaction"),
  H("engine.FaultTyped", {"rows": 2}, {"rows": 3}, reach=["failed", "worked", "callback"], bounds="every typed table operation on up to `rows` records; callbacks which fail", thorough_s=600),
  H("session.Faults", reach=["failed", "worked", "committed"], bounds="every statement a session evaluates, in and outside a transaction")])
check("C30", "more than one separate failure; recovery after a failure inside a quoted text or comment",
 "a failure at every character of every statement of a menu, once or from then on",
 [H("parse.ReadFaults", {"n": 1}, {"n": 2}, reach=["failed", "recovered"], bounds="`n` statements of a menu covering every kind of token, then another; a failure at any character", thorough_s=900),
  H("parse.ReadFaultsCopy", reach=["failed", "rows"], bounds="COPY and its rows")])
check("C31", "longer texts than the bounds; more than two characters outside ASCII",
 "every token and separator sequence within the bounds",
 [H("parse.Tokens", {"n": 1, "seps": 1, "pos": 1}, {"n": 1, "seps": 2, "pos": 1}, reach=["scanned"], bounds="`n` tokens of any kind, up to `seps` separators (spaces, newlines, comments with any contents) at each place", thorough_s=600),
  H("parse.Tokens", {"n": 2, "seps": 1, "edges": 0, "pos": 1}, {"n": 3, "seps": 1, "edges": 0, "pos": 1}, reach=["scanned"], bounds="`n` tokens, separators between them", thorough_s=900),
  H("parse.ErrorPositions", reach=["rejected"], bounds="every statement of a menu with one token replaced by one that is wrong there, on any line", thorough_s=300),
  H("parse.ErrorTokens", reach=["rejected"], bounds="each statement of a menu with a marked wrong token, with line breaks at any of four places"),
  H("parse.CopyPositions", reach=["parsed"], bounds="COPY after any number of lines within the bound")])
check("C32", "options of CREATE DATABASE, unnamed foreign keys, CREATE TABLE (printed with descriptions of its types), names which need quotes, longer lists than the bounds",
 "every combination of optional words, names and values within the bounds",
 [H("parse.Settings", {"round": 1}, reach=["printed"], bounds="SET, USE and SHOW with any constants"),
  H("parse.Transactions", {"round": 1}, reach=["printed"], bounds="transaction statements"),
  H("parse.Shows", {"round": 1}, reach=["printed"], bounds="SHOW of columns, constraints, databases, schemas and tables"),
  H("parse.Databases", {"round": 1}, reach=["printed"], bounds="CREATE and DROP of databases and schemas"),
  H("parse.Drops", {"tables": 3, "round": 1}, {"tables": 4, "round": 1}, reach=["printed"], bounds="DROP of tables and indexes"),
  H("parse.Index", {"keycols": 2, "round": 1}, {"keycols": 3, "round": 1}, reach=["printed"], bounds="CREATE INDEX with up to `keycols` columns"),
  H("parse.Alter", {"actions": 0, "acts": 2, "round": 1}, {"actions": 1, "acts": 2, "round": 1}, reach=["printed"], bounds="ALTER TABLE with up to `acts` actions", thorough_s=900),
  H("parse.Alter", {"acts": 1, "actions": 2, "round": 1}, {"acts": 1, "actions": 3, "round": 1}, reach=["printed"], bounds="foreign keys with all actions", thorough_s=300),
  H("parse.Copy", {"round": 1}, reach=["printed"], bounds="COPY with any delimiter")])


def more(id, *hs):
    """Further instances of a property: long texts, wide keys, many rows, so
    that limits hidden in the code are met. One large input each, a symbolic
    place or value in it."""
    CHECKS[id]["harnesses"].extend(hs)

more("C01",
  H("encode.KeyLong", reach=["keys"], bounds="one long string around 32 to 1024 bytes with a symbolic byte at a symbolic place, against another"),
  H("encode.KeyWide", {"cols": 9}, {"cols": 20}, reach=["keys"], bounds="keys of `cols` columns, one of them symbolic"))
more("C03", H("types.CompareLong", reach=["compared"], bounds="long strings which differ at one place"))
more("C04",
  H("types.ConvertLong", reach=["converted"], bounds="long strings and bytes around the declared size"),
  H("types.ConvertWide", {"cols": 12}, {"cols": 40}, reach=["converted"], bounds="rows of `cols` columns, one value symbolic"))
for id, what, whats, reach in (("C05", 0, 2, ["scanned"]), ("C06", 2, 1, ["inserted"]), ("C07", 3, 1, ["updated"]), ("C08", 4, 2, ["deleted", "snapshot"]),
                               ("C06", 6, 1, ["batch"]), ("C09", 7, 1, ["transaction"])):
    more(id, H("store.Many", {"rows": 70, "small": 1, "what": what, "whats": whats}, {"rows": 150, "small": 0, "what": what, "whats": whats}, reach=reach,
               bounds="a table of `rows` rows between neighbouring tables, one operation at any place in it", thorough_s=600))
more("C11", H("store.ManyTables", {"tables": 30, "rows": 70}, {"tables": 100, "rows": 300}, reach=["dropped", "created"], bounds="`tables` tables, one of `rows` rows, any 32-bit identity dropped or created", thorough_s=600))
more("C29", H("engine.FaultTyped", {"rows": 40}, {"rows": 80}, reach=["failed", "worked", "callback"], bounds="typed table operations on `rows` records"))
more("C18", H("types.ManyNames", {"names": 60}, {"names": 700}, reach=["named"], bounds="any two characters after a letter as a name, after `names` others", thorough_s=600))
more("C30", H("parse.ReadFaultsLong", {"len": 120}, {"len": 600}, reach=["failed"], bounds="a failure at any character of long tokens, comments and white space", thorough_s=600))
more("C12", H("engine.ManyRecords", {"rows": 40}, {"rows": 100}, reach=["updated", "deleted", "lookup", "range"], bounds="`rows` records, an operation at any place", thorough_s=600))
more("C13", H("engine.ManyDatabases", {"databases": 12}, {"databases": 30}, reach=["dropped"], bounds="`databases` databases with schemas and tables, any one dropped", thorough_s=600))
more("C14", H("engine.ManyTables", {"tables": 24, "per": 6, "cols": 20}, {"tables": 60, "per": 10, "cols": 40}, reach=["opened"], bounds="`tables` tables of up to `cols` columns in schemas of `per`", thorough_s=600))
more("C14", H("engine.FarIds", {"tables": 4}, {"tables": 12}, reach=["far"], bounds="`tables` tables created after any number of tables (up to 32 bits), one rolled back"),
  H("engine.Where", reach=["where"], bounds="any combination of databases and schemas which exist or do not, names of one character"))
for shape, steps, ts in ((0, 2, 2), (3, 1, 2), (4, 1, 1)):
    more("C09", H("store.Handles", {"shape": shape, "rows": 2, "steps": steps}, {"shape": shape, "rows": 2 if shape else 3, "steps": ts}, reach=["changed"],
                  bounds="three handles and a reference from before the first change, then `steps` changes through any of them", thorough_s=600))
more("C15", H("session.Protocol", {"before": 40, "steps": 2}, {"before": 300, "steps": 2}, reach=["done"], bounds="`before` rounds of four statements, then `steps` of any kind", thorough_s=600),
  H("session.Many", {"tables": 40}, {"tables": 90}, reach=["dropped"], bounds="DROP TABLE of `tables` tables, the engine refusing any one"))
more("C17", H("session.Wide", {"cols": 300, "keys": 9}, {"cols": 600, "keys": 40}, reach=["table", "index"], bounds="tables of `cols` columns and indexes, keys of `keys` columns, one of them any or unknown", thorough_s=600))
more("C20", H("parse.LongTokens", reach=["scanned"], bounds="names, strings, numbers and comments of up to a few hundred characters, a symbolic character at any place"))
more("C21", H("parse.LongTokens", reach=["scanned"], bounds="long tokens and comments"))
more("C31", H("parse.LongTokens", reach=["scanned"], bounds="long tokens"),
  H("parse.FarPositions", reach=["rejected"], bounds="errors far down and far right"))
more("C22", H("parse.LongTokens", reach=["scanned"], bounds="long tokens"),
  H("parse.Deep", {"n": 30}, {"n": 100}, reach=["parsed"], bounds="`n` parentheses, prefixes and nested queries", thorough_s=600))
more("C23", H("parse.Deep", {"n": 30}, {"n": 100}, reach=["parsed"], bounds="`n` parentheses, prefixes and nested queries", thorough_s=600),
  H("parse.Chain", {"n": 24}, {"n": 80}, reach=["parsed"], bounds="chains of `n` operators, one of them any", thorough_s=600))
more("C24", H("parse.ManyStatements", {"n": 40}, {"n": 150}, reach=["parsed", "rejected"], bounds="`n` statements, a broken one at any place", thorough_s=600))
def lists(kind, kinds, round=0, what="lists"):
    q = {"n": 40, "kind": kind, "kinds": kinds}
    if round:
        q["round"] = 1
    return H("parse.Lists", q, dict(q, n=120), reach=["printed" if round else "parsed"], bounds=what + " of `n` items, one of them symbolic", thorough_s=600)
far = H("parse.FarErrors", {"n": 150}, {"n": 400}, reach=["rejected", "parsed"], bounds="a repeated name or a row of another length in lists of `n`", thorough_s=600)
more("C25", lists(11, 1, what="columns"), far)
more("C26", lists(0, 8), lists(13, 1), far)
more("C27", lists(8, 3), lists(12, 1, what="options"))
more("C28", lists(0, 8, 1),
  H("parse.Deep", {"n": 30, "round": 1}, {"n": 60, "round": 1}, reach=["printed"], bounds="`n` parentheses, prefixes and nested queries", thorough_s=600),
  H("parse.Chain", {"n": 24, "round": 1}, {"n": 60, "round": 1}, reach=["printed"], bounds="chains of `n` operators", thorough_s=600))
more("C32", lists(8, 3, 1))

uni = H("parse.Unicode", reach=["scanned"], bounds="any one or two characters outside ASCII in strings, quoted names and comments")
more("C20", uni)
more("C21", uni, H("parse.UnicodeBetween", {"limit": 0x110000}, reach=["scanned"], bounds="any character outside ASCII between two names or after SELECT"))
more("C22", H("parse.UnicodeBetween", {"limit": 0x800}, {"limit": 0x110000}, reach=["scanned"], bounds="any character outside ASCII below U+limit, and some others, after SELECT"))
more("C31", uni)
more("C28", H("parse.UnicodePrint", reach=["printed"], bounds="string constants of any one or two characters outside ASCII"))
more("C04", H("types.FloatText", reach=["read", "form", "written"], bounds="texts of up to three digits and other forms of numbers; floats with any one bit changed as text"))
copies = H("parse.Copies", {"copies": 2}, {"copies": 3}, reach=["copied"], bounds="`copies` COPY statements with rows of any character after them, other statements between", thorough_s=600)
more("C24", copies)
more("C30", copies)
more("C31", copies)
more("C12", H("engine.Reuse", reach=["read"], bounds="two records of every kind of pointer and slice, nil or any, written from and read into one variable"))
more("C24", H("parse.Kept", reach=["parsed"], bounds="two statements of any of 23 kinds between or around another, compared again at the end"))
more("C18", H("types.Fold", {"from": 0x1E00, "limit": 0x2200}, reach=["folded"], bounds="a name with any one letter from U+1E00 to U+2200", thorough_s=300))
