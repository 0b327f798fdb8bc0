From 54540cd96e75a6d2e44585f355e100b6417f4e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 01/38] fix: compare integers and floats exactly, and order NaN
 below all numbers

Comparing an integer with a float rounded the integer to a float, so distinct
values compared equal and the order was not transitive; NaN compared equal to
every number. Both disagreed with the order of keys stored in tables.
---
 types/value.go | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/types/value.go b/types/value.go
index 9ebb7fe..2d8cab7 100644
--- a/types/value.go
+++ b/types/value.go
@@ -88,6 +88,30 @@ func (_ Int64Value) order() int {
 	return 2
 }
 
+// compareInt64Float64 compares the exact numeric values; NaN is less than every integer.
+func compareInt64Float64(i Int64Value, f Float64Value) int {
+	if f >= 1<<63 {
+		return -1
+	} else if !(f >= -1<<63) { // Also NaN.
+		return 1
+	}
+
+	n := Int64Value(f)
+	if i < n {
+		return -1
+	} else if i > n {
+		return 1
+	}
+
+	// Only floats with a magnitude less than 2^53 have a fraction.
+	if Float64Value(n) < f {
+		return -1
+	} else if Float64Value(n) > f {
+		return 1
+	}
+	return 0
+}
+
 func (i Int64Value) compare(val Value) int {
 	switch v := val.(type) {
 	case Int64Value:
@@ -98,12 +122,7 @@ func (i Int64Value) compare(val Value) int {
 		}
 		return 0
 	case Float64Value:
-		if Float64Value(i) < v {
-			return -1
-		} else if Float64Value(i) > v {
-			return 1
-		}
-		return 0
+		return compareInt64Float64(i, v)
 	}
 	panic(fmt.Sprintf("unexpected type for value: %T: %v", val, val))
 }
@@ -121,13 +140,17 @@ func (_ Float64Value) order() int {
 func (f Float64Value) compare(val Value) int {
 	switch v := val.(type) {
 	case Int64Value:
-		if f < Float64Value(v) {
+		return -compareInt64Float64(v, f)
+	case Float64Value:
+		if math.IsNaN(float64(f)) {
+			if math.IsNaN(float64(v)) {
+				return 0
+			}
 			return -1
-		} else if f > Float64Value(v) {
+		} else if math.IsNaN(float64(v)) {
 			return 1
 		}
-		return 0
-	case Float64Value:
+
 		if f < v {
 			return -1
 		} else if f > v {
-- 
2.43.0


From 9d855ff4990e49248a7c66a2e55993da5552fc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 02/38] fix: reject floats which do not fit in an integer when
 casting

NaN, infinities and floats outside of the range of 64 bit integers were
converted to an arbitrary integer.
---
 types/value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/value.go b/types/value.go
index 2d8cab7..e3573af 100644
--- a/types/value.go
+++ b/types/value.go
@@ -307,6 +307,9 @@ func CastValue(vt ValueType, val Value) (Value, error) {
 		}
 	case Int64Type:
 		if f, ok := val.(Float64Value); ok {
+			if !(f >= -1<<63 && f < 1<<63) { // Also NaN.
+				return nil, fmt.Errorf("expected an integer: %v: out of range", val)
+			}
 			return Int64Value(f), nil
 		} else if s, ok := val.(StringValue); ok {
 			i, err := strconv.ParseInt(strings.Trim(string(s), " \t\n"), 10, 64)
-- 
2.43.0


From a2949c9b8c86fe1e3bdc916ae1f2de4b85d30a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 03/38] fix: hold the lock while looking up the name of an
 identifier

The names map was read without the lock, which is a data race with another
thread creating an identifier (fatal error: concurrent map read and map write).
---
 types/identifier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/identifier.go b/types/identifier.go
index 9f2c95a..b41e84b 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -320,6 +320,9 @@ func ID(s string, quoted bool) Identifier {
 }
 
 func (id Identifier) String() string {
+	mutex.RLock()
+	defer mutex.RUnlock()
+
 	return names[id]
 }
 
-- 
2.43.0


From bcfc9e486affa5ff5e9aae427d00160d9423d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 04/38] fix: encode every keyword identifier so that it decodes
 to itself

Keywords which are not reserved, such as TEXT, were encoded as if they were
quoted names and so decoded to a different identifier; a table with such a
column could not be opened again.
---
 types/identifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/identifier.go b/types/identifier.go
index b41e84b..43766fa 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -346,7 +346,7 @@ func (id *Identifier) GobDecode(val []byte) error {
 }
 
 func (id Identifier) GobEncode() ([]byte, error) {
-	if id.IsReserved() {
+	if kid, ok := keywords[id.String()]; ok && kid == id {
 		return append([]byte{1}, []byte(id.String())...), nil
 	}
 	return append([]byte{0}, []byte(id.String())...), nil
-- 
2.43.0


From 7551bace2e50f622c89e441552f2ca0e02d3ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 05/38] fix: limit the length of names without splitting a
 character

Cutting a name at 128 bytes could split a character, and changing it to lower
case after cutting it could make it longer than the limit, which then caused a
panic when the name was stored in the catalog.
---
 types/identifier.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/types/identifier.go b/types/identifier.go
index 43766fa..dd47f97 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"strings"
 	"sync"
+	"unicode/utf8"
 )
 
 type Identifier int
@@ -275,6 +276,19 @@ var (
 	mutex          sync.RWMutex
 )
 
+// truncateName limits a name to MaxIdentifier bytes without splitting a character.
+func truncateName(s string) string {
+	if len(s) <= MaxIdentifier {
+		return s
+	}
+
+	n := MaxIdentifier
+	for n > MaxIdentifier-utf8.UTFMax && !utf8.RuneStart(s[n]) {
+		n -= 1
+	}
+	return s[:n]
+}
+
 func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 	if !quoted {
 		if id, ok := keywords[strings.ToUpper(s)]; ok {
@@ -283,6 +297,7 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 
 		s = strings.ToLower(s)
 	}
+	s = truncateName(s)
 
 	if id, ok := identifiers[s]; ok {
 		return id, true
@@ -299,10 +314,6 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 }
 
 func ID(s string, quoted bool) Identifier {
-	if len(s) > MaxIdentifier {
-		s = s[:MaxIdentifier]
-	}
-
 	mutex.RLock()
 	id, ok := lookupID(s, quoted, false)
 	mutex.RUnlock()
-- 
2.43.0


From 2065e5ed05895b365226c45feb5b54c3dc3b30a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 06/38] fix: do not crash when a predicate is evaluated on NULL

Rows with NULL in the column of the predicate do not match.
---
 storage/basic/basic.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 0380e21..ab9f73a 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -348,8 +348,12 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 				return false
 			}
 
-			if predFn != nil && !predFn(it.row[predCol]) {
-				return true
+			if predFn != nil {
+				// NULL never satisfies a predicate.
+				val := it.row[predCol]
+				if val == nil || !predFn(val) {
+					return true
+				}
 			}
 
 			items = append(items, it)
-- 
2.43.0


From 04cf02450371e1045f9e8d421aabada5d385780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 07/38] fix: refuse rows which are missing values for not null
 columns

---
 storage/basic/basic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index ab9f73a..e347d83 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -373,6 +373,13 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 
 	rel := toRelationId(tbl.tid, primaryIndexId)
 	for _, row := range rows {
+		for idx := len(row); idx < len(tbl.tt.ColumnTypes); idx++ {
+			if tbl.tt.ColumnTypes[idx].NotNull {
+				return fmt.Errorf("basic: %s: missing value for not null column: %s",
+					tbl.tt.Name, tbl.tt.ColumnNames[idx])
+			}
+		}
+
 		row, err := types.ConvertRow(tbl.tt.ColumnTypes, row)
 		if err != nil {
 			return err
-- 
2.43.0


From d94f8115099a6f2866df0cbbe3df4fe7c34ac0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 08/38] fix: check an update before changing the row

---
 storage/basic/basic.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index e347d83..b8dea3a 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -451,12 +451,23 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 	}
 	row := append(make([]types.Value, 0, len(it.row)), it.row...)
 	for idx, col := range cols {
-		row[col] = vals[idx]
+		val, err := types.ConvertValue(rr.tbl.tt.ColumnTypes[col], vals[idx])
+		if err != nil {
+			return err
+		}
+		row[col] = val
 	}
 
 	rr.tbl.tx.forWrite()
 
 	if types.ColumnKeyUpdated(rr.tbl.tt.Key, cols) {
+		// Check for a duplicate key before deleting the row, so that it is not lost.
+		nit := rowToItem(toRelationId(rr.tbl.tid, primaryIndexId), rr.tbl.tt.Key, row)
+		if !bytes.Equal(nit.key, rr.key) && rr.tbl.tx.tree.Has(nit) {
+			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
+				rr.tbl.tt.Name, types.Row(row))
+		}
+
 		err := rr.Delete(ctx)
 		if err != nil {
 			return err
-- 
2.43.0


From ab6e05cc69c567115ba9a2cc44722e6485379678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 09/38] fix: delete the rows of a dropped table

---
 storage/basic/basic.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index b8dea3a..dec3a8d 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -220,7 +220,18 @@ func (tx *transaction) DropTable(ctx context.Context, tid storage.TableId) error
 		panic(fmt.Sprintf("basic: unable to delete table type: %d", tid))
 	}
 
-	// XXX: delete all rows in the table
+	var items []item
+	tx.tree.AscendGreaterOrEqual(item{rel: toRelationId(tid, primaryIndexId)},
+		func(it item) bool {
+			if it.rel>>32 != relationId(tid) {
+				return false
+			}
+			items = append(items, it)
+			return true
+		})
+	for _, it := range items {
+		tx.tree.Delete(it)
+	}
 	return nil
 }
 
-- 
2.43.0


From 2f2f1528ace2adbce35b231e843768b05a4d6ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 10/38] fix: read pointer fields of every width from a row

---
 engine/typedtable.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/engine/typedtable.go b/engine/typedtable.go
index e1a429a..fdf24fd 100644
--- a/engine/typedtable.go
+++ b/engine/typedtable.go
@@ -99,8 +99,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetBool(bool(b))
 			} else {
-				b := bool(b)
-				fval.Set(reflect.ValueOf(&b))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetBool(bool(b))
 			}
 		case types.StringType:
 			s, ok := row[cdx].(types.StringValue)
@@ -110,8 +110,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetString(string(s))
 			} else {
-				s := string(s)
-				fval.Set(reflect.ValueOf(&s))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetString(string(s))
 			}
 		case types.BytesType:
 			b, ok := row[cdx].(types.BytesValue)
@@ -127,8 +127,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetFloat(float64(f))
 			} else {
-				f := float64(f)
-				fval.Set(reflect.ValueOf(&f))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetFloat(float64(f))
 			}
 		case types.Int64Type:
 			i, ok := row[cdx].(types.Int64Value)
@@ -138,8 +138,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetInt(int64(i))
 			} else {
-				i := int64(i)
-				fval.Set(reflect.ValueOf(&i))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetInt(int64(i))
 			}
 		default:
 			panic(fmt.Sprintf("typed table: unexpected column type: %#v %d", ct, ct.Type))
-- 
2.43.0


From 98f7a0aa312fdb383eb9d1d22beccf70dc4d6413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 11/38] fix: drop the schemas and tables of a dropped database
 or schema

---
 engine/engine.go | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index 188d1f2..ad50085 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -176,8 +176,34 @@ func (eng *engine) DropDatabase(dn types.Identifier, ifExists bool) error {
 				return fmt.Errorf("engine: database not found: %s", dn)
 			}
 
-			// XXX: delete schemas and tables etc in the database
-			return nil
+			err = TypedTableDelete(ctx, tx, schemasTypedInfo,
+				&schemasRow{
+					Database: dn.String(),
+				}, nil,
+				func(row types.Row) (bool, error) {
+					var sr schemasRow
+					schemasTypedInfo.RowToStruct(row, &sr)
+					if sr.Database != dn.String() {
+						return false, io.EOF
+					}
+					return true, nil
+				})
+			if err != nil {
+				return err
+			}
+
+			return TypedTableDelete(ctx, tx, tablesTypedInfo,
+				&tablesRow{
+					Database: dn.String(),
+				}, nil,
+				func(row types.Row) (bool, error) {
+					var tr tablesRow
+					tablesTypedInfo.RowToStruct(row, &tr)
+					if tr.Database != dn.String() {
+						return false, io.EOF
+					}
+					return true, nil
+				})
 		})
 }
 
@@ -267,8 +293,19 @@ func (tx *transaction) DropSchema(ctx context.Context, sn types.SchemaName, ifEx
 		return fmt.Errorf("engine: schema not found: %s", sn)
 	}
 
-	// XXX: delete tables etc in the schema
-	return nil
+	return TypedTableDelete(ctx, tx.tx, tablesTypedInfo,
+		&tablesRow{
+			Database: sn.Database.String(),
+			Schema:   sn.Schema.String(),
+		}, nil,
+		func(row types.Row) (bool, error) {
+			var tr tablesRow
+			tablesTypedInfo.RowToStruct(row, &tr)
+			if tr.Database != sn.Database.String() || tr.Schema != sn.Schema.String() {
+				return false, io.EOF
+			}
+			return true, nil
+		})
 }
 
 func (tx *transaction) ListSchemas(ctx context.Context, dn types.Identifier) ([]types.Identifier,
-- 
2.43.0


From e953dd2da4fa3cfa639167da543a85eac60036ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 12/38] fix: report an error for typed values which are too
 long instead of crashing

---
 engine/typedtable.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/engine/typedtable.go b/engine/typedtable.go
index fdf24fd..55566be 100644
--- a/engine/typedtable.go
+++ b/engine/typedtable.go
@@ -25,17 +25,9 @@ func fieldToValue(ct types.ColumnType, fval reflect.Value) types.Value {
 	case types.BoolType:
 		return types.BoolValue(fval.Bool())
 	case types.StringType:
-		s := fval.String()
-		if len(s) > int(ct.Size) {
-			panic(fmt.Sprintf("typed table: bad string value: %d: %d", ct.Size, len(s)))
-		}
-		return types.StringValue(s)
+		return types.StringValue(fval.String())
 	case types.BytesType:
-		b := fval.Bytes()
-		if len(b) > int(ct.Size) {
-			panic(fmt.Sprintf("typed table: bad bytes value: %d: %d", ct.Size, len(b)))
-		}
-		return types.BytesValue(slices.Clone(b))
+		return types.BytesValue(slices.Clone(fval.Bytes()))
 	case types.Float64Type:
 		return types.Float64Value(fval.Float())
 	case types.Int64Type:
-- 
2.43.0


From 2cda4047925e70dc93a264cbfa97e1c64ef2209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:27 +0000
Subject: [PATCH 13/38] fix: do not share the bytes of a literal with the token
 buffer

---
 parser/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 36fb80c..47480bb 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -468,7 +468,7 @@ func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 	if r == token.Error {
 		return token.Error
 	}
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = bytes.Clone(s.buffer.Bytes())
 	return token.Bytes
 }
 
@@ -570,6 +570,6 @@ func (s *Scanner) scanHexBytes(sctx *ScanCtx) rune {
 		s.buffer.WriteByte(byte(d1*16 + d2))
 	}
 
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = bytes.Clone(s.buffer.Bytes())
 	return token.Bytes
 }
-- 
2.43.0


From 0ac9bfb1fcc18467eb1b53c73942c50d0b632d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 14/38] fix: reject unicode escapes which are not characters

---
 parser/scanner/scanner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 47480bb..122cc71 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -15,6 +15,7 @@ import (
 var (
 	errMissingQuote     = errors.New(`scanner: missing terminating "'"`)
 	errIncompleteEscape = errors.New("scanner: incomplete escape")
+	errInvalidEscape    = errors.New("scanner: escape is not a character")
 	errZeroParameter    = errors.New("scanner: zero parameter")
 )
 
@@ -426,6 +427,10 @@ func (s *Scanner) scanUnicode(sctx *ScanCtx, digits int) rune {
 		u = u*16 + d
 		digits -= 1
 	}
+	if u > unicode.MaxRune {
+		sctx.Error = errInvalidEscape
+		return token.Error
+	}
 	return rune(u)
 }
 
-- 
2.43.0


From 9f30f2d7cd991ff33923ed527a6dccea389649bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 15/38] fix: scan a minus or slash which is the last character

---
 parser/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 122cc71..6e60507 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -143,7 +143,7 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
+		} else if r2 == token.Error {
 			return r2
 		} else {
 			s.unreadRune()
@@ -165,7 +165,7 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
+		} else if r2 == token.Error {
 			return r2
 		} else {
 			s.unreadRune()
-- 
2.43.0


From 93a3041ba0afc2886aa3e8df94b8aa6f02d5e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 16/38] fix: allow a comment directly after an operator

---
 parser/scanner/scanner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 6e60507..355c0b5 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -223,7 +223,8 @@ SkipWhitespace:
 	} else if token.IsOpRune(r) {
 		s.buffer.WriteRune(r)
 		r2 := s.readRune(sctx)
-		if r2 == '-' || r2 == '+' {
+		if r2 == '-' || r2 == '+' || r2 == '/' {
+			// Not part of any operator, but might start a number or a comment.
 			s.unreadRune()
 			return r
 		} else if token.IsOpRune(r2) {
-- 
2.43.0


From 74e9b790b8c25e3aa10066ae7b4d1a36396e3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 17/38] fix: scan the smallest integer

---
 parser/scanner/scanner.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 355c0b5..7726402 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -327,7 +327,11 @@ func (s *Scanner) scanNumber(sctx *ScanCtx, r rune, sign int64) rune {
 	if dbl {
 		sctx.Float, err = strconv.ParseFloat(s.buffer.String(), 64)
 	} else {
-		sctx.Integer, err = strconv.ParseInt(s.buffer.String(), 10, 64)
+		num := s.buffer.String()
+		if sign < 0 {
+			num = "-" + num
+		}
+		sctx.Integer, err = strconv.ParseInt(num, 10, 64)
 	}
 	if err != nil {
 		sctx.Error = err
@@ -337,7 +341,6 @@ func (s *Scanner) scanNumber(sctx *ScanCtx, r rune, sign int64) rune {
 		sctx.Float *= float64(sign)
 		return token.Float
 	} else {
-		sctx.Integer *= sign
 		return token.Integer
 	}
 }
-- 
2.43.0


From 38f102e6761cb032dab75fcb8e765ae3bac14426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 18/38] fix: reject escapes of surrogates and octal escapes
 above 377

---
 parser/scanner/scanner.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 7726402..96e523d 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/leftmike/maho/parser/token"
 	"github.com/leftmike/maho/types"
@@ -431,7 +432,7 @@ func (s *Scanner) scanUnicode(sctx *ScanCtx, digits int) rune {
 		u = u*16 + d
 		digits -= 1
 	}
-	if u > unicode.MaxRune {
+	if u > unicode.MaxRune || !utf8.ValidRune(rune(u)) {
 		sctx.Error = errInvalidEscape
 		return token.Error
 	}
@@ -450,17 +451,22 @@ func (s *Scanner) scanOctalDigit(sctx *ScanCtx) (byte, bool) {
 }
 
 func (s *Scanner) scanOctal(sctx *ScanCtx, r rune) rune {
-	octal := byte(r - '0')
+	octal := uint(r - '0')
 	d, ok := s.scanOctalDigit(sctx)
 	if !ok {
 		return token.Error
 	}
-	octal = octal*8 + d
+	octal = octal*8 + uint(d)
 	d, ok = s.scanOctalDigit(sctx)
 	if !ok {
 		return token.Error
 	}
-	return rune(octal*8 + d)
+	octal = octal*8 + uint(d)
+	if octal > 255 {
+		sctx.Error = errInvalidEscape
+		return token.Error
+	}
+	return rune(octal)
 }
 
 func (s *Scanner) scanString(sctx *ScanCtx, esc bool) rune {
-- 
2.43.0


From d7b7b4b6d8e0e3f6d9a6b8d29e3f62320897a424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 19/38] fix: hex and octal escapes in a bytes literal are bytes

---
 parser/scanner/scanner.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 96e523d..ada4e45 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -470,7 +470,7 @@ func (s *Scanner) scanOctal(sctx *ScanCtx, r rune) rune {
 }
 
 func (s *Scanner) scanString(sctx *ScanCtx, esc bool) rune {
-	r := s.scanQuotedConstant(sctx, esc)
+	r := s.scanQuotedConstant(sctx, esc, false)
 	if r == token.Error {
 		return token.Error
 	}
@@ -479,7 +479,7 @@ func (s *Scanner) scanString(sctx *ScanCtx, esc bool) rune {
 }
 
 func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
-	r := s.scanQuotedConstant(sctx, esc)
+	r := s.scanQuotedConstant(sctx, esc, true)
 	if r == token.Error {
 		return token.Error
 	}
@@ -487,8 +487,9 @@ func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 	return token.Bytes
 }
 
-func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
+func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc, raw bool) rune {
 	for {
+		var b bool // Hex and octal escapes are a byte of a raw constant.
 		r := s.readRune(sctx)
 		if r == token.EOF {
 			sctx.Error = errMissingQuote
@@ -540,12 +541,14 @@ func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
 				r = 13 // carriage return
 			case 'x':
 				r = s.scanHex(sctx)
+				b = raw
 			case 'u':
 				r = s.scanUnicode(sctx, 4)
 			case 'U':
 				r = s.scanUnicode(sctx, 8)
 			case '0', '1', '2', '3', '4', '5', '6', '7':
 				r = s.scanOctal(sctx, r)
+				b = raw
 			}
 
 			if r == token.EOF {
@@ -555,7 +558,11 @@ func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
 				return token.Error
 			}
 		}
-		s.buffer.WriteRune(r)
+		if b {
+			s.buffer.WriteByte(byte(r))
+		} else {
+			s.buffer.WriteRune(r)
+		}
 	}
 
 	return token.String
-- 
2.43.0


From e5ae1d8462405edf4bf9fb49d8ceced7483fc607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 20/38] fix: report an error when a setting is given NULL
 instead of crashing

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d65da6f..faf5d10 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1668,7 +1668,7 @@ func (p *Parser) parseSet() sql.Stmt {
 	}
 	e := p.parseExpr()
 	l, ok := e.(sql.Literal)
-	if !ok {
+	if !ok || l.Value == nil {
 		p.error(fmt.Sprintf("expected a literal value, got %s", e.String()))
 	}
 	if sv, ok := l.Value.(types.StringValue); ok {
@@ -1846,7 +1846,7 @@ func (p *Parser) parseUse() sql.Stmt {
 
 	e := p.parseExpr()
 	l, ok := e.(sql.Literal)
-	if !ok {
+	if !ok || l.Value == nil {
 		p.error(fmt.Sprintf("expected a literal value, got %s", e.String()))
 	}
 	if sv, ok := l.Value.(types.StringValue); ok {
-- 
2.43.0


From 15fb0b0c7e1633e824879be98bf43d03fff8c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 21/38] fix: an empty statement does not consume the next one

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index faf5d10..3cdbd58 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -245,6 +245,7 @@ func (p *Parser) expectEndOfStatement() {
 
 func (p *Parser) parseStmt() sql.Stmt {
 	if p.maybeToken(token.EndOfStatement) {
+		p.unscan()
 		return nil
 	}
 
-- 
2.43.0


From 1ee3014ad6eeb80a8f5fc9ed461d30a7a3dbbfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 22/38] fix: skip the rest of a statement which starts with a
 bad token

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3cdbd58..fb645ba 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -33,6 +33,7 @@ func NewParser(rr io.RuneReader, fn string) *Parser {
 func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 	t, err := p.scanRune()
 	if err != nil {
+		p.failed = true
 		return nil, err
 	} else if t == token.EOF {
 		return nil, io.EOF
-- 
2.43.0


From 6dfc7420ac0664d4e2e6afa56da99868fb71b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 23/38] fix: report an error for statements which are not
 supported

---
 parser/parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index fb645ba..6fa122f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -257,12 +257,9 @@ func (p *Parser) parseStmt() sql.Stmt {
 		types.COPY,
 		types.CREATE,
 		types.DELETE,
-		types.DETACH,
 		types.DROP,
-		types.EXECUTE,
 		types.EXPLAIN,
 		types.INSERT,
-		types.PREPARE,
 		types.ROLLBACK,
 		types.SELECT,
 		types.SET,
-- 
2.43.0


From 192200a1a58d5747d93715618a109d17557c3ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 24/38] fix: the sign of a number after an operand is an
 operator

---
 parser/parser.go          | 15 +++++++++++++++
 parser/scanner/scanner.go |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 6fa122f..535849e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"io"
+	"math"
 	"runtime"
 	"strconv"
 
@@ -1159,6 +1160,20 @@ func (p *Parser) optionalBinaryOp() (sql.Op, bool, bool) {
 		case types.OR:
 			return sql.OrOp, true, true
 		}
+	} else if p.sctx.Sign != 0 && (r == token.Integer || r == token.Float) {
+		// After an operand, the sign of a number is an operator.
+		op := sql.AddOp
+		if p.sctx.Sign == '-' {
+			if r == token.Integer && p.sctx.Integer == math.MinInt64 {
+				p.error(fmt.Sprintf("expected a binary operator, got %s", p.got()))
+			}
+			op = sql.SubtractOp
+			p.sctx.Integer = -p.sctx.Integer
+			p.sctx.Float = -p.sctx.Float
+		}
+		p.sctx.Sign = 0
+		p.unscan()
+		return op, true, false
 	}
 
 	p.unscan()
diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index ada4e45..0fdabf6 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -34,6 +34,7 @@ type ScanCtx struct {
 	Bytes      []byte
 	Integer    int64
 	Float      float64
+	Sign       rune // Sign directly before an integer or a float, or zero
 	Position
 }
 
@@ -71,6 +72,7 @@ func (s *Scanner) Init(rr io.RuneReader, fn string) {
 func (s *Scanner) Scan(sctx *ScanCtx) {
 	s.buffer.Reset()
 	sctx.Filename = s.filename
+	sctx.Sign = 0
 	sctx.Token = s.scan(sctx)
 }
 
@@ -204,6 +206,7 @@ SkipWhitespace:
 	} else if r == '+' {
 		r = s.readRune(sctx)
 		if unicode.IsDigit(r) {
+			sctx.Sign = '+'
 			return s.scanNumber(sctx, r, 1)
 		}
 		s.unreadRune()
@@ -211,6 +214,7 @@ SkipWhitespace:
 	} else if r == '-' {
 		r = s.readRune(sctx)
 		if unicode.IsDigit(r) {
+			sctx.Sign = '-'
 			return s.scanNumber(sctx, r, -1)
 		}
 		s.unreadRune()
-- 
2.43.0


From 8d9bceeb2f0445e622a74fde31f1c3e0497c9797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 25/38] fix: allow operators after IS NULL, IN and subquery
 comparisons

---
 parser/parser.go | 76 ++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 535849e..e04505b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1254,51 +1254,51 @@ func (p *Parser) parseSubExpr() sql.Expr {
 		p.error(fmt.Sprintf("expected an expression, got %s", p.got()))
 	}
 
-	op, ok, bop := p.optionalBinaryOp()
-	if !ok {
-		if p.optionalReserved(types.IN, types.NOT, types.IS) {
-			switch p.sctx.Identifier {
-			case types.IN:
-				return &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e,
-					Stmt: p.parseSubquery()}
-			case types.NOT:
-				if p.optionalReserved(types.IN) {
-					return &sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: e,
-						Stmt: p.parseSubquery()}
-				}
-				p.unscan()
-			case types.IS:
-				var not bool
-				if p.optionalReserved(types.NOT) {
-					not = true
-				}
-				p.expectReserved(types.NULL)
+	for {
+		op, ok, bop := p.optionalBinaryOp()
+		if ok {
+			if !p.optionalReserved(types.ANY, types.SOME, types.ALL) {
+				return &sql.BinaryExpr{Op: op, Left: e, Right: p.parseSubExpr()}
+			}
 
-				e = &sql.SExpr{Name: types.ID("is_null", false), Args: []sql.Expr{e}}
-				if not {
-					return &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
-				}
-				return e
+			if !bop {
+				p.error("expected boolean binary operator")
 			}
+			var subqueryOp sql.SubqueryOp
+			if p.sctx.Identifier == types.ALL {
+				subqueryOp = sql.All
+			} else {
+				subqueryOp = sql.Any
+			}
+			e = &sql.Subquery{Op: subqueryOp, ExprOp: op, Expr: e, Stmt: p.parseSubquery()}
+			continue
 		}
 
-		return e
-	}
-
-	if p.optionalReserved(types.ANY, types.SOME, types.ALL) {
-		if !bop {
-			p.error("expected boolean binary operator")
+		if !p.optionalReserved(types.IN, types.NOT, types.IS) {
+			return e
 		}
-		var subqueryOp sql.SubqueryOp
-		if p.sctx.Identifier == types.ALL {
-			subqueryOp = sql.All
-		} else {
-			subqueryOp = sql.Any
+
+		switch p.sctx.Identifier {
+		case types.IN:
+			e = &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e,
+				Stmt: p.parseSubquery()}
+		case types.NOT:
+			if !p.optionalReserved(types.IN) {
+				p.unscan()
+				return e
+			}
+			e = &sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: e,
+				Stmt: p.parseSubquery()}
+		case types.IS:
+			not := p.optionalReserved(types.NOT)
+			p.expectReserved(types.NULL)
+
+			e = &sql.SExpr{Name: types.ID("is_null", false), Args: []sql.Expr{e}}
+			if not {
+				e = &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
+			}
 		}
-		return &sql.Subquery{Op: subqueryOp, ExprOp: op, Expr: e, Stmt: p.parseSubquery()}
 	}
-
-	return &sql.BinaryExpr{Op: op, Left: e, Right: p.parseSubExpr()}
 }
 
 func (p *Parser) parseSubquery() sql.Stmt {
-- 
2.43.0


From 29360c844213f7752329ddaebec9af53fd0e2510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 26/38] fix: print queries without FROM and with HAVING alone

---
 parser/sql/query.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index ca2eb8b..11bf3ef 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -260,7 +260,9 @@ func (stmt *Select) String() string {
 			buf.WriteString(sr.String())
 		}
 	}
-	fmt.Fprintf(&buf, " FROM %s", stmt.From)
+	if stmt.From != nil {
+		fmt.Fprintf(&buf, " FROM %s", stmt.From)
+	}
 	if stmt.Where != nil {
 		fmt.Fprintf(&buf, " WHERE %s", stmt.Where)
 	}
@@ -272,9 +274,9 @@ func (stmt *Select) String() string {
 			}
 			buf.WriteString(e.String())
 		}
-		if stmt.Having != nil {
-			buf.WriteString(fmt.Sprintf(" HAVING %s", stmt.Having))
-		}
+	}
+	if stmt.Having != nil {
+		buf.WriteString(fmt.Sprintf(" HAVING %s", stmt.Having))
 	}
 	if stmt.OrderBy != nil {
 		buf.WriteString(" ORDER BY ")
-- 
2.43.0


From 283bf3722f24557d8563c366f5f2c396ccaf2302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 27/38] fix: print DEFAULT in INSERT and UPDATE statements

---
 parser/sql/query.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index 11bf3ef..f9425ac 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -138,7 +138,11 @@ func (stmt *InsertValues) String() string {
 			if j > 0 {
 				buf.WriteString(", ")
 			}
-			buf.WriteString(v.String())
+			if v == nil {
+				buf.WriteString("DEFAULT")
+			} else {
+				buf.WriteString(v.String())
+			}
 		}
 
 		buf.WriteRune(')')
@@ -169,7 +173,11 @@ func (stmt *Update) String() string {
 		if i > 0 {
 			buf.WriteString(", ")
 		}
-		fmt.Fprintf(&buf, "%s = %s", cu.Column, cu.Expr)
+		if cu.Expr == nil {
+			fmt.Fprintf(&buf, "%s = DEFAULT", cu.Column)
+		} else {
+			fmt.Fprintf(&buf, "%s = %s", cu.Column, cu.Expr)
+		}
 	}
 	if stmt.Where != nil {
 		fmt.Fprintf(&buf, " WHERE %s", stmt.Where)
-- 
2.43.0


From d28610f243a9865bda4618e10a171defe64b6658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 28/38] fix: double the quotes in a printed string

---
 types/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/value.go b/types/value.go
index e3573af..1653867 100644
--- a/types/value.go
+++ b/types/value.go
@@ -164,7 +164,7 @@ func (f Float64Value) compare(val Value) int {
 type StringValue string
 
 func (s StringValue) String() string {
-	return fmt.Sprintf("'%s'", string(s)) // XXX
+	return fmt.Sprintf("'%s'", strings.ReplaceAll(string(s), "'", "''"))
 }
 
 func (_ StringValue) order() int {
-- 
2.43.0


From 7c0be996252f44507db5468e4a328eb31f9c907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 29/38] fix: group the operators left of a subquery comparison

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index e04505b..a2f9bc6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1115,6 +1115,10 @@ func adjustPrecedence(e sql.Expr) sql.Expr {
 		for idx, arg := range e.Args {
 			e.Args[idx] = adjustPrecedence(arg)
 		}
+	case *sql.Subquery:
+		if e.Expr != nil {
+			e.Expr = adjustPrecedence(e.Expr)
+		}
 	}
 
 	return e
-- 
2.43.0


From 1da1dc0c92bcdbff3fd1fd46f4f8782a286b759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 30/38] fix: allow several joins without parentheses

---
 parser/parser.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a2f9bc6..868c5f3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1552,6 +1552,10 @@ join-type = [INNER] JOIN
 */
 
 func (p *Parser) parseFromItem() sql.FromItem {
+	return p.parseJoins(p.parseJoinItem())
+}
+
+func (p *Parser) parseJoinItem() sql.FromItem {
 	var fi sql.FromItem
 	if p.maybeToken(token.LParen) {
 		if s, ok := p.optionalSubquery(); ok {
@@ -1564,7 +1568,10 @@ func (p *Parser) parseFromItem() sql.FromItem {
 	} else {
 		fi = p.parseTableAlias()
 	}
+	return fi
+}
 
+func (p *Parser) parseJoins(fi sql.FromItem) sql.FromItem {
 	jt := sql.NoJoin
 	if p.optionalReserved(types.JOIN) {
 		jt = sql.Join
@@ -1592,7 +1599,12 @@ func (p *Parser) parseFromItem() sql.FromItem {
 		return fi
 	}
 
-	fj := sql.FromJoin{Left: fi, Right: p.parseFromItem(), Type: jt}
+	fj := sql.FromJoin{Left: fi, Type: jt}
+	if jt == sql.CrossJoin {
+		fj.Right = p.parseJoinItem()
+	} else {
+		fj.Right = p.parseFromItem()
+	}
 	if p.optionalReserved(types.ON) {
 		fj.On = p.parseExpr()
 	} else if p.optionalReserved(types.USING) {
@@ -1623,7 +1635,7 @@ func (p *Parser) parseFromItem() sql.FromItem {
 		}
 	}
 
-	return fj
+	return p.parseJoins(fj)
 }
 
 func (p *Parser) parseFromList() sql.FromItem {
-- 
2.43.0


From 6068696d0c485d46e96023cbdf814fdcb3d3be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 31/38] fix: print EXPLAIN VERBOSE

---
 parser/sql/stmt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/sql/stmt.go b/parser/sql/stmt.go
index 3cb103a..915a967 100644
--- a/parser/sql/stmt.go
+++ b/parser/sql/stmt.go
@@ -67,6 +67,9 @@ type Explain struct {
 }
 
 func (stmt *Explain) String() string {
+	if stmt.Verbose {
+		return fmt.Sprintf("EXPLAIN VERBOSE %s", stmt.Stmt)
+	}
 	return fmt.Sprintf("EXPLAIN %s", stmt.Stmt)
 }
 
-- 
2.43.0


From ea8aeddde695538c213addae3b9ac45a8b1385ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 32/38] fix: report nothing more after a statement which failed
 last in the text

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index 868c5f3..e51a2a6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -53,6 +53,7 @@ func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 			}
 		}
 		p.failed = false
+		return p.Parse()
 	}
 
 	defer func() {
-- 
2.43.0


From 6ee2665906630e8c0b7fe377a700abf44528fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 33/38] fix: keep a reader error which lookahead ran into

---
 parser/scanner/scanner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 0fdabf6..6b750b9 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -43,6 +43,7 @@ type Scanner struct {
 	rr          io.RuneReader
 	unread      bool
 	read        rune
+	err         error
 	filename    string
 	line        int
 	column      int
@@ -261,6 +262,9 @@ SkipWhitespace:
 func (s *Scanner) readRune(sctx *ScanCtx) rune {
 	if s.unread {
 		s.unread = false
+		if s.read == token.Error {
+			sctx.Error = s.err
+		}
 		return s.read
 	}
 
@@ -270,6 +274,8 @@ func (s *Scanner) readRune(sctx *ScanCtx) rune {
 		s.read = token.EOF
 		return token.EOF
 	} else if err != nil {
+		s.read = token.Error
+		s.err = err
 		sctx.Error = err
 		return token.Error
 	}
-- 
2.43.0


From dd33b78f671b70d90c4b9a267923e4bd9e007a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 34/38] fix: positions of operators, punctuation and the end of
 input

---
 parser/scanner/scanner.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 6b750b9..7c71158 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -119,6 +119,8 @@ SkipWhitespace:
 	r := s.readRune(sctx)
 
 	for {
+		sctx.Column = s.column
+		sctx.Line = s.line
 		if r < 0 {
 			return r
 		}
@@ -176,9 +178,6 @@ SkipWhitespace:
 		}
 	}
 
-	sctx.Column = s.column
-	sctx.Line = s.line
-
 	if r == 'e' || r == 'E' {
 		if s.readRune(sctx) == '\'' {
 			return s.scanString(sctx, true)
-- 
2.43.0


From 7a4f831e45dbb87c7301f3a8fa1c278795616fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 35/38] fix: print the value of SET as a string

---
 parser/sql/stmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/sql/stmt.go b/parser/sql/stmt.go
index 915a967..1f19443 100644
--- a/parser/sql/stmt.go
+++ b/parser/sql/stmt.go
@@ -46,7 +46,7 @@ type Set struct {
 }
 
 func (stmt *Set) String() string {
-	return fmt.Sprintf("SET %s TO %s", stmt.Variable, stmt.Value)
+	return fmt.Sprintf("SET %s TO %s", stmt.Variable, types.StringValue(stmt.Value))
 }
 
 func (_ *Set) Resolve(r Resolver) {}
-- 
2.43.0


From f51bdf7e45ac9e03da5a1ab126bd6353f6562afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 36/38] fix: print the actions of a foreign key

---
 parser/sql/datadef.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/parser/sql/datadef.go b/parser/sql/datadef.go
index aa3aed1..9678092 100644
--- a/parser/sql/datadef.go
+++ b/parser/sql/datadef.go
@@ -106,6 +106,23 @@ const (
 	SetDefault
 )
 
+func (ra RefAction) String() string {
+	switch ra {
+	case NoAction:
+		return "NO ACTION"
+	case Restrict:
+		return "RESTRICT"
+	case Cascade:
+		return "CASCADE"
+	case SetNull:
+		return "SET NULL"
+	case SetDefault:
+		return "SET DEFAULT"
+	default:
+		panic(fmt.Sprintf("unexpected referential action: %d", ra))
+	}
+}
+
 type ForeignKey struct {
 	Name     types.Identifier
 	FKTable  types.TableName
@@ -140,6 +157,12 @@ func (fk ForeignKey) String() string {
 		}
 		buf.WriteRune(')')
 	}
+	if fk.OnDelete != NoAction {
+		fmt.Fprintf(&buf, " ON DELETE %s", fk.OnDelete)
+	}
+	if fk.OnUpdate != NoAction {
+		fmt.Fprintf(&buf, " ON UPDATE %s", fk.OnUpdate)
+	}
 	return buf.String()
 }
 
-- 
2.43.0


From ee95119c571401d95d4e0260b8616df4ee017d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 37/38] fix: print COPY without columns and with a quote as
 delimiter

---
 parser/sql/query.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index f9425ac..a343616 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -69,17 +69,21 @@ type Copy struct {
 
 func (stmt *Copy) String() string {
 	var buf strings.Builder
-	fmt.Fprintf(&buf, "COPY %s (", stmt.Table)
-	for i, col := range stmt.Columns {
-		if i > 0 {
-			buf.WriteString(", ")
+	fmt.Fprintf(&buf, "COPY %s", stmt.Table)
+	if len(stmt.Columns) > 0 {
+		buf.WriteString(" (")
+		for i, col := range stmt.Columns {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
+			buf.WriteString(col.String())
 		}
-		buf.WriteString(col.String())
+		buf.WriteRune(')')
 	}
-	buf.WriteString(") FROM STDIN")
+	buf.WriteString(" FROM STDIN")
 
 	if stmt.Delimiter != '\t' {
-		fmt.Fprintf(&buf, " DELIMITER '%c'", stmt.Delimiter)
+		fmt.Fprintf(&buf, " DELIMITER %s", types.StringValue(stmt.Delimiter))
 	}
 	return buf.String()
 }
-- 
2.43.0


From df022604c841c86e3999b5281ab93e12f4ac28a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:31 +0000
Subject: [PATCH 38/38] fix: report a failure to read the rest of the line
 after COPY

---
 parser/scanner/scanner.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 7c71158..8db15fe 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -78,12 +78,15 @@ func (s *Scanner) Scan(sctx *ScanCtx) {
 }
 
 type runeReader struct {
-	s *Scanner
+	s   *Scanner
+	err error
 }
 
 func (s *Scanner) RuneReader() (io.RuneReader, int) {
+	var err error
 	for {
-		r, _, err := s.rr.ReadRune()
+		var r rune
+		r, _, err = s.rr.ReadRune()
 		if err != nil {
 			break
 		}
@@ -95,11 +98,17 @@ func (s *Scanner) RuneReader() (io.RuneReader, int) {
 	}
 
 	return runeReader{
-		s: s,
+		s:   s,
+		err: err,
 	}, s.line
 }
 
 func (rr runeReader) ReadRune() (rune, int, error) {
+	if rr.err != nil {
+		// The rest of the line before the first row could not be read.
+		return 0, 0, rr.err
+	}
+
 	r, size, err := rr.s.rr.ReadRune()
 	if err != nil {
 		return 0, 0, err
-- 
2.43.0

