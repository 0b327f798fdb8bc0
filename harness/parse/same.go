package parse

import (
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// same* compare statements and expressions member by member; with noParens
// set, parentheses (which only group) are looked through.
type same struct{ noParens bool }

func (s same) value(a, b types.Value) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case types.BoolValue:
		b, ok := b.(types.BoolValue)
		return ok && a == b
	case types.Int64Value:
		b, ok := b.(types.Int64Value)
		return ok && a == b
	case types.Float64Value:
		b, ok := b.(types.Float64Value)
		return ok && (a == b || a != a && b != b)
	case types.StringValue:
		b, ok := b.(types.StringValue)
		return ok && sym.StrEq(string(a), string(b))
	case types.BytesValue:
		b, ok := b.(types.BytesValue)
		return ok && sym.BytesEq(a, b)
	}
	return false
}

func (s same) ids(a, b []types.Identifier) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s same) exprs(a, b []sql.Expr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !s.expr(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (s same) bare(e sql.Expr) sql.Expr {
	if l, ok := e.(*sql.Literal); ok {
		return *l
	}
	if u, ok := e.(*sql.UnaryExpr); ok && u.Op == sql.NoOp && s.noParens {
		return s.bare(u.Expr)
	}
	return e
}

func (s same) expr(a, b sql.Expr) bool {
	a, b = s.bare(a), s.bare(b)
	switch a := a.(type) {
	case nil:
		return b == nil
	case sql.Literal:
		b, ok := b.(sql.Literal)
		return ok && s.value(a.Value, b.Value)
	case sql.Ref:
		b, ok := b.(sql.Ref)
		return ok && s.ids(a, b)
	case *sql.SExpr:
		b, ok := b.(*sql.SExpr)
		return ok && a.Name == b.Name && s.exprs(a.Args, b.Args)
	case *sql.UnaryExpr:
		b, ok := b.(*sql.UnaryExpr)
		return ok && a.Op == b.Op && s.expr(a.Expr, b.Expr)
	case *sql.BinaryExpr:
		b, ok := b.(*sql.BinaryExpr)
		return ok && a.Op == b.Op && s.expr(a.Left, b.Left) && s.expr(a.Right, b.Right)
	case *sql.Subquery:
		b, ok := b.(*sql.Subquery)
		return ok && a.Op == b.Op && (a.Expr == nil || a.ExprOp == b.ExprOp) && s.expr(a.Expr, b.Expr) && s.stmt(a.Stmt, b.Stmt)
	}
	return false
}

func (s same) from(a, b sql.FromItem) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case *sql.FromTableAlias:
		b, ok := b.(*sql.FromTableAlias)
		return ok && *a == *b
	case *sql.FromIndexAlias:
		b, ok := b.(*sql.FromIndexAlias)
		return ok && *a == *b
	case sql.FromStmt:
		b, ok := b.(sql.FromStmt)
		return ok && a.Alias == b.Alias && s.ids(a.ColumnAliases, b.ColumnAliases) && s.stmt(a.Stmt, b.Stmt)
	case sql.FromJoin:
		b, ok := b.(sql.FromJoin)
		return ok && a.Type == b.Type && s.ids(a.Using, b.Using) && s.expr(a.On, b.On) && s.from(a.Left, b.Left) && s.from(a.Right, b.Right)
	}
	return false
}

func (s same) key(a, b sql.IndexKey) bool {
	if a.Unique != b.Unique || !s.ids(a.Columns, b.Columns) || len(a.Reverse) != len(b.Reverse) {
		return false
	}
	for i := range a.Reverse {
		if a.Reverse[i] != b.Reverse[i] {
			return false
		}
	}
	return true
}

func (s same) foreign(a, b sql.ForeignKey) bool {
	return a.Name == b.Name && s.ids(a.FKCols, b.FKCols) && a.RefTable == b.RefTable && s.ids(a.RefCols, b.RefCols) &&
		a.OnDelete == b.OnDelete && a.OnUpdate == b.OnUpdate
}

func (s same) options(a, b map[types.Identifier]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func (s same) rows(a, b [][]sql.Expr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !s.exprs(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (s same) stmt(a, b sql.Stmt) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case *sql.Begin:
		_, ok := b.(*sql.Begin)
		return ok
	case *sql.Commit:
		_, ok := b.(*sql.Commit)
		return ok
	case *sql.Rollback:
		_, ok := b.(*sql.Rollback)
		return ok
	case *sql.Set:
		b, ok := b.(*sql.Set)
		return ok && a.Variable == b.Variable && sym.StrEq(a.Value, b.Value)
	case *sql.Show:
		b, ok := b.(*sql.Show)
		return ok && a.Variable == b.Variable
	case *sql.Explain:
		b, ok := b.(*sql.Explain)
		return ok && a.Verbose == b.Verbose && s.stmt(a.Stmt, b.Stmt)
	case *sql.Values:
		b, ok := b.(*sql.Values)
		return ok && s.rows(a.Expressions, b.Expressions)
	case *sql.InsertValues:
		b, ok := b.(*sql.InsertValues)
		return ok && a.Table == b.Table && s.ids(a.Columns, b.Columns) && s.rows(a.Rows, b.Rows)
	case *sql.Delete:
		b, ok := b.(*sql.Delete)
		return ok && a.Table == b.Table && s.expr(a.Where, b.Where)
	case *sql.Update:
		b, ok := b.(*sql.Update)
		if !ok || a.Table != b.Table || len(a.ColumnUpdates) != len(b.ColumnUpdates) || !s.expr(a.Where, b.Where) {
			return false
		}
		for i := range a.ColumnUpdates {
			x, y := a.ColumnUpdates[i], b.ColumnUpdates[i]
			if x.Column != y.Column || !s.expr(x.Expr, y.Expr) {
				return false
			}
		}
		return true
	case *sql.Copy:
		b, ok := b.(*sql.Copy)
		return ok && a.Table == b.Table && s.ids(a.Columns, b.Columns) && a.Delimiter == b.Delimiter
	case *sql.Select:
		b, ok := b.(*sql.Select)
		return ok && s.sel(a, b)
	case *sql.CreateTable:
		b, ok := b.(*sql.CreateTable)
		return ok && s.create(a, b)
	case *sql.CreateIndex:
		b, ok := b.(*sql.CreateIndex)
		return ok && a.Index == b.Index && a.Table == b.Table && a.IfNotExists == b.IfNotExists && s.key(a.Key, b.Key)
	case *sql.CreateDatabase:
		b, ok := b.(*sql.CreateDatabase)
		return ok && a.Database == b.Database && s.options(a.Options, b.Options)
	case *sql.CreateSchema:
		b, ok := b.(*sql.CreateSchema)
		return ok && a.Schema == b.Schema
	case *sql.DropDatabase:
		b, ok := b.(*sql.DropDatabase)
		return ok && a.Database == b.Database && a.IfExists == b.IfExists && s.options(a.Options, b.Options)
	case *sql.DropSchema:
		b, ok := b.(*sql.DropSchema)
		return ok && a.Schema == b.Schema && a.IfExists == b.IfExists
	case *sql.DropIndex:
		b, ok := b.(*sql.DropIndex)
		return ok && *a == *b
	case *sql.DropTable:
		b, ok := b.(*sql.DropTable)
		if !ok || a.IfExists != b.IfExists || a.Cascade != b.Cascade || len(a.Tables) != len(b.Tables) {
			return false
		}
		for i := range a.Tables {
			if a.Tables[i] != b.Tables[i] {
				return false
			}
		}
		return true
	case *sql.AlterTable:
		b, ok := b.(*sql.AlterTable)
		if !ok || a.Table != b.Table || len(a.Actions) != len(b.Actions) {
			return false
		}
		for i := range a.Actions {
			if !s.action(a.Actions[i], b.Actions[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (s same) action(a, b sql.AlterAction) bool {
	switch a := a.(type) {
	case *sql.AddForeignKey:
		b, ok := b.(*sql.AddForeignKey)
		return ok && s.foreign(a.ForeignKey, b.ForeignKey)
	case *sql.DropConstraint:
		b, ok := b.(*sql.DropConstraint)
		return ok && *a == *b
	}
	return false
}

func (s same) sel(a, b *sql.Select) bool {
	if len(a.Results) != len(b.Results) || !s.from(a.From, b.From) || !s.expr(a.Where, b.Where) ||
		!s.exprs(a.GroupBy, b.GroupBy) || !s.expr(a.Having, b.Having) || len(a.OrderBy) != len(b.OrderBy) {
		return false
	}
	for i := range a.Results {
		switch x := a.Results[i].(type) {
		case sql.TableResult:
			y, ok := b.Results[i].(sql.TableResult)
			if !ok || x.Table != y.Table {
				return false
			}
		case sql.ExprResult:
			y, ok := b.Results[i].(sql.ExprResult)
			if !ok || x.Alias != y.Alias || !s.expr(x.Expr, y.Expr) {
				return false
			}
		default:
			return false
		}
	}
	for i := range a.OrderBy {
		if a.OrderBy[i].Reverse != b.OrderBy[i].Reverse || !s.expr(a.OrderBy[i].Expr, b.OrderBy[i].Expr) {
			return false
		}
	}
	return true
}

func (s same) create(a, b *sql.CreateTable) bool {
	if a.Table != b.Table || a.IfNotExists != b.IfNotExists || !s.ids(a.Columns, b.Columns) || len(a.ColumnTypes) != len(b.ColumnTypes) ||
		!s.exprs(a.ColumnDefaults, b.ColumnDefaults) || len(a.Constraints) != len(b.Constraints) || len(a.ForeignKeys) != len(b.ForeignKeys) {
		return false
	}
	for i := range a.ColumnTypes {
		if a.ColumnTypes[i] != b.ColumnTypes[i] {
			return false
		}
	}
	for i := range a.Constraints {
		x, y := a.Constraints[i], b.Constraints[i]
		if x.Type != y.Type || x.Name != y.Name || x.ColNum != y.ColNum || !s.key(x.Key, y.Key) || !s.expr(x.Check, y.Check) {
			return false
		}
	}
	for i := range a.ForeignKeys {
		if !s.foreign(*a.ForeignKeys[i], *b.ForeignKeys[i]) {
			return false
		}
	}
	return true
}
