package parse

import (
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// constants is a constant of any value.
func constants(nm string) sql.Expr {
	switch choose(nm, 3) {
	case 0:
		return sql.Literal{types.StringValue(ascii(nm+".s", choose(nm+".len", sym.Param("len", 2)+1)))}
	case 1:
		v := sym.Int64(nm + ".v")
		if w := sym.Param("bits", 0); w > 0 {
			sym.Assume(v >= -(1 << w))
			sym.Assume(v < 1<<w)
		}
		return sql.Literal{types.Int64Value(v)}
	}
	switch choose(nm+".c", 4) {
	case 0:
		return sql.Literal{nil}
	case 1:
		return sql.Literal{types.BoolValue(sym.Bool(nm + ".b"))}
	case 2:
		return sql.Literal{types.Int64Value(-1 << 63)}
	}
	return sql.Literal{types.Int64Value(1<<63 - 1)}
}

// Constants: constants of all values, alone and in a query.
func Constants() {
	e := constants("e")
	switch choose("in", sym.Param("in", 6)) {
	case 0:
		againExpr(e)
	case 1:
		againExpr(&sql.BinaryExpr{Op: sql.SubtractOp, Left: ref("qa"), Right: e})
	case 2:
		againExpr(&sql.UnaryExpr{Op: sql.NegateOp, Expr: e})
	case 3:
		againExpr(&sql.SExpr{Name: id("qf"), Args: []sql.Expr{e, e}})
	case 4:
		again(&sql.Values{Expressions: [][]sql.Expr{{e, ref("qa")}, {ref("qa"), e}}})
	default:
		again(&sql.Select{Results: []sql.SelectResult{sql.ExprResult{Expr: e, Alias: id("qa")}}, Where: e})
	}
}

// tree is an expression of nested operators, calls and subqueries.
func tree(nm string, depth int) sql.Expr {
	k := 0
	if depth > 0 {
		k = choose(nm, sym.Param("forms", 9))
	}
	switch k {
	case 0:
		d := digit(nm + ".d")
		return []sql.Expr{ref("q" + nm), sql.Literal{types.Int64Value(d - '0')}, sql.Literal{-types.Int64Value(d - '0')}}[choose(nm+".leaf", sym.Param("leaves", 2))]
	case 1:
		return &sql.UnaryExpr{Op: sql.NotOp, Expr: tree(nm+"n", depth-1)}
	case 2:
		return &sql.UnaryExpr{Op: sql.NegateOp, Expr: tree(nm+"m", depth-1)}
	case 3:
		return &sql.SExpr{Name: id("qf"), Args: []sql.Expr{tree(nm+"a", depth-1)}}
	case 4:
		return &sql.Subquery{Op: sql.Scalar, Stmt: &sql.Select{Results: []sql.SelectResult{sql.ExprResult{Expr: tree(nm+"s", depth-1)}}}}
	case 5:
		return &sql.UnaryExpr{Op: sql.NoOp, Expr: tree(nm+"p", depth-1)}
	case 6:
		return &sql.SExpr{Name: id("is_null"), Args: []sql.Expr{tree(nm+"u", depth-1)}}
	case 7:
		return &sql.Subquery{Op: sql.Exists, Stmt: &sql.Select{Where: tree(nm+"e", depth-1)}}
	}
	b := binops[choose(nm+".op", sym.Param("binops", 8))]
	return &sql.BinaryExpr{Op: b.op, Left: tree(nm+"l", depth-1), Right: tree(nm+"r", depth-1)}
}

// Trees: expressions of any nesting.
func Trees() { againExpr(tree("t", sym.Param("depth", 2))) }
