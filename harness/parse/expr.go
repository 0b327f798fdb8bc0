package parse

import (
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

type binop struct {
	text string
	op   sql.Op
	prec int
}

// The grouping rules: higher binds tighter.
const (
	precNot    = 3
	precNegate = 9
)

// The first eight have one operator of each precedence.
var binops = []binop{
	{"OR", sql.OrOp, 1},
	{"AND", sql.AndOp, 2},
	{"=", sql.EqualOp, 4},
	{"<", sql.LessThanOp, 5},
	{"&", sql.BinaryAndOp, 6},
	{"-", sql.SubtractOp, 7},
	{"*", sql.MultiplyOp, 8},
	{"||", sql.ConcatOp, 10},
	{"==", sql.EqualOp, 4},
	{"!=", sql.NotEqualOp, 4},
	{"<>", sql.NotEqualOp, 4},
	{"<=", sql.LessEqualOp, 5},
	{">", sql.GreaterThanOp, 5},
	{">=", sql.GreaterEqualOp, 5},
	{"|", sql.BinaryOrOp, 6},
	{"<<", sql.LShiftOp, 6},
	{">>", sql.RShiftOp, 6},
	{"+", sql.AddOp, 7},
	{"/", sql.DivideOp, 8},
	{"%", sql.ModuloOp, 8},
}

// item is one token of an expression in the reference grammar.
type item struct {
	operand sql.Expr // or nil
	prefix  sql.Op   // NotOp or NegateOp
	bin     *binop
	open    bool
	close   bool
}

// reader is the reference parser: precedence climbing.
type reader struct {
	items []item
	pos   int
}

func (r *reader) expr(min int) sql.Expr {
	it := r.items[r.pos]
	r.pos++
	var e sql.Expr
	switch {
	case it.operand != nil:
		e = it.operand
	case it.open:
		e = &sql.UnaryExpr{Op: sql.NoOp, Expr: r.expr(0)}
		r.pos++ // close
	case it.prefix == sql.NotOp:
		e = &sql.UnaryExpr{Op: sql.NotOp, Expr: r.expr(precNot)}
	default:
		e = &sql.UnaryExpr{Op: sql.NegateOp, Expr: r.expr(precNegate)}
	}
	for r.pos < len(r.items) && r.items[r.pos].bin != nil && r.items[r.pos].bin.prec >= min {
		b := r.items[r.pos].bin
		r.pos++
		e = &sql.BinaryExpr{Op: b.op, Left: e, Right: r.expr(b.prec + 1)}
	}
	return e
}

// operand i of an expression, by kind.
func operand(i, kind int) (string, sql.Expr) {
	c := string(rune('a' + i))
	switch kind {
	default:
		return "q" + c, sql.Ref{id("q" + c)}
	case 1:
		d := digit("d" + num(i))
		return string([]byte{d}), sql.Literal{types.Int64Value(d - '0')}
	case 2:
		b := letter("s" + num(i))
		return "'" + string([]byte{b}) + "'", sql.Literal{types.StringValue(string([]byte{b}))}
	case 3:
		t, e := group("q" + c)
		return "qf(q" + c + ", " + t + ")", &sql.SExpr{Name: id("qf"), Args: []sql.Expr{sql.Ref{id("q" + c)}, e}}
	case 4:
		return "qt . q" + c, sql.Ref{id("qt"), id("q" + c)}
	case 5:
		return "TRUE", sql.Literal{types.BoolValue(true)}
	case 6:
		return "(SELECT q" + c + ")", &sql.Subquery{Op: sql.Scalar, Stmt: &sql.Select{Results: []sql.SelectResult{sql.ExprResult{Expr: sql.Ref{id("q" + c)}}}}}
	case 7:
		return "EXISTS (VALUES (1))", &sql.Subquery{Op: sql.Exists, Stmt: &sql.Values{Expressions: [][]sql.Expr{{sql.Literal{types.Int64Value(1)}}}}}
	}
}

// Expr: operators of any kinds, prefix operators and parentheses group by
// precedence.
func Expr() {
	n := sym.Param("ops", 2)
	nb := sym.Param("binops", 8)
	np := sym.Param("prefixes", 1)
	kinds := sym.Param("kinds", 1)
	paren := sym.Param("parens", 0)
	lp, rp := -1, -1
	if paren > 0 && sym.Bool("paren") {
		lp = pick("open", n)
		rp = lp + 1 + pick("close", n)
		sym.Assume(rp <= n)
	}
	var items []item
	text := ""
	for i := 0; i <= n; i++ {
		for j := 0; j < np; j++ {
			switch pick("prefix"+num(i)+num(j), 3) {
			case 1:
				items = append(items, item{prefix: sql.NotOp})
				text += "NOT "
			case 2:
				items = append(items, item{prefix: sql.NegateOp})
				text += "- "
			default:
				j = np
			}
		}
		if i == lp {
			items = append(items, item{open: true})
			text += "("
			if sym.Param("inner", 0) == 1 && sym.Bool("inner") {
				items = append(items, item{prefix: sql.NotOp})
				text += "NOT "
			}
		}
		k := i % 2
		if kinds > 1 {
			k = pick("kind"+num(i), kinds)
		}
		s, e := operand(i, k)
		items = append(items, item{operand: e})
		text += s + " "
		if i == rp {
			items = append(items, item{close: true})
			text += ") "
		}
		if i < n {
			b := pick("op"+num(i), nb)
			for j := 0; j < nb; j++ {
				if b == j {
					items = append(items, item{bin: &binops[j]})
					text += binops[j].text + " "
				}
			}
		}
	}
	e, err := expr(text)
	sym.Reach("parsed")
	sym.Assert(err == nil, "the expression is accepted")
	if err != nil {
		return
	}
	r := reader{items: items}
	want := r.expr(0)
	sym.Assert(same{}.expr(e, want), "grouped by precedence, from the left")
	if sym.Param("round", 0) == 1 {
		againExpr(e)
	}
}

// group is an expression of two operators, decided here.
func group(nm string) (string, sql.Expr) {
	x, y := &binops[pick(nm+".x", 8)], &binops[pick(nm+".y", 8)]
	a, b, c := sql.Ref{id(nm)}, sql.Literal{types.Int64Value(7)}, sql.Ref{id(nm + "2")}
	text := nm + " " + x.text + " 7 " + y.text + " " + nm + "2"
	if y.prec > x.prec {
		return text, &sql.BinaryExpr{Op: x.op, Left: a, Right: &sql.BinaryExpr{Op: y.op, Left: b, Right: c}}
	}
	return text, &sql.BinaryExpr{Op: y.op, Left: &sql.BinaryExpr{Op: x.op, Left: a, Right: b}, Right: c}
}

// Postfix: NULL tests and subquery comparisons apply to the operand before
// them, and AND, OR and NOT combine them.
func Postfix() {
	t, e := group("qa")
	e = &sql.UnaryExpr{Op: sql.NoOp, Expr: e}
	t = "(" + t + ")"
	n := 1 + pick("n", sym.Param("post", 1))
	for i := 0; i < n; i++ {
		sub := &sql.Values{Expressions: [][]sql.Expr{{sql.Literal{types.Int64Value(1)}}}}
		d := digit("d" + num(i))
		sub.Expressions[0][0] = sql.Literal{types.Int64Value(d - '0')}
		s := " (VALUES (" + string([]byte{d}) + "))"
		switch pick("postfix"+num(i), 7) {
		case 0:
			t += " IS NULL"
			e = &sql.SExpr{Name: id("is_null"), Args: []sql.Expr{e}}
		case 1:
			t += " IS NOT NULL"
			e = &sql.UnaryExpr{Op: sql.NotOp, Expr: &sql.SExpr{Name: id("is_null"), Args: []sql.Expr{e}}}
		case 2:
			t += " IN" + s
			e = &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e, Stmt: sub}
		case 3:
			t += " NOT IN" + s
			e = &sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: e, Stmt: sub}
		default:
			k := pick("all"+num(i), 3)
			b := 2 + pick("cmp"+num(i), 2)
			t += " " + binops[b].text + " " + []string{"ANY", "SOME", "ALL"}[k] + s
			e = &sql.Subquery{Op: []sql.SubqueryOp{sql.Any, sql.Any, sql.All}[k], ExprOp: binops[b].op, Expr: e, Stmt: sub}
		}
	}
	if sym.Bool("not") {
		t = "NOT " + t
		e = &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
	}
	switch pick("before", 3) {
	case 1:
		t = "qx AND " + t
		e = &sql.BinaryExpr{Op: sql.AndOp, Left: sql.Ref{id("qx")}, Right: e}
	case 2:
		t = "qx OR " + t
		e = &sql.BinaryExpr{Op: sql.OrOp, Left: sql.Ref{id("qx")}, Right: e}
	}
	if sym.Bool("after") {
		t += " OR qy"
		e = &sql.BinaryExpr{Op: sql.OrOp, Left: e, Right: sql.Ref{id("qy")}}
	}
	got, err := expr(t)
	sym.Reach("parsed")
	sym.Assert(err == nil, "the expression is accepted")
	if err == nil {
		sym.Assert(same{}.expr(got, e), "grouped as written")
		if sym.Param("round", 0) == 1 {
			againExpr(got)
		}
	}
}
