package props

import (
	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// An arg is an expression with its text.
type arg struct {
	e    expr
	t    string
	cond int // 1: a condition, 2: one that is combined from several, -1: an operation without parentheses
}

const nArgs = 35

// argOf gives the i-th kind of expression, told apart by id.
func argOf(i int, id string) arg {
	x, y := sym("x"+id), sym("y"+id)
	a := wrap(sym("a" + id)).IsNull().Get()
	switch i {
	case 0:
		return arg{e: x, t: "x" + id}
	case 1:
		return arg{e: cypher.AProperty("n"+id, "p"+id), t: "n" + id + ".p" + id}
	case 2:
		return arg{e: cypher.LiteralOf("s" + id), t: "'s" + id + "'"}
	case 3:
		return arg{e: cypher.LiteralOf(40 + len(id)), t: itoa(40 + len(id))}
	case 4:
		return arg{e: cypher.AParam("p" + id), t: "$p" + id}
	case 5:
		return arg{e: cypher.ListOf(x, y), t: "[x" + id + ", y" + id + "]"}
	case 6:
		return arg{e: cypher.Coalesce(x, y), t: "coalesce(x" + id + ", y" + id + ")"}
	case 7:
		return arg{e: wrap(x).Subtract(y).Get(), t: "(x" + id + " - y" + id + ")"}
	case 8:
		return arg{wrap(x).IsEqualTo(y).Get(), "x" + id + " = y" + id, 1}
	case 9:
		return arg{e: cypher.MapOf("k"+id, x, "l", y), t: "{k" + id + ": x" + id + ", l: y" + id + "}"}
	case 10:
		return arg{e: cypher.LiteralTrue(), t: "true"}
	case 11:
		return arg{e: cypher.ListOf(), t: "[]"}
	case 12:
		return arg{wrap(x).Lt(y).And(a).Get(), "(x" + id + " < y" + id + " AND a" + id + " IS NULL)", 2}
	case 13:
		return arg{e: cypher.LiteralOf(-3), t: "-3"}
	case 14:
		return arg{e: cypher.CypherListWith(cypher.ASymbolic("v" + id)).In(x).Where(a).Returning(y), t: "[v" + id + " IN x" + id + " WHERE a" + id + " IS NULL | y" + id + "]"}
	case 15:
		return arg{e: cypher.CypherValueAtByExpression(x, y), t: "x" + id + "[y" + id + "]"}
	case 16:
		return arg{e: cypher.AnyNodeNamed("m"+id).Project("k"+id, "l", x), t: "m" + id + "{.k" + id + ", l: x" + id + "}"}
	case 17:
		return arg{wrap(x).IsEqualTo(y).Not().Get(), "NOT (x" + id + " = y" + id + ")", 1}
	case 18:
		return arg{cypher.PredicateExists(cypher.AProperty("n"+id, "p")), "exists(n" + id + ".p)", 1}
	case 19:
		return arg{e: cypher.LiteralOf(0.5), t: "0.5"}
	case 20:
		return arg{e: cypher.CollectDistinct(x), t: "collect(DISTINCT x" + id + ")"}
	case 21:
		return arg{e: cypher.CypherSubListFrom(x, 2), t: "x" + id + "[2..]"}
	case 22:
		return arg{cypher.CaseExpression(x).When(y).Then(x), "CASE x" + id + " WHEN y" + id + " THEN x" + id + " END", 1}
	case 23:
		return arg{e: cypher.ListBasedOn(hop(id)).Returning(x), t: "[" + hopText(id) + " | x" + id + "]"}
	case 24:
		return arg{cypher.AnyNodeNamed("n"+id).HasLabels("A", "B"), "n" + id + ":`A`:`B`", 1}
	case 25:
		return arg{cypher.ConditionsIsTrue(), "true", 1}
	case 26:
		return arg{cypher.ConditionsNotByPattern(hop(id)), "NOT " + hopText(id), 1}
	case 27:
		return arg{cypher.Match(cypher.AnyNodeNamed("n" + id)).Where(a).AsCondition(), "EXISTS {MATCH (n" + id + ") WHERE a" + id + " IS NULL }", 1}
	case 28:
		return arg{e: cypher.LiteralOf(nil), t: "NULL"}
	case 29:
		return arg{e: cypher.ListLiteralCreate([]cypher.Literal{cypher.LiteralOf(1), cypher.LiteralOf("b" + id)}), t: "[1, 'b" + id + "']"}
	case 30:
		return arg{e: cypher.PropertyCreate2(cypher.PropertyCreate2(x, "a"+id), "b"), t: "x" + id + ".a" + id + ".b"}
	case 31:
		return arg{e: wrap(x).Multiply(wrap(y).Add(x).Get()).Get(), t: "(x" + id + " * (y" + id + " + x" + id + "))"}
	case 32:
		return arg{cypher.GenericCaseExpression().When(a).Then(y).ElseDefault(x).(expr), "CASE WHEN a" + id + " IS NULL THEN y" + id + " ELSE x" + id + " END", 1}
	case 34:
		return arg{e: wrap(x).Pow(y).Get(), t: "x" + id + "^y" + id, cond: -1}
	case 33:
		return arg{cypher.PredicateAny("v" + id).In(x).Where(a), "any(v" + id + " IN x" + id + " WHERE a" + id + " IS NULL)", 1}
	}
	panic("no such argument")
}

func hopText(id string) string { return "(s" + id + ")-[:`T" + id + "`]->(t" + id + ")" }

// target is the text of an argument followed by a dot or a bracket.
func (a arg) target() string {
	if a.cond < 0 {
		return "(" + a.t + ")"
	}
	return a.operand()
}

// operand is the text of an argument as the operand of an operator.
func (a arg) operand() string {
	if a.cond > 0 {
		return "(" + a.t + ")"
	}
	return a.t
}
