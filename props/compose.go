package props

import (
	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

const nCompose = 64

// compose wraps an expression into the i-th kind of expression.
func compose(i int, e expr) (expr, string) {
	x := sym("x")
	a := wrap(sym("a")).IsNull().Get()
	vc := func(c cypher.ConditionContainer) expr { return c.Get() }
	switch i {
	case 0:
		return cypher.ListOf(x, e), "[x, " + H + "]"
	case 1:
		return cypher.MapOf("k", e), "{k: " + H + "}"
	case 2:
		return cypher.ToLower(e), "toLower(" + H + ")"
	case 3:
		return cypher.Coalesce(x, e), "coalesce(x, " + H + ")"
	case 4:
		return wrap(e).Add(x).Get(), "(" + H + " + x)"
	case 5:
		return wrap(x).Multiply(e).Get(), "(x * " + H + ")"
	case 6:
		return vc(wrap(e).IsEqualTo(x)), H + " = x"
	case 7:
		return vc(wrap(x).IsNotEqualTo(e)), "x <> " + H
	case 8:
		return vc(wrap(e).Lt(x).And(a)), "(" + H + " < x AND a IS NULL)"
	case 9:
		return vc(cypher.ConditionWrap(a).Or(wrap(x).Gte(e).Get())), "(a IS NULL OR x >= " + H + ")"
	case 10:
		return vc(wrap(e).IsNull().Not()), "NOT (" + H + " IS NULL)"
	case 11:
		return cypher.CaseExpression(e).When(x).Then(x), "CASE " + H + " WHEN x THEN x END"
	case 12:
		return cypher.CaseExpression(x).When(x).Then(e), "CASE x WHEN x THEN " + H + " END"
	case 13:
		return cypher.GenericCaseExpression().When(e).Then(x).When(x).Then(x), "CASE WHEN " + H + " THEN x WHEN x THEN x END"
	case 14:
		return cypher.GenericCaseExpression().When(x).Then(x).ElseDefault(e), "CASE WHEN x THEN x ELSE " + H + " END"
	case 15:
		return cypher.CypherListWith(cypher.ASymbolic("v")).In(e).Returning(x), "[v IN " + H + " | x]"
	case 16:
		return cypher.CypherListWith(cypher.ASymbolic("v")).In(x).Where(a).Returning(e), "[v IN x WHERE a IS NULL | " + H + "]"
	case 17:
		return cypher.CypherListWith(cypher.ASymbolic("v")).In(x).Where(wrap(e).IsNull().Get()).ReturningDefault(), "[v IN x WHERE " + H + " IS NULL]"
	case 18:
		return cypher.ListBasedOn(knows()).Returning(e), "[" + knowsText + " | " + H + "]"
	case 19:
		return cypher.ListBasedOn(knows()).Where(wrap(e).IsNull().Get()).Returning(x), "[" + knowsText + " WHERE " + H + " IS NULL | x]"
	case 20:
		return cypher.ListBasedOn(cypher.AnyNodeNamed("y").WithRawProperties("k", e).RelationshipTo(cypher.AnyNode())).Returning(x), "[(y {k: " + H + "})-->() | x]"
	case 21:
		return cypher.CypherValueAtByExpression(x, e), "x[" + H + "]"
	case 22:
		return cypher.SubList(x, e, x), "x[" + H + "..x]"
	case 23:
		return cypher.SubList(x, x, e), "x[x.." + H + "]"
	case 24:
		return cypher.SubListFrom(x, e), "x[" + H + "..]"
	case 25:
		return cypher.SubListUntil(x, e), "x[.." + H + "]"
	case 26:
		return nodeN().Project("k", e), "n{k: " + H + "}"
	case 27:
		return cypher.MapProjectionCreate(cypher.ASymbolic("y"), "a").And("k", e), "y{.a, k: " + H + "}"
	case 28:
		return cypher.ACallSimple("my.f").WithArgs(x, e).AsFunction(), "my.f(x, " + H + ")"
	case 29:
		return cypher.PredicateAll("v").In(e).Where(a), "all(v IN " + H + " WHERE a IS NULL)"
	case 30:
		return cypher.PredicateSingle("v").In(x).Where(wrap(e).IsNull().Get()), "single(v IN x WHERE " + H + " IS NULL)"
	case 31:
		return cypher.CollectDistinct(e), "collect(DISTINCT " + H + ")"
	case 32:
		return cypher.Sum(e), "sum(" + H + ")"
	case 33:
		return cypher.Range(e, x), "range(" + H + ", x)"
	case 34:
		return cypher.RangeWithStep(x, x, e), "range(x, x, " + H + ")"
	case 35:
		return vc(wrap(e).IsEmpty()), "size(" + H + ") = 0"
	case 36:
		return vc(wrap(x).In(e)), "x IN " + H
	case 37:
		return vc(wrap(x).StartWiths(e)), "x STARTS WITH " + H
	case 38:
		return vc(wrap(x).EndsWith(e)), "x ENDS WITH " + H
	case 39:
		return vc(wrap(x).Contains(e)), "x CONTAINS " + H
	case 40:
		return vc(wrap(x).Matches(e)), "x =~ " + H
	case 41:
		return vc(wrap(e).IsNotNull()), H + " IS NOT NULL"
	case 42:
		return cypher.Distance(e, x), "distance(" + H + ", x)"
	case 43:
		return cypher.Exists(e), "exists(" + H + ")"
	case 44:
		return cypher.Point(cypher.MapOf("x", x, "y", e)), "point({x: x, y: " + H + "})"
	case 45:
		return cypher.DateWithComponents(cypher.MapOf("year", e)), "date({year: " + H + "})"
	case 46:
		return cypher.DateTimeWithExpression(e), "datetime(" + H + ")"
	case 47:
		return cypher.Size(e), "size(" + H + ")"
	case 48:
		return cypher.CountDistinctByExpression(e), "count(DISTINCT " + H + ")"
	case 49:
		return cypher.PercentileDiscDistinct(e, 0.5), "percentileDisc(DISTINCT " + H + ", 0.5)"
	case 50:
		return cypher.Head(e), "head(" + H + ")"
	case 51:
		return cypher.Last(e), "last(" + H + ")"
	case 52:
		return cypher.FunctionInvocationCreateWithFunctionName("my.g", e, e), "my.g(" + H + ", " + H + ")"
	case 53:
		return vc(wrap(x).Lte(e).Xor(wrap(e).Gt(x).Get())), "(x <= " + H + " XOR " + H + " > x)"
	case 54:
		return wrap(wrap(e).Subtract(x).Get()).Divide(wrap(x).Remainder(e).Get()).Get(), "((" + H + " - x) / (x % " + H + "))"
	case 55:
		return wrap(e).Pow(x).Get(), H + "^x"
	case 56:
		return wrap(x).Concat(e).Get(), "(x + " + H + ")"
	case 57:
		return cypher.ListOf(cypher.ListOf(e), cypher.MapOf("k", cypher.ListOf(e))), "[[" + H + "], {k: [" + H + "]}]"
	case 58:
		return cypher.SizeByPattern(cypher.AnyNodeNamed("y").RelationshipTo(cypher.AnyNode().WithRawProperties("k", e), "T")), "size((y)-[:`T`]->( {k: " + H + "}))"
	case 59:
		return cypher.PropertiesByMapExpression(cypher.MapOf("k", e)), "properties({k: " + H + "})"
	case 60:
		return cypher.ConditionsNot(wrap(x).IsEqualTo(e).Get()), "NOT (x = " + H + ")"
	case 61:
		return cypher.PredicateExistsByPattern(cypher.AnyNodeNamed("y").RelationshipFrom(cypher.AnyNode(), "T").WithRawProperties("k", e)), "exists((y)<-[:`T` {k: " + H + "}]-())"
	case 62:
		return cypher.Match(cypher.AnyNodeNamed("y")).Where(wrap(x).IsEqualTo(e).Get()).AsCondition(), "EXISTS {MATCH (y) WHERE x = " + H + " }"
	case 63:
		return cypher.MapOf("j", x).AddEntries([]expr{cypher.KeyValueMapEntryCreate("k", e)}), "{j: x, k: " + H + "}"
	}
	panic("no such expression")
}
