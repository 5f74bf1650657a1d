package props

import (
	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// H marks, in the expected text of a place, where the text of the part handed
// to that place has to appear.
const H = "\x01"

type (
	expr = cypher.Expression
	cond = cypher.Condition
)

// text builds and renders a statement.
func text(b cypher.BuildableStatement) (string, error) {
	st, err := b.Build()
	if err != nil {
		return "", err
	}
	return cypher.NewRenderer().Render(st)
}

// ok builds and renders a statement that has to be accepted.
func ok(b cypher.BuildableStatement) string {
	out, err := text(b)
	nd.Check("accepted", err == nil)
	nd.Observe("text", out)
	return out
}

// fill replaces every hole of a concrete template.
func fill(tpl, x string) string {
	out := ""
	last := 0
	for i := 0; i < len(tpl); i++ {
		if tpl[i] == H[0] {
			out += tpl[last:i] + x
			last = i + 1
		}
	}
	return out + tpl[last:]
}

func nodeN() cypher.Node                     { return cypher.ANode("L").NamedByString("n") }
func sym(s string) expr                      { return cypher.ASymbolic(s) }
func wrap(e expr) cypher.ExpressionContainer { return cypher.ExpressionWrap(e) }
func knows() cypher.Relationship {
	return nodeN().RelationshipTo(cypher.AnyNodeNamed("m"), "T")
}

const knowsText = "(n:`L`)-[:`T`]->(m)"

// nExprPlaces is the number of places of the API that take an expression.
const nExprPlaces = 72

// exprPlace puts an expression at the i-th place. It gives the outcome and the
// text expected around the expression.
func exprPlace(i int, e expr) (string, error, string) {
	n := nodeN()
	b, tpl := exprPlaceStatement(i, n, e)
	out, err := text(b)
	return out, err, tpl
}

func exprPlaceStatement(i int, n cypher.Node, e expr) (cypher.BuildableStatement, string) {
	x := sym("x")
	m := cypher.Match(n)
	p := n.Property("p")
	switch i {
	case 0:
		return cypher.CypherReturning(e), "RETURN " + H
	case 1:
		return cypher.CypherReturning(x, e), "RETURN x, " + H
	case 2:
		return m.ReturningDistinct(e, x), "MATCH (n:`L`) RETURN DISTINCT " + H + ", x"
	case 3:
		return m.Returning(wrap(e).As("al").Get()), "MATCH (n:`L`) RETURN " + H + " AS al"
	case 4:
		return cypher.With(wrap(e).As("al").Get()).ReturningByString("al"), "WITH " + H + " AS al RETURN al"
	case 5:
		return m.WithDistinct(x, wrap(e).As("al").Get()).ReturningByString("al"), "MATCH (n:`L`) WITH DISTINCT x, " + H + " AS al RETURN al"
	case 6:
		return m.Where(p.IsEqualTo(e).Get()).Returning(x), "MATCH (n:`L`) WHERE n.p = " + H + " RETURN x"
	case 7:
		return m.WhereConditionContainer(wrap(e).Lt(x)).Returning(x), "MATCH (n:`L`) WHERE " + H + " < x RETURN x"
	case 8:
		return m.Returning(x).OrderBy(e), "MATCH (n:`L`) RETURN x ORDER BY " + H
	case 9:
		return m.Returning(x).OrderBy(x).Descending().And(e).Ascending().Skip(1).Limit(2), "MATCH (n:`L`) RETURN x ORDER BY x DESC, " + H + " ASC SKIP 1 LIMIT 2"
	case 10:
		return m.Returning(x).OrderBySortItem(cypher.Sort(e).Descending(), cypher.Sort(x)), "MATCH (n:`L`) RETURN x ORDER BY " + H + " DESC, x"
	case 11:
		return m.WithByNamed(n).OrderByExpression(e).Descending().Limit(3).Returning(x), "MATCH (n:`L`) WITH n ORDER BY " + H + " DESC LIMIT 3 RETURN x"
	case 12:
		return m.WithByNamed(n).OrderBySortItem(wrap(e).Ascending()).Returning(x), "MATCH (n:`L`) WITH n ORDER BY " + H + " ASC RETURN x"
	case 13:
		return m.Set(p.To(e)), "MATCH (n:`L`) SET n.p = " + H
	case 14:
		return m.SetWithNamed(n, e), "MATCH (n:`L`) SET n = " + H
	case 15:
		return m.Delete(e), "MATCH (n:`L`) DELETE " + H
	case 16:
		return m.DetachDelete(x, e), "MATCH (n:`L`) DETACH DELETE x, " + H
	case 17:
		return cypher.Unwind(e).As("u").Returning(x), "UNWIND " + H + " AS u RETURN x"
	case 18:
		return cypher.UnwindMulti(x, e).As("u").Returning(x), "UNWIND [x, " + H + "] AS u RETURN x"
	case 19:
		return m.Unwinds(x, e).As("u").Returning(x), "MATCH (n:`L`) UNWIND [x, " + H + "] AS u RETURN x"
	case 20:
		return cypher.CypherReturning(cypher.ListOf(e, x)), "RETURN [" + H + ", x]"
	case 21:
		return cypher.CypherReturning(cypher.MapOf("k", e, "j", x)), "RETURN {k: " + H + ", j: x}"
	case 22:
		return cypher.Match(n.WithRawProperties("j", x, "k", e)).Returning(x), "MATCH (n:`L` {j: x, k: " + H + "}) RETURN x"
	case 23:
		return cypher.Match(n.RelationshipFrom(cypher.AnyNode()).WithRawProperties("k", e)).Returning(x), "MATCH (n:`L`)<-[ {k: " + H + "}]-() RETURN x"
	case 24:
		return cypher.Create(n.WithProperties(cypher.MapOf("k", e))), "CREATE (n:`L` {k: " + H + "})"
	case 25:
		return cypher.CypherReturning(cypher.ToLower(e)), "RETURN toLower(" + H + ")"
	case 26:
		return cypher.CypherReturning(cypher.Coalesce(x, e, x)), "RETURN coalesce(x, " + H + ", x)"
	case 27:
		return cypher.CypherReturning(cypher.SumDistinct(e)), "RETURN sum(DISTINCT " + H + ")"
	case 28:
		return cypher.CypherReturning(cypher.CaseExpression(e).When(x).Then(x)), "RETURN CASE " + H + " WHEN x THEN x END"
	case 29:
		return cypher.CypherReturning(cypher.CaseExpression(x).When(e).Then(x)), "RETURN CASE x WHEN " + H + " THEN x END"
	case 30:
		return cypher.CypherReturning(cypher.GenericCaseExpression().When(x).Then(e)), "RETURN CASE WHEN x THEN " + H + " END"
	case 31:
		return cypher.CypherReturning(cypher.GenericCaseExpression().When(x).Then(x).ElseDefault(e)), "RETURN CASE WHEN x THEN x ELSE " + H + " END"
	case 32:
		return cypher.CypherReturning(wrap(e).Add(x).Get()), "RETURN (" + H + " + x)"
	case 33:
		return cypher.CypherReturning(wrap(x).Subtract(e).Get()), "RETURN (x - " + H + ")"
	case 34:
		return cypher.CypherReturning(cypher.CypherListWith(cypher.ASymbolic("v")).In(e).ReturningDefault()), "RETURN [v IN " + H + "]"
	case 35:
		return cypher.CypherReturning(cypher.CypherListWith(cypher.ASymbolic("v")).In(x).Returning(e)), "RETURN [v IN x | " + H + "]"
	case 36:
		return cypher.CypherReturning(cypher.CypherListWith(cypher.ASymbolic("v")).In(x).Where(wrap(e).IsNull().Get()).ReturningDefault()), "RETURN [v IN x WHERE " + H + " IS NULL]"
	case 37:
		return cypher.CypherReturning(cypher.ListBasedOn(knows()).Returning(e)), "RETURN [" + knowsText + " | " + H + "]"
	case 38:
		return cypher.CypherReturning(cypher.ASubListFromByExpression(x, e)), "RETURN x[" + H + "..]"
	case 39:
		return cypher.CypherReturning(cypher.CypherSubListUntilByExpression(x, e)), "RETURN x[.." + H + "]"
	case 40:
		return cypher.CypherReturning(cypher.CypherValueAtByExpression(x, e)), "RETURN x[" + H + "]"
	case 41:
		return cypher.CypherReturning(cypher.SubList(x, e, e)), "RETURN x[" + H + ".." + H + "]"
	case 42:
		return m.Returning(n.Project("j", x, "k", e)), "MATCH (n:`L`) RETURN n{j: x, k: " + H + "}"
	case 43:
		return cypher.ACallSimple("db.f").WithArgs(x, e), "CALL db.f(x, " + H + ")"
	case 44:
		return m.Call1("db", "f").WithArgs(e, x).YieldString("y").Returning(x), "MATCH (n:`L`) CALL db.f(" + H + ", x) YIELD y RETURN x"
	case 45:
		return cypher.CypherReturning(cypher.ACallSimple("my.f").WithArgs(e).AsFunction()), "RETURN my.f(" + H + ")"
	case 46:
		return m.Where(cypher.PredicateAll("v").In(e).Where(wrap(x).IsNull().Get())).Returning(x), "MATCH (n:`L`) WHERE all(v IN " + H + " WHERE x IS NULL) RETURN x"
	case 47:
		return cypher.Merge(n).OnCreate().Set(p.To(e)), "MERGE (n:`L`) ON CREATE SET n.p = " + H
	case 48:
		return cypher.Merge(n).OnMatch().Set(p.To(x), n.Property("q").To(e)), "MERGE (n:`L`) ON MATCH SET n.p = x, n.q = " + H
	case 49:
		return cypher.CypherReturning(cypher.RangeWithStep(x, e, x)), "RETURN range(x, " + H + ", x)"
	case 50:
		return m.Where(p.In(e).Get()).Returning(x), "MATCH (n:`L`) WHERE n.p IN " + H + " RETURN x"
	case 51:
		return m.Where(wrap(e).IsNotNull().Get()).Returning(x), "MATCH (n:`L`) WHERE " + H + " IS NOT NULL RETURN x"
	case 52:
		return m.Where(p.StartWiths(e).And(p.EndsWith(e).Get()).Get()).Returning(x), "MATCH (n:`L`) WHERE (n.p STARTS WITH " + H + " AND n.p ENDS WITH " + H + ") RETURN x"
	case 53:
		return m.Where(p.Contains(e).Not().Get()).Returning(x), "MATCH (n:`L`) WHERE NOT (n.p CONTAINS " + H + ") RETURN x"
	case 54:
		return m.Where(p.Matches(e).Get()).Returning(x), "MATCH (n:`L`) WHERE n.p =~ " + H + " RETURN x"
	case 55:
		st, _ := m.Returning(e).Build()
		return cypher.ACallByStatement(st).Returning(x), "CALL {MATCH (n:`L`) RETURN " + H + "} RETURN x"
	case 56:
		st, _ := cypher.CypherReturning(e).Build()
		return m.Call(st).Returning(x), "MATCH (n:`L`) CALL {RETURN " + H + "} RETURN x"
	case 57:
		st, _ := cypher.CypherReturning(x).Build()
		st2, _ := m.Returning(e).Build()
		return stmt{cypher.UnionAll(st, st2)}, "RETURN x UNION ALL MATCH (n:`L`) RETURN " + H
	case 58:
		return cypher.CypherReturning(wrap(e).IsEmpty().Get()), "RETURN size(" + H + ") = 0"
	case 59:
		return cypher.CypherReturning(wrap(x).Concat(e).Get()), "RETURN (x + " + H + ")"
	case 60:
		return cypher.CypherReturning(cypher.Distance(x, e)), "RETURN distance(x, " + H + ")"
	case 61:
		return cypher.CypherReturning(cypher.PercentileCont(e, 0.5)), "RETURN percentileCont(" + H + ", 0.5)"
	case 62:
		return m.Returning(x).OrderBySortItem(cypher.CreateAscendingSortItem(x), cypher.CreateDescendingSortItem(e)).Limit(1), "MATCH (n:`L`) RETURN x ORDER BY x ASC, " + H + " DESC LIMIT 1"
	case 63:
		return cypher.CypherReturning(cypher.DateWithExpression(e), cypher.DurationWithExpression(e)), "RETURN date(" + H + "), duration(" + H + ")"
	case 64:
		return m.Create(cypher.AnyNode().RelationshipTo(n, "T").WithProperties(cypher.MapOf("k", e))), "MATCH (n:`L`) CREATE ()-[:`T` {k: " + H + "}]->(n)"
	case 65:
		return m.Where(cypher.ConditionsNot(p.Gte(e).Get())).Returning(x), "MATCH (n:`L`) WHERE NOT (n.p >= " + H + ") RETURN x"
	case 66:
		return m.Returning(cypher.NewMapExpression("k", e).AddEntries([]expr{cypher.KeyValueMapEntryCreate("j", e)})), "MATCH (n:`L`) RETURN {k: " + H + ", j: " + H + "}"
	case 67:
		return cypher.Create(n).Returning(e).OrderBy(e).Limit(1), "CREATE (n:`L`) RETURN " + H + " ORDER BY " + H + " LIMIT 1"
	case 68:
		return cypher.Create(n).WithDistinct(wrap(e).As("al").Get()).Where(wrap(e).IsNotNull().Get()).Returning(x), "CREATE (n:`L`) WITH DISTINCT " + H + " AS al WHERE al IS NOT NULL RETURN x"
	case 69:
		return m.Where(cypher.PredicateNone("v").In(x).Where(wrap(e).IsEqualTo(x).Get())).Returning(x), "MATCH (n:`L`) WHERE none(v IN x WHERE " + H + " = x) RETURN x"
	case 70:
		return cypher.CypherReturning(cypher.ListBasedOn(knows()).Where(wrap(e).IsNotEqualTo(x).Get()).Returning(x, e)), "RETURN [" + knowsText + " WHERE " + H + " <> x | [x, " + H + "]]"
	case 71:
		return m.Where(wrap(x).Lte(e).And(wrap(x).Gt(e).Get()).Get()).Returning(x), "MATCH (n:`L`) WHERE (x <= " + H + " AND x > " + H + ") RETURN x"
	}
	panic("no such place")
}

// nCondPlaces is the number of places that take a condition.
const nCondPlaces = 23

// condPlace puts a condition at the i-th place.
func condPlace(i int, c cond) (cypher.BuildableStatement, string) {
	n := nodeN()
	x := sym("x")
	a := wrap(sym("a")).IsNull().Get()
	m := cypher.Match(n)
	switch i {
	case 0:
		return m.Where(c).Returning(x), "MATCH (n:`L`) WHERE " + H + " RETURN x"
	case 1:
		return cypher.AnOptionalMatch(n).Where(c).Delete(x), "OPTIONAL MATCH (n:`L`) WHERE " + H + " DELETE x"
	case 2:
		return m.WithByNamed(n).Where(c).Returning(x), "MATCH (n:`L`) WITH n WHERE " + H + " RETURN x"
	case 3:
		return cypher.ACallSimple("f").YieldString("y").Where(c).Returning(x), "CALL f() YIELD y WHERE " + H + " RETURN x"
	case 4:
		return m.Call1("f").WithArgs().YieldString("y").Where(c).Returning(x), "MATCH (n:`L`) CALL f() YIELD y WHERE " + H + " RETURN x"
	case 5:
		return cypher.CypherReturning(cypher.ListBasedOn(knows()).Where(c).Returning(x)), "RETURN [" + knowsText + " WHERE " + H + " | x]"
	case 6:
		return cypher.CypherReturning(cypher.CypherListWith(cypher.ASymbolic("v")).In(x).Where(c).ReturningDefault()), "RETURN [v IN x WHERE " + H + "]"
	case 7:
		return cypher.CypherReturning(cypher.CypherListWith(cypher.ASymbolic("v")).In(x).Where(c).Returning(x)), "RETURN [v IN x WHERE " + H + " | x]"
	case 8:
		return m.Where(cypher.PredicateAny("v").In(x).Where(c)).Returning(x), "MATCH (n:`L`) WHERE any(v IN x WHERE " + H + ") RETURN x"
	case 9:
		return m.Where(a.And(c).Get()).Returning(x), "MATCH (n:`L`) WHERE (a IS NULL AND " + H + ") RETURN x"
	case 10:
		return m.Where(c.Or(a).Get()).Returning(x), "MATCH (n:`L`) WHERE (" + H + " OR a IS NULL) RETURN x"
	case 11:
		return m.Where(a).And(c).Returning(x), "MATCH (n:`L`) WHERE (a IS NULL AND " + H + ") RETURN x"
	case 12:
		return m.Where(a).Or(c).Returning(x), "MATCH (n:`L`) WHERE (a IS NULL OR " + H + ") RETURN x"
	case 13:
		return m.WithByNamed(n).Where(a).And(c).Returning(x), "MATCH (n:`L`) WITH n WHERE (a IS NULL AND " + H + ") RETURN x"
	case 14:
		return m.WithByNamed(n).Where(a).Or(c).Returning(x), "MATCH (n:`L`) WITH n WHERE (a IS NULL OR " + H + ") RETURN x"
	case 15:
		return cypher.CypherReturning(cypher.ListBasedOn(knows()).Where(a).And(c).Returning(x)), "RETURN [" + knowsText + " WHERE (a IS NULL AND " + H + ") | x]"
	case 16:
		return cypher.CypherReturning(cypher.ListBasedOn(knows()).Where(a).Or(c).Returning(x)), "RETURN [" + knowsText + " WHERE (a IS NULL OR " + H + ") | x]"
	case 17:
		return cypher.CypherReturning(cypher.GenericCaseExpression().When(c).Then(x)), "RETURN CASE WHEN " + H + " THEN x END"
	case 18:
		return cypher.ACallSimple("f").YieldString("y").Where(a).And(c).Returning(x), "CALL f() YIELD y WHERE (a IS NULL AND " + H + ") RETURN x"
	case 19:
		return m.Where(a.Xor(c).Get()).Returning(x), "MATCH (n:`L`) WHERE (a IS NULL XOR " + H + ") RETURN x"
	case 20:
		st, _ := m.Where(c).Returning(x).Build()
		return cypher.ACallByStatement(st).Returning(x), "CALL {MATCH (n:`L`) WHERE " + H + " RETURN x} RETURN x"
	case 21:
		return cypher.Merge(n).WithByNamed(n).Where(c).Match(cypher.AnyNodeNamed("o")).Where(a).Set(n.Property("p").To(x)), "MERGE (n:`L`) WITH n WHERE " + H + " MATCH (o) WHERE a IS NULL SET n.p = x"
	case 22:
		return cypher.Match(cypher.AnyNodeNamed("o")).Where(m.Where(c).AsCondition()).Returning(x), "MATCH (o) WHERE EXISTS {MATCH (n:`L`) WHERE " + H + " } RETURN x"
	}
	panic("no such place")
}

func returning(e expr) cypher.Statement {
	st, _ := cypher.CypherReturning(e).Build()
	return st
}

// nPatPlaces is the number of places that take a relationship pattern.
const nPatPlaces = 22

// patPlace puts a relationship pattern at the i-th place.
func patPlace(i int, p cypher.RelationshipPattern) (cypher.BuildableStatement, string) {
	o := cypher.AnyNodeNamed("o")
	x := sym("x")
	a := wrap(sym("a")).IsNull().Get()
	m := cypher.Match(o)
	switch i {
	case 0:
		return cypher.Match(p).Returning(x), "MATCH " + H + " RETURN x"
	case 1:
		return cypher.AnOptionalMatch(o, p).Returning(x), "OPTIONAL MATCH (o), " + H + " RETURN x"
	case 2:
		return cypher.Create(p), "CREATE " + H
	case 3:
		return cypher.Create(o, p).ReturningByString("x"), "CREATE (o), " + H + " RETURN x"
	case 4:
		return cypher.Merge(p), "MERGE " + H
	case 5:
		return m.Merge(p).OnMatch().Set(cypher.AProperty("o", "p").To(x)), "MATCH (o) MERGE " + H + " ON MATCH SET o.p = x"
	case 6:
		return m.WherePattern(p).Returning(x), "MATCH (o) WHERE " + H + " RETURN x"
	case 7:
		return m.Where(a).AndPattern(p).Returning(x), "MATCH (o) WHERE (a IS NULL AND " + H + ") RETURN x"
	case 8:
		return m.Where(a).OrPattern(p).Returning(x), "MATCH (o) WHERE (a IS NULL OR " + H + ") RETURN x"
	case 9:
		return m.Where(a.AndPattern(p).XorPattern(p).Get()).Returning(x), "MATCH (o) WHERE ((a IS NULL AND " + H + ") XOR " + H + ") RETURN x"
	case 10:
		return m.Where(a.OrPattern(p).Get()).Returning(x), "MATCH (o) WHERE (a IS NULL OR " + H + ") RETURN x"
	case 11:
		return m.Where(cypher.ConditionsNotByPattern(p)).Returning(x), "MATCH (o) WHERE NOT " + H + " RETURN x"
	case 12:
		return cypher.Match(cypher.APath("q").DefinedBy(p)).Returning(x), "MATCH q = " + H + " RETURN x"
	case 13:
		return cypher.CypherReturning(cypher.ListBasedOn(p).Returning(x)), "RETURN [" + H + " | x]"
	case 14:
		return cypher.CypherReturning(cypher.ListBasedOn(knows()).WherePattern(p).Returning(x)), "RETURN [" + knowsText + " WHERE " + H + " | x]"
	case 15:
		return cypher.CypherReturning(cypher.SizeByPattern(p)), "RETURN size(" + H + ")"
	case 16:
		return m.Where(cypher.PredicateExistsByPattern(p)).Returning(x), "MATCH (o) WHERE exists(" + H + ") RETURN x"
	case 17:
		return m.Where(cypher.Match(p).AsCondition()).Returning(x), "MATCH (o) WHERE EXISTS {MATCH " + H + " } RETURN x"
	case 18:
		return m.WithByString("o").WherePattern(p).AndPattern(p).Returning(x), "MATCH (o) WITH o WHERE (" + H + " AND " + H + ") RETURN x"
	case 19:
		return m.OptionalMatch(p).Where(a).Create(p), "MATCH (o) OPTIONAL MATCH " + H + " WHERE a IS NULL CREATE " + H
	case 20:
		return cypher.CypherReturning(cypher.ListBasedOnNamed(cypher.APath("q").DefinedBy(p)).Returning(x)), "RETURN [q = " + H + " | x]"
	case 21:
		return cypher.CypherReturning(cypher.ListBasedOn(knows()).Where(a).OrPattern(p).AndPattern(p).Returning(x)), "RETURN [" + knowsText + " WHERE ((a IS NULL OR " + H + ") AND " + H + ") | x]"
	}
	panic("no such place")
}

// stmt makes a statement buildable.
type stmt struct{ s cypher.Statement }

func (s stmt) Build() (cypher.Statement, error) {
	if s.s != nil && s.s.GetError() != nil {
		return nil, s.s.GetError()
	}
	return s.s, nil
}
