package props

import (
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// name draws a non-blank name of up to n bytes. The lone asterisk is left out:
// in projections and lookups it stands for all properties.
func name(n int) string {
	s := nd.Str("s", 1, n)
	nd.Assume(strings.TrimSpace(s) != "")
	nd.Assume(s != "*")
	return s
}

const nNamePlaces = 66

// namePlace puts a name at the i-th place.
func namePlace(i int, s string) (cypher.BuildableStatement, string) {
	n := nodeN()
	x := sym("x")
	m := cypher.Match(n)
	v := cypher.AnyNodeNamed(s)
	r := n.RelationshipTo(cypher.AnyNodeNamed("m"), "T").NamedByString(s)
	node := "(" + H + ":`L`)"
	ret := func(e ...expr) cypher.BuildableStatement { return cypher.CypherReturning(e...) }
	switch i {
	case 0:
		return ret(sym(s)), "RETURN " + H
	case 1:
		return cypher.Match(v).ReturningByNamed(v), "MATCH (" + H + ") RETURN " + H
	case 2:
		return cypher.Match(cypher.ANode("L").NamedByString(s)).ReturningByString(s), "MATCH " + node + " RETURN " + H
	case 3:
		return cypher.Match(v).Where(v.Property("p").IsNull().Get()).Returning(v.Property("p")), "MATCH (" + H + ") WHERE " + H + ".p IS NULL RETURN " + H + ".p"
	case 4:
		return cypher.Match(v, v.RelationshipTo(n, "T")).Delete(sym(s)), "MATCH (" + H + "), (" + H + ")-[:`T`]->(n:`L`) DELETE " + H
	case 5:
		return cypher.Match(cypher.ANode(s).NamedByString("n")).Returning(x), "MATCH (n:" + H + ") RETURN x"
	case 6:
		return cypher.Match(cypher.NewNodeWithLabels("L", "M", s).NamedByString("n")).Returning(x), "MATCH (n:`L`:`M`:" + H + ") RETURN x"
	case 7:
		return cypher.Match(n.RelationshipTo(v, s, "T", s)).Returning(x), "MATCH (n:`L`)-[:" + H + "|`T`|" + H + "]->(" + H + ") RETURN x"
	case 8:
		return cypher.Match(r).Returning(r.Property("p"), sym(s)), "MATCH (n:`L`)-[" + H + ":`T`]->(m) RETURN " + H + ".p, " + H
	case 9:
		return cypher.Match(r.RelationshipFrom(v, "T", s).NamedC(s)).DeleteByNamed(r), "MATCH (n:`L`)-[" + H + ":`T`]->(m)<-[" + H + ":`T`|" + H + "]-(" + H + ") DELETE " + H
	case 10:
		return m.Returning(n.Property(s)), "MATCH (n:`L`) RETURN n." + H
	case 11:
		return ret(cypher.AProperty(s, s)), "RETURN " + H + "." + H
	case 12:
		return ret(cypher.APropertyByExpression(x, s)), "RETURN x." + H
	case 13:
		return ret(cypher.MapOf("long", x, s, x)), "RETURN {long: x, " + H + ": x}"
	case 14:
		return cypher.Match(n.WithRawProperties(s, x)).Returning(x), "MATCH (n:`L` {" + H + ": x}) RETURN x"
	case 15:
		return cypher.Create(n.RelationshipTo(cypher.AnyNode(), "T").WithRawProperties(s, x, "long", sym(s))), "CREATE (n:`L`)-[:`T` {" + H + ": x, long: " + H + "}]->()"
	case 16:
		return ret(wrap(x).As(s).Get()), "RETURN x AS " + H
	case 17:
		return m.With(wrap(n.Property("p")).As(s).Get()).Where(sym(s).(cypher.SymbolicName).IsNotNull().Get()).ReturningByString(s), "MATCH (n:`L`) WITH n.p AS " + H + " WHERE " + H + " IS NOT NULL RETURN " + H
	case 18:
		al := cypher.AliasedExpressionCreate(n.Property("p"), s)
		return m.With(al).Returning(al), "MATCH (n:`L`) WITH n.p AS " + H + " RETURN " + H
	case 19:
		return m.Returning(n.As(s)), "MATCH (n:`L`) RETURN n AS " + H
	case 20:
		return cypher.Unwind(x).As(s).ReturningByString(s), "UNWIND x AS " + H + " RETURN " + H
	case 21:
		return m.UnwindByString(s).As(s).Returning(sym(s)), "MATCH (n:`L`) UNWIND " + H + " AS " + H + " RETURN " + H
	case 22:
		return cypher.ACallSimple("f").YieldString("a", s).Returning(sym(s)), "CALL f() YIELD a, " + H + " RETURN " + H
	case 23:
		return cypher.ACallSimple("f").Yield(cypher.AliasedExpressionCreate(sym("a"), s)).Returning(sym(s)), "CALL f() YIELD a AS " + H + " RETURN " + H
	case 24:
		return m.Call1("f").WithArgs(sym(s)).YieldSymbolic(cypher.ASymbolic(s)).ReturningByString(s, "x"), "MATCH (n:`L`) CALL f(" + H + ") YIELD " + H + " RETURN " + H + ", x"
	case 25:
		p := cypher.APath(s).DefinedBy(knows())
		return cypher.Match(p).ReturningByNamed(p), "MATCH " + H + " = " + knowsText + " RETURN " + H
	case 26:
		p := cypher.AShortestPath(s).DefinedBy(knows())
		return cypher.Match(p).Returning(cypher.Nodes(p)), "MATCH " + H + " = shortestPath(" + knowsText + ") RETURN nodes(" + H + ")"
	case 27:
		return ret(cypher.CypherListWith(cypher.ASymbolic(s)).In(x).Where(wrap(sym(s)).IsNull().Get()).Returning(sym(s))), "RETURN [" + H + " IN x WHERE " + H + " IS NULL | " + H + "]"
	case 28:
		return m.Where(cypher.PredicateAll(s).In(x).Where(wrap(sym(s)).IsNull().Get())).Returning(x), "MATCH (n:`L`) WHERE all(" + H + " IN x WHERE " + H + " IS NULL) RETURN x"
	case 29:
		return m.SetByNode(n, "A", s), "MATCH (n:`L`) SET n:`A`:" + H
	case 30:
		return m.RemoveByNode(v, s, "B"), "MATCH (n:`L`) REMOVE " + H + ":" + H + ":`B`"
	case 31:
		return m.Where(v.HasLabels("A", s)).Returning(x), "MATCH (n:`L`) WHERE " + H + ":`A`:" + H + " RETURN x"
	case 32:
		return m.WithByString("a", s).Returning(sym(s)), "MATCH (n:`L`) WITH a, " + H + " RETURN " + H
	case 33:
		return m.WithDistinctByString(s).DeleteByString(s), "MATCH (n:`L`) WITH DISTINCT " + H + " DELETE " + H
	case 34:
		return m.DetachDeleteByString("a", s), "MATCH (n:`L`) DETACH DELETE a, " + H
	case 35:
		return m.ReturningDistinctByString(s), "MATCH (n:`L`) RETURN DISTINCT " + H
	case 36:
		return m.Returning(n.Project(s, "b")), "MATCH (n:`L`) RETURN n{." + H + ", .b}"
	case 37:
		return m.Returning(n.Project("long", x, s, x)), "MATCH (n:`L`) RETURN n{long: x, " + H + ": x}"
	case 38:
		return cypher.Match(v).Returning(v.Project("a")), "MATCH (" + H + ") RETURN " + H + "{.a}"
	case 39:
		return m.Set(n.Property(s).To(sym(s))), "MATCH (n:`L`) SET n." + H + " = " + H
	case 40:
		return m.SetWithNamed(v, x), "MATCH (n:`L`) SET " + H + " = x"
	case 41:
		return m.Remove(n.Property(s), v.Property("a")), "MATCH (n:`L`) REMOVE n." + H + ", " + H + ".a"
	case 42:
		return cypher.Merge(v).OnCreate().Set(v.Property(s).To(x)).OnMatch().SetWithNamed(v, x), "MERGE (" + H + ") ON CREATE SET " + H + "." + H + " = x ON MATCH SET " + H + " = x"
	case 43:
		return cypher.Match(v).Returning(cypher.Count(v), v.Labels(), v.InternalId()), "MATCH (" + H + ") RETURN count(" + H + "), labels(" + H + "), id(" + H + ")"
	case 44:
		return cypher.Match(r).Returning(cypher.FunctionType(r), cypher.StartNode(r), cypher.IdByRelationship(r), cypher.EndNode(r)), "MATCH (n:`L`)-[" + H + ":`T`]->(m) RETURN type(" + H + "), startNode(" + H + "), id(" + H + "), endNode(" + H + ")"
	case 45:
		return m.Returning(cypher.CollectByNamed(v), cypher.CollectDistinctByNamed(v)), "MATCH (n:`L`) RETURN collect(" + H + "), collect(DISTINCT " + H + ")"
	case 46:
		return m.Returning(x).OrderBy(sym(s)).Descending(), "MATCH (n:`L`) RETURN x ORDER BY " + H + " DESC"
	case 47:
		return m.Returning(x).OrderBySortItem(cypher.Sort(n.Property(s)).Ascending()), "MATCH (n:`L`) RETURN x ORDER BY n." + H + " ASC"
	case 48:
		st, _ := cypher.Match(v).ReturningByNamed(v).Build()
		return m.Call(st).ReturningByString(s), "MATCH (n:`L`) CALL {MATCH (" + H + ") RETURN " + H + "} RETURN " + H
	case 49:
		st, _ := cypher.Match(v).ReturningByNamed(v).Build()
		st2, _ := cypher.CypherReturning(wrap(x).As(s).Get()).Build()
		return stmt{cypher.Union(st, st2)}, "MATCH (" + H + ") RETURN " + H + " UNION RETURN x AS " + H
	case 50:
		return cypher.Match(cypher.AnyNodeNamed("o")).Where(cypher.Match(v.RelationshipTo(cypher.AnyNode(), s)).AsCondition()).Returning(x), "MATCH (o) WHERE EXISTS {MATCH (" + H + ")-[:" + H + "]->() } RETURN x"
	case 51:
		return ret(cypher.ListBasedOn(v.RelationshipBetween(n, s)).Returning(v.Property(s))), "RETURN [(" + H + ")-[:" + H + "]-(n:`L`) | " + H + "." + H + "]"
	case 52:
		return m.Where(cypher.PredicateExists(v.Property(s))).Returning(x), "MATCH (n:`L`) WHERE exists(" + H + "." + H + ") RETURN x"
	case 53:
		return ret(cypher.CaseExpression(sym(s)).When(sym(s)).Then(sym(s)).ElseDefault(sym(s))), "RETURN CASE " + H + " WHEN " + H + " THEN " + H + " ELSE " + H + " END"
	case 54:
		return ret(cypher.Coalesce(sym(s), cypher.ListOf(sym(s)), wrap(sym(s)).Add(sym(s)).Get())), "RETURN coalesce(" + H + ", [" + H + "], (" + H + " + " + H + "))"
	case 55:
		return m.Where(cypher.PredicateNone(s).In(sym(s)).Where(wrap(x).IsNull().Get())).Returning(x), "MATCH (n:`L`) WHERE none(" + H + " IN " + H + " WHERE x IS NULL) RETURN x"
	case 56:
		return cypher.Match(v.RelationshipTo(v, "T").RelationshipTo(v, "T")).Returning(x), "MATCH (" + H + ")-[:`T`]->(" + H + ")-[:`T`]->(" + H + ") RETURN x"
	case 57:
		return cypher.Match(cypher.ANode(s).NamedByString(s).WithRawProperties(s, sym(s))).Returning(sym(s)), "MATCH (" + H + ":" + H + " {" + H + ": " + H + "}) RETURN " + H
	case 58:
		return m.WithByNamed(v).OrderByExpression(sym(s)).Ascending().And1(n.Property(s)).Descending().Returning(sym(s)), "MATCH (n:`L`) WITH " + H + " ORDER BY " + H + " ASC, n." + H + " DESC RETURN " + H
	case 59:
		return cypher.WithByString(s).Match(v).ReturningByNamed(v), "WITH " + H + " MATCH (" + H + ") RETURN " + H
	case 60:
		return ret(cypher.MapProjectionCreate(cypher.ASymbolic(s), "a", x)), "RETURN " + H + "{a: x}"
	case 61:
		return m.Returning(n.Project(v.Property(s))), "MATCH (n:`L`) RETURN n{." + H + "}"
	case 62:
		return m.ReturningByNamed(cypher.AnyNodeNamed("a"), v), "MATCH (n:`L`) RETURN a, " + H
	case 63:
		return m.Returning(n.Property("a"), cypher.APropertyByExpression(n.Property(s), s)), "MATCH (n:`L`) RETURN n.a, n." + H + "." + H
	case 64:
		return m.Returning(cypher.Size(sym(s)), cypher.ToLower(n.Property(s)), wrap(sym(s)).IsEqualTo(n.Property(s)).Get()), "MATCH (n:`L`) RETURN size(" + H + "), toLower(n." + H + "), " + H + " = n." + H
	case 65:
		return cypher.Match(cypher.APath(s).DefinedBy(v.RelationshipTo(n))).ReturningByString(s), "MATCH " + H + " = (" + H + ")-->(n:`L`) RETURN " + H
	}
	panic("no such place")
}

// Every place, every name.
func C02_places() {
	i := nd.Choose("place", nNamePlaces)
	n := 2
	if nd.Thorough() {
		n = 3
	}
	s := name(n)
	b, tpl := namePlace(i, s)
	match("denotes", ok(b), tpl, ident(s))
}

// Longer names at the places with their own treatment.
func C02_long() {
	n := 4
	if nd.Thorough() {
		n = 5
	}
	i := nd.Choose("place", 4)
	s := name(n)
	b, tpl := namePlace([]int{0, 5, 7, 20}[i], s)
	match("denotes", ok(b), tpl, ident(s))
}

// param reads a parameter name: an identifier, or plain segments joined by dots.
func param(want string) func(string) int {
	id := ident(want)
	return func(s string) int {
		if n := id(s); n >= 0 {
			return n
		}
		if len(s) < len(want) || s[:len(want)] != want {
			return -1
		}
		start := 0
		for i := 0; i <= len(want); i++ {
			if i < len(want) && want[i] != '.' {
				continue
			}
			if !segment(want[start:i]) {
				return -1
			}
			start = i + 1
		}
		return len(want)
	}
}

// segment reports a plain identifier or number.
func segment(s string) bool {
	if s == "" {
		return false
	}
	if bareLen(s) == len(s) {
		return true
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// Parameters, everywhere.
func C02_parameters() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	s := name(n)
	nd.Assume(s[0] != '$')
	p := cypher.AParam(s)
	k := cypher.AParam("$" + s)
	x := sym("x")
	var b cypher.BuildableStatement
	tpl := ""
	switch nd.Choose("place", 7) {
	case 0:
		b, tpl = cypher.CypherReturning(p, k), "RETURN $"+H+", $"+H
	case 1:
		b, tpl = cypher.Match(nodeN().WithRawProperties("a", p)).Where(wrap(x).IsEqualTo(k).Get()).Returning(x), "MATCH (n:`L` {a: $"+H+"}) WHERE x = $"+H+" RETURN x"
	case 2:
		b, tpl = cypher.ACallSimple("f").WithArgs(p, x, p), "CALL f($"+H+", x, $"+H+")"
	case 3:
		b, tpl = cypher.Unwind(p).As("u").Returning(x), "UNWIND $"+H+" AS u RETURN x"
	case 4:
		b, tpl = cypher.CypherReturning(cypher.PointByParameter(p), cypher.ListOf(p)), "RETURN point($"+H+"), [$"+H+"]"
	case 5:
		b, tpl = cypher.Match(nodeN()).Set(nodeN().Property("p").To(p)), "MATCH (n:`L`) SET n.p = $"+H
	case 6:
		b, tpl = cypher.CypherReturning(cypher.APropertyByExpression(p, "q"), cypher.CypherValueAtByExpression(x, p)), "RETURN $"+H+".q, x[$"+H+"]"
	}
	match("denotes", ok(b), tpl, param(s))
}

// Two names: each place shows its own, in particular nothing is taken for
// something already seen.
func C02_pairs() {
	a := nd.StrOf("a", 1, 2, "a-zA-Z0-9_")
	b := nd.StrOf("b", 1, 2, "a-zA-Z0-9_")
	nd.Assume(a != b)
	na, nb := cypher.ANode(a).NamedByString(a), cypher.ANode(b).NamedByString(b)
	want := []string{a, a, b, b, a, b, a, b, b, a, b, a}
	out := ok(cypher.Match(na, nb, na.RelationshipTo(nb, "T").NamedByString("r")).
		Where(na.Property(b).IsEqualTo(nb.Property(a)).Get()).Returning(nb.Property("p"), na.Property("q")))
	tpl := "MATCH (" + H + ":" + H + "), (" + H + ":" + H + "), (" + H + ")-[r:`T`]->(" + H + ") WHERE " + H + "." + H + " = " + H + "." + H + " RETURN " + H + ".p, " + H + ".q"
	i := 0
	match("denotes", out, tpl, func(s string) int {
		i++
		return ident(want[i-1])(s)
	})
	nd.Check("all", i == len(want))
}
