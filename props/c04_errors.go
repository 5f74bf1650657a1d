package props

import (
	"math"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

func refused(b cypher.BuildableStatement) {
	out, err := text(b)
	nd.Observe("text", out)
	nd.Check("refused", err != nil)
	nd.Check("noText", out == "")
}

const nBadExpr = 44

// badExpr is an expression that was refused.
func badExpr(i int) expr {
	x := sym("x")
	bad := cypher.ASymbolic("")
	n := nodeN()
	badNode := cypher.ANode("")
	badRel := n.RelationshipTo(badNode)
	switch i {
	case 0:
		return cypher.LiteralOf(struct{}{})
	case 1:
		return cypher.LiteralOf(math.NaN())
	case 2:
		return bad
	case 3:
		return cypher.AParam("")
	case 4:
		return cypher.MapOf("a")
	case 5:
		return cypher.MapOf(1, x)
	case 6:
		return cypher.MapOf("a", x, "a", x)
	case 7:
		return n.Property("")
	case 8:
		return cypher.AProperty("", "p")
	case 9:
		return cypher.AProperty("n", "")
	case 10:
		return cypher.AnyNode().Property("p")
	case 11:
		return cypher.AliasedExpressionCreate(x, "")
	case 12:
		return cypher.ToLower(nil)
	case 13:
		return cypher.Coalesce()
	case 14:
		return cypher.ListBasedOn(badRel).Returning(x)
	case 15:
		return cypher.CypherListWith(bad).In(x).ReturningDefault()
	case 16:
		return cypher.PredicateAll("").In(x).Where(wrap(x).IsNull().Get())
	case 17:
		return cypher.PercentileCont(x, 1.5)
	case 18:
		return cypher.PercentileDisc(x, -0.1)
	case 19:
		return cypher.Range(nil, x)
	case 20:
		return cypher.DateWithTemporal("")
	case 21:
		return cypher.Nodes(cypher.APath("").DefinedBy(knows()))
	case 22:
		return cypher.FunctionType(n.RelationshipTo(n, "T"))
	case 23:
		return cypher.Labels(cypher.AnyNode())
	case 24:
		return cypher.MapProjectionCreate(cypher.ASymbolic("n"), cypher.LiteralOf(1))
	case 25:
		return cypher.SizeByPattern(badRel)
	case 26:
		return cypher.ASubListFromByExpression(x, nil)
	case 27:
		return cypher.CaseExpression(x)
	case 28:
		return wrap(x).Add(nil).Get()
	case 29:
		return wrap(x).IsEqualTo(nil).Get()
	case 30:
		return cypher.ListOf(x, nil)
	case 31:
		return cypher.ListLiteralCreate([]cypher.Literal{cypher.LiteralOf(1), cypher.LiteralOf(int8(1))})
	case 32:
		return cypher.Point(cypher.MapOf("a"))
	case 33:
		return cypher.CollectByNamed(badNode)
	case 34:
		return cypher.CountDistinct(badNode)
	case 35:
		return cypher.FunctionInvocationCreateWithFunctionName("", x)
	case 36:
		return badNode.HasLabels("A")
	case 37:
		return n.HasLabels("")
	case 38:
		return cypher.ConditionsNotByPattern(badRel)
	case 39:
		return cypher.Match(badNode).AsCondition()
	case 40:
		return cypher.PredicateExists(n.Property(""))
	case 41:
		return cypher.ACallSimple("").AsFunction()
	case 42:
		return cypher.OperationSetLabel(n, "")
	case 43:
		return wrap(bad).As("al").Get()
	}
	panic("no such expression")
}

// A refused expression, at every place.
func C04_expressions() {
	i := nd.Choose("place", nExprPlaces)
	out, err, _ := exprPlace(i, badExpr(nd.Choose("bad", nBadExpr)))
	nd.Observe("text", out)
	nd.Check("refused", err != nil)
	nd.Check("noText", out == "")
}

// A refused expression inside every kind of expression, inside every kind.
func C04_nested() {
	kinds := []int{0, 2, 7, 29}
	e := badExpr(kinds[nd.Choose("bad", len(kinds))])
	e, _ = compose(nd.Choose("inner", nCompose), e)
	places := []int{0, 3, 6, 8, 13, 15, 17, 21, 24, 26, 30, 34, 36, 43, 50, 55, 57}
	if nd.Thorough() {
		e, _ = compose(nd.Choose("outer", nCompose), e)
		places = places[:6]
	}
	out, err, _ := exprPlace(places[nd.Choose("place", len(places))], e)
	nd.Observe("text", out)
	nd.Check("refused", err != nil)
	nd.Check("noText", out == "")
}

// The same expressions without a refused part are accepted and complete.
func C04_accepted() {
	e, t := compose(nd.Choose("inner", nCompose), sym("z"))
	t = fill(t, "z")
	if nd.Thorough() {
		o, ot := compose(nd.Choose("outer", nCompose), sym("z"))
		_ = o
		_ = ot
	}
	places := []int{0, 1, 7, 13, 15, 17, 20, 21, 25, 26, 30, 34, 43, 50, 57}
	out, err, tpl := exprPlace(places[nd.Choose("place", len(places))], e)
	nd.Observe("text", out)
	nd.Check("accepted", err == nil)
	nd.Note("want", fill(tpl, t))
}

const nBadCond = 24

func badCond(i int) cond {
	x := sym("x")
	bad := cypher.ASymbolic("")
	badRel := nodeN().RelationshipTo(cypher.ANode(""), "T")
	a := wrap(sym("a")).IsNull().Get()
	b := wrap(bad).IsNull().Get()
	switch i {
	case 0:
		return wrap(bad).IsEqualTo(x).Get()
	case 1:
		return wrap(x).Lt(bad).Get()
	case 2:
		return b
	case 3:
		return cypher.ConditionsNot(b)
	case 4:
		return a.And(b).Get()
	case 5:
		return b.Or(a).Get()
	case 6:
		return a.Xor(b).Get()
	case 7:
		return a.And(a).Or(b).Get()
	case 8:
		return a.Or(b).And(a).Get()
	case 9:
		return cypher.ConditionWrap(b).Not().Get()
	case 10:
		return cypher.ConditionsNotByPattern(badRel)
	case 11:
		return a.AndPattern(badRel).Get()
	case 12:
		return a.OrPattern(badRel).XorPattern(knows()).Get()
	case 13:
		return nodeN().HasLabels("A", "")
	case 14:
		return cypher.PredicateAny("v").In(bad).Where(a)
	case 15:
		return cypher.PredicateNone("v").In(x).Where(b)
	case 16:
		return cypher.PredicateSingle("").In(x).Where(a)
	case 17:
		return cypher.PredicateExistsByPattern(badRel)
	case 18:
		return cypher.PredicateExists(nodeN().Property(""))
	case 19:
		return cypher.Match(nodeN()).Where(b).AsCondition()
	case 20:
		return cypher.Match(badRel).AsCondition()
	case 21:
		return wrap(x).Matches(cypher.LiteralOf(math.Inf(1))).Get()
	case 22:
		return wrap(bad).IsTrue().Get()
	case 23:
		return wrap(bad).IsEmpty().Get()
	}
	panic("no such condition")
}

// A refused condition, at every place.
func C04_conditions() {
	b, _ := condPlace(nd.Choose("place", nCondPlaces), badCond(nd.Choose("bad", nBadCond)))
	refused(b)
}

const nBadPat = 26

func badPat(i int) cypher.RelationshipPattern {
	n := nodeN()
	m := cypher.AnyNodeNamed("m")
	badNode := cypher.ANode("")
	badMap := cypher.MapOf("a")
	badExp := cypher.ASymbolic("")
	r := n.RelationshipTo(m, "T")
	switch i {
	case 0:
		return n.RelationshipTo(badNode, "T")
	case 1:
		return badNode.RelationshipFrom(n, "T")
	case 2:
		return n.RelationshipBetween(cypher.AnyNodeNamed(""))
	case 3:
		return n.RelationshipTo(badNode)
	case 4:
		return badNode.RelationshipBetween(badNode)
	case 5:
		return r.NamedByString("")
	case 6:
		return r.Named("")
	case 7:
		return r.WithRawProperties("a")
	case 8:
		return r.WithProperties(badMap)
	case 9:
		return r.WithRawProperties("a", badExp)
	case 10:
		return n.RelationshipTo(m.WithRawProperties("a", badExp))
	case 11:
		return n.WithProperties(badMap).RelationshipTo(m)
	case 12:
		return r.RelationshipTo(badNode)
	case 13:
		return r.RelationshipTo(badNode).NamedC("z").RelationshipTo(m)
	case 14:
		return r.RelationshipTo(m).NamedC("")
	case 15:
		return r.RelationshipTo(m).Properties(badMap)
	case 16:
		return r.RelationshipTo(m).PropertiesRaw("a")
	case 17:
		return r.RelationshipTo(m).PropertiesRaw("a", badExp)
	case 18:
		return n.RelationshipTo(badNode).RelationshipTo(m)
	case 19:
		return r.RelationshipFrom(m).RelationshipBetween(badNode).RelationshipTo(m)
	case 20:
		return r.WithRawProperties("a", badExp).NamedByString("r")
	case 21:
		return r.NamedByString("").Unbounded()
	case 22:
		return cypher.NewNodeWithLabels("L", "").RelationshipTo(m)
	case 23:
		return cypher.NewNodeWithProperties("L", badMap).RelationshipTo(m)
	case 24:
		return n.Named(badExp).RelationshipTo(m)
	case 25:
		return n.NamedByString("").RelationshipTo(m).Min(1)
	}
	panic("no such pattern")
}

// A refused pattern, at every place.
func C04_patterns() {
	b, _ := patPlace(nd.Choose("place", nPatPlaces), badPat(nd.Choose("bad", nBadPat)))
	refused(b)
}

// A refused node, as an element of its own.
func C04_nodes() {
	n := []cypher.Node{cypher.ANode(""), cypher.AnyNodeNamed(""), nodeN().WithRawProperties("a"), nodeN().NamedByString(""), cypher.NewNodeWithLabels("A", ""),
		nodeN().WithRawProperties("a", cypher.ASymbolic("")), cypher.NewNodeWithProperties("A", cypher.MapOf("a")), nodeN().WithProperties(cypher.MapOf(1, 2))}[nd.Choose("bad", 8)]
	if nd.Bool("renamed") {
		n = n.NamedByString("z")
	}
	o := cypher.AnyNodeNamed("o")
	x := sym("x")
	p := o.Property("p").To(x)
	bs := []func() cypher.BuildableStatement{
		func() cypher.BuildableStatement { return cypher.Match(n).Returning(x) },
		func() cypher.BuildableStatement { return cypher.Match(o, n).Returning(x) },
		func() cypher.BuildableStatement { return cypher.AnOptionalMatch(n, o).Delete(x) },
		func() cypher.BuildableStatement { return cypher.Create(n) },
		func() cypher.BuildableStatement { return cypher.Create(o, n).Set(p) },
		func() cypher.BuildableStatement { return cypher.Merge(n) },
		func() cypher.BuildableStatement { return cypher.Merge(n).OnCreate().Set(p) },
		func() cypher.BuildableStatement { return cypher.Merge(n).OnMatch().Set(p).Returning(x) },
		func() cypher.BuildableStatement { return cypher.Match(o).Match(n).Set(p) },
		func() cypher.BuildableStatement { return cypher.Match(o).OptionalMatch(n).Returning(x).Limit(1) },
		func() cypher.BuildableStatement { return cypher.Match(o).Create(n).Returning(x) },
		func() cypher.BuildableStatement { return cypher.Match(o).Merge(n) },
		func() cypher.BuildableStatement { return cypher.Match(o).Returning(n.Property("p")) },
		func() cypher.BuildableStatement { return cypher.Match(o).Returning(n.Project("p")) },
		func() cypher.BuildableStatement { return cypher.Match(o).Returning(n.As("z")) },
		func() cypher.BuildableStatement { return cypher.Match(o).ReturningByNamed(n) },
		func() cypher.BuildableStatement { return cypher.Match(o).ReturningDistinctByNamed(o, n) },
		func() cypher.BuildableStatement { return cypher.Match(o).WithByNamed(n).Returning(x) },
		func() cypher.BuildableStatement { return cypher.Match(o).WithDistinctByNamed(n).Returning(x) },
		func() cypher.BuildableStatement { return cypher.Match(o).DeleteByNamed(n) },
		func() cypher.BuildableStatement { return cypher.Match(o).DetachDeleteByNamed(o, n) },
		func() cypher.BuildableStatement { return cypher.Match(o).SetByNode(n, "A") },
		func() cypher.BuildableStatement { return cypher.Match(o).RemoveByNode(n, "A") },
		func() cypher.BuildableStatement { return cypher.Match(o).Remove(n.Property("p")) },
		func() cypher.BuildableStatement { return cypher.Match(o).Set(n.Property("p").To(x)) },
		func() cypher.BuildableStatement { return cypher.Match(o).SetWithNamed(n, x) },
		func() cypher.BuildableStatement { return cypher.Match(o).Where(n.HasLabels("A")).Returning(x) },
		func() cypher.BuildableStatement { return cypher.Match(o).Returning(cypher.Labels(n)) },
		func() cypher.BuildableStatement { return cypher.Match(o).Returning(cypher.Count(n)) },
		func() cypher.BuildableStatement { return cypher.Match(o).Returning(cypher.IdByNode(n), n.InternalId()) },
		func() cypher.BuildableStatement { return cypher.Match(o).Returning(cypher.FunctionProperties(n)) },
		func() cypher.BuildableStatement {
			return cypher.Match(cypher.APath("q").DefinedBy(o.RelationshipTo(n))).Returning(x)
		},
		func() cypher.BuildableStatement {
			return cypher.Match(cypher.AShortestPath("q").DefinedBy(n.RelationshipTo(o))).Returning(x)
		},
		func() cypher.BuildableStatement { return cypher.Merge(o).OnCreate().SetWithNamed(n, x) },
		func() cypher.BuildableStatement {
			return cypher.Match(o).Where(cypher.Match(n).AsCondition()).Returning(x)
		},
		func() cypher.BuildableStatement {
			return cypher.CypherReturning(cypher.CypherListWith(cypher.ASymbolic("v")).In(x).ReturningByNamed(n))
		},
		func() cypher.BuildableStatement {
			return cypher.CypherReturning(cypher.ListBasedOn(knows()).ReturningByNamed(n))
		},
	}
	refused(bs[nd.Choose("place", len(bs))]())
}

// Empty names and labels, empty argument lists, and refused sub-statements, at
// the places that take them directly.
func C04_names() {
	n := nodeN()
	m := cypher.Match(n)
	x := sym("x")
	r := knows()
	good, _ := cypher.CypherReturning(x).Build()
	badSt := cypher.Union(good)
	noRet, _ := cypher.Create(n).Build()
	bs := []func() cypher.BuildableStatement{
		func() cypher.BuildableStatement { return m.ReturningByString("") },
		func() cypher.BuildableStatement { return m.ReturningByString("a", "") },
		func() cypher.BuildableStatement { return m.ReturningDistinctByString("") },
		func() cypher.BuildableStatement { return m.WithByString("").Returning(x) },
		func() cypher.BuildableStatement { return m.WithDistinctByString("a", "").Returning(x) },
		func() cypher.BuildableStatement { return cypher.WithByString("").Returning(x) },
		func() cypher.BuildableStatement { return m.DeleteByString("") },
		func() cypher.BuildableStatement { return m.DetachDeleteByString("a", "") },
		func() cypher.BuildableStatement { return m.UnwindByString("").As("u").Returning(x) },
		func() cypher.BuildableStatement { return m.Unwind(x).As("").Returning(x) },
		func() cypher.BuildableStatement { return cypher.Unwind(x).As("").Returning(x) },
		func() cypher.BuildableStatement { return m.SetByNode(n, "") },
		func() cypher.BuildableStatement { return m.SetByNode(n, "A", "") },
		func() cypher.BuildableStatement { return m.RemoveByNode(n, "A", "") },
		func() cypher.BuildableStatement { return cypher.ACallSimple("f").YieldString("") },
		func() cypher.BuildableStatement { return cypher.ACallSimple("f").YieldString("a", "").Returning(x) },
		func() cypher.BuildableStatement {
			return cypher.ACallSimple("f").YieldSymbolic(cypher.ASymbolic("")).Returning(x)
		},
		func() cypher.BuildableStatement {
			return cypher.ACallSimple("f").Yield(cypher.AliasedExpressionCreate(x, "")).Returning(x)
		},
		func() cypher.BuildableStatement { return m.Call1("f").WithArgs().YieldString("").Returning(x) },
		func() cypher.BuildableStatement {
			return m.Call1("f").WithArgs().Yield(cypher.AliasedExpressionCreate(x, "")).Returning(x)
		},
		func() cypher.BuildableStatement { return cypher.ACallSimple("") },
		func() cypher.BuildableStatement { return cypher.ACall("a", "") },
		func() cypher.BuildableStatement { return m.Call1("").WithArgs().YieldString("a").Returning(x) },
		func() cypher.BuildableStatement { return m.Call1("a", "").YieldString("a").Returning(x) },
		func() cypher.BuildableStatement { return cypher.ACall() },
		func() cypher.BuildableStatement { return m.Returning(n.As("")) },
		func() cypher.BuildableStatement { return m.Returning(wrap(x).As("").Get()) },
		func() cypher.BuildableStatement { return m.With(wrap(x).As("").Get()).Returning(x) },
		func() cypher.BuildableStatement { return m.Returning(n.Project("")) },
		func() cypher.BuildableStatement { return m.Returning(n.Project("a", x, "b", cypher.ASymbolic(""))) },
		func() cypher.BuildableStatement { return m.Returning(n.Project("a").And("")) },
		func() cypher.BuildableStatement { return m.Returning(r.Property("p")) },
		func() cypher.BuildableStatement { return m.Returning(r.NamedByString("r").Property("")) },
		func() cypher.BuildableStatement { return m.Returning(r.NamedByString("r").Project("a", badExpr(2))) },
		func() cypher.BuildableStatement { return cypher.Match(cypher.APath("").DefinedBy(r)).Returning(x) },
		func() cypher.BuildableStatement {
			return cypher.Match(cypher.APathBySymbolic(cypher.ASymbolic("")).DefinedBy(r)).Returning(x)
		},
		func() cypher.BuildableStatement {
			return cypher.Match(cypher.AShortestPath("").DefinedBy(r)).Returning(x)
		},
		func() cypher.BuildableStatement {
			return cypher.Match(cypher.AShortestPathBySymbolic(cypher.ASymbolic("")).DefinedBy(r)).Returning(x)
		},
		func() cypher.BuildableStatement {
			return m.Returning(x).OrderBySortItem(cypher.SortItemCreate(badExpr(2), ""))
		},
		func() cypher.BuildableStatement {
			return m.Returning(x).OrderBySortItem(cypher.Sort(x), cypher.Sort(badExpr(0)).Descending())
		},
		func() cypher.BuildableStatement { return m.Returning(x).OrderBy(x).Descending().And(badExpr(2)) },
		func() cypher.BuildableStatement {
			return m.WithByNamed(n).OrderBySortItem(cypher.Sort(badExpr(2))).Returning(x)
		},
		func() cypher.BuildableStatement {
			return m.WithByNamed(n).OrderByExpression(x).Ascending().And1(badExpr(2)).Descending().Returning(x)
		},
		func() cypher.BuildableStatement { return m.Returning(x).Limit(0) },
		func() cypher.BuildableStatement { return m.WithByNamed(n).Limit(0).Returning(x) },
		func() cypher.BuildableStatement { return m.Create(n).Returning(x).OrderBy(badExpr(2)).Skip(1) },
		func() cypher.BuildableStatement { return stmt{badSt} },
		func() cypher.BuildableStatement { return stmt{cypher.Union(good, badSt)} },
		func() cypher.BuildableStatement { return stmt{cypher.UnionAll(badSt, good)} },
		func() cypher.BuildableStatement { return stmt{cypher.Union(cypher.UnionAll(good, good), good)} },
		func() cypher.BuildableStatement { return cypher.ACallByStatement(badSt).Returning(x) },
		func() cypher.BuildableStatement { return m.Call(badSt).Returning(x) },
		func() cypher.BuildableStatement { return m.WithByNamed(n).Call(badSt).Returning(x) },
		func() cypher.BuildableStatement {
			return cypher.ACallSimple("f").YieldString("a").Call(badSt).Returning(x)
		},
		func() cypher.BuildableStatement {
			return m.Call1("f").WithArgs().YieldString("a").Call(badSt).Returning(x)
		},
		func() cypher.BuildableStatement { return cypher.ACallByStatement(noRet).Returning(x) },
		func() cypher.BuildableStatement { return m.Call(good).Where(wrap(x).IsNull().Get()).Returning(x) },
		func() cypher.BuildableStatement { return cypher.Merge(n).OnCreate().Set(n.Property("").To(x)) },
		func() cypher.BuildableStatement {
			return cypher.Merge(n).OnMatch().Set(n.Property("p").To(badExpr(2))).OnCreate().Set(n.Property("p").To(x))
		},
		func() cypher.BuildableStatement {
			return cypher.Merge(n).OnMatch().Set(n.Property("p").To(x)).OnCreate().SetWithNamed(n, badExpr(0)).Returning(x)
		},
		func() cypher.BuildableStatement {
			return m.Set(n.Property("p").To(x)).Set(n.Property("p").To(badExpr(3))).Returning(x)
		},
		func() cypher.BuildableStatement {
			return m.Set(n.Property("p").To(badExpr(3))).Set(n.Property("p").To(x))
		},
		func() cypher.BuildableStatement { return m.Delete(badExpr(3)).Delete(x) },
		func() cypher.BuildableStatement { return m.Remove(n.Property("p"), n.Property("")) },
		func() cypher.BuildableStatement { return m.Remove(n.Property("")).Delete(x) },
		func() cypher.BuildableStatement { return m.SetByNode(n, "").RemoveByNode(n, "A").Returning(x) },
		func() cypher.BuildableStatement {
			return cypher.CypherReturning(cypher.CompoundConditionCreate(wrap(x).IsNull().Get(), cypher.EQUALITY, wrap(x).IsNull().Get()))
		},
		func() cypher.BuildableStatement { return cypher.Match().Returning(x) },
		func() cypher.BuildableStatement { return cypher.Create() },
		func() cypher.BuildableStatement { return cypher.Merge() },
		func() cypher.BuildableStatement { return m.Create().Returning(x) },
	}
	refused(bs[nd.Choose("place", len(bs))]())
}

// An early refused part is not forgotten by the clauses that follow.
func C04_later() {
	n := nodeN()
	x := sym("x")
	bad := badExpr(2)
	p := n.Property("p").To(x)
	var m cypher.OngoingReadingWithWhere
	ok := wrap(x).IsNull().Get()
	switch nd.Choose("where", 8) {
	case 0:
		m = cypher.Match(cypher.ANode("")).Where(ok)
	case 1:
		m = cypher.Match(n).Where(wrap(bad).IsNull().Get())
	case 2:
		m = cypher.Match(n).Where(ok).And(wrap(bad).IsNull().Get())
	case 3:
		m = cypher.Match(n).WithByString("").Match(n).Where(ok)
	case 4:
		m = cypher.Unwind(bad).As("u").With(x).Match(n).Where(ok)
	case 5:
		m = cypher.Create(cypher.ANode("")).WithByNamed(n).Match(n).Where(ok)
	case 6:
		m = cypher.Match(n).Set(n.Property("p").To(bad)).With(x).OptionalMatch(n).Where(ok)
	case 7:
		m = cypher.Match(n).WithByNamed(n).OrderByExpression(bad).Descending().Match(n).Where(ok)
	}
	good := returning(x)
	bs := []func() cypher.BuildableStatement{
		func() cypher.BuildableStatement { return m.Returning(x) },
		func() cypher.BuildableStatement { return m.ReturningDistinct(x).OrderBy(x).Skip(1).Limit(2) },
		func() cypher.BuildableStatement { return m.Or(ok).Set(p) },
		func() cypher.BuildableStatement { return m.Match(n).Delete(x) },
		func() cypher.BuildableStatement { return m.OptionalMatch(n).Where(ok).DetachDelete(x) },
		func() cypher.BuildableStatement { return m.Create(n) },
		func() cypher.BuildableStatement { return m.Create(n).Set(p).With(x).Returning(x) },
		func() cypher.BuildableStatement { return m.Merge(n).OnCreate().Set(p) },
		func() cypher.BuildableStatement { return m.Merge(n).OnCreate().Set(p).OnMatch().Set(p).Returning(x) },
		func() cypher.BuildableStatement { return m.With(x).Returning(x) },
		func() cypher.BuildableStatement { return m.WithDistinct(x).Where(ok).Limit(2).Returning(x).Limit(3) },
		func() cypher.BuildableStatement { return m.With(x).With(x).Where(ok).Set(p) },
		func() cypher.BuildableStatement { return m.Unwind(x).As("u").Returning(x) },
		func() cypher.BuildableStatement { return m.Call(good).Returning(x) },
		func() cypher.BuildableStatement { return m.Call1("f").WithArgs(x).YieldString("y").Returning(x) },
		func() cypher.BuildableStatement {
			return m.Call1("f").WithArgs(x).YieldString("y").Where(ok).Returning(x)
		},
		func() cypher.BuildableStatement { return m.Remove(n.Property("p")) },
		func() cypher.BuildableStatement { return m.SetByNode(n, "A").RemoveByNode(n, "B").Delete(x) },
		func() cypher.BuildableStatement { return cypher.Match(n).Where(m.AsCondition()).Returning(x) },
		func() cypher.BuildableStatement {
			st, err := m.Returning(x).Build()
			if err != nil {
				return m.Returning(x)
			}
			return cypher.ACallByStatement(st).Returning(x)
		},
		func() cypher.BuildableStatement {
			st, err := m.Returning(x).Build()
			if err != nil {
				return m.Returning(x)
			}
			return stmt{cypher.UnionAll(good, st)}
		},
	}
	refused(bs[nd.Choose("then", len(bs))]())
}
