package props

import (
	"math"
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// The parts of the result builders, as their interfaces name them.
type (
	canOrder interface {
		OrderBySortItem(sortItem ...cypher.SortItem) cypher.OngoingMatchAndReturnWithOrder
		OrderBy(expression cypher.Expression) cypher.TerminalOngoingOrderDefinition
	}
	canSkip interface {
		Skip(number int) cypher.TerminalExposesLimitAndBuildableStatement
	}
	canLimit interface {
		Limit(number int) cypher.BuildableStatement
	}
	canAnd interface {
		And(expression cypher.Expression) cypher.TerminalOngoingOrderDefinition
	}
	canDirection interface {
		Descending() cypher.OngoingMatchAndReturnWithOrder
		Ascending() cypher.OngoingMatchAndReturnWithOrder
	}
	withSkip interface {
		Skip(number int) cypher.ExposesLimitAndOngoingReadingAndWith
	}
	withLimit interface {
		Limit(number int) cypher.OngoingReadingAndWith
	}
	withAnd interface {
		And1(expression cypher.Expression) cypher.OngoingOrderDefinition
	}
	withDirection interface {
		Descending() cypher.OngoingReadingAndWithWithWhereAndOrder
		Ascending() cypher.OngoingReadingAndWithWithWhereAndOrder
	}
)

// sorted is a sort item of the i-th form.
func sorted(i int, e expr, t string) (cypher.SortItem, string) {
	switch i {
	case 0:
		return cypher.Sort(e), t
	case 1:
		return cypher.Sort(e).Ascending(), t + " ASC"
	case 2:
		return cypher.Sort(e).Descending(), t + " DESC"
	case 3:
		return cypher.CreateAscendingSortItem(e), t + " ASC"
	case 4:
		return cypher.CreateDescendingSortItem(e), t + " DESC"
	case 5:
		return cypher.SortItemCreate(e, cypher.UNDEFINED), t
	case 6:
		return cypher.SortItemCreate(e, cypher.DESC), t + " DESC"
	case 7:
		return cypher.Sort(e).Ascending().Descending(), t + " DESC"
	}
	panic("no such sort item")
}

const nSorted = 8

// results are the builders a RETURN can be called on.
func results(i int, distinct bool, es ...expr) (cypher.OngoingReadingAndReturn, string) {
	x := sym("x")
	n := nodeN()
	var v cypher.ExposesReturning
	t := ""
	switch i {
	case 0:
		v, t = cypher.Match(n), "MATCH (n:`L`)"
	case 1:
		v, t = cypher.Create(n), "CREATE (n:`L`)"
	case 2:
		v, t = cypher.Match(n).Delete(x), "MATCH (n:`L`) DELETE x"
	case 3:
		v, t = cypher.Match(n).Where(wrap(x).IsNull().Get()), "MATCH (n:`L`) WHERE x IS NULL"
	case 4:
		v, t = cypher.With(x).OrderByExpression(x).Descending().Skip(1).(cypher.ExposesReturning), "WITH x ORDER BY x DESC SKIP 1"
	case 5:
		v, t = cypher.Unwind(x).As("u"), "UNWIND x AS u"
	case 6:
		v, t = cypher.ACallSimple("f").YieldString("i"), "CALL f() YIELD i"
	case 7:
		v, t = cypher.Match(n).Set(n.Property("p").To(x)), "MATCH (n:`L`) SET n.p = x"
	case 8:
		v, t = cypher.Merge(n).OnCreate().Set(n.Property("p").To(x)), "MERGE (n:`L`) ON CREATE SET n.p = x"
	case 9:
		v, t = cypher.Match(n).Call1("f").YieldString("i").Where(wrap(x).IsNull().Get()), "MATCH (n:`L`) CALL f() YIELD i WHERE x IS NULL"
	case 10:
		v, t = cypher.With(x).Where(wrap(x).IsNull().Get()), "WITH x WHERE x IS NULL"
	case 11:
		v, t = cypher.Merge(n), "MERGE (n:`L`)"
	case 12:
		v, t = cypher.Match(n).Remove(n.Property("p")), "MATCH (n:`L`) REMOVE n.p"
	case 13:
		if distinct {
			v, t = cypher.With(x), "WITH x"
			break
		}
		return cypher.CypherReturning(es...), "RETURN"
	}
	if distinct {
		return v.ReturningDistinct(es...), t + " RETURN DISTINCT"
	}
	return v.Returning(es...), t + " RETURN"
}

const nResults = 14

// ordering takes the calls that order and cut a result, as often as calls
// says, and gives what ORDER BY, SKIP and LIMIT are then.
func ordering(v any, calls int, name string) (any, clause) {
	var c clause
	state := 0 // 0 any 1 after a sort item 2 after an expression
	for i := 0; i < calls; i++ {
		id := stepText(i)
		e, t := sym(name+id), name+id
		n := 3
		if state == 1 {
			n = 4
		} else if state == 2 {
			n = 5
		}
		k := pick("call", n+1)
		if k == n {
			break
		}
		if k == 0 && state != 0 { // more items
			k = 6
		}
		switch k {
		case 0:
			if pick("form", 2) == 0 {
				s, st := sorted((i+calls)%nSorted, e, t)
				s2, st2 := sorted((i*3+calls)%nSorted, sym("w"), "w")
				v = v.(canOrder).OrderBySortItem(s, s2)
				c.order = append(c.order, st, st2)
				state = 1
			} else {
				v = v.(canOrder).OrderBy(e)
				c.order = append(c.order, t)
				state = 2
			}
		case 1:
			v = v.(canSkip).Skip(10 + i)
			c.skip = itoa(10 + i)
		case 2:
			v = v.(canLimit).Limit(20 + i)
			c.limit = itoa(20 + i)
		case 3, 4:
			if state == 1 {
				v = v.(canAnd).And(e)
				c.order = append(c.order, t)
				state = 2
				break
			}
			if k == 3 {
				v = v.(canDirection).Descending()
				c.order[len(c.order)-1] += " DESC"
			} else {
				v = v.(canDirection).Ascending()
				c.order[len(c.order)-1] += " ASC"
			}
			state = 1
		case 6:
			s, st := sorted((i+1)%nSorted, e, t)
			v = v.(canOrder).OrderBySortItem(s)
			c.order = append(c.order, st)
			state = 1
		}
	}
	return v, c
}

// RETURN with its ordering, after every kind of clause.
func C16_return() {
	name := key("name")
	calls := 4
	if nd.Thorough() {
		calls = 6
	}
	i := pick("after", nResults)
	r, t := results(i, i%2 == 0, sym(name), sym("z"))
	v, c := ordering(r, calls, name)
	c.head = t + " " + name + ", z"
	nd.CheckEq("return", ok(v.(cypher.BuildableStatement)), c.text())
}

// withOrdering does the same for a WITH.
func withOrdering(v any, calls int, name string) (any, clause) {
	var c clause
	state := 0
	for i := 0; i < calls; i++ {
		id := stepText(i)
		e, t := sym(name+id), name+id
		n := 3
		if state == 1 {
			n = 4
		} else if state == 2 {
			n = 5
		}
		k := pick("call", n+1)
		if k == n {
			break
		}
		o := v.(cypher.ExposesOrderBy)
		if k == 0 && state != 0 {
			k = 6
		}
		switch k {
		case 0:
			if pick("form", 2) == 0 {
				s, st := sorted((i+calls)%nSorted, e, t)
				s2, st2 := sorted((i*3+calls)%nSorted, sym("w"), "w")
				v = o.OrderBySortItem(s, s2)
				c.order = append(c.order, st, st2)
				state = 1
			} else {
				v = o.OrderByExpression(e)
				c.order = append(c.order, t)
				state = 2
			}
		case 1:
			v = v.(withSkip).Skip(10 + i)
			c.skip = itoa(10 + i)
		case 2:
			v = v.(withLimit).Limit(20 + i)
			c.limit = itoa(20 + i)
		case 3, 4:
			if state == 1 {
				v = v.(withAnd).And1(e)
				c.order = append(c.order, t)
				state = 2
				break
			}
			if k == 3 {
				v = v.(withDirection).Descending()
				c.order[len(c.order)-1] += " DESC"
			} else {
				v = v.(withDirection).Ascending()
				c.order[len(c.order)-1] += " ASC"
			}
			state = 1
		case 6:
			s, st := sorted((i+1)%nSorted, e, t)
			v = o.OrderBySortItem(s)
			c.order = append(c.order, st)
			state = 1
		}
	}
	return v, c
}

// withs are the builders a WITH can be called on.
func withs(i int, distinct bool, es ...expr) (cypher.OrderableOngoingReadingAndWithWithoutWhere, string) {
	x := sym("x")
	n := nodeN()
	var v cypher.ExposesWith
	t := ""
	switch i {
	case 0:
		v, t = cypher.Match(n), "MATCH (n:`L`)"
	case 1:
		v, t = cypher.Create(n), "CREATE (n:`L`)"
	case 2:
		v, t = cypher.Match(n).DetachDelete(x), "MATCH (n:`L`) DETACH DELETE x"
	case 3:
		v, t = cypher.With(x).Limit(3), "WITH x LIMIT 3"
	case 4:
		v, t = cypher.Unwind(x).As("u"), "UNWIND x AS u"
	case 5:
		v, t = cypher.ACallSimple("f").YieldString("i"), "CALL f() YIELD i"
	case 6:
		v, t = cypher.Match(n).Set(n.Property("p").To(x)), "MATCH (n:`L`) SET n.p = x"
	case 7:
		v, t = cypher.Match(n).Call1("f").YieldString("i"), "MATCH (n:`L`) CALL f() YIELD i"
	case 8:
		v, t = cypher.With(x).OrderByExpression(x).Ascending(), "WITH x ORDER BY x ASC"
	case 9:
		if distinct {
			v, t = cypher.AnOptionalMatch(n), "OPTIONAL MATCH (n:`L`)"
			break
		}
		return cypher.With(es...), "WITH"
	}
	if distinct {
		return v.WithDistinct(es...), t + " WITH DISTINCT"
	}
	return v.With(es...), t + " WITH"
}

const nWiths = 10

// WITH with its ordering and its condition.
func C16_with() {
	name := key("name")
	calls := 4
	if nd.Thorough() {
		calls = 6
	}
	i := pick("after", nWiths)
	w, t := withs(i, i%2 == 1, sym(name), sym("z"))
	var v any = w
	where := pick("where", 3)
	if where == 1 {
		v = w.Where(wrap(sym("a")).IsNull().Get())
	}
	v, c := withOrdering(v, calls, name)
	if where == 2 {
		if o, can := v.(interface {
			Where(condition cypher.Condition) cypher.OrderableOngoingReadingAndWithWithWhere
		}); can {
			v = o.Where(wrap(sym("a")).IsNull().Get())
		} else {
			return
		}
	}
	c.head = t + " " + name + ", z"
	if where > 0 {
		c.conds = "a IS NULL"
	}
	u := v.(cypher.ExposesReturning).ReturningDistinct(sym("z"))
	nd.CheckEq("with", ok(u), c.text()+" RETURN DISTINCT z")
}

// The counts are the given ones.
func C16_counts() {
	n := nd.Int("n", 1, math.MaxInt64)
	x := sym("x")
	m := cypher.Match(nodeN())
	t := "MATCH (n:`L`) "
	switch pick("form", 6) {
	case 0:
		nd.CheckEq("skip", ok(m.Returning(x).Skip(n)), t+"RETURN x SKIP "+itoa(n))
	case 1:
		nd.CheckEq("limit", ok(m.Returning(x).OrderBy(x).Skip(3).Limit(n)), t+"RETURN x ORDER BY x SKIP 3 LIMIT "+itoa(n))
	case 2:
		nd.CheckEq("withSkip", ok(m.With(x).Skip(n).(cypher.ExposesReturning).Returning(x)), t+"WITH x SKIP "+itoa(n)+" RETURN x")
	case 3:
		nd.CheckEq("withLimit", ok(m.With(x).OrderByExpression(x).Limit(n).Returning(x).Limit(n)), t+"WITH x ORDER BY x LIMIT "+itoa(n)+" RETURN x LIMIT "+itoa(n))
	case 4:
		nd.CheckEq("update", ok(m.Delete(x).Returning(x).Skip(n).Limit(2)), t+"DELETE x RETURN x SKIP "+itoa(n)+" LIMIT 2")
	case 5:
		nd.CheckEq("again", ok(m.Returning(x).OrderBySortItem(cypher.Sort(x)).Skip(n).Limit(n)), t+"RETURN x ORDER BY x SKIP "+itoa(n)+" LIMIT "+itoa(n))
	}
}

// Every kind of expression as item and as sort key.
func C16_kinds() {
	name := key("name")
	a := argOf(pick("kind", nArgs), "a")
	b := argOf(kindOf("other", 0, 6, 12, 22), "b")
	s, st := sorted(pick("sort", nSorted), a.e, a.t)
	z := sym(name)
	switch pick("form", 6) {
	case 0:
		nd.CheckEq("items", ok(cypher.CypherReturning(a.e, z, b.e)), "RETURN "+a.t+", "+name+", "+b.t)
	case 1:
		nd.CheckEq("distinct", ok(cypher.Create(nodeN()).ReturningDistinct(b.e, a.e, aliased(z, "al"))), "CREATE (n:`L`) RETURN DISTINCT "+b.t+", "+a.t+", "+name+" AS al")
	case 2:
		nd.CheckEq("sort", ok(cypher.CypherReturning(z).OrderBySortItem(s, cypher.Sort(b.e).Descending())), "RETURN "+name+" ORDER BY "+st+", "+b.t+" DESC")
	case 3:
		nd.CheckEq("order", ok(cypher.Match(nodeN()).Returning(b.e).OrderBy(a.e).Ascending().And(z).Descending()), "MATCH (n:`L`) RETURN "+b.t+" ORDER BY "+a.t+" ASC, "+name+" DESC")
	case 4:
		nd.CheckEq("with", ok(cypher.With(a.e, b.e, z).OrderBySortItem(s).(cypher.ExposesReturning).Returning(z)), "WITH "+a.t+", "+b.t+", "+name+" ORDER BY "+strings.Replace(st, a.t, argOf(0, "").t, 0)+" RETURN "+name)
	case 5:
		nd.CheckEq("withOrder", ok(cypher.Match(nodeN()).WithDistinct(z).OrderByExpression(a.e).Descending().And1(b.e).Limit(1).Returning(z)), "MATCH (n:`L`) WITH DISTINCT "+name+" ORDER BY "+a.t+" DESC, "+b.t+" LIMIT 1 RETURN "+name)
	}
}

// Any number of items, by expression, by name and by element.
func C16_items() {
	name := key("name")
	max := 6
	if nd.Thorough() {
		max = 12
	}
	n := 1 + pick("items", max)
	var es []expr
	var ss []string
	var ns []cypher.Named
	for i := 0; i < n; i++ {
		t := "i" + stepText(i)
		if i == n/2 {
			t = name
		}
		ss = append(ss, t)
		es = append(es, sym(t))
		switch i % 3 {
		case 0:
			ns = append(ns, cypher.ANode("L").NamedByString(t))
		case 1:
			ns = append(ns, knows().NamedByString(t))
		case 2:
			ns = append(ns, cypher.APath(t).DefinedBy(knows()))
		}
	}
	t := strings.Join(ss, ", ")
	x := sym("x")
	var v any
	root := ""
	switch pick("after", 6) {
	case 0:
		v, root = cypher.Match(nodeN()), "MATCH (n:`L`)"
	case 1:
		v, root = cypher.Create(nodeN()), "CREATE (n:`L`)"
	case 2:
		v, root = cypher.With(x), "WITH x"
	case 3:
		v, root = cypher.ACallSimple("f").YieldString("i"), "CALL f() YIELD i"
	case 4:
		v, root = cypher.Match(nodeN()).Call1("f").YieldString("i"), "MATCH (n:`L`) CALL f() YIELD i"
	case 5:
		v, root = cypher.Match(nodeN()).Delete(x), "MATCH (n:`L`) DELETE x"
	}
	r, w := v.(cypher.ExposesReturning), v.(cypher.ExposesWith)
	switch pick("form", 12) {
	case 0:
		nd.CheckEq("return", ok(r.Returning(es...)), root+" RETURN "+t)
	case 1:
		nd.CheckEq("returnString", ok(r.ReturningByString(ss...)), root+" RETURN "+t)
	case 2:
		nd.CheckEq("returnNamed", ok(r.ReturningByNamed(ns...)), root+" RETURN "+t)
	case 3:
		nd.CheckEq("distinct", ok(r.ReturningDistinct(es...)), root+" RETURN DISTINCT "+t)
	case 4:
		nd.CheckEq("distinctString", ok(r.ReturningDistinctByString(ss...)), root+" RETURN DISTINCT "+t)
	case 5:
		nd.CheckEq("distinctNamed", ok(r.ReturningDistinctByNamed(ns...)), root+" RETURN DISTINCT "+t)
	case 6:
		nd.CheckEq("with", ok(w.With(es...).Returning(x)), root+" WITH "+t+" RETURN x")
	case 7:
		nd.CheckEq("withString", ok(w.WithByString(ss...).Returning(x)), root+" WITH "+t+" RETURN x")
	case 8:
		nd.CheckEq("withNamed", ok(w.WithByNamed(ns...).Returning(x)), root+" WITH "+t+" RETURN x")
	case 9:
		nd.CheckEq("withDistinct", ok(w.WithDistinct(es...).Returning(x)), root+" WITH DISTINCT "+t+" RETURN x")
	case 10:
		nd.CheckEq("withDistinctString", ok(w.WithDistinctByString(ss...).Returning(x)), root+" WITH DISTINCT "+t+" RETURN x")
	case 11:
		nd.CheckEq("withDistinctNamed", ok(w.WithDistinctByNamed(ns...).Returning(x)), root+" WITH DISTINCT "+t+" RETURN x")
	}
}

// Any number of sort items, as items and as text.
func C16_sorts() {
	name := key("name")
	n := 1 + pick("items", 5)
	var si, raw []cypher.SortItem
	var rs, ts, rt []string
	for i := 0; i < n; i++ {
		t := "s" + stepText(i)
		if i == n/2 {
			t = name
		}
		form := (i*3 + n) % nSorted
		if i == n-1 {
			form = pick("form", nSorted)
		}
		s, st := sorted(form, sym(t), t)
		si, ts = append(si, s), append(ts, st)
		r := []string{t, t + " ASC", t + " DESC", t + ".p", t + ".p.q DESC", " " + t + "  ASC "}[(i+form)%6]
		rs = append(rs, r)
		rt = append(rt, []string{t, t + " ASC", t + " DESC", t + ".p", t + ".p.q DESC", t + " ASC"}[(i+form)%6])
	}
	raw = cypher.SortItemsOfRaw(rs...)
	o, p := strings.Join(ts, ", "), strings.Join(rt, ", ")
	x := sym("x")
	nd.CheckEq("return", ok(cypher.CypherReturning(x).OrderBySortItem(si...)), "RETURN x ORDER BY "+o)
	nd.CheckEq("raw", ok(cypher.CypherReturning(x).OrderBySortItem(raw...)), "RETURN x ORDER BY "+p)
	nd.CheckEq("with", ok(cypher.With(x).OrderBySortItem(si...).Returning(x).OrderBySortItem(raw...).Limit(1)), "WITH x ORDER BY "+o+" RETURN x ORDER BY "+p+" LIMIT 1")
	nd.CheckEq("update", ok(cypher.Create(nodeN()).Returning(x).OrderBySortItem(si[:1]...).And(x).Descending().Skip(4)), "CREATE (n:`L`) RETURN x ORDER BY "+ts[0]+", x DESC SKIP 4")
}

// What is asked for on top of no items at all is refused, not dropped.
func C16_empty() {
	x, v := sym("x"), sym(key("name"))
	m := cypher.Match(nodeN())
	c := wrap(v).IsNull().Get()
	u := m.Create(cypher.AnyNodeNamed("m"))
	var w cypher.OrderableOngoingReadingAndWithWithoutWhere
	switch pick("start", 6) {
	case 0:
		w = m.With()
	case 1:
		w = m.WithDistinct()
	case 2:
		w = u.With()
	case 3:
		w = u.WithDistinct()
	case 4:
		w = m.Delete(v).With()
	case 5:
		w = cypher.Merge(nodeN()).OnCreate().Set(nodeN().Property("p").To(x)).With()
	}
	n := 3
	var b cypher.BuildableStatement
	switch pick("asked", 9) {
	case 0:
		b = w.Where(c).Returning(x)
	case 1:
		b = w.OrderBySortItem(cypher.Sort(v)).Returning(x)
	case 2:
		b = w.OrderByExpression(v).Limit(n + 1).Returning(x)
	case 3:
		b = w.OrderByExpression(v).Descending().Returning(x)
	case 4:
		b = w.Skip(n).Returning(x)
	case 5:
		b = w.Limit(n + 1).Returning(x)
	case 6:
		b = w.Where(c).Skip(n).Limit(n + 1).Returning(x)
	case 7:
		b = w.Where(c).And(c).Returning(x)
	case 8:
		b = w.Where(c).Delete(v)
	}
	_, err := text(b)
	nd.Check("with", err != nil)
}

func C16_nothing() {
	x, v := sym("x"), sym(key("name"))
	m := cypher.Match(nodeN())
	u := m.Create(cypher.AnyNodeNamed("m"))
	n := 3
	var b cypher.BuildableStatement
	var r cypher.OngoingReadingAndReturn
	switch pick("returning", 6) {
	case 0:
		r = m.Returning()
	case 1:
		r = u.Returning()
	case 2:
		r = u.ReturningDistinct()
	case 3:
		r = u.Set(nodeN().Property("p").To(x)).Returning()
	case 4:
		r = m.DetachDelete(v).ReturningDistinct()
	case 5:
		r = m.Remove(nodeN().Property("p")).Returning()
	}
	switch pick("asked", 6) {
	case 0:
		b = r.OrderBySortItem(cypher.Sort(v))
	case 1:
		b = r.OrderBy(v)
	case 2:
		b = r.OrderBy(v).Ascending().And(x)
	case 3:
		b = r.Skip(n)
	case 4:
		b = r.Limit(n + 1)
	case 5:
		b = r.Skip(n).Limit(n + 1)
	}
	_, err := text(b)
	nd.Check("return", err != nil)
}
