package props

import (
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

const (
	nQueries = 12 // statements a union takes
	nSubs    = 14 // statements
)

// query is the i-th statement with names of its own. v is any name.
func query(i int, id, v string) (cypher.Statement, string) {
	x, y := sym("x"+id), sym("y"+id)
	n := cypher.ANode("L" + id).NamedByString("n" + id)
	nt := "(n" + id + ":`L" + id + "`)"
	r, rt := hop(id), hopText(id)
	c := wrap(x).IsEqualTo(y).Get()
	ct := "x" + id + " = y" + id
	xt, yt := "x"+id, "y"+id
	st := func(b cypher.BuildableStatement) cypher.Statement { return statement(b) }
	switch i {
	case 0:
		return st(cypher.CypherReturning(sym(v))), "RETURN " + v
	case 1:
		return st(cypher.Match(n).Returning(aliased(x, v))), "MATCH " + nt + " RETURN " + xt + " AS " + v
	case 2:
		return st(cypher.Match(r, n).Where(c).ReturningDistinct(x, sym(v))), "MATCH " + rt + ", " + nt + " WHERE " + ct + " RETURN DISTINCT " + xt + ", " + v
	case 3:
		return st(cypher.With(aliased(x, v)).OrderByExpression(y).Descending().Limit(2).Returning(sym(v))), "WITH " + xt + " AS " + v + " ORDER BY " + yt + " DESC LIMIT 2 RETURN " + v
	case 4:
		return st(cypher.UnwindMulti(x, y).As(v).Returning(sym(v)).Limit(3)), "UNWIND [" + xt + ", " + yt + "] AS " + v + " RETURN " + v + " LIMIT 3"
	case 5:
		return st(cypher.Create(n, r).Returning(x)), "CREATE " + nt + ", " + rt + " RETURN " + xt
	case 6:
		return st(cypher.Match(n).Merge(r).OnCreate().Set(cypher.AProperty(v, "p").To(y)).Returning(x)), "MATCH " + nt + " MERGE " + rt + " ON CREATE SET " + v + ".p = " + yt + " RETURN " + xt
	case 7:
		return st(cypher.Match(n).With(x, y).Where(c).OptionalMatch(r).Returning(x, sym(v)).OrderBy(y).Ascending().And(x).Descending().Skip(1)), "MATCH " + nt + " WITH " + xt + ", " + yt + " WHERE " + ct + " OPTIONAL MATCH " + rt + " RETURN " + xt + ", " + v + " ORDER BY " + yt + " ASC, " + xt + " DESC SKIP 1"
	case 8:
		return st(cypher.ACall("p"+id, v).WithArgs(x, y).YieldString(v).Where(c).Returning(x)), "CALL p" + id + "." + v + "(" + xt + ", " + yt + ") YIELD " + v + " WHERE " + ct + " RETURN " + xt
	case 9:
		return st(cypher.Match(n).Call1("q"+id).YieldString(v, "w").Returning(x)), "MATCH " + nt + " CALL q" + id + "() YIELD " + v + ", w RETURN " + xt
	case 10:
		in, t := query(1, id+"i", v)
		return st(cypher.ACallByStatement(in).Match(n).Returning(x)), "CALL {" + t + "} MATCH " + nt + " RETURN " + xt
	case 11:
		return st(cypher.Match(n).DetachDelete(x, sym(v))), "MATCH " + nt + " DETACH DELETE " + xt + ", " + v + " "
	case 12:
		return st(cypher.ACallSimple("p"+id).WithArgs(sym(v)).Yield(aliased(x, v), aliased(y, "w"))), "CALL p" + id + "(" + v + ") YIELD " + xt + " AS " + v + ", " + yt + " AS w "
	case 13:
		p, pt := query(0, id+"f", v)
		q, qt := query(2, id+"g", v)
		return cypher.UnionAll(p, q), pt + " UNION ALL " + qt
	}
	panic("no such query")
}

// What a sub-query has to return.
func returnsSomething(i int) bool { return i != 11 }

func unite(all bool, parts ...cypher.Statement) cypher.Statement {
	if all {
		return cypher.UnionAll(parts...)
	}
	return cypher.Union(parts...)
}

func anyName(label string) string { return nd.StrOf(label, 1, 2, "j-m") }

// Unions of two to four parts.
func C13_union() {
	v := anyName("name")
	all := pick("all", 2) == 1
	word := " UNION "
	if all {
		word = " UNION ALL "
	}
	n := 2 + pick("parts", 3)
	var parts []cypher.Statement
	var texts []string
	for i := 0; i < n; i++ {
		k := (i*5 + n) % nQueries
		if i < 2 || nd.Thorough() && i == n-1 {
			k = pick("part", nQueries)
		}
		p, t := query(k, stepText(i), v)
		parts, texts = append(parts, p), append(texts, t)
	}
	want := strings.TrimSpace(strings.Join(texts, word))
	switch pick("nesting", 4) {
	case 0:
		nd.CheckEq("flat", ok(stmt{unite(all, parts...)}), want)
	case 1: // one after the other
		u := unite(all, parts[0], parts[1])
		for _, p := range parts[2:] {
			u = unite(all, u, p)
		}
		nd.CheckEq("left", ok(stmt{u}), want)
	case 2:
		u := unite(all, parts[n-2], parts[n-1])
		for i := n - 3; i >= 0; i-- {
			u = unite(all, parts[i], u)
		}
		nd.CheckEq("right", ok(stmt{u}), want)
	case 3: // a union stays as it is when it is extended
		u := unite(all, parts[0], parts[1])
		w := unite(all, u, parts[n-1], parts[0])
		x := unite(all, u, u)
		nd.CheckEq("kept", ok(stmt{u}), strings.TrimSpace(texts[0]+word+texts[1]))
		nd.Check("wide", w.GetError() == nil && x.GetError() == nil)
	}
}

// The keywords cannot be mixed, and one statement is no union.
func C13_mixed() {
	all := pick("all", 2) == 1
	p, _ := query(pick("first", nQueries), "a", "v")
	q, _ := query(pick("second", nQueries), "b", "v")
	r, _ := query(0, "c", "v")
	u := unite(all, p, q)
	refusedStatement("mixedFirst", unite(!all, u, r))
	refusedStatement("mixedLast", unite(!all, r, u))
	refusedStatement("mixedMiddle", unite(!all, r, u, p))
	refusedStatement("one", unite(all, p))
	refusedStatement("none", unite(all))
	refusedStatement("oneUnion", unite(!all, u))
}

func refusedStatement(id string, s cypher.Statement) {
	_, err := text(stmt{s})
	nd.Check(id, err != nil)
}

// A sub-query is rendered whole wherever it is called, followed by what is
// called on it.
func C13_subquery() {
	v := anyName("name")
	k := pick("query", nSubs)
	sub, t := query(k, "s", v)
	w := "CALL {" + t + "}"
	f := flow{kind: kMatch, v: nil, done: []clause{{head: w}}}
	at := pick("after", 10)
	if at > 0 {
		f.done = append([]clause{{}}, f.done...)
	}
	x, y := sym("x"), sym("y")
	before := func(s string) { f.done[0].head = s }
	n := nodeN()
	switch at {
	case 0:
		f.v = cypher.ACallByStatement(sub)
	case 1:
		f.v = cypher.Match(n).Call(sub)
		before("MATCH (n:`L`)")
	case 2:
		f.v = cypher.Match(n).Where(wrap(x).IsNull().Get()).Call(sub)
		before("MATCH (n:`L`) WHERE x IS NULL")
	case 3:
		f.v = cypher.With(x, y).Call(sub)
		before("WITH x, y")
	case 4:
		f.v = cypher.With(x).Where(wrap(x).IsNull().Get()).Call(sub)
		before("WITH x WHERE x IS NULL")
	case 5:
		f.v = cypher.Unwind(x).As("u").Call(sub)
		before("UNWIND x AS u")
	case 6:
		f.v = cypher.ACallSimple("f").YieldString("i").Call(sub)
		before("CALL f() YIELD i")
	case 7:
		f.v = cypher.Match(n).Call1("f").WithArgs(x).YieldString("i").Call(sub)
		before("MATCH (n:`L`) CALL f(x) YIELD i")
	case 8:
		in, it := query(4, "t", "p")
		f.v = cypher.ACallByStatement(in).Call(sub)
		before("CALL {" + it + "}")
	case 9:
		f.v = cypher.With(x).OrderByExpression(y).Ascending().Limit(3).Call(sub)
		before("WITH x ORDER BY y ASC LIMIT 3")
	}
	if !returnsSomething(k) {
		_, err := text(f.v.(cypher.ExposesReturning).Returning(x))
		nd.Check("refused", err != nil)
		return
	}
	ss := f.mainSteps()
	if nd.Thorough() {
		ss = f.steps()
	}
	finished("subquery", f.take(ss[pick("then", len(ss))]))
}

// Sub-queries within sub-queries.
func C13_deep() {
	v := anyName("name")
	depth := 1 + pick("depth", 4)
	sub, t := query(pick("query", 11), "s", v)
	form := pick("form", 4)
	for i := 0; i < depth; i++ {
		id := stepText(i)
		x := sym("x" + id)
		switch (form + i) % 4 {
		case 0:
			sub, t = statement(cypher.ACallByStatement(sub).Returning(x)), "CALL {"+t+"} RETURN x"+id
		case 1:
			sub, t = statement(cypher.Match(hop(id)).Call(sub).ReturningDistinct(x)), "MATCH "+hopText(id)+" CALL {"+t+"} RETURN DISTINCT x"+id
		case 2:
			q, qt := query(3, id, v)
			sub, t = cypher.Union(sub, q), t+" UNION "+qt
			sub, t = statement(cypher.Unwind(x).As("u").Call(sub).Returning(sym(v))), "UNWIND x"+id+" AS u CALL {"+t+"} RETURN "+v
		case 3:
			q, qt := query(7, id, v)
			sub, t = statement(cypher.ACallByStatement(q).Call(sub).With(x).Returning(sym(v))), "CALL {"+qt+"} CALL {"+t+"} WITH x"+id+" RETURN "+v
		}
	}
	nd.CheckEq("deep", ok(stmt{sub}), t)
}

// Existential sub-queries: everything of the MATCH, wherever a condition goes.
func C13_exists() {
	v := anyName("name")
	n := cypher.ANode("L" + v).NamedByString(v)
	nt := "(" + v + ":`L" + v + "`)"
	r, rt := hop("e"), hopText("e")
	c := func(s string) cond { return wrap(sym(s)).IsNull().Get().(cond) }
	var m cypher.OngoingReadingWithoutWhere
	t := ""
	switch pick("match", 5) {
	case 0:
		m, t = cypher.Match(n), "MATCH "+nt
	case 1:
		m, t = cypher.Match(r, n), "MATCH "+rt+", "+nt
	case 2:
		m, t = cypher.Match(cypher.APath("p").DefinedBy(r)), "MATCH p = "+rt
	case 3:
		m, t = cypher.Match(n.RelationshipFrom(cypher.AnyNode(), "T").NamedByString("q").RelationshipTo(cypher.ANode("M"))), "MATCH "+nt+"<-[q:`T`]-()-->(:`M`)"
	case 4:
		m, t = cypher.AnOptionalMatch(n), "OPTIONAL MATCH "+nt
	}
	var e cond
	switch pick("where", 7) {
	case 0:
		e = m.AsCondition()
	case 1:
		e, t = m.Where(c(v)).(cypher.ExposesExistentialSubqueryCall).AsCondition(), t+" WHERE "+v+" IS NULL"
	case 2:
		e, t = m.Where(c(v)).And(c("b")).(cypher.ExposesExistentialSubqueryCall).AsCondition(), t+" WHERE ("+v+" IS NULL AND b IS NULL)"
	case 3:
		e, t = m.Where(c(v)).Or(c("b")).(cypher.ExposesExistentialSubqueryCall).AsCondition(), t+" WHERE ("+v+" IS NULL OR b IS NULL)"
	case 4:
		e, t = m.WherePattern(hop("f")).(cypher.ExposesExistentialSubqueryCall).AsCondition(), t+" WHERE "+hopText("f")
	case 5: // nested
		in := cypher.Match(hop("i")).Where(c(v)).(cypher.ExposesExistentialSubqueryCall).AsCondition()
		e, t = m.Where(in).(cypher.ExposesExistentialSubqueryCall).AsCondition(), t+" WHERE EXISTS {MATCH "+hopText("i")+" WHERE "+v+" IS NULL}"
	case 6:
		in := cypher.Match(hop("i")).AsCondition()
		e, t = m.Where(cypher.ConditionsNot(in)).AndPattern(hop("j")).(cypher.ExposesExistentialSubqueryCall).AsCondition(), t+" WHERE (NOT (EXISTS {MATCH "+hopText("i")+"}) AND "+hopText("j")+")"
	}
	b, tpl := condPlace(pick("place", nCondPlaces), e)
	nd.CheckEq("exists", squeeze(ok(b)), squeeze(fill(tpl, "EXISTS {"+t+"}")))
}

// squeeze leaves out blanks before a closing brace.
func squeeze(s string) string { return strings.Replace(s, " }", "}", -1) }

// Procedure calls: the full name, all arguments, all yielded items, then the
// condition and the clauses called on them.
func C13_calls() {
	v := anyName("name")
	names := []string{"a", v, "b" + v, "c"}[:1+pick("names", 4)]
	na := pick("args", 4)
	var args []expr
	var at []string
	for i := 0; i < na; i++ {
		k := (na*7 + i*11) % nArgs
		if i == 0 {
			k = pick("arg", nArgs)
		}
		a := argOf(k, stepText(i))
		args, at = append(args, a.e), append(at, a.t)
	}
	t := strings.Join(names, ".") + "(" + strings.Join(at, ", ") + ")"
	if pick("in", 2) == 0 {
		c := cypher.ACall(names...)
		if na > 0 {
			c = c.WithArgs(args...)
		}
		nd.CheckEq("call", ok(c), "CALL "+t)
		nd.CheckEq("function", ok(cypher.CypherReturning(c.AsFunction())), "RETURN "+t)
		nd.CheckEq("callYield", ok(c.YieldString(v, "y")), "CALL "+t+" YIELD "+v+", y")
		return
	}
	c := cypher.Match(nodeN()).Call1(names...)
	var d yieldingIn = c
	if na > 0 {
		d = c.WithArgs(args...)
	}
	nd.CheckEq("inQuery", ok(d.YieldString(v).Returning(sym("x"))), "MATCH (n:`L`) CALL "+t+" YIELD "+v+" RETURN x")
}

// YIELD, its condition, and what follows.
func C13_yield() {
	v := anyName("name")
	n := 1 + pick("items", 4)
	form := pick("form", 3)
	var strs, ts []string
	var syms []cypher.SymbolicName
	var als []cypher.AliasedExpression
	for i := 0; i < n; i++ {
		name := []string{v, "i", v + "j", "k"}[i]
		strs = append(strs, name)
		syms = append(syms, cypher.ASymbolic(name))
		als = append(als, aliased(sym(name), "al"+stepText(i)))
		if form == 2 {
			name += " AS al" + stepText(i)
		}
		ts = append(ts, name)
	}
	t := "CALL f(x) YIELD " + strings.Join(ts, ", ")
	var a cypher.OngoingStandaloneCallWithReturnFields
	var b cypher.OngoingInQueryCallWithReturnFields
	x, y := sym("x"), sym("y")
	f := flow{n: 2}
	switch pick("in", 2) {
	case 0:
		c := cypher.ACallSimple("f").WithArgs(x)
		a = []func() cypher.OngoingStandaloneCallWithReturnFields{func() cypher.OngoingStandaloneCallWithReturnFields { return c.YieldString(strs...) }, func() cypher.OngoingStandaloneCallWithReturnFields { return c.YieldSymbolic(syms...) }, func() cypher.OngoingStandaloneCallWithReturnFields { return c.Yield(als...) }}[form]()
		f.kind, f.v, f.done = kStandaloneYield, a, []clause{{head: t}}
	case 1:
		c := cypher.With(y).Call1("f").WithArgs(x)
		b = []func() cypher.OngoingInQueryCallWithReturnFields{func() cypher.OngoingInQueryCallWithReturnFields { return c.YieldString(strs...) }, func() cypher.OngoingInQueryCallWithReturnFields { return c.YieldSymbolic(syms...) }, func() cypher.OngoingInQueryCallWithReturnFields { return c.Yield(als...) }}[form]()
		f.kind, f.v, f.done = kCallYield, b, []clause{{head: "WITH y"}, {head: t}}
	}
	ss := f.steps()
	f = f.take(ss[pick("then", len(ss))])
	ss = f.steps()
	if len(ss) > 0 && pick("more", 2) == 1 {
		if !nd.Thorough() {
			ss = f.mainSteps()
		}
		f = f.take(ss[pick("then", len(ss))])
	}
	finished("yield", f)
}

// Only a single MATCH can stand in EXISTS, of more nothing is dropped silently.
func C13_longer() {
	v := anyName("name")
	c := wrap(sym(v)).IsNull().Get()
	m := cypher.Match(nodeN())
	o := cypher.AnyNodeNamed(v)
	r := statement(cypher.CypherReturning(sym(v)))
	var b interface{}
	switch pick("reading", 13) {
	case 0:
		b = m.Match(o)
	case 1:
		b = m.Match(o).Where(c)
	case 2:
		b = m.Where(c).Match(o)
	case 3:
		b = m.With(sym(v)).Match(o)
	case 4:
		b = m.With(sym(v)).Match(o).Where(c)
	case 5:
		b = m.OptionalMatch(o)
	case 6:
		b = m.Unwind(sym(v)).As("u")
	case 7:
		b = cypher.Unwind(sym(v)).As("u")
	case 8:
		b = m.Call(r)
	case 9:
		b = cypher.ACallByStatement(r)
	case 10:
		b = m.Call1("f").YieldString("a").Where(c)
	case 11:
		b = m.WithDistinct(sym(v)).Where(c).Match(o)
	case 12:
		b = m.With(sym(v)).Unwind(sym(v)).As("u")
	}
	e, isReading := b.(cypher.ExposesExistentialSubqueryCall)
	if !isReading {
		nd.Observe("offered", "no")
		return
	}
	_, err := text(stmt{returning(e.AsCondition())})
	nd.Check("refused", err != nil)
	_, err = text(cypher.Match(o).Where(e.AsCondition()).Returning(sym(v)))
	nd.Check("refusedInWhere", err != nil)
}

// A sub-query has to return something in each of its parts.
func C13_returnless() {
	v := anyName("name")
	x := sym(v)
	n := 1 + pick("parts", 4)
	less := pick("without", n+1)
	all := pick("all", 2) == 1
	var parts []cypher.Statement
	for i := 0; i < n; i++ {
		if i != less {
			parts = append(parts, statement(cypher.Create(nodeN()).Returning(x)))
			continue
		}
		switch pick("kind", 4) {
		case 0:
			parts = append(parts, statement(cypher.Create(nodeN())))
		case 1:
			parts = append(parts, statement(cypher.With(x).Match(nodeN()).Delete(x)))
		case 2:
			parts = append(parts, statement(cypher.Match(nodeN()).Set(nodeN().Property("p").To(x))))
		case 3:
			parts = append(parts, statement(cypher.Merge(nodeN()).With(x).Create(nodeN())))
		}
	}
	s := parts[0]
	if n > 1 {
		s = unite(all, parts...)
	}
	var b cypher.BuildableStatement
	switch pick("called", 4) {
	case 0:
		b = cypher.ACallByStatement(s).Returning(x)
	case 1:
		b = cypher.Match(nodeN()).Call(s).Returning(x)
	case 2:
		b = cypher.With(x).Call(s).With(x).Returning(x)
	case 3:
		b = cypher.ACallSimple("f").YieldString("y").Call(s).Returning(x)
	}
	_, err := text(b)
	nd.Check("refusedExactly", (err != nil) == (less < n))
}

// unionTree unites parts, of which some are unions themselves.
func unionTree(all bool, depth int, next *int) (cypher.Statement, []string) {
	n := 2 + pick("width", 2)
	var parts []cypher.Statement
	var texts []string
	for i := 0; i < n; i++ {
		if depth > 0 && pick("union", 2) == 1 {
			p, t := unionTree(all, depth-1, next)
			parts, texts = append(parts, p), append(texts, t...)
			continue
		}
		p, t := query(0, stepText(*next), "v")
		*next++
		parts, texts = append(parts, p), append(texts, t)
	}
	return unite(all, parts...), texts
}

// Unions of unions of any shape keep every part in order.
func C13_trees() {
	all := pick("all", 2) == 1
	depth := 1
	if nd.Thorough() {
		depth = 2
	}
	next := 0
	u, texts := unionTree(all, depth, &next)
	word := " UNION "
	if all {
		word = " UNION ALL "
	}
	nd.CheckEq("tree", ok(stmt{u}), strings.TrimSpace(strings.Join(texts, word)))
}
