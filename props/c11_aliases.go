package props

import (
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

func aliased(e expr, as string) cypher.AliasedExpression {
	return wrap(e).As(as).Get().(cypher.AliasedExpression)
}

// scope is what the harness knows about aliases: those every expression has.
type scope map[string][]string

func (s scope) knows(id, as string) bool {
	for _, k := range s[id] {
		if k == as {
			return true
		}
	}
	return false
}

// item is one of the mentions of two expressions with the same text.
type item struct {
	id, as string
	e      expr
	t      string
}

// project renders items of one WITH or RETURN.
func (s scope) project(items []item) string {
	var out []string
	next := scope{}
	for _, it := range items {
		switch {
		case s.knows(it.id, it.as):
			out = append(out, it.as)
		case it.as == "" && len(s[it.id]) > 0:
			out = append(out, s[it.id][0])
			continue
		case it.as == "":
			out = append(out, it.t)
			continue
		case len(s[it.id]) > 0:
			out = append(out, s[it.id][0]+" AS "+it.as)
			s[it.id] = append(append([]string{}, s[it.id]...), it.as)
		default:
			out = append(out, it.t+" AS "+it.as)
			s[it.id] = []string{it.as}
		}
		next[it.id] = append(next[it.id], it.as)
	}
	for id, as := range next {
		s[id] = as
	}
	return strings.Join(out, ", ")
}

// mention gives the text of an item inside something else.
func (s scope) mention(it item) string {
	if it.as != "" && s.knows(it.id, it.as) {
		return it.as
	}
	if len(s[it.id]) > 0 {
		return s[it.id][0]
	}
	return it.t
}

func alItems(k int, a, b string) []item {
	d, twin := argOf(k, "d"), argOf(k, "d")
	ea := aliased(d.e, a)
	return []item{
		{"d", a, ea, d.t},
		{"d", "", d.e, d.t},
		{"e", "", twin.e, d.t},
		{"e", b, aliased(twin.e, b), d.t},
		{"d", a, aliased(d.e, a), d.t},
		{"d", "c", ea.Aliased("c"), d.t},
		{"d", "e", ea.As("e").Get(), d.t},
		{"d", b, aliased(d.e, b), d.t},
		{"z", "", sym("z"), "z"},
		{"y", "", sym("z"), "z"},
	}
}

func exprs(its []item) []expr {
	var r []expr
	for _, it := range its {
		r = append(r, it.e)
	}
	return r
}

// Which expressions can be told apart from a later mention of themselves.
func aliasOf(label string) string { return nd.StrOf(label, 1, 2, "p-w") }

// One or two projections with items in any order.
func C11_items() {
	a := aliasOf("alias")
	kinds := []int{0, 22}
	if nd.Thorough() {
		kinds = []int{0, 1, 6, 12, 22, 16, 5, 29, 28}
	}
	its := alItems(kinds[pick("kind", len(kinds))], a, "al")
	n := len(its)
	first := []item{its[pick("1st", n)], its[pick("2nd", n)]}
	second := []item{its[pick("3rd", n)]}
	if nd.Thorough() {
		second = append(second, its[pick("4th", n)])
	} else {
		second = append(second, its[0])
	}
	s := scope{}
	out := "WITH " + s.project(first)
	out += " RETURN " + s.project(second)
	nd.CheckEq("items", ok(cypher.With(exprs(first)...).Returning(exprs(second)...)), out)
}

// Every kind of expression, three times in one projection.
func C11_kinds() {
	a := aliasOf("alias")
	k := pick("kind", nArgs)
	its := alItems(k, a, "al")
	n := len(its)
	row := []item{its[0], its[pick("2nd", n)], its[2+k%7]}
	if nd.Thorough() {
		row[2] = its[pick("3rd", n)]
	}
	s := scope{}
	switch pick("projection", 5) {
	case 0:
		nd.CheckEq("return", ok(cypher.CypherReturning(exprs(row)...)), "RETURN "+s.project(row))
	case 1:
		nd.CheckEq("distinct", ok(cypher.Match(nodeN()).ReturningDistinct(exprs(row)...)), "MATCH (n:`L`) RETURN DISTINCT "+s.project(row))
	case 2:
		nd.CheckEq("withDistinct", ok(cypher.Match(nodeN()).WithDistinct(exprs(row)...).Returning(sym("q"))), "MATCH (n:`L`) WITH DISTINCT "+s.project(row)+" RETURN q")
	case 3:
		rev := []item{row[2], row[1], row[0]}
		nd.CheckEq("reversed", ok(cypher.Create(nodeN()).Returning(exprs(rev)...)), "CREATE (n:`L`) RETURN "+s.project(rev))
	case 4:
		w := []item{row[1]}
		out := "UNWIND z AS q WITH " + s.project(w)
		w2 := []item{row[2], row[0]}
		out += " WITH " + s.project(w2)
		out += " RETURN " + s.project(row)
		nd.CheckEq("twice", ok(cypher.Unwind(sym("z")).As("q").With(exprs(w)...).With(exprs(w2)...).Returning(exprs(row)...)), out)
	}
}

// The alias stands for the expression inside every kind of expression.
func C11_inside() {
	a := aliasOf("alias")
	quick := []int{0, 1, 5, 6, 8, 10, 12, 16, 20, 22, 29}
	k := 0
	if nd.Thorough() {
		k = pick("kind", nArgs)
	} else {
		k = quick[pick("kind", len(quick))]
	}
	its := alItems(k, a, "al")
	defined := its[0]
	used := its[[]int{0, 4, 1}[pick("used", 3)]]
	if used.as == "" && argOf(k, "d").cond > 0 {
		return // a condition is an operand in parentheses, also by its alias
	}
	s := scope{}
	out := "WITH " + s.project([]item{defined})
	e, tpl := compose(nd.Choose("inside", nCompose), used.e)
	tpl = fill(tpl, s.mention(used))
	if pick("again", 2) == 1 {
		nd.CheckEq("same", ok(cypher.CypherReturning(defined.e, e)), strings.Replace(out, "WITH", "RETURN", 1)+", "+tpl)
		return
	}
	nd.CheckEq("inside", ok(cypher.With(defined.e).Returning(e)), out+" RETURN "+tpl)
}

// An equal expression that was never aliased is rendered in full.
func C11_other() {
	a := aliasOf("alias")
	k := 0
	if nd.Thorough() {
		k = pick("kind", nArgs)
	} else {
		k = []int{0, 12, 16}[pick("kind", 3)]
	}
	its := alItems(k, a, "al")
	in := nd.Choose("inside", nCompose)
	e, tpl := compose(in, argOf(0, "o").e)
	tpl = fill(tpl, "xo")
	e2, _ := compose(in, argOf(0, "o").e)
	s := scope{}
	row := []item{its[0], {"o", a + "x", aliased(e, a+"x"), tpl}, its[2], {"p", "", e2, tpl}}
	nd.CheckEq("other", ok(cypher.With(exprs(row)...).Returning(exprs(row[:3])...)), "WITH "+s.project(row)+" RETURN "+s.project(row[:3]))
}

// The alias stands for the expression in every clause.
func C11_clauses() {
	a := aliasOf("alias")
	quick := []int{0, 5, 8, 16, 22}
	kind := 0
	if nd.Thorough() {
		kind = pick("kind", nArgs)
	} else {
		kind = quick[pick("kind", len(quick))]
	}
	its := alItems(kind, a, "al")
	used := its[pick("used", 2)*4].e
	other := pick("other", 2) == 1
	as := a
	k := "WITH " + its[0].t + " AS " + a
	w := cypher.With(its[0].e)
	z := sym("z")
	if other {
		used, as = aliased(sym("o"), "oo"), "oo"
		k += ", o AS oo"
		w = cypher.With(its[0].e, used)
	}
	r := nodeN().RelationshipTo(cypher.AnyNodeNamed("m"), "T").NamedByString("r")
	p := nodeN().Property("p")
	switch pick("clause", 34) {
	case 0:
		nd.CheckEq("where", ok(w.Where(wrap(used).IsNull().Get()).Returning(used)), k+" WHERE "+as+" IS NULL RETURN "+as)
	case 1:
		nd.CheckEq("orderWith", ok(w.OrderByExpression(used).Descending().Returning(used)), k+" ORDER BY "+as+" DESC RETURN "+as)
	case 2:
		nd.CheckEq("orderReturn", ok(w.Returning(used).OrderBy(used).Ascending()), k+" RETURN "+as+" ORDER BY "+as+" ASC")
	case 3:
		nd.CheckEq("orderItem", ok(w.Returning(used).OrderBySortItem(cypher.Sort(z), cypher.Sort(used).Descending())), k+" RETURN "+as+" ORDER BY z, "+as+" DESC")
	case 4:
		nd.CheckEq("unwind", ok(w.Unwind(used).As("u").Returning(z)), k+" UNWIND "+as+" AS u RETURN z")
	case 5:
		nd.CheckEq("delete", ok(w.Delete(used, z)), k+" DELETE "+as+", z")
	case 6:
		nd.CheckEq("detach", ok(w.DetachDelete(z, used)), k+" DETACH DELETE z, "+as)
	case 7:
		nd.CheckEq("set", ok(w.Set(p.To(used))), k+" SET n.p = "+as)
	case 8:
		nd.CheckEq("create", ok(w.Create(cypher.ANode("L").WithRawProperties("k", used))), k+" CREATE (:`L` {k: "+as+"})")
	case 9:
		nd.CheckEq("merge", ok(w.Merge(r.WithRawProperties("k", used)).OnCreate().Set(p.To(used))), k+" MERGE (n:`L`)-[r:`T` {k: "+as+"}]->(m) ON CREATE SET n.p = "+as)
	case 10:
		nd.CheckEq("match", ok(w.Match(cypher.AnyNode().WithRawProperties("k", used)).Returning(z)), k+" MATCH ( {k: "+as+"}) RETURN z")
	case 11:
		nd.CheckEq("optional", ok(w.OptionalMatch(r).Where(wrap(used).IsEqualTo(z).Get()).Returning(used)), k+" OPTIONAL MATCH (n:`L`)-[r:`T`]->(m) WHERE "+as+" = z RETURN "+as)
	case 12:
		nd.CheckEq("with", ok(w.With(used, z).With(z, used).Returning(used)), k+" WITH "+as+", z WITH z, "+as+" RETURN "+as)
	case 13:
		nd.CheckEq("distinct", ok(w.WithDistinct(used).ReturningDistinct(used)), k+" WITH DISTINCT "+as+" RETURN DISTINCT "+as)
	case 14:
		nd.CheckEq("projection", ok(w.Returning(nodeN().Project("k", used))), k+" RETURN n{k: "+as+"}")
	case 15:
		nd.CheckEq("function", ok(w.Returning(cypher.Sum(used))), k+" RETURN sum("+as+")")
	case 16:
		nd.CheckEq("unwindList", ok(w.Unwinds(z, used).As("u").Returning(used)), k+" UNWIND [z, "+as+"] AS u RETURN "+as)
	case 17:
		nd.CheckEq("call", ok(w.Match(nodeN()).Call1("f").WithArgs(used, z).YieldString("y").Returning(used)), k+" MATCH (n:`L`) CALL f("+as+", z) YIELD y RETURN "+as)
	case 18:
		nd.CheckEq("and", ok(w.Where(wrap(used).IsNull().Get()).And(wrap(z).IsEqualTo(used).Get()).Returning(z)), k+" WHERE ("+as+" IS NULL AND z = "+as+") RETURN z")
	case 19:
		nd.CheckEq("newAlias", ok(w.Returning(aliased(used, "nn"), used)), k+" RETURN "+as+" AS nn, "+as)
	case 20:
		nd.CheckEq("path", ok(w.Match(cypher.APath("pp").DefinedBy(cypher.AnyNode().WithRawProperties("k", used).RelationshipTo(nodeN()))).Returning(z)), k+" MATCH pp = ( {k: "+as+"})-->(n:`L`) RETURN z")
	case 21:
		nd.CheckEq("exists", ok(w.Where(cypher.Match(nodeN()).Where(wrap(used).IsNull().Get()).AsCondition()).Returning(used)), k+" WHERE EXISTS {MATCH (n:`L`) WHERE "+as+" IS NULL } RETURN "+as)
	case 22:
		nd.CheckEq("andOrder", ok(w.Returning(used).OrderBy(z).Ascending().And(used).Descending()), k+" RETURN "+as+" ORDER BY z ASC, "+as+" DESC")
	case 23:
		nd.CheckEq("skip", ok(w.Returning(used, z).Skip(1).Limit(2)), k+" RETURN "+as+", z SKIP 1 LIMIT 2")
	case 24:
		nd.CheckEq("remove", ok(w.Set(p.To(used)).Returning(used)), k+" SET n.p = "+as+" RETURN "+as)
	case 25:
		nd.CheckEq("afterCreate", ok(w.Create(nodeN()).With(used).Returning(used)), k+" CREATE (n:`L`) WITH "+as+" RETURN "+as)
	case 26:
		nd.CheckEq("afterDelete", ok(w.Delete(z).Returning(used)), k+" DELETE z RETURN "+as)
	case 27:
		nd.CheckEq("star", ok(w.Returning(cypher.AnyNodeNamed("v").Project("k", cypher.ListOf(used, used)))), k+" RETURN v{k: ["+as+", "+as+"]}")
	case 28:
		nd.CheckEq("case", ok(w.Returning(cypher.CaseExpression(used).When(used).Then(used).ElseDefault(used).(expr))), k+" RETURN CASE "+as+" WHEN "+as+" THEN "+as+" ELSE "+as+" END")
	case 29:
		nd.CheckEq("subquery", ok(w.Call(statement(cypher.CypherReturning(z))).Returning(used)), k+" CALL {RETURN z} RETURN "+as)
	case 30:
		nd.CheckEq("onMatch", ok(w.Merge(nodeN()).OnMatch().Set(p.To(used))), k+" MERGE (n:`L`) ON MATCH SET n.p = "+as)
	case 31:
		nd.CheckEq("setMap", ok(w.SetWithNamed(nodeN(), used)), k+" SET n = "+as)
	case 32:
		nd.CheckEq("increment", ok(w.Set(cypher.OperationCreate(cypher.ASymbolic("v"), cypher.MUTATE, used))), k+" SET v += "+as)
	case 33:
		nd.CheckEq("pow", ok(w.Returning(wrap(used).Pow(used).Get(), wrap(used).Add(z).Get())), k+" RETURN "+as+"^"+as+", ("+as+" + z)")
	}
}

func statement(b cypher.BuildableStatement) cypher.Statement {
	st, err := b.Build()
	nd.Check("accepted", err == nil)
	return st
}

// Parts of a union, sub-queries and YIELD items define aliases of their own.
func C11_parts() {
	a := aliasOf("alias")
	k := pick("kind", nArgs)
	its := alItems(k, a, "al")
	i := its[pick("1st", len(its))]
	j := its[k%len(its)]
	if nd.Thorough() {
		j = its[pick("2nd", len(its))]
	}
	part := func(rs ...item) string { return "WITH z RETURN " + scope{}.project(rs) }
	build := func(rs ...item) cypher.Statement { return statement(cypher.With(sym("z")).Returning(exprs(rs)...)) }
	x := sym("x")
	ax, bx := aliased(x, a), aliased(x, a+"y")
	switch pick("where", 6) {
	case 0:
		nd.CheckEq("union", ok(stmt{cypher.UnionAll(build(i, j), build(i, j), build(j, i))}), part(i, j)+" UNION ALL "+part(i, j)+" UNION ALL "+part(j, i))
	case 1:
		nd.CheckEq("unionTwo", ok(stmt{cypher.Union(build(i), build(j))}), part(i)+" UNION "+part(j))
	case 2:
		nd.CheckEq("yields", ok(cypher.ACallSimple("f").Yield(ax, bx).Returning(bx, x, ax)), "CALL f() YIELD x AS "+a+", x AS "+a+"y RETURN "+a+"y, "+a+", "+a)
	case 3:
		nd.CheckEq("yieldAfter", ok(cypher.With(ax).Match(nodeN()).Call1("f").Yield(bx, ax).Returning(ax, bx)), "WITH x AS "+a+" MATCH (n:`L`) CALL f() YIELD x AS "+a+"y, x AS "+a+" RETURN "+a+", "+a+"y")
	case 4:
		b := ax.Aliased("bb").Aliased("cc").As("dd").Get()
		nd.CheckEq("chain", ok(cypher.With(ax).Returning(b, x)), "WITH x AS "+a+" RETURN "+a+" AS dd, "+a)
		nd.CheckEq("chainAlone", ok(cypher.With(b).Returning(b, x)), "WITH x AS dd RETURN dd, dd")
	case 5:
		n := nodeN().As(a)
		nd.CheckEq("node", ok(cypher.Match(nodeN()).With(n, nodeN().As("nn")).Returning(n)), "MATCH (n:`L`) WITH n AS "+a+", n AS nn RETURN "+a)
	}
}

// Each part of a union in a sub-query knows the aliases of before the
// sub-query and its own, not those of the other parts.
func C11_union() {
	a, b := aliasOf("alias"), "al"
	kinds := []int{0, 22}
	if nd.Thorough() {
		kinds = []int{0, 1, 6, 12, 22, 16, 5, 29, 28}
	}
	k := kinds[pick("kind", len(kinds))]
	x, y := argOf(k, "d"), sym("y")
	outer := pick("outer", 2) == 1
	n := 2
	if pick("three", 2) == 1 {
		n = 3
	}
	var parts []cypher.Statement
	var ts []string
	xs, ys := false, n
	for i := 0; i < n; i++ {
		in := scope{}
		if outer {
			in["d"] = []string{a}
		}
		dx := item{"d", "", x.e, x.t}
		dy := item{"y", "", y, "y"}
		xb := item{"d", b, aliased(x.e, b), x.t}
		yb := item{"y", b, aliased(y, b), "y"}
		var its []item
		switch pick("part"+string(rune('0'+i)), 4) {
		case 0:
			its = []item{dy, dx}
		case 1:
			its = []item{yb, dy, dx}
			ys--
		case 2:
			its = []item{xb, dx}
			xs = true
		case 3:
			its = []item{dx}
			parts = append(parts, statement(cypher.With(aliased(y, "w"), x.e).Returning(y)))
			ts = append(ts, "WITH y AS w, "+in.mention(dx)+" RETURN w")
			ys = -9
			continue
		}
		parts = append(parts, statement(cypher.CypherReturning(exprs(its)...)))
		ts = append(ts, "RETURN "+in.project(its))
	}
	word := " UNION "
	var u cypher.Statement
	if pick("all", 2) == 1 {
		u, word = cypher.UnionAll(parts...), " UNION ALL "
	} else {
		u = cypher.Union(parts...)
	}
	call := "CALL {" + strings.Join(ts, word) + "}"
	after := []item{}
	in := scope{}
	if outer && !xs {
		in["d"] = []string{a}
		after = append(after, item{"d", "", x.e, x.t})
	}
	if ys == 0 {
		in["y"] = []string{b}
		after = append(after, item{"y", "", y, "y"})
	}
	after = append(after, item{"z", "", sym("z"), "z"})
	want := call + " RETURN " + in.project(after)
	if outer {
		nd.CheckEq("union", ok(cypher.With(aliased(x.e, a)).Call(u).Returning(exprs(after)...)), "WITH "+x.t+" AS "+a+" "+want)
	} else {
		nd.CheckEq("union", ok(cypher.With(sym("q")).Call(u).Returning(exprs(after)...)), "WITH q "+want)
	}
}

// Every one of several different expressions has its own alias afterwards.
func C11_several() {
	a, b := aliasOf("alias"), "al"
	k := pick("kind", nArgs)
	d, e, f := argOf(k, "d"), argOf((k+7)%nArgs, "e"), argOf((k+13)%nArgs, "f")
	ad, ae, af := aliased(d.e, a), aliased(e.e, b), aliased(f.e, "am")
	all := []expr{f.e, d.e, e.e, ae, ad}
	mention := "am, " + a + ", " + b + ", " + b + ", " + a
	items := d.t + " AS " + a + ", " + e.t + " AS " + b + ", " + f.t + " AS am"
	x, y, z := sym("x"), sym("y"), sym("z")
	ax, ay, az := aliased(x, a), aliased(y, b), aliased(z, "am")
	switch pick("where", 8) {
	case 0:
		nd.CheckEq("with", ok(cypher.With(ad, ae, af).Returning(all...)), "WITH "+items+" RETURN "+mention)
	case 1:
		nd.CheckEq("twice", ok(cypher.With(ad, ae, af).WithDistinct(f.e, d.e, e.e).Returning(all...)), "WITH "+items+" WITH DISTINCT am, "+a+", "+b+" RETURN "+mention)
	case 2:
		nd.CheckEq("distinct", ok(cypher.Match(nodeN()).WithDistinct(ad, ae).With(af).Returning(all...)), "MATCH (n:`L`) WITH DISTINCT "+d.t+" AS "+a+", "+e.t+" AS "+b+" WITH "+f.t+" AS am RETURN "+mention)
	case 3:
		nd.CheckEq("yield", ok(cypher.ACallSimple("f").Yield(ax, ay, az).Returning(z, y, x, ax, az)), "CALL f() YIELD x AS "+a+", y AS "+b+", z AS am RETURN am, "+b+", "+a+", "+a+", am")
	case 4:
		nd.CheckEq("yieldIn", ok(cypher.Match(nodeN()).Call1("f").Yield(ax, ay, az).With(y).Returning(z, y, x)), "MATCH (n:`L`) CALL f() YIELD x AS "+a+", y AS "+b+", z AS am WITH "+b+" RETURN am, "+b+", "+a)
	case 5:
		nd.CheckEq("order", ok(cypher.With(ad, ae, af).OrderBySortItem(cypher.Sort(e.e), cypher.Sort(ad).Descending()).Returning(all...).OrderBy(d.e).Descending().And(af)), "WITH "+items+" ORDER BY "+b+", "+a+" DESC RETURN "+mention+" ORDER BY "+a+" DESC, am")
	case 6:
		nd.CheckEq("unwind", ok(cypher.With(ax, ay).Unwind(ay).As("u").Unwind(x).As("v").Returning(z)), "WITH x AS "+a+", y AS "+b+" UNWIND "+b+" AS u UNWIND "+a+" AS v RETURN z")
		nd.CheckEq("unwindName", ok(cypher.Unwind(ay).As("u").Returning(z)), "UNWIND "+b+" AS u RETURN z")
	case 7:
		u := cypher.Union(statement(cypher.CypherReturning(ad, ae)), statement(cypher.CypherReturning(ad, ae)))
		nd.CheckEq("union", ok(cypher.With(af).Call(u).Returning(all...)), "WITH "+f.t+" AS am CALL {RETURN "+d.t+" AS "+a+", "+e.t+" AS "+b+" UNION RETURN "+d.t+" AS "+a+", "+e.t+" AS "+b+"} RETURN "+mention)
	}
}
