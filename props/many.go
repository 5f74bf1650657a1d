package props

import (
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// What a call renders must not depend on how many things it is given, or how
// deep they lie.

func manySize() int {
	if nd.Thorough() {
		return 6 + pick("size", 130)
	}
	if n := pick("size", 64); n < 60 {
		return 7 + n
	} else {
		return []int{100, 127, 128, 129}[n-60]
	}
}

// manyOf gives n expressions, the one at some place of some other kind.
func manyOf(n int) ([]expr, []string) {
	var es []expr
	var ts []string
	for i := 0; i < n; i++ {
		t := "x" + itoa(i)
		es, ts = append(es, sym(t)), append(ts, t)
	}
	return es, ts
}

func anies(es []expr) []any {
	var r []any
	for _, e := range es {
		r = append(r, e)
	}
	return r
}

func C07_many() {
	n := manySize()
	_, ts := manyOf(n)
	var t []string
	switch pick("clause", 4) {
	case 0:
		b := cypher.Match(cypher.AnyNodeNamed(ts[0]))
		t = append(t, "MATCH ("+ts[0]+")")
		for _, x := range ts[1:] {
			b = b.Match(cypher.AnyNodeNamed(x))
			t = append(t, "MATCH ("+x+")")
		}
		nd.CheckEq("matches", ok(b.Returning(sym("z"))), strings.Join(t, " ")+" RETURN z")
	case 1:
		b := cypher.With(sym(ts[0]))
		t = append(t, "WITH "+ts[0])
		for _, x := range ts[1:] {
			b = b.With(sym(x))
			t = append(t, "WITH "+x)
		}
		nd.CheckEq("withs", ok(b.Returning(sym("z"))), strings.Join(t, " ")+" RETURN z")
	case 2:
		b := cypher.Create(cypher.AnyNodeNamed(ts[0]))
		t = append(t, "CREATE ("+ts[0]+")")
		for i, x := range ts[1:] {
			if i%2 == 0 {
				b = b.Merge(cypher.AnyNodeNamed(x))
				t = append(t, "MERGE ("+x+")")
			} else {
				b = b.Create(cypher.AnyNodeNamed(x))
				t = append(t, "CREATE ("+x+")")
			}
		}
		nd.CheckEq("updates", ok(b.Returning(sym("z"))), strings.Join(t, " ")+" RETURN z")
	case 3:
		b := cypher.Unwind(sym("l")).As(ts[0])
		t = append(t, "UNWIND l AS "+ts[0])
		for _, x := range ts[1:] {
			b = b.Unwind(sym("l")).As(x)
			t = append(t, "UNWIND l AS "+x)
		}
		nd.CheckEq("unwinds", ok(b.Returning(sym("z"))), strings.Join(t, " ")+" RETURN z")
	}
}

func C08_many() {
	n := manySize()
	op := pick("operator", 3)
	word := []string{" AND ", " OR ", " XOR "}[op]
	join := func(a, b cond) cond {
		switch op {
		case 0:
			return a.And(b).Get()
		case 1:
			return a.Or(b).Get()
		}
		return a.Xor(b).Get()
	}
	var c cond
	var ts []string
	for i := 0; i < n; i++ {
		x := "x" + itoa(i)
		d := isNull(x)
		t := x + " IS NULL"
		if i%5 == 3 {
			d, t = d.Not().Get(), "NOT ("+t+")"
		}
		ts = append(ts, t)
		if c == nil {
			c = d
		} else {
			c = join(c, d)
		}
	}
	nd.CheckEq("chain", where(c), wherePre+"("+strings.Join(ts, word)+")"+wherePost)
	// one in another
	o := &operands{}
	f := o.leaf()
	depth := 3 + pick("depth", 10)
	for i := 0; i < depth; i++ {
		g := o.leaf()
		if i%2 == 0 {
			f = join2(op, g, f)
		} else {
			f = join2((op+1)%3, g, f)
		}
		if i%3 == 2 {
			f = o.not(0, f)
		}
	}
	same(o, f, where(f.c), wherePre, wherePost)
}

func join2(op int, a, b formula) formula {
	return join(0, []int{opAnd, opOr, opXor}[op], a, b)
}

func C09_many() {
	n := manySize()
	o := binopOf([]int{11, 12, 14, 15, 17}[pick("operator", 5)])
	if n > 40 {
		n = 40
	}
	a := arg{e: sym("x"), t: "x"}
	right := pick("side", 2) == 1
	for i := 0; i < n; i++ {
		b := arg{e: sym("y" + itoa(i)), t: "y" + itoa(i)}
		l, r := a, b
		if right {
			l, r = b, a
		}
		a = arg{e: o.call(l.e, r.e), t: o.joined(l, r)}
		if o.kind == 2 {
			a.cond = -1
		}
	}
	if o.kind == 2 {
		return // how powers of powers are grouped is looked at elsewhere
	}
	placed("operators", 0, a.e, a.t)
}

func C10_many() {
	n := manySize()
	_, ts := manyOf(n)
	switch pick("what", 4) {
	case 0:
		l := ":`" + strings.Join(ts, "`:`") + "`"
		nd.CheckEq("labels", ok(cypher.Match(cypher.NewNodeWithLabels(ts[0], ts[1:]...).NamedByString("n")).Returning(sym("z"))), "MATCH (n"+l+") RETURN z")
		nd.CheckEq("condition", ok(cypher.Match(nodeN()).Where(nodeN().HasLabels(ts...)).Returning(sym("z"))), "MATCH (n:`L`) WHERE n"+l+" RETURN z")
	case 1:
		l := ":`" + strings.Join(ts, "`|`") + "`"
		nd.CheckEq("types", ok(cypher.Match(cypher.AnyNode().RelationshipTo(cypher.AnyNode(), ts...)).Returning(sym("z"))), "MATCH ()-["+l+"]->() RETURN z")
	case 2:
		var ps []cypher.PatternElement
		var pt []string
		for i, x := range ts {
			if i%3 == 1 {
				ps, pt = append(ps, hop(x)), append(pt, hopText(x))
			} else {
				ps, pt = append(ps, cypher.AnyNodeNamed(x)), append(pt, "("+x+")")
			}
		}
		t := strings.Join(pt, ", ")
		nd.CheckEq("match", ok(cypher.Match(ps...).Returning(sym("z"))), "MATCH "+t+" RETURN z")
		nd.CheckEq("create", ok(cypher.Create(ps...)), "CREATE "+t)
	case 3:
		first := cypher.ANode("A").NamedByString("a")
		c := first.RelationshipTo(cypher.AnyNodeNamed(ts[0]), "T").RelationshipFrom(cypher.AnyNodeNamed(ts[1]), "T")
		t := "(a:`A`)-[:`T`]->(" + ts[0] + ")<-[:`T`]-(" + ts[1] + ")"
		for i, x := range ts[2:] {
			if i%2 == 0 {
				c = c.RelationshipTo(cypher.AnyNodeNamed(x), "T"+x)
				t += "-[:`T" + x + "`]->(" + x + ")"
			} else {
				c = c.RelationshipFrom(first, "T").NamedC("r" + x)
				t += "<-[r" + x + ":`T`]-(a)"
			}
		}
		nd.CheckEq("chain", ok(cypher.Match(c).Returning(sym("z"))), "MATCH "+t+" RETURN z")
	}
}

func C11_many() {
	n := manySize()
	var as, es []expr
	var at, et, rt []string
	for i := 0; i < n; i++ {
		e := cypher.AProperty("n", "p"+itoa(i))
		a := "a" + itoa(i)
		es, as = append(es, e), append(as, aliased(e, a))
		at, et, rt = append(at, "n.p"+itoa(i)+" AS "+a), append(et, a), append(rt, "")
	}
	nd.CheckEq("with", ok(cypher.With(as...).Returning(es...)), "WITH "+strings.Join(at, ", ")+" RETURN "+strings.Join(et, ", "))
	nd.CheckEq("return", ok(cypher.Match(nodeN()).Returning(as...).OrderBy(es[n-1]).Ascending().And(es[0]).Descending()), "MATCH (n:`L`) RETURN "+strings.Join(at, ", ")+" ORDER BY "+et[n-1]+" ASC, "+et[0]+" DESC")
	// an alias at any depth
	if n > 40 {
		return
	}
	depth, how := n, pick("how", 5)
	e, t := es[1], et[1]
	for i := 0; i < depth; i++ {
		e, t = deeper(how, e, t, i)
	}
	nd.CheckEq("deep", ok(cypher.With(as[:2]...).Returning(e)), "WITH "+strings.Join(at[:2], ", ")+" RETURN "+t)
}

// deeper puts an expression into another one.
func deeper(how int, e expr, t string, i int) (expr, string) {
	switch how {
	case 0:
		return cypher.ListOf(sym("l"), e), "[l, " + t + "]"
	case 1:
		return cypher.MapOf("k", e, "j", sym("l")), "{k: " + t + ", j: l}"
	case 2:
		return cypher.Coalesce(e, sym("l")), "coalesce(" + t + ", l)"
	case 3:
		return wrap(sym("l")).Subtract(e).Get(), "(l - " + t + ")"
	}
	if i%2 == 0 {
		return cypher.CypherListWith(cypher.ASymbolic("v")).In(e).Returning(sym("v")), "[v IN " + t + " | v]"
	}
	return cypher.CaseExpression(sym("l")).When(e).Then(sym("o")).(expr), "CASE l WHEN " + t + " THEN o END"
}

func C12_many() {
	n := manySize()
	es, ts := manyOf(n)
	t := strings.Join(ts, ", ")
	placed("coalesce", 0, cypher.Coalesce(es...), "coalesce("+t+")")
	placed("own", 0, cypher.FunctionInvocationCreateWithFunctionName("my.own", es...), "my.own("+t+")")
	placed("distinct", 0, cypher.FunctionInvocationCreateDistinct(cypher.PERCENTILE_CONT, es...), "percentileCont(DISTINCT "+t+")")
	placed("plain", 0, cypher.FunctionInvocationCreate(cypher.PERCENTILE_CONT, es...), "percentileCont("+t+")")
	placed("call", 0, cypher.ACall("a", "b").WithArgs(es...).AsFunction(), "a.b("+t+")")
	e, d := sym("x"), "x"
	for i := 0; i < n && i < 40; i++ {
		f := fnOf([]int{2, 9, 3, 8, 11}[i%5])
		e, d = f.call([]expr{e}), f.text([]string{d})
	}
	placed("nested", 0, e, d)
}

func C13_many() {
	n := manySize()
	es, ts := manyOf(n)
	t := strings.Join(ts, ", ")
	switch pick("part", 4) {
	case 0:
		nd.CheckEq("arguments", ok(cypher.ACall("f").WithArgs(es...).YieldString(ts...).Returning(es...)), "CALL f("+t+") YIELD "+t+" RETURN "+t)
		nd.CheckEq("later", ok(cypher.Match(nodeN()).Call1("f").WithArgs(es...).YieldString(ts...).Returning(es...)), "MATCH (n:`L`) CALL f("+t+") YIELD "+t+" RETURN "+t)
	case 1:
		var ps []cypher.Statement
		var pt []string
		for i := range es {
			ps, pt = append(ps, returning(es[i])), append(pt, "RETURN "+ts[i])
		}
		nd.CheckEq("union", ok(stmt{cypher.Union(ps...)}), strings.Join(pt, " UNION "))
		nd.CheckEq("all", ok(stmt{cypher.UnionAll(ps...)}), strings.Join(pt, " UNION ALL "))
		nd.CheckEq("nested", ok(stmt{cypher.UnionAll(cypher.UnionAll(ps[:n/2]...), ps[n/2])}), strings.Join(pt[:n/2+1], " UNION ALL "))
	case 2:
		b := cypher.Match(nodeN())
		want := "MATCH (n:`L`)"
		for i := range es {
			b = b.Call(returning(es[i]))
			want += " CALL {RETURN " + ts[i] + "}"
		}
		nd.CheckEq("subqueries", ok(b.Returning(sym("z"))), want+" RETURN z")
	case 3:
		s, d := returning(sym("x")), "RETURN x"
		for i := 0; i < n && i < 24; i++ {
			s, d = statement(cypher.ACallByStatement(s).Returning(es[i])), "CALL {"+d+"} RETURN "+ts[i]
		}
		nd.CheckEq("depth", ok(stmt{s}), d)
	}
}

func C14_many() {
	n := manySize()
	es, ts := manyOf(n)
	var kv []any
	var added []expr
	var t, pt []string
	for i := range es {
		kv = append(kv, "k"+itoa(i), es[i])
		added = append(added, cypher.KeyValueMapEntryCreate("k"+itoa(i), es[i]))
		t = append(t, "k"+itoa(i)+": "+ts[i])
		pt = append(pt, ".k"+itoa(i))
	}
	m := "{" + strings.Join(t, ", ") + "}"
	switch pick("what", 5) {
	case 0:
		placed("map", 0, cypher.MapOf(kv...), m)
		placed("added", 0, cypher.MapOf(kv[:2]...).AddEntries(added[1:]), m)
	case 1:
		placed("projection", 0, cypher.AnyNodeNamed("n").Project(kv...), "n"+m)
		placed("and", 0, cypher.AnyNodeNamed("n").Project(kv[:4]...).And(kv[4:]...), "n"+m)
	case 2:
		var keys []any
		for i := range es {
			keys = append(keys, "k"+itoa(i))
		}
		placed("keys", 0, cypher.AnyNodeNamed("n").Project(keys...), "n{"+strings.Join(pt, ", ")+"}")
	case 3:
		nd.CheckEq("node", ok(cypher.Create(cypher.ANode("A").WithRawProperties(kv...))), "CREATE (:`A` "+m+")")
	case 4:
		e, d := expr(cypher.AProperty("n", "p")), "n.p"
		x, xt := expr(sym("x")), "x"
		for i := 0; i < n && i < 40; i++ {
			e, d = cypher.PropertyCreate2(e, "k"+itoa(i)), d+".k"+itoa(i)
			x, xt = cypher.MapOf("a", sym("z"), "k"+itoa(i), x), "{a: z, k"+itoa(i)+": "+xt+"}"
		}
		placed("lookup", 0, e, d)
		placed("nested", 0, x, xt)
	}
}

func C15_many() {
	n := manySize()
	b := branching{subject: "x"}
	g := branching{}
	var c extensible = cypher.CaseExpression(sym("x"))
	var d extensible = cypher.GenericCaseExpression()
	e, t := expr(sym("x")), "x"
	for i := 0; i < n; i++ {
		w, r := "w"+itoa(i), "r"+itoa(i)
		c, b = c.When(sym(w)).Then(sym(r)), b.when(w, r)
		d, g = d.When(isNull(w)).Then(sym(r)), g.when(w+" IS NULL", r)
		if i < 30 {
			e, t = cypher.CaseExpression(sym(w)).When(sym(r)).Then(e).(expr), "CASE "+w+" WHEN "+r+" THEN "+t+" END"
		}
	}
	placed("simple", 0, c.(expr), b.text())
	placed("generic", 0, d.ElseDefault(sym("z")).(expr), g.orElse("z").text())
	placed("nested", 0, e, t)
}

func C16_many() {
	n := manySize()
	es, ts := manyOf(n)
	t := strings.Join(ts, ", ")
	var ss []cypher.SortItem
	var st []string
	for i := range es {
		s, x := sorted(i%3, es[i], ts[i])
		ss, st = append(ss, s), append(st, x)
	}
	o := " ORDER BY " + strings.Join(st, ", ")
	m := cypher.Match(nodeN())
	switch pick("what", 4) {
	case 0:
		nd.CheckEq("return", ok(m.Returning(es...).OrderBySortItem(ss...).Skip(n).Limit(n)), "MATCH (n:`L`) RETURN "+t+o+" SKIP "+itoa(n)+" LIMIT "+itoa(n))
		nd.CheckEq("distinct", ok(m.ReturningDistinctByString(ts...)), "MATCH (n:`L`) RETURN DISTINCT "+t)
	case 1:
		nd.CheckEq("with", ok(m.With(es...).OrderBySortItem(ss...).Skip(n).Limit(n).Returning(es...)), "MATCH (n:`L`) WITH "+t+o+" SKIP "+itoa(n)+" LIMIT "+itoa(n)+" RETURN "+t)
		nd.CheckEq("withDistinct", ok(m.WithDistinctByString(ts...).Returning(sym("z"))), "MATCH (n:`L`) WITH DISTINCT "+t+" RETURN z")
	case 2:
		v := m.Returning(es...).OrderBy(es[0])
		w := ts[0]
		for i := range es[1:] {
			v = v.Descending().And(es[i+1])
			w += " DESC, " + ts[i+1]
		}
		nd.CheckEq("ands", ok(v), "MATCH (n:`L`) RETURN "+t+" ORDER BY "+w)
	case 3:
		v := m.With(es...).OrderByExpression(es[0])
		w := ts[0]
		for i := range es[1:] {
			v = v.Ascending().And1(es[i+1])
			w += " ASC, " + ts[i+1]
		}
		nd.CheckEq("withAnds", ok(v.Descending().Returning(sym("z"))), "MATCH (n:`L`) WITH "+t+" ORDER BY "+w+" DESC RETURN z")
	}
}

func C17_many() {
	n := manySize()
	es, ts := manyOf(n)
	t := strings.Join(ts, ", ")
	placed("list", 0, cypher.ListOf(es...), "["+t+"]")
	nd.CheckEq("unwind", ok(cypher.UnwindMulti(es...).As("u").Returning(sym("z"))), "UNWIND ["+t+"] AS u RETURN z")
	nd.CheckEq("unwinds", ok(cypher.Match(nodeN()).Unwinds(es...).As("u").Returning(sym("z"))), "MATCH (n:`L`) UNWIND ["+t+"] AS u RETURN z")
	var ls []cypher.Literal
	var raw []any
	var lt []string
	for i := range es {
		ls, raw, lt = append(ls, cypher.LiteralOf(i)), append(raw, i), append(lt, itoa(i))
	}
	placed("literals", 0, cypher.ListLiteralCreate(ls), "["+strings.Join(lt, ", ")+"]")
	placed("raw", 0, cypher.ListOfRaw(raw...), "["+strings.Join(lt, ", ")+"]")
	placed("comprehension", 0, cypher.CypherListWith(cypher.ASymbolic("v")).In(sym("x")).Returning(es...), "[v IN x | ["+t+"]]")
	placed("pattern", 0, cypher.ListBasedOn(hop("a")).Returning(es...), "["+hopText("a")+" | ["+t+"]]")
	e, d := expr(sym("x")), "x"
	f, g := expr(sym("x")), "x"
	for i := 0; i < n && i < 40; i++ {
		e, d = cypher.CypherValueAt(e, i), d+"["+itoa(i)+"]"
		f, g = cypher.ListOf(f, es[i]), "["+g+", "+ts[i]+"]"
	}
	placed("deep", 0, e, d)
	placed("nested", 0, f, g)
}

func C20_many() {
	n := manySize()
	es, ts := manyOf(n)
	t := strings.Join(ts, ", ")
	m := cypher.Match(nodeN())
	l := ":`" + strings.Join(ts, "`:`") + "`"
	z := sym("z")
	var pairs, tos []expr
	var ps []cypher.Property
	var pt, rt []string
	for i := range es {
		p := cypher.AProperty("n", "p"+itoa(i))
		pairs, tos, ps = append(pairs, p, es[i]), append(tos, p.To(es[i])), append(ps, p)
		pt, rt = append(pt, "n.p"+itoa(i)+" = "+ts[i]), append(rt, "n.p"+itoa(i))
	}
	set := "SET " + strings.Join(pt, ", ")
	switch pick("update", 6) {
	case 0:
		nd.CheckEq("delete", ok(m.Delete(es...).Returning(z)), "MATCH (n:`L`) DELETE "+t+" RETURN z")
		nd.CheckEq("detach", ok(m.DetachDeleteByString(ts...).Returning(z)), "MATCH (n:`L`) DETACH DELETE "+t+" RETURN z")
	case 1:
		nd.CheckEq("pairs", ok(m.Set(pairs...)), "MATCH (n:`L`) "+set)
		nd.CheckEq("set", ok(m.Set(tos...)), "MATCH (n:`L`) "+set)
	case 2:
		nd.CheckEq("remove", ok(m.Remove(ps...)), "MATCH (n:`L`) REMOVE "+strings.Join(rt, ", "))
	case 3:
		nd.CheckEq("labels", ok(m.SetByNode(nodeN(), ts...)), "MATCH (n:`L`) SET n"+l)
		nd.CheckEq("removed", ok(m.RemoveByNode(nodeN(), ts...)), "MATCH (n:`L`) REMOVE n"+l)
	case 4:
		nd.CheckEq("actions", ok(cypher.Merge(nodeN()).OnCreate().Set(pairs...).OnMatch().Set(tos...)), "MERGE (n:`L`) ON CREATE "+set+" ON MATCH "+set)
	case 5:
		v := cypher.Merge(nodeN()).OnCreate().Set(tos[0])
		w := "MERGE (n:`L`) ON CREATE SET " + pt[0]
		for i := range tos[1:] {
			v = v.OnMatch().Set(tos[i+1])
			w += " ON MATCH SET " + pt[i+1]
		}
		nd.CheckEq("manyActions", ok(v), w)
	}
}

// Values that were built by many steps are as independent as others.
func C06_many() {
	kind := pick("kind", nValueKinds)
	k := valueKind(kind)
	first := pick("first", len(k.ext))
	if kind == 16 && first == 5 {
		return // it doubles every time
	}
	times := 4 + pick("times", 14)
	v := valuePath(k, first, times)
	before := shown(k, v)
	j := (first + times) % len(k.ext)
	a := k.ext[first](v, "v")
	at := shown(k, a)
	b := k.ext[first](v, "w")
	bt := shown(k, b)
	c := k.ext[j](v, "y")
	nd.CheckEq("other", bt, shown(k, k.ext[first](valuePath(k, first, times), "w")))
	nd.CheckEq("third", shown(k, c), shown(k, k.ext[j](valuePath(k, first, times), "y")))
	nd.CheckEq("second", shown(k, b), bt)
	nd.CheckEq("first", shown(k, a), at)
	nd.CheckEq("prefix", shown(k, v), before)
}
