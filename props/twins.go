package props

import (
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// What a call renders must not depend on whether two of its arguments happen
// to be the same value, to have the same text, or to differ in the case of a
// letter only. The harnesses here give calls such arguments.

var twinKinds = []int{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 14, 15, 16, 20, 29, 30, 31}
var twinConds = []int{8, 12, 17, 18, 24, 26, 27, 33}

// twins gives n arguments of one kind, of which any may be alike.
func twins(kinds []int, n int) []arg {
	k := kinds[pick("kind", len(kinds))]
	return alike(n, func(id string) arg { return argOf(k, id) })
}

// classesOf divides n values into classes of values that are alike.
func classesOf(n int) (class []int, classes int) {
	class, classes = make([]int, n), 1
	for i := 1; i < n; i++ {
		class[i] = pick("like", classes+1)
		if class[i] == classes {
			classes++
		}
	}
	return
}

// alike gives n values, of which any may be alike.
func alike(n int, of func(id string) arg) []arg {
	class, classes := classesOf(n)
	way := 0
	if classes < n {
		way = pick("way", 4)
	}
	first := make([]arg, classes)
	times := make([]int, classes)
	as := make([]arg, n)
	for i, c := range class {
		id := stepText(c)
		if times[c] > 0 {
			switch way {
			case 0: // the very same value
				as[i] = first[c]
				continue
			case 2: // the other case
				if times[c]%2 == 1 {
					id = strings.ToUpper(id)
				}
			case 3: // a longer name
				id = id + stepText(times[c])
			}
		}
		as[i] = of(id)
		if times[c] == 0 {
			first[c] = as[i]
		}
		times[c]++
	}
	return as
}

func exprsOf(as []arg) (es []expr, ts []string) {
	for _, a := range as {
		es, ts = append(es, a.e), append(ts, a.t)
	}
	return
}

func C09_same() {
	if pick("operators", 2) == 0 {
		o := binopOf(pick("operator", nBinops))
		as := twins(twinKinds, 2)
		placed("binary", 0, o.call(as[0].e, as[1].e), o.joined(as[0], as[1]))
		return
	}
	o, p := binopOf(12), binopOf(13+pick("second", 2)*4)
	as := twins([]int{0, 1, 2, 4, 9, 30}, 4)
	l, r := arg{e: o.call(as[0].e, as[1].e), t: o.joined(as[0], as[1])}, arg{e: p.call(as[2].e, as[3].e), t: p.joined(as[2], as[3])}
	if p.kind == 2 {
		r.cond = -1
	}
	q := binopOf([]int{1, 3, 10, 14}[pick("top", 4)])
	placed("two", 0, q.call(l.e, r.e), q.text(l.operand(), r.operand()))
}

func C12_same() {
	switch pick("function", 2) {
	case 0:
		var fs []int
		for i := 0; i < nFns; i++ {
			if f := fnOf(i); f.n > 1 && f.n < 5 {
				fs = append(fs, i)
			}
		}
		f := fnOf(fs[pick("fn", len(fs))])
		es, ts := exprsOf(twins(twinKinds, f.n))
		placed("call", 0, f.call(es), f.text(ts))
	case 1: // one inside the other
		f, g := fnOf([]int{8, 9, 3, 30, 36}[pick("outer", 5)]), fnOf([]int{8, 9, 2, 20, 35}[pick("inner", 5)])
		es, ts := exprsOf(twins([]int{0, 1, 9}, g.n))
		e, t := g.call(es), g.text(ts)
		var fe []expr
		var ft []string
		for i := 0; i < f.n; i++ {
			fe, ft = append(fe, e), append(ft, t)
		}
		placed("nested", 0, f.call(fe), f.text(ft))
	}
}

func C13_same() {
	switch pick("part", 6) {
	case 5: // parts of a name
		as := alike(4, func(id string) arg { return arg{t: "p" + id} })
		name, t := []string{}, ""
		for i, a := range as {
			name = append(name, a.t)
			if i > 0 {
				t += "."
			}
			t += a.t
		}
		nd.CheckEq("standalone", ok(cypher.ACall(name...)), "CALL "+t+"()")
		nd.CheckEq("inQuery", ok(cypher.Match(nodeN()).Call1(name...).YieldString(name[0]).Returning(sym("z"))), "MATCH (n:`L`) CALL "+t+"() YIELD "+name[0]+" RETURN z")
		nd.CheckEq("function", ok(cypher.CypherReturning(cypher.ACall(name...).AsFunction())), "RETURN "+t+"()")
	case 0:
		es, ts := exprsOf(twins(twinKinds, 3))
		t := strings.Join(ts, ", ")
		nd.CheckEq("call", ok(cypher.ACall("f").WithArgs(es...)), "CALL f("+t+")")
		nd.CheckEq("later", ok(cypher.Match(nodeN()).Call1("f").WithArgs(es...).YieldString("i", "I", "j").Returning(sym("i"))), "MATCH (n:`L`) CALL f("+t+") YIELD i, I, j RETURN i")
	case 1: // yields
		as := alike(3, func(id string) arg { return arg{e: sym("y" + id), t: "y" + id} })
		b := cypher.ACallSimple("f").YieldString(as[0].t, as[1].t, as[2].t)
		nd.CheckEq("yield", ok(b.Returning(sym("z"))), "CALL f() YIELD "+as[0].t+", "+as[1].t+", "+as[2].t+" RETURN z")
	case 2: // the same statement several times
		s, t := query([]int{0, 4, 8}[pick("query", 3)], "a", "x")
		n, all := 2+pick("times", 3), pick("all", 2) == 1
		op, ps, ts := " UNION ", []cypher.Statement{s}, []string{t}
		if all {
			op = " UNION ALL "
		}
		for len(ps) < n {
			ps, ts = append(ps, s), append(ts, t)
		}
		nd.CheckEq("times", ok(stmt{unite(all, ps...)}), strings.Join(ts, op))
	case 3: // subqueries
		as := alike(2, func(id string) arg { return arg{t: "x" + id} })
		s := returning(sym(as[0].t))
		r := s
		if as[0].t != as[1].t {
			r = returning(sym(as[1].t))
		}
		nd.CheckEq("subqueries", ok(cypher.Match(nodeN()).Call(s).Call(r).Returning(sym("z"))), "MATCH (n:`L`) CALL {RETURN "+as[0].t+"} CALL {RETURN "+as[1].t+"} RETURN z")
		nd.CheckEq("union", ok(stmt{cypher.UnionAll(s, r, s)}), "RETURN "+as[0].t+" UNION ALL RETURN "+as[1].t+" UNION ALL RETURN "+as[0].t)
		nd.CheckEq("distinct", ok(stmt{cypher.Union(s, s, r)}), "RETURN "+as[0].t+" UNION RETURN "+as[0].t+" UNION RETURN "+as[1].t)
	case 4: // clauses
		es, ts := exprsOf(twins(twinKinds, 3))
		nd.CheckEq("unwinds", ok(cypher.Unwind(es[0]).As("u").Unwind(es[1]).As("v").Unwinds(es[1], es[2]).As("w").Returning(sym("z"))),
			"UNWIND "+ts[0]+" AS u UNWIND "+ts[1]+" AS v UNWIND ["+ts[1]+", "+ts[2]+"] AS w RETURN z")
	}
}

// keys are names that may be alike in all but case; a map cannot have the
// same one twice.
func keysOf(n int) []string {
	ks := []string{"id", "ID", "Id", "idx", "iD"}
	at := pick("key", 5)
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, ks[(at+i)%5])
	}
	return r
}

func C14_same() {
	es, ts := exprsOf(twins(twinKinds, 3))
	if pick("what", 2) == 0 {
		k := keysOf(3)
		m := cypher.MapOf(k[0], es[0], k[1], es[1], k[2], es[2])
		t := "{" + k[0] + ": " + ts[0] + ", " + k[1] + ": " + ts[1] + ", " + k[2] + ": " + ts[2] + "}"
		switch pick("use", 4) {
		case 0:
			placed("map", 0, m, t)
		case 1:
			nd.CheckEq("raw", ok(cypher.Create(cypher.ANode("A").WithRawProperties(k[0], es[0], k[1], es[1], k[2], es[2]))), "CREATE (:`A` "+t+")")
		case 2:
			r := cypher.AnyNode().RelationshipTo(cypher.AnyNode(), "T").WithRawProperties(k[0], es[0], k[1], es[1], k[2], es[2])
			nd.CheckEq("relationship", ok(cypher.Create(r)), "CREATE ()-[:`T` "+t+"]->()")
		case 3:
			o := cypher.MapOf(k[0], es[0]).AddEntries([]expr{cypher.KeyValueMapEntryCreate(k[1], es[1]), cypher.EntryExpressionCreate(k[2], es[2])})
			placed("added", 0, o, t)
		}
		return
	}
	k := keysOf(4)
	n := cypher.AnyNodeNamed("n")
	placed("projection", 0, n.Project(k[0], es[0], k[1], k[2], es[1], k[3], es[2]), "n{"+k[0]+": "+ts[0]+", ."+k[1]+", "+k[2]+": "+ts[1]+", "+k[3]+": "+ts[2]+"}")
	placed("lookup", 0, cypher.PropertyCreate2(cypher.PropertyCreate2(n.Property(k[0]), k[0]), k[1]), "n."+k[0]+"."+k[0]+"."+k[1])
}

func C15_same() {
	subject := pick("subject", 2) == 1
	var b branching
	var c extensible
	var as []arg
	if subject {
		as = twins([]int{0, 2, 4, 9, 30}, 5)
		c, b = cypher.CaseExpression(as[0].e), branching{subject: as[0].t}
	} else {
		as = twins(twinKinds, 3)
		k := pick("otherKind", 2)
		cs := alike(2, func(id string) arg { return argOf([]int{8, 12}[k], id) })
		c, b = cypher.GenericCaseExpression(), branching{}
		c, b = c.When(cs[0].e).Then(as[0].e), b.when(cs[0].t, as[0].t)
		c, b = c.When(cs[1].e).Then(as[1].e), b.when(cs[1].t, as[1].t)
		placed("generic", 0, c.ElseDefault(as[2].e).(expr), b.orElse(as[2].t).text())
		return
	}
	c, b = c.When(as[1].e).Then(as[2].e), b.when(as[1].t, as[2].t)
	c, b = c.When(as[3].e).Then(as[4].e), b.when(as[3].t, as[4].t)
	placed("simple", 0, c.(expr), b.text())
	placed("otherwise", 0, c.ElseDefault(as[1].e).(expr), b.orElse(as[1].t).text())
}

func C16_same() {
	distinct := pick("distinct", 2) == 1
	word := ""
	if distinct {
		word = "DISTINCT "
	}
	es, ts := exprsOf(twins([]int{0, 1, 4, 6, 7, 9, 20}, 4))
	s, st := sorted([]int{0, 2, 3}[pick("sorted", 3)], es[1], ts[1])
	r, rt := sorted(2, es[2], ts[2])
	n := 1 + pick("number", 2)*3
	nt := itoa(n)
	items := word + ts[0] + ", " + ts[1] + ", " + ts[2]
	m := cypher.Match(nodeN())
	if pick("clause", 2) == 0 {
		v := m.Returning(es[:3]...)
		if distinct {
			v = m.ReturningDistinct(es[:3]...)
		}
		nd.CheckEq("items", ok(v.OrderBySortItem(s, r).Skip(n).Limit(n)), "MATCH (n:`L`) RETURN "+items+" ORDER BY "+st+", "+rt+" SKIP "+nt+" LIMIT "+nt)
		nd.CheckEq("expressions", ok(v.OrderBy(es[0]).Descending().And(es[3]).Descending()), "MATCH (n:`L`) RETURN "+items+" ORDER BY "+ts[0]+" DESC, "+ts[3]+" DESC")
		return
	}
	v := m.With(es[:3]...)
	if distinct {
		v = m.WithDistinct(es[:3]...)
	}
	w := v.OrderBySortItem(s, r).Skip(n).Limit(n)
	nd.CheckEq("with", ok(w.Returning(es[1], es[1], es[3])), "MATCH (n:`L`) WITH "+items+" ORDER BY "+st+", "+rt+" SKIP "+nt+" LIMIT "+nt+" RETURN "+ts[1]+", "+ts[1]+", "+ts[3])
	nd.CheckEq("again", ok(w.With(es[:3]...).OrderByExpression(es[0]).Ascending().Returning(es[0])), "MATCH (n:`L`) WITH "+items+" ORDER BY "+st+", "+rt+" SKIP "+nt+" LIMIT "+nt+" WITH "+strings.Join(ts[:3], ", ")+" ORDER BY "+ts[0]+" ASC RETURN "+ts[0])
}

func C17_same() {
	as := twins(twinKinds, 4)
	es, ts := exprsOf(as)
	switch pick("list", 5) {
	case 0:
		placed("elements", 0, cypher.ListOf(es...), "["+strings.Join(ts, ", ")+"]")
		placed("nested", 0, cypher.ListOf(cypher.ListOf(es[0], es[1]), es[2], cypher.ListOf(es[3], es[1])), "[["+ts[0]+", "+ts[1]+"], "+ts[2]+", ["+ts[3]+", "+ts[1]+"]]")
	case 1:
		placed("between", 0, cypher.SubList(es[0], es[1], es[2]), ts[0]+"["+ts[1]+".."+ts[2]+"]")
		placed("at", 0, cypher.CypherValueAtByExpression(cypher.CypherValueAtByExpression(es[0], es[1]), es[3]), ts[0]+"["+ts[1]+"]["+ts[3]+"]")
	case 2:
		v, c := cypher.ASymbolic("v"), argOf(8, "a")
		placed("comprehension", 0, cypher.CypherListWith(v).In(es[0]).Where(c.e.(cond)).Returning(es[1]), "[v IN "+ts[0]+" WHERE "+c.t+" | "+ts[1]+"]")
		placed("inner", 0, cypher.CypherListWith(v).In(cypher.CypherListWith(v).In(es[0]).Returning(es[1])).Returning(es[2]), "[v IN [v IN "+ts[0]+" | "+ts[1]+"] | "+ts[2]+"]")
	case 3:
		placed("pattern", 0, cypher.ListBasedOn(hop("a")).Where(argOf(8, "a").e.(cond)).Returning(es[0]), "["+hopText("a")+" WHERE "+argOf(8, "a").t+" | "+ts[0]+"]")
		placed("predicate", 0, cypher.PredicateAll("v").In(es[0]).Where(es[1].IsEqualTo(es[2]).Get()), "all(v IN "+ts[0]+" WHERE "+as[1].operand()+" = "+as[2].operand()+")")
	case 4:
		as := alike(2, func(id string) arg { return argOf(8, id) })
		c, d := as[0], as[1]
		p := cypher.ListBasedOn(hop("a")).Where(c.e.(cond))
		placed("two", 0, p.And(d.e.(cond)).Returning(es[0]), "["+hopText("a")+" WHERE ("+c.t+" AND "+d.t+") | "+ts[0]+"]")
		placed("one", 0, p.Or(d.e.(cond)).Returning(es[0]), "["+hopText("a")+" WHERE ("+c.t+" OR "+d.t+") | "+ts[0]+"]")
	}
}

// labelsOf are labels that may be alike.
func labelsOf(n int) ([]string, string) {
	as := alike(n, func(id string) arg { return arg{t: "l" + id} })
	var ls []string
	t := ""
	for _, a := range as {
		ls = append(ls, a.t)
		t += ":`" + a.t + "`"
	}
	return ls, t
}

func C20_same() {
	n := cypher.NewNodeWithLabels("la", "lB", "lb").NamedByString("n")
	nt := "(n:`la`:`lB`:`lb`)"
	m := cypher.Match(n)
	z := sym("z")
	switch pick("update", 6) {
	case 0:
		as := twins(twinKinds, 3)
		es, ts := exprsOf(as)
		p := n.Property("p")
		o := p.To(es[0])
		nd.CheckEq("set", ok(m.Set(o, n.Property("P").To(es[1]), o, p, es[2])), "MATCH "+nt+" SET n.p = "+ts[0]+", n.P = "+ts[1]+", n.p = "+ts[0]+", n.p = "+ts[2])
		nd.CheckEq("named", ok(m.SetWithNamed(n, es[0]).SetWithNamed(n, es[1]).Returning(z)), "MATCH "+nt+" SET n = "+ts[0]+" SET n = "+ts[1]+" RETURN z")
		a := cypher.OperationCreate(cypher.ASymbolic("n"), cypher.MUTATE, es[0])
		nd.CheckEq("mutate", ok(m.Set(a, cypher.OperationCreate(cypher.ASymbolic("n"), cypher.MUTATE, es[1]), a)), "MATCH "+nt+" SET n += "+ts[0]+", n += "+ts[1]+", n += "+ts[0])
	case 1:
		es, ts := exprsOf(twins([]int{0, 1, 15, 30}, 3))
		t := strings.Join(ts, ", ")
		nd.CheckEq("delete", ok(m.Delete(es...).Returning(z)), "MATCH "+nt+" DELETE "+t+" RETURN z")
		nd.CheckEq("detach", ok(m.DetachDelete(es[0], es[1]).DetachDelete(es[2]).Returning(z)), "MATCH "+nt+" DETACH DELETE "+ts[0]+", "+ts[1]+" DETACH DELETE "+ts[2]+" RETURN z")
	case 2:
		var ps []cypher.Property
		as := alike(3, func(id string) arg {
			p := cypher.AProperty("n", "p"+id)
			return arg{e: p, t: "n.p" + id}
		})
		for _, a := range as {
			ps = append(ps, a.e.(cypher.Property))
		}
		nd.CheckEq("remove", ok(m.Remove(ps...).Remove(ps[0]).Returning(z)), "MATCH "+nt+" REMOVE "+as[0].t+", "+as[1].t+", "+as[2].t+" REMOVE "+as[0].t+" RETURN z")
		nd.CheckEq("both", ok(m.Set(ps[0], ps[1], ps[2], z).Remove(ps[2], ps[1]).Returning(z)), "MATCH "+nt+" SET "+as[0].t+" = "+as[1].t+", "+as[2].t+" = z REMOVE "+as[2].t+", "+as[1].t+" RETURN z")
	case 3:
		ls, t := labelsOf(1 + pick("labels", 4))
		nd.CheckEq("labels", ok(m.SetByNode(n, ls...).Returning(z)), "MATCH "+nt+" SET n"+t+" RETURN z")
		nd.CheckEq("removed", ok(m.RemoveByNode(n, ls...).Returning(z)), "MATCH "+nt+" REMOVE n"+t+" RETURN z")
		nd.CheckEq("operation", ok(m.Set(cypher.OperationSetLabel(n, ls...), cypher.OperationSetLabel(n, "lb")).Returning(z)), "MATCH "+nt+" SET n"+t+", n:`lb` RETURN z")
		nd.CheckEq("together", ok(m.RemoveByNode(n, ls...).SetByNode(n, ls...).RemoveByNode(n, "la", "lB", "lb").Returning(z)), "MATCH "+nt+" REMOVE n"+t+" SET n"+t+" REMOVE n:`la`:`lB`:`lb` RETURN z")
		nd.CheckEq("condition", ok(m.Where(n.HasLabels(ls...)).Returning(z)), "MATCH "+nt+" WHERE n"+t+" RETURN z")
	case 4:
		es, ts := exprsOf(twins([]int{0, 1, 4, 9, 30}, 3))
		p := n.Property("p")
		o, q := p.To(es[0]), p.To(es[1])
		nd.CheckEq("actions", ok(cypher.Merge(n).OnCreate().Set(o, q).OnMatch().Set(q, o).OnCreate().Set(o).Set(p, es[2]).Returning(z)),
			"MERGE "+nt+" ON CREATE SET n.p = "+ts[0]+", n.p = "+ts[1]+" ON MATCH SET n.p = "+ts[1]+", n.p = "+ts[0]+" ON CREATE SET n.p = "+ts[0]+" SET n.p = "+ts[2]+" RETURN z")
		nd.CheckEq("action", ok(cypher.Merge(n).OnMatch().Set(o).OnCreate().Set(o)), "MERGE "+nt+" ON MATCH SET n.p = "+ts[0]+" ON CREATE SET n.p = "+ts[0])
	case 5: // patterns
		var ps []cypher.PatternElement
		as := alike(3, func(id string) arg {
			return arg{t: id}
		})
		made := map[string]cypher.Relationship{}
		ts := ""
		for i, a := range as {
			if i > 0 {
				ts += ", "
			}
			if _, ok := made[a.t]; !ok {
				made[a.t] = hop(a.t)
			}
			ps = append(ps, made[a.t])
			ts += hopText(a.t)
		}
		nd.CheckEq("create", ok(cypher.Create(ps...)), "CREATE "+ts)
		nd.CheckEq("merge", ok(cypher.Match(ps...).Merge(ps[1]).Create(ps[0], ps[2]).Returning(z)), "MATCH "+ts+" MERGE "+hopText(as[1].t)+" CREATE "+hopText(as[0].t)+", "+hopText(as[2].t)+" RETURN z")
	}
}

func C10_same() {
	switch pick("what", 4) {
	case 0: // labels and properties
		ls, t := labelsOf(1 + pick("labels", 4))
		n := cypher.NewNodeWithLabels(ls[0], ls[1:]...)
		nd.CheckEq("labels", ok(cypher.Create(n)), "CREATE ("+t+")")
		nd.CheckEq("named", ok(cypher.Match(n.NamedByString("la")).Returning(sym("z"))), "MATCH (la"+t+") RETURN z")
		nd.CheckEq("primary", ok(cypher.Match(cypher.NewNodeWithProperties(ls[0], cypher.MapOf("la", sym("la")), ls[1:]...)).Returning(sym("z"))), "MATCH ("+t+" {la: la}) RETURN z")
		nd.CheckEq("test", ok(cypher.Match(n.NamedByString("n")).Where(n.NamedByString("n").HasLabels(ls...)).Returning(sym("z"))), "MATCH (n"+t+") WHERE n"+t+" RETURN z")
	case 1: // types
		ls, t := labelsOf(1 + pick("types", 4))
		t = ":" + strings.Replace(t[1:], ":", "|", -1)
		dir := pick("direction", 3)
		l, r := []string{"-", "<-", "-"}[dir], []string{"->", "-", "-"}[dir]
		x, y := cypher.AnyNodeNamed("x"), cypher.AnyNodeNamed("y")
		var rel cypher.Relationship
		var again cypher.RelationshipChain
		switch dir {
		case 0:
			rel = x.RelationshipTo(y, ls...)
			again = rel.RelationshipTo(x, ls...)
		case 1:
			rel = x.RelationshipFrom(y, ls...)
			again = rel.RelationshipFrom(x, ls...)
		case 2:
			rel = x.RelationshipBetween(y, ls...)
			again = rel.RelationshipBetween(x, ls...)
		}
		nd.CheckEq("types", ok(cypher.Match(rel).Returning(sym("z"))), "MATCH (x)"+l+"["+t+"]"+r+"(y) RETURN z")
		nd.CheckEq("back", ok(cypher.Match(again).Returning(sym("z"))), "MATCH (x)"+l+"["+t+"]"+r+"(y)"+l+"["+t+"]"+r+"(x) RETURN z")
		nd.CheckEq("twice", ok(cypher.Match(rel, rel.NamedByString("r"), rel.NamedByString("R")).Returning(sym("z"))), "MATCH (x)"+l+"["+t+"]"+r+"(y), (x)"+l+"[r"+t+"]"+r+"(y), (x)"+l+"[R"+t+"]"+r+"(y) RETURN z")
	case 2: // names
		names := []string{"a", "A", "ab", "Ab"}
		class, _ := classesOf(4)
		var ns []cypher.Node
		seen := map[int]bool{}
		var ts []string
		made := map[int]cypher.Node{}
		for _, k := range class {
			if !seen[k] {
				made[k] = cypher.ANode("L").NamedByString(names[k])
			}
			ns = append(ns, made[k])
			t := names[k]
			if !seen[k] {
				t += ":`L`"
			}
			seen[k] = true
			ts = append(ts, "("+t+")")
		}
		nd.CheckEq("chain", ok(cypher.Match(ns[0].RelationshipTo(ns[1], "T").RelationshipFrom(ns[2], "T").RelationshipTo(ns[3], "t")).Returning(sym("z"))),
			"MATCH "+ts[0]+"-[:`T`]->"+ts[1]+"<-[:`T`]-"+ts[2]+"-[:`t`]->"+ts[3]+" RETURN z")
		nd.CheckEq("clauses", ok(cypher.Match(ns[0]).OptionalMatch(ns[1], ns[2]).Create(ns[3]).Returning(sym("z"))),
			"MATCH "+ts[0]+" OPTIONAL MATCH "+ts[1]+", "+ts[2]+" CREATE "+ts[3]+" RETURN z")
	case 3: // bounds
		lo := 1 + pick("lo", 3)
		hi := 1 + pick("hi", 3)
		a, b := cypher.ANode("L").NamedByString("a"), cypher.ANode("L").NamedByString("b")
		rel := a.RelationshipTo(b, "T").Length(lo, hi)
		t := "-[:`T`*" + itoa(lo) + ".." + itoa(hi) + "]->"
		nd.CheckEq("length", ok(cypher.Match(rel).Returning(sym("z"))), "MATCH (a:`L`)"+t+"(b:`L`) RETURN z")
		nd.CheckEq("min", ok(cypher.Match(a.RelationshipTo(b, "T").Min(lo).Max(hi)).Returning(sym("z"))), "MATCH (a:`L`)"+t+"(b:`L`) RETURN z")
		nd.CheckEq("max", ok(cypher.Match(a.RelationshipTo(b, "T").Max(hi).Min(lo)).Returning(sym("z"))), "MATCH (a:`L`)"+t+"(b:`L`) RETURN z")
		nd.CheckEq("both", ok(cypher.Match(rel.RelationshipTo(cypher.AnyNode(), "T").Length(hi, lo), rel.Min(hi), rel.Max(lo)).Returning(sym("z"))),
			"MATCH (a:`L`)"+t+"(b:`L`)-[:`T`*"+itoa(hi)+".."+itoa(lo)+"]->(), (a)-[:`T`*"+itoa(hi)+".."+itoa(hi)+"]->(b), (a)-[:`T`*"+itoa(lo)+".."+itoa(lo)+"]->(b) RETURN z")
	}
}

// Aliases that are another's name, or another alias in the other case.
func C11_same() {
	k := pick("kind", nArgs)
	d, e := argOf(k, "d"), argOf(k, "D")
	names := [][2]string{{"al", "AL"}, {"xD", "xd"}, {"a", "ab"}, {"Al", "al"}}
	p := names[pick("names", len(names))]
	a, b := aliased(d.e, p[0]), aliased(e.e, p[1])
	z := sym("z")
	if d.t == e.t { // it has no names
		e = arg{e: sym("zz"), t: "zz"}
		b = aliased(e.e, p[1])
	}
	items := d.t + " AS " + p[0] + ", " + e.t + " AS " + p[1]
	nd.CheckEq("with", ok(cypher.With(a, b).Returning(b, d.e, a, z)), "WITH "+items+" RETURN "+p[1]+", "+p[0]+", "+p[0]+", z")
	nd.CheckEq("order", ok(cypher.Match(nodeN()).Returning(a, b).OrderBy(b).Descending().And(d.e).Ascending()), "MATCH (n:`L`) RETURN "+items+" ORDER BY "+p[1]+" DESC, "+p[0]+" ASC")
	nd.CheckEq("list", ok(cypher.With(a).With(b).Returning(cypher.ListOf(d.e, b, a, d.e), z)), "WITH "+d.t+" AS "+p[0]+" WITH "+e.t+" AS "+p[1]+" RETURN ["+p[0]+", "+p[1]+", "+p[0]+", "+p[0]+"], z")
	x, y := sym("x"), sym("y")
	ax, ay := aliased(x, "y"), aliased(y, "x")
	nd.CheckEq("swap", ok(cypher.With(ax, ay).Returning(x, y, ax, ay)), "WITH x AS y, y AS x RETURN y, x, y, x")
}
