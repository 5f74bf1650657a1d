package props

import (
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

func key(label string) string { return nd.StrOf(label, 1, 2, "j-m") }

// kindOf draws a kind of expression: all of them, or in the quick tier a few.
func kindOf(label string, quick ...int) int {
	if nd.Thorough() || len(quick) == 0 {
		return pick(label, nArgs)
	}
	return quick[pick(label, len(quick))]
}

// Lookups: the owner, then a dot and the key for every level.
func C14_lookup() {
	k := key("key")
	keys := []string{k, "b", k + "c", "d"}
	n := 1 + pick("levels", 4)
	var p cypher.Property
	t := ""
	switch pick("owner", 8) {
	case 0:
		a := argOf(pick("kind", nArgs), "o")
		p, t = cypher.PropertyCreate2(a.e, keys[0]), a.target()
	case 1:
		a := argOf(pick("kind", nArgs), "o")
		p, t = cypher.APropertyByExpression(a.e, keys[0]), a.target()
	case 2:
		p, t = cypher.AProperty("o"+k, keys[0]), "o"+k
	case 3:
		p, t = nodeN().Property(keys[0]), "n"
	case 4:
		p, t = nodeN().RelationshipTo(cypher.AnyNode(), "T").NamedByString("r"+k).Property(keys[0]), "r"+k
	case 5:
		p, t = cypher.PropertyCreate(cypher.AnyNodeNamed("m"), keys[0]), "m"
	case 6:
		p, t = cypher.PropertyCreate1(sym("s"), cypher.PropertyLookupCreate(keys[0])), "s"
	case 7:
		p, t = cypher.PropertyCreate(cypher.APath("pp").DefinedBy(knows()), keys[0]), "pp"
	}
	t += "." + keys[0]
	for i := 1; i < n; i++ {
		if i%2 == 0 {
			p = cypher.APropertyByExpression(p, keys[i])
		} else {
			p = cypher.PropertyCreate2(p, keys[i])
		}
		t += "." + keys[i]
	}
	placed("lookup", []int{0, 1, 2, 3}[pick("place", 4)], p, t)
}

// A property that is read again from the same owner keeps its own key.
func C14_siblings() {
	k := key("key")
	n := nodeN()
	p := n.Property("a")
	q := n.Property(k)
	r := cypher.PropertyCreate2(p, "b")
	s := cypher.PropertyCreate2(p, k)
	nd.CheckEq("siblings", ok(cypher.Match(n).Where(q.IsEqualTo(s).Get()).Returning(r, p, q, s, n.Property("a"))), "MATCH (n:`L`) WHERE n."+k+" = n.a."+k+" RETURN n.a.b, n.a, n."+k+", n.a."+k+", n.a")
}

// mapOf builds a map of n entries in one of several ways.
func mapOf(way, n, first int, k string) (cypher.MapExpression, string) {
	var kv []any
	var es []expr
	var ts []string
	for i := 0; i < n; i++ {
		a := argOf((first+i*9)%nArgs, stepText(i))
		name := []string{"a", k + "x", "c", "d" + k, "e", "f"}[i]
		kv = append(kv, name, a.e)
		if i%2 == 0 {
			es = append(es, cypher.KeyValueMapEntryCreate(name, a.e))
		} else {
			es = append(es, cypher.EntryExpressionCreate(name, a.e))
		}
		ts = append(ts, name+": "+a.t)
	}
	t := "{" + strings.Join(ts, ", ") + "}"
	switch way {
	case 0:
		return cypher.MapOf(kv...), t
	case 1:
		return cypher.NewMapExpression(kv...), t
	case 2:
		return cypher.MapExpressionCreate(es), t
	}
	at := (way - 3) * n / 2
	m := cypher.MapOf(kv[:2*at]...)
	o := m.AddEntries(es[at:])
	m.AddEntries([]expr{cypher.KeyValueMapEntryCreate("other", sym("z"))})
	return o, t
}

const nMapWays = 6

// Maps as expressions and as properties.
func C14_map() {
	k := key("key")
	n := pick("entries", 7)
	first := kindOf("kind", 0, 1, 2, 5, 6, 7, 8, 9, 12, 14, 16, 22, 23, 26, 27, 28, 29)
	m, t := mapOf(pick("way", nMapWays), n, first, k)
	switch pick("use", 8) {
	case 0:
		nd.CheckEq("value", ok(cypher.CypherReturning(m, sym("z"))), "RETURN "+t+", z")
	case 1:
		nd.CheckEq("nested", ok(cypher.CypherReturning(cypher.MapOf("o", m, "p", cypher.ListOf(m, sym("z"))))), "RETURN {o: "+t+", p: ["+t+", z]}")
	case 2:
		nd.CheckEq("argument", ok(cypher.CypherReturning(cypher.Point(m))), "RETURN point("+t+")")
	case 3:
		nd.CheckEq("with", ok(cypher.With(aliased(m, "mm")).Returning(cypher.PropertyCreate2(m, "k"))), "WITH "+t+" AS mm RETURN mm.k")
	}
	sp := " "
	if n == 0 {
		return
	}
	u := nd.Choose("pattern", 6)
	switch u {
	case 0:
		nd.CheckEq("node", ok(cypher.Match(cypher.AnyNodeNamed("n").WithProperties(m)).Returning(sym("z"))), "MATCH (n"+sp+t+") RETURN z")
	case 1:
		nd.CheckEq("create", ok(cypher.Create(cypher.NewNodeWithProperties("A", m, "B"))), "CREATE (:`A`:`B`"+sp+t+")")
	case 2:
		nd.CheckEq("relationship", ok(cypher.Merge(cypher.AnyNode().RelationshipFrom(cypher.AnyNode(), "T").WithProperties(m))), "MERGE ()<-[:`T`"+sp+t+"]-()")
	case 3:
		nd.CheckEq("again", ok(cypher.Create(cypher.ANode("A").WithRawProperties("q", sym("z")).WithProperties(m).NamedByString("n"))), "CREATE (n:`A`"+sp+t+")")
	case 4:
		r := cypher.AnyNode().RelationshipTo(cypher.AnyNode().WithProperties(m), "T").NamedByString("r").WithProperties(m)
		nd.CheckEq("both", ok(cypher.Create(r)), "CREATE ()-[r:`T`"+sp+t+"]->("+sp+t+")")
	case 5:
		nd.CheckEq("set", ok(cypher.Match(nodeN()).SetWithNamed(nodeN(), m)), "MATCH (n:`L`) SET n = "+t)
	}
}

// One key of a map is the given one, one value is the given one.
func C14_pairs() {
	n := 1 + pick("entries", 5)
	at := pick("at", n)
	k := key("key")
	s := nd.StrOf("value", 0, 2, "a-z")
	var kv []any
	var ts []string
	for i := 0; i < n; i++ {
		if i == at {
			kv = append(kv, k, cypher.LiteralOf(s))
			ts = append(ts, k+": '"+s+"'")
			continue
		}
		kv = append(kv, "q"+stepText(i), sym("v"+stepText(i)))
		ts = append(ts, "q"+stepText(i)+": v"+stepText(i))
	}
	t := "{" + strings.Join(ts, ", ") + "}"
	nd.CheckEq("map", ok(cypher.CypherReturning(cypher.MapOf(kv...))), "RETURN "+t)
	nd.CheckEq("node", ok(cypher.Match(cypher.ANode("L").WithRawProperties(kv...)).Returning(sym("z"))), "MATCH (:`L` "+t+") RETURN z")
	nd.CheckEq("rel", ok(cypher.Create(cypher.AnyNode().RelationshipTo(cypher.AnyNode(), "T").WithRawProperties(kv...))), "CREATE ()-[:`T` "+t+"]->()")
	nd.CheckEq("projection", ok(cypher.CypherReturning(nodeN().Project(kv...))), "RETURN n"+t)
	nd.CheckEq("added", ok(cypher.CypherReturning(cypher.MapProjectionCreate(cypher.ASymbolic("w"), "p").And(kv...))), "RETURN w{.p, "+t[1:])
}

// A key that occurs twice in one map is refused.
func C14_twice() {
	n := 2 + pick("entries", 4)
	i := pick("i", n)
	j := pick("j", n)
	if i >= j {
		return
	}
	k := key("key")
	var kv []any
	for l := 0; l < n; l++ {
		name := "q" + stepText(l)
		if l == i || l == j {
			name = k
		}
		kv = append(kv, name, sym("v"))
	}
	_, err := text(cypher.CypherReturning(cypher.MapOf(kv...)))
	nd.Check("twice", err != nil)
	_, err = text(cypher.CypherReturning(nodeN().Project(kv...)))
	nd.Check("twiceProjected", err != nil)
}

const nProjectionItems = 12

// projectionItem gives the arguments of an item and its text. bare: a string
// that an expression after it would be the value of; value: an expression.
func projectionItem(i int, id, k string, a arg) (args []any, t string, bare, value bool) {
	name := k + id
	switch i {
	case 0:
		return []any{name}, "." + name, true, false
	case 1:
		return []any{"*"}, ".*", true, false
	case 2:
		return []any{name, a.e}, name + ": " + a.t, false, false
	case 3:
		return []any{sym(name)}, name, false, true
	case 4:
		return []any{cypher.ANode("L").NamedByString(name)}, name, false, true
	case 5:
		return []any{nodeN().Property(name)}, "." + name, false, true
	case 6:
		return []any{aliased(a.e, name)}, name + ": " + a.t, false, true
	case 7:
		return []any{cypher.PropertyLookupCreate(name)}, "." + name, false, false
	case 8:
		return []any{cypher.ASTERISK}, ".*", false, false
	case 9:
		return []any{name, cypher.AnyNodeNamed("m")}, name + ": m", false, false
	case 10:
		return []any{name, knows().NamedByString("r")}, name + ": r", false, false
	case 11:
		return []any{cypher.AnyNode().RelationshipTo(cypher.AnyNode()).NamedByString(name)}, name, false, true
	}
	panic("no such item")
}

// Projections: the name and every item, however they were added.
func C14_projection() {
	k := key("key")
	n := 1 + pick("items", 4)
	var calls [][]any
	var ts []string
	var call []any
	wasBare := false
	for i := 0; i < n; i++ {
		a := argOf((i*13+n)%nArgs, stepText(i))
		kind := (i*5 + n) % nProjectionItems
		if i < 2 || nd.Thorough() && i == 2 {
			kind = pick("item", nProjectionItems)
		}
		args, t, bare, value := projectionItem(kind, stepText(i), k, a)
		if i > 0 && (wasBare && value || pick("call", 2) == 1) {
			calls, call = append(calls, call), nil
		}
		call = append(call, args...)
		wasBare = bare
		ts = append(ts, t)
	}
	calls = append(calls, call)
	var p cypher.MapProjection
	name := ""
	switch (len(calls) + n) % 3 {
	case 0:
		p, name = nodeN().Project(calls[0]...), "n"
	case 1:
		p, name = knows().NamedByString("r").Project(calls[0]...), "r"
	case 2:
		p, name = cypher.MapProjectionCreate(cypher.ASymbolic("w"+k), calls[0]...), "w"+k
	}
	for _, c := range calls[1:] {
		q := p.And("other" + k)
		p = p.And(c...)
		_ = q
	}
	nd.CheckEq("projection", ok(cypher.CypherReturning(p, sym("z"))), "RETURN "+name+"{"+strings.Join(ts, ", ")+"}, z")
}

// Every kind of value in a projection.
func C14_values() {
	k := key("key")
	a := argOf(pick("kind", nArgs), "a")
	b := argOf(pick("other", nArgs), "c")
	p := nodeN().Project("b", k, a.e, aliased(b.e, "d"))
	nd.CheckEq("values", ok(cypher.Match(nodeN()).With(aliased(p, "pp")).Returning(sym("pp"))), "MATCH (n:`L`) WITH n{.b, "+k+": "+a.t+", d: "+b.t+"} AS pp RETURN pp")
}

// Projections within projections.
func C14_nested() {
	k := key("key")
	var p cypher.MapProjection
	t := ""
	d := 1 + pick("depth", 5)
	for i := 0; i < d; i++ {
		n := cypher.AnyNodeNamed("n" + stepText(i))
		if i == 0 {
			p, t = n.Project(k, "*"), "na{."+k+", .*}"
			continue
		}
		if i%2 == 0 {
			p, t = n.Project("a", k, p, "b", cypher.ListOf(p, sym("z"))), "n"+stepText(i)+"{.a, "+k+": "+t+", b: ["+t+", z]}"
		} else {
			p, t = n.Project(k).And("c", cypher.MapOf("d", p)), "n"+stepText(i)+"{."+k+", c: {d: "+t+"}}"
		}
	}
	nd.CheckEq("nested", ok(cypher.CypherReturning(p)), "RETURN "+t)
}
