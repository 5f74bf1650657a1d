package props

import (
	"strings"
	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

func rendered(r *cypher.CypherRenderer, st cypher.Statement) string {
	out, err := r.Render(st)
	nd.Check("accepted", err == nil)
	return out
}

func built(b cypher.BuildableStatement) cypher.Statement {
	st, err := b.Build()
	nd.Check("builds", err == nil)
	return st
}

// The same text again: same renderer, new renderer, rebuilt, after a garbage
// collection.
func C05_again() {
	s := nd.StrOf("s", 2, 2, "a-mo-w")
	b, want := statementOf(nd.Choose("statement", nStatements), s)
	st := built(b)
	r := cypher.NewRenderer()
	first := rendered(r, st)
	nd.Observe("text", first)
	nd.CheckEq("first", first, want)
	nd.CheckEq("sameRenderer", rendered(r, st), want)
	nd.GC()
	nd.CheckEq("newRenderer", rendered(cypher.NewRenderer(), st), want)
	st2 := built(b)
	nd.CheckEq("rebuilt", rendered(r, st2), want)
	nd.CheckEq("copied", rendered(&cypher.CypherRenderer{}, st), want)
	nd.CheckEq("again", rendered(r, st), want)
}

// One renderer, two statements, in every order.
func C05_others() {
	s := nd.StrOf("s", 2, 2, "a-mo-w")
	n := 4
	if nd.Thorough() {
		n = 24
	}
	b, want := statementOf(nd.Choose("statement", nStatements), s)
	st := built(b)
	others := []int{0, 4, 28, 55, 57, 68, 42, 47, 70, 16, 34, 66, 75, 80, 94, 95, 107, 117, 121, 125, 140, 150, 160, 170}
	b2, want2 := statementOf(others[nd.Choose("other", n)], s)
	st2 := built(b2)
	r := cypher.NewRenderer()
	nd.CheckEq("other", rendered(r, st2), want2)
	nd.CheckEq("after", rendered(r, st), want)
	nd.CheckEq("otherAfter", rendered(r, st2), want2)
	if nd.Thorough() {
		nd.CheckEq("afterAgain", rendered(r, st), want)
	}
}

// Two statements made of the same parts do not disturb each other.
func C05_shared() {
	s := nd.StrOf("s", 2, 2, "a-mo-w")
	n := nodeN()
	m := cypher.ANode("M").NamedByString("m")
	kinds := []int{57, 1, 16, 26, 31, 0, 52, 21, 27, 34}
	nd1, nd2 := 5, 6
	if nd.Thorough() {
		nd1, nd2 = len(kinds), 12
	}
	e, t := compose(kinds[nd.Choose("expression", nd1)], wrap(sym(s)).Add(n.Property("p")).Get())
	t = fill(t, "("+s+" + n.p)")
	limit := 12
	if nd.Thorough() {
		limit = nExprPlaces
	}
	i := nd.Choose("first", nExprPlaces)
	j := []int{3, 68, 22, 55, 57, 70, 4, 8, 28, 34, 42, 47}[nd.Choose("second", nd2)]
	if limit == nExprPlaces {
		j = nd.Choose("every", nExprPlaces)
	}
	b1, tpl1 := exprPlaceStatement(i, n, e)
	b2, tpl2 := exprPlaceStatement(j, n, e)
	st1, st2 := built(b1), built(b2)
	other := built(cypher.Match(n.RelationshipTo(m, "T"), m).Returning(wrap(e).As("other").Get(), n.Property("p"), e))
	r := cypher.NewRenderer()
	nd.CheckEq("second", rendered(r, st2), fill(tpl2, t))
	rendered(r, other)
	nd.CheckEq("first", rendered(r, st1), fill(tpl1, t))
	nd.CheckEq("secondAgain", rendered(r, st2), fill(tpl2, t))
}

// A failed rendering leaves nothing behind either.
func C05_failed() {
	s := nd.StrOf("s", 2, 2, "a-mo-w")
	b, want := statementOf(nd.Choose("statement", nStatements), s)
	st := built(b)
	i := []int{0, 6, 20, 31, 55, 69}[nd.Choose("place", 6)]
	bad, _ := exprPlaceStatement(i, nodeN(), cypher.CaseExpression(sym("x")))
	r := cypher.NewRenderer()
	if st2, err := bad.Build(); err == nil && st2 != nil {
		_, err = r.Render(st2)
		nd.Check("refused", err != nil)
		_, err = r.Render(st2)
		nd.Check("refusedAgain", err != nil)
	}
	nd.CheckEq("after", rendered(r, st), want)
}

// Identity does not depend on how many elements were made before, nor on
// garbage collections: a named node is described once, another one in full.
func C05_identity() {
	s := nd.StrOf("s", 2, 2, "a-mo-w")
	n := 40
	if nd.Thorough() {
		n = 400
	}
	a := cypher.ANode("A").NamedByString(s)
	made := nd.Choose("made", 3)
	b := cypher.ANode("B").NamedByString("x")
	for i := 0; i < n*made; i++ {
		b = cypher.ANode("B").NamedByString("x")
		if i%16 == 0 {
			nd.GC()
		}
	}
	c := cypher.ANode("B").NamedByString("y").WithRawProperties("k", sym(s))
	got := ok(cypher.Match(a, b, c, a, c, b).Returning(a.Property("p")))
	nd.CheckEq("identity", got, "MATCH ("+s+":`A`), (x:`B`), (y:`B` {k: "+s+"}), ("+s+"), (y), (x) RETURN "+s+".p")
}

// Many nodes in one statement: each is described once, whatever was rendered in
// between.
func C05_manyNodes() {
	n := 2 + nd.Choose("n", 30)
	if nd.Thorough() {
		n = 20 * n
	}
	s := nd.StrOf("s", 1, 1, "a-z")
	var els []cypher.PatternElement
	want := "MATCH "
	again := ""
	for i := 0; i < n; i++ {
		nm := s + itoa(i)
		els = append(els, cypher.ANode("L").NamedByString(nm))
		if i > 0 {
			want += ", "
		}
		want += "(" + nm + ":`L`)"
		again += ", (" + nm + ")"
	}
	els = append(els, els...)
	nd.CheckEq("described", ok(cypher.Match(els...).ReturningByString("x")), want+again+" RETURN x")
}

// Two values of the same name are one variable, wherever they come from.
func C05_lookup() {
	s := nd.StrOf("s", 1, 2, "a-mo-z")
	a := cypher.ANode("A").NamedByString(s)
	later := cypher.AnyNodeNamed(s)
	got := ok(cypher.Match(a).Match(later.RelationshipTo(cypher.AnyNodeNamed("n"), "T")).Where(later.Property("p").IsNull().Get()).ReturningByNamed(later, a))
	nd.CheckEq("lookup", got, "MATCH ("+s+":`A`) MATCH ("+s+")-[:`T`]->(n) WHERE "+s+".p IS NULL RETURN "+s+", "+s)
}

// Statements that are alike except for a name or text do not disturb each
// other, whichever comes first.
func C05_alike() {
	s := nd.StrOf("s", 2, 2, "a-mo-w")
	t := ""
	switch pick("other", 4) {
	case 0:
		t = nd.StrOf("t", 2, 2, "a-mo-w")
	case 1:
		t = strings.ToUpper(s)
	case 2:
		t = s + "b"
	case 3:
		t = s[:1]
	}
	k := nd.Choose("statement", nStatements)
	b, want := statementOf(k, s)
	b2, want2 := statementOf(k, t)
	st, st2 := built(b), built(b2)
	r := cypher.NewRenderer()
	nd.CheckEq("one", rendered(r, st), want)
	nd.CheckEq("other", rendered(r, st2), want2)
	nd.CheckEq("oneAgain", rendered(r, st), want)
}

// likeTexts are texts that something careless might take for one another.
var likeTexts = [][2]string{{"First Name", "first name"}, {"a b", "a b "}, {"`a", "a`"}, {"a`", "a"}, {"A", "a"}, {"a'b", "a\"b"}, {"a\\'", "a'"}, {"10", "1"}, {"a-b", "a_b"}, {"é", "e\u0301"}, {"a.b", "a b"}, {"s s", "ss"}}

// The same for names and texts that need quoting.
func C05_quoted() {
	p := likeTexts[pick("texts", len(likeTexts))]
	if pick("order", 2) == 1 {
		p[0], p[1] = p[1], p[0]
	}
	i := pick("place", nNamePlaces+1)
	place := func(s string) (cypher.BuildableStatement, string, func(string) int) {
		if i == nNamePlaces {
			return cypher.CypherReturning(cypher.LiteralOf(s)), "RETURN " + H, strLit(s)
		}
		b, tpl := namePlace(i, s)
		return b, tpl, ident(s)
	}
	b, tpl, is := place(p[0])
	b2, tpl2, is2 := place(p[1])
	st, st2 := built(b), built(b2)
	r := cypher.NewRenderer()
	match("one", rendered(r, st), tpl, is)
	match("other", rendered(cypher.NewRenderer(), st2), tpl2, is2)
	match("oneAgain", rendered(r, st), tpl, is)
}
