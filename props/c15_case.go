package props

import (
	"math"
	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// A branching is a CASE as it has to be rendered.
type branching struct {
	subject  string
	branches string
	def      string
	n        int
}

func (b branching) text() string {
	t := "CASE"
	if b.subject != "" {
		t += " " + b.subject
	}
	t += b.branches
	if b.def != "" {
		t += " ELSE " + b.def
	}
	return t + " END"
}

func (b branching) when(w, t string) branching {
	b.branches += " WHEN " + w + " THEN " + t
	b.n++
	return b
}

func (b branching) orElse(t string) branching {
	b.def = t
	return b
}

// extensible is a CASE in any state.
type extensible interface {
	When(expression cypher.Expression) cypher.OngoingWhenThen
	ElseDefault(defaultExpression cypher.Expression) cypher.CaseEnding
}

// caseOf starts a CASE.
func caseOf(i int) (extensible, branching) {
	if i == 0 {
		return cypher.GenericCaseExpression(), branching{}
	}
	a := argOf(i-1, "s")
	return cypher.CaseExpression(a.e), branching{subject: a.t}
}

// Any sequence of WHEN .. THEN and ELSE.
func C15_sequence() {
	v := key("name")
	n := 4
	if nd.Thorough() {
		n = 7
	}
	n = 1 + pick("calls", n)
	c, b := caseOf([]int{0, 1, 13, 23, 9}[pick("subject", 5)])
	for i := 0; i < n; i++ {
		x, y := argOf((i*7+n)%nArgs, stepText(i)), argOf((i*11+2*n)%nArgs, v+stepText(i))
		switch pick("call", 3) {
		case 0:
			c, b = c.When(x.e).Then(y.e), b.when(x.t, y.t)
		case 1:
			c, b = c.ElseDefault(y.e), b.orElse(y.t)
		case 2: // others are derived on the way
			w := c.When(sym("other"))
			w.Then(sym("o")).ElseDefault(sym("p"))
			c.ElseDefault(sym("q"))
			w.Then(sym("r"))
			o := c.When(y.e)
			o.Then(sym("s"))
			c, b = o.Then(x.e), b.when(y.t, x.t)
		}
	}
	if b.n == 0 {
		_, err := text(cypher.CypherReturning(c.(expr)))
		nd.Check("noBranch", err != nil)
		return
	}
	nd.CheckEq("sequence", ok(cypher.CypherReturning(c.(expr), sym("z"))), "RETURN "+b.text()+", z")
}

// Every kind of expression in every position.
func C15_kinds() {
	v := key("name")
	at := pick("at", 6)
	k := pick("kind", nArgs)
	arg := func(i int, id string) arg {
		if i == at {
			return argOf(k, v+id)
		}
		return argOf(0, id)
	}
	s, w1, t1, w2, t2, d := arg(0, "a"), arg(1, "b"), arg(2, "c"), arg(3, "d"), arg(4, "e"), arg(5, "f")
	b := branching{}.when(w1.t, t1.t).when(w2.t, t2.t).orElse(d.t)
	generic := cypher.GenericCaseExpression().When(w1.e).Then(t1.e).When(w2.e).Then(t2.e).ElseDefault(d.e)
	nd.CheckEq("generic", ok(cypher.CypherReturning(generic)), "RETURN "+b.text())
	simple := cypher.CaseExpression(s.e).ElseDefault(d.e).When(w1.e).Then(t1.e).When(w2.e).Then(t2.e)
	b.subject = s.t
	nd.CheckEq("simple", ok(cypher.CypherReturning(simple)), "RETURN "+b.text())
	l := []cypher.CaseWhenThen{cypher.CaseWhenThenCreate(w1.e, t1.e), cypher.CaseWhenThenCreate(w2.e, t2.e)}
	b.def = ""
	nd.CheckEq("made", ok(cypher.CypherReturning(cypher.SimpleCaseCreate(s.e, l))), "RETURN "+b.text())
	nd.CheckEq("madeEnding", ok(cypher.CypherReturning(cypher.EndingSimpleCaseCreate(s.e, l))), "RETURN "+b.text())
	b.subject = ""
	nd.CheckEq("madeGeneric", ok(cypher.CypherReturning(cypher.GenericCaseCreate(l))), "RETURN "+b.text())
	nd.CheckEq("madeEndingGeneric", ok(cypher.CypherReturning(cypher.EndingGenericCaseCreate(l))), "RETURN "+b.text())
	nd.CheckEq("extended", ok(cypher.CypherReturning(cypher.GenericCaseCreate(l).ElseDefault(d.e).When(s.e).Then(s.e))), "RETURN "+b.when(s.t, s.t).orElse(d.t).text())
}

// The branches hold the given values.
func C15_values() {
	s, t := nd.StrOf("s", 0, 2, "a-z"), nd.StrOf("t", 0, 2, "a-z")
	n := nd.Int("n", math.MinInt64, math.MaxInt64)
	nd.Assume(n != 0)
	c := cypher.CaseExpression(nodeN().Property("p")).When(cypher.LiteralOf(s)).Then(cypher.LiteralOf(n)).When(cypher.LiteralOf(t)).Then(cypher.LiteralOf(s)).ElseDefault(cypher.LiteralOf(t))
	nd.CheckEq("values", ok(cypher.CypherReturning(c)), "RETURN CASE n.p WHEN '"+s+"' THEN "+itoa(n)+" WHEN '"+t+"' THEN '"+s+"' ELSE '"+t+"' END")
}

// CASE within CASE.
func C15_nested() {
	v := key("name")
	c, b := extensible(cypher.GenericCaseExpression().When(sym(v)).Then(sym("x"))), branching{}.when(v, "x")
	n := 1 + pick("depth", 3)
	if nd.Thorough() {
		n += pick("deeper", 3)
	}
	for i := 0; i < n; i++ {
		in, t := c.(expr), b.text()
		x := sym("x" + stepText(i))
		xt := "x" + stepText(i)
		switch pick("where", 6) {
		case 0:
			c, b = cypher.CaseExpression(in).When(x).Then(x), branching{subject: t}.when(xt, xt)
		case 1:
			c, b = cypher.CaseExpression(x).When(in).Then(x), branching{subject: xt}.when(t, xt)
		case 2:
			c, b = cypher.GenericCaseExpression().When(x).Then(in).ElseDefault(x), branching{}.when(xt, t).orElse(xt)
		case 3:
			c, b = cypher.GenericCaseExpression().When(x).Then(x).ElseDefault(in), branching{}.when(xt, xt).orElse(t)
		case 4:
			c, b = cypher.CaseExpression(in).When(in).Then(in).When(x).Then(in).ElseDefault(in), branching{subject: t}.when(t, t).when(xt, t).orElse(t)
		case 5:
			c, b = c.When(x).Then(cypher.ListOf(in, x)), b.when(xt, "["+t+", "+xt+"]")
		}
	}
	nd.CheckEq("nested", ok(cypher.CypherReturning(c.(expr))), "RETURN "+b.text())
}

// A CASE wherever a condition goes.
func C15_places() {
	v := key("name")
	c, b := caseOf([]int{0, 1, 9}[pick("subject", 3)])
	c, b = c.When(sym(v)).Then(sym("x")), b.when(v, "x")
	if pick("more", 2) == 1 {
		c, b = c.When(sym("y")).Then(sym(v)).ElseDefault(sym("w")), b.when("y", v).orElse("w")
	}
	p, tpl := condPlace(pick("place", nCondPlaces), c.(cond))
	nd.CheckEq("places", ok(p), fill(tpl, b.text()))
}
