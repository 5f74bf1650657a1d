package props

import (
	"time"
	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

func maxStr() int {
	if nd.Thorough() {
		return 5
	}
	return 3
}

// Every content, at one place.
func C01_literal() {
	s := nd.Str("s", 0, maxStr())
	out, err := text(cypher.CypherReturning(cypher.LiteralOf(s)))
	nd.Observe("text", out)
	nd.Check("accepted", err == nil)
	match("denotes", out, "RETURN "+H, strLit(s))
}

// Every place, with every content of up to two bytes.
func C01_places() {
	i := nd.Choose("place", nExprPlaces)
	n := 2
	if nd.Thorough() {
		n = 3
	}
	s := nd.Str("s", 1, n)
	out, err, tpl := exprPlace(i, cypher.LiteralOf(s))
	nd.Observe("text", out)
	nd.Check("accepted", err == nil)
	match("denotes", out, tpl, strLit(s))
}

// Every helper that takes the text itself.
func C01_helpers() {
	s := nd.Str("s", 1, maxStr())
	n := nodeN()
	x := sym("x")
	m := cypher.Match(n)
	k := nd.Choose("helper", 22)
	var b cypher.BuildableStatement
	tpl := ""
	r := func(e expr) cypher.BuildableStatement { return cypher.CypherReturning(e) }
	switch k {
	case 0:
		nd.Check("quote", strLit(s)(cypher.AQuote(s)) == len(cypher.AQuote(s)))
		return
	case 1:
		out := cypher.ListLiteralCreate([]cypher.Literal{cypher.LiteralOf(1), cypher.LiteralOf(s)}).AsString()
		match("list", out, "[1, "+H+"]", strLit(s))
		return
	case 2:
		out := cypher.StringLiteralCreate(s).AsString()
		match("literal", out, H, strLit(s))
		return
	case 3:
		b, tpl = r(cypher.ListLiteralCreate([]cypher.Literal{cypher.LiteralOf(s), cypher.LiteralOf(s)})), "RETURN ["+H+", "+H+"]"
	case 4:
		b, tpl = r(cypher.ListOfRaw(1, s, true)), "RETURN [1, "+H+", true]"
	case 5:
		b, tpl = m.Where(n.Property("p").MatchesPattern(s).Get()).Returning(x), "MATCH (n:`L`) WHERE n.p =~ "+H+" RETURN x"
	case 6:
		b, tpl = r(cypher.DateWithTemporal(s)), "RETURN date("+H+")"
	case 7:
		b, tpl = r(cypher.DateTimeWithTemporal(s)), "RETURN datetime("+H+")"
	case 8:
		b, tpl = r(cypher.LocalDateTimeWithTemporal(s)), "RETURN localdatetime("+H+")"
	case 9:
		b, tpl = r(cypher.LocalTimeWithTemporal(s)), "RETURN localtime("+H+")"
	case 10:
		b, tpl = r(cypher.TimeWithTemporal(s)), "RETURN time("+H+")"
	case 11:
		b, tpl = r(cypher.DurationWithTemporal(s)), "RETURN duration("+H+")"
	case 12:
		b, tpl = r(cypher.TimeWithTimeZone(time.FixedZone(s, 0))), "RETURN time({timezone: "+H+"})"
	case 13:
		b, tpl = r(cypher.LocalTimeWithTimezone(time.FixedZone(s, 0))), "RETURN localtime({timezone: "+H+"})"
	case 14:
		b, tpl = r(cypher.LocalDateTimeWithTimezone(time.FixedZone(s, 0))), "RETURN localdatetime({timezone: "+H+"})"
	case 15:
		b, tpl = r(cypher.LiteralOf([]cypher.Literal{cypher.LiteralOf(s)})), "RETURN ["+H+"]"
	case 16:
		b, tpl = cypher.Match(n.WithRawProperties("a", cypher.LiteralOf(s), "b", cypher.LiteralOf(s))).Returning(x), "MATCH (n:`L` {a: "+H+", b: "+H+"}) RETURN x"
	case 17:
		b, tpl = r(wrap(cypher.LiteralOf(s)).Add(cypher.LiteralOf(s)).Get()), "RETURN ("+H+" + "+H+")"
	case 18:
		b, tpl = r(cypher.CypherListWith(cypher.ASymbolic("v")).In(cypher.ListOf(cypher.LiteralOf(s))).Where(wrap(sym("v")).IsEqualTo(cypher.LiteralOf(s)).Get()).Returning(cypher.LiteralOf(s))), "RETURN [v IN ["+H+"] WHERE v = "+H+" | "+H+"]"
	case 19:
		b, tpl = r(wrap(cypher.LiteralOf(s)).As("al").Get()), "RETURN "+H+" AS al"
	case 20:
		b, tpl = cypher.ACall("a", "b").WithArgs(cypher.LiteralOf(s), cypher.MapOf("k", cypher.LiteralOf(s))), "CALL a.b("+H+", {k: "+H+"})"
	case 21:
		b, tpl = r(cypher.SimpleCaseCreate1(cypher.LiteralOf(s)).When(cypher.LiteralOf(s)).Then(cypher.LiteralOf(s)).ElseDefault(cypher.LiteralOf(s))), "RETURN CASE "+H+" WHEN "+H+" THEN "+H+" ELSE "+H+" END"
	}
	match("denotes", ok(b), tpl, strLit(s))
}
