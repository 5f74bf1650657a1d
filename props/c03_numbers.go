package props

import (
	"math"
	"strconv"
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// fillN replaces the i-th hole by the i-th text.
func fillN(tpl string, xs ...string) string {
	for _, x := range xs {
		i := strings.Index(tpl, H)
		tpl = tpl[:i] + x + tpl[i+1:]
	}
	return tpl
}

func itoa(v int) string { return strconv.FormatInt(int64(v), 10) }

// Every 64-bit integer, as a literal.
func C03_integer() {
	v := nd.Int("v", math.MinInt64, math.MaxInt64)
	nd.CheckEq("integer", ok(cypher.CypherReturning(cypher.LiteralOf(v))), "RETURN "+itoa(v))
	nd.CheckEq("asString", cypher.NumberLiteralCreate(int64(v)).AsString(), itoa(v))
	nd.CheckEq("asString1", cypher.NumberLiteralCreate1(v).AsString(), itoa(v))
}

// Every 64-bit integer (quick: not negative) at every place that takes expressions.
func C03_places() {
	i := nd.Choose("place", nExprPlaces)
	lo := 0
	if nd.Thorough() {
		lo = math.MinInt64
	}
	v := nd.Int("v", lo, math.MaxInt64)
	out, err, tpl := exprPlace(i, cypher.LiteralOf(v))
	nd.Check("accepted", err == nil)
	nd.CheckEq("integer", out, fill(tpl, itoa(v)))
}

// Every integer at the places that take a Go integer. Several integers of one
// call are independent.
func C03_helpers() {
	k := nd.Choose("helper", 26)
	b, c := 0, 0
	// Bounds on counts are never negative. Quick runs let one of the integers
	// at a time be large.
	ma, mb, mc := math.MaxInt64, math.MaxInt64-1, math.MaxInt64
	if k >= 8 && (k >= 20 || !nd.Thorough()) {
		big := nd.Choose("large", 3)
		if big == 2 && k < 20 {
			big = 0
		}
		if big != 0 {
			ma = 9
		}
		if big != 1 {
			mb = 9
		}
		if big != 2 {
			mc = 9
		}
	}
	a := nd.Int("a", 1, ma)
	if k >= 8 {
		b = nd.Int("b", 0, mb)
	}
	if k >= 20 {
		c = nd.Int("c", -mc-1, mc)
	}
	A, B, C := itoa(a), itoa(b), itoa(c)
	n := nodeN()
	x := sym("x")
	m := cypher.Match(n)
	o := cypher.AnyNode()
	var st cypher.BuildableStatement
	want := ""
	r := func(e ...expr) cypher.BuildableStatement { return cypher.CypherReturning(e...) }
	switch k {
	case 0:
		st, want = m.Returning(x).Skip(a), "MATCH (n:`L`) RETURN x SKIP "+A
	case 1:
		st, want = m.Returning(x).Limit(a), "MATCH (n:`L`) RETURN x LIMIT "+A
	case 2:
		st, want = cypher.Match(n.RelationshipTo(o).Min(a)).Returning(x), "MATCH (n:`L`)-[*"+A+"..]->() RETURN x"
	case 3:
		st, want = cypher.Match(n.RelationshipTo(o, "T").Max(a)).Returning(x), "MATCH (n:`L`)-[:`T`*.."+A+"]->() RETURN x"
	case 4:
		st, want = r(cypher.CypherValueAt(x, a)), "RETURN x["+A+"]"
	case 5:
		st, want = r(cypher.CypherSubListFrom(x, a)), "RETURN x["+A+"..]"
	case 6:
		st, want = r(cypher.ASubListUntil(x, a)), "RETURN x[.."+A+"]"
	case 7:
		st, want = r(cypher.ListOfRaw(a, "s", a)), "RETURN ["+A+", 's', "+A+"]"
	case 8:
		st, want = m.Returning(x).Skip(a).Limit(b+1), "MATCH (n:`L`) RETURN x SKIP "+A+" LIMIT "+itoa(b+1)
	case 9:
		st, want = m.WithByNamed(n).Skip(a).(cypher.OngoingReadingAndWith).Returning(x).OrderBy(x).Descending().Skip(b).Limit(a), "MATCH (n:`L`) WITH n SKIP "+A+" RETURN x ORDER BY x DESC SKIP "+B+" LIMIT "+A
	case 10:
		st, want = m.WithByNamed(n).OrderByExpression(x).Limit(a).Returning(x).Skip(b), "MATCH (n:`L`) WITH n ORDER BY x LIMIT "+A+" RETURN x SKIP "+B
	case 11:
		st, want = cypher.Match(n.RelationshipFrom(o, "T").Length(b, a)).Returning(x), "MATCH (n:`L`)<-[:`T`*"+B+".."+A+"]-() RETURN x"
	case 12:
		st, want = cypher.Match(n.RelationshipBetween(o).Min(b).Max(a)).Returning(x), "MATCH (n:`L`)-[*"+B+".."+A+"]-() RETURN x"
	case 13:
		st, want = cypher.Match(n.RelationshipBetween(o).Max(a).Min(b)).Returning(x), "MATCH (n:`L`)-[*"+B+".."+A+"]-() RETURN x"
	case 14:
		st, want = cypher.Match(n.RelationshipTo(o, "T").RelationshipTo(o, "S").Length(b, a)).Returning(x), "MATCH (n:`L`)-[:`T`]->()-[:`S`*"+B+".."+A+"]->() RETURN x"
	case 15:
		st, want = r(cypher.ASubList(x, b, a)), "RETURN x["+B+".."+A+"]"
	case 16:
		st, want = r(cypher.RangeRaw(b, a)), "RETURN range("+B+", "+A+")"
	case 17:
		st, want = r(cypher.OrdinalDate(a, b)), "RETURN date({year: "+A+", ordinalDay: "+B+"})"
	case 18:
		st, want = r(cypher.LiteralOf([]cypher.Literal{cypher.LiteralOf(a), cypher.LiteralOf(b)})), "RETURN ["+A+", "+B+"]"
	case 19:
		st, want = cypher.Match(n.WithRawProperties("a", cypher.LiteralOf(a), "b", cypher.LiteralOf(b))).Where(n.Property("p").Lt(cypher.LiteralOf(b)).And(n.Property("q").Gte(cypher.LiteralOf(a)).Get()).Get()).Returning(x), "MATCH (n:`L` {a: "+A+", b: "+B+"}) WHERE (n.p < "+B+" AND n.q >= "+A+") RETURN x"
	case 20:
		st, want = r(cypher.CalendarDate(c, a, b)), "RETURN date({year: "+C+", month: "+A+", day: "+B+"})"
	case 21:
		st, want = r(cypher.WeekDate(c, a, b)), "RETURN date({year: "+C+", week: "+A+", dayOfWeek: "+B+"})"
	case 22:
		st, want = r(cypher.QuarterDate(c, a, b)), "RETURN date({year: "+C+", quarter: "+A+", dayOfQuarter: "+B+"})"
	case 23:
		st, want = r(cypher.RangeWithStepRaw(b, a, c)), "RETURN range("+B+", "+A+", "+C+")"
	case 24:
		st, want = r(cypher.CypherValueAt(x, c), cypher.ASubList(x, c, b), cypher.RangeRaw(c, a)), "RETURN x["+C+"], x["+C+".."+B+"], range("+C+", "+A+")"
	case 25:
		st, want = r(cypher.MapOf("a", cypher.LiteralOf(c), "b", cypher.ListOf(cypher.LiteralOf(a), cypher.LiteralOf(b)))), "RETURN {a: "+C+", b: ["+A+", "+B+"]}"
	}
	nd.CheckEq("integer", ok(st), want)
}

var floats = []float64{
	0, 1, -1, 0.1, -0.5, 1.5, 3.14, 0.30000000000000004, 1.0 / 3, 2.0 / 3, 100, 1e5, 123456, 999999, 1e6, 1234567, 9999999, 1e7,
	12345678.9, 1e15, 1e16, 123456789012345678, 9007199254740991, 9007199254740992, 9007199254740994, 1e20, 1e21, 1.5e21, 1e22, 1e23, 1e100, 6.02214076e23,
	1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 4.9406564584124654e-324, 1e-5, 1e-4, 0.001, 0.00012345, 1e-7, 1.25e-9,
	0.1 + 0.2, math.Pi, math.E, math.MaxFloat32, math.SmallestNonzeroFloat32, float64(float32(0.1)), 16777217, 33554431.5, 4294967296.5, -273.15, 1e9 + 0.5,
	999999.9, 1048576, 2097152, 21, 20.99, 1e10, 123e18, 5e20, math.MaxInt64, -math.MaxInt64, math.MaxUint32,
}

// number reads one decimal Cypher number that is exactly v.
func number(want float64, float bool) func(string) int {
	return func(s string) int {
		i := 0
		if i < len(s) && s[i] == '-' {
			i++
		}
		start := i
		dot, exp := false, false
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == start {
			return -1
		}
		if i+1 < len(s) && s[i] == '.' && s[i+1] >= '0' && s[i+1] <= '9' {
			dot = true
			for i++; i < len(s) && s[i] >= '0' && s[i] <= '9'; {
				i++
			}
		}
		if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
			j := i + 1
			if j < len(s) && s[j] == '-' {
				j++
			}
			if j < len(s) && s[j] >= '0' && s[j] <= '9' {
				exp = true
				for i = j; i < len(s) && s[i] >= '0' && s[i] <= '9'; {
					i++
				}
			}
		}
		v, err := strconv.ParseFloat(s[:i], 64)
		if err != nil || v != want || float && !dot && !exp {
			return -1
		}
		return i
	}
}

// Floating-point numbers (a fixed table) at every place.
func C03_floats() {
	v := floats[nd.Choose("v", len(floats))]
	i := nd.Choose("place", 4)
	if nd.Thorough() && i == 0 {
		i = nd.Choose("every", nExprPlaces)
	}
	out, err, tpl := exprPlace([]int{0, 6, 20, 35}[i%4], cypher.LiteralOf(v))
	if nd.Thorough() {
		out, err, tpl = exprPlace(i, cypher.LiteralOf(v))
	}
	nd.Observe("text", out)
	nd.Check("accepted", err == nil)
	match("float", out, tpl, number(v, true))
}

// Percentiles of every digit pair.
func C03_percentiles() {
	p := []float64{0, 0.1, 0.25, 0.5, 0.95, 0.99, 0.999, 0.123456789, 1, 1e-9}[nd.Choose("p", 10)]
	x := sym("x")
	var e expr
	tpl := ""
	switch nd.Choose("f", 4) {
	case 0:
		e, tpl = cypher.PercentileCont(x, p), "percentileCont(x, "
	case 1:
		e, tpl = cypher.PercentileContDistinct(x, p), "percentileCont(DISTINCT x, "
	case 2:
		e, tpl = cypher.PercentileDisc(x, p), "percentileDisc(x, "
	case 3:
		e, tpl = cypher.PercentileDiscDistinct(x, p), "percentileDisc(DISTINCT x, "
	}
	match("percentile", ok(cypher.CypherReturning(e)), "RETURN "+tpl+H+")", number(p, false))
}

// Numbers without a Cypher literal are refused, at every place.
func C03_refused() {
	v := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[nd.Choose("v", 3)]
	_, err, _ := exprPlace(nd.Choose("place", nExprPlaces), cypher.LiteralOf(v))
	nd.Check("refused", err != nil)
}

// Booleans, null and lists of literals at every place.
func C03_constants() {
	var l cypher.Literal
	want := ""
	b := nd.Bool("b")
	switch nd.Choose("kind", 7) {
	case 0:
		l, want = cypher.LiteralOf(b), strconv.FormatBool(b)
	case 1:
		l, want = cypher.LiteralTrue(), "true"
	case 2:
		l, want = cypher.LiteralFalse(), "false"
	case 3:
		l, want = cypher.LiteralOf(nil), "NULL"
	case 4:
		l, want = cypher.ListLiteralCreate([]cypher.Literal{cypher.LiteralOf(b), cypher.LiteralOf(nil), cypher.LiteralOf(7), cypher.LiteralOf("s")}), "["+strconv.FormatBool(b)+", NULL, 7, 's']"
	case 5:
		l, want = cypher.ListLiteralCreate([]cypher.Literal{cypher.LiteralOf(nil)}), "[NULL]"
	case 6:
		l, want = cypher.BooleanLiteralCreate(!b), strconv.FormatBool(!b)
	}
	i := nd.Choose("place", nExprPlaces)
	out, err, tpl := exprPlace(i, l)
	nd.Observe("text", out)
	nd.Check("accepted", err == nil)
	nd.Check("constant", out == fill(tpl, want))
}

// Constant conditions and parameters.
func C03_conditions() {
	i := nd.Choose("place", nCondPlaces)
	c, want := cypher.ConditionsIsTrue(), "true"
	if nd.Bool("b") {
		c, want = cypher.ConditionsIsFalse(), "false"
	}
	b, tpl := condPlace(i, c)
	out := ok(b)
	nd.Check("constant", out == fill(tpl, want))
}

// A parameter is a dollar sign and its name at every place.
func C03_parameters() {
	i := nd.Choose("place", nExprPlaces)
	s := nd.StrOf("s", 1, 3, "a-zA-Z")
	out, err, tpl := exprPlace(i, cypher.AParam(s))
	nd.Observe("text", out)
	nd.Check("accepted", err == nil)
	nd.CheckEq("parameter", out, fill(tpl, "$"+s))
}

// A percentile outside of 0 to 1 is refused, not rendered as something else.
func C03_outside() {
	p := []float64{-0.5, -1e-9, 1.000001, 1.5, 2, -1, 95, math.Inf(1), math.Inf(-1), math.NaN()}[nd.Choose("p", 10)]
	x := sym("x")
	var e expr
	switch nd.Choose("f", 4) {
	case 0:
		e = cypher.PercentileCont(x, p)
	case 1:
		e = cypher.PercentileContDistinct(x, p)
	case 2:
		e = cypher.PercentileDisc(x, p)
	case 3:
		e = cypher.PercentileDiscDistinct(x, p)
	}
	_, err := text(cypher.CypherReturning(e))
	nd.Check("refused", err != nil)
}
