package props

import (
	"math"
	"strings"
	"time"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// A fn is a function helper that takes expressions.
type fn struct {
	name     string
	n        int // number of arguments
	distinct bool
	call     func(a []expr) expr
}

// maps are required by some
func one(f func(e expr) cypher.FunctionInvocation) func(a []expr) expr {
	return func(a []expr) expr { return f(a[0]) }
}

const nFns = 44

func fnOf(i int) fn {
	switch i {
	case 0:
		return fn{"count", 1, false, one(cypher.CountByExpression)}
	case 1:
		return fn{"count", 1, true, one(cypher.CountDistinctByExpression)}
	case 2:
		return fn{"toLower", 1, false, one(cypher.ToLower)}
	case 3:
		return fn{"size", 1, false, one(cypher.Size)}
	case 4:
		return fn{"exists", 1, false, one(cypher.Exists)}
	case 5:
		return fn{"distance", 2, false, func(a []expr) expr { return cypher.Distance(a[0], a[1]) }}
	case 6:
		return fn{"avg", 1, false, one(cypher.Avg)}
	case 7:
		return fn{"avg", 1, true, one(cypher.AvgDistinct)}
	case 8:
		return fn{"collect", 1, false, one(cypher.Collect)}
	case 9:
		return fn{"collect", 1, true, one(cypher.CollectDistinct)}
	case 10:
		return fn{"max", 1, false, one(cypher.Max)}
	case 11:
		return fn{"max", 1, true, one(cypher.MaxDistinct)}
	case 12:
		return fn{"min", 1, false, one(cypher.Min)}
	case 13:
		return fn{"min", 1, true, one(cypher.MinDistinct)}
	case 14:
		return fn{"stDev", 1, false, one(cypher.StDev)}
	case 15:
		return fn{"stDev", 1, true, one(cypher.StDevDistinct)}
	case 16:
		return fn{"stDevP", 1, false, one(cypher.StDevP)}
	case 17:
		return fn{"stDevP", 1, true, one(cypher.StDevPDistinct)}
	case 18:
		return fn{"sum", 1, false, one(cypher.Sum)}
	case 19:
		return fn{"sum", 1, true, one(cypher.SumDistinct)}
	case 20:
		return fn{"range", 2, false, func(a []expr) expr { return cypher.Range(a[0], a[1]) }}
	case 21:
		return fn{"range", 3, false, func(a []expr) expr { return cypher.RangeWithStep(a[0], a[1], a[2]) }}
	case 22:
		return fn{"head", 1, false, one(cypher.Head)}
	case 23:
		return fn{"last", 1, false, one(cypher.Last)}
	case 24:
		return fn{"date", 1, false, one(cypher.DateWithExpression)}
	case 25:
		return fn{"datetime", 1, false, one(cypher.DateTimeWithExpression)}
	case 26:
		return fn{"localdatetime", 1, false, one(cypher.LocalDateTimeWithExpression)}
	case 27:
		return fn{"localtime", 1, false, one(cypher.LocalTimeWithExpression)}
	case 28:
		return fn{"time", 1, false, one(cypher.TimeWithExpression)}
	case 29:
		return fn{"duration", 1, false, one(cypher.DurationWithExpression)}
	case 30:
		return fn{"coalesce", 3, false, func(a []expr) expr { return cypher.Coalesce(a...) }}
	case 31:
		return fn{"my.own", 2, false, func(a []expr) expr { return cypher.FunctionInvocationCreateWithFunctionName("my.own", a...) }}
	case 32:
		return fn{"apoc.x.y", 3, false, func(a []expr) expr { return cypher.ACall("apoc", "x", "y").WithArgs(a...).AsFunction() }}
	case 33:
		return fn{"g", 1, false, func(a []expr) expr { return cypher.ACallSimple("g").WithArgs(a...).AsFunction() }}
	case 34:
		return fn{"avg", 1, false, func(a []expr) expr { return cypher.FunctionInvocationCreate(cypher.AVG, a...) }}
	case 35:
		return fn{"max", 1, true, func(a []expr) expr { return cypher.FunctionInvocationCreateDistinct(cypher.MAX, a...) }}
	case 36:
		return fn{"percentileCont", 2, true, func(a []expr) expr { return cypher.FunctionInvocationCreateDistinct(cypher.PERCENTILE_CONT, a...) }}
	case 37:
		return fn{"percentileDisc", 2, false, func(a []expr) expr { return cypher.FunctionInvocationCreate(cypher.PERCENTILE_DISC, a...) }}
	case 38:
		return fn{"coalesce", 1, false, func(a []expr) expr { return cypher.Coalesce(a...) }}
	case 39:
		return fn{"f", 5, false, func(a []expr) expr { return cypher.FunctionInvocationCreateWithFunctionName("f", a...) }}
	case 40:
		return fn{"percentileCont", 3, true, func(a []expr) expr { return cypher.FunctionInvocationCreateDistinct(cypher.PERCENTILE_CONT, a...) }}
	case 41:
		return fn{"exists", 1, false, func(a []expr) expr { return cypher.FunctionInvocationCreate(cypher.EXISTS, a...) }}
	case 42:
		return fn{"date", 1, false, func(a []expr) expr { return cypher.FunctionInvocationCreate(cypher.DATE, a...) }}
	case 43:
		return fn{"size", 1, false, func(a []expr) expr { return cypher.FunctionInvocationCreate(cypher.SIZE, a...) }}
	}
	panic("no such function")
}

func (f fn) text(ts []string) string {
	d := ""
	if f.distinct {
		d = "DISTINCT "
	}
	return f.name + "(" + d + strings.Join(ts, ", ") + ")"
}

// apply calls a function with arguments of kinds k, k+1, ...
func (f fn) apply(k int) (expr, string) {
	var es []expr
	var ts []string
	for j := 0; j < f.n; j++ {
		a := argOf((k+j*5)%nArgs, stepText(j))
		es = append(es, a.e)
		ts = append(ts, a.t)
	}
	return f.call(es), f.text(ts)
}

func placed(id string, p int, e expr, t string) {
	out, err, tpl := exprPlace(p, e)
	nd.Check("accepted", err == nil)
	nd.CheckEq(id, out, fill(tpl, t))
}

// funPlaces are places of several kinds.
var funPlaces = []int{0, 1, 3, 6, 8, 13, 17, 20, 21, 26, 27, 29, 30, 32, 35, 40, 42, 43, 44, 46, 52}

// Every function with arguments of every kind.
func C12_arguments() {
	f := fnOf(pick("function", nFns))
	k := pick("argument", nArgs)
	e, t := f.apply(k)
	placed("call", 0, e, t)
	for j := 0; j < len(funPlaces); j++ {
		if !nd.Thorough() && j%4 != k%4 {
			continue
		}
		e, t = f.apply(k)
		placed("placed", funPlaces[j], e, t)
	}
}

// A function of a function of a function.
func C12_nested() {
	f, g := fnOf(pick("outer", nFns)), fnOf(pick("middle", nFns))
	n := 1
	if nd.Thorough() {
		n = nFns
	}
	in, it := fnOf((pick("inner", n) + f.n + 5*len(g.name)) % nFns).apply(3)
	wrapIn := func(f fn, e expr, t string) (expr, string) {
		var es []expr
		var ts []string
		at := f.n - 1
		for j := 0; j < f.n; j++ {
			if j == at {
				es, ts = append(es, e), append(ts, t)
				continue
			}
			a := argOf((j+5)%nArgs, stepText(j+3))
			es, ts = append(es, a.e), append(ts, a.t)
		}
		return f.call(es), f.text(ts)
	}
	e, t := wrapIn(g, in, it)
	e, t = wrapIn(f, e, t)
	placed("nested", 0, e, t)
}

// Calls of any number of arguments.
func C12_variadic() {
	max := 8
	if nd.Thorough() {
		max = 20
	}
	n := pick("count", max+1)
	k := pick("kind", nArgs)
	var es []expr
	var ts []string
	for j := 0; j < n; j++ {
		a := argOf((k+j)%nArgs, stepText(j))
		es, ts = append(es, a.e), append(ts, a.t)
	}
	in := strings.Join(ts, ", ")
	switch pick("form", 7) {
	case 0:
		nd.Assume(n > 0)
		placed("coalesce", 0, cypher.Coalesce(es...), "coalesce("+in+")")
	case 1:
		placed("named", 1, cypher.FunctionInvocationCreateWithFunctionName("f.g", es...), "f.g("+in+")")
	case 2:
		placed("function", 3, cypher.ACall("a", "b").WithArgs(es...).AsFunction(), "a.b("+in+")")
	case 3:
		nd.CheckEq("standalone", ok(cypher.ACall("a", "b", "c", "d").WithArgs(es...)), "CALL a.b.c.d("+in+")")
	case 4:
		nd.CheckEq("inQuery", ok(cypher.Match(nodeN()).Call1("p").WithArgs(es...).YieldString("y").Returning(sym("x"))),
			"MATCH (n:`L`) CALL p("+in+") YIELD y RETURN x")
	case 5:
		nd.Assume(n > 0)
		placed("distinct", 8, cypher.FunctionInvocationCreateDistinct(cypher.PERCENTILE_DISC, es...), "percentileDisc(DISTINCT "+in+")")
	case 6:
		nd.Assume(n > 0)
		placed("definition", 6, cypher.FunctionInvocationCreate(cypher.POINT, es...), "point("+in+")")
	}
}

const nOwnFns = 57

// ownFn are the helpers that take something else than expressions.
func ownFn(i int) (expr, string) {
	n := cypher.ANode("L").NamedByString("n")
	r := knows().NamedByString("r")
	x, y := sym("x"), sym("y")
	mp := cypher.MapOf("a", x, "b", y)
	const mt = "{a: x, b: y}"
	path := cypher.APath("p").DefinedBy(r)
	switch i {
	case 0:
		return cypher.IdByNode(n), "id(n)"
	case 1:
		return n.InternalId(), "id(n)"
	case 2:
		return cypher.IdByRelationship(r), "id(r)"
	case 3:
		return cypher.Labels(n), "labels(n)"
	case 4:
		return n.Labels(), "labels(n)"
	case 5:
		return cypher.FunctionType(r), "type(r)"
	case 6:
		return cypher.Count(n), "count(n)"
	case 7:
		return cypher.CountDistinct(n), "count(DISTINCT n)"
	case 8:
		return cypher.FunctionProperties(n), "properties(n)"
	case 9:
		return cypher.FunctionPropertiesByRelationship(r), "properties(r)"
	case 10:
		return cypher.PropertiesByMapExpression(mp), "properties(" + mt + ")"
	case 11:
		return cypher.SizeByPattern(knows()), "size(" + knowsText + ")"
	case 12:
		return cypher.Point(mp), "point(" + mt + ")"
	case 13:
		return cypher.PointByParameter(cypher.AParam("q")), "point($q)"
	case 14:
		return cypher.CollectByNamed(n), "collect(n)"
	case 15:
		return cypher.CollectDistinctByNamed(r), "collect(DISTINCT r)"
	case 16:
		return cypher.Nodes(path), "nodes(p)"
	case 17:
		return cypher.Relationships(path), "relationships(p)"
	case 18:
		return cypher.StartNode(r), "startNode(r)"
	case 19:
		return cypher.EndNode(r), "endNode(r)"
	case 20:
		return cypher.Date(), "date()"
	case 21:
		return cypher.Datetime(), "datetime()"
	case 22:
		return cypher.LocalDatetime(), "localdatetime()"
	case 23:
		return cypher.Localtime(), "localtime()"
	case 24:
		return cypher.Time(), "time()"
	case 25:
		return cypher.DateWithComponents(mp), "date(" + mt + ")"
	case 26:
		return cypher.DateTimeWithComponents(mp), "datetime(" + mt + ")"
	case 27:
		return cypher.LocalDateTimeWithComponents(mp), "localdatetime(" + mt + ")"
	case 28:
		return cypher.LocalTimeWithComponents(mp), "localtime(" + mt + ")"
	case 29:
		return cypher.TimeWithComponents(mp), "time(" + mt + ")"
	case 30:
		return cypher.DurationWithComponents(mp), "duration(" + mt + ")"
	case 31:
		return cypher.ShortestPath(cypher.AnyNodeNamed("y").RelationshipFrom(cypher.AnyNode(), "T")), "shortestPath((y)<-[:`T`]-())"
	case 32:
		return cypher.PredicateExists(n.Property("p")), "exists(n.p)"
	case 33:
		return cypher.PredicateExistsByPattern(knows()), "exists(" + knowsText + ")"
	case 34:
		return cypher.PredicateAll("v").In(x).Where(isNull("w")), "all(v IN x WHERE w IS NULL)"
	case 35:
		return cypher.PredicateAny("v").In(x).Where(isNull("w")), "any(v IN x WHERE w IS NULL)"
	case 36:
		return cypher.PredicateNone("v").In(x).Where(isNull("w")), "none(v IN x WHERE w IS NULL)"
	case 37:
		return cypher.PredicateSingle("v").In(x).Where(isNull("w")), "single(v IN x WHERE w IS NULL)"
	case 38:
		return cypher.PredicateAllBySymbolicName(cypher.ASymbolic("v")).In(y).Where(isNull("w")), "all(v IN y WHERE w IS NULL)"
	case 39:
		return cypher.PredicateAnyBySymbolicName(cypher.ASymbolic("v")).In(y).Where(isNull("w")), "any(v IN y WHERE w IS NULL)"
	case 40:
		return cypher.PredicateNoneBySymbolicName(cypher.ASymbolic("v")).In(y).Where(isNull("w")), "none(v IN y WHERE w IS NULL)"
	case 41:
		return cypher.PredicateSingleBySymbolicName(cypher.ASymbolic("v")).In(y).Where(isNull("w")), "single(v IN y WHERE w IS NULL)"
	case 42:
		return cypher.PercentileCont(x, 0.25), "percentileCont(x, 0.25)"
	case 43:
		return cypher.PercentileContDistinct(x, 1), "percentileCont(DISTINCT x, 1.0)"
	case 44:
		return cypher.PercentileDisc(x, 0), "percentileDisc(x, 0.0)"
	case 45:
		return cypher.PercentileDiscDistinct(x, 0.99), "percentileDisc(DISTINCT x, 0.99)"
	case 46:
		return n.HasLabels("A", "B"), "n:`A`:`B`"
	case 47:
		return cypher.SizeByPattern(knows().RelationshipBetween(n, "U", "V").NamedC("q")), "size(" + knowsText + "-[q:`U`|`V`]-(n:`L`))"
	case 48:
		return cypher.CollectByNamed(path), "collect(p)"
	case 49:
		return cypher.CollectDistinctByNamed(cypher.APath("q").DefinedBy(knows())), "collect(DISTINCT q)"
	case 50:
		return cypher.FunctionInvocationCreate1(cypher.TIME), "time()"
	case 51:
		return cypher.CountByExpression(cypher.AnAsterisk()), "count(*)"
	case 52:
		return cypher.LocalDateTimeWithTimezone(time.FixedZone("Europe/Berlin", 3600)), "localdatetime({timezone: 'Europe/Berlin'})"
	case 53:
		return cypher.LocalTimeWithTimezone(time.FixedZone("A", 0)), "localtime({timezone: 'A'})"
	case 54:
		return cypher.TimeWithTimeZone(time.FixedZone("UTC", 0)), "time({timezone: 'UTC'})"
	case 55:
		return cypher.ACall("a", "b").(cypher.StandaloneCallBuilder).AsFunction(), "a.b()"
	case 56:
		return cypher.ShortestPath(r), "shortestPath((n:`L`)-[r:`T`]->(m))"
	}
	panic("no such function")
}

// The helpers that take nodes, relationships, paths, patterns and maps.
func C12_own() {
	i := pick("function", nOwnFns)
	e, t := ownFn(i)
	p := pick("place", 24)
	if p == 0 {
		placed("own", 0, e, t)
		return
	}
	if i == 47 || i == 46 || i >= 32 && i <= 41 {
		nd.Assume(false)
	}
	if p < len(funPlaces) && i != 31 && i != 11 && i != 33 && i != 56 {
		placed("placed", funPlaces[p], e, t)
		return
	}
	// and inside another function
	f := fnOf((p*7 + i) % nFns)
	nd.Assume(f.n == 1)
	placed("nested", 0, f.call([]expr{e}), f.text([]string{t}))
}

// The helpers that take numbers and texts.
func C12_values() {
	k := nd.Choose("function", 12)
	a, b, c := 2024, -7, 33
	switch pick("which", 3) {
	case 0:
		a = nd.Int("a", math.MinInt64, math.MaxInt64)
	case 1:
		b = nd.Int("b", math.MinInt64, math.MaxInt64)
	case 2:
		c = nd.Int("c", math.MinInt64, math.MaxInt64)
	}
	s := nd.StrOf("text", 1, 4, "a-z0-9:-")
	q := "'" + s + "'"
	switch k {
	case 0:
		placed("range", 0, cypher.RangeRaw(a, b), "range("+itoa(a)+", "+itoa(b)+")")
	case 1:
		placed("rangeStep", 0, cypher.RangeWithStepRaw(a, b, c), "range("+itoa(a)+", "+itoa(b)+", "+itoa(c)+")")
	case 2:
		placed("calendarDate", 0, cypher.CalendarDate(a, b, c), "date({year: "+itoa(a)+", month: "+itoa(b)+", day: "+itoa(c)+"})")
	case 3:
		placed("weekDate", 0, cypher.WeekDate(a, b, c), "date({year: "+itoa(a)+", week: "+itoa(b)+", dayOfWeek: "+itoa(c)+"})")
	case 4:
		placed("quarterDate", 0, cypher.QuarterDate(a, b, c), "date({year: "+itoa(a)+", quarter: "+itoa(b)+", dayOfQuarter: "+itoa(c)+"})")
	case 5:
		placed("ordinalDate", 0, cypher.OrdinalDate(a, b), "date({year: "+itoa(a)+", ordinalDay: "+itoa(b)+"})")
	case 6:
		placed("dateOf", 0, cypher.DateWithTemporal(s), "date("+q+")")
	case 7:
		placed("datetimeOf", 0, cypher.DateTimeWithTemporal(s), "datetime("+q+")")
	case 8:
		placed("localdatetimeOf", 0, cypher.LocalDateTimeWithTemporal(s), "localdatetime("+q+")")
	case 9:
		placed("localtimeOf", 0, cypher.LocalTimeWithTemporal(s), "localtime("+q+")")
	case 10:
		placed("timeOf", 0, cypher.TimeWithTemporal(s), "time("+q+")")
	case 11:
		placed("durationOf", 0, cypher.DurationWithTemporal(s), "duration("+q+")")
	}
}

var definitions = []struct {
	d         cypher.FunctionDefinition
	name      string
	aggregate bool
}{
	{cypher.COALESCE, "coalesce", false}, {cypher.END_NODE, "endNode", false}, {cypher.HEAD, "head", false}, {cypher.ID, "id", false},
	{cypher.LAST, "last", false}, {cypher.PROPERTIES, "properties", false}, {cypher.SHORTEST_PATH, "shortestPath", false},
	{cypher.SIZE, "size", false}, {cypher.START_NODE, "startNode", false}, {cypher.TYPE, "type", false}, {cypher.TO_LOWER, "toLower", false},
	{cypher.POINT, "point", false}, {cypher.DISTANCE, "distance", false}, {cypher.AVG, "avg", true}, {cypher.COLLECT, "collect", true},
	{cypher.COUNT, "count", true}, {cypher.MAX, "max", true}, {cypher.MIN, "min", true}, {cypher.PERCENTILE_CONT, "percentileCont", true},
	{cypher.PERCENTILE_DISC, "percentileDisc", true}, {cypher.ST_DEV, "stDev", true}, {cypher.ST_DEV_P, "stDevP", true}, {cypher.SUM, "sum", true},
	{cypher.LABELS, "labels", false}, {cypher.NODES, "nodes", false}, {cypher.RANGE, "range", false}, {cypher.RELATIONSHIPS, "relationships", false},
	{cypher.DATE, "date", false}, {cypher.DATETIME, "datetime", false}, {cypher.LOCALDATETIME, "localdatetime", false},
	{cypher.LOCALTIME, "localtime", false}, {cypher.TIME, "time", false}, {cypher.DURATION, "duration", false},
	{cypher.EXISTS, "exists", false}, {cypher.ALL, "all", false}, {cypher.ANY, "any", false}, {cypher.NONE, "none", false}, {cypher.SINGLE, "single", false},
}

// A function made of its definition has the name of the definition and the
// arguments it is given, however it is made.
func C12_definitions() {
	d := definitions[nd.Choose("function", len(definitions))]
	v := key("name")
	x, y, z := sym(v), sym("y"), sym("z")
	n, m := nodeN(), cypher.AnyNodeNamed("m")
	var f cypher.FunctionInvocation
	t, good := "", true
	switch pick("made", 8) {
	case 0:
		f, t = cypher.FunctionInvocationCreate1(d.d), "()"
	case 1:
		f, t = cypher.FunctionInvocationCreate(d.d, y, x, z), "(y, "+v+", z)"
	case 2:
		f, t, good = cypher.FunctionInvocationCreateDistinct(d.d, x, y, z), "(DISTINCT "+v+", y, z)", d.aggregate
	case 3:
		f, t = cypher.FunctionInvocationCreateWithPatternElement(d.d, n.RelationshipFrom(m, "T")), "((n:`L`)<-[:`T`]-(m))"
	case 4:
		f, t = cypher.FunctionInvocationCreateWithPattern(d.d, cypher.PatternCreate([]cypher.PatternElement{m.RelationshipTo(n), cypher.AnyNodeNamed(v), cypher.APath("p").DefinedBy(m.RelationshipTo(m))})), "((m)-->(n:`L`), ("+v+"), p = (m)-->(m))"
	case 5:
		f, t = cypher.FunctionInvocationCreateWithPattern(d.d, cypher.PatternCreate([]cypher.PatternElement{cypher.AnyNodeNamed(v)})), "(("+v+"))"
	case 6:
		f, good = cypher.FunctionInvocationCreate(d.d), false
	case 7:
		f, good = cypher.FunctionInvocationCreateDistinct(d.d), false
	}
	out, err := text(stmt{returning(f)})
	nd.Observe("text", out)
	nd.Check("refusedExactly", (err == nil) == good)
	if good {
		nd.CheckEq("function", out, "RETURN "+d.name+t)
	}
}
