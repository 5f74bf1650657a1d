package props

import (
	"strconv"
	"strings"
	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// twice makes try do everything again and compare.
var twice bool

// mustRefuse makes try check that nothing comes out.
var mustRefuse bool

// mustShow makes try check that the mark is in what comes out.
var mustShow bool

// mustForm makes try check the form of what comes out.
var mustForm bool

// mustQuote makes try check that the mark, which has this text in it, is only
// ever part of a quoted name or literal.
var mustQuote string

// noted makes try note what comes out.
var noted *[]string

func try(b cypher.BuildableStatement) {
	if b == nil {
		return
	}
	if mustQuote != "" {
		out, err := text(b)
		if err != nil {
			return
		}
		nd.Observe("text", out)
		c := mustQuote
		name := "`q" + strings.ReplaceAll(c, "`", "``") + markDigits + "`"
		literal := strings.ReplaceAll(strings.ReplaceAll(c, "\\", "\\\\"), "'", "\\'")
		rest := strings.ReplaceAll(out, name, "")
		rest = strings.ReplaceAll(rest, "'q"+literal+markDigits+"'", "")
		if c == " " {
			c = "q "
		}
		nd.Check("quoted", !strings.Contains(rest, c+markDigits))
		return
	}
	if mustForm {
		out, err := text(b)
		if err != nil {
			return
		}
		nd.Observe("text", out)
		wrong := lexical(out)
		if strings.HasPrefix(wrong, "no clause at the start") || strings.HasPrefix(wrong, "part of a case") {
			return // not a statement, although it has the methods of one
		}
		nd.CheckEq("form", wrong, "")
		return
	}
	if mustShow {
		out, err := text(b)
		if err == nil {
			nd.Observe("text", out)
			nd.Check("shown", strings.Contains(out, strconv.Itoa(markNumber)))
		}
		return
	}
	if mustRefuse {
		out, err := text(b)
		nd.Observe("text", out)
		nd.Check("refused", err != nil)
		return
	}
	if noted != nil {
		*noted = append(*noted, outcome(b))
		return
	}
	if !twice {
		_, _ = text(b)
		return
	}
	st, err := b.Build()
	if err != nil {
		_, again := b.Build()
		nd.Check("refusedAgain", again != nil)
		return
	}
	r := cypher.NewRenderer()
	out := shownBy(r, st)
	nd.CheckEq("again", shownBy(cypher.NewRenderer(), st), out)
	nd.CheckEq("sameRenderer", shownBy(r, st), out)
	nd.CheckEq("rebuilt", outcome(b), out)
}

func shownBy(r *cypher.CypherRenderer, st cypher.Statement) string {
	out, err := r.Render(st)
	if err != nil {
		return "refused: " + err.Error()
	}
	return out
}

// use does with v what can be done with it.
func use(v any) {
	if v == nil {
		return
	}
	x := sym("u")
	if s, is := v.(cypher.Statement); is {
		try(stmt{s})
		try(cypher.Match(nodeN()).Call(s).Returning(x))
		try(stmt{cypher.Union(s, returning(x))})
	}
	if b, is := v.(cypher.BuildableStatement); is {
		try(b)
	}
	if c, is := v.(cypher.ExpressionContainer); is {
		v = c.Get()
	}
	if c, is := v.(cypher.ConditionContainer); is {
		v = c.Get()
	}
	if e, is := v.(cypher.Expression); is {
		try(stmt{returning(e)})
		try(cypher.Match(nodeN()).With(e, x).Where(wrap(e).IsEqualTo(e).Get()).OrderBySortItem(cypher.Sort(e)).Returning(cypher.Coalesce(x, e)).OrderBy(e))
		try(cypher.Match(nodeN()).Set(cypher.AProperty("n", "p"), e))
		_ = e.GetError()
	}
	if c, is := v.(cypher.Condition); is {
		try(cypher.Match(nodeN()).Where(c).And(c).Returning(x))
	}
	if p, is := v.(cypher.RelationshipPattern); is {
		try(cypher.Match(p).WherePattern(p).Returning(cypher.ListBasedOn(p).Returning(x)))
	}
	if p, is := v.(cypher.PatternElement); is {
		try(cypher.Match(p).Merge(p, p).Returning(x))
	}
	if n, is := v.(cypher.Named); is && !mustShow {
		try(cypher.Match(nodeN()).ReturningByNamed(n))
		_ = n.GetRequiredSymbolicName().GetError()
	}
	if s, is := v.(cypher.SortItem); is {
		try(cypher.Match(nodeN()).Returning(x).OrderBySortItem(s, s))
	}
	useBuilder(v)
}

func useBuilder(v any) {
	x := sym("u")
	if mustRefuse || mustShow || mustForm || mustQuote != "" {
		// What its type does not offer is not asked of a builder of one.
		if _, is := v.(cypher.BuildableStatement); is {
			return
		}
		if b, is := v.(cypher.OngoingDefinitionWithoutReturn); is {
			use(b.ReturningDefault())
			return
		}
		if b, is := v.(cypher.OngoingListBasedPredicateFunctionWithList); is {
			use(b.Where(wrap(x).IsNull().Get()))
			return
		}
	}
	if b, is := v.(cypher.ExposesReturning); is {
		try(b.Returning(x))
	}
	if b, is := v.(cypher.ExposesWith); is {
		try(b.With(x).Returning(x))
	}
	if b, is := v.(cypher.ExposesWhere); is {
		try(b.Where(wrap(x).IsNull().Get()).Returning(x))
	}
	if b, is := v.(cypher.ExposesDelete); is {
		try(b.Delete(x))
	}
	if b, is := v.(cypher.ExposesSet); is {
		try(b.Set(x, x))
	}
	if b, is := v.(cypher.ExposesMerge); is {
		try(b.Merge(nodeN()).OnMatch().Set(x, x))
	}
	if b, is := v.(cypher.OngoingUnwind); is {
		try(b.As("u").Returning(x))
	}
	if b, is := v.(cypher.OngoingMergeAction); is {
		try(b.Set(x, x))
	}
	if b, is := v.(cypher.OngoingDefinitionWithVariable); is {
		use(b.In(x).Where(wrap(x).IsNull().Get()).Returning(x))
	}
	if b, is := v.(cypher.OngoingDefinitionWithoutReturn); is {
		use(b.ReturningDefault())
	}
	if b, is := v.(cypher.PatternComprehensionOngoingDefinitionWithoutReturn); is {
		use(b.Returning(x))
	}
	if b, is := v.(cypher.OngoingListBasedPredicateFunction); is {
		use(b.In(x).Where(wrap(x).IsNull().Get()))
	}
	if b, is := v.(cypher.OngoingListBasedPredicateFunctionWithList); is {
		use(b.Where(wrap(x).IsNull().Get()))
	}
	if b, is := v.(cypher.OngoingDefinitionWithName); is {
		use(b.DefinedBy(knows()))
	}
	if b, is := v.(cypher.OngoingWhenThen); is {
		use(b.Then(x))
	}
}

// Every exported function with any arguments.
func C18_functions() {
	f := apiFunctions[pick("function", len(apiFunctions))]
	nd.Observe("call", f.name)
	use(f.call(argsFor(f.params)))
	nd.Check("done", true)
}

func argsFor(n int) *args {
	a := &args{at: -9, also: -9}
	if n > 0 {
		a.at = pick("parameter", n)
	}
	if n > 1 && nd.Thorough() {
		a.also = pick("another", n)
	}
	return a
}

// Every exported method on values of all kinds with any arguments.
func C18_methods() {
	v := apiValue(pick("on", nAPIValues))
	var calls []func(a *args) any
	var params []int
	var names []string
	for _, m := range apiMethods {
		if c := m.bind(v); c != nil {
			calls, params, names = append(calls, c), append(params, m.params), append(names, m.name)
		}
	}
	if len(calls) == 0 {
		return
	}
	k := pick("method", len(calls))
	a := argsFor(params[k])
	a.brief = !nd.Thorough()
	nd.Observe("call", names[k])
	use(calls[k](a))
	nd.Check("done", true)
}

const nAPIValues = 130

// apiValue is the i-th of the things on which methods are called.
func apiValue(i int) any {
	x, y := sym("x"), sym("y")
	n, r := nodeN(), knows()
	c := wrap(x).IsNull().Get()
	m := cypher.Match(n)
	bad := badExpr(2)
	badNode := cypher.ANode("")
	switch i {
	case 0:
		return x
	case 1:
		return cypher.ASymbolic("")
	case 2:
		return n
	case 3:
		return badNode
	case 4:
		return cypher.AnyNode()
	case 5:
		return r
	case 6:
		return n.RelationshipTo(badNode)
	case 7:
		return n.RelationshipTo(n).RelationshipFrom(n)
	case 8:
		return n.RelationshipTo(n).RelationshipFrom(badNode)
	case 9:
		return cypher.APath("p").DefinedBy(r)
	case 10:
		return cypher.APath("").DefinedBy(r)
	case 11:
		return cypher.APath("p")
	case 12:
		return cypher.APath("")
	case 13:
		return cypher.AShortestPath("p")
	case 14:
		return cypher.AShortestPath("")
	case 15:
		return cypher.MapOf("a", x)
	case 16:
		return cypher.MapOf("a")
	case 17:
		return cypher.MapOf()
	case 18:
		return n.Project("a", x)
	case 19:
		return n.Project(1)
	case 20:
		return wrap(x)
	case 21:
		return wrap(bad)
	case 22:
		return wrap(nil)
	case 23:
		return wrap(x).IsNull()
	case 24:
		return wrap(bad).IsNull()
	case 25:
		return cypher.ConditionWrap(nil)
	case 26:
		return cypher.ConditionWrap(cypher.ConditionsNoCondition())
	case 27:
		return wrap(x).IsNull().And(c).Get()
	case 28:
		return wrap(x).IsNull().And(nil).Get()
	case 29:
		return cypher.ConditionBuilderCreate()
	case 30:
		return cypher.OrderBuilderCreate()
	case 31:
		return cypher.AliasedExpressionCreate(x, "al")
	case 32:
		return cypher.AliasedExpressionCreate(x, "")
	case 33:
		return cypher.Sort(x)
	case 34:
		return cypher.Sort(nil)
	case 35:
		return cypher.CaseExpression(x)
	case 36:
		return cypher.CaseExpression(nil)
	case 37:
		return cypher.CaseExpression(x).When(y)
	case 38:
		return cypher.CaseExpression(x).When(nil)
	case 39:
		return cypher.CaseExpression(x).When(y).Then(x)
	case 40:
		return cypher.GenericCaseExpression()
	case 41:
		return cypher.GenericCaseExpression().When(c).Then(x)
	case 42:
		return cypher.GenericCaseExpression().When(c).Then(x).ElseDefault(y)
	case 43:
		return cypher.CaseExpression(x).When(y).Then(bad)
	case 44:
		return cypher.LiteralOf("a")
	case 45:
		return cypher.LiteralOf(1)
	case 46:
		return cypher.LiteralOf(nil)
	case 47:
		return cypher.LiteralTrue()
	case 48:
		return cypher.LiteralOf(struct{}{})
	case 49:
		return cypher.ListLiteralCreate([]cypher.Literal{cypher.LiteralOf(1)})
	case 50:
		return cypher.ListLiteralCreate(nil)
	case 51:
		return cypher.AParam("p")
	case 52:
		return cypher.AParam("")
	case 53:
		return n.Property("p")
	case 54:
		return n.Property("")
	case 55:
		return cypher.PropertyLookupCreate("p")
	case 56:
		return cypher.ASTERISK
	case 57:
		return cypher.DOTS
	case 58:
		return cypher.NewExpressionList(x)
	case 59:
		return cypher.NewExpressionList(bad)
	case 60:
		return cypher.ListOf(x)
	case 61:
		return cypher.CypherListWith(cypher.ASymbolic("v"))
	case 62:
		return cypher.CypherListWith(cypher.ASymbolic("v")).In(x)
	case 63:
		return cypher.CypherListWith(cypher.ASymbolic("v")).In(x).Where(c)
	case 64:
		return cypher.CypherListWith(cypher.ASymbolic("v")).In(nil)
	case 65:
		return cypher.CypherListWith(cypher.ASymbolic(""))
	case 66:
		return cypher.ListBasedOn(r)
	case 67:
		return cypher.ListBasedOn(nil)
	case 68:
		return cypher.ListBasedOn(r).Where(c)
	case 69:
		return cypher.ListBasedOn(r).Where(nil)
	case 70:
		return cypher.PredicateAll("v")
	case 71:
		return cypher.PredicateAll("")
	case 72:
		return cypher.PredicateAny("v").In(x)
	case 73:
		return cypher.PredicateAny("v").In(nil)
	case 74:
		return cypher.Coalesce(x)
	case 75:
		return cypher.Coalesce()
	case 76:
		return wrap(x).Add(y).Get()
	case 77:
		return cypher.CypherValueAt(x, 1)
	case 78:
		return n.HasLabels("A")
	case 79:
		return cypher.ConditionsNotByPattern(r)
	case 80:
		return cypher.RelationshipPatternConditionCreate(r)
	case 81:
		return m.Where(c).AsCondition()
	case 82:
		return m
	case 83:
		return m.Where(c)
	case 84:
		return m.Where(nil)
	case 85:
		return cypher.Match()
	case 86:
		return cypher.Match(badNode)
	case 87:
		return cypher.AnOptionalMatch(r)
	case 88:
		return m.Where(c).And(c)
	case 89:
		return m.Where(badCond(0))
	case 90:
		return m.Returning(x)
	case 91:
		return m.Returning(bad)
	case 92:
		return m.Returning(x).OrderBy(y)
	case 93:
		return m.Returning(x).OrderBy(y).Descending()
	case 94:
		return m.Returning(x).OrderBySortItem(cypher.Sort(x))
	case 95:
		return m.Returning(x).Skip(1)
	case 96:
		return m.Returning(x).Limit(1)
	case 97:
		return m.With(x)
	case 98:
		return m.With(bad)
	case 99:
		return m.With(x).OrderByExpression(y)
	case 100:
		return m.With(x).OrderByExpression(y).Ascending()
	case 101:
		return m.With(x).Where(c)
	case 102:
		return m.With(x).Limit(1)
	case 103:
		return m.With(x).Skip(1)
	case 104:
		return m.Create(n)
	case 105:
		return cypher.Create(badNode)
	case 106:
		return m.Merge(n)
	case 107:
		return m.Merge(n).OnMatch()
	case 108:
		return m.Merge(n).OnCreate().Set(x, y)
	case 109:
		return cypher.Merge(badNode).OnMatch()
	case 110:
		return m.Set(x, y)
	case 111:
		return m.Set(x)
	case 112:
		return m.Delete(x)
	case 113:
		return m.DetachDelete(bad)
	case 114:
		return cypher.Create(n).OnMatch()
	case 115:
		return cypher.Unwind(x)
	case 116:
		return cypher.Unwind(nil)
	case 117:
		return cypher.Unwind(x).As("v")
	case 118:
		return cypher.Unwind(x).As("")
	case 119:
		return cypher.ACallSimple("p")
	case 120:
		return cypher.ACall()
	case 121:
		return cypher.ACallSimple("p").WithArgs(x)
	case 122:
		return cypher.ACallSimple("p").WithArgs(x).YieldString("v")
	case 123:
		return cypher.ACallSimple("p").YieldString("v").Where(c)
	case 124:
		return m.Call1("p")
	case 125:
		return m.Call1("p").WithArgs(bad)
	case 126:
		return m.Call1("p").YieldString("v")
	case 127:
		return m.Call1("p").YieldString("v").Where(c)
	case 128:
		return cypher.ACallByStatement(returning(x))
	case 129:
		return m.Call(returning(bad))
	}
	panic("no such value")
}

// bound are the methods that v has.
func bound(v any) (calls []func(a *args) any, params []int, names []string) {
	for _, m := range apiMethods {
		if c := m.bind(v); c != nil {
			calls, params, names = append(calls, c), append(params, m.params), append(names, m.name)
		}
	}
	return
}

// Every exported method on what another one, or a function, returned.
func C18_chains() {
	i := pick("on", nAPIValues+len(apiFunctions))
	var v any
	first := 0
	if i >= nAPIValues {
		f := apiFunctions[i-nAPIValues]
		nd.Observe("call", f.name)
		v = f.call(&args{at: -9, also: -9, brief: true})
	} else {
		v = apiValue(i)
		calls, _, names := bound(v)
		if len(calls) == 0 {
			return
		}
		k := pick("method", len(calls))
		nd.Observe("call", names[k])
		v = calls[k](&args{at: -9, also: -9, brief: true})
		first = k
	}
	if v == nil {
		return
	}
	calls, params, names := bound(v)
	if len(calls) == 0 {
		return
	}
	part := 8
	if nd.Thorough() {
		part = 1
	}
	k := pick("then", (len(calls)+part-1)/part)*part + (i+first)%part
	if k >= len(calls) {
		return
	}
	nd.Observe("call", names[k])
	a := &args{at: -9, also: -9, brief: true}
	if nd.Thorough() {
		a = argsFor(params[k])
		a.brief = true
	}
	use(calls[k](a))
	nd.Check("done", true)
}
