package props

import (
	"errors"

	"time"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// An apiFunction is an exported function with the number of its parameters and
// a call of it.
type apiFunction struct {
	name   string
	params int
	call   func(a *args) any
}

// An apiMethod is an exported method; bind gives its call on v if v has it.
type apiMethod struct {
	name   string
	params int
	bind   func(v any) func(a *args) any
}

// args supplies the arguments of a call. The parameters at and also get any
// value of their pool, the others an ordinary one.
type args struct {
	at, also int
	brief    bool // only the first values of each pool
	refuse   bool // only refused values, if the pool has any
	mark     bool // only the mark
	numbers  bool // only for numbers
	did      bool // a refused value or the mark was given
}

func (a *args) varied(i int) bool { return i == a.at || i == a.also }

// mark is a name, text or key that nothing else has.
var mark = "qq77123qq"

// markNumber is the like of numbers.
var markNumber = 77123

const markDigits = "77123"

// marks says that parameter i gets the mark.
func (a *args) marks(i int) bool {
	if !a.mark || a.numbers || i != a.at {
		return false
	}
	a.did = true
	return true
}

// counts says that parameter i gets the number.
func (a *args) counts(i int) bool {
	if !a.mark || i != a.at {
		return false
	}
	a.did = true
	return true
}

// of decides which of n values parameter i gets; bad are the refused ones.
func (a *args) of(i, n int, bad ...int) int {
	if !a.varied(i) {
		return 0
	}
	if a.mark && i == a.at {
		return 0
	}
	if a.refuse {
		if len(bad) == 0 {
			return 0
		}
		a.did = true
		return bad[pick("bad", len(bad))]
	}
	if a.brief && n > 4 {
		n = 4
	}
	return pick("value", n)
}

// some gives a list of arguments: none, one, or several of which one is of
// any kind.
func some[T any](a *args, i int, one func(i int) T) []T {
	if !a.varied(i) {
		return []T{one(-1)}
	}
	n := 5
	if a.brief {
		n = 4
	}
	k := 0
	if a.refuse || a.mark && i == a.at {
		k = 1 + pick("list", 3)
	} else {
		k = pick("list", n)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return []T{one(i), one(-1), one(-1)}
	case 2:
		return []T{one(i)}
	case 3:
		return []T{one(-1), one(i)}
	default:
		return []T{}
	}
}

func (a *args) str(i int) string {
	if a.marks(i) {
		return mark
	}
	if !a.varied(i) || a.refuse {
		return "s"
	}
	if a.brief {
		return []string{"", nd.StrOf("letter", 1, 1, "j-m")}[pick("string", 2)]
	}
	switch pick("string", 6) {
	case 0:
		return ""
	case 1:
		return nd.Str("any", 1, 1)
	case 2:
		return nd.StrOf("letters", 2, 2, "a-z")
	case 3:
		return "a.b"
	case 4:
		return " \x00`\xff'\"\\"
	default:
		return "*"
	}
}

func (a *args) integer(i int) int {
	if a.counts(i) {
		return markNumber
	}
	if !a.varied(i) || a.refuse {
		return 1
	}
	if a.brief {
		return []int{0, nd.Int("number", -3, 3)}[pick("integer", 2)]
	}
	switch pick("integer", 4) {
	case 0:
		return nd.Int("number", -2000, 2000)
	case 1:
		return -1 << 63
	case 2:
		return 1<<63 - 1
	default:
		return 0
	}
}

func (a *args) integer64(i int) int64 { return int64(a.integer(i)) }

func (a *args) integerRef(i int) *int {
	n := 2
	if a.counts(i) {
		n = markNumber
	}
	switch a.of(i, 4) {
	case 1:
		return nil
	case 2:
		n = -1
	case 3:
		n = 0
	}
	return &n
}

func (a *args) float(i int) float64 {
	if a.marks(i) {
		return 0.5 + float64(markNumber)
	}
	zero := 0.0
	return []float64{0.5, 0, -1, 1, 1.5, 1e300, zero / zero, 1 / zero, -1 / zero}[a.of(i, 9)]
}

func (a *args) boolean(i int) bool { return a.of(i, 2) == 1 }

func (a *args) expression(i int) expr {
	if a.marks(i) {
		return sym(mark)
	}
	x := sym("x")
	switch a.of(i, 24, 2, 3, 4, 5, 6, 15, 23) {
	case 0:
		return x
	case 1:
		return nil
	case 2:
		return badExpr(0)
	case 3:
		return badExpr(2)
	case 4:
		return badExpr(11)
	case 5:
		return badExpr(28)
	case 6:
		return badExpr(29)
	case 7:
		return wrap(x).As("al").Get()
	case 8:
		return wrap(x).IsEqualTo(sym("y")).Get()
	case 9:
		return cypher.LiteralOf(nil)
	case 10:
		return cypher.ListOf()
	case 11:
		return cypher.ASTERISK
	case 12:
		return cypher.MapOf()
	case 13:
		return cypher.ConditionsNoCondition()
	case 14:
		return cypher.OperationSet(cypher.AProperty("n", "p"), x)
	case 15:
		return cypher.CaseExpression(x)
	case 16:
		return cypher.NewExpressionList(x, sym("y"))
	case 17:
		return cypher.NewExpressionList()
	case 18:
		return cypher.PropertyLookupCreate("p")
	case 19:
		return cypher.Count(nodeN())
	case 20:
		return cypher.LiteralOf("it's")
	case 21:
		return cypher.PredicateExists(cypher.AProperty("n", "p"))
	case 22:
		return cypher.AnyNodeNamed("n").Project("a", x)
	default:
		return badExpr(7)
	}
}

func (a *args) visitable(i int) cypher.Visitable {
	if a.marks(i) {
		return sym(mark)
	}
	switch a.of(i, 6, 3, 5) {
	case 0:
		return sym("x")
	case 1:
		return nil
	case 2:
		return nodeN()
	case 3:
		return badExpr(0)
	case 4:
		return knows()
	default:
		return cypher.ANode("")
	}
}

func (a *args) any(i int) any {
	if a.marks(i) {
		return sym(mark)
	}
	switch a.of(i, 19, 3) {
	case 0:
		return "s"
	case 1:
		return nil
	case 2:
		return sym("x")
	case 3:
		return badExpr(2)
	case 4:
		return nodeN()
	case 5:
		return 1
	case 6:
		return ""
	case 7:
		return true
	case 8:
		return 1.5
	case 9:
		return []cypher.Literal{cypher.LiteralOf(1), nil}
	case 10:
		return cypher.ASTERISK
	case 11:
		return struct{}{}
	case 12:
		return []int{1}
	case 13:
		return cypher.AnyNode()
	case 14:
		return knows()
	case 15:
		return cypher.APath("").DefinedBy(knows())
	case 16:
		return cypher.ANode("")
	case 17:
		return func() {}
	default:
		return []cypher.Literal{}
	}
}

func (a *args) named(i int) cypher.Named {
	if a.marks(i) {
		return cypher.AnyNodeNamed(mark)
	}
	switch a.of(i, 9, 3, 7, 8) {
	case 0:
		return cypher.AnyNodeNamed("v")
	case 1:
		return nil
	case 2:
		return cypher.AnyNode()
	case 3:
		return cypher.ANode("")
	case 4:
		return knows()
	case 5:
		return knows().NamedByString("r")
	case 6:
		return cypher.APath("p").DefinedBy(knows())
	case 7:
		return cypher.APath("").DefinedBy(knows())
	default:
		return knows().NamedByString("")
	}
}

func (a *args) node(i int) cypher.Node {
	if a.marks(i) {
		return cypher.AnyNodeNamed(mark)
	}
	switch a.of(i, 6, 2, 4, 5) {
	case 0:
		return nodeN()
	case 1:
		return cypher.AnyNode()
	case 2:
		return cypher.ANode("")
	case 3:
		return cypher.AnyNodeNamed("v")
	case 4:
		return cypher.ANode("L").NamedByString("")
	default:
		return nodeN().WithRawProperties("a")
	}
}

func (a *args) condition(i int) cond {
	if a.marks(i) {
		return wrap(sym(mark)).IsNull().Get()
	}
	switch a.of(i, 10, 2, 3) {
	case 0:
		return wrap(sym("x")).IsNull().Get()
	case 1:
		return nil
	case 2:
		return badCond(0)
	case 3:
		return badCond(1)
	case 4:
		return cypher.ConditionsNoCondition()
	case 5:
		return wrap(sym("x")).IsNull().And(wrap(sym("y")).IsNull().Get()).Get()
	case 6:
		return cypher.ConditionsIsTrue()
	case 7:
		return cypher.RelationshipPatternConditionCreate(knows())
	case 8:
		return cypher.CaseExpression(sym("x"))
	default:
		return wrap(sym("x")).IsNull().And(nil).Get()
	}
}

func (a *args) symbolicName(i int) cypher.SymbolicName {
	if a.marks(i) {
		return cypher.ASymbolic(mark)
	}
	switch a.of(i, 3, 1) {
	case 0:
		return cypher.ASymbolic("w")
	case 1:
		return cypher.ASymbolic("")
	default:
		return cypher.ASymbolic("`")
	}
}

func (a *args) relationshipPattern(i int) cypher.RelationshipPattern {
	if a.marks(i) {
		return cypher.AnyNodeNamed(mark).RelationshipTo(cypher.AnyNode())
	}
	switch a.of(i, 7, 2, 5, 6) {
	case 0:
		return knows()
	case 1:
		return nil
	case 2:
		return badPat(0)
	case 3:
		return nodeN().RelationshipTo(cypher.AnyNode(), "T").RelationshipFrom(cypher.AnyNode())
	case 4:
		return nodeN().RelationshipTo(cypher.AnyNode(), "")
	case 5:
		return nodeN().RelationshipTo(cypher.AnyNode()).RelationshipTo(cypher.ANode(""))
	default:
		return nodeN().RelationshipBetween(cypher.AnyNode()).NamedByString("")
	}
}

func (a *args) patternElement(i int) cypher.PatternElement {
	if a.marks(i) {
		return cypher.AnyNodeNamed(mark)
	}
	switch a.of(i, 8, 2, 5, 6) {
	case 0:
		return nodeN()
	case 1:
		return nil
	case 2:
		return cypher.ANode("")
	case 3:
		return knows()
	case 4:
		return cypher.APath("p").DefinedBy(knows())
	case 5:
		return cypher.APath("").DefinedBy(knows())
	case 6:
		return nodeN().RelationshipTo(cypher.ANode(""))
	default:
		return nodeN().RelationshipTo(cypher.AnyNode(), "T").RelationshipFrom(cypher.AnyNode())
	}
}

func (a *args) relationship(i int) cypher.Relationship {
	if a.marks(i) {
		return cypher.AnyNodeNamed("m").RelationshipTo(cypher.AnyNodeNamed(mark))
	}
	switch a.of(i, 4, 1, 3) {
	case 0:
		return knows()
	case 1:
		return nodeN().RelationshipTo(cypher.ANode(""))
	case 2:
		return knows().NamedByString("r")
	default:
		return knows().NamedByString("")
	}
}

func (a *args) mapExpression(i int) cypher.MapExpression {
	if a.marks(i) {
		return cypher.MapOf("k", sym(mark))
	}
	switch a.of(i, 5, 2, 4) {
	case 0:
		return cypher.MapOf("k", sym("x"))
	case 1:
		return cypher.MapOf()
	case 2:
		return cypher.MapOf("k")
	case 3:
		return cypher.MapOf("k", nil)
	default:
		return cypher.MapOf("k", badExpr(2))
	}
}

func (a *args) expressionList(i int) cypher.ExpressionList {
	if a.marks(i) {
		return cypher.NewExpressionList(sym(mark))
	}
	switch a.of(i, 5, 2) {
	case 0:
		return cypher.NewExpressionList(sym("x"))
	case 1:
		return cypher.NewExpressionList()
	case 2:
		return cypher.NewExpressionList(badExpr(2))
	case 3:
		return cypher.NewExpressionList(nil)
	default:
		return cypher.ExpressionListCreate(nil)
	}
}

func (a *args) functionDefinition(i int) cypher.FunctionDefinition {
	switch a.of(i, 3) {
	case 0:
		return cypher.COALESCE
	case 1:
		return nil
	default:
		return cypher.ANY
	}
}

func (a *args) predicate(i int) cypher.Predicate {
	return []cypher.Predicate{cypher.ALL, cypher.ANY, cypher.NONE, cypher.SINGLE, cypher.EXISTS}[a.of(i, 5)]
}

func (a *args) statement(i int) cypher.Statement {
	if a.marks(i) {
		return returning(sym(mark))
	}
	x := sym("x")
	switch a.of(i, 8, 2) {
	case 0:
		return returning(x)
	case 1:
		return nil
	case 2:
		return returning(badExpr(2))
	case 3:
		return cypher.Union(returning(x), returning(x))
	case 4:
		return cypher.UnionAll(returning(x), returning(x))
	case 5:
		return cypher.Union(returning(x))
	case 6:
		return statement(cypher.Match(nodeN()).Delete(x))
	default:
		return statement(cypher.ACallSimple("p"))
	}
}

func (a *args) singleQuery(i int) cypher.SingleQuery {
	q, _ := a.statement(i).(cypher.SingleQuery)
	return q
}

func (a *args) operator(i int) cypher.Operator {
	return []cypher.Operator{cypher.EQUALITY, cypher.NOT, cypher.IS_NULL, cypher.AND, cypher.OR, cypher.SET_LABEL, cypher.EXPONENTIATION, cypher.PIPE, cypher.MUTATE}[a.of(i, 9)]
}

func (a *args) where(i int) cypher.Where {
	if a.marks(i) {
		return cypher.WhereCreate(wrap(sym(mark)).IsNull().Get())
	}
	switch a.of(i, 4, 3) {
	case 0:
		return cypher.WhereCreate(wrap(sym("x")).IsNull().Get())
	case 1:
		return cypher.Where{}
	case 2:
		return cypher.WhereCreate(nil)
	default:
		return cypher.WhereCreate(badCond(0))
	}
}

func (a *args) direction(i int) cypher.Direction {
	return []cypher.Direction{cypher.LTR(), cypher.RTL(), cypher.UNI()}[a.of(i, 3)]
}

func (a *args) caseWhenThen(i int) cypher.CaseWhenThen {
	if a.marks(i) {
		return cypher.CaseWhenThenCreate(sym("x"), sym(mark))
	}
	switch a.of(i, 3, 2) {
	case 0:
		return cypher.CaseWhenThenCreate(sym("x"), sym("y"))
	case 1:
		return cypher.CaseWhenThenCreate(nil, sym("y"))
	default:
		return cypher.CaseWhenThenCreate(sym("x"), badExpr(2))
	}
}

func (a *args) namedPath(i int) cypher.NamedPath {
	if a.marks(i) {
		return cypher.APath(mark).DefinedBy(knows())
	}
	switch a.of(i, 5, 1, 4) {
	case 0:
		return cypher.APath("p").DefinedBy(knows())
	case 1:
		return cypher.APath("").DefinedBy(knows())
	case 2:
		return cypher.APath("p").DefinedBy(nil)
	case 3:
		return cypher.AShortestPath("p").DefinedBy(knows())
	default:
		return cypher.APath("p").DefinedBy(badPat(0))
	}
}

func (a *args) sortItem(i int) cypher.SortItem {
	if a.marks(i) {
		return cypher.Sort(sym(mark))
	}
	switch a.of(i, 5, 2) {
	case 0:
		return cypher.Sort(sym("x"))
	case 1:
		return cypher.Sort(nil)
	case 2:
		return cypher.Sort(badExpr(2))
	case 3:
		return cypher.Sort(sym("x")).Descending()
	default:
		return cypher.SortItemCreate(sym("x"), "upwards")
	}
}

func (a *args) sortDirection(i int) cypher.SortDirectionRaw {
	return []cypher.SortDirectionRaw{cypher.ASC, cypher.DESC, cypher.UNDEFINED, "sideways"}[a.of(i, 4)]
}

func (a *args) procedureName(i int) cypher.ProcedureName {
	if a.marks(i) {
		return cypher.ProcedureNameCreate("a", mark)
	}
	switch a.of(i, 3) {
	case 0:
		return cypher.ProcedureNameCreate("a", "b")
	case 1:
		return cypher.ProcedureNameCreate()
	default:
		return cypher.ProcedureNameCreate("")
	}
}

func (a *args) location(i int) *time.Location {
	if a.of(i, 2) == 1 {
		return nil
	}
	return time.FixedZone("Z", 0)
}

func (a *args) relationshipTypes(i int) cypher.RelationshipTypes {
	if a.marks(i) {
		return cypher.RelationshipTypesCreate([]string{mark})
	}
	switch a.of(i, 3) {
	case 0:
		return cypher.RelationshipTypesCreate([]string{"T"})
	case 1:
		return cypher.RelationshipTypesCreate(nil)
	default:
		return cypher.RelationshipTypesCreate([]string{""})
	}
}

func (a *args) property(i int) cypher.Property {
	if a.marks(i) {
		return cypher.AProperty("n", mark)
	}
	switch a.of(i, 5, 1, 2, 4) {
	case 0:
		return cypher.AProperty("n", "p")
	case 1:
		return cypher.AProperty("n", "")
	case 2:
		return cypher.AProperty("", "p")
	case 3:
		return cypher.PropertyCreate2(nil, "p")
	default:
		return cypher.AnyNode().Property("p")
	}
}

func (a *args) conditionContainer(i int) cypher.ConditionContainer {
	return cypher.ConditionWrap(a.condition(i))
}

func (a *args) nodeLabel(i int) cypher.NodeLabel {
	if a.marks(i) {
		return cypher.NodeLabelCreate(mark)
	}
	return cypher.NodeLabelCreate([]string{"L", "", "`"}[a.of(i, 3)])
}

func (a *args) functionInvocation(i int) cypher.FunctionInvocation {
	if a.marks(i) {
		return cypher.Coalesce(sym(mark))
	}
	switch a.of(i, 3, 1) {
	case 0:
		return cypher.Coalesce(sym("x"))
	case 1:
		return cypher.Coalesce()
	default:
		return cypher.Coalesce(nil)
	}
}

func (a *args) aliasedExpression(i int) cypher.AliasedExpression {
	if a.marks(i) {
		return cypher.AliasedExpressionCreate(sym("x"), mark)
	}
	switch a.of(i, 3, 1) {
	case 0:
		return cypher.AliasedExpressionCreate(sym("x"), "al")
	case 1:
		return cypher.AliasedExpressionCreate(sym("x"), "")
	default:
		return cypher.AliasedExpressionCreate(nil, "al")
	}
}

func (a *args) properties(i int) cypher.Properties {
	return cypher.PropertiesCreate(a.mapExpression(i))
}

func (a *args) yieldItems(i int) cypher.YieldItems {
	if a.marks(i) {
		return cypher.YieldItemsCreate([]expr{sym(mark)})
	}
	switch a.of(i, 4, 3) {
	case 0:
		return cypher.YieldItemsCreate([]expr{sym("x")})
	case 1:
		return cypher.YieldItemsCreate(nil)
	case 2:
		return cypher.YieldItemsCreate([]expr{nil})
	default:
		return cypher.YieldItemsCreate([]expr{badExpr(2)})
	}
}

func (a *args) relationshipDetails(i int) cypher.RelationshipDetails {
	if a.marks(i) {
		return cypher.RelationshipDetailsCreate1(cypher.LTR(), cypher.RelationshipTypesCreate([]string{mark}))
	}
	switch a.of(i, 3, 2) {
	case 0:
		return cypher.RelationshipDetailsCreate1(cypher.LTR(), cypher.RelationshipTypesCreate([]string{"T"}))
	case 1:
		return cypher.RelationshipDetailsCreate1(cypher.UNI(), cypher.RelationshipTypesCreate(nil))
	default:
		return cypher.RelationshipDetailsCreate2(cypher.LTR(), cypher.ASymbolic(""), cypher.RelationshipTypesCreate(nil))
	}
}

func (a *args) parameter(i int) cypher.Parameter {
	if a.marks(i) {
		return cypher.AParam(mark)
	}
	return cypher.AParam([]string{"p", "", "a b"}[a.of(i, 3, 1)])
}

func (a *args) booleanLiteral(i int) cypher.BooleanLiteral {
	return cypher.BooleanLiteralCreate(a.boolean(i))
}

func (a *args) namespace(i int) cypher.Namespace {
	if a.marks(i) {
		return cypher.NameSpaceCreate([]string{mark})
	}
	return cypher.NameSpaceCreate([][]string{{"a"}, nil, {""}, {"a", "b"}}[a.of(i, 4)])
}

func (a *args) arguments(i int) cypher.Arguments {
	if a.marks(i) {
		return cypher.ArgumentsCreate([]expr{sym(mark)})
	}
	return cypher.ArgumentsCreate([][]expr{{sym("x")}, nil, {nil}, {badExpr(2)}}[a.of(i, 4, 3)])
}

func (a *args) literal(i int) cypher.Literal {
	if a.marks(i) {
		return cypher.LiteralOf(mark)
	}
	switch a.of(i, 5, 2) {
	case 0:
		return cypher.LiteralOf("a")
	case 1:
		return nil
	case 2:
		return cypher.LiteralOf(struct{}{})
	case 3:
		return cypher.LiteralOf(nil)
	default:
		return cypher.ListLiteralCreate(nil)
	}
}

func (a *args) propertyLookup(i int) cypher.PropertyLookup {
	if a.marks(i) {
		return cypher.PropertyLookupCreate(mark)
	}
	return cypher.PropertyLookupCreate([]string{"p", "", "*"}[a.of(i, 3, 1)])
}

func (a *args) relationshipLength(i int) cypher.RelationshipLength {
	return cypher.RelationshipLengthCreate(a.boolean(i))
}

func (a *args) distinct(i int) cypher.Distinct { return cypher.DISTINCT_INSTANCE }

func (a *args) limit(i int) cypher.Limit {
	if a.counts(i) {
		return cypher.LimitCreate(markNumber)
	}
	return []cypher.Limit{cypher.LimitCreate(1), {}, cypher.LimitCreate(-1)}[a.of(i, 3)]
}

func (a *args) skip(i int) cypher.Skip {
	if a.counts(i) {
		return cypher.SkipCreate(markNumber)
	}
	return []cypher.Skip{cypher.SkipCreate(1), {}, cypher.SkipCreate(-1)}[a.of(i, 3)]
}

func (a *args) order(i int) cypher.Order {
	if a.marks(i) {
		return cypher.OrderCreate([]cypher.SortItem{cypher.Sort(sym(mark))})
	}
	switch a.of(i, 4) {
	case 0:
		return cypher.OrderCreate([]cypher.SortItem{cypher.Sort(sym("x"))})
	case 1:
		return cypher.Order{}
	case 2:
		return cypher.OrderCreate(nil)
	default:
		return cypher.OrderCreate([]cypher.SortItem{cypher.Sort(nil)})
	}
}

func (a *args) returnBody(i int) cypher.ReturnBody {
	return cypher.ReturnBodyCreate(a.expressionList(i), cypher.Order{}, cypher.Skip{}, cypher.Limit{})
}

func (a *args) dot(i int) cypher.Dot { return cypher.DOTS }

func (a *args) pattern(i int) cypher.Pattern {
	if a.marks(i) {
		return cypher.PatternCreate([]cypher.PatternElement{cypher.AnyNodeNamed(mark)})
	}
	return cypher.PatternCreate([][]cypher.PatternElement{{nodeN()}, nil, {nil}, {cypher.ANode("")}}[a.of(i, 4, 3)])
}

func (a *args) anError(i int) error { return errors.New("refused") }

func (a *args) operatorType(i int) cypher.OperatorType {
	return []cypher.OperatorType{cypher.BINARY, cypher.PREFIX, cypher.POSTFIX, cypher.PROPERTY, cypher.LABEL, ""}[a.of(i, 6)]
}

func (a *args) mergeType(i int) cypher.MERGE_TYPE {
	return []cypher.MERGE_TYPE{cypher.ON_CREATE, cypher.ON_MATCH}[a.of(i, 2)]
}
