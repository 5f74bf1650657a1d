package props

import (
	"strings"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// A flow is a statement under construction: the value the API gave, the
// interface through which a user sees it, and the clauses asked for so far.
type flow struct {
	kind int
	v    any
	n    int // number of steps taken
	done []clause
	same *values // the values all steps take, if they take the same
}

// values are what steps take.
type values struct {
	x, y expr
	c    cypher.Condition
	p    cypher.RelationshipPattern
	r    cypher.Relationship
	st   cypher.Statement
}

// A clause is one clause as it has to be rendered.
type clause struct {
	head  string
	order []string // sort items
	skip  string
	limit string
	conds string // the condition
	loose bool   // the condition is a compound one
	op    string // its operator
}

func (c clause) text() string {
	s := c.head
	if len(c.order) > 0 {
		s += " ORDER BY " + strings.Join(c.order, ", ")
	}
	if c.skip != "" {
		s += " SKIP " + c.skip
	}
	if c.limit != "" {
		s += " LIMIT " + c.limit
	}
	if c.conds != "" {
		w := c.conds
		if c.loose {
			w = "(" + w + ")"
		}
		s += " WHERE " + w
	}
	return s
}

func (f flow) text() string {
	var s []string
	for _, c := range f.done {
		s = append(s, c.text())
	}
	return strings.Join(s, " ")
}

// The interfaces a user sees.
const (
	kMatch = iota
	kWhere
	kReading // OngoingReading
	kReadingMatch
	kUnwind
	kWith
	kWithWhere
	kWithOrder
	kWithAnd
	kWithSkip
	kUpdate
	kUpdateSet
	kChange
	kAction
	kChangeAction
	kReturn
	kReturnOrder
	kReturnAnd
	kReturnLimit
	kStandalone
	kStandaloneArgs
	kStandaloneYield
	kCall
	kCallArgs
	kCallYield
	kBuilt // can only be built
	nFlowKinds
)

// A step is one call on a flow.
type step struct {
	main bool // one of the calls that stand for the others of their kind
	to   int
	do   func() any
	edit func(cs []clause) []clause
}

func (f flow) take(s step) flow {
	g := flow{kind: s.to, v: s.do(), n: f.n + 1, same: f.same}
	g.done = s.edit(append([]clause{}, f.done...))
	return g
}

// stepText is the text of a number, for names that tell the steps apart.
func stepText(n int) string { return string(rune('a' + n)) }

type stepper struct {
	f   flow
	id  string // of all but nodes
	nid string // of nodes
	ss  []step
}

// add is a call that begins a clause.
func (s *stepper) add(main bool, to int, do func() any, head string) {
	s.ss = append(s.ss, step{main, to, do, func(cs []clause) []clause { return append(cs, clause{head: head}) }})
}

// edit is a call that continues the last clause.
func (s *stepper) edit(main bool, to int, do func() any, edit func(c *clause)) {
	s.ss = append(s.ss, step{main, to, do, func(cs []clause) []clause {
		edit(&cs[len(cs)-1])
		return cs
	}})
}

func (s *stepper) node() cypher.Node { return cypher.ANode("L").NamedByString("n" + s.nid) }
func (s *stepper) rel() cypher.Relationship {
	if s.f.same != nil {
		return s.f.same.r
	}
	return cypher.AnyNodeNamed("s"+s.id).RelationshipTo(cypher.AnyNodeNamed("t"+s.id), "T")
}
func (s *stepper) nodeText() string { return "(n" + s.nid + ":`L`)" }
func (s *stepper) relText() string  { return "(s" + s.id + ")-[:`T`]->(t" + s.id + ")" }

// match adds the calls of ExposesMatch.
func (s *stepper) match(v cypher.ExposesMatch) {
	n, r := s.node(), s.rel()
	s.add(true, kMatch, func() any { return v.Match(n) }, "MATCH "+s.nodeText())
	s.add(false, kMatch, func() any { return v.Match(r, n) }, "MATCH "+s.relText()+", "+s.nodeText())
	s.add(true, kMatch, func() any { return v.OptionalMatch(r) }, "OPTIONAL MATCH "+s.relText())
	s.add(false, kMatch, func() any { return v.OptionalMatch(r, n) }, "OPTIONAL MATCH "+s.relText()+", "+s.nodeText())
	s.add(false, kMatch, func() any { return v.MatchDefault(true, n, cypher.AnyNodeNamed("o"), r) }, "OPTIONAL MATCH "+s.nodeText()+", (o), "+s.relText())
	s.add(false, kMatch, func() any { return v.MatchDefault(true, n) }, "OPTIONAL MATCH "+s.nodeText())
	s.add(false, kMatch, func() any { return v.MatchDefault(false, r) }, "MATCH "+s.relText())
}

func (s *stepper) x() expr {
	if s.f.same != nil {
		return s.f.same.x
	}
	return sym("x" + s.id)
}

func (s *stepper) y() expr {
	if s.f.same != nil {
		return s.f.same.y
	}
	return sym("y" + s.id)
}

// alikeSteps makes all steps take the same values.
func (f flow) alikeSteps() flow {
	f.same = &values{
		sym("xa"), sym("ya"),
		wrap(sym("ca")).IsNull().Get(),
		cypher.AnyNodeNamed("sa").RelationshipTo(cypher.AnyNodeNamed("ta")),
		cypher.AnyNodeNamed("sa").RelationshipTo(cypher.AnyNodeNamed("ta"), "T"),
		returning(sym("xa")),
	}
	return f
}

func (s *stepper) returning(v cypher.ExposesReturning) {
	x, y := "x"+s.id, "y"+s.id
	s.add(true, kReturn, func() any { return v.Returning(s.x(), s.y()) }, "RETURN "+x+", "+y)
	s.add(false, kReturn, func() any { return v.ReturningDistinct(s.x()) }, "RETURN DISTINCT "+x)
	s.add(false, kReturn, func() any { return v.ReturningByString(x, y) }, "RETURN "+x+", "+y)
	s.add(false, kReturn, func() any { return v.ReturningDistinctByString(y, x) }, "RETURN DISTINCT "+y+", "+x)
	s.add(false, kReturn, func() any { return v.ReturningByNamed(cypher.AnyNodeNamed(y), s.node()) }, "RETURN "+y+", n"+s.nid)
	s.add(false, kReturn, func() any { return v.ReturningDistinctByNamed(s.node(), cypher.AnyNodeNamed(x)) }, "RETURN DISTINCT n"+s.nid+", "+x)
}

func (s *stepper) with(v cypher.ExposesWith) {
	x, y := "x"+s.id, "y"+s.id
	s.add(true, kWith, func() any { return v.With(s.x(), s.y()) }, "WITH "+x+", "+y)
	s.add(false, kWith, func() any { return v.WithDistinct(s.x()) }, "WITH DISTINCT "+x)
	s.add(false, kWith, func() any { return v.WithByString(x, y) }, "WITH "+x+", "+y)
	s.add(false, kWith, func() any { return v.WithDistinctByString(y, x) }, "WITH DISTINCT "+y+", "+x)
	s.add(false, kWith, func() any { return v.WithByNamed(cypher.AnyNodeNamed(y), s.node()) }, "WITH "+y+", n"+s.nid)
	s.add(false, kWith, func() any { return v.WithDistinctByNamed(s.node(), cypher.AnyNodeNamed(x)) }, "WITH DISTINCT n"+s.nid+", "+x)
}

func (s *stepper) unwind(v cypher.ExposesUnwind) {
	x, y := "x"+s.id, "y"+s.id
	s.add(true, kUnwind, func() any { return v.Unwind(s.x()) }, "UNWIND "+x)
	s.add(false, kUnwind, func() any { return v.UnwindByString(y) }, "UNWIND "+y)
	s.add(false, kUnwind, func() any { return v.Unwinds(s.x(), s.y()) }, "UNWIND ["+x+", "+y+"]")
}

func (s *stepper) create(v cypher.ExposesCreate) {
	n, r := s.node(), s.rel()
	s.add(true, kUpdateSet, func() any { return v.Create(n) }, "CREATE "+s.nodeText())
	s.add(false, kUpdateSet, func() any { return v.Create(n, r) }, "CREATE "+s.nodeText()+", "+s.relText())
}

func (s *stepper) merge(v cypher.ExposesMerge) {
	n, r := s.node(), s.rel()
	s.add(true, kUpdateSet, func() any { return v.Merge(r) }, "MERGE "+s.relText())
	s.add(false, kUpdateSet, func() any { return v.Merge(n) }, "MERGE "+s.nodeText())
}

func (s *stepper) delete(v cypher.ExposesDelete) {
	x, y := "x"+s.id, "y"+s.id
	s.add(true, kUpdate, func() any { return v.Delete(s.x(), s.y()) }, "DELETE "+x+", "+y)
	s.add(false, kUpdate, func() any { return v.DeleteByString(y) }, "DELETE "+y)
	s.add(false, kUpdate, func() any { return v.DeleteByNamed(s.node(), cypher.AnyNodeNamed(x)) }, "DELETE n"+s.nid+", "+x)
	s.add(true, kUpdate, func() any { return v.DetachDelete(s.x()) }, "DETACH DELETE "+x)
	s.add(false, kUpdate, func() any { return v.DetachDeleteByString(y, x) }, "DETACH DELETE "+y+", "+x)
	s.add(false, kUpdate, func() any { return v.DetachDeleteByNamed(s.node()) }, "DETACH DELETE n"+s.nid)
}

func (s *stepper) set(v cypher.ExposesSet) {
	n := cypher.AnyNodeNamed("n" + s.id)
	x, y := "x"+s.id, "y"+s.id
	s.add(true, kChange, func() any { return v.Set(n.Property("p").To(s.x()), n.Property("q").To(s.y())) }, "SET n"+s.id+".p = "+x+", n"+s.id+".q = "+y)
	s.add(false, kChange, func() any { return v.Set(n.Property("r").To(s.y())) }, "SET n"+s.id+".r = "+y)
	s.add(false, kChange, func() any { return v.SetWithNamed(n, s.x()) }, "SET n"+s.id+" = "+x)
	s.add(false, kChange, func() any {
		return v.Set(cypher.OperationCreate(cypher.ASymbolic(y), cypher.MUTATE, s.x()))
	}, "SET "+y+" += "+x)
}

func (s *stepper) change(v cypher.ExposesSetAndRemove) {
	s.set(v)
	n := cypher.AnyNodeNamed("n" + s.id)
	s.add(true, kChange, func() any { return v.SetByNode(n, "A", "B") }, "SET n"+s.id+":`A`:`B`")
	s.add(false, kChange, func() any { return v.SetByNode(n, "A") }, "SET n"+s.id+":`A`")
	s.add(false, kChange, func() any { return v.RemoveByNode(n, "A", "B") }, "REMOVE n"+s.id+":`A`:`B`")
	s.add(true, kChange, func() any { return v.Remove(n.Property("p"), n.Property("q")) }, "REMOVE n"+s.id+".p, n"+s.id+".q")
	s.add(false, kChange, func() any { return v.Remove(n.Property("r")) }, "REMOVE n"+s.id+".r")
}

func (s *stepper) updating(v cypher.ExposesUpdatingClause) {
	s.delete(v)
	s.merge(v)
	s.change(v)
}

func (s *stepper) subquery(v cypher.ExposesSubqueryCall) {
	x := "x" + s.id
	st := returning(s.x())
	if s.f.same != nil {
		st = s.f.same.st
	}
	s.add(true, kMatch, func() any { return v.Call(st) }, "CALL {RETURN "+x+"}")
}

func (s *stepper) reading(v cypher.OngoingReading) {
	s.returning(v)
	s.with(v)
	s.updating(v)
	s.unwind(v)
	s.create(v)
	s.subquery(v)
	s.add(true, kCall, func() any { return v.Call1("f" + s.id) }, "CALL f"+s.id+"()")
	s.add(false, kCall, func() any { return v.Call1("g", "h"+s.id) }, "CALL g.h"+s.id+"()")
}

// cond is a new simple condition.
func (s *stepper) cond() (cypher.Condition, string) {
	if s.f.same != nil {
		return s.f.same.c, "c" + s.id + " IS NULL"
	}
	return wrap(sym("c" + s.id)).IsNull().Get(), "c" + s.id + " IS NULL"
}

func (s *stepper) pat() (cypher.RelationshipPattern, string) {
	if s.f.same != nil {
		return s.f.same.p, "(s" + s.id + ")-->(t" + s.id + ")"
	}
	return cypher.AnyNodeNamed("s" + s.id).RelationshipTo(cypher.AnyNodeNamed("t" + s.id)), "(s" + s.id + ")-->(t" + s.id + ")"
}

// joinText joins a condition to the condition of a clause.
func joinText(op, t string) func(c *clause) {
	return func(c *clause) {
		switch {
		case c.conds == "":
			c.conds = t
		case !c.loose:
			c.conds, c.loose, c.op = c.conds+op+t, true, op
		case c.op == op:
			c.conds += op + t
		default:
			c.conds, c.op = "("+c.conds+")"+op+t, op
		}
	}
}

// steps are the calls available on a flow.
func (f flow) steps() []step {
	s := &stepper{f: f, id: stepText(f.n), nid: stepText(f.n)}
	num := 3 + f.n
	if f.same != nil {
		s.id, num = "a", 3
	}
	c, ct := s.cond()
	p, pt := s.pat()
	x := s.x()
	xt := "x" + s.id
	nt := itoa(num)
	setOrder := func(items ...string) func(c *clause) {
		return func(c *clause) { c.order = append(append([]string{}, c.order...), items...) }
	}
	moreOrder := func(item string) func(c *clause) {
		return func(c *clause) { c.order = append(append([]string{}, c.order...), item) }
	}
	direction := func(d string) func(c *clause) {
		return func(c *clause) {
			o := append([]string{}, c.order...)
			o[len(o)-1] += d
			c.order = o
		}
	}
	setSkip := func(c *clause) { c.skip = nt }
	setLimit := func(c *clause) { c.limit = nt }
	switch f.kind {
	case kMatch:
		v := f.v.(cypher.OngoingReadingWithoutWhere)
		s.reading(v)
		s.match(v)
		// a condition on a subquery call is refused
		if !strings.HasPrefix(f.done[len(f.done)-1].head, "CALL {") {
			s.edit(true, kWhere, func() any { return v.Where(c) }, joinText("", ct))
			s.edit(false, kWhere, func() any { return v.WherePattern(p) }, joinText("", pt))
			s.edit(false, kWhere, func() any { return v.WhereConditionContainer(cypher.ConditionWrap(c)) }, joinText("", ct))
			s.edit(false, kWhere, func() any { return v.Where(nil) }, func(c *clause) {})
		}
	case kWhere:
		v := f.v.(cypher.OngoingReadingWithWhere)
		s.reading(v)
		s.match(v)
		s.edit(true, kWhere, func() any { return v.And(c) }, joinText(" AND ", ct))
		s.edit(false, kWhere, func() any { return v.AndPattern(p) }, joinText(" AND ", pt))
		s.edit(false, kWhere, func() any { return v.Or(c) }, joinText(" OR ", ct))
		s.edit(false, kWhere, func() any { return v.OrPattern(p) }, joinText(" OR ", pt))
	case kReading:
		s.reading(f.v.(cypher.OngoingReading))
	case kReadingMatch:
		v := f.v.(cypher.OngoingReadingAndWith)
		s.reading(v)
		s.match(v)
	case kUnwind:
		v := f.v.(cypher.OngoingUnwind)
		s.edit(true, kReading, func() any { return v.As("u" + s.id) }, func(c *clause) { c.head += " AS u" + s.id })
	case kWith:
		v := f.v.(cypher.OrderableOngoingReadingAndWithWithoutWhere)
		s.reading(v)
		s.match(v)
		s.orderWith(v, x, xt, setOrder, setSkip, setLimit, num)
		s.edit(true, kWithWhere, func() any { return v.Where(c) }, joinText("", ct))
		s.edit(false, kWithWhere, func() any { return v.WherePattern(p) }, joinText("", pt))
	case kWithWhere:
		v := f.v.(cypher.OrderableOngoingReadingAndWithWithWhere)
		s.reading(v)
		s.match(v)
		s.orderWith(v, x, xt, setOrder, setSkip, setLimit, num)
		s.edit(true, kWithWhere, func() any { return v.And(c) }, joinText(" AND ", ct))
		s.edit(false, kWithWhere, func() any { return v.AndPattern(p) }, joinText(" AND ", pt))
		s.edit(false, kWithWhere, func() any { return v.Or(c) }, joinText(" OR ", ct))
		s.edit(false, kWithWhere, func() any { return v.OrPattern(p) }, joinText(" OR ", pt))
	case kWithOrder:
		v := f.v.(cypher.OngoingOrderDefinition)
		s.edit(true, kWithSkip, func() any { return v.Skip(num) }, setSkip)
		s.edit(true, kReadingMatch, func() any { return v.Limit(num) }, setLimit)
		s.edit(true, kWithAnd, func() any { return v.Descending() }, direction(" DESC"))
		s.edit(false, kWithAnd, func() any { return v.Ascending() }, direction(" ASC"))
	case kWithAnd:
		v := f.v.(cypher.OngoingReadingAndWithWithWhereAndOrder)
		s.reading(v)
		s.match(v)
		s.edit(true, kWithSkip, func() any { return v.Skip(num) }, setSkip)
		s.edit(true, kReadingMatch, func() any { return v.Limit(num) }, setLimit)
		s.edit(true, kWithOrder, func() any { return v.And1(x) }, moreOrder(xt))
	case kWithSkip:
		v := f.v.(interface {
			cypher.ExposesLimit
			cypher.OngoingReadingAndWith
		})
		s.reading(v)
		s.match(v)
		s.edit(true, kReadingMatch, func() any { return v.Limit(num) }, setLimit)
	case kUpdate, kUpdateSet:
		v := f.v.(cypher.OngoingUpdate)
		s.create(v)
		s.merge(v)
		s.delete(v)
		s.returning(v)
		s.with(v)
		if f.kind == kUpdateSet {
			s.set(f.v.(cypher.OngoingUpdateAndExposesSet))
		}
		if strings.HasPrefix(f.done[len(f.done)-1].head, "MERGE") {
			s.edit(true, kAction, func() any { return v.OnCreate() }, func(c *clause) { c.head += " ON CREATE" })
			s.edit(true, kAction, func() any { return v.OnMatch() }, func(c *clause) { c.head += " ON MATCH" })
		}
	case kChange, kChangeAction:
		v := f.v.(interface {
			cypher.OngoingMatchAndUpdate
			cypher.BuildableStatement
		})
		s.returning(v)
		s.with(v)
		s.updating(v)
		s.create(v)
		if f.kind == kChangeAction {
			v := f.v.(cypher.ExposesMergeAction)
			s.edit(true, kAction, func() any { return v.OnCreate() }, func(c *clause) { c.head += " ON CREATE" })
			s.edit(true, kAction, func() any { return v.OnMatch() }, func(c *clause) { c.head += " ON MATCH" })
		}
	case kAction:
		v := f.v.(cypher.OngoingMergeAction)
		n := cypher.AnyNodeNamed("n" + s.id)
		s.edit(true, kChangeAction, func() any { return v.Set(n.Property("p").To(x), n.Property("q").To(sym("y"))) }, func(c *clause) {
			c.head += " SET n" + s.id + ".p = " + xt + ", n" + s.id + ".q = y"
		})
		s.edit(false, kChangeAction, func() any { return v.Set(n.Property("p").To(x)) }, func(c *clause) { c.head += " SET n" + s.id + ".p = " + xt })
		s.edit(false, kChangeAction, func() any { return v.SetWithNamed(n, x) }, func(c *clause) { c.head += " SET n" + s.id + " = " + xt })
	case kReturn:
		v := f.v.(cypher.OngoingReadingAndReturn)
		s.edit(true, kReturnOrder, func() any { return v.OrderBy(x) }, setOrder(xt))
		s.edit(false, kReturnAnd, func() any { return v.OrderBySortItem(cypher.Sort(x).Descending(), cypher.Sort(sym("y"))) }, setOrder(xt+" DESC", "y"))
		s.edit(true, kReturnLimit, func() any { return v.Skip(num) }, setSkip)
		s.edit(true, kBuilt, func() any { return v.Limit(num) }, setLimit)
	case kReturnOrder:
		v := f.v.(cypher.TerminalOngoingOrderDefinition)
		s.edit(true, kReturnAnd, func() any { return v.Descending() }, direction(" DESC"))
		s.edit(false, kReturnAnd, func() any { return v.Ascending() }, direction(" ASC"))
		s.edit(true, kReturnLimit, func() any { return v.Skip(num) }, setSkip)
		s.edit(true, kBuilt, func() any { return v.Limit(num) }, setLimit)
	case kReturnAnd:
		v := f.v.(cypher.OngoingMatchAndReturnWithOrder)
		s.edit(true, kReturnOrder, func() any { return v.And(x) }, moreOrder(xt))
		s.edit(true, kReturnLimit, func() any { return v.Skip(num) }, setSkip)
		s.edit(true, kBuilt, func() any { return v.Limit(num) }, setLimit)
	case kReturnLimit:
		v := f.v.(cypher.TerminalExposesLimitAndBuildableStatement)
		s.edit(true, kBuilt, func() any { return v.Limit(num) }, setLimit)
	case kStandalone:
		v := f.v.(cypher.OngoingStandaloneCallWithoutArguments)
		s.edit(true, kStandaloneArgs, func() any { return v.WithArgs(x, sym("y")) }, argsText(xt+", y"))
		s.yields(f.v.(yielding), nil, kStandaloneYield)
	case kStandaloneArgs:
		s.yields(f.v.(yielding), nil, kStandaloneYield)
	case kStandaloneYield:
		v := f.v.(cypher.OngoingStandaloneCallWithReturnFields)
		s.returning(v)
		s.with(v)
		s.subquery(v)
		s.edit(true, kWhere, func() any { return v.Where(c) }, joinText("", ct))
		s.edit(false, kWhere, func() any { return v.WherePattern(p) }, joinText("", pt))
	case kCall:
		v := f.v.(cypher.OngoingInQueryCallWithoutArguments)
		s.edit(true, kCallArgs, func() any { return v.WithArgs(x, sym("y")) }, argsText(xt+", y"))
		s.edit(false, kCallArgs, func() any { return v.WithArgs() }, argsText(""))
		s.yields(nil, f.v.(yieldingIn), kCallYield)
	case kCallArgs:
		s.yields(nil, f.v.(yieldingIn), kCallYield)
	case kCallYield:
		v := f.v.(cypher.OngoingInQueryCallWithReturnFields)
		s.returning(v)
		s.with(v)
		s.subquery(v)
		s.edit(true, kWhere, func() any { return v.Where(c) }, joinText("", ct))
		s.edit(false, kWhere, func() any { return v.WherePattern(p) }, joinText("", pt))
	}
	return s.ss
}

func argsText(a string) func(c *clause) {
	return func(c *clause) { c.head = c.head[:len(c.head)-2] + "(" + a + ")" }
}

type yielding interface {
	YieldSymbolic(name ...cypher.SymbolicName) cypher.OngoingStandaloneCallWithReturnFields
	YieldString(yieldedItems ...string) cypher.OngoingStandaloneCallWithReturnFields
	Yield(aliasedResultFields ...cypher.AliasedExpression) cypher.OngoingStandaloneCallWithReturnFields
}

type yieldingIn interface {
	YieldSymbolic(name ...cypher.SymbolicName) cypher.OngoingInQueryCallWithReturnFields
	YieldString(yieldedItems ...string) cypher.OngoingInQueryCallWithReturnFields
	Yield(aliasedResultFields ...cypher.AliasedExpression) cypher.OngoingInQueryCallWithReturnFields
}

// yields adds the forms of YIELD.
func (s *stepper) yields(a yielding, b yieldingIn, to int) {
	i, j := "i"+s.id, "j"+s.id
	form := func(main bool, x, y func() any, t string) {
		do := x
		if a == nil {
			do = y
		}
		s.edit(main, to, do, func(c *clause) { c.head += " YIELD " + t })
	}
	form(true, func() any { return a.YieldString(i, j) }, func() any { return b.YieldString(i, j) }, i+", "+j)
	form(false, func() any { return a.YieldSymbolic(cypher.ASymbolic(i)) }, func() any { return b.YieldSymbolic(cypher.ASymbolic(i)) }, i)
	al := func() []cypher.AliasedExpression {
		return []cypher.AliasedExpression{cypher.AliasedExpressionCreate(sym(i), j), cypher.AliasedExpressionCreate(sym(j), "k"+s.id)}
	}
	form(false, func() any { return a.Yield(al()...) }, func() any { return b.Yield(al()...) }, i+" AS "+j+", "+j+" AS k"+s.id)
}

// orderWith adds ORDER BY, SKIP and LIMIT of a WITH.
func (s *stepper) orderWith(v cypher.OrderableOngoingReadingAndWith, x expr, xt string, setOrder func(...string) func(*clause), setSkip, setLimit func(*clause), num int) {
	s.edit(true, kWithOrder, func() any { return v.OrderByExpression(x) }, setOrder(xt))
	s.edit(false, kWithWhere, func() any { return v.OrderBySortItem(cypher.Sort(x).Descending(), cypher.Sort(sym("y"))) }, setOrder(xt+" DESC", "y"))
	s.edit(true, kWithSkip, func() any { return v.Skip(num) }, setSkip)
	s.edit(true, kReadingMatch, func() any { return v.Limit(num) }, setLimit)
}

const nFlowRoots = 22

// flowRoot starts a flow.
func flowRoot(i int) flow {
	n, r := cypher.ANode("L").NamedByString("n"), cypher.AnyNodeNamed("s").RelationshipTo(cypher.AnyNodeNamed("t"), "T")
	x, y := sym("x"), sym("y")
	st, _ := cypher.CypherReturning(x).Build()
	one := func(kind int, v any, head string) flow { return flow{kind: kind, v: v, done: []clause{{head: head}}} }
	switch i {
	case 0:
		return one(kMatch, cypher.Match(n), "MATCH (n:`L`)")
	case 1:
		return one(kUpdateSet, cypher.Merge(r), "MERGE (s)-[:`T`]->(t)")
	case 2:
		return one(kWith, cypher.With(x, y), "WITH x, y")
	case 3:
		return one(kStandalone, cypher.ACallSimple("f"), "CALL f()")
	case 4:
		return one(kMatch, cypher.ACallByStatement(st), "CALL {RETURN x}")
	case 5:
		return one(kUnwind, cypher.Unwind(x), "UNWIND x")
	case 6:
		return one(kUpdateSet, cypher.Create(n, r), "CREATE (n:`L`), (s)-[:`T`]->(t)")
	case 7:
		return one(kReturn, cypher.CypherReturning(x, y), "RETURN x, y")
	case 8:
		return one(kMatch, cypher.AnOptionalMatch(r, n), "OPTIONAL MATCH (s)-[:`T`]->(t), (n:`L`)")
	case 9:
		return one(kMatch, cypher.MatchWithOption(true, n), "OPTIONAL MATCH (n:`L`)")
	case 10:
		return one(kMatch, cypher.MatchWithOption(false, n, r), "MATCH (n:`L`), (s)-[:`T`]->(t)")
	case 11:
		return one(kWith, cypher.WithByString("x", "y"), "WITH x, y")
	case 12:
		return one(kWith, cypher.WithByNamed(n, cypher.AnyNodeNamed("x")), "WITH n, x")
	case 13:
		return one(kUnwind, cypher.UnwindMulti(x, y), "UNWIND [x, y]")
	case 14:
		return one(kStandalone, cypher.ACall("a", "b", "f"), "CALL a.b.f()")
	case 15:
		return one(kUpdateSet, cypher.Merge(n), "MERGE (n:`L`)")
	case 16:
		return one(kStandalone, cypher.StatementCall("a", "f"), "CALL a.f()")
	case 17:
		return one(kMatch, cypher.Match(cypher.APath("p").DefinedBy(r)), "MATCH p = (s)-[:`T`]->(t)")
	case 18:
		return one(kMatch, cypher.Match(cypher.AShortestPath("p").DefinedBy(r)), "MATCH p = shortestPath((s)-[:`T`]->(t))")
	case 19:
		return one(kMatch, cypher.Match(r.RelationshipFrom(cypher.AnyNode(), "U", "V")), "MATCH (s)-[:`T`]->(t)<-[:`U`|`V`]-()")
	case 20:
		return one(kUpdateSet, cypher.Create(r), "CREATE (s)-[:`T`]->(t)")
	case 21:
		return one(kWith, cypher.WithByNamed(cypher.AnyNodeNamed("x"), cypher.AnyNodeNamed("y")), "WITH x, y")
	}
	panic("no such root")
}

// end makes a statement of a flow, with a RETURN where one is needed.
func (f flow) end() (cypher.BuildableStatement, string) {
	t := f.text()
	z := sym("z")
	switch f.kind {
	case kMatch, kWhere, kReading, kReadingMatch, kWith, kWithWhere, kWithAnd, kWithSkip, kStandaloneYield, kCallYield:
		return f.v.(cypher.ExposesReturning).Returning(z), t + " RETURN z"
	case kWithOrder:
		g := f.take(f.steps()[1])
		return g.end()
	case kUnwind, kAction, kCall, kCallArgs:
		g := f.take(f.steps()[0])
		return g.end()
	}
	return f.v.(cypher.BuildableStatement), t
}

// mainSteps are the calls that stand for the others.
func (f flow) mainSteps() []step {
	var r []step
	for _, s := range f.steps() {
		if s.main {
			r = append(r, s)
		}
	}
	return r
}
