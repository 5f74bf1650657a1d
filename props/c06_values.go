package props

import (
	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// A vkind is a kind of value that is built up step by step.
type vkind struct {
	make func() any
	ext  []func(v any, id string) any
	show func(v any) cypher.BuildableStatement
}

func showExpr(e expr) cypher.BuildableStatement { return cypher.CypherReturning(e) }
func showPat(p cypher.PatternElement) cypher.BuildableStatement {
	return cypher.Match(p).Returning(sym("z"))
}

func isNull(s string) cond { return wrap(sym(s)).IsNull().Get() }
func hop(id string) cypher.Relationship {
	return cypher.AnyNodeNamed("s"+id).RelationshipTo(cypher.AnyNodeNamed("t"+id), "T"+id)
}

type (
	listStage interface {
		Where(condition cypher.Condition) cypher.OngoingDefinitionWithoutReturn
		Returning(listDefinition ...cypher.Expression) cypher.ListComprehension
		ReturningDefault() cypher.ListComprehension
	}
	patStage interface {
		Returning(listDefinition ...cypher.Expression) cypher.PatternComprehension
	}
)

const nValueKinds = 17

func valueKind(i int) vkind {
	x := sym("x")
	switch i {
	case 0: // conditions, through their container
		return vkind{
			func() any { return wrap(x).IsNull() },
			[]func(v any, id string) any{
				func(v any, id string) any { return v.(cypher.ConditionContainer).And(isNull("a" + id)) },
				func(v any, id string) any { return v.(cypher.ConditionContainer).Or(isNull("b" + id)) },
				func(v any, id string) any { return v.(cypher.ConditionContainer).Xor(isNull("c" + id)) },
				func(v any, id string) any { return v.(cypher.ConditionContainer).AndPattern(hop(id)) },
				func(v any, id string) any { return v.(cypher.ConditionContainer).OrPattern(hop(id)) },
				func(v any, id string) any { return v.(cypher.ConditionContainer).XorPattern(hop(id)) },
				func(v any, id string) any { return v.(cypher.ConditionContainer).Not() },
				func(v any, id string) any {
					return v.(cypher.ConditionContainer).And(isNull("d" + id).And(isNull("e" + id)).Get())
				},
			},
			func(v any) cypher.BuildableStatement {
				return cypher.Match(nodeN()).WhereConditionContainer(v.(cypher.ConditionContainer)).Returning(x)
			},
		}
	case 1: // compound conditions
		return vkind{
			func() any { return cypher.CompoundConditionCreate(isNull("x"), cypher.AND, isNull("y")) },
			[]func(v any, id string) any{
				func(v any, id string) any { return v.(cypher.Condition).And(isNull("a" + id)).Get() },
				func(v any, id string) any { return v.(cypher.Condition).Or(isNull("b" + id)).Get() },
				func(v any, id string) any { return v.(cypher.Condition).Xor(isNull("c" + id)).Get() },
				func(v any, id string) any { return v.(cypher.Condition).AndPattern(hop(id)).Get() },
				func(v any, id string) any { return v.(cypher.Condition).OrPattern(hop(id)).Get() },
				func(v any, id string) any { return v.(cypher.Condition).Not().Get() },
				func(v any, id string) any { return cypher.ConditionsNot(v.(cypher.Condition)) },
				func(v any, id string) any {
					return v.(cypher.Condition).And(isNull("d" + id).Or(isNull("e" + id)).Get()).Get()
				},
			},
			func(v any) cypher.BuildableStatement {
				return cypher.Match(nodeN()).Where(v.(cypher.Condition)).Returning(x)
			},
		}
	case 2: // simple CASE
		return vkind{
			func() any { return cypher.CaseExpression(x).When(sym("w")).Then(sym("t")) },
			caseSteps(),
			func(v any) cypher.BuildableStatement { return showExpr(v.(expr)) },
		}
	case 3: // generic CASE
		return vkind{
			func() any { return cypher.GenericCaseExpression().When(isNull("w")).Then(sym("t")) },
			caseSteps(),
			func(v any) cypher.BuildableStatement { return showExpr(v.(expr)) },
		}
	case 4: // maps
		entry := func(k string, v expr) expr { return cypher.KeyValueMapEntryCreate(k, v) }
		return vkind{
			func() any { return cypher.MapOf("k", x) },
			[]func(v any, id string) any{
				func(v any, id string) any { return v.(cypher.MapExpression).AddEntries([]expr{entry("a"+id, x)}) },
				func(v any, id string) any {
					return v.(cypher.MapExpression).AddEntries([]expr{entry("b"+id, x), entry("c"+id, sym("y"))})
				},
				func(v any, id string) any { return v.(cypher.MapExpression).AddEntries(nil) },
				func(v any, id string) any {
					return v.(cypher.MapExpression).AddEntries([]expr{entry("d"+id, cypher.LiteralOf("e"))})
				},
			},
			func(v any) cypher.BuildableStatement { return showExpr(v.(expr)) },
		}
	case 5: // map projections
		return vkind{
			func() any { return nodeN().Project("k", x) },
			[]func(v any, id string) any{
				func(v any, id string) any { return v.(cypher.MapProjection).And("a" + id) },
				func(v any, id string) any { return v.(cypher.MapProjection).And("b"+id, x, "c"+id) },
				func(v any, id string) any { return v.(cypher.MapProjection).And(sym("d" + id)) },
				func(v any, id string) any { return v.(cypher.MapProjection).And("e"+id, "f"+id, "g"+id) },
			},
			func(v any) cypher.BuildableStatement {
				return cypher.Match(nodeN()).Returning(v.(expr))
			},
		}
	case 6, 7: // nodes
		labels := []string{"A", "B", "C"}
		return vkind{
			func() any {
				if i == 6 {
					return cypher.ANode("A")
				}
				return cypher.NewNodeWithLabels("A", labels[:2]...)
			},
			[]func(v any, id string) any{
				func(v any, id string) any { return v.(cypher.Node).NamedByString("n" + id) },
				func(v any, id string) any { return v.(cypher.Node).Named(cypher.ASymbolic("o" + id)) },
				func(v any, id string) any { return v.(cypher.Node).WithRawProperties("k"+id, x) },
				func(v any, id string) any {
					return v.(cypher.Node).WithProperties(cypher.MapOf("j"+id, x, "i"+id, sym("y")))
				},
				func(v any, id string) any { return v.(cypher.Node).WithRawProperties("h"+id, x, "g"+id, x) },
			},
			func(v any) cypher.BuildableStatement { return showPat(v.(cypher.PatternElement)) },
		}
	case 8, 9: // relationships
		types := []string{"A", "B", "C", "D"}
		return vkind{
			func() any {
				if i == 8 {
					return hop("")
				}
				return nodeN().RelationshipBetween(cypher.ANode("K"), types[:2]...)
			},
			[]func(v any, id string) any{
				func(v any, id string) any { return v.(cypher.Relationship).NamedByString("r" + id) },
				func(v any, id string) any { return v.(cypher.Relationship).Named("q" + id) },
				func(v any, id string) any { return v.(cypher.Relationship).Min(int(id[0])) },
				func(v any, id string) any { return v.(cypher.Relationship).Max(500 + int(id[0])) },
				func(v any, id string) any { return v.(cypher.Relationship).Length(int(id[0])-3, 700+int(id[0])) },
				func(v any, id string) any { return v.(cypher.Relationship).Unbounded() },
				func(v any, id string) any { return v.(cypher.Relationship).WithRawProperties("k"+id, x) },
				func(v any, id string) any { return v.(cypher.Relationship).WithProperties(cypher.MapOf("j"+id, x)) },
			},
			func(v any) cypher.BuildableStatement { return showPat(v.(cypher.PatternElement)) },
		}
	case 10, 11: // chains
		return vkind{
			func() any {
				r := nodeN().RelationshipTo(cypher.ANode("K"), "T")
				if i == 10 {
					return r.RelationshipFrom(cypher.ANode("J"))
				}
				return cypher.RelationshipChainCreate(r)
			},
			[]func(v any, id string) any{
				func(v any, id string) any {
					return v.(cypher.RelationshipChain).RelationshipTo(cypher.ANode("A"+id), "T"+id)
				},
				func(v any, id string) any {
					return v.(cypher.RelationshipChain).RelationshipFrom(cypher.ANode("B"+id), "T"+id, "U")
				},
				func(v any, id string) any {
					return v.(cypher.RelationshipChain).RelationshipBetween(cypher.ANode("C" + id))
				},
				func(v any, id string) any { return v.(cypher.RelationshipChain).Add(hop(id)) },
				func(v any, id string) any { return v.(cypher.RelationshipChain).NamedC("r" + id) },
				func(v any, id string) any { return v.(cypher.RelationshipChain).Min(int(id[0])) },
				func(v any, id string) any { return v.(cypher.RelationshipChain).Max(500 + int(id[0])) },
				func(v any, id string) any { return v.(cypher.RelationshipChain).Length(int(id[0])-3, 700+int(id[0])) },
				func(v any, id string) any { return v.(cypher.RelationshipChain).Unbounded() },
				func(v any, id string) any { return v.(cypher.RelationshipChain).PropertiesRaw("k"+id, x) },
				func(v any, id string) any { return v.(cypher.RelationshipChain).Properties(cypher.MapOf("j"+id, x)) },
			},
			func(v any) cypher.BuildableStatement { return showPat(v.(cypher.PatternElement)) },
		}
	case 12: // sort items
		return vkind{
			func() any { return cypher.Sort(x) },
			[]func(v any, id string) any{
				func(v any, id string) any { return v.(cypher.SortItem).Descending() },
				func(v any, id string) any { return v.(cypher.SortItem).Ascending() },
			},
			func(v any) cypher.BuildableStatement {
				return cypher.CypherReturning(x).OrderBySortItem(v.(cypher.SortItem))
			},
		}
	case 13: // aliased expressions
		return vkind{
			func() any { return cypher.AliasedExpressionCreate(wrap(x).Add(sym("y")).Get(), "al") },
			[]func(v any, id string) any{
				func(v any, id string) any { return v.(cypher.AliasedExpression).Aliased("a" + id) },
				func(v any, id string) any { return v.(cypher.AliasedExpression).Aliased("b" + id) },
			},
			func(v any) cypher.BuildableStatement { return showExpr(v.(expr)) },
		}
	case 14: // expressions, through their container
		y := func(id string) expr { return sym("y" + id) }
		return vkind{
			func() any { return wrap(x) },
			[]func(v any, id string) any{
				func(v any, id string) any { return v.(cypher.ExpressionContainer).Add(y(id)) },
				func(v any, id string) any { return v.(cypher.ExpressionContainer).Subtract(y(id)) },
				func(v any, id string) any { return v.(cypher.ExpressionContainer).Multiply(y(id)) },
				func(v any, id string) any { return v.(cypher.ExpressionContainer).Divide(y(id)) },
				func(v any, id string) any { return v.(cypher.ExpressionContainer).Remainder(y(id)) },
				func(v any, id string) any { return v.(cypher.ExpressionContainer).Pow(y(id)) },
				func(v any, id string) any { return v.(cypher.ExpressionContainer).Concat(y(id)) },
				func(v any, id string) any { return wrap(v.(cypher.ExpressionContainer).IsEqualTo(y(id)).Get()) },
				func(v any, id string) any { return wrap(v.(cypher.ExpressionContainer).In(y(id)).Get()) },
				func(v any, id string) any { return wrap(v.(cypher.ExpressionContainer).IsNull().Get()) },
				func(v any, id string) any { return v.(cypher.ExpressionContainer).As("al" + id) },
			},
			func(v any) cypher.BuildableStatement { return showExpr(v.(cypher.ExpressionContainer).Get()) },
		}
	case 15: // pattern comprehensions
		type open = cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere
		return vkind{
			func() any { return cypher.ListBasedOn(knows()).Where(isNull("x")) },
			[]func(v any, id string) any{
				func(v any, id string) any { return v.(open).And(isNull("a" + id)) },
				func(v any, id string) any { return v.(open).Or(isNull("b" + id)) },
				func(v any, id string) any { return v.(open).AndPattern(hop(id)) },
				func(v any, id string) any { return v.(open).OrPattern(hop(id)) },
			},
			func(v any) cypher.BuildableStatement { return showExpr(v.(patStage).Returning(x)) },
		}
	case 16: // operations and other values shared by several statements
		return vkind{
			func() any { return []expr{x} },
			[]func(v any, id string) any{
				func(v any, id string) any { return []expr{cypher.ListOf(v.([]expr)...)} },
				func(v any, id string) any { return append(append([]expr{}, v.([]expr)...), sym("y"+id)) },
				func(v any, id string) any { return []expr{cypher.Coalesce(v.([]expr)...)} },
				func(v any, id string) any {
					return []expr{cypher.FunctionInvocationCreateWithFunctionName("f"+id, v.([]expr)...)}
				},
				func(v any, id string) any {
					return []expr{cypher.ACallSimple("g" + id).WithArgs(v.([]expr)...).AsFunction()}
				},
				func(v any, id string) any {
					return []expr{cypher.CypherListWith(cypher.ASymbolic("v" + id)).In(v.([]expr)[0]).Returning(v.([]expr)...)}
				},
			},
			func(v any) cypher.BuildableStatement { return cypher.CypherReturning(v.([]expr)...) },
		}
	}
	panic("no such kind")
}

func caseSteps() []func(v any, id string) any {
	return []func(v any, id string) any{
		func(v any, id string) any { return caseWhen(v, sym("w"+id)).Then(sym("t" + id)) },
		func(v any, id string) any { return caseWhen(v, isNull("v"+id)).Then(cypher.LiteralOf(7)) },
		func(v any, id string) any { return caseElse(v, sym("e"+id)) },
		func(v any, id string) any { return caseElse(v, cypher.LiteralOf(8)) },
	}
}

func caseWhen(v any, w expr) cypher.OngoingWhenThen { return v.(cypher.CaseEnding).When(w) }
func caseElse(v any, e expr) any                    { return v.(cypher.CaseEnding).ElseDefault(e) }

func shown(k vkind, v any) string {
	out, err := text(k.show(v))
	if err != nil {
		return "refused: " + err.Error()
	}
	return out
}

// valuePath builds a value from nothing: the first step a number of times,
// then the steps after it.
func valuePath(k vkind, first, times int, then ...int) any {
	v := k.make()
	for j := 0; j < times; j++ {
		v = k.ext[first](v, stepText(j))
	}
	for j, s := range then {
		v = k.ext[s](v, stepText(j+20))
	}
	return v
}

// All continuations of one shared value.
func C06_values() {
	k := valueKind(pick("kind", nValueKinds))
	first := pick("first", len(k.ext))
	max := 3
	if nd.Thorough() {
		max = 9
	}
	times := pick("times", max+1)
	if times == 0 && first > 0 {
		nd.Assume(false)
	}
	v := valuePath(k, first, times)
	var want []string
	for i := range k.ext {
		want = append(want, shown(k, valuePath(k, first, times, i)))
	}
	alone := shown(k, valuePath(k, first, times))
	nd.CheckEq("before", shown(k, v), alone)
	var vs []any
	for i := range k.ext {
		vs = append(vs, k.ext[i](v, stepText(20)))
	}
	for i := range k.ext {
		nd.CheckEq("branch", shown(k, vs[i]), want[i])
	}
	nd.CheckEq("prefix", shown(k, v), alone)
	// one of the branches extended again
	i := 0
	if nd.Thorough() || times < 2 {
		i = nd.Choose("again", len(k.ext))
	}
	for j := range k.ext {
		nd.CheckEq("again", shown(k, k.ext[j](vs[i], stepText(21))), shown(k, valuePath(k, first, times, i, j)))
	}
	for i := len(vs) - 1; i >= 0; i-- {
		nd.CheckEq("branchAfter", shown(k, vs[i]), want[i])
	}
	nd.CheckEq("prefixAfter", shown(k, v), alone)
}
