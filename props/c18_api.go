// Code generated by cmd/apigen. DO NOT EDIT.

package props

import (
	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

var apiFunctions = []apiFunction{
	{"ACall", 1, func(a *args) any { return cypher.ACall(some(a, 0, a.str)...) }},
	{"ACallByStatement", 1, func(a *args) any { return cypher.ACallByStatement(a.statement(0)) }},
	{"ACallSimple", 1, func(a *args) any { return cypher.ACallSimple(a.str(0)) }},
	{"ANode", 1, func(a *args) any { return cypher.ANode(a.str(0)) }},
	{"AParam", 1, func(a *args) any { return cypher.AParam(a.str(0)) }},
	{"APath", 1, func(a *args) any { return cypher.APath(a.str(0)) }},
	{"APathBySymbolic", 1, func(a *args) any { return cypher.APathBySymbolic(a.symbolicName(0)) }},
	{"AProperty", 2, func(a *args) any { return cypher.AProperty(a.str(0), a.str(1)) }},
	{"APropertyByExpression", 2, func(a *args) any { return cypher.APropertyByExpression(a.expression(0), a.str(1)) }},
	{"AQuote", 1, func(a *args) any { return cypher.AQuote(a.str(0)) }},
	{"AShortestPath", 1, func(a *args) any { return cypher.AShortestPath(a.str(0)) }},
	{"AShortestPathBySymbolic", 1, func(a *args) any { return cypher.AShortestPathBySymbolic(a.symbolicName(0)) }},
	{"ASubList", 3, func(a *args) any { return cypher.ASubList(a.expression(0), a.integer(1), a.integer(2)) }},
	{"ASubListFromByExpression", 2, func(a *args) any { return cypher.ASubListFromByExpression(a.expression(0), a.expression(1)) }},
	{"ASubListUntil", 2, func(a *args) any { return cypher.ASubListUntil(a.expression(0), a.integer(1)) }},
	{"ASymbolic", 1, func(a *args) any { return cypher.ASymbolic(a.str(0)) }},
	{"AliasedExpressionCreate", 2, func(a *args) any { return cypher.AliasedExpressionCreate(a.expression(0), a.str(1)) }},
	{"AliasedExpressionError", 1, func(a *args) any { return cypher.AliasedExpressionError(a.anError(0)) }},
	{"AnAsterisk", 0, func(a *args) any { return cypher.AnAsterisk() }},
	{"AnOptionalMatch", 1, func(a *args) any { return cypher.AnOptionalMatch(some(a, 0, a.patternElement)...) }},
	{"AnyNode", 0, func(a *args) any { return cypher.AnyNode() }},
	{"AnyNodeNamed", 1, func(a *args) any { return cypher.AnyNodeNamed(a.str(0)) }},
	{"ArgumentsCreate", 1, func(a *args) any { return cypher.ArgumentsCreate(some(a, 0, a.expression)) }},
	{"AsteriskCreate", 0, func(a *args) any { return cypher.AsteriskCreate() }},
	{"Avg", 1, func(a *args) any { return cypher.Avg(a.expression(0)) }},
	{"AvgDistinct", 1, func(a *args) any { return cypher.AvgDistinct(a.expression(0)) }},
	{"BooleanFunctionConditionCreate", 1, func(a *args) any { return cypher.BooleanFunctionConditionCreate(a.functionInvocation(0)) }},
	{"BooleanFunctionConditionError", 1, func(a *args) any { return cypher.BooleanFunctionConditionError(a.anError(0)) }},
	{"BooleanLiteralCreate", 1, func(a *args) any { return cypher.BooleanLiteralCreate(a.boolean(0)) }},
	{"CalendarDate", 3, func(a *args) any { return cypher.CalendarDate(a.integer(0), a.integer(1), a.integer(2)) }},
	{"CaseElseCreate", 1, func(a *args) any { return cypher.CaseElseCreate(a.expression(0)) }},
	{"CaseExpression", 1, func(a *args) any { return cypher.CaseExpression(a.expression(0)) }},
	{"CaseWhenThenCreate", 2, func(a *args) any { return cypher.CaseWhenThenCreate(a.expression(0), a.expression(1)) }},
	{"Coalesce", 1, func(a *args) any { return cypher.Coalesce(some(a, 0, a.expression)...) }},
	{"Collect", 1, func(a *args) any { return cypher.Collect(a.expression(0)) }},
	{"CollectByNamed", 1, func(a *args) any { return cypher.CollectByNamed(a.named(0)) }},
	{"CollectDistinct", 1, func(a *args) any { return cypher.CollectDistinct(a.expression(0)) }},
	{"CollectDistinctByNamed", 1, func(a *args) any { return cypher.CollectDistinctByNamed(a.named(0)) }},
	{"ComparisonCreate", 3, func(a *args) any { return cypher.ComparisonCreate(a.expression(0), a.operator(1), a.expression(2)) }},
	{"ComparisonCreate1", 2, func(a *args) any { return cypher.ComparisonCreate1(a.operator(0), a.expression(1)) }},
	{"ComparisonError", 1, func(a *args) any { return cypher.ComparisonError(a.anError(0)) }},
	{"CompoundConditionCreate", 3, func(a *args) any {
		return cypher.CompoundConditionCreate(a.condition(0), a.operator(1), a.condition(2))
	}},
	{"CompoundConditionCreate1", 1, func(a *args) any { return cypher.CompoundConditionCreate1(a.operator(0)) }},
	{"CompoundConditionError", 1, func(a *args) any { return cypher.CompoundConditionError(a.anError(0)) }},
	{"ConditionBuilderCreate", 0, func(a *args) any { return cypher.ConditionBuilderCreate() }},
	{"ConditionWrap", 1, func(a *args) any { return cypher.ConditionWrap(a.condition(0)) }},
	{"ConditionsIsFalse", 0, func(a *args) any { return cypher.ConditionsIsFalse() }},
	{"ConditionsIsTrue", 0, func(a *args) any { return cypher.ConditionsIsTrue() }},
	{"ConditionsNoCondition", 0, func(a *args) any { return cypher.ConditionsNoCondition() }},
	{"ConditionsNot", 1, func(a *args) any { return cypher.ConditionsNot(a.condition(0)) }},
	{"ConditionsNotByPattern", 1, func(a *args) any { return cypher.ConditionsNotByPattern(a.patternElement(0)) }},
	{"ConstantConditionCreate", 1, func(a *args) any { return cypher.ConstantConditionCreate(a.booleanLiteral(0)) }},
	{"ConstantConditionError", 1, func(a *args) any { return cypher.ConstantConditionError(a.anError(0)) }},
	{"Count", 1, func(a *args) any { return cypher.Count(a.node(0)) }},
	{"CountByExpression", 1, func(a *args) any { return cypher.CountByExpression(a.expression(0)) }},
	{"CountDistinct", 1, func(a *args) any { return cypher.CountDistinct(a.node(0)) }},
	{"CountDistinctByExpression", 1, func(a *args) any { return cypher.CountDistinctByExpression(a.expression(0)) }},
	{"Create", 1, func(a *args) any { return cypher.Create(some(a, 0, a.patternElement)...) }},
	{"CreateAscendingSortItem", 1, func(a *args) any { return cypher.CreateAscendingSortItem(a.expression(0)) }},
	{"CreateBuilderCreate", 1, func(a *args) any { return cypher.CreateBuilderCreate(some(a, 0, a.patternElement)) }},
	{"CreateDescendingSortItem", 1, func(a *args) any { return cypher.CreateDescendingSortItem(a.expression(0)) }},
	{"CreateSymbolicNameByNamed", 1, func(a *args) any { return cypher.CreateSymbolicNameByNamed(some(a, 0, a.named)...) }},
	{"CreateSymbolicNameByString", 1, func(a *args) any { return cypher.CreateSymbolicNameByString(some(a, 0, a.str)...) }},
	{"CypherListWith", 1, func(a *args) any { return cypher.CypherListWith(a.symbolicName(0)) }},
	{"CypherReturning", 1, func(a *args) any { return cypher.CypherReturning(some(a, 0, a.expression)...) }},
	{"CypherSubListFrom", 2, func(a *args) any { return cypher.CypherSubListFrom(a.expression(0), a.integer(1)) }},
	{"CypherSubListUntilByExpression", 2, func(a *args) any { return cypher.CypherSubListUntilByExpression(a.expression(0), a.expression(1)) }},
	{"CypherValueAt", 2, func(a *args) any { return cypher.CypherValueAt(a.expression(0), a.integer(1)) }},
	{"CypherValueAtByExpression", 2, func(a *args) any { return cypher.CypherValueAtByExpression(a.expression(0), a.expression(1)) }},
	{"Date", 0, func(a *args) any { return cypher.Date() }},
	{"DateTimeWithComponents", 1, func(a *args) any { return cypher.DateTimeWithComponents(a.mapExpression(0)) }},
	{"DateTimeWithExpression", 1, func(a *args) any { return cypher.DateTimeWithExpression(a.expression(0)) }},
	{"DateTimeWithTemporal", 1, func(a *args) any { return cypher.DateTimeWithTemporal(a.str(0)) }},
	{"DateWithComponents", 1, func(a *args) any { return cypher.DateWithComponents(a.mapExpression(0)) }},
	{"DateWithExpression", 1, func(a *args) any { return cypher.DateWithExpression(a.expression(0)) }},
	{"DateWithTemporal", 1, func(a *args) any { return cypher.DateWithTemporal(a.str(0)) }},
	{"Datetime", 0, func(a *args) any { return cypher.Datetime() }},
	{"DefaultOngoingUnwindError", 1, func(a *args) any { return cypher.DefaultOngoingUnwindError(a.anError(0)) }},
	{"DefaultStatementBuilderCreate", 0, func(a *args) any { return cypher.DefaultStatementBuilderCreate() }},
	{"DefaultStatementBuilderError", 1, func(a *args) any { return cypher.DefaultStatementBuilderError(a.anError(0)) }},
	{"DefaultStatementWithReturnBuilderError", 1, func(a *args) any { return cypher.DefaultStatementWithReturnBuilderError(a.anError(0)) }},
	{"DefaultStatementWithUpdateBuilderError", 1, func(a *args) any { return cypher.DefaultStatementWithUpdateBuilderError(a.anError(0)) }},
	{"DefaultStatementWithWithBuilderError", 1, func(a *args) any { return cypher.DefaultStatementWithWithBuilderError(a.anError(0)) }},
	{"DeleteBuilderCreate", 2, func(a *args) any { return cypher.DeleteBuilderCreate(a.expressionList(0), a.boolean(1)) }},
	{"DeleteCreate", 2, func(a *args) any { return cypher.DeleteCreate(a.expressionList(0), a.boolean(1)) }},
	{"DeleteError", 1, func(a *args) any { return cypher.DeleteError(a.anError(0)) }},
	{"DirectionCreate", 2, func(a *args) any { return cypher.DirectionCreate(a.str(0), a.str(1)) }},
	{"Distance", 2, func(a *args) any { return cypher.Distance(a.expression(0), a.expression(1)) }},
	{"DistinctExpressionCreate", 1, func(a *args) any { return cypher.DistinctExpressionCreate(a.expression(0)) }},
	{"DistinctExpressionError", 1, func(a *args) any { return cypher.DistinctExpressionError(a.anError(0)) }},
	{"DotCreate", 1, func(a *args) any { return cypher.DotCreate(a.str(0)) }},
	{"DurationWithComponents", 1, func(a *args) any { return cypher.DurationWithComponents(a.mapExpression(0)) }},
	{"DurationWithExpression", 1, func(a *args) any { return cypher.DurationWithExpression(a.expression(0)) }},
	{"DurationWithTemporal", 1, func(a *args) any { return cypher.DurationWithTemporal(a.str(0)) }},
	{"EndNode", 1, func(a *args) any { return cypher.EndNode(a.relationship(0)) }},
	{"EndingGenericCaseCreate", 1, func(a *args) any { return cypher.EndingGenericCaseCreate(some(a, 0, a.caseWhenThen)) }},
	{"EndingSimpleCaseCreate", 2, func(a *args) any { return cypher.EndingSimpleCaseCreate(a.expression(0), some(a, 1, a.caseWhenThen)) }},
	{"EntryExpressionCreate", 2, func(a *args) any { return cypher.EntryExpressionCreate(a.str(0), a.expression(1)) }},
	{"EscapeIfNecessary", 1, func(a *args) any { return cypher.EscapeIfNecessary(a.str(0)) }},
	{"ExcludedPatternCreate", 1, func(a *args) any { return cypher.ExcludedPatternCreate(a.patternElement(0)) }},
	{"ExcludedPatternError", 1, func(a *args) any { return cypher.ExcludedPatternError(a.anError(0)) }},
	{"ExistentialSubqueryError", 1, func(a *args) any { return cypher.ExistentialSubqueryError(a.anError(0)) }},
	{"Exists", 1, func(a *args) any { return cypher.Exists(a.expression(0)) }},
	{"ExpressionListCreate", 1, func(a *args) any { return cypher.ExpressionListCreate(some(a, 0, a.expression)) }},
	{"ExpressionListError", 1, func(a *args) any { return cypher.ExpressionListError(a.anError(0)) }},
	{"ExpressionWrap", 1, func(a *args) any { return cypher.ExpressionWrap(a.expression(0)) }},
	{"ExpressionsToVisitables", 1, func(a *args) any { return cypher.ExpressionsToVisitables(some(a, 0, a.expression)) }},
	{"FunctionArgumentListCreate", 1, func(a *args) any { return cypher.FunctionArgumentListCreate(some(a, 0, a.visitable)...) }},
	{"FunctionInvocationCreate", 2, func(a *args) any {
		return cypher.FunctionInvocationCreate(a.functionDefinition(0), some(a, 1, a.expression)...)
	}},
	{"FunctionInvocationCreate1", 1, func(a *args) any { return cypher.FunctionInvocationCreate1(a.functionDefinition(0)) }},
	{"FunctionInvocationCreateDistinct", 2, func(a *args) any {
		return cypher.FunctionInvocationCreateDistinct(a.functionDefinition(0), some(a, 1, a.expression)...)
	}},
	{"FunctionInvocationCreateWithFunctionName", 2, func(a *args) any {
		return cypher.FunctionInvocationCreateWithFunctionName(a.str(0), some(a, 1, a.expression)...)
	}},
	{"FunctionInvocationCreateWithPattern", 2, func(a *args) any {
		return cypher.FunctionInvocationCreateWithPattern(a.functionDefinition(0), a.pattern(1))
	}},
	{"FunctionInvocationCreateWithPatternElement", 2, func(a *args) any {
		return cypher.FunctionInvocationCreateWithPatternElement(a.functionDefinition(0), a.patternElement(1))
	}},
	{"FunctionInvocationError", 1, func(a *args) any { return cypher.FunctionInvocationError(a.anError(0)) }},
	{"FunctionProperties", 1, func(a *args) any { return cypher.FunctionProperties(a.node(0)) }},
	{"FunctionPropertiesByRelationship", 1, func(a *args) any { return cypher.FunctionPropertiesByRelationship(a.relationship(0)) }},
	{"FunctionType", 1, func(a *args) any { return cypher.FunctionType(a.relationship(0)) }},
	{"GenericCaseCreate", 1, func(a *args) any { return cypher.GenericCaseCreate(some(a, 0, a.caseWhenThen)) }},
	{"GenericCaseCreate1", 0, func(a *args) any { return cypher.GenericCaseCreate1() }},
	{"GenericCaseExpression", 0, func(a *args) any { return cypher.GenericCaseExpression() }},
	{"HasLabelConditionCreate", 2, func(a *args) any { return cypher.HasLabelConditionCreate(a.symbolicName(0), some(a, 1, a.str)...) }},
	{"HasLabelConditionCreate1", 2, func(a *args) any { return cypher.HasLabelConditionCreate1(a.symbolicName(0), some(a, 1, a.nodeLabel)) }},
	{"HasLabelConditionError", 1, func(a *args) any { return cypher.HasLabelConditionError(a.anError(0)) }},
	{"Head", 1, func(a *args) any { return cypher.Head(a.expression(0)) }},
	{"IdByNode", 1, func(a *args) any { return cypher.IdByNode(a.node(0)) }},
	{"IdByRelationship", 1, func(a *args) any { return cypher.IdByRelationship(a.relationship(0)) }},
	{"KeyValueMapEntryCreate", 2, func(a *args) any { return cypher.KeyValueMapEntryCreate(a.str(0), a.expression(1)) }},
	{"KeyValueMapEntryError", 1, func(a *args) any { return cypher.KeyValueMapEntryError(a.anError(0)) }},
	{"LTR", 0, func(a *args) any { return cypher.LTR() }},
	{"Labels", 1, func(a *args) any { return cypher.Labels(a.node(0)) }},
	{"Last", 1, func(a *args) any { return cypher.Last(a.expression(0)) }},
	{"LimitCreate", 1, func(a *args) any { return cypher.LimitCreate(a.integer(0)) }},
	{"LimitError", 1, func(a *args) any { return cypher.LimitError(a.anError(0)) }},
	{"ListBasedOn", 1, func(a *args) any { return cypher.ListBasedOn(a.relationshipPattern(0)) }},
	{"ListBasedOnNamed", 1, func(a *args) any { return cypher.ListBasedOnNamed(a.namedPath(0)) }},
	{"ListComprehensionBuilderCreate", 1, func(a *args) any { return cypher.ListComprehensionBuilderCreate(a.symbolicName(0)) }},
	{"ListComprehensionCreate", 4, func(a *args) any {
		return cypher.ListComprehensionCreate(a.symbolicName(0), a.expression(1), a.where(2), a.expression(3))
	}},
	{"ListComprehensionError", 1, func(a *args) any { return cypher.ListComprehensionError(a.anError(0)) }},
	{"ListComprehensionWith", 1, func(a *args) any { return cypher.ListComprehensionWith(a.symbolicName(0)) }},
	{"ListExpressionCreate", 1, func(a *args) any { return cypher.ListExpressionCreate(a.expressionList(0)) }},
	{"ListExpressionCreate1", 1, func(a *args) any { return cypher.ListExpressionCreate1(some(a, 0, a.expression)...) }},
	{"ListExpressionError", 1, func(a *args) any { return cypher.ListExpressionError(a.anError(0)) }},
	{"ListLiteralCreate", 1, func(a *args) any { return cypher.ListLiteralCreate(some(a, 0, a.literal)) }},
	{"ListLiteralError", 1, func(a *args) any { return cypher.ListLiteralError(a.anError(0)) }},
	{"ListOf", 1, func(a *args) any { return cypher.ListOf(some(a, 0, a.expression)...) }},
	{"ListOfRaw", 1, func(a *args) any { return cypher.ListOfRaw(some(a, 0, a.any)...) }},
	{"ListOperatorDetailsCreate", 3, func(a *args) any { return cypher.ListOperatorDetailsCreate(a.expression(0), a.dot(1), a.expression(2)) }},
	{"ListOperatorError", 1, func(a *args) any { return cypher.ListOperatorError(a.anError(0)) }},
	{"ListOrSingleExpression", 1, func(a *args) any { return cypher.ListOrSingleExpression(some(a, 0, a.expression)...) }},
	{"ListPredicateCreate", 3, func(a *args) any { return cypher.ListPredicateCreate(a.symbolicName(0), a.expression(1), a.where(2)) }},
	{"ListPredicateError", 1, func(a *args) any { return cypher.ListPredicateError(a.anError(0)) }},
	{"LiteralFalse", 0, func(a *args) any { return cypher.LiteralFalse() }},
	{"LiteralOf", 1, func(a *args) any { return cypher.LiteralOf(a.any(0)) }},
	{"LiteralTrue", 0, func(a *args) any { return cypher.LiteralTrue() }},
	{"LocalDateTimeWithComponents", 1, func(a *args) any { return cypher.LocalDateTimeWithComponents(a.mapExpression(0)) }},
	{"LocalDateTimeWithExpression", 1, func(a *args) any { return cypher.LocalDateTimeWithExpression(a.expression(0)) }},
	{"LocalDateTimeWithTemporal", 1, func(a *args) any { return cypher.LocalDateTimeWithTemporal(a.str(0)) }},
	{"LocalDateTimeWithTimezone", 1, func(a *args) any { return cypher.LocalDateTimeWithTimezone(a.location(0)) }},
	{"LocalDatetime", 0, func(a *args) any { return cypher.LocalDatetime() }},
	{"LocalTimeWithComponents", 1, func(a *args) any { return cypher.LocalTimeWithComponents(a.mapExpression(0)) }},
	{"LocalTimeWithExpression", 1, func(a *args) any { return cypher.LocalTimeWithExpression(a.expression(0)) }},
	{"LocalTimeWithTemporal", 1, func(a *args) any { return cypher.LocalTimeWithTemporal(a.str(0)) }},
	{"LocalTimeWithTimezone", 1, func(a *args) any { return cypher.LocalTimeWithTimezone(a.location(0)) }},
	{"Localtime", 0, func(a *args) any { return cypher.Localtime() }},
	{"MapExpressionCreate", 1, func(a *args) any { return cypher.MapExpressionCreate(some(a, 0, a.expression)) }},
	{"MapExpressionError", 1, func(a *args) any { return cypher.MapExpressionError(a.anError(0)) }},
	{"MapOf", 1, func(a *args) any { return cypher.MapOf(some(a, 0, a.any)...) }},
	{"MapProjectionCreate", 2, func(a *args) any { return cypher.MapProjectionCreate(a.symbolicName(0), some(a, 1, a.any)...) }},
	{"MapProjectionCreateWithMapExpression", 2, func(a *args) any {
		return cypher.MapProjectionCreateWithMapExpression(a.symbolicName(0), a.mapExpression(1))
	}},
	{"MapProjectionError", 1, func(a *args) any { return cypher.MapProjectionError(a.anError(0)) }},
	{"Match", 1, func(a *args) any { return cypher.Match(some(a, 0, a.patternElement)...) }},
	{"MatchBuilderCreate", 1, func(a *args) any { return cypher.MatchBuilderCreate(a.boolean(0)) }},
	{"MatchPhraseCreate", 3, func(a *args) any { return cypher.MatchPhraseCreate(a.boolean(0), a.pattern(1), a.where(2)) }},
	{"MatchWithOption", 2, func(a *args) any { return cypher.MatchWithOption(a.boolean(0), some(a, 1, a.patternElement)...) }},
	{"Max", 1, func(a *args) any { return cypher.Max(a.expression(0)) }},
	{"MaxDistinct", 1, func(a *args) any { return cypher.MaxDistinct(a.expression(0)) }},
	{"Merge", 1, func(a *args) any { return cypher.Merge(some(a, 0, a.patternElement)...) }},
	{"MergeBuilderCreate", 1, func(a *args) any { return cypher.MergeBuilderCreate(some(a, 0, a.patternElement)) }},
	{"Min", 1, func(a *args) any { return cypher.Min(a.expression(0)) }},
	{"MinDistinct", 1, func(a *args) any { return cypher.MinDistinct(a.expression(0)) }},
	{"MultiPartQueryError", 1, func(a *args) any { return cypher.MultiPartQueryError(a.anError(0)) }},
	{"NameOrExpression", 1, func(a *args) any { return cypher.NameOrExpression(a.expression(0)) }},
	{"NameSpaceCreate", 1, func(a *args) any { return cypher.NameSpaceCreate(some(a, 0, a.str)) }},
	{"NamedPathBuilderCreate", 1, func(a *args) any { return cypher.NamedPathBuilderCreate(a.symbolicName(0)) }},
	{"NamedPathBuilderWithName", 1, func(a *args) any { return cypher.NamedPathBuilderWithName(a.symbolicName(0)) }},
	{"NamedPathBuilderWithNameByString", 1, func(a *args) any { return cypher.NamedPathBuilderWithNameByString(a.str(0)) }},
	{"NamedPathCreate", 2, func(a *args) any { return cypher.NamedPathCreate(a.symbolicName(0), a.relationshipPattern(1)) }},
	{"NamedPathCreate1", 2, func(a *args) any { return cypher.NamedPathCreate1(a.symbolicName(0), a.functionInvocation(1)) }},
	{"NamedPathError", 1, func(a *args) any { return cypher.NamedPathError(a.anError(0)) }},
	{"NamedPathShortestPathWithName", 2, func(a *args) any {
		return cypher.NamedPathShortestPathWithName(a.symbolicName(0), a.functionDefinition(1))
	}},
	{"NamedPathShortestPathWithNameByString", 2, func(a *args) any {
		return cypher.NamedPathShortestPathWithNameByString(a.str(0), a.functionDefinition(1))
	}},
	{"NestedExpressionCreate", 1, func(a *args) any { return cypher.NestedExpressionCreate(a.expression(0)) }},
	{"NestedExpressionError", 1, func(a *args) any { return cypher.NestedExpressionError(a.anError(0)) }},
	{"NewExpressionList", 1, func(a *args) any { return cypher.NewExpressionList(some(a, 0, a.expression)...) }},
	{"NewMapExpression", 1, func(a *args) any { return cypher.NewMapExpression(some(a, 0, a.any)...) }},
	{"NewNodeWithLabels", 2, func(a *args) any { return cypher.NewNodeWithLabels(a.str(0), some(a, 1, a.str)...) }},
	{"NewNodeWithProperties", 3, func(a *args) any {
		return cypher.NewNodeWithProperties(a.str(0), a.mapExpression(1), some(a, 2, a.str)...)
	}},
	{"NewRenderer", 0, func(a *args) any { return cypher.NewRenderer() }},
	{"NodeCreate", 0, func(a *args) any { return cypher.NodeCreate() }},
	{"NodeCreate1", 3, func(a *args) any { return cypher.NodeCreate1(a.str(0), a.properties(1), some(a, 2, a.str)...) }},
	{"NodeCreate2", 1, func(a *args) any { return cypher.NodeCreate2(a.str(0)) }},
	{"NodeCreate3", 2, func(a *args) any { return cypher.NodeCreate3(a.str(0), some(a, 1, a.str)...) }},
	{"NodeCreate4", 2, func(a *args) any { return cypher.NodeCreate4(a.mapExpression(0), a.node(1)) }},
	{"NodeCreate5", 3, func(a *args) any { return cypher.NodeCreate5(a.str(0), a.mapExpression(1), some(a, 2, a.str)...) }},
	{"NodeError", 1, func(a *args) any { return cypher.NodeError(a.anError(0)) }},
	{"NodeLabelCreate", 1, func(a *args) any { return cypher.NodeLabelCreate(a.str(0)) }},
	{"NodeLabelError", 1, func(a *args) any { return cypher.NodeLabelError(a.anError(0)) }},
	{"NodeLabelsCreate", 1, func(a *args) any { return cypher.NodeLabelsCreate(some(a, 0, a.nodeLabel)) }},
	{"NodeLabelsError", 1, func(a *args) any { return cypher.NodeLabelsError(a.anError(0)) }},
	{"Nodes", 1, func(a *args) any { return cypher.Nodes(a.namedPath(0)) }},
	{"NullLiteralCreate", 0, func(a *args) any { return cypher.NullLiteralCreate() }},
	{"NumberLiteralCreate", 1, func(a *args) any { return cypher.NumberLiteralCreate(a.integer64(0)) }},
	{"NumberLiteralCreate1", 1, func(a *args) any { return cypher.NumberLiteralCreate1(a.integer(0)) }},
	{"NumberLiteralCreate2", 1, func(a *args) any { return cypher.NumberLiteralCreate2(a.float(0)) }},
	{"NumberLiteralError", 1, func(a *args) any { return cypher.NumberLiteralError(a.anError(0)) }},
	{"OngoingMergeActionInBuilderError", 1, func(a *args) any { return cypher.OngoingMergeActionInBuilderError(a.anError(0)) }},
	{"OperationAdd", 2, func(a *args) any { return cypher.OperationAdd(a.expression(0), a.expression(1)) }},
	{"OperationConcat", 2, func(a *args) any { return cypher.OperationConcat(a.expression(0), a.expression(1)) }},
	{"OperationCreate", 3, func(a *args) any { return cypher.OperationCreate(a.expression(0), a.operator(1), a.expression(2)) }},
	{"OperationCreate1", 3, func(a *args) any { return cypher.OperationCreate1(a.expression(0), a.operator(1), a.nodeLabel(2)) }},
	{"OperationCreate2", 3, func(a *args) any { return cypher.OperationCreate2(a.node(0), a.operator(1), some(a, 2, a.str)...) }},
	{"OperationDivide", 2, func(a *args) any { return cypher.OperationDivide(a.expression(0), a.expression(1)) }},
	{"OperationError", 1, func(a *args) any { return cypher.OperationError(a.anError(0)) }},
	{"OperationMultiply", 2, func(a *args) any { return cypher.OperationMultiply(a.expression(0), a.expression(1)) }},
	{"OperationPow", 2, func(a *args) any { return cypher.OperationPow(a.expression(0), a.expression(1)) }},
	{"OperationRemainder", 2, func(a *args) any { return cypher.OperationRemainder(a.expression(0), a.expression(1)) }},
	{"OperationRemove", 2, func(a *args) any { return cypher.OperationRemove(a.node(0), some(a, 1, a.str)...) }},
	{"OperationSet", 2, func(a *args) any { return cypher.OperationSet(a.expression(0), a.expression(1)) }},
	{"OperationSetLabel", 2, func(a *args) any { return cypher.OperationSetLabel(a.node(0), some(a, 1, a.str)...) }},
	{"OperationSubtract", 2, func(a *args) any { return cypher.OperationSubtract(a.expression(0), a.expression(1)) }},
	{"OperatorCreate", 2, func(a *args) any { return cypher.OperatorCreate(a.str(0), a.operatorType(1)) }},
	{"OperatorError", 1, func(a *args) any { return cypher.OperatorError(a.anError(0)) }},
	{"OrderBuilderCreate", 0, func(a *args) any { return cypher.OrderBuilderCreate() }},
	{"OrderCreate", 1, func(a *args) any { return cypher.OrderCreate(some(a, 0, a.sortItem)) }},
	{"OrdinalDate", 2, func(a *args) any { return cypher.OrdinalDate(a.integer(0), a.integer(1)) }},
	{"ParameterCreate", 1, func(a *args) any { return cypher.ParameterCreate(a.str(0)) }},
	{"ParameterError", 1, func(a *args) any { return cypher.ParameterError(a.anError(0)) }},
	{"PatternComprehensionBasedOn", 1, func(a *args) any { return cypher.PatternComprehensionBasedOn(a.relationshipPattern(0)) }},
	{"PatternComprehensionBasedOnNamePath", 1, func(a *args) any { return cypher.PatternComprehensionBasedOnNamePath(a.namedPath(0)) }},
	{"PatternComprehensionBuilderCreate", 1, func(a *args) any { return cypher.PatternComprehensionBuilderCreate(a.patternElement(0)) }},
	{"PatternComprehensionCreate", 3, func(a *args) any {
		return cypher.PatternComprehensionCreate(a.patternElement(0), a.where(1), a.expression(2))
	}},
	{"PatternComprehensionError", 1, func(a *args) any { return cypher.PatternComprehensionError(a.anError(0)) }},
	{"PatternCreate", 1, func(a *args) any { return cypher.PatternCreate(some(a, 0, a.patternElement)) }},
	{"PatternElementsToVisitables", 1, func(a *args) any { return cypher.PatternElementsToVisitables(some(a, 0, a.patternElement)) }},
	{"PercentileCont", 2, func(a *args) any { return cypher.PercentileCont(a.expression(0), a.float(1)) }},
	{"PercentileContDistinct", 2, func(a *args) any { return cypher.PercentileContDistinct(a.expression(0), a.float(1)) }},
	{"PercentileDisc", 2, func(a *args) any { return cypher.PercentileDisc(a.expression(0), a.float(1)) }},
	{"PercentileDiscDistinct", 2, func(a *args) any { return cypher.PercentileDiscDistinct(a.expression(0), a.float(1)) }},
	{"Point", 1, func(a *args) any { return cypher.Point(a.mapExpression(0)) }},
	{"PointByParameter", 1, func(a *args) any { return cypher.PointByParameter(a.parameter(0)) }},
	{"PredicateAll", 1, func(a *args) any { return cypher.PredicateAll(a.str(0)) }},
	{"PredicateAllBySymbolicName", 1, func(a *args) any { return cypher.PredicateAllBySymbolicName(a.symbolicName(0)) }},
	{"PredicateAny", 1, func(a *args) any { return cypher.PredicateAny(a.str(0)) }},
	{"PredicateAnyBySymbolicName", 1, func(a *args) any { return cypher.PredicateAnyBySymbolicName(a.symbolicName(0)) }},
	{"PredicateBuilderCreate", 2, func(a *args) any { return cypher.PredicateBuilderCreate(a.predicate(0), a.symbolicName(1)) }},
	{"PredicateExists", 1, func(a *args) any { return cypher.PredicateExists(a.property(0)) }},
	{"PredicateExistsByPattern", 1, func(a *args) any { return cypher.PredicateExistsByPattern(a.relationshipPattern(0)) }},
	{"PredicateNone", 1, func(a *args) any { return cypher.PredicateNone(a.str(0)) }},
	{"PredicateNoneBySymbolicName", 1, func(a *args) any { return cypher.PredicateNoneBySymbolicName(a.symbolicName(0)) }},
	{"PredicateSingle", 1, func(a *args) any { return cypher.PredicateSingle(a.str(0)) }},
	{"PredicateSingleBySymbolicName", 1, func(a *args) any { return cypher.PredicateSingleBySymbolicName(a.symbolicName(0)) }},
	{"ProcedureCallCreate", 4, func(a *args) any {
		return cypher.ProcedureCallCreate(a.procedureName(0), a.arguments(1), a.yieldItems(2), a.where(3))
	}},
	{"ProcedureNameCreate", 1, func(a *args) any { return cypher.ProcedureNameCreate(some(a, 0, a.str)...) }},
	{"ProcedureNameCreate1", 1, func(a *args) any { return cypher.ProcedureNameCreate1(a.str(0)) }},
	{"ProcedureNameCreate2", 2, func(a *args) any { return cypher.ProcedureNameCreate2(a.namespace(0), a.str(1)) }},
	{"PropertiesByMapExpression", 1, func(a *args) any { return cypher.PropertiesByMapExpression(a.mapExpression(0)) }},
	{"PropertiesCreate", 1, func(a *args) any { return cypher.PropertiesCreate(a.mapExpression(0)) }},
	{"PropertiesError", 1, func(a *args) any { return cypher.PropertiesError(a.anError(0)) }},
	{"PropertyCreate", 2, func(a *args) any { return cypher.PropertyCreate(a.named(0), a.str(1)) }},
	{"PropertyCreate1", 2, func(a *args) any { return cypher.PropertyCreate1(a.expression(0), a.propertyLookup(1)) }},
	{"PropertyCreate2", 2, func(a *args) any { return cypher.PropertyCreate2(a.expression(0), a.str(1)) }},
	{"PropertyError", 1, func(a *args) any { return cypher.PropertyError(a.anError(0)) }},
	{"PropertyLookupCreate", 1, func(a *args) any { return cypher.PropertyLookupCreate(a.str(0)) }},
	{"QuarterDate", 3, func(a *args) any { return cypher.QuarterDate(a.integer(0), a.integer(1), a.integer(2)) }},
	{"RTL", 0, func(a *args) any { return cypher.RTL() }},
	{"Range", 2, func(a *args) any { return cypher.Range(a.expression(0), a.expression(1)) }},
	{"RangeRaw", 2, func(a *args) any { return cypher.RangeRaw(a.integer(0), a.integer(1)) }},
	{"RangeWithStep", 3, func(a *args) any { return cypher.RangeWithStep(a.expression(0), a.expression(1), a.expression(2)) }},
	{"RangeWithStepRaw", 3, func(a *args) any { return cypher.RangeWithStepRaw(a.integer(0), a.integer(1), a.integer(2)) }},
	{"RawStringLiteralCreate", 1, func(a *args) any { return cypher.RawStringLiteralCreate(a.str(0)) }},
	{"RawStringLiteralError", 1, func(a *args) any { return cypher.RawStringLiteralError(a.anError(0)) }},
	{"RelationshipChainCreate", 1, func(a *args) any { return cypher.RelationshipChainCreate(a.relationship(0)) }},
	{"RelationshipChainError", 1, func(a *args) any { return cypher.RelationshipChainError(a.str(0)) }},
	{"RelationshipCreate", 4, func(a *args) any {
		return cypher.RelationshipCreate(a.node(0), a.direction(1), a.node(2), some(a, 3, a.str)...)
	}},
	{"RelationshipCreate3", 3, func(a *args) any { return cypher.RelationshipCreate3(a.node(0), a.relationshipDetails(1), a.node(2)) }},
	{"RelationshipDetailsCreate", 5, func(a *args) any {
		return cypher.RelationshipDetailsCreate(a.direction(0), a.symbolicName(1), a.relationshipTypes(2), a.relationshipLength(3), a.properties(4))
	}},
	{"RelationshipDetailsCreate1", 2, func(a *args) any { return cypher.RelationshipDetailsCreate1(a.direction(0), a.relationshipTypes(1)) }},
	{"RelationshipDetailsCreate2", 3, func(a *args) any {
		return cypher.RelationshipDetailsCreate2(a.direction(0), a.symbolicName(1), a.relationshipTypes(2))
	}},
	{"RelationshipDetailsError", 1, func(a *args) any { return cypher.RelationshipDetailsError(a.anError(0)) }},
	{"RelationshipError", 1, func(a *args) any { return cypher.RelationshipError(a.anError(0)) }},
	{"RelationshipLengthCreate", 1, func(a *args) any { return cypher.RelationshipLengthCreate(a.boolean(0)) }},
	{"RelationshipLengthCreate1", 2, func(a *args) any { return cypher.RelationshipLengthCreate1(a.integerRef(0), a.integerRef(1)) }},
	{"RelationshipPatternConditionCreate", 1, func(a *args) any { return cypher.RelationshipPatternConditionCreate(a.relationshipPattern(0)) }},
	{"RelationshipPatternConditionError", 1, func(a *args) any { return cypher.RelationshipPatternConditionError(a.anError(0)) }},
	{"RelationshipTypesCreate", 1, func(a *args) any { return cypher.RelationshipTypesCreate(some(a, 0, a.str)) }},
	{"RelationshipTypesError", 1, func(a *args) any { return cypher.RelationshipTypesError(a.anError(0)) }},
	{"Relationships", 1, func(a *args) any { return cypher.Relationships(a.namedPath(0)) }},
	{"RemoveBuilderCreate", 1, func(a *args) any { return cypher.RemoveBuilderCreate(a.expressionList(0)) }},
	{"RemoveCreate", 1, func(a *args) any { return cypher.RemoveCreate(a.expressionList(0)) }},
	{"RemoveError", 1, func(a *args) any { return cypher.RemoveError(a.anError(0)) }},
	{"ReturnBodyCreate", 4, func(a *args) any {
		return cypher.ReturnBodyCreate(a.expressionList(0), a.order(1), a.skip(2), a.limit(3))
	}},
	{"ReturnBodyError", 1, func(a *args) any { return cypher.ReturnBodyError(a.anError(0)) }},
	{"ReturnCreate", 2, func(a *args) any { return cypher.ReturnCreate(a.distinct(0), a.returnBody(1)) }},
	{"ReturnCreate1", 5, func(a *args) any {
		return cypher.ReturnCreate1(a.boolean(0), a.expressionList(1), a.order(2), a.skip(3), a.limit(4))
	}},
	{"ReturnError", 1, func(a *args) any { return cypher.ReturnError(a.anError(0)) }},
	{"SetBuilderCreate", 1, func(a *args) any { return cypher.SetBuilderCreate(a.expressionList(0)) }},
	{"SetCreate", 1, func(a *args) any { return cypher.SetCreate(a.expressionList(0)) }},
	{"SetError", 1, func(a *args) any { return cypher.SetError(a.anError(0)) }},
	{"ShortestPath", 1, func(a *args) any { return cypher.ShortestPath(a.relationship(0)) }},
	{"ShortestPathBuilderCreate", 2, func(a *args) any { return cypher.ShortestPathBuilderCreate(a.symbolicName(0), a.functionDefinition(1)) }},
	{"SimpleCaseCreate", 2, func(a *args) any { return cypher.SimpleCaseCreate(a.expression(0), some(a, 1, a.caseWhenThen)) }},
	{"SimpleCaseCreate1", 1, func(a *args) any { return cypher.SimpleCaseCreate1(a.expression(0)) }},
	{"SinglePartQueryError", 1, func(a *args) any { return cypher.SinglePartQueryError(a.anError(0)) }},
	{"Size", 1, func(a *args) any { return cypher.Size(a.expression(0)) }},
	{"SizeByPattern", 1, func(a *args) any { return cypher.SizeByPattern(a.relationshipPattern(0)) }},
	{"SkipCreate", 1, func(a *args) any { return cypher.SkipCreate(a.integer(0)) }},
	{"Sort", 1, func(a *args) any { return cypher.Sort(a.expression(0)) }},
	{"SortItemCreate", 2, func(a *args) any { return cypher.SortItemCreate(a.expression(0), a.sortDirection(1)) }},
	{"SortItemError", 1, func(a *args) any { return cypher.SortItemError(a.anError(0)) }},
	{"SortItemsOfRaw", 1, func(a *args) any { return cypher.SortItemsOfRaw(some(a, 0, a.str)...) }},
	{"StDev", 1, func(a *args) any { return cypher.StDev(a.expression(0)) }},
	{"StDevDistinct", 1, func(a *args) any { return cypher.StDevDistinct(a.expression(0)) }},
	{"StDevP", 1, func(a *args) any { return cypher.StDevP(a.expression(0)) }},
	{"StDevPDistinct", 1, func(a *args) any { return cypher.StDevPDistinct(a.expression(0)) }},
	{"StandaloneCallBuilderCreate", 1, func(a *args) any { return cypher.StandaloneCallBuilderCreate(a.procedureName(0)) }},
	{"StandaloneCallBuilderError", 1, func(a *args) any { return cypher.StandaloneCallBuilderError(a.anError(0)) }},
	{"StartNode", 1, func(a *args) any { return cypher.StartNode(a.relationship(0)) }},
	{"StatementCall", 1, func(a *args) any { return cypher.StatementCall(some(a, 0, a.str)...) }},
	{"StringLiteralCreate", 1, func(a *args) any { return cypher.StringLiteralCreate(a.str(0)) }},
	{"StringLiteralError", 1, func(a *args) any { return cypher.StringLiteralError(a.anError(0)) }},
	{"SubList", 3, func(a *args) any { return cypher.SubList(a.expression(0), a.expression(1), a.expression(2)) }},
	{"SubListFrom", 2, func(a *args) any { return cypher.SubListFrom(a.expression(0), a.expression(1)) }},
	{"SubListUntil", 2, func(a *args) any { return cypher.SubListUntil(a.expression(0), a.expression(1)) }},
	{"SubqueryCall", 1, func(a *args) any { return cypher.SubqueryCall(a.statement(0)) }},
	{"SubqueryCreate", 1, func(a *args) any { return cypher.SubqueryCreate(a.statement(0)) }},
	{"SubqueryError", 1, func(a *args) any { return cypher.SubqueryError(a.anError(0)) }},
	{"Sum", 1, func(a *args) any { return cypher.Sum(a.expression(0)) }},
	{"SumDistinct", 1, func(a *args) any { return cypher.SumDistinct(a.expression(0)) }},
	{"SymbolicNameCreate", 1, func(a *args) any { return cypher.SymbolicNameCreate(a.str(0)) }},
	{"SymbolicNameError", 1, func(a *args) any { return cypher.SymbolicNameError(a.anError(0)) }},
	{"SymbolicNameUnResolve", 0, func(a *args) any { return cypher.SymbolicNameUnResolve() }},
	{"Time", 0, func(a *args) any { return cypher.Time() }},
	{"TimeWithComponents", 1, func(a *args) any { return cypher.TimeWithComponents(a.mapExpression(0)) }},
	{"TimeWithExpression", 1, func(a *args) any { return cypher.TimeWithExpression(a.expression(0)) }},
	{"TimeWithTemporal", 1, func(a *args) any { return cypher.TimeWithTemporal(a.str(0)) }},
	{"TimeWithTimeZone", 1, func(a *args) any { return cypher.TimeWithTimeZone(a.location(0)) }},
	{"ToLower", 1, func(a *args) any { return cypher.ToLower(a.expression(0)) }},
	{"UNI", 0, func(a *args) any { return cypher.UNI() }},
	{"Union", 1, func(a *args) any { return cypher.Union(some(a, 0, a.statement)...) }},
	{"UnionAll", 1, func(a *args) any { return cypher.UnionAll(some(a, 0, a.statement)...) }},
	{"UnionPartCreate", 2, func(a *args) any { return cypher.UnionPartCreate(a.boolean(0), a.singleQuery(1)) }},
	{"UnionPartError", 1, func(a *args) any { return cypher.UnionPartError(a.anError(0)) }},
	{"UnionQueryCreate", 2, func(a *args) any { return cypher.UnionQueryCreate(a.boolean(0), some(a, 1, a.singleQuery)) }},
	{"UnionQueryError", 1, func(a *args) any { return cypher.UnionQueryError(a.anError(0)) }},
	{"Unwind", 1, func(a *args) any { return cypher.Unwind(a.expression(0)) }},
	{"UnwindMulti", 1, func(a *args) any { return cypher.UnwindMulti(some(a, 0, a.expression)...) }},
	{"ValueAt", 2, func(a *args) any { return cypher.ValueAt(a.expression(0), a.expression(1)) }},
	{"WeekDate", 3, func(a *args) any { return cypher.WeekDate(a.integer(0), a.integer(1), a.integer(2)) }},
	{"WhereCreate", 1, func(a *args) any { return cypher.WhereCreate(a.condition(0)) }},
	{"WhereError", 1, func(a *args) any { return cypher.WhereError(a.anError(0)) }},
	{"With", 1, func(a *args) any { return cypher.With(some(a, 0, a.expression)...) }},
	{"WithByNamed", 1, func(a *args) any { return cypher.WithByNamed(some(a, 0, a.named)...) }},
	{"WithByString", 1, func(a *args) any { return cypher.WithByString(some(a, 0, a.str)...) }},
	{"YieldItemsCreate", 1, func(a *args) any { return cypher.YieldItemsCreate(some(a, 0, a.expression)) }},
	{"YieldItemsError", 1, func(a *args) any { return cypher.YieldItemsError(a.anError(0)) }},
}

var apiMethods = []apiMethod{
	{"Add", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Add(cypher.Expression) cypher.ExpressionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Add(a.expression(0)) }
	}},
	{"Add", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Add(cypher.Relationship) cypher.RelationshipChain
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Add(a.relationship(0)) }
	}},
	{"AddEntries", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			AddEntries([]cypher.Expression) cypher.MapExpression
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.AddEntries(some(a, 0, a.expression)) }
	}},
	{"Aliased", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Aliased(string) cypher.AliasedExpression
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Aliased(a.str(0)) }
	}},
	{"And", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			And(...interface{}) cypher.MapProjection
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.And(some(a, 0, a.any)...) }
	}},
	{"And", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			And(cypher.Condition) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.And(a.condition(0)) }
	}},
	{"And", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			And(cypher.Condition) cypher.OngoingReadingWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.And(a.condition(0)) }
	}},
	{"And", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			And(cypher.Condition) cypher.OrderableOngoingReadingAndWithWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.And(a.condition(0)) }
	}},
	{"And", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			And(cypher.Condition) cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.And(a.condition(0)) }
	}},
	{"And", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			And(cypher.Expression) cypher.TerminalOngoingOrderDefinition
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.And(a.expression(0)) }
	}},
	{"And1", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			And1(cypher.Expression) cypher.OngoingOrderDefinition
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.And1(a.expression(0)) }
	}},
	{"AndPattern", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			AndPattern(cypher.RelationshipPattern) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.AndPattern(a.relationshipPattern(0)) }
	}},
	{"AndPattern", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			AndPattern(cypher.RelationshipPattern) cypher.OngoingReadingWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.AndPattern(a.relationshipPattern(0)) }
	}},
	{"AndPattern", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			AndPattern(cypher.RelationshipPattern) cypher.OrderableOngoingReadingAndWithWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.AndPattern(a.relationshipPattern(0)) }
	}},
	{"AndPattern", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			AndPattern(cypher.RelationshipPattern) cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.AndPattern(a.relationshipPattern(0)) }
	}},
	{"As", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			As(string) cypher.AliasedExpression
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.As(a.str(0)) }
	}},
	{"As", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			As(string) cypher.ExpressionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.As(a.str(0)) }
	}},
	{"As", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			As(string) cypher.OngoingReading
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.As(a.str(0)) }
	}},
	{"AsCondition", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ AsCondition() cypher.Condition })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.AsCondition() }
	}},
	{"AsFunction", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ AsFunction() cypher.Expression })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.AsFunction() }
	}},
	{"AsName", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ AsName() cypher.SymbolicName })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.AsName() }
	}},
	{"AsString", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ AsString() string })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.AsString() }
	}},
	{"Ascending", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Ascending() cypher.OngoingMatchAndReturnWithOrder
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Ascending() }
	}},
	{"Ascending", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Ascending() cypher.OngoingReadingAndWithWithWhereAndOrder
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Ascending() }
	}},
	{"Ascending", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ Ascending() cypher.SortItem })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Ascending() }
	}},
	{"Build", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Build() (cypher.Statement, error)
		})
		if !ok {
			return nil
		}
		return func(a *args) any { r, _ := r.Build(); return r }
	}},
	{"Call", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Call(cypher.Statement) cypher.OngoingReadingWithoutWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Call(a.statement(0)) }
	}},
	{"Call1", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Call1(...string) cypher.OngoingInQueryCallWithoutArguments
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Call1(some(a, 0, a.str)...) }
	}},
	{"Concat", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Concat(cypher.Expression) cypher.ExpressionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Concat(a.expression(0)) }
	}},
	{"Contains", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Contains(cypher.Expression) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Contains(a.expression(0)) }
	}},
	{"Create", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Create(...cypher.PatternElement) cypher.OngoingUpdateAndExposesSet
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Create(some(a, 0, a.patternElement)...) }
	}},
	{"DefinedBy", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			DefinedBy(cypher.Relationship) cypher.NamedPath
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.DefinedBy(a.relationship(0)) }
	}},
	{"DefinedBy", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			DefinedBy(cypher.RelationshipPattern) cypher.NamedPath
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.DefinedBy(a.relationshipPattern(0)) }
	}},
	{"Delete", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Delete(...cypher.Expression) cypher.OngoingUpdate
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Delete(some(a, 0, a.expression)...) }
	}},
	{"DeleteByNamed", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			DeleteByNamed(...cypher.Named) cypher.OngoingUpdate
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.DeleteByNamed(some(a, 0, a.named)...) }
	}},
	{"DeleteByString", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			DeleteByString(...string) cypher.OngoingUpdate
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.DeleteByString(some(a, 0, a.str)...) }
	}},
	{"DeleteDefault", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			DeleteDefault(bool, ...cypher.Expression) cypher.OngoingUpdate
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.DeleteDefault(a.boolean(0), some(a, 1, a.expression)...) }
	}},
	{"Descending", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Descending() cypher.OngoingMatchAndReturnWithOrder
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Descending() }
	}},
	{"Descending", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Descending() cypher.OngoingReadingAndWithWithWhereAndOrder
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Descending() }
	}},
	{"Descending", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ Descending() cypher.SortItem })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Descending() }
	}},
	{"DetachDelete", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			DetachDelete(...cypher.Expression) cypher.OngoingUpdate
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.DetachDelete(some(a, 0, a.expression)...) }
	}},
	{"DetachDeleteByNamed", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			DetachDeleteByNamed(...cypher.Named) cypher.OngoingUpdate
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.DetachDeleteByNamed(some(a, 0, a.named)...) }
	}},
	{"DetachDeleteByString", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			DetachDeleteByString(...string) cypher.OngoingUpdate
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.DetachDeleteByString(some(a, 0, a.str)...) }
	}},
	{"Divide", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Divide(cypher.Expression) cypher.ExpressionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Divide(a.expression(0)) }
	}},
	{"ElseDefault", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			ElseDefault(cypher.Expression) cypher.CaseEnding
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.ElseDefault(a.expression(0)) }
	}},
	{"EndsWith", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			EndsWith(cypher.Expression) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.EndsWith(a.expression(0)) }
	}},
	{"Get", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ Get() cypher.Condition })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Get() }
	}},
	{"Get", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ Get() cypher.Expression })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Get() }
	}},
	{"GetAlias", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ GetAlias() string })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.GetAlias() }
	}},
	{"GetContent", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ GetContent() interface{} })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.GetContent() }
	}},
	{"GetErr", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ GetErr() error })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.GetErr() }
	}},
	{"GetError", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ GetError() error })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.GetError() }
	}},
	{"GetExpressionType", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ GetExpressionType() cypher.ExpressionType })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.GetExpressionType() }
	}},
	{"GetPropertyKeyName", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ GetPropertyKeyName() string })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.GetPropertyKeyName() }
	}},
	{"GetRequiredSymbolicName", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ GetRequiredSymbolicName() cypher.SymbolicName })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.GetRequiredSymbolicName() }
	}},
	{"GetSymbolicName", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ GetSymbolicName() cypher.SymbolicName })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.GetSymbolicName() }
	}},
	{"Gt", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Gt(cypher.Expression) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Gt(a.expression(0)) }
	}},
	{"Gte", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Gte(cypher.Expression) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Gte(a.expression(0)) }
	}},
	{"HasLabels", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			HasLabels(...string) cypher.Condition
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.HasLabels(some(a, 0, a.str)...) }
	}},
	{"In", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			In(cypher.Expression) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.In(a.expression(0)) }
	}},
	{"In", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			In(cypher.Expression) cypher.OngoingDefinitionWithList
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.In(a.expression(0)) }
	}},
	{"In", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			In(cypher.Expression) cypher.OngoingListBasedPredicateFunctionWithList
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.In(a.expression(0)) }
	}},
	{"InternalId", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			InternalId() cypher.FunctionInvocation
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.InternalId() }
	}},
	{"IsEmpty", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			IsEmpty() cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.IsEmpty() }
	}},
	{"IsEqualTo", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			IsEqualTo(cypher.Expression) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.IsEqualTo(a.expression(0)) }
	}},
	{"IsFalse", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			IsFalse() cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.IsFalse() }
	}},
	{"IsNotEqualTo", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			IsNotEqualTo(cypher.Expression) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.IsNotEqualTo(a.expression(0)) }
	}},
	{"IsNotNull", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			IsNotNull() cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.IsNotNull() }
	}},
	{"IsNull", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			IsNull() cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.IsNull() }
	}},
	{"IsPatternElement", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ IsPatternElement() bool })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.IsPatternElement() }
	}},
	{"IsTrue", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			IsTrue() cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.IsTrue() }
	}},
	{"Labels", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Labels() cypher.FunctionInvocation
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Labels() }
	}},
	{"Length", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Length(int, int) cypher.Relationship
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Length(a.integer(0), a.integer(1)) }
	}},
	{"Length", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Length(int, int) cypher.RelationshipChain
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Length(a.integer(0), a.integer(1)) }
	}},
	{"Limit", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Limit(int) cypher.BuildableStatement
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Limit(a.integer(0)) }
	}},
	{"Limit", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Limit(int) cypher.OngoingReadingAndWith
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Limit(a.integer(0)) }
	}},
	{"Lt", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Lt(cypher.Expression) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Lt(a.expression(0)) }
	}},
	{"Lte", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Lte(cypher.Expression) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Lte(a.expression(0)) }
	}},
	{"Match", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Match(...cypher.PatternElement) cypher.OngoingReadingWithoutWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Match(some(a, 0, a.patternElement)...) }
	}},
	{"MatchDefault", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			MatchDefault(bool, ...cypher.PatternElement) cypher.OngoingReadingWithoutWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.MatchDefault(a.boolean(0), some(a, 1, a.patternElement)...) }
	}},
	{"Matches", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Matches(cypher.Expression) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Matches(a.expression(0)) }
	}},
	{"MatchesPattern", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			MatchesPattern(string) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.MatchesPattern(a.str(0)) }
	}},
	{"Max", 1, func(v any) func(a *args) any {
		r, ok := v.(interface{ Max(int) cypher.Relationship })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Max(a.integer(0)) }
	}},
	{"Max", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Max(int) cypher.RelationshipChain
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Max(a.integer(0)) }
	}},
	{"Merge", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Merge(...cypher.PatternElement) cypher.OngoingUpdateAndExposesSet
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Merge(some(a, 0, a.patternElement)...) }
	}},
	{"Min", 1, func(v any) func(a *args) any {
		r, ok := v.(interface{ Min(int) cypher.Relationship })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Min(a.integer(0)) }
	}},
	{"Min", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Min(int) cypher.RelationshipChain
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Min(a.integer(0)) }
	}},
	{"Multiply", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Multiply(cypher.Expression) cypher.ExpressionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Multiply(a.expression(0)) }
	}},
	{"Named", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Named(cypher.SymbolicName) cypher.Node
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Named(a.symbolicName(0)) }
	}},
	{"Named", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Named(string) cypher.Relationship
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Named(a.str(0)) }
	}},
	{"NamedByString", 1, func(v any) func(a *args) any {
		r, ok := v.(interface{ NamedByString(string) cypher.Node })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.NamedByString(a.str(0)) }
	}},
	{"NamedByString", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			NamedByString(string) cypher.Relationship
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.NamedByString(a.str(0)) }
	}},
	{"NamedC", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			NamedC(string) cypher.RelationshipChain
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.NamedC(a.str(0)) }
	}},
	{"Not", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Not() cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Not() }
	}},
	{"OnCreate", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			OnCreate() cypher.OngoingMergeAction
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.OnCreate() }
	}},
	{"OnMatch", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			OnMatch() cypher.OngoingMergeAction
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.OnMatch() }
	}},
	{"OptionalMatch", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			OptionalMatch(...cypher.PatternElement) cypher.OngoingReadingWithoutWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.OptionalMatch(some(a, 0, a.patternElement)...) }
	}},
	{"Or", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Or(cypher.Condition) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Or(a.condition(0)) }
	}},
	{"Or", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Or(cypher.Condition) cypher.OngoingReadingWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Or(a.condition(0)) }
	}},
	{"Or", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Or(cypher.Condition) cypher.OrderableOngoingReadingAndWithWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Or(a.condition(0)) }
	}},
	{"Or", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Or(cypher.Condition) cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Or(a.condition(0)) }
	}},
	{"OrPattern", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			OrPattern(cypher.RelationshipPattern) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.OrPattern(a.relationshipPattern(0)) }
	}},
	{"OrPattern", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			OrPattern(cypher.RelationshipPattern) cypher.OngoingReadingWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.OrPattern(a.relationshipPattern(0)) }
	}},
	{"OrPattern", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			OrPattern(cypher.RelationshipPattern) cypher.OrderableOngoingReadingAndWithWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.OrPattern(a.relationshipPattern(0)) }
	}},
	{"OrPattern", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			OrPattern(cypher.RelationshipPattern) cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.OrPattern(a.relationshipPattern(0)) }
	}},
	{"OrderBy", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			OrderBy(cypher.Expression) cypher.TerminalOngoingOrderDefinition
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.OrderBy(a.expression(0)) }
	}},
	{"OrderByExpression", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			OrderByExpression(cypher.Expression) cypher.OngoingOrderDefinition
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.OrderByExpression(a.expression(0)) }
	}},
	{"OrderBySortItem", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			OrderBySortItem(...cypher.SortItem) cypher.OngoingMatchAndReturnWithOrder
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.OrderBySortItem(some(a, 0, a.sortItem)...) }
	}},
	{"OrderBySortItem", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			OrderBySortItem(...cypher.SortItem) cypher.OrderableOngoingReadingAndWithWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.OrderBySortItem(some(a, 0, a.sortItem)...) }
	}},
	{"Pow", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Pow(cypher.Expression) cypher.ExpressionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Pow(a.expression(0)) }
	}},
	{"PrepareVisit", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			PrepareVisit(cypher.Visitable) cypher.Visitable
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.PrepareVisit(a.visitable(0)) }
	}},
	{"Project", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Project(...interface{}) cypher.MapProjection
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Project(some(a, 0, a.any)...) }
	}},
	{"Properties", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Properties(cypher.MapExpression) cypher.RelationshipChain
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Properties(a.mapExpression(0)) }
	}},
	{"PropertiesRaw", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			PropertiesRaw(...interface{}) cypher.RelationshipChain
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.PropertiesRaw(some(a, 0, a.any)...) }
	}},
	{"Property", 1, func(v any) func(a *args) any {
		r, ok := v.(interface{ Property(string) cypher.Property })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Property(a.str(0)) }
	}},
	{"RelationshipBetween", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			RelationshipBetween(cypher.Node, ...string) cypher.Relationship
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.RelationshipBetween(a.node(0), some(a, 1, a.str)...) }
	}},
	{"RelationshipBetween", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			RelationshipBetween(cypher.Node, ...string) cypher.RelationshipChain
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.RelationshipBetween(a.node(0), some(a, 1, a.str)...) }
	}},
	{"RelationshipBetween", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			RelationshipBetween(cypher.Node, ...string) cypher.RelationshipPattern
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.RelationshipBetween(a.node(0), some(a, 1, a.str)...) }
	}},
	{"RelationshipFrom", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			RelationshipFrom(cypher.Node, ...string) cypher.Relationship
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.RelationshipFrom(a.node(0), some(a, 1, a.str)...) }
	}},
	{"RelationshipFrom", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			RelationshipFrom(cypher.Node, ...string) cypher.RelationshipChain
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.RelationshipFrom(a.node(0), some(a, 1, a.str)...) }
	}},
	{"RelationshipFrom", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			RelationshipFrom(cypher.Node, ...string) cypher.RelationshipPattern
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.RelationshipFrom(a.node(0), some(a, 1, a.str)...) }
	}},
	{"RelationshipTo", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			RelationshipTo(cypher.Node, ...string) cypher.Relationship
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.RelationshipTo(a.node(0), some(a, 1, a.str)...) }
	}},
	{"RelationshipTo", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			RelationshipTo(cypher.Node, ...string) cypher.RelationshipChain
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.RelationshipTo(a.node(0), some(a, 1, a.str)...) }
	}},
	{"RelationshipTo", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			RelationshipTo(cypher.Node, ...string) cypher.RelationshipPattern
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.RelationshipTo(a.node(0), some(a, 1, a.str)...) }
	}},
	{"Remainder", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Remainder(cypher.Expression) cypher.ExpressionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Remainder(a.expression(0)) }
	}},
	{"Remove", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Remove(...cypher.Property) cypher.BuildableStatementAndOngoingMatchAndUpdate
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Remove(some(a, 0, a.property)...) }
	}},
	{"RemoveByNode", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			RemoveByNode(cypher.Node, ...string) cypher.BuildableStatementAndOngoingMatchAndUpdate
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.RemoveByNode(a.node(0), some(a, 1, a.str)...) }
	}},
	{"Render", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Render(cypher.Statement) (string, error)
		})
		if !ok {
			return nil
		}
		return func(a *args) any { r, _ := r.Render(a.statement(0)); return r }
	}},
	{"Renderer", 1, func(v any) func(a *args) any {
		r, ok := v.(interface{ Renderer(cypher.Statement) string })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Renderer(a.statement(0)) }
	}},
	{"Returning", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Returning(...cypher.Expression) cypher.ListComprehension
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Returning(some(a, 0, a.expression)...) }
	}},
	{"Returning", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Returning(...cypher.Expression) cypher.OngoingReadingAndReturn
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Returning(some(a, 0, a.expression)...) }
	}},
	{"Returning", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Returning(...cypher.Expression) cypher.PatternComprehension
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Returning(some(a, 0, a.expression)...) }
	}},
	{"ReturningByNamed", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			ReturningByNamed(...cypher.Named) cypher.ListComprehension
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.ReturningByNamed(some(a, 0, a.named)...) }
	}},
	{"ReturningByNamed", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			ReturningByNamed(...cypher.Named) cypher.OngoingReadingAndReturn
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.ReturningByNamed(some(a, 0, a.named)...) }
	}},
	{"ReturningByNamed", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			ReturningByNamed(...cypher.Named) cypher.PatternComprehension
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.ReturningByNamed(some(a, 0, a.named)...) }
	}},
	{"ReturningByString", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			ReturningByString(...string) cypher.OngoingReadingAndReturn
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.ReturningByString(some(a, 0, a.str)...) }
	}},
	{"ReturningDefault", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			ReturningDefault() cypher.ListComprehension
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.ReturningDefault() }
	}},
	{"ReturningDefault", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			ReturningDefault(bool, ...cypher.Expression) cypher.OngoingReadingAndReturn
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.ReturningDefault(a.boolean(0), some(a, 1, a.expression)...) }
	}},
	{"ReturningDistinct", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			ReturningDistinct(...cypher.Expression) cypher.OngoingReadingAndReturn
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.ReturningDistinct(some(a, 0, a.expression)...) }
	}},
	{"ReturningDistinctByNamed", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			ReturningDistinctByNamed(...cypher.Named) cypher.OngoingReadingAndReturn
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.ReturningDistinctByNamed(some(a, 0, a.named)...) }
	}},
	{"ReturningDistinctByString", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			ReturningDistinctByString(...string) cypher.OngoingReadingAndReturn
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.ReturningDistinctByString(some(a, 0, a.str)...) }
	}},
	{"Set", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Set(...cypher.Expression) cypher.BuildableStatementAndOngoingMatchAndUpdate
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Set(some(a, 0, a.expression)...) }
	}},
	{"Set", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Set(...cypher.Expression) cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Set(some(a, 0, a.expression)...) }
	}},
	{"SetByNode", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			SetByNode(cypher.Node, ...string) cypher.BuildableStatementAndOngoingMatchAndUpdate
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.SetByNode(a.node(0), some(a, 1, a.str)...) }
	}},
	{"SetWithNamed", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			SetWithNamed(cypher.Named, cypher.Expression) cypher.BuildableStatementAndOngoingMatchAndUpdate
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.SetWithNamed(a.named(0), a.expression(1)) }
	}},
	{"SetWithNamed", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			SetWithNamed(cypher.Named, cypher.Expression) cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.SetWithNamed(a.named(0), a.expression(1)) }
	}},
	{"Skip", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Skip(int) cypher.ExposesLimitAndOngoingReadingAndWith
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Skip(a.integer(0)) }
	}},
	{"Skip", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Skip(int) cypher.TerminalExposesLimitAndBuildableStatement
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Skip(a.integer(0)) }
	}},
	{"StartWiths", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			StartWiths(cypher.Expression) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.StartWiths(a.expression(0)) }
	}},
	{"Subtract", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Subtract(cypher.Expression) cypher.ExpressionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Subtract(a.expression(0)) }
	}},
	{"Then", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Then(cypher.Expression) cypher.CaseEnding
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Then(a.expression(0)) }
	}},
	{"To", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			To(cypher.Expression) cypher.Operation
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.To(a.expression(0)) }
	}},
	{"Unbounded", 0, func(v any) func(a *args) any {
		r, ok := v.(interface{ Unbounded() cypher.Relationship })
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Unbounded() }
	}},
	{"Unbounded", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Unbounded() cypher.RelationshipChain
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Unbounded() }
	}},
	{"Unbounded", 0, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Unbounded() cypher.RelationshipLength
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Unbounded() }
	}},
	{"Unwind", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Unwind(cypher.Expression) cypher.OngoingUnwind
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Unwind(a.expression(0)) }
	}},
	{"UnwindByString", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			UnwindByString(string) cypher.OngoingUnwind
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.UnwindByString(a.str(0)) }
	}},
	{"Unwinds", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Unwinds(...cypher.Expression) cypher.OngoingUnwind
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Unwinds(some(a, 0, a.expression)...) }
	}},
	{"When", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			When(cypher.Expression) cypher.OngoingWhenThen
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.When(a.expression(0)) }
	}},
	{"Where", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Where(cypher.Condition) cypher.Condition
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Where(a.condition(0)) }
	}},
	{"Where", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Where(cypher.Condition) cypher.OngoingDefinitionWithoutReturn
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Where(a.condition(0)) }
	}},
	{"Where", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Where(cypher.Condition) cypher.OngoingReadingWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Where(a.condition(0)) }
	}},
	{"Where", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Where(cypher.Condition) cypher.OrderableOngoingReadingAndWithWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Where(a.condition(0)) }
	}},
	{"Where", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Where(cypher.Condition) cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Where(a.condition(0)) }
	}},
	{"WhereConditionContainer", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WhereConditionContainer(cypher.ConditionContainer) cypher.OngoingReadingWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WhereConditionContainer(a.conditionContainer(0)) }
	}},
	{"WherePattern", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WherePattern(cypher.RelationshipPattern) cypher.OngoingReadingWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WherePattern(a.relationshipPattern(0)) }
	}},
	{"WherePattern", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WherePattern(cypher.RelationshipPattern) cypher.OrderableOngoingReadingAndWithWithWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WherePattern(a.relationshipPattern(0)) }
	}},
	{"WherePattern", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WherePattern(cypher.RelationshipPattern) cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WherePattern(a.relationshipPattern(0)) }
	}},
	{"With", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			With(...cypher.Expression) cypher.OrderableOngoingReadingAndWithWithoutWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.With(some(a, 0, a.expression)...) }
	}},
	{"WithArgs", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WithArgs(...cypher.Expression) cypher.OngoingInQueryCallWithArguments
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WithArgs(some(a, 0, a.expression)...) }
	}},
	{"WithArgs", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WithArgs(...cypher.Expression) cypher.OngoingStandaloneCallWithoutArguments
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WithArgs(some(a, 0, a.expression)...) }
	}},
	{"WithByNamed", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WithByNamed(...cypher.Named) cypher.OrderableOngoingReadingAndWithWithoutWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WithByNamed(some(a, 0, a.named)...) }
	}},
	{"WithByString", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WithByString(...string) cypher.OrderableOngoingReadingAndWithWithoutWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WithByString(some(a, 0, a.str)...) }
	}},
	{"WithDefault", 2, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WithDefault(bool, ...cypher.Expression) cypher.OrderableOngoingReadingAndWithWithoutWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WithDefault(a.boolean(0), some(a, 1, a.expression)...) }
	}},
	{"WithDistinct", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WithDistinct(...cypher.Expression) cypher.OrderableOngoingReadingAndWithWithoutWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WithDistinct(some(a, 0, a.expression)...) }
	}},
	{"WithDistinctByNamed", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WithDistinctByNamed(...cypher.Named) cypher.OrderableOngoingReadingAndWithWithoutWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WithDistinctByNamed(some(a, 0, a.named)...) }
	}},
	{"WithDistinctByString", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WithDistinctByString(...string) cypher.OrderableOngoingReadingAndWithWithoutWhere
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WithDistinctByString(some(a, 0, a.str)...) }
	}},
	{"WithProperties", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WithProperties(cypher.MapExpression) cypher.Node
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WithProperties(a.mapExpression(0)) }
	}},
	{"WithProperties", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WithProperties(cypher.MapExpression) cypher.Relationship
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WithProperties(a.mapExpression(0)) }
	}},
	{"WithRawProperties", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WithRawProperties(...interface{}) cypher.Node
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WithRawProperties(some(a, 0, a.any)...) }
	}},
	{"WithRawProperties", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			WithRawProperties(...interface{}) cypher.Relationship
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.WithRawProperties(some(a, 0, a.any)...) }
	}},
	{"Xor", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Xor(cypher.Condition) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Xor(a.condition(0)) }
	}},
	{"XorPattern", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			XorPattern(cypher.RelationshipPattern) cypher.ConditionContainer
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.XorPattern(a.relationshipPattern(0)) }
	}},
	{"Yield", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Yield(...cypher.AliasedExpression) cypher.OngoingInQueryCallWithReturnFields
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Yield(some(a, 0, a.aliasedExpression)...) }
	}},
	{"Yield", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			Yield(...cypher.AliasedExpression) cypher.OngoingStandaloneCallWithReturnFields
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.Yield(some(a, 0, a.aliasedExpression)...) }
	}},
	{"YieldString", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			YieldString(...string) cypher.OngoingInQueryCallWithReturnFields
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.YieldString(some(a, 0, a.str)...) }
	}},
	{"YieldString", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			YieldString(...string) cypher.OngoingStandaloneCallWithReturnFields
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.YieldString(some(a, 0, a.str)...) }
	}},
	{"YieldSymbolic", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			YieldSymbolic(...cypher.SymbolicName) cypher.OngoingInQueryCallWithReturnFields
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.YieldSymbolic(some(a, 0, a.symbolicName)...) }
	}},
	{"YieldSymbolic", 1, func(v any) func(a *args) any {
		r, ok := v.(interface {
			YieldSymbolic(...cypher.SymbolicName) cypher.OngoingStandaloneCallWithReturnFields
		})
		if !ok {
			return nil
		}
		return func(a *args) any { return r.YieldSymbolic(some(a, 0, a.symbolicName)...) }
	}},
}

// Not called, for a parameter or result that users have no values of:
//
//   DefaultOngoingUnwindCreate (*cypher.DefaultStatementBuilder)
//   DefaultStatementBuilder.AddWith (cypher.withcypher.DefaultStatementBuilder)
//   DefaultStatementBuilder.BuildImpl (cypher.Returncypher.Statement)
//   DefaultStatementBuilderCreate1 (cypher.ProcedureCallBuilder)
//   DefaultStatementWithUpdateBuilderCreate (*cypher.DefaultStatementBuilder)
//   DefaultStatementWithUpdateBuilderCreate1 (*cypher.DefaultStatementBuilder)
//   DefaultStatementWithUpdateBuilderCreate2 (*cypher.DefaultStatementBuilder)
//   DefaultStatementWithWithBuilderCreate (*cypher.DefaultStatementBuilder)
//   ExistentialSubqueryCreate (cypher.MatchPhrase)
//   ExistentialSubqueryExists (cypher.MatchPhrase)
//   InQueryCallBuilderCreate (*cypher.DefaultStatementBuilder)
//   MergeActionCreate (cypher.Set)
//   MultiPartElementCreate (cypher.with)
//   MultiPartQueryCreate (cypher.MultiPartElement)
//   OngoingMergeActionInBuilderCreate (*cypher.DefaultStatementBuilder)
//   OngoingWhenThenCreate (*cypher.Case)
//   SinglePartQueryCreate (cypher.Return)
//   VisitIfNotNull (*cypher.CypherRenderer)
