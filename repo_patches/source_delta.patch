From e201e281d4ecf4aa18f2f518b68f6102706ce027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 01/33] fix: give every element a unique, never reused identity

Identities were memory addresses, which are reused after a garbage
collection, and several constructors left them (or notNil) unset, so that
unrelated elements were confused or dropped while rendering.
---
 cypher.go               |  9 +--------
 distinct_expression.go  |  5 +----
 function_invocation.go  |  4 +---
 node.go                 |  6 ++++--
 relationship_chain.go   |  4 +++-
 relationship_details.go |  4 +++-
 sort_item.go            |  9 ++++-----
 support.go              | 10 ++++++++--
 8 files changed, 25 insertions(+), 26 deletions(-)

diff --git a/cypher.go b/cypher.go
index 9d89e1e..959ad46 100644
--- a/cypher.go
+++ b/cypher.go
@@ -14,14 +14,7 @@ import (
  * @return A new node representation
  */
 func NewNodeWithLabels(primaryLabel string, additionalLabel ...string) Node {
-	var labels = make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
-	for _, label := range additionalLabel {
-		labels = append(labels, NodeLabel{value: label})
-	}
-	return Node{
-		labels: labels,
-	}
+	return NodeCreate3(primaryLabel, additionalLabel...)
 }
 
 /**
diff --git a/distinct_expression.go b/distinct_expression.go
index a61612d..c6eb513 100644
--- a/distinct_expression.go
+++ b/distinct_expression.go
@@ -35,10 +35,7 @@ func (d DistinctExpression) isNotNil() bool {
 
 func (d DistinctExpression) accept(visitor *CypherRenderer) {
 	visitor.enter(d)
-	distinct := Distinct{
-		IsDistinct: false,
-	}
-	distinct.accept(visitor)
+	DISTINCT_INSTANCE.accept(visitor)
 	d.delegate.accept(visitor)
 	visitor.leave(d)
 }
diff --git a/function_invocation.go b/function_invocation.go
index 4467e61..8ca004c 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -119,9 +119,7 @@ func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions
 		return FunctionInvocationError(errors.Errorf("expression for %s is required", definition.getImplementationName()))
 	}
 	arguments := make([]Visitable, 0)
-	arguments = append(arguments, DistinctExpression{
-		delegate: expressions[0],
-	})
+	arguments = append(arguments, DistinctExpressionCreate(expressions[0]))
 	for _, expression := range expressions[1:] {
 		arguments = append(arguments, expression)
 	}
diff --git a/node.go b/node.go
index c6b77af..56cbdb8 100644
--- a/node.go
+++ b/node.go
@@ -17,6 +17,7 @@ func NodeCreate() Node {
 	node := Node{
 		notNil: true,
 	}
+	node.injectKey()
 	return node
 }
 
@@ -30,7 +31,7 @@ func NodeCreate1(primaryLabel string, properties Properties, additionalLabels ..
 		}
 	}
 	labels := make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
+	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabels {
 		labels = append(labels, NodeLabelCreate(label))
 	}
@@ -67,12 +68,13 @@ func NodeCreate3(primaryLabel string, additionalLabel ...string) Node {
 		}
 	}
 	var labels = make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
+	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabel {
 		labels = append(labels, NodeLabelCreate(label))
 	}
 	node := Node{
 		labels: labels,
+		notNil: true,
 	}
 	node.injectKey()
 	return node
diff --git a/relationship_chain.go b/relationship_chain.go
index 6cb37c9..91c68e0 100644
--- a/relationship_chain.go
+++ b/relationship_chain.go
@@ -12,7 +12,9 @@ type RelationshipChain struct {
 func RelationshipChainCreate(relationship Relationship) RelationshipChain {
 	relations := make([]Relationship, 1)
 	relations[0] = relationship
-	return RelationshipChain{relationships: relations, notNil: true}
+	chain := RelationshipChain{relationships: relations, notNil: true}
+	chain.key = getAddress(&chain)
+	return chain
 }
 
 func RelationshipChainError(msg string) RelationshipChain {
diff --git a/relationship_details.go b/relationship_details.go
index 622e5f7..ae278cf 100644
--- a/relationship_details.go
+++ b/relationship_details.go
@@ -57,7 +57,7 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 	if properties.GetError() != nil {
 		return RelationshipDetailsError(properties.GetError())
 	}
-	return RelationshipDetails{
+	r := RelationshipDetails{
 		direction:    direction,
 		symbolicName: symbolicName,
 		types:        types,
@@ -65,6 +65,8 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 		properties:   properties,
 		notNil:       true,
 	}
+	r.key = getAddress(&r)
+	return r
 }
 
 func RelationshipDetailsError(err error) RelationshipDetails {
diff --git a/sort_item.go b/sort_item.go
index 5ef4f7f..3faeb37 100644
--- a/sort_item.go
+++ b/sort_item.go
@@ -12,9 +12,11 @@ func SortItemCreate(expression Expression, direction SortDirectionRaw) SortItem
 	if expression != nil && expression.GetError() != nil {
 		return SortItemError(expression.GetError())
 	}
+	sortDirection := SortDirection{value: direction}
+	sortDirection.key = getAddress(&sortDirection)
 	sortItem := SortItem{
 		expression: expression,
-		direction:  SortDirection{value: direction},
+		direction:  sortDirection,
 		notNil:     true,
 	}
 	sortItem.key = getAddress(&sortItem)
@@ -42,10 +44,7 @@ func (item SortItem) Ascending() SortItem {
 }
 
 func (item SortItem) Descending() SortItem {
-	return SortItem{
-		expression: item.expression,
-		direction:  SortDirection{value: DESC},
-	}
+	return SortItemCreate(item.expression, DESC)
 }
 
 func (item SortItem) accept(visitor *CypherRenderer) {
diff --git a/support.go b/support.go
index 1e177de..f5f5fb5 100644
--- a/support.go
+++ b/support.go
@@ -1,8 +1,9 @@
 package cypher
 
 import (
-	"fmt"
 	"github.com/rs/xid"
+	"strconv"
+	"sync/atomic"
 )
 
 var SYMBOLIC_GENERATOR = xid.New()
@@ -23,7 +24,12 @@ func PatternElementsToVisitables(patterns []PatternElement) []Visitable {
 	return visitables
 }
 
+var lastKey uint64
+
+// getAddress returns the identity of a newly created element. It is never
+// handed out twice: memory addresses are reused after a garbage collection,
+// so they can not serve as identity.
 func getAddress(a interface{}) string {
-	return fmt.Sprintf("%p", a)
+	return strconv.FormatUint(atomic.AddUint64(&lastKey, 1), 10)
 }
 
-- 
2.43.0


From ec474fed37c8ca0a12b4687654e3f9e444959591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:26 +0000
Subject: [PATCH 02/33] fix: do not confuse differently named nodes, escape
 repeated node names

A node derived from another one by giving it a new name shares its identity
and lost its labels; the second mention of a node was rendered unescaped.
---
 node.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 56cbdb8..d94942a 100644
--- a/node.go
+++ b/node.go
@@ -146,10 +146,11 @@ func (node Node) enter(renderer *CypherRenderer) {
 	if !node.hasSymbolic() {
 		return
 	}
-	_, renderer.skipNodeContent = renderer.visitedNamed[node.key]
-	renderer.visitedNamed[node.key] = 1
+	identity := node.key + " " + node.symbolicName.value
+	_, renderer.skipNodeContent = renderer.visitedNamed[identity]
+	renderer.visitedNamed[identity] = 1
 	if renderer.skipNodeContent {
-		renderer.append(node.symbolicName.value)
+		renderer.append(renderer.resolve(node.symbolicName))
 	}
 }
 
-- 
2.43.0


From c19d28406d41ede7f37d7e6b2432db67c399bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 03/33] fix: escape UNWIND variables and parameter names

---
 parameter.go | 23 ++++++++++++++++++++++-
 unwind.go    |  2 +-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/parameter.go b/parameter.go
index 1ab0a93..e34007f 100644
--- a/parameter.go
+++ b/parameter.go
@@ -45,7 +45,28 @@ func (p Parameter) accept(visitor *CypherRenderer) {
 }
 
 func (p Parameter) enter(renderer *CypherRenderer) {
-	renderer.append("$").append(p.name)
+	renderer.append("$").append(p.escapedName())
+}
+
+// escapedName keeps a dotted path of plain identifiers ("point.distance"), which
+// addresses a property of a parameter, and escapes every other name as a whole.
+func (p Parameter) escapedName() string {
+	for _, segment := range strings.Split(p.name, ".") {
+		if !isIdentifier(segment) && !isNumeric(segment) {
+			return EscapeIfNecessary(p.name)
+		}
+	}
+	return p.name
+}
+
+// isNumeric tells whether the name is a positional parameter such as "0".
+func isNumeric(name string) bool {
+	for _, c := range name {
+		if c < '0' || c > '9' {
+			return false
+		}
+	}
+	return name != ""
 }
 
 func (p Parameter) leave(renderer *CypherRenderer) {
diff --git a/unwind.go b/unwind.go
index bf93a89..52312e4 100644
--- a/unwind.go
+++ b/unwind.go
@@ -47,7 +47,7 @@ func (u UnwindPhrase) enter(renderer *CypherRenderer) {
 
 func (u UnwindPhrase) leave(renderer *CypherRenderer) {
 	renderer.append(" AS ")
-	renderer.append(u.variable)
+	renderer.append(EscapeIfNecessary(u.variable))
 	renderer.append(" ")
 }
 
-- 
2.43.0


From 470427df03d928e1f0a4d1abbf9b1d6f05da1f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:06 +0000
Subject: [PATCH 04/33] fix: start every rendering with a fresh state

---
 cypher_renderer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index d3be5ac..65c3139 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -46,8 +46,11 @@ func (renderer CypherRenderer) Render(statement Statement) (string, error) {
 	if statement.GetError() != nil {
 		return "", statement.GetError()
 	}
-	statement.accept(&renderer)
-	return strings.TrimSpace(renderer.builder.String()), nil
+	// Nothing of an earlier rendering may influence this one.
+	current := NewRenderer()
+	current.guid = renderer.guid
+	statement.accept(current)
+	return strings.TrimSpace(current.builder.String()), nil
 }
 
 func (renderer *CypherRenderer) enableSeparator(level int, on bool) {
-- 
2.43.0


From b0f10fd1ab8f4175c4c2756a9db3ae9a22aef26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 05/33] fix: fail the rendering when a part of the statement
 carries an error

---
 alias_expression.go               |  2 +-
 arguments.go                      |  2 +-
 boolean_function_condition.go     |  2 +-
 case.go                           | 12 ++++++------
 comparison.go                     |  6 +++---
 compound_condition.go             |  2 +-
 constant_condition.go             |  2 +-
 create.go                         |  2 +-
 cypher_renderer.go                | 11 +++++++++++
 delete.go                         |  2 +-
 distinct_expression.go            |  4 ++--
 entry_expression.go               |  2 +-
 excluded_pattern.go               |  4 ++--
 existential_subquery.go           |  2 +-
 expression_list.go                |  2 +-
 function_invocation.go            |  2 +-
 has_label_condition.go            |  4 ++--
 key_value_map_entry.go            |  2 +-
 limit.go                          |  2 +-
 list_comprehension.go             | 10 +++++-----
 list_expression.go                |  2 +-
 list_literal.go                   |  2 +-
 list_operator.go                  |  4 ++--
 list_predicate.go                 |  8 ++++----
 map_expression.go                 |  2 +-
 map_projection.go                 |  4 ++--
 match.go                          |  2 +-
 merge.go                          |  4 ++--
 merge_action.go                   |  2 +-
 multi_part_query.go               |  4 ++--
 multipart_element.go              |  4 ++--
 name_path.go                      |  6 +++---
 nested_expression.go              |  2 +-
 node.go                           |  2 +-
 node_labels.go                    |  2 +-
 operation.go                      |  6 +++---
 order.go                          |  2 +-
 pattern.go                        |  2 +-
 pattern_comprehension.go          |  6 +++---
 procedure_call.go                 |  2 +-
 properties.go                     |  2 +-
 property.go                       |  4 ++--
 relationship.go                   |  6 +++---
 relationship_chain.go             |  4 ++--
 relationship_pattern_condition.go |  2 +-
 remove.go                         |  2 +-
 return.go                         |  2 +-
 return_body.go                    |  2 +-
 set.go                            |  2 +-
 single_part_query.go              |  2 +-
 skip.go                           |  2 +-
 sort_item.go                      |  4 ++--
 subquery.go                       |  2 +-
 union_part.go                     |  2 +-
 union_query.go                    |  4 ++--
 unwind.go                         |  2 +-
 visitable.go                      | 23 +++++++++++++++++++++--
 visitable_list.go                 |  2 +-
 where.go                          |  2 +-
 with.go                           |  2 +-
 yield_items.go                    |  2 +-
 61 files changed, 125 insertions(+), 95 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index 3030c05..bdc919c 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -60,7 +60,7 @@ func (aliased AliasedExpression) Aliased(newAlias string) AliasedExpression {
 
 func (aliased AliasedExpression) accept(visitor *CypherRenderer) {
 	visitor.enter(aliased)
-	NameOrExpression(aliased.delegate).accept(visitor)
+	visit(NameOrExpression(aliased.delegate), visitor)
 	visitor.leave(aliased)
 }
 
diff --git a/arguments.go b/arguments.go
index 637b22d..8098200 100644
--- a/arguments.go
+++ b/arguments.go
@@ -44,7 +44,7 @@ func (a Arguments) PrepareVisit(child Visitable) Visitable {
 func (a Arguments) accept(visitor *CypherRenderer) {
 	visitor.enter(a)
 	for _, expression := range a.expressions {
-		a.PrepareVisit(expression).accept(visitor)
+		visit(a.PrepareVisit(expression), visitor)
 	}
 	visitor.leave(a)
 }
diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index c6fe40f..b40f153 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -30,7 +30,7 @@ func (b BooleanFunctionCondition) GetError() error {
 }
 
 func (b BooleanFunctionCondition) accept(visitor *CypherRenderer) {
-	b.delegate.accept(visitor)
+	visit(b.delegate, visitor)
 }
 
 func (b BooleanFunctionCondition) enter(renderer *CypherRenderer) {
diff --git a/case.go b/case.go
index 0d82f1a..5017e70 100644
--- a/case.go
+++ b/case.go
@@ -125,13 +125,13 @@ func (c Case) GetError() error {
 func (c Case) accept(visitor *CypherRenderer) {
 	visitor.enter(c)
 	if c.caseExpression != nil && c.caseExpression.isNotNil() {
-		c.caseExpression.accept(visitor)
+		visit(c.caseExpression, visitor)
 	}
 	for _, caseWhenThen := range c.caseWhenThens {
-		caseWhenThen.accept(visitor)
+		visit(caseWhenThen, visitor)
 	}
 	if c.caseElse.isNotNil() {
-		c.caseElse.accept(visitor)
+		visit(c.caseElse, visitor)
 	}
 	visitor.leave(c)
 }
@@ -252,9 +252,9 @@ func (c CaseWhenThen) GetError() error {
 
 func (c CaseWhenThen) accept(visitor *CypherRenderer) {
 	visitor.enter(c)
-	c.whenExpression.accept(visitor)
+	visit(c.whenExpression, visitor)
 	visitor.leave(c)
-	c.thenExpression.accept(visitor)
+	visit(c.thenExpression, visitor)
 }
 
 func (c CaseWhenThen) enter(renderer *CypherRenderer) {
@@ -296,7 +296,7 @@ func (c CaseElse) GetError() error {
 
 func (c CaseElse) accept(visitor *CypherRenderer) {
 	visitor.enter(c)
-	c.elseExpression.accept(visitor)
+	visit(c.elseExpression, visitor)
 	visitor.leave(c)
 }
 
diff --git a/comparison.go b/comparison.go
index de49515..aceccf2 100644
--- a/comparison.go
+++ b/comparison.go
@@ -97,11 +97,11 @@ func (c Comparison) isNotNil() bool {
 func (c Comparison) accept(visitor *CypherRenderer) {
 	visitor.enter(c)
 	if c.left != nil && c.left.isNotNil() {
-		NameOrExpression(c.left).accept(visitor)
+		visit(NameOrExpression(c.left), visitor)
 	}
-	c.operator.accept(visitor)
+	visit(c.operator, visitor)
 	if c.right != nil && c.right.isNotNil() {
-		NameOrExpression(c.right).accept(visitor)
+		visit(NameOrExpression(c.right), visitor)
 	}
 	visitor.leave(c)
 }
diff --git a/compound_condition.go b/compound_condition.go
index 6d24572..8b8ecdb 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -191,5 +191,5 @@ func (c CompoundCondition) canBeFlattenedWith(operatorBefore Operator) bool {
 
 func acceptVisitorWithOperatorForChildCondition(visitor *CypherRenderer, operator Operator, condition Condition) {
 	VisitIfNotNull(operator, visitor)
-	condition.accept(visitor)
+	visit(condition, visitor)
 }
diff --git a/constant_condition.go b/constant_condition.go
index 8b07d2e..39ee28b 100644
--- a/constant_condition.go
+++ b/constant_condition.go
@@ -34,7 +34,7 @@ func (c ConstantCondition) GetError() error {
 
 func (c ConstantCondition) accept(visitor *CypherRenderer) {
 	visitor.enter(c)
-	c.value.accept(visitor)
+	visit(c.value, visitor)
 	visitor.leave(c)
 }
 
diff --git a/create.go b/create.go
index 3fa2ee9..22cfe8c 100644
--- a/create.go
+++ b/create.go
@@ -31,7 +31,7 @@ func (c create) GetError() error {
 
 func (c create) accept(visitor *CypherRenderer) {
 	visitor.enter(c)
-	c.pattern.accept(visitor)
+	visit(c.pattern, visitor)
 	visitor.leave(c)
 }
 
diff --git a/cypher_renderer.go b/cypher_renderer.go
index 65c3139..b6261a0 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -18,6 +18,14 @@ type CypherRenderer struct {
 	skipNodeContent        bool
 	builder                strings.Builder
 	guid                   xid.ID
+	err                    error
+}
+
+// fail remembers the first error found in the rendered statement.
+func (renderer *CypherRenderer) fail(err error) {
+	if renderer.err == nil {
+		renderer.err = err
+	}
 }
 
 func (renderer *CypherRenderer) append(content string) *CypherRenderer {
@@ -50,6 +58,9 @@ func (renderer CypherRenderer) Render(statement Statement) (string, error) {
 	current := NewRenderer()
 	current.guid = renderer.guid
 	statement.accept(current)
+	if current.err != nil {
+		return "", current.err
+	}
 	return strings.TrimSpace(current.builder.String()), nil
 }
 
diff --git a/delete.go b/delete.go
index 558e14a..d9210fc 100644
--- a/delete.go
+++ b/delete.go
@@ -37,7 +37,7 @@ func (d Delete) GetError() error {
 
 func (d Delete) accept(visitor *CypherRenderer) {
 	visitor.enter(d)
-	d.deleteItems.accept(visitor)
+	visit(d.deleteItems, visitor)
 	visitor.leave(d)
 }
 
diff --git a/distinct_expression.go b/distinct_expression.go
index c6eb513..6c2358f 100644
--- a/distinct_expression.go
+++ b/distinct_expression.go
@@ -35,8 +35,8 @@ func (d DistinctExpression) isNotNil() bool {
 
 func (d DistinctExpression) accept(visitor *CypherRenderer) {
 	visitor.enter(d)
-	DISTINCT_INSTANCE.accept(visitor)
-	d.delegate.accept(visitor)
+	visit(DISTINCT_INSTANCE, visitor)
+	visit(d.delegate, visitor)
 	visitor.leave(d)
 }
 
diff --git a/entry_expression.go b/entry_expression.go
index ee0db5b..38e9503 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -43,7 +43,7 @@ func (e EntryExpression) GetExpressionType() ExpressionType {
 
 func (e EntryExpression) accept(visitor *CypherRenderer) {
 	visitor.enter(e)
-	e.Value.accept(visitor)
+	visit(e.Value, visitor)
 	visitor.leave(e)
 }
 
diff --git a/excluded_pattern.go b/excluded_pattern.go
index 6798cf1..d71c2a3 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -33,8 +33,8 @@ func (e ExcludedPattern) GetError() error {
 
 func (e ExcludedPattern) accept(visitor *CypherRenderer) {
 	visitor.enter(e)
-	NOT.accept(visitor)
-	e.patternElement.accept(visitor)
+	visit(NOT, visitor)
+	visit(e.patternElement, visitor)
 	visitor.leave(e)
 }
 
diff --git a/existential_subquery.go b/existential_subquery.go
index 8f741af..942fb42 100644
--- a/existential_subquery.go
+++ b/existential_subquery.go
@@ -37,7 +37,7 @@ func (e ExistentialSubquery) GetError() error {
 
 func (e ExistentialSubquery) accept(visitor *CypherRenderer) {
 	visitor.enter(e)
-	e.fragment.accept(visitor)
+	visit(e.fragment, visitor)
 	visitor.leave(e)
 }
 
diff --git a/expression_list.go b/expression_list.go
index c9a7596..aab2b3c 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -56,7 +56,7 @@ func (e ExpressionList) PrepareVisit(child Visitable) Visitable {
 func (e ExpressionList) accept(visitor *CypherRenderer) {
 	visitor.enter(e)
 	for _, expression := range e.expressions {
-		e.PrepareVisit(expression).accept(visitor)
+		visit(e.PrepareVisit(expression), visitor)
 	}
 	visitor.leave(e)
 }
diff --git a/function_invocation.go b/function_invocation.go
index 8ca004c..36a4ad4 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -149,7 +149,7 @@ func (f FunctionInvocation) isNotNil() bool {
 
 func (f FunctionInvocation) accept(visitor *CypherRenderer) {
 	visitor.enter(f)
-	f.arguments.accept(visitor)
+	visit(f.arguments, visitor)
 	visitor.leave(f)
 }
 
diff --git a/has_label_condition.go b/has_label_condition.go
index ed13d8a..16d8f37 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -67,9 +67,9 @@ func (h HasLabelCondition) GetError() error {
 
 func (h HasLabelCondition) accept(visitor *CypherRenderer) {
 	visitor.enter(h)
-	h.nodeName.accept(visitor)
+	visit(h.nodeName, visitor)
 	for _, label := range h.nodeLabels {
-		label.accept(visitor)
+		visit(label, visitor)
 	}
 	visitor.leave(h)
 }
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index b4c659a..7c92538 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -34,7 +34,7 @@ func (k KeyValueMapEntry) GetError() error {
 
 func (k KeyValueMapEntry) accept(visitor *CypherRenderer) {
 	visitor.enter(k)
-	k.value.accept(visitor)
+	visit(k.value, visitor)
 	visitor.leave(k)
 }
 
diff --git a/limit.go b/limit.go
index 5a5fd5c..129b228 100644
--- a/limit.go
+++ b/limit.go
@@ -39,7 +39,7 @@ func (l Limit) getKey() string {
 
 func (l Limit) accept(visitor *CypherRenderer) {
 	visitor.enter(l)
-	l.limitAmount.accept(visitor)
+	visit(l.limitAmount, visitor)
 	visitor.leave(l)
 }
 
diff --git a/list_comprehension.go b/list_comprehension.go
index 4feb036..28f9fe2 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -48,13 +48,13 @@ func (l ListComprehension) GetError() error {
 
 func (l ListComprehension) accept(visitor *CypherRenderer) {
 	visitor.enter(l)
-	l.variable.accept(visitor)
-	IN.accept(visitor)
-	l.listExpression.accept(visitor)
+	visit(l.variable, visitor)
+	visit(IN, visitor)
+	visit(l.listExpression, visitor)
 	VisitIfNotNull(l.where, visitor)
 	if l.listDefinition != nil {
-		PIPE.accept(visitor)
-		l.listDefinition.accept(visitor)
+		visit(PIPE, visitor)
+		visit(l.listDefinition, visitor)
 	}
 	visitor.leave(l)
 }
diff --git a/list_expression.go b/list_expression.go
index 9cd5d54..40d5650 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -50,7 +50,7 @@ func (l ListExpression) GetError() error {
 
 func (l ListExpression) accept(visitor *CypherRenderer) {
 	visitor.enter(l)
-	l.content.accept(visitor)
+	visit(l.content, visitor)
 	visitor.leave(l)
 }
 
diff --git a/list_literal.go b/list_literal.go
index 7ada298..38e8795 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -41,7 +41,7 @@ func (l ListLiteral) accept(visitor *CypherRenderer) {
 		if(i > 0) {
 			visitor.append(", ")
 		}
-		literal.accept(visitor)
+		visit(literal, visitor)
 	}
 	visitor.leave(l)
 }
diff --git a/list_operator.go b/list_operator.go
index a11ffc1..e105bd3 100644
--- a/list_operator.go
+++ b/list_operator.go
@@ -131,8 +131,8 @@ func (l ListOperator) GetError() error {
 
 func (l ListOperator) accept(visitor *CypherRenderer) {
 	visitor.enter(l)
-	l.targetExpression.accept(visitor)
-	l.details.accept(visitor)
+	visit(l.targetExpression, visitor)
+	visit(l.details, visitor)
 	visitor.leave(l)
 }
 
diff --git a/list_predicate.go b/list_predicate.go
index a006a80..5adf222 100644
--- a/list_predicate.go
+++ b/list_predicate.go
@@ -41,10 +41,10 @@ func (l ListPredicate) GetError() error {
 
 func (l ListPredicate) accept(visitor *CypherRenderer) {
 	visitor.enter(l)
-	l.variable.accept(visitor)
-	IN.accept(visitor)
-	l.listExpression.accept(visitor)
-	l.where.accept(visitor)
+	visit(l.variable, visitor)
+	visit(IN, visitor)
+	visit(l.listExpression, visitor)
+	visit(l.where, visitor)
 	visitor.leave(l)
 }
 
diff --git a/map_expression.go b/map_expression.go
index 2ea7be0..f8e6ad7 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -76,7 +76,7 @@ func NewMapExpression(objects ...interface{}) MapExpression {
 func (m MapExpression) accept(visitor *CypherRenderer) {
 	visitor.enter(m)
 	for _, child := range m.expressions {
-		m.PrepareVisit(child).accept(visitor)
+		visit(m.PrepareVisit(child), visitor)
 	}
 	visitor.leave(m)
 }
diff --git a/map_projection.go b/map_projection.go
index 090d0f2..c8efcc4 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -59,8 +59,8 @@ func (m MapProjection) GetError() error {
 
 func (m MapProjection) accept(visitor *CypherRenderer) {
 	visitor.enter(m)
-	m.name.accept(visitor)
-	m.mapExpression.accept(visitor)
+	visit(m.name, visitor)
+	visit(m.mapExpression, visitor)
 	visitor.leave(m)
 }
 
diff --git a/match.go b/match.go
index dc124ed..3e4b22f 100644
--- a/match.go
+++ b/match.go
@@ -44,7 +44,7 @@ func (match MatchPhrase) isOptional() bool {
 
 func (match MatchPhrase) accept(visitor *CypherRenderer) {
 	visitor.enter(match)
-	match.pattern.accept(visitor)
+	visit(match.pattern, visitor)
 	VisitIfNotNull(match.optionalWhere, visitor)
 	visitor.leave(match)
 }
diff --git a/merge.go b/merge.go
index 81fdf41..7611eb2 100644
--- a/merge.go
+++ b/merge.go
@@ -60,9 +60,9 @@ func (m merge) GetError() error {
 
 func (m merge) accept(visitor *CypherRenderer) {
 	visitor.enter(m)
-	m.pattern.accept(visitor)
+	visit(m.pattern, visitor)
 	for _, event := range m.onCreateOrMatchEvents {
-		event.accept(visitor)
+		visit(event, visitor)
 	}
 	visitor.leave(m)
 }
diff --git a/merge_action.go b/merge_action.go
index 0ad34d9..74731c2 100644
--- a/merge_action.go
+++ b/merge_action.go
@@ -24,7 +24,7 @@ func (m MergeAction) GetError() error {
 
 func (m MergeAction) accept(visitor *CypherRenderer) {
 	visitor.enter(m)
-	m.set.accept(visitor)
+	visit(m.set, visitor)
 	visitor.leave(m)
 }
 
diff --git a/multi_part_query.go b/multi_part_query.go
index c04645d..0fbba91 100644
--- a/multi_part_query.go
+++ b/multi_part_query.go
@@ -35,9 +35,9 @@ func (m MultiPartQuery) GetError() error {
 
 func (m MultiPartQuery) accept(visitor *CypherRenderer) {
 	for _, part := range m.parts {
-		part.accept(visitor)
+		visit(part, visitor)
 	}
-	m.remainder.accept(visitor)
+	visit(m.remainder, visitor)
 }
 
 func (m MultiPartQuery) enter(renderer *CypherRenderer) {
diff --git a/multipart_element.go b/multipart_element.go
index bb8687d..6b0c695 100644
--- a/multipart_element.go
+++ b/multipart_element.go
@@ -40,9 +40,9 @@ func (m MultiPartElement) GetError() error {
 func (m MultiPartElement) accept(visitor *CypherRenderer) {
 	visitor.enter(m)
 	for _, clause := range m.precedingClauses {
-		clause.accept(visitor)
+		visit(clause, visitor)
 	}
-	m.with.accept(visitor)
+	visit(m.with, visitor)
 	visitor.leave(m)
 }
 
diff --git a/name_path.go b/name_path.go
index ed0148d..df748fc 100644
--- a/name_path.go
+++ b/name_path.go
@@ -98,9 +98,9 @@ func (n NamedPath) IsPatternElement() bool {
 
 func (n NamedPath) accept(visitor *CypherRenderer) {
 	visitor.enter(n)
-	n.name.accept(visitor)
-	ASSIGMENT.accept(visitor)
-	n.pattern.accept(visitor)
+	visit(n.name, visitor)
+	visit(ASSIGMENT, visitor)
+	visit(n.pattern, visitor)
 	visitor.leave(n)
 }
 
diff --git a/nested_expression.go b/nested_expression.go
index bb39916..e46636b 100644
--- a/nested_expression.go
+++ b/nested_expression.go
@@ -33,7 +33,7 @@ func (n NestedExpression) GetError() error {
 
 func (n NestedExpression) accept(visitor *CypherRenderer) {
 	visitor.enter(n)
-	NameOrExpression(n.delegate).accept(visitor)
+	visit(NameOrExpression(n.delegate), visitor)
 	visitor.leave(n)
 }
 
diff --git a/node.go b/node.go
index d94942a..58aec51 100644
--- a/node.go
+++ b/node.go
@@ -135,7 +135,7 @@ func (node Node) accept(visitor *CypherRenderer) {
 	visitor.enter(node)
 	VisitIfNotNull(node.symbolicName, visitor)
 	for _, label := range node.labels {
-		label.accept(visitor)
+		visit(label, visitor)
 	}
 	VisitIfNotNull(node.properties, visitor)
 	visitor.leave(node)
diff --git a/node_labels.go b/node_labels.go
index 3fc7494..64bf09a 100644
--- a/node_labels.go
+++ b/node_labels.go
@@ -32,7 +32,7 @@ func (n NodeLabels) GetError() error {
 func (n NodeLabels) accept(visitor *CypherRenderer) {
 	visitor.enter(n)
 	for _, value := range n.values {
-		value.accept(visitor)
+		visit(value, visitor)
 	}
 	visitor.leave(n)
 }
diff --git a/operation.go b/operation.go
index 9e3f3db..09ce927 100644
--- a/operation.go
+++ b/operation.go
@@ -119,9 +119,9 @@ func (o Operation) GetError() error {
 
 func (o Operation) accept(visitor *CypherRenderer) {
 	visitor.enter(o)
-	NameOrExpression(o.left).accept(visitor)
-	o.operator.accept(visitor)
-	o.right.accept(visitor)
+	visit(NameOrExpression(o.left), visitor)
+	visit(o.operator, visitor)
+	visit(o.right, visitor)
 	visitor.leave(o)
 }
 
diff --git a/order.go b/order.go
index 19cc6ea..54f42df 100644
--- a/order.go
+++ b/order.go
@@ -33,7 +33,7 @@ func (o Order) getKey() string {
 func (o Order) accept(visitor *CypherRenderer) {
 	visitor.enter(o)
 	for _, sortItem := range o.sortItems {
-		o.PrepareVisit(sortItem).accept(visitor)
+		visit(o.PrepareVisit(sortItem), visitor)
 	}
 	visitor.leave(o)
 }
diff --git a/pattern.go b/pattern.go
index dcc9396..b8dd943 100644
--- a/pattern.go
+++ b/pattern.go
@@ -40,7 +40,7 @@ func (p Pattern) PrepareVisit(visitable Visitable) Visitable {
 func (p Pattern) accept(visitor *CypherRenderer) {
 	visitor.enter(p)
 	for _, pattern := range p.patternElements {
-		p.PrepareVisit(pattern).accept(visitor)
+		visit(p.PrepareVisit(pattern), visitor)
 	}
 	visitor.leave(p)
 }
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index ce0f866..42ed445 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -48,10 +48,10 @@ func (p PatternComprehension) GetError() error {
 
 func (p PatternComprehension) accept(visitor *CypherRenderer) {
 	visitor.enter(p)
-	p.pattern.accept(visitor)
+	visit(p.pattern, visitor)
 	VisitIfNotNull(p.where, visitor)
-	PIPE.accept(visitor)
-	p.listDefinition.accept(visitor)
+	visit(PIPE, visitor)
+	visit(p.listDefinition, visitor)
 	visitor.leave(p)
 }
 
diff --git a/procedure_call.go b/procedure_call.go
index fe8fa7e..ef8789d 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -44,7 +44,7 @@ func (p ProcedureCall) GetError() error {
 
 func (p ProcedureCall) accept(visitor *CypherRenderer) {
 	visitor.enter(p)
-	p.name.accept(visitor)
+	visit(p.name, visitor)
 	VisitIfNotNull(p.arguments, visitor)
 	VisitIfNotNull(p.yieldItems, visitor)
 	VisitIfNotNull(p.optionalWhere, visitor)
diff --git a/properties.go b/properties.go
index 555c57d..70ee5d6 100644
--- a/properties.go
+++ b/properties.go
@@ -36,7 +36,7 @@ func (p Properties) GetError() error {
 
 func (p Properties) accept(visitor *CypherRenderer) {
 	visitor.enter(p)
-	p.properties.accept(visitor)
+	visit(p.properties, visitor)
 	visitor.leave(p)
 }
 
diff --git a/property.go b/property.go
index 735bdae..7605be0 100644
--- a/property.go
+++ b/property.go
@@ -78,8 +78,8 @@ func (p Property) isNotNil() bool {
 
 func (p Property) accept(visitor *CypherRenderer) {
 	visitor.enter(p)
-	p.container.accept(visitor)
-	p.name.accept(visitor)
+	visit(p.container, visitor)
+	visit(p.name, visitor)
 	visitor.leave(p)
 }
 
diff --git a/relationship.go b/relationship.go
index 327a29c..9a64f5c 100644
--- a/relationship.go
+++ b/relationship.go
@@ -99,9 +99,9 @@ func (r Relationship) Max(maximum int) Relationship {
 
 func (r Relationship) accept(visitor *CypherRenderer) {
 	visitor.enter(r)
-	r.left.accept(visitor)
-	r.details.accept(visitor)
-	r.right.accept(visitor)
+	visit(r.left, visitor)
+	visit(r.details, visitor)
+	visit(r.right, visitor)
 	visitor.leave(r)
 }
 
diff --git a/relationship_chain.go b/relationship_chain.go
index 91c68e0..7a563fc 100644
--- a/relationship_chain.go
+++ b/relationship_chain.go
@@ -101,8 +101,8 @@ func (r RelationshipChain) accept(visitor *CypherRenderer) {
 	visitor.enter(r)
 	lastNode := Node{}
 	for _, relationship := range r.relationships {
-		relationship.left.accept(visitor)
-		relationship.details.accept(visitor)
+		visit(relationship.left, visitor)
+		visit(relationship.details, visitor)
 		lastNode = relationship.right
 	}
 	VisitIfNotNull(lastNode, visitor)
diff --git a/relationship_pattern_condition.go b/relationship_pattern_condition.go
index 478ec00..0f7fccf 100644
--- a/relationship_pattern_condition.go
+++ b/relationship_pattern_condition.go
@@ -41,7 +41,7 @@ func (r RelationshipPatternCondition) isNotNil() bool {
 
 func (r RelationshipPatternCondition) accept(visitor *CypherRenderer) {
 	visitor.enter(r)
-	r.pathPattern.accept(visitor)
+	visit(r.pathPattern, visitor)
 	visitor.leave(r)
 }
 
diff --git a/remove.go b/remove.go
index 29a8131..41b560c 100644
--- a/remove.go
+++ b/remove.go
@@ -31,7 +31,7 @@ func (r Remove) GetError() error {
 
 func (r Remove) accept(visitor *CypherRenderer) {
 	visitor.enter(r)
-	r.setItems.accept(visitor)
+	visit(r.setItems, visitor)
 	visitor.leave(r)
 }
 
diff --git a/return.go b/return.go
index 9b66f0d..bd60b42 100644
--- a/return.go
+++ b/return.go
@@ -51,7 +51,7 @@ func (r Return) getKey() string {
 func (r Return) accept(visitor *CypherRenderer) {
 	visitor.enter(r)
 	VisitIfNotNull(r.distinct, visitor)
-	r.body.accept(visitor)
+	visit(r.body, visitor)
 	visitor.leave(r)
 }
 
diff --git a/return_body.go b/return_body.go
index 0cd30ff..401b1ba 100644
--- a/return_body.go
+++ b/return_body.go
@@ -59,7 +59,7 @@ func (r ReturnBody) getKey() string {
 }
 
 func (r ReturnBody) accept(visitor *CypherRenderer) {
-	r.returnItems.accept(visitor)
+	visit(r.returnItems, visitor)
 	VisitIfNotNull(r.order, visitor)
 	VisitIfNotNull(r.skip, visitor)
 	VisitIfNotNull(r.limit, visitor)
diff --git a/set.go b/set.go
index 5257ad7..0cb4801 100644
--- a/set.go
+++ b/set.go
@@ -35,7 +35,7 @@ func (s Set) GetError() error {
 
 func (s Set) accept(visitor *CypherRenderer) {
 	visitor.enter(s)
-	s.setItems.accept(visitor)
+	visit(s.setItems, visitor)
 	visitor.leave(s)
 }
 
diff --git a/single_part_query.go b/single_part_query.go
index 256f6b3..31f397e 100644
--- a/single_part_query.go
+++ b/single_part_query.go
@@ -58,7 +58,7 @@ func (s SinglePartQuery) getKey() string {
 
 func (s SinglePartQuery) accept(visitor *CypherRenderer) {
 	for _, clause := range s.precedingClauses {
-		clause.accept(visitor)
+		visit(clause, visitor)
 	}
 	VisitIfNotNull(s.aReturn, visitor)
 }
diff --git a/skip.go b/skip.go
index 55748c9..05ee2e9 100644
--- a/skip.go
+++ b/skip.go
@@ -28,7 +28,7 @@ func (s Skip) getKey() string {
 
 func (s Skip) accept(visitor *CypherRenderer) {
 	visitor.enter(s)
-	s.skipAmount.accept(visitor)
+	visit(s.skipAmount, visitor)
 	visitor.leave(s)
 }
 
diff --git a/sort_item.go b/sort_item.go
index 3faeb37..53dbfc6 100644
--- a/sort_item.go
+++ b/sort_item.go
@@ -49,9 +49,9 @@ func (item SortItem) Descending() SortItem {
 
 func (item SortItem) accept(visitor *CypherRenderer) {
 	visitor.enter(item)
-	NameOrExpression(item.expression).accept(visitor)
+	visit(NameOrExpression(item.expression), visitor)
 	if item.direction.value == ASC || item.direction.value == DESC {
-		item.direction.accept(visitor)
+		visit(item.direction, visitor)
 	}
 	visitor.leave(item)
 }
diff --git a/subquery.go b/subquery.go
index 4586c97..c9a65a0 100644
--- a/subquery.go
+++ b/subquery.go
@@ -55,7 +55,7 @@ func (s Subquery) GetError() error {
 
 func (s Subquery) accept(visitor *CypherRenderer) {
 	visitor.enter(s)
-	s.statement.accept(visitor)
+	visit(s.statement, visitor)
 	visitor.leave(s)
 }
 
diff --git a/union_part.go b/union_part.go
index 2825a5b..898bfa6 100644
--- a/union_part.go
+++ b/union_part.go
@@ -37,7 +37,7 @@ func (u UnionPart) GetError() error {
 
 func (u UnionPart) accept(visitor *CypherRenderer) {
 	visitor.enter(u)
-	u.query.accept(visitor)
+	visit(u.query, visitor)
 	visitor.leave(u)
 }
 
diff --git a/union_query.go b/union_query.go
index 0012ac6..f77d800 100644
--- a/union_query.go
+++ b/union_query.go
@@ -63,9 +63,9 @@ func (q UnionQuery) GetError() error {
 
 func (q UnionQuery) accept(visitor *CypherRenderer) {
 	visitor.enter(q)
-	q.firstQuery.accept(visitor)
+	visit(q.firstQuery, visitor)
 	for _, additionalQuery := range q.additionalQueries {
-		additionalQuery.accept(visitor)
+		visit(additionalQuery, visitor)
 	}
 	visitor.leave(q)
 }
diff --git a/unwind.go b/unwind.go
index 52312e4..71b45ab 100644
--- a/unwind.go
+++ b/unwind.go
@@ -37,7 +37,7 @@ func (u UnwindPhrase) GetError() error {
 
 func (u UnwindPhrase) accept(visitor *CypherRenderer) {
 	visitor.enter(u)
-	u.expressionToUnwind.accept(visitor)
+	visit(u.expressionToUnwind, visitor)
 	visitor.leave(u)
 }
 
diff --git a/visitable.go b/visitable.go
index 1919fa6..14e9534 100644
--- a/visitable.go
+++ b/visitable.go
@@ -1,10 +1,29 @@
 package cypher
 
+import "errors"
+
 func VisitIfNotNull(dest interface{}, visitor *CypherRenderer) {
 	visitable, isVisitable := dest.(Visitable)
-	if isVisitable && visitable.isNotNil() {
-		visitable.accept(visitor)
+	if !isVisitable {
+		return
+	}
+	if visitable.isNotNil() || visitable.GetError() != nil {
+		visit(visitable, visitor)
+	}
+}
+
+// visit renders a required part of a statement. A part that is missing or that
+// carries an error makes the whole rendering fail.
+func visit(part Visitable, visitor *CypherRenderer) {
+	if part == nil {
+		visitor.fail(errors.New("a required part of the statement is missing"))
+		return
+	}
+	if part.GetError() != nil {
+		visitor.fail(part.GetError())
+		return
 	}
+	part.accept(visitor)
 }
 
 type CanHasError interface {
diff --git a/visitable_list.go b/visitable_list.go
index aa56204..fd40912 100644
--- a/visitable_list.go
+++ b/visitable_list.go
@@ -36,7 +36,7 @@ func (v FunctionArgumentList) PrepareVisit(child Visitable) Visitable {
 func (v FunctionArgumentList) accept(visitor *CypherRenderer) {
 	visitor.enter(v)
 	for _, expression := range v.expressions {
-		v.PrepareVisit(expression).accept(visitor)
+		visit(v.PrepareVisit(expression), visitor)
 	}
 	visitor.leave(v)
 }
diff --git a/where.go b/where.go
index 925d645..ccf4b7f 100644
--- a/where.go
+++ b/where.go
@@ -39,7 +39,7 @@ func (w Where) getKey() string {
 
 func (w Where) accept(visitor *CypherRenderer) {
 	visitor.enter(w)
-	w.condition.accept(visitor)
+	visit(w.condition, visitor)
 	visitor.leave(w)
 }
 
diff --git a/with.go b/with.go
index e321cf8..fed9e86 100644
--- a/with.go
+++ b/with.go
@@ -52,7 +52,7 @@ func (with with) GetError() error {
 func (with with) accept(visitor *CypherRenderer) {
 	visitor.enter(with)
 	VisitIfNotNull(with.distinct, visitor)
-	with.body.accept(visitor)
+	visit(with.body, visitor)
 	VisitIfNotNull(with.where, visitor)
 	visitor.leave(with)
 }
diff --git a/yield_items.go b/yield_items.go
index 026a586..e61bdf2 100644
--- a/yield_items.go
+++ b/yield_items.go
@@ -51,7 +51,7 @@ func (e YieldItems) PrepareVisit(child Visitable) Visitable {
 func (e YieldItems) accept(visitor *CypherRenderer) {
 	visitor.enter(e)
 	for _, expression := range e.expressions {
-		e.PrepareVisit(expression).accept(visitor)
+		visit(e.PrepareVisit(expression), visitor)
 	}
 	visitor.leave(e)
 }
-- 
2.43.0


From 36d34f6b5fda1503162d527c86e5c372c3dd7cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:07 +0000
Subject: [PATCH 06/33] fix: propagate errors of literals, yield items, return
 bodies and list predicates

---
 expression_list.go    |  8 ++++----
 list_predicate.go     |  4 ++--
 multi_part_query.go   |  5 ++++-
 raw_string_literal.go |  4 +++-
 return_body.go        |  8 ++++----
 string_literal.go     |  4 +++-
 visitable.go          | 14 ++++++++++++++
 with.go               | 10 +++++-----
 yield_items.go        |  6 +++---
 9 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/expression_list.go b/expression_list.go
index aab2b3c..9db0a0f 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -10,8 +10,8 @@ type ExpressionList struct {
 
 func ExpressionListCreate(expressions []Expression) ExpressionList {
 	for _, expression := range expressions {
-		if expression.GetError() != nil {
-			return ExpressionListError(expression.GetError())
+		if err := errorOf(expression); err != nil {
+			return ExpressionListError(err)
 		}
 	}
 	e := ExpressionList{
@@ -48,7 +48,7 @@ func (e ExpressionList) getKey() string {
 func (e ExpressionList) PrepareVisit(child Visitable) Visitable {
 	expression, isExpression := child.(Expression)
 	if !isExpression {
-		panic("Can not prepare un expression type In expression list")
+		return child
 	}
 	return NameOrExpression(expression)
 }
@@ -72,5 +72,5 @@ func NewExpressionList(expression ...Expression) ExpressionList {
 	for i := range expression {
 		expressions[i] = expression[i]
 	}
-	return ExpressionList{expressions: expressions}
+	return ExpressionListCreate(expressions)
 }
diff --git a/list_predicate.go b/list_predicate.go
index 5adf222..1afbde4 100644
--- a/list_predicate.go
+++ b/list_predicate.go
@@ -15,10 +15,10 @@ func ListPredicateCreate(variable SymbolicName, listExpression Expression, where
 		return ListPredicateError(variable.GetError())
 	}
 	if listExpression != nil && listExpression.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+		return ListPredicateError(listExpression.GetError())
 	}
 	if where.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+		return ListPredicateError(where.GetError())
 	}
 	listPredicate := ListPredicate{
 		variable:       variable,
diff --git a/multi_part_query.go b/multi_part_query.go
index 0fbba91..e63a61e 100644
--- a/multi_part_query.go
+++ b/multi_part_query.go
@@ -20,13 +20,16 @@ func MultiPartQueryCreate(parts []MultiPartElement, remainder SinglePartQuery) M
 	m := MultiPartQuery{
 		parts:     parts,
 		remainder: remainder,
+		notNil:    true,
 	}
 	m.key = getAddress(&m)
 	return m
 }
 
 func MultiPartQueryError(err error) MultiPartQuery {
-	return MultiPartQueryError(err)
+	return MultiPartQuery{
+		err: err,
+	}
 }
 
 func (m MultiPartQuery) GetError() error {
diff --git a/raw_string_literal.go b/raw_string_literal.go
index 682fad6..8ef74c6 100644
--- a/raw_string_literal.go
+++ b/raw_string_literal.go
@@ -19,7 +19,9 @@ func RawStringLiteralCreate(content string) RawStringLiteral {
 }
 
 func RawStringLiteralError(err error) RawStringLiteral {
-	return RawStringLiteralError(err)
+	return RawStringLiteral{
+		err: err,
+	}
 }
 
 func (s RawStringLiteral) GetError() error {
diff --git a/return_body.go b/return_body.go
index 401b1ba..0abd94f 100644
--- a/return_body.go
+++ b/return_body.go
@@ -12,16 +12,16 @@ type ReturnBody struct {
 
 func ReturnBodyCreate(returnItems ExpressionList, order Order, skip Skip, limit Limit) ReturnBody {
 	if returnItems.GetError() != nil {
-		ReturnBodyError(returnItems.GetError())
+		return ReturnBodyError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		ReturnBodyError(order.GetError())
+		return ReturnBodyError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		ReturnBodyError(skip.GetError())
+		return ReturnBodyError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		ReturnBodyError(limit.GetError())
+		return ReturnBodyError(limit.GetError())
 	}
 	r := ReturnBody{
 		returnItems: returnItems,
diff --git a/string_literal.go b/string_literal.go
index 1322ef6..7268682 100644
--- a/string_literal.go
+++ b/string_literal.go
@@ -32,7 +32,9 @@ func StringLiteralCreate(content string) StringLiteral {
 }
 
 func StringLiteralError(err error) StringLiteral {
-	return StringLiteralError(err)
+	return StringLiteral{
+		err: err,
+	}
 }
 
 func (s StringLiteral) GetError() error {
diff --git a/visitable.go b/visitable.go
index 14e9534..b2ace80 100644
--- a/visitable.go
+++ b/visitable.go
@@ -12,6 +12,20 @@ func VisitIfNotNull(dest interface{}, visitor *CypherRenderer) {
 	}
 }
 
+// errorOf returns the first error carried by one of the given parts. A missing
+// part is an error as well.
+func errorOf(parts ...CanHasError) error {
+	for _, part := range parts {
+		if part == nil {
+			return errors.New("a required part of the statement is missing")
+		}
+		if err := part.GetError(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // visit renders a required part of a statement. A part that is missing or that
 // carries an error makes the whole rendering fail.
 func visit(part Visitable, visitor *CypherRenderer) {
diff --git a/with.go b/with.go
index fed9e86..261949a 100644
--- a/with.go
+++ b/with.go
@@ -11,19 +11,19 @@ type with struct {
 
 func withCreate(distinct bool, returnItems ExpressionList, order Order, skip Skip, limit Limit, where Where) with {
 	if returnItems.GetError() != nil {
-		withError(returnItems.GetError())
+		return withError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		withError(order.GetError())
+		return withError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		withError(skip.GetError())
+		return withError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		withError(limit.GetError())
+		return withError(limit.GetError())
 	}
 	if where.GetError() != nil {
-		withError(where.GetError())
+		return withError(where.GetError())
 	}
 	distinctInstance := Distinct{}
 	if distinct {
diff --git a/yield_items.go b/yield_items.go
index e61bdf2..30844d0 100644
--- a/yield_items.go
+++ b/yield_items.go
@@ -14,8 +14,8 @@ func YieldItemsCreate(expressions []Expression) YieldItems {
 		return YieldItemsError(errors.New("can not yield an empty list of items"))
 	}
 	for _, expression := range expressions {
-		if expression.GetError() != nil {
-			return YieldItemsError(expression.GetError())
+		if err := errorOf(expression); err != nil {
+			return YieldItemsError(err)
 		}
 	}
 	yieldItem := YieldItems{
@@ -28,7 +28,7 @@ func YieldItemsCreate(expressions []Expression) YieldItems {
 
 func YieldItemsError(err error) YieldItems {
 	return YieldItems{
-		err: nil,
+		err: err,
 	}
 }
 
-- 
2.43.0


From ef2b6af9e80f9de89393c9233b21a2862314be4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 07/33] fix: statement builders keep clause order, conditions,
 all patterns and errors

---
 arguments.go                      |   8 +-
 boolean_function_condition.go     |   6 +
 comparison.go                     |   4 +-
 compound_condition.go             |   4 +-
 condition_builder.go              |  19 +-
 default_ongoing_unwind.go         |  12 +-
 default_statement_builder.go      | 284 +++++++++++++++++++-----------
 excluded_pattern.go               |  12 +-
 existential_subquery.go           |   6 +-
 expressions.go                    |  12 +-
 in_query_call_builder.go          |  52 ++++--
 match_builder.go                  |   4 +-
 merge.go                          |   2 +-
 merge_action.go                   |   3 +
 pattern.go                        |   9 +-
 procedure_call.go                 |  30 +++-
 relationship_pattern_condition.go |   8 +-
 remove.go                         |   2 +-
 sort_item.go                      |   4 +-
 unwind.go                         |   9 +-
 updating_clause_builder.go        |   6 +-
 where.go                          |   4 +-
 22 files changed, 333 insertions(+), 167 deletions(-)

diff --git a/arguments.go b/arguments.go
index 8098200..ebe4fdc 100644
--- a/arguments.go
+++ b/arguments.go
@@ -9,12 +9,12 @@ type Arguments struct {
 
 func ArgumentsCreate(expression []Expression) Arguments {
 	for _, expr := range expression {
-		if expr != nil && expr.GetError() != nil {
-			return Arguments{err: expr.GetError()}
+		if err := errorOf(expr); err != nil {
+			return Arguments{err: err}
 		}
 	}
 	a := Arguments{
-		expressions: expression,
+		expressions: append([]Expression{}, expression...),
 		notNil:      true,
 	}
 	a.key = getAddress(&a)
@@ -36,7 +36,7 @@ func (a Arguments) getKey() string {
 func (a Arguments) PrepareVisit(child Visitable) Visitable {
 	expression, isExpression := child.(Expression)
 	if !isExpression {
-		panic("Can not prepare un expression type In expression list")
+		return child
 	}
 	return NameOrExpression(expression)
 }
diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index b40f153..c828b8d 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -9,6 +9,9 @@ type BooleanFunctionCondition struct {
 }
 
 func BooleanFunctionConditionCreate(delegate FunctionInvocation) BooleanFunctionCondition {
+	if delegate.GetError() != nil {
+		return BooleanFunctionConditionError(delegate.GetError())
+	}
 	function := BooleanFunctionCondition{
 		delegate: delegate,
 		notNil:   true,
@@ -22,6 +25,7 @@ func BooleanFunctionConditionError(err error) BooleanFunctionCondition {
 	function := BooleanFunctionCondition{
 		err: err,
 	}
+	function.ConditionContainer = ConditionWrap(function)
 	return function
 }
 
@@ -30,7 +34,9 @@ func (b BooleanFunctionCondition) GetError() error {
 }
 
 func (b BooleanFunctionCondition) accept(visitor *CypherRenderer) {
+	visitor.enter(b)
 	visit(b.delegate, visitor)
+	visitor.leave(b)
 }
 
 func (b BooleanFunctionCondition) enter(renderer *CypherRenderer) {
diff --git a/comparison.go b/comparison.go
index aceccf2..8d171df 100644
--- a/comparison.go
+++ b/comparison.go
@@ -81,9 +81,11 @@ func ComparisonCreate1(operator Operator, expression Expression) Comparison {
 }
 
 func ComparisonError(err error) Comparison {
-	return Comparison{
+	c := Comparison{
 		err: err,
 	}
+	c.ConditionContainer = ConditionWrap(c)
+	return c
 }
 
 func (c Comparison) GetError() error {
diff --git a/compound_condition.go b/compound_condition.go
index 8b8ecdb..1f65447 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -63,9 +63,11 @@ func CompoundConditionCreate1(operator Operator) CompoundCondition {
 }
 
 func CompoundConditionError(err error) CompoundCondition {
-	return CompoundCondition{
+	c := CompoundCondition{
 		err: err,
 	}
+	c.ConditionContainer = ConditionWrap(c)
+	return c
 }
 
 func (c CompoundCondition) GetError() error {
diff --git a/condition_builder.go b/condition_builder.go
index 764c75d..c5a4f11 100644
--- a/condition_builder.go
+++ b/condition_builder.go
@@ -13,17 +13,34 @@ func (c *ConditionBuilder) Where(newCondition Condition) {
 }
 
 func (c *ConditionBuilder) And(additionalCondition Condition) {
+	if additionalCondition == nil {
+		return
+	}
+	if c.condition == nil {
+		c.condition = additionalCondition
+		return
+	}
 	c.condition = c.condition.And(additionalCondition).Get()
 }
 
 func (c *ConditionBuilder) Or(additionalCondition Condition) {
+	if additionalCondition == nil {
+		return
+	}
+	if c.condition == nil {
+		c.condition = additionalCondition
+		return
+	}
 	c.condition = c.condition.Or(additionalCondition).Get()
 }
 
 func (c *ConditionBuilder) hasCondition() bool {
-	if c.condition == nil || !c.condition.isNotNil() {
+	if c.condition == nil {
 		return false
 	}
+	if c.condition.GetError() != nil {
+		return true
+	}
 	compound, isCompound := c.condition.(CompoundCondition)
 	return c.condition.isNotNil() && (!isCompound || compound.hasCondition())
 }
diff --git a/default_ongoing_unwind.go b/default_ongoing_unwind.go
index 23f30e1..7cfca0d 100644
--- a/default_ongoing_unwind.go
+++ b/default_ongoing_unwind.go
@@ -22,6 +22,14 @@ func (d DefaultOngoingUnwind) GetError() error {
 }
 
 func (d DefaultOngoingUnwind) As(variable string) OngoingReading {
-	d.defaultBuilder.currentSinglePartElements = append(d.defaultBuilder.currentSinglePartElements, unwindCreate(d.expressionToUnwind, variable))
-	return d.defaultBuilder
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	unwind := unwindCreate(d.expressionToUnwind, variable)
+	if unwind.GetError() != nil {
+		return DefaultStatementBuilderError(unwind.GetError())
+	}
+	builder := *d.defaultBuilder
+	builder.addElement(unwind)
+	return builder
 }
diff --git a/default_statement_builder.go b/default_statement_builder.go
index 44fda57..2944d04 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -22,6 +22,9 @@ func DefaultStatementBuilderCreate() DefaultStatementBuilder {
 }
 
 func DefaultStatementBuilderCreate1(currentOngoingCall ProcedureCallBuilder) DefaultStatementBuilder {
+	if standaloneCall, isStandalone := currentOngoingCall.(StandaloneCallBuilder); isStandalone && standaloneCall.err != nil {
+		return DefaultStatementBuilderError(standaloneCall.err)
+	}
 	return DefaultStatementBuilder{
 		currentOngoingCall:        currentOngoingCall,
 		currentSinglePartElements: make([]Visitable, 0),
@@ -42,8 +45,23 @@ func (d DefaultStatementBuilder) Where(condition Condition) OngoingReadingWithWh
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
-	d.currentOngoingMatch.conditionBuilder.Where(condition)
-	return d
+	return d.changeCondition(func(builder *ConditionBuilder) {
+		builder.Where(condition)
+	})
+}
+
+// changeCondition applies the change to the condition of the clause a WHERE
+// belongs to, which is the ongoing MATCH or the ongoing procedure call.
+func (d DefaultStatementBuilder) changeCondition(change func(builder *ConditionBuilder)) DefaultStatementBuilder {
+	if d.currentOngoingMatch.notNil {
+		change(&d.currentOngoingMatch.conditionBuilder)
+		return d
+	}
+	if d.currentOngoingCall != nil && d.currentOngoingCall.isNotNil() {
+		d.currentOngoingCall = d.currentOngoingCall.changeCondition(change)
+		return d
+	}
+	return DefaultStatementBuilderError(errors.New("a condition requires a preceding MATCH or procedure call"))
 }
 
 func (d DefaultStatementBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -58,7 +76,11 @@ func (d DefaultStatementBuilder) AddWith(with with) DefaultStatementBuilder {
 		return DefaultStatementBuilderError(with.GetError())
 	}
 	if with.isNotNil() {
-		d.multipartElements = append(d.multipartElements, MultiPartElementCreate(d.BuildListOfVisitable(true), with))
+		elements := append([]MultiPartElement{}, d.multipartElements...)
+		d.multipartElements = append(elements, MultiPartElementCreate(d.BuildListOfVisitable(true), with))
+	}
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
 	}
 	return d
 }
@@ -67,8 +89,8 @@ func (d DefaultStatementBuilder) WherePattern(pattern RelationshipPattern) Ongoi
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	if pattern != nil && pattern.GetError() != nil {
-		return DefaultStatementBuilderError(pattern.GetError())
+	if err := errorOf(pattern); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
 	return d.Where(RelationshipPatternConditionCreate(pattern))
 }
@@ -82,8 +104,8 @@ func (d DefaultStatementBuilder) ReturningByNamed(variables ...Named) OngoingRea
 		return DefaultStatementWithReturnBuilderError(d.err)
 	}
 	for _, variable := range variables {
-		if variable != nil && variable.GetError() != nil {
-			return DefaultStatementWithReturnBuilderError(variable.GetError())
+		if err := errorOf(variable); err != nil {
+			return DefaultStatementWithReturnBuilderError(err)
 		}
 	}
 	return d.Returning(CreateSymbolicNameByNamed(variables...)...)
@@ -101,8 +123,8 @@ func (d DefaultStatementBuilder) ReturningDistinctByNamed(variables ...Named) On
 		return DefaultStatementWithReturnBuilderError(d.err)
 	}
 	for _, variable := range variables {
-		if variable != nil && variable.GetError() != nil {
-			return DefaultStatementWithReturnBuilderError(variable.GetError())
+		if err := errorOf(variable); err != nil {
+			return DefaultStatementWithReturnBuilderError(err)
 		}
 	}
 	return d.ReturningDistinct(CreateSymbolicNameByNamed(variables...)...)
@@ -120,8 +142,8 @@ func (d DefaultStatementBuilder) WithByNamed(variables ...Named) OrderableOngoin
 		return DefaultStatementWithWithBuilderError(d.err)
 	}
 	for _, variable := range variables {
-		if variable != nil && variable.GetError() != nil {
-			return DefaultStatementWithWithBuilderError(variable.GetError())
+		if err := errorOf(variable); err != nil {
+			return DefaultStatementWithWithBuilderError(err)
 		}
 	}
 	return d.With(CreateSymbolicNameByNamed(variables...)...)
@@ -132,8 +154,8 @@ func (d DefaultStatementBuilder) With(expressions ...Expression) OrderableOngoin
 		return DefaultStatementWithWithBuilderError(d.err)
 	}
 	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementWithWithBuilderError(expression.GetError())
+		if err := errorOf(expression); err != nil {
+			return DefaultStatementWithWithBuilderError(err)
 		}
 	}
 	return d.WithDefault(false, expressions...)
@@ -151,8 +173,8 @@ func (d DefaultStatementBuilder) WithDistinctByNamed(variables ...Named) Orderab
 		return DefaultStatementWithWithBuilderError(d.err)
 	}
 	for _, variable := range variables {
-		if variable != nil && variable.GetError() != nil {
-			return DefaultStatementWithWithBuilderError(variable.GetError())
+		if err := errorOf(variable); err != nil {
+			return DefaultStatementWithWithBuilderError(err)
 		}
 	}
 	return d.WithDistinct(CreateSymbolicNameByNamed(variables...)...)
@@ -163,8 +185,8 @@ func (d DefaultStatementBuilder) WithDistinct(expressions ...Expression) Orderab
 		return DefaultStatementWithWithBuilderError(d.err)
 	}
 	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementWithWithBuilderError(expression.GetError())
+		if err := errorOf(expression); err != nil {
+			return DefaultStatementWithWithBuilderError(err)
 		}
 	}
 	return d.WithDefault(true, expressions...)
@@ -175,8 +197,8 @@ func (d DefaultStatementBuilder) WithDefault(distinct bool, expressions ...Expre
 		return DefaultStatementWithWithBuilderError(d.err)
 	}
 	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementWithWithBuilderError(expression.GetError())
+		if err := errorOf(expression); err != nil {
+			return DefaultStatementWithWithBuilderError(err)
 		}
 	}
 	ongoingMatchAndWith := DefaultStatementWithWithBuilderCreate(&d, distinct)
@@ -196,8 +218,8 @@ func (d DefaultStatementBuilder) DeleteByNamed(variables ...Named) OngoingUpdate
 		return DefaultStatementBuilderError(d.err)
 	}
 	for _, variable := range variables {
-		if variable != nil && variable.GetError() != nil {
-			return DefaultStatementBuilderError(variable.GetError())
+		if err := errorOf(variable); err != nil {
+			return DefaultStatementBuilderError(err)
 		}
 	}
 	return d.Delete(CreateSymbolicNameByNamed(variables...)...)
@@ -208,8 +230,8 @@ func (d DefaultStatementBuilder) Delete(expressions ...Expression) OngoingUpdate
 		return DefaultStatementBuilderError(d.err)
 	}
 	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementBuilderError(expression.GetError())
+		if err := errorOf(expression); err != nil {
+			return DefaultStatementBuilderError(err)
 		}
 	}
 	return d.Update(UPDATE_TYPE_DELETE, ExpressionsToVisitables(expressions))
@@ -227,8 +249,8 @@ func (d DefaultStatementBuilder) DetachDeleteByNamed(variables ...Named) Ongoing
 		return DefaultStatementBuilderError(d.err)
 	}
 	for _, variable := range variables {
-		if variable != nil && variable.GetError() != nil {
-			return DefaultStatementBuilderError(variable.GetError())
+		if err := errorOf(variable); err != nil {
+			return DefaultStatementBuilderError(err)
 		}
 	}
 	return d.DetachDelete(CreateSymbolicNameByNamed(variables...)...)
@@ -239,8 +261,8 @@ func (d DefaultStatementBuilder) DetachDelete(expressions ...Expression) Ongoing
 		return DefaultStatementBuilderError(d.err)
 	}
 	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementBuilderError(expression.GetError())
+		if err := errorOf(expression); err != nil {
+			return DefaultStatementBuilderError(err)
 		}
 	}
 	return d.Update(UPDATE_TYPE_DETACH_DELETE, ExpressionsToVisitables(expressions))
@@ -251,8 +273,8 @@ func (d DefaultStatementBuilder) Merge(patterns ...PatternElement) OngoingUpdate
 		return DefaultStatementBuilderError(d.err)
 	}
 	for _, pattern := range patterns {
-		if pattern != nil && pattern.GetError() != nil {
-			return DefaultStatementBuilderError(pattern.GetError())
+		if err := errorOf(pattern); err != nil {
+			return DefaultStatementBuilderError(err)
 		}
 	}
 	return d.Update(UPDATE_TYPE_MERGE, PatternElementsToVisitables(patterns))
@@ -263,11 +285,11 @@ func (d DefaultStatementBuilder) Set(expressions ...Expression) BuildableStateme
 		return DefaultStatementBuilderError(d.err)
 	}
 	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementBuilderError(expression.GetError())
+		if err := errorOf(expression); err != nil {
+			return DefaultStatementBuilderError(err)
 		}
 	}
-	d.CloseCurrentOngoingUpdate()
+	d.closeOngoingClause()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_SET, expressions...)
 }
 
@@ -275,13 +297,13 @@ func (d DefaultStatementBuilder) SetWithNamed(variable Named, expression Express
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	if variable != nil && variable.GetError() != nil {
-		return DefaultStatementBuilderError(variable.GetError())
+	if err := errorOf(variable); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
-	if expression != nil && expression.GetError() != nil {
-		return DefaultStatementBuilderError(expression.GetError())
+	if err := errorOf(expression); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
-	return d.Set(variable.GetSymbolicName(), expression)
+	return d.Set(variable.GetRequiredSymbolicName(), expression)
 }
 
 func (d DefaultStatementBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
@@ -291,6 +313,7 @@ func (d DefaultStatementBuilder) SetByNode(node Node, labels ...string) Buildabl
 	if node.GetError() != nil {
 		return DefaultStatementBuilderError(node.GetError())
 	}
+	d.closeOngoingClause()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
 }
 
@@ -301,6 +324,7 @@ func (d DefaultStatementBuilder) RemoveByNode(node Node, labels ...string) Build
 	if node.GetError() != nil {
 		return DefaultStatementBuilderError(node.GetError())
 	}
+	d.closeOngoingClause()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_REMOVE, OperationRemove(node, labels...))
 }
 
@@ -317,6 +341,7 @@ func (d DefaultStatementBuilder) Remove(properties ...Property) BuildableStateme
 	for i := range properties {
 		expressions[i] = properties[i]
 	}
+	d.closeOngoingClause()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_REMOVE, expressions...)
 }
 
@@ -325,8 +350,8 @@ func (d DefaultStatementBuilder) Unwinds(expressions ...Expression) OngoingUnwin
 		return DefaultOngoingUnwindError(d.err)
 	}
 	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultOngoingUnwindError(expression.GetError())
+		if err := errorOf(expression); err != nil {
+			return DefaultOngoingUnwindError(err)
 		}
 	}
 	return d.Unwind(ListOf(expressions...))
@@ -343,10 +368,13 @@ func (d DefaultStatementBuilder) Unwind(expression Expression) OngoingUnwind {
 	if d.err != nil {
 		return DefaultOngoingUnwindError(d.err)
 	}
-	if expression != nil && expression.GetError() != nil {
-		return DefaultOngoingUnwindError(expression.GetError())
+	if err := errorOf(expression); err != nil {
+		return DefaultOngoingUnwindError(err)
+	}
+	d.closeOngoingClause()
+	if d.err != nil {
+		return DefaultOngoingUnwindError(d.err)
 	}
-	d.CloseCurrentOngoingMatch()
 	return DefaultOngoingUnwindCreate(&d, expression)
 }
 
@@ -354,21 +382,19 @@ func (d DefaultStatementBuilder) Call(statement Statement) OngoingReadingWithout
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	if statement != nil && statement.GetError() != nil {
-		return DefaultStatementBuilderError(statement.GetError())
+	if err := errorOf(statement); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
+	d.closeOngoingClause()
 	if d.err != nil {
 		return d
 	}
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingUpdate()
 	singlePart := SubqueryCall(statement)
 	if singlePart.GetError() != nil {
 		d.err = singlePart.GetError()
 		return d
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, singlePart)
+	d.addElement(singlePart)
 	return d
 }
 
@@ -376,16 +402,20 @@ func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingI
 	if d.err != nil {
 		return InQueryCallBuilder{err: d.err}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeOngoingClause()
+	if d.err != nil {
+		return InQueryCallBuilder{err: d.err}
+	}
 	inQueryCallBuilder := InQueryCallBuilderCreate(&d, ProcedureNameCreate(namespaceAndProcedure...))
-	d.currentOngoingCall = inQueryCallBuilder
 	return inQueryCallBuilder
 }
 
 func (d DefaultStatementBuilder) AsCondition() Condition {
-	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 {
-		panic("only simple MATCH statements can be used as existential subqueries")
+	if d.err != nil {
+		return ExistentialSubqueryError(d.err)
+	}
+	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 || len(d.multipartElements) > 0 {
+		return ExistentialSubqueryError(errors.New("only simple MATCH statements can be used as existential subqueries"))
 	}
 	return ExistentialSubqueryExists(d.currentOngoingMatch.buildMatch())
 }
@@ -394,16 +424,20 @@ func (d DefaultStatementBuilder) And(condition Condition) OngoingReadingWithWher
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	d.currentOngoingMatch.conditionBuilder.And(condition)
-	return d
+	if condition != nil && condition.GetError() != nil {
+		return DefaultStatementBuilderError(condition.GetError())
+	}
+	return d.changeCondition(func(builder *ConditionBuilder) {
+		builder.And(condition)
+	})
 }
 
 func (d DefaultStatementBuilder) AndPattern(pattern RelationshipPattern) OngoingReadingWithWhere {
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	if pattern != nil && pattern.GetError() != nil {
-		return DefaultStatementBuilderError(pattern.GetError())
+	if err := errorOf(pattern); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
 	return d.And(RelationshipPatternConditionCreate(pattern))
 }
@@ -415,16 +449,17 @@ func (d DefaultStatementBuilder) Or(condition Condition) OngoingReadingWithWhere
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
-	d.currentOngoingMatch.conditionBuilder.Or(condition)
-	return d
+	return d.changeCondition(func(builder *ConditionBuilder) {
+		builder.Or(condition)
+	})
 }
 
 func (d DefaultStatementBuilder) OrPattern(pattern RelationshipPattern) OngoingReadingWithWhere {
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	if pattern != nil && pattern.GetError() != nil {
-		return DefaultStatementBuilderError(pattern.GetError())
+	if err := errorOf(pattern); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
 	return d.Or(RelationshipPatternConditionCreate(pattern))
 }
@@ -434,8 +469,8 @@ func (d DefaultStatementBuilder) OptionalMatch(patterns ...PatternElement) Ongoi
 		return DefaultStatementBuilderError(d.err)
 	}
 	for _, pattern := range patterns {
-		if pattern != nil && pattern.GetError() != nil {
-			return DefaultStatementBuilderError(pattern.GetError())
+		if err := errorOf(pattern); err != nil {
+			return DefaultStatementBuilderError(err)
 		}
 	}
 	return d.MatchDefault(true, patterns...)
@@ -446,8 +481,8 @@ func (d DefaultStatementBuilder) Create(elements ...PatternElement) OngoingUpdat
 		return DefaultStatementBuilderError(d.err)
 	}
 	for _, element := range elements {
-		if element != nil && element.GetError() != nil {
-			return DefaultStatementBuilderError(element.GetError())
+		if err := errorOf(element); err != nil {
+			return DefaultStatementBuilderError(err)
 		}
 	}
 	return d.Update(UPDATE_TYPE_CREATE, PatternElementsToVisitables(elements))
@@ -477,8 +512,8 @@ func (d DefaultStatementBuilder) Match(patterns ...PatternElement) OngoingReadin
 		return DefaultStatementBuilderError(d.err)
 	}
 	for _, pattern := range patterns {
-		if pattern != nil && pattern.GetError() != nil {
-			return DefaultStatementBuilderError(pattern.GetError())
+		if err := errorOf(pattern); err != nil {
+			return DefaultStatementBuilderError(err)
 		}
 	}
 	return d.MatchDefault(false, patterns...)
@@ -489,22 +524,39 @@ func (d DefaultStatementBuilder) MatchDefault(optional bool, patterns ...Pattern
 		return DefaultStatementBuilderError(d.err)
 	}
 	for _, pattern := range patterns {
-		if pattern != nil && pattern.GetError() != nil {
-			return DefaultStatementBuilderError(pattern.GetError())
+		if err := errorOf(pattern); err != nil {
+			return DefaultStatementBuilderError(err)
 		}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeOngoingClause()
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
 	d.currentOngoingMatch = MatchBuilderCreate(optional)
 	d.currentOngoingMatch.patternList = append(d.currentOngoingMatch.patternList, patterns...)
 	return d
 }
 
+// addElement adds a clause without touching the clauses of builders this
+// builder was copied from.
+func (d *DefaultStatementBuilder) addElement(element Visitable) {
+	elements := append([]Visitable{}, d.currentSinglePartElements...)
+	d.currentSinglePartElements = append(elements, element)
+}
+
+// closeOngoingClause completes the clause that is being built, so that it
+// precedes the next one.
+func (d *DefaultStatementBuilder) closeOngoingClause() {
+	d.CloseCurrentOngoingMatch()
+	d.CloseCurrentOngoingCall()
+	d.CloseCurrentOngoingUpdate()
+}
+
 func (d *DefaultStatementBuilder) CloseCurrentOngoingMatch() {
 	if !d.currentOngoingMatch.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingMatch.buildMatch())
+	d.addElement(d.currentOngoingMatch.buildMatch())
 	d.currentOngoingMatch = MatchBuilder{}
 }
 
@@ -517,7 +569,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingCall() {
 		d.err = err
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, builtCall)
+	d.addElement(builtCall)
 	d.currentOngoingCall = InQueryCallBuilder{}
 }
 
@@ -525,7 +577,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingUpdate() {
 	if !d.currentOngoingUpdate.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingUpdate.builder.build())
+	d.addElement(d.currentOngoingUpdate.builder.build())
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilder{}
 }
 
@@ -542,8 +594,8 @@ func (d DefaultStatementBuilder) ReturningDefault(distinct bool, expressions ...
 		return DefaultStatementWithReturnBuilderError(d.err)
 	}
 	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementWithReturnBuilderError(expression.GetError())
+		if err := errorOf(expression); err != nil {
+			return DefaultStatementWithReturnBuilderError(err)
 		}
 	}
 	withReturnBuilder := DefaultStatementWithReturnBuilder{
@@ -558,11 +610,19 @@ func (d DefaultStatementBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
-	return d.BuildImpl(false, Return{}), nil
+	statement := d.BuildImpl(false, Return{})
+	if statement.GetError() != nil {
+		return nil, statement.GetError()
+	}
+	return statement, nil
 }
 
 func (d DefaultStatementBuilder) BuildImpl(clearCurrentBuildSteps bool, returning Return) Statement {
-	singlePartQuery := SinglePartQueryCreate(d.BuildListOfVisitable(clearCurrentBuildSteps), returning)
+	clauses := d.BuildListOfVisitable(clearCurrentBuildSteps)
+	if d.err != nil {
+		return SinglePartQueryError(d.err)
+	}
+	singlePartQuery := SinglePartQueryCreate(clauses, returning)
 	if len(d.multipartElements) == 0 {
 		return singlePartQuery
 	}
@@ -596,31 +656,39 @@ func (d *DefaultStatementBuilder) BuildListOfVisitable(clearAfter bool) []Visita
 }
 
 func (d *DefaultStatementBuilder) addUpdatingClause(clause UpdatingClause) DefaultStatementBuilder {
-	d.CloseCurrentOngoingMatch()
-	d.currentSinglePartElements = append(d.currentSinglePartElements, clause)
+	d.closeOngoingClause()
+	d.addElement(clause)
 	return *d
 }
 
 func (d *DefaultStatementBuilder) Update(updateType UpdateType, pattern []Visitable) DefaultStatementBuilder {
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingUpdate()
+	d.closeOngoingClause()
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilderCreate1(d, updateType, pattern)
+	if d.err == nil {
+		d.err = d.currentOngoingUpdate.err
+	}
 	return *d
 }
 
 func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visitable) (UpdatingClauseBuilder, error) {
+	if len(patternOrExpression) == 0 {
+		return nil, xerrors.New("at least one pattern or expression is required")
+	}
+	for _, visitable := range patternOrExpression {
+		if err := errorOf(visitable); err != nil {
+			return nil, err
+		}
+	}
 	mergeOrCreate := updateType == UPDATE_TYPE_MERGE || updateType == UPDATE_TYPE_CREATE
 	if mergeOrCreate {
 		patternElements := make([]PatternElement, 0)
 		for _, visitable := range patternOrExpression {
-			patternElements := append(patternElements, visitable.(PatternElement))
-			if updateType == UPDATE_TYPE_CREATE {
-				return CreateBuilderCreate(patternElements), nil
-			} else {
-				return MergeBuilderCreate(patternElements), nil
-			}
+			patternElements = append(patternElements, visitable.(PatternElement))
+		}
+		if updateType == UPDATE_TYPE_CREATE {
+			return CreateBuilderCreate(patternElements), nil
 		}
+		return MergeBuilderCreate(patternElements), nil
 	} else {
 		expressions := make([]Expression, 0)
 		for _, visitable := range patternOrExpression {
@@ -657,6 +725,9 @@ func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, err
 	propertyOperations := make([]Expression, 0)
 	listOfExpressions := make([]Expression, 0)
 	for _, possibleSetOperation := range possibleSetOperations {
+		if err := errorOf(possibleSetOperation); err != nil {
+			return nil, err
+		}
 		if operation, isOperation := possibleSetOperation.(Operation); isOperation {
 			propertyOperations = append(propertyOperations, operation)
 		} else {
@@ -667,7 +738,11 @@ func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, err
 		return nil, xerrors.New("the list of expression to OperationSet must be even")
 	}
 	for i := 0; i < len(listOfExpressions); i += 2 {
-		propertyOperations = append(propertyOperations, OperationSet(listOfExpressions[i], listOfExpressions[i+1]))
+		operation := OperationSet(listOfExpressions[i], listOfExpressions[i+1])
+		if operation.GetError() != nil {
+			return nil, operation.GetError()
+		}
+		propertyOperations = append(propertyOperations, operation)
 	}
 	return propertyOperations, nil
 }
@@ -704,30 +779,33 @@ func (o OngoingMergeActionInBuilder) Set(expressions ...Expression) OngoingMatch
 		return DefaultStatementBuilderError(o.err)
 	}
 	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementBuilderError(expression.GetError())
+		if err := errorOf(expression); err != nil {
+			return DefaultStatementBuilderError(err)
 		}
 	}
-	support := o.defaultBuilder.currentOngoingUpdate.builder.(SupportsActionsOnTheUpdatingClause)
+	if len(expressions) == 0 {
+		return DefaultStatementBuilderError(errors.New("at least one expression is required"))
+	}
+	builder := *o.defaultBuilder
+	support := builder.currentOngoingUpdate.builder.(SupportsActionsOnTheUpdatingClause)
 	newSupport, err := support.on(o.mergeType, expressions...)
-	newMergeBuilder, _ := newSupport.(MergeBuilder)
 	if err != nil {
-		o.defaultBuilder.err = err
-		return o.defaultBuilder
+		return DefaultStatementBuilderError(err)
 	}
-	o.defaultBuilder.currentOngoingUpdate.builder = newMergeBuilder
-	return o.defaultBuilder
+	newMergeBuilder, _ := newSupport.(MergeBuilder)
+	builder.currentOngoingUpdate.builder = newMergeBuilder
+	return builder
 }
 
 func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Expression) OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction {
 	if o.err != nil {
 		return DefaultStatementBuilderError(o.err)
 	}
-	if variable != nil && variable.GetError() != nil {
-		return DefaultStatementBuilderError(variable.GetError())
+	if err := errorOf(variable); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
-	if expression != nil && expression.GetError() != nil {
-		return DefaultStatementBuilderError(expression.GetError())
+	if err := errorOf(expression); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
-	return o.Set(variable.GetSymbolicName(), expression)
+	return o.Set(variable.GetRequiredSymbolicName(), expression)
 }
diff --git a/excluded_pattern.go b/excluded_pattern.go
index d71c2a3..12a67b2 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -9,8 +9,8 @@ type ExcludedPattern struct {
 }
 
 func ExcludedPatternCreate(patternElement PatternElement) ExcludedPattern {
-	if patternElement.GetError() != nil {
-		return ExcludedPatternError(patternElement.GetError())
+	if err := errorOf(patternElement); err != nil {
+		return ExcludedPatternError(err)
 	}
 	e := ExcludedPattern{
 		patternElement: patternElement,
@@ -22,9 +22,11 @@ func ExcludedPatternCreate(patternElement PatternElement) ExcludedPattern {
 }
 
 func ExcludedPatternError(err error) ExcludedPattern {
-	return ExcludedPattern{
+	e := ExcludedPattern{
 		err: err,
 	}
+	e.ConditionContainer = ConditionWrap(e)
+	return e
 }
 
 func (e ExcludedPattern) GetError() error {
@@ -53,9 +55,9 @@ func (e ExcludedPattern) isNotNil() bool {
 }
 
 func (e ExcludedPattern) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return "ExcludedPattern"
 }
 
 func (e ExcludedPattern) getConditionType() string {
-	panic("implement me")
+	return "ExcludedPattern"
 }
diff --git a/existential_subquery.go b/existential_subquery.go
index 942fb42..be6146a 100644
--- a/existential_subquery.go
+++ b/existential_subquery.go
@@ -22,9 +22,11 @@ func ExistentialSubqueryCreate(fragment MatchPhrase) ExistentialSubquery {
 }
 
 func ExistentialSubqueryError(err error) ExistentialSubquery {
-	return ExistentialSubquery{
+	e := ExistentialSubquery{
 		err: err,
 	}
+	e.ConditionContainer = ConditionWrap(e)
+	return e
 }
 
 func ExistentialSubqueryExists(fragment MatchPhrase) ExistentialSubquery {
@@ -58,7 +60,7 @@ func (e ExistentialSubquery) isNotNil() bool {
 }
 
 func (e ExistentialSubquery) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return "ExistentialSubquery"
 }
 
 func (e ExistentialSubquery) getConditionType() string {
diff --git a/expressions.go b/expressions.go
index d5fd352..e9272ad 100644
--- a/expressions.go
+++ b/expressions.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 func NameOrExpression(expression Expression) Expression {
 	named, isNamed := (expression).(Named)
 	if isNamed && named.GetSymbolicName().isNotNil() {
@@ -11,18 +13,18 @@ func NameOrExpression(expression Expression) Expression {
 func CreateSymbolicNameByNamed(nameds ...Named) []Expression {
 	expressions := make([]Expression, 0)
 	for _, named := range nameds {
-		if named != nil {
-			expressions = append(expressions, named.GetSymbolicName())
+		if named == nil {
+			expressions = append(expressions, SymbolicNameError(errors.New("a named element is required")))
+			continue
 		}
+		expressions = append(expressions, named.GetRequiredSymbolicName())
 	}
 	return expressions
 }
 func CreateSymbolicNameByString(args ...string) []Expression {
 	expressions := make([]Expression, 0)
 	for _, arg := range args {
-		if arg != "" {
-			expressions = append(expressions, SymbolicNameCreate(arg))
-		}
+		expressions = append(expressions, SymbolicNameCreate(arg))
 	}
 	return expressions
 }
diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 3fa7feb..11151ca 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -21,8 +21,23 @@ func InQueryCallBuilderCreate(defaultBuilder *DefaultStatementBuilder, procedure
 
 func (i InQueryCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
 	i.conditionBuilder.Where(condition)
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder
+	return i.ongoing()
+}
+
+// ongoing returns a copy of the underlying builder with this call as its
+// ongoing call.
+func (i InQueryCallBuilder) ongoing() DefaultStatementBuilder {
+	if i.err != nil {
+		return DefaultStatementBuilderError(i.err)
+	}
+	builder := *i.defaultBuilder
+	builder.currentOngoingCall = i
+	return builder
+}
+
+func (i InQueryCallBuilder) changeCondition(change func(builder *ConditionBuilder)) ProcedureCallBuilder {
+	change(&i.conditionBuilder)
+	return i
 }
 
 func (i InQueryCallBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -42,8 +57,7 @@ func (i InQueryCallBuilder) ReturningByNamed(variables ...Named) OngoingReadingA
 }
 
 func (i InQueryCallBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Returning(expression...)
+	return i.ongoing().Returning(expression...)
 }
 
 func (i InQueryCallBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -55,25 +69,30 @@ func (i InQueryCallBuilder) ReturningDistinctByNamed(variables ...Named) Ongoing
 }
 
 func (i InQueryCallBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.ReturningDistinct(expression...)
+	return i.ongoing().ReturningDistinct(expression...)
 }
 
 func (i InQueryCallBuilder) Build() (Statement, error) {
+	if i.err != nil {
+		return nil, i.err
+	}
 	argumentsList := Arguments{}
 	if i.arguments == nil || len(i.arguments) > 0 {
 		argumentsList = ArgumentsCreate(i.arguments)
 	}
-	condition := i.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
-		return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems,
-			WhereCreate(condition)), nil
+	where := Where{}
+	if condition := i.conditionBuilder.buildCondition(); condition != nil {
+		where = WhereCreate(condition)
+	}
+	call := ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems, where)
+	if call.GetError() != nil {
+		return nil, call.GetError()
 	}
-	return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems, Where{}), nil
+	return call, nil
 }
 
 func (i InQueryCallBuilder) WithArgs(arguments ...Expression) OngoingInQueryCallWithArguments {
-	i.arguments = arguments
+	i.arguments = append([]Expression{}, arguments...)
 	return i
 }
 
@@ -112,8 +131,7 @@ func (i InQueryCallBuilder) WithByNamed(variables ...Named) OrderableOngoingRead
 }
 
 func (i InQueryCallBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.With(expressions...)
+	return i.ongoing().With(expressions...)
 }
 
 func (i InQueryCallBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -125,13 +143,11 @@ func (i InQueryCallBuilder) WithDistinctByNamed(variables ...Named) OrderableOng
 }
 
 func (i InQueryCallBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.WithDistinct(expressions...)
+	return i.ongoing().WithDistinct(expressions...)
 }
 
 func (i InQueryCallBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Call(statement)
+	return i.ongoing().Call(statement)
 }
 
 func (i InQueryCallBuilder) isNotNil() bool {
diff --git a/match_builder.go b/match_builder.go
index 889d50e..6f161d0 100644
--- a/match_builder.go
+++ b/match_builder.go
@@ -16,10 +16,10 @@ func MatchBuilderCreate(optional bool) MatchBuilder {
 }
 
 func (builder MatchBuilder) buildMatch() MatchPhrase {
-	pattern := Pattern{patternElements: builder.patternList}
+	pattern := PatternCreate(builder.patternList)
 	conditionBuilder := builder.conditionBuilder
 	builtCondition := conditionBuilder.buildCondition()
-	if builtCondition == nil || !builtCondition.isNotNil() {
+	if builtCondition == nil || (!builtCondition.isNotNil() && builtCondition.GetError() == nil) {
 		return MatchPhraseCreate(builder.optional, pattern, Where{})
 	}
 	return MatchPhraseCreate(builder.optional, pattern, WhereCreate(builtCondition))
diff --git a/merge.go b/merge.go
index 7611eb2..90f4070 100644
--- a/merge.go
+++ b/merge.go
@@ -86,5 +86,5 @@ func (m merge) isNotNil() bool {
 }
 
 func (m merge) isUpdatingClause() bool {
-	panic("implement me")
+	return true
 }
diff --git a/merge_action.go b/merge_action.go
index 74731c2..47505d0 100644
--- a/merge_action.go
+++ b/merge_action.go
@@ -9,6 +9,9 @@ type MergeAction struct {
 }
 
 func MergeActionCreate(mergeType MERGE_TYPE, set Set) MergeAction {
+	if set.GetError() != nil {
+		return MergeAction{err: set.GetError()}
+	}
 	m := MergeAction{
 		mergeType: mergeType,
 		set:       set,
diff --git a/pattern.go b/pattern.go
index b8dd943..029e7d5 100644
--- a/pattern.go
+++ b/pattern.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Pattern struct {
 	patternElements []PatternElement
 	key             string
@@ -8,9 +10,12 @@ type Pattern struct {
 }
 
 func PatternCreate(patternElements []PatternElement) Pattern {
+	if len(patternElements) == 0 {
+		return Pattern{err: errors.New("at least one pattern element is required")}
+	}
 	for _, element := range patternElements {
-		if element != nil && element.GetError() != nil {
-			return Pattern{err: element.GetError()}
+		if err := errorOf(element); err != nil {
+			return Pattern{err: err}
 		}
 	}
 	p := Pattern{
diff --git a/procedure_call.go b/procedure_call.go
index ef8789d..e57cd4d 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -131,6 +131,7 @@ type ProcedureCallBuilder interface {
 	ExposesReturning
 	BuildableStatement
 	isNotNil() bool
+	changeCondition(change func(builder *ConditionBuilder)) ProcedureCallBuilder
 }
 
 type StandaloneCallBuilder struct {
@@ -193,6 +194,9 @@ func (s StandaloneCallBuilder) ReturningDistinct(expression ...Expression) Ongoi
 }
 
 func (s StandaloneCallBuilder) Build() (Statement, error) {
+	if s.err != nil {
+		return nil, s.err
+	}
 	if s.procedureName.GetError() != nil {
 		return nil, s.procedureName.GetError()
 	}
@@ -206,15 +210,20 @@ func (s StandaloneCallBuilder) Build() (Statement, error) {
 	if argumentsList.GetError() != nil {
 		return nil, argumentsList.GetError()
 	}
-	condition := s.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
-		if condition.GetError() != nil {
-			return nil, condition.GetError()
-		}
-		return ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems,
-			WhereCreate(condition)), nil
+	where := Where{}
+	if condition := s.conditionBuilder.buildCondition(); condition != nil {
+		where = WhereCreate(condition)
+	}
+	call := ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems, where)
+	if call.GetError() != nil {
+		return nil, call.GetError()
 	}
-	return ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems, Where{}), nil
+	return call, nil
+}
+
+func (s StandaloneCallBuilder) changeCondition(change func(builder *ConditionBuilder)) ProcedureCallBuilder {
+	change(&s.conditionBuilder)
+	return s
 }
 
 func (s StandaloneCallBuilder) isNotNil() bool {
@@ -222,11 +231,14 @@ func (s StandaloneCallBuilder) isNotNil() bool {
 }
 
 func (s StandaloneCallBuilder) AsFunction() Expression {
+	if s.err != nil {
+		return FunctionInvocation{err: s.err}
+	}
 	return FunctionInvocationCreate(FunctionDefinitionDefault{s.procedureName.getQualifiedName()}, s.arguments...)
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
-	s.arguments = arguments
+	s.arguments = append([]Expression{}, arguments...)
 	return s
 }
 
diff --git a/relationship_pattern_condition.go b/relationship_pattern_condition.go
index 0f7fccf..2907feb 100644
--- a/relationship_pattern_condition.go
+++ b/relationship_pattern_condition.go
@@ -9,8 +9,8 @@ type RelationshipPatternCondition struct {
 }
 
 func RelationshipPatternConditionCreate(pathPattern RelationshipPattern) RelationshipPatternCondition {
-	if pathPattern.GetError() != nil {
-		return RelationshipPatternConditionError(pathPattern.GetError())
+	if err := errorOf(pathPattern); err != nil {
+		return RelationshipPatternConditionError(err)
 	}
 	r := RelationshipPatternCondition{
 		pathPattern: pathPattern,
@@ -22,9 +22,11 @@ func RelationshipPatternConditionCreate(pathPattern RelationshipPattern) Relatio
 }
 
 func RelationshipPatternConditionError(err error) RelationshipPatternCondition {
-	return RelationshipPatternCondition{
+	r := RelationshipPatternCondition{
 		err: err,
 	}
+	r.ConditionContainer = ConditionWrap(r)
+	return r
 }
 
 func (r RelationshipPatternCondition) getConditionType() string {
diff --git a/remove.go b/remove.go
index 41b560c..ab81a4d 100644
--- a/remove.go
+++ b/remove.go
@@ -52,5 +52,5 @@ func (r Remove) isNotNil() bool {
 }
 
 func (r Remove) isUpdatingClause() bool {
-	panic("implement me")
+	return true
 }
diff --git a/sort_item.go b/sort_item.go
index 53dbfc6..04887c1 100644
--- a/sort_item.go
+++ b/sort_item.go
@@ -9,8 +9,8 @@ type SortItem struct {
 }
 
 func SortItemCreate(expression Expression, direction SortDirectionRaw) SortItem {
-	if expression != nil && expression.GetError() != nil {
-		return SortItemError(expression.GetError())
+	if err := errorOf(expression); err != nil {
+		return SortItemError(err)
 	}
 	sortDirection := SortDirection{value: direction}
 	sortDirection.key = getAddress(&sortDirection)
diff --git a/unwind.go b/unwind.go
index 71b45ab..c845b32 100644
--- a/unwind.go
+++ b/unwind.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type UnwindPhrase struct {
 	expressionToUnwind Expression
 	variable           string
@@ -9,8 +11,11 @@ type UnwindPhrase struct {
 }
 
 func unwindCreate(expressionToUnwind Expression, variable string) UnwindPhrase {
-	if expressionToUnwind != nil && expressionToUnwind.GetError() != nil {
-		return unwindError(expressionToUnwind.GetError())
+	if err := errorOf(expressionToUnwind); err != nil {
+		return unwindError(err)
+	}
+	if variable == "" {
+		return unwindError(errors.New("a variable to unwind to is required"))
 	}
 	var expression Expression
 	if aliased, isAliased := expressionToUnwind.(Aliased); isAliased {
diff --git a/updating_clause_builder.go b/updating_clause_builder.go
index 814f336..6f968b7 100644
--- a/updating_clause_builder.go
+++ b/updating_clause_builder.go
@@ -25,7 +25,11 @@ func (c MergeBuilder) on(mergeType MERGE_TYPE, expressions ...Expression) (Suppo
 		return MergeBuilder{}, err
 	}
 	expressionList := ExpressionListCreate(expression)
-	c.mergeActions = append(c.mergeActions, MergeActionCreate(mergeType, SetCreate(expressionList)))
+	action := MergeActionCreate(mergeType, SetCreate(expressionList))
+	if action.GetError() != nil {
+		return MergeBuilder{}, action.GetError()
+	}
+	c.mergeActions = append(append([]MergeAction{}, c.mergeActions...), action)
 	return c, nil
 }
 
diff --git a/where.go b/where.go
index ccf4b7f..a9dd9f9 100644
--- a/where.go
+++ b/where.go
@@ -8,8 +8,8 @@ type Where struct {
 }
 
 func WhereCreate(condition Condition) Where {
-	if condition != nil && condition.GetError() != nil {
-		return WhereError(condition.GetError())
+	if err := errorOf(condition); err != nil {
+		return WhereError(err)
 	}
 	where := Where{
 		condition: condition,
-- 
2.43.0


From bbde7e9923bb8506fbf445817c97d5c20fd8d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 08/33] fix: statement builders do not change each other and
 keep RETURN after updates

---
 default_statement_with_return_builder.go | 10 ++--
 default_statement_with_update.go         | 66 ++++++++++--------------
 default_statement_with_with_builder.go   | 62 ++++++++++++----------
 order_builder.go                         | 26 +++++++---
 return_body.go                           |  5 ++
 sort_item.go                             |  6 +++
 with.go                                  |  6 ++-
 7 files changed, 105 insertions(+), 76 deletions(-)

diff --git a/default_statement_with_return_builder.go b/default_statement_with_return_builder.go
index 47b428b..355443e 100644
--- a/default_statement_with_return_builder.go
+++ b/default_statement_with_return_builder.go
@@ -13,7 +13,7 @@ func DefaultStatementWithReturnBuilderError(err error) DefaultStatementWithRetur
 }
 
 func (d *DefaultStatementWithReturnBuilder) AddExpression(expression ...Expression) {
-	d.returnList = append(d.returnList, expression...)
+	d.returnList = append(append([]Expression{}, d.returnList...), expression...)
 }
 
 func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
@@ -22,11 +22,15 @@ func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
 	}
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
-	return d.defaultBuilder.BuildImpl(false, returning), nil
+	statement := d.defaultBuilder.BuildImpl(false, returning)
+	if statement.GetError() != nil {
+		return nil, statement.GetError()
+	}
+	return statement, nil
 }
 
 func (d DefaultStatementWithReturnBuilder) And(expression Expression) TerminalOngoingOrderDefinition {
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 5c2f70e..ecde530 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -108,14 +108,27 @@ func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
-	return d.defaultBuilder.BuildImpl(false, returning), nil
+	statement := d.withUpdatingClause().BuildImpl(false, returning)
+	if statement.GetError() != nil {
+		return nil, statement.GetError()
+	}
+	return statement, nil
+}
+
+// withUpdatingClause returns a copy of the underlying builder that contains the
+// updating clause of this builder.
+func (d DefaultStatementWithUpdateBuilder) withUpdatingClause() DefaultStatementBuilder {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	builder := *d.defaultBuilder
+	return builder.addUpdatingClause(d.builder.build())
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningByString(variables ...string) OngoingReadingAndReturn {
@@ -127,7 +140,7 @@ func (d DefaultStatementWithUpdateBuilder) ReturningByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	d.returnList = append(d.returnList, expression...)
+	d.returnList = append(append([]Expression{}, d.returnList...), expression...)
 	return d
 }
 
@@ -140,9 +153,8 @@ func (d DefaultStatementWithUpdateBuilder) ReturningDistinctByNamed(variables ..
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	d.Returning(expression...)
 	d.distinct = true
-	return d
+	return d.Returning(expression...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -158,8 +170,7 @@ func (d DefaultStatementWithUpdateBuilder) With(expressions ...Expression) Order
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDefault(distinct bool, returnedExpressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.WithDefault(distinct, returnedExpressions...)
+	return d.withUpdatingClause().WithDefault(distinct, returnedExpressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -187,18 +198,10 @@ func (d DefaultStatementWithUpdateBuilder) Delete(expressions ...Expression) Ong
 }
 
 func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, deletedExpressions ...Expression) OngoingUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	var deleteType UpdateType
 	if nextDetach {
-		deleteType = UPDATE_TYPE_DETACH_DELETE
-	} else {
-		deleteType = UPDATE_TYPE_DELETE
-	}
-	visitables := make([]Visitable, len(deletedExpressions))
-	for i := range deletedExpressions {
-		visitables[i] = deletedExpressions[i]
+		return d.withUpdatingClause().DetachDelete(deletedExpressions...)
 	}
-	return d.defaultBuilder.Update(deleteType, visitables)
+	return d.withUpdatingClause().Delete(deletedExpressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) DetachDeleteByString(variables ...string) OngoingUpdate {
@@ -214,42 +217,29 @@ func (d DefaultStatementWithUpdateBuilder) DetachDelete(expressions ...Expressio
 }
 
 func (d DefaultStatementWithUpdateBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Merge(pattern...)
+	return d.withUpdatingClause().Merge(pattern...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, expressions...)
+	return d.withUpdatingClause().Set(expressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.Set(variable.GetSymbolicName(), expression)
+	return d.withUpdatingClause().SetWithNamed(variable, expression)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
+	return d.withUpdatingClause().SetByNode(node, labels...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	if d.err != nil {
-		return d
-	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, OperationSetLabel(node, labels...))
+	return d.withUpdatingClause().RemoveByNode(node, labels...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
-	expressions := make([]Expression, len(properties))
-	for i := range properties {
-		expressions[i] = properties[i]
-	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, expressions...)
+	return d.withUpdatingClause().Remove(properties...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Create(element...)
+	return d.withUpdatingClause().Create(element...)
 }
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index af51013..a6618d5 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -24,27 +24,33 @@ func DefaultStatementWithWithBuilderError(err error) DefaultStatementWithWithBui
 }
 
 func (d *DefaultStatementWithWithBuilder) buildWith() with {
-	if len(d.returnList) == 0 {
+	condition := d.conditionBuilder.buildCondition()
+	order := d.orderBuilder.BuildOrder()
+	hasDetails := condition != nil || order.isNotNil() || order.GetError() != nil ||
+		d.orderBuilder.skip.isNotNil() || d.orderBuilder.limit.isNotNil() || d.orderBuilder.limit.GetError() != nil
+	if len(d.returnList) == 0 && !hasDetails {
 		return with{}
 	}
 	returnItems := ExpressionListCreate(d.returnList)
-	condition := d.conditionBuilder.buildCondition()
 	var where Where
-	if condition == nil || !condition.isNotNil() {
-		where = Where{}
-
-	} else {
+	if condition != nil {
 		where = WhereCreate(condition)
 	}
-	returnedWith := withCreate(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
+	return withCreate(d.distinct, returnItems, order, d.orderBuilder.skip,
 		d.orderBuilder.limit, where)
-	d.returnList = nil
-	d.orderBuilder.reset()
-	return returnedWith
+}
+
+// withClause returns a copy of the underlying builder that contains the WITH
+// clause of this builder.
+func (d DefaultStatementWithWithBuilder) withClause() DefaultStatementBuilder {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	return d.defaultBuilder.AddWith(d.buildWith())
 }
 
 func (d *DefaultStatementWithWithBuilder) addExpression(expressions ...Expression) {
-	d.returnList = append(d.returnList, expressions...)
+	d.returnList = append(append([]Expression{}, d.returnList...), expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Skip(number int) ExposesLimitAndOngoingReadingAndWith {
@@ -86,7 +92,7 @@ func (d DefaultStatementWithWithBuilder) ReturningByNamed(variables ...Named) On
 }
 
 func (d DefaultStatementWithWithBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		Returning(expression...)
 }
 
@@ -99,7 +105,7 @@ func (d DefaultStatementWithWithBuilder) ReturningDistinctByNamed(variables ...N
 }
 
 func (d DefaultStatementWithWithBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		ReturningDistinct(expression...)
 }
 
@@ -112,7 +118,7 @@ func (d DefaultStatementWithWithBuilder) WithByNamed(variables ...Named) Orderab
 }
 
 func (d DefaultStatementWithWithBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		With(expressions...)
 }
 
@@ -125,7 +131,7 @@ func (d DefaultStatementWithWithBuilder) WithDistinctByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		WithDistinct(expressions...)
 }
 
@@ -138,7 +144,7 @@ func (d DefaultStatementWithWithBuilder) DeleteByNamed(variables ...Named) Ongoi
 }
 
 func (d DefaultStatementWithWithBuilder) Delete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		Delete(expressions...)
 }
 
@@ -151,36 +157,36 @@ func (d DefaultStatementWithWithBuilder) DetachDeleteByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) DetachDelete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		DetachDelete(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		Merge(pattern...)
 }
 
 func (d DefaultStatementWithWithBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		Set(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.Set(variable.GetRequiredSymbolicName(), expression)
+	return d.withClause().SetWithNamed(variable, expression)
 }
 
 func (d DefaultStatementWithWithBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		SetByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		RemoveByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		Remove(properties...)
 }
 
@@ -193,22 +199,22 @@ func (d DefaultStatementWithWithBuilder) UnwindByString(variable string) Ongoing
 }
 
 func (d DefaultStatementWithWithBuilder) Unwind(expression Expression) OngoingUnwind {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		Unwind(expression)
 }
 
 func (d DefaultStatementWithWithBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		Create(element...)
 }
 
 func (d DefaultStatementWithWithBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		Call(statement)
 }
 
 func (d DefaultStatementWithWithBuilder) Call1(namespaceAndProcedure ...string) OngoingInQueryCallWithoutArguments {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		Call1(namespaceAndProcedure...)
 }
 
@@ -221,7 +227,7 @@ func (d DefaultStatementWithWithBuilder) OptionalMatch(pattern ...PatternElement
 }
 
 func (d DefaultStatementWithWithBuilder) MatchDefault(optional bool, pattern ...PatternElement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.withClause().
 		MatchDefault(optional, pattern...)
 }
 
diff --git a/order_builder.go b/order_builder.go
index bbc40d4..9be0d25 100644
--- a/order_builder.go
+++ b/order_builder.go
@@ -15,24 +15,40 @@ func OrderBuilderCreate() OrderBuilder {
 }
 
 func (o *OrderBuilder) OrderBySortItem(item ...SortItem) {
-	o.sortItemList = append(o.sortItemList, item...)
+	o.addLastSortItem()
+	o.addSortItems(item...)
 }
 
 func (o *OrderBuilder) OrderByExpression(expression Expression) {
+	o.addLastSortItem()
 	o.lastSortItem = Sort(expression)
 }
 
+// addSortItems adds the items without touching the items of builders this
+// builder was copied from.
+func (o *OrderBuilder) addSortItems(items ...SortItem) {
+	o.sortItemList = append(append([]SortItem{}, o.sortItemList...), items...)
+}
+
+// addLastSortItem adds the item whose direction was not given.
+func (o *OrderBuilder) addLastSortItem() {
+	if o.lastSortItem.isNotNil() || o.lastSortItem.GetError() != nil {
+		o.addSortItems(o.lastSortItem)
+		o.lastSortItem = SortItem{}
+	}
+}
+
 func (o *OrderBuilder) And(expression Expression) {
 	o.OrderByExpression(expression)
 }
 
 func (o *OrderBuilder) Descending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Descending())
+	o.addSortItems(o.lastSortItem.Descending())
 	o.lastSortItem = SortItem{}
 }
 
 func (o *OrderBuilder) Ascending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Ascending())
+	o.addSortItems(o.lastSortItem.Ascending())
 	o.lastSortItem = SortItem{}
 }
 
@@ -45,9 +61,7 @@ func (o *OrderBuilder) Limit(number int) {
 }
 
 func (o *OrderBuilder) BuildOrder() Order {
-	if o.lastSortItem.isNotNil() {
-		o.sortItemList = append(o.sortItemList, o.lastSortItem)
-	}
+	o.addLastSortItem()
 	if o.sortItemList != nil && len(o.sortItemList) > 0 {
 		return OrderCreate(o.sortItemList)
 	}
diff --git a/return_body.go b/return_body.go
index 0abd94f..66a1735 100644
--- a/return_body.go
+++ b/return_body.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ReturnBody struct {
 	returnItems ExpressionList
 	order       Order
@@ -14,6 +16,9 @@ func ReturnBodyCreate(returnItems ExpressionList, order Order, skip Skip, limit
 	if returnItems.GetError() != nil {
 		return ReturnBodyError(returnItems.GetError())
 	}
+	if len(returnItems.expressions) == 0 {
+		return ReturnBodyError(errors.New("at least one expression to return is required"))
+	}
 	if order.GetError() != nil {
 		return ReturnBodyError(order.GetError())
 	}
diff --git a/sort_item.go b/sort_item.go
index 04887c1..cadf51a 100644
--- a/sort_item.go
+++ b/sort_item.go
@@ -40,10 +40,16 @@ func (item SortItem) getKey() string {
 }
 
 func (item SortItem) Ascending() SortItem {
+	if item.err != nil {
+		return item
+	}
 	return SortItemCreate(item.expression, ASC)
 }
 
 func (item SortItem) Descending() SortItem {
+	if item.err != nil {
+		return item
+	}
 	return SortItemCreate(item.expression, DESC)
 }
 
diff --git a/with.go b/with.go
index 261949a..1ae3728 100644
--- a/with.go
+++ b/with.go
@@ -25,13 +25,17 @@ func withCreate(distinct bool, returnItems ExpressionList, order Order, skip Ski
 	if where.GetError() != nil {
 		return withError(where.GetError())
 	}
+	body := ReturnBodyCreate(returnItems, order, skip, limit)
+	if body.GetError() != nil {
+		return withError(body.GetError())
+	}
 	distinctInstance := Distinct{}
 	if distinct {
 		distinctInstance = DISTINCT_INSTANCE
 	}
 	with := with{
 		distinct: distinctInstance,
-		body:     ReturnBodyCreate(returnItems, order, skip, limit),
+		body:     body,
 		where:    where,
 		notNil:   true,
 	}
-- 
2.43.0


From e1b63a645c44f58a6d3229506a8e814cd14640a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 09/33] fix: relationship chains are persistent and keep
 errors, empty types render no colon

---
 relationship.go       | 24 ++++++++++++
 relationship_chain.go | 89 ++++++++++++++++++++++++++++---------------
 relationship_type.go  | 11 +++++-
 3 files changed, 92 insertions(+), 32 deletions(-)

diff --git a/relationship.go b/relationship.go
index 9a64f5c..5fe04c6 100644
--- a/relationship.go
+++ b/relationship.go
@@ -78,22 +78,37 @@ func (r Relationship) getKey() string {
 }
 
 func (r Relationship) NamedByString(newSymbolicName string) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.namedByString(newSymbolicName), r.right)
 }
 
 func (r Relationship) Unbounded() Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.unbounded(), r.right)
 }
 
 func (r Relationship) Min(minimum int) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.min(minimum), r.right)
 }
 
 func (r Relationship) Length(minimum int, maximum int) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.min(minimum).max(maximum), r.right)
 }
 
 func (r Relationship) Max(maximum int) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.max(maximum), r.right)
 }
 
@@ -128,6 +143,9 @@ func (r Relationship) RelationshipBetween(node Node, types ...string) Relationsh
 }
 
 func (r Relationship) Named(name string) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.namedByString(name), r.right)
 }
 
@@ -151,6 +169,12 @@ func (r Relationship) WithRawProperties(keysAndValues ...interface{}) Relationsh
 }
 
 func (r Relationship) WithProperties(newProperties MapExpression) Relationship {
+	if r.err != nil {
+		return r
+	}
+	if newProperties.GetError() != nil {
+		return RelationshipError(newProperties.GetError())
+	}
 	if !newProperties.isNotNil() && !r.details.properties.isNotNil() {
 		return r
 	}
diff --git a/relationship_chain.go b/relationship_chain.go
index 7a563fc..9bc6f31 100644
--- a/relationship_chain.go
+++ b/relationship_chain.go
@@ -10,6 +10,9 @@ type RelationshipChain struct {
 }
 
 func RelationshipChainCreate(relationship Relationship) RelationshipChain {
+	if relationship.GetError() != nil {
+		return RelationshipChain{err: relationship.GetError()}
+	}
 	relations := make([]Relationship, 1)
 	relations[0] = relationship
 	chain := RelationshipChain{relationships: relations, notNil: true}
@@ -34,21 +37,15 @@ func (r RelationshipChain) getKey() string {
 }
 
 func (r RelationshipChain) RelationshipTo(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipTo(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.Add(r.lastNode().RelationshipTo(node, types...))
 }
 
 func (r RelationshipChain) RelationshipFrom(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipFrom(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.Add(r.lastNode().RelationshipFrom(node, types...))
 }
 
 func (r RelationshipChain) RelationshipBetween(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipBetween(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.Add(r.lastNode().RelationshipBetween(node, types...))
 }
 
 func (r RelationshipChain) Named(name string) Relationship {
@@ -56,45 +53,45 @@ func (r RelationshipChain) Named(name string) Relationship {
 }
 
 func (r RelationshipChain) NamedC(name string) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Named(name)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.changeLast(func(last Relationship) Relationship {
+		return last.Named(name)
+	})
 }
 
 func (r RelationshipChain) Unbounded() RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Unbounded()
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.changeLast(func(last Relationship) Relationship {
+		return last.Unbounded()
+	})
 }
 
 func (r RelationshipChain) Min(minimum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Min(minimum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.changeLast(func(last Relationship) Relationship {
+		return last.Min(minimum)
+	})
 }
 
 func (r RelationshipChain) Length(minimum int, maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Length(minimum, maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.changeLast(func(last Relationship) Relationship {
+		return last.Length(minimum, maximum)
+	})
 }
 
 func (r RelationshipChain) Max(maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Max(maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.changeLast(func(last Relationship) Relationship {
+		return last.Max(maximum)
+	})
 }
 
 func (r RelationshipChain) Properties(newProperties MapExpression) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithProperties(newProperties)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.changeLast(func(last Relationship) Relationship {
+		return last.WithProperties(newProperties)
+	})
 }
 
 func (r RelationshipChain) PropertiesRaw(keysAndValues ...interface{}) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithRawProperties(keysAndValues...)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.changeLast(func(last Relationship) Relationship {
+		return last.WithRawProperties(keysAndValues...)
+	})
 }
 
 func (r RelationshipChain) accept(visitor *CypherRenderer) {
@@ -116,7 +113,37 @@ func (r RelationshipChain) leave(renderer *CypherRenderer) {
 }
 
 func (r RelationshipChain) Add(relationship Relationship) RelationshipChain {
-	r.relationships = append(r.relationships, relationship)
+	if r.err != nil {
+		return r
+	}
+	if relationship.GetError() != nil {
+		return RelationshipChain{err: relationship.GetError()}
+	}
+	r.relationships = append(append([]Relationship{}, r.relationships...), relationship)
+	return r
+}
+
+// lastNode returns the node at the end of the chain.
+func (r RelationshipChain) lastNode() Node {
+	if len(r.relationships) == 0 {
+		return Node{}
+	}
+	return r.relationships[len(r.relationships)-1].right
+}
+
+// changeLast replaces the last relationship without touching the chains this
+// chain was copied from.
+func (r RelationshipChain) changeLast(change func(last Relationship) Relationship) RelationshipChain {
+	if r.err != nil || len(r.relationships) == 0 {
+		return r
+	}
+	changed := change(r.relationships[len(r.relationships)-1])
+	if changed.GetError() != nil {
+		return RelationshipChain{err: changed.GetError()}
+	}
+	relationships := append([]Relationship{}, r.relationships...)
+	relationships[len(relationships)-1] = changed
+	r.relationships = relationships
 	return r
 }
 
diff --git a/relationship_type.go b/relationship_type.go
index 6fb36f2..037d655 100644
--- a/relationship_type.go
+++ b/relationship_type.go
@@ -10,8 +10,17 @@ type RelationshipTypes struct {
 }
 
 func RelationshipTypesCreate(types []string) RelationshipTypes {
+	values := make([]string, 0)
+	for _, value := range types {
+		if value != "" {
+			values = append(values, value)
+		}
+	}
+	if len(values) == 0 {
+		return RelationshipTypes{}
+	}
 	r := RelationshipTypes{
-		values: types,
+		values: values,
 		notNil: true,
 	}
 	r.key = getAddress(&r)
-- 
2.43.0


From 2b7aef1dd90cb0f4db6a8294c3c18af39e9be2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:57 +0000
Subject: [PATCH 10/33] fix: nodes and named paths keep errors of names and
 properties

---
 name_path.go |  7 +++++--
 node.go      | 23 ++++++++++++++++++++---
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/name_path.go b/name_path.go
index df748fc..137e720 100644
--- a/name_path.go
+++ b/name_path.go
@@ -14,8 +14,8 @@ func NamedPathCreate(name SymbolicName, pattern RelationshipPattern) NamedPath {
 	if name.GetError() != nil {
 		return NamedPathError(name.GetError())
 	}
-	if pattern != nil && pattern.GetError() != nil {
-		return NamedPathError(pattern.GetError())
+	if err := errorOf(pattern); err != nil {
+		return NamedPathError(err)
 	}
 	n := NamedPath{name: name, pattern: pattern, notNil: true}
 	n.key = getAddress(&n)
@@ -139,6 +139,9 @@ func NamedPathBuilderCreate(name SymbolicName) NamedPathBuilder {
 }
 
 func (n NamedPathBuilder) DefinedBy(pattern RelationshipPattern) NamedPath {
+	if n.err != nil {
+		return NamedPathError(n.err)
+	}
 	return NamedPathCreate(n.name, pattern)
 }
 
diff --git a/node.go b/node.go
index 58aec51..75f2ef5 100644
--- a/node.go
+++ b/node.go
@@ -30,6 +30,9 @@ func NodeCreate1(primaryLabel string, properties Properties, additionalLabels ..
 			return NodeError(errors.New("empty label is not allowed"))
 		}
 	}
+	if properties.GetError() != nil {
+		return NodeError(properties.GetError())
+	}
 	labels := make([]NodeLabel, 0)
 	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabels {
@@ -81,7 +84,16 @@ func NodeCreate3(primaryLabel string, additionalLabel ...string) Node {
 }
 
 func NodeCreate4(newProperties MapExpression, node Node) Node {
-	newNode := Node{symbolicName: node.symbolicName, labels: node.labels, notNil: true, properties: PropertiesCreate(newProperties)}
+	if node.GetError() != nil {
+		return node
+	}
+	if newProperties.GetError() != nil {
+		return NodeError(newProperties.GetError())
+	}
+	newNode := Node{symbolicName: node.symbolicName, labels: node.labels, notNil: true}
+	if newProperties.isNotNil() {
+		newNode.properties = PropertiesCreate(newProperties)
+	}
 	newNode.injectKey()
 	return newNode
 }
@@ -172,6 +184,9 @@ func (node Node) RelationshipBetween(other Node, types ...string) Relationship {
 }
 
 func (node Node) WithRawProperties(keysAndValues ...interface{}) Node {
+	if node.GetError() != nil {
+		return node
+	}
 	properties := MapExpression{}
 	if keysAndValues != nil && len(keysAndValues) != 0 {
 		properties = NewMapExpression(keysAndValues...)
@@ -191,11 +206,13 @@ func (node Node) Property(name string) Property {
 }
 
 func (node Node) NamedByString(name string) Node {
-	node.symbolicName = SymbolicNameCreate(name)
-	return node
+	return node.Named(SymbolicNameCreate(name))
 }
 
 func (node Node) Named(name SymbolicName) Node {
+	if node.GetError() != nil {
+		return node
+	}
 	if name.GetError() != nil {
 		return NodeError(name.GetError())
 	}
-- 
2.43.0


From a779b75cd2c76b43c7acaf806c1fce923f40b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 11/33] fix: operations, conditions, properties and maps check
 their parts, group powers

---
 comparison.go          | 13 +++++++++++--
 entry_expression.go    | 11 +++++++++--
 has_label_condition.go | 12 +++++++++++-
 key_value_map_entry.go | 10 ++++++++--
 map_expression.go      | 14 ++++++++++----
 map_projection.go      |  6 ++++++
 nested_expression.go   |  4 ++--
 operation.go           | 19 ++++++++++++++++---
 property.go            |  6 +++---
 property_lookup.go     |  6 ++++++
 10 files changed, 82 insertions(+), 19 deletions(-)

diff --git a/comparison.go b/comparison.go
index 8d171df..1c503e8 100644
--- a/comparison.go
+++ b/comparison.go
@@ -30,7 +30,7 @@ func ComparisonCreate(left Expression, operator Operator, right Expression) Comp
 	if left == nil || !left.isNotNil() {
 		return ComparisonError(errors.New("left expression must be not nil"))
 	}
-	if right == nil || !left.isNotNil() {
+	if right == nil || !right.isNotNil() {
 		return ComparisonError(errors.New("right expression must be not nil"))
 	}
 	comparison := Comparison{
@@ -72,7 +72,7 @@ func ComparisonCreate1(operator Operator, expression Expression) Comparison {
 			right:    nil,
 		}
 	default:
-		return Comparison{}
+		return ComparisonError(errors.New("comparison: operator must be unary"))
 	}
 	comparison.key = getAddress(&comparison)
 	comparison.notNil = true
@@ -133,3 +133,12 @@ func nestedIfCondition(expression Expression) Expression {
 	}
 	return expression
 }
+
+// nestedIfUngrouped protects an expression that would otherwise be torn apart
+// by an operator that follows it.
+func nestedIfUngrouped(expression Expression) Expression {
+	if operation, isOperation := expression.(Operation); isOperation && !operation.needsGrouping() {
+		return NestedExpressionCreate(expression)
+	}
+	return nestedIfCondition(expression)
+}
diff --git a/entry_expression.go b/entry_expression.go
index 38e9503..f512809 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type EntryExpression struct {
 	ExpressionContainer
 	Key    string
@@ -10,9 +12,14 @@ type EntryExpression struct {
 }
 
 func EntryExpressionCreate(key string, value Expression) EntryExpression {
-	if value != nil && value.GetError() != nil {
+	if err := errorOf(value); err != nil {
+		return EntryExpression{
+			err: err,
+		}
+	}
+	if key == "" {
 		return EntryExpression{
-			err: value.GetError(),
+			err: errors.New("a key is required"),
 		}
 	}
 	e := EntryExpression{
diff --git a/has_label_condition.go b/has_label_condition.go
index 16d8f37..8b931f2 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -23,6 +23,9 @@ func HasLabelConditionCreate(nodeName SymbolicName, labels ...string) HasLabelCo
 	}
 	nodeLabels := make([]NodeLabel, len(labels))
 	for i := range labels {
+		if labels[i] == "" {
+			return HasLabelConditionError(errors.New("empty label is not allowed"))
+		}
 		nodeLabels[i] = NodeLabelCreate(labels[i])
 	}
 	hasLabelCondition := HasLabelCondition{
@@ -45,6 +48,11 @@ func HasLabelConditionCreate1(nodeName SymbolicName, labels []NodeLabel) HasLabe
 	if labels == nil || len(labels) == 0 {
 		return HasLabelConditionError(errors.New("labels is required"))
 	}
+	for _, label := range labels {
+		if label.GetError() != nil {
+			return HasLabelConditionError(label.GetError())
+		}
+	}
 	hasLabelCondition := HasLabelCondition{
 		nodeName:   nodeName,
 		nodeLabels: labels,
@@ -56,9 +64,11 @@ func HasLabelConditionCreate1(nodeName SymbolicName, labels []NodeLabel) HasLabe
 }
 
 func HasLabelConditionError(err error) HasLabelCondition {
-	return HasLabelCondition{
+	h := HasLabelCondition{
 		err: err,
 	}
+	h.ConditionContainer = ConditionWrap(h)
+	return h
 }
 
 func (h HasLabelCondition) GetError() error {
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index 7c92538..6f4406a 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type KeyValueMapEntry struct {
 	ExpressionContainer
 	entryKey string
@@ -10,12 +12,16 @@ type KeyValueMapEntry struct {
 }
 
 func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
-	if value != nil && value.GetError() != nil {
-		return KeyValueMapEntryError(value.GetError())
+	if err := errorOf(value); err != nil {
+		return KeyValueMapEntryError(err)
+	}
+	if key == "" {
+		return KeyValueMapEntryError(errors.New("a key is required"))
 	}
 	entry := KeyValueMapEntry{
 		entryKey: key,
 		value:    value,
+		notNil:   true,
 	}
 	entry.key = getAddress(&entry)
 	entry.ExpressionContainer = ExpressionWrap(entry)
diff --git a/map_expression.go b/map_expression.go
index f8e6ad7..f1fcd55 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -14,8 +14,8 @@ type MapExpression struct {
 
 func MapExpressionCreate(newContents []Expression) MapExpression {
 	for _, content := range newContents {
-		if content != nil && content.GetError() != nil {
-			return MapExpressionError(content.GetError())
+		if err := errorOf(content); err != nil {
+			return MapExpressionError(err)
 		}
 	}
 	m := MapExpression{
@@ -51,7 +51,7 @@ func (m MapExpression) getKey() string {
 
 func NewMapExpression(objects ...interface{}) MapExpression {
 	if len(objects)%2 != 0 {
-		return MapExpressionError(errors.Errorf("new map expression number of object input should be product of 2 but it is %", len(objects)))
+		return MapExpressionError(errors.Errorf("new map expression number of object input should be product of 2 but it is %d", len(objects)))
 	}
 	var newContents = make([]Expression, len(objects)/2)
 	var knownKeys = make(map[string]int)
@@ -90,6 +90,9 @@ func (m MapExpression) leave(renderer *CypherRenderer) {
 }
 
 func (m MapExpression) AddEntries(entries []Expression) MapExpression {
+	if m.err != nil {
+		return m
+	}
 	newContent := make([]Expression, len(m.expressions)+len(entries))
 	for i := range m.expressions {
 		newContent[i] = m.expressions[i]
@@ -101,6 +104,9 @@ func (m MapExpression) AddEntries(entries []Expression) MapExpression {
 }
 
 func (m MapExpression) PrepareVisit(visitable Visitable) Visitable {
-	expression := visitable.(Expression)
+	expression, isExpression := visitable.(Expression)
+	if !isExpression {
+		return visitable
+	}
 	return NameOrExpression(expression)
 }
diff --git a/map_projection.go b/map_projection.go
index c8efcc4..4e187eb 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -121,6 +121,9 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 		}
 		current := contentAt(content, i)
 		if aString, isString := current.(string); isString {
+			if aString == "" {
+				return nil, xerrors.New("map projection create new content: a key is required")
+			}
 			if anExpression, isExpression := next.(Expression); isExpression {
 				lastKey = aString
 				lastExpression = anExpression
@@ -136,6 +139,9 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 			i += 1
 		}
 
+		if lastExpression != nil && lastExpression.GetError() != nil {
+			return nil, lastExpression.GetError()
+		}
 		if _, isAsterisk := lastExpression.(Asterisk); isAsterisk {
 			lastExpression = PropertyLookupCreate("*")
 		}
diff --git a/nested_expression.go b/nested_expression.go
index e46636b..24f8f20 100644
--- a/nested_expression.go
+++ b/nested_expression.go
@@ -9,8 +9,8 @@ type NestedExpression struct {
 }
 
 func NestedExpressionCreate(delegate Expression) NestedExpression {
-	if delegate != nil && delegate.GetError() != nil {
-		return NestedExpressionError(delegate.GetError())
+	if err := errorOf(delegate); err != nil {
+		return NestedExpressionError(err)
 	}
 	nested := NestedExpression{
 		delegate: delegate,
diff --git a/operation.go b/operation.go
index 09ce927..7df7748 100644
--- a/operation.go
+++ b/operation.go
@@ -34,6 +34,13 @@ func OperationCreate(left Expression, operator Operator, right Expression) Opera
 	if right == nil || !right.isNotNil() {
 		return OperationError(errors.New("operation: right can not be nil"))
 	}
+	if operator.operatorType == BINARY {
+		left = nestedIfCondition(left)
+		right = nestedIfCondition(right)
+	}
+	if operation, isOperation := right.(Operation); isOperation && operator == EXPONENTIATION && !operation.needsGrouping() {
+		right = NestedExpressionCreate(right)
+	}
 	o := Operation{
 		left:     left,
 		operator: operator,
@@ -55,13 +62,13 @@ func OperationCreate1(left Expression, operator Operator, right NodeLabel) Opera
 	if right.GetError() != nil {
 		return OperationError(right.GetError())
 	}
-	if left == nil || left.isNotNil() {
+	if left == nil || !left.isNotNil() {
 		return OperationError(errors.New("left can not be nil"))
 	}
-	if operator.isNotNil() {
+	if !operator.isNotNil() {
 		return OperationError(errors.New("operator can not be nil"))
 	}
-	if right.isNotNil() {
+	if !right.isNotNil() {
 		return OperationError(errors.New("right can not be nil"))
 	}
 	o := Operation{
@@ -95,7 +102,13 @@ func OperationCreate2(op1 Node, operator Operator, nodeLabels ...string) Operati
 		return OperationError(errors.New("labels can not be nil or empty"))
 	}
 	labels := make([]NodeLabel, 0)
+	if op1.GetRequiredSymbolicName().GetError() != nil {
+		return OperationError(op1.GetRequiredSymbolicName().GetError())
+	}
 	for _, nodeLabel := range nodeLabels {
+		if nodeLabel == "" {
+			return OperationError(errors.New("empty label is not allowed"))
+		}
 		labels = append(labels, NodeLabelCreate(nodeLabel))
 	}
 	o := Operation{
diff --git a/property.go b/property.go
index 7605be0..6a249d5 100644
--- a/property.go
+++ b/property.go
@@ -42,14 +42,14 @@ func PropertyCreate2(container Expression, name string) Property {
 }
 
 func PropertyCreate1(container Expression, name PropertyLookup) Property {
-	if container != nil && container.GetError() != nil {
-		return PropertyError(container.GetError())
+	if err := errorOf(container); err != nil {
+		return PropertyError(err)
 	}
 	if name.GetError() != nil {
 		return PropertyError(name.GetError())
 	}
 	property := Property{
-		container: container,
+		container: nestedIfUngrouped(container),
 		name:      name,
 		notNil:    true,
 	}
diff --git a/property_lookup.go b/property_lookup.go
index b154772..b6360ba 100644
--- a/property_lookup.go
+++ b/property_lookup.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type PropertyLookup struct {
 	ExpressionContainer
 	propertyKeyName string
@@ -9,8 +11,12 @@ type PropertyLookup struct {
 }
 
 func PropertyLookupCreate(name string) PropertyLookup {
+	if name == "" {
+		return PropertyLookup{err: errors.New("property name is required")}
+	}
 	property := PropertyLookup{
 		propertyKeyName: name,
+		notNil:          true,
 	}
 	property.key = getAddress(&property)
 	property.ExpressionContainer = ExpressionWrap(property)
-- 
2.43.0


From 5f1a2415d9ded15eafc4d97cdf6576c72d35ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:57 +0000
Subject: [PATCH 12/33] fix: list operators, comprehensions and list predicates
 check their parts

---
 list_comprehension.go    | 19 ++++++++++++++++++-
 list_expression.go       |  2 +-
 list_literal.go          |  6 +++---
 list_operator.go         |  8 ++++++--
 pattern_comprehension.go | 22 +++++++++++++++++++---
 predicates.go            | 17 ++++++++++++++++-
 6 files changed, 63 insertions(+), 11 deletions(-)

diff --git a/list_comprehension.go b/list_comprehension.go
index 28f9fe2..e1d56f7 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -17,6 +17,15 @@ func ListComprehensionCreate(variable SymbolicName, listExpression Expression, w
 	if variable.GetError() != nil {
 		return ListComprehensionError(variable.GetError())
 	}
+	if err := errorOf(listExpression); err != nil {
+		return ListComprehensionError(err)
+	}
+	if where.GetError() != nil {
+		return ListComprehensionError(where.GetError())
+	}
+	if listDefinition != nil && listDefinition.GetError() != nil {
+		return ListComprehensionError(listDefinition.GetError())
+	}
 	list := ListComprehension{
 		variable:       variable,
 		listExpression: listExpression,
@@ -117,15 +126,23 @@ func (l ListComprehensionBuilder) ReturningByNamed(variables ...Named) ListCompr
 }
 
 func (l ListComprehensionBuilder) Returning(expressions ...Expression) ListComprehension {
+	if l.err != nil {
+		return ListComprehensionError(l.err)
+	}
 	return ListComprehensionCreate(l.variable, l.listExpression, l.where,
 		ListOrSingleExpression(expressions...))
 }
 
 func (l ListComprehensionBuilder) ReturningDefault() ListComprehension {
+	if l.err != nil {
+		return ListComprehensionError(l.err)
+	}
 	return ListComprehensionCreate(l.variable, l.listExpression, l.where, nil)
 }
 
 func (l ListComprehensionBuilder) Where(condition Condition) OngoingDefinitionWithoutReturn {
-	l.where = WhereCreate(condition)
+	if condition != nil {
+		l.where = WhereCreate(condition)
+	}
 	return l
 }
diff --git a/list_expression.go b/list_expression.go
index 40d5650..e9273e0 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -35,7 +35,7 @@ func ListExpressionError(err error) ListExpression {
 
 func ListOrSingleExpression(expressions ...Expression) Expression {
 	if expressions == nil || len(expressions) == 0 {
-		ListExpressionError(errors.New("expressions are required"))
+		return ListExpressionError(errors.New("expressions are required"))
 	}
 	if len(expressions) == 1 {
 		return expressions[0]
diff --git a/list_literal.go b/list_literal.go
index 38e8795..f9b353d 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -12,16 +12,16 @@ type ListLiteral struct {
 
 func ListLiteralCreate(contents []Literal) ListLiteral {
 	for _, content := range contents {
-		if content != nil && content.GetError() != nil {
-			return ListLiteralError(content.GetError())
+		if err := errorOf(content); err != nil {
+			return ListLiteralError(err)
 		}
 	}
 	list := ListLiteral{
 		content: contents,
+		notNil:  true,
 	}
 	list.key = getAddress(&list)
 	list.ExpressionContainer = ExpressionWrap(list)
-	list.notNil = true
 	return list
 }
 
diff --git a/list_operator.go b/list_operator.go
index e105bd3..9b7b62f 100644
--- a/list_operator.go
+++ b/list_operator.go
@@ -12,9 +12,13 @@ type ListOperator struct {
 }
 
 func listOperatorCreate(targetExpression Expression, optionalStart Expression, dots Dot, optionalEnd Expression) ListOperator {
+	details := ListOperatorDetailsCreate(optionalStart, dots, optionalEnd)
+	if details.GetError() != nil {
+		return ListOperatorError(details.GetError())
+	}
 	operator := ListOperator{
-		targetExpression: targetExpression,
-		details:          ListOperatorDetailsCreate(optionalStart, dots, optionalEnd),
+		targetExpression: nestedIfUngrouped(targetExpression),
+		details:          details,
 		notNil:           true,
 	}
 	operator.key = getAddress(&operator)
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index 42ed445..c0d6f48 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -13,6 +13,12 @@ type PatternComprehension struct {
 }
 
 func PatternComprehensionCreate(pattern PatternElement, where Where, listDefinition Expression) PatternComprehension {
+	if err := errorOf(pattern, listDefinition); err != nil {
+		return PatternComprehensionError(err)
+	}
+	if where.GetError() != nil {
+		return PatternComprehensionError(where.GetError())
+	}
 	patternComprehension := PatternComprehension{
 		pattern:        pattern,
 		where:          where,
@@ -29,6 +35,9 @@ func PatternComprehensionError(err error) PatternComprehension {
 }
 
 func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPattern {
+	if err := errorOf(pattern); err != nil {
+		return PatternComprehensionBuilder{err: err}
+	}
 	if !pattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
@@ -36,6 +45,9 @@ func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensi
 }
 
 func PatternComprehensionBasedOnNamePath(pattern NamedPath) PatternComprehensionOngoingDefinitionWithPattern {
+	if err := errorOf(pattern); err != nil {
+		return PatternComprehensionBuilder{err: err}
+	}
 	if !pattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
@@ -122,9 +134,12 @@ func (p PatternComprehensionBuilder) ReturningByNamed(variables ...Named) Patter
 }
 
 func (p PatternComprehensionBuilder) Returning(listDefinitions ...Expression) PatternComprehension {
+	if p.err != nil {
+		return PatternComprehensionError(p.err)
+	}
 	where := Where{}
 	condition := p.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
+	if condition != nil {
 		where = WhereCreate(condition)
 	}
 	return PatternComprehensionCreate(p.pattern, where, ListOrSingleExpression(listDefinitions...))
@@ -136,8 +151,9 @@ func (p PatternComprehensionBuilder) Where(condition Condition) PatternComprehen
 }
 
 func (p PatternComprehensionBuilder) WherePattern(pathPattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPatternAndWhere {
-	if !pathPattern.isNotNil() {
-		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: path pattern must not be nil")}
+	if err := errorOf(pathPattern); err != nil && p.err == nil {
+		p.err = err
+		return p
 	}
 	return p.Where(RelationshipPatternConditionCreate(pathPattern))
 }
diff --git a/predicates.go b/predicates.go
index f930db8..aa3422b 100644
--- a/predicates.go
+++ b/predicates.go
@@ -60,6 +60,9 @@ type PredicateBuilder struct {
 }
 
 func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBuilder {
+	if name.GetError() != nil {
+		return PredicateBuilder{err: name.GetError()}
+	}
 	if !name.isNotNil() {
 		return PredicateBuilder{err: xerrors.New("name for predicate is require")}
 	}
@@ -70,6 +73,12 @@ func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBui
 }
 
 func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionWithList {
+	if p.err != nil {
+		return p
+	}
+	if err := errorOf(list); err != nil {
+		return PredicateBuilder{err: err}
+	}
 	if list == nil || !list.isNotNil() {
 		return PredicateBuilder{err: xerrors.New("predicate builder: the list expression is required")}
 	}
@@ -78,6 +87,12 @@ func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionW
 }
 
 func (p PredicateBuilder) Where(condition Condition) Condition {
+	if p.err != nil {
+		return BooleanFunctionConditionError(p.err)
+	}
+	if err := errorOf(condition); err != nil {
+		return BooleanFunctionConditionError(err)
+	}
 	if condition == nil || !condition.isNotNil() {
 		return BooleanFunctionConditionError(xerrors.New("predicate builder where: the condition is required"))
 	}
@@ -85,5 +100,5 @@ func (p PredicateBuilder) Where(condition Condition) Condition {
 }
 
 func (p PredicateBuilder) GetError() error {
-	panic("implement me")
+	return p.err
 }
-- 
2.43.0


From 8b004fbba796fb419aee9cf9301005b2134e4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 13/33] fix: CASE expressions are persistent, keep ELSE and
 errors

---
 case.go | 68 +++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/case.go b/case.go
index 5017e70..89d34e8 100644
--- a/case.go
+++ b/case.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Case struct {
 	ConditionContainer
 	caseElse       CaseElse
@@ -18,11 +20,11 @@ var ENDING_GENERIC_CASE = "EndingGenericCase"
 
 func SimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) Case {
 	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+		return caseError(caseExpression.GetError())
 	}
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return caseError(caseWhenThen.GetError())
 		}
 	}
 	simpleCase := Case{
@@ -36,9 +38,15 @@ func SimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) C
 	return simpleCase
 }
 
+func caseError(err error) Case {
+	errorCase := Case{err: err}
+	errorCase.ConditionContainer = ConditionWrap(errorCase)
+	return errorCase
+}
+
 func SimpleCaseCreate1(caseExpression Expression) Case {
-	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+	if err := errorOf(caseExpression); err != nil {
+		return caseError(err)
 	}
 	simpleCase := Case{
 		caseExpression: caseExpression,
@@ -53,11 +61,11 @@ func SimpleCaseCreate1(caseExpression Expression) Case {
 
 func EndingSimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) Case {
 	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+		return caseError(caseExpression.GetError())
 	}
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return caseError(caseWhenThen.GetError())
 		}
 	}
 	simpleCase := Case{
@@ -85,7 +93,7 @@ func GenericCaseCreate1() Case {
 func GenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return caseError(caseWhenThen.GetError())
 		}
 	}
 	genericCase := Case{
@@ -101,7 +109,7 @@ func GenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 func EndingGenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return caseError(caseWhenThen.GetError())
 		}
 	}
 	genericCase := Case{
@@ -123,6 +131,10 @@ func (c Case) GetError() error {
 }
 
 func (c Case) accept(visitor *CypherRenderer) {
+	if len(c.caseWhenThens) == 0 {
+		visitor.fail(errors.New("case: at least one WHEN is required"))
+		return
+	}
 	visitor.enter(c)
 	if c.caseExpression != nil && c.caseExpression.isNotNil() {
 		visit(c.caseExpression, visitor)
@@ -165,11 +177,15 @@ func (c Case) getConditionType() string {
 }
 
 func (c Case) ElseDefault(defaultExpression Expression) CaseEnding {
+	if c.err != nil {
+		return c
+	}
 	caseElse := CaseElseCreate(defaultExpression)
 	if caseElse.GetError() != nil {
-		return Case{err: caseElse.GetError()}
+		return caseError(caseElse.GetError())
 	}
 	c.caseElse = caseElse
+	c.key = getAddress(&c)
 	c.ExpressionContainer = ExpressionWrap(c)
 	return c
 }
@@ -200,20 +216,33 @@ type OngoingWhenThen struct {
 }
 
 func OngoingWhenThenCreate(caseInstance *Case, whenExpression Expression) OngoingWhenThen {
-	if whenExpression != nil && whenExpression.GetError() != nil {
-		return OngoingWhenThen{err: whenExpression.GetError()}
+	if caseInstance == nil {
+		return OngoingWhenThen{err: errors.New("case: the case to extend is required")}
+	}
+	if err := errorOf(*caseInstance, whenExpression); err != nil {
+		return OngoingWhenThen{err: err}
 	}
 	return OngoingWhenThen{whenExpression: whenExpression, caseInstance: caseInstance}
 }
 
 func (o OngoingWhenThen) Then(expression Expression) CaseEnding {
+	if o.err != nil {
+		return caseError(o.err)
+	}
 	caseWhenThen := CaseWhenThenCreate(o.whenExpression, expression)
-	o.caseInstance.caseWhenThens = append(o.caseInstance.caseWhenThens, caseWhenThen)
+	caseWhenThens := make([]CaseWhenThen, 0, len(o.caseInstance.caseWhenThens)+1)
+	caseWhenThens = append(caseWhenThens, o.caseInstance.caseWhenThens...)
+	caseWhenThens = append(caseWhenThens, caseWhenThen)
+	var ending Case
 	if o.caseInstance.caseExpression != nil && o.caseInstance.caseExpression.isNotNil() {
-		return EndingSimpleCaseCreate(o.caseInstance.caseExpression, o.caseInstance.caseWhenThens)
+		ending = EndingSimpleCaseCreate(o.caseInstance.caseExpression, caseWhenThens)
 	} else {
-		return EndingGenericCaseCreate(o.caseInstance.caseWhenThens)
+		ending = EndingGenericCaseCreate(caseWhenThens)
 	}
+	if o.caseInstance.caseElse.isNotNil() {
+		return ending.ElseDefault(o.caseInstance.caseElse.elseExpression)
+	}
+	return ending
 }
 
 //CaseWhenThen
@@ -227,11 +256,8 @@ type CaseWhenThen struct {
 }
 
 func CaseWhenThenCreate(whenExpression Expression, thenExpression Expression) CaseWhenThen {
-	if thenExpression != nil && thenExpression.GetError() != nil {
-		return CaseWhenThen{err: thenExpression.GetError()}
-	}
-	if whenExpression != nil && whenExpression.GetError() != nil {
-		return CaseWhenThen{err: whenExpression.GetError()}
+	if err := errorOf(whenExpression, thenExpression); err != nil {
+		return CaseWhenThen{err: err}
 	}
 	caseWhenThen := CaseWhenThen{
 		thenExpression: thenExpression,
@@ -282,8 +308,8 @@ type CaseElse struct {
 }
 
 func CaseElseCreate(elseExpression Expression) CaseElse {
-	if elseExpression != nil && elseExpression.GetError() != nil {
-		return CaseElse{err: elseExpression.GetError()}
+	if err := errorOf(elseExpression); err != nil {
+		return CaseElse{err: err}
 	}
 	caseElse := CaseElse{elseExpression: elseExpression, notNil: true}
 	caseElse.key = getAddress(&caseElse)
-- 
2.43.0


From 14dd9b73981af7bf6324e14b89237a28cf5d13c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:43 +0000
Subject: [PATCH 14/33] fix: unions and subqueries check their parts

---
 cypher.go              |  3 +++
 distinct_expression.go |  4 ++--
 subquery.go            | 27 +++++++++++++++++----------
 union_part.go          |  4 ++--
 union_query.go         |  7 +++++--
 5 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/cypher.go b/cypher.go
index 959ad46..a247721 100644
--- a/cypher.go
+++ b/cypher.go
@@ -566,6 +566,9 @@ func unionImpl(unionAll bool, statements ...Statement) Statement {
 	existingUnionQuery := UnionQuery{}
 	if unionQuery, isUnion := statements[0].(UnionQuery); isUnion {
 		existingUnionQuery = unionQuery
+		if existingUnionQuery.err != nil {
+			return existingUnionQuery
+		}
 		if existingUnionQuery.all != unionAll {
 			return UnionQueryError(errors.New("cannot mix union and union all"))
 		}
diff --git a/distinct_expression.go b/distinct_expression.go
index 6c2358f..3786fc8 100644
--- a/distinct_expression.go
+++ b/distinct_expression.go
@@ -9,8 +9,8 @@ type DistinctExpression struct {
 }
 
 func DistinctExpressionCreate(delegate Expression) DistinctExpression {
-	if delegate != nil && delegate.GetError() != nil {
-		return DistinctExpressionError(delegate.GetError())
+	if err := errorOf(delegate); err != nil {
+		return DistinctExpressionError(err)
 	}
 	d := DistinctExpression{
 		delegate: delegate,
diff --git a/subquery.go b/subquery.go
index c9a65a0..2824ef5 100644
--- a/subquery.go
+++ b/subquery.go
@@ -12,8 +12,8 @@ type Subquery struct {
 }
 
 func SubqueryCreate(statement Statement) Subquery {
-	if statement != nil && statement.GetError() != nil {
-		return SubqueryError(statement.GetError())
+	if err := errorOf(statement); err != nil {
+		return SubqueryError(err)
 	}
 	subQuery := Subquery{
 		statement: statement,
@@ -24,9 +24,16 @@ func SubqueryCreate(statement Statement) Subquery {
 }
 
 func SubqueryCall(statement Statement) Subquery {
-	if statement != nil && statement.GetError() != nil {
-		return SubqueryError(statement.GetError())
+	if err := errorOf(statement); err != nil {
+		return SubqueryError(err)
 	}
+	if !returnsElements(statement) {
+		return SubqueryError(errors.New("only a statement that returns elements, either via return or yield, can be used In a subquery"))
+	}
+	return SubqueryCreate(statement)
+}
+
+func returnsElements(statement Statement) bool {
 	validReturn := false
 	if singlePartQuery, isSinglePartQuery := statement.(SinglePartQuery); isSinglePartQuery {
 		validReturn = singlePartQuery.doesReturnElements()
@@ -34,13 +41,13 @@ func SubqueryCall(statement Statement) Subquery {
 		validReturn = multiPartQuery.doesReturnElements()
 	} else if procedureCall, isProcedureCall := statement.(ProcedureCall); isProcedureCall {
 		validReturn = procedureCall.doesReturnElements()
-	} else if _, isUnionQuery := statement.(UnionQuery); isUnionQuery {
-		validReturn = true
-	}
-	if !validReturn {
-		return SubqueryError(errors.New("only a statement that returns elements, either via return or yield, can be used In a subquery"))
+	} else if unionQuery, isUnionQuery := statement.(UnionQuery); isUnionQuery {
+		validReturn = returnsElements(unionQuery.firstQuery)
+		for _, unionPart := range unionQuery.additionalQueries {
+			validReturn = validReturn && returnsElements(unionPart.query)
+		}
 	}
-	return SubqueryCreate(statement)
+	return validReturn
 }
 
 func SubqueryError(err error) Subquery {
diff --git a/union_part.go b/union_part.go
index 898bfa6..c984742 100644
--- a/union_part.go
+++ b/union_part.go
@@ -9,8 +9,8 @@ type UnionPart struct {
 }
 
 func UnionPartCreate(all bool, query SingleQuery) UnionPart {
-	if query != nil && query.GetError() != nil {
-		return UnionPartError(query.GetError())
+	if err := errorOf(query); err != nil {
+		return UnionPartError(err)
 	}
 	unionPart := UnionPart{
 		all:    all,
diff --git a/union_query.go b/union_query.go
index f77d800..50fda6d 100644
--- a/union_query.go
+++ b/union_query.go
@@ -18,8 +18,11 @@ func UnionQueryCreate(all bool, queries []SingleQuery) UnionQuery {
 		return UnionQueryError(errors.New("at least two queries are needed"))
 	}
 	for _, query := range queries {
-		if query != nil && query.GetError() != nil {
-			return UnionQueryError(query.GetError())
+		if err := errorOf(query); err != nil {
+			return UnionQueryError(err)
+		}
+		if union, isUnion := query.(UnionQuery); isUnion && union.all != all {
+			return UnionQueryError(errors.New("cannot mix union and union all"))
 		}
 	}
 	unionParts := make([]UnionPart, 0)
-- 
2.43.0


From 89ffe202fa5529e1701984533a880830439ae6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:21 +0000
Subject: [PATCH 15/33] fix: number literals keep their exact value

---
 number_literal.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/number_literal.go b/number_literal.go
index 1cb365d..eb4fac8 100644
--- a/number_literal.go
+++ b/number_literal.go
@@ -1,12 +1,17 @@
 package cypher
 
 import (
+	"errors"
+	"math"
 	"math/big"
+	"strconv"
+	"strings"
 )
 
 type NumberLiteral struct {
 	ExpressionContainer
 	content *big.Float
+	text    string
 	key     string
 	notNil  bool
 	err     error
@@ -15,6 +20,7 @@ type NumberLiteral struct {
 func NumberLiteralCreate(content int64) NumberLiteral {
 	n := NumberLiteral{
 		content: new(big.Float).SetInt(new(big.Int).SetInt64(content)),
+		text:    strconv.FormatInt(content, 10),
 		notNil:  true,
 	}
 	n.key = getAddress(&n)
@@ -23,8 +29,12 @@ func NumberLiteralCreate(content int64) NumberLiteral {
 }
 
 func NumberLiteralCreate2(content float64) NumberLiteral {
+	if math.IsNaN(content) || math.IsInf(content, 0) {
+		return NumberLiteralError(errors.New("number literal: only finite numbers can be written as a literal"))
+	}
 	n := NumberLiteral{
 		content: big.NewFloat(content),
+		text:    floatText(content),
 		notNil:  true,
 	}
 	n.key = getAddress(&n)
@@ -35,6 +45,7 @@ func NumberLiteralCreate2(content float64) NumberLiteral {
 func NumberLiteralCreate1(content int) NumberLiteral {
 	n := NumberLiteral{
 		content: new(big.Float).SetInt(new(big.Int).SetInt64(int64(content))),
+		text:    strconv.FormatInt(int64(content), 10),
 		notNil:  true,
 	}
 	n.key = getAddress(&n)
@@ -42,6 +53,22 @@ func NumberLiteralCreate1(content int) NumberLiteral {
 	return n
 }
 
+// floatText returns the shortest decimal notation that reads back as the given
+// value and as a floating point number.
+func floatText(content float64) string {
+	text := strings.Replace(strconv.FormatFloat(content, 'g', -1, 64), "e+", "e", 1)
+	if !strings.ContainsAny(text, ".e") {
+		text += ".0"
+	}
+	return text
+}
+
+func NumberLiteralError(err error) NumberLiteral {
+	n := NumberLiteral{err: err}
+	n.ExpressionContainer = ExpressionWrap(n)
+	return n
+}
+
 func (n NumberLiteral) GetError() error {
 	return n.err
 }
@@ -63,7 +90,7 @@ func (n NumberLiteral) GetContent() interface{} {
 }
 
 func (n NumberLiteral) AsString() string {
-	return n.content.String()
+	return n.text
 }
 
 func (n NumberLiteral) accept(visitor *CypherRenderer) {
-- 
2.43.0


From 0d9d73727e93f12a4423b1230f6422dda7f9e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:44 +0000
Subject: [PATCH 16/33] fix: boolean composition keeps grouping, errors and
 earlier conditions

---
 compound_condition.go  | 61 +++++++++++++++++++++++++++++-------------
 condition_container.go | 48 ++++++++++++++++++---------------
 constant_condition.go  |  4 ++-
 operator.go            |  7 +++++
 4 files changed, 79 insertions(+), 41 deletions(-)

diff --git a/compound_condition.go b/compound_condition.go
index 1f65447..70dfd79 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -43,12 +43,7 @@ func CompoundConditionCreate(left Condition, operator Operator, right Condition)
 	if right == nil || !right.isNotNil() {
 		return CompoundConditionError(errors.New("right hand side condition is required"))
 	}
-	condition := CompoundCondition{operator: operator, notNil: true}
-	condition.add(operator, left)
-	condition.add(operator, right)
-	condition.injectKey()
-	condition.ConditionContainer = ConditionWrap(condition)
-	return condition
+	return CompoundConditionCreate1(operator).add(operator, left).add(operator, right)
 }
 
 func CompoundConditionCreate1(operator Operator) CompoundCondition {
@@ -84,6 +79,7 @@ func (c CompoundCondition) isNotNil() bool {
 
 func (c CompoundCondition) accept(visitor *CypherRenderer) {
 	if len(c.conditions) == 0 {
+		visitor.fail(errors.New("a condition without any content cannot be rendered"))
 		return
 	}
 	hasManyConditions := len(c.conditions) > 1
@@ -147,34 +143,61 @@ var EMPTY_CONDITION = CompoundCondition{
 
 var VALID_OPERATORS = []Operator{AND, OR, XOR}
 
-func (c *CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
+func (c CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
+	if c.GetError() != nil {
+		return c
+	}
+	if condition == nil {
+		return c
+	}
+	if condition.GetError() != nil {
+		return CompoundConditionError(condition.GetError())
+	}
 	if c.GetExpressionType() == EMPTY_CONDITION_EXPRESSION {
 		newCompound := CompoundConditionCreate1(chainingOperator)
 		return newCompound.add(chainingOperator, condition)
 	}
 	if compoundCondition, isCompound := condition.(CompoundCondition); isCompound {
 		if !compoundCondition.hasCondition() {
-			return *c
+			return c
+		}
+		if len(c.conditions) > 0 && chainingOperator.bindsTighterThan(c.loosestOperator()) {
+			return CompoundConditionCreate(c, chainingOperator, condition)
 		}
 		if c.operator == chainingOperator && chainingOperator == compoundCondition.operator {
 			if compoundCondition.canBeFlattenedWith(chainingOperator) {
-				c.conditions = append(c.conditions, compoundCondition.conditions...)
-			} else {
-				c.conditions = append(c.conditions, compoundCondition)
+				return c.append(compoundCondition.conditions...)
 			}
-		} else {
-			inner := CompoundConditionCreate1(chainingOperator)
-			inner.conditions = append(inner.conditions, compoundCondition)
-			c.conditions = append(c.conditions, inner)
+			return c.append(compoundCondition)
 		}
-		return *c
+		return c.append(CompoundConditionCreate1(chainingOperator).append(compoundCondition))
 	}
 
 	if c.operator == chainingOperator {
-		c.conditions = append(c.conditions, condition)
-		return *c
+		return c.append(condition)
+	}
+	return CompoundConditionCreate(c, chainingOperator, condition)
+}
+
+// append gives a new compound condition with additional members, the receiver is left as it is.
+func (c CompoundCondition) append(conditions ...Condition) CompoundCondition {
+	newConditions := make([]Condition, 0, len(c.conditions)+len(conditions))
+	newConditions = append(newConditions, c.conditions...)
+	c.conditions = append(newConditions, conditions...)
+	c.injectKey()
+	c.ConditionContainer = ConditionWrap(c)
+	return c
+}
+
+// loosestOperator gives the operator that binds loosest of those between the members of this condition.
+func (c CompoundCondition) loosestOperator() Operator {
+	loosest := c.operator
+	for i, condition := range c.conditions {
+		if compound, isCompound := condition.(CompoundCondition); i > 0 && isCompound && loosest.bindsTighterThan(compound.operator) {
+			loosest = compound.operator
+		}
 	}
-	return CompoundConditionCreate(*c, chainingOperator, condition)
+	return loosest
 }
 
 func (c CompoundCondition) hasCondition() bool {
diff --git a/condition_container.go b/condition_container.go
index c1e6007..e32e365 100644
--- a/condition_container.go
+++ b/condition_container.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ConditionContainer struct {
 	ExpressionContainer
 }
@@ -10,43 +12,43 @@ func ConditionWrap(condition Condition) ConditionContainer {
 	}
 }
 
-func (b ConditionContainer) And(condition Condition) ConditionContainer {
-	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
-		return compoundCondition.And(condition)
+func (b ConditionContainer) chain(operator Operator, condition Condition) ConditionContainer {
+	current, isCondition := b.expression.(Condition)
+	if !isCondition {
+		return ConditionWrap(CompoundConditionError(errors.New("left hand side condition is required")))
+	}
+	if condition == nil {
+		return b
+	}
+	if compoundCondition, isCompound := current.(CompoundCondition); isCompound {
+		return ConditionWrap(compoundCondition.add(operator, condition))
 	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), AND, condition)
+	b.expression = CompoundConditionCreate(current, operator, condition)
 	return b
 }
 
+func (b ConditionContainer) And(condition Condition) ConditionContainer {
+	return b.chain(AND, condition)
+}
+
 func (b ConditionContainer) Or(condition Condition) ConditionContainer {
-	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
-		return compoundCondition.Or(condition)
-	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), OR, condition)
-	return b
+	return b.chain(OR, condition)
 }
 
 func (b ConditionContainer) Xor(condition Condition) ConditionContainer {
-	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
-		return compoundCondition.Xor(condition)
-	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), XOR, condition)
-	return b
+	return b.chain(XOR, condition)
 }
 
 func (b ConditionContainer) AndPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), AND, RelationshipPatternConditionCreate(pathPattern))
-	return b
+	return b.And(RelationshipPatternConditionCreate(pathPattern))
 }
 
 func (b ConditionContainer) OrPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), OR, RelationshipPatternConditionCreate(pathPattern))
-	return b
+	return b.Or(RelationshipPatternConditionCreate(pathPattern))
 }
 
 func (b ConditionContainer) XorPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), XOR, RelationshipPatternConditionCreate(pathPattern))
-	return b
+	return b.Xor(RelationshipPatternConditionCreate(pathPattern))
 }
 
 func (b ConditionContainer) Not() ConditionContainer {
@@ -55,5 +57,9 @@ func (b ConditionContainer) Not() ConditionContainer {
 }
 
 func (b ConditionContainer) Get() Condition {
-	return b.expression.(Condition)
+	condition, isCondition := b.expression.(Condition)
+	if !isCondition {
+		return CompoundConditionError(errors.New("the condition is missing"))
+	}
+	return condition
 }
diff --git a/constant_condition.go b/constant_condition.go
index 39ee28b..da219dc 100644
--- a/constant_condition.go
+++ b/constant_condition.go
@@ -25,7 +25,9 @@ func ConstantConditionCreate(value BooleanLiteral) ConstantCondition {
 }
 
 func ConstantConditionError(err error) ConstantCondition {
-	return ConstantCondition{err: err}
+	constantCondition := ConstantCondition{err: err}
+	constantCondition.ConditionContainer = ConditionWrap(constantCondition)
+	return constantCondition
 }
 
 func (c ConstantCondition) GetError() error {
diff --git a/operator.go b/operator.go
index 1cb225c..aca1e11 100644
--- a/operator.go
+++ b/operator.go
@@ -57,6 +57,13 @@ func (o Operator) getKey() string {
 	return o.key
 }
 
+func (o Operator) bindsTighterThan(other Operator) bool {
+	if o == AND {
+		return other == XOR || other == OR
+	}
+	return o == XOR && other == OR
+}
+
 func (o Operator) isUnary() bool {
 	return o.operatorType != BINARY
 }
-- 
2.43.0


From d36472805666710c7cfa05c18446195d7c8068f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 17/33] fix: functions call what they are named after and check
 their arguments

---
 function_invocation.go | 43 +++++++++++++++++++++++-------------------
 functions.go           | 40 ++++++++++++++++++++++-----------------
 procedure_call.go      |  7 +++++--
 3 files changed, 52 insertions(+), 38 deletions(-)

diff --git a/function_invocation.go b/function_invocation.go
index 36a4ad4..d6fd35c 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -14,15 +14,16 @@ type FunctionInvocation struct {
 }
 
 func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation {
-	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName(), nil)
+	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName())
 }
 
 func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...Expression) FunctionInvocation {
-	if arguments != nil {
-		for _, expression := range arguments {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
+	for _, expression := range arguments {
+		if err := errorOf(expression); err != nil {
+			return FunctionInvocationError(err)
+		}
+		if !expression.isNotNil() {
+			return FunctionInvocationError(errors.Errorf("function invocation create: an argument for %s is missing", functionName))
 		}
 	}
 	argumentVisitables := make([]Visitable, len(arguments))
@@ -40,14 +41,15 @@ func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...
 }
 
 func FunctionInvocationCreate(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
-	if expressions != nil {
-		for _, expression := range expressions {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
+	for _, expression := range expressions {
+		if err := errorOf(expression); err != nil {
+			return FunctionInvocationError(err)
+		}
+		if !expression.isNotNil() {
+			return FunctionInvocationError(errors.Errorf("function invocation create: expression for %s is required", definition.getImplementationName()))
 		}
 	}
-	if len(expressions) == 0 || expressions[0] == nil || !expressions[0].isNotNil() {
+	if len(expressions) == 0 {
 		return FunctionInvocationError(errors.Errorf("function invocation create: expression for %s is required", definition.getImplementationName()))
 	}
 	arguments := make([]Visitable, len(expressions))
@@ -105,17 +107,18 @@ func FunctionInvocationCreateWithPattern(definition FunctionDefinition, pattern
 }
 
 func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
-	if expressions != nil {
-		for _, expression := range expressions {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
+	for _, expression := range expressions {
+		if err := errorOf(expression); err != nil {
+			return FunctionInvocationError(err)
+		}
+		if !expression.isNotNil() {
+			return FunctionInvocationError(errors.Errorf("expression for %s is required", definition.getImplementationName()))
 		}
 	}
 	if !definition.isAggregate() {
 		return FunctionInvocationError(errors.New("the distinct operator can only be applied within aggregate functions"))
 	}
-	if len(expressions) == 0 || expressions[0] == nil || !expressions[0].isNotNil() {
+	if len(expressions) == 0 {
 		return FunctionInvocationError(errors.Errorf("expression for %s is required", definition.getImplementationName()))
 	}
 	arguments := make([]Visitable, 0)
@@ -134,9 +137,11 @@ func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions
 }
 
 func FunctionInvocationError(err error) FunctionInvocation {
-	return FunctionInvocation{
+	f := FunctionInvocation{
 		err: err,
 	}
+	f.ExpressionContainer = ExpressionWrap(f)
+	return f
 }
 
 func (f FunctionInvocation) GetError() error {
diff --git a/functions.go b/functions.go
index 1f4217e..2304f9f 100644
--- a/functions.go
+++ b/functions.go
@@ -46,6 +46,9 @@ func FunctionType(relationship Relationship) FunctionInvocation {
 }
 
 func Count(node Node) FunctionInvocation {
+	if node.GetError() != nil {
+		return FunctionInvocationError(node.err)
+	}
 	return FunctionInvocationCreate(COUNT, node.GetSymbolicName())
 }
 
@@ -54,6 +57,9 @@ func CountByExpression(expression Expression) FunctionInvocation {
 }
 
 func CountDistinct(node Node) FunctionInvocation {
+	if node.GetError() != nil {
+		return FunctionInvocationError(node.err)
+	}
 	return FunctionInvocationCreateDistinct(COUNT, node.GetSymbolicName())
 }
 
@@ -194,7 +200,7 @@ func CollectDistinct(expression Expression) FunctionInvocation {
 	if expression != nil && expression.GetError() != nil {
 		return FunctionInvocationError(expression.GetError())
 	}
-	return FunctionInvocationCreateDistinct(AVG, expression)
+	return FunctionInvocationCreateDistinct(COLLECT, expression)
 }
 
 /**
@@ -715,8 +721,8 @@ func DateWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DateWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
-		return FunctionInvocationError(temporalValue.GetError())
+	if err := errorOf(temporalValue); err != nil {
+		return FunctionInvocationError(err)
 	}
 	if !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions date with temporalValue :temporalValue is required"))
@@ -732,7 +738,7 @@ func DateWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Datetime() FunctionInvocation {
-	return FunctionInvocationCreate(DATETIME)
+	return FunctionInvocationCreate1(DATETIME)
 }
 
 /**
@@ -780,8 +786,8 @@ func DateTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DateTimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
-		return FunctionInvocationError(temporalValue.GetError())
+	if err := errorOf(temporalValue); err != nil {
+		return FunctionInvocationError(err)
 	}
 	if !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions datetime with temporalValue :temporalValue is required"))
@@ -797,7 +803,7 @@ func DateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalDatetime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALDATETIME)
+	return FunctionInvocationCreate1(LOCALDATETIME)
 }
 
 /**
@@ -860,8 +866,8 @@ func LocalDateTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalDateTimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
-		return FunctionInvocationError(temporalValue.GetError())
+	if err := errorOf(temporalValue); err != nil {
+		return FunctionInvocationError(err)
 	}
 	if !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions localdatetime with temporalValue :temporalValue is required"))
@@ -877,7 +883,7 @@ func LocalDateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Localtime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALTIME)
+	return FunctionInvocationCreate1(LOCALTIME)
 }
 
 /**
@@ -939,8 +945,8 @@ func LocalTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalTimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
-		return FunctionInvocationError(temporalValue.GetError())
+	if err := errorOf(temporalValue); err != nil {
+		return FunctionInvocationError(err)
 	}
 	if !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions localtime with temporalValue :temporalValue is required"))
@@ -956,7 +962,7 @@ func LocalTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Time() FunctionInvocation {
-	return FunctionInvocationCreate(TIME)
+	return FunctionInvocationCreate1(TIME)
 }
 
 /**
@@ -1019,8 +1025,8 @@ func TimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func TimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
-		return FunctionInvocationError(temporalValue.GetError())
+	if err := errorOf(temporalValue); err != nil {
+		return FunctionInvocationError(err)
 	}
 	if !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions time with temporalValue :temporalValue is required"))
@@ -1073,8 +1079,8 @@ func DurationWithTemporal(temporalAmount string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DurationWithExpression(temporalAmount Expression) FunctionInvocation {
-	if temporalAmount.GetError() != nil {
-		return FunctionInvocationError(temporalAmount.GetError())
+	if err := errorOf(temporalAmount); err != nil {
+		return FunctionInvocationError(err)
 	}
 	if !temporalAmount.isNotNil() {
 		return FunctionInvocationError(errors.New("functions duration with temporalAmount :temporalAmount is required"))
diff --git a/procedure_call.go b/procedure_call.go
index e57cd4d..c50f6f9 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -232,9 +232,12 @@ func (s StandaloneCallBuilder) isNotNil() bool {
 
 func (s StandaloneCallBuilder) AsFunction() Expression {
 	if s.err != nil {
-		return FunctionInvocation{err: s.err}
+		return FunctionInvocationError(s.err)
 	}
-	return FunctionInvocationCreate(FunctionDefinitionDefault{s.procedureName.getQualifiedName()}, s.arguments...)
+	if s.procedureName.GetError() != nil {
+		return FunctionInvocationError(s.procedureName.GetError())
+	}
+	return FunctionInvocationCreateWithFunctionName(s.procedureName.getQualifiedName(), s.arguments...)
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
-- 
2.43.0


From 2740130fc4d1e51b0d2e0869fc57998903fd6850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 18/33] fix: procedure names keep their namespace

---
 cypher.go         |  2 +-
 procedure_name.go | 27 +++++++++++++++++++--------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/cypher.go b/cypher.go
index a247721..2964fa6 100644
--- a/cypher.go
+++ b/cypher.go
@@ -424,7 +424,7 @@ func ACallSimple(procedureName string) OngoingStandaloneCallWithoutArguments {
 	if procedureName == "" {
 		return StandaloneCallBuilderError(errors.New("the procedure name must not be nil or empty"))
 	}
-	return ACall(strings.Split(procedureName, "\\.")...)
+	return ACall(strings.Split(procedureName, ".")...)
 }
 
 /**
diff --git a/procedure_name.go b/procedure_name.go
index 9cd37e3..659cbfb 100644
--- a/procedure_name.go
+++ b/procedure_name.go
@@ -1,6 +1,7 @@
 package cypher
 
 import (
+	"errors"
 	"strings"
 )
 
@@ -13,12 +14,20 @@ type ProcedureName struct {
 }
 
 func ProcedureNameCreate(namespaceAndProcedure ...string) ProcedureName {
-	if len(namespaceAndProcedure) == 1 {
+	inputLength := len(namespaceAndProcedure)
+	for _, part := range namespaceAndProcedure {
+		if part == "" {
+			inputLength = 0
+		}
+	}
+	if inputLength == 0 {
+		return ProcedureName{err: errors.New("the procedure name must not be nil or empty")}
+	}
+	if inputLength == 1 {
 		return ProcedureNameCreate1(namespaceAndProcedure[0])
 	} else {
-		values := make([]string, 0)
-		inputLength := len(namespaceAndProcedure)
-		copy(values, namespaceAndProcedure[1:inputLength-1])
+		values := make([]string, inputLength-1)
+		copy(values, namespaceAndProcedure[:inputLength-1])
 		namespace := NameSpaceCreate(values)
 		return ProcedureNameCreate2(namespace, namespaceAndProcedure[inputLength-1])
 	}
@@ -47,11 +56,10 @@ func ProcedureNameCreate2(namespace Namespace, value string) ProcedureName {
 }
 
 func (p ProcedureName) getQualifiedName() string {
-	namespace := ""
 	if p.optionalNamespace.isNotNil() {
-		namespace = strings.Join(p.optionalNamespace.content[:], ".")
+		return strings.Join(p.optionalNamespace.content[:], ".") + "." + p.value
 	}
-	return namespace + "." + p.value
+	return p.value
 }
 
 func (p ProcedureName) GetError() error {
@@ -60,7 +68,10 @@ func (p ProcedureName) GetError() error {
 
 func (p ProcedureName) accept(visitor *CypherRenderer) {
 	visitor.enter(p)
-	VisitIfNotNull(p.optionalNamespace, visitor)
+	if p.optionalNamespace.isNotNil() {
+		visit(p.optionalNamespace, visitor)
+		visitor.append(".")
+	}
 	visitor.leave(p)
 }
 
-- 
2.43.0


From a1d74d807803c86dba7dc822491877544ed86af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:57 +0000
Subject: [PATCH 19/33] fix: aliases are only used where they are defined, sort
 items of text sort by name

---
 alias_expression.go |  4 ++--
 cypher.go           | 24 +++++++++++++++++-------
 cypher_renderer.go  |  3 +++
 expression_list.go  | 18 +++++++++++++++---
 return_body.go      |  1 +
 union_part.go       |  2 ++
 6 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index bdc919c..b525414 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -69,8 +69,8 @@ func (aliased AliasedExpression) getKey() string {
 }
 
 func (aliased AliasedExpression) enter(renderer *CypherRenderer) {
-	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; visited {
-		renderer.append(EscapeIfNecessary(aliased.alias))
+	if seen, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; visited {
+		renderer.append(EscapeIfNecessary(seen.alias))
 	}
 }
 
diff --git a/cypher.go b/cypher.go
index 2964fa6..5577018 100644
--- a/cypher.go
+++ b/cypher.go
@@ -304,15 +304,25 @@ func ListOfRaw(elements ...interface{}) ListExpression {
 func SortItemsOfRaw(elements ...string) []SortItem {
 	sortItems := make([]SortItem, len(elements))
 	for index, element := range elements {
-		sortElements := strings.Split(element, " ")
-		literal := LiteralOf(sortElements[0])
+		sortElements := strings.Fields(element)
+		if len(sortElements) == 0 || len(sortElements) > 2 {
+			sortItems[index] = SortItemError(errors.New("sort item: a name and optionally a direction are required"))
+			continue
+		}
 		direction := UNDEFINED
-		if sortElements[1] == "ASC" {
-			direction = ASC
-		}else if sortElements[1] == "DESC" {
-			direction = DESC
+		if len(sortElements) == 2 {
+			direction = SortDirectionRaw(sortElements[1])
+			if direction != ASC && direction != DESC {
+				sortItems[index] = SortItemError(errors.New("sort item: the direction must be ASC or DESC"))
+				continue
+			}
+		}
+		names := strings.Split(sortElements[0], ".")
+		var expression Expression = ASymbolic(names[0])
+		for _, name := range names[1:] {
+			expression = APropertyByExpression(expression, name)
 		}
-		sortItems[index] = SortItemCreate(literal, direction)
+		sortItems[index] = SortItemCreate(expression, direction)
 	}
 	return sortItems
 }
diff --git a/cypher_renderer.go b/cypher_renderer.go
index b6261a0..ea3b2b3 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -110,6 +110,9 @@ func (renderer *CypherRenderer) leave(visitable Visitable) {
 	}
 	aliasedExpression, isAliased := (visitable).(AliasedExpression)
 	if isAliased {
+		if _, isKnown := renderer.visitableToAliased[aliasedExpression.delegate.getKey()]; isKnown {
+			return
+		}
 		renderer.visitableToAliased[aliasedExpression.delegate.getKey()] = aliasedExpression
 	}
 }
diff --git a/expression_list.go b/expression_list.go
index 9db0a0f..370a4e3 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -3,9 +3,11 @@ package cypher
 type ExpressionList struct {
 	ExpressionContainer
 	expressions []Expression
-	key         string
-	notNil      bool
-	err         error
+	// items of a WITH or RETURN may introduce aliases
+	introducesAliases bool
+	key               string
+	notNil            bool
+	err               error
 }
 
 func ExpressionListCreate(expressions []Expression) ExpressionList {
@@ -56,7 +58,17 @@ func (e ExpressionList) PrepareVisit(child Visitable) Visitable {
 func (e ExpressionList) accept(visitor *CypherRenderer) {
 	visitor.enter(e)
 	for _, expression := range e.expressions {
+		aliased, isAliased := expression.(AliasedExpression)
+		renamed := false
+		if e.introducesAliases && isAliased && aliased.isNotNil() {
+			seen, visited := visitor.visitableToAliased[aliased.delegate.getKey()]
+			renamed = visited && seen.alias != aliased.alias
+		}
 		visit(e.PrepareVisit(expression), visitor)
+		if renamed {
+			visitor.append(" AS ").append(EscapeIfNecessary(aliased.alias))
+			visitor.visitableToAliased[aliased.delegate.getKey()] = aliased
+		}
 	}
 	visitor.leave(e)
 }
diff --git a/return_body.go b/return_body.go
index 66a1735..7101f64 100644
--- a/return_body.go
+++ b/return_body.go
@@ -28,6 +28,7 @@ func ReturnBodyCreate(returnItems ExpressionList, order Order, skip Skip, limit
 	if limit.GetError() != nil {
 		return ReturnBodyError(limit.GetError())
 	}
+	returnItems.introducesAliases = true
 	r := ReturnBody{
 		returnItems: returnItems,
 		order:       order,
diff --git a/union_part.go b/union_part.go
index c984742..5c79f9e 100644
--- a/union_part.go
+++ b/union_part.go
@@ -42,6 +42,8 @@ func (u UnionPart) accept(visitor *CypherRenderer) {
 }
 
 func (u UnionPart) enter(renderer *CypherRenderer) {
+	// aliases are only known in the part of the union that defines them
+	renderer.visitableToAliased = make(map[string]AliasedExpression)
 	renderer.append(" UNION ")
 	if u.isAll() {
 		renderer.append("ALL ")
-- 
2.43.0


From 18a1b25b1e77804cf5b910c078d04cd7526df4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 20/33] fix: a procedure called with an empty argument list
 keeps its parentheses

---
 in_query_call_builder.go | 2 +-
 procedure_call.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 11151ca..8d3703b 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -92,7 +92,7 @@ func (i InQueryCallBuilder) Build() (Statement, error) {
 }
 
 func (i InQueryCallBuilder) WithArgs(arguments ...Expression) OngoingInQueryCallWithArguments {
-	i.arguments = append([]Expression{}, arguments...)
+	i.arguments = append([]Expression(nil), arguments...)
 	return i
 }
 
diff --git a/procedure_call.go b/procedure_call.go
index c50f6f9..2b126bd 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -241,7 +241,7 @@ func (s StandaloneCallBuilder) AsFunction() Expression {
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
-	s.arguments = append([]Expression{}, arguments...)
+	s.arguments = append([]Expression(nil), arguments...)
 	return s
 }
 
-- 
2.43.0


From 9c191c5c88240118f21e5235eb8ca9422223e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 21/33] fix: a list literal referenced by its alias renders no
 separators

---
 list_literal.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/list_literal.go b/list_literal.go
index f9b353d..f9957c4 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -37,15 +37,16 @@ func (l ListLiteral) GetError() error {
 
 func (l ListLiteral) accept(visitor *CypherRenderer) {
 	visitor.enter(l)
-	for i, literal := range l.content {
-		if(i > 0) {
-			visitor.append(", ")
-		}
+	for _, literal := range l.content {
 		visit(literal, visitor)
 	}
 	visitor.leave(l)
 }
 
+func (l ListLiteral) PrepareVisit(child Visitable) Visitable {
+	return child
+}
+
 func (l ListLiteral) enter(renderer *CypherRenderer) {
 	renderer.append("[")
 }
-- 
2.43.0


From 7209df5fe97a5d37524d5c00b720a8c40a99b3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 22/33] fix: a function without a name is refused

---
 function_invocation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/function_invocation.go b/function_invocation.go
index d6fd35c..fdc7ad8 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -18,6 +18,9 @@ func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation
 }
 
 func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...Expression) FunctionInvocation {
+	if functionName == "" {
+		return FunctionInvocationError(errors.New("function invocation create: the name of the function is required"))
+	}
 	for _, expression := range arguments {
 		if err := errorOf(expression); err != nil {
 			return FunctionInvocationError(err)
-- 
2.43.0


From 244c7b8c2d0acb69e68d531337fd5be15bcf4665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 23/33] fix: SET keeps its arguments in order and accepts
 computed values

---
 default_statement_builder.go | 32 ++++++++++++++++++++------------
 operation.go                 |  5 +++++
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 2944d04..43fce51 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -721,24 +721,32 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 	return RemoveBuilder{}, xerrors.Errorf("unexpected behavior")
 }
 
+// prepareSetExpression turns the arguments of a SET into assignments, in their
+// given order: assignments are taken as they are, everything else is a pair of a
+// target and its new value.
 func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, error) {
 	propertyOperations := make([]Expression, 0)
-	listOfExpressions := make([]Expression, 0)
-	for _, possibleSetOperation := range possibleSetOperations {
-		if err := errorOf(possibleSetOperation); err != nil {
+	for i := 0; i < len(possibleSetOperations); i++ {
+		target := possibleSetOperations[i]
+		if err := errorOf(target); err != nil {
 			return nil, err
 		}
-		if operation, isOperation := possibleSetOperation.(Operation); isOperation {
+		if operation, isOperation := target.(Operation); isOperation && operation.isAssignment() {
 			propertyOperations = append(propertyOperations, operation)
-		} else {
-			listOfExpressions = append(listOfExpressions, possibleSetOperation)
+			continue
 		}
-	}
-	if len(listOfExpressions)%2 != 0 {
-		return nil, xerrors.New("the list of expression to OperationSet must be even")
-	}
-	for i := 0; i < len(listOfExpressions); i += 2 {
-		operation := OperationSet(listOfExpressions[i], listOfExpressions[i+1])
+		i++
+		if i == len(possibleSetOperations) {
+			return nil, xerrors.New("the list of expression to OperationSet must be even")
+		}
+		value := possibleSetOperations[i]
+		if err := errorOf(value); err != nil {
+			return nil, err
+		}
+		if operation, isOperation := value.(Operation); isOperation && operation.isAssignment() {
+			return nil, xerrors.New("an assignment can not be the value of another one")
+		}
+		operation := OperationSet(target, value)
 		if operation.GetError() != nil {
 			return nil, operation.GetError()
 		}
diff --git a/operation.go b/operation.go
index 7df7748..fa9fa64 100644
--- a/operation.go
+++ b/operation.go
@@ -166,3 +166,8 @@ func (o Operation) needsGrouping() bool {
 	return (o.operator.operatorType != PROPERTY && o.operator.operatorType != LABEL) &&
 		(o.operator != EXPONENTIATION && o.operator != PIPE)
 }
+
+// isAssignment tells whether the operation changes a property, an entity or its labels
+func (o Operation) isAssignment() bool {
+	return o.operator.operatorType == PROPERTY || o.operator.operatorType == LABEL
+}
-- 
2.43.0


From f1e4e63f9ce51f58c35ba6c37a7c47643df06456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:13 +0000
Subject: [PATCH 24/33] fix: an alias stays known beside a second alias of its
 expression, NULL literals are distinct

---
 alias_expression.go |  7 +++++++
 cypher.go           |  2 +-
 cypher_renderer.go  | 21 ++++++++++++++++++++-
 expression_list.go  | 18 +++++++++++++-----
 union_part.go       |  1 +
 5 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index b525414..3067a05 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -23,6 +23,10 @@ func AliasedExpressionCreate(delegate Expression, alias string) AliasedExpressio
 	if alias == "" {
 		return AliasedExpressionError(errors.New("the alias may not be empty"))
 	}
+	// another alias for an aliased expression names the same expression
+	if aliased, isAliased := delegate.(AliasedExpression); isAliased {
+		delegate = aliased.delegate
+	}
 	a := AliasedExpression{
 		delegate: delegate,
 		alias:    alias,
@@ -70,6 +74,9 @@ func (aliased AliasedExpression) getKey() string {
 
 func (aliased AliasedExpression) enter(renderer *CypherRenderer) {
 	if seen, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; visited {
+		if renderer.isKnownAlias(aliased) {
+			seen = aliased
+		}
 		renderer.append(EscapeIfNecessary(seen.alias))
 	}
 }
diff --git a/cypher.go b/cypher.go
index 5577018..a209923 100644
--- a/cypher.go
+++ b/cypher.go
@@ -548,7 +548,7 @@ func CypherValueAtByExpression(targetExpression Expression, index Expression) Ex
 func LiteralOf(object interface{}) Literal {
 	//TODO: maybe we need to handle more literal type
 	if object == nil {
-		return NIL_INSTANCE
+		return NullLiteralCreate()
 	}
 	if stringValue, isString := object.(string); isString {
 		return StringLiteralCreate(stringValue)
diff --git a/cypher_renderer.go b/cypher_renderer.go
index ea3b2b3..999779a 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -9,6 +9,7 @@ import (
 
 type CypherRenderer struct {
 	visitableToAliased     map[string]AliasedExpression
+	knownAliases           map[string][]AliasedExpression
 	separatorOnLevel       map[int]string
 	resolvedSymbolicNames  map[SymbolicName]string
 	visitedNamed           map[string]int
@@ -36,6 +37,7 @@ func (renderer *CypherRenderer) append(content string) *CypherRenderer {
 func NewRenderer() *CypherRenderer {
 	return &CypherRenderer{
 		visitableToAliased:     make(map[string]AliasedExpression),
+		knownAliases:           make(map[string][]AliasedExpression),
 		separatorOnLevel:       make(map[int]string),
 		resolvedSymbolicNames:  make(map[SymbolicName]string),
 		visitedNamed:           make(map[string]int),
@@ -113,10 +115,27 @@ func (renderer *CypherRenderer) leave(visitable Visitable) {
 		if _, isKnown := renderer.visitableToAliased[aliasedExpression.delegate.getKey()]; isKnown {
 			return
 		}
-		renderer.visitableToAliased[aliasedExpression.delegate.getKey()] = aliasedExpression
+		renderer.setAliases(aliasedExpression.delegate.getKey(), []AliasedExpression{aliasedExpression})
 	}
 }
 
+// isKnownAlias tells whether the alias is one of those the expression has at this point.
+func (renderer *CypherRenderer) isKnownAlias(aliased AliasedExpression) bool {
+	for _, known := range renderer.knownAliases[aliased.delegate.getKey()] {
+		if known.alias == aliased.alias {
+			return true
+		}
+	}
+	return false
+}
+
+// setAliases makes the given aliases, at least one, those of an expression. The first one is used
+// in place of the expression.
+func (renderer *CypherRenderer) setAliases(key string, aliases []AliasedExpression) {
+	renderer.visitableToAliased[key] = aliases[0]
+	renderer.knownAliases[key] = aliases
+}
+
 func (renderer *CypherRenderer) PreEnter(visitable *Visitable) bool {
 	lastAliased := peekAliased(renderer.currentAliasedElements)
 	visited := false
diff --git a/expression_list.go b/expression_list.go
index 370a4e3..609051e 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -57,18 +57,26 @@ func (e ExpressionList) PrepareVisit(child Visitable) Visitable {
 
 func (e ExpressionList) accept(visitor *CypherRenderer) {
 	visitor.enter(e)
+	projected := make(map[string][]AliasedExpression)
 	for _, expression := range e.expressions {
 		aliased, isAliased := expression.(AliasedExpression)
-		renamed := false
-		if e.introducesAliases && isAliased && aliased.isNotNil() {
-			seen, visited := visitor.visitableToAliased[aliased.delegate.getKey()]
-			renamed = visited && seen.alias != aliased.alias
+		if !e.introducesAliases || !isAliased || !aliased.isNotNil() {
+			visit(e.PrepareVisit(expression), visitor)
+			continue
 		}
+		key := aliased.delegate.getKey()
+		_, visited := visitor.visitableToAliased[key]
+		renamed := visited && !visitor.isKnownAlias(aliased)
 		visit(e.PrepareVisit(expression), visitor)
 		if renamed {
 			visitor.append(" AS ").append(EscapeIfNecessary(aliased.alias))
-			visitor.visitableToAliased[aliased.delegate.getKey()] = aliased
+			visitor.knownAliases[key] = append([]AliasedExpression{}, append(visitor.knownAliases[key], aliased)...)
 		}
+		projected[key] = append(projected[key], aliased)
+	}
+	// from here on the expressions have exactly the aliases under which they were projected
+	for key, aliases := range projected {
+		visitor.setAliases(key, aliases)
 	}
 	visitor.leave(e)
 }
diff --git a/union_part.go b/union_part.go
index 5c79f9e..b238bb4 100644
--- a/union_part.go
+++ b/union_part.go
@@ -44,6 +44,7 @@ func (u UnionPart) accept(visitor *CypherRenderer) {
 func (u UnionPart) enter(renderer *CypherRenderer) {
 	// aliases are only known in the part of the union that defines them
 	renderer.visitableToAliased = make(map[string]AliasedExpression)
+	renderer.knownAliases = make(map[string][]AliasedExpression)
 	renderer.append(" UNION ")
 	if u.isAll() {
 		renderer.append("ALL ")
-- 
2.43.0


From a6404a87aff56910a02dfaecaab5bd772786bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:30 +0000
Subject: [PATCH 25/33] fix: YIELD names every result in full

---
 cypher_renderer.go |  6 ++++++
 yield_items.go     | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index 999779a..319f8a0 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -136,6 +136,12 @@ func (renderer *CypherRenderer) setAliases(key string, aliases []AliasedExpressi
 	renderer.knownAliases[key] = aliases
 }
 
+// forgetAliases makes an expression one without aliases.
+func (renderer *CypherRenderer) forgetAliases(key string) {
+	delete(renderer.visitableToAliased, key)
+	delete(renderer.knownAliases, key)
+}
+
 func (renderer *CypherRenderer) PreEnter(visitable *Visitable) bool {
 	lastAliased := peekAliased(renderer.currentAliasedElements)
 	visited := false
diff --git a/yield_items.go b/yield_items.go
index 30844d0..08438f9 100644
--- a/yield_items.go
+++ b/yield_items.go
@@ -50,9 +50,21 @@ func (e YieldItems) PrepareVisit(child Visitable) Visitable {
 
 func (e YieldItems) accept(visitor *CypherRenderer) {
 	visitor.enter(e)
+	yielded := make(map[string][]AliasedExpression)
 	for _, expression := range e.expressions {
+		// an item names a result of the procedure, whatever has that name before the call
+		key := expression.getKey()
+		aliased, isAliased := expression.(AliasedExpression)
+		if isAliased && aliased.isNotNil() {
+			key = aliased.delegate.getKey()
+			yielded[key] = append(yielded[key], aliased)
+		}
+		visitor.forgetAliases(key)
 		visit(e.PrepareVisit(expression), visitor)
 	}
+	for key, aliases := range yielded {
+		visitor.setAliases(key, aliases)
+	}
 	visitor.leave(e)
 }
 
-- 
2.43.0


From 1fbb25447a4558e52119dded04ff27854d796045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:00 +0000
Subject: [PATCH 26/33] fix: every literal is an expression of its own

---
 conditions.go | 4 ++--
 cypher.go     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/conditions.go b/conditions.go
index 5e43241..ae11192 100644
--- a/conditions.go
+++ b/conditions.go
@@ -18,9 +18,9 @@ func ConditionsNoCondition() Condition {
 }
 
 func ConditionsIsTrue() Condition {
-	return TRUE_CONDITION
+	return ConstantConditionCreate(BooleanLiteralCreate(true))
 }
 
 func ConditionsIsFalse() Condition {
-	return FALSE_CONDITION
+	return ConstantConditionCreate(BooleanLiteralCreate(false))
 }
diff --git a/cypher.go b/cypher.go
index a209923..2167926 100644
--- a/cypher.go
+++ b/cypher.go
@@ -331,14 +331,14 @@ func SortItemsOfRaw(elements ...string) []SortItem {
  * @return The {@literal true} literal.
  */
 func LiteralTrue() BooleanLiteral {
-	return TRUE
+	return BooleanLiteralCreate(true)
 }
 
 /**
  * @return The {@literal false} literal.
  */
 func LiteralFalse() BooleanLiteral {
-	return FALSE
+	return BooleanLiteralCreate(false)
 }
 
 /**
-- 
2.43.0


From c42e185f0eeee108e6d2c84ea11b8e2366de4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:23 +0000
Subject: [PATCH 27/33] fix: the parts of a union know the aliases from before
 the union

---
 cypher_renderer.go |  9 +++++++++
 union_part.go      |  3 ---
 union_query.go     | 19 ++++++++++++++++---
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index 319f8a0..7c44a46 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -136,6 +136,15 @@ func (renderer *CypherRenderer) setAliases(key string, aliases []AliasedExpressi
 	renderer.knownAliases[key] = aliases
 }
 
+// useAliases makes the given aliases the only ones that are known.
+func (renderer *CypherRenderer) useAliases(aliases map[string][]AliasedExpression) {
+	renderer.visitableToAliased = make(map[string]AliasedExpression)
+	renderer.knownAliases = make(map[string][]AliasedExpression)
+	for key, ofKey := range aliases {
+		renderer.setAliases(key, ofKey)
+	}
+}
+
 // forgetAliases makes an expression one without aliases.
 func (renderer *CypherRenderer) forgetAliases(key string) {
 	delete(renderer.visitableToAliased, key)
diff --git a/union_part.go b/union_part.go
index b238bb4..c984742 100644
--- a/union_part.go
+++ b/union_part.go
@@ -42,9 +42,6 @@ func (u UnionPart) accept(visitor *CypherRenderer) {
 }
 
 func (u UnionPart) enter(renderer *CypherRenderer) {
-	// aliases are only known in the part of the union that defines them
-	renderer.visitableToAliased = make(map[string]AliasedExpression)
-	renderer.knownAliases = make(map[string][]AliasedExpression)
 	renderer.append(" UNION ")
 	if u.isAll() {
 		renderer.append("ALL ")
diff --git a/union_query.go b/union_query.go
index 50fda6d..f81c09c 100644
--- a/union_query.go
+++ b/union_query.go
@@ -66,10 +66,23 @@ func (q UnionQuery) GetError() error {
 
 func (q UnionQuery) accept(visitor *CypherRenderer) {
 	visitor.enter(q)
-	visit(q.firstQuery, visitor)
-	for _, additionalQuery := range q.additionalQueries {
-		visit(additionalQuery, visitor)
+	// each part knows the aliases from before the union and its own ones, but none of the other parts
+	before := visitor.knownAliases
+	merged := make(map[string][]AliasedExpression)
+	for i := 0; i <= len(q.additionalQueries); i++ {
+		visitor.useAliases(before)
+		if i == 0 {
+			visit(q.firstQuery, visitor)
+		} else {
+			visit(q.additionalQueries[i-1], visitor)
+		}
+		for key, aliases := range visitor.knownAliases {
+			if _, isKnown := merged[key]; !isKnown {
+				merged[key] = aliases
+			}
+		}
 	}
+	visitor.useAliases(merged)
 	visitor.leave(q)
 }
 
-- 
2.43.0


From d662a02a49fdd419b0c1851426d65d01c2e71c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:23 +0000
Subject: [PATCH 28/33] fix: a projected property after a string is no value of
 it

---
 map_projection.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/map_projection.go b/map_projection.go
index 4e187eb..0af628f 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -106,6 +106,15 @@ func contentAt(content []interface{}, i int) interface{} {
 	return currentObject
 }
 
+// isProjectedProperty tells whether the content stands for a property of its own and is no value of a preceding key.
+func isProjectedProperty(content interface{}) bool {
+	if _, isAsterisk := content.(Asterisk); isAsterisk {
+		return true
+	}
+	_, isPropertyLookup := content.(PropertyLookup)
+	return isPropertyLookup
+}
+
 func createNewContent(content ...interface{}) ([]Expression, error) {
 	newContent := make([]Expression, 0)
 	knownKeys := make(map[string]int)
@@ -124,7 +133,7 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 			if aString == "" {
 				return nil, xerrors.New("map projection create new content: a key is required")
 			}
-			if anExpression, isExpression := next.(Expression); isExpression {
+			if anExpression, isExpression := next.(Expression); isExpression && !isProjectedProperty(next) {
 				lastKey = aString
 				lastExpression = anExpression
 				i += 2
-- 
2.43.0


From 82c1e6f0245b33274473c2f6cfc2c737aeacd43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:23 +0000
Subject: [PATCH 29/33] fix: a statement goes on after WITH ... SKIP

---
 statement_builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/statement_builder.go b/statement_builder.go
index 13d39ea..644b9bd 100644
--- a/statement_builder.go
+++ b/statement_builder.go
@@ -69,6 +69,8 @@ type OngoingUpdate interface {
 }
 
 type ExposesLimitAndOngoingReadingAndWith interface {
+	ExposesLimit
+	OngoingReadingAndWith
 }
 
 type OrderableOngoingReadingAndWithWithoutWhere interface {
-- 
2.43.0


From 110ce12999019ff92ebf7dc460cf1cc3dab5d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:56 +0000
Subject: [PATCH 30/33] fix: SET refuses the removal of labels

---
 default_statement_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 43fce51..65510da 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -732,6 +732,9 @@ func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, err
 			return nil, err
 		}
 		if operation, isOperation := target.(Operation); isOperation && operation.isAssignment() {
+			if operation.operator == REMOVE_LABEL {
+				return nil, xerrors.New("the removal of labels can not be set")
+			}
 			propertyOperations = append(propertyOperations, operation)
 			continue
 		}
-- 
2.43.0


From 6c8d1a40fa51b1c00710cabbc03c9bea29d2af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:55 +0000
Subject: [PATCH 31/33] fix: a function without a definition is refused

---
 function_invocation.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/function_invocation.go b/function_invocation.go
index fdc7ad8..5e579d0 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -14,6 +14,9 @@ type FunctionInvocation struct {
 }
 
 func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation {
+	if definition == nil {
+		return FunctionInvocationError(errors.New("the definition of the function is required"))
+	}
 	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName())
 }
 
@@ -44,6 +47,9 @@ func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...
 }
 
 func FunctionInvocationCreate(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
+	if definition == nil {
+		return FunctionInvocationError(errors.New("the definition of the function is required"))
+	}
 	for _, expression := range expressions {
 		if err := errorOf(expression); err != nil {
 			return FunctionInvocationError(err)
@@ -70,6 +76,9 @@ func FunctionInvocationCreate(definition FunctionDefinition, expressions ...Expr
 }
 
 func FunctionInvocationCreateWithPatternElement(definition FunctionDefinition, element PatternElement) FunctionInvocation {
+	if definition == nil {
+		return FunctionInvocationError(errors.New("the definition of the function is required"))
+	}
 	if element != nil && element.GetError() != nil {
 		return FunctionInvocationError(element.GetError())
 	}
@@ -89,6 +98,9 @@ func FunctionInvocationCreateWithPatternElement(definition FunctionDefinition, e
 }
 
 func FunctionInvocationCreateWithPattern(definition FunctionDefinition, pattern Pattern) FunctionInvocation {
+	if definition == nil {
+		return FunctionInvocationError(errors.New("the definition of the function is required"))
+	}
 	if pattern.GetError() != nil {
 		return FunctionInvocationError(pattern.GetError())
 	}
@@ -110,6 +122,9 @@ func FunctionInvocationCreateWithPattern(definition FunctionDefinition, pattern
 }
 
 func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
+	if definition == nil {
+		return FunctionInvocationError(errors.New("the definition of the function is required"))
+	}
 	for _, expression := range expressions {
 		if err := errorOf(expression); err != nil {
 			return FunctionInvocationError(err)
-- 
2.43.0


From ef53e13d30666afb3283583d7adf79b60ac2d554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:48 +0000
Subject: [PATCH 32/33] fix: unresolved symbolic names get a name of their own,
 the same in every rendering

---
 cypher_renderer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index 7c44a46..9f4298e 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -1,6 +1,7 @@
 package cypher
 
 import (
+	"fmt"
 	"github.com/rs/xid"
 	"golang.org/x/xerrors"
 	"strings"
@@ -89,7 +90,8 @@ func (renderer *CypherRenderer) resolve(name SymbolicName) string {
 		if len(value) > 0 {
 			return EscapeIfNecessary(value)
 		}
-		return renderer.guid.String()
+		// a name of its own, the same one in every rendering
+		renderer.resolvedSymbolicNames[name] = fmt.Sprintf("pcdsl%02d", len(renderer.resolvedSymbolicNames)+1)
 	}
 	return renderer.resolvedSymbolicNames[name]
 }
-- 
2.43.0


From b88ab2ece270c848b9e30ade0354b602ecdca022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:07 +0000
Subject: [PATCH 33/33] fix: an order, skip or limit of an empty RETURN is
 refused instead of dropped

---
 default_statement_with_return_builder.go | 2 +-
 default_statement_with_update.go         | 2 +-
 default_statement_with_with_builder.go   | 4 +---
 order_builder.go                         | 7 +++++++
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/default_statement_with_return_builder.go b/default_statement_with_return_builder.go
index 355443e..4f09b85 100644
--- a/default_statement_with_return_builder.go
+++ b/default_statement_with_return_builder.go
@@ -21,7 +21,7 @@ func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
 		return nil, d.err
 	}
 	var returning Return
-	if len(d.returnList) > 0 {
+	if len(d.returnList) > 0 || d.orderBuilder.hasDetails() {
 		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index ecde530..0540612 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -109,7 +109,7 @@ func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 		return nil, d.err
 	}
 	var returning Return
-	if len(d.returnList) > 0 {
+	if len(d.returnList) > 0 || d.orderBuilder.hasDetails() {
 		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index a6618d5..c8432da 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -26,9 +26,7 @@ func DefaultStatementWithWithBuilderError(err error) DefaultStatementWithWithBui
 func (d *DefaultStatementWithWithBuilder) buildWith() with {
 	condition := d.conditionBuilder.buildCondition()
 	order := d.orderBuilder.BuildOrder()
-	hasDetails := condition != nil || order.isNotNil() || order.GetError() != nil ||
-		d.orderBuilder.skip.isNotNil() || d.orderBuilder.limit.isNotNil() || d.orderBuilder.limit.GetError() != nil
-	if len(d.returnList) == 0 && !hasDetails {
+	if len(d.returnList) == 0 && condition == nil && !d.orderBuilder.hasDetails() {
 		return with{}
 	}
 	returnItems := ExpressionListCreate(d.returnList)
diff --git a/order_builder.go b/order_builder.go
index 9be0d25..c69c2b4 100644
--- a/order_builder.go
+++ b/order_builder.go
@@ -68,6 +68,13 @@ func (o *OrderBuilder) BuildOrder() Order {
 	return Order{}
 }
 
+// hasDetails tells whether an order, a number to skip or a limit was given.
+func (o *OrderBuilder) hasDetails() bool {
+	order := o.BuildOrder()
+	return order.isNotNil() || order.GetError() != nil ||
+		o.skip.isNotNil() || o.limit.isNotNil() || o.limit.GetError() != nil
+}
+
 func (o *OrderBuilder) reset() {
 	o.sortItemList = nil
 	o.lastSortItem = SortItem{}
-- 
2.43.0

