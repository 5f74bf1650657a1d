package props

import (
	"math"
	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// A binop is a binary operator of the API, called on an expression.
type binop struct {
	sign string
	kind int // 0 comparison, 1 arithmetic, 2 power
	call func(l, r expr) expr
}

const nBinops = 24

func binopOf(i int) binop {
	get := func(f func(l, r expr) cypher.ConditionContainer) func(l, r expr) expr {
		return func(l, r expr) expr { return f(l, r).Get() }
	}
	val := func(f func(l, r expr) cypher.ExpressionContainer) func(l, r expr) expr {
		return func(l, r expr) expr { return f(l, r).Get() }
	}
	switch i {
	case 0:
		return binop{"=", 0, get(func(l, r expr) cypher.ConditionContainer { return l.IsEqualTo(r) })}
	case 1:
		return binop{"<>", 0, get(func(l, r expr) cypher.ConditionContainer { return l.IsNotEqualTo(r) })}
	case 2:
		return binop{"<", 0, get(func(l, r expr) cypher.ConditionContainer { return l.Lt(r) })}
	case 3:
		return binop{"<=", 0, get(func(l, r expr) cypher.ConditionContainer { return l.Lte(r) })}
	case 4:
		return binop{">", 0, get(func(l, r expr) cypher.ConditionContainer { return l.Gt(r) })}
	case 5:
		return binop{">=", 0, get(func(l, r expr) cypher.ConditionContainer { return l.Gte(r) })}
	case 6:
		return binop{"=~", 0, get(func(l, r expr) cypher.ConditionContainer { return l.Matches(r) })}
	case 7:
		return binop{"STARTS WITH", 0, get(func(l, r expr) cypher.ConditionContainer { return l.StartWiths(r) })}
	case 8:
		return binop{"ENDS WITH", 0, get(func(l, r expr) cypher.ConditionContainer { return l.EndsWith(r) })}
	case 9:
		return binop{"CONTAINS", 0, get(func(l, r expr) cypher.ConditionContainer { return l.Contains(r) })}
	case 10:
		return binop{"IN", 0, get(func(l, r expr) cypher.ConditionContainer { return l.In(r) })}
	case 11:
		return binop{"+", 1, val(func(l, r expr) cypher.ExpressionContainer { return l.Add(r) })}
	case 12:
		return binop{"-", 1, val(func(l, r expr) cypher.ExpressionContainer { return l.Subtract(r) })}
	case 13:
		return binop{"*", 1, val(func(l, r expr) cypher.ExpressionContainer { return l.Multiply(r) })}
	case 14:
		return binop{"/", 1, val(func(l, r expr) cypher.ExpressionContainer { return l.Divide(r) })}
	case 15:
		return binop{"%", 1, val(func(l, r expr) cypher.ExpressionContainer { return l.Remainder(r) })}
	case 16:
		return binop{"+", 1, val(func(l, r expr) cypher.ExpressionContainer { return l.Concat(r) })}
	case 17:
		return binop{"^", 2, val(func(l, r expr) cypher.ExpressionContainer { return l.Pow(r) })}
	case 18:
		return binop{"+", 1, func(l, r expr) expr { return cypher.OperationAdd(l, r) }}
	case 19:
		return binop{"-", 1, func(l, r expr) expr { return cypher.OperationSubtract(l, r) }}
	case 20:
		return binop{"/", 1, func(l, r expr) expr { return cypher.OperationCreate(l, cypher.DIVISION, r) }}
	case 21:
		return binop{"^", 2, func(l, r expr) expr { return cypher.OperationPow(l, r) }}
	case 22:
		return binop{">=", 0, func(l, r expr) expr { return cypher.ComparisonCreate(l, cypher.GREATER_THAN_OR_EQUAL_TO, r) }}
	case 23:
		return binop{"IN", 0, func(l, r expr) expr { return cypher.ComparisonCreate(l, cypher.IN, r) }}
	}
	panic("no such operator")
}

func (o binop) text(l, r string) string {
	switch o.kind {
	case 0:
		return l + " " + o.sign + " " + r
	case 1:
		return "(" + l + " " + o.sign + " " + r + ")"
	}
	return l + o.sign + r
}

// joined is the text of the operator between two arguments.
func (o binop) joined(l, r arg) string {
	if o.kind == 2 {
		return o.text(l.operand(), r.target())
	}
	return o.text(l.operand(), r.operand())
}

// Every operator between operands of every kind.
func C09_operands() {
	o := binopOf(pick("operator", nBinops))
	k := pick("kind", nArgs)
	l, r := argOf(k, "a"), argOf(3+k%2, "b")
	if pick("side", 2) == 1 {
		l, r = argOf(k%2, "a"), argOf(k, "b")
	}
	want := o.joined(l, r)
	placed("direct", 0, o.call(l.e, r.e), want)
	if o.kind == 0 {
		c := o.call(l.e, r.e).(cond)
		nd.CheckEq("where", ok(cypher.Match(nodeN()).Where(c).Returning(sym("x"))), "MATCH (n:`L`) WHERE "+want+" RETURN x")
		placed("not", 0, c.Not().Get(), "NOT ("+want+")")
	} else {
		e := o.call(l.e, r.e)
		placed("chained", 0, e.IsEqualTo(sym("z")).Get(), want+" = z")
		placed("chainedRight", 0, sym("z").Lt(e).Get(), "z < "+want)
	}
	placed("wrapped", 26, o.call(wrap(l.e).Get(), r.e), want)
	placed("alias", 3, o.call(l.e, r.e), want)
}

const nUnops = 12

func unop(i int, a arg) (expr, string) {
	e, t := a.e, a.operand()
	switch i {
	case 0:
		return e.IsNull().Get(), t + " IS NULL"
	case 1:
		return e.IsNotNull().Get(), t + " IS NOT NULL"
	case 2:
		return e.IsTrue().Get(), t + " = true"
	case 3:
		return e.IsFalse().Get(), t + " = false"
	case 4:
		return e.IsEmpty().Get(), "size(" + a.t + ") = 0"
	case 5:
		return e.MatchesPattern("a.*").Get(), t + " =~ 'a.*'"
	case 6:
		return cypher.ComparisonCreate1(cypher.IS_NULL, e), t + " IS NULL"
	case 7:
		return cypher.ComparisonCreate1(cypher.NOT, e), "NOT " + t
	case 8:
		return e.IsNull().Not().Get(), "NOT (" + t + " IS NULL)"
	case 9:
		return wrap(e).IsNotNull().And(sym("b").IsTrue().Get()).Get(), "(" + t + " IS NOT NULL AND b = true)"
	case 10:
		return wrap(e.IsNull().Get()).IsFalse().Get(), "(" + t + " IS NULL) = false"
	case 11:
		return wrap(e).As("al").Get(), a.t + " AS al"
	}
	panic("no such operator")
}

// Every operator of one operand.
func C09_unary() {
	i := pick("operator", nUnops)
	a := argOf(pick("kind", nArgs), "a")
	e, t := unop(i, a)
	if i == 11 {
		nd.CheckEq("item", ok(cypher.CypherReturning(sym("x"), e)), "RETURN x, "+t)
		return
	}
	placed("direct", 0, e, t)
	placed("listed", 20, e, t)
	placed("argument", 27, e, t)
}

// A tree of arithmetic and its canonical, fully grouped form.
type tree struct {
	e     expr
	full  string
	t     string // the text expected
	power bool
}

func leaf(i int) tree {
	switch i % 4 {
	case 1:
		return tree{e: cypher.LiteralOf(10 + i), full: itoa(10 + i), t: itoa(10 + i)}
	case 2:
		return tree{e: cypher.AProperty("n", "p"+stepText(i)), full: "n.p" + stepText(i), t: "n.p" + stepText(i)}
	case 3:
		return tree{e: cypher.AParam("q" + stepText(i)), full: "$q" + stepText(i), t: "$q" + stepText(i)}
	}
	return tree{e: sym("x" + stepText(i)), full: "x" + stepText(i), t: "x" + stepText(i)}
}

// joinTree applies an operator to two trees.
func joinTree(o binop, l, r tree) tree {
	rt := r.t
	if o.kind == 2 && r.power {
		rt = "(" + rt + ")"
	}
	return tree{o.call(l.e, r.e), "(" + l.full + " " + o.sign + " " + r.full + ")", o.text(l.t, rt), o.kind == 2}
}

// grow composes a tree of n leaves in every shape.
func grow(n int, next *int, signs int) tree {
	if n == 1 {
		*next++
		return leaf(*next)
	}
	k := 1
	if n > 2 {
		k = 1 + pick("left", n-1)
	}
	o := binopOf(11 + pick("sign", signs))
	l := grow(k, next, signs)
	r := grow(n-k, next, signs)
	return joinTree(o, l, r)
}

func grouping(t tree) {
	out := ok(cypher.CypherReturning(t.e))
	nd.CheckEq("text", out, "RETURN "+t.t)
	canon, rest := parseSum(out[len("RETURN "):])
	nd.CheckEq("parsed", rest, "")
	nd.CheckEq("grouped", canon, t.full)
}

// Every tree of arithmetic of a few operators.
func C09_grouping() {
	n := 4
	next := 0
	if nd.Thorough() {
		n = 5
	}
	n = 2 + pick("leaves", n-1)
	grouping(grow(n, &next, 7))
}

// Long ones: all to the left, all to the right, or changing sides.
func C09_long() {
	n := 9
	if nd.Thorough() {
		n = 30
	}
	a, b, side := 11+pick("first", 7), 11+pick("second", 7), pick("side", 3)
	t := leaf(0)
	for i := 0; i < n; i++ {
		o := binopOf(a)
		if i%2 == 1 {
			o = binopOf(b)
		}
		if side == 0 || side == 2 && i%2 == 0 {
			t = joinTree(o, t, leaf(i))
		} else {
			t = joinTree(o, leaf(i), t)
		}
	}
	grouping(t)
}

// Comparisons and conditions inside arithmetic and the other way round.
func C09_mixed() {
	a, b, c := binopOf(pick("first", 18)), binopOf(pick("second", 18)), binopOf(pick("third", 2)*11)
	x, y, z, w := arg{e: sym("x"), t: "x"}, arg{e: sym("y"), t: "y"}, arg{e: sym("z"), t: "z"}, arg{e: sym("w"), t: "w"}
	do := func(o binop, l, r arg) arg {
		k := 0
		if o.kind == 0 {
			k = 1
		}
		if o.kind == 2 {
			k = -1
		}
		return arg{o.call(l.e, r.e), o.joined(l, r), k}
	}
	var r arg
	switch pick("shape", 4) {
	case 0:
		r = do(c, do(b, do(a, x, y), z), w)
	case 1:
		r = do(c, do(a, x, y), do(b, z, w))
	case 2:
		r = do(a, x, do(b, y, do(c, z, w)))
	case 3:
		r = do(a, x, do(b, do(c, y, z), w))
	}
	placed("mixed", 0, r.e, r.t)
}

// parseSum reads arithmetic with Cypher's precedence; the operators of one
// level group to the left.
func parseSum(s string) (string, string) {
	return parseLeft(s, "+-", func(s string) (string, string) {
		return parseLeft(s, "*/%", func(s string) (string, string) { return parseLeft(s, "^", parseLeaf) })
	})
}

func parseLeft(s, signs string, inner func(string) (string, string)) (string, string) {
	l, s := inner(s)
	for {
		t := skipBlank(s)
		if t == "" || !oneOf(t[0], signs) {
			return l, s
		}
		sign := t[:1]
		var r string
		r, s = inner(skipBlank(t[1:]))
		l = "(" + l + " " + sign + " " + r + ")"
	}
}

func oneOf(c byte, in string) bool {
	for i := 0; i < len(in); i++ {
		if in[i] == c {
			return true
		}
	}
	return false
}

func skipBlank(s string) string {
	for s != "" && s[0] == ' ' {
		s = s[1:]
	}
	return s
}

func parseLeaf(s string) (string, string) {
	if s != "" && s[0] == '(' {
		in, rest := parseSum(s[1:])
		if rest == "" || rest[0] != ')' {
			return "?", rest
		}
		return in, rest[1:]
	}
	i := 0
	for i < len(s) && !oneOf(s[i], " +-*/%^()") {
		i++
	}
	return s[:i], s[i:]
}

// Assignments and changes of labels.
func C09_assign() {
	k := pick("kind", nArgs)
	a := argOf(k, "a")
	n := nodeN()
	m := cypher.Match(n)
	const pre = "MATCH (n:`L`) "
	switch pick("form", 9) {
	case 0:
		nd.CheckEq("to", ok(m.Set(n.Property("p").To(a.e))), pre+"SET n.p = "+a.t)
	case 1:
		nd.CheckEq("set", ok(m.Set(cypher.OperationSet(n.Property("p"), a.e), n.Property("q").To(a.e))), pre+"SET n.p = "+a.t+", n.q = "+a.t)
	case 2:
		nd.CheckEq("mutate", ok(m.Set(cypher.OperationCreate(sym("n"), cypher.MUTATE, a.e))), pre+"SET n += "+a.t)
	case 3:
		nd.CheckEq("created", ok(m.Set(cypher.OperationCreate(sym("n"), cypher.SET, a.e))), pre+"SET n = "+a.t)
	case 4:
		nd.CheckEq("named", ok(m.SetWithNamed(n, a.e)), pre+"SET n = "+a.t)
	case 5:
		nd.CheckEq("labels", ok(m.Set(cypher.OperationSetLabel(n, "A", "B"), n.Property("p").To(a.e))), pre+"SET n:`A`:`B`, n.p = "+a.t)
	case 6:
		nd.CheckEq("deep", ok(m.Set(cypher.PropertyCreate2(n.Property("p"), "q").To(a.e))), pre+"SET n.p.q = "+a.t)
	case 7:
		nd.CheckEq("relationship", ok(m.Set(knows().NamedByString("r").Property("p").To(a.e))), pre+"SET r.p = "+a.t)
	case 8:
		nd.CheckEq("pairs", ok(m.Set(n.Property("p"), a.e)), pre+"SET n.p = "+a.t)
	}
}

// Operands of every value.
func C09_values() {
	o := binopOf(pick("operator", 18))
	v := arg{}
	if pick("text", 2) == 0 {
		n := nd.Int("number", math.MinInt64, math.MaxInt64)
		v = arg{e: cypher.LiteralOf(n), t: itoa(n)}
	} else {
		s := nd.StrOf("text", 0, 3, "a-z %+*^")
		v = arg{e: cypher.LiteralOf(s), t: "'" + s + "'"}
	}
	if pick("side", 2) == 0 {
		placed("left", 0, o.call(v.e, sym("x")), o.text(v.t, "x"))
	} else {
		placed("right", 0, o.call(sym("x"), v.e), o.text("x", v.t))
	}
}
