package props

import (
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

const (
	opAnd = 0
	opXor = 1
	opOr  = 2
)

// A formula is a condition with the truth value it must have.
type formula struct {
	c    cond
	v    int  // its value, of the operands' values
	none bool // it is absent
	// The shape of an unparenthesised chain: its first operator and the loosest
	// operator inside it. Only the finding of K08 looks at it.
	comp      bool
	op, loose int
}

// operands are the operands of a formula, each with its text and its value.
type operands struct {
	n    int
	text [16]string
	val  [16]int
	kind int // the kind of the first operand

	repeated bool // some may be the same
}

const nLeaves = 16

// leaf is a new operand.
func (o *operands) leaf() formula {
	i := o.n
	o.n++
	kind := 0
	if i == 0 {
		kind = o.kind
	} else if i == 1 {
		kind = o.kind * 7
	}
	c, s := operandOf(kind, "x"+string(rune('a'+i)))
	o.text[i] = s
	o.val[i] = nd.Int("value", 0, 1)
	return formula{c: c, v: o.val[i]}
}

// operandOf is a simple condition about a name, and its text.
func operandOf(kind int, name string) (cond, string) {
	x := sym(name)
	var c cond
	s := ""
	node := cypher.AnyNodeNamed(name)
	switch kind % nLeaves {
	case 0:
		c, s = wrap(x).IsNull().Get(), name+" IS NULL"
	case 1:
		c, s = wrap(x).IsEqualTo(cypher.LiteralOf(1)).Get(), name+" = 1"
	case 2:
		c, s = node.HasLabels("L", "K"), name+":`L`:`K`"
	case 3:
		c, s = wrap(x).In(cypher.ListOf(x)).Get(), name+" IN ["+name+"]"
	case 4:
		c, s = cypher.PredicateExists(cypher.AProperty(name, "p")), "exists("+name+".p)"
	case 5:
		c, s = cypher.RelationshipPatternConditionCreate(node.RelationshipTo(cypher.AnyNode(), "T")), "("+name+")-[:`T`]->()"
	case 6:
		c, s = cypher.PredicateAll("v").In(x).Where(wrap(x).IsNull().And(wrap(x).IsNotNull().Get()).Get()), "all(v IN "+name+" WHERE ("+name+" IS NULL AND "+name+" IS NOT NULL))"
	case 7:
		c, s = wrap(x).Matches(cypher.LiteralOf("AND")).Get(), name+" =~ 'AND'"
	case 8:
		c, s = cypher.Match(node).AsCondition(), "EXISTS {MATCH ("+name+") }"
	case 9:
		c, s = cypher.PredicateNone("v").In(x).Where(wrap(x).IsNull().Get()), "none(v IN "+name+" WHERE "+name+" IS NULL)"
	case 10:
		c, s = wrap(x).IsNotNull().Get(), name+" IS NOT NULL"
	case 11:
		c, s = wrap(x).StartWiths(x).Get(), name+" STARTS WITH "+name
	case 12:
		c, s = cypher.Match(node).Where(wrap(x).IsNull().Or(wrap(x).IsNotNull().Get()).Get()).AsCondition(), "EXISTS {MATCH ("+name+") WHERE ("+name+" IS NULL OR "+name+" IS NOT NULL) }"
	case 13:
		c, s = wrap(wrap(x).Add(x).Get()).Gte(x).Get(), "("+name+" + "+name+") >= "+name
	case 14:
		c, s = cypher.ConditionsNotByPattern(node.RelationshipTo(cypher.AnyNode(), "T")), "NOT ("+name+")-[:`T`]->()"
	case 15:
		c, s = wrap(x).IsEmpty().Get(), "size("+name+") = 0"
	}
	return c, s
}

func combine(op, a, b int) int {
	switch op {
	case opAnd:
		return a & b
	case opXor:
		return a ^ b
	}
	return a | b
}

// join is a joined with b, with style choosing the way the API is used.
func join(style, op int, a, b formula) formula {
	if a.comp && b.c != nil && !b.comp && !b.none && op == a.op && a.loose > op {
		nd.Assume(false) // K08
	}
	var r cypher.ConditionContainer
	if style == 0 {
		switch op {
		case opAnd:
			r = a.c.And(b.c)
		case opXor:
			r = a.c.Xor(b.c)
		default:
			r = a.c.Or(b.c)
		}
	} else {
		w := cypher.ConditionWrap(a.c)
		switch op {
		case opAnd:
			r = w.And(b.c)
		case opXor:
			r = w.Xor(b.c)
		default:
			r = w.Or(b.c)
		}
	}
	return joined(op, a, b, r.Get())
}

// joined describes c, which is a joined with b.
func joined(op int, a, b formula, c cond) formula {
	switch {
	case b.none:
		a.c = c
		return a
	case a.none:
		b.c = c
		if !b.comp {
			// a chain of one member, ready to be continued with op
			b.comp, b.op, b.loose = true, op, op
		}
		return b
	}
	f := formula{c: c, v: combine(op, a.v, b.v), comp: true, op: op, loose: op}
	if a.comp && b.comp && op >= a.loose {
		// b hangs on a's chain
		f.op, f.loose = a.op, a.loose
		if b.op > f.loose {
			f.loose = b.op
		}
		if op > f.loose {
			f.loose = op
		}
	} else if a.comp && !b.comp && op == a.op {
		f.loose = a.loose
	}
	return f
}

func (o *operands) not(style int, a formula) formula {
	if style == 0 {
		return formula{c: a.c.Not().Get(), v: 1 - a.v}
	}
	return formula{c: cypher.ConditionsNot(a.c), v: 1 - a.v}
}

func absent(i int) formula {
	if i == 0 {
		return formula{none: true}
	}
	return formula{c: cypher.ConditionsNoCondition(), none: true}
}

// tree is a formula of at most the given depth.
func (o *operands) tree(style, depth, ops int) formula {
	k := 0
	if depth > 0 {
		k = nd.Choose("form", ops)
	}
	switch k {
	case 0:
		return o.leaf()
	case 1:
		return o.not(style, o.tree(style, depth-1, ops))
	}
	a := o.tree(style, depth-1, ops)
	b := o.tree(style, depth-1, ops)
	// 2: AND, 3: OR, 4: XOR
	return join(style, []int{opAnd, opOr, opXor}[k-2], a, b)
}

// A reading of a text as a boolean formula, by Cypher's precedence.
type reading struct {
	o    *operands
	s    string
	seen [16]int
	bad  bool
}

func (r *reading) next(w string) bool {
	if strings.HasPrefix(r.s, w) {
		r.s = r.s[len(w):]
		return true
	}
	return false
}

func (r *reading) or() int {
	v := r.xor()
	for !r.bad && r.next(" OR ") {
		v = v | r.xor()
	}
	return v
}

func (r *reading) xor() int {
	v := r.and()
	for !r.bad && r.next(" XOR ") {
		v = v ^ r.and()
	}
	return v
}

func (r *reading) and() int {
	v := r.not()
	for !r.bad && r.next(" AND ") {
		v = v & r.not()
	}
	return v
}

func (r *reading) not() int {
	for i := 0; i < r.o.n; i++ {
		if r.next(r.o.text[i]) {
			r.seen[i]++
			return r.o.val[i]
		}
	}
	if r.next("NOT ") {
		return 1 - r.not()
	}
	if r.next("(") {
		v := r.or()
		if !r.next(")") {
			r.bad = true
		}
		return v
	}
	r.bad = true
	return 0
}

// same states that a text between pre and post says the same as the formula.
func same(o *operands, f formula, out, pre, post string) {
	nd.Check("clauses", strings.HasPrefix(out, pre) && strings.HasSuffix(out, post) && len(out) >= len(pre)+len(post))
	if len(out) < len(pre)+len(post) {
		return
	}
	r := &reading{o: o, s: out[len(pre) : len(out)-len(post)]}
	v := r.or()
	nd.Check("formula", !r.bad && r.s == "")
	once := true
	for i := 0; i < o.n; i++ {
		once = once && r.seen[i] == 1
	}
	if !o.repeated {
		nd.Check("operands", once)
	}
	nd.Check("logic", v == f.v)
}

// Operands that are the same value, the same condition or differ in the case
// of a letter only. Saying a condition once or twice is the same where the
// logic is.
func C08_same() {
	o := &operands{repeated: true}
	n := 3 + pick("more", 2)
	kind, style := 0, 0
	if n == 3 {
		kind = []int{0, 5, 8}[pick("kind", 3)]
	}
	class, classes := classesOf(n)
	way := 0
	if classes < n {
		way = pick("way", 3)
	}
	if kind == 0 && n == 3 {
		style = pick("style", 2)
	}
	first := map[int]formula{}
	var fs []formula
	for i, k := range class {
		f, again := first[k]
		id := stepText(k)
		switch {
		case again && way == 0:
		case again && way == 1:
			f.c, _ = operandOf(kind, "x"+id)
		default:
			if way == 2 && i%2 == 1 {
				id = strings.ToUpper(id)
			}
			c, t := operandOf(kind, "x"+id)
			v := -1
			for j := 0; j < o.n; j++ {
				if o.text[j] == t {
					v = o.val[j]
				}
			}
			if v < 0 {
				v = nd.Int("value", 0, 1)
				o.text[o.n], o.val[o.n] = t, v
				o.n++
			}
			f = formula{c: c, v: v}
			first[k] = f
		}
		fs = append(fs, f)
	}
	if n == 3 {
		if k := pick("not", n+1); k < n {
			fs[k] = o.not(style, fs[k])
		}
	}
	op := func() int { return []int{opAnd, opOr, opXor}[pick("op", 3)] }
	var f formula
	switch {
	case n == 4:
		f = join(0, op(), join(0, op(), fs[0], fs[1]), join(0, op(), fs[2], fs[3]))
	case pick("shape", 2) == 0:
		f = join(style, op(), join(style, op(), fs[0], fs[1]), fs[2])
	default:
		f = join(style, op(), fs[0], join(style, op(), fs[1], fs[2]))
	}
	same(o, f, where(f.c), wherePre, wherePost)
}

func where(c cond) string {
	return ok(cypher.Match(nodeN()).Where(c).Returning(sym("x")))
}

const wherePre, wherePost = "MATCH (n:`L`) WHERE ", " RETURN x"

// Every tree of AND, OR, XOR and NOT up to a depth.
func C08_trees() {
	o := &operands{}
	ops := 4
	if nd.Thorough() {
		ops = 5
	}
	f := o.tree(nd.Choose("style", 2), 3, ops)
	same(o, f, where(f.c), wherePre, wherePost)
}

// The same with XOR, less deep in quick runs.
func C08_xor() {
	o := &operands{}
	s := nd.Choose("style", 2)
	a := o.tree(s, 2, 5)
	b := o.tree(s, 1, 5)
	op := nd.Choose("op", 3)
	f := join(s, op, a, b)
	if nd.Bool("swap") {
		f = join(s, op, b, a)
	}
	same(o, f, where(f.c), wherePre, wherePost)
}

// Chains: one operand after the other, some of them compound, negated or
// absent.
func C08_chains() {
	o := &operands{}
	style := nd.Choose("style", 2)
	operand := func() formula {
		switch k := nd.Choose("operand", 6); k {
		case 0:
			return o.leaf()
		case 1, 2, 3:
			return join(style, k-1, o.leaf(), o.leaf())
		case 4:
			return o.not(style, join(style, opAnd, o.leaf(), o.leaf()))
		}
		return absent(1)
	}
	f := operand()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		k := nd.Choose("step", 4)
		if k == 3 {
			if f.none {
				nd.Assume(false)
			}
			f = o.not(style, f)
			continue
		}
		f = join(style, k, f, operand())
	}
	if f.none {
		nd.CheckEq("nothing", where(f.c), "MATCH (n:`L`) RETURN x")
		return
	}
	same(o, f, where(f.c), wherePre, wherePost)
}

// Absent conditions on either side leave the other side alone.
func C08_absent() {
	o := &operands{kind: nd.Choose("kind", nLeaves)}
	style := nd.Choose("style", 2)
	var a formula
	if k := nd.Choose("first", 4); k == 0 {
		a = o.leaf()
	} else {
		a = join(style, k-1, o.leaf(), o.leaf())
	}
	op := nd.Choose("op", 3)
	alone := where(a.c)
	// joining one member with an absent condition adds at most parentheses
	switch nd.Choose("absent", 5) {
	case 0:
		a = join(style, op, a, absent(0))
	case 1:
		a = join(style, op, a, absent(1))
	case 2:
		f := join(style, op, absent(1), a)
		same(o, f, where(f.c), wherePre, wherePost)
		return
	case 3:
		a = join(style, op, join(style, nd.Choose("op2", 3), a, absent(1)), absent(0))
	case 4:
		f := join(style, op, join(style, nd.Choose("op2", 3), absent(1), absent(nd.Choose("which", 2))), a)
		same(o, f, where(f.c), wherePre, wherePost)
		return
	}
	nd.CheckEq("unchanged", where(a.c), alone)
	same(o, a, where(a.c), wherePre, wherePost)
}

// The conditions of a clause, given one by one.
func C08_builders() {
	o := &operands{}
	place := nd.Choose("place", 7)
	first := func() formula {
		switch k := nd.Choose("operand", 5); k {
		case 0:
			return o.leaf()
		case 1, 2, 3:
			return join(1, k-1, o.leaf(), o.leaf())
		}
		return absent(1)
	}
	f := first()
	steps := 2
	if nd.Thorough() {
		steps = 3
	}
	var fs []formula
	var ops []int
	g := f
	for i := 0; i < steps; i++ {
		op := []int{opAnd, opOr}[nd.Choose("op", 2)]
		b := first()
		if g.comp && !b.comp && !b.none && op == g.op && g.loose > op {
			nd.Assume(false) // K08
		}
		g = joined(op, g, b, nil)
		fs, ops = append(fs, b), append(ops, op)
	}
	x := sym("x")
	n := nodeN()
	var b cypher.BuildableStatement
	pre, post := "", ""
	switch place {
	case 0, 1, 2, 3:
		s := cypher.Match(n).Where(f.c)
		pre, post = wherePre, wherePost
		for i, y := range fs {
			if ops[i] == opAnd {
				s = s.And(y.c)
			} else {
				s = s.Or(y.c)
			}
		}
		switch place {
		case 0:
			b = s.Returning(x)
		case 1:
			b, post = s.Delete(x), " DELETE x"
		case 2:
			b, post = s.Match(cypher.AnyNodeNamed("o")).Returning(x), " MATCH (o) RETURN x"
		case 3:
			b, post = s.WithByNamed(n).Returning(x), " WITH n RETURN x"
		}
	case 4:
		s := cypher.Match(n).WithByNamed(n).Where(f.c)
		pre, post = "MATCH (n:`L`) WITH n WHERE ", " RETURN x"
		for i, y := range fs {
			if ops[i] == opAnd {
				s = s.And(y.c)
			} else {
				s = s.Or(y.c)
			}
		}
		b = s.Returning(x)
	case 5:
		s := cypher.ListBasedOn(knows()).Where(f.c)
		pre, post = "RETURN ["+knowsText+" WHERE ", " | x]"
		for i, y := range fs {
			if ops[i] == opAnd {
				s = s.And(y.c)
			} else {
				s = s.Or(y.c)
			}
		}
		b = cypher.CypherReturning(s.Returning(x))
	case 6:
		s := cypher.ACallSimple("f").YieldString("y").Where(f.c)
		pre, post = "CALL f() YIELD y WHERE ", " RETURN x"
		for i, y := range fs {
			if ops[i] == opAnd {
				s = s.And(y.c)
			} else {
				s = s.Or(y.c)
			}
		}
		b = s.Returning(x)
	}
	out := ok(b)
	if g.none {
		if i := strings.Index(pre, " WHERE "); i >= 0 {
			nd.CheckEq("nothing", out, pre[:i]+post)
		}
		return
	}
	same(o, g, out, pre, post)
}

// A formula at every place that takes a condition.
func C08_places() {
	o := &operands{kind: nd.Choose("kind", nLeaves)}
	a, b, c := o.leaf(), o.leaf(), o.leaf()
	op := nd.Choose("op", 3)
	op2 := (op + 1 + o.kind) % 3
	if nd.Thorough() {
		op2 = nd.Choose("op2", 3)
	}
	f := join(1, op, a, join(1, op2, b, c))
	if nd.Bool("negated") {
		f = o.not(0, f)
	}
	i := nd.Choose("place", nCondPlaces)
	st, tpl := condPlace(i, f.c)
	h := strings.Index(tpl, H)
	pre, post := tpl[:h], tpl[h+1:]
	op3 := -1
	switch i {
	case 9, 11, 13, 15, 18:
		op3 = opAnd
	case 10, 12, 14, 16:
		op3 = opOr
	case 19:
		op3 = opXor
	}
	if op3 >= 0 { // the place joins it with another operand
		o.text[3], o.val[3], o.n = "a IS NULL", nd.Int("value", 0, 1), 4
		w := strings.Index(pre, "WHERE ") + 6
		e := strings.LastIndex(post, ")")
		if i == 10 {
			e = strings.Index(post, ")")
		}
		pre, post = pre[:w], post[e+1:]
		f.v = combine(op3, f.v, o.val[3])
	}
	same(o, f, ok(st), pre, post)
}

// Every kind of operand with every operator, negated or not.
func C08_kinds() {
	o := &operands{kind: nd.Choose("kind", nLeaves)}
	f := o.leaf()
	style := nd.Choose("style", 2)
	if nd.Bool("negated") {
		f = o.not(style, f)
	}
	g := o.leaf()
	op := nd.Choose("op", 3)
	var c cypher.ConditionContainer
	p := cypher.AnyNodeNamed("q").RelationshipTo(cypher.AnyNode())
	switch nd.Choose("with", 3) {
	case 0:
		f = join(style, op, f, g)
	case 1:
		f = join(style, op, g, f)
	case 2:
		o.text[o.n], o.val[o.n] = "(q)-->()", nd.Int("value", 0, 1)
		w := cypher.ConditionWrap(f.c)
		switch op {
		case opAnd:
			c = w.AndPattern(p)
		case opXor:
			c = w.XorPattern(p)
		default:
			c = w.OrPattern(p)
		}
		f = join(style, nd.Choose("op2", 3), formula{c: c.Get(), v: combine(op, f.v, o.val[o.n]), comp: true, op: op, loose: op}, g)
		o.n = 3
	}
	same(o, f, where(f.c), wherePre, wherePost)
}

// The finding: a chain that was continued with a looser operator and a
// compound operand, and is then continued with its first operator and a
// simple operand, is not grouped.
func K08_flattened() {
	o := &operands{}
	a := join(1, opAnd, o.leaf(), o.leaf())
	b := join(1, opOr, a, join(1, opAnd, o.leaf(), o.leaf()))
	d := o.leaf()
	f := formula{c: cypher.ConditionWrap(b.c).And(d.c).Get(), v: b.v & d.v}
	same(o, f, where(f.c), wherePre, wherePost)
}
