package props

import (
	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// Lists of names: whichever of them is empty, the statement is refused, and
// only then.
func C04_lists() {
	n := nodeN()
	m := cypher.Match(n)
	x := sym("x")
	o := cypher.AnyNode()
	k := nd.Choose("list", 36)
	size := 1 + nd.Choose("size", 4)
	ss := make([]string, 0, size)
	empty := false
	for i := 0; i < size; i++ {
		s := nd.StrOf("s", 0, 1, "a-z")
		ss = append(ss, s)
		empty = empty || s == ""
	}
	as := func() []expr {
		r := make([]expr, 0, size)
		for _, s := range ss {
			r = append(r, cypher.AliasedExpressionCreate(x, s))
		}
		return r
	}
	ys := func() []cypher.SymbolicName {
		r := make([]cypher.SymbolicName, 0, size)
		for _, s := range ss {
			r = append(r, cypher.ASymbolic(s))
		}
		return r
	}
	ps := func() []expr {
		r := make([]expr, 0, size)
		for _, s := range ss {
			r = append(r, n.Property(s))
		}
		return r
	}
	kv := func() []interface{} {
		r := make([]interface{}, 0, 2*size)
		for i, s := range ss {
			if s != "" {
				s = string(rune('a'+i)) + s
			}
			r = append(r, s, x)
		}
		return r
	}
	var b cypher.BuildableStatement
	switch k {
	case 0:
		b = cypher.Match(cypher.NewNodeWithLabels("A", ss...)).Returning(x)
	case 1:
		b = cypher.Match(cypher.NewNodeWithLabels(ss[0], ss[1:]...)).Returning(x)
	case 2:
		b = m.Where(n.HasLabels(ss...)).Returning(x)
	case 3:
		b = cypher.Match(n.RelationshipTo(o, ss...)).Returning(x)
	case 4:
		b = cypher.Match(n.RelationshipFrom(o, ss...)).Returning(x)
	case 5:
		b = cypher.Match(n.RelationshipBetween(o, ss...)).Returning(x)
	case 6:
		b = cypher.Match(knows().RelationshipTo(o, ss...)).Returning(x)
	case 7:
		b = cypher.Match(knows().RelationshipTo(o).RelationshipFrom(o, ss...)).Returning(x)
	case 8:
		b = cypher.Match(knows().RelationshipBetween(o, ss...)).Returning(x)
	case 9:
		b = m.SetByNode(n, ss...)
	case 10:
		b = m.RemoveByNode(n, ss...)
	case 11:
		b = m.Create(n).Set(n.Property("p").To(x)).SetByNode(n, ss...)
	case 12:
		b = m.WithByNamed(n).RemoveByNode(n, ss...).Returning(x)
	case 13:
		b = m.ReturningByString(ss...)
	case 14:
		b = m.ReturningDistinctByString(ss...)
	case 15:
		b = m.WithByString(ss...).Returning(x)
	case 16:
		b = m.WithDistinctByString(ss...).Returning(x)
	case 17:
		b = m.DeleteByString(ss...)
	case 18:
		b = m.WithByNamed(n).DetachDeleteByString(ss...)
	case 19:
		b = cypher.ACall(ss...)
	case 20:
		b = m.Call1(ss...).YieldString("a").Returning(x)
	case 21:
		b = cypher.ACallSimple("f").YieldString(ss...)
	case 22:
		b = m.Call1("f").YieldString(ss...).Returning(x)
	case 23:
		b = cypher.ACallSimple("f").YieldSymbolic(ys()...).Returning(x)
	case 24:
		b = m.Returning(as()...)
	case 25:
		b = m.With(as()...).Returning(x)
	case 26:
		b = m.Returning(ps()...)
	case 27:
		b = m.Remove(propsOf(n, ss)...)
	case 28:
		b = cypher.CypherReturning(cypher.MapOf(kv()...))
	case 29:
		b = cypher.Match(n.WithRawProperties(kv()...)).Returning(x)
	case 30:
		b = cypher.Match(n.RelationshipTo(o, "T").WithRawProperties(kv()...)).Returning(x)
	case 31:
		b = m.Returning(n.Project(kv()...))
	case 32:
		b = m.Create(n).DeleteByString(ss...)
	case 33:
		b = cypher.Create(n).WithByString(ss...).Returning(x)
	case 34:
		b = cypher.Match(cypher.NodeCreate5("A", cypher.MapOf("p", x), ss...)).Returning(x)
	case 35:
		b = cypher.Match(cypher.NodeCreate5(ss[0], cypher.MapOf("p", x), ss[1:]...)).Returning(x)
	}
	out, err := text(b)
	nd.Observe("text", out)
	if k >= 3 && k <= 8 {
		// an empty relationship type asks for no type
		empty = false
	}
	nd.Check("refusedExactly", (err != nil) == empty)
	nd.Check("noText", err == nil || out == "")
}

func propsOf(n cypher.Node, ss []string) []cypher.Property {
	r := make([]cypher.Property, 0, len(ss))
	for _, s := range ss {
		r = append(r, n.Property(s))
	}
	return r
}

// Lists of expressions: whichever of them was refused or is missing, the
// statement is refused, and only then.
func C04_operands() {
	k := nd.Choose("list", nOperandLists)
	size := 1 + nd.Choose("size", 4)
	es := make([]expr, 0, size)
	bad := false
	for i := 0; i < size; i++ {
		s := nd.StrOf("s", 0, 1, "a-z")
		bad = bad || s == ""
		es = append(es, cypher.ASymbolic(s))
	}
	refusedIf(bad, operandList(k, es))
}

// The same in long lists, anywhere.
func C04_many() {
	k := nd.Choose("list", nOperandLists)
	sizes := []int{6, 9, 16, 17, 33, 65}
	size := sizes[pick("size", len(sizes))]
	s := nd.StrOf("s", 0, 1, "a-z")
	at := []int{0, 1, 4, 5, 7, 8, 15, 16, 31, 32, 64, size / 2, size - 2, size - 1}[pick("at", 14)]
	if at >= size {
		nd.Assume(false)
	}
	var es []expr
	for i := 0; i < size; i++ {
		if i == at {
			es = append(es, cypher.ASymbolic(s))
		} else {
			es = append(es, cypher.ASymbolic("x"+itoa(i)))
		}
	}
	refusedIf(s == "", operandList(k, es))
}

func refusedIf(bad bool, b cypher.BuildableStatement) {
	out, err := text(b)
	nd.Observe("text", out)
	nd.Check("refusedExactly", (err != nil) == bad)
	nd.Check("noText", err == nil || out == "")
}

const nOperandLists = 22

// operandList is a statement with a list of expressions.
func operandList(k int, es []expr) (b cypher.BuildableStatement) {
	n := nodeN()
	m := cypher.Match(n)
	x := sym("x")
	size := len(es)
	p := func(i int) cypher.Property { return n.Property("p" + itoa(i)) }
	switch k {
	case 0:
		b = m.Returning(es...)
	case 1:
		b = m.ReturningDistinct(es...)
	case 2:
		b = m.With(es...).Returning(x)
	case 3:
		b = m.WithDistinct(es...).Returning(x)
	case 4:
		b = m.Delete(es...)
	case 5:
		b = m.WithByNamed(n).DetachDelete(es...)
	case 6:
		b = cypher.CypherReturning(cypher.ListOf(es...))
	case 7:
		b = cypher.CypherReturning(cypher.Coalesce(es...))
	case 8:
		b = cypher.CypherReturning(cypher.FunctionInvocationCreateWithFunctionName("f", es...))
	case 9:
		b = cypher.ACallSimple("f").WithArgs(es...)
	case 10:
		b = m.Call1("f").WithArgs(es...).YieldString("a").Returning(x)
	case 11:
		b = m.Returning(x).OrderBySortItem(items(es)...)
	case 12:
		b = m.WithByNamed(n).OrderBySortItem(items(es)...).Returning(x)
	case 13: // SET a list of assignments
		as := make([]expr, 0, size)
		for i, e := range es {
			as = append(as, p(i).To(e))
		}
		b = m.Set(as...)
	case 14:
		as := make([]expr, 0, size)
		for i, e := range es {
			as = append(as, p(i).To(e))
		}
		b = cypher.Merge(n).OnCreate().Set(as...)
	case 15:
		kv := make([]interface{}, 0, 2*size)
		for i, e := range es {
			kv = append(kv, "p"+itoa(i), e)
		}
		b = cypher.CypherReturning(cypher.MapOf(kv...))
	case 16:
		kv := make([]interface{}, 0, 2*size)
		for i, e := range es {
			kv = append(kv, "p"+itoa(i), e)
		}
		b = cypher.Match(n.WithRawProperties(kv...)).Returning(x)
	case 17:
		kv := make([]interface{}, 0, 2*size)
		for i, e := range es {
			kv = append(kv, "p"+itoa(i), e)
		}
		b = m.Returning(n.Project(kv...))
	case 18: // conditions joined one after the other
		c := p(0).IsEqualTo(es[0])
		for i, e := range es[1:] {
			c = c.And(p(i + 1).IsEqualTo(e).Get())
		}
		b = m.Where(c.Get()).Returning(x)
	case 19:
		c := p(0).IsEqualTo(es[0])
		for i, e := range es[1:] {
			c = c.Or(p(i + 1).IsEqualTo(e).Get())
		}
		b = m.Where(c.Get()).Returning(x)
	case 20: // operations one after the other
		c := wrap(es[0])
		for _, e := range es[1:] {
			c = c.Add(e)
		}
		b = m.Returning(c.Get())
	case 21: // branches of a CASE
		var cc extensible = cypher.CaseExpression(x)
		for i, e := range es {
			switch {
			case i%2 == 1:
				cc = cc.When(e).Then(x)
			case i > 2 && i == size-1:
				cc = cc.When(x).Then(x).ElseDefault(e).(extensible)
			default:
				cc = cc.When(x).Then(e)
			}
		}
		b = m.Returning(cc.(expr))
	}
	return b
}

func items(es []expr) []cypher.SortItem {
	r := make([]cypher.SortItem, 0, len(es))
	for _, e := range es {
		r = append(r, cypher.Sort(e))
	}
	return r
}

// A sort item given as text is a name and a direction, anything else is
// refused.
func C04_sortText() {
	w := nd.StrOf("word", 0, 4, "A-Z")
	x := sym("x")
	t, rest := "", ""
	switch pick("text", 6) {
	case 0:
		t = "x " + w
	case 1:
		t, rest = "x ASC "+w, "!"
	case 2:
		t, rest = "x  DESC  "+w+" ", "!"
	case 3:
		t, rest = w, "x"
	case 4:
		t, rest = " \t"+w+"\n", "x"
	case 5:
		t = "x.a\t" + w
	}
	good := w == "" || rest == "" && (w == "ASC" || w == "DESC")
	if rest == "x" {
		good = w != ""
	}
	items := cypher.SortItemsOfRaw("y DESC", t)
	var b cypher.BuildableStatement
	switch pick("place", 4) {
	case 0:
		b = cypher.CypherReturning(x).OrderBySortItem(items...)
	case 1:
		b = cypher.With(x).OrderBySortItem(items...).Returning(x)
	case 2:
		b = cypher.Match(nodeN()).Returning(x).OrderBySortItem(items...).Skip(1)
	case 3:
		b = cypher.Create(nodeN()).Returning(x).OrderBySortItem(items...)
	}
	out, err := text(b)
	nd.Observe("text", out)
	nd.Check("refusedExactly", (err == nil) == good)
	nd.Check("noText", err == nil || out == "")
}
