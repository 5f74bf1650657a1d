package props

import (
	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// Two statements are built from parts of one list of the caller's: a piece of
// it first, then all of it. What is done with the piece has to leave the list
// as it is, and both statements have to be those of lists of their own.

type sliceUse struct {
	exprs func(es []expr) []cypher.BuildableStatement
	strs  func(ss []string) []cypher.BuildableStatement
	items func(is []cypher.SortItem) []cypher.BuildableStatement
	pats  func(ps []cypher.PatternElement) []cypher.BuildableStatement
}

func all(bs ...cypher.BuildableStatement) []cypher.BuildableStatement { return bs }

const nSliceUses = 26

func useOf(i int) sliceUse {
	x := sym("x")
	n := nodeN()
	m := cypher.Match(n)
	z := sym("z")
	switch i {
	case 0:
		return sliceUse{exprs: func(es []expr) []cypher.BuildableStatement {
			r := m.Returning(es...)
			return all(r, r.OrderBy(z), r.OrderBy(x).Descending().And(z), r.Skip(1).Limit(2))
		}}
	case 1:
		return sliceUse{exprs: func(es []expr) []cypher.BuildableStatement {
			w := cypher.With(es...)
			return all(w.Returning(z), w.Where(isNull("c")).Returning(x), w.OrderByExpression(z).Descending().And1(x).Limit(1).Returning(z))
		}}
	case 2:
		return sliceUse{exprs: func(es []expr) []cypher.BuildableStatement {
			w := m.WithDistinct(es...)
			return all(w.Returning(z), w.With(es...).Returning(z), w.Delete(es...))
		}}
	case 3:
		return sliceUse{exprs: func(es []expr) []cypher.BuildableStatement {
			l := cypher.ListOf(es...)
			return all(showExpr(l), showExpr(cypher.ListOf(l, z)), cypher.UnwindMulti(es...).As("u").Returning(z))
		}}
	case 4:
		return sliceUse{exprs: func(es []expr) []cypher.BuildableStatement {
			return all(showExpr(cypher.Coalesce(es...)), showExpr(cypher.FunctionInvocationCreateWithFunctionName("f", es...)))
		}}
	case 5:
		return sliceUse{exprs: func(es []expr) []cypher.BuildableStatement {
			c := cypher.ACallSimple("p").WithArgs(es...)
			d := m.Call1("p").WithArgs(es...)
			return all(d.YieldString("y").Returning(es...), showExpr(c.AsFunction()), cypher.ACallSimple("p").WithArgs(es...).(yielding).YieldString("y").Returning(z))
		}}
	case 6:
		return sliceUse{exprs: func(es []expr) []cypher.BuildableStatement {
			d := m.Delete(es...)
			return all(d.(cypher.BuildableStatement), d.Returning(z), d.Delete(z).(cypher.BuildableStatement), m.DetachDelete(es...).DeleteByString("z").(cypher.BuildableStatement))
		}}
	case 7:
		return sliceUse{exprs: func(es []expr) []cypher.BuildableStatement {
			ops := make([]expr, len(es), cap(es))
			for i := range es {
				ops[i] = n.Property("p" + stepText(i)).To(es[i])
			}
			s := m.Set(ops...)
			return all(s, s.Set(n.Property("q").To(z)), s.Returning(z), cypher.Merge(n).OnCreate().Set(ops...), cypher.Merge(n).OnMatch().Set(ops...).OnCreate().Set(ops[:1]...))
		}}
	case 8:
		return sliceUse{exprs: func(es []expr) []cypher.BuildableStatement {
			l := cypher.CypherListWith(cypher.ASymbolic("v")).In(x).Returning(es...)
			p := cypher.ListBasedOn(knows()).Returning(es...)
			return all(showExpr(l), showExpr(p), showExpr(cypher.ListBasedOn(knows()).Where(isNull("c")).Returning(es...)))
		}}
	case 9:
		return sliceUse{exprs: func(es []expr) []cypher.BuildableStatement {
			en := make([]expr, len(es), cap(es))
			for i := range es {
				en[i] = cypher.KeyValueMapEntryCreate("k"+stepText(i), es[i])
			}
			a := cypher.MapOf("j", x).AddEntries(en)
			return all(showExpr(a), showExpr(a.AddEntries(en[:1])), showExpr(cypher.MapOf("j", x).AddEntries(en).AddEntries(nil)))
		}}
	case 10:
		return sliceUse{exprs: func(es []expr) []cypher.BuildableStatement {
			c := make([]interface{}, 0, 2*cap(es))
			for i := range es {
				c = append(c, "k"+stepText(i), es[i])
			}
			p := n.Project(c...)
			return all(showExpr(p), showExpr(p.And("a", x)), showExpr(cypher.MapOf(c...)), showPat(n.WithRawProperties(c...)), showPat(knows().WithRawProperties(c...)))
		}}
	case 11:
		return sliceUse{exprs: func(es []expr) []cypher.BuildableStatement {
			c := make([]interface{}, len(es), cap(es))
			for i := range es {
				c[i] = es[i]
			}
			p := n.Project(c...)
			return all(showExpr(p), showExpr(p.And("a")), showExpr(cypher.MapProjectionCreate(cypher.ASymbolic("y"), c...)))
		}}
	case 12:
		return sliceUse{strs: func(ss []string) []cypher.BuildableStatement {
			r := m.ReturningByString(ss...)
			return all(r, r.OrderBy(z), m.ReturningDistinctByString(ss...).Limit(2))
		}}
	case 13:
		return sliceUse{strs: func(ss []string) []cypher.BuildableStatement {
			w := m.WithByString(ss...)
			return all(w.Returning(z), w.WithDistinctByString(ss...).Returning(z), m.DeleteByString(ss...).DetachDeleteByString(ss...).(cypher.BuildableStatement))
		}}
	case 14:
		return sliceUse{strs: func(ss []string) []cypher.BuildableStatement {
			k := cypher.NewNodeWithLabels("P", ss...)
			return all(showPat(k), showPat(k.NamedByString("n")), showPat(k.WithRawProperties("k", x)), showPat(k.RelationshipTo(k, "T")))
		}}
	case 15:
		return sliceUse{strs: func(ss []string) []cypher.BuildableStatement {
			r := n.RelationshipTo(cypher.AnyNode(), ss...)
			return all(showPat(r), showPat(r.NamedByString("r").Min(1)), showPat(r.RelationshipFrom(cypher.AnyNode(), ss...)), showPat(r.RelationshipTo(n).RelationshipBetween(n, ss...)))
		}}
	case 16:
		return sliceUse{strs: func(ss []string) []cypher.BuildableStatement {
			return all(m.SetByNode(n, ss...), m.RemoveByNode(n, ss...), m.SetByNode(n, ss...).SetByNode(n, "Z"), showExpr(n.HasLabels(ss...)))
		}}
	case 17:
		return sliceUse{strs: func(ss []string) []cypher.BuildableStatement {
			c := cypher.ACall(ss...)
			return all(c.(yielding).YieldString(ss...).Returning(z), m.Call1(ss...).YieldString(ss...).Returning(z), showExpr(c.WithArgs(x).AsFunction()))
		}}
	case 18:
		return sliceUse{strs: func(ss []string) []cypher.BuildableStatement {
			si := cypher.SortItemsOfRaw(ss...)
			return all(m.Returning(z).OrderBySortItem(si...), m.Returning(z).OrderBySortItem(si[:1]...).And(x))
		}}
	case 19:
		return sliceUse{items: func(is []cypher.SortItem) []cypher.BuildableStatement {
			r := m.Returning(z).OrderBySortItem(is...)
			return all(r, r.And(x), r.And(x).Descending().And(z), r.Skip(1).Limit(2))
		}}
	case 20:
		return sliceUse{items: func(is []cypher.SortItem) []cypher.BuildableStatement {
			w := m.With(z).OrderBySortItem(is...)
			return all(w.Returning(z), w.And(isNull("c")).Returning(z), w.OrderByExpression(x).Limit(1).Returning(z))
		}}
	case 21:
		return sliceUse{items: func(is []cypher.SortItem) []cypher.BuildableStatement {
			r := cypher.Create(n).Returning(z).OrderBySortItem(is...)
			return all(r, r.And(x), r.Limit(2))
		}}
	case 22:
		return sliceUse{pats: func(ps []cypher.PatternElement) []cypher.BuildableStatement {
			r := cypher.Match(ps...)
			return all(r.Returning(z), r.Match(cypher.AnyNodeNamed("q")).Returning(z), r.OptionalMatch(ps...).Returning(z))
		}}
	case 23:
		return sliceUse{pats: func(ps []cypher.PatternElement) []cypher.BuildableStatement {
			r := cypher.Create(ps...)
			return all(r, r.Create(cypher.AnyNodeNamed("q")), m.Create(ps...).Returning(z), m.With(z).Create(ps...))
		}}
	case 24:
		return sliceUse{pats: func(ps []cypher.PatternElement) []cypher.BuildableStatement {
			r := cypher.Merge(ps[0])
			return all(r, r.Merge(ps[1]), m.Merge(ps[1]).Merge(ps[0]))
		}}
	case 25:
		return sliceUse{exprs: func(es []expr) []cypher.BuildableStatement {
			var ss []cypher.Statement
			for _, e := range es {
				ss = append(ss, returning(e))
			}
			ss = append(make([]cypher.Statement, 0, len(ss)+2), ss...)
			return all(stmt{cypher.Union(ss...)}, stmt{cypher.UnionAll(append(ss, returning(z))...)}, stmt{cypher.Union(cypher.UnionAll(ss...), ss[0])})
		}}
	}
	panic("no such use")
}

func texts(bs []cypher.BuildableStatement) []string {
	var r []string
	for _, b := range bs {
		out, err := text(b)
		if err != nil {
			out = "refused: " + err.Error()
		}
		r = append(r, out)
	}
	return r
}

// C06_slices takes a piece of a list and then the list.
func C06_slices() {
	u := useOf(pick("use", nSliceUses))
	n := 3 + pick("length", 3)
	k := 2 + pick("piece", n-2)
	names := make([]string, n)
	for i := range names {
		names[i] = "e" + stepText(i)
	}
	// run gives the statements made of the first k parts and of all of them
	var run func(own bool) ([]cypher.BuildableStatement, []cypher.BuildableStatement)
	switch {
	case u.exprs != nil:
		run = func(own bool) ([]cypher.BuildableStatement, []cypher.BuildableStatement) {
			xs := make([]expr, n)
			for i := range xs {
				xs[i] = sym(names[i])
			}
			p := xs[:k]
			if own {
				p = append([]expr{}, p...)
			}
			a := u.exprs(p)
			return a, u.exprs(xs)
		}
	case u.strs != nil:
		run = func(own bool) ([]cypher.BuildableStatement, []cypher.BuildableStatement) {
			xs := append([]string{}, names...)
			p := xs[:k]
			if own {
				p = append([]string{}, p...)
			}
			a := u.strs(p)
			return a, u.strs(xs)
		}
	case u.items != nil:
		run = func(own bool) ([]cypher.BuildableStatement, []cypher.BuildableStatement) {
			xs := make([]cypher.SortItem, n)
			for i := range xs {
				xs[i] = cypher.Sort(sym(names[i]))
				if i%2 == 1 {
					xs[i] = xs[i].Descending()
				}
			}
			p := xs[:k]
			if own {
				p = append([]cypher.SortItem{}, p...)
			}
			a := u.items(p)
			return a, u.items(xs)
		}
	default:
		run = func(own bool) ([]cypher.BuildableStatement, []cypher.BuildableStatement) {
			xs := make([]cypher.PatternElement, n)
			for i := range xs {
				xs[i] = hop(names[i])
				if i%2 == 1 {
					xs[i] = cypher.AnyNodeNamed(names[i])
				}
			}
			p := xs[:k]
			if own {
				p = append([]cypher.PatternElement{}, p...)
			}
			a := u.pats(p)
			return a, u.pats(xs)
		}
	}
	a, b := run(false)
	c, d := run(true)
	ta, tb, tc, td := texts(a), texts(b), texts(c), texts(d)
	for i := range ta {
		nd.CheckEq("piece", ta[i], tc[i])
		nd.CheckEq("whole", tb[i], td[i])
	}
}
