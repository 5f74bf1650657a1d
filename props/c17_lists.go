package props

import (
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// elements gives n elements, of which one (thorough: two next to each other)
// is of any kind.
func elements(n int, id string) (es []expr, t string) {
	var ts []string
	at := 0
	if n > 1 {
		at = pick("elementAt", n)
	}
	for i := 0; i < n; i++ {
		k := (i*7 + 3) % nArgs
		if i == at || nd.Thorough() && i == (at+1)%n {
			k = pick("element", nArgs)
		}
		a := argOf(k, id+stepText(i))
		es, ts = append(es, a.e), append(ts, a.t)
	}
	return es, strings.Join(ts, ", ")
}

// A list has the elements it was given, in order.
func C17_list() {
	n := pick("elements", 6)
	if nd.Thorough() {
		n = pick("more", 9)
	}
	es, t := elements(n, "l")
	t = "[" + t + "]"
	switch pick("form", 5) {
	case 0:
		nd.CheckEq("list", ok(stmt{returning(cypher.ListOf(es...))}), "RETURN "+t)
	case 1:
		nd.CheckEq("expressions", ok(stmt{returning(cypher.ListExpressionCreate1(es...))}), "RETURN "+t)
	case 2:
		nd.CheckEq("content", ok(stmt{returning(cypher.ListExpressionCreate(cypher.NewExpressionList(es...)))}), "RETURN "+t)
	case 3:
		l := cypher.ListOf(es...)
		nd.CheckEq("twice", ok(stmt{returning(cypher.ListOf(l, sym("z"), l))}), "RETURN ["+t+", z, "+t+"]")
	case 4: // one element is that element
		if n == 0 {
			return
		}
		if n == 1 {
			t = t[1 : len(t)-1]
		}
		nd.CheckEq("listOrSingle", ok(stmt{returning(cypher.ListOrSingleExpression(es...))}), "RETURN "+t)
	}
}

// Lists of Go values.
func C17_raw() {
	n := pick("elements", 6)
	at := 0
	if n > 0 {
		at = pick("at", n)
	}
	var vs []any
	var ls []cypher.Literal
	var ts []string
	for i := 0; i < n; i++ {
		k := i % 6
		if i == at {
			k = pick("kind", 8)
		}
		var v any
		var t string
		switch k {
		case 0:
			v, t = i, itoa(i)
		case 1:
			s := "s" + itoa(i)
			if i == at {
				s = nd.StrOf("value", 0, 3, "a-z")
			}
			v, t = s, "'"+s+"'"
		case 2:
			v, t = true, "true"
		case 3:
			v, t = false, "false"
		case 4:
			v, t = nil, "NULL"
		case 5:
			v, t = 1.5, "1.5"
		case 6:
			m := nd.Int("number", -1200, 1200)
			v, t = m, itoa(m)
		case 7:
			v, t = []cypher.Literal{cypher.LiteralOf(7), cypher.LiteralOf("in")}, "[7, 'in']"
		}
		vs, ls, ts = append(vs, v), append(ls, cypher.LiteralOf(v)), append(ts, t)
	}
	want := "RETURN [" + strings.Join(ts, ", ") + "]"
	nd.CheckEq("raw", ok(stmt{returning(cypher.ListOfRaw(vs...))}), want)
	nd.CheckEq("literals", ok(stmt{returning(cypher.ListLiteralCreate(ls))}), want)
	nd.CheckEq("literalOf", ok(stmt{returning(cypher.LiteralOf(ls))}), want)
}

const nSlices = 9

func slice(i int, e expr, lo, hi arg, n int) (expr, string) {
	switch i {
	case 0:
		return cypher.ASubList(e, n, 17), "[" + itoa(n) + "..17]"
	case 1:
		return cypher.ASubList(e, 0, n), "[0.." + itoa(n) + "]"
	case 2:
		return cypher.CypherSubListFrom(e, n), "[" + itoa(n) + "..]"
	case 3:
		return cypher.ASubListUntil(e, n), "[.." + itoa(n) + "]"
	case 4:
		return cypher.CypherValueAt(e, n), "[" + itoa(n) + "]"
	case 5:
		return cypher.SubList(e, lo.e, hi.e), "[" + lo.t + ".." + hi.t + "]"
	case 6:
		return cypher.ASubListFromByExpression(e, lo.e), "[" + lo.t + "..]"
	case 7:
		return cypher.CypherSubListUntilByExpression(e, hi.e), "[.." + hi.t + "]"
	case 8:
		return cypher.CypherValueAtByExpression(e, hi.e), "[" + hi.t + "]"
	}
	panic("no such slice")
}

// The bounds of a slice are the given ones.
func C17_slice() {
	i := pick("slice", nSlices)
	a := argOf(pick("list", nArgs), "l")
	n := 5
	if i < 5 {
		n = nd.Int("bound", -12000, 12000)
	}
	e, t := slice(i, a.e, arg{e: sym("b"), t: "b"}, arg{e: sym("c"), t: "c"}, n)
	placed("slice", []int{0, 5, 11, 20}[pick("place", 4)], e, a.target()+t)
}

func C17_bounds() {
	i := 5 + pick("slice", nSlices-5)
	lo := argOf(pick("from", nArgs), "b")
	hi := argOf((pick("until", 3)*11+len(lo.t))%nArgs, "c")
	if i != 5 {
		hi = lo
	}
	e, t := slice(i, sym("l"), lo, hi, 0)
	placed("bounds", 0, e, "l"+t)
}

// Slices of slices.
func C17_slices() {
	d := 2 + pick("depth", 3)
	e, t := sym("l"), "l"
	for j := 0; j < d; j++ {
		i := (j*4 + d) % nSlices
		if j < 2 || nd.Thorough() {
			i = pick("slice", nSlices)
		}
		var s string
		e, s = slice(i, e, argOf(j+15, "b"), argOf(j, "c"), j)
		t += s
	}
	placed("slices", 0, e, t)
}

func whereOf(i int, id string) (cond, string) {
	a, b, c := wrap(sym("a"+id)).IsNull(), wrap(sym("b"+id)).IsNotNull(), wrap(sym("c"+id)).IsEqualTo(sym("d"))
	switch i {
	case 0:
		return a.Get(), "a" + id + " IS NULL"
	case 1:
		return a.And(b.Get()).Get(), "(a" + id + " IS NULL AND b" + id + " IS NOT NULL)"
	case 2:
		return a.Or(b.Get()).And(c.Get()).Get(), "((a" + id + " IS NULL OR b" + id + " IS NOT NULL) AND c" + id + " = d)"
	case 3:
		return a.Or(b.Get()).Not().Get(), "NOT ((a" + id + " IS NULL OR b" + id + " IS NOT NULL))"
	case 4:
		return cypher.RelationshipPatternConditionCreate(hop(id)), hopText(id)
	}
	panic("no such condition")
}

const nWheres = 5

// A list comprehension has the variable, list, condition and results given to
// it, and only those.
func C17_comprehension() {
	v := nd.StrOf("variable", 1, 2, "j-m")
	k := pick("list", nArgs)
	src := argOf(k, "l")
	b := cypher.CypherListWith(cypher.ASymbolic(v)).In(src.e)
	t := "[" + v + " IN " + src.t
	var c cypher.OngoingDefinitionWithoutReturn = b
	if w := pick("where", nWheres+1); w > 0 {
		e, s := whereOf(w-1, "w")
		c = b.Where(e)
		t += " WHERE " + s
	}
	var e expr
	r := k % 6
	if k < 2 || nd.Thorough() {
		r = pick("result", 6)
	}
	switch r {
	case 0:
		e, t = c.ReturningDefault(), t+"]"
	case 1:
		k := 0
		if nd.Thorough() {
			k = pick("returned", nArgs)
		}
		a := argOf(k, "r")
		e, t = c.Returning(a.e), t+" | "+a.t+"]"
	case 2, 3:
		es, s := elements(r, "r")
		e, t = c.Returning(es...), t+" | ["+s+"]"+"]"
	case 4:
		e, t = c.ReturningByNamed(cypher.AnyNodeNamed("n")), t+" | n]"
	case 5:
		e, t = c.ReturningByNamed(cypher.AnyNodeNamed("n"), cypher.AnyNodeNamed("o")), t+" | [n, o]]"
	}
	placed("comprehension", 0, e, t)
}

func C17_returned() {
	a := argOf(pick("result", nArgs), "r")
	w, wt := whereOf(pick("where", nWheres), "w")
	place := pick("place", 3) * 9
	switch pick("form", 3) {
	case 0:
		placed("returned", place, cypher.CypherListWith(cypher.ASymbolic("v")).In(sym("l")).Where(w).Returning(a.e), "[v IN l WHERE "+wt+" | "+a.t+"]")
	case 1:
		placed("pattern", place, cypher.ListBasedOn(hop("p")).Where(w).Returning(a.e), "["+hopText("p")+" WHERE "+wt+" | "+a.t+"]")
	case 2:
		if a.cond > 0 {
			placed("condition", place, cypher.CypherListWith(cypher.ASymbolic("v")).In(sym("l")).Where(a.e.(cond)).ReturningDefault(), "[v IN l WHERE "+a.t+"]")
		}
	}
}

// The same for a pattern comprehension, whose condition grows by And and Or.
func C17_pattern() {
	var b cypher.PatternComprehensionOngoingDefinitionWithPattern
	p := "(pa:`A`)-[pr:`R`]->(pb)"
	rel := cypher.ANode("A").NamedByString("pa").RelationshipTo(cypher.AnyNodeNamed("pb"), "R").NamedByString("pr")
	switch pick("on", 3) {
	case 0:
		b = cypher.ListBasedOn(rel)
	case 1:
		b = cypher.ListBasedOn(rel.RelationshipFrom(cypher.ANode("C"), "S"))
		p += "<-[:`S`]-(:`C`)"
	case 2:
		b = cypher.ListBasedOnNamed(cypher.APath("path").DefinedBy(rel))
		p = "path = " + p
	}
	c, ct := condChain(b)
	t := "[" + p + ct
	var r cypher.PatternComprehensionOngoingDefinitionWithoutReturn = b
	if c != nil {
		r = c
	}
	switch n := pick("results", 5); n {
	case 0:
		placed("patternNamed", 0, r.ReturningByNamed(cypher.AnyNodeNamed("n")), t+" | n]")
	case 1:
		placed("patternNameds", 0, r.ReturningByNamed(cypher.AnyNodeNamed("n"), cypher.AnyNodeNamed("o")), t+" | [n, o]]")
	case 2:
		placed("patternOne", 0, r.Returning(sym("x")), t+" | x]")
	default:
		var es []expr
		var ts []string
		for i := 0; i < n-1; i++ {
			a := argOf((i*7+n)%nArgs, stepText(i))
			es, ts = append(es, a.e), append(ts, a.t)
		}
		placed("patternMany", 0, r.Returning(es...), t+" | ["+strings.Join(ts, ", ")+"]]")
	}
}

// condChain puts a condition on a pattern comprehension in up to four calls.
func condChain(b cypher.PatternComprehensionOngoingDefinitionWithPattern) (cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere, string) {
	n := pick("conditions", 4)
	if n == 0 {
		return nil, ""
	}
	var c cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere
	var t string
	if pick("wherePattern", 2) == 1 {
		c, t = b.WherePattern(hop("w")), hopText("w")
	} else {
		k := 0
		if n == 1 {
			k = pick("where", nWheres)
		}
		w, s := whereOf(k, "w")
		c, t = b.Where(w), s
		if n == 1 {
			return c, " WHERE " + t
		}
	}
	word := ""
	for i := 1; i < n; i++ {
		k := pick("more", 4)
		id := stepText(i)
		var s string
		next := " AND "
		switch k {
		case 0:
			c, s = c.And(wrap(sym(id)).IsNull().Get()), id+" IS NULL"
		case 1:
			c, s = c.AndPattern(hop(id)), hopText(id)
		case 2:
			c, s, next = c.Or(wrap(sym(id)).IsNull().Get()), id+" IS NULL", " OR "
		case 3:
			c, s, next = c.OrPattern(hop(id)), hopText(id), " OR "
		}
		if word != "" && word != next {
			t = "(" + t + ")"
		}
		t, word = t+next+s, next
	}
	if word != "" {
		t = "(" + t + ")"
	}
	return c, " WHERE " + t
}

// A predicate over a list has the kind, variable, list and condition given.
func C17_predicate() {
	v := nd.StrOf("variable", 1, 2, "j-m")
	kind := pick("kind", 4)
	word := []string{"all", "any", "none", "single"}[kind]
	var b cypher.OngoingListBasedPredicateFunction
	if pick("symbolic", 2) == 1 {
		b = []func(cypher.SymbolicName) cypher.OngoingListBasedPredicateFunction{cypher.PredicateAllBySymbolicName, cypher.PredicateAnyBySymbolicName, cypher.PredicateNoneBySymbolicName, cypher.PredicateSingleBySymbolicName}[kind](cypher.ASymbolic(v))
	} else {
		b = []func(string) cypher.OngoingListBasedPredicateFunction{cypher.PredicateAll, cypher.PredicateAny, cypher.PredicateNone, cypher.PredicateSingle}[kind](v)
	}
	src := argOf(pick("list", nArgs), "l")
	i := nWheres - 1
	if kind < 2 || nd.Thorough() {
		i = pick("where", nWheres)
	}
	w, wt := whereOf(i, "w")
	c := b.In(src.e).Where(w)
	t := word + "(" + v + " IN " + src.t + " WHERE " + wt + ")"
	if pick("negated", 2) == 1 {
		c, t = cypher.ConditionsNot(c), "NOT ("+t+")"
	}
	placed("predicate", 0, c, t)
}

// A predicate of any condition.
func C17_condition() {
	kind := pick("kind", 4)
	word := []string{"all", "any", "none", "single"}[kind]
	b := []func(string) cypher.OngoingListBasedPredicateFunction{cypher.PredicateAll, cypher.PredicateAny, cypher.PredicateNone, cypher.PredicateSingle}[kind]("v")
	a := argOf(pick("condition", nArgs), "w")
	if a.cond <= 0 {
		return
	}
	p, tpl := condPlace(pick("place", nCondPlaces), b.In(sym("l")).Where(a.e.(cond)))
	nd.CheckEq("predicateOf", ok(p), fill(tpl, word+"(v IN l WHERE "+a.t+")"))
}

// UNWIND unwinds the given list, or the list of what was given, as the given
// name.
func C17_unwind() {
	v := nd.StrOf("variable", 1, 2, "j-m")
	n := 1 + pick("elements", 4)
	es, t := elements(n, "u")
	m := cypher.Match(cypher.ANode("L").NamedByString("m"))
	var u cypher.OngoingUnwind
	head := "MATCH (m:`L`) "
	list := "[" + t + "]"
	if n == 1 {
		list = t
	}
	switch pick("form", 8) {
	case 0:
		u, head = cypher.UnwindMulti(es...), ""
		list = "[" + t + "]"
	case 1:
		u, head = cypher.Unwind(es[0]), ""
		if n > 1 {
			return
		}
	case 2:
		u = m.Unwinds(es...)
		list = "[" + t + "]"
	case 3:
		if n > 1 {
			return
		}
		u = m.Unwind(es[0])
	case 4:
		u, list = m.UnwindByString("w"), "w"
	case 5:
		u = m.With(sym("q")).Unwinds(es...)
		head += "WITH q "
		list = "[" + t + "]"
	case 6:
		if n > 1 {
			return
		}
		u = m.With(sym("q")).Unwind(es[0])
		head += "WITH q "
	case 7:
		u, list = m.With(sym("q")).UnwindByString("w"), "w"
		head += "WITH q "
	}
	nd.CheckEq("unwind", ok(u.As(v).Returning(sym(v))), head+"UNWIND "+list+" AS "+v+" RETURN "+v)
}

// Comprehensions in the parts of comprehensions.
func C17_nested() {
	d := 1 + pick("depth", 3)
	if nd.Thorough() {
		d = 1 + pick("deeper", 5)
	}
	e, t := sym("l"), "l"
	for j := 0; j < d; j++ {
		k := (j*3 + d) % 8
		if j < 2 || nd.Thorough() && j < 3 {
			k = pick("in", 8)
		}
		id := stepText(j)
		v := cypher.ASymbolic("v" + id)
		w, wt := whereOf((j+d)%nWheres, id)
		switch k {
		case 0:
			e, t = cypher.CypherListWith(v).In(e).ReturningDefault(), "[v"+id+" IN "+t+"]"
		case 1:
			e, t = cypher.CypherListWith(v).In(sym("x")).Where(w).Returning(e), "[v"+id+" IN x WHERE "+wt+" | "+t+"]"
		case 2:
			e, t = cypher.CypherListWith(v).In(e).Where(wrap(e).IsNotNull().Get()).Returning(e, v), "[v"+id+" IN "+t+" WHERE "+t+" IS NOT NULL | ["+t+", v"+id+"]]"
		case 3:
			e, t = cypher.ListBasedOn(hop(id)).Where(w).Returning(e), "["+hopText(id)+" WHERE "+wt+" | "+t+"]"
		case 4:
			e, t = cypher.ListOf(e, v), "["+t+", v"+id+"]"
		case 5:
			e, t = cypher.SubListFrom(e, v), t+"[v"+id+"..]"
		case 6:
			e, t = cypher.CypherValueAtByExpression(v, e), "v"+id+"["+t+"]"
		case 7:
			e, t = cypher.CypherListWith(v).In(sym("x")).Where(cypher.PredicateNone("u").In(e).Where(w)).ReturningDefault(), "[v"+id+" IN x WHERE none(u IN "+t+" WHERE "+wt+")]"
		}
	}
	placed("nested", []int{0, 3, 14, 30}[pick("place", 4)], e, t)
}
