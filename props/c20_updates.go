package props

import (
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

const nAssignments = 10

// assignment is the i-th kind of what SET takes: one or two arguments.
func assignment(i int, id string, a arg) ([]expr, string) {
	n := cypher.ANode("L").NamedByString("n" + id)
	p := n.Property("p" + id)
	pt := "n" + id + ".p" + id
	switch i {
	case 0:
		return []expr{p.To(a.e)}, pt + " = " + a.t
	case 1:
		return []expr{p, a.e}, pt + " = " + a.t
	case 2:
		return []expr{sym("n" + id), a.e}, "n" + id + " = " + a.t
	case 3:
		return []expr{cypher.OperationSet(p, a.e)}, pt + " = " + a.t
	case 4:
		return []expr{cypher.OperationCreate(sym("n"+id), cypher.MUTATE, a.e)}, "n" + id + " += " + a.t
	case 5:
		return []expr{cypher.OperationSetLabel(n, "A"+id)}, "n" + id + ":`A" + id + "`"
	case 6:
		return []expr{cypher.OperationSetLabel(n, "A", "B"+id, "C")}, "n" + id + ":`A`:`B" + id + "`:`C`"
	case 7:
		q := cypher.PropertyCreate2(cypher.PropertyCreate2(sym("m"+id), "a"), "b")
		return []expr{q, a.e}, "m" + id + ".a.b = " + a.t
	case 8:
		r := cypher.AnyNodeNamed("s").RelationshipTo(cypher.AnyNode(), "T").NamedByString("r" + id)
		return []expr{r.Property("p").To(a.e)}, "r" + id + ".p = " + a.t
	case 9:
		return []expr{cypher.AProperty("n"+id, "p").To(a.e)}, "n" + id + ".p = " + a.t
	}
	panic("no such assignment")
}

// assignments gives n of them. One is of any kind and takes a.
func assignments(n int, a arg) ([]expr, string) {
	var es []expr
	var ts []string
	at := 0
	if n > 1 {
		at = pick("assignmentAt", n)
	}
	for i := 0; i < n; i++ {
		k, v := (i*3+n)%nAssignments, argOf((i*7+n)%nArgs, stepText(i))
		if i == at || nd.Thorough() && i == (at+1)%n {
			k = pick("assignment", nAssignments)
		}
		if i == at {
			v = a
		}
		e, t := assignment(k, stepText(i), v)
		es, ts = append(es, e...), append(ts, t)
	}
	return es, strings.Join(ts, ", ")
}

const nSetters = 11

// setter is something on which SET can be called.
func setter(i int) (cypher.ExposesSet, string) {
	n := cypher.ANode("L").NamedByString("n")
	o := cypher.AnyNodeNamed("o")
	m := cypher.Match(n)
	mt := "MATCH (n:`L`) "
	x, y := sym("x"), sym("y")
	switch i {
	case 0:
		return m, mt
	case 1:
		return m.Where(wrap(x).IsNull().Get()), mt + "WHERE x IS NULL "
	case 2:
		return m.With(x, y), mt + "WITH x, y "
	case 3:
		return cypher.Create(n, o), "CREATE (n:`L`), (o) "
	case 4:
		return m.Merge(o), mt + "MERGE (o) "
	case 5:
		return cypher.Merge(n).OnMatch().Set(x, y), "MERGE (n:`L`) ON MATCH SET x = y "
	case 6:
		return m.Set(x, y), mt + "SET x = y "
	case 7:
		return m.Remove(n.Property("q")), mt + "REMOVE n.q "
	case 8:
		return m.SetByNode(n, "A"), mt + "SET n:`A` "
	case 9:
		return cypher.Unwind(x).As("y"), "UNWIND x AS y "
	case 10:
		return m.Merge(o).OnCreate().SetWithNamed(n, x).OnMatch().Set(y, x), mt + "MERGE (o) ON CREATE SET n = x ON MATCH SET y = x "
	}
	panic("no such setter")
}

const nAfterUpdate = 5

// What comes after an update: k, or anything if that is negative or there is
// time for it.
func afterUpdate(k int, b cypher.BuildableStatement, t string) (cypher.BuildableStatement, string) {
	x := sym("z")
	if nd.Thorough() || k < 0 {
		k = pick("then", nAfterUpdate)
	}
	switch k {
	case 0:
		return b, t
	case 1:
		return b.(cypher.ExposesReturning).Returning(x), t + " RETURN z"
	case 2:
		return b.(cypher.ExposesWith).With(x).Returning(x), t + " WITH z RETURN z"
	case 3:
		return b.(cypher.ExposesDelete).DetachDelete(x).(cypher.BuildableStatement), t + " DETACH DELETE z"
	case 4:
		return b.(cypher.ExposesSet).Set(x, sym("w")), t + " SET z = w"
	}
	panic("no such continuation")
}

// SET sets what it was given, in order, by the operator that was asked for.
func C20_set() {
	n := 1 + pick("count", 3)
	a := argOf(pick("value", nArgs), "v")
	es, t := assignments(n, a)
	s, st := setter(0)
	nd.CheckEq("set", ok(s.Set(es...)), st+"SET "+t)
}

func C20_setAfter() {
	n := 1 + pick("count", 3)
	es, t := assignments(n, argOf(pick("value", 3)*5, "v"))
	s, st := setter(pick("on", nSetters))
	b, want := afterUpdate(-1, s.Set(es...), st+"SET "+t)
	nd.CheckEq("setAfter", ok(b), want)
}

// A named thing as a whole.
func C20_named() {
	a := argOf(pick("value", nArgs), "v")
	name := nd.StrOf("name", 1, 2, "j-m")
	var v cypher.Named = cypher.AnyNodeNamed(name)
	switch pick("named", 3) {
	case 1:
		v = cypher.AnyNodeNamed("s").RelationshipTo(cypher.AnyNode(), "T").NamedByString(name)
	case 2:
		v = cypher.APath(name).DefinedBy(hop("h"))
	}
	s, st := setter(pick("on", nSetters))
	b, want := afterUpdate(len(a.t)%nAfterUpdate, s.SetWithNamed(v, a.e), st+"SET "+name+" = "+a.t)
	nd.CheckEq("named", ok(b), want)
}

func labels(n int) ([]string, string) {
	at := pick("at", n)
	var ls []string
	t := ""
	for i := 0; i < n; i++ {
		l := "L" + stepText(n-i)
		if i == at {
			l = nd.StrOf("label", 1, 2, "j-m")
		}
		ls, t = append(ls, l), t+":`"+l+"`"
	}
	return ls, t
}

// All labels are set or removed.
func C20_labels() {
	n := 1 + pick("count", 4)
	ls, t := labels(n)
	name := nd.StrOf("name", 1, 1, "n-q")
	node := cypher.NewNodeWithLabels("Label", "Other").NamedByString(name)
	s, st := setter(pick("on", nSetters))
	v, isChange := s.(cypher.ExposesSetAndRemove)
	if !isChange {
		return
	}
	var b cypher.BuildableStatement
	if pick("remove", 2) == 1 {
		b, st = v.RemoveByNode(node, ls...), st+"REMOVE "
	} else {
		b, st = v.SetByNode(node, ls...), st+"SET "
	}
	b, want := afterUpdate((n+len(st))%nAfterUpdate, b, st+name+t)
	nd.CheckEq("labels", ok(b), want)
}

// Properties are removed.
func C20_remove() {
	n := 1 + pick("count", 4)
	at := pick("at", n)
	var ps []cypher.Property
	var ts []string
	for i := 0; i < n; i++ {
		k := i % 4
		name := "p" + stepText(i)
		if i == at {
			k = pick("kind", 4)
			name = nd.StrOf("name", 1, 2, "j-m")
		}
		id := stepText(i)
		node := cypher.AnyNodeNamed("n" + id)
		switch k {
		case 0:
			ps, ts = append(ps, node.Property(name)), append(ts, "n"+id+"."+name)
		case 1:
			ps, ts = append(ps, cypher.AProperty("n"+id, name)), append(ts, "n"+id+"."+name)
		case 2:
			r := node.RelationshipTo(cypher.AnyNode(), "T").NamedByString("r" + id)
			ps, ts = append(ps, r.Property(name)), append(ts, "r"+id+"."+name)
		case 3:
			ps, ts = append(ps, cypher.PropertyCreate2(node.Property("in"), name)), append(ts, "n"+id+".in."+name)
		}
	}
	s, st := setter(pick("on", nSetters))
	v, isChange := s.(cypher.ExposesSetAndRemove)
	if !isChange {
		return
	}
	b, want := afterUpdate((n+at)%nAfterUpdate, v.Remove(ps...), st+"REMOVE "+strings.Join(ts, ", "))
	nd.CheckEq("remove", ok(b), want)
}

// DELETE and DETACH DELETE delete everything they were given.
func C20_delete() {
	n := 1 + pick("count", 4)
	es, t := elements(n, "d")
	on := n
	if n == 1 || nd.Thorough() {
		on = pick("on", nSetters)
	}
	s, st := setter(on)
	v, isDelete := s.(cypher.ExposesDelete)
	if !isDelete {
		return
	}
	var u cypher.OngoingUpdate
	form := 0
	if n == 1 {
		form = pick("by", 3)
	}
	name := ""
	if form > 0 {
		name = nd.StrOf("name", 1, 2, "j-m")
	}
	detach := pick("detach", 2) == 1
	word := "DELETE "
	if detach {
		word = "DETACH DELETE "
	}
	switch form {
	case 0:
		if u = v.Delete(es...); detach {
			u = v.DetachDelete(es...)
		}
	case 1:
		if u = v.DeleteByString(name, "b", "c"); detach {
			u = v.DetachDeleteByString(name, "b", "c")
		}
		t = name + ", b, c"
	case 2:
		ns := []cypher.Named{cypher.AnyNodeNamed("a"), cypher.ANode("L").NamedByString(name), cypher.AnyNodeNamed("s").RelationshipTo(cypher.AnyNode(), "T").NamedByString("r")}
		if u = v.DeleteByNamed(ns...); detach {
			u = v.DetachDeleteByNamed(ns...)
		}
		t = "a, " + name + ", r"
	}
	nd.CheckEq("delete", ok(u), strings.TrimSpace(st+word+t))
	switch pick("then", 4) {
	case 0:
		nd.CheckEq("deleteThenDetach", ok(u.DetachDelete(sym("z"))), st+word+t+" DETACH DELETE z")
	case 1:
		nd.CheckEq("deleteThenDelete", ok(u.Delete(sym("z"))), st+word+t+" DELETE z")
	case 2:
		nd.CheckEq("deleteThenCreate", ok(u.Create(hop("z"))), st+word+t+" CREATE "+hopText("z"))
	case 3:
		nd.CheckEq("deleteThenReturn", ok(u.Returning(sym("z"))), st+word+t+" RETURN z")
	}
}

const nElements = 8

// element is the i-th kind of pattern.
func element(i int, id string) (cypher.PatternElement, string) {
	a, b := cypher.ANode("A"+id).NamedByString("a"+id), cypher.AnyNodeNamed("b"+id)
	at, bt := "(a"+id+":`A"+id+"`)", "(b"+id+")"
	switch i {
	case 0:
		return a, at
	case 1:
		return a.RelationshipTo(b, "T"), at + "-[:`T`]->" + bt
	case 2:
		return a.WithRawProperties("k"+id, sym("x")), "(a" + id + ":`A" + id + "` {k" + id + ": x})"
	case 3:
		return a.RelationshipFrom(b, "T").NamedByString("r" + id), at + "<-[r" + id + ":`T`]-" + bt
	case 4:
		return a.RelationshipTo(b, "T").RelationshipFrom(cypher.ANode("C"), "U"), at + "-[:`T`]->" + bt + "<-[:`U`]-(:`C`)"
	case 5:
		return cypher.APath("p" + id).DefinedBy(a.RelationshipTo(b, "T")), "p" + id + " = " + at + "-[:`T`]->" + bt
	case 6:
		return cypher.AnyNode(), "()"
	case 7:
		return b, bt
	}
	panic("no such element")
}

// CREATE and MERGE take all patterns, in order.
func C20_patterns() {
	n := 1 + pick("count", 4)
	var es []cypher.PatternElement
	var ts []string
	for i := 0; i < n; i++ {
		k := (i*3 + n) % nElements
		if i < 2 || nd.Thorough() && i == 2 {
			k = pick("element", nElements)
		}
		e, t := element(k, stepText(i))
		es, ts = append(es, e), append(ts, t)
	}
	t := strings.Join(ts, ", ")
	switch pick("form", 8) {
	case 0:
		nd.CheckEq("create", ok(cypher.Create(es...)), "CREATE "+t)
	case 1:
		nd.CheckEq("merge", ok(cypher.Merge(es...)), "MERGE "+t)
	case 2:
		s, st := setter(pick("on", nSetters))
		if v, is := s.(cypher.ExposesCreate); is {
			b, want := afterUpdate(-1, v.Create(es...).(cypher.BuildableStatement), st+"CREATE "+t)
			nd.CheckEq("createAfter", ok(b), want)
		}
	case 3:
		s, st := setter(pick("on", nSetters))
		if v, is := s.(cypher.ExposesMerge); is {
			b, want := afterUpdate(-1, v.Merge(es...).(cypher.BuildableStatement), st+"MERGE "+t)
			nd.CheckEq("mergeAfter", ok(b), want)
		}
	case 4:
		nd.CheckEq("createSet", ok(cypher.Create(es...).Set(sym("x"), sym("y"))), "CREATE "+t+" SET x = y")
	case 5:
		nd.CheckEq("mergeOn", ok(cypher.Merge(es...).OnMatch().Set(sym("x"), sym("y"))), "MERGE "+t+" ON MATCH SET x = y")
	case 6:
		nd.CheckEq("createMerge", ok(cypher.Create(es...).Merge(cypher.ANode("Z"))), "CREATE "+t+" MERGE (:`Z`)")
	case 7:
		nd.CheckEq("mergeCreate", ok(cypher.Merge(es...).Create(cypher.ANode("Z"))), "MERGE "+t+" CREATE (:`Z`)")
	}
}

// Every action of a MERGE is rendered, in order, with all it sets.
func C20_actions() {
	n := 1 + pick("actions", 4)
	if nd.Thorough() {
		n = 1 + pick("more", 6)
	}
	var v cypher.ExposesMergeAction
	m := cypher.Merge(cypher.ANode("L").NamedByString("n"))
	t := "MERGE (n:`L`)"
	switch pick("merge", 3) {
	case 0:
		v = m
	case 1:
		v, t = cypher.Match(cypher.AnyNodeNamed("o")).Merge(cypher.ANode("L").NamedByString("n"), hop("h")), "MATCH (o) "+t+", "+hopText("h")
	case 2: // actions of their own for each one
		v, t = m.OnCreate().Set(sym("f"), sym("g")).Merge(cypher.AnyNodeNamed("o")), t+" ON CREATE SET f = g MERGE (o)"
	}
	at := pick("at", n)
	var b cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction
	for i := 0; i < n; i++ {
		var on cypher.OngoingMergeAction
		if pick("match", 2) == 1 {
			on, t = v.OnMatch(), t+" ON MATCH SET "
		} else {
			on, t = v.OnCreate(), t+" ON CREATE SET "
		}
		id := stepText(i)
		count := 1 + i%2
		if i == at {
			count = pick("count", 4)
		}
		if count == 0 {
			b = on.SetWithNamed(cypher.AnyNodeNamed("n"+id), sym("x"+id))
			t += "n" + id + " = x" + id
			v = b
			continue
		}
		var es []expr
		var ts []string
		for j := 0; j < count; j++ {
			k := (j*3 + i) % nAssignments
			if i == at && j == 0 {
				k = pick("assignment", nAssignments)
			}
			e, s := assignment(k, id+stepText(j), argOf((i*5+j)%nArgs, id))
			es, ts = append(es, e...), append(ts, s)
		}
		b = on.Set(es...)
		t += strings.Join(ts, ", ")
		v = b
	}
	c, want := afterUpdate(n%nAfterUpdate, b, t)
	nd.CheckEq("actions", ok(c), want)
}

// What SET cannot be given is refused instead of being turned into something
// else.
func C20_refused() {
	n := cypher.AnyNodeNamed("n")
	p := n.Property("p")
	x := sym("x")
	var es []expr
	switch pick("what", 10) {
	case 0:
		es = []expr{x}
	case 1:
		es = []expr{p.To(x), p}
	case 2:
		es = []expr{p, p.To(x)}
	case 3:
		es = []expr{p, x, p}
	case 4:
		es = []expr{cypher.OperationRemove(n, "A")}
	case 5:
		es = []expr{p.To(x), cypher.OperationRemove(n, "A", "B")}
	case 6:
		es = []expr{cypher.OperationSetLabel(n)}
	case 7:
		es = []expr{cypher.OperationSetLabel(n, "A", "")}
	case 8:
		es = []expr{cypher.OperationCreate2(n, cypher.SET, "A")}
	case 9:
		es = []expr{}
	}
	on := pick("on", nSetters+2)
	if on < nSetters {
		s, _ := setter(on)
		_, err := text(s.Set(es...))
		nd.Check("refusedSet", err != nil)
		return
	}
	m := cypher.Merge(n)
	a := m.OnMatch()
	if on > nSetters {
		a = m.OnMatch().Set(p, x).OnCreate()
	}
	_, err := text(a.Set(es...))
	nd.Check("refusedAction", err != nil)
}
