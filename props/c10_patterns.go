package props

import (
	"math"
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// A pnode is a node with its text. Two pnodes are the same node when their
// identities are equal.
type pnode struct {
	n    cypher.Node
	id   string // of a named node
	name string
	in   string // the text between the parentheses
}

func (p pnode) full() string { return "(" + p.in + ")" }

// mention gives the text of a node where it is mentioned.
func mention(seen map[string]bool, p pnode) string {
	if p.id != "" {
		if seen[p.id] {
			return "(" + p.name + ")"
		}
		seen[p.id] = true
	}
	return p.full()
}

const nNodeForms = 18

// nodeForm is a node of the i-th form.
func nodeForm(i int, id string) pnode {
	x, y := sym("x"), sym("y")
	name := "n" + id
	k := "k" + id
	mk := func(n cypher.Node, name, rest string) pnode {
		p := pnode{n: n, name: name, in: name + rest}
		if name != "" {
			p.id = id
		}
		return p
	}
	switch i {
	case 0:
		return mk(cypher.AnyNode(), "", "")
	case 1:
		return mk(cypher.AnyNodeNamed(name), name, "")
	case 2:
		return mk(cypher.ANode("A"), "", ":`A`")
	case 3:
		return mk(cypher.ANode("A").NamedByString(name), name, ":`A`")
	case 4:
		return mk(cypher.NewNodeWithLabels("A", "B"), "", ":`A`:`B`")
	case 5:
		return mk(cypher.NewNodeWithLabels("A", "B", "C").Named(cypher.ASymbolic(name)), name, ":`A`:`B`:`C`")
	case 6:
		return mk(cypher.AnyNode().WithRawProperties(k, x), "", " {"+k+": x}")
	case 7:
		return mk(cypher.ANode("A").WithRawProperties(k, x, "j", y), "", ":`A` {"+k+": x, j: y}")
	case 8:
		return mk(cypher.ANode("A").WithProperties(cypher.MapOf(k, x)).NamedByString(name), name, ":`A` {"+k+": x}")
	case 9:
		return mk(cypher.AnyNodeNamed(name).WithRawProperties(k, x), name, " {"+k+": x}")
	case 10:
		return mk(cypher.NewNodeWithProperties("A", cypher.MapOf(k, x, "j", y), "B"), "", ":`A`:`B` {"+k+": x, j: y}")
	case 11:
		return mk(cypher.NewNodeWithProperties("A", cypher.MapOf(k, x), "B", "C").NamedByString(name), name, ":`A`:`B`:`C` {"+k+": x}")
	case 12:
		return mk(cypher.ANode("A").NamedByString("other").NamedByString(name), name, ":`A`")
	case 13:
		return mk(cypher.ANode("A").WithRawProperties("h", y).WithRawProperties(k, x).NamedByString(name), name, ":`A` {"+k+": x}")
	case 14:
		return mk(cypher.NodeCreate2("A").NamedByString(name), name, ":`A`")
	case 15:
		return mk(cypher.NodeCreate3("A", "B", "C", "D"), "", ":`A`:`B`:`C`:`D`")
	case 16:
		return mk(cypher.NodeCreate5("A", cypher.MapOf(k, x)), "", ":`A` {"+k+": x}")
	case 17:
		return mk(cypher.ANode("A").NamedByString(name).WithProperties(cypher.MapOf(k, cypher.LiteralOf("v"))), name, ":`A` {"+k+": 'v'}")
	}
	panic("no such form")
}

// A detail is what is known of a relationship.
type detail struct {
	dir, name, types, length, props string
	min, max                        string
	bounded                         bool
}

func (d detail) text() string {
	in := d.name + d.types
	switch {
	case d.length != "":
		in += d.length
	case d.bounded:
		in += "*" + d.min + ".." + d.max
	}
	if d.props != "" {
		in += " " + d.props
	}
	if in != "" {
		in = "[" + in + "]"
	}
	switch d.dir {
	case ">":
		return "-" + in + "->"
	case "<":
		return "<-" + in + "-"
	}
	return "-" + in + "-"
}

func typesText(ts []string) string {
	out := ""
	for i, t := range ts {
		if i == 0 {
			out = ":"
		} else {
			out += "|"
		}
		out += "`" + t + "`"
	}
	return out
}

// connect gives a relationship of a direction.
func connect(l cypher.Node, dir int, r cypher.Node, types []string) (cypher.Relationship, detail) {
	d := detail{types: typesText(types)}
	switch dir {
	case 0:
		d.dir = ">"
		return l.RelationshipTo(r, types...), d
	case 1:
		d.dir = "<"
		return l.RelationshipFrom(r, types...), d
	}
	return l.RelationshipBetween(r, types...), d
}

const nRelSteps = 8

// relStep changes a relationship, either one itself or the last of a chain.
func relStep(i int, r cypher.Relationship, c cypher.RelationshipChain, chain bool, d detail, id string) (cypher.Relationship, cypher.RelationshipChain, detail) {
	x, y := sym("x"), sym("y")
	bound := func(min, max string) {
		d.length, d.bounded = "", true
		d.min, d.max = min, max
	}
	switch i {
	case 0:
		d.name = "r" + id
		if chain {
			return r, c.NamedC(d.name), d
		}
		return r.NamedByString(d.name), c, d
	case 1:
		bound("1", d.max)
		if chain {
			return r, c.Min(1), d
		}
		return r.Min(1), c, d
	case 2:
		bound(d.min, "8")
		if chain {
			return r, c.Max(8), d
		}
		return r.Max(8), c, d
	case 3:
		bound("2", "7")
		if chain {
			return r, c.Length(2, 7), d
		}
		return r.Length(2, 7), c, d
	case 4:
		d.length, d.min, d.max = "*", "", ""
		if chain {
			return r, c.Unbounded(), d
		}
		return r.Unbounded(), c, d
	case 5:
		d.props = "{k" + id + ": x, j: y}"
		if chain {
			return r, c.PropertiesRaw("k"+id, x, "j", y), d
		}
		return r.WithRawProperties("k"+id, x, "j", y), c, d
	case 6:
		d.props = "{i" + id + ": y}"
		m := cypher.MapOf("i"+id, y)
		if chain {
			return r, c.Properties(m), d
		}
		return r.WithProperties(m), c, d
	case 7:
		if chain {
			return r, c, d
		}
		d.name = "q" + id
		return r.Named(d.name), c, d
	}
	panic("no such step")
}

var relTypes = [][]string{nil, {"T"}, {"T", "U"}, {"A", "B", "C"}}

// One relationship of every form.
func C10_relationship() {
	dir, k := pick("direction", 3), pick("types", len(relTypes))
	a, b := nodeForm(pick("left", 2)*9, "a"), nodeForm(1+pick("right", 2), "b")
	r, d := connect(a.n, dir, b.n, relTypes[k])
	n := 3
	if nd.Thorough() {
		n = 4
	}
	n = pick("steps", n)
	for j := 0; j < n; j++ {
		r, _, d = relStep(pick("step", nRelSteps), r, cypher.RelationshipChain{}, false, d, stepText(j))
	}
	nd.CheckEq("relationship", ok(cypher.Match(r).Returning(sym("z"))), "MATCH "+a.full()+d.text()+b.full()+" RETURN z")
}

// Nodes of every form at either side, alone, and by name afterwards.
func C10_nodes() {
	i, j := pick("left", nNodeForms), pick("right", nNodeForms)
	a, b := nodeForm(i, "a"), nodeForm(j, "b")
	r, d := connect(a.n, (i+j)%3, b.n, relTypes[(i*3+j)%4])
	seen := map[string]bool{}
	want := "MATCH " + mention(seen, a) + d.text() + mention(seen, b) + " OPTIONAL MATCH " + mention(seen, b) + ", " + mention(seen, a) +
		" RETURN z"
	nd.CheckEq("nodes", ok(cypher.Match(r).OptionalMatch(b.n, a.n).Returning(sym("z"))), want)
	seen = map[string]bool{}
	c := r.RelationshipTo(a.n, "X")
	want = "CREATE " + mention(seen, a) + d.text() + mention(seen, b) + "-[:`X`]->" + mention(seen, a)
	nd.CheckEq("cycle", ok(cypher.Create(c)), want)
}

// hopTo takes a pattern one step further.
type walk struct {
	r     cypher.Relationship
	c     cypher.RelationshipChain
	chain bool
	hops  []detail
	nodes []pnode
}

func (w walk) text(seen map[string]bool) string {
	out := mention(seen, w.nodes[0])
	for i, d := range w.hops {
		out += d.text() + mention(seen, w.nodes[i+1])
	}
	return out
}

func (w walk) pattern() cypher.PatternElement {
	if w.chain {
		return w.c
	}
	return w.r
}

func (w walk) to(dir int, p pnode, types []string) walk {
	if len(w.hops) == 0 {
		r, d := connect(w.nodes[0].n, dir, p.n, types)
		return walk{r: r, hops: []detail{d}, nodes: append(w.nodes, p)}
	}
	var c cypher.RelationshipChain
	d := detail{types: typesText(types)}
	if !w.chain {
		switch dir {
		case 0:
			c, d.dir = w.r.RelationshipTo(p.n, types...), ">"
		case 1:
			c, d.dir = w.r.RelationshipFrom(p.n, types...), "<"
		case 2:
			c = w.r.RelationshipBetween(p.n, types...)
		}
	} else {
		switch dir {
		case 0:
			c, d.dir = w.c.RelationshipTo(p.n, types...), ">"
		case 1:
			c, d.dir = w.c.RelationshipFrom(p.n, types...), "<"
		case 2:
			c = w.c.RelationshipBetween(p.n, types...)
		}
	}
	return walk{c: c, chain: true, hops: append(append([]detail{}, w.hops...), d), nodes: append(append([]pnode{}, w.nodes...), p)}
}

func (w walk) step(i int, id string) walk {
	l := len(w.hops) - 1
	h := append([]detail{}, w.hops...)
	w.r, w.c, h[l] = relStep(i, w.r, w.c, w.chain, h[l], id)
	w.hops = h
	return w
}

// Chains of a few hops in every direction, some of them back to nodes that
// were there before.
func C10_chain() {
	n := 2
	if nd.Thorough() {
		n += pick("hops", 2)
	}
	start := []int{3, 0, 9}[pick("start", 3)]
	w := walk{nodes: []pnode{nodeForm(start, "s")}}
	for i := 0; i < n; i++ {
		dir := pick("direction", 3)
		id := stepText(i)
		var p pnode
		switch pick("target", 3) {
		case 0:
			p = nodeForm([]int{0, 3, 10, 9}[i], id)
		case 1:
			p = w.nodes[0]
		case 2:
			p = w.nodes[len(w.nodes)-1]
			if i == 0 {
				p = nodeForm(1, id)
			}
		}
		w = w.to(dir, p, relTypes[(i+dir)%4])
		if i == n-1 {
			w = w.step(pick("step", nRelSteps), id)
		} else {
			w = w.step((i*3+dir)%nRelSteps, id)
		}
	}
	nd.CheckEq("chain", ok(cypher.Match(w.pattern()).Returning(sym("z"))), "MATCH "+w.text(map[string]bool{})+" RETURN z")
}

// Long chains.
func C10_long() {
	n := 12
	if nd.Thorough() {
		n = 40
	}
	dir, step, back := pick("direction", 3), pick("step", nRelSteps), 1+pick("back", 4)
	w := walk{nodes: []pnode{nodeForm(pick("start", nNodeForms), "s")}}
	for i := 0; i < n; i++ {
		p := nodeForm((i*5+step)%nNodeForms, stepText(i))
		if i%4 == 3 {
			p = w.nodes[len(w.nodes)-back]
		}
		w = w.to((dir*i+i/3)%3, p, relTypes[(i+dir)%4])
		w = w.step((step+i)%nRelSteps, stepText(i))
	}
	nd.CheckEq("long", ok(cypher.Match(w.pattern()).Returning(sym("z"))), "MATCH "+w.text(map[string]bool{})+" RETURN z")
}

// mentions are nodes that are easily mistaken for each other.
func mentions() []pnode {
	a := cypher.ANode("A").NamedByString("a")
	c := cypher.AnyNodeNamed("c").WithRawProperties("k", sym("x"))
	d := c.NamedByString("d")
	u := cypher.ANode("U")
	return []pnode{
		{a, "a", "a", "a:`A`"},
		{a.NamedByString("b"), "b", "b", "b:`A`"},
		{c, "c", "c", "c {k: x}"},
		{d, "d", "d", "d {k: x}"},
		{d.WithRawProperties("j", sym("y")).NamedByString("e"), "e", "e", "e {j: y}"},
		{u, "", "", ":`U`"},
		{u.NamedByString("u"), "u", "u", "u:`U`"},
		{cypher.ANode("A").NamedByString("aa"), "aa", "aa", "aa:`A`"},
	}
}

// Statements that mention a few nodes again and again.
func C10_mentions() {
	ms := mentions()
	seen := map[string]bool{}
	n := 2
	if nd.Thorough() {
		n = 3
	}
	var f cypher.OngoingReadingWithoutWhere
	out := ""
	first := ms[pick("first", len(ms))]
	f = cypher.Match(first.n)
	out = "MATCH " + mention(seen, first)
	for i := 0; i < n; i++ {
		p := ms[pick("node", len(ms))]
		q := ms[(i+len(p.in))%len(ms)]
		if i == 0 || nd.Thorough() {
			q = ms[pick("other", len(ms))]
		}
		out += " "
		switch (i + len(p.in)) % 3 {
		case 0:
			r, d := connect(p.n, len(q.in)%3, q.n, relTypes[1])
			f = f.Match(r)
			out += "MATCH " + mention(seen, p) + d.text() + mention(seen, q)
		case 1:
			f = f.OptionalMatch(p.n, q.n)
			out += "OPTIONAL MATCH " + mention(seen, p) + ", " + mention(seen, q)
		case 2:
			r, d := connect(p.n, len(q.in)%3, q.n, nil)
			f = f.Match(cypher.APath("p" + stepText(i)).DefinedBy(r))
			out += "MATCH p" + stepText(i) + " = " + mention(seen, p) + d.text() + mention(seen, q)
		}
	}
	nd.CheckEq("mentions", ok(f.Returning(sym("z"))), out+" RETURN z")
}

// The same across clauses of other kinds.
func C10_clauses() {
	ms := mentions()
	seen := map[string]bool{}
	p, q, r := ms[pick("a", len(ms))], ms[pick("b", len(ms))], ms[pick("c", len(ms))]
	m := cypher.Match(p.n)
	out := "MATCH " + mention(seen, p)
	rel := q.n.RelationshipFrom(r.n, "T").NamedByString("r")
	z := sym("z")
	show := func() string { return mention(seen, q) + "<-[r:`T`]-" + mention(seen, r) }
	switch pick("clause", 12) {
	case 0:
		nd.CheckEq("create", ok(m.Create(rel, p.n)), out+" CREATE "+show()+", "+mention(seen, p))
	case 1:
		nd.CheckEq("merge", ok(m.Merge(rel)), out+" MERGE "+show())
	case 2:
		nd.CheckEq("wherePattern", ok(m.WherePattern(rel).Returning(z)), out+" WHERE "+show()+" RETURN z")
	case 3:
		nd.CheckEq("exists", ok(m.Where(cypher.PredicateExistsByPattern(rel)).Returning(z)), out+" WHERE exists("+show()+") RETURN z")
	case 4:
		nd.CheckEq("comprehension", ok(m.Returning(cypher.ListBasedOn(rel).Returning(z))), out+" RETURN ["+show()+" | z]")
	case 5:
		nd.CheckEq("not", ok(m.Where(cypher.ConditionsNotByPattern(rel)).Returning(z)), out+" WHERE NOT "+show()+" RETURN z")
	case 6:
		nd.CheckEq("size", ok(m.Returning(cypher.SizeByPattern(rel))), out+" RETURN size("+show()+")")
	case 7:
		nd.CheckEq("with", ok(m.With(z).Match(rel).Returning(z)), out+" WITH z MATCH "+show()+" RETURN z")
	case 8:
		nd.CheckEq("subquery", ok(m.Where(cypher.Match(rel).AsCondition()).Returning(z)), out+" WHERE EXISTS {MATCH "+show()+" } RETURN z")
	case 9:
		nd.CheckEq("afterCreate", ok(cypher.Create(p.n).Merge(rel).Create(q.n)), "CREATE "+out[len("MATCH "):]+" MERGE "+show()+" CREATE "+mention(seen, q))
	case 10:
		nd.CheckEq("shortest", ok(m.Match(cypher.AShortestPath("s").DefinedBy(rel)).Returning(z)), out+" MATCH s = shortestPath("+show()+") RETURN z")
	case 11:
		nd.CheckEq("unwind", ok(m.Unwind(z).As("w").Create(rel)), out+" UNWIND z AS w CREATE "+show())
	}
}

// Bounds, labels, types and keys of any content.
func C10_values() {
	x := sym("x")
	lo, hi := nd.Int("min", 0, math.MaxInt64), nd.Int("max", 0, math.MaxInt64)
	s := nd.StrOf("name", 1, 2, "a-z")
	a, b := cypher.AnyNode(), cypher.ANode(s)
	r := a.RelationshipTo(b, s, "T")
	in := ":`" + s + "`|`T`"
	switch pick("form", 6) {
	case 0:
		r, in = r.Min(lo), in+"*"+itoa(lo)+".."
	case 1:
		r, in = r.Max(hi), in+"*.."+itoa(hi)
	case 2:
		r, in = r.Length(lo, 7), in+"*"+itoa(lo)+"..7"
	case 3:
		r, in = r.Max(hi).Min(3), in+"*3.."+itoa(hi)
	case 4:
		r, in = r.WithRawProperties(s, x), in+" {"+s+": x}"
	case 5:
		r, in = r.NamedByString(s), s+in
	}
	nd.CheckEq("values", ok(cypher.Match(r).Returning(x)), "MATCH ()-["+in+"]->(:`"+s+"`) RETURN x")
}

// A label condition tests all the labels it is given, in that order.
func C10_labels() {
	a, b := key("first"), key("second")
	n := cypher.AnyNodeNamed("v")
	var c cond
	t := ""
	switch pick("made", 6) {
	case 0:
		c, t = n.HasLabels(a), "v:`"+a+"`"
	case 1:
		c, t = n.HasLabels(a, b, "C", a), "v:`"+a+"`:`"+b+"`:`C`:`"+a+"`"
	case 2:
		c, t = cypher.HasLabelConditionCreate(cypher.ASymbolic("v"), a, b), "v:`"+a+"`:`"+b+"`"
	case 3:
		c, t = cypher.HasLabelConditionCreate1(cypher.ASymbolic("v"), []cypher.NodeLabel{cypher.NodeLabelCreate(a), cypher.NodeLabelCreate(b)}), "v:`"+a+"`:`"+b+"`"
	case 4:
		c, t = cypher.HasLabelConditionCreate1(cypher.ASymbolic("v"), []cypher.NodeLabel{cypher.NodeLabelCreate(b)}), "v:`"+b+"`"
	case 5:
		c = cypher.HasLabelConditionCreate1(cypher.ASymbolic("v"), nil)
	}
	if t == "" {
		_, err := text(cypher.Match(n).Where(c).Returning(sym("x")))
		nd.Check("refused", err != nil)
		return
	}
	nd.CheckEq("where", ok(cypher.Match(n).Where(c).Returning(sym("x"))), "MATCH (v) WHERE "+t+" RETURN x")
	nd.CheckEq("not", ok(cypher.Match(n).Where(wrap(sym("x")).IsNull().And(c.Not().Get()).Get()).Returning(c)), "MATCH (v) WHERE (x IS NULL AND NOT ("+t+")) RETURN "+t)
}

// Clauses keep all their patterns and relationships all their types, in order.
func C10_several() {
	v := key("name")
	a, b, c := cypher.AnyNodeNamed("a"), cypher.AnyNodeNamed(v), cypher.AnyNodeNamed("c")
	pats := []cypher.PatternElement{a.RelationshipTo(b, "S", v, "R"), b, cypher.APath("p").DefinedBy(c.RelationshipBetween(a))}
	t := "(a)-[:`S`|`" + v + "`|`R`]->(" + v + "), (" + v + "), p = (c)--(a)"
	x := sym("x")
	m := cypher.Match(nodeN())
	w := m.With(x)
	pre := "MATCH (n:`L`) "
	switch pick("clause", 16) {
	case 0:
		nd.CheckEq("match", ok(cypher.Match(pats...).Returning(x)), "MATCH "+t+" RETURN x")
	case 1:
		nd.CheckEq("optional", ok(cypher.AnOptionalMatch(pats...).Returning(x)), "OPTIONAL MATCH "+t+" RETURN x")
	case 2:
		nd.CheckEq("matchMatch", ok(m.Match(pats...).Returning(x)), pre+"MATCH "+t+" RETURN x")
	case 3:
		nd.CheckEq("matchOptional", ok(m.OptionalMatch(pats...).Returning(x)), pre+"OPTIONAL MATCH "+t+" RETURN x")
	case 4:
		nd.CheckEq("withMatch", ok(w.Match(pats...).Returning(x)), pre+"WITH x MATCH "+t+" RETURN x")
	case 5:
		nd.CheckEq("withOptional", ok(w.OptionalMatch(pats...).Returning(x)), pre+"WITH x OPTIONAL MATCH "+t+" RETURN x")
	case 6:
		nd.CheckEq("create", ok(cypher.Create(pats...)), "CREATE "+t)
	case 7:
		nd.CheckEq("merge", ok(cypher.Merge(pats...)), "MERGE "+t)
	case 8:
		nd.CheckEq("matchCreate", ok(m.Create(pats...)), pre+"CREATE "+t)
	case 9:
		nd.CheckEq("matchMerge", ok(m.Merge(pats...)), pre+"MERGE "+t)
	case 10:
		nd.CheckEq("withCreate", ok(w.Create(pats...)), pre+"WITH x CREATE "+t)
	case 11:
		nd.CheckEq("withMerge", ok(w.Merge(pats...)), pre+"WITH x MERGE "+t)
	case 12:
		nd.CheckEq("createMerge", ok(m.Create(cypher.AnyNodeNamed("y")).Merge(pats...).Create(pats...)), pre+"CREATE (y) MERGE "+t+" CREATE (a)-[:`S`|`"+v+"`|`R`]->("+v+"), ("+v+"), p = (c)--(a)")
	case 13:
		f, k := chainStep(pick("direction", 3), a.RelationshipTo(b), c, "T", v, "U")
		nd.CheckEq("relationship", ok(cypher.Match(f).Returning(x)), "MATCH (a)-->("+v+")"+k+" RETURN x")
	case 14:
		f, k := chainStep2(pick("direction", 3), a.RelationshipTo(b).RelationshipTo(a), c, "T", v, "U")
		nd.CheckEq("chain", ok(cypher.Match(f).Returning(x)), "MATCH (a)-->("+v+")-->(a)"+k+" RETURN x")
	case 15:
		f := cypher.RelationshipCreate(a, cypher.RTL(), c, "T", v, "U")
		nd.CheckEq("created", ok(cypher.Match(f).Returning(x)), "MATCH (a)<-[:`T`|`"+v+"`|`U`]-(c) RETURN x")
	}
}

func chainStep(d int, r cypher.Relationship, n cypher.Node, types ...string) (cypher.RelationshipChain, string) {
	t := "[:`" + strings.Join(types, "`|`") + "`]"
	switch d {
	case 0:
		return r.RelationshipTo(n, types...), "-" + t + "->(c)"
	case 1:
		return r.RelationshipFrom(n, types...), "<-" + t + "-(c)"
	}
	return r.RelationshipBetween(n, types...), "-" + t + "-(c)"
}

func chainStep2(d int, r cypher.RelationshipChain, n cypher.Node, types ...string) (cypher.RelationshipChain, string) {
	t := "[:`" + strings.Join(types, "`|`") + "`]"
	switch d {
	case 0:
		return r.RelationshipTo(n, types...), "-" + t + "->(c)"
	case 1:
		return r.RelationshipFrom(n, types...), "<-" + t + "-(c)"
	}
	return r.RelationshipBetween(n, types...), "-" + t + "-(c)"
}
