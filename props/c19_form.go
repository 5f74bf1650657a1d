package props

import (
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

func wellFormed(id string, b cypher.BuildableStatement) {
	nd.CheckEq(id, lexical(ok(b)), "")
}

// Every form of a statement, around any name.
func C19_statements() {
	b, _ := statementOf(nd.Choose("statement", nStatements), nd.StrOf("name", 1, 2, "j-m"))
	wellFormed("statement", b)
}

// Every kind of expression in every kind of expression, at every place.
func C19_expressions() {
	in := argOf(pick("operand", nArgs), "o")
	if !nd.Thorough() && len(in.t)%3 != 0 {
		in = argOf(0, "o")
	}
	e := in.e
	j := pick("inner", nCompose)
	e, _ = compose(j, e)
	k := (j*3 + len(in.t)) % nCompose
	e, _ = compose(k, e)
	b, _ := exprPlaceStatement((j+k)%nExprPlaces, nodeN(), e)
	wellFormed("expression", b)
}

func C19_composed() {
	i, j := pick("inner", nCompose), pick("outer", nCompose)
	e, _ := compose(i, sym("z"))
	e, _ = compose(j, e)
	p := (i*7 + j) % nExprPlaces
	if nd.Thorough() {
		p = pick("place", nExprPlaces)
	}
	b, _ := exprPlaceStatement(p, nodeN(), e)
	wellFormed("composed", b)
}

func C19_placed() {
	i := pick("kind", nCompose)
	e, _ := compose(i, sym("z"))
	b, _ := exprPlaceStatement(pick("place", nExprPlaces), nodeN(), e)
	wellFormed("placed", b)
}

// Every condition at every place of a condition.
func C19_conditions() {
	a := argOf(pick("kind", nArgs), "c")
	if a.cond <= 0 {
		return
	}
	c := a.e.(cond)
	switch pick("form", 6) {
	case 1:
		c = wrap(sym("x")).IsNull().And(c).Get()
	case 2:
		c = wrap(sym("x")).IsNull().Or(c).And(c).Get()
	case 3:
		c = cypher.ConditionsNot(c)
	case 4:
		c = wrap(sym("x")).IsNull().Xor(c).Not().Get()
	case 5:
		c = cypher.PredicateNone("v").In(sym("x")).Where(c)
	}
	b, _ := condPlace(pick("place", nCondPlaces), c)
	wellFormed("condition", b)
}

// Statements of several clauses.
func C19_sequences() {
	f := flowRoot(pick("root", nFlowRoots))
	n := 2
	if nd.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		s := f.steps()
		if i > 0 && !nd.Thorough() {
			s = f.mainSteps()
		}
		if len(s) == 0 {
			break
		}
		f = f.take(s[pick("step", len(s))])
	}
	b, _ := f.end()
	wellFormed("sequence", b)
}

// operandKinds are the kinds of expressions that take another one as operand of
// an operator.
var operandKinds = map[int]bool{6: true, 7: true, 8: true, 9: true, 10: true, 17: true, 19: true, 30: true, 36: true, 37: true, 38: true,
	39: true, 40: true, 41: true, 60: true, 62: true}

// However deep things are nested, they come out whole.
func C19_deep() {
	kinds := []int{}
	for k := 0; k < nCompose; k++ {
		if _, tpl := compose(k, sym("x")); strings.Count(tpl, H) == 1 {
			kinds = append(kinds, k)
		}
	}
	k := kinds[pick("kind", len(kinds))]
	depths := []int{5, 9, 14, 20, 33}
	if nd.Thorough() {
		depths = []int{3, 4, 6, 7, 8, 10, 11, 12, 13, 15, 16, 17, 18, 19, 24, 32, 40, 63, 64, 65}
	}
	d := depths[pick("depth", len(depths))]
	z := nd.StrOf("text", 1, 1, "a-z")
	e, t := expr(cypher.LiteralOf(z)), "'"+z+"'"
	for i := 0; i < d; i++ {
		if _, is := e.(cond); is && operandKinds[k] {
			t = "(" + t + ")"
		}
		var tpl string
		e, tpl = compose(k, e)
		t = fill(tpl, t)
	}
	b, tpl := exprPlaceStatement(0, nodeN(), e)
	nd.CheckEq("deep", ok(b), fill(tpl, t))
}

// The same for kinds taking turns.
func C19_deepMixed() {
	d := 16
	if nd.Thorough() {
		d = 40
	}
	k := pick("first", nCompose)
	step := 1 + 2*pick("step", 4)
	var e expr = sym("z")
	for i, n := 0, 0; n < d; i++ {
		_, tpl := compose(k, sym("x"))
		if strings.Count(tpl, H) == 1 {
			e, _ = compose(k, e)
			n++
		}
		k = (k + step) % nCompose
	}
	b, _ := exprPlaceStatement(k%nExprPlaces, nodeN(), e)
	wellFormed("deepMixed", b)
}
