package props

import (
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// Everything the API makes, of whatever arguments, in statements that are
// built and rendered again.
func C05_functions() {
	twice = true
	defer func() { twice = false }()
	f := apiFunctions[pick("function", len(apiFunctions))]
	nd.Observe("call", f.name)
	a := argsFor(f.params)
	a.brief = !nd.Thorough()
	use(f.call(a))
}

func C05_methods() {
	twice = true
	defer func() { twice = false }()
	on := pick("on", nAPIValues)
	v := apiValue(on)
	calls, params, names := special(v, on)
	if len(calls) == 0 {
		return
	}
	k := pick("method", len(calls))
	a := argsFor(params[k])
	a.brief = true
	nd.Observe("call", names[k])
	use(calls[k](a))
}

// special are the methods of v that not every expression has, and a few of
// the others.
func special(v any, on int) (calls []func(a *args) any, params []int, names []string) {
	x := any(sym("x"))
	for i, m := range apiMethods {
		c := m.bind(v)
		if c == nil || !nd.Thorough() && (i+on)%16 != 0 && m.bind(x) != nil {
			continue
		}
		calls, params, names = append(calls, c), append(params, m.params), append(names, m.name)
	}
	return
}

// Names that are left to the renderer.
func C05_unresolved() {
	var us []expr
	var is []int
	n := 3
	if nd.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		us = append(us, cypher.SymbolicNameUnResolve())
	}
	var items []expr
	for i := 0; i < n+1; i++ {
		k := pick("name", n)
		is = append(is, k)
		items = append(items, us[k])
	}
	st := built(cypher.CypherReturning(items...))
	r := cypher.NewRenderer()
	out := rendered(r, st)
	nd.CheckEq("again", rendered(cypher.NewRenderer(), st), out)
	nd.CheckEq("sameRenderer", rendered(r, st), out)
	got := strings.Split(strings.TrimPrefix(out, "RETURN "), ", ")
	nd.Check("items", len(got) == len(is))
	for i := range is {
		for j := range is {
			nd.Check("distinct", (got[i] == got[j]) == (is[i] == is[j]))
		}
		nd.Check("named", got[i] != "")
	}
}
