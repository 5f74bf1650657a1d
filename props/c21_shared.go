package props

import (
	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

func outcome(b cypher.BuildableStatement) string {
	out, err := text(b)
	if err != nil {
		return "refused: " + err.Error()
	}
	return out
}

// Two goroutines render one statement.
func C21_render() {
	b, want := statementOf(pick("statement", nStatements), nd.StrOf("name", 1, 2, "j-m"))
	st, err := b.Build()
	if err != nil {
		nd.Check("built", false)
		return
	}
	r := cypher.NewRenderer()
	render := func(r *cypher.CypherRenderer) func() string {
		return func() string {
			out, err := r.Render(st)
			if err != nil {
				return "refused: " + err.Error()
			}
			return out
		}
	}
	var x, y string
	switch pick("how", 3) {
	case 0:
		x, y = nd.Together("render", render(r), render(r))
	case 1:
		x, y = nd.Together("renderers", render(r), render(cypher.NewRenderer()))
	case 2:
		one := func() string { return outcome(b) }
		x, y = nd.Together("build", one, one)
	}
	nd.CheckEq("first", x, want)
	nd.CheckEq("second", y, want)
}

// Two goroutines continue one statement under construction.
func C21_continue() {
	f := flowRoot(pick("root", nFlowRoots))
	n := 1
	if nd.Thorough() {
		n = 2
	}
	n = pick("length", n+1)
	for i := 0; i < n; i++ {
		ss := f.mainSteps()
		if len(ss) == 0 {
			break
		}
		f = f.take(ss[pick("call", len(ss))])
	}
	ss := f.steps()
	if len(ss) == 0 {
		ss = append(ss, step{})
	}
	i := pick("first", len(ss))
	j := i
	if (n == 0 || nd.Thorough()) && pick("other", 2) == 1 {
		j = (i + 1 + len(f.done)) % len(ss)
	}
	cont := func(k int) func() string {
		return func() string {
			g := f
			if ss[k].do != nil {
				g = f.take(ss[k])
			}
			b, _ := g.end()
			return outcome(b)
		}
	}
	x, y := nd.Together("continue", cont(i), cont(j))
	nd.CheckEq("first", x, again(f, ss[i]))
	nd.CheckEq("second", y, again(f, ss[j]))
}

func again(f flow, s step) string {
	if s.do != nil {
		f = f.take(s)
	}
	_, want := f.end()
	return want
}

// Two goroutines extend one value.
func C21_values() {
	k := valueKind(pick("kind", nValueKinds))
	first := pick("first", len(k.ext))
	max := 3
	if nd.Thorough() {
		max = 9
	}
	times := pick("times", max+1)
	v := valuePath(k, first, times)
	i := pick("step", len(k.ext))
	j := i
	if pick("other", 2) == 1 {
		j = (i + 1 + times) % len(k.ext)
		if nd.Thorough() {
			j = pick("another", len(k.ext))
		}
	}
	x, y := nd.Together("extend",
		func() string { return shown(k, k.ext[i](v, stepText(20))) },
		func() string { return shown(k, k.ext[j](v, stepText(21))) })
	nd.CheckEq("first", x, shown(k, k.ext[i](v, stepText(20))))
	nd.CheckEq("second", y, shown(k, k.ext[j](v, stepText(21))))
}

// Two goroutines use one expression, in two ways.
func C21_expressions() {
	z := nd.StrOf("name", 1, 1, "a-z")
	a := argOf(pick("operand", nArgs), "o")
	i := pick("kind", nCompose)
	e, _ := compose(i, sym(z))
	if pick("which", 2) == 1 {
		e = a.e
	}
	j := (i*5 + len(a.t)) % nCompose
	p := (i + len(a.t)) % nExprPlaces
	use := func(k, p int) func() string {
		return func() string {
			e, _ := compose(k, e)
			b, _ := exprPlaceStatement(p, nodeN(), e)
			return outcome(b)
		}
	}
	f, g := use(i, p), use(j, (p+1)%nExprPlaces)
	x, y := nd.Together("use", f, g)
	nd.CheckEq("first", x, f())
	nd.CheckEq("second", y, g())
}

// Two goroutines call one function with arguments of their own, and use the
// predefined values of the package.
func C21_functions() {
	f := apiFunctions[pick("function", len(apiFunctions))]
	nd.Observe("call", f.name)
	one := func() string {
		use(f.call(&args{at: -9, also: -9, brief: true}))
		return "done"
	}
	x, y := nd.Together("call", one, one)
	nd.CheckEq("first", x, "done")
	nd.CheckEq("second", y, "done")
}

// Two goroutines call methods on one value.
func C21_methods() {
	v := apiValue(pick("on", nAPIValues))
	var calls []func(a *args) any
	var names []string
	for _, m := range apiMethods {
		if c := m.bind(v); c != nil {
			calls, names = append(calls, c), append(names, m.name)
		}
	}
	if len(calls) == 0 {
		return
	}
	k := pick("method", len(calls))
	l := (k + pick("other", 2)) % len(calls)
	nd.Observe("call", names[k]+" "+names[l])
	one := func(k int) func() string {
		return func() string {
			use(calls[k](&args{at: -9, also: -9, brief: true}))
			return "done"
		}
	}
	x, y := nd.Together("call", one(k), one(l))
	nd.CheckEq("first", x, "done")
	nd.CheckEq("second", y, "done")
}
