package props

import (
	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// shapeOf is what comes of v, by itself and in a statement.
func shapeOf(v any) string {
	x := sym("u")
	out := ""
	if c, is := v.(cypher.ExpressionContainer); is {
		v = c.Get()
	}
	if c, is := v.(cypher.ConditionContainer); is {
		v = c.Get()
	}
	if b, is := v.(cypher.BuildableStatement); is {
		out += outcome(b) + ";"
	}
	if e, is := v.(cypher.Expression); is {
		return out + outcome(cypher.Match(nodeN()).With(e, x).Returning(cypher.Coalesce(x, e)))
	}
	if p, is := v.(cypher.PatternElement); is {
		return out + outcome(cypher.Match(p).Returning(x))
	}
	if s, is := v.(cypher.SortItem); is {
		return out + outcome(cypher.Match(nodeN()).Returning(x).OrderBySortItem(s))
	}
	if s, is := v.(cypher.Statement); is {
		return out + outcome(stmt{s})
	}
	var more []string
	noted = &more
	useBuilder(v)
	noted = nil
	for _, s := range more {
		out += s + ";"
	}
	return out
}

// Everything the API has, and every method it has: what was there before is
// what it was, and so is what another call made of it.
func C06_api() {
	on := pick("on", nAPIValues)
	v := apiValue(on)
	calls, params, names := special(v, on)
	if len(calls) == 0 {
		return
	}
	k := pick("method", len(calls))
	l := (k + 1 + on%5) % len(calls)
	if nd.Thorough() {
		l = pick("then", len(calls))
	}
	nd.Observe("call", names[k])
	nd.Observe("then", names[l])
	a := &args{at: -2, also: -2, brief: true}
	b := a
	if params[k] > 0 && (nd.Thorough() || (on+k)%6 == 0) {
		b = &args{at: pick("vary", params[k]), also: -2, brief: true}
	}
	before := shapeOf(v)
	one := calls[k](a)
	first := shapeOf(one)
	two := calls[l](a)
	second := shapeOf(two)
	_ = shapeOf(calls[k](b))
	nd.CheckEq("receiver", shapeOf(v), before)
	nd.CheckEq("first", shapeOf(one), first)
	nd.CheckEq("second", shapeOf(two), second)
}
