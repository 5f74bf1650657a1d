package props

import (
	"verif/nd"
)

func forming(v any) {
	mustForm = true
	defer func() { mustForm = false }()
	use(v)
}

// Functions that take operators or clauses as they are, and those with keys of
// which lexical does not know that they are one word.
var unformed = map[string]bool{
	"ComparisonCreate": true, "OperationCreate": true, "OperationCreate1": true, "ReturnCreate1": true,
	"OrdinalDate": true, "QuarterDate": true, "WeekDate": true,
}

// Everything the functions of the API make.
func C19_functions() {
	f := apiFunctions[pick("function", len(apiFunctions))]
	nd.Observe("call", f.name)
	if f.params == 0 || unformed[f.name] {
		return
	}
	a := &args{at: pick("parameter", f.params), also: -9, mark: true, brief: true}
	if f.params > 1 {
		a.also = pick("another", f.params)
	}
	if v := f.call(a); a.did {
		forming(v)
	}
}

// Everything its methods make.
func C19_methods() {
	on := pick("on", nAPIValues)
	if on == 57 { // the dots of a range
		return
	}
	calls, params, names := special(apiValue(on), on)
	if len(calls) == 0 {
		return
	}
	k := pick("method", len(calls))
	nd.Observe("call", names[k])
	a := &args{at: -9, also: -9, mark: true, brief: true}
	if params[k] > 0 {
		a.at = pick("parameter", params[k])
	}
	if nd.Thorough() && params[k] > 1 {
		a.also = pick("another", params[k])
	}
	forming(calls[k](a))
}
