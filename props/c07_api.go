package props

import (
	"verif/nd"
)

func showing(v any) {
	mustShow = true
	defer func() { mustShow = false }()
	use(v)
}

// Every function of the API with a value of its own for one parameter, and any
// for another: what it makes shows the value wherever it is used.
func C07_functions() {
	f := apiFunctions[pick("function", len(apiFunctions))]
	nd.Observe("call", f.name)
	if f.params == 0 {
		return
	}
	a := &args{at: pick("parameter", f.params), also: -9, mark: true, brief: true}
	if f.params > 1 {
		a.also = pick("another", f.params)
	}
	v := f.call(a)
	if a.did {
		showing(v)
	}
}

// Every method of everything the API has likewise.
func C07_methods() {
	on := pick("on", nAPIValues)
	calls, params, names := special(apiValue(on), on)
	if len(calls) == 0 {
		return
	}
	k := pick("method", len(calls))
	nd.Observe("call", names[k])
	if params[k] == 0 {
		return
	}
	a := &args{at: pick("parameter", params[k]), also: -9, mark: true, brief: true}
	if nd.Thorough() && params[k] > 1 {
		a.also = pick("another", params[k])
	}
	v := calls[k](a)
	if a.did {
		showing(v)
	}
}
