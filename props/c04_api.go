package props

import (
	"verif/nd"
)

// Every function of the API with a refused value for any of its parameters:
// what it makes is refused wherever it is used.
func C04_functions() {
	f := apiFunctions[pick("function", len(apiFunctions))]
	nd.Observe("call", f.name)
	if f.params == 0 {
		return
	}
	a := &args{at: pick("parameter", f.params), also: -9, refuse: true}
	v := f.call(a)
	if !a.did {
		return
	}
	mustRefuse = true
	defer func() { mustRefuse = false }()
	use(v)
}

// Every method of everything the API has likewise.
func C04_methods() {
	on := pick("on", nAPIValues)
	calls, params, names := special(apiValue(on), on)
	if len(calls) == 0 {
		return
	}
	k := pick("method", len(calls))
	nd.Observe("call", names[k])
	if params[k] == 0 {
		return
	}
	a := &args{at: pick("parameter", params[k]), also: -9, refuse: true, brief: true}
	v := calls[k](a)
	if !a.did {
		return
	}
	mustRefuse = true
	defer func() { mustRefuse = false }()
	use(v)
}
