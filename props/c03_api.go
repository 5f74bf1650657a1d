package props

import (
	"math"

	"verif/nd"
)

var farNumbers = []int{math.MaxInt64, math.MinInt64 + 1, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32 + 1, 100000000000000001, 1000000, 256}

func counting(make func() any) {
	was := markNumber
	markNumber = farNumbers[pick("number", len(farNumbers))]
	defer func() { markNumber = was }()
	if v := make(); v != nil {
		showing(v)
	}
}

// A number of up to 64 bits for every parameter of the API that takes one.
func C03_functions() {
	f := apiFunctions[pick("function", len(apiFunctions))]
	nd.Observe("call", f.name)
	if f.params == 0 {
		return
	}
	at := pick("parameter", f.params)
	counting(func() any {
		a := &args{at: at, also: -9, mark: true, numbers: true, brief: true}
		v := f.call(a)
		if !a.did {
			return nil
		}
		return v
	})
}

func C03_methods() {
	on := pick("on", nAPIValues)
	calls, params, names := special(apiValue(on), on)
	if len(calls) == 0 {
		return
	}
	k := pick("method", len(calls))
	nd.Observe("call", names[k])
	if params[k] == 0 {
		return
	}
	at := pick("parameter", params[k])
	a := &args{at: at, also: -9, mark: true, numbers: true, brief: true}
	if calls[k](a); !a.did {
		return
	}
	counting(func() any { return calls[k](a) })
}
