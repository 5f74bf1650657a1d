package props

import (
	"verif/nd"
)

// What takes text as it is: procedure and function names, raw literals,
// operators and dots.
var trusted = map[string]bool{
	"ACall": true, "ACallSimple": true, "Call1": true, "DotCreate": true, "FunctionInvocationCreateWithFunctionName": true,
	"NameSpaceCreate": true, "OperatorCreate": true, "ProcedureCallCreate": true, "ProcedureNameCreate": true,
	"ProcedureNameCreate1": true, "ProcedureNameCreate2": true, "RawStringLiteralCreate": true,
	"StandaloneCallBuilderCreate": true, "StatementCall": true,
}

func quoting(c string, make func() any) {
	was := mark
	mark, mustQuote = "q"+c+markDigits, c
	defer func() { mark, mustQuote = was, "" }()
	if v := make(); v != nil {
		use(v)
	}
}

func quotedFunctions(specials []string) {
	f := apiFunctions[pick("function", len(apiFunctions))]
	nd.Observe("call", f.name)
	if f.params == 0 || trusted[f.name] {
		return
	}
	a := &args{at: pick("parameter", f.params), also: -9, mark: true, brief: true}
	quoting(specials[pick("special", len(specials))], func() any {
		v := f.call(a)
		if !a.did {
			return nil
		}
		return v
	})
}

func quotedMethods(specials []string) {
	on := pick("on", nAPIValues)
	calls, params, names := special(apiValue(on), on)
	if len(calls) == 0 {
		return
	}
	k := pick("method", len(calls))
	nd.Observe("call", names[k])
	if params[k] == 0 || trusted[names[k]] {
		return
	}
	a := &args{at: pick("parameter", params[k]), also: -9, mark: true, brief: true}
	quoting(specials[pick("special", len(specials))], func() any {
		v := calls[k](a)
		if !a.did {
			return nil
		}
		return v
	})
}

// A text with quotes or backslashes, for every parameter of the API.
func C01_functions() { quotedFunctions([]string{"'", "\\"}) }
func C01_methods()   { quotedMethods([]string{"'", "\\"}) }

// A name with backticks or blanks likewise.
func C02_functions() { quotedFunctions([]string{"`", " "}) }
func C02_methods()   { quotedMethods([]string{"`", " "}) }
