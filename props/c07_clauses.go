package props

import (
	"verif/nd"
)

func flowText(f flow) {
	b, want := f.end()
	nd.CheckEq("clauses", ok(b), want)
}

// Sequences of builder calls, each with every form of the last call.
func C07_sequences() {
	f := flowRoot(nd.Choose("root", 8))
	n := 2
	if nd.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		ss := f.mainSteps()
		if len(ss) == 0 {
			break
		}
		f = f.take(ss[nd.Choose("call", len(ss))])
	}
	if ss := f.steps(); len(ss) > 0 {
		f = f.take(ss[nd.Choose("last", len(ss))])
	}
	flowText(f)
}

// Every form of every call, after every root.
func C07_forms() {
	f := flowRoot(nd.Choose("root", nFlowRoots))
	for i := 0; i < 2; i++ {
		ss := f.steps()
		if i == 0 && !nd.Thorough() {
			ss = f.mainSteps()
		}
		if len(ss) == 0 {
			break
		}
		f = f.take(ss[nd.Choose("call", len(ss))])
	}
	flowText(f)
}

// Long sequences: one call, again and again, between others.
func C07_long() {
	f := flowRoot(nd.Choose("root", 8))
	if pick("alike", 2) == 1 {
		f = f.alikeSteps()
	}
	n := 8
	first := pick("first", 14)
	second := pick("second", 14)
	every := 1 + pick("every", 3)
	for i := 0; i < n; i++ {
		ss := f.mainSteps()
		if len(ss) == 0 {
			break
		}
		k := first
		if i%(every+1) == every {
			k = second
		}
		f = f.take(ss[k%len(ss)])
	}
	flowText(f)
}

// Calls that take the same values as those before.
func C07_again() {
	f := flowRoot(nd.Choose("root", 8)).alikeSteps()
	for i := 0; i < 2; i++ {
		ss := f.steps()
		if len(ss) == 0 {
			break
		}
		f = f.take(ss[nd.Choose("call", len(ss))])
	}
	flowText(f)
}
