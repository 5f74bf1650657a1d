package props

import (
	"verif/nd"
)

// finished is the text of a flow when it is completed now.
func finished(id string, f flow) {
	b, want := f.end()
	out, err := text(b)
	if err != nil {
		out = "refused: " + err.Error()
	}
	nd.CheckEq(id, out, want)
}

// branches takes every call a flow offers, from the one value, and finishes
// all of the results, and the value itself, afterwards.
func branches(f flow, ss []step, deep bool) {
	finished("before", f)
	var gs []flow
	for _, s := range ss {
		gs = append(gs, f.take(s))
	}
	for i := len(gs) - 1; i >= 0; i-- {
		finished("branch", gs[i])
	}
	finished("prefix", f)
	if !deep {
		return
	}
	// and once more, one of them continued
	i := nd.Choose("again", len(gs))
	g := gs[i]
	var hs []flow
	for _, s := range g.mainSteps() {
		hs = append(hs, g.take(s))
	}
	for _, h := range hs {
		finished("continued", h)
	}
	for _, g := range gs {
		finished("branchAgain", g)
	}
	finished("prefixAgain", f)
}

// All continuations of one shared statement under construction.
func C06_statements() {
	f := flowRoot(pick("root", 8))
	n := 2
	if nd.Thorough() {
		n = 3
	}
	n = pick("length", n+1)
	for i := 0; i < n; i++ {
		ss := f.mainSteps()
		if len(ss) == 0 {
			break
		}
		f = f.take(ss[nd.Choose("call", len(ss))])
	}
	branches(f, f.steps(), nd.Thorough() && n < 2)
}

// The same after one or two calls repeated a number of times.
func C06_repeated() {
	f := flowRoot(pick("root", 4))
	first, second := pick("first", 14), pick("second", 14)
	n := 3
	if nd.Thorough() {
		n = 8
	}
	n = 3 + pick("length", n)
	for i := 0; i < n; i++ {
		ss := f.mainSteps()
		if len(ss) == 0 {
			break
		}
		k := first
		if i%2 == 1 {
			k = second
		}
		f = f.take(ss[k%len(ss)])
	}
	branches(f, f.mainSteps(), false)
}

// Every form of every root, and two continuations of each continuation.
func C06_roots() {
	f := flowRoot(pick("root", nFlowRoots))
	branches(f, f.steps(), true)
}
