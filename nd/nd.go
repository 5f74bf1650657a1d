// Package nd is what harnesses use to draw inputs and state properties.
//
// Under the symbolic executor (package engine) every function here is
// intercepted: inputs become symbolic variables and checks become solver
// queries. Compiled natively, the same harness replays recorded inputs against
// the real build.
package nd

import (
	"fmt"
	"runtime"
)

// Input is one recorded value.
type Input struct {
	Kind  string `json:"k"`
	Label string `json:"l"`
	Str   []byte `json:"s,omitempty"`
	Int   int64  `json:"i,omitempty"`
}

// Run is the native state of one replay.
type Run struct {
	In   []Input
	pos  int
	Obs  []string
	Fail []string
}

// AssumeFailed ends a run whose inputs are outside the assumptions.
type AssumeFailed struct{}

// Cur is the current native run.
var Cur *Run

func next(kind, label string) Input {
	if Cur.pos >= len(Cur.In) {
		panic(fmt.Sprintf("replay: no input left for %s %q", kind, label))
	}
	in := Cur.In[Cur.pos]
	Cur.pos++
	if in.Kind != kind || in.Label != label {
		panic(fmt.Sprintf("replay: input %d is %s %q, want %s %q", Cur.pos-1, in.Kind, in.Label, kind, label))
	}
	return in
}

// Choose draws 0..n-1.
func Choose(label string, n int) int { return int(next("int", label).Int) }

// Int draws lo..hi.
func Int(label string, lo, hi int) int { return int(next("int", label).Int) }

// Bool draws a boolean.
func Bool(label string) bool { return next("int", label).Int != 0 }

// Str draws a string of min..max bytes, each of any value.
func Str(label string, min, max int) string { return string(next("str", label).Str) }

// StrOf draws a string of min..max bytes, each from a class such as "a-z0-9_".
func StrOf(label string, min, max int, class string) string {
	return string(next("str", label).Str)
}

// Assume restricts the inputs.
func Assume(ok bool) {
	if !ok {
		panic(AssumeFailed{})
	}
}

// Check states that ok holds.
func Check(id string, ok bool) {
	if !ok {
		Cur.Fail = append(Cur.Fail, id)
	}
}

// CheckEq states that got and want are the same text.
func CheckEq(id, got, want string) {
	if got != want {
		Cur.Fail = append(Cur.Fail, fmt.Sprintf("%s: got %q, want %q", id, got, want))
	}
}

// IsThorough is set from VERIF_TIER by the runner.
var IsThorough bool

// Thorough reports whether the thorough tier is running (larger bounds).
func Thorough() bool { return IsThorough }

// GC forces a garbage collection in native runs.
func GC() { runtime.GC() }

// Together runs f and g concurrently. Under the executor it checks that neither
// writes memory the other one uses; natively the race detector watches them.
func Together(id string, f, g func() string) (string, string) {
	type result struct {
		text  string
		panic interface{}
	}
	start := make(chan bool)
	run := func(f func() string) chan result {
		done := make(chan result, 1)
		go func() {
			var r result
			defer func() {
				r.panic = recover()
				done <- r
			}()
			<-start
			r.text = f()
		}()
		return done
	}
	a, b := run(f), run(g)
	close(start)
	x, y := <-a, <-b
	for _, r := range [2]result{x, y} {
		if r.panic != nil {
			panic(r.panic)
		}
	}
	return x.text, y.text
}

// Observe records an output, compared between the executor and the native run.
func Observe(label, v string) { Cur.Obs = append(Cur.Obs, label+"="+v) }

// Note attaches a value to the counterexamples of this run.
func Note(label, v string) {}
