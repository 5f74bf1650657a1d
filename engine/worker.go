package engine

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decision is one recorded choice of a path. For a branch, val is 0 or 1; for
// an n-way fork or a concretization, the value taken.
type decision struct {
	val    uint64
	forced bool
}

// Input is one nondeterministic value drawn by the harness.
type Input struct {
	Kind  string  `json:"k"`
	Label string  `json:"l"`
	Str   []byte  `json:"s,omitempty"`
	Int   int64   `json:"i,omitempty"`
	terms []*Term // string bytes, or the integer
	w     uint8
}

// Obs is an observed output.
type Obs struct {
	Label string
	val   V
}

// Violation is a property failure found on a path.
type Violation struct {
	Harness string  `json:"harness"`
	Check   string  `json:"check"`
	Detail  string  `json:"detail"`
	Inputs  []Input `json:"inputs"`
	Native  string  `json:"native,omitempty"`
	// MapOrder: the path depends on the iteration order of a map.
	MapOrder bool `json:"map_order,omitempty"`
}

// Worker runs paths. Each worker owns its terms, solver and heap.
type Worker struct {
	p       *Program
	c       *Ctx
	s       *Solver
	globals []V
	infos   map[*ssa.Function]*fnInfo
	methods map[methKey]*ssa.Function
	impls   map[implKey]bool
	undo    []undoRec
	epoch   uint64

	maxSteps  int
	maxDepth  int
	track     *track // set inside of Together
	nRanges   int    // map iterations so far
	backwards bool
	held      int // locks held

	// per path
	steps     int
	prefix    []decision
	pos       int
	decisions []decision
	alts      [][]decision // alternatives discovered on this path
	pc        []*Term      // constraints over two or more variables, or wide ones
	known     map[*Term]bool
	facts     []*Term // every atom assumed on this path, in order
	obl       [][2]V  // texts the path claims equal by construction
	oblRest   int     // other assertions that hold by construction
	doms      map[*Term]*Dom
	full      map[*Term]*Dom
	entangled map[*Term]bool
	wide      map[*Term]*interval
	defs      map[*Term]*Term // variables that stand for a term
	defined   []*Term
	widePC    map[*Term][]*Term
	inputs    []Input
	obs       []Obs
	notes     []Obs
	reached   map[string]int
	viols     []Violation
	mapOrder  bool
	approx    string // reason why this path does not stand for all its values
	nvar      int
	vars      []*Term
	addrs     map[*V]uint64
	nextAddr  uint64
	nxid      int
	harness   string
	objs      map[any]any

	Thorough bool

	queue        []certificate
	Contradicted []string // harnesses with a path the solver contradicts

	// statistics
	Stats Stats
}

// Stats are the counters of one worker.
type Stats struct {
	Paths, Steps, Forks, Nodes            int
	AssertTrivial, AssertSolver           int
	Certified, Contradicted               int
	BranchDomain, BranchSolver            int
	Unsupported, Bound, AssumeEnd, Approx int
	Validated, Mismatch, Skipped          int
	MaxDecisions                          int
}

// NewWorker makes a worker and runs the package initialisers.
func NewWorker(p *Program, solver *Solver) (w *Worker, err error) {
	w = &Worker{p: p, c: NewCtx(), s: solver, infos: map[*ssa.Function]*fnInfo{}, methods: map[methKey]*ssa.Function{}, impls: map[implKey]bool{}, maxSteps: 200_000_000, maxDepth: 3000}
	w.globals = make([]V, len(p.globals))
	for i, g := range p.globals {
		ptr := new(V)
		path := g.Pkg.Pkg.Path()
		if w.wantInit(path) || okGlobal(g) {
			func() {
				defer func() {
					if e := recover(); e != nil {
						*ptr = poison{fmt.Sprint(e)}
					}
				}()
				*ptr = zero(g.Type().Underlying().(*types.Pointer).Elem())
			}()
		} else {
			*ptr = poison{"global " + g.String() + " is not modelled"}
		}
		w.globals[i] = ptr
	}
	w.resetPath(nil)
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("package initialisation: %v", describe(e))
		}
	}()
	w.callFn(nil, p.models.Func("init"), nil, nil)
	w.callFn(nil, p.Harness.Func("init"), nil, nil)
	w.undo = w.undo[:0]
	w.maxSteps = 3_000_000
	w.maxDepth = 3000
	return w, nil
}

func okGlobal(g *ssa.Global) bool {
	switch g.String() {
	case "internal/cpu.X86", "internal/cpu.ARM64", "io.EOF", "time.utcLoc", "time.UTC", "time.localLoc", "time.Local":
		return true
	}
	return false
}

func describe(e any) string {
	switch e := e.(type) {
	case pathEnd:
		return e.kind + ": " + e.why
	case targetPanic:
		return "panic: " + fmt.Sprint(e.v.v)
	}
	return fmt.Sprint(e)
}

func (w *Worker) resetPath(prefix []decision) {
	w.epoch++
	w.steps = 0
	w.prefix = prefix
	w.pos = 0
	w.decisions = w.decisions[:0]
	w.alts = nil
	w.pc = nil
	w.known = map[*Term]bool{}
	w.facts = w.facts[:0]
	w.obl = w.obl[:0]
	w.oblRest = 0
	w.doms = map[*Term]*Dom{}
	w.full = map[*Term]*Dom{}
	w.entangled = map[*Term]bool{}
	w.wide = map[*Term]*interval{}
	w.defs = map[*Term]*Term{}
	w.defined = w.defined[:0]
	w.widePC = map[*Term][]*Term{}
	w.inputs = nil
	w.obs = nil
	w.track, w.held = nil, 0
	w.nRanges, w.backwards = 0, false
	w.notes = nil
	w.reached = map[string]int{}
	w.viols = nil
	w.mapOrder = false
	w.approx = ""
	w.nvar = 0
	w.vars = nil
	w.addrs = map[*V]uint64{}
	w.nextAddr = 0xc000100000
	w.nxid = 0
	w.objs = map[any]any{}
	if w.c.nextID > 200000 {
		w.c.Reset()
	}
}

func (w *Worker) addr(p *V) V {
	if p == nil {
		return uint64(0)
	}
	a, ok := w.addrs[p]
	if !ok {
		w.nextAddr += 16
		a = w.nextAddr
		w.addrs[p] = a
	}
	return a
}

func (w *Worker) newVar(wd uint8, lo, hi uint64) *Term {
	w.nvar++
	v := w.c.Var(fmt.Sprintf("v%d_%d", w.nvar, wd), wd)
	w.vars = append(w.vars, v)
	span := (hi - lo) & mask(wd)
	if span < 256 {
		d := &Dom{lo: lo & mask(wd)}
		for i := uint64(0); i <= span; i++ {
			d.put(int(i))
		}
		w.doms[v] = d
		f := *d
		w.full[v] = &f
	} else {
		one := big.NewInt(1)
		h := new(big.Int).Lsh(one, uint(wd)-1)
		w.wide[v] = &interval{new(big.Int).Neg(h), new(big.Int).Sub(h, one), false}
	}
	return v
}

// define names an 8-bit term whose value is known to lie in lo..hi.
func (w *Worker) define(t *Term, lo, hi uint64) *Term {
	if t.op == OConst {
		return t
	}
	w.nvar++
	v := w.c.Var(fmt.Sprintf("d%d_%d", w.nvar, t.w), t.w)
	d := &Dom{}
	for x := lo; x <= hi; x++ {
		d.put(int(x))
	}
	f := *d
	w.doms[v], w.full[v] = d, &f
	w.defs[v] = t
	w.defined = append(w.defined, v)
	w.entangled[v] = true
	return v
}

// only is the variable that cond depends on, apart from those whose value is
// settled. It is nil if there is more than one; when there is none it is one of
// the settled ones.
func (w *Worker) only(cond *Term) *Term {
	if !cond.multi {
		return cond.v1
	}
	var vs []*Term
	collectVars(cond, map[*Term]bool{}, &vs)
	if len(vs) > 8 {
		return nil
	}
	var free *Term
	for _, v := range vs {
		d := w.doms[v]
		if d == nil || d.count() == 0 {
			return nil
		}
		if d.count() == 1 {
			continue
		}
		if free != nil {
			return nil
		}
		free = v
	}
	if free == nil {
		return vs[0]
	}
	return free
}

// splitFixed is split for a condition whose other variables are settled.
func (w *Worker) splitFixed(cond *Term, v *Term, d *Dom) (t, f Dom) {
	t.lo, f.lo = d.lo, d.lo
	for i := 0; i < 256; i++ {
		if !d.has(i) {
			continue
		}
		x := w.c.Eval(cond, func(u *Term) uint64 {
			if u == v {
				return (d.lo + uint64(i)) & mask(v.w)
			}
			return w.doms[u].values(u.w)[0]
		})
		if x != 0 {
			t.put(i)
		} else {
			f.put(i)
		}
	}
	return
}

// split evaluates a single-variable condition over the variable's domain.
func (w *Worker) split(cond *Term, v *Term, d *Dom) (t, f Dom) {
	if cond.multi {
		return w.splitFixed(cond, v, d)
	}
	t.lo, f.lo = d.lo, d.lo
	for i := 0; i < 256; i++ {
		if !d.has(i) {
			continue
		}
		if w.c.eval1(cond, (d.lo+uint64(i))&mask(v.w)) != 0 {
			t.put(i)
		} else {
			f.put(i)
		}
	}
	return
}

// constraints are the path constraints that matter for ts: those connected to
// them through shared variables, with the variables' domains.
func (w *Worker) constraints(ts ...*Term) []*Term {
	out := append([]*Term(nil), ts...)
	inVars := map[*Term]bool{}
	var queue []*Term
	var addVars func(t *Term)
	addVars = func(t *Term) {
		var vs []*Term
		collectVars(t, map[*Term]bool{}, &vs)
		for _, v := range vs {
			if !inVars[v] {
				inVars[v] = true
				queue = append(queue, v)
				if d := w.defs[v]; d != nil {
					addVars(d)
				}
			}
		}
	}
	for _, t := range ts {
		addVars(t)
	}
	used := make([]bool, len(w.pc))
	pcVars := make([][]*Term, len(w.pc))
	for i, t := range w.pc {
		collectVars(t, map[*Term]bool{}, &pcVars[i])
	}
	for changed := true; changed; {
		changed = false
		for i, t := range w.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range pcVars[i] {
				if inVars[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, t)
				addVars(t)
			}
		}
	}
	for _, v := range queue {
		out = append(out, w.widePC[v]...)
		if d := w.defs[v]; d != nil {
			out = append(out, w.c.Eq(v, d))
		}
		if d := w.doms[v]; d != nil {
			if v.w == 8 && d.count() == 256 {
				continue
			}
			out = append(out, d.term(w.c, v))
		}
	}
	return out
}

func (w *Worker) feasible(cond *Term) bool {
	if cond.op == OConst {
		return cond.val != 0
	}
	w.Stats.BranchSolver++
	r, _ := w.s.Check(w.constraints(cond), nil)
	return r != Unsat
}

func (w *Worker) assume(c *Term) {
	if c == w.c.True {
		return
	}
	if c.op == OAnd {
		w.assume(c.a[0])
		w.assume(c.a[1])
		return
	}
	if c.op == ONot && c.a[0].op == OOr {
		w.assume(w.c.Not(c.a[0].a[0]))
		w.assume(w.c.Not(c.a[0].a[1]))
		return
	}
	if w.known[c] {
		return
	}
	w.known[c] = true
	w.facts = append(w.facts, c)
	if v := w.only(c); v != nil {
		if d := w.doms[v]; d != nil {
			t, _ := w.split(c, v, d)
			if w.defs[v] != nil && t != *d {
				w.pc = append(w.pc, c)
				w.entangle(w.defs[v])
			}
			w.doms[v] = &t
			if t.empty() {
				panic(pathEnd{"infeasible", ""})
			}
			return
		}
	}
	if v := c.v1; v != nil && !c.multi && w.wide[v] != nil {
		if t, _, ok := w.splitWide(c, v); ok {
			if t == nil {
				panic(pathEnd{"infeasible", ""})
			}
			w.wide[v] = t
			w.widePC[v] = append(w.widePC[v], c)
			return
		}
	}
	w.pc = append(w.pc, c)
	w.entangle(c)
}

func (w *Worker) entangle(c *Term) {
	var vs []*Term
	collectVars(c, map[*Term]bool{}, &vs)
	for _, v := range vs {
		w.entangled[v] = true
		if d := w.defs[v]; d != nil {
			w.entangle(d)
		}
	}
}

func (w *Worker) decideV(v V) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return w.decide(v)
	}
	panic(unsupported(fmt.Sprintf("condition is %T", v)))
}

// decide evaluates a condition, forking when both outcomes are possible.
func (w *Worker) decide(cond *Term) bool {
	if cond.op == OConst {
		return cond.val != 0
	}
	if w.known[cond] {
		return true
	}
	n := w.c.Not(cond)
	if w.known[n] {
		return false
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.decisions = append(w.decisions, d)
		if d.val != 0 {
			w.assume(cond)
			return true
		}
		w.assume(n)
		return false
	}
	canT, canF := true, true
	exact := false
	if v := w.only(cond); v != nil {
		if d := w.doms[v]; d != nil {
			t, f := w.split(cond, v, d)
			canT, canF = !t.empty(), !f.empty()
			exact = !w.entangled[v]
			if canT && canF && exact {
				w.Stats.BranchDomain++
			}
		} else if t, f, ok := w.splitWide(cond, v); ok {
			canT, canF = t != nil, f != nil
			exact = !w.entangled[v] && !w.wide[v].holes
			if canT && canF && exact {
				w.Stats.BranchDomain++
			}
		}
	}
	if canT && canF && !exact {
		canT = w.feasible(cond)
		if canT {
			canF = w.feasible(n)
		}
	}
	if !canT && !canF {
		panic(pathEnd{"infeasible", ""})
	}
	forced := !(canT && canF)
	d := decision{forced: forced}
	if canT {
		d.val = 1
	}
	if !forced {
		w.Stats.Forks++
		w.alt(decision{val: 0})
	}
	w.decisions = append(w.decisions, d)
	if canT {
		w.assume(cond)
	} else {
		w.assume(n)
	}
	return canT
}

func (w *Worker) alt(d decision) {
	a := make([]decision, len(w.decisions)+1)
	copy(a, w.decisions)
	a[len(w.decisions)] = d
	w.alts = append(w.alts, a)
}

// fork is an n-way choice that is not an input.
func (w *Worker) fork(n int) int {
	if n <= 1 {
		return 0
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.decisions = append(w.decisions, d)
		return int(d.val)
	}
	for k := n - 1; k >= 1; k-- {
		w.alt(decision{val: uint64(k)})
	}
	w.Stats.Forks++
	w.decisions = append(w.decisions, decision{val: 0})
	return 0
}

// concretize forks over the values of t.
func (w *Worker) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.decisions = append(w.decisions, d)
		w.assume(w.c.Eq(t, w.c.BV(d.val, t.w)))
		return d.val
	}
	var vals []uint64
	if v := t.v1; v != nil && !t.multi && w.doms[v] != nil {
		seen := map[uint64]bool{}
		for _, x := range w.doms[v].values(v.w) {
			r := w.c.eval1(t, x)
			if !seen[r] {
				seen[r] = true
				vals = append(vals, r)
			}
		}
		if w.entangled[v] {
			var keep []uint64
			for _, r := range vals {
				if w.feasible(w.c.Eq(t, w.c.BV(r, t.w))) {
					keep = append(keep, r)
				}
			}
			vals = keep
		}
	} else {
		// enumerate with the solver, up to 64 values
		block := w.c.True
		for len(vals) < 64 {
			ts := w.constraints(t, block)
			ts = ts[1:] // t itself is not a constraint
			if t.w == 0 {
				panic(unsupported("concretize bool"))
			}
			tv := w.c.Var(fmt.Sprintf("cz%d", t.w), t.w)
			ts = append(ts, w.c.Eq(tv, t))
			r, m := w.s.Check(ts, []*Term{tv})
			w.Stats.BranchSolver++
			if r == Unsat {
				break
			}
			if r == Unknown {
				panic(unsupported("solver gave no answer for a concretization"))
			}
			vals = append(vals, m[tv])
			block = w.c.And(block, w.c.Not(w.c.Eq(t, w.c.BV(m[tv], t.w))))
		}
		if len(vals) >= 64 {
			w.approx = "more than 64 values of an integer that must be concrete"
			vals = vals[:8]
		}
		sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	}
	if len(vals) == 0 {
		panic(pathEnd{"infeasible", ""})
	}
	if len(vals) > 1 {
		w.Stats.Forks++
	}
	for k := len(vals) - 1; k >= 1; k-- {
		w.alt(decision{val: vals[k]})
	}
	w.decisions = append(w.decisions, decision{val: vals[0], forced: len(vals) == 1})
	w.assume(w.c.Eq(t, w.c.BV(vals[0], t.w)))
	return vals[0]
}

var interesting = []uint64{0, 1, 9, 10, 99, 100, 12345678901, 1<<53 + 1, 1<<63 - 1, 1 << 63, ^uint64(0), 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<32 + 1, 999999999999}

// concretizeSome is for operations the solver cannot follow (floating point):
// it explores boundary values only, and marks the path as approximate.
func (w *Worker) concretizeSome(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if v := t.v1; v != nil && !t.multi && w.doms[v] != nil {
		return w.concretize(t)
	}
	w.approx = "boundary values of an integer used in floating point"
	if w.pos < len(w.prefix) {
		return w.concretize(t)
	}
	var vals []uint64
	for _, x := range interesting {
		x &= mask(t.w)
		if w.feasible(w.c.Eq(t, w.c.BV(x, t.w))) {
			vals = append(vals, x)
		}
	}
	if len(vals) == 0 {
		return w.concretize(t)
	}
	for k := len(vals) - 1; k >= 1; k-- {
		w.alt(decision{val: vals[k]})
	}
	w.decisions = append(w.decisions, decision{val: vals[0]})
	w.assume(w.c.Eq(t, w.c.BV(vals[0], t.w)))
	return vals[0]
}

// model picks values for every input variable of the path, with the extra
// constraints ts. ok is false when there is none (or the solver gave up).
func (w *Worker) model(ts ...*Term) (map[*Term]uint64, Result) {
	m := map[*Term]uint64{}
	var ent []*Term
	need := map[*Term]bool{}
	for _, t := range ts {
		var vs []*Term
		collectVars(t, map[*Term]bool{}, &vs)
		for _, v := range vs {
			need[v] = true
			if d := w.defs[v]; d != nil {
				var ds []*Term
				collectVars(d, map[*Term]bool{}, &ds)
				for _, x := range ds {
					need[x] = true
				}
			}
		}
	}
	names := w.vars
	for _, v := range names {
		if _, ok := m[v]; ok {
			continue
		}
		if iv := w.wide[v]; iv != nil && !iv.holes && !w.entangled[v] && !need[v] {
			m[v] = iv.value(v.w)
			continue
		}
		if w.entangled[v] || need[v] || w.doms[v] == nil {
			m[v] = 0
			ent = append(ent, v)
			continue
		}
		m[v] = pick(w.doms[v], v)
	}
	if len(ent) > 0 || len(ts) > 0 {
		cs := w.constraints(append(append([]*Term(nil), ts...), ent...)...)
		// the bare variables only seed the slice
		var only []*Term
		for i, c := range cs {
			if i >= len(ts) && i < len(ts)+len(ent) {
				continue
			}
			only = append(only, c)
		}
		r, mm := w.s.Check(only, ent)
		if len(ent) == 0 {
			return m, r
		}
		if r != Sat {
			return nil, r
		}
		for v, x := range mm {
			m[v] = x
		}
	}
	for _, v := range w.defined {
		m[v] = w.c.Eval(w.defs[v], func(t *Term) uint64 { return m[t] })
	}
	return m, Sat
}

// pick prefers readable values.
func pick(d *Dom, v *Term) uint64 {
	if v.w == 8 {
		for _, x := range "aAzZ_019 " {
			i := int(uint64(x) - d.lo)
			if i >= 0 && i < 256 && d.has(i) {
				return uint64(x)
			}
		}
	}
	for i := 0; i < 256; i++ {
		if d.has(i) {
			return (d.lo + uint64(i)) & mask(v.w)
		}
	}
	return 0
}

func (w *Worker) inputsUnder(m map[*Term]uint64) []Input {
	f := func(v *Term) uint64 { return m[v] }
	out := make([]Input, len(w.inputs))
	for i, in := range w.inputs {
		o := Input{Kind: in.Kind, Label: in.Label}
		if in.Kind == "str" {
			o.Str = make([]byte, len(in.terms))
			for j, t := range in.terms {
				o.Str[j] = byte(w.c.Eval(t, f))
			}
		} else {
			o.Int = sext(w.c.Eval(in.terms[0], f), in.w)
		}
		out[i] = o
	}
	return out
}

// concreteUnder gives the concrete text of a string value under a model.
func (w *Worker) concreteUnder(v V, m map[*Term]uint64) string {
	switch v := v.(type) {
	case string:
		return v
	case *SStr:
		f := func(t *Term) uint64 { return m[t] }
		b := make([]byte, len(v.b))
		for i, t := range v.b {
			b[i] = byte(w.c.Eval(t, f))
		}
		return string(b)
	}
	return fmt.Sprint(v)
}

// certify has the solver re-decide a finished path: the atoms assumed on it,
// together with the declared input ranges, are satisfiable, and no input that
// satisfies them makes two texts differ that the path holds equal.
func (w *Worker) certify() {
	var sb strings.Builder
	var neg [][2]*Term
	for _, o := range w.obl {
		a, b := w.strBytes(o[0]), w.strBytes(o[1])
		for i := range a {
			if a[i].op != OConst || b[i].op != OConst {
				neg = append(neg, [2]*Term{a[i], b[i]})
			}
		}
	}
	if len(w.facts) == 0 && len(neg) == 0 {
		w.Stats.AssertTrivial += w.oblRest + len(w.obl)
		return
	}
	var ts []*Term
	var vars []*Term
	seen := map[*Term]bool{}
	enum := map[*Term]bool{}
	for _, f := range w.facts {
		if v := enumAtom(f); v != nil && w.doms[v] != nil {
			// v is, or is not, a given value: the set of values says the same
			enum[v] = true
			continue
		}
		ts = append(ts, f)
	}
	for i := 0; i < len(ts); i++ {
		var vs []*Term
		collectVars(ts[i], map[*Term]bool{}, &vs)
		for _, v := range vs {
			if d := w.defs[v]; d != nil && !enum[w.defs[v]] {
				enum[d] = true
				ts = append(ts, w.c.Eq(v, d))
			}
		}
	}
	for v := range enum {
		if v.op != OVar {
			delete(enum, v)
		} else if d := w.defs[v]; d != nil {
			ts = append(ts, w.c.Eq(v, d))
		}
	}
	nf := len(ts)
	for v := range enum {
		ts = append(ts, v)
	}
	sort.Slice(ts[nf:], func(i, j int) bool { return ts[nf+i].id < ts[nf+j].id })
	ne := len(ts)
	for _, n := range neg {
		ts = append(ts, n[0], n[1])
	}
	for _, t := range ts {
		collectVars(t, seen, &vars)
	}
	ex := smtEmit(&sb, ts)
	for _, v := range vars {
		d := w.full[v]
		if enum[v] {
			d = w.doms[v]
		}
		if d != nil && d.count() < 256 {
			sb.WriteString("(assert " + d.smt(v) + ")\n")
		}
	}
	for i := 0; i < nf; i++ {
		sb.WriteString("(assert " + ex[i] + ")\n")
	}
	n := ""
	for i := ne; i < len(ts); i += 2 {
		n += " (distinct " + ex[i] + " " + ex[i+1] + ")"
	}
	if n != "" {
		n = "(or false" + n + ")"
	}
	w.queue = append(w.queue, certificate{sb.String(), n, len(w.obl), w.oblRest, w.harness})
	if len(w.queue) >= 64 {
		w.flush()
	}
}

// certificate is a finished path whose verdict the solver still has to confirm.
type certificate struct {
	q, neg    string
	obl, rest int
	harness   string
}

// flush decides the queued certificates.
func (w *Worker) flush() {
	if len(w.queue) == 0 {
		return
	}
	ok := w.s.Certify(w.queue)
	for i, c := range w.queue {
		switch ok[i] {
		case Sat:
			w.Stats.Contradicted++
			w.Contradicted = append(w.Contradicted, c.harness)
		case Unsat:
			w.Stats.Certified++
			w.Stats.AssertSolver += c.obl
			w.Stats.AssertTrivial += c.rest
		default:
			w.Stats.AssertTrivial += c.obl + c.rest
		}
	}
	w.queue = w.queue[:0]
}

// enumAtom gives the variable of v = k and its negation.
func enumAtom(t *Term) *Term {
	if t.op == ONot {
		t = t.a[0]
	}
	if t.op != OEq {
		return nil
	}
	if t.a[0].op == OVar && t.a[1].op == OConst {
		return t.a[0]
	}
	if t.a[1].op == OVar && t.a[0].op == OConst {
		return t.a[1]
	}
	return nil
}

// check handles an assertion.
func (w *Worker) check(id string, cond *Term, detail func(m map[*Term]uint64) string) {
	w.reached[id]++
	if cond.op == OConst && cond.val != 0 {
		w.oblRest++
		return
	}
	if w.pos < len(w.prefix) {
		// already examined on the path this one was forked from
		if cond.op == OConst {
			panic(pathEnd{"stop", "assertion failed"})
		}
		w.assumeOrEnd(cond)
		return
	}
	w.Stats.AssertSolver++
	neg := w.c.Not(cond)
	m, r := w.model(neg)
	switch r {
	case Unsat:
		w.assume(cond)
		return
	case Unknown:
		w.approx = "the solver gave no answer for an assertion"
		w.assumeOrEnd(cond)
		return
	}
	v := Violation{Harness: w.harness, Check: id, Inputs: w.inputsUnder(m), MapOrder: w.mapOrder}
	if detail != nil {
		v.Detail = detail(m)
	}
	for _, n := range w.notes {
		v.Detail += fmt.Sprintf(" [%s=%q]", n.Label, w.concreteUnder(n.val, m))
	}
	w.viols = append(w.viols, v)
	if cond.op == OConst {
		panic(pathEnd{"stop", "assertion failed"})
	}
	w.assumeOrEnd(cond)
}

// assumeOrEnd restricts the path to cond.
func (w *Worker) assumeOrEnd(cond *Term) {
	if cond.op == OConst {
		if cond.val == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if w.known[cond] {
		return
	}
	if w.known[w.c.Not(cond)] {
		panic(pathEnd{"assume", ""})
	}
	if w.pos >= len(w.prefix) {
		ok := true
		if v := w.only(cond); v != nil && w.doms[v] != nil && !w.entangled[v] {
			t, _ := w.split(cond, v, w.doms[v])
			ok = !t.empty()
		} else {
			ok = w.feasible(cond)
		}
		if !ok {
			panic(pathEnd{"assume", ""})
		}
	}
	w.assume(cond)
}

// PathResult is the outcome of one path.
type PathResult struct {
	End        string // "ok", "panic", "assume", "unsupported", "bound", "infeasible", "stop"
	Why        string
	Inputs     []Input
	Obs        []string // label=value under the model, in order
	Reached    map[string]int
	Violations []Violation
	Alts       [][]decision
	MapOrder   bool
	Approx     string
	HaveModel  bool
	Decisions  int
}

// RunPath executes the harness along a decision prefix.
func (w *Worker) RunPath(h string, fn *ssa.Function, prefix []decision) (res PathResult) {
	w.resetPath(prefix)
	w.harness = h
	mark := len(w.undo)
	func() {
		defer func() {
			e := recover()
			switch e := e.(type) {
			case nil:
			case pathEnd:
				res.End, res.Why = e.kind, e.why
			case targetPanic:
				res.End = "panic"
				res.Why = w.panicText(e.v)
			default:
				res.End, res.Why = "unsupported", fmt.Sprintf("executor fault: %v", e)
			}
		}()
		res.End = "ok"
		w.callFn(nil, fn, nil, nil)
	}()
	if res.End == "ok" {
		w.certify()
	}
	w.Stats.Paths++
	w.Stats.Steps += w.steps
	w.Stats.Nodes += len(w.decisions) - len(prefix) + 1
	if len(w.decisions) > w.Stats.MaxDecisions {
		w.Stats.MaxDecisions = len(w.decisions)
	}
	res.Decisions = len(w.decisions)
	res.Alts = w.alts
	res.Reached = w.reached
	res.MapOrder = w.mapOrder
	res.Approx = w.approx
	switch res.End {
	case "unsupported":
		w.Stats.Unsupported++
	case "bound":
		w.Stats.Bound++
	case "assume", "infeasible":
		w.Stats.AssumeEnd++
	}
	if res.End == "ok" || res.End == "panic" || res.End == "bound" || res.End == "stop" || res.End == "unsupported" {
		if m, r := w.model(); r == Sat {
			res.HaveModel = true
			res.Inputs = w.inputsUnder(m)
			for _, o := range w.obs {
				res.Obs = append(res.Obs, o.Label+"="+w.concreteUnder(o.val, m))
			}
			if res.End == "panic" || res.End == "bound" {
				v := Violation{Harness: h, Check: "no-panic", Detail: res.End + ": " + res.Why, Inputs: res.Inputs, MapOrder: w.mapOrder}
				w.viols = append(w.viols, v)
			}
		}
	}
	res.Violations = w.viols
	w.rollback(mark)
	return
}

func (w *Worker) panicText(v iface) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = "panic"
		}
	}()
	if v.t == nil {
		return "nil"
	}
	if x, ok := v.v.(string); ok {
		return x
	}
	return v.t.String() + ": " + strings.TrimSpace(fmt.Sprint(w.fmtValue(nil, v, 'v', 0)))
}
