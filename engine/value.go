package engine

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// V is a value of the program under execution:
//
//	bool, or *Term of width 0     bool
//	uint64, or *Term              every integer type (truncated to its width)
//	float64                       float32, float64
//	string, or *SStr              string
//	*V                            pointer (to a slot)
//	structure, array              struct, array
//	slice                         slice
//	*MapV                         map
//	iface                         interface
//	*ssa.Function, *closure, *ssa.Builtin   func
//	tuple                         multiple results
type V = any

// SStr is a string with at least one symbolic byte.
type SStr struct{ b []*Term }

type structure []V
type array []V
type tuple []V

// slice is a Go slice; arr is nil for the nil slice. cap(arr) follows the Go
// runtime's growth policy, so that aliasing through append is the real one.
type slice struct {
	arr []V // length = len, capacity = cap
}

type iface struct {
	t types.Type
	v V
}

type closure struct {
	fn  *ssa.Function
	env []V
}

// dataPtr is the result of unsafe.SliceData / unsafe.StringData.
type dataPtr struct {
	s   []V
	str V
}

// rtype is a reflect.Type, rvalue a reflect.Value.
type rtype struct{ t types.Type }
type rvalue struct {
	t types.Type
	v V
}

// MapV is a map.
type MapV struct {
	t     *types.Map
	keys  []V
	vals  []V
	idx   map[any]int
	nsym  int // keys with symbolic content
	alive []bool
	n     int
	epoch uint64
}

type poison struct{ why string }

type undoRec struct {
	p   *V
	old V
	m   *MapV // map snapshot
	mc  *MapV
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// zero is the zero value of t.
func zero(t types.Type) V {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return (*V)(nil)
		case t.Kind() == types.UntypedNil:
			return (*V)(nil)
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex(0, 0)
		case t.Info()&types.IsString != 0:
			return ""
		}
	case *types.Pointer:
		return (*V)(nil)
	case *types.Array:
		a := make(array, t.Len())
		if len(a) > 0 {
			z := zero(t.Elem())
			for i := range a {
				a[i] = copyV(z)
			}
		}
		return a
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return slice{}
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		r := make(tuple, t.Len())
		for i := range r {
			r[i] = zero(t.At(i).Type())
		}
		return r
	case *types.Chan:
		return (*V)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	}
	panic(unsupported("zero value of " + t.String()))
}

func copyV(v V) V {
	switch v := v.(type) {
	case structure:
		r := make(structure, len(v))
		for i := range v {
			r[i] = copyV(v[i])
		}
		return r
	case array:
		r := make(array, len(v))
		for i := range v {
			r[i] = copyV(v[i])
		}
		return r
	}
	return v
}

// pathEnd is the panic value that ends a path.
type pathEnd struct {
	kind string // "assume", "unsupported", "bound", "infeasible", "stop"
	why  string
}

func unsupported(why string) pathEnd { return pathEnd{"unsupported", why} }

// targetPanic is a panic of the program under execution.
type targetPanic struct {
	v iface
}

var hasherMu sync.Mutex
var typeIDs typeutil.Map
var typeFast sync.Map

// typeID gives identical types the same number.
func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if id, ok := typeFast.Load(t); ok {
		return id.(int)
	}
	hasherMu.Lock()
	defer hasherMu.Unlock()
	if id := typeIDs.At(t); id != nil {
		typeFast.Store(t, id.(int))
		return id.(int)
	}
	id := typeIDs.Len() + 1
	typeIDs.Set(t, id)
	typeFast.Store(t, id)
	return id
}

type pair struct{ a, b any }
type ikey struct {
	t int
	v any
}

// keyOf gives a comparable Go value that stands for v; ok is false when v has
// symbolic content.
func keyOf(v V) (k any, ok bool) {
	switch v := v.(type) {
	case *Term:
		if v.op == OConst {
			if v.w == 0 {
				return v.val != 0, true
			}
			return v.val, true
		}
		return nil, false
	case *SStr:
		return nil, false
	case structure:
		var c any
		for _, f := range v {
			fk, ok := keyOf(f)
			if !ok {
				return nil, false
			}
			c = pair{c, fk}
		}
		return pair{"s", c}, true
	case array:
		var c any
		for _, f := range v {
			fk, ok := keyOf(f)
			if !ok {
				return nil, false
			}
			c = pair{c, fk}
		}
		return pair{"a", c}, true
	case iface:
		if v.t == nil {
			return ikey{}, true
		}
		fk, ok := keyOf(v.v)
		if !ok {
			return nil, false
		}
		return ikey{typeID(v.t), fk}, true
	case slice, *MapV:
		if m, isM := v.(*MapV); isM && m == nil {
			return v, true
		}
		panic(targetPanic{rtErr("hash of unhashable type")})
	case *closure, *ssa.Function:
		panic(targetPanic{rtErr("hash of unhashable type func")})
	case rtype:
		return pair{"rtype", typeID(v.t)}, true
	}
	return v, true
}

var errString types.Type // *errors.errorString-like type used for runtime errors, set by the loader

func rtErr(msg string) iface {
	return iface{t: runtimeErrType, v: "runtime error: " + msg}
}

// runtimeErrType stands for runtime.Error values.
var runtimeErrType types.Type = func() types.Type {
	n := types.NewNamed(types.NewTypeName(0, types.NewPackage("runtime", "runtime"), "engineError", nil), types.Typ[types.String], nil)
	return n
}()

func (w *Worker) equals(t types.Type, x, y V) *Term {
	switch x := x.(type) {
	case bool:
		if yb, ok := y.(bool); ok {
			return w.c.Bool(x == yb)
		}
		return w.c.Eq(w.c.Bool(x), y.(*Term))
	case *Term:
		return w.c.Eq(x, w.toTerm(y, x.w))
	case uint64:
		if yi, ok := y.(uint64); ok {
			return w.c.Bool(x == yi)
		}
		yt := y.(*Term)
		return w.c.Eq(yt, w.c.BV(x, yt.w))
	case float64:
		return w.c.Bool(x == y.(float64))
	case string, *SStr:
		return w.strEq(x, y)
	case *V:
		switch y := y.(type) {
		case *V:
			return w.c.Bool(x == y)
		case dataPtr:
			return w.c.Bool(x == nil && y.s == nil && y.str == nil)
		}
		return w.c.False
	case structure:
		ys := y.(structure)
		r := w.c.True
		st, _ := t.Underlying().(*types.Struct)
		for i := range x {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			r = w.c.And(r, w.equals(ft, x[i], ys[i]))
			if r == w.c.False {
				return r
			}
		}
		return r
	case array:
		ya := y.(array)
		r := w.c.True
		at, _ := t.Underlying().(*types.Array)
		for i := range x {
			var et types.Type
			if at != nil {
				et = at.Elem()
			}
			r = w.c.And(r, w.equals(et, x[i], ya[i]))
			if r == w.c.False {
				return r
			}
		}
		return r
	case iface:
		yi, ok := y.(iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("iface compared with %T", y)))
		}
		if x.t == nil || yi.t == nil {
			return w.c.Bool(x.t == nil && yi.t == nil)
		}
		if typeID(x.t) != typeID(yi.t) {
			return w.c.False
		}
		if !types.Comparable(x.t) {
			panic(targetPanic{rtErr("comparing uncomparable type " + x.t.String())})
		}
		return w.equals(x.t, x.v, yi.v)
	case slice:
		ys, _ := y.(slice)
		return w.c.Bool(x.arr == nil && ys.arr == nil)
	case *MapV:
		ym, _ := y.(*MapV)
		return w.c.Bool(x == ym)
	case *ssa.Function:
		yf, ok := y.(*ssa.Function)
		return w.c.Bool(ok && x == yf)
	case *closure:
		yf, ok := y.(*closure)
		return w.c.Bool(ok && x == yf)
	case rtype:
		yr, ok := y.(rtype)
		return w.c.Bool(ok && typeID(x.t) == typeID(yr.t))
	case dataPtr:
		if yp, ok := y.(*V); ok && yp == nil {
			return w.c.Bool(x.s == nil && x.str == nil)
		}
	case complex128:
		return w.c.Bool(x == y.(complex128))
	}
	panic(unsupported(fmt.Sprintf("equality on %T and %T", x, y)))
}

// toTerm makes an integer or boolean value a term of width wd.
func (w *Worker) toTerm(v V, wd uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return w.c.BV(v, wd)
	case bool:
		return w.c.Bool(v)
	}
	panic(unsupported(fmt.Sprintf("toTerm of %T", v)))
}

// norm makes a constant term a plain value.
func norm(t *Term) V {
	if t.op == OConst {
		if t.w == 0 {
			return t.val != 0
		}
		return t.val
	}
	return t
}

func (w *Worker) strBytes(v V) []*Term {
	switch v := v.(type) {
	case string:
		r := make([]*Term, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = w.c.bytes[v[i]]
		}
		return r
	case *SStr:
		return v.b
	}
	panic(unsupported(fmt.Sprintf("string is %T", v)))
}

func mkStr(b []*Term) V {
	for _, t := range b {
		if t.op != OConst {
			return &SStr{b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.val)
	}
	return string(r)
}

func strLen(v V) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SStr:
		return len(v.b)
	}
	panic(unsupported(fmt.Sprintf("len of string %T", v)))
}

func (w *Worker) strEq(x, y V) *Term {
	xs, ok1 := x.(string)
	ys, ok2 := y.(string)
	if ok1 && ok2 {
		return w.c.Bool(xs == ys)
	}
	if x == y {
		return w.c.True
	}
	if strLen(x) != strLen(y) {
		return w.c.False
	}
	a, b := w.strBytes(x), w.strBytes(y)
	r := w.c.True
	for i := range a {
		r = w.c.And(r, w.c.Eq(a[i], b[i]))
		if r == w.c.False {
			return r
		}
	}
	return r
}

// strLess is x < y in byte order.
func (w *Worker) strLess(x, y V) *Term {
	a, b := w.strBytes(x), w.strBytes(y)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := w.c.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = w.c.Ite(w.c.Ult(a[i], b[i]), w.c.True, w.c.And(w.c.Eq(a[i], b[i]), r))
	}
	return r
}

func (w *Worker) strConcat(x, y V) V {
	xs, ok1 := x.(string)
	ys, ok2 := y.(string)
	if ok1 && ok2 {
		return xs + ys
	}
	a, b := w.strBytes(x), w.strBytes(y)
	r := make([]*Term, 0, len(a)+len(b))
	return mkStr(append(append(r, a...), b...))
}

func (w *Worker) strSlice(x V, lo, hi int) V {
	switch x := x.(type) {
	case string:
		return x[lo:hi]
	case *SStr:
		return mkStr(x.b[lo:hi:hi])
	}
	panic("strSlice")
}

// map operations

func newMap(t *types.Map, epoch uint64) *MapV {
	return &MapV{t: t, idx: map[any]int{}, epoch: epoch}
}

func (w *Worker) mapFind(m *MapV, k V) int {
	if m == nil {
		keyOf(k) // may panic
		return -1
	}
	if w.track != nil && w.held == 0 {
		w.track.read(m)
	}
	key, conc := keyOf(k)
	if conc {
		if i, ok := m.idx[key]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if !m.alive[i] {
			continue
		}
		if conc {
			if _, c := keyOf(m.keys[i]); c {
				continue
			}
		}
		if w.decide(w.equals(m.t.Key(), m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapSave(m *MapV) {
	if w.track != nil && w.held == 0 {
		w.track.wrote(m)
	}
	if m.epoch == w.epoch {
		return
	}
	c := &MapV{t: m.t, keys: append([]V(nil), m.keys...), vals: append([]V(nil), m.vals...), alive: append([]bool(nil), m.alive...), nsym: m.nsym, n: m.n, epoch: m.epoch, idx: map[any]int{}}
	for k, v := range m.idx {
		c.idx[k] = v
	}
	w.undo = append(w.undo, undoRec{m: m, mc: c})
	m.epoch = w.epoch
}

func (w *Worker) mapSet(m *MapV, k, v V) {
	if m == nil {
		panic(targetPanic{iface{runtimeErrType, "assignment to entry in nil map"}})
	}
	i := w.mapFind(m, k)
	w.mapSave(m)
	if i >= 0 {
		m.vals[i] = copyV(v)
		return
	}
	k = copyV(k)
	key, conc := keyOf(k)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, copyV(v))
	m.alive = append(m.alive, true)
	m.n++
	if conc {
		m.idx[key] = len(m.keys) - 1
	} else {
		m.nsym++
	}
}

func (w *Worker) mapDelete(m *MapV, k V) {
	if m == nil {
		return
	}
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	w.mapSave(m)
	m.alive[i] = false
	m.n--
	if key, conc := keyOf(m.keys[i]); conc {
		delete(m.idx, key)
	} else {
		m.nsym--
	}
}

func (w *Worker) mapClear(m *MapV) {
	if m == nil {
		return
	}
	w.mapSave(m)
	m.keys, m.vals, m.alive, m.n, m.nsym = nil, nil, nil, 0, 0
	m.idx = map[any]int{}
}

// set stores into a slot, remembering the old content.
func (w *Worker) set(p *V, v V) {
	switch nv := v.(type) {
	case structure:
		old, ok := (*p).(structure)
		if ok && len(old) == len(nv) {
			for i := range nv {
				w.set(&old[i], nv[i])
			}
			return
		}
		v = copyV(nv)
	case array:
		old, ok := (*p).(array)
		if ok && len(old) == len(nv) {
			for i := range nv {
				w.set(&old[i], nv[i])
			}
			return
		}
		v = copyV(nv)
	}
	if w.track != nil && w.held == 0 {
		w.track.wrote(p)
	}
	w.undo = append(w.undo, undoRec{p: p, old: *p})
	*p = v
}

// rollback undoes every store since mark.
func (w *Worker) rollback(mark int) {
	for i := len(w.undo) - 1; i >= mark; i-- {
		u := &w.undo[i]
		if u.m != nil {
			*u.m = *u.mc
		} else {
			*u.p = u.old
		}
		*u = undoRec{}
	}
	w.undo = w.undo[:mark]
}

// growslice: Go runtime size classes and growth policy (runtime/slice.go).
var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int) int {
	if n <= 32768-8 {
		for _, s := range sizeClasses {
			if n <= s {
				return s
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

var stdSizes = types.SizesFor("gc", "amd64")

func growCap(oldCap, newLen int, elem types.Type) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) / 4
		}
	}
	es := int(stdSizes.Sizeof(elem))
	if es == 0 {
		return newLen
	}
	sz := newcap * es
	// pointerful objects over 512 bytes carry a malloc header
	if sz > 512 && sz <= 32768-8 && hasPointers(elem) {
		return (roundup(sz+8) - 8) / es
	}
	return roundup(sz) / es
}

func hasPointers(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsString != 0 || t.Kind() == types.UnsafePointer
	case *types.Array:
		return t.Len() > 0 && hasPointers(t.Elem())
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasPointers(t.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (w *Worker) appendSlice(s slice, add []V, elem types.Type) slice {
	n := len(s.arr) + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cap(s.arr) {
		l := len(s.arr)
		r := s.arr[:n]
		for i, v := range add {
			w.setSlot(&r[l+i], v, elem)
		}
		return slice{r}
	}
	if w.track != nil && w.held == 0 {
		for i := range s.arr {
			w.track.readAll(&s.arr[i])
		}
	}
	nc := growCap(cap(s.arr), n, elem)
	r := make([]V, n, nc)
	for i := range s.arr {
		r[i] = copyV(s.arr[i])
	}
	for i, v := range add {
		r[len(s.arr)+i] = copyV(v)
	}
	full := r[:nc]
	if nc > n {
		z := zero(elem)
		for i := n; i < nc; i++ {
			full[i] = copyV(z)
		}
	}
	return slice{r}
}

func (w *Worker) setSlot(p *V, v V, _ types.Type) { w.set(p, v) }
