package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"runtime"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(fr *frame, fn *ssa.Function, args []V) V

type deferred struct {
	fn   V
	args []V
	inv  *ssa.CallCommon
}

type frame struct {
	w         *Worker
	caller    *frame
	fi        *fnInfo
	regs      []V
	defers    []deferred
	panicking bool
	panicV    any
	recovered bool
	result    V
	depth     int
	block     *ssa.BasicBlock
	cur       ssa.Instruction
}

func (fr *frame) get(o *opnd) V {
	switch o.k {
	case kReg:
		return fr.regs[o.ix]
	case kConst:
		if p, ok := o.v.(poison); ok {
			panic(unsupported(p.why))
		}
		return o.v
	}
	return fr.w.globals[o.ix]
}

func (w *Worker) call(caller *frame, fn V, args []V, _ *ssa.CallCommon) V {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			panic(targetPanic{rtErr("invalid memory address or nil pointer dereference")})
		}
		return w.callFn(caller, fn, args, nil)
	case *closure:
		return w.callFn(caller, fn.fn, args, fn.env)
	case *ssa.Builtin:
		panic("builtin call")
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

func (w *Worker) callFn(caller *frame, fn *ssa.Function, args, env []V) V {
	fi := w.infos[fn]
	if fi == nil {
		fi = w.p.info(fn)
		w.infos[fn] = fi
	}
	if fi.target {
		atomic.AddInt64(&fi.hits, 1)
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	fr := &frame{w: w, caller: caller, fi: fi, depth: depth}
	if fi.intr != nil {
		return fi.intr(fr, fn, args)
	}
	if fn.Blocks == nil {
		panic(unsupported("function without body: " + fi.name))
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && !w.wantInit(fn.Pkg.Pkg.Path()) {
		return nil
	}
	if depth > w.maxDepth {
		panic(pathEnd{"bound", "call depth " + fi.name})
	}
	fr.regs = make([]V, fi.nregs)
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		fr.run()
	}
	return fr.result
}

func (w *Worker) wantInit(path string) bool {
	return path == w.p.Target || path == w.p.Harness.Pkg.Path() || path == w.p.models.Pkg.Path() || strings.HasPrefix(path, "verif/") || pkgInit[path]
}

// run executes from fr.block until the function returns or panics.
func (fr *frame) run() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		if r == nil {
			return
		}
		switch e := r.(type) {
		case pathEnd:
			panic(r)
		case targetPanic:
			_ = e
		case runtime.Error:
			// a fault of the executor itself: report it as unsupported
			if strings.Contains(e.Error(), "stack overflow") {
				panic(r)
			}
			var buf [4096]byte
			n := runtime.Stack(buf[:], false)
			panic(unsupported(fmt.Sprintf("executor fault in %s at %v: %v\n%s", fr.fi.name, fr.cur, e, buf[:n])))
		default:
			panic(r)
		}
		fr.panicking = true
		fr.panicV = r
		fr.runDefers()
		fr.block = fr.fi.fn.Recover
		if fr.block == nil {
			// recovered without a recover block: results are zero values
			rs := fr.fi.fn.Signature.Results()
			switch rs.Len() {
			case 0:
				fr.result = nil
			case 1:
				fr.result = zero(rs.At(0).Type())
			default:
				fr.result = zero(rs)
			}
		}
	}()
	w := fr.w
	for {
		b := &fr.fi.blocks[fr.block.Index]
	body:
		for k := range b.code {
			in := &b.code[k]
			w.steps++
			if w.steps > w.maxSteps {
				panic(pathEnd{"bound", "step limit in " + fr.fi.name})
			}
			fr.cur = in.i
			switch i := in.i.(type) {
			case *ssa.Return:
				switch len(in.a) {
				case 0:
				case 1:
					fr.result = fr.get(&in.a[0])
				default:
					r := make(tuple, len(in.a))
					for j := range in.a {
						r[j] = fr.get(&in.a[j])
					}
					fr.result = r
				}
				fr.block = nil
				return
			case *ssa.Jump:
				fr.goTo(fr.block.Succs[0])
				break body
			case *ssa.If:
				s := 1
				if fr.w.decideV(fr.get(&in.a[0])) {
					s = 0
				}
				fr.goTo(fr.block.Succs[s])
				break body
			case *ssa.Panic:
				v := fr.get(&in.a[0]).(iface)
				panic(targetPanic{v})
			case *ssa.RunDefers:
				fr.runDefers()
			default:
				_ = i
				r := fr.exec(in)
				if in.dst >= 0 {
					fr.regs[in.dst] = r
				}
			}
		}
	}
}

func (fr *frame) goTo(b *ssa.BasicBlock) {
	bi := &fr.fi.blocks[b.Index]
	if len(bi.phis) > 0 {
		pi := -1
		for j, p := range b.Preds {
			if p == fr.block {
				pi = j
				break
			}
		}
		if len(bi.phis) == 1 {
			fr.regs[bi.phis[0].dst] = fr.get(&bi.phis[0].a[pi])
		} else {
			tmp := make([]V, len(bi.phis))
			for j := range bi.phis {
				tmp[j] = fr.get(&bi.phis[j].a[pi])
			}
			for j := range bi.phis {
				fr.regs[bi.phis[j].dst] = tmp[j]
			}
		}
	}
	fr.block = b
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				if tp, is := r.(targetPanic); is {
					fr.panicking = true
					fr.panicV = tp
					return
				}
				panic(r)
			}()
			if b, isB := d.fn.(*ssa.Builtin); isB {
				fr.builtin(b, d.args, d.inv)
			} else {
				fr.w.call(fr, d.fn, d.args, d.inv)
			}
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func nilDeref() targetPanic {
	return targetPanic{rtErr("invalid memory address or nil pointer dereference")}
}

func (fr *frame) ptr(v V) *V {
	p, ok := v.(*V)
	if !ok {
		panic(unsupported(fmt.Sprintf("pointer is %T in %s", v, fr.fi.name)))
	}
	if p == nil {
		panic(nilDeref())
	}
	return p
}

func (fr *frame) exec(in *ins) V {
	w := fr.w
	switch i := in.i.(type) {
	case *ssa.Alloc:
		p := new(V)
		*p = zero(i.Type().Underlying().(*types.Pointer).Elem())
		return p
	case *ssa.BinOp:
		return w.binop(i.Op, i.X.Type(), i.Y.Type(), fr.get(&in.a[0]), fr.get(&in.a[1]))
	case *ssa.UnOp:
		x := fr.get(&in.a[0])
		switch i.Op {
		case token.MUL:
			if dp, ok := x.(dataPtr); ok {
				return dp.s[0]
			}
			pv := fr.ptr(x)
			if w.track != nil && w.held == 0 {
				w.track.readAll(pv)
			}
			v := *pv
			if po, bad := v.(poison); bad {
				panic(unsupported(po.why + " in " + fr.fi.name))
			}
			return copyV(v)
		case token.NOT:
			switch x := x.(type) {
			case bool:
				return !x
			case *Term:
				return norm(w.c.Not(x))
			}
		case token.SUB:
			switch x := x.(type) {
			case uint64:
				wd, _, _ := intInfo(i.X.Type())
				return -x & mask(wd)
			case float64:
				return -x
			case *Term:
				return norm(w.c.Un(ONeg, x))
			}
		case token.XOR:
			switch x := x.(type) {
			case uint64:
				wd, _, _ := intInfo(i.X.Type())
				return ^x & mask(wd)
			case *Term:
				return norm(w.c.Un(OBnot, x))
			}
		}
		panic(unsupported("unop " + i.String()))
	case *ssa.Store:
		p := fr.get(&in.a[0])
		if dp, ok := p.(dataPtr); ok {
			w.set(&dp.s[0], fr.get(&in.a[1]))
			return nil
		}
		w.set(fr.ptr(p), fr.get(&in.a[1]))
		return nil
	case *ssa.Call:
		return fr.doCall(&i.Call, in.a)
	case *ssa.FieldAddr:
		p := fr.ptr(fr.get(&in.a[0]))
		s, ok := (*p).(structure)
		if !ok {
			if po, bad := (*p).(poison); bad {
				panic(unsupported(po.why + " in " + fr.fi.name))
			}
			panic(unsupported(fmt.Sprintf("field of %T", *p)))
		}
		return &s[i.Field]
	case *ssa.Field:
		s, ok := fr.get(&in.a[0]).(structure)
		if !ok {
			panic(unsupported("field of opaque struct " + i.String()))
		}
		return s[i.Field]
	case *ssa.IndexAddr:
		x := fr.get(&in.a[0])
		iv := fr.get(&in.a[1])
		switch x := x.(type) {
		case slice:
			if t, sym := iv.(*Term); sym {
				if p, ok := fr.symAddr(i, t, x.arr, i.X.Type().Underlying().(*types.Slice).Elem()); ok {
					return p
				}
			}
			k := w.index(iv, i.Index.Type(), len(x.arr))
			return &x.arr[k]
		case *V:
			a, ok := (*fr.ptr(x)).(array)
			if !ok {
				panic(unsupported("IndexAddr of opaque array"))
			}
			if t, sym := iv.(*Term); sym {
				if p, ok := fr.symAddr(i, t, a, i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()); ok {
					return p
				}
			}
			k := w.index(iv, i.Index.Type(), len(a))
			return &a[k]
		}
		panic(unsupported(fmt.Sprintf("IndexAddr %T", x)))
	case *ssa.Index:
		x := fr.get(&in.a[0])
		iv := fr.get(&in.a[1])
		switch x := x.(type) {
		case array:
			if t, sym := iv.(*Term); sym {
				if mask(t.w) < uint64(len(x)) || w.decide(w.c.Ult(t, w.c.BV(uint64(len(x)), t.w))) {
					if r, ok := w.symIndex(t, x, i.X.Type().Underlying().(*types.Array).Elem()); ok {
						return r
					}
				}
			}
			return copyV(x[w.index(iv, i.Index.Type(), len(x))])
		case string:
			return w.strIndex(x, iv, i.Index.Type())
		case *SStr:
			return norm(x.b[w.index(iv, i.Index.Type(), len(x.b))])
		}
		panic(unsupported(fmt.Sprintf("Index %T", x)))
	case *ssa.MakeInterface:
		return iface{i.X.Type(), fr.get(&in.a[0])}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		return fr.get(&in.a[0])
	case *ssa.Convert:
		return w.convert(fr, i.X.Type(), i.Type(), fr.get(&in.a[0]))
	case *ssa.MultiConvert:
		return w.convert(fr, i.X.Type(), i.Type(), fr.get(&in.a[0]))
	case *ssa.Extract:
		return fr.get(&in.a[0]).(tuple)[i.Index]
	case *ssa.TypeAssert:
		return fr.typeAssert(i, fr.get(&in.a[0]).(iface))
	case *ssa.MakeClosure:
		c := &closure{fn: i.Fn.(*ssa.Function)}
		for j := 1; j < len(in.a); j++ {
			c.env = append(c.env, fr.get(&in.a[j]))
		}
		return c
	case *ssa.MakeMap:
		return newMap(i.Type().Underlying().(*types.Map), w.epoch)
	case *ssa.MapUpdate:
		m := fr.get(&in.a[0]).(*MapV)
		w.mapSet(m, fr.get(&in.a[1]), fr.get(&in.a[2]))
		return nil
	case *ssa.Lookup:
		x := fr.get(&in.a[0])
		switch x := x.(type) {
		case *MapV:
			k := fr.get(&in.a[1])
			var v V
			j := w.mapFind(x, k)
			if j >= 0 {
				v = copyV(x.vals[j])
			} else {
				v = zero(i.X.Type().Underlying().(*types.Map).Elem())
			}
			if i.CommaOk {
				return tuple{v, j >= 0}
			}
			return v
		case string:
			return w.strIndex(x, fr.get(&in.a[1]), i.Index.Type())
		case *SStr:
			return norm(x.b[w.index(fr.get(&in.a[1]), i.Index.Type(), len(x.b))])
		}
		panic(unsupported(fmt.Sprintf("Lookup %T", x)))
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		n := w.concInt(fr.get(&in.a[0]), i.Len.Type())
		c := w.concInt(fr.get(&in.a[1]), i.Cap.Type())
		if n < 0 || n > 1<<24 {
			panic(targetPanic{rtErr("makeslice: len out of range")})
		}
		if c < n || c > 1<<24 {
			panic(targetPanic{rtErr("makeslice: cap out of range")})
		}
		arr := make([]V, c)
		z := zero(et)
		for j := range arr {
			arr[j] = copyV(z)
		}
		return slice{arr[:n:c]}
	case *ssa.Slice:
		return fr.slice(in, i)
	case *ssa.Range:
		return fr.rangeIter(i, fr.get(&in.a[0]))
	case *ssa.Next:
		return fr.get(&in.a[0]).(iter).next(fr, i)
	case *ssa.Defer:
		if i.DeferStack != nil {
			panic(unsupported("range-over-func defer"))
		}
		fn, args := fr.prepare(&i.Call, in.a)
		fr.defers = append(fr.defers, deferred{fn, args, &i.Call})
		return nil
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	}
	panic(unsupported(fmt.Sprintf("instruction %T in %s", in.i, fr.fi.name)))
}

// symIndex reads a table of integers or booleans at a symbolic index as one term.
func (w *Worker) symIndex(t *Term, a []V, elem types.Type) (V, bool) {
	c := w.c
	var ew uint8
	if b, ok := elem.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		ew = 0
	} else if wd, _, ok := intInfo(elem); ok {
		ew = wd
	} else {
		return nil, false
	}
	if len(a) == 0 || len(a) > 256 {
		return nil, false
	}
	vals := make([]*Term, len(a))
	for i, v := range a {
		vals[i] = w.toTerm(v, ew)
	}
	// runs of equal value, or of value = index + constant
	r := vals[len(vals)-1]
	i := len(vals) - 1
	first := true
	for i >= 0 {
		j := i
		for j > 0 && vals[j-1] == vals[i] {
			j--
		}
		k := i
		if ew == t.w && vals[i].op == OConst {
			off := (vals[i].val - uint64(i)) & mask(ew)
			for k > 0 && vals[k-1].op == OConst && (vals[k-1].val-uint64(k-1))&mask(ew) == off {
				k--
			}
		}
		val := vals[i]
		lo := j
		if k < j {
			lo = k
			val = c.Bin(OAdd, t, c.BV(vals[i].val-uint64(i), ew))
		}
		if first {
			r = val
			first = false
		} else {
			r = c.Ite(c.InRange(t, uint64(lo), uint64(i)), val, r)
		}
		i = lo - 1
	}
	return norm(r), true
}

// symGroup chooses an element of a table at a symbolic index, forking over the
// groups of elements with the same content instead of over the indices.
func (w *Worker) symGroup(t *Term, a []V) (int, bool) {
	if len(a) > 256 {
		return 0, false
	}
	groups := map[any][]int{}
	var order []any
	for i, v := range a {
		var k any
		switch v := v.(type) {
		case slice:
			if v.arr != nil {
				k = pair{"s", i}
			}
		case string, bool, uint64:
			k = v
		default:
			return 0, false
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], i)
	}
	for n, k := range order {
		g := groups[k]
		if n == len(order)-1 {
			return g[0], true
		}
		cond := w.c.False
		for i := 0; i < len(g); {
			j := i
			for j+1 < len(g) && g[j+1] == g[j]+1 {
				j++
			}
			cond = w.c.Or(cond, w.c.InRange(t, uint64(g[i]), uint64(g[j])))
			i = j + 1
		}
		if w.decide(cond) {
			return g[0], true
		}
	}
	return 0, false
}

// onlyLoads: the address is used for reading only.
func onlyLoads(i *ssa.IndexAddr) bool {
	for _, r := range *i.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (fr *frame) symAddr(i *ssa.IndexAddr, t *Term, a []V, elem types.Type) (*V, bool) {
	if len(a) < 2 || !onlyLoads(i) {
		return nil, false
	}
	w := fr.w
	if mask(t.w) >= uint64(len(a)) && !w.decide(w.c.Ult(t, w.c.BV(uint64(len(a)), t.w))) {
		panic(targetPanic{rtErr("index out of range")})
	}
	if v, ok := w.symIndex(t, a, elem); ok {
		p := new(V)
		*p = v
		return p, true
	}
	if len(a) > 16 {
		if k, ok := w.symGroup(t, a); ok {
			return &a[k], true
		}
	}
	return nil, false
}

// index makes an index concrete and checks it.
func (w *Worker) index(iv V, t types.Type, n int) int {
	switch x := iv.(type) {
	case uint64:
		wd, signed, _ := intInfo(t)
		if signed {
			s := sext(x, wd)
			if s < 0 || s >= int64(n) {
				panic(targetPanic{rtErr(fmt.Sprintf("index out of range [%d] with length %d", s, n))})
			}
			return int(s)
		}
		if x >= uint64(n) {
			panic(targetPanic{rtErr(fmt.Sprintf("index out of range [%d] with length %d", x, n))})
		}
		return int(x)
	case *Term:
		in := w.c.Ult(x, w.c.BV(uint64(n), x.w))
		if mask(x.w) < uint64(n) {
			in = w.c.True
		}
		if !w.decide(in) {
			panic(targetPanic{rtErr("index out of range")})
		}
		return int(w.concretize(x))
	}
	panic(unsupported(fmt.Sprintf("index is %T", iv)))
}

// concInt makes an integer concrete (forking over its values).
func (w *Worker) concInt(v V, t types.Type) int {
	switch x := v.(type) {
	case uint64:
		wd, signed, _ := intInfo(t)
		if signed {
			return int(sext(x, wd))
		}
		return int(x)
	case *Term:
		wd, signed, _ := intInfo(t)
		u := w.concretize(x)
		if signed {
			return int(sext(u, wd))
		}
		return int(u)
	case nil:
		return 0
	}
	panic(unsupported(fmt.Sprintf("int is %T", v)))
}

func (fr *frame) slice(in *ins, i *ssa.Slice) V {
	w := fr.w
	x := fr.get(&in.a[0])
	idx := func(j int, v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		return w.concInt(fr.get(&in.a[j]), v.Type())
	}
	oob := func() { panic(targetPanic{rtErr("slice bounds out of range")}) }
	switch x := x.(type) {
	case string, *SStr:
		n := strLen(x)
		lo := idx(1, i.Low, 0)
		hi := idx(2, i.High, n)
		if lo < 0 || hi < lo || hi > n {
			oob()
		}
		return w.strSlice(x, lo, hi)
	case slice:
		lo := idx(1, i.Low, 0)
		hi := idx(2, i.High, len(x.arr))
		mx := idx(3, i.Max, cap(x.arr))
		if lo < 0 || hi < lo || mx < hi || mx > cap(x.arr) {
			oob()
		}
		if x.arr == nil {
			return slice{}
		}
		return slice{x.arr[lo:hi:mx]}
	case *V:
		a, ok := (*fr.ptr(x)).(array)
		if !ok {
			panic(unsupported("slice of opaque array"))
		}
		lo := idx(1, i.Low, 0)
		hi := idx(2, i.High, len(a))
		mx := idx(3, i.Max, len(a))
		if lo < 0 || hi < lo || mx < hi || mx > len(a) {
			oob()
		}
		s := []V(a)[lo:hi:mx]
		if s == nil {
			s = []V{}
		}
		return slice{s}
	}
	panic(unsupported(fmt.Sprintf("slice of %T", x)))
}

type iter interface {
	next(fr *frame, i *ssa.Next) V
}

type strIter struct {
	s   V
	pos int
}

func (it *strIter) next(fr *frame, i *ssa.Next) V {
	if it.pos >= strLen(it.s) {
		return tuple{false, uint64(0), uint64(0)}
	}
	r, n := fr.w.decodeRune(it.s, it.pos)
	k := it.pos
	it.pos += n
	return tuple{true, uint64(k), r}
}

type mapIter struct {
	m     *MapV
	order []int
	pos   int
}

func (it *mapIter) next(fr *frame, i *ssa.Next) V {
	for it.pos < len(it.order) {
		j := it.order[it.pos]
		it.pos++
		if j < len(it.m.alive) && it.m.alive[j] {
			return tuple{true, copyV(it.m.keys[j]), copyV(it.m.vals[j])}
		}
	}
	var kz, vz V
	if it.m != nil {
		kz, vz = zero(it.m.t.Key()), zero(it.m.t.Elem())
	}
	return tuple{false, kz, vz}
}

func (fr *frame) rangeIter(i *ssa.Range, x V) V {
	switch x := x.(type) {
	case string, *SStr:
		return iter(&strIter{s: x})
	case *MapV:
		if x == nil {
			return iter(&mapIter{m: nil})
		}
		if w := fr.w; w.track != nil && w.held == 0 {
			w.track.read(x)
		}
		var live []int
		for j := range x.alive {
			if x.alive[j] {
				live = append(live, j)
			}
		}
		// The order of a map iteration is not specified: explore the
		// permutations of small maps, and both directions of larger ones. From
		// the third iteration of a path on, one direction is chosen for all.
		n := len(live)
		if n >= 2 {
			fr.w.mapOrder = true
			fr.w.nRanges++
			if fr.w.nRanges > 2 {
				if fr.w.nRanges == 3 {
					fr.w.backwards = fr.w.fork(2) == 1
				}
				if fr.w.backwards {
					for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
						live[a], live[b] = live[b], live[a]
					}
				}
			} else if n <= 3 {
				perms := permutations(n)
				p := perms[fr.w.fork(len(perms))]
				o := make([]int, n)
				for a, b := range p {
					o[a] = live[b]
				}
				live = o
			} else if fr.w.fork(2) == 1 {
				for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
					live[a], live[b] = live[b], live[a]
				}
			}
		}
		return iter(&mapIter{m: x, order: live})
	}
	panic(unsupported(fmt.Sprintf("range over %T", x)))
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range permutations(n - 1) {
		for i := n - 1; i >= 0; i-- {
			q := append([]int(nil), p[:i]...)
			q = append(q, n-1)
			q = append(q, p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

func (fr *frame) prepare(c *ssa.CallCommon, a []opnd) (V, []V) {
	w := fr.w
	if c.IsInvoke() {
		recv, ok := fr.get(&a[0]).(iface)
		if !ok {
			panic(unsupported("invoke on opaque"))
		}
		if recv.t == nil {
			panic(nilDeref())
		}
		args := make([]V, 0, len(a))
		if nv, isNative := nativeMethod(recv, c.Method.Name()); isNative {
			for j := 1; j < len(a); j++ {
				args = append(args, fr.get(&a[j]))
			}
			return nativeFn{nv, recv}, args
		}
		fn := w.method(recv.t, c.Method)
		if fn == nil {
			panic(unsupported("no method " + c.Method.Name() + " on " + recv.t.String()))
		}
		args = append(args, recv.v)
		for j := 1; j < len(a); j++ {
			args = append(args, fr.get(&a[j]))
		}
		return fn, args
	}
	fn := fr.get(&a[0])
	args := make([]V, len(a)-1)
	for j := 1; j < len(a); j++ {
		args[j-1] = fr.get(&a[j])
	}
	return fn, args
}

// nativeFn is a method of an engine-implemented type (reflect.Type).
type nativeFn struct {
	f    func(fr *frame, recv iface, args []V) V
	recv iface
}

func (fr *frame) doCall(c *ssa.CallCommon, a []opnd) V {
	fn, args := fr.prepare(c, a)
	switch f := fn.(type) {
	case *ssa.Builtin:
		return fr.builtin(f, args, c)
	case nativeFn:
		return f.f(fr, f.recv, args)
	}
	return fr.w.call(fr, fn, args, c)
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.p.SSA.LookupMethod(t, m.Pkg(), m.Name())
	w.methods[k] = f
	return f
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := w.impls[k]; ok {
		return r
	}
	m, _ := types.MissingMethod(t, it, true)
	r := m == nil
	if t == runtimeErrType && it.NumMethods() == 1 && it.Method(0).Name() == "Error" {
		r = true
	}
	if _, isN := t.(*types.Named); isN && t == rtypePtr {
		r = true
	}
	w.impls[k] = r
	return r
}

func (fr *frame) typeAssert(i *ssa.TypeAssert, x iface) V {
	ok := false
	var v V
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && fr.w.implements(x.t, it) {
			ok = true
			v = x
		}
	} else if x.t != nil && typeID(x.t) == typeID(i.AssertedType) {
		ok = true
		v = copyV(x.v)
	}
	if !ok {
		if !i.CommaOk {
			d := "nil"
			if x.t != nil {
				d = x.t.String()
			}
			panic(targetPanic{iface{runtimeErrType, "interface conversion: interface is " + d + ", not " + i.AssertedType.String()}})
		}
		return tuple{zero(i.AssertedType), false}
	}
	if i.CommaOk {
		return tuple{v, true}
	}
	return v
}

func (fr *frame) builtin(b *ssa.Builtin, args []V, c *ssa.CallCommon) V {
	w := fr.w
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SStr:
			return uint64(strLen(x))
		case slice:
			return uint64(len(x.arr))
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case array:
			return uint64(len(x))
		case *V:
			if x != nil {
				if a, ok := (*x).(array); ok {
					return uint64(len(a))
				}
			}
			if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				return uint64(pt.Elem().Underlying().(*types.Array).Len())
			}
			return uint64(0)
		}
	case "cap":
		switch x := args[0].(type) {
		case slice:
			return uint64(cap(x.arr))
		case array:
			return uint64(len(x))
		case *V:
			if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				return uint64(pt.Elem().Underlying().(*types.Array).Len())
			}
			return uint64(0)
		}
	case "append":
		s := args[0].(slice)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case slice:
			return w.appendSlice(s, y.arr, et)
		case string, *SStr:
			bs := w.strBytes(y)
			add := make([]V, len(bs))
			for j := range bs {
				add[j] = norm(bs[j])
			}
			return w.appendSlice(s, add, et)
		}
	case "copy":
		d := args[0].(slice)
		var src []V
		switch y := args[1].(type) {
		case slice:
			src = y.arr
		case string, *SStr:
			for _, t := range w.strBytes(y) {
				src = append(src, norm(t))
			}
		}
		n := len(d.arr)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]V, n)
		for j := 0; j < n; j++ {
			if w.track != nil && w.held == 0 {
				w.track.readAll(&src[j])
			}
			tmp[j] = copyV(src[j])
		}
		for j := 0; j < n; j++ {
			w.set(&d.arr[j], tmp[j])
		}
		return uint64(n)
	case "delete":
		w.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			w.mapClear(x)
		case slice:
			if len(x.arr) > 0 {
				z := zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
				for j := range x.arr {
					w.set(&x.arr[j], z)
				}
			}
		}
		return nil
	case "panic":
		panic(targetPanic{args[0].(iface)})
	case "recover":
		// the deferred function's caller is the panicking frame
		p := fr.caller
		if p != nil && p.panicking {
			p.panicking = false
			p.recovered = true
			tp := p.panicV.(targetPanic)
			return tp.v
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		t := c.Args[0].Type()
		r := args[0]
		for _, y := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if w.decideV(w.binop(op, t, t, y, r)) {
				r = y
			}
		}
		return r
	case "SliceData":
		s := args[0].(slice)
		if s.arr == nil {
			return (*V)(nil)
		}
		return dataPtr{s: s.arr[:cap(s.arr)]}
	case "StringData":
		return dataPtr{str: args[0]}
	case "String":
		n := w.concInt(args[1], types.Typ[types.Int])
		if n == 0 {
			return ""
		}
		dp, ok := args[0].(dataPtr)
		if !ok {
			panic(unsupported("unsafe.String"))
		}
		if dp.str != nil {
			return w.strSlice(dp.str, 0, n)
		}
		return w.bytesToStr(dp.s[:n])
	case "Slice":
		n := w.concInt(args[1], types.Typ[types.Int])
		dp, ok := args[0].(dataPtr)
		if !ok {
			if p, isP := args[0].(*V); isP && p == nil && n == 0 {
				return slice{}
			}
			panic(unsupported("unsafe.Slice"))
		}
		if dp.str != nil {
			var r []V
			for _, t := range w.strBytes(dp.str)[:n] {
				r = append(r, norm(t))
			}
			return slice{r}
		}
		return slice{dp.s[:n:n]}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*V); ok && p == nil {
			panic(nilDeref())
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	}
	panic(unsupported("builtin " + b.Name()))
}

func (w *Worker) bytesToStr(b []V) V {
	r := make([]*Term, len(b))
	for i, v := range b {
		r[i] = w.toTerm(v, 8)
	}
	return mkStr(r)
}

func (w *Worker) binop(op token.Token, t, ty types.Type, x, y V) V {
	switch op {
	case token.EQL:
		return norm(w.equals(t, x, y))
	case token.NEQ:
		return norm(w.c.Not(w.equals(t, x, y)))
	}
	switch xv := x.(type) {
	case uint64:
		if yv, ok := y.(uint64); ok {
			return w.intOp(op, t, ty, xv, yv)
		}
		return w.symOp(op, t, ty, x, y)
	case *Term:
		return w.symOp(op, t, ty, x, y)
	case string, *SStr:
		switch op {
		case token.ADD:
			return w.strConcat(x, y)
		case token.LSS:
			return norm(w.strLess(x, y))
		case token.GTR:
			return norm(w.strLess(y, x))
		case token.LEQ:
			return norm(w.c.Not(w.strLess(y, x)))
		case token.GEQ:
			return norm(w.c.Not(w.strLess(x, y)))
		}
	case float64:
		yv, ok := y.(float64)
		if !ok {
			break
		}
		b, _ := t.Underlying().(*types.Basic)
		rnd := func(f float64) V {
			if b != nil && b.Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return rnd(xv + yv)
		case token.SUB:
			return rnd(xv - yv)
		case token.MUL:
			return rnd(xv * yv)
		case token.QUO:
			return rnd(xv / yv)
		case token.LSS:
			return xv < yv
		case token.LEQ:
			return xv <= yv
		case token.GTR:
			return xv > yv
		case token.GEQ:
			return xv >= yv
		}
	case bool:
		yv, ok := y.(bool)
		if ok {
			switch op {
			case token.AND, token.LAND:
				return xv && yv
			case token.OR, token.LOR:
				return xv || yv
			}
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T, %T", op, x, y)))
}

func (w *Worker) intOp(op token.Token, t, ty types.Type, x, y uint64) V {
	wd, signed, ok := intInfo(t)
	if !ok {
		panic(unsupported("integer op on " + t.String()))
	}
	m := mask(wd)
	switch op {
	case token.ADD:
		return (x + y) & m
	case token.SUB:
		return (x - y) & m
	case token.MUL:
		return (x * y) & m
	case token.QUO, token.REM:
		if y == 0 {
			panic(targetPanic{rtErr("integer divide by zero")})
		}
		if signed {
			a, b := sext(x, wd), sext(y, wd)
			if b == -1 {
				if op == token.QUO {
					return uint64(-a) & m
				}
				return uint64(0)
			}
			if op == token.QUO {
				return uint64(a/b) & m
			}
			return uint64(a%b) & m
		}
		if op == token.QUO {
			return x / y
		}
		return x % y
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return x ^ y
	case token.AND_NOT:
		return x &^ y
	case token.SHL, token.SHR:
		yw, ys, _ := intInfo(ty)
		if ys && sext(y, yw) < 0 {
			panic(targetPanic{rtErr("negative shift amount")})
		}
		if op == token.SHL {
			if y >= uint64(wd) {
				return uint64(0)
			}
			return x << y & m
		}
		if signed {
			if y > 63 {
				y = 63
			}
			return uint64(sext(x, wd)>>y) & m
		}
		if y >= uint64(wd) {
			return uint64(0)
		}
		return x >> y
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if signed {
			a, b := sext(x, wd), sext(y, wd)
			switch op {
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			}
			return a >= b
		}
		switch op {
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		}
		return x >= y
	}
	panic(unsupported("int op " + op.String()))
}

func (w *Worker) symOp(op token.Token, t, ty types.Type, xv, yv V) V {
	c := w.c
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		x, y := w.toTerm(xv, 0), w.toTerm(yv, 0)
		switch op {
		case token.AND, token.LAND:
			return norm(c.And(x, y))
		case token.OR, token.LOR:
			return norm(c.Or(x, y))
		}
		panic(unsupported("bool op"))
	}
	wd, signed, ok := intInfo(t)
	if !ok {
		panic(unsupported("symbolic op on " + t.String()))
	}
	if op == token.SHL || op == token.SHR {
		yw, ys, _ := intInfo(ty)
		y := w.toTerm(yv, yw)
		if ys && w.decide(c.Slt(y, c.BV(0, yw))) {
			panic(targetPanic{rtErr("negative shift amount")})
		}
		x := w.toTerm(xv, wd)
		var amt *Term
		if yw <= wd {
			amt = c.Zext(y, wd)
		} else {
			big := c.Ule(c.BV(uint64(wd), yw), y)
			amt = c.Ite(big, c.BV(uint64(wd), wd), c.Extract(y, 0, wd))
		}
		switch {
		case op == token.SHL:
			return norm(c.Bin(OShl, x, amt))
		case signed:
			return norm(c.Bin(OAshr, x, amt))
		}
		return norm(c.Bin(OLshr, x, amt))
	}
	x, y := w.toTerm(xv, wd), w.toTerm(yv, wd)
	var r *Term
	switch op {
	case token.ADD:
		r = c.Bin(OAdd, x, y)
	case token.SUB:
		r = c.Bin(OSub, x, y)
	case token.MUL:
		r = c.Bin(OMul, x, y)
	case token.QUO, token.REM:
		if w.decide(c.Eq(y, c.BV(0, wd))) {
			panic(targetPanic{rtErr("integer divide by zero")})
		}
		switch {
		case signed && op == token.QUO:
			r = c.Bin(OSdiv, x, y)
		case signed:
			r = c.Bin(OSrem, x, y)
		case op == token.QUO:
			r = c.Bin(OUdiv, x, y)
		default:
			r = c.Bin(OUrem, x, y)
		}
	case token.AND:
		r = c.Bin(OBand, x, y)
	case token.OR:
		r = c.Bin(OBor, x, y)
	case token.XOR:
		r = c.Bin(OBxor, x, y)
	case token.AND_NOT:
		r = c.Bin(OBand, x, c.Un(OBnot, y))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.LEQ {
			x, y = y, x
		}
		if signed {
			r = c.Slt(x, y)
		} else {
			r = c.Ult(x, y)
		}
		if op == token.LEQ || op == token.GEQ {
			r = c.Not(r)
		}
	default:
		panic(unsupported("symbolic op " + op.String()))
	}
	return norm(r)
}

func (w *Worker) convert(fr *frame, from, to types.Type, x V) V {
	uf, ut := from.Underlying(), to.Underlying()
	if _, isP := ut.(*types.Pointer); isP {
		return x
	}
	if b, isB := ut.(*types.Basic); isB && b.Kind() == types.UnsafePointer {
		return x
	}
	if b, isB := uf.(*types.Basic); isB && b.Kind() == types.UnsafePointer {
		if p, ok := x.(*V); ok {
			return w.addr(p)
		}
		panic(unsupported("unsafe pointer conversion"))
	}
	if s, isS := ut.(*types.Slice); isS {
		if isString(from) {
			eb := s.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				bs := w.strBytes(x)
				c := len(bs)
				if c > 32 {
					c = roundup(c)
				} else {
					c = roundup(c)
				}
				if len(bs) == 0 {
					return slice{make([]V, 0)}
				}
				r := make([]V, len(bs), c)
				for j := range bs {
					r[j] = norm(bs[j])
				}
				for j := len(bs); j < c; j++ {
					r[:c][j] = uint64(0)
				}
				return slice{r}
			}
			var r []V
			for p := 0; p < strLen(x); {
				v, n := w.decodeRune(x, p)
				r = append(r, v)
				p += n
			}
			if r == nil {
				r = []V{}
			}
			return slice{r[:len(r):len(r)]}
		}
		return x
	}
	if isString(to) {
		switch {
		case isString(from):
			return x
		case isIntT(from):
			// rune to string
			wd, signed, _ := intInfo(from)
			t := w.toTerm(x, wd)
			if t.op == OConst {
				v := t.val
				if signed {
					s := sext(v, wd)
					if s < 0 || s > 0x10ffff {
						s = 0xfffd
					}
					return string(rune(s))
				}
				if v > 0x10ffff {
					v = 0xfffd
				}
				return string(rune(v))
			}
			if wd > 32 {
				if !w.decide(w.c.Ule(t, w.c.BV(0x10ffff, wd))) {
					return "\uFFFD"
				}
				t = w.c.Extract(t, 0, 32)
			} else if wd < 32 {
				if signed {
					t = w.c.Sext(t, 32)
				} else {
					t = w.c.Zext(t, 32)
				}
			}
			return mkStr(w.encodeRune(t))
		default:
			s, ok := x.(slice)
			if !ok {
				break
			}
			et := uf.(*types.Slice).Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				return w.bytesToStr(s.arr)
			}
			var r []*Term
			for _, v := range s.arr {
				t := w.toTerm(v, 32)
				r = append(r, w.encodeRune(t)...)
			}
			return mkStr(r)
		}
	}
	if fw, fs, ok := intInfo(from); ok {
		if tw, ts, ok2 := intInfo(to); ok2 {
			_ = ts
			switch v := x.(type) {
			case uint64:
				if fs {
					return uint64(sext(v, fw)) & mask(tw)
				}
				return v & mask(tw)
			case *Term:
				if tw <= fw {
					return norm(w.c.Extract(v, 0, tw))
				}
				if fs {
					return norm(w.c.Sext(v, tw))
				}
				return norm(w.c.Zext(v, tw))
			}
		}
		if isFloat(to) {
			var u uint64
			switch v := x.(type) {
			case uint64:
				u = v
			case *Term:
				u = w.concretizeSome(v)
			}
			var f float64
			if fs {
				f = float64(sext(u, fw))
			} else {
				f = float64(u)
			}
			if ut.(*types.Basic).Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
	}
	if isFloat(from) {
		f, _ := x.(float64)
		if tw, ts, ok := intInfo(to); ok {
			if ts {
				return uint64(int64(f)) & mask(tw)
			}
			return uint64(f) & mask(tw)
		}
		if isFloat(to) {
			if ut.(*types.Basic).Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		}
	}
	if types.Identical(uf, ut) {
		return x
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

func isIntT(t types.Type) bool { _, _, ok := intInfo(t); return ok }

// decodeRune decodes the rune at byte position p, forking on its length.
func (w *Worker) decodeRune(s V, p int) (V, int) {
	if cs, ok := s.(string); ok {
		for i, r := range cs[p:] {
			if i == 0 {
				n := 1
				if r >= 0x80 {
					n = len(string(r))
					if r == 0xfffd && !strings.HasPrefix(cs[p:], "\uFFFD") {
						n = 1
					}
				}
				return uint64(uint32(r)), n
			}
		}
	}
	c := w.c
	b := s.(*SStr).b[p:]
	b0 := b[0]
	if w.decide(c.Ult(b0, c.BV(0x80, 8))) {
		return norm(c.Zext(b0, 32)), 1
	}
	bad := uint64(0xfffd)
	if len(b) < 2 || !w.decide(c.InRange(b0, 0xc2, 0xf4)) {
		return bad, 1
	}
	// second byte: the range depends on the first
	lo := c.Ite(c.Eq(b0, c.BV(0xe0, 8)), c.BV(0xa0, 8), c.Ite(c.Eq(b0, c.BV(0xf0, 8)), c.BV(0x90, 8), c.BV(0x80, 8)))
	hi := c.Ite(c.Eq(b0, c.BV(0xed, 8)), c.BV(0x9f, 8), c.Ite(c.Eq(b0, c.BV(0xf4, 8)), c.BV(0x8f, 8), c.BV(0xbf, 8)))
	cont := func(x *Term) *Term { return c.InRange(x, 0x80, 0xbf) }
	lo6 := func(x *Term) *Term { return c.Extract(x, 0, 6) }
	if w.decide(c.Ult(b0, c.BV(0xe0, 8))) {
		if !w.decide(cont(b[1])) {
			return bad, 1
		}
		return norm(c.Zext(c.Concat(c.Extract(b0, 0, 5), lo6(b[1])), 32)), 2
	}
	if !w.decide(c.And(c.Ule(lo, b[1]), c.Ule(b[1], hi))) {
		return bad, 1
	}
	if len(b) < 3 || !w.decide(cont(b[2])) {
		return bad, 1
	}
	if w.decide(c.Ult(b0, c.BV(0xf0, 8))) {
		return norm(c.Zext(c.Concat(c.Concat(c.Extract(b0, 0, 4), lo6(b[1])), lo6(b[2])), 32)), 3
	}
	if len(b) < 4 || !w.decide(cont(b[3])) {
		return bad, 1
	}
	return norm(c.Zext(c.Concat(c.Concat(c.Concat(c.Extract(b0, 0, 3), lo6(b[1])), lo6(b[2])), lo6(b[3])), 32)), 4
}

// encodeRune is the UTF-8 encoding of a 32-bit rune.
func (w *Worker) encodeRune(t *Term) []*Term {
	c := w.c
	if t.op == OConst {
		s := string(rune(int32(t.val)))
		return w.strBytes(s)
	}
	lim := func(n uint64) bool { return w.decide(c.Ult(t, c.BV(n, 32))) }
	six := func(lo uint8) *Term { return c.Concat(c.BV(2, 2), c.Extract(t, lo, 6)) }
	if lim(0x80) {
		return []*Term{c.Extract(t, 0, 8)}
	}
	if lim(0x800) {
		return []*Term{c.Concat(c.BV(6, 3), c.Extract(t, 6, 5)), six(0)}
	}
	if w.decide(c.InRange(t, 0xd800, 0xdfff)) || !lim(0x110000) {
		return w.strBytes("\uFFFD")
	}
	if lim(0x10000) {
		return []*Term{c.Concat(c.BV(14, 4), c.Extract(t, 12, 4)), six(6), six(0)}
	}
	return []*Term{c.Concat(c.BV(30, 5), c.Extract(t, 18, 3)), six(12), six(6), six(0)}
}

var _ = math.Inf
var _ = bits.Len

// strIndex is x[i] on a concrete string.
func (w *Worker) strIndex(x string, iv V, t types.Type) V {
	if s, sym := iv.(*Term); sym && len(x) > 1 && len(x) <= 256 {
		if mask(s.w) >= uint64(len(x)) && !w.decide(w.c.Ult(s, w.c.BV(uint64(len(x)), s.w))) {
			panic(targetPanic{rtErr("index out of range")})
		}
		tab := make([]V, len(x))
		for i := range tab {
			tab[i] = uint64(x[i])
		}
		if r, ok := w.symIndex(s, tab, types.Typ[types.Uint8]); ok {
			return r
		}
	}
	return uint64(x[w.index(iv, t, len(x))])
}
