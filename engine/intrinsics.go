package engine

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]intrinsic

var rtypePtr = types.NewNamed(types.NewTypeName(0, types.NewPackage("reflect", "reflect"), "engineRtype", nil), types.NewStruct(nil, nil), nil)

func str(v V) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported(fmt.Sprintf("needs a concrete string, has %T", v)))
	}
	return s
}

func noop(fr *frame, fn *ssa.Function, a []V) V { return nil }

func init() {
	intrinsics = map[string]intrinsic{
		"verif/nd.Choose": func(fr *frame, _ *ssa.Function, a []V) V {
			n := a[1].(uint64)
			return fr.w.inputInt(str(a[0]), 64, 0, n-1)
		},
		"verif/nd.Int": func(fr *frame, _ *ssa.Function, a []V) V {
			return fr.w.inputInt(str(a[0]), 64, a[1].(uint64), a[2].(uint64))
		},
		"verif/nd.Bool": func(fr *frame, _ *ssa.Function, a []V) V {
			t := fr.w.inputInt(str(a[0]), 64, 0, 1)
			return norm(fr.w.c.Eq(fr.w.toTerm(t, 64), fr.w.c.BV(1, 64)))
		},
		"verif/nd.Str": func(fr *frame, _ *ssa.Function, a []V) V {
			return fr.w.inputStr(str(a[0]), int(a[1].(uint64)), int(a[2].(uint64)), "\x00-\xff")
		},
		"verif/nd.StrOf": func(fr *frame, _ *ssa.Function, a []V) V {
			return fr.w.inputStr(str(a[0]), int(a[1].(uint64)), int(a[2].(uint64)), str(a[3]))
		},
		"verif/nd.Thorough": func(fr *frame, _ *ssa.Function, a []V) V { return fr.w.Thorough },
		"verif/nd.GC":       noop,
		"verif/nd.Assume": func(fr *frame, _ *ssa.Function, a []V) V {
			fr.w.assumeOrEnd(fr.w.toTerm(a[0], 0))
			return nil
		},
		"verif/nd.Check": func(fr *frame, _ *ssa.Function, a []V) V {
			fr.w.check(str(a[0]), fr.w.toTerm(a[1], 0), nil)
			return nil
		},
		"verif/nd.CheckEq": func(fr *frame, _ *ssa.Function, a []V) V {
			w := fr.w
			eq := w.strEq(a[1], a[2])
			if eq == w.c.True {
				w.reached[str(a[0])]++
				w.obl = append(w.obl, [2]V{a[1], a[2]})
				return nil
			}
			w.check(str(a[0]), eq, func(m map[*Term]uint64) string {
				return fmt.Sprintf("got %q, want %q", w.concreteUnder(a[1], m), w.concreteUnder(a[2], m))
			})
			return nil
		},
		"verif/nd.Together": func(fr *frame, _ *ssa.Function, a []V) V { return fr.w.together(fr, str(a[0]), a[1], a[2]) },
		"verif/nd.Observe": func(fr *frame, _ *ssa.Function, a []V) V {
			fr.w.obs = append(fr.w.obs, Obs{str(a[0]), a[1]})
			return nil
		},
		"verif/nd.Note": func(fr *frame, _ *ssa.Function, a []V) V {
			fr.w.notes = append(fr.w.notes, Obs{str(a[0]), a[1]})
			return nil
		},

		"fmt.Sprintf": func(fr *frame, _ *ssa.Function, a []V) V { return fr.w.sprintf(fr, a[0], a[1].(slice).arr) },
		"fmt.Sprint":  func(fr *frame, _ *ssa.Function, a []V) V { return fr.w.sprint(fr, a[0].(slice).arr, false) },
		"fmt.Sprintln": func(fr *frame, _ *ssa.Function, a []V) V {
			return fr.w.sprint(fr, a[0].(slice).arr, true)
		},
		"fmt.Errorf":                  errorf,
		"golang.org/x/xerrors.Errorf": errorf,
		"fmt.Print":                   func(fr *frame, _ *ssa.Function, a []V) V { return tuple{uint64(0), iface{}} },
		"fmt.Println":                 func(fr *frame, _ *ssa.Function, a []V) V { return tuple{uint64(0), iface{}} },
		"fmt.Printf":                  func(fr *frame, _ *ssa.Function, a []V) V { return tuple{uint64(0), iface{}} },
		"fmt.Fprintf": func(fr *frame, _ *ssa.Function, a []V) V {
			return fr.fwrite(a[0], fr.w.sprintf(fr, a[1], a[2].(slice).arr))
		},
		"fmt.Fprint": func(fr *frame, _ *ssa.Function, a []V) V {
			return fr.fwrite(a[0], fr.w.sprint(fr, a[1].(slice).arr, false))
		},
		"fmt.Fprintln": func(fr *frame, _ *ssa.Function, a []V) V {
			return fr.fwrite(a[0], fr.w.sprint(fr, a[1].(slice).arr, true))
		},
		"github.com/rs/xid.New":                xidNew,
		"(github.com/rs/xid.ID).String":        xidString,
		"github.com/google/uuid.New":           uuidNew,
		"(github.com/google/uuid.UUID).String": xidString,
		"github.com/google/uuid.NewString": func(fr *frame, _ *ssa.Function, a []V) V {
			fr.w.nxid++
			return fmt.Sprintf("uuid-%08d", fr.w.nxid)
		},

		"internal/abi.NoEscape": func(fr *frame, _ *ssa.Function, a []V) V { return a[0] },
		"internal/abi.Escape":   func(fr *frame, _ *ssa.Function, a []V) V { return a[0] },
		"runtime.KeepAlive":     noop, "runtime.GC": noop, "runtime.SetFinalizer": noop,
		"(*sync.Mutex).Lock": locked(1), "(*sync.Mutex).Unlock": locked(-1),
		"(*sync.Mutex).TryLock": func(fr *frame, _ *ssa.Function, a []V) V { fr.w.held++; return true },
		"(*sync.RWMutex).Lock":  locked(1), "(*sync.RWMutex).Unlock": locked(-1), "(*sync.RWMutex).RLock": locked(1), "(*sync.RWMutex).RUnlock": locked(-1),
		"(*sync.Pool).Put": noop,
		"(*sync.Pool).Get": func(fr *frame, fn *ssa.Function, a []V) V {
			s := (*fr.ptr(a[0])).(structure)
			st := fn.Params[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "New" {
					if f, ok := s[i].(*ssa.Function); ok && f == nil {
						return iface{}
					}
					return fr.w.call(fr, s[i], nil, nil)
				}
			}
			return iface{}
		},
		"(*sync.Map).Load": func(fr *frame, _ *ssa.Function, a []V) V {
			m := fr.syncMap(a[0])
			fr.w.held++
			defer func() { fr.w.held-- }()
			if i := fr.w.mapFind(m, a[1]); i >= 0 {
				return tuple{m.vals[i], true}
			}
			return tuple{iface{}, false}
		},
		"(*sync.Map).Store":  func(fr *frame, _ *ssa.Function, a []V) V {
			fr.w.held++
			fr.w.mapSet(fr.syncMap(a[0]), a[1], a[2])
			fr.w.held--
			return nil
		},
		"(*sync.Map).Delete": func(fr *frame, _ *ssa.Function, a []V) V {
			fr.w.held++
			fr.w.mapDelete(fr.syncMap(a[0]), a[1])
			fr.w.held--
			return nil
		},
		"(*sync.Map).LoadOrStore": func(fr *frame, _ *ssa.Function, a []V) V {
			m := fr.syncMap(a[0])
			fr.w.held++
			defer func() { fr.w.held-- }()
			if i := fr.w.mapFind(m, a[1]); i >= 0 {
				return tuple{m.vals[i], true}
			}
			fr.w.mapSet(m, a[1], a[2])
			return tuple{a[2], false}
		},

		"math.Float64bits":     func(fr *frame, _ *ssa.Function, a []V) V { return math.Float64bits(a[0].(float64)) },
		"math.Float64frombits": func(fr *frame, _ *ssa.Function, a []V) V { return math.Float64frombits(fr.w.conc64(a[0])) },
		"math.Float32bits":     func(fr *frame, _ *ssa.Function, a []V) V { return uint64(math.Float32bits(float32(a[0].(float64)))) },
		"math.Float32frombits": func(fr *frame, _ *ssa.Function, a []V) V {
			return float64(math.Float32frombits(uint32(fr.w.conc64(a[0]))))
		},

		"unicode.IsLetter":  runePred(unicode.IsLetter),
		"unicode.IsDigit":   runePred(unicode.IsDigit),
		"unicode.IsNumber":  runePred(unicode.IsNumber),
		"unicode.IsSpace":   runePred(unicode.IsSpace),
		"unicode.IsUpper":   runePred(unicode.IsUpper),
		"unicode.IsLower":   runePred(unicode.IsLower),
		"unicode.IsControl": runePred(unicode.IsControl),
		"unicode.IsPunct":   runePred(unicode.IsPunct),
		"unicode.IsSymbol":  runePred(unicode.IsSymbol),
		"unicode.IsPrint":   runePred(unicode.IsPrint),
		"unicode.IsGraphic": runePred(unicode.IsGraphic),
		"unicode.IsMark":    runePred(unicode.IsMark),
		"unicode.ToUpper":   runeMap(unicode.ToUpper),
		"unicode.ToLower":   runeMap(unicode.ToLower),
		"unicode.ToTitle":   runeMap(unicode.ToTitle),
		"unicode/utf8.DecodeRuneInString": func(fr *frame, _ *ssa.Function, a []V) V {
			if strLen(a[0]) == 0 {
				return tuple{uint64(0xfffd), uint64(0)}
			}
			r, n := fr.w.decodeRune(a[0], 0)
			return tuple{r, uint64(n)}
		},
		"unicode/utf8.DecodeRune": func(fr *frame, _ *ssa.Function, a []V) V {
			s := fr.w.bytesToStr(a[0].(slice).arr)
			if strLen(s) == 0 {
				return tuple{uint64(0xfffd), uint64(0)}
			}
			r, n := fr.w.decodeRune(s, 0)
			return tuple{r, uint64(n)}
		},
		"unicode/utf8.RuneCountInString": func(fr *frame, _ *ssa.Function, a []V) V {
			n := 0
			for p := 0; p < strLen(a[0]); n++ {
				_, k := fr.w.decodeRune(a[0], p)
				p += k
			}
			return uint64(n)
		},
		"unicode/utf8.ValidString": func(fr *frame, _ *ssa.Function, a []V) V {
			for p := 0; p < strLen(a[0]); {
				r, k := fr.w.decodeRune(a[0], p)
				if k == 1 {
					if u, ok := r.(uint64); ok && u == 0xfffd {
						return false
					}
				}
				p += k
			}
			return true
		},
		"unicode/utf8.AppendRune": func(fr *frame, _ *ssa.Function, a []V) V {
			var add []V
			for _, t := range fr.w.encodeRune(fr.w.toTerm(a[1], 32)) {
				add = append(add, norm(t))
			}
			return fr.w.appendSlice(a[0].(slice), add, types.Typ[types.Uint8])
		},
		"unicode/utf8.EncodeRune": func(fr *frame, _ *ssa.Function, a []V) V {
			ts := fr.w.encodeRune(fr.w.toTerm(a[1], 32))
			d := a[0].(slice).arr
			for i, t := range ts {
				if i >= len(d) {
					panic(targetPanic{rtErr("index out of range")})
				}
				fr.w.set(&d[i], norm(t))
			}
			return uint64(len(ts))
		},

		"math/bits.Len64": func(fr *frame, _ *ssa.Function, a []V) V { return fr.w.bitLen(a[0]) },
		"math/bits.Len":   func(fr *frame, _ *ssa.Function, a []V) V { return fr.w.bitLen(a[0]) },
		"math/bits.LeadingZeros64": func(fr *frame, _ *ssa.Function, a []V) V {
			return norm(fr.w.c.Bin(OSub, fr.w.c.BV(64, 64), fr.w.toTerm(fr.w.bitLen(a[0]), 64)))
		},
		"math/bits.LeadingZeros": func(fr *frame, _ *ssa.Function, a []V) V {
			return norm(fr.w.c.Bin(OSub, fr.w.c.BV(64, 64), fr.w.toTerm(fr.w.bitLen(a[0]), 64)))
		},
		"strconv.Itoa": func(fr *frame, _ *ssa.Function, a []V) V { return fr.w.itoa(a[0], 64, true, 10) },
		"strconv.FormatInt": func(fr *frame, _ *ssa.Function, a []V) V {
			return fr.w.itoa(a[0], 64, true, int(a[1].(uint64)))
		},
		"strconv.FormatUint": func(fr *frame, _ *ssa.Function, a []V) V {
			return fr.w.itoa(a[0], 64, false, int(a[1].(uint64)))
		},
		"strconv.AppendInt": func(fr *frame, _ *ssa.Function, a []V) V {
			return fr.w.appendStr(a[0].(slice), fr.w.itoa(a[1], 64, true, int(a[2].(uint64))))
		},
		"strconv.AppendUint": func(fr *frame, _ *ssa.Function, a []V) V {
			return fr.w.appendStr(a[0].(slice), fr.w.itoa(a[1], 64, false, int(a[2].(uint64))))
		},
		"strconv.FormatFloat": func(fr *frame, _ *ssa.Function, a []V) V {
			return strconv.FormatFloat(a[0].(float64), byte(fr.w.conc64(a[1])), int(int64(fr.w.conc64(a[2]))), int(fr.w.conc64(a[3])))
		},
		"strconv.AppendFloat": func(fr *frame, _ *ssa.Function, a []V) V {
			return fr.w.appendStr(a[0].(slice), strconv.FormatFloat(a[1].(float64), byte(fr.w.conc64(a[2])), int(int64(fr.w.conc64(a[3]))), int(fr.w.conc64(a[4]))))
		},
		"strconv.FormatBool": func(fr *frame, _ *ssa.Function, a []V) V {
			if fr.w.decideV(a[0]) {
				return "true"
			}
			return "false"
		},
		"strconv.ParseFloat": func(fr *frame, _ *ssa.Function, a []V) V {
			f, err := strconv.ParseFloat(str(a[0]), int(a[1].(uint64)))
			if err != nil {
				return tuple{f, fr.w.mkErr(err.Error())}
			}
			return tuple{f, iface{}}
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"reflect.TypeOf": func(fr *frame, _ *ssa.Function, a []V) V {
			x := a[0].(iface)
			if x.t == nil {
				return iface{}
			}
			return iface{rtypePtr, rtype{x.t}}
		},
		"reflect.ValueOf": func(fr *frame, _ *ssa.Function, a []V) V {
			x := a[0].(iface)
			return rvalue{x.t, x.v}
		},
		"reflect.DeepEqual": func(fr *frame, _ *ssa.Function, a []V) V {
			return norm(fr.w.deepEqual(a[0], a[1], 0))
		},
		"(reflect.Value).Kind": func(fr *frame, _ *ssa.Function, a []V) V { return kindOf(a[0].(rvalue).t) },
		"(reflect.Value).IsValid": func(fr *frame, _ *ssa.Function, a []V) V {
			return a[0].(rvalue).t != nil
		},
		"(reflect.Value).IsNil": func(fr *frame, _ *ssa.Function, a []V) V {
			switch v := a[0].(rvalue).v.(type) {
			case *V:
				return v == nil
			case slice:
				return v.arr == nil
			case *MapV:
				return v == nil
			case *ssa.Function:
				return v == nil
			case *closure:
				return false
			case iface:
				return v.t == nil
			}
			panic(targetPanic{iface{runtimeErrType, "reflect: call of reflect.Value.IsNil on a value that cannot be nil"}})
		},
		"(reflect.Value).IsZero": func(fr *frame, _ *ssa.Function, a []V) V {
			r := a[0].(rvalue)
			return norm(fr.w.deepEqual(r.v, zero(r.t), 0))
		},
		"(reflect.Value).Type": func(fr *frame, _ *ssa.Function, a []V) V { return iface{rtypePtr, rtype{a[0].(rvalue).t}} },
		"(reflect.Value).Interface": func(fr *frame, _ *ssa.Function, a []V) V {
			r := a[0].(rvalue)
			if i, ok := r.v.(iface); ok {
				return i
			}
			return iface{r.t, copyV(r.v)}
		},
		"(reflect.Value).Len": func(fr *frame, _ *ssa.Function, a []V) V {
			switch v := a[0].(rvalue).v.(type) {
			case slice:
				return uint64(len(v.arr))
			case string, *SStr:
				return uint64(strLen(v))
			case array:
				return uint64(len(v))
			case *MapV:
				if v == nil {
					return uint64(0)
				}
				return uint64(v.n)
			}
			panic(unsupported("reflect.Value.Len"))
		},
		"(reflect.Value).Index": func(fr *frame, _ *ssa.Function, a []V) V {
			r := a[0].(rvalue)
			if s, ok := r.v.(slice); ok {
				et := r.t.Underlying().(*types.Slice).Elem()
				return rvalue{et, copyV(s.arr[fr.w.index(a[1], types.Typ[types.Int], len(s.arr))])}
			}
			panic(unsupported("reflect.Value.Index"))
		},
		"(reflect.Value).Int": func(fr *frame, _ *ssa.Function, a []V) V {
			r := a[0].(rvalue)
			wd, _, ok := intInfo(r.t)
			if !ok {
				panic(unsupported("reflect.Value.Int"))
			}
			return norm(fr.w.c.Sext(fr.w.toTerm(r.v, wd), 64))
		},
		"(reflect.Value).Uint": func(fr *frame, _ *ssa.Function, a []V) V {
			r := a[0].(rvalue)
			wd, _, ok := intInfo(r.t)
			if !ok {
				panic(unsupported("reflect.Value.Uint"))
			}
			return norm(fr.w.c.Zext(fr.w.toTerm(r.v, wd), 64))
		},
		"(reflect.Value).Float": func(fr *frame, _ *ssa.Function, a []V) V { return a[0].(rvalue).v.(float64) },
		"(reflect.Value).Bool":  func(fr *frame, _ *ssa.Function, a []V) V { return a[0].(rvalue).v },
		"(reflect.Value).String": func(fr *frame, _ *ssa.Function, a []V) V {
			r := a[0].(rvalue)
			if r.t != nil && isString(r.t) {
				return r.v
			}
			panic(unsupported("reflect.Value.String"))
		},
		"(reflect.Kind).String": func(fr *frame, _ *ssa.Function, a []V) V {
			return [...]string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}[a[0].(uint64)]
		},
	}
	for _, n := range []string{"Floor", "Ceil", "Trunc", "Sqrt", "Abs", "Round", "Log10", "Log", "Log2", "Exp"} {
		f := map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Round": math.Round, "Log10": math.Log10, "Log": math.Log, "Log2": math.Log2, "Exp": math.Exp}[n]
		intrinsics["math."+n] = func(fr *frame, _ *ssa.Function, a []V) V { return f(a[0].(float64)) }
	}
	intrinsics["math.Pow"] = func(fr *frame, _ *ssa.Function, a []V) V { return math.Pow(a[0].(float64), a[1].(float64)) }
	intrinsics["math.Mod"] = func(fr *frame, _ *ssa.Function, a []V) V { return math.Mod(a[0].(float64), a[1].(float64)) }
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+k] = func(fr *frame, _ *ssa.Function, a []V) V { return *fr.ptr(a[0]) }
		intrinsics["sync/atomic.Store"+k] = func(fr *frame, _ *ssa.Function, a []V) V { fr.w.setAtomic(fr.ptr(a[0]), a[1]); return nil }
		intrinsics["sync/atomic.Swap"+k] = func(fr *frame, _ *ssa.Function, a []V) V {
			p := fr.ptr(a[0])
			old := *p
			fr.w.setAtomic(p, a[1])
			return old
		}
		intrinsics["sync/atomic.CompareAndSwap"+k] = func(fr *frame, fn *ssa.Function, a []V) V {
			p := fr.ptr(a[0])
			if fr.w.decide(fr.w.equals(fn.Signature.Params().At(1).Type(), *p, a[1])) {
				fr.w.setAtomic(p, a[2])
				return true
			}
			return false
		}
		intrinsics["sync/atomic.Add"+k] = func(fr *frame, fn *ssa.Function, a []V) V {
			p := fr.ptr(a[0])
			t := fn.Signature.Params().At(1).Type()
			wd, _, _ := intInfo(t)
			r := norm(fr.w.c.Bin(OAdd, fr.w.toTerm(*p, wd), fr.w.toTerm(a[1], wd)))
			fr.w.setAtomic(p, r)
			return r
		}
	}
}

func (w *Worker) conc64(v V) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *Term:
		return w.concretize(v)
	}
	panic(unsupported("integer"))
}

func (w *Worker) appendStr(s slice, v V) slice {
	var add []V
	for _, t := range w.strBytes(v) {
		add = append(add, norm(t))
	}
	return w.appendSlice(s, add, types.Typ[types.Uint8])
}

func (w *Worker) inputInt(label string, wd uint8, lo, hi uint64) V {
	t := w.newVar(wd, lo, hi)
	w.inputs = append(w.inputs, Input{Kind: "int", Label: label, terms: []*Term{t}, w: wd})
	if w.doms[t] == nil {
		// signed range
		if int64(lo) != math.MinInt64 {
			w.assume(w.c.Sle(w.c.BV(lo, wd), t))
		}
		if int64(hi) != math.MaxInt64 {
			w.assume(w.c.Sle(t, w.c.BV(hi, wd)))
		}
	}
	return t
}

func (w *Worker) inputStr(label string, min, max int, class string) V {
	n := min + w.fork(max-min+1)
	d := &Dom{}
	for i := 0; i < len(class); i++ {
		if i+2 < len(class) && class[i+1] == '-' {
			for x := int(class[i]); x <= int(class[i+2]); x++ {
				d.put(x)
			}
			i += 2
			continue
		}
		d.put(int(class[i]))
	}
	in := Input{Kind: "str", Label: label}
	for i := 0; i < n; i++ {
		t := w.newVar(8, 0, 255)
		dd, df := *d, *d
		w.doms[t] = &dd
		w.full[t] = &df
		in.terms = append(in.terms, t)
	}
	w.inputs = append(w.inputs, in)
	return mkStr(append([]*Term(nil), in.terms...))
}

func (fr *frame) syncMap(p V) *MapV {
	k := pair{"syncmap", fr.ptr(p)}
	if m, ok := fr.w.objs[k]; ok {
		return m.(*MapV)
	}
	m := newMap(types.NewMap(fr.w.p.anyType, fr.w.p.anyType), fr.w.epoch)
	fr.w.objs[k] = m
	return m
}

// mkErr makes an error value with the given text.
func (w *Worker) mkErr(msg V) V {
	return w.call(nil, w.p.models.Func("errors__New"), []V{msg}, nil)
}

func errorf(fr *frame, _ *ssa.Function, a []V) V {
	args := a[1].(slice).arr
	msg := fr.w.sprintf(fr, a[0], args)
	var wrapped V = iface{}
	if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
		for _, x := range args {
			if i, ok := x.(iface); ok && i.t != nil && fr.w.implements(i.t, fr.w.p.errType) {
				wrapped = i
			}
		}
	}
	return fr.w.call(fr, fr.w.p.models.Func("NewWrap"), []V{msg, wrapped}, nil)
}

func (fr *frame) fwrite(dst V, s V) V {
	d := dst.(iface)
	if d.t == nil {
		panic(nilDeref())
	}
	m := fr.w.lookup(d.t, "Write")
	if m == nil {
		panic(unsupported("fmt.Fprint to " + d.t.String()))
	}
	var bs []V
	for _, t := range fr.w.strBytes(s) {
		bs = append(bs, norm(t))
	}
	return fr.w.call(fr, m, []V{d.v, slice{bs}}, nil)
}

// lookup finds a method by exported name.
func (w *Worker) lookup(t types.Type, name string) *ssa.Function {
	sel := w.p.SSA.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return w.p.SSA.MethodValue(sel)
}

func xidNew(fr *frame, _ *ssa.Function, a []V) V {
	fr.w.nxid++
	r := make(array, 12)
	n := fr.w.nxid
	for i := range r {
		r[i] = uint64(0)
	}
	r[11], r[10] = uint64(n&255), uint64(n>>8&255)
	return r
}

func uuidNew(fr *frame, _ *ssa.Function, a []V) V {
	fr.w.nxid++
	r := make(array, 16)
	n := fr.w.nxid
	for i := range r {
		r[i] = uint64(0)
	}
	r[15], r[14] = uint64(n&255), uint64(n>>8&255)
	return r
}

func xidString(fr *frame, _ *ssa.Function, a []V) V {
	r := a[0].(array)
	n := len(r)
	return fmt.Sprintf("xid%017d", r[n-1].(uint64)+256*r[n-2].(uint64))
}

// rune predicates over symbolic runes: membership in a list of ranges.
func runePred(f func(rune) bool) intrinsic {
	type rg struct{ lo, hi uint64 }
	var ranges []rg
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if f(r) {
			lo := r
			for r+1 <= unicode.MaxRune && f(r+1) {
				r++
			}
			ranges = append(ranges, rg{uint64(lo), uint64(r)})
		}
	}
	return func(fr *frame, _ *ssa.Function, a []V) V {
		switch x := a[0].(type) {
		case uint64:
			return f(rune(int32(x)))
		case *Term:
			c := fr.w.c
			t := x
			if t.op == OZext {
				t = t.a[0]
			}
			r := c.False
			m := mask(t.w)
			for _, g := range ranges {
				if g.lo > m {
					break
				}
				r = c.Or(r, c.InRange(t, g.lo, g.hi))
			}
			return norm(r)
		}
		panic(unsupported("rune predicate"))
	}
}

func runeMap(f func(rune) rune) intrinsic {
	return func(fr *frame, _ *ssa.Function, a []V) V {
		switch x := a[0].(type) {
		case uint64:
			return uint64(uint32(f(rune(int32(x)))))
		case *Term:
			w := fr.w
			if w.decide(w.c.Ult(x, w.c.BV(0x80, 32))) {
				tab := make([]V, 128)
				for i := range tab {
					tab[i] = uint64(uint32(f(rune(i))))
				}
				if v, ok := w.symIndex(x, tab, types.Typ[types.Int32]); ok {
					return v
				}
			}
			return uint64(uint32(f(rune(int32(w.concretize(x))))))
		}
		panic(unsupported("rune map"))
	}
}

// bitLen is the number of bits of a word.
func (w *Worker) bitLen(v V) V {
	t, ok := v.(*Term)
	if !ok {
		return uint64(bits.Len64(v.(uint64)))
	}
	// a word and itself shifted right, or'ed, is as long as the word
	for t.op == OBor {
		x := t.a[1]
		for x.op == OLshr {
			x = x.a[0]
		}
		if x != t.a[0] {
			break
		}
		t = x
	}
	r := w.c.BV(64, 64)
	for n := 63; n >= 0; n-- {
		below := w.c.Ult(t, w.c.BV(1<<uint(n), 64))
		r = w.c.Ite(below, w.c.BV(uint64(n), 64), r)
	}
	return r
}

// itoa formats an integer. The digits of a symbolic one are terms over it; the
// path forks on their number.
func (w *Worker) itoa(v V, wd uint8, signed bool, base int) V {
	switch x := v.(type) {
	case uint64:
		if signed {
			return strconv.FormatInt(sext(x, wd), base)
		}
		return strconv.FormatUint(x, base)
	case *Term:
		if base != 10 {
			u := w.concretize(x)
			if signed {
				return strconv.FormatInt(sext(u, wd), base)
			}
			return strconv.FormatUint(u, base)
		}
		c := w.c
		t := x
		if wd < 64 {
			if signed {
				t = c.Sext(x, 64)
			} else {
				t = c.Zext(x, 64)
			}
		}
		if k, ok := w.objs[pair{"itoa", x}]; ok {
			return k
		}
		var out []*Term
		if signed && w.decide(c.Slt(t, c.BV(0, 64))) {
			out = append(out, c.bytes['-'])
			t0 := t
			t = c.Un(ONeg, t0)
		}
		nd := 1
		p := uint64(10)
		for nd < 20 {
			if w.decide(c.Ult(t, c.BV(p, 64))) {
				break
			}
			nd++
			if nd == 20 {
				break
			}
			if p > math.MaxUint64/10 {
				nd = 20
				break
			}
			p *= 10
		}
		if nd == 20 {
			panic(unsupported("formatting of an unsigned integer above 10^19"))
		}
		digs := make([]*Term, nd)
		pow := uint64(1)
		for i := 0; i < nd; i++ {
			d := t
			if pow > 1 {
				d = c.Bin(OUdiv, t, c.BV(pow, 64))
			}
			if i < nd-1 {
				d = c.Bin(OUrem, d, c.BV(10, 64))
			}
			lo := uint64('0')
			if i == nd-1 && nd > 1 {
				lo = '1'
			}
			digs[nd-1-i] = w.define(c.Bin(OAdd, c.Extract(d, 0, 8), c.bytes['0']), lo, '9')
			pow *= 10
		}
		out = append(out, digs...)
		r := mkStr(out)
		w.objs[pair{"itoa", x}] = r
		return r
	}
	panic(unsupported(fmt.Sprintf("itoa of %T", v)))
}

func sortSlice(fr *frame, _ *ssa.Function, a []V) V {
	s, ok := a[0].(iface).v.(slice)
	if !ok {
		panic(unsupported("sort.Slice"))
	}
	w := fr.w
	for i := 1; i < len(s.arr); i++ {
		for j := i; j > 0; j-- {
			if !w.decideV(w.call(fr, a[1], []V{uint64(j), uint64(j - 1)}, nil)) {
				break
			}
			x, y := copyV(s.arr[j]), copyV(s.arr[j-1])
			w.set(&s.arr[j], y)
			w.set(&s.arr[j-1], x)
		}
	}
	return nil
}

func kindOf(t types.Type) V {
	if t == nil {
		return uint64(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]uint64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
		return m[u.Kind()]
	case *types.Array:
		return uint64(17)
	case *types.Chan:
		return uint64(18)
	case *types.Signature:
		return uint64(19)
	case *types.Interface:
		return uint64(20)
	case *types.Map:
		return uint64(21)
	case *types.Pointer:
		return uint64(22)
	case *types.Slice:
		return uint64(23)
	case *types.Struct:
		return uint64(25)
	}
	return uint64(0)
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// nativeMethod finds the methods the executor implements itself.
func nativeMethod(recv iface, name string) (func(fr *frame, recv iface, args []V) V, bool) {
	if rt, ok := recv.v.(rtype); ok && recv.t == rtypePtr {
		t := rt.t
		switch name {
		case "String":
			return func(*frame, iface, []V) V { return typeStr(t) }, true
		case "Name":
			return func(*frame, iface, []V) V {
				switch n := t.(type) {
				case *types.Named:
					return n.Obj().Name()
				case *types.Basic:
					return n.Name()
				}
				return ""
			}, true
		case "PkgPath":
			return func(*frame, iface, []V) V {
				if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
					return n.Obj().Pkg().Path()
				}
				return ""
			}, true
		case "Kind":
			return func(*frame, iface, []V) V { return kindOf(t) }, true
		case "Comparable":
			return func(*frame, iface, []V) V { return types.Comparable(t) }, true
		case "Elem":
			return func(*frame, iface, []V) V {
				if e, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
					return iface{rtypePtr, rtype{e.Elem()}}
				}
				panic(unsupported("reflect.Type.Elem"))
			}, true
		}
		return func(*frame, iface, []V) V { panic(unsupported("reflect.Type." + name)) }, true
	}
	if recv.t == runtimeErrType && name == "Error" {
		return func(_ *frame, r iface, _ []V) V { return r.v }, true
	}
	return nil, false
}

func (w *Worker) deepEqual(x, y V, depth int) *Term {
	if depth > 50 {
		panic(unsupported("deep equality depth"))
	}
	switch x := x.(type) {
	case iface:
		yi, ok := y.(iface)
		if !ok {
			return w.c.False
		}
		if x.t == nil || yi.t == nil {
			return w.c.Bool(x.t == nil && yi.t == nil)
		}
		if typeID(x.t) != typeID(yi.t) {
			return w.c.False
		}
		return w.deepEqual(x.v, yi.v, depth+1)
	case structure:
		r := w.c.True
		for i := range x {
			r = w.c.And(r, w.deepEqual(x[i], y.(structure)[i], depth+1))
		}
		return r
	case array:
		r := w.c.True
		for i := range x {
			r = w.c.And(r, w.deepEqual(x[i], y.(array)[i], depth+1))
		}
		return r
	case slice:
		ys := y.(slice)
		if (x.arr == nil) != (ys.arr == nil) || len(x.arr) != len(ys.arr) {
			return w.c.False
		}
		r := w.c.True
		for i := range x.arr {
			r = w.c.And(r, w.deepEqual(x.arr[i], ys.arr[i], depth+1))
		}
		return r
	case *V:
		yp, ok := y.(*V)
		if !ok {
			return w.c.False
		}
		if x == yp {
			return w.c.True
		}
		if x == nil || yp == nil {
			return w.c.False
		}
		return w.deepEqual(*x, *yp, depth+1)
	case *MapV:
		if ym, ok := y.(*MapV); ok && x == ym {
			return w.c.True
		}
		panic(unsupported("deep equality of maps"))
	case *ssa.Function:
		yf, ok := y.(*ssa.Function)
		return w.c.Bool(ok && x == nil && yf == nil)
	case *closure:
		return w.c.False
	}
	return w.equals(nil, x, y)
}
