package engine

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sprintf models fmt.Sprintf for the verbs in common use.
func (w *Worker) sprintf(fr *frame, format V, args []V) V {
	f := str(format)
	var out V = ""
	arg := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = w.strConcat(out, f[i:])
			break
		}
		out = w.strConcat(out, f[i:i+j])
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			out = w.strConcat(out, "%!(NOVERB)")
			break
		}
		verb := f[k]
		spec := f[i : k+1]
		i = k + 1
		if verb == '%' {
			out = w.strConcat(out, "%")
			continue
		}
		if verb == '[' || verb == '*' {
			panic(unsupported("format " + spec))
		}
		if arg >= len(args) {
			out = w.strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		out = w.strConcat(out, w.fmtOne(fr, args[arg].(iface), verb, spec))
		arg++
	}
	if arg < len(args) {
		panic(unsupported("extra arguments to a format"))
	}
	return out
}

func (w *Worker) fmtOne(fr *frame, x iface, verb byte, spec string) V {
	plain := len(spec) == 2
	switch verb {
	case 'T':
		if x.t == nil {
			return "<nil>"
		}
		return typeStr(x.t)
	case 'p':
		if p, ok := x.v.(*V); ok {
			if p == nil {
				return "%!p(nil)"
			}
			return fmt.Sprintf("%#x", w.addr(p))
		}
		if x.t == nil {
			return "%!p(<nil>)"
		}
		return "%!p(" + typeStr(x.t) + ")"
	}
	if plain && (verb == 's' || verb == 'v' || verb == 'w') {
		return w.fmtValue(fr, x, verb, 0)
	}
	// other verbs and flags: the value must be a scalar
	v := x.v
	if x.t != nil {
		if s, ok := w.stringer(fr, x); ok && (verb == 's' || verb == 'v' || verb == 'q' || verb == 'x') {
			v = s
		}
	}
	if verb == 'd' && plain {
		if wd, signed, ok := intInfo(x.t); ok {
			return w.itoa(v, wd, signed, 10)
		}
	}
	if verb == 'q' && plain {
		if _, ok := v.(*SStr); ok {
			q := w.p.pkgs["strconv"]
			if q != nil {
				return w.call(fr, q.Func("Quote"), []V{v}, nil)
			}
		}
	}
	switch v := v.(type) {
	case string:
		return fmt.Sprintf(spec, v)
	case *SStr:
		if (verb == 's' || verb == 'v') && !strings.ContainsAny(spec, "#.123456789") {
			return v
		}
		panic(unsupported("format " + spec + " of a symbolic string"))
	case bool:
		return fmt.Sprintf(spec, v)
	case float64:
		if b, ok := x.t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			return fmt.Sprintf(spec, float32(v))
		}
		return fmt.Sprintf(spec, v)
	case *Term:
		if v.w == 0 {
			return fmt.Sprintf(spec, w.decide(v))
		}
		wd, signed, _ := intInfo(x.t)
		u := w.concretize(v)
		if signed {
			return fmt.Sprintf(spec, sext(u, wd))
		}
		return fmt.Sprintf(spec, u)
	case uint64:
		wd, signed, ok := intInfo(x.t)
		if ok {
			if signed {
				return fmt.Sprintf(spec, sext(v, wd))
			}
			return fmt.Sprintf(spec, v)
		}
	case nil:
		if x.t == nil {
			return fmt.Sprintf(spec, nil)
		}
	}
	panic(unsupported("format " + spec + " of " + x.t.String()))
}

// stringer applies Error() or String().
func (w *Worker) stringer(fr *frame, x iface) (V, bool) {
	if x.t == runtimeErrType {
		return x.v, true
	}
	if rt, ok := x.v.(rtype); ok {
		return typeStr(rt.t), true
	}
	name := ""
	switch {
	case w.implements(x.t, w.p.errType):
		name = "Error"
	case w.implements(x.t, w.p.strType):
		name = "String"
	default:
		return nil, false
	}
	m := w.lookup(x.t, name)
	if m == nil {
		return nil, false
	}
	if p, ok := x.v.(*V); ok && p == nil {
		return "<nil>", true
	}
	return w.call(fr, m, []V{x.v}, nil), true
}

// fmtValue is %v.
func (w *Worker) fmtValue(fr *frame, x iface, verb byte, depth int) V {
	if x.t == nil {
		if verb == 's' {
			return "%!s(<nil>)"
		}
		return "<nil>"
	}
	if s, ok := w.stringer(fr, x); ok {
		return s
	}
	bad := func() V { // %s of a value that is not a string
		if verb != 's' {
			return nil
		}
		return w.strConcat(w.strConcat("%!s("+typeStr(x.t)+"=", w.fmtValue(fr, x, 'v', depth)), ")")
	}
	switch v := x.v.(type) {
	case string, *SStr:
		return v
	case bool:
		if b := bad(); b != nil {
			return b
		}
		return fmt.Sprint(v)
	case *Term:
		if b := bad(); b != nil {
			return b
		}
		if v.w == 0 {
			return fmt.Sprint(w.decide(v))
		}
		wd, signed, _ := intInfo(x.t)
		return w.itoa(v, wd, signed, 10)
	case uint64:
		if b := bad(); b != nil {
			return b
		}
		wd, signed, _ := intInfo(x.t)
		return w.itoa(v, wd, signed, 10)
	case float64:
		if b := bad(); b != nil {
			return b
		}
		if b, ok := x.t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			return fmt.Sprint(float32(v))
		}
		return fmt.Sprint(v)
	case iface:
		return w.fmtValue(fr, v, verb, depth)
	case slice, array:
		var arr []V
		var et types.Type
		switch u := x.t.Underlying().(type) {
		case *types.Slice:
			arr, et = v.(slice).arr, u.Elem()
		case *types.Array:
			arr, et = v.(array), u.Elem()
		}
		var out V = "["
		for i, e := range arr {
			if i > 0 {
				out = w.strConcat(out, " ")
			}
			out = w.strConcat(out, w.fmtValue(fr, asIface(e, et), verb, depth+1))
		}
		return w.strConcat(out, "]")
	case structure:
		st := x.t.Underlying().(*types.Struct)
		var out V = "{"
		for i, e := range v {
			if i > 0 {
				out = w.strConcat(out, " ")
			}
			if !st.Field(i).Exported() {
				// fmt does not call methods on unexported fields
				ft := st.Field(i).Type()
				if _, isB := ft.Underlying().(*types.Basic); !isB {
					panic(unsupported("%v of a struct with unexported fields"))
				}
				out = w.strConcat(out, w.fmtValue(fr, iface{ft.Underlying(), e}, verb, depth+1))
				continue
			}
			out = w.strConcat(out, w.fmtValue(fr, asIface(e, st.Field(i).Type()), verb, depth+1))
		}
		return w.strConcat(out, "}")
	case *MapV:
		if v == nil {
			return "map[]"
		}
		type kv struct {
			k string
			v V
		}
		var es []kv
		for i := range v.keys {
			if v.alive[i] {
				ks, ok := w.fmtValue(fr, asIface(v.keys[i], v.t.Key()), verb, depth+1).(string)
				if !ok {
					panic(unsupported("%v of a map with symbolic keys"))
				}
				es = append(es, kv{ks, w.fmtValue(fr, asIface(v.vals[i], v.t.Elem()), verb, depth+1)})
			}
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		var out V = "map["
		for i, e := range es {
			if i > 0 {
				out = w.strConcat(out, " ")
			}
			out = w.strConcat(w.strConcat(out, e.k+":"), e.v)
		}
		return w.strConcat(out, "]")
	case *V:
		if v == nil {
			return "<nil>"
		}
		if depth == 0 {
			if e := x.t.Underlying().(*types.Pointer).Elem(); e != nil {
				if _, isS := (*v).(structure); isS {
					return w.strConcat("&", w.fmtValue(fr, iface{e, *v}, verb, 1))
				}
			}
		}
		return fmt.Sprintf("%#x", w.addr(v))
	case *ssa.Function, *closure:
		return "0x1000"
	}
	panic(unsupported(fmt.Sprintf("%%v of %T", x.v)))
}

func asIface(v V, t types.Type) iface {
	if i, ok := v.(iface); ok {
		return i
	}
	return iface{t, v}
}

// sprint is fmt.Sprint / Sprintln.
func (w *Worker) sprint(fr *frame, args []V, ln bool) V {
	var out V = ""
	prevStr := true
	for i, a := range args {
		x := a.(iface)
		isStr := x.t != nil && isString(x.t)
		if i > 0 && (ln || !isStr && !prevStr) {
			out = w.strConcat(out, " ")
		}
		out = w.strConcat(out, w.fmtValue(fr, x, 'v', 0))
		prevStr = isStr
	}
	if ln {
		out = w.strConcat(out, "\n")
	}
	return out
}
