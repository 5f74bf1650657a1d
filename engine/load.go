package engine

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of the code under test, the harnesses and the part
// of the standard library they use. It is shared by the workers.
type Program struct {
	SSA      *ssa.Program
	Harness  *ssa.Package
	Target   string // import path of the library under test
	infos    sync.Map
	globalIx map[*ssa.Global]int
	globals  []*ssa.Global
	mu       sync.Mutex
	pkgs     map[string]*ssa.Package
	models   *ssa.Package
	anyType  types.Type
	errType  *types.Interface
	strType  *types.Interface
}

// pkgInit lists the standard packages whose init functions are executed; the
// globals of other packages are out of reach (reading one ends the path as
// "unsupported").
var pkgInit = map[string]bool{
	"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "strings": true, "strconv": true, "bytes": true, "sort": true, "slices": true,
	"maps": true, "iter": true, "cmp": true, "math": true, "math/bits": true, "math/big": true, "regexp": true, "regexp/syntax": true,
	"internal/stringslite": true, "container/list": true, "container/heap": true, "internal/strconv": true, "container/ring": true,
	"hash/fnv": true, "hash/crc32": false, "encoding/hex": true, "text/template": false, "unique": false,
	"html": true, "encoding/binary": false, "hash": true, "io": true, "errors": false, "internal/itoa": true,
}

// Load builds SSA for the packages matching patterns in dir.
func Load(dir string, harness, models, target string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, BuildFlags: []string{"-tags=math_big_pure_go,purego"}, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")}
	ps, err := packages.Load(cfg, harness, models)
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	})
	if len(msgs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(msgs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{SSA: prog, Target: target, globalIx: map[*ssa.Global]int{}, pkgs: map[string]*ssa.Package{}}
	for _, pk := range prog.AllPackages() {
		p.pkgs[pk.Pkg.Path()] = pk
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.globalIx[g] = len(p.globals)
				p.globals = append(p.globals, g)
			}
		}
	}
	p.Harness = p.pkgs[harness]
	p.models = p.pkgs[models]
	if p.Harness == nil || p.models == nil {
		return nil, fmt.Errorf("load: packages not found")
	}
	p.anyType = types.Universe.Lookup("any").Type()
	p.errType = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(), types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false)
	p.strType = types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "String", sig)}, nil).Complete()
	return p, nil
}

// operand kinds
const (
	kReg = iota
	kConst
	kGlobal
	kFree
)

type opnd struct {
	k  uint8
	ix int32
	v  V
	t  types.Type
}

type ins struct {
	i   ssa.Instruction
	a   []opnd
	dst int32 // register, or -1
	x   any   // per-instruction data
}

type blockInfo struct {
	phis []ins
	code []ins
}

type fnInfo struct {
	fn     *ssa.Function
	name   string
	nregs  int
	blocks []blockInfo
	intr   intrinsic
	target bool // belongs to the library under test
	hits   int64
	idx    map[ssa.Value]int32
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if fi, ok := p.infos.Load(fn); ok {
		return fi.(*fnInfo)
	}
	fi := p.compile(fn)
	act, _ := p.infos.LoadOrStore(fn, fi)
	return act.(*fnInfo)
}

func (p *Program) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fn.String(), idx: map[ssa.Value]int32{}}
	base := fn
	if fn.Origin() != nil {
		base = fn.Origin()
	}
	if in, ok := intrinsics[base.String()]; ok {
		fi.intr = in
		fi.name = base.String()
	} else if mf := p.modelFor(base); mf != nil {
		fi.intr = func(fr *frame, fn *ssa.Function, args []V) V { return fr.w.call(fr, mf, args, nil) }
	}
	root := fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	if root.Pkg != nil && root.Pkg.Pkg.Path() == p.Target {
		fi.target = true
	} else if root.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && fn.Object().Pkg().Path() == p.Target {
		fi.target = true
	}
	n := int32(0)
	add := func(v ssa.Value) int32 {
		ix := n
		fi.idx[v] = ix
		n++
		return ix
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = int(n)
	for _, b := range fn.Blocks {
		var bi blockInfo
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			in := ins{i: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				in.dst = fi.idx[v]
			}
			var rands [10]*ssa.Value
			for _, o := range i.Operands(rands[:0]) {
				if *o == nil {
					in.a = append(in.a, opnd{k: kConst})
					continue
				}
				in.a = append(in.a, p.operand(fi, *o))
			}
			if _, ok := i.(*ssa.Phi); ok {
				bi.phis = append(bi.phis, in)
			} else {
				bi.code = append(bi.code, in)
			}
		}
		fi.blocks = append(fi.blocks, bi)
	}
	return fi
}

func (p *Program) operand(fi *fnInfo, v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{k: kConst, v: constVal(v), t: v.Type()}
	case *ssa.Global:
		return opnd{k: kGlobal, ix: int32(p.globalIx[v]), t: v.Type()}
	case *ssa.Function:
		return opnd{k: kConst, v: v, t: v.Type()}
	case *ssa.Builtin:
		return opnd{k: kConst, v: v, t: v.Type()}
	}
	ix, ok := fi.idx[v]
	if !ok {
		panic("operand " + v.String())
	}
	return opnd{k: kReg, ix: ix, t: v.Type()}
}

func constVal(c *ssa.Const) (r V) {
	if c.Value == nil {
		defer func() {
			if e := recover(); e != nil {
				r = poison{fmt.Sprint(e)}
			}
		}()
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Interface); ok {
		_ = tp
		return poison{"interface const"}
	}
	b, ok := t.(*types.Basic)
	if !ok {
		return poison{"const of type " + t.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsInteger != 0:
		w, signed, _ := intInfo(b)
		if signed {
			return uint64(c.Int64()) & mask(w)
		}
		return c.Uint64() & mask(w)
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	}
	return poison{"const"}
}

// Executed lists the functions of the library under test executed so far.
func (p *Program) Executed() (names []string, instrs int) {
	p.infos.Range(func(_, v any) bool {
		fi := v.(*fnInfo)
		if fi.target && atomic.LoadInt64(&fi.hits) > 0 && fi.fn.Synthetic == "" {
			names = append(names, strings.ReplaceAll(fi.fn.RelString(fi.fn.Pkg.Pkg), "github.com/manhcuongbk56/cypher-go-dsl", "cypher"))
			for _, b := range fi.fn.Blocks {
				instrs += len(b.Instrs)
			}
		}
		return true
	})
	return
}

// ResetHits clears the execution counters.
func (p *Program) ResetHits() {
	p.infos.Range(func(_, v any) bool { atomic.StoreInt64(&v.(*fnInfo).hits, 0); return true })
}

// modelFor finds a replacement in the models package: function pkg.Name is
// replaced by models.Pkg_Name when that exists.
func (p *Program) modelFor(fn *ssa.Function) *ssa.Function {
	if fn.Pkg == nil || fn.Signature.Recv() != nil || fn.Pkg == p.models || fn.Parent() != nil || p.models == nil {
		return nil
	}
	path := fn.Pkg.Pkg.Path()
	if path == p.Target || fn.Pkg == p.Harness {
		return nil
	}
	n := strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(path) + "__" + fn.Name()
	return p.models.Func(n)
}
