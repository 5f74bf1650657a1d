// Package engine is a symbolic executor for Go programs in go/ssa form.
package engine

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is a term operator. All terms are booleans (width 0) or bit-vectors of
// width 1..64, with the meaning of the SMT-LIB operators of the same name.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // val = lo; width = w
	OConcat
)

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
}

// Term is a hash-consed node.
type Term struct {
	op    Op
	w     uint8
	id    int32
	n     uint8
	a     [3]*Term
	val   uint64
	name  string
	v1    *Term // the only free variable, when there is exactly one
	multi bool  // two or more free variables
	gen   uint32
	ev    uint64
}

type tkey struct {
	op         Op
	w          uint8
	a0, a1, a2 int32
	val        uint64
}

// Ctx owns the terms of one worker.
type Ctx struct {
	tab    map[tkey]*Term
	vars   map[string]*Term
	nextID int32
	gen    uint32
	True   *Term
	False  *Term
	bytes  [256]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{}
	c.Reset()
	return c
}

// Reset drops every term.
func (c *Ctx) Reset() {
	c.tab = make(map[tkey]*Term, 1024)
	c.vars = map[string]*Term{}
	c.nextID = 1
	c.True = c.mk(OConst, 0, 1)
	c.False = c.mk(OConst, 0, 0)
	for i := range c.bytes {
		c.bytes[i] = c.mk(OConst, 8, uint64(i))
	}
}

func (c *Ctx) mk(op Op, w uint8, val uint64, args ...*Term) *Term {
	k := tkey{op: op, w: w, val: val}
	if len(args) > 0 {
		k.a0 = args[0].id
	}
	if len(args) > 1 {
		k.a1 = args[1].id
	}
	if len(args) > 2 {
		k.a2 = args[2].id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, id: c.nextID, n: uint8(len(args))}
	c.nextID++
	copy(t.a[:], args)
	for _, x := range args {
		if x.multi {
			t.multi = true
		}
		if x.v1 != nil {
			if t.v1 == nil {
				t.v1 = x.v1
			} else if t.v1 != x.v1 {
				t.multi = true
			}
		}
	}
	if t.multi {
		t.v1 = nil
	}
	c.tab[k] = t
	return t
}

// Var declares (or returns) a variable.
func (c *Ctx) Var(name string, w uint8) *Term {
	if t, ok := c.vars[name]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: c.nextID}
	t.v1 = t
	c.nextID++
	c.vars[name] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (c *Ctx) BV(v uint64, w uint8) *Term {
	v &= mask(w)
	if w == 8 {
		return c.bytes[v]
	}
	return c.mk(OConst, w, v)
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (t *Term) IsConst() bool { return t.op == OConst }

func sext(v uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// fold computes an operator on constants.
func fold(op Op, w uint8, val uint64, aw uint8, x, y, z uint64, bw uint8) uint64 {
	m := mask(w)
	switch op {
	case ONot:
		return 1 - x
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OIte:
		if x != 0 {
			return y
		}
		return z
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sext(x, aw) < sext(y, aw))
	case OSle:
		return b2u(sext(x, aw) <= sext(y, aw))
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSrem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OBnot:
		return ^x & m
	case ONeg:
		return -x & m
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	case OZext:
		return x
	case OSext:
		return uint64(sext(x, aw)) & m
	case OExtract:
		return x >> val & m
	case OConcat:
		return (x<<bw | y) & m
	}
	panic("fold")
}

func (c *Ctx) build(op Op, w uint8, val uint64, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if a.op != OConst {
			all = false
		}
	}
	if all {
		var x, y, z uint64
		x = args[0].val
		var bw uint8
		if len(args) > 1 {
			y = args[1].val
			bw = args[1].w
		}
		if len(args) > 2 {
			z = args[2].val
		}
		r := fold(op, w, val, args[0].w, x, y, z, bw)
		if w == 0 {
			return c.Bool(r != 0)
		}
		return c.BV(r, w)
	}
	return c.mk(op, w, val, args...)
}

func (c *Ctx) Not(x *Term) *Term {
	if x.op == OConst {
		return c.Bool(x.val == 0)
	}
	if x.op == ONot {
		return x.a[0]
	}
	return c.mk(ONot, 0, 0, x)
}

func (c *Ctx) And(x, y *Term) *Term {
	if x == y || y == c.True {
		return x
	}
	if x == c.True {
		return y
	}
	if x == c.False || y == c.False || c.Not(x) == y {
		return c.False
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OAnd, 0, 0, x, y)
}

func (c *Ctx) Or(x, y *Term) *Term {
	if x == y || y == c.False {
		return x
	}
	if x == c.False {
		return y
	}
	if x == c.True || y == c.True || c.Not(x) == y {
		return c.True
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OOr, 0, 0, x, y)
}

func (c *Ctx) Ite(b, x, y *Term) *Term {
	if b.op == OConst {
		if b.val != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x == c.True && y == c.False {
			return b
		}
		if x == c.False && y == c.True {
			return c.Not(b)
		}
		if x == c.True {
			return c.Or(b, y)
		}
		if y == c.False {
			return c.And(b, x)
		}
		if x == c.False {
			return c.And(c.Not(b), y)
		}
		if y == c.True {
			return c.Or(c.Not(b), x)
		}
	}
	return c.mk(OIte, x.w, 0, b, x, y)
}

func (c *Ctx) Eq(x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Eq widths %d %d", x.w, y.w))
	}
	if x == y {
		return c.True
	}
	if x.op == OConst && y.op != OConst {
		x, y = y, x
	}
	if y.op == OConst {
		if x.op == OConst {
			return c.Bool(x.val == y.val)
		}
		if x.w == 0 {
			if y.val != 0 {
				return x
			}
			return c.Not(x)
		}
		switch x.op {
		case OZext:
			if y.val > mask(x.a[0].w) {
				return c.False
			}
			return c.Eq(x.a[0], c.BV(y.val, x.a[0].w))
		case OIte:
			if x.a[1].op == OConst && x.a[2].op == OConst {
				e1, e2 := x.a[1].val == y.val, x.a[2].val == y.val
				switch {
				case e1 && e2:
					return c.True
				case e1:
					return x.a[0]
				case e2:
					return c.Not(x.a[0])
				default:
					return c.False
				}
			}
		case OAdd:
			if x.a[1].op == OConst {
				return c.Eq(x.a[0], c.BV(y.val-x.a[1].val, x.w))
			}
		}
		return c.mk(OEq, 0, 0, x, y)
	}
	if x.op == OZext && y.op == OZext && x.a[0].w == y.a[0].w {
		return c.Eq(x.a[0], y.a[0])
	}
	if x.op == OAdd && y.op == OAdd && x.a[1] == y.a[1] {
		return c.Eq(x.a[0], y.a[0])
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OEq, 0, 0, x, y)
}

func (c *Ctx) Ult(x, y *Term) *Term {
	if x == y {
		return c.False
	}
	if y.op == OConst && y.val == 0 {
		return c.False
	}
	if x.op == OZext && y.op == OConst {
		if y.val > mask(x.a[0].w) {
			return c.True
		}
		return c.Ult(x.a[0], c.BV(y.val, x.a[0].w))
	}
	if y.op == OZext && x.op == OConst {
		if x.val >= mask(y.a[0].w) {
			return c.False
		}
		return c.Ult(c.BV(x.val, y.a[0].w), y.a[0])
	}
	if x.op == OZext && y.op == OZext && x.a[0].w == y.a[0].w {
		return c.Ult(x.a[0], y.a[0])
	}
	return c.build(OUlt, 0, 0, x, y)
}

func (c *Ctx) Ule(x, y *Term) *Term { return c.Not(c.Ult(y, x)) }

func nonNeg(t *Term) bool {
	return t.op == OZext || t.op == OConst && sext(t.val, t.w) >= 0
}

func (c *Ctx) Slt(x, y *Term) *Term {
	if x == y {
		return c.False
	}
	if nonNeg(x) && nonNeg(y) {
		return c.Ult(x, y)
	}
	if x.op == OZext && y.op == OConst && !nonNeg(y) {
		return c.False
	}
	if y.op == OZext && x.op == OConst && !nonNeg(x) {
		return c.True
	}
	return c.build(OSlt, 0, 0, x, y)
}

func (c *Ctx) Sle(x, y *Term) *Term { return c.Not(c.Slt(y, x)) }

// Bin builds a bit-vector arithmetic term.
func (c *Ctx) Bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Bin %s widths %d %d", opName[op], x.w, y.w))
	}
	switch op {
	case OAdd:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst {
			if y.val == 0 {
				return x
			}
			if x.op == OAdd && x.a[1].op == OConst {
				return c.Bin(OAdd, x.a[0], c.BV(x.a[1].val+y.val, x.w))
			}
		}
	case OSub:
		if y.op == OConst {
			return c.Bin(OAdd, x, c.BV(-y.val, x.w))
		}
		if x == y {
			return c.BV(0, x.w)
		}
	case OMul:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst {
			if y.val == 0 {
				return y
			}
			if y.val == 1 {
				return x
			}
		}
	case OUdiv, OSdiv:
		if y.op == OConst && y.val == 1 {
			return x
		}
	case OBand:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst {
			if y.val == 0 {
				return y
			}
			if y.val == mask(x.w) {
				return x
			}
			if x.op == OZext && y.val&mask(x.a[0].w) == mask(x.a[0].w) {
				return x
			}
		}
		if x == y {
			return x
		}
	case OBor:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst && y.val == 0 || x == y {
			return x
		}
	case OBxor:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst && y.val == 0 {
			return x
		}
		if x == y {
			return c.BV(0, x.w)
		}
	case OShl, OLshr, OAshr:
		if y.op == OConst && y.val == 0 {
			return x
		}
	}
	return c.build(op, x.w, 0, x, y)
}

func (c *Ctx) Un(op Op, x *Term) *Term { return c.build(op, x.w, 0, x) }

// Zext zero-extends (or returns) x to width w.
func (c *Ctx) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.op == OZext {
		return c.Zext(x.a[0], w)
	}
	return c.build(OZext, w, 0, x)
}

func (c *Ctx) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.op == OZext {
		return c.Zext(x.a[0], w)
	}
	return c.build(OSext, w, 0, x)
}

// Extract takes w bits from bit lo.
func (c *Ctx) Extract(x *Term, lo, w uint8) *Term {
	if lo == 0 && x.w == w {
		return x
	}
	if (x.op == OZext || x.op == OSext) && lo == 0 {
		in := x.a[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return c.Extract(in, 0, w)
		}
		if x.op == OZext {
			return c.Zext(in, w)
		}
		return c.Sext(in, w)
	}
	if x.op == OConcat {
		lw := x.a[1].w
		if lo+w <= lw {
			return c.Extract(x.a[1], lo, w)
		}
		if lo >= lw {
			return c.Extract(x.a[0], lo-lw, w)
		}
	}
	if x.op == OExtract {
		return c.Extract(x.a[0], lo+uint8(x.val), w)
	}
	return c.build(OExtract, w, uint64(lo), x)
}

func (c *Ctx) Concat(x, y *Term) *Term {
	return c.build(OConcat, x.w+y.w, 0, x, y)
}

// InRange is lo <= x <= hi, unsigned.
func (c *Ctx) InRange(x *Term, lo, hi uint64) *Term {
	m := mask(x.w)
	if lo > m {
		return c.False
	}
	if hi > m {
		hi = m
	}
	r := c.True
	if lo == hi {
		return c.Eq(x, c.BV(lo, x.w))
	}
	if lo > 0 {
		r = c.Ule(c.BV(lo, x.w), x)
	}
	if hi < m {
		r = c.And(r, c.Ule(x, c.BV(hi, x.w)))
	}
	return r
}

// eval1 evaluates a single-variable term with that variable set to v.
func (c *Ctx) eval1(t *Term, v uint64) uint64 {
	c.gen++
	return c.ev(t, func(*Term) uint64 { return v })
}

// Eval evaluates a term under an assignment.
func (c *Ctx) Eval(t *Term, f func(*Term) uint64) uint64 {
	c.gen++
	return c.ev(t, f)
}

func (c *Ctx) ev(t *Term, f func(*Term) uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return f(t)
	}
	if t.gen == c.gen {
		return t.ev
	}
	var x, y, z uint64
	x = c.ev(t.a[0], f)
	var bw uint8
	switch t.op {
	case OAnd:
		if x == 0 {
			y = 0
		} else {
			y = c.ev(t.a[1], f)
		}
	case OOr:
		if x != 0 {
			y = 1
		} else {
			y = c.ev(t.a[1], f)
		}
	case OIte:
		if x != 0 {
			y = c.ev(t.a[1], f)
		} else {
			z = c.ev(t.a[2], f)
		}
	default:
		if t.n > 1 {
			y = c.ev(t.a[1], f)
			bw = t.a[1].w
		}
	}
	r := fold(t.op, t.w, t.val, t.a[0].w, x, y, z, bw)
	t.gen = c.gen
	t.ev = r
	return r
}

// collectVars adds the free variables of t to m.
func collectVars(t *Term, seen map[*Term]bool, out *[]*Term) {
	if t.op == OConst || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		*out = append(*out, t)
		return
	}
	if !t.multi && t.v1 != nil {
		if !seen[t.v1] {
			seen[t.v1] = true
			*out = append(*out, t.v1)
		}
		return
	}
	for i := 0; i < int(t.n); i++ {
		collectVars(t.a[i], seen, out)
	}
}

func bvLit(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// smtEmit writes definitions for the shared nodes of ts and returns the expression of each.
func smtEmit(sb *strings.Builder, ts []*Term) []string {
	refs := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OConst || t.op == OVar {
			if t.op == OVar && refs[t] == 0 {
				order = append(order, t)
			}
			refs[t]++
			return
		}
		refs[t]++
		if refs[t] > 1 {
			return
		}
		for i := 0; i < int(t.n); i++ {
			walk(t.a[i])
		}
		order = append(order, t)
	}
	for _, t := range ts {
		walk(t)
	}
	names := map[*Term]string{}
	var expr func(t *Term) string
	expr = func(t *Term) string {
		if t.op == OConst {
			return bvLit(t.val, t.w)
		}
		if s, ok := names[t]; ok {
			return s
		}
		var b strings.Builder
		switch t.op {
		case OZext:
			fmt.Fprintf(&b, "((_ zero_extend %d) ", t.w-t.a[0].w)
		case OSext:
			fmt.Fprintf(&b, "((_ sign_extend %d) ", t.w-t.a[0].w)
		case OExtract:
			fmt.Fprintf(&b, "((_ extract %d %d) ", int(t.val)+int(t.w)-1, t.val)
		default:
			b.WriteString("(" + opName[t.op] + " ")
		}
		for i := 0; i < int(t.n); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(expr(t.a[i]))
		}
		b.WriteByte(')')
		return b.String()
	}
	for _, t := range order {
		if t.op == OVar {
			names[t] = t.name
			fmt.Fprintf(sb, "(declare-const %s %s)\n", t.name, sortStr(t.w))
			continue
		}
		if refs[t] > 1 {
			s := expr(t)
			n := fmt.Sprintf("t%d", t.id)
			fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", n, sortStr(t.w), s)
			names[t] = n
		}
	}
	out := make([]string, len(ts))
	for i, t := range ts {
		out[i] = expr(t)
	}
	return out
}

// Dom is the exact set of values a variable may still take, as far as
// single-variable constraints go (values lo..lo+255).
type Dom struct {
	lo  uint64
	set [4]uint64
}

func (d *Dom) has(i int) bool { return d.set[i>>6]>>(uint(i)&63)&1 != 0 }
func (d *Dom) put(i int)      { d.set[i>>6] |= 1 << (uint(i) & 63) }
func (d *Dom) count() int {
	n := 0
	for _, x := range d.set {
		n += bits.OnesCount64(x)
	}
	return n
}

// smt states that v lies in the set.
func (d *Dom) smt(v *Term) string {
	var sb strings.Builder
	sb.WriteString("(or false")
	for i := 0; i < 256; i++ {
		if !d.has(i) {
			continue
		}
		j := i
		for j < 255 && d.has(j+1) {
			j++
		}
		lo, hi := (d.lo+uint64(i))&mask(v.w), (d.lo+uint64(j))&mask(v.w)
		if lo <= hi {
			fmt.Fprintf(&sb, " (and (bvuge %s %s) (bvule %s %s))", v.name, bvLit(lo, v.w), v.name, bvLit(hi, v.w))
		} else { // from below zero to above it
			fmt.Fprintf(&sb, " (bvuge %s %s) (bvule %s %s)", v.name, bvLit(lo, v.w), v.name, bvLit(hi, v.w))
		}
		i = j
	}
	sb.WriteString(")")
	return sb.String()
}

func (d *Dom) empty() bool { return d.set == [4]uint64{} }
func (d *Dom) values(w uint8) []uint64 {
	var r []uint64
	for i := 0; i < 256; i++ {
		if d.has(i) {
			r = append(r, (d.lo+uint64(i))&mask(w))
		}
	}
	return r
}

// term is the domain as a constraint on v.
func (d *Dom) term(c *Ctx, v *Term) *Term {
	r := c.False
	i := 0
	for i < 256 {
		if !d.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && d.has(j+1) {
			j++
		}
		lo, hi := (d.lo+uint64(i))&mask(v.w), (d.lo+uint64(j))&mask(v.w)
		if lo <= hi {
			r = c.Or(r, c.InRange(v, lo, hi))
		} else { // wraps
			r = c.Or(r, c.Or(c.InRange(v, lo, mask(v.w)), c.InRange(v, 0, hi)))
		}
		i = j + 1
	}
	return r
}

// String writes the term for debugging.
func (t *Term) String() string {
	var sb strings.Builder
	return smtEmit(&sb, []*Term{t})[0] + " where " + sb.String()
}
