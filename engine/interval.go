package engine

import (
	"math/big"
	"sort"
)

// interval is the exact set of signed values a wide variable may still take, as
// far as its own comparisons go; with holes it is only an upper bound.
type interval struct {
	lo, hi *big.Int
	holes  bool
}

func bigS(v uint64, w uint8) *big.Int { return big.NewInt(sext(v, w)) }

// linear reads t as s*v+k with s = 1 or -1.
func linear(t *Term) (v *Term, s int64, k *big.Int) {
	switch t.op {
	case OVar:
		return t, 1, big.NewInt(0)
	case OAdd:
		for i := 0; i < 2; i++ {
			if t.a[i].op == OConst {
				if v, s, k := linear(t.a[1-i]); v != nil {
					return v, s, k.Add(k, bigS(t.a[i].val, t.w))
				}
			}
		}
	case OSub:
		if t.a[1].op == OConst {
			if v, s, k := linear(t.a[0]); v != nil {
				return v, s, k.Sub(k, bigS(t.a[1].val, t.w))
			}
		}
		if t.a[0].op == OConst {
			if v, s, k := linear(t.a[1]); v != nil {
				k.Neg(k)
				return v, -s, k.Add(k, bigS(t.a[0].val, t.w))
			}
		}
	case ONeg:
		if v, s, k := linear(t.a[0]); v != nil {
			return v, -s, k.Neg(k)
		}
	}
	return nil, 0, nil
}

// splitWide gives the intervals of v where cond holds and where it does not
// (nil: nowhere). ok is false when this cannot be told.
func (w *Worker) splitWide(cond *Term, v *Term) (t, f *interval, ok bool) {
	iv := w.wide[v]
	if iv == nil {
		return
	}
	if cond.op == ONot {
		f, t, ok = w.splitWide(cond.a[0], v)
		return
	}
	if t, f, ok = w.splitAtom(cond, v, iv); ok {
		return
	}
	return w.splitPieces(cond, v, iv)
}

// splitPieces handles a condition that depends on v through comparisons of v
// with constants only: between two thresholds it is constant.
func (w *Worker) splitPieces(cond *Term, v *Term, iv *interval) (t, f *interval, ok bool) {
	cuts := []*big.Int{iv.lo} // starts of pieces
	seen := map[*Term]bool{}
	one := big.NewInt(1)
	good := true
	var walk func(x *Term)
	walk = func(x *Term) {
		if !good || seen[x] || x.op == OConst {
			return
		}
		seen[x] = true
		if x == v {
			good = false
			return
		}
		if a, b, ok := w.splitAtom(x, v, iv); ok {
			for _, p := range []*interval{a, b} {
				if p == nil {
					continue
				}
				if p.lo.Cmp(iv.lo) > 0 {
					cuts = append(cuts, p.lo)
				}
				if p.hi.Cmp(iv.hi) < 0 {
					cuts = append(cuts, new(big.Int).Add(p.hi, one))
				}
			}
			if x.op == OEq && a != nil && b != nil && b.holes {
				cuts = append(cuts, a.lo, new(big.Int).Add(a.hi, one))
			}
			return
		}
		if x.n == 0 {
			good = false
			return
		}
		switch x.op {
		case OEq, OUlt, OUle, OSlt, OSle:
			// a comparison with a choice is a choice of comparisons
			for i := 0; i < 2; i++ {
				c, k := x.a[i], x.a[1-i]
				if c.op != OIte || k.op != OConst {
					continue
				}
				walk(c.a[0])
				for _, b := range c.a[1:3] {
					l, r := b, k
					if i == 1 {
						l, r = k, b
					}
					walk(w.c.cmp(x.op, l, r))
				}
				return
			}
		}
		for i := 0; i < int(x.n); i++ {
			walk(x.a[i])
		}
	}
	walk(cond)
	if !good || len(cuts) > 400 {
		return
	}
	sort.Slice(cuts, func(i, j int) bool { return cuts[i].Cmp(cuts[j]) < 0 })
	add := func(p *interval, lo, hi *big.Int) *interval {
		if p == nil {
			return &interval{lo, hi, iv.holes}
		}
		if new(big.Int).Add(p.hi, one).Cmp(lo) != 0 {
			p.holes = true
		}
		p.hi = hi
		return p
	}
	for i, lo := range cuts {
		if i > 0 && lo.Cmp(cuts[i-1]) == 0 {
			continue
		}
		hi := iv.hi
		for _, c := range cuts[i+1:] {
			if c.Cmp(lo) > 0 {
				hi = new(big.Int).Sub(c, one)
				break
			}
		}
		x := new(big.Int).And(lo, new(big.Int).SetUint64(mask(v.w))).Uint64()
		if w.c.eval1(cond, x) != 0 {
			t = add(t, lo, hi)
		} else {
			f = add(f, lo, hi)
		}
	}
	return t, f, true
}

func (w *Worker) splitAtom(cond *Term, v *Term, iv *interval) (t, f *interval, ok bool) {
	switch cond.op {
	case OEq, OUlt, OUle, OSlt, OSle:
	default:
		return
	}
	l, r := cond.a[0], cond.a[1]
	swapped := false
	if l.op == OConst {
		l, r, swapped = r, l, true
	}
	if r.op != OConst || l.w != v.w || l.w == 0 {
		return
	}
	vv, s, k := linear(l)
	if vv != v {
		return
	}
	one := big.NewInt(1)
	mod := new(big.Int).Lsh(one, uint(v.w))
	half := new(big.Int).Lsh(one, uint(v.w)-1)
	at := func(x *big.Int) *big.Int {
		y := new(big.Int).Set(x)
		if s < 0 {
			y.Neg(y)
		}
		return y.Add(y, k)
	}
	glo, ghi := at(iv.lo), at(iv.hi)
	if s < 0 {
		glo, ghi = ghi, glo
	}
	// bring the values into the range of the comparison without a wrap
	signed := cond.op == OSlt || cond.op == OSle
	lim0, lim1 := big.NewInt(0), new(big.Int).Sub(mod, one)
	var c *big.Int
	if signed {
		lim0, lim1 = new(big.Int).Neg(half), new(big.Int).Sub(half, one)
		c = bigS(r.val, r.w)
	} else {
		c = new(big.Int).SetUint64(r.val)
	}
	shift := big.NewInt(0)
	fits := false
	for _, d := range []*big.Int{big.NewInt(0), mod, new(big.Int).Neg(mod)} {
		if new(big.Int).Add(glo, d).Cmp(lim0) >= 0 && new(big.Int).Add(ghi, d).Cmp(lim1) <= 0 {
			shift, fits = d, true
			break
		}
	}
	if !fits {
		return
	}
	c = new(big.Int).Sub(c, shift) // compare the unshifted values with this
	// threshold in terms of g: the condition is g <= b, or g >= b
	back := func(lo, hi *big.Int) *interval { // g in [lo,hi] -> v
		if lo.Cmp(glo) < 0 {
			lo = glo
		}
		if hi.Cmp(ghi) > 0 {
			hi = ghi
		}
		if lo.Cmp(hi) > 0 {
			return nil
		}
		a, b := new(big.Int).Sub(lo, k), new(big.Int).Sub(hi, k)
		if s < 0 {
			a, b = new(big.Int).Neg(b), new(big.Int).Neg(a)
		}
		return &interval{a, b, iv.holes}
	}
	below, above := new(big.Int).Sub(c, one), new(big.Int).Add(c, one)
	switch cond.op {
	case OEq:
		t = back(c, c)
		switch {
		case t == nil:
			f = iv
		case glo.Cmp(ghi) == 0:
			f = nil
		case glo.Cmp(c) == 0:
			f = back(above, ghi)
		case ghi.Cmp(c) == 0:
			f = back(glo, below)
		default:
			f = &interval{iv.lo, iv.hi, true}
		}
	case OUlt, OSlt:
		if swapped { // c < g
			t, f = back(above, ghi), back(glo, c)
		} else { // g < c
			t, f = back(glo, below), back(c, ghi)
		}
	default:
		if swapped { // c <= g
			t, f = back(c, ghi), back(glo, below)
		} else { // g <= c
			t, f = back(glo, c), back(above, ghi)
		}
	}
	return t, f, true
}

// value picks a readable value of an interval.
func (iv *interval) value(wd uint8) uint64 {
	for _, x := range []int64{1234567890123456789, 123456789012345678, 12345678901234567, 1234567890123456, 123456789012345, 12345678901234, 1234567890123, 123456789012, 12345678901, 1234567890, 123456789, 12345678, 1234567, 123456, 12345, 1234, 123, 12, 1} {
		for _, y := range []int64{x, -x} {
			b := big.NewInt(y)
			if b.Cmp(iv.lo) >= 0 && b.Cmp(iv.hi) <= 0 {
				return uint64(y) & mask(wd)
			}
		}
	}
	return new(big.Int).And(iv.lo, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))).Uint64() & mask(wd)
}

// cmp builds a comparison.
func (c *Ctx) cmp(op Op, l, r *Term) *Term {
	switch op {
	case OEq:
		return c.Eq(l, r)
	case OUlt:
		return c.Ult(l, r)
	case OUle:
		return c.Not(c.Ult(r, l))
	case OSlt:
		return c.Slt(l, r)
	}
	return c.Not(c.Slt(r, l))
}
