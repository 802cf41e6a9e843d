package main

// Exact translation of machine-word (BV) arithmetic into mathematical integers:
// rep(t) is an Int term congruent to t modulo 2^w; toU/toS make it exact by
// subtracting 2^w * floor(.), where the floor is a constant whenever interval
// analysis shows the word cannot wrap.  Shifts/masks by constants become floor
// divisions, so a carry chain stays a linear form over a few floor atoms.

import (
	"fmt"
	"math/big"
	"os"
)

var liftDbg = os.Getenv("GOSYM_LIFTDBG") != ""

type repInfo struct {
	r *Term
}

// declared bounds of BV variables (from range-nondet intrinsics)
type bnd struct{ lo, hi *big.Int }

var bvBounds = map[int]bnd{}

// facts about Int atoms: list of Int terms known to be 0
var intFacts = map[int][]*Term{}

func rep(t *Term) *Term {
	if t.rep != nil {
		return t.rep.r
	}
	r := rep1(t)
	t.rep = &repInfo{r: r}
	return r
}

func centered(c *big.Int, w int) *big.Int {
	if c.Bit(w-1) == 1 && c.BitLen() <= w {
		return new(big.Int).Sub(c, p2(w))
	}
	return c
}

func rep1(t *Term) *Term {
	w := t.sort.W
	switch t.op {
	case OConst:
		return MkIntC(t.Big())
	case OVar:
		if b, ok := bvBounds[t.id]; ok && b.lo.Sign() < 0 {
			return rawBV2S(t)
		}
		if liftAll && w > 64 && w%8 == 0 {
			return byteSum(t, 0, w/8)
		}
		return rawBV2U(t)
	case OLin:
		l := newLin(IntS)
		l.k.Set(centered(t.k, w))
		for i, x := range t.a {
			l.add(rep(x), centered(t.coef[i], w))
		}
		return shrink(l.done(), w)
	case OMul:
		r := rep(t.a[0])
		for _, x := range t.a[1:] {
			r = MkMul(r, rep(x))
		}
		return r
	case OConcat:
		pos := 0
		l := newLin(IntS)
		for i := len(t.a) - 1; i >= 0; i-- {
			p := t.a[i]
			if i == 0 {
				l.add(rep(p), p2(pos))
			} else {
				l.add(toU(p), p2(pos))
			}
			pos += p.sort.W
		}
		return l.done()
	case OExtract:
		if x := t.a[0]; liftAll && x.op == OVar && x.sort.W > 64 && x.sort.W%8 == 0 {
			if t.j%8 == 0 && w == 8 {
				return rawBV2U(t)
			}
			return MkIDivN(byteSum(x, t.j/8, t.i/8+1), p2(t.j%8))
		}
		return MkIDivN(rep(t.a[0]), p2(t.j))
	case OSExt:
		return toS(t.a[0])
	case OBNot:
		return MkSub(MkInt64(-1), rep(t.a[0]))
	case OIte:
		return MkIte(t.a[0], rep(t.a[1]), rep(t.a[2]))
	case OInt2BV:
		return t.a[0]
	case OBAnd:
		// mask & x where the mask is 0 / all-ones driven by an integer in {0,1}
		if len(t.a) == 2 {
			for n := 0; n < 2; n++ {
				if s, ok := maskBit(t.a[n]); ok {
					return MkMul(s, toU(t.a[1-n]))
				}
			}
		}
	case OBOr:
		if s := disjointSum(t.a); s != nil {
			return s
		}
	}
	return rawBV2U(t)
}

// byteSum: bytes lo..hi-1 of a wide word, as integers (one atom per byte).
func byteSum(x *Term, lo, hi int) *Term {
	l := newLin(IntS)
	for i := lo; i < hi; i++ {
		l.add(rawBV2U(MkExtract(x, 8*i+7, 8*i)), p2(8*(i-lo)))
	}
	return l.done()
}

// disjointSum: the pieces of an OR that occupy different bits add up.
func disjointSum(xs []*Term) *Term {
	sum := toU(xs[0])
	for _, x := range xs[1:] {
		y := toU(x)
		if !belowMultiple(sum, y) && !belowMultiple(y, sum) {
			return nil
		}
		sum = MkAdd(sum, y)
	}
	return sum
}

// belowMultiple: 0 <= a < 2^k and b is a multiple of 2^k, for some k.
func belowMultiple(a, b *Term) bool {
	lo, hi := IntRange(a)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return false
	}
	k := uint(hi.BitLen())
	div := func(c *big.Int) bool { return c.Sign() == 0 || c.TrailingZeroBits() >= k }
	if b.IsConst() {
		return div(b.k)
	}
	if b.op != OLin || !div(b.k) {
		return k == 0
	}
	for _, c := range b.coef {
		if !div(c) {
			return false
		}
	}
	return true
}

// liftAll: machine words always become integers (directive "use lift").
var liftAll bool

// maskBit recognises m whose integer representative is (2^w-1)*s (mod 2^w), i.e. -s, with s in [0,1].
func maskBit(m *Term) (*Term, bool) {
	if m.IsConst() {
		return nil, false
	}
	r := rep(m)
	lo, hi := IntRange(r)
	if lo != nil && hi != nil && lo.Cmp(bigM1) >= 0 && hi.Sign() <= 0 {
		return MkNeg(r), true
	}
	return nil, false
}

// shrink keeps representatives small: a Lin whose range sits in another window of
// 2^w is moved into the canonical one.
func shrink(r *Term, w int) *Term { return r }

// MkIDivN normalises nested floor divisions.
func MkIDivN(a *Term, k *big.Int) *Term {
	if k.Cmp(bigOne) == 0 {
		return a
	}
	if a.op == OIDiv {
		return MkIDivN(a.a[0], new(big.Int).Mul(a.k, k))
	}
	if lo, hi := IntRange(a); lo != nil && hi != nil && lo.Sign() < 0 && hi.Sign() >= 0 {
		// sign indicator: floor(a/k) is the same (-1 or 0) for every k >= max(-lo, hi+1)
		m := maxB(new(big.Int).Neg(lo), new(big.Int).Add(hi, bigOne))
		if k.Cmp(m) >= 0 {
			k = p2(new(big.Int).Sub(m, bigOne).BitLen())
		}
	}
	r := MkIDiv(a, k)
	noteIndicator(r)
	return r
}

// noteIndicator: q = floor((x-1)/2^n) with 0<=x<=2^n lies in {-1,0}; q=-1 iff x=0, so x*q = 0... (x*(q) = 0 when x=0;
// when x>0 q=0).  Record the fact x*q = 0.
func noteIndicator(q *Term) {
	if q.op != OIDiv {
		return
	}
	if _, ok := intFacts[q.id]; ok {
		return
	}
	lo, hi := IntRange(q)
	if lo == nil || hi == nil || lo.Cmp(bigM1) != 0 || hi.Sign() != 0 {
		return
	}
	y := q.a[0]
	ylo, _ := IntRange(y)
	if ylo == nil || ylo.Cmp(bigM1) != 0 {
		return
	}
	// y in [-1, ..): q = -1 iff y = -1, i.e. (y+1)*q = 0
	intFacts[q.id] = []*Term{MkMul(MkAdd(y, MkIntC(bigOne)), q)}
}

func toU(t *Term) *Term {
	w := t.sort.W
	r := rep(t)
	q := MkIDivN(r, p2(w))
	return MkSub(r, MkScale(q, p2(w)))
}

func toS(t *Term) *Term {
	w := t.sort.W
	r := rep(t)
	q := MkIDivN(MkAdd(r, MkIntC(p2(w-1))), p2(w))
	if liftDbg && !q.IsConst() {
		lo, hi := IntRange(r)
		fmt.Printf("WRAP %d %v [%v %v] %.3000s\n", w, t.op, lo, hi, r)
	}
	return MkSub(r, MkScale(q, p2(w)))
}

// linRange refines the naive interval of a linear form by recognising c*(Y - k*floor(Y/k)).
func linRange(t *Term, lo, hi *big.Int, depth int) (*big.Int, *big.Int) {
	if depth > 6 {
		return lo, hi
	}
	for i := len(t.a) - 1; i >= 0; i-- {
		q := t.a[i]
		if q.op != OIDiv {
			continue
		}
		if liftAll {
			// c*(floor(Y/k) - m*floor(Y/(m*k))) lies in [0, c*(m-1)]
			if a, b := pairMod(t, i); a != nil {
				if lo == nil || a.Cmp(lo) > 0 {
					lo = a
				}
				if hi == nil || b.Cmp(hi) < 0 {
					hi = b
				}
				return lo, hi
			}
		}
		c, m := new(big.Int).QuoRem(new(big.Int).Neg(t.coef[i]), q.k, new(big.Int))
		if m.Sign() != 0 || c.Sign() == 0 {
			continue
		}
		// rest = t - c*Y + c*k*q
		l := newLin(IntS)
		l.add(t, bigOne)
		l.add(q.a[0], new(big.Int).Neg(c))
		l.addAtom(q, new(big.Int).Mul(c, q.k))
		rest := l.done()
		n := 0
		if rest.op == OLin {
			n = len(rest.a)
		} else if rest.op != OConst {
			n = 1
		}
		if n >= len(t.a) {
			continue
		}
		rlo, rhi := IntRange(rest)
		if rlo == nil || rhi == nil {
			continue
		}
		ext := new(big.Int).Mul(c, new(big.Int).Sub(q.k, bigOne))
		a, b := new(big.Int).Set(rlo), new(big.Int).Set(rhi)
		if c.Sign() > 0 {
			b.Add(b, ext)
		} else {
			a.Add(a, ext)
		}
		if lo == nil || a.Cmp(lo) > 0 {
			lo = a
		}
		if hi == nil || b.Cmp(hi) < 0 {
			hi = b
		}
		if liftAll && len(t.a) > 8 {
			return lo, hi // one elimination is enough on long sums
		}
	}
	if !liftAll {
		return lo, hi
	}
	// floor(A/k) - floor(B/k) is floor((A-B)/k) or one more
	for i := range t.a {
		qi := t.a[i]
		if qi.op != OIDiv || t.coef[i].Sign() < 0 {
			continue
		}
		for j := range t.a {
			qj := t.a[j]
			if qj.op != OIDiv || t.coef[j].Sign() > 0 {
				continue
			}
			k, fi, fj := qi.k, bigOne, bigOne
			if d := k.Cmp(qj.k); d > 0 {
				fj = new(big.Int).Div(k, qj.k)
			} else if d < 0 {
				k = qj.k
				fi = new(big.Int).Div(k, qi.k)
			}
			if new(big.Int).Mul(fi, qi.k).Cmp(k) != 0 || new(big.Int).Mul(fj, qj.k).Cmp(k) != 0 {
				continue
			}
			c := t.coef[i]
			if m := new(big.Int).Neg(t.coef[j]); m.Cmp(c) < 0 {
				c = m
			}
			dlo, dhi := IntRange(MkSub(MkScale(qi.a[0], fi), MkScale(qj.a[0], fj)))
			if dlo == nil || dhi == nil {
				continue
			}
			l := newLin(IntS)
			l.add(t, bigOne)
			l.addAtom(qi, new(big.Int).Neg(c))
			l.addAtom(qj, c)
			rlo, rhi := IntRange(l.done())
			if rlo == nil || rhi == nil {
				continue
			}
			a := new(big.Int).Add(rlo, new(big.Int).Mul(c, floorDiv(dlo, k)))
			b := new(big.Int).Add(floorDiv(dhi, k), bigOne)
			b.Add(rhi, b.Mul(b, c))
			if lo == nil || a.Cmp(lo) > 0 {
				lo = a
			}
			if hi == nil || b.Cmp(hi) < 0 {
				hi = b
			}
			if len(t.a) > 8 {
				return lo, hi
			}
		}
	}
	return lo, hi
}

func pairMod(t *Term, i int) (*big.Int, *big.Int) {
	q := t.a[i]
	for j, y := range t.a {
		if j == i || y.op != OIDiv || y.a[0] != q.a[0] || y.k.Cmp(q.k) >= 0 {
			continue
		}
		m, r := new(big.Int).QuoRem(q.k, y.k, new(big.Int))
		if r.Sign() != 0 {
			continue
		}
		c, r := new(big.Int).QuoRem(new(big.Int).Neg(t.coef[i]), m, new(big.Int))
		if r.Sign() != 0 || c.Sign() != t.coef[j].Sign() {
			continue
		}
		l := newLin(IntS)
		l.add(t, bigOne)
		l.addAtom(q, new(big.Int).Mul(c, m))
		l.addAtom(y, new(big.Int).Neg(c))
		rlo, rhi := IntRange(l.done())
		if rlo == nil || rhi == nil {
			continue
		}
		ext := new(big.Int).Mul(c, new(big.Int).Sub(m, bigOne))
		a, b := new(big.Int).Set(rlo), new(big.Int).Set(rhi)
		if c.Sign() > 0 {
			b.Add(b, ext)
		} else {
			a.Add(a, ext)
		}
		return a, b
	}
	return nil, nil
}
