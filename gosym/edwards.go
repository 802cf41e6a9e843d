package main

// Contracts of the edwards25519 package, in two layers.
// fe: a FieldElement is its value in GF(2^255-19), kept as a fraction so that
//     FeInvert stays exact (inverse of zero is zero; FeInvert forks on it).
// edgroup: points are known by their discrete logarithm to the base B; affine
//     coordinates are uninterpreted functions of it, projective results carry
//     an arbitrary non-zero Z.

import (
	"fmt"
	"math/big"
	"os"
	"sort"
)

var (
	edP    = new(big.Int).Sub(pow2(255), big.NewInt(19))
	edN    = new(big.Int).Add(pow2(252), decBig("27742317777372353535851937790883648493"))
	edD    *big.Int
	edGrp  *Group
	edF    int // field of coordinates
	edLimb [10]uint
)

func decBig(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }

// ---------------------------------------------------------------- fractions
type frac struct {
	n *Term
	d []*Term // monic, known to be non-zero
}

var fracs = map[*Term]*frac{}

func fracOf(t *Term) *frac {
	if f := fracs[t]; f != nil {
		return f
	}
	return &frac{n: t}
}

// ffFactors splits t into a scalar and monic factors.
func ffFactors(t *Term) (*big.Int, []*Term) {
	k := big.NewInt(1)
	p := t.sort.Prime()
	if t.IsConst() {
		return t.k, nil
	}
	var fs []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		switch {
		case t.op == OMul:
			for _, x := range t.a {
				walk(x)
			}
		case t.op == OLin:
			c := t.coef[0]
			if c.Cmp(bigOne) != 0 {
				k = new(big.Int).Mul(k, c)
				k.Mod(k, p)
				t = ffMonic(t)
				if t.op != OLin {
					walk(t)
					return
				}
			}
			fs = append(fs, t)
		default:
			fs = append(fs, t)
		}
	}
	walk(t)
	return k, fs
}

func mkFrac(n *Term, d []*Term) *Term {
	if n.IsConst() && n.k.Sign() == 0 || len(d) == 0 {
		return n
	}
	k, fs := ffFactors(n)
	var rest []*Term
	hit := false
	for _, x := range d {
		at := -1
		for i, y := range fs {
			if y == x {
				at = i
				break
			}
		}
		if at >= 0 {
			fs = append(append([]*Term{}, fs[:at]...), fs[at+1:]...)
			hit = true
		} else {
			rest = append(rest, x)
		}
	}
	if hit {
		n = MkFFC(k, n.sort.W)
		for _, f := range fs {
			n = MkMul(n, f)
		}
	}
	if len(rest) == 0 {
		return n
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
	t := n
	for _, x := range rest {
		t = MkMul(t, MkFFInv(x))
	}
	if t.IsConst() {
		return t
	}
	if fracs[t] == nil {
		fracs[t] = &frac{n, rest}
	}
	return t
}

// sqWitness: elements whose squares the model knows to be squares.
var sqWitness []*Term

// fepow: products of powers of one element stay powers (exponent chains).
var powMode bool

type powRec struct {
	base *Term
	e, c *big.Int // c * base^e
}

var (
	pows  = map[*Term]powRec{}
	powNZ = map[*Term]bool{} // elements known to be non-zero
)

func powTerm(b *Term, e *big.Int) *Term {
	if e.Cmp(bigOne) == 0 {
		return b
	}
	if powNZ[b] {
		m := new(big.Int).Sub(b.sort.Prime(), bigOne)
		if e.Cmp(m) >= 0 {
			return powTerm(b, new(big.Int).Mod(e, m))
		}
		if e.Sign() == 0 {
			return MkFFC(bigOne, b.sort.W)
		}
	}
	if liftDbg {
		fmt.Printf("POW %s base %.400s\n", e, b)
	}
	t := MkVar(fmt.Sprintf("pow!%d!%s", b.id, e), b.sort)
	pows[t] = powRec{b, e, bigOne}
	return t
}

func powOf(t *Term) powRec {
	if r, ok := pows[t]; ok {
		return r
	}
	if t.IsConst() {
		return powRec{nil, bigZero, t.k}
	}
	if t.op == OLin && len(t.a) == 1 && t.k.Sign() == 0 {
		r := powOf(t.a[0])
		return powRec{r.base, r.e, new(big.Int).Mul(r.c, t.coef[0])}
	}
	return powRec{t, bigOne, bigOne}
}

func feMulP(a, b *Term) *Term {
	if !powMode {
		return feMul(a, b)
	}
	x, y := powOf(a), powOf(b)
	c := new(big.Int).Mul(x.c, y.c)
	if x.base == nil {
		x.base = y.base
	}
	if x.base == nil {
		return MkFFC(c, a.sort.W)
	}
	if y.base != nil && x.base != y.base {
		panic(unsup("product of powers of different elements"))
	}
	return MkScale(powTerm(x.base, new(big.Int).Add(x.e, y.e)), c)
}

func feMul(a, b *Term) *Term {
	x, y := fracOf(a), fracOf(b)
	n := MkMul(x.n, y.n)
	d := append(append([]*Term{}, x.d...), y.d...)
	if len(rootSq) > 0 && !n.IsConst() {
		// r*r is c/z for the root r of the square-root contract
		k, fs := ffFactors(n)
		at := map[*Term]int{}
		for i, f := range fs {
			sq, ok := rootSq[f]
			if !ok {
				continue
			}
			j, dup := at[f]
			if !dup {
				at[f] = i
				continue
			}
			rest := MkScale(MkFFC(k, n.sort.W), sq.c)
			for m, g := range fs {
				if m != i && m != j {
					rest = MkMul(rest, g)
				}
			}
			kz, fz := ffFactors(sq.z)
			rest = MkScale(rest, new(big.Int).ModInverse(kz, edP))
			return feMul(mkFrac(rest, append(d, fz...)), MkFFC(bigOne, n.sort.W))
		}
	}
	return mkFrac(n, d)
}

// rootSq: r*r = c/z with z known to be non-zero.
var rootSq = map[*Term]struct {
	z *Term
	c *big.Int
}{}

// fePoly multiplies out linear forms (used when denominators differ).
func fePoly(a, b *Term) *Term {
	if a.op != OLin {
		a, b = b, a
	}
	if a.op != OLin {
		return MkMul(a, b)
	}
	l := newLin(a.sort)
	l.add(b, a.k)
	for i, x := range a.a {
		l.add(fePoly(x, b), a.coef[i])
	}
	return l.done()
}

func feAdd(a, b *Term) *Term {
	x, y := fracOf(a), fracOf(b)
	if len(x.d) == 0 && len(y.d) == 0 {
		return MkAdd(a, b)
	}
	d := append([]*Term{}, x.d...)
	xn, yn := x.n, y.n
	used := make([]bool, len(x.d))
	for _, f := range y.d {
		found := false
		for i, g := range x.d {
			if g == f && !used[i] {
				used[i], found = true, true
				break
			}
		}
		if !found {
			d = append(d, f)
			xn = fePoly(xn, f)
		}
	}
	for i, g := range x.d {
		if !used[i] {
			yn = fePoly(yn, g)
		}
	}
	return mkFrac(MkAdd(xn, yn), d)
}

func feNeg(a *Term) *Term { x := fracOf(a); return mkFrac(MkNeg(x.n), x.d) }

func feZeroTerm(a *Term) *Term {
	n := fracOf(a).n
	if n.IsConst() {
		return MkBool(n.k.Sign() == 0)
	}
	_, fs := ffFactors(n)
	z := tFalse
	for _, f := range fs {
		if r, ok := pows[f]; ok && powNZ[r.base] {
			continue
		}
		z = MkOr(z, MkEq(f, MkFFC(bigZero, f.sort.W)))
	}
	return z
}

// feInv forks on zero.
func (c *CallCtx) feInv(st *State, a *Term, then func(st *State, inv *Term) []Out) []Out {
	var outs []Out
	z, nz := c.ex.branch(st, feZeroTerm(a))
	if nz != nil {
		x := fracOf(a)
		n := MkFFC(bigOne, a.sort.W)
		for _, f := range x.d {
			n = fePoly(n, f)
		}
		k, fs := ffFactors(x.n)
		n = MkScale(n, new(big.Int).ModInverse(k, a.sort.Prime()))
		outs = append(outs, then(nz, mkFrac(n, fs))...)
	}
	if z != nil {
		outs = append(outs, then(z, MkFFC(bigZero, a.sort.W))...)
	}
	return outs
}

// ---------------------------------------------------------------- memory
func feVal(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Agg:
		if len(x.els) != 10 {
			break
		}
		s := new(big.Int)
		for i, e := range x.els {
			t, ok := e.(*Term)
			if !ok || !t.IsConst() {
				panic(unsup("limbs of a field element"))
			}
			s.Add(s, new(big.Int).Lsh(t.SignedBig(), edLimb[i]))
		}
		return MkFFC(s, edF)
	}
	panic(unsup("field element %T", v))
}

func (c *CallCtx) fe(i int) *Term { return c.feAt(c.args[i]) }
func (c *CallCtx) feAt(v Val) *Term {
	p, ok := v.(*Ptr)
	if !ok || p.isNil() {
		panic(unsup("field element pointer"))
	}
	return feVal(c.st.load(p))
}
func (c *CallCtx) arr32(i int) []*Term {
	p, ok := c.args[i].(*Ptr)
	if !ok || p.isNil() {
		panic(unsup("byte array"))
	}
	return c.words(p)
}

func leBytes(t *Term, n int) []*Term {
	b := beBytes(t, n)
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}
func rev(b []*Term) []*Term {
	o := make([]*Term, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}
func concatLE(b []*Term) *Term { return MkConcat(rev(b)...) }

// unBV is the integer behind a bit-vector that encodes one.
func unBV(w *Term) *Term {
	if w.op == OExtract && w.j == 0 && w.a[0].op == OInt2BV {
		t := w.a[0].a[0]
		lo, hi := IntRange(t)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(w.sort.W)) < 0 {
			return t
		}
	}
	if w.op == OIte {
		return MkIte(w.a[0], unBV(w.a[1]), unBV(w.a[2]))
	}
	return MkBV2U(w)
}

// parity bit of a value in 0..p-1
func parity(t *Term) *Term {
	if t.op == OIte {
		return MkIte(t.a[0], parity(t.a[1]), parity(t.a[2]))
	}
	if t.op == OLin && len(t.a) == 1 && t.coef[0].Cmp(bigM1) == 0 && t.a[0].sort.K == KInt {
		b := MkExtract(MkInt2BV(t.a[0], 256), 0, 0)
		if t.k.Bit(0) == 1 {
			return MkBNot(b)
		}
		return b
	}
	return MkExtract(MkInt2BV(t, 256), 0, 0)
}

// feBytes: the canonical encoding, top bit clear.
func feBytes(t *Term) []*Term {
	w := MkInt2BV(MkFF2Int(t), 256)
	out := make([]*Term, 32)
	for i := range out {
		out[i] = MkExtract(w, 8*i+7, 8*i)
	}
	out[31] = MkConcat(MkBV(0, 1), MkExtract(w, 254, 248))
	return out
}

func edEnc(x, y *Term) []*Term {
	b := feBytes(y)
	b[31] = MkConcat(parity(MkFF2Int(x)), MkExtract(b[31], 6, 0))
	return b
}

func low255(b []*Term) *Term {
	return MkConcat(MkExtract(b[31], 6, 0), concatLE(b[:31]))
}

// ---------------------------------------------------------------- points
func edX(k *Term) *Term {
	if k.IsConst() && k.k.Sign() == 0 {
		return MkFFC(bigZero, edF)
	}
	c, neg := canonSign(k)
	x := ToFF(MkUF("ed.X", IntS, c), edF)
	if neg {
		return MkNeg(x)
	}
	return x
}
func edY(k *Term) *Term {
	if k.IsConst() && k.k.Sign() == 0 {
		return MkFFC(bigOne, edF)
	}
	c, _ := canonSign(k)
	return ToFF(MkUF("ed.Y", IntS, c), edF)
}

// edDlog recovers k from affine coordinates.
func edDlog(x, y *Term) (*Term, bool) {
	if x.IsConst() && y.IsConst() {
		if x.k.Sign() == 0 && y.k.Cmp(bigOne) == 0 {
			return MkFFC(bigZero, edGrp.F), true
		}
		return nil, false
	}
	if y.op != OFFAtom || y.a[0].op != OUF || y.a[0].name != "ed.Y" {
		return nil, false
	}
	k := y.a[0].a[0]
	if edX(k) == x {
		return k, true
	}
	if n := MkNeg(k); edX(n) == x {
		return n, true
	}
	return nil, false
}

type edPt struct{ x, y *Term } // affine

// edPoint reads a point (extended or projective), forking on conditional
// coordinates, and passes its affine form on.
func (c *CallCtx) edPoint(st *State, v Val, ext bool, then func(st *State, p edPt) []Out) []Out {
	ptr, ok := v.(*Ptr)
	if !ok || ptr.isNil() {
		panic(unsup("point pointer"))
	}
	a, ok := st.load(ptr).(*Agg)
	if !ok {
		panic(unsup("point %T", st.load(ptr)))
	}
	co := make([]*Term, len(a.els))
	for i, e := range a.els {
		co[i] = feVal(e)
	}
	return c.edAffine(st, co, ext, then)
}

func (c *CallCtx) edAffine(st *State, co []*Term, ext bool, then func(st *State, p edPt) []Out) []Out {
	for _, t := range co {
		if t.op != OIte {
			continue
		}
		var outs []Out
		cond := t.a[0]
		y, n := c.ex.branch(st, cond)
		for k, s := range []*State{y, n} {
			if s == nil {
				continue
			}
			arm := make([]*Term, len(co))
			for i, u := range co {
				arm[i] = u
				if u.op == OIte && u.a[0] == cond {
					arm[i] = u.a[1+k]
				}
			}
			outs = append(outs, c.edAffine(s, arm, ext, then)...)
		}
		return outs
	}
	return c.feInv(st, co[2], func(st *State, zi *Term) []Out {
		x, y := feMul(co[0], zi), feMul(co[1], zi)
		if ext {
			// X*Y = Z*T, or the formulas that use T go wrong
			if d := MkSub(feMul(x, y), feMul(co[3], zi)); !(d.IsConst() && d.k.Sign() == 0) {
				if d.IsConst() || c.ex.feasible(st, MkNot(feZeroTerm(d))) {
					// an inconsistent point: results are unrelated to x, y
					x = ToFF(MkUF("ed.badx", IntS, MkFF2Int(x), MkFF2Int(y), MkFF2Int(co[3])), edF)
				}
			}
		}
		return then(st, edPt{x, y})
	})
}

func (c *CallCtx) edStore(st *State, dst Val, x, y, z *Term, ext bool) {
	a := &Agg{[]Val{feMul(x, z), feMul(y, z), z}}
	if ext {
		a.els = append(a.els, feMul(feMul(x, y), z))
	}
	st.store(dst.(*Ptr), a)
}

// edPut writes k*B with an arbitrary non-zero Z.
func (c *CallCtx) edPut(st *State, dst Val, k *Term, ext bool) []Out {
	var outs []Out
	put := func(s *State, k *Term) {
		z := ToFF(MkUF("ed.Z", IntS, k), edF)
		c.edStore(s, dst, edX(k), edY(k), z, ext)
		outs = append(outs, Out{kind: ORet, st: s})
	}
	zero, nz := c.ex.branch(st, MkEq(k, MkFFC(bigZero, edGrp.F)))
	if nz != nil {
		put(nz, k)
	}
	if zero != nil {
		put(zero, MkFFC(bigZero, edGrp.F))
	}
	return outs
}

// edPutRaw writes a point about which nothing is known but its arguments.
func (c *CallCtx) edPutRaw(st *State, dst Val, op string, ext bool, args ...*Term) []Out {
	for _, s := range []string{"x", "y"} {
		ufRange["ed.raw"+op+s] = [2]*big.Int{bigZero, new(big.Int).Sub(edP, bigOne)}
	}
	x := ToFF(MkUF("ed.raw"+op+"x", IntS, args...), edF)
	y := ToFF(MkUF("ed.raw"+op+"y", IntS, args...), edF)
	c.edStore(st, dst, x, y, ToFF(MkUF("ed.Zr", IntS, args...), edF), ext)
	return []Out{{kind: ORet, st: st}}
}

func (p edPt) ints() []*Term { return []*Term{MkFF2Int(p.x), MkFF2Int(p.y)} }

// inRange255 forks on the top bit of a little-endian scalar.
func (c *CallCtx) topBit(st *State, b []*Term) (clear, set *State) {
	return c.ex.branch(st, MkEq(MkExtract(b[31], 7, 7), MkBV(0, 1)))
}

// edDecode: the point encoded by b; ok == nil when it does not decode.
func (c *CallCtx) edDecode(st *State, b []*Term, then func(st *State, p *edPt) []Out) []Out {
	sign := MkExtract(b[31], 7, 7)
	if cb, ok := constBytes(b); ok {
		x, y, ok := edDecodeConst(cb)
		if !ok {
			return then(st, nil)
		}
		return then(st, &edPt{MkFFC(x, edF), MkFFC(y, edF)})
	}
	low := low255(b)
	yi := unBV(low)
	if yi.op == OIte {
		var outs []Out
		y, n := c.ex.branch(st, yi.a[0])
		for k, s := range []*State{y, n} {
			if s == nil {
				continue
			}
			bb := append(leBytes(yi.a[1+k], 32)[:31], MkConcat(sign, MkExtract(MkInt2BV(yi.a[1+k], 256), 254, 248)))
			outs = append(outs, c.edDecode(s, bb, then)...)
		}
		return outs
	}
	if yi.op == OUF && yi.name == "ed.Y" {
		k := yi.a[0]
		same := MkEq(sign, parity(MkFF2Int(edX(k))))
		a, n := c.ex.branch(st, same)
		var outs []Out
		if a != nil {
			outs = append(outs, then(a, &edPt{edX(k), edY(k)})...)
		}
		if n != nil {
			m := MkNeg(k)
			outs = append(outs, then(n, &edPt{edX(m), edY(m)})...)
		}
		return outs
	}
	if yi.IsConst() && yi.k.Cmp(bigOne) == 0 {
		return then(st, &edPt{MkFFC(bigZero, edF), MkFFC(bigOne, edF)})
	}
	if debugDlog {
		fmt.Fprintln(os.Stderr, "EDRAW", yi.str(6))
	}
	ok := MkUF("ed.decodes", BoolS, MkBV2U(low))
	ufRange["ed.decx"] = [2]*big.Int{bigZero, new(big.Int).Sub(edP, bigOne)}
	a, n := c.ex.branch(st, ok)
	var outs []Out
	if a != nil {
		x := ToFF(MkUF("ed.decx", IntS, MkBV2U(low), MkBV2U(sign)), edF)
		outs = append(outs, then(a, &edPt{x, ToFF(yi, edF)})...)
	}
	if n != nil {
		outs = append(outs, then(n, nil)...)
	}
	return outs
}

func edDecodeConst(b []byte) (x, y *big.Int, ok bool) {
	p := edP
	y = new(big.Int)
	for i := 31; i >= 0; i-- {
		v := b[i]
		if i == 31 {
			v &= 127
		}
		y.Lsh(y, 8).Add(y, big.NewInt(int64(v)))
	}
	y.Mod(y, p)
	yy := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(yy, bigOne)
	v := new(big.Int).Mul(yy, edD)
	v.Add(v, bigOne)
	v.Mod(v, p)
	if v.Sign() == 0 {
		return nil, nil, false
	}
	u.Mul(u, v.ModInverse(v, p))
	u.Mod(u, p)
	x = new(big.Int).ModSqrt(u, p)
	if x == nil {
		return nil, nil, false
	}
	if x.Bit(0) != uint(b[31]>>7) && x.Sign() != 0 {
		x.Sub(p, x)
	}
	return x, y, true
}

func (c *CallCtx) retErrFalse(st *State) []Out { return []Out{{kind: ORet, st: st, v: tFalse}} }

// edLin: a*P + b*B for integers (as scalars of the group when P is known).
func (c *CallCtx) edLin(st *State, p edPt, a, b *Term, then func(st *State, k *Term, raw []*Term) []Out) []Out {
	if k, ok := edDlog(p.x, p.y); ok {
		return then(st, MkAdd(MkMul(k, ToFF(a, edGrp.F)), ToFF(b, edGrp.F)), nil)
	}
	if p.x.IsConst() && p.y.IsConst() && a.IsConst() && b.IsConst() {
		r := edAddC(edMulC([2]*big.Int{p.x.k, p.y.k}, a.k), edMulC(edBase(), b.k))
		return then(st, nil, []*Term{MkFFC(r[0], edF), MkFFC(r[1], edF)})
	}
	return then(st, nil, append(p.ints(), a, b))
}

func edAddC(p, q [2]*big.Int) [2]*big.Int {
	mul := func(a, b *big.Int) *big.Int { t := new(big.Int).Mul(a, b); return t.Mod(t, edP) }
	t := mul(mul(mul(p[0], q[0]), mul(p[1], q[1])), edD)
	inv := func(a *big.Int) *big.Int { a.Mod(a, edP); return a.ModInverse(a, edP) }
	x := new(big.Int).Add(mul(p[0], q[1]), mul(p[1], q[0]))
	y := new(big.Int).Add(mul(p[1], q[1]), mul(p[0], q[0]))
	return [2]*big.Int{mul(x, inv(new(big.Int).Add(bigOne, t))), mul(y, inv(new(big.Int).Sub(bigOne, t)))}
}
func edMulC(p [2]*big.Int, k *big.Int) [2]*big.Int {
	r := [2]*big.Int{new(big.Int), big.NewInt(1)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = edAddC(r, r)
		if k.Bit(i) == 1 {
			r = edAddC(r, p)
		}
	}
	return r
}
func edBase() [2]*big.Int {
	b := make([]byte, 32)
	for i := range b {
		b[i] = 0x66
	}
	b[0] = 0x58
	x, y, _ := edDecodeConst(b)
	return [2]*big.Int{x, y}
}

func initEdwards() {
	off := []uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}
	copy(edLimb[:], off)
	edF = FFIndex(edP)
	edD = new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), edP))
	edD.Mod(edD, edP)
	edGrp = newGroup("ed25519", edP, edN)
	curveDefs["ed25519"] = &curveDef{key: "ed25519", p: edP, n: edN, grp: edGrp}
	pm1, pm2 := new(big.Int).Sub(edP, bigOne), new(big.Int).Sub(edP, big.NewInt(2))
	// multiples of B other than the identity: x != 0 and y not in {0, 1, -1}
	ufRange["ed.X"] = [2]*big.Int{bigOne, pm1}
	ufRange["ed.Y"] = [2]*big.Int{big.NewInt(2), pm2}
	ufRange["ed.Z"] = [2]*big.Int{bigOne, pm1}
	ufRange["ed.Zr"] = [2]*big.Int{bigOne, pm1}
	ufRange["ed.badx"] = [2]*big.Int{bigZero, pm1}

	const pk = "/eddsa/edwards25519."
	fe := func(name string, f Intr) { addGroup("fe", repoPath+pk+name, f) }
	gr := func(name string, f Intr) { addGroup("edgroup", name, f) }
	set := func(c *CallCtx, i int, t *Term) []Out {
		c.st.store(c.args[i].(*Ptr), t)
		return c.ret(nil)
	}
	fe("FeZero", func(c *CallCtx) []Out { return set(c, 0, MkFFC(bigZero, edF)) })
	fe("FeOne", func(c *CallCtx) []Out { return set(c, 0, MkFFC(bigOne, edF)) })
	fe("FeCopy", func(c *CallCtx) []Out { return set(c, 0, c.fe(1)) })
	fe("FeAdd", func(c *CallCtx) []Out { return set(c, 0, feAdd(c.fe(1), c.fe(2))) })
	fe("FeSub", func(c *CallCtx) []Out { return set(c, 0, feAdd(c.fe(1), feNeg(c.fe(2)))) })
	fe("FeNeg", func(c *CallCtx) []Out { return set(c, 0, feNeg(c.fe(1))) })
	fe("FeMul", func(c *CallCtx) []Out { return set(c, 0, feMulP(c.fe(1), c.fe(2))) })
	fe("FeSquare", func(c *CallCtx) []Out { x := c.fe(1); return set(c, 0, feMulP(x, x)) })
	fe("FeSquare2", func(c *CallCtx) []Out {
		x := c.fe(1)
		x = feMul(x, x)
		return set(c, 0, feAdd(x, x))
	})
	fe("FeInvert", func(c *CallCtx) []Out {
		return c.feInv(c.st, c.fe(1), func(st *State, t *Term) []Out {
			st.store(c.args[0].(*Ptr), t)
			return []Out{{kind: ORet, st: st}}
		})
	})
	// z^((p-5)/8): z times its square is +1 or -1 for squares, a root of -1 otherwise
	fe("fePow22523", func(c *CallCtx) []Out {
		z := c.fe(1)
		zero, nz := c.ex.branch(c.st, feZeroTerm(z))
		var outs []Out
		if zero != nil {
			zero.store(c.args[0].(*Ptr), MkFFC(bigZero, edF))
			outs = append(outs, Out{kind: ORet, st: zero})
		}
		if nz == nil {
			return outs
		}
		im := new(big.Int).ModSqrt(new(big.Int).Sub(edP, bigOne), edP)
		for i, v := range []*big.Int{bigOne, new(big.Int).Sub(edP, bigOne), im, new(big.Int).Sub(edP, im)} {
			r := MkVar(fmt.Sprintf("pow22523!%d!%d", z.id, i), z.sort)
			rootSq[r] = struct {
				z *Term
				c *big.Int
			}{z, v}
			cond := tTrue
			if i >= 2 {
				for _, w := range sqWitness {
					cond = MkAnd(cond, MkNot(MkEq(z, feMul(w, w))))
				}
			}
			st := nz.fork()
			if !c.ex.assume(st, cond) {
				continue
			}
			st.store(c.args[0].(*Ptr), r)
			outs = append(outs, Out{kind: ORet, st: st})
		}
		return outs
	})
	vi("SquareWitness", func(c *CallCtx) []Out {
		sqWitness = append(sqWitness, ToFF(c.big(0), edF))
		return c.ret(nil)
	})
	fe("FeCMove", func(c *CallCtx) []Out {
		return set(c, 0, MkIte(MkEq(c.term(2), MkBV(1, 32)), c.fe(1), c.fe(0)))
	})
	fe("FeFromBytes", func(c *CallCtx) []Out { return set(c, 0, ToFF(unBV(low255(c.arr32(1))), edF)) })
	fe("FeToBytes", func(c *CallCtx) []Out {
		setWords(c.st, c.args[0].(*Ptr), feBytes(c.fe(1)))
		return c.ret(nil)
	})
	fe("FeIsNegative", func(c *CallCtx) []Out { return c.ret(MkZExt(parity(MkFF2Int(c.fe(0))), 8)) })
	fe("FeIsNonZero", func(c *CallCtx) []Out {
		return c.ret(MkIte(feZeroTerm(c.fe(0)), MkBV(0, 32), MkBV(1, 32)))
	})

	// scalars
	red := func(b []*Term) []*Term { return leBytes(MkFF2Int(ToFF(unBV(concatLE(b)), edGrp.F)), 32) }
	sc := func(b []*Term) *Term { return ToFF(unBV(concatLE(b)), edGrp.F) }
	gr(repoPath+pk+"ScReduce", func(c *CallCtx) []Out {
		setWords(c.st, c.args[0].(*Ptr), red(c.arr32(1)))
		return c.ret(nil)
	})
	gr(repoPath+pk+"ScMulAdd", func(c *CallCtx) []Out {
		t := MkAdd(MkMul(sc(c.arr32(1)), sc(c.arr32(2))), sc(c.arr32(3)))
		setWords(c.st, c.args[0].(*Ptr), leBytes(MkFF2Int(t), 32))
		return c.ret(nil)
	})
	gr(repoPath+"/eddsa.x25519_sc_reduce", func(c *CallCtx) []Out {
		b := c.bytes(0)
		if len(b) < 64 {
			return c.panic("slice bounds out of range")
		}
		o := red(b[:64])
		a := &Agg{}
		for _, t := range o {
			a.els = append(a.els, t)
		}
		return c.ret(a)
	})
	// points
	gr(repoPath+pk+"GeScalarMultBase", func(c *CallCtx) []Out {
		b := c.arr32(1)
		ok, bad := c.topBit(c.st, b)
		var outs []Out
		if ok != nil {
			outs = append(outs, c.edPut(ok, c.args[0], sc(b), true)...)
		}
		if bad != nil {
			outs = append(outs, c.edPutRaw(bad, c.args[0], "smb", true, unBV(concatLE(b)))...)
		}
		return outs
	})
	dsm := func(c *CallCtx, st *State, dst Val, p edPt, a []*Term, q *edPt, b []*Term) []Out {
		var outs []Out
		ok := MkEq(MkConcat(MkExtract(a[31], 7, 7), MkExtract(b[31], 7, 7)), MkBV(0, 2))
		good, bad := c.ex.branch(st, ok)
		an, bn := unBV(concatLE(a)), unBV(concatLE(b))
		if bad != nil {
			args := append(p.ints(), an, bn)
			if q != nil {
				args = append(args, q.ints()...)
			}
			outs = append(outs, c.edPutRaw(bad, dst, fmt.Sprintf("big%d", len(args)), false, args...)...)
		}
		if good == nil {
			return outs
		}
		if q != nil {
			k, ok1 := edDlog(p.x, p.y)
			l, ok2 := edDlog(q.x, q.y)
			if ok1 && ok2 {
				return append(outs, c.edPut(good, dst, MkAdd(MkMul(k, ToFF(an, edGrp.F)), MkMul(l, ToFF(bn, edGrp.F))), false)...)
			}
			if p.x.IsConst() && p.y.IsConst() && q.x.IsConst() && q.y.IsConst() && an.IsConst() && bn.IsConst() {
				r := edAddC(edMulC([2]*big.Int{p.x.k, p.y.k}, an.k), edMulC([2]*big.Int{q.x.k, q.y.k}, bn.k))
				x, y := MkFFC(r[0], edF), MkFFC(r[1], edF)
				c.edStore(good, dst, x, y, ToFF(MkUF("ed.Zr", IntS, MkFF2Int(x), MkFF2Int(y)), edF), false)
				return append(outs, Out{kind: ORet, st: good})
			}
			return append(outs, c.edPutRaw(good, dst, "lin2", false, append(append(p.ints(), q.ints()...), an, bn)...)...)
		}
		return append(outs, c.edLin(good, p, an, bn, func(st *State, k *Term, raw []*Term) []Out {
			if k != nil {
				return c.edPut(st, dst, k, false)
			}
			if len(raw) == 2 {
				c.edStore(st, dst, raw[0], raw[1], ToFF(MkUF("ed.Zr", IntS, MkFF2Int(raw[0]), MkFF2Int(raw[1])), edF), false)
				return []Out{{kind: ORet, st: st}}
			}
			return c.edPutRaw(st, dst, "lin", false, raw...)
		})...)
	}
	gr(repoPath+pk+"GeDoubleScalarMultVartime", func(c *CallCtx) []Out {
		a, b := c.arr32(1), c.arr32(3)
		return c.edPoint(c.st, c.args[2], true, func(st *State, p edPt) []Out { return dsm(c, st, c.args[0], p, a, nil, b) })
	})
	gr(repoPath+pk+"GePointAddVarTime", func(c *CallCtx) []Out {
		a, b := c.arr32(1), c.arr32(3)
		return c.edPoint(c.st, c.args[2], true, func(st *State, p edPt) []Out {
			d := *c
			d.st = st
			return d.edPoint(st, c.args[4], true, func(st *State, q edPt) []Out { return dsm(c, st, c.args[0], p, a, &q, b) })
		})
	})
	fromBytes := func(neg bool) Intr {
		return func(c *CallCtx) []Out {
			return c.edDecode(c.st, c.arr32(1), func(st *State, p *edPt) []Out {
				if p == nil {
					return c.retErrFalse(st)
				}
				x := p.x
				if neg {
					x = feNeg(x)
				}
				c.edStore(st, c.args[0], x, p.y, MkFFC(bigOne, edF), true)
				return []Out{{kind: ORet, st: st, v: tTrue}}
			})
		}
	}
	gr("(*"+repoPath+pk+"ExtendedGroupElement).FromBytes", fromBytes(false))
	gr(repoPath+"/eddsa.geFromBytesNegateVartime", fromBytes(true))

	// ---- reference operations for harnesses
	encOuts := func(c *CallCtx, st *State, k *Term) []Out {
		var outs []Out
		z, nz := c.ex.branch(st, MkEq(k, MkFFC(bigZero, edGrp.F)))
		if nz != nil {
			outs = append(outs, Out{kind: ORet, st: nz, v: c.ex.newBytes(nz, edEnc(edX(k), edY(k)))})
		}
		if z != nil {
			k = MkFFC(bigZero, edGrp.F)
			outs = append(outs, Out{kind: ORet, st: z, v: c.ex.newBytes(z, edEnc(edX(k), edY(k)))})
		}
		return outs
	}
	edlogInit()
	for _, n := range []string{"FeMul", "FeSquare", "FeCopy", "FeFromBytes", "FeToBytes"} {
		addGroup("fepow", repoPath+pk+n, groupFns[repoPath+pk+n]["fe"])
	}
	vi("EdPoint", func(c *CallCtx) []Out {
		if dlogMode {
			return c.ret(c.ex.newBytes(c.st, edlBytes(ToFF(c.big(0), edGrp.F))))
		}
		return encOuts(c, c.st, ToFF(c.big(0), edGrp.F))
	})
	vi("EdDecodes", func(c *CallCtx) []Out {
		return c.edDecode(c.st, c.bytes(0), func(st *State, p *edPt) []Out {
			return []Out{{kind: ORet, st: st, v: MkBool(p != nil)}}
		})
	})
	// EdLin(P, neg, a, b): encoding of a*P + b*B (a*(-P) + b*B), nil if P does not decode
	vi("EdLin", func(c *CallCtx) []Out {
		neg := c.term(1) == tTrue
		a, b := c.big(2), c.big(3)
		return c.edDecode(c.st, c.bytes(0), func(st *State, p *edPt) []Out {
			if p == nil {
				return []Out{{kind: ORet, st: st, v: nilSlice}}
			}
			q := *p
			if neg {
				q.x = feNeg(q.x)
			}
			return c.edLin(st, q, a, b, func(st *State, k *Term, raw []*Term) []Out {
				if k != nil {
					return encOuts(c, st, k)
				}
				if len(raw) == 2 {
					return []Out{{kind: ORet, st: st, v: c.ex.newBytes(st, edEnc(raw[0], raw[1]))}}
				}
				for _, s := range []string{"x", "y"} {
					ufRange["ed.rawlin"+s] = [2]*big.Int{bigZero, new(big.Int).Sub(edP, bigOne)}
				}
				x := ToFF(MkUF("ed.rawlinx", IntS, raw...), edF)
				y := ToFF(MkUF("ed.rawliny", IntS, raw...), edF)
				return []Out{{kind: ORet, st: st, v: c.ex.newBytes(st, edEnc(x, y))}}
			})
		})
	})
	// MontU, EdFromMont
	conv := func(num, den func(t *Term) *Term) Intr {
		return func(c *CallCtx) []Out {
			t := ToFF(unBV(low255(c.bytes(0))), edF)
			return c.feInv(c.st, den(t), func(st *State, inv *Term) []Out {
				if inv.IsConst() && inv.k.Sign() == 0 {
					return []Out{{kind: ORet, st: st, v: nilSlice}}
				}
				return []Out{{kind: ORet, st: st, v: c.ex.newBytes(st, feBytes(feMul(num(t), inv)))}}
			})
		}
	}
	one := MkFFC(bigOne, edF)
	vi("MontU", conv(func(t *Term) *Term { return feAdd(one, t) }, func(t *Term) *Term { return feAdd(one, feNeg(t)) }))
	vi("EdFromMont", conv(func(t *Term) *Term { return feAdd(t, MkNeg(one)) }, func(t *Term) *Term { return feAdd(t, one) }))
}
