package main

import (
	"math/big"
)

// Contracts of the Pallas group (directive "use pgrp", with pfe): coordinates
// are uninterpreted functions of the discrete logarithm.  What they stand for
// is proved by the P03 formula harnesses (VH_Group*).  "use pmul" adds the
// scalar multiplication, which VH_GroupScalarMul proves over these.

var pjac *jacGroup

// pInt: the value of four words, with a common condition pulled out.
func pInt(v Val) *Term {
	g := v.(*Agg)
	var w []*Term
	for i := len(g.els) - 1; i >= 0; i-- {
		w = append(w, g.els[i].(*Term))
	}
	return concatIte(w, 6)
}

func concatIte(w []*Term, depth int) *Term {
	var c *Term
	for _, x := range w {
		if x.op == OIte && depth > 0 {
			c = x.a[0]
			break
		}
	}
	if c == nil {
		return MkBV2U(MkConcat(w...))
	}
	arm := func(k int) *Term {
		var r []*Term
		for _, x := range w {
			if x.op == OIte && x.a[0] == c {
				x = x.a[k]
			}
			r = append(r, x)
		}
		return concatIte(r, depth-1)
	}
	return MkIte(c, arm(1), arm(2))
}

// pStrip: the field element behind a Montgomery representative.
func pStrip(x *Term) *Term {
	if x.op == OIte {
		return MkIte(x.a[0], pStrip(x.a[1]), pStrip(x.a[2]))
	}
	f := FFIndex(pallas.p)
	Ri := MkFFC(new(big.Int).ModInverse(new(big.Int).Mod(p2(256), pallas.p), pallas.p), f)
	return MkFF2Int(feMul(ToFF(x, f), Ri))
}

func pAffDlog(x, y *Term) (*Term, bool) {
	g := pallas.grp
	if x.op == OIte || y.op == OIte {
		c := x
		if x.op != OIte {
			c = y
		}
		cond := c.a[0]
		arm := func(t *Term, i int) *Term {
			if t.op == OIte && t.a[0] == cond {
				return t.a[i]
			}
			return t
		}
		a, ok := pAffDlog(arm(x, 1), arm(y, 1))
		if !ok {
			return nil, false
		}
		b, ok := pAffDlog(arm(x, 2), arm(y, 2))
		if !ok {
			return nil, false
		}
		return MkIte(cond, a, b), true
	}
	x, y = pStrip(x), pStrip(y)
	if x.IsConst() && y.IsConst() {
		if x.k.Sign() == 0 && y.k.Sign() == 0 {
			return MkFFC(bigZero, g.F), true
		}
		if x.k.Cmp(pallas.gx) == 0 && y.k.Cmp(pallas.gy) == 0 {
			return MkFFC(bigOne, g.F), true
		}
		return nil, false
	}
	gg, c := groupCoord(x)
	if gg != g || c != "X" {
		return nil, false
	}
	f := FFIndex(pallas.p)
	for _, k := range []*Term{x.a[0], MkNeg(x.a[0])} {
		if ToFF(g.Y(k), f) == ToFF(y, f) {
			return k, true
		}
	}
	return nil, false
}

func pJacDlog(x, y, z *Term, depth int) (*Term, bool) {
	g := pallas.grp
	if z.IsConst() && z.k.Sign() == 0 {
		return MkFFC(bigZero, g.F), true
	}
	if z.IsConst() && z.k.Cmp(new(big.Int).Mod(p2(256), pallas.p)) == 0 {
		return pAffDlog(x, y)
	}
	if x.op == OUF && x.name == pjac.name+".jx" {
		k := x.a[0]
		c := pjac.coords(k)
		if c[2] != z {
			return nil, false
		}
		if c[1] == y {
			return k, true
		}
		f := FFIndex(pallas.p)
		if feNeg(ToFF(y, f)) == ToFF(c[1], f) {
			return MkNeg(k), true
		}
		return nil, false
	}
	if depth > 0 && z.op == OIte {
		cond := z.a[0]
		arm := func(t *Term, i int) *Term {
			if t.op == OIte && t.a[0] == cond {
				return t.a[i]
			}
			return t
		}
		a, ok := pJacDlog(arm(x, 1), arm(y, 1), z.a[1], depth-1)
		if !ok {
			return nil, false
		}
		b, ok := pJacDlog(arm(x, 2), arm(y, 2), z.a[2], depth-1)
		if !ok {
			return nil, false
		}
		return MkIte(cond, a, b), true
	}
	return nil, false
}

func intWords(x *Term) *Agg { return wordAgg(MkInt2BV(x, 256)) }

func initPastaGroup() {
	pjac = &jacGroup{pallas, "pallas.J"}
	for _, s := range []string{".jx", ".jy", ".jz"} {
		ufRange[pjac.name+s] = [2]*big.Int{bigZero, new(big.Int).Sub(pallas.p, bigOne)}
	}
	g := pallas.grp
	f := FFIndex(pallas.p)
	R := MkFFC(new(big.Int).Mod(p2(256), pallas.p), f)
	zero := MkFFC(bigZero, g.F)
	flag := func(t *Term) *Term { return MkIte(t, MkBV(1, 64), MkBV(0, 64)) }
	jget := func(c *CallCtx, i int) *Term {
		a := c.args[i].(*Agg)
		k, ok := pJacDlog(pInt(a.els[0]), pInt(a.els[1]), pInt(a.els[2]), 6)
		if !ok {
			panic(unsup("coordinates of an unknown Pallas point"))
		}
		return k
	}
	jset := func(c *CallCtx, st *State, k *Term) {
		t := &Agg{}
		if k == zero {
			t.els = []Val{intWords(MkIntC(bigZero)), ffWords(R), intWords(MkIntC(bigZero))}
		} else {
			for _, x := range pjac.coords(k) {
				t.els = append(t.els, intWords(x))
			}
		}
		st.store(c.args[0].(*Ptr), t)
	}
	jout := func(c *CallCtx, k *Term) []Out { jset(c, c.st, k); return c.ret(nil) }
	// affine: k, known
	aget := func(c *CallCtx, i int) (k, x, y *Term, ok bool) {
		a := c.args[i].(*Agg)
		x, y = pInt(a.els[0]), pInt(a.els[1])
		k, ok = pAffDlog(x, y)
		return
	}
	pre := repoPath + "/pasta."
	add := func(n string, fn Intr) { addGroup("pgrp", pre+n, fn) }
	add("GroupDbl", func(c *CallCtx) []Out { k := jget(c, 1); return jout(c, MkAdd(k, k)) })
	add("GroupAdd", func(c *CallCtx) []Out { return jout(c, MkAdd(jget(c, 1), jget(c, 2))) })
	add("GroupNegate", func(c *CallCtx) []Out { return jout(c, MkNeg(jget(c, 1))) })
	add("IsZero", func(c *CallCtx) []Out { return c.ret(flag(MkEq(jget(c, 0), zero))) })
	add("AffineIsZero", func(c *CallCtx) []Out {
		k, x, y, ok := aget(c, 0)
		if ok {
			return c.ret(flag(MkEq(k, zero)))
		}
		return c.ret(flag(MkAnd(MkEq(x, MkIntC(bigZero)), MkEq(y, MkIntC(bigZero)))))
	})
	add("AffineIsOnCurve", func(c *CallCtx) []Out {
		_, x, y, ok := aget(c, 0)
		if ok {
			return c.ret(tTrue)
		}
		x, y = pStrip(x), pStrip(y)
		z := MkIntC(bigZero)
		return c.ret(MkOr(MkAnd(MkEq(x, z), MkEq(y, z)), onCurve(pallas, x, y)))
	})
	nPt := 0
	add("AffineToGroup", func(c *CallCtx) []Out {
		k, x, y, ok := aget(c, 1)
		if !ok {
			// every point of the curve is a multiple of the base point
			x, y = pStrip(x), pStrip(y)
			c.ex.assert(c.st, onCurve(pallas, x, y), "arithmetic on curve points only")
			nPt++
			k = MkUF("pallas.log", FFS(g.F), x, y)
			c.ex.addPC(c.st, MkNot(MkEq(k, zero)))
			c.ex.addPC(c.st, MkEq(g.X(k), x))
			c.ex.addPC(c.st, MkEq(g.Y(k), y))
		}
		return jout(c, k)
	})
	add("AffineFromGroup", func(c *CallCtx) []Out {
		k := jget(c, 1)
		z, nz := c.ex.branch(c.st, MkEq(k, zero))
		var outs []Out
		if nz != nil {
			nz.store(c.args[0].(*Ptr), &Agg{[]Val{ffWords(feMul(ToFF(g.X(k), f), R)), ffWords(feMul(ToFF(g.Y(k), f), R))}})
			outs = append(outs, Out{kind: ORet, st: nz})
		}
		if z != nil {
			o := intWords(MkIntC(bigZero))
			z.store(c.args[0].(*Ptr), &Agg{[]Val{o, o}})
			outs = append(outs, Out{kind: ORet, st: z})
		}
		return outs
	})
	add("FiatPastaFpSqrt", func(c *CallCtx) []Out {
		v := feMul(ToFF(MkBV2U(c.pWords(c.args[1])), f), MkFFC(new(big.Int).ModInverse(R.k, pallas.p), f))
		return modSqrt(c, v, func(st *State, r *Term) []Out {
			st.store(c.args[0].(*Ptr), ffWords(feMul(r, R)))
			return one(st, tTrue)
		}, func(st *State) []Out { return one(st, tFalse) })
	})
	addGroup("pmul", pre+"GroupScalarMul", func(c *CallCtx) []Out {
		Rq := new(big.Int).Mod(p2(256), pallas.n)
		u := MkBV2U(c.pWords(c.args[1]))
		if _, hi := IntRange(u); hi == nil || hi.Cmp(pallas.n) >= 0 {
			c.ex.assert(c.st, MkILt(u, MkIntC(pallas.n)), "Pasta arithmetic on canonical operands")
		}
		s := feMul(ToFF(u, g.F), MkFFC(new(big.Int).ModInverse(Rq, pallas.n), g.F))
		return jout(c, MkMul(jget(c, 2), s))
	})
}
