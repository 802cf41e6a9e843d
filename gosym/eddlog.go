package main

// Contract groups eddlog and edsel: the point formulas of edwards25519 (shown
// exact over the field by the VH_Ge harnesses) act on discrete logarithms to
// the base B, so that scalar recoding, table lookup and the double-and-add loops
// are executed for real.  Constant table entries are recognised by value.

import (
	"fmt"
	"math/big"
	"strings"
)

var (
	dlogMode bool
	edTable  map[string]*big.Int // field constants of table entries -> multiple
	edEncOf  = map[*Term]*Term{}
)

func edTableInit() {
	edTable = map[string]*big.Int{}
	d2 := new(big.Int).Lsh(edD, 1)
	put := func(p [2]*big.Int, k *big.Int) {
		m := func(v *big.Int) string { return v.Mod(v, edP).String() }
		neg := new(big.Int).Neg(k)
		xy := new(big.Int).Mul(p[0], p[1])
		xy.Mul(xy, d2)
		edTable["s"+m(new(big.Int).Add(p[1], p[0]))] = k
		edTable["s"+m(new(big.Int).Sub(p[1], p[0]))] = neg
		edTable["p"+m(xy)] = k
		edTable["p"+m(new(big.Int).Neg(xy))] = neg
	}
	base := edBasePoint()
	q, k := base, big.NewInt(1)
	for i := 0; i < 32; i++ {
		p, kk := q, new(big.Int).Set(k)
		for j := 0; j < 8; j++ {
			put(p, new(big.Int).Set(kk))
			p, kk = edAddC(p, q), kk.Add(kk, k)
		}
		for j := 0; j < 8; j++ {
			q = edAddC(q, q)
		}
		k = new(big.Int).Lsh(k, 8)
	}
	for j := int64(9); j < 16; j += 2 {
		put(edMulC(base, big.NewInt(j)), big.NewInt(j))
	}
}

func edBasePoint() [2]*big.Int {
	y := new(big.Int).Mul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), edP))
	y.Mod(y, edP)
	b := make([]byte, 32)
	y.FillBytes(b)
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	x, yy, ok := edDecodeConst(b)
	if !ok {
		panic("base point")
	}
	return [2]*big.Int{x, yy}
}

// dl is the logarithm a field slot holds.
func dl(v Val, kind string) *Term {
	switch x := v.(type) {
	case *Term:
		if x.sort == FFS(edGrp.F) {
			return x
		}
	case *Agg:
		if len(x.els) == 10 {
			if edTable == nil {
				edTableInit()
			}
			t := feVal(x)
			if k := edTable[kind+t.k.String()]; k != nil {
				return MkFFC(k, edGrp.F)
			}
			return MkVar("edtab!"+kind+t.k.String(), FFS(edGrp.F))
		}
	}
	panic(unsup("logarithm of %T", v))
}

func (c *CallCtx) agg(i int) *Agg {
	a, ok := c.st.load(c.args[i].(*Ptr)).(*Agg)
	if !ok {
		panic(unsup("point"))
	}
	return a
}

func edlogInit() {
	const pk = "/eddsa/edwards25519."
	in := func(name string, f Intr) { addGroup("eddlog", name, f) }
	fn := func(name string, f Intr) { in(repoPath+pk+name, f) }
	me := func(typ, name string, f Intr) { in("(*"+repoPath+pk+typ+")."+name, f) }
	fill := func(c *CallCtx, i, n int, k *Term) {
		a := &Agg{}
		for j := 0; j < n; j++ {
			a.els = append(a.els, k)
		}
		c.st.store(c.args[i].(*Ptr), a)
	}
	pre := func(c *CallCtx, i int, k *Term) {
		c.st.store(c.args[i].(*Ptr), &Agg{els: []Val{k, MkNeg(k), k}})
	}
	pt := func(c *CallCtx, i int) *Term { return dl(c.agg(i).els[0], "s") }
	zero := MkFFC(bigZero, edGrp.F)
	copyTo := func(n int) Intr {
		return func(c *CallCtx) []Out { fill(c, 1, n, pt(c, 0)); return c.ret(nil) }
	}
	dbl := func(c *CallCtx) []Out { k := pt(c, 0); fill(c, 1, 4, MkAdd(k, k)); return c.ret(nil) }
	me("ProjectiveGroupElement", "Zero", func(c *CallCtx) []Out { fill(c, 0, 3, zero); return c.ret(nil) })
	me("ExtendedGroupElement", "Zero", func(c *CallCtx) []Out { fill(c, 0, 4, zero); return c.ret(nil) })
	me("PreComputedGroupElement", "Zero", func(c *CallCtx) []Out { pre(c, 0, zero); return c.ret(nil) })
	me("ProjectiveGroupElement", "Double", dbl)
	me("ExtendedGroupElement", "Double", dbl)
	me("ExtendedGroupElement", "ToCached", copyTo(4))
	me("ExtendedGroupElement", "ToProjective", copyTo(3))
	me("CompletedGroupElement", "ToProjective", copyTo(3))
	me("CompletedGroupElement", "ToExtended", copyTo(4))
	add := func(sub, mixed bool) Intr {
		return func(c *CallCtx) []Out {
			q := c.agg(2)
			k := dl(q.els[0], "s")
			outs := []Out{{kind: ORet, st: c.st}}
			if mixed {
				ok := MkAnd(MkEq(dl(q.els[1], "s"), MkNeg(k)), MkEq(dl(q.els[2], "p"), k))
				if ok != tTrue {
					outs = c.ex.assert(c.st, ok, "table entry is one point")
				}
			}
			p := pt(c, 1)
			if sub {
				k = MkNeg(k)
			}
			for _, o := range outs {
				if o.kind == ORet {
					a := &Agg{}
					for j := 0; j < 4; j++ {
						a.els = append(a.els, MkAdd(p, k))
					}
					o.st.store(c.args[0].(*Ptr), a)
				}
			}
			return outs
		}
	}
	fn("geAdd", add(false, false))
	fn("geSub", add(true, false))
	fn("geMixedAdd", add(false, true))
	fn("geMixedSub", add(true, true))
	one := func(c *CallCtx, i int, kind string) *Term { return dl(c.st.load(c.args[i].(*Ptr)), kind) }
	set := func(c *CallCtx, k *Term) []Out { c.st.store(c.args[0].(*Ptr), k); return c.ret(nil) }
	fn("FeCopy", func(c *CallCtx) []Out { return set(c, one(c, 1, "s")) })
	fn("FeNeg", func(c *CallCtx) []Out { return set(c, MkNeg(one(c, 1, "p"))) })
	fn("PreComputedGroupElementCMove", func(c *CallCtx) []Out {
		t, u := c.agg(0), c.agg(1)
		cond := MkEq(c.term(2), MkBV(1, 32))
		a := &Agg{}
		for i, kd := range []string{"s", "s", "p"} {
			a.els = append(a.els, MkIte(cond, dl(u.els[i], kd), dl(t.els[i], kd)))
		}
		c.st.store(c.args[0].(*Ptr), a)
		return c.ret(nil)
	})
	enc := func(c *CallCtx) []Out {
		setWords(c.st, c.args[1].(*Ptr), edlBytes(pt(c, 0)))
		return c.ret(nil)
	}
	me("ProjectiveGroupElement", "ToBytes", enc)
	me("ExtendedGroupElement", "ToBytes", enc)
	me("ExtendedGroupElement", "FromBytes", func(c *CallCtx) []Out {
		fill(c, 0, 4, edlOf(c.arr32(1)))
		return c.ret(tTrue)
	})
	vi("EdIs", func(c *CallCtx) []Out {
		if !dlogMode {
			panic(unsup("EdIs"))
		}
		return c.ret(MkEq(edlOf(c.bytes(0)), ToFF(c.big(1), edGrp.F)))
	})
	// one level up: table lookup as a whole
	addGroup("edsel", repoPath+pk+"selectPoint", func(c *CallCtx) []Out {
		pos, b := c.constInt(1), c.term(2)
		outs := c.ex.assert(c.st, MkAnd(MkNot(MkSlt(b, MkBVBig(big.NewInt(-8), 32))), MkNot(MkSlt(MkBV(8, 32), b))), "digit in -8..8")
		k := MkScale(ToFF(toS(b), edGrp.F), p2(8*pos))
		for _, o := range outs {
			if o.kind == ORet {
				o.st.store(c.args[0].(*Ptr), &Agg{els: []Val{k, MkNeg(k), k}})
			}
		}
		return outs
	})
}

// edlOf is the logarithm an encoding stands for.
func edlOf(b []*Term) *Term {
	if cb, ok := constBytes(b); ok {
		for i, j := 0, len(cb)-1; i < j; i, j = i+1, j-1 {
			cb[i], cb[j] = cb[j], cb[i]
		}
		return MkFFC(new(big.Int).SetBytes(cb), edGrp.F)
	}
	k := edEncOf[b[0]]
	if k == nil {
		panic(unsup("decoding of arbitrary bytes"))
	}
	return k
}

func edlBytes(k *Term) []*Term {
	// any injective encoding of the group will do: the residue itself
	b := leBytes(MkFF2Int(k), 32)
	edEncOf[b[0]] = k
	return b
}

var _ = fmt.Sprint
var _ = strings.Join
