package main

import (
	"fmt"
	"math/big"
	"os"
)

// Contracts of the Jacobian point functions: coordinates are uninterpreted
// functions of the discrete logarithm.  What they stand for is proved by the
// formula harnesses (VH_K1AddJacobian and so on).

type jacGroup struct {
	d    *curveDef
	name string
}

func (j *jacGroup) coords(k *Term) [3]*Term {
	if k.IsConst() && k.k.Sign() == 0 {
		return [3]*Term{MkIntC(bigZero), MkIntC(bigZero), MkIntC(bigZero)}
	}
	return [3]*Term{MkUF(j.name+".jx", IntS, k), MkUF(j.name+".jy", IntS, k), MkUF(j.name+".jz", IntS, k)}
}

func (j *jacGroup) dlog(x, y, z *Term, depth int) (*Term, bool) {
	g := j.d.grp
	if z.IsConst() && z.k.Sign() == 0 {
		return MkFFC(bigZero, g.F), true
	}
	if z.IsConst() && z.k.Cmp(bigOne) == 0 {
		if x.IsConst() && y.IsConst() {
			if x.k.Cmp(j.d.gx) == 0 && y.k.Cmp(j.d.gy) == 0 {
				return MkFFC(bigOne, g.F), true
			}
			return nil, false
		}
		return g.Dlog(x, y)
	}
	if x.op == OUF && x.name == j.name+".jx" {
		c := j.coords(x.a[0])
		if c[1] == y && c[2] == z {
			return x.a[0], true
		}
		return nil, false
	}
	if depth > 0 && z.op == OIte {
		c := z.a[0]
		arm := func(t *Term, i int) *Term {
			if t.op == OIte && t.a[0] == c {
				return t.a[i]
			}
			return t
		}
		a, ok := j.dlog(arm(x, 1), arm(y, 1), z.a[1], depth-1)
		if !ok {
			return nil, false
		}
		b, ok := j.dlog(arm(x, 2), arm(y, 2), z.a[2], depth-1)
		if !ok {
			return nil, false
		}
		return MkIte(c, a, b), true
	}
	return nil, false
}

func initJacobian() {
	j := &jacGroup{curveDefs["secp256k1"], "secp256k1.J"}
	zero := func(p *big.Int) [2]*big.Int { return [2]*big.Int{bigZero, new(big.Int).Sub(p, bigOne)} }
	for _, s := range []string{".jx", ".jy", ".jz"} {
		ufRange[j.name+s] = zero(j.d.p)
	}
	get := func(c *CallCtx, i int) *Term {
		k, ok := j.dlog(c.big(i), c.big(i+1), c.big(i+2), 4)
		if !ok {
			if debugDlog {
				fmt.Fprintln(os.Stderr, "JAC", c.big(i).str(5), "\n   ", c.big(i+1).str(5), "\n   ", c.big(i+2).str(5))
			}
			panic(unsup("coordinates of an unknown point"))
		}
		return k
	}
	out := func(c *CallCtx, k *Term) []Out {
		t := &Tuple{}
		for _, x := range j.coords(k) {
			t.els = append(t.els, c.newBig(c.st, x))
		}
		return c.ret(t)
	}
	p := "(*" + repoPath + ".secp256k1Curve)."
	addContract(p+"doubleJacobian", func(c *CallCtx) []Out { k := get(c, 1); return out(c, MkAdd(k, k)) })
	addContract(p+"addJacobian", func(c *CallCtx) []Out { return out(c, MkAdd(get(c, 1), get(c, 4))) })
	addContract(p+"affineFromJacobian", func(c *CallCtx) []Out { return c.point(c.st, j.d.grp, get(c, 1)) })
}
