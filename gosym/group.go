package main

import (
	"math/big"
	"strings"
)

// Abstract prime-order groups.  A point is (X(k), Y(k)) for a discrete log k in
// the scalar field; X, Y are uninterpreted apart from X(-k)=X(k), Y(-k)=P-Y(k),
// X injective up to sign, and (0,0) <-> k=0.
type Group struct {
	Name string
	P, N *big.Int
	F    int // scalar field index
}

var groups = map[string]*Group{}

func groupCoord(t *Term) (*Group, string) {
	if t.op != OUF {
		return nil, ""
	}
	i := strings.LastIndexByte(t.name, '.')
	if i < 0 {
		return nil, ""
	}
	g := groups[t.name[:i]]
	if g == nil {
		return nil, ""
	}
	return g, t.name[i+1:]
}

// canonical sign: among k and -k pick the one with the smaller leading coefficient
func canonSign(k *Term) (*Term, bool) {
	n := MkNeg(k)
	lead := func(t *Term) *big.Int {
		if t.op == OConst {
			return t.k
		}
		if t.op == OLin {
			return t.coef[0]
		}
		return bigOne
	}
	if lead(n).Cmp(lead(k)) < 0 {
		return n, true
	}
	return k, false
}

func (g *Group) X(k *Term) *Term {
	if k.IsConst() && k.k.Sign() == 0 {
		return MkIntC(bigZero)
	}
	c, _ := canonSign(k)
	return MkUF(g.Name+".X", IntS, c)
}
func (g *Group) Y(k *Term) *Term {
	if k.IsConst() && k.k.Sign() == 0 {
		return MkIntC(bigZero)
	}
	c, neg := canonSign(k)
	y := MkUF(g.Name+".Y", IntS, c)
	if neg {
		return MkSub(MkIntC(g.P), y)
	}
	return y
}

// Dlog recovers k from a coordinate pair built by X and Y.
func (g *Group) Dlog(x, y *Term) (*Term, bool) {
	if x.IsConst() && y.IsConst() && x.k.Sign() == 0 && y.k.Sign() == 0 {
		return MkFFC(bigZero, g.F), true
	}
	if x.op == OIte && y.op == OIte && x.a[0] == y.a[0] {
		a, ok := g.Dlog(x.a[1], y.a[1])
		if !ok {
			return nil, false
		}
		b, ok := g.Dlog(x.a[2], y.a[2])
		if !ok {
			return nil, false
		}
		z := MkFFC(bigZero, g.F)
		if a == z && x.a[0] == MkEq(b, z) {
			return b, true
		}
		if b == z && x.a[0] == MkNot(MkEq(a, z)) {
			return a, true
		}
		return MkIte(x.a[0], a, b), true
	}
	gg, c := groupCoord(x)
	if gg != g || c != "X" {
		return nil, false
	}
	k := x.a[0]
	if g.Y(k) == y {
		return k, true
	}
	n := MkNeg(k)
	if g.Y(n) == y {
		return n, true
	}
	return nil, false
}

func newGroup(name string, p, n *big.Int) *Group {
	g := &Group{Name: name, P: p, N: n, F: FFIndex(n)}
	groups[name] = g
	ufRange[name+".X"] = [2]*big.Int{bigZero, new(big.Int).Sub(p, bigOne)}
	ufRange[name+".Y"] = [2]*big.Int{bigZero, new(big.Int).Sub(p, bigOne)}
	return g
}
