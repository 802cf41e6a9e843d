package pasta

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

func vhMulP(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r.Mul(r, x)
	}
	return r.Mod(r, vhp())
}

func vhSubP(a, b *big.Int) *big.Int {
	r := new(big.Int).Sub(a, b)
	return r.Mod(r, vhp())
}

func vhFld(x *big.Int) Field { return Field(vhMont(x, vhp())) }

func vhGroup(x, y, z *big.Int) Group { return Group{vhFld(x), vhFld(y), vhFld(z)} }

func vhUn(f Field) *big.Int { return vhUnmont(f, vhp()) }

// vhSameJ: g is the point (X/Z^2, Y/Z^3), Z not zero
func vhSameJ(g Group, X, Y, Z *big.Int) bool {
	x, y, z := vhUn(g.X), vhUn(g.Y), vhUn(g.Z)
	return vrt.And(vhMulP(x, Z, Z).Cmp(vhMulP(X, z, z)) == 0, vhMulP(y, Z, Z, Z).Cmp(vhMulP(Y, z, z, z)) == 0)
}

// vhDblJ: tangent formula for a = 0
func vhDblJ(x, y, z *big.Int) (X, Y, Z *big.Int) {
	m := vhMulP(big.NewInt(3), x, x)
	s := vhMulP(big.NewInt(4), x, y, y)
	X = vhSubP(vhMulP(m, m), vhMulP(big.NewInt(2), s))
	Y = vhSubP(vhMulP(m, vhSubP(s, X)), vhMulP(big.NewInt(8), y, y, y, y))
	return X, Y, vhMulP(big.NewInt(2), y, z)
}

func vhJac(n string) (x, y, z *big.Int) {
	p := vhp()
	return vrt.Unit("x"+n, p), vrt.Unit("y"+n, p), vrt.Unit("z"+n, p) // no point has x = 0 or y = 0
}

// points with different x-coordinates: the chord
//
//vrt:prop P03
//vrt:use pfe,pinv
func VH_GroupAdd() {
	x1, y1, z1 := vhJac("1")
	x2, y2, z2 := vhJac("2")
	u1, u2 := vhMulP(x1, z2, z2), vhMulP(x2, z1, z1)
	s1, s2 := vhMulP(y1, z2, z2, z2), vhMulP(y2, z1, z1, z1)
	vrt.Assume(u1.Cmp(u2) != 0)
	h, r := vhSubP(u2, u1), vhSubP(s2, s1)
	Z := vhMulP(h, z1, z2)
	h2, h3 := vhMulP(h, h), vhMulP(h, h, h)
	X := vhSubP(vhSubP(vhMulP(r, r), h3), vhMulP(big.NewInt(2), u1, h2))
	Y := vhSubP(vhMulP(r, vhSubP(vhMulP(u1, h2), X)), vhMulP(s1, h3))
	var g Group
	GroupAdd(&g, vhGroup(x1, y1, z1), vhGroup(x2, y2, z2))
	vrt.Assert(IsZero(g) == 0, "not infinity")
	vrt.Assert(vhSameJ(g, X, Y, Z), "the sum")
}

// equal and opposite points in any two representations, and infinity
//
//vrt:prop P03
//vrt:use pfe,pinv
//vrt:split case 6
func VH_GroupAddSpecial() {
	x, y, z := vhJac("")
	w := vrt.Unit("w", vhp())
	P := vhGroup(x, y, z)
	zero := new(big.Int)
	inf := vhGroup(vrt.Scalar("a", vhp()), vrt.Scalar("b", vhp()), zero)
	var g Group
	switch vrt.Choose("case", 6) {
	case 0: // another representation of P
		GroupAdd(&g, P, vhGroup(vhMulP(x, w, w), vhMulP(y, w, w, w), vhMulP(z, w)))
		X, Y, Z := vhDblJ(x, y, z)
		vrt.Assert(IsZero(g) == 0, "not infinity")
		vrt.Assert(vhSameJ(g, X, Y, Z), "P+P = 2P")
	case 1:
		GroupAdd(&g, P, P)
		X, Y, Z := vhDblJ(x, y, z)
		vrt.Assert(IsZero(g) == 0, "not infinity")
		vrt.Assert(vhSameJ(g, X, Y, Z), "P+P = 2P")
	case 2:
		GroupAdd(&g, P, vhGroup(vhMulP(x, w, w), vhSubP(zero, vhMulP(y, w, w, w)), vhMulP(z, w)))
		vrt.Assert(IsZero(g) == 1, "P-P is infinity")
	case 3:
		GroupAdd(&g, P, inf)
		vrt.Assert(IsZero(g) == 0, "not infinity")
		vrt.Assert(vhSameJ(g, x, y, z), "P+0 = P")
	case 4:
		GroupAdd(&g, inf, P)
		vrt.Assert(IsZero(g) == 0, "not infinity")
		vrt.Assert(vhSameJ(g, x, y, z), "0+P = P")
	default:
		GroupAdd(&g, inf, GroupZero)
		vrt.Assert(IsZero(g) == 1, "0+0 = 0")
	}
}

// doubling, negation, infinity test
//
//vrt:prop P03
//vrt:use pfe,pinv
func VH_GroupDbl() {
	x, y, z := vhJac("")
	P := vhGroup(x, y, z)
	var g Group
	GroupDbl(&g, P)
	X, Y, Z := vhDblJ(x, y, z)
	vrt.Assert(IsZero(g) == 0, "not infinity")
	vrt.Assert(vhSameJ(g, X, Y, Z), "the double")
	GroupNegate(&g, P)
	vrt.Assert(IsZero(g) == 0, "not infinity")
	vrt.Assert(vhSameJ(g, x, vhSubP(new(big.Int), y), z), "the negative")
	inf := vhGroup(vrt.Scalar("a", vhp()), vrt.Scalar("b", vhp()), new(big.Int))
	vrt.Assert(IsZero(inf) == 1, "Z = 0 is infinity")
	GroupDbl(&g, inf)
	vrt.Assert(IsZero(g) == 1, "2*0 = 0")
	GroupNegate(&g, inf)
	vrt.Assert(IsZero(g) == 1, "-0 = 0")
}

// Jacobian and affine coordinates
//
//vrt:prop P03
//vrt:use pfe,pinv
func VH_GroupAffine() {
	x, y, z := vrt.Scalar("x", vhp()), vrt.Scalar("y", vhp()), vrt.Scalar("z", vhp())
	var a, b Affine
	var g Group
	AffineFromGroup(&a, vhGroup(x, y, z))
	if z.Sign() == 0 {
		vrt.Assert(AffineIsZero(a) == 1, "infinity is (0, 0)")
		AffineToGroup(&g, a)
		vrt.Assert(IsZero(g) == 1, "(0, 0) is infinity")
		return
	}
	vrt.Assert(vrt.And(vhMulP(vhUn(a.X), z, z).Cmp(x) == 0, vhMulP(vhUn(a.Y), z, z, z).Cmp(y) == 0), "x/z^2 and y/z^3")
	b = Affine{vhFld(x), vhFld(y)}
	if vrt.And(x.Sign() == 0, y.Sign() == 0) {
		vrt.Assert(AffineIsZero(b) == 1, "(0, 0)")
		return
	}
	vrt.Assert(AffineIsZero(b) == 0, "not (0, 0)")
	AffineToGroup(&g, b)
	vrt.Assert(IsZero(g) == 0, "not infinity")
	vrt.Assert(vhSameJ(g, x, y, big.NewInt(1)), "the same point")
}

// curve equation
//
//vrt:prop P03
//vrt:use pfe,pinv
//vrt:nomerge
func VH_GroupOnCurve() {
	p := vhp()
	x, y, z := vrt.Scalar("x", p), vrt.Scalar("y", p), vrt.Scalar("z", p)
	vrt.Assume(vrt.Or(x.Sign() != 0, y.Sign() != 0))
	vrt.Assert(AffineIsOnCurve(Affine{vhFld(x), vhFld(y)}) == vrt.OnCurve("pallas", x, y), "y^2 = x^3 + 5")
	got := GroupIsOnCurve(vhGroup(x, y, z)) == 1
	if z.Sign() == 0 {
		vrt.Assert(got, "infinity")
		return
	}
	z2 := vhMulP(z, z)
	r := new(big.Int).Add(vhMulP(x, x, x), vhMulP(big.NewInt(5), z2, z2, z2))
	vrt.Assert(got == (vhMulP(y, y).Cmp(r.Mod(r, p)) == 0), "y^2 = x^3 + 5z^6")
}

// affine sum and negative
//
//vrt:prop P03
//vrt:use pfe,pinv
//vrt:split case 5
func VH_AffineAdd() {
	p := vhp()
	x1, y1 := vrt.Unit("x1", p), vrt.Unit("y1", p)
	x2, y2 := vrt.Unit("x2", p), vrt.Unit("y2", p)
	P, Q := Affine{vhFld(x1), vhFld(y1)}, Affine{vhFld(x2), vhFld(y2)}
	var r Affine
	switch vrt.Choose("case", 5) {
	case 0:
		vrt.Assume(x1.Cmp(x2) != 0)
		AffineAdd(&r, P, Q)
		x3, y3 := vhUn(r.X), vhUn(r.Y)
		d, e := vhSubP(x2, x1), vhSubP(y2, y1)
		s := new(big.Int).Add(x1, x2)
		s.Add(s, x3)
		vrt.Assert(vhMulP(s, d, d).Cmp(vhMulP(e, e)) == 0, "x-coordinate of the sum")
		vrt.Assert(vhMulP(d, new(big.Int).Add(y3, y1)).Cmp(vhMulP(e, vhSubP(x1, x3))) == 0, "y-coordinate of the sum")
	case 1:
		AffineAdd(&r, P, P)
		x3, y3 := vhUn(r.X), vhUn(r.Y)
		d, e := vhMulP(big.NewInt(2), y1), vhMulP(big.NewInt(3), x1, x1)
		s := new(big.Int).Add(x1, x1)
		s.Add(s, x3)
		vrt.Assert(vhMulP(s, d, d).Cmp(vhMulP(e, e)) == 0, "x-coordinate of the double")
		vrt.Assert(vhMulP(d, new(big.Int).Add(y3, y1)).Cmp(vhMulP(e, vhSubP(x1, x3))) == 0, "y-coordinate of the double")
	case 2:
		AffineNegate(&Q, P)
		vrt.Assert(vrt.And(vhUn(Q.X).Cmp(x1) == 0, vhUn(Q.Y).Cmp(vhSubP(new(big.Int), y1)) == 0), "the negative")
		AffineAdd(&r, P, Q)
		vrt.Assert(AffineIsZero(r) == 1, "P-P = 0")
	case 3:
		AffineAdd(&r, P, Affine{})
		vrt.Assert(AffineEq(r, P), "P+0 = P")
		AffineAdd(&r, Affine{}, P)
		vrt.Assert(AffineEq(r, P), "0+P = P")
	default:
		vrt.Assert(AffineEq(P, Q) == vrt.And(x1.Cmp(x2) == 0, y1.Cmp(y2) == 0), "equality")
		AffineAdd(&r, Affine{}, Affine{})
		vrt.Assert(AffineIsZero(r) == 1, "0+0 = 0")
	}
}

// the double-and-add loop computes k*P for every k, over the group operations
//
//vrt:prop P03
//vrt:use pfe,pgrp,bits
//vrt:split range 3
func VH_GroupScalarMul() {
	q := vhq()
	// below 2^254, and above (the order is 2^254 + 0x224698fc0994a8dd8c46eb2100000001)
	w := [4]uint64{vrt.U64("k"), 0, 0, 1 << 62}
	switch vrt.Choose("range", 3) {
	case 0:
		w[1], w[2], w[3] = vrt.U64("k"), vrt.U64("k"), vrt.U64("k")>>2
		vrt.Assume(vhVal(w).Sign() != 0)
	case 1:
		w[1] = vrt.U64("k") >> 3
	default:
		w = [4]uint64{}
	}
	a := vrt.Scalar("a", q)
	vrt.Assume(a.Sign() > 0)
	P := vhRef(a)
	var r Affine
	AffineScalarMul(&r, Scalar(vhMont(vhVal(w), q)), P)
	c := new(big.Int).Mul(vhVal(w), a)
	vrt.Assert(AffineEq(r, vhRef(c.Mod(c, q))), "k*P")
}

func vhRef(k *big.Int) Affine {
	b := vrt.RefPoint("pallas", k)
	return Affine{vhFld(new(big.Int).SetBytes(b[:32])), vhFld(new(big.Int).SetBytes(b[32:]))}
}
