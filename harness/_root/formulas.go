package owcrypt

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

func vhMulP(p *big.Int, xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r.Mul(r, x)
	}
	return r.Mod(r, p)
}

func vhSubP(p, a, b *big.Int) *big.Int {
	r := new(big.Int).Sub(a, b)
	return r.Mod(r, p)
}

// vhCoord is any representative of a residue between -p and p.
func vhCoord(name string, p *big.Int) *big.Int {
	x := vrt.Scalar(name, p)
	if vrt.Bool(name + ".neg") {
		x = new(big.Int).Sub(x, p)
	}
	return x
}

// vhBelow: |x| < p
func vhBelow(x, p *big.Int) bool { return vrt.And(x.Cmp(p) < 0, new(big.Int).Neg(x).Cmp(p) < 0) }

func vhSameJ(p, x3, y3, z3, X, Y, Z *big.Int) bool {
	return vrt.And(vhMulP(p, x3, Z, Z).Cmp(vhMulP(p, X, z3, z3)) == 0, vhMulP(p, y3, Z, Z, Z).Cmp(vhMulP(p, Y, z3, z3, z3)) == 0)
}

// secp256k1 Jacobian addition of points with different x-coordinates: the chord
// through both, for any representatives.
//
//vrt:prop E08
func VH_K1AddJacobian() {
	p := vrt.FieldOf("secp256k1")
	x1, y1, z1 := vhCoord("x1", p), vhCoord("y1", p), vrt.Scalar("z1", p)
	x2, y2, z2 := vhCoord("x2", p), vhCoord("y2", p), vrt.Scalar("z2", p)
	vrt.Assume(vrt.And(z1.Sign() > 0, z2.Sign() > 0))
	u1, u2 := vhMulP(p, x1, z2, z2), vhMulP(p, x2, z1, z1)
	s1, s2 := vhMulP(p, y1, z2, z2, z2), vhMulP(p, y2, z1, z1, z1)
	vrt.Assume(u1.Cmp(u2) != 0)
	// the sum is (r^2-h^3-2u1h^2 : r(u1h^2-X)-s1h^3 : h z1 z2)
	h, r := vhSubP(p, u2, u1), vhSubP(p, s2, s1)
	Z := vhMulP(p, h, z1, z2)
	h2, h3 := vhMulP(p, h, h), vhMulP(p, h, h, h)
	X := vhSubP(p, vhSubP(p, vhMulP(p, r, r), h3), vhMulP(p, big.NewInt(2), u1, h2))
	Y := vhSubP(p, vhMulP(p, r, vhSubP(p, vhMulP(p, u1, h2), X)), vhMulP(p, s1, h3))
	x3, y3, z3 := secp256k1.addJacobian(x1, y1, z1, x2, y2, z2)
	vrt.Assert(vrt.And(z3.Sign() > 0, z3.Cmp(p) < 0), "not the point at infinity")
	vrt.Assert(vhSameJ(p, x3, y3, z3, X, Y, Z), "the sum")
	vrt.Assert(vrt.And(vhBelow(x3, p), vhBelow(y3, p)), "coordinates in range")
}

// Jacobian addition of the same or of opposite points in different representatives,
// and of the point at infinity.
//
//vrt:prop E08
//vrt:split case 4
func VH_K1AddSpecial() {
	p := vrt.FieldOf("secp256k1")
	x, y, z := vhCoord("x", p), vhCoord("y", p), vrt.Scalar("z", p)
	w := vrt.Scalar("w", p)
	vrt.Assume(vrt.And(z.Sign() > 0, w.Sign() > 0, vhMulP(p, y).Sign() != 0))
	x2, y2, z2 := vhMulP(p, x, w, w), vhMulP(p, y, w, w, w), vhMulP(p, z, w)
	zero := new(big.Int)
	switch vrt.Choose("case", 4) {
	case 0:
		x3, y3, z3 := secp256k1.addJacobian(x, y, z, x2, y2, z2)
		X, Y, Z := vhDblJ(p, x, y, z)
		vrt.Assert(vrt.And(z3.Sign() > 0, z3.Cmp(p) < 0), "not the point at infinity")
		vrt.Assert(vhSameJ(p, x3, y3, z3, X, Y, Z), "P+P = 2P")
	case 1:
		_, _, z3 := secp256k1.addJacobian(x, y, z, x2, vhSubP(p, zero, y2), z2)
		vrt.Assert(z3.Sign() == 0, "P-P is infinity")
	case 2:
		x3, y3, z3 := secp256k1.addJacobian(x, y, z, vhCoord("a", p), vhCoord("b", p), zero)
		vrt.Assert(vrt.And(z3.Sign() > 0, z3.Cmp(p) < 0), "not the point at infinity")
		vrt.Assert(vhSameJ(p, x3, y3, z3, x, y, z), "P+0 = P")
	default:
		x3, y3, z3 := secp256k1.addJacobian(vhCoord("a", p), vhCoord("b", p), zero, x, y, z)
		vrt.Assert(vrt.And(z3.Sign() > 0, z3.Cmp(p) < 0), "not the point at infinity")
		vrt.Assert(vhSameJ(p, x3, y3, z3, x, y, z), "0+P = P")
	}
}

// vhDblJ: tangent formula for a = 0.
func vhDblJ(p, x, y, z *big.Int) (X, Y, Z *big.Int) {
	m := vhMulP(p, big.NewInt(3), x, x)
	s := vhMulP(p, big.NewInt(4), x, y, y)
	X = vhSubP(p, vhMulP(p, m, m), vhMulP(p, big.NewInt(2), s))
	Y = vhSubP(p, vhMulP(p, m, vhSubP(p, s, X)), vhMulP(p, big.NewInt(8), y, y, y, y))
	return X, Y, vhMulP(p, big.NewInt(2), y, z)
}

// secp256k1 Jacobian doubling: the tangent, for any representative; infinity stays.
//
//vrt:prop E08
func VH_K1Double() {
	p := vrt.FieldOf("secp256k1")
	x, y, z := vhCoord("x", p), vhCoord("y", p), vrt.Scalar("z", p)
	vrt.Assume(vhMulP(p, y).Sign() != 0)
	X, Y, Z := vhDblJ(p, x, y, z)
	x3, y3, z3 := secp256k1.doubleJacobian(x, y, z)
	vrt.Assert((z3.Sign() == 0) == (z.Sign() == 0), "infinity exactly when doubling infinity")
	vrt.Assert(vrt.And(z3.Sign() >= 0, z3.Cmp(p) < 0), "z-coordinate in range")
	vrt.Assert(vhSameJ(p, x3, y3, z3, X, Y, Z), "the double")
}

// From Jacobian to affine coordinates: x/z^2, y/z^3, reduced; infinity gives (0, 0).
//
//vrt:prop E08
func VH_K1Affine() {
	p := vrt.FieldOf("secp256k1")
	x, y, z := vhCoord("x", p), vhCoord("y", p), vrt.Scalar("z", p)
	a, b := secp256k1.affineFromJacobian(x, y, z)
	if z.Sign() == 0 {
		vrt.Assert(vrt.And(a.Sign() == 0, b.Sign() == 0), "infinity is (0, 0)")
		return
	}
	vrt.Assert(vrt.And(a.Sign() >= 0, a.Cmp(p) < 0, b.Sign() >= 0, b.Cmp(p) < 0), "reduced")
	vrt.Assert(vrt.And(vhMulP(p, a, z, z).Cmp(vhMulP(p, x)) == 0, vhMulP(p, b, z, z, z).Cmp(vhMulP(p, y)) == 0), "x/z^2 and y/z^3")
}

// Affine Add and Double: (0, 0) is the point at infinity, also with one zero coordinate.
//
//vrt:prop E08
//vrt:split case 5
func VH_K1AffineAdd() {
	p := vrt.FieldOf("secp256k1")
	x1, y1 := vrt.Scalar("x1", p), vrt.Scalar("y1", p)
	x2, y2 := vrt.Scalar("x2", p), vrt.Scalar("y2", p)
	// no curve point has y = 0; x = 0 is allowed
	vrt.Assume(vrt.And(y1.Sign() > 0, y2.Sign() > 0))
	zero := new(big.Int)
	switch vrt.Choose("case", 5) {
	case 0:
		vrt.Assume(x1.Cmp(x2) != 0)
		x3, y3 := secp256k1.Add(x1, y1, x2, y2)
		d, e := vhSubP(p, x2, x1), vhSubP(p, y2, y1)
		// d^2 (x3+x1+x2) = e^2 and d (y3+y1) = e (x1-x3)
		s := new(big.Int).Add(x1, x2)
		s.Add(s, x3)
		vrt.Assert(vhMulP(p, s, d, d).Cmp(vhMulP(p, e, e)) == 0, "x-coordinate of the sum")
		vrt.Assert(vhMulP(p, d, new(big.Int).Add(y3, y1)).Cmp(vhMulP(p, e, vhSubP(p, x1, x3))) == 0, "y-coordinate of the sum")
	case 1:
		x3, y3 := secp256k1.Add(x1, y1, zero, zero)
		vrt.Assert(vrt.And(x3.Cmp(x1) == 0, y3.Cmp(y1) == 0), "P+0 = P")
	case 2:
		x3, y3 := secp256k1.Add(zero, zero, x1, y1)
		vrt.Assert(vrt.And(x3.Cmp(x1) == 0, y3.Cmp(y1) == 0), "0+P = P")
	case 3:
		x3, y3 := secp256k1.Add(x1, y1, x1, new(big.Int).Sub(p, y1))
		vrt.Assert(vrt.And(x3.Sign() == 0, y3.Sign() == 0), "P-P = 0")
	default:
		var x3, y3 *big.Int
		if vrt.Bool("dbl") {
			x3, y3 = secp256k1.Double(x1, y1)
		} else {
			x3, y3 = secp256k1.Add(x1, y1, x1, y1)
		}
		d, e := vhMulP(p, big.NewInt(2), y1), vhMulP(p, big.NewInt(3), x1, x1)
		s := new(big.Int).Lsh(x1, 1)
		s.Add(s, x3)
		vrt.Assert(vhMulP(p, s, d, d).Cmp(vhMulP(p, e, e)) == 0, "x-coordinate of the double")
		vrt.Assert(vhMulP(p, d, new(big.Int).Add(y3, y1)).Cmp(vhMulP(p, e, vhSubP(p, x1, x3))) == 0, "y-coordinate of the double")
	}
}

// Curve membership as the curves implement it.
//
//vrt:prop E08,E03
func VH_IsOnCurve() {
	p := vrt.FieldOf("secp256k1")
	x, y := vrt.Scalar("x", p), vrt.Scalar("y", p)
	vrt.Assert(secp256k1.IsOnCurve(x, y) == vrt.OnCurve("secp256k1", x, y), "y^2 = x^3 + 7")
}

// The double-and-add loop computes k*P for every k, over the Jacobian formulas.
//
//vrt:prop E08
//vrt:use jac,bits
//vrt:split len 6
func VH_K1ScalarMult() {
	N := vrt.OrderOf("secp256k1")
	lens := [...]int{1, 32, 0, 2, 31, 33}
	k := vrt.Bytes("k", lens[vrt.Choose("len", len(lens))])
	a := vrt.Scalar("a", N)
	vrt.Assume(a.Sign() > 0)
	P := vrt.RefPoint("secp256k1", a)
	x, y := secp256k1.ScalarMult(new(big.Int).SetBytes(P[:32]), new(big.Int).SetBytes(P[32:]), k)
	c := new(big.Int).SetBytes(k)
	c.Mul(c, a)
	Q := vrt.RefPoint("secp256k1", c.Mod(c, N))
	vrt.Assert(vrt.And(x.Cmp(new(big.Int).SetBytes(Q[:32])) == 0, y.Cmp(new(big.Int).SetBytes(Q[32:])) == 0), "k*P")
}

//vrt:prop E08
//vrt:use jac,bits
func VH_K1ScalarBaseMult() {
	N := vrt.OrderOf("secp256k1")
	k := vrt.Bytes("k", 32)
	x, y := secp256k1.ScalarBaseMult(k)
	c := new(big.Int).SetBytes(k)
	Q := vrt.RefPoint("secp256k1", c.Mod(c, N))
	vrt.Assert(vrt.And(x.Cmp(new(big.Int).SetBytes(Q[:32])) == 0, y.Cmp(new(big.Int).SetBytes(Q[32:])) == 0), "k*G")
}
