package edwards25519

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// Group formulas over the field contract: the field functions are replaced by
// exact arithmetic modulo p (shown of the real code by the VH_Fe harnesses).

func vhFeOf(v *big.Int) FieldElement {
	var b [32]byte
	copy(b[:], vrt.EncLE(v, 32))
	var f FieldElement
	FeFromBytes(&f, &b)
	return f
}

func vhSame(a, b *FieldElement) bool {
	var x, y [32]byte
	FeToBytes(&x, a)
	FeToBytes(&y, b)
	return vrt.Eq(x[:], y[:])
}

func vhMul(a ...*FieldElement) FieldElement {
	r := *a[0]
	for _, x := range a[1:] {
		FeMul(&r, &r, x)
	}
	return r
}

// a curve point with both coordinates and an arbitrary non-zero Z
type vhPt struct {
	x, y, z FieldElement
	bx, by  *big.Int // symbolic runs only
}

func vhPoint(n string) vhPt {
	P := vrt.FieldOf("ed25519")
	var r vhPt
	if vrt.Symbolic() {
		r.bx, r.by = vrt.Scalar(n+"x", P), vrt.Scalar(n+"y", P)
		r.x, r.y = vhFeOf(r.bx), vhFeOf(r.by)
		one := vhFeOf(big.NewInt(1))
		xx, yy := vhMul(&r.x, &r.x), vhMul(&r.y, &r.y)
		var l, rr FieldElement
		FeSub(&l, &yy, &xx)
		rr = vhMul(&d, &xx, &yy)
		FeAdd(&rr, &rr, &one)
		vrt.Assume(vhSame(&l, &rr))
	} else {
		vrt.Scalar(n+"y", P)
		k := vrt.Scalar(n+"x", vrt.OrderOf("ed25519"))
		var kb, pb [32]byte
		copy(kb[:], vrt.EncLE(k, 32))
		copy(pb[:], vrt.EdPoint(k))
		var e ExtendedGroupElement
		e.FromBytes(&pb)
		r.x, r.y = e.X, e.Y
	}
	z := vrt.Scalar(n+"z", P)
	vrt.Assume(z.Sign() > 0)
	r.z = vhFeOf(z)
	return r
}

func (p *vhPt) ext() ExtendedGroupElement {
	return ExtendedGroupElement{vhMul(&p.x, &p.z), vhMul(&p.y, &p.z), p.z, vhMul(&p.x, &p.y, &p.z)}
}

// vhSum is the complete addition law: x3 = (x1 y2 + x2 y1)/(1 + d x1 x2 y1 y2), y3 = (y1 y2 + x1 x2)/(1 - d x1 x2 y1 y2)
func vhSum(p, q *vhPt, neg bool) (xn, xd, yn, yd FieldElement) {
	qx := q.x
	if neg {
		FeNeg(&qx, &q.x)
	}
	a, b := vhMul(&p.x, &q.y), vhMul(&qx, &p.y)
	FeAdd(&xn, &a, &b)
	c, e := vhMul(&p.y, &q.y), vhMul(&p.x, &qx)
	FeAdd(&yn, &c, &e)
	t := vhMul(&d, &a, &b)
	one := vhFeOf(big.NewInt(1))
	FeAdd(&xd, &one, &t)
	FeSub(&yd, &one, &t)
	return
}

func vhCompleted(r *CompletedGroupElement, p, q *vhPt, neg bool, what string) {
	xn, xd, yn, yd := vhSum(p, q, neg)
	a, b := vhMul(&r.X, &xd), vhMul(&r.Z, &xn)
	vrt.Assert(vhSame(&a, &b), what+": x-coordinate")
	a, b = vhMul(&r.Y, &yd), vhMul(&r.T, &yn)
	vrt.Assert(vhSame(&a, &b), what+": y-coordinate")
}

//vrt:prop D04
//vrt:use fe
func VH_GeAdd() {
	p, q := vhPoint("p"), vhPoint("q")
	pe, qe := p.ext(), q.ext()
	var c CachedGroupElement
	qe.ToCached(&c)
	var r CompletedGroupElement
	geAdd(&r, &pe, &c)
	vhCompleted(&r, &p, &q, false, "sum")
	geSub(&r, &pe, &c)
	vhCompleted(&r, &p, &q, true, "difference")
}

//vrt:prop D04
//vrt:use fe
func VH_GeMixed() {
	p, q := vhPoint("p"), vhPoint("q")
	pe := p.ext()
	var c PreComputedGroupElement
	FeAdd(&c.yPlusX, &q.y, &q.x)
	FeSub(&c.yMinusX, &q.y, &q.x)
	xy := vhMul(&q.x, &q.y, &d)
	FeAdd(&c.xy2d, &xy, &xy)
	var r CompletedGroupElement
	geMixedAdd(&r, &pe, &c)
	vhCompleted(&r, &p, &q, false, "sum")
	geMixedSub(&r, &pe, &c)
	vhCompleted(&r, &p, &q, true, "difference")
}

//vrt:prop D04
//vrt:use fe
func VH_GeDouble() {
	p := vhPoint("p")
	pe := p.ext()
	var r CompletedGroupElement
	pe.Double(&r)
	vhCompleted(&r, &p, &p, false, "double")
	var pp ProjectiveGroupElement
	pe.ToProjective(&pp)
	var r2 CompletedGroupElement
	pp.Double(&r2)
	vhCompleted(&r2, &p, &p, false, "projective double")
}

// Conversions keep the point: completed (X:Z, Y:T) to projective and extended, and T = XY/Z.
//
//vrt:prop D04
//vrt:use fe
func VH_GeConvert() {
	P := vrt.FieldOf("ed25519")
	var r CompletedGroupElement
	r.X, r.Y, r.Z, r.T = vhFeOf(vrt.Scalar("X", P)), vhFeOf(vrt.Scalar("Y", P)), vhFeOf(vrt.Scalar("Z", P)), vhFeOf(vrt.Scalar("T", P))
	var e ExtendedGroupElement
	var q ProjectiveGroupElement
	r.ToExtended(&e)
	r.ToProjective(&q)
	a, b := vhMul(&e.X, &r.Z), vhMul(&e.Z, &r.X)
	vrt.Assert(vhSame(&a, &b), "extended x")
	a, b = vhMul(&e.Y, &r.T), vhMul(&e.Z, &r.Y)
	vrt.Assert(vhSame(&a, &b), "extended y")
	a, b = vhMul(&r.Z, &r.T), e.Z
	vrt.Assert(vhSame(&a, &b), "extended z")
	a, b = vhMul(&e.T, &e.Z), vhMul(&e.X, &e.Y)
	vrt.Assert(vhSame(&a, &b), "extended product")
	vrt.Assert(vrt.And(vhSame(&q.X, &e.X), vhSame(&q.Y, &e.Y), vhSame(&q.Z, &e.Z)), "projective agrees with extended")
	var q2 ProjectiveGroupElement
	e.ToProjective(&q2)
	vrt.Assert(vrt.And(vhSame(&q2.X, &e.X), vhSame(&q2.Y, &e.Y), vhSame(&q2.Z, &e.Z)), "extended to projective")
	var z ExtendedGroupElement
	var z2 ProjectiveGroupElement
	z.Zero()
	z2.Zero()
	zero, one := vhFeOf(big.NewInt(0)), vhFeOf(big.NewInt(1))
	vrt.Assert(vrt.And(vhSame(&z.X, &zero), vhSame(&z.Y, &one), vhSame(&z.Z, &one), vhSame(&z.T, &zero)), "extended neutral element")
	vrt.Assert(vrt.And(vhSame(&z2.X, &zero), vhSame(&z2.Y, &one), vhSame(&z2.Z, &one)), "projective neutral element")
}

// Exponent chains: with multiplication exact, inversion raises to p-2 and the
// square-root helper to (p-5)/8.
//
//vrt:prop D04
//vrt:use fepow
func VH_FeInvertChain() {
	P := vrt.FieldOf("ed25519")
	z := vrt.Scalar("z", P)
	f := vhFeOf(z)
	var inv, root FieldElement
	FeInvert(&inv, &f)
	e := new(big.Int).Sub(P, big.NewInt(2))
	want := vhFeOf(vrt.PowMod(z, e, P))
	vrt.Assert(vhSame(&inv, &want), "inverse")
	fePow22523(&root, &f)
	e = new(big.Int).Sub(P, big.NewInt(5))
	want = vhFeOf(vrt.PowMod(z, e.Rsh(e, 3), P))
	vrt.Assert(vhSame(&root, &want), "power (p-5)/8")
	FeInvert(&f, &f)
	vrt.Assert(vhSame(&f, &inv), "inverse in place")
}

// Decoding: what is accepted is a point of the curve with the encoded
// y-coordinate and sign; every point of the curve is accepted.
//
//vrt:prop D04
//vrt:use fe
//vrt:nomerge
//vrt:feasms 300
//vrt:assertms 20000
func VH_GeDecode() {
	b := vrt.Bytes("b", 32)
	var in [32]byte
	copy(in[:], b)
	var e ExtendedGroupElement
	if !e.FromBytes(&in) {
		return
	}
	var y, l, r FieldElement
	FeFromBytes(&y, &in)
	one := vhFeOf(big.NewInt(1))
	vrt.Assert(vrt.And(vhSame(&e.Y, &y), vhSame(&e.Z, &one)), "y-coordinate")
	xx, yy := vhMul(&e.X, &e.X), vhMul(&y, &y)
	FeSub(&l, &yy, &xx)
	r = vhMul(&d, &xx, &yy)
	FeAdd(&r, &r, &one)
	vrt.Assert(vhSame(&l, &r), "on the curve")
	xy := vhMul(&e.X, &y)
	vrt.Assert(vhSame(&e.T, &xy), "product coordinate")
	zero := vhFeOf(big.NewInt(0))
	vrt.Assert(vrt.Or(FeIsNegative(&e.X) == in[31]>>7, vhSame(&e.X, &zero)), "sign")
}

//vrt:prop D04
//vrt:use fe
//vrt:nomerge
//vrt:feasms 300
//vrt:assertms 20000
func VH_GeDecodeAll() {
	P := vrt.FieldOf("ed25519")
	p := vhPoint("p")
	if vrt.Symbolic() {
		x, v := p.bx, new(big.Int).Mul(p.by, p.by)
		v.Mul(v, vhD()).Add(v, big.NewInt(1)).Mod(v, P)
		v.Mul(v, v).Mod(v, P)
		v.Mul(v, v).Mod(v, P)
		vrt.SquareWitness(v.Mul(v, x).Mod(v, P))
	}
	var in [32]byte
	FeToBytes(&in, &p.y)
	if vrt.Bool("top") {
		in[31] |= 128
	}
	var e ExtendedGroupElement
	ok := e.FromBytes(&in)
	vrt.Assert(ok, "every point decodes")
	x2, e2 := vhMul(&p.x, &p.x), vhMul(&e.X, &e.X)
	vrt.Assert(vhSame(&x2, &e2), "the point or its negative")
}

func vhD() *big.Int {
	P := vrt.FieldOf("ed25519")
	n := new(big.Int).ModInverse(big.NewInt(121666), P)
	n.Mul(n, big.NewInt(121665))
	n.Neg(n)
	return n.Mod(n, P)
}
