package owcrypt

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// vhForm encodes X||Y in one of the accepted forms.
func vhForm(p []byte, form int) []byte {
	switch form {
	case 0:
		return p
	case 1:
		return append([]byte{4}, p...)
	}
	return append([]byte{2 + p[63]&1}, p[:32]...)
}

func vhIsPoint(got []byte, curve string, k *big.Int) bool {
	return vrt.And(got != nil, vrt.Eq(got, vrt.RefPoint(curve, k)))
}

// Point_add is the group law on aG and bG, in every encoding, and reports
// failure exactly when the sum is the point at infinity.
//
//vrt:prop E08
//vrt:use curve,modfork
//vrt:split curve 3
//vrt:split form 5
//vrt:lens 31
func VH_PointAdd() {
	typ, name := vhCurve(vrt.Choose("curve", 3))
	N := vrt.OrderOf(name)
	a, b := vrt.Scalar("a", N), vrt.Scalar("b", N)
	vrt.Assume(vrt.And(a.Sign() > 0, b.Sign() > 0))
	forms := [...][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 0}, {0, 2}}
	f := forms[vrt.Choose("form", len(forms))]
	P, ret := Point_add(vhForm(vrt.RefPoint(name, a), f[0]), vhForm(vrt.RefPoint(name, b), f[1]), typ)
	c := new(big.Int).Add(a, b)
	c.Mod(c, N)
	if c.Sign() == 0 {
		vrt.Assert(vrt.And(ret != SUCCESS, P == nil), "opposite points give infinity")
	} else {
		vrt.Assert(ret == SUCCESS, "a finite sum is returned")
		vrt.Assert(vhIsPoint(P, name, c), "sum")
	}
}

// Equal points, opposite points, and the point at infinity (64 zero bytes).
//
//vrt:prop E08
//vrt:use curve
//vrt:split curve 3
//vrt:lens 31
func VH_PointAddSpecial() {
	typ, name := vhCurve(vrt.Choose("curve", 3))
	N := vrt.OrderOf(name)
	a := vrt.Scalar("a", N)
	vrt.Assume(a.Sign() > 0)
	P := vrt.RefPoint(name, a)
	zero := make([]byte, 64)
	switch vrt.Choose("case", 5) {
	case 0:
		S, ret := Point_add(P, P, typ)
		vrt.Assert(ret == SUCCESS, "doubling succeeds")
		c := new(big.Int).Lsh(a, 1)
		vrt.Assert(vhIsPoint(S, name, c.Mod(c, N)), "P+P = 2P")
	case 1:
		S, ret := Point_add(P, vrt.RefPoint(name, new(big.Int).Sub(N, a)), typ)
		vrt.Assert(vrt.And(ret != SUCCESS, S == nil), "P-P is infinity")
	case 2:
		S, ret := Point_add(P, zero, typ)
		vrt.Assert(vrt.And(ret == SUCCESS, vrt.Eq(S, P)), "P+0 = P")
	case 3:
		S, ret := Point_add(zero, P, typ)
		vrt.Assert(vrt.And(ret == SUCCESS, vrt.Eq(S, P)), "0+P = P")
	default:
		S, ret := Point_add(zero, zero, typ)
		vrt.Assert(vrt.And(ret != SUCCESS, S == nil), "0+0 is infinity")
	}
}

// Point_mul is scalar multiplication for every 32-byte scalar.
//
//vrt:prop E08
//vrt:use curve,modfork
//vrt:split curve 3
//vrt:split form 3
//vrt:lens 31
func VH_PointMul() {
	typ, name := vhCurve(vrt.Choose("curve", 3))
	N := vrt.OrderOf(name)
	a := vrt.Scalar("a", N)
	vrt.Assume(a.Sign() > 0)
	k := vrt.Bytes("k", 32)
	P, ret := Point_mul(vhForm(vrt.RefPoint(name, a), vrt.Choose("form", 3)), k, typ)
	c := new(big.Int).SetBytes(k)
	c.Mul(c, a)
	c.Mod(c, N)
	if c.Sign() == 0 {
		vrt.Assert(vrt.And(ret != SUCCESS, P == nil), "a multiple of the order gives infinity")
	} else {
		vrt.Assert(ret == SUCCESS, "a finite multiple is returned")
		vrt.Assert(vhIsPoint(P, name, c), "multiple")
	}
}

// Point_mulBaseG_add is P + k*G and flags infinity exactly when the sum is infinite.
//
//vrt:prop E08
//vrt:use curve
//vrt:split curve 3
//vrt:lens 31
func VH_PointMulBaseAdd() {
	typ, name := vhCurve(vrt.Choose("curve", 3))
	N := vrt.OrderOf(name)
	a := new(big.Int)
	pt := make([]byte, 64)
	if vrt.Choose("zero", 2) == 0 {
		a = vrt.Scalar("a", N)
		vrt.Assume(a.Sign() > 0)
		pt = vrt.RefPoint(name, a)
	}
	k := vrt.Bytes("k", 32)
	P, inf := Point_mulBaseG_add(pt, k, typ)
	c := new(big.Int).SetBytes(k)
	c.Add(c, a)
	c.Mod(c, N)
	if c.Sign() == 0 {
		vrt.Assert(vrt.And(inf, P == nil), "infinity is flagged")
	} else {
		vrt.Assert(!inf, "infinity is not flagged")
		vrt.Assert(vhIsPoint(P, name, c), "P + kG")
	}
}

// Point_mulBaseG is the compressed multiple for 1..N-1 and nothing otherwise.
//
//vrt:prop E01,E08
//vrt:use curve
//vrt:split curve 3
//vrt:lens 31
func VH_PointMulBase() {
	typ, name := vhCurve(vrt.Choose("curve", 3))
	N := vrt.OrderOf(name)
	k := vrt.Bytes("k", 32)
	d := new(big.Int).SetBytes(k)
	P := Point_mulBaseG(k, typ)
	if vrt.And(d.Sign() > 0, d.Cmp(N) < 0) {
		vrt.Assert(vrt.And(P != nil, vrt.Eq(P, vhForm(vrt.RefPoint(name, d), 2))), "compressed k*G")
	} else {
		vrt.Assert(P == nil, "scalars out of range give nothing")
	}
}

// Points off the curve and wrong lengths are refused by every operation.
//
//vrt:prop E08,G02
//vrt:use curve
//vrt:split curve 3
//vrt:lens 31
func VH_PointRefuses() {
	typ, name := vhCurve(vrt.Choose("curve", 3))
	N := vrt.OrderOf(name)
	a := vrt.Scalar("a", N)
	vrt.Assume(a.Sign() > 0)
	good := vrt.RefPoint(name, a)
	k := vrt.Bytes("k", 32)
	bad := good
	op := vrt.Choose("op", 4)
	lens := [...]int{64, 65, 0, 1, 32, 63, 66, 128}
	n := lens[vrt.Choose("n", len(lens)+2)%len(lens)]
	what := vrt.Choose("what", 2)
	if what == 1 && op > 1 {
		ks := [...]int{0, 1, 31, 33, 64}
		k = vrt.Bytes("badk", ks[vrt.Choose("klen", len(ks))])
	} else {
		bad = vrt.Bytes("bad", n)
		if n == 64 || n == 65 {
			x, y := new(big.Int).SetBytes(bad[n-64:n-32]), new(big.Int).SetBytes(bad[n-32:])
			vrt.Assume(!vrt.OnCurve(name, x, y))
			vrt.Assume(vrt.Or(x.Sign() != 0, y.Sign() != 0))
		}
	}
	var P []byte
	ok := true
	vrt.Assert(!vrt.Panics(func() {
		var ret uint16
		var inf bool
		switch op {
		case 0:
			P, ret = Point_add(bad, good, typ)
			ok = ret == SUCCESS
		case 1:
			P, ret = Point_add(good, bad, typ)
			ok = ret == SUCCESS
		case 2:
			P, ret = Point_mul(bad, k, typ)
			ok = ret == SUCCESS
		default:
			P, inf = Point_mulBaseG_add(bad, k, typ)
			ok = inf
		}
	}), "no panic")
	vrt.Assert(vrt.And(!ok, P == nil), "refused")
}

// Decompression undoes compression for every point.
//
//vrt:prop E09
//vrt:use curve,modfork
//vrt:split curve 3
//vrt:lens 31,1
func VH_CompressRoundTrip() {
	typ, name := vhCurve(vrt.Choose("curve", 3))
	N := vrt.OrderOf(name)
	a := vrt.Scalar("a", N)
	vrt.Assume(a.Sign() > 0)
	P := vrt.RefPoint(name, a)
	c := PointCompress(vhForm(P, vrt.Choose("form", 2)), typ)
	vrt.Assert(vrt.And(len(c) == 33, vrt.Or(c[0] == 2, c[0] == 3)), "33 bytes with prefix 2 or 3")
	vrt.Assert(vrt.And(c[0]&1 == P[63]&1, vrt.Eq(c[1:], P[:32])), "parity and x-coordinate")
	u := PointDecompress(c, typ)
	vrt.Assert(vrt.And(u != nil, len(u) == 65, u[0] == 4), "decompresses to 65 bytes")
	vrt.Assert(vrt.Eq(u[1:], P), "the same point")
}

// Whatever decompresses is the curve point with that x-coordinate and parity.
//
//vrt:prop E09,G02
//vrt:use curve,modfork
//vrt:split curve 3
//vrt:lens 31,1,0
func VH_DecompressAny() {
	typ, name := vhCurve(vrt.Choose("curve", 3))
	lens := [...]int{33, 0, 1, 32, 34, 64, 65}
	n := lens[vrt.Choose("len", len(lens))]
	c := vrt.Bytes("c", n)
	u := PointDecompress(c, typ)
	if u == nil {
		return
	}
	vrt.Assert(vrt.And(n == 33, len(u) == 65, u[0] == 4), "65 bytes from 33")
	vrt.Assert(vrt.And(vrt.Or(c[0] == 2, c[0] == 3), vrt.Eq(u[1:33], c[1:]), u[64]&1 == c[0]&1), "x-coordinate and parity are kept")
	vrt.Assert(vrt.OnCurve(name, new(big.Int).SetBytes(u[1:33]), new(big.Int).SetBytes(u[33:])), "on the curve")
}

// Nothing but the listed forms compresses, on the listed curves.
//
//vrt:prop E09,G02
func VH_CompressRefuses() {
	types := [...]uint32{ECC_CURVE_SECP256K1, ECC_CURVE_SECP256R1, ECC_CURVE_SM2_STANDARD, ECC_CURVE_PASTA}
	typ := types[vrt.Choose("curve", len(types))]
	lens := [...]int{65, 0, 1, 32, 33, 63, 66}
	n := lens[vrt.Choose("len", len(lens))]
	p := vrt.Bytes("p", n)
	if n == 65 {
		vrt.Assume(p[0] != 4)
	}
	vrt.Assert(PointCompress(p, typ) == nil, "refused")
}

// Sums and multiples with an x-coordinate next to zero (a point with x = 0, which
// P-256 and SM2 have, is no point at infinity).
//
//vrt:prop E08
//vrt:use curve
//vrt:split curve 3
//vrt:lens 2,1,0
func VH_PointSmallX() {
	typ, name := vhCurve(vrt.Choose("curve", 3))
	N := vrt.OrderOf(name)
	T, _ := vrt.PointNear("T", name, new(big.Int))
	s := vrt.Scalar("s", N)
	vrt.Assume(s.Sign() > 0)
	switch vrt.Choose("op", 3) {
	case 0:
		Q := vrt.RefLin(name, T, big.NewInt(1), new(big.Int).Sub(N, s))
		vrt.Assume(new(big.Int).SetBytes(Q).Sign() != 0)
		P, inf := Point_mulBaseG_add(Q, vrt.Enc(s, 32), typ)
		vrt.Assert(vrt.And(!inf, P != nil, vrt.Eq(P, T)), "(T-sG) + sG = T")
	case 1:
		Q := vrt.RefLin(name, T, big.NewInt(1), new(big.Int).Sub(N, s))
		vrt.Assume(new(big.Int).SetBytes(Q).Sign() != 0)
		P, ret := Point_add(Q, vrt.RefPoint(name, s), typ)
		vrt.Assert(vrt.And(ret == SUCCESS, P != nil, vrt.Eq(P, T)), "(T-sG) + sG = T")
	default:
		Q := vrt.RefLin(name, T, new(big.Int).ModInverse(s, N), new(big.Int))
		vrt.Assume(new(big.Int).SetBytes(Q).Sign() != 0)
		P, ret := Point_mul(Q, vrt.Enc(s, 32), typ)
		vrt.Assert(vrt.And(ret == SUCCESS, P != nil, vrt.Eq(P, T)), "s(T/s) = T")
	}
}
