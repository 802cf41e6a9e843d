package owcrypt

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// vhRS splits a signature and reports whether both halves are in [1, N-1].
func vhRS(sig []byte, N *big.Int) (r, s *big.Int, ok bool) {
	r = new(big.Int).SetBytes(sig[:32])
	s = new(big.Int).SetBytes(sig[32:])
	return r, s, vrt.And(vrt.And(r.Sign() > 0, r.Cmp(N) < 0), vrt.And(s.Sign() > 0, s.Cmp(N) < 0))
}

// Verification of arbitrary signature bytes under an arbitrary curve point.
//
//vrt:prop E03
//vrt:use curve
//vrt:split curve 2
//vrt:lens 31,1,0
func VH_EcdsaVerifyExact() {
	typ, name := vhCurve(vrt.Choose("curve", 2))
	N := vrt.OrderOf(name)
	k := vrt.Scalar("k", N)
	vrt.Assume(k.Sign() > 0)
	pub := vrt.RefPoint(name, k)
	msg := vrt.Bytes("msg", 32)
	sig := vrt.Bytes("sig", 64)
	got := Verify(pub, nil, msg, sig, typ)
	vrt.Assert(vrt.Or(got == SUCCESS, got == FAILURE), "result is SUCCESS or FAILURE")
	r, s, ok := vhRS(sig, N)
	if !ok {
		vrt.Assert(got == FAILURE, "r and s out of range are refused")
		return
	}
	u := new(big.Int).Mul(r, k)
	u.Add(u, new(big.Int).SetBytes(msg))
	u.Mul(u, new(big.Int).ModInverse(s, N))
	u.Mod(u, N)
	if u.Sign() == 0 {
		vrt.Assert(got == FAILURE, "the point at infinity is refused")
		return
	}
	x := new(big.Int).SetBytes(vrt.RefPoint(name, u)[:32])
	x.Mod(x, N)
	vrt.Assert((got == SUCCESS) == (x.Cmp(r) == 0), "accepted exactly when x(R) mod N = r")
}

// The same on signatures made to satisfy the equation, with an arbitrary
// representation of s.
//
//vrt:prop E03
//vrt:use curve
//vrt:split curve 2
//vrt:lens
func VH_EcdsaVerifyMade() {
	typ, name := vhCurve(vrt.Choose("curve", 2))
	N := vrt.OrderOf(name)
	d, k := vrt.Scalar("d", N), vrt.Scalar("k", N)
	vrt.Assume(vrt.And(d.Sign() > 0, k.Sign() > 0))
	R := vrt.RefPoint(name, k)
	r := new(big.Int).SetBytes(R[:32])
	vrt.Assume(r.Cmp(N) < 0)
	sb := vrt.Bytes("s", 32)
	s := new(big.Int).SetBytes(sb)
	e := new(big.Int).Mul(s, k)
	e.Sub(e, new(big.Int).Mul(r, d))
	e.Mod(e, N)
	ok := vrt.And(s.Sign() > 0, s.Cmp(N) < 0, r.Sign() > 0)
	got := Verify(vrt.RefPoint(name, d), nil, vrt.Enc(e, 32), append(vrt.Enc(r, 32), sb...), typ)
	vrt.Assert((got == SUCCESS) == ok, "accepted exactly when s is canonical")
}

// Ephemeral points whose x-coordinate is at least the order, or so small that
// r has two 32-byte representations.
//
//vrt:prop E03
//vrt:use curve
//vrt:split curve 2
//vrt:lens
func VH_EcdsaVerifyNear() {
	typ, name := vhCurve(vrt.Choose("curve", 2))
	N := vrt.OrderOf(name)
	from := big.NewInt(1)
	high := vrt.Choose("high", 2) == 1
	if high {
		from = new(big.Int).Set(N)
	}
	R, r := vrt.PointNear("R", name, from)
	if !high {
		r.Add(r, from)
	}
	s, e := vrt.Scalar("s", N), vrt.Scalar("e", N)
	vrt.Assume(vrt.And(s.Sign() > 0, r.Sign() > 0))
	// Q = (s*R - e*G)/r
	ri := new(big.Int).ModInverse(r, N)
	a := new(big.Int).Mul(s, ri)
	b := new(big.Int).Mul(e, ri)
	b.Sub(new(big.Int).Mul(N, N), b)
	Q := vrt.RefLin(name, R, a, b)
	q := new(big.Int).SetBytes(Q)
	vrt.Assume(q.Sign() != 0)
	sb := vrt.Enc(s, 32)
	vrt.Assert(Verify(Q, nil, vrt.Enc(e, 32), append(vrt.Enc(r, 32), sb...), typ) == SUCCESS, "x(R) mod N is compared")
	r.Add(r, N)
	vrt.Assert(Verify(Q, nil, vrt.Enc(e, 32), append(vrt.Enc(r, 32), sb...), typ) == FAILURE, "r of N or more is refused")
}

// A public key that is not a point of the curve never verifies anything: not
// even a signature made up to satisfy the verification equation over it.
//
//vrt:prop E03
//vrt:use curve
//vrt:split curve 2
//vrt:lens 31,1,0
func VH_EcdsaVerifyOffCurve() {
	i := vrt.Choose("curve", 2)
	typ, name := vhCurve(i)
	N := vrt.OrderOf(name)
	pub := vrt.Bytes("pub", 64)
	x, y := new(big.Int).SetBytes(pub[:32]), new(big.Int).SetBytes(pub[32:])
	vrt.Assume(!vrt.OnCurve(name, x, y))
	u1 := vrt.Scalar("u1", N)
	u2 := vrt.Scalar("u2", N)
	vrt.Assume(vrt.And(u1.Sign() > 0, u2.Sign() > 0))
	// R = u1*G + u2*Q as the library itself computes it, r = x(R), s = r/u2, e = u1*s
	R := vrt.MaybeBytes(func() []byte {
		var rx *big.Int
		if i == 0 {
			x1, y1 := secp256k1.ScalarBaseMult(u1.Bytes())
			x2, y2 := secp256k1.ScalarMult(x, y, u2.Bytes())
			rx, _ = secp256k1.Add(x1, y1, x2, y2)
		} else {
			x1, y1 := secp256r1.ScalarBaseMult(u1.Bytes())
			x2, y2 := secp256r1.ScalarMult(x, y, u2.Bytes())
			rx, _ = secp256r1.Add(x1, y1, x2, y2)
		}
		return vrt.Enc(rx, 32)
	}, 32)
	r := new(big.Int).SetBytes(R)
	r.Mod(r, N)
	vrt.Assume(r.Sign() > 0)
	s := new(big.Int).ModInverse(u2, N)
	s.Mul(s, r)
	s.Mod(s, N)
	e := new(big.Int).Mul(u1, s)
	e.Mod(e, N)
	sig := append(vrt.Enc(r, 32), vrt.Enc(s, 32)...)
	vrt.Assert(Verify(pub, nil, vrt.Enc(e, 32), sig, typ) == FAILURE, "off-curve public key is refused")
}

// Wrong lengths are failed verifications.
//
//vrt:prop E03,G02
//vrt:use curve
func VH_EcdsaVerifyLengths() {
	typ, _ := vhCurve(vrt.Choose("curve", 3))
	lens := [...]int{0, 1, 31, 32, 33, 63, 64, 65, 96, 128}
	a := lens[vrt.Choose("a", len(lens))]
	var pub, msg, sig []byte
	switch vrt.Choose("which", 3) {
	case 0:
		if a == 64 {
			return
		}
		pub, msg, sig = vrt.Bytes("pub", a), vrt.Bytes("msg", 32), vrt.Bytes("sig", 64)
	case 1:
		if a == 32 {
			return
		}
		pub, msg, sig = vrt.Bytes("pub", 64), vrt.Bytes("msg", a), vrt.Bytes("sig", 64)
	default:
		if a == 64 {
			return
		}
		pub, msg, sig = vrt.Bytes("pub", 64), vrt.Bytes("msg", 32), vrt.Bytes("sig", a)
	}
	got := uint16(0xffff)
	vrt.Assert(!vrt.Panics(func() { got = Verify(pub, nil, msg, sig, typ) }), "no panic")
	vrt.Assert(got == FAILURE, "wrong lengths are refused")
}

// Recovery from a signature of the scheme: whatever key, digest and nonce,
// r || s || parity of R gives back the signer's key.
//
//vrt:prop E04
//vrt:use curve,modfork
//vrt:split curve 3
//vrt:nomerge 4
//vrt:lens
func VH_RecoverOwn() {
	typ, name := vhCurve(vrt.Choose("curve", 3))
	N := vrt.OrderOf(name)
	d, k := vrt.Scalar("d", N), vrt.Scalar("k", N)
	vrt.Assume(vrt.And(d.Sign() > 0, k.Sign() > 0))
	msg := vrt.Bytes("msg", 32)
	e := new(big.Int).SetBytes(msg)
	R := vrt.RefPoint(name, k)
	r, s := new(big.Int).SetBytes(R[:32]), new(big.Int)
	vrt.Assume(r.Cmp(N) < 0) // of the x-coordinates, a share below 2^-95 is in [N, P)
	if name == "sm2" {
		r.Add(r, e)
		r.Mod(r, N)
		d1 := new(big.Int).Add(d, big.NewInt(1))
		d1.Mod(d1, N)
		vrt.Assume(d1.Sign() != 0)
		s.Mul(r, d)
		s.Sub(k, s)
		s.Mul(s, new(big.Int).ModInverse(d1, N))
	} else {
		s.Mul(r, d)
		s.Add(s, e)
		s.Mul(s, new(big.Int).ModInverse(k, N))
	}
	s.Mod(s, N)
	t := new(big.Int).Add(r, s)
	t.Mod(t, N)
	vrt.Assume(vrt.And(r.Sign() > 0, s.Sign() > 0, name != "sm2" || t.Sign() != 0))
	sig := append(append(vrt.Enc(r, 32), vrt.Enc(s, 32)...), R[63]&1)
	pub, ret := RecoverPubkey(sig, msg, typ)
	vrt.Assert(ret == SUCCESS, "recovery succeeds")
	vrt.Assert(vrt.Eq(pub, vrt.RefPoint(name, d)), "recovers the signer's key")
}

// The third result of Signature is the parity that recovery needs.
//
//vrt:prop E02,E04
//vrt:use curve,hash,modfork
//vrt:split curve 2
//vrt:lens
//vrt:draws 2
//vrt:nomerge 4
//vrt:timeout 120
//vrt:tries 20000
//vrt:budget 60
func VH_SignRecoveryID() {
	typ, name := vhCurve(vrt.Choose("curve", 2))
	N := vrt.OrderOf(name)
	d := vrt.Scalar("d", N)
	vrt.Assume(d.Sign() > 0)
	msg := vrt.Bytes("msg", 32)
	sig, v, ret := Signature(vrt.Enc(d, 32), nil, msg, typ)
	if ret != SUCCESS {
		return
	}
	r, s, _ := vhRS(sig, N)
	u := new(big.Int).Mul(r, d)
	u.Add(u, new(big.Int).SetBytes(msg))
	u.Mul(u, new(big.Int).ModInverse(s, N))
	u.Mod(u, N)
	R := vrt.RefPoint(name, u)
	vrt.Assert(v == R[63]&1, "v is the parity of the point (e+r*d)/s * G")
}

// Whatever recovery returns verifies; nothing crashes it.
//
//vrt:prop E04,G02
//vrt:use curve,modfork
//vrt:split curve 3
//vrt:nomerge 4
//vrt:lens
//vrt:timeout 40
func VH_RecoverAny() {
	typ, name := vhCurve(vrt.Choose("curve", 3))
	N := vrt.OrderOf(name)
	k := vrt.Scalar("k", N)
	vrt.Assume(k.Sign() > 0)
	r := new(big.Int).SetBytes(vrt.RefPoint(name, k)[:32])
	vrt.Assume(r.Cmp(N) < 0) // of the x-coordinates, a share below 2^-95 is in [N, P)
	msg := vrt.Bytes("msg", 32)
	if name == "sm2" {
		r.Add(r, new(big.Int).SetBytes(msg))
	}
	r.Mod(r, N)
	sig := append(vrt.Enc(r, 32), vrt.Bytes("s", 32)...)
	v := vrt.U8("v")
	var pub []byte
	var ret uint16
	vrt.Assert(!vrt.Panics(func() { pub, ret = RecoverPubkey(append(sig, v), msg, typ) }), "no panic")
	if ret == SUCCESS {
		vrt.Assert(len(pub) == 64, "64-byte key")
		vrt.Assert(Verify(pub, nil, msg, sig, typ) == SUCCESS, "signature verifies under the recovered key")
	} else {
		vrt.Assert(pub == nil, "no key on failure")
	}
}

// Arbitrary bytes never crash recovery.
//
//vrt:prop E04,G02
//vrt:use curve,modfork
//vrt:split curve 3
//vrt:nomerge 4
//vrt:lens
//vrt:timeout 40
func VH_RecoverBytes() {
	typ, _ := vhCurve(vrt.Choose("curve", 3))
	lens := [...]int{0, 1, 32, 64, 65, 66}
	a := lens[vrt.Choose("siglen", len(lens))]
	b := 32
	if a == 65 {
		b = lens[vrt.Choose("msglen", 4)]
	}
	sig := vrt.Bytes("sig", a)
	msg := vrt.Bytes("msg", b)
	var pub []byte
	var ret uint16
	vrt.Assert(!vrt.Panics(func() { pub, ret = RecoverPubkey(sig, msg, typ) }), "no panic")
	if a != 65 || b != 32 {
		vrt.Assert(ret == FAILURE, "wrong lengths are refused")
	}
	vrt.Assert((ret == SUCCESS) == (pub != nil), "a key exactly on success")
}
