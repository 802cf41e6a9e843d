package owcrypt

import (
	"crypto/ecdsa"
	"math/big"

	"github.com/blocktree/go-owcrypt/sm3"
	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

func vhHex(s string) []byte {
	b := make([]byte, len(s)/2)
	for i := range s {
		v := s[i] - '0'
		if s[i] >= 'a' {
			v = s[i] - 'a' + 10
		}
		b[i/2] = b[i/2]<<4 | v
	}
	return b
}

func vhSM3(b []byte) []byte {
	h := sm3.New()
	h.Write(b)
	return h.Sum(nil)
}

// vhZA is the identity hash of GB/T 32918: SM3(ENTL || ID || a || b || xG || yG || xA || yA).
func vhZA(id, pub []byte) []byte {
	n := 8 * len(id)
	b := []byte{byte(n >> 8), byte(n)}
	b = append(b, id...)
	b = append(b, vhHex("fffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e9332c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7bc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0")...)
	b = append(b, pub...)
	return vhSM3(b)
}

// vhSm2Digest: the integer that SM2 signs.
func vhSm2Digest(id, pub, msg []byte) *big.Int {
	if id == nil {
		return new(big.Int).SetBytes(msg)
	}
	return new(big.Int).SetBytes(vhSM3(append(append([]byte{}, vhZA(id, pub)...), msg...)))
}

// vhSm2IDMsg chooses an identity (nil, or of some length) and a message.
func vhSm2IDMsg() (id, msg []byte) {
	switch vrt.Choose("id", 6) {
	case 0:
		return nil, vrt.Bytes("msg", 32)
	case 1:
		return []byte{}, vrt.Bytes("msg", 32)
	case 2:
		return vrt.Bytes("ID", 1), vrt.Bytes("msg", 1)
	case 3:
		return vrt.Bytes("ID", 16), vrt.Bytes("msg", 0)
	case 4:
		return vrt.Bytes("ID", 33), vrt.Bytes("msg", 32)
	}
	return make([]byte, 8191), vrt.Bytes("msg", 32)
}

// SM2: every key from 1 to n-2 signs, and the signature verifies.
//
//vrt:prop E05
//vrt:use curve,hash
//vrt:split id 6
//vrt:draws 1
//vrt:lens 31
func VH_Sm2SignVerify() {
	N := vrt.OrderOf("sm2")
	id, msg := vhSm2IDMsg()
	d := vrt.Scalar("d", N)
	d1 := new(big.Int).Add(d, big.NewInt(1))
	vrt.Assume(vrt.And(d.Sign() > 0, d1.Cmp(N) < 0))
	if len(id) > 0 && len(msg) != 32 {
		// with an identity a message may have any length, the public interface asks for 32 bytes
		_, _, ret := Signature(vrt.Enc(d, 32), id, msg, ECC_CURVE_SM2_STANDARD)
		vrt.Assert(ret != SUCCESS, "only 32-byte messages are signed")
		return
	}
	sig, v, ret := Signature(vrt.Enc(d, 32), id, msg, ECC_CURVE_SM2_STANDARD)
	vrt.Assert(ret == SUCCESS, "signing succeeds")
	vrt.Assert(vrt.And(len(sig) == 64, v <= 1), "64 bytes and a parity")
	r, s, ok := vhRS(sig, N)
	vrt.Assert(ok, "r and s are in range")
	// the ephemeral point sG + (r+s)dG
	t := new(big.Int).Add(r, s)
	t.Mod(t, N)
	vrt.Assert(t.Sign() != 0, "r+s is not zero")
	u := new(big.Int).Mul(t, d)
	u.Add(u, s)
	u.Mod(u, N)
	vrt.Assert(u.Sign() != 0, "the ephemeral point is not the point at infinity")
	vrt.Assert(Verify(vrt.RefPoint("sm2", d), id, msg, sig, ECC_CURVE_SM2_STANDARD) == SUCCESS, "own signature verifies")
}

// Any other private key, or a message of another length, is refused.
//
//vrt:prop E05,E01
//vrt:use curve,hash
//vrt:draws 1
//vrt:lens 31
func VH_Sm2SignRefuses() {
	N := vrt.OrderOf("sm2")
	var id []byte
	if vrt.Choose("id", 2) == 1 {
		id = vrt.Bytes("ID", 3)
	}
	lens := [...]int{32, 0, 1, 31, 33, 64}
	i := vrt.Choose("len", 2*len(lens))
	if i < len(lens) {
		key := vrt.Bytes("key", lens[i])
		d := new(big.Int).SetBytes(key)
		d1 := new(big.Int).Add(d, big.NewInt(1))
		vrt.Assume(vrt.Or(len(key) != 32, d.Sign() == 0, d1.Cmp(N) >= 0))
		sig, _, ret := Signature(key, id, vrt.Bytes("msg", 32), ECC_CURVE_SM2_STANDARD)
		vrt.Assert(vrt.And(ret == ECC_PRIKEY_ILLEGAL, sig == nil), "keys other than 1..n-2 are refused")
		return
	}
	if i == len(lens) {
		return
	}
	d := vrt.Scalar("d", N)
	vrt.Assume(d.Sign() > 0)
	sig, _, ret := Signature(vrt.Enc(d, 32), id, vrt.Bytes("msg", lens[i-len(lens)]), ECC_CURVE_SM2_STANDARD)
	vrt.Assert(vrt.And(ret != SUCCESS, sig == nil), "messages of other lengths are refused")
}

// Verification follows the equation on arbitrary signature bytes.
//
//vrt:prop E05
//vrt:use curve,hash
//vrt:split id 6
//vrt:lens
func VH_Sm2VerifyExact() {
	N := vrt.OrderOf("sm2")
	id, msg := vhSm2IDMsg()
	k := vrt.Scalar("k", N)
	vrt.Assume(k.Sign() > 0)
	pub := vrt.RefPoint("sm2", k)
	sig := vrt.Bytes("sig", 64)
	got := Verify(pub, id, msg, sig, ECC_CURVE_SM2_STANDARD)
	vrt.Assert(vrt.Or(got == SUCCESS, got == FAILURE), "result is SUCCESS or FAILURE")
	if len(msg) != 32 {
		vrt.Assert(got == FAILURE, "only 32-byte messages verify")
		return
	}
	r, s, ok := vhRS(sig, N)
	if !ok {
		vrt.Assert(got == FAILURE, "r and s out of range are refused")
		return
	}
	t := new(big.Int).Add(r, s)
	t.Mod(t, N)
	u := new(big.Int).Mul(t, k)
	u.Add(u, s)
	u.Mod(u, N)
	if t.Sign() == 0 || u.Sign() == 0 {
		vrt.Assert(got == FAILURE, "r+s = 0 and the point at infinity are refused")
		return
	}
	x := new(big.Int).SetBytes(vrt.RefPoint("sm2", u)[:32])
	x.Add(x, vhSm2Digest(id, pub, msg))
	x.Mod(x, N)
	vrt.Assert((got == SUCCESS) == (x.Cmp(r) == 0), "accepted exactly when (e + x(R)) mod N = r")
}

// Signatures made to satisfy the equation, in arbitrary representations.
//
//vrt:prop E05
//vrt:use curve,hash
//vrt:lens
func VH_Sm2VerifyMade() {
	N := vrt.OrderOf("sm2")
	d := vrt.Scalar("d", N)
	vrt.Assume(d.Sign() > 0)
	sig := vrt.Bytes("sig", 64)
	r, s, ok := vhRS(sig, N)
	t := new(big.Int).Add(r, s)
	t.Mod(t, N)
	u := new(big.Int).Mul(t, d)
	u.Add(u, s)
	u.Mod(u, N)
	vrt.Assume(u.Sign() != 0)
	e := new(big.Int).SetBytes(vrt.RefPoint("sm2", u)[:32])
	e.Sub(r, e)
	e.Add(e, N)
	e.Add(e, N)
	e.Mod(e, N)
	got := Verify(vrt.RefPoint("sm2", d), nil, vrt.Enc(e, 32), sig, ECC_CURVE_SM2_STANDARD)
	vrt.Assert((got == SUCCESS) == vrt.And(ok, t.Sign() != 0), "accepted exactly when r, s and r+s are in range")
}

// r+s = 0 modulo the order is refused, even where x(sG) would satisfy the equation.
//
//vrt:prop E05
//vrt:use curve,hash
//vrt:lens
func VH_Sm2VerifyTZero() {
	N := vrt.OrderOf("sm2")
	d, s := vrt.Scalar("d", N), vrt.Scalar("s", N)
	vrt.Assume(vrt.And(d.Sign() > 0, s.Sign() > 0))
	r := new(big.Int).Sub(N, s)
	e := new(big.Int).SetBytes(vrt.RefPoint("sm2", s)[:32])
	e.Sub(r, e)
	e.Add(e, N)
	e.Add(e, N)
	e.Mod(e, N)
	sig := append(vrt.Enc(r, 32), vrt.Enc(s, 32)...)
	vrt.Assert(Verify(vrt.RefPoint("sm2", d), nil, vrt.Enc(e, 32), sig, ECC_CURVE_SM2_STANDARD) == FAILURE, "r+s = 0 is refused")
}

// A signature computed from the equation, with and without an identity, verifies;
// for another identity length or message it is the standard's digest that counts.
//
//vrt:prop E05
//vrt:use curve,hash
//vrt:split id 6
//vrt:lens
func VH_Sm2VerifyID() {
	N := vrt.OrderOf("sm2")
	id, msg := vhSm2IDMsg()
	if len(msg) != 32 {
		return
	}
	d, k := vrt.Scalar("d", N), vrt.Scalar("k", N)
	d1 := new(big.Int).Add(d, big.NewInt(1))
	vrt.Assume(vrt.And(d.Sign() > 0, d1.Cmp(N) < 0, k.Sign() > 0))
	pub := vrt.RefPoint("sm2", d)
	r := new(big.Int).SetBytes(vrt.RefPoint("sm2", k)[:32])
	r.Add(r, vhSm2Digest(id, pub, msg))
	r.Mod(r, N)
	s := new(big.Int).Mul(r, d)
	s.Sub(k, s)
	s.Mul(s, new(big.Int).ModInverse(d1, N))
	s.Mod(s, N)
	t := new(big.Int).Add(r, s)
	t.Mod(t, N)
	vrt.Assume(vrt.And(r.Sign() > 0, s.Sign() > 0, t.Sign() > 0))
	vrt.Assert(Verify(pub, id, msg, append(vrt.Enc(r, 32), vrt.Enc(s, 32)...), ECC_CURVE_SM2_STANDARD) == SUCCESS, "a signature by the equation verifies")
}

// The identity hash pads coordinates with leading zeros and carries the identity length in two bytes.
//
//vrt:prop E05
//vrt:use hash
//vrt:lens 31,1
func VH_Sm2ZA() {
	pad := [...]int{0, 1, 2, 31}
	a, b := 0, 0
	if i := vrt.Choose("pad", 2*len(pad)); i < len(pad) {
		a = pad[i]
	} else {
		b = pad[i-len(pad)]
	}
	xy := append(append(make([]byte, a), vrt.Bytes("x", 32-a)...), append(make([]byte, b), vrt.Bytes("y", 32-b)...)...)
	idlen := [...]int{0, 1, 31, 32, 8191}
	id := vrt.Bytes("ID", idlen[vrt.Choose("idlen", len(idlen))])
	pub := new(ecdsa.PublicKey)
	pub.Curve = sm2_std
	pub.X, pub.Y = new(big.Int).SetBytes(xy[:32]), new(big.Int).SetBytes(xy[32:])
	za, err := ZA(pub, id)
	vrt.Assert(err == nil, "no error")
	vrt.Assert(vrt.Eq(za, vhZA(id, xy)), "identity hash of GB/T 32918")
}

// As VH_EcdsaVerifyOffCurve, for SM2.
//
//vrt:prop E05
//vrt:use curve
//vrt:lens 31
func VH_Sm2VerifyOffCurve() {
	N := vrt.OrderOf("sm2")
	pub := vrt.Bytes("pub", 64)
	x, y := new(big.Int).SetBytes(pub[:32]), new(big.Int).SetBytes(pub[32:])
	vrt.Assume(!vrt.OnCurve("sm2", x, y))
	s, t := vrt.Scalar("s", N), vrt.Scalar("t", N)
	r := new(big.Int).Sub(t, s)
	r.Mod(r, N)
	vrt.Assume(vrt.And(s.Sign() > 0, t.Sign() > 0, r.Sign() > 0))
	R := vrt.MaybeBytes(func() []byte {
		x1, y1 := sm2_std.ScalarBaseMult(s.Bytes())
		x2, y2 := sm2_std.ScalarMult(x, y, t.Bytes())
		rx, _ := sm2_std.Add(x1, y1, x2, y2)
		return vrt.Enc(rx, 32)
	}, 32)
	e := new(big.Int).Sub(r, new(big.Int).SetBytes(R))
	e.Mod(e, N)
	sig := append(vrt.Enc(r, 32), vrt.Enc(s, 32)...)
	vrt.Assert(Verify(pub, nil, vrt.Enc(e, 32), sig, ECC_CURVE_SM2_STANDARD) == FAILURE, "off-curve public key is refused")
}

// Identities of 8192 bytes or more do not fit the length field.
//
//vrt:prop E05,G02
//vrt:use curve,hash
//vrt:lens
func VH_Sm2LongID() {
	N := vrt.OrderOf("sm2")
	d := vrt.Scalar("d", N)
	vrt.Assume(vrt.And(d.Sign() > 0, new(big.Int).Add(d, big.NewInt(1)).Cmp(N) < 0))
	id := make([]byte, 8192)
	msg := vrt.Bytes("msg", 32)
	sig, _, ret := Signature(vrt.Enc(d, 32), id, msg, ECC_CURVE_SM2_STANDARD)
	vrt.Assert(vrt.And(ret != SUCCESS, sig == nil), "over-long identity is not signed")
	vrt.Assert(Verify(vrt.RefPoint("sm2", d), id, msg, vrt.Bytes("sig", 64), ECC_CURVE_SM2_STANDARD) == FAILURE, "over-long identity does not verify")
}
