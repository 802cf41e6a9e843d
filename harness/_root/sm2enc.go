package owcrypt

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// vhKDF is the key derivation function of GB/T 32918: SM3(z || counter) blocks.
func vhKDF(z []byte, n int) []byte {
	var out []byte
	for i := 1; len(out) < n; i++ {
		b := append(append([]byte{}, z...), byte(i>>24), byte(i>>16), byte(i>>8), byte(i))
		out = append(out, vhSM3(b)...)
	}
	return out[:n]
}

func vhAllZero(b []byte) bool { return vrt.Eq(b, make([]byte, len(b))) }

var vhPlainLens = [...]int{1, 2, 31, 32, 33, 65}

// vhSm2Mask is x2||y2 of the shared point and the key stream.
func vhSm2Mask(u *big.Int, n int) (xy, t []byte) {
	xy = vrt.RefPoint("sm2", u)
	return xy, vhKDF(xy, n)
}

func vhSm2C3(xy, m []byte) []byte {
	b := append(append([]byte{}, xy[:32]...), m...)
	return vhSM3(append(b, xy[32:]...))
}

// Encrypting to d*G and decrypting with d gives the plaintext back.
//
//vrt:prop E06
//vrt:use curve,hash
//vrt:split len 6
//vrt:draws 1
//vrt:lens
func VH_Sm2EncryptDecrypt() {
	N := vrt.OrderOf("sm2")
	n := vhPlainLens[vrt.Choose("len", len(vhPlainLens))]
	d := vrt.Scalar("d", N)
	vrt.Assume(d.Sign() > 0)
	m := vrt.Bytes("m", n)
	c, ret := Encryption(vrt.RefPoint("sm2", d), m, ECC_CURVE_SM2_STANDARD)
	vrt.Assert(ret == SUCCESS, "encryption succeeds")
	vrt.Assert(vrt.And(len(c) == 97+n, c[0] == 4), "04 || C1 || C3 || C2")
	p, ret := Decryption(vrt.Enc(d, 32), c, ECC_CURVE_SM2_STANDARD)
	vrt.Assert(ret == SUCCESS, "decryption succeeds")
	vrt.Assert(vrt.Eq(p, m), "the plaintext comes back")
}

// What encryption produces is the standard's ciphertext.
//
//vrt:prop E06
//vrt:use curve,hash
//vrt:draws 1
//vrt:lens 31
func VH_Sm2EncryptStandard() {
	N := vrt.OrderOf("sm2")
	d := vrt.Scalar("d", N)
	vrt.Assume(d.Sign() > 0)
	m := vrt.Bytes("m", 1)
	c, ret := Encryption(vrt.RefPoint("sm2", d), m, ECC_CURVE_SM2_STANDARD)
	vrt.Assert(vrt.And(ret == SUCCESS, len(c) == 98), "encryption succeeds")
	xy := vrt.RefLin("sm2", c[1:65], d, new(big.Int))
	t := vhKDF(xy, 1)
	vrt.Assert(t[0] != 0, "the key stream is not zero")
	vrt.Assert(c[97] == m[0]^t[0], "C2 = M ^ KDF")
	vrt.Assert(vrt.Eq(c[65:97], vhSm2C3(xy, m)), "C3 = SM3(x2 || M || y2)")
}

// A ciphertext made by the standard's equations decrypts; one whose hash is
// altered in any way does not.
//
//vrt:prop E06
//vrt:use curve,hash
//vrt:split len 6
//vrt:lens 31
func VH_Sm2DecryptMade() {
	N := vrt.OrderOf("sm2")
	n := vhPlainLens[vrt.Choose("len", len(vhPlainLens))]
	d, k := vrt.Scalar("d", N), vrt.Scalar("k", N)
	vrt.Assume(vrt.And(d.Sign() > 0, k.Sign() > 0))
	u := new(big.Int).Mul(d, k)
	u.Mod(u, N)
	vrt.Assume(u.Sign() > 0)
	m := vrt.Bytes("m", n)
	delta := vrt.Bytes("delta", 32)
	xy, t := vhSm2Mask(u, n)
	c := append([]byte{4}, vrt.RefPoint("sm2", k)...)
	for i, h := range vhSm2C3(xy, m) {
		c = append(c, h^delta[i])
	}
	for i := range m {
		c = append(c, m[i]^t[i])
	}
	p, ret := Decryption(vrt.Enc(d, 32), c, ECC_CURVE_SM2_STANDARD)
	if vrt.And(vhAllZero(delta), !vhAllZero(t)) {
		vrt.Assert(ret == SUCCESS, "decryption succeeds")
		vrt.Assert(vrt.Eq(p, m), "the plaintext comes back")
	} else {
		vrt.Assert(vrt.And(ret != SUCCESS, p == nil), "an altered hash is rejected")
	}
}

// Decryption of arbitrary bytes behind a curve point follows the equations.
//
//vrt:prop E06
//vrt:use curve,hash
//vrt:split len 6
//vrt:lens 31
func VH_Sm2DecryptExact() {
	N := vrt.OrderOf("sm2")
	n := vhPlainLens[vrt.Choose("len", len(vhPlainLens))]
	d, k := vrt.Scalar("d", N), vrt.Scalar("k", N)
	vrt.Assume(vrt.And(d.Sign() > 0, k.Sign() > 0))
	u := new(big.Int).Mul(d, k)
	u.Mod(u, N)
	vrt.Assume(u.Sign() > 0)
	rest := vrt.Bytes("c3c2", 32+n)
	c := append(append([]byte{4}, vrt.RefPoint("sm2", k)...), rest...)
	p, ret := Decryption(vrt.Enc(d, 32), c, ECC_CURVE_SM2_STANDARD)
	xy, t := vhSm2Mask(u, n)
	m := make([]byte, n)
	for i := range m {
		m[i] = rest[32+i] ^ t[i]
	}
	ok := vrt.And(!vhAllZero(t), vrt.Eq(vhSm2C3(xy, m), rest[:32]))
	vrt.Assert((ret == SUCCESS) == ok, "accepted exactly when the hash matches")
	if ret == SUCCESS {
		vrt.Assert(vrt.Eq(p, m), "the plaintext of the equations")
	} else {
		vrt.Assert(p == nil, "no plaintext on failure")
	}
}

// Points off the curve, other prefixes, short ciphertexts and unusable keys are rejected.
//
//vrt:prop E06,G02
//vrt:use curve,hash
//vrt:lens 31
func VH_Sm2DecryptRefuses() {
	N := vrt.OrderOf("sm2")
	d := vrt.Scalar("d", N)
	vrt.Assume(d.Sign() > 0)
	key := vrt.Enc(d, 32)
	var c []byte
	switch vrt.Choose("case", 4) {
	case 0:
		xy := vrt.Bytes("xy", 64)
		x, y := new(big.Int).SetBytes(xy[:32]), new(big.Int).SetBytes(xy[32:])
		vrt.Assume(!vrt.OnCurve("sm2", x, y))
		// the hash is what a careless decryption would compute
		m := vrt.Bytes("m", 2)
		b := vrt.MaybeBytes(func() []byte {
			x2, y2 := sm2_std.ScalarMult(x, y, key)
			return append(vrt.Enc(x2, 32), vrt.Enc(y2, 32)...)
		}, 64)
		t := vhKDF(b, 2)
		c = append(append([]byte{4}, xy...), vhSm2C3(b, m)...)
		c = append(c, m[0]^t[0], m[1]^t[1])
	case 1:
		k := vrt.Scalar("k", N)
		vrt.Assume(k.Sign() > 0)
		u := new(big.Int).Mul(d, k)
		u.Mod(u, N)
		vrt.Assume(u.Sign() > 0)
		m := vrt.Bytes("m", 1)
		pre := vrt.U8("pre")
		vrt.Assume(pre != 4)
		xy, t := vhSm2Mask(u, 1)
		c = append(append([]byte{pre}, vrt.RefPoint("sm2", k)...), vhSm2C3(xy, m)...)
		c = append(c, m[0]^t[0])
	case 2:
		lens := [...]int{0, 1, 2, 64, 65, 66, 96, 97}
		n := lens[vrt.Choose("clen", len(lens))]
		c = vrt.Bytes("c", n)
		if n >= 65 {
			k := vrt.Scalar("k", N)
			vrt.Assume(k.Sign() > 0)
			c = append(append([]byte{4}, vrt.RefPoint("sm2", k)...), c[65:]...)
		}
	default:
		lens := [...]int{0, 1, 31, 32, 33, 64}
		key = vrt.Bytes("key", lens[vrt.Choose("klen", len(lens))])
		e := new(big.Int).SetBytes(key)
		vrt.Assume(vrt.Or(len(key) != 32, e.Sign() == 0, e.Cmp(N) >= 0))
		c = append(append([]byte{4}, vrt.RefPoint("sm2", d)...), vrt.Bytes("c", 34)...)
	}
	var p []byte
	ret := uint16(SUCCESS)
	vrt.Assert(!vrt.Panics(func() { p, ret = Decryption(key, c, ECC_CURVE_SM2_STANDARD) }), "no panic")
	vrt.Assert(vrt.And(ret != SUCCESS, p == nil), "rejected without plaintext")
}

// Encryption refuses keys that are not curve points and empty plaintexts.
//
//vrt:prop E06,G02
//vrt:use curve,hash
//vrt:draws 1
//vrt:lens 31
func VH_Sm2EncryptRefuses() {
	var pub []byte
	m := vrt.Bytes("m", 3)
	switch vrt.Choose("case", 3) {
	case 0:
		pub = vrt.Bytes("pub", 64)
		x, y := new(big.Int).SetBytes(pub[:32]), new(big.Int).SetBytes(pub[32:])
		vrt.Assume(!vrt.OnCurve("sm2", x, y))
	case 1:
		lens := [...]int{0, 1, 32, 33, 63, 65, 128}
		pub = vrt.Bytes("pub", lens[vrt.Choose("plen", len(lens))])
	default:
		d := vrt.Scalar("d", vrt.OrderOf("sm2"))
		vrt.Assume(d.Sign() > 0)
		pub = vrt.RefPoint("sm2", d)
		m = m[:0]
		if vrt.Choose("nil", 2) == 1 {
			m = nil
		}
	}
	var c []byte
	ret := uint16(SUCCESS)
	vrt.Assert(!vrt.Panics(func() { c, ret = Encryption(pub, m, ECC_CURVE_SM2_STANDARD) }), "no panic")
	vrt.Assert(vrt.And(ret != SUCCESS, c == nil), "refused")
}
