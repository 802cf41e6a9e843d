package owcrypt

import (
	"crypto/sha512"
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// vhLE reads a little-endian integer.
func vhLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[i] = b[len(b)-1-i]
	}
	return new(big.Int).SetBytes(r)
}

func vhHash512(N *big.Int, parts ...[]byte) *big.Int {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	d := vhLE(h.Sum(nil))
	return d.Mod(d, N)
}

// vhRfcKey: the secret scalar and the prefix of RFC 8032, section 5.1.5.
func vhRfcKey(seed []byte) (*big.Int, []byte) {
	h := sha512.Sum512(seed)
	h[0] &= 0xf8
	h[31] &= 0x7f
	h[31] |= 0x40
	return vhLE(h[:32]), h[32:]
}

// RFC 8032 key generation and signing, byte for byte, and the signature verifies.
//
//vrt:prop D01
//vrt:use fe,edgroup
//vrt:split mlen 3
//vrt:lens 31
func VH_EdRfcSign() {
	N := vrt.OrderOf("ed25519")
	seed := vrt.Bytes("seed", 32)
	m := vrt.Bytes("msg", []int{0, 1, 40}[vrt.Choose("mlen", 3)])
	a, prefix := vhRfcKey(seed)
	A := vrt.EdPoint(a)
	pub, ret := GenPubkey(seed, ECC_CURVE_ED25519_NORMAL)
	vrt.Assert(vrt.And(ret == SUCCESS, vrt.Eq(pub, A)), "public key of RFC 8032")
	r := vhHash512(N, prefix, m)
	R := vrt.EdPoint(r)
	k := vhHash512(N, R, A, m)
	S := new(big.Int).Mul(k, a)
	S.Add(S, r).Mod(S, N)
	sig, _, ret := Signature(seed, nil, m, ECC_CURVE_ED25519_NORMAL)
	vrt.Assert(ret == SUCCESS, "signing succeeds")
	vrt.Assert(vrt.And(len(sig) == 64, vrt.Eq(sig[:32], R)), "R of RFC 8032")
	vrt.Assert(vrt.Eq(sig[32:], vrt.EncLE(S, 32)), "S of RFC 8032")
	vrt.Assert(Verify(pub, nil, m, sig, ECC_CURVE_ED25519_NORMAL) == SUCCESS, "the signature verifies")
}

// vhEdAccepts: the verification rule of RFC 8032, section 5.1.7 (cofactorless).
func vhEdAccepts(pub, m, sig []byte) bool {
	N := vrt.OrderOf("ed25519")
	if len(pub) != 32 || len(sig) != 64 || !vrt.EdDecodes(pub) {
		return false
	}
	S := vhLE(sig[32:])
	if S.Cmp(N) >= 0 {
		return false
	}
	h := vhHash512(N, sig[:32], pub, m)
	return vrt.Eq(vrt.EdLin(pub, true, h, S), sig[:32])
}

func vhEdMode(i int) uint32 {
	if i == 0 {
		return ECC_CURVE_ED25519_NORMAL
	}
	return ECC_CURVE_ED25519
}

// Verification accepts exactly what RFC 8032 accepts: any key bytes, any signature bytes.
//
//vrt:prop D01,D02
//vrt:use fe,edgroup
//vrt:split mode 2
//vrt:split key 6
//vrt:lens 31
func VH_EdVerifyExact() {
	var pub []byte
	N := vrt.OrderOf("ed25519")
	n := 64
	mode := vhEdMode(vrt.Choose("mode", 2))
	switch vrt.Choose("key", 6) {
	case 0:
		pub = vrt.EdPoint(vrt.Scalar("k", N))
	case 1:
		pub = vrt.Bytes("pub", 32)
	case 2:
		pub = vrt.Bytes("pub", []int{31, 33, 64, 0}[vrt.Choose("plen", 4)])
	case 3:
		pub = vrt.EdPoint(vrt.Scalar("k", N))
		n = []int{63, 65, 32, 0}[vrt.Choose("slen", 4)]
	case 4:
		// does not decode
		pub = make([]byte, 32)
		pub[0] = 2
	default:
		pub = vrt.EdPoint(big.NewInt(1))
	}
	sig := vrt.Bytes("sig", n)
	m := vrt.Bytes("msg", 5)
	vrt.Assert((Verify(pub, nil, m, sig, mode) == SUCCESS) == vhEdAccepts(pub, m, sig), "accepted exactly when RFC 8032 accepts")
}

// An altered signature, key or message is judged by the same rule; adding the
// group order to S is refused.
//
//vrt:prop D01,D02
//vrt:use fe,edgroup
//vrt:split mode 2
//vrt:split part 6
//vrt:lens 31
//vrt:draws 1
func VH_EdTamper() {
	N := vrt.OrderOf("ed25519")
	mode := vhEdMode(vrt.Choose("mode", 2))
	key := vrt.Bytes("key", 32)
	if mode == ECC_CURVE_ED25519 {
		key = vrt.EncLE(vrt.Scalar("d", N), 32)
	}
	m := vrt.Bytes("msg", 8)
	pub, ret := GenPubkey(key, mode)
	vrt.Assert(vrt.And(ret == SUCCESS, len(pub) == 32), "public key exists")
	sig, _, ret := Signature(key, nil, m, mode)
	vrt.Assert(vrt.And(ret == SUCCESS, len(sig) == 64), "signature exists")
	switch vrt.Choose("part", 6) {
	case 0:
		d := vrt.Bytes("delta", 32)
		for i := range d {
			sig[i] ^= d[i]
		}
	case 1:
		d := vrt.Bytes("delta", 32)
		for i := range d {
			sig[32+i] ^= d[i]
		}
	case 2:
		d := vrt.Bytes("delta", 32)
		for i := range d {
			pub[i] ^= d[i]
		}
	case 3:
		d := vrt.Bytes("delta", 8)
		for i := range d {
			m[i] ^= d[i]
		}
	case 4:
		S := vhLE(sig[32:])
		S.Add(S, N)
		copy(sig[32:], vrt.EncLE(S, 32))
		vrt.Assert(Verify(pub, nil, m, sig, mode) != SUCCESS, "S + order is refused")
		return
	default:
		sig[63] ^= 0x20 << uint(vrt.Choose("bit", 3))
		vrt.Assert(Verify(pub, nil, m, sig, mode) != SUCCESS, "high bits of S are refused")
		return
	}
	vrt.Assert((Verify(pub, nil, m, sig, mode) == SUCCESS) == vhEdAccepts(pub, m, sig), "accepted exactly when RFC 8032 accepts")
}

// Raw-scalar keys: public key d*B, and a signature verifies.
//
//vrt:prop D02
//vrt:use fe,edgroup
//vrt:lens 31
//vrt:draws 1
//vrt:split mlen 2
//vrt:nomerge
func VH_EdRawSign() {
	N := vrt.OrderOf("ed25519")
	d := vrt.Scalar("d", N)
	key := vrt.EncLE(d, 32)
	m := vrt.Bytes("msg", 7*vrt.Choose("mlen", 2))
	pub, ret := GenPubkey(key, ECC_CURVE_ED25519)
	vrt.Assert(vrt.And(ret == SUCCESS, vrt.Eq(pub, vrt.EdPoint(d))), "public key is d*B")
	vrt.Assert(vrt.Eq(Point_mulBaseG(key, ECC_CURVE_ED25519), pub), "Point_mulBaseG agrees")
	sig, _, ret := Signature(key, nil, m, ECC_CURVE_ED25519)
	vrt.Assert(vrt.And(ret == SUCCESS, len(sig) == 64), "signing succeeds")
	vrt.Assert(vhLE(sig[32:]).Cmp(N) < 0, "S is reduced")
	vrt.Assert(Verify(pub, nil, m, sig, ECC_CURVE_ED25519) == SUCCESS, "the signature verifies")
}

// Private keys of another length are refused.
//
//vrt:prop D01,D02,D03
//vrt:use fe,edgroup
func VH_EdKeyLength() {
	typ := []uint32{ECC_CURVE_ED25519_NORMAL, ECC_CURVE_ED25519, ECC_CURVE_X25519}[vrt.Choose("typ", 3)]
	key := vrt.Bytes("key", []int{0, 31, 33, 64}[vrt.Choose("klen", 4)])
	pub, ret := GenPubkey(key, typ)
	vrt.Assert(vrt.And(ret != SUCCESS, pub == nil), "no public key")
	sig, _, ret := Signature(key, nil, []byte{1}, typ)
	vrt.Assert(vrt.And(ret != SUCCESS, sig == nil), "no signature")
	vrt.Assert(Point_mulBaseG(key, ECC_CURVE_ED25519) == nil, "no multiple")
}

// vhEdForm: a point by kind; ok is false when the bytes encode no point.
func vhEdForm(name string, kind int) (pt []byte, k *big.Int, ok bool) {
	N := vrt.OrderOf("ed25519")
	switch kind {
	case 0:
		k = vrt.Scalar(name, N)
		return vrt.EdPoint(k), k, true
	case 1:
		pt = make([]byte, 32)
		pt[0] = 2
		return pt, nil, false
	case 2:
		pt = vrt.Bytes(name, 32)
		vrt.Assume(!vrt.EdDecodes(pt))
		return pt, nil, false
	}
	return vrt.Bytes(name, []int{0, 1, 31, 33, 64}[vrt.Choose(name+"len", 5)]), nil, false
}

// Point_add is the group law; what is not a point is refused.
//
//vrt:prop D02
//vrt:use fe,edgroup
//vrt:split p 4
//vrt:split q 4
//vrt:lens 31
func VH_EdPointAdd() {
	N := vrt.OrderOf("ed25519")
	P, a, ok1 := vhEdForm("P", vrt.Choose("p", 4))
	Q, b, ok2 := vhEdForm("Q", vrt.Choose("q", 4))
	R, ret := Point_add(P, Q, ECC_CURVE_ED25519)
	if !ok1 || !ok2 {
		vrt.Assert(vrt.And(ret != SUCCESS, R == nil), "what is not a point is refused")
		return
	}
	c := new(big.Int).Add(a, b)
	c.Mod(c, N)
	if c.Sign() == 0 {
		vrt.Assert(vrt.And(ret != SUCCESS, R == nil), "the identity is reported")
		return
	}
	vrt.Assert(vrt.And(ret == SUCCESS, vrt.Eq(R, vrt.EdPoint(c))), "sum")
}

// Point_mulBaseG_add is P + s*B for every 32-byte scalar.
//
//vrt:prop D02
//vrt:use fe,edgroup
//vrt:split p 4
//vrt:lens 31
func VH_EdMulBaseAdd() {
	N := vrt.OrderOf("ed25519")
	P, a, ok := vhEdForm("P", vrt.Choose("p", 4))
	s := vrt.Bytes("s", 32)
	R, inf := Point_mulBaseG_add(P, s, ECC_CURVE_ED25519)
	if !ok {
		vrt.Assert(vrt.And(!inf, R == nil), "what is not a point is refused")
		return
	}
	c := vhLE(s)
	c.Add(c, a).Mod(c, N)
	if c.Sign() == 0 {
		vrt.Assert(vrt.And(inf, R == nil), "infinity is reported")
		return
	}
	vrt.Assert(vrt.And(!inf, R != nil), "infinity is not reported")
	vrt.Assert(vrt.Eq(R, vrt.EdPoint(c)), "P + s*B")
}

// Wrong scalar lengths, and the points of small order.
//
//vrt:prop D02
//vrt:use fe,edgroup
func VH_EdSmallOrder() {
	id, two := make([]byte, 32), make([]byte, 32)
	id[0] = 1
	for i := range two {
		two[i] = 0xff
	}
	two[0], two[31] = 0xec, 0x7f // (0, -1)
	four := make([]byte, 32)     // (x, 0)
	zero := make([]byte, 32)
	add := func(P, Q, want []byte) {
		R, ret := Point_add(P, Q, ECC_CURVE_ED25519)
		if want == nil {
			vrt.Assert(vrt.And(ret != SUCCESS, R == nil), "the identity is reported")
		} else {
			vrt.Assert(vrt.And(ret == SUCCESS, vrt.Eq(R, want)), "sum of small-order points")
		}
	}
	add(two, two, nil)
	add(two, id, two)
	add(id, two, two)
	add(four, four, two)
	add(four, id, four)
	add(id, id, nil)
	R, inf := Point_mulBaseG_add(two, zero, ECC_CURVE_ED25519)
	vrt.Assert(vrt.And(!inf, vrt.Eq(R, two)), "(0,-1) is not the identity")
	R, inf = Point_mulBaseG_add(id, zero, ECC_CURVE_ED25519)
	vrt.Assert(vrt.And(inf, R == nil), "the identity is reported")
	n := []int{0, 31, 33}[vrt.Choose("n", 3)]
	R, inf = Point_mulBaseG_add(two, vrt.Bytes("s", n), ECC_CURVE_ED25519)
	vrt.Assert(vrt.And(!inf, R == nil), "a scalar of another length is refused")
}

// X25519 mode: public key, signing and verification for any 32-byte key.
//
//vrt:prop D03
//vrt:use fe,edgroup
//vrt:lens 31
//vrt:draws 1
//vrt:split mlen 3
//vrt:nomerge
func VH_XSign() {
	N := vrt.OrderOf("ed25519")
	key := vrt.Bytes("key", 32)
	m := vrt.Bytes("msg", []int{0, 1, 40}[vrt.Choose("mlen", 3)])
	d := vhLE(key)
	d.Mod(d, N)
	pub, ret := GenPubkey(key, ECC_CURVE_X25519)
	if d.Sign() == 0 {
		vrt.Assert(vrt.And(ret != SUCCESS, pub == nil), "a multiple of the order has no public key")
		return
	}
	vrt.Assert(vrt.And(ret == SUCCESS, vrt.Eq(pub, vrt.MontU(vrt.EdPoint(d)))), "public key is the image of d*B")
	sig, _, ret := Signature(key, nil, m, ECC_CURVE_X25519)
	vrt.Assert(vrt.And(ret == SUCCESS, len(sig) == 64), "signing succeeds")
	vrt.Assert(Verify(pub, nil, m, sig, ECC_CURVE_X25519) == SUCCESS, "the signature verifies")
}

// vhXAccepts: the Edwards key with the sign bit of the signature verifies it.
func vhXAccepts(pub, m, sig []byte) bool {
	if len(pub) != 32 || len(sig) != 64 {
		return false
	}
	A := vrt.EdFromMont(pub)
	if A == nil {
		return false
	}
	A[31] |= sig[63] & 0x80
	s := append([]byte{}, sig...)
	s[63] &= 0x7f
	return vhEdAccepts(A, m, s)
}

// Verification is exact: any signature bytes under any reduced key.
//
//vrt:prop D03
//vrt:use fe,edgroup
//vrt:split key 4
//vrt:nomerge
//vrt:lens 31
func VH_XVerifyExact() {
	N := vrt.OrderOf("ed25519")
	var pub []byte
	n := 64
	switch vrt.Choose("key", 4) {
	case 0:
		k := vrt.Scalar("k", N)
		vrt.Assume(k.Sign() > 0)
		pub = vrt.MontU(vrt.EdPoint(k))
	case 1:
		pub = vrt.EncLE(vrt.Scalar("u", vrt.FieldOf("ed25519")), 32)
	case 2:
		// u = -1
		pub = vrt.EncLE(new(big.Int).Sub(vrt.FieldOf("ed25519"), big.NewInt(1)), 32)
		sig := make([]byte, 64)
		sig[0] = 1
		vrt.Assert(Verify(pub, nil, vrt.Bytes("msg", 5), sig, ECC_CURVE_X25519) != SUCCESS, "a key with no image is refused")
		return
	default:
		pub = vrt.Bytes("pub", []int{31, 32, 33, 0}[vrt.Choose("plen", 4)])
		n = 63
		if len(pub) != 32 {
			n = 64
		}
	}
	sig := vrt.Bytes("sig", n)
	m := vrt.Bytes("msg", 5)
	vrt.Assert((Verify(pub, nil, m, sig, ECC_CURVE_X25519) == SUCCESS) == vhXAccepts(pub, m, sig), "accepted exactly when the equation holds")
}

// Altered input is judged by the same rule.
//
//vrt:prop D03
//vrt:use fe,edgroup
//vrt:split part 6
//vrt:lens 31
//vrt:draws 1
func VH_XTamper() {
	N := vrt.OrderOf("ed25519")
	d := vrt.Scalar("d", N)
	vrt.Assume(d.Sign() > 0)
	key := vrt.EncLE(d, 32)
	m := vrt.Bytes("msg", 8)
	pub, _ := GenPubkey(key, ECC_CURVE_X25519)
	sig, _, _ := Signature(key, nil, m, ECC_CURVE_X25519)
	vrt.Assert(vrt.And(len(pub) == 32, len(sig) == 64), "key and signature exist")
	switch vrt.Choose("part", 6) {
	case 0:
		x := vrt.Bytes("delta", 32)
		for i := range x {
			sig[i] ^= x[i]
		}
	case 1:
		x := vrt.Bytes("delta", 32)
		for i := range x {
			sig[32+i] ^= x[i]
		}
	case 2:
		k := vrt.Scalar("k", N)
		vrt.Assume(k.Sign() > 0)
		pub = vrt.MontU(vrt.EdPoint(k))
	case 3:
		x := vrt.Bytes("delta", 8)
		for i := range x {
			m[i] ^= x[i]
		}
	case 4:
		sign := sig[63] & 0x80
		sig[63] &= 0x7f
		S := vhLE(sig[32:])
		S.Add(S, N)
		copy(sig[32:], vrt.EncLE(S, 32))
		sig[63] |= sign
		vrt.Assert(Verify(pub, nil, m, sig, ECC_CURVE_X25519) != SUCCESS, "S + order is refused")
		return
	default:
		sig[63] ^= 0x20 << uint(vrt.Choose("bit", 2))
		vrt.Assert(Verify(pub, nil, m, sig, ECC_CURVE_X25519) != SUCCESS, "high bits of S are refused")
		return
	}
	vrt.Assert((Verify(pub, nil, m, sig, ECC_CURVE_X25519) == SUCCESS) == vhXAccepts(pub, m, sig), "accepted exactly when the equation holds")
}

// The conversions are the birational map and its inverse.
//
//vrt:prop D03
//vrt:use fe,edgroup
//vrt:split case 7
//vrt:lens 31
func VH_XConvert() {
	p := vrt.FieldOf("ed25519")
	N := vrt.OrderOf("ed25519")
	switch vrt.Choose("case", 7) {
	case 0:
		// a public key
		k := vrt.Scalar("k", N)
		P := vrt.EdPoint(k)
		u, err := CURVE25519_convert_Ed_to_X(P)
		if k.Sign() == 0 {
			vrt.Assert(vrt.And(err != nil, u == nil), "the identity has no image")
			return
		}
		vrt.Assert(vrt.And(err == nil, vrt.Eq(u, vrt.MontU(P))), "image of a public key")
		y, err := CURVE25519_convert_X_to_Ed(u)
		P[31] &= 0x7f
		vrt.Assert(vrt.And(err == nil, vrt.Eq(y, P)), "round trip up to sign")
	case 1:
		// any y, either sign bit
		y := vrt.Scalar("y", p)
		b := vrt.EncLE(y, 32)
		b[31] |= 0x80 * byte(vrt.Choose("sign", 2))
		u, err := CURVE25519_convert_Ed_to_X(b)
		if y.Cmp(big.NewInt(1)) == 0 {
			vrt.Assert(vrt.And(err != nil, u == nil), "y = 1 has no image")
			return
		}
		vrt.Assert(vrt.And(err == nil, vrt.Eq(u, vrt.MontU(b))), "u = (1+y)/(1-y)")
		back, err := CURVE25519_convert_X_to_Ed(u)
		vrt.Assert(vrt.And(err == nil, vrt.Eq(back, vrt.EncLE(y, 32))), "round trip")
	case 2:
		u := vrt.Scalar("u", p)
		b := vrt.EncLE(u, 32)
		y, err := CURVE25519_convert_X_to_Ed(b)
		if u.Cmp(new(big.Int).Sub(p, big.NewInt(1))) == 0 {
			vrt.Assert(vrt.And(err != nil, y == nil), "u = -1 has no image")
			return
		}
		vrt.Assert(vrt.And(err == nil, vrt.Eq(y, vrt.EdFromMont(b))), "y = (u-1)/(u+1)")
		back, err := CURVE25519_convert_Ed_to_X(y)
		vrt.Assert(vrt.And(err == nil, vrt.Eq(back, b)), "round trip")
	case 3:
		one := make([]byte, 32)
		one[0] = 1
		one[31] = 0x80 * byte(vrt.Choose("sign", 2))
		u, err := CURVE25519_convert_Ed_to_X(one)
		vrt.Assert(vrt.And(err != nil, u == nil), "y = 1 has no image")
	case 4:
		b := vrt.EncLE(new(big.Int).Sub(p, big.NewInt(1)), 32)
		y, err := CURVE25519_convert_X_to_Ed(b)
		vrt.Assert(vrt.And(err != nil, y == nil), "u = -1 has no image")
	case 5:
		// not reduced
		b := vrt.Bytes("u", 32)
		vrt.Assume(vhLE(b).Cmp(p) >= 0)
		y, err := CURVE25519_convert_X_to_Ed(b)
		vrt.Assert(vrt.And(err != nil, y == nil), "an unreduced u is refused")
	default:
		b := vrt.Bytes("b", []int{0, 31, 33}[vrt.Choose("len", 3)])
		y, err := CURVE25519_convert_X_to_Ed(b)
		vrt.Assert(vrt.And(err != nil, y == nil), "other lengths are refused")
		y, err = CURVE25519_convert_Ed_to_X(b)
		vrt.Assert(vrt.And(err != nil, y == nil), "other lengths are refused")
	}
}
