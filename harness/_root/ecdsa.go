package owcrypt

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

func vhCurve(i int) (uint32, string) {
	switch i {
	case 0:
		return ECC_CURVE_SECP256K1, "secp256k1"
	case 1:
		return ECC_CURVE_SECP256R1, "secp256r1"
	}
	return ECC_CURVE_SM2_STANDARD, "sm2"
}

// ECDSA public keys are d*G for every private key in [1,N-1]; nothing else is accepted.
//
//vrt:prop E01
//vrt:use curve
func VH_EcdsaGenPub() {
	typ, name := vhCurve(vrt.Choose("curve", 3))
	key := vrt.Bytes("key", 32)
	N := vrt.OrderOf(name)
	d := new(big.Int).SetBytes(key)
	valid := vrt.And(d.Sign() > 0, d.Cmp(N) < 0)
	pub, ret := GenPubkey(key, typ)
	vrt.Assert((ret == SUCCESS) == valid, "exactly the keys 1..N-1 are accepted")
	if ret == SUCCESS {
		vrt.Assert(vrt.Eq(pub, vrt.RefPoint(name, d)), "public key is d*G")
	} else {
		vrt.Assert(pub == nil, "no key on error")
	}
}

// Sign then verify.
//
//vrt:prop E02
//vrt:use curve,hash
//vrt:lens 31,1,0
//vrt:split curve 2
//vrt:draws 1
func VH_EcdsaSignVerify() {
	typ, name := vhCurve(vrt.Choose("curve", 2))
	N := vrt.OrderOf(name)
	d := vrt.Scalar("d", N)
	vrt.Assume(d.Sign() > 0)
	key := vrt.Enc(d, 32)
	msg := vrt.Bytes("msg", 32)
	sig, v, ret := Signature(key, nil, msg, typ)
	vrt.Assert(ret == SUCCESS, "signing succeeds")
	vrt.Assert(len(sig) == 64, "signature is 64 bytes")
	vrt.Assert(v <= 1, "recovery id is 0 or 1")
	s := new(big.Int).SetBytes(sig[32:])
	h := new(big.Int).Rsh(N, 1)
	vrt.Assert(vrt.And(s.Sign() > 0, s.Cmp(h) <= 0), "s is low")
	pub, ret := GenPubkey(key, typ)
	vrt.Assert(ret == SUCCESS, "public key exists")
	vrt.Assert(Verify(pub, nil, msg, sig, typ) == SUCCESS, "own signature verifies")
}
