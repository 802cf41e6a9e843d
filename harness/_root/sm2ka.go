package owcrypt

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// vhXBar is 2^127 + (x mod 2^127).
func vhXBar(pt []byte) *big.Int {
	b := append([]byte{}, pt[16:32]...)
	b[0] = b[0]&0x7f | 0x80
	return new(big.Int).SetBytes(b)
}

// vhKAPoint is (d + xbar(R)*r) * (P' + xbar(R')*R') for key d and ephemeral r
// against a peer with discrete logarithms e and q.
func vhKAPoint(d, r *big.Int, R []byte, e, q *big.Int, Q []byte, N *big.Int) *big.Int {
	t := new(big.Int).Mul(vhXBar(R), r)
	t.Add(t, d)
	u := new(big.Int).Mul(vhXBar(Q), q)
	u.Add(u, e)
	u.Mul(u, t)
	return u.Mod(u, N)
}

// vhKASum is the confirmation hash of GB/T 32918.3.
func vhKASum(tag byte, xy, za, zb, ra, rb []byte) []byte {
	b := append([]byte{}, xy[:32]...)
	b = append(append(append(append(b, za...), zb...), ra...), rb...)
	c := append([]byte{tag}, xy[32:]...)
	return vhSM3(append(c, vhSM3(b)...))
}

var vhKeyLens = [...]int{16, 1, 31, 32, 33, 48, 64, 70}

type vhKA struct {
	N                 *big.Int
	da, db, ra, rb, u *big.Int
	PA, PB, RA, RB    []byte
	ida, idb          []byte
	za, zb, xy        []byte
}

func vhKASetup() *vhKA {
	k := new(vhKA)
	k.N = vrt.OrderOf("sm2")
	k.da, k.db, k.ra, k.rb = vrt.Scalar("da", k.N), vrt.Scalar("db", k.N), vrt.Scalar("ra", k.N), vrt.Scalar("rb", k.N)
	vrt.Assume(vrt.And(k.da.Sign() > 0, k.db.Sign() > 0, k.ra.Sign() > 0, k.rb.Sign() > 0))
	k.PA, k.PB = vrt.RefPoint("sm2", k.da), vrt.RefPoint("sm2", k.db)
	k.RA, k.RB = vrt.RefPoint("sm2", k.ra), vrt.RefPoint("sm2", k.rb)
	k.ida, k.idb = vrt.Bytes("ida", 3), vrt.Bytes("idb", 4)
	k.za, k.zb = vhZA(k.ida, k.PA), vhZA(k.idb, k.PB)
	k.u = vhKAPoint(k.da, k.ra, k.RA, k.db, k.rb, k.RB, k.N)
	vrt.Assume(k.u.Sign() > 0)
	// P' + xbar*R' itself must not be the point at infinity either
	k.xy = vrt.RefPoint("sm2", k.u)
	return k
}

func (k *vhKA) key(n int) []byte {
	return vhKDF(append(append(append([]byte{}, k.xy...), k.za...), k.zb...), n)
}

// The responder's step gives the key and confirmation values of the standard.
//
//vrt:prop E07
//vrt:use curve,hash
//vrt:split keylen 8
//vrt:lens
func VH_KAResponder() {
	k := vhKASetup()
	n := vhKeyLens[vrt.Choose("keylen", len(vhKeyLens))]
	key, rb, s1, s2, ret := KeyAgreement_responder_ElGamal_step1(k.ida, k.idb, vrt.Enc(k.db, 32), k.PB, k.PA, k.RA, uint16(n), vrt.Enc(k.rb, 32), ECC_CURVE_SM2_STANDARD)
	vrt.Assert(ret == SUCCESS, "the step succeeds")
	vrt.Assert(vrt.Eq(rb, k.RB), "ephemeral public key")
	vrt.Assert(len(key) == n, "key of the requested length")
	vrt.Assert(vrt.Eq(key, k.key(n)), "key of the standard")
	vrt.Assert(vrt.Eq(s2, vhKASum(2, k.xy, k.za, k.zb, k.RA, k.RB)), "confirmation for the initiator")
	vrt.Assert(vrt.Eq(s1, vhKASum(3, k.xy, k.za, k.zb, k.RA, k.RB)), "confirmation expected from the initiator")
}

// The initiator's step gives the same, exactly when the confirmation value matches.
//
//vrt:prop E07
//vrt:use curve,hash
//vrt:split keylen 8
//vrt:lens
func VH_KAInitiator() {
	k := vhKASetup()
	n := vhKeyLens[vrt.Choose("keylen", len(vhKeyLens))]
	delta := make([]byte, 32)
	sin := vhKASum(2, k.xy, k.za, k.zb, k.RA, k.RB)
	if n == 33 {
		delta = vrt.Bytes("delta", 32)
		for i := range sin {
			sin[i] ^= delta[i]
		}
	}
	key, sout, ret := KeyAgreement_initiator_step2(k.ida, k.idb, vrt.Enc(k.da, 32), k.PA, k.PB, vrt.Enc(k.ra, 32), k.RA, k.RB, sin, uint16(n), ECC_CURVE_SM2_STANDARD)
	if vhAllZero(delta) {
		vrt.Assert(ret == SUCCESS, "the step succeeds")
		vrt.Assert(len(key) == n, "key of the requested length")
		vrt.Assert(vrt.Eq(key, k.key(n)), "key of the standard")
		vrt.Assert(vrt.Eq(sout, vhKASum(3, k.xy, k.za, k.zb, k.RA, k.RB)), "confirmation for the responder")
	} else {
		vrt.Assert(vrt.And(ret != SUCCESS, key == nil, sout == nil), "a wrong confirmation releases no key")
	}
}

// Short encodings of the shared point, and both parties against each other.
//
//vrt:prop E07
//vrt:use curve,hash
//vrt:draws 1
//vrt:lens 31
func VH_KABoth() {
	k := vhKASetup()
	key, rb, s1, s2, ret := KeyAgreement_responder_ElGamal_step1(k.ida, k.idb, vrt.Enc(k.db, 32), k.PB, k.PA, k.RA, 16, vrt.Enc(k.rb, 32), ECC_CURVE_SM2_STANDARD)
	vrt.Assert(ret == SUCCESS, "responder's first step succeeds")
	vrt.Assert(vrt.Eq(key, k.key(16)), "key of the standard")
	vrt.Assert(vrt.Eq(s2, vhKASum(2, k.xy, k.za, k.zb, k.RA, k.RB)), "confirmation for the initiator")
	key2, sout, ret := KeyAgreement_initiator_step2(k.ida, k.idb, vrt.Enc(k.da, 32), k.PA, k.PB, vrt.Enc(k.ra, 32), k.RA, rb, s2, 16, ECC_CURVE_SM2_STANDARD)
	vrt.Assert(ret == SUCCESS, "initiator's second step succeeds")
	vrt.Assert(vrt.Eq(key, key2), "both derive the same key")
	vrt.Assert(KeyAgreement_responder_step2(sout, s1, ECC_CURVE_SM2_STANDARD) == SUCCESS, "the responder accepts")
}

// Long keys: block counter above one byte, and lengths of 8192 bytes and more.
//
//vrt:prop E07
//vrt:use curve,hash
//vrt:lens
func VH_KALongKey() {
	k := vhKASetup()
	lens := [...]int{8160, 8192, 8223, 65535}
	n := lens[vrt.Choose("keylen", len(lens))]
	key, _, _, _, ret := KeyAgreement_responder_ElGamal_step1(k.ida, k.idb, vrt.Enc(k.db, 32), k.PB, k.PA, k.RA, uint16(n), vrt.Enc(k.rb, 32), ECC_CURVE_SM2_STANDARD)
	vrt.Assert(vrt.And(ret == SUCCESS, len(key) == n), "key of the requested length")
	want := k.key(n)
	vrt.Assert(vrt.And(vrt.Eq(key[:32], want[:32]), vrt.Eq(key[n-40:], want[n-40:])), "first and last blocks are the standard's")
}

// The responder's own random ephemeral key.
//
//vrt:prop E07
//vrt:use curve,hash
//vrt:draws 1
//vrt:lens
func VH_KARandom() {
	N := vrt.OrderOf("sm2")
	priv, pub := KeyAgreement_initiator_step1(ECC_CURVE_SM2_STANDARD)
	vrt.Assert(len(priv) == 32, "32-byte ephemeral key")
	r := new(big.Int).SetBytes(priv)
	vrt.Assume(r.Sign() > 0)
	vrt.Assert(r.Cmp(N) < 0, "ephemeral key below the order")
	vrt.Assert(vrt.Eq(pub, vrt.RefPoint("sm2", r)), "ephemeral public key is r*G")
}

// The responder with its own random ephemeral key against the initiator.
//
//vrt:prop E07
//vrt:use curve,hash
//vrt:draws 1
//vrt:lens
func VH_KARandomBoth() {
	k := vhKASetup()
	key, rb, s1, s2, ret := KeyAgreement_responder_step1(k.ida, k.idb, vrt.Enc(k.db, 32), k.PB, k.PA, k.RA, 40, ECC_CURVE_SM2_STANDARD)
	if ret != SUCCESS {
		return // the random key was zero or the shared point infinite
	}
	vrt.Assert(len(key) == 40, "key of the requested length")
	key2, sout, ret := KeyAgreement_initiator_step2(k.ida, k.idb, vrt.Enc(k.da, 32), k.PA, k.PB, vrt.Enc(k.ra, 32), k.RA, rb, s2, 40, ECC_CURVE_SM2_STANDARD)
	vrt.Assert(ret == SUCCESS, "initiator's second step succeeds")
	vrt.Assert(vrt.Eq(key, key2), "both derive the same key")
	vrt.Assert(KeyAgreement_responder_step2(sout, s1, ECC_CURVE_SM2_STANDARD) == SUCCESS, "the responder accepts")
}

// The final check compares the whole confirmation value.
//
//vrt:prop E07
func VH_KAConfirm() {
	lens := [...]int{32, 0, 1, 31, 33, 64}
	a, b := vrt.Bytes("a", lens[vrt.Choose("la", len(lens))]), vrt.Bytes("b", lens[vrt.Choose("lb", len(lens))])
	got := KeyAgreement_responder_step2(a, b, ECC_CURVE_SM2_STANDARD)
	if len(a) == 32 && len(b) == 32 {
		vrt.Assert((got == SUCCESS) == vrt.Eq(a, b), "accepted exactly when equal")
	} else {
		vrt.Assert(got != SUCCESS, "other lengths are refused")
	}
}

// Malformed keys, identities and lengths: an error, no key, no crash.
//
//vrt:prop E07,G02
//vrt:use curve,hash
//vrt:split who 2
//vrt:draws 1
//vrt:lens
func VH_KARefuses() {
	k := vhKASetup()
	who := vrt.Choose("who", 2)
	ida, idb := k.ida, k.idb
	da, ra, db, rb := vrt.Enc(k.da, 32), vrt.Enc(k.ra, 32), vrt.Enc(k.db, 32), vrt.Enc(k.rb, 32)
	PA, PB, RA, RB := k.PA, k.PB, k.RA, k.RB
	badPub := func() []byte {
		lens := [...]int{64, 0, 1, 32, 63, 65}
		p := vrt.Bytes("badpub", lens[vrt.Choose("badpublen", len(lens))])
		if len(p) == 64 {
			vrt.Assume(!vrt.OnCurve("sm2", new(big.Int).SetBytes(p[:32]), new(big.Int).SetBytes(p[32:])))
		}
		return p
	}
	badKey := func() []byte {
		lens := [...]int{32, 0, 1, 31, 33, 64}
		p := vrt.Bytes("badkey", lens[vrt.Choose("badkeylen", len(lens))])
		d := new(big.Int).SetBytes(p)
		vrt.Assume(vrt.Or(len(p) != 32, d.Sign() == 0, d.Cmp(k.N) >= 0))
		return p
	}
	sin := vhKASum(2, k.xy, k.za, k.zb, k.RA, k.RB)
	switch vrt.Choose("what", 9) {
	case 0:
		PA = badPub()
	case 1:
		PB = badPub()
	case 2:
		if who == 0 {
			RB = badPub()
		} else {
			RA = badPub()
		}
	case 3:
		if who == 0 {
			da = badKey()
		} else {
			db = badKey()
		}
	case 4:
		if who == 0 {
			ra = badKey()
		} else {
			rb = badKey()
			if len(rb) == 0 {
				return
			}
		}
	case 5:
		ida = nil
	case 6:
		idb = nil
	case 7:
		if who == 0 {
			lens := [...]int{0, 1, 31, 33}
			sin = vrt.Bytes("sin", lens[vrt.Choose("sinlen", len(lens))])
		} else {
			ida = make([]byte, 8192)
		}
	default:
		idb = make([]byte, 8192)
	}
	ret := uint16(SUCCESS)
	var key, s1, s2, pub []byte
	vrt.Assert(!vrt.Panics(func() {
		if who == 0 {
			key, s1, ret = KeyAgreement_initiator_step2(ida, idb, da, PA, PB, ra, RA, RB, sin, 16, ECC_CURVE_SM2_STANDARD)
		} else {
			key, pub, s1, s2, ret = KeyAgreement_responder_ElGamal_step1(ida, idb, db, PB, PA, RA, 16, rb, ECC_CURVE_SM2_STANDARD)
		}
	}), "no panic")
	vrt.Assert(vrt.And(ret != SUCCESS, key == nil, s1 == nil, s2 == nil, pub == nil), "refused, nothing released")
}
