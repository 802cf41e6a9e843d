package owcrypt

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

const vhPallas = "pallas"

// vhScalarOK: the private keys that are accepted, 1..2^254-1
func vhScalarOK(k []byte) bool {
	return vrt.And(new(big.Int).SetBytes(k).Sign() != 0, k[0] < 0x40)
}

// public keys are d*G for the keys from 1 to 2^254-1; nothing else is a key
//
//vrt:prop P03,E01
//vrt:use pfe,pgrp,pmul
//vrt:split len 5
func VH_PastaKey() {
	lens := [...]int{32, 0, 31, 33, 64}
	n := lens[vrt.Choose("len", len(lens))]
	k := vrt.Bytes("k", n)
	pub, ret := GenPubkey(k, ECC_CURVE_PASTA)
	c := Point_mulBaseG(k, ECC_CURVE_PASTA)
	if n != 32 || !vhScalarOK(k) {
		vrt.Assert(vrt.And(ret != SUCCESS, pub == nil), "no key")
		vrt.Assert(c == nil, "no multiple")
		return
	}
	R := vrt.RefPoint(vhPallas, new(big.Int).SetBytes(k))
	vrt.Assert(vrt.And(ret == SUCCESS, vrt.Eq(pub, R)), "d*G")
	vrt.Assert(vrt.Eq(c, vhForm(R, 2)), "compressed d*G")
}

// sums in every encoding; failure exactly for infinity
//
//vrt:prop P03
//vrt:use pfe,pgrp,pmul
//vrt:split form 6
//vrt:nomerge
func VH_PastaAdd() {
	N := vrt.OrderOf(vhPallas)
	a, b := vrt.Scalar("a", N), vrt.Scalar("b", N)
	vrt.Assume(vrt.And(a.Sign() > 0, b.Sign() > 0))
	forms := [...][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 0}, {0, 2}, {2, 2}}
	f := forms[vrt.Choose("form", len(forms))]
	P, ret := Point_add(vhForm(vrt.RefPoint(vhPallas, a), f[0]), vhForm(vrt.RefPoint(vhPallas, b), f[1]), ECC_CURVE_PASTA)
	c := new(big.Int).Add(a, b)
	c.Mod(c, N)
	if c.Sign() == 0 {
		vrt.Assert(vrt.And(ret != SUCCESS, P == nil), "opposite points give infinity")
	} else {
		vrt.Assert(ret == SUCCESS, "a finite sum is returned")
		vrt.Assert(vhIsPoint(P, vhPallas, c), "sum")
	}
}

// multiples for every 32-byte scalar
//
//vrt:prop P03
//vrt:use pfe,pgrp,pmul
//vrt:split form 3
//vrt:nomerge
func VH_PastaMul() {
	N := vrt.OrderOf(vhPallas)
	a := vrt.Scalar("a", N)
	vrt.Assume(a.Sign() > 0)
	k := vrt.Bytes("k", 32)
	P, ret := Point_mul(vhForm(vrt.RefPoint(vhPallas, a), vrt.Choose("form", 3)), k, ECC_CURVE_PASTA)
	c := new(big.Int).SetBytes(k)
	c.Mul(c, a)
	c.Mod(c, N)
	if c.Sign() == 0 {
		vrt.Assert(vrt.And(ret != SUCCESS, P == nil), "a multiple of the order gives infinity")
	} else {
		vrt.Assert(ret == SUCCESS, "a finite multiple is returned")
		vrt.Assert(vhIsPoint(P, vhPallas, c), "multiple")
	}
}

// P + k*G for the scalars that are keys; infinity is flagged
//
//vrt:prop P03
//vrt:use pfe,pgrp,pmul
//vrt:split form 3
//vrt:nomerge
func VH_PastaMulBaseAdd() {
	N := vrt.OrderOf(vhPallas)
	a := vrt.Scalar("a", N)
	vrt.Assume(a.Sign() > 0)
	k := vrt.Bytes("k", 32)
	P, inf := Point_mulBaseG_add(vhForm(vrt.RefPoint(vhPallas, a), vrt.Choose("form", 3)), k, ECC_CURVE_PASTA)
	if !vhScalarOK(k) {
		vrt.Assert(P == nil, "no result for scalars that are refused")
		return
	}
	c := new(big.Int).SetBytes(k)
	c.Add(c, a)
	c.Mod(c, N)
	if c.Sign() == 0 {
		vrt.Assert(vrt.And(inf, P == nil), "infinity is flagged")
	} else {
		vrt.Assert(!inf, "infinity is not flagged")
		vrt.Assert(vhIsPoint(P, vhPallas, c), "P + kG")
	}
}

// arbitrary byte strings: points of the curve give a result on the curve,
// everything else is refused
//
//vrt:prop P03,G02
//vrt:use pfe,pgrp,pmul
//vrt:split op 4
//vrt:split n 9
//vrt:nomerge
//vrt:feasms 300
func VH_PastaAnyPoint() {
	N := vrt.OrderOf(vhPallas)
	p := vrt.FieldOf(vhPallas)
	a := vrt.Scalar("a", N)
	vrt.Assume(a.Sign() > 0)
	good := vrt.RefPoint(vhPallas, a)
	op := vrt.Choose("op", 4)
	lens := [...]int{64, 65, 33, 0, 1, 32, 63, 66, 128}
	n := lens[vrt.Choose("n", len(lens))]
	pt := vrt.Bytes("pt", n)
	k := vrt.Bytes("k", 32)
	var P []byte
	ok := true
	vrt.Assert(!vrt.Panics(func() {
		var ret uint16
		switch op {
		case 0:
			P, ret = Point_add(pt, good, ECC_CURVE_PASTA)
			ok = ret == SUCCESS
		case 1:
			P, ret = Point_add(good, pt, ECC_CURVE_PASTA)
			ok = ret == SUCCESS
		case 2:
			P, ret = Point_mul(pt, k, ECC_CURVE_PASTA)
			ok = ret == SUCCESS
		default:
			P, _ = Point_mulBaseG_add(pt, k, ECC_CURVE_PASTA)
			ok = P != nil
		}
	}), "no panic")
	vrt.Assert(ok == (P != nil), "success exactly with a result")
	if !ok {
		return
	}
	vrt.Assert(n == 64 || n == 65 || n == 33, "length")
	switch n {
	case 33:
		vrt.Assert(vrt.And(vrt.Or(pt[0] == 2, pt[0] == 3), new(big.Int).SetBytes(pt[1:]).Cmp(p) < 0), "compressed form")
	case 65:
		vrt.Assert(pt[0] == 4, "prefix")
		fallthrough
	case 64:
		vrt.Assert(vrt.OnCurve(vhPallas, new(big.Int).SetBytes(pt[n-64:n-32]), new(big.Int).SetBytes(pt[n-32:])), "on the curve")
	}
	vrt.Assert(len(P) == 64, "64 bytes")
}

// scalars of other lengths are refused
//
//vrt:prop P03,G02
//vrt:use pfe,pgrp,pmul
//vrt:nomerge
func VH_PastaScalarLen() {
	N := vrt.OrderOf(vhPallas)
	a := vrt.Scalar("a", N)
	vrt.Assume(a.Sign() > 0)
	good := vrt.RefPoint(vhPallas, a)
	lens := [...]int{0, 1, 31, 33, 64}
	k := vrt.Bytes("k", lens[vrt.Choose("len", len(lens))])
	P, ret := Point_mul(good, k, ECC_CURVE_PASTA)
	vrt.Assert(vrt.And(P == nil, ret != SUCCESS), "Point_mul refuses")
	P, _ = Point_mulBaseG_add(good, k, ECC_CURVE_PASTA)
	vrt.Assert(P == nil, "Point_mulBaseG_add refuses")
}

// compression round trip
//
//vrt:prop P03,E09
//vrt:use pfe,pgrp,pmul
//vrt:split form 2
//vrt:nomerge
func VH_PastaCompress() {
	N := vrt.OrderOf(vhPallas)
	a := vrt.Scalar("a", N)
	vrt.Assume(a.Sign() > 0)
	P := vrt.RefPoint(vhPallas, a)
	c := PointCompress(vhForm(P, vrt.Choose("form", 2)), ECC_CURVE_PASTA)
	vrt.Assert(vrt.And(len(c) == 33, vrt.Or(c[0] == 2, c[0] == 3)), "33 bytes with prefix 2 or 3")
	vrt.Assert(vrt.And(c[0]&1 == P[63]&1, vrt.Eq(c[1:], P[:32])), "parity and x-coordinate")
	u := PointDecompress(c, ECC_CURVE_PASTA)
	vrt.Assert(vrt.And(u != nil, len(u) == 65, u[0] == 4), "decompresses to 65 bytes")
	vrt.Assert(vrt.Eq(u[1:], P), "the same point")
}

//vrt:prop P03,E09,G02
//vrt:use pfe,pgrp,pmul
//vrt:split len 7
//vrt:nomerge
func VH_PastaDecompressAny() {
	lens := [...]int{33, 0, 1, 32, 34, 64, 65}
	n := lens[vrt.Choose("len", len(lens))]
	c := vrt.Bytes("c", n)
	u := PointDecompress(c, ECC_CURVE_PASTA)
	if n != 33 && n != 64 && n != 65 {
		vrt.Assert(u == nil, "other lengths are refused")
	}
	if u == nil {
		return
	}
	vrt.Assert(vrt.And(len(u) == 65, u[0] == 4), "65 bytes")
	if n == 33 {
		vrt.Assert(vrt.And(vrt.Or(c[0] == 2, c[0] == 3), vrt.Eq(u[1:33], c[1:]), u[64]&1 == c[0]&1), "x-coordinate and parity are kept")
	} else {
		vrt.Assert(n >= 64, "length")
		vrt.Assert(vrt.Eq(u[1:], c[n-64:]), "the same point")
	}
	vrt.Assert(vrt.OnCurve(vhPallas, new(big.Int).SetBytes(u[1:33]), new(big.Int).SetBytes(u[33:])), "on the curve")
}
