package pasta

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// vhMont: the words of x*2^256 mod m.
func vhMont(x, m *big.Int) [4]uint64 {
	v := new(big.Int).Mul(x, vhR())
	v.Mod(v, m)
	b := vrt.EncLE(v, 32)
	var w [32]byte
	copy(w[:], b)
	return BytesArrayToU64Array(w)
}

func vhUnmont(w [4]uint64, m *big.Int) *big.Int {
	v := new(big.Int).Mul(vhVal(w), new(big.Int).ModInverse(vhR(), m))
	return v.Mod(v, m)
}

func vhSame(a, b [4]uint64) bool {
	return vrt.And(a[0] == b[0], a[1] == b[1], a[2] == b[2], a[3] == b[3])
}

// exponent chains: inverse, square test
//
//vrt:prop P01
//vrt:use pfe,fepow
func VH_FpInv() {
	p := vhp()
	x := vrt.Scalar("x", p)
	var o [4]uint64
	FiatPastaFpInv(&o, vhMont(x, p))
	e := new(big.Int).Sub(p, big.NewInt(2))
	vrt.Assert(vhSame(o, vhMont(vrt.PowMod(x, e, p), p)), "power p-2")
}

//vrt:prop P01
//vrt:use pfe,fepow
func VH_FpLegendre() {
	p := vhp()
	x := vrt.Scalar("x", p)
	l := FiatPastaFpLegendRe(vhMont(x, p))
	e := new(big.Int).Rsh(p, 1)
	w := vrt.PowMod(x, e, p)
	want := -1
	if x.Sign() == 0 {
		want = 0
	} else if w.Cmp(big.NewInt(1)) == 0 {
		want = 1
	}
	vrt.Assert(l == want, "Euler's criterion")
}

// square roots on cosets g^e * (2^32-th powers), e a 32-bit pattern: the loop
// depends on the coset only
//
//vrt:prop P01
//vrt:use pfe,fepow
//vrt:split e 16
//vrt:nomerge
//vrt:unwind 600
func VH_FpSqrt() {
	p := vhp()
	es := []int64{0, 1, 2, 3, 4, 6, 0x80000000, 0x40000000, 0xfffffffe, 0x55555554, 0xaaaaaaaa, 0x12345678, 0xfedcba98, 0x10000, 0xdeadbeee, 0x7ffffffe}
	e := es[vrt.Choose("e", 16)]
	y := vrt.Unit("y", p)
	c := new(big.Int).Exp(big.NewInt(5), big.NewInt(e), p) // 5 generates the 2-part
	v := vrt.PowMod(y, new(big.Int).Lsh(big.NewInt(1), 32), p)
	v.Mul(v, c)
	v.Mod(v, p)
	w := vhMont(v, p)
	var r, s [4]uint64
	ok := FiatPastaFpSqrt(&r, w)
	vrt.Assert(ok == (e&1 == 0), "squares have roots")
	if ok {
		FiatPastaFpSquare(&s, r)
		vrt.Assert(vhSame(s, w), "the square of the root")
	}
}

//vrt:prop P01
func VH_FpSqrtZero() {
	r := [4]uint64{1, 2, 3, 4}
	vrt.Assert(FiatPastaFpSqrt(&r, [4]uint64{}) && vhSame(r, [4]uint64{}), "root of zero")
}

//vrt:prop P01
//vrt:use lift,limb
//vrt:nomerge
func VH_FieldEquals() {
	a, b := vhEl("a", vhp()), vhEl("b", vhp())
	same := vhVal(a).Cmp(vhVal(b)) == 0
	vrt.Assert(FiatPastaFpEquals(a, b) == same, "equality (Fp)")
	vrt.Assert(FieldEq(a, b) == 1 == same, "FieldEq")
	vrt.Assert(FiatPastaFpEqualsZero(a) == (vhVal(a).Sign() == 0), "zero (Fp)")
	vrt.Assert(FiatPastaFpEqualsOne(a) == (vhVal(a).Cmp(vhVal(vhMont(big.NewInt(1), vhp()))) == 0), "one (Fp)")
}

//vrt:prop P01
//vrt:use lift,limb
//vrt:nomerge
func VH_ScalarEquals() {
	a, b := vhEl("a", vhq()), vhEl("b", vhq())
	same := vhVal(a).Cmp(vhVal(b)) == 0
	vrt.Assert(FiatPastaFqEquals(a, b) == same, "equality (Fq)")
	vrt.Assert(ScalarEq(a, b) == same, "ScalarEq")
}

// field and scalar wrappers
//
//vrt:prop P01
//vrt:use pfe,pinv
func VH_FieldOps() {
	p, q := vhp(), vhq()
	x, y := vrt.Scalar("x", p), vrt.Scalar("y", p)
	var c Field
	chk := func(z *big.Int, m *big.Int, w [4]uint64, msg string) {
		vrt.Assert(vhSame(w, vhMont(new(big.Int).Mod(z, m), m)), msg)
	}
	a, b := Field(vhMont(x, p)), Field(vhMont(y, p))
	FieldAdd(&c, a, b)
	chk(new(big.Int).Add(x, y), p, c, "FieldAdd")
	FieldSub(&c, a, b)
	chk(new(big.Int).Sub(x, y), p, c, "FieldSub")
	FieldMul(&c, a, b)
	chk(new(big.Int).Mul(x, y), p, c, "FieldMul")
	FieldSq(&c, a)
	chk(new(big.Int).Mul(x, x), p, c, "FieldSq")
	FieldNegate(&c, a)
	chk(new(big.Int).Neg(x), p, c, "FieldNegate")
	FieldCopy(&c, a)
	chk(x, p, c, "FieldCopy")
	vrt.Assert(FieldIsOdd(a) == (vrt.Enc(x, 32)[31]&1 == 1), "FieldIsOdd")
	s, t := vrt.Scalar("s", q), vrt.Scalar("t", q)
	var k Scalar
	d, e := Scalar(vhMont(s, q)), Scalar(vhMont(t, q))
	ScalarAdd(&k, d, e)
	chk(new(big.Int).Add(s, t), q, k, "ScalarAdd")
	ScalarSub(&k, d, e)
	chk(new(big.Int).Sub(s, t), q, k, "ScalarSub")
	ScalarMul(&k, d, e)
	chk(new(big.Int).Mul(s, t), q, k, "ScalarMul")
	ScalarSq(&k, d)
	chk(new(big.Int).Mul(s, s), q, k, "ScalarSq")
	ScalarNegate(&k, d)
	chk(new(big.Int).Neg(s), q, k, "ScalarNegate")
	ScalarCopy(&k, d)
	chk(s, q, k, "ScalarCopy")
}

//vrt:prop P01
//vrt:use pfe,fepow
//vrt:split n 12
func VH_FieldPow() {
	p := vhp()
	x := vrt.Scalar("x", p)
	n := []uint8{0, 1, 2, 3, 4, 5, 7, 8, 16, 100, 128, 255}[vrt.Choose("n", 12)]
	var c Field
	FieldPow(&c, vhMont(x, p), n)
	want := big.NewInt(1)
	if n > 0 {
		want = vrt.PowMod(x, big.NewInt(int64(n)), p)
	}
	vrt.Assert(vhSame(c, vhMont(want, p)), "power")
}

// big-endian encodings
//
//vrt:prop P01
//vrt:use pfe
func VH_FieldBytes() {
	p, q := vhp(), vhq()
	b := vrt.Bytes("b", 32)
	v := new(big.Int).SetBytes(b)
	fp := BigEndianBytesToFpMontgomeryArray(b)
	fq := BigEndianBytesToFqMontgomeryArray(b)
	vrt.Assert(vhSame(fp, vhMont(new(big.Int).Mod(v, p), p)), "bytes to field")
	vrt.Assert(vhSame(fq, vhMont(new(big.Int).Mod(v, q), q)), "bytes to scalar")
	vrt.Assert(vrt.Eq(FpMontgomeryArrayToBigEndianBytes(fp), vrt.Enc(new(big.Int).Mod(v, p), 32)), "field to bytes")
	vrt.Assert(vrt.Eq(FqMontgomeryArrayToBigEndianBytes(fq), vrt.Enc(new(big.Int).Mod(v, q), 32)), "scalar to bytes")
	var s Scalar
	ScalarFromWords(&s, vhMont(v, q))
	var w [32]byte
	copy(w[:], vrt.EncLE(v.Mul(v, vhR()).Mod(v, q), 32))
	w[31] &= 63
	vrt.Assert(vhSame(s, vhMont(new(big.Int).Mod(vhLE(w[:]), q), q)), "words to scalar")
}

func vhLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}
