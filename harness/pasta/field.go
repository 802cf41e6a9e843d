package pasta

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

func vhp() *big.Int { return vrt.FieldOf("pallas") }
func vhq() *big.Int { return vrt.OrderOf("pallas") }

func vhVal(f [4]uint64) *big.Int {
	v := new(big.Int)
	for i := range f {
		t := new(big.Int).SetUint64(f[i])
		v.Add(v, t.Lsh(t, uint(64*i)))
	}
	return v
}

// vhEl: any canonical element below m (the modulus has 255 bits, its top word is 2^62).
func vhEl(name string, m *big.Int) [4]uint64 {
	var f [4]uint64
	for i := 0; i < 3; i++ {
		f[i] = vrt.U64(name)
	}
	f[3] = vrt.R64(name, 1<<62)
	vrt.Assume(vhVal(f).Cmp(m) < 0)
	return f
}

func vhZero(d, m *big.Int) bool { return new(big.Int).Mod(d, m).Sign() == 0 }

func vhR() *big.Int { return new(big.Int).Lsh(big.NewInt(1), 256) }

// word primitives, on words given by their halves
//
//vrt:prop P01
//vrt:use lift
func VH_LimbMul() {
	mk := func(n string) uint64 {
		return vrt.R64(n+".lo", 1<<32-1) + vrt.R64(n+".hi", 1<<32-1)<<32
	}
	a, b := mk("a"), mk("b")
	want := new(big.Int).Mul(new(big.Int).SetUint64(a), new(big.Int).SetUint64(b))
	var lo, hi uint64
	for f := 0; f < 2; f++ {
		if f == 0 {
			FiatPastaFpMulXU64(&lo, &hi, a, b)
		} else {
			FiatPastaFqMulXU64(&lo, &hi, a, b)
		}
		v := new(big.Int).SetUint64(hi)
		v.Lsh(v, 64)
		v.Add(v, new(big.Int).SetUint64(lo))
		vrt.Assert(v.Cmp(want) == 0, "double-width product")
	}
}

//vrt:prop P01
func VH_LimbCarry() {
	a, b := vrt.U64("a"), vrt.U64("b")
	c := uint8(vrt.Choose("c", 2))
	// 65-bit sums in two words
	s := a + b
	h := uint8(0)
	if s < a {
		h++
	}
	s2 := s + uint64(c)
	if s2 < s {
		h++
	}
	d := a - b
	w := uint8(0)
	if a < b {
		w++
	}
	d2 := d - uint64(c)
	if d < uint64(c) {
		w++
	}
	m := b
	if c == 0 {
		m = a
	}
	var o uint64
	var p1 FiatPastaFpUint1
	FiatPastaFpAddCarryXU64(&o, &p1, FiatPastaFpUint1(c), a, b)
	vrt.Assert(vrt.And(o == s2, uint8(p1) == h), "sum and carry (Fp)")
	FiatPastaFpSubBorrowXU64(&o, &p1, FiatPastaFpUint1(c), a, b)
	vrt.Assert(vrt.And(o == d2, uint8(p1) == w), "difference and borrow (Fp)")
	FiatPastaFpCmovznzU64(&o, FiatPastaFpUint1(c), a, b)
	vrt.Assert(o == m, "conditional move (Fp)")
	var q1 FiatPastaFqUint1
	FiatPastaFqAddCarryXU64(&o, &q1, FiatPastaFqUint1(c), a, b)
	vrt.Assert(vrt.And(o == s2, uint8(q1) == h), "sum and carry (Fq)")
	FiatPastaFqSubBorrowXU64(&o, &q1, FiatPastaFqUint1(c), a, b)
	vrt.Assert(vrt.And(o == d2, uint8(q1) == w), "difference and borrow (Fq)")
	FiatPastaFqCmovznzU64(&o, FiatPastaFqUint1(c), a, b)
	vrt.Assert(o == m, "conditional move (Fq)")
}

//vrt:prop P01
//vrt:use lift,limb
//vrt:nomerge
func VH_FpMul() {
	m := vhp()
	a, b := vhEl("a", m), vhEl("b", m)
	var o [4]uint64
	FiatPastaFpMul(&o, a, b)
	v := vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "canonical")
	v.Mul(v, vhR())
	vrt.Assert(vhZero(v.Sub(v, new(big.Int).Mul(vhVal(a), vhVal(b))), m), "product")
}

//vrt:prop P01
//vrt:use lift,limb
//vrt:nomerge
func VH_FpSquare() {
	m := vhp()
	a := vhEl("a", m)
	var o [4]uint64
	FiatPastaFpSquare(&o, a)
	v := vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "canonical")
	v.Mul(v, vhR())
	vrt.Assert(vhZero(v.Sub(v, new(big.Int).Mul(vhVal(a), vhVal(a))), m), "square")
}

//vrt:prop P01
//vrt:use lift,limb
//vrt:nomerge
func VH_FpAddSub() {
	m := vhp()
	a, b := vhEl("a", m), vhEl("b", m)
	var o [4]uint64
	FiatPastaFpAdd(&o, a, b)
	v := vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "sum canonical")
	vrt.Assert(vhZero(v.Sub(v, new(big.Int).Add(vhVal(a), vhVal(b))), m), "sum")
	FiatPastaFpSub(&o, a, b)
	v = vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "difference canonical")
	vrt.Assert(vhZero(v.Sub(v, new(big.Int).Sub(vhVal(a), vhVal(b))), m), "difference")
	FiatPastaFpOpp(&o, a)
	v = vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "negative canonical")
	vrt.Assert(vhZero(v.Add(v, vhVal(a)), m), "negative")
}

//vrt:prop P01
//vrt:use lift,limb
//vrt:nomerge
func VH_FpFromMontgomery() {
	m := vhp()
	a := vhEl("a", m)
	var o [4]uint64
	FiatPastaFpFromMontgomery(&o, a)
	v := vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "canonical")
	v.Mul(v, vhR())
	vrt.Assert(vhZero(v.Sub(v, vhVal(a)), m), "value")
}

//vrt:prop P01
//vrt:use lift,limb
//vrt:nomerge
func VH_FpToMontgomery() {
	m := vhp()
	a := vhEl("a", m)
	var o [4]uint64
	FiatPastaFpToMontgomery(&o, a)
	v := vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "canonical")
	w := new(big.Int).Mul(vhVal(a), vhR())
	vrt.Assert(vhZero(v.Sub(v, w), m), "value")
}

//vrt:prop P01
//vrt:use lift,limb
//vrt:nomerge
func VH_FqMul() {
	m := vhq()
	a, b := vhEl("a", m), vhEl("b", m)
	var o [4]uint64
	FiatPastaFqMul(&o, a, b)
	v := vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "canonical")
	v.Mul(v, vhR())
	vrt.Assert(vhZero(v.Sub(v, new(big.Int).Mul(vhVal(a), vhVal(b))), m), "product")
}

//vrt:prop P01
//vrt:use lift,limb
//vrt:nomerge
func VH_FqSquare() {
	m := vhq()
	a := vhEl("a", m)
	var o [4]uint64
	FiatPastaFqSquare(&o, a)
	v := vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "canonical")
	v.Mul(v, vhR())
	vrt.Assert(vhZero(v.Sub(v, new(big.Int).Mul(vhVal(a), vhVal(a))), m), "square")
}

//vrt:prop P01
//vrt:use lift,limb
//vrt:nomerge
func VH_FqAddSub() {
	m := vhq()
	a, b := vhEl("a", m), vhEl("b", m)
	var o [4]uint64
	FiatPastaFqAdd(&o, a, b)
	v := vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "sum canonical")
	vrt.Assert(vhZero(v.Sub(v, new(big.Int).Add(vhVal(a), vhVal(b))), m), "sum")
	FiatPastaFqSub(&o, a, b)
	v = vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "difference canonical")
	vrt.Assert(vhZero(v.Sub(v, new(big.Int).Sub(vhVal(a), vhVal(b))), m), "difference")
	FiatPastaFqOpp(&o, a)
	v = vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "negative canonical")
	vrt.Assert(vhZero(v.Add(v, vhVal(a)), m), "negative")
}

//vrt:prop P01
//vrt:use lift,limb
//vrt:nomerge
func VH_FqFromMontgomery() {
	m := vhq()
	a := vhEl("a", m)
	var o [4]uint64
	FiatPastaFqFromMontgomery(&o, a)
	v := vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "canonical")
	v.Mul(v, vhR())
	vrt.Assert(vhZero(v.Sub(v, vhVal(a)), m), "value")
}

//vrt:prop P01
//vrt:use lift,limb
//vrt:nomerge
func VH_FqToMontgomery() {
	m := vhq()
	a := vhEl("a", m)
	var o [4]uint64
	FiatPastaFqToMontgomery(&o, a)
	v := vhVal(o)
	vrt.Assert(v.Cmp(m) < 0, "canonical")
	w := new(big.Int).Mul(vhVal(a), vhR())
	vrt.Assert(vhZero(v.Sub(v, w), m), "value")
}
