package edwards25519

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

var vhOff = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

func vhVal(f *FieldElement) *big.Int {
	v := new(big.Int)
	for i := range f {
		t := big.NewInt(int64(f[i]))
		v.Add(v, t.Lsh(t, vhOff[i]))
	}
	return v
}

// vhFe: a field element with limbs in the range ref10 documents: |f| < m * 2^26 (even), 2^25 (odd), m = num/100.
func vhFe(name string, num int64) *FieldElement {
	var f FieldElement
	for i := range f {
		b := int32(num * (1 << 26) / 100)
		if i%2 == 1 {
			b = int32(num * (1 << 25) / 100)
		}
		f[i] = vrt.I32(name, int64(-b), int64(b))
	}
	return &f
}

// vhBounded: limbs within m*2^25 (even) and m*2^24 (odd), as a result carries.
func vhBounded(f *FieldElement, num int64) bool {
	ok := true
	for i := range f {
		b := int32(num * (1 << 26) / 100)
		if i%2 == 1 {
			b = int32(num * (1 << 25) / 100)
		}
		ok = vrt.And(ok, f[i] <= b, f[i] >= -b)
	}
	return ok
}

func vhCong(a, b *big.Int) bool {
	p := vrt.FieldOf("ed25519")
	d := new(big.Int).Sub(a, b)
	return d.Mod(d, p).Sign() == 0
}

//vrt:prop D04
//vrt:use lift
func VH_FeMul() {
	f, g := vhFe("f", 165), vhFe("g", 165)
	want := new(big.Int).Mul(vhVal(f), vhVal(g))
	var h FieldElement
	FeMul(&h, f, g)
	vrt.Assert(vhCong(vhVal(&h), want), "product")
	vrt.Assert(vhBounded(&h, 51), "limbs stay in range")
}

//vrt:prop D04
//vrt:use lift
func VH_FeSquare() {
	f := vhFe("f", 165)
	want := new(big.Int).Mul(vhVal(f), vhVal(f))
	var h FieldElement
	FeSquare(&h, f)
	vrt.Assert(vhCong(vhVal(&h), want), "square")
	vrt.Assert(vhBounded(&h, 51), "limbs stay in range")
	FeSquare2(&h, f)
	vrt.Assert(vhCong(vhVal(&h), want.Add(want, want)), "twice the square")
	vrt.Assert(vhBounded(&h, 51), "limbs stay in range")
}

//vrt:prop D04
//vrt:use lift
func VH_FeAddSub() {
	f, g := vhFe("f", 55), vhFe("g", 55)
	var h FieldElement
	FeAdd(&h, f, g)
	vrt.Assert(vrt.And(vhVal(&h).Cmp(new(big.Int).Add(vhVal(f), vhVal(g))) == 0, vhBounded(&h, 110)), "sum")
	FeSub(&h, f, g)
	vrt.Assert(vrt.And(vhVal(&h).Cmp(new(big.Int).Sub(vhVal(f), vhVal(g))) == 0, vhBounded(&h, 110)), "difference")
	FeNeg(&h, f)
	vrt.Assert(vrt.And(vhVal(&h).Cmp(new(big.Int).Neg(vhVal(f))) == 0, vhBounded(&h, 55)), "negation")
}

//vrt:prop D04
//vrt:use lift
func VH_FeToBytes() {
	f := vhFe("f", 110)
	p := vrt.FieldOf("ed25519")
	want := vhVal(f)
	var b [32]byte
	FeToBytes(&b, f)
	v := new(big.Int)
	for i := range b {
		t := big.NewInt(int64(b[i]))
		v.Add(v, t.Lsh(t, uint(8*i)))
	}
	// |want| < 1.1*2^255, so the residue differs from it by -2p, -p, 0 or p
	same := false
	for i := int64(-1); i <= 2; i++ {
		same = vrt.Or(same, new(big.Int).Sub(v, want).Cmp(new(big.Int).Mul(p, big.NewInt(i))) == 0)
	}
	vrt.Assert(same, "same residue")
	vrt.Assert(v.Cmp(p) < 0, "canonical")
}

//vrt:prop D04
//vrt:use lift
func VH_FeFromBytes() {
	b := vrt.Bytes("b", 32)
	v := new(big.Int)
	for i := range b {
		t := big.NewInt(int64(b[i]))
		if i == 31 {
			t = big.NewInt(int64(b[i] & 127))
		}
		v.Add(v, t.Lsh(t, uint(8*i)))
	}
	var a [32]byte
	copy(a[:], b)
	var f FieldElement
	FeFromBytes(&f, &a)
	vrt.Assert(vhCong(vhVal(&f), v), "value")
	vrt.Assert(vhBounded(&f, 51), "limbs stay in range")
}

func vhLE(b []byte) *big.Int {
	v := new(big.Int)
	for i := range b {
		t := big.NewInt(int64(b[i]))
		v.Add(v, t.Lsh(t, uint(8*i)))
	}
	return v
}

//vrt:prop D04
//vrt:use lift,cut
func VH_ScReduce() {
	b := vrt.Bytes("b", 64)
	want := vhLE(b)
	var in [64]byte
	copy(in[:], b)
	var out [32]byte
	ScReduce(&out, &in)
	v := vhLE(out[:])
	l := vrt.OrderOf("ed25519")
	d := new(big.Int).Sub(v, want)
	vrt.Assert(d.Mod(d, l).Sign() == 0, "same residue")
	vrt.Assert(v.Cmp(l) < 0, "canonical")
}

//vrt:prop D04
//vrt:use lift,cut
func VH_ScMulAdd() {
	a, b, c := vrt.Bytes("a", 32), vrt.Bytes("b", 32), vrt.Bytes("c", 32)
	want := vhLE(a)
	want.Mul(want, vhLE(b))
	want.Add(want, vhLE(c))
	var x, y, z, out [32]byte
	copy(x[:], a)
	copy(y[:], b)
	copy(z[:], c)
	ScMulAdd(&out, &x, &y, &z)
	v := vhLE(out[:])
	l := vrt.OrderOf("ed25519")
	d := new(big.Int).Sub(v, want)
	vrt.Assert(d.Mod(d, l).Sign() == 0, "same residue")
	vrt.Assert(v.Cmp(l) < 0, "canonical")
}
