package edwards25519

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// Scalar multiplication: recoding, tables and loops are executed; the point
// formulas act on discrete logarithms (use eddlog).

//vrt:prop D04
//vrt:use eddlog,lift
//vrt:split pos 32
//vrt:nomerge
func VH_SelectPoint() {
	pos := vrt.Choose("pos", 32)
	b := vrt.I32("b", -8, 8)
	var t PreComputedGroupElement
	selectPoint(&t, int32(pos), b)
	var h, z ExtendedGroupElement
	var r CompletedGroupElement
	var one [32]byte
	copy(one[:], vrt.EdPoint(big.NewInt(1)))
	z.FromBytes(&one)
	geMixedAdd(&r, &z, &t)
	r.ToExtended(&h)
	var out [32]byte
	h.ToBytes(&out)
	k := big.NewInt(int64(b))
	k.Lsh(k, uint(8*pos))
	k.Add(k, big.NewInt(1))
	vrt.Assert(vrt.EdIs(out[:], k), "table entry is the signed multiple")
}

//vrt:prop D04
//vrt:use eddlog,edsel,lift,cut
func VH_GeScalarMultBase() {
	a := vrt.Bytes("a", 32)
	vrt.Assume(a[31] < 128)
	var in [32]byte
	copy(in[:], a)
	var h ExtendedGroupElement
	GeScalarMultBase(&h, &in)
	var out [32]byte
	h.ToBytes(&out)
	vrt.Assert(vrt.EdIs(out[:], vhLE(a)), "a*B")
}

// vhBits: n symbolic scalar bits from position pos on, the others zero.
func vhBits(name string, pos, n int) (*big.Int, [32]byte) {
	v := new(big.Int).SetUint64(uint64(vrt.R16(name, 1<<uint(n)-1)))
	v.Lsh(v, uint(pos))
	var b [32]byte
	copy(b[:], vrt.EncLE(v, 32))
	return v, b
}

//vrt:prop D04
//vrt:use eddlog
//vrt:split pos 4
//vrt:nomerge
func VH_Slide() {
	pos := []int{0, 5, 121, 216}[vrt.Choose("pos", 4)]
	v, b := vhBits("bits", pos, 6)
	var r [256]int8
	slide(&r, &b)
	sum := new(big.Int)
	ok := true
	for i := 255; i >= 0; i-- {
		sum.Lsh(sum, 1)
		sum.Add(sum, big.NewInt(int64(r[i])))
		ok = vrt.And(ok, vrt.Or(r[i] == 0, vrt.And(r[i]&1 == 1, r[i] <= 15, r[i] >= -15)))
	}
	vrt.Assert(sum.Cmp(v) == 0, "digits represent the scalar")
	vrt.Assert(ok, "digits are zero or odd and below 16")
}

// vhWindow: one of the scalars w * 2^pos, 0 <= w < 16
func vhWindow(name string, pos int) (*big.Int, [32]byte) {
	v := big.NewInt(int64(vrt.Choose(name, 16)))
	v.Lsh(v, uint(pos))
	var b [32]byte
	copy(b[:], vrt.EncLE(v, 32))
	return v, b
}

//vrt:prop D04
//vrt:use eddlog
//vrt:split pos 4
//vrt:split which 2
//vrt:nomerge
func VH_GeDoubleScalarMult() {
	N := vrt.OrderOf("ed25519")
	k := vrt.Scalar("k", N)
	pos := []int{0, 5, 121, 246}[vrt.Choose("pos", 4)]
	a, ab := vhWindow("a", pos)
	b, bb := vhWindow("b", pos)
	var A ExtendedGroupElement
	var enc [32]byte
	copy(enc[:], vrt.EdPoint(k))
	A.FromBytes(&enc)
	var r ProjectiveGroupElement
	want := new(big.Int).Mul(a, k)
	if vrt.Choose("which", 2) == 0 {
		GeDoubleScalarMultVartime(&r, &ab, &A, &bb)
		want.Add(want, b)
	} else {
		var B ExtendedGroupElement
		l := vrt.Scalar("l", N)
		copy(enc[:], vrt.EdPoint(l))
		B.FromBytes(&enc)
		GePointAddVarTime(&r, &ab, &A, &bb, &B)
		want.Add(want, new(big.Int).Mul(b, l))
	}
	var out [32]byte
	r.ToBytes(&out)
	vrt.Assert(vrt.EdIs(out[:], want), "linear combination")
}
