package sm3

import (
	"encoding/binary"
	"math/bits"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// vhSm3Ref: the compression function of GB/T 32905-2016, section 5.3.
func vhSm3Ref(v [8]uint32, blk []byte) [8]uint32 {
	var w [68]uint32
	for j := 0; j < 16; j++ {
		w[j] = binary.BigEndian.Uint32(blk[4*j:])
	}
	for j := 16; j < 68; j++ {
		x := w[j-16] ^ w[j-9] ^ bits.RotateLeft32(w[j-3], 15)
		w[j] = x ^ bits.RotateLeft32(x, 15) ^ bits.RotateLeft32(x, 23) ^ bits.RotateLeft32(w[j-13], 7) ^ w[j-6]
	}
	a, b, c, d, e, f, g, h := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
	for j := 0; j < 64; j++ {
		t, ff, gg := uint32(0x79cc4519), a^b^c, e^f^g
		if j >= 16 {
			t, ff, gg = 0x7a879d8a, a&b|a&c|b&c, e&f|^e&g
		}
		ss1 := bits.RotateLeft32(bits.RotateLeft32(a, 12)+e+bits.RotateLeft32(t, j), 7)
		ss2 := ss1 ^ bits.RotateLeft32(a, 12)
		tt1 := ff + d + ss2 + (w[j] ^ w[j+4])
		tt2 := gg + h + ss1 + w[j]
		a, b, c, d = tt1, a, bits.RotateLeft32(b, 9), c
		e, f, g, h = tt2^bits.RotateLeft32(tt2, 9)^bits.RotateLeft32(tt2, 17), e, bits.RotateLeft32(f, 19), g
	}
	return [8]uint32{a ^ v[0], b ^ v[1], c ^ v[2], d ^ v[3], e ^ v[4], f ^ v[5], g ^ v[6], h ^ v[7]}
}

// One and two blocks from any chaining value.
//
//vrt:prop H02
func VH_Sm3Compress() {
	var s SM3
	for i := range s.digest {
		s.digest[i] = vrt.U32("v")
	}
	want := s.digest
	n := 1 + vrt.Choose("blocks", 2)
	m := vrt.Bytes("m", 64*n)
	s.update(m, n)
	for i := 0; i < n; i++ {
		want = vhSm3Ref(want, m[64*i:])
	}
	for i := range want {
		vrt.Assert(s.digest[i] == want[i], "compression function of SM3")
	}
}
