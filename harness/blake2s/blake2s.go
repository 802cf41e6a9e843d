package blake2s

import (
	"encoding/binary"
	"math/bits"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

var vhSigma = [10][16]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

var vhIV = [8]uint32{0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19}

// vhCompress: function F of RFC 7693 for BLAKE2s; t counts bytes.
func vhCompress(h [8]uint32, m []byte, t, f [2]uint32) [8]uint32 {
	var v [16]uint32
	for i := range h {
		v[i], v[8+i] = h[i], vhIV[i]
	}
	v[12] ^= t[0]
	v[13] ^= t[1]
	v[14] ^= f[0]
	v[15] ^= f[1]
	for r := 0; r < 10; r++ {
		sg := vhSigma[r]
		for i, q := range [8][4]int{{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}} {
			a, b, c, d := v[q[0]], v[q[1]], v[q[2]], v[q[3]]
			a += b + binary.LittleEndian.Uint32(m[4*sg[2*i]:])
			d = bits.RotateLeft32(d^a, -16)
			c += d
			b = bits.RotateLeft32(b^c, -12)
			a += b + binary.LittleEndian.Uint32(m[4*sg[2*i+1]:])
			d = bits.RotateLeft32(d^a, -8)
			c += d
			b = bits.RotateLeft32(b^c, -7)
			v[q[0]], v[q[1]], v[q[2]], v[q[3]] = a, b, c, d
		}
	}
	for i := range h {
		h[i] ^= v[i] ^ v[8+i]
	}
	return h
}

// One and two blocks from any chaining value, counter and finalisation flags.
//
//vrt:prop H02
func VH_Blake2sBlocks() {
	var d digest
	for i := range d.h {
		d.h[i] = vrt.U32("h")
	}
	t := vrt.U64("t")
	d.t = [2]uint32{uint32(t), uint32(t >> 32)}
	d.f = [2]uint32{vrt.U32("f"), vrt.U32("f")}
	want, t0, t1 := d.h, d.t[0], d.t[1]
	n := 1 + vrt.Choose("blocks", 2)
	m := vrt.Bytes("m", 64*n)
	blocks(&d, m)
	for i := 0; i < n; i++ {
		t += 64
		if t0 += 64; t0 < 64 {
			t1++
		}
		want = vhCompress(want, m[64*i:], [2]uint32{t0, t1}, d.f)
	}
	for i := range want {
		vrt.Assert(d.h[i] == want[i], "compression function of BLAKE2s")
	}
	vrt.Assert(d.t[0] == uint32(t) && d.t[1] == uint32(t>>32), "byte counter of BLAKE2s")
}
