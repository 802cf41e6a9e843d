package blake256

import (
	"encoding/binary"
	"math/bits"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

var vhSigma = [10][16]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

// the first digits of pi
var vhPi = [16]uint32{0x243F6A88, 0x85A308D3, 0x13198A2E, 0x03707344, 0xA4093822, 0x299F31D0, 0x082EFA98, 0xEC4E6C89, 0x452821E6, 0x38D01377, 0xBE5466CF, 0x34E90C6C, 0xC0AC29B7, 0xC97C50DD, 0x3F84D5B5, 0xB5470917}

// vhCompress: the compression function of BLAKE-256, section 2 of the SHA-3
// submission; t is the counter in bits.
func vhCompress(h [8]uint32, m []byte, s [4]uint32, t uint64, nullt bool) [8]uint32 {
	var v [16]uint32
	copy(v[:], h[:])
	for i := 0; i < 8; i++ {
		v[8+i] = vhPi[i]
	}
	for i := 0; i < 4; i++ {
		v[8+i] ^= s[i]
	}
	if !nullt {
		v[12] ^= uint32(t)
		v[13] ^= uint32(t)
		v[14] ^= uint32(t >> 32)
		v[15] ^= uint32(t >> 32)
	}
	for r := 0; r < 14; r++ {
		sg := vhSigma[r%10]
		for i, q := range [8][4]int{{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}} {
			a, b, c, d := v[q[0]], v[q[1]], v[q[2]], v[q[3]]
			x := binary.BigEndian.Uint32(m[4*sg[2*i]:])
			y := binary.BigEndian.Uint32(m[4*sg[2*i+1]:])
			a += b + (x ^ vhPi[sg[2*i+1]])
			d = bits.RotateLeft32(d^a, -16)
			c += d
			b = bits.RotateLeft32(b^c, -12)
			a += b + (y ^ vhPi[sg[2*i]])
			d = bits.RotateLeft32(d^a, -8)
			c += d
			b = bits.RotateLeft32(b^c, -7)
			v[q[0]], v[q[1]], v[q[2]], v[q[3]] = a, b, c, d
		}
	}
	for i := range h {
		h[i] ^= s[i%4] ^ v[i] ^ v[8+i]
	}
	return h
}

// One and two blocks from any chaining value, salt and counter.
//
//vrt:prop H02
func VH_Blake256Block() {
	var d digest
	for i := range d.h {
		d.h[i] = vrt.U32("h")
	}
	for i := range d.s {
		d.s[i] = vrt.U32("s")
	}
	d.t = vrt.U64("t")
	d.nullt = vrt.Choose("nullt", 2) == 1
	want, t := d.h, d.t
	n := 1 + vrt.Choose("blocks", 2)
	m := vrt.Bytes("m", 64*n)
	block(&d, m)
	for i := 0; i < n; i++ {
		t += 512
		want = vhCompress(want, m[64*i:], d.s, t, d.nullt)
	}
	for i := range want {
		vrt.Assert(d.h[i] == want[i], "compression function of BLAKE-256")
	}
	vrt.Assert(d.t == t, "bit counter of BLAKE-256")
}
