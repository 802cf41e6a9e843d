package sha3

import (
	"math/bits"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// vhKeccak: Keccak-f[1600] of FIPS 202, sections 3.2 and 3.3.
func vhKeccak(a [25]uint64) [25]uint64 {
	lfsr := byte(1)
	for r := 0; r < 24; r++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for i := range a {
			a[i] ^= c[(i%5+4)%5] ^ bits.RotateLeft64(c[(i%5+1)%5], 1)
		}
		var b [25]uint64
		b[0] = a[0]
		x, y := 1, 0
		for t := 0; t < 24; t++ {
			b[y+5*((2*x+3*y)%5)] = bits.RotateLeft64(a[x+5*y], (t+1)*(t+2)/2%64)
			x, y = y, (2*x+3*y)%5
		}
		for i := range a {
			y5 := i / 5 * 5
			a[i] = b[i] ^ ^b[y5+(i+1)%5]&b[y5+(i+2)%5]
		}
		for j := 0; j < 7; j++ {
			if lfsr&1 == 1 {
				a[0] ^= 1 << (1<<j - 1)
			}
			hi := lfsr >> 7
			lfsr = lfsr<<1 ^ hi*0x71
		}
	}
	return a
}

func vhKeccakEq() {
	var a [25]uint64
	for i := range a {
		a[i] = vrt.U64("a")
	}
	want := vhKeccak(a)
	keccakF1600(&a)
	for i := range a {
		vrt.Assert(a[i] == want[i], "Keccak-f[1600]")
	}
}

// The portable permutation.
//
//vrt:prop H02
//vrt:arch tags_appengine
func VH_KeccakF() { vhKeccakEq() }

// The amd64 assembly.
//
//vrt:prop H02
func VH_KeccakFAsm() { vhKeccakEq() }
