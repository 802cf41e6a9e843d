package blake256

import (
	"encoding/binary"
	"hash"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// vhRef: digest of a message whose whole blocks, t bits of them, led to h.
func vhRef(size int, h [8]uint32, s [4]uint32, t uint64, tail []byte) []byte {
	nb := len(tail)
	m := append(append([]byte{}, tail...), 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	if size == 256 {
		m[len(m)-1] |= 1
	}

	m = binary.BigEndian.AppendUint64(m, t+8*uint64(nb))
	for off := 0; off < len(m); off += 64 {
		d := digest{h: h, s: s}
		used := vhMin(nb, off+64)
		if used <= off {
			d.nullt = true
		} else {
			d.t = t + 8*uint64(used) - 512
		}
		block(&d, m[off:off+64])
		h = d.h
	}
	var out []byte
	for _, x := range h {
		out = binary.BigEndian.AppendUint32(out, x)
	}
	return out[:size/8]
}

var vhIV256 = [8]uint32{0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19}
var vhIV224 = [8]uint32{0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4}

func vhNew(k int) (hash.Hash, func(m []byte) []byte) {
	switch k {
	case 0:
		return New(), func(m []byte) []byte { return vhRef(256, vhIV256, [4]uint32{}, 0, m) }
	case 1:
		return New224(), func(m []byte) []byte { return vhRef(224, vhIV224, [4]uint32{}, 0, m) }
	}
	salt := vrt.Bytes("salt", 16)
	var s [4]uint32
	for i := range s {
		s[i] = binary.BigEndian.Uint32(salt[4*i:])
	}
	if k == 2 {
		return NewSalt(salt), func(m []byte) []byte { return vhRef(256, vhIV256, s, 0, m) }
	}
	return New224Salt(salt), func(m []byte) []byte { return vhRef(224, vhIV224, s, 0, m) }
}

var vhLens = [...]int{0, 1, 54, 55, 56, 63, 64, 65, 128, 183}

// Any two writes, a digest read into a buffer, a further write, and a reset.
//
//vrt:prop H01
//vrt:use comp
func VH_Blake256Stream() {
	k := vrt.Choose("kind", 4)
	a := vrt.Bytes("a", vhLens[vrt.Choose("la", len(vhLens))])
	b := vrt.Bytes("b", vhLens[vrt.Choose("lb", len(vhLens))])
	d, iv := vhNew(k)
	n, err := d.Write(a)
	vrt.Assert(n == len(a) && err == nil, "write takes everything")
	d.Write(b)
	msg := append(append([]byte{}, a...), b...)
	in := vrt.BytesCap("in", 3, 100)
	want := append(append([]byte{}, in...), iv(msg)...)
	got := d.Sum(in)
	vrt.Assert(vrt.Eq(got, want), "digest of two writes, appended")
	vrt.Assert(vrt.Eq(d.Sum(nil), iv(msg)), "digest read again")
	vrt.Assert(d.Size() == len(want)-3, "size")
	c := vrt.Bytes("c", [...]int{0, 1, 64}[vrt.Choose("lc", 3)])
	d.Write(c)
	msg = append(msg, c...)
	vrt.Assert(vrt.Eq(d.Sum(nil), iv(msg)), "writing after reading a digest")
	d.Reset()
	d.Write(c)
	vrt.Assert(vrt.Eq(d.Sum([]byte{}), iv(c)), "reset")
}

// One write and one digest from every buffer fill, chaining value and count.
//
//vrt:prop H01
//vrt:use comp
//vrt:split part 2
func VH_Blake256Resume() {
	d := digest{hashSize: [...]int{256, 224}[vrt.Choose("size", 2)]}
	for i := range d.h {
		d.h[i] = vrt.U32("h")
	}
	for i := range d.s {
		d.s[i] = vrt.U32("s")
	}
	t := vrt.U64("blocks") << 9
	d.t = t
	copy(d.x[:], vrt.Bytes("x", 64))
	n := vrt.Choose("part", 2)*32 + vrt.Choose("n", 32)
	d.nx = n
	h, x := d.h, append([]byte{}, d.x[:n]...)
	l := [...]int{0, 1, 2, 64 - n - 2, 64 - n - 1, 64 - n, 64 - n + 1, 2*64 - n - 1, 2*64 - n, 2*64 - n + 1}[vrt.Choose("l", 10)]
	if l < 0 {
		l = 0
	}
	p := vrt.Bytes("p", l)
	vrt.Assert(vrt.Eq(d.Sum(nil), vhRef(d.hashSize, h, d.s, t, x)), "digest of a partial block")
	d.Write(p)
	vrt.Assert(vrt.Eq(d.Sum(nil), vhRef(d.hashSize, h, d.s, t, append(x, p...))), "digest after a further write")
}

func vhMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
