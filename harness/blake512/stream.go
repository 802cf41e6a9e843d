package blake512

import (
	"encoding/binary"
	"hash"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// vhRef: digest of a message whose whole blocks, t bits of them, led to h.
func vhRef(size int, h [8]uint64, s [4]uint64, t uint64, tail []byte) []byte {
	nb := len(tail)
	m := append(append([]byte{}, tail...), 0x80)
	for len(m)%128 != 112 {
		m = append(m, 0)
	}
	if size == 512 {
		m[len(m)-1] |= 1
	}
	m = append(m, 0, 0, 0, 0, 0, 0, 0, 0)
	m = binary.BigEndian.AppendUint64(m, t+8*uint64(nb))
	for off := 0; off < len(m); off += 128 {
		d := digest{h: h, s: s}
		used := vhMin(nb, off+128)
		if used <= off {
			d.nullt = true
		} else {
			d.t = t + 8*uint64(used) - 1024
		}
		block(&d, m[off:off+128])
		h = d.h
	}
	var out []byte
	for _, x := range h {
		out = binary.BigEndian.AppendUint64(out, x)
	}
	return out[:size/8]
}

var vhIV512 = [8]uint64{0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179}
var vhIV384 = [8]uint64{0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939, 0x67332667ffc00b31, 0x8eb44a8768581511, 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4}

func vhNew(k int) (hash.Hash, func(m []byte) []byte) {
	switch k {
	case 0:
		return New(), func(m []byte) []byte { return vhRef(512, vhIV512, [4]uint64{}, 0, m) }
	case 1:
		return New384(), func(m []byte) []byte { return vhRef(384, vhIV384, [4]uint64{}, 0, m) }
	}
	salt := vrt.Bytes("salt", 32)
	var s [4]uint64
	for i := range s {
		s[i] = binary.BigEndian.Uint64(salt[8*i:])
	}
	if k == 2 {
		return NewSalt(salt), func(m []byte) []byte { return vhRef(512, vhIV512, s, 0, m) }
	}
	return New384Salt(salt), func(m []byte) []byte { return vhRef(384, vhIV384, s, 0, m) }
}

var vhLens = [...]int{0, 1, 110, 111, 112, 127, 128, 129, 256, 367}

// Any two writes, a digest read into a buffer, a further write, and a reset.
//
//vrt:prop H01
//vrt:use comp
func VH_Blake512Stream() {
	k := vrt.Choose("kind", 4)
	a := vrt.Bytes("a", vhLens[vrt.Choose("la", len(vhLens))])
	b := vrt.Bytes("b", vhLens[vrt.Choose("lb", len(vhLens))])
	d, iv := vhNew(k)
	n, err := d.Write(a)
	vrt.Assert(n == len(a) && err == nil, "write takes everything")
	d.Write(b)
	msg := append(append([]byte{}, a...), b...)
	in := vrt.BytesCap("in", 3, 100)
	want := append(append([]byte{}, in...), iv(msg)...)
	got := d.Sum(in)
	vrt.Assert(vrt.Eq(got, want), "digest of two writes, appended")
	vrt.Assert(vrt.Eq(d.Sum(nil), iv(msg)), "digest read again")
	vrt.Assert(d.Size() == len(want)-3, "size")
	c := vrt.Bytes("c", [...]int{0, 1, 128}[vrt.Choose("lc", 3)])
	d.Write(c)
	msg = append(msg, c...)
	vrt.Assert(vrt.Eq(d.Sum(nil), iv(msg)), "writing after reading a digest")
	d.Reset()
	d.Write(c)
	vrt.Assert(vrt.Eq(d.Sum([]byte{}), iv(c)), "reset")
}

// One write and one digest from every buffer fill, chaining value and count.
//
//vrt:prop H01
//vrt:use comp
//vrt:split part 4
func VH_Blake512Resume() {
	d := digest{hashSize: [...]int{512, 384}[vrt.Choose("size", 2)]}
	for i := range d.h {
		d.h[i] = vrt.U64("h")
	}
	for i := range d.s {
		d.s[i] = vrt.U64("s")
	}
	t := vrt.U64("blocks") << 10
	d.t = t
	copy(d.x[:], vrt.Bytes("x", 128))
	n := vrt.Choose("part", 4)*32 + vrt.Choose("n", 32)
	d.nx = n
	h, x := d.h, append([]byte{}, d.x[:n]...)
	l := [...]int{0, 1, 2, 128 - n - 2, 128 - n - 1, 128 - n, 128 - n + 1, 2*128 - n - 1, 2*128 - n, 2*128 - n + 1}[vrt.Choose("l", 10)]
	if l < 0 {
		l = 0
	}
	p := vrt.Bytes("p", l)
	vrt.Assert(vrt.Eq(d.Sum(nil), vhRef(d.hashSize, h, d.s, t, x)), "digest of a partial block")
	d.Write(p)
	vrt.Assert(vrt.Eq(d.Sum(nil), vhRef(d.hashSize, h, d.s, t, append(x, p...))), "digest after a further write")
}

func vhMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
