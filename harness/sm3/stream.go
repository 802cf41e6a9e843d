package sm3

import (
	"encoding/binary"
	"hash"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

func vhRef(v [8]uint32, t uint64, tail []byte) []byte {
	m := append(append([]byte{}, tail...), 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	m = binary.BigEndian.AppendUint64(m, t+8*uint64(len(tail)))
	for ; len(m) > 0; m = m[64:] {
		d := SM3{digest: v}
		d.update(m[:64], 1)
		v = d.digest
	}
	var out []byte
	for _, x := range v {
		out = binary.BigEndian.AppendUint32(out, x)
	}
	return out
}

var vhIV = [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}

func vhNew(k int) (hash.Hash, func(m []byte) []byte) {
	return New(), func(m []byte) []byte { return vhRef(vhIV, 0, m) }
}

var vhLens = [...]int{0, 1, 54, 55, 56, 63, 64, 65, 128, 183}

// Any two writes, a digest read into a buffer, a further write, and a reset.
//
//vrt:prop H01
//vrt:use comp
func VH_Sm3Stream() {
	k := vrt.Choose("kind", 1)
	a := vrt.Bytes("a", vhLens[vrt.Choose("la", len(vhLens))])
	b := vrt.Bytes("b", vhLens[vrt.Choose("lb", len(vhLens))])
	d, iv := vhNew(k)
	n, err := d.Write(a)
	vrt.Assert(n == len(a) && err == nil, "write takes everything")
	d.Write(b)
	msg := append(append([]byte{}, a...), b...)
	in := vrt.BytesCap("in", 3, 100)
	want := append(append([]byte{}, in...), iv(msg)...)
	got := d.Sum(in)
	vrt.Assert(vrt.Eq(got, want), "digest of two writes, appended")
	vrt.Assert(vrt.Eq(d.Sum(nil), iv(msg)), "digest read again")
	vrt.Assert(d.Size() == len(want)-3, "size")
	c := vrt.Bytes("c", [...]int{0, 1, 64}[vrt.Choose("lc", 3)])
	d.Write(c)
	msg = append(msg, c...)
	vrt.Assert(vrt.Eq(d.Sum(nil), iv(msg)), "writing after reading a digest")
	d.Reset()
	d.Write(c)
	vrt.Assert(vrt.Eq(d.Sum([]byte{}), iv(c)), "reset")
}

// One write and one digest from every buffer fill, chaining value and count.
//
//vrt:prop H01
//vrt:use comp
func VH_Sm3Resume() {
	var d SM3
	for i := range d.digest {
		d.digest[i] = vrt.U32("h")
	}
	t := vrt.U64("blocks") << 9
	n := vrt.Choose("n", 64)
	d.length = t + 8*uint64(n)
	d.unhandleMsg = vrt.Bytes("x", n)
	h, x := d.digest, append([]byte{}, d.unhandleMsg...)
	l := [...]int{0, 1, 2, 64 - n - 2, 64 - n - 1, 64 - n, 64 - n + 1, 2*64 - n - 1, 2*64 - n, 2*64 - n + 1}[vrt.Choose("l", 10)]
	if l < 0 {
		l = 0
	}
	p := vrt.Bytes("p", l)
	vrt.Assert(vrt.Eq(d.Sum(nil), vhRef(h, t, x)), "digest of a partial block")
	d.Write(p)
	vrt.Assert(vrt.Eq(d.Sum(nil), vhRef(h, t, append(x, p...))), "digest after a further write")
}

//vrt:prop H01
//vrt:use comp
func VH_Sm3Sum() {
	m := vrt.Bytes("m", vrt.Choose("l", 140))
	vrt.Assert(vrt.Eq(Sm3Sum(m), vhRef(vhIV, 0, m)), "one-shot digest")
}
