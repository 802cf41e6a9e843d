package blake2s

import (
	"encoding/binary"
	"hash"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// vhRef: digest of a message whose first t bytes, whole blocks, led to h; the
// last block is never empty unless the message is.
func vhRef(size int, h [8]uint32, t uint64, last bool, tail []byte) []byte {
	m := append([]byte{}, tail...)
	for len(m) == 0 || len(m)%64 != 0 {
		m = append(m, 0)
	}
	for off := 0; off < len(m); off += 64 {
		used := t + uint64(vhMin(len(tail), off+64)) - 64
		d := digest{h: h, t: [2]uint32{uint32(used), uint32(used >> 32)}}
		if off+64 == len(m) {
			d.f[0] = 0xffffffff
			if last {
				d.f[1] = 0xffffffff
			}
		}
		blocks(&d, m[off:off+64])
		h = d.h
	}
	var out []byte
	for _, x := range h {
		out = binary.LittleEndian.AppendUint32(out, x)
	}
	return out[:size]
}

func vhNew(k int) (hash.Hash, func(m []byte) []byte) {
	var p [32]byte
	var pre []byte
	var d hash.Hash
	size, last := 32, false
	p[2], p[3] = 1, 1
	switch k {
	case 0:
		d = New256()
	case 1:
		size = [...]int{1, 20, 31, 32}[vrt.Choose("size", 4)]
		d = NewMAC(uint8(size), nil)
	case 2:
		key := vrt.Bytes("key", [...]int{1, 31, 32}[vrt.Choose("kl", 3)])
		p[1] = byte(len(key))
		pre = make([]byte, 64)
		copy(pre, key)
		d = NewMAC(0, key)
	case 3:
		salt, person := vrt.Bytes("salt", 8), vrt.Bytes("person", [...]int{0, 7, 8}[vrt.Choose("pl", 3)])
		copy(p[16:], salt)
		copy(p[24:], person)
		d, _ = New(&Config{Size: 20, Salt: salt, Person: person})
		size = 20
	case 4:
		tr := &Tree{Fanout: vrt.U8("fanout"), MaxDepth: vrt.U8("depth"), LeafSize: vrt.U32("leaf"), NodeOffset: vrt.U64("offset") >> 16, NodeDepth: vrt.U8("nd"), InnerHashSize: 32, IsLastNode: vrt.Choose("last", 2) == 1}
		p[2], p[3] = tr.Fanout, tr.MaxDepth
		binary.LittleEndian.PutUint32(p[4:], tr.LeafSize)
		binary.LittleEndian.PutUint64(p[8:], tr.NodeOffset)
		p[14], p[15] = tr.NodeDepth, 32
		last = tr.IsLastNode
		d, _ = New(&Config{Tree: tr})
	}
	p[0] = byte(size)
	var h [8]uint32
	for i := range h {
		h[i] = vhIV[i] ^ binary.LittleEndian.Uint32(p[4*i:])
	}
	return d, func(m []byte) []byte {
		return vhRef(size, h, 0, last, append(append([]byte{}, pre...), m...))
	}
}

var vhLens = [...]int{0, 1, 2, 62, 63, 64, 65, 128, 129, 190}

// Any two writes, a digest read into a buffer, a further write, and a reset.
//
//vrt:prop H01
//vrt:use comp
func VH_Blake2sStream() {
	k := vrt.Choose("kind", 5)
	a := vrt.Bytes("a", vhLens[vrt.Choose("la", len(vhLens))])
	b := vrt.Bytes("b", vhLens[vrt.Choose("lb", len(vhLens))])
	d, iv := vhNew(k)
	n, err := d.Write(a)
	vrt.Assert(n == len(a) && err == nil, "write takes everything")
	d.Write(b)
	msg := append(append([]byte{}, a...), b...)
	in := vrt.BytesCap("in", 3, 100)
	want := append(append([]byte{}, in...), iv(msg)...)
	got := d.Sum(in)
	vrt.Assert(vrt.Eq(got, want), "digest of two writes, appended")
	vrt.Assert(vrt.Eq(d.Sum(nil), iv(msg)), "digest read again")
	vrt.Assert(d.Size() == len(want)-3, "size")
	c := vrt.Bytes("c", [...]int{0, 1, 64}[vrt.Choose("lc", 3)])
	d.Write(c)
	msg = append(msg, c...)
	vrt.Assert(vrt.Eq(d.Sum(nil), iv(msg)), "writing after reading a digest")
	d.Reset()
	d.Write(c)
	vrt.Assert(vrt.Eq(d.Sum([]byte{}), iv(c)), "reset")
}

// One write and one digest from every buffer fill, chaining value and count.
//
//vrt:prop H01
//vrt:use comp
//vrt:split part 4
func VH_Blake2sResume() {
	n := 1 + vrt.Choose("part", 4)*16 + vrt.Choose("n", 16)
	d := digest{size: uint8(n+1) / 2, isLastNode: n%4 == 3}
	for i := range d.h {
		d.h[i] = vrt.U32("h")
	}
	t := vrt.U64("blocks") << 6
	d.t = [2]uint32{uint32(t), uint32(t >> 32)}
	copy(d.x[:], vrt.Bytes("x", 64))
	d.nx = n
	sz, h, x := int(d.size), d.h, append([]byte{}, d.x[:n]...)
	l := [...]int{0, 1, 2, 64 - n - 2, 64 - n - 1, 64 - n, 64 - n + 1, 2*64 - n - 1, 2*64 - n, 2*64 - n + 1}[vrt.Choose("l", 10)]
	if l < 0 {
		l = 0
	}
	p := vrt.Bytes("p", l)
	vrt.Assert(vrt.Eq(d.Sum(nil), vhRef(sz, h, t, d.isLastNode, x)), "digest of a partial block")
	d.Write(p)
	vrt.Assert(vrt.Eq(d.Sum(nil), vhRef(sz, h, t, d.isLastNode, append(x, p...))), "digest after a further write")
}

func vhMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
