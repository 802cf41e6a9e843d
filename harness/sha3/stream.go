package sha3

import (
	"encoding/binary"
	"hash"

	"github.com/blocktree/go-owcrypt/zzverif/vrt"
)

// vhSponge: absorb and squeeze as in FIPS 202, section 4, from the state that
// the whole blocks so far led to; ds holds the domain bits and the first pad bit.
func vhSponge(a [25]uint64, rate int, ds byte, tail []byte, out int) []byte {
	m := append(append([]byte{}, tail...), ds)
	for len(m)%rate != 0 {
		m = append(m, 0)
	}
	m[len(m)-1] |= 0x80
	for ; len(m) > 0; m = m[rate:] {
		for i := 0; i < rate/8; i++ {
			a[i] ^= binary.LittleEndian.Uint64(m[8*i:])
		}
		keccakF1600(&a)
	}
	var r []byte
	for {
		for i := 0; i < rate/8; i++ {
			var w [8]byte
			binary.LittleEndian.PutUint64(w[:], a[i])
			r = append(r, w[:]...)
		}
		if len(r) >= out {
			return r[:out]
		}
		keccakF1600(&a)
	}
}

type vhKind struct {
	f         func() hash.Hash
	rate, out int
	ds        byte
}

func vhKinds() []vhKind {
	return []vhKind{
		{NewKeccak256, 136, 32, 1},
		{NewKeccak512, 72, 64, 1},
		{New224, 144, 28, 6},
		{New256, 136, 32, 6},
		{New384, 104, 48, 6},
		{New512, 72, 64, 6},
	}
}

func vhStream() {
	k := vhKinds()[vrt.Choose("kind", 6)]
	ls := [...]int{0, 1, 8, k.rate - 2, k.rate - 1, k.rate, k.rate + 1, 2*k.rate - 1, 2 * k.rate, 2*k.rate + 1}
	a := vrt.Bytes("a", ls[vrt.Choose("la", len(ls))])
	b := vrt.Bytes("b", ls[vrt.Choose("lb", len(ls))])
	ref := func(m []byte) []byte { return vhSponge([25]uint64{}, k.rate, k.ds, m, k.out) }
	d := k.f()
	n, err := d.Write(a)
	vrt.Assert(n == len(a) && err == nil, "write takes everything")
	d.Write(b)
	msg := append(append([]byte{}, a...), b...)
	in := vrt.BytesCap("in", 3, 100)
	want := append(append([]byte{}, in...), ref(msg)...)
	vrt.Assert(vrt.Eq(d.Sum(in), want), "digest of two writes, appended")
	vrt.Assert(vrt.Eq(d.Sum(nil), ref(msg)), "digest read again")
	vrt.Assert(d.Size() == k.out, "size")
	c := vrt.Bytes("c", [...]int{0, 1, 72}[vrt.Choose("lc", 3)])
	d.Write(c)
	msg = append(msg, c...)
	vrt.Assert(vrt.Eq(d.Sum(nil), ref(msg)), "writing after reading a digest")
	d.Reset()
	d.Write(c)
	vrt.Assert(vrt.Eq(d.Sum([]byte{}), ref(c)), "reset")
}

// Any two writes, a digest read into a buffer, a further write, and a reset.
//
//vrt:prop H01
//vrt:use comp
func VH_Sha3Stream() { vhStream() }

//vrt:prop H01
//vrt:use comp
//vrt:tier thorough
//vrt:arch tags_appengine
func VH_Sha3StreamPortable() { vhStream() }

func vhResume() {
	k := vhKinds()[vrt.Choose("kind", 6)]
	d := k.f().(*state)
	for i := range d.a {
		d.a[i] = vrt.U64("a")
	}
	copy(d.storage[:], vrt.Bytes("x", maxRate))
	n := vrt.Choose("n", k.rate)
	d.buf = d.storage[:n]
	a, x := d.a, append([]byte{}, d.buf...)
	vrt.Assert(vrt.Eq(d.Sum(nil), vhSponge(a, k.rate, k.ds, x, k.out)), "digest of a partial block")
	p := vrt.Bytes("p", [...]int{1, k.rate - n, 2*k.rate - n + 1}[vrt.Choose("l", 3)])
	d.Write(p)
	vrt.Assert(vrt.Eq(d.Sum(nil), vhSponge(a, k.rate, k.ds, append(x, p...), k.out)), "digest after a further write")
}

// One write and one digest from every buffer fill and sponge state.
//
//vrt:prop H01
//vrt:use comp
//vrt:split kind 6
func VH_Sha3Resume() { vhResume() }

//vrt:prop H01
//vrt:use comp
//vrt:tier thorough
//vrt:split kind 6
//vrt:arch tags_appengine
func VH_Sha3ResumePortable() { vhResume() }

// The one-shot functions.
//
//vrt:prop H01
//vrt:use comp
func VH_Sha3Sum() {
	l := [...]int{0, 1, 71, 72, 73, 103, 104, 135, 136, 137, 143, 144, 145, 300}
	m := vrt.Bytes("m", l[vrt.Choose("l", len(l))])
	a, b, c, d := Sum224(m), Sum256(m), Sum384(m), Sum512(m)
	var z [25]uint64
	vrt.Assert(vrt.Eq(a[:], vhSponge(z, 144, 6, m, 28)), "SHA3-224")
	vrt.Assert(vrt.Eq(b[:], vhSponge(z, 136, 6, m, 32)), "SHA3-256")
	vrt.Assert(vrt.Eq(c[:], vhSponge(z, 104, 6, m, 48)), "SHA3-384")
	vrt.Assert(vrt.Eq(d[:], vhSponge(z, 72, 6, m, 64)), "SHA3-512")
	o := vrt.Choose("o", 4) * 67
	s1, s2 := make([]byte, o), make([]byte, o)
	ShakeSum128(s1, m)
	ShakeSum256(s2, m)
	vrt.Assert(vrt.Eq(s1, vhSponge(z, 168, 0x1f, m, o)), "SHAKE128")
	vrt.Assert(vrt.Eq(s2, vhSponge(z, 136, 0x1f, m, o)), "SHAKE256")
}

// Extendable output: read in parts, cloned midway, reset and reused.
//
//vrt:prop H01
//vrt:use comp
func VH_Shake() {
	s, rate := NewShake128(), 168
	if vrt.Choose("kind", 2) == 1 {
		s, rate = NewShake256(), 136
	}
	m := vrt.Bytes("m", [...]int{0, 1, 135, 136, 167, 168}[vrt.Choose("l", 6)])
	s.Write(m[:len(m)/2])
	s.Write(m[len(m)/2:])
	p := [...]int{0, 1, 31, 32, 33, 135, 136, 137, 168, 200}
	o1, o2 := p[vrt.Choose("o1", len(p))], p[vrt.Choose("o2", len(p))]
	want := vhSponge([25]uint64{}, rate, 0x1f, m, o1+o2)
	pre := s.Clone()
	x, y, z, w := make([]byte, o1), make([]byte, o2), make([]byte, o2), make([]byte, o1)
	s.Read(x)
	c := s.Clone()
	s.Read(y)
	c.Read(z)
	pre.Read(w)
	vrt.Assert(vrt.Eq(append(append([]byte{}, x...), y...), want), "output read in two parts")
	vrt.Assert(vrt.Eq(z, want[o1:]), "output of a clone taken while reading")
	vrt.Assert(vrt.Eq(w, want[:o1]), "output of a clone taken before reading")
	s.Reset()
	s.Write(m)
	s.Read(x)
	vrt.Assert(vrt.Eq(x, want[:o1]), "output after a reset")
}
