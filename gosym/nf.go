package main

// Canonical forms for bitwise logic.  Every bit of a bit-vector term is a sum
// over GF(2) of atoms: input bits, products of two such sums, and bits of
// arithmetic over canonical operands.  A sum is held as the XOR of 256-bit
// labels of its atoms, so equal labels mean equal sums except with probability
// 2^-256 over the labelling function.

import (
	"crypto/sha256"
	"encoding/binary"
)

type fp struct {
	v [4]uint64
	c bool
}

func (a fp) xor(b fp) fp {
	for i := range a.v {
		a.v[i] ^= b.v[i]
	}
	a.c = a.c != b.c
	return a
}
func (a fp) not() fp { a.c = !a.c; return a }
func (a fp) zero() bool {
	return a.v == [4]uint64{}
}
func (a fp) bytes() []byte {
	var b [33]byte
	for i, x := range a.v {
		binary.LittleEndian.PutUint64(b[8*i:], x)
	}
	if a.c {
		b[32] = 1
	}
	return b[:]
}
func fpHash(b []byte) (r fp) {
	h := sha256.Sum256(b)
	for i := range r.v {
		r.v[i] = binary.LittleEndian.Uint64(h[8*i:])
	}
	return
}
func fpLess(a, b fp) bool {
	for i := range a.v {
		if a.v[i] != b.v[i] {
			return a.v[i] < b.v[i]
		}
	}
	return false
}
func fpAnd(a, b fp) fp {
	if a.zero() {
		if a.c {
			return b
		}
		return fp{}
	}
	if b.zero() {
		return fpAnd(b, a)
	}
	ca, cb := a.c, b.c
	a.c, b.c = false, false
	var r fp
	if a == b {
		r = a
	} else {
		if fpLess(b, a) {
			a, b = b, a
			ca, cb = cb, ca
		}
		r = fpHash(append(append([]byte("&"), a.bytes()...), b.bytes()...))
	}
	if cb {
		r = r.xor(a)
	}
	if ca {
		r = r.xor(b)
	}
	if ca && cb {
		r = r.not()
	}
	return r
}

var nfMemo = map[int][]fp{}

// nf gives the bits of t, least significant first (one for a Bool).
func nf(t *Term) []fp {
	if r, ok := nfMemo[t.id]; ok {
		return r
	}
	w := 1
	if t.sort.K == KBV {
		w = t.sort.W
	}
	r := make([]fp, w)
	fold := func(f func(a, b fp) fp) {
		copy(r, nf(t.a[0]))
		for _, x := range t.a[1:] {
			for i, y := range nf(x) {
				r[i] = f(r[i], y)
			}
		}
	}
	or := func(a, b fp) fp { return fpAnd(a.not(), b.not()).not() }
	bitwise := t.sort.K == KBV || t.sort.K == KBool
	switch {
	case t.op == OConst && t.sort.K == KBV:
		v := t.Big()
		for i := range r {
			r[i].c = v.Bit(i) == 1
		}
	case t.op == OConst && t.sort.K == KBool:
		r[0].c = t == tTrue
	case !bitwise:
		r[0] = nfAtom(t, 0)
	case t.op == OVar:
		for i := range r {
			r[i] = nfAtom(t, i)
		}
	case t.op == OBXor:
		fold(fp.xor)
	case t.op == OBAnd || t.op == OAnd:
		fold(fpAnd)
	case t.op == OBOr || t.op == OOr:
		fold(or)
	case t.op == OBNot || t.op == ONot:
		for i, y := range nf(t.a[0]) {
			r[i] = y.not()
		}
	case t.op == OExtract:
		copy(r, nf(t.a[0])[t.j:t.i+1])
	case t.op == OConcat:
		k := w
		for _, x := range t.a {
			k -= copy(r[k-x.sort.W:], nf(x))
		}
	case t.op == OSExt:
		x := nf(t.a[0])
		for i := range r {
			r[i] = x[min(i, len(x)-1)]
		}
	case t.op == OIte:
		c, x, y := nf(t.a[0])[0], nf(t.a[1]), nf(t.a[2])
		for i := range r {
			r[i] = fpAnd(c, x[i].xor(y[i])).xor(y[i])
		}
	case t.op == OEq && t.a[0].sort.K == KBV:
		x, y := nf(t.a[0]), nf(t.a[1])
		r[0] = fp{c: true}
		for i := range x {
			r[0] = fpAnd(r[0], x[i].xor(y[i]).not())
		}
	default:
		k := nfAtom(t, 0).bytes()
		for i := range r {
			if i == 0 {
				r[0] = nfAtom(t, 0)
				continue
			}
			r[i] = fpHash(append([]byte{'b', byte(i), byte(i >> 8)}, k...))
		}
	}
	nfMemo[t.id] = r
	return r
}

// nfAtom labels bit i of a variable, or an operation over canonical operands.
func nfAtom(t *Term, i int) fp {
	b := []byte{byte(t.op), byte(t.sort.K), byte(t.sort.W), byte(t.sort.W >> 8), byte(i), byte(i >> 8), byte(t.i), byte(t.i >> 8), byte(t.j), byte(t.j >> 8)}
	if t.op == OVar || t.op == OConst {
		b = binary.LittleEndian.AppendUint64(b, uint64(t.id))
		return fpHash(append(b, 'v'))
	}
	b = append(b, t.name...)
	if t.k != nil {
		b = append(b, '|')
		b = append(b, t.k.String()...)
	}
	// operands of a commutative operation in a canonical order
	var ops []string
	for j, x := range t.a {
		s := ""
		for _, f := range nf(x) {
			s += string(f.bytes())
		}
		h := sha256.Sum256([]byte(s))
		o := string(h[:])
		if t.coef != nil {
			o += t.coef[j].String()
		}
		ops = append(ops, o)
	}
	if t.op == OLin || t.op == OMul || t.op == OEq {
		sortStrings(ops)
	}
	for _, o := range ops {
		b = append(b, '(')
		b = append(b, o...)
	}
	return fpHash(append(b, 'o'))
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// nfTrue: the canonical form of the condition is the constant true.
func nfTrue(c *Term) bool {
	r := nf(c)[0]
	return r.zero() && r.c
}

// nfWorth: canonical forms pay off where words are combined bitwise.
func nfWorth(c *Term) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t.op == OBXor {
			return true
		}
		if len(t.a) == 0 || seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, x := range t.a {
			if f(x) {
				return true
			}
		}
		return false
	}
	return f(c)
}
