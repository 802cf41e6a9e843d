package vrt

// Reference edwards25519 arithmetic (affine, math/big) used by native replay.

import (
	"bytes"
	"math/big"
)

var (
	edP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	edD = func() *big.Int {
		d := new(big.Int).ModInverse(big.NewInt(121666), edP)
		d.Mul(d, big.NewInt(-121665))
		return d.Mod(d, edP)
	}()
	edBase = func() edPoint {
		y := new(big.Int).ModInverse(big.NewInt(5), edP)
		y.Mul(y, big.NewInt(4)).Mod(y, edP)
		b := EncLE(y, 32)
		p, _ := edDecode(b)
		return p
	}()
)

type edPoint struct{ x, y *big.Int }

func init() {
	n, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
	n.Add(n, new(big.Int).Lsh(big.NewInt(1), 252))
	curves["ed25519"] = &Curve{P: edP, N: n}
}

func edAdd(p, q edPoint) edPoint {
	xy := new(big.Int).Mul(p.x, q.y)
	yx := new(big.Int).Mul(p.y, q.x)
	xx := new(big.Int).Mul(p.x, q.x)
	yy := new(big.Int).Mul(p.y, q.y)
	t := new(big.Int).Mul(xx, yy)
	t.Mul(t, edD).Mod(t, edP)
	one := big.NewInt(1)
	dx := new(big.Int).Add(one, t)
	dx.ModInverse(dx.Mod(dx, edP), edP)
	dy := new(big.Int).Sub(one, t)
	dy.ModInverse(dy.Mod(dy, edP), edP)
	x := xy.Add(xy, yx)
	x.Mul(x, dx).Mod(x, edP)
	y := yy.Add(yy, xx)
	y.Mul(y, dy).Mod(y, edP)
	return edPoint{x, y}
}

func edMul(p edPoint, k *big.Int) edPoint {
	r := edPoint{big.NewInt(0), big.NewInt(1)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if k.Bit(i) == 1 {
			r = edAdd(r, p)
		}
	}
	return r
}

func edDecode(b []byte) (edPoint, bool) {
	be := make([]byte, 32)
	for i := range be {
		be[i] = b[31-i]
	}
	sign := uint(be[0] >> 7)
	be[0] &= 127
	y := new(big.Int).SetBytes(be)
	y.Mod(y, edP)
	yy := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(yy, big.NewInt(1))
	v := new(big.Int).Mul(yy, edD)
	v.Add(v, big.NewInt(1))
	v.ModInverse(v.Mod(v, edP), edP)
	u.Mul(u, v).Mod(u, edP)
	x := new(big.Int).ModSqrt(u, edP)
	if x == nil {
		return edPoint{}, false
	}
	if x.Bit(0) != sign && x.Sign() != 0 {
		x.Sub(edP, x)
	}
	return edPoint{x, y}, true
}

func (p edPoint) enc() []byte {
	b := EncLE(p.y, 32)
	b[31] |= byte(p.x.Bit(0)) << 7
	return b
}

// EdPoint is the encoding of k*B.
func EdPoint(k *big.Int) []byte {
	return edMul(edBase, new(big.Int).Mod(k, curves["ed25519"].N)).enc()
}

// EdIs tells whether b encodes k*B (symbolically: only with "use eddlog").
func EdIs(b []byte, k *big.Int) bool { return bytes.Equal(b, EdPoint(k)) }

// EdDecodes tells whether b encodes a point of the curve.
func EdDecodes(b []byte) bool { _, ok := edDecode(b); return ok }

// EdLin is the encoding of a*P + b*B (of a*(-P) + b*B), nil if P does not decode.
func EdLin(pt []byte, neg bool, a, b *big.Int) []byte {
	p, ok := edDecode(pt)
	if !ok {
		return nil
	}
	if neg {
		p.x = new(big.Int).Sub(edP, p.x)
		p.x.Mod(p.x, edP)
	}
	return edAdd(edMul(p, a), edMul(edBase, b)).enc()
}

// EdSum is the encoding of P + Q; both must decode.
func EdSum(p, q []byte) []byte {
	a, _ := edDecode(p)
	b, _ := edDecode(q)
	return edAdd(a, b).enc()
}

// EdAffine gives the coordinates of a decodable point.
func EdAffine(b []byte) (x, y *big.Int) {
	p, ok := edDecode(b)
	if !ok {
		panic(skip{"not a point"})
	}
	return p.x, p.y
}

// MontU is the u-coordinate (1+y)/(1-y) of an encoded y, 32 bytes little-endian;
// nil for y = 1.
func MontU(b []byte) []byte {
	be := make([]byte, 32)
	for i := range be {
		be[i] = b[31-i]
	}
	be[0] &= 127
	y := new(big.Int).SetBytes(be)
	y.Mod(y, edP)
	d := new(big.Int).Sub(big.NewInt(1), y)
	d.Mod(d, edP)
	if d.Sign() == 0 {
		return nil
	}
	d.ModInverse(d, edP)
	y.Add(y, big.NewInt(1))
	return EncLE(y.Mul(y, d).Mod(y, edP), 32)
}

// EdFromMont is the encoding of y = (u-1)/(u+1), sign bit clear; nil for u = -1.
func EdFromMont(b []byte) []byte {
	be := make([]byte, 32)
	for i := range be {
		be[i] = b[31-i]
	}
	be[0] &= 127
	u := new(big.Int).SetBytes(be)
	u.Mod(u, edP)
	d := new(big.Int).Add(u, big.NewInt(1))
	d.Mod(d, edP)
	if d.Sign() == 0 {
		return nil
	}
	d.ModInverse(d, edP)
	u.Sub(u, big.NewInt(1))
	return EncLE(u.Mul(u, d).Mod(u, edP), 32)
}
