package vrt

// Independent reference arithmetic (affine, math/big) used by native replay.

import "math/big"

type Curve struct{ P, N, A, B, Gx, Gy *big.Int }

func hx(s string) *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }

var curves = map[string]*Curve{
	"secp256k1": {hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), hx("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"), hx("0"), hx("7"), hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), hx("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")},
	"secp256r1": {hx("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"), hx("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"), hx("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"), hx("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"), hx("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), hx("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")},
	"pallas":    {hx("40000000000000000000000000000000224698fc094cf91b992d30ed00000001"), hx("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"), hx("0"), hx("5"), hx("1"), hx("1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb")},
	"sm2":       {hx("fffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff"), hx("fffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123"), hx("fffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc"), hx("28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93"), hx("32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7"), hx("bc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0")},
}

func (c *Curve) add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	if x1 == nil {
		return x2, y2
	}
	if x2 == nil {
		return x1, y1
	}
	l := new(big.Int)
	if x1.Cmp(x2) == 0 {
		s := new(big.Int).Add(y1, y2)
		if s.Mod(s, c.P).Sign() == 0 {
			return nil, nil
		}
		l.Mul(x1, x1)
		l.Mul(l, big.NewInt(3))
		l.Add(l, c.A)
		d := new(big.Int).Lsh(y1, 1)
		l.Mul(l, d.ModInverse(d.Mod(d, c.P), c.P))
	} else {
		l.Sub(y2, y1)
		d := new(big.Int).Sub(x2, x1)
		l.Mul(l, d.ModInverse(d.Mod(d, c.P), c.P))
	}
	l.Mod(l, c.P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, x1)
	x.Sub(x, x2)
	x.Mod(x, c.P)
	y := new(big.Int).Sub(x1, x)
	y.Mul(y, l)
	y.Sub(y, y1)
	y.Mod(y, c.P)
	return x, y
}

func (c *Curve) mul(k *big.Int) (*big.Int, *big.Int) {
	k = new(big.Int).Mod(k, c.N)
	var x, y *big.Int
	for i := k.BitLen() - 1; i >= 0; i-- {
		x, y = c.add(x, y, x, y)
		if k.Bit(i) == 1 {
			x, y = c.add(x, y, c.Gx, c.Gy)
		}
	}
	return x, y
}

// RefPoint: X||Y of k*G, 64 zero bytes for the identity.
func RefPoint(curve string, k *big.Int) []byte {
	c := curves[curve]
	x, y := c.mul(k)
	if x == nil {
		return make([]byte, 64)
	}
	return append(Enc(x, 32), Enc(y, 32)...)
}

// OrderOf returns the group order.
func OrderOf(curve string) *big.Int { return new(big.Int).Set(curves[curve].N) }
func FieldOf(curve string) *big.Int { return new(big.Int).Set(curves[curve].P) }

// OnCurve: 0 <= x, y < p and (x, y) satisfies the curve equation.
func OnCurve(curve string, x, y *big.Int) bool {
	c := curves[curve]
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(c.P) >= 0 || y.Cmp(c.P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Add(r, c.A)
	r.Mul(r, x)
	r.Add(r, c.B)
	l.Sub(l, r)
	return l.Mod(l, c.P).Sign() == 0
}

// MaybeBytes is f(), or n zero bytes if f panics.
func MaybeBytes(f func() []byte, n int) []byte {
	var b []byte
	if Panics(func() { b = f() }) {
		return make([]byte, n)
	}
	return b
}

// PointNear: X||Y of the first curve point with x >= from + a 16-bit input;
// the low bit of a second input chooses between y and p-y.
// Also returns how far x is above from.
func PointNear(name, curve string, from *big.Int) ([]byte, *big.Int) {
	c := curves[curve]
	x := new(big.Int).Add(from, big.NewInt(int64(u(name, 2, false))))
	odd := u(name+".s", 1, false) & 1
	for x.Cmp(c.P) < 0 {
		r := new(big.Int).Mul(x, x)
		r.Add(r, c.A)
		r.Mul(r, x)
		r.Add(r, c.B)
		r.Mod(r, c.P)
		if y := new(big.Int).ModSqrt(r, c.P); y != nil && y.Sign() != 0 {
			if uint64(y.Bit(0)) != odd {
				y.Sub(c.P, y)
			}
			return append(Enc(x, 32), Enc(y, 32)...), new(big.Int).Sub(x, from)
		}
		x.Add(x, big.NewInt(1))
	}
	panic(skip{"no point"})
}

// RefLin: a*P + b*G, 64 zero bytes for the identity.
func RefLin(curve string, pt []byte, a, b *big.Int) []byte {
	c := curves[curve]
	a = new(big.Int).Mod(a, c.N)
	var x, y *big.Int
	px, py := new(big.Int).SetBytes(pt[:32]), new(big.Int).SetBytes(pt[32:])
	if px.Sign() != 0 || py.Sign() != 0 {
		for i := a.BitLen() - 1; i >= 0; i-- {
			x, y = c.add(x, y, x, y)
			if a.Bit(i) == 1 {
				x, y = c.add(x, y, px, py)
			}
		}
	}
	gx, gy := c.mul(b)
	x, y = c.add(x, y, gx, gy)
	if x == nil {
		return make([]byte, 64)
	}
	return append(Enc(x, 32), Enc(y, 32)...)
}
