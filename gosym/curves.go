package main

// Scheme-level contracts of the three Weierstrass groups: coordinates are
// uninterpreted functions of the discrete logarithm.

import (
	"fmt"
	"math/big"
	"os"
)

type curveDef struct {
	key                string
	p, n, gx, gy, a, b *big.Int
	grp                *Group
}

var curveDefs = map[string]*curveDef{}

func defCurve(key, p, n, gx, gy, a, b string) *curveDef {
	d := &curveDef{key: key, p: hexBig(p), n: hexBig(n), gx: hexBig(gx), gy: hexBig(gy), a: hexBig(a), b: hexBig(b)}
	d.grp = newGroup(key, d.p, d.n)
	curveDefs[key] = d
	return d
}

func (c *CallCtx) newBig(st *State, t *Term) Val { return st.alloc(&BigV{t}) }

func (c *CallCtx) point(st *State, g *Group, k *Term) []Out {
	z, nz := c.ex.branch(st, MkEq(k, MkFFC(bigZero, g.F)))
	var outs []Out
	if nz != nil {
		outs = append(outs, Out{kind: ORet, st: nz, v: &Tuple{[]Val{c.newBig(nz, g.X(k)), c.newBig(nz, g.Y(k))}}})
	}
	if z != nil {
		outs = append(outs, Out{kind: ORet, st: z, v: &Tuple{[]Val{c.newBig(z, MkIntC(bigZero)), c.newBig(z, MkIntC(bigZero))}}})
	}
	return outs
}

func (c *CallCtx) dlog(g *Group, xi, yi int) (*Term, bool) {
	x, y := c.big(xi), c.big(yi)
	if k, ok := g.Dlog(x, y); ok {
		return k, true
	}
	if debugDlog {
		fmt.Fprintln(os.Stderr, "DLOG", x.str(7), "\n   ", y.str(7))
	}
	return nil, false
}

// rawPoint: result of a point operation on coordinates that are not known to
// be a multiple of the generator: an uninterpreted function of all arguments.
// The standard library's generic curve panics when they are not a point.
func (c *CallCtx) rawPoint(d *curveDef, op string, strict bool, pts [][2]*Term, extra ...*Term) []Out {
	var args []*Term
	ok := tTrue
	for _, p := range pts {
		args = append(args, p[0], p[1])
		if _, known := d.grp.Dlog(p[0], p[1]); !known {
			z := MkInt64(0)
			ok = MkAnd(ok, MkOr(MkAnd(MkEq(p[0], z), MkEq(p[1], z)), onCurve(d, p[0], p[1])))
		}
	}
	args = append(args, extra...)
	st := c.st
	var outs []Out
	if strict {
		a, b := c.ex.branch(st, ok)
		if b != nil {
			outs = append(outs, Out{kind: OPanic, st: b, msg: "attempted operation on invalid point"})
		}
		if a == nil {
			return outs
		}
		st = a
	}
	for _, s := range []string{"x", "y"} {
		n := d.key + "." + op + s
		ufRange[n] = [2]*big.Int{bigZero, new(big.Int).Sub(d.p, bigOne)}
	}
	x, y := MkUF(d.key+"."+op+"x", IntS, args...), MkUF(d.key+"."+op+"y", IntS, args...)
	return append(outs, Out{kind: ORet, st: st, v: &Tuple{[]Val{c.newBig(st, x), c.newBig(st, y)}}})
}

// splitRoots forks when a coordinate pair is (X, cond ? Y : -Y), so that each
// path knows which of the two points it has.
func (c *CallCtx) splitRoots(g *Group, n, i int, f Intr) []Out {
	if i == n {
		return f(c)
	}
	x, y := c.big(2*i+1), c.big(2*i+2)
	if y.op == OBV2U && y.a[0].op == OIte {
		y = MkIte(y.a[0].a[0], toU(y.a[0].a[1]), toU(y.a[0].a[2]))
	}
	if x.op == OIte || y.op != OIte {
		return c.splitRoots(g, n, i+1, f)
	}
	var leaves func(y *Term) bool
	leaves = func(y *Term) bool {
		if y.op == OIte {
			return leaves(y.a[1]) && leaves(y.a[2])
		}
		_, ok := g.Dlog(x, y)
		return ok
	}
	if !leaves(y) {
		return c.splitRoots(g, n, i+1, f)
	}
	var outs []Out
	a, b := c.ex.branch(c.st, y.a[0])
	for k, st := range []*State{a, b} {
		if st == nil {
			continue
		}
		d := *c
		d.st = st
		d.args = append([]Val{}, c.args...)
		d.args[2*i+2] = d.newBig(st, y.a[1+k])
		outs = append(outs, d.splitRoots(g, n, i, f)...)
	}
	return outs
}

func (c *CallCtx) xy(xi, yi int) [2]*Term { return [2]*Term{c.big(xi), c.big(yi)} }

func curveContracts(prefix string, d *curveDef) {
	g := d.grp
	strict := prefix == "(*crypto/elliptic.CurveParams)."
	guardNil := func(f Intr) Intr {
		return func(c *CallCtx) (outs []Out) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(nilDeref); ok {
						outs = []Out{{kind: OPanic, st: c.st, msg: "nil coordinate"}}
						return
					}
					panic(r)
				}
			}()
			return f(c)
		}
	}
	npts := map[string]int{"ScalarMult": 1, "Add": 2, "Double": 1, "IsOnCurve": 1}
	add := func(m string, f Intr) {
		addContract(prefix+m, guardNil(func(c *CallCtx) []Out { return c.splitRoots(g, npts[m], 0, f) }))
	}
	lazyOK[prefix+"ScalarBaseMult"] = true
	lazyOK[prefix+"ScalarMult"] = true
	add("ScalarBaseMult", func(c *CallCtx) []Out {
		return c.point(c.st, g, ToFF(concatBE(c.bytes(1)), g.F))
	})
	add("ScalarMult", func(c *CallCtx) []Out {
		k, ok := c.dlog(g, 1, 2)
		if !ok {
			return c.rawPoint(d, "sm", strict, [][2]*Term{c.xy(1, 2)}, MkBV2U(concatBE(c.bytes(3))))
		}
		return c.point(c.st, g, MkMul(k, ToFF(concatBE(c.bytes(3)), g.F)))
	})
	add("Add", func(c *CallCtx) []Out {
		k, ok := c.dlog(g, 1, 2)
		l, ok2 := c.dlog(g, 3, 4)
		if !ok || !ok2 {
			return c.rawPoint(d, "add", strict, [][2]*Term{c.xy(1, 2), c.xy(3, 4)})
		}
		return c.point(c.st, g, MkAdd(k, l))
	})
	add("Double", func(c *CallCtx) []Out {
		k, ok := c.dlog(g, 1, 2)
		if !ok {
			return c.rawPoint(d, "dbl", strict, [][2]*Term{c.xy(1, 2)})
		}
		return c.point(c.st, g, MkAdd(k, k))
	})
	add("IsOnCurve", func(c *CallCtx) []Out {
		x, y := c.big(1), c.big(2)
		if k, ok := g.Dlog(x, y); ok {
			return c.ret(MkNot(MkEq(k, MkFFC(bigZero, g.F))))
		}
		// arbitrary coordinates
		return c.ret(onCurve(d, x, y))
	})
}

// onCurve: 0<=x,y<p and y^2 = x^3+ax+b
func onCurve(d *curveDef, x, y *Term) *Term {
	f := FFIndex(d.p)
	fx, fy := ToFF(x, f), ToFF(y, f)
	rhs := MkAdd(MkAdd(MkMul(MkMul(fx, fx), fx), MkScale(fx, d.a)), MkFFC(d.b, f))
	P := MkIntC(d.p)
	return MkAnd(MkNot(MkILt0(x)), MkNot(MkILt0(y)), MkILt(x, P), MkILt(y, P), MkEq(MkMul(fy, fy), rhs))
}

func initCurves() {
	k1 := defCurve("secp256k1", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", "0", "7")
	r1 := defCurve("secp256r1", "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5", "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc", "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b")
	sm := defCurve("sm2", "fffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff", "fffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123", "32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7", "bc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0", "fffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc", "28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93")
	pallas = defCurve("pallas", "40000000000000000000000000000000224698fc094cf91b992d30ed00000001", "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001", "1", "1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb", "0", "5")
	curveContracts("(*"+repoPath+".secp256k1Curve).", k1)
	curveContracts("("+repoPath+".secp256k1Curve).", k1)
	curveContracts("(*"+repoPath+".sm2_stdCurve).", sm)
	curveContracts("("+repoPath+".sm2_stdCurve).", sm)
	curveContracts("(*crypto/elliptic.CurveParams).", r1)
	one := big.NewInt(1)
	// no point of order 2, and no point with x = 0 on secp256k1
	for _, d := range []*curveDef{k1, r1, sm, pallas} {
		ufRange[d.key+".Y"] = [2]*big.Int{one, new(big.Int).Sub(d.p, one)}
	}
	ufRange["secp256k1.X"] = [2]*big.Int{one, new(big.Int).Sub(k1.p, one)}
	ufRange["pallas.X"] = [2]*big.Int{one, new(big.Int).Sub(pallas.p, one)} // 5 is no square
	vi("OrderOf", func(c *CallCtx) []Out {
		name, _ := concStr(c.args[0])
		return c.ret(c.newBig(c.st, MkIntC(curveDefs[name].n)))
	})
	vi("FieldOf", func(c *CallCtx) []Out {
		name, _ := concStr(c.args[0])
		return c.ret(c.newBig(c.st, MkIntC(curveDefs[name].p)))
	})
	vi("PowMod", func(c *CallCtx) []Out {
		b, e, m := c.big(0), c.big(1), c.big(2)
		if !e.IsConst() || !m.IsConst() || !powMode {
			panic(unsup("PowMod"))
		}
		return c.ret(c.newBig(c.st, MkFF2Int(powTerm(ToFF(b, FFIndex(m.k)), e.k))))
	})
	vi("OnCurve", func(c *CallCtx) []Out {
		name, _ := concStr(c.args[0])
		d := curveDefs[name]
		x, y := c.big(1), c.big(2)
		if k, ok := d.grp.Dlog(x, y); ok {
			return c.ret(MkNot(MkEq(k, MkFFC(bigZero, d.grp.F))))
		}
		return c.ret(onCurve(d, x, y))
	})
	// vrt.RefPoint(curve, k) -> 64-byte X||Y of k*G (64 zero bytes for the identity)
	vi("RefPoint", func(c *CallCtx) []Out {
		name, _ := concStr(c.args[0])
		d := curveDefs[name]
		return c.ret(c.refPoint(d, ToFF(c.big(1), d.grp.F)))
	})
	vi("RefLin", func(c *CallCtx) []Out {
		name, _ := concStr(c.args[0])
		d := curveDefs[name]
		b := c.bytes(1)
		k, ok := d.grp.Dlog(concatBE(b[:32]), concatBE(b[32:]))
		if !ok {
			panic(unsup("RefLin of an unknown point"))
		}
		f := d.grp.F
		return c.ret(c.refPoint(d, MkAdd(MkMul(k, ToFF(c.big(2), f)), ToFF(c.big(3), f))))
	})
	vi("PointNear", func(c *CallCtx) []Out {
		n := c.sname(0)
		name, _ := concStr(c.args[1])
		d := curveDefs[name]
		from := c.big(2)
		k := MkVar(n, FFS(d.grp.F))
		// the native side takes a 16-bit offset from the given start
		c.st.inputs = append(c.st.inputs, Input{n, "int", []*Term{MkBV(0, 16)}})
		x := d.grp.X(k)
		off := MkVar(n+".off", BVS(17))
		o := MkBV2U(off)
		c.ex.addPC(c.st, MkNot(MkEq(k, MkFFC(bigZero, d.grp.F))))
		c.ex.addPC(c.st, MkEq(x, MkAdd(from, o)))
		pt := c.ex.newBytes(c.st, append(beBytes(x, 32), beBytes(d.grp.Y(k), 32)...))
		return c.ret(&Tuple{[]Val{pt, c.newBig(c.st, o)}})
	})
}

// Pallas: the curve of the pasta package
var pallas *curveDef

var debugDlog = os.Getenv("GOSYM_DEBUG") != ""

// refPoint is X||Y of k*G, 64 zero bytes for the identity.
func (c *CallCtx) refPoint(d *curveDef, k *Term) *Slice {
	z := MkEq(k, MkFFC(bigZero, d.grp.F))
	if !c.ex.feasible(c.st, z) {
		z = tFalse
	}
	zero := MkIntC(bigZero)
	b := append(beBytes(MkIte(z, zero, d.grp.X(k)), 32), beBytes(MkIte(z, zero, d.grp.Y(k)), 32)...)
	return c.ex.newBytes(c.st, b)
}
