package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// Word primitives of the Pasta field arithmetic (directive "use limb", with
// "use lift"): carries and high halves are floors, results are cut variables
// with those definitions.  The primitives themselves are checked against the
// same formulas by VH_Limb* harnesses.

// cutKeep: cut variables that stay variables in field-level terms (carries).
var cutKeep = map[int]bool{}

func cutWord(d *Term, w int, lo, hi *big.Int) *Term {
	if d.IsConst() || lo != nil && lo.Cmp(hi) == 0 {
		if d.IsConst() {
			return MkBVBig(d.k, w)
		}
		return MkBVBig(lo, w)
	}
	cutN++
	v := MkVar(fmt.Sprintf("cut!%d", cutN), BVS(w))
	bvBounds[v.id] = bnd{lo, hi}
	cutDef[v.id] = d
	return v
}

// splitWord: the low 64 bits of the sum s and the rest.
func splitWord(s *Term, cw int) (out, carry *Term) {
	k := p2(64)
	lo, hi := IntRange(s)
	var a, b *big.Int
	if lo != nil && hi != nil {
		a, b = floorDiv(lo, k), floorDiv(hi, k)
	} else {
		unsup("word sum without bounds")
	}
	if q, ok := exactWord(s); ok {
		return MkBV(0, 64), cutWord(q, cw, a, b)
	}
	if a.Sign() == 0 && b.Sign() == 0 {
		return cutWord(s, 64, lo, hi), MkBV(0, cw)
	}
	q := cutWord(MkIDivN(s, k), cw, a, b)
	cutKeep[q.id] = true
	return cutWord(MkSub(s, MkScale(toU(q), k)), 64, bigZero, new(big.Int).Sub(k, bigOne)), q
}

// exactWord recognises a sum that is a multiple of 2^64 by its definition.
func exactWord(s *Term) (*Term, bool) {
	k := p2(64)
	for n := 0; n < 5; n++ {
		if s.op != OLin || new(big.Int).Mod(s.k, k).Sign() != 0 {
			return nil, false
		}
		var t *Term
		var c *big.Int
		bad := 0
		for i, x := range s.a {
			if new(big.Int).Mod(s.coef[i], k).Sign() == 0 {
				continue
			}
			bad++
			if x.op == OBV2U && cutDef[x.a[0].id] != nil && (t == nil || x.a[0].id > t.a[0].id) {
				t, c = x, s.coef[i]
			}
		}
		if bad == 0 {
			l := newLin(IntS)
			l.k.Div(s.k, k)
			for i, x := range s.a {
				l.add(x, new(big.Int).Div(s.coef[i], k))
			}
			return l.done(), true
		}
		if t == nil {
			return nil, false
		}
		l := newLin(IntS)
		l.add(s, bigOne)
		l.add(t, new(big.Int).Neg(c))
		l.add(cutDef[t.a[0].id], c)
		s = l.done()
	}
	return nil, false
}

func init() {
	for _, f := range []string{"Fp", "Fq"} {
		pre := repoPath + "/pasta.FiatPasta" + f
		lb := func(n string, fn Intr) { addGroup("limb", pre+n, fn) }
		store := func(c *CallCtx, i int, t *Term) { c.st.store(c.args[i].(*Ptr), t) }
		lb("AddCarryXU64", func(c *CallCtx) []Out {
			s := MkAdd(MkAdd(toU(c.term(2)), toU(c.term(3))), toU(c.term(4)))
			o, q := splitWord(s, 8)
			store(c, 0, o)
			store(c, 1, q)
			return c.ret(nil)
		})
		lb("SubBorrowXU64", func(c *CallCtx) []Out {
			s := MkSub(MkSub(toU(c.term(3)), toU(c.term(4))), toU(c.term(2)))
			k := p2(64)
			q := MkIDivN(s, k)
			lo, hi := IntRange(q)
			if q.IsConst() {
				lo, hi = q.k, q.k
			}
			b := cutWord(MkNeg(q), 8, new(big.Int).Neg(hi), new(big.Int).Neg(lo))
			cutKeep[b.id] = true
			store(c, 0, cutWord(MkAdd(s, MkScale(toU(b), k)), 64, bigZero, new(big.Int).Sub(k, bigOne)))
			store(c, 1, b)
			return c.ret(nil)
		})
		lb("MulXU64", func(c *CallCtx) []Out {
			o, q := splitWord(MkMul(toU(c.term(2)), toU(c.term(3))), 64)
			store(c, 0, o)
			store(c, 1, q)
			return c.ret(nil)
		})
		lb("CmovznzU64", func(c *CallCtx) []Out {
			x, y := c.term(2), c.term(3)
			z, nz := c.ex.branch(c.st, MkEq(c.term(1), MkBV(0, 8)))
			var outs []Out
			if z != nil {
				z.store(c.args[0].(*Ptr), x)
				outs = append(outs, Out{kind: ORet, st: z})
			}
			if nz != nil {
				nz.store(c.args[0].(*Ptr), y)
				outs = append(outs, Out{kind: ORet, st: nz})
			}
			return outs
		})
	}
	initPasta()
	initPastaGroup()
}

// Field elements as words (directive "use pfe"): four words hold R*x mod p
// (Montgomery form); the operations are those of the field, as the P01
// harnesses establish for the real code.
func (c *CallCtx) pWords(v Val) *Term {
	switch x := v.(type) {
	case *Ptr:
		return c.pWords(c.st.load(x))
	case *Agg:
		var w []*Term
		for i := len(x.els) - 1; i >= 0; i-- {
			w = append(w, x.els[i].(*Term))
		}
		return MkConcat(w...)
	}
	panic(unsup("words of a field element"))
}

func wordAgg(t *Term) *Agg {
	a := &Agg{make([]Val, 4)}
	for i := range a.els {
		a.els[i] = MkExtract(t, 64*i+63, 64*i)
	}
	return a
}

func ffWords(y *Term) *Agg {
	if y.op == OIte {
		x, z := ffWords(y.a[1]), ffWords(y.a[2])
		a := &Agg{make([]Val, 4)}
		for i := range a.els {
			a.els[i] = MkIte(y.a[0], x.els[i].(*Term), z.els[i].(*Term))
		}
		return a
	}
	return wordAgg(MkInt2BV(MkFF2Int(y), 256))
}

func floatConst(f float64) *opaqueV {
	return &opaqueV{"const " + strconv.FormatFloat(f, 'g', -1, 64)}
}

func initPasta() {
	// exact for the powers of two, and never across an integer elsewhere
	addIntr("math.Log2", func(c *CallCtx) []Out {
		o, ok := c.args[0].(*opaqueV)
		if !ok || !strings.HasPrefix(o.name, "const ") {
			panic(unsup("math.Log2"))
		}
		f, err := parseFloatConst(o.name[6:])
		if err != nil {
			panic(unsup("math.Log2"))
		}
		return c.ret(floatConst(math.Log2(f)))
	})
	for _, fd := range []struct {
		n string
		p *big.Int
	}{{"Fp", pallas.p}, {"Fq", pallas.n}} {
		f := FFIndex(fd.p)
		p := fd.p
		R := MkFFC(new(big.Int).Mod(p2(256), p), f)
		Ri := MkFFC(new(big.Int).ModInverse(R.k, p), f)
		pre := repoPath + "/pasta.FiatPasta" + fd.n
		// arg: the field value of the words, which must be canonical
		arg := func(c *CallCtx, i int, canon bool) *Term {
			t := c.pWords(c.args[i])
			u := MkBV2U(t)
			if _, hi := IntRange(u); canon && (hi == nil || hi.Cmp(p) >= 0) {
				c.ex.assert(c.st, MkILt(u, MkIntC(p)), "Pasta arithmetic on canonical operands")
			}
			return feMul(ToFF(u, f), MkFFC(bigOne, f))
		}
		set := func(c *CallCtx, i int, y *Term) []Out {
			c.st.store(c.args[i].(*Ptr), ffWords(y))
			return c.ret(nil)
		}
		mul := func(y, z *Term) *Term { // Montgomery product
			return feMul(feMulP(feMul(y, Ri), feMul(z, Ri)), R)
		}
		pf := func(n string, fn Intr) { addGroup("pfe", pre+n, fn) }
		pf("Mul", func(c *CallCtx) []Out { return set(c, 0, mul(arg(c, 1, true), arg(c, 2, true))) })
		pf("Square", func(c *CallCtx) []Out { y := arg(c, 1, true); return set(c, 0, mul(y, y)) })
		pf("Add", func(c *CallCtx) []Out { return set(c, 0, feAdd(arg(c, 1, true), arg(c, 2, true))) })
		pf("Sub", func(c *CallCtx) []Out { return set(c, 0, feAdd(arg(c, 1, true), feNeg(arg(c, 2, true)))) })
		pf("Opp", func(c *CallCtx) []Out { return set(c, 0, feNeg(arg(c, 1, true))) })
		pf("FromMontgomery", func(c *CallCtx) []Out { return set(c, 0, feMul(arg(c, 1, true), Ri)) })
		pf("ToMontgomery", func(c *CallCtx) []Out { return set(c, 0, feMul(arg(c, 1, false), R)) })
		pf("NonZero", func(c *CallCtx) []Out {
			z := feZeroTerm(arg(c, 1, true))
			c.st.store(c.args[0].(*Ptr), MkIte(z, MkBV(0, 64), MkBV(1, 64)))
			return c.ret(nil)
		})
		pf("Equals", func(c *CallCtx) []Out {
			return c.ret(feZeroTerm(feAdd(arg(c, 0, true), feNeg(arg(c, 1, true)))))
		})
		if fd.n == "Fp" {
			pf("EqualsZero", func(c *CallCtx) []Out { return c.ret(feZeroTerm(arg(c, 0, true))) })
			pf("EqualsOne", func(c *CallCtx) []Out { return c.ret(feZeroTerm(feAdd(arg(c, 0, true), feNeg(R)))) })
			addGroup("pinv", pre+"Inv", func(c *CallCtx) []Out {
				return c.feInv(c.st, feMul(arg(c, 1, true), Ri), func(st *State, x *Term) []Out {
					st.store(c.args[0].(*Ptr), ffWords(feMul(x, R)))
					return []Out{{kind: ORet, st: st}}
				})
			})
		}
	}
	// Unit(name, p): a non-zero element
	vi("Unit", func(c *CallCtx) []Out {
		n := c.sname(0)
		v := MkVar(n, FFS(FFIndex(c.big(1).k)))
		c.st.inputs = append(c.st.inputs, Input{n, "int", []*Term{v}})
		c.ex.addPC(c.st, MkNot(MkEq(v, MkFFC(bigZero, v.sort.W))))
		powNZ[v] = true
		return c.ret(c.st.alloc(&BigV{MkFF2Int(v)}))
	})
}
