package main

// Concrete evaluation of terms under a (partial) model.

import (
	"crypto/sha256"
	"math/big"
	"strconv"
	"strings"
)

// evalTerm evaluates t; missing variables are 0, uninterpreted functions get a
// deterministic pseudo-random value unless the model fixes them.
func evalTerm(t *Term, m Model, memo map[int]*big.Int) *big.Int {
	if t.op == OConst {
		return t.Big()
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	v := evalTerm1(t, m, memo)
	memo[t.id] = v
	return v
}

func b2i(b bool) *big.Int {
	if b {
		return bigOne
	}
	return bigZero
}

func wrap(v *big.Int, w int) *big.Int { return new(big.Int).Mod(v, p2(w)) }
func sgn(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, p2(w))
	}
	return v
}

func evalTerm1(t *Term, m Model, memo map[int]*big.Int) *big.Int {
	ev := func(x *Term) *big.Int { return evalTerm(x, m, memo) }
	switch t.op {
	case OVar:
		if d, ok := cutDef[t.id]; ok {
			return wrap(ev(d), t.sort.W)
		}
		if v, ok := m[t.id]; ok {
			switch t.sort.K {
			case KBV:
				return wrap(v, t.sort.W)
			case KFF:
				return new(big.Int).Mod(v, t.sort.Prime())
			}
			return v
		}
		if b, ok := bvBounds[t.id]; ok {
			return wrap(b.lo, t.sort.W)
		}
		return bigZero
	case ONot:
		return b2i(ev(t.a[0]).Sign() == 0)
	case OAnd:
		for _, x := range t.a {
			if ev(x).Sign() == 0 {
				return bigZero
			}
		}
		return bigOne
	case OOr:
		for _, x := range t.a {
			if ev(x).Sign() != 0 {
				return bigOne
			}
		}
		return bigZero
	case OEq:
		return b2i(ev(t.a[0]).Cmp(ev(t.a[1])) == 0)
	case OIte:
		if ev(t.a[0]).Sign() != 0 {
			return ev(t.a[1])
		}
		return ev(t.a[2])
	case OLin:
		r := new(big.Int).Set(t.k)
		for i, x := range t.a {
			r.Add(r, new(big.Int).Mul(t.coef[i], ev(x)))
		}
		return norm(r, t.sort)
	case OMul:
		r := big.NewInt(1)
		for _, x := range t.a {
			r = new(big.Int).Mul(r, ev(x))
		}
		return norm(r, t.sort)
	case OUDiv, OURem:
		a, b := ev(t.a[0]), ev(t.a[1])
		if b.Sign() == 0 {
			if t.op == OURem {
				return a
			}
			return new(big.Int).Sub(p2(t.sort.W), bigOne)
		}
		q, r := new(big.Int).QuoRem(a, b, new(big.Int))
		if t.op == OUDiv {
			return q
		}
		return r
	case OSDiv, OSRem:
		a, b := sgn(ev(t.a[0]), t.sort.W), sgn(ev(t.a[1]), t.sort.W)
		if b.Sign() == 0 {
			return bigZero
		}
		q, r := new(big.Int).QuoRem(a, b, new(big.Int))
		if t.op == OSDiv {
			return wrap(q, t.sort.W)
		}
		return wrap(r, t.sort.W)
	case OShl, OLShr, OAShr:
		a, n := ev(t.a[0]), ev(t.a[1])
		w := t.sort.W
		k := w
		if n.IsInt64() && n.Int64() < int64(w) {
			k = int(n.Int64())
		}
		switch t.op {
		case OShl:
			return wrap(new(big.Int).Lsh(a, uint(k)), w)
		case OLShr:
			return new(big.Int).Rsh(a, uint(k))
		}
		return wrap(new(big.Int).Rsh(sgn(a, w), uint(k)), w)
	case OBAnd, OBOr, OBXor:
		r := new(big.Int).Set(ev(t.a[0]))
		for _, x := range t.a[1:] {
			switch t.op {
			case OBAnd:
				r.And(r, ev(x))
			case OBOr:
				r.Or(r, ev(x))
			default:
				r.Xor(r, ev(x))
			}
		}
		return r
	case OBNot:
		return new(big.Int).Sub(new(big.Int).Sub(p2(t.sort.W), bigOne), ev(t.a[0]))
	case OConcat:
		r := new(big.Int)
		for _, x := range t.a {
			r.Lsh(r, uint(x.sort.W))
			r.Or(r, ev(x))
		}
		return r
	case OExtract:
		r := new(big.Int).Rsh(ev(t.a[0]), uint(t.j))
		return wrap(r, t.sort.W)
	case OSExt:
		return wrap(sgn(ev(t.a[0]), t.a[0].sort.W), t.sort.W)
	case OUlt:
		return b2i(ev(t.a[0]).Cmp(ev(t.a[1])) < 0)
	case OSlt:
		w := t.a[0].sort.W
		return b2i(sgn(ev(t.a[0]), w).Cmp(sgn(ev(t.a[1]), w)) < 0)
	case OIDiv:
		return floorDiv(ev(t.a[0]), t.k)
	case OILt:
		return b2i(ev(t.a[0]).Sign() < 0)
	case OBV2U:
		return ev(t.a[0])
	case OBV2S:
		return sgn(ev(t.a[0]), t.a[0].sort.W)
	case OInt2BV:
		return wrap(ev(t.a[0]), t.sort.W)
	case OFFInv:
		x := ev(t.a[0])
		if x.Sign() == 0 {
			return bigZero
		}
		return new(big.Int).ModInverse(x, t.sort.Prime())
	case OFFAtom:
		return new(big.Int).Mod(ev(t.a[0]), t.sort.Prime())
	case OFF2Int:
		return ev(t.a[0])
	case OUF:
		if strings.HasPrefix(t.name, "imod.") {
			if k, ok := new(big.Int).SetString(t.name[5:], 16); ok {
				if _, ok := m[t.a[0].id]; ok {
					return new(big.Int).Mod(ev(t.a[0]), k)
				}
			}
		}
		if v, ok := m[t.id]; ok {
			if t.sort.K == KBV {
				return wrap(v, t.sort.W)
			}
			return v
		}
		h := sha256.New()
		h.Write([]byte(t.name))
		for _, x := range t.a {
			h.Write([]byte("," + ev(x).Text(16)))
		}
		s := h.Sum(nil)
		r := new(big.Int)
		for i := 0; r.BitLen() < 1200; i++ {
			hh := sha256.Sum256(append(s, []byte(strconv.Itoa(i))...))
			r.Lsh(r, 256)
			r.Or(r, new(big.Int).SetBytes(hh[:]))
			if r.Sign() == 0 {
				break
			}
		}
		if t.sort.K == KInt {
			if b, ok := ufRange[t.name]; ok {
				n := new(big.Int).Sub(b[1], b[0])
				n.Add(n, bigOne)
				return r.Mod(r, n).Add(r, b[0])
			}
			return r
		}
		return norm(r, t.sort)
	}
	panic(unsup("eval op %v", t.op))
}

func norm(v *big.Int, s Sort) *big.Int {
	switch s.K {
	case KBV:
		return wrap(v, s.W)
	case KFF:
		return new(big.Int).Mod(v, s.Prime())
	}
	return v
}

var recent []Model

func noteModel(m Model) {
	recent = append(recent, m)
	if len(recent) > 6 {
		recent = recent[1:]
	}
}

func quickSat(pc []*Term, c *Term) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	for i := len(recent) - 1; i >= 0; i-- {
		memo := map[int]*big.Int{}
		if evalTerm(c, recent[i], memo).Sign() == 0 {
			continue
		}
		good := true
		for _, p := range pc {
			if evalTerm(p, recent[i], memo).Sign() == 0 {
				good = false
				break
			}
		}
		if good {
			return true
		}
	}
	return false
}
