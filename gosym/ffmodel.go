package main

// A cheap model finder for prime-field constraints: random assignment, then
// each equality is repaired through a variable it is affine in.  Only ever
// used to answer "satisfiable"; unsatisfiability always comes from the solver.

import (
	"math/big"
	"math/rand"
)

type ffFinder struct {
	f      int
	p      *big.Int
	leaves []*Term
	isLeaf map[int]bool
	val    map[int]*big.Int
	alias  map[int]*Term // OFFAtom over a rewritable bit-vector -> field term
	memo   map[int]*big.Int
	deps   map[int]map[int]bool
	bad    bool
	extra  []*Term // integer facts that must vanish
	rng    *rand.Rand
}

func (e *ffFinder) collect(t *Term) map[int]bool {
	if d, ok := e.deps[t.id]; ok {
		return d
	}
	d := map[int]bool{}
	e.deps[t.id] = d
	leaf := func() {
		d[t.id] = true
		if !e.isLeaf[t.id] {
			e.isLeaf[t.id] = true
			e.leaves = append(e.leaves, t)
		}
	}
	switch t.op {
	case OConst:
	case OVar, OUF:
		leaf()
	case OFFAtom:
		u := t.a[0]
		if u.op == OBV2U && u.a[0].sort.W == 1 {
			e.bad = true // a bit: not any field element
			return d
		}
		r := u
		if u.op == OBV2U {
			r = toU(u.a[0])
		} else if u.op == OBV2S {
			r = toS(u.a[0])
		}
		if r != u {
			a := ToFF(r, e.f)
			e.alias[t.id] = a
			for k := range e.collect(a) {
				d[k] = true
			}
			return d
		}
		leaf()
		for _, fct := range intFacts[u.id] {
			x := ToFF(fct, e.f)
			e.extra = append(e.extra, x)
			e.collect(x)
		}
	case OLin, OMul, OFFInv:
		for _, x := range t.a {
			for k := range e.collect(x) {
				d[k] = true
			}
		}
	default:
		e.bad = true
	}
	return d
}

func (e *ffFinder) ev(t *Term) *big.Int {
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	r := new(big.Int)
	switch t.op {
	case OConst:
		r = t.k
	case OLin:
		r.Set(t.k)
		x := new(big.Int)
		for i, a := range t.a {
			r.Add(r, x.Mul(t.coef[i], e.ev(a)))
		}
		r.Mod(r, e.p)
	case OMul:
		r.SetInt64(1)
		for _, a := range t.a {
			r.Mul(r, e.ev(a))
			r.Mod(r, e.p)
		}
	case OFFInv:
		x := e.ev(t.a[0])
		if x.Sign() != 0 {
			r.ModInverse(x, e.p)
		}
	default:
		if a, ok := e.alias[t.id]; ok {
			r = e.ev(a)
		} else {
			r = e.val[t.id]
		}
	}
	e.memo[t.id] = r
	return r
}

// ffFind looks for an assignment satisfying literal lits (equalities and
// disequalities over field f).
func ffFind(f int, lits []*Term) (Model, bool) {
	e := &ffFinder{f: f, p: fields[f].P, isLeaf: map[int]bool{}, alias: map[int]*Term{}, deps: map[int]map[int]bool{}, rng: rand.New(rand.NewSource(7))}
	var eqs, nes []*Term
	for _, l := range lits {
		neg := false
		if l.op == ONot {
			neg, l = true, l.a[0]
		}
		if l.op != OEq || l.a[0].sort.K != KFF {
			return nil, false
		}
		d := MkSub(l.a[0], l.a[1])
		e.collect(d)
		if neg {
			nes = append(nes, d)
		} else {
			eqs = append(eqs, d)
		}
	}
	if e.bad {
		return nil, false
	}
	for _, x := range e.extra {
		e.collect(x)
	}
	eqs = append(eqs, e.extra...)
	if e.bad {
		return nil, false
	}
	zero := func(t *Term) bool { return e.ev(t).Sign() == 0 }
	for try := 0; try < 12; try++ {
		e.val = map[int]*big.Int{}
		for _, l := range e.leaves {
			switch {
			case try%4 == 3:
				e.val[l.id] = big.NewInt(int64(e.rng.Intn(5) + 1))
			default:
				e.val[l.id] = new(big.Int).Rand(e.rng, e.p)
			}
		}
		e.memo = map[int]*big.Int{}
		used := map[int]bool{}
		order := e.rng.Perm(len(eqs))
		ok := true
		for round := 0; round < 3; round++ {
			ok = true
			for _, qi := range order {
				q := eqs[qi]
				if zero(q) {
					for k := range e.deps[q.id] {
						if round == 0 {
							_ = k
						}
					}
					continue
				}
				ok = false
				var ks []int
				for k := range e.deps[q.id] {
					if !used[k] {
						ks = append(ks, k)
					}
				}
				e.rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
				for _, k := range ks {
					old := e.val[k]
					at := func(v int64) *big.Int {
						e.val[k] = big.NewInt(v)
						e.memo = map[int]*big.Int{}
						return e.ev(q)
					}
					d0, d1, d2 := at(0), at(1), at(2)
					s1 := new(big.Int).Sub(d1, d0)
					s2 := new(big.Int).Sub(d2, d1)
					s1.Mod(s1, e.p)
					s2.Mod(s2, e.p)
					if s1.Sign() == 0 || s1.Cmp(s2) != 0 {
						e.val[k] = old
						e.memo = map[int]*big.Int{}
						continue
					}
					v := new(big.Int).ModInverse(s1, e.p)
					v.Mul(v, new(big.Int).Neg(d0))
					v.Mod(v, e.p)
					e.val[k] = v
					e.memo = map[int]*big.Int{}
					if zero(q) {
						used[k] = true
						break
					}
					e.val[k] = old
					e.memo = map[int]*big.Int{}
				}
			}
			if ok {
				break
			}
			used = map[int]bool{}
		}
		good := true
		for _, q := range eqs {
			if !zero(q) {
				good = false
			}
		}
		for _, q := range nes {
			if zero(q) {
				good = false
			}
		}
		if good {
			m := Model{}
			for _, l := range e.leaves {
				m[l.id] = e.val[l.id]
			}
			return m, true
		}
	}
	return nil, false
}
