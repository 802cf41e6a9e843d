package main

// SAT sweeping for large bit-vector equivalences: nodes that agree on random
// inputs are proved equal bottom-up, each with a small local query over a cut,
// and merged.  Only proved merges are used, so the result is exact.

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
)

func rebuild(t *Term, a []*Term) *Term {
	same := true
	for i := range a {
		if a[i] != t.a[i] {
			same = false
		}
	}
	if same {
		return t
	}
	fold := func(f func(x, y *Term) *Term) *Term {
		r := a[0]
		for _, x := range a[1:] {
			r = f(r, x)
		}
		return r
	}
	switch t.op {
	case ONot:
		return MkNot(a[0])
	case OAnd:
		return MkAnd(a...)
	case OOr:
		return MkOr(a...)
	case OEq:
		return MkEq(a[0], a[1])
	case OIte:
		return MkIte(a[0], a[1], a[2])
	case OLin:
		l := newLin(t.sort)
		l.k.Set(t.k)
		for i, x := range a {
			l.add(x, t.coef[i])
		}
		return l.done()
	case OMul:
		return fold(MkMul)
	case OBAnd:
		return fold(MkBAnd)
	case OBOr:
		return fold(MkBOr)
	case OBXor:
		return fold(MkXor)
	case OBNot:
		return MkBNot(a[0])
	case OExtract:
		return MkExtract(a[0], t.i, t.j)
	case OConcat:
		return MkConcat(a...)
	case OUF:
		return MkUF(t.name, t.sort, a...)
	}
	return intern(Term{op: t.op, sort: t.sort, a: a, coef: t.coef, k: t.k, i: t.i, j: t.j, name: t.name})
}

func sweepable(t *Term, seen map[int]bool, n *int) bool {
	if seen[t.id] {
		return true
	}
	seen[t.id] = true
	*n++
	if t.sort.K != KBV && t.sort.K != KBool {
		return false
	}
	for _, x := range t.a {
		if !sweepable(x, seen, n) {
			return false
		}
	}
	return true
}

var cutSeq int

// cut copies t to depth d, with the subterms below as fresh variables.
func cut(t *Term, d int, m map[int]*Term, memo map[[2]int]*Term) *Term {
	if t.op == OConst {
		return t
	}
	if d == 0 || len(t.a) == 0 {
		if len(t.a) == 0 && t.op == OVar {
			return t
		}
		if v, ok := m[t.id]; ok {
			return v
		}
		cutSeq++
		v := MkVar(fmt.Sprintf("cut!%d", cutSeq), t.sort)
		m[t.id] = v
		return v
	}
	k := [2]int{t.id, d}
	if r, ok := memo[k]; ok {
		return r
	}
	a := make([]*Term, len(t.a))
	for i := range a {
		nd := d - 1
		if t.op == OConcat || t.op == OExtract || t.op == OBNot {
			nd = d // wiring is free
		}
		a[i] = cut(t.a[i], nd, m, memo)
	}
	r := rebuild(t, a)
	memo[k] = r
	return r
}

// The model, when not nil, makes the root false and every pc true.
func sweep(root *Term, pc []*Term, timeout func() bool) (*Term, Model) {
	n := 0
	if !sweepable(root, map[int]bool{}, &n) || n < 150 {
		return root, nil
	}
	// random simulation
	const pats = 12
	rng := rand.New(rand.NewSource(11))
	models := make([]Model, pats)
	memos := make([]map[int]*big.Int, pats)
	for i := range models {
		models[i], memos[i] = Model{}, map[int]*big.Int{}
	}
	var order []*Term
	seen := map[int]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, x := range t.a {
			visit(x)
		}
		order = append(order, t)
		if t.op == OVar {
			for i := range models {
				v := new(big.Int).Rand(rng, p2(max(1, t.sort.W)))
				if t.sort.K == KBool {
					v = big.NewInt(int64(rng.Intn(2)))
				}
				if b, ok := bvBounds[t.id]; ok {
					s := new(big.Int).Sub(b.hi, b.lo)
					v = new(big.Int).Rand(rng, s.Add(s, bigOne))
					v.Add(v, b.lo)
				}
				models[i][t.id] = v
			}
		}
	}
	visit(root)
	for i := range models {
		if evalTerm(root, models[i], memos[i]).Sign() == 0 {
			ok := true
			for _, p := range pc {
				if evalTerm(p, models[i], memos[i]).Sign() == 0 {
					ok = false
					break
				}
			}
			if ok {
				return root, models[i]
			}
		}
	}
	sig := func(t *Term) string {
		s := fmt.Sprint(t.sort)
		for i := range models {
			s += "," + evalTerm(t, models[i], memos[i]).Text(62)
		}
		return s
	}
	rep := map[int]*Term{}
	class := map[string][]*Term{}
	merged, queries, failed := 0, 0, 0
	for _, t := range order {
		if timeout() {
			return root, nil
		}
		a := make([]*Term, len(t.a))
		for i, x := range t.a {
			a[i] = rep[x.id]
		}
		r := t
		if len(a) > 0 {
			r = rebuild(t, a)
		}
		rep[t.id] = r
		if r.op == OConst || r.op == OVar || t.sort.K == KBool && t != root {
			if r.op == OVar && t.sort.K == KBV {
				class[sig(t)] = append(class[sig(t)], r)
			}
			continue
		}
		s := sig(t)
		found := false
		cs := class[s]
		for _, c := range cs {
			if c == r {
				found = true
				break
			}
		}
		if found {
			continue
		}
		if len(cs) > 3 {
			cs = cs[:3]
		}
		for _, c := range cs {
			if c.sort != r.sort {
				continue
			}
			for _, d := range []int{1, 2, 3, 5} {
				m, memo := map[int]*Term{}, map[[2]int]*Term{}
				q := MkEq(cut(r, d, m, memo), cut(c, d, m, memo))
				if q == tTrue {
					found = true
					break
				}
				if q == tFalse {
					continue
				}
				queries++
				if res, _ := Check([]*Term{MkNot(q)}, 2000); res == Unsat {
					found = true
					break
				}
			}
			if found {
				rep[t.id] = c
				merged++
				break
			}
			failed++
			if failed < 20 && os.Getenv("GOSYM_SWEEP") != "" {
				fmt.Fprintln(os.Stderr, "sweep: unproved", r.str(4), "\n  ", c.str(4))
			}
			if failed > 60 {
				return root, nil
			}
		}
		if !found {
			class[s] = append(class[s], r)
		}
	}
	if os.Getenv("GOSYM_SWEEP") != "" {
		fmt.Fprintf(os.Stderr, "sweep: %d nodes, %d merged, %d queries, %d unproved -> %s\n", len(order), merged, queries, failed, rep[root.id].str(2))
	}
	return rep[root.id], nil
}
