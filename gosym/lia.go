package main

import (
	"fmt"
	"go/token"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cut points (directive "use cut", with "use lift"): the limb left by a carry
// step, x - (c << n), becomes a variable with the interval of that expression.
// The defining expression is kept: field-level conversions unfold it, and the
// integer solver gets it as an equation when the interval alone is not enough.
var (
	cutMode  bool
	cutDef   = map[int]*Term{}
	cutN     int
	cutCarry = map[int]bool{}
)

func cutStep(in *ssa.BinOp, t *Term) *Term {
	if t.sort.K != KBV || t.IsConst() {
		return t
	}
	if _, ok := in.Y.(*ssa.Const); ok && in.Op == token.SHR {
		if plainBits(toS(t)) {
			return t
		}
		for _, u := range *in.Referrers() {
			// taking a limb apart into bytes is no carry either
			if b, ok := u.(*ssa.BinOp); ok && b.Op == token.OR {
				return t
			}
			if _, ok := u.(*ssa.Convert); ok {
				return t
			}
		}
		v := cutTerm(t, nil)
		if v != t {
			cutCarry[v.id] = true
		}
		return v
	}
	if y, ok := in.Y.(*ssa.BinOp); ok && in.Op == token.SUB && y.Op == token.SHL {
		return cutTerm(t, unfoldCarries(rep(t), y))
	}
	return t
}

// plainBits recognises concatenated input bits: shifting them is no carry.
func plainBits(d *Term) bool {
	switch d.op {
	case OBV2U:
		_, cut := cutDef[d.a[0].id]
		return !cut
	case OIDiv:
		return plainBits(d.a[0])
	case OLin:
		if d.k.Sign() != 0 {
			return false
		}
		for i, x := range d.a {
			c := d.coef[i]
			if c.Sign() <= 0 || c.TrailingZeroBits() != uint(c.BitLen()-1) || !plainBits(x) {
				return false
			}
		}
		return true
	}
	return false
}

// unfoldCarries writes carry variables as the floors they stand for.
func unfoldCarries(d *Term, y *ssa.BinOp) *Term {
	n, ok := y.Y.(*ssa.Const)
	if d.op != OLin || !ok {
		return d
	}
	c := new(big.Int).Neg(p2(int(n.Int64())))
	l := newLin(IntS)
	l.k.Set(d.k)
	for i, x := range d.a {
		if x.op == OBV2S || x.op == OBV2U {
			if id := x.a[0].id; cutCarry[id] && d.coef[i].Cmp(c) == 0 {
				l.add(cutDef[id], d.coef[i])
				continue
			}
		}
		l.add(x, d.coef[i])
	}
	return l.done()
}

func cutTerm(t, wide *Term) *Term {
	if t.op == OVar {
		return t
	}
	var d, lo, hi = rep(t), (*big.Int)(nil), (*big.Int)(nil)
	if wide != nil {
		w := t.sort.W
		lo, hi = IntRange(wide)
		if lo != nil && (lo.Cmp(new(big.Int).Neg(p2(w-1))) < 0 || hi.Cmp(p2(w-1)) >= 0) {
			lo = nil
		}
	}
	if lo == nil {
		d = toS(t)
		lo, hi = IntRange(d)
	}
	if lo == nil || hi == nil || d.op != OLin && d.op != OIDiv {
		return t
	}
	cutN++
	v := MkVar(fmt.Sprintf("cut!%d", cutN), t.sort)
	bvBounds[v.id] = bnd{lo, hi}
	cutDef[v.id] = d
	if liftDbg {
		fmt.Printf("CUT %d [%v %v] %.200s\n", cutN, lo, hi, d)
	}
	return v
}

// liaSolve decides a conjunction in linear integer arithmetic.  Every literal
// it cannot express is left out, so only Unsat is a verdict.
type liaEnc struct {
	sb    strings.Builder
	done  map[int]string
	opq   []*Term
	n     int
	exact bool
}

type liaSkip struct{}

func (e *liaEnc) bool(t *Term) string {
	switch t.op {
	case OConst:
		return fmt.Sprint(t.u == 1)
	case ONot:
		return "(not " + e.bool(t.a[0]) + ")"
	case OAnd, OOr:
		var ss []string
		for _, x := range t.a {
			ss = append(ss, e.bool(x))
		}
		op := "and"
		if t.op == OOr {
			op = "or"
		}
		return "(" + op + " " + strings.Join(ss, " ") + ")"
	case OIte:
		return "(ite " + e.bool(t.a[0]) + " " + e.bool(t.a[1]) + " " + e.bool(t.a[2]) + ")"
	case OEq:
		switch t.a[0].sort.K {
		case KInt:
			return "(= " + e.int(t.a[0]) + " " + e.int(t.a[1]) + ")"
		case KBool:
			return "(= " + e.bool(t.a[0]) + " " + e.bool(t.a[1]) + ")"
		case KBV:
			return "(= " + e.int(toU(t.a[0])) + " " + e.int(toU(t.a[1])) + ")"
		}
	case OILt:
		return "(< " + e.int(t.a[0]) + " 0)"
	case OUlt:
		return "(< " + e.int(toU(t.a[0])) + " " + e.int(toU(t.a[1])) + ")"
	case OSlt:
		return "(< " + e.int(toS(t.a[0])) + " " + e.int(toS(t.a[1])) + ")"
	}
	panic(liaSkip{})
}

func ilit(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func (e *liaEnc) fresh(t *Term, opaque bool) string {
	e.n++
	n := fmt.Sprintf("x%d", e.n)
	fmt.Fprintf(&e.sb, "(declare-fun %s () Int)\n", n)
	lo, hi := IntRange(t)
	if lo != nil {
		fmt.Fprintf(&e.sb, "(assert (<= %s %s))\n", ilit(lo), n)
	}
	if hi != nil {
		fmt.Fprintf(&e.sb, "(assert (<= %s %s))\n", n, ilit(hi))
	}
	if opaque {
		e.opq = append(e.opq, t)
	}
	return n
}

func (e *liaEnc) int(t *Term) string {
	if s, ok := e.done[t.id]; ok {
		return s
	}
	var s string
	switch t.op {
	case OConst:
		s = ilit(t.k)
	case OLin:
		var ps []string
		if t.k.Sign() != 0 {
			ps = append(ps, ilit(t.k))
		}
		for i, x := range t.a {
			p := e.int(x)
			if t.coef[i].Cmp(bigOne) != 0 {
				p = "(* " + ilit(t.coef[i]) + " " + p + ")"
			}
			ps = append(ps, p)
		}
		s = ps[0]
		if len(ps) > 1 {
			s = "(+ " + strings.Join(ps, " ") + ")"
		}
		if len(s) > 60 {
			e.n++
			n := fmt.Sprintf("d%d", e.n)
			fmt.Fprintf(&e.sb, "(define-fun %s () Int %s)\n", n, s)
			s = n
		}
	case OIDiv:
		a := e.int(t.a[0])
		s = e.fresh(t, false)
		kq := "(* " + ilit(t.k) + " " + s + ")"
		fmt.Fprintf(&e.sb, "(assert (<= %s %s))\n(assert (< %s (+ %s %s)))\n", kq, a, a, kq, ilit(t.k))
	case OIte:
		c := e.bool(t.a[0])
		x, y := e.int(t.a[1]), e.int(t.a[2])
		e.n++
		s = fmt.Sprintf("d%d", e.n)
		fmt.Fprintf(&e.sb, "(define-fun %s () Int (ite %s %s %s))\n", s, c, x, y)
	default:
		s = e.fresh(t, true)
	}
	e.done[t.id] = s
	return s
}

func (e *liaEnc) lit(t *Term) (s string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(liaSkip); !is {
				panic(r)
			}
			s, ok = "", false
		}
	}()
	return e.bool(t), true
}

func liaSolve(lits []*Term, timeoutMs int) (Result, Model) {
	type stage struct{ defs, ms int }
	stages := []stage{{0, timeoutMs}}
	if len(cutDef) > 0 {
		stages = nil
		for _, ms := range []int{2000, timeoutMs / 3} {
			for _, n := range []int{0, 16, 28, 40, 56, 400} {
				stages = append(stages, stage{n, ms})
			}
		}
	}
	satAt := map[int]bool{}
	for _, sg := range stages {
		md := sg.defs
		if satAt[md] {
			continue
		}
		e := &liaEnc{done: map[int]string{}, exact: true}
		n := 0
		for _, l := range lits {
			if s, ok := e.lit(l); ok {
				e.sb.WriteString("(assert " + s + ")\n")
				n++
			} else {
				e.exact = false
			}
		}
		if n == 0 {
			return Unknown, nil
		}
		defs := 0
		open := false
		used := map[int]bool{}
		for {
			// the latest cut first: the last carry pass bounds the outcome
			var t *Term
			for _, o := range e.opq {
				if (o.op == OBV2S || o.op == OBV2U) && !used[o.id] && cutDef[o.a[0].id] != nil && (t == nil || o.a[0].id > t.a[0].id) {
					t = o
				}
			}
			if t == nil {
				break
			}
			if defs >= md {
				open = true
				break
			}
			used[t.id] = true
			defs++
			fmt.Fprintf(&e.sb, "(assert (= %s %s))\n", e.int(t), e.int(cutDef[t.a[0].id]))
		}
		stats.Queries++
		r, _ := runQuery("lia", e.sb.String(), nil, sg.ms)
		if os.Getenv("GOSYM_LIFTDBG") != "" {
			fmt.Fprintln(os.Stderr, "LIA", md, defs, len(e.opq), r)
		}
		if r == Unsat {
			return Unsat, nil
		}
		satAt[md] = r == Sat
		if !open {
			for _, n := range stages {
				if n.defs > md {
					satAt[n.defs] = true // the same query
				}
			}
			if r == Sat {
				break
			}
		}
	}
	return Unknown, nil
}
