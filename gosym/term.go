package main

// Hash-consed term DAG over four kinds of sort: Bool, BV(w), Int (mathematical)
// and FF(p) (prime field).  Constructors normalise; they never lose information.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KInt
	KFF
)

type Sort struct {
	K Kind
	W int // width for BV, field index for FF
}

var BoolS = Sort{KBool, 0}
var IntS = Sort{KInt, 0}

func BVS(w int) Sort { return Sort{KBV, w} }

// ---- prime field registry
type Field struct {
	P    *big.Int
	Name string
	Half *big.Int
}

var fields []*Field
var fieldIdx = map[string]int{}

func FFIndex(p *big.Int) int {
	s := p.Text(16)
	if i, ok := fieldIdx[s]; ok {
		return i
	}
	fieldIdx[s] = len(fields)
	fields = append(fields, &Field{P: new(big.Int).Set(p), Name: fmt.Sprintf("F%d", len(fields))})
	return len(fields) - 1
}
func FFS(i int) Sort           { return Sort{KFF, i} }
func (s Sort) Prime() *big.Int { return fields[s.W].P }

var primeCache = map[string]bool{}

func isPrime(p *big.Int) bool {
	if p.BitLen() < 20 {
		return false // small moduli stay ordinary mod
	}
	s := p.Text(16)
	if v, ok := primeCache[s]; ok {
		return v
	}
	v := p.ProbablyPrime(20)
	primeCache[s] = v
	return v
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OLin // sum coef*arg + k   (BV, Int, FF)
	OMul // product of args     (BV, Int, FF)
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	OConcat
	OExtract
	OSExt
	OUlt
	OSlt
	OIDiv // Int floor div by const k
	OILt  // Int a < 0  (single arg)
	OBV2U // BV -> Int unsigned
	OBV2S // BV -> Int signed
	OInt2BV
	OFFInv  // FF inverse (0 -> 0)
	OFFAtom // FF image of an opaque Int term
	OFF2Int // canonical representative in [0,p)
	OUF     // uninterpreted function application
)

var opNames = map[Op]string{OConst: "const", OVar: "var", ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OLin: "lin", OMul: "*", OUDiv: "udiv", OURem: "urem", OSDiv: "sdiv", OSRem: "srem", OShl: "shl", OLShr: "lshr", OAShr: "ashr", OBAnd: "band", OBOr: "bor", OBXor: "bxor", OBNot: "bnot", OConcat: "concat", OExtract: "extract", OSExt: "sext", OUlt: "ult", OSlt: "slt", OIDiv: "idiv", OILt: "neg?", OBV2U: "bv2u", OBV2S: "bv2s", OInt2BV: "int2bv", OFFInv: "ffinv", OFFAtom: "ffatom", OFF2Int: "ff2int", OUF: "uf"}

type Term struct {
	id    int
	op    Op
	sort  Sort
	a     []*Term
	coef  []*big.Int
	k     *big.Int // constant value (BV>64, Int, FF), lin constant, idiv divisor
	u     uint64   // constant value for BV<=64 and Bool
	i, j  int      // extract hi,lo ; ...
	name  string
	lo    *big.Int // Int range
	hi    *big.Int
	rng   bool
	rep   *repInfo // cached BV->Int translation
	mark  int
	theor uint8
}

var terms = map[string]*Term{}
var nextID = 1

type smallKey struct {
	w int
	v uint64
}

var smallConst = map[smallKey]*Term{}

var bigOne = big.NewInt(1)
var bigZero = big.NewInt(0)

func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

var pow2cache []*big.Int

func p2(n int) *big.Int {
	for len(pow2cache) <= n {
		pow2cache = append(pow2cache, pow2(len(pow2cache)))
	}
	return pow2cache[n]
}

func maskU(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (t *Term) IsConst() bool { return t.op == OConst }

func newTerm(t *Term) *Term {
	t.id = nextID
	nextID++
	return t
}

func intern(t Term) *Term {
	var sb strings.Builder
	sb.Grow(16 + 8*len(t.a))
	sb.WriteByte(byte(t.op))
	sb.WriteByte(byte(t.sort.K))
	sb.WriteString(strconv.Itoa(t.sort.W))
	sb.WriteByte('|')
	for i, x := range t.a {
		sb.WriteString(strconv.Itoa(x.id))
		if t.coef != nil {
			sb.WriteByte('*')
			sb.WriteString(t.coef[i].Text(36))
		}
		sb.WriteByte(',')
	}
	if t.k != nil {
		sb.WriteByte('k')
		sb.WriteString(t.k.Text(36))
	}
	if t.i != 0 || t.j != 0 {
		sb.WriteByte('i')
		sb.WriteString(strconv.Itoa(t.i))
		sb.WriteByte(':')
		sb.WriteString(strconv.Itoa(t.j))
	}
	if t.name != "" {
		sb.WriteByte('n')
		sb.WriteString(t.name)
	}
	key := sb.String()
	if r, ok := terms[key]; ok {
		return r
	}
	n := t
	newTerm(&n)
	terms[key] = &n
	return &n
}

var tTrue = newTerm(&Term{op: OConst, sort: BoolS, u: 1})
var tFalse = newTerm(&Term{op: OConst, sort: BoolS, u: 0})

func MkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func MkBV(v uint64, w int) *Term {
	if w > 64 {
		return MkBVBig(new(big.Int).SetUint64(v), w)
	}
	v &= maskU(w)
	k := smallKey{w, v}
	if t, ok := smallConst[k]; ok {
		return t
	}
	t := newTerm(&Term{op: OConst, sort: BVS(w), u: v})
	smallConst[k] = t
	return t
}

func MkBVBig(v *big.Int, w int) *Term {
	if w <= 64 {
		x := new(big.Int).And(v, new(big.Int).Sub(p2(w), bigOne))
		if v.Sign() < 0 {
			x = new(big.Int).Mod(v, p2(w))
		}
		return MkBV(x.Uint64(), w)
	}
	x := v
	if v.Sign() < 0 || v.BitLen() > w {
		x = new(big.Int).Mod(v, p2(w))
	}
	return intern(Term{op: OConst, sort: BVS(w), k: x})
}

func MkIntC(v *big.Int) *Term { return intern(Term{op: OConst, sort: IntS, k: v}) }
func MkInt64(v int64) *Term   { return MkIntC(big.NewInt(v)) }
func MkFFC(v *big.Int, f int) *Term {
	x := new(big.Int).Mod(v, fields[f].P)
	return intern(Term{op: OConst, sort: FFS(f), k: x})
}

// Big returns the (unsigned) constant value.
func (t *Term) Big() *big.Int {
	if t.sort.K == KBV && t.sort.W <= 64 || t.sort.K == KBool {
		return new(big.Int).SetUint64(t.u)
	}
	return t.k
}

func (t *Term) SignedBig() *big.Int {
	v := t.Big()
	if v.Bit(t.sort.W-1) == 1 {
		return new(big.Int).Sub(v, p2(t.sort.W))
	}
	return v
}

func MkVar(name string, s Sort) *Term { return intern(Term{op: OVar, sort: s, name: name}) }

// Int variable with explicit range, e.g. group-coordinate placeholders.
func MkUF(name string, s Sort, args ...*Term) *Term {
	return intern(Term{op: OUF, sort: s, name: name, a: args})
}

var ufRange = map[string][2]*big.Int{}

// ---------------------------------------------------------------- Bool
func MkNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == ONot:
		return a.a[0]
	}
	return intern(Term{op: ONot, sort: BoolS, a: []*Term{a}})
}

func mkNary(op Op, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		if seen[MkNot(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	// a = 0 and a < 0 exclude each other
	drop := map[int]bool{}
	for _, x := range out {
		y, neg := x, op == OOr
		if y.op == ONot {
			y, neg = y.a[0], !neg
		}
		if neg {
			continue
		}
		for _, z := range exclusive[y.id] {
			w := z
			if op == OOr {
				w = MkNot(z)
			}
			if seen[w.id] {
				return zero
			}
			if n := MkNot(w); seen[n.id] {
				drop[n.id] = true
			}
		}
	}
	if len(drop) > 0 {
		o := out[:0]
		for _, x := range out {
			if !drop[x.id] {
				o = append(o, x)
			}
		}
		out = o
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return intern(Term{op: op, sort: BoolS, a: out})
}

// exclusive: conditions that cannot hold together
var exclusive = map[int][]*Term{}

func noteExclusive(a, b *Term) {
	if a.IsConst() || b.IsConst() || a.op == ONot || b.op == ONot {
		return
	}
	for _, x := range exclusive[a.id] {
		if x == b {
			return
		}
	}
	exclusive[a.id] = append(exclusive[a.id], b)
	exclusive[b.id] = append(exclusive[b.id], a)
}

func MkAnd(xs ...*Term) *Term { return mkNary(OAnd, tTrue, tFalse, xs) }
func MkOr(xs ...*Term) *Term  { return mkNary(OOr, tFalse, tTrue, xs) }

func MkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("MkEq sorts %v %v", a.sort, b.sort))
	}
	if a.IsConst() && b.IsConst() {
		return tFalse // hash-consed and distinct
	}
	if a.IsConst() || (!b.IsConst() && a.id > b.id) {
		a, b = b, a
	}
	if smallMod && a.sort.K == KFF && b.IsConst() && b.k.Sign() == 0 {
		x := a
		if x.op == OLin && len(x.a) == 1 && x.k.Sign() == 0 {
			x = x.a[0]
		}
		if x.op == OFFAtom {
			// an integer of few multiples of the modulus
			p := a.sort.Prime()
			lo, hi := IntRange(x.a[0])
			if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(new(big.Int).Lsh(p, 3)) < 0 {
				r := tFalse
				for m := new(big.Int); m.Cmp(hi) <= 0; m.Add(m, p) {
					r = MkOr(r, MkEq(x.a[0], MkIntC(new(big.Int).Set(m))))
				}
				return r
			}
		}
	}
	if bitsMode && a.sort.K == KFF && b.IsConst() && a.op == OLin && b.k.Sign() == 0 {
		if x := joinBits(a); x != nil {
			return MkEq(x, MkIntC(bigZero))
		}
		if p := a.sort.Prime(); new(big.Int).Mod(a.coef[0], p).Cmp(bigOne) != 0 {
			if n := MkScale(a, new(big.Int).ModInverse(new(big.Int).Mod(a.coef[0], p), p)); n.op == OLin {
				if x := joinBits(n); x != nil {
					return MkEq(x, MkIntC(bigZero))
				}
			}
		}
		if v, r := commonFactor(a); v != nil {
			return MkOr(MkEq(v, b), MkEq(r, b))
		}
	}
	switch a.sort.K {
	case KBool:
		if b == tTrue {
			return a
		}
		if b == tFalse {
			return MkNot(a)
		}
		if MkNot(a) == b {
			return tFalse
		}
	case KInt:
		d := MkSub(a, b)
		if d.IsConst() {
			return MkBool(d.k.Sign() == 0)
		}
		lo, hi := IntRange(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return tFalse
		}
		if d.op == OLin && len(d.a) == 2 && d.k.CmpAbs(bigOne) == 0 {
			// t mod 2 = 1  is  not (t mod 2 = 0)
			i := 0
			if d.a[0].op == OIDiv {
				i = 1
			}
			q := d.a[1-i]
			if q.op == OIDiv && q.a[0] == d.a[i] && q.k.Cmp(big.NewInt(2)) == 0 && d.coef[i].CmpAbs(bigOne) == 0 && d.coef[1-i].CmpAbs(big.NewInt(2)) == 0 && d.coef[i].Sign() == -d.coef[1-i].Sign() && d.coef[i].Sign() == -d.k.Sign() {
				return MkNot(MkEq(MkSub(d, MkIntC(d.k)), MkIntC(bigZero)))
			}
		}
		return mkIntEq0(d)
	case KFF:
		if fracs[a] != nil || fracs[b] != nil {
			if d := feAdd(a, feNeg(b)); fracs[d] != nil || d.IsConst() {
				return feZeroTerm(d)
			}
		}
		d := MkSub(a, b)
		if d.IsConst() {
			return MkBool(d.k.Sign() == 0)
		}
		// make the leading coefficient canonical
		d = ffMonic(d)
		if d.op == OMul {
			// product zero iff one factor is
			var os []*Term
			for _, x := range d.a {
				os = append(os, MkEq(x, MkFFC(bigZero, x.sort.W)))
			}
			return MkOr(os...)
		}
		if d.op == OFFInv {
			return MkEq(d.a[0], MkFFC(bigZero, d.sort.W))
		}
		if v := ffVanishes(d); v != 0 {
			return MkBool(v > 0)
		}
		if d.op == OLin && len(d.a) == 2 && d.k.Sign() == 0 && d.a[0].op == OMul && d.a[1].op == OMul {
			// common factors
			if cf, x, y := ffCommon(d.a[0], d.a[1]); len(cf) > 0 {
				w := d.sort.W
				os := []*Term{MkEq(MkAdd(MkScale(x, d.coef[0]), MkScale(y, d.coef[1])), MkFFC(bigZero, w))}
				for _, f := range cf {
					os = append(os, MkEq(f, MkFFC(bigZero, w)))
				}
				return MkOr(os...)
			}
		}
		// choices move out of field equations
		z := MkFFC(bigZero, d.sort.W)
		if d.op == OIte {
			return MkIte(d.a[0], MkEq(d.a[1], z), MkEq(d.a[2], z))
		}
		if d.op == OLin {
			ni, at := 0, -1
			for i, x := range d.a {
				if x.op == OIte {
					ni++
					at = i
				}
			}
			if ni > 0 && ni <= 3 {
				x := d.a[at]
				rest := MkSub(d, MkMul(MkFFC(d.coef[at], d.sort.W), x))
				arm := func(v *Term) *Term {
					return MkEq(MkAdd(rest, MkMul(MkFFC(d.coef[at], d.sort.W), v)), z)
				}
				return MkIte(x.a[0], arm(x.a[1]), arm(x.a[2]))
			}
		}
		// an image of an integer whose range has no element of the residue class
		if x, v := affineAtom(d); x != nil {
			if lo, hi := IntRange(x.a[0]); lo != nil && hi != nil {
				r := new(big.Int).Sub(v, lo)
				r.Mod(r, d.sort.Prime())
				if r.Add(r, lo).Cmp(hi) > 0 {
					return tFalse
				}
			}
		}
		if liftAll {
			// images of integers whose combination is too small to wrap
			if l := intImage(d); l != nil {
				lo, hi := IntRange(l)
				if lo != nil && hi != nil && hi.Cmp(d.sort.Prime()) < 0 && lo.CmpAbs(d.sort.Prime()) < 0 {
					return MkEq(l, MkIntC(bigZero))
				}
			}
		}
		return rawFFEq(d)
	case KBV:
		if b.IsConst() {
			if a.op == OIte {
				// ite(c, k1, k2) == k
				if a.a[1].IsConst() && a.a[2].IsConst() {
					if a.a[1] == b {
						return a.a[0]
					}
					if a.a[2] == b {
						return MkNot(a.a[0])
					}
					return tFalse
				}
				if a.a[1].IsConst() || a.a[2].IsConst() {
					return MkIte(a.a[0], MkEq(a.a[1], b), MkEq(a.a[2], b))
				}
			}
			if a.op == OConcat {
				var cs []*Term
				pos := a.sort.W
				for _, p := range a.a {
					lo := pos - p.sort.W
					cs = append(cs, MkEq(p, MkExtract(b, pos-1, lo)))
					pos = lo
				}
				return MkAnd(cs...)
			}
			if a.op == OSExt {
				w0 := a.a[0].sort.W
				low := MkExtract(b, w0-1, 0)
				if MkSExt(low, a.sort.W) != b {
					return tFalse
				}
				return MkEq(a.a[0], low)
			}
			if a.op == OInt2BV {
				x := a.a[0]
				lo, hi := IntRange(x)
				if lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= a.sort.W {
					return MkEq(x, MkIntC(b.Big()))
				}
			}
			if a.op == OLin && len(a.a) == 1 && a.coef[0].Cmp(bigOne) == 0 {
				return MkEq(a.a[0], MkBVBig(new(big.Int).Sub(b.Big(), a.k), a.sort.W))
			}
			if a.op == OBXor {
				var rest, cs []*Term
				for _, x := range a.a {
					if x.IsConst() {
						cs = append(cs, x)
					} else {
						rest = append(rest, x)
					}
				}
				if len(cs) > 0 && len(rest) > 0 {
					l, r := rest[0], b
					for _, x := range rest[1:] {
						l = MkXor(l, x)
					}
					for _, x := range cs {
						r = MkXor(r, x)
					}
					return MkEq(l, r)
				}
			}
			if a.op == OBOr && isZero(b) {
				var cs []*Term
				for _, x := range a.a {
					cs = append(cs, MkEq(x, b))
				}
				return MkAnd(joinByteEqs(cs)...)
			}
			if a.op == OBXor && isZero(b) && len(a.a) == 2 {
				return MkEq(a.a[0], a.a[1])
			}
		} else if a.op == OConcat && b.op == OConcat && sameCuts(a, b) {
			var cs []*Term
			for i := range a.a {
				cs = append(cs, MkEq(a.a[i], b.a[i]))
			}
			return MkAnd(cs...)
		} else if a.op == OLin && b.op == OLin {
			d := MkSub(a, b)
			if d.IsConst() {
				return MkBool(isZero(d))
			}
		}
	}
	if b.op == OIte && a.op != OIte {
		// x == ite(c,x,y)
		if b.a[1] == a {
			return MkOr(b.a[0], MkEq(a, b.a[2]))
		}
		if b.a[2] == a {
			return MkOr(MkNot(b.a[0]), MkEq(a, b.a[1]))
		}
	}
	return intern(Term{op: OEq, sort: BoolS, a: []*Term{a, b}})
}

func sameCuts(a, b *Term) bool {
	if len(a.a) != len(b.a) {
		return false
	}
	for i := range a.a {
		if a.a[i].sort.W != b.a[i].sort.W {
			return false
		}
	}
	return true
}

func ffMonic(d *Term) *Term {
	if d.op != OLin {
		return d
	}
	c := d.coef[0]
	if c.Cmp(bigOne) == 0 {
		return d
	}
	inv := new(big.Int).ModInverse(c, d.sort.Prime())
	return MkScale(d, inv)
}

// mkIntEq0 decides how to represent d == 0 for an Int term.
// ffPoly expands a field term over its atoms; nil when it gets large.
func ffPoly(t *Term, budget *int) map[string]*big.Int {
	p := t.sort.Prime()
	switch {
	case t.IsConst():
		if t.k.Sign() == 0 {
			return map[string]*big.Int{}
		}
		return map[string]*big.Int{"": t.k}
	case t.op == OLin:
		r := map[string]*big.Int{}
		if t.k.Sign() != 0 {
			r[""] = new(big.Int).Set(t.k)
		}
		for i, x := range t.a {
			q := ffPoly(x, budget)
			if q == nil {
				return nil
			}
			for m, c := range q {
				v := new(big.Int).Mul(c, t.coef[i])
				if o := r[m]; o != nil {
					v.Add(v, o)
				}
				if v.Mod(v, p); v.Sign() == 0 {
					delete(r, m)
				} else {
					r[m] = v
				}
			}
		}
		return r
	case t.op == OMul:
		r := map[string]*big.Int{"": bigOne}
		for _, x := range t.a {
			q := ffPoly(x, budget)
			if q == nil {
				return nil
			}
			n := map[string]*big.Int{}
			for m1, c1 := range r {
				for m2, c2 := range q {
					if *budget--; *budget < 0 {
						return nil
					}
					m := monoMul(m1, m2)
					v := new(big.Int).Mul(c1, c2)
					if o := n[m]; o != nil {
						v.Add(v, o)
					}
					if v.Mod(v, p); v.Sign() == 0 {
						delete(n, m)
					} else {
						n[m] = v
					}
				}
			}
			r = n
		}
		return r
	}
	return map[string]*big.Int{strconv.Itoa(t.id) + ",": bigOne}
}

// monoMul multiplies monomials kept as sorted lists of atom numbers.
func monoMul(a, b string) string {
	if a == "" || b == "" {
		return a + b
	}
	l := append(strings.Split(strings.TrimSuffix(a, ","), ","), strings.Split(strings.TrimSuffix(b, ","), ",")...)
	sort.Strings(l)
	return strings.Join(l, ",") + ","
}

// ffVanishes: 1 when t expands to zero, -1 to another constant, 0 unknown.
func ffVanishes(t *Term) int {
	nested := false
	for _, x := range t.a {
		if x.op == OMul {
			for _, f := range x.a {
				nested = nested || f.op == OLin
			}
		}
	}
	if t.op != OLin || !nested {
		return 0
	}
	budget := 2000
	q := ffPoly(t, &budget)
	if q == nil || len(q) > 1 {
		return 0
	}
	if len(q) == 0 {
		return 1
	}
	if _, ok := q[""]; ok {
		return -1
	}
	return 0
}

// ffCommon splits the factors two products share from the rest of each.
func ffCommon(a, b *Term) (cf []*Term, x, y *Term) {
	rest := append([]*Term{}, b.a...)
	x, y = MkFFC(bigOne, a.sort.W), MkFFC(bigOne, a.sort.W)
	seen := map[*Term]bool{}
next:
	for _, f := range a.a {
		for j, g := range rest {
			if f == g {
				rest = append(rest[:j:j], rest[j+1:]...)
				if !seen[f] {
					seen[f] = true
					cf = append(cf, f)
				}
				continue next
			}
		}
		x = MkMul(x, f)
	}
	for _, g := range rest {
		y = MkMul(y, g)
	}
	return
}

// intImage is an integer combination (centred coefficients) mapping to d.
func intImage(d *Term) *Term {
	if d.op == OFFAtom {
		return d.a[0]
	}
	if d.op != OLin {
		return nil
	}
	p := d.sort.Prime()
	half := new(big.Int).Rsh(p, 1)
	cen := func(c *big.Int) *big.Int {
		if c.Cmp(half) > 0 {
			return new(big.Int).Sub(c, p)
		}
		return c
	}
	l := newLin(IntS)
	l.k.Set(cen(d.k))
	for i, x := range d.a {
		if x.op != OFFAtom {
			return nil
		}
		l.add(x.a[0], cen(d.coef[i]))
	}
	return l.done()
}

func rawFFEq(d *Term) *Term {
	return intern(Term{op: OEq, sort: BoolS, a: []*Term{d, MkFFC(bigZero, d.sort.W)}})
}

// affineAtom: d = c*atom + k with d = 0 iff atom = v
func affineAtom(d *Term) (*Term, *big.Int) {
	if d.op == OFFAtom {
		return d, bigZero
	}
	if d.op == OLin && len(d.a) == 1 && d.a[0].op == OFFAtom {
		p := d.sort.Prime()
		v := new(big.Int).Mul(new(big.Int).Neg(d.k), new(big.Int).ModInverse(d.coef[0], p))
		return d.a[0], v.Mod(v, p)
	}
	return nil, nil
}

// rangeFacts: for images of integers that miss only a residue or two, that they do.
func rangeFacts(lits []*Term, f int) (facts []*Term) {
	var atoms []*Term
	seen := map[int]bool{}
	for _, l := range lits {
		collectAtoms(l, &atoms, seen)
	}
	p := fields[f].P
	for _, x := range atoms {
		if x.sort.W != f {
			continue
		}
		lo, hi := IntRange(x.a[0])
		n := new(big.Int).Sub(p, hi)
		n.Add(n, lo).Sub(n, bigOne)
		if n.Sign() <= 0 || n.Cmp(big.NewInt(2)) > 0 {
			continue
		}
		for i := int64(1); i <= n.Int64(); i++ {
			v := new(big.Int).Add(hi, big.NewInt(i))
			facts = append(facts, MkNot(rawFFEq(ffMonic(MkSub(x, MkFFC(v.Mod(v, p), f))))))
		}
	}
	return facts
}

func mkIntEq0(d *Term) *Term {
	// linear in FF2Int atoms of a single field with |range| < p: exact field equality
	if f, ok := singleField(d); ok {
		p := fields[f].P
		lo, hi := IntRange(d)
		if lo != nil && hi != nil && new(big.Int).Neg(p).Cmp(lo) < 0 && hi.Cmp(p) < 0 {
			return MkEq(ToFF(d, f), MkFFC(bigZero, f))
		}
	}
	// a single bv2u atom compared with a constant, or difference of two bv2u
	if d.op == OBV2U {
		return MkEq(d.a[0], MkBV(0, d.a[0].sort.W))
	}
	if d.op == OLin {
		if len(d.a) == 1 && d.a[0].op == OBV2U && d.coef[0].IsInt64() && (d.coef[0].Int64() == 1 || d.coef[0].Int64() == -1) {
			c := new(big.Int).Neg(d.k)
			if d.coef[0].Sign() < 0 {
				c = d.k
			}
			w := d.a[0].a[0].sort.W
			if c.Sign() < 0 || c.BitLen() > w {
				return tFalse
			}
			return MkEq(d.a[0].a[0], MkBVBig(c, w))
		}
		if len(d.a) == 2 && d.k.Sign() == 0 && d.a[0].op == OBV2U && d.a[1].op == OBV2U &&
			new(big.Int).Add(d.coef[0], d.coef[1]).Sign() == 0 && d.coef[0].CmpAbs(bigOne) == 0 {
			x, y := d.a[0].a[0], d.a[1].a[0]
			w := x.sort.W
			if y.sort.W > w {
				w = y.sort.W
			}
			return MkEq(MkZExt(x, w), MkZExt(y, w))
		}
		// canonical sign
		if d.coef[0].Sign() < 0 {
			d = MkScale(d, big.NewInt(-1))
		}
	}
	return intern(Term{op: OEq, sort: BoolS, a: []*Term{d, MkIntC(bigZero)}})
}

func singleField(d *Term) (int, bool) {
	f := -1
	check := func(x *Term) bool {
		if x.op != OFF2Int {
			return true // bounded by the range check of the caller
		}
		g := x.a[0].sort.W
		if f >= 0 && g != f {
			return false
		}
		f = g
		return true
	}
	if d.op == OLin {
		for _, x := range d.a {
			if !check(x) {
				return 0, false
			}
		}
	} else if !check(d) {
		return 0, false
	}
	return f, f >= 0
}

func isZero(t *Term) bool {
	return t.op == OConst && (t.sort.W <= 64 && t.sort.K == KBV && t.u == 0 || t.k != nil && t.k.Sign() == 0)
}
func isAllOnes(t *Term) bool {
	if t.op != OConst {
		return false
	}
	if t.sort.W <= 64 {
		return t.u == maskU(t.sort.W)
	}
	return t.k.BitLen() == t.sort.W && new(big.Int).Add(t.k, bigOne).Cmp(p2(t.sort.W)) == 0
}

func MkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic("MkIte sort")
	}
	if c.op == ONot {
		return MkIte(c.a[0], b, a)
	}
	if a.sort.K == KBool {
		if a == tTrue {
			return MkOr(c, b)
		}
		if a == tFalse {
			return MkAnd(MkNot(c), b)
		}
		if b == tTrue {
			return MkOr(MkNot(c), a)
		}
		if b == tFalse {
			return MkAnd(c, a)
		}
	}
	if a.op == OIte && a.a[0] == c {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	if a.sort.K == KFF && bitsMode {
		// b + (a-b)*bit
		var bit *Term
		if c.op == OEq && c.a[0].sort == BVS(1) && (c.a[0].IsConst() || c.a[1].IsConst()) {
			x, k := c.a[0], c.a[1]
			if x.IsConst() {
				x, k = k, x
			}
			bit = ToFF(MkBV2U(x), a.sort.W)
			if k.u == 0 {
				bit = MkSub(MkFFC(bigOne, a.sort.W), bit)
			}
		} else {
			bit = intern(Term{op: OIte, sort: a.sort, a: []*Term{c, MkFFC(bigOne, a.sort.W), MkFFC(bigZero, a.sort.W)}})
		}
		return MkAdd(b, MkMul(MkSub(a, b), bit))
	}
	return intern(Term{op: OIte, sort: a.sort, a: []*Term{c, a, b}})
}

// ---------------------------------------------------------------- linear forms
type linB struct {
	s Sort
	k *big.Int
	m map[int]*big.Int
	t map[int]*Term
}

func newLin(s Sort) *linB {
	return &linB{s, new(big.Int), map[int]*big.Int{}, map[int]*Term{}}
}

func (l *linB) add(t *Term, c *big.Int) {
	if t.op == OConst {
		l.k.Add(l.k, new(big.Int).Mul(t.Big(), c))
		return
	}
	if t.op == OLin {
		l.k.Add(l.k, new(big.Int).Mul(t.k, c))
		for i, x := range t.a {
			l.addAtom(x, new(big.Int).Mul(t.coef[i], c))
		}
		return
	}
	l.addAtom(t, c)
}
func (l *linB) addAtom(t *Term, c *big.Int) {
	if o, ok := l.m[t.id]; ok {
		l.m[t.id] = new(big.Int).Add(o, c)
	} else {
		l.m[t.id] = c
		l.t[t.id] = t
	}
}

func (l *linB) done() *Term {
	var mod *big.Int
	switch l.s.K {
	case KBV:
		mod = p2(l.s.W)
	case KFF:
		mod = l.s.Prime()
	}
	k := l.k
	if mod != nil {
		k = new(big.Int).Mod(k, mod)
	}
	ids := make([]int, 0, len(l.m))
	for id, c := range l.m {
		if mod != nil {
			c = new(big.Int).Mod(c, mod)
			l.m[id] = c
		}
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		switch l.s.K {
		case KBV:
			return MkBVBig(k, l.s.W)
		case KFF:
			return MkFFC(k, l.s.W)
		}
		return MkIntC(k)
	}
	sort.Ints(ids)
	if len(ids) == 1 && k.Sign() == 0 && l.m[ids[0]].Cmp(bigOne) == 0 {
		return l.t[ids[0]]
	}
	as := make([]*Term, len(ids))
	cs := make([]*big.Int, len(ids))
	for i, id := range ids {
		as[i] = l.t[id]
		cs[i] = l.m[id]
	}
	r := intern(Term{op: OLin, sort: l.s, a: as, coef: cs, k: k})
	return r
}

func MkAdd(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && a.sort.K == KBV && a.sort.W <= 64 {
		return MkBV(a.u+b.u, a.sort.W)
	}
	if isZero(a) {
		return b
	}
	if isZero(b) {
		return a
	}
	if a.sort.K == KBV {
		if r := disjointOr(a, b); r != nil {
			return r
		}
	}
	l := newLin(a.sort)
	l.add(a, bigOne)
	l.add(b, bigOne)
	return l.done()
}

func MkSum(s Sort, xs []*Term) *Term {
	l := newLin(s)
	for _, x := range xs {
		l.add(x, bigOne)
	}
	return l.done()
}

var bigM1 = big.NewInt(-1)

func MkSub(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && a.sort.K == KBV && a.sort.W <= 64 {
		return MkBV(a.u-b.u, a.sort.W)
	}
	if isZero(b) {
		return a
	}
	l := newLin(a.sort)
	l.add(a, bigOne)
	l.add(b, bigM1)
	return l.done()
}

func MkNeg(a *Term) *Term { return MkScale(a, bigM1) }

func MkScale(a *Term, c *big.Int) *Term {
	if a.sort.K == KBV && !a.IsConst() {
		// multiplication by a power of two is a shift: keep the concat form
		cc := new(big.Int).Mod(c, p2(a.sort.W))
		if cc.Sign() > 0 && cc.Cmp(bigOne) != 0 && cc.TrailingZeroBits() == uint(cc.BitLen()-1) && a.op != OLin {
			return mkShlC(a, cc.BitLen()-1)
		}
	}
	l := newLin(a.sort)
	l.add(a, c)
	return l.done()
}

// bitsMode: field terms are kept as polynomials over single bits (directive "use bits").
var bitsMode bool

// smallMod: words that vanish in a field are one of the few multiples of its order
// (directive "use pgrp").
var smallMod bool

const expandLimit = 40

func MkMul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		switch a.sort.K {
		case KBV:
			if a.sort.W <= 64 {
				return MkBV(a.u*b.u, a.sort.W)
			}
			return MkBVBig(new(big.Int).Mul(a.k, b.k), a.sort.W)
		case KInt:
			return MkIntC(new(big.Int).Mul(a.k, b.k))
		case KFF:
			return MkFFC(new(big.Int).Mul(a.k, b.k), a.sort.W)
		}
	}
	if a.IsConst() {
		return MkScale(b, a.Big())
	}
	if b.IsConst() {
		return MkScale(a, b.Big())
	}
	// pull scalar factors out of single-term linear forms
	if a.op == OLin && len(a.a) == 1 && a.k.Sign() == 0 {
		return MkScale(MkMul(a.a[0], b), a.coef[0])
	}
	if b.op == OLin && len(b.a) == 1 && b.k.Sign() == 0 {
		return MkScale(MkMul(a, b.a[0]), b.coef[0])
	}
	if (a.sort.K == KInt || liftAll && a.sort.K == KFF) && (a.op == OLin || b.op == OLin) {
		na, nb, limit := 1, 1, expandLimit
		if liftAll {
			limit = 4000
		}
		if a.op == OLin {
			na = len(a.a) + 1
		}
		if b.op == OLin {
			nb = len(b.a) + 1
		}
		if na*nb <= limit {
			l := newLin(a.sort)
			each := func(t *Term, f func(x *Term, c *big.Int)) {
				if t.op == OLin {
					for i := range t.a {
						f(t.a[i], t.coef[i])
					}
					if t.k.Sign() != 0 {
						f(nil, t.k)
					}
				} else {
					f(t, bigOne)
				}
			}
			each(a, func(x *Term, c *big.Int) {
				each(b, func(y *Term, d *big.Int) {
					cd := new(big.Int).Mul(c, d)
					switch {
					case x == nil && y == nil:
						l.k.Add(l.k, cd)
					case x == nil:
						l.add(y, cd)
					case y == nil:
						l.add(x, cd)
					default:
						l.add(MkMul(x, y), cd)
					}
				})
			})
			return l.done()
		}
	}
	if bitsMode && a.sort.K == KFF && (a.op == OLin || b.op == OLin) {
		if a.op != OLin {
			a, b = b, a
		}
		l := newLin(a.sort)
		l.add(b, a.k)
		for i, x := range a.a {
			l.add(MkMul(x, b), a.coef[i])
		}
		return l.done()
	}
	if a == b && a.op == OIte && a.sort.K == KFF {
		// the square of ite(c, y, -y)
		x := MkMul(a.a[1], a.a[1])
		if x == MkMul(a.a[2], a.a[2]) {
			return x
		}
	}
	var fs []*Term
	if a.op == OMul {
		fs = append(fs, a.a...)
	} else {
		fs = append(fs, a)
	}
	if b.op == OMul {
		fs = append(fs, b.a...)
	} else {
		fs = append(fs, b)
	}
	if a.sort.K == KFF {
		// x * x^-1 : cannot cancel without knowing x != 0; left to the solver
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return intern(Term{op: OMul, sort: a.sort, a: fs})
}

// ---------------------------------------------------------------- bit-vectors
func MkExtract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if lo == 0 && hi == t.sort.W-1 {
		return t
	}
	if w <= 0 || hi >= t.sort.W {
		panic(fmt.Sprintf("bad extract %d:%d of %d", hi, lo, t.sort.W))
	}
	switch t.op {
	case OConst:
		if t.sort.W <= 64 {
			return MkBV(t.u>>uint(lo), w)
		}
		return MkBVBig(new(big.Int).And(new(big.Int).Rsh(t.k, uint(lo)), new(big.Int).Sub(p2(w), bigOne)), w)
	case OExtract:
		return MkExtract(t.a[0], t.j+hi, t.j+lo)
	case OConcat:
		pos := t.sort.W
		var out []*Term
		for _, p := range t.a {
			plo := pos - p.sort.W
			// overlap of [hi,lo] with [pos-1,plo]
			h, l := hi, lo
			if h > pos-1 {
				h = pos - 1
			}
			if l < plo {
				l = plo
			}
			if h >= l {
				out = append(out, MkExtract(p, h-plo, l-plo))
			}
			pos = plo
		}
		return MkConcat(out...)
	case OSExt:
		w0 := t.a[0].sort.W
		if hi < w0 {
			return MkExtract(t.a[0], hi, lo)
		}
		if lo == 0 {
			return MkSExt(t.a[0], w)
		}
	case OIte:
		if t.a[1].IsConst() || t.a[2].IsConst() {
			return MkIte(t.a[0], MkExtract(t.a[1], hi, lo), MkExtract(t.a[2], hi, lo))
		}
	case OLin, OMul:
		if s := scaleOf(t); s > 0 {
			if hi < s {
				return MkBV(0, w)
			}
			l := newLin(t.sort)
			l.k.Rsh(t.k, uint(s))
			for i, x := range t.a {
				l.add(x, new(big.Int).Rsh(t.coef[i], uint(s)))
			}
			r := l.done()
			if lo >= s {
				return MkExtract(r, hi-s, lo-s)
			}
			return MkConcat(MkExtract(r, hi-s, 0), MkBV(0, s-lo))
		}
		if lo == 0 {
			// low bits of arithmetic: narrow, but only when the operands narrow for free
			if narrowable(t, w) {
				return narrow(t, w)
			}
		}
	case OBNot:
		return MkBNot(MkExtract(t.a[0], hi, lo))
	case OInt2BV:
		if lo == 0 {
			return MkInt2BV(t.a[0], w)
		}
	}
	return intern(Term{op: OExtract, sort: BVS(w), a: []*Term{t}, i: hi, j: lo})
}

// scaleOf: the power of two dividing every coefficient of a bit-vector sum.
func scaleOf(t *Term) int {
	if t.op != OLin {
		return 0
	}
	s := t.sort.W
	if t.k != nil && t.k.Sign() != 0 {
		s = int(t.k.TrailingZeroBits())
	}
	for _, c := range t.coef {
		s = min(s, int(c.TrailingZeroBits()))
	}
	return s
}

func narrowable(t *Term, w int) bool {
	for _, x := range t.a {
		switch x.op {
		case OConcat:
			if x.a[len(x.a)-1].sort.W < w && !(len(x.a) == 2 && isZero(x.a[0])) {
				return false
			}
		case OSExt, OConst:
		default:
			return false
		}
	}
	return true
}
func narrow(t *Term, w int) *Term {
	if t.op == OMul {
		r := MkExtract(t.a[0], w-1, 0)
		for _, x := range t.a[1:] {
			r = MkMul(r, MkExtract(x, w-1, 0))
		}
		return r
	}
	l := newLin(BVS(w))
	l.k.Set(t.k)
	for i, x := range t.a {
		l.add(MkExtract(x, w-1, 0), t.coef[i])
	}
	return l.done()
}

func MkConcat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		var parts []*Term
		if x.op == OConcat {
			parts = x.a
		} else {
			parts = []*Term{x}
		}
		for _, p := range parts {
			if n := len(out); n > 0 {
				q := out[n-1]
				if q.IsConst() && p.IsConst() {
					w := q.sort.W + p.sort.W
					v := new(big.Int).Lsh(q.Big(), uint(p.sort.W))
					v.Or(v, p.Big())
					out[n-1] = MkBVBig(v, w)
					continue
				}
				// adjacent extracts of the same term
				if q.op == OExtract && p.op == OExtract && q.a[0] == p.a[0] && q.j == p.i+1 {
					out[n-1] = MkExtract(q.a[0], q.i, p.j)
					continue
				}
				// bytes chosen under one condition
				if q.op == OIte && p.op == OIte && q.a[0] == p.a[0] {
					out[n-1] = MkIte(q.a[0], MkConcat(q.a[1], p.a[1]), MkConcat(q.a[2], p.a[2]))
					continue
				}
				// the low part may have been narrowed
				if q.op == OExtract && q.a[0].op == OInt2BV && p.op == OInt2BV && p.a[0] == q.a[0].a[0] && q.j == p.sort.W {
					out[n-1] = MkExtract(q.a[0], q.i, 0)
					continue
				}
			}
			out = append(out, p)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, x := range out {
		w += x.sort.W
	}
	return intern(Term{op: OConcat, sort: BVS(w), a: out})
}

func MkZExt(t *Term, w int) *Term {
	if w == t.sort.W {
		return t
	}
	if w < t.sort.W {
		return MkExtract(t, w-1, 0)
	}
	return MkConcat(MkBV(0, w-t.sort.W), t)
}

func MkSExt(t *Term, w int) *Term {
	if w == t.sort.W {
		return t
	}
	if w < t.sort.W {
		return MkExtract(t, w-1, 0)
	}
	if t.IsConst() {
		return MkBVBig(t.SignedBig(), w)
	}
	if t.op == OConcat && isZeroTop(t) {
		return MkZExt(t, w)
	}
	if t.op == OSExt {
		return MkSExt(t.a[0], w)
	}
	return intern(Term{op: OSExt, sort: BVS(w), a: []*Term{t}})
}

func isZeroTop(t *Term) bool {
	return t.op == OConcat && isZero(t.a[0])
}

func mkShlC(t *Term, n int) *Term {
	w := t.sort.W
	if n >= w {
		return MkBV(0, w)
	}
	if n == 0 {
		return t
	}
	if t.IsConst() {
		return MkBVBig(new(big.Int).Lsh(t.Big(), uint(n)), w)
	}
	return MkConcat(MkExtract(t, w-1-n, 0), MkBV(0, n))
}

func MkShl(t, amt *Term) *Term {
	if amt.IsConst() {
		if amt.Big().BitLen() > 31 {
			return MkBV(0, t.sort.W)
		}
		n := int(amt.Big().Int64())
		if t.op == OLin && n < t.sort.W {
			return MkScale(t, p2(n))
		}
		return mkShlC(t, n)
	}
	return intern(Term{op: OShl, sort: t.sort, a: []*Term{t, amt}})
}
func MkLShr(t, amt *Term) *Term {
	w := t.sort.W
	if amt.IsConst() {
		if amt.Big().BitLen() > 31 || int(amt.Big().Int64()) >= w {
			return MkBV(0, w)
		}
		n := int(amt.Big().Int64())
		if n == 0 {
			return t
		}
		return MkConcat(MkBV(0, n), MkExtract(t, w-1, n))
	}
	return intern(Term{op: OLShr, sort: t.sort, a: []*Term{t, amt}})
}
func MkAShr(t, amt *Term) *Term {
	w := t.sort.W
	if amt.IsConst() {
		n := w - 1
		if amt.Big().BitLen() <= 31 && int(amt.Big().Int64()) < w {
			n = int(amt.Big().Int64())
		}
		if n == 0 {
			return t
		}
		return MkSExt(MkExtract(t, w-1, n), w)
	}
	return intern(Term{op: OAShr, sort: t.sort, a: []*Term{t, amt}})
}

// cuts of a concat (bit positions), used for piecewise bitwise operations
func hasConstSeg(t *Term) bool {
	if t.IsConst() {
		return true
	}
	if t.op == OConcat {
		for _, p := range t.a {
			if p.IsConst() {
				return true
			}
		}
	}
	return false
}

func cutset(t *Term, set map[int]bool) {
	if t.op == OConst {
		w := t.sort.W
		b := t.Big()
		for i := 1; i < w; i++ {
			if b.Bit(i) != b.Bit(i-1) {
				set[i] = true
			}
		}
		return
	}
	if t.op == OConcat {
		pos := t.sort.W
		for _, p := range t.a {
			if p.op == OConst {
				b := p.Big()
				lo := pos - p.sort.W
				for i := 1; i < p.sort.W; i++ {
					if b.Bit(i) != b.Bit(i-1) {
						set[lo+i] = true
					}
				}
			}
			pos -= p.sort.W
			if pos > 0 {
				set[pos] = true
			}
		}
	}
}

func piecewise(f func(a, b *Term) *Term, a, b *Term) *Term {
	set := map[int]bool{}
	cutset(a, set)
	cutset(b, set)
	var cs []int
	for c := range set {
		cs = append(cs, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cs)))
	hi := a.sort.W - 1
	var out []*Term
	for _, c := range append(cs, 0) {
		out = append(out, f(MkExtract(a, hi, c), MkExtract(b, hi, c)))
		hi = c - 1
	}
	return MkConcat(out...)
}

// disjointOr returns a|b as a concat when at every bit one side is constant zero.
func disjointOr(a, b *Term) *Term {
	if !(a.op == OConcat && hasConstSeg(a)) || !(hasConstSeg(b)) {
		if !(b.op == OConcat && hasConstSeg(b)) || !hasConstSeg(a) {
			return nil
		}
	}
	set := map[int]bool{}
	cutset(a, set)
	cutset(b, set)
	var cs []int
	for c := range set {
		cs = append(cs, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cs)))
	hi := a.sort.W - 1
	var out []*Term
	for _, c := range append(cs, 0) {
		x, y := MkExtract(a, hi, c), MkExtract(b, hi, c)
		hi = c - 1
		if isZero(x) {
			out = append(out, y)
		} else if isZero(y) {
			out = append(out, x)
		} else {
			return nil
		}
	}
	return MkConcat(out...)
}

func bitn(op Op, xs ...*Term) *Term {
	w := xs[0].sort.W
	var fl []*Term
	for _, x := range xs {
		if x.op == op {
			fl = append(fl, x.a...)
		} else {
			fl = append(fl, x)
		}
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].id < fl[j].id })
	var out []*Term
	for i := 0; i < len(fl); i++ {
		if op == OBXor {
			if i+1 < len(fl) && fl[i] == fl[i+1] {
				i++
				continue
			}
		} else if len(out) > 0 && out[len(out)-1] == fl[i] {
			continue
		}
		out = append(out, fl[i])
	}
	if len(out) == 0 {
		return MkBV(0, w)
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(Term{op: op, sort: BVS(w), a: out})
}

func maskIte(t *Term) (*Term, bool) {
	// all-zeros / all-ones word driven by one bit
	if t.op == OSExt && t.a[0].sort.W == 1 {
		return MkEq(t.a[0], MkBV(1, 1)), true
	}
	if t.op == OIte && isAllOnes(t.a[1]) && isZero(t.a[2]) {
		return t.a[0], true
	}
	if t.op == OIte && isAllOnes(t.a[2]) && isZero(t.a[1]) {
		return MkNot(t.a[0]), true
	}
	if t.op == OLin && len(t.a) == 1 && t.a[0].op == OConcat && len(t.a[0].a) == 2 && isZero(t.a[0].a[0]) && t.a[0].a[1].sort.W == 1 {
		// -b  or  b-1
		ones := new(big.Int).Sub(p2(t.sort.W), bigOne)
		if t.k.Sign() == 0 && t.coef[0].Cmp(ones) == 0 {
			return MkEq(t.a[0].a[1], MkBV(1, 1)), true
		}
		if t.k.Cmp(ones) == 0 && t.coef[0].Cmp(bigOne) == 0 {
			return MkEq(t.a[0].a[1], MkBV(0, 1)), true
		}
	}
	// -ite(c,1,0)
	if t.op == OLin && len(t.a) == 1 && t.a[0].op == OIte && t.a[0].a[1].IsConst() && t.a[0].a[2].IsConst() {
		f := func(x *Term) *Term {
			return MkBVBig(new(big.Int).Add(t.k, new(big.Int).Mul(t.coef[0], x.Big())), t.sort.W)
		}
		x, y := f(t.a[0].a[1]), f(t.a[0].a[2])
		if isAllOnes(x) && isZero(y) {
			return t.a[0].a[0], true
		}
		if isAllOnes(y) && isZero(x) {
			return MkNot(t.a[0].a[0]), true
		}
	}
	return nil, false
}

func MkBAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() && b.IsConst() {
		if a.sort.W <= 64 {
			return MkBV(a.u&b.u, a.sort.W)
		}
		return MkBVBig(new(big.Int).And(a.k, b.k), a.sort.W)
	}
	if isZero(a) || isAllOnes(b) {
		return a
	}
	if isZero(b) || isAllOnes(a) {
		return b
	}
	if c, ok := maskIte(a); ok {
		return MkIte(c, b, MkBV(0, b.sort.W))
	}
	if c, ok := maskIte(b); ok {
		return MkIte(c, a, MkBV(0, a.sort.W))
	}
	if hasConstSeg(a) || hasConstSeg(b) {
		if !(a.sort.W == 1) {
			if r := tryPiece(MkBAnd, a, b); r != nil {
				return r
			}
		}
	}
	if a.op == OBNot && a.a[0] == b || b.op == OBNot && b.a[0] == a {
		return MkBV(0, a.sort.W)
	}
	return bitn(OBAnd, a, b)
}

func tryPiece(f func(a, b *Term) *Term, a, b *Term) *Term {
	set := map[int]bool{}
	cutset(a, set)
	cutset(b, set)
	if len(set) == 0 || len(set) > 32 {
		return nil
	}
	return piecewise(f, a, b)
}

func MkBOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() && b.IsConst() {
		if a.sort.W <= 64 {
			return MkBV(a.u|b.u, a.sort.W)
		}
		return MkBVBig(new(big.Int).Or(a.k, b.k), a.sort.W)
	}
	if isZero(a) || isAllOnes(b) {
		return b
	}
	if isZero(b) || isAllOnes(a) {
		return a
	}
	// or of two masked alternatives under complementary / const conditions
	if a.op == OIte && b.op == OIte && isZero(a.a[2]) && isZero(b.a[1]) && a.a[0] == b.a[0] {
		return MkIte(a.a[0], a.a[1], b.a[2])
	}
	if a.op == OIte && b.op == OIte && isZero(a.a[1]) && isZero(b.a[2]) && a.a[0] == b.a[0] {
		return MkIte(a.a[0], b.a[1], a.a[2])
	}
	if hasConstSeg(a) || hasConstSeg(b) {
		if a.sort.W != 1 {
			if r := tryPiece(MkBOr, a, b); r != nil {
				return r
			}
		}
	}
	return bitn(OBOr, a, b)
}

func MkXor(a, b *Term) *Term {
	if a == b {
		return MkBV(0, a.sort.W)
	}
	if a.IsConst() && b.IsConst() {
		if a.sort.W <= 64 {
			return MkBV(a.u^b.u, a.sort.W)
		}
		return MkBVBig(new(big.Int).Xor(a.k, b.k), a.sort.W)
	}
	if isZero(a) {
		return b
	}
	if isZero(b) {
		return a
	}
	if isAllOnes(a) {
		return MkBNot(b)
	}
	if isAllOnes(b) {
		return MkBNot(a)
	}
	for n := 0; n < 2; n++ {
		// f ^ ite(c, f^g, 0)  ->  ite(c, g, f)
		if b.op == OIte && isZero(b.a[2]) && (b.a[1].op == OBXor && contains(b.a[1].a, a) || b.a[1] == a) {
			return MkIte(b.a[0], MkXor(a, b.a[1]), a)
		}
		if b.op == OIte && isZero(b.a[1]) && (b.a[2].op == OBXor && contains(b.a[2].a, a) || b.a[2] == a) {
			return MkIte(b.a[0], a, MkXor(a, b.a[2]))
		}
		a, b = b, a
	}
	// 1-bit-wide zero-extended etc.
	if (a.op == OConcat && hasConstSeg(a)) || (b.op == OConcat && hasConstSeg(b)) {
		if r := tryPiece(MkXor, a, b); r != nil {
			return r
		}
	}
	if a.op == OBNot {
		return MkBNot(MkXor(a.a[0], b))
	}
	if b.op == OBNot {
		return MkBNot(MkXor(a, b.a[0]))
	}
	return bitn(OBXor, a, b)
}

func contains(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

func MkBNot(a *Term) *Term {
	if a.IsConst() {
		if a.sort.W <= 64 {
			return MkBV(^a.u, a.sort.W)
		}
		return MkBVBig(new(big.Int).Xor(a.k, new(big.Int).Sub(p2(a.sort.W), bigOne)), a.sort.W)
	}
	if a.op == OBNot {
		return a.a[0]
	}
	if a.op == OConcat && hasConstSeg(a) {
		var out []*Term
		for _, p := range a.a {
			out = append(out, MkBNot(p))
		}
		return MkConcat(out...)
	}
	return intern(Term{op: OBNot, sort: a.sort, a: []*Term{a}})
}

func MkUDiv(a, b *Term) *Term {
	if b.IsConst() && !isZero(b) {
		if a.IsConst() {
			return MkBVBig(new(big.Int).Div(a.Big(), b.Big()), a.sort.W)
		}
		d := b.Big()
		if d.TrailingZeroBits() == uint(d.BitLen()-1) {
			return MkLShr(a, MkBV(uint64(d.BitLen()-1), 64))
		}
	}
	return intern(Term{op: OUDiv, sort: a.sort, a: []*Term{a, b}})
}
func MkURem(a, b *Term) *Term {
	if b.IsConst() && !isZero(b) {
		if a.IsConst() {
			return MkBVBig(new(big.Int).Mod(a.Big(), b.Big()), a.sort.W)
		}
		d := b.Big()
		if d.TrailingZeroBits() == uint(d.BitLen()-1) {
			return MkBAnd(a, MkBVBig(new(big.Int).Sub(d, bigOne), a.sort.W))
		}
	}
	return intern(Term{op: OURem, sort: a.sort, a: []*Term{a, b}})
}
func MkSDiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && !isZero(b) {
		return MkBVBig(new(big.Int).Quo(a.SignedBig(), b.SignedBig()), a.sort.W)
	}
	if isZeroTop(a) && b.IsConst() && b.SignedBig().Sign() > 0 {
		return MkUDiv(a, b)
	}
	return intern(Term{op: OSDiv, sort: a.sort, a: []*Term{a, b}})
}
func MkSRem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && !isZero(b) {
		return MkBVBig(new(big.Int).Rem(a.SignedBig(), b.SignedBig()), a.sort.W)
	}
	if isZeroTop(a) && b.IsConst() && b.SignedBig().Sign() > 0 {
		return MkURem(a, b)
	}
	return intern(Term{op: OSRem, sort: a.sort, a: []*Term{a, b}})
}

func MkUlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.IsConst() && b.IsConst() {
		return MkBool(a.Big().Cmp(b.Big()) < 0)
	}
	if liftAll {
		return MkILt(toU(a), toU(b))
	}
	if isZero(b) {
		return tFalse
	}
	if isAllOnes(a) {
		return tFalse
	}
	if b.IsConst() && b.Big().Cmp(bigOne) == 0 {
		return MkEq(a, MkBV(0, a.sort.W))
	}
	if isZero(a) {
		return MkNot(MkEq(b, MkBV(0, b.sort.W)))
	}
	// zero-extended operands: drop common zero top
	if b.IsConst() && isZeroTop(a) {
		n := a.a[0].sort.W
		w := a.sort.W - n
		if b.Big().BitLen() > w {
			return tTrue
		}
		return MkUlt(MkExtract(a, w-1, 0), MkExtract(b, w-1, 0))
	}
	if a.IsConst() && isZeroTop(b) {
		n := b.a[0].sort.W
		w := b.sort.W - n
		if a.Big().BitLen() > w {
			return tFalse
		}
		return MkUlt(MkExtract(a, w-1, 0), MkExtract(b, w-1, 0))
	}
	if isZeroTop(a) && isZeroTop(b) {
		n := a.a[0].sort.W
		if m := b.a[0].sort.W; m < n {
			n = m
		}
		return MkUlt(MkExtract(a, a.sort.W-n-1, 0), MkExtract(b, b.sort.W-n-1, 0))
	}
	if b.IsConst() && a.op == OIte && constLeaves(a, 6) {
		return MkIte(a.a[0], MkUlt(a.a[1], b), MkUlt(a.a[2], b))
	}
	if a.IsConst() && b.op == OIte && b.a[1].IsConst() && b.a[2].IsConst() {
		return MkIte(b.a[0], MkUlt(a, b.a[1]), MkUlt(a, b.a[2]))
	}
	return intern(Term{op: OUlt, sort: BoolS, a: []*Term{a, b}})
}

// constLeaves: an if-then-else tree of depth <= d over constants
func constLeaves(t *Term, d int) bool {
	if t.IsConst() {
		return true
	}
	return t.op == OIte && d > 0 && constLeaves(t.a[1], d-1) && constLeaves(t.a[2], d-1)
}

func MkSlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.IsConst() && b.IsConst() {
		return MkBool(a.SignedBig().Cmp(b.SignedBig()) < 0)
	}
	if liftAll {
		return MkILt(toS(a), toS(b))
	}
	nonneg := func(t *Term) bool { return isZeroTop(t) || t.IsConst() && t.SignedBig().Sign() >= 0 }
	if nonneg(a) && nonneg(b) {
		return MkUlt(a, b)
	}
	if nonneg(a) && b.IsConst() && b.SignedBig().Sign() <= 0 {
		return tFalse
	}
	if nonneg(b) && a.IsConst() && a.SignedBig().Sign() < 0 {
		return tTrue
	}
	if b.IsConst() && a.op == OIte && constLeaves(a, 6) {
		return MkIte(a.a[0], MkSlt(a.a[1], b), MkSlt(a.a[2], b))
	}
	if a.IsConst() && b.op == OIte && constLeaves(b, 6) {
		return MkIte(b.a[0], MkSlt(a, b.a[1]), MkSlt(a, b.a[2]))
	}
	return intern(Term{op: OSlt, sort: BoolS, a: []*Term{a, b}})
}

// ---------------------------------------------------------------- Int
// IntRange computes (and caches) bounds; nil means unbounded.
func IntRange(t *Term) (lo, hi *big.Int) {
	if t.rng {
		return t.lo, t.hi
	}
	t.rng = true
	switch t.op {
	case OConst:
		lo, hi = t.k, t.k
	case OVar:
		lo, hi = t.lo, t.hi
	case OUF:
		if r, ok := ufRange[t.name]; ok {
			lo, hi = r[0], r[1]
		}
	case OLin:
		lo, hi = new(big.Int).Set(t.k), new(big.Int).Set(t.k)
		for i, x := range t.a {
			a, b := IntRange(x)
			c := t.coef[i]
			if c.Sign() < 0 {
				a, b = b, a
			}
			if lo != nil {
				if a == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(c, a))
				}
			}
			if hi != nil {
				if b == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(c, b))
				}
			}
		}
		lo, hi = linRange(t, lo, hi, 0)
	case OMul:
		lo, hi = IntRange(t.a[0])
		for n, x := range t.a[1:] {
			a, b := IntRange(x)
			if lo == nil || hi == nil || a == nil || b == nil {
				lo, hi = nil, nil
				break
			}
			ps := []*big.Int{new(big.Int).Mul(lo, a), new(big.Int).Mul(lo, b), new(big.Int).Mul(hi, a), new(big.Int).Mul(hi, b)}
			lo, hi = ps[0], ps[0]
			for _, p := range ps[1:] {
				if p.Cmp(lo) < 0 {
					lo = p
				}
				if p.Cmp(hi) > 0 {
					hi = p
				}
			}
			if n == 0 && len(t.a) == 2 && t.a[0] == t.a[1] && lo.Sign() < 0 {
				lo = bigZero
			}
		}
	case OIDiv:
		a, b := IntRange(t.a[0])
		if a != nil {
			lo = floorDiv(a, t.k)
		}
		if b != nil {
			hi = floorDiv(b, t.k)
		}
	case OBV2U:
		lo = bvMin(t.a[0])
		hi = bvMax(t.a[0])
		if b, ok := bvBounds[t.a[0].id]; ok && b.lo.Sign() >= 0 {
			lo, hi = b.lo, b.hi
		}
	case OBV2S:
		if b, ok := bvBounds[t.a[0].id]; ok {
			lo, hi = b.lo, b.hi
			break
		}
		w := t.a[0].sort.W
		lo = new(big.Int).Neg(p2(w - 1))
		hi = new(big.Int).Sub(p2(w-1), bigOne)
	case OFF2Int:
		lo = bigZero
		hi = new(big.Int).Sub(t.a[0].sort.Prime(), bigOne)
	case OIte:
		a, b := IntRange(t.a[1])
		c, d := IntRange(t.a[2])
		if a != nil && c != nil {
			lo = minB(a, c)
		}
		if b != nil && d != nil {
			hi = maxB(b, d)
		}
	}
	t.lo, t.hi = lo, hi
	return
}

func bvMax(t *Term) *big.Int {
	w := t.sort.W
	if t.op == OConcat && t.a[0].IsConst() {
		w -= t.a[0].sort.W
		return new(big.Int).Sub(new(big.Int).Lsh(new(big.Int).Add(t.a[0].Big(), bigOne), uint(w)), bigOne)
	}
	if t.op == OConst {
		return t.Big()
	}
	if t.op == OIte {
		return maxB(bvMax(t.a[1]), bvMax(t.a[2]))
	}
	return new(big.Int).Sub(p2(w), bigOne)
}

func bvMin(t *Term) *big.Int {
	switch {
	case t.op == OConst:
		return t.Big()
	case t.op == OConcat && t.a[0].IsConst():
		return new(big.Int).Lsh(t.a[0].Big(), uint(t.sort.W-t.a[0].sort.W))
	case t.op == OIte:
		return minB(bvMin(t.a[1]), bvMin(t.a[2]))
	}
	return bigZero
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func floorDiv(a, k *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, k, new(big.Int)) // Euclidean; k>0 so floor
	_ = m
	return q
}

func MkIDiv(a *Term, k *big.Int) *Term {
	if k.Cmp(bigOne) == 0 {
		return a
	}
	if a.IsConst() {
		return MkIntC(floorDiv(a.k, k))
	}
	if liftAll && a.op == OIDiv {
		return MkIDiv(a.a[0], new(big.Int).Mul(a.k, k))
	}
	lo, hi := IntRange(a)
	if lo != nil && hi != nil {
		x, y := floorDiv(lo, k), floorDiv(hi, k)
		if x.Cmp(y) == 0 {
			return MkIntC(x)
		}
	}
	if a.op == OLin {
		// split off the part divisible by k
		l := newLin(IntS)
		r := newLin(IntS)
		any := false
		for i, x := range a.a {
			q, m := new(big.Int).QuoRem(a.coef[i], k, new(big.Int))
			if m.Sign() == 0 {
				l.add(x, q)
				any = true
			} else {
				r.add(x, a.coef[i])
			}
		}
		q, m := new(big.Int).DivMod(a.k, k, new(big.Int))
		if q.Sign() != 0 && any {
			l.k.Set(q)
			r.k.Set(m)
		} else {
			r.k.Set(a.k)
		}
		if any {
			return MkAdd(l.done(), MkIDiv(r.done(), k))
		}
	}
	if liftAll && a.op == OLin {
		// floor((g*x + y)/(g*b)) = floor((x + floor(y/g))/b)
		n := -1
		g := new(big.Int).Set(k)
		for i, x := range a.a {
			if n < 0 && x.op == OIDiv && a.coef[i].Cmp(bigOne) == 0 {
				n = i
				continue
			}
			g.GCD(nil, nil, g, new(big.Int).Abs(a.coef[i]))
		}
		if n >= 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(a.k))
		}
		if n >= 0 && len(a.a) == 2 && g.Cmp(bigOne) > 0 {
			l := newLin(IntS)
			for i, x := range a.a {
				if i != n {
					l.addAtom(x, new(big.Int).Div(a.coef[i], g))
				}
			}
			l.k.Div(a.k, g)
			l.add(MkIDiv(a.a[n], g), bigOne)
			return MkIDiv(l.done(), new(big.Int).Div(k, g))
		}
	}
	if !liftAll && a.op == OBV2U && k.TrailingZeroBits() == uint(k.BitLen()-1) {
		n := k.BitLen() - 1
		b := a.a[0]
		if n >= b.sort.W {
			return MkIntC(bigZero)
		}
		return MkBV2U(MkExtract(b, b.sort.W-1, n))
	}
	return intern(Term{op: OIDiv, sort: IntS, a: []*Term{a}, k: k})
}

// MkIMod: a mod k for k>0 (Euclidean).
func MkIMod(a *Term, k *big.Int) *Term {
	if k.Cmp(big.NewInt(2)) == 0 {
		return intParity(a)
	}
	if isPrime(k) {
		f := FFIndex(k)
		if lo, hi := IntRange(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(k) < 0 {
			return a
		}
		return MkFF2Int(ToFF(a, f))
	}
	if a.op == OBV2U && a.a[0].op == OVar && (strings.HasPrefix(a.a[0].name, "keystream") || strings.HasPrefix(a.a[0].name, "rand")) && a.a[0].sort.W >= k.BitLen()+32 {
		// a wide random word reduced modulo k: any value below k
		n := "imod." + k.Text(16)
		if _, ok := ufRange[n]; !ok {
			ufRange[n] = [2]*big.Int{bigZero, new(big.Int).Sub(k, bigOne)}
		}
		return MkUF(n, IntS, a)
	}
	return MkSub(a, MkScale(MkIDiv(a, k), k))
}

func MkILt0(a *Term) *Term { // a < 0
	if a.IsConst() {
		return MkBool(a.k.Sign() < 0)
	}
	lo, hi := IntRange(a)
	if lo != nil && lo.Sign() >= 0 {
		return tFalse
	}
	if hi != nil && hi.Sign() < 0 {
		return tTrue
	}
	// bv2u(x) < c ,  c < bv2u(x), bv2u(x) < bv2u(y)
	if a.op == OLin && !liftAll {
		if len(a.a) == 1 && a.a[0].op == OBV2U && a.coef[0].CmpAbs(bigOne) == 0 {
			x := a.a[0].a[0]
			w := x.sort.W
			if a.coef[0].Sign() > 0 { // x + k < 0  <=> x < -k
				c := new(big.Int).Neg(a.k)
				if c.Sign() <= 0 {
					return tFalse
				}
				if c.BitLen() > w {
					return tTrue
				}
				return MkUlt(x, MkBVBig(c, w))
			}
			// k - x < 0 <=> k < x
			if a.k.Sign() < 0 {
				return tTrue
			}
			if a.k.BitLen() > w {
				return tFalse
			}
			return MkUlt(MkBVBig(a.k, w), x)
		}
		if len(a.a) == 2 && a.k.Sign() == 0 && a.a[0].op == OBV2U && a.a[1].op == OBV2U && a.coef[0].CmpAbs(bigOne) == 0 && a.coef[1].CmpAbs(bigOne) == 0 && a.coef[0].Sign() != a.coef[1].Sign() {
			x, y := a.a[0].a[0], a.a[1].a[0]
			if a.coef[0].Sign() < 0 {
				x, y = y, x
			}
			w := x.sort.W
			if y.sort.W > w {
				w = y.sort.W
			}
			return MkUlt(MkZExt(x, w), MkZExt(y, w))
		}
	}
	if a.op == OBV2S && !liftAll {
		return MkSlt(a.a[0], MkBV(0, a.a[0].sort.W))
	}
	if a.op == OIte {
		return MkIte(a.a[0], MkILt0(a.a[1]), MkILt0(a.a[2]))
	}
	if a.op == OLin {
		it := -1
		for i, x := range a.a {
			if x.op == OIte {
				if it >= 0 {
					it = -2
					break
				}
				it = i
			}
		}
		if it >= 0 {
			x := a.a[it]
			rest := MkSub(a, MkScale(x, a.coef[it]))
			return MkIte(x.a[0], MkILt0(MkAdd(rest, MkScale(x.a[1], a.coef[it]))), MkILt0(MkAdd(rest, MkScale(x.a[2], a.coef[it]))))
		}
	}
	return intern(Term{op: OILt, sort: BoolS, a: []*Term{a}})
}
func MkILt(a, b *Term) *Term { return MkILt0(MkSub(a, b)) }

// intLike: an ite tree whose leaves are exact encodings of integers
func intLike(b *Term, d int) bool {
	switch b.op {
	case OConst:
		return true
	case OInt2BV:
		lo, hi := IntRange(b.a[0])
		return lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= b.sort.W
	case OIte:
		return d < 6 && intLike(b.a[1], d+1) && intLike(b.a[2], d+1)
	case OConcat:
		return len(b.a) == 2 && isZero(b.a[0]) && intLike(b.a[1], d)
	}
	return false
}

func MkBV2U(b *Term) *Term {
	if b.IsConst() {
		return MkIntC(b.Big())
	}
	if liftAll {
		return toU(b)
	}
	if b.op == OConcat && isZero(b.a[0]) {
		return MkBV2U(MkExtract(b, b.sort.W-b.a[0].sort.W-1, 0))
	}
	if b.op == OConcat && b.a[len(b.a)-1].IsConst() {
		// x ++ const
		c := b.a[len(b.a)-1]
		x := MkExtract(b, b.sort.W-1, c.sort.W)
		return MkAdd(MkScale(MkBV2U(x), p2(c.sort.W)), MkIntC(c.Big()))
	}
	if b.op == OInt2BV {
		lo, hi := IntRange(b.a[0])
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= b.sort.W {
			return b.a[0]
		}
	}
	if b.op == OIte && (b.a[1].IsConst() || b.a[2].IsConst() || intLike(b, 0)) {
		return MkIte(b.a[0], MkBV2U(b.a[1]), MkBV2U(b.a[2]))
	}
	// extract of int2bv covering everything that can be non-zero
	if b.op == OExtract && b.j == 0 && b.a[0].op == OInt2BV {
		lo, hi := IntRange(b.a[0].a[0])
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= b.sort.W {
			return b.a[0].a[0]
		}
	}
	return rawBV2U(b)
}
func rawBV2U(b *Term) *Term { return intern(Term{op: OBV2U, sort: IntS, a: []*Term{b}}) }
func rawBV2S(b *Term) *Term { return intern(Term{op: OBV2S, sort: IntS, a: []*Term{b}}) }
func MkBV2S(b *Term) *Term {
	if b.IsConst() {
		return MkIntC(b.SignedBig())
	}
	if liftAll {
		return toS(b)
	}
	if isZeroTop(b) {
		return MkBV2U(b)
	}
	if b.op == OSExt {
		return MkBV2S(b.a[0])
	}
	return intern(Term{op: OBV2S, sort: IntS, a: []*Term{b}})
}
func MkInt2BV(t *Term, w int) *Term {
	if t.IsConst() {
		return MkBVBig(t.k, w)
	}
	if t.op == OBV2U {
		return MkZExt(t.a[0], w)
	}
	if t.op == OBV2S {
		return MkSExt(t.a[0], w)
	}
	if t.op == OIte {
		return MkIte(t.a[0], MkInt2BV(t.a[1], w), MkInt2BV(t.a[2], w))
	}
	lo, hi := IntRange(t)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() < w {
		return MkZExt(intern(Term{op: OInt2BV, sort: BVS(max(hi.BitLen(), 1)), a: []*Term{t}}), w)
	}
	return intern(Term{op: OInt2BV, sort: BVS(w), a: []*Term{t}})
}

// ---------------------------------------------------------------- FF
func MkFF2Int(t *Term) *Term {
	if t.IsConst() {
		return MkIntC(t.k)
	}
	if t.op == OFFAtom {
		x := t.a[0]
		lo, hi := IntRange(x)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(t.sort.Prime()) < 0 {
			return x
		}
	}
	if t.op == OLin && len(t.a) == 1 && t.a[0].op == OFFAtom && t.k.Sign() == 0 {
		// -u for u in 1..p-1
		p := t.sort.Prime()
		if new(big.Int).Add(t.coef[0], bigOne).Cmp(p) == 0 || t.coef[0].Cmp(big.NewInt(-1)) == 0 {
			x := t.a[0].a[0]
			lo, hi := IntRange(x)
			if lo != nil && hi != nil && lo.Sign() > 0 && hi.Cmp(p) < 0 {
				return MkSub(MkIntC(p), x)
			}
		}
	}
	if t.op == OIte {
		return MkIte(t.a[0], MkFF2Int(t.a[1]), MkFF2Int(t.a[2]))
	}
	if bitsMode && t.op == OLin {
		if x := joinBits(t); x != nil {
			return x
		}
	}
	if t.op == OLin {
		// one conditional summand: lift it out
		at := -1
		for i, x := range t.a {
			if x.op == OIte {
				if at >= 0 {
					at = -2
					break
				}
				at = i
			}
		}
		if at >= 0 {
			x := t.a[at]
			rest := MkSub(t, MkScale(x, t.coef[at]))
			return MkIte(x.a[0], MkFF2Int(MkAdd(rest, MkScale(x.a[1], t.coef[at]))), MkFF2Int(MkAdd(rest, MkScale(x.a[2], t.coef[at]))))
		}
	}
	return intern(Term{op: OFF2Int, sort: IntS, a: []*Term{t}})
}

var toFFCache = map[[2]int]*Term{}

// commonFactor: t = v * r
func commonFactor(t *Term) (v, r *Term) {
	if t.k.Sign() != 0 || len(t.a) < 2 || t.a[0].op != OMul {
		return nil, nil
	}
	for _, v := range t.a[0].a {
		l := newLin(t.sort)
		for i, x := range t.a {
			if x == v {
				l.k.Add(l.k, t.coef[i])
				continue
			}
			at := -1
			if x.op == OMul {
				for j, y := range x.a {
					if y == v {
						at = j
						break
					}
				}
			}
			if at < 0 {
				l = nil
				break
			}
			rest := append(append([]*Term{}, x.a[:at]...), x.a[at+1:]...)
			m := rest[0]
			for _, y := range rest[1:] {
				m = MkMul(m, y)
			}
			l.add(m, t.coef[i])
		}
		if l != nil {
			return v, l.done()
		}
	}
	return nil, nil
}

// joinBits: a sum of distinct single bits with power-of-two weights, in range.
func joinBits(t *Term) *Term {
	bits := map[int]*Term{}
	top := 0
	for i, x := range t.a {
		c := new(big.Int).Mod(t.coef[i], t.sort.Prime())
		if c.Sign() <= 0 || x.op != OFFAtom || x.a[0].op != OBV2U || x.a[0].a[0].sort.W != 1 {
			return nil
		}
		n := c.BitLen() - 1
		if c.TrailingZeroBits() != uint(n) || bits[n] != nil {
			return nil
		}
		bits[n] = x.a[0].a[0]
		if n > top {
			top = n
		}
	}
	var w []*Term
	k := new(big.Int).Mod(t.k, t.sort.Prime())
	max := new(big.Int).Set(k)
	if n := k.BitLen() - 1; n > top {
		top = n
	}
	for i := top; i >= 0; i-- {
		b := bits[i]
		if b == nil {
			b = MkBV(uint64(k.Bit(i)), 1)
		} else if k.Bit(i) != 0 {
			return nil
		} else {
			max.Add(max, p2(i))
		}
		w = append(w, b)
	}
	if max.Cmp(t.sort.Prime()) >= 0 {
		return nil
	}
	return MkBV2U(MkConcat(w...))
}

func ToFF(t *Term, f int) *Term {
	key := [2]int{t.id, f}
	if r, ok := toFFCache[key]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case OConst:
		r = MkFFC(t.k, f)
	case OLin:
		l := newLin(FFS(f))
		l.k.Set(t.k)
		for i, x := range t.a {
			l.add(ToFF(x, f), t.coef[i])
		}
		r = l.done()
	case OMul:
		r = ToFF(t.a[0], f)
		for _, x := range t.a[1:] {
			r = MkMul(r, ToFF(x, f))
		}
	case OIte:
		r = MkIte(t.a[0], ToFF(t.a[1], f), ToFF(t.a[2], f))
	case OFF2Int:
		if t.a[0].sort.W == f {
			r = t.a[0]
		}
	case OBV2S:
		if d, ok := cutDef[t.a[0].id]; ok {
			r = ToFF(d, f)
		}
	case OBV2U:
		if d, ok := cutDef[t.a[0].id]; ok && !cutKeep[t.a[0].id] {
			r = ToFF(d, f)
			break
		}
		if x := t.a[0]; bitsMode && x.sort.W > 1 {
			l := newLin(FFS(f))
			for i := 0; i < x.sort.W; i++ {
				l.add(ToFF(MkBV2U(MkExtract(x, i, i)), f), p2(i))
			}
			r = l.done()
		}
	}
	if r == nil {
		r = intern(Term{op: OFFAtom, sort: FFS(f), a: []*Term{t}})
	}
	toFFCache[key] = r
	return r
}

func MkFFInv(t *Term) *Term {
	if t.IsConst() {
		if t.k.Sign() == 0 {
			return t
		}
		return MkFFC(new(big.Int).ModInverse(t.k, t.sort.Prime()), t.sort.W)
	}
	if t.op == OFFInv {
		return t.a[0]
	}
	if t.op == OLin && len(t.a) == 1 && t.k.Sign() == 0 {
		return MkScale(MkFFInv(t.a[0]), new(big.Int).ModInverse(t.coef[0], t.sort.Prime()))
	}
	if t.op == OMul {
		r := MkFFInv(t.a[0])
		for _, x := range t.a[1:] {
			r = MkMul(r, MkFFInv(x))
		}
		return r
	}
	return intern(Term{op: OFFInv, sort: t.sort, a: []*Term{t}})
}

// ---------------------------------------------------------------- printing
func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.sort.K == KBool {
			return fmt.Sprint(t.u == 1)
		}
		s := t.Big().Text(16)
		if t.sort.K == KBV {
			return "0x" + s + ":" + strconv.Itoa(t.sort.W)
		}
		return "0x" + s
	case OVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	if t.op == OUF {
		sb.WriteString(" " + t.name)
	}
	if t.op == OExtract {
		fmt.Fprintf(&sb, "[%d:%d]", t.i, t.j)
	}
	for i, x := range t.a {
		sb.WriteByte(' ')
		if t.coef != nil {
			c := t.coef[i]
			if t.sort.K == KFF && c.BitLen() > 200 {
				c = new(big.Int).Sub(c, t.sort.Prime())
			}
			sb.WriteString(c.Text(16) + "*")
		}
		sb.WriteString(x.str(d - 1))
		if sb.Len() > 2000 {
			sb.WriteString("...")
			break
		}
	}
	if t.op == OLin && t.k.Sign() != 0 {
		sb.WriteString(" +0x" + t.k.Text(16))
	}
	if t.op == OIDiv {
		sb.WriteString(" /0x" + t.k.Text(16))
	}
	sb.WriteByte(')')
	return sb.String()
}

var _ = bits.Len

// joinByteEqs turns constants compared with all the pieces of one integer into
// a single comparison of the integer.
func joinByteEqs(cs []*Term) []*Term {
	type piece struct {
		hi, lo int
		k      *big.Int
	}
	by := map[*Term][]piece{}
	for _, e := range cs {
		if e.op != OEq {
			continue
		}
		for i := 0; i < 2; i++ {
			if t, hi, lo := intPiece(e.a[i]); t != nil && e.a[1-i].IsConst() {
				by[t] = append(by[t], piece{hi, lo, e.a[1-i].Big()})
			}
		}
	}
	var out []*Term
	done := map[*Term]bool{}
	for x, ps := range by {
		lo, hi := IntRange(x)
		if len(ps) < 4 || lo == nil || hi == nil || lo.Sign() < 0 {
			continue
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].lo < ps[j].lo })
		at, v := 0, new(big.Int)
		for _, p := range ps {
			if p.lo != at {
				at = -1
				break
			}
			v.Or(v, new(big.Int).Lsh(p.k, uint(p.lo)))
			at = p.hi + 1
		}
		if at > 0 && hi.BitLen() <= at {
			done[x] = true
			out = append(out, MkEq(x, MkIntC(v)))
		}
	}
	for _, e := range cs {
		if e.op == OEq {
			drop := false
			for i := 0; i < 2; i++ {
				if t, _, _ := intPiece(e.a[i]); t != nil && done[t] && e.a[1-i].IsConst() {
					drop = true
				}
			}
			if drop {
				continue
			}
		}
		out = append(out, e)
	}
	return out
}

// intPiece: bits hi..lo of an integer.
func intPiece(x *Term) (t *Term, hi, lo int) {
	switch {
	case x.op == OInt2BV:
		return x.a[0], x.sort.W - 1, 0
	case x.op == OExtract && x.a[0].op == OInt2BV:
		return x.a[0].a[0], x.i, x.j
	}
	return nil, 0, 0
}
