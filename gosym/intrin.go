package main

// Models of the standard library and of the verification runtime (vrt).

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Intr func(c *CallCtx) []Out

var intrinsics = map[string]Intr{}
var isContract = map[string]bool{}

// modelled interface values (hash objects, readers ...)
type modelType struct {
	name   string
	invoke func(c *CallCtx, recv Val, method string) []Out
}

func (m *modelType) Underlying() types.Type { return m }
func (m *modelType) String() string         { return "model." + m.name }

func parseFloatConst(s string) (float64, error) { return strconv.ParseFloat(s, 64) }

var globalIntr = map[string]func(ex *Exec) Val{}

func prefixIntrinsic(name string) Intr {
	switch {
	case strings.HasPrefix(name, "fmt."):
		return func(c *CallCtx) []Out {
			if strings.HasSuffix(c.name, "Errorf") {
				return c.ret(&Iface{errModel, &opaqueV{"error"}})
			}
			if strings.HasSuffix(c.name, "Sprintf") || strings.HasSuffix(c.name, "Sprint") {
				return c.ret(str("?"))
			}
			res := c.fn.Signature.Results()
			if res.Len() == 0 {
				return c.ret(nil)
			}
			if res.Len() == 1 {
				return c.ret(zeroVal(res.At(0).Type()))
			}
			return c.ret(zeroVal(res))
		}
	case strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "(*internal/sync.") || strings.HasPrefix(name, "runtime.") || strings.HasPrefix(name, "(*log."), strings.HasPrefix(name, "log."):
		return func(c *CallCtx) []Out {
			if c.fn != nil && c.fn.Signature.Results().Len() == 0 {
				return c.ret(nil)
			}
			panic(unsup("library call %s", name))
		}
	}
	return nil
}

var errModel = &modelType{name: "error", invoke: func(c *CallCtx, recv Val, m string) []Out { return c.ret(str("error")) }}

func initAllowed(path string) bool {
	if strings.HasPrefix(path, repoPath) {
		return true
	}
	switch path {
	case "errors", "io", "encoding/binary", "encoding/hex", "bytes", "strings", "math/bits", "crypto/elliptic", "crypto/cipher", "golang.org/x/crypto/blake2b", "hash", "crypto/subtle", "golang.org/x/crypto/ripemd160", "golang.org/x/crypto/md4":
		return true
	}
	return false
}

var repoPath = "github.com/blocktree/go-owcrypt"

// ---------------------------------------------------------------- helpers
func (c *CallCtx) term(i int) *Term {
	t, ok := c.args[i].(*Term)
	if !ok {
		panic(unsup("%s: argument %d is %T", c.name, i, c.args[i]))
	}
	return t
}
func (c *CallCtx) bytes(i int) []*Term {
	switch s := c.args[i].(type) {
	case *LazyBytes:
		if !lazyOK[c.name] {
			panic(unsup("lazy bytes in %s", c.name))
		}
		return beBytes(s.t, s.full)
	case *Slice:
		return c.ex.bytesOf(c.st, s)
	case *Str:
		return s.b
	}
	panic(unsup("%s: argument %d is %T", c.name, i, c.args[i]))
}
func (c *CallCtx) isNil(i int) bool {
	p, ok := c.args[i].(*Ptr)
	return ok && p.isNil()
}

// big returns the integer behind a *big.Int argument.
func (c *CallCtx) big(i int) *Term {
	p, ok := c.args[i].(*Ptr)
	if !ok {
		panic(unsup("%s: argument %d is %T", c.name, i, c.args[i]))
	}
	if p.isNil() {
		panic(nilDeref{})
	}
	b, ok := c.st.load(p).(*BigV)
	if !ok {
		panic(unsup("%s: not a big.Int", c.name))
	}
	return b.t
}

type nilDeref struct{}

func (c *CallCtx) setBig(v *Term) []Out { return c.setBigIn(c.st, v) }
func (c *CallCtx) setBigIn(st *State, v *Term) []Out {
	p := c.args[0].(*Ptr)
	if p.isNil() {
		return []Out{{kind: OPanic, st: st, msg: "nil big.Int receiver"}}
	}
	st.store(p, &BigV{v})
	return []Out{{kind: ORet, st: st, v: p}}
}

func concatBE(bs []*Term) *Term {
	if len(bs) == 0 {
		return MkIntC(bigZero)
	}
	return MkBV2U(MkConcat(bs...))
}

// beBytes: big-endian n-byte encoding of the integer t (0 <= t < 256^n assumed)
func beBytes(t *Term, n int) []*Term {
	w := MkInt2BV(t, 8*n)
	out := make([]*Term, n)
	for i := range out {
		hi := 8*(n-i) - 1
		out[i] = MkExtract(w, hi, hi-7)
	}
	return out
}

func (c *CallCtx) constInt(i int) int {
	t := c.term(i)
	if !t.IsConst() {
		panic(unsup("%s: symbolic argument %d", c.name, i))
	}
	return int(t.SignedBig().Int64())
}

func bigIntr(name string, f Intr) {
	intrinsics["(*math/big.Int)."+name] = func(c *CallCtx) (outs []Out) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(nilDeref); ok {
					outs = []Out{{kind: OPanic, st: c.st, msg: "nil pointer dereference (big.Int)"}}
					return
				}
				panic(r)
			}
		}()
		return f(c)
	}
}

func asBool(b *Term) Val { return b }

// sign of an Int term as int
func signTerm(t *Term) *Term {
	lt, eq := MkILt0(t), MkEq(t, MkIntC(bigZero))
	noteExclusive(lt, eq)
	return MkIte(lt, MkBV(^uint64(0), 64), MkIte(eq, MkBV(0, 64), MkBV(1, 64)))
}

var lensPolicy func(full int) []int // non-full encoding lengths explored

func init() {
	bigIntr("Set", func(c *CallCtx) []Out { return c.setBig(c.big(1)) })
	bigIntr("SetBytes", func(c *CallCtx) []Out { return c.setBig(concatBE(c.bytes(1))) })
	bigIntr("SetInt64", func(c *CallCtx) []Out { return c.setBig(MkBV2S(c.term(1))) })
	bigIntr("SetUint64", func(c *CallCtx) []Out { return c.setBig(MkBV2U(c.term(1))) })
	bigIntr("SetString", func(c *CallCtx) []Out {
		s, ok := concStr(c.args[1])
		if !ok {
			panic(unsup("SetString on a symbolic string"))
		}
		n, ok := new(big.Int).SetString(s, c.constInt(2))
		if !ok {
			return c.ret(&Tuple{[]Val{nilPtr, tFalse}})
		}
		o := c.setBig(MkIntC(n))
		o[0].v = &Tuple{[]Val{o[0].v, tTrue}}
		return o
	})
	bigIntr("Add", func(c *CallCtx) []Out { return c.setBig(MkAdd(c.big(1), c.big(2))) })
	bigIntr("Sub", func(c *CallCtx) []Out { return c.setBig(MkSub(c.big(1), c.big(2))) })
	bigIntr("Mul", func(c *CallCtx) []Out { return c.setBig(MkMul(c.big(1), c.big(2))) })
	bigIntr("Neg", func(c *CallCtx) []Out { return c.setBig(MkNeg(c.big(1))) })
	bigIntr("Abs", func(c *CallCtx) []Out {
		a := c.big(1)
		return c.setBig(MkIte(MkILt0(a), MkNeg(a), a))
	})
	bigIntr("Mod", func(c *CallCtx) []Out {
		k := c.big(2)
		if !k.IsConst() {
			panic(unsup("Mod by a symbolic modulus"))
		}
		if k.k.Sign() == 0 {
			return c.panic("division by zero")
		}
		n := new(big.Int).Abs(k.k)
		r := MkIMod(c.big(1), n)
		if c.ex.modFork && r.op == OFF2Int && r.a[0].op == OFFAtom {
			u := r.a[0].a[0]
			if g, co := groupCoord(u); g != nil && co == "X" {
				if _, hi := IntRange(u); hi != nil && hi.Cmp(new(big.Int).Lsh(n, 1)) < 0 {
					a, b := c.ex.branch(c.st, MkILt(u, MkIntC(n)))
					var outs []Out
					if a != nil {
						outs = append(outs, c.setBigIn(a, u)...)
					}
					if b != nil {
						outs = append(outs, c.setBigIn(b, MkSub(u, MkIntC(n)))...)
					}
					return outs
				}
			}
		}
		return c.setBig(r)
	})
	div := func(c *CallCtx) []Out {
		k := c.big(2)
		if !k.IsConst() {
			panic(unsup("division by a symbolic value"))
		}
		if k.k.Sign() == 0 {
			return c.panic("division by zero")
		}
		a := c.big(1)
		if k.k.Sign() < 0 {
			panic(unsup("division by a negative value"))
		}
		if strings.HasSuffix(c.name, "Quo") {
			lo, _ := IntRange(a)
			if lo == nil || lo.Sign() < 0 {
				panic(unsup("Quo of a possibly negative value"))
			}
		}
		return c.setBig(MkIDiv(a, k.k))
	}
	bigIntr("Div", div)
	bigIntr("Quo", div)
	bigIntr("Lsh", func(c *CallCtx) []Out { return c.setBig(MkScale(c.big(1), p2(c.constInt(2)))) })
	bigIntr("Rsh", func(c *CallCtx) []Out { return c.setBig(MkIDiv(c.big(1), p2(c.constInt(2)))) })
	bigIntr("Cmp", func(c *CallCtx) []Out { return c.ret(signTerm(MkSub(c.big(0), c.big(1)))) })
	bigIntr("Sign", func(c *CallCtx) []Out { return c.ret(signTerm(c.big(0))) })
	bigIntr("IsInt64", func(c *CallCtx) []Out {
		a := c.big(0)
		return c.ret(MkAnd(MkILt(MkIntC(new(big.Int).Sub(new(big.Int).Neg(p2(63)), bigOne)), a), MkILt(a, MkIntC(p2(63)))))
	})
	bigIntr("Int64", func(c *CallCtx) []Out { return c.ret(MkInt2BV(c.big(0), 64)) })
	bigIntr("Uint64", func(c *CallCtx) []Out { return c.ret(MkInt2BV(c.big(0), 64)) })
	bigIntr("Bit", func(c *CallCtx) []Out {
		n := c.constInt(1)
		a := c.big(0)
		b := MkIDiv(a, p2(n))
		return c.ret(MkInt2BV(intParity(b), 64))
	})
	bigIntr("BitLen", func(c *CallCtx) []Out {
		a := c.big(0)
		if a.IsConst() {
			return c.ret(MkBV(uint64(a.k.BitLen()), 64))
		}
		lo, hi := IntRange(a)
		if hi == nil || lo == nil || lo.Sign() < 0 {
			panic(unsup("BitLen of an unbounded value"))
		}
		r := MkBV(0, 64)
		for n := 0; n < hi.BitLen(); n++ {
			r = MkIte(MkILt(a, MkIntC(p2(n))), r, MkBV(uint64(n+1), 64))
		}
		return c.ret(r)
	})
	bigIntr("Bytes", bigBytes)
	bigIntr("FillBytes", func(c *CallCtx) []Out {
		a := c.big(0)
		s := c.args[1].(*Slice)
		ok := MkILt(a, MkIntC(p2(8*s.ln)))
		return c.ex.guard(c.st, ok, "FillBytes: value too large", func(st *State) []Out {
			if s.ln > 0 {
				arr := st.load(s.arr).(*Agg)
				na := &Agg{append([]Val{}, arr.els...)}
				for i, b := range beBytes(a, s.ln) {
					na.els[s.off+i] = b
				}
				st.store(s.arr, na)
			}
			return one(st, s)
		})
	})
	bigIntr("ModInverse", func(c *CallCtx) []Out {
		a, n := c.big(1), c.big(2)
		if !n.IsConst() || !isPrime(n.k) {
			if a.IsConst() && n.IsConst() {
				r := new(big.Int).ModInverse(a.k, n.k)
				if r == nil {
					return c.ret(nilPtr)
				}
				return c.setBig(MkIntC(r))
			}
			panic(unsup("ModInverse with a non-prime modulus"))
		}
		f := ToFF(a, FFIndex(n.k))
		z := MkEq(f, MkFFC(bigZero, f.sort.W))
		t, e := c.ex.branch(c.st, z)
		outs := []Out{}
		if t != nil {
			outs = append(outs, Out{kind: ORet, st: t, v: nilPtr})
		}
		if e != nil {
			outs = append(outs, c.setBigIn(e, MkFF2Int(MkFFInv(f)))...)
		}
		return outs
	})
	bigIntr("Exp", func(c *CallCtx) []Out {
		a, e := c.big(1), c.big(2)
		if c.isNil(3) {
			if a.IsConst() && e.IsConst() {
				return c.setBig(MkIntC(new(big.Int).Exp(a.k, e.k, nil)))
			}
			panic(unsup("Exp without modulus"))
		}
		n := c.big(3)
		if a.IsConst() && e.IsConst() && n.IsConst() {
			return c.setBig(MkIntC(new(big.Int).Exp(a.k, e.k, n.k)))
		}
		if !e.IsConst() || !n.IsConst() || !isPrime(n.k) {
			panic(unsup("Exp"))
		}
		f := ToFF(a, FFIndex(n.k))
		return c.setBig(MkFF2Int(ffPow(f, e.k)))
	})
	bigIntr("ModSqrt", func(c *CallCtx) []Out {
		a, n := c.big(1), c.big(2)
		if !n.IsConst() || !isPrime(n.k) {
			panic(unsup("ModSqrt"))
		}
		if a.IsConst() {
			r := new(big.Int).ModSqrt(new(big.Int).Mod(a.k, n.k), n.k)
			if r == nil {
				return c.ret(nilPtr)
			}
			return c.setBig(MkIntC(r))
		}
		f := ToFF(a, FFIndex(n.k))
		return modSqrt(c, f, func(st *State, r *Term) []Out { return c.setBigIn(st, MkFF2Int(r)) }, func(st *State) []Out { return one(st, nilPtr) })
	})
	bigIntr("GCD", func(c *CallCtx) []Out { panic(unsup("GCD")) })
	bigIntr("SetBit", func(c *CallCtx) []Out {
		a, i, b := c.big(1), c.constInt(2), c.term(3)
		if a.IsConst() && b.IsConst() {
			return c.setBig(MkIntC(new(big.Int).SetBit(a.k, i, uint(b.u))))
		}
		panic(unsup("SetBit"))
	})
	bigIntr("And", func(c *CallCtx) []Out {
		a, b := c.big(1), c.big(2)
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			n := new(big.Int).Add(b.k, bigOne)
			if n.Sign() > 0 && n.TrailingZeroBits() == uint(n.BitLen()-1) {
				return c.setBig(MkIMod(a, n))
			}
		}
		panic(unsup("big And"))
	})
	bigIntr("Bits", func(c *CallCtx) []Out {
		a := c.big(0)
		lo, hi := IntRange(a)
		if lo == nil || hi == nil || lo.Sign() < 0 {
			panic(unsup("Bits of an unbounded or negative integer"))
		}
		n := (hi.BitLen() + 63) / 64
		mk := func(st *State, n int) *Slice {
			g := &Agg{make([]Val, n)}
			for i := range g.els {
				g.els[i] = MkInt2BV(MkIMod(MkIDiv(a, p2(64*i)), p2(64)), 64)
			}
			return &Slice{arr: st.alloc(g), ln: n, cp: n}
		}
		outs := []Out{}
		rest := c.st
		for ; n >= 1 && rest != nil; n-- {
			t, f := c.ex.branch(rest, MkNot(MkILt(a, MkIntC(p2(64*(n-1))))))
			if t != nil {
				outs = append(outs, Out{kind: ORet, st: t, v: mk(t, n)})
			}
			rest = f
		}
		if rest != nil {
			outs = append(outs, Out{kind: ORet, st: rest, v: mk(rest, 0)})
		}
		return outs
	})
	bigIntr("String", func(c *CallCtx) []Out {
		a := c.big(0)
		if a.IsConst() {
			return c.ret(str(a.k.String()))
		}
		return c.ret(str("?"))
	})
	intrinsics["math/big.NewInt"] = func(c *CallCtx) []Out {
		return c.ret(c.st.alloc(&BigV{MkBV2S(c.term(0))}))
	}
	intrinsics["(*math/big.Int).ProbablyPrime"] = func(c *CallCtx) []Out {
		a := c.big(0)
		if a.IsConst() {
			return c.ret(MkBool(a.k.ProbablyPrime(20)))
		}
		panic(unsup("ProbablyPrime"))
	}

	// ---- math/bits
	for _, w := range []int{8, 16, 32, 64} {
		w := w
		sfx := strconv.Itoa(w)
		addIntr("math/bits.RotateLeft"+sfx, func(c *CallCtx) []Out {
			k := c.term(1)
			x := c.term(0)
			if !k.IsConst() {
				panic(unsup("symbolic rotate"))
			}
			n := int(k.SignedBig().Int64()) & (w - 1)
			if n == 0 {
				return c.ret(x)
			}
			return c.ret(MkConcat(MkExtract(x, w-n-1, 0), MkExtract(x, w-1, w-n)))
		})
		addIntr("math/bits.ReverseBytes"+sfx, func(c *CallCtx) []Out {
			x := c.term(0)
			var p []*Term
			for i := 0; i < w; i += 8 {
				p = append(p, MkExtract(x, i+7, i))
			}
			return c.ret(MkConcat(p...))
		})
	}
	intrinsics["math/bits.RotateLeft"] = intrinsics["math/bits.RotateLeft64"]
	add64 := func(w int) Intr {
		return func(c *CallCtx) []Out {
			x, y, ci := c.term(0), c.term(1), c.term(2)
			e := func(t *Term) *Term { return MkZExt(t, w+1) }
			s := MkAdd(MkAdd(e(x), e(y)), e(ci))
			return c.ret(&Tuple{[]Val{MkAdd(MkAdd(x, y), ci), MkZExt(MkExtract(s, w, w), w)}})
		}
	}
	sub64 := func(w int) Intr {
		return func(c *CallCtx) []Out {
			x, y, ci := c.term(0), c.term(1), c.term(2)
			e := func(t *Term) *Term { return MkZExt(t, w+1) }
			s := MkSub(MkSub(e(x), e(y)), e(ci))
			return c.ret(&Tuple{[]Val{MkSub(MkSub(x, y), ci), MkZExt(MkExtract(s, w, w), w)}})
		}
	}
	mul64 := func(w int) Intr {
		return func(c *CallCtx) []Out {
			x, y := c.term(0), c.term(1)
			p := MkMul(MkZExt(x, 2*w), MkZExt(y, 2*w))
			return c.ret(&Tuple{[]Val{MkExtract(p, 2*w-1, w), MkExtract(p, w-1, 0)}})
		}
	}
	addIntr("math/bits.Add64", add64(64))
	addIntr("math/bits.Add", add64(64))
	addIntr("math/bits.Add32", add64(32))
	addIntr("math/bits.Sub64", sub64(64))
	addIntr("math/bits.Sub", sub64(64))
	addIntr("math/bits.Sub32", sub64(32))
	addIntr("math/bits.Mul64", mul64(64))
	addIntr("math/bits.Mul", mul64(64))
	addIntr("math/bits.Mul32", mul64(32))

	// ---- bytes, subtle, hex ...
	addIntr("bytes.Equal", func(c *CallCtx) []Out { return c.ret(eqBytes(c.bytes(0), c.bytes(1))) })
	addIntr("crypto/subtle.ConstantTimeCompare", func(c *CallCtx) []Out {
		return c.ret(MkIte(eqBytes(c.bytes(0), c.bytes(1)), MkBV(1, 64), MkBV(0, 64)))
	})
	addIntr("bytes.Compare", func(c *CallCtx) []Out {
		a, b := c.bytes(0), c.bytes(1)
		n := min(len(a), len(b))
		tail := MkBV(uint64(int64(sgnInt(len(a)-len(b)))), 64)
		if n == 0 {
			return c.ret(tail)
		}
		x, y := MkConcat(a[:n]...), MkConcat(b[:n]...)
		return c.ret(MkIte(MkEq(x, y), tail, MkIte(MkUlt(x, y), MkBV(^uint64(0), 64), MkBV(1, 64))))
	})
	addIntr("encoding/hex.DecodeString", func(c *CallCtx) []Out {
		s, ok := concStr(c.args[0])
		if !ok {
			panic(unsup("hex of a symbolic string"))
		}
		var out []*Term
		var er Val = nilIface
		if len(s)%2 != 0 {
			er = &Iface{errModel, &opaqueV{"hex"}}
		}
		for i := 0; i+1 < len(s); i += 2 {
			v, e := strconv.ParseUint(s[i:i+2], 16, 8)
			if e != nil {
				er = &Iface{errModel, &opaqueV{"hex"}}
				break
			}
			out = append(out, MkBV(v, 8))
		}
		return c.ret(&Tuple{[]Val{c.ex.newBytes(c.st, out), er}})
	})
	addIntr("encoding/hex.EncodeToString", func(c *CallCtx) []Out {
		var o []*Term
		for _, b := range c.bytes(0) {
			for _, n := range []*Term{MkExtract(b, 7, 4), MkExtract(b, 3, 0)} {
				x := MkZExt(n, 8)
				o = append(o, MkIte(MkUlt(x, MkBV(10, 8)), MkAdd(x, MkBV('0', 8)), MkAdd(x, MkBV('a'-10, 8))))
			}
		}
		return c.ret(&Str{o})
	})
	addIntr("strings.Index", func(c *CallCtx) []Out {
		a, ok1 := concStr(c.args[0])
		b, ok2 := concStr(c.args[1])
		if !ok1 || !ok2 {
			return nil
		}
		return c.ret(MkBV(uint64(int64(strings.Index(a, b))), 64))
	})
	addIntr("reflect.DeepEqual", func(c *CallCtx) []Out {
		a, b := c.args[0].(*Iface), c.args[1].(*Iface)
		if a.typ == nil || b.typ == nil {
			return c.ret(MkBool(a.typ == b.typ))
		}
		if !identType(a.typ, b.typ) {
			return c.ret(tFalse)
		}
		if s, ok := a.v.(*Slice); ok {
			s2 := b.v.(*Slice)
			if (s.arr == nil) != (s2.arr == nil) || s.ln != s2.ln {
				return c.ret(tFalse)
			}
			var cs []*Term
			for i := 0; i < s.ln; i++ {
				cs = append(cs, c.ex.equal(c.st.load(s.arr.sub(s.off+i)), c.st.load(s2.arr.sub(s2.off+i))))
			}
			return c.ret(MkAnd(cs...))
		}
		return c.ret(c.ex.equal(a.v, b.v))
	})
	addIntr("math.Log2", func(c *CallCtx) []Out { panic(unsup("math.Log2")) })
	addIntr("crypto/internal/boring.Unreachable", func(c *CallCtx) []Out { return c.ret(nil) })
	addIntr("(*sync.Once).Do", func(c *CallCtx) []Out {
		// package-level initialisation: run the body (idempotent on the repository's use)
		p := c.args[0].(*Ptr)
		done := p.sub(0)
		_ = done
		key := fmt.Sprint("once", p.obj, p.path)
		if onceDone[key] {
			return c.ret(nil)
		}
		onceDone[key] = true
		return c.ex.callVal(c.st, c.args[1], nil, c.site)
	})
	// ---- randomness
	addIntr("crypto/rand.Read", func(c *CallCtx) []Out {
		return readRand(c, c.args[0].(*Slice))
	})
	globalIntr["crypto/rand.Reader"] = func(ex *Exec) Val { return &Iface{randReader, &opaqueV{"rand"}} }
	addIntr("io.ReadFull", func(c *CallCtx) []Out {
		r := c.args[0].(*Iface)
		if r.typ == nil {
			return c.panic("nil reader")
		}
		if mt, ok := r.typ.(*modelType); ok {
			return mt.invoke(&CallCtx{ex: c.ex, st: c.st, args: []Val{c.args[1]}, name: mt.name + ".Read"}, r.v, "Read")
		}
		// StreamReader value / pointer: modelled keystream
		if tn := r.typ.String(); strings.HasSuffix(tn, "cipher.StreamReader") {
			return readStream(c, r.v, c.args[1].(*Slice))
		}
		fn := c.ex.prog.LookupMethod(r.typ, nil, "Read")
		if fn == nil {
			panic(unsup("ReadFull from %s", r.typ))
		}
		// one Read call must fill the buffer (true for the readers in scope)
		var outs []Out
		for _, o := range c.ex.call(c.st, fn, []Val{r.v, c.args[1]}, nil, c.site) {
			outs = append(outs, o)
		}
		return outs
	})
	initVrt()
	initHashes()
	initCompress()
	initCurves()
	initJacobian()
	initEdwards()
}

var onceDone = map[string]bool{}

func addIntr(n string, f Intr) { intrinsics[n] = f }
func addContract(n string, f Intr) {
	intrinsics[n] = f
	isContract[n] = true
}

func sgnInt(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func eqBytes(a, b []*Term) *Term {
	if len(a) != len(b) {
		return tFalse
	}
	if len(a) == 0 {
		return tTrue
	}
	// keep the whole-word equality when both sides concatenate to something simple
	x, y := MkConcat(a...), MkConcat(b...)
	if x == y {
		return tTrue
	}
	if simpleWord(x) && simpleWord(y) {
		if ix, iy := MkBV2U(x), MkBV2U(y); ix.op != OBV2U || iy.op != OBV2U {
			return MkEq(ix, iy)
		}
		return MkEq(x, y)
	}
	var cs []*Term
	for i := range a {
		cs = append(cs, MkEq(a[i], b[i]))
	}
	return MkAnd(cs...)
}

func simpleWord(t *Term) bool {
	switch t.op {
	case OInt2BV, OConst, OVar, OUF:
		return true
	case OIte:
		return simpleWord(t.a[1]) && simpleWord(t.a[2])
	case OConcat:
		return len(t.a) == 2 && isZero(t.a[0]) && simpleWord(t.a[1])
	}
	return false
}

var randReader = &modelType{name: "rand.Reader", invoke: func(c *CallCtx, recv Val, m string) []Out {
	if m != "Read" {
		panic(unsup("rand.Reader.%s", m))
	}
	return readRand(c, c.args[0].(*Slice))
}}

// readRand: fresh unconstrained bytes; recorded as harness inputs so that replay can feed them
func readRand(c *CallCtx, s *Slice) []Out {
	st := c.st
	if st.names["rand"] >= c.ex.draws {
		return []Out{{kind: OAbort, st: st, msg: "bound: random draws"}}
	}
	name := freshName(st, "rand")
	var els []*Term
	if s.ln > 0 {
		arr := st.load(s.arr).(*Agg)
		na := &Agg{append([]Val{}, arr.els...)}
		w := MkVar(name, BVS(8*s.ln))
		for i := 0; i < s.ln; i++ {
			hi := 8*(s.ln-i) - 1
			b := MkExtract(w, hi, hi-7)
			els = append(els, b)
			na.els[s.off+i] = b
		}
		st.store(s.arr, na)
	}
	st.inputs = append(st.inputs, Input{name: name, kind: "rand", els: els})
	return c.ret(&Tuple{[]Val{MkBV(uint64(s.ln), 64), nilIface}})
}

// readStream: AES-CTR keystream modelled as an arbitrary byte string
func readStream(c *CallCtx, v Val, s *Slice) []Out {
	st := c.st
	if st.names["keystream"] >= c.ex.draws {
		return []Out{{kind: OAbort, st: st, msg: "bound: random draws"}}
	}
	name := freshName(st, "keystream")
	if s.ln > 0 {
		arr := st.load(s.arr).(*Agg)
		na := &Agg{append([]Val{}, arr.els...)}
		w := MkVar(name, BVS(8*s.ln))
		for i := 0; i < s.ln; i++ {
			hi := 8*(s.ln-i) - 1
			na.els[s.off+i] = MkExtract(w, hi, hi-7)
		}
		st.store(s.arr, na)
	}
	return c.ret(&Tuple{[]Val{MkBV(uint64(s.ln), 64), nilIface}})
}

func freshName(st *State, n string) string {
	k := st.names[n]
	st.names[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func ffPow(f *Term, e *big.Int) *Term {
	p := f.sort.Prime()
	pm2 := new(big.Int).Sub(p, big.NewInt(2))
	if e.Cmp(pm2) == 0 {
		return MkFFInv(f)
	}
	if e.BitLen() > 8 {
		// opaque but functional
		return MkUF("pow"+e.Text(16), f.sort, f)
	}
	r := MkFFC(bigOne, f.sort.W)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = MkMul(r, r)
		if e.Bit(i) == 1 {
			r = MkMul(r, f)
		}
	}
	return r
}

// curveRadicand recognises x^3+ax+b where x is the coordinate of a curve point.
func curveRadicand(f *Term) (*curveDef, *Term) {
	for _, d := range curveDefs {
		if d.p.Cmp(f.sort.Prime()) != 0 {
			continue
		}
		var found *Term
		seen := map[int]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if found != nil || seen[t.id] {
				return
			}
			seen[t.id] = true
			if g, c := groupCoord(t); g == d.grp && c == "X" {
				x := ToFF(t, f.sort.W)
				if MkAdd(MkAdd(MkMul(MkMul(x, x), x), MkScale(x, d.a)), MkFFC(d.b, f.sort.W)) == f {
					found = t
				}
				return
			}
			for _, a := range t.a {
				walk(a)
			}
		}
		walk(f)
		if found != nil {
			return d, found
		}
	}
	return nil, nil
}

var sqrtDefs = map[int]*Term{} // sqrt UF term -> radicand

// intParity: a mod 2, with coefficients reduced first.
func intParity(a *Term) *Term {
	one := MkIntC(bigOne)
	switch a.op {
	case OConst:
		return MkIntC(big.NewInt(int64(a.k.Bit(0))))
	case OIte:
		return MkIte(a.a[0], intParity(a.a[1]), intParity(a.a[2]))
	case OLin:
		b := MkIntC(bigZero)
		for i, x := range a.a {
			if a.coef[i].Bit(0) == 1 {
				b = MkAdd(b, x)
			}
		}
		if a.k.Bit(0) == 1 {
			return MkSub(one, intParity(b))
		}
		if b != a {
			return intParity(b)
		}
	}
	return MkSub(a, MkScale(MkIDiv(a, p2(1)), p2(1)))
}

// isCubic: f is x^3+ax+b of one of the curves, for some x.
func isCubic(f *Term) bool {
	if f.op != OLin {
		return false
	}
	for _, t := range f.a {
		if t.op != OMul || len(t.a) != 3 || t.a[0] != t.a[1] || t.a[1] != t.a[2] {
			continue
		}
		x := t.a[0]
		for _, d := range curveDefs {
			if FFIndex(d.p) == f.sort.W && MkAdd(MkAdd(t, MkScale(x, d.a)), MkFFC(d.b, f.sort.W)) == f {
				return true
			}
		}
	}
	return false
}

func modSqrt(c *CallCtx, f *Term, yes func(st *State, r *Term) []Out, no func(st *State) []Out) []Out {
	if d, x := curveRadicand(f); d != nil {
		// the radicand is that of a known curve point: one of its two roots
		a, b := c.ex.branch(c.st, MkUF("rootSign", BoolS, x))
		var outs []Out
		y := MkUF(d.key+".Y", IntS, x.a[0])
		if a != nil {
			outs = append(outs, yes(a, ToFF(y, f.sort.W))...)
		}
		if b != nil {
			outs = append(outs, yes(b, MkNeg(ToFF(y, f.sort.W)))...)
		}
		return outs
	}
	qr := MkUF("isQR", BoolS, f)
	r := MkUF("sqrt", f.sort, f)
	a, b := c.ex.branch(c.st, qr)
	outs := []Out{}
	if a != nil {
		c.ex.addPC(a, MkEq(MkMul(r, r), f))
		if isCubic(f) {
			// curves of odd order have no point with y = 0
			c.ex.addPC(a, MkNot(MkEq(r, MkFFC(bigZero, f.sort.W))))
		}
		outs = append(outs, yes(a, r)...)
	}
	if b != nil {
		outs = append(outs, no(b)...)
	}
	return outs
}

// bigBytes: minimal big-endian encoding.  The encoded length stays implicit
// (LazyBytes) until something looks at it; then the state forks over lengths.
func bigBytes(c *CallCtx) []Out {
	a := c.big(0)
	if a.IsConst() {
		v := new(big.Int).Abs(a.k)
		n := (v.BitLen() + 7) / 8
		return c.ret(c.ex.newBytes(c.st, beBytes(MkIntC(v), n)))
	}
	lo, hi := IntRange(a)
	if lo == nil || hi == nil {
		panic(unsup("Bytes of an unbounded integer"))
	}
	if lo.Sign() < 0 {
		// |a|
		if ng := MkILt0(a); ng != tFalse {
			neg, pos := c.ex.branch(c.st, ng)
			var outs []Out
			if pos != nil {
				outs = append(outs, Out{kind: ORet, st: pos, v: &LazyBytes{a, (max(0, hi.BitLen()) + 7) / 8}})
			}
			if neg != nil {
				outs = append(outs, Out{kind: ORet, st: neg, v: &LazyBytes{MkNeg(a), (lo.BitLen() + 7) / 8}})
			}
			return outs
		}
	}
	return c.ret(&LazyBytes{a, (hi.BitLen() + 7) / 8})
}

// LazyBytes: the minimal big-endian encoding of t (0 <= t < 256^full).
type LazyBytes struct {
	t    *Term
	full int
}

// forceLazy forks over the encoded length.
func (ex *Exec) forceLazy(st *State, lz *LazyBytes) (outs []Out) {
	a, full := lz.t, lz.full
	var lens []int
	for n := full - 1; n >= 0; n-- {
		lens = append(lens, n)
	}
	if ex.res != nil && lensPolicy != nil {
		lens = lensPolicy(full)
	}
	outs = []Out{}
	rest := st
	emit := func(st *State, n int) {
		bs := beBytes(a, full)
		st.addZeros(bs[:full-n])
		outs = append(outs, Out{kind: ORet, st: st, v: ex.newBytes(st, bs[full-n:])})
	}
	// peel from the longest
	want := map[int]bool{full: true}
	for _, n := range lens {
		want[n] = true
	}
	var ws []int
	for n := full; n >= 0; n-- {
		if want[n] {
			ws = append(ws, n)
		}
	}
	top := full // rest: a < 256^top
	for _, n := range ws {
		if rest == nil {
			break
		}
		if n < top {
			// lengths n+1..top are outside the bound
			t, f := ex.branch(rest, MkILt(a, MkIntC(p2(8*n))))
			if f != nil {
				outs = append(outs, Out{kind: OAbort, st: f, msg: "bound: encoding length"})
			}
			if rest = t; rest == nil {
				break
			}
		}
		if n == 0 {
			emit(rest, 0)
			rest = nil
			break
		}
		t, f := ex.branch(rest, MkNot(MkILt(a, MkIntC(p2(8*(n-1))))))
		if t != nil {
			emit(t, n)
		}
		rest, top = f, n-1
	}
	if rest != nil {
		outs = append(outs, Out{kind: OAbort, st: rest, msg: "bound: encoding length"})
	}
	return outs
}

// lazyOperand returns an operand of in whose encoding length is about to matter.
func (ex *Exec) lazyOperand(fr *Frame, in ssa.Instruction) *LazyBytes {
	var vs []ssa.Value
	switch in := in.(type) {
	case *ssa.Call:
		b, ok := in.Call.Value.(*ssa.Builtin)
		if !ok {
			return nil
		}
		switch b.Name() {
		case "len", "cap", "append", "copy":
		default:
			return nil
		}
		vs = in.Call.Args
	case *ssa.Slice:
		vs = []ssa.Value{in.X}
	case *ssa.IndexAddr:
		vs = []ssa.Value{in.X}
	case *ssa.Range:
		vs = []ssa.Value{in.X}
	case *ssa.Convert:
		vs = []ssa.Value{in.X}
	case *ssa.SliceToArrayPointer:
		vs = []ssa.Value{in.X}
	default:
		return nil
	}
	for _, v := range vs {
		if i, ok := fr.info.idx[v]; ok {
			if l, ok := fr.env[i].(*LazyBytes); ok {
				return l
			}
		}
	}
	return nil
}

var lazyOK = map[string]bool{"(*math/big.Int).SetBytes": true}

var _ = ssa.NewConst
