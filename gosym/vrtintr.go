package main

// Intrinsics for the verification runtime package.

import (
	"fmt"
	"math/big"
	"os"
	"strings"
)

var vrtPath = repoPath + "/zzverif/vrt"

func vi(name string, f Intr) { intrinsics[vrtPath+"."+name] = f }

func (c *CallCtx) sname(i int) string {
	s, ok := concStr(c.args[i])
	if !ok {
		panic(unsup("vrt: symbolic name"))
	}
	return freshName(c.st, s)
}

func symBytes(name string, n int) []*Term {
	if n == 0 {
		return nil
	}
	w := MkVar(name, BVS(8*n))
	out := make([]*Term, n)
	for i := range out {
		hi := 8*(n-i) - 1
		out[i] = MkExtract(w, hi, hi-7)
	}
	return out
}

func initVrt() {
	vi("Bytes", func(c *CallCtx) []Out {
		n := c.sname(0)
		b := symBytes(n, c.constInt(1))
		c.st.inputs = append(c.st.inputs, Input{n, "bytes", b})
		return c.ret(c.ex.newBytes(c.st, b))
	})
	vi("BytesCap", func(c *CallCtx) []Out {
		n := c.sname(0)
		cp := c.constInt(2)
		b := symBytes(n, cp)
		c.st.inputs = append(c.st.inputs, Input{n, "bytes", b})
		s := c.ex.newBytes(c.st, b)
		return c.ret(&Slice{s.arr, 0, c.constInt(1), cp})
	})
	for _, w := range []int{8, 16, 32, 64} {
		w := w
		vi(fmt.Sprintf("U%d", w), func(c *CallCtx) []Out {
			n := c.sname(0)
			v := MkVar(n, BVS(w))
			c.st.inputs = append(c.st.inputs, Input{n, "int", []*Term{v}})
			return c.ret(v)
		})
		// I8.. with a signed range: I32(name, lo, hi)
		vi(fmt.Sprintf("I%d", w), func(c *CallCtx) []Out {
			n := c.sname(0)
			lo, hi := c.term(1), c.term(2)
			v := MkVar(n, BVS(w))
			bvBounds[v.id] = bnd{lo.SignedBig(), hi.SignedBig()}
			c.st.inputs = append(c.st.inputs, Input{n, "int", []*Term{v}})
			c.ex.addPC(c.st, MkNot(MkSlt(v, MkExtract(lo, w-1, 0))))
			c.ex.addPC(c.st, MkNot(MkSlt(MkExtract(hi, w-1, 0), v)))
			return c.ret(v)
		})
		// R8.. unsigned with an upper bound: R64(name, hi)
		vi(fmt.Sprintf("R%d", w), func(c *CallCtx) []Out {
			n := c.sname(0)
			hi := c.term(1)
			v := MkVar(n, BVS(w))
			bvBounds[v.id] = bnd{bigZero, hi.Big()}
			c.st.inputs = append(c.st.inputs, Input{n, "int", []*Term{v}})
			c.ex.addPC(c.st, MkNot(MkUlt(hi, v)))
			return c.ret(v)
		})
	}
	vi("Bool", func(c *CallCtx) []Out {
		n := c.sname(0)
		v := MkVar(n, BVS(1))
		c.st.inputs = append(c.st.inputs, Input{n, "int", []*Term{v}})
		return c.ret(MkEq(v, MkBV(1, 1)))
	})
	vi("Choose", func(c *CallCtx) []Out {
		n := c.sname(0)
		k := c.constInt(1)
		v := MkVar(n, BVS(16))
		var outs []Out
		pin, pinned := c.ex.pins[n]
		for i := 0; i < k; i++ {
			if pinned && i != pin {
				continue
			}
			st := c.st
			if i < k-1 && !pinned {
				st = c.st.fork()
			}
			st.choices = append(st.choices[:len(st.choices):len(st.choices)], fmt.Sprintf("%s=%d", n, i))
			st.inputs = append(st.inputs[:len(st.inputs):len(st.inputs)], Input{n, "int", []*Term{MkBV(uint64(i), 16)}})
			_ = v
			outs = append(outs, Out{kind: ORet, st: st, v: MkBV(uint64(i), 64)})
		}
		return outs
	})
	// Scalar(name, N): *big.Int in [0, N), N prime
	vi("Scalar", func(c *CallCtx) []Out {
		n := c.sname(0)
		N := c.big(1)
		if !N.IsConst() || !isPrime(N.k) {
			panic(unsup("vrt.Scalar: modulus"))
		}
		v := MkVar(n, FFS(FFIndex(N.k)))
		c.st.inputs = append(c.st.inputs, Input{n, "int", []*Term{v}})
		return c.ret(c.st.alloc(&BigV{MkFF2Int(v)}))
	})
	// Num(name, bits): *big.Int in [0, 2^bits)
	vi("Num", func(c *CallCtx) []Out {
		n := c.sname(0)
		w := c.constInt(1)
		v := MkVar(n, BVS(w))
		c.st.inputs = append(c.st.inputs, Input{n, "int", []*Term{v}})
		return c.ret(c.st.alloc(&BigV{MkBV2U(v)}))
	})
	// Enc(x, n): fixed-width big-endian encoding without forking on the length
	vi("Enc", func(c *CallCtx) []Out {
		return c.ret(c.ex.newBytes(c.st, beBytes(c.big(0), c.constInt(1))))
	})
	vi("EncLE", func(c *CallCtx) []Out {
		b := beBytes(c.big(0), c.constInt(1))
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return c.ret(c.ex.newBytes(c.st, b))
	})
	vi("Assume", func(c *CallCtx) []Out {
		if !c.ex.assume(c.st, c.term(0)) {
			return []Out{{kind: OInfeasible, st: c.st}}
		}
		return c.ret(nil)
	})
	vi("Assert", func(c *CallCtx) []Out {
		msg, _ := concStr(c.args[1])
		return c.ex.assert(c.st, c.term(0), msg)
	})
	vi("Cover", func(c *CallCtx) []Out {
		msg, _ := concStr(c.args[0])
		if !c.ex.res.covers[msg] {
			r, _ := Check(c.st.pc, c.ex.assertMs)
			if r == Sat {
				c.ex.res.covers[msg] = true
			} else if _, ok := c.ex.res.covers[msg]; !ok {
				c.ex.res.covers[msg] = false
			}
		}
		return c.ret(nil)
	})
	vi("Eq", func(c *CallCtx) []Out { return c.ret(eqBytes(c.bytes(0), c.bytes(1))) })
	vi("Concrete", func(c *CallCtx) []Out { return c.ret(c.args[0]) })
	vi("Symbolic", func(c *CallCtx) []Out { return c.ret(tTrue) })
	vi("And", func(c *CallCtx) []Out { return c.ret(MkAnd(c.boolSlice(0)...)) })
	vi("Or", func(c *CallCtx) []Out { return c.ret(MkOr(c.boolSlice(0)...)) })
	vi("Imp", func(c *CallCtx) []Out { return c.ret(MkOr(MkNot(c.term(0)), c.term(1))) })
	vi("Panics", func(c *CallCtx) []Out {
		var outs []Out
		for _, o := range c.ex.callVal(c.st, c.args[0], nil, c.site) {
			switch o.kind {
			case ORet:
				o.v = tFalse
				outs = append(outs, o)
			case OPanic:
				outs = append(outs, Out{kind: ORet, st: o.st, v: tTrue})
			default:
				outs = append(outs, o)
			}
		}
		if c.ex.merge && c.ex.depth > c.ex.mergeDepth {
			outs = c.ex.mergeRets(outs)
		}
		return outs
	})
	vi("Note", func(c *CallCtx) []Out { return c.ret(nil) })
	vi("Show", func(c *CallCtx) []Out {
		fmt.Println("SHOW", showVal(c.st, c.args[0], 0), "pc:", len(c.st.pc))
		for _, p := range c.st.pc {
			fmt.Println("   pc", p)
		}
		return c.ret(nil)
	})
}

func showVal(st *State, v Val, d int) string {
	if d > 4 {
		return "..."
	}
	switch x := v.(type) {
	case *Term:
		return x.String()
	case *Iface:
		return showVal(st, x.v, d)
	case *Ptr:
		if x.isNil() {
			return "nil"
		}
		return "&" + showVal(st, st.load(x), d+1)
	case *BigV:
		return "Big(" + x.t.String() + ")"
	case *Slice:
		var s []string
		for i := 0; i < x.ln; i++ {
			s = append(s, showVal(st, st.load(x.arr.sub(x.off+i)), d+1))
		}
		return fmt.Sprintf("[%d]{%s}", x.ln, strings.Join(s, ", "))
	case *Agg:
		var s []string
		for _, e := range x.els {
			s = append(s, showVal(st, e, d+1))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case *Str:
		if s, ok := concStr(x); ok {
			return s
		}
	}
	return fmt.Sprintf("%T", v)
}

// assert discharges pc => c.
func (ex *Exec) assert(st *State, c *Term, msg string) []Out {
	ex.res.asserts++
	o := ex.obl[msg]
	if o == nil {
		o = &Obl{Msg: msg}
		ex.obl[msg] = o
	}
	if c == tTrue {
		o.Trivial++
		o.Proved++
		return one(st, nil)
	}
	ex.checkDeadline()
	if nfWorth(c) && nfTrue(c) {
		o.Proved++
		return one(st, nil)
	}
	sw, m := sweep(c, st.pc, func() bool { ex.checkDeadline(); return false })
	if sw == tTrue {
		o.Proved++
		return one(st, nil)
	}
	r := Sat
	if m == nil {
		r, m = Check(append(append([]*Term{}, st.pc...), MkNot(c)), ex.assertMs)
	}
	switch r {
	case Unsat:
		o.Proved++
		return one(st, nil)
	case Sat:
		o.Failed++
		if debugDlog {
			memo := map[int]*big.Int{}
			fmt.Fprintln(os.Stderr, "MODEL asserts", c.str(14))
			for i, l := range append(append([]*Term{}, st.pc...), MkNot(c)) {
				if evalTerm(l, m, memo).Sign() == 0 {
					fmt.Fprintln(os.Stderr, "MODEL breaks", i, len(st.pc), l.str(12))
				}
			}
		}
		if o.Failed <= 4 {
			ex.res.cexs = append(ex.res.cexs, Cex{msg: msg, inputs: st.inputs, model: m, choices: st.choices})
		}
	default:
		o.Unknown++
		if debugDlog {
			fmt.Fprintln(os.Stderr, "UNKNOWN asserts", c.str(12))
		}
		// hand the path to the replayer as well: inputs from any model of the path
		if o.Unknown <= 2 {
			pm := m
			if pm == nil {
				_, pm = Check(st.pc, ex.feasMs)
			}
			if pm != nil {
				ex.res.cexs = append(ex.res.cexs, Cex{msg: msg + " (undecided)", inputs: st.inputs, model: pm, choices: st.choices, undecided: true})
			}
		}
	}
	if !ex.assume(st, c) {
		return []Out{{kind: OInfeasible, st: st}}
	}
	return one(st, nil)
}

// constants used by several models
func hexBig(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return n
}

func (c *CallCtx) boolSlice(i int) (out []*Term) {
	s, ok := c.args[i].(*Slice)
	if !ok || s.ln == 0 {
		return
	}
	a := c.st.load(s.arr).(*Agg)
	for _, v := range a.els[s.off : s.off+s.ln] {
		out = append(out, v.(*Term))
	}
	return
}
