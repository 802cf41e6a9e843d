package main

// Compression functions as uninterpreted functions of chaining value, counters
// and block (their contents are the subject of H02).

import (
	"go/types"
)

// field locates a named field of the struct behind a pointer parameter.
func (c *CallCtx) field(i int, name string) *Ptr {
	p, ok := c.args[i].(*Ptr)
	if !ok || p.isNil() {
		panic(unsup("compression state"))
	}
	t := c.fn.Signature.Params()
	var ty types.Type
	if r := c.fn.Signature.Recv(); r != nil {
		ty = r.Type()
	} else {
		ty = t.At(i).Type()
	}
	st, ok := ty.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		panic(unsup("compression state"))
	}
	for k := 0; k < st.NumFields(); k++ {
		if st.Field(k).Name() == name {
			return &Ptr{p.obj, append(append([]PEl{}, p.path...), PEl{i: k})}
		}
	}
	panic(unsup("no field %s", name))
}

func (c *CallCtx) words(p *Ptr) []*Term {
	switch v := c.st.load(p).(type) {
	case *Term:
		return []*Term{v}
	case *Agg:
		out := make([]*Term, len(v.els))
		for i, e := range v.els {
			out[i] = e.(*Term)
		}
		return out
	}
	panic(unsup("compression words"))
}

func setWords(st *State, p *Ptr, w []*Term) {
	a := &Agg{make([]Val, len(w))}
	for i, t := range w {
		a.els[i] = t
	}
	st.store(p, a)
}

func compUF(name string, n, w int, parts ...[]*Term) []*Term {
	var args []*Term
	for _, p := range parts {
		args = append(args, MkConcat(p...))
	}
	r := MkUF(name, BVS(n*w), args...)
	out := make([]*Term, n)
	for i := range out {
		out[i] = MkExtract(r, w*(i+1)-1, w*i)
	}
	return out
}

func initCompress() {
	r := repoPath
	blake := func(name string, w int, inc uint64) {
		addGroup("comp", r+"/"+name+".block", func(c *CallCtx) []Out {
			p := c.bytes(1)
			h, s := c.words(c.field(0, "h")), c.words(c.field(0, "s"))
			t := c.words(c.field(0, "t"))[0]
			nullt := c.words(c.field(0, "nullt"))[0]
			for len(p) >= 2*w {
				t = MkAdd(t, MkBV(inc, 64))
				eff := MkIte(nullt, MkBV(0, 64), t)
				h = compUF(name, 8, w, h, s, []*Term{eff}, p[:2*w])
				p = p[2*w:]
			}
			setWords(c.st, c.field(0, "h"), h)
			c.st.store(c.field(0, "t"), t)
			return c.ret(&Tuple{})
		})
	}
	blake("blake256", 32, 512)
	blake("blake512", 64, 1024)
	addGroup("comp", r+"/blake2s.blocks", func(c *CallCtx) []Out {
		p := c.bytes(1)
		h, t, f := c.words(c.field(0, "h")), c.words(c.field(0, "t")), c.words(c.field(0, "f"))
		for len(p) >= 64 {
			x := MkAdd(MkConcat(t[1], t[0]), MkBV(64, 64))
			t = []*Term{MkExtract(x, 31, 0), MkExtract(x, 63, 32)}
			h = compUF("blake2s", 8, 32, h, t, f, p[:64])
			p = p[64:]
		}
		setWords(c.st, c.field(0, "h"), h)
		setWords(c.st, c.field(0, "t"), t)
		return c.ret(&Tuple{})
	})
	addGroup("comp", "(*"+r+"/sm3.SM3).update", func(c *CallCtx) []Out {
		p := c.bytes(1)
		h := c.words(c.field(0, "digest"))
		for len(p) >= 64 {
			h = compUF("sm3", 8, 32, h, p[:64])
			p = p[64:]
		}
		setWords(c.st, c.field(0, "digest"), h)
		return c.ret(&Tuple{})
	})
	addGroup("comp", r+"/sha3.keccakF1600", func(c *CallCtx) []Out {
		p := c.args[0].(*Ptr)
		setWords(c.st, p, compUF("keccakf", 25, 64, c.words(p)))
		return c.ret(&Tuple{})
	})
}
