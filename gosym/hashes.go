package main

// Hash functions as uninterpreted functions of their input bytes (with exact
// values on constants for the standard library's own).

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/big"
)

type hashAlg struct {
	name      string
	size, blk int
	native    func(b []byte) []byte
}

var hashAlgs = map[string]*hashAlg{}

func constBytes(b []*Term) ([]byte, bool) {
	o := make([]byte, len(b))
	for i, t := range b {
		if !t.IsConst() {
			return nil, false
		}
		o[i] = byte(t.u)
	}
	return o, true
}

func constTerms(b []byte) []*Term {
	o := make([]*Term, len(b))
	for i := range b {
		o[i] = MkBV(uint64(b[i]), 8)
	}
	return o
}

// ufBytes: n-byte result of an uninterpreted function over byte strings
func ufBytes(name string, n int, parts ...[]*Term) []*Term {
	var args []*Term
	for _, p := range parts {
		name += fmt.Sprintf(".%d", len(p))
		if len(p) > 0 {
			args = append(args, MkConcat(p...))
		}
	}
	if len(args) == 0 {
		args = append(args, MkBV(0, 1))
	}
	w := MkUF(name, BVS(8*n), args...)
	out := make([]*Term, n)
	for i := range out {
		hi := 8*(n-i) - 1
		out[i] = MkExtract(w, hi, hi-7)
	}
	return out
}

func (h *HashV) digest() []*Term {
	if len(h.pre) > 0 {
		n := h.name + ".lz"
		if h.mac {
			n = "hmac_" + n
		}
		return ufBytes(n, h.size, append(append([][]*Term{h.key}, h.pre...), h.data)...)
	}
	if h.mac {
		// H(K ^ opad || H(K ^ ipad || data))
		key := h.key
		if len(key) > h.blk {
			key = (&HashV{name: h.name, size: h.size, blk: h.blk, data: key}).digest()
		}
		pad := func(b uint64) []*Term {
			o := make([]*Term, h.blk)
			for i := range o {
				o[i] = MkBV(b, 8)
				if i < len(key) {
					o[i] = MkXor(key[i], o[i])
				}
			}
			return o
		}
		in := (&HashV{name: h.name, size: h.size, blk: h.blk, data: append(pad(0x36), h.data...)}).digest()
		return (&HashV{name: h.name, size: h.size, blk: h.blk, data: append(pad(0x5c), in...)}).digest()
	}
	if a := hashAlgs[h.name]; a != nil && a.native != nil {
		if b, ok := constBytes(h.data); ok {
			return constTerms(a.native(b))
		}
	}
	return ufBytes(h.name, h.size, h.data)
}

func appendBytes(c *CallCtx, s *Slice, b []*Term) *Slice {
	n := s.ln + len(b)
	if n <= s.cp && s.arr != nil {
		a := c.st.load(s.arr).(*Agg)
		na := &Agg{append([]Val{}, a.els...)}
		for i, t := range b {
			na.els[s.off+s.ln+i] = t
		}
		c.st.store(s.arr, na)
		return &Slice{s.arr, s.off, n, s.cp}
	}
	var all []*Term
	if s.ln > 0 {
		all = append(all, c.ex.bytesOf(c.st, s)...)
	}
	all = append(all, b...)
	return c.ex.newBytesCap(c.st, all, growCap(s.cp, n, 1))
}

var hashModel *modelType

func newHash(c *CallCtx, h *HashV) Val {
	return &Iface{hashModel, c.st.alloc(h)}
}

func initHashes() {
	hashModel = &modelType{name: "hash", invoke: func(c *CallCtx, recv Val, m string) []Out {
		p := recv.(*Ptr)
		h := c.st.load(p).(*HashV)
		switch m {
		case "Write":
			n := *h
			if lz, ok := c.args[0].(*LazyBytes); ok {
				n.pre = append(append([][]*Term{}, h.pre...), h.data, beBytes(lz.t, lz.full))
				n.data = nil
				c.st.store(p, &n)
				return c.ret(&Tuple{[]Val{MkVar(freshName(c.st, "nwritten"), BVS(64)), nilIface}})
			}
			b := c.bytes(0)
			n.data = append(append([]*Term{}, h.data...), b...)
			c.st.store(p, &n)
			return c.ret(&Tuple{[]Val{MkBV(uint64(len(b)), 64), nilIface}})
		case "Sum":
			return c.ret(appendBytes(c, c.args[0].(*Slice), h.digest()))
		case "Reset":
			n := *h
			n.data, n.pre = nil, nil
			c.st.store(p, &n)
			return c.ret(nil)
		case "Size":
			return c.ret(MkBV(uint64(h.size), 64))
		case "BlockSize":
			return c.ret(MkBV(uint64(h.blk), 64))
		}
		panic(unsup("hash method %s", m))
	}}
	reg := func(name string, size, blk int, native func([]byte) []byte) {
		hashAlgs[name] = &hashAlg{name, size, blk, native}
	}
	reg("sha256", 32, 64, func(b []byte) []byte { x := sha256.Sum256(b); return x[:] })
	reg("sha512", 64, 128, func(b []byte) []byte { x := sha512.Sum512(b); return x[:] })
	reg("sha1", 20, 64, func(b []byte) []byte { x := sha1.Sum(b); return x[:] })
	reg("md5", 16, 64, func(b []byte) []byte { x := md5.Sum(b); return x[:] })
	reg("ripemd160", 20, 64, nil)
	reg("md4", 16, 64, nil)
	reg("sm3", 32, 64, nil)
	reg("keccak256", 32, 136, nil)
	reg("keccak512", 64, 72, nil)
	reg("sha3_256", 32, 136, nil)
	reg("sha3_512", 64, 72, nil)
	reg("blake256", 32, 64, nil)
	reg("blake512", 64, 128, nil)
	reg("blake2b", 64, 128, nil)
	reg("blake2s", 32, 64, nil)
	ctor := func(fn, name string, contract bool) {
		f := func(c *CallCtx) []Out {
			a := hashAlgs[name]
			return c.ret(newHash(c, &HashV{name: name, size: a.size, blk: a.blk}))
		}
		if contract {
			addContract(fn, f)
		} else {
			addIntr(fn, f)
		}
	}
	ctor("crypto/sha256.New", "sha256", false)
	ctor("crypto/sha512.New", "sha512", false)
	ctor("crypto/sha1.New", "sha1", false)
	ctor("crypto/md5.New", "md5", false)
	ctor("golang.org/x/crypto/ripemd160.New", "ripemd160", false)
	ctor("golang.org/x/crypto/md4.New", "md4", false)
	ctor(repoPath+"/sm3.New", "sm3", true)
	addContract(repoPath+"/sm3.Sm3Sum", func(c *CallCtx) []Out {
		h := &HashV{name: "sm3", size: 32, blk: 64, data: c.bytes(0)}
		return c.ret(c.ex.newBytes(c.st, h.digest()))
	})
	ctor(repoPath+"/blake256.New", "blake256", true)
	ctor(repoPath+"/blake512.New", "blake512", true)
	ctor(repoPath+"/sha3.NewKeccak256", "keccak256", true)
	ctor(repoPath+"/sha3.NewKeccak512", "keccak512", true)
	ctor(repoPath+"/sha3.New256", "sha3_256", true)
	ctor(repoPath+"/sha3.New512", "sha3_512", true)
	addContract(repoPath+"/blake2s.NewMAC", func(c *CallCtx) []Out {
		n, key := c.term(0), c.bytes(1)
		if len(key) != 0 {
			panic(unsup("keyed blake2s model"))
		}
		return c.ex.concretize(c.st, n, 300, func(st *State, v uint64) []Out {
			if v > 32 {
				return []Out{{kind: OPanic, st: st, msg: "blake2s.NewMAC: size"}}
			}
			if v == 0 {
				v = 32
			}
			cc := &CallCtx{ex: c.ex, st: st}
			return one(st, newHash(cc, &HashV{name: fmt.Sprintf("blake2s/%d", v), size: int(v), blk: 64}))
		})
	})
	addIntr("golang.org/x/crypto/blake2b.New", func(c *CallCtx) []Out {
		n, key := c.term(0), c.bytes(1)
		if len(key) != 0 {
			panic(unsup("keyed blake2b model"))
		}
		ok := MkAnd(MkNot(MkSlt(n, MkBV(1, 64))), MkNot(MkSlt(MkBV(64, 64), n)))
		a, b := c.ex.branch(c.st, ok)
		outs := []Out{}
		if a != nil {
			outs = append(outs, c.ex.concretize(a, n, 70, func(st *State, v uint64) []Out {
				cc := &CallCtx{ex: c.ex, st: st}
				return one(st, &Tuple{[]Val{newHash(cc, &HashV{name: fmt.Sprintf("blake2b/%d", v), size: int(v), blk: 128}), nilIface}})
			})...)
		}
		if b != nil {
			outs = append(outs, Out{kind: ORet, st: b, v: &Tuple{[]Val{nilIface, &Iface{errModel, &opaqueV{"blake2b"}}}}})
		}
		return outs
	})
	sum := func(fn, name string, full int) {
		addIntr(fn, func(c *CallCtx) []Out {
			a := hashAlgs[name]
			h := &HashV{name: name, size: a.size, blk: a.blk, data: c.bytes(0)}
			d := h.digest()
			r := &Agg{make([]Val, len(d))}
			for i := range d {
				r.els[i] = d[i]
			}
			return c.ret(r)
		})
	}
	sum("crypto/sha256.Sum256", "sha256", 32)
	sum("crypto/sha512.Sum512", "sha512", 64)
	sum("crypto/sha1.Sum", "sha1", 20)
	sum("crypto/md5.Sum", "md5", 16)
	addIntr("crypto/hmac.New", func(c *CallCtx) []Out {
		key := c.bytes(1)
		var outs []Out
		for _, o := range c.ex.callVal(c.st, c.args[0], nil, c.site) {
			if o.kind != ORet {
				outs = append(outs, o)
				continue
			}
			i, ok := o.v.(*Iface)
			if !ok || i.typ != hashModel {
				panic(unsup("hmac over an unmodelled hash"))
			}
			h := o.st.load(i.v.(*Ptr)).(*HashV)
			n := *h
			n.mac, n.key = true, key
			outs = append(outs, Out{kind: ORet, st: o.st, v: newHash(&CallCtx{ex: c.ex, st: o.st}, &n)})
		}
		return outs
	})
	// reference digests for harnesses: vrt.UF(name, size, data) -> bytes
	vi("UF", func(c *CallCtx) []Out {
		name, _ := concStr(c.args[0])
		n := c.constInt(1)
		var parts [][]*Term
		for i := 2; i < len(c.args); i++ {
			parts = append(parts, c.bytes(i))
		}
		return c.ret(c.ex.newBytes(c.st, ufBytes(name, n, parts...)))
	})
	// AES-CTR keystream: opaque
	addIntr("crypto/aes.NewCipher", func(c *CallCtx) []Out {
		return c.ret(&Tuple{[]Val{&Iface{opaqueModel, &opaqueV{"aes"}}, nilIface}})
	})
	addIntr("crypto/cipher.NewCTR", func(c *CallCtx) []Out {
		return c.ret(&Iface{opaqueModel, &opaqueV{"ctr"}})
	})
}

var opaqueModel = &modelType{name: "opaque", invoke: func(c *CallCtx, recv Val, m string) []Out {
	panic(unsup("method %s of an opaque library object", m))
}}

var _ = big.NewInt
