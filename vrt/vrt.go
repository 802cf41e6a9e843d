// Package vrt is the harness runtime.  Under the symbolic interpreter every
// function here is an intrinsic; compiled natively it replays concrete vectors.
package vrt

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"os"
	"strconv"
	"time"
)

type skip struct{ why string }
type fail struct{ msg string }

var (
	vec    map[string]string // name -> hex (big-endian)
	used   map[string]string
	count  map[string]int
	rng    *mrand.Rand
	mutate bool
	fixed  map[string]bool
	origRd io.Reader
)

func uniq(name string) string {
	k := count[name]
	count[name] = k + 1
	if k == 0 {
		return name
	}
	return name + "#" + strconv.Itoa(k)
}

// raw returns n bytes for input name.
func raw(name string, n int, keep bool) []byte {
	nm := uniq(name)
	out := make([]byte, n)
	h, ok := vec[nm]
	if mutate && !keep && !fixed[nm] && (!ok || rng.Intn(3) != 0) {
		switch rng.Intn(5) {
		case 0: // keep, flip one bit
			b, _ := hex.DecodeString(h)
			place(out, b)
			if n > 0 && rng.Intn(2) == 0 {
				out[rng.Intn(n)] ^= 1 << uint(rng.Intn(8))
			}
		case 1: // small or huge
			for i := range out {
				out[i] = 0
			}
			if n > 0 {
				out[n-1] = byte(rng.Intn(4))
			}
			if rng.Intn(2) == 0 {
				for i := range out {
					out[i] ^= 0xff
				}
			}
		default:
			rng.Read(out)
			if n > 0 && rng.Intn(4) == 0 {
				out[0] = 0
			}
		}
	} else if ok {
		b, _ := hex.DecodeString(h)
		place(out, b)
	}
	used[nm] = hex.EncodeToString(out)
	return out
}

func place(out, b []byte) {
	if len(b) > len(out) {
		b = b[len(b)-len(out):]
	}
	copy(out[len(out)-len(b):], b)
}

func Bytes(name string, n int) []byte { b := raw(name, n, false); return b[:n:n] }

// BytesCap: length n, capacity c, the tail filled with arbitrary bytes too.
func BytesCap(name string, n, c int) []byte { return raw(name, c, false)[:n:c] }

func u(name string, n int, keep bool) uint64 {
	var r uint64
	for _, b := range raw(name, n, keep) {
		r = r<<8 | uint64(b)
	}
	return r
}
func U8(name string) uint8   { return uint8(u(name, 1, false)) }
func U16(name string) uint16 { return uint16(u(name, 2, false)) }
func U32(name string) uint32 { return uint32(u(name, 4, false)) }
func U64(name string) uint64 { return u(name, 8, false) }
func Bool(name string) bool  { return u(name, 1, false)&1 == 1 }

// I*: signed value in [lo,hi]; R*: unsigned value in [0,hi]
func I8(name string, lo, hi int64) int8 {
	return int8(irange(int64(int8(u(name, 1, false))), lo, hi))
}
func I16(name string, lo, hi int64) int16 {
	return int16(irange(int64(int16(u(name, 2, false))), lo, hi))
}
func I32(name string, lo, hi int64) int32 {
	return int32(irange(int64(int32(u(name, 4, false))), lo, hi))
}
func I64(name string, lo, hi int64) int64 { return irange(int64(u(name, 8, false)), lo, hi) }
func irange(v, lo, hi int64) int64 {
	if v >= lo && v <= hi {
		return v
	}
	span := uint64(hi-lo) + 1
	if span == 0 {
		return v
	}
	return lo + int64(uint64(v)%span)
}
func urange(v, hi uint64) uint64 {
	if v <= hi {
		return v
	}
	return v % (hi + 1)
}
func R8(name string, hi uint8) uint8     { return uint8(urange(u(name, 1, false), uint64(hi))) }
func R16(name string, hi uint16) uint16  { return uint16(urange(u(name, 2, false), uint64(hi))) }
func R32(name string, hi uint32) uint32  { return uint32(urange(u(name, 4, false), uint64(hi))) }
func R64(name string, hi uint64) uint64  { return urange(u(name, 8, false), hi) }

// Choose forks over 0..n-1.
func Choose(name string, n int) int { return int(u(name, 2, true)) % n }

func Scalar(name string, N *big.Int) *big.Int {
	b := raw(name, (N.BitLen()+7)/8, false)
	v := new(big.Int).SetBytes(b)
	return v.Mod(v, N)
}

// Unit is a non-zero element below the prime N.
func Unit(name string, N *big.Int) *big.Int {
	v := Scalar(name, N)
	if v.Sign() == 0 {
		v.SetInt64(1)
	}
	return v
}
func Num(name string, bits int) *big.Int {
	v := new(big.Int).SetBytes(raw(name, (bits+7)/8, false))
	return v.Mod(v, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
}

func Enc(x *big.Int, n int) []byte { out := make([]byte, n); x.FillBytes(out); return out }

// SquareWitness tells the square-root contract that the square of w is a square.
func SquareWitness(w *big.Int) {}

// PowMod is b^e mod m (symbolically: only with "use fepow").
func PowMod(b, e, m *big.Int) *big.Int { return new(big.Int).Exp(b, e, m) }
func EncLE(x *big.Int, n int) []byte {
	b := Enc(x, n)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

func Assume(c bool) {
	if !c {
		panic(skip{"assumption"})
	}
}
func Assert(c bool, msg string) {
	if !c {
		panic(fail{msg})
	}
}
func Cover(string)          {}
func Note(string)           {}
func Show(interface{})      {}
func Eq(a, b []byte) bool   { return bytes.Equal(a, b) }
func And(xs ...bool) bool {
	for _, x := range xs {
		if !x {
			return false
		}
	}
	return true
}
func Or(xs ...bool) bool {
	for _, x := range xs {
		if x {
			return true
		}
	}
	return false
}
func Imp(a, b bool) bool    { return !a || b }
func Symbolic() bool        { return false }

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case skip, fail:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// ---------------------------------------------------------------- replay driver
type Result struct {
	Kind   string // "ok", "fail", "panic", "skip", "timeout"
	Msg    string
	Vector map[string]string
	Tries  int
}

type randReader struct{}

func (randReader) Read(p []byte) (int, error) {
	copy(p, raw("rand", len(p), false))
	return len(p), nil
}

func runOnce(f func(), v map[string]string, limit time.Duration) (res Result) {
	vec, used, count = v, map[string]string{}, map[string]int{}
	done := make(chan Result, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case skip:
					done <- Result{Kind: "skip", Msg: x.why}
				case fail:
					done <- Result{Kind: "fail", Msg: x.msg}
				default:
					done <- Result{Kind: "panic", Msg: fmt.Sprint(r)}
				}
				return
			}
			done <- Result{Kind: "ok"}
		}()
		f()
	}()
	select {
	case res = <-done:
	case <-time.After(limit):
		res = Result{Kind: "timeout", Msg: "no result within the limit"}
	}
	res.Vector = map[string]string{}
	for k, x := range used {
		res.Vector[k] = x
	}
	return
}

// Replay runs one harness on the vector in VRT_VECTOR (a JSON file); with
// VRT_TRIES>0 it then also tries variants of it.
func Replay(harnesses map[string]func()) {
	name := os.Getenv("VRT_HARNESS")
	f := harnesses[name]
	if f == nil {
		fmt.Println("VRT-RESULT {\"Kind\":\"missing\"}")
		return
	}
	v := map[string]string{}
	if p := os.Getenv("VRT_VECTOR"); p != "" {
		b, err := os.ReadFile(p)
		if err == nil {
			json.Unmarshal(b, &v)
		}
	}
	origRd = rand.Reader
	rand.Reader = randReader{}
	defer func() { rand.Reader = origRd }()
	limit := 20 * time.Second
	if s, err := strconv.Atoi(os.Getenv("VRT_LIMIT")); err == nil {
		limit = time.Duration(s) * time.Second
	}
	res := runOnce(f, v, limit)
	tries, _ := strconv.Atoi(os.Getenv("VRT_TRIES"))
	budget := 15 * time.Second
	if s, err := strconv.Atoi(os.Getenv("VRT_BUDGET")); err == nil {
		budget = time.Duration(s) * time.Second
	}
	t0 := time.Now()
	rng = mrand.New(mrand.NewSource(1))
	n := 1
	for i := 0; i < tries && res.Kind != "fail" && res.Kind != "panic" && res.Kind != "timeout" && time.Since(t0) < budget; i++ {
		mutate = true
		res = runOnce(f, v, limit)
		n++
	}
	mutate = false
	res.Tries = n
	b, _ := json.Marshal(res)
	fmt.Println("VRT-RESULT " + string(b))
}
