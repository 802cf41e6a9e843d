package owcrypt

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"hash"

	"github.com/blocktree/go-owcrypt/blake256"
	"github.com/blocktree/go-owcrypt/blake2s"
	"github.com/blocktree/go-owcrypt/blake512"
	"github.com/blocktree/go-owcrypt/sha3"
	"github.com/blocktree/go-owcrypt/sm3"
	"github.com/blocktree/go-owcrypt/zzverif/vrt"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/md4"
	"golang.org/x/crypto/ripemd160"
)

func vhSum(h hash.Hash, parts ...[]byte) []byte {
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

type vhAlg struct {
	id   uint32
	size int
	ref  func(d []byte) []byte
}

func vhHashes() []vhAlg {
	return []vhAlg{
		{HASH_ALG_SHA1, 20, func(d []byte) []byte { return vhSum(sha1.New(), d) }},
		{HASH_ALG_SHA3_256, 32, func(d []byte) []byte { return vhSum(sha3.New256(), d) }},
		{HASH_ALG_SHA256, 32, func(d []byte) []byte { return vhSum(sha256.New(), d) }},
		{HASH_ALG_SHA512, 64, func(d []byte) []byte { return vhSum(sha512.New(), d) }},
		{HASH_ALG_MD4, 16, func(d []byte) []byte { return vhSum(md4.New(), d) }},
		{HASH_ALG_MD5, 16, func(d []byte) []byte { return vhSum(md5.New(), d) }},
		{HASH_ALG_RIPEMD160, 20, func(d []byte) []byte { return vhSum(ripemd160.New(), d) }},
		{HASH_ALG_SM3, 32, func(d []byte) []byte { return vhSum(sm3.New(), d) }},
		{HASH_ALG_DOUBLE_SHA256, 32, func(d []byte) []byte { return vhSum(sha256.New(), vhSum(sha256.New(), d)) }},
		{HASH_ALG_HASH160, 20, func(d []byte) []byte { return vhSum(ripemd160.New(), vhSum(sha256.New(), d)) }},
		{HASH_ALG_BLAKE256, 32, func(d []byte) []byte { return vhSum(blake256.New(), d) }},
		{HASH_ALG_BLAKE512, 64, func(d []byte) []byte { return vhSum(blake512.New(), d) }},
		{HASH_ALG_KECCAK256, 32, func(d []byte) []byte { return vhSum(sha3.NewKeccak256(), d) }},
		{HASH_ALG_KECCAK256_RIPEMD160, 20, func(d []byte) []byte { return vhSum(ripemd160.New(), vhSum(sha3.NewKeccak256(), d)) }},
		{HASH_ALG_SHA3_256_RIPEMD160, 20, func(d []byte) []byte { return vhSum(ripemd160.New(), vhSum(sha3.New256(), d)) }},
		{HASH_ALG_KECCAK512, 64, func(d []byte) []byte { return vhSum(sha3.NewKeccak512(), d) }},
		{HASH_ALG_SHA3_512, 64, func(d []byte) []byte { return vhSum(sha3.New512(), d) }},
	}
}

var vhDataLens = [...]int{0, 1, 20, 32, 64, 135, 136, 300}

// Every identifier computes the function it names, whatever length is asked for.
//
//vrt:prop H03
//vrt:use hash
//vrt:split alg 17
func VH_HashNamed() {
	a := vhHashes()[vrt.Choose("alg", 17)]
	d := vrt.Bytes("d", vhDataLens[vrt.Choose("len", len(vhDataLens))])
	out := Hash(d, vrt.U16("digestLen"), a.id)
	vrt.Assert(vrt.And(out != nil, len(out) == a.size), "nominal length")
	vrt.Assert(vrt.Eq(out, a.ref(d)), "the digest of the named function")
}

// The BLAKE2 identifiers give exactly the requested length or nothing.
//
//vrt:prop H03,G02
//vrt:use hash
//vrt:split alg 2
func VH_HashBlake2() {
	d := vrt.Bytes("d", vhDataLens[vrt.Choose("len", len(vhDataLens))])
	n := vrt.U16("digestLen")
	if vrt.Choose("alg", 2) == 0 {
		out := Hash(d, n, HASH_ALG_BLAKE2B)
		if n == 0 || n > 64 {
			vrt.Assert(out == nil, "BLAKE2b gives 1 to 64 bytes")
			return
		}
		vrt.Assert(vrt.And(out != nil, len(out) == int(n)), "requested length")
		h, _ := blake2b.New(int(n), nil)
		vrt.Assert(vrt.Eq(out, vhSum(h, d)), "BLAKE2b of the requested length")
		return
	}
	out := Hash(d, n, HASH_ALG_BLAKE2S)
	if n > 32 {
		vrt.Assert(out == nil, "BLAKE2s gives 1 to 32 bytes")
		return
	}
	w := uint8(n)
	if n == 0 {
		w = 32 // not given: the nominal length
	}
	vrt.Assert(vrt.And(out != nil, len(out) == int(w)), "requested length")
	vrt.Assert(vrt.Eq(out, vhSum(blake2s.NewMAC(w, nil), d)), "BLAKE2s of the requested length")
}

// Any other identifier gives nothing.
//
//vrt:prop H03,G03
//vrt:use hash
func VH_HashUnknown() {
	id := vrt.U32("id")
	for _, a := range vhHashes() {
		vrt.Assume(id != a.id)
	}
	vrt.Assume(vrt.And(id != HASH_ALG_BLAKE2B, id != HASH_ALG_BLAKE2S))
	d := vrt.Bytes("d", 3)
	vrt.Assert(Hash(d, vrt.U16("n"), id) == nil, "unknown hash identifiers give nothing")
	mac := vrt.U32("mac")
	vrt.Assume(vrt.And(mac != HMAC_SHA256_ALG, mac != HMAC_SHA512_ALG, mac != HMAC_SM3_ALG))
	vrt.Assert(Hmac(d, d, mac) == nil, "unknown HMAC identifiers give nothing")
}

// HMAC: H(K^opad || H(K^ipad || data)), long keys hashed first.
//
//vrt:prop H03
//vrt:use hash
//vrt:split alg 3
func VH_HmacNamed() {
	lens := [...]int{0, 1, 32, 63, 64, 65, 127, 128, 129, 200}
	id, blk := uint32(HMAC_SHA256_ALG), 64
	mk := func() hash.Hash { return sha256.New() }
	switch vrt.Choose("alg", 3) {
	case 1:
		id, blk = HMAC_SHA512_ALG, 128
		mk = func() hash.Hash { return sha512.New() }
	case 2:
		id = HMAC_SM3_ALG
		mk = func() hash.Hash { return sm3.New() }
	}
	key := vrt.Bytes("key", lens[vrt.Choose("keylen", len(lens))])
	d := vrt.Bytes("d", vhDataLens[vrt.Choose("len", len(vhDataLens))])
	k := make([]byte, blk)
	if len(key) > blk {
		copy(k, vhSum(mk(), key))
	} else {
		copy(k, key)
	}
	ip, op := make([]byte, blk), make([]byte, blk)
	for i := range k {
		ip[i], op[i] = k[i]^0x36, k[i]^0x5c
	}
	out := Hmac(key, d, id)
	vrt.Assert(out != nil, "a result")
	vrt.Assert(vrt.Eq(out, vhSum(mk(), op, vhSum(mk(), ip, d))), "HMAC of the named hash")
}
