#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl.
import json
P=[]
def p(id,title,stmt,quant,why,files,mech,over=("inputs",)):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=list(over),text=quant),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p("E01","Public keys are exactly d*G and only valid private keys are accepted",
 "For secp256k1, secp256r1 and SM2, deriving a public key (and multiplying the base point) succeeds exactly for 32-byte big-endian scalars from 1 to the group order minus 1, and returns the 64-byte affine point d*G (or its compressed form); every other scalar is refused with an error code and no key. Signing, decrypting and key agreement refuse the same out-of-range private keys.",
 "every 32-byte scalar, every other length, each of the three curves",
 "Tests derive keys from a few fixed or random scalars; boundary scalars and scalars whose coordinates have leading zero bytes are never drawn.",
 ["ecdsa.go","eccset.go"],[("private-key range check and coordinate padding","ecdsa.go genPublicKey, sign"),("dispatch and error codes","eccset.go GenPubkey, Point_mulBaseG")])
p("E02","ECDSA signatures verify, are low-S and carry a correct recovery bit",
 "For secp256k1 and secp256r1, signing any 32-byte digest with any valid private key produces 64 bytes r||s that the matching public key verifies, with s in the lower half of the order and r and s in range. The recovery id returned with it is 0 or 1 and is the parity that identifies the ephemeral point belonging to that signature.",
 "every valid private key, digest, entropy and nonce-stream content (bounded number of nonce rejections)",
 "Random round trips never hit short encodings of r or s, the low-S boundary, or nonce rejection.",
 ["utils.go","ecdsa.go"],[("nonce loop, low-S flip, recovery id","utils.go signGeneric"),("byte assembly","ecdsa.go sign")])
p("E03","ECDSA verification accepts exactly the valid signatures",
 "For secp256k1 and secp256r1, verification succeeds exactly when the public key is a point of the curve other than infinity, r and s are in [1, order-1], and the x-coordinate of (e/s)G + (r/s)Q reduced modulo the order equals r. Anything else, including wrong lengths and points off the curve, is reported as a failed verification.",
 "every public key, digest and 64-byte signature; every wrong length",
 "A forgery accepted because of a missing range, infinity or curve check shows up only for crafted values that tests do not contain.",
 ["utils.go","ecdsa.go","eccset.go"],[("verification equation","utils.go verifyesdsa, verifyGeneric"),("parsing","ecdsa.go verify")])
p("E04","Public-key recovery returns the signer's key",
 "For secp256k1 and secp256r1, recovering from a signature this library made, its recovery id and the digest yields the signer's uncompressed public key. Whatever recovery returns for any input is a curve point other than infinity under which the given signature verifies, and inputs with no such key are refused.",
 "every key, digest and nonce; every 65-byte signature string and digest",
 "Round trips with random keys cannot reach degenerate signatures (r or s zero, r not an x-coordinate, result infinity).",
 ["secp256k1.go","secp256r1.go","sm2_std.go","eccset.go"],[("recovery equation","secp256k1.go secp256k1_recover_public; secp256r1.go secp256r1_recover_public")])
p("E05","SM2 signatures verify and verification is exact",
 "Signing any 32-byte digest with any valid SM2 private key produces a 64-byte signature that the matching public key and the same identity verify. Verification succeeds exactly when r and s are in [1, order-1], r+s is not zero modulo the order, the key is a curve point, and (e + x(sG+(r+s)Q)) mod order equals r with e bound to the identity, curve parameters and public key as the SM2 standard prescribes.",
 "every valid key, identity (bounded length), digest, nonce; every candidate signature and public key",
 "Boundary scalars and encodings (r, s or coordinates with leading zeros) occur with negligible probability in random tests.",
 ["sm2_std.go","ecdsa.go"],[("signing and verification","sm2_std.go sm2_std_sign, sm2_std_verify"),("identity hash","sm2_std.go sm2_std_ZA, sm2_std_msgHash")])
p("E06","SM2 encryption round-trips and tampering is rejected",
 "Decrypting what was encrypted to the matching public key returns the plaintext, for any plaintext of one or more bytes. Any ciphertext that is too short, has a malformed or off-curve point, or whose integrity hash does not match is rejected with an error code and no plaintext.",
 "every key pair, nonce and plaintext up to the length bound; every ciphertext up to the length bound",
 "Tests decrypt only honestly produced ciphertexts; the error path is never exercised.",
 ["sm2_std.go","ecdsa.go","eccset.go"],[("encrypt/decrypt and kdf","sm2_std.go sm2_std_encrypt, sm2_std_decrypt, sm2_std_kdf"),("error mapping","eccset.go Encryption, Decryption")])
p("E07","SM2 key agreement gives both sides the same key or an error",
 "When both parties run the SM2 key exchange honestly they derive the same key of the requested length and both confirmation values check. If a confirmation value differs, a peer key is malformed, or a length is wrong, the step fails with an error code and releases no key.",
 "every pair of long-term and ephemeral keys, identities and key lengths within the bounds; every malformed input length",
 "One fixed exchange is tested; mismatched confirmations, odd key lengths and malformed inputs are not.",
 ["sm2_std.go","eccset.go"],[("key exchange steps","sm2_std.go sm2_std_ka_initiator_step2, sm2_std_ka_responder_step1, sm2_std_ka_responder_step2")])
p("E08","Prime-curve point arithmetic is the elliptic-curve group law",
 "Point addition, doubling, negation cases, scalar multiplication and base multiplication on secp256k1, secp256r1 and SM2 compute the group law for every pair of points, including equal points, opposite points, points with a zero coordinate and the point at infinity. The public point operations report infinity exactly when the result is infinity.",
 "every pair of affine points and every scalar (loop bounds stated per check)",
 "Exceptional cases (P+P through the addition path, P-P, infinity inputs, zero x-coordinate) have negligible probability under random testing.",
 ["secp256k1.go","sm2_std.go","secp256r1.go","ecdsa.go"],[("Jacobian formulas","secp256k1.go addJacobian/doubleJacobian; sm2_std.go point functions"),("infinity reporting","ecdsa.go MulBaseG_Add, Add, Mul")])
p("E09","Point compression round-trips and decompression only yields curve points",
 "Compressing a point and decompressing the result returns the same point, for every curve that offers it. Decompression returns either the unique curve point with the given x-coordinate and parity, or nothing, for any 33-byte input, including x-coordinates that are not on the curve or not reduced.",
 "every 33-byte string and every affine point, for secp256k1, secp256r1, SM2 and Pasta",
 "Half of all x-coordinates are not on the curve, and tests only decompress valid ones.",
 ["secp256k1.go","secp256r1.go","sm2_std.go","pasta/crypto.go","eccset.go"],[("decompression","secp256k1_decompress, secp256r1_decompress, sm2_std_decompress, pasta.Decompress")])
p("D01","Ed25519 sign and verify follow RFC 8032",
 "Standard Ed25519 key derivation and signing produce exactly the RFC 8032 public key and signature for every 32-byte seed and message, and the signature verifies. Verification accepts exactly when the key decodes to a curve point, S is below the group order and the encoded R equals S*B - h*A.",
 "every seed, message up to the length bound, public key and 64-byte signature",
 "Fixed vectors do not reach non-canonical S, undecodable keys or wrong lengths.",
 ["eddsa/curve25519.go"],[("sign/verify","eddsa/curve25519.go CURVE25519_genPub, CURVE25519_sign, CURVE25519_verify")])
p("D02","Raw-scalar Ed25519 keys sign, verify and add consistently",
 "For the raw-scalar Ed25519 mode, the public key is scalar*B for every 32-byte little-endian scalar below the group order, a signature made with a private key verifies under its public key, and adding a base multiple to a point gives the sum. Inputs that are not points or have the wrong length are refused, and infinity is reported exactly when the sum is the identity.",
 "every scalar and message up to the length bound, every pair of 32-byte point encodings",
 "Tests use clamped random keys and valid points only.",
 ["eddsa/ed25519.go","eccset.go"],[("raw scalar signing","eddsa/ed25519.go ED25519_sign, ED25519_verify"),("point operations","eddsa/ed25519.go ScalarMultBaseAdd, Point_add")])
p("D03","X25519 keys sign and convert consistently with Ed25519",
 "For the X25519 signature mode, a signature made with any 32-byte private key verifies under its public key, and a signature with another message, key or a scalar part out of range is refused. Converting between the Edwards and Montgomery forms of a public key follows the birational map and round-trips up to sign, and inputs with no image are refused.",
 "every private key, randomness and message up to the length bound; every 32-byte encoding",
 "Random keys never hit non-canonical encodings, the sign bit, or the exceptional points.",
 ["eddsa/x25519.go","eddsa/convert.go"],[("XEdDSA style signing","eddsa/x25519.go sign_modify, verify_modify"),("conversion","eddsa/convert.go ConvertXToEd, ConvertEdToX")])
p("D04","Edwards25519 field, scalar and group arithmetic is exact",
 "Addition, subtraction, multiplication, squaring, inversion, encoding and decoding of field elements modulo 2^255-19 give the exact field result for every operand in the documented limb ranges, and leave results in range. Scalar reduction and multiply-add are exact modulo the group order; point addition, doubling, decoding and scalar multiplication compute the curve group law.",
 "every limb vector within the documented bounds; every scalar; every pair of points",
 "Carry chains fail only for limb patterns that random inputs hit with probability around 2^-26 or less.",
 ["eddsa/edwards25519/edwards25519.go"],[("limb arithmetic","eddsa/edwards25519 FeMul, FeSquare, FeToBytes, ScMulAdd, ScReduce")])
p("D05","Curve25519-SHA256 signatures verify and forgeries are refused",
 "For the Curve25519-SHA256 mode, a signature made with any 32-byte private key on any accepted message verifies under its public key. Verification recomputes the commitment from exactly the signature, message and key it was given and refuses wrong lengths, non-canonical signature scalars and any altered input.",
 "every private key and message up to the length bound; every candidate signature",
 "The multi-precision helpers have data-dependent carries and sign cases which random vectors hit rarely.",
 ["eddsa/curve25519_sha256.go"],[("sign/verify","eddsa/curve25519_sha256.go CURVE25519_sha256_sign, CURVE25519_sha256_verify")])
p("P01","Pasta field and scalar arithmetic is exact and canonical",
 "Addition, subtraction, negation, doubling, Montgomery multiplication and squaring, conversion, inversion and encoding in both Pasta fields return the exact canonical residue for every pair of canonical operands.",
 "every pair of canonical field elements (all 2^254 values each)",
 "Generated carry chains fail only on rare limb patterns.",
 ["pasta/pasta_fp.go","pasta/pasta_fq.go","pasta/crypto.go"],[("Montgomery arithmetic","pasta/pasta_fp.go, pasta/pasta_fq.go"),("wrappers","pasta/crypto.go")])
p("P02","Mina signatures verify and verification is exact",
 "Signing any well-formed message with any valid private key produces a 64-byte signature that the matching public key verifies, and the message hash binds key, nonce point and message. Verification succeeds exactly when the key is on the curve, both halves are canonical and R = sG - eQ has an even y-coordinate and x-coordinate equal to r.",
 "every private key and message of the supported format; every candidate signature and key",
 "Only fixed examples are tested.",
 ["pasta/pasta.go","pasta/mina.go"],[("sign/verify","pasta/pasta.go Sign, Verify"),("message hash","pasta/mina.go MessageHash")])
p("P03","Pasta curve point arithmetic is the group law",
 "Addition, doubling, negation and scalar multiplication of Pasta points compute the group law for every pair of points, including equal, opposite and infinite ones, whatever coordinates represent them. Public point operations accept the documented encodings of curve points, refuse everything else and never return a point off the curve.",
 "every pair of points and representations, every scalar, every encoding",
 "Equal or opposite points in different representations do not occur in random tests.",
 ["pasta/crypto.go","pasta/pasta.go"],[("Jacobian formulas","pasta/crypto.go GroupAdd, GroupDbl, GroupScalarMul"),("encodings","pasta/pasta.go PointAdd, PointMul, PointMulBaseGAdd")])
p("P04","Poseidon hashing absorbs every field element exactly once",
 "The Poseidon hash equals the sponge over the specified round function: every input element is absorbed at the right position, full blocks trigger exactly one permutation, and the permutation applies the round constants, S-box and MDS matrix in the specified order for all rounds.",
 "every input vector up to the length bound, every state",
 "Vectors fix a few inputs; block-boundary behaviour at other lengths is not covered.",
 ["pasta/poseidon.go","pasta/poseidon_3w.go"],[("sponge","pasta/poseidon.go")])
p("B01","BLS signatures verify, aggregate and are domain separated",
 "For both BLS12-381 modes a signature made with a valid private key verifies under its public key, verification of any other combination follows the pairing equation over the domain-separated message, and an aggregate of signatures is their sum. The message-augmentation mode binds the public key and no call alters memory belonging to the caller.",
 "every private key, message up to the length bound and buffer capacity; every public key and signature string",
 "Aliasing and malformed encodings do not occur in the round-trip tests.",
 ["eccset.go","bls12_381/bls12-381.go"],[("domain separation and augmentation","eccset.go Signature, Verify"),("wrapper","bls12_381/bls12-381.go")])
p("B02","BLS12-381 group wrappers decode strictly and add correctly",
 "Public-key derivation accepts exactly scalars from 1 to the order minus 1 and yields the compressed multiple of the generator; adding a base multiple to a point yields the compressed sum and reports infinity exactly when the sum is infinity. Byte strings that do not decode to a group element are refused with an error and never crash the caller.",
 "every scalar and every 48- or 96-byte string",
 "Tests only use valid encodings.",
 ["bls12_381/bls12-381.go","bls12_381/g1.go","bls12_381/g2.go","bls12_381/scalar.go"],[("scalar check and encodings","bls12_381/bls12-381.go")])
p("H01","Streaming hashes depend only on the concatenated input",
 "For every hash implemented here, splitting a message over any sequence of writes gives the digest of the whole message, reading a digest appends to the given buffer without changing the running state, and reset restores the initial state. Lengths and padding are correct at every block boundary.",
 "every message up to the bound, every way of splitting it into writes, every position of an intermediate digest",
 "Splits around block and padding boundaries form a large space of histories that the vectors do not sample.",
 ["sm3/sm3.go","blake256/blake256.go","blake512/blake512.go","blake2s/blake2s.go","sha3/sha3.go"],[("buffering and padding","Write/Sum/Reset of each package")],("inputs","histories"))
p("H02","Hash functions compute the standard algorithms",
 "SM3, BLAKE-256, BLAKE-512, BLAKE2s and the Keccak/SHA-3 family compute the published compression function or permutation for every block and chaining value, and absorb and squeeze according to the standard.",
 "every chaining value and message block (per round or whole function as stated), every counter value",
 "A few published vectors do not exercise carries of the bit counters, salts, finalisation flags or the per-round schedule on all words.",
 ["sm3/sm3.go","blake256/blake256block.go","blake512/blake512block.go","blake2s/block.go","sha3/keccakf.go"],[("compression functions","sm3 update; blake256/blake512 block; blake2s block; sha3 keccakF1600")])
p("H03","Hash and HMAC selection, length and composition are as named",
 "For each algorithm identifier the digest equals that algorithm's digest of the data and has exactly its nominal or requested length; composed identifiers apply the named functions in the named order, and unknown identifiers or unsupported lengths give nothing. HMAC follows the HMAC construction over the selected hash for every key length.",
 "every identifier, requested length, and data and key up to the length bounds",
 "Unsupported requested lengths and long keys are untested.",
 ["hashset.go"],[("dispatch","hashset.go Hash, Hmac")])
p("G01","No operation modifies its inputs",
 "No public operation changes the contents of any byte slice passed to it, including bytes between the slice's length and its capacity, and results do not alias inputs in a way that lets later calls change them.",
 "every public operation, every input content and spare capacity within the bounds",
 "Unit tests pass fresh literals and do not look at the inputs or their spare capacity afterwards.",
 ["eccset.go","ecdsa.go","eddsa/curve25519_sha256.go","eddsa/ed25519.go","pasta/pasta.go"],[("appends on caller slices","eccset.go Signature, Verify"),("in-place clamping and reversal","eddsa, pasta")])
p("G02","Malformed input gives an error code, never a crash",
 "Every public operation returns normally for any byte strings whatever: a wrong length, nil slice, undecodable point or out-of-range value yields the documented error result, and a success code is returned exactly when a result is returned.",
 "every public operation, every argument length within the bounds (including nil) and every content",
 "Panics on malformed input need inputs that the tests, written for the normal case, never pass.",
 ["eccset.go","ecdsa.go","sm2_std.go","eddsa/x25519.go","pasta/pasta.go","bls12_381/bls12-381.go"],[("length checks before slicing","all public operations")])
p("G03","Published curve constants and operation identifiers are coherent",
 "The order returned for each curve is the order its arithmetic uses, the generator is a point of the curve and of that order, and every identifier either selects the same curve in all operations that support it or is refused. Compressed and uncompressed results have the documented prefixes and lengths.",
 "every identifier and every public operation",
 "Tests check each operation by itself, not the agreement between them.",
 ["eccset.go","profile.go","secp256k1.go","secp256r1.go","sm2_std.go"],[("orders and parameters","eccset.go GetCurveOrder; curve initialisation")],("inputs","configurations"))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), [x['id'] for x in P if len(x['title'])>80])
