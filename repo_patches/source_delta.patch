From f4c018f52520f650fa7fad4fd2c164995e434d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 01/28] fix: Add reports infinity only when both coordinates
 are zero

---
 ecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecdsa.go b/ecdsa.go
index 6f5ef48..9380f7f 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -380,7 +380,7 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 		return nil, false
 	}
 
-	if x_big.Cmp(big.NewInt(0)) == 0 && x_big.Cmp(big.NewInt(0)) == 0 {
+	if x_big.Cmp(big.NewInt(0)) == 0 && y_big.Cmp(big.NewInt(0)) == 0 {
 		return nil, true
 	}
 
-- 
2.43.0


From 9b15794c52fb59e8a55a11915186465f03f34883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 02/28] fix: point decompression refuses x-coordinates that are
 not on the curve or not reduced

---
 secp256k1.go | 4 +++-
 secp256r1.go | 4 +++-
 sm2_std.go   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/secp256k1.go b/secp256k1.go
index b8a0149..5356ec5 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -259,7 +259,9 @@ func secp256k1_decompress(in []byte) ([]byte, error) {
 	x3b.Mul(&x3b, x)
 	x3b.Add(&x3b, c.B)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("not a point of the curve")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
diff --git a/secp256r1.go b/secp256r1.go
index c3aba71..06fcd48 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -56,7 +56,9 @@ func secp256r1_decompress(in []byte) ([]byte, error) {
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("not a point of the curve")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
diff --git a/sm2_std.go b/sm2_std.go
index 8e719cf..f88a4bb 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1627,7 +1627,9 @@ func sm2_std_decompress(in []byte) ([]byte, error){
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("not a point of the curve")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
-- 
2.43.0


From 52fd31641fcbfc579730a1403b0cd1ca6d9fa980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 03/28] fix: public key recovery handles unusable r, off-curve
 R and a zero digest, and SM2 recovery uses the SM2 equation

---
 secp256k1.go |  7 ++++
 secp256r1.go |  7 ++++
 sm2_std.go   | 91 +++++++++++++++++++---------------------------------
 3 files changed, 47 insertions(+), 58 deletions(-)

diff --git a/secp256k1.go b/secp256k1.go
index 5356ec5..9ea5ec3 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -297,6 +297,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := secp256k1
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil {
+		return nil, errors.New("invalid data")
+	}
 
 	G.Curve = curve
 	G.X = curve.Gx
@@ -324,6 +327,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256K1)
+		if buf1 == nil {
+			return nil, errors.New("failed to decompress")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
@@ -338,6 +344,7 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
diff --git a/secp256r1.go b/secp256r1.go
index 06fcd48..e191e9a 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -94,6 +94,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := secp256r1
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil {
+		return nil, errors.New("invalid data")
+	}
 	G.Curve = curve
 	G.X = curve.Gx
 	G.Y = curve.Gy
@@ -120,6 +123,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256R1)
+		if buf1 == nil {
+			return nil, errors.New("failed to decompress")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
@@ -132,6 +138,7 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.Curve = curve
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
diff --git a/sm2_std.go b/sm2_std.go
index f88a4bb..ae3813b 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1655,71 +1655,46 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 		return nil, errors.New("invalid data")
 	}
 
-	buf2 := make([]byte, 33)
-	hash := make([]byte, 32)
-	s := new(big.Int)
-	R := new(ecdsa.PublicKey)
-	G := new(ecdsa.PublicKey)
-
-	copy(hash, msg)
-	copy(buf2[1:], sig[:32])
-
 	curve := sm2_std
 
-	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
-	G.Curve = curve
-	G.X = curve.Gx
-	G.Y = curve.Gy
+	r := new(big.Int).SetBytes(sig[:32])
+	s := new(big.Int).SetBytes(sig[32:64])
 
-	for k := 0; k < 2; k ++ {
-		if k == 0 {
-			buf2[0] = 0x02
-		}
-
-		if k == 1 {
-			buf2[0] = 0x03
-		}
-
-		if k == 0 {
-			if sig[64] == 1 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
-		}
-
-		if k == 1 {
-			if sig[64] == 0 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
-		}
-
-		buf1 := PointDecompress(buf2, ECC_CURVE_SM2_STANDARD)
+	// R = s*G + (r+s)*Q with x(R) = r - e, hence Q = (r+s)^-1 * (R - s*G)
+	t_inv := new(big.Int).Add(r, s)
+	if t_inv.ModInverse(t_inv, curve.N) == nil {
+		return nil, errors.New("invalid data")
+	}
 
-		R.Curve = curve
-		R.X = new(big.Int).SetBytes(buf1[1:33])
-		R.Y = new(big.Int).SetBytes(buf1[33:])
+	x := new(big.Int).Sub(r, new(big.Int).SetBytes(msg))
+	xBytes := x.Mod(x, curve.N).Bytes()
+	buf2 := make([]byte, 33)
+	buf2[0] = 0x02 + sig[64]&0x01
+	copy(buf2[33-len(xBytes):], xBytes)
 
-		point1 := new(ecdsa.PublicKey)
-		point1.Curve = curve
-		point1.X, point1.Y = curve.ScalarMult(R.X, R.Y, s.Bytes())
+	buf1 := PointDecompress(buf2, ECC_CURVE_SM2_STANDARD)
+	if buf1 == nil {
+		return nil, errors.New("failed to decompress")
+	}
 
-		point2 := new(ecdsa.PublicKey)
-		point2.Curve = curve
-		point2.X, point2.Y = curve.ScalarBaseMult(hash)
+	x2, y2 := curve.ScalarBaseMult(s.Bytes())
+	y2.Sub(curve.P, y2)
+	y2.Mod(y2, curve.P)
 
-		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+	point := new(ecdsa.PublicKey)
+	point.Curve = curve
+	point.X, point.Y = curve.Add(new(big.Int).SetBytes(buf1[1:33]), new(big.Int).SetBytes(buf1[33:]), x2, y2)
+	point.X, point.Y = curve.ScalarMult(point.X, point.Y, t_inv.Bytes())
 
-		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
-		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
+	if sig[64] > 1 || !sm2_std_verify(point, msg, nil, r, s) {
+		return nil, errors.New("failed to recover")
+	}
 
-		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
-			pubkey := make([]byte, 64)
-			x := point2.X.Bytes()
-			y := point2.Y.Bytes()
-			copy(pubkey[32-len(x):32], x)
-			copy(pubkey[64-len(y):], y)
+	pubkey := make([]byte, 64)
+	xBytes = point.X.Bytes()
+	yBytes := point.Y.Bytes()
+	copy(pubkey[32-len(xBytes):32], xBytes)
+	copy(pubkey[64-len(yBytes):], yBytes)
 
-			return pubkey, nil
-		}
-	}
-	return nil, errors.New("failed to decompress")
-}
\ No newline at end of file
+	return pubkey, nil
+}
-- 
2.43.0


From adea71165581b12a9d09bed66e2b17d9e9a2deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 04/28] fix: SM2 point addition of equal points returns the
 double and leaves its operands alone

---
 sm2_std.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm2_std.go b/sm2_std.go
index ae3813b..2e3bde7 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -472,7 +472,8 @@ func sm2_stdPointAdd(x1, y1, z1, x2, y2, z2, x3, y3, z3 *sm2_stdFieldElement) {
 
 	if sm2_stdToBig(&u1).Cmp(sm2_stdToBig(&u2)) == 0 &&
 		sm2_stdToBig(&s1).Cmp(sm2_stdToBig(&s2)) == 0 {
-		sm2_stdPointDouble(x1, y1, z1, x1, y1, z1)
+		sm2_stdPointDouble(x3, y3, z3, x1, y1, z1)
+		return
 	}
 
 	sm2_stdSub(&h, &u2, &u1)
-- 
2.43.0


From 804d4a8771b259f258f106041270fa6bbd60a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 05/28] fix: SM2 signing refuses the private key n-1 and
 retries when r+k = n

---
 ecdsa.go   | 3 ++-
 sm2_std.go | 5 +----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/ecdsa.go b/ecdsa.go
index 9380f7f..ad94ee9 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -151,7 +151,8 @@ func sign(privateKey, ID, hash []byte, name string) ([]byte, byte, error) {
 	} else if name == "sm2_std" {
 		sm2Curve = sm2_std
 
-		if privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
+		// 1 + d must be invertible
+		if new(big.Int).Add(privateKeyBig, big.NewInt(1)).Cmp(sm2Curve.Params().N) >= 0 {
 			return nil, 0, ErrPrivateKeyIllegal
 		}
 
diff --git a/sm2_std.go b/sm2_std.go
index 2e3bde7..877e945 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1083,10 +1083,7 @@ func sm2_std_sign(priv *ecdsa.PrivateKey, hash, uid []byte) (r, s *big.Int, v by
 				v = 0x00
 			}
 
-			if r.Sign() != 0 {
-				break
-			}
-			if t := new(big.Int).Add(r, k); t.Cmp(N) == 0 {
+			if t := new(big.Int).Add(r, k); r.Sign() != 0 && t.Cmp(N) != 0 {
 				break
 			}
 		}
-- 
2.43.0


From fad89c6eb399d15392fe2f8b47cb421e7f2e751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 06/28] fix: signature verification refuses public keys that
 are not curve points and sums at infinity

---
 sm2_std.go | 11 +++++++++--
 utils.go   |  9 +++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 877e945..f92ec37 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1130,16 +1130,23 @@ func sm2_std_verify(pub *ecdsa.PublicKey, hash, uid []byte, r, s *big.Int) bool
 		return false
 	}
 
+	if !isCurvePoint(c, pub.X, pub.Y) {
+		return false
+	}
+
 	t := new(big.Int).Add(r, s)
 	t.Mod(t, N)
 	if t.Sign() == 0 {
 		return false
 	}
 
-	var x *big.Int
+	var x, y *big.Int
 	x1, y1 := c.ScalarBaseMult(s.Bytes())
 	x2, y2 := c.ScalarMult(pub.X, pub.Y, t.Bytes())
-	x, _ = c.Add(x1, y1, x2, y2)
+	x, y = c.Add(x1, y1, x2, y2)
+	if x.Sign() == 0 && y.Sign() == 0 {
+		return false
+	}
 
 	x.Add(x, e)
 	x.Mod(x, N)
diff --git a/utils.go b/utils.go
index a28b04e..4bcff11 100644
--- a/utils.go
+++ b/utils.go
@@ -33,6 +33,12 @@ func zForAffine(x, y *big.Int) *big.Int {
 	return z
 }
 
+// isCurvePoint reports whether (x, y) are the reduced affine coordinates of a point of the curve.
+func isCurvePoint(c elliptic.Curve, x, y *big.Int) bool {
+	p := c.Params().P
+	return x.Cmp(p) < 0 && y.Cmp(p) < 0 && c.IsOnCurve(x, y)
+}
+
 func randFieldElement(c elliptic.Curve, rand io.Reader) (k *big.Int, err error) {
 	params := c.Params()
 	b := make([]byte, params.BitSize/8+8)
@@ -193,6 +199,9 @@ func verifyesdsa(pub *ecdsa.PublicKey, hash []byte, r, s *big.Int) bool {
 	if r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
 		return false
 	}
+	if !isCurvePoint(c, pub.X, pub.Y) {
+		return false
+	}
 	e := hashToInt(hash, c)
 	return verifyGeneric(pub, c, e, r, s)
 }
-- 
2.43.0


From 0e3eca7a086cae7bb47fce1ea698221bae6f5df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 07/28] fix: point operations refuse malformed and off-curve
 points instead of crashing or computing with them

---
 eccset.go | 36 ++++++++++++++++++++++++------------
 ecdsa.go  | 48 ++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 64 insertions(+), 20 deletions(-)

diff --git a/eccset.go b/eccset.go
index ea7ea3e..d967d6d 100644
--- a/eccset.go
+++ b/eccset.go
@@ -431,16 +431,24 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 	} else {
 		if len(point1) == 33 {
-			point1 = PointDecompress(point1, typeChoose)[1:]
-		} else if len(point1) == 65 {
+			point1 = PointDecompress(point1, typeChoose)
+			if point1 == nil {
+				return nil, FAILURE
+			}
+			point1 = point1[1:]
+		} else if len(point1) == 65 && point1[0] == 0x04 {
 			point1 = point1[1:]
 		} else if len(point1) != 64 {
 			return nil, FAILURE
 		}
 
 		if len(point2) == 33 {
-			point2 = PointDecompress(point2, typeChoose)[1:]
-		} else if len(point2) == 65 {
+			point2 = PointDecompress(point2, typeChoose)
+			if point2 == nil {
+				return nil, FAILURE
+			}
+			point2 = point2[1:]
+		} else if len(point2) == 65 && point2[0] == 0x04 {
 			point2 = point2[1:]
 		} else if len(point2) != 64 {
 			return nil, FAILURE
@@ -449,21 +457,21 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Add(point1, point2, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Add(point1, point2, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Add(point1, point2, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
@@ -495,8 +503,12 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 	} else {
 		if len(pointin) == 33 {
-			pointin = PointDecompress(pointin, typeChoose)[1:]
-		} else if len(pointin) == 65 {
+			pointin = PointDecompress(pointin, typeChoose)
+			if pointin == nil {
+				return nil, FAILURE
+			}
+			pointin = pointin[1:]
+		} else if len(pointin) == 65 && pointin[0] == 0x04 {
 			pointin = pointin[1:]
 		} else if len(pointin) != 64 {
 			return nil, FAILURE
@@ -509,21 +521,21 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Mul(pointin, scalar, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Mul(pointin, scalar, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Mul(pointin, scalar, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
diff --git a/ecdsa.go b/ecdsa.go
index ad94ee9..b0f35d3 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -287,6 +287,27 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 	return sm2_std_decrypt(priv, cipher)
 }
 
+// parsePoint decodes X || Y of a point of the named curve; all zero bytes are the point at infinity.
+func parsePoint(point []byte, name string) (x, y *big.Int, ok bool) {
+	var c elliptic.Curve
+	switch name {
+	case "secp256k1":
+		c = secp256k1
+	case "secp256r1":
+		c = secp256r1
+	case "sm2_std":
+		c = sm2_std
+	default:
+		return nil, nil, false
+	}
+	if len(point) != 64 {
+		return nil, nil, false
+	}
+	x = new(big.Int).SetBytes(point[:32])
+	y = new(big.Int).SetBytes(point[32:])
+	return x, y, x.Sign() == 0 && y.Sign() == 0 || isCurvePoint(c, x, y)
+}
+
 func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
 
 	var curve *curveParam
@@ -295,8 +316,11 @@ func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity
 	privateKeyBig := new(big.Int).SetBytes(scalar)
 	priv := new(ecdsa.PrivateKey)
 	p := new(ecdsa.PublicKey)
-	p.X = new(big.Int).SetBytes(pointin[:32])
-	p.Y = new(big.Int).SetBytes(pointin[32:])
+	var ok bool
+	p.X, p.Y, ok = parsePoint(pointin, name)
+	if !ok {
+		return nil, false
+	}
 
 	priv.D = privateKeyBig
 	if name == "secp256k1" {
@@ -361,12 +385,17 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 	var x_big, y_big *big.Int
 
 	p1 := new(ecdsa.PublicKey)
-	p1.X = new(big.Int).SetBytes(point1[:32])
-	p1.Y = new(big.Int).SetBytes(point1[32:])
+	var ok bool
+	p1.X, p1.Y, ok = parsePoint(point1, name)
+	if !ok {
+		return nil, false
+	}
 
 	p2 := new(ecdsa.PublicKey)
-	p2.X = new(big.Int).SetBytes(point2[:32])
-	p2.Y = new(big.Int).SetBytes(point2[32:])
+	p2.X, p2.Y, ok = parsePoint(point2, name)
+	if !ok {
+		return nil, false
+	}
 
 	if name == "secp256k1" {
 		k1curve = secp256k1
@@ -407,8 +436,11 @@ func Mul(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
 	privateKeyBig := new(big.Int).SetBytes(scalar)
 	priv := new(ecdsa.PrivateKey)
 	p := new(ecdsa.PublicKey)
-	p.X = new(big.Int).SetBytes(pointin[:32])
-	p.Y = new(big.Int).SetBytes(pointin[32:])
+	var ok bool
+	p.X, p.Y, ok = parsePoint(pointin, name)
+	if !ok {
+		return nil, false
+	}
 
 	priv.D = privateKeyBig
 	if name == "secp256k1" {
-- 
2.43.0


From 3095e2908cc6358b64e4fb5a4756e14d7327264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:15 +0000
Subject: [PATCH 08/28] fix: SM2 decryption rejects malformed and tampered
 ciphertexts, encryption rejects invalid public keys

---
 eccset.go  | 6 ++++++
 ecdsa.go   | 5 ++++-
 sm2_std.go | 8 +++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/eccset.go b/eccset.go
index d967d6d..2c569ff 100644
--- a/eccset.go
+++ b/eccset.go
@@ -218,6 +218,9 @@ func Encryption(pubkey []byte, plain []byte, typeChoose uint32) (cipher []byte,
 		return nil, ECC_WRONG_TYPE
 		break
 	}
+	if err != nil {
+		return nil, FAILURE
+	}
 
 	ret = SUCCESS
 	return
@@ -245,6 +248,9 @@ func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte,
 		return nil, ECC_WRONG_TYPE
 		break
 	}
+	if err != nil {
+		return nil, FAILURE
+	}
 
 	ret = SUCCESS
 	return
diff --git a/ecdsa.go b/ecdsa.go
index b0f35d3..88b27f8 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -251,6 +251,9 @@ func encrypt(pubkey []byte, plain []byte, name string) ([]byte, error) {
 	pubk.Curve = sm2_std
 	pubk.X = new(big.Int).SetBytes(pubkey[:32])
 	pubk.Y = new(big.Int).SetBytes(pubkey[32:])
+	if !isCurvePoint(sm2_std, pubk.X, pubk.Y) {
+		return nil, ErrPublicKeyIllegal
+	}
 
 	return sm2_std_encrypt(pubk, plain)
 }
@@ -276,7 +279,7 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 	priv.D = privateKeyBig
 	sm2Curve = sm2_std
 
-	if privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
+	if privateKeyBig.Sign() == 0 || privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
 		return nil, ErrPrivateKeyIllegal
 	}
 
diff --git a/sm2_std.go b/sm2_std.go
index f92ec37..9d2bbe3 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1233,11 +1233,17 @@ func sm2_std_encrypt(pub *ecdsa.PublicKey, data []byte) ([]byte, error) {
 }
 
 func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
+	if len(data) < 98 || data[0] != 0x04 {
+		return nil, ErrMessageIllegal
+	}
 	data = data[1:]
 	length := len(data) - 96
 	curve := priv.Curve
 	x := new(big.Int).SetBytes(data[:32])
 	y := new(big.Int).SetBytes(data[32:64])
+	if !isCurvePoint(curve, x, y) {
+		return nil, ErrMessageIllegal
+	}
 	x2, y2 := curve.ScalarMult(x, y, priv.D.Bytes())
 
 	x2Buf := make([]byte, 32)
@@ -1261,7 +1267,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	tm = append(tm, y2Buf...)
 	h := sm3.Sm3Sum(tm)
 	if bytes.Compare(h, data[64:96]) != 0 {
-		return c, errors.New("Decrypt: failed to decrypt")
+		return nil, errors.New("Decrypt: failed to decrypt")
 	}
 	return c, nil
 }
-- 
2.43.0


From 4598657b48ab31d3e847406775e5d4167d866b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 09/28] fix: SM2 key agreement derives keys of 8192 bytes and
 more at full length

---
 sm2_std.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 9d2bbe3..8170bf0 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1272,7 +1272,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	return c, nil
 }
 
-func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint16) (key []byte) {
+func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint32) (key []byte) {
 
 	x := make([]byte, 32)
 	y := make([]byte, 32)
@@ -1453,7 +1453,7 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 		return nil, nil, err
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	s_check := ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 
@@ -1584,7 +1584,7 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 		return
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	Sinner = ka_check(0x03, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 	Souter = ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
-- 
2.43.0


From 190225d7a4049e5d8d3573292f5dad4c48e7f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 10/28] fix: SM2 key agreement releases no key when a step
 fails

---
 eccset.go  | 9 +++------
 sm2_std.go | 6 ++----
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/eccset.go b/eccset.go
index 2c569ff..e20edf4 100644
--- a/eccset.go
+++ b/eccset.go
@@ -281,8 +281,7 @@ func KeyAgreement_initiator_step2(IDinitiator []byte,
 	var err error
 	key, Sout, err = sm2_std_ka_initiator_step2(IDinitiator, IDresponder, prikeyInitiator, pubkeyInitiator, pubkeyResponder, tmpPrikeyInitiator, tmpPubkeyInitiator, tmpPubkeyResponder, Sin, keylen)
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -308,8 +307,7 @@ func KeyAgreement_responder_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, nil, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -336,8 +334,7 @@ func KeyAgreement_responder_ElGamal_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, random, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
diff --git a/sm2_std.go b/sm2_std.go
index 8170bf0..77a2847 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1458,14 +1458,12 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 	s_check := ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 
 	if Sin == nil || len(Sin) != 32 || len(Sin) != len(s_check) {
-		err = errors.New("check failed")
-		return
+		return nil, nil, errors.New("check failed")
 	}
 
 	for i := 0; i < 32; i ++ {
 		if s_check[i] != Sin[i] {
-			err = errors.New("check failed")
-			return
+			return nil, nil, errors.New("check failed")
 		}
 	}
 
-- 
2.43.0


From 530b636a6c942e01af9240fd6b65c5fcc0cc730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 11/28] fix: SM2 key agreement refuses malformed keys and a
 shared point at infinity

---
 eccset.go  |  3 +++
 sm2_std.go | 49 +++++++++++++++++++++++++++++++++----------------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/eccset.go b/eccset.go
index e20edf4..4854535 100644
--- a/eccset.go
+++ b/eccset.go
@@ -258,6 +258,9 @@ func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte,
 
 ///////////////////////////////////////////////////////////密钥协商////////////////////////////////////////////////////////
 func KeyAgreement_initiator_step1(typeChoose uint32) (tmpPrikeyInitiator, tmpPubkeyInitiator []byte) {
+	if typeChoose != ECC_CURVE_SM2_STANDARD {
+		return nil, nil
+	}
 	tmpPrikeyInitiator, tmpPubkeyInitiator = sm2_std_ka_initiaor_step1()
 	return
 }
diff --git a/sm2_std.go b/sm2_std.go
index 77a2847..2993009 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1344,6 +1344,17 @@ func ka_check(value byte, Zinitiator, Zresponder, Rinitiator, Rresponder []byte,
 }
 
 
+// ka_privateKey reports whether key is a private key from 1 to n-1.
+func ka_privateKey(key []byte) bool {
+	d := new(big.Int).SetBytes(key)
+	return len(key) == 32 && d.Sign() > 0 && d.Cmp(sm2_std.N) < 0
+}
+
+// ka_publicKey reports whether key is X || Y of a point of the curve.
+func ka_publicKey(key []byte) bool {
+	return len(key) == 64 && isCurvePoint(sm2_std, new(big.Int).SetBytes(key[:32]), new(big.Int).SetBytes(key[32:]))
+}
+
 func sm2_std_ka_initiaor_step1() (tmpPrikeyInitiator, tmpPubkeyInitiator []byte) {
 	tmpPrikeyInitiator = make([]byte, 32)
 
@@ -1369,17 +1380,16 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 								Sin []byte,
 								keylen uint16,) (key, Sout []byte, err error){
 
-	if tmpPubkeyResponder == nil || len(tmpPubkeyResponder) != 64 {
+	if !ka_publicKey(tmpPubkeyResponder) {
 		err = errors.New("invalid responder's tmp public key")
 		return
 	}
-
-	var x, y big.Int
-	x.SetBytes(tmpPubkeyResponder[:32])
-	y.SetBytes(tmpPubkeyResponder[32:])
-
-	if !sm2_std.IsOnCurve(&x, &y) {
-		err = errors.New("invalid responder's tmp public key")
+	if !ka_publicKey(pubkeyInitiator) || !ka_publicKey(pubkeyResponder) {
+		err = errors.New("invalid public key")
+		return
+	}
+	if !ka_privateKey(prikeyInitiator) || !ka_privateKey(tmpPrikeyInitiator) {
+		err = errors.New("invalid private key")
 		return
 	}
 
@@ -1420,6 +1430,10 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
+	if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+		err = errors.New("shared point at infinity")
+		return
+	}
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
 		err = errors.New("invalid initiator public key")
@@ -1480,17 +1494,16 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 								tmpPubkeyInitiator []byte,
 								random []byte,
 								keylen uint16) (key, tmpPubkeyResponder, Sinner, Souter []byte, err error){
-	if tmpPubkeyInitiator == nil || len(tmpPubkeyInitiator) != 64 {
+	if !ka_publicKey(tmpPubkeyInitiator) {
 		err = errors.New("invalid initiator's tmp public key")
 		return
 	}
-
-	var x, y big.Int
-	x.SetBytes(tmpPubkeyInitiator[:32])
-	y.SetBytes(tmpPubkeyInitiator[32:])
-
-	if !sm2_std.IsOnCurve(&x, &y) {
-		err = errors.New("invalid initiator's tmp public key")
+	if !ka_publicKey(pubkeyInitiator) || !ka_publicKey(pubkeyResponder) {
+		err = errors.New("invalid public key")
+		return
+	}
+	if !ka_privateKey(prikeyResponder) {
+		err = errors.New("invalid private key")
 		return
 	}
 
@@ -1549,6 +1562,10 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
+	if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+		err = errors.New("shared point at infinity")
+		return
+	}
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
 		err = errors.New("invalid initiator public key")
-- 
2.43.0


From 232ffe646d2b74259839f6ebe835e2b53211f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 12/28] fix: BLAKE2S digest lengths above 32 give nothing
 instead of a panic or another length

---
 hashset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashset.go b/hashset.go
index 12890fe..6d8547a 100644
--- a/hashset.go
+++ b/hashset.go
@@ -224,6 +224,9 @@ func Hash(data []byte, digestLen uint16, typeChoose uint32) []byte {
 		break
 
 	case HASH_ALG_BLAKE2S:
+		if digestLen > blake2s.Size {
+			return nil
+		}
 		h := blake2s.NewMAC(uint8(digestLen), nil)
 
 		_, err := h.Write(data)
-- 
2.43.0


From 039507d2f85d61ad813d7e628dab549d1e7b3aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 13/28] fix: SM3 Sum appends to its argument and leaves the
 running state alone

---
 sm3/sm3.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 997f47a..22ebd9d 100755
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -159,24 +159,16 @@ func (sm3 *SM3) Write(p []byte) (int, error) {
 }
 
 func (sm3 *SM3) Sum(in []byte) []byte {
-	sm3.Write(in)
-	msg := sm3.pad()
-
-	sm3.update(msg, len(msg)/sm3.BlockSize())
-
-	needed := sm3.Size()
-	if cap(in)-len(in) < needed {
-		newIn := make([]byte, len(in), len(in)+needed)
-		copy(newIn, in)
-		in = newIn
-	}
-	out := in[len(in) : len(in)+needed]
+	// work on a copy so that the caller can keep writing and summing
+	d := *sm3
+	msg := d.pad()
+	d.update(msg, len(msg)/d.BlockSize())
 
+	var out [32]byte
 	for i := 0; i < 8; i++ {
-		binary.BigEndian.PutUint32(out[i*4:], sm3.digest[i])
+		binary.BigEndian.PutUint32(out[i*4:], d.digest[i])
 	}
-	return out
-
+	return append(in, out[:]...)
 }
 
 func Sm3Sum(data []byte) []byte {
-- 
2.43.0


From 6e69060e8581f3971c94a4550c614b2d1ca5b6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 14/28] fix: SHAKE Clone after Read slices the buffer from the
 wrong end

---
 sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sha3/sha3.go b/sha3/sha3.go
index 65b5031..f0ca870 100755
--- a/sha3/sha3.go
+++ b/sha3/sha3.go
@@ -69,7 +69,7 @@ func (d *state) clone() *state {
 	if ret.state == spongeAbsorbing {
 		ret.buf = ret.storage[:len(ret.buf)]
 	} else {
-		ret.buf = ret.storage[d.rate-cap(d.buf) : d.rate]
+		ret.buf = ret.storage[maxRate-cap(d.buf) : d.rate]
 	}
 
 	return &ret
-- 
2.43.0


From 524c9c63c08c21df68018521da0f6b4c1dfdb323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 15/28] fix: raw-scalar Ed25519 signs with the scalar of its
 public key

---
 eddsa/ed25519.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 1a81267..d1ff79b 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -57,9 +57,6 @@ func ED25519_sign(prikey, message []byte) ([]byte, error) {
 	var messageDigest, hramDigest [64]byte
 
 	copy(expandedSecretKey[:], prikey[:])
-	expandedSecretKey[0] &= 248
-	expandedSecretKey[31] &= 63
-	expandedSecretKey[31] |= 64
 	rand.Read(digest1[:])
 	h := sha512.New()
 	h.Write(digest1[:])
-- 
2.43.0


From a99be58f46350fb65abc5f32c583abd9066ba293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 16/28] fix: Ed25519 and X25519 verification refuse S not below
 the group order

---
 eddsa/curve25519.go |  2 +-
 eddsa/ed25519.go    | 18 +++++++++++++++++-
 eddsa/x25519.go     |  2 +-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/eddsa/curve25519.go b/eddsa/curve25519.go
index 1735074..207cd68 100644
--- a/eddsa/curve25519.go
+++ b/eddsa/curve25519.go
@@ -102,7 +102,7 @@ func CURVE25519_verify(pubkey, message, sig []byte) bool {
 		return false
 	}
 
-	if len(sig) != 64 || sig[63]&224 != 0 {
+	if len(sig) != 64 || !scIsReduced(sig[32:]) {
 		return false
 	}
 
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index d1ff79b..8b6550f 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -96,7 +96,7 @@ func ED25519_verify(pubkey, message, sig []byte) bool {
 		return false
 	}
 
-	if len(sig) != 64 || sig[63]&224 != 0 {
+	if len(sig) != 64 || !scIsReduced(sig[32:]) {
 		return false
 	}
 
@@ -130,6 +130,22 @@ func ED25519_verify(pubkey, message, sig []byte) bool {
 	return subtle.ConstantTimeCompare(sig[:32], checkR[:]) == 1
 }
 
+// the group order, little-endian
+var groupOrder = [32]byte{
+	0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
+}
+
+// scIsReduced reports whether the 32-byte little-endian scalar is below the group order
+func scIsReduced(s []byte) bool {
+	for i := 31; i >= 0; i-- {
+		if s[i] != groupOrder[i] {
+			return s[i] < groupOrder[i]
+		}
+	}
+	return false
+}
+
 func feIsZero(f edwards25519.FieldElement) bool {
 	zero := [32]byte{0}
 	var s [32]byte
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 8129c64..34f37dc 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -572,7 +572,7 @@ func verify_modify(message, sm, pubkey []byte) bool {
 	var A edwards25519.ExtendedGroupElement
 	var R edwards25519.ProjectiveGroupElement
 
-	if sm[63] & 224 != 0 {
+	if !scIsReduced(sm[32:64]) {
 		return false
 	}
 	var pk [32]byte
-- 
2.43.0


From fe4d905140faeb0097dcb36e432c064e6c727993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 17/28] fix: base multiplication of Ed25519 scalars of 2^255
 and above

---
 eddsa/ed25519.go | 14 +++++++++++---
 eddsa/x25519.go  |  3 +--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 8b6550f..ab23862 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -32,8 +32,7 @@ func ED25519_genPub(prikey []byte) ([]byte, error) {
 	}
 
 	var A edwards25519.ExtendedGroupElement
-	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	hBytes := scReduce32(prikey)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
@@ -146,6 +145,14 @@ func scIsReduced(s []byte) bool {
 	return false
 }
 
+// scReduce32 returns the 32-byte little-endian scalar modulo the group order
+func scReduce32(s []byte) (out [32]byte) {
+	var wide [64]byte
+	copy(wide[:32], s)
+	edwards25519.ScReduce(&out, &wide)
+	return out
+}
+
 func feIsZero(f edwards25519.FieldElement) bool {
 	zero := [32]byte{0}
 	var s [32]byte
@@ -180,7 +187,8 @@ func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	)
 	P1.FromBytes(point1)
 	one[0] = 1
-	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, scalar)
+	reduced := scReduce32(scalar[:])
+	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, &reduced)
 
 	edwards25519.FeInvert(&recip, &R.Z)
 	edwards25519.FeMul(&x, &R.X, &recip)
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 34f37dc..f94ead7 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -27,8 +27,7 @@ func X25519_genPub(prikey []byte) ([]byte, error) {
 	}
 
 	var A edwards25519.ExtendedGroupElement
-	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	hBytes := scReduce32(prikey)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
-- 
2.43.0


From faae2ccd57064006b2dd48a5a141153244878d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 18/28] fix: Ed25519 point operations refuse bytes that encode
 no point

---
 eccset.go        | 9 +++++++++
 eddsa/ed25519.go | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/eccset.go b/eccset.go
index 4854535..5dcc981 100644
--- a/eccset.go
+++ b/eccset.go
@@ -410,8 +410,14 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		break
 	case ECC_CURVE_ED25519:
 		var point1, s, point2 [32]byte
+		if len(pointin) != 32 {
+			return nil, false
+		}
 		copy(point1[:], pointin)
 		copy(s[:], scalar)
+		if !eddsa.IsPoint(&point1) {
+			return nil, false
+		}
 		infinity := eddsa.ScalarMultBaseAdd(&point1, &s, &point2)
 		if infinity {
 			return nil, true
@@ -486,6 +492,9 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		var P1, P2, P [32]byte
 		copy(P1[:], point1)
 		copy(P2[:], point2)
+		if !eddsa.IsPoint(&P1) || !eddsa.IsPoint(&P2) {
+			return nil, FAILURE
+		}
 		infinity := eddsa.Point_add(&P1, &P2, &P)
 		if infinity {
 			return nil, FAILURE
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index ab23862..5a329f4 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -176,6 +176,12 @@ func feIsOne(f edwards25519.FieldElement) bool {
 	return true
 }
 
+// IsPoint reports whether the bytes decode to a point of the curve
+func IsPoint(point *[32]byte) bool {
+	var P edwards25519.ExtendedGroupElement
+	return P.FromBytes(point)
+}
+
 func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	var (
 		P1    edwards25519.ExtendedGroupElement   //p3
-- 
2.43.0


From b67fee270cbbc9ff79e04d4b3df68b68a4693c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 19/28] fix: key conversion refuses the points that have no
 image

---
 eddsa/convert.go | 11 +++++++++++
 eddsa/x25519.go  |  5 ++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/eddsa/convert.go b/eddsa/convert.go
index 92b3301..1159338 100644
--- a/eddsa/convert.go
+++ b/eddsa/convert.go
@@ -91,6 +91,13 @@ func ConvertXToEd(x25519PubkeyBytes [32]byte) ([32]byte, error) {
 		return [32]byte{}, errors.New("The x25519 public key inputed is reduced!")
 	}
 	edwards25519.FeFromBytes(&u, &x25519PubkeyBytes)
+	// u = -1 has no image
+	var one, up1 edwards25519.FieldElement
+	edwards25519.FeOne(&one)
+	edwards25519.FeAdd(&up1, &u, &one)
+	if feIsZero(up1) {
+		return [32]byte{}, errors.New("The x25519 public key inputed has no ed25519 image!")
+	}
 	y := montToEdy(u)
 	edwards25519.FeToBytes(&ed25519PubkeyBytes, &y)
 	return ed25519PubkeyBytes, nil
@@ -103,6 +110,10 @@ func ConvertEdToX(ed25519PubkeyBytes [32]byte) ([32]byte, error) {
 	)
 
 	edwards25519.FeFromBytes(&y, &ed25519PubkeyBytes)
+	// the identity, y = 1, has no image
+	if feIsOne(y) {
+		return [32]byte{}, errors.New("The ed25519 public key inputed has no x25519 image!")
+	}
 	u := montFromEdy(y)
 	edwards25519.FeToBytes(&x25519PubkeyBytes, &u)
 	if feIsReduced(x25519PubkeyBytes) {
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index f94ead7..d8e5d31 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -34,8 +34,11 @@ func X25519_genPub(prikey []byte) ([]byte, error) {
 	A.ToBytes(&publicKeyBytes)
 
 	publicKeyBytes, err := ConvertEdToX(publicKeyBytes)
+	if err != nil {
+		return nil, err
+	}
 
-	return publicKeyBytes[:], err
+	return publicKeyBytes[:], nil
 }
 
 func load_3(in []byte) uint64 {
-- 
2.43.0


From cd644872b7ba11b20de6455763b49556b3d5f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 20/28] fix: signatures of the empty message verify

---
 eddsa/curve25519_sha256.go | 2 +-
 eddsa/x25519.go            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index 96d94ef..db06c60 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -67,7 +67,7 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 }
 
 func CURVE25519_sha256_verify(pubkey, message,signature []byte) bool {
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index d8e5d31..9678a58 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -607,7 +607,7 @@ func verify_modify(message, sm, pubkey []byte) bool {
 
 func X25519_verify(pubkey, message,signature []byte) bool {
 
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
-- 
2.43.0


From 847632d77e75be8c8a85cff9acab51026ebe6b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 21/28] fix: Curve25519-SHA256 keeps the caller's private key
 unchanged

---
 eddsa/curve25519_sha256.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index db06c60..87e5e92 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -24,7 +24,7 @@ func CURVE25519_sha256_genPub(prikey []byte) ([]byte, error) {
 
 	pubkey := make([]byte, 32)
 
-	Keygen(pubkey, nil, prikey)
+	Keygen(pubkey, nil, append([]byte(nil), prikey...))
 
 	return pubkey, nil
 }
@@ -37,7 +37,7 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 	pubkey := make([]byte, 32)
 	s := make([]byte, 32)
 
-	Keygen(pubkey, s, prikey)
+	Keygen(pubkey, s, append([]byte(nil), prikey...))
 
 	digest := sha256.New()
 	digest.Write(message)
-- 
2.43.0


From a767cdf88d5b31ef05123d06a31121c3135981bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 22/28] fix: X25519 verification refuses the key u = -1, which
 has no image

---
 eddsa/x25519.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 9678a58..cce222e 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -618,6 +618,13 @@ func X25519_verify(pubkey, message,signature []byte) bool {
 	var x25519_pubkey, ed_pubkey [32]byte
 	copy(x25519_pubkey[:], pubkey)
 	edwards25519.FeFromBytes(&u, &x25519_pubkey)
+	// u = -1 has no image
+	var one, up1 edwards25519.FieldElement
+	edwards25519.FeOne(&one)
+	edwards25519.FeAdd(&up1, &u, &one)
+	if feIsZero(up1) {
+		return false
+	}
 	y := montToEdy(u)
 	edwards25519.FeToBytes(&ed_pubkey, &y)
 
-- 
2.43.0


From afb9949e17401150936d2b6bdc2d9578699c3ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:54 +0000
Subject: [PATCH 23/28] fix: Pasta point decoding reads 65-byte points and
 refuses bytes that are no curve point

---
 pasta/crypto.go | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index d955aca..fd9ad93 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -34,6 +34,21 @@ func (f Field) ToBigEndianBytes() []byte {
 	return reverseBytes(out[:])
 }
 
+// fromBigEndianBytes sets f to the value of 32 bytes, it reports whether that value is reduced
+func (f *Field) fromBigEndianBytes(p []byte) bool {
+	var tmp [32]byte
+	copy(tmp[:], reverseBytes(p))
+	words := BytesArrayToU64Array(tmp)
+	var mont, back [4]uint64
+	FiatPastaFpToMontgomery(&mont, words)
+	FiatPastaFpFromMontgomery(&back, mont)
+	if back != words {
+		return false
+	}
+	f.Set(mont)
+	return true
+}
+
 func (s Scalar) ToU64Array() (out [4]uint64) {
 	out[0] = s[0]
 	out[1] = s[1]
@@ -80,23 +95,25 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 		if err != nil {
 			return err
 		}
-		Decompress(a, compressed)
+		if !Decompress(a, compressed) {
+			return errors.New("invalid input data p, not a point of the curve")
+		}
 	} else {
-		var x_mont, y_mont [4]uint64
-		var tmp [32]byte
+		var tmp Affine
 		if len(p) == 65 {
 			if p[0] != 0x04 {
 				return errors.New("invalid input data p, first byte is not 0x04")
 			}
 			p = p[1:]
-		} else {
-			copy(tmp[:], reverseBytes(p[:32]))
-			FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
-			copy(tmp[:], reverseBytes(p[32:]))
-			FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
 		}
-		a.X.Set(x_mont)
-		a.Y.Set(y_mont)
+		if !tmp.X.fromBigEndianBytes(p[:32]) || !tmp.Y.fromBigEndianBytes(p[32:]) {
+			return errors.New("invalid input data p, coordinate is not reduced")
+		}
+		if AffineIsZero(tmp) == 1 || !AffineIsOnCurve(tmp) {
+			return errors.New("invalid input data p, not a point of the curve")
+		}
+		a.X.Set(tmp.X)
+		a.Y.Set(tmp.Y)
 	}
 
 	return nil
@@ -133,14 +150,12 @@ func (c *Compressed) FromBigEndianBytes(p []byte) error {
 	} else if p[0] == 0x03 {
 		c.IsOdd = true
 	} else {
-		errors.New("invalid input data p, first byte is not 0x02 or 0x03")
+		return errors.New("invalid input data p, first byte is not 0x02 or 0x03")
 	}
 
-	var tmp [32]byte
-	copy(tmp[:], reverseBytes(p[1:]))
-	var x_mont [4]uint64
-	FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
-	c.X.Set(x_mont)
+	if !c.X.fromBigEndianBytes(p[1:]) {
+		return errors.New("invalid input data p, coordinate is not reduced")
+	}
 	return nil
 }
 
-- 
2.43.0


From 5af5f91d7812b28736d58849f18b6b3e93c8dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:54 +0000
Subject: [PATCH 24/28] fix: Pasta point negation negates

---
 pasta/crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index fd9ad93..ece8ef8 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -517,7 +517,7 @@ func GroupScalarMul(r *Group, k Scalar, p Group) {
 
 func GroupNegate(q *Group, p Group) {
 	FieldCopy(&q.X, p.X)
-	FieldCopy(&q.Y, p.Y)
+	FieldNegate(&q.Y, p.Y)
 	FieldCopy(&q.Z, p.Z)
 }
 
-- 
2.43.0


From ecf2ee61969e4204e1631ae465176293e441be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:54 +0000
Subject: [PATCH 25/28] fix: Pasta point addition doubles equal points with
 different coordinates

---
 pasta/crypto.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index ece8ef8..e6bf509 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -457,6 +457,11 @@ func GroupAdd(r *Group, p, q Group) {
 
 	var h, i, j, w, v Field
 	FieldSub(&h, u2, u1)
+	if FieldEq(h, FieldZero) == 1 && FieldEq(s1, s2) == 1 {
+		// the same point in other coordinates
+		GroupDbl(r, p)
+		return
+	}
 	FieldAdd(&r.Z, h, h)
 	FieldSq(&i, r.Z)
 	FieldMul(&j, h, i)
-- 
2.43.0


From 1837ec28f8e5f4b96dad75c1595326f495b0f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:54 +0000
Subject: [PATCH 26/28] fix: Pasta refuses the zero private key

---
 pasta/pasta.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index 1c77dcb..7ad9ed6 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -13,8 +13,13 @@ func GenPublicKey(privateKey []byte) ([]byte, error) {
 		return nil, errors.New("invalid private key")
 	}
 
+	scalar := BigEndianBytesToFqMontgomeryArray(privateKey)
+	if ScalarEq(scalar, ScalarZero) {
+		return nil, errors.New("invalid private key")
+	}
+
 	var publicKey Affine
-	GeneratePubkey(&publicKey, BigEndianBytesToFqMontgomeryArray(privateKey))
+	GeneratePubkey(&publicKey, scalar)
 	return publicKey.ToBigEndianBytes(), nil
 }
 
-- 
2.43.0


From 666f3a493d1e2c518832cfc1ba8050cb5229bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:54 +0000
Subject: [PATCH 27/28] fix: Pasta verification refuses signature halves that
 are not reduced and a commitment at infinity

---
 pasta/pasta.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index 7ad9ed6..8be073f 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -1,6 +1,7 @@
 package pasta
 
 import (
+	"bytes"
 	"crypto/rand"
 	"errors"
 )
@@ -85,6 +86,10 @@ func Verify(publicKey, msg, sig []byte) bool {
 	var r_mont, s_mont Scalar
 	r_mont.Set(BigEndianBytesToFpMontgomeryArray(sig[:32]))
 	s_mont.Set(BigEndianBytesToFqMontgomeryArray(sig[32:]))
+	if !bytes.Equal(FpMontgomeryArrayToBigEndianBytes(r_mont), sig[:32]) ||
+		!bytes.Equal(FqMontgomeryArrayToBigEndianBytes(s_mont), sig[32:]) {
+		return false
+	}
 
 	mm, err := NewMinaMessage(msg)
 	if err != nil {
@@ -115,6 +120,9 @@ func Verify(publicKey, msg, sig []byte) bool {
 
 	var r Group
 	GroupAdd(&r, sg, neg_epub)
+	if IsZero(r) == 1 {
+		return false
+	}
 
 	var raff Affine
 	AffineFromGroup(&raff, r)
-- 
2.43.0


From b38061c8688c1c0f5ab3a0d289cb3596c43102dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:54 +0000
Subject: [PATCH 28/28] fix: Pasta point operations report failures and
 infinity instead of a success without result

---
 eccset.go      | 14 ++++++++++----
 pasta/pasta.go |  9 +++++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/eccset.go b/eccset.go
index 5dcc981..f598fc2 100644
--- a/eccset.go
+++ b/eccset.go
@@ -428,8 +428,8 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		return bls12_381.ScalarMultBaseAdd(pointin, scalar)
 		break
 	case ECC_CURVE_PASTA:
-		pointout, _ := pasta.PointMulBaseGAdd(pointin, scalar)
-		return pointout, false
+		pointout, err := pasta.PointMulBaseGAdd(pointin, scalar)
+		return pointout, err == pasta.ErrInfinity
 	default:
 		return nil, false
 	}
@@ -502,7 +502,10 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		return P[:], SUCCESS
 		break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointAdd(point1, point2)
+		pout, err := pasta.PointAdd(point1, point2)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
@@ -566,7 +569,10 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	//	return P[:], SUCCESS
 	//	break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointMul(pointin, scalar)
+		pout, err := pasta.PointMul(pointin, scalar)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
diff --git a/pasta/pasta.go b/pasta/pasta.go
index 8be073f..a0d3c86 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -6,6 +6,9 @@ import (
 	"errors"
 )
 
+// ErrInfinity : the result is the point at infinity, which has no encoding
+var ErrInfinity = errors.New("point at infinity")
+
 // privateKey : big endian
 // publicKey  : big endian X || Y
 // all data is in big int field
@@ -162,6 +165,9 @@ func PointAdd(point1, point2 []byte) ([]byte, error) {
 		return nil, err
 	}
 	AffineAdd(&r, p, q)
+	if AffineIsZero(r) == 1 {
+		return nil, ErrInfinity
+	}
 	return r.ToBigEndianBytes(), nil
 }
 
@@ -177,6 +183,9 @@ func PointMul(pointin, scalar []byte) ([]byte, error) {
 		return nil, err
 	}
 	AffineScalarMul(&r, BigEndianBytesToFqMontgomeryArray(scalar), p)
+	if AffineIsZero(r) == 1 {
+		return nil, ErrInfinity
+	}
 
 	return r.ToBigEndianBytes(), nil
 }
-- 
2.43.0

