From b30884530490b8d7748af6d2aea92b83c8d1431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 01/47] fix: select the BLS12-381 multiplication routine once,
 without a data race

---
 bls12_381/bls/arithmetic_decl.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bls12_381/bls/arithmetic_decl.go b/bls12_381/bls/arithmetic_decl.go
index fab5743..d81330f 100644
--- a/bls12_381/bls/arithmetic_decl.go
+++ b/bls12_381/bls/arithmetic_decl.go
@@ -3,20 +3,24 @@
 package bls
 
 import (
+	"sync"
+
 	"golang.org/x/sys/cpu"
 )
 
 var mul func(c, a, b *fe) = mulADX
 var mulAssign func(a, b *fe) = mulAssignADX
 
+var cfgArchOnce sync.Once
+
 func cfgArch() {
-	if !x86ArchitectureSet {
+	cfgArchOnce.Do(func() {
 		if !(cpu.X86.HasADX && cpu.X86.HasBMI2) || forceNonADXArch {
 			mul = mulNoADX
 			mulAssign = mulAssignNoADX
 		}
 		x86ArchitectureSet = true
-	}
+	})
 }
 
 func square(c, a *fe) {
-- 
2.43.0


From 194c540e7c2bafe1cda3d6eccb74f1a71d0eec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 02/47] fix: do not clamp the caller's private key in place
 (curve25519-sha256)

---
 eddsa/curve25519_sha256.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index 96d94ef..7d31193 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -24,7 +24,7 @@ func CURVE25519_sha256_genPub(prikey []byte) ([]byte, error) {
 
 	pubkey := make([]byte, 32)
 
-	Keygen(pubkey, nil, prikey)
+	Keygen(pubkey, nil, append([]byte{}, prikey...))
 
 	return pubkey, nil
 }
@@ -37,7 +37,7 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 	pubkey := make([]byte, 32)
 	s := make([]byte, 32)
 
-	Keygen(pubkey, s, prikey)
+	Keygen(pubkey, s, append([]byte{}, prikey...))
 
 	digest := sha256.New()
 	digest.Write(message)
-- 
2.43.0


From 6f6520b886210e32aded7099b90ad02b7cbc9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 03/47] fix: Verify must not append the message behind the
 caller's public key (BLS AUG)

---
 eccset.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eccset.go b/eccset.go
index ea7ea3e..5cf67da 100644
--- a/eccset.go
+++ b/eccset.go
@@ -178,8 +178,7 @@ func Verify(pubkey []byte, ID []byte, message []byte, signature []byte, typeChoo
 		pass = bls12_381.Verify(pubkey, message, signature)
 		break
 	case ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG:
-		message = append(pubkey, message...)
-		message = append([]byte(AUG_SCHEME_DST), message...)
+		message = append(append([]byte(AUG_SCHEME_DST), pubkey...), message...)
 		pass = bls12_381.Verify(pubkey, message, signature)
 		break
 	case ECC_CURVE_PASTA:
-- 
2.43.0


From 0555b676c72d88dba73f78f172c048c59f4b21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 04/47] fix: blake2s.New must not write the caller's
 configuration

---
 blake2s/blake2s.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blake2s/blake2s.go b/blake2s/blake2s.go
index ad22625..f27a0a3 100644
--- a/blake2s/blake2s.go
+++ b/blake2s/blake2s.go
@@ -96,7 +96,9 @@ func New(c *Config) (hash.Hash, error) {
 		c = defaultConfig
 	} else {
 		if c.Size == 0 {
-			c.Size = Size
+			cc := *c
+			cc.Size = Size
+			c = &cc
 		}
 		if err := verifyConfig(c); err != nil {
 			return nil, err
-- 
2.43.0


From b203380668ad9947157121c2770313a1b2d08260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 05/47] fix: MultiExp must not consume the caller's exponent
 vector

---
 bls12_381/bls/g1.go | 2 ++
 bls12_381/bls/g2.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bls12_381/bls/g1.go b/bls12_381/bls/g1.go
index a273890..a6b6f86 100644
--- a/bls12_381/bls/g1.go
+++ b/bls12_381/bls/g1.go
@@ -455,6 +455,8 @@ func (g *G1) MultiExp(r *PointG1, points []*PointG1, powers []*big.Int) (*PointG
 	if len(points) != len(powers) {
 		return nil, fmt.Errorf("point and scalar vectors should be in same length")
 	}
+	// the exponents are consumed below: work on a copy of the vector
+	powers = append([]*big.Int{}, powers...)
 	var c uint32 = 3
 	if len(powers) >= 32 {
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
diff --git a/bls12_381/bls/g2.go b/bls12_381/bls/g2.go
index 99feffd..54ba2f4 100644
--- a/bls12_381/bls/g2.go
+++ b/bls12_381/bls/g2.go
@@ -459,6 +459,8 @@ func (g *G2) MultiExp(r *PointG2, points []*PointG2, powers []*big.Int) (*PointG
 	if len(points) != len(powers) {
 		return nil, fmt.Errorf("point and scalar vectors should be in same length")
 	}
+	// the exponents are consumed below: work on a copy of the vector
+	powers = append([]*big.Int{}, powers...)
 	var c uint32 = 3
 	if len(powers) >= 32 {
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
-- 
2.43.0


From 1ab4ddce7db849906ae9d15529beac4e8c4d02e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 06/47] fix: Hash must refuse a BLAKE2s digest length above 32
 (panic, or truncation mod 256)

---
 hashset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashset.go b/hashset.go
index 12890fe..6d8547a 100644
--- a/hashset.go
+++ b/hashset.go
@@ -224,6 +224,9 @@ func Hash(data []byte, digestLen uint16, typeChoose uint32) []byte {
 		break
 
 	case HASH_ALG_BLAKE2S:
+		if digestLen > blake2s.Size {
+			return nil
+		}
 		h := blake2s.NewMAC(uint8(digestLen), nil)
 
 		_, err := h.Write(data)
-- 
2.43.0


From 9bbf98b079705be7edd00f87e2c1e585e459b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 07/47] fix: Encryption and Decryption must report every error
 (tampered SM2 ciphertexts decrypted with SUCCESS)

---
 eccset.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/eccset.go b/eccset.go
index 5cf67da..5f0d004 100644
--- a/eccset.go
+++ b/eccset.go
@@ -218,6 +218,10 @@ func Encryption(pubkey []byte, plain []byte, typeChoose uint32) (cipher []byte,
 		break
 	}
 
+	if err != nil {
+		return nil, FAILURE
+	}
+
 	ret = SUCCESS
 	return
 }
@@ -245,6 +249,10 @@ func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte,
 		break
 	}
 
+	if err != nil {
+		return nil, FAILURE
+	}
+
 	ret = SUCCESS
 	return
 }
-- 
2.43.0


From 11f7273148412f6c658ae843dcdfd98a9f17dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 08/47] fix: IsOnCurve must reject coordinates outside the
 field (secp256k1, SM2)

---
 secp256k1.go | 4 ++++
 sm2_std.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/secp256k1.go b/secp256k1.go
index b8a0149..43ac8bc 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -42,6 +42,10 @@ func (curve *secp256k1Curve) Params() *elliptic.CurveParams {
 }
 
 func (curve *secp256k1Curve) IsOnCurve(x, y *big.Int) bool {
+	if x.Sign() < 0 || x.Cmp(curve.P) >= 0 || y.Sign() < 0 || y.Cmp(curve.P) >= 0 {
+		return false
+	}
+
 	var y2, x3 big.Int
 
 	y2.Mul(y, y)
diff --git a/sm2_std.go b/sm2_std.go
index 8e719cf..f443c41 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -67,6 +67,10 @@ func (curve sm2_stdCurve) Params() *elliptic.CurveParams {
 }
 
 func (curve sm2_stdCurve) IsOnCurve(X, Y *big.Int) bool {
+	if X.Sign() < 0 || X.Cmp(curve.P) >= 0 || Y.Sign() < 0 || Y.Cmp(curve.P) >= 0 {
+		return false
+	}
+
 	var a, x, y, y2, x3 sm2_stdFieldElement
 
 	sm2_stdFromBig(&x, X)
-- 
2.43.0


From bfd359ce178a9811cd49e8587af816f3418f2b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 09/47] fix: signature verification must refuse a public key
 that is not on the curve (panic on P-256)

---
 sm2_std.go | 4 ++++
 utils.go   | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/sm2_std.go b/sm2_std.go
index f443c41..fb8aa9e 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1136,6 +1136,10 @@ func sm2_std_verify(pub *ecdsa.PublicKey, hash, uid []byte, r, s *big.Int) bool
 		return false
 	}
 
+	if !c.IsOnCurve(pub.X, pub.Y) {
+		return false
+	}
+
 	t := new(big.Int).Add(r, s)
 	t.Mod(t, N)
 	if t.Sign() == 0 {
diff --git a/utils.go b/utils.go
index a28b04e..13ec3e3 100644
--- a/utils.go
+++ b/utils.go
@@ -193,6 +193,9 @@ func verifyesdsa(pub *ecdsa.PublicKey, hash []byte, r, s *big.Int) bool {
 	if r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
 		return false
 	}
+	if !c.IsOnCurve(pub.X, pub.Y) {
+		return false
+	}
 	e := hashToInt(hash, c)
 	return verifyGeneric(pub, c, e, r, s)
 }
-- 
2.43.0


From bdb74644b2668db9a5f2a93ddcf70c87963bebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 10/47] fix: point addition and multiplication must refuse
 operands that are not curve points (slice panic, P-256 panic)

---
 eccset.go | 12 ++++++------
 ecdsa.go  | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/eccset.go b/eccset.go
index 5f0d004..00ab96f 100644
--- a/eccset.go
+++ b/eccset.go
@@ -456,21 +456,21 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Add(point1, point2, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Add(point1, point2, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Add(point1, point2, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
@@ -516,21 +516,21 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Mul(pointin, scalar, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Mul(pointin, scalar, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Mul(pointin, scalar, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
diff --git a/ecdsa.go b/ecdsa.go
index 6f5ef48..568b3ab 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -287,6 +287,9 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 }
 
 func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
+	if len(pointin) != 64 {
+		return nil, false
+	}
 
 	var curve *curveParam
 	var k1curve *secp256k1Curve
@@ -304,6 +307,10 @@ func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity
 		priv.PublicKey.Curve = k1curve
 		p.Curve = k1curve
 
+		if !k1curve.IsOnCurve(p.X, p.Y) {
+			return nil, false
+		}
+
 		priv.PublicKey.X, priv.PublicKey.Y = k1curve.ScalarBaseMult(scalar)
 
 		priv.PublicKey.X, priv.PublicKey.Y = k1curve.Add(priv.PublicKey.X, priv.PublicKey.Y, p.X, p.Y)
@@ -315,6 +322,10 @@ func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity
 		priv.PublicKey.Curve = sm2Curve
 		p.Curve = sm2Curve
 
+		if !sm2Curve.IsOnCurve(p.X, p.Y) {
+			return nil, false
+		}
+
 		priv.PublicKey.X, priv.PublicKey.Y = sm2Curve.ScalarBaseMult(scalar)
 
 		priv.PublicKey.X, priv.PublicKey.Y = sm2Curve.Add(priv.PublicKey.X, priv.PublicKey.Y, p.X, p.Y)
@@ -328,6 +339,10 @@ func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity
 
 		priv.PublicKey.Curve = curve
 		p.Curve = curve
+
+		if !curve.IsOnCurve(p.X, p.Y) {
+			return nil, false
+		}
 		priv.D = privateKeyBig
 		priv.PublicKey.X, priv.PublicKey.Y = curve.ScalarBaseMult(scalar)
 		priv.PublicKey.X, priv.PublicKey.Y = curve.Add(priv.PublicKey.X, priv.PublicKey.Y, p.X, p.Y)
@@ -353,6 +368,9 @@ func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity
 }
 
 func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
+	if len(point1) != 64 || len(point2) != 64 {
+		return nil, false
+	}
 	var curve *curveParam
 	var k1curve *secp256k1Curve
 	var sm2Curve *sm2_stdCurve
@@ -369,12 +387,21 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 
 	if name == "secp256k1" {
 		k1curve = secp256k1
+		if !k1curve.IsOnCurve(p1.X, p1.Y) || !k1curve.IsOnCurve(p2.X, p2.Y) {
+			return nil, false
+		}
 		x_big, y_big = k1curve.Add(p1.X, p1.Y, p2.X, p2.Y)
 	} else if name == "sm2_std" {
 		sm2Curve = sm2_std
+		if !sm2Curve.IsOnCurve(p1.X, p1.Y) || !sm2Curve.IsOnCurve(p2.X, p2.Y) {
+			return nil, false
+		}
 		x_big, y_big = sm2Curve.Add(p1.X, p1.Y, p2.X, p2.Y)
 	} else if name == "secp256r1"{ // ecdsa
 		curve = secp256r1
+		if !curve.IsOnCurve(p1.X, p1.Y) || !curve.IsOnCurve(p2.X, p2.Y) {
+			return nil, false
+		}
 		x_big, y_big = curve.Add(p1.X, p1.Y, p2.X, p2.Y)
 	} else {
 		return nil, false
@@ -399,6 +426,9 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 }
 
 func Mul(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
+	if len(pointin) != 64 {
+		return nil, false
+	}
 
 	var curve *curveParam
 	var k1curve *secp256k1Curve
@@ -414,16 +444,25 @@ func Mul(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
 		k1curve = secp256k1
 		priv.PublicKey.Curve = k1curve
 		p.Curve = k1curve
+		if !k1curve.IsOnCurve(p.X, p.Y) {
+			return nil, false
+		}
 		priv.PublicKey.X, priv.PublicKey.Y = k1curve.ScalarMult(p.X, p.Y, scalar)
 	} else if name == "sm2_std" {
 		sm2Curve = sm2_std
 		priv.PublicKey.Curve = sm2Curve
 		p.Curve = sm2Curve
+		if !sm2Curve.IsOnCurve(p.X, p.Y) {
+			return nil, false
+		}
 		priv.PublicKey.X, priv.PublicKey.Y = sm2Curve.ScalarMult(p.X, p.Y, scalar)
 	} else if name == "secp256r1"{ // ecdsa
 		curve = secp256r1
 		priv.PublicKey.Curve = curve
 		p.Curve = curve
+		if !curve.IsOnCurve(p.X, p.Y) {
+			return nil, false
+		}
 		priv.D = privateKeyBig
 		priv.PublicKey.X, priv.PublicKey.Y = curve.ScalarMult(p.X, p.Y, scalar)
 	} else {
-- 
2.43.0


From 0608f177040bafe7c8879b832c48559e2322b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 11/47] fix: Add must not take a point with x = 0 for the point
 at infinity

---
 ecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecdsa.go b/ecdsa.go
index 568b3ab..8e09759 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -407,7 +407,7 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 		return nil, false
 	}
 
-	if x_big.Cmp(big.NewInt(0)) == 0 && x_big.Cmp(big.NewInt(0)) == 0 {
+	if x_big.Cmp(big.NewInt(0)) == 0 && y_big.Cmp(big.NewInt(0)) == 0 {
 		return nil, true
 	}
 
-- 
2.43.0


From 32efff827da649ceaeef69a0444ae224fa761073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 12/47] fix: Point_add and Point_mul must refuse an operand
 that does not decompress (nil slice panic)

---
 eccset.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/eccset.go b/eccset.go
index 00ab96f..efcd4e8 100644
--- a/eccset.go
+++ b/eccset.go
@@ -438,7 +438,11 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 	} else {
 		if len(point1) == 33 {
-			point1 = PointDecompress(point1, typeChoose)[1:]
+			point1 = PointDecompress(point1, typeChoose)
+			if point1 == nil {
+				return nil, FAILURE
+			}
+			point1 = point1[1:]
 		} else if len(point1) == 65 {
 			point1 = point1[1:]
 		} else if len(point1) != 64 {
@@ -446,7 +450,11 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 
 		if len(point2) == 33 {
-			point2 = PointDecompress(point2, typeChoose)[1:]
+			point2 = PointDecompress(point2, typeChoose)
+			if point2 == nil {
+				return nil, FAILURE
+			}
+			point2 = point2[1:]
 		} else if len(point2) == 65 {
 			point2 = point2[1:]
 		} else if len(point2) != 64 {
@@ -502,7 +510,11 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 	} else {
 		if len(pointin) == 33 {
-			pointin = PointDecompress(pointin, typeChoose)[1:]
+			pointin = PointDecompress(pointin, typeChoose)
+			if pointin == nil {
+				return nil, FAILURE
+			}
+			pointin = pointin[1:]
 		} else if len(pointin) == 65 {
 			pointin = pointin[1:]
 		} else if len(pointin) != 64 {
-- 
2.43.0


From 20271a3ec993fbf7a0b878c1edb8525cb6000f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 13/47] fix: point decompression must refuse x without a point
 on the curve

---
 secp256k1.go | 4 +++-
 secp256r1.go | 4 +++-
 sm2_std.go   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/secp256k1.go b/secp256k1.go
index 43ac8bc..f0c3b8b 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -263,7 +263,9 @@ func secp256k1_decompress(in []byte) ([]byte, error) {
 	x3b.Mul(&x3b, x)
 	x3b.Add(&x3b, c.B)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("invalid input")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
diff --git a/secp256r1.go b/secp256r1.go
index c3aba71..e4426cb 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -56,7 +56,9 @@ func secp256r1_decompress(in []byte) ([]byte, error) {
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("invalid input")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
diff --git a/sm2_std.go b/sm2_std.go
index fb8aa9e..ee9fcea 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1635,7 +1635,9 @@ func sm2_std_decompress(in []byte) ([]byte, error){
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("invalid input")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
-- 
2.43.0


From f32d8e4e07709511dc071cc4fadd91488271945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 14/47] fix: RecoverPubkey must refuse r without an inverse or
 without a curve point (nil panics)

---
 secp256k1.go | 6 ++++++
 secp256r1.go | 6 ++++++
 sm2_std.go   | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/secp256k1.go b/secp256k1.go
index f0c3b8b..7cef058 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -301,6 +301,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := secp256k1
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil {
+		return nil, errors.New("invalid data")
+	}
 
 	G.Curve = curve
 	G.X = curve.Gx
@@ -328,6 +331,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256K1)
+		if buf1 == nil {
+			return nil, errors.New("invalid data")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
diff --git a/secp256r1.go b/secp256r1.go
index e4426cb..7553102 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -94,6 +94,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := secp256r1
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil {
+		return nil, errors.New("invalid data")
+	}
 	G.Curve = curve
 	G.X = curve.Gx
 	G.Y = curve.Gy
@@ -120,6 +123,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256R1)
+		if buf1 == nil {
+			return nil, errors.New("invalid data")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
diff --git a/sm2_std.go b/sm2_std.go
index ee9fcea..0c40d74 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1675,6 +1675,9 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := sm2_std
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil {
+		return nil, errors.New("invalid data")
+	}
 	G.Curve = curve
 	G.X = curve.Gx
 	G.Y = curve.Gy
@@ -1701,6 +1704,9 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SM2_STANDARD)
+		if buf1 == nil {
+			return nil, errors.New("invalid data")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
-- 
2.43.0


From 9b3eb1110ebe0fb958586e58fd41792828ae932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 15/47] fix: RecoverPubkey must not negate the point at
 infinity into (0, P) (hash = 0 mod N; panic on P-256)

---
 secp256k1.go | 1 +
 secp256r1.go | 1 +
 sm2_std.go   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/secp256k1.go b/secp256k1.go
index 7cef058..50387d2 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -348,6 +348,7 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
diff --git a/secp256r1.go b/secp256r1.go
index 7553102..b89fa18 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -138,6 +138,7 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.Curve = curve
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
diff --git a/sm2_std.go b/sm2_std.go
index 0c40d74..f6eb796 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1721,6 +1721,7 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
-- 
2.43.0


From 9716fb08bc2f1b343fc63312f58dac0872391b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:17 +0000
Subject: [PATCH 16/47] fix: RecoverPubkey must not fall back to the R of the
 other parity

---
 secp256k1.go | 7 +++++++
 secp256r1.go | 7 +++++++
 sm2_std.go   | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/secp256k1.go b/secp256k1.go
index 50387d2..3075d19 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -310,6 +310,10 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 	G.Y = curve.Gy
 
 	for k := 0; k < 2; k ++ {
+		if int(sig[64]) != 1-k {
+			continue
+		}
+
 		if k == 0 {
 			buf2[0] = 0x02
 		}
@@ -351,6 +355,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
+		if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+			return nil, errors.New("invalid data")
+		}
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
 
 		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
diff --git a/secp256r1.go b/secp256r1.go
index b89fa18..b9d9d18 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -102,6 +102,10 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 	G.Y = curve.Gy
 
 	for k := 0; k < 2; k ++ {
+		if int(sig[64]) != 1-k {
+			continue
+		}
+
 		if k == 0 {
 			buf2[0] = 0x02
 		}
@@ -141,6 +145,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
+		if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+			return nil, errors.New("invalid data")
+		}
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
 
 		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
diff --git a/sm2_std.go b/sm2_std.go
index f6eb796..5933ef8 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1683,6 +1683,10 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 	G.Y = curve.Gy
 
 	for k := 0; k < 2; k ++ {
+		if int(sig[64]) != 1-k {
+			continue
+		}
+
 		if k == 0 {
 			buf2[0] = 0x02
 		}
@@ -1724,6 +1728,9 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
+		if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+			return nil, errors.New("invalid data")
+		}
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
 
 		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
-- 
2.43.0


From 21bd79577f241d49d94b98f1abcec50bd79c08f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 17/47] fix: SM2 public key recovery must use the SM2 equation
 (returned an unrelated key with SUCCESS)

---
 sm2_std.go | 102 +++++++++++++++++++----------------------------------
 1 file changed, 36 insertions(+), 66 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 5933ef8..91609d3 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1663,85 +1663,55 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 		return nil, errors.New("invalid data")
 	}
 
-	buf2 := make([]byte, 33)
-	hash := make([]byte, 32)
-	s := new(big.Int)
-	R := new(ecdsa.PublicKey)
-	G := new(ecdsa.PublicKey)
-
-	copy(hash, msg)
-	copy(buf2[1:], sig[:32])
-
-	curve := sm2_std
-
-	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
-	if r_inv == nil {
+	if sig[64] > 1 {
 		return nil, errors.New("invalid data")
 	}
-	G.Curve = curve
-	G.X = curve.Gx
-	G.Y = curve.Gy
-
-	for k := 0; k < 2; k ++ {
-		if int(sig[64]) != 1-k {
-			continue
-		}
-
-		if k == 0 {
-			buf2[0] = 0x02
-		}
 
-		if k == 1 {
-			buf2[0] = 0x03
-		}
+	curve := sm2_std
 
-		if k == 0 {
-			if sig[64] == 1 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
-		}
+	r := new(big.Int).SetBytes(sig[:32])
+	s := new(big.Int).SetBytes(sig[32:64])
 
-		if k == 1 {
-			if sig[64] == 0 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
-		}
+	// R = s*G + (r+s)*Q, with R.x = r - e
+	t_inv := new(big.Int).ModInverse(new(big.Int).Add(r, s), curve.N)
+	if t_inv == nil {
+		return nil, errors.New("invalid data")
+	}
 
-		buf1 := PointDecompress(buf2, ECC_CURVE_SM2_STANDARD)
-		if buf1 == nil {
-			return nil, errors.New("invalid data")
-		}
+	x1 := new(big.Int).Sub(r, new(big.Int).SetBytes(msg))
+	x1.Mod(x1, curve.N)
 
-		R.Curve = curve
-		R.X = new(big.Int).SetBytes(buf1[1:33])
-		R.Y = new(big.Int).SetBytes(buf1[33:])
+	buf := make([]byte, 33)
+	buf[0] = 0x02 + sig[64]
+	tmp := x1.Bytes()
+	copy(buf[33-len(tmp):], tmp)
 
-		point1 := new(ecdsa.PublicKey)
-		point1.Curve = curve
-		point1.X, point1.Y = curve.ScalarMult(R.X, R.Y, s.Bytes())
+	R := PointDecompress(buf, ECC_CURVE_SM2_STANDARD)
+	if R == nil {
+		return nil, errors.New("invalid data")
+	}
 
-		point2 := new(ecdsa.PublicKey)
-		point2.Curve = curve
-		point2.X, point2.Y = curve.ScalarBaseMult(hash)
+	sx, sy := curve.ScalarBaseMult(s.Bytes())
+	sy.Sub(curve.P, sy)
+	sy.Mod(sy, curve.P)
 
-		point2.Y = point2.Y.Sub(curve.P, point2.Y)
-		point2.Y.Mod(point2.Y, curve.P)
+	x, y := curve.Add(new(big.Int).SetBytes(R[1:33]), new(big.Int).SetBytes(R[33:]), sx, sy)
+	if x.Sign() == 0 && y.Sign() == 0 {
+		return nil, errors.New("invalid data")
+	}
 
-		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
-		if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
-			return nil, errors.New("invalid data")
-		}
-		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
+	pub := new(ecdsa.PublicKey)
+	pub.Curve = curve
+	pub.X, pub.Y = curve.ScalarMult(x, y, t_inv.Bytes())
 
-		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
-			pubkey := make([]byte, 64)
-			x := point2.X.Bytes()
-			y := point2.Y.Bytes()
-			copy(pubkey[32-len(x):32], x)
-			copy(pubkey[64-len(y):], y)
+	if sm2_std_verify(pub, msg, nil, r, s) {
+		pubkey := make([]byte, 64)
+		x := pub.X.Bytes()
+		y := pub.Y.Bytes()
+		copy(pubkey[32-len(x):32], x)
+		copy(pubkey[64-len(y):], y)
 
-			return pubkey, nil
-		}
+		return pubkey, nil
 	}
 	return nil, errors.New("failed to decompress")
 }
\ No newline at end of file
-- 
2.43.0


From e7195e623d243fa8184835fc5d86996b2454824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 18/47] fix: SM2 decryption must refuse truncated ciphertexts,
 foreign point formats and points off the curve

---
 sm2_std.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm2_std.go b/sm2_std.go
index 91609d3..ed2cd0e 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1236,11 +1236,17 @@ func sm2_std_encrypt(pub *ecdsa.PublicKey, data []byte) ([]byte, error) {
 }
 
 func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
+	if len(data) <= 97 || data[0] != 0x04 {
+		return nil, ErrMessageIllegal
+	}
 	data = data[1:]
 	length := len(data) - 96
 	curve := priv.Curve
 	x := new(big.Int).SetBytes(data[:32])
 	y := new(big.Int).SetBytes(data[32:64])
+	if !curve.IsOnCurve(x, y) {
+		return nil, ErrMessageIllegal
+	}
 	x2, y2 := curve.ScalarMult(x, y, priv.D.Bytes())
 
 	x2Buf := make([]byte, 32)
-- 
2.43.0


From ee1f3c5be280b24f1694b2a6f3289bc3573b3ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 19/47] fix: SM2 encryption keys must be checked (zero private
 key, public key off the curve) and unauthentic plaintext withheld

---
 ecdsa.go   | 6 +++++-
 sm2_std.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecdsa.go b/ecdsa.go
index 8e09759..ec8293b 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -251,6 +251,10 @@ func encrypt(pubkey []byte, plain []byte, name string) ([]byte, error) {
 	pubk.X = new(big.Int).SetBytes(pubkey[:32])
 	pubk.Y = new(big.Int).SetBytes(pubkey[32:])
 
+	if !pubk.Curve.IsOnCurve(pubk.X, pubk.Y) {
+		return nil, ErrPublicKeyIllegal
+	}
+
 	return sm2_std_encrypt(pubk, plain)
 }
 
@@ -275,7 +279,7 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 	priv.D = privateKeyBig
 	sm2Curve = sm2_std
 
-	if privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
+	if privateKeyBig.Sign() == 0 || privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
 		return nil, ErrPrivateKeyIllegal
 	}
 
diff --git a/sm2_std.go b/sm2_std.go
index ed2cd0e..1ae5939 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1270,7 +1270,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	tm = append(tm, y2Buf...)
 	h := sm3.Sm3Sum(tm)
 	if bytes.Compare(h, data[64:96]) != 0 {
-		return c, errors.New("Decrypt: failed to decrypt")
+		return nil, errors.New("Decrypt: failed to decrypt")
 	}
 	return c, nil
 }
-- 
2.43.0


From 78b0af9a1b3032e40bad0421b5f0b95a9292ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 20/47] fix: SM2 signing must retry on r = 0 or r + k = n and
 refuse the private key n - 1 (nil panic)

---
 sm2_std.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 1ae5939..814bb87 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1067,6 +1067,9 @@ func sm2_std_sign(priv *ecdsa.PrivateKey, hash, uid []byte) (r, s *big.Int, v by
 	if N.Sign() == 0 {
 		return nil, nil, 0, ErrUnknownCurve
 	}
+	if new(big.Int).Add(priv.D, big.NewInt(1)).Cmp(N) == 0 {
+		return nil, nil, 0, ErrPrivateKeyIllegal
+	}
 	var k , ry *big.Int
 
 	for {
@@ -1086,10 +1089,10 @@ func sm2_std_sign(priv *ecdsa.PrivateKey, hash, uid []byte) (r, s *big.Int, v by
 				v = 0x00
 			}
 
-			if r.Sign() != 0 {
-				break
+			if r.Sign() == 0 {
+				continue
 			}
-			if t := new(big.Int).Add(r, k); t.Cmp(N) == 0 {
+			if t := new(big.Int).Add(r, k); t.Cmp(N) != 0 {
 				break
 			}
 		}
-- 
2.43.0


From 58088ac0fadd4a3e5bc5bb302ba713a95bce2445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 21/47] fix: SM2 key agreement must honour key lengths of 8192
 bytes and more (uint16 overflow)

---
 sm2_std.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 814bb87..101544b 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1278,7 +1278,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	return c, nil
 }
 
-func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint16) (key []byte) {
+func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint32) (key []byte) {
 
 	x := make([]byte, 32)
 	y := make([]byte, 32)
@@ -1459,7 +1459,7 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 		return nil, nil, err
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	s_check := ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 
@@ -1590,7 +1590,7 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 		return
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	Sinner = ka_check(0x03, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 	Souter = ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
-- 
2.43.0


From a274ef7e04c9611904cb12f9b7b11dcdb21b0db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 22/47] fix: SM2 key agreement must check the peer's public key
 and the shared point (slice panic, key from the point at infinity)

---
 sm2_std.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sm2_std.go b/sm2_std.go
index 101544b..02c1031 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1419,13 +1419,25 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 	point1.Curve = sm2_std
 	point1.X, point1.Y = sm2_std.ScalarMult(new(big.Int).SetBytes(tmpPubkeyResponder[:32]), new(big.Int).SetBytes(tmpPubkeyResponder[32:]), tmp2Bytes)
 
+	if pubkeyResponder == nil || len(pubkeyResponder) != 64 {
+		err = errors.New("invalid responder public key")
+		return
+	}
 	point2 := new(ecdsa.PublicKey)
 	point2.Curve = sm2_std
 	point2.X = new(big.Int).SetBytes(pubkeyResponder[:32])
 	point2.Y = new(big.Int).SetBytes(pubkeyResponder[32:])
+	if !sm2_std.IsOnCurve(point2.X, point2.Y) {
+		err = errors.New("invalid responder public key")
+		return
+	}
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
+	if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+		err = errors.New("shared point at infinity")
+		return
+	}
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
 		err = errors.New("invalid initiator public key")
@@ -1550,13 +1562,25 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 	point1.Curve = sm2_std
 	point1.X, point1.Y = sm2_std.ScalarMult(new(big.Int).SetBytes(tmpPubkeyInitiator[:32]), new(big.Int).SetBytes(tmpPubkeyInitiator[32:]), tmp2Bytes)
 
+	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
+		err = errors.New("invalid initiator public key")
+		return
+	}
 	point2 := new(ecdsa.PublicKey)
 	point2.Curve = sm2_std
 	point2.X = new(big.Int).SetBytes(pubkeyInitiator[:32])
 	point2.Y = new(big.Int).SetBytes(pubkeyInitiator[32:])
+	if !sm2_std.IsOnCurve(point2.X, point2.Y) {
+		err = errors.New("invalid initiator public key")
+		return
+	}
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
+	if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+		err = errors.New("shared point at infinity")
+		return
+	}
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
 		err = errors.New("invalid initiator public key")
-- 
2.43.0


From 090b18804eac963b832562a3e6435ddab6ad8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 23/47] fix: a failed SM2 key agreement must not hand out the
 key

---
 eccset.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/eccset.go b/eccset.go
index efcd4e8..11cd072 100644
--- a/eccset.go
+++ b/eccset.go
@@ -282,8 +282,7 @@ func KeyAgreement_initiator_step2(IDinitiator []byte,
 	var err error
 	key, Sout, err = sm2_std_ka_initiator_step2(IDinitiator, IDresponder, prikeyInitiator, pubkeyInitiator, pubkeyResponder, tmpPrikeyInitiator, tmpPubkeyInitiator, tmpPubkeyResponder, Sin, keylen)
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -309,8 +308,7 @@ func KeyAgreement_responder_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, nil, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -337,8 +335,7 @@ func KeyAgreement_responder_ElGamal_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, random, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
-- 
2.43.0


From b0ae1a1c95aca5bfd1ee9e9bf692a79211c6bb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 24/47] fix: KeyAgreement_initiator_step1 must refuse other
 curves

---
 eccset.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eccset.go b/eccset.go
index 11cd072..fe3c6db 100644
--- a/eccset.go
+++ b/eccset.go
@@ -259,6 +259,10 @@ func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte,
 
 ///////////////////////////////////////////////////////////密钥协商////////////////////////////////////////////////////////
 func KeyAgreement_initiator_step1(typeChoose uint32) (tmpPrikeyInitiator, tmpPubkeyInitiator []byte) {
+	if typeChoose != ECC_CURVE_SM2_STANDARD {
+		return nil, nil
+	}
+
 	tmpPrikeyInitiator, tmpPubkeyInitiator = sm2_std_ka_initiaor_step1()
 	return
 }
-- 
2.43.0


From 4bd597ba5fb9970f6f705e5bce1a9323e1a18b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 25/47] fix: ED25519 point addition must refuse operands that
 do not decode to a point

---
 eccset.go        | 9 +++++++++
 eddsa/ed25519.go | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/eccset.go b/eccset.go
index fe3c6db..897dfc4 100644
--- a/eccset.go
+++ b/eccset.go
@@ -412,7 +412,13 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		break
 	case ECC_CURVE_ED25519:
 		var point1, s, point2 [32]byte
+		if len(pointin) != 32 {
+			return nil, false
+		}
 		copy(point1[:], pointin)
+		if !eddsa.IsPoint(&point1) {
+			return nil, false
+		}
 		copy(s[:], scalar)
 		infinity := eddsa.ScalarMultBaseAdd(&point1, &s, &point2)
 		if infinity {
@@ -488,6 +494,9 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		var P1, P2, P [32]byte
 		copy(P1[:], point1)
 		copy(P2[:], point2)
+		if !eddsa.IsPoint(&P1) || !eddsa.IsPoint(&P2) {
+			return nil, FAILURE
+		}
 		infinity := eddsa.Point_add(&P1, &P2, &P)
 		if infinity {
 			return nil, FAILURE
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 1a81267..6c33e06 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -156,6 +156,12 @@ func feIsOne(f edwards25519.FieldElement) bool {
 	return true
 }
 
+// IsPoint reports whether point decodes to a point of the curve.
+func IsPoint(point *[32]byte) bool {
+	var P edwards25519.ExtendedGroupElement
+	return P.FromBytes(point)
+}
+
 func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	var (
 		P1    edwards25519.ExtendedGroupElement   //p3
-- 
2.43.0


From 162cb1a0f3cea31f8e1acd34a7cd3d6d198e8d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 26/47] fix: SM2 verification must refuse a signature whose
 point is the point at infinity

---
 sm2_std.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 02c1031..6a92099 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1149,10 +1149,12 @@ func sm2_std_verify(pub *ecdsa.PublicKey, hash, uid []byte, r, s *big.Int) bool
 		return false
 	}
 
-	var x *big.Int
 	x1, y1 := c.ScalarBaseMult(s.Bytes())
 	x2, y2 := c.ScalarMult(pub.X, pub.Y, t.Bytes())
-	x, _ = c.Add(x1, y1, x2, y2)
+	x, y := c.Add(x1, y1, x2, y2)
+	if x.Sign() == 0 && y.Sign() == 0 {
+		return false
+	}
 
 	x.Add(x, e)
 	x.Mod(x, N)
-- 
2.43.0


From 9a66d1a3f6bc06d24833fda0ad8e01deb002c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 27/47] fix: SM2 key agreement must take nonzero ephemeral keys
 and stop when the random source fails

---
 sm2_std.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 6a92099..fe0ce24 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1355,11 +1355,11 @@ func ka_check(value byte, Zinitiator, Zresponder, Rinitiator, Rresponder []byte,
 func sm2_std_ka_initiaor_step1() (tmpPrikeyInitiator, tmpPubkeyInitiator []byte) {
 	tmpPrikeyInitiator = make([]byte, 32)
 
-	random := make([]byte, 32)
-	rand.Read(random)
-	randbig := new(big.Int).SetBytes(random)
-	randbig.Mod(randbig, sm2_std.N)
-	random = randbig.Bytes()
+	randbig, err := randFieldElement(sm2_std, rand.Reader)
+	if err != nil {
+		return nil, nil
+	}
+	random := randbig.Bytes()
 	copy(tmpPrikeyInitiator[32-len(random):], random)
 	tmpPubkeyInitiator, _ = genPublicKey(tmpPrikeyInitiator, "sm2_std")
 
@@ -1519,11 +1519,12 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 	tmpPriResponder := make([]byte, 32)
 
 	if random == nil {
-		tmp := make([]byte, 32)
-		rand.Read(tmp)
-		randbig := new(big.Int).SetBytes(tmp)
-		randbig.Mod(randbig, sm2_std.N)
-		tmp = randbig.Bytes()
+		var randbig *big.Int
+		randbig, err = randFieldElement(sm2_std, rand.Reader)
+		if err != nil {
+			return
+		}
+		tmp := randbig.Bytes()
 		copy(tmpPriResponder[32-len(tmp):], tmp)
 		} else {
 		if len(random) != 32 {
-- 
2.43.0


From a708f089d016524ff110ba8b52297c85b5c83527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 28/47] fix: pasta signing nonces must use all 254 bits (the
 mask 0x03 left the top four always zero)

---
 pasta/pasta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index 1c77dcb..3843061 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -28,7 +28,7 @@ func Sign(privateKey, msg []byte) ([]byte, error) {
 	var k Scalar
 	for {
 		rand.Read(kBytes[:])
-		kBytes[0] &= 0x03
+		kBytes[0] &= 0x3F
 
 		k.Set(BigEndianBytesToFqMontgomeryArray(kBytes[:]))
 		var k_nonzero uint64
-- 
2.43.0


From c6cab095ad7ec86e8f35f1b907454491a46407a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 29/47] fix: pasta points must be decoded and checked (65-byte
 form read as (0, 0), wrong prefixes, non-residues and points off the curve
 accepted)

---
 pasta/crypto.go | 30 +++++++++++++++++++-----------
 pasta/utils.go  | 13 ++++++++++++-
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index d955aca..5a4960b 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -80,23 +80,28 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 		if err != nil {
 			return err
 		}
-		Decompress(a, compressed)
+		var pt Affine
+		if !Decompress(&pt, compressed) {
+			return errors.New("invalid input data p, no curve point has this x coordinate")
+		}
+		*a = pt
 	} else {
-		var x_mont, y_mont [4]uint64
-		var tmp [32]byte
 		if len(p) == 65 {
 			if p[0] != 0x04 {
 				return errors.New("invalid input data p, first byte is not 0x04")
 			}
 			p = p[1:]
-		} else {
-			copy(tmp[:], reverseBytes(p[:32]))
-			FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
-			copy(tmp[:], reverseBytes(p[32:]))
-			FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
 		}
-		a.X.Set(x_mont)
-		a.Y.Set(y_mont)
+		if !isCanonicalFp(p[:32]) || !isCanonicalFp(p[32:]) {
+			return errors.New("invalid input data p, coordinate is not a field element")
+		}
+		var pt Affine
+		pt.X.Set(BigEndianBytesToFpMontgomeryArray(p[:32]))
+		pt.Y.Set(BigEndianBytesToFpMontgomeryArray(p[32:]))
+		if AffineIsZero(pt) == 1 || !AffineIsOnCurve(pt) {
+			return errors.New("invalid input data p, not a point of the curve")
+		}
+		*a = pt
 	}
 
 	return nil
@@ -133,7 +138,10 @@ func (c *Compressed) FromBigEndianBytes(p []byte) error {
 	} else if p[0] == 0x03 {
 		c.IsOdd = true
 	} else {
-		errors.New("invalid input data p, first byte is not 0x02 or 0x03")
+		return errors.New("invalid input data p, first byte is not 0x02 or 0x03")
+	}
+	if !isCanonicalFp(p[1:]) {
+		return errors.New("invalid input data p, x coordinate is not a field element")
 	}
 
 	var tmp [32]byte
diff --git a/pasta/utils.go b/pasta/utils.go
index 0bdc01b..c36cad1 100644
--- a/pasta/utils.go
+++ b/pasta/utils.go
@@ -1,6 +1,17 @@
 package pasta
 
-import "encoding/binary"
+import (
+	"bytes"
+	"encoding/binary"
+)
+
+// order of the base field (Fp), big endian
+var fpOrder = [32]byte{0x40, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x22, 0x46, 0x98, 0xfc, 0x09, 0x4c, 0xf9, 0x1b, 0x99, 0x2d, 0x30, 0xed, 0, 0, 0, 0x01}
+
+// isCanonicalFp reports whether the 32 big endian bytes are less than the order of Fp.
+func isCanonicalFp(in []byte) bool {
+	return bytes.Compare(in, fpOrder[:]) < 0
+}
 
 func BytesArrayToU64Array(bytes [32]byte) (out [4]uint64) {
 	for i := 0; i < 4; i++ {
-- 
2.43.0


From 6eed929ebe327038eb26fe778245326039c683c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:31 +0000
Subject: [PATCH 30/47] fix: pasta verification must refuse signature halves
 that are not reduced (s + q verified)

---
 pasta/pasta.go | 4 ++++
 pasta/utils.go | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index 3843061..f092c38 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -77,6 +77,10 @@ func Verify(publicKey, msg, sig []byte) bool {
 		return false
 	}
 
+	if !isCanonicalFp(sig[:32]) || !isCanonicalFq(sig[32:]) {
+		return false
+	}
+
 	var r_mont, s_mont Scalar
 	r_mont.Set(BigEndianBytesToFpMontgomeryArray(sig[:32]))
 	s_mont.Set(BigEndianBytesToFqMontgomeryArray(sig[32:]))
diff --git a/pasta/utils.go b/pasta/utils.go
index c36cad1..4cf737e 100644
--- a/pasta/utils.go
+++ b/pasta/utils.go
@@ -5,14 +5,20 @@ import (
 	"encoding/binary"
 )
 
-// order of the base field (Fp), big endian
+// orders of the base field (Fp) and of the scalar field (Fq), big endian
 var fpOrder = [32]byte{0x40, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x22, 0x46, 0x98, 0xfc, 0x09, 0x4c, 0xf9, 0x1b, 0x99, 0x2d, 0x30, 0xed, 0, 0, 0, 0x01}
+var fqOrder = [32]byte{0x40, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x22, 0x46, 0x98, 0xfc, 0x09, 0x94, 0xa8, 0xdd, 0x8c, 0x46, 0xeb, 0x21, 0, 0, 0, 0x01}
 
 // isCanonicalFp reports whether the 32 big endian bytes are less than the order of Fp.
 func isCanonicalFp(in []byte) bool {
 	return bytes.Compare(in, fpOrder[:]) < 0
 }
 
+// isCanonicalFq reports whether the 32 big endian bytes are less than the order of Fq.
+func isCanonicalFq(in []byte) bool {
+	return bytes.Compare(in, fqOrder[:]) < 0
+}
+
 func BytesArrayToU64Array(bytes [32]byte) (out [4]uint64) {
 	for i := 0; i < 4; i++ {
 		out[i] = binary.LittleEndian.Uint64(bytes[i*8 : (i+1)*8])
-- 
2.43.0


From cef0793b24a7aeac38ecd7c00f17fb507d894e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 31/47] fix: pasta point operations must report failures and
 the point at infinity (nil or (0, 0) returned with SUCCESS; zero private key
 accepted)

---
 eccset.go      | 14 ++++++++++----
 pasta/pasta.go | 27 ++++++++++++++++++++++++---
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/eccset.go b/eccset.go
index 897dfc4..2bdb2c6 100644
--- a/eccset.go
+++ b/eccset.go
@@ -430,8 +430,8 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		return bls12_381.ScalarMultBaseAdd(pointin, scalar)
 		break
 	case ECC_CURVE_PASTA:
-		pointout, _ := pasta.PointMulBaseGAdd(pointin, scalar)
-		return pointout, false
+		pointout, err := pasta.PointMulBaseGAdd(pointin, scalar)
+		return pointout, err == pasta.ErrInfinity
 	default:
 		return nil, false
 	}
@@ -504,7 +504,10 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		return P[:], SUCCESS
 		break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointAdd(point1, point2)
+		pout, err := pasta.PointAdd(point1, point2)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
@@ -568,7 +571,10 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	//	return P[:], SUCCESS
 	//	break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointMul(pointin, scalar)
+		pout, err := pasta.PointMul(pointin, scalar)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
diff --git a/pasta/pasta.go b/pasta/pasta.go
index f092c38..6290e6c 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -5,6 +5,10 @@ import (
 	"errors"
 )
 
+// ErrInfinity reports that the result of a point operation is the point at infinity,
+// which has no encoding.
+var ErrInfinity = errors.New("the result is the point at infinity")
+
 // privateKey : big endian
 // publicKey  : big endian X || Y
 // all data is in big int field
@@ -15,6 +19,9 @@ func GenPublicKey(privateKey []byte) ([]byte, error) {
 
 	var publicKey Affine
 	GeneratePubkey(&publicKey, BigEndianBytesToFqMontgomeryArray(privateKey))
+	if AffineIsZero(publicKey) == 1 {
+		return nil, errors.New("invalid private key")
+	}
 	return publicKey.ToBigEndianBytes(), nil
 }
 
@@ -130,12 +137,20 @@ func PointMulBaseGAdd(pointin, scalar []byte) ([]byte, error) {
 	if pointin == nil || scalar == nil || len(scalar) != 32 {
 		return nil, errors.New("invalid input data")
 	}
-	pointTmp, err := GenPublicKey(scalar)
+	if scalar[0]&0xC0 != 0 {
+		return nil, errors.New("invalid scalar")
+	}
+	var r, p, q Affine
+	GeneratePubkey(&p, BigEndianBytesToFqMontgomeryArray(scalar))
+	err := q.FromBigEndianBytes(pointin)
 	if err != nil {
 		return nil, err
 	}
-
-	return PointAdd(pointTmp, pointin)
+	AffineAdd(&r, p, q)
+	if AffineIsZero(r) == 1 {
+		return nil, ErrInfinity
+	}
+	return r.ToBigEndianBytes(), nil
 }
 
 func PointAdd(point1, point2 []byte) ([]byte, error) {
@@ -153,6 +168,9 @@ func PointAdd(point1, point2 []byte) ([]byte, error) {
 		return nil, err
 	}
 	AffineAdd(&r, p, q)
+	if AffineIsZero(r) == 1 {
+		return nil, ErrInfinity
+	}
 	return r.ToBigEndianBytes(), nil
 }
 
@@ -168,6 +186,9 @@ func PointMul(pointin, scalar []byte) ([]byte, error) {
 		return nil, err
 	}
 	AffineScalarMul(&r, BigEndianBytesToFqMontgomeryArray(scalar), p)
+	if AffineIsZero(r) == 1 {
+		return nil, ErrInfinity
+	}
 
 	return r.ToBigEndianBytes(), nil
 }
-- 
2.43.0


From a9ee615f989af2768bb487ee85298127ac945ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 32/47] fix: pasta GroupAdd must recognise equal points with
 different Z, and GroupNegate must negate

---
 pasta/crypto.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index 5a4960b..582f17a 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -431,11 +431,6 @@ func GroupAdd(r *Group, p, q Group) {
 		return
 	}
 
-	if FieldEq(p.X, q.X) == 1 && FieldEq(p.Y, q.Y) == 1 && FieldEq(p.Z, q.Z) == 1 {
-		GroupDbl(r, p)
-		return
-	}
-
 	var z1z1, z2z2 Field
 	FieldSq(&z1z1, p.Z)
 	FieldSq(&z2z2, q.Z)
@@ -448,6 +443,12 @@ func GroupAdd(r *Group, p, q Group) {
 	FieldMul(&r.Y, p.Z, z1z1)
 	FieldMul(&s2, q.Y, r.Y)
 
+	// the same point, possibly with different Z coordinates
+	if FieldEq(u1, u2) == 1 && FieldEq(s1, s2) == 1 {
+		GroupDbl(r, p)
+		return
+	}
+
 	var h, i, j, w, v Field
 	FieldSub(&h, u2, u1)
 	FieldAdd(&r.Z, h, h)
@@ -510,7 +511,7 @@ func GroupScalarMul(r *Group, k Scalar, p Group) {
 
 func GroupNegate(q *Group, p Group) {
 	FieldCopy(&q.X, p.X)
-	FieldCopy(&q.Y, p.Y)
+	FieldNegate(&q.Y, p.Y)
 	FieldCopy(&q.Z, p.Z)
 }
 
-- 
2.43.0


From b1e7db6e68a12e95db6bafac28e07749536d8cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 33/47] fix: BLS keys must lie between 1 and the order minus 1
 (zero key accepted, signing reduced larger keys)

---
 bls12_381/bls12-381.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index df04c7e..703abd5 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -18,6 +18,10 @@ func isScalarLegal(scalar []byte) bool {
 	return true
 }
 
+func isZeroScalar(scalar []byte) bool {
+	return new(big.Int).SetBytes(scalar).Sign() == 0
+}
+
 func GenPublicKey(privateKey []byte) ([]byte, error) {
 	if len(privateKey) != 32 {
 		return nil, errors.New("invalid private key length")
@@ -25,6 +29,9 @@ func GenPublicKey(privateKey []byte) ([]byte, error) {
 	if !isScalarLegal(privateKey) {
 		return nil, errors.New("invalid private key data")
 	}
+	if isZeroScalar(privateKey) {
+		return nil, errors.New("invalid private key data")
+	}
 	publicKey := g1pubs.PrivToPub(newSK(privateKey))
 	pubBytes := publicKey.Serialize()
 
@@ -43,6 +50,9 @@ func Sign(privateKey, message []byte) ([]byte, error) {
 	if len(privateKey) != 32 {
 		return nil, errors.New("invalid private key lenth!")
 	}
+	if !isScalarLegal(privateKey) || isZeroScalar(privateKey) {
+		return nil, errors.New("invalid private key data")
+	}
 	prikey := NewScalar(privateKey)
 
 	return scheme.Sign(prikey, message)
-- 
2.43.0


From 1adcfbf9f2fe220b763927bf35b52066ffd1c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 34/47] fix: BLS verification must refuse public keys that do
 not decode (nil panic) and the point at infinity (universal forgery)

---
 bls12_381/bls12-381.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index 703abd5..b155372 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -2,6 +2,7 @@ package bls12_381
 
 import (
 	"errors"
+	"github.com/blocktree/go-owcrypt/bls12_381/bls"
 	sig "github.com/drand/kyber/sign/bls"
 	"github.com/phoreproject/bls/g1pubs"
 	"math/big"
@@ -66,8 +67,11 @@ func Verify(publicKey, message, signature []byte) bool {
 		return false
 	}
 	pk := NullOwcryptG1()
-	pk.UnmarshalBinary(publicKey)
-	err := scheme.Verify(pk, message, signature)
+	err := pk.UnmarshalBinary(publicKey)
+	if err != nil || bls.NewG1().IsZero(pk.p) {
+		return false
+	}
+	err = scheme.Verify(pk, message, signature)
 
 	if err != nil {
 		return false
-- 
2.43.0


From b96ebd030435c7603f07dd6fd104dc9e14e463a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:11 +0000
Subject: [PATCH 35/47] fix: BLS point addition must refuse points and scalars
 that do not decode (nil panic, trailing bytes) and report infinity

---
 bls12_381/bls12-381.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index b155372..9fd136a 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -112,16 +112,24 @@ func scalarMulG(scalar []byte) (*g1pubs.PublicKey, error) {
 
 func ScalarMultBaseAdd(pointin, scalar []byte) ([]byte, bool) {
 
-	pin, _ := newPK(pointin)
-
-	pScalar, _ := scalarMulG(scalar)
-
-	pout := g1pubs.NewPublicKeyFromG1(pin.GetPoint().Add(pScalar.GetPoint()).ToAffine())
+	if len(pointin) != 48 || NullOwcryptG1().UnmarshalBinary(pointin) != nil {
+		return nil, false
+	}
+	pin, err := newPK(pointin)
+	if err != nil {
+		return nil, false
+	}
 
-	poutBytes := pout.Serialize()
+	pScalar, err := scalarMulG(scalar)
+	if err != nil {
+		return nil, false
+	}
 
-	if new(big.Int).SetBytes(poutBytes[:]).Cmp(big.NewInt(0)) == 0 {
+	sum := pin.GetPoint().Add(pScalar.GetPoint()).ToAffine()
+	if sum.IsZero() {
 		return nil, true
 	}
+
+	poutBytes := g1pubs.NewPublicKeyFromG1(sum).Serialize()
 	return poutBytes[:], false
-}
\ No newline at end of file
+}
-- 
2.43.0


From b85b6905b71bb59d804e768e66b1a7909c5c7ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 36/47] fix: BLS points must be decoded from exactly their
 length (AggregateSignatures accepted trailing bytes)

---
 bls12_381/g1.go | 4 ++++
 bls12_381/g2.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/bls12_381/g1.go b/bls12_381/g1.go
index 7824caa..c4e3f35 100644
--- a/bls12_381/g1.go
+++ b/bls12_381/g1.go
@@ -3,6 +3,7 @@ package bls12_381
 import (
 	"crypto/cipher"
 	"encoding/hex"
+	"errors"
 	"github.com/blocktree/go-owcrypt/bls12_381/bls"
 
 	"io"
@@ -97,6 +98,9 @@ func (k *OwcryptG1) MarshalBinary() ([]byte, error) {
 }
 
 func (k *OwcryptG1) UnmarshalBinary(buff []byte) error {
+	if len(buff) != k.MarshalSize() {
+		return errors.New("invalid point length")
+	}
 	var err error
 	k.p, err = bls.NewG1().FromCompressed(buff)
 	return err
diff --git a/bls12_381/g2.go b/bls12_381/g2.go
index c445d50..5a8ea4f 100644
--- a/bls12_381/g2.go
+++ b/bls12_381/g2.go
@@ -4,6 +4,7 @@ import (
 	"crypto/cipher"
 	"crypto/sha256"
 	"encoding/hex"
+	"errors"
 	"github.com/blocktree/go-owcrypt/bls12_381/bls"
 	"io"
 	"strings"
@@ -103,6 +104,9 @@ func (k *OwcryptG2) MarshalBinary() ([]byte, error) {
 }
 
 func (k *OwcryptG2) UnmarshalBinary(buff []byte) error {
+	if len(buff) != k.MarshalSize() {
+		return errors.New("invalid point length")
+	}
 	var err error
 	k.p, err = bls.NewG2(nil).FromCompressed(buff)
 	return err
-- 
2.43.0


From 54e778dcc4e9615b0602939d51d24981ccf3cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 37/47] fix: BLS messages without a scheme tag must be refused
 (all of them hashed to the point at infinity)

---
 bls12_381/bls12-381.go | 6 ++++++
 bls12_381/g2.go        | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index 9fd136a..3a96cf3 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -54,6 +54,9 @@ func Sign(privateKey, message []byte) ([]byte, error) {
 	if !isScalarLegal(privateKey) || isZeroScalar(privateKey) {
 		return nil, errors.New("invalid private key data")
 	}
+	if !hasSchemePrefix(message) {
+		return nil, errors.New("message without a signature scheme tag")
+	}
 	prikey := NewScalar(privateKey)
 
 	return scheme.Sign(prikey, message)
@@ -66,6 +69,9 @@ func Verify(publicKey, message, signature []byte) bool {
 	if len(publicKey) != 48 || len(message) == 0 || len(signature) != 96 {
 		return false
 	}
+	if !hasSchemePrefix(message) {
+		return false
+	}
 	pk := NullOwcryptG1()
 	err := pk.UnmarshalBinary(publicKey)
 	if err != nil || bls.NewG1().IsZero(pk.p) {
diff --git a/bls12_381/g2.go b/bls12_381/g2.go
index 5a8ea4f..6fb16b4 100644
--- a/bls12_381/g2.go
+++ b/bls12_381/g2.go
@@ -143,6 +143,12 @@ const (
 	aug_scheme_dst = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_AUG_"
 )
 
+// hasSchemePrefix reports whether m starts with one of the tags Hash knows. The hash of
+// any other message would be the point at infinity.
+func hasSchemePrefix(m []byte) bool {
+	return strings.HasPrefix(string(m), basic_scheme_dst) || strings.HasPrefix(string(m), aug_scheme_dst)
+}
+
 func (k *OwcryptG2) Hash(m []byte) kyber.Point {
 	if strings.Index(string(m), basic_scheme_dst) == 0 {
 		pg2, _ := bls.NewG2(nil).HashToCurve(m[len(basic_scheme_dst):], m[:len(basic_scheme_dst)])
-- 
2.43.0


From 4df02e4396cb47e89f4b887b0004af3e5e1447e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 38/47] fix: sm3 Sum must leave the hash state alone and append
 the digest to its argument

---
 sm3/sm3.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 997f47a..f1ba108 100755
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -159,24 +159,18 @@ func (sm3 *SM3) Write(p []byte) (int, error) {
 }
 
 func (sm3 *SM3) Sum(in []byte) []byte {
-	sm3.Write(in)
-	msg := sm3.pad()
+	// pad a copy, the caller can keep writing and summing
+	d := *sm3
+	d.unhandleMsg = append([]byte{}, sm3.unhandleMsg...)
+	msg := d.pad()
 
-	sm3.update(msg, len(msg)/sm3.BlockSize())
-
-	needed := sm3.Size()
-	if cap(in)-len(in) < needed {
-		newIn := make([]byte, len(in), len(in)+needed)
-		copy(newIn, in)
-		in = newIn
-	}
-	out := in[len(in) : len(in)+needed]
+	d.update(msg, len(msg)/d.BlockSize())
 
+	var out [32]byte
 	for i := 0; i < 8; i++ {
-		binary.BigEndian.PutUint32(out[i*4:], sm3.digest[i])
+		binary.BigEndian.PutUint32(out[i*4:], d.digest[i])
 	}
-	return out
-
+	return append(in, out[:]...)
 }
 
 func Sm3Sum(data []byte) []byte {
-- 
2.43.0


From ace5808ef165c9db3cdd3d4b054f7ed04b61a66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 39/47] fix: sha3 Clone of a squeezing SHAKE must find the
 unread bytes (slice panic for rates below 168)

---
 sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sha3/sha3.go b/sha3/sha3.go
index 65b5031..f0ca870 100755
--- a/sha3/sha3.go
+++ b/sha3/sha3.go
@@ -69,7 +69,7 @@ func (d *state) clone() *state {
 	if ret.state == spongeAbsorbing {
 		ret.buf = ret.storage[:len(ret.buf)]
 	} else {
-		ret.buf = ret.storage[d.rate-cap(d.buf) : d.rate]
+		ret.buf = ret.storage[maxRate-cap(d.buf) : d.rate]
 	}
 
 	return &ret
-- 
2.43.0


From 3e56132191973da51edd68e6857f874f827df31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 40/47] fix: ED25519 signing must use the scalar the public key
 was made from (signatures of unclamped keys did not verify)

---
 eddsa/ed25519.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 6c33e06..d352286 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -57,9 +57,6 @@ func ED25519_sign(prikey, message []byte) ([]byte, error) {
 	var messageDigest, hramDigest [64]byte
 
 	copy(expandedSecretKey[:], prikey[:])
-	expandedSecretKey[0] &= 248
-	expandedSecretKey[31] &= 63
-	expandedSecretKey[31] |= 64
 	rand.Read(digest1[:])
 	h := sha512.New()
 	h.Write(digest1[:])
-- 
2.43.0


From b16ce914b9b8fc9fac2531eb2ae0fc1683604e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 41/47] fix: ED25519 and X25519 scalars of 2^255 and more must
 be reduced before multiplying (wrong public keys and points)

---
 eddsa/ed25519.go | 15 ++++++++++++---
 eddsa/x25519.go  |  3 +--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index d352286..998b601 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -26,14 +26,22 @@ var (
 	ErrPrivateKeyIllegal = errors.New("Invalid private key data!")
 )
 
+// reduceScalar reduces 32 little endian bytes modulo the order of the base point, which
+// the scalar multiplications need: they are wrong for scalars of 2^255 and more.
+func reduceScalar(scalar []byte) (out [32]byte) {
+	var wide [64]byte
+	copy(wide[:32], scalar)
+	edwards25519.ScReduce(&out, &wide)
+	return
+}
+
 func ED25519_genPub(prikey []byte) ([]byte, error) {
 	if prikey == nil || len(prikey) != 32 {
 		return nil, ErrPrivateKeyIllegal
 	}
 
 	var A edwards25519.ExtendedGroupElement
-	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	hBytes := reduceScalar(prikey)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
@@ -170,7 +178,8 @@ func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	)
 	P1.FromBytes(point1)
 	one[0] = 1
-	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, scalar)
+	reduced := reduceScalar(scalar[:])
+	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, &reduced)
 
 	edwards25519.FeInvert(&recip, &R.Z)
 	edwards25519.FeMul(&x, &R.X, &recip)
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 8129c64..704e3df 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -27,8 +27,7 @@ func X25519_genPub(prikey []byte) ([]byte, error) {
 	}
 
 	var A edwards25519.ExtendedGroupElement
-	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	hBytes := reduceScalar(prikey)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
-- 
2.43.0


From e59947f50ddccaa8db7853cab6192e5a4f47b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 42/47] fix: X25519 and Curve25519-SHA256 signatures of the
 empty message must verify

---
 eddsa/curve25519_sha256.go | 2 +-
 eddsa/x25519.go            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index 7d31193..a20db8f 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -67,7 +67,7 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 }
 
 func CURVE25519_sha256_verify(pubkey, message,signature []byte) bool {
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 704e3df..6e2a6c9 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -604,7 +604,7 @@ func verify_modify(message, sm, pubkey []byte) bool {
 
 func X25519_verify(pubkey, message,signature []byte) bool {
 
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
-- 
2.43.0


From b823565857a21f2ec0b69b3c6036e06146e0191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 43/47] fix: ED25519, X25519 and pasta signing must stop when
 the random source fails

---
 eddsa/ed25519.go | 4 +++-
 eddsa/x25519.go  | 4 +++-
 pasta/pasta.go   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 998b601..dee60ba 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -65,7 +65,9 @@ func ED25519_sign(prikey, message []byte) ([]byte, error) {
 	var messageDigest, hramDigest [64]byte
 
 	copy(expandedSecretKey[:], prikey[:])
-	rand.Read(digest1[:])
+	if _, err := rand.Read(digest1[:]); err != nil {
+		return nil, err
+	}
 	h := sha512.New()
 	h.Write(digest1[:])
 	h.Write(message)
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 6e2a6c9..0a0ae18 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -442,7 +442,9 @@ func X25519_sign(prikey, message []byte) ([]byte, error) {
 	signbit := ed_pubkey[31] & 0x80
 	sm := make([]byte, len(message) + 128)
 	random := make([]byte, 64)
-	rand.Read(random)
+	if _, err := rand.Read(random); err != nil {
+		return nil, err
+	}
 
 	signature := sign_modify(sm, message, prikey, ed_pubkey, random)
 
diff --git a/pasta/pasta.go b/pasta/pasta.go
index 6290e6c..c65f11b 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -34,7 +34,9 @@ func Sign(privateKey, msg []byte) ([]byte, error) {
 
 	var k Scalar
 	for {
-		rand.Read(kBytes[:])
+		if _, err := rand.Read(kBytes[:]); err != nil {
+			return nil, err
+		}
 		kBytes[0] &= 0x3F
 
 		k.Set(BigEndianBytesToFqMontgomeryArray(kBytes[:]))
-- 
2.43.0


From a22d6d2613d913b281c3138db74298fa92587f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 44/47] fix: bls12_381: use -1/Z, not 1/Z, for the exceptional
 case of the G2 simplified SWU map

---
 bls12_381/bls/swu.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bls12_381/bls/swu.go b/bls12_381/bls/swu.go
index 0242999..6ebf373 100644
--- a/bls12_381/bls/swu.go
+++ b/bls12_381/bls/swu.go
@@ -149,8 +149,8 @@ var swuParamsForG2 = struct {
 		fe{4897101644811774638, 3654671041462534141, 569769440802610537, 17053147383018470266, 17227549637287919721, 291242102765847046},
 	},
 	zInv: &fe2{
-		fe{949978046398372251, 9282594348372276018, 12783089135259591524, 8269126545290330608, 594742981125487701, 491256564635846792},
-		fe{15449598521694521480, 14910517655282017894, 6549664756007020895, 17931849781271742567, 2408680398672607296, 691271026505846537},
+		fe{12452452969679491344, 11374291236854484173, 13099329512014041791, 17416955488833933518, 4817360797345214593, 1382542053011693074},
+		fe{16399576568092893731, 5746367929944742296, 886009817557060804, 7754232252852521560, 3003423379798094998, 1182527591141693329},
 	},
 	minusBOverA: &fe2{
 		fe{10393275865055580083, 6888480573845999877, 11497223857339693790, 14306043441748627554, 5078453791572287059, 1040691004897901061},
-- 
2.43.0


From 4f7825a4be370ad9bffc38df8a66e2e5900d6330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 45/47] fix: sextic Frobenius map must not overwrite its input
 for odd third powers

---
 bls12_381/bls/fp6.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bls12_381/bls/fp6.go b/bls12_381/bls/fp6.go
index e1b1414..86724d3 100644
--- a/bls12_381/bls/fp6.go
+++ b/bls12_381/bls/fp6.go
@@ -344,13 +344,15 @@ func (e *fp6) frobeniusMap(c, a *fe6, power uint) {
 	fp2.frobeniousMap(&c[0], &a[0], power)
 	fp2.frobeniousMap(&c[1], &a[1], power)
 	fp2.frobeniousMap(&c[2], &a[2], power)
+	t := e.t
 	switch power % 6 {
 	case 0:
 		return
 	case 3:
-		neg(&c[0][0], &a[1][1])
-		c[1][1].Set(&a[1][0])
-		fp2.neg(&a[2], &a[2])
+		neg(&t[0][0], &c[1][1])
+		c[1][1].Set(&c[1][0])
+		c[1][0].Set(&t[0][0])
+		fp2.neg(&c[2], &c[2])
 	default:
 		fp2.mul(&c[1], &c[1], &frobeniusCoeffs61[power%6])
 		fp2.mul(&c[2], &c[2], &frobeniusCoeffs62[power%6])
-- 
2.43.0


From 2121f08194532aec8eb14eefa2402cc9f50ae04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:22 +0000
Subject: [PATCH 46/47] fix: SM2 addition of a point to itself must give its
 double (it gave the point at infinity)

---
 sm2_std.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm2_std.go b/sm2_std.go
index fe0ce24..ede5201 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -476,7 +476,8 @@ func sm2_stdPointAdd(x1, y1, z1, x2, y2, z2, x3, y3, z3 *sm2_stdFieldElement) {
 
 	if sm2_stdToBig(&u1).Cmp(sm2_stdToBig(&u2)) == 0 &&
 		sm2_stdToBig(&s1).Cmp(sm2_stdToBig(&s2)) == 0 {
-		sm2_stdPointDouble(x1, y1, z1, x1, y1, z1)
+		sm2_stdPointDouble(x3, y3, z3, x1, y1, z1)
+		return
 	}
 
 	sm2_stdSub(&h, &u2, &u1)
-- 
2.43.0


From 6accd080e8e3779c42217290213278ceef839cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:59 +0000
Subject: [PATCH 47/47] fix: SM2 field reduction must not borrow from an empty
 limb when the eliminated limb is 1

With x == 1 and tmp[i+9] == 0 the term (x>>1)-1 wrapped to 2^32-1, so the
product of two field elements came out wrong.  2^28 was just added to
tmp[i+8], so no borrow is needed in that case.
---
 sm2_std.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index ede5201..5af1fdb 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -827,7 +827,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] < 0x20000000 && x > 1 {
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= 1
 					tmp[i+8] -= x >> 4
@@ -841,7 +841,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] < 0x20000000 && x > 1 {
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= x >> 4
 					tmp[i+9] += ((x >> 1) - 1) & xMask
-- 
2.43.0

