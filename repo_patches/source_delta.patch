From 465f6bb74779e69696a41aa3a8b057c508f8c54c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 01/22] fix: Rescale copies the input when there is nothing to
 divide by

---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3bd8a1f..1885ddc 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -390,7 +390,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
+			ctOut.Ciphertext.Copy(ctIn.Ciphertext)
 		}
 	}
 
-- 
2.43.0


From 9f207d862ad127f5721eeecf5a48fe8a059638b9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:24:15 +0000
Subject: [PATCH 02/22] fix: Rescale stops at level zero instead of indexing
 below it

---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 1885ddc..3cd02b5 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -377,7 +377,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From 6e8303bbd0b638557e419309db7c12a35ba406ae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:24:15 +0000
Subject: [PATCH 03/22] fix: Decryptor no longer stays at the lowest level it
 ever decrypted

---
 mkckks/decryptor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index d567ba9..cb3e156 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -34,6 +34,8 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	// the pool may still have the level of an earlier decryption
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:ctTmp.Level()+1]
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From ac33359a93d54f7dd50f32582880bb84e58d2104 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:24:16 +0000
Subject: [PATCH 04/22] fix: Conjugate works below the maximum level

---
 mkrlwe/keyswitch.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..443e7af 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -297,6 +297,25 @@ func (ks *KeySwitcher) Rotate(ctIn *Ciphertext, rotidx int, rkSet *RotationKeySe
 
 }
 
+// permuteLvl applies the automorphism X^{i} -> X^{i*galEl} for the moduli from 0 to level.
+// polIn must be in InvNTT form and must not be polOut.
+func permuteLvl(level int, ringQ *ring.Ring, polIn *ring.Poly, galEl uint64, polOut *ring.Poly) {
+
+	mask := uint64(ringQ.N - 1)
+	logN := uint64(bits.Len64(mask))
+
+	for i := uint64(0); i < uint64(ringQ.N); i++ {
+
+		indexRaw := i * galEl
+		index := indexRaw & mask
+		tmp := (indexRaw >> logN) & 1
+
+		for j, qi := range ringQ.Modulus[:level+1] {
+			polOut.Coeffs[j][index] = polIn.Coeffs[j][i]*(tmp^1) | (qi-polIn.Coeffs[j][i])*tmp
+		}
+	}
+}
+
 // Conjugate conjugate ctIn with ctOut with ConjugationKeySet and returns the result in ctOut.
 // Input ciphertext should be in NTT form
 func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctOut *Ciphertext) {
@@ -313,7 +332,7 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 
 	// permute ctIn and put it to ctOut
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		permuteLvl(level, ringQ, ctIn.Value[id], galEl, ctOut.Value[id])
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From 7eb630c801963c3914ab5a18289dc5c9269e349a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:24:16 +0000
Subject: [PATCH 05/22] fix: GenKeyPairSparse takes the id it used to read from
 a nil key

---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..3e13268 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From 6a05e134646efa2571bab633c0f395201b6baf8d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:24:17 +0000
Subject: [PATCH 06/22] fix: ModDownQPtoP divides by the moduli of Q it was
 given

---
 mkrlwe/basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 23574d3..e6514dd 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -309,7 +309,7 @@ func (basisextender *FastBasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1
 		p1tmp := p1P.Coeffs[i]
 		p2tmp := p2P.Coeffs[i]
 		p3tmp := polypool.Coeffs[i]
-		params := qi - modDownParams[levelP][i]
+		params := qi - modDownParams[levelQ][i]
 		mredParams := ringP.MredParams[i]
 
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-- 
2.43.0


From e35a646622c21179bf6a77fb732a84fe6a4f830c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:24:17 +0000
Subject: [PATCH 07/22] fix: GenRotationKey checks the CRS of the index it will
 use

---
 mkrlwe/keygen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 3e13268..fa0b361 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,17 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
+	// adjust rotidx
+	for rotidx < 0 {
+		rotidx += (params.N() / 2)
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
 		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
 	}
 
-	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
-
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
-- 
2.43.0


From 819d958a84cd9f2ea15e4b693faa51bf4c52c650 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:25:39 +0000
Subject: [PATCH 08/22] fix: MultByConst multiplies by complex constants in the
 coefficient domain

---
 mkckks/evaluator.go | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3cd02b5..2b24aa9 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -120,34 +120,40 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
-	// Component wise multiplication of the following vector with the ciphertext:
-	// [a + b*psi_qi^2, ....., a + b*psi_qi^2, a - b*psi_qi^2, ...., a - b*psi_qi^2] mod Qi
-	// [{                  N/2                }{                N/2               }]
-	// Which is equivalent outside of the NTT domain to adding a to the first coefficient of ct0 and b to the N/2-th coefficient of ct0.
+	// Multiplication of the ciphertext, which is not in the NTT domain, with a + b*X^{N/2}:
+	// X^{N/2} is the imaginary unit in every slot, and X^{N} = -1.
 	ringQ := eval.params.RingQ()
-	var scaledConst, scaledConstReal, scaledConstImag uint64
+	var scaledConst, scaledConstImag uint64
 	for i := 0; i < level+1; i++ {
 
 		qi := ringQ.Modulus[i]
 		bredParams := ringQ.BredParams[i]
 		mredParams := ringQ.MredParams[i]
 
-		scaledConstReal = 0
-		scaledConstImag = 0
 		scaledConst = 0
 
 		if cReal != 0 {
-			scaledConstReal = scaleUpExact(cReal, scale, qi)
-			scaledConst = scaledConstReal
+			scaledConst = scaleUpExact(cReal, scale, qi)
 		}
 
+		scaledConst = ring.MForm(scaledConst, qi, bredParams)
+
 		if cImag != 0 {
-			scaledConstImag = scaleUpExact(cImag, scale, qi)
-			scaledConstImag = ring.MRed(scaledConstImag, ringQ.NttPsi[i][1], qi, mredParams)
-			scaledConst = ring.CRed(scaledConst+scaledConstImag, qi)
-		}
+			scaledConstImag = ring.MForm(scaleUpExact(cImag, scale, qi), qi, bredParams)
 
-		scaledConst = ring.MForm(scaledConst, qi, bredParams)
+			for u := range ct0.Value {
+				p0tmp := ct0.Value[u].Coeffs[i]
+				p1tmp := ctOut.Value[u].Coeffs[i]
+
+				for j, k := 0, ringQ.N>>1; k < ringQ.N; j, k = j+1, k+1 {
+					x, y := p0tmp[j], p0tmp[k]
+					p1tmp[j] = ring.CRed(ring.MRed(x, scaledConst, qi, mredParams)+qi-ring.MRed(y, scaledConstImag, qi, mredParams), qi)
+					p1tmp[k] = ring.CRed(ring.MRed(y, scaledConst, qi, mredParams)+ring.MRed(x, scaledConstImag, qi, mredParams), qi)
+				}
+			}
+
+			continue
+		}
 
 		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
@@ -169,11 +175,6 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 			}
 		}
 
-		if cImag != 0 {
-			scaledConst = ring.CRed(scaledConstReal+(qi-scaledConstImag), qi)
-			scaledConst = ring.MForm(scaledConst, qi, bredParams)
-		}
-
 		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
-- 
2.43.0


From b0630c101d4d0ab4f143a2923428b1b4bb6186cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:25:39 +0000
Subject: [PATCH 09/22] fix: whole constants of 2^63 and more are not taken for
 fractions

---
 mkckks/evaluator.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 2b24aa9..2260f53 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -47,19 +47,13 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
-
-			if valueFloat != 0 {
+			if cReal != math.Trunc(cReal) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
-
-			if valueFloat != 0 {
+			if cImag != math.Trunc(cImag) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
@@ -69,10 +63,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
-
-			if valueFloat != 0 {
+			if cReal != math.Trunc(cReal) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
-- 
2.43.0


From 34cf8fc7f601ae91aa4154cc28976abf9472f97b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:25:40 +0000
Subject: [PATCH 10/22] fix: Decomposer covers every special modulus when gamma
 does not divide their number

---
 mkrlwe/basis_extension.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index e6514dd..a928c4a 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -401,7 +401,7 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 			for j := 0; j < xalpha[i]-1; j++ {
 
 				Qi := make([]uint64, j+2)
-				Pi := make([]uint64, len(Q)+len(P))
+				Pi := make([]uint64, len(Q)+len(ringP.Modulus))
 
 				for k := 0; k < j+2; k++ {
 					Qi[k] = Q[i*alpha+k]
@@ -411,8 +411,8 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 					Pi[k] = Q[k]
 				}
 
-				for k := len(Q); k < len(Q)+len(P); k++ {
-					Pi[k] = P[k-len(Q)]
+				for k := len(Q); k < len(Q)+len(ringP.Modulus); k++ {
+					Pi[k] = ringP.Modulus[k-len(Q)]
 				}
 
 				decomposer.modUpParams[lvlP][i][j] = basisextenderparameters(Qi, Pi)
-- 
2.43.0


From 41afe219b5c820f79c958c12954402aae6668d9b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:25:40 +0000
Subject: [PATCH 11/22] fix: Decrypt converts the result to the domain of the
 plaintext, as documented

---
 mkrlwe/decryptor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkrlwe/decryptor.go b/mkrlwe/decryptor.go
index 0566c76..9f88158 100644
--- a/mkrlwe/decryptor.go
+++ b/mkrlwe/decryptor.go
@@ -63,4 +63,10 @@ func (decryptor *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *SecretKeySet,
 	}
 
 	ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+
+	if isNTT := ctTmp.Value["0"].IsNTT; isNTT && !plaintext.Value.IsNTT {
+		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
+	} else if !isNTT && plaintext.Value.IsNTT {
+		ringQ.NTTLvl(level, plaintext.Value, plaintext.Value)
+	}
 }
-- 
2.43.0


From bd197c5b81e5878ef3750590e3141b9f52bf8d2c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:25:41 +0000
Subject: [PATCH 12/22] fix: Encrypt clears and levels the other components of
 its output

---
 mkrlwe/encryptor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mkrlwe/encryptor.go b/mkrlwe/encryptor.go
index f96b91f..17e87fb 100644
--- a/mkrlwe/encryptor.go
+++ b/mkrlwe/encryptor.go
@@ -115,6 +115,13 @@ func (encryptor *Encryptor) Encrypt(plaintext *rlwe.Plaintext, pk *PublicKey, ct
 	ctOut.Value["0"].Coeffs = ctOut.Value["0"].Coeffs[:levelQ+1]
 	ctOut.Value[id].Coeffs = ctOut.Value[id].Coeffs[:levelQ+1]
 
+	// the other parties take no part in a fresh encryption
+	for other := range ctOut.Value {
+		if other != "0" && other != id {
+			ctOut.Value[other].Coeffs = ctOut.Value[other].Coeffs[:levelQ+1]
+			ctOut.Value[other].Zero()
+		}
+	}
 }
 
 // NewEncryptor instatiates a new generic RLWE Encryptor. The key argument can
-- 
2.43.0


From fa2b42254f9b5b24136a3e50a37cf1b6aed79f6e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:25:41 +0000
Subject: [PATCH 13/22] fix: MulRelinNew keeps its scratch space out of the
 shared key set

---
 mkckks/evaluator.go | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 2260f53..ee5c95d 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -15,6 +15,7 @@ type Evaluator struct {
 	ksw       *mkrlwe.KeySwitcher
 	ctxtPool  *mkrlwe.Ciphertext
 	polyQPool *ring.Poly
+	hoistPool [2]*mkrlwe.HoistedCiphertext
 }
 
 // NewEvaluator creates a new Evaluator, that can be used to do homomorphic
@@ -34,6 +35,8 @@ func NewEvaluator(params Parameters) *Evaluator {
 	eval.polyQPool = ringQ.NewPoly()
 	eval.polyQPool.IsNTT = true
 
+	eval.hoistPool = [2]*mkrlwe.HoistedCiphertext{mkrlwe.NewHoistedCiphertext(), mkrlwe.NewHoistedCiphertext()}
+
 	return eval
 }
 
@@ -407,31 +410,27 @@ func (eval *Evaluator) RescaleNew(ct0 *Ciphertext, threshold float64) (ctOut *Ci
 // The procedure will panic if the evaluator was not created with an relinearization key.
 func (eval *Evaluator) MulRelinNew(op0, op1 *Ciphertext, rlkSet *mkrlwe.RelinearizationKeySet) (ctOut *Ciphertext) {
 
+	// Decomposed ciphertexts are saved at the evaluator's pool: rlkSet may be shared with other evaluators
+	eval.hoist(op0, eval.hoistPool[0])
+
 	//case of square
 	if op0 == op1 {
-		idset := op0.IDSet()
-		// Save decomposed ciphertext at rlkSet's pool
-		for id := range idset.Value {
-			eval.ksw.Decompose(op0.Level(), op0.Value[id], rlkSet.HoistPool[0].Value[id])
-		}
-
-		return eval.MulRelinHoistedNew(op0, op1, rlkSet.HoistPool[0], rlkSet.HoistPool[0], rlkSet)
+		return eval.MulRelinHoistedNew(op0, op1, eval.hoistPool[0], eval.hoistPool[0], rlkSet)
+	}
 
-	} else {
-		idset0 := op0.IDSet()
-		idset1 := op1.IDSet()
+	eval.hoist(op1, eval.hoistPool[1])
 
-		for id := range idset0.Value {
-			eval.ksw.Decompose(op0.Level(), op0.Value[id], rlkSet.HoistPool[0].Value[id])
-		}
+	return eval.MulRelinHoistedNew(op0, op1, eval.hoistPool[0], eval.hoistPool[1], rlkSet)
+}
 
-		for id := range idset1.Value {
-			eval.ksw.Decompose(op1.Level(), op1.Value[id], rlkSet.HoistPool[1].Value[id])
+// hoist saves the decomposed components of ct at ctHoisted
+func (eval *Evaluator) hoist(ct *Ciphertext, ctHoisted *mkrlwe.HoistedCiphertext) {
+	for id := range ct.IDSet().Value {
+		if ctHoisted.Value[id] == nil {
+			ctHoisted.Value[id] = mkrlwe.NewSwitchingKey(eval.params.Parameters)
 		}
-
-		return eval.MulRelinHoistedNew(op0, op1, rlkSet.HoistPool[0], rlkSet.HoistPool[1], rlkSet)
+		eval.ksw.Decompose(ct.Level(), ct.Value[id], ctHoisted.Value[id])
 	}
-
 }
 
 // MulRelin multiplies op0 with op1 with relinearization and returns the result in ctOut.
-- 
2.43.0


From aebe4d299a1dd1fe4d2e375f0fc481bef4d2505a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:27:42 +0000
Subject: [PATCH 14/22] fix: Rescale leaves its operand as it was

---
 mkckks/evaluator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index ee5c95d..45a0aa9 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -380,7 +380,9 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	if nbRescales > 0 {
 		level := ctIn.Level()
 		for i := range ctOut.Value {
-			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
+			// the division writes to its input
+			ring.CopyValuesLvl(level, ctIn.Value[i], eval.polyQPool)
+			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, eval.polyQPool, eval.polyQPool, ctOut.Value[i])
 			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
 		}
 	} else {
-- 
2.43.0


From f3e32dfa3321e6e4066dde44c3fa3e28178bcf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:02 +0000
Subject: [PATCH 15/22] Report decryptions to a monitor in builds with the
 verif tag

---
 mkckks/decryptor.go   |  1 +
 mkckks/observe_off.go |  7 +++++++
 mkckks/observe_on.go  | 13 +++++++++++++
 3 files changed, 21 insertions(+)
 create mode 100644 mkckks/observe_off.go
 create mode 100644 mkckks/observe_on.go

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index cb3e156..b8710e9 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -40,6 +40,7 @@ func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
 	msg.Value = dec.encoder.Decode(dec.ptxtPool, dec.params.logSlots)
+	observeDecryption(ciphertext, msg)
 
 	return
 }
diff --git a/mkckks/observe_off.go b/mkckks/observe_off.go
new file mode 100644
index 0000000..d0014f5
--- /dev/null
+++ b/mkckks/observe_off.go
@@ -0,0 +1,7 @@
+//go:build !verif
+// +build !verif
+
+package mkckks
+
+// observeDecryption does nothing: builds with the verif tag report decryptions to a monitor.
+func observeDecryption(ciphertext *Ciphertext, msg *Message) {}
diff --git a/mkckks/observe_on.go b/mkckks/observe_on.go
new file mode 100644
index 0000000..65d2e7d
--- /dev/null
+++ b/mkckks/observe_on.go
@@ -0,0 +1,13 @@
+//go:build verif
+// +build verif
+
+package mkckks
+
+// DecryptionObserver, if set, is shown every decrypted ciphertext with its message.
+var DecryptionObserver func(ciphertext *Ciphertext, msg *Message)
+
+func observeDecryption(ciphertext *Ciphertext, msg *Message) {
+	if DecryptionObserver != nil {
+		DecryptionObserver(ciphertext, msg)
+	}
+}
-- 
2.43.0


From 87c0bab59dbd79eb4407b3d080e0f3d779d55593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:30 +0000
Subject: [PATCH 16/22] fix: MulPtxtNew accepts an encoded message in either
 domain

---
 mkckks/evaluator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 45a0aa9..b2f0a2f 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -460,7 +460,11 @@ func (eval *Evaluator) MulPtxtNew(ct *Ciphertext, pt *ckks.Plaintext) (ctOut *Ci
 
 	level := ct.Level()
 
-	eval.params.RingQ().NTTLvl(level, pt.Value, eval.polyQPool)
+	if pt.Value.IsNTT {
+		ring.CopyValuesLvl(level, pt.Value, eval.polyQPool)
+	} else {
+		eval.params.RingQ().NTTLvl(level, pt.Value, eval.polyQPool)
+	}
 	eval.params.RingQ().MFormLvl(level, eval.polyQPool, eval.polyQPool)
 
 	for id := range ct.Value {
-- 
2.43.0


From 85ddb38be4c14bb36376efbfe017d35da5943aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:03 +0000
Subject: [PATCH 17/22] fix: Rescale returns its documented error for an output
 of another level or party set

---
 mkckks/evaluator.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index b2f0a2f..1af463b 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -367,6 +367,16 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		return errors.New("cannot Rescale: input Ciphertext already at level 0")
 	}
 
+	if ctIn.Level() != ctOut.Level() {
+		return errors.New("cannot Rescale: input and output Ciphertexts are at different levels")
+	}
+
+	for id := range ctIn.Value {
+		if len(ctIn.Value) != len(ctOut.Value) || ctOut.Value[id] == nil {
+			return errors.New("cannot Rescale: input and output Ciphertexts have different parties")
+		}
+	}
+
 	ctOut.Scale = ctIn.Scale
 
 	var nbRescales int
-- 
2.43.0


From 6c619e36988448598e56f506e395a25f846664ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:44 +0000
Subject: [PATCH 18/22] fix: an evaluator keeps no buffers for parties of
 earlier operands

---
 mkckks/evaluator.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 1af463b..deb674e 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -296,6 +296,12 @@ func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(
 		}
 	}
 
+	// parties of earlier operands keep no place in the pool
+	for id := range eval.ctxtPool.IDSet().Value {
+		if !idset.Has(id) {
+			delete(eval.ctxtPool.Value, id)
+		}
+	}
 }
 
 func (eval *Evaluator) newCiphertextBinary(op0, op1 *Ciphertext) (ctOut *Ciphertext) {
@@ -443,6 +449,13 @@ func (eval *Evaluator) hoist(ct *Ciphertext, ctHoisted *mkrlwe.HoistedCiphertext
 		}
 		eval.ksw.Decompose(ct.Level(), ct.Value[id], ctHoisted.Value[id])
 	}
+
+	// parties of earlier operands keep no place in the pool
+	for id := range ctHoisted.Value {
+		if !ct.IDSet().Has(id) {
+			delete(ctHoisted.Value, id)
+		}
+	}
 }
 
 // MulRelin multiplies op0 with op1 with relinearization and returns the result in ctOut.
-- 
2.43.0


From ec8a96c50021cab8375f9d69ae014a17e4e5dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:44 +0000
Subject: [PATCH 19/22] fix: deleting a party's keys releases all that was held
 for them

---
 mkrlwe/keys.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkrlwe/keys.go b/mkrlwe/keys.go
index 8e5b5b9..d1ee2c4 100644
--- a/mkrlwe/keys.go
+++ b/mkrlwe/keys.go
@@ -145,6 +145,9 @@ func (rkSet *RotationKeySet) AddRotationKey(rk *RotationKey) {
 // DelRotationKeys delete rotation keys of given id from RotationKeysSet
 func (rkSet *RotationKeySet) DelRotationKey(id string, rotidx uint) {
 	delete(rkSet.Value[id], rotidx)
+	if len(rkSet.Value[id]) == 0 {
+		delete(rkSet.Value, id)
+	}
 }
 
 // GetRotationKeys returns a rotation keys of given id from RotationKeysSet
@@ -184,6 +187,8 @@ func (rlkSet *RelinearizationKeySet) AddRelinearizationKey(rlk *RelinearizationK
 // DelRelinearizationKey delete publickey of given id from SecretKeySet
 func (rlkSet *RelinearizationKeySet) DelRelinearizationKey(id string) {
 	delete(rlkSet.Value, id)
+	delete(rlkSet.HoistPool[0].Value, id)
+	delete(rlkSet.HoistPool[1].Value, id)
 }
 
 // GetRelinearizationKey returns a publickey of given id from RelinearizationKeySet
-- 
2.43.0


From 02525524e59f391976abeadb9ee3d9b936ad7b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:10 +0000
Subject: [PATCH 20/22] fix: DropLevel refuses to drop the last modulus

---
 mkckks/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index deb674e..325d29d 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -100,6 +100,10 @@ func (eval *Evaluator) DropLevelNew(ct0 *Ciphertext, levels int) (ctOut *Ciphert
 func (eval *Evaluator) DropLevel(ct0 *Ciphertext, levels int) {
 	level := ct0.Level()
 
+	if levels > level {
+		panic("cannot DropLevel: there are not so many levels")
+	}
+
 	for id := range ct0.Value {
 		ct0.Value[id].Coeffs = ct0.Value[id].Coeffs[:level+1-levels]
 	}
-- 
2.43.0


From 75092bd97874c33c151f11c4e897dcae5cc2612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:15 +0000
Subject: [PATCH 21/22] fix: DropLevel refuses a negative number of levels

Levels dropped in place can still be within the capacity of the slices: a
negative number brought them back with the values they had before.
---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 325d29d..063a6e0 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -100,7 +100,7 @@ func (eval *Evaluator) DropLevelNew(ct0 *Ciphertext, levels int) (ctOut *Ciphert
 func (eval *Evaluator) DropLevel(ct0 *Ciphertext, levels int) {
 	level := ct0.Level()
 
-	if levels > level {
+	if levels < 0 || levels > level {
 		panic("cannot DropLevel: there are not so many levels")
 	}
 
-- 
2.43.0


From b9aa6d672774adf150c0c42f2fae4c4b5232159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:15 +0000
Subject: [PATCH 22/22] fix: MultByConst writes its product to outputs of any
 level and parties

An output above the operand's level kept its old residues for the upper
primes, and one with more parties kept their old components.
---
 mkckks/evaluator.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 063a6e0..290c5c2 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -114,6 +114,23 @@ func (eval *Evaluator) DropLevel(ct0 *Ciphertext, levels int) {
 // needs to be scaled (its rational part is not zero)). The constant can be a uint64, int64, float64 or complex128.
 func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
 
+	if ctOut.Level() > ct0.Level() {
+		eval.DropLevel(ctOut, ctOut.Level()-ct0.Level())
+	}
+
+	// parties which are not involved in ct0 have no part in the product
+	for id := range ctOut.Value {
+		if ct0.Value[id] == nil {
+			ctOut.Value[id].Zero()
+		}
+	}
+
+	eval.multByConst(ct0, constant, ctOut)
+}
+
+// multByConst multiplies ct0 by the input constant and returns the result in the first levels of its components in ctOut.
+func (eval *Evaluator) multByConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
+
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
@@ -225,11 +242,11 @@ func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(
 
 			tmp1 = eval.ctxtPool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 		} else if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
 
 			ctOut.SetScalingFactor(c1Scale)
 
@@ -248,11 +265,11 @@ func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(
 
 			tmp0 = eval.ctxtPool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
 
 			ctOut.SetScalingFactor(c0Scale)
 
@@ -271,7 +288,7 @@ func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(
 
 			tmp0 = eval.ctxtPool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 			tmp1 = c1.El()
 
@@ -279,7 +296,7 @@ func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(
 
 			tmp1 = eval.ctxtPool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 			tmp0 = c0.El()
 
-- 
2.43.0

