From f8df546651d87f4eceb394e55061296b5b9baf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 001/117] fix: QEngine::ForceM() on a single bit vector must
 force the requested value

---
 src/qengine/qengine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index c9a1d73..809930b 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -122,7 +122,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
 
     // Single bit operations are better optimized for this special case:
     if (bits.size() == 1U) {
-        if (ForceM(bits[0U], values.empty() ? false : values[0U], false, doApply)) {
+        if (ForceM(bits[0U], values.empty() ? false : values[0U], !values.empty(), doApply)) {
             return pow2(bits[0U]);
         }
 
-- 
2.43.0


From ef572cd5bc2309186055f85f40bd825180eb94fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 002/117] fix: INCC/DECC/INCSC/DECSC lost the carry-in when the
 amount to add is 0 modulo the register size

---
 include/qinterface.hpp |  8 ++++++++
 src/qalu.cpp           | 24 ++++++++++++++++++++++++
 src/qunit.cpp          |  8 ++++++++
 3 files changed, 40 insertions(+)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 70ef79c..c471361 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2145,6 +2145,10 @@ public:
     {
         const bool hasCarry = M(carryIndex);
         if (hasCarry) {
+            if (bi_compare_0((toAdd + 1U) & pow2Mask(length)) == 0) {
+                // The register is unchanged, and the carry is set again.
+                return;
+            }
             X(carryIndex);
             INCDECC(toAdd + 1U, start, length, carryIndex);
         } else {
@@ -2158,6 +2162,10 @@ public:
         const bool hasCarry = M(carryIndex);
         bitCapInt invToSub = pow2(length) - toSub;
         if (hasCarry) {
+            if (bi_compare_0(invToSub & pow2Mask(length)) == 0) {
+                // The register is unchanged, and the carry is set again, (without borrow).
+                return;
+            }
             X(carryIndex);
         } else {
             --invToSub;
diff --git a/src/qalu.cpp b/src/qalu.cpp
index 0f825a3..00ce7c1 100644
--- a/src/qalu.cpp
+++ b/src/qalu.cpp
@@ -51,6 +51,10 @@ void QAlu::INCC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLe
 
     const bool hasCarry = M(carryIndex);
     if (hasCarry) {
+        if (bi_compare_0((toAdd + 1U) & pow2Mask(length)) == 0) {
+            // The register is unchanged, and the carry is set again.
+            return;
+        }
         X(carryIndex);
         INCDECC(toAdd + 1U, start, length, carryIndex);
     } else {
@@ -64,6 +68,10 @@ void QAlu::DECC(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLe
     const bool hasCarry = M(carryIndex);
     bitCapInt invToSub = pow2(length) - toSub;
     if (hasCarry) {
+        if (bi_compare_0(invToSub & pow2Mask(length)) == 0) {
+            // The register is unchanged, and the carry is set again, (without borrow).
+            return;
+        }
         X(carryIndex);
     } else {
         --invToSub;
@@ -83,6 +91,10 @@ void QAlu::INCSC(
 {
     const bool hasCarry = M(carryIndex);
     if (hasCarry) {
+        if (bi_compare_0((toAdd + 1U) & pow2Mask(length)) == 0) {
+            // The register is unchanged, and the carry is set again.
+            return;
+        }
         X(carryIndex);
         INCDECSC(toAdd + 1U, start, length, overflowIndex, carryIndex);
     } else {
@@ -101,6 +113,10 @@ void QAlu::DECSC(
     const bool hasCarry = M(carryIndex);
     bitCapInt invToSub = pow2(length) - toSub;
     if (hasCarry) {
+        if (bi_compare_0(invToSub & pow2Mask(length)) == 0) {
+            // The register is unchanged, and the carry is set again, (without borrow).
+            return;
+        }
         X(carryIndex);
     } else {
         --invToSub;
@@ -119,6 +135,10 @@ void QAlu::INCSC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitL
 {
     const bool hasCarry = M(carryIndex);
     if (hasCarry) {
+        if (bi_compare_0((toAdd + 1U) & pow2Mask(length)) == 0) {
+            // The register is unchanged, and the carry is set again.
+            return;
+        }
         X(carryIndex);
         INCDECSC(toAdd + 1U, start, length, carryIndex);
     } else {
@@ -137,6 +157,10 @@ void QAlu::DECSC(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitL
     const bool hasCarry = M(carryIndex);
     bitCapInt invToSub = pow2(length) - toSub;
     if (hasCarry) {
+        if (bi_compare_0(invToSub & pow2Mask(length)) == 0) {
+            // The register is unchanged, and the carry is set again, (without borrow).
+            return;
+        }
         X(carryIndex);
     } else {
         --invToSub;
diff --git a/src/qunit.cpp b/src/qunit.cpp
index a77d95f..ab4544f 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3104,6 +3104,10 @@ void QUnit::INC(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
 void QUnit::INCC(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt length, bitLenInt carryIndex)
 {
     if (M(carryIndex)) {
+        if (bi_compare_0((toAdd + 1U) & pow2Mask(length)) == 0) {
+            // The register is unchanged, and the carry is set again.
+            return;
+        }
         X(carryIndex);
         INT(toAdd + 1, inOutStart, length, carryIndex, true);
     } else {
@@ -3116,6 +3120,10 @@ void QUnit::DECC(const bitCapInt& toSub, bitLenInt inOutStart, bitLenInt length,
 {
     bitCapInt invToSub = pow2(length) - toSub;
     if (M(carryIndex)) {
+        if (bi_compare_0(invToSub & pow2Mask(length)) == 0) {
+            // The register is unchanged, and the carry is set again, (without borrow).
+            return;
+        }
         X(carryIndex);
     } else {
         --invToSub;
-- 
2.43.0


From 4a95c40ce9bcda6c7cc960d3130fc608dd239c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 003/117] fix: QEngineCPU Decompose()/Dispose() must not
 average (periodic) phase angles over branches

---
 src/qengine/state.cpp | 108 ++++++++++++++++--------------------------
 1 file changed, 41 insertions(+), 67 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 0eb31c9..5cd2b06 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1160,12 +1160,9 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
 
     // Note that the extra parentheses mean to init as 0:
     std::unique_ptr<real1[]> remainderStateProb(new real1[remainderPower]());
-    std::unique_ptr<real1[]> remainderStateAngle(new real1[remainderPower]());
     std::unique_ptr<real1[]> partStateProb;
-    std::unique_ptr<real1[]> partStateAngle;
     if (destination) {
         partStateProb = std::unique_ptr<real1[]>(new real1[partPower]());
-        partStateAngle = std::unique_ptr<real1[]>(new real1[partPower]());
     }
 
     if (doNormalize) {
@@ -1173,89 +1170,66 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
     }
     Finish();
 
-    if (destination) {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
-
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                const complex amp = stateVec->read(j | (k << start));
-                const real1 nrm = norm(amp);
-                remainderStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    partStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
-        par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
-            const bitCapIntOcl j = lcv << start;
+    const bitCapIntOcl startMask = pow2MaskOcl(start);
+    const auto remainderIndex = [startMask, length](const bitCapIntOcl& lcv) {
+        const bitCapIntOcl j = lcv & startMask;
+        return j | ((lcv ^ j) << length);
+    };
 
-            for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
-
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                partStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        const bitCapIntOcl j = remainderIndex(lcv);
 
-            const real1 prob = partStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                partStateAngle[lcv] /= prob;
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
-            }
-        });
-    } else {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
+        for (bitCapIntOcl k = 0U; k < partPower; ++k) {
+            remainderStateProb[lcv] += norm(stateVec->read(j | (k << start)));
+        }
+    });
 
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                remainderStateProb[lcv] += norm(stateVec->read(j | (k << start)));
-            }
-        });
+    if (destination) {
         par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
             const bitCapIntOcl j = lcv << start;
 
             for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
-
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
+                partStateProb[lcv] += norm(stateVec->read(j | remainderIndex(k)));
             }
         });
     }
 
+    // For a separable state, every "row" (or "column") of the state matrix has the same relative phases, so take all
+    // phases from the row and column of a dominant amplitude. (Phase angles are periodic, and cannot be averaged.)
+    bitCapIntOcl refRemainder = 0U;
+    for (bitCapIntOcl lcv = 1U; lcv < remainderPower; ++lcv) {
+        if (remainderStateProb[lcv] > remainderStateProb[refRemainder]) {
+            refRemainder = lcv;
+        }
+    }
+    const bitCapIntOcl refRow = remainderIndex(refRemainder);
+    bitCapIntOcl refPart = 0U;
+    real1 refNorm = norm(stateVec->read(refRow));
+    for (bitCapIntOcl lcv = 1U; lcv < partPower; ++lcv) {
+        const real1 nrm = norm(stateVec->read(refRow | (lcv << start)));
+        if (nrm > refNorm) {
+            refPart = lcv;
+            refNorm = nrm;
+        }
+    }
+    const bitCapIntOcl refColumn = refPart << start;
+    const real1 refAngle = arg(stateVec->read(refRow | refColumn));
+
+    std::unique_ptr<real1[]> remainderStateAngle(new real1[remainderPower]());
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        remainderStateAngle[lcv] = arg(stateVec->read(remainderIndex(lcv) | refColumn));
+    });
+
     if (destination) {
         destination->Dump();
 
         par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+            const real1 partStateAngle = arg(stateVec->read(refRow | (lcv << start))) - refAngle;
             destination->stateVec->write(
-                lcv, std::polar((real1)std::sqrt((real1_s)partStateProb[lcv]), partStateAngle[lcv]));
+                lcv, std::polar((real1)std::sqrt((real1_s)partStateProb[lcv]), partStateAngle));
         });
 
         partStateProb.reset();
-        partStateAngle.reset();
     }
 
     SetQubitCount(nLength);
-- 
2.43.0


From 6f96e09e4763ff8012d0f63b1f0e8b9c6d5a774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 004/117] fix: FSim() ignored theta=pi, doubled theta in the
 generic decomposition, and negated phi in special cases

---
 include/qinterface.hpp  | 10 +++++++---
 src/qbdt/tree.cpp       |  8 ++++++--
 src/qengine/qengine.cpp |  4 ++--
 src/qpager.cpp          |  8 ++++++--
 src/qstabilizer.cpp     | 10 +++++++---
 5 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index c471361..6b72d0b 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2396,7 +2396,11 @@ public:
         MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
 
         if ((2 * abs(sinTheta)) <= (FP_NORM_EPSILON * PI_R1)) {
-            // ISWAP power is 0.
+            // ISWAP power is 0, (or a multiple of 4 pi, up to negating both basis states with odd parity).
+            if (cos(theta) < ZERO_R1) {
+                Z(qubit1);
+                Z(qubit2);
+            }
             return;
         }
 
@@ -2416,7 +2420,7 @@ public:
         H(qubit1);
         H(qubit2);
         CNOT(qubit1, qubit2);
-        RZ(2 * theta, qubit2);
+        RZ(theta, qubit2);
         CNOT(qubit1, qubit2);
         H(qubit2);
         H(qubit1);
@@ -2427,7 +2431,7 @@ public:
         H(qubit1);
         H(qubit2);
         CNOT(qubit1, qubit2);
-        RZ(2 * theta, qubit2);
+        RZ(theta, qubit2);
         CNOT(qubit1, qubit2);
         H(qubit2);
         H(qubit1);
diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index 671a62e..5753611 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -760,10 +760,14 @@ void QBdt::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
     const std::vector<bitLenInt> controls{ qubit1 };
     const real1_f sinTheta = sin(theta);
     if ((sinTheta * sinTheta) <= FP_NORM_EPSILON_F) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        if (cos(theta) < ZERO_R1_F) {
+            Z(qubit1);
+            Z(qubit2);
+        }
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
     }
 
-    const complex expIPhi = exp(complex(ZERO_R1, (real1)phi));
+    const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
     const real1_f sinThetaDiffNeg = ONE_R1_F + sinTheta;
     if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON_F) {
         ISwap(qubit1, qubit2);
diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 809930b..179788e 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -448,8 +448,8 @@ void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit
     }
 
     const real1 sinTheta = (real1)sin(theta);
-    if ((sinTheta * sinTheta) > FP_NORM_EPSILON) {
-        const real1 cosTheta = (real1)cos(theta);
+    const real1 cosTheta = (real1)cos(theta);
+    if (((sinTheta * sinTheta) > FP_NORM_EPSILON) || (cosTheta < ZERO_R1)) {
         const complex fSimSwap[4U]{ complex(cosTheta, ZERO_R1), complex(ZERO_R1, -sinTheta),
             complex(ZERO_R1, -sinTheta), complex(cosTheta, ZERO_R1) };
         const bitCapIntOcl qPowersSorted[2U]{ pow2Ocl(qubit1), pow2Ocl(qubit2) };
diff --git a/src/qpager.cpp b/src/qpager.cpp
index 80c4428..494eafe 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1424,10 +1424,14 @@ void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2
     const real1 sinTheta = (real1)sin(theta);
 
     if ((sinTheta * sinTheta) <= FP_NORM_EPSILON) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        if (cos(theta) < ZERO_R1) {
+            Z(qubit1);
+            Z(qubit2);
+        }
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
     }
 
-    const complex expIPhi = exp(complex(ZERO_R1, (real1)phi));
+    const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
 
     const real1 sinThetaDiffNeg = ONE_R1 + sinTheta;
     if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON) {
diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index df74a39..804b324 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -32,7 +32,7 @@
 #endif
 
 #define IS_0_R1(r) (abs(r) <= REAL1_EPSILON)
-#define IS_1_R1(r) (abs(r) <= REAL1_EPSILON)
+#define IS_1_R1(r) (abs(ONE_R1 - (r)) <= REAL1_EPSILON)
 
 namespace Qrack {
 
@@ -2358,12 +2358,16 @@ void QStabilizer::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt q
     real1 sinTheta = (real1)sin(theta);
 
     if (IS_0_R1(sinTheta)) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        if (cos(theta) < ZERO_R1_F) {
+            Z(qubit1);
+            Z(qubit2);
+        }
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
     }
 
     if (IS_1_R1(-sinTheta)) {
         ISwap(qubit1, qubit2);
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
     }
 
     throw std::domain_error("QStabilizer::FSim() not implemented for non-Clifford/Pauli cases!");
-- 
2.43.0


From 3be62cfa3fe94b6616414b056d888472af018315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 005/117] fix: VarianceFloatsFactorized() returned the mean
 product of weights for two or more qubits

---
 src/qinterface/qinterface.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 0804b1f..b5d728f 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -644,11 +644,12 @@ real1_f QInterface::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits,
 
     real1_f expectation = ZERO_R1_F;
     for (bitCapInt lcv = ZERO_BCI; bi_compare(lcv, maxQPower) < 0; bi_increment(&lcv, 1U)) {
-        real1_f weight = ONE_R1_F;
+        real1_f weight = ZERO_R1_F;
         for (size_t p = 0U; p < bits.size(); ++p) {
-            weight *= (bi_compare_0(lcv & bitPowers[p]) == 0) ? weights[p << 1U] : weights[(p << 1U) | 1U];
+            weight += (bi_compare_0(lcv & bitPowers[p]) != 0) ? weights[(p << 1U) | 1U] : weights[p << 1U];
         }
-        expectation += weight * ProbAll(lcv);
+        const real1_f diff = weight - mean;
+        expectation += diff * diff * ProbAll(lcv);
     }
 
     return expectation;
-- 
2.43.0


From 5139c7844749cf81f885dc47cecffcade79f5ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 006/117] fix: QEngineCPU IndexedSBC() skipped amplitudes when
 the value register is longer than one qubit

---
 src/qengine/arithmetic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 67d640d..1e6e3ec 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -1122,7 +1122,7 @@ bitCapInt QEngineCPU::IndexedSBC(bitLenInt indexStart, bitLenInt indexLength, bi
     const bitCapIntOcl otherMask = (maxQPowerOcl - 1U) & (~(inputMask | outputMask | carryMask));
     const bitCapIntOcl skipPower = pow2Ocl(carryIndex);
 
-    par_for_skip(0, maxQPowerOcl, skipPower, valueLength, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+    par_for_skip(0, maxQPowerOcl, skipPower, 1, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
         // These are qubits that are not directly involved in the
         // operation. We iterate over all of their possibilities, but their
         // input value matches their output value:
-- 
2.43.0


From 7e0ba981ace3836309852b6ccd9c9a12209f9135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 007/117] fix: ExpectationPauliAll()/VariancePauliAll() must
 return moments of the tensor product

---
 src/qinterface/qinterface.cpp | 83 +++++++++--------------------------
 1 file changed, 21 insertions(+), 62 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index b5d728f..8f97b07 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -657,67 +657,21 @@ real1_f QInterface::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits,
 
 real1_f QInterface::VariancePauliAll(std::vector<bitLenInt> bits, std::vector<Pauli> paulis)
 {
-    for (size_t i = 0U; i < bits.size(); ++i) {
-        const size_t j = bits.size() - (i + 1U);
-        if (paulis[j] == PauliI) {
-            bits.erase(bits.begin() + j);
-            paulis.erase(paulis.begin() + j);
-        }
-    }
-
-    if (bits.empty()) {
-        return ONE_R1;
-    }
-
-    std::vector<real1_f> eigenVals;
-    eigenVals.reserve(bits.size() << 1U);
-    for (size_t i = 0U; i < bits.size(); ++i) {
-        eigenVals.push_back(ONE_R1);
-        eigenVals.push_back(-ONE_R1);
-
-        switch (paulis[i]) {
-        case PauliX:
-            H(bits[i]);
-            break;
-        case PauliY:
-            IS(bits[i]);
-            H(bits[i]);
-            break;
-        case PauliZ:
-        case PauliI:
-        default:
-            break;
-        }
-    }
-
-    const real1_f toRet = VarianceFloatsFactorized(bits, eigenVals);
+    // The square of any Pauli string is the identity.
+    const real1_f mean = ExpectationPauliAll(bits, paulis);
 
-    for (size_t i = 0U; i < bits.size(); ++i) {
-        switch (paulis[i]) {
-        case PauliX:
-            H(bits[i]);
-            break;
-        case PauliY:
-            H(bits[i]);
-            S(bits[i]);
-            break;
-        case PauliZ:
-        case PauliI:
-        default:
-            break;
-        }
-    }
-
-    return toRet;
+    return ONE_R1_F - mean * mean;
 }
 
 real1_f QInterface::ExpectationPauliAll(std::vector<bitLenInt> bits, std::vector<Pauli> paulis)
 {
-    for (size_t i = 0U; i < bits.size(); ++i) {
-        const size_t j = bits.size() - (i + 1U);
-        if (paulis[j] == PauliI) {
-            bits.erase(bits.begin() + j);
-            paulis.erase(paulis.begin() + j);
+    ThrowIfQbIdArrayIsBad(bits, qubitCount,
+        "QInterface::ExpectationPauliAll() parameter qubits vector values must be within allocated qubit bounds!");
+
+    for (size_t j = bits.size(); j > 0U; --j) {
+        if (paulis[j - 1U] == PauliI) {
+            bits.erase(bits.begin() + (j - 1U));
+            paulis.erase(paulis.begin() + (j - 1U));
         }
     }
 
@@ -725,12 +679,7 @@ real1_f QInterface::ExpectationPauliAll(std::vector<bitLenInt> bits, std::vector
         return ONE_R1;
     }
 
-    std::vector<real1_f> eigenVals;
-    eigenVals.reserve(bits.size() << 1U);
     for (size_t i = 0U; i < bits.size(); ++i) {
-        eigenVals.push_back(ONE_R1);
-        eigenVals.push_back(-ONE_R1);
-
         switch (paulis[i]) {
         case PauliX:
             H(bits[i]);
@@ -746,7 +695,17 @@ real1_f QInterface::ExpectationPauliAll(std::vector<bitLenInt> bits, std::vector
         }
     }
 
-    const real1_f toRet = ExpectationFloatsFactorized(bits, eigenVals);
+    // The tensor product eigenvalue is the parity of all bits.
+    const bitLenInt target = bits.back();
+    for (size_t i = 0U; i < (bits.size() - 1U); ++i) {
+        CNOT(bits[i], target);
+    }
+
+    const real1_f toRet = ONE_R1_F - 2 * Prob(target);
+
+    for (size_t i = 0U; i < (bits.size() - 1U); ++i) {
+        CNOT(bits[i], target);
+    }
 
     for (size_t i = 0U; i < bits.size(); ++i) {
         switch (paulis[i]) {
-- 
2.43.0


From be3386bd04e64d8f02ad08bf33cddd117224a696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 008/117] fix: ADC()/IADC()/CADC()/CIADC() did not ripple the
 carry for registers of two or more qubits

---
 src/qinterface/arithmetic.cpp | 76 +++++++----------------------------
 1 file changed, 14 insertions(+), 62 deletions(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index e80f5b6..ad598d2 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -329,86 +329,38 @@ void QInterface::CIFullAdd(const std::vector<bitLenInt>& controls, bitLenInt inp
 
 void QInterface::ADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitLenInt length, bitLenInt carry)
 {
-    if (!length) {
-        return;
-    }
-
-    FullAdd(input1, input2, carry, output);
-
-    if (length == 1U) {
-        return Swap(carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1U; i < end; ++i) {
-        FullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = 0U; i < length; ++i) {
+        FullAdd(input1 + i, input2 + i, carry, output + i);
+        Swap(carry, output + i);
     }
-    FullAdd(input1 + end, input2 + end, output + end, carry);
 }
 
 void QInterface::IADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitLenInt length, bitLenInt carry)
 {
-    if (!length) {
-        return;
-    }
-
-    if (length == 1U) {
-        Swap(carry, output);
-
-        return IFullAdd(input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    IFullAdd(input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
-        IFullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = length; i > 0U; --i) {
+        const bitLenInt j = i - 1U;
+        Swap(carry, output + j);
+        IFullAdd(input1 + j, input2 + j, carry, output + j);
     }
-    IFullAdd(input1, input2, carry, output);
 }
 
 void QInterface::CADC(const std::vector<bitLenInt>& controls, bitLenInt input1, bitLenInt input2, bitLenInt output,
     bitLenInt length, bitLenInt carry)
 {
-    if (!length) {
-        return;
-    }
-
-    CFullAdd(controls, input1, input2, carry, output);
-
-    if (length == 1) {
-        return CSwap(controls, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1; i < end; ++i) {
-        CFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = 0U; i < length; ++i) {
+        CFullAdd(controls, input1 + i, input2 + i, carry, output + i);
+        CSwap(controls, carry, output + i);
     }
-    CFullAdd(controls, input1 + end, input2 + end, output + end, carry);
 }
 
 void QInterface::CIADC(const std::vector<bitLenInt>& controls, bitLenInt input1, bitLenInt input2, bitLenInt output,
     bitLenInt length, bitLenInt carry)
 {
-    if (!length) {
-        return;
-    }
-
-    if (length == 1U) {
-        CSwap(controls, carry, output);
-
-        return CIFullAdd(controls, input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    CIFullAdd(controls, input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
-        CIFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = length; i > 0U; --i) {
+        const bitLenInt j = i - 1U;
+        CSwap(controls, carry, output + j);
+        CIFullAdd(controls, input1 + j, input2 + j, carry, output + j);
     }
-    CIFullAdd(controls, input1, input2, carry, output);
 }
 
 } // namespace Qrack
-- 
2.43.0


From 6b909dd52487be4dd421b0680cb401494e957f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 009/117] fix: QInterface::INCDECC() must target carryIndex
 itself with the carry out

---
 src/qinterface/arithmetic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index ad598d2..fce29ca 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -68,7 +68,7 @@ void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt leng
         }
         X(start + i);
         for (bitLenInt j = 0U; j < (length - i); ++j) {
-            const bitLenInt target = start + (((i + j + 1U) == length) ? carryIndex : ((i + j + 1U) % length));
+            const bitLenInt target = ((i + j + 1U) == length) ? carryIndex : (start + i + j + 1U);
             MACInvert(
                 std::vector<bitLenInt>(bits.begin() + i, bits.begin() + i + j + 1U), ONE_CMPLX, ONE_CMPLX, target);
         }
-- 
2.43.0


From c133e062c04bccbb07882ad86e927102a6813625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 010/117] fix: QInterface::ProbReg() enumerated the wrong basis
 states

---
 src/qinterface/qinterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 8f97b07..c7f35e3 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -267,7 +267,7 @@ real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt&
     real1 prob = ZERO_R1;
     for (bitCapIntOcl lcv = 0U; lcv < maxLcv; ++lcv) {
         bitCapIntOcl i = lcv & startMask;
-        i |= ((lcv ^ i) | p) << length;
+        i |= (p << start) | ((lcv ^ i) << length);
         prob += ProbAll(i);
     }
 
-- 
2.43.0


From b125e4bafe7c7ead9a697611f6281e0aa2908164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 011/117] fix: anti-controlled gates must restore the control
 bits when the operation is refused

---
 include/qinterface.hpp   |  8 +++++++-
 src/qinterface/gates.cpp | 27 +++------------------------
 2 files changed, 10 insertions(+), 25 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 6b72d0b..1796830 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -184,7 +184,13 @@ protected:
         }
 
         XMask(xMask);
-        fn(controls);
+        try {
+            fn(controls);
+        } catch (...) {
+            // Restore the control bits, if the operation is refused.
+            XMask(xMask);
+            throw;
+        }
         XMask(xMask);
     }
 
diff --git a/src/qinterface/gates.cpp b/src/qinterface/gates.cpp
index 7065399..17bef06 100644
--- a/src/qinterface/gates.cpp
+++ b/src/qinterface/gates.cpp
@@ -269,14 +269,7 @@ void QInterface::CSwap(const std::vector<bitLenInt>& controls, bitLenInt q1, bit
 
 void QInterface::AntiCSwap(const std::vector<bitLenInt>& controls, bitLenInt q1, bitLenInt q2)
 {
-    bitCapInt m = ZERO_BCI;
-    for (const bitLenInt& control : controls) {
-        bi_or_ip(&m, pow2(control));
-    }
-
-    XMask(m);
-    CSwap(controls, q1, q2);
-    XMask(m);
+    MACWrapper(controls, [this, q1, q2](const std::vector<bitLenInt>& lc) { CSwap(lc, q1, q2); });
 }
 
 void QInterface::CSqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q1, bitLenInt q2)
@@ -374,26 +367,12 @@ void QInterface::CISqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q1
 
 void QInterface::AntiCSqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q1, bitLenInt q2)
 {
-    bitCapInt m = ZERO_BCI;
-    for (const bitLenInt& control : controls) {
-        bi_or_ip(&m, pow2(control));
-    }
-
-    XMask(m);
-    CSqrtSwap(controls, q1, q2);
-    XMask(m);
+    MACWrapper(controls, [this, q1, q2](const std::vector<bitLenInt>& lc) { CSqrtSwap(lc, q1, q2); });
 }
 
 void QInterface::AntiCISqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q1, bitLenInt q2)
 {
-    bitCapInt m = ZERO_BCI;
-    for (const bitLenInt& control : controls) {
-        bi_or_ip(&m, pow2(control));
-    }
-
-    XMask(m);
-    CISqrtSwap(controls, q1, q2);
-    XMask(m);
+    MACWrapper(controls, [this, q1, q2](const std::vector<bitLenInt>& lc) { CISqrtSwap(lc, q1, q2); });
 }
 
 void QInterface::PhaseParity(real1_f radians, const bitCapInt& _mask)
-- 
2.43.0


From c50dc8139dd6bfc0feebbe62357b8ad6eb43e2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 012/117] fix: QUnit arithmetic must not mark shards dirty
 before flushing their cached state to the unit

---
 src/qunit.cpp | 59 ++++++++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index ab4544f..c7eaae0 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1287,12 +1287,12 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
         }
     }
 
+    QInterfacePtr unit = Entangle(eIndices);
+
     for (const bitLenInt& eIndex : eIndices) {
         shards[eIndex].isPhaseDirty = true;
     }
 
-    QInterfacePtr unit = Entangle(eIndices);
-
     bitCapInt mappedMask = ZERO_BCI;
     for (const bitLenInt& eIndex : eIndices) {
         bi_or_ip(&mappedMask, pow2(shards[eIndex].mapped));
@@ -2819,12 +2819,13 @@ void QUnit::INCx(INCxFn fn, const bitCapInt& toMod, bitLenInt start, bitLenInt l
         throw std::invalid_argument("QUnit::INCx flagIndex parameter must be within allocated qubit bounds!");
     }
 
+    EntangleRange(start, length);
+    QInterfacePtr unit = Entangle({ start, flagIndex });
+
+    // (Shards must not be marked dirty before their cached state is flushed to the unit.)
     DirtyShardRange(start, length);
-    DirtyShardRangePhase(start, length);
     shards[flagIndex].MakeDirty();
 
-    EntangleRange(start, length);
-    QInterfacePtr unit = Entangle({ start, flagIndex });
     ((*std::dynamic_pointer_cast<QAlu>(unit)).*fn)(toMod, shards[start].mapped, length, shards[flagIndex].mapped);
 }
 
@@ -2844,14 +2845,13 @@ void QUnit::INCxx(
     }
 
     // Make sure the flag bits are entangled in the same QU.
+    EntangleRange(start, length);
+    QInterfacePtr unit = Entangle({ start, flag1Index, flag2Index });
+
     DirtyShardRange(start, length);
-    DirtyShardRangePhase(start, length);
     shards[flag1Index].MakeDirty();
     shards[flag2Index].MakeDirty();
 
-    EntangleRange(start, length);
-    QInterfacePtr unit = Entangle({ start, flag1Index, flag2Index });
-
     ((*std::dynamic_pointer_cast<QAlu>(unit)).*fn)(
         toMod, shards[start].mapped, length, shards[flag1Index].mapped, shards[flag2Index].mapped);
 }
@@ -3028,12 +3028,11 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
 
                 // If toAdd == inReg, this prevents superposition of the carry-out. The carry out of the truth table
                 // is independent of the superposed output value of the quantum bit.
-                DirtyShardRange(start, partLength);
                 EntangleRange(start, partLength);
                 if (controlLen) {
                     allBits[controlLen] = start;
-                    DirtyShardIndexVector(allBits);
                     QInterfacePtr unit = Entangle(ebits);
+                    DirtyShardIndexVector(allBits);
                     std::vector<bitLenInt> lControls(controlLen);
                     for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
                         lControls[cIndex] = shards[controls[cIndex]].mapped;
@@ -3042,6 +3041,7 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
                 } else {
                     shards[start].unit->INC(partMod, shards[start].mapped, partLength);
                 }
+                DirtyShardRange(start, partLength);
 
                 carry = toAdd;
                 bi_rshift_ip(&toMod, partLength);
@@ -3071,19 +3071,19 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
             // implement, once the QEngine methods were in place.
             throw std::logic_error("ERROR: Controlled-with-carry arithmetic is not implemented!");
         } else {
-            DirtyShardRange(start, length);
-            shards[carryIndex].MakeDirty();
             EntangleRange(start, length);
             QInterfacePtr unit = Entangle({ start, carryIndex });
+            DirtyShardRange(start, length);
+            shards[carryIndex].MakeDirty();
             unit->INCC(toMod, shards[start].mapped, length, shards[carryIndex].mapped);
         }
     } else {
-        DirtyShardRange(start, length);
         EntangleRange(start, length);
+        DirtyShardRange(start, length);
         if (controlLen) {
             allBits[controlLen] = start;
-            DirtyShardIndexVector(allBits);
             QInterfacePtr unit = Entangle(ebits);
+            DirtyShardIndexVector(allBits);
             std::vector<bitLenInt> lControls(controlLen);
             for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
                 lControls[cIndex] = shards[controls[cIndex]].mapped;
@@ -3210,8 +3210,8 @@ void QUnit::INCBCD(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
     }
 
     // BCD variants are low priority for optimization, for the time being.
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))->INCBCD(toMod, shards[start].mapped, length);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::DECBCD(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
@@ -3221,8 +3221,8 @@ void QUnit::DECBCD(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
     }
 
     // BCD variants are low priority for optimization, for the time being.
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))->DECBCD(toMod, shards[start].mapped, length);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::INCDECBCDC(const bitCapInt& toMod, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
@@ -3258,12 +3258,12 @@ void QUnit::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carrySta
         return SetReg(carryStart, length, (res >> length) & lengthMask);
     }
 
-    DirtyShardRange(inOutStart, length);
-    DirtyShardRange(carryStart, length);
-
     // Otherwise, form the potentially entangled representation:
     std::dynamic_pointer_cast<QAlu>(EntangleRange(inOutStart, length, carryStart, length))
         ->MUL(toMul, shards[inOutStart].mapped, shards[carryStart].mapped, length);
+
+    DirtyShardRange(inOutStart, length);
+    DirtyShardRange(carryStart, length);
 }
 
 void QUnit::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
@@ -3294,12 +3294,12 @@ void QUnit::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carrySta
         return;
     }
 
-    DirtyShardRange(inOutStart, length);
-    DirtyShardRange(carryStart, length);
-
     // Otherwise, form the potentially entangled representation:
     std::dynamic_pointer_cast<QAlu>(EntangleRange(inOutStart, length, carryStart, length))
         ->DIV(toDiv, shards[inOutStart].mapped, shards[carryStart].mapped, length);
+
+    DirtyShardRange(inOutStart, length);
+    DirtyShardRange(carryStart, length);
 }
 
 void QUnit::POWModNOut(
@@ -3336,8 +3336,6 @@ void QUnit::POWModNOut(
 QInterfacePtr QUnit::CMULEntangle(std::vector<bitLenInt> controlVec, bitLenInt start, bitLenInt carryStart,
     bitLenInt length, std::vector<bitLenInt>* controlsMapped)
 {
-    DirtyShardRangePhase(start, length);
-    DirtyShardRange(carryStart, length);
     EntangleRange(start, length);
     EntangleRange(carryStart, length);
 
@@ -3356,6 +3354,9 @@ QInterfacePtr QUnit::CMULEntangle(std::vector<bitLenInt> controlVec, bitLenInt s
 
     QInterfacePtr unit = Entangle(ebits);
 
+    DirtyShardRangePhase(start, length);
+    DirtyShardRange(carryStart, length);
+
     if (controlVec.size()) {
         controlsMapped->resize(controlVec.size());
         for (size_t i = 0U; i < controlVec.size(); ++i) {
@@ -3658,8 +3659,8 @@ void QUnit::Hash(bitLenInt start, bitLenInt length, const unsigned char* values)
         return SetReg(start, length, value);
     }
 
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))->Hash(shards[start].mapped, length, values);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::PhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLenInt length)
@@ -3677,9 +3678,9 @@ void QUnit::PhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLe
         return;
     }
 
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))
         ->PhaseFlipIfLess(greaterPerm, shards[start].mapped, length);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::CPhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLenInt length, bitLenInt flagIndex)
@@ -3700,11 +3701,11 @@ void QUnit::CPhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitL
         return;
     }
 
-    DirtyShardRange(start, length);
-    shards[flagIndex].isPhaseDirty = true;
     EntangleRange(start, length);
     std::dynamic_pointer_cast<QAlu>(Entangle({ start, flagIndex }))
         ->CPhaseFlipIfLess(greaterPerm, shards[start].mapped, length, shards[flagIndex].mapped);
+    DirtyShardRange(start, length);
+    shards[flagIndex].isPhaseDirty = true;
 }
 #endif
 
-- 
2.43.0


From 20bc8cd3fa2530308f9773242b345632ae915084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 013/117] fix: default CProb()/ACProb() must return the
 probability conditioned on the control

---
 include/qinterface.hpp  | 31 +++++++++++++++++++++----------
 src/qengine/qengine.cpp | 13 +------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 1796830..b48fed1 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -155,6 +155,25 @@ protected:
     // you need a safe pointer to norm(), try this:
     static inline real1_f normHelper(const complex& c) { return (real1_f)norm(c); }
 
+    // Conditional probability of "target," given "control," from marginal and parity probabilities
+    real1_f CtrlOrAntiProbDefault(bool controlState, bitLenInt control, bitLenInt target)
+    {
+        const real1_f cProb = Prob(control);
+        const real1_f condition = controlState ? cProb : (ONE_R1_F - cProb);
+        if (condition <= FP_NORM_EPSILON_F) {
+            return ZERO_R1_F;
+        }
+
+        const real1_f tProb = Prob(target);
+        CNOT(control, target);
+        const real1_f xProb = Prob(target);
+        CNOT(control, target);
+
+        const real1_f joint = (controlState ? (tProb + cProb - xProb) : (tProb - cProb + xProb)) / 2;
+
+        return clampProb(joint / condition);
+    }
+
     static inline real1_f clampProb(real1_f toClamp)
     {
         if (toClamp < ZERO_R1_F) {
@@ -2476,11 +2495,7 @@ public:
      */
     virtual real1_f CProb(bitLenInt control, bitLenInt target)
     {
-        AntiCNOT(control, target);
-        const real1_f prob = Prob(target);
-        AntiCNOT(control, target);
-
-        return prob;
+        return CtrlOrAntiProbDefault(true, control, target);
     }
     /**
      * Direct measure of bit probability to be in |1> state, if control bit is |0>.
@@ -2489,11 +2504,7 @@ public:
      */
     virtual real1_f ACProb(bitLenInt control, bitLenInt target)
     {
-        CNOT(control, target);
-        const real1_f prob = Prob(target);
-        CNOT(control, target);
-
-        return prob;
+        return CtrlOrAntiProbDefault(false, control, target);
     }
 
     /**
diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 179788e..20714ea 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -462,18 +462,7 @@ void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit
 
 real1_f QEngine::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenInt target)
 {
-    if (controlState) {
-        AntiCNOT(control, target);
-    } else {
-        CNOT(control, target);
-    }
-    const real1_f prob = Prob(target);
-    if (controlState) {
-        AntiCNOT(control, target);
-    } else {
-        CNOT(control, target);
-    }
-    return prob;
+    return CtrlOrAntiProbDefault(controlState, control, target);
 }
 
 void QEngine::ProbRegAll(bitLenInt start, bitLenInt length, real1* probsArray)
-- 
2.43.0


From cf8a1d9e2127a578e863ebe6315a211d28f88119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 014/117] fix: QUnit Decompose()/Dispose() of one qubit lost
 the position of the removed shard

---
 src/qunit.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index c7eaae0..0702f5d 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -313,6 +313,7 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
     // also contiguous. From the lowest index bits, they are mapped simply for the length count of bits involved in the
     // entire subunit.
     std::map<QInterfacePtr, bitLenInt> decomposedUnits;
+    std::map<QInterfacePtr, bitLenInt> decomposedStarts;
     for (bitLenInt i = 0U; i < length; ++i) {
         QEngineShard& shard = shards[start + i];
         QInterfacePtr unit = shard.unit;
@@ -323,6 +324,8 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
 
         if (decomposedUnits.find(unit) == decomposedUnits.end()) {
             decomposedUnits[unit] = start + i;
+            // (The mapping of the shard can be overwritten, below.)
+            decomposedStarts[unit] = shard.mapped;
             const bitLenInt subLen = subunits[unit];
             const bitLenInt origLen = unit->GetQubitCount();
             if (subLen != origLen) {
@@ -354,7 +357,7 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
                 }
 
                 if (subLen == (origLen - 1U)) {
-                    bitLenInt mapped = shards[decomposedUnits[unit]].mapped;
+                    bitLenInt mapped = decomposedStarts[unit];
                     if (!mapped) {
                         mapped += subLen;
                     } else {
@@ -391,8 +394,7 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
     // Find the rest of the qubits.
     for (auto&& shard : shards) {
         const auto subunit = subunits.find(shard.unit);
-        if (subunit != subunits.end() &&
-            shard.mapped >= (shards[decomposedUnits[shard.unit]].mapped + subunit->second)) {
+        if (subunit != subunits.end() && shard.mapped >= (decomposedStarts[shard.unit] + subunit->second)) {
             shard.mapped -= subunit->second;
         }
     }
-- 
2.43.0


From 4fc2227c8eab72c9e716b9efff03df8ffde332f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 015/117] fix: QUnit shot array measurement mapped every power
 to the first shard

---
 src/qunit.cpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 0702f5d..314a6db 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1713,16 +1713,10 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
     if (qPowers.size() != shards.size()) {
         ToPermBasisProb();
 
-        QInterfacePtr unit = shards[log2(qPowers[0U])].unit;
+        QInterfacePtr unit = (qPowers[0U] < maxQPower) ? shards[log2(qPowers[0U])].unit : nullptr;
         if (unit) {
             std::vector<bitCapInt> mappedIndices(qPowers.size());
-            for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                if (qPowers[0U] >= pow2(j)) {
-                    mappedIndices[0U] = pow2(shards[j].mapped);
-                    break;
-                }
-            }
-            for (size_t i = 1U; i < qPowers.size(); ++i) {
+            for (size_t i = 0U; i < qPowers.size(); ++i) {
                 const size_t qubit = log2(qPowers[i]);
                 if (qubit >= qubitCount) {
                     throw std::invalid_argument(
@@ -1733,12 +1727,7 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
                     unit = nullptr;
                     break;
                 }
-                for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                    if (qPowers[i] >= pow2(j)) {
-                        mappedIndices[i] = pow2(shards[j].mapped);
-                        break;
-                    }
-                }
+                mappedIndices[i] = pow2(shards[qubit].mapped);
             }
 
             if (unit) {
-- 
2.43.0


From 9c234f2e878b12af9bcaa1415215218fbffe1cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 016/117] fix: QUnit CUniformParityRZ() mask mapping and
 classically known mask bits

---
 src/qunit.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 314a6db..32aa53f 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1267,7 +1267,10 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
         if (controls.empty()) {
             return Phase(phaseFac, phaseFac, 0U);
         } else {
-            return MCPhase(controls, phaseFac, phaseFac, 0U);
+            // (The mask is classically known, so only the controls acquire the phase.)
+            const bitLenInt target = controls.back();
+            controls.pop_back();
+            return MCPhase(controls, ONE_CMPLX, phaseFac, target);
         }
     }
 
@@ -1295,6 +1298,17 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
         shards[eIndex].isPhaseDirty = true;
     }
 
+    if (controls.size()) {
+        std::vector<bitLenInt*> ebits(controls.size());
+        for (size_t i = 0U; i < controls.size(); ++i) {
+            ebits[i] = &controls[i];
+        }
+
+        Entangle(ebits);
+        unit = Entangle({ controls[0U], eIndices[0U] });
+    }
+
+    // (Entangling with the controls can move the mask bits.)
     bitCapInt mappedMask = ZERO_BCI;
     for (const bitLenInt& eIndex : eIndices) {
         bi_or_ip(&mappedMask, pow2(shards[eIndex].mapped));
@@ -1303,13 +1317,6 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
     if (controls.empty()) {
         std::dynamic_pointer_cast<QParity>(unit)->UniformParityRZ(mappedMask, flipResult ? -angle : angle);
     } else {
-        std::vector<bitLenInt*> ebits(controls.size());
-        for (size_t i = 0U; i < controls.size(); ++i) {
-            ebits[i] = &controls[i];
-        }
-
-        Entangle(ebits);
-        unit = Entangle({ controls[0U], eIndices[0U] });
 
         std::vector<bitLenInt> controlsMapped(controls.size());
         for (size_t i = 0U; i < controls.size(); ++i) {
-- 
2.43.0


From 8d28bae101b170f1293a3d12aefeedf888451625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 017/117] fix: QUnit controlled gates must refuse a bad target
 even if the controls make the gate trivial

---
 src/qunit.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 32aa53f..956778f 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -2291,6 +2291,10 @@ void QUnit::UCPhase(const std::vector<bitLenInt>& lControls, const complex& topL
     ThrowIfQbIdArrayIsBad(
         lControls, qubitCount, "QUnit::UCPhase parameter controls array values must be within allocated qubit bounds!");
 
+    if (target >= qubitCount) {
+        throw std::invalid_argument("QUnit::UCPhase qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (IS_1_CMPLX(topLeft) && IS_1_CMPLX(bottomRight)) {
         return;
     }
@@ -2484,6 +2488,10 @@ void QUnit::UCMtrx(
     ThrowIfQbIdArrayIsBad(
         controls, qubitCount, "QUnit::UCMtrx parameter controls array values must be within allocated qubit bounds!");
 
+    if (target >= qubitCount) {
+        throw std::invalid_argument("QUnit::UCMtrx qubit index parameter must be within allocated qubit bounds!");
+    }
+
     std::vector<bitLenInt> controlVec;
     bitCapInt controlPerm = _controlPerm;
     if (TrimControls(controls, controlVec, &controlPerm)) {
@@ -2494,10 +2502,6 @@ void QUnit::UCMtrx(
         return Mtrx(mtrx, target);
     }
 
-    if (target >= qubitCount) {
-        throw std::invalid_argument("QUnit::UCMtrx qubit index parameter must be within allocated qubit bounds!");
-    }
-
     CTRLED_GEN_WRAP(UCMtrx(CTRL_GEN_ARGS));
 }
 
-- 
2.43.0


From 0e45113c522e85719d70f4d73a84c13d5e1e89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 018/117] fix: QUnit CUniformParityRZ() with controls used
 engine-mapped indices as its own qubit indices

---
 src/qunit.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 956778f..599a988 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1299,13 +1299,10 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
     }
 
     if (controls.size()) {
-        std::vector<bitLenInt*> ebits(controls.size());
-        for (size_t i = 0U; i < controls.size(); ++i) {
-            ebits[i] = &controls[i];
-        }
-
-        Entangle(ebits);
-        unit = Entangle({ controls[0U], eIndices[0U] });
+        // (Do not replace our indices by mapped ones: they are needed below.)
+        std::vector<bitLenInt> allBits(controls);
+        allBits.insert(allBits.end(), eIndices.begin(), eIndices.end());
+        unit = Entangle(allBits);
     }
 
     // (Entangling with the controls can move the mask bits.)
-- 
2.43.0


From 162ca8a22c6a4a4f3ed100656ef477c26f7cd674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 019/117] fix: QUnit factorized expectation values must flush
 buffered gates first

---
 include/qunit.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index ee3be55..b5ce769 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -650,6 +650,11 @@ protected:
         ThrowIfQbIdArrayIsBad(bits, qubitCount,
             "QUnit::ExpectationFactorized parameter qubits vector values must be within allocated qubit bounds!");
 
+        if (shards[0U].unit && (shards[0U].unit->GetQubitCount() == qubitCount)) {
+            // (The unit alone does not know about gates that are still buffered in the shards.)
+            ToPermBasisProb(0U, qubitCount);
+        }
+
         if (shards[0U].unit && (shards[0U].unit->GetQubitCount() == qubitCount)) {
             OrderContiguous(shards[0U].unit);
             return isExp  ? isFloat
-- 
2.43.0


From 6b9b63e6c1871ffdba6047aaf4d2e0779ce948e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 020/117] fix: QUnit GetQuantumState()/GetProbs() must not
 reorder a state vector shared with the original

---
 src/qunit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 599a988..46562b5 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -221,7 +221,8 @@ void QUnit::GetQuantumStateOrProbs(complex* outputState, real1* outputProbs)
         OrderContiguous(shards[0U].unit);
         thisCopy = this;
     } else {
-        thisCopyShared = std::dynamic_pointer_cast<QUnit>(Copy());
+        // (A shallow Copy() would share the state vector that is about to be reordered.)
+        thisCopyShared = std::dynamic_pointer_cast<QUnit>(Clone());
         thisCopy = thisCopyShared.get();
         thisCopy->EntangleAll();
     }
-- 
2.43.0


From e241ad7150e79daba78482b149315c9cf53efc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 021/117] fix: ExpectationUnitaryAll()/VarianceUnitaryAll()
 with angles did not apply the inverse basis change

---
 src/qinterface/qinterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index c7f35e3..7103de1 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -523,7 +523,8 @@ real1_f QInterface::ExpVarUnitaryAll(bool isExp, const std::vector<bitLenInt>& b
 
     for (size_t i = 0U; i < bits.size(); ++i) {
         const size_t i3 = 3U * i;
-        U(bits[i], -basisOps[i3], -basisOps[i3 + 1U], -basisOps[i3 + 2U]);
+        // (The inverse also exchanges the two azimuths.)
+        U(bits[i], -basisOps[i3], -basisOps[i3 + 2U], -basisOps[i3 + 1U]);
     }
 
     const real1_f toRet =
-- 
2.43.0


From d9692c3c3177921cbcc34f32ee47622273f7bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 022/117] fix: QUnit ProbBase() must not change the basis of
 the shard under its callers

---
 src/qunit.cpp | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 46562b5..b51cc70 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -959,30 +959,7 @@ real1_f QUnit::ProbBase(bitLenInt qubit)
         complex amps[2U];
         shard.unit->GetQuantumState(amps);
 
-        if (IS_AMP_0(amps[0U] - amps[1U])) {
-            logFidelity += (double)log(clampProb(ONE_R1_F - norm(amps[0U] - amps[1U])));
-            shard.pauliBasis = PauliX;
-            amps[0U] = amps[0U] / abs(amps[0U]);
-            amps[1U] = ZERO_CMPLX;
-        } else if (IS_AMP_0(amps[0U] + amps[1U])) {
-            logFidelity += (double)log(clampProb(ONE_R1_F - norm(amps[0U] + amps[1U])));
-            shard.pauliBasis = PauliX;
-            amps[1U] = amps[0U] / abs(amps[0U]);
-            amps[0U] = ZERO_CMPLX;
-        } else if (IS_AMP_0((I_CMPLX * amps[0U]) - amps[1U])) {
-            logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * amps[0U]) - amps[1U])));
-            shard.pauliBasis = PauliY;
-            amps[0U] = amps[0U] / abs(amps[0U]);
-            amps[1U] = ZERO_CMPLX;
-        } else if (IS_AMP_0((I_CMPLX * amps[0U]) + amps[1U])) {
-            logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * amps[0U]) + amps[1U])));
-            shard.pauliBasis = PauliY;
-            amps[1U] = amps[0U] / abs(amps[0U]);
-            amps[0U] = ZERO_CMPLX;
-        }
-
-        CheckFidelity();
-
+        // (The callers rely on the basis staying as it is, to interpret the amplitudes and the buffered gates.)
         shard.amp0 = amps[0U];
         shard.amp1 = amps[1U];
         shard.isProbDirty = false;
-- 
2.43.0


From 807659ee5b1cf96a7cd778ddf398cdc2f866eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 023/117] fix: QPager constructor ignored the initial
 permutation

---
 src/qpager.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 494eafe..3d6372c 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -51,17 +51,13 @@ QPager::QPager(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bit
         return;
     }
 
-    const bitCapInt initState = maxQPower + ONE_BCI;
-    const bitCapIntOcl initStateOcl = (bitCapIntOcl)initState;
-    bitCapIntOcl pagePerm = basePageMaxQPower;
+    const bitCapIntOcl initStateOcl = (bitCapIntOcl)_initState;
+    bitCapIntOcl pagePerm = 0U;
     for (bitCapIntOcl i = 0U; i < basePageCount; ++i) {
-        if (bi_compare(initState, pagePerm) < 0) {
+        qPages.push_back(MakeEngine(baseQubitsPerPage, i));
+        if ((initStateOcl >= pagePerm) && ((initStateOcl - pagePerm) < basePageMaxQPower)) {
             // Init state is in this page.
-            qPages.push_back(MakeEngine(baseQubitsPerPage, i));
-            qPages.back()->SetPermutation(initStateOcl - (pagePerm - basePageMaxQPower));
-        } else {
-            // Init state is in a higher page.
-            qPages.push_back(MakeEngine(baseQubitsPerPage, i));
+            qPages.back()->SetPermutation(initStateOcl - pagePerm);
         }
         pagePerm += basePageMaxQPower;
     }
-- 
2.43.0


From 194f00c698bd4f3596323e42768883365bb8c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 024/117] fix: QUnit INT() with controls reused engine-mapped
 indices as its own qubit indices

---
 src/qunit.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index b51cc70..fa189c2 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -2921,14 +2921,6 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
 
     // All cached classical control bits have been removed from controlVec.
     const bitLenInt controlLen = controls.size();
-    std::vector<bitLenInt> allBits(controlLen + 1U);
-    std::copy(controls.begin(), controls.end(), allBits.begin());
-    std::sort(allBits.begin(), allBits.begin() + controlLen);
-
-    std::vector<bitLenInt*> ebits(allBits.size());
-    for (size_t i = 0; i < ebits.size(); ++i) {
-        ebits[i] = &allBits[i];
-    }
 
     // Try ripple addition, to avoid entanglement.
     const bitLenInt origLength = length;
@@ -3007,7 +2999,14 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
                 // is independent of the superposed output value of the quantum bit.
                 EntangleRange(start, partLength);
                 if (controlLen) {
-                    allBits[controlLen] = start;
+                    std::vector<bitLenInt> allBits(controls);
+                    allBits.push_back(start);
+                    // Entangle() overwrites its parameter values with "mapped" indices.
+                    std::vector<bitLenInt> eBitIndices(allBits);
+                    std::vector<bitLenInt*> ebits(allBits.size());
+                    for (size_t j = 0U; j < ebits.size(); ++j) {
+                        ebits[j] = &eBitIndices[j];
+                    }
                     QInterfacePtr unit = Entangle(ebits);
                     DirtyShardIndexVector(allBits);
                     std::vector<bitLenInt> lControls(controlLen);
@@ -3058,7 +3057,14 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
         EntangleRange(start, length);
         DirtyShardRange(start, length);
         if (controlLen) {
-            allBits[controlLen] = start;
+            std::vector<bitLenInt> allBits(controls);
+            allBits.push_back(start);
+            // Entangle() overwrites its parameter values with "mapped" indices.
+            std::vector<bitLenInt> eBitIndices(allBits);
+            std::vector<bitLenInt*> ebits(allBits.size());
+            for (size_t j = 0U; j < ebits.size(); ++j) {
+                ebits[j] = &eBitIndices[j];
+            }
             QInterfacePtr unit = Entangle(ebits);
             DirtyShardIndexVector(allBits);
             std::vector<bitLenInt> lControls(controlLen);
-- 
2.43.0


From 47b17730d9474e038763f3e1fddea6952a58a9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 025/117] fix: QUnit Detach() must apply all buffers that point
 to shards it moves

---
 src/qunit.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index fa189c2..d549beb 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -284,8 +284,9 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
         throw std::invalid_argument("QUnit::Detach range is out-of-bounds!");
     }
 
-    for (bitLenInt i = 0U; i < length; ++i) {
-        RevertBasis2Qb(start + i);
+    // (Buffers point to shards, and shards are moved when others are erased, below.)
+    for (bitLenInt i = 0U; i < qubitCount; ++i) {
+        RevertBasis2Qb(i);
     }
 
     // Move "emulated" bits immediately into the destination, which is initialized.
-- 
2.43.0


From ca0756284d4f7b30c63437060ffb8909670eb84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 026/117] fix: QUnit Decompose() into a destination with
 relabelled qubits permuted the result

---
 include/qengineshard.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/qengineshard.hpp b/include/qengineshard.hpp
index af24167..aad2ca6 100644
--- a/include/qengineshard.hpp
+++ b/include/qengineshard.hpp
@@ -382,16 +382,14 @@ public:
     void reindex()
     {
         std::map<QInterfacePtr, bitLenInt> indices;
-        for (QEngineShard& shard : shards) {
+        for (size_t i = 0U; i < shards.size(); ++i) {
+            QEngineShard& shard = shards[swapMap[i]];
             if (!shard.unit) {
                 shard.mapped = 0U;
                 continue;
             }
             shard.mapped = indices[shard.unit]++;
         }
-        for (size_t i = 0U; i < shards.size(); ++i) {
-            swapMap[i] = i;
-        }
     }
 };
 } // namespace Qrack
-- 
2.43.0


From c3074e5abf9cd8f78ffc62c640793f4f7ad2604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 027/117] fix: QEngineCPU::Copy() must keep the running norm

---
 src/qengine/utility.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qengine/utility.cpp b/src/qengine/utility.cpp
index de8db83..34a3524 100644
--- a/src/qengine/utility.cpp
+++ b/src/qengine/utility.cpp
@@ -45,6 +45,7 @@ QInterfacePtr QEngineCPU::Copy()
 {
     QEngineCPUPtr clone = std::dynamic_pointer_cast<QEngineCPU>(CloneEmpty());
     clone->stateVec = stateVec;
+    clone->runningNorm = runningNorm;
 
     return clone;
 }
-- 
2.43.0


From cc8e93259d8749f8107949428a843452589e7337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 028/117] fix: forced multi-qubit and parity measurements must
 refuse results of zero probability

---
 src/qengine/qengine.cpp | 8 +++++++-
 src/qengine/state.cpp   | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 20714ea..9d97661 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -146,8 +146,11 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
             }
         }
         real1_f nrmlzr = ProbMask(regMask, result);
+        if (nrmlzr <= ZERO_R1) {
+            throw std::invalid_argument("QEngine::ForceM() forced a measurement result with 0 probability!");
+        }
         complex nrm = phase / (real1)(std::sqrt((real1_s)nrmlzr));
-        if ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON) {
+        if (doApply && ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON)) {
             ApplyM(regMask, (bitCapInt)result, nrm);
         }
 
@@ -494,6 +497,9 @@ bitCapInt QEngine::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt&
     bitCapInt result = _result;
     if (doForce) {
         nrmlzr = ProbMask(regMask, result << start);
+        if (nrmlzr <= ZERO_R1) {
+            throw std::invalid_argument("QEngine::ForceMReg() forced a measurement result with 0 probability!");
+        }
     } else {
         bitCapIntOcl lcv = 0;
         std::unique_ptr<real1[]> probArray(new real1[lengthPower]);
diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 5cd2b06..73e8480 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1540,6 +1540,8 @@ bool QEngineCPU::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
 
     if (!doForce) {
         result = (Rand() <= ProbParity(mask));
+    } else if ((result ? ProbParity(mask) : (ONE_R1_F - ProbParity(mask))) <= ZERO_R1_F) {
+        throw std::invalid_argument("QEngineCPU::ForceMParity() forced a measurement result with 0 probability!");
     }
 
     real1 oddChance = ZERO_R1;
-- 
2.43.0


From 4e5b33c662cd67e7871cac856ed50f42d3a53d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 029/117] fix: QUnit ForceM() on a separated qubit must refuse
 a result of zero probability

---
 src/qunit.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index d549beb..250da55 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1380,6 +1380,9 @@ bool QUnit::ForceM(bitLenInt qubit, bool res, bool doForce, bool doApply)
         real1_f prob = norm(shard.amp1);
         if (doForce) {
             result = res;
+            if ((result ? prob : (ONE_R1 - prob)) <= ZERO_R1) {
+                throw std::invalid_argument("QUnit::ForceM() forced a measurement result with 0 probability!");
+            }
         } else if (prob >= ONE_R1) {
             result = true;
         } else if (prob <= ZERO_R1) {
-- 
2.43.0


From 98e5baa384964789218e8e4101a7260099a578b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 030/117] fix: QUnit ForceMParity() must refuse a classically
 impossible parity

---
 src/qunit.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 250da55..05f1037 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1170,6 +1170,9 @@ bool QUnit::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
     }
 
     if (eIndices.empty()) {
+        if (doForce && (result != flipResult)) {
+            throw std::invalid_argument("QUnit::ForceMParity() forced a measurement result with 0 probability!");
+        }
         return flipResult;
     }
 
-- 
2.43.0


From d0ff2bb3838f972b5cc9ff7049cdcca0ecd74802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 031/117] fix: probability queries and multi-qubit measurement
 must refuse out-of-range arguments before acting

---
 src/qengine/state.cpp         |  4 ++++
 src/qinterface/qinterface.cpp | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 73e8480..868907b 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1404,6 +1404,10 @@ real1_f QEngineCPU::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenI
 // Returns probability of permutation of the register
 real1_f QEngineCPU::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt& permutation)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::ProbReg range is out-of-bounds!");
+    }
+
     if (doNormalize) {
         NormalizeState();
     }
diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 7103de1..8ca8618 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -230,6 +230,12 @@ bitCapInt QInterface::ForceM(const std::vector<bitLenInt>& bits, const std::vect
             "QInterface::ForceM() boolean values vector length does not match bit vector length!");
     }
 
+    for (const bitLenInt& bit : bits) {
+        if (bit >= qubitCount) {
+            throw std::invalid_argument("QInterface::ForceM() qubit index is out-of-bounds!");
+        }
+    }
+
     if (values.size()) {
         bitCapInt result = ZERO_BCI;
         for (size_t bit = 0U; bit < bits.size(); ++bit) {
@@ -261,6 +267,10 @@ bitCapInt QInterface::ForceM(const std::vector<bitLenInt>& bits, const std::vect
 /// Returns probability of permutation of the register
 real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt& permutation)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::ProbReg range is out-of-bounds!");
+    }
+
     const bitCapIntOcl startMask = pow2Ocl(start) - 1U;
     const bitCapIntOcl maxLcv = (bitCapIntOcl)(maxQPower >> length);
     const bitCapIntOcl p = (bitCapIntOcl)permutation;
@@ -277,6 +287,10 @@ real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt&
 /// Returns probability of permutation of the mask
 real1_f QInterface::ProbMask(const bitCapInt& mask, const bitCapInt& permutation)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QInterface::ProbMask mask out-of-bounds!");
+    }
+
     if (bi_compare(maxQPower - ONE_BCI, mask) == 0) {
         return ProbAll(permutation);
     }
@@ -443,6 +457,12 @@ void QInterface::ProbMaskAll(const bitCapInt& mask, real1* probsArray)
 
 void QInterface::ProbBitsAll(const std::vector<bitLenInt>& bits, real1* probsArray)
 {
+    for (const bitLenInt& bit : bits) {
+        if (bit >= qubitCount) {
+            throw std::invalid_argument("QInterface::ProbBitsAll() qubit index is out-of-bounds!");
+        }
+    }
+
     if (bits.size() == qubitCount) {
         bool isOrdered = true;
         for (bitLenInt i = 0U; i < qubitCount; ++i) {
-- 
2.43.0


From a15ff744289ca29436d2eca0414766a5b72e1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 032/117] fix: QUnit UniformlyControlledSingleBit() ignored the
 skipped matrix index bits

---
 src/qunit.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 05f1037..4c4c75c 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1899,6 +1899,18 @@ void QUnit::ISqrtSwap(bitLenInt qubit1, bitLenInt qubit2)
 void QUnit::UniformlyControlledSingleBit(const std::vector<bitLenInt>& controls, bitLenInt qubitIndex,
     const complex* mtrxs, const std::vector<bitCapInt>& mtrxSkipPowers, const bitCapInt& mtrxSkipValueMask)
 {
+    if (mtrxSkipPowers.size() || (bi_compare_0(mtrxSkipValueMask) != 0)) {
+        // Gather the matrices that remain after skipping index bits, for each permutation of the controls.
+        const bitCapIntOcl mtrxCount = pow2Ocl(controls.size());
+        std::unique_ptr<complex[]> compactMtrxs(new complex[mtrxCount << 2U]);
+        for (bitCapIntOcl i = 0U; i < mtrxCount; ++i) {
+            const bitCapIntOcl index = (bitCapIntOcl)(pushApartBits(i, mtrxSkipPowers) | mtrxSkipValueMask);
+            std::copy(mtrxs + (index << 2U), mtrxs + ((index + 1U) << 2U), compactMtrxs.get() + (i << 2U));
+        }
+
+        return UniformlyControlledSingleBit(controls, qubitIndex, compactMtrxs.get());
+    }
+
     // If there are no controls, this is equivalent to the single bit gate.
     if (controls.empty()) {
         return Mtrx(mtrxs, qubitIndex);
-- 
2.43.0


From 959b5fb51d9e77eeb9cf8e01d2854f115f44cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 033/117] fix: QPager SetQubitCount() left the OpenCL-width
 maximum power stale

---
 include/qpager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qpager.hpp b/include/qpager.hpp
index 7a73271..3977c16 100644
--- a/include/qpager.hpp
+++ b/include/qpager.hpp
@@ -51,7 +51,7 @@ protected:
 
     void SetQubitCount(bitLenInt qb)
     {
-        QInterface::SetQubitCount(qb);
+        QEngine::SetQubitCount(qb);
         baseQubitsPerPage = (qubitCount < thresholdQubitsPerPage) ? qubitCount : thresholdQubitsPerPage;
         basePageCount = pow2Ocl(qubitCount - baseQubitsPerPage);
         basePageMaxQPower = pow2Ocl(baseQubitsPerPage);
-- 
2.43.0


From 365a97ffc4988cd3cc73df141218dc5ae154d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 034/117] fix: QPager GetSetAmplitudePage() did not advance
 through pages and did not check bounds

---
 src/qpager.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 3d6372c..add87cb 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -290,20 +290,28 @@ QEnginePtr QPager::MakeEngine(bitLenInt length, bitCapIntOcl pageId)
 void QPager::GetSetAmplitudePage(complex* pagePtr, const complex* cPagePtr, bitCapIntOcl offset, bitCapIntOcl length)
 {
     const bitCapIntOcl pageLength = (bitCapIntOcl)pageMaxQPower();
+    if (isBadPermRange(offset, length, maxQPowerOcl)) {
+        throw std::invalid_argument("QPager::GetSetAmplitudePage range is out-of-bounds!");
+    }
+
     bitCapIntOcl perm = 0U;
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        if ((perm + length) < offset) {
+        if ((perm + pageLength) <= offset) {
+            perm += pageLength;
             continue;
         }
         if (perm >= (offset + length)) {
             break;
         }
         const bitCapIntOcl partOffset = (perm < offset) ? (offset - perm) : 0U;
-        const bitCapIntOcl partLength = (length < pageLength) ? length : pageLength;
+        const bitCapIntOcl partEnd = ((offset + length - perm) < pageLength) ? (offset + length - perm) : pageLength;
+        const bitCapIntOcl partLength = partEnd - partOffset;
         if (cPagePtr) {
             qPages[i]->SetAmplitudePage(cPagePtr, partOffset, partLength);
+            cPagePtr += partLength;
         } else {
             qPages[i]->GetAmplitudePage(pagePtr, partOffset, partLength);
+            pagePtr += partLength;
         }
         perm += pageLength;
     }
-- 
2.43.0


From 55efa6212136f8bd15b2deb9e2bbcc0b2c102672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 035/117] fix: QPager could not compose into an empty pager

---
 src/qpager.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index add87cb..76dc83b 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -319,6 +319,10 @@ void QPager::GetSetAmplitudePage(complex* pagePtr, const complex* cPagePtr, bitC
 
 void QPager::CombineEngines(bitLenInt bit)
 {
+    if (qPages.empty()) {
+        return;
+    }
+
     if (bit > qubitCount) {
         bit = qubitCount;
     }
@@ -347,6 +351,10 @@ void QPager::CombineEngines(bitLenInt bit)
 
 void QPager::SeparateEngines(bitLenInt thresholdBits, bool noBaseFloor)
 {
+    if (qPages.empty()) {
+        return;
+    }
+
     if (!noBaseFloor && (thresholdBits < baseQubitsPerPage)) {
         thresholdBits = baseQubitsPerPage;
     }
@@ -631,6 +639,17 @@ bitLenInt QPager::ComposeEither(QPagerPtr toCopy, bool willDestroy)
             "Cannot instantiate a QPager with greater capacity than environment variable QRACK_MAX_PAGING_QB.");
     }
 
+    if (!qubitCount) {
+        QPagerPtr toCopyClone = willDestroy ? toCopy : std::dynamic_pointer_cast<QPager>(toCopy->Clone());
+        qPages = toCopyClone->qPages;
+        SetQubitCount(nQubitCount);
+
+        CombineEngines(thresholdQubitsPerPage);
+        SeparateEngines();
+
+        return toRet;
+    }
+
     if (nQubitCount <= thresholdQubitsPerPage) {
         CombineEngines();
         toCopy->CombineEngines();
-- 
2.43.0


From 1f2d0706847e25b0e2ac090f92dd924da0e153bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 036/117] fix: QPager Decompose/Dispose built the wrong
 destination width and separated pages independently

---
 src/qpager.cpp | 73 +++++++++++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 76dc83b..d52a2a0 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -735,8 +735,9 @@ bitLenInt QPager::ComposeEither(QPagerPtr toCopy, bool willDestroy)
 
 QInterfacePtr QPager::Decompose(bitLenInt start, bitLenInt length)
 {
-    QPagerPtr dest = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
-        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor);
+    QPagerPtr dest = std::make_shared<QPager>(engines, length, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
+        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
+        deviceIDs, thresholdQubitsPerPage);
 
     Decompose(start, dest);
 
@@ -746,58 +747,64 @@ QInterfacePtr QPager::Decompose(bitLenInt start, bitLenInt length)
 void QPager::Decompose(bitLenInt start, QPagerPtr dest)
 {
     const bitLenInt length = dest->GetQubitCount();
-    CombineEngines(length + 1U);
-
-    if ((start + length) > qubitsPerPage()) {
-        ROR(start, 0, qubitCount);
-        Decompose(0, dest);
-
-        return ROL(start, 0, qubitCount);
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QPager::Decompose range is out-of-bounds!");
+    }
+    if (!length) {
+        return;
     }
 
+    // The relative phase between pages is only recovered if the whole state vector is decomposed at once.
+    CombineEngines();
     dest->CombineEngines();
 
-    bool isDecomposed = false;
-    for (QEnginePtr& qPage : qPages) {
-        if (!isDecomposed && !qPage->IsZeroAmplitude()) {
-            qPage->Decompose(start, dest->qPages[0U]);
-            dest->qPages[0U]->UpdateRunningNorm();
-            dest->qPages[0U]->NormalizeState();
-            isDecomposed = true;
-        } else {
-            qPage->Dispose(start, length);
-        }
-    }
+    qPages[0U]->Decompose(start, dest->qPages[0U]);
+    dest->qPages[0U]->UpdateRunningNorm();
+    dest->qPages[0U]->NormalizeState();
+    dest->SeparateEngines();
 
+    if (length == qubitCount) {
+        qPages.clear();
+    }
     SetQubitCount(qubitCount - length);
-
-    CombineEngines(thresholdQubitsPerPage);
     SeparateEngines();
 }
 
 void QPager::Dispose(bitLenInt start, bitLenInt length)
 {
-    CombineEngines(length + 1U);
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QPager::Dispose range is out-of-bounds!");
+    }
+    if (!length) {
+        return;
+    }
 
-    if ((start + length) > qubitsPerPage()) {
-        ROR(start, 0, qubitCount);
-        Dispose(0, length);
+    // (See Decompose().)
+    CombineEngines();
 
-        return ROL(start, 0, qubitCount);
-    }
+    qPages[0U]->Dispose(start, length);
 
-    for (const QEnginePtr& qPage : qPages) {
-        qPage->Dispose(start, length);
+    if (length == qubitCount) {
+        qPages.clear();
     }
-
     SetQubitCount(qubitCount - length);
-
-    CombineEngines(thresholdQubitsPerPage);
     SeparateEngines();
 }
 
 void QPager::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& disposedPerm)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QPager::Dispose range is out-of-bounds!");
+    }
+    if (!length) {
+        return;
+    }
+    if (length == qubitCount) {
+        qPages.clear();
+
+        return SetQubitCount(0U);
+    }
+
     CombineEngines(length + 1U);
 
     if ((start + length) > qubitsPerPage()) {
-- 
2.43.0


From 6f94afb7d440cb3a22dcdb31d84eda38da145b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 037/117] fix: QPager NormalizeState() used page norms that had
 not been calculated

---
 src/qpager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index d52a2a0..b4497fa 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1621,6 +1621,8 @@ void QPager::NormalizeState(real1_f nrm, real1_f norm_thresh, real1_f phaseArg)
     if (nrm == REAL1_DEFAULT_ARG) {
         nmlzr = ZERO_R1_F;
         for (const QEnginePtr& qPage : qPages) {
+            // The norm of a page might not have been calculated, yet.
+            qPage->UpdateRunningNorm();
             nmlzr += qPage->GetRunningNorm();
         }
     } else {
-- 
2.43.0


From 2c667bf433eb304b5607e39baae3397fa548f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 038/117] fix: QPager variance of bits is not additive per page

---
 src/qpager.cpp | 33 ++-------------------------------
 1 file changed, 2 insertions(+), 31 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index b4497fa..fd03a09 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1574,38 +1574,9 @@ real1_f QPager::ExpVarBitsAll(bool isExp, const std::vector<bitLenInt>& bits, co
         }
     }
 
-    const bitCapIntOcl pagePower = (bitCapIntOcl)pageMaxQPower();
-    real1_f expectation = ZERO_R1_F;
-    bitCapIntOcl pagePerm = 0U;
-#if ENABLE_PTHREAD
-    const unsigned numCores = GetConcurrencyLevel();
-    const bitCapIntOcl fCount = (qPages.size() < numCores) ? qPages.size() : numCores;
-    std::vector<std::future<real1_f>> futures(fCount);
-#endif
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        QEnginePtr engine = qPages[i];
-#if ENABLE_PTHREAD
-        const bitCapIntOcl iF = i % fCount;
-        if (i != iF) {
-            expectation += futures[iF].get();
-        }
-        futures[iF] = std::async(std::launch::async, [engine, isExp, bits, pagePerm, offset]() {
-            return isExp ? engine->ExpectationBitsAll(bits, pagePerm + (bitCapIntOcl)offset)
-                         : engine->VarianceBitsAll(bits, pagePerm + (bitCapIntOcl)offset);
-        });
-#else
-        expectation += isExp ? engine->ExpectationBitsAll(bits, pagePerm + offset)
-                             : engine->VarianceBitsAll(bits, pagePerm + offset);
-#endif
-        pagePerm += pagePower;
-    }
-#if ENABLE_PTHREAD
-    for (std::future<real1_f>& future : futures) {
-        expectation += future.get();
-    }
-#endif
+    CombineEngines();
 
-    return expectation;
+    return isExp ? qPages[0U]->ExpectationBitsAll(bits, offset) : qPages[0U]->VarianceBitsAll(bits, offset);
 }
 
 void QPager::UpdateRunningNorm(real1_f norm_thresh)
-- 
2.43.0


From 1eafcd30c640bc44a160b8c306fa20617f5b3416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 039/117] fix: QPager SumSqrDiff() is not additive per page

---
 src/qpager.cpp | 35 ++++-------------------------------
 1 file changed, 4 insertions(+), 31 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index fd03a09..68053c9 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1653,38 +1653,11 @@ real1_f QPager::SumSqrDiff(QPagerPtr toCompare)
         return ONE_R1_F;
     }
 
-    SeparateEngines(toCompare->qubitsPerPage());
-    toCompare->SeparateEngines(qubitsPerPage());
-    CombineEngines(toCompare->qubitsPerPage());
-    toCompare->CombineEngines(qubitsPerPage());
-
-    real1_f toRet = ZERO_R1_F;
-#if ENABLE_PTHREAD
-    const unsigned numCores = GetConcurrencyLevel();
-    const bitCapIntOcl fCount = (qPages.size() < numCores) ? qPages.size() : numCores;
-    std::vector<std::future<real1_f>> futures(fCount);
-#endif
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        QEnginePtr lEngine = qPages[i];
-        QEnginePtr rEngine = toCompare->qPages[i];
-#if ENABLE_PTHREAD
-        const bitCapIntOcl iF = i % fCount;
-        if (i != iF) {
-            toRet += futures[iF].get();
-        }
-        futures[iF] = std::async(std::launch::async, [lEngine, rEngine]() { return lEngine->SumSqrDiff(rEngine); });
-#else
-        toRet += lEngine->SumSqrDiff(rEngine);
-#endif
-    }
-
-#if ENABLE_PTHREAD
-    for (std::future<real1_f>& future : futures) {
-        toRet += future.get();
-    }
-#endif
+    // (The inner product is not additive per page, after taking its norm.)
+    CombineEngines();
+    toCompare->CombineEngines();
 
-    return toRet;
+    return qPages[0U]->SumSqrDiff(toCompare->qPages[0U]);
 }
 
 } // namespace Qrack
-- 
2.43.0


From 2e080c8946aecb4a604be97e48ddb76b7fe1a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 040/117] fix: QPager SemiMetaControlled() truncated control
 masks to 8 bits

---
 src/qpager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 68053c9..bacf903 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -577,7 +577,7 @@ void QPager::SemiMetaControlled(
 {
     const bitLenInt qpp = qubitsPerPage();
 
-    std::vector<bitLenInt> sortedMasks(controls.size());
+    std::vector<bitCapIntOcl> sortedMasks(controls.size());
 
     bitCapIntOcl controlMask = 0U;
     for (size_t i = 0U; i < controls.size(); ++i) {
-- 
2.43.0


From c9f6794e384f9f444b4d44367c9b326b4966b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 041/117] fix: QPager out-of-place multiplication and powers
 reset the output page by page

---
 src/qpager.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index bacf903..71af004 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1205,8 +1205,9 @@ void QPager::INCDECBCDC(const bitCapInt& toAdd, bitLenInt start, bitLenInt lengt
 #endif
 void QPager::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
 {
+    // The output register can only be reset on the full state vector, not page by page.
     CombineAndOp([&](QEnginePtr engine) { engine->MUL(toMul, inOutStart, carryStart, length); },
-        { static_cast<bitLenInt>(inOutStart + length - 1U), static_cast<bitLenInt>(carryStart + length - 1U) });
+        { static_cast<bitLenInt>(qubitCount - 1U) });
 }
 void QPager::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
 {
@@ -1216,8 +1217,9 @@ void QPager::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carrySt
 void QPager::MULModNOut(
     const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
+    // The output register can only be reset on the full state vector, not page by page.
     CombineAndOp([&](QEnginePtr engine) { engine->MULModNOut(toMul, modN, inStart, outStart, length); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) });
+        { static_cast<bitLenInt>(qubitCount - 1U) });
 }
 void QPager::IMULModNOut(
     const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
@@ -1228,8 +1230,9 @@ void QPager::IMULModNOut(
 void QPager::POWModNOut(
     const bitCapInt& base, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
+    // The output register can only be reset on the full state vector, not page by page.
     CombineAndOp([&](QEnginePtr engine) { engine->POWModNOut(base, modN, inStart, outStart, length); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) });
+        { static_cast<bitLenInt>(qubitCount - 1U) });
 }
 void QPager::CMUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length,
     const std::vector<bitLenInt>& controls)
@@ -1238,9 +1241,9 @@ void QPager::CMUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryS
         return MUL(toMul, inOutStart, carryStart, length);
     }
 
+    // The output register can only be reset on the full state vector, not page by page.
     CombineAndOpControlled([&](QEnginePtr engine) { engine->CMUL(toMul, inOutStart, carryStart, length, controls); },
-        { static_cast<bitLenInt>(inOutStart + length - 1U), static_cast<bitLenInt>(carryStart + length - 1U) },
-        controls);
+        { static_cast<bitLenInt>(qubitCount - 1U) }, controls);
 }
 void QPager::CDIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length,
     const std::vector<bitLenInt>& controls)
@@ -1260,9 +1263,10 @@ void QPager::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenIn
         return MULModNOut(toMul, modN, inStart, outStart, length);
     }
 
+    // The output register can only be reset on the full state vector, not page by page.
     CombineAndOpControlled(
         [&](QEnginePtr engine) { engine->CMULModNOut(toMul, modN, inStart, outStart, length, controls); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) }, controls);
+        { static_cast<bitLenInt>(qubitCount - 1U) }, controls);
 }
 void QPager::CIMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
     bitLenInt length, const std::vector<bitLenInt>& controls)
@@ -1282,9 +1286,10 @@ void QPager::CPOWModNOut(const bitCapInt& base, const bitCapInt& modN, bitLenInt
         return POWModNOut(base, modN, inStart, outStart, length);
     }
 
+    // The output register can only be reset on the full state vector, not page by page.
     CombineAndOpControlled(
         [&](QEnginePtr engine) { engine->CPOWModNOut(base, modN, inStart, outStart, length, controls); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) }, controls);
+        { static_cast<bitLenInt>(qubitCount - 1U) }, controls);
 }
 
 bitCapInt QPager::IndexedLDA(bitLenInt indexStart, bitLenInt indexLength, bitLenInt valueStart, bitLenInt valueLength,
-- 
2.43.0


From 73a0e0c3bae92d579b6bdca456af82b0f430bae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 042/117] fix: QPager gates and queries must refuse
 out-of-range qubits before acting

---
 include/qpager.hpp |  9 +++++++
 src/qpager.cpp     | 59 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 68 insertions(+)

diff --git a/include/qpager.hpp b/include/qpager.hpp
index 3977c16..6a6f1f3 100644
--- a/include/qpager.hpp
+++ b/include/qpager.hpp
@@ -307,18 +307,27 @@ public:
     void GetProbs(real1* outputProbs);
     complex GetAmplitude(const bitCapInt& perm)
     {
+        if (bi_compare(perm, maxQPower) >= 0) {
+            throw std::invalid_argument("QPager::GetAmplitude argument out-of-bounds!");
+        }
         bitCapInt p, a;
         bi_div_mod(perm, pageMaxQPower(), &p, &a);
         return qPages[(bitCapIntOcl)p]->GetAmplitude(a);
     }
     void SetAmplitude(const bitCapInt& perm, const complex& amp)
     {
+        if (bi_compare(perm, maxQPower) >= 0) {
+            throw std::invalid_argument("QPager::SetAmplitude argument out-of-bounds!");
+        }
         bitCapInt p, a;
         bi_div_mod(perm, pageMaxQPower(), &p, &a);
         qPages[(bitCapIntOcl)p]->SetAmplitude(a, amp);
     }
     real1_f ProbAll(const bitCapInt& perm)
     {
+        if (bi_compare(perm, maxQPower) >= 0) {
+            throw std::invalid_argument("QPager::ProbAll argument out-of-bounds!");
+        }
         bitCapInt p, a;
         bi_div_mod(perm, pageMaxQPower(), &p, &a);
         return qPages[(bitCapIntOcl)p]->ProbAll(a);
diff --git a/src/qpager.cpp b/src/qpager.cpp
index 71af004..66effe2 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -966,6 +966,10 @@ void QPager::SetPermutation(const bitCapInt& perm, const complex& phaseFac)
 
 void QPager::Mtrx(const complex* mtrx, bitLenInt target)
 {
+    if (target >= qubitCount) {
+        throw std::invalid_argument("QPager::Mtrx qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (IS_NORM_0(mtrx[1U]) && IS_NORM_0(mtrx[2U])) {
         return Phase(mtrx[0U], mtrx[3U], target);
     }
@@ -979,6 +983,10 @@ void QPager::Mtrx(const complex* mtrx, bitLenInt target)
 
 void QPager::ApplySingleEither(bool isInvert, const complex& _top, const complex& _bottom, bitLenInt target)
 {
+    if (target >= qubitCount) {
+        throw std::invalid_argument("QPager::ApplySingleEither qubit index parameter must be within allocated qubit bounds!");
+    }
+
     bitLenInt qpp = qubitsPerPage();
 
     if (target < qpp) {
@@ -1028,6 +1036,17 @@ void QPager::ApplyEitherControlledSingleBit(
         return Mtrx(mtrx, target);
     }
 
+    if (target >= qubitCount) {
+        throw std::invalid_argument(
+            "QPager::ApplyEitherControlledSingleBit target parameter must be within allocated qubit bounds!");
+    }
+    ThrowIfQbIdArrayIsBad(controls, qubitCount,
+        "QPager::ApplyEitherControlledSingleBit parameter controls array values must be within allocated qubit bounds!");
+    if (std::find(controls.begin(), controls.end(), target) != controls.end()) {
+        throw std::invalid_argument(
+            "QPager::ApplyEitherControlledSingleBit parameter controls array must not contain the target!");
+    }
+
     const bitLenInt qpp = qubitsPerPage();
 
     std::vector<bitLenInt> metaControls;
@@ -1071,17 +1090,29 @@ void QPager::ApplyEitherControlledSingleBit(
 
 void QPager::UniformParityRZ(const bitCapInt& mask, real1_f angle)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::UniformParityRZ mask out-of-bounds!");
+    }
+
     CombineAndOp([&](QEnginePtr engine) { engine->UniformParityRZ(mask, angle); }, { log2(mask) });
 }
 
 void QPager::CUniformParityRZ(const std::vector<bitLenInt>& controls, const bitCapInt& mask, real1_f angle)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::CUniformParityRZ mask out-of-bounds!");
+    }
+
     CombineAndOpControlled(
         [&](QEnginePtr engine) { engine->CUniformParityRZ(controls, mask, angle); }, { log2(mask) }, controls);
 }
 
 void QPager::XMask(const bitCapInt& mask)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::XMask mask out-of-bounds!");
+    }
+
     const bitCapIntOcl pageMask = pageMaxQPower() - 1U;
     const bitCapIntOcl intraMask = (bitCapIntOcl)mask & pageMask;
     bitCapIntOcl interMask = (bitCapIntOcl)mask ^ intraMask;
@@ -1101,6 +1132,10 @@ void QPager::XMask(const bitCapInt& mask)
 
 void QPager::PhaseParity(real1_f radians, const bitCapInt& mask)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::PhaseParity mask out-of-bounds!");
+    }
+
     const bitCapIntOcl parityStartSize = 4U * sizeof(bitCapIntOcl);
     const bitCapIntOcl pageMask = pageMaxQPower() - 1U;
     const bitCapIntOcl intraMask = (bitCapIntOcl)mask & pageMask;
@@ -1129,6 +1164,10 @@ void QPager::PhaseParity(real1_f radians, const bitCapInt& mask)
 
 bool QPager::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
 {
+    if (qubit >= qubitCount) {
+        throw std::invalid_argument("QPager::ForceM qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (qPages.size() == 1U) {
         return qPages[0U]->ForceM(qubit, result, doForce, doApply);
     }
@@ -1369,6 +1408,10 @@ void QPager::MetaSwap(bitLenInt qubit1, bitLenInt qubit2, bool isIPhaseFac, bool
 
 void QPager::Swap(bitLenInt qubit1, bitLenInt qubit2)
 {
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument("QPager::Swap qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -1394,6 +1437,10 @@ void QPager::Swap(bitLenInt qubit1, bitLenInt qubit2)
 }
 void QPager::EitherISwap(bitLenInt qubit1, bitLenInt qubit2, bool isInverse)
 {
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument("QPager::EitherISwap qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -1451,6 +1498,10 @@ void QPager::EitherISwap(bitLenInt qubit1, bitLenInt qubit2, bool isInverse)
 }
 void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
 {
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument("QPager::FSim qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -1487,6 +1538,10 @@ void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2
 
 real1_f QPager::Prob(bitLenInt qubit)
 {
+    if (qubit >= qubitCount) {
+        throw std::invalid_argument("QPager::Prob qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (qPages.size() == 1U) {
         return qPages[0U]->Prob(qubit);
     }
@@ -1559,6 +1614,10 @@ real1_f QPager::Prob(bitLenInt qubit)
 
 real1_f QPager::ProbMask(const bitCapInt& mask, const bitCapInt& permutation)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::ProbMask mask out-of-bounds!");
+    }
+
     CombineEngines(log2(mask) + 1U);
     real1_f maskChance = ZERO_R1_F;
     for (const QEnginePtr& qPage : qPages) {
-- 
2.43.0


From cfb73b281fb8089ff3ce60908d0bfe627698ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 043/117] fix: QInterface Compose(toCopy, start) must return
 the start index and refuse a bad one

---
 src/qinterface/qinterface.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 8ca8618..def6382 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -415,12 +415,16 @@ bitLenInt QInterface::Compose(QInterfacePtr toCopy, bitLenInt start)
         return Compose(toCopy);
     }
 
+    if (start > qubitCount) {
+        throw std::invalid_argument("QInterface::Compose start index is out-of-bounds!");
+    }
+
     const bitLenInt origSize = qubitCount;
     ROL(origSize - start, 0, qubitCount);
-    const bitLenInt result = Compose(toCopy);
+    Compose(toCopy);
     ROR(origSize - start, 0, qubitCount);
 
-    return result;
+    return start;
 }
 
 std::map<QInterfacePtr, bitLenInt> QInterface::Compose(std::vector<QInterfacePtr> toCopy)
-- 
2.43.0


From 9ca05cdaf55a09386d09ce1dc130923693913704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 044/117] fix: QInterface TryDecompose() compared against a
 shallow copy

---
 src/qinterface/qinterface.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index def6382..9db1408 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -820,9 +820,10 @@ bool QInterface::TryDecompose(bitLenInt start, QInterfacePtr dest, real1_f error
 {
     Finish();
 
-    QInterfacePtr orig = Copy();
+    // (A shallow Copy() could share state with what Decompose() and Compose() change in place.)
+    QInterfacePtr orig = Clone();
     orig->Decompose(start, dest);
-    QInterfacePtr output = orig->Copy();
+    QInterfacePtr output = orig->Clone();
     orig->Compose(dest, start);
 
     const bool didSeparate = ApproxCompare(orig, error_tol);
-- 
2.43.0


From be7da9426feebdd2842e3be98b85f69cedcead6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 045/117] fix: QInterface INCS() default did not match the
 engines' signed addition

---
 include/qinterface.hpp        | 15 ++++-------
 src/qinterface/arithmetic.cpp | 50 +++++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index b48fed1..582c870 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2211,16 +2211,11 @@ public:
         CINC(invToSub, inOutStart, length, controls);
     }
 
-    /** Add a classical integer to the register, with sign and without carry. */
-    virtual void INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
-    {
-        const bitCapInt signMask = pow2(length - 1U);
-        INC(signMask, start, length);
-        INCDECC(toAdd & ~signMask, start, length, overflowIndex);
-        if (bi_compare_0(toAdd & signMask) == 0) {
-            DEC(signMask, start, length);
-        }
-    }
+    /**
+     * Add a classical integer to the register, with sign and without carry. (If the overflow flag is set, phase is
+     * flipped on overflow.)
+     */
+    virtual void INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex);
 
     /** Subtract a classical integer from the register, with sign and without carry. */
     virtual void DECS(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index fce29ca..cdc0f01 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -50,8 +50,58 @@ void QInterface::INC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length)
     }
 }
 
+void QInterface::INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
+{
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::INCS range is out-of-bounds!");
+    }
+
+    if (overflowIndex >= qubitCount) {
+        throw std::invalid_argument("QInterface::INCS overflowIndex is out-of-bounds!");
+    }
+
+    if (!length) {
+        return;
+    }
+
+    const bitCapInt addend = toAdd & pow2Mask(length);
+    if (bi_compare_0(addend) == 0) {
+        return;
+    }
+
+    INC(addend, start, length);
+
+    // The addition has overflowed if the sum is in [signPower, signPower + addend), for a positive addend, or if the
+    // sum is in [addend - signPower, signPower), for a negative addend.
+    const bitCapInt signPower = pow2(length - 1U);
+    const bool isAddendNeg = bi_compare(addend, signPower) >= 0;
+    const bitCapInt bounds[2U] = { signPower, isAddendNeg ? (addend - signPower) : (addend + signPower) };
+    for (const bitCapInt& bound : bounds) {
+        // Flip phase for all sums less than the bound, if the flag is set.
+        for (bitLenInt i = 0U; i < length; ++i) {
+            if (bi_and_1(bound >> i) == 0) {
+                continue;
+            }
+            std::vector<bitLenInt> controls;
+            controls.reserve(length - i);
+            for (bitLenInt j = i; j < length; ++j) {
+                controls.push_back(start + j);
+            }
+            UCPhase(controls, ONE_CMPLX, -ONE_CMPLX, overflowIndex, (bound >> i) - ONE_BCI);
+        }
+    }
+}
+
 void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::INCDECC range is out-of-bounds!");
+    }
+
+    if (carryIndex >= qubitCount) {
+        throw std::invalid_argument("QInterface::INCDECC carryIndex is out-of-bounds!");
+    }
+
     if (!length) {
         return;
     }
-- 
2.43.0


From 2669d9be33a018e3a4f3135615bde1eb320a105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 046/117] fix: QInterface default gates and arithmetic must
 refuse out-of-range arguments before acting

---
 src/qinterface/arithmetic.cpp | 11 ++++++++
 src/qinterface/gates.cpp      | 53 +++++++++++++++++++++++++++++++++++
 src/qinterface/qinterface.cpp | 12 ++++++++
 3 files changed, 76 insertions(+)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index cdc0f01..bf5743b 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -19,6 +19,10 @@ namespace Qrack {
 /** Add integer (without sign) */
 void QInterface::INC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::INC range is out-of-bounds!");
+    }
+
     if (!length) {
         return;
     }
@@ -128,6 +132,13 @@ void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt leng
 /** Add integer (without sign, with controls) */
 void QInterface::CINC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, const std::vector<bitLenInt>& controls)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::CINC range is out-of-bounds!");
+    }
+
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QInterface::CINC parameter controls array values must be within allocated qubit bounds!");
+
     if (!controls.size()) {
         return INC(toAdd, start, length);
     }
diff --git a/src/qinterface/gates.cpp b/src/qinterface/gates.cpp
index 17bef06..87e4d6b 100644
--- a/src/qinterface/gates.cpp
+++ b/src/qinterface/gates.cpp
@@ -62,6 +62,14 @@ void QInterface::UCMtrx(
 void QInterface::UniformlyControlledSingleBit(const std::vector<bitLenInt>& controls, bitLenInt qubitIndex,
     const complex* mtrxs, const std::vector<bitCapInt>& mtrxSkipPowers, const bitCapInt& mtrxSkipValueMask)
 {
+    if (qubitIndex >= qubitCount) {
+        throw std::invalid_argument(
+            "QInterface::UniformlyControlledSingleBit qubitIndex is out-of-bounds!");
+    }
+    ThrowIfQbIdArrayIsBad(controls, qubitCount,
+        "QInterface::UniformlyControlledSingleBit parameter controls array values must be within allocated qubit "
+        "bounds!");
+
     for (const bitLenInt& control : controls) {
         X(control);
     }
@@ -100,6 +108,10 @@ void QInterface::ZeroPhaseFlip(bitLenInt start, bitLenInt length)
 
 void QInterface::XMask(const bitCapInt& _mask)
 {
+    if (bi_compare(_mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QInterface::XMask mask out-of-bounds!");
+    }
+
     bitCapInt mask = _mask;
     bitCapInt v = mask;
     while (bi_compare_0(mask) != 0) {
@@ -111,6 +123,10 @@ void QInterface::XMask(const bitCapInt& _mask)
 
 void QInterface::YMask(const bitCapInt& _mask)
 {
+    if (bi_compare(_mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QInterface::YMask mask out-of-bounds!");
+    }
+
     bitLenInt bit = log2(_mask);
 
     if (bi_compare(pow2(bit), _mask) == 0) {
@@ -143,6 +159,10 @@ void QInterface::YMask(const bitCapInt& _mask)
 
 void QInterface::ZMask(const bitCapInt& _mask)
 {
+    if (bi_compare(_mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QInterface::ZMask mask out-of-bounds!");
+    }
+
     bitCapInt mask = _mask;
     bitCapInt v = mask;
     while (bi_compare_0(mask) != 0) {
@@ -154,6 +174,10 @@ void QInterface::ZMask(const bitCapInt& _mask)
 
 void QInterface::PhaseRootNMask(bitLenInt n, const bitCapInt& _mask)
 {
+    if (bi_compare(_mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QInterface::PhaseRootNMask mask out-of-bounds!");
+    }
+
     bitCapInt mask = _mask;
     bitCapInt v = mask;
     while (bi_compare_0(mask) != 0) {
@@ -165,6 +189,11 @@ void QInterface::PhaseRootNMask(bitLenInt n, const bitCapInt& _mask)
 
 void QInterface::Swap(bitLenInt q1, bitLenInt q2)
 {
+    if ((q1 >= qubitCount) || (q2 >= qubitCount)) {
+        throw std::invalid_argument(
+            "QInterface::Swap qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (q1 == q2) {
         return;
     }
@@ -176,6 +205,11 @@ void QInterface::Swap(bitLenInt q1, bitLenInt q2)
 
 void QInterface::ISwap(bitLenInt q1, bitLenInt q2)
 {
+    if ((q1 >= qubitCount) || (q2 >= qubitCount)) {
+        throw std::invalid_argument(
+            "QInterface::ISwap qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (q1 == q2) {
         return;
     }
@@ -188,6 +222,11 @@ void QInterface::ISwap(bitLenInt q1, bitLenInt q2)
 
 void QInterface::IISwap(bitLenInt q1, bitLenInt q2)
 {
+    if ((q1 >= qubitCount) || (q2 >= qubitCount)) {
+        throw std::invalid_argument(
+            "QInterface::IISwap qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (q1 == q2) {
         return;
     }
@@ -200,6 +239,11 @@ void QInterface::IISwap(bitLenInt q1, bitLenInt q2)
 
 void QInterface::SqrtSwap(bitLenInt q1, bitLenInt q2)
 {
+    if ((q1 >= qubitCount) || (q2 >= qubitCount)) {
+        throw std::invalid_argument(
+            "QInterface::SqrtSwap qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (q1 == q2) {
         return;
     }
@@ -223,6 +267,11 @@ void QInterface::SqrtSwap(bitLenInt q1, bitLenInt q2)
 
 void QInterface::ISqrtSwap(bitLenInt q1, bitLenInt q2)
 {
+    if ((q1 >= qubitCount) || (q2 >= qubitCount)) {
+        throw std::invalid_argument(
+            "QInterface::ISqrtSwap qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (q1 == q2) {
         return;
     }
@@ -377,6 +426,10 @@ void QInterface::AntiCISqrtSwap(const std::vector<bitLenInt>& controls, bitLenIn
 
 void QInterface::PhaseParity(real1_f radians, const bitCapInt& _mask)
 {
+    if (bi_compare(_mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QInterface::PhaseParity mask out-of-bounds!");
+    }
+
     if (bi_compare_0(_mask) == 0) {
         return;
     }
diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 9db1408..321c55e 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -212,6 +212,10 @@ void QInterface::SetReg(bitLenInt start, bitLenInt length, const bitCapInt& valu
 /// Bit-wise apply measurement gate to a register
 bitCapInt QInterface::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt& result, bool doForce, bool doApply)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::ForceMReg range is out-of-bounds!");
+    }
+
     bitCapInt res = ZERO_BCI;
     for (bitLenInt bit = 0U; bit < length; ++bit) {
         const bitCapInt power = pow2(bit);
@@ -308,6 +312,10 @@ real1_f QInterface::ProbMask(const bitCapInt& mask, const bitCapInt& permutation
 /// "Circular shift right" - (Uses swap-based algorithm for speed)
 void QInterface::ROL(bitLenInt shift, bitLenInt start, bitLenInt length)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::ROL range is out-of-bounds!");
+    }
+
     if (length < 2U) {
         return;
     }
@@ -327,6 +335,10 @@ void QInterface::ROL(bitLenInt shift, bitLenInt start, bitLenInt length)
 /// "Circular shift right" - shift bits right, and carry first bits.
 void QInterface::ROR(bitLenInt shift, bitLenInt start, bitLenInt length)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::ROR range is out-of-bounds!");
+    }
+
     if (length < 2U) {
         return;
     }
-- 
2.43.0


From 9bc71c303af8f887105e7646e76b5d55277d4ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 047/117] fix: QStabilizer Decompose()/Dispose() assumed
 tableau rows line up with qubits

---
 include/qstabilizer.hpp |   2 +
 src/qstabilizer.cpp     | 131 +++++++++++++++++++++++-----------------
 2 files changed, 79 insertions(+), 54 deletions(-)

diff --git a/include/qstabilizer.hpp b/include/qstabilizer.hpp
index 7164e8c..53825f6 100644
--- a/include/qstabilizer.hpp
+++ b/include/qstabilizer.hpp
@@ -242,6 +242,8 @@ protected:
     real1_f getVariance(const real1_f& mean, const real1_f& nrm, const std::vector<bitCapInt>& bitPowers,
         const std::vector<real1_f>& weights);
 
+    bool IsolateRange(const bitLenInt& start, const bitLenInt& length);
+
     void DecomposeDispose(const bitLenInt start, const bitLenInt length, QStabilizerPtr toCopy);
 
     real1_f ApproxCompareHelper(
diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index 804b324..6cc1c65 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1615,70 +1615,93 @@ QInterfacePtr QStabilizer::Decompose(bitLenInt start, bitLenInt length)
     return dest;
 }
 
-bool QStabilizer::CanDecomposeDispose(const bitLenInt start, const bitLenInt length)
+/**
+ * Rearrange the generators such that the ones at positions [start, start + length) act on that range of qubits only,
+ * and the other ones don't act on it at all. (Return value = true if that's possible, i.e. if the range is separable)
+ */
+bool QStabilizer::IsolateRange(const bitLenInt& start, const bitLenInt& length)
 {
-    if (isBadBitRange(start, length, qubitCount)) {
-        throw std::invalid_argument("QStabilizer::CanDecomposeDispose range is out-of-bounds!");
-    }
-
-    if (qubitCount == 1U) {
-        return true;
-    }
-
-    Finish();
-
-    // We want to have the maximum number of 0 cross terms possible.
-    gaussian();
-
+    // For brevity:
+    const bitLenInt& n = qubitCount;
+    const bitLenInt maxLcv = n << 1U;
     const bitLenInt end = start + length;
+    bitLenInt i = n;
 
-    for (bitLenInt i = 0U; i < start; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = start; j < end; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
+    // If there is a generator at or below row "i" that acts on qubit "j" with "v", (for X or Z,) move it to row "i".
+    const auto pivot = [&](const std::vector<BoolVector>& v, const bitLenInt& j) {
+        for (bitLenInt k = i; k < maxLcv; ++k) {
+            if (v[k][j]) {
+                rowswap(i, k);
+                rowswap(i - n, k - n);
+                return true;
             }
         }
-    }
-
-    for (bitLenInt i = end; i < qubitCount; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = start; j < end; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
+        return false;
+    };
+    // Gaussian elimination step, with row "i"
+    const auto eliminate = [&](const std::vector<BoolVector>& v, const bitLenInt& j, const bitLenInt& first) {
+        for (bitLenInt k = first; k < maxLcv; ++k) {
+            if ((k != i) && v[k][j]) {
+                rowmult(k, i);
+                rowmult(i - n, k - n);
             }
         }
+        ++i;
+    };
+
+    // At the top, a minimal set of generators that act on the outside of the range.
+    for (bitLenInt j = 0U; j < n; ++j) {
+        if ((j >= start) && (j < end)) {
+            continue;
+        }
+        if (pivot(x, j)) {
+            eliminate(x, j, i + 1U);
+        }
+        if (pivot(z, j)) {
+            eliminate(z, j, i + 1U);
+        }
     }
 
-    for (bitLenInt i = start; i < end; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = 0U; j < start; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
-            }
+    if ((maxLcv - i) != length) {
+        // Fewer generators than qubits act on the range alone, so it's entangled with the outside.
+        return false;
+    }
+
+    // At the bottom, generators of the range. They commute with all generators at the top, so elimination leaves
+    // nothing of the top in the range.
+    const bitLenInt firstInside = i;
+    for (bitLenInt j = start; j < end; ++j) {
+        if (pivot(x, j)) {
+            eliminate(x, j, n);
         }
-        for (bitLenInt j = end; j < qubitCount; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
-            }
+        if (pivot(z, j)) {
+            eliminate(z, j, n);
         }
     }
 
+    for (bitLenInt j = 0U; j < length; ++j) {
+        rowswap(n + start + j, firstInside + j);
+        rowswap(start + j, firstInside + j - n);
+    }
+
     return true;
 }
 
+bool QStabilizer::CanDecomposeDispose(const bitLenInt start, const bitLenInt length)
+{
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QStabilizer::CanDecomposeDispose range is out-of-bounds!");
+    }
+
+    if (qubitCount == 1U) {
+        return true;
+    }
+
+    Finish();
+
+    return IsolateRange(start, length);
+}
+
 void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length, QStabilizerPtr dest)
 {
     if (isBadBitRange(start, length, qubitCount)) {
@@ -1696,12 +1719,12 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
 
     const AmplitudeEntry ampEntry = (randGlobalPhase || dest) ? AmplitudeEntry(ZERO_BCI, ONE_CMPLX) : GetAnyAmplitude();
 
-    // We want to have the maximum number of 0 cross terms possible.
-    gaussian();
-
-    // We assume that the bits to "decompose" the representation of already have 0 cross-terms in their generators
-    // outside inter- "dest" cross terms. (Usually, we're "decomposing" the representation of a just-measured single
-    // qubit.)
+    // We assume that the bits to "decompose" the representation of are separable. (Usually, we're "decomposing" the
+    // representation of a just-measured single qubit.)
+    if (!IsolateRange(start, length)) {
+        // We want to have the maximum number of 0 cross terms possible.
+        gaussian();
+    }
 
     const bitCapInt oMaxQMask = pow2Mask(qubitCount);
     const bitLenInt end = start + length;
-- 
2.43.0


From 37b5921b07212e50ffc79439f1397325a763ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 048/117] fix: QUnitClifford controlled gates with eigenstate
 controls acted on the unmapped target

---
 include/qunitclifford.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/qunitclifford.hpp b/include/qunitclifford.hpp
index cc260e5..d465964 100644
--- a/include/qunitclifford.hpp
+++ b/include/qunitclifford.hpp
@@ -104,14 +104,11 @@ protected:
     {
         ThrowIfQubitInvalid(target, "QUnitClifford::CGate");
         const real1_f p = Prob(control);
-        if (p < (ONE_R1_F / 4)) {
-            if (isAnti) {
-                fn(shards[target].unit, target, mtrx);
-            }
-            return;
-        } else if (p > (3 * ONE_R1_F / 4)) {
-            if (!isAnti) {
-                fn(shards[target].unit, target, mtrx);
+        if ((p < (ONE_R1_F / 4)) || (p > (3 * ONE_R1_F / 4))) {
+            if (isAnti == (p < (ONE_R1_F / 4))) {
+                const CliffordShard& shard = shards[target];
+                fn(shard.unit, shard.mapped, mtrx);
+                CombinePhaseOffsets(shard.unit);
             }
             return;
         }
-- 
2.43.0


From dc92e2c36adb45194f551268375a1facd8b0f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 049/117] fix: QUnitClifford expectation/variance of bits added
 the offset once per unit

---
 src/qunitclifford.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 3cc79bd..bb6a7f4 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -63,14 +63,16 @@ real1_f QUnitClifford::ExpVarBitsFactorized(
         permMap[shard.unit].push_back(perms[(i << 1U) | 1U]);
     }
 
+    // The offset is common to all units, so it is only added once.
     real1_f expectation = ZERO_R1;
     if (isExp) {
         for (const auto& p : qubitMap) {
-            expectation += p.first->ExpectationBitsFactorized(p.second, permMap[p.first], offset);
+            expectation += p.first->ExpectationBitsFactorized(p.second, permMap[p.first]);
         }
+        expectation += (real1_f)bi_to_double(offset);
     } else {
         for (const auto& p : qubitMap) {
-            expectation += p.first->VarianceBitsFactorized(p.second, permMap[p.first], offset);
+            expectation += p.first->VarianceBitsFactorized(p.second, permMap[p.first]);
         }
     }
 
-- 
2.43.0


From 146b80e3134f0bead5ac3dd442b3316a0adabda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 050/117] fix: QUnitClifford ProbMask() must multiply over
 separable units

---
 src/qunitclifford.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index bb6a7f4..3554cee 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -172,12 +172,12 @@ real1_f QUnitClifford::ProbMask(const bitCapInt& mask, const bitCapInt& perm)
         }
     }
 
-    real1 expectation = ZERO_R1;
+    real1 prob = ONE_R1;
     for (const auto& p : maskMap) {
-        expectation += (real1)p.first->ProbMask(p.second, permMap[p.first]);
+        prob *= (real1)p.first->ProbMask(p.second, permMap[p.first]);
     }
 
-    return (real1_f)expectation;
+    return (real1_f)prob;
 }
 
 void QUnitClifford::SetPermutation(const bitCapInt& perm, const complex& phaseFac)
-- 
2.43.0


From b32d8dd4560c16399678ceb89d08a13e365dfb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 051/117] fix: QUnitClifford Detach() mapped destination bits
 by their source positions

---
 src/qunitclifford.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 3554cee..2c378f9 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -208,9 +208,11 @@ void QUnitClifford::Detach(bitLenInt start, bitLenInt length, QUnitCliffordPtr d
     // Move "emulated" bits immediately into the destination, which is initialized.
     // Find a set of shard "units" to order contiguously. Also count how many bits to decompose are in each subunit.
     std::map<QStabilizerPtr, bitLenInt> subunits;
+    std::map<QStabilizerPtr, bitLenInt> origLens;
     for (bitLenInt i = 0U; i < length; ++i) {
         CliffordShard& shard = shards[start + i];
         ++(subunits[shard.unit]);
+        origLens[shard.unit] = shard.unit->GetQubitCount();
     }
 
     // Order the subsystem units contiguously. (They might be entangled at random with bits not involed in the
@@ -232,8 +234,7 @@ void QUnitClifford::Detach(bitLenInt start, bitLenInt length, QUnitCliffordPtr d
         if (decomposedUnits.find(unit) == decomposedUnits.end()) {
             decomposedUnits[unit] = start + i;
             bitLenInt subLen = subunits[unit];
-            bitLenInt origLen = unit->GetQubitCount();
-            if (subLen != origLen) {
+            if (subLen != origLens[unit]) {
                 if (dest) {
                     QStabilizerPtr nUnit = MakeStabilizer(subLen, ZERO_BCI);
                     shard.unit->Decompose(shard.mapped, nUnit);
@@ -252,6 +253,10 @@ void QUnitClifford::Detach(bitLenInt start, bitLenInt length, QUnitCliffordPtr d
 
         if (dest) {
             dest->shards[i] = shard;
+            // The destination unit only contains the decomposed bits.
+            if (subunits[unit] != origLens[unit]) {
+                dest->shards[i].mapped -= shards[decomposedUnits[unit]].mapped;
+            }
         }
     }
 
-- 
2.43.0


From 53d9ae53c71b0b73b552e51201a758d40a6400d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 052/117] fix: MultiShotMeasureMask() sampled outcomes of zero
 probability at count boundaries

---
 src/qunit.cpp         | 2 +-
 src/qunitclifford.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 4c4c75c..b8a6648 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1614,7 +1614,7 @@ std::map<bitCapInt, int> QUnit::MultiShotMeasureMask(const std::vector<bitCapInt
 
                 auto pickIter = topLevelResults.begin();
                 int count = pickIter->second;
-                while (pick > count) {
+                while (pick >= count) {
                     ++pickIter;
                     count += pickIter->second;
                 }
diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 2c378f9..aef72b1 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -686,7 +686,7 @@ std::map<bitCapInt, int> QUnitClifford::MultiShotMeasureMask(const std::vector<b
 
                 auto pickIter = topLevelResults.begin();
                 int count = pickIter->second;
-                while (pick > count) {
+                while (pick >= count) {
                     ++pickIter;
                     count += pickIter->second;
                 }
-- 
2.43.0


From cc4273ed36af4e7cb678d9c248bcb79f1b0b4b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 053/117] fix: QInterface MultiShotMeasureMask() shared one
 generator between parallel clones

---
 src/qinterface/qinterface.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 321c55e..757a78e 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -806,12 +806,10 @@ std::map<bitCapInt, int> QInterface::MultiShotMeasureMask(const std::vector<bitC
     }
 
     std::map<bitCapInt, int> results;
-    std::mutex resultsMutex;
-    par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
-        const bitCapInt sample = SampleClone(qPowers);
-        std::lock_guard<std::mutex> lock(resultsMutex);
-        ++(results[sample]);
-    });
+    // (The random generator is shared between clones, so sampling is not thread-safe.)
+    for (unsigned shot = 0U; shot < shots; ++shot) {
+        ++(results[SampleClone(qPowers)]);
+    }
 
     return results;
 }
@@ -823,9 +821,10 @@ void QInterface::MultiShotMeasureMask(
         return;
     }
 
-    par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
-        shotsArray[shot] = (unsigned)(bitCapIntOcl)SampleClone(qPowers);
-    });
+    // (The random generator is shared between clones, so sampling is not thread-safe.)
+    for (unsigned shot = 0U; shot < shots; ++shot) {
+        shotsArray[shot] = (unsigned long long)(bitCapIntOcl)SampleClone(qPowers);
+    }
 }
 
 bool QInterface::TryDecompose(bitLenInt start, QInterfacePtr dest, real1_f error_tol)
-- 
2.43.0


From 54f040e6efe6026c40e8cf716a143c8400c9cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 054/117] fix: QStabilizerHybrid must refuse out-of-range
 arguments before acting

---
 include/qstabilizerhybrid.hpp |  13 ++++
 src/qstabilizerhybrid.cpp     | 115 ++++++++++++++++++++++++++++++++--
 2 files changed, 124 insertions(+), 4 deletions(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 06d8c68..d1b7f3d 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -81,6 +81,15 @@ protected:
         QInterface::SetQubitCount(qb);
     }
 
+    void ThrowIfQubitInvalid(bitLenInt qubit, const std::string& methodName)
+    {
+        if (qubit >= qubitCount) {
+            throw std::invalid_argument(
+                methodName + std::string(" qubit index parameter must be within allocated qubit bounds!"));
+        }
+    }
+
+    void MtrxOrAncilla(const complex* mtrx, bitLenInt target);
     void InvertBuffer(bitLenInt qubit);
     void FlushH(bitLenInt qubit);
     void FlushIfBlocked(bitLenInt control, bitLenInt target, bool isPhase = false);
@@ -774,6 +783,10 @@ public:
 
     real1_f ProbMask(const bitCapInt& mask, const bitCapInt& permutation)
     {
+        if (bi_compare(mask, maxQPower) >= 0) {
+            throw std::invalid_argument("QStabilizerHybrid::ProbMask mask is out-of-bounds!");
+        }
+
         SwitchToEngine();
         return engine->ProbMask(mask, permutation);
     }
diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index ce245d6..dadeafc 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -226,9 +226,10 @@ void QStabilizerHybrid::FlushIfBlocked(bitLenInt control, bitLenInt target, bool
     }
 
     // Use reverse t-injection gadget.
+    const complex hGate[4U]{ SQRT1_2_R1, SQRT1_2_R1, SQRT1_2_R1, -SQRT1_2_R1 };
     stabilizer->CNOT(target, ancillaIndex);
-    Mtrx(shard->gate, ancillaIndex);
-    H(ancillaIndex);
+    MtrxOrAncilla(shard->gate, ancillaIndex);
+    MtrxOrAncilla(hGate, ancillaIndex);
 
     // When we eventually measure, we act postselection, but not yet.
     // ForceM(ancillaIndex, false, true, true);
@@ -542,6 +543,10 @@ bitLenInt QStabilizerHybrid::ComposeEither(QStabilizerHybridPtr toCopy, bool wil
 
 bitLenInt QStabilizerHybrid::Compose(QStabilizerHybridPtr toCopy, bitLenInt start)
 {
+    if (start > qubitCount) {
+        throw std::invalid_argument("QStabilizerHybrid::Compose start index is out-of-bounds!");
+    }
+
     if (start == qubitCount) {
         return Compose(toCopy);
     }
@@ -700,6 +705,10 @@ void QStabilizerHybrid::GetProbs(real1* outputProbs)
 
 complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb)
 {
+    if (bi_compare(perm, maxQPower) >= 0) {
+        throw std::invalid_argument("QStabilizerHybrid::GetAmplitude argument is out-of-bounds!");
+    }
+
     if (engine) {
         return engine->GetAmplitude(perm);
     }
@@ -940,6 +949,9 @@ void QStabilizerHybrid::SetPermutation(const bitCapInt& perm, const complex& pha
 
 void QStabilizerHybrid::Swap(bitLenInt qubit1, bitLenInt qubit2)
 {
+    ThrowIfQubitInvalid(qubit1, "QStabilizerHybrid::Swap");
+    ThrowIfQubitInvalid(qubit2, "QStabilizerHybrid::Swap");
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -955,6 +967,11 @@ void QStabilizerHybrid::Swap(bitLenInt qubit1, bitLenInt qubit2)
 }
 void QStabilizerHybrid::CSwap(const std::vector<bitLenInt>& lControls, bitLenInt qubit1, bitLenInt qubit2)
 {
+    ThrowIfQubitInvalid(qubit1, "QStabilizerHybrid::CSwap");
+    ThrowIfQubitInvalid(qubit2, "QStabilizerHybrid::CSwap");
+    ThrowIfQbIdArrayIsBad(lControls, qubitCount,
+        "QStabilizerHybrid::CSwap control qubit index values must be within allocated qubit bounds!");
+
     rdmClone = nullptr;
 
     if (stabilizer) {
@@ -977,6 +994,11 @@ void QStabilizerHybrid::CSwap(const std::vector<bitLenInt>& lControls, bitLenInt
 }
 void QStabilizerHybrid::CSqrtSwap(const std::vector<bitLenInt>& lControls, bitLenInt qubit1, bitLenInt qubit2)
 {
+    ThrowIfQubitInvalid(qubit1, "QStabilizerHybrid::CSqrtSwap");
+    ThrowIfQubitInvalid(qubit2, "QStabilizerHybrid::CSqrtSwap");
+    ThrowIfQbIdArrayIsBad(lControls, qubitCount,
+        "QStabilizerHybrid::CSqrtSwap control qubit index values must be within allocated qubit bounds!");
+
     if (stabilizer) {
         std::vector<bitLenInt> controls;
 
@@ -995,6 +1017,11 @@ void QStabilizerHybrid::CSqrtSwap(const std::vector<bitLenInt>& lControls, bitLe
 }
 void QStabilizerHybrid::AntiCSqrtSwap(const std::vector<bitLenInt>& lControls, bitLenInt qubit1, bitLenInt qubit2)
 {
+    ThrowIfQubitInvalid(qubit1, "QStabilizerHybrid::AntiCSqrtSwap");
+    ThrowIfQubitInvalid(qubit2, "QStabilizerHybrid::AntiCSqrtSwap");
+    ThrowIfQbIdArrayIsBad(lControls, qubitCount,
+        "QStabilizerHybrid::AntiCSqrtSwap control qubit index values must be within allocated qubit bounds!");
+
     if (stabilizer) {
         std::vector<bitLenInt> controls;
 
@@ -1013,6 +1040,11 @@ void QStabilizerHybrid::AntiCSqrtSwap(const std::vector<bitLenInt>& lControls, b
 }
 void QStabilizerHybrid::CISqrtSwap(const std::vector<bitLenInt>& lControls, bitLenInt qubit1, bitLenInt qubit2)
 {
+    ThrowIfQubitInvalid(qubit1, "QStabilizerHybrid::CISqrtSwap");
+    ThrowIfQubitInvalid(qubit2, "QStabilizerHybrid::CISqrtSwap");
+    ThrowIfQbIdArrayIsBad(lControls, qubitCount,
+        "QStabilizerHybrid::CISqrtSwap control qubit index values must be within allocated qubit bounds!");
+
     if (stabilizer) {
         std::vector<bitLenInt> controls;
 
@@ -1031,6 +1063,11 @@ void QStabilizerHybrid::CISqrtSwap(const std::vector<bitLenInt>& lControls, bitL
 }
 void QStabilizerHybrid::AntiCISqrtSwap(const std::vector<bitLenInt>& lControls, bitLenInt qubit1, bitLenInt qubit2)
 {
+    ThrowIfQubitInvalid(qubit1, "QStabilizerHybrid::AntiCISqrtSwap");
+    ThrowIfQubitInvalid(qubit2, "QStabilizerHybrid::AntiCISqrtSwap");
+    ThrowIfQbIdArrayIsBad(lControls, qubitCount,
+        "QStabilizerHybrid::AntiCISqrtSwap control qubit index values must be within allocated qubit bounds!");
+
     if (stabilizer) {
         std::vector<bitLenInt> controls;
 
@@ -1050,6 +1087,10 @@ void QStabilizerHybrid::AntiCISqrtSwap(const std::vector<bitLenInt>& lControls,
 
 void QStabilizerHybrid::XMask(const bitCapInt& _mask)
 {
+    if (bi_compare(_mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QStabilizerHybrid::XMask mask is out-of-bounds!");
+    }
+
     if (engine) {
         return engine->XMask(_mask);
     }
@@ -1064,6 +1105,10 @@ void QStabilizerHybrid::XMask(const bitCapInt& _mask)
 }
 void QStabilizerHybrid::YMask(const bitCapInt& _mask)
 {
+    if (bi_compare(_mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QStabilizerHybrid::YMask mask is out-of-bounds!");
+    }
+
     if (engine) {
         return engine->YMask(_mask);
     }
@@ -1078,6 +1123,10 @@ void QStabilizerHybrid::YMask(const bitCapInt& _mask)
 }
 void QStabilizerHybrid::ZMask(const bitCapInt& _mask)
 {
+    if (bi_compare(_mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QStabilizerHybrid::ZMask mask is out-of-bounds!");
+    }
+
     if (engine) {
         return engine->ZMask(_mask);
     }
@@ -1092,6 +1141,12 @@ void QStabilizerHybrid::ZMask(const bitCapInt& _mask)
 }
 
 void QStabilizerHybrid::Mtrx(const complex* lMtrx, bitLenInt target)
+{
+    ThrowIfQubitInvalid(target, "QStabilizerHybrid::Mtrx");
+    MtrxOrAncilla(lMtrx, target);
+}
+
+void QStabilizerHybrid::MtrxOrAncilla(const complex* lMtrx, bitLenInt target)
 {
     MpsShardPtr shard = shards[target];
     shards[target] = nullptr;
@@ -1144,9 +1199,10 @@ void QStabilizerHybrid::Mtrx(const complex* lMtrx, bitLenInt target)
                 }
 
                 // Use reverse t-injection gadget.
+                const complex hGate[4U]{ SQRT1_2_R1, SQRT1_2_R1, SQRT1_2_R1, -SQRT1_2_R1 };
                 stabilizer->CNOT(target, ancillaIndex);
-                Mtrx(shard->gate, ancillaIndex);
-                H(ancillaIndex);
+                MtrxOrAncilla(shard->gate, ancillaIndex);
+                MtrxOrAncilla(hGate, ancillaIndex);
             }
         }
 
@@ -1174,6 +1230,10 @@ void QStabilizerHybrid::Mtrx(const complex* lMtrx, bitLenInt target)
 
 void QStabilizerHybrid::MCMtrx(const std::vector<bitLenInt>& lControls, const complex* mtrx, bitLenInt target)
 {
+    ThrowIfQubitInvalid(target, "QStabilizerHybrid::MCMtrx");
+    ThrowIfQbIdArrayIsBad(lControls, qubitCount,
+        "QStabilizerHybrid::MCMtrx control qubit index values must be within allocated qubit bounds!");
+
     if (IS_NORM_0(mtrx[1U]) && IS_NORM_0(mtrx[2U])) {
         return MCPhase(lControls, mtrx[0U], mtrx[3U], target);
     }
@@ -1199,6 +1259,10 @@ void QStabilizerHybrid::MCMtrx(const std::vector<bitLenInt>& lControls, const co
 void QStabilizerHybrid::MCPhase(
     const std::vector<bitLenInt>& lControls, const complex& topLeft, const complex& bottomRight, bitLenInt target)
 {
+    ThrowIfQubitInvalid(target, "QStabilizerHybrid::MCPhase");
+    ThrowIfQbIdArrayIsBad(lControls, qubitCount,
+        "QStabilizerHybrid::MCPhase control qubit index values must be within allocated qubit bounds!");
+
     if (IS_NORM_0(topLeft - ONE_CMPLX) && IS_NORM_0(bottomRight - ONE_CMPLX)) {
         return;
     }
@@ -1253,6 +1317,10 @@ void QStabilizerHybrid::MCPhase(
 void QStabilizerHybrid::MCInvert(
     const std::vector<bitLenInt>& lControls, const complex& topRight, const complex& bottomLeft, bitLenInt target)
 {
+    ThrowIfQubitInvalid(target, "QStabilizerHybrid::MCInvert");
+    ThrowIfQbIdArrayIsBad(lControls, qubitCount,
+        "QStabilizerHybrid::MCInvert control qubit index values must be within allocated qubit bounds!");
+
     if (engine) {
         return engine->MCInvert(lControls, topRight, bottomLeft, target);
     }
@@ -1300,6 +1368,10 @@ void QStabilizerHybrid::MCInvert(
 
 void QStabilizerHybrid::MACMtrx(const std::vector<bitLenInt>& lControls, const complex* mtrx, bitLenInt target)
 {
+    ThrowIfQubitInvalid(target, "QStabilizerHybrid::MACMtrx");
+    ThrowIfQbIdArrayIsBad(lControls, qubitCount,
+        "QStabilizerHybrid::MACMtrx control qubit index values must be within allocated qubit bounds!");
+
     if (IS_NORM_0(mtrx[1U]) && IS_NORM_0(mtrx[2U])) {
         return MACPhase(lControls, mtrx[0U], mtrx[3U], target);
     }
@@ -1325,6 +1397,10 @@ void QStabilizerHybrid::MACMtrx(const std::vector<bitLenInt>& lControls, const c
 void QStabilizerHybrid::MACPhase(
     const std::vector<bitLenInt>& lControls, const complex& topLeft, const complex& bottomRight, bitLenInt target)
 {
+    ThrowIfQubitInvalid(target, "QStabilizerHybrid::MACPhase");
+    ThrowIfQbIdArrayIsBad(lControls, qubitCount,
+        "QStabilizerHybrid::MACPhase control qubit index values must be within allocated qubit bounds!");
+
     if (engine) {
         return engine->MACPhase(lControls, topLeft, bottomRight, target);
     }
@@ -1375,6 +1451,10 @@ void QStabilizerHybrid::MACPhase(
 void QStabilizerHybrid::MACInvert(
     const std::vector<bitLenInt>& lControls, const complex& topRight, const complex& bottomLeft, bitLenInt target)
 {
+    ThrowIfQubitInvalid(target, "QStabilizerHybrid::MACInvert");
+    ThrowIfQbIdArrayIsBad(lControls, qubitCount,
+        "QStabilizerHybrid::MACInvert control qubit index values must be within allocated qubit bounds!");
+
     if (engine) {
         return engine->MACInvert(lControls, topRight, bottomLeft, target);
     }
@@ -1422,6 +1502,8 @@ void QStabilizerHybrid::MACInvert(
 
 real1_f QStabilizerHybrid::Prob(bitLenInt qubit)
 {
+    ThrowIfQubitInvalid(qubit, "QStabilizerHybrid::Prob");
+
     if (ancillaCount && !(stabilizer->IsSeparable(qubit))) {
         if (qubitCount <= maxEngineQubitCount) {
             QStabilizerHybridPtr clone = std::dynamic_pointer_cast<QStabilizerHybrid>(Clone());
@@ -1510,6 +1592,8 @@ real1_f QStabilizerHybrid::Prob(bitLenInt qubit)
 
 bool QStabilizerHybrid::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
 {
+    ThrowIfQubitInvalid(qubit, "QStabilizerHybrid::ForceM");
+
     if (engine) {
         return engine->ForceM(qubit, result, doForce, doApply);
     }
@@ -1704,6 +1788,12 @@ std::map<bitCapInt, int> QStabilizerHybrid::MultiShotMeasureMask(const std::vect
         return std::map<bitCapInt, int>();
     }
 
+    for (const bitCapInt& qPower : qPowers) {
+        if (bi_compare(qPower, maxQPower) >= 0) {
+            throw std::invalid_argument("QStabilizerHybrid::MultiShotMeasureMask parameter is out-of-bounds!");
+        }
+    }
+
     if (engine) {
         return engine->MultiShotMeasureMask(qPowers, shots);
     }
@@ -1810,6 +1900,12 @@ void QStabilizerHybrid::MultiShotMeasureMask(
         return;
     }
 
+    for (const bitCapInt& qPower : qPowers) {
+        if (bi_compare(qPower, maxQPower) >= 0) {
+            throw std::invalid_argument("QStabilizerHybrid::MultiShotMeasureMask parameter is out-of-bounds!");
+        }
+    }
+
     if (engine) {
         return engine->MultiShotMeasureMask(qPowers, shots, shotsArray);
     }
@@ -1880,6 +1976,10 @@ void QStabilizerHybrid::MultiShotMeasureMask(
 
 real1_f QStabilizerHybrid::ProbParity(const bitCapInt& mask)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QStabilizerHybrid::ProbParity mask is out-of-bounds!");
+    }
+
     if (bi_compare_0(mask) == 0) {
         return ZERO_R1_F;
     }
@@ -1894,6 +1994,10 @@ real1_f QStabilizerHybrid::ProbParity(const bitCapInt& mask)
 }
 bool QStabilizerHybrid::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QStabilizerHybrid::ForceMParity mask is out-of-bounds!");
+    }
+
     // If no bits in mask:
     if (bi_compare_0(mask) == 0) {
         return false;
@@ -2068,6 +2172,9 @@ real1_f QStabilizerHybrid::ApproxCompareHelper(QStabilizerHybridPtr toCompare, b
 
 void QStabilizerHybrid::ISwapHelper(bitLenInt qubit1, bitLenInt qubit2, bool inverse)
 {
+    ThrowIfQubitInvalid(qubit1, "QStabilizerHybrid::ISwap");
+    ThrowIfQubitInvalid(qubit2, "QStabilizerHybrid::ISwap");
+
     if (qubit1 == qubit2) {
         return;
     }
-- 
2.43.0


From 348e6ff5a93d6d0857b8de8cb333bd5af1ec0e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 055/117] fix: QStabilizerHybrid amplitudes and probabilities
 were inexact with several buffered gates or ancillae

---
 src/qstabilizerhybrid.cpp | 160 ++++++++++----------------------------
 1 file changed, 42 insertions(+), 118 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index dadeafc..701b70a 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -742,59 +742,52 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         return toRet;
     }
 
-    std::vector<bitLenInt> indices;
-    std::vector<bitCapInt> perms{ perm };
-    for (bitLenInt i = 0U; i < qubitCount; ++i) {
-        if (!shards[i]) {
+    // Each buffered gate acts on the stabilizer amplitudes as one matrix row, for the bit value of its qubit in "perm".
+    // (Ancillae are post-selected to be |0>.) Sum over all permutations that contribute, across all buffers at once.
+    bitCapInt basePerm = perm;
+    complex factor = (real1)pow(SQRT2_R1, (real1)ancillaCount);
+    std::vector<bitCapInt> powers;
+    std::vector<const complex*> rows;
+    for (size_t i = 0U; i < (size_t)(qubitCount + ancillaCount); ++i) {
+        const MpsShardPtr& shard = shards[i];
+        if (!shard) {
             continue;
         }
-        indices.push_back(i);
-        perms.push_back(perm ^ pow2(i));
-    }
-
-    if (!ancillaCount) {
-        std::vector<complex> amps;
-        amps.reserve(perms.size());
-        if (stateMapCache) {
-            for (size_t i = 0U; i < perms.size(); ++i) {
-                amps.push_back(stateMapCache->get(perms[i]));
-            }
+        const bitCapInt iPow = pow2(i);
+        const complex* row = shard->gate + ((bi_compare_0(perm & iPow) != 0) ? 2U : 0U);
+        bool isOne;
+        if (IS_NORM_0(row[1U])) {
+            isOne = false;
+        } else if (IS_NORM_0(row[0U])) {
+            isOne = true;
+        } else if (stabilizer->IsSeparableZ(i)) {
+            isOne = stabilizer->M(i);
         } else {
-            amps = stabilizer->GetAmplitudes(perms);
-        }
-        complex amp = amps[0U];
-        for (size_t i = 1U; i < amps.size(); ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            if (bi_and_1(perm >> j)) {
-                amp = mtrx[2U] * amps[i] + mtrx[3U] * amp;
-            } else {
-                amp = mtrx[0U] * amp + mtrx[1U] * amps[i];
-            }
-        }
-
-        if (isRounded) {
-            stabilizer = origStabilizer;
-            ancillaCount = origAncillaCount;
-            deadAncillaCount = origDeadAncillaCount;
-            shards = origShards;
+            powers.push_back(iPow);
+            rows.push_back(row);
+            basePerm = basePerm & ~iPow;
+            continue;
         }
-
-        return amp;
+        factor *= row[isOne ? 1U : 0U];
+        basePerm = isOne ? (basePerm | iPow) : (basePerm & ~iPow);
     }
 
-    const bitLenInt aStride = indices.size() + 1U;
-    const bitCapIntOcl ancillaPow = pow2Ocl(ancillaCount);
-    for (bitCapIntOcl i = 1U; i < ancillaPow; ++i) {
-        const bitCapInt ancillaPerm = i << qubitCount;
-        for (size_t j = 0U; j < aStride; ++j) {
-            perms.push_back(perms[j] | ancillaPerm);
+    const bitCapIntOcl rowPower = pow2Ocl(rows.size());
+    std::vector<bitCapInt> perms;
+    perms.reserve(rowPower);
+    for (bitCapIntOcl i = 0U; i < rowPower; ++i) {
+        bitCapInt p = basePerm;
+        for (size_t j = 0U; j < powers.size(); ++j) {
+            if ((i >> j) & 1U) {
+                bi_or_ip(&p, powers[j]);
+            }
         }
+        perms.push_back(p);
     }
 
     std::vector<complex> amps;
-    amps.reserve(perms.size());
     if (stateMapCache) {
+        amps.reserve(perms.size());
         for (size_t i = 0U; i < perms.size(); ++i) {
             amps.push_back(stateMapCache->get(perms[i]));
         }
@@ -802,82 +795,13 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         amps = stabilizer->GetAmplitudes(perms);
     }
 
-    std::vector<QInterfaceEngine> et = engineTypes;
-    for (size_t i = 0U; i < et.size(); ++i) {
-        const size_t j = et.size() - (i + 1U);
-        if ((et[j] == QINTERFACE_BDT_HYBRID) || (et[j] == QINTERFACE_BDT)) {
-            et.erase(et.begin() + j);
-        }
-    }
-    if (et.empty()) {
-        et.push_back(QINTERFACE_OPTIMAL_BASE);
-    }
-    QEnginePtr aEngine = std::dynamic_pointer_cast<QEngine>(
-        CreateQuantumInterface(et, ancillaCount, ZERO_BCI, rand_generator, ONE_CMPLX, false, false, useHostRam, devID,
-            useRDRAND, false, (real1_f)amplitudeFloor, deviceIDs, thresholdQubits, separabilityThreshold));
-
-#if ENABLE_COMPLEX_X2
-    std::vector<complex2> top;
-    std::vector<complex2> bottom;
-    // For variable scoping, only:
-    if (true) {
-        complex amp = amps[0U];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            top.emplace_back(mtrx[0U], mtrx[1U]);
-            bottom.emplace_back(mtrx[3U], mtrx[2U]);
-            complex2 amp2(amp, amps[i]);
-            if (bi_and_1(perm >> j)) {
-                amp2 = amp2 * bottom.back();
-            } else {
-                amp2 = amp2 * top.back();
-            }
-            amp = amp2.c(0U) + amp2.c(1U);
-        }
-        aEngine->SetAmplitude(0U, amp);
-    }
-    for (bitCapIntOcl a = 1U; a < ancillaPow; ++a) {
-        const bitCapIntOcl offset = a * aStride;
-        complex amp = amps[offset];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            complex2 amp2(amp, amps[i]);
-            if (bi_and_1(perm >> j)) {
-                amp2 = amp2 * bottom[j];
-            } else {
-                amp2 = amp2 * top[j];
-            }
-            amp = amp2.c(0U) + amp2.c(1U);
-        }
-        aEngine->SetAmplitude(a, amp);
-    }
-    top.clear();
-    bottom.clear();
-#else
-    for (bitCapIntOcl a = 0U; a < ancillaPow; ++a) {
-        const bitCapIntOcl offset = a * aStride;
-        complex amp = amps[offset];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            const complex oAmp = amps[i + offset];
-            if (bi_and_1(perm >> j)) {
-                amp = mtrx[3U] * amp + mtrx[2U] * oAmp;
-            } else {
-                amp = mtrx[0U] * amp + mtrx[1U] * oAmp;
-            }
-        }
-        aEngine->SetAmplitude(a, amp);
-    }
-#endif
-    amps.clear();
-
-    for (bitLenInt i = 0U; i < ancillaCount; ++i) {
-        const MpsShardPtr& shard = shards[i + qubitCount];
-        if (shard) {
-            aEngine->Mtrx(shard->gate, i);
+    complex toRet = ZERO_CMPLX;
+    for (bitCapIntOcl i = 0U; i < rowPower; ++i) {
+        complex amp = amps[i];
+        for (size_t j = 0U; j < rows.size(); ++j) {
+            amp *= rows[j][(i >> j) & 1U];
         }
+        toRet += amp;
     }
 
     if (isRounded) {
@@ -887,7 +811,7 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         shards = origShards;
     }
 
-    return (real1)pow(SQRT2_R1, (real1)ancillaCount) * aEngine->GetAmplitude(ZERO_BCI);
+    return factor * toRet;
 }
 
 void QStabilizerHybrid::SetQuantumState(const complex* inputState)
-- 
2.43.0


From 2db1bfaae27f83f3d027e5e23e439edea32e435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 056/117] fix: QStabilizerHybrid MAll()/MultiShotMeasureMask()
 must sample the exact state

---
 src/qstabilizerhybrid.cpp | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 701b70a..40a402f 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1622,6 +1622,14 @@ bitCapInt QStabilizerHybrid::MAll()
         return toRet;
     }
 
+    if ((qubitCount + ancillaCount + deadAncillaCount) <= maxEngineQubitCount) {
+        SwitchToEngine();
+        const bitCapInt toRet = engine->MAll();
+        SetPermutation(toRet);
+
+        return toRet;
+    }
+
     if (stabilizer->PermCount() < pow2(maxStateMapCacheQubitCount)) {
         stateMapCache = stabilizer->GetDecomposedQuantumState();
     }
@@ -1736,16 +1744,21 @@ std::map<bitCapInt, int> QStabilizerHybrid::MultiShotMeasureMask(const std::vect
     std::map<bitCapInt, int> results;
 
     if (!IsProbBuffered()) {
-        std::mutex resultsMutex;
-        par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
-            const bitCapInt sample = SampleClone(qPowers);
-            std::lock_guard<std::mutex> lock(resultsMutex);
-            ++(results[sample]);
-        });
+        // (The random generator is shared between clones, so sampling is not thread-safe.)
+        for (unsigned shot = 0U; shot < shots; ++shot) {
+            ++(results[SampleClone(qPowers)]);
+        }
 
         return results;
     }
 
+    if ((qubitCount + ancillaCount + deadAncillaCount) <= maxEngineQubitCount) {
+        QStabilizerHybridPtr clone = std::dynamic_pointer_cast<QStabilizerHybrid>(Clone());
+        clone->SwitchToEngine();
+
+        return clone->MultiShotMeasureMask(qPowers, shots);
+    }
+
     std::vector<real1_f> rng = GenerateShotProbs(shots);
     const auto shotFunc = [&](bitCapInt sample, unsigned unused) { ++(results[sample]); };
     real1 partProb = ZERO_R1;
@@ -1846,9 +1859,19 @@ void QStabilizerHybrid::MultiShotMeasureMask(
     }
 
     if (!IsProbBuffered()) {
-        return par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
+        // (The random generator is shared between clones, so sampling is not thread-safe.)
+        for (unsigned shot = 0U; shot < shots; ++shot) {
             shotsArray[shot] = (bitCapIntOcl)SampleClone(qPowers);
-        });
+        }
+
+        return;
+    }
+
+    if ((qubitCount + ancillaCount + deadAncillaCount) <= maxEngineQubitCount) {
+        QStabilizerHybridPtr clone = std::dynamic_pointer_cast<QStabilizerHybrid>(Clone());
+        clone->SwitchToEngine();
+
+        return clone->MultiShotMeasureMask(qPowers, shots, shotsArray);
     }
 
     std::vector<real1_f> rng = GenerateShotProbs(shots);
-- 
2.43.0


From 17bdaa9a25a0b66f57d56aed6e0161e62745dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 057/117] fix: QStabilizerHybrid ancillae are not part of the
 logical state

---
 include/qstabilizerhybrid.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index d1b7f3d..c3ba25c 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -106,6 +106,11 @@ protected:
     }
     bool EitherIsBuffered(bool logical)
     {
+        if (!logical && (ancillaCount || deadAncillaCount)) {
+            // The ancillae aren't part of the logical state, until they're post-selected.
+            return true;
+        }
+
         const size_t maxLcv = logical ? (size_t)qubitCount : shards.size();
         for (size_t i = 0U; i < maxLcv; ++i) {
             if (shards[i]) {
@@ -120,6 +125,11 @@ protected:
     bool IsLogicalBuffered() { return EitherIsBuffered(true); }
     bool EitherIsProbBuffered(bool logical)
     {
+        if (!logical && (ancillaCount || deadAncillaCount)) {
+            // The ancillae aren't part of the logical state, until they're post-selected.
+            return true;
+        }
+
         const size_t maxLcv = logical ? (size_t)qubitCount : shards.size();
         for (size_t i = 0U; i < maxLcv; ++i) {
             MpsShardPtr shard = shards[i];
-- 
2.43.0


From 58fe077559397c8830c37552f78854a722a91d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 058/117] fix: QStabilizerHybrid RdmCloneFlush() dereferenced
 absent buffers and rounded exact ones

---
 src/qstabilizerhybrid.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 40a402f..173df50 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1965,6 +1965,11 @@ void QStabilizerHybrid::RdmCloneFlush(real1_f threshold)
 {
     QRACK_CONST complex h[4U]{ SQRT1_2_R1, SQRT1_2_R1, SQRT1_2_R1, -SQRT1_2_R1 };
     for (size_t i = shards.size() - 1U; i >= qubitCount; --i) {
+        if (!shards[i]) {
+            // The gadget was Clifford, so there is nothing to round.
+            continue;
+        }
+
         // We're going to start by non-destructively "simulating" measurement collapse.
         MpsShardPtr nShard = shards[i]->Clone();
 
@@ -1978,11 +1983,12 @@ void QStabilizerHybrid::RdmCloneFlush(real1_f threshold)
             nShard->Compose(h);
             bool isCorrected = p;
             for (size_t j = clone->shards.size() - 1U; j >= clone->qubitCount; --j) {
-                if (i == j) {
+                const MpsShardPtr& oShard = clone->shards[j];
+                if ((i == j) || !oShard || (threshold <= FP_NORM_EPSILON)) {
+                    // (To combine buffers of collapsed ancillae is an approximation, only for rounding.)
                     continue;
                 }
                 const real1_f prob = clone->stabilizer->Prob(j);
-                const MpsShardPtr& oShard = clone->shards[j];
                 oShard->Compose(h);
                 if (prob < QUARTER_R1_F) {
                     // Collapsed to 0 - combine buffers
-- 
2.43.0


From 98c37d6e9e41c56cfb472f33fba573154120664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 059/117] fix: QStabilizerHybrid ForceM() on a buffered
 separable qubit ignored a forced result and doApply

---
 src/qstabilizerhybrid.cpp | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 173df50..1e1748b 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1530,21 +1530,28 @@ bool QStabilizerHybrid::ForceM(bitLenInt qubit, bool result, bool doForce, bool
 
     if (shard && !shard->IsPhase()) {
         if (stabilizer->IsSeparableZ(qubit)) {
-            if (doForce) {
-                if (doApply) {
-                    if (result != stabilizer->ForceM(qubit, result, true, true)) {
-                        // Sorry to throw, but the requested forced result is definitely invalid.
-                        throw std::invalid_argument(
-                            "QStabilizerHybrid::ForceM() forced a measurement result with 0 probability!");
-                    }
-                    shard = nullptr;
-                }
+            // Bit was already rotated to Z basis, if separable.
+            if (!doForce) {
+                return doApply ? CollapseSeparableShard(qubit) : (Rand() <= Prob(qubit));
+            }
 
-                return result;
+            const bool isZ1 = stabilizer->M(qubit);
+            const complex& amp = shard->gate[(result ? 2U : 0U) | (isZ1 ? 1U : 0U)];
+            if (IS_NORM_0(amp)) {
+                // Sorry to throw, but the requested forced result is definitely invalid.
+                throw std::invalid_argument(
+                    "QStabilizerHybrid::ForceM() forced a measurement result with 0 probability!");
             }
 
-            // Bit was already rotated to Z basis, if separable.
-            return CollapseSeparableShard(qubit);
+            if (doApply) {
+                shard = nullptr;
+                if (result != isZ1) {
+                    rdmClone = nullptr;
+                    stabilizer->X(qubit);
+                }
+            }
+
+            return result;
         }
 
         // Otherwise, we have non-Clifford measurement.
@@ -1552,7 +1559,10 @@ bool QStabilizerHybrid::ForceM(bitLenInt qubit, bool result, bool doForce, bool
 
         return engine->ForceM(qubit, result, doForce, doApply);
     }
-    shard = nullptr;
+    if (doApply) {
+        rdmClone = nullptr;
+        shard = nullptr;
+    }
 
     if (stabilizer->IsSeparable(qubit)) {
         return stabilizer->ForceM(qubit, result, doForce, doApply);
-- 
2.43.0


From 1e18c5d252807bfa3d63b855551058b9bc6aefbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 060/117] fix: QStabilizerHybrid Prob() of an X- or Y-separable
 buffered qubit

---
 src/qstabilizerhybrid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 1e1748b..fcb44ae 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1493,7 +1493,8 @@ real1_f QStabilizerHybrid::Prob(bitLenInt qubit)
     }
 
     if (shard && !shard->IsPhase()) {
-        // Bit was already rotated to Z basis, if separable.
+        // Rotate the bit to Z basis, if separable.
+        CacheEigenstate(qubit);
         if (stabilizer->IsSeparableZ(qubit)) {
             if (stabilizer->M(qubit)) {
                 return (real1_f)norm(shard->gate[3U]);
-- 
2.43.0


From d5f6b8b418aa6e5d0761a1381b82d3a5db965f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 061/117] fix: QStabilizerHybrid CSwap() without live controls
 did not swap buffers

---
 src/qstabilizerhybrid.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index fcb44ae..ca3fb05 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -906,9 +906,7 @@ void QStabilizerHybrid::CSwap(const std::vector<bitLenInt>& lControls, bitLenInt
         }
 
         if (controls.empty()) {
-            rdmClone = nullptr;
-
-            return stabilizer->Swap(qubit1, qubit2);
+            return Swap(qubit1, qubit2);
         }
 
         SwitchToEngine();
-- 
2.43.0


From 138f4da4d82eda41024879672d813e86ae94d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 062/117] fix: QStabilizerHybrid Decompose()/Dispose() must
 check bounds and flush buffers entangled with ancillae

---
 include/qstabilizerhybrid.hpp |  8 ++++++++
 src/qstabilizerhybrid.cpp     | 26 +++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index c3ba25c..2c56bb8 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -343,6 +343,14 @@ protected:
                       : clone->stabilizer->VarianceBitsFactorizedRdm(roundRz, bits, perms, offset);
     }
 
+    void FlushIfEntangledWithAncillae(bitLenInt start, bitLenInt length)
+    {
+        // Post-selection of the ancillae might separate qubits that are still entangled in the stabilizer tableau.
+        if (!engine && ancillaCount && !stabilizer->CanDecomposeDispose(start, length)) {
+            SwitchToEngine();
+        }
+    }
+
     void ClearAncilla(bitLenInt i)
     {
         if (stabilizer->TrySeparate(i)) {
diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index ca3fb05..23016a3 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -608,23 +608,27 @@ void QStabilizerHybrid::Decompose(bitLenInt start, QStabilizerHybridPtr dest)
 {
     const bitLenInt length = dest->qubitCount;
 
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QStabilizerHybrid::Decompose range is out-of-bounds!");
+    }
+
     if (!length) {
         return;
     }
 
     const bitLenInt nQubits = qubitCount - length;
 
+    FlushIfEntangledWithAncillae(start, length);
+
     if (engine) {
         dest->SwitchToEngine();
         engine->Decompose(start, dest->engine);
+        shards.erase(shards.begin() + start, shards.begin() + start + length);
 
-        return SetQubitCount(qubitCount - length);
+        return SetQubitCount(nQubits);
     }
 
-    if (dest->engine) {
-        dest->engine.reset();
-        dest->stabilizer = dest->MakeStabilizer(ZERO_BCI);
-    }
+    dest->SetPermutation(ZERO_BCI);
 
     stabilizer->Decompose(start, dest->stabilizer);
     std::copy(shards.begin() + start, shards.begin() + start + length, dest->shards.begin());
@@ -634,8 +638,14 @@ void QStabilizerHybrid::Decompose(bitLenInt start, QStabilizerHybridPtr dest)
 
 void QStabilizerHybrid::Dispose(bitLenInt start, bitLenInt length)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QStabilizerHybrid::Dispose range is out-of-bounds!");
+    }
+
     const bitLenInt nQubits = qubitCount - length;
 
+    FlushIfEntangledWithAncillae(start, length);
+
     if (engine) {
         engine->Dispose(start, length);
     } else {
@@ -648,8 +658,14 @@ void QStabilizerHybrid::Dispose(bitLenInt start, bitLenInt length)
 
 void QStabilizerHybrid::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& disposedPerm)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QStabilizerHybrid::Dispose range is out-of-bounds!");
+    }
+
     const bitLenInt nQubits = qubitCount - length;
 
+    FlushIfEntangledWithAncillae(start, length);
+
     if (engine) {
         engine->Dispose(start, length, disposedPerm);
     } else {
-- 
2.43.0


From 9eecc4ede51f0e4be0dd8382bcdb101b1f7e77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 063/117] fix: QStabilizerHybrid Compose(toCopy, start) must
 return the start index

---
 src/qstabilizerhybrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 23016a3..a7483ca 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -558,10 +558,10 @@ bitLenInt QStabilizerHybrid::Compose(QStabilizerHybridPtr toCopy, bitLenInt star
     if (toCopy->ancillaCount || toCopy->deadAncillaCount) {
         const bitLenInt origSize = qubitCount;
         ROL(origSize - start, 0, qubitCount);
-        const bitLenInt result = Compose(toCopy);
+        Compose(toCopy);
         ROR(origSize - start, 0, qubitCount);
 
-        return result;
+        return start;
     }
 
     const bitLenInt nQubits = qubitCount + toCopy->qubitCount;
-- 
2.43.0


From e3c485640cdc6b3f6754b3f9b61fc4fc25877ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 064/117] fix: QStabilizerHybrid SetConcurrency() recursed
 without end

---
 include/qstabilizerhybrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 2c56bb8..d137cc5 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -458,7 +458,7 @@ public:
     {
         QInterface::SetConcurrency(threadCount);
         if (engine) {
-            SetConcurrency(GetConcurrencyLevel());
+            engine->SetConcurrency(GetConcurrencyLevel());
         }
     }
 
-- 
2.43.0


From 60c40ba0e8d359fe61bea855320d13ce47e570fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 065/117] fix: QStabilizerHybrid VarianceBits...Rdm() returned
 expectation values

---
 include/qstabilizerhybrid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index d137cc5..5518549 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -910,7 +910,7 @@ public:
     real1_f VarianceBitsFactorizedRdm(bool roundRz, const std::vector<bitLenInt>& bits,
         const std::vector<bitCapInt>& perms, const bitCapInt& offset = ZERO_BCI)
     {
-        return ExpVarFactorized(true, false, bits, perms, std::vector<real1_f>(), offset, roundRz);
+        return ExpVarFactorized(false, false, bits, perms, std::vector<real1_f>(), offset, roundRz);
     }
     real1_f VarianceFloatsFactorized(const std::vector<bitLenInt>& bits, const std::vector<real1_f>& weights)
     {
@@ -923,7 +923,7 @@ public:
     real1_f VarianceFloatsFactorizedRdm(
         bool roundRz, const std::vector<bitLenInt>& bits, const std::vector<real1_f>& weights)
     {
-        return ExpVarFactorized(true, true, bits, std::vector<bitCapInt>(), weights, ZERO_BCI, roundRz);
+        return ExpVarFactorized(false, true, bits, std::vector<bitCapInt>(), weights, ZERO_BCI, roundRz);
     }
 
     bool TrySeparate(bitLenInt qubit);
-- 
2.43.0


From ba4ff46899ea88a4931d7ae7f16746ca6de7caae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 066/117] fix: QStabilizer CanDecomposeDispose() changed the
 global phase

---
 src/qstabilizer.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index 6cc1c65..3758dba 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1699,7 +1699,16 @@ bool QStabilizer::CanDecomposeDispose(const bitLenInt start, const bitLenInt len
 
     Finish();
 
-    return IsolateRange(start, length);
+    if (randGlobalPhase) {
+        return IsolateRange(start, length);
+    }
+
+    // The generators don't determine the global phase.
+    const AmplitudeEntry ampEntry = GetAnyAmplitude();
+    const bool toRet = IsolateRange(start, length);
+    SetPhaseOffset(phaseOffset + std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(ampEntry.permutation)));
+
+    return toRet;
 }
 
 void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length, QStabilizerPtr dest)
-- 
2.43.0


From ea3406ccd8c19c0f800706d99e4c6a9f58c83dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 067/117] fix: QUnit ForceM() of a separate qubit dropped the
 phase of the remaining amplitude

---
 src/qunit.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index b8a6648..684ce9d 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1404,10 +1404,15 @@ bool QUnit::ForceM(bitLenInt qubit, bool res, bool doForce, bool doApply)
 
     logFidelity = log(GetUnitaryFidelity());
 
+    // The collapse of a separate qubit is a projection, which keeps the phase of the remaining amplitude.
+    const complex& amp = result ? shard.amp1 : shard.amp0;
+    const complex phaseFac =
+        (shard.unit || randGlobalPhase || IS_NORM_0(amp)) ? GetNonunitaryPhase() : (amp / (real1)abs(amp));
+
     shard.isProbDirty = false;
     shard.isPhaseDirty = false;
-    shard.amp0 = result ? ZERO_CMPLX : GetNonunitaryPhase();
-    shard.amp1 = result ? GetNonunitaryPhase() : ZERO_CMPLX;
+    shard.amp0 = result ? ZERO_CMPLX : phaseFac;
+    shard.amp1 = result ? phaseFac : ZERO_CMPLX;
 
     if (shard.GetQubitCount() == 1U) {
         shard.unit = nullptr;
-- 
2.43.0


From f3dedbb30eeae2fdf21865279edc3abcd295dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 068/117] fix: QBdtNode Prune()/Normalize() mutated branches
 shared with other parents

---
 src/qbdt/node.cpp | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/qbdt/node.cpp b/src/qbdt/node.cpp
index 9f4f44c..f2621cc 100644
--- a/src/qbdt/node.cpp
+++ b/src/qbdt/node.cpp
@@ -111,8 +111,14 @@ void QBdtNode::Prune(bitLenInt depth)
 #endif
 
         const complex phaseFac = std::polar(ONE_R1, std::arg(b0->scale));
-        scale *= phaseFac;
-        b0->scale /= phaseFac;
+        if (abs(phaseFac - ONE_CMPLX) > REAL1_EPSILON) {
+            // Another parent might point to the same branch: don't mutate its scale.
+            b0 = b0->ShallowClone();
+            scale *= phaseFac;
+            b0->scale /= phaseFac;
+            branches[0U] = b0;
+            branches[1U] = b0;
+        }
 
         // Phase factor applied, and branches point to same object.
         return;
@@ -124,19 +130,24 @@ void QBdtNode::Prune(bitLenInt depth)
     std::lock_guard<std::mutex> lock1(b1->mtx, std::adopt_lock);
 #endif
 
+    // Another parent might point to the same branch: don't mutate its scale.
+    const complex phaseFac = std::polar(ONE_R1, std::arg(IS_NODE_0(b1->scale) ? b0->scale : b1->scale));
+    if (abs(phaseFac - ONE_CMPLX) > REAL1_EPSILON) {
+        b0 = b0->ShallowClone();
+        b1 = b1->ShallowClone();
+        branches[0U] = b0;
+        branches[1U] = b1;
+        scale *= phaseFac;
+        b0->scale /= phaseFac;
+        b1->scale /= phaseFac;
+    }
+
     if (IS_NODE_0(b0->scale)) {
         b0->SetZero();
-        scale *= b1->scale / abs(b1->scale);
         b1->scale = ONE_CMPLX;
     } else if (IS_NODE_0(b1->scale)) {
         b1->SetZero();
-        scale *= b0->scale / abs(b0->scale);
         b0->scale = ONE_CMPLX;
-    } else {
-        const complex phaseFac = std::polar(ONE_R1, std::arg(b1->scale));
-        scale *= phaseFac;
-        b0->scale /= phaseFac;
-        b1->scale /= phaseFac;
     }
 
     // Now, we try to combine pointers to equivalent branches.
@@ -323,7 +334,12 @@ void QBdtNode::Normalize(bitLenInt depth)
 #endif
         const real1 nrm = (real1)sqrt(2 * norm(b0->scale));
         b0->Normalize(depth);
-        b0->scale /= nrm;
+        if (abs(ONE_R1 - nrm) > REAL1_EPSILON) {
+            // Another parent might point to the same branch: don't mutate its scale.
+            branches[0U] = b0->ShallowClone();
+            branches[0U]->scale /= nrm;
+            branches[1U] = branches[0U];
+        }
     } else {
 #if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
         std::lock(b0->mtx, b1->mtx);
@@ -336,8 +352,13 @@ void QBdtNode::Normalize(bitLenInt depth)
         b0->Normalize(depth);
         b1->Normalize(depth);
 
-        b0->scale /= nrm;
-        b1->scale /= nrm;
+        if (abs(ONE_R1 - nrm) > REAL1_EPSILON) {
+            // Another parent might point to the same branch: don't mutate its scale.
+            branches[0U] = b0->ShallowClone();
+            branches[1U] = b1->ShallowClone();
+            branches[0U]->scale /= nrm;
+            branches[1U]->scale /= nrm;
+        }
     }
 }
 
-- 
2.43.0


From 5130b282660bc77375b55f6f5481a18554c359ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 069/117] fix: QBdt Compose()/Allocate() in the middle of the
 register, or with shared branches

---
 src/qbdt/node.cpp | 159 +++++-----------------------------------------
 src/qbdt/tree.cpp |   6 +-
 2 files changed, 18 insertions(+), 147 deletions(-)

diff --git a/src/qbdt/node.cpp b/src/qbdt/node.cpp
index f2621cc..93defdf 100644
--- a/src/qbdt/node.cpp
+++ b/src/qbdt/node.cpp
@@ -467,167 +467,42 @@ void QBdtNode::InsertAtDepth(QBdtNodeInterfacePtr b, bitLenInt depth, const bitL
         return SetZero();
     }
 
-    QBdtNodeInterfacePtr b0 = branches[0U];
-    QBdtNodeInterfacePtr b1 = branches[1U];
-
     if (!depth) {
         if (!size) {
+            // Bottom of the inserted tree: continue with what was originally below the point of insertion.
+            branches[0U] = b->branches[0U];
+            branches[1U] = b->branches[1U];
+
             return;
         }
 
         QBdtNodeInterfacePtr c = ShallowClone();
 
-        if (true) {
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-            std::lock_guard<std::mutex> lock(b->mtx);
-#endif
-            scale = b->scale;
-            branches[0U] = b->branches[0U]->ShallowClone();
-            branches[1U] = b->branches[1U]->ShallowClone();
-        }
-
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-        InsertAtDepth(c, size, 0U, parDepth);
-#else
-        InsertAtDepth(c, size, 0U);
-#endif
+        scale *= b->scale;
+        branches[0U] = b->branches[0U];
+        branches[1U] = b->branches[1U];
 
-        return;
+        return InsertAtDepth(c, size, 0U);
     }
     --depth;
 
-    if (!b0) {
-        return;
-    }
-
-    if (b0.get() == b1.get()) {
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-        std::lock_guard<std::mutex> lock(b0->mtx);
-#endif
-
-        if (!depth && size) {
-            QBdtNodeInterfacePtr n0;
-            if (true) {
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-                std::lock_guard<std::mutex> lock(b->mtx);
-#endif
-                n0 = std::make_shared<QBdtNode>(b0->scale, b->branches);
-            }
-            branches[0U] = n0;
-            branches[1U] = n0;
-
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-            std::lock_guard<std::mutex> nLock(n0->mtx);
-            n0->InsertAtDepth(b, size, 0U, parDepth);
-#else
-            n0->InsertAtDepth(b, size, 0U);
-#endif
-
-            return;
-        }
-
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-        b0->InsertAtDepth(b, depth, size, parDepth);
-#else
-        b0->InsertAtDepth(b, depth, size);
-#endif
-
+    if (!branches[0U] || !branches[1U]) {
         return;
     }
 
-    if (!depth && size) {
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-        std::lock(b0->mtx, b1->mtx);
-        std::lock_guard<std::mutex> lock0(b0->mtx, std::adopt_lock);
-        std::lock_guard<std::mutex> lock1(b1->mtx, std::adopt_lock);
-#endif
-
-        if (IS_NODE_0(b0->scale)) {
-            if (true) {
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-                std::lock_guard<std::mutex> lock(b->mtx);
-#endif
-                branches[1U] = std::make_shared<QBdtNode>(b1->scale, b->branches);
-            }
-            QBdtNodeInterfacePtr n1 = branches[1U];
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-            std::lock_guard<std::mutex> nLock(n1->mtx);
-            n1->InsertAtDepth(b, size, 0U, parDepth);
-#else
-            n1->InsertAtDepth(b, size, 0U);
-#endif
-        } else if (IS_NODE_0(b1->scale)) {
-            if (true) {
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-                std::lock_guard<std::mutex> lock(b->mtx);
-#endif
-                branches[0U] = std::make_shared<QBdtNode>(b0->scale, b->branches);
-            }
-            QBdtNodeInterfacePtr n0 = branches[0U];
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-            std::lock_guard<std::mutex> nLock(n0->mtx);
-            n0->InsertAtDepth(b, size, 0U, parDepth);
-#else
-            n0->InsertAtDepth(b, size, 0U);
-#endif
-        } else {
-            if (true) {
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-                std::lock_guard<std::mutex> lock(b->mtx);
-#endif
-                branches[0U] = std::make_shared<QBdtNode>(b0->scale, b->branches);
-                branches[1U] = std::make_shared<QBdtNode>(b1->scale, b->branches);
-            }
-
-            QBdtNodeInterfacePtr n0 = branches[0U];
-            QBdtNodeInterfacePtr n1 = branches[1U];
+    // We might share the branches with a clone.
+    const bool isSame = (branches[0U].get() == branches[1U].get());
+    branches[0U] = branches[0U]->ShallowClone();
+    branches[0U]->InsertAtDepth(b, depth, size);
 
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-            // These were just created, so there's no chance of deadlock in separate locks.
-            std::lock_guard<std::mutex> nLock0(n0->mtx);
-            std::lock_guard<std::mutex> nLock1(n1->mtx);
-            if ((depth >= pStridePow) && (bi_compare(pow2(parDepth), numThreads) <= 0)) {
-                ++parDepth;
-
-                std::future<void> future0 =
-                    std::async(std::launch::async, [&] { n0->InsertAtDepth(b, size, 0U, parDepth); });
-                n1->InsertAtDepth(b, size, 0U, parDepth);
-
-                future0.get();
-            } else {
-                n0->InsertAtDepth(b, size, 0U, parDepth);
-                n1->InsertAtDepth(b, size, 0U, parDepth);
-            }
-#else
-            n0->InsertAtDepth(b, size, 0U);
-            n1->InsertAtDepth(b, size, 0U);
-#endif
-        }
+    if (isSame) {
+        branches[1U] = branches[0U];
 
         return;
     }
 
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-    std::lock(b0->mtx, b1->mtx);
-    std::lock_guard<std::mutex> lock0(b0->mtx, std::adopt_lock);
-    std::lock_guard<std::mutex> lock1(b1->mtx, std::adopt_lock);
-
-    if ((depth >= pStridePow) && (bi_compare(pow2(parDepth), numThreads) <= 0)) {
-        ++parDepth;
-
-        std::future<void> future0 =
-            std::async(std::launch::async, [&] { b0->InsertAtDepth(b, depth, size, parDepth); });
-        b1->InsertAtDepth(b, depth, size, parDepth);
-
-        future0.get();
-    } else {
-        b0->InsertAtDepth(b, depth, size, parDepth);
-        b1->InsertAtDepth(b, depth, size, parDepth);
-    }
-#else
-    b0->InsertAtDepth(b, depth, size);
-    b1->InsertAtDepth(b, depth, size);
-#endif
+    branches[1U] = branches[1U]->ShallowClone();
+    branches[1U]->InsertAtDepth(b, depth, size);
 }
 
 #if ENABLE_COMPLEX_X2
diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index 5753611..d5a8911 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -336,12 +336,8 @@ bitLenInt QBdt::Allocate(bitLenInt start, bitLenInt length)
 
     QBdtPtr nQubits = std::make_shared<QBdt>(engines, length, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
         randGlobalPhase, false, -1, !hardware_rand_generator ? false : true, false, (real1_f)amplitudeFloor);
-    nQubits->root->InsertAtDepth(root, length, qubitCount);
-    root = nQubits->root;
-    SetQubitCount(qubitCount + length);
-    ROR(length, 0U, start + length);
 
-    return start;
+    return Compose(nQubits, start);
 }
 
 real1_f QBdt::Prob(bitLenInt qubit)
-- 
2.43.0


From 955f658192bbfba58acfeb3c6708a43641802dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 070/117] fix: QBdt Compose() onto an empty register

---
 src/qbdt/tree.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index d5a8911..c9af661 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -219,6 +219,13 @@ bitLenInt QBdt::Compose(QBdtPtr toCopy, bitLenInt start)
         return start;
     }
 
+    if (!qubitCount) {
+        root = toCopy->root->ShallowClone();
+        SetQubitCount(toCopy->qubitCount);
+
+        return start;
+    }
+
 #if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
     if (true) {
         QBdtNodeInterfacePtr _root = root;
-- 
2.43.0


From c1985b86018871e767db2338edf07358e2a71e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 071/117] fix: QBdt IsSeparable() compared path weights as if
 they were subsystem state

---
 src/qbdt/tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index c9af661..0793e58 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -320,7 +320,7 @@ bool QBdt::IsSeparable(bitLenInt start)
                 subsystemPtr = leaf;
             }
 
-            if (subsystemPtr != leaf) {
+            if (!subsystemPtr->isEqualUnder(leaf)) {
                 // There are at least two distinct possible subsystem states for the "high-index" subsystem,
                 // depending specifically on which dimension of the "low-index" subsystem we're inspecting.
                 result = false;
-- 
2.43.0


From 2d4c646c40e2d71690a104bf7afe852d42b621af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 072/117] fix: QBdt ForceM() must weight paths by the norm of
 the projected branch and refuse impossible results

---
 src/qbdt/tree.cpp | 50 +++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index 0793e58..330130f 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -403,15 +403,19 @@ real1_f QBdt::ProbAll(const bitCapInt& perm)
 bool QBdt::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
 {
     if (qubit >= qubitCount) {
-        throw std::invalid_argument("QBdt::Prob qubit index parameter must be within allocated qubit bounds!");
+        throw std::invalid_argument("QBdt::ForceM qubit index parameter must be within allocated qubit bounds!");
     }
 
     const real1_f oneChance = Prob(qubit);
-    if (oneChance >= ONE_R1) {
+    if (doForce) {
+        if ((result ? oneChance : (ONE_R1_F - oneChance)) <= ZERO_R1_F) {
+            throw std::invalid_argument("QBdt::ForceM() forced a measurement result with 0 probability!");
+        }
+    } else if (oneChance >= ONE_R1) {
         result = true;
     } else if (oneChance <= ZERO_R1) {
         result = false;
-    } else if (!doForce) {
+    } else {
         result = (Rand() <= oneChance);
     }
 
@@ -462,29 +466,41 @@ bool QBdt::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
             return;
         }
 
-        QBdtNodeInterfacePtr& b0 = leaf->branches[0U];
-        QBdtNodeInterfacePtr& b1 = leaf->branches[1U];
+        // Project this branch. (Its norm is carried up to the root, below.)
+        leaf->branches[result ? 0U : 1U]->SetZero();
+    });
 
-        if (result) {
-            if (IS_NODE_0(b1->scale)) {
-                b1->SetZero();
+    // From the bottom up, carry the norm of the projected branches into the node above.
+    for (bitLenInt depth = qubit + 1U; depth > 0U; --depth) {
+        _par_for(pow2(depth - 1U), [&](const bitCapInt& i, const unsigned& cpu) {
+            QBdtNodeInterfacePtr leaf = root;
+            for (bitLenInt j = 0U; j < (depth - 1U); ++j) {
+                leaf = leaf->branches[SelectBit(i, j)];
+                if (!leaf) {
+                    return;
+                }
+            }
+
+            if (!leaf->branches[0U] || !leaf->branches[1U]) {
+                leaf->SetZero();
 
                 return;
             }
 
-            b0->SetZero();
-            b1->scale /= abs(b1->scale);
-        } else {
-            if (IS_NODE_0(b0->scale)) {
-                b0->SetZero();
+            const real1 nrm = norm(leaf->branches[0U]->scale) + norm(leaf->branches[1U]->scale);
+            if (nrm <= _qrack_qbdt_sep_thresh) {
+                leaf->SetZero();
 
                 return;
             }
 
-            b0->scale /= abs(b0->scale);
-            b1->SetZero();
-        }
-    });
+            const real1 sqrtNrm = sqrt(nrm);
+            leaf->branches[0U]->scale /= sqrtNrm;
+            leaf->branches[1U]->scale /= sqrtNrm;
+            leaf->scale *= sqrtNrm;
+        });
+    }
+    root->scale /= abs(root->scale);
 
     root->Prune(qubit + 1U);
 
-- 
2.43.0


From 2dd27ee71c1d794c99274ef6f06db3b40ddb1b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 073/117] fix: QBdt anti-controlled gates skipped every control
 permutation

---
 src/qbdt/tree.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index 330130f..405ebfd 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -652,13 +652,14 @@ void QBdt::ApplyControlledSingle(const complex* mtrx, std::vector<bitLenInt> con
 
     par_for_qbdt(qPower, target,
 #if ENABLE_COMPLEX_X2
-        [this, controlMask, controlPerm, target, &mtrxCol1, &mtrxCol2, &mtrxCol1Shuff, &mtrxCol2Shuff](
+        [this, controlMask, controlPerm, target, isAnti, &mtrxCol1, &mtrxCol2, &mtrxCol1Shuff, &mtrxCol2Shuff](
             const bitCapInt& i) {
 #else
-        [this, controlMask, controlPerm, target, mtrx](const bitCapInt& i) {
+        [this, controlMask, controlPerm, target, isAnti, mtrx](const bitCapInt& i) {
 #endif
             if (bi_compare((i & controlMask), controlPerm) != 0) {
-                return controlMask - ONE_BCI;
+                // (The skip ahead assumes that all control bits must be set.)
+                return isAnti ? ZERO_BCI : (bitCapInt)(controlMask - ONE_BCI);
             }
 
             QBdtNodeInterfacePtr leaf = root;
-- 
2.43.0


From 47a83c43b0f7cc8631268d30e53afda2fc3af82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 074/117] fix: QBdt MCInvert() must check its arguments before
 acting

---
 src/qbdt/tree.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index 405ebfd..35a1d15 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -754,6 +754,13 @@ void QBdt::MCInvert(
         return Invert(topRight, bottomLeft, target);
     }
 
+    if (target >= qubitCount) {
+        throw std::invalid_argument("QBdt::MCInvert target parameter must be within allocated qubit bounds!");
+    }
+
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QBdt::MCInvert parameter controls array values must be within allocated qubit bounds!");
+
     const complex mtrx[4U]{ ZERO_CMPLX, topRight, bottomLeft, ZERO_CMPLX };
     if (!IS_NORM_0(ONE_CMPLX - topRight) || !IS_NORM_0(ONE_CMPLX - bottomLeft)) {
         return ApplyControlledSingle(mtrx, controls, target, false);
-- 
2.43.0


From 5d6e556154437fe30e13bc734102ba889dda59d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 075/117] fix: QBdtHybrid Decompose(start, length) returned an
 object of the wrong width

---
 include/qbdthybrid.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/qbdthybrid.hpp b/include/qbdthybrid.hpp
index 2f95390..7e1c8c5 100644
--- a/include/qbdthybrid.hpp
+++ b/include/qbdthybrid.hpp
@@ -209,8 +209,12 @@ public:
         } else {
             e = std::dynamic_pointer_cast<QEngine>(engine->Decompose(start, length));
         }
-        return std::make_shared<QBdtHybrid>(q, e, engines, qubitCount, ZERO_BCI, rand_generator, phaseFactor,
-            doNormalize, randGlobalPhase, useHostRam, devID, useRDRAND, isSparse, (real1_f)amplitudeFloor, deviceIDs,
+        SetQubitCount(qubitCount - length);
+        if (qbdt) {
+            CheckThreshold();
+        }
+        return std::make_shared<QBdtHybrid>(q, e, engines, length, ZERO_BCI, rand_generator, phaseFactor, doNormalize,
+            randGlobalPhase, useHostRam, devID, useRDRAND, isSparse, (real1_f)amplitudeFloor, deviceIDs,
             thresholdQubits, separabilityThreshold);
     }
     void Decompose(bitLenInt start, QInterfacePtr dest)
-- 
2.43.0


From 82de6d6597044cea0bae6469f352b0deab185012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 076/117] fix: QBdtHybrid changed its qubit count before
 arguments were checked

---
 include/qbdthybrid.hpp | 44 ++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/include/qbdthybrid.hpp b/include/qbdthybrid.hpp
index 7e1c8c5..31a2a0c 100644
--- a/include/qbdthybrid.hpp
+++ b/include/qbdthybrid.hpp
@@ -151,13 +151,17 @@ public:
     using QInterface::Compose;
     bitLenInt Compose(QBdtHybridPtr toCopy)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
         toCopy->SwitchMode(!engine);
+        const bitLenInt nQubitCount = qubitCount + toCopy->qubitCount;
         if (engine) {
-            return engine->Compose(toCopy->engine);
+            const bitLenInt toRet = engine->Compose(toCopy->engine);
+            SetQubitCount(nQubitCount);
+
+            return toRet;
         }
 
         const bitLenInt toRet = qbdt->Compose(toCopy->qbdt);
+        SetQubitCount(nQubitCount);
         CheckThreshold();
 
         return toRet;
@@ -165,13 +169,17 @@ public:
     bitLenInt Compose(QInterfacePtr toCopy) { return Compose(std::dynamic_pointer_cast<QBdtHybrid>(toCopy)); }
     bitLenInt Compose(QBdtHybridPtr toCopy, bitLenInt start)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
         toCopy->SwitchMode(!engine);
+        const bitLenInt nQubitCount = qubitCount + toCopy->qubitCount;
         if (engine) {
-            return engine->Compose(toCopy->engine, start);
+            const bitLenInt toRet = engine->Compose(toCopy->engine, start);
+            SetQubitCount(nQubitCount);
+
+            return toRet;
         }
 
         const bitLenInt toRet = qbdt->Compose(toCopy->qbdt, start);
+        SetQubitCount(nQubitCount);
         CheckThreshold();
 
         return toRet;
@@ -182,13 +190,17 @@ public:
     }
     bitLenInt ComposeNoClone(QBdtHybridPtr toCopy)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
         toCopy->SwitchMode(!engine);
+        const bitLenInt nQubitCount = qubitCount + toCopy->qubitCount;
         if (engine) {
-            return engine->ComposeNoClone(toCopy->engine);
+            const bitLenInt toRet = engine->ComposeNoClone(toCopy->engine);
+            SetQubitCount(nQubitCount);
+
+            return toRet;
         }
 
         const bitLenInt toRet = qbdt->ComposeNoClone(toCopy->qbdt);
+        SetQubitCount(nQubitCount);
         CheckThreshold();
 
         return toRet;
@@ -200,12 +212,10 @@ public:
     using QInterface::Decompose;
     QInterfacePtr Decompose(bitLenInt start, bitLenInt length)
     {
-        SetQubitCount(qubitCount - length);
         QBdtPtr q{ nullptr };
         QEnginePtr e{ nullptr };
         if (qbdt) {
             q = std::dynamic_pointer_cast<QBdt>(qbdt->Decompose(start, length));
-            CheckThreshold();
         } else {
             e = std::dynamic_pointer_cast<QEngine>(engine->Decompose(start, length));
         }
@@ -239,34 +249,40 @@ public:
     }
     void Decompose(bitLenInt start, QBdtHybridPtr dest)
     {
-        SetQubitCount(qubitCount - dest->qubitCount);
         dest->SwitchMode(!engine);
         if (qbdt) {
             qbdt->Decompose(start, dest->qbdt);
-            CheckThreshold();
         } else {
             engine->Decompose(start, dest->engine);
         }
+        SetQubitCount(qubitCount - dest->qubitCount);
+        if (qbdt) {
+            CheckThreshold();
+        }
     }
     void Dispose(bitLenInt start, bitLenInt length)
     {
-        SetQubitCount(qubitCount - length);
         if (qbdt) {
             qbdt->Dispose(start, length);
-            CheckThreshold();
         } else {
             engine->Dispose(start, length);
         }
+        SetQubitCount(qubitCount - length);
+        if (qbdt) {
+            CheckThreshold();
+        }
     }
     void Dispose(bitLenInt start, bitLenInt length, const bitCapInt& disposedPerm)
     {
-        SetQubitCount(qubitCount - length);
         if (qbdt) {
             qbdt->Dispose(start, length, disposedPerm);
-            CheckThreshold();
         } else {
             engine->Dispose(start, length, disposedPerm);
         }
+        SetQubitCount(qubitCount - length);
+        if (qbdt) {
+            CheckThreshold();
+        }
     }
 
     using QInterface::Allocate;
-- 
2.43.0


From 2d907f042b8457ff4d73399d6c849e0666073d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 077/117] fix: QBdtHybrid SetPermutation()/MAll() left an
 invalid tree after state vector mode

---
 include/qbdthybrid.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/qbdthybrid.hpp b/include/qbdthybrid.hpp
index 31a2a0c..2d27c0e 100644
--- a/include/qbdthybrid.hpp
+++ b/include/qbdthybrid.hpp
@@ -347,7 +347,8 @@ public:
         if (qbdt) {
             qbdt->SetPermutation(perm, phaseFac);
         } else {
-            qbdt = std::dynamic_pointer_cast<QBdt>(MakeSimulator(true, perm, phaseFac));
+            qbdt = std::dynamic_pointer_cast<QBdt>(MakeSimulator(true));
+            qbdt->SetPermutation(perm, phaseFac);
             engine = nullptr;
         }
     }
@@ -531,7 +532,8 @@ public:
         }
 
         const bitCapInt toRet = engine->MAll();
-        qbdt = std::dynamic_pointer_cast<QBdt>(MakeSimulator(true, toRet));
+        qbdt = std::dynamic_pointer_cast<QBdt>(MakeSimulator(true));
+        qbdt->SetPermutation(toRet);
         engine = nullptr;
 
         return toRet;
-- 
2.43.0


From 9dbe4b6a5ac6acf04faa7ff09bb46b5b51427490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 078/117] fix: QBdt and QBdtHybrid must use a CPU engine in
 builds without GPU support

---
 include/qbdt.hpp   | 2 +-
 src/qbdthybrid.cpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/qbdt.hpp b/include/qbdt.hpp
index 790b39b..bbefd96 100644
--- a/include/qbdt.hpp
+++ b/include/qbdt.hpp
@@ -165,7 +165,7 @@ public:
         bool useHostMem = false, int64_t deviceId = -1, bool useHardwareRNG = true, bool useSparseStateVec = false,
         real1_f norm_thresh = REAL1_EPSILON, std::vector<int64_t> devList = {}, bitLenInt qubitThreshold = 0U,
         real1_f separation_thresh = _qrack_qunit_sep_thresh)
-        : QBdt({ QINTERFACE_HYBRID }, qBitCount, initState, rgp, phaseFac, doNorm, randomGlobalPhase, useHostMem,
+        : QBdt({ QINTERFACE_OPTIMAL_BASE }, qBitCount, initState, rgp, phaseFac, doNorm, randomGlobalPhase, useHostMem,
               deviceId, useHardwareRNG, useSparseStateVec, norm_thresh, devList, qubitThreshold, separation_thresh)
     {
     }
diff --git a/src/qbdthybrid.cpp b/src/qbdthybrid.cpp
index 0c5df16..7557569 100644
--- a/src/qbdthybrid.cpp
+++ b/src/qbdthybrid.cpp
@@ -59,7 +59,11 @@ QBdtHybrid::QBdtHybrid(QBdtPtr q, QEnginePtr e, std::vector<QInterfaceEngine> en
 QInterfacePtr QBdtHybrid::MakeSimulator(bool isBdt, const bitCapInt& perm, const complex& phaseFac)
 {
     std::vector<QInterfaceEngine> e(engines);
+#if ENABLE_OPENCL || ENABLE_CUDA
     e.insert(e.begin(), isBdt ? QINTERFACE_BDT : QINTERFACE_HYBRID);
+#else
+    e.insert(e.begin(), isBdt ? QINTERFACE_BDT : QINTERFACE_CPU);
+#endif
     QInterfacePtr toRet =
         CreateQuantumInterface(e, 0U, perm, rand_generator, phaseFac, doNormalize, randGlobalPhase, useHostRam, devID,
             useRDRAND, isSparse, (real1_f)amplitudeFloor, deviceIDs, thresholdQubits, separabilityThreshold);
-- 
2.43.0


From e6770799bbc9c21adae44e6c954c504fbe0db100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 079/117] fix: QInterface MultiShotMeasureMask() must refuse
 out-of-range qubit powers

---
 src/qinterface/qinterface.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 757a78e..b9506ed 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -805,6 +805,13 @@ std::map<bitCapInt, int> QInterface::MultiShotMeasureMask(const std::vector<bitC
         return std::map<bitCapInt, int>();
     }
 
+    for (const bitCapInt& qPower : qPowers) {
+        if (bi_compare(qPower, maxQPower) >= 0) {
+            throw std::invalid_argument(
+                "QInterface::MultiShotMeasureMask parameter qPowers array values must be within allocated qubit bounds!");
+        }
+    }
+
     std::map<bitCapInt, int> results;
     // (The random generator is shared between clones, so sampling is not thread-safe.)
     for (unsigned shot = 0U; shot < shots; ++shot) {
@@ -821,6 +828,13 @@ void QInterface::MultiShotMeasureMask(
         return;
     }
 
+    for (const bitCapInt& qPower : qPowers) {
+        if (bi_compare(qPower, maxQPower) >= 0) {
+            throw std::invalid_argument(
+                "QInterface::MultiShotMeasureMask parameter qPowers array values must be within allocated qubit bounds!");
+        }
+    }
+
     // (The random generator is shared between clones, so sampling is not thread-safe.)
     for (unsigned shot = 0U; shot < shots; ++shot) {
         shotsArray[shot] = (unsigned long long)(bitCapIntOcl)SampleClone(qPowers);
-- 
2.43.0


From 3b928df0fe1c25a046ea1c52dcb06c62a4fb755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 080/117] fix: QInterfaceNoisy Clone() left base fields and
 fidelity uninitialised

---
 include/qinterface_noisy.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index d213da4..4aed6db 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -80,11 +80,13 @@ public:
         bitLenInt qubitThreshold = 0U, real1_f separation_thresh = _qrack_qunit_sep_thresh);
 
     QInterfaceNoisy(QInterfaceNoisy* o)
-        : noiseParam(o->noiseParam)
-        , engine(o->engine)
+        : QInterface(*o)
+        , logFidelity(o->logFidelity)
+        , noiseParam(o->noiseParam)
+        , engine(o->engine->Clone())
         , engines(o->engines)
     {
-        engine = o->engine->Clone();
+        // Intentionally left blank;
     }
 
     void SetNoiseParameter(real1_f lambda) { noiseParam = lambda; }
@@ -149,8 +151,13 @@ public:
     }
     QInterfacePtr Decompose(bitLenInt start, bitLenInt length)
     {
-        QInterfaceNoisyPtr dest = std::make_shared<QInterfaceNoisy>(this);
-        engine->Decompose(start, dest->engine);
+        QInterfacePtr destEngine = engine->Decompose(start, length);
+        QInterface::SetQubitCount(qubitCount - length);
+        QInterfaceNoisyPtr dest = std::make_shared<QInterfaceNoisy>(engines, 0U, ZERO_BCI, rand_generator, ONE_CMPLX,
+            doNormalize, randGlobalPhase, false, -1, !!hardware_rand_generator, false, (real1_f)amplitudeFloor);
+        dest->noiseParam = noiseParam;
+        dest->engine = destEngine;
+        dest->QInterface::SetQubitCount(length);
 
         return dest;
     }
-- 
2.43.0


From 53a7f4063576b55af4cf94360ea8f3500f1466be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 081/117] fix: QInterfaceNoisy resized the wrapped register
 around Compose/Decompose/Dispose

---
 include/qinterface_noisy.hpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index 4aed6db..58ce413 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -116,20 +116,28 @@ public:
 
     bitLenInt Allocate(bitLenInt start, bitLenInt length)
     {
-        SetQubitCount(qubitCount + length);
-        return engine->Allocate(start, length);
+        const bitLenInt toRet = engine->Allocate(start, length);
+        QInterface::SetQubitCount(qubitCount + length);
+
+        return toRet;
     }
     using QInterface::Compose;
     bitLenInt Compose(QInterfaceNoisyPtr toCopy)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
-        return engine->Compose(toCopy->engine);
+        const bitLenInt nQubitCount = qubitCount + toCopy->qubitCount;
+        const bitLenInt toRet = engine->Compose(toCopy->engine);
+        QInterface::SetQubitCount(nQubitCount);
+
+        return toRet;
     }
     bitLenInt Compose(QInterfacePtr toCopy) { return Compose(std::dynamic_pointer_cast<QInterfaceNoisy>(toCopy)); }
     bitLenInt Compose(QInterfaceNoisyPtr toCopy, bitLenInt start)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
-        return engine->Compose(toCopy->engine, start);
+        const bitLenInt nQubitCount = qubitCount + toCopy->qubitCount;
+        const bitLenInt toRet = engine->Compose(toCopy->engine, start);
+        QInterface::SetQubitCount(nQubitCount);
+
+        return toRet;
     }
     bitLenInt Compose(QInterfacePtr toCopy, bitLenInt start)
     {
@@ -137,8 +145,11 @@ public:
     }
     bitLenInt ComposeNoClone(QInterfaceNoisyPtr toCopy)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
-        return engine->ComposeNoClone(toCopy->engine);
+        const bitLenInt nQubitCount = qubitCount + toCopy->qubitCount;
+        const bitLenInt toRet = engine->ComposeNoClone(toCopy->engine);
+        QInterface::SetQubitCount(nQubitCount);
+
+        return toRet;
     }
     bitLenInt ComposeNoClone(QInterfacePtr toCopy)
     {
@@ -168,17 +179,17 @@ public:
     void Decompose(bitLenInt start, QInterfaceNoisyPtr dest)
     {
         engine->Decompose(start, dest->engine);
-        SetQubitCount(qubitCount - dest->GetQubitCount());
+        QInterface::SetQubitCount(qubitCount - dest->GetQubitCount());
     }
     void Dispose(bitLenInt start, bitLenInt length)
     {
         engine->Dispose(start, length);
-        SetQubitCount(qubitCount - length);
+        QInterface::SetQubitCount(qubitCount - length);
     }
     void Dispose(bitLenInt start, bitLenInt length, const bitCapInt& disposedPerm)
     {
         engine->Dispose(start, length, disposedPerm);
-        SetQubitCount(qubitCount - length);
+        QInterface::SetQubitCount(qubitCount - length);
     }
 
     bool TryDecompose(bitLenInt start, QInterfaceNoisyPtr dest, real1_f error_tol = TRYDECOMPOSE_EPSILON)
@@ -186,7 +197,7 @@ public:
         const bitLenInt nQubitCount = qubitCount - dest->GetQubitCount();
         const bool result = engine->TryDecompose(start, dest->engine, error_tol);
         if (result) {
-            SetQubitCount(nQubitCount);
+            QInterface::SetQubitCount(nQubitCount);
         }
         return result;
     }
-- 
2.43.0


From eaafa25a564ac51232e3a4d2e2ebcf8ff79ec2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 082/117] fix: QInterfaceNoisy must share its random generator
 with the wrapped engine

---
 src/qinterface_noisy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface_noisy.cpp b/src/qinterface_noisy.cpp
index 544a95c..600b04a 100644
--- a/src/qinterface_noisy.cpp
+++ b/src/qinterface_noisy.cpp
@@ -21,7 +21,7 @@ QInterfaceNoisy::QInterfaceNoisy(std::vector<QInterfaceEngine> eng, bitLenInt qB
     , noiseParam(ONE_R1_F / 100)
     , engines(eng)
 {
-    engine = CreateQuantumInterface(engines, qBitCount, initState, rgp, phaseFac, doNorm, randGlobalPhase, useHostMem,
+    engine = CreateQuantumInterface(engines, qBitCount, initState, rand_generator, phaseFac, doNorm, randGlobalPhase, useHostMem,
         deviceId, useHardwareRNG, useSparseStateVec, norm_thresh, devList, qubitThreshold, sep_thresh);
 }
 } // namespace Qrack
-- 
2.43.0


From 5f229419c3563c3cf4a1c9b8688c3d4bec8430b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 083/117] fix: QInterfaceNoisy UniformlyControlledSingleBit()
 hid instead of overriding the interface method

---
 include/qinterface_noisy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index 58ce413..6b2db9b 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -240,7 +240,7 @@ public:
 
     using QInterface::UniformlyControlledSingleBit;
     void UniformlyControlledSingleBit(const std::vector<bitLenInt>& controls, bitLenInt qubitIndex,
-        const complex* mtrxs, const std::vector<bitCapInt> mtrxSkipPowers, const bitCapInt& mtrxSkipValueMask)
+        const complex* mtrxs, const std::vector<bitCapInt>& mtrxSkipPowers, const bitCapInt& mtrxSkipValueMask)
     {
         engine->UniformlyControlledSingleBit(controls, qubitIndex, mtrxs, mtrxSkipPowers, mtrxSkipValueMask);
         Apply1QbNoise(qubitIndex);
-- 
2.43.0


From 2db81c8b8e22d522f0b00a2cbe3d7c657b864232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 084/117] fix: QCircuit optimization mistook raw swap gates for
 diagonal or identity gates

---
 include/qcircuit.hpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/include/qcircuit.hpp b/include/qcircuit.hpp
index 6faa580..6c0102e 100644
--- a/include/qcircuit.hpp
+++ b/include/qcircuit.hpp
@@ -115,12 +115,17 @@ struct QCircuitGate {
 
     QCircuitGatePtr Clone() { return std::make_shared<QCircuitGate>(target, payloads, controls); }
 
+    /**
+     * Am I a (raw) "Swap" gate? (These have no payloads, and the second swapped qubit is in place of a control.)
+     */
+    bool IsSwap() { return payloads.empty() && !controls.empty(); }
+
     /**
      * Can I combine myself with gate `other`?
      */
     bool CanCombine(QCircuitGatePtr other, bool clifford = false)
     {
-        if (target != other->target) {
+        if ((target != other->target) || IsSwap() || other->IsSwap()) {
             return false;
         }
 
@@ -336,6 +341,10 @@ struct QCircuitGate {
      */
     bool IsIdentity()
     {
+        if (IsSwap()) {
+            return false;
+        }
+
         const bitCapInt controlPow = pow2(controls.size());
         if (payloads.size() == controlPow) {
             const complex* refP = payloads.begin()->second.get();
@@ -371,6 +380,10 @@ struct QCircuitGate {
      */
     bool IsPhase()
     {
+        if (IsSwap()) {
+            return false;
+        }
+
         for (const auto& payload : payloads) {
             complex* p = payload.second.get();
             if ((norm(p[1U]) > FP_NORM_EPSILON) || (norm(p[2U]) > FP_NORM_EPSILON)) {
@@ -386,6 +399,10 @@ struct QCircuitGate {
      */
     bool IsInvert()
     {
+        if (IsSwap()) {
+            return false;
+        }
+
         for (const auto& payload : payloads) {
             complex* p = payload.second.get();
             if ((norm(p[0U]) > FP_NORM_EPSILON) || (norm(p[3U]) > FP_NORM_EPSILON)) {
@@ -401,6 +418,10 @@ struct QCircuitGate {
      */
     bool IsPhaseInvert()
     {
+        if (IsSwap()) {
+            return false;
+        }
+
         for (const auto& payload : payloads) {
             complex* p = payload.second.get();
             if (((norm(p[0]) > FP_NORM_EPSILON) || (norm(p[3]) > FP_NORM_EPSILON)) &&
@@ -491,6 +512,15 @@ struct QCircuitGate {
      */
     bool CanPass(QCircuitGatePtr other)
     {
+        if (IsSwap() || other->IsSwap()) {
+            // Only gates on disjoint qubits (certainly) pass.
+            std::set<bitLenInt> qubits(controls);
+            qubits.insert(target);
+            return (qubits.find(other->target) == qubits.end()) &&
+                std::none_of(other->controls.begin(), other->controls.end(),
+                    [&qubits](bitLenInt c) { return qubits.find(c) != qubits.end(); });
+        }
+
         const std::set<bitLenInt>::iterator c = other->controls.find(target);
         if (c == other->controls.end()) {
             if (controls.find(other->target) != controls.end()) {
-- 
2.43.0


From 5eeb5edc73c08a07b681fc807748d73829049cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 085/117] fix: QCircuit shared gates it edits in place with the
 caller and other circuits, and lost the qubit count without optimization

---
 include/qcircuit.hpp | 10 +++++++---
 src/qcircuit.cpp     | 17 ++++++++++-------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/qcircuit.hpp b/include/qcircuit.hpp
index 6c0102e..f4b724d 100644
--- a/include/qcircuit.hpp
+++ b/include/qcircuit.hpp
@@ -738,7 +738,10 @@ public:
         if (circuit->qubitCount > qubitCount) {
             qubitCount = circuit->qubitCount;
         }
-        gates.insert(gates.end(), circuit->gates.begin(), circuit->gates.end());
+        const std::list<QCircuitGatePtr> nGates = circuit->gates;
+        for (const QCircuitGatePtr& gate : nGates) {
+            gates.push_back(gate->Clone());
+        }
     }
 
     /**
@@ -750,8 +753,9 @@ public:
         if (circuit->qubitCount > qubitCount) {
             qubitCount = circuit->qubitCount;
         }
-        for (auto gIt = circuit->gates.begin(); gIt != circuit->gates.end(); ++gIt) {
-            AppendGate(*gIt);
+        const std::list<QCircuitGatePtr> nGates = circuit->gates;
+        for (const QCircuitGatePtr& gate : nGates) {
+            AppendGate(gate->Clone());
         }
     }
 
diff --git a/src/qcircuit.cpp b/src/qcircuit.cpp
index 65c619a..e0bdec7 100644
--- a/src/qcircuit.cpp
+++ b/src/qcircuit.cpp
@@ -100,13 +100,7 @@ std::istream& operator>>(std::istream& is, QCircuitPtr& c)
 
 bool QCircuit::AppendGate(QCircuitGatePtr nGate)
 {
-    if (!isCollapsed) {
-        gates.push_back(nGate);
-
-        return false;
-    }
-
-    if (nGate->IsIdentity()) {
+    if (isCollapsed && nGate->IsIdentity()) {
         return true;
     }
 
@@ -120,6 +114,15 @@ bool QCircuit::AppendGate(QCircuitGatePtr nGate)
         }
     }
 
+    // Optimization changes gates in place, and the caller might still use this one.
+    nGate = nGate->Clone();
+
+    if (!isCollapsed) {
+        gates.push_back(nGate);
+
+        return false;
+    }
+
     std::set<bitLenInt> nQubits(nGate->controls);
     nQubits.insert(nGate->target);
     bool didCommute = false;
-- 
2.43.0


From 42884dd09fe865cc481f0904e64c444c640e9d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 086/117] fix: QCircuit::DeletePhaseTarget dropped the relative
 phases of controlled gates

---
 include/qcircuit.hpp | 48 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/include/qcircuit.hpp b/include/qcircuit.hpp
index f4b724d..9ada83f 100644
--- a/include/qcircuit.hpp
+++ b/include/qcircuit.hpp
@@ -623,9 +623,44 @@ struct QCircuitGate {
             nPayloads.emplace((payload.first & lowMask) | ((payload.first & highMask) >> 1U), payload.second);
         }
 
+        if (nPayloads.empty()) {
+            // Every remaining control permutation is the identity operator.
+            return Clear();
+        }
+
         payloads = nPayloads;
         controls.erase(c);
     }
+
+    /**
+     * (If I'm a phase gate,) replace the target qubit with its post-selected eigenstate, as phases on my controls.
+     */
+    void PostSelectPhaseTarget(bool eigen)
+    {
+        if (controls.empty()) {
+            // Global phase
+            return Clear();
+        }
+
+        const bitLenInt nTarget = *(controls.begin());
+        std::map<bitCapInt, std::shared_ptr<complex>> nPayloads;
+        for (const auto& payload : payloads) {
+            // The new target is the lowest control, in the lowest bit of the payload key.
+            std::shared_ptr<complex>& np = nPayloads[payload.first >> 1U];
+            if (!np) {
+                np = std::shared_ptr<complex>(new complex[4U], std::default_delete<complex[]>());
+                np.get()[0U] = ONE_CMPLX;
+                np.get()[1U] = ZERO_CMPLX;
+                np.get()[2U] = ZERO_CMPLX;
+                np.get()[3U] = ONE_CMPLX;
+            }
+            np.get()[bi_and_1(payload.first) ? 3U : 0U] = payload.second.get()[eigen ? 3U : 0U];
+        }
+
+        payloads = nPayloads;
+        controls.erase(nTarget);
+        target = nTarget;
+    }
 };
 
 std::ostream& operator<<(std::ostream& os, const QCircuitGatePtr g);
@@ -790,12 +825,15 @@ public:
         std::list<QCircuitGatePtr> nGates;
         gates.reverse();
         for (const QCircuitGatePtr& gate : gates) {
-            if (gate->target == qubit) {
-                continue;
-            }
             QCircuitGatePtr nGate = gate->Clone();
-            nGate->PostSelectControl(qubit, eigen);
-            nGates.insert(nGates.begin(), nGate);
+            if (nGate->target == qubit) {
+                nGate->PostSelectPhaseTarget(eigen);
+            } else {
+                nGate->PostSelectControl(qubit, eigen);
+            }
+            if (!nGate->IsIdentity()) {
+                nGates.insert(nGates.begin(), nGate);
+            }
         }
         gates = nGates;
     }
-- 
2.43.0


From 3b54386b0cec32171c137f8c20415bab25db09f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 087/117] fix: QTensorNetwork appended gates to a layer before
 later operations on the same qubit

---
 include/qcircuit.hpp       | 17 +++++++++++++++++
 include/qtensornetwork.hpp |  4 ++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/qcircuit.hpp b/include/qcircuit.hpp
index 9ada83f..adaf5ab 100644
--- a/include/qcircuit.hpp
+++ b/include/qcircuit.hpp
@@ -812,6 +812,23 @@ public:
             if ((gate->target == qubit) && !(gate->IsPhase())) {
                 return true;
             }
+            if (gate->IsSwap() && (gate->controls.find(qubit) != gate->controls.end())) {
+                return true;
+            }
+        }
+
+        return false;
+    }
+
+    /**
+     * Check if any gate of this circuit acts on (or is controlled by) a qubit.
+     */
+    bool IsQubitUsed(bitLenInt qubit)
+    {
+        for (const QCircuitGatePtr& gate : gates) {
+            if ((gate->target == qubit) || (gate->controls.find(qubit) != gate->controls.end())) {
+                return true;
+            }
         }
 
         return false;
diff --git a/include/qtensornetwork.hpp b/include/qtensornetwork.hpp
index 8319c72..9c61b8a 100644
--- a/include/qtensornetwork.hpp
+++ b/include/qtensornetwork.hpp
@@ -55,7 +55,7 @@ protected:
             std::map<bitLenInt, bool>& m = measurements[l];
             ++l;
 
-            if (m.find(target) != m.end()) {
+            if ((m.find(target) != m.end()) || ((l < circuit.size()) && circuit[l]->IsQubitUsed(target))) {
                 if (circuit.size() == l) {
                     circuit.push_back(std::make_shared<QCircuit>());
                 }
@@ -64,7 +64,7 @@ protected:
             }
 
             for (const bitLenInt& control : controls) {
-                if (m.find(control) != m.end()) {
+                if ((m.find(control) != m.end()) || ((l < circuit.size()) && circuit[l]->IsQubitUsed(control))) {
                     if (circuit.size() == l) {
                         circuit.push_back(std::make_shared<QCircuit>());
                     }
-- 
2.43.0


From a3943801dd5ad9e73290930ab30c79e11610ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 088/117] fix: QTensorNetwork light cone left out earlier
 measured qubits and the gates before them

---
 src/qtensornetwork.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/qtensornetwork.cpp b/src/qtensornetwork.cpp
index 119840f..f9e40d9 100644
--- a/src/qtensornetwork.cpp
+++ b/src/qtensornetwork.cpp
@@ -172,21 +172,11 @@ void QTensorNetwork::MakeLayerStack(std::set<bitLenInt> qubits)
         for (size_t i = 0U; i < circuit.size(); ++i) {
             const size_t j = circuit.size() - (i + 1U);
             if (j < measurements.size()) {
+                // Measurement results condition the state of any qubits with which they're entangled.
                 for (const auto& m : measurements[j]) {
-                    qubits.erase(m.first);
+                    qubits.insert(m.first);
                 }
             }
-            if (qubits.empty()) {
-                QRACK_CONST complex pauliX[4]{ ZERO_CMPLX, ONE_CMPLX, ONE_CMPLX, ZERO_CMPLX };
-                c.push_back(std::make_shared<QCircuit>(true, isNearClifford));
-                for (const auto& m : measurements[j]) {
-                    if (m.second) {
-                        c.back()->AppendGate(std::make_shared<QCircuitGate>(m.first, pauliX));
-                    }
-                }
-
-                break;
-            }
             c.push_back(circuit[j]->PastLightCone(qubits));
         }
         std::reverse(c.begin(), c.end());
-- 
2.43.0


From 5edf64dab2df6d5e8902b7ec87153df6cc746a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 089/117] fix: QTensorNetwork::Allocate left a stale layer
 stack

---
 include/qtensornetwork.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/qtensornetwork.hpp b/include/qtensornetwork.hpp
index 9c61b8a..ee18a02 100644
--- a/include/qtensornetwork.hpp
+++ b/include/qtensornetwork.hpp
@@ -301,6 +301,7 @@ public:
         }
 
         const bitLenInt movedQubits = qubitCount - start;
+        layerStack = nullptr;
         SetQubitCount(qubitCount + length);
         if (!movedQubits) {
             return start;
-- 
2.43.0


From abe3ce7cadf05b8f0834e456ba3f06be8858da7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 090/117] fix: QTensorNetwork::ForceM collapsed circuit layers
 whose input was not classical

---
 src/qtensornetwork.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/qtensornetwork.cpp b/src/qtensornetwork.cpp
index f9e40d9..eaf2543 100644
--- a/src/qtensornetwork.cpp
+++ b/src/qtensornetwork.cpp
@@ -281,11 +281,20 @@ bool QTensorNetwork::ForceM(bitLenInt qubit, bool result, bool doForce, bool doA
 
         const QCircuitPtr& c = circuit[layerId];
         for (const bitLenInt& q : nonMeasuredQubits) {
-            if (c->IsNonPhaseTarget(q)) {
+            if (layerId ? c->IsQubitUsed(q) : c->IsNonPhaseTarget(q)) {
                 // Nothing more to do; tell the user the result.
                 return toRet;
             }
         }
+        if (layerId) {
+            // Only qubits that were also measured directly before this circuit layer start from a classical state.
+            const std::map<bitLenInt, bool>& mPrev = measurements[layerId - 1U];
+            for (const auto& b : m) {
+                if ((mPrev.find(b.first) == mPrev.end()) && c->IsQubitUsed(b.first)) {
+                    return toRet;
+                }
+            }
+        }
 
         // If we did not return, this circuit layer is fully collapsed.
         QRACK_CONST complex pauliX[4U]{ ZERO_CMPLX, ONE_CMPLX, ONE_CMPLX, ZERO_CMPLX };
-- 
2.43.0


From a47c91c840e00894f354a49b135f8779f785653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 091/117] fix: DispatchQueue::dump() reported a running task as
 finished

---
 include/common/dispatchqueue.hpp | 2 ++
 src/common/dispatchqueue.cpp     | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/common/dispatchqueue.hpp b/include/common/dispatchqueue.hpp
index 025d6b0..f9644fc 100644
--- a/include/common/dispatchqueue.hpp
+++ b/include/common/dispatchqueue.hpp
@@ -36,6 +36,7 @@ public:
         : quit_(false)
         , isFinished_(true)
         , isStarted_(false)
+        , isRunning_(false)
     {
         // Intentionally left blank.
     }
@@ -65,6 +66,7 @@ private:
     bool quit_;
     bool isFinished_;
     bool isStarted_;
+    bool isRunning_;
 
     void dispatch_thread_handler(void);
 };
diff --git a/src/common/dispatchqueue.cpp b/src/common/dispatchqueue.cpp
index d7a8444..decea7e 100644
--- a/src/common/dispatchqueue.cpp
+++ b/src/common/dispatchqueue.cpp
@@ -58,7 +58,8 @@ void DispatchQueue::dump()
 
     std::queue<DispatchFn> empty;
     std::swap(q_, empty);
-    isFinished_ = true;
+    // A task that's already running isn't discarded, and the worker thread reports when it ends.
+    isFinished_ = !isRunning_;
     lock.unlock();
     cvFinished_.notify_all();
 }
@@ -99,6 +100,7 @@ void DispatchQueue::dispatch_thread_handler(void)
 
         const auto op = std::move(q_.front());
         q_.pop();
+        isRunning_ = true;
 
         // unlock now that we're done messing with the queue
         lock.unlock();
@@ -106,6 +108,7 @@ void DispatchQueue::dispatch_thread_handler(void)
         op();
 
         lock.lock();
+        isRunning_ = false;
 
         if (q_.empty()) {
             isFinished_ = true;
-- 
2.43.0


From a71bf3703022d8f5c1b3775cb8961a7216ccfbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 092/117] fix: QEngineCPU::Dump() must wait for a gate that is
 already running

---
 include/qengine_cpu.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qengine_cpu.hpp b/include/qengine_cpu.hpp
index e7894ae..f0471df 100644
--- a/include/qengine_cpu.hpp
+++ b/include/qengine_cpu.hpp
@@ -77,6 +77,8 @@ public:
     {
 #if ENABLE_QUNIT_CPU_PARALLEL && ENABLE_PTHREAD
         dispatchQueue.dump();
+        // A gate that's already running is not interrupted, and it still uses the state vector.
+        dispatchQueue.finish();
 #endif
     }
 
-- 
2.43.0


From dd46ef819a907dcbcc03d80a6d3fc97a652e7339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 093/117] fix: bounds-check every simulator, neuron and circuit
 ID of the C API

---
 src/pinvoke_api.cpp | 60 +++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index d31c97a..8cadacb 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -51,7 +51,7 @@
 #endif
 
 #define SIMULATOR_LOCK_GUARD_VOID(sid)                                                                                 \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -63,7 +63,7 @@
     }
 
 #define SIMULATOR_LOCK_GUARD_TYPED(sid, def)                                                                           \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -108,7 +108,7 @@
 #endif
 
 #define NEURON_LOCK_GUARD_VOID(nid)                                                                                    \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -121,7 +121,7 @@
     }
 
 #define NEURON_LOCK_GUARD_TYPED(nid, def)                                                                              \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -158,7 +158,7 @@
 #endif
 
 #define CIRCUIT_LOCK_GUARD_TYPED(cid, def)                                                                             \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: circuit ID not found!" << std::endl;                                           \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -171,7 +171,7 @@
     }
 
 #define CIRCUIT_LOCK_GUARD_VOID(cid)                                                                                   \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -187,12 +187,12 @@
 
 #if CPP_STD > 13
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -218,12 +218,12 @@
     }
 #else
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -613,6 +613,12 @@ MICROSOFT_QUANTUM_DECL int get_error(_In_ uintq sid)
         return 2;
     }
 
+    if (sid >= simulatorErrors.size()) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+
+        return 2;
+    }
+
     return simulatorErrors[sid];
 }
 
@@ -851,7 +857,7 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if ((sid >= simulators.size()) || !simulatorReservations[sid]) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -875,7 +881,7 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
     bool isSuccess = true;
     QInterfacePtr simulator;
     try {
-        simulator = oSimulator->Clone();
+        simulator = oSimulator ? oSimulator->Clone() : nullptr;
     } catch (const std::exception& ex) {
         std::cout << ex.what() << std::endl;
         isSuccess = false;
@@ -904,7 +910,7 @@ uintq init_clone_size(uintq sid, uintq n)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if ((sid >= simulators.size()) || !simulatorReservations[sid]) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -960,6 +966,12 @@ uintq init_clone_size(uintq sid, uintq n)
 MICROSOFT_QUANTUM_DECL void destroy(_In_ uintq sid)
 {
     META_LOCK_GUARD()
+    if (sid >= simulators.size()) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
     shards.erase(simulators[sid].get());
     simulatorMutexes.erase(simulators[sid].get());
     simulators[sid] = nullptr;
@@ -1286,7 +1298,7 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if ((sid >= simulators.size()) || !simulatorReservations[sid]) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -1327,7 +1339,7 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -3473,7 +3485,7 @@ MICROSOFT_QUANTUM_DECL uintq init_qneuron(
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -3527,7 +3539,7 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
 {
     META_LOCK_GUARD()
 
-    if (nid > neurons.size()) {
+    if ((nid >= neurons.size()) || !neurons[nid]) {
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;
         metaError = 2;
 
@@ -3567,6 +3579,12 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
 MICROSOFT_QUANTUM_DECL void destroy_qneuron(_In_ uintq nid)
 {
     META_LOCK_GUARD()
+    if (nid >= neurons.size()) {
+        std::cout << "Invalid argument: neuron ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
     neuronMutexes.erase(neurons[nid].get());
     neurons[nid] = nullptr;
     neuronErrors[nid] = 0;
@@ -3718,7 +3736,7 @@ uintq _init_qcircuit_copy(uintq cid, bool isInverse, std::set<bitLenInt> q)
 {
     META_LOCK_GUARD()
 
-    if (cid > circuits.size()) {
+    if ((cid >= circuits.size()) || !circuits[cid]) {
         std::cout << "Invalid argument: circuit ID not found!" << std::endl;
         metaError = 2;
 
@@ -3768,6 +3786,12 @@ MICROSOFT_QUANTUM_DECL uintq qcircuit_past_light_cone(_In_ uintq cid, _In_ uintq
 MICROSOFT_QUANTUM_DECL void destroy_qcircuit(_In_ uintq cid)
 {
     META_LOCK_GUARD()
+    if (cid >= circuits.size()) {
+        std::cout << "Invalid argument: circuit ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
     circuitMutexes.erase(circuits[cid].get());
     circuits[cid] = nullptr;
     circuitReservations[cid] = false;
-- 
2.43.0


From 88627387b180566f1bda7b38b73e026637be2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 094/117] fix: report an unsupported operation of the C API
 instead of dereferencing a null cast

---
 src/pinvoke_api.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 8cadacb..3fe9486 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -249,11 +249,20 @@
     }
 #endif
 
-#define QALU(qReg) std::dynamic_pointer_cast<QAlu>(qReg)
-#define QPARITY(qReg) std::dynamic_pointer_cast<QParity>(qReg)
+#define QALU(qReg) CastOrThrow<QAlu>(qReg)
+#define QPARITY(qReg) CastOrThrow<QParity>(qReg)
 
 using namespace Qrack;
 
+template <typename T> std::shared_ptr<T> CastOrThrow(QInterfacePtr simulator)
+{
+    std::shared_ptr<T> toRet = std::dynamic_pointer_cast<T>(simulator);
+    if (!toRet) {
+        throw std::domain_error("Operation is not supported by this simulator type!");
+    }
+    return toRet;
+}
+
 qrack_rand_gen_ptr randNumGen = std::make_shared<qrack_rand_gen>(time(0));
 std::mutex metaOperationMutex;
 int metaError = 0;
-- 
2.43.0


From 5ff92e9d463ca126d1fa58b4be52c61e3e564a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 095/117] fix: don't truncate qubit IDs of the C API to 8 bits

---
 src/pinvoke_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 3fe9486..72903f5 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -283,7 +283,7 @@ std::map<QCircuit*, std::mutex> circuitMutexes;
 std::vector<bool> circuitReservations;
 std::map<QCircuit*, std::string> circuitStrings;
 
-bitLenInt GetSimShardId(QInterfacePtr simulator, bitLenInt i)
+bitLenInt GetSimShardId(QInterfacePtr simulator, uintq i)
 {
     const auto& simShardsIt = shards.find(simulator.get());
     if (simShardsIt == shards.end()) {
-- 
2.43.0


From bb8d8e10b4ac1aa48f2330c24a92e69df3cf24f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 096/117] fix: map qubit IDs to positions in the C API's Exp
 and MCExp, and check IDs before changing basis

---
 src/pinvoke_api.cpp | 55 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 72903f5..7ab2606 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -23,6 +23,7 @@
 #include <map>
 #include <mutex>
 #include <numeric>
+#include <set>
 #include <sstream>
 #include <string>
 
@@ -325,6 +326,20 @@ void FillSimShards(QInterfacePtr simulator)
     }
 }
 
+void ThrowIfQubitIdsAreBad(QInterfacePtr simulator, uintq n, const uintq* q)
+{
+    const std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
+    std::set<uintq> ids;
+    for (uintq i = 0U; i < n; ++i) {
+        if (simShards.find(q[i]) == simShards.end()) {
+            throw std::invalid_argument("Qubit ID is out-of-bounds!");
+        }
+        if (!ids.insert(q[i]).second) {
+            throw std::invalid_argument("Qubit IDs must be unique!");
+        }
+    }
+}
+
 void TransformPauliBasis(QInterfacePtr simulator, uintq len, int* bases, uintq* qubitIds)
 {
     for (uintq i = 0U; i < len; ++i) {
@@ -363,7 +378,7 @@ void RevertPauliBasis(QInterfacePtr simulator, uintq len, int* bases, uintq* qub
     }
 }
 
-void removeIdentities(std::vector<int>* b, std::vector<bitLenInt>* qs)
+void removeIdentities(std::vector<int>* b, std::vector<uintq>* qs)
 {
     uintq i = 0U;
     while (i != b->size()) {
@@ -446,11 +461,11 @@ void MCRHelper(uintq sid, uintq b, double phi, uintq n, uintq* c, uintq q)
     }
 }
 
-inline std::size_t make_mask(std::vector<bitLenInt> const& qs)
+inline bitCapInt make_mask(QInterfacePtr simulator, std::vector<uintq> const& qs)
 {
-    std::size_t mask = 0U;
-    for (const std::size_t q : qs) {
-        mask = mask | pow2Ocl(q);
+    bitCapInt mask = ZERO_BCI;
+    for (const uintq q : qs) {
+        bi_or_ip(&mask, pow2(GetSimShardId(simulator, q)));
     }
     return mask;
 }
@@ -1244,7 +1259,7 @@ double _JointEnsembleProbabilityHelper(QInterfacePtr simulator, uintq n, int* b,
     }
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     removeIdentities(&bVec, &qVec);
     n = (uintq)qVec.size();
@@ -1273,6 +1288,9 @@ MICROSOFT_QUANTUM_DECL double JointEnsembleProbability(
     double jointProb = (double)REAL1_DEFAULT_ARG;
 
     try {
+        ThrowIfQubitIdsAreBad(simulator, n, q);
+        QPARITY(simulator);
+
         TransformPauliBasis(simulator, n, b, q);
 
         jointProb = _JointEnsembleProbabilityHelper(simulator, n, b, q, false);
@@ -2020,21 +2038,25 @@ MICROSOFT_QUANTUM_DECL void Exp(
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     uintq someQubit = qVec.front();
 
     removeIdentities(&bVec, &qVec);
 
     try {
+        ThrowIfQubitIdsAreBad(simulator, n, q);
+
         if (bVec.empty()) {
             RHelper(sid, PauliI, -2. * phi, someQubit);
         } else if (bVec.size() == 1U) {
             RHelper(sid, bVec.front(), -2. * phi, qVec.front());
         } else {
+            QPARITY(simulator);
+
             TransformPauliBasis(simulator, n, b, q);
 
-            std::size_t mask = make_mask(qVec);
+            const bitCapInt mask = make_mask(simulator, qVec);
             QPARITY(simulator)->UniformParityRZ(mask, (real1_f)(-phi));
 
             RevertPauliBasis(simulator, n, b, q);
@@ -2058,23 +2080,31 @@ MICROSOFT_QUANTUM_DECL void MCExp(_In_ uintq sid, _In_ uintq n, _In_reads_(n) in
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     uintq someQubit = qVec.front();
 
     removeIdentities(&bVec, &qVec);
 
     try {
+        ThrowIfQubitIdsAreBad(simulator, n, q);
+        ThrowIfQubitIdsAreBad(simulator, nc, cs);
+
         if (bVec.empty()) {
             MCRHelper(sid, PauliI, -2. * phi, nc, cs, someQubit);
         } else if (bVec.size() == 1U) {
             MCRHelper(sid, bVec.front(), -2. * phi, nc, cs, qVec.front());
         } else {
-            std::vector<bitLenInt> csVec(cs, cs + nc);
+            QPARITY(simulator);
+
+            std::vector<bitLenInt> csVec(nc);
+            for (uintq i = 0U; i < nc; ++i) {
+                csVec[i] = GetSimShardId(simulator, cs[i]);
+            }
 
             TransformPauliBasis(simulator, n, b, q);
 
-            std::size_t mask = make_mask(qVec);
+            const bitCapInt mask = make_mask(simulator, qVec);
             QPARITY(simulator)->CUniformParityRZ(csVec, mask, (real1_f)(-phi));
 
             RevertPauliBasis(simulator, n, b, q);
@@ -2145,6 +2175,9 @@ MICROSOFT_QUANTUM_DECL uintq Measure(_In_ uintq sid, _In_ uintq n, _In_reads_(n)
 
     uintq toRet = -1;
     try {
+        ThrowIfQubitIdsAreBad(simulator, n, q);
+        QPARITY(simulator);
+
         TransformPauliBasis(simulator, n, b, q);
 
         double jointProb = _JointEnsembleProbabilityHelper(simulator, n, b, q, true);
-- 
2.43.0


From 2ec0bdf1a699185a5cb1fe79626e69929bbbd3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 097/117] fix: follow the qubits through the swaps that prepare
 the C API's register arithmetic

---
 src/pinvoke_api.cpp | 109 ++++++++++++++------------------------------
 1 file changed, 35 insertions(+), 74 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 7ab2606..cf35e6f 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -489,23 +489,34 @@ void SwapShardValues(bitLenInt v1, bitLenInt v2, std::map<uintq, bitLenInt>& sim
     std::swap(it1->second, it2->second);
 }
 
-uintq MapArithmetic(QInterfacePtr simulator, uintq n, uintq* q)
+void MapRegister(QInterfacePtr simulator, uintq start, uintq n, const uintq* q)
 {
-    uintq start = GetSimShardId(simulator, q[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray(new bitLenInt[n]);
+    // Any swap might move a qubit that's still to be mapped, so look every position up when it's needed.
+    std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
     for (uintq i = 0U; i < n; ++i) {
-        bitArray[i] = GetSimShardId(simulator, q[i]);
-        if (start > bitArray[i]) {
-            start = bitArray[i];
-        }
+        const bitLenInt o = simShards[q[i]];
+        simulator->Swap(start + i, o);
+        SwapShardValues(start + i, o, simShards);
     }
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start + i, bitArray[i]);
-        SwapShardValues(start + i, bitArray[i], shards[simulator.get()]);
+}
+
+uintq MinShardId(QInterfacePtr simulator, uintq n, const uintq* q)
+{
+    uintq start = GetSimShardId(simulator, q[0U]);
+    for (uintq i = 1U; i < n; ++i) {
+        start = std::min(start, (uintq)GetSimShardId(simulator, q[i]));
     }
     return start;
 }
 
+uintq MapArithmetic(QInterfacePtr simulator, uintq n, uintq* q)
+{
+    ThrowIfQubitIdsAreBad(simulator, n, q);
+    const uintq start = MinShardId(simulator, n, q);
+    MapRegister(simulator, start, n, q);
+    return start;
+}
+
 struct MapArithmeticResult2 {
     uintq start1;
     uintq start2;
@@ -517,85 +528,35 @@ struct MapArithmeticResult2 {
     }
 };
 
-MapArithmeticResult2 MapArithmetic2(QInterfacePtr simulator, uintq n, uintq* q1, uintq* q2)
-{
-    uintq start1 = GetSimShardId(simulator, q1[0U]);
-    uintq start2 = GetSimShardId(simulator, q2[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray1(new bitLenInt[n]);
-    std::unique_ptr<bitLenInt[]> bitArray2(new bitLenInt[n]);
-    for (uintq i = 0U; i < n; ++i) {
-        bitArray1[i] = GetSimShardId(simulator, q1[i]);
-        if (start1 > bitArray1[i]) {
-            start1 = bitArray1[i];
-        }
-        bitArray2[i] = GetSimShardId(simulator, q2[i]);
-        if (start2 > bitArray2[i]) {
-            start2 = bitArray2[i];
-        }
-    }
-    bool isReversed = (start2 < start1);
-    if (isReversed) {
-        std::swap(start1, start2);
-        bitArray1.swap(bitArray2);
-    }
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start1 + i, bitArray1[i]);
-        SwapShardValues(start1 + i, bitArray1[i], shards[simulator.get()]);
-    }
-    if ((start1 + n) > start2) {
-        start2 = start1 + n;
-    }
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start2 + i, bitArray2[i]);
-        SwapShardValues(start2 + i, bitArray2[i], shards[simulator.get()]);
-    }
-    if (isReversed) {
-        std::swap(start1, start2);
-    }
-    return MapArithmeticResult2(start1, start2);
-}
-
 MapArithmeticResult2 MapArithmetic3(QInterfacePtr simulator, uintq n1, uintq* q1, uintq n2, uintq* q2)
 {
-    uintq start1 = GetSimShardId(simulator, q1[0U]);
-    uintq start2 = GetSimShardId(simulator, q2[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray1(new bitLenInt[n1]);
-    std::unique_ptr<bitLenInt[]> bitArray2(new bitLenInt[n2]);
-    for (uintq i = 0U; i < n1; ++i) {
-        bitArray1[i] = GetSimShardId(simulator, q1[i]);
-        if (start1 > bitArray1[i]) {
-            start1 = bitArray1[i];
-        }
-    }
-    for (uintq i = 0U; i < n2; ++i) {
-        bitArray2[i] = GetSimShardId(simulator, q2[i]);
-        if (start2 > bitArray2[i]) {
-            start2 = bitArray2[i];
-        }
-    }
-    bool isReversed = (start2 < start1);
+    std::vector<uintq> ids(q1, q1 + n1);
+    ids.insert(ids.end(), q2, q2 + n2);
+    ThrowIfQubitIdsAreBad(simulator, ids.size(), ids.data());
+    uintq start1 = MinShardId(simulator, n1, q1);
+    uintq start2 = MinShardId(simulator, n2, q2);
+    const bool isReversed = (start2 < start1);
     if (isReversed) {
         std::swap(start1, start2);
         std::swap(n1, n2);
-        bitArray1.swap(bitArray2);
-    }
-    for (uintq i = 0U; i < n1; ++i) {
-        simulator->Swap(start1 + i, bitArray1[i]);
-        SwapShardValues(start1 + i, bitArray1[i], shards[simulator.get()]);
+        std::swap(q1, q2);
     }
+    MapRegister(simulator, start1, n1, q1);
     if ((start1 + n1) > start2) {
         start2 = start1 + n1;
     }
-    for (uintq i = 0U; i < n2; ++i) {
-        simulator->Swap(start2 + i, bitArray2[i]);
-        SwapShardValues(start2 + i, bitArray2[i], shards[simulator.get()]);
-    }
+    MapRegister(simulator, start2, n2, q2);
     if (isReversed) {
         std::swap(start1, start2);
     }
     return MapArithmeticResult2(start1, start2);
 }
 
+MapArithmeticResult2 MapArithmetic2(QInterfacePtr simulator, uintq n, uintq* q1, uintq* q2)
+{
+    return MapArithmetic3(simulator, n, q1, n, q2);
+}
+
 void _darray_to_creal1_array(double* params, bitCapIntOcl componentCount, complex* amps)
 {
     for (bitCapIntOcl j = 0U; j < componentCount; ++j) {
-- 
2.43.0


From de3e3304baf5be4c7ed3e5c984b7dd5da060efe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 098/117] fix: keep the qubit ID map in step with the swaps of
 the C API's Decompose, Dispose and Separate

---
 src/pinvoke_api.cpp | 68 +++++++++++++++------------------------------
 1 file changed, 23 insertions(+), 45 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index cf35e6f..64d68bc 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -2286,60 +2286,44 @@ MICROSOFT_QUANTUM_DECL uintq Decompose(_In_ uintq sid, _In_ uintq n, _In_reads_(
 
     SIMULATOR_LOCK_GUARD_INT(sid)
 
-    bitLenInt nQubitIndex = 0U;
-
     try {
-        nQubitIndex = simulator->GetQubitCount() - n;
+        ThrowIfQubitIdsAreBad(simulator, n, q);
+
+        const bitLenInt nQubitIndex = simulator->GetQubitCount() - n;
+        MapRegister(simulator, nQubitIndex, n, q);
+        simulator->Decompose(nQubitIndex, simulators[nSid]);
 
+        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
         for (uintq i = 0U; i < n; ++i) {
-            simulator->Swap(GetSimShardId(simulator, q[i]), i + nQubitIndex);
+            simShards.erase(q[i]);
         }
-
-        simulator->Decompose(nQubitIndex, simulators[nSid]);
     } catch (const std::exception& ex) {
         std::cout << ex.what() << std::endl;
         simulatorErrors[sid] = 1;
         simulatorErrors[nSid] = 1;
     }
 
-    for (uintq j = 0U; j < n; ++j) {
-        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
-        bitLenInt oIndex = simShards[q[j]];
-        for (auto it = simShards.begin(); it != simShards.end(); ++it) {
-            if (it->second > oIndex) {
-                --(it->second);
-            }
-        }
-        simShards.erase(q[j]);
-    }
-
     return nSid;
 }
 
 MICROSOFT_QUANTUM_DECL void Dispose(_In_ uintq sid, _In_ uintq n, _In_reads_(n) uintq* q)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    bitLenInt nQubitIndex = 0U;
     try {
-        nQubitIndex = simulator->GetQubitCount() - n;
+        ThrowIfQubitIdsAreBad(simulator, n, q);
+
+        const bitLenInt nQubitIndex = simulator->GetQubitCount() - n;
+        MapRegister(simulator, nQubitIndex, n, q);
+        simulator->Dispose(nQubitIndex, n);
+
+        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
         for (uintq i = 0U; i < n; ++i) {
-            simulator->Swap(GetSimShardId(simulator, q[i]), i + nQubitIndex);
+            simShards.erase(q[i]);
         }
-        simulator->Dispose(nQubitIndex, n);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
     }
-    for (uintq j = 0U; j < n; ++j) {
-        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
-        bitLenInt oIndex = simShards[q[j]];
-        for (auto it = simShards.begin(); it != simShards.end(); ++it) {
-            if (it->second > oIndex) {
-                --(it->second);
-            }
-        }
-        simShards.erase(q[j]);
-    }
 }
 
 MICROSOFT_QUANTUM_DECL void AND(_In_ uintq sid, _In_ uintq qi1, _In_ uintq qi2, _In_ uintq qo)
@@ -3343,27 +3327,21 @@ MICROSOFT_QUANTUM_DECL void Separate(_In_ uintq sid, _In_ uintq n, _In_reads_(n)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
-    std::vector<bitLenInt> bitArray(n);
-    for (uintq i = 0U; i < n; ++i) {
-        bitArray[i] = GetSimShardId(simulator, q[i]);
-    }
+    try {
+        ThrowIfQubitIdsAreBad(simulator, n, q);
 
-    const bitLenInt end = simulator->GetQubitCount() - 1U;
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(end - i, bitArray[i]);
-    }
+        const bitLenInt start = simulator->GetQubitCount() - n;
+        if (!n || !start) {
+            return;
+        }
 
-    try {
-        QInterfacePtr partSim = simulator->Decompose(end - n, n);
+        MapRegister(simulator, start, n, q);
+        QInterfacePtr partSim = simulator->Decompose(start, n);
         simulator->Compose(partSim);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
     }
-
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(end - i, bitArray[i]);
-    }
 }
 
 MICROSOFT_QUANTUM_DECL double GetUnitaryFidelity(_In_ uintq sid)
-- 
2.43.0


From d886586d9d712b0bb6528e17f4007fd7e7f9ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 099/117] fix: keep the qubit IDs of the original in init_clone

---
 src/pinvoke_api.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 64d68bc..276dadd 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -886,7 +886,10 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
         simulatorErrors[nsid] = isSuccess ? 0 : 1;
     }
 
-    FillSimShards(simulator);
+    if (simulator) {
+        // The clone's qubits keep the IDs of the original.
+        shards[simulator.get()] = shards[oSimulator.get()];
+    }
 
     return nsid;
 }
-- 
2.43.0


From a9179bd8f1cc36d7ac95e6cd8214535cae8b9474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 100/117] fix: refuse to allocate an existing, or release an
 unknown, qubit ID in the C API

---
 src/pinvoke_api.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 276dadd..4d44972 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -1296,6 +1296,16 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
         return;
     }
 
+    if (simulators[sid]) {
+        const std::map<uintq, bitLenInt>& s = shards[simulators[sid].get()];
+        if (s.find(qid) != s.end()) {
+            std::cout << "Qubit ID is already allocated!" << std::endl;
+            simulatorErrors[sid] = 1;
+
+            return;
+        }
+    }
+
     QInterfacePtr nQubit = CreateQuantumInterface(
         simulatorTypes[sid], 1U, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, simulatorHostPointer[sid]);
 
@@ -1318,6 +1328,8 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
+
+        return;
     }
 
     shards[simulators[sid].get()][qid] = (qubitCount - 1U);
@@ -1341,6 +1353,17 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
     std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
         new const std::lock_guard<std::mutex>(simulatorMutexes[simulator.get()]));
 
+    if (!simulator) {
+        return false;
+    }
+
+    if (shards[simulator.get()].find(q) == shards[simulator.get()].end()) {
+        std::cout << "Qubit ID is out-of-bounds!" << std::endl;
+        simulatorErrors[sid] = 1;
+
+        return false;
+    }
+
     // Check that the qubit is in the |0> state, to within a small tolerance.
     bool toRet = simulator->Prob(GetSimShardId(simulator, q)) < (ONE_R1 / 100);
 
-- 
2.43.0


From eb3f0e235feaaba1c0676abfee1122d50ecd8d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 101/117] fix: leave both simulators intact when the C API's
 Compose fails

---
 src/pinvoke_api.cpp | 53 +++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 4d44972..704a83c 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -2264,46 +2264,53 @@ MICROSOFT_QUANTUM_DECL void ACSWAP(_In_ uintq sid, _In_ uintq n, _In_reads_(n) u
 
 MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
 {
+    META_LOCK_GUARD()
+
+    if ((sid1 >= simulators.size()) || (sid2 >= simulators.size())) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     if (!simulators[sid1] || !simulators[sid2]) {
         return;
     }
 
-    const std::lock_guard<std::mutex> simulatorLock1(simulatorMutexes[simulators[sid1].get()]);
-    const std::lock_guard<std::mutex> simulatorLock2(simulatorMutexes[simulators[sid2].get()]);
+    QInterfacePtr simulator1 = simulators[sid1];
+    QInterfacePtr simulator2 = simulators[sid2];
+
+    // (The meta-operation lock prevents dead-lock on the order of the simulator locks.)
+    const std::lock_guard<std::mutex> simulatorLock1(simulatorMutexes[simulator1.get()]);
+    std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock2;
+    if (simulator1 != simulator2) {
+        simulatorLock2 = std::unique_ptr<const std::lock_guard<std::mutex>>(
+            new const std::lock_guard<std::mutex>(simulatorMutexes[simulator2.get()]));
+    }
 
-    if (simulatorTypes[sid1].size() != simulatorTypes[sid2].size()) {
+    if (simulatorTypes[sid1] != simulatorTypes[sid2]) {
         metaError = 2;
         std::cout << "Cannot 'Compose()' simulators of different layer stack types!" << std::endl;
 
         return;
     }
 
-    for (size_t i = 0U; i < simulatorTypes[sid1].size(); ++i) {
-        if (simulatorTypes[sid1][i] != simulatorTypes[sid2][i]) {
-            metaError = 2;
-            std::cout << "Cannot 'Compose()' simulators of different layer stack types!" << std::endl;
-
-            return;
-        }
-    }
-
-    QInterfacePtr simulator1 = simulators[sid1];
-    QInterfacePtr simulator2 = simulators[sid2];
-    bitLenInt oQubitCount = 0U;
-    bitLenInt pQubitCount = 0U;
     try {
-        oQubitCount = simulator1->GetQubitCount();
-        pQubitCount = simulator2->GetQubitCount();
-        simulator1->Compose(simulator2);
+        std::map<uintq, bitLenInt> s = shards[simulator1.get()];
+        const bitLenInt oQubitCount = simulator1->GetQubitCount();
+        const bitLenInt pQubitCount = simulator2->GetQubitCount();
+        for (bitLenInt i = 0U; i < pQubitCount; ++i) {
+            if (!s.insert(std::make_pair(q[i], (bitLenInt)(oQubitCount + i))).second) {
+                throw std::invalid_argument("Qubit ID is already allocated!");
+            }
+        }
+        simulator1->Compose((simulator1 == simulator2) ? simulator2->Clone() : simulator2);
+        shards[simulator1.get()] = s;
     } catch (const std::exception& ex) {
         std::cout << ex.what() << std::endl;
         simulatorErrors[sid1] = 1;
         simulatorErrors[sid2] = 1;
     }
-    std::map<uintq, bitLenInt>& s = shards[simulator1.get()];
-    for (bitLenInt i = 0; i < pQubitCount; ++i) {
-        s[q[i]] = oQubitCount + i;
-    }
 }
 
 MICROSOFT_QUANTUM_DECL uintq Decompose(_In_ uintq sid, _In_ uintq n, _In_reads_(n) uintq* q)
-- 
2.43.0


From cc64c3f091088ce9eaaee6d79b054b6b60911afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 102/117] fix: don't let exceptions escape the C API's
 expectation values and qcircuit_run

---
 src/pinvoke_api.cpp | 57 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 704a83c..f4c0eea 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -2807,7 +2807,15 @@ double UnitaryExpVar(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b)
             _b.emplace_back(b[i3 + j]);
         }
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
+
+    try {
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
+    }
 }
 
 /**
@@ -2844,7 +2852,15 @@ double MatrixExpVar(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b)
             _b[i].get()[j] = complex((real1)b[i8 + j2], (real1)b[i8 + j2 + 1U]);
         }
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
+
+    try {
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
+    }
 }
 
 /**
@@ -2886,7 +2902,15 @@ double UnitaryExpVarEigenVal(bool isExp, uintq sid, uintq n, uintq* q, real1_s*
             _b.emplace_back(b[i3 + j]);
         }
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
+
+    try {
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
+    }
 }
 
 /**
@@ -2930,7 +2954,15 @@ double MatrixExpVarEigenVal(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b
             _b[i].get()[j] = complex((real1)b[i8 + j2], (real1)b[i8 + j2 + 1U]);
         }
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
+
+    try {
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
+    }
 }
 
 /**
@@ -2962,7 +2994,15 @@ double PauliExpVar(bool isExp, uintq sid, uintq n, uintq* q, uintq* b)
         _q.emplace_back(GetSimShardId(simulator, q[i]));
         _b.emplace_back((Pauli)b[i]);
     }
-    return (double)(isExp ? simulator->ExpectationPauliAll(_q, _b) : simulator->VariancePauliAll(_q, _b));
+
+    try {
+        return (double)(isExp ? simulator->ExpectationPauliAll(_q, _b) : simulator->VariancePauliAll(_q, _b));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
+    }
 }
 
 /**
@@ -3853,7 +3893,12 @@ MICROSOFT_QUANTUM_DECL void qcircuit_append_mc(
 MICROSOFT_QUANTUM_DECL void qcircuit_run(_In_ uintq cid, _In_ uintq sid)
 {
     CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)
-    circuit->Run(simulator);
+    try {
+        circuit->Run(simulator);
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+    }
 }
 
 MICROSOFT_QUANTUM_DECL void qcircuit_out_to_file(_In_ uintq cid, _In_ char* f)
-- 
2.43.0


From 230789d997356e39b05bb79c704eebbf5382c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 103/117] fix: order control permutation bits by sorted control
 in qcircuit_append_mc

---
 src/pinvoke_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index f4c0eea..fa11701 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -3881,7 +3881,7 @@ MICROSOFT_QUANTUM_DECL void qcircuit_append_mc(
     bitCapInt _p = ZERO_BCI;
     std::set<bitLenInt> ctrls;
     for (uintq i = 0U; i < n; ++i) {
-        bi_or_ip(&_p, ((p >> i) & 1U) << indices[i]);
+        bi_or_ip(&_p, ((p >> indices[i]) & 1U) << i);
         ctrls.insert(c[i]);
     }
 
-- 
2.43.0


From b4e347743b579f2c69af4e01869b0a4e99349e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 104/117] fix: shift by the width of a word when the C API
 combines words to integers

---
 src/pinvoke_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index fa11701..b2b06eb 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -576,7 +576,7 @@ bitCapInt _combineA(uintq na, const uintq* a)
 #if QBCAPPOW > 6
     bitCapInt aTot = ZERO_BCI;
     for (uintq i = 0U; i < na; ++i) {
-        bi_lshift_ip(&aTot, bitsInCap);
+        bi_lshift_ip(&aTot, 8U * sizeof(uintq));
         bi_or_ip(&aTot, a[na - (i + 1U)]);
     }
 
-- 
2.43.0


From 5844945971188cacaab05b314527155cab9cd2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 105/117] fix: refuse more qubits than can be counted when the
 C API initializes a simulator

---
 src/pinvoke_api.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index b2b06eb..17cfe9f 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -319,6 +319,10 @@ bitLenInt GetSimShardId(QInterfacePtr simulator, uintq i)
 
 void FillSimShards(QInterfacePtr simulator)
 {
+    if (!simulator) {
+        return;
+    }
+
     shards[simulator.get()] = {};
     std::map<uintq, bitLenInt>& s = shards[simulator.get()];
     for (uintq i = 0U; i < simulator->GetQubitCount(); ++i) {
@@ -564,6 +568,13 @@ void _darray_to_creal1_array(double* params, bitCapIntOcl componentCount, comple
     }
 }
 
+void ThrowIfTooManyQubits(uintq q)
+{
+    if (q > (uintq)((bitLenInt)-1)) {
+        throw std::invalid_argument("Too many qubits for bitLenInt!");
+    }
+}
+
 bitCapInt _combineA(uintq na, const uintq* a)
 {
     if (na > (bitsInCap / (8U * sizeof(uintq)))) {
@@ -679,6 +690,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count_type(_In_ uintq q, _In_ bool tn, _In_ bo
     QInterfacePtr simulator{ nullptr };
     if (q) {
         try {
+            ThrowIfTooManyQubits(q);
             simulator =
                 CreateQuantumInterface(simulatorType, q, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, hp);
         } catch (const std::exception& ex) {
@@ -733,6 +745,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count(_In_ uintq q, _In_ bool hp)
     QInterfacePtr simulator{ nullptr };
     if (q) {
         try {
+            ThrowIfTooManyQubits(q);
             simulator =
                 CreateQuantumInterface(simulatorType, q, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, hp);
         } catch (const std::exception& ex) {
@@ -804,6 +817,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count_pager(_In_ uintq q, _In_ bool hp)
     QInterfacePtr simulator{ nullptr };
     if (q) {
         try {
+            ThrowIfTooManyQubits(q);
             simulator = CreateQuantumInterface(simulatorType, q, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true,
                 hp, -1, true, false, REAL1_EPSILON, deviceList, 0, FP_NORM_EPSILON_F);
         } catch (const std::exception& ex) {
-- 
2.43.0


From 344b0b6b0cfbadcfd5b705cf5a939c6eb07f6a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 106/117] fix: argument order of the classical/quantum logic
 gates of the C API

---
 src/pinvoke_api.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 17cfe9f..f0781c9 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -2443,7 +2443,7 @@ MICROSOFT_QUANTUM_DECL void CLAND(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLAND(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLAND(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2454,7 +2454,7 @@ MICROSOFT_QUANTUM_DECL void CLOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _I
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2465,7 +2465,7 @@ MICROSOFT_QUANTUM_DECL void CLXOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLXOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLXOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2476,7 +2476,7 @@ MICROSOFT_QUANTUM_DECL void CLNAND(_In_ uintq sid, _In_ bool ci, _In_ uintq qi,
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLNAND(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLNAND(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2487,7 +2487,7 @@ MICROSOFT_QUANTUM_DECL void CLNOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLNOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLNOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2498,7 +2498,7 @@ MICROSOFT_QUANTUM_DECL void CLXNOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi,
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLXNOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLXNOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
-- 
2.43.0


From 69d77fabc54de727eb74a9bae26671f0290ede8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 107/117] fix: check all qubits of QFTR and IQFTR before
 changing the state

---
 src/qinterface/qinterface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index b9506ed..a5e1163 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -157,6 +157,9 @@ void QInterface::QFTR(const std::vector<bitLenInt>& qubits, bool trySeparate)
         return;
     }
 
+    ThrowIfQbIdArrayIsBad(qubits, qubitCount,
+        "QInterface::QFTR parameter qubits array values must be within allocated qubit bounds!");
+
     const bitLenInt end = (qubits.size() - 1U);
     for (size_t i = 0U; i < qubits.size(); ++i) {
         H(qubits[end - i]);
@@ -177,6 +180,9 @@ void QInterface::IQFTR(const std::vector<bitLenInt>& qubits, bool trySeparate)
         return;
     }
 
+    ThrowIfQbIdArrayIsBad(qubits, qubitCount,
+        "QInterface::IQFTR parameter qubits array values must be within allocated qubit bounds!");
+
     for (size_t i = 0U; i < qubits.size(); ++i) {
         for (size_t j = 0U; j < i; ++j) {
             CIPhaseRootN(j + 2U, qubits[i - (j + 1U)], qubits[i]);
-- 
2.43.0


From 4c6712926920a53ee344cb820389c9260a0f200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 108/117] fix: bounds-check QUnitClifford::TrySeparate

---
 src/qunitclifford.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index aef72b1..3e9b33c 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -817,6 +817,8 @@ real1_f QUnitClifford::SumSqrDiff(QUnitCliffordPtr toCompare)
 
 bool QUnitClifford::TrySeparate(bitLenInt qubit)
 {
+    ThrowIfQubitInvalid(qubit, std::string("QUnitClifford::TrySeparate"));
+
     CliffordShard& shard = shards[qubit];
 
     if (shard.unit->GetQubitCount() <= 1U) {
-- 
2.43.0


From df7854f50c0e1383322c94e02b8f02adfec38c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 109/117] fix: default engine of QStabilizerHybrid in builds
 without GPU

---
 include/qstabilizerhybrid.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 5518549..5ab1484 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -418,8 +418,13 @@ public:
         bool useHostMem = false, int64_t deviceId = -1, bool useHardwareRNG = true, bool ignored = false,
         real1_f norm_thresh = REAL1_EPSILON, std::vector<int64_t> devList = {}, bitLenInt qubitThreshold = 0U,
         real1_f separation_thresh = _qrack_qunit_sep_thresh)
+#if ENABLE_OPENCL || ENABLE_CUDA
         : QStabilizerHybrid({ QINTERFACE_HYBRID }, qBitCount, initState, rgp, phaseFac, doNorm, randomGlobalPhase,
               useHostMem, deviceId, useHardwareRNG, ignored, norm_thresh, devList, qubitThreshold, separation_thresh)
+#else
+        : QStabilizerHybrid({ QINTERFACE_OPTIMAL_BASE }, qBitCount, initState, rgp, phaseFac, doNorm, randomGlobalPhase,
+              useHostMem, deviceId, useHardwareRNG, ignored, norm_thresh, devList, qubitThreshold, separation_thresh)
+#endif
     {
     }
 
-- 
2.43.0


From 5e63e9c243eee02d39821ddfa5a30472a175a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 110/117] fix: create QInterfaceNoisy with its default layers
 when none are given

---
 include/qfactory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/qfactory.hpp b/include/qfactory.hpp
index 82de930..26162e9 100644
--- a/include/qfactory.hpp
+++ b/include/qfactory.hpp
@@ -246,7 +246,10 @@ template <typename... Ts> QInterfacePtr CreateQuantumInterface(std::vector<QInte
     case QINTERFACE_CPU:
         return std::make_shared<QEngineCPU>(args...);
     case QINTERFACE_NOISY:
-        return std::make_shared<QInterfaceNoisy>(engines, args...);
+        if (engines.size()) {
+            return std::make_shared<QInterfaceNoisy>(engines, args...);
+        }
+        return std::make_shared<QInterfaceNoisy>(args...);
     default:
         throw std::invalid_argument("CreateQuantumInterface received a request to create a nonexistent type instance!");
     }
-- 
2.43.0


From 7580c51d139f96b9fb431eb3050241cdf3988d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 111/117] fix: QUnit::IndexedLDA() left stale cached states of
 collapsed qubits

---
 src/qunit.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 684ce9d..c7c4e79 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3536,11 +3536,16 @@ bitCapInt QUnit::IndexedLDA(bitLenInt indexStart, bitLenInt indexLength, bitLenI
 #endif
     }
 
+    if (resetValue) {
+        // This measures, and that can collapse qubits of the unit that we wouldn't mark as "dirty" below.
+        SetReg(valueStart, valueLength, ZERO_BCI);
+    }
+
     EntangleRange(indexStart, indexLength, valueStart, valueLength);
 
     const bitCapInt toRet = std::dynamic_pointer_cast<QAlu>(shards[indexStart].unit)
                                 ->IndexedLDA(shards[indexStart].mapped, indexLength, shards[valueStart].mapped,
-                                    valueLength, values, resetValue);
+                                    valueLength, values, false);
 
     DirtyShardRangePhase(indexStart, indexLength);
     DirtyShardRange(valueStart, valueLength);
-- 
2.43.0


From 44850255d2f0db8ad83ea237b23ceebe59ec3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 112/117] fix: QUnit::IndexedADC()/IndexedSBC() left stale
 cached states of collapsed qubits

---
 src/qunit.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index c7c4e79..446200b 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3591,6 +3591,9 @@ bitCapInt QUnit::IndexedADC(bitLenInt indexStart, bitLenInt indexLength, bitLenI
         return ZERO_BCI;
     }
 #endif
+    // The engine measures the carry, and that can collapse qubits of its unit that we wouldn't mark as "dirty" below.
+    M(carryIndex);
+
     EntangleRange(indexStart, indexLength, valueStart, valueLength, carryIndex, 1);
 
     const bitCapInt toRet = std::dynamic_pointer_cast<QAlu>(shards[indexStart].unit)
@@ -3642,6 +3645,9 @@ bitCapInt QUnit::IndexedSBC(bitLenInt indexStart, bitLenInt indexLength, bitLenI
         return ZERO_BCI;
     }
 #endif
+    // The engine measures the carry, and that can collapse qubits of its unit that we wouldn't mark as "dirty" below.
+    M(carryIndex);
+
     EntangleRange(indexStart, indexLength, valueStart, valueLength, carryIndex, 1);
 
     const bitCapInt toRet = std::dynamic_pointer_cast<QAlu>(shards[indexStart].unit)
-- 
2.43.0


From f1aafd94a38e70f56f8946811e9180cfb2634ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 113/117] fix: QEngine::MultiShotMeasureMask() ignored the
 random seed of the simulator

---
 include/qengine.hpp     |  3 +++
 src/qengine/qengine.cpp | 50 ++++++++++++++++++-----------------------
 2 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/include/qengine.hpp b/include/qengine.hpp
index 6c5f4ce..1bf4bf6 100644
--- a/include/qengine.hpp
+++ b/include/qengine.hpp
@@ -65,6 +65,9 @@ protected:
         return true;
     }
 
+    /// Sample a permutation index from (unnormalized) cumulative probabilities.
+    bitCapIntOcl SampleCumulative(const std::vector<double>& cumulative);
+
     void EitherMtrx(const std::vector<bitLenInt>& controls, const complex* mtrx, bitLenInt target, bool isAnti);
 
     virtual void Copy(QInterfacePtr orig) { Copy(std::dynamic_pointer_cast<QEngine>(orig)); }
diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 9d97661..9701c8f 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -13,6 +13,7 @@
 #include "qengine.hpp"
 
 #include <algorithm>
+#include <numeric>
 
 namespace Qrack {
 
@@ -535,6 +536,18 @@ bitCapInt QEngine::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt&
     return result;
 }
 
+bitCapIntOcl QEngine::SampleCumulative(const std::vector<double>& cumulative)
+{
+    // (A sample depends only on the random generator of this simulator, and it never has probability of 0.)
+    const double rnd = (double)Rand() * cumulative.back();
+    auto pick = std::upper_bound(cumulative.begin(), cumulative.end(), rnd);
+    if (pick == cumulative.end()) {
+        pick = std::lower_bound(cumulative.begin(), cumulative.end(), cumulative.back());
+    }
+
+    return (bitCapIntOcl)std::distance(cumulative.begin(), pick);
+}
+
 std::map<bitCapInt, int> QEngine::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned shots)
 {
     if (!shots) {
@@ -550,25 +563,12 @@ std::map<bitCapInt, int> QEngine::MultiShotMeasureMask(const std::vector<bitCapI
     const bitCapIntOcl maskMaxQPower = pow2Ocl(qPowers.size());
     std::vector<real1> maskProbsVec((bitCapIntOcl)maskMaxQPower);
     ProbBitsAll(bitMap, &(maskProbsVec[0]));
-    std::discrete_distribution<bitCapIntOcl> dist(maskProbsVec.begin(), maskProbsVec.end());
+    std::vector<double> cumulative(maskProbsVec.begin(), maskProbsVec.end());
+    std::partial_sum(cumulative.begin(), cumulative.end(), cumulative.begin());
 
-    std::random_device rd;
-    std::vector<std::mt19937> genVec;
-    const unsigned numThreads = GetConcurrencyLevel();
-    genVec.reserve(numThreads);
-    for (unsigned i = 0U; i < numThreads; ++i) {
-        genVec.emplace_back(rd());
-    }
-    std::vector<std::map<bitCapInt, int>> resultsVec(numThreads);
-
-    par_for(0, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) { ++(resultsVec[cpu][dist(genVec[cpu])]); });
-
-    std::map<bitCapInt, int> results(resultsVec[0U]);
-    for (size_t i = 1U; i < resultsVec.size(); ++i) {
-        const std::map<bitCapInt, int>& toAdd = resultsVec[i];
-        for (auto const& kv : toAdd) {
-            results[kv.first] += kv.second;
-        }
+    std::map<bitCapInt, int> results;
+    for (unsigned shot = 0U; shot < shots; ++shot) {
+        ++(results[SampleCumulative(cumulative)]);
     }
 
     return results;
@@ -590,18 +590,12 @@ void QEngine::MultiShotMeasureMask(
     const bitCapIntOcl maskMaxQPower = pow2Ocl(qPowers.size());
     std::vector<real1> maskProbsVec((bitCapIntOcl)maskMaxQPower);
     ProbBitsAll(bitMap, &(maskProbsVec[0]));
-    std::discrete_distribution<bitCapIntOcl> dist(maskProbsVec.begin(), maskProbsVec.end());
+    std::vector<double> cumulative(maskProbsVec.begin(), maskProbsVec.end());
+    std::partial_sum(cumulative.begin(), cumulative.end(), cumulative.begin());
 
-    std::random_device rd;
-    std::vector<std::mt19937> genVec;
-    const unsigned numThreads = GetConcurrencyLevel();
-    genVec.reserve(numThreads);
-    for (unsigned i = 0U; i < numThreads; ++i) {
-        genVec.emplace_back(rd());
+    for (unsigned shot = 0U; shot < shots; ++shot) {
+        shotsArray[shot] = SampleCumulative(cumulative);
     }
-
-    par_for(0, shots,
-        [&](const bitCapIntOcl& shot, const unsigned& cpu) { shotsArray[shot] = (unsigned)dist(genVec[cpu]); });
 }
 
 } // namespace Qrack
-- 
2.43.0


From cad46cca8682893e33b683b21a997f656f6878a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 114/117] fix: QStabilizerHybrid::MultiShotMeasureMask()
 shuffled samples without the random seed of the simulator

---
 include/qstabilizerhybrid.hpp |  1 -
 src/qstabilizerhybrid.cpp     | 11 ++++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 5ab1484..1064a3f 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -69,7 +69,6 @@ protected:
     std::vector<QInterfaceEngine> cloneEngineTypes;
     std::vector<MpsShardPtr> shards;
     QUnitStateVectorPtr stateMapCache;
-    std::default_random_engine prng;
 
     QUnitCliffordPtr MakeStabilizer(const bitCapInt& perm = ZERO_BCI);
     QInterfacePtr MakeEngine(const bitCapInt& perm = ZERO_BCI);
diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index a7483ca..cae0116 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -67,7 +67,6 @@ QStabilizerHybrid::QStabilizerHybrid(std::vector<QInterfaceEngine> eng, bitLenIn
     , cloneEngineTypes(eng)
     , shards(qubitCount)
     , stateMapCache{ nullptr }
-    , prng(std::random_device{}())
 {
 #if ENABLE_OPENCL || ENABLE_CUDA
     const size_t devCount = QRACK_GPU_SINGLETON.GetDeviceCount();
@@ -1841,7 +1840,10 @@ std::map<bitCapInt, int> QStabilizerHybrid::MultiShotMeasureMask(const std::vect
             shotsArray[shot + (shots - rng.size())] = _d;                                                              \
         }                                                                                                              \
     }                                                                                                                  \
-    std::shuffle(shotsArray, shotsArray + shots, prng);                                                                \
+    for (size_t _s = shots - 1U; _s > 0U; --_s) {                                                                      \
+        const size_t _r = (size_t)((_s + 1U) * Rand());                                                                \
+        std::swap(shotsArray[_s], shotsArray[(_r > _s) ? _s : _r]);                                                    \
+    }                                                                                                                  \
     stateMapCache = nullptr;
 #else
 #define FILL_REMAINING_ARRAY_SHOTS()                                                                                   \
@@ -1851,7 +1853,10 @@ std::map<bitCapInt, int> QStabilizerHybrid::MultiShotMeasureMask(const std::vect
             shotsArray[shot + (shots - rng.size())] = _d;                                                              \
         }                                                                                                              \
     }                                                                                                                  \
-    std::shuffle(shotsArray, shotsArray + shots, prng);                                                                \
+    for (size_t _s = shots - 1U; _s > 0U; --_s) {                                                                      \
+        const size_t _r = (size_t)((_s + 1U) * Rand());                                                                \
+        std::swap(shotsArray[_s], shotsArray[(_r > _s) ? _s : _r]);                                                    \
+    }                                                                                                                  \
     stateMapCache = nullptr;
 #endif
 
-- 
2.43.0


From 4ba1501e891aeebb6a0e091b57f01cc27818a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 115/117] fix: QUnit::SetQuantumState() refused 1-qubit |-i> as
 having fidelity of 0

---
 src/qunit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 446200b..87d7eb6 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -176,7 +176,7 @@ void QUnit::SetQuantumState(const complex* inputState)
             shard.amp0 /= abs(shard.amp0);
             shard.amp1 = ZERO_R1;
         } else if (IS_AMP_0((I_CMPLX * in0) + in1)) {
-            logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * in0) - in1)));
+            logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * in0) + in1)));
             shard.pauliBasis = PauliY;
             shard.amp1 = shard.amp0 / abs(shard.amp0);
             shard.amp0 = ZERO_R1;
-- 
2.43.0


From bbf41f6508d6117c4ce136cdf4d007892918a66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 116/117] fix: QUnit::MultiShotMeasureMask() samples depended
 on heap addresses of units

---
 src/qunit.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 87d7eb6..59c49e8 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1543,6 +1543,8 @@ std::map<bitCapInt, int> QUnit::MultiShotMeasureMask(const std::vector<bitCapInt
     ThrowIfQbIdArrayIsBad(qIndices, qubitCount,
         "QInterface::MultiShotMeasureMask parameter qPowers array values must be within allocated qubit bounds!");
 
+    // (Units are in order of query, since samples should not depend on where units happen to be allocated.)
+    std::vector<QInterfacePtr> subUnits;
     std::map<QInterfacePtr, std::vector<bitCapInt>> subQPowers;
     std::map<QInterfacePtr, std::vector<bitCapInt>> subIQPowers;
     std::vector<bitLenInt> singleBits;
@@ -1556,20 +1558,24 @@ std::map<bitCapInt, int> QUnit::MultiShotMeasureMask(const std::vector<bitCapInt
             continue;
         }
 
-        subQPowers[shard.unit].push_back(pow2(shard.mapped));
+        std::vector<bitCapInt>& unitQPowers = subQPowers[shard.unit];
+        if (unitQPowers.empty()) {
+            subUnits.push_back(shard.unit);
+        }
+        unitQPowers.push_back(pow2(shard.mapped));
         subIQPowers[shard.unit].push_back(iQPowers[index]);
     }
 
     std::map<bitCapInt, int> combinedResults;
     combinedResults[ZERO_BCI] = (int)shots;
 
-    for (const auto& subQPower : subQPowers) {
-        QInterfacePtr unit = subQPower.first;
-        std::map<bitCapInt, int> unitResults = unit->MultiShotMeasureMask(subQPower.second, shots);
+    for (const QInterfacePtr& unit : subUnits) {
+        const std::vector<bitCapInt>& unitQPowers = subQPowers[unit];
+        std::map<bitCapInt, int> unitResults = unit->MultiShotMeasureMask(unitQPowers, shots);
         std::map<bitCapInt, int> topLevelResults;
         for (const auto& unitResult : unitResults) {
             bitCapInt mask = ZERO_BCI;
-            for (size_t i = 0U; i < subQPower.second.size(); ++i) {
+            for (size_t i = 0U; i < unitQPowers.size(); ++i) {
                 if (bi_and_1(unitResult.first >> i)) {
                     bi_or_ip(&mask, subIQPowers[unit][i]);
                 }
-- 
2.43.0


From 13e978f32d437018e9636aff42c69b7b7ca43b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 117/117] fix: QUnitClifford::MultiShotMeasureMask() samples
 depended on heap addresses of units

---
 src/qunitclifford.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 3e9b33c..52ba25c 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -616,6 +616,8 @@ std::map<bitCapInt, int> QUnitClifford::MultiShotMeasureMask(const std::vector<b
     ThrowIfQbIdArrayIsBad(qIndices, qubitCount,
         "QUnitClifford::MultiShotMeasureMask parameter qPowers array values must be within allocated qubit bounds!");
 
+    // (Units are in order of query, since samples should not depend on where units happen to be allocated.)
+    std::vector<QStabilizerPtr> subUnits;
     std::map<QStabilizerPtr, std::vector<bitCapInt>> subQPowers;
     std::map<QStabilizerPtr, std::vector<bitCapInt>> subIQPowers;
 
@@ -623,20 +625,24 @@ std::map<bitCapInt, int> QUnitClifford::MultiShotMeasureMask(const std::vector<b
         index = qIndices[i];
         CliffordShard& shard = shards[index];
 
-        subQPowers[shard.unit].push_back(pow2(shard.mapped));
+        std::vector<bitCapInt>& unitQPowers = subQPowers[shard.unit];
+        if (unitQPowers.empty()) {
+            subUnits.push_back(shard.unit);
+        }
+        unitQPowers.push_back(pow2(shard.mapped));
         subIQPowers[shard.unit].push_back(iQPowers[index]);
     }
 
     std::map<bitCapInt, int> combinedResults;
     combinedResults[ZERO_BCI] = (int)shots;
 
-    for (const auto& subQPower : subQPowers) {
-        QStabilizerPtr unit = subQPower.first;
-        std::map<bitCapInt, int> unitResults = unit->MultiShotMeasureMask(subQPower.second, shots);
+    for (const QStabilizerPtr& unit : subUnits) {
+        const std::vector<bitCapInt>& unitQPowers = subQPowers[unit];
+        std::map<bitCapInt, int> unitResults = unit->MultiShotMeasureMask(unitQPowers, shots);
         std::map<bitCapInt, int> topLevelResults;
         for (const auto& unitResult : unitResults) {
             bitCapInt mask = ZERO_BCI;
-            for (size_t i = 0U; i < subQPower.second.size(); ++i) {
+            for (size_t i = 0U; i < unitQPowers.size(); ++i) {
                 if (bi_and_1(unitResult.first >> i)) {
                     bi_or_ip(&mask, subIQPowers[unit][i]);
                 }
-- 
2.43.0

