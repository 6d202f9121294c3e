From 23284c3ca04756b2ecbfe3642e070cb2b9d0dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 01/22] fix: Z2k mask when K equals the width of the value type

Shifting 1 by the width of the type is undefined, so arithmetic modulo 2^64
and 2^128 depended on the compiler.
---
 secure-computation-library/include/scl/math/z2k/details.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index 039b729..c59b2ee 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -95,7 +95,7 @@ void InvertZ2k(T& v) {
   v = z;
 }
 
-#define _SCL_MASK(T, K) ((static_cast<T>(1) << K) - 1)
+#define _SCL_MASK(T, K) (static_cast<T>(-1) >> (sizeof(T) * 8 - (K)))
 
 /**
  * @brief Compute equality modulo a power of 2.
-- 
2.43.0


From f5765f7121058a83682001b73b2f5bc5243f0bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 02/22] fix: reading a Z2k element accessed more than
 ByteSize() bytes

---
 secure-computation-library/include/scl/math/z2k/details.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index c59b2ee..2b4acb3 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -110,7 +110,8 @@ bool EqualZ2k(const T& a, const T& b) {
  */
 template <typename T, std::size_t K, std::enable_if_t<(K <= 128), bool> = true>
 void ReadZ2k(T& v, const unsigned char* src) {
-  v = *(const T*)src;
+  v = 0;
+  std::memcpy(&v, src, (K - 1) / 8 + 1);
   v &= _SCL_MASK(T, K);
 }
 
-- 
2.43.0


From a5f3c1156987fe391bab7e2274e5d762c3a5a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 03/22] fix: field elements parsed from strings were not
 reduced modulo p

---
 secure-computation-library/src/scl/math/fields/mersenne127.cc | 1 +
 secure-computation-library/src/scl/math/fields/mersenne61.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/secure-computation-library/src/scl/math/fields/mersenne127.cc b/secure-computation-library/src/scl/math/fields/mersenne127.cc
index ba81252..e90c7db 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne127.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne127.cc
@@ -28,6 +28,7 @@ void _::Invert(u128 &t) {
 void _::FromString(u128 &dest, const std::string &str,
                    enum scl::NumberBase base) {
   FromStringSimpleType(dest, str, base);
+  dest = dest % p;
 }
 
 struct u256 {
diff --git a/secure-computation-library/src/scl/math/fields/mersenne61.cc b/secure-computation-library/src/scl/math/fields/mersenne61.cc
index e5a3c95..f0c9096 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne61.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne61.cc
@@ -29,6 +29,7 @@ void _::Invert(u64& t) {
 void _::FromString(u64& dest, const std::string& str,
                    enum scl::NumberBase base) {
   FromStringSimpleType(dest, str, base);
+  dest = dest % p;
 }
 
 void _::Multiply(u64& t, const u64& v) {
-- 
2.43.0


From cf5b73e9d3282b34adb456fb83c5d7d0af94e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 04/22] fix: out of bounds access when parsing an empty base64
 string

---
 secure-computation-library/include/scl/math/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/str.h b/secure-computation-library/include/scl/math/str.h
index 032ebb2..49a6769 100644
--- a/secure-computation-library/include/scl/math/str.h
+++ b/secure-computation-library/include/scl/math/str.h
@@ -156,7 +156,7 @@ void FromStringBase64(T& t, const std::string& s) {
 
   t = 0;
   std::size_t i = 0;
-  bool has_padding = s[n - 1] == '=';
+  bool has_padding = n && s[n - 1] == '=';
   auto m = n - (has_padding ? 4 : 0);
 
   while (i < m) {
-- 
2.43.0


From da3c313ab78a56f034797460950d6f26c25577ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 05/22] fix: packed sharing with a degree too small for the
 secrets exhausted memory

---
 secure-computation-library/include/scl/ss/packed.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/secure-computation-library/include/scl/ss/packed.h b/secure-computation-library/include/scl/ss/packed.h
index aca19bb..71899dc 100644
--- a/secure-computation-library/include/scl/ss/packed.h
+++ b/secure-computation-library/include/scl/ss/packed.h
@@ -71,6 +71,8 @@ namespace scl {
      */
     template <typename T>
     EvPolynomial<T> EvPolyFromSecretsAndDegree(const Vec<T>& secrets, std::size_t degree, PRG& prg) {
+      if (secrets.Size() > degree + 1)
+	throw std::invalid_argument("number of secrets is larger than degree + 1");
       Vec<T> x_points;
       x_points.Reserve(degree+1);
       for (std::size_t i = 0; i < secrets.Size(); i++) { x_points.Emplace(T(-i)); }
-- 
2.43.0


From cbc9e45989b713ce7ee6d0f94bd16c30926ba5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 06/22] fix: evaluation polynomial with several points never
 reported as zero

---
 secure-computation-library/include/scl/ss/evpoly.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/ss/evpoly.h b/secure-computation-library/include/scl/ss/evpoly.h
index bee2483..0fb56f4 100644
--- a/secure-computation-library/include/scl/ss/evpoly.h
+++ b/secure-computation-library/include/scl/ss/evpoly.h
@@ -147,7 +147,12 @@ namespace scl {
       /**
        * @brief Returns true if this is the 0 polynomial.
        */
-      bool IsZero() const { return Degree() == 0 && mY[0] == T(0); };
+      bool IsZero() const {
+	for (const auto& y : mY) {
+	  if (y != T(0)) return false;
+	}
+	return true;
+      };
 
       /**
        * @brief Degree of this polynomial.
-- 
2.43.0


From 4abfed31df3daa751f34045f881f6a7faa53d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 07/22] fix: zero shares of output masks reused those of
 multiplication batches

---
 src/tp/fi_prep.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp/fi_prep.cc b/src/tp/fi_prep.cc
index da5a30d..ed05dcf 100644
--- a/src/tp/fi_prep.cc
+++ b/src/tp/fi_prep.cc
@@ -155,8 +155,8 @@ namespace tp {
 	  shr += mVandermonde[j][shr_idx] * recv_shares[j];
 	}
 	if (ctr < mNMultBatches) mMultBatchFIPrep[ctr].mShrO1 = shr; 
-	if ((mNMultBatches <= ctr) && (ctr < 2*mNMultBatches)) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
-	if ((2*mNMultBatches <= ctr) && (ctr < 3*mNMultBatches)) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
+	else if ((mNMultBatches <= ctr) && (ctr < 2*mNMultBatches)) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
+	else if ((2*mNMultBatches <= ctr) && (ctr < 3*mNMultBatches)) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
 	else {
 	  IOBatchFIPrep tmp;
 	  tmp.mShrO = shr;
-- 
2.43.0


From 9b43680835e7d90987157313c1b9d5b54ff45206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 08/22] fix: mask share of an output gate was not the one of
 its wire

---
 src/tp/output_gate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp/output_gate.h b/src/tp/output_gate.h
index d8bfb48..b6be1a8 100644
--- a/src/tp/output_gate.h
+++ b/src/tp/output_gate.h
@@ -52,7 +52,7 @@ namespace tp {
 	mIndvShrLambdaC = mLeft->GetIndvShrLambda();
 	mIndvShrLambdaCSet = true;
       }
-      return mLambda;
+      return mIndvShrLambdaC;
     }    
 
     FF GetDn07Share() {
-- 
2.43.0


From 02021f022f451ae3af697fa0beb1ab0e158dba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 09/22] fix: preprocessing from given masks evaluated product
 shares at the wrong point

---
 src/tp/mult_gate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tp/mult_gate.h b/src/tp/mult_gate.h
index 4aecdbf..a36dd22 100644
--- a/src/tp/mult_gate.h
+++ b/src/tp/mult_gate.h
@@ -127,13 +127,13 @@ namespace tp {
       
       // Using deg = BatchSize-1 ensures there's no randomness involved
       auto poly_A = scl::details::EvPolyFromSecretsAndDegree(lambda_A, mBatchSize-1, mPRG);
-      mPackedShrLambdaA = poly_A.Evaluate(FF(mID));
+      mPackedShrLambdaA = poly_A.Evaluate(FF(mID+1));
 	
       auto poly_B = scl::details::EvPolyFromSecretsAndDegree(lambda_B, mBatchSize-1, mPRG);
-      mPackedShrLambdaB = poly_B.Evaluate(FF(mID));
+      mPackedShrLambdaB = poly_B.Evaluate(FF(mID+1));
 
       auto poly_C = scl::details::EvPolyFromSecretsAndDegree(delta_C, mBatchSize-1, mPRG);
-      mPackedShrDeltaC = poly_C.Evaluate(FF(mID));
+      mPackedShrDeltaC = poly_C.Evaluate(FF(mID+1));
     }
 
     // For cleartext evaluation: calls GetClear on all its gates to
-- 
2.43.0


From f0d333de718786157d29ee422540f35733a548e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 10/22] fix: DN07 with more than 2t+1 parties computed wrong
 products

---
 src/tp/dn07.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/tp/dn07.cc b/src/tp/dn07.cc
index a767271..d1d7fa7 100644
--- a/src/tp/dn07.cc
+++ b/src/tp/dn07.cc
@@ -142,7 +142,8 @@ namespace tp {
   }
 
   void DN07::FDMultPartiesSendP1() {
-    if (mCircuit.mID >= mThreshold+1) {
+    // Only the first 2t+1 parties take part in the products
+    if (mCircuit.mID >= mThreshold+1 && mCircuit.mID < 2*mThreshold+1) {
     // The last t parties set their shares of the input gates
       for (std::size_t owner_id = 0; owner_id < mCircuit.mClients; owner_id++) {
 	for (auto input_gate : mCircuit.mFlatInputGates[owner_id]) {
@@ -172,7 +173,7 @@ namespace tp {
 	if (mCircuit.mID == 0) {
 	  Vec shares_from_last;
 	  shares_from_last.Reserve(mThreshold);
-	  for (std::size_t i = mThreshold+1; i < mParties; ++i) {
+	  for (std::size_t i = mThreshold+1; i < 2*mThreshold+1; ++i) {
 	    FF shr;
 	    mCircuit.mNetwork->Party(i)->Recv(shr);
 	    shares_from_last.Emplace(shr);
@@ -218,14 +219,14 @@ namespace tp {
 	y_points.Reserve(mThreshold+1);
 	y_points.Emplace(masked);
 	// Set the shares of the last t parties to 0
-	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) y_points.Emplace(FF(0));
+	for (std::size_t i = mThreshold+1; i < 2*mThreshold+1; ++i) y_points.Emplace(FF(0));
 	Vec x_points;
 	x_points.Reserve(mThreshold+1);
 
 	// Secret position
 	x_points.Emplace(FF(0));
 	// Positions set to zero
-	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) x_points.Emplace(FF(i+1));
+	for (std::size_t i = mThreshold+1; i < 2*mThreshold+1; ++i) x_points.Emplace(FF(i+1));
 	// Interpolate polynomial
 	auto poly = scl::details::EvPolynomial<FF>(x_points, y_points);
 	// Compute remaining shares (only t+1 are needed)
@@ -284,7 +285,7 @@ namespace tp {
 	Vec shares_from_last = mMapP1SharesFromLast.front();
 	mMapP1SharesFromLast.pop();
 
-	for (std::size_t i = mThreshold+1; i < mParties; ++i) {
+	for (std::size_t i = mThreshold+1; i < 2*mThreshold+1; ++i) {
 	  shares.Emplace(shares_from_last[i-(mThreshold+1)]);
 	}
 
@@ -295,7 +296,7 @@ namespace tp {
 	y_points.Reserve(mThreshold+1);
 	y_points.Emplace(secret);
 	// Set the shares of the last t parties to 0
-	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) y_points.Emplace(FF(0));
+	for (std::size_t i = mThreshold+1; i < 2*mThreshold+1; ++i) y_points.Emplace(FF(0));
 
 	Vec x_points;
 	x_points.Reserve(mThreshold+1);
@@ -303,7 +304,7 @@ namespace tp {
 	// Secret position
 	x_points.Emplace(FF(0));
 	// Positions set to zero
-	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) x_points.Emplace(FF(i+1));
+	for (std::size_t i = mThreshold+1; i < 2*mThreshold+1; ++i) x_points.Emplace(FF(i+1));
 	// Interpolate polynomial
 	auto poly = scl::details::EvPolynomial<FF>(x_points, y_points);
 	// Compute remaining shares (only t+1 are needed)
-- 
2.43.0


From 5cc8f88b34a0e5e5461509ccfae838b84ee4bd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 11/22] fix: configurations without inputs, width or depth
 crashed circuit generation

---
 src/tp/circuits/generic.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tp/circuits/generic.cc b/src/tp/circuits/generic.cc
index c688757..d3f89a0 100644
--- a/src/tp/circuits/generic.cc
+++ b/src/tp/circuits/generic.cc
@@ -9,6 +9,8 @@ namespace tp {
       throw std::invalid_argument("The number of parties does not coincide with the length of the input vector");
     if ( config.n_parties != config.out_gates.size() )
       throw std::invalid_argument("The number of parties does not coincide with the length of the output vector");
+    if ( n_inputs == 0 || config.width == 0 || config.depth == 0 )
+      throw std::invalid_argument("Inputs, width and depth cannot be zero");
     if ( config.width % n_inputs != 0 )
       throw std::invalid_argument("Total number of inputs does not divide width");
     if ( n_inputs % 2 != 0 )
-- 
2.43.0


From 9d872d75bd21fb36d8f4c3f5ec2f8291465430b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 12/22] fix: SHA3 absorbed only the first two bytes of each
 full word

---
 secure-computation-library/include/scl/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/include/scl/hash.h b/secure-computation-library/include/scl/hash.h
index e0b66a0..45ff57a 100644
--- a/secure-computation-library/include/scl/hash.h
+++ b/secure-computation-library/include/scl/hash.h
@@ -146,9 +146,9 @@ Hash<B> &Hash<B>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From 06edb293947f19035c515018023b376eaa6c05e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 13/22] fix: receiving from a closed TCP connection returned
 stale data instead of raising an error

---
 secure-computation-library/src/scl/net/tcp_channel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/tcp_channel.cc b/secure-computation-library/src/scl/net/tcp_channel.cc
index 47a32d9..7e9789d 100644
--- a/secure-computation-library/src/scl/net/tcp_channel.cc
+++ b/secure-computation-library/src/scl/net/tcp_channel.cc
@@ -1,5 +1,7 @@
 #include "scl/net/tcp_channel.h"
 
+#include <stdexcept>
+
 #include "scl/net/tcp_utils.h"
 
 void scl::TcpChannel::Close() {
@@ -28,7 +30,7 @@ void scl::TcpChannel::Recv(unsigned char* dst, std::size_t n) {
 
   while (rem > 0) {
     auto recv = scl::details::ReadFromSocket(mSocket, dst + offset, rem);
-    if (!recv) break;
+    if (!recv) throw std::runtime_error("connection closed by peer");
     if (recv < 0) scl::details::ThrowError("read failed");
 
     rem -= recv;
-- 
2.43.0


From f22afc55af617f4b0486e7b6ff8b0448ff00c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 14/22] fix: closing a threaded sender dropped queued messages,
 and destroying an open one never returned

---
 .../include/scl/net/threaded_sender.h               |  8 +++++++-
 .../src/scl/net/threaded_sender.cc                  | 13 +++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/secure-computation-library/include/scl/net/threaded_sender.h b/secure-computation-library/include/scl/net/threaded_sender.h
index 49b0437..1f2adfa 100644
--- a/secure-computation-library/include/scl/net/threaded_sender.h
+++ b/secure-computation-library/include/scl/net/threaded_sender.h
@@ -47,10 +47,16 @@ class ThreadedSenderChannel final : public Channel {
    */
   ThreadedSenderChannel(int socket);
 
+  /**
+   * @brief Destroying the channel sends what is pending and closes it.
+   */
+  ~ThreadedSenderChannel() { Close(); };
+
   void Close() override;
 
   void Send(const unsigned char* src, std::size_t n) override {
-    mSendBuffer.PushBack({src, src + n});
+    // an empty message tells the sender to stop.
+    if (n) mSendBuffer.PushBack({src, src + n});
   };
 
   void Recv(unsigned char* dst, std::size_t n) override {
diff --git a/secure-computation-library/src/scl/net/threaded_sender.cc b/secure-computation-library/src/scl/net/threaded_sender.cc
index 4945fe4..6afd381 100644
--- a/secure-computation-library/src/scl/net/threaded_sender.cc
+++ b/secure-computation-library/src/scl/net/threaded_sender.cc
@@ -6,19 +6,20 @@ scl::ThreadedSenderChannel::ThreadedSenderChannel(int socket)
     : mChannel(scl::TcpChannel(socket)) {
   mSender = std::async(std::launch::async, [&]() {
     while (true) {
-      auto data = mSendBuffer.Peek();
-      if (!mChannel.Alive()) {
+      auto data = mSendBuffer.Pop();
+      if (data.empty()) {
         break;
       }
       mChannel.Send(data.data(), data.size());
-      mSendBuffer.PopFront();
     }
   });
 }
 
 void scl::ThreadedSenderChannel::Close() {
-  mChannel.Close();
-  unsigned char stop_signal = 1;
-  Send(&stop_signal, 1);
+  if (!mChannel.Alive()) return;
+
+  // everything queued before the stop signal is sent before the socket closes.
+  mSendBuffer.PushBack(std::vector<unsigned char>{});
   mSender.wait();
+  mChannel.Close();
 }
-- 
2.43.0


From 78ab3fe27d0cc2a793b189fe318a38331f33e288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 15/22] fix: received matrix sizes whose product overflows 32
 bits passed the size limit

---
 secure-computation-library/include/scl/net/channel.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/net/channel.h b/secure-computation-library/include/scl/net/channel.h
index c454fae..77811bc 100644
--- a/secure-computation-library/include/scl/net/channel.h
+++ b/secure-computation-library/include/scl/net/channel.h
@@ -210,9 +210,11 @@ class Channel {
   void Recv(Mat<T>& mat) {
     auto rows = RecvSize();
     auto cols = RecvSize();
-    if (rows * cols > MAX_MAT_READ_SIZE)
+    // both factors are 32 bits, so this product cannot overflow.
+    const auto size = static_cast<std::uint64_t>(rows) * cols;
+    if (size > MAX_MAT_READ_SIZE)
       throw std::logic_error("received matrix exceeds size limit");
-    auto n = rows * cols * T::ByteSize();
+    auto n = size * T::ByteSize();
     auto buf = std::make_unique<unsigned char[]>(n);
     Recv(_SCL_C(buf.get()), n);
     mat = Mat<T>::Read(rows, cols, _SCL_CC(buf.get()));
-- 
2.43.0


From 73caa42d1cbf953b56156e88f290d43353fa2586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:59 +0000
Subject: [PATCH 16/22] fix: NetworkConfig::GetParty looks a party up by its
 id, not by its position in the file

---
 secure-computation-library/include/scl/net/config.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/net/config.h b/secure-computation-library/include/scl/net/config.h
index 5c588b1..7668586 100644
--- a/secure-computation-library/include/scl/net/config.h
+++ b/secure-computation-library/include/scl/net/config.h
@@ -24,6 +24,7 @@
 
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -127,8 +128,16 @@ class NetworkConfig {
 
   /**
    * @brief Get information about a party.
+   * @param id the identity of the party
+   * @throws std::invalid_argument if there is no party with this identity
    */
-  Party GetParty(unsigned id) const { return mParties[id]; };
+  Party GetParty(unsigned id) const {
+    // parties are not necessarily listed in the order of their ids.
+    for (const auto& party : mParties) {
+      if (party.id == id) return party;
+    }
+    throw std::invalid_argument("invalid id");
+  };
 
   /**
    * @brief Return a string representation of this network config.
-- 
2.43.0


From f5903479c50f9f09543eee9085d921e0b90050a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 17/22] fix: Network::Create checks the IDs peers announce and
 raises errors of the accepting thread

---
 .../src/scl/net/network.cc                    | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/src/scl/net/network.cc b/secure-computation-library/src/scl/net/network.cc
index b6f2fb3..16f5630 100644
--- a/secure-computation-library/src/scl/net/network.cc
+++ b/secure-computation-library/src/scl/net/network.cc
@@ -1,5 +1,7 @@
 #include "scl/net/network.h"
 
+#include <exception>
+#include <stdexcept>
 #include <thread>
 
 #include "scl/net/tcp_utils.h"
@@ -24,18 +26,36 @@ static inline void AcceptConnections(
           std::make_shared<scl::TcpChannel>(ac.socket);
       unsigned id;
       channel->Recv(id);
+      // each party with a greater ID connects to us exactly once.
+      if (id <= my_id || id >= config.NetworkSize() || channels[id]) {
+        scl::details::CloseSocket(ssock);
+        throw std::logic_error("received invalid party ID");
+      }
       channels[id] = channel;
     }
     scl::details::CloseSocket(ssock);
   }
 }
 
+// Runs AcceptConnections such that an error can be raised in another thread.
+static inline void TryAcceptConnections(
+    std::vector<std::shared_ptr<scl::Channel>>& channels,
+    const scl::NetworkConfig config, std::exception_ptr& error) {
+  try {
+    AcceptConnections(channels, config);
+  } catch (...) {
+    error = std::current_exception();
+  }
+}
+
 scl::Network scl::Network::Create(const scl::NetworkConfig& config) {
   std::vector<std::shared_ptr<scl::Channel>> channels(config.NetworkSize());
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections, std::ref(channels), config);
+  std::exception_ptr error;
+  std::thread server(TryAcceptConnections, std::ref(channels), config,
+                     std::ref(error));
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
@@ -47,6 +67,7 @@ scl::Network scl::Network::Create(const scl::NetworkConfig& config) {
   }
 
   server.join();
+  if (error) std::rethrow_exception(error);
 
   return Network{channels};
 }
@@ -59,7 +80,9 @@ scl::Network scl::Network::CreateThreadedSenders(const NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections, std::ref(channels), config);
+  std::exception_ptr error;
+  std::thread server(TryAcceptConnections, std::ref(channels), config,
+                     std::ref(error));
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
@@ -71,6 +94,7 @@ scl::Network scl::Network::CreateThreadedSenders(const NetworkConfig& config) {
   }
 
   server.join();
+  if (error) std::rethrow_exception(error);
 
   return Network{channels};
 }
-- 
2.43.0


From 21dbac7154eaf17f545b711187354705d478c412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 18/22] fix: discovery rejects party IDs that are out of range
 or announced twice

---
 secure-computation-library/src/scl/net/discovery/client.cc | 6 ++++++
 secure-computation-library/src/scl/net/discovery/server.cc | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/discovery/client.cc b/secure-computation-library/src/scl/net/discovery/client.cc
index d33f039..f7eadd3 100644
--- a/secure-computation-library/src/scl/net/discovery/client.cc
+++ b/secure-computation-library/src/scl/net/discovery/client.cc
@@ -1,6 +1,8 @@
 #include "scl/net/discovery/client.h"
 
 #include <memory>
+#include <stdexcept>
+#include <vector>
 
 #include "scl/net/tcp_utils.h"
 
@@ -36,12 +38,16 @@ scl::NetworkConfig Client::ReceiveNetworkConfig::Finalize(
   ctx->Recv(number_of_parties);
 
   std::vector<scl::Party> parties(number_of_parties);
+  std::vector<bool> known(number_of_parties, false);
   for (std::size_t i = 0; i < number_of_parties; ++i) {
     scl::Party party;
     ctx->Recv(party.id);
     ctx->Recv(party.port);
     auto hostname = ReceiveHostname(ctx);
     party.hostname = hostname;
+    if (party.id >= number_of_parties || known[party.id])
+      throw std::logic_error("received invalid party ID");
+    known[party.id] = true;
     parties[party.id] = party;
   }
 
diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index 0f8ff65..5b6d7f3 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -1,6 +1,7 @@
 #include "scl/net/discovery/server.h"
 
 #include <memory>
+#include <stdexcept>
 #include <vector>
 
 #include "scl/net/tcp_utils.h"
@@ -34,15 +35,19 @@ scl::NetworkConfig Server::Run(const scl::Party& me) {
 Server::SendNetworkConfig Server::CollectIdsAndPorts::Run(Server::Ctx& ctx) {
   auto my_id = ctx.me.id;
   std::vector<scl::Party> parties(mHostnames.size());
+  std::vector<bool> known(mHostnames.size(), false);
+  if (my_id >= parties.size()) throw std::invalid_argument("invalid id");
   parties[my_id] = ctx.me;
+  known[my_id] = true;
 
   for (std::size_t i = 0; i < mHostnames.size(); ++i) {
     if (my_id != i) {
       unsigned id;
       ctx.network.Party(i)->Recv(id);
-      if (id >= parties.size()) {
+      if (id >= parties.size() || known[id]) {
         throw std::logic_error("received invalid party ID");
       }
+      known[id] = true;
       int port;
       ctx.network.Party(i)->Recv(port);
       parties[id] = scl::Party{id, mHostnames[id], port};
-- 
2.43.0


From 3b7543bd6998fdd95ed94b1894304b03e5321883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:18 +0000
Subject: [PATCH 19/22] fix: linear systems that are not square were solved
 wrongly or read out of bounds

---
 .../include/scl/math/la.h                      | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/secure-computation-library/include/scl/math/la.h b/secure-computation-library/include/scl/math/la.h
index fceb288..1512120 100644
--- a/secure-computation-library/include/scl/math/la.h
+++ b/secure-computation-library/include/scl/math/la.h
@@ -163,14 +163,13 @@ std::size_t FindFirstNonZeroRow(const Mat<T>& A) {
  */
 template <typename T>
 Vec<T> ExtractSolution(const Mat<T>& A) {
-  const auto n = A.Rows();
   const auto m = A.Cols();
 
   Vec<T> x(m - 1);
   auto i = FindFirstNonZeroRow(A);
-  // we remove (n - i) rows, which means setting the corresponding variables to
+  // we remove (n - i) rows, which means setting the variables after the i'th to
   // 0.
-  int c = m - 2 - (n - i - 1);
+  int c = i;
   for (; c >= 0; c--) {
     const auto p = GetPivotInColumn(A, c);
     if (p == -1) {
@@ -178,7 +177,7 @@ Vec<T> ExtractSolution(const Mat<T>& A) {
       x[c] = T{1};
     } else {
       T sum;
-      for (std::size_t j = p + 1; j < n; ++j) sum += A(i, j) * x[j];
+      for (std::size_t j = p + 1; j < m - 1; ++j) sum += A(i, j) * x[j];
       x[c] = A(i, m - 1) - sum;
       i--;
     }
@@ -202,6 +201,7 @@ bool HasSolution(const Mat<T>& A, bool unique_only) {
   auto n = A.Rows();
   auto m = A.Cols();
   T zero;
+  std::size_t rank = 0;
   for (std::size_t i = 0; i < n; ++i) {
     bool all_zero = true;
     for (std::size_t j = 0; j < m - 1; ++j) {
@@ -210,13 +210,11 @@ bool HasSolution(const Mat<T>& A, bool unique_only) {
     // No solution is the case when Rank(A) != Rank(A') where A' is A without
     // the last column (the augmentation). I.e., when row(A', i) == 0, but
     // row(A, i) != 0.
-    if (unique_only) {
-      if (all_zero) return false;
-    } else {
-      if (all_zero && A(i, m - 1) != zero) return false;
-    }
+    if (all_zero && A(i, m - 1) != zero) return false;
+    if (!all_zero) rank++;
   }
-  return true;
+  // The solution is unique if no variable is free.
+  return !unique_only || rank == m - 1;
 }
 
 /**
-- 
2.43.0


From f508b172dd3255a22e935fc01087dd10ca6eaa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:18 +0000
Subject: [PATCH 20/22] fix: robust reconstruction returned polynomials of
 degree above t

---
 secure-computation-library/include/scl/ss/shamir.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/ss/shamir.h b/secure-computation-library/include/scl/ss/shamir.h
index 27ca41e..a195582 100644
--- a/secure-computation-library/include/scl/ss/shamir.h
+++ b/secure-computation-library/include/scl/ss/shamir.h
@@ -253,7 +253,9 @@ std::array<details::Polynomial<T>, 2> ReconstructShamirRobust(
   auto E = details::Polynomial<T>::Create(cE);
   auto Q = details::Polynomial<T>::Create(Vec<T>{x.begin() + e, x.end()});
   auto qr = Q.Divide(E);
-  if (qr[1].IsZero()) return {qr[0], E};
+  // anything but a polynomial of degree at most t means that the shares contain
+  // more than t errors.
+  if (qr[1].IsZero() && qr[0].Degree() <= t) return {qr[0], E};
 
   throw std::logic_error("could not correct shares");
 }
-- 
2.43.0


From 172dc1a8847de4a2fb2abfba2023fe15015acad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:28 +0000
Subject: [PATCH 21/22] fix: refuse flat cleartext inputs of the wrong number

---
 src/tp/circuits/cleartext.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tp/circuits/cleartext.cc b/src/tp/circuits/cleartext.cc
index e0b48a5..a032ff5 100644
--- a/src/tp/circuits/cleartext.cc
+++ b/src/tp/circuits/cleartext.cc
@@ -14,6 +14,11 @@ namespace tp {
   }
   
   void Circuit::SetClearInputsFlat(std::vector<FF> inputs) {
+    std::size_t n_inputs(0);
+    for (std::size_t i = 0; i < mClients; i++) n_inputs += mFlatInputGates[i].size();
+    if ( inputs.size() != n_inputs )
+      throw std::invalid_argument("Number of inputs provided does not match the number of input gates");
+
     std::size_t idx(0);
     for (std::size_t i = 0; i < mClients; i++) {
       for (auto input_gate : mFlatInputGates[i]) {
-- 
2.43.0


From ed2c8e227936014217b85cde83661a096d50edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:28 +0000
Subject: [PATCH 22/22] fix: scaling a vector or matrix in place by one of its
 own entries

---
 secure-computation-library/include/scl/math/mat.h | 3 ++-
 secure-computation-library/include/scl/math/vec.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/math/mat.h b/secure-computation-library/include/scl/math/mat.h
index 0ba5ca8..c220164 100644
--- a/secure-computation-library/include/scl/math/mat.h
+++ b/secure-computation-library/include/scl/math/mat.h
@@ -259,7 +259,8 @@ class Mat {
    * @return this scaled by \p scalar.
    */
   Mat& ScalarMultiplyInPlace(const T& scalar) {
-    for (auto& v : mValues) v *= scalar;
+    const T factor = scalar;  // scalar may be one of our own entries
+    for (auto& v : mValues) v *= factor;
     return *this;
   };
 
diff --git a/secure-computation-library/include/scl/math/vec.h b/secure-computation-library/include/scl/math/vec.h
index 213090a..e583c58 100644
--- a/secure-computation-library/include/scl/math/vec.h
+++ b/secure-computation-library/include/scl/math/vec.h
@@ -257,7 +257,8 @@ class Vec {
    * @return a scaled version of this vector.
    */
   Vec& ScalarMultiplyInPlace(const T& scalar) {
-    for (auto& v : mValues) v *= scalar;
+    const T factor = scalar;  // scalar may be one of our own entries
+    for (auto& v : mValues) v *= factor;
     return *this;
   };
 
-- 
2.43.0

