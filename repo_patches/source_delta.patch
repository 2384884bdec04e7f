From f424dc676295db4bcb58b1b8a933dda4210f0fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 01/21] fix: Add64/Sub64 carry out with a full word and a carry
 in

With y = 2^64-1 and carry (borrow) = 1 the sum (difference) equals x, so
comparing it with x lost the carry.
---
 src/arithmetic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index acbe906..c5a1f75 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -440,7 +440,7 @@ tuple<uint64_t, uint64_t> Add64(
 )
 {
     uint64_t sum = (x + y) + carry;
-    uint64_t carryOut = (sum < x);
+    uint64_t carryOut = ((x & y) | ((x | y) & ~sum)) >> 63;
     return {sum, carryOut};
 }
 
@@ -456,7 +456,7 @@ tuple<uint64_t, uint64_t> Sub64(
 )
 {
     uint64_t diff = x - y - borrow;
-    uint64_t borrowOut = (diff > x);
+    uint64_t borrowOut = ((~x & y) | (~(x ^ y) & diff)) >> 63;
     return {diff, borrowOut};
 }
 
-- 
2.43.0


From 271520710fe51b41802610ce639818f868a2bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 02/21] fix: propagate carries out of the high word in the
 portable squaring helpers

madd1s, madd1sb, madd2s and madd2sb return a three-word sum but dropped the
carries produced after the doubling, so the portable _square was wrong for
some operands.
---
 src/arithmetic.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index c5a1f75..dac1543 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -546,17 +546,20 @@ tuple<uint64_t, uint64_t, uint64_t> madd2s(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -567,14 +570,16 @@ tuple<uint64_t, uint64_t, uint64_t> madd1s(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -585,16 +590,18 @@ tuple<uint64_t, uint64_t, uint64_t> madd2sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -604,13 +611,14 @@ tuple<uint64_t, uint64_t, uint64_t> madd1sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
-- 
2.43.0


From 9acc0fdb6f968ba4611a4dfd504b960d9dacf138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 03/21] fix: scalar::add stored the final carry one word too
 high

The carry out of N words belongs in word N; a result array of N+1 words is
large enough to hold it.
---
 include/bls12-381/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/scalar.hpp b/include/bls12-381/scalar.hpp
index f53a259..fabfe83 100644
--- a/include/bls12-381/scalar.hpp
+++ b/include/bls12-381/scalar.hpp
@@ -114,11 +114,11 @@ std::array<uint64_t, NC> add(const std::array<uint64_t, NA>& a, const std::array
     }
     if(carry > 0)
     {
-        if(NC <= N+1)
+        if(NC <= N)
         {
             throw std::invalid_argument("std::array c not large enough to store result!");
         }
-        c[N+1] = static_cast<uint64_t>(carry);
+        c[N] = static_cast<uint64_t>(carry);
     }
     return c;
 };
-- 
2.43.0


From f5f7d3fd50beab02e7c5e5e4b2de75f1de10cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 04/21] fix: compressed encoding of infinity

affine() of a point at infinity leaves its coordinates alone, so zero()
(0, 1, 0) was written as a finite point with x = 0. Decide by z instead.
---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index b15760a..2b59335 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -180,7 +180,7 @@ void g1::toCompressedBytesBE(const span<uint8_t, 48> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g1 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(p.isZero())
     {
         memset(out.data(), 0, 48);
         out[0] |= 0xC0;
@@ -898,7 +898,7 @@ void g2::toCompressedBytesBE(const span<uint8_t, 96> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g2 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(p.isZero())
     {
         memset(out.data(), 0, 96);
         out[0] |= 0xC0;
-- 
2.43.0


From 8453f7d1a791d979074098e7ac6625b94e85ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 05/21] fix: reject unreduced x in compressed point encodings

The validity check ran after the conversion to Montgomery form, which always
reduces, so x + p was accepted as a second encoding of the same point.
---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index 2b59335..b306115 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -113,11 +113,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     scalar::fromBytesBE(in, p.x.d);
     // erase 3 msbs from given input and perform validity check
     p.x.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x = p.x.toMont();
     if(!p.x.isValid())
     {
         return {};
     }
+    p.x = p.x.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
@@ -831,11 +831,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     p.x.c0 = *c0;
     // erase 3 msbs from given input and perform validity check
     p.x.c1.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x.c1 = p.x.c1.toMont();
     if(!p.x.c1.isValid())
     {
         return {};
     }
+    p.x.c1 = p.x.c1.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
-- 
2.43.0


From e1ea867627698ed0170b0da0339874893cb7e14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 06/21] fix: reject encodings of infinity with stray bits

The compressed decoders returned infinity for any string with both the
compression and the infinity flag set, whatever else it contained.
---
 src/g.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index b306115..98a62ba 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -1,4 +1,5 @@
 #include <bls12-381/bls12-381.hpp>
+#include <algorithm>
 
 using namespace std;
 
@@ -105,6 +106,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // all remaining bits of an encoded infinity are zero
+        if(in[0] != 0xC0 || any_of(in.begin() + 1, in.end(), [](uint8_t b) { return b != 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
@@ -818,6 +824,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // all remaining bits of an encoded infinity are zero
+        if(in[0] != 0xC0 || any_of(in.begin() + 1, in.end(), [](uint8_t b) { return b != 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
-- 
2.43.0


From 6c0aca1269a2309add79c52034da2fe57eb271ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 07/21] fix: fp6::frobeniusMap for powers congruent to 3 mod 6

The product of c1 with u overwrote c0 and used the coefficients from before
the conjugation; do what frobeniusMapAssign does.
---
 src/fp.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index c57d117..a7a82a4 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1128,9 +1128,11 @@ fp6 fp6::frobeniusMap(const uint64_t& power) const
         }
         case 3:
         {
-            _negate(&c.c0.c0, &c1.c1);
-            c.c1.c1 = c1.c0;
-            c.c2 = c2.negate();
+            fp t;
+            _negate(&t, &c.c1.c1);
+            c.c1.c1 = c.c1.c0;
+            c.c1.c0 = t;
+            c.c2 = c.c2.negate();
             break;
         }
         default:
-- 
2.43.0


From fdf04263e2ec17220dc446ae46b0efeaec1cb3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 08/21] fix: fp12 Frobenius map for powers of 12 and above

The coefficient table has 12 entries; larger powers read past its end.
---
 src/fp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index a7a82a4..0649305 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1491,7 +1491,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
     fp12 c;
     c.c0 = c0.frobeniusMap(power);
     c.c1 = c1.frobeniusMap(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1504,7 +1504,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
         }
         default:
         {
-            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power%12]);
             break;
         }
     }
@@ -1515,7 +1515,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
 {
     c0.frobeniusMapAssign(power);
     c1.frobeniusMapAssign(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1528,7 +1528,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
         }
         default:
         {
-            c1 = c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c1 = c1.mulByBaseField(frobeniusCoeffs12[power%12]);
             break;
         }
     }
-- 
2.43.0


From d08ff6f06316bf78019e936d6e2ee0e4e28a64f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 09/21] fix: fromMessage with a domain separation tag over 255
 bytes

xmd_sh256 refuses such tags; its error was ignored and the point was derived
from an uninitialised buffer. Hash the tag first as RFC 9380 prescribes.
---
 src/signatures.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 7dbc161..89e0e68 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -500,7 +500,18 @@ g2 fromMessage(
 )
 {
     uint8_t buf[4 * 64];
-    xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), reinterpret_cast<const uint8_t*>(dst.c_str()), dst.length());
+    array<uint8_t, 32> dstHash;
+    span<const uint8_t> tag(reinterpret_cast<const uint8_t*>(dst.data()), dst.length());
+    // RFC 9380, section 5.3.3: tags longer than 255 bytes are replaced by their hash
+    if(tag.size() > 255)
+    {
+        sha256 sha;
+        sha.update("H2C-OVERSIZE-DST-");
+        sha.update(dst);
+        dstHash = sha.digest();
+        tag = dstHash;
+    }
+    xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), tag.data(), tag.size());
 
     array<uint64_t, 8> k = {};
     fp2 t = fp2::zero();
-- 
2.43.0


From ee52eb0967ae94c7ea46fc598a02fe0a09117d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 10/21] fix: memory leak in hkdf256_expand for an empty output

The buffers were allocated before the length check that returns early.
---
 src/signatures.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 89e0e68..5600ea0 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -98,16 +98,16 @@ int hkdf256_expand(
     size_t N = (L + 32 - 1) / 32; // Round up
     size_t bytesWritten = 0;
 
-    array<uint8_t, 32> T;
-    uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
-    uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
-
     if(N < 1 || N > 255)
     {
         //throw invalid_argument("assert(N >= 1 && N <= 255)");
         return -3;
     }
 
+    array<uint8_t, 32> T;
+    uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
+    uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
+
     for(size_t i = 1; i <= N; i++)
     {
         if(i == 1)
-- 
2.43.0


From bb926a3663e54b7ed912c4dafdbd4573daaf43b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 11/21] fix: hexToBytes read past the end of strings shorter
 than two characters

---
 src/scalar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scalar.cpp b/src/scalar.cpp
index 908ffa2..93250bb 100644
--- a/src/scalar.cpp
+++ b/src/scalar.cpp
@@ -8,7 +8,7 @@ namespace bls12_381
 vector<uint8_t> hexToBytes(std::string_view s)
 {
     uint64_t start_idx = 0;
-    if(s[0] == '0' && s[1] == 'x')
+    if(s.length() >= 2 && s[0] == '0' && s[1] == 'x')
     {
         start_idx = 2;
     }
-- 
2.43.0


From 4b982fac863e2622657068f9e76a0b322169d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 12/21] fix: g1::mapToCurve for the exceptional points of the
 isogeny

The denominators of the isogeny vanish there and its value is infinity, but
mapToCurve continued with the affine pair (0, 0), which is not on the curve.
---
 src/g.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index 98a62ba..553c659 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -545,6 +545,11 @@ g1 g1::mapToCurve(const fp& e)
     fp x, y, z = fp::one();
     tie(x, y) = swuMapG1(e);
     isogenyMapG1(x, y);
+    // the isogeny maps the points of its kernel to infinity, and only those to (0, 0)
+    if(x.isZero() && y.isZero())
+    {
+        return zero();
+    }
     g1 p({x, y, z});
     p = p.clearCofactor();
     return p;
-- 
2.43.0


From 5e09a9ad10675bd4bf0d241a17aecc4861c44a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 13/21] fix: miller_loop over an empty list

pairs.size()-1 wraps around for an empty span and the loop read past it.
---
 src/pairing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pairing.cpp b/src/pairing.cpp
index 1f98083..e744a04 100644
--- a/src/pairing.cpp
+++ b/src/pairing.cpp
@@ -114,7 +114,7 @@ fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()
         {
             f = f.square();
         }
-        for(uint64_t j = 0; j <= pairs.size()-1; j++)
+        for(uint64_t j = 0; j < pairs.size(); j++)
         {
             t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
             t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
@@ -123,7 +123,7 @@ fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()
         if(((g2::cofactorEFF[0] >> i) & 1) == 1)
         {
             k++;
-            for(uint64_t j = 0; j <= pairs.size()-1; j++)
+            for(uint64_t j = 0; j < pairs.size(); j++)
             {
                 t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
                 t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
-- 
2.43.0


From 3c2ba6f6bd6a4d4fb4c71485c11b583ef7688b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 14/21] fix: xmd_sh256 truncated message lengths to int

Messages of 2 GiB and more were hashed as if they had their length modulo
2^32, or read out of bounds when that is negative as an int.
---
 include/bls12-381/signatures.hpp | 2 +-
 src/signatures.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/signatures.hpp b/include/bls12-381/signatures.hpp
index 098b539..f05b82b 100644
--- a/include/bls12-381/signatures.hpp
+++ b/include/bls12-381/signatures.hpp
@@ -20,7 +20,7 @@ int xmd_sh256(
     uint8_t *buf,
     int buf_len,
     const uint8_t *in,
-    int in_len,
+    size_t in_len,
     const uint8_t *dst,
     int dst_len
 );
diff --git a/src/signatures.cpp b/src/signatures.cpp
index 5600ea0..adc171e 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -445,7 +445,7 @@ int xmd_sh256(
     uint8_t *buf,
     int buf_len,
     const uint8_t *in,
-    int in_len,
+    size_t in_len,
     const uint8_t *dst,
     int dst_len
 )
-- 
2.43.0


From db63903ff9d0a9a28a51888ab1c9ecb96c763c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 15/21] fix: bn_divn_safe for divisors with leading zero words
 or the top bit set

The long division crashed (division by zero) when the top word of the
divisor was zero and wrote out of bounds when the divisor had its top bit
set and was larger than a dividend of the same width.
---
 include/bls12-381/scalar.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/scalar.hpp b/include/bls12-381/scalar.hpp
index fabfe83..26cd6e5 100644
--- a/include/bls12-381/scalar.hpp
+++ b/include/bls12-381/scalar.hpp
@@ -232,10 +232,26 @@ void bn_divn_safe(std::array<uint64_t, N>& c, std::array<uint64_t, M>& d, const
     std::array<uint64_t, N+2> quotient = {};
     std::array<uint64_t, N+2> remainder = {};
 
-    bn_divn_low(quotient.data(), remainder.data(), dividend.data(), N, modulus.data(), M);
+    // Relic implementation expects a dividend not smaller than the divisor...
+    if(scalar::cmp(dividend, modulus) == std::strong_ordering::less)
+    {
+        c = {};
+        memcpy(d.data(), dividend.data(), M * sizeof(uint64_t));
+        return;
+    }
+
+    // ...and a divisor without leading zero words
+    int sb = M;
+    while(sb > 1 && modulus[sb-1] == 0)
+    {
+        sb--;
+    }
+
+    bn_divn_low(quotient.data(), remainder.data(), dividend.data(), N, modulus.data(), sb);
 
     memcpy(c.data(), quotient.data(), N * sizeof(uint64_t));
-    memcpy(d.data(), remainder.data(), M * sizeof(uint64_t));
+    d = {};
+    memcpy(d.data(), remainder.data(), sb * sizeof(uint64_t));
 }
 
 template<size_t N>
-- 
2.43.0


From cec22209dc7810a8029430ef5261b2d162792a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 16/21] fix: xmd_sh256 accepted a negative tag length

---
 src/signatures.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index adc171e..a54addf 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -453,7 +453,7 @@ int xmd_sh256(
     const unsigned int SHA256HashSize = 32;
     const unsigned int SHA256_Message_Block_Size = 64;
     const unsigned ell = (buf_len + SHA256HashSize - 1) / SHA256HashSize;
-    if (buf_len < 0 || ell > 255 || dst_len > 255)
+    if (buf_len < 0 || ell > 255 || dst_len < 0 || dst_len > 255)
     {
         return -1;
     }
-- 
2.43.0


From d35085750ed44030e947a1c0599c276b33e4dbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 17/21] fix: pairing with the G2 infinity gave zero instead of
 one

---
 src/pairing.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pairing.cpp b/src/pairing.cpp
index e744a04..15ae24e 100644
--- a/src/pairing.cpp
+++ b/src/pairing.cpp
@@ -77,6 +77,8 @@ void pre_compute(array<array<fp2, 3>, 68>& ellCoeffs, const g2& twistPoint)
     // Algorithm 5 in  https://eprint.iacr.org/2019/077.pdf
     if(twistPoint.isZero())
     {
+        // the pairing with infinity is one: let every line be the constant one
+        ellCoeffs.fill({fp2::one(), fp2::zero(), fp2::zero()});
         return;
     }
     g2 r = twistPoint;
-- 
2.43.0


From c3429e3a49277936d78be2cc3093c1df8fb343f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 18/21] fix: fp6::mulBy01Assign with arguments that are its own
 coefficients

The sum of the arguments was read after c2 had been overwritten.
---
 src/fp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index 0649305..e34eb8a 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1025,8 +1025,8 @@ void fp6::mulBy01Assign(const fp2& e0, const fp2& e1)
     t[5] = c0.add(c2);
     t[3] = e0.multiply(t[5]);
     t[3].subtractAssign(t[0]);
-    c2 = t[3].add(t[1]);
     t[4] = e0.add(e1);
+    c2 = t[3].add(t[1]);
     t[5] = c0.add(c1);
     t[4].multiplyAssign(t[5]);
     t[4].subtractAssign(t[0]);
-- 
2.43.0


From 6e91d9db7239443f8316ad2a652557b25f6c3d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 19/21] fix: HKDF and key generation ignored failed allocations

hkdf256_expand used its buffers without checking them and ignored failures of
the HMAC, so uninitialised stack bytes were returned as key material with a
zero error code; secret_key and the Lamport expansion ignored the result.
---
 src/signatures.cpp | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index a54addf..49ae464 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -1,5 +1,6 @@
 #include <bls12-381/bls12-381.hpp>
 #include "sha256.hpp"
+#include <new>
 #include <set>
 
 using namespace std;
@@ -108,20 +109,35 @@ int hkdf256_expand(
     uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
     uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
 
+    if(hmacInput1 == NULL || hmacInput == NULL)
+    {
+        //throw invalid_argument("expand: could not allocate memory!");
+        free(hmacInput1);
+        free(hmacInput);
+        return -6;
+    }
+
     for(size_t i = 1; i <= N; i++)
     {
+        int r = 0;
         if(i == 1)
         {
             memcpy(hmacInput1, info, infoLen);
             hmacInput1[infoLen] = i;
-            hkdf256_hmac(T.data(), hmacInput1, infoLen + 1, prk, 32);
+            r = hkdf256_hmac(T.data(), hmacInput1, infoLen + 1, prk, 32);
         }
         else
         {
             memcpy(hmacInput, T.data(), 32);
             memcpy(hmacInput + 32, info, infoLen);
             hmacInput[32 + infoLen] = i;
-            hkdf256_hmac(T.data(), hmacInput, 32 + infoLen + 1, prk, 32);
+            r = hkdf256_hmac(T.data(), hmacInput, 32 + infoLen + 1, prk, 32);
+        }
+        if(r != 0)
+        {
+            free(hmacInput1);
+            free(hmacInput);
+            return r;
         }
         size_t to_write = L - bytesWritten;
         if(to_write > 32)
@@ -186,6 +202,11 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
     uint8_t saltLen = 20;
 
     uint8_t *ikmHkdf = reinterpret_cast<uint8_t*>(malloc(seed.size() + 1));
+    if(ikmHkdf == NULL)
+    {
+        //throw invalid_argument("secret_key: could not allocate memory!");
+        return {0, 0, 0, 0};
+    }
     memcpy(ikmHkdf, &seed[0], seed.size());
     ikmHkdf[seed.size()] = 0;
 
@@ -201,7 +222,7 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
     array<uint64_t, 4> sk;
     while(true)
     {
-        hkdf256_extract_expand(
+        int r = hkdf256_extract_expand(
             okmHkdf.data(),
             L,
             ikmHkdf,
@@ -211,6 +232,11 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
             keyInfoHkdf,
             infoLen + 2
         );
+        if(r != 0)
+        {
+            free(ikmHkdf);
+            return {0, 0, 0, 0};
+        }
 
         // Make sure private key is less than the curve order
         array<uint64_t, 6> skBn = scalar::fromBytesBE<6>(span<uint8_t, 48>(okmHkdf.begin(), okmHkdf.end()));
@@ -246,7 +272,10 @@ void ikm_to_lamport_sk(
 {
     // Expands the ikm to 255*HASH_LEN bytes for the lamport sk
     const uint8_t info[1] = {};
-    hkdf256_extract_expand(outputLamportSk, 32 * 255, ikm, ikmLen, salt, saltLen, info, 0);
+    if(0 != hkdf256_extract_expand(outputLamportSk, 32 * 255, ikm, ikmLen, salt, saltLen, info, 0))
+    {
+        throw bad_alloc(); // the only possible failure: the output length is within the limit
+    }
 }
 
 void parent_sk_to_lamport_pk(
-- 
2.43.0


From 28be090803efd68e33aadbd28f656cd1793218ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 20/21] fix: constants were not initialised when used from
 static initialisers

---
 include/bls12-381/fp.hpp | 24 ++++++++++----------
 include/bls12-381/g.hpp  | 12 +++++-----
 src/fp.cpp               | 48 ----------------------------------------
 src/g.cpp                | 24 --------------------
 4 files changed, 18 insertions(+), 90 deletions(-)

diff --git a/include/bls12-381/fp.hpp b/include/bls12-381/fp.hpp
index 7feb0d0..315f9bb 100644
--- a/include/bls12-381/fp.hpp
+++ b/include/bls12-381/fp.hpp
@@ -30,9 +30,9 @@ class fp
 public:
     std::array<uint64_t, 6> d;
 
-    fp();
-    explicit fp(const std::array<uint64_t, 6>& d);
-    fp(const fp& e);
+    constexpr fp() : d{0, 0, 0, 0, 0, 0} {}
+    explicit constexpr fp(const std::array<uint64_t, 6>& d) : d{d[0], d[1], d[2], d[3], d[4], d[5]} {}
+    constexpr fp(const fp& e) : d{e.d[0], e.d[1], e.d[2], e.d[3], e.d[4], e.d[5]} {}
     static std::optional<fp> fromBytesBE(const std::span<const uint8_t, 48> in,
                                          const conv_opt opt = { .check_valid = true, .to_mont = true });
     static std::optional<fp> fromBytesLE(const std::span<const uint8_t, 48> in,
@@ -118,9 +118,9 @@ public:
     fp c0;
     fp c1;
 
-    fp2();
-    explicit fp2(const std::array<fp, 2>& e2);
-    fp2(const fp2& e);
+    constexpr fp2() : c0(fp()), c1(fp()) {}
+    explicit constexpr fp2(const std::array<fp, 2>& e2) : c0(e2[0]), c1(e2[1]) {}
+    constexpr fp2(const fp2& e) : c0(e.c0), c1(e.c1) {}
     static std::optional<fp2> fromBytesBE(const std::span<const uint8_t, 96> in,
                                           const conv_opt opt = { .check_valid = true, .to_mont = true });
     static std::optional<fp2> fromBytesLE(const std::span<const uint8_t, 96> in,
@@ -179,9 +179,9 @@ public:
     fp2 c1;
     fp2 c2;
 
-    fp6();
-    explicit fp6(const std::array<fp2, 3>& e3);
-    fp6(const fp6& e);
+    constexpr fp6() : c0(fp2()), c1(fp2()), c2(fp2()) {}
+    explicit constexpr fp6(const std::array<fp2, 3>& e3) : c0(e3[0]), c1(e3[1]), c2(e3[2]) {}
+    constexpr fp6(const fp6& e) : c0(e.c0), c1(e.c1), c2(e.c2) {}
     static std::optional<fp6> fromBytesBE(const std::span<const uint8_t, 288> in,
                                           const conv_opt opt = { .check_valid = true, .to_mont = true });
     static std::optional<fp6> fromBytesLE(const std::span<const uint8_t, 288> in,
@@ -229,9 +229,9 @@ public:
     fp6 c0;
     fp6 c1;
 
-    fp12();
-    explicit fp12(const std::array<fp6, 2>& e2);
-    fp12(const fp12& e);
+    constexpr fp12() : c0(fp6()), c1(fp6()) {}
+    explicit constexpr fp12(const std::array<fp6, 2>& e2) : c0(e2[0]), c1(e2[1]) {}
+    constexpr fp12(const fp12& e) : c0(e.c0), c1(e.c1) {}
     static std::optional<fp12> fromBytesBE(const std::span<const uint8_t, 576> in,
                                            const conv_opt opt = { .check_valid = true, .to_mont = true });
     static std::optional<fp12> fromBytesLE(const std::span<const uint8_t, 576> in,
diff --git a/include/bls12-381/g.hpp b/include/bls12-381/g.hpp
index ab53a7a..1f9c2e4 100644
--- a/include/bls12-381/g.hpp
+++ b/include/bls12-381/g.hpp
@@ -20,9 +20,9 @@ public:
     fp y;
     fp z;
 
-    g1();
-    explicit g1(const std::array<fp, 3>& e3);
-    g1(const g1& e);
+    constexpr g1() : x(fp()), y(fp()), z(fp()) {}
+    explicit constexpr g1(const std::array<fp, 3>& e3) : x(e3[0]), y(e3[1]), z(e3[2]) {}
+    constexpr g1(const g1& e) : x(e.x), y(e.y), z(e.z) {}
     static std::optional<g1> fromJacobianBytesBE(const std::span<const uint8_t, 144> in,
                                                  conv_opt opt = { .check_valid = false, .to_mont = true });
     static std::optional<g1> fromJacobianBytesLE(const std::span<const uint8_t, 144> in,
@@ -86,9 +86,9 @@ public:
     fp2 y;
     fp2 z;
 
-    g2();
-    explicit g2(const std::array<fp2, 3>& e3);
-    g2(const g2& e);
+    constexpr g2() : x(fp2()), y(fp2()), z(fp2()) {}
+    explicit constexpr g2(const std::array<fp2, 3>& e3) : x(e3[0]), y(e3[1]), z(e3[2]) {}
+    constexpr g2(const g2& e) : x(e.x), y(e.y), z(e.z) {}
     static std::optional<g2> fromJacobianBytesBE(const std::span<const uint8_t, 288> in,
                                                  conv_opt opt = { .check_valid = false, .to_mont = true });
     static std::optional<g2> fromJacobianBytesLE(const std::span<const uint8_t, 288> in,
diff --git a/src/fp.cpp b/src/fp.cpp
index e34eb8a..45cea86 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -5,18 +5,6 @@ using namespace std;
 namespace bls12_381
 {
 
-fp::fp() : d{0, 0, 0, 0, 0, 0}
-{
-}
-
-fp::fp(const array<uint64_t, 6>& d) : d{d[0], d[1], d[2], d[3], d[4], d[5]}
-{
-}
-
-fp::fp(const fp& e) : d{e.d[0], e.d[1], e.d[2], e.d[3], e.d[4], e.d[5]}
-{
-}
-
 optional<fp> fp::fromBytesBE(const span<const uint8_t, 48> in, const conv_opt opt)
 {
     // We decided to always validate the input here. But we reserve the flag.
@@ -453,18 +441,6 @@ const array<uint64_t, 6> fp::pMinus3Over4 = {
     0x0680'447a'8e5f'f9a6
 };
 
-fp2::fp2() : c0(fp()), c1(fp())
-{
-}
-
-fp2::fp2(const array<fp, 2>& e2) : c0(e2[0]), c1(e2[1])
-{
-}
-
-fp2::fp2(const fp2& e) : c0(e.c0), c1(e.c1)
-{
-}
-
 optional<fp2> fp2::fromBytesBE(const span<const uint8_t, 96> in, const conv_opt opt)
 {
     optional<fp> c1 = fp::fromBytesBE(span<const uint8_t, 48>(&in[ 0], 48), opt);
@@ -813,18 +789,6 @@ const fp2 fp2::psiY = fp2({
     }),
 });
 
-fp6::fp6() : c0(fp2()), c1(fp2()), c2(fp2())
-{
-}
-
-fp6::fp6(const array<fp2, 3>& e3) : c0(e3[0]), c1(e3[1]), c2(e3[2])
-{
-}
-
-fp6::fp6(const fp6& e) : c0(e.c0), c1(e.c1), c2(e.c2)
-{
-}
-
 optional<fp6> fp6::fromBytesBE(const span<const uint8_t, 288> in, const conv_opt opt)
 {
     optional<fp2> c2 = fp2::fromBytesBE(span<const uint8_t, 96>(&in[  0], 96), opt);
@@ -1228,18 +1192,6 @@ const array<fp2, 6> fp6::frobeniusCoeffs62 = array<fp2, 6>({
     }),
 });
 
-fp12::fp12() : c0(fp6()), c1(fp6())
-{
-}
-
-fp12::fp12(const array<fp6, 2>& e2) : c0(e2[0]), c1(e2[1])
-{
-}
-
-fp12::fp12(const fp12& e) : c0(e.c0), c1(e.c1)
-{
-}
-
 optional<fp12> fp12::fromBytesBE(const span<const uint8_t, 576> in, const conv_opt opt)
 {
     optional<fp6> c1 = fp6::fromBytesBE(span<const uint8_t, 288>(&in[  0], 288), opt);
diff --git a/src/g.cpp b/src/g.cpp
index 553c659..730ec54 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -6,18 +6,6 @@ using namespace std;
 namespace bls12_381
 {
 
-g1::g1() : x(fp()), y(fp()), z(fp())
-{
-}
-
-g1::g1(const array<fp, 3>& e3) : x(e3[0]), y(e3[1]), z(e3[2])
-{
-}
-
-g1::g1(const g1& e) : x(e.x), y(e.y), z(e.z)
-{
-}
-
 optional<g1> g1::fromJacobianBytesBE(const span<const uint8_t, 144> in, conv_opt opt)
 {
     // We decided to always validate the input here. Check flag will only affect on-curve checks.
@@ -729,18 +717,6 @@ const g1 g1::BASE = g1({
 
 const array<uint64_t, 1> g1::cofactorEFF = {0xd201000000010001};
 
-g2::g2() : x(fp2()), y(fp2()), z(fp2())
-{
-}
-
-g2::g2(const array<fp2, 3>& e3) : x(e3[0]), y(e3[1]), z(e3[2])
-{
-}
-
-g2::g2(const g2& e) : x(e.x), y(e.y), z(e.z)
-{
-}
-
 optional<g2> g2::fromJacobianBytesBE(const span<const uint8_t, 288> in, conv_opt opt)
 {
     // We decided to always validate the input here. Check flag will only affect on-curve checks.
-- 
2.43.0


From 2558dcb938e03fc48de2c1c1e997e753e4c2d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 21/21] fix: signing, verifying and proofs used an unset or
 destroyed domain tag before and after main

---
 include/bls12-381/signatures.hpp |  4 ++--
 src/signatures.cpp               | 15 ++++++++-------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/bls12-381/signatures.hpp b/include/bls12-381/signatures.hpp
index f05b82b..d5db16a 100644
--- a/include/bls12-381/signatures.hpp
+++ b/include/bls12-381/signatures.hpp
@@ -12,8 +12,8 @@ namespace bls12_381 {
 class g1;
 class g2;
 
-extern const std::string CIPHERSUITE_ID;
-extern const std::string POP_CIPHERSUITE_ID;
+inline const std::string CIPHERSUITE_ID = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_";
+inline const std::string POP_CIPHERSUITE_ID = "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
 
 // Used to generate a domain separated extended sha256 hash used in 'map to curve'
 int xmd_sh256(
diff --git a/src/signatures.cpp b/src/signatures.cpp
index 49ae464..149cce0 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -9,8 +9,9 @@ namespace bls12_381
 {
 
 // Domain Separation Tags
-const string CIPHERSUITE_ID = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_";
-const string POP_CIPHERSUITE_ID = "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
+// The functions below use these, so that they also work while static objects are initialised or destroyed.
+static constexpr char SIG_DST[] = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_";
+static constexpr char POP_DST[] = "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
 
 int hkdf256_hmac(
     uint8_t *mac,
@@ -571,7 +572,7 @@ g2 sign(
     std::span<const uint8_t> msg
 )
 {
-    g2 p = fromMessage(msg, CIPHERSUITE_ID);
+    g2 p = fromMessage(msg, SIG_DST);
     return p.scale(sk);
 }
 
@@ -583,7 +584,7 @@ bool verify(
 {
     vector<tuple<g1, g2>> v;
     pairing::add_pair(v, g1::one().negate(), signature);
-    const g2 hashedPoint = fromMessage(message, CIPHERSUITE_ID);
+    const g2 hashedPoint = fromMessage(message, SIG_DST);
     pairing::add_pair(v, pubkey, hashedPoint);
 
     if(!pubkey.isOnCurve() || !pubkey.inCorrectSubgroup())
@@ -660,7 +661,7 @@ bool aggregate_verify(
         {
             return false;
         }
-        pairing::add_pair(v, pubkeys[i], fromMessage(messages[i], CIPHERSUITE_ID));
+        pairing::add_pair(v, pubkeys[i], fromMessage(messages[i], SIG_DST));
     }
 
     // 1 =? prod e(pubkey[i], hash[i]) * e(-g1, aggSig)
@@ -671,7 +672,7 @@ g2 pop_prove(const array<uint64_t, 4>& sk)
 {
     g1 pk = public_key(sk);
     array<uint8_t, 96> msg = pk.toAffineBytesLE(from_mont::yes);
-    g2 hashed_key = fromMessage(vector<uint8_t>(msg.begin(), msg.end()), POP_CIPHERSUITE_ID);
+    g2 hashed_key = fromMessage(vector<uint8_t>(msg.begin(), msg.end()), POP_DST);
     return hashed_key.scale(sk);
 }
 
@@ -681,7 +682,7 @@ bool pop_verify(
 )
 {
     array<uint8_t, 96> msg = pubkey.toAffineBytesLE(from_mont::yes);
-    const g2 hashedPoint = fromMessage(vector<uint8_t>(msg.begin(), msg.end()), POP_CIPHERSUITE_ID);
+    const g2 hashedPoint = fromMessage(vector<uint8_t>(msg.begin(), msg.end()), POP_DST);
 
     if(!pubkey.isOnCurve() || !pubkey.inCorrectSubgroup())
     {
-- 
2.43.0

