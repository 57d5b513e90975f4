From ea2e81d954dfe7a3b2bf2dbc20b27c0f19299a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 01/66] fix: compare u32x4 lanes as unsigned numbers

---
 include/math/simd/vector/uint.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 9468203..e4d4b02 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -555,7 +555,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmplt_epi32(data, v.data);
+		auto bias = _mm_set1_epi32((int32)0x80000000u); // SSE has only signed compare
+		return _mm_cmplt_epi32(_mm_xor_si128(data, bias), _mm_xor_si128(v.data, bias));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcltq_u32(data, v.data);
 		#else
@@ -565,7 +566,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmpgt_epi32(data, v.data);
+		auto bias = _mm_set1_epi32((int32)0x80000000u);
+		return _mm_cmpgt_epi32(_mm_xor_si128(data, bias), _mm_xor_si128(v.data, bias));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgtq_u32(data, v.data);
 		#else
@@ -575,7 +577,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmplt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		return _mm_or_si128((*this < v).data, _mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcleq_u32(data, v.data);
 		#else
@@ -585,7 +587,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmpgt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		return _mm_or_si128((*this > v).data, _mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgeq_u32(data, v.data);
 		#else
@@ -795,7 +797,7 @@ static u32x4 select(u32x4 c, u32x4 t, u32x4 f) noexcept
 static u32x4 min(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_min_epi32(a.data, b.data);
+	return _mm_min_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminq_u32(a.data, b.data);
 	#else
@@ -811,7 +813,7 @@ static u32x4 min(u32x4 a, u32x4 b) noexcept
 static u32x4 max(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_max_epi32(a.data, b.data);
+	return _mm_max_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vmaxq_u32(a.data, b.data);
 	#else
-- 
2.43.0


From 098a7f23915921015203728d90ce5bfa5b56a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 02/66] fix: areAllFalse/areAnyTrue look at every bit on SSE2

---
 include/math/simd/vector/uint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index e4d4b02..a3d2a84 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -670,7 +670,7 @@ static bool areAllFalse(u32x4 v) noexcept
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
 	return _mm_testz_si128(v.data, v.data);
 	#elif defined(MATH_SIMD_SUPPORT_SSE)
-	return !_mm_movemask_epi8(v.data);
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_setzero_si128())) == 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return !vmaxvq_u32(v.data);
 	#else
@@ -685,7 +685,7 @@ static bool areAnyTrue(u32x4 v) noexcept
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
 	return !_mm_testz_si128(v.data, v.data);
 	#elif defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data);
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_setzero_si128())) != 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vmaxvq_u32(v.data);
 	#else
-- 
2.43.0


From aff985f9d9c1bbf89e00bd41b910aab727951922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 03/66] fix: no signed overflow in SSE2 i32x4 multiply and
 shift

---
 include/math/simd/vector/int.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/int.hpp b/include/math/simd/vector/int.hpp
index b5a369d..baf49b8 100644
--- a/include/math/simd/vector/int.hpp
+++ b/include/math/simd/vector/int.hpp
@@ -423,7 +423,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) i32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vmulq_s32(data, v.data);
 		#else
-		return i32x4(ints * v.ints);
+		return i32x4(u32x4(*this) * u32x4(v)); // unsigned, signed overflow is undefined
 		#endif
 	}
 	i32x4 operator/(i32x4 v) const noexcept { return i32x4(ints / v.ints); }
@@ -477,7 +477,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) i32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vshlq_s32(data, v.data);
 		#else
-		return i32x4(ints << v.ints);
+		return i32x4(u32x4(*this) << u32x4(v)); // unsigned, signed overflow is undefined
 		#endif
 	}
 	i32x4 operator>>(int32 n) const noexcept
-- 
2.43.0


From f99468bc88f4491ace05b46a414761564665672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 04/66] fix: float2 equal/notEqual take two float2 vectors

---
 include/math/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/vector/float.hpp b/include/math/vector/float.hpp
index 413ca3d..cdec884 100644
--- a/include/math/vector/float.hpp
+++ b/include/math/vector/float.hpp
@@ -562,7 +562,7 @@ static string toString(float2 v) { return to_string(v.x) + " " + to_string(v.y);
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 equal(float2 a, float4 b) noexcept
+static uint2 equal(float2 a, float2 b) noexcept
 {
 	return uint2(a.x == b.x ? UINT32_MAX : 0, a.y == b.y ? UINT32_MAX : 0);
 }
@@ -572,7 +572,7 @@ static uint2 equal(float2 a, float4 b) noexcept
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 notEqual(float2 a, float4 b) noexcept
+static uint2 notEqual(float2 a, float2 b) noexcept
 {
 	return uint2(a.x != b.x ? UINT32_MAX : 0, a.y != b.y ? UINT32_MAX : 0);
 }
-- 
2.43.0


From 86f65f7030da68e77d3bfc2e19617a5b1f41e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 05/66] fix: int3 constructor from int2 and z keeps z

---
 include/math/vector/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/vector/int.hpp b/include/math/vector/int.hpp
index 5f60ace..415e5ce 100644
--- a/include/math/vector/int.hpp
+++ b/include/math/vector/int.hpp
@@ -193,7 +193,7 @@ struct [[nodiscard]] int3
 	 * @param xy first and second vector components value
 	 * @param z third vector component value
 	 */
-	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(x) { }
+	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(z) { }
 	/**
 	 * @brief Creates a new signed integer 3 component vector structure.
 	 *
-- 
2.43.0


From 016bf71bf6a10ca87d1e23de2bc160e0c43f8f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 06/66] fix: no misaligned 64-bit reads in isBinaryLess

---
 include/math/vector/float.hpp | 2 +-
 include/math/vector/int.hpp   | 2 +-
 include/math/vector/uint.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/vector/float.hpp b/include/math/vector/float.hpp
index cdec884..b9c1648 100644
--- a/include/math/vector/float.hpp
+++ b/include/math/vector/float.hpp
@@ -583,7 +583,7 @@ static uint2 notEqual(float2 a, float2 b) noexcept
  * @param a first vector to binary compare
  * @param b second vector to binary compare
  */
-static bool isBinaryLess(float2 a, float2 b) noexcept { return *((const int64*)&a) < *((const int64*)&b); }
+static bool isBinaryLess(float2 a, float2 b) noexcept { return memcmp(&a, &b, sizeof(float) * 2) < 0; }
 
 /**
  * @brief Selects between two vector components based on the control vector values.
diff --git a/include/math/vector/int.hpp b/include/math/vector/int.hpp
index 415e5ce..02f20fc 100644
--- a/include/math/vector/int.hpp
+++ b/include/math/vector/int.hpp
@@ -587,7 +587,7 @@ static uint2 notEqual(int2 a, int2 b) noexcept
  * @param a first vector to binary compare
  * @param b second vector to binary compare
  */
-static bool isBinaryLess(int2 a, int2 b) noexcept { return *((const int64*)&a) < *((const int64*)&b); }
+static bool isBinaryLess(int2 a, int2 b) noexcept { return memcmp(&a, &b, sizeof(int32) * 2) < 0; }
 
 /**
  * @brief Selects between two vector components based on the control vector values.
diff --git a/include/math/vector/uint.hpp b/include/math/vector/uint.hpp
index cba2dbf..94f9206 100644
--- a/include/math/vector/uint.hpp
+++ b/include/math/vector/uint.hpp
@@ -554,7 +554,7 @@ static uint2 notEqual(uint2 a, uint2 b) noexcept
  * @param a first vector to binary compare
  * @param b second vector to binary compare
  */
-static bool isBinaryLess(uint2 a, uint2 b) noexcept { return *((const uint64*)&a) < *((const uint64*)&b); }
+static bool isBinaryLess(uint2 a, uint2 b) noexcept { return memcmp(&a, &b, sizeof(uint32) * 2) < 0; }
 
 /**
  * @brief Selects between two vector components based on the control vector values.
-- 
2.43.0


From a84de5d384be595dc8c0af9d2b35a6503cb9d9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 07/66] fix: convert u32x4 lanes to and from float as unsigned

---
 include/math/simd/vector/float.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index ec18d7f..39caa2c 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -147,7 +147,9 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	explicit f32x4(u32x4 v)
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		data = _mm_cvtepi32_ps(v.data);
+		auto high = _mm_cvtepi32_ps(_mm_srli_epi32(v.data, 16)); // SSE can convert only signed integers
+		auto low = _mm_cvtepi32_ps(_mm_and_si128(v.data, _mm_set1_epi32(0xFFFF)));
+		data = _mm_add_ps(_mm_mul_ps(high, _mm_set1_ps(65536.0f)), low);
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_u32(v.data);
 		#else
@@ -393,7 +395,10 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	explicit operator u32x4() const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cvttps_epi32(data);
+		auto bias = _mm_set1_ps(2147483648.0f); // SSE can convert only to the signed integers
+		auto isBig = _mm_cmpge_ps(data, bias);
+		auto result = _mm_cvttps_epi32(_mm_sub_ps(data, _mm_and_ps(isBig, bias)));
+		return _mm_xor_si128(result, _mm_slli_epi32(_mm_castps_si128(isBig), 31));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcvtq_u32_f32(data);
 		#else
@@ -1208,7 +1213,7 @@ static f32x4 log(f32x4 v) noexcept
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
-		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)e);
+		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)uintAsInt(e));
 		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
 		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
-- 
2.43.0


From 0358a9d34991cf8323b5a6568676fd7bbdcf9cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 08/66] fix: drop the duplicated coefficient of the SIMD log
 polynomial

---
 include/math/simd/vector/float.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 39caa2c..ec99c70 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1209,7 +1209,6 @@ static f32x4 log(f32x4 v) noexcept
 		auto t = f32x4(0.2392828464508056640625f);
 		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.400005877017974853515625f));
-		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
-- 
2.43.0


From 745e746a67a9f8fe9b56aaf77bcdbec8d7cffd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 09/66] fix: SIMD log of infinity and NaN

---
 include/math/simd/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index ec99c70..24e2df7 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1213,8 +1213,8 @@ static f32x4 log(f32x4 v) noexcept
 		t = fma(t, x2, f32x4(2.0f));
 
 		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)uintAsInt(e));
-		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
-		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
+		x = select(equal(v, f32x4::inf), f32x4::inf, x);
+		x = select((v < f32x4::zero) | notEqual(v, v), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
 		return x;
 	}
-- 
2.43.0


From 94481659328d3b66eff7cd445489c57099b8ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 10/66] fix: SIMD exp propagates NaN

---
 include/math/simd/vector/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 24e2df7..4181982 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1250,7 +1250,7 @@ static f32x4 exp(f32x4 v) noexcept
 		u = u * intAsFloat(((q >> 1) + 0x7f) << 23) * 
 			intAsFloat(((q - (q >> 1)) + 0x7f) << 23);
 
-		u = uintAsFloat(floatAsUint(u) & (v >= -104.0f));
+		u = uintAsFloat(bic(floatAsUint(u), v < -104.0f));
 		u = select(v > 104.0f, f32x4::inf, u);
 		return u;
 	}
-- 
2.43.0


From 860d7b03c6761617b22e86a480f4110f45cd3114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 11/66] fix: vector * matrix takes the dot product with each
 column

---
 include/math/matrix/float.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 95a2233..dc4e2b1 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -575,8 +575,8 @@ static constexpr float2x2 operator/(float n, const float2x2& m) noexcept { retur
 static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 {
 	return float2(
-		m.c0.x * v.x + m.c1.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y);
+		m.c0.x * v.x + m.c0.y * v.y,
+		m.c1.x * v.x + m.c1.y * v.y);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -587,9 +587,9 @@ static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 {
 	return float3(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z);
+		m.c0.x * v.x + m.c0.y * v.y + m.c0.z * v.z,
+		m.c1.x * v.x + m.c1.y * v.y + m.c1.z * v.z,
+		m.c2.x * v.x + m.c2.y * v.y + m.c2.z * v.z);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -600,10 +600,10 @@ static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 static constexpr float4 operator*(float4 v, const float4x4& m) noexcept
 {
 	return float4(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x + m.c3.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y + m.c3.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z + m.c3.z * v.z,
-		m.c0.w * v.w + m.c1.w * v.w + m.c2.w * v.w + m.c3.w * v.w);
+		m.c0.x * v.x + m.c0.y * v.y + m.c0.z * v.z + m.c0.w * v.w,
+		m.c1.x * v.x + m.c1.y * v.y + m.c1.z * v.z + m.c1.w * v.w,
+		m.c2.x * v.x + m.c2.y * v.y + m.c2.z * v.z + m.c2.w * v.w,
+		m.c3.x * v.x + m.c3.y * v.y + m.c3.z * v.z + m.c3.w * v.w);
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From 89be06369f31092d3903d4afacfd8b105f6cdc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 12/66] fix: float4x3 index assertion allows the fourth column

---
 include/math/matrix/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index dc4e2b1..01dc690 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -306,7 +306,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3& operator[](psize i) noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 	/**
@@ -315,7 +315,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3 operator[](psize i) const noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 
-- 
2.43.0


From 7ac761eeb40c1746988b0424210ae7dc1b6bb390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 13/66] fix: f32x4x4 loads an unaligned float4x4

---
 include/math/simd/matrix/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index c93990a..b016ba6 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -77,7 +77,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * @param[in] m target 4x4 matrix value
 	 */
-	explicit f32x4x4(const float4x4& m) noexcept { *this = *((const f32x4x4*)&m); }
+	explicit f32x4x4(const float4x4& m) noexcept : c0(f32x4(m.c0)), c1(f32x4(m.c1)), c2(f32x4(m.c2)), c3(f32x4(m.c3)) { }
 	/**
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * 
-- 
2.43.0


From 26d9875cdf5b5f038a09de6b9739d36bc964c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 14/66] fix: inverse(float2x2) is not transposed

---
 include/math/matrix/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 01dc690..21639a9 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -647,8 +647,8 @@ static constexpr float4x4 transpose(float4x4 m) noexcept
 static constexpr float2x2 inverse(float2x2 m) noexcept
 {
 	auto oneOverDeterminant = 1.0f / (m.c0.x * m.c1.y - m.c1.x * m.c0.y);
-	return float2x2(m.c1.y * oneOverDeterminant, -m.c0.y * oneOverDeterminant,
-		-m.c1.x * oneOverDeterminant, m.c0.x * oneOverDeterminant);
+	return float2x2(m.c1.y * oneOverDeterminant, -m.c1.x * oneOverDeterminant,
+		-m.c0.y * oneOverDeterminant, m.c0.x * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
-- 
2.43.0


From a176f9b3addc011b8fd4e178be95c1c5149e14d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 15/66] fix: inverse(float3x3) uses the transposed cofactors

---
 include/math/matrix/float.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 21639a9..143124a 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -662,14 +662,14 @@ static constexpr float3x3 inverse(float3x3 m) noexcept
 		m.c2.x * (m.c0.y * m.c1.z - m.c1.y * m.c0.z));
 	return float3x3(
 		(m.c1.y * m.c2.z - m.c2.y * m.c1.z) * oneOverDeterminant,
-		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
-		(m.c0.y * m.c2.z - m.c1.y * m.c0.z) * oneOverDeterminant,
 		-(m.c1.x * m.c2.z - m.c2.x * m.c1.z) * oneOverDeterminant,
-		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
-		-(m.c0.x * m.c2.z - m.c1.x * m.c0.z) * oneOverDeterminant,
 		(m.c1.x * m.c2.y - m.c2.x * m.c1.y) * oneOverDeterminant,
+		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
 		-(m.c0.x * m.c2.y - m.c2.x * m.c0.y) * oneOverDeterminant,
-		(m.c0.x * m.c2.y - m.c1.x * m.c0.y) * oneOverDeterminant);
+		(m.c0.y * m.c1.z - m.c1.y * m.c0.z) * oneOverDeterminant,
+		-(m.c0.x * m.c1.z - m.c1.x * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c1.y - m.c1.x * m.c0.y) * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
-- 
2.43.0


From 52093b22592cdbf534deb51b4dd8ce7ab895b58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 16/66] fix: extractPitch uses the singular formula only at the
 singularity

---
 include/math/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/quaternion.hpp b/include/math/quaternion.hpp
index e881444..d8cc435 100644
--- a/include/math/quaternion.hpp
+++ b/include/math/quaternion.hpp
@@ -112,7 +112,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 		auto xx = w * w - x * x - y * y + z * z;
 
 		// Avoid atan2(0, 0) - handle singularity - Matiis
-		if (std::abs(xx) <= FLT_EPSILON || std::abs(yy) <= FLT_EPSILON)
+		if (std::abs(xx) <= FLT_EPSILON && std::abs(yy) <= FLT_EPSILON)
 			return 2.0f * std::atan2(x, w);
 		return std::atan2(yy, xx);
 	}
-- 
2.43.0


From 4e1da2aa66ae91e216e0225aab195984f8c452ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 17/66] fix: extracted Euler angles rebuild the rotation at the
 gimbal singularity

---
 include/math/quaternion.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/math/quaternion.hpp b/include/math/quaternion.hpp
index d8cc435..4c27375 100644
--- a/include/math/quaternion.hpp
+++ b/include/math/quaternion.hpp
@@ -102,19 +102,26 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 	 */
 	quat& operator*=(quat v) noexcept { return *this = *this * v; }
 
+	/**
+	 * @brief Returns true if pitch and roll axes are aligned. (Yaw is +-90 degrees)
+	 */
+	bool isGimbalLock() const noexcept
+	{
+		auto x = getX(), y = getY(), z = getZ(), w = getW();
+		return std::abs(2.0f * (y * z + w * x)) <= 4e-4f && std::abs(w * w - x * x - y * y + z * z) <= 4e-4f;
+	}
+
 	/**
 	 * @brief Extracts SIMD quaternion rotation around X axis. (In radians)
 	 */
 	float extractPitch() const noexcept
 	{
 		auto x = getX(), y = getY(), z = getZ(), w = getW();
-		auto yy = 2.0f * (y * z + w * x);
-		auto xx = w * w - x * x - y * y + z * z;
 
 		// Avoid atan2(0, 0) - handle singularity - Matiis
-		if (std::abs(xx) <= FLT_EPSILON && std::abs(yy) <= FLT_EPSILON)
+		if (isGimbalLock())
 			return 2.0f * std::atan2(x, w);
-		return std::atan2(yy, xx);
+		return std::atan2(2.0f * (y * z + w * x), w * w - x * x - y * y + z * z);
 	}
 	/**
 	 * @brief Extracts SIMD quaternion around Y axis. (In radians)
@@ -128,6 +135,9 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 	 */
 	float extractRoll() const noexcept
 	{
+		if (isGimbalLock())
+			return 0.0f; // Pitch contains full rotation, see the extractPitch().
+
 		auto x = getX(), y = getY(), z = getZ(), w = getW();
 		return std::atan2(2.0f * (x * y + w * z), w * w + x * x - y * y - z * z);
 	}
-- 
2.43.0


From d454c59b0ed08ec8b173128c58f9556e0d03a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 18/66] fix: extractScale returns lengths of the columns, not
 squared lengths

---
 include/math/matrix/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index 6f51f71..ed00aa7 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -110,7 +110,7 @@ static f32x4x4 scale(f32x4 s, const f32x4x4& m) noexcept
  */
 static f32x4 extractScale(const f32x4x4& m) noexcept
 {
-	return f32x4(lengthSq3(m.c0), lengthSq3(m.c1), lengthSq3(m.c2));
+	return f32x4(length3(m.c0), length3(m.c1), length3(m.c2));
 }
 /**
  * @brief Extracts total SIMD matrix 2D scale transformation of an object in 3D space.
@@ -118,7 +118,7 @@ static f32x4 extractScale(const f32x4x4& m) noexcept
  */
 static float2 extractScale2(const f32x4x4& m) noexcept
 {
-	return float2(lengthSq3(m.c0), length3(m.c1));
+	return float2(length3(m.c0), length3(m.c1));
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From dd76e31ece05cead672fc37dad344e87f4dda4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 19/66] fix: lookAtQuat computes the up axis from the direction

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index ed00aa7..664a1a4 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -307,7 +307,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
 {
 	auto right = cross3(up, direction);
 	auto c0 = right * (1.0f / std::sqrt(std::max(0.00001f, dot3(right, right))));
-	auto c1 = cross3(right, c0);
+	auto c1 = cross3(direction, c0);
 	auto m = f32x4x4(c0, c1, direction);
 	return extractQuat(m);
 }
-- 
2.43.0


From 83eca4ce26655b78f4c2f64cda55232a7a14fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 20/66] fix: inverseTransRot transposes only the rotation part

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index 664a1a4..78ca001 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -319,7 +319,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
  */
 static f32x4x4 inverseTransRot(const f32x4x4& m)
 {
-	auto t = transpose4x4(m);
+	auto t = transpose3x3(m);
 	setTranslation(t, -multiply3x3(t, getTranslation(m)));
 	return t;
 }
-- 
2.43.0


From edeb0f08622db8322744d6a2faf2b8af94e07718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 21/66] fix: closest point on a zero-length line

---
 include/math/line.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/math/line.hpp b/include/math/line.hpp
index 19df0c1..7c97f33 100644
--- a/include/math/line.hpp
+++ b/include/math/line.hpp
@@ -81,7 +81,7 @@ struct [[nodiscard]] Line
 static f32x4 closestPoint(const Line& line, f32x4 point) noexcept
 {
 	auto a = line.start, d = line.getDirection(false);
-	auto t = dot3(point - a, d) / dot3(d, d);
+	auto l = dot3(d, d), t = l > 0.0f ? dot3(point - a, d) / l : 0.0f;
 	return fma(d, f32x4(std::clamp(t, 0.0f, 1.0f)), a);
 }
 /**
@@ -94,7 +94,8 @@ static f32x4 closestPoint(const Line& line, f32x4 point) noexcept
 static f32x4 closestPoint(const Line& line, f32x4 point, float& t) noexcept
 {
 	auto a = line.start, d = line.getDirection(false);
-	t = dot3(point - a, d) / dot3(d, d);
+	auto l = dot3(d, d);
+	t = l > 0.0f ? dot3(point - a, d) / l : 0.0f;
 	return fma(d, f32x4(std::clamp(t, 0.0f, 1.0f)), a);
 }
 
-- 
2.43.0


From 5971e27f733f949076d1e4e0871205bf86aa4684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 22/66] fix: closest point on a ray uses the ray direction as
 is

---
 include/math/ray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index ef832bc..c10962e 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -108,8 +108,8 @@ inline const Ray Ray::front = Ray(f32x4::zero, f32x4(0.0f, 0.0f, 1.0f, 0.0f), fa
  */
 static f32x4 closestPoint(const Ray& ray, f32x4 point) noexcept
 {
-	auto a = ray.origin, b = ray.origin + ray.getDirection();
-	auto v = b - a; auto t = dot3(point - a, v) / dot3(v, v);
+	auto a = ray.origin, v = ray.getDirection();
+	auto t = dot3(point - a, v) / dot3(v, v);
 	return fma(ray.getDirection(), f32x4(std::max(t, 0.0f)), a);
 }
 
-- 
2.43.0


From 0bac6322fe865b88394c2ddd551cf3d92916d2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 23/66] fix: plane from a triangle contains its corners

---
 include/math/plane.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/plane.hpp b/include/math/plane.hpp
index 174b988..0204986 100644
--- a/include/math/plane.hpp
+++ b/include/math/plane.hpp
@@ -64,7 +64,7 @@ public:
 		auto normal = cross3(triangle.p1 - triangle.p0, triangle.p2 - triangle.p0);
 		if (length3(normal) > 0.0f)
 			normal = normalize3(normal);
-		auto distance = dot3(normal, triangle.p0);
+		auto distance = -dot3(normal, triangle.p0);
 		normDist = f32x4(normal, distance);
 	}
 
-- 
2.43.0


From 926daa2854a7d500b6254409dbfc0f948eece111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 24/66] fix: points on an edge's extension are not inside the
 triangle

---
 include/math/triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/triangle.hpp b/include/math/triangle.hpp
index cb81804..d5e1fc6 100644
--- a/include/math/triangle.hpp
+++ b/include/math/triangle.hpp
@@ -74,7 +74,7 @@ static bool isInside(const Triangle& triangle, f32x4 point) noexcept
 {
 	auto p0 = triangle.p0 - point, p1 = triangle.p1 - point, p2 = triangle.p2 - point;
 	auto u = cross3(p1, p2), v = cross3(p2, p0), w = cross3(p0, p1);
-	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f)
+	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f || dot3(v, w) < 0.0f)
 		return false;
 	return true;
 }
-- 
2.43.0


From d0b99b9702dcb2ab1932d9b7b7b266d10db22751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 25/66] fix: two boxes intersect when they overlap on every
 axis

---
 include/math/aabb.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 11b56a4..fafa06a 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -424,7 +424,8 @@ static bool raycastI(const Aabb& aabb, const Ray& ray) noexcept
  */
 static bool isIntersected(const Aabb& a, const Aabb& b) noexcept
 {
-	return areAllTrue(a.getMin() <= b.getMax() & a.getMin() >= b.getMax());
+	auto overlap = a.getMin() <= b.getMax() & a.getMax() >= b.getMin();
+	return areAllTrue(u32x4(overlap, UINT32_MAX));
 }
 
 /**
-- 
2.43.0


From 526a417ec443297ce71b622c93c604f8b38ad044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 26/66] fix: point in AABB ignores the fourth lane

---
 include/math/aabb.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index fafa06a..67c1948 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -284,7 +284,8 @@ static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(
  */
 static bool isInside(const Aabb& aabb, f32x4 point) noexcept
 {
-	return areAllTrue(aabb.getMin() <= point & aabb.getMax() >= point);
+	auto inside = aabb.getMin() <= point & aabb.getMax() >= point;
+	return areAllTrue(u32x4(inside, UINT32_MAX));
 }
 /**
  * @brief Returns true if other AABB is inside this AABB in 3D space.
-- 
2.43.0


From b646304c46cae2d83e4b68cbbe2aeca8d87efa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 27/66] fix: AABB in AABB ignores the fourth lane

---
 include/math/aabb.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 67c1948..8a2765c 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -295,7 +295,8 @@ static bool isInside(const Aabb& aabb, f32x4 point) noexcept
  */
 static bool isInside(const Aabb& aabb, const Aabb& other) noexcept
 {
-	return areAllTrue(aabb.getMin() <= other.getMin() & aabb.getMax() >= other.getMax());
+	auto inside = aabb.getMin() <= other.getMin() & aabb.getMax() >= other.getMax();
+	return areAllTrue(u32x4(inside, UINT32_MAX));
 }
 
 /**
-- 
2.43.0


From 4dc1ba65304f30ac51f57b6ed45d6a6c8d02e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 28/66] fix: ray construction determines the parallel axes

---
 include/math/ray.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index c10962e..0dac811 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -47,7 +47,10 @@ public:
 	 * @param normalize is direction vector should be normalized
 	 */
 	Ray(f32x4 origin, f32x4 direction, bool normalize = true) noexcept : 
-		direction(normalize ? normalize3(direction) : direction), origin(origin) { }
+		direction(normalize ? normalize3(direction) : direction), origin(origin)
+	{
+		isParallel = abs(this->direction) <= f32x4(1.0e-20f);
+	}
 	/**
 	 * @brief Creates a new empty ray structure.
 	 */
@@ -66,7 +69,7 @@ public:
 	void setDirection(f32x4 direction, bool normalize = true) noexcept
 	{
 		this->direction = normalize ? normalize3(direction) : direction;
-		isParallel = abs(direction) <= f32x4(1.0e-20f);
+		isParallel = abs(this->direction) <= f32x4(1.0e-20f);
 	}
 
 	/**
-- 
2.43.0


From 02cbbc043ce27fa52f6e22bfa96196f5ee6d818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 29/66] fix: ray cast does not normalise the inverse direction

---
 include/math/aabb.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 8a2765c..5aa4a8f 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -346,7 +346,7 @@ static float2 raycast2I(Aabb aabb, Ray ray) noexcept
  */
 static float2 raycast2(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.setDirection(f32x4::one / ray.getDirection(), false);
 	return raycast2I(aabb, ray);
 }
 
@@ -383,7 +383,7 @@ static float raycast1I(const Aabb& aabb, const Ray& ray) noexcept
  */
 static float raycast1(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.setDirection(f32x4::one / ray.getDirection(), false);
 	return raycast1I(aabb, ray);
 }
 
-- 
2.43.0


From 113392fad47d39a27d6c8dd75631d7ca242f1037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 30/66] fix: inverted ray casts recognise parallel axes

---
 include/math/aabb.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 5aa4a8f..eae95a2 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -319,17 +319,18 @@ static f32x4 closestPoint(const Aabb& aabb, f32x4 point) noexcept
  */
 static float2 raycast2I(Aabb aabb, Ray ray) noexcept
 {
+	auto isParallel = abs(ray.getDirection()) >= f32x4(1.0e20f); // Note: Direction is inversed.
 	auto t1 = (aabb.getMin() - ray.origin) * ray.getDirection();
 	auto t2 = (aabb.getMax() - ray.origin) * ray.getDirection();
-	auto tMin = select(ray.getParallel(), f32x4::minusMax, min(t1, t2));
-	auto tMax = select(ray.getParallel(), f32x4::max, max(t1, t2));
+	auto tMin = select(isParallel, f32x4::minusMax, min(t1, t2));
+	auto tMax = select(isParallel, f32x4::max, max(t1, t2));
 	tMin = max(tMin, tMin.swizzle<SwY, SwZ, SwX>());
 	tMin = max(tMin, tMin.swizzle<SwZ, SwX, SwY>());
 	tMax = min(tMax, tMax.swizzle<SwY, SwZ, SwX>());
 	tMax = min(tMax, tMax.swizzle<SwZ, SwX, SwY>());
 
 	auto noParallelOverlap = (ray.origin < aabb.getMin()) | (ray.origin > aabb.getMax());
-	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (ray.getParallel() & noParallelOverlap);
+	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (isParallel & noParallelOverlap);
 	noIntersection |= noIntersection.splatY();
 	noIntersection |= noIntersection.splatZ();
 
@@ -359,17 +360,18 @@ static float2 raycast2(const Aabb& aabb, Ray ray) noexcept
  */
 static float raycast1I(const Aabb& aabb, const Ray& ray) noexcept
 {
+	auto isParallel = abs(ray.getDirection()) >= f32x4(1.0e20f); // Note: Direction is inversed.
 	auto t1 = (aabb.getMin() - ray.origin) * ray.getDirection();
 	auto t2 = (aabb.getMax() - ray.origin) * ray.getDirection();
-	auto tMin = select(ray.getParallel(), f32x4::minusMax, min(t1, t2));
-	auto tMax = select(ray.getParallel(), f32x4::max, max(t1, t2));
+	auto tMin = select(isParallel, f32x4::minusMax, min(t1, t2));
+	auto tMax = select(isParallel, f32x4::max, max(t1, t2));
 	tMin = max(tMin, tMin.swizzle<SwY, SwZ, SwX>());
 	tMin = max(tMin, tMin.swizzle<SwZ, SwX, SwY>());
 	tMax = min(tMax, tMax.swizzle<SwY, SwZ, SwX>());
 	tMax = min(tMax, tMax.swizzle<SwZ, SwX, SwY>());
 
 	auto noParallelOverlap = (ray.origin < aabb.getMin()) | (ray.origin > aabb.getMax());
-	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (ray.getParallel() & noParallelOverlap);
+	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (isParallel & noParallelOverlap);
 	noIntersection |= noIntersection.splatY();
 	noIntersection |= noIntersection.splatZ();
 	return select(noIntersection, f32x4::max, tMin).getX();
-- 
2.43.0


From 4873076bb7aae3aba77a24a4fe8e423ed543b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 31/66] fix: triangle-box test is right for collinear triangles

---
 source/aabb.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/aabb.cpp b/source/aabb.cpp
index b9cbf71..8fc9d7d 100644
--- a/source/aabb.cpp
+++ b/source/aabb.cpp
@@ -87,7 +87,7 @@ bool math::isAabbIntersected(f32x4 position, f32x4 extent, const Triangle& trian
 	}
 
 	auto normal = cross3(f0, f1);
-	auto distance = std::abs(dot3(normal, v.c0));
+	p = f32x4(dot3(v.c0, normal), dot3(v.c1, normal), dot3(v.c2, normal));
 	r = extX * std::abs(normal.getX()) + extY * std::abs(normal.getY()) + extZ * std::abs(normal.getZ());
-	return distance <= r;
+	return std::max(-max3(p), min3(p)) <= r;
 }
\ No newline at end of file
-- 
2.43.0


From 9e17048d00cfd29f38f119e225a707d804259ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 32/66] fix: AABB trySet rejects an inverted box

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index eae95a2..d9b1f8f 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -107,7 +107,7 @@ public:
 	 */
 	bool trySet(f32x4 min, f32x4 max) noexcept
 	{
-		if (areAllTrue(f32x4(min, 0.0f) > f32x4(max, 1.0f)))
+		if (areAnyTrue(f32x4(min, 0.0f) > f32x4(max, 1.0f)))
 			return false;
 		this->min = min; this->max = max;
 		return true;
-- 
2.43.0


From 52207674b6f524146a37a91edc02e4709a777fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 33/66] fix: the full AABB spans all finite numbers

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index d9b1f8f..cdc22fe 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -265,7 +265,7 @@ inline const Aabb Aabb::zero = Aabb(f32x4::zero, f32x4::zero);
 inline const Aabb Aabb::one = Aabb(f32x4(-0.5f), f32x4(0.5f));
 inline const Aabb Aabb::two = Aabb(f32x4::minusOne, f32x4::one);
 inline const Aabb Aabb::half = Aabb(f32x4(-0.25f), f32x4(0.25f));
-inline const Aabb Aabb::full = Aabb(f32x4::min, f32x4::max);
+inline const Aabb Aabb::full = Aabb(f32x4::minusMax, f32x4::max);
 inline const Aabb Aabb::inf = Aabb(f32x4::minusInf, f32x4::inf);
 
 /**
-- 
2.43.0


From 9db694ba3117ba0ca39d16836cbe47d1df8be73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 34/66] fix: BVH partition stays inside the node's primitives

---
 source/bvh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 9b8a83c..e7432a7 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -326,13 +326,13 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = lastPrimitive;
+		while (i < j)
 		{
 			if (centroidData[primitives[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitives[i], primitives[j--]);
+				std::swap(primitives[i], primitives[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
@@ -459,13 +459,13 @@ void Bvh::recreate(const Aabb* aabbs, const Aabb& rootAabb, uint32 aabbCount, co
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = lastPrimitive;
+		while (i < j)
 		{
 			if (centroidData[primitiveData[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitiveData[i], primitiveData[j--]);
+				std::swap(primitiveData[i], primitiveData[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
-- 
2.43.0


From 10118b26c3aebb582336421be1b68c22c1c3f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 35/66] fix: BVH bins count primitives in an integer of their
 own

---
 source/bvh.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index e7432a7..bd31692 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -67,8 +67,7 @@ namespace math
 	{
 		f32x4 min = f32x4::max;
 		f32x4 max = f32x4::minusMax;
-
-		int32& primitiveCount() noexcept { return max.ints.w; }
+		int32 primitiveCount = 0;
 	};
 }
 
@@ -119,7 +118,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 			auto& bin = bins[binIndex];
 			bin.min = min(min(min(bin.min, v0), v1), v2);
 			bin.max = max(max(max(bin.max, v0), v1), v2);
-			bin.primitiveCount()++;
+			bin.primitiveCount++;
 		}
 
 		float leftArea[BIN_COUNT - 1], rightArea[BIN_COUNT - 1];
@@ -130,12 +129,12 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 
 		for (int i = 0; i < BIN_COUNT - 1; i++)
 		{
-			leftSum += bins[i].primitiveCount();
+			leftSum += bins[i].primitiveCount;
 			leftCount[i] = leftSum;
 			leftMin = min(leftMin, bins[i].min);
 			leftMax = max(leftMax, bins[i].max);
 			leftArea[i] = calcArea(leftMin, leftMax);
-			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount();
+			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount;
 			rightCount[(BIN_COUNT - 2) - i] = rightSum;
 			rightMin = min(rightMin, bins[(BIN_COUNT - 1) - i].min);
 			rightMax = max(rightMax, bins[(BIN_COUNT - 1) - i].max);
@@ -193,7 +192,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 			auto& bin = bins[binIndex];
 			bin.min = min(bin.min, aabb.getMin());
 			bin.max = max(bin.max, aabb.getMax());
-			bin.primitiveCount()++;
+			bin.primitiveCount++;
 		}
 
 		// TODO: share this function part with a previous one?
@@ -205,12 +204,12 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 
 		for (int i = 0; i < BIN_COUNT - 1; i++)
 		{
-			leftSum += bins[i].primitiveCount();
+			leftSum += bins[i].primitiveCount;
 			leftCount[i] = leftSum;
 			leftMin = min(leftMin, bins[i].min);
 			leftMax = max(leftMax, bins[i].max);
 			leftArea[i] = calcArea(leftMin, leftMax);
-			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount();
+			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount;
 			rightCount[(BIN_COUNT - 2) - i] = rightSum;
 			rightMin = min(rightMin, bins[(BIN_COUNT - 1) - i].min);
 			rightMax = max(rightMax, bins[(BIN_COUNT - 1) - i].max);
-- 
2.43.0


From a18063036d33b5854fbedf3a298fba8fcda8de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 36/66] fix: BVH bin index for extremely small or large
 centroid extents

---
 source/bvh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index bd31692..c0fc2f9 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -101,6 +101,8 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 
 		Bin bins[BIN_COUNT] = {};
 		auto scale = BIN_COUNT / (boundsMax - boundsMin);
+		if (scale <= 0.0f || scale > FLT_MAX)
+			continue;
 
 		for (uint32 i = firstPrimitive; i < lastPrimitive; i++)
 		{
@@ -182,6 +184,8 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 
 		Bin bins[BIN_COUNT] = {};
 		auto scale = BIN_COUNT / (boundsMax - boundsMin);
+		if (scale <= 0.0f || scale > FLT_MAX)
+			continue;
 
 		for (uint32 i = firstPrimitive; i < lastPrimitive; i++)
 		{
-- 
2.43.0


From fbf4b60caad66646c32a2517bde873cdbe3decdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 37/66] fix: BVH reads vertices of any stride

---
 source/bvh.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index c0fc2f9..c7c9599 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -22,6 +22,12 @@
 
 using namespace math;
 
+static f32x4 getVertex(const uint8* data) noexcept // Vertex stride can be unaligned.
+{
+	float3 vertex; memcpy(&vertex, data, sizeof(float3));
+	return f32x4(vertex);
+}
+
 //**********************************************************************************************************************
 static Aabb calculateNodeAabb(uint32 firstPrimitive, uint32 primitiveCount, const uint8* vertices, const uint8* indices,
 	const uint32* primitives, uint32 vertexSize, uint32 indexSize, const function<uint32(const uint8*)>& getIndex)
@@ -35,9 +41,9 @@ static Aabb calculateNodeAabb(uint32 firstPrimitive, uint32 primitiveCount, cons
 		auto i0 = getIndex(indices + (offset    ) * indexSize);
 		auto i1 = getIndex(indices + (offset + 1) * indexSize);
 		auto i2 = getIndex(indices + (offset + 2) * indexSize);
-		auto v0 = f32x4(*(const float3*)(vertices + i0 * vertexSize));
-		auto v1 = f32x4(*(const float3*)(vertices + i1 * vertexSize));
-		auto v2 = f32x4(*(const float3*)(vertices + i2 * vertexSize));
+		auto v0 = getVertex(vertices + i0 * vertexSize);
+		auto v1 = getVertex(vertices + i1 * vertexSize);
+		auto v2 = getVertex(vertices + i2 * vertexSize);
 		min = math::min(math::min(math::min(min, v0), v1), v2); 
 		max = math::max(math::max(math::max(max, v0), v1), v2);
 	}
@@ -111,9 +117,9 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 			auto i0 = getIndex(indices + (offset    ) * indexSize);
 			auto i1 = getIndex(indices + (offset + 1) * indexSize);
 			auto i2 = getIndex(indices + (offset + 2) * indexSize);
-			auto v0 = f32x4(*(const float3*)(vertices + i0 * vertexSize));
-			auto v1 = f32x4(*(const float3*)(vertices + i1 * vertexSize));
-			auto v2 = f32x4(*(const float3*)(vertices + i2 * vertexSize));
+			auto v0 = getVertex(vertices + i0 * vertexSize);
+			auto v1 = getVertex(vertices + i1 * vertexSize);
+			auto v2 = getVertex(vertices + i2 * vertexSize);
 
 			auto binIndex = std::min((int32)(BIN_COUNT - 1), (int32)((
 				centroids[index][a] - boundsMin) * scale));
@@ -287,9 +293,9 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 			auto i0 = getIndex(indices + (offset    ) * indexSize);
 			auto i1 = getIndex(indices + (offset + 1) * indexSize);
 			auto i2 = getIndex(indices + (offset + 2) * indexSize);
-			auto v0 = f32x4(*(const float3*)(vertices + i0 * vertexSize));
-			auto v1 = f32x4(*(const float3*)(vertices + i1 * vertexSize));
-			auto v2 = f32x4(*(const float3*)(vertices + i2 * vertexSize));
+			auto v0 = getVertex(vertices + i0 * vertexSize);
+			auto v1 = getVertex(vertices + i1 * vertexSize);
+			auto v2 = getVertex(vertices + i2 * vertexSize);
 			centroids[i] = (v0 + v1 + v2) * (1.0f / 3.0f);
 		}
 	}
-- 
2.43.0


From 16ab371c051e0e2e00905fe349c2381f825722d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 38/66] fix: normalised color channel setters round to the
 nearest level

---
 include/math/color.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/color.hpp b/include/math/color.hpp
index 1ce9c58..842c8c5 100644
--- a/include/math/color.hpp
+++ b/include/math/color.hpp
@@ -147,19 +147,19 @@ struct [[nodiscard]] Color
 	/**
 	 * @brief Sets sRGB color normalizer R channel. (Red)
 	 */
-	constexpr void setNormR(float r) noexcept { this->r = std::clamp(r, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormR(float r) noexcept { this->r = std::clamp(r, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer G channel. (Green)
 	 */
-	constexpr void setNormG(float g) noexcept { this->g = std::clamp(g, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormG(float g) noexcept { this->g = std::clamp(g, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer B channel. (Blue)
 	 */
-	constexpr void setNormB(float b) noexcept { this->b = std::clamp(b, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormB(float b) noexcept { this->b = std::clamp(b, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer A channel. (Alpha)
 	 */
-	constexpr void setNormA(float a) noexcept { this->a = std::clamp(a, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormA(float a) noexcept { this->a = std::clamp(a, 0.0f, 1.0f) * 255.0f + 0.5f; }
 
 	/*******************************************************************************************************************
 	 * @brief Converts sRGB color to the string. (Space separated)
-- 
2.43.0


From b0854ebf0460dff20555eeab7ccd6084a2a85deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 39/66] fix: Color packs and unpacks its binary data without
 type punning

---
 include/math/color.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/math/color.hpp b/include/math/color.hpp
index 842c8c5..b4753d8 100644
--- a/include/math/color.hpp
+++ b/include/math/color.hpp
@@ -53,7 +53,8 @@ struct [[nodiscard]] Color
 	 * @brief Creates a new sRGB color structure from the binary data.
 	 * @param data target binary color data
 	 */
-	constexpr explicit Color(uint32 data) { *(uint32*)this = data; }
+	constexpr explicit Color(uint32 data) noexcept : r((uint8)data), 
+		g((uint8)(data >> 8u)), b((uint8)(data >> 16u)), a((uint8)(data >> 24u)) { }
 	/**
 	 * @brief Creates a new sRGB color structure from the hexadecimal string.
 	 * @param[in] hex target hexadecimal color string
@@ -125,7 +126,10 @@ struct [[nodiscard]] Color
 	/**
 	 * @brief Returns color binary data.
 	 */
-	constexpr explicit operator uint32() const noexcept { return *(const uint32*)this; }
+	constexpr explicit operator uint32() const noexcept
+	{
+		return (uint32)r | ((uint32)g << 8u) | ((uint32)b << 16u) | ((uint32)a << 24u);
+	}
 
 	/*******************************************************************************************************************
 	 * @brief Returns sRGB color normalizer R channel. (Red)
-- 
2.43.0


From 4d86e00806e8d25b34ef5c6f82210c287b266955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 40/66] fix: isBinaryLess(Color) works at any address

---
 include/math/color.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/color.hpp b/include/math/color.hpp
index b4753d8..b7a04ec 100644
--- a/include/math/color.hpp
+++ b/include/math/color.hpp
@@ -258,7 +258,7 @@ static constexpr bool operator>=(uint8 n, Color c) noexcept { return Color(n) >=
  * @param a first color to binary compare
  * @param b second color to binary compare
  */
-static bool isBinaryLess(Color a, Color b) noexcept { return  *((const uint32*)&a) < *((const uint32*)&b); }
+static bool isBinaryLess(Color a, Color b) noexcept { return (uint32)a < (uint32)b; }
 
 // TODO: color conversion functions.
 
-- 
2.43.0


From 5f413fa246faec19ff826e244b7f5f079b17f67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 41/66] fix: toHex of a length beyond the integer's digits

---
 include/math/hex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/hex.hpp b/include/math/hex.hpp
index 807e764..3162cc4 100644
--- a/include/math/hex.hpp
+++ b/include/math/hex.hpp
@@ -34,7 +34,7 @@ static string toHex(T value, psize length = sizeof(T) << 1) noexcept
 	constexpr const char* digits = "0123456789ABCDEF";
 	string hex(length, '0');
 	for (psize i = 0, j = (length - 1) * 4; i < length; i++, j -= 4)
-		hex[i] = digits[(value >> j) & 0x0f];
+		hex[i] = digits[j < sizeof(T) * 8 ? (value >> j) & 0x0f : 0];
 	return hex;
 }
 
-- 
2.43.0


From efef291d72660d5d2cf354f0e3774b095251d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 42/66] fix: RGB and XYZ conversion matrices are no longer
 transposed

---
 include/math/color-space.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/math/color-space.hpp b/include/math/color-space.hpp
index 3086789..b8e57f7 100644
--- a/include/math/color-space.hpp
+++ b/include/math/color-space.hpp
@@ -58,9 +58,9 @@ static f32x4 rgbToXyz(f32x4 rgb) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		0.4124564f, 0.2126729f, 0.0193339f, 0.0f,
-		0.3575761f, 0.7151522f, 0.1191920f, 0.0f,
-		0.1804375f, 0.0721750f, 0.9503041f, 0.0f,
+		0.4124564f, 0.3575761f, 0.1804375f, 0.0f,
+		0.2126729f, 0.7151522f, 0.0721750f, 0.0f,
+		0.0193339f, 0.1191920f, 0.9503041f, 0.0f,
 		0.0f      , 0.0f      , 0.0f      , 0.0f
 	);
 	return multiply3x3(m, rgb);
@@ -73,9 +73,9 @@ static f32x4 xyzToRgb(f32x4 xyz) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		 3.2404542f, -0.9692660f,  0.0556434f, 0.0f,
-		-1.5371385f,  1.8760108f, -0.2040259f, 0.0f,
-		-0.4985314f,  0.0415560f,  1.0572252f, 0.0f,
+		 3.2404542f, -1.5371385f, -0.4985314f, 0.0f,
+		-0.9692660f,  1.8760108f,  0.0415560f, 0.0f,
+		 0.0556434f, -0.2040259f,  1.0572252f, 0.0f,
 		 0.0f      ,  0.0f      ,  0.0f      , 0.0f
 	);
 	return multiply3x3(m, xyz);
-- 
2.43.0


From dc521cf0d62afd037539f2ebea425fe837dee191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 43/66] fix: packed-vector.hpp compiles on its own and set()
 returns nothing

---
 include/math/packed-vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 335ecd5..bcdd25b 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -19,6 +19,8 @@
 
 #pragma once
 #include "math/types.hpp"
+#include <cassert>
+#include <cstdlib>
 #include <vector>
 
 namespace math
@@ -85,7 +87,7 @@ public:
 			byte = (byte & ~((uint8)0x0F << shift)) | ((value & (uint8)0x0F) << shift);
 		}
 	}
-	uint8 set(psize i, uint8 value) noexcept
+	void set(psize i, uint8 value) noexcept
 	{
 		if constexpr (Bits == 1)
 			assert(i / 8 < size());
@@ -93,7 +95,7 @@ public:
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
 			assert(i / 8 < size());
-		return unsafeSet(i, value);
+		unsafeSet(i, value);
 	}
 
 	void resize(psize elementCount)
-- 
2.43.0


From ed56ca66cb1adaef7c5a19c6afdb0fa3ede004b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 44/66] fix: PackedVector copies no longer share or dangle the
 data pointer

---
 include/math/packed-vector.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index bcdd25b..2b7668a 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -29,8 +29,6 @@ namespace math
 template<int Bits = 1>
 class PackedVector final : public std::vector<uint8>
 {
-private:
-	uint8* ptr = nullptr;
 public:
 	PackedVector()
 	{
@@ -46,15 +44,15 @@ public:
 	{
 		if constexpr (Bits == 1)
 		{
-			return (ptr[i / 8] >> (uint8)(i % 8)) & (uint8)0x01;
+			return (data()[i / 8] >> (uint8)(i % 8)) & (uint8)0x01;
 		}
 		else if constexpr (Bits == 2)
 		{
-			return (ptr[i / 4] >> (uint8)((i % 4) * 2)) & (uint8)0x03;
+			return (data()[i / 4] >> (uint8)((i % 4) * 2)) & (uint8)0x03;
 		}
 		else if constexpr (Bits == 4)
 		{
-			return (ptr[i / 2] >> (uint8)((i % 2) * 4)) & (uint8)0x0F;
+			return (data()[i / 2] >> (uint8)((i % 2) * 4)) & (uint8)0x0F;
 		}
 		abort();
 	}
@@ -73,17 +71,17 @@ public:
 	{
 		if constexpr (Bits == 1)
 		{
-			auto& byte = ptr[i / 8]; auto shift = (uint8)(i % 8);
+			auto& byte = data()[i / 8]; auto shift = (uint8)(i % 8);
 			byte = (byte & ~((uint8)0x01 << shift)) | ((value & (uint8)0x01) << shift);
 		}
 		else if constexpr (Bits == 2)
 		{
-			auto& byte = ptr[i / 4]; auto shift = (uint8)((i % 4) * 2);
+			auto& byte = data()[i / 4]; auto shift = (uint8)((i % 4) * 2);
 			byte = (byte & ~((uint8)0x03 << shift)) | ((value & (uint8)0x03) << shift);
 		}
 		else if constexpr (Bits == 4)
 		{
-			auto& byte = ptr[i / 2]; auto shift = (uint8)((i % 2) * 4);
+			auto& byte = data()[i / 2]; auto shift = (uint8)((i % 2) * 4);
 			byte = (byte & ~((uint8)0x0F << shift)) | ((value & (uint8)0x0F) << shift);
 		}
 	}
@@ -106,7 +104,6 @@ public:
 			std::vector<uint8>::resize(elementCount / 4 + (elementCount % 4 != 0 ? 1 : 0));
 		else if constexpr (Bits == 4)
 			std::vector<uint8>::resize(elementCount / 2 + (elementCount % 2 != 0 ? 1 : 0));
-		ptr = data();
 	}
 };
 
-- 
2.43.0


From 900043bbac2d4adf7be2da6312d50b90d65dfc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 45/66] fix: PackedVector elements dropped by resize do not
 reappear

---
 include/math/packed-vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 2b7668a..d4f1f5f 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -104,6 +104,11 @@ public:
 			std::vector<uint8>::resize(elementCount / 4 + (elementCount % 4 != 0 ? 1 : 0));
 		else if constexpr (Bits == 4)
 			std::vector<uint8>::resize(elementCount / 2 + (elementCount % 2 != 0 ? 1 : 0));
+
+		// Elements dropped from the last byte should not reappear when growing again.
+		constexpr psize byteElements = 8 / Bits;
+		if (elementCount % byteElements != 0)
+			back() &= (uint8)((1u << ((elementCount % byteElements) * Bits)) - 1u);
 	}
 };
 
-- 
2.43.0


From 67d1438a815da89d6664fe557c1425a20db45a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 46/66] fix: cubemap texel solid angles are computed in double
 precision

---
 include/math/sh.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 1e5a41b..fe8b536 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -64,16 +64,18 @@ static constexpr int32 shIndex(int32 m, int32 l) noexcept
 {
 	return l * (l + 1) + m;
 }
-static float sphereQuadrantArea(float x, float y) noexcept
+static double sphereQuadrantArea(double x, double y) noexcept
 {
-	return atan2(x * y, length(float3(x, y, 1.0f)));
+	return std::atan2(x * y, std::sqrt(x * x + y * y + 1.0));
 }
 static float calcSolidAngle(float2 st, float invDim) noexcept
 {
-	auto v0 = st - invDim, v1 = st + invDim;
+	// The areas nearly cancel out for small texels, single precision is not enough.
+	double x0 = (double)st.x - invDim, y0 = (double)st.y - invDim;
+	double x1 = (double)st.x + invDim, y1 = (double)st.y + invDim;
 
-	return sphereQuadrantArea(v0.x, v0.y) - sphereQuadrantArea(v0.x, v1.y) -
-		sphereQuadrantArea(v1.x, v0.y) + sphereQuadrantArea(v1.x, v1.y);
+	return (float)(sphereQuadrantArea(x0, y0) - sphereQuadrantArea(x0, y1) -
+		sphereQuadrantArea(x1, y0) + sphereQuadrantArea(x1, y1));
 }
 
 //**********************************************************************************************************************
-- 
2.43.0


From 9157d1cb1a89aa19abaa43eb161f8b66edf8ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 47/66] fix: rotation of the first spherical harmonics band

---
 include/math/sh.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index fe8b536..18d423a 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -142,9 +142,10 @@ static void multiply(const float m[25], const float v[5], float r[5]) noexcept
 //**********************************************************************************************************************
 static float3 rotateSphericalHarmonicBand1(float3 band1, const float3x3& m) noexcept
 {
-	constexpr auto invA1TimesK = float3x3(0.0f, -1.0f, 0.0f, 0.0f, 0.0f, 1.0f, -1.0f, 0.0f, 0.0f);
+	constexpr auto invA1TimesK = float3x3(float3(0.0f, -1.0f, 0.0f), float3(0.0f, 0.0f, 1.0f), float3(-1.0f, 0.0f, 0.0f));
     auto mn0 = m[0], mn1 = m[1], mn2 = m[2];
-	auto r1OverK = float3x3(-mn0.y, mn0.z, -mn0.x, -mn1.y, mn1.z, -mn1.x, -mn2.y, mn2.z, -mn2.x);
+	auto r1OverK = float3x3(float3(-mn0.y, mn0.z, -mn0.x), 
+		float3(-mn1.y, mn1.z, -mn1.x), float3(-mn2.y, mn2.z, -mn2.x));
 	return r1OverK * (invA1TimesK * band1);
 }
 static void rotateSphericalHarmonicBand2(const float band2[5], const float3x3& m, float r[5]) noexcept
-- 
2.43.0


From 932e947a02d760965dd9d8e412285856f22bf228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 48/66] fix: importance sampled half vectors of smooth surfaces

---
 include/math/brdf.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/math/brdf.hpp b/include/math/brdf.hpp
index 4559f92..e1963c1 100644
--- a/include/math/brdf.hpp
+++ b/include/math/brdf.hpp
@@ -82,9 +82,10 @@ static constexpr float2 hammersley(uint32 index, float invSampleCount) noexcept
 static f32x4 importanceSamplingNdfDggx(float2 u, float a) noexcept
 {
     auto phi = 2.0f * (float)M_PI * u.x;
-    auto cosTheta2 = (1.0f - u.y) / (1.0f + (a + 1.0f) * ((a - 1.0f) * u.y));
-    auto cosTheta = std::sqrt(cosTheta2);
-    auto sinTheta = std::sqrt(1.0f - cosTheta2);
+    auto cosTheta2 = 1.0f - u.y, sinTheta2 = a * a * u.y; // Same scale, without cancellation.
+    auto scale = 1.0f / (cosTheta2 + sinTheta2);
+    auto cosTheta = std::sqrt(cosTheta2 * scale);
+    auto sinTheta = std::sqrt(sinTheta2 * scale);
     return f32x4(sinTheta * std::cos(phi), sinTheta * std::sin(phi), cosTheta);
 }
 
-- 
2.43.0


From 21c61be6a64c4b7f7c11a1c805e10f406c306345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 49/66] fix: GGX distribution of smooth surfaces

---
 include/math/brdf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/brdf.hpp b/include/math/brdf.hpp
index e1963c1..f08002e 100644
--- a/include/math/brdf.hpp
+++ b/include/math/brdf.hpp
@@ -42,7 +42,7 @@ namespace math::brdf
  */
 static constexpr float ggx(float noh, float roughness) noexcept
 {
-    auto f = (roughness - 1.0f) * ((roughness + 1.0f) * (noh * noh)) + 1.0f;
+    auto f = (1.0f - noh) * (1.0f + noh) + (roughness * noh) * (roughness * noh);
     return (roughness * roughness) / ((float)M_PI * f * f);
 }
 
-- 
2.43.0


From 5e042181454cf8541161f3d8cfba731ddc136dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 50/66] fix: AABB binary comparison covers all six coordinates

---
 include/math/aabb.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index cdc22fe..ebadf3f 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -274,7 +274,12 @@ inline const Aabb Aabb::inf = Aabb(f32x4::minusInf, f32x4::inf);
  * @param[in] a first AABB to binary compare
  * @param[in] b second AABB to binary compare
  */
-static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(&a, &b, sizeof(float3) * 2) < 0; }
+static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept
+{
+	auto aMin = a.getMin(), aMax = a.getMax(), bMin = b.getMin(), bMax = b.getMax();
+	auto result = memcmp(&aMin, &bMin, sizeof(float) * 3);
+	return result != 0 ? result < 0 : memcmp(&aMax, &bMax, sizeof(float) * 3) < 0;
+}
 
 /***********************************************************************************************************************
  * @brief Returns true if point is inside the AABB in 3D space.
-- 
2.43.0


From ea0c009472ac4b6deb9471d21a8459c2767b403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 51/66] fix: mip count of sizes just below a power of two

---
 include/math/simd/vector/uint.hpp | 2 +-
 include/math/vector/uint.hpp      | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index a3d2a84..7b802fd 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -899,7 +899,7 @@ static u32x4 clamp(u32x4 v, u32x4 min, u32x4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount3(u32x4 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)max3(size)))) + 1u;
+	return calcMipCount(max3(size));
 }
 static u32x4 calcSizeAtMip3(u32x4 sizeAt0, uint8 mip) noexcept
 {
diff --git a/include/math/vector/uint.hpp b/include/math/vector/uint.hpp
index 94f9206..6c021a3 100644
--- a/include/math/vector/uint.hpp
+++ b/include/math/vector/uint.hpp
@@ -903,15 +903,18 @@ static constexpr uint4 clamp(uint4 v, uint4 min, uint4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount(uint32 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)size))) + 1u;
+	uint8 count = 1;
+	while (size >>= 1u)
+		count++;
+	return count;
 }
 static uint8 calcMipCount(uint2 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(size.x, size.y)))) + 1u;
+	return calcMipCount(std::max(size.x, size.y));
 }
 static uint8 calcMipCount(uint3 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(std::max(size.x, size.y), size.z)))) + 1u;
+	return calcMipCount(std::max(std::max(size.x, size.y), size.z));
 }
 
 static uint32 calcSizeAtMip(uint32 sizeAt0, uint8 mip) noexcept
-- 
2.43.0


From 07311be8c4fdcfec63d7f02f3df3dbbddbb40e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 52/66] fix: de-ringing windows each channel's own coefficients

---
 include/math/sh.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 18d423a..a9c611d 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -274,12 +274,12 @@ static float shmin(float shw[shCoeffCount]) noexcept
 static void deringingSH(f32x4 sh[shCoeffCount]) noexcept
 {
 	auto cutoff = (float)(shBandCount * 4 + 1);
-	float shw[shCoeffCount];
+	float shw[shCoeffCount], shc[shCoeffCount];
 
 	for (uint32 channel = 0; channel < 3; channel++)
 	{
 		for (uint32 i = 0; i < shCoeffCount; i++)
-			shw[i] = sh[i][channel];
+			shc[i] = sh[i][channel];
 
 		float l = shBandCount;
 		float r = cutoff;
@@ -287,13 +287,15 @@ static void deringingSH(f32x4 sh[shCoeffCount]) noexcept
 		for (uint32 i = 0; i < 16 && l + 0.1f < r; i++)
 		{
 			float m = 0.5f * (l + r);
+			memcpy(shw, shc, sizeof(shw)); // Both functions change the coefficients.
 			windowing(shw, m);
 			if (shmin(shw) < 0.0f)
 				r = m;
 			else
 				l = m;
-			cutoff = std::min(cutoff, l);
 		}
+
+		cutoff = std::min(cutoff, l);
 	}
 
 	for (int32 l = 0; l < shBandCount; l++)
-- 
2.43.0


From a9d5276c138dcafd4e7637daff884a05a22819db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 53/66] fix: minimum of spherical harmonics with a vertical or
 no first band

---
 include/math/sh.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index a9c611d..e9692ca 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -231,9 +231,12 @@ static float shmin(float shw[shCoeffCount]) noexcept
 		(float)( M_SQRT15 / (4.0 * M_SQRT_PI))
 	};
 
-	auto dir = normalize(float3(-shw[3], -shw[1], shw[2]));
+	auto dir = float3(-shw[3], -shw[1], shw[2]);
+	auto lengthSq = dot(dir, dir);
+	dir = lengthSq > FLT_MIN ? dir * (1.0f / std::sqrt(lengthSq)) : float3(0.0f, 0.0f, 1.0f);
 	auto zAxis = -dir;
-	auto xAxis = normalize(cross(zAxis, float3(0.0f, 1.0f, 0.0f)));
+	auto up = std::abs(dir.y) < 0.99f ? float3(0.0f, 1.0f, 0.0f) : float3(0.0f, 0.0f, 1.0f);
+	auto xAxis = normalize(cross(zAxis, up));
 	auto yAxis = cross(xAxis, zAxis);
 	auto m = transpose(float3x3(xAxis, yAxis, -zAxis));
 	rotateSh3Bands(shw, m, shw);
-- 
2.43.0


From 32bf776888225c7d2bf44b3e712cd67eefc75407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:25 +0000
Subject: [PATCH 54/66] fix: minimum of spherical harmonics is bracketed

---
 include/math/sh.hpp | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index e9692ca..48b0cce 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -255,19 +255,37 @@ static float shmin(float shw[shCoeffCount]) noexcept
 	auto minimum = m0min - 0.5f * d;
 	if (minimum < 0.0f)
 	{
-		auto dz = 0.0f;
-		auto z = (float)-M_SQRT1_2;
+		// Newton's method diverges or finds a maximum here, bracket the minimum at z <= 0 instead. (b and d >= 0)
+		auto evaluate = [=](float angle) noexcept
+		{
+			auto z = -std::cos(angle);
+			return (a * z * z + b * z + c) + (d * z * std::sin(angle));
+		};
+
+		constexpr int32 stepCount = 16;
+		constexpr auto step = (float)(M_PI_2 / stepCount);
+		auto angle = 0.0f; minimum = evaluate(angle);
 
-		do
+		for (int32 i = 1; i <= stepCount; i++)
 		{
-			minimum = (a * z * z + b * z + c) + (d * z * std::sqrt(1.0f - z * z));
-			dz = (z * z - 1.0f) * (d - 2.0f * d * z * z + (b + 2.0f * a * z) * std::sqrt(1.0f - z * z)) / 
-				(3.0f * d * z - 2.0f * d * z * z * z - 2.0f * a * std::pow(1.0f - z * z, 1.5f));
-			z = z - dz;
-		} while (std::abs(z) <= 1.0 && std::abs(dz) > 1e-5f);
-
-		if (std::abs(z) > 1.0f)
-			minimum = std::min(a + b + c, a - b + c);
+			auto value = evaluate(i * step);
+			if (value < minimum)
+			{
+				minimum = value;
+				angle = i * step;
+			}
+		}
+
+		auto l = std::max(angle - step, 0.0f), r = std::min(angle + step, (float)M_PI_2);
+		for (int32 i = 0; i < 20; i++)
+		{
+			auto l1 = l + (r - l) * (1.0f / 3.0f), r1 = r - (r - l) * (1.0f / 3.0f);
+			if (evaluate(l1) < evaluate(r1))
+				r = r1;
+			else
+				l = l1;
+		}
+		minimum = std::min(minimum, evaluate((l + r) * 0.5f));
 	}
 
 	return minimum;
-- 
2.43.0


From 37c299d28d28dc409d99ad633cffa8854fb4f963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 55/66] fix: de-ringing tests one window on all channels

---
 include/math/sh.hpp | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 48b0cce..d198719 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -294,29 +294,28 @@ static float shmin(float shw[shCoeffCount]) noexcept
 //**********************************************************************************************************************
 static void deringingSH(f32x4 sh[shCoeffCount]) noexcept
 {
-	auto cutoff = (float)(shBandCount * 4 + 1);
-	float shw[shCoeffCount], shc[shCoeffCount];
+	auto cutoff = (float)shBandCount;
+	auto r = (float)(shBandCount * 4 + 1);
+	float shw[shCoeffCount];
 
-	for (uint32 channel = 0; channel < 3; channel++)
+	for (uint32 i = 0; i < 16 && cutoff + 0.1f < r; i++)
 	{
-		for (uint32 i = 0; i < shCoeffCount; i++)
-			shc[i] = sh[i][channel];
+		float m = 0.5f * (cutoff + r);
+		auto isNegative = false;
 
-		float l = shBandCount;
-		float r = cutoff;
-
-		for (uint32 i = 0; i < 16 && l + 0.1f < r; i++)
+		// A stronger window can make a channel negative too, so the same one is tested on all channels.
+		for (uint32 channel = 0; channel < 3 && !isNegative; channel++)
 		{
-			float m = 0.5f * (l + r);
-			memcpy(shw, shc, sizeof(shw)); // Both functions change the coefficients.
+			for (uint32 j = 0; j < shCoeffCount; j++)
+				shw[j] = sh[j][channel];
 			windowing(shw, m);
-			if (shmin(shw) < 0.0f)
-				r = m;
-			else
-				l = m;
+			isNegative = shmin(shw) < 0.0f;
 		}
 
-		cutoff = std::min(cutoff, l);
+		if (isNegative)
+			r = m;
+		else
+			cutoff = m;
 	}
 
 	for (int32 l = 0; l < shBandCount; l++)
-- 
2.43.0


From 4ef539640d1455ca86c6abe0d72eb3996153f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:14 +0000
Subject: [PATCH 56/66] fix: BVH index data can start at any byte address

---
 source/bvh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index c7c9599..9635202 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -273,8 +273,8 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 	for (uint32 i = 0; i < primitiveCount; i++)
 		primitives[i] = i;
 
-	function getIndex16 = [](const uint8* data) { return (uint32)*(const uint16*)data; };
-	function getIndex32 = [](const uint8* data) { return *(const uint32*)data; };
+	function getIndex16 = [](const uint8* data) { uint16 index; memcpy(&index, data, sizeof(uint16)); return (uint32)index; };
+	function getIndex32 = [](const uint8* data) { uint32 index; memcpy(&index, data, sizeof(uint32)); return index; };
 
 	auto getIndex = getIndex32;
 	if (indexSize == sizeof(uint16))
-- 
2.43.0


From 293da0e055b0821294056f04914f6d9f97c5d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 57/66] fix: keep ray parallel axis flags in step with its
 direction

---
 include/math/ray.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index 0dac811..371853e 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -80,16 +80,16 @@ public:
 	/**
 	 * @brief Normalizes ray direction vector.
 	 */
-	void normalize() noexcept { direction /= length3(direction);  }
+	void normalize() noexcept { setDirection(direction / length3(direction), false); }
 
 	Ray operator*(f32x4 v) const noexcept { return Ray(origin * v, direction * v); }
 	Ray operator/(f32x4 v) const noexcept { return Ray(origin / v, direction / v); }
 	Ray operator+(f32x4 v) const noexcept { return Ray(origin + v, direction + v); }
 	Ray operator-(f32x4 v) const noexcept { return Ray(origin - v, direction - v); }
-	Ray& operator*=(f32x4 v) noexcept { direction *= v; origin *= v; return *this; }
-	Ray& operator/=(f32x4 v) noexcept { direction /= v; origin /= v; return *this; }
-	Ray& operator+=(f32x4 v) noexcept { direction += v; origin += v; return *this; }
-	Ray& operator-=(f32x4 v) noexcept { direction -= v; origin -= v; return *this; }
+	Ray& operator*=(f32x4 v) noexcept { setDirection(direction * v, false); origin *= v; return *this; }
+	Ray& operator/=(f32x4 v) noexcept { setDirection(direction / v, false); origin /= v; return *this; }
+	Ray& operator+=(f32x4 v) noexcept { setDirection(direction + v, false); origin += v; return *this; }
+	Ray& operator-=(f32x4 v) noexcept { setDirection(direction - v, false); origin -= v; return *this; }
 	bool operator==(const Ray& v) const noexcept { return !memcmp(this, &v, sizeof(Ray)); }
 	bool operator!=(const Ray& v) const noexcept { return memcmp(this, &v, sizeof(Ray)); }
 	
-- 
2.43.0


From 007e7a5f944d929cae550f34f6708b7555a92093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 58/66] fix: areAllTrue and areAnyFalse of u32x4 test every bit
 as documented

---
 include/math/simd/vector/uint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 7b802fd..42dcd38 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -655,7 +655,7 @@ static int getTrues(u32x4 v) noexcept
 static bool areAllTrue(u32x4 v) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data) == 0xFFFF;
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_set1_epi32(-1))) == 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminvq_u32(v.data) == 0xFFFFFFFFu;
 	#else
@@ -698,7 +698,7 @@ static bool areAnyTrue(u32x4 v) noexcept
 static bool areAnyFalse(u32x4 v) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data) != 0xFFFF;
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_set1_epi32(-1))) != 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminvq_u32(v.data) != 0xFFFFFFFFu;
 	#else
-- 
2.43.0


From 7e104ed080171f10db2d5c6f25223d3bafea16e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 59/66] fix: closest point of a triangle to a distant point
 stays on the triangle

---
 include/math/triangle.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/math/triangle.hpp b/include/math/triangle.hpp
index d5e1fc6..ec365e3 100644
--- a/include/math/triangle.hpp
+++ b/include/math/triangle.hpp
@@ -73,6 +73,8 @@ struct [[nodiscard]] Triangle
 static bool isInside(const Triangle& triangle, f32x4 point) noexcept
 {
 	auto p0 = triangle.p0 - point, p1 = triangle.p1 - point, p2 = triangle.p2 - point;
+	if (lengthSq3(p0) > std::max(lengthSq3(triangle.p0 - triangle.p1), lengthSq3(triangle.p0 - triangle.p2)))
+		return false; // Farther than both edges, cross products of a distant point lose their sign.
 	auto u = cross3(p1, p2), v = cross3(p2, p0), w = cross3(p0, p1);
 	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f || dot3(v, w) < 0.0f)
 		return false;
-- 
2.43.0


From a8b2bd67d294b3f955e49210fccd58e290f755df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 60/66] fix: vertices beyond 4 GiB were read at wrapped offsets

---
 source/bvh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 9635202..440ecc3 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -30,7 +30,7 @@ static f32x4 getVertex(const uint8* data) noexcept // Vertex stride can be unali
 
 //**********************************************************************************************************************
 static Aabb calculateNodeAabb(uint32 firstPrimitive, uint32 primitiveCount, const uint8* vertices, const uint8* indices,
-	const uint32* primitives, uint32 vertexSize, uint32 indexSize, const function<uint32(const uint8*)>& getIndex)
+	const uint32* primitives, size_t vertexSize, size_t indexSize, const function<uint32(const uint8*)>& getIndex)
 {
 	auto lastPrimitive = firstPrimitive + primitiveCount;
 	f32x4 min = f32x4::max, max = f32x4::minusMax;
@@ -85,7 +85,7 @@ static float calcArea(f32x4 min, f32x4 max) // Faster than native Aabb calcArea.
 	return dot3(extentXXY, extentYZZ);
 }
 
-static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint32 vertexSize, uint32 indexSize,
+static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, size_t vertexSize, size_t indexSize,
 	const uint8* vertices, const uint8* indices, const uint32* primitives, const f32x4* centroids,
 	const function<uint32(const uint8*)>& getIndex, int32& axis, float& split, float& cost)
 {
@@ -289,13 +289,13 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 
 		for (uint32 i = 0; i < primitiveCount; i++)
 		{
-			auto offset = i * Triangle::pointCount;
+			auto offset = (size_t)i * Triangle::pointCount;
 			auto i0 = getIndex(indices + (offset    ) * indexSize);
 			auto i1 = getIndex(indices + (offset + 1) * indexSize);
 			auto i2 = getIndex(indices + (offset + 2) * indexSize);
-			auto v0 = getVertex(vertices + i0 * vertexSize);
-			auto v1 = getVertex(vertices + i1 * vertexSize);
-			auto v2 = getVertex(vertices + i2 * vertexSize);
+			auto v0 = getVertex(vertices + (size_t)i0 * vertexSize);
+			auto v1 = getVertex(vertices + (size_t)i1 * vertexSize);
+			auto v2 = getVertex(vertices + (size_t)i2 * vertexSize);
 			centroids[i] = (v0 + v1 + v2) * (1.0f / 3.0f);
 		}
 	}
-- 
2.43.0


From 0e99162094e3f887b2bff4cb2941cd6c7924cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 61/66] fix: select compiles without SIMD instructions

---
 include/math/simd/vector/float.hpp | 2 +-
 include/math/simd/vector/int.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 4181982..cd72fa3 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -740,7 +740,7 @@ static f32x4 select(u32x4 c, f32x4 t, f32x4 f) noexcept
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vbslq_f32(vreinterpretq_u32_s32(vshrq_n_s32(vreinterpretq_s32_u32(c.data), 31)), t.data, f.data);
 	#else
-	return f32x4(select(c.floats, t.floats, f.floats));
+	return f32x4(select(c.uints, t.floats, f.floats));
 	#endif
 }
 
diff --git a/include/math/simd/vector/int.hpp b/include/math/simd/vector/int.hpp
index baf49b8..2bc3cc7 100644
--- a/include/math/simd/vector/int.hpp
+++ b/include/math/simd/vector/int.hpp
@@ -759,7 +759,7 @@ static i32x4 select(u32x4 c, i32x4 t, i32x4 f) noexcept
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vbslq_s32(vreinterpretq_u32_s32(vshrq_n_s32(vreinterpretq_s32_u32(c.data), 31)), t.data, f.data);
 	#else
-	return i32x4(select(c.ints, t.ints, f.ints));
+	return i32x4(select(c.uints, t.ints, f.ints));
 	#endif
 }
 
-- 
2.43.0


From 8452a85f33ce6c65037fecfdce415b327f1a9fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 62/66] fix: lane conversions without SIMD instructions

---
 include/math/simd/vector/float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index cd72fa3..b1970bb 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -153,7 +153,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_u32(v.data);
 		#else
-		floats = v.floats;
+		floats = float4(v.uints);
 		#endif
 	}
 	/**
@@ -167,7 +167,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_s32(v.data);
 		#else
-		floats = v.floats;
+		floats = float4(v.ints);
 		#endif
 	}
 
@@ -415,7 +415,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcvtq_s32_f32(data);
 		#else
-		return i32x4((uint4)floats);
+		return i32x4((int4)floats);
 		#endif
 	}
 
-- 
2.43.0


From 748511a9a34773ccefe338720014722509c86da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 63/66] fix: vectors from an array without SIMD instructions

---
 include/math/simd/vector/float.hpp | 2 +-
 include/math/simd/vector/int.hpp   | 2 +-
 include/math/simd/vector/uint.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index b1970bb..81b2cff 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -224,7 +224,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_f32(v);
 		#else
-		floats = *v;
+		floats = float4(v[0], v[1], v[2], v[3]);
 		#endif
 	}
 	
diff --git a/include/math/simd/vector/int.hpp b/include/math/simd/vector/int.hpp
index 2bc3cc7..4506fcc 100644
--- a/include/math/simd/vector/int.hpp
+++ b/include/math/simd/vector/int.hpp
@@ -199,7 +199,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) i32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_s32(v);
 		#else
-		ints = *v;
+		ints = int4(v[0], v[1], v[2], v[3]);
 		#endif
 	}
 	
diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 42dcd38..688ded2 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -190,7 +190,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_u32(v);
 		#else
-		uints = *v;
+		uints = uint4(v[0], v[1], v[2], v[3]);
 		#endif
 	}
 	
-- 
2.43.0


From d7a2643d4c1b2504f51479c3b05ad569e1292fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 64/66] fix: no signed overflow in i32x4 without SIMD
 instructions

---
 include/math/simd/vector/int.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/simd/vector/int.hpp b/include/math/simd/vector/int.hpp
index 4506fcc..ae16c97 100644
--- a/include/math/simd/vector/int.hpp
+++ b/include/math/simd/vector/int.hpp
@@ -403,7 +403,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) i32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vaddq_s32(data, v.data);
 		#else
-		return i32x4(ints + v.ints);
+		return i32x4(u32x4(*this) + u32x4(v)); // unsigned, signed overflow is undefined
 		#endif
 	}
 	i32x4 operator-(i32x4 v) const noexcept
@@ -413,7 +413,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) i32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vsubq_s32(data, v.data);
 		#else
-		return i32x4(ints - v.ints);
+		return i32x4(u32x4(*this) - u32x4(v)); // unsigned, signed overflow is undefined
 		#endif
 	}
 	i32x4 operator*(i32x4 v) const noexcept
@@ -497,7 +497,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) i32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vshlq_s32(data, vdupq_n_s32(n));
 		#else
-		return i32x4(ints << n);
+		return i32x4(u32x4(*this) << n); // unsigned, signed overflow is undefined
 		#endif
 	}
 	i32x4 operator-() const noexcept
@@ -507,7 +507,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) i32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vnegq_s32(data);
 		#else
-		return i32x4(-ints);
+		return i32x4(u32x4::zero - u32x4(*this)); // unsigned, signed overflow is undefined
 		#endif
 	}
 	i32x4 operator!() const noexcept
-- 
2.43.0


From 463aa01847e877671507d7f38a4bba822a4a8c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 65/66] fix: transpose3x3 clears the fourth row without SIMD
 instructions

---
 include/math/simd/matrix/float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index b016ba6..fd56bc0 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -389,9 +389,9 @@ static f32x4x4 transpose3x3(const f32x4x4& m) noexcept
 	#else
 	auto r = transpose((float3x3)m);
 	return f32x4x4(
-		f32x4(r.c0.x, r.c0.y, r.c0.z, m.c3.floats.x), 
-		f32x4(r.c1.x, r.c1.y, r.c1.z, m.c3.floats.y), 
-		f32x4(r.c2.x, r.c2.y, r.c2.z, m.c3.floats.z), m.c3);
+		f32x4(r.c0.x, r.c0.y, r.c0.z, 0.0f), 
+		f32x4(r.c1.x, r.c1.y, r.c1.z, 0.0f), 
+		f32x4(r.c2.x, r.c2.y, r.c2.z, 0.0f), m.c3);
 	#endif
 }
 
-- 
2.43.0


From 79c3430ca66503501307d33f85fc6d49bffbc68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:59 +0000
Subject: [PATCH 66/66] fix: the SIMD integer vector headers include the
 vectors they use

---
 include/math/simd/vector/uint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 688ded2..9c12859 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -19,7 +19,7 @@
 
 #pragma once
 #include "math/simd/types.hpp"
-#include "math/vector/uint.hpp"
+#include "math/vector/float.hpp"
 
 namespace math
 {
-- 
2.43.0

