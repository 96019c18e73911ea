From d1f066d90c6378082ca424e508bb8e35c1b41c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 01/24] fix: 16-bit left shift by more than 15 must not modify
 the neighbouring element (SSE..AVX)

---
 experimental/bits/simd_x86.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index d6dda28..0d30fa9 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1760,10 +1760,12 @@ template <typename _Abi>
 		using _UInt4 = __vector_type_t<unsigned, 4>;
 		const _UInt4 __yu
 		  = reinterpret_cast<_UInt4>(__to_intrin(__y + (0x3f8 >> 3)));
+		// the low factor must not reach into the high 16 bits (y > 15)
 		return __x
 		       * __intrin_bitcast<_V>(
-			 __vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			   reinterpret_cast<_Float4>(__yu << 23)))
+			 (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+			    reinterpret_cast<_Float4>(__yu << 23)))
+			  & 0xffff)
 			 | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
 			      reinterpret_cast<_Float4>((__yu >> 16) << 23)))
 			    << 16));
-- 
2.43.0


From 487daae25bbdc70a2f54241b42eaf5f6feec8eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 02/24] fix: signed 8- and 16-bit right shift by the element
 width or more must fill with the sign

---
 experimental/bits/simd_x86.h | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 0d30fa9..34ec0b5 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2013,12 +2013,16 @@ template <typename _Abi>
 		__xl = __vector_bitcast<short>(
 		  _CommonImplX86::_S_blend_intrin(__maskl(), __to_intrin(__xl),
 						  __to_intrin(__xl1)));
+		const auto __shifted
+		  = __vector_bitcast<_Up>((__xh & short(0xff00)))
+		    | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
+					    >> 8);
+		const auto __small
+		  = (__vector_bitcast<_Up>(__iy) & char(0xf8)) == 0;
+		// y > 7 leaves only copies of the sign bit
 		return __intrin_bitcast<_V>(
-		  (__vector_bitcast<_Up>((__xh & short(0xff00)))
-		   | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
-					   >> 8))
-		  & ((__vector_bitcast<_Up>(__iy) & char(0xf8))
-		     == 0)); // y > 7 nulls the result
+		  (__shifted & __small)
+		  | __vector_bitcast<_Up>((__shifted < 0) & ~__small));
 	      }
 	    else if constexpr (is_unsigned_v<_Up> && sizeof(__x) > 2) // SSE2
 	      {
@@ -2064,8 +2068,10 @@ template <typename _Abi>
 		__x = __vector_bitcast<_Up>((__xh & short(0xff00)))
 		      | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
 					      >> 8);
-		return __x
-		       & ((__y & char(0xf8)) == 0); // y > 7 nulls the result
+		const auto __small = (__y & char(0xf8)) == 0;
+		// y > 7 leaves only copies of the sign bit
+		return (__x & __small)
+		       | __vector_bitcast<_Up>((__x < 0) & ~__small);
 	      }
 	    else
 	      return __x >> __y;
@@ -2116,10 +2122,12 @@ template <typename _Abi>
 		auto __x128 = __vector_bitcast<_Up>(__ix);
 		//__mask *= 0x0808;
 		__mask = (__mask << 3) | (__mask << 11);
-		// do __x128 = 0 where __y[4] is set
-		__x128 = __vector_bitcast<_Up>(
-		  _mm_blendv_epi8(__to_intrin(__x128), __m128i(),
-				  __to_intrin(__mask)));
+		// do __x128 = 0 (or only sign bits) where __y[4] is set
+		__x128 = __vector_bitcast<_Up>(_mm_blendv_epi8(
+		  __to_intrin(__x128),
+		  __to_intrin(is_signed_v<_Up> ? __x128 >> 15
+					       : decltype(__x128)()),
+		  __to_intrin(__mask)));
 		// do __x128 =>> 8 where __y[3] is set
 		__x128 = __vector_bitcast<_Up>(
 		  _mm_blendv_epi8(__to_intrin(__x128), __to_intrin(__x128 >> 8),
@@ -2144,8 +2152,10 @@ template <typename _Abi>
 		auto __mask = [](__vector_type16_t<_UShort> __kk) {
 		  return __vector_bitcast<short>(__kk) < 0;
 		};
-		// do __x128 = 0 where __y[4] is set
-		__x128 = __mask(__k) ? decltype(__x128)() : __x128;
+		// do __x128 = 0 (or only sign bits) where __y[4] is set
+		__x128 = __mask(__k) ? (is_signed_v<_Up> ? __x128 >> 15
+							 : decltype(__x128)())
+				     : __x128;
 		// do __x128 =>> 8 where __y[3] is set
 		__x128 = __mask(__k += __k) ? __x128 >> 8 : __x128;
 		// do __x128 =>> 4 where __y[2] is set
-- 
2.43.0


From 17f8ebb7c7d1f1257bf9dfcbf05fa1fc9f9d9248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 03/24] fix: integer division must not overflow (trap) in
 padding elements

---
 experimental/bits/simd_builtin.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index f048c07..ae499bc 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1042,18 +1042,14 @@ template <int _UsedBytes>
 	  {
 	    _GLIBCXX_SIMD_USE_CONSTEXPR auto __implicit_mask
 	      = __vector_bitcast<_Tp>(_S_implicit_mask<_Tp>());
-	    if constexpr (is_integral_v<_Tp>)
-	      return __or(__x, ~__implicit_mask);
-	    else
-	      {
-		_GLIBCXX_SIMD_USE_CONSTEXPR auto __one
-		  = __andnot(__implicit_mask,
-			     __vector_broadcast<_S_full_size<_Tp>>(_Tp(1)));
-		// it's not enough to return `x | 1_in_padding` because the
-		// padding in x might be inf or nan (independent of
-		// __FINITE_MATH_ONLY__, because it's about padding bits)
-		return __or(__and(__x, __implicit_mask), __one);
-	      }
+	    _GLIBCXX_SIMD_USE_CONSTEXPR auto __one
+	      = __andnot(__implicit_mask,
+			 __vector_broadcast<_S_full_size<_Tp>>(_Tp(1)));
+	    // it's not enough to return `x | 1_in_padding` because the padding
+	    // in x might be inf or nan (independent of __FINITE_MATH_ONLY__,
+	    // because it's about padding bits), or -1, with which integer
+	    // division of the minimum overflows (traps)
+	    return __or(__and(__x, __implicit_mask), __one);
 	  }
       }
     // }}}
@@ -1194,7 +1190,11 @@ template <int _UsedBytes>
 	  {
 	    constexpr size_t _Np = _S_size<_Tp>;
 	    if constexpr (is_integral_v<typename _TVT::value_type>)
-	      return __x
+	      // it's not enough to return `x | 1_in_padding` because the padding
+	      // in x might be -1 and `MIN / -1` overflows (traps)
+	      return (__x
+		      & __generate_vector<_Tp, _S_full_size<_Tp>>(
+			[](auto __i) -> _Tp { return __i < _Np ? -1 : 0; }))
 		     | __generate_vector<_Tp, _S_full_size<_Tp>>(
 		       [](auto __i) -> _Tp {
 			 if (__i < _Np)
-- 
2.43.0


From 55710dbd443754974956313a84d9dc044d7a03ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 04/24] fix: sph_legendre must call std::sph_legendre

---
 experimental/bits/simd_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 6316523..1d08f14 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -1477,7 +1477,7 @@ template <typename _Tp, typename _Abi>
 	       const simd<_Tp, _Abi>& theta)
   {
     return simd<_Tp, _Abi>([&](auto __i) {
-      return std::assoc_legendre(__l[__i], __m[__i], theta[__i]);
+      return std::sph_legendre(__l[__i], __m[__i], theta[__i]);
     });
   }
 
-- 
2.43.0


From d66c410742f9c31534236c95f05663ff82908b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 05/24] fix: hmin/hmax of a where-expression must return
 infinity if only infinities are selected

---
 experimental/bits/simd.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 4c89311..5e76b3c 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3508,11 +3508,14 @@ template <typename _M, typename _V>
   {
     using _Tp = typename _V::value_type;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_max_v<_Tp>;
 #else
       __value_or<__infinity, _Tp>(__finite_max_v<_Tp>);
 #endif
+    if constexpr (__id_elem != __finite_max_v<_Tp>)
+      if (none_of(__get_mask(__x)))
+	return __finite_max_v<_Tp>;
     _V __tmp = __id_elem;
     _V::_Impl::_S_masked_assign(__data(__get_mask(__x)), __data(__tmp),
 				__data(__get_lvalue(__x)));
@@ -3526,7 +3529,7 @@ template <typename _M, typename _V>
   {
     using _Tp = typename _V::value_type;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_min_v<_Tp>;
 #else
       [] {
@@ -3536,6 +3539,9 @@ template <typename _M, typename _V>
 	  return __finite_min_v<_Tp>;
       }();
 #endif
+    if constexpr (__id_elem != __finite_min_v<_Tp>)
+      if (none_of(__get_mask(__x)))
+	return __finite_min_v<_Tp>;
     _V __tmp = __id_elem;
     _V::_Impl::_S_masked_assign(__data(__get_mask(__x)), __data(__tmp),
 				__data(__get_lvalue(__x)));
-- 
2.43.0


From bd544b0a23baec9877925e31cec8d35ba1b4475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 06/24] fix: to_native and to_compatible must be callable for
 fixed_size masks

---
 experimental/bits/simd.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 5e76b3c..2828bd4 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3035,16 +3035,18 @@ template <typename _Tp, int _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == native_simd_mask<_Tp>::size()), native_simd_mask<_Tp>>
   to_native(const fixed_size_simd_mask<_Tp, _Np>& __x)
   {
-    return native_simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; });
+    alignas(memory_alignment_v<native_simd_mask<_Tp>>) bool __mem[_Np];
+    __x.copy_to(__mem, vector_aligned);
+    return native_simd_mask<_Tp>(__mem, vector_aligned);
   }
 
 // to_compatible {{{2
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC enable_if_t<(_Np == simd<_Tp>::size()), simd<_Tp>>
   to_compatible(const simd<_Tp, simd_abi::fixed_size<_Np>>& __x)
   {
@@ -3053,11 +3055,15 @@ template <typename _Tp, size_t _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == simd_mask<_Tp>::size()), simd_mask<_Tp>>
   to_compatible(const simd_mask<_Tp, simd_abi::fixed_size<_Np>>& __x)
-  { return simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; }); }
+  {
+    alignas(memory_alignment_v<simd_mask<_Tp>>) bool __mem[_Np];
+    __x.copy_to(__mem, vector_aligned);
+    return simd_mask<_Tp>(__mem, vector_aligned);
+  }
 
 // masked assignment [simd_mask.where] {{{1
 
-- 
2.43.0


From f2db832e9943922e948d29a7f37ea258c6f7c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 07/24] fix: find_last_set must ignore the padding bits of
 partial bitmasks

---
 experimental/bits/simd_x86.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 34ec0b5..edc933e 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -5167,7 +5167,8 @@ template <typename _Abi>
       _S_find_last_set(simd_mask<_Tp, _Abi> __k)
       {
 	if constexpr (__is_avx512_abi<_Abi>())
-	  return std::__bit_width(__k._M_data._M_data) - 1;
+	  // padding bits may be set, e.g. after a negated comparison
+	  return std::__bit_width(_Abi::_S_masked(__k._M_data)._M_data) - 1;
 	else
 	  return _Base::_S_find_last_set(__k);
       }
-- 
2.43.0


From f70b8fa32614b3e6481fae41b430f18e8fc726da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 08/24] fix: popcount of 256-bit masks without popcnt must
 return the result

---
 experimental/bits/simd_x86.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index edc933e..78d86f8 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -5138,7 +5138,7 @@ template <typename _Abi>
 		// use a summation
 		using _I = __int_for_sizeof_t<_Tp>;
 		const auto __as_int = __vector_bitcast<_I>(__kk);
-		_MaskImplX86<simd_abi::__sse>::_S_popcount(
+		return _MaskImplX86<simd_abi::__sse>::_S_popcount(
 		  simd_mask<_I, simd_abi::__sse>(__private_init,
 						 __lo128(__as_int)
 						   + __hi128(__as_int)));
-- 
2.43.0


From b38c739d7cca22ea5bd672bce32882b38aaacb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:19 +0000
Subject: [PATCH 09/24] fix: where-expressions must support <<= and >>=

---
 experimental/bits/simd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 2828bd4..f7dbcfd 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3234,8 +3234,8 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(&, _S_bit_and);
     _GLIBCXX_SIMD_OP_(|, _S_bit_or);
     _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
-    _GLIBCXX_SIMD_OP_(<<, _S_shift_left);
-    _GLIBCXX_SIMD_OP_(>>, _S_shift_right);
+    _GLIBCXX_SIMD_OP_(<<, _S_bit_shift_left);
+    _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right);
 #undef _GLIBCXX_SIMD_OP_
 
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
-- 
2.43.0


From a9086829ef27da2339dfcae7b5ae3f81adf1dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:34 +0000
Subject: [PATCH 10/24] fix: masked compound assignment must wrap the
 operator's result before blending

The bit-shift implementations return vector built-ins, so that the generic
(non-lambda) blend branch of _S_masked_cassign did not compile for <<= and >>=.
---
 experimental/bits/simd_builtin.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index ae499bc..f08a2ac 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2506,7 +2506,8 @@ template <typename _Abi>
 	  __lhs = __op(_SuperImpl{}, __lhs, __rhs);
 	else
 	  __lhs = _CommonImpl::_S_blend(__k, __lhs,
-					__op(_SuperImpl{}, __lhs, __rhs));
+					_SimdWrapper<_Tp, _Np>(
+					  __op(_SuperImpl{}, __lhs, __rhs)));
       }
 
     template <typename _Op, typename _Tp, typename _K, size_t _Np>
-- 
2.43.0


From 99ad598d16affcc392336acde1abf18e64727587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 11/24] fix: masked integer division must not evaluate the
 divisor of unselected elements

where(k, a) /= b and %= b trapped when b is 0 (or the quotient overflows) in an
element not selected by k.
---
 experimental/bits/simd.h | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index f7dbcfd..36ff9a4 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3229,8 +3229,6 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(+, _S_plus);
     _GLIBCXX_SIMD_OP_(-, _S_minus);
     _GLIBCXX_SIMD_OP_(*, _S_multiplies);
-    _GLIBCXX_SIMD_OP_(/, _S_divides);
-    _GLIBCXX_SIMD_OP_(%, _S_modulus);
     _GLIBCXX_SIMD_OP_(&, _S_bit_and);
     _GLIBCXX_SIMD_OP_(|, _S_bit_or);
     _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
@@ -3238,6 +3236,35 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right);
 #undef _GLIBCXX_SIMD_OP_
 
+    // Integer division: the divisor of the unselected elements must not be
+    // evaluated (it may be 0), thus divide those by 1.
+#define _GLIBCXX_SIMD_OP_(__op, __name)                                        \
+  template <typename _Up>                                                      \
+    _GLIBCXX_SIMD_INTRINSIC void operator __op##=(_Up&& __x)&&                 \
+    {                                                                          \
+      auto __div = [](auto __impl, auto __lhs, auto __rhs) constexpr {         \
+	return __impl.__name(__lhs, __rhs);                                    \
+      };                                                                       \
+      if constexpr (is_integral_v<value_type>)                                 \
+	{                                                                      \
+	  _Tp __divisor(value_type(1));                                        \
+	  _Impl::_S_masked_assign(__data(_M_k), __data(__divisor),             \
+				  __to_value_type_or_member_type<_Tp>(         \
+				    static_cast<_Up&&>(__x)));                 \
+	  _Impl::template _S_masked_cassign(__data(_M_k), __data(_M_value),    \
+					    __data(__divisor), __div);         \
+	}                                                                      \
+      else                                                                     \
+	_Impl::template _S_masked_cassign(__data(_M_k), __data(_M_value),      \
+					  __to_value_type_or_member_type<_Tp>( \
+					    static_cast<_Up&&>(__x)),          \
+					  __div);                              \
+    }                                                                          \
+  static_assert(true)
+    _GLIBCXX_SIMD_OP_(/, _S_divides);
+    _GLIBCXX_SIMD_OP_(%, _S_modulus);
+#undef _GLIBCXX_SIMD_OP_
+
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
     {
       __data(_M_value)
-- 
2.43.0


From 841c6386bc700db89d8d82d852962ed3c6412521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 12/24] fix: masked 32-bit unsigned right shift (SSE2):
 out-of-range counts of unselected elements must not modify their neighbours

---
 experimental/bits/simd_x86.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 78d86f8..0a9f954 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2188,8 +2188,11 @@ template <typename _Abi>
 		  return __intrin_bitcast<_V>(
 		    _mm_blend_epi16(_mm_slli_epi64(__r13, 1), __r02, 0x33));
 		else
+		  // An out-of-range __y[i] (i.e. UB, unless a where-expression does
+		  // not select i) must not modify element i + 1.
 		  return __intrin_bitcast<_V>(
-		    __r02 | _mm_slli_si128(_mm_srli_epi64(__r13, 31), 4));
+		    _mm_srli_epi64(_mm_slli_epi64(__r02, 32), 32)
+		    | _mm_slli_epi64(_mm_srli_epi64(__r13, 31), 32));
 	      }
 	    else
 	      {
-- 
2.43.0


From ad86799fa87fb2dab7b35f09741017f87767aecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 13/24] fix: where(mask, mask) = bool must not require
 simd_mask<int> (AVX without AVX2)

---
 experimental/bits/simd_builtin.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index f08a2ac..696a184 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2883,8 +2883,10 @@ template <typename _Abi>
 	      __lhs = __or(__k, __lhs);
 	    return;
 	  }
-	__lhs = _CommonImpl::_S_blend(__k, __lhs,
-				      __data(simd_mask<_Tp, _Abi>(__rhs)));
+	// simd_mask<_Tp, _Abi> may be ill-formed: _Tp is the integer type of the
+	// mask vector (e.g. int for simd_mask<float>)
+	__lhs = _CommonImpl::_S_blend(
+	  __k, __lhs, _SuperImpl::template _S_broadcast<_Tp>(__rhs));
       }
 
     //}}}2
-- 
2.43.0


From 102b08674945cf06e4e42e1bb812c7bfcbd450dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 14/24] fix: masked loads and stores must ignore the padding of
 partially filled masks

---
 experimental/bits/simd_builtin.h |  4 +++-
 experimental/bits/simd_x86.h     | 12 +++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 696a184..10bb7a8 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1554,9 +1554,11 @@ template <typename _Abi>
     template <typename _TW, typename _TVT = _VectorTraits<_TW>,
 	      typename _Tp = typename _TVT::value_type, typename _Up>
       static inline void
-      _S_masked_store(const _TW __v, _Up* __mem, const _MaskMember<_Tp> __k)
+      _S_masked_store(const _TW __v, _Up* __mem, _MaskMember<_Tp> __k)
 	noexcept
       {
+	// the padding of a partial mask must not select memory for the store
+	__k = _Abi::_S_masked(__k);
 	constexpr size_t _TV_size = _S_size<_Tp>;
 	[[maybe_unused]] const auto __vi = __to_intrin(__v);
 	constexpr size_t __max_store_size
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 0a9f954..b834e11 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -933,7 +933,7 @@ template <typename _Abi>
 		  = __or(__andnot(__vector_bitcast<_Tp>(__k), __merge._M_data),
 			 __vector_bitcast<_Tp, _Np>(
 			   __maskload_epi32(reinterpret_cast<const int*>(__mem),
-					    __to_intrin(__k))));
+					    __to_intrin(_Abi::_S_masked(__k)))));
 	      }
 	    else if constexpr (__have_avx && sizeof(_Tp) == 4)
 	      {
@@ -942,7 +942,7 @@ template <typename _Abi>
 		  = __or(__andnot(__vector_bitcast<_Tp>(__k), __merge._M_data),
 			 __vector_bitcast<_Tp, _Np>(
 			   __maskload_ps(reinterpret_cast<const float*>(__mem),
-					 __to_intrin(__k))));
+					 __to_intrin(_Abi::_S_masked(__k)))));
 	      }
 	    else if constexpr ((__is_avx512_abi<_Abi>() || __have_avx512vl)
 			       && sizeof(_Tp) == 8 && is_integral_v<_Up>)
@@ -984,7 +984,7 @@ template <typename _Abi>
 		  = __or(__andnot(__vector_bitcast<_Tp>(__k), __merge._M_data),
 			 __vector_bitcast<_Tp, _Np>(__maskload_epi64(
 			   reinterpret_cast<const _LLong*>(__mem),
-			   __to_intrin(__k))));
+			   __to_intrin(_Abi::_S_masked(__k)))));
 	      }
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      {
@@ -993,7 +993,7 @@ template <typename _Abi>
 		  = __or(__andnot(__vector_bitcast<_Tp>(__k), __merge._M_data),
 			 __vector_bitcast<_Tp, _Np>(
 			   __maskload_pd(reinterpret_cast<const double*>(__mem),
-					 __to_intrin(__k))));
+					 __to_intrin(_Abi::_S_masked(__k)))));
 	      }
 	    else
 	      _BitOps::_S_bit_iteration(_MaskImpl::_S_to_bits(__k),
@@ -4465,6 +4465,7 @@ template <typename _Abi>
       {
 	if constexpr (__is_avx512_abi<_Abi>())
 	  {
+	    __mask = _Abi::_S_masked(__mask);
 	    if constexpr (__have_avx512bw_vl)
 	      {
 		if constexpr (_Np <= 16)
@@ -4700,11 +4701,12 @@ template <typename _Abi>
     template <typename _Tp, size_t _Np>
       static inline void
       _S_masked_store(const _SimdWrapper<_Tp, _Np> __v, bool* __mem,
-		      const _SimdWrapper<_Tp, _Np> __k) noexcept
+		      _SimdWrapper<_Tp, _Np> __k) noexcept
       {
 	if constexpr (__is_avx512_abi<_Abi>())
 	  {
 	    static_assert(is_same_v<_Tp, bool>);
+	    __k = _Abi::_S_masked(__k);
 	    if constexpr (_Np <= 16 && __have_avx512bw_vl)
 	      _mm_mask_storeu_epi8(__mem, __k, _mm_maskz_set1_epi8(__v, 1));
 	    else if constexpr (_Np <= 16)
-- 
2.43.0


From 0e2066e72a970e080ade3eeb3291af2452e7f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 15/24] fix: masked stores must not use maskmovdqu, which
 faults on unselected bytes

---
 experimental/bits/simd_x86.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index b834e11..62e1617 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1187,8 +1187,11 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 			       __vector_bitcast<double>(__vi));
-	    else if constexpr (__have_sse2)
-	      _mm_maskmoveu_si128(__vi, __ki, reinterpret_cast<char*>(__mem));
+	    else // maskmovdqu may fault on bytes that are not selected
+	      _BitOps::_S_bit_iteration(
+		_MaskImpl::_S_to_bits(__k), [&](auto __i) {
+		  __mem[__i] = __v[__i];
+		});
 	  }
 	else if constexpr (sizeof(__v) == 32)
 	  {
@@ -1213,13 +1216,11 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm256_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 				  __vector_bitcast<double>(__v));
-	    else if constexpr (__have_sse2)
-	      {
-		_mm_maskmoveu_si128(__lo128(__vi), __lo128(__ki),
-				    reinterpret_cast<char*>(__mem));
-		_mm_maskmoveu_si128(__hi128(__vi), __hi128(__ki),
-				    reinterpret_cast<char*>(__mem) + 16);
-	      }
+	    else // maskmovdqu may fault on bytes that are not selected
+	      _BitOps::_S_bit_iteration(
+		_MaskImpl::_S_to_bits(__k), [&](auto __i) {
+		  __mem[__i] = __v[__i];
+		});
 	  }
 	else
 	  __assert_unreachable<_Tp>();
-- 
2.43.0


From 20faa80de729210c955cb538de68004c7937a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 16/24] fix: resizing_simd_cast of masks must not turn padding
 into elements

---
 experimental/bits/simd.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 36ff9a4..6b4e198 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -2989,8 +2989,12 @@ template <typename _Tp, typename _Up, typename _Ap>
   enable_if_t<is_simd_mask_v<_Tp>, _Tp>
   resizing_simd_cast(const simd_mask<_Up, _Ap>& __x)
   {
-    return {__private_init, _Tp::abi_type::_MaskImpl::template _S_convert<
-			      typename _Tp::simd_type::value_type>(__x)};
+    if constexpr (_Tp::size() > simd_size_v<_Up, _Ap>)
+      // neither the padding of __x nor indeterminate bits may become elements
+      return _Tp(__bitset_init, __x.__to_bitset().to_ullong());
+    else
+      return {__private_init, _Tp::abi_type::_MaskImpl::template _S_convert<
+				typename _Tp::simd_type::value_type>(__x)};
   }
 } // namespace __proposed
 
-- 
2.43.0


From 5337136de575c764f2e8f3bcd5e92db4db4ca586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 17/24] fix: to_fixed_size of masks must not leave unused bits
 indeterminate

---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 6b4e198..2914582 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3023,7 +3023,7 @@ template <typename _Tp, typename _Ap>
   to_fixed_size(const simd_mask<_Tp, _Ap>& __x)
   {
     constexpr int _Np = simd_mask<_Tp, _Ap>::size();
-    fixed_size_simd_mask<_Tp, _Np> __r;
+    fixed_size_simd_mask<_Tp, _Np> __r{};
     __execute_n_times<_Np>([&](auto __i) constexpr { __r[__i] = __x[__i]; });
     return __r;
   }
-- 
2.43.0


From 16b5d2ba169ce7e66ae48996b7843a02e82d66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 18/24] fix: split of a mask must not assume full registers

---
 experimental/bits/simd.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 2914582..8d9465e 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3827,7 +3827,9 @@ template <typename _V, typename _Ap,
     else if constexpr (_Parts == 1)
       return {__proposed::static_simd_cast<_V>(__x)};
     else if constexpr (_Parts == 2 && __is_sse_abi<typename _V::abi_type>()
-		       && __is_avx_abi<_Ap>())
+		       && __is_avx_abi<_Ap>()
+		       && sizeof(typename _V::simd_type::value_type)
+			    * _V::size() == 16)
       return {_V(__private_init, __lo128(__data(__x))),
 	      _V(__private_init, __hi128(__data(__x)))};
     else if constexpr (_V::size() <= __CHAR_BIT__ * sizeof(_ULLong))
-- 
2.43.0


From 450d6ed0ef0fef6133ae397379e1803fa6542a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 19/24] fix: minmax of scalar and fixed_size simds must compile

---
 experimental/bits/simd_fixed_size.h | 8 +++++++-
 experimental/bits/simd_scalar.h     | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index 9988313..e1f71be 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -1482,7 +1482,7 @@ template <int _Np>
 	  }
       }
 
-    // _S_min, _S_max {{{2
+    // _S_min, _S_max, _S_minmax {{{2
     template <typename _Tp, typename... _As>
       static inline constexpr _SimdTuple<_Tp, _As...>
       _S_min(const _SimdTuple<_Tp, _As...>& __a,
@@ -1507,6 +1507,12 @@ template <int _Np>
 	  __b);
       }
 
+    template <typename _Tp, typename... _As>
+      static inline constexpr pair<_SimdTuple<_Tp, _As...>, _SimdTuple<_Tp, _As...>>
+      _S_minmax(const _SimdTuple<_Tp, _As...>& __a,
+		const _SimdTuple<_Tp, _As...>& __b)
+      { return {_S_min(__a, __b), _S_max(__a, __b)}; }
+
     // _S_complement {{{2
     template <typename _Tp, typename... _As>
       static inline constexpr _SimdTuple<_Tp, _As...>
diff --git a/experimental/bits/simd_scalar.h b/experimental/bits/simd_scalar.h
index 4d4fe73..4148358 100644
--- a/experimental/bits/simd_scalar.h
+++ b/experimental/bits/simd_scalar.h
@@ -188,7 +188,7 @@ struct _SimdImplScalar
     _S_reduce(const simd<_Tp, simd_abi::scalar>& __x, const _BinaryOperation&)
     { return __x._M_data; }
 
-  // _S_min, _S_max {{{2
+  // _S_min, _S_max, _S_minmax {{{2
   template <typename _Tp>
     static constexpr inline _Tp _S_min(const _Tp __a, const _Tp __b)
     { return std::min(__a, __b); }
@@ -197,6 +197,10 @@ struct _SimdImplScalar
     static constexpr inline _Tp _S_max(const _Tp __a, const _Tp __b)
     { return std::max(__a, __b); }
 
+  template <typename _Tp>
+    static constexpr inline pair<_Tp, _Tp> _S_minmax(const _Tp __a, const _Tp __b)
+    { return {std::min(__a, __b), std::max(__a, __b)}; }
+
   // _S_complement {{{2
   template <typename _Tp>
     static constexpr inline _Tp _S_complement(_Tp __x) noexcept
-- 
2.43.0


From b94d7befee9493bdf84767db28bb3888a0c0e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 20/24] fix: rounding functions must return -0 for negative
 zero results

On SSE2 trunc, ceil, round, nearbyint, and rint returned +0 for arguments
that round to -0 (as well as for -0 itself). round had the same defect with
SSE4.1 and above.
---
 experimental/bits/simd_builtin.h |  4 +++-
 experimental/bits/simd_x86.h     | 14 +++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 10bb7a8..7565422 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2185,7 +2185,9 @@ template <typename _Abi>
       _GLIBCXX_SIMD_USE_CONSTEXPR _V __shifter_abs
 	= _V() + (1ull << (__digits_v<value_type> - 1));
       const _V __shifter = __or(__and(_S_signmask<_V>, __x), __shifter_abs);
-      const _V __shifted = _S_plus_minus(__x, __shifter);
+      // values in [-.5, -0] round to -0
+      const _V __shifted = __or(__and(_S_signmask<_V>, __x),
+				_S_plus_minus(__x, __shifter));
       return __absx < __shifter_abs ? __shifted : __x;
     }
 
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 62e1617..07ea824 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2684,8 +2684,10 @@ template <typename _Abi>
 	  return _mm_round_pd(__x, 0x3);
 	else if constexpr (__is_sse_ps<_Tp, _Np>())
 	  {
+	    // int has no -0, therefore set the sign bit for (-1, -0]
 	    auto __truncated
-	      = _mm_cvtepi32_ps(_mm_cvttps_epi32(__to_intrin(__x)));
+	      = __or(_mm_cvtepi32_ps(_mm_cvttps_epi32(__to_intrin(__x))),
+		     __and(_S_signmask<__m128>, __to_intrin(__x)));
 	    const auto __no_fractional_values
 	      = __vector_bitcast<int>(__vector_bitcast<_UInt>(__to_intrin(__x))
 				      & 0x7f800000u)
@@ -2728,7 +2730,8 @@ template <typename _Abi>
 	    = _mm_round_pd(__x._M_data, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
 	else if constexpr (__is_sse_ps<_Tp, _Np>())
 	  __truncated = __auto_bitcast(
-	    _mm_cvtepi32_ps(_mm_cvttps_epi32(__to_intrin(__x))));
+	    __or(_mm_cvtepi32_ps(_mm_cvttps_epi32(__to_intrin(__x))),
+		 __and(_S_signmask<__m128>, __to_intrin(__x))));
 	else
 	  return _Base::_S_round(__x);
 
@@ -2737,9 +2740,10 @@ template <typename _Abi>
 
 	const _V __rounded
 	  = __truncated
-	    + (__and(_S_absmask<_V>, __x._M_data - __truncated) >= _Tp(.5)
-		 ? __or(__and(_S_signmask<_V>, __x._M_data), _V() + 1)
-		 : _V());
+	    + __or(__and(_S_signmask<_V>, __x._M_data),
+		   __and(_S_absmask<_V>, __x._M_data - __truncated) >= _Tp(.5)
+		     ? _V() + 1
+		     : _V());
 	if constexpr (__have_sse4_1)
 	  return __rounded;
 	else // adjust for missing range in cvttps_epi32
-- 
2.43.0


From b54c581438269f97b2ffb41bb283814c0664de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:08 +0000
Subject: [PATCH 21/24] fix: division by a compile-time constant must not
 divide the padding by zero

---
 experimental/bits/simd_builtin.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 7565422..2a8950a 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1203,12 +1203,19 @@ template <int _UsedBytes>
 			   return 1;
 		       });
 	    else
-	      return __make_dependent_t<_TV, _CommonImpl>::_S_blend(
-		       _S_implicit_mask<_Tp>(),
-		       _SimdWrapper<_Tp, _Np>(
-			 __vector_broadcast<_S_full_size<_Tp>>(_Tp(1))),
-		       _SimdWrapper<_Tp, _Np>(__x))
-		._M_data;
+	      {
+		// _S_blend may compute only the _Np elements (and zero the
+		// padding) if x is a compile-time constant
+		using _Ip = __int_for_sizeof_t<_Tp>;
+		return __or(
+		  __and(__x, __vector_bitcast<_Tp>(
+			       __generate_vector<_Ip, _S_full_size<_Tp>>(
+				 [](auto __i) -> _Ip {
+				   return __i < _Np ? -1 : 0;
+				 }))),
+		  __generate_vector<_Tp, _S_full_size<_Tp>>(
+		    [](auto __i) -> _Tp { return __i < _Np ? 0 : 1; }));
+	      }
 	  }
       }
 
-- 
2.43.0


From 250a97910f6134a6ae04814674b82ebe6f52168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:20 +0000
Subject: [PATCH 22/24] fix: where(k, v) = -0. with a constant -0. must not
 assign +0.

---
 experimental/bits/simd_builtin.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 2a8950a..bd39088 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2485,7 +2485,10 @@ template <typename _Abi>
 	  return;
 	else if (__k._M_is_constprop_all_of())
 	  __lhs = __vector_broadcast<_Np>(__rhs);
-	else if (__builtin_constant_p(__rhs) && __rhs == 0)
+	else if (__builtin_constant_p(__rhs) && __rhs == 0
+		 // -0. == 0, but its bits are not 0
+		 && !(is_floating_point_v<_Tp>
+		      && __builtin_signbit(static_cast<double>(__rhs))))
 	  {
 	    if constexpr (!is_same_v<bool, _K>)
 	      // the __andnot optimization only makes sense if __k._M_data is a
-- 
2.43.0


From b4e5292e075dd6858752fa704177a06d69bf0baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:07 +0000
Subject: [PATCH 23/24] fix: avoid -Wignored-attributes warnings in trunc and
 round

---
 experimental/bits/simd_x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 07ea824..7725f95 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2687,7 +2687,7 @@ template <typename _Abi>
 	    // int has no -0, therefore set the sign bit for (-1, -0]
 	    auto __truncated
 	      = __or(_mm_cvtepi32_ps(_mm_cvttps_epi32(__to_intrin(__x))),
-		     __and(_S_signmask<__m128>, __to_intrin(__x)));
+		     __and(_S_signmask<__vector_type16_t<float>>, __to_intrin(__x)));
 	    const auto __no_fractional_values
 	      = __vector_bitcast<int>(__vector_bitcast<_UInt>(__to_intrin(__x))
 				      & 0x7f800000u)
@@ -2731,7 +2731,7 @@ template <typename _Abi>
 	else if constexpr (__is_sse_ps<_Tp, _Np>())
 	  __truncated = __auto_bitcast(
 	    __or(_mm_cvtepi32_ps(_mm_cvttps_epi32(__to_intrin(__x))),
-		 __and(_S_signmask<__m128>, __to_intrin(__x))));
+		 __and(_S_signmask<__vector_type16_t<float>>, __to_intrin(__x))));
 	else
 	  return _Base::_S_round(__x);
 
-- 
2.43.0


From aabe8bbc81ae405cc737c9b4e78d64e0039ddc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:34 +0000
Subject: [PATCH 24/24] fix: sin and cos must not overflow int when determining
 the quadrant

---
 experimental/bits/simd_math.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 1d08f14..8566bba 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -382,6 +382,9 @@ template <typename _Abi>
     else
       {
 	// x - y * pi/2, y may require all mantissa bits
+	// int cannot represent all y: compute y mod 4 before the conversion
+	__r._M_quadrant
+	  = static_simd_cast<_IV>(__y - 4 * trunc(__y * .25)) & 3;
 	const _V __y_hi = __zero_low_bits<26>(__y);
 	const _V __y_lo = __y - __y_hi;
 	const auto __pi_2_1 = 0x1.921FB50000000p0;
-- 
2.43.0

