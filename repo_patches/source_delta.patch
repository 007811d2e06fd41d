From 76af0eedc878a100911f8f9086f9573a5c8c1a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 01/80] fix: generic simd_mask operator~ inverts lanes
 logically

~bool promotes to int and is always non-zero, so ~mask and -mask were all-true.
---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 17f8359..c8f6ccc 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -302,7 +302,7 @@ namespace dpm
 	{
 		std::array<bool, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd_mask<T, Abi>::size(); ++i)
-			result[i] = ~x[i];
+			result[i] = !x[i];
 		return {result.data(), element_aligned};
 	}
 	/** Preforms a bitwise AND on the elements of the masks \a a and \a b. */
-- 
2.43.0


From 3ad4ca94501420cb8d002ed8f4ed5dbaf749d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 02/80] fix: generic reduce reads every element of the first
 half

---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index c8f6ccc..85d6d3a 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -604,7 +604,7 @@ namespace dpm
 
 				/* Separate `value` into halves and reduce them separately. */
 				for (std::size_t i = 0; i < a.size(); ++i)
-					a[i] = data[0];
+					a[i] = data[i];
 				for (std::size_t i = 0, j = a.size(); i < b.size(); ++i, ++j)
 					b[i] = data[j];
 
-- 
2.43.0


From c38e417661fbb99f1af9da81f49914ea64ec9321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 03/80] fix: simd <<= and >>= by a vector shift in the stated
 direction

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 85d6d3a..89a20a4 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -956,10 +956,10 @@ namespace dpm
 	}
 	/** Shifts elements of vector \a a left by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a >> b; }
+	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a << b; }
 	/** Shifts elements of vector \a a right by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a << b; }
+	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a >> b; }
 
 	/** Shifts elements of vector \a a left by \a n. */
 	template<typename T, typename Abi, std::integral I>
-- 
2.43.0


From 18c40b1c54f4acb1ae18c4ac38e5881b1e918353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 04/80] fix: simd ++ and -- compile for element types other
 than int

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 89a20a4..5530a0b 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -724,10 +724,10 @@ namespace dpm
 	}
 	/** Increments elements of vector \a x, and returns reference to it. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + static_cast<T>(1); }
 	/** Decrements elements of vector \a x. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - static_cast<T>(1); }
 
 	/** Adds elements of vector \a b to elements of vector \a a. */
 	template<typename T, typename Abi>
-- 
2.43.0


From 64030ad7aadccfebd24cd53c0775bdd5308c11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 05/80] fix: generic minmax no longer binds references to
 destroyed temporaries

---
 dpm/detail/generic/type.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 5530a0b..712f29e 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -1200,7 +1200,8 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
-			const auto [min, max] = std::minmax(a[i], b[i]);
+			const T a_i = a[i], b_i = b[i];
+			const auto [min, max] = std::minmax(a_i, b_i);
 			result[0][i] = min;
 			result[1][i] = max;
 		}
@@ -1213,7 +1214,8 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
-			const auto [min, max] = std::minmax(a[i], b);
+			const T a_i = a[i];
+			const auto [min, max] = std::minmax(a_i, b);
 			result[0][i] = min;
 			result[1][i] = max;
 		}
-- 
2.43.0


From b5a96ded100589565f0b8115cf21d06708662c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 06/80] fix: generic lsr shifts in zeros and asr shifts in the
 sign bit

T{-1} is a narrowing error for unsigned types, and the signed lsr used the
arithmetic shift.
---
 dpm/detail/generic/type.hpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 712f29e..43d485e 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -626,26 +626,17 @@ namespace dpm
 		template<std::size_t N, std::unsigned_integral T>
 		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
 		{
-			if constexpr (T{-1} >> N == T{-1})
-				return (x >> N) & (T{1} << (std::numeric_limits<T>::digits - 1));
-			else
-				return x >> N;
+			return static_cast<T>(x >> N);
 		}
 		template<std::size_t N, std::signed_integral T>
 		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
 		{
-			if constexpr (T{-1} >> N == T{-1})
-				return lsr_impl<N>(static_cast<std::make_unsigned_t<T>>(x));
-			else
-				return x >> N;
+			return static_cast<T>(lsr_impl<N>(static_cast<std::make_unsigned_t<T>>(x)));
 		}
 		template<std::size_t N, typename T>
 		constexpr DPM_FORCEINLINE T asr_impl(T x) noexcept
 		{
-			if constexpr (T{-1} >> N != T{-1})
-				return x < 0 ? ~(~x >> N) : x >> N;
-			else
-				return x >> N;
+			return static_cast<T>(x >> N);
 		}
 	}
 
-- 
2.43.0


From a15ff6e2390044b9d893b8f56712aa854de63e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 07/80] fix: x86 element-wise copy_from/copy_to index elements,
 not native vectors

The mask and the masked vector copies used _data[i], which names the i-th
native vector, so they did not compile (and read as the wrong object).
---
 dpm/detail/x86/type.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 65fc5c9..54eda72 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -137,14 +137,14 @@ namespace dpm
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				_data[i] = static_cast<value_type>(mem[i]);
+				operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		/** Copies the underlying elements from \a mem if the corresponding element of mask \a m evaluates to `true`. */
@@ -152,14 +152,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
@@ -169,7 +169,7 @@ namespace dpm
 		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
-				return detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[i / native_extent])[i];
+				return detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[i / native_extent])[i % native_extent];
 			else
 				return reinterpret_cast<const value_alias *>(_data.data())[i];
 		}
@@ -675,14 +675,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
@@ -692,7 +692,7 @@ namespace dpm
 		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
-				return detail::native_bit_cast<std::array<value_type, native_extent>>(_data[i / native_extent])[i];
+				return detail::native_bit_cast<std::array<value_type, native_extent>>(_data[i / native_extent])[i % native_extent];
 			else
 				return reinterpret_cast<const value_alias *>(_data.data())[i];
 		}
-- 
2.43.0


From 7ba907abd4d49cc591e722aa602a8323a272c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 08/80] fix: x86 simd and simd_mask construct from arrays and
 spans of native vectors

---
 dpm/detail/x86/type.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 54eda72..95267e0 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -99,9 +99,9 @@ namespace dpm
 		/** Initializes the SIMD mask with a native mask vector. */
 		constexpr simd_mask(native_type native) noexcept { std::ranges::fill(_data, native); }
 		/** Initializes the SIMD mask with an array of native mask vectors. */
-		constexpr simd_mask(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data); }
+		constexpr simd_mask(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data.begin()); }
 		/** Initializes the SIMD mask with a span of native mask vectors. */
-		constexpr simd_mask(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data); }
+		constexpr simd_mask(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data.begin()); }
 
 		/** Initializes the underlying elements from \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -596,9 +596,9 @@ namespace dpm
 		/** Initializes the SIMD vector with a native vector. */
 		constexpr simd(native_type native) noexcept { std::ranges::fill(_data, native); }
 		/** Initializes the SIMD vector with an array of native vectors. */
-		constexpr simd(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data); }
+		constexpr simd(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data.begin()); }
 		/** Initializes the SIMD vector with a span of native mask vectors. */
-		constexpr simd(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data); }
+		constexpr simd(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data.begin()); }
 
 		/** Initializes the underlying elements from \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
-- 
2.43.0


From fe844b57ce17b7fc2e3b6d7cbe93f5d3d77f644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 09/80] fix: x86 aligned copies stay within the elements and
 convert like static_cast

copy_from/copy_to with an aligned flag accessed whole native vectors, past the
last element when size() is not a multiple of the native width, rounded floating
point values instead of truncating them, and did not compile for non-const
pointers.
---
 dpm/detail/x86/type.hpp    | 16 +++++++++++-----
 dpm/detail/x86/utility.hpp |  4 ++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 95267e0..4e229fe 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -56,6 +56,10 @@ namespace dpm
 			for (std::size_t i = 0; i < ext::native_data_size_v<std::remove_cvref_t<V>>; ++i)
 				f(ext::to_native_data(v)[i], ext::to_native_data(vs)[i]...);
 		}
+
+		/* Types that convert to each other without changing bits of the value. Any other conversion must follow the rules of `static_cast`. */
+		template<typename T, typename U>
+		concept same_representation = std::same_as<T, U> || (std::integral<T> && std::integral<U> && sizeof(T) == sizeof(U) && !std::same_as<T, bool> && !std::same_as<U, bool>);
 	}
 
 	template<typename T, std::size_t N, std::size_t Align> requires detail::x86_overload_any<T, N, Align>
@@ -646,11 +650,12 @@ namespace dpm
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<U, T>
 		{
 			std::size_t i = 0;
-			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
+			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && detail::same_representation<U, value_type>)
 				if (!std::is_constant_evaluated())
 				{
-					const auto src = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					/* Only load entire native vectors, memory past the last element does not belong to the source. */
+					const U *src = std::to_address(mem);
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<T, U>(_data[j], src + i);
 				}
 			for (; i < size(); ++i) operator[](i) = static_cast<T>(mem[i]);
@@ -660,11 +665,12 @@ namespace dpm
 		constexpr void copy_to(I mem, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<T, U>
 		{
 			std::size_t i = 0;
-			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
+			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && detail::same_representation<U, value_type>)
 				if (!std::is_constant_evaluated())
 				{
+					/* Only store entire native vectors, memory past the last element does not belong to the destination. */
 					const auto dst = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<U, T>(dst + i, _data[j]);
 				}
 			for (; i < size(); ++i) mem[i] = static_cast<U>(operator[](i));
diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 24fb686..f63aa42 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -311,9 +311,9 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE V set(T0 v0, Ts... vs) noexcept { return set<V>({v0, static_cast<T0>(vs)...}); }
 
 	template<typename To, typename From, typename VTo, typename VFrom>
-	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::same_as<To, From> || (std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = src; }
+	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(!std::is_pointer_v<VFrom> && (std::same_as<To, From> || (std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From)))) { dst = src; }
 	template<typename To, typename From, typename VTo, typename VFrom>
-	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(!std::same_as<To, From> && !(std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = cvt<To, From>(src); }
+	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(!std::is_pointer_v<VFrom> && !std::same_as<To, From> && !(std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = cvt<To, From>(src); }
 	template<typename To, typename From, typename VFrom>
 	DPM_FORCEINLINE void native_vec_cast(To *dst, const VFrom &src) noexcept { native_vec_cast<To, From>(*reinterpret_cast<select_vector_t<To, sizeof(VFrom)> *>(dst), src); }
 	template<typename To, typename From, typename VTo>
-- 
2.43.0


From 7f4dca6d0582f29f956783097cf7126af125c808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 10/80] fix: x86 simd_mask operator&& no longer always returns
 false

---
 dpm/detail/x86/type.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 4e229fe..67ae35a 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -346,10 +346,11 @@ namespace dpm
 		{
 			detail::x86_mask<T, N, A> result = {};
 			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
-			detail::vectorize([z = zero](auto &res, auto a, auto b)
+			const auto ones = detail::setones<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
+			detail::vectorize([z = zero, o = ones](auto &res, auto a, auto b)
 			{
-				res = detail::bit_andnot(detail::cmp_eq<T>(a, z), res);
-				res = detail::bit_andnot(detail::cmp_eq<T>(b, z), res);
+				res = detail::bit_andnot(detail::mask_eq<T>(a, z), o);
+				res = detail::bit_andnot(detail::mask_eq<T>(b, z), res);
 			}, result, a, b);
 			return result;
 		}
-- 
2.43.0


From cfec47bae07db59db1cab6855409cd2a56d4fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 11/80] fix: x86 reduce_max_index ignores padding and indexes
 the last vector correctly

---
 dpm/detail/x86/type.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 67ae35a..f392047 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -541,7 +541,7 @@ namespace dpm
 	{
 		if (std::is_constant_evaluated())
 		{
-			for (std::size_t i = N; --i != 0;)
+			for (std::size_t i = N; i-- != 0;)
 				if (mask[i]) return i;
 			return N;
 		}
@@ -550,11 +550,12 @@ namespace dpm
 			using mask_t = detail::x86_mask<T, N, A>;
 			const auto mask_data = ext::to_native_data(mask);
 			const auto zero = detail::setzero<ext::native_data_type_t<mask_t>>();
-			for (std::size_t i = ext::native_data_size_v<mask_t>, j; (j = i--) != 0;)
+			for (std::size_t i = ext::native_data_size_v<mask_t>; i-- != 0;)
 			{
 				constexpr auto native_extent = sizeof(mask_data[i]) / sizeof(T);
-				const auto bits = detail::movemask_l<T>(detail::cmp_ne<T>(mask_data[i], zero), mask_t::size() - i * native_extent);
-				if (bits) return (j * native_extent - 1) - std::countl_zero(bits) / detail::movemask_bits_v<T>;
+				const auto vm = detail::maskzero<T>(mask_data[i], mask_t::size() - i * native_extent);
+				const auto bits = detail::movemask<T>(detail::cmp_ne<T>(vm, zero));
+				if (bits) return (std::bit_width(bits) - 1) / detail::movemask_bits_v<T> + i * native_extent;
 			}
 			DPM_UNREACHABLE();
 		}
-- 
2.43.0


From c9f19bb9764f47342efdf45d1025dc33de0ca034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 12/80] fix: x86 integral reduce returns a value for every
 operation

For 4 and 8-byte integers an operation without a vectorized reduction ran off
the end of the function, and the multiplication was not discarded for types
without a vector multiply.
---
 dpm/detail/x86/type.hpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index f392047..204515d 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1423,28 +1423,22 @@ namespace dpm
 			return detail::reduce_impl<size>(x, op);
 		else if constexpr (detail::template_instance<Op, std::plus>)
 			return detail::reduce_add<T, size>(x_data);
-		if constexpr (detail::template_instance<Op, std::multiplies>)
-		{
-			if constexpr (std::floating_point<T>)
-				return detail::reduce_mul<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::multiplies> && std::floating_point<T>)
+			return detail::reduce_mul<T, size>(x_data);
 #ifdef DPM_HAS_SSE4_1
-			if (detail::integral_of_size<T, 4>)
-				return detail::reduce_mul<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::multiplies> && detail::integral_of_size<T, 4>)
+			return detail::reduce_mul<T, size>(x_data);
 #endif
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-			if (detail::integral_of_size<T, 8>)
-				return detail::reduce_mul<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::multiplies> && detail::integral_of_size<T, 8>)
+			return detail::reduce_mul<T, size>(x_data);
 #endif
-		}
-		if constexpr (std::integral<T>)
-		{
-			if constexpr (detail::template_instance<Op, std::bit_and>)
-				return detail::reduce_and<T, size>(x_data);
-			if constexpr (detail::template_instance<Op, std::bit_xor>)
-				return detail::reduce_xor<T, size>(x_data);
-			if constexpr (detail::template_instance<Op, std::bit_or>)
-				return detail::reduce_or<T, size>(x_data);
-		}
+		else if constexpr (detail::template_instance<Op, std::bit_and> && std::integral<T>)
+			return detail::reduce_and<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::bit_xor> && std::integral<T>)
+			return detail::reduce_xor<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::bit_or> && std::integral<T>)
+			return detail::reduce_or<T, size>(x_data);
 		else
 			return detail::reduce_impl<size>(x, op);
 	}
-- 
2.43.0


From 59596067d6ff61b6bf12d8c95a992da18e2de9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 13/80] fix: x86 constant-evaluated shifts, shuffles and
 reductions use matching types

The branches named a mask or a vector of a different size and so never compiled.
---
 dpm/detail/x86/type.hpp | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 204515d..0f8cce6 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -221,7 +221,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_mask<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
@@ -736,7 +736,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_simd<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_simd<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
@@ -1310,8 +1310,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsl<N>(packed));
 			}
 			else
 			{
@@ -1326,8 +1326,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsr<N>(packed));
 			}
 			else
 			{
@@ -1343,8 +1343,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asl<N>(packed));
 			}
 			else
 			{
@@ -1359,8 +1359,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asr<N>(packed));
 			}
 			else
 			{
@@ -1472,7 +1472,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1481,7 +1481,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1491,7 +1491,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1500,7 +1500,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1510,7 +1510,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1519,7 +1519,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1528,7 +1528,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1537,7 +1537,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1548,7 +1548,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1557,7 +1557,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
-- 
2.43.0


From 6d88505c35e670ea6b2556d2020413d3f783cd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 14/80] fix: x86 simd operator>> fallback shifts right

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 0f8cce6..e97469e 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1130,7 +1130,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
+			return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
 		}
 	}
 
-- 
2.43.0


From ef43d9ef2008dcba80bcfc0b6ec10791e8cf5089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 15/80] fix: x86 none_of only applies to masks with an x86 ABI

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index e97469e..08bb1ac 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -435,7 +435,7 @@ namespace dpm
 	}
 	/** Returns `true` if at none of the elements of the \a mask is `true`. Otherwise returns `false`. */
 	template<typename T, std::size_t N, std::size_t A>
-	[[nodiscard]] constexpr DPM_FORCEINLINE bool none_of(const detail::x86_mask<T, N, A> &mask) noexcept
+	[[nodiscard]] constexpr DPM_FORCEINLINE bool none_of(const detail::x86_mask<T, N, A> &mask) noexcept requires detail::x86_overload_any<T, N, A>
 	{
 		if (std::is_constant_evaluated())
 			return !any_of(mask);
-- 
2.43.0


From e716fe96df670a902f2e90efe80409ebf98c3a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 16/80] fix: x86 64-bit maskblend returns the vector type of
 its arguments

---
 dpm/detail/x86/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 4dff8f4..02d4923 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -207,7 +207,7 @@ namespace dpm::detail
 			return std::bit_cast<V>(_mm_or_pd(_mm_andnot_pd(vm, va), _mm_and_pd(vm, vb)));
 #endif
 		}
-		return va;
+		return a;
 	}
 
 	template<integral_of_size<1> T>
-- 
2.43.0


From 89008df7797ff41ff064f3dfbc9d781d18376df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 17/80] fix: AVX2 reductions of 8- and 16-bit integers compile

---
 dpm/detail/x86/transform.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 02d4923..eab452a 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -571,6 +571,11 @@ namespace dpm::detail
 		return _mm256_blendv_epi8(a, b, m);
 	}
 
+	template<std::integral T, typename Op>
+	[[nodiscard]] DPM_FORCEINLINE T reduce(__m256i v, Op op) noexcept requires(sizeof(T) <= 2)
+	{
+		return reduce<T>(op(_mm256_castsi256_si128(v), _mm256_extracti128_si256(v, 1)), op);
+	}
 	template<integral_of_size<4> T, typename Op>
 	[[nodiscard]] DPM_FORCEINLINE T reduce(__m256i v, Op op) noexcept
 	{
-- 
2.43.0


From bd329e362d44c4a81dffbf02db5564e68f0bec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 18/80] fix: AVX 8- and 16-bit maskblend masks the upper half
 when only the lower half is occupied

---
 dpm/detail/x86/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index eab452a..f57bcbf 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -598,14 +598,14 @@ namespace dpm::detail
 	template<integral_of_size<1> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 16);
+		const auto h = n <= 16 ? _mm256_extractf128_si256(n ? b : a, 1) : maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 16);
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
 	template<integral_of_size<2> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 8);
+		const auto h = n <= 8 ? _mm256_extractf128_si256(n ? b : a, 1) : maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 8);
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
-- 
2.43.0


From 4423c2e393c2d5fcb0beb6dcfab70ce263c82548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 19/80] fix: generic abs returns a simd vector

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index a730493..593d210 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -32,7 +32,7 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::abs(x[i]);
-		return result;
+		return {result.data(), vector_aligned};
 	}
 	/** @copydoc abs */
 	template<std::floating_point T, typename Abi>
-- 
2.43.0


From c5e430739639534a8acf2bb6fc07e520fbffd815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 20/80] fix: generic fmin with a scalar argument compiles

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 593d210..421e214 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -200,7 +200,7 @@ namespace dpm
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::fmin(a[i], b[i]);
+			result[i] = std::fmin(a[i], b);
 		return {result.data(), vector_aligned};
 	}
 	/** Returns the positive difference between elements of vector \a a and scalar \a b. Equivalent to `max(simd<T, Abi>{0}, a - b)`. */
-- 
2.43.0


From d1334826426b63641146407bf48823f908290ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 21/80] fix: generic sincos passes elements to the scalar
 builtin

---
 dpm/detail/generic/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 421e214..db9b946 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -662,7 +662,7 @@ namespace dpm
 					if constexpr (std::same_as<T, float>)
 					{
 #if __has_builtin(__builtin_sincosf)
-						__builtin_sincosf(x, &sin, &cos);
+						__builtin_sincosf(x[i], &sin, &cos);
 #else
 						::sincosf(x[i], &sin, &cos);
 #endif
@@ -670,7 +670,7 @@ namespace dpm
 					else if constexpr (std::same_as<T, long double>)
 					{
 #if __has_builtin(__builtin_sincosl)
-						__builtin_sincosl(x, &sin, &cos);
+						__builtin_sincosl(x[i], &sin, &cos);
 #else
 						::sincosl(x[i], &sin, &cos);
 #endif
@@ -678,7 +678,7 @@ namespace dpm
 					else
 					{
 #if __has_builtin(__builtin_sincos)
-						__builtin_sincos(x, &sin, &cos);
+						__builtin_sincos(x[i], &sin, &cos);
 #else
 						::sincos(x[i], &sin, &cos);
 #endif
-- 
2.43.0


From 926febf3fd099275651439a7b4477287a5e51b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 22/80] fix: generic rint keeps the floating-point value

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index db9b946..c6a5877 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -904,7 +904,7 @@ namespace dpm
 	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> rint(const simd<T, Abi> &x) noexcept
 	{
-		alignas(simd<long, Abi>) std::array<long, simd_size_v<long, Abi>> result = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::rint(x[i]);
 		return {result.data(), vector_aligned};
-- 
2.43.0


From 21cdff93ebbf72d2e1e801c68409147445919072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 23/80] fix: generic lrint compiles

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index c6a5877..24c8fc9 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -913,7 +913,7 @@ namespace dpm
 	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr rebind_simd_t<long, simd<T, Abi>> lrint(const simd<T, Abi> &x) noexcept
 	{
-		rebind_simd_t<long, simd<T, Abi>> result = {};
+		alignas(simd<long, Abi>) std::array<long, simd_size_v<long, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::lrint(x[i]);
 		return {result.data(), vector_aligned};
-- 
2.43.0


From f984eefc546961e96cbe46a267f2d67833f75034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 24/80] fix: x86 fmax and fmin compile and prefer ordered
 values over NaN

---
 dpm/detail/x86/mbase.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 460cffb..0d554fc 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -308,7 +308,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(b, a), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -326,7 +326,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(b, a), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -362,7 +362,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(b, a), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
@@ -380,7 +380,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(b, a), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From 458c071c87d2d107273aa11ebb688ccdfece1029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 25/80] fix: x86 constant-evaluated lerp calls lerp

---
 dpm/detail/x86/mbase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 0d554fc..abae183 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -411,7 +411,7 @@ namespace dpm
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
 			const auto packed_f = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(f);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, packed_f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, packed_f));
 		}
 		else
 		{
@@ -428,7 +428,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, f));
 		}
 		else
 		{
-- 
2.43.0


From 01bdd99da6db093f0e7467da0746128aa197d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 26/80] fix: SSE2 ceil, floor and trunc return the exact
 integral value for every input

---
 dpm/detail/x86/cvt.hpp   |  2 +-
 dpm/detail/x86/round.hpp | 23 ++++++++++++++---------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 3497659..09e7643 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -147,7 +147,7 @@ namespace dpm::detail
 		auto small_e = _mm_cmpgt_epi32(_mm_set1_epi64x(12), e);
 #ifndef DPM_HAS_SSE3
 		const auto ie = std::bit_cast<__m128>(small_e);
-		small_e = std::bit_cast<__m128i>(_mm_shuffle_ps(ie, ie, _MM_SHUFFLE(3, 3, 1, 1)));
+		small_e = std::bit_cast<__m128i>(_mm_shuffle_ps(ie, ie, _MM_SHUFFLE(2, 2, 0, 0)));
 #else
 		small_e = std::bit_cast<__m128i>(_mm_moveldup_ps(std::bit_cast<__m128>(small_e)));
 #endif
diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 445c84a..3cf0b07 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -17,14 +17,19 @@ namespace dpm
 	namespace detail
 	{
 #ifndef DPM_HAS_SSE4_1
-		[[nodiscard]] DPM_FORCEINLINE auto mask_domain([[maybe_unused]] auto x, auto result) noexcept
+		/* Elements that do not have a fractional part (including infinity & NaN) are returned as-is, since they may not be representable by int32. */
+		[[nodiscard]] DPM_FORCEINLINE __m128 mask_domain(__m128 x, __m128 result) noexcept
 		{
-#ifdef DPMDPM_HANDLE_ERRORS
-			const auto fin_mask = isfinite(x);
-			return bit_or(bit_andnot(fin_mask, x), bit_and(fin_mask, result));
-#else
-			return result;
-#endif
+			const auto sign_mask = _mm_set1_ps(-0.0f);
+			const auto frac_mask = _mm_cmplt_ps(bit_andnot(sign_mask, x), _mm_set1_ps(8388608.0f));
+			result = bit_or(bit_andnot(sign_mask, result), bit_and(sign_mask, x));
+			return bit_or(bit_andnot(frac_mask, x), bit_and(frac_mask, result));
+		}
+		/* Zero results must keep the sign of x. */
+		[[nodiscard]] DPM_FORCEINLINE __m128d mask_domain(__m128d x, __m128d result) noexcept
+		{
+			const auto sign_mask = _mm_set1_pd(-0.0);
+			return bit_or(bit_andnot(sign_mask, result), bit_and(sign_mask, x));
 		}
 #endif
 
@@ -68,7 +73,7 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_ceil_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
+			const auto tx = trunc_sse2(x);
 			return mask_domain(x, _mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0f))));
 #endif
 		}
@@ -79,7 +84,7 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_floor_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
+			const auto tx = trunc_sse2(x);
 			return mask_domain(x, _mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0f))));
 #endif
 		}
-- 
2.43.0


From fccbb2470b21690b9092883ccb7b87e2b139dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 27/80] fix: SSE2 rint and nearbyint honour directed rounding
 modes and large doubles

---
 dpm/detail/x86/round.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 3cf0b07..adedf3f 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -184,13 +184,13 @@ namespace dpm
 #ifdef DPM_HAS_SSE4_1
 			*dst = _mm_round_ps(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION);
 #else
-			const auto sign_x = _mm_and_ps(x, _mm_set1_ps(-0.0));
-			const auto x_offset = _mm_set1_ps(8388608.0);
-			const auto abs_x = _mm_xor_ps(x, sign_x);
+			const auto sign_mask = _mm_set1_ps(-0.0f);
+			const auto sign_x = _mm_and_ps(x, sign_mask);
+			const auto x_offset = _mm_or_ps(_mm_set1_ps(8388608.0f), sign_x); /* Offset must have the sign of x for directed rounding modes. */
 
-			const auto tmp_mask = _mm_cmpge_ps(abs_x, x_offset);
-			const auto tmp = _mm_or_ps(_mm_sub_ps(_mm_add_ps(abs_x, x_offset), x_offset), sign_x);
-			*dst = _mm_or_ps(_mm_andnot_ps(tmp_mask, tmp), _mm_and_ps(tmp_mask, x));
+			const auto tmp_mask = _mm_cmplt_ps(_mm_xor_ps(x, sign_x), _mm_set1_ps(8388608.0f));
+			const auto tmp = _mm_or_ps(_mm_andnot_ps(sign_mask, _mm_sub_ps(_mm_add_ps(x, x_offset), x_offset)), sign_x);
+			*dst = _mm_or_ps(_mm_andnot_ps(tmp_mask, x), _mm_and_ps(tmp_mask, tmp));
 #endif
 		}
 
@@ -264,13 +264,13 @@ namespace dpm
 #ifdef DPM_HAS_SSE4_1
 			*dst = _mm_round_pd(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION);
 #else
-			const auto sign_x = _mm_and_pd(x, _mm_set1_pd(-0.0));
-			const auto x_offset = _mm_set1_pd(4503599627370496.0);
-			const auto abs_x = _mm_xor_pd(x, sign_x);
+			const auto sign_mask = _mm_set1_pd(-0.0);
+			const auto sign_x = _mm_and_pd(x, sign_mask);
+			const auto x_offset = _mm_or_pd(_mm_set1_pd(4503599627370496.0), sign_x); /* Offset must have the sign of x for directed rounding modes. */
 
-			const auto tmp_mask = _mm_cmpge_pd(abs_x, x_offset);
-			const auto tmp = _mm_or_pd(_mm_sub_pd(_mm_add_pd(abs_x, x_offset), x_offset), sign_x);
-			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, tmp));
+			const auto tmp_mask = _mm_cmplt_pd(_mm_xor_pd(x, sign_x), _mm_set1_pd(4503599627370496.0));
+			const auto tmp = _mm_or_pd(_mm_andnot_pd(sign_mask, _mm_sub_pd(_mm_add_pd(x, x_offset), x_offset)), sign_x);
+			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, x), _mm_and_pd(tmp_mask, tmp));
 #endif
 		}
 
-- 
2.43.0


From 9642f77e9569947036fd3e4062c57621efce6fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 28/80] fix: x86 round is exact on every x86 level and in every
 rounding mode

---
 dpm/detail/x86/round.hpp | 42 +++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index adedf3f..a651f5b 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -99,6 +99,18 @@ namespace dpm
 #endif
 		}
 
+		/* Truncates x, then moves away from zero if the (exact) remainder is at least 1/2. Does not depend on the current rounding mode. */
+		template<typename T, typename V>
+		[[nodiscard]] DPM_FORCEINLINE V round_away(V x) noexcept
+		{
+			const auto sign_mask = fill<V>(T{-0.0});
+			const auto sign = bit_and(x, sign_mask);
+			const auto tx = trunc(x);
+			const auto rem = bit_andnot(sign_mask, sub<T>(x, tx));
+			const auto off = bit_and(cmp_ge<T>(rem, fill<V>(T{0.5})), fill<V>(T{1}));
+			return bit_or(add<T>(bit_andnot(sign_mask, tx), off), sign);
+		}
+
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void itrunc(__m128 x, __m128i *dst) noexcept { *dst = cvtt<T, float>(x); }
 		template<integral_of_size<8> T>
@@ -149,17 +161,10 @@ namespace dpm
 		template<std::same_as<float> T>
 		inline void round(__m128 x, __m128 *dst) noexcept
 		{
-#if defined(DPM_HAS_SSE4_1)
-			const auto sign = bit_and(x, _mm_set1_ps(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m128>(_mm_set1_epi32(0x3effffff)));
-			*dst = _mm_round_ps(_mm_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
-#elif defined(DPM_USE_SVML)
+#if !defined(DPM_HAS_SSE4_1) && defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			*dst = mask_domain(x, _mm_add_ps(tx, _mm_cvtepi32_ps(_mm_cvttps_epi32(rem))));
+			*dst = round_away<float>(x);
 #endif
 		}
 
@@ -240,17 +245,10 @@ namespace dpm
 		template<std::same_as<double> T>
 		inline void round(__m128d x, __m128d *dst) noexcept
 		{
-#if defined(DPM_HAS_SSE4_1)
-			const auto sign = bit_and(x, _mm_set1_pd(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m128d>(_mm_set1_epi64x(0x3fdfffff'ffffffff)));
-			*dst = _mm_round_pd(_mm_add_pd(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
-#elif defined(DPM_USE_SVML)
+#if !defined(DPM_HAS_SSE4_1) && defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
-			*dst = mask_domain(x, _mm_add_pd(tx, _mm_cvtepi32_pd(_mm_cvttpd_epi32(rem))));
+			*dst = round_away<double>(x);
 #endif
 		}
 
@@ -350,9 +348,7 @@ namespace dpm
 		template<std::same_as<float> T>
 		DPM_FORCEINLINE void round(__m256 x, __m256 *dst) noexcept
 		{
-			const auto sign = bit_and(x, _mm256_set1_ps(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m256>(_mm256_set1_epi32(0x3effffff)));
-			*dst = _mm256_round_ps(bit_and(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			*dst = round_away<float>(x);
 		}
 
 		template<integral_of_size<4> T>
@@ -413,9 +409,7 @@ namespace dpm
 		template<std::same_as<double> T>
 		DPM_FORCEINLINE void round(__m256d x, __m256d *dst) noexcept
 		{
-			const auto sign = bit_and(x, _mm256_set1_pd(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m256d>(_mm256_set1_epi64x(0x3fdfffff'ffffffff)));
-			*dst = _mm256_round_pd(_mm256_add_pd(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			*dst = round_away<double>(x);
 		}
 
 		template<integral_of_size<4> T>
-- 
2.43.0


From 18cec7912107a3efc104f7a92d5af2d7ecf26fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 29/80] fix: x86 iround rounds ties away from zero, compiles
 for AVX without AVX2

---
 dpm/detail/x86/round.hpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index a651f5b..244e014 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -132,8 +132,8 @@ namespace dpm
 		{
 			const auto ix = _mm_cvttps_epi32(x);
 			const auto tx = _mm_cvtepi32_ps(ix);
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
+			const auto two = _mm_set1_ps(2.0f);
+			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), two);
 			*dst = _mm_add_epi32(ix, _mm_cvttps_epi32(rem));
 		}
 		template<integral_of_size<8> T>
@@ -146,8 +146,8 @@ namespace dpm
 			const auto tl = _mm_cvtepi64_ps(il);
 			const auto tx = _mm_movelh_ps(tl, th);
 
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
+			const auto two = _mm_set1_ps(2.0f);
+			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), two);
 			dst[1] = _mm_add_epi64(th, _mm_cvttps_epi64(_mm_movehl_ps(rem, rem)));
 			dst[0] = _mm_add_epi64(tl, _mm_cvttps_epi64(rem));
 #else
@@ -221,8 +221,8 @@ namespace dpm
 		{
 			const auto ix = _mm_cvttpd_epi32(x);
 			const auto tx = _mm_cvtepi32_pd(ix);
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
+			const auto two = _mm_set1_pd(2.0);
+			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), two);
 			*dst = _mm_add_epi32(ix, _mm_cvttpd_epi32(rem));
 		}
 		template<integral_of_size<8> T>
@@ -231,8 +231,8 @@ namespace dpm
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
 			const auto ix = _mm_cvttpd_epi64(x);
 			const auto tx = _mm_cvtepi64_pd(ix);
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
+			const auto two = _mm_set1_pd(2.0);
+			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), two);
 			*dst = _mm_add_epi64(ix, _mm_cvttpd_epi64(rem));
 #else
 			__m128i tmp;
@@ -313,12 +313,12 @@ namespace dpm
 		{
 			const auto ix = _mm256_cvttps_epi32(x);
 			const auto tx = _mm256_cvtepi32_ps(ix);
-			const auto near2 = _mm256_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
+			const auto two = _mm256_set1_ps(2.0f);
+			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), two);
 #ifdef DPM_HAS_AVX2
 			*dst = _mm256_add_epi32(ix, _mm256_cvttps_epi32(rem));
 #else
-			*dst = mux_128x2<__m256i>([](auto i) { return _mm_add_epi32(i); }, _mm256_cvttps_epi32(rem));
+			*dst = mux_128x2<__m256i>([](auto a, auto b) { return _mm_add_epi32(a, b); }, ix, _mm256_cvttps_epi32(rem));
 #endif
 		}
 		template<integral_of_size<8> T>
@@ -331,8 +331,8 @@ namespace dpm
 			const auto tl = _mm256_cvtepi64_ps(il);
 			const auto tx = _mm256_permute2f128_ps(tl, th, 0x20);
 
-			const auto near2 = _mm256_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
+			const auto two = _mm256_set1_ps(2.0f);
+			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), two);
 			dst[1] = _mm256_add_epi64(th, _mm256_cvttps_epi64(_mm256_permute2f128_ps(rem, rem, 0x11)));
 			dst[0] = _mm256_add_epi64(tl, _mm256_cvttps_epi64(rem));
 #else
@@ -383,8 +383,8 @@ namespace dpm
 		{
 			const auto ix = _mm256_cvttpd_epi32(x);
 			const auto tx = _mm256_cvtepi32_pd(ix);
-			const auto near2 = _mm256_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm256_mul_pd(_mm256_sub_pd(x, tx), near2);
+			const auto two = _mm256_set1_pd(2.0);
+			const auto rem = _mm256_mul_pd(_mm256_sub_pd(x, tx), two);
 			*dst = _mm_add_epi32(ix, _mm256_cvttpd_epi32(rem));
 		}
 		template<integral_of_size<4> T>
@@ -395,8 +395,8 @@ namespace dpm
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
 			const auto ix = _mm256_cvttpd_epi64(x);
 			const auto tx = _mm256_cvtepi64_pd(ix);
-			const auto near2 = _mm256_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm256_mul_pd(_mm256_sub_pd(x, tx), near2);
+			const auto two = _mm256_set1_pd(2.0);
+			const auto rem = _mm256_mul_pd(_mm256_sub_pd(x, tx), two);
 			*dst = _mm256_add_epi64(ix, _mm256_cvttpd_epi64(rem));
 #else
 			__m128i tmp;
-- 
2.43.0


From e79a3ba4f47e7e0fdee10faf3919137b29158743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 30/80] fix: x86 float to integer rounding covers the full
 range of the integer type

---
 dpm/detail/x86/round.hpp | 153 +++++++++++----------------------------
 1 file changed, 42 insertions(+), 111 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 244e014..1f19189 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -429,9 +429,6 @@ namespace dpm
 		template<typename T, typename V>
 		DPM_FORCEINLINE void round(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128 *>(dst)); }
 
-		DPM_FORCEINLINE void lround(auto x, auto *dst) noexcept { rint<long>(x, dst); }
-		DPM_FORCEINLINE void llround(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
-
 		template<typename T, typename V>
 		DPM_FORCEINLINE void rint(V x, __m256 *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
 		template<typename T, typename V>
@@ -439,8 +436,9 @@ namespace dpm
 		template<typename T, typename V>
 		DPM_FORCEINLINE void rint(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
 
-		DPM_FORCEINLINE void lrint(auto x, auto *dst) noexcept { rint<long>(x, dst); }
-		DPM_FORCEINLINE void llrint(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
+		/* Only conversions from float to int32 can be vectorized without loss of range. */
+		template<typename I, typename T>
+		concept vectorized_ifloat = signed_integral_of_size<I, 4> && std::same_as<T, float>;
 	}
 
 	/** Rounds elements of vector \a x to nearest integer not less than the element's value. */
@@ -528,47 +526,15 @@ namespace dpm
 	template<std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<long, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<long, N, A> lround(const detail::x86_simd<T, N, A> &x) noexcept
 	{
-		if (std::is_constant_evaluated())
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-			return static_cast<detail::x86_simd<long, N, A>>(lround(packed));
-		}
-		else
-		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lround(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
-		}
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+		return static_cast<detail::x86_simd<long, N, A>>(lround(packed));
 	}
 	/** Casts elements of vector \a x to `long long` rounding away from zero. */
 	template<std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<long long, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<long long, N, A> llround(const detail::x86_simd<T, N, A> &x) noexcept
 	{
-		if (std::is_constant_evaluated())
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-			return static_cast<detail::x86_simd<long long, N, A>>(llround(packed));
-		}
-		else
-		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llround(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
-		}
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+		return static_cast<detail::x86_simd<long long, N, A>>(llround(packed));
 	}
 
 	/** Rounds elements of vector \a x to nearest integer using current rounding mode with exceptions. */
@@ -591,98 +557,63 @@ namespace dpm
 	template<std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<long, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<long, N, A> lrint(const detail::x86_simd<T, N, A> &x) noexcept
 	{
-		if (std::is_constant_evaluated())
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-			return static_cast<detail::x86_simd<long, N, A>>(lrint(packed));
-		}
-		else
-		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lrint(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
-		}
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+		return static_cast<detail::x86_simd<long, N, A>>(lrint(packed));
 	}
 	/** Casts elements of vector \a x to `long long` using current rounding mode with exceptions. */
 	template<std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<long long, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<long long, N, A> llrint(const detail::x86_simd<T, N, A> &x) noexcept
 	{
-		if (std::is_constant_evaluated())
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-			return static_cast<detail::x86_simd<long long, N, A>>(llrint(packed));
-		}
-		else
-		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llrint(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
-		}
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+		return static_cast<detail::x86_simd<long long, N, A>>(llrint(packed));
 	}
 
 	DPM_DECLARE_EXT_NAMESPACE
 	{
 		/** Casts elements of vector \a x to integer type \a I with truncation. */
-		template<std::integral I, std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<I, N, A>
+		template<std::signed_integral I, std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<I, N, A>
 		[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<I, N, A> itrunc(const detail::x86_simd<T, N, A> &x) noexcept
 		{
-			if (std::is_constant_evaluated())
-			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_simd<I, N, A>>(itrunc<I>(packed));
-			}
-			else
-			{
-				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { res = detail::itrunc<I>(x); }, result, x);
-				return result;
-			}
+			if constexpr (detail::vectorized_ifloat<I, T>)
+				if (!std::is_constant_evaluated())
+				{
+					detail::x86_simd <I, N, A> result = {};
+					detail::vectorize([](auto &res, auto x) { detail::itrunc<I>(x, &res); }, result, x);
+					return result;
+				}
+
+			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+			return static_cast<detail::x86_simd<I, N, A>>(itrunc<I>(packed));
 		}
 		/** Casts elements of vector \a x to integer of type \a I rounding away from zero. */
 		template<std::signed_integral I, std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<I, N, A>
 		[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<I, N, A> iround(const detail::x86_simd<T, N, A> &x) noexcept
 		{
-			if (std::is_constant_evaluated())
-			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_simd<I, N, A>>(iround<I>(packed));
-			}
-			else
-			{
-				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { detail::round<I>(x, &res); }, result, x);
-				return result;
-			}
+			if constexpr (detail::vectorized_ifloat<I, T>)
+				if (!std::is_constant_evaluated())
+				{
+					detail::x86_simd <I, N, A> result = {};
+					detail::vectorize([](auto &res, auto x) { detail::round<I>(x, &res); }, result, x);
+					return result;
+				}
+
+			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+			return static_cast<detail::x86_simd<I, N, A>>(iround<I>(packed));
 		}
 		/** Casts elements of vector \a x to integer of type \a I using current rounding mode with exceptions. */
 		template<std::signed_integral I, std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<I, N, A>
 		[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<I, N, A> irint(const detail::x86_simd<T, N, A> &x) noexcept
 		{
-			if (std::is_constant_evaluated())
-			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_simd<I, N, A>>(irint<I>(packed));
-			}
-			else
-			{
-				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { detail::rint<I>(x, &res); }, result, x);
-				return result;
-			}
+			if constexpr (detail::vectorized_ifloat<I, T>)
+				if (!std::is_constant_evaluated())
+				{
+					detail::x86_simd <I, N, A> result = {};
+					detail::vectorize([](auto &res, auto x) { detail::rint<I>(x, &res); }, result, x);
+					return result;
+				}
+
+			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+			return static_cast<detail::x86_simd<I, N, A>>(irint<I>(packed));
 		}
 	}
 }
-- 
2.43.0


From 60722af08db4a437c228cb9a538d65521984c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 31/80] fix: x86 partial shuffles do not read past the end of
 the source

---
 dpm/detail/x86/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index f57bcbf..15f5b31 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -649,7 +649,7 @@ namespace dpm::detail
 			shuffle<T, J>(extract_sequence_t<next_pos, sizeof...(Is) - native_extent, Is...>{}, dst + 1, src);
 		}
 		else
-			shuffle<T, J>(pad_sequence_t<native_extent, 1, Is...>{}, dst, src);
+			shuffle<T, J>(pad_sequence_t<native_extent, 0, Is...>{}, dst, src);
 	}
 
 	template<typename T, std::size_t N, typename V, typename Op>
-- 
2.43.0


From f65d518f09dce43c3437b73de956632d14bde2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 32/80] fix: x86 64-bit asr moves bits from the upper to the
 lower half

---
 dpm/detail/x86/bitwise.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/bitwise.hpp b/dpm/detail/x86/bitwise.hpp
index f74bc62..0cc2aa5 100644
--- a/dpm/detail/x86/bitwise.hpp
+++ b/dpm/detail/x86/bitwise.hpp
@@ -226,7 +226,7 @@ namespace dpm::detail
 		{
 			xh = _mm_srai_epi32(xh, N);
 			xh = _mm_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm_srli_epi32(xl, N);
+			xl = _mm_srli_epi64(xl, N);
 			xl = _mm_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm_unpacklo_epi32(xl, xh);
@@ -249,7 +249,7 @@ namespace dpm::detail
 		{
 			xh = _mm256_srai_epi32(xh, N);
 			xh = _mm256_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm256_srli_epi32(xl, N);
+			xl = _mm256_srli_epi64(xl, N);
 			xl = _mm256_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm256_unpacklo_epi32(xl, xh);
-- 
2.43.0


From dc274334ac3d389347cbba5c262818f4b66f997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 33/80] fix: x86 operator>> of signed 64-bit elements shifts in
 the sign bit

---
 dpm/detail/x86/type.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 08bb1ac..d5d11ab 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1115,11 +1115,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
@@ -1160,11 +1160,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
-- 
2.43.0


From 11fd996420e35a741edff3d6efe4e2c4d4c54c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 34/80] fix: AVX set of 64-bit integers keeps the upper half

---
 dpm/detail/x86/utility.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index f63aa42..d71f364 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -217,10 +217,10 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE V set(const T (&vals)[4]) noexcept
 	{
 		return _mm256_set_epi64x(
-				static_cast<std::int32_t>(vals[3]),
-				static_cast<std::int32_t>(vals[2]),
-				static_cast<std::int32_t>(vals[1]),
-				static_cast<std::int32_t>(vals[0])
+				static_cast<std::int64_t>(vals[3]),
+				static_cast<std::int64_t>(vals[2]),
+				static_cast<std::int64_t>(vals[1]),
+				static_cast<std::int64_t>(vals[0])
 		);
 	}
 
-- 
2.43.0


From 30c1948d1f8a46a0345b41f49a16762936c075c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 35/80] fix: x86 reduce_min and reduce_max of partial vectors
 of infinities

---
 dpm/detail/x86/type.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index d5d11ab..3554ca5 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1379,10 +1379,15 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE T reduce_add(const V *data) noexcept { return reduce<T, N>(data, setzero<V>(), [](auto a, auto b) { return add<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
 		[[nodiscard]] DPM_FORCEINLINE T reduce_mul(const V *data) noexcept { return reduce<T, N>(data, fill<V>(T{1}), [](auto a, auto b) { return mul<T>(a, b); }); }
+		template<typename T>
+		inline constexpr T min_identity = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
+		template<typename T>
+		inline constexpr T max_identity = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest();
+
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::max()), [](auto a, auto b) { return min<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(min_identity<T>), [](auto a, auto b) { return min<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::lowest()), [](auto a, auto b) { return max<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(max_identity<T>), [](auto a, auto b) { return max<T>(a, b); }); }
 
 #ifdef DPM_HAS_SSE2
 		template<typename T, std::size_t N, typename V>
-- 
2.43.0


From 112f78e4ff7aa9682a0703185e80af9a24adf963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 36/80] fix: x86 isnormal is false for NaN

---
 dpm/detail/x86/class.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index d68d270..9981c36 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -27,7 +27,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm_cmpnle_ps(inf, x), _mm_cmpnlt_ps(x, norm_min));
+			return bit_and(_mm_cmplt_ps(x, inf), _mm_cmpnlt_ps(x, norm_min));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 isinf(__m128 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm_cmpnle_pd(inf, x), _mm_cmpnlt_pd(x, norm_min));
+			return bit_and(_mm_cmplt_pd(x, inf), _mm_cmpnlt_pd(x, norm_min));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128d isinf(__m128d x) noexcept { return isinf_abs(abs<double>(x)); }
@@ -73,7 +73,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm256_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm256_cmp_ps(inf, x, _CMP_NLE_UQ), _mm256_cmp_ps(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_ps(x, inf, _CMP_LT_OQ), _mm256_cmp_ps(x, norm_min, _CMP_NLT_UQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256 isinf(__m256 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -92,7 +92,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm256_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm256_cmp_pd(inf, x, _CMP_NLE_UQ), _mm256_cmp_pd(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_pd(x, inf, _CMP_LT_OQ), _mm256_cmp_pd(x, norm_min, _CMP_NLT_UQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256d isinf(__m256d x) noexcept { return isinf_abs(abs<double>(x)); }
-- 
2.43.0


From 11dbc4cdc7a363dfdd4039a64e5813a43b5736bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 37/80] fix: x86 islessgreater is false for equal elements

---
 dpm/detail/x86/class.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 9981c36..0bbb7b2 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -263,7 +263,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_le<T>(b, a), detail::cmp_ge<T>(b, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_lt<T>(b, a), detail::cmp_gt<T>(b, a)); }, result, a, b);
 			return result;
 		}
 	}
-- 
2.43.0


From adc1b935f6a7a7edc203067baa8a6fa3875480b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 38/80] fix: x86 abs of integers without a native instruction
 negates negative elements

---
 dpm/detail/x86/mbase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index abae183..af57b27 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -127,7 +127,7 @@ namespace dpm
 		template<std::integral T, typename V>
 		[[nodiscard]] DPM_FORCEINLINE V abs(V x) noexcept
 		{
-			const auto t = bit_shiftr<T, std::numeric_limits<T>::digits - 1>(x);
+			const auto t = cmp_gt<T>(setzero<V>(), x); /* All bits are set for negative elements. */
 			return sub<T>(bit_xor(x, t), t);
 		}
 
-- 
2.43.0


From 4d864f1b076f46d3bda1e9320a9fd28f4088ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 39/80] fix: x86 fnmsub without FMA keeps the sign of zero
 results

---
 dpm/detail/x86/mbase.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index af57b27..9b23dd6 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -25,8 +25,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m128 fnmsub_sse(__m128 a, __m128 b, __m128 c) noexcept
 		{
-			const auto zero = setzero<__m128>();
-			return _mm_sub_ps(zero, fmadd_sse(a, b, c));
+			return _mm_sub_ps(_mm_xor_ps(_mm_mul_ps(a, b), _mm_set1_ps(-0.0f)), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 fmadd(__m128 a, __m128 b, __m128 c) noexcept
@@ -82,9 +81,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m128d fnmsub_sse(__m128d a, __m128d b, __m128d c) noexcept
 		{
-			const auto tmp = _mm_undefined_pd();
-			const auto zero = _mm_xor_pd(tmp, tmp);
-			return _mm_sub_pd(zero, fmadd_sse(a, b, c));
+			return _mm_sub_pd(_mm_xor_pd(_mm_mul_pd(a, b), _mm_set1_pd(-0.0)), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128d fmadd(__m128d a, __m128d b, __m128d c) noexcept
@@ -160,9 +157,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256 fnmsub_avx(__m256 a, __m256 b, __m256 c) noexcept
 		{
-			const auto tmp = _mm256_undefined_ps();
-			const auto zero = _mm256_xor_ps(tmp, tmp);
-			return _mm256_sub_ps(zero, fmadd_avx(a, b, c));
+			return _mm256_sub_ps(_mm256_xor_ps(_mm256_mul_ps(a, b), _mm256_set1_ps(-0.0f)), c);
 		}
 
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256d fmadd_avx(__m256d a, __m256d b, __m256d c) noexcept
@@ -179,9 +174,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256d fnmsub_avx(__m256d a, __m256d b, __m256d c) noexcept
 		{
-			const auto tmp = _mm256_undefined_pd();
-			const auto zero = _mm256_xor_pd(tmp, tmp);
-			return _mm256_sub_pd(zero, fmadd_avx(a, b, c));
+			return _mm256_sub_pd(_mm256_xor_pd(_mm256_mul_pd(a, b), _mm256_set1_pd(-0.0)), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256 fmadd(__m256 a, __m256 b, __m256 c) noexcept
-- 
2.43.0


From a5571b0710d5f2612b948569d0c09cc523b0efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 40/80] fix: AVX2 8- and 16-bit movemask does not sign-extend
 the mask of the last lane

---
 dpm/detail/x86/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index d71f364..e5f571c 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -248,7 +248,7 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE std::size_t movemask(V x) noexcept
 	{
 #ifdef DPM_HAS_AVX2
-		return static_cast<std::size_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x)));
+		return static_cast<std::uint32_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x)));
 #else
 		const auto ml = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 0));
 		const auto mh = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 1));
-- 
2.43.0


From 834d8a1db24181349ff944035e276c44cc5e1a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 41/80] fix: provide integer min and max for 256-bit vectors on
 AVX

---
 dpm/detail/x86/minmax.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dpm/detail/x86/minmax.hpp b/dpm/detail/x86/minmax.hpp
index 2faa4ad..48e0d10 100644
--- a/dpm/detail/x86/minmax.hpp
+++ b/dpm/detail/x86/minmax.hpp
@@ -84,6 +84,11 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return _mm256_min_epu32(a, b); }
 	template<unsigned_integral_of_size<4> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return _mm256_max_epu32(a, b); }
+#elif defined(DPM_HAS_AVX)
+	template<std::integral T> requires(sizeof(T) < 8)
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<std::integral T> requires(sizeof(T) < 8)
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
 #endif
 
 #if defined(DPM_HAS_AVX512F) && defined(DPM_HAS_AVX512LV)
-- 
2.43.0


From a7f2fa1bfe778cf28b172df3bf5dc8d9060f69e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 42/80] fix: AVX round does not depend on an AVX trunc declared
 later

---
 dpm/detail/x86/round.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 1f19189..707f724 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -99,13 +99,12 @@ namespace dpm
 #endif
 		}
 
-		/* Truncates x, then moves away from zero if the (exact) remainder is at least 1/2. Does not depend on the current rounding mode. */
+		/* Moves tx (truncated x) away from zero if the (exact) remainder is at least 1/2. Does not depend on the current rounding mode. */
 		template<typename T, typename V>
-		[[nodiscard]] DPM_FORCEINLINE V round_away(V x) noexcept
+		[[nodiscard]] DPM_FORCEINLINE V round_away(V x, V tx) noexcept
 		{
 			const auto sign_mask = fill<V>(T{-0.0});
 			const auto sign = bit_and(x, sign_mask);
-			const auto tx = trunc(x);
 			const auto rem = bit_andnot(sign_mask, sub<T>(x, tx));
 			const auto off = bit_and(cmp_ge<T>(rem, fill<V>(T{0.5})), fill<V>(T{1}));
 			return bit_or(add<T>(bit_andnot(sign_mask, tx), off), sign);
@@ -164,7 +163,7 @@ namespace dpm
 #if !defined(DPM_HAS_SSE4_1) && defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_ps(x);
 #else
-			*dst = round_away<float>(x);
+			*dst = round_away<float>(x, trunc(x));
 #endif
 		}
 
@@ -248,7 +247,7 @@ namespace dpm
 #if !defined(DPM_HAS_SSE4_1) && defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_pd(x);
 #else
-			*dst = round_away<double>(x);
+			*dst = round_away<double>(x, trunc(x));
 #endif
 		}
 
@@ -348,7 +347,7 @@ namespace dpm
 		template<std::same_as<float> T>
 		DPM_FORCEINLINE void round(__m256 x, __m256 *dst) noexcept
 		{
-			*dst = round_away<float>(x);
+			*dst = round_away<float>(x, trunc(x));
 		}
 
 		template<integral_of_size<4> T>
@@ -409,7 +408,7 @@ namespace dpm
 		template<std::same_as<double> T>
 		DPM_FORCEINLINE void round(__m256d x, __m256d *dst) noexcept
 		{
-			*dst = round_away<double>(x);
+			*dst = round_away<double>(x, trunc(x));
 		}
 
 		template<integral_of_size<4> T>
-- 
2.43.0


From 951930a1c33dc9083326f82639435acf5f1285ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 43/80] fix: x86 frexp exponent of subnormal elements

---
 dpm/detail/x86/frexp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/frexp.cpp b/dpm/detail/x86/frexp.cpp
index 6b9be4c..26daf16 100644
--- a/dpm/detail/x86/frexp.cpp
+++ b/dpm/detail/x86/frexp.cpp
@@ -20,7 +20,7 @@ namespace dpm::detail
 		const auto is_zero = cmp_eq<T>(x, setzero<V>());
 
 		/* off = is_subn ? mant_bits + 2 : 0 */
-		const auto off = bit_and(is_subn, fill<Vi>(std::numeric_limits<I>::digits));
+		const auto off = bit_and(is_subn, fill<Vi>(mant_bits<I> + 2));
 		auto norm_x = mul<T>(bit_and(std::bit_cast<V>(is_subn), x), fill<V>(exp_mult<T>));
 		norm_x = blendv<T>(x, norm_x, std::bit_cast<V>(is_subn));
 		auto norm_exp = bit_and(std::bit_cast<Vi>(norm_x), fill<Vi>(exp_ones));
-- 
2.43.0


From aa84747866b51154db097138ecaf615b0349686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 44/80] fix: x86 modf integral part of values without an
 integral part

---
 dpm/detail/x86/modf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/modf.cpp b/dpm/detail/x86/modf.cpp
index 383d15b..8f9936e 100644
--- a/dpm/detail/x86/modf.cpp
+++ b/dpm/detail/x86/modf.cpp
@@ -41,8 +41,8 @@ namespace dpm::detail
 
 		/* i = e < 0 ? x : x & -0.0 */
 		auto i = blendv<T>(x, fract_ip, fract_mask);
-		/* i = ix & mask ? x2 : i */
-		i = blendv<T>(x2, i, mask_zero);
+		/* i = e < 0 || e >= mant_bits ? i : x2 */
+		i = blendv<T>(x2, i, bit_or(fract_mask, int_mask));
 
 		/* x = mask_zero ? x1 : (x - x2) */
 		auto y = blendv<T>(sub<T>(x, x2), x1, mask_zero);
-- 
2.43.0


From 553183cf8d9c08daf7586464edd6b7f4dacffa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 45/80] fix: x86 scalbn does not wrap around for exponents far
 outside the range of the type

---
 dpm/detail/x86/scalbn.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/scalbn.cpp b/dpm/detail/x86/scalbn.cpp
index eaec43e..4fe31b4 100644
--- a/dpm/detail/x86/scalbn.cpp
+++ b/dpm/detail/x86/scalbn.cpp
@@ -13,6 +13,10 @@ namespace dpm::detail
 	template<typename T, typename V, typename Vi, typename I = int_of_size_t<sizeof(T)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_scalbn(V x, Vi n) noexcept
 	{
+		/* Clamp n to prevent wrap-around of the resulting exponent. */
+		n = blendv<I>(n, fill<Vi>(max_scalbn<I>), cmp_gt<I>(n, fill<Vi>(max_scalbn<I>)));
+		n = blendv<I>(n, fill<Vi>(-max_scalbn<I>), cmp_gt<I>(fill<Vi>(-max_scalbn<I>), n));
+
 		const auto ix = std::bit_cast<Vi>(x);
 		const auto x_exp = bit_and(bit_shiftr<I, mant_bits<I>>(ix), fill<Vi>(exp_mask<I>));
 		auto fwd_mask = std::bit_cast<Vi>(cmp_eq<T>(x, setzero<V>()));
@@ -36,8 +40,8 @@ namespace dpm::detail
 		norm_exp = add<I>(norm_exp, n);
 
 #ifdef DPM_HANDLE_ERRORS
-		const auto has_overflow = bit_andnot(fwd_mask, bit_or(cmp_gt_l32<I>(n, fill<Vi>(max_scalbn<I>)), cmp_gt_l32<I>(norm_exp, fill<Vi>(exp_mask<I> - 1))));
-		const auto has_underflow = bit_andnot(fwd_mask, bit_or(cmp_gt_l32<I>(fill<Vi>(-max_scalbn<I>), n), cmp_gt_l32<I>(fill<Vi>(-mant_bits<I> - 1), norm_exp)));
+		const auto has_overflow = bit_andnot(fwd_mask, cmp_gt_l32<I>(norm_exp, fill<Vi>(exp_mask<I> - 1)));
+		const auto has_underflow = bit_andnot(fwd_mask, cmp_gt_l32<I>(fill<Vi>(-mant_bits<I> - 1), norm_exp));
 #endif
 
 		/* Handle subnormal result for norm_exp <= 0. */
-- 
2.43.0


From acf6246724261a7796367b32c3a1b8cfbd426b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 46/80] fix: x86 ldexp and scalbn of 4 doubles use the exponent
 of each element

---
 dpm/detail/x86/fmanip.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 072768d..62fa15b 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -128,23 +128,18 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn32(__m256 x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m128i *exp, std::size_t i) noexcept
 		{
-			const auto exph = exp[i + 1];
-			const auto expl = exp[i];
+			const auto exp32 = exp[i];
+			const auto sign = _mm_srai_epi32(exp32, 31);
 			const auto xh = _mm256_castpd256_pd128(_mm256_permute2f128_pd(x, x, 1));
 			const auto xl = _mm256_castpd256_pd128(x);
-			const auto h = scalbn(xh, _mm_unpackhi_epi32(exph, _mm_srai_epi32(exph, 31)));
-			const auto l = scalbn(xl, _mm_unpackhi_epi32(expl, _mm_srai_epi32(expl, 31)));
+			const auto h = scalbn(xh, _mm_unpackhi_epi32(exp32, sign));
+			const auto l = scalbn(xl, _mm_unpacklo_epi32(exp32, sign));
 			return _mm256_set_m128d(h, l);
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m256i *exp, std::size_t i) noexcept
 		{
 #ifdef DPM_HAS_AVX2
-			auto exp64 = exp[i / 2];
-			if (const auto sign = _mm256_srai_epi32(exp64, 31); i % 2)
-				exp64 = _mm256_unpackhi_epi32(exp64, sign);
-			else
-				exp64 = _mm256_unpacklo_epi32(exp64, sign);
-			return scalbn(x, exp64);
+			return scalbn(x, _mm256_cvtepi32_epi64(reinterpret_cast<const __m128i *>(exp)[i]));
 #else
 			return scalbn32(x, reinterpret_cast<const __m128i *>(exp), i);
 #endif
-- 
2.43.0


From 9810189f9232e5227d724abeebe226f3cd2792a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 47/80] fix: x86 scalbln reads the exponent of each element and
 does not truncate it to 32 bits

---
 dpm/detail/x86/fmanip.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 62fa15b..536986a 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -62,10 +62,19 @@ namespace dpm
 			return scalbn(x, exp64);
 		}
 
+		/* Clamp 64-bit exponents to the range in which the result of scalbn is finite, so that they can be narrowed to 32 bits. */
+		template<typename V>
+		[[nodiscard]] DPM_FORCEINLINE V clamp_scalbn64(V exp) noexcept
+		{
+			using I = std::int64_t;
+			exp = blendv<I>(exp, fill<V>(max_scalbn<I>), cmp_gt<I>(exp, fill<V>(max_scalbn<I>)));
+			return blendv<I>(exp, fill<V>(-max_scalbn<I>), cmp_gt<I>(fill<V>(-max_scalbn<I>), exp));
+		}
+
 		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m128i *exp, std::size_t i) noexcept
 		{
-			const auto exph = std::bit_cast<__m128>(exp[i * 2 + 1]);
-			const auto expl = std::bit_cast<__m128>(exp[i * 2]);
+			const auto exph = std::bit_cast<__m128>(clamp_scalbn64(exp[i * 2 + 1]));
+			const auto expl = std::bit_cast<__m128>(clamp_scalbn64(exp[i * 2]));
 			return scalbn(x, std::bit_cast<__m128i>(_mm_shuffle_ps(expl, exph, _MM_SHUFFLE(2, 0, 2, 0))));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d scalbn64(__m128d x, const __m128i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
@@ -145,11 +154,11 @@ namespace dpm
 #endif
 		}
 
-		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(exp[i]));}
+		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(clamp_scalbn64(exp[i])));}
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn64(__m256 x, const __m256i *exp, std::size_t i) noexcept
 		{
-			const auto exph = cvt_i64_i32(exp[i]);
-			const auto expl = cvt_i64_i32(exp[i]);
+			const auto exph = cvt_i64_i32(clamp_scalbn64(exp[i * 2 + 1]));
+			const auto expl = cvt_i64_i32(clamp_scalbn64(exp[i * 2]));
 			return scalbn(x, _mm256_set_m128i(exph, expl));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
@@ -360,6 +369,7 @@ namespace dpm
 		else
 		{
 			using exp_t = int_of_size_t<sizeof(T)>;
+			exp = exp > detail::max_scalbn<long> ? detail::max_scalbn<long> : exp < -detail::max_scalbn<long> ? -detail::max_scalbn<long> : exp;
 			using exp_vector = detail::select_vector_t<exp_t, sizeof(ext::native_data_type_t < detail::x86_simd < T, N, A >>)>;
 
 			detail::x86_simd <T, N, A> result = {};
-- 
2.43.0


From 38cc0c3c574c496121c89309b87853544a61002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 48/80] fix: SSE4.1 conversion of negative 64-bit integers to
 double

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 09e7643..58f0985 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -87,7 +87,7 @@ namespace dpm::detail
 #else
 		const auto tmp = _mm_undefined_si128();
 		const auto zero = _mm_xor_si128(tmp, tmp);
-		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0x33);
+		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0xcc);
 		const auto b = _mm_blend_epi16(x, exp52, 0x88);
 #endif
 		return _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(_mm_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m128d>(b));
-- 
2.43.0


From 015dad5fb3a6a0cce4a5ce74bf3dbe1b0e56ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 49/80] fix: ilogb of infinite doubles is INT_MAX

---
 dpm/detail/x86/logb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/logb.cpp b/dpm/detail/x86/logb.cpp
index efca565..a25acfd 100644
--- a/dpm/detail/x86/logb.cpp
+++ b/dpm/detail/x86/logb.cpp
@@ -44,7 +44,7 @@ namespace dpm::detail
 		auto y = eval_ilogb<T, I>(abs_x);
 #ifdef DPM_HANDLE_ERRORS
 		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(FP_ILOGB0)), std::bit_cast<decltype(y)>(cmp_eq<T>(abs_x, setzero<V>())));
-		y = blendv<I>(y, fill<decltype(y)>(std::numeric_limits<I>::max()), std::bit_cast<decltype(y)>(isinf_abs(abs_x)));
+		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(std::numeric_limits<int>::max())), std::bit_cast<decltype(y)>(isinf_abs(abs_x)));
 #endif
 #ifdef DPM_PROPAGATE_NAN
 		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(FP_ILOGBNAN)), std::bit_cast<decltype(y)>(isunord(x, x)));
-- 
2.43.0


From c3af46009ea446e2d3c9dd0040aabc04ec9d16ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 50/80] fix: x86 frexp, modf and sincos return their second
 result reliably

---
 dpm/detail/x86/math_fwd.hpp | 47 -------------------------------------
 1 file changed, 47 deletions(-)

diff --git a/dpm/detail/x86/math_fwd.hpp b/dpm/detail/x86/math_fwd.hpp
index 43b75da..41d7ce6 100644
--- a/dpm/detail/x86/math_fwd.hpp
+++ b/dpm/detail/x86/math_fwd.hpp
@@ -9,52 +9,6 @@
 
 namespace dpm::detail
 {
-	/* On GNU-compatible systems return 2 registers at once. */
-#ifdef __GNUC__
-	template<typename T0, typename T1>
-	using vec2_return_t = T0;
-
-	template<typename T0, typename T1>
-	[[nodiscard]] vec2_return_t<T0, T1> DPM_FORCEINLINE vec2_return(T0 x, T1 y) noexcept requires(sizeof(T1) == 16)
-	{
-		/* Avoid discarding y */
-#ifdef DPM_HAS_AVX
-		__asm__ ("vmovaps %[y], %%xmm1" : : [y] "x"(y) : "xmm1");
-#else
-		__asm__ ("movaps %[y], %%xmm1" : : [y] "x"(y) : "xmm1");
-#endif
-		return x;
-	}
-	template<typename T0, typename T1>
-	[[nodiscard]] T0 DPM_FORCEINLINE vec2_call(auto f, T0 x, T1 &out) noexcept requires(sizeof(T1) == 16)
-	{
-		x = f(x);
-		/* Read second variable from xmm1 */
-#ifdef DPM_HAS_AVX
-		__asm__ volatile ("vmovaps %%xmm1, %[out]" : [out] "=xm"(out));
-#else
-		__asm__ volatile ("movaps %%xmm1, %[out]" : [out] "=xm"(out));
-#endif
-		return x;
-	}
-#ifdef DPM_HAS_AVX
-	template<typename T0, typename T1>
-	[[nodiscard]] vec2_return_t<T0, T1> DPM_FORCEINLINE vec2_return(T0 x, T1 y) noexcept requires(sizeof(T1) == 32)
-	{
-		/* Avoid discarding y */
-		__asm__ ("vmovaps %[y], %%ymm1" : : [y] "x"(y) : "ymm1");
-		return x;
-	}
-	template<typename T0, typename T1>
-	[[nodiscard]] T0 DPM_FORCEINLINE vec2_call(auto f, T0 x, T1 &out) noexcept requires(sizeof(T1) == 32)
-	{
-		x = f(x);
-		/* Read second variable from ymm1 */
-		__asm__ volatile ("vmovaps %%ymm1, %[out]" : [out] "=xm"(out));
-		return x;
-	}
-#endif
-#else
 	template<typename T0, typename T1>
 	using vec2_return_t = std::pair<T0, T1>;
 
@@ -67,5 +21,4 @@ namespace dpm::detail
 		out = res.second;
 		return res.first;
 	}
-#endif
 }
\ No newline at end of file
-- 
2.43.0


From e92db37237f770b670aafe77b24dfa36ca92be43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 51/80] fix: x86 log and log2 of subnormal elements

---
 dpm/detail/x86/exp.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index d456c65..f072c74 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -90,12 +90,11 @@ namespace dpm
 		template<std::same_as<float> T, typename V, typename Vi = select_vector_t<std::int32_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7f00'0000;
 			constexpr std::int32_t sub_off = 0x80'0000;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal or not finite. */
-			const auto is_subnorm = cmp_gt<std::int32_t>(sub<std::int32_t>(ix, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			/* x is subnormal, zero or negative. */
+			const auto is_subnorm = cmp_gt<std::int32_t>(fill<Vi>(sub_off), ix);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^23 */
 			{
 				/* Normalize x. */
@@ -108,13 +107,12 @@ namespace dpm
 		template<std::same_as<double> T, typename V, typename Vi = select_vector_t<std::int64_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7fe0;
 			constexpr std::int32_t sub_off = 0x10;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal, negative or not finite. */
+			/* x is subnormal or zero. */
 			const auto top16 = bit_shiftr<std::int64_t, 48>(ix);
-			const auto is_subnorm = cmp_gt_l32<std::int64_t>(sub<std::int64_t>(top16, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			const auto is_subnorm = cmp_gt_l32<std::int64_t>(fill<Vi>(sub_off), top16);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^52 */
 			{
 				/* Normalize x. */
-- 
2.43.0


From 16c1850fb292a3caf3cab03531d5014137a0596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 52/80] fix: x86 logarithms of zero are negative infinity

---
 dpm/detail/x86/exp.hpp   | 4 ++--
 dpm/detail/x86/log1p.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index f072c74..a6dacb2 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -77,9 +77,9 @@ namespace dpm
 			y = blendv<T>(x, y, isfinite_abs(x));
 #endif
 #ifdef DPM_HANDLE_ERRORS
-			/* log(0) == inf + FE_DIVBYZERO */
+			/* log(0) == -inf + FE_DIVBYZERO */
 			const auto zero_mask = cmp_eq<T>(x, setzero<V>());
-			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 			/* log(-x) == NaN + FE_INVALID */
 			const auto minus_mask = cmp_lt<T>(x, setzero<V>());
 			if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index 790cf19..aa58153 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -34,9 +34,9 @@ namespace dpm::detail
 		/* log1p(subnormal x) == x */
 		const auto exp = bit_shiftr<I, mant_bits<I>>(std::bit_cast<Vi>(x));
 		y = blendv<T>(y, x, std::bit_cast<V>(cmp_eq<I>(exp, setzero<Vi>())));
-		/* log1p(-1) == inf + FE_DIVBYZERO */
+		/* log1p(-1) == -inf + FE_DIVBYZERO */
 		const auto zero_mask = cmp_eq<T>(x, fill<V>(-one<T>));
-		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 		/* log1p(x < -1) == NaN + FE_INVALID */
 		const auto minus_mask = cmp_lt<T>(x, fill<V>(-one<T>));
 		if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
-- 
2.43.0


From d47c789e3a9bb242ee914a14161275b6f3156fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 53/80] fix: x86 log10 of doubles normalizes subnormal elements
 only

---
 dpm/detail/x86/log10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/log10.cpp b/dpm/detail/x86/log10.cpp
index 077a319..efb36f4 100644
--- a/dpm/detail/x86/log10.cpp
+++ b/dpm/detail/x86/log10.cpp
@@ -49,7 +49,7 @@ namespace dpm::detail
 		auto k = setzero<Vi>();
 
 		const auto top16 = bit_shiftr<I, 48>(ix);
-		const auto is_subnorm = cmp_gt<I>(fill<Vi>(0x10ull << 48), top16);
+		const auto is_subnorm = cmp_gt<I>(fill<Vi>(0x10ull), top16);
 		if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^54 */
 		{
 			/* Normalize x. */
-- 
2.43.0


From 4aefd98726b7ae080203a6bd62703c073373bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 54/80] fix: x86 log2 of doubles uses the range its lookup
 table was made for

---
 dpm/detail/x86/log2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/log2.cpp b/dpm/detail/x86/log2.cpp
index dc71893..a7619a4 100644
--- a/dpm/detail/x86/log2.cpp
+++ b/dpm/detail/x86/log2.cpp
@@ -48,12 +48,12 @@ namespace dpm::detail
 		auto ix = log_normalize<T>(x);
 
 		/* Load invc & logc constants from the lookup table. */
-		const auto tmp = sub<I>(ix, fill<Vi>(0x3fe6'9009'0000'0000));
+		const auto tmp = sub<I>(ix, fill<Vi>(0x3fe6'0000'0000'0000));
 		auto i = bit_shiftr<I, 52 - log2tab_bits_f64>(tmp);
 		i = bit_and(i, fill<Vi>((1 << log2tab_bits_f64) - 1));
 		const auto [invc, logc] = log_get_table<V>(i, log2tab_v<T>, DPM_SOURCE_LOC_CURRENT);
 
-		/* x = 2^k z; where z is in range [0x3fe6'9009'0000'0000, 2 * 0x3fe6'9009'0000'0000] and exact.  */
+		/* x = 2^k z; where z is in range [0x3fe6'0000'0000'0000, 2 * 0x3fe6'0000'0000'0000] and exact.  */
 		const auto k = bit_ashiftr<I, 52>(tmp);
 		const auto z = std::bit_cast<V>(sub<I>(ix, bit_and(tmp, fill<Vi>(0xfffull << 52))));
 
-- 
2.43.0


From 6a7cb6d069a23a415e2b25d1e57cb4be67341b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 55/80] fix: x86 log1p of arguments near zero

---
 dpm/detail/x86/log1p.cpp | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index aa58153..6d3e4df 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -11,13 +11,11 @@ namespace dpm::detail
 	/* log(1 + x) - log(u) ~= c / u; where u = 1 + x rounded, and c = (1 + x) - u.
 	 * As such, log(1 + x) ~= log(u) + c / u. When c == 0, log(1 + x) is exact.
 	 *
-	 * It is important to avoid underflow in c / u. As such,
-	 * when u is in range [sqrt(2) / 2, sqrt(2)), c == 0.
-	 * Otherwise, let k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x3fd;
+	 * Let k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x401;
 	 * if k < 52, c == 1 - (u - x) for k >= 0 and x - (u - 1) for k < 0.
 	 * Otherwise (for k >= 52), c == 0.
 	 *
-	 * For single-precision (32-bit) floats, k = (as_int(u) + 0x4afb0d) >> 23 - 0x7d,
+	 * For single-precision (32-bit) floats, k = (as_int(u) + 0x4afb0d) >> 23 - 0x81,
 	 * and k threshold is 23 instead of 52 (threshold is mantissa bits).
 	 *
 	 * Use eval_log to calculate log(u), as there is no need for
@@ -47,14 +45,11 @@ namespace dpm::detail
 	template<std::same_as<float> T, typename V, typename I = std::int32_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0f));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbe95f61a), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 23 - 0x7d */
+		/* k = (as_int(u) + 0x4afb0d) >> 23 - 0x81 */
 		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x4afb0d));
-		k = sub<I>(bit_shiftr<I, 23>(k), fill<Vi>(0x7d));
+		k = sub<I>(bit_shiftr<I, 23>(k), fill<Vi>(0x81));
 
 		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
 		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
@@ -62,28 +57,25 @@ namespace dpm::detail
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0f)));
 		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
-		/* c = (k >= 23 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(22)), range_mask);
+		/* c = k >= 23 ? 0 : c */
+		const auto exact_mask = cmp_gt<I>(k, fill<Vi>(22));
 		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
 
 		/* log1p(x) ~= log(u) + c / u */
 		auto y = add<T>(eval_log<T>(std::bit_cast<Vi>(u)), div<T>(c, u));
-		/* log(0) == 0 */
-		y = bit_andnot(cmp_eq<T>(x, setzero<V>()), y);
+		/* log1p(+-0) == +-0 */
+		y = blendv<T>(y, x, cmp_eq<T>(x, setzero<V>()));
 		/* Handle negative x <= -1, NaN & inf. */
 		return log1p_excepts<T>(y, x);
 	}
 	template<std::same_as<double> T, typename V, typename I = std::int64_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbfd2bec4ull), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 52 - 0x3fd */
+		/* k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x401 */
 		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x95f62ull << 32));
-		k = sub<I>(bit_shiftr<I, 52>(k), fill<Vi>(0x3fdull));
+		k = sub<I>(bit_shiftr<I, 52>(k), fill<Vi>(0x401ull));
 
 		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
 		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
@@ -91,14 +83,14 @@ namespace dpm::detail
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0)));
 		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
-		/* c = (k >= 52 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(51ull)), range_mask);
+		/* c = k >= 52 ? 0 : c */
+		const auto exact_mask = cmp_gt<I>(k, fill<Vi>(51ull));
 		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
 
 		/* log1p(x) ~= log(u) + c / u */
 		auto y = add<T>(eval_log<T>(std::bit_cast<Vi>(u)), div<T>(c, u));
-		/* log(0) == 0 */
-		y = bit_andnot(cmp_eq<T>(x, setzero<V>()), y);
+		/* log1p(+-0) == +-0 */
+		y = blendv<T>(y, x, cmp_eq<T>(x, setzero<V>()));
 		/* Handle negative x <= -1, NaN & inf. */
 		return log1p_excepts<T>(y, x);
 	}
-- 
2.43.0


From bbf657a0a872788a38788e02e6a2b9315cf13866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 56/80] fix: x86 log and log2 of doubles normalize subnormal
 elements only

---
 dpm/detail/x86/exp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index a6dacb2..25c02c4 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -107,7 +107,7 @@ namespace dpm
 		template<std::same_as<double> T, typename V, typename Vi = select_vector_t<std::int64_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_off = 0x10;
+			constexpr std::int64_t sub_off = 0x10;
 			auto ix = std::bit_cast<Vi>(x);
 
 			/* x is subnormal or zero. */
-- 
2.43.0


From e0760ae3aa8b75e10910b23ee4d23bcc49ffbc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 57/80] fix: x86 log10 of subnormal floats in odd lanes

---
 dpm/detail/x86/log10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/log10.cpp b/dpm/detail/x86/log10.cpp
index efb36f4..12d13d0 100644
--- a/dpm/detail/x86/log10.cpp
+++ b/dpm/detail/x86/log10.cpp
@@ -19,7 +19,7 @@ namespace dpm::detail
 		{
 			/* Normalize x. */
 			const auto ix_norm = std::bit_cast<Vi>(mul<T>(x, fill<V>(0x1p25f)));
-			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(25ull)));
+			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(static_cast<I>(25))));
 			ix = blendv<I>(ix, ix_norm, is_subnorm);
 		}
 
-- 
2.43.0


From 7af19eabb3f261e58e87aa011e0dbe61ac1accfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 58/80] fix: x86 tan of small arguments evaluates its
 polynomial from the highest term

---
 dpm/detail/fconst.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index 4987658..b23cd25 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -93,7 +93,7 @@ namespace dpm::detail
 	};
 
 	template<std::floating_point T>
-	static constexpr T tancof[] = {T{1.0}, T{3.3333333332780246e-1}, T{1.3333333883976731e-1}, T{5.3966541627173827e-2}, T{2.2079624737833755e-2}};
+	static constexpr T tancof[] = {T{2.2079624737833755e-2}, T{5.3966541627173827e-2}, T{1.3333333883976731e-1}, T{3.3333333332780246e-1}, T{1.0}};
 
 	template<std::floating_point T>
 	static constexpr T asin_r[] = {T{2.967721961301243206100e-3}, T{-5.634242780008963776856e-1}, T{6.968710824104713396794e0}, T{-2.556901049652824852289e1}, T{2.853665548261061424989e1}};
-- 
2.43.0


From f7a39fbee556344f0a3d0f5331640cd6ee0171d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 59/80] fix: x86 sin, cos and tan of arguments beyond the range
 of their argument reduction

---
 dpm/detail/fconst.hpp     | 15 +++++++++++++++
 dpm/detail/x86/sincos.cpp |  2 +-
 dpm/detail/x86/tan.cpp    |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index b23cd25..933aeb6 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -78,6 +78,21 @@ namespace dpm::detail
 
 	template<std::floating_point T>
 	static constexpr T dp_sincos[] = {T{-7.85398125648498535156e-1}, T{-3.77489470793079817668e-8}, T{-2.69515142907905952645e-15}};
+#ifndef DPM_HAS_FMA
+	/* Without FMA products of the leading terms must be exact. */
+	template<>
+	constexpr float dp_sincos<float>[] = {-0.78515625f, -2.4187564849853515625e-4f, -3.77489497744594108e-8f};
+#endif
+
+	/* Largest |x| for which the range reduction of sin, cos & tan is accurate. */
+	template<std::floating_point T>
+	static constexpr T sincos_max = T{1073741824.0};
+	template<>
+#ifdef DPM_HAS_FMA
+	constexpr float sincos_max<float> = 4194304.0f;
+#else
+	constexpr float sincos_max<float> = 8192.0f;
+#endif
 
 	template<std::floating_point T>
 	static constexpr T sincof[] = {
diff --git a/dpm/detail/x86/sincos.cpp b/dpm/detail/x86/sincos.cpp
index 861eff7..9dc1c60 100644
--- a/dpm/detail/x86/sincos.cpp
+++ b/dpm/detail/x86/sincos.cpp
@@ -25,7 +25,7 @@ namespace dpm::detail
 #endif
 
 		/* Check for over & underflow conditions. */
-		const auto oflow_mask = cvt_has_overflow<I>(abs_x);
+		const auto oflow_mask = cmp_gt<T>(abs_x, fill<V>(sincos_max<T>));
 		/* Handle exceptional cases later. */
 		auto y = eval_sincos<T, Op>(sign_x, bit_andnot(oflow_mask, abs_x));
 
diff --git a/dpm/detail/x86/tan.cpp b/dpm/detail/x86/tan.cpp
index b2c05c8..faefe36 100644
--- a/dpm/detail/x86/tan.cpp
+++ b/dpm/detail/x86/tan.cpp
@@ -45,7 +45,7 @@ namespace dpm::detail
 		auto y = blendv<T>(p1, p2, p_mask);
 
 		/* Handle exceptional cases. */
-		if (const auto m = movemask<I>(cvt_has_overflow<I>(abs_x)); m) [[unlikely]]
+		if (const auto m = movemask<I>(cmp_gt<T>(abs_x, fill<V>(sincos_max<T>))); m) [[unlikely]]
 		{
 			constexpr auto special = [](T &y, T x) { y = std::tan(x); };
 			mask_invoke<T, V, T &, T>(special, m, y, x);
-- 
2.43.0


From b47c3a96201d34b1aeda2051aadaa4ee583e36bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 60/80] fix: x86 hypot of subnormal doubles

---
 dpm/detail/x86/hypot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/hypot.cpp b/dpm/detail/x86/hypot.cpp
index bfd5933..9073b93 100644
--- a/dpm/detail/x86/hypot.cpp
+++ b/dpm/detail/x86/hypot.cpp
@@ -101,7 +101,7 @@ namespace dpm::detail
 		/* hypot(a, b) ~= a + b * b / a / 2 for small a & b */
 		constexpr std::int64_t hypot_small = (65ull << 20) - 1;
 		auto ab_small = std::bit_cast<V>(cmp_gt_l32<std::int64_t>(sub<std::int64_t>(ia, ib), fill<Vi>(hypot_small)));
-		ab_small = bit_or(std::bit_cast<V>(cmp_eq<std::int64_t>(ia, setzero<Vi>())), ab_small);
+		ab_small = bit_or(cmp_eq<T>(b, setzero<V>()), ab_small);
 
 		/* Evaluate result without overflow. Bitwise-and with ~ab_small to ensure no fp exceptions are triggered.  */
 		const auto [hx, lx] = split(bit_andnot(ab_small, mul<T>(a, ab_mult)));
-- 
2.43.0


From 932cdc91c952c4df6eb6d68f99732a164e69c58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 61/80] fix: qualify extension names so that the library
 compiles without DPM_INLINE_EXTENSIONS

---
 dpm/detail/generic/abi.hpp |  2 +-
 dpm/detail/x86/type.hpp    | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/dpm/detail/generic/abi.hpp b/dpm/detail/generic/abi.hpp
index f2985b4..0232323 100644
--- a/dpm/detail/generic/abi.hpp
+++ b/dpm/detail/generic/abi.hpp
@@ -101,7 +101,7 @@ namespace dpm
 			struct common_impl : common_impl<tag_sequence<>, Ts...> {};
 
 			template<std::size_t... Ns, std::size_t... As>
-			struct common_impl<tag_sequence<aligned_vector<Ns, As>...>> { using type = aligned_vector<std::max({Ns...}), std::max({As...})>; };
+			struct common_impl<tag_sequence<ext::aligned_vector<Ns, As>...>> { using type = ext::aligned_vector<std::max({Ns...}), std::max({As...})>; };
 
 			template<typename... Ts, typename U, typename... Us>
 			struct common_impl<tag_sequence<Ts...>, U, Us...> : common_impl<tag_sequence<U, Ts...>, Us...> {};
diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 3554ca5..ff15392 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -249,13 +249,13 @@ namespace dpm
 		else
 		{
 			detail::x86_mask<T, N, A> result = {};
-			auto result_data = to_native_data(result);
-			const auto m_data = to_native_data(m);
-			const auto a_data = to_native_data(a);
-			const auto b_data = to_native_data(b);
+			auto result_data = ext::to_native_data(result);
+			const auto m_data = ext::to_native_data(m);
+			const auto a_data = ext::to_native_data(a);
+			const auto b_data = ext::to_native_data(b);
 
-			const auto zero = detail::setzero<native_data_type_t<detail::x86_mask<T, N, A>>>();
-			for (std::size_t i = 0; i < native_data_size_v<detail::x86_mask<T, N, A>>; ++i)
+			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
+			for (std::size_t i = 0; i < ext::native_data_size_v<detail::x86_mask<T, N, A>>; ++i)
 			{
 				/* Since mask can be modified via to_native_data, need to make sure the entire mask is filled. */
 				const auto inv_mask = detail::mask_eq<T>(m_data[i], zero);
@@ -764,13 +764,13 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			auto result_data = to_native_data(result);
-			const auto a_data = to_native_data(a);
-			const auto b_data = to_native_data(b);
-			const auto m_data = to_native_data(m);
+			auto result_data = ext::to_native_data(result);
+			const auto a_data = ext::to_native_data(a);
+			const auto b_data = ext::to_native_data(b);
+			const auto m_data = ext::to_native_data(m);
 
-			const auto zero = detail::setzero<native_data_type_t<detail::x86_mask<T, N, A>>>();
-			for (std::size_t i = 0; i < native_data_size_v<detail::x86_simd<T, N, A>>; ++i)
+			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
+			for (std::size_t i = 0; i < ext::native_data_size_v<detail::x86_simd<T, N, A>>; ++i)
 			{
 				/* Since mask can be modified via to_native_data, need to make sure the entire mask is filled. */
 				const auto inv_mask = detail::mask_eq<T>(m_data[i], zero);
-- 
2.43.0


From e10fc4c0822bc33f18998c81d42569633fab2d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 62/80] fix: common ABI tag of scalar tags was ambiguous

---
 dpm/detail/generic/abi.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/abi.hpp b/dpm/detail/generic/abi.hpp
index 0232323..002730b 100644
--- a/dpm/detail/generic/abi.hpp
+++ b/dpm/detail/generic/abi.hpp
@@ -108,8 +108,9 @@ namespace dpm
 			template<typename... Ts, typename... Us>
 			struct common_impl<tag_sequence<Ts...>, scalar, Us...> : common_impl<tag_sequence<Ts...>, Us...> {};
 
-			template<std::same_as<scalar>... Ts>
-			struct common_impl<tag_sequence<>, Ts...> { using type = scalar; };
+			/* Scalar tags do not contribute to the sequence, so it is empty only if there were no other tags. */
+			template<>
+			struct common_impl<tag_sequence<>> { using type = scalar; };
 		}
 
 		DPM_DECLARE_EXT_NAMESPACE
-- 
2.43.0


From e9725ea423ff11fdc4ebd7d02edaaed44ee1726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 63/80] fix: default ABI of simd_size did not match that of
 simd

---
 dpm/traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/traits.hpp b/dpm/traits.hpp
index 659ea56..5f1a47e 100644
--- a/dpm/traits.hpp
+++ b/dpm/traits.hpp
@@ -68,14 +68,14 @@ namespace dpm
 	template<typename T>
 	inline constexpr bool is_simd_flag_type_v = is_simd_flag_type<T>::value;
 
-	template<typename T, typename Abi = typename simd_abi::detail::select_compatible<T>::type>
+	template<typename T, typename Abi = typename simd_abi::detail::select_native<T>::type>
 	struct simd_size;
 	template<typename T, typename Abi> requires(is_abi_tag_v<Abi> && std::is_default_constructible_v<simd<T, Abi>>)
 	struct simd_size<T, Abi> : std::integral_constant<std::size_t, simd<T, Abi>::size()> {};
 	template<typename T, typename Abi> requires(is_abi_tag_v<Abi> && !std::is_default_constructible_v<simd<T, Abi>>)
 	struct simd_size<T, Abi> : std::integral_constant<std::size_t, Abi::size()> {};
 
-	template<typename T, typename Abi = typename simd_abi::detail::select_compatible<T>::type>
+	template<typename T, typename Abi = typename simd_abi::detail::select_native<T>::type>
 	inline constexpr std::size_t simd_size_v = simd_size<T, Abi>::value;
 
 	template<typename T, typename U = typename T::value_type>
-- 
2.43.0


From 6a970626b4895907009207a3e7da8445ae0420a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 64/80] fix: constants of the trigonometric kernels are defined
 more than once when built with clang

---
 dpm/detail/fconst.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index 933aeb6..0d16dbf 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -81,7 +81,7 @@ namespace dpm::detail
 #ifndef DPM_HAS_FMA
 	/* Without FMA products of the leading terms must be exact. */
 	template<>
-	constexpr float dp_sincos<float>[] = {-0.78515625f, -2.4187564849853515625e-4f, -3.77489497744594108e-8f};
+	inline constexpr float dp_sincos<float>[] = {-0.78515625f, -2.4187564849853515625e-4f, -3.77489497744594108e-8f};
 #endif
 
 	/* Largest |x| for which the range reduction of sin, cos & tan is accurate. */
@@ -89,7 +89,7 @@ namespace dpm::detail
 	static constexpr T sincos_max = T{1073741824.0};
 	template<>
 #ifdef DPM_HAS_FMA
-	constexpr float sincos_max<float> = 4194304.0f;
+	inline constexpr float sincos_max<float> = 4194304.0f;
 #else
 	constexpr float sincos_max<float> = 8192.0f;
 #endif
-- 
2.43.0


From bb1a148dcc4a8563ee97830ce832ee4fa17014a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:19 +0000
Subject: [PATCH 65/80] fix: cpuid leaf 7 was queried with an arbitrary
 sub-leaf

---
 dpm/detail/x86/cpuid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index 8b1a053..6f8f480 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			__asm("xchgq  %%rbx,%q1\n\tcpuid\n\txchgq  %%rbx,%q1"
 					: "=a"(regs[0]), "=r" (regs[1]), "=c"(regs[2]), "=d"(regs[3])
-					: "0"(leaf));
+					: "0"(leaf), "2"(0));
 		}
 		static std::uint32_t DPM_FORCEINLINE platrofm_xcr0() noexcept
 		{
-- 
2.43.0


From 8e55b38eb6056ec70153ef1ba25f2f9816fc5d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 66/80] fix: cpuid reports AVX, FMA, F16C and AVX512 without
 the operating system's support

---
 dpm/detail/x86/cpuid.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index 6f8f480..f9a83f2 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -122,6 +122,7 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, avx_bit, avx_mask);
 				detail::mask_bit(m_flags_l7_ebx, avx2_bit, avx_mask);
 				detail::mask_bit(m_flags_l1_ecx, fma_bit, avx_mask);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, avx_mask);
 
 #ifdef __APPLE__
 				const bool avx512_mask = get_sysctl("hw.optional.avx512f"sv);
@@ -218,6 +219,17 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, ssse3_bit, ssse3_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_1_bit, sse4_1_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_2_bit, sse4_2_mask);
+
+				/* Without XSAVE the OS cannot enable AVX & AVX512 state. */
+				detail::mask_bit(m_flags_l1_ecx, avx_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx2_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, fma_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512f_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512cd_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512bw_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512dq_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512vl_bit, false);
 			}
 		}
 
-- 
2.43.0


From caddf6b0bc6acbb8dd7a8db928c1572ca57844b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 67/80] fix: x86 scalbln of floats reads past the end of the
 exponents of a partial vector

---
 dpm/detail/x86/fmanip.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 536986a..a166267 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -71,13 +71,13 @@ namespace dpm
 			return blendv<I>(exp, fill<V>(-max_scalbn<I>), cmp_gt<I>(fill<V>(-max_scalbn<I>), exp));
 		}
 
-		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m128i *exp, std::size_t i) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m128i *exp, std::size_t i, std::size_t n) noexcept
 		{
-			const auto exph = std::bit_cast<__m128>(clamp_scalbn64(exp[i * 2 + 1]));
+			const auto exph = std::bit_cast<__m128>(clamp_scalbn64(i * 2 + 1 < n ? exp[i * 2 + 1] : setzero<__m128i>()));
 			const auto expl = std::bit_cast<__m128>(clamp_scalbn64(exp[i * 2]));
 			return scalbn(x, std::bit_cast<__m128i>(_mm_shuffle_ps(expl, exph, _MM_SHUFFLE(2, 0, 2, 0))));
 		}
-		[[nodiscard]] DPM_FORCEINLINE __m128d scalbn64(__m128d x, const __m128i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
+		[[nodiscard]] DPM_FORCEINLINE __m128d scalbn64(__m128d x, const __m128i *exp, std::size_t i, std::size_t) noexcept { return scalbn(x, exp[i]); }
 
 		[[nodiscard]] vec2_return_t<__m128, __m128> DPM_API_PUBLIC DPM_MATHFUNC modf_f32x4(__m128 x) noexcept;
 		[[nodiscard]] vec2_return_t<__m128d, __m128d> DPM_API_PUBLIC DPM_MATHFUNC modf_f64x2(__m128d x) noexcept;
@@ -154,14 +154,14 @@ namespace dpm
 #endif
 		}
 
-		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(clamp_scalbn64(exp[i])));}
-		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn64(__m256 x, const __m256i *exp, std::size_t i) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i, std::size_t) noexcept {return scalbn(x, cvt_i64_i32(clamp_scalbn64(exp[i])));}
+		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn64(__m256 x, const __m256i *exp, std::size_t i, std::size_t n) noexcept
 		{
-			const auto exph = cvt_i64_i32(clamp_scalbn64(exp[i * 2 + 1]));
+			const auto exph = cvt_i64_i32(clamp_scalbn64(i * 2 + 1 < n ? exp[i * 2 + 1] : setzero<__m256i>()));
 			const auto expl = cvt_i64_i32(clamp_scalbn64(exp[i * 2]));
 			return scalbn(x, _mm256_set_m128i(exph, expl));
 		}
-		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
+		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i, std::size_t) noexcept { return scalbn(x, exp[i]); }
 
 		[[nodiscard]] vec2_return_t<__m256, __m256> DPM_API_PUBLIC DPM_MATHFUNC modf_f32x8(__m256 x) noexcept;
 		[[nodiscard]] vec2_return_t<__m256d, __m256d> DPM_API_PUBLIC DPM_MATHFUNC modf_f64x4(__m256d x) noexcept;
@@ -265,7 +265,7 @@ namespace dpm
 			for (std::size_t i = 0; i < ext::native_data_size_v < detail::x86_simd < T, N, A >>; ++i)
 			{
 				if constexpr (sizeof(long) == sizeof(std::int64_t))
-					result_data[i] = detail::scalbn64(x_data[i], exp_data.data(), i);
+					result_data[i] = detail::scalbn64(x_data[i], exp_data.data(), i, exp_data.size());
 				else
 					result_data[i] = detail::scalbn32(x_data[i], exp_data.data(), i);
 			}
-- 
2.43.0


From 63e62559f1e1c2b59128d5cc7c4ba2a42c880a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 68/80] fix: minmax loads the maximum from storage that is not
 aligned for the vector

---
 dpm/detail/generic/type.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 43d485e..9071ded 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -1188,29 +1188,29 @@ namespace dpm
 	template<typename T, typename Abi>
 	[[nodiscard]] constexpr std::pair<simd<T, Abi>, simd<T, Abi>> minmax(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
-		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result_min = {}, result_max = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
 			const T a_i = a[i], b_i = b[i];
 			const auto [min, max] = std::minmax(a_i, b_i);
-			result[0][i] = min;
-			result[1][i] = max;
+			result_min[i] = min;
+			result_max[i] = max;
 		}
-		return {simd<T, Abi>{result[0].data(), vector_aligned}, simd<T, Abi>{result[1].data(), vector_aligned}};
+		return {simd<T, Abi>{result_min.data(), vector_aligned}, simd<T, Abi>{result_max.data(), vector_aligned}};
 	}
 	/** Returns a pair of SIMD vectors of minimum and maximum elements of \a a and scalar \a b. */
 	template<typename T, typename Abi>
 	[[nodiscard]] constexpr std::pair<simd<T, Abi>, simd<T, Abi>> minmax(const simd<T, Abi> &a, T b) noexcept
 	{
-		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result_min = {}, result_max = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
 			const T a_i = a[i];
 			const auto [min, max] = std::minmax(a_i, b);
-			result[0][i] = min;
-			result[1][i] = max;
+			result_min[i] = min;
+			result_max[i] = max;
 		}
-		return {simd<T, Abi>{result[0].data(), vector_aligned}, simd<T, Abi>{result[1].data(), vector_aligned}};
+		return {simd<T, Abi>{result_min.data(), vector_aligned}, simd<T, Abi>{result_max.data(), vector_aligned}};
 	}
 
 	/** Clamps elements of \a x between corresponding elements of \a min and \a max. */
-- 
2.43.0


From 7719609be7685961bdb6d1a01219148641a6bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:47 +0000
Subject: [PATCH 69/80] fix: x86 modf shifts by amounts outside of the width of
 the element before AVX2

---
 dpm/detail/x86/modf.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/modf.cpp b/dpm/detail/x86/modf.cpp
index 8f9936e..45bd9b1 100644
--- a/dpm/detail/x86/modf.cpp
+++ b/dpm/detail/x86/modf.cpp
@@ -27,8 +27,9 @@ namespace dpm::detail
 		const auto fract_ip = bit_and(x, fill<V>(sign_bit<T>));
 		const auto fract_x = x;
 
-		/* mask = -1 >> (exp_bits + 1) >> e */
-		const auto mask = std::bit_cast<V>(bit_shiftr<I>(bit_shiftr<I, exp_bits<I> + 1>(fill<Vi>(I{-1})), e));
+		/* mask = -1 >> (exp_bits + 1) >> e, the mask is only used if 0 <= e < mant_bits */
+		const auto shift = bit_and(e, fill<Vi>(I{std::numeric_limits<std::make_unsigned_t<I>>::digits - 1}));
+		const auto mask = std::bit_cast<V>(bit_shiftr<I>(bit_shiftr<I, exp_bits<I> + 1>(fill<Vi>(I{-1})), shift));
 
 		/* mask_zero = (ix & mask) == 0 */
 		auto mask_zero = cmp_eq<T>(bit_and(std::bit_cast<V>(ix), mask), setzero<V>());
-- 
2.43.0


From f810fb31e4f34ce55cd4b291e898e147a2269f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:18 +0000
Subject: [PATCH 70/80] fix: x86 logb(0) and logarithms of zero are positive
 infinity when rounding downward

---
 dpm/detail/x86/except.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/except.hpp b/dpm/detail/x86/except.hpp
index 3142b19..11e9070 100644
--- a/dpm/detail/x86/except.hpp
+++ b/dpm/detail/x86/except.hpp
@@ -34,6 +34,8 @@ namespace dpm::detail
 	{
 		/* x = mask ? +-1.0 / x - x : x; 1.0 / 0.0 == inf + FE_DIVBYZERO */
 		const auto v_one = fill<V>(Sign < 0 ? -one<T> : one<T>);
-		return blendv<T>(y, div<T>(v_one, sub<T>(x, x)), mask);
+		/* x - x is negative zero when rounding downward. */
+		const auto zero = bit_andnot(fill<V>(sign_bit<T>), sub<T>(x, x));
+		return blendv<T>(y, div<T>(v_one, zero), mask);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 5c8b648bb2d9512c5240c597102cc9f06c416d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 71/80] fix: x86 conversion of a 64-bit zero to double gives
 negative zero when rounding downward

---
 dpm/detail/x86/cvt.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 58f0985..9deb027 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -72,7 +72,8 @@ namespace dpm::detail
 #else
 		const auto b = _mm_blend_epi16(x, exp52, 0xcc);
 #endif
-		return _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(a), adjust), std::bit_cast<__m128d>(b));
+		/* The sum is -0.0 for x == 0 when rounding downward. */
+		return _mm_andnot_pd(_mm_set1_pd(-0.0), _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(a), adjust), std::bit_cast<__m128d>(b)));
 	}
 	[[maybe_unused]] [[nodiscard]] inline __m128d cvt_i64_f64_sse(__m128i x) noexcept
 	{
@@ -90,7 +91,9 @@ namespace dpm::detail
 		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0xcc);
 		const auto b = _mm_blend_epi16(x, exp52, 0x88);
 #endif
-		return _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(_mm_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m128d>(b));
+		const auto y = _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(_mm_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m128d>(b));
+		/* The sum is -0.0 for x == 0 when rounding downward, negative results have the sign of x. */
+		return _mm_and_pd(y, _mm_or_pd(std::bit_cast<__m128d>(x), std::bit_cast<__m128d>(_mm_set1_epi64x(std::numeric_limits<std::int64_t>::max()))));
 	}
 	[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m128i cvt_f64_u64_sse(__m128d x) noexcept
 	{
@@ -266,7 +269,8 @@ namespace dpm::detail
 
 		const auto a = _mm256_or_si256(_mm256_srli_epi64(x, 32), exp84);
 		const auto b = _mm256_blend_epi32(x, exp52, 0xaa);
-		return _mm256_add_pd(_mm256_sub_pd(std::bit_cast<__m256d>(a), adjust), std::bit_cast<__m256d>(b));
+		/* The sum is -0.0 for x == 0 when rounding downward. */
+		return _mm256_andnot_pd(_mm256_set1_pd(-0.0), _mm256_add_pd(_mm256_sub_pd(std::bit_cast<__m256d>(a), adjust), std::bit_cast<__m256d>(b)));
 #else
 		const auto l = cvt_u64_f64_sse(_mm256_extractf128_si256(x, 0));
 		const auto h = cvt_u64_f64_sse(_mm256_extractf128_si256(x, 1));
@@ -284,7 +288,9 @@ namespace dpm::detail
 		const auto zero = _mm256_xor_si256(tmp, tmp);
 		const auto a = _mm256_blend_epi32(zero, _mm256_srai_epi32(x, 16), 0xaa);
 		const auto b = _mm256_blend_epi16(x, exp52, 0x88);
-		return _mm256_add_pd(_mm256_sub_pd(std::bit_cast<__m256d>(_mm256_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m256d>(b));
+		const auto y = _mm256_add_pd(_mm256_sub_pd(std::bit_cast<__m256d>(_mm256_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m256d>(b));
+		/* The sum is -0.0 for x == 0 when rounding downward, negative results have the sign of x. */
+		return _mm256_and_pd(y, _mm256_or_pd(std::bit_cast<__m256d>(x), std::bit_cast<__m256d>(_mm256_set1_epi64x(std::numeric_limits<std::int64_t>::max()))));
 #else
 		const auto l = cvt_i64_f64_sse(_mm256_extractf128_si256(x, 0));
 		const auto h = cvt_i64_f64_sse(_mm256_extractf128_si256(x, 1));
-- 
2.43.0


From 1ff94e51fabcfa4296cacc64b1e0bfeaa657bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:58 +0000
Subject: [PATCH 72/80] fix: raise no floating-point exceptions in quiet
 comparisons of 128-bit vectors

---
 dpm/detail/x86/class.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 0bbb7b2..736c39f 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -30,6 +30,14 @@ namespace dpm
 			return bit_and(_mm_cmplt_ps(x, inf), _mm_cmpnlt_ps(x, norm_min));
 		}
 
+		/* 128-bit relational comparisons raise the invalid exception for NaNs, replace unordered elements with 0 before comparing. */
+		template<typename V, typename F>
+		[[nodiscard]] DPM_FORCEINLINE V cmp_quiet(V a, V b, F cmp) noexcept
+		{
+			const auto unord = isunord(a, b);
+			return bit_andnot(unord, cmp(bit_andnot(unord, a), bit_andnot(unord, b)));
+		}
+
 		[[nodiscard]] DPM_FORCEINLINE __m128 isinf(__m128 x) noexcept { return isinf_abs(abs<float>(x)); }
 		[[nodiscard]] DPM_FORCEINLINE __m128 isfinite(__m128 x) noexcept { return isfinite_abs(abs<float>(x)); }
 		[[nodiscard]] DPM_FORCEINLINE __m128 isnormal(__m128 x) noexcept { return isnormal_abs(abs<float>(x)); }
@@ -195,7 +203,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_lt<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_quiet(b, a, [](auto l, auto r) { return detail::cmp_lt<T>(l, r); }); }, result, a, b);
 			return result;
 		}
 	}
@@ -212,7 +220,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_le<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_quiet(b, a, [](auto l, auto r) { return detail::cmp_le<T>(l, r); }); }, result, a, b);
 			return result;
 		}
 	}
@@ -229,7 +237,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_gt<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_quiet(b, a, [](auto l, auto r) { return detail::cmp_gt<T>(l, r); }); }, result, a, b);
 			return result;
 		}
 	}
@@ -246,7 +254,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_ge<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_quiet(b, a, [](auto l, auto r) { return detail::cmp_ge<T>(l, r); }); }, result, a, b);
 			return result;
 		}
 	}
@@ -263,7 +271,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_lt<T>(b, a), detail::cmp_gt<T>(b, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_quiet(b, a, [](auto l, auto r) { return detail::bit_or(detail::cmp_lt<T>(l, r), detail::cmp_gt<T>(l, r)); }); }, result, a, b);
 			return result;
 		}
 	}
-- 
2.43.0


From 4ab72c4ba4bc9b4f6ef493af22533f956d82af01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:03 +0000
Subject: [PATCH 73/80] fix: generic remquo aligns its storage for the vector
 that receives the quotients

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 24c8fc9..3e6bcea 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -61,7 +61,7 @@ namespace dpm
 	template<typename T, typename Abi, typename QAbi>
 	[[nodiscard]] constexpr simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, simd<int, QAbi> *out_quo) noexcept
 	{
-		alignas(simd<int, Abi>) std::array<int, simd_size_v<int, Abi>> quo = {};
+		alignas(simd<int, QAbi>) std::array<int, simd_size_v<int, Abi>> quo = {};
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::remquo(a[i], b[i], quo.data() + i);
-- 
2.43.0


From 3487a34a9505ad307719eaa6a1046a745ded3fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:03 +0000
Subject: [PATCH 74/80] fix: ext::remquo with a quotient taken by reference was
 ambiguous

---
 dpm/detail/generic/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 3e6bcea..0b9fb47 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -276,8 +276,8 @@ namespace dpm
 		/** Calculates IEEE remainder of elements in \a a divided by elements in vector \a b, and stores the sign and
 		 * at least 3 last bits of the division result in elements of \a quo. Equivalent to the regular `remquo`, except
 		 * that the quotent out parameter is taken by reference. */
-		template<typename T, typename Abi>
-		[[nodiscard]] constexpr DPM_FORCEINLINE simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, rebind_simd_t<int, simd<T, Abi>> &quo) noexcept { return dpm::remquo(a, b, &quo); }
+		template<typename T, typename Abi, typename QAbi>
+		[[nodiscard]] constexpr DPM_FORCEINLINE simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, simd<int, QAbi> &quo) noexcept { return dpm::remquo(a, b, &quo); }
 		/** Returns a result of fused multiply-add operation on elements of \a a, \a b, and \a c. Equivalent to `a * b + c`. */
 		template<typename T, typename Abi>
 		[[nodiscard]] constexpr simd<T, Abi> fmadd(const simd<T, Abi> &a, const simd<T, Abi> &b, const simd<T, Abi> &c) noexcept { return a * b + c; }
-- 
2.43.0


From 02de55d62d4a50e86a1b2c34ada25ab27c084110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:13 +0000
Subject: [PATCH 75/80] fix: ext::shuffle of a scalar calls itself when
 extensions are not inline

---
 dpm/detail/generic/type.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 9071ded..839f1be 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -166,6 +166,9 @@ namespace dpm
 
 	DPM_DECLARE_EXT_NAMESPACE
 	{
+		template<std::size_t I, std::size_t... Is, typename T, typename Abi>
+		[[nodiscard]] constexpr simd<T, simd_abi::deduce_t<T, sizeof...(Is) + 1, Abi>> shuffle(const simd<T, Abi> &x) noexcept;
+
 		/** Equivalent to `shuffle<Is...>(fixed_size_simd<T, 1>(x))`. */
 		template<std::size_t... Is, typename T>
 		[[nodiscard]] constexpr fixed_size_simd<T, sizeof...(Is)> shuffle(const T &x) noexcept { return shuffle<Is...>(fixed_size_simd<T, 1>{x}); }
-- 
2.43.0


From 77eb75bd7391b0bf7975745c059b39cd3ac3f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:13 +0000
Subject: [PATCH 76/80] fix: native and compatible ABI tags of long double are
 incomplete on x86

---
 dpm/detail/generic/abi.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dpm/detail/generic/abi.hpp b/dpm/detail/generic/abi.hpp
index 002730b..ddc7262 100644
--- a/dpm/detail/generic/abi.hpp
+++ b/dpm/detail/generic/abi.hpp
@@ -18,6 +18,20 @@ namespace dpm
 			constexpr static std::size_t size = 1;
 		};
 
+		namespace detail
+		{
+			/* Element types without a vector type of the target architecture (such as `long double`) are scalar. */
+			template<typename T>
+			struct select_scalar {};
+			template<typename T> requires std::is_arithmetic_v<T>
+			struct select_scalar<T> { using type = scalar; };
+
+			template<typename T>
+			struct select_compatible : select_scalar<T> {};
+			template<typename T>
+			struct select_native : select_scalar<T> {};
+		}
+
 		/** @brief ABI tag used to select an implementation-defined SIMD vector type guaranteeing ABI compatibility between
 		 * translation units built for the current target architecture. */
 		template<typename T>
-- 
2.43.0


From 7bb9fea7dd2ed36b38e2065e60ec9fd00d81fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:01 +0000
Subject: [PATCH 77/80] fix: promotion of integer scalars to double is a
 narrowing conversion

---
 dpm/detail/generic/math.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 0b9fb47..0c4857c 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -228,7 +228,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto fmod(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return fmod(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return fmod(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc remainder
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -236,7 +236,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto remainder(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return remainder(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return remainder(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc fmax
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -244,7 +244,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto fmax(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return fmax(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return fmax(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc fmin
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -252,7 +252,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto fmin(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return fmin(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return fmin(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc fdim
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -260,7 +260,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto fdim(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return fdim(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return fdim(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc lerp
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -268,7 +268,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto lerp(const simd<T0, Abi> &a, const simd<T1, Abi> &b, T2 f) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1, T2>, simd<T0, Abi>>;
-		return lerp(promoted_t{a}, promoted_t{b}, detail::promote_t<T0, T1, T2>{f});
+		return lerp(promoted_t{a}, promoted_t{b}, static_cast<detail::promote_t<T0, T1, T2>>(f));
 	}
 
 	DPM_DECLARE_EXT_NAMESPACE
@@ -427,7 +427,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto pow(const simd<T0, Abi> &x, T1 p) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return pow(promoted_t{x}, detail::promote_t<T0, T1>{p});
+		return pow(promoted_t{x}, static_cast<detail::promote_t<T0, T1>>(p));
 	}
 
 	DPM_DECLARE_EXT_NAMESPACE
@@ -1185,7 +1185,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto copysign(const simd<T0, Abi> &x, T1 sign) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return copysign(promoted_t{x}, detail::promote_t<T0, T1>{sign});
+		return copysign(promoted_t{x}, static_cast<detail::promote_t<T0, T1>>(sign));
 	}
 
 	DPM_DECLARE_EXT_NAMESPACE
-- 
2.43.0


From 0ee49d1225b1263c859dfa10a558cf1c4189e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 78/80] fix: generic sincos in place calculates the cosine of
 the sine

---
 dpm/detail/generic/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 0c4857c..913f77d 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -689,8 +689,9 @@ namespace dpm
 			else
 #endif
 			{
+				const auto cos_x = cos(x); /* x may be one of the outputs. */
 				out_sin = sin(x);
-				out_cos = cos(x);
+				out_cos = cos_x;
 			}
 		}
 	}
-- 
2.43.0


From 7a23fa175e291df753dba234b6e163f2148d06e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:51 +0000
Subject: [PATCH 79/80] fix: copies between vectors and memory violate strict
 aliasing

---
 dpm/detail/x86/utility.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index e5f571c..77f9960 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -4,6 +4,9 @@
 
 #pragma once
 
+#include <cstring>
+#include <memory>
+
 #include "type_fwd.hpp"
 #include "cvt.hpp"
 
@@ -314,9 +317,23 @@ namespace dpm::detail
 	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(!std::is_pointer_v<VFrom> && (std::same_as<To, From> || (std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From)))) { dst = src; }
 	template<typename To, typename From, typename VTo, typename VFrom>
 	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(!std::is_pointer_v<VFrom> && !std::same_as<To, From> && !(std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = cvt<To, From>(src); }
+	/* Memory of the user may be accessed as objects of another type. Vectors must be copied as bytes to avoid violating
+	 * strict aliasing, since any `may_alias` attribute of a native vector is ignored if the vector is a template argument. */
 	template<typename To, typename From, typename VFrom>
-	DPM_FORCEINLINE void native_vec_cast(To *dst, const VFrom &src) noexcept { native_vec_cast<To, From>(*reinterpret_cast<select_vector_t<To, sizeof(VFrom)> *>(dst), src); }
+	DPM_FORCEINLINE void native_vec_cast(To *dst, const VFrom &src) noexcept
+	{
+		using vector_t = select_vector_t<To, sizeof(VFrom)>;
+		vector_t tmp;
+		native_vec_cast<To, From>(tmp, src);
+		std::memcpy(std::assume_aligned<alignof(vector_t)>(dst), &tmp, sizeof(vector_t));
+	}
 	template<typename To, typename From, typename VTo>
-	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const From *src) noexcept { native_vec_cast<To, From>(dst, *reinterpret_cast<const select_vector_t<From, sizeof(VTo)> *>(src)); }
+	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const From *src) noexcept
+	{
+		using vector_t = select_vector_t<From, sizeof(VTo)>;
+		vector_t tmp;
+		std::memcpy(&tmp, std::assume_aligned<alignof(vector_t)>(src), sizeof(vector_t));
+		native_vec_cast<To, From>(dst, tmp);
+	}
 
 }
\ No newline at end of file
-- 
2.43.0


From 352700185536705172c2440d5592468fe3b20ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:51 +0000
Subject: [PATCH 80/80] fix: element access of native vectors violates strict
 aliasing under GCC

---
 dpm/detail/config.hpp   | 8 ++++++++
 dpm/detail/x86/type.hpp | 8 ++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/config.hpp b/dpm/detail/config.hpp
index 408b6d7..67167ee 100644
--- a/dpm/detail/config.hpp
+++ b/dpm/detail/config.hpp
@@ -70,6 +70,14 @@
 #define DPM_MAY_ALIAS
 #endif
 
+/* GCC drops the `may_alias` attribute of types that depend on template parameters, or are deduced (`auto &`). Functions used to
+ * access elements of native vectors are compiled without strict aliasing instead, which also applies to functions they are inlined into. */
+#if defined(__GNUC__) && !defined(__clang__)
+#define DPM_ALIAS_ACCESS inline __attribute__((always_inline, optimize("no-strict-aliasing")))
+#else
+#define DPM_ALIAS_ACCESS
+#endif
+
 /* Modules are currently not supported */
 //#if defined(DPM_USE_MODULES) && defined(__cpp_modules)
 //#define DPM_USE_IMPORT
diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index ff15392..15df7d3 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -166,11 +166,11 @@ namespace dpm
 				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
-		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
+		[[nodiscard]] constexpr DPM_ALIAS_ACCESS reference operator[](std::size_t i) & noexcept
 		{
 			return reinterpret_cast<value_alias *>(_data.data())[i];
 		}
-		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
+		[[nodiscard]] constexpr DPM_ALIAS_ACCESS value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
 				return detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[i / native_extent])[i % native_extent];
@@ -693,11 +693,11 @@ namespace dpm
 				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
-		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
+		[[nodiscard]] constexpr DPM_ALIAS_ACCESS reference operator[](std::size_t i) & noexcept
 		{
 			return reinterpret_cast<value_alias *>(_data.data())[i];
 		}
-		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
+		[[nodiscard]] constexpr DPM_ALIAS_ACCESS value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
 				return detail::native_bit_cast<std::array<value_type, native_extent>>(_data[i / native_extent])[i % native_extent];
-- 
2.43.0

