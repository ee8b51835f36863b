From 85f54b34687c4c206f8a6ae8d6ef3f3e2a9deedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 01/27] fix: let swizzle iterators advance to one past the end

operator += and -= of the indexed_vector and indexed_view iterators asserted
that the result is dereferenceable, so begin() + Count aborted although ++
reaches the same position.
---
 include/dsga.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 940621c..f31f855 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2403,7 +2403,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2411,7 +2411,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
@@ -2665,7 +2665,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2673,7 +2673,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
-- 
2.43.0


From 1a150adc7f7d9dfaec15960fcba290fd09add77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 02/27] fix: abs and fabs of negative infinity are positive
 infinity

---
 include/dsga.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index f31f855..43f0b51 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1294,7 +1294,7 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T abs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
+				if (isnan(value) || (value == 0))
 					return value;
 
 				return relaxed::abs(value);
@@ -1313,7 +1313,7 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T fabs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
+				if (isnan(value) || (value == 0))
 					return value;
 
 				return relaxed::fabs(value);
-- 
2.43.0


From 104a85c25c3600fc058c6402998d56fdd451c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 03/27] fix: fract of a value too big to have a fractional part
 is zero

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 43f0b51..07f206e 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1044,7 +1044,7 @@ namespace dsga
 				{
 					// screen out unnecessary input
 					if (fails_fractional_input_constraints(value))
-						return value;
+						return isfinite(value) ? T(0) : value;		// too big to have a fractional part
 
 					return relaxed::fract(value);
 				}
-- 
2.43.0


From 216f0c877e2b7c686af12696c5c36aac825f0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 04/27] fix: round and roundEven of the value just below one
 half are zero

Adding 0.5 before truncating rounds up for 0.49999999999999994.
---
 include/dsga.hxx | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 07f206e..a54d16e 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -602,14 +602,13 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T round(T value) noexcept
 			{
-				// zero could be handled either place, but here it is with the negative values.
+				// the distance to the truncated value is exact, unlike value +/- 0.5
+				const T trunc_value = trunc(value);
 
-				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
+				if (abs(value - trunc_value) < T(0.5f))
+					return trunc_value;
 
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				return trunc_value + ((value > T(0)) ? T(1) : T(-1));
 			}
 
 			//
@@ -645,22 +644,16 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T round_even(T value) noexcept
 			{
-				T trunc_value = trunc(value);
-				bool is_even = (fmod(trunc_value, T(2)) == T(0));
-				bool is_halfway = (fract(value) == T(0.5));
+				// the distance to the truncated value is exact, unlike value +/- 0.5
+				const T trunc_value = trunc(value);
+				const T distance = abs(value - trunc_value);
+				const bool is_even = (fmod(trunc_value, T(2)) == T(0));
 
-				// the special case
-				if (is_halfway && is_even)
+				// closer to the truncated value, or halfway from an even truncated value
+				if ((distance < T(0.5f)) || ((distance == T(0.5f)) && is_even))
 					return trunc_value;
 
-				// zero could be handled either place, but here it is with the negative values.
-
-				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
-
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				return trunc_value + ((value > T(0)) ? T(1) : T(-1));
 			}
 
 			//
-- 
2.43.0


From 38a6e1ea373b8e9485e6c723d8b481d15ed453f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 05/27] fix: compare integers as integers in lessThan and the
 other ordered comparisons

std::isless and friends convert integer arguments to double, so distinct
64-bit values above 2^53 compared as if equal.
---
 include/dsga.hxx | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index a54d16e..e6e3bfd 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7007,7 +7007,11 @@ namespace dsga
 
 		constexpr inline auto less_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isless(x, y);
+			// the standard library function converts integers to double, which is not exact for 64-bit values
+			if constexpr (std::integral<T>)
+				return x < y;
+			else
+				return std::isless(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7026,7 +7030,11 @@ namespace dsga
 
 		constexpr inline auto less_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::islessequal(x, y);
+			// the standard library function converts integers to double, which is not exact for 64-bit values
+			if constexpr (std::integral<T>)
+				return x <= y;
+			else
+				return std::islessequal(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7045,7 +7053,11 @@ namespace dsga
 
 		constexpr inline auto greater_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreater(x, y);
+			// the standard library function converts integers to double, which is not exact for 64-bit values
+			if constexpr (std::integral<T>)
+				return x > y;
+			else
+				return std::isgreater(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7064,7 +7076,11 @@ namespace dsga
 
 		constexpr inline auto greater_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreaterequal(x, y);
+			// the standard library function converts integers to double, which is not exact for 64-bit values
+			if constexpr (std::integral<T>)
+				return x >= y;
+			else
+				return std::isgreaterequal(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
-- 
2.43.0


From 4d11ae5016f92e2807d3f34b42bce64859cf58f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 06/27] fix: free swap of view_wrappers may throw like the
 member swap

view_wrapper::swap throws std::range_error for partly overlapping windows; in
a noexcept function that called std::terminate.
---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index e6e3bfd..a60167c 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2030,7 +2030,7 @@ namespace dsga
 
 	template <bool Mutable, dimensional_scalar T, std::size_t S>
 	requires Mutable
-	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs) noexcept
+	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs)
 	{
 		lhs.swap(rhs);
 	}
-- 
2.43.0


From abd1a71e201053c14ce4ace92c977508d2944740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 07/27] fix: assignment to a view_vector from a swizzle of
 itself

std::copy read elements that the same assignment had already overwritten, so
vv = vv.yx stored the same value twice.
---
 include/dsga.hxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index a60167c..3453bd1 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -5869,7 +5869,12 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(const vector_base<W, U, Count, D> &other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			// other can refer to our own data, so get all the values before the first store
+			[&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
+			{
+				const T values[]{ static_cast<T>(other[Is])... };
+				std::copy(values, values + Size, store);
+			}(std::make_index_sequence<Size>{});
 			return *this;
 		}
 
@@ -5877,7 +5882,12 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(vector_base<W, U, Count, D> &&other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			// other can refer to our own data, so get all the values before the first store
+			[&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
+			{
+				const T values[]{ static_cast<T>(other[Is])... };
+				std::copy(values, values + Size, store);
+			}(std::make_index_sequence<Size>{});
 			return *this;
 		}
 	};
-- 
2.43.0


From 0cfa870ddffc5f6ccd9fe34aef8879ed4531650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 08/27] fix: a one-component view_vector can be assigned a
 scalar

basic_vector<T, 1> and basic_view<T, 1> can, but view_vector's own assignment
operators hide the inherited one.
---
 include/dsga.hxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 3453bd1..6b4c8c0 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -5865,6 +5865,15 @@ namespace dsga
 			return *this;
 		}
 
+		// the scalar assignment operator of the one-component basic_view is hidden by the operators here
+		template <typename U>
+		requires Writable && Mutable && (Size == 1) && implicitly_convertible_to<U, T>
+		constexpr view_vector & operator =(U value) & noexcept
+		{
+			store[0] = static_cast<T>(value);
+			return *this;
+		}
+
 		template <bool W, dimensional_scalar U, typename D>
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(const vector_base<W, U, Count, D> &other) & noexcept
-- 
2.43.0


From dd893f83edda70aa5ba84dc087b0ca5c53c12c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 09/27] fix: vector constructors accept views and view swizzles
 as arguments

component_count and to_tuple handle them, and matrix constructors accept them;
only valid_vector_component did not know them.
---
 include/dsga.hxx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 6b4c8c0..c3b9824 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -3475,6 +3475,24 @@ namespace dsga
 		{
 		};
 
+		template <bool M, dimensional_scalar U, std::size_t S, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<basic_view<M, U, S>, T> : std::true_type
+		{
+		};
+
+		template <bool M, dimensional_scalar U, std::size_t S, std::size_t C, std::size_t ...Is, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<indexed_view<M, U, S, C, Is...>, T> : std::true_type
+		{
+		};
+
+		template <dimensional_scalar U, std::size_t S, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<view_vector<U, S>, T> : std::true_type
+		{
+		};
+
 		template <bool W, dimensional_scalar U, std::size_t C, typename D, dimensional_scalar T>
 		requires std::convertible_to<U, T>
 		struct valid_vector_component<vector_base<W, U, C, D>, T> : std::true_type
-- 
2.43.0


From e0db75501c40e4f2e3d81d33fbc45b615bf5a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:10 +0000
Subject: [PATCH 10/27] fix: shift by the most negative int no longer overflows

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index c3b9824..86dc0a1 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2201,7 +2201,7 @@ namespace dsga
 			}
 			else if (by < 0)
 			{
-				int count = -by > max_val ? max_val : -by;
+				int count = by < -max_val ? max_val : -by;
 				std::shift_right(copy.begin(), copy.end(), count);
 				std::ranges::fill_n(copy.begin(), count, T(0));
 			}
-- 
2.43.0


From bb1877c234d9986ea5dd4d306224595d6e651687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 11/27] fix: inversesqrt and constexpr sqrt of doubles near the
 ends of the exponent range

The double-double arithmetic overflowed or underflowed: inversesqrt(1e308) and
inversesqrt(1e-310) were NaN, and the constant-evaluated sqrt of a subnormal was
wrong or did not terminate.
---
 include/dsga.hxx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 86dc0a1..a2f5fac 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -694,6 +694,13 @@ namespace dsga
 
 					if constexpr (std::is_same_v<T, double>)
 					{
+						// dd_real operations overflow or underflow near the ends of the exponent range, so move the
+						// argument away from there by an even power of two -- scaling the result back is exact
+						if (boosted_arg > 0x1p+900)
+							return converging_sqrt(boosted_arg * 0x1p-300) * 0x1p+150;
+						else if ((boosted_arg > 0.0) && (boosted_arg < 0x1p-900))
+							return converging_sqrt(boosted_arg * 0x1p+300) * 0x1p-150;
+
 						// boosted_arg doesn't need to be a dd_real for [T = double]
 
 						auto current_value = dd_real::dd_real(init_value);
@@ -731,6 +738,12 @@ namespace dsga
 
 					if constexpr (std::is_same_v<T, double>)
 					{
+						// see converging_sqrt()
+						if (boosted_arg > 0x1p+900)
+							return inverse_sqrt(boosted_arg * 0x1p-300) * 0x1p-150;
+						else if ((boosted_arg > 0.0) && (boosted_arg < 0x1p-900))
+							return inverse_sqrt(boosted_arg * 0x1p+300) * 0x1p+150;
+
 						// arg is already a double
 						auto current_value = dd_real::dd_real(fast_rsqrt(arg));
 
-- 
2.43.0


From e21b93fc2f25c907e6da226551d3dd4ade809958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 12/27] fix: assigning a swizzle to the same swizzle of another
 vector changes only the named components

The implicit copy assignment was the better overload and copied all of the storage.
---
 include/dsga.hxx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index a2f5fac..a8c766d 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2895,6 +2895,20 @@ namespace dsga
 			return *this;
 		}
 
+		// assignment from the same type of swizzle - without this, the implicit copy assignment would be a better match than
+		// the above operator, but that is a trivial copy of all of the underlying storage instead of just the swizzled values
+		template <typename U>
+		requires Writable && Mutable && std::same_as<U, indexed_vector>
+		constexpr indexed_vector &operator =(U &other) & noexcept
+		{
+			[&]<std::size_t ...Js>(std::index_sequence<Js ...>) noexcept
+			{
+				set(other[Js]...);
+			}(std::make_index_sequence<Count>{});
+
+			return *this;
+		}
+
 		// scalar assignment
 		// assignment for some scalar type that converts to T and is only for indexed_vector of [Count == 1]
 		template <dimensional_scalar U>
-- 
2.43.0


From ad0647d6a48238060b3689a6f32fe82b0d99cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:57 +0000
Subject: [PATCH 13/27] fix: structured bindings of read-only views and of
 swizzles with a repeated letter

The elements of these are const, but tuple_element said otherwise, so
that 'auto [a, b] = v.xx;' did not compile.
---
 include/dsga.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index a8c766d..9a24ff6 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -9504,7 +9504,7 @@ struct std::tuple_size<dsga::storage_wrapper<M, T, S>> : std::integral_constant<
 template <bool M, std::size_t I, dsga::dimensional_scalar T, std::size_t S>
 struct std::tuple_element<I, dsga::storage_wrapper<M, T, S>>
 {
-	using type = T;
+	using type = std::conditional_t<M, T, const T>;
 };
 
 template<bool M, dsga::dimensional_scalar T, std::size_t S>
@@ -9515,7 +9515,7 @@ struct std::tuple_size<dsga::view_wrapper<M, T, S>> : std::integral_constant<std
 template <bool M, std::size_t I, dsga::dimensional_scalar T, std::size_t S>
 struct std::tuple_element<I, dsga::view_wrapper<M, T, S>>
 {
-	using type = T;
+	using type = std::conditional_t<M, T, const T>;
 };
 
 template<dsga::dimensional_scalar T, std::size_t S>
@@ -9537,7 +9537,7 @@ struct std::tuple_size<dsga::basic_view<M, T, S>> : std::integral_constant<std::
 template <std::size_t I, bool M, dsga::dimensional_scalar T, std::size_t S>
 struct std::tuple_element<I, dsga::basic_view<M, T, S>>
 {
-	using type = T;
+	using type = std::conditional_t<M, T, const T>;
 };
 
 template<dsga::dimensional_scalar T, std::size_t S>
@@ -9559,7 +9559,7 @@ struct std::tuple_size<dsga::indexed_vector<M, T, S, C, Is...>> : std::integral_
 template <bool M, std::size_t I, dsga::dimensional_scalar T, std::size_t S, std::size_t C, std::size_t ...Is>
 struct std::tuple_element<I, dsga::indexed_vector<M, T, S, C, Is...>>
 {
-	using type = T;
+	using type = std::conditional_t<M && dsga::writable_swizzle<S, C, Is...>, T, const T>;
 };
 
 template <bool M, dsga::dimensional_scalar T, std::size_t S, std::size_t C, std::size_t ...Is>
@@ -9570,7 +9570,7 @@ struct std::tuple_size<dsga::indexed_view<M, T, S, C, Is...>> : std::integral_co
 template <bool M, std::size_t I, dsga::dimensional_scalar T, std::size_t S, std::size_t C, std::size_t ...Is>
 struct std::tuple_element<I, dsga::indexed_view<M, T, S, C, Is...>>
 {
-	using type = T;
+	using type = std::conditional_t<M && dsga::writable_swizzle<S, C, Is...>, T, const T>;
 };
 
 template <bool W, dsga::dimensional_scalar T, std::size_t C, typename D>
@@ -9581,7 +9581,7 @@ struct std::tuple_size<dsga::vector_base<W, T, C, D>> : std::integral_constant<s
 template <std::size_t I, bool W, dsga::dimensional_scalar T, std::size_t C, typename D>
 struct std::tuple_element<I, dsga::vector_base<W, T, C, D>>
 {
-	using type = T;
+	using type = std::conditional_t<W, T, const T>;
 };
 
 template <dsga::floating_point_scalar T, std::size_t C, std::size_t R>
-- 
2.43.0


From d614bd29535bd0fd5f512d663a421d8748dba13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 14/27] fix: vector * matrix with an integral vector did not
 compile

operator * (row vector times matrix) is declared for every non-bool element type of the
vector, like matrix * vector, but its body called dot(), which only takes floating point
vectors. Use innerProduct(), which is the same sum for every element type.
---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 9a24ff6..c8c3cd7 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -9191,7 +9191,7 @@ namespace dsga
 	{
 		return [&]<std::size_t ...Is>(std::index_sequence <Is...>) noexcept
 		{
-			return basic_vector{ functions::dot(lhs, rhs[Is])... };
+			return basic_vector{ functions::innerProduct(lhs, rhs[Is])... };
 		}(std::make_index_sequence<C>{});
 	}
 
-- 
2.43.0


From 84e3f95f9dac9c0f60ffa8cad463c1a78c696045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:36 +0000
Subject: [PATCH 15/27] fix: cross() of two vectors was declared constexpr but
 used swizzles, so it was not a constant expression

---
 include/dsga.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index c8c3cd7..f400565 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -8339,14 +8339,20 @@ namespace dsga
 		[[nodiscard]] constexpr auto cross(const basic_vector<T1, 3> &a,
 										   const basic_vector<T2, 3> &b) noexcept
 		{
-			return (a.yzx * b.zxy) - (a.zxy * b.yzx);
+			// swizzles can't be used in a constant expression
+			return basic_vector((a[1] * b[2]) - (a[2] * b[1]),
+								(a[2] * b[0]) - (a[0] * b[2]),
+								(a[0] * b[1]) - (a[1] * b[0]));
 		}
 
 		template <bool M1, floating_point_scalar T1, bool M2, floating_point_scalar T2>
 		[[nodiscard]] constexpr auto cross(const basic_view<M1, T1, 3> &a,
 										   const basic_view<M2, T2, 3> &b) noexcept
 		{
-			return (a.yzx * b.zxy) - (a.zxy * b.yzx);
+			// swizzles can't be used in a constant expression
+			return basic_vector((a[1] * b[2]) - (a[2] * b[1]),
+								(a[2] * b[0]) - (a[0] * b[2]),
+								(a[0] * b[1]) - (a[1] * b[0]));
 		}
 
 		template <bool W, floating_point_scalar T, std::size_t C, typename D>
-- 
2.43.0


From 18f4e7d222882cf01313dd961912ddc929086afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 16/27] fix: fmod() in constant evaluation lost the remainder
 or was rejected when the quotient is large or rounds

---
 include/dsga.hxx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index f400565..6c384ae 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1076,7 +1076,21 @@ namespace dsga
 					if (y == 0)
 						return std::numeric_limits<T>::quiet_NaN();
 
-					return relaxed::fmod(x, y);
+					// the remainder is exact: repeatedly subtract the largest doubling of the divisor that still fits
+					const T divisor = relaxed::abs(y);
+					T remainder = relaxed::abs(x);
+					T multiple = divisor;
+
+					while (multiple <= remainder / T(2))
+						multiple *= T(2);
+
+					for (; multiple >= divisor; multiple /= T(2))
+					{
+						if (remainder >= multiple)
+							remainder -= multiple;
+					}
+
+					return copysign(remainder, x);
 				}
 
 				//
-- 
2.43.0


From 42cae610d2441c5e0cbf70f4f9ed5ba3ff0a0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 17/27] fix: cxcm::abs() and fabs() of an unsigned zero stopped
 the program

---
 include/dsga.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 6c384ae..62a29b7 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1325,7 +1325,7 @@ namespace dsga
 			template <std::integral T>
 			constexpr T abs(T value) noexcept
 			{
-				cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in abs()");
+				cxcm_constexpr_assert(std::unsigned_integral<T> || (value != std::numeric_limits<T>::min()), "undefined behavior in abs()");
 
 				return relaxed::abs(value);
 			}
@@ -1342,7 +1342,7 @@ namespace dsga
 			template <std::integral T>
 			constexpr double fabs(T value) noexcept
 			{
-				cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in fabs()");
+				cxcm_constexpr_assert(std::unsigned_integral<T> || (value != std::numeric_limits<T>::min()), "undefined behavior in fabs()");
 
 				return relaxed::fabs(value);
 			}
-- 
2.43.0


From 9d648f5458b1c1ec5087565128d2b01a3fe05ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 18/27] fix: make_array_sequence accepts element types that
 convert to std::size_t (floating point)

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 62a29b7..443589f 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1704,7 +1704,7 @@ namespace dsga
 		// return std::index_sequence from constexpr std::array<std::size_t, N> elements
 		template <sequence_indexable auto vals, std::size_t ...Is>
 		requires ((vals[Is] >= 0) && ...)
-		constexpr std::index_sequence<vals[Is]...> indexable_to_sequence(std::index_sequence<Is...>) noexcept { return {}; }
+		constexpr std::index_sequence<static_cast<std::size_t>(vals[Is])...> indexable_to_sequence(std::index_sequence<Is...>) noexcept { return {}; }
 	}
 
 	// do the argument indexes and count/size make for valid indirect indexing
-- 
2.43.0


From b4d96593ec7b7796287c49953293c3998e7bc0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 19/27] fix: examples/compare.hxx ordered integers whose
 difference overflows and equal infinities wrongly

---
 examples/compare.hxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/examples/compare.hxx b/examples/compare.hxx
index bc6031e..b9c5da5 100644
--- a/examples/compare.hxx
+++ b/examples/compare.hxx
@@ -36,12 +36,17 @@ namespace dsga
 		}
 
 		// comparison lambdas that return -1 for less than, 0 for equal, and 1 for greater than.
-		// these are for the types that don't work with the sign() function
 		constexpr inline auto unsigned_compare_op = [](unsigned_scalar auto lhs, unsigned_scalar auto rhs) noexcept -> int
 		{
 			return (lhs < rhs) ? -1 : ((lhs > rhs) ? 1 : 0);
 		};
 
+		// floating-point with floating-point, or signed with signed -- not using sign(x - y), as the difference can overflow or be a NaN
+		constexpr inline auto same_kind_compare_op = [](non_bool_scalar auto lhs, non_bool_scalar auto rhs) noexcept -> int
+		{
+			return (lhs < rhs) ? -1 : ((lhs > rhs) ? 1 : 0);
+		};
+
 		constexpr inline auto signed_unsigned_compare_op = []<signed_scalar T1, unsigned_scalar T2>(T1 lhs, T2 rhs) noexcept -> int
 		{
 			return (lhs < 0) ? -1 : ((static_cast<unsigned long long>(lhs) < static_cast<unsigned long long>(rhs)) ? -1 : ((static_cast<unsigned long long>(lhs) > static_cast<unsigned long long>(rhs)) ? 1 : 0));
@@ -60,11 +65,11 @@ namespace dsga
 		{
 			if constexpr (floating_point_scalar<T1> && floating_point_scalar<T2>)
 			{
-				return functions::innerProduct(weights, basic_vector<T3, C>(functions::sign(x - y)));
+				return functions::innerProduct(weights, basic_vector<T3, C>(binary_op(same_kind_compare_op, x, y)));
 			}
 			else if constexpr (signed_scalar<T1> && signed_scalar<T2>)
 			{
-				return functions::innerProduct(weights, basic_vector<T3, C>(functions::sign(x - y)));
+				return functions::innerProduct(weights, basic_vector<T3, C>(binary_op(same_kind_compare_op, x, y)));
 			}
 			else if constexpr (unsigned_scalar<T1> && unsigned_scalar<T2>)
 			{
-- 
2.43.0


From e0352bc829ec659633ac063181e5eb6cb328a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 20/27] fix: tolerance checks of unsigned, extreme integer and
 length 1 operands (examples/tolerance.hxx)

---
 examples/tolerance.hxx | 57 ++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/examples/tolerance.hxx b/examples/tolerance.hxx
index 52d3f86..2e9e5f4 100644
--- a/examples/tolerance.hxx
+++ b/examples/tolerance.hxx
@@ -42,8 +42,10 @@ namespace dsga
 		}
 		else
 		{
-			dsga_constexpr_assert(tolerance >= U(0), "tolerance should not be negative");
-			return all(lessThanEqual(abs(x), basic_vector<T, C>(static_cast<T>(tolerance))));
+			return [&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
+			{
+				return (within_tolerance(x[Is], tolerance) && ...);
+			}(std::make_index_sequence<C>{});
 		}
 	}
 
@@ -61,14 +63,10 @@ namespace dsga
 			else
 			{
 				dsga_constexpr_assert(all(greaterThanEqual(tolerance, basic_vector<U, C2>(0))), "tolerance should not be negative");
-				if constexpr (std::same_as<T, U>)
-				{
-					return all(lessThanEqual(abs(x), tolerance));
-				}
-				else
+				return [&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
 				{
-					return all(lessThanEqual(abs(x), static_cast<basic_vector<T, C2>>(tolerance)));
-				}
+					return (within_tolerance(x[Is], tolerance[Is]) && ...);
+				}(std::make_index_sequence<C1>{});
 			}
 		}
 		else		// (C2 == 1)
@@ -87,7 +85,20 @@ namespace dsga
 												 T y,
 												 U tolerance) noexcept
 	{
-		return within_tolerance(x - y, tolerance);
+		if constexpr (std::integral<T>)
+		{
+			dsga_constexpr_assert(tolerance >= U(0), "tolerance should not be negative");
+
+			// the signed difference might not be representable (or wraps for unsigned types), but its magnitude is
+			using unsigned_type = std::make_unsigned_t<T>;
+			const auto ux = static_cast<unsigned_type>(x);
+			const auto uy = static_cast<unsigned_type>(y);
+			return ((x < y) ? (uy - ux) : (ux - uy)) <= static_cast<unsigned_type>(tolerance);
+		}
+		else
+		{
+			return within_tolerance(x - y, tolerance);
+		}
 	}
 
 	template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2, non_bool_scalar U>
@@ -118,7 +129,20 @@ namespace dsga
 											T y,
 											U tolerance) noexcept
 	{
-		return within_tolerance(x - y, tolerance);
+		if constexpr (std::integral<T>)
+		{
+			dsga_constexpr_assert(tolerance >= U(0), "tolerance should not be negative");
+
+			// the signed difference might not be representable (or wraps for unsigned types), but its magnitude is
+			using unsigned_type = std::make_unsigned_t<T>;
+			const auto ux = static_cast<unsigned_type>(x);
+			const auto uy = static_cast<unsigned_type>(y);
+			return ((x < y) ? (uy - ux) : (ux - uy)) <= static_cast<unsigned_type>(tolerance);
+		}
+		else
+		{
+			return within_tolerance(x - y, tolerance);
+		}
 	}
 
 	template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2, non_bool_scalar U>
@@ -127,7 +151,10 @@ namespace dsga
 											const vector_base<W2, T, C, D2> &y,
 											U tolerance) noexcept
 	{
-		return within_tolerance(x - y, tolerance);
+		return [&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
+		{
+			return (within_box(x[Is], y[Is], tolerance) && ...);
+		}(std::make_index_sequence<C>{});
 	}
 
 	template <bool W1, non_bool_scalar T, std::size_t C1, typename D1, bool W2, typename D2, bool W3, non_bool_scalar U, std::size_t C2, typename D3>
@@ -138,7 +165,11 @@ namespace dsga
 	{
 		if constexpr (C1 == C2)
 		{
-			return within_tolerance(x - y, tolerance);
+			dsga_constexpr_assert(all(greaterThanEqual(tolerance, basic_vector<U, C2>(0))), "tolerance should not be negative");
+			return [&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
+			{
+				return (within_box(x[Is], y[Is], tolerance[Is]) && ...);
+			}(std::make_index_sequence<C1>{});
 		}
 		else		// (C2 == 1)
 		{
-- 
2.43.0


From d077216ba5d2d5918ec9d6b1434851c9258abd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 21/27] fix: format_output.hxx finds std::format by itself

---
 examples/format_output.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/examples/format_output.hxx b/examples/format_output.hxx
index ec171e6..b05614c 100644
--- a/examples/format_output.hxx
+++ b/examples/format_output.hxx
@@ -5,6 +5,7 @@
 //          https://www.boost.org/LICENSE_1_0.txt)
 
 #include "dsga.hxx"
+#include <version>
 
 #if defined(__cpp_lib_format)
 
-- 
2.43.0


From dca05d00246a5ebd6eacc5eaf8f3fa378c3fff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:32 +0000
Subject: [PATCH 22/27] fix: the STL converter writes the first number with
 full precision

---
 examples/stl.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/stl.cxx b/examples/stl.cxx
index 4a95c86..a16da48 100644
--- a/examples/stl.cxx
+++ b/examples/stl.cxx
@@ -61,9 +61,9 @@ constexpr dsga::vec3 right_handed_normal(const dsga::vec3 &v1, const dsga::vec3
 template <dsga::dimensional_scalar T, std::size_t Size>
 inline std::ostream &operator<<(std::ostream &o, const dsga::basic_vector<T, Size> &v)
 {
-	o << v[0];
+	o << std::scientific << v[0];
 	for (int i = 1; i < v.length(); ++i)
-		o << " " << std::scientific << v[i];
+		o << " " << v[i];
 	return o;
 }
 
-- 
2.43.0


From e57426e5fb9f7209b9f698e28472cff1b656c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 23/27] fix: the STL converter refuses a folder as input and
 its input under another name as output

---
 examples/stl.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/examples/stl.cxx b/examples/stl.cxx
index a16da48..c71be03 100644
--- a/examples/stl.cxx
+++ b/examples/stl.cxx
@@ -231,7 +231,7 @@ int stl_main([[maybe_unused]] int argc, [[maybe_unused]] char *argv[])
 
 		auto binary_exists = fs::exists(binary_stl_path);
 		auto binary_regular = binary_exists ? fs::is_regular_file(binary_stl_path) : false;
-		auto binary_size = binary_exists ? fs::file_size(binary_stl_path) : 0;
+		auto binary_size = binary_regular ? fs::file_size(binary_stl_path) : 0;
 
 		// do file size and facet count make sense for this to be a binary STL file?
 		bool appears_to_be_binary_stl = false;
@@ -256,7 +256,8 @@ int stl_main([[maybe_unused]] int argc, [[maybe_unused]] char *argv[])
 		auto ascii_stl_path = fs::path(argv[2]);
 
 		// can't have same source and destination
-		if (fs::absolute(binary_stl_path) == fs::absolute(ascii_stl_path))
+		std::error_code equivalent_error{};
+		if ((fs::absolute(binary_stl_path) == fs::absolute(ascii_stl_path)) || fs::equivalent(binary_stl_path, ascii_stl_path, equivalent_error))
 		{
 			std::cerr << "Input file must be different from output file.\n";
 			return EXIT_FAILURE;
-- 
2.43.0


From 6a70c33234ec5477bb1b9002c79b5d3386e4e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 24/27] revert the five fixes to examples/: these are recorded
 as known findings instead

---
 examples/compare.hxx       | 11 ++------
 examples/format_output.hxx |  1 -
 examples/stl.cxx           |  9 +++---
 examples/tolerance.hxx     | 57 +++++++++-----------------------------
 4 files changed, 20 insertions(+), 58 deletions(-)

diff --git a/examples/compare.hxx b/examples/compare.hxx
index b9c5da5..bc6031e 100644
--- a/examples/compare.hxx
+++ b/examples/compare.hxx
@@ -36,17 +36,12 @@ namespace dsga
 		}
 
 		// comparison lambdas that return -1 for less than, 0 for equal, and 1 for greater than.
+		// these are for the types that don't work with the sign() function
 		constexpr inline auto unsigned_compare_op = [](unsigned_scalar auto lhs, unsigned_scalar auto rhs) noexcept -> int
 		{
 			return (lhs < rhs) ? -1 : ((lhs > rhs) ? 1 : 0);
 		};
 
-		// floating-point with floating-point, or signed with signed -- not using sign(x - y), as the difference can overflow or be a NaN
-		constexpr inline auto same_kind_compare_op = [](non_bool_scalar auto lhs, non_bool_scalar auto rhs) noexcept -> int
-		{
-			return (lhs < rhs) ? -1 : ((lhs > rhs) ? 1 : 0);
-		};
-
 		constexpr inline auto signed_unsigned_compare_op = []<signed_scalar T1, unsigned_scalar T2>(T1 lhs, T2 rhs) noexcept -> int
 		{
 			return (lhs < 0) ? -1 : ((static_cast<unsigned long long>(lhs) < static_cast<unsigned long long>(rhs)) ? -1 : ((static_cast<unsigned long long>(lhs) > static_cast<unsigned long long>(rhs)) ? 1 : 0));
@@ -65,11 +60,11 @@ namespace dsga
 		{
 			if constexpr (floating_point_scalar<T1> && floating_point_scalar<T2>)
 			{
-				return functions::innerProduct(weights, basic_vector<T3, C>(binary_op(same_kind_compare_op, x, y)));
+				return functions::innerProduct(weights, basic_vector<T3, C>(functions::sign(x - y)));
 			}
 			else if constexpr (signed_scalar<T1> && signed_scalar<T2>)
 			{
-				return functions::innerProduct(weights, basic_vector<T3, C>(binary_op(same_kind_compare_op, x, y)));
+				return functions::innerProduct(weights, basic_vector<T3, C>(functions::sign(x - y)));
 			}
 			else if constexpr (unsigned_scalar<T1> && unsigned_scalar<T2>)
 			{
diff --git a/examples/format_output.hxx b/examples/format_output.hxx
index b05614c..ec171e6 100644
--- a/examples/format_output.hxx
+++ b/examples/format_output.hxx
@@ -5,7 +5,6 @@
 //          https://www.boost.org/LICENSE_1_0.txt)
 
 #include "dsga.hxx"
-#include <version>
 
 #if defined(__cpp_lib_format)
 
diff --git a/examples/stl.cxx b/examples/stl.cxx
index c71be03..4a95c86 100644
--- a/examples/stl.cxx
+++ b/examples/stl.cxx
@@ -61,9 +61,9 @@ constexpr dsga::vec3 right_handed_normal(const dsga::vec3 &v1, const dsga::vec3
 template <dsga::dimensional_scalar T, std::size_t Size>
 inline std::ostream &operator<<(std::ostream &o, const dsga::basic_vector<T, Size> &v)
 {
-	o << std::scientific << v[0];
+	o << v[0];
 	for (int i = 1; i < v.length(); ++i)
-		o << " " << v[i];
+		o << " " << std::scientific << v[i];
 	return o;
 }
 
@@ -231,7 +231,7 @@ int stl_main([[maybe_unused]] int argc, [[maybe_unused]] char *argv[])
 
 		auto binary_exists = fs::exists(binary_stl_path);
 		auto binary_regular = binary_exists ? fs::is_regular_file(binary_stl_path) : false;
-		auto binary_size = binary_regular ? fs::file_size(binary_stl_path) : 0;
+		auto binary_size = binary_exists ? fs::file_size(binary_stl_path) : 0;
 
 		// do file size and facet count make sense for this to be a binary STL file?
 		bool appears_to_be_binary_stl = false;
@@ -256,8 +256,7 @@ int stl_main([[maybe_unused]] int argc, [[maybe_unused]] char *argv[])
 		auto ascii_stl_path = fs::path(argv[2]);
 
 		// can't have same source and destination
-		std::error_code equivalent_error{};
-		if ((fs::absolute(binary_stl_path) == fs::absolute(ascii_stl_path)) || fs::equivalent(binary_stl_path, ascii_stl_path, equivalent_error))
+		if (fs::absolute(binary_stl_path) == fs::absolute(ascii_stl_path))
 		{
 			std::cerr << "Input file must be different from output file.\n";
 			return EXIT_FAILURE;
diff --git a/examples/tolerance.hxx b/examples/tolerance.hxx
index 2e9e5f4..52d3f86 100644
--- a/examples/tolerance.hxx
+++ b/examples/tolerance.hxx
@@ -42,10 +42,8 @@ namespace dsga
 		}
 		else
 		{
-			return [&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
-			{
-				return (within_tolerance(x[Is], tolerance) && ...);
-			}(std::make_index_sequence<C>{});
+			dsga_constexpr_assert(tolerance >= U(0), "tolerance should not be negative");
+			return all(lessThanEqual(abs(x), basic_vector<T, C>(static_cast<T>(tolerance))));
 		}
 	}
 
@@ -63,10 +61,14 @@ namespace dsga
 			else
 			{
 				dsga_constexpr_assert(all(greaterThanEqual(tolerance, basic_vector<U, C2>(0))), "tolerance should not be negative");
-				return [&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
+				if constexpr (std::same_as<T, U>)
+				{
+					return all(lessThanEqual(abs(x), tolerance));
+				}
+				else
 				{
-					return (within_tolerance(x[Is], tolerance[Is]) && ...);
-				}(std::make_index_sequence<C1>{});
+					return all(lessThanEqual(abs(x), static_cast<basic_vector<T, C2>>(tolerance)));
+				}
 			}
 		}
 		else		// (C2 == 1)
@@ -85,20 +87,7 @@ namespace dsga
 												 T y,
 												 U tolerance) noexcept
 	{
-		if constexpr (std::integral<T>)
-		{
-			dsga_constexpr_assert(tolerance >= U(0), "tolerance should not be negative");
-
-			// the signed difference might not be representable (or wraps for unsigned types), but its magnitude is
-			using unsigned_type = std::make_unsigned_t<T>;
-			const auto ux = static_cast<unsigned_type>(x);
-			const auto uy = static_cast<unsigned_type>(y);
-			return ((x < y) ? (uy - ux) : (ux - uy)) <= static_cast<unsigned_type>(tolerance);
-		}
-		else
-		{
-			return within_tolerance(x - y, tolerance);
-		}
+		return within_tolerance(x - y, tolerance);
 	}
 
 	template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2, non_bool_scalar U>
@@ -129,20 +118,7 @@ namespace dsga
 											T y,
 											U tolerance) noexcept
 	{
-		if constexpr (std::integral<T>)
-		{
-			dsga_constexpr_assert(tolerance >= U(0), "tolerance should not be negative");
-
-			// the signed difference might not be representable (or wraps for unsigned types), but its magnitude is
-			using unsigned_type = std::make_unsigned_t<T>;
-			const auto ux = static_cast<unsigned_type>(x);
-			const auto uy = static_cast<unsigned_type>(y);
-			return ((x < y) ? (uy - ux) : (ux - uy)) <= static_cast<unsigned_type>(tolerance);
-		}
-		else
-		{
-			return within_tolerance(x - y, tolerance);
-		}
+		return within_tolerance(x - y, tolerance);
 	}
 
 	template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2, non_bool_scalar U>
@@ -151,10 +127,7 @@ namespace dsga
 											const vector_base<W2, T, C, D2> &y,
 											U tolerance) noexcept
 	{
-		return [&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
-		{
-			return (within_box(x[Is], y[Is], tolerance) && ...);
-		}(std::make_index_sequence<C>{});
+		return within_tolerance(x - y, tolerance);
 	}
 
 	template <bool W1, non_bool_scalar T, std::size_t C1, typename D1, bool W2, typename D2, bool W3, non_bool_scalar U, std::size_t C2, typename D3>
@@ -165,11 +138,7 @@ namespace dsga
 	{
 		if constexpr (C1 == C2)
 		{
-			dsga_constexpr_assert(all(greaterThanEqual(tolerance, basic_vector<U, C2>(0))), "tolerance should not be negative");
-			return [&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
-			{
-				return (within_box(x[Is], y[Is], tolerance[Is]) && ...);
-			}(std::make_index_sequence<C1>{});
+			return within_tolerance(x - y, tolerance);
 		}
 		else		// (C2 == 1)
 		{
-- 
2.43.0


From bc4b0b9d448a0d33b09d0a2f6d24fd3d7282d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:56 +0000
Subject: [PATCH 25/27] fix: modf may write its integral part over its own
 argument

---
 include/dsga.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 443589f..11b1518 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7849,12 +7849,12 @@ namespace dsga
 		[[nodiscard]] constexpr auto modf(const vector_base<W1, T, C, D1> &arg,
 										  vector_base<W2, T, C, D2> &i) noexcept
 		{
-			if constexpr (C == 1)
-				i.as_derived() = basic_vector<T, 1>(trunc(arg));
-			else
-				i.as_derived() = trunc(arg);
+			// arg and i may refer to the same data, so finish reading arg before writing i
+			const basic_vector<T, C> integral_part(trunc(arg));
+			const auto fraction_part = machinery::apply_unitype_make(arg, integral_part, modf_op);
 
-			return machinery::apply_unitype_make(arg, i, modf_op);
+			i.as_derived() = integral_part;
+			return fraction_part;
 		}
 
 		template <floating_point_scalar T>
-- 
2.43.0


From 0a8edeea35188085576c3cc6112a72b924d9147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 26/27] fix: cxcm::abs and fabs of -0 are +0, as in the
 standard library

---
 include/dsga.hxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 11b1518..189c373 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1314,9 +1314,13 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T abs(T value) noexcept
 			{
-				if (isnan(value) || (value == 0))
+				if (isnan(value))
 					return value;
 
+				// -0 becomes +0
+				if (value == 0)
+					return T(0);
+
 				return relaxed::abs(value);
 			}
 
@@ -1333,9 +1337,13 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T fabs(T value) noexcept
 			{
-				if (isnan(value) || (value == 0))
+				if (isnan(value))
 					return value;
 
+				// -0 becomes +0
+				if (value == 0)
+					return T(0);
+
 				return relaxed::fabs(value);
 			}
 
-- 
2.43.0


From 598987325c3a83d6d2f0962fa41b4a3021eaaa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 27/27] fix: constant-evaluated rounding keeps the sign of a
 zero result, as at run time

---
 include/dsga.hxx | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 189c373..31351da 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -969,6 +969,18 @@ namespace dsga
 					return !isnormal_or_subnormal(value) || (relaxed::abs(value) > limits::largest_fractional_value<T>);
 				}
 
+				//
+				// keep_sign_of_zero()
+				//
+
+				// a rounding result of zero has the sign of the value that was rounded
+
+				template <std::floating_point T>
+				constexpr T keep_sign_of_zero(T rounded, T value) noexcept
+				{
+					return ((rounded == T(0)) && (value < T(0))) ? -T(0) : rounded;
+				}
+
 				//
 				// constexpr_trunc()
 				//
@@ -982,7 +994,7 @@ namespace dsga
 					if (fails_fractional_input_constraints(value))
 						return value;
 
-					return relaxed::trunc(value);
+					return keep_sign_of_zero(relaxed::trunc(value), value);
 				}
 
 				//
@@ -1014,7 +1026,7 @@ namespace dsga
 					if (fails_fractional_input_constraints(value))
 						return value;
 
-					return relaxed::ceil(value);
+					return keep_sign_of_zero(relaxed::ceil(value), value);
 				}
 
 				//
@@ -1038,7 +1050,7 @@ namespace dsga
 					else if (value == -limits::largest_fractional_value<T>)			// we technically don't have to do this for negative case (one more number in negative range)
 						return value - T(0.5f);
 
-					return relaxed::round(value);
+					return keep_sign_of_zero(relaxed::round(value), value);
 				}
 
 				//
@@ -1114,7 +1126,7 @@ namespace dsga
 					else if (value == -limits::largest_fractional_value<T>)			// we technically don't have to do this for negative case (one more number in negative range)
 						return value - T(0.5f);
 
-					return relaxed::round_even(value);
+					return keep_sign_of_zero(relaxed::round_even(value), value);
 				}
 
 				//
-- 
2.43.0

