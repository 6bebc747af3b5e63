From fa5adf0703aee855c11306d58d6b539e180c8602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:42 +0000
Subject: [PATCH 001/277] fix: search_n with a count of 0 returns first

---
 sprout/algorithm/search_n.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/search_n.hpp b/sprout/algorithm/search_n.hpp
index 0f931db..5edfe9a 100644
--- a/sprout/algorithm/search_n.hpp
+++ b/sprout/algorithm/search_n.hpp
@@ -129,7 +129,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR ForwardIterator
 	search_n(ForwardIterator first, ForwardIterator last, Size count, T const& value, BinaryPredicate pred) {
 		typedef typename std::iterator_traits<ForwardIterator>::iterator_category* category;
-		return count == 0 ? last : count == 1 ? sprout::find_if(first, last, sprout::bind2nd(pred, value))
+		return count == 0 ? first : count == 1 ? sprout::find_if(first, last, sprout::bind2nd(pred, value))
 			: sprout::detail::search_n(first, last, count, value, pred, category());
 	}
 
@@ -137,7 +137,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR ForwardIterator
 	search_n(ForwardIterator first, ForwardIterator last, Size count, T const& value) {
 		typedef typename std::iterator_traits<ForwardIterator>::iterator_category* category;
-		return count == 0 ? last : count == 1 ? sprout::find(first, last, value)
+		return count == 0 ? first : count == 1 ? sprout::find(first, last, value)
 			: sprout::detail::search_n(first, last, count, value, sprout::equal_to<>(), category());
 	}
 }	// namespace sprout
-- 
2.43.0


From 201ac78172c1db1799d55ae64a829e81841bbb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:42 +0000
Subject: [PATCH 002/277] fix: one_of and one_of_equal reject a first half with
 several matches (random access)

---
 sprout/algorithm/one_of.hpp       | 10 +++++++---
 sprout/algorithm/one_of_equal.hpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/sprout/algorithm/one_of.hpp b/sprout/algorithm/one_of.hpp
index f524e7f..f237104 100644
--- a/sprout/algorithm/one_of.hpp
+++ b/sprout/algorithm/one_of.hpp
@@ -51,10 +51,14 @@ namespace sprout {
 						sprout::next(first, pivot), last, pred,
 						(sprout::distance(first, last) - pivot) / 2
 						)
-					: sprout::detail::one_of_impl_ra(
-						sprout::next(first, pivot), last, pred,
-						(sprout::distance(first, last) - pivot) / 2
+					: sprout::detail::one_of_impl_ra_1(
+						first, sprout::next(first, pivot), pred,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_impl_ra(
+							sprout::next(first, pivot), last, pred,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename Predicate>
diff --git a/sprout/algorithm/one_of_equal.hpp b/sprout/algorithm/one_of_equal.hpp
index 35e9e67..7e04e85 100644
--- a/sprout/algorithm/one_of_equal.hpp
+++ b/sprout/algorithm/one_of_equal.hpp
@@ -51,10 +51,14 @@ namespace sprout {
 						sprout::next(first, pivot), last, value,
 						(sprout::distance(first, last) - pivot) / 2
 						)
-					: sprout::detail::one_of_equal_impl_ra(
-						sprout::next(first, pivot), last, value,
-						(sprout::distance(first, last) - pivot) / 2
+					: sprout::detail::one_of_equal_impl_ra_1(
+						first, sprout::next(first, pivot), value,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_equal_impl_ra(
+							sprout::next(first, pivot), last, value,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename T>
-- 
2.43.0


From d2b38a5a758dc44c143796bacf35dfc07e3ad762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 003/277] fix: is_heap_until accepts a child equivalent to its
 parent

---
 sprout/algorithm/is_heap_until.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/is_heap_until.hpp b/sprout/algorithm/is_heap_until.hpp
index cdaaf10..af9119f 100644
--- a/sprout/algorithm/is_heap_until.hpp
+++ b/sprout/algorithm/is_heap_until.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 			)
 		{
 			return found != first ? found
-				: pivot == 0 ? (!comp(it[first], it[(first - 1) / 2]) ? first : last)
+				: pivot == 0 ? (comp(it[(first - 1) / 2], it[first]) ? first : last)
 				: sprout::detail::is_heap_until_impl(
 					it, comp, first + pivot, last,
 					((last - first) - pivot) / 2,
-- 
2.43.0


From de14109e6f2541abb4e1ebd93bb40ba305d530c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 004/277] fix: for_each_n never counted and looped forever

---
 sprout/algorithm/cxx14/for_each_n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/for_each_n.hpp b/sprout/algorithm/cxx14/for_each_n.hpp
index 473f30a..88946af 100644
--- a/sprout/algorithm/cxx14/for_each_n.hpp
+++ b/sprout/algorithm/cxx14/for_each_n.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	template<typename InputIterator, typename Size, typename Function>
 	inline SPROUT_CXX14_CONSTEXPR InputIterator
 	for_each_n(InputIterator first, Size n, Function f) {
-		for (Size i = 0; i < n; ++first) {
+		for (Size i = 0; i < n; ++i, ++first) {
 			f(*first);
 		}
 		return first;
-- 
2.43.0


From 50056459edde3369733b9596ae2709e2de3b5db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 005/277] fix: move_backward walks back from last, not from
 first

---
 sprout/algorithm/cxx14/move_backward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/move_backward.hpp b/sprout/algorithm/cxx14/move_backward.hpp
index 608adc4..86788b7 100644
--- a/sprout/algorithm/cxx14/move_backward.hpp
+++ b/sprout/algorithm/cxx14/move_backward.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR BidirectionalIterator2
 	move_backward(BidirectionalIterator1 first, BidirectionalIterator1 last, BidirectionalIterator2 result) {
 		while (first != last) {
-			*--result = sprout::move(*--first);
+			*--result = sprout::move(*--last);
 		}
 		return result;
 	}
-- 
2.43.0


From 642b0a73667af52c5854110577e1d7398bf395da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 006/277] fix: copy_while and copy_until to an iterator did not
 compile

---
 sprout/algorithm/cxx14/copy_until.hpp | 2 +-
 sprout/algorithm/cxx14/copy_while.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/copy_until.hpp b/sprout/algorithm/cxx14/copy_until.hpp
index ffe3dc7..2ec2ad0 100644
--- a/sprout/algorithm/cxx14/copy_until.hpp
+++ b/sprout/algorithm/cxx14/copy_until.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && !pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
diff --git a/sprout/algorithm/cxx14/copy_while.hpp b/sprout/algorithm/cxx14/copy_while.hpp
index ad59c77..05c13d8 100644
--- a/sprout/algorithm/cxx14/copy_while.hpp
+++ b/sprout/algorithm/cxx14/copy_while.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 87bfb635324f6fd2f5b3272745dc953488e3e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 007/277] fix: partial_sort_copy did not compile

---
 sprout/algorithm/cxx14/partial_sort_copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/partial_sort_copy.hpp b/sprout/algorithm/cxx14/partial_sort_copy.hpp
index c42416a..93b4a4e 100644
--- a/sprout/algorithm/cxx14/partial_sort_copy.hpp
+++ b/sprout/algorithm/cxx14/partial_sort_copy.hpp
@@ -18,7 +18,7 @@
 
 namespace sprout {
 	namespace detail {
-		template<typename InputIterator, typename RandomAccessIterator, typename Compare>
+		template<typename Compare, typename InputIterator, typename RandomAccessIterator>
 		inline SPROUT_CXX14_CONSTEXPR RandomAccessIterator
 		partial_sort_copy(InputIterator first, InputIterator last, RandomAccessIterator result_first, RandomAccessIterator result_last, Compare comp) {
 			typedef typename std::iterator_traits<RandomAccessIterator>::difference_type difference_type;
-- 
2.43.0


From 0d4b410657753b2cbcd61768604e7db570871e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:39 +0000
Subject: [PATCH 008/277] fix: stable_partition left elements on the wrong side
 of the boundary

---
 sprout/algorithm/cxx14/stable_partition.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sprout/algorithm/cxx14/stable_partition.hpp b/sprout/algorithm/cxx14/stable_partition.hpp
index 624e75e..9db0c2b 100644
--- a/sprout/algorithm/cxx14/stable_partition.hpp
+++ b/sprout/algorithm/cxx14/stable_partition.hpp
@@ -21,16 +21,12 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR BidirectionalIterator
 		inplace_stable_partition(BidirectionalIterator first, Predicate pred, Distance len) {
 			if (len == 1) {
-				return first;
+				return pred(*first) ? sprout::next(first) : first;
 			}
 			BidirectionalIterator middle = first;
 			sprout::advance(middle, len / 2);
 			BidirectionalIterator left_split = sprout::detail::inplace_stable_partition(first, pred, len / 2);
-			Distance right_len = len - len / 2;
-			BidirectionalIterator right_split = sprout::find_if_not(middle, sprout::next(middle, right_len), pred);
-			if (right_len) {
-				right_split = sprout::detail::inplace_stable_partition(middle, pred, right_len);
-			}
+			BidirectionalIterator right_split = sprout::detail::inplace_stable_partition(middle, pred, len - len / 2);
 			sprout::rotate(left_split, middle, right_split);
 			sprout::advance(left_split, sprout::distance(middle, right_split));
 			return left_split;
-- 
2.43.0


From c178fea1e3415c3262edaadf55cc33d0c531a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:39 +0000
Subject: [PATCH 009/277] fix: make_heap sifted every element with a heap size
 one too small

---
 sprout/algorithm/cxx14/make_heap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/make_heap.hpp b/sprout/algorithm/cxx14/make_heap.hpp
index 497bdbd..a81325a 100644
--- a/sprout/algorithm/cxx14/make_heap.hpp
+++ b/sprout/algorithm/cxx14/make_heap.hpp
@@ -24,8 +24,8 @@ namespace sprout {
 			if (len > 1) {
 				last = first;
 				++last;
-				for (difference_type i = 1; i < len; ++i) {
-					sprout::detail::push_heap_back<Compare>(first, ++last, comp, i);
+				for (difference_type i = 1; i < len;) {
+					sprout::detail::push_heap_back<Compare>(first, ++last, comp, ++i);
 				}
 			}
 		}
-- 
2.43.0


From 646f64a3fe107f1f69b8e3e0c38a5a740486f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:52 +0000
Subject: [PATCH 010/277] fix: stable_sort was ambiguous whenever sort.hpp was
 included too

---
 sprout/algorithm/cxx14/detail/insertion_sort.hpp | 2 +-
 sprout/algorithm/cxx14/stable_sort.hpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/detail/insertion_sort.hpp b/sprout/algorithm/cxx14/detail/insertion_sort.hpp
index f23484d..ae595a6 100644
--- a/sprout/algorithm/cxx14/detail/insertion_sort.hpp
+++ b/sprout/algorithm/cxx14/detail/insertion_sort.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 
 		template<typename RandomAccessIterator, typename Compare>
 		inline SPROUT_CXX14_CONSTEXPR void
-		insertion_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
+		inplace_insertion_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
 			typedef typename std::iterator_traits<RandomAccessIterator>::value_type value_type;
 			if (first == last) {
 				return;
diff --git a/sprout/algorithm/cxx14/stable_sort.hpp b/sprout/algorithm/cxx14/stable_sort.hpp
index 293564a..a330e02 100644
--- a/sprout/algorithm/cxx14/stable_sort.hpp
+++ b/sprout/algorithm/cxx14/stable_sort.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR void
 		inplace_stable_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
 			if (last - first < 15) {
-				sprout::detail::insertion_sort(first, last, comp);
+				sprout::detail::inplace_insertion_sort(first, last, comp);
 				return;
 			}
 			RandomAccessIterator middle = first + (last - first) / 2;
-- 
2.43.0


From d40ec7d1c3ecf9c9e720372b07cebb467f948989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:41 +0000
Subject: [PATCH 011/277] fix: next.hpp alone left prev undefined for
 bidirectional iterators, and the reverse

---
 sprout/iterator/next.hpp | 2 ++
 sprout/iterator/prev.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sprout/iterator/next.hpp b/sprout/iterator/next.hpp
index dd1e935..811f813 100644
--- a/sprout/iterator/next.hpp
+++ b/sprout/iterator/next.hpp
@@ -186,4 +186,6 @@ namespace sprout {
 	}
 }	// namespace sprout
 
+#include <sprout/iterator/prev.hpp>
+
 #endif	// #ifndef SPROUT_ITERATOR_NEXT_HPP
diff --git a/sprout/iterator/prev.hpp b/sprout/iterator/prev.hpp
index 5cfd60a..cdb6917 100644
--- a/sprout/iterator/prev.hpp
+++ b/sprout/iterator/prev.hpp
@@ -161,4 +161,6 @@ namespace sprout {
 	}
 }	// namespace sprout
 
+#include <sprout/iterator/next.hpp>
+
 #endif	// #ifndef SPROUT_ITERATOR_PREV_HPP
-- 
2.43.0


From 1ea790bf75e08400774a1acb27ee5b21ad4d6080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:11 +0000
Subject: [PATCH 012/277] fix: unique_copy to a zero-sized result did not
 compile, and wrote into an empty window

---
 sprout/algorithm/fixed/unique_copy.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/sprout/algorithm/fixed/unique_copy.hpp b/sprout/algorithm/fixed/unique_copy.hpp
index 5fd51ac..a356132 100644
--- a/sprout/algorithm/fixed/unique_copy.hpp
+++ b/sprout/algorithm/fixed/unique_copy.hpp
@@ -62,11 +62,19 @@ namespace sprout {
 
 			template<typename InputIterator, typename Result>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-				sprout::is_fixed_container<Result>::value,
+				sprout::is_fixed_container<Result>::value && sprout::container_traits<Result>::static_size == 0,
+				typename sprout::fixed::results::algorithm<Result>::type
+			>::type
+			unique_copy(InputIterator const&, InputIterator const&, Result const& result) {
+				return sprout::detail::container_complate(result);
+			}
+			template<typename InputIterator, typename Result>
+			inline SPROUT_CONSTEXPR typename std::enable_if<
+				sprout::is_fixed_container<Result>::value && sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result) {
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -140,11 +148,19 @@ namespace sprout {
 
 			template<typename InputIterator, typename Result, typename BinaryPredicate>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-				sprout::is_fixed_container<Result>::value,
+				sprout::is_fixed_container<Result>::value && sprout::container_traits<Result>::static_size == 0,
+				typename sprout::fixed::results::algorithm<Result>::type
+			>::type
+			unique_copy(InputIterator const&, InputIterator const&, Result const& result, BinaryPredicate) {
+				return sprout::detail::container_complate(result);
+			}
+			template<typename InputIterator, typename Result, typename BinaryPredicate>
+			inline SPROUT_CONSTEXPR typename std::enable_if<
+				sprout::is_fixed_container<Result>::value && sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result, BinaryPredicate pred) {
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, pred, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
-- 
2.43.0


From 5bce23861124f1e69378e0eeaf5662499e5abdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:11 +0000
Subject: [PATCH 013/277] fix: fit::partition and fit::stable_partition viewed
 the wrong number of elements

---
 sprout/algorithm/fit/partition.hpp        | 2 +-
 sprout/algorithm/fit/stable_partition.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fit/partition.hpp b/sprout/algorithm/fit/partition.hpp
index 895b451..bbe9078 100644
--- a/sprout/algorithm/fit/partition.hpp
+++ b/sprout/algorithm/fit/partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/algorithm/fit/stable_partition.hpp b/sprout/algorithm/fit/stable_partition.hpp
index 728dca9..d4d1f20 100644
--- a/sprout/algorithm/fit/stable_partition.hpp
+++ b/sprout/algorithm/fit/stable_partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::stable_partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
-- 
2.43.0


From ef390239a6945446547a753540ee06954eeca33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:38 +0000
Subject: [PATCH 014/277] fix: recurrence dropped the first initial values, not
 the last, when the result is shorter

---
 sprout/algorithm/fixed/recurrence.hpp | 35 ++++++++++++---------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/sprout/algorithm/fixed/recurrence.hpp b/sprout/algorithm/fixed/recurrence.hpp
index abf86e7..1be6c26 100644
--- a/sprout/algorithm/fixed/recurrence.hpp
+++ b/sprout/algorithm/fixed/recurrence.hpp
@@ -11,10 +11,12 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
+#include <sprout/array/array.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/iterator/operation.hpp>
 #include <sprout/algorithm/fixed/results.hpp>
+#include <sprout/algorithm/fixed/copy.hpp>
 #include <sprout/pit/pit.hpp>
 #include <sprout/detail/container_complate.hpp>
 
@@ -54,34 +56,29 @@ namespace sprout {
 			{
 				return sprout::detail::container_complate(cont);
 			}
-			template<typename Container, typename Generator, typename Head, typename... Inits>
-			inline SPROUT_CONSTEXPR typename std::enable_if<
-				(sprout::container_traits<Container>::static_size >= sizeof...(Inits) + 1),
-				typename sprout::fixed::results::algorithm<Container>::type
-			>::type
-			recurrence_impl_drop(
-				Container const& cont, Generator const& gen,
+			template<typename Container, std::size_t N>
+			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Container>::type
+			recurrence_impl_drop_1(
+				Container const& cont,
 				typename sprout::container_traits<Container>::size_type size,
-				Head const& head, Inits const&... inits
+				sprout::array<typename sprout::container_traits<Container>::value_type, N> const& inits
 				)
 			{
-				return size < sizeof...(Inits) + 1
-					? sprout::fixed::detail::recurrence_impl_drop(cont, gen, size, inits...)
-					: sprout::detail::container_complate(cont, head, inits...)
-					;
+				return sprout::fixed::copy(inits.begin(), sprout::next(inits.begin(), size < N ? size : N), cont);
 			}
 			template<typename Container, typename Generator, typename Head, typename... Inits>
-			inline SPROUT_CONSTEXPR typename std::enable_if<
-				(sprout::container_traits<Container>::static_size < sizeof...(Inits) + 1),
-				typename sprout::fixed::results::algorithm<Container>::type
-			>::type
+			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Container>::type
 			recurrence_impl_drop(
-				Container const& cont, Generator const& gen,
+				Container const& cont, Generator const&,
 				typename sprout::container_traits<Container>::size_type size,
-				Head const&, Inits const&... inits
+				Head const& head, Inits const&... inits
 				)
 			{
-				return sprout::fixed::detail::recurrence_impl_drop(cont, gen, size, inits...);
+				typedef typename sprout::container_traits<Container>::value_type value_type;
+				return sprout::fixed::detail::recurrence_impl_drop_1(
+					cont, size,
+					sprout::array<value_type, sizeof...(Inits) + 1>{{static_cast<value_type>(head), static_cast<value_type>(inits)...}}
+					);
 			}
 			template<std::size_t InitSize, typename Container, typename Generator, typename... Args>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From 0c370894238196e753455c3c016c5b594017ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:36 +0000
Subject: [PATCH 015/277] fix: copy_backward from bidirectional iterators into
 a partly filled string read outside it

---
 sprout/detail/container_complate_backward.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sprout/detail/container_complate_backward.hpp b/sprout/detail/container_complate_backward.hpp
index c53c342..e785919 100644
--- a/sprout/detail/container_complate_backward.hpp
+++ b/sprout/detail/container_complate_backward.hpp
@@ -31,7 +31,11 @@ namespace sprout {
 			typename sprout::fixed::results::algorithm<Result>::type
 		>::type
 		container_complate_backward_2(Result const& result, Args const&... args) {
-			return sprout::detail::container_complate_backward_2(result, *sprout::prev(sprout::internal_end(result), sizeof...(Args) + 1), args...);
+			return sprout::detail::container_complate_backward_2(
+				result,
+				*sprout::next(sprout::internal_begin(result), sprout::container_traits<Result>::static_size - sizeof...(Args) - 1),
+				args...
+				);
 		}
 		template<typename Result, typename... Args>
 		inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -58,7 +62,7 @@ namespace sprout {
 			)
 		{
 			return remain != 0
-				? sprout::detail::container_complate_backward_1(result, remain - 1, args..., *sprout::prev(sprout::internal_end(result), remain))
+				? sprout::detail::container_complate_backward_1(result, remain - 1, args..., *sprout::next(sprout::internal_begin(result), sprout::container_traits<Result>::static_size - remain))
 				: sprout::detail::container_complate_backward_2(result, args...)
 				;
 		}
@@ -76,7 +80,11 @@ namespace sprout {
 			typename sprout::fixed::results::algorithm<Result>::type
 		>::type
 		container_complate_backward(Result const& result, Args const&... args) {
-			return sprout::detail::container_complate_backward_1(result, sprout::internal_end_offset_backward(result), args...);
+			return sprout::detail::container_complate_backward_1(
+				result,
+				sprout::container_traits<Result>::static_size - sprout::internal_end_offset(result),
+				args...
+				);
 		}
 	}	// namespace detail
 }	// namespace sprout
-- 
2.43.0


From fecdf382e69ddad8e28b6aa5492a01337c6b7355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:36 +0000
Subject: [PATCH 016/277] fix: stable_sort and sort of an empty window read
 past its end

---
 sprout/algorithm/fixed/stable_sort.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sprout/algorithm/fixed/stable_sort.hpp b/sprout/algorithm/fixed/stable_sort.hpp
index 218f266..ff885d9 100644
--- a/sprout/algorithm/fixed/stable_sort.hpp
+++ b/sprout/algorithm/fixed/stable_sort.hpp
@@ -179,15 +179,17 @@ namespace sprout {
 				typename sprout::container_traits<Container>::size_type size
 				)
 			{
-				return sprout::fixed::detail::stable_sort_impl_1(
-					cont, comp,
-					size,
-					sprout::next(sprout::begin(cont)),
-					sprout::end(cont),
-					*sprout::begin(cont),
-					1,
-					sprout::begin(cont)
-					);
+				return size <= 1 ? sprout::deep_copy(cont)
+					: sprout::fixed::detail::stable_sort_impl_1(
+						cont, comp,
+						size,
+						sprout::next(sprout::begin(cont)),
+						sprout::end(cont),
+						*sprout::begin(cont),
+						1,
+						sprout::begin(cont)
+						)
+					;
 			}
 			template<typename Container, typename Compare>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From 9b46703452927d00b276166bb0bfd06d79b99ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:34 +0000
Subject: [PATCH 017/277] fix: inner_product did not compile

---
 sprout/numeric/inner_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/inner_product.hpp b/sprout/numeric/inner_product.hpp
index c29b198..e8cbce7 100644
--- a/sprout/numeric/inner_product.hpp
+++ b/sprout/numeric/inner_product.hpp
@@ -29,7 +29,7 @@ namespace sprout {
 			typename std::iterator_traits<RandomAccessIterator1>::difference_type pivot, T init
 			)
 		{
-			return pivot == 0 ? binary_op(init, binary_op2(*first1, *first2))
+			return pivot == 0 ? binary_op1(init, binary_op2(*first1, *first2))
 				: sprout::detail::inner_product_ra(
 					sprout::next(first1, pivot), last1, sprout::next(first2, pivot), binary_op1, binary_op2,
 					(sprout::distance(first1, last1) - pivot) / 2,
@@ -109,7 +109,7 @@ namespace sprout {
 			)
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, T> type;
-			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2));
+			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2, 1));
 		}
 	}	// namespace detail
 
-- 
2.43.0


From 444a3d100f0fb399533d6753f67b8879855b267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:34 +0000
Subject: [PATCH 018/277] fix: range::copy_while and range::copy_until to an
 iterator did not compile

---
 sprout/range/algorithm/cxx14/copy_until.hpp | 2 +-
 sprout/range/algorithm/cxx14/copy_while.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/algorithm/cxx14/copy_until.hpp b/sprout/range/algorithm/cxx14/copy_until.hpp
index 605eeee..fa3b611 100644
--- a/sprout/range/algorithm/cxx14/copy_until.hpp
+++ b/sprout/range/algorithm/cxx14/copy_until.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 		>
 		inline SPROUT_CXX14_CONSTEXPR OutputIterator
 		copy_until(InputRange const& rng, OutputIterator result, Predicate pred) {
-			return sprout::copy_until(sprout::begin(rng), sprout::end(rng), result, pred);
+			return sprout::copy_until(sprout::begin(rng), sprout::end(rng), result, pred).second;
 		}
 	}	// namespace range
 }	// namespace sprout
diff --git a/sprout/range/algorithm/cxx14/copy_while.hpp b/sprout/range/algorithm/cxx14/copy_while.hpp
index f2f6954..e547c8e 100644
--- a/sprout/range/algorithm/cxx14/copy_while.hpp
+++ b/sprout/range/algorithm/cxx14/copy_while.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 		>
 		inline SPROUT_CXX14_CONSTEXPR OutputIterator
 		copy_while(InputRange const& rng, OutputIterator result, Predicate pred) {
-			return sprout::copy_while(sprout::begin(rng), sprout::end(rng), result, pred);
+			return sprout::copy_while(sprout::begin(rng), sprout::end(rng), result, pred).second;
 		}
 	}	// namespace range
 }	// namespace sprout
-- 
2.43.0


From 920fd5a02996d313dda0bb45c951cd535f8233a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:34 +0000
Subject: [PATCH 019/277] fix: range::partition_copy took one output iterator
 instead of two and did not compile

---
 sprout/range/algorithm/cxx14/partition_copy.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sprout/range/algorithm/cxx14/partition_copy.hpp b/sprout/range/algorithm/cxx14/partition_copy.hpp
index 716ac5f..cafd903 100644
--- a/sprout/range/algorithm/cxx14/partition_copy.hpp
+++ b/sprout/range/algorithm/cxx14/partition_copy.hpp
@@ -12,6 +12,7 @@
 #include <sprout/container/functions.hpp>
 #include <sprout/iterator/type_traits/is_iterator_of.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/utility/pair.hpp>
 #include <sprout/algorithm/cxx14/partition_copy.hpp>
 
 namespace sprout {
@@ -20,12 +21,12 @@ namespace sprout {
 		// partition_copy
 		//
 		template<
-			typename InputRange, typename OutputIterator, typename Predicate,
-			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator>::value>::type = sprout::enabler
+			typename InputRange, typename OutputIterator1, typename OutputIterator2, typename Predicate,
+			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator1>::value>::type = sprout::enabler
 		>
-		inline SPROUT_CXX14_CONSTEXPR OutputIterator
-		partition_copy(InputRange const& rng, OutputIterator result, Predicate pred) {
-			return sprout::partition_copy(sprout::begin(rng), sprout::end(rng), result, pred);
+		inline SPROUT_CXX14_CONSTEXPR sprout::pair<OutputIterator1, OutputIterator2>
+		partition_copy(InputRange const& rng, OutputIterator1 out_true, OutputIterator2 out_false, Predicate pred) {
+			return sprout::partition_copy(sprout::begin(rng), sprout::end(rng), out_true, out_false, pred);
 		}
 	}	// namespace range
 }	// namespace sprout
-- 
2.43.0


From 19f68981441f6a31b55e5a77646619e7beb03635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:39 +0000
Subject: [PATCH 020/277] fix: range::search could not take a const range, or a
 searcher that is not a const lvalue

---
 sprout/range/algorithm/search.hpp | 33 +++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/sprout/range/algorithm/search.hpp b/sprout/range/algorithm/search.hpp
index 8083109..80dcf52 100644
--- a/sprout/range/algorithm/search.hpp
+++ b/sprout/range/algorithm/search.hpp
@@ -14,14 +14,30 @@
 #include <sprout/config.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/utility/forward.hpp>
+#include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/type_traits/is_invocable.hpp>
 #include <sprout/range/range_return.hpp>
+#include <sprout/range/type_traits/lvalue_iterator.hpp>
 #include <sprout/algorithm/search.hpp>
 
 namespace sprout {
 	namespace range {
+		namespace detail {
+			template<typename ForwardRange, typename Searcher>
+			struct is_searcher
+				: public sprout::is_invocable<
+					Searcher const&,
+					typename sprout::range::lvalue_iterator<ForwardRange>::type,
+					typename sprout::range::lvalue_iterator<ForwardRange>::type
+				>
+			{};
+		}	// namespace detail
 
 		// 25.2.13 Search
-		template<typename ForwardRange1, typename ForwardRange2>
+		template<
+			typename ForwardRange1, typename ForwardRange2,
+			typename sprout::enabler_if<!sprout::range::detail::is_searcher<ForwardRange1, ForwardRange2>::value>::type = sprout::enabler
+		>
 		inline SPROUT_CONSTEXPR typename sprout::range::range_return<ForwardRange1>::type
 		search(ForwardRange1&& range1, ForwardRange2&& range2) {
 			return sprout::range::range_return<ForwardRange1>::pack(
@@ -50,7 +66,10 @@ namespace sprout {
 				);
 		}
 
-		template<sprout::range::range_return_value RetV, typename ForwardRange1, typename ForwardRange2>
+		template<
+			sprout::range::range_return_value RetV, typename ForwardRange1, typename ForwardRange2,
+			typename sprout::enabler_if<!sprout::range::detail::is_searcher<ForwardRange1, ForwardRange2>::value>::type = sprout::enabler
+		>
 		inline SPROUT_CONSTEXPR typename sprout::range::range_return<ForwardRange1, RetV>::type
 		search(ForwardRange1&& range1, ForwardRange2&& range2) {
 			return sprout::range::range_return<ForwardRange1, RetV>::pack(
@@ -80,7 +99,10 @@ namespace sprout {
 		}
 
 		//
-		template<typename ForwardRange, typename Searcher>
+		template<
+			typename ForwardRange, typename Searcher,
+			typename sprout::enabler_if<sprout::range::detail::is_searcher<ForwardRange, Searcher>::value>::type = sprout::enabler
+		>
 		inline SPROUT_CONSTEXPR typename sprout::range::range_return<ForwardRange>::type
 		search(ForwardRange&& range, Searcher const& searcher) {
 			return sprout::range::range_return<ForwardRange>::pack(
@@ -93,7 +115,10 @@ namespace sprout {
 				);
 		}
 
-		template<sprout::range::range_return_value RetV, typename ForwardRange, typename Searcher>
+		template<
+			sprout::range::range_return_value RetV, typename ForwardRange, typename Searcher,
+			typename sprout::enabler_if<sprout::range::detail::is_searcher<ForwardRange, Searcher>::value>::type = sprout::enabler
+		>
 		inline SPROUT_CONSTEXPR typename sprout::range::range_return<ForwardRange, RetV>::type
 		search(ForwardRange&& range, Searcher const& searcher) {
 			return sprout::range::range_return<ForwardRange, RetV>::pack(
-- 
2.43.0


From 42881cd9b3666546e70254834cb9ddf59df87735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:39 +0000
Subject: [PATCH 021/277] fix: range::fit merge, transform and set operations
 did not compile

---
 sprout/range/algorithm/fit/merge.hpp                    | 4 ++--
 sprout/range/algorithm/fit/set_difference.hpp           | 4 ++--
 sprout/range/algorithm/fit/set_intersection.hpp         | 4 ++--
 sprout/range/algorithm/fit/set_symmetric_difference.hpp | 4 ++--
 sprout/range/algorithm/fit/set_union.hpp                | 4 ++--
 sprout/range/algorithm/fit/transform.hpp                | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/range/algorithm/fit/merge.hpp b/sprout/range/algorithm/fit/merge.hpp
index 96d9e88..e3b7898 100644
--- a/sprout/range/algorithm/fit/merge.hpp
+++ b/sprout/range/algorithm/fit/merge.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// merge
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_difference.hpp b/sprout/range/algorithm/fit/set_difference.hpp
index a1e126e..0187c00 100644
--- a/sprout/range/algorithm/fit/set_difference.hpp
+++ b/sprout/range/algorithm/fit/set_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_intersection.hpp b/sprout/range/algorithm/fit/set_intersection.hpp
index 82f4766..dd1e5f3 100644
--- a/sprout/range/algorithm/fit/set_intersection.hpp
+++ b/sprout/range/algorithm/fit/set_intersection.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_intersection
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_symmetric_difference.hpp b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
index 18073af..ae47a90 100644
--- a/sprout/range/algorithm/fit/set_symmetric_difference.hpp
+++ b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_symmetric_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_union.hpp b/sprout/range/algorithm/fit/set_union.hpp
index 14b1576..f005698 100644
--- a/sprout/range/algorithm/fit/set_union.hpp
+++ b/sprout/range/algorithm/fit/set_union.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_union
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/transform.hpp b/sprout/range/algorithm/fit/transform.hpp
index 1cd1568..285dca8 100644
--- a/sprout/range/algorithm/fit/transform.hpp
+++ b/sprout/range/algorithm/fit/transform.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// transform
 			//
 			template<typename InputRange, typename Result, typename UnaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange const& rng, Result const& result, UnaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng), sprout::end(rng), result, op);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result, typename BinaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, BinaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), result, op);
 			}
-- 
2.43.0


From 497628b010184ddc5207b5df3e98d1999876dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:08 +0000
Subject: [PATCH 022/277] fix: exclusive scans wrote an element for an empty
 source, computed in the wrong type, or did not compile

---
 sprout/numeric/cxx14/exclusive_scan.hpp       | 20 +++++--------
 .../cxx14/transform_exclusive_scan.hpp        | 17 ++++-------
 sprout/numeric/fixed/exclusive_scan.hpp       | 28 +++++++++++--------
 .../fixed/transform_exclusive_scan.hpp        | 13 +++++----
 4 files changed, 37 insertions(+), 41 deletions(-)

diff --git a/sprout/numeric/cxx14/exclusive_scan.hpp b/sprout/numeric/cxx14/exclusive_scan.hpp
index 0856eb1..d0a0f89 100644
--- a/sprout/numeric/cxx14/exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/exclusive_scan.hpp
@@ -10,6 +10,7 @@
 
 #include <sprout/config.hpp>
 #include <sprout/utility/move.hpp>
+#include <sprout/functional/plus.hpp>
 #include <sprout/iterator/type_traits/is_iterator_of.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
@@ -23,19 +24,12 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init, BinaryOperation binary_op) {
-		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
-		if (first == last) {
-			return ++result;
+		for (; first != last; ++first, ++result) {
+			T sum = binary_op(init, *first);
+			*result = init;
+			init = sprout::move(sum);
 		}
-		value_type temp = *first;
-		while (++first != last) {
-			sum = binary_op(sum, temp);
-			*++result = sum;
-			temp = *first;
-		}
-		return ++result;
+		return result;
 	}
 	template<
 		typename InputIterator, typename OutputIterator, typename T,
@@ -45,7 +39,7 @@ namespace sprout {
 	exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init) {
 		return sprout::exclusive_scan(
 			first, last, result, init,
-			NS_SSCRISK_CEL_OR_SPROUT::plus<typename std::iterator_traits<InputIterator>::value_type>()
+			NS_SSCRISK_CEL_OR_SPROUT::plus<>()
 			);
 	}
 }	// namespace sprout
diff --git a/sprout/numeric/cxx14/transform_exclusive_scan.hpp b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
index 14d9c10..80ab1d5 100644
--- a/sprout/numeric/cxx14/transform_exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
@@ -23,19 +23,12 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	transform_exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init, BinaryOperation binary_op, UnaryOperation unary_op) {
-		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
-		if (first == last) {
-			return ++result;
+		for (; first != last; ++first, ++result) {
+			T sum = binary_op(init, unary_op(*first));
+			*result = init;
+			init = sprout::move(sum);
 		}
-		value_type temp = unary_op(*first);
-		while (++first != last) {
-			sum = binary_op(sum, temp);
-			*++result = sum;
-			temp = unary_op(*first);
-		}
-		return ++result;
+		return result;
 	}
 }	// namespace sprout
 
diff --git a/sprout/numeric/fixed/exclusive_scan.hpp b/sprout/numeric/fixed/exclusive_scan.hpp
index adb2cb4..6171a05 100644
--- a/sprout/numeric/fixed/exclusive_scan.hpp
+++ b/sprout/numeric/fixed/exclusive_scan.hpp
@@ -71,11 +71,14 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init,
-				typename sprout::container_traits<Result>::size_type
+				InputIterator const& first, InputIterator const& last, Result const& result, T init,
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last && size != 0
+					? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -87,9 +90,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? exclusive_scan_impl_1(sprout::next(first), last, result, size, init, *first)
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
@@ -104,7 +107,7 @@ namespace sprout {
 		template<typename Result, typename InputIterator, typename T>
 		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 		exclusive_scan(InputIterator first, InputIterator last, T init) {
-			return sprout::fixed::exclusive_scan<Result>(first, last, sprout::pit<Result>(), init);
+			return sprout::fixed::exclusive_scan(first, last, sprout::pit<Result>(), init);
 		}
 
 		namespace detail {
@@ -159,11 +162,14 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init, BinaryOperation,
-				typename sprout::container_traits<Result>::size_type
+				InputIterator const& first, InputIterator const& last, Result const& result, T init, BinaryOperation,
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last && size != 0
+					? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T, typename BinaryOperation>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -175,9 +181,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, size, init, *first)
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fixed/transform_exclusive_scan.hpp b/sprout/numeric/fixed/transform_exclusive_scan.hpp
index dc009c2..299d4b0 100644
--- a/sprout/numeric/fixed/transform_exclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_exclusive_scan.hpp
@@ -71,11 +71,14 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init, BinaryOperation, UnaryOperation,
-				typename sprout::container_traits<Result>::size_type
+				InputIterator const& first, InputIterator const& last, Result const& result, T init, BinaryOperation, UnaryOperation,
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last && size != 0
+					? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T, typename BinaryOperation, typename UnaryOperation>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -87,9 +90,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? transform_exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, unary_op, size, init, unary_op(*first))
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From 7f8cc840cfc1db0356ecf5e20d1a891c158dc3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:38 +0000
Subject: [PATCH 023/277] fix: inclusive scans with an initial value wrote one
 element too many, starting with the initial value

---
 sprout/numeric/cxx14/inclusive_scan.hpp       | 16 ++++----------
 .../cxx14/transform_inclusive_scan.hpp        | 16 ++++----------
 sprout/numeric/fit/inclusive_scan.hpp         |  2 +-
 .../numeric/fit/transform_inclusive_scan.hpp  |  2 +-
 sprout/numeric/fixed/inclusive_scan.hpp       | 20 ++++-------------
 .../fixed/transform_inclusive_scan.hpp        | 22 +++++--------------
 6 files changed, 19 insertions(+), 59 deletions(-)

diff --git a/sprout/numeric/cxx14/inclusive_scan.hpp b/sprout/numeric/cxx14/inclusive_scan.hpp
index a7e0d48..c8a3cf4 100644
--- a/sprout/numeric/cxx14/inclusive_scan.hpp
+++ b/sprout/numeric/cxx14/inclusive_scan.hpp
@@ -24,19 +24,11 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	inclusive_scan(InputIterator first, InputIterator last, OutputIterator result, BinaryOperation binary_op, T init) {
-		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
-		if (first == last) {
-			return ++result;
+		for (; first != last; ++first, ++result) {
+			init = binary_op(init, *first);
+			*result = init;
 		}
-		sum = binary_op(sum, *first);
-		*++result = sum;
-		while (++first != last) {
-			sum = binary_op(sum, *first);
-			*++result = sum;
-		}
-		return ++result;
+		return result;
 	}
 	template<
 		typename InputIterator, typename OutputIterator, typename BinaryOperation,
diff --git a/sprout/numeric/cxx14/transform_inclusive_scan.hpp b/sprout/numeric/cxx14/transform_inclusive_scan.hpp
index b2cf1a2..2a4e521 100644
--- a/sprout/numeric/cxx14/transform_inclusive_scan.hpp
+++ b/sprout/numeric/cxx14/transform_inclusive_scan.hpp
@@ -23,19 +23,11 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	transform_inclusive_scan(InputIterator first, InputIterator last, OutputIterator result, BinaryOperation binary_op, UnaryOperation unary_op, T init) {
-		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
-		if (first == last) {
-			return ++result;
-		}
-		sum = binary_op(sum, unary_op(*first));
-		*++result = sum;
-		while (++first != last) {
-			sum = binary_op(sum, unary_op(*first));
-			*++result = sum;
+		for (; first != last; ++first, ++result) {
+			init = binary_op(init, unary_op(*first));
+			*result = init;
 		}
-		return ++result;
+		return result;
 	}
 	template<
 		typename InputIterator, typename OutputIterator, typename BinaryOperation, typename UnaryOperation,
diff --git a/sprout/numeric/fit/inclusive_scan.hpp b/sprout/numeric/fit/inclusive_scan.hpp
index 2f9784a..13f5f81 100644
--- a/sprout/numeric/fit/inclusive_scan.hpp
+++ b/sprout/numeric/fit/inclusive_scan.hpp
@@ -83,7 +83,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::inclusive_scan(first, last, result, binary_op, init)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min<diff_type>(sprout::distance(first, last) + 1, sprout::size(result))
+					offset + NS_SSCRISK_CEL_OR_SPROUT::min<diff_type>(sprout::distance(first, last), sprout::size(result))
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fit/transform_inclusive_scan.hpp b/sprout/numeric/fit/transform_inclusive_scan.hpp
index ffdd4ae..b25bc1d 100644
--- a/sprout/numeric/fit/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fit/transform_inclusive_scan.hpp
@@ -58,7 +58,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::transform_inclusive_scan(first, last, result, binary_op, unary_op, init)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min<diff_type>(sprout::distance(first, last) + 1, sprout::size(result))
+					offset + NS_SSCRISK_CEL_OR_SPROUT::min<diff_type>(sprout::distance(first, last), sprout::size(result))
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fixed/inclusive_scan.hpp b/sprout/numeric/fixed/inclusive_scan.hpp
index c68052e..3b4c28e 100644
--- a/sprout/numeric/fixed/inclusive_scan.hpp
+++ b/sprout/numeric/fixed/inclusive_scan.hpp
@@ -61,19 +61,7 @@ namespace sprout {
 			}
 			template<typename InputIterator, typename Result, typename BinaryOperation, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-				sprout::container_traits<Result>::static_size == 1,
-				typename sprout::fixed::results::algorithm<Result>::type
-			>::type
-			inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T init,
-				typename sprout::container_traits<Result>::size_type
-				)
-			{
-				return sprout::remake<Result>(result, sprout::size(result), init);
-			}
-			template<typename InputIterator, typename Result, typename BinaryOperation, typename T>
-			inline SPROUT_CONSTEXPR typename std::enable_if<
-				(sprout::container_traits<Result>::static_size > 1),
+				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			inclusive_scan_impl(
@@ -81,9 +69,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
-					? partial_sum_impl_1(first, last, result, binary_op, size, init)
-					: sprout::detail::container_complate(result, init)
+				return first != last && size != 0
+					? partial_sum_impl_1(sprout::next(first), last, result, binary_op, size, binary_op(init, *first))
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fixed/transform_inclusive_scan.hpp b/sprout/numeric/fixed/transform_inclusive_scan.hpp
index 0d3ca49..8e5512e 100644
--- a/sprout/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_inclusive_scan.hpp
@@ -102,7 +102,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T,
+				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
@@ -110,19 +110,7 @@ namespace sprout {
 			}
 			template<typename InputIterator, typename Result, typename BinaryOperation, typename UnaryOperation, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-				sprout::container_traits<Result>::static_size == 1,
-				typename sprout::fixed::results::algorithm<Result>::type
-			>::type
-			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T init,
-				typename sprout::container_traits<Result>::size_type
-				)
-			{
-				return sprout::remake<Result>(result, sprout::size(result), init);
-			}
-			template<typename InputIterator, typename Result, typename BinaryOperation, typename UnaryOperation, typename T>
-			inline SPROUT_CONSTEXPR typename std::enable_if<
-				(sprout::container_traits<Result>::static_size > 1),
+				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
@@ -130,9 +118,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
-					? transform_inclusive_scan_impl_1(first, last, result, binary_op, unary_op, size, init)
-					: sprout::detail::container_complate(result, init)
+				return first != last && size != 0
+					? transform_inclusive_scan_impl_1(sprout::next(first), last, result, binary_op, unary_op, size, binary_op(init, unary_op(*first)))
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From 34303becd430066eb2da9459d29397493d886464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:38 +0000
Subject: [PATCH 024/277] fix: adjacent_difference into a container did not
 compile; partial_sum wrote into an empty window

---
 sprout/numeric/fit/adjacent_difference.hpp        | 2 +-
 sprout/numeric/fit/partial_sum.hpp                | 2 +-
 sprout/numeric/fixed/adjacent_difference.hpp      | 8 ++++----
 sprout/numeric/fixed/partial_sum.hpp              | 4 ++--
 sprout/numeric/fixed/transform_inclusive_scan.hpp | 2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/sprout/numeric/fit/adjacent_difference.hpp b/sprout/numeric/fit/adjacent_difference.hpp
index 22c0cb3..ff52387 100644
--- a/sprout/numeric/fit/adjacent_difference.hpp
+++ b/sprout/numeric/fit/adjacent_difference.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::adjacent_difference(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fit/partial_sum.hpp b/sprout/numeric/fit/partial_sum.hpp
index bebe6e0..46cd572 100644
--- a/sprout/numeric/fit/partial_sum.hpp
+++ b/sprout/numeric/fit/partial_sum.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partial_sum(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fixed/adjacent_difference.hpp b/sprout/numeric/fixed/adjacent_difference.hpp
index 1426e4f..ed6e31a 100644
--- a/sprout/numeric/fixed/adjacent_difference.hpp
+++ b/sprout/numeric/fixed/adjacent_difference.hpp
@@ -70,12 +70,12 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result,
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? adjacent_difference_impl_1(sprout::next(first), last, result, size, *first, *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -144,12 +144,12 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result, BinaryOperation binary_op,
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? adjacent_difference_impl_1(sprout::next(first), last, result, binary_op, size, *first, *first)
 					: sprout::detail::container_complate(result)
 					;
diff --git a/sprout/numeric/fixed/partial_sum.hpp b/sprout/numeric/fixed/partial_sum.hpp
index d0144cc..6e56a46 100644
--- a/sprout/numeric/fixed/partial_sum.hpp
+++ b/sprout/numeric/fixed/partial_sum.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? partial_sum_impl_1(sprout::next(first), last, result, size, *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -149,7 +149,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? partial_sum_impl_1(sprout::next(first), last, result, binary_op, size, *first)
 					: sprout::detail::container_complate(result)
 					;
diff --git a/sprout/numeric/fixed/transform_inclusive_scan.hpp b/sprout/numeric/fixed/transform_inclusive_scan.hpp
index 8e5512e..3b41422 100644
--- a/sprout/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_inclusive_scan.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? transform_inclusive_scan_impl_1(sprout::next(first), last, result, binary_op, unary_op, size, unary_op(*first))
 					: sprout::detail::container_complate(result)
 					;
-- 
2.43.0


From a2a0a46f16e0d7002acac2c90e7557c5c09e987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:43 +0000
Subject: [PATCH 025/277] fix: range::equal, mismatch and is_permutation
 ignored the length of the second range and read past its end

---
 sprout/range/algorithm/equal.hpp          | 4 ++--
 sprout/range/algorithm/is_permutation.hpp | 4 ++--
 sprout/range/algorithm/mismatch.hpp       | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/sprout/range/algorithm/equal.hpp b/sprout/range/algorithm/equal.hpp
index 9eafe2f..476ffe2 100644
--- a/sprout/range/algorithm/equal.hpp
+++ b/sprout/range/algorithm/equal.hpp
@@ -22,13 +22,13 @@ namespace sprout {
 		template<typename InputRange1, typename InputRange2>
 		inline SPROUT_CONSTEXPR bool
 		equal(InputRange1 const& range1, InputRange2 const& range2) {
-			return sprout::equal(sprout::begin(range1), sprout::end(range1), sprout::begin(range2));
+			return sprout::equal(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), sprout::end(range2));
 		}
 
 		template<typename InputRange1, typename InputRange2, typename BinaryPredicate>
 		inline SPROUT_CONSTEXPR bool
 		equal(InputRange1 const& range1, InputRange2 const& range2, BinaryPredicate pred) {
-			return sprout::equal(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), pred);
+			return sprout::equal(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), sprout::end(range2), pred);
 		}
 	}	// namespace range
 }	// namespace sprout
diff --git a/sprout/range/algorithm/is_permutation.hpp b/sprout/range/algorithm/is_permutation.hpp
index c0a7b78..714d494 100644
--- a/sprout/range/algorithm/is_permutation.hpp
+++ b/sprout/range/algorithm/is_permutation.hpp
@@ -22,13 +22,13 @@ namespace sprout {
 		template<typename ForwardRange1, typename ForwardRange2>
 		inline SPROUT_CONSTEXPR bool
 		is_permutation(ForwardRange1 const& range1, ForwardRange2 const& range2) {
-			return sprout::is_permutation(sprout::begin(range1), sprout::end(range1), sprout::begin(range2));
+			return sprout::is_permutation(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), sprout::end(range2));
 		}
 
 		template<typename ForwardRange1, typename ForwardRange2, typename BinaryPredicate>
 		inline SPROUT_CONSTEXPR bool
 		is_permutation(ForwardRange1 const& range1, ForwardRange2 const& range2, BinaryPredicate pred) {
-			return sprout::is_permutation(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), pred);
+			return sprout::is_permutation(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), sprout::end(range2), pred);
 		}
 	}	// namespace range
 }	// namespace sprout
diff --git a/sprout/range/algorithm/mismatch.hpp b/sprout/range/algorithm/mismatch.hpp
index 5f95b4e..69a217a 100644
--- a/sprout/range/algorithm/mismatch.hpp
+++ b/sprout/range/algorithm/mismatch.hpp
@@ -31,7 +31,8 @@ namespace sprout {
 			return sprout::mismatch(
 				sprout::begin(SPROUT_FORWARD(InputRange1, range1)),
 				sprout::end(SPROUT_FORWARD(InputRange1, range1)),
-				sprout::begin(SPROUT_FORWARD(InputRange2, range2))
+				sprout::begin(SPROUT_FORWARD(InputRange2, range2)),
+				sprout::end(SPROUT_FORWARD(InputRange2, range2))
 				);
 		}
 
@@ -45,6 +46,7 @@ namespace sprout {
 				sprout::begin(SPROUT_FORWARD(InputRange1, range1)),
 				sprout::end(SPROUT_FORWARD(InputRange1, range1)),
 				sprout::begin(SPROUT_FORWARD(InputRange2, range2)),
+				sprout::end(SPROUT_FORWARD(InputRange2, range2)),
 				pred
 				);
 		}
-- 
2.43.0


From c1e17158cbb4163eaf5430235244cabb478dbafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:43 +0000
Subject: [PATCH 026/277] fix: random_swap and bozo_sort swapped with the
 element past the end

---
 sprout/algorithm/cxx14/random_swap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/random_swap.hpp b/sprout/algorithm/cxx14/random_swap.hpp
index 6f3ea74..9674d32 100644
--- a/sprout/algorithm/cxx14/random_swap.hpp
+++ b/sprout/algorithm/cxx14/random_swap.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 		typedef SPROUT_WORKAROUND_DETAIL_UNIFORM_INT_DISTRIBUTION<std::ptrdiff_t> distribution_type;
 		difference_type d = last - first;
 		if (d > 1) {
-			distribution_type dist(0, d);
+			distribution_type dist(0, d - 1);
 			difference_type i = dist(g);
 			difference_type j = dist(g);
 			if (i != j) {
-- 
2.43.0


From 411534e9213382225210e23465c84ae7dbd349c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:34 +0000
Subject: [PATCH 027/277] fix: transform_inclusive_scan with an initial value
 into a new container did not compile

---
 sprout/numeric/fixed/transform_inclusive_scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/numeric/fixed/transform_inclusive_scan.hpp b/sprout/numeric/fixed/transform_inclusive_scan.hpp
index 3b41422..6ef60cc 100644
--- a/sprout/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_inclusive_scan.hpp
@@ -164,7 +164,7 @@ namespace sprout {
 	template<typename Result, typename InputIterator, typename BinaryOperation, typename UnaryOperation, typename T>
 	inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 	transform_inclusive_scan(InputIterator first, InputIterator last, BinaryOperation binary_op, UnaryOperation unary_op, T init) {
-		return sprout::fixed::transform_inclusive_scan<Result>(first, last, binary_op, unary_op, unary_op, init);
+		return sprout::fixed::transform_inclusive_scan<Result>(first, last, binary_op, unary_op, init);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 8d9e7b7b52538b95c9968d98fe9980186466b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:08 +0000
Subject: [PATCH 028/277] fix: member swap of several iterator adaptors called
 itself and did not compile

---
 sprout/iterator/indexed_iterator.hpp |  8 ++++----
 sprout/iterator/move_iterator.hpp    |  4 ++--
 sprout/iterator/next_iterator.hpp    |  8 ++++----
 sprout/iterator/remake_iterator.hpp  | 24 ++++++++++++------------
 sprout/iterator/reverse_iterator.hpp |  4 ++--
 sprout/iterator/step_iterator.hpp    | 22 +++++++++++-----------
 sprout/iterator/valued_iterator.hpp  |  8 ++++----
 7 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/sprout/iterator/indexed_iterator.hpp b/sprout/iterator/indexed_iterator.hpp
index ac56dd5..dd1f1dc 100644
--- a/sprout/iterator/indexed_iterator.hpp
+++ b/sprout/iterator/indexed_iterator.hpp
@@ -121,12 +121,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(indexed_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(idx, other.idx))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(idx, other.idx))
 			)
 		{
-			swap(current, other.current);
-			swap(idx, other.idx);
+			sprout::swap(current, other.current);
+			sprout::swap(idx, other.idx);
 		}
 	};
 
diff --git a/sprout/iterator/move_iterator.hpp b/sprout/iterator/move_iterator.hpp
index 826af24..9df2cc5 100644
--- a/sprout/iterator/move_iterator.hpp
+++ b/sprout/iterator/move_iterator.hpp
@@ -123,10 +123,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(move_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/next_iterator.hpp b/sprout/iterator/next_iterator.hpp
index 9addf3f..3ac7e83 100644
--- a/sprout/iterator/next_iterator.hpp
+++ b/sprout/iterator/next_iterator.hpp
@@ -90,12 +90,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(next_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(holder_, other.holder_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(holder_, other.holder_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(holder_, other.holder_);
-			swap(current, other.current);
+			sprout::swap(holder_, other.holder_);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/remake_iterator.hpp b/sprout/iterator/remake_iterator.hpp
index af576e1..3feeba2 100644
--- a/sprout/iterator/remake_iterator.hpp
+++ b/sprout/iterator/remake_iterator.hpp
@@ -202,20 +202,20 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(remake_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current2, other.current2))
-			&& SPROUT_NOEXCEPT_EXPR(swap(fst, other.fst))
-			&& SPROUT_NOEXCEPT_EXPR(swap(lst_, other.lst_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(begin_off, other.begin_off))
-			&& SPROUT_NOEXCEPT_EXPR(swap(end_off, other.end_off))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current2, other.current2))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(fst, other.fst))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(lst_, other.lst_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(begin_off, other.begin_off))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(end_off, other.end_off))
 			)
 		{
-			swap(current, other.current);
-			swap(current2, other.current2);
-			swap(fst, other.fst);
-			swap(lst_, other.lst_);
-			swap(begin_off, other.begin_off);
-			swap(end_off, other.end_off);
+			sprout::swap(current, other.current);
+			sprout::swap(current2, other.current2);
+			sprout::swap(fst, other.fst);
+			sprout::swap(lst_, other.lst_);
+			sprout::swap(begin_off, other.begin_off);
+			sprout::swap(end_off, other.end_off);
 		}
 	};
 
diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 2990599..0d6c427 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -109,10 +109,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(reverse_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 8e8a39c..0813a21 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -155,19 +155,19 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(step_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(last, other.last))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(back, other.back))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(is_last, other.is_last))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(last, other.last))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(back, other.back))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(is_last, other.is_last))
 			)
 		{
-			swap(current, other.current);
-			swap(last, other.last);
-			swap(wid, other.wid);
-			swap(back, other.back);
-			swap(is_last, other.is_last);
+			sprout::swap(current, other.current);
+			sprout::swap(last, other.last);
+			sprout::swap(wid, other.wid);
+			sprout::swap(back, other.back);
+			sprout::swap(is_last, other.is_last);
 		}
 	};
 
diff --git a/sprout/iterator/valued_iterator.hpp b/sprout/iterator/valued_iterator.hpp
index 92e6fc6..70e5cbc 100644
--- a/sprout/iterator/valued_iterator.hpp
+++ b/sprout/iterator/valued_iterator.hpp
@@ -129,12 +129,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(valued_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(holder, other.holder))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(holder, other.holder))
 			)
 		{
-			swap(current, other.current);
-			swap(holder, other.holder);
+			sprout::swap(current, other.current);
+			sprout::swap(holder, other.holder);
 		}
 	};
 
-- 
2.43.0


From dc759824cc4510a8f8b758d6a16ed7ca43588500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:08 +0000
Subject: [PATCH 029/277] fix: adjacent_filter_iterator (unique_iterator) lost
 the first element when its run reaches the end

---
 sprout/iterator/adjacent_filter_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/adjacent_filter_iterator.hpp b/sprout/iterator/adjacent_filter_iterator.hpp
index 52ee63e..51f88d8 100644
--- a/sprout/iterator/adjacent_filter_iterator.hpp
+++ b/sprout/iterator/adjacent_filter_iterator.hpp
@@ -76,7 +76,7 @@ namespace sprout {
 		{}
 		adjacent_filter_iterator(adjacent_filter_iterator const&) = default;
 		SPROUT_CONSTEXPR adjacent_filter_iterator(Predicate pred, iterator_type it, iterator_type last = iterator_type())
-			: current(find_next(it, last, pred))
+			: current(it)
 			, last(last)
 			, pred(pred)
 		{}
-- 
2.43.0


From 4b2aaa65854a7f5b5b8f9c19c28e31f23519bbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:08 +0000
Subject: [PATCH 030/277] fix: while_iterator dereferenced the end of the base
 range

---
 sprout/iterator/while_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/while_iterator.hpp b/sprout/iterator/while_iterator.hpp
index 27f0530..c8834c1 100644
--- a/sprout/iterator/while_iterator.hpp
+++ b/sprout/iterator/while_iterator.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 		Predicate pred;
 	private:
 		SPROUT_CXX14_CONSTEXPR void satisfy_predicate() {
-			if (!pred(*current)) {
+			if (current != last && !pred(*current)) {
 				current = last;
 			}
 		}
-- 
2.43.0


From c2a263c65f779aa97beb8fc4e3132f8ce4d4354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:08 +0000
Subject: [PATCH 031/277] fix: alternate_iterator moved to the wrong element
 when stepping back by an odd distance

---
 sprout/iterator/alternate_iterator.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sprout/iterator/alternate_iterator.hpp b/sprout/iterator/alternate_iterator.hpp
index db9af14..2598146 100644
--- a/sprout/iterator/alternate_iterator.hpp
+++ b/sprout/iterator/alternate_iterator.hpp
@@ -49,8 +49,13 @@ namespace sprout {
 		SPROUT_CONSTEXPR alternate_iterator advance_impl_1(difference_type n) const {
 			return alternate_iterator(sprout::next(current1, n / 2), sprout::next(current2, n / 2), !(n % 2));
 		}
+		SPROUT_CONSTEXPR alternate_iterator advance_impl_2(difference_type n) const {
+			return alternate_iterator(sprout::next(current1, -((1 - n) / 2)), sprout::next(current2, -((1 - n) / 2)), !(n % 2));
+		}
 		SPROUT_CONSTEXPR alternate_iterator advance_impl(difference_type n) const {
-			return advance_impl_1(n + (!is_in_left() ? 1 : 0));
+			return n + (!is_in_left() ? 1 : 0) >= 0 ? advance_impl_1(n + (!is_in_left() ? 1 : 0))
+				: advance_impl_2(n + (!is_in_left() ? 1 : 0))
+				;
 		}
 		SPROUT_CONSTEXPR alternate_iterator(iterator_type it1, iterator2_type it2, bool in_left)
 			: current1(it1), current2(it2), in_left(in_left)
-- 
2.43.0


From 609115842bc7598eb1d4be42f6945c55e06435f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:08 +0000
Subject: [PATCH 032/277] fix: insert_range_iterator random access did not
 compile and computed wrong positions

---
 sprout/iterator/insert_range_iterator.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sprout/iterator/insert_range_iterator.hpp b/sprout/iterator/insert_range_iterator.hpp
index 6ef839c..fb3b495 100644
--- a/sprout/iterator/insert_range_iterator.hpp
+++ b/sprout/iterator/insert_range_iterator.hpp
@@ -51,20 +51,20 @@ namespace sprout {
 			return n >= 0
 				? current1 > pos1 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: current1 == pos1 ? current2 == last2 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-						: n <= sprout::distance(current2, last2) ? insert_range_iterator(current1, pos1, last2, sprout::next(current2, n), first2, last2)
+						: n <= sprout::distance(current2, last2) ? insert_range_iterator(current1, pos1, sprout::next(current2, n), first2, last2)
 						: insert_range_iterator(sprout::next(current1, n - sprout::distance(current2, last2)), pos1, last2, first2, last2)
 					: n <= sprout::distance(current1, pos1) ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: n <= sprout::distance(current1, pos1) + sprout::distance(current2, last2)
-						? insert_range_iterator(pos1, pos1, last2, sprout::next(current2, n - sprout::distance(current1, pos1)), first2, last2)
-					: insert_range_iterator(sprout::next(current1, n - sprout::distance(current1, pos1) - sprout::distance(current2, last2)), pos1, last2, first2, last2)
+						? insert_range_iterator(pos1, pos1, sprout::next(current2, n - sprout::distance(current1, pos1)), first2, last2)
+					: insert_range_iterator(sprout::next(current1, n - sprout::distance(current2, last2)), pos1, last2, first2, last2)
 				: current1 < pos1 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: current1 == pos1 ? current2 == first2 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-						: -n <= sprout::distance(first2, current2) ? insert_range_iterator(current1, pos1, last2, sprout::next(current2, n), first2, last2)
-						: insert_range_iterator(sprout::next(current1, n - sprout::distance(first2, current2)), pos1, first2, first2, last2)
+						: -n <= sprout::distance(first2, current2) ? insert_range_iterator(current1, pos1, sprout::next(current2, n), first2, last2)
+						: insert_range_iterator(sprout::next(current1, n + sprout::distance(first2, current2)), pos1, first2, first2, last2)
 					: -n <= sprout::distance(pos1, current1) ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: -n <= sprout::distance(pos1, current1) + sprout::distance(first2, current2)
-						? insert_range_iterator(pos1, pos1, last2, sprout::next(current2, n - sprout::distance(pos1, current1)), first2, last2)
-					: insert_range_iterator(sprout::next(current1, n - sprout::distance(pos1, current1) - sprout::distance(first2, current2)), pos1, first2, first2, last2)
+						? insert_range_iterator(pos1, pos1, sprout::next(current2, n + sprout::distance(pos1, current1)), first2, last2)
+					: insert_range_iterator(sprout::next(current1, n + sprout::distance(first2, current2)), pos1, first2, first2, last2)
 				;
 		}
 	public:
-- 
2.43.0


From 007af6a0c7d6432d72f86837cde00e98cbacff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:49 +0000
Subject: [PATCH 033/277] fix: reverse_iterator ordering was that of the base
 iterators

---
 sprout/iterator/reverse_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 0d6c427..edfbbc5 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -129,7 +129,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::reverse_iterator<Iterator1> const& lhs, sprout::reverse_iterator<Iterator2> const& rhs) {
-		return lhs.base() < rhs.base();
+		return rhs.base() < lhs.base();
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From 9b0fc8785fc7b653c37ea932f47a95d9239f3fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:49 +0000
Subject: [PATCH 034/277] fix: joint_iterator difference had the wrong sign
 when the left operand comes first

---
 sprout/iterator/joint_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/joint_iterator.hpp b/sprout/iterator/joint_iterator.hpp
index 57702a1..1354301 100644
--- a/sprout/iterator/joint_iterator.hpp
+++ b/sprout/iterator/joint_iterator.hpp
@@ -271,7 +271,7 @@ namespace sprout {
 	{
 		return lhs.is_in_left() && rhs.is_in_left() ? lhs.base() - rhs.base()
 			: !lhs.is_in_left() && !rhs.is_in_left() ? lhs.base2() - rhs.base2()
-			: lhs.is_in_left() ? sprout::limited::plus(lhs.left_end() - lhs.base(), rhs.base2() - rhs.right_begin())
+			: lhs.is_in_left() ? sprout::limited::plus(lhs.base() - lhs.left_end(), rhs.right_begin() - rhs.base2())
 			: sprout::limited::plus(lhs.base2() - lhs.right_begin(), rhs.left_end() - rhs.base())
 			;
 	}
-- 
2.43.0


From a30f3dd240bb32b7abe86f56f4fd6d57ad4043b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:49 +0000
Subject: [PATCH 035/277] fix: alternate_iterator difference between a left and
 a right position was wrong

---
 sprout/iterator/alternate_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/alternate_iterator.hpp b/sprout/iterator/alternate_iterator.hpp
index 2598146..8eb8529 100644
--- a/sprout/iterator/alternate_iterator.hpp
+++ b/sprout/iterator/alternate_iterator.hpp
@@ -255,7 +255,7 @@ namespace sprout {
 	{
 		return sprout::limited::plus(
 			sprout::limited::multiplies(lhs.base() - rhs.base(), 2),
-			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : 1) : (rhs.is_in_left() ? 1 : 0)
+			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : -1) : (rhs.is_in_left() ? 1 : 0)
 			);
 	}
 	template<typename LIterator, typename RIterator>
-- 
2.43.0


From 5a13f41f4866f8e699c610360efe62dd1b41a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:49 +0000
Subject: [PATCH 036/277] fix: insert_range_iterator ordering was wrong between
 base and inserted positions

---
 sprout/iterator/insert_range_iterator.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sprout/iterator/insert_range_iterator.hpp b/sprout/iterator/insert_range_iterator.hpp
index fb3b495..f3574f2 100644
--- a/sprout/iterator/insert_range_iterator.hpp
+++ b/sprout/iterator/insert_range_iterator.hpp
@@ -222,10 +222,7 @@ namespace sprout {
 		sprout::insert_range_iterator<DstIterator2, SrcIterator2> const& rhs
 		)
 	{
-		return lhs.is_in_base() && rhs.is_in_base() ? lhs.base() < rhs.base()
-			: !lhs.is_in_base() && !rhs.is_in_base() ? lhs.base2() < rhs.base2()
-			: lhs.is_in_base()
-			;
+		return lhs.base() < rhs.base() || (lhs.base() == rhs.base() && lhs.base2() < rhs.base2());
 	}
 	template<
 		typename DstIterator1, typename SrcIterator1,
-- 
2.43.0


From 2a52c49f677f2c33e98b1e19df2d29bc5d12cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:49 +0000
Subject: [PATCH 037/277] fix: make_clamp_iterator without a comparison could
 not be called

---
 sprout/iterator/clamp_iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 418d065..8612ee7 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -196,15 +196,15 @@ namespace sprout {
 	{
 		return sprout::clamp_iterator<Iterator, Compare>(it, low, up, comp);
 	}
-	template<typename Iterator, typename Compare>
-	inline SPROUT_CONSTEXPR sprout::clamp_iterator<Iterator, Compare>
+	template<typename Iterator>
+	inline SPROUT_CONSTEXPR sprout::clamp_iterator<Iterator>
 	make_clamp_iterator(
 		Iterator it,
 		typename std::iterator_traits<Iterator>::value_type const& low,
 		typename std::iterator_traits<Iterator>::value_type const& up
 		)
 	{
-		return sprout::clamp_iterator<Iterator, Compare>(it, low, up);
+		return sprout::clamp_iterator<Iterator>(it, low, up);
 	}
 
 	//
-- 
2.43.0


From 5475957ff1f5f94d304482dfa5125964bbb1816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:28 +0000
Subject: [PATCH 038/277] fix: step_iterator never met its end, could not step
 back from it and did not compile for non-random-access iterators

---
 sprout/iterator/step_iterator.hpp | 57 ++++++++++++++++---------------
 sprout/range/adaptor/steps.hpp    | 11 +++---
 2 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 0813a21..ee9269a 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -36,12 +36,20 @@ namespace sprout {
 		typedef typename base_type::reference reference;
 	private:
 		static SPROUT_CONSTEXPR iterator_type get_back(iterator_type it, difference_type wid, iterator_type last) {
-			return sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid);
+			return it == last ? it
+				: sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid)
+				;
+		}
+		static SPROUT_CONSTEXPR bool next_is_last(step_iterator const& it, difference_type n) {
+			return n == 0 ? it.is_last
+				: n > 0 && (it.is_last || n * it.wid >= sprout::distance(it.current, it.last))
+				;
 		}
-		static SPROUT_CONSTEXPR difference_type next_distance(step_iterator const& it, difference_type n) {
-			return n >= 0 ? NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(it.current, it.back), n * it.wid)
-				: it.is_last ? 0
-				: NS_SSCRISK_CEL_OR_SPROUT::max(-sprout::distance(it.current, it.back), n * it.wid)
+		static SPROUT_CONSTEXPR iterator_type next_current(step_iterator const& it, difference_type n) {
+			return sprout::step_iterator<Iterator>::next_is_last(it, n) ? it.back
+				: !it.is_last ? sprout::next(it.current, n * it.wid)
+				: it.back == it.last ? sprout::next(it.last, n * it.wid)
+				: sprout::next(it.back, (n + 1) * it.wid)
 				;
 		}
 	protected:
@@ -53,8 +61,8 @@ namespace sprout {
 		bool is_last;
 	private:
 		SPROUT_CONSTEXPR step_iterator(step_iterator const& other, difference_type n)
-			: current(sprout::next(other.current, next_distance(other, n))), last(other.last), wid(other.wid)
-			, back(other.back), is_last(next_distance(other, n) == 0)
+			: current(next_current(other, n)), last(other.last), wid(other.wid)
+			, back(other.back), is_last(next_is_last(other, n))
 		{}
 	public:
 		SPROUT_CONSTEXPR step_iterator()
@@ -99,33 +107,23 @@ namespace sprout {
 			return &*current;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator++() {
-			if (current == back) {
-				is_last = true;
-			}
-			current += next_distance(*this, 1);
+			step_iterator temp(*this, 1);
+			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator++(int) {
 			step_iterator result(*this);
-			if (current == back) {
-				is_last = true;
-			}
-			current += next_distance(*this, 1);
+			++*this;
 			return result;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator--() {
-			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
+			step_iterator temp(*this, -1);
+			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator--(int) {
 			step_iterator temp(*this);
-			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
+			--*this;
 			return temp;
 		}
 		SPROUT_CONSTEXPR step_iterator operator+(difference_type n) const {
@@ -145,7 +143,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR reference operator[](difference_type n) const {
-			return *(current + n * wid);
+			return *(*this + n);
 		}
 		SPROUT_CONSTEXPR step_iterator next() const {
 			return step_iterator(*this, 1);
@@ -159,7 +157,6 @@ namespace sprout {
 			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(last, other.last))
 			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
 			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(back, other.back))
-			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
 			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(is_last, other.is_last))
 			)
 		{
@@ -174,7 +171,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return lhs.base() == rhs.base() && lhs.is_end() == rhs.is_end();
+		return lhs.is_end() == rhs.is_end() && (lhs.is_end() || lhs.base() == rhs.base());
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
@@ -184,7 +181,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return lhs.base() < rhs.base() || (lhs.base() == rhs.base() && !lhs.is_end() && rhs.is_end());
+		return !lhs.is_end() && (rhs.is_end() || lhs.base() < rhs.base());
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
@@ -204,7 +201,11 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR decltype(std::declval<Iterator1>() - std::declval<Iterator2>())
 	operator-(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return (lhs.base() - rhs.base()) / lhs.width() + (lhs.is_end() ? 1 : 0) - (rhs.is_end() ? 1 : 0);
+		return lhs.is_end() && rhs.is_end() ? 0
+			: lhs.is_end() ? (lhs.end() - rhs.base() + lhs.width() - 1) / lhs.width()
+			: rhs.is_end() ? -((rhs.end() - lhs.base() + lhs.width() - 1) / lhs.width())
+			: (lhs.base() - rhs.base()) / lhs.width()
+			;
 	}
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR sprout::step_iterator<Iterator>
diff --git a/sprout/range/adaptor/steps.hpp b/sprout/range/adaptor/steps.hpp
index 9e4e90d..015d1d0 100644
--- a/sprout/range/adaptor/steps.hpp
+++ b/sprout/range/adaptor/steps.hpp
@@ -46,19 +46,22 @@ namespace sprout {
 			explicit SPROUT_CONSTEXPR steps_range(range_type& range)
 				: base_type(
 					iterator(sprout::begin(range), 1, sprout::end(range)),
-					iterator(sprout::end(range), 1, sprout::end(range))
+					sprout::next(iterator(sprout::begin(range), 1, sprout::end(range)), sprout::size(range))
 					)
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, range_type& range)
 				: base_type(
 					iterator(sprout::begin(range), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					sprout::next(iterator(sprout::begin(range), width, sprout::end(range)), sprout::size(range))
 					)
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, difference_type init, range_type& range)
 				: base_type(
-					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min(init, sprout::size(range))), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(init, sprout::size(range))), width, sprout::end(range)),
+					sprout::next(
+						iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(init, sprout::size(range))), width, sprout::end(range)),
+						sprout::size(range)
+						)
 					)
 			{}
 		};
-- 
2.43.0


From 426c21a527345a3128f9643fe3434e2d3cf8635b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:28 +0000
Subject: [PATCH 039/277] fix: separated size_enum_iterator moved to the wrong
 element for negative distances and indexing

---
 sprout/iterator/size_enum_iterator.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sprout/iterator/size_enum_iterator.hpp b/sprout/iterator/size_enum_iterator.hpp
index 5dd6d0f..d29b39f 100644
--- a/sprout/iterator/size_enum_iterator.hpp
+++ b/sprout/iterator/size_enum_iterator.hpp
@@ -162,6 +162,10 @@ namespace sprout {
 		iterator_type current;
 		value_type sep_size;
 		bool is_sep;
+	private:
+		SPROUT_CONSTEXPR size_enum_iterator advance_impl(difference_type n) const {
+			return size_enum_iterator(current + (n >= 0 ? n / 2 : -((1 - n) / 2)), sep_size, n % 2 != 0);
+		}
 	public:
 		SPROUT_CONSTEXPR size_enum_iterator()
 			: current(), sep_size(), is_sep()
@@ -238,23 +242,23 @@ namespace sprout {
 			return temp;
 		}
 		SPROUT_CONSTEXPR size_enum_iterator operator+(difference_type n) const {
-			return size_enum_iterator(current + (n + is_sep) / 2, sep_size, (n + is_sep) % 2);
+			return advance_impl(n + is_sep);
 		}
 		SPROUT_CONSTEXPR size_enum_iterator operator-(difference_type n) const {
-			return size_enum_iterator(current - (n - is_sep) / 2, sep_size, (n - is_sep) % 2);
+			return advance_impl(is_sep - n);
 		}
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator+=(difference_type n) {
-			size_enum_iterator temp(current + (n + is_sep) / 2, sep_size, (n + is_sep) % 2);
+			size_enum_iterator temp(*this + n);
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator-=(difference_type n) {
-			size_enum_iterator temp(current - (n - is_sep) / 2, sep_size, (n - is_sep) % 2);
+			size_enum_iterator temp(*this - n);
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CONSTEXPR reference operator[](difference_type n) const {
-			return sprout::size(current[(n + is_sep) / 2]);
+			return *(*this + n);
 		}
 		SPROUT_CONSTEXPR size_enum_iterator next() const {
 			return is_sep
-- 
2.43.0


From 254891813ae3b568d2b88ac7cb1422e882801282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:42 +0000
Subject: [PATCH 040/277] fix: difference of separated size_enum_iterators was
 wrong

---
 sprout/iterator/size_enum_iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/iterator/size_enum_iterator.hpp b/sprout/iterator/size_enum_iterator.hpp
index d29b39f..8702fdf 100644
--- a/sprout/iterator/size_enum_iterator.hpp
+++ b/sprout/iterator/size_enum_iterator.hpp
@@ -371,10 +371,10 @@ namespace sprout {
 		sprout::size_enum_iterator<Iterator2, true> const& rhs
 		)
 	{
-		return lhs.base() - rhs.base() + (
+		return (lhs.base() - rhs.base()) * 2 + (
 			lhs.is_separator()
-				? rhs.is_separator() ? 0 : -1
-				: rhs.is_separator() ? 1 : 0
+				? rhs.is_separator() ? 0 : 1
+				: rhs.is_separator() ? -1 : 0
 				)
 		;
 	}
-- 
2.43.0


From 512d877500c412c7e33c3503ead79fa3d5a920cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:42 +0000
Subject: [PATCH 041/277] fix: insert_iterator kept using the invalidated
 position after an insertion

---
 sprout/iterator/insert_iterator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/insert_iterator.hpp b/sprout/iterator/insert_iterator.hpp
index e18c9ad..8d86737 100644
--- a/sprout/iterator/insert_iterator.hpp
+++ b/sprout/iterator/insert_iterator.hpp
@@ -64,11 +64,13 @@ namespace sprout {
 			return iter;
 		}
 		SPROUT_CXX14_CONSTEXPR insert_iterator& operator=(typename container_type::value_type const& value) {
-			container->insert(iter, value);
+			iter = container->insert(iter, value);
+			++iter;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR insert_iterator& operator=(typename container_type::value_type&& value) {
-			container->insert(iter, sprout::move(value));
+			iter = container->insert(iter, sprout::move(value));
+			++iter;
 			return *this;
 		}
 		SPROUT_CONSTEXPR insert_iterator& operator*() const {
-- 
2.43.0


From 7a4722005e164012a49c68001f420e17e194e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:42 +0000
Subject: [PATCH 042/277] fix: remake_iterator random access moved the source
 iterator out of its range

---
 sprout/iterator/remake_iterator.hpp | 31 +++++++----------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/sprout/iterator/remake_iterator.hpp b/sprout/iterator/remake_iterator.hpp
index 3feeba2..82db1f7 100644
--- a/sprout/iterator/remake_iterator.hpp
+++ b/sprout/iterator/remake_iterator.hpp
@@ -42,30 +42,13 @@ namespace sprout {
 		typedef typename sprout::common_iterator_reference<DstIterator, SrcIterator>::type reference;
 	private:
 		SPROUT_CONSTEXPR remake_iterator advance_impl(difference_type n) const {
-			return n >= 0
-				? remake_iterator(
-					sprout::next(current, n),
-					begin_off - n >= 0 ? fst
-						: (end_off - begin_off >= sprout::distance(fst, lst_) && begin_off - n <= -sprout::distance(fst, lst_)) ? lst_
-						: begin_off <= 0
-							? sprout::next(current2, NS_SSCRISK_CEL_OR_SPROUT::min(NS_SSCRISK_CEL_OR_SPROUT::min(n, end_off), sprout::distance(current2, lst_)))
-							: sprout::next(current2, NS_SSCRISK_CEL_OR_SPROUT::min(NS_SSCRISK_CEL_OR_SPROUT::min(n - begin_off, end_off), sprout::distance(current2, lst_)))
-						,
-					fst, lst_,
-					begin_off - n, end_off - n
-					)
-				: remake_iterator(
-					sprout::next(current, n),
-					begin_off - n >= 0 ? fst
-						: (end_off - begin_off >= sprout::distance(fst, lst_) && begin_off - n <= -sprout::distance(fst, lst_)) ? lst_
-						: begin_off >= -sprout::distance(fst, lst_)
-							? sprout::next(current2, n)
-							: sprout::next(current2, n - (begin_off + sprout::distance(fst, lst_)))
-						,
-					fst, lst_,
-					begin_off - n, end_off - n
-					)
-				;
+			return remake_iterator(
+				sprout::next(current, n),
+				begin_off - n >= 0 ? fst
+					: sprout::next(fst, NS_SSCRISK_CEL_OR_SPROUT::min(n - begin_off, NS_SSCRISK_CEL_OR_SPROUT::min(end_off - begin_off, difference_type(sprout::distance(fst, lst_))))),
+				fst, lst_,
+				begin_off - n, end_off - n
+				);
 		}
 	protected:
 		iterator_type current;
-- 
2.43.0


From 9fefc566766fd00df971251e91e61dbdc37c8491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:45 +0000
Subject: [PATCH 043/277] fix: sprout::empty did not compile for containers
 other than C arrays

---
 sprout/container/container_range_traits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/container/container_range_traits.hpp b/sprout/container/container_range_traits.hpp
index 0d3881a..5027219 100644
--- a/sprout/container/container_range_traits.hpp
+++ b/sprout/container/container_range_traits.hpp
@@ -142,7 +142,7 @@ namespace sprout {
 	template<typename Container>
 	struct container_range_empty_default {
 	public:
-		static SPROUT_CONSTEXPR typename sprout::container_traits<Container const>::size_type
+		static SPROUT_CONSTEXPR bool
 		range_empty(Container const& cont) {
 			using sprout_container_range_detail::range_empty;
 			using sprout_adl::range_empty;
@@ -291,6 +291,7 @@ namespace sprout {
 		: public sprout::container_range_begin_default<Container>
 		, public sprout::container_range_end_default<Container>
 		, public sprout::container_range_size_default<Container>
+		, public sprout::container_range_empty_default<Container>
 		, public sprout::container_range_front_default<Container>
 		, public sprout::container_range_back_default<Container>
 		, public sprout::container_range_subscript_at_default<Container>
-- 
2.43.0


From e4b5aa0d66d8c833541ff2010ba6df6e05101b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:45 +0000
Subject: [PATCH 044/277] fix: the removed range adaptor did not compile

---
 sprout/range/adaptor/removed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/removed.hpp b/sprout/range/adaptor/removed.hpp
index 32b8cbd..5e1d260 100644
--- a/sprout/range/adaptor/removed.hpp
+++ b/sprout/range/adaptor/removed.hpp
@@ -50,8 +50,8 @@ namespace sprout {
 			removed_range(removed_range const&) = default;
 			SPROUT_CONSTEXPR removed_range(range_type& range, value_type const& value)
 				: base_type(
-					iterator(sprout::begin(range), typename iterator::predicate_type(value)),
-					iterator(sprout::end(range), typename iterator::predicate_type(value))
+					iterator(typename iterator::predicate_type(value), sprout::begin(range), sprout::end(range)),
+					iterator(typename iterator::predicate_type(value), sprout::end(range), sprout::end(range))
 					)
 			{}
 		};
-- 
2.43.0


From 413a042472f033e0a428f95b9f0546875b6a917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:45 +0000
Subject: [PATCH 045/277] fix: clamp_iterator did not compile over mutable
 elements and its subscript dangled

---
 sprout/iterator/clamp_iterator.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 8612ee7..9ae9b9d 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -24,10 +24,20 @@ namespace sprout {
 	//
 	template<typename Iterator, typename Compare = NS_SSCRISK_CEL_OR_SPROUT::less<typename std::iterator_traits<Iterator>::value_type> >
 	class clamp_iterator
-		: public sprout::detail::iterator_base<Iterator>::type
+		: public sprout::detail::iterator_base<
+			Iterator,
+			sprout::use_default, sprout::use_default, sprout::use_default,
+			typename std::iterator_traits<Iterator>::value_type const*,
+			typename std::iterator_traits<Iterator>::value_type
+		>::type
 	{
 	private:
-		typedef typename sprout::detail::iterator_base<Iterator>::type base_type;
+		typedef typename sprout::detail::iterator_base<
+			Iterator,
+			sprout::use_default, sprout::use_default, sprout::use_default,
+			typename std::iterator_traits<Iterator>::value_type const*,
+			typename std::iterator_traits<Iterator>::value_type
+		>::type base_type;
 	public:
 		typedef Iterator iterator_type;
 		typedef Compare compare_type;
-- 
2.43.0


From d045a6b6a6520da216065e57ebacf86d5691c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:21 +0000
Subject: [PATCH 046/277] fix: the removed_if range adaptor did not compile

---
 sprout/range/adaptor/removed_if.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/removed_if.hpp b/sprout/range/adaptor/removed_if.hpp
index 3beeff5..4ff6b65 100644
--- a/sprout/range/adaptor/removed_if.hpp
+++ b/sprout/range/adaptor/removed_if.hpp
@@ -50,8 +50,8 @@ namespace sprout {
 			removed_if_range(removed_if_range const&) = default;
 			SPROUT_CONSTEXPR removed_if_range(range_type& range, Predicate pred)
 				: base_type(
-					iterator(sprout::begin(range), typename iterator::predicate_type(pred)),
-					iterator(sprout::end(range), typename iterator::predicate_type(pred))
+					iterator(typename iterator::predicate_type(pred), sprout::begin(range), sprout::end(range)),
+					iterator(typename iterator::predicate_type(pred), sprout::end(range), sprout::end(range))
 					)
 			{}
 		};
-- 
2.43.0


From 3edeee2f1c6fbdfb5ca071fc43e12406d86e5201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:21 +0000
Subject: [PATCH 047/277] fix: piping a range into the blanked adaptor did not
 compile

---
 sprout/range/adaptor/blanked.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/blanked.hpp b/sprout/range/adaptor/blanked.hpp
index 1b4ea53..b1d5f88 100644
--- a/sprout/range/adaptor/blanked.hpp
+++ b/sprout/range/adaptor/blanked.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 				difference_type n
 				)
 				: base_type(
-					iterator(value_type(), NS_SSCRISK_CEL_OR_SPROUT::min(n, sprout::size(range))),
+					iterator(value_type(), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(n, sprout::size(range))),
 					iterator(value_type(), 0)
 					)
 			{}
@@ -70,7 +70,7 @@ namespace sprout {
 				value_type const& value
 				)
 				: base_type(
-					iterator(value, NS_SSCRISK_CEL_OR_SPROUT::min(n, sprout::size(range))),
+					iterator(value, NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(n, sprout::size(range))),
 					iterator(value, 0)
 					)
 			{}
-- 
2.43.0


From 5da89e0d8be0dae3412d091e2399750684f486e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:21 +0000
Subject: [PATCH 048/277] fix: limited::multiplies divided the smallest value
 by -1 and saturated products of negative operands wrongly

---
 sprout/utility/limited.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/utility/limited.hpp b/sprout/utility/limited.hpp
index a33ad78..480f98d 100644
--- a/sprout/utility/limited.hpp
+++ b/sprout/utility/limited.hpp
@@ -36,13 +36,13 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR typename sprout::arithmetic_promote<T, U>::type
 		multiplies(T const& lhs, U const& rhs) {
 			typedef typename sprout::arithmetic_promote<T, U>::type type;
-			return lhs > 0 && rhs > 0 && sprout::numeric_limits<type>::max() / lhs + (sprout::numeric_limits<type>::max() % lhs ? 1 : 0) <= rhs
+			return lhs > 0 && rhs > 0 && sprout::numeric_limits<type>::max() / lhs < rhs
 					? sprout::numeric_limits<type>::max()
-				: lhs > 0 && rhs < 0 && sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0) <= lhs
+				: lhs > 0 && rhs < 0 && rhs < sprout::numeric_limits<type>::min() / lhs
 					? sprout::numeric_limits<type>::min()
-				: lhs < 0 && rhs > 0 && sprout::numeric_limits<type>::min() / lhs + (sprout::numeric_limits<type>::min() % lhs ? 1 : 0) <= rhs
+				: lhs < 0 && rhs > 0 && lhs < sprout::numeric_limits<type>::min() / rhs
 					? sprout::numeric_limits<type>::min()
-				: lhs < 0 && rhs < 0 && -(sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0)) >= lhs
+				: lhs < 0 && rhs < 0 && lhs < sprout::numeric_limits<type>::max() / rhs
 					? sprout::numeric_limits<type>::max()
 				: lhs * rhs
 				;
-- 
2.43.0


From 8d1e3b3ec73a4b4a6a6f55b331e9dcc678237ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:37 +0000
Subject: [PATCH 049/277] fix: elements of filled and blanked ranges were
 references into a temporary iterator

---
 sprout/iterator/value_iterator.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/value_iterator.hpp b/sprout/iterator/value_iterator.hpp
index c506dae..33dced1 100644
--- a/sprout/iterator/value_iterator.hpp
+++ b/sprout/iterator/value_iterator.hpp
@@ -32,7 +32,11 @@ namespace sprout {
 			typename sprout::value_holder<T>::value_type,
 			std::ptrdiff_t,
 			typename sprout::value_holder<T>::mutable_or_const_pointer,
-			typename sprout::value_holder<T>::mutable_or_const_reference
+			typename std::conditional<
+				std::is_reference<T>::value,
+				typename sprout::value_holder<T>::mutable_or_const_reference,
+				typename sprout::value_holder<T>::value_type
+			>::type
 		>
 	{
 	public:
@@ -48,7 +52,11 @@ namespace sprout {
 			typename sprout::value_holder<T>::value_type,
 			std::ptrdiff_t,
 			typename sprout::value_holder<T>::mutable_or_const_pointer,
-			typename sprout::value_holder<T>::mutable_or_const_reference
+			typename std::conditional<
+				std::is_reference<T>::value,
+				typename sprout::value_holder<T>::mutable_or_const_reference,
+				typename sprout::value_holder<T>::value_type
+			>::type
 		> base_type;
 	public:
 		typedef typename base_type::iterator_category iterator_category;
-- 
2.43.0


From 57c0667957c3401bf03ce63916fe390b0ddcfb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:12 +0000
Subject: [PATCH 050/277] fix: the moved range adaptor exchanged begin and end

---
 sprout/range/adaptor/moved.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/moved.hpp b/sprout/range/adaptor/moved.hpp
index c1c8b47..0f00559 100644
--- a/sprout/range/adaptor/moved.hpp
+++ b/sprout/range/adaptor/moved.hpp
@@ -42,8 +42,8 @@ namespace sprout {
 			moved_range(moved_range const&) = default;
 			explicit SPROUT_CONSTEXPR moved_range(range_type& range)
 				: base_type(
-					iterator(sprout::end(range)),
-					iterator(sprout::begin(range))
+					iterator(sprout::begin(range)),
+					iterator(sprout::end(range))
 					)
 			{}
 		};
-- 
2.43.0


From 0679acbf1a0bcbbd5f194c8110b547d0b539b1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 051/277] fix: container iterators did not convert to
 const_iterator

---
 sprout/iterator/index_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/index_iterator.hpp b/sprout/iterator/index_iterator.hpp
index 33b4bca..a15d8dc 100644
--- a/sprout/iterator/index_iterator.hpp
+++ b/sprout/iterator/index_iterator.hpp
@@ -109,8 +109,8 @@ namespace sprout {
 		SPROUT_CONSTEXPR index_iterator(typename holder_type::param_type p, difference_type index)
 			: holder_(p), index_(index)
 		{}
-		SPROUT_CONSTEXPR operator index_iterator<const_container_type>() const {
-			return index_iterator<const_container_type>(holder_.get(), index_);
+		SPROUT_CONSTEXPR operator index_iterator<const_container_type, ConvertibleToPointer, Subscript>() const {
+			return index_iterator<const_container_type, ConvertibleToPointer, Subscript>(holder_.get(), index_);
 		}
 		SPROUT_CONSTEXPR typename holder_type::mutable_or_const_reference base() const {
 			return holder_.get();
-- 
2.43.0


From 1e393a6733768053d3d59e960384d31127d7ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 052/277] fix: ptr_index_iterator did not convert to its const
 form

---
 sprout/iterator/ptr_index_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/ptr_index_iterator.hpp b/sprout/iterator/ptr_index_iterator.hpp
index 73ecc0a..ef61b25 100644
--- a/sprout/iterator/ptr_index_iterator.hpp
+++ b/sprout/iterator/ptr_index_iterator.hpp
@@ -57,8 +57,8 @@ namespace sprout {
 		SPROUT_CONSTEXPR ptr_index_iterator(pointer p, difference_type index)
 			: p_(p), index_(index)
 		{}
-		SPROUT_CONSTEXPR operator ptr_index_iterator<const_pointer>() const {
-			return ptr_index_iterator<const_pointer>(p_, index_);
+		SPROUT_CONSTEXPR operator ptr_index_iterator<T const, ConvertibleToPointer>() const {
+			return ptr_index_iterator<T const, ConvertibleToPointer>(p_, index_);
 		}
 		SPROUT_CONSTEXPR pointer base() const {
 			return p_;
-- 
2.43.0


From ddefb987844be79a56dd48b710e40fc06fe4d728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 053/277] fix: equality of sub_arrays of different lengths
 compared a prefix or read past the window

---
 sprout/sub_array/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/sub_array/comparison.hpp b/sprout/sub_array/comparison.hpp
index 3d59886..2d31b8e 100644
--- a/sprout/sub_array/comparison.hpp
+++ b/sprout/sub_array/comparison.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::sub_array<Container> const& lhs, sprout::sub_array<Container> const& rhs) {
-		return sprout::equal(sprout::begin(lhs), sprout::end(lhs), sprout::begin(rhs));
+		return sprout::equal(sprout::begin(lhs), sprout::end(lhs), sprout::begin(rhs), sprout::end(rhs));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From 9c659ded9ba2a6c95deafda42c9387f79aa5f505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 054/277] fix: pushing to and popping from a sub_array over a
 reference did not compile

---
 sprout/sub_array/sub_array.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/sub_array/sub_array.hpp b/sprout/sub_array/sub_array.hpp
index 4fbf582..aebfc9f 100644
--- a/sprout/sub_array/sub_array.hpp
+++ b/sprout/sub_array/sub_array.hpp
@@ -470,30 +470,30 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR void push_back(value_type const& x) {
-			impl_.array_[impl_.to_last_] = x;
+			get_internal()[impl_.to_last_] = x;
 			++impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_back(value_type&& x) {
-			impl_.array_[impl_.to_last_] = sprout::move(x);
+			get_internal()[impl_.to_last_] = sprout::move(x);
 			++impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void pop_back() {
-			impl_.array_[impl_.to_last_ - 1] = value_type();
+			get_internal()[impl_.to_last_ - 1] = value_type();
 			--impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void drop_back() {
 			--impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_front(value_type const& x) {
-			impl_.array_[impl_.to_first_ - 1] = x;
+			get_internal()[impl_.to_first_ - 1] = x;
 			--impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_front(value_type&& x) {
-			impl_.array_[impl_.to_first_ - 1] = sprout::move(x);
+			get_internal()[impl_.to_first_ - 1] = sprout::move(x);
 			--impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void pop_front() {
-			impl_.array_[impl_.to_first_] = value_type();
+			get_internal()[impl_.to_first_] = value_type();
 			++impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void drop_front() {
-- 
2.43.0


From c5c65f47256fcae35e97501a8cf42ac4e93b909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 055/277] fix: sub_array::window and offset on views of
 references did not compile and window(first) cut the end off

---
 sprout/sub_array/sub_array.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/sub_array/sub_array.hpp b/sprout/sub_array/sub_array.hpp
index aebfc9f..f304d60 100644
--- a/sprout/sub_array/sub_array.hpp
+++ b/sprout/sub_array/sub_array.hpp
@@ -417,7 +417,7 @@ namespace sprout {
 
 		SPROUT_CXX14_CONSTEXPR sub_array& window(difference_type to_first = 0) {
 			impl_.to_first_ = to_first;
-			impl_.to_last_ = size();
+			impl_.to_last_ = sprout::size(get_internal());
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR sub_array& window(difference_type to_first, difference_type to_last) {
@@ -426,10 +426,10 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR sub_array window(difference_type to_first = 0) const {
-			return sub_array(impl_.array_, to_first, size());
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), to_first, sprout::size(get_internal()));
 		}
 		SPROUT_CONSTEXPR sub_array window(difference_type to_first, difference_type to_last) const {
-			return sub_array(impl_.array_, to_first, to_last);
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), to_first, to_last);
 		}
 		SPROUT_CONSTEXPR sub_array cwindow(difference_type to_first = 0) const {
 			return window(to_first);
@@ -444,7 +444,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR sub_array offset(difference_type from_begin = 0, difference_type from_end = 0) const {
-			return sub_array(impl_.array_, impl_.to_first_ + from_begin, impl_.to_last_ + from_end);
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), impl_.to_first_ + from_begin, impl_.to_last_ + from_end);
 		}
 		SPROUT_CONSTEXPR sub_array coffset(difference_type from_begin = 0, difference_type from_end = 0) const {
 			return offset(from_begin, from_end);
-- 
2.43.0


From 7eaed47d1eb246bcaeba4aab491cb868fb599bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 056/277] fix: data() of a sub_array over a C array did not
 compile

---
 sprout/sub_array/sub_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/sub_array/sub_array.hpp b/sprout/sub_array/sub_array.hpp
index f304d60..b018ecf 100644
--- a/sprout/sub_array/sub_array.hpp
+++ b/sprout/sub_array/sub_array.hpp
@@ -369,10 +369,10 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR pointer data() {
-			return get_internal().data() + impl_.to_first_;
+			return sprout::data(get_internal()) + impl_.to_first_;
 		}
 		SPROUT_CONSTEXPR const_pointer data() const {
-			return get_internal().data() + impl_.to_first_;
+			return sprout::data(get_internal()) + impl_.to_first_;
 		}
 		// others:
 		SPROUT_CXX14_CONSTEXPR pointer c_array() {
-- 
2.43.0


From cded412f8f346f8dec7491028e4396118d7c567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 057/277] fix: sized_pit iterated over its capacity, and
 assignment and swap left its size behind

---
 sprout/sized_pit/sized_pit.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sprout/sized_pit/sized_pit.hpp b/sprout/sized_pit/sized_pit.hpp
index f9fd429..472b1b1 100644
--- a/sprout/sized_pit/sized_pit.hpp
+++ b/sprout/sized_pit/sized_pit.hpp
@@ -60,10 +60,12 @@ namespace sprout {
 		{}
 		SPROUT_CXX14_CONSTEXPR sized_pit& operator=(sized_pit const& rhs) {
 			elem = rhs.elem;
+			size_ = rhs.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR sized_pit& operator=(sized_pit&& rhs) {
 			elem = sprout::move(rhs.elem);
+			size_ = rhs.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR sized_pit& operator=(value_type const& rhs) {
@@ -78,13 +80,14 @@ namespace sprout {
 		SPROUT_NOEXCEPT_IF_EXPR(sprout::swap(elem, other.elem))
 		{
 			sprout::swap(elem, other.elem);
+			sprout::swap(size_, other.size_);
 		}
 		// iterators:
 		SPROUT_CXX14_CONSTEXPR iterator begin() {
-			return iterator(elem, enumerable_size);
+			return iterator(elem, size_);
 		}
 		SPROUT_CONSTEXPR const_iterator begin() const {
-			return const_iterator(elem, enumerable_size);
+			return const_iterator(elem, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR iterator end() SPROUT_NOEXCEPT {
 			return iterator(elem, 0);
@@ -105,7 +108,7 @@ namespace sprout {
 			return const_reverse_iterator(begin());
 		}
 		SPROUT_CONSTEXPR const_iterator cbegin() const SPROUT_NOEXCEPT {
-			return const_iterator(elem, enumerable_size);
+			return const_iterator(elem, size_);
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
 			return const_iterator(elem, 0);
-- 
2.43.0


From 1c70222f566d45ba4d8150bea123dd2b8768d989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:36 +0000
Subject: [PATCH 058/277] fix: hashing pit and sized_pit did not compile

---
 sprout/pit/hash.hpp       | 2 +-
 sprout/sized_pit/hash.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/pit/hash.hpp b/sprout/pit/hash.hpp
index 36714df..cf9969a 100644
--- a/sprout/pit/hash.hpp
+++ b/sprout/pit/hash.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR std::size_t
 	hash_value(sprout::pit<Container> const& v) {
-		return sprout::to_hash(v.elem);
+		return sprout::to_hash(v.front());
 	}
 }	// namespace sprout
 
diff --git a/sprout/sized_pit/hash.hpp b/sprout/sized_pit/hash.hpp
index a563467..5a090ef 100644
--- a/sprout/sized_pit/hash.hpp
+++ b/sprout/sized_pit/hash.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR std::size_t
 	hash_value(sprout::sized_pit<Container> const& v) {
-		return sprout::to_hash(v.elem);
+		return sprout::to_hash(v.front());
 	}
 }	// namespace sprout
 
-- 
2.43.0


From cbc89726d7c7779805eb86c741a75883f98a0df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:40 +0000
Subject: [PATCH 059/277] fix: the fit:: structural operations did not compile
 (container_traits has no internal_type)

---
 sprout/operation/fit/append.hpp          | 10 +++++++---
 sprout/operation/fit/append_back.hpp     | 10 +++++++---
 sprout/operation/fit/append_front.hpp    | 10 +++++++---
 sprout/operation/fit/erase.hpp           | 10 +++++++---
 sprout/operation/fit/erase_n.hpp         | 10 +++++++---
 sprout/operation/fit/insert.hpp          | 10 +++++++---
 sprout/operation/fit/insert_n.hpp        | 10 +++++++---
 sprout/operation/fit/pop_back.hpp        | 10 +++++++---
 sprout/operation/fit/pop_back_n.hpp      | 10 +++++++---
 sprout/operation/fit/pop_front.hpp       | 10 +++++++---
 sprout/operation/fit/pop_front_n.hpp     | 10 +++++++---
 sprout/operation/fit/push_back.hpp       | 10 +++++++---
 sprout/operation/fit/push_back_n.hpp     | 10 +++++++---
 sprout/operation/fit/push_front.hpp      | 10 +++++++---
 sprout/operation/fit/push_front_n.hpp    | 10 +++++++---
 sprout/operation/fit/realign.hpp         | 10 +++++++---
 sprout/operation/fit/realign_to.hpp      | 10 +++++++---
 sprout/operation/fit/resize.hpp          | 10 +++++++---
 sprout/operation/fit/resize_backward.hpp | 10 +++++++---
 sprout/operation/fit/set.hpp             | 10 +++++++---
 20 files changed, 140 insertions(+), 60 deletions(-)

diff --git a/sprout/operation/fit/append.hpp b/sprout/operation/fit/append.hpp
index 7b72f91..5e2614f 100644
--- a/sprout/operation/fit/append.hpp
+++ b/sprout/operation/fit/append.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_HPP
 #define SPROUT_OPERATION_FIT_APPEND_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/append.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct append {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::append<Container, Input>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/append_back.hpp b/sprout/operation/fit/append_back.hpp
index f2495a1..4d45e1e 100644
--- a/sprout/operation/fit/append_back.hpp
+++ b/sprout/operation/fit/append_back.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_BACK_HPP
 #define SPROUT_OPERATION_FIT_APPEND_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/append_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -24,9 +26,11 @@ namespace sprout {
 			template<typename Container, typename Input>
 			struct append_back {
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append_back<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::append_back<Container, Input>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/append_front.hpp b/sprout/operation/fit/append_front.hpp
index a364222..31520cb 100644
--- a/sprout/operation/fit/append_front.hpp
+++ b/sprout/operation/fit/append_front.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_FRONT_HPP
 #define SPROUT_OPERATION_FIT_APPEND_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/append_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -24,9 +26,11 @@ namespace sprout {
 			template<typename Container, typename Input>
 			struct append_front {
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append_front<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::append_front<Container, Input>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/erase.hpp b/sprout/operation/fit/erase.hpp
index 7939b44..1bbc5fb 100644
--- a/sprout/operation/fit/erase.hpp
+++ b/sprout/operation/fit/erase.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_ERASE_HPP
 #define SPROUT_OPERATION_FIT_ERASE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/erase.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct erase {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::erase<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::erase<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/erase_n.hpp b/sprout/operation/fit/erase_n.hpp
index 2266afa..2a711d6 100644
--- a/sprout/operation/fit/erase_n.hpp
+++ b/sprout/operation/fit/erase_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_ERASE_N_HPP
 #define SPROUT_OPERATION_FIT_ERASE_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/erase_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct erase_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::erase_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::erase_n<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/insert.hpp b/sprout/operation/fit/insert.hpp
index 7ec7c34..5c3967b 100644
--- a/sprout/operation/fit/insert.hpp
+++ b/sprout/operation/fit/insert.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_INSERT_HPP
 #define SPROUT_OPERATION_FIT_INSERT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/insert.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct insert {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::insert<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::insert<Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/insert_n.hpp b/sprout/operation/fit/insert_n.hpp
index 48ee75b..79560f6 100644
--- a/sprout/operation/fit/insert_n.hpp
+++ b/sprout/operation/fit/insert_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_INSERT_N_HPP
 #define SPROUT_OPERATION_FIT_INSERT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/insert_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct insert_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::insert_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::insert_n<N, Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_back.hpp b/sprout/operation/fit/pop_back.hpp
index 2486e27..b11c9df 100644
--- a/sprout/operation/fit/pop_back.hpp
+++ b/sprout/operation/fit/pop_back.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_BACK_HPP
 #define SPROUT_OPERATION_FIT_POP_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct pop_back {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_back<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_back<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_back_n.hpp b/sprout/operation/fit/pop_back_n.hpp
index dd491dd..0af3b21 100644
--- a/sprout/operation/fit/pop_back_n.hpp
+++ b/sprout/operation/fit/pop_back_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_BACK_N_HPP
 #define SPROUT_OPERATION_FIT_POP_BACK_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_back_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct pop_back_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_back_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_back_n<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_front.hpp b/sprout/operation/fit/pop_front.hpp
index b34f6d7..07bd801 100644
--- a/sprout/operation/fit/pop_front.hpp
+++ b/sprout/operation/fit/pop_front.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_FRONT_HPP
 #define SPROUT_OPERATION_FIT_POP_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct pop_front {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_front<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_front<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_front_n.hpp b/sprout/operation/fit/pop_front_n.hpp
index a591b6c..a432b3c 100644
--- a/sprout/operation/fit/pop_front_n.hpp
+++ b/sprout/operation/fit/pop_front_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_FRONT_N_HPP
 #define SPROUT_OPERATION_FIT_POP_FRONT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_front_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct pop_front_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_front_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_front_n<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_back.hpp b/sprout/operation/fit/push_back.hpp
index b056ec2..1917a96 100644
--- a/sprout/operation/fit/push_back.hpp
+++ b/sprout/operation/fit/push_back.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_BACK_HPP
 #define SPROUT_OPERATION_FIT_PUSH_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct push_back {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_back<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_back<Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_back_n.hpp b/sprout/operation/fit/push_back_n.hpp
index 3dd2372..9c31ae4 100644
--- a/sprout/operation/fit/push_back_n.hpp
+++ b/sprout/operation/fit/push_back_n.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_BACK_N_HPP
 #define SPROUT_OPERATION_FIT_PUSH_BACK_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_back_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct push_back_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_back_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_back_n<N, Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_front.hpp b/sprout/operation/fit/push_front.hpp
index 589bfad..0b15c26 100644
--- a/sprout/operation/fit/push_front.hpp
+++ b/sprout/operation/fit/push_front.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_FRONT_HPP
 #define SPROUT_OPERATION_FIT_PUSH_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct push_front {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_front<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_front<Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_front_n.hpp b/sprout/operation/fit/push_front_n.hpp
index 7493c31..c1cb636 100644
--- a/sprout/operation/fit/push_front_n.hpp
+++ b/sprout/operation/fit/push_front_n.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_FRONT_N_HPP
 #define SPROUT_OPERATION_FIT_PUSH_FRONT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_front_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct push_front_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_front_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_front_n<N, Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/realign.hpp b/sprout/operation/fit/realign.hpp
index 3e65ad5..bc8061f 100644
--- a/sprout/operation/fit/realign.hpp
+++ b/sprout/operation/fit/realign.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_REALIGN_HPP
 #define SPROUT_OPERATION_FIT_REALIGN_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/realign.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct realign {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::realign<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::realign<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/realign_to.hpp b/sprout/operation/fit/realign_to.hpp
index 86e1557..7903a59 100644
--- a/sprout/operation/fit/realign_to.hpp
+++ b/sprout/operation/fit/realign_to.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_REALIGN_TO_HPP
 #define SPROUT_OPERATION_FIT_REALIGN_TO_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/realign_to.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct realign_to {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::realign_to<Result, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::realign_to<Result, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/resize.hpp b/sprout/operation/fit/resize.hpp
index 69e70a1..d9ed429 100644
--- a/sprout/operation/fit/resize.hpp
+++ b/sprout/operation/fit/resize.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_RESIZE_HPP
 #define SPROUT_OPERATION_FIT_RESIZE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/resize.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct resize {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::resize<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::resize<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/resize_backward.hpp b/sprout/operation/fit/resize_backward.hpp
index 00bdc8c..8669357 100644
--- a/sprout/operation/fit/resize_backward.hpp
+++ b/sprout/operation/fit/resize_backward.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_RESIZE_BACKWARD_HPP
 #define SPROUT_OPERATION_FIT_RESIZE_BACKWARD_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/resize_backward.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct resize_backward {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::resize_backward<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::resize_backward<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/set.hpp b/sprout/operation/fit/set.hpp
index 1089748..c5cacda 100644
--- a/sprout/operation/fit/set.hpp
+++ b/sprout/operation/fit/set.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_SET_HPP
 #define SPROUT_OPERATION_FIT_SET_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/set.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct set {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::set<Container, T>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::set<Container, T>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
-- 
2.43.0


From 6f2b5a3c02cafd6e78999fe1737382b200f462c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 060/277] fix: fit::erase_n gave a window one element shorter
 whatever the count

---
 sprout/operation/fit/erase_n.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/operation/fit/erase_n.hpp b/sprout/operation/fit/erase_n.hpp
index 2a711d6..8a2701a 100644
--- a/sprout/operation/fit/erase_n.hpp
+++ b/sprout/operation/fit/erase_n.hpp
@@ -46,7 +46,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::erase_n<N>(cont, pos)),
 				sprout::internal_begin_offset(cont),
-				sprout::internal_end_offset(cont) - 1
+				sprout::internal_end_offset(cont) - N
 				);
 		}
 		template<std::size_t N, typename Container>
@@ -55,7 +55,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::erase_n<N>(cont, pos)),
 				sprout::internal_begin_offset(cont),
-				sprout::internal_end_offset(cont) - 1
+				sprout::internal_end_offset(cont) - N
 				);
 		}
 	}	// namespace fit
-- 
2.43.0


From ad58e7797b8078d5dea75c3793a3eabe2f8ced86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 061/277] fix: fit::realign_to gave a window beyond the result
 when the source is longer

---
 sprout/operation/fit/realign_to.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sprout/operation/fit/realign_to.hpp b/sprout/operation/fit/realign_to.hpp
index 7903a59..26e6658 100644
--- a/sprout/operation/fit/realign_to.hpp
+++ b/sprout/operation/fit/realign_to.hpp
@@ -36,6 +36,16 @@ namespace sprout {
 			};
 		}	// namespace results
 
+		namespace detail {
+			template<typename Result>
+			inline SPROUT_CONSTEXPR typename sprout::container_traits<Result>::difference_type
+			realign_to_size(typename sprout::container_traits<Result>::difference_type size) {
+				return size < static_cast<typename sprout::container_traits<Result>::difference_type>(sprout::container_traits<Result>::static_size)
+					? size
+					: static_cast<typename sprout::container_traits<Result>::difference_type>(sprout::container_traits<Result>::static_size)
+					;
+			}
+		}	// namespace detail
 		//
 		// realign_to
 		//
@@ -45,7 +55,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::realign_to<Result>(cont, v)),
 				0,
-				sprout::size(cont)
+				sprout::fit::detail::realign_to_size<Result>(sprout::size(cont))
 				);
 		}
 		template<typename Result, typename Container>
@@ -54,7 +64,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::realign_to<Result>(cont)),
 				0,
-				sprout::size(cont)
+				sprout::fit::detail::realign_to_size<Result>(sprout::size(cont))
 				);
 		}
 	}	// namespace fit
-- 
2.43.0


From e3d4ffe6fcf91f74c40fd4989ae17d8bfa769624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 062/277] fix: rbegin and rend of a non-const string did not
 compile

---
 sprout/string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index f9f42f2..d268f24 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -486,7 +486,7 @@ namespace sprout {
 #endif
 		SPROUT_CXX14_CONSTEXPR reverse_iterator
 		rbegin() SPROUT_NOEXCEPT {
-			return const_reverse_iterator(end());
+			return reverse_iterator(end());
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator
 		rbegin() const SPROUT_NOEXCEPT {
@@ -494,7 +494,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator
 		rend() SPROUT_NOEXCEPT {
-			return const_reverse_iterator(begin());
+			return reverse_iterator(begin());
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator
 		rend() const SPROUT_NOEXCEPT {
-- 
2.43.0


From 9797ad91b76540f9a9df6568782397847aa480aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 063/277] fix: string searches for an iterator: find_last_of
 started at 0, the find_*_not_of did not compile

---
 sprout/string/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index d268f24..c35df3f 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1016,7 +1016,7 @@ namespace sprout {
 			is_string_iterator<StringConstIterator>::value,
 			size_type
 		>::type
-		find_last_of(StringConstIterator s, size_type pos = 0) const {
+		find_last_of(StringConstIterator s, size_type pos = npos) const {
 			return find_last_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
@@ -1033,7 +1033,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_first_not_of(StringConstIterator s, size_type pos = 0) const {
-			return sprout::string_detail::find_first_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_first_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
@@ -1049,7 +1049,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_last_not_of(StringConstIterator s, size_type pos = npos) const {
-			return sprout::string_detail::find_last_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_last_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From e11a7719ccfcea358af9c1fae85b55a502ab0a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 064/277] fix: assigning too many copies of a character to a
 string throws length_error

---
 sprout/string/string.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index c35df3f..e80af18 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -283,12 +283,6 @@ namespace sprout {
 				)
 		{}
 		SPROUT_CXX14_CONSTEXPR void
-		maxcheck(size_type n) const {
-			if (n > max_size()) {
-				throw std::out_of_range("basic_string<>: index out of range");
-			}
-		}
-		SPROUT_CXX14_CONSTEXPR void
 		lengthcheck(size_type n) const {
 			if (n > max_size()) {
 				throw std::length_error("basic_string<>: length exceeded");
@@ -677,7 +671,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		assign(size_type n, value_type c) {
-			maxcheck(n);
+			lengthcheck(n);
 			traits_type::assign(begin(), n, c);
 			put_terminator(n);
 			return *this;
-- 
2.43.0


From 34e7c865ac28867bbf24c1ef8c864b9a448aecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 065/277] fix: assigning an empty string, or appending or
 copying from the end position, threw out_of_range

---
 sprout/string/string.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index e80af18..d5959a3 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -604,7 +604,9 @@ namespace sprout {
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(basic_string<T, N2> const& str, size_type pos, size_type n = npos) {
-			str.rangecheck(pos);
+			if (str.size() < pos) {
+				throw std::out_of_range("basic_string<>: index out of range");
+			}
 			size_type rlen = n != npos
 				? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
 				: str.size() - pos
@@ -651,7 +653,9 @@ namespace sprout {
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		assign(basic_string<T, N2, Traits> const& str, size_type pos, size_type n = npos) {
-			str.rangecheck(pos);
+			if (str.size() < pos) {
+				throw std::out_of_range("basic_string<>: index out of range");
+			}
 			size_type rlen = n != npos
 				? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
 				: str.size() - pos
@@ -721,7 +725,9 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR size_type
 		copy(value_type* s, size_type n, size_type pos = 0) const {
-			rangecheck(pos);
+			if (size() < pos) {
+				throw std::out_of_range("basic_string<>: index out of range");
+			}
 			size_type llen = NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos);
 			traits_type::copy(s, begin() + pos, llen);
 			return llen;
@@ -944,7 +950,9 @@ namespace sprout {
 		template<typename StringIterator>
 		SPROUT_CXX14_CONSTEXPR size_type
 		copy(StringIterator s, size_type n, size_type pos = 0) const {
-			rangecheck(pos);
+			if (size() < pos) {
+				throw std::out_of_range("basic_string<>: index out of range");
+			}
 			size_type llen = NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos);
 			traits_type::copy(s, begin() + pos, llen);
 			return llen;
-- 
2.43.0


From 88af10bd503c17e4a6371deb13d8acd8655118bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 066/277] fix: assigning or appending an input range one longer
 than the capacity overran the string

---
 sprout/string/string.hpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index d5959a3..87a28cc 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -298,15 +298,8 @@ namespace sprout {
 		template<typename InputIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		assign(InputIterator first, InputIterator last, std::input_iterator_tag*) {
-			iterator it = begin();
-			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
-					throw std::length_error("basic_string<>: length exceeded");
-				}
-				traits_type::assign(*it, *first);
-			}
-			put_terminator(sprout::distance(begin(), it));
-			return *this;
+			basic_string tmp = basic_string();
+			return assign(tmp.append(first, last));
 		}
 		template<typename ForwardIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
@@ -322,15 +315,15 @@ namespace sprout {
 		template<typename InputIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(InputIterator first, InputIterator last, std::input_iterator_tag*) {
-			iterator it = end();
-			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
+			basic_string tmp = basic_string();
+			size_type n = 0;
+			for (; first != last; ++first, ++n) {
+				if (!(n < max_size() - size())) {
 					throw std::length_error("basic_string<>: length exceeded");
 				}
-				traits_type::assign(*it, *first);
+				traits_type::assign(tmp[n], *first);
 			}
-			put_terminator(size() + sprout::distance(end(), it));
-			return *this;
+			return append(tmp.data(), n);
 		}
 		template<typename ForwardIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
-- 
2.43.0


From 0ee3f9438c646eb6a560d9afe3dceded73524b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 067/277] fix: appending a count whose sum with the size wraps
 around was not refused

---
 sprout/string/string.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 87a28cc..761d0af 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -289,6 +289,12 @@ namespace sprout {
 			}
 		}
 		SPROUT_CXX14_CONSTEXPR void
+		appendcheck(size_type n) const {
+			if (n > max_size() - size()) {
+				throw std::length_error("basic_string<>: length exceeded");
+			}
+		}
+		SPROUT_CXX14_CONSTEXPR void
 		put_terminator(size_type n) {
 			if (n < size()) {
 				traits_type::assign(begin() + n, size() - n, value_type());
@@ -608,7 +614,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(value_type const* s, size_type n) {
-			lengthcheck(size() + n);
+			appendcheck(n);
 			traits_type::move(end(), s, n);
 			put_terminator(size() + n);
 			return *this;
@@ -619,7 +625,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(size_type n, value_type c) {
-			lengthcheck(size() + n);
+			appendcheck(n);
 			traits_type::assign(end(), n, c);
 			put_terminator(size() + n);
 			return *this;
@@ -906,7 +912,7 @@ namespace sprout {
 			basic_string&
 		>::type
 		append(StringConstIterator s, size_type n) {
-			lengthcheck(size() + n);
+			appendcheck(n);
 			traits_type::move(end(), s, n);
 			put_terminator(size() + n);
 			return *this;
-- 
2.43.0


From 217bbab4d57269d7cbe79dcbc07269e7883148b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 068/277] fix: substr of a string cut the result at an embedded
 null character

---
 sprout/string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 761d0af..9c58c55 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -843,7 +843,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR basic_string
 		substr(size_type pos = 0, size_type n = npos) const {
-			return !(size() < pos) ? from_c_str(c_str() + pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos))
+			return !(size() < pos) ? basic_string(*this, pos, n)
 				: throw std::out_of_range("basic_string<>: index out of range")
 				;
 		}
-- 
2.43.0


From 2681be46c59efe4b389ff3032b12358a0853f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 069/277] fix: constructing a string from a position beyond the
 end of another read out of bounds

---
 sprout/string/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 9c58c55..f48122a 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -356,14 +356,16 @@ namespace sprout {
 		SPROUT_CONSTEXPR basic_string(basic_string const& str, size_type pos, size_type n = npos)
 			: impl_(
 				sprout::make_index_tuple<N>::make(),
-				str, pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+				str, pos, !(str.size() < pos) ? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+					: throw std::out_of_range("basic_string<>: index out of range")
 				)
 		{}
 		template<std::size_t N2, typename Enable = typename std::enable_if<(N2 < N)>::type>
 		SPROUT_CONSTEXPR basic_string(basic_string<T, N2, Traits> const& str, size_type pos, size_type n = npos)
 			: impl_(
 				sprout::make_index_tuple<N2>::make(),
-				str, pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+				str, pos, !(str.size() < pos) ? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+					: throw std::out_of_range("basic_string<>: index out of range")
 				)
 		{}
 		template<std::size_t N2 SPROUT_ENABLE_IF_WITH_ARRAY_IN_TEMPLATE_PARAMS((N2 - 1 <= N))>
-- 
2.43.0


From b16e4efb7aab3c8e641a1d19b6ece1ec71da7c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 070/277] fix: comparing strings ignored what follows an
 embedded null character

---
 sprout/string/char_traits.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sprout/string/char_traits.hpp b/sprout/string/char_traits.hpp
index 96bff81..21bb77a 100644
--- a/sprout/string/char_traits.hpp
+++ b/sprout/string/char_traits.hpp
@@ -94,8 +94,8 @@ namespace sprout {
 #endif
 		static SPROUT_CONSTEXPR int compare(char_type const* s1, char_type const* s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
-				sprout::ptr_index(s1), sprout::ptr_index(s1, n), char_type(),
-				sprout::ptr_index(s2), sprout::ptr_index(s2, n), char_type(),
+				sprout::ptr_index(s1), sprout::ptr_index(s1, n),
+				sprout::ptr_index(s2), sprout::ptr_index(s2, n),
 				sprout::detail::char_traits_lt<char_traits>()
 				);
 		}
@@ -164,24 +164,24 @@ namespace sprout {
 		template<typename ForwardIterator>
 		static SPROUT_CONSTEXPR int compare(char_type const* s1, ForwardIterator s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
-				sprout::ptr_index(s1), sprout::ptr_index(s1, n), char_type(),
-				s2, sprout::next(s2, n), char_type(),
+				sprout::ptr_index(s1), sprout::ptr_index(s1, n),
+				s2, sprout::next(s2, n),
 				sprout::detail::char_traits_lt<char_traits>()
 				);
 		}
 		template<typename ForwardIterator>
 		static SPROUT_CONSTEXPR int compare(ForwardIterator s1, char_type const* s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
-				s1, sprout::next(s1, n), char_type(),
-				sprout::ptr_index(s2), sprout::ptr_index(s2, n), char_type(),
+				s1, sprout::next(s1, n),
+				sprout::ptr_index(s2), sprout::ptr_index(s2, n),
 				sprout::detail::char_traits_lt<char_traits>()
 				);
 		}
 		template<typename ForwardIterator1, typename ForwardIterator2>
 		static SPROUT_CONSTEXPR int compare(ForwardIterator1 s1, ForwardIterator2 s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
-				s1, sprout::next(s1, n), char_type(),
-				s2, sprout::next(s2, n), char_type(),
+				s1, sprout::next(s1, n),
+				s2, sprout::next(s2, n),
 				sprout::detail::char_traits_lt<char_traits>()
 				);
 		}
-- 
2.43.0


From 8331d86fb7297aae5c588431dd9f9aafb79e88be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 071/277] fix: char_traits::move to the left over an
 overlapping range duplicated characters

---
 sprout/string/char_traits.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/sprout/string/char_traits.hpp b/sprout/string/char_traits.hpp
index 21bb77a..ae7978d 100644
--- a/sprout/string/char_traits.hpp
+++ b/sprout/string/char_traits.hpp
@@ -73,6 +73,15 @@ namespace sprout {
 				: found
 				;
 		}
+		template<typename Iterator1, typename Iterator2>
+		static SPROUT_CXX14_CONSTEXPR bool is_within(Iterator1 s1, Iterator2 s2, std::size_t n) {
+			for (; n; --n, ++s2) {
+				if (&*s1 == &*s2) {
+					return true;
+				}
+			}
+			return false;
+		}
 	public:
 		static SPROUT_CXX14_CONSTEXPR void assign(char_type& c1, char_type const& c2) SPROUT_NOEXCEPT {
 			c1 = c2;
@@ -114,7 +123,11 @@ namespace sprout {
 				);
 		}
 		static SPROUT_CXX14_CONSTEXPR char_type* move(char_type* s1, char_type const* s2, std::size_t n) {
-			sprout::copy_backward(s2, s2 + n, sprout::next(s1, n));
+			if (is_within(s1, s2, n)) {
+				sprout::copy_backward(s2, s2 + n, sprout::next(s1, n));
+			} else {
+				sprout::copy(s2, sprout::next(s2, n), s1);
+			}
 			return s1;
 		}
 		static SPROUT_CXX14_CONSTEXPR char_type* copy(char_type* s1, char_type const* s2, std::size_t n) {
@@ -200,7 +213,11 @@ namespace sprout {
 		}
 		template<typename BidirectionalIterator1, typename BidirectionalIterator2>
 		static SPROUT_CXX14_CONSTEXPR BidirectionalIterator1 move(BidirectionalIterator1 s1, BidirectionalIterator2 s2, std::size_t n) {
-			sprout::copy_backward(s2, sprout::next(s2, n), sprout::next(s1, n));
+			if (is_within(s1, s2, n)) {
+				sprout::copy_backward(s2, sprout::next(s2, n), sprout::next(s1, n));
+			} else {
+				sprout::copy(s2, sprout::next(s2, n), s1);
+			}
 			return s1;
 		}
 		template<typename OutputIterator, typename BidirectionalIterator>
-- 
2.43.0


From 13e48a5d41a2e8968fcc4717769000ddba692c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 072/277] fix: extracting a longer word than the string held
 gave null characters

---
 sprout/string/io.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sprout/string/io.hpp b/sprout/string/io.hpp
index aceddb9..8db67e9 100644
--- a/sprout/string/io.hpp
+++ b/sprout/string/io.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 		typedef typename string_type::size_type size_type;
 		std::ios_base::iostate state = std::ios_base::goodbit;
 		bool changed = false;
-		size_type current = 0;
+		rhs.clear();
 		if (typename istream_type::sentry(lhs)) {
 			ctype_type const& ctype_fac = std::use_facet<ctype_type>(lhs.getloc());
 			try {
@@ -46,9 +46,8 @@ namespace sprout {
 					} else if (ctype_fac.is(ctype_type::space, traits_type::to_char_type(meta))) {
 						break;
 					} else {
-						rhs[current] = traits_type::to_char_type(meta);
+						rhs.push_back(traits_type::to_char_type(meta));
 						changed = true;
-						++current;
 					}
 			} catch (...) {
 				state |= std::ios_base::badbit;
@@ -59,7 +58,6 @@ namespace sprout {
 			state |= std::ios_base::failbit;
 		}
 		lhs.setstate(state);
-		rhs.resize(current);
 		return lhs;
 	}
 	template<typename T, std::size_t N, typename Traits, typename StreamTraits>
-- 
2.43.0


From 6aad673752696ac45331ddee666a6932e479719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:07 +0000
Subject: [PATCH 073/277] fix: inserting a string into a stream stopped at an
 embedded null character

---
 sprout/string/io.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/string/io.hpp b/sprout/string/io.hpp
index 8db67e9..e064aae 100644
--- a/sprout/string/io.hpp
+++ b/sprout/string/io.hpp
@@ -10,6 +10,7 @@
 
 #include <istream>
 #include <ostream>
+#include <string>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/string/string.hpp>
@@ -63,7 +64,7 @@ namespace sprout {
 	template<typename T, std::size_t N, typename Traits, typename StreamTraits>
 	inline SPROUT_NON_CONSTEXPR std::basic_ostream<T, StreamTraits>&
 	operator<<(std::basic_ostream<T, StreamTraits>& lhs, sprout::basic_string<T, N, Traits> const& rhs) {
-		return lhs << rhs.c_str();
+		return lhs << std::basic_string<T, StreamTraits>(rhs.data(), rhs.size());
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 9c36c7e5b68732e4c10826522352f6158a00c440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:00 +0000
Subject: [PATCH 074/277] fix: strings did not compile with pointer iterators

---
 sprout/string/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index f48122a..8b82aae 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1115,13 +1115,13 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator
-		th(size_type i) const {
+		nth(size_type i) const {
 			return i < size()
 				? data() + i
 				: (throw std::out_of_range("basic_string<>: index out of range"), const_iterator())
 				;
-		}SPROUT_CXX14_CONSTEXPR
-		SPROUT_CONSTEXPR size_type
+		}
+		SPROUT_CXX14_CONSTEXPR size_type
 		index_of(iterator p) SPROUT_NOEXCEPT {
 			return sprout::distance(begin(), p);
 		}
-- 
2.43.0


From f1e943dd8ac8911d9f5e61c3655963ad5c22ce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 075/277] fix: substr of a string view reached beyond the
 viewed text

---
 sprout/utility/string_view/string_view.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 0618b92..d0b19ab 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -365,9 +365,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR basic_string_view
 		substr(size_type pos = 0, size_type n = npos) const {
-			return !(size() < pos) ? n == npos
-					? substr(pos, size() - pos)
-					: basic_string_view(c_str() + pos, n)
+			return !(size() < pos) ? basic_string_view(c_str() + pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos))
 				: throw std::out_of_range("basic_string_view<>: index out of range")
 				;
 		}
-- 
2.43.0


From 15d26cf82cdfaf49be87f43fda4b96c31414fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 076/277] fix: string view searches for an iterator:
 find_last_of started at 0, the find_*_not_of did not compile

---
 sprout/utility/string_view/string_view.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index d0b19ab..41fde00 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -503,7 +503,7 @@ namespace sprout {
 			is_string_view_iterator<ConstIterator>::value,
 			size_type
 		>::type
-		find_last_of(ConstIterator s, size_type pos = 0) const {
+		find_last_of(ConstIterator s, size_type pos = npos) const {
 			return find_last_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
@@ -520,7 +520,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_first_not_of(ConstIterator s, size_type pos = 0) const {
-			return sprout::string_detail::find_first_not_of_impl<basic_string_view>(s, pos, traits_type::length(s));
+			return find_first_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
@@ -536,7 +536,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_last_not_of(ConstIterator s, size_type pos = npos) const {
-			return sprout::string_detail::find_last_not_of_impl<basic_string_view>(s, pos, traits_type::length(s));
+			return find_last_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From 84f4b9a79ca4efb8d0fc016f1c3095ecf8441a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 077/277] fix: copying nothing from the end position of a
 string view threw out_of_range

---
 sprout/utility/string_view/string_view.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 41fde00..76e3d86 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -358,7 +358,9 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR size_type
 		copy(value_type* s, size_type n, size_type pos = 0) const {
-			rangecheck(pos);
+			if (size() < pos) {
+				throw std::out_of_range("basic_string_view<>: index out of range");
+			}
 			size_type llen = NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos);
 			traits_type::copy(s, begin() + pos, llen);
 			return llen;
-- 
2.43.0


From dcca09c606f36e667946711720d0d44a04fbec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 078/277] fix: converting a string view to a string read beyond
 the viewed text

---
 sprout/utility/string_view/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 76e3d86..613371a 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -420,7 +420,7 @@ namespace sprout {
 		template<std::size_t N>
 		SPROUT_CONSTEXPR sprout::basic_string<T, N, Traits>
 		to_string() const {
-			return sprout::basic_string<T, N, Traits>(ptr_, size());
+			return sprout::basic_string<T, N, Traits>(ptr_, ptr_ + size());
 		}
 		template<typename Allocator = std::allocator<T> >
 		SPROUT_NON_CONSTEXPR std::basic_string<T, Traits, Allocator>
-- 
2.43.0


From 7a9c0de167dfcc0c1dba1c1311bd448206a326aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 079/277] fix: constructing a string from a pointer and a
 length read beyond the length

---
 sprout/string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 8b82aae..161777c 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -391,7 +391,7 @@ namespace sprout {
 		SPROUT_CONSTEXPR basic_string(value_type const* s, size_type n)
 			: impl_(
 				sprout::make_index_tuple<N>::make(),
-				sprout::detail::string_checked_construct_t(), s, 0, NS_SSCRISK_CEL_OR_SPROUT::min(n, traits_type::length(s))
+				sprout::detail::string_checked_construct_t(), s, 0, sprout::char_traits_helper<traits_type>::length(s, n)
 				)
 		{}
 		SPROUT_CONSTEXPR basic_string(size_type n, value_type c)
-- 
2.43.0


From 2ff04df0088ebdfba885c14f72484fcde9b97ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 080/277] fix: converting text to integers gave the minimum for
 the minimum plus one

---
 sprout/cstdlib/ascii_to_int.hpp | 2 +-
 sprout/cstdlib/str_to_int.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/ascii_to_int.hpp b/sprout/cstdlib/ascii_to_int.hpp
index 276ff83..6b125d4 100644
--- a/sprout/cstdlib/ascii_to_int.hpp
+++ b/sprout/cstdlib/ascii_to_int.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 			SPROUT_STATIC_ASSERT(sprout::detail::is_char_type_of_consecutive_digits<value_type>::value);
 			return !sprout::ascii::isdigit(*str)
 				? negative ? -val : val
-				: val > (sprout::numeric_limits<IntType>::max() - (*str - SPROUT_CHAR_LITERAL('0', value_type)) - (negative ? 1 : 0)) / 10
+				: val > (sprout::numeric_limits<IntType>::max() - (*str - SPROUT_CHAR_LITERAL('0', value_type))) / 10
 				? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::ascii_to_int_impl<IntType>(
 					sprout::next(str),
diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index af50e37..859edf4 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR IntType
 		str_to_int_impl_1(NullTerminatedIterator const& str, int base, IntType val, IntType x, bool negative) {
 			return x == static_cast<IntType>(-1) ? (negative ? -1 * val : val)
-				: val > (sprout::numeric_limits<IntType>::max() - x - (negative ? 1 : 0)) / base
+				: val > (sprout::numeric_limits<IntType>::max() - x) / base
 					? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::str_to_int_impl_1<IntType>(
 					sprout::next(str),
-- 
2.43.0


From 55bf80f400930e6e8b3a091edd4bb12d25e3ed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 081/277] fix: converting text to unsigned integers did not
 accept a minus sign

---
 sprout/cstdlib/str_to_int.hpp | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 859edf4..9b52a02 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 		str_to_int_impl_1(NullTerminatedIterator const& str, int base, IntType val, IntType x, bool negative) {
 			return x == static_cast<IntType>(-1) ? (negative ? -1 * val : val)
 				: val > (sprout::numeric_limits<IntType>::max() - x) / base
-					? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
+					? (negative && sprout::is_signed<IntType>::value ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::str_to_int_impl_1<IntType>(
 					sprout::next(str),
 					base,
@@ -73,24 +73,7 @@ namespace sprout {
 				;
 		}
 		template<typename IntType, typename NullTerminatedIterator>
-		inline SPROUT_CONSTEXPR typename std::enable_if<
-			sprout::is_unsigned<IntType>::value,
-			IntType
-		>::type
-		str_to_int(NullTerminatedIterator const& str, int base) {
-			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
-			return sprout::ascii::isspace(*str)
-					? sprout::detail::str_to_int<IntType>(sprout::next(str), base)
-				: *str == SPROUT_CHAR_LITERAL('+', char_type)
-					? sprout::detail::str_to_int_impl<IntType>(sprout::next(str), base, false)
-				: sprout::detail::str_to_int_impl<IntType>(str, base, false)
-				;
-		}
-		template<typename IntType, typename NullTerminatedIterator>
-		inline SPROUT_CONSTEXPR typename std::enable_if<
-			sprout::is_signed<IntType>::value,
-			IntType
-		>::type
+		inline SPROUT_CONSTEXPR IntType
 		str_to_int(NullTerminatedIterator const& str, int base) {
 			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
 			return sprout::ascii::isspace(*str)
-- 
2.43.0


From 70f19c51194099655938dd4619fce143673a6b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 082/277] fix: converting text to integers skipped a
 hexadecimal prefix in other bases

---
 sprout/cstdlib/str_to_int.hpp | 52 +++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 9b52a02..4bb71e2 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -42,27 +42,43 @@ namespace sprout {
 					)
 				;
 		}
+		template<typename NullTerminatedIterator>
+		inline SPROUT_CONSTEXPR bool
+		str_to_int_has_hex_prefix(NullTerminatedIterator const& str, int base) {
+			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
+			return (base == 0 || base == 16)
+				&& *str == SPROUT_CHAR_LITERAL('0', char_type)
+				&& (*sprout::next(str) == SPROUT_CHAR_LITERAL('x', char_type)
+					|| *sprout::next(str) == SPROUT_CHAR_LITERAL('X', char_type)
+					)
+				&& sprout::detail::char_to_int<int>(*sprout::next(str, 2), 16) != -1
+				;
+		}
+		template<typename NullTerminatedIterator>
+		inline SPROUT_CONSTEXPR bool
+		str_to_int_has_octal_prefix(NullTerminatedIterator const& str, int base) {
+			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
+			return base == 0 && *str == SPROUT_CHAR_LITERAL('0', char_type);
+		}
 		template<typename IntType, typename NullTerminatedIterator>
 		inline SPROUT_CONSTEXPR IntType
 		str_to_int_impl(NullTerminatedIterator const& str, int base, bool negative) {
-			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
-			return *str == SPROUT_CHAR_LITERAL('0', char_type)
-				? *sprout::next(str) == SPROUT_CHAR_LITERAL('x', char_type)
-					|| *sprout::next(str) == SPROUT_CHAR_LITERAL('X', char_type)
-					? sprout::detail::str_to_int_impl_1<IntType>(
-						sprout::next(str, 2),
-						base ? base : 16,
-						IntType(),
-						sprout::detail::char_to_int<IntType>(*sprout::next(str, 2), base ? base : 16),
-						negative
-						)
-					: sprout::detail::str_to_int_impl_1<IntType>(
-						sprout::next(str),
-						base ? base : 8,
-						IntType(),
-						sprout::detail::char_to_int<IntType>(*sprout::next(str), base ? base : 8),
-						negative
-						)
+			return sprout::detail::str_to_int_has_hex_prefix(str, base)
+				? sprout::detail::str_to_int_impl_1<IntType>(
+					sprout::next(str, 2),
+					16,
+					IntType(),
+					sprout::detail::char_to_int<IntType>(*sprout::next(str, 2), 16),
+					negative
+					)
+				: sprout::detail::str_to_int_has_octal_prefix(str, base)
+				? sprout::detail::str_to_int_impl_1<IntType>(
+					str,
+					8,
+					IntType(),
+					sprout::detail::char_to_int<IntType>(*str, 8),
+					negative
+					)
 				: sprout::detail::str_to_int_impl_1<IntType>(
 					str,
 					base ? base : 10,
-- 
2.43.0


From 7811915b7a625e0ae2c2a069d447339656b3201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 083/277] fix: converting text to integers with an end position
 truncated values that overflow

---
 sprout/cstdlib/str_to_int.hpp | 56 ++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 4bb71e2..f6666a9 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -101,31 +101,45 @@ namespace sprout {
 				: sprout::detail::str_to_int_impl<IntType>(str, base, false)
 				;
 		}
+		//
+		// str_to_int_end
+		//
+		template<typename NullTerminatedIterator>
+		inline SPROUT_CONSTEXPR NullTerminatedIterator
+		str_to_int_end_digits(NullTerminatedIterator const& str, int base) {
+			return sprout::detail::char_to_int<int>(*str, base) == -1 ? str
+				: sprout::detail::str_to_int_end_digits(sprout::next(str), base)
+				;
+		}
+		template<typename NullTerminatedIterator>
+		inline SPROUT_CONSTEXPR NullTerminatedIterator
+		str_to_int_end_impl(NullTerminatedIterator const& origin, NullTerminatedIterator const& str, int base) {
+			return sprout::detail::char_to_int<int>(*str, base ? base : 10) == -1 ? origin
+				: sprout::detail::str_to_int_has_hex_prefix(str, base)
+					? sprout::detail::str_to_int_end_digits(sprout::next(str, 2), 16)
+				: sprout::detail::str_to_int_has_octal_prefix(str, base)
+					? sprout::detail::str_to_int_end_digits(str, 8)
+				: sprout::detail::str_to_int_end_digits(str, base ? base : 10)
+				;
+		}
+		template<typename NullTerminatedIterator>
+		inline SPROUT_CONSTEXPR NullTerminatedIterator
+		str_to_int_end(NullTerminatedIterator const& origin, NullTerminatedIterator const& str, int base) {
+			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
+			return sprout::ascii::isspace(*str)
+					? sprout::detail::str_to_int_end(origin, sprout::next(str), base)
+				: *str == SPROUT_CHAR_LITERAL('-', char_type) || *str == SPROUT_CHAR_LITERAL('+', char_type)
+					? sprout::detail::str_to_int_end_impl(origin, sprout::next(str), base)
+				: sprout::detail::str_to_int_end_impl(origin, str, base)
+				;
+		}
 		template<typename IntType, typename NullTerminatedIterator, typename CharPtr>
 		inline SPROUT_CONSTEXPR IntType
 		str_to_int(NullTerminatedIterator const& str, CharPtr* endptr, int base) {
 			return !endptr ? sprout::detail::str_to_int<IntType>(str, base)
-#if defined(_MSC_VER)
-				: sprout::is_signed<IntType>::value
-					? static_cast<IntType>(std::strtol(&*str, endptr, base))
-					: static_cast<IntType>(std::strtoul(&*str, endptr, base))
-#elif defined(__MINGW32__)
-				: sprout::is_signed<IntType>::value
-					? sizeof(IntType) <= sizeof(long) ? static_cast<IntType>(std::strtol(&*str, endptr, base))
-						: sizeof(IntType) <= sizeof(long long) ? static_cast<IntType>(::strtoll(&*str, endptr, base))
-						: static_cast<IntType>(std::strtoimax(&*str, endptr, base))
-					: sizeof(IntType) <= sizeof(unsigned long) ? static_cast<IntType>(std::strtoul(&*str, endptr, base))
-						: sizeof(IntType) <= sizeof(unsigned long long) ? static_cast<IntType>(::strtoull(&*str, endptr, base))
-						: static_cast<IntType>(std::strtoumax(&*str, endptr, base))
-#else
-				: sprout::is_signed<IntType>::value
-					? sizeof(IntType) <= sizeof(long) ? static_cast<IntType>(std::strtol(&*str, endptr, base))
-						: sizeof(IntType) <= sizeof(long long) ? static_cast<IntType>(std::strtoll(&*str, endptr, base))
-						: static_cast<IntType>(std::strtoimax(&*str, endptr, base))
-					: sizeof(IntType) <= sizeof(unsigned long) ? static_cast<IntType>(std::strtoul(&*str, endptr, base))
-						: sizeof(IntType) <= sizeof(unsigned long long) ? static_cast<IntType>(std::strtoull(&*str, endptr, base))
-						: static_cast<IntType>(std::strtoumax(&*str, endptr, base))
-#endif
+				: (*endptr = const_cast<CharPtr>(sprout::detail::str_to_int_end(str, str, base)),
+					sprout::detail::str_to_int<IntType>(str, base)
+					)
 				;
 		}
 	}	// namespace detail
-- 
2.43.0


From 8b42763391557bf7d30fc8f99d700ee2168edb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 084/277] fix: int_to_string in bases above ten printed
 characters that are not digits

---
 sprout/string/int_to_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/int_to_string.hpp b/sprout/string/int_to_string.hpp
index 2d465f8..a705d37 100644
--- a/sprout/string/int_to_string.hpp
+++ b/sprout/string/int_to_string.hpp
@@ -46,13 +46,13 @@ namespace sprout {
 			return val < 0 ? access_type::raw_construct(
 					static_cast<std::size_t>(digits + 1),
 					SPROUT_CHAR_LITERAL('-', Elem),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 						: Elem()
 						)...
 					)
 				: access_type::raw_construct(
 					static_cast<std::size_t>(digits),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 						: Elem()
 						)...
 					)
@@ -68,7 +68,7 @@ namespace sprout {
 			typedef sprout::detail::string_construct_access<Elem, sprout::printed_integer_digits<IntType, Base>::value> access_type;
 			return access_type::raw_construct(
 				static_cast<std::size_t>(digits),
-				(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+				(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 					: Elem()
 					)...
 				);
-- 
2.43.0


From 0ef764fbd650306c89a586442fac4d3d65b6f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 085/277] fix: converting text to floats gave infinity for
 underflow and for zero with a large exponent

---
 sprout/cstdlib/str_to_float.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sprout/cstdlib/str_to_float.hpp b/sprout/cstdlib/str_to_float.hpp
index cf74032..ded86d6 100644
--- a/sprout/cstdlib/str_to_float.hpp
+++ b/sprout/cstdlib/str_to_float.hpp
@@ -42,7 +42,7 @@ namespace sprout {
 					num_decimals,
 					exponent,
 					n >> 1,
-					p10 * p10
+					n >> 1 ? p10 * p10 : p10
 					)
 				: number
 				;
@@ -58,9 +58,12 @@ namespace sprout {
 			long exponent = 0
 			)
 		{
-			return exponent >= sprout::numeric_limits<FloatType>::min_exponent
-				&& exponent <= sprout::numeric_limits<FloatType>::max_exponent
-				? sprout::detail::str_to_float_impl_scale<FloatType>(
+			return number == 0 ? number
+				: exponent > sprout::numeric_limits<FloatType>::max_exponent
+					? (number < 0 ? -sprout::numeric_limits<FloatType>::infinity() : sprout::numeric_limits<FloatType>::infinity())
+				: exponent < sprout::numeric_limits<FloatType>::min_exponent - sprout::numeric_limits<FloatType>::digits
+					? (number < 0 ? -FloatType() : FloatType())
+				: sprout::detail::str_to_float_impl_scale<FloatType>(
 					str,
 					negative,
 					number,
@@ -69,7 +72,6 @@ namespace sprout {
 					exponent,
 					exponent < 0 ? -exponent : exponent
 					)
-				: HUGE_VAL
 				;
 		}
 		template<typename FloatType, typename NullTerminatedIterator>
-- 
2.43.0


From 4be92550caa7cae6d5c4a732623e9fe109d21411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 086/277] fix: converting text to floats skipped the first
 digit of an unsigned exponent

---
 sprout/cstdlib/str_to_float.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/str_to_float.hpp b/sprout/cstdlib/str_to_float.hpp
index ded86d6..14cb1fd 100644
--- a/sprout/cstdlib/str_to_float.hpp
+++ b/sprout/cstdlib/str_to_float.hpp
@@ -95,7 +95,7 @@ namespace sprout {
 					num_digits,
 					num_decimals,
 					exponent,
-					n * 10 + (*str - SPROUT_CHAR_LITERAL('0', char_type))
+					n < sprout::numeric_limits<long>::max() / 100 ? n * 10 + (*str - SPROUT_CHAR_LITERAL('0', char_type)) : n
 					)
 				: sprout::detail::str_to_float_impl_exponent_2<FloatType>(
 					str,
@@ -120,6 +120,11 @@ namespace sprout {
 		{
 			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
 			return (*str == SPROUT_CHAR_LITERAL('e', char_type) || *str == SPROUT_CHAR_LITERAL('E', char_type))
+				&& sprout::ascii::isdigit(
+					*sprout::next(str) == SPROUT_CHAR_LITERAL('-', char_type) || *sprout::next(str) == SPROUT_CHAR_LITERAL('+', char_type)
+						? *sprout::next(str, 2)
+						: *sprout::next(str)
+					)
 				? *sprout::next(str) == SPROUT_CHAR_LITERAL('-', char_type)
 					? sprout::detail::str_to_float_impl_exponent_1<FloatType>(
 						sprout::next(str, 2),
@@ -130,7 +135,7 @@ namespace sprout {
 						exponent
 						)
 					: sprout::detail::str_to_float_impl_exponent_1<FloatType>(
-						sprout::next(str, 2),
+						*sprout::next(str) == SPROUT_CHAR_LITERAL('+', char_type) ? sprout::next(str, 2) : sprout::next(str),
 						false,
 						number,
 						num_digits,
-- 
2.43.0


From 9473422a4ad775877b50d4e6cdf49725f838126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 087/277] fix: converting text with many digits to floats
 overflowed to infinity

---
 sprout/cstdlib/str_to_float.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/sprout/cstdlib/str_to_float.hpp b/sprout/cstdlib/str_to_float.hpp
index 14cb1fd..6177743 100644
--- a/sprout/cstdlib/str_to_float.hpp
+++ b/sprout/cstdlib/str_to_float.hpp
@@ -174,6 +174,11 @@ namespace sprout {
 					)
 				;
 		}
+		template<typename FloatType>
+		inline SPROUT_CONSTEXPR bool
+		str_to_float_is_full(FloatType number) {
+			return number >= 1000 / sprout::numeric_limits<FloatType>::epsilon();
+		}
 		template<typename FloatType, typename NullTerminatedIterator>
 		inline SPROUT_CONSTEXPR FloatType
 		str_to_float_impl_decimal(
@@ -190,9 +195,9 @@ namespace sprout {
 			return sprout::ascii::isdigit(*str) ? sprout::detail::str_to_float_impl_decimal<FloatType>(
 					sprout::next(str),
 					negative,
-					number * 10 + (*str - SPROUT_CHAR_LITERAL('0', char_type)),
+					sprout::detail::str_to_float_is_full(number) ? number : number * 10 + (*str - SPROUT_CHAR_LITERAL('0', char_type)),
 					num_digits + 1,
-					num_decimals + 1,
+					sprout::detail::str_to_float_is_full(number) ? num_decimals : num_decimals + 1,
 					exponent
 					)
 				: sprout::detail::str_to_float_impl_decimal_1<FloatType>(
@@ -201,7 +206,7 @@ namespace sprout {
 					number,
 					num_digits,
 					num_decimals,
-					exponent - num_decimals
+					exponent - static_cast<long>(num_decimals)
 					)
 				;
 		}
@@ -212,7 +217,8 @@ namespace sprout {
 			NullTerminatedIterator const& str,
 			bool negative,
 			FloatType number = FloatType(),
-			std::size_t num_digits = 0
+			std::size_t num_digits = 0,
+			long exponent = 0
 			)
 		{
 			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
@@ -220,20 +226,25 @@ namespace sprout {
 			return sprout::ascii::isdigit(*str) ? sprout::detail::str_to_float_impl<FloatType>(
 					sprout::next(str),
 					negative,
-					number * 10 + (*str - SPROUT_CHAR_LITERAL('0', char_type)),
-					num_digits + 1
+					sprout::detail::str_to_float_is_full(number) ? number : number * 10 + (*str - SPROUT_CHAR_LITERAL('0', char_type)),
+					num_digits + 1,
+					sprout::detail::str_to_float_is_full(number) ? exponent + 1 : exponent
 					)
 				: *str == SPROUT_CHAR_LITERAL('.', char_type) ? sprout::detail::str_to_float_impl_decimal<FloatType>(
 					sprout::next(str),
 					negative,
 					number,
-					num_digits
+					num_digits,
+					0,
+					exponent
 					)
 				: sprout::detail::str_to_float_impl_decimal_1<FloatType>(
 					str,
 					negative,
 					number,
-					num_digits
+					num_digits,
+					0,
+					exponent
 					)
 				;
 		}
-- 
2.43.0


From f9b10aa2c925ac65c44ef2ef43328b5714fb5567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 088/277] fix: to_string of floats printed wrong digits

---
 sprout/detail/math/float.hpp      | 53 ++++++++++++++++++++-----------
 sprout/string/float_to_string.hpp | 26 ++++++++++++---
 2 files changed, 56 insertions(+), 23 deletions(-)

diff --git a/sprout/detail/math/float.hpp b/sprout/detail/math/float.hpp
index 897ccfa..210a3dc 100644
--- a/sprout/detail/math/float.hpp
+++ b/sprout/detail/math/float.hpp
@@ -66,7 +66,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR int
 		float_exponent10_positive(FloatType val) {
 			typedef sprout::pair<int, FloatType> type;
-			return float_exponent10_positive_0(type(val, 0), 1).first;
+			return float_exponent10_positive_0(type(0, val), 1).first;
 		}
 		template<typename FloatType>
 		inline SPROUT_CONSTEXPR sprout::pair<int, FloatType>
@@ -100,7 +100,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR int
 		float_exponent10_negative(FloatType val) {
 			typedef sprout::pair<int, FloatType> type;
-			return float_exponent10_negative_0(type(val, 0), 1).first;
+			return -float_exponent10_negative_0(type(0, val), 1).first;
 		}
 		// !!! OLD:
 //		template<typename FloatType>
@@ -123,7 +123,8 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR int
 		float_exponent10(FloatType val) {
-			return val < 0
+			return val == 0 ? 0
+				: val < 0
 				? val > -1
 					? sprout::detail::float_exponent10_negative(-val)
 					: sprout::detail::float_exponent10_positive(-val)
@@ -136,20 +137,6 @@ namespace sprout {
 		//
 		// float_digit_at
 		//
-		template<typename FloatType>
-		inline SPROUT_CONSTEXPR int
-		float_digit_of_impl(FloatType val) {
-			return static_cast<int>((val - sprout::math::floor(val)) * 10);
-		}
-		template<
-			typename FloatType,
-			typename sprout::enabler_if<std::is_floating_point<FloatType>::value>::type = sprout::enabler
-		>
-		inline SPROUT_CONSTEXPR int
-		float_digit_at(FloatType val, int digits) {
-			return sprout::detail::float_digit_of_impl(val / sprout::detail::float_pow10<FloatType>(digits + 1));
-		}
-
 		//
 		// float_digits
 		//
@@ -194,13 +181,43 @@ namespace sprout {
 				;
 		}
 
+		//
+		// float_digit_at
+		//
+		template<typename FloatType>
+		inline SPROUT_CONSTEXPR int
+		float_digit_of_impl(FloatType val) {
+			return val < 1 ? 0
+				: val < 9 ? static_cast<int>(val)
+				: 9
+				;
+		}
+		template<typename FloatType>
+		inline SPROUT_CONSTEXPR int
+		float_digit_at_impl(FloatType val, int n, int digits) {
+			return n <= digits ? sprout::detail::float_digit_of_impl(val / sprout::detail::float_pow10<FloatType>(digits))
+				: sprout::detail::float_digit_at_impl(
+					val - sprout::detail::float_digit_of_impl(val / sprout::detail::float_pow10<FloatType>(n)) * sprout::detail::float_pow10<FloatType>(n),
+					n - 1, digits
+					)
+				;
+		}
+		template<
+			typename FloatType,
+			typename sprout::enabler_if<std::is_floating_point<FloatType>::value>::type = sprout::enabler
+		>
+		inline SPROUT_CONSTEXPR int
+		float_digit_at(FloatType val, int digits) {
+			return sprout::detail::float_digit_at_impl(val, sprout::detail::float_digits(val) - 1, digits);
+		}
+
 		//
 		// float_digits_checked
 		//
 		template<typename FloatType>
 		inline SPROUT_CONSTEXPR int
 		float_digits_checked_impl(FloatType val, int digits) {
-			return val == 0 ? digits
+			return val < 1 ? digits
 				: sprout::detail::float_digit_at(val, digits - 1) == 0 ? digits - 1 : digits
 				;
 		}
diff --git a/sprout/string/float_to_string.hpp b/sprout/string/float_to_string.hpp
index 8427f12..38e8fd4 100644
--- a/sprout/string/float_to_string.hpp
+++ b/sprout/string/float_to_string.hpp
@@ -20,6 +20,7 @@
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/signbit.hpp>
 #include <sprout/math/floor.hpp>
+#include <sprout/math/round.hpp>
 #include <sprout/tpp/algorithm/max_element.hpp>
 #include <sprout/detail/char_literal.hpp>
 #include <sprout/detail/char_conversion.hpp>
@@ -72,12 +73,28 @@ namespace sprout {
 		}
 		template<typename Elem, typename FloatType>
 		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
-		float_to_string(FloatType val, bool negative, int digits) {
+		float_to_string_2(FloatType val, bool negative, int v) {
 			return sprout::detail::float_to_string_impl<Elem>(
-				val, negative, digits, static_cast<int>((val - sprout::math::floor(val)) * sprout::detail::int_pow<int>(sprout::detail::decimal_places_length)),
+				val, negative, sprout::detail::float_digits_checked(val), v,
 				sprout::make_index_tuple<sprout::printed_float_digits<FloatType>::value - 1>::make()
 				);
 		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
+		float_to_string_1(FloatType val, bool negative, int v) {
+			return v < sprout::detail::int_pow<int>(sprout::detail::decimal_places_length)
+				? sprout::detail::float_to_string_2<Elem>(val, negative, v)
+				: sprout::detail::float_to_string_2<Elem>(val + 1, negative, 0)
+				;
+		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
+		float_to_string(FloatType val, bool negative) {
+			return sprout::detail::float_to_string_1<Elem>(
+				sprout::math::floor(val), negative,
+				static_cast<int>(sprout::math::round((val - sprout::math::floor(val)) * sprout::detail::int_pow<int>(sprout::detail::decimal_places_length)))
+				);
+		}
 	}	// namespace detail
 
 	//
@@ -97,9 +114,8 @@ namespace sprout {
 				? access_type::raw_construct(4, SPROUT_CHAR_LITERAL('-', Elem), SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
 				: access_type::raw_construct(3, SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
 			: sprout::detail::float_to_string<Elem>(
-				sprout::detail::float_round_at(val < 0 ? -val : val, sprout::detail::decimal_places_length),
-				sprout::math::signbit(val),
-				sprout::detail::float_digits_checked(val)
+				val < 0 ? -val : val,
+				sprout::math::signbit(val)
 				)
 			;
 	}
-- 
2.43.0


From ec1b5559f54bc25e9e19671dafb2966bb0f67b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 089/277] fix: float_to_string_exp printed wrong digits and
 exponents

---
 sprout/string/float_to_string.hpp | 54 ++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/sprout/string/float_to_string.hpp b/sprout/string/float_to_string.hpp
index 38e8fd4..d6fef53 100644
--- a/sprout/string/float_to_string.hpp
+++ b/sprout/string/float_to_string.hpp
@@ -144,16 +144,16 @@ namespace sprout {
 	namespace detail {
 		template<typename Elem, typename FloatType, sprout::index_t... Indexes>
 		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
-		float_to_string_exp(FloatType val, bool negative, int exponent10, int e10_digits, sprout::index_tuple<Indexes...>) {
+		float_to_string_exp_impl(int v, bool negative, int exponent10, int e10_digits, sprout::index_tuple<Indexes...>) {
 			typedef sprout::detail::string_construct_access<Elem, sprout::printed_float_exp_digits<FloatType>::value> access_type;
 			return negative
 				? access_type::raw_construct(
 					static_cast<std::size_t>(5 + sprout::detail::decimal_places_length + e10_digits),
 					SPROUT_CHAR_LITERAL('-', Elem),
-					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 0))
+					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(v, sprout::detail::decimal_places_length))
 						: Indexes == 1 ? SPROUT_CHAR_LITERAL('.', Elem)
 						: Indexes < 2 + sprout::detail::decimal_places_length
-							? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 1 - Indexes))
+							? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(v, sprout::detail::decimal_places_length + 1 - Indexes))
 						: Indexes == 2 + sprout::detail::decimal_places_length ? SPROUT_CHAR_LITERAL('e', Elem)
 						: Indexes == 3 + sprout::detail::decimal_places_length ? (exponent10 < 0 ? SPROUT_CHAR_LITERAL('-', Elem) : SPROUT_CHAR_LITERAL('+', Elem))
 						: Indexes < 4 + sprout::detail::decimal_places_length + e10_digits
@@ -163,10 +163,10 @@ namespace sprout {
 					)
 				: access_type::raw_construct(
 					static_cast<std::size_t>(4 + sprout::detail::decimal_places_length + e10_digits),
-					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 0))
+					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(v, sprout::detail::decimal_places_length))
 						: Indexes == 1 ? SPROUT_CHAR_LITERAL('.', Elem)
 						: Indexes < 2 + sprout::detail::decimal_places_length
-							? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 1 - Indexes))
+							? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(v, sprout::detail::decimal_places_length + 1 - Indexes))
 						: Indexes == 2 + sprout::detail::decimal_places_length ? SPROUT_CHAR_LITERAL('e', Elem)
 						: Indexes == 3 + sprout::detail::decimal_places_length ? (exponent10 < 0 ? SPROUT_CHAR_LITERAL('-', Elem) : SPROUT_CHAR_LITERAL('+', Elem))
 						: Indexes < 4 + sprout::detail::decimal_places_length + e10_digits
@@ -176,6 +176,41 @@ namespace sprout {
 					)
 				;
 		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
+		float_to_string_exp_2(int v, bool negative, int exponent10) {
+			return v < sprout::detail::int_pow<int>(sprout::detail::decimal_places_length + 1)
+				? sprout::detail::float_to_string_exp_impl<Elem, FloatType>(
+					v, negative, exponent10,
+					NS_SSCRISK_CEL_OR_SPROUT::max(sprout::detail::int_digits(exponent10), 2),
+					sprout::make_index_tuple<sprout::printed_float_exp_digits<FloatType>::value - 1>::make()
+					)
+				: sprout::detail::float_to_string_exp_2<Elem, FloatType>(v / 10, negative, exponent10 + 1)
+				;
+		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
+		float_to_string_exp_1(FloatType mantissa, bool negative, int exponent10) {
+			return mantissa < 1 && mantissa > 0
+				? sprout::detail::float_to_string_exp_1<Elem, FloatType>(mantissa * 10, negative, exponent10 - 1)
+				: !(mantissa < 10)
+				? sprout::detail::float_to_string_exp_1<Elem, FloatType>(mantissa / 10, negative, exponent10 + 1)
+				: sprout::detail::float_to_string_exp_2<Elem, FloatType>(
+					static_cast<int>(sprout::math::round(mantissa * sprout::detail::int_pow<int>(sprout::detail::decimal_places_length))),
+					negative, exponent10
+					)
+				;
+		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
+		float_to_string_exp(FloatType val, bool negative, int exponent10) {
+			return sprout::detail::float_to_string_exp_1<Elem, FloatType>(
+				exponent10 < 0
+					? val * sprout::detail::float_pow10<FloatType>(-exponent10 / 2) * sprout::detail::float_pow10<FloatType>(-exponent10 - -exponent10 / 2)
+					: val / sprout::detail::float_pow10<FloatType>(exponent10),
+				negative, exponent10
+				);
+		}
 	}	// namespace detail
 
 	//
@@ -195,14 +230,9 @@ namespace sprout {
 				? access_type::raw_construct(4, SPROUT_CHAR_LITERAL('-', Elem), SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
 				: access_type::raw_construct(3, SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
 			: sprout::detail::float_to_string_exp<Elem>(
-				sprout::detail::float_round_at(
-					(val < 0 ? -val : val) / sprout::detail::float_pow10<FloatType>(sprout::detail::float_exponent10(val)),
-					sprout::detail::decimal_places_length
-					),
+				val < 0 ? -val : val,
 				sprout::math::signbit(val),
-				sprout::detail::float_exponent10(val),
-				NS_SSCRISK_CEL_OR_SPROUT::max(sprout::detail::int_digits(sprout::detail::float_exponent10(val)), 2),
-				sprout::make_index_tuple<sprout::printed_float_exp_digits<FloatType>::value - 1>::make()
+				sprout::detail::float_exponent10(val)
 				)
 			;
 	}
-- 
2.43.0


From 6d9bcf66bfa33d01425cce43730dba6b3d469d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 090/277] fix: converting text to floats negated the exponent

---
 sprout/cstdlib/str_to_float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/cstdlib/str_to_float.hpp b/sprout/cstdlib/str_to_float.hpp
index 6177743..d5d6408 100644
--- a/sprout/cstdlib/str_to_float.hpp
+++ b/sprout/cstdlib/str_to_float.hpp
@@ -103,7 +103,7 @@ namespace sprout {
 					number,
 					num_digits,
 					num_decimals,
-					negative ? exponent + n : exponent - n
+					negative ? exponent - n : exponent + n
 					)
 				;
 		}
-- 
2.43.0


From 101540aab33a1d97563258815d77357923816f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 091/277] fix: converting a string view to an integer read
 beyond the viewed text

---
 sprout/detail/bounded_text_iterator.hpp      | 73 ++++++++++++++++++++
 sprout/utility/string_view/string_to_int.hpp | 18 +++--
 2 files changed, 85 insertions(+), 6 deletions(-)
 create mode 100644 sprout/detail/bounded_text_iterator.hpp

diff --git a/sprout/detail/bounded_text_iterator.hpp b/sprout/detail/bounded_text_iterator.hpp
new file mode 100644
index 0000000..3ca2bd9
--- /dev/null
+++ b/sprout/detail/bounded_text_iterator.hpp
@@ -0,0 +1,73 @@
+/*=============================================================================
+  Copyright (c) 2011-2019 Bolero MURAKAMI
+  https://github.com/bolero-MURAKAMI/Sprout
+
+  Distributed under the Boost Software License, Version 1.0. (See accompanying
+  file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
+=============================================================================*/
+#ifndef SPROUT_DETAIL_BOUNDED_TEXT_ITERATOR_HPP
+#define SPROUT_DETAIL_BOUNDED_TEXT_ITERATOR_HPP
+
+#include <cstddef>
+#include <iterator>
+#include <sprout/config.hpp>
+
+namespace sprout {
+	namespace detail {
+		//
+		// bounded_text_iterator
+		//	presents the text [current, last) as a null terminated one
+		//
+		template<typename Elem>
+		class bounded_text_iterator {
+		public:
+			typedef std::forward_iterator_tag iterator_category;
+			typedef Elem value_type;
+			typedef std::ptrdiff_t difference_type;
+			typedef Elem const* pointer;
+			typedef Elem reference;
+		private:
+			Elem const* current_;
+			Elem const* last_;
+		public:
+			SPROUT_CONSTEXPR bounded_text_iterator(Elem const* current, Elem const* last)
+				: current_(current), last_(last)
+			{}
+			SPROUT_CONSTEXPR Elem operator*() const {
+				return current_ == last_ ? Elem() : *current_;
+			}
+			SPROUT_CONSTEXPR bounded_text_iterator next() const {
+				return bounded_text_iterator(current_ + 1, last_);
+			}
+			SPROUT_CXX14_CONSTEXPR bounded_text_iterator& operator++() {
+				++current_;
+				return *this;
+			}
+			SPROUT_CXX14_CONSTEXPR bounded_text_iterator operator++(int) {
+				bounded_text_iterator result(*this);
+				++current_;
+				return result;
+			}
+			SPROUT_CONSTEXPR Elem const* base() const {
+				return current_;
+			}
+			friend SPROUT_CONSTEXPR bool operator==(bounded_text_iterator const& lhs, bounded_text_iterator const& rhs) {
+				return lhs.current_ == rhs.current_;
+			}
+			friend SPROUT_CONSTEXPR bool operator!=(bounded_text_iterator const& lhs, bounded_text_iterator const& rhs) {
+				return !(lhs == rhs);
+			}
+		};
+
+		//
+		// iterator_next
+		//
+		template<typename Elem>
+		inline SPROUT_CONSTEXPR sprout::detail::bounded_text_iterator<Elem>
+		iterator_next(sprout::detail::bounded_text_iterator<Elem> const& it) {
+			return it.next();
+		}
+	}	// namespace detail
+}	// namespace sprout
+
+#endif	// #ifndef SPROUT_DETAIL_BOUNDED_TEXT_ITERATOR_HPP
diff --git a/sprout/utility/string_view/string_to_int.hpp b/sprout/utility/string_view/string_to_int.hpp
index 947cc56..6dbf662 100644
--- a/sprout/utility/string_view/string_to_int.hpp
+++ b/sprout/utility/string_view/string_to_int.hpp
@@ -15,16 +15,22 @@
 #include <sprout/utility/string_view/string_view.hpp>
 #include <sprout/cstdlib/str_to_int.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/detail/bounded_text_iterator.hpp>
 
 namespace sprout {
 	namespace detail {
+		template<typename Elem, typename Traits>
+		inline SPROUT_CONSTEXPR sprout::detail::bounded_text_iterator<Elem>
+		string_view_text(sprout::basic_string_view<Elem, Traits> const& str) {
+			return sprout::detail::bounded_text_iterator<Elem>(str.data(), str.data() + str.size());
+		}
 		template<typename IntType, typename Elem, typename Traits>
 		inline IntType
 		string_to_int_dynamic(sprout::basic_string_view<Elem, Traits> const& str, std::size_t* idx, int base = 10) {
-			Elem* endptr = nullptr;
-			IntType result = sprout::detail::str_to_int<IntType>(str.c_str(), &endptr, base);
-			*idx = endptr - str.c_str();
-			return result;
+			*idx = sprout::detail::str_to_int_end(
+				sprout::detail::string_view_text(str), sprout::detail::string_view_text(str), base
+				).base() - str.data();
+			return sprout::detail::str_to_int<IntType>(sprout::detail::string_view_text(str), base);
 		}
 	}
 
@@ -37,7 +43,7 @@ namespace sprout {
 	>
 	inline SPROUT_CONSTEXPR IntType
 	string_to_int(sprout::basic_string_view<Elem, Traits> const& str, std::size_t* idx, int base = 10) {
-		return !idx ? sprout::detail::str_to_int<IntType>(str.begin(), base)
+		return !idx ? sprout::detail::str_to_int<IntType>(sprout::detail::string_view_text(str), base)
 			: sprout::detail::string_to_int_dynamic<IntType>(str, idx, base)
 			;
 	}
@@ -47,7 +53,7 @@ namespace sprout {
 	>
 	inline SPROUT_CONSTEXPR IntType
 	string_to_int(sprout::basic_string_view<Elem, Traits> const& str, int base = 10) {
-		return sprout::detail::str_to_int<IntType>(str.begin(), base);
+		return sprout::detail::str_to_int<IntType>(sprout::detail::string_view_text(str), base);
 	}
 
 	//
-- 
2.43.0


From 468a56cce6e2fd4b8e5f9a05178820a1dae70f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 092/277] fix: converting a string view to a float read beyond
 the viewed text

---
 sprout/utility/string_view/string_to_float.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sprout/utility/string_view/string_to_float.hpp b/sprout/utility/string_view/string_to_float.hpp
index 00dd7c7..90b957b 100644
--- a/sprout/utility/string_view/string_to_float.hpp
+++ b/sprout/utility/string_view/string_to_float.hpp
@@ -14,6 +14,7 @@
 #include <sprout/utility/string_view/string_view.hpp>
 #include <sprout/cstdlib/str_to_float.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/detail/bounded_text_iterator.hpp>
 
 namespace sprout {
 	namespace detail {
@@ -21,9 +22,10 @@ namespace sprout {
 			typename FloatType, typename Elem, typename Traits
 		>
 		inline FloatType string_to_float_dynamic(sprout::basic_string_view<Elem, Traits> const& str, std::size_t* idx) {
+			std::basic_string<Elem> const text(str.data(), str.size());
 			Elem* endptr = nullptr;
-			FloatType result = sprout::detail::str_to_float<FloatType>(str.c_str(), &endptr);
-			*idx = endptr - str.c_str();
+			FloatType result = sprout::detail::str_to_float<FloatType>(text.c_str(), &endptr);
+			*idx = endptr - text.c_str();
 			return result;
 		}
 	}
@@ -37,7 +39,7 @@ namespace sprout {
 	>
 	inline SPROUT_CONSTEXPR FloatType
 	string_to_float(sprout::basic_string_view<Elem, Traits> const& str, std::size_t* idx) {
-		return !idx ? sprout::detail::str_to_float<FloatType>(str.begin())
+		return !idx ? sprout::detail::str_to_float<FloatType>(sprout::detail::bounded_text_iterator<Elem>(str.data(), str.data() + str.size()))
 			: sprout::detail::string_to_float_dynamic<FloatType>(str, idx)
 			;
 	}
@@ -47,7 +49,7 @@ namespace sprout {
 	>
 	inline SPROUT_CONSTEXPR FloatType
 	string_to_float(sprout::basic_string_view<Elem, Traits> const& str) {
-		return sprout::detail::str_to_float<FloatType>(str.begin());
+		return sprout::detail::str_to_float<FloatType>(sprout::detail::bounded_text_iterator<Elem>(str.data(), str.data() + str.size()));
 	}
 
 	//
-- 
2.43.0


From 01c7600d9e3eb1c84bc440fb196df69416a09edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 093/277] fix: int_to_string overran its capacity for the
 minimum in power of two bases

---
 sprout/integer/integer_digits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/integer/integer_digits.hpp b/sprout/integer/integer_digits.hpp
index e428a40..752fa34 100644
--- a/sprout/integer/integer_digits.hpp
+++ b/sprout/integer/integer_digits.hpp
@@ -22,7 +22,7 @@ namespace sprout {
 			: public sprout::integral_constant<
 				std::size_t,
 				(CHAR_BIT * sizeof(IntType) - (sprout::is_signed<IntType>::value ? 1 : 0)) * N / D
-				+ ((CHAR_BIT * sizeof(IntType) - (sprout::is_signed<IntType>::value ? 1 : 0)) * N % D ? 1 : 0)
+				+ (sprout::is_signed<IntType>::value || (CHAR_BIT * sizeof(IntType)) * N % D ? 1 : 0)
 			>
 		{};
 	}	// namespace detail
-- 
2.43.0


From b2508d4cc8485bfeb7c487806043ae2d4b6c2d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 094/277] fix: to_time_t from date and time text did not
 compile

---
 sprout/ctime/to_time_t.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/ctime/to_time_t.hpp b/sprout/ctime/to_time_t.hpp
index 31309fd..0607164 100644
--- a/sprout/ctime/to_time_t.hpp
+++ b/sprout/ctime/to_time_t.hpp
@@ -47,7 +47,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR int
 		get_num(Elem c) {
 			return !sprout::isdigit(c) ? 0
-				: sprout::detail::char_to_int(c)
+				: sprout::detail::char_to_int<int>(c)
 				;
 		}
 		template<typename InputIterator>
-- 
2.43.0


From ffbcbd581a6ed084cd845abbca7d410d929094d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 095/277] fix: int_to_string of the minimum in power of two
 bases divided by an overflowed power

---
 sprout/detail/math/int.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/detail/math/int.hpp b/sprout/detail/math/int.hpp
index 6c1465f..23d98eb 100644
--- a/sprout/detail/math/int.hpp
+++ b/sprout/detail/math/int.hpp
@@ -84,8 +84,9 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR int
 		int_digit_at(IntType val, int digits) {
-			return val < 0 ? -((val / sprout::detail::int_pow<IntType, Base>(digits)) % Base)
-				: (val / sprout::detail::int_pow<IntType, Base>(digits)) % Base
+			return digits > 0 ? sprout::detail::int_digit_at<Base, IntType>(val / Base, digits - 1)
+				: val < 0 ? -(val % Base)
+				: val % Base
 				;
 		}
 		template<
-- 
2.43.0


From b461d41f54f13a8b53f79c08f1653f8521d62e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 096/277] fix: to_string of floats overran its capacity for the
 largest values

---
 sprout/string/float_to_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/string/float_to_string.hpp b/sprout/string/float_to_string.hpp
index d6fef53..55e7a80 100644
--- a/sprout/string/float_to_string.hpp
+++ b/sprout/string/float_to_string.hpp
@@ -40,7 +40,7 @@ namespace sprout {
 	struct printed_float_digits
 		: public sprout::integral_constant<
 			std::size_t,
-			sprout::numeric_limits<FloatType>::max_exponent10 + sprout::detail::decimal_places_length + 2
+			sprout::numeric_limits<FloatType>::max_exponent10 + sprout::detail::decimal_places_length + 3
 		>
 	{};
 
-- 
2.43.0


From c665c5d256bb5c77cd4d8312e48fa985bbbe1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 097/277] fix: headers that shared an include guard could not
 be included together

---
 sprout/cwctype.hpp                                   | 6 +++---
 sprout/functional/polymorphic/shift_right.hpp        | 6 +++---
 sprout/functional/polymorphic/shift_right_assign.hpp | 6 +++---
 sprout/math/quaternion/l1.hpp                        | 6 +++---
 sprout/type_traits/has_comma.hpp                     | 6 +++---
 sprout/type_traits/has_right_shift_assign.hpp        | 6 +++---
 sprout/valarray/trigonometric.hpp                    | 6 +++---
 7 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/sprout/cwctype.hpp b/sprout/cwctype.hpp
index ea5bbcd..19571d5 100644
--- a/sprout/cwctype.hpp
+++ b/sprout/cwctype.hpp
@@ -5,10 +5,10 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_CCTYPE_HPP
-#define SPROUT_CCTYPE_HPP
+#ifndef SPROUT_CWCTYPE_HPP
+#define SPROUT_CWCTYPE_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/ctype/wascii.hpp>
 
-#endif	// #ifndef SPROUT_CCTYPE_HPP
+#endif	// #ifndef SPROUT_CWCTYPE_HPP
diff --git a/sprout/functional/polymorphic/shift_right.hpp b/sprout/functional/polymorphic/shift_right.hpp
index 3a9dd94..3fa6dc4 100644
--- a/sprout/functional/polymorphic/shift_right.hpp
+++ b/sprout/functional/polymorphic/shift_right.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_HPP
-#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_HPP
+#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_HPP
+#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/functional/shift_right.hpp>
@@ -22,4 +22,4 @@ namespace sprout {
 	}	// anonymous-namespace
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_HPP
+#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_HPP
diff --git a/sprout/functional/polymorphic/shift_right_assign.hpp b/sprout/functional/polymorphic/shift_right_assign.hpp
index fb71ef5..812da1d 100644
--- a/sprout/functional/polymorphic/shift_right_assign.hpp
+++ b/sprout/functional/polymorphic/shift_right_assign.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_ASSIGN_HPP
-#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_ASSIGN_HPP
+#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_ASSIGN_HPP
+#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_ASSIGN_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/functional/shift_right_assign.hpp>
@@ -22,4 +22,4 @@ namespace sprout {
 	}	// anonymous-namespace
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_ASSIGN_HPP
+#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_ASSIGN_HPP
diff --git a/sprout/math/quaternion/l1.hpp b/sprout/math/quaternion/l1.hpp
index 910b15d..81033a2 100644
--- a/sprout/math/quaternion/l1.hpp
+++ b/sprout/math/quaternion/l1.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_MATH_QUATERNION_SUP_HPP
-#define SPROUT_MATH_QUATERNION_SUP_HPP
+#ifndef SPROUT_MATH_QUATERNION_L1_HPP
+#define SPROUT_MATH_QUATERNION_L1_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/array/array.hpp>
@@ -35,4 +35,4 @@ namespace sprout {
 	using sprout::math::l1;
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_MATH_QUATERNION_SUP_HPP
+#endif	// #ifndef SPROUT_MATH_QUATERNION_L1_HPP
diff --git a/sprout/type_traits/has_comma.hpp b/sprout/type_traits/has_comma.hpp
index 01a4ece..31dfcb2 100644
--- a/sprout/type_traits/has_comma.hpp
+++ b/sprout/type_traits/has_comma.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_TYPE_TRAITS_HAS_PLUS_HPP
-#define SPROUT_TYPE_TRAITS_HAS_PLUS_HPP
+#ifndef SPROUT_TYPE_TRAITS_HAS_COMMA_HPP
+#define SPROUT_TYPE_TRAITS_HAS_COMMA_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/type_traits/dont_care.hpp>
@@ -25,4 +25,4 @@ namespace sprout {
 #endif	// #if SPROUT_USE_VARIABLE_TEMPLATES
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_PLUS_HPP
+#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_COMMA_HPP
diff --git a/sprout/type_traits/has_right_shift_assign.hpp b/sprout/type_traits/has_right_shift_assign.hpp
index 911cd73..4e36183 100644
--- a/sprout/type_traits/has_right_shift_assign.hpp
+++ b/sprout/type_traits/has_right_shift_assign.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_RIGHT_ASSIGN_HPP
-#define SPROUT_TYPE_TRAITS_HAS_SHIFT_RIGHT_ASSIGN_HPP
+#ifndef SPROUT_TYPE_TRAITS_HAS_RIGHT_SHIFT_ASSIGN_HPP
+#define SPROUT_TYPE_TRAITS_HAS_RIGHT_SHIFT_ASSIGN_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/type_traits/dont_care.hpp>
@@ -27,4 +27,4 @@ namespace sprout {
 #endif	// #if SPROUT_USE_VARIABLE_TEMPLATES
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_RIGHT_ASSIGN_HPP
+#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_RIGHT_SHIFT_ASSIGN_HPP
diff --git a/sprout/valarray/trigonometric.hpp b/sprout/valarray/trigonometric.hpp
index 2af3144..92d5e68 100644
--- a/sprout/valarray/trigonometric.hpp
+++ b/sprout/valarray/trigonometric.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_VALARRAY_BITWISE_HPP
-#define SPROUT_VALARRAY_BITWISE_HPP
+#ifndef SPROUT_VALARRAY_TRIGONOMETRIC_HPP
+#define SPROUT_VALARRAY_TRIGONOMETRIC_HPP
 
 #include <utility>
 #include <sprout/workaround/std/cstddef.hpp>
@@ -237,4 +237,4 @@ namespace sprout {
 	}
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_VALARRAY_BITWISE_HPP
+#endif	// #ifndef SPROUT_VALARRAY_TRIGONOMETRIC_HPP
-- 
2.43.0


From 1cd9d6c623b489b052469057cd13a0d24267931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 098/277] fix: the memory functions did not compile for
 pointers other than unsigned char and void

---
 sprout/cstring/detail/byte_ptr.hpp | 38 ++++++++++++++++++++++++++++++
 sprout/cstring/memchr.hpp          |  5 ++--
 sprout/cstring/memcmp.hpp          | 13 +++++-----
 sprout/cstring/memcpy.hpp          |  3 ++-
 sprout/cstring/memmove.hpp         |  3 ++-
 sprout/cstring/memset.hpp          |  3 ++-
 6 files changed, 54 insertions(+), 11 deletions(-)
 create mode 100644 sprout/cstring/detail/byte_ptr.hpp

diff --git a/sprout/cstring/detail/byte_ptr.hpp b/sprout/cstring/detail/byte_ptr.hpp
new file mode 100644
index 0000000..6429dc7
--- /dev/null
+++ b/sprout/cstring/detail/byte_ptr.hpp
@@ -0,0 +1,38 @@
+/*=============================================================================
+  Copyright (c) 2011-2019 Bolero MURAKAMI
+  https://github.com/bolero-MURAKAMI/Sprout
+
+  Distributed under the Boost Software License, Version 1.0. (See accompanying
+  file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
+=============================================================================*/
+#ifndef SPROUT_CSTRING_DETAIL_BYTE_PTR_HPP
+#define SPROUT_CSTRING_DETAIL_BYTE_PTR_HPP
+
+#include <sprout/config.hpp>
+
+namespace sprout {
+	namespace detail {
+		//
+		// byte_ptr
+		//	unsigned char pointers stay usable in constant expressions
+		//
+		inline SPROUT_CONSTEXPR unsigned char*
+		byte_ptr(unsigned char* p) {
+			return p;
+		}
+		inline SPROUT_CONSTEXPR unsigned char const*
+		byte_ptr(unsigned char const* p) {
+			return p;
+		}
+		inline unsigned char*
+		byte_ptr(void* p) {
+			return static_cast<unsigned char*>(p);
+		}
+		inline unsigned char const*
+		byte_ptr(void const* p) {
+			return static_cast<unsigned char const*>(p);
+		}
+	}	// namespace detail
+}	// namespace sprout
+
+#endif	// #ifndef SPROUT_CSTRING_DETAIL_BYTE_PTR_HPP
diff --git a/sprout/cstring/memchr.hpp b/sprout/cstring/memchr.hpp
index ec550f5..e563af7 100644
--- a/sprout/cstring/memchr.hpp
+++ b/sprout/cstring/memchr.hpp
@@ -13,6 +13,7 @@
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/cstring/detail/byte_ptr.hpp>
 #include <sprout/iterator/ptr_index_iterator.hpp>
 #include <sprout/algorithm/find.hpp>
 
@@ -72,7 +73,7 @@ namespace sprout {
 	>
 	inline SPROUT_CONSTEXPR void const*
 	memchr(T s, int c, std::size_t n) {
-		return sprout::detail::memchr(static_cast<unsigned char const*>(s), static_cast<unsigned char>(c), n);
+		return sprout::detail::memchr(sprout::detail::byte_ptr(s), static_cast<unsigned char>(c), n);
 	}
 
 	template<
@@ -81,7 +82,7 @@ namespace sprout {
 	>
 	inline SPROUT_CONSTEXPR void*
 	memchr(T s, int c, std::size_t n) {
-		return sprout::detail::memchr(static_cast<unsigned char*>(s), static_cast<unsigned char>(c), n);
+		return sprout::detail::memchr(sprout::detail::byte_ptr(s), static_cast<unsigned char>(c), n);
 	}
 }	// namespace sprout
 
diff --git a/sprout/cstring/memcmp.hpp b/sprout/cstring/memcmp.hpp
index b09b266..8b0dac5 100644
--- a/sprout/cstring/memcmp.hpp
+++ b/sprout/cstring/memcmp.hpp
@@ -12,14 +12,15 @@
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/cstring/detail/byte_ptr.hpp>
 #include <sprout/iterator/ptr_index_iterator.hpp>
 #include <sprout/algorithm/tristate_lexicographical_compare.hpp>
 
 namespace sprout {
 	namespace detail {
-		template<typename PtrIterator>
+		template<typename PtrIterator1, typename PtrIterator2>
 		inline SPROUT_CONSTEXPR int
-		memcmp(PtrIterator s1, PtrIterator s2, std::size_t n) {
+		memcmp(PtrIterator1 s1, PtrIterator2 s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
 				sprout::ptr_index(s1), sprout::ptr_index(s1, n),
 				sprout::ptr_index(s2), sprout::ptr_index(s2, n)
@@ -39,12 +40,12 @@ namespace sprout {
 	}
 #endif
 	template<
-		typename T,
-		typename sprout::enabler_if<std::is_convertible<T, void const*>::value>::type = sprout::enabler
+		typename T1, typename T2,
+		typename sprout::enabler_if<std::is_convertible<T1, void const*>::value && std::is_convertible<T2, void const*>::value>::type = sprout::enabler
 	>
 	inline SPROUT_CONSTEXPR int
-	memcmp(T s1, T s2, std::size_t n) {
-		return sprout::detail::memcmp(static_cast<unsigned char const*>(s1), static_cast<unsigned char const*>(s2), n);
+	memcmp(T1 s1, T2 s2, std::size_t n) {
+		return sprout::detail::memcmp(sprout::detail::byte_ptr(s1), sprout::detail::byte_ptr(s2), n);
 	}
 }	// namespace sprout
 
diff --git a/sprout/cstring/memcpy.hpp b/sprout/cstring/memcpy.hpp
index 37cf503..2567359 100644
--- a/sprout/cstring/memcpy.hpp
+++ b/sprout/cstring/memcpy.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/cstring/detail/byte_ptr.hpp>
 #include <sprout/algorithm/cxx14/copy.hpp>
 
 namespace sprout {
@@ -32,7 +33,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR void*
 	memcpy(T s1, CT s2, std::size_t n) {
-		return sprout::detail::memcpy(static_cast<unsigned char*>(s1), static_cast<unsigned char const*>(s2), n);
+		return sprout::detail::memcpy(sprout::detail::byte_ptr(s1), sprout::detail::byte_ptr(s2), n);
 	}
 }	// namespace sprout
 
diff --git a/sprout/cstring/memmove.hpp b/sprout/cstring/memmove.hpp
index 30839a6..572ca73 100644
--- a/sprout/cstring/memmove.hpp
+++ b/sprout/cstring/memmove.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/cstring/detail/byte_ptr.hpp>
 #include <sprout/algorithm/cxx14/copy_backward.hpp>
 
 namespace sprout {
@@ -32,7 +33,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR void*
 	memmove(T s1, CT s2, std::size_t n) {
-		return sprout::detail::memmove(static_cast<unsigned char*>(s1), static_cast<unsigned char const*>(s2), n);
+		return sprout::detail::memmove(sprout::detail::byte_ptr(s1), sprout::detail::byte_ptr(s2), n);
 	}
 }	// namespace sprout
 
diff --git a/sprout/cstring/memset.hpp b/sprout/cstring/memset.hpp
index 60b7045..8c9e180 100644
--- a/sprout/cstring/memset.hpp
+++ b/sprout/cstring/memset.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/cstring/detail/byte_ptr.hpp>
 #include <sprout/algorithm/cxx14/fill.hpp>
 
 namespace sprout {
@@ -32,7 +33,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR void*
 	memset(T s, int c, std::size_t n) {
-		return sprout::detail::memset(static_cast<unsigned char*>(s), static_cast<unsigned char>(c), n);
+		return sprout::detail::memset(sprout::detail::byte_ptr(s), static_cast<unsigned char>(c), n);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 7fbec1e5488a5a0709eaaa02dd5a8961f179f313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 099/277] fix: memmove wrote before the destination

---
 sprout/cstring/memmove.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sprout/cstring/memmove.hpp b/sprout/cstring/memmove.hpp
index 572ca73..3dfefd0 100644
--- a/sprout/cstring/memmove.hpp
+++ b/sprout/cstring/memmove.hpp
@@ -13,6 +13,7 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 #include <sprout/cstring/detail/byte_ptr.hpp>
+#include <sprout/algorithm/cxx14/copy.hpp>
 #include <sprout/algorithm/cxx14/copy_backward.hpp>
 
 namespace sprout {
@@ -20,7 +21,13 @@ namespace sprout {
 		template<typename PtrIterator, typename ConstPtrIterator>
 		inline SPROUT_CXX14_CONSTEXPR PtrIterator
 		memmove(PtrIterator s1, ConstPtrIterator s2, std::size_t n) {
-			sprout::copy_backward(s2, s2 + n, s1);
+			for (std::size_t i = 0; i != n; ++i) {
+				if (s2 + i == s1) {
+					sprout::copy_backward(s2, s2 + n, s1 + n);
+					return s1;
+				}
+			}
+			sprout::copy(s2, s2 + n, s1);
 			return s1;
 		}
 	}	// namespace detail
-- 
2.43.0


From b9df4677e5d67538fb7f953ba187705ad100195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 100/277] fix: strcat appended after the terminating null
 character

---
 sprout/cstring/strcat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/cstring/strcat.hpp b/sprout/cstring/strcat.hpp
index 8fb224a..6145231 100644
--- a/sprout/cstring/strcat.hpp
+++ b/sprout/cstring/strcat.hpp
@@ -16,8 +16,9 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR OutputNullTerminatedIterator
 		strcat(OutputNullTerminatedIterator s1, NullTerminatedIterator s2) {
 			OutputNullTerminatedIterator result = s1;
-			while (*s1++)
-				;
+			while (*s1) {
+				++s1;
+			}
 			while ((*s1++ = *s2++))
 				;
 			return result;
-- 
2.43.0


From 12f86129bce82cb03fb259898795e18544adc8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 101/277] fix: strncat wrote a second null character when the
 source ended first

---
 sprout/cstring/strncat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/cstring/strncat.hpp b/sprout/cstring/strncat.hpp
index 8b8167c..fa04136 100644
--- a/sprout/cstring/strncat.hpp
+++ b/sprout/cstring/strncat.hpp
@@ -23,9 +23,10 @@ namespace sprout {
 			}
 			while (n) {
 				--n;
-				if (!(*s1++ = *s2++)) {
-					break;
+				if (!(*s1 = *s2++)) {
+					return result;
 				}
+				++s1;
 			}
 			*s1 = value_type();
 			return result;
-- 
2.43.0


From 53beb14c01b65893a5b60b3d9972ada5824d6d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 102/277] fix: strcmp and strncmp compared characters as
 signed, and did not accept const and mutable pointers together

---
 sprout/cstring/strcmp.hpp  | 68 +++++++++++++++++++++++++++-----------
 sprout/cstring/strncmp.hpp | 16 +++------
 2 files changed, 52 insertions(+), 32 deletions(-)

diff --git a/sprout/cstring/strcmp.hpp b/sprout/cstring/strcmp.hpp
index 944c9d5..de2b4f5 100644
--- a/sprout/cstring/strcmp.hpp
+++ b/sprout/cstring/strcmp.hpp
@@ -11,6 +11,7 @@
 #include <iterator>
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/iterator/operation.hpp>
 #include <sprout/utility/pair/pair.hpp>
 #include <sprout/tuple/tuple/tuple.hpp>
@@ -19,26 +20,48 @@
 
 namespace sprout {
 	namespace detail {
+		//
+		// strcmp_value
+		//	char is compared as unsigned char
+		//
+		inline SPROUT_CONSTEXPR unsigned char
+		strcmp_value(char c) {
+			return static_cast<unsigned char>(c);
+		}
+		template<typename Elem>
+		inline SPROUT_CONSTEXPR Elem
+		strcmp_value(Elem c) {
+			return c;
+		}
+
+		//
+		// the third element: 0: not decided, -1, 1: different, 2: both ended
+		//
 		template<typename InputIterator1, typename InputIterator2>
 		inline SPROUT_CONSTEXPR int
 		strcmp_impl_check(sprout::tuples::tuple<InputIterator1, InputIterator2, int> const& found) {
-			return !*sprout::tuples::get<1>(found) ? (!*sprout::tuples::get<0>(found) ? 0 : 1)
-				: !*sprout::tuples::get<0>(found) ? -1
+			return sprout::tuples::get<2>(found) == 2 ? 0
 				: sprout::tuples::get<2>(found)
 				;
 		}
+		template<typename Type, typename InputIterator1, typename InputIterator2, typename Elem>
+		inline SPROUT_CONSTEXPR Type
+		strcmp_impl_2(InputIterator1 first1, InputIterator2 first2, Elem c1, Elem c2) {
+			return c1 < c2 ? Type(first1, first2, -1)
+				: c2 < c1 ? Type(first1, first2, 1)
+				: !c1 ? Type(first1, first2, 2)
+				: Type(sprout::next(first1), sprout::next(first2), 0)
+				;
+		}
 		template<typename InputIterator1, typename InputIterator2>
 		inline SPROUT_CONSTEXPR sprout::tuples::tuple<InputIterator1, InputIterator2, int>
-		strcmp_impl_1(
-			sprout::tuples::tuple<InputIterator1, InputIterator2, int> const& current,
-			typename std::iterator_traits<InputIterator1>::difference_type n
-			)
-		{
+		strcmp_impl_1(sprout::tuples::tuple<InputIterator1, InputIterator2, int> const& current, std::size_t n) {
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, int> type;
-			return sprout::tuples::get<2>(current) || !*sprout::tuples::get<1>(current) || !*sprout::tuples::get<0>(current) ? current
-				: n == 1 ? (*sprout::tuples::get<0>(current)) < (*sprout::tuples::get<1>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), -1)
-					: (*sprout::tuples::get<1>(current)) < (*sprout::tuples::get<0>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), 1)
-					: type(sprout::next(sprout::tuples::get<0>(current)), sprout::next(sprout::tuples::get<1>(current)), 0)
+			return sprout::tuples::get<2>(current) ? current
+				: n == 1 ? sprout::detail::strcmp_impl_2<type>(
+					sprout::tuples::get<0>(current), sprout::tuples::get<1>(current),
+					sprout::detail::strcmp_value(*sprout::tuples::get<0>(current)), sprout::detail::strcmp_value(*sprout::tuples::get<1>(current))
+					)
 				: sprout::detail::strcmp_impl_1(
 					sprout::detail::strcmp_impl_1(
 						current,
@@ -50,12 +73,8 @@ namespace sprout {
 		}
 		template<typename InputIterator1, typename InputIterator2>
 		inline SPROUT_CONSTEXPR sprout::tuples::tuple<InputIterator1, InputIterator2, int>
-		strcmp_impl(
-			sprout::tuples::tuple<InputIterator1, InputIterator2, int> const& current,
-			typename std::iterator_traits<InputIterator1>::difference_type n
-			)
-		{
-			return sprout::tuples::get<2>(current) || !*sprout::tuples::get<1>(current) || !*sprout::tuples::get<0>(current) ? current
+		strcmp_impl(sprout::tuples::tuple<InputIterator1, InputIterator2, int> const& current, std::size_t n) {
+			return sprout::tuples::get<2>(current) ? current
 				: sprout::detail::strcmp_impl(
 					sprout::detail::strcmp_impl_1(
 						current,
@@ -67,13 +86,22 @@ namespace sprout {
 		}
 		template<typename InputIterator1, typename InputIterator2>
 		inline SPROUT_CONSTEXPR int
-		strcmp(InputIterator1 first1, InputIterator2 first2)
-		{
+		strcmp(InputIterator1 first1, InputIterator2 first2) {
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, int> type;
 			return sprout::detail::strcmp_impl_check(
 				sprout::detail::strcmp_impl(type(first1, first2, 0), 1)
 				);
 		}
+		template<typename InputIterator1, typename InputIterator2>
+		inline SPROUT_CONSTEXPR int
+		strncmp(InputIterator1 first1, InputIterator2 first2, std::size_t n) {
+			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, int> type;
+			return n == 0 ? 0
+				: sprout::detail::strcmp_impl_check(
+					sprout::detail::strcmp_impl_1(type(first1, first2, 0), n)
+					)
+				;
+		}
 	}	// namespace detail
 
 	// 7.21.4.2 strcmp function
@@ -91,7 +119,7 @@ namespace sprout {
 		sprout::is_char_type<Elem>::value,
 		int
 	>::type
-	strcmp(Elem* s1, Elem* s2) {
+	strcmp(Elem const* s1, Elem const* s2) {
 		return sprout::detail::strcmp(s1, s2);
 	}
 }	// namespace sprout
diff --git a/sprout/cstring/strncmp.hpp b/sprout/cstring/strncmp.hpp
index eaa463f..0f7e75f 100644
--- a/sprout/cstring/strncmp.hpp
+++ b/sprout/cstring/strncmp.hpp
@@ -11,9 +11,8 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
-#include <sprout/iterator/ptr_index_iterator.hpp>
 #include <sprout/type_traits/is_char_type.hpp>
-#include <sprout/algorithm/tristate_lexicographical_compare.hpp>
+#include <sprout/cstring/strcmp.hpp>
 
 namespace sprout {
 
@@ -24,10 +23,7 @@ namespace sprout {
 	//
 	inline SPROUT_CONSTEXPR int
 	strncmp(char const* s1, char const* s2, std::size_t n) {
-		return sprout::tristate_lexicographical_compare(
-			sprout::ptr_index(s1), sprout::ptr_index(s1, n), '\0',
-			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0'
-			);
+		return sprout::detail::strncmp(s1, s2, n);
 	}
 
 	template<typename Elem>
@@ -35,12 +31,8 @@ namespace sprout {
 		sprout::is_char_type<Elem>::value,
 		int
 	>::type
-	strncmp(Elem* s1, Elem* s2, std::size_t n) {
-		typedef typename std::decay<Elem>::type type;
-		return sprout::tristate_lexicographical_compare(
-			sprout::ptr_index(s1), sprout::ptr_index(s1, n), type(),
-			sprout::ptr_index(s2), sprout::ptr_index(s2, n), type()
-			);
+	strncmp(Elem const* s1, Elem const* s2, std::size_t n) {
+		return sprout::detail::strncmp(s1, s2, n);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 836693334fda7bc0dc7d5f2c2b072da71e8c7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 103/277] fix: has_right_shift_assign tested operator>>

---
 sprout/type_traits/has_right_shift_assign.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/type_traits/has_right_shift_assign.hpp b/sprout/type_traits/has_right_shift_assign.hpp
index 4e36183..d8b1486 100644
--- a/sprout/type_traits/has_right_shift_assign.hpp
+++ b/sprout/type_traits/has_right_shift_assign.hpp
@@ -18,7 +18,7 @@ namespace sprout {
 	//
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
 	struct has_right_shift_assign
-		: public sprout::has_shift_right<T, U, R>
+		: public sprout::has_shift_right_assign<T, U, R>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
-- 
2.43.0


From afa044c92570895ff713c111e90642f2b9fa5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:28 +0000
Subject: [PATCH 104/277] fix: strstr of an empty string in an empty string
 returned a null pointer

---
 sprout/cstring/strstr.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/sprout/cstring/strstr.hpp b/sprout/cstring/strstr.hpp
index e860257..4fbb8e0 100644
--- a/sprout/cstring/strstr.hpp
+++ b/sprout/cstring/strstr.hpp
@@ -122,9 +122,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR ForwardIterator1
 		strstr(ForwardIterator1 first1, ForwardIterator2 first2) {
 			typedef sprout::pair<ForwardIterator1, bool> type;
-			return !*first2 ? first1
-				: sprout::detail::strstr_impl(type(first1, false), first2, 1).first
-				;
+			return sprout::detail::strstr_impl(type(first1, false), first2, 1).first;
 		}
 	}	// namespace detail
 
@@ -135,15 +133,19 @@ namespace sprout {
 	//
 	inline SPROUT_CONSTEXPR char const*
 	strstr(char const* s1, char const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 	inline SPROUT_CONSTEXPR char*
 	strstr(char* s1, char const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 
 	template<typename Elem>
@@ -152,9 +154,11 @@ namespace sprout {
 		Elem*
 	>::type
 	strstr(Elem* s1, typename std::remove_const<Elem>::type const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 8ab182b03da56d528813a74cbf58b06604d1cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:28 +0000
Subject: [PATCH 105/277] fix: isclassified ignored its mask

---
 sprout/ctype/ascii.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/ctype/ascii.hpp b/sprout/ctype/ascii.hpp
index 0352dc1..32acd17 100644
--- a/sprout/ctype/ascii.hpp
+++ b/sprout/ctype/ascii.hpp
@@ -250,18 +250,18 @@ namespace sprout {
 		} \
 		inline SPROUT_CONSTEXPR bool \
 		SPROUT_PP_CAT(is, SPROUT_PP_CAT(PREFIX, classified))(sprout::ctypes::mask m, CHAR_TYPE c) { \
-			return (m | sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
-				|| (m | sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
-				|| (m | sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
-				|| (m | sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
-				|| (m | sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
-				|| (m | sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
-				|| (m | sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
-				|| (m | sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
-				|| (m | sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
-				|| (m | sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
-				|| (m | sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
-				|| (m | sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
+			return ((m & sprout::ctypes::alnum) == sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
+				|| ((m & sprout::ctypes::alpha) == sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
+				|| ((m & sprout::ctypes::blank) == sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
+				|| ((m & sprout::ctypes::cntrl) == sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
+				|| ((m & sprout::ctypes::digit) == sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
+				|| ((m & sprout::ctypes::graph) == sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
+				|| ((m & sprout::ctypes::lower) == sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
+				|| ((m & sprout::ctypes::print) == sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
+				|| ((m & sprout::ctypes::punct) == sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
+				|| ((m & sprout::ctypes::space) == sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
+				|| ((m & sprout::ctypes::upper) == sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
+				|| ((m & sprout::ctypes::xdigit) == sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
 				; \
 		}
 
-- 
2.43.0


From f1f30baec7483f2ba2bc67b78523547fbf9bad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 106/277] fix: bitset could not be constructed from a character
 pointer

---
 sprout/bitset/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 1bab338..5a086c3 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -1146,7 +1146,7 @@ namespace sprout {
 		}
 		template<typename Char>
 		explicit SPROUT_NON_CONSTEXPR bitset(
-			Char const* str, typename std::basic_string<Char>::size_typeype n = std::basic_string<Char>::npos,
+			Char const* str, typename std::basic_string<Char>::size_type n = std::basic_string<Char>::npos,
 			Char zero = SPROUT_CHAR_LITERAL('0', Char), Char one = SPROUT_CHAR_LITERAL('1', Char)
 			)
 			: base_type()
-- 
2.43.0


From 90f73f6a489ccf72ae250eb5ff9d1f2143a88260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 107/277] fix: bitset find_first and find_next did not compile

---
 sprout/bitset/bitset.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 5a086c3..b1cf2c9 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 				return first == last ? not_found
 					: *first != static_cast<word_type>(0)
 						? i * (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value) + sprout::ctz(*first)
-					: find_next_impl_2(not_found, first + 1, last)
+					: find_next_impl_2(not_found, first + 1, last, i + 1)
 					;
 			}
 			SPROUT_CONSTEXPR size_type
@@ -1389,11 +1389,11 @@ namespace sprout {
 
 		SPROUT_CONSTEXPR size_type
 		find_first() const SPROUT_NOEXCEPT {
-			return this->find_first(N);
+			return base_type::find_first(N);
 		}
 		SPROUT_CONSTEXPR size_type
 		find_next(size_type prev) const SPROUT_NOEXCEPT {
-			return this->find_next(prev, N);
+			return base_type::find_next(prev, N);
 		}
 
 	public:
-- 
2.43.0


From 37f01347446f450879e0d0f771c406b1aca9924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 108/277] fix: modifying a bit of bitset<0> did not compile
 instead of throwing out_of_range

---
 sprout/bitset/bitset.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index b1cf2c9..23d10c2 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -727,11 +727,9 @@ namespace sprout {
 				return *this;
 			}
 
-			SPROUT_CXX14_CONSTEXPR word_type
-			getword(size_type, bool c = false) SPROUT_NOEXCEPT {
-				return SPROUT_ASSERT_MSG(!c, "base_bitset::getword"),
-					0
-					;
+			word_type&
+			getword(size_type) {
+				throw std::out_of_range("base_bitset::getword");
 			}
 			SPROUT_CONSTEXPR word_type
 			getword(size_type) const SPROUT_NOEXCEPT {
-- 
2.43.0


From ca80f28d236eb123753bb6412a5cfe0e3861192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 109/277] fix: reading a bitset from a stream without digits
 did not fail

---
 sprout/bitset/io.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sprout/bitset/io.hpp b/sprout/bitset/io.hpp
index 1b83d86..b0a859b 100644
--- a/sprout/bitset/io.hpp
+++ b/sprout/bitset/io.hpp
@@ -58,10 +58,9 @@ namespace sprout {
 			state |= ios_base::failbit;
 		} else {
 			rhs.copy_from_string(tmp, static_cast<std::size_t>(0), N, zero, one);
-			if (state) {
-				lhs.setstate(state);
-				return lhs;
-			}
+		}
+		if (state) {
+			lhs.setstate(state);
 		}
 		return lhs;
 	}
-- 
2.43.0


From 04341f79edd4842613f8a0bca18ffb5efeebdedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 110/277] fix: setting, resetting and flipping the bits up to
 the highest one did nothing

---
 sprout/bit/detail/bit_unsigned.hpp | 32 ++++++++++++++++++++++++++++++
 sprout/bit/flipbit.hpp             |  4 +++-
 sprout/bit/flipbitsge.hpp          |  4 +++-
 sprout/bit/flipbitsle.hpp          |  4 +++-
 sprout/bit/rstbit.hpp              |  4 +++-
 sprout/bit/rstbitsge.hpp           |  4 +++-
 sprout/bit/rstbitsle.hpp           |  4 +++-
 sprout/bit/setbit.hpp              |  4 +++-
 sprout/bit/setbitsge.hpp           |  4 +++-
 sprout/bit/setbitsle.hpp           |  4 +++-
 sprout/bit/testbit.hpp             |  4 +++-
 11 files changed, 62 insertions(+), 10 deletions(-)
 create mode 100644 sprout/bit/detail/bit_unsigned.hpp

diff --git a/sprout/bit/detail/bit_unsigned.hpp b/sprout/bit/detail/bit_unsigned.hpp
new file mode 100644
index 0000000..0f57410
--- /dev/null
+++ b/sprout/bit/detail/bit_unsigned.hpp
@@ -0,0 +1,32 @@
+/*=============================================================================
+  Copyright (c) 2011-2019 Bolero MURAKAMI
+  https://github.com/bolero-MURAKAMI/Sprout
+
+  Distributed under the Boost Software License, Version 1.0. (See accompanying
+  file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
+=============================================================================*/
+#ifndef SPROUT_BIT_DETAIL_BIT_UNSIGNED_HPP
+#define SPROUT_BIT_DETAIL_BIT_UNSIGNED_HPP
+
+#include <type_traits>
+#include <sprout/config.hpp>
+
+namespace sprout {
+	namespace detail {
+		//
+		// bit_unsigned
+		//	the type to calculate bits of Integral in: overflow and shifts into the sign bit are well defined
+		//
+		template<typename Integral>
+		struct bit_unsigned
+			: public std::make_unsigned<Integral>
+		{};
+		template<>
+		struct bit_unsigned<bool> {
+		public:
+			typedef unsigned type;
+		};
+	}	// namespace detail
+}	// namespace sprout
+
+#endif	// #ifndef SPROUT_BIT_DETAIL_BIT_UNSIGNED_HPP
diff --git a/sprout/bit/flipbit.hpp b/sprout/bit/flipbit.hpp
index ff68c80..2a84e62 100644
--- a/sprout/bit/flipbit.hpp
+++ b/sprout/bit/flipbit.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	flipbit(Integral x, int b) SPROUT_NOEXCEPT {
-		return x ^ (Integral(1) << b);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) ^ (type(1) << b));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/flipbitsge.hpp b/sprout/bit/flipbitsge.hpp
index 06effdb..5722c37 100644
--- a/sprout/bit/flipbitsge.hpp
+++ b/sprout/bit/flipbitsge.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	flipbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x ^ ~((Integral(1) << b) - 1);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) ^ ~((type(1) << b) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/flipbitsle.hpp b/sprout/bit/flipbitsle.hpp
index 4590515..dbf7c29 100644
--- a/sprout/bit/flipbitsle.hpp
+++ b/sprout/bit/flipbitsle.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	flipbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x ^ ((Integral(1) << (b + 1)) - 1);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) ^ ((type(2) << b) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstbit.hpp b/sprout/bit/rstbit.hpp
index 18ba605..5bd2fd0 100644
--- a/sprout/bit/rstbit.hpp
+++ b/sprout/bit/rstbit.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstbit(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & ~(Integral(1) << b);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & ~(type(1) << b));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstbitsge.hpp b/sprout/bit/rstbitsge.hpp
index 61b605a..b123f1c 100644
--- a/sprout/bit/rstbitsge.hpp
+++ b/sprout/bit/rstbitsge.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & ((Integral(1) << b) - 1);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & ((type(1) << b) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstbitsle.hpp b/sprout/bit/rstbitsle.hpp
index 8f5044f..a7234c4 100644
--- a/sprout/bit/rstbitsle.hpp
+++ b/sprout/bit/rstbitsle.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & ~((Integral(1) << (b + 1)) - 1);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & ~((type(2) << b) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setbit.hpp b/sprout/bit/setbit.hpp
index 38a913a..8eec32e 100644
--- a/sprout/bit/setbit.hpp
+++ b/sprout/bit/setbit.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	setbit(Integral x, int b) SPROUT_NOEXCEPT {
-		return x | (Integral(1) << b);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | (type(1) << b));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setbitsge.hpp b/sprout/bit/setbitsge.hpp
index ea82f41..0246907 100644
--- a/sprout/bit/setbitsge.hpp
+++ b/sprout/bit/setbitsge.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	setbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x | ~((Integral(1) << b) - 1);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | ~((type(1) << b) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setbitsle.hpp b/sprout/bit/setbitsle.hpp
index 604ad71..b49aa1d 100644
--- a/sprout/bit/setbitsle.hpp
+++ b/sprout/bit/setbitsle.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	setbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x | ((Integral(1) << (b + 1)) - 1);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | ((type(2) << b) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/testbit.hpp b/sprout/bit/testbit.hpp
index 8d136df..cbc9956 100644
--- a/sprout/bit/testbit.hpp
+++ b/sprout/bit/testbit.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		bool
 	>::type
 	testbit(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & (Integral(1) << b);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return (static_cast<type>(x) & (type(1) << b)) != 0;
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 3a06fba652799fe3a5a65c3ab953abca2984fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 111/277] fix: right-most bit operations overflowed for the
 largest and smallest signed values

---
 sprout/bit/isols0b.hpp    | 4 +++-
 sprout/bit/isols1b.hpp    | 4 +++-
 sprout/bit/maskt0.hpp     | 4 +++-
 sprout/bit/maskt0ls1b.hpp | 4 +++-
 sprout/bit/maskt1.hpp     | 4 +++-
 sprout/bit/maskt1ls0b.hpp | 4 +++-
 sprout/bit/rstls1b.hpp    | 4 +++-
 sprout/bit/rstt1.hpp      | 4 +++-
 sprout/bit/setls0b.hpp    | 4 +++-
 sprout/bit/sett0.hpp      | 4 +++-
 10 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/sprout/bit/isols0b.hpp b/sprout/bit/isols0b.hpp
index c5dc1a2..510817a 100644
--- a/sprout/bit/isols0b.hpp
+++ b/sprout/bit/isols0b.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	isols0b(Integral x) SPROUT_NOEXCEPT {
-		return ~x & (x + 1);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(~static_cast<type>(x) & (static_cast<type>(x) + 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/isols1b.hpp b/sprout/bit/isols1b.hpp
index 22102e8..e8818af 100644
--- a/sprout/bit/isols1b.hpp
+++ b/sprout/bit/isols1b.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	isols1b(Integral x) SPROUT_NOEXCEPT {
-		return x & -x;
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & (type(0) - static_cast<type>(x)));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt0.hpp b/sprout/bit/maskt0.hpp
index c8f7903..3f0f5bf 100644
--- a/sprout/bit/maskt0.hpp
+++ b/sprout/bit/maskt0.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt0(Integral x) SPROUT_NOEXCEPT {
-		return ~x & (x - 1);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(~static_cast<type>(x) & (static_cast<type>(x) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt0ls1b.hpp b/sprout/bit/maskt0ls1b.hpp
index 26c8ef9..0fe3d61 100644
--- a/sprout/bit/maskt0ls1b.hpp
+++ b/sprout/bit/maskt0ls1b.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt0ls1b(Integral x) SPROUT_NOEXCEPT {
-		return (x - 1) ^ x;
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>((static_cast<type>(x) - 1) ^ static_cast<type>(x));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt1.hpp b/sprout/bit/maskt1.hpp
index 76190b3..56b3cac 100644
--- a/sprout/bit/maskt1.hpp
+++ b/sprout/bit/maskt1.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt1(Integral x) SPROUT_NOEXCEPT {
-		return ~(~x | (x + 1));
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(~(~static_cast<type>(x) | (static_cast<type>(x) + 1)));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt1ls0b.hpp b/sprout/bit/maskt1ls0b.hpp
index f218c31..d35221d 100644
--- a/sprout/bit/maskt1ls0b.hpp
+++ b/sprout/bit/maskt1ls0b.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt1ls0b(Integral x) SPROUT_NOEXCEPT {
-		return x ^ (x + 1);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) ^ (static_cast<type>(x) + 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstls1b.hpp b/sprout/bit/rstls1b.hpp
index d3ada72..260fc85 100644
--- a/sprout/bit/rstls1b.hpp
+++ b/sprout/bit/rstls1b.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstls1b(Integral x) SPROUT_NOEXCEPT {
-		return x & (x - 1);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & (static_cast<type>(x) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstt1.hpp b/sprout/bit/rstt1.hpp
index 96253f6..5ba3815 100644
--- a/sprout/bit/rstt1.hpp
+++ b/sprout/bit/rstt1.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstt1(Integral x) SPROUT_NOEXCEPT {
-		return x & (x + 1);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & (static_cast<type>(x) + 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setls0b.hpp b/sprout/bit/setls0b.hpp
index 496971d..a484242 100644
--- a/sprout/bit/setls0b.hpp
+++ b/sprout/bit/setls0b.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	setls0b(Integral x) SPROUT_NOEXCEPT {
-		return x | (x + 1);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | (static_cast<type>(x) + 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/sett0.hpp b/sprout/bit/sett0.hpp
index 6c5f801..9ea1adc 100644
--- a/sprout/bit/sett0.hpp
+++ b/sprout/bit/sett0.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/detail/bit_unsigned.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +22,8 @@ namespace sprout {
 		Integral
 	>::type
 	sett0(Integral x) SPROUT_NOEXCEPT {
-		return x | (x - 1);
+		typedef typename sprout::detail::bit_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | (static_cast<type>(x) - 1));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 478295af13435683b81d1b2f175fb521cfdb3b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 112/277] fix: rotating by zero shifted by the whole width

---
 sprout/bit/rotl.hpp | 5 ++++-
 sprout/bit/rotr.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sprout/bit/rotl.hpp b/sprout/bit/rotl.hpp
index 3e39668..704e02f 100644
--- a/sprout/bit/rotl.hpp
+++ b/sprout/bit/rotl.hpp
@@ -11,6 +11,7 @@
 #include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/shll.hpp>
 #include <sprout/bit/shlr.hpp>
 
 namespace sprout {
@@ -23,7 +24,9 @@ namespace sprout {
 		Integral
 	>::type
 	rotl(Integral x, int s) SPROUT_NOEXCEPT {
-		return (x << s) | sprout::shlr(x, sizeof(x) * CHAR_BIT - s);
+		return s == 0 ? x
+			: static_cast<Integral>(sprout::shll(x, s) | sprout::shlr(x, sizeof(x) * CHAR_BIT - s))
+			;
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rotr.hpp b/sprout/bit/rotr.hpp
index 3327e01..45d2676 100644
--- a/sprout/bit/rotr.hpp
+++ b/sprout/bit/rotr.hpp
@@ -11,6 +11,7 @@
 #include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/shll.hpp>
 #include <sprout/bit/shlr.hpp>
 
 namespace sprout {
@@ -23,7 +24,9 @@ namespace sprout {
 		Integral
 	>::type
 	rotr(Integral x, int s) SPROUT_NOEXCEPT {
-		return sprout::shlr(x, s) | (x << (sizeof(x) * CHAR_BIT - s));
+		return s == 0 ? x
+			: static_cast<Integral>(sprout::shlr(x, s) | sprout::shll(x, sizeof(x) * CHAR_BIT - s))
+			;
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 01fe841c79dd20f19cfba88ab01239c4521fd081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 113/277] fix: clrsb counted leading ones, cntl1 counted sign
 bits for unsigned and cntt1 gave 32 for a narrow all ones

---
 sprout/bit/clrsb.hpp | 9 ++++++++-
 sprout/bit/cntl1.hpp | 4 ++--
 sprout/bit/cntt1.hpp | 2 +-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/sprout/bit/clrsb.hpp b/sprout/bit/clrsb.hpp
index 96f5bc4..063a883 100644
--- a/sprout/bit/clrsb.hpp
+++ b/sprout/bit/clrsb.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_BIT_CLRSB_HPP
 #define SPROUT_BIT_CLRSB_HPP
 
+#include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/bit/clz.hpp>
@@ -31,7 +32,13 @@ namespace sprout {
 		template<typename Integral>
 		inline SPROUT_CONSTEXPR int
 		clrsb(Integral x) SPROUT_NOEXCEPT {
-			return sprout::clz(~x);
+			typedef typename std::make_unsigned<Integral>::type type;
+			return sprout::clz(
+				static_cast<type>(
+					static_cast<type>(x) >> (sizeof(Integral) * CHAR_BIT - 1) ? ~static_cast<type>(x)
+						: static_cast<type>(x)
+					)
+				) - 1;
 		}
 	}	// namespace detail
 	//
diff --git a/sprout/bit/cntl1.hpp b/sprout/bit/cntl1.hpp
index a54b84f..b1cd2f8 100644
--- a/sprout/bit/cntl1.hpp
+++ b/sprout/bit/cntl1.hpp
@@ -10,7 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
-#include <sprout/bit/clrsb.hpp>
+#include <sprout/bit/clz.hpp>
 
 namespace sprout {
 	//
@@ -22,7 +22,7 @@ namespace sprout {
 		int
 	>::type
 	cntl1(Integral x) SPROUT_NOEXCEPT {
-		return sprout::clrsb(x);
+		return sprout::clz(static_cast<Integral>(~x));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/cntt1.hpp b/sprout/bit/cntt1.hpp
index 0a6b207..76d9500 100644
--- a/sprout/bit/cntt1.hpp
+++ b/sprout/bit/cntt1.hpp
@@ -22,7 +22,7 @@ namespace sprout {
 		int
 	>::type
 	cntt1(Integral x) SPROUT_NOEXCEPT {
-		return sprout::ctz(~x);
+		return sprout::ctz(static_cast<Integral>(~x));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 7a4cb44ffa2db72b4c730c5ca59473f2f4cd9d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 114/277] fix: bit_reverse_in of length zero shifted by the
 whole width

---
 sprout/bit/bit_reverse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/bit/bit_reverse.hpp b/sprout/bit/bit_reverse.hpp
index 3a46d39..6e2e041 100644
--- a/sprout/bit/bit_reverse.hpp
+++ b/sprout/bit/bit_reverse.hpp
@@ -78,8 +78,8 @@ namespace sprout {
 	>::type
 	bit_reverse_in(Integral x, int length) {
 		typedef typename std::make_unsigned<Integral>::type unsigned_type;
-		return SPROUT_ASSERT(length <= sizeof(Integral) * CHAR_BIT),
-			static_cast<Integral>(
+		return SPROUT_ASSERT(0 <= length && length <= static_cast<int>(sizeof(Integral) * CHAR_BIT)),
+			length == 0 ? Integral(0) : static_cast<Integral>(
 				sprout::detail::bit_rev<sizeof(Integral)>().template operator()<unsigned_type>(x)
 					>> (sizeof(Integral) * CHAR_BIT - length)
 				)
-- 
2.43.0


From d2c75a86af104dbe6427c6d631afff402276d88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 115/277] fix: carry_to_exp2 overflowed for signed values
 beyond half of the range

---
 sprout/integer/carry_to_exp2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/integer/carry_to_exp2.hpp b/sprout/integer/carry_to_exp2.hpp
index 7eceb15..876d5e5 100644
--- a/sprout/integer/carry_to_exp2.hpp
+++ b/sprout/integer/carry_to_exp2.hpp
@@ -23,7 +23,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR IntType
 		carry_to_exp2_simpl(IntType x) {
 			return sprout::popcount(x) <= 1 ? x
-				: IntType(1) << (sizeof(IntType) * CHAR_BIT - sprout::cntl0(x))
+				: static_cast<IntType>(typename std::make_unsigned<IntType>::type(1) << (sizeof(IntType) * CHAR_BIT - sprout::cntl0(x)))
 				;
 		}
 		template<typename UIntType>
@@ -56,6 +56,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR IntType
 	carry_to_exp2(IntType x) {
 		return x == std::numeric_limits<IntType>::min() ? x
+			: x < -static_cast<IntType>(std::numeric_limits<IntType>::max() / 2 + 1) ? std::numeric_limits<IntType>::min()
 			: x < IntType(0) ? -sprout::detail::carry_to_exp2_simpl(-x)
 			: sprout::detail::carry_to_exp2_simpl(x)
 			;
-- 
2.43.0


From aeaf9d831a55f792f6297984dc7a45011f4d6760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:58 +0000
Subject: [PATCH 116/277] fix: endian_traits gave wrong bytes for the upper
 half of 64 bit integers

---
 sprout/endian_traits.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sprout/endian_traits.hpp b/sprout/endian_traits.hpp
index c18b994..110edec 100644
--- a/sprout/endian_traits.hpp
+++ b/sprout/endian_traits.hpp
@@ -53,14 +53,17 @@ namespace sprout {
 			static SPROUT_CONSTEXPR unsigned char
 			get_byte(type const& t, std::size_t i) {
 				return static_cast<unsigned char>(
-					(t & (UCHAR_MAX << CHAR_BIT * ((size() - 1) - i)))
+					static_cast<typename std::make_unsigned<type>::type>(t)
 						>> CHAR_BIT * ((size() - 1) - i)
 					);
 			}
 			static SPROUT_CXX14_CONSTEXPR void
 			set_byte(type& t, std::size_t i, unsigned char value) {
-				t &= ~(UCHAR_MAX << CHAR_BIT * ((size() - 1) - i));
-				t |= (value << CHAR_BIT * ((size() - 1) - i));
+				typedef typename std::make_unsigned<type>::type unsigned_type;
+				t = static_cast<type>(
+					(static_cast<unsigned_type>(t) & ~(static_cast<unsigned_type>(UCHAR_MAX) << CHAR_BIT * ((size() - 1) - i)))
+						| (static_cast<unsigned_type>(value) << CHAR_BIT * ((size() - 1) - i))
+					);
 			}
 		};
 
@@ -98,14 +101,17 @@ namespace sprout {
 			}
 			static SPROUT_CONSTEXPR unsigned char get_byte(type const& t, std::size_t i) {
 				return static_cast<unsigned char>(
-					(t & (UCHAR_MAX << CHAR_BIT * i))
+					static_cast<typename std::make_unsigned<type>::type>(t)
 						>> CHAR_BIT * i
 					);
 			}
 			static SPROUT_CXX14_CONSTEXPR void
 			set_byte(type& t, std::size_t i, unsigned char value) {
-				t &= ~(UCHAR_MAX << CHAR_BIT * i);
-				t |= (value << CHAR_BIT * i);
+				typedef typename std::make_unsigned<type>::type unsigned_type;
+				t = static_cast<type>(
+					(static_cast<unsigned_type>(t) & ~(static_cast<unsigned_type>(UCHAR_MAX) << CHAR_BIT * i))
+						| (static_cast<unsigned_type>(value) << CHAR_BIT * i)
+					);
 			}
 		};
 	}	// namespace detail
-- 
2.43.0


From 2252c2ee1643bde113aec5d6767056782d2c5c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:58 +0000
Subject: [PATCH 117/277] fix: bytes_iterator moved to the wrong place when
 stepping back

---
 sprout/iterator/bytes_iterator.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sprout/iterator/bytes_iterator.hpp b/sprout/iterator/bytes_iterator.hpp
index 65e73ee..3fcb5a2 100644
--- a/sprout/iterator/bytes_iterator.hpp
+++ b/sprout/iterator/bytes_iterator.hpp
@@ -63,22 +63,26 @@ namespace sprout {
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i)
 			: it_(it) , i_(i)
 		{}
+		static SPROUT_CONSTEXPR difference_type
+		static_size() {
+			return static_cast<difference_type>(traits_type::size());
+		}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, next_tag)
-			: it_(i / traits_type::size() == 0 ? it : sprout::next(it))
-			, i_(i % traits_type::size())
+			: it_(i / static_size() == 0 ? it : sprout::next(it))
+			, i_(i % static_size())
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, prev_tag)
-			: it_((i + 1 - traits_type::size()) / traits_type::size() == 0 ? it : sprout::prev(it))
-			, i_(i % traits_type::size() + traits_type::size())
+			: it_(i >= 0 ? it : sprout::prev(it))
+			, i_(i >= 0 ? i : i + static_size())
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, ra_tag)
 			: it_(i >= 0
-				? sprout::next(it, i / traits_type::size())
-				: sprout::next(it, (i + 1 - traits_type::size()) / traits_type::size())
+				? sprout::next(it, i / static_size())
+				: sprout::next(it, (i + 1 - static_size()) / static_size())
 				)
 			, i_(i >= 0
-				? i % traits_type::size()
-				: i % traits_type::size() + traits_type::size()
+				? i % static_size()
+				: (i % static_size() + static_size()) % static_size()
 				)
 		{}
 	public:
@@ -184,7 +188,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2, typename Traits>
 	inline SPROUT_CONSTEXPR decltype(std::declval<Iterator1>() - std::declval<Iterator2>())
 	operator-(sprout::bytes_iterator<Iterator1, Traits> const& lhs, sprout::bytes_iterator<Iterator2, Traits> const& rhs) {
-		return (lhs.base() - rhs.base()) * Traits::size() + (lhs.index() - rhs.index());
+		return (lhs.base() - rhs.base()) * static_cast<std::ptrdiff_t>(Traits::size()) + (lhs.index() - rhs.index());
 	}
 	template<typename Iterator, typename Traits>
 	inline SPROUT_CONSTEXPR sprout::bytes_iterator<Iterator, Traits>
-- 
2.43.0


From 7c162a55d6c5db672cbd5e390fa197f005f9c6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:58 +0000
Subject: [PATCH 118/277] fix: ntoh did not compile with the PDP byte order

---
 sprout/net/endian.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/net/endian.hpp b/sprout/net/endian.hpp
index 3a69d11..42723d8 100644
--- a/sprout/net/endian.hpp
+++ b/sprout/net/endian.hpp
@@ -160,7 +160,7 @@ namespace sprout {
 #elif defined(SPROUT_LITTLE_ENDIAN)
 			return sprout::net::detail::reverse(net);
 #elif defined(SPROUT_PDP_ENDIAN)
-			return sprout::net::detail::reverse_words(host);
+			return sprout::net::detail::reverse_words(net);
 #else
 			return SPROUT_ASSERT_MSG(0, "ntoh: unsupported endian"), net;
 #endif
-- 
2.43.0


From 5e018ae9ee8077af036e243f4b04f66a243d38d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 119/277] fix: the valarray trigonometric functions did not
 compile and the binary functions read from the end of their second operand

---
 sprout/valarray/power.hpp         |  6 +++---
 sprout/valarray/trigonometric.hpp | 12 +++++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/sprout/valarray/power.hpp b/sprout/valarray/power.hpp
index 448af94..4eb89bf 100644
--- a/sprout/valarray/power.hpp
+++ b/sprout/valarray/power.hpp
@@ -173,7 +173,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	hypot(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::hypot_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::hypot_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
@@ -191,7 +191,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	pow(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::pow_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::pow_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
@@ -217,7 +217,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	log_a(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::log_a_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::log_a_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
diff --git a/sprout/valarray/trigonometric.hpp b/sprout/valarray/trigonometric.hpp
index 92d5e68..d39be43 100644
--- a/sprout/valarray/trigonometric.hpp
+++ b/sprout/valarray/trigonometric.hpp
@@ -12,6 +12,8 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/valarray/valarray.hpp>
 #include <sprout/algorithm/fixed/transform.hpp>
+#include <sprout/functional/bind1st.hpp>
+#include <sprout/functional/bind2nd.hpp>
 #include <sprout/math/acos.hpp>
 #include <sprout/math/asin.hpp>
 #include <sprout/math/atan.hpp>
@@ -56,7 +58,7 @@ namespace sprout_math_detail {
 	call_atan2(T&& x, U&& y)
 	SPROUT_NOEXCEPT_IF_EXPR(atan2(std::declval<T>(), std::declval<U>()))
 	{
-		return atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, u));
+		return atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 	}
 	template<typename T>
 	inline SPROUT_CONSTEXPR decltype(cos(std::declval<T>()))
@@ -199,17 +201,17 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	atan2(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::atan2_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::atan2_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
-	atan2(sprout::valarray<T, N> const& lhs, T const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), x, sprout::bind2nd(sprout::detail::atan2_f()()), y));
+	atan2(sprout::valarray<T, N> const& x, T const& y) {
+		return sprout::fixed::transform(x.begin(), x.end(), x, sprout::bind2nd(sprout::detail::atan2_f(), y));
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	atan2(T const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(y.begin(), y.end(), y, sprout::bind1st(sprout::detail::atan2_f()()), x));
+		return sprout::fixed::transform(y.begin(), y.end(), y, sprout::bind1st(sprout::detail::atan2_f(), x));
 	}
 	//
 	// cos
-- 
2.43.0


From b7e4c70f46957ae8f6299f9e0133da72f66c9e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 120/277] fix: headers did not include what they use

---
 sprout/algorithm/cxx14/generate_n.hpp             | 2 ++
 sprout/algorithm/fit/copy_until.hpp               | 2 +-
 sprout/algorithm/fit/set_difference.hpp           | 2 +-
 sprout/algorithm/fit/set_intersection.hpp         | 2 +-
 sprout/algorithm/fit/set_symmetric_difference.hpp | 2 +-
 sprout/algorithm/fixed/fill.hpp                   | 1 +
 sprout/algorithm/string/join.hpp                  | 1 +
 sprout/brainfuck/misa.hpp                         | 1 +
 sprout/brainfuck/ook.hpp                          | 1 +
 sprout/complex/exp.hpp                            | 1 +
 sprout/complex/perp.hpp                           | 1 +
 sprout/compost/sources/source.hpp                 | 1 +
 sprout/darkroom/lights/calculate.hpp              | 1 +
 sprout/detail/io_fwd.hpp                          | 1 +
 sprout/math/float2_significand.hpp                | 2 +-
 sprout/numeric/fft/fixed/ifft.hpp                 | 1 +
 sprout/random/detail/const_mod.hpp                | 1 +
 sprout/random/poisson_distribution.hpp            | 1 +
 sprout/random/variate_generator.hpp               | 1 +
 sprout/type_traits/is_nothrow_invocable_r.hpp     | 1 +
 sprout/utility/use_default.hpp                    | 1 +
 sprout/uuid/uuid.hpp                              | 1 +
 22 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/sprout/algorithm/cxx14/generate_n.hpp b/sprout/algorithm/cxx14/generate_n.hpp
index 50a2f49..dba7e62 100644
--- a/sprout/algorithm/cxx14/generate_n.hpp
+++ b/sprout/algorithm/cxx14/generate_n.hpp
@@ -9,6 +9,8 @@
 #define SPROUT_ALGORITHM_CXX14_GENERATE_N_HPP
 
 #include <sprout/config.hpp>
+#include <sprout/iterator/type_traits/is_iterator_of.hpp>
+#include <sprout/type_traits/enabler_if.hpp>
 
 namespace sprout {
 	//
diff --git a/sprout/algorithm/fit/copy_until.hpp b/sprout/algorithm/fit/copy_until.hpp
index a745918..59bdf97 100644
--- a/sprout/algorithm/fit/copy_until.hpp
+++ b/sprout/algorithm/fit/copy_until.hpp
@@ -13,7 +13,7 @@
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/algorithm/find_if.hpp>
-#include <sprout/algorithm/fixed/copy_while.hpp>
+#include <sprout/algorithm/fixed/copy_until.hpp>
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
diff --git a/sprout/algorithm/fit/set_difference.hpp b/sprout/algorithm/fit/set_difference.hpp
index fbe0ef9..b25a221 100644
--- a/sprout/algorithm/fit/set_difference.hpp
+++ b/sprout/algorithm/fit/set_difference.hpp
@@ -12,7 +12,7 @@
 #include <sprout/iterator/distance.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
-#include <sprout/algorithm/fixed/set_union.hpp>
+#include <sprout/algorithm/fixed/set_difference.hpp>
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
diff --git a/sprout/algorithm/fit/set_intersection.hpp b/sprout/algorithm/fit/set_intersection.hpp
index 34df2af..b9be539 100644
--- a/sprout/algorithm/fit/set_intersection.hpp
+++ b/sprout/algorithm/fit/set_intersection.hpp
@@ -11,7 +11,7 @@
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
-#include <sprout/algorithm/fixed/set_union.hpp>
+#include <sprout/algorithm/fixed/set_intersection.hpp>
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
diff --git a/sprout/algorithm/fit/set_symmetric_difference.hpp b/sprout/algorithm/fit/set_symmetric_difference.hpp
index 1303158..fab90d2 100644
--- a/sprout/algorithm/fit/set_symmetric_difference.hpp
+++ b/sprout/algorithm/fit/set_symmetric_difference.hpp
@@ -12,7 +12,7 @@
 #include <sprout/iterator/distance.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
-#include <sprout/algorithm/fixed/set_union.hpp>
+#include <sprout/algorithm/fixed/set_symmetric_difference.hpp>
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
diff --git a/sprout/algorithm/fixed/fill.hpp b/sprout/algorithm/fixed/fill.hpp
index 0b9e3e0..6919876 100644
--- a/sprout/algorithm/fixed/fill.hpp
+++ b/sprout/algorithm/fixed/fill.hpp
@@ -12,6 +12,7 @@
 #include <sprout/index_tuple/metafunction.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/indexes.hpp>
 #include <sprout/iterator/operation.hpp>
 #include <sprout/iterator/value_iterator.hpp>
 #include <sprout/algorithm/fixed/results.hpp>
diff --git a/sprout/algorithm/string/join.hpp b/sprout/algorithm/string/join.hpp
index 29c5b58..ff4797a 100644
--- a/sprout/algorithm/string/join.hpp
+++ b/sprout/algorithm/string/join.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/array/array.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/container/indexes.hpp>
diff --git a/sprout/brainfuck/misa.hpp b/sprout/brainfuck/misa.hpp
index 8919c6f..b9219a6 100644
--- a/sprout/brainfuck/misa.hpp
+++ b/sprout/brainfuck/misa.hpp
@@ -22,6 +22,7 @@
 #include <sprout/weed/parser/string/string.hpp>
 #include <sprout/weed/parser/directive/replace.hpp>
 #include <sprout/weed/operator.hpp>
+#include <sprout/brainfuck/brainfuck.hpp>
 #include <sprout/brainfuck/detail/convert.hpp>
 
 namespace sprout {
diff --git a/sprout/brainfuck/ook.hpp b/sprout/brainfuck/ook.hpp
index ab87f54..1b74729 100644
--- a/sprout/brainfuck/ook.hpp
+++ b/sprout/brainfuck/ook.hpp
@@ -22,6 +22,7 @@
 #include <sprout/weed/parser/string/string.hpp>
 #include <sprout/weed/parser/directive/replace.hpp>
 #include <sprout/weed/operator.hpp>
+#include <sprout/brainfuck/brainfuck.hpp>
 #include <sprout/brainfuck/detail/convert.hpp>
 
 namespace sprout {
diff --git a/sprout/complex/exp.hpp b/sprout/complex/exp.hpp
index 29f0495..60f523b 100644
--- a/sprout/complex/exp.hpp
+++ b/sprout/complex/exp.hpp
@@ -14,6 +14,7 @@
 #include <sprout/math/isinf.hpp>
 #include <sprout/math/isinf.hpp>
 #include <sprout/math/copysign.hpp>
+#include <sprout/math/exp.hpp>
 #include <sprout/complex/complex.hpp>
 #include <sprout/complex/polar.hpp>
 #include <sprout/complex/euler.hpp>
diff --git a/sprout/complex/perp.hpp b/sprout/complex/perp.hpp
index 572c5b0..095852f 100644
--- a/sprout/complex/perp.hpp
+++ b/sprout/complex/perp.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/complex/complex.hpp>
 #include <sprout/type_traits/float_promote.hpp>
+#include <sprout/type_traits/complex_promote.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
 namespace sprout {
diff --git a/sprout/compost/sources/source.hpp b/sprout/compost/sources/source.hpp
index 60381be..edd6bab 100644
--- a/sprout/compost/sources/source.hpp
+++ b/sprout/compost/sources/source.hpp
@@ -9,6 +9,7 @@
 #define SPROUT_COMPOST_SOURCES_SOURCE_HPP
 
 #include <sprout/config.hpp>
+#include <cstdint>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/array/array.hpp>
 
diff --git a/sprout/darkroom/lights/calculate.hpp b/sprout/darkroom/lights/calculate.hpp
index efda0b2..f189372 100644
--- a/sprout/darkroom/lights/calculate.hpp
+++ b/sprout/darkroom/lights/calculate.hpp
@@ -14,6 +14,7 @@
 #include <sprout/type_traits/enabler_if.hpp>
 #include <sprout/darkroom/access/traits.hpp>
 #include <sprout/darkroom/access/access.hpp>
+#include <sprout/darkroom/colors/rgb.hpp>
 
 namespace sprout {
 	namespace darkroom {
diff --git a/sprout/detail/io_fwd.hpp b/sprout/detail/io_fwd.hpp
index ff34866..eb1e46c 100644
--- a/sprout/detail/io_fwd.hpp
+++ b/sprout/detail/io_fwd.hpp
@@ -9,6 +9,7 @@
 #define SPROUT_DETAIL_IO_FWD_HPP
 
 #include <sprout/config.hpp>
+#include <iosfwd>
 
 namespace sprout {
 	namespace detail {
diff --git a/sprout/math/float2_significand.hpp b/sprout/math/float2_significand.hpp
index c3098eb..96beec8 100644
--- a/sprout/math/float2_significand.hpp
+++ b/sprout/math/float2_significand.hpp
@@ -41,7 +41,7 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR double
 		float2_significand(IntType x) {
-			return sprout::math::float_significand(static_cast<double>(x));
+			return sprout::math::float2_significand(static_cast<double>(x));
 		}
 	}	// namespace math
 
diff --git a/sprout/numeric/fft/fixed/ifft.hpp b/sprout/numeric/fft/fixed/ifft.hpp
index e3f0872..8a273fe 100644
--- a/sprout/numeric/fft/fixed/ifft.hpp
+++ b/sprout/numeric/fft/fixed/ifft.hpp
@@ -14,6 +14,7 @@
 #include <sprout/complex.hpp>
 #include <sprout/pit/pit.hpp>
 #include <sprout/numeric/fft/coefficients.hpp>
+#include <sprout/numeric/fft/fixed/fft.hpp>
 
 
 namespace sprout {
diff --git a/sprout/random/detail/const_mod.hpp b/sprout/random/detail/const_mod.hpp
index 75e895d..0e92781 100644
--- a/sprout/random/detail/const_mod.hpp
+++ b/sprout/random/detail/const_mod.hpp
@@ -9,6 +9,7 @@
 #define SPROUT_RANDOM_DETAIL_CONST_MOD_HPP
 
 #include <type_traits>
+#include <cstdint>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
 #include <sprout/assert.hpp>
diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index aceeb0f..b0f894c 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -14,6 +14,7 @@
 #include <sprout/limits.hpp>
 #include <sprout/cstdlib/abs.hpp>
 #include <sprout/math/abs.hpp>
+#include <sprout/math/exp.hpp>
 #include <sprout/math/log.hpp>
 #include <sprout/math/floor.hpp>
 #include <sprout/random/random_result.hpp>
diff --git a/sprout/random/variate_generator.hpp b/sprout/random/variate_generator.hpp
index 986bb17..403a78e 100644
--- a/sprout/random/variate_generator.hpp
+++ b/sprout/random/variate_generator.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/random/detail/ptr_helper.hpp>
 #include <sprout/random/random_result_fwd.hpp>
+#include <sprout/type_traits/integral_constant.hpp>
 #include <sprout/type_traits/lvalue_reference.hpp>
 #include <sprout/utility/lvalue_forward.hpp>
 #include <sprout/utility/as_const.hpp>
diff --git a/sprout/type_traits/is_nothrow_invocable_r.hpp b/sprout/type_traits/is_nothrow_invocable_r.hpp
index b5780d6..c223d6e 100644
--- a/sprout/type_traits/is_nothrow_invocable_r.hpp
+++ b/sprout/type_traits/is_nothrow_invocable_r.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
 #include <sprout/type_traits/invoke_result.hpp>
+#include <sprout/type_traits/is_invocable_r.hpp>
 #include <sprout/type_traits/voider.hpp>
 #include <sprout/type_traits/detail/invoke.hpp>
 
diff --git a/sprout/utility/use_default.hpp b/sprout/utility/use_default.hpp
index e7b49e0..5308157 100644
--- a/sprout/utility/use_default.hpp
+++ b/sprout/utility/use_default.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/type_traits/is_same.hpp>
 
 namespace sprout {
 	//
diff --git a/sprout/uuid/uuid.hpp b/sprout/uuid/uuid.hpp
index c1f5770..e166252 100644
--- a/sprout/uuid/uuid.hpp
+++ b/sprout/uuid/uuid.hpp
@@ -9,6 +9,7 @@
 #define SPROUT_UUID_UUID_HPP
 
 #include <utility>
+#include <cstdint>
 #include <stdexcept>
 #include <type_traits>
 #include <sprout/config.hpp>
-- 
2.43.0


From acf83b79bb581113be5d2103dcd829029a495357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 121/277] fix: the has_operator traits tested the wrong
 operators or did not compile

---
 sprout/type_traits/has_bit_and_assign.hpp    | 2 +-
 sprout/type_traits/has_bit_or_assign.hpp     | 2 +-
 sprout/type_traits/has_bit_xor_assign.hpp    | 2 +-
 sprout/type_traits/has_comma.hpp             | 7 +++++--
 sprout/type_traits/has_left_shift_assign.hpp | 8 ++++----
 sprout/type_traits/has_post_decrement.hpp    | 2 +-
 sprout/type_traits/has_pre_decrement.hpp     | 2 +-
 sprout/type_traits/has_pre_increment.hpp     | 2 +-
 8 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/sprout/type_traits/has_bit_and_assign.hpp b/sprout/type_traits/has_bit_and_assign.hpp
index d89f362..6a29731 100644
--- a/sprout/type_traits/has_bit_and_assign.hpp
+++ b/sprout/type_traits/has_bit_and_assign.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	// has_bit_and_assign
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_and_assign, =, = typename sprout::const_reference<T>::type);
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_and_assign, &=, = typename sprout::const_reference<T>::type);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_bit_or_assign.hpp b/sprout/type_traits/has_bit_or_assign.hpp
index 1eb3d63..950e25a 100644
--- a/sprout/type_traits/has_bit_or_assign.hpp
+++ b/sprout/type_traits/has_bit_or_assign.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	// has_bit_or_assign
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_or_assign, =, = typename sprout::const_reference<T>::type);
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_or_assign, |=, = typename sprout::const_reference<T>::type);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_bit_xor_assign.hpp b/sprout/type_traits/has_bit_xor_assign.hpp
index 1969a4c..a4228e7 100644
--- a/sprout/type_traits/has_bit_xor_assign.hpp
+++ b/sprout/type_traits/has_bit_xor_assign.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	// has_bit_xor_assign
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_xor_assign, =, = typename sprout::const_reference<T>::type);
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_xor_assign, ^=, = typename sprout::const_reference<T>::type);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_comma.hpp b/sprout/type_traits/has_comma.hpp
index 31dfcb2..feb8590 100644
--- a/sprout/type_traits/has_comma.hpp
+++ b/sprout/type_traits/has_comma.hpp
@@ -11,13 +11,16 @@
 #include <sprout/config.hpp>
 #include <sprout/type_traits/dont_care.hpp>
 #include <sprout/type_traits/detail/has_binary_op.hpp>
-#include <sprout/preprocessor/comma.hpp>
+#include <sprout/preprocessor/empty.hpp>
 
 namespace sprout {
 	//
 	// has_comma
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(comma, SPROUT_PP_COMMA(), = T);
+#define SPROUT_DETAIL_HAS_COMMA_EXPR(OP, LHS, RHS) \
+	(LHS, RHS)
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL_(comma, SPROUT_PP_EMPTY(), = T, SPROUT_DETAIL_HAS_COMMA_EXPR);
+#undef SPROUT_DETAIL_HAS_COMMA_EXPR
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = T, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_left_shift_assign.hpp b/sprout/type_traits/has_left_shift_assign.hpp
index 2bcdf95..8b1d4b6 100644
--- a/sprout/type_traits/has_left_shift_assign.hpp
+++ b/sprout/type_traits/has_left_shift_assign.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_LEFT_ASSIGN_HPP
-#define SPROUT_TYPE_TRAITS_HAS_SHIFT_LEFT_ASSIGN_HPP
+#ifndef SPROUT_TYPE_TRAITS_HAS_LEFT_SHIFT_ASSIGN_HPP
+#define SPROUT_TYPE_TRAITS_HAS_LEFT_SHIFT_ASSIGN_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/type_traits/dont_care.hpp>
@@ -18,7 +18,7 @@ namespace sprout {
 	//
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
 	struct has_left_shift_assign
-		: public sprout::has_shift_left<T, U, R>
+		: public sprout::has_shift_left_assign<T, U, R>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
@@ -27,4 +27,4 @@ namespace sprout {
 #endif	// #if SPROUT_USE_VARIABLE_TEMPLATES
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_LEFT_ASSIGN_HPP
+#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_LEFT_SHIFT_ASSIGN_HPP
diff --git a/sprout/type_traits/has_post_decrement.hpp b/sprout/type_traits/has_post_decrement.hpp
index da03ed2..be412bc 100644
--- a/sprout/type_traits/has_post_decrement.hpp
+++ b/sprout/type_traits/has_post_decrement.hpp
@@ -16,7 +16,7 @@ namespace sprout {
 	//
 	// has_post_decrement
 	//
-	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(post_decrement, --);
+	SPROUT_DETAIL_HAS_POST_UNARY_OP_DECL(post_decrement, --);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_pre_decrement.hpp b/sprout/type_traits/has_pre_decrement.hpp
index b73f177..cad12d5 100644
--- a/sprout/type_traits/has_pre_decrement.hpp
+++ b/sprout/type_traits/has_pre_decrement.hpp
@@ -16,7 +16,7 @@ namespace sprout {
 	//
 	// has_pre_decrement
 	//
-	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_decrement, ++);
+	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_decrement, --);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_pre_increment.hpp b/sprout/type_traits/has_pre_increment.hpp
index bf9a0e1..a515cc6 100644
--- a/sprout/type_traits/has_pre_increment.hpp
+++ b/sprout/type_traits/has_pre_increment.hpp
@@ -16,7 +16,7 @@ namespace sprout {
 	//
 	// has_pre_increment
 	//
-	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_increment, --);
+	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_increment, ++);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename R = sprout::dont_care>
-- 
2.43.0


From 35a40a2d11f495b8380b5ee68c418ef1b194eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 122/277] fix: optional references could not be moved

---
 sprout/optional/optional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index 73ec217..cca08fd 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -125,7 +125,7 @@ namespace sprout {
 		SPROUT_CONSTEXPR optional(optional&& v)
 		SPROUT_NOEXCEPT_IF(std::is_nothrow_move_constructible<T>::value)
 			: init(v.init)
-			, val(v.is_initialized() ? holder_type(sprout::move(get(v))) : holder_type())
+			, val(v.is_initialized() ? holder_type(get(sprout::move(v))) : holder_type())
 		{}
 #endif
 		SPROUT_CONSTEXPR optional(T const& v)
@@ -170,7 +170,7 @@ namespace sprout {
 		template<typename U>
 		explicit SPROUT_CONSTEXPR optional(optional<U>&& v)
 			: init(v.is_initialized())
-			, val(v.is_initialized() ? holder_type(sprout::move(optional<U>::get(v))) : holder_type())
+			, val(v.is_initialized() ? holder_type(optional<U>::get(sprout::move(v))) : holder_type())
 		{}
 		// 20.6.4.3, assignment
 		SPROUT_CXX14_CONSTEXPR optional& operator=(sprout::nullopt_t v) SPROUT_NOEXCEPT {
-- 
2.43.0


From 040bb228e5a9ca886c9d68a9f3d1a5908472fa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 123/277] fix: stepping back from the end of an optional
 reached a null pointer

---
 sprout/optional/optional.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index cca08fd..adf8ecf 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -371,10 +371,14 @@ namespace sprout {
 				;
 		}
 		SPROUT_CXX14_CONSTEXPR iterator end() SPROUT_NOEXCEPT {
-			return iterator();
+			return is_initialized() ? iterator(val, 0)
+				: iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_iterator end() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator rbegin() SPROUT_NOEXCEPT {
 			return reverse_iterator(end());
@@ -394,7 +398,9 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 			return const_reverse_iterator(end());
-- 
2.43.0


From 8a5709b15ade0bf3314555261febb3d4a974cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 124/277] fix: get_pointer of an empty optional returned a
 pointer to no value

---
 sprout/optional/optional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index adf8ecf..286d3c3 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -79,13 +79,13 @@ namespace sprout {
 			return sprout::get(t.val);
 		}
 		static SPROUT_CONSTEXPR pointer_type get_pointer(optional& t) SPROUT_NOEXCEPT {
-			return sprout::get_pointer(t.val);
+			return t.get_pointer();
 		}
 		static SPROUT_CONSTEXPR pointer_type get_pointer(optional&& t) SPROUT_NOEXCEPT {
 			return get_pointer(t);
 		}
 		static SPROUT_CONSTEXPR pointer_const_type get_pointer(optional const& t) SPROUT_NOEXCEPT {
-			return sprout::get_pointer(t.val);
+			return t.get_pointer();
 		}
 		static SPROUT_CONSTEXPR reference_type get_value_or(optional& t, reference_type v) SPROUT_NOEXCEPT {
 			return t.is_initialized() ? sprout::get(t.val)
-- 
2.43.0


From e3a2a2d8bde32dd9f5e0697c0caba69d370dd9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 125/277] fix: the assertion handler did not compile

---
 sprout/assert.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/assert.hpp b/sprout/assert.hpp
index c03f300..fb04eb4 100644
--- a/sprout/assert.hpp
+++ b/sprout/assert.hpp
@@ -14,6 +14,8 @@
 #	include <sprout/preprocessor/cat.hpp>
 #	include <sprout/preprocessor/variadic/size.hpp>
 #elif defined(SPROUT_ENABLE_ASSERT_HANDLER)
+#	include <cstdlib>
+#	include <iostream>
 #	include <sprout/config.hpp>
 #	include <sprout/preprocessor/config.hpp>
 #	include <sprout/preprocessor/cat.hpp>
@@ -84,7 +86,7 @@ namespace sprout {
 	//
 	inline SPROUT_NON_CONSTEXPR bool
 	assertion_failed_default(sprout::assertion_info_msg const& info) {
-		return (std::cerr << "***** Internal Program Error - assertion (" << info.expr() << ") failed: " << info.file() << "(" << info.line() << ")" << ": " << msg << std::endl),
+		return (std::cerr << "***** Internal Program Error - assertion (" << info.expr() << ") failed: " << info.file() << "(" << info.line() << ")" << ": " << info.msg() << std::endl),
 			std::abort(), false
 			;
 	}
@@ -217,7 +219,7 @@ namespace sprout {
 	}	// namespace detail
 }	// namespace sprout
 
-#	define SPROUT_ASSERT_1(expr) \
+#	define SPROUT_ASSERT_1(expr) ( \
 		(void)sprout::detail::assertion_check( \
 			(expr), SPROUT_ASSERTION_FAILED_FORMAT(expr, __FILE__, __LINE__), \
 			#expr, "(unknown)"/*SPROUT_CURRENT_FUNCTION*/, __FILE__, __LINE__ \
-- 
2.43.0


From 0f35d5faae9c78872432f4e6807e88d3214b729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 126/277] fix: a mutable variant could not be copied or
 assigned from

---
 sprout/variant/variant.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sprout/variant/variant.hpp b/sprout/variant/variant.hpp
index f8917a6..1c86521 100644
--- a/sprout/variant/variant.hpp
+++ b/sprout/variant/variant.hpp
@@ -231,7 +231,10 @@ namespace sprout {
 		{}
 		variant(variant const&) = default;
 		variant(variant&&) = default;
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CONSTEXPR variant(T&& operand)
 			: impl_type(
 				SPROUT_FORWARD(T, operand),
@@ -254,7 +257,10 @@ namespace sprout {
 			static_cast<impl_type&>(*this) = sprout::move(rhs);
 			return *this;
 		}
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CXX14_CONSTEXPR variant& operator=(T&& rhs) {
 			static_cast<impl_type&>(*this) = variant(SPROUT_FORWARD(T, rhs));
 			return *this;
-- 
2.43.0


From da10ac85f45aab4c3c9c40b8c574bce78b69457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 127/277] fix: assigning a tuple to a pair gave second the
 first element

---
 sprout/utility/pair/pair.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/pair/pair.hpp b/sprout/utility/pair/pair.hpp
index a72ff99..28e79f9 100644
--- a/sprout/utility/pair/pair.hpp
+++ b/sprout/utility/pair/pair.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR sprout::pair<T1, T2>& sprout::pair<T1, T2>::operator=(sprout::tuples::tuple<U, V> const& rhs) {
 		first = sprout::tuples::get<0>(rhs);
-		second = sprout::tuples::get<0>(rhs);
+		second = sprout::tuples::get<1>(rhs);
 		return *this;
 	}
 	template<typename T1, typename T2>
-- 
2.43.0


From 8896a52c1bce14ccebb822985b5701f7b64076df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 128/277] fix: hashing an empty tuple did not compile

---
 sprout/functional/hash/hash_combine.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sprout/functional/hash/hash_combine.hpp b/sprout/functional/hash/hash_combine.hpp
index 6a9ae81..793a48e 100644
--- a/sprout/functional/hash/hash_combine.hpp
+++ b/sprout/functional/hash/hash_combine.hpp
@@ -15,7 +15,6 @@
 
 namespace sprout {
 	namespace detail {
-		template<typename T>
 		inline SPROUT_CONSTEXPR std::size_t
 		hash_combine_impl(std::size_t seed) {
 			return seed;
-- 
2.43.0


From 6492604b78ca367a353be77294026ff9076de9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 129/277] fix: getting a reference element of an rvalue tuple
 did not compile

---
 sprout/tuple/tuple/tuple_decl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/tuple/tuple/tuple_decl.hpp b/sprout/tuple/tuple/tuple_decl.hpp
index 4110cdf..b02c3b9 100644
--- a/sprout/tuple/tuple/tuple_decl.hpp
+++ b/sprout/tuple/tuple/tuple_decl.hpp
@@ -64,7 +64,7 @@ namespace sprout {
 				}
 				static SPROUT_CONSTEXPR value_type&&
 				get(element_holder&& t) {
-					return sprout::move(t.value_);
+					return static_cast<value_type&&>(t.value_);
 				}
 				static SPROUT_CONSTEXPR value_type const&
 				get(element_holder const& t) {
-- 
2.43.0


From 9d960e7b096a534659656dc155e56dd3a00611ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 130/277] fix: a tuple could not be constructed flexibly from
 an empty tuple

---
 sprout/tuple/tuple/tuple_decl.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sprout/tuple/tuple/tuple_decl.hpp b/sprout/tuple/tuple/tuple_decl.hpp
index b02c3b9..7212f3c 100644
--- a/sprout/tuple/tuple/tuple_decl.hpp
+++ b/sprout/tuple/tuple/tuple_decl.hpp
@@ -477,9 +477,14 @@ namespace sprout {
 		};
 		template<>
 		class tuple<> {
+			template<typename IndexTuple, typename... UTypes>
+			friend class sprout::tuples::detail::tuple_base;
 			template<typename... UTypes>
 			friend class sprout::tuples::detail::tuple_access;
 		protected:
+			struct size
+				: public sprout::integral_constant<std::size_t, 0>
+			{};
 			template<std::size_t I>
 			struct element
 				: public sprout::detail::nil_base
-- 
2.43.0


From bc81c62c9240d09c9c3b21059082fe718919658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 131/277] fix: nested_get did not compile with three or more
 indexes

---
 sprout/tuple/tuple/get.hpp | 39 ++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/sprout/tuple/tuple/get.hpp b/sprout/tuple/tuple/get.hpp
index dc4ad3b..b05c835 100644
--- a/sprout/tuple/tuple/get.hpp
+++ b/sprout/tuple/tuple/get.hpp
@@ -82,19 +82,38 @@ namespace sprout {
 		//
 		// nested_get
 		//
-		template<std::size_t I, typename T>
-		inline SPROUT_CONSTEXPR decltype(sprout::tuples::get<I>(std::declval<T>()))
-		nested_get(T&& t)
-		SPROUT_NOEXCEPT_IF_EXPR(sprout::tuples::get<I>(std::declval<T>()))
-		{
-			return sprout::tuples::get<I>(SPROUT_FORWARD(T, t));
-		}
+		namespace detail {
+			template<std::size_t... Indexes>
+			struct nested_get_impl;
+			template<std::size_t I>
+			struct nested_get_impl<I> {
+			public:
+				template<typename T>
+				static SPROUT_CONSTEXPR decltype(sprout::tuples::get<I>(std::declval<T>()))
+				get(T&& t)
+				SPROUT_NOEXCEPT_IF_EXPR(sprout::tuples::get<I>(std::declval<T>()))
+				{
+					return sprout::tuples::get<I>(SPROUT_FORWARD(T, t));
+				}
+			};
+			template<std::size_t IHead, std::size_t... ITail>
+			struct nested_get_impl<IHead, ITail...> {
+			public:
+				template<typename T>
+				static SPROUT_CONSTEXPR decltype(sprout::tuples::detail::nested_get_impl<ITail...>::get(sprout::tuples::get<IHead>(std::declval<T>())))
+				get(T&& t)
+				SPROUT_NOEXCEPT_IF_EXPR(sprout::tuples::detail::nested_get_impl<ITail...>::get(sprout::tuples::get<IHead>(std::declval<T>())))
+				{
+					return sprout::tuples::detail::nested_get_impl<ITail...>::get(sprout::tuples::get<IHead>(SPROUT_FORWARD(T, t)));
+				}
+			};
+		}	// namespace detail
 		template<std::size_t IHead, std::size_t... ITail, typename T>
-		inline SPROUT_CONSTEXPR decltype(sprout::tuples::nested_get<ITail...>(sprout::tuples::get<IHead>(std::declval<T>())))
+		inline SPROUT_CONSTEXPR decltype(sprout::tuples::detail::nested_get_impl<IHead, ITail...>::get(std::declval<T>()))
 		nested_get(T&& t)
-		SPROUT_NOEXCEPT_IF_EXPR(sprout::tuples::nested_get<ITail...>(sprout::tuples::get<IHead>(std::declval<T>())))
+		SPROUT_NOEXCEPT_IF_EXPR((sprout::tuples::detail::nested_get_impl<IHead, ITail...>::get(std::declval<T>())))
 		{
-			return sprout::tuples::nested_get<ITail...>(sprout::tuples::get<IHead>(SPROUT_FORWARD(T, t)));
+			return sprout::tuples::detail::nested_get_impl<IHead, ITail...>::get(SPROUT_FORWARD(T, t));
 		}
 	}	// namespace tuples
 
-- 
2.43.0


From c24ab62afef7e8ffac664f9995e50da8d21b19ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 132/277] fix: compound operations of a rational with itself
 gave wrong values

---
 sprout/rational/rational.hpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/sprout/rational/rational.hpp b/sprout/rational/rational.hpp
index 8873073..124a27a 100644
--- a/sprout/rational/rational.hpp
+++ b/sprout/rational/rational.hpp
@@ -118,28 +118,34 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR rational& operator+=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType const r_num = rhs.num_;
+			IntType const r_den = rhs.den_;
+			IntType g = sprout::gcd(den_, r_den);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) + rhs.num_ * den_;
+			num_ = num_ * (r_den / g) + r_num * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= r_den / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator-=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType const r_num = rhs.num_;
+			IntType const r_den = rhs.den_;
+			IntType g = sprout::gcd(den_, r_den);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) - rhs.num_ * den_;
+			num_ = num_ * (r_den / g) - r_num * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= r_den / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator*=(rational const& rhs) {
-			IntType gcd1 = sprout::gcd(num_, rhs.den_);
-			IntType gcd2 = sprout::gcd(rhs.num_, den_);
-			num_ =(num_ / gcd1) * (rhs.num_ / gcd2);
-			den_ =(den_ / gcd2) * (rhs.den_ / gcd1);
+			IntType const r_num = rhs.num_;
+			IntType const r_den = rhs.den_;
+			IntType gcd1 = sprout::gcd(num_, r_den);
+			IntType gcd2 = sprout::gcd(r_num, den_);
+			num_ =(num_ / gcd1) * (r_num / gcd2);
+			den_ =(den_ / gcd2) * (r_den / gcd1);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator/=(rational const& rhs) {
@@ -149,10 +155,12 @@ namespace sprout {
 			if (num_ == IntType(0)) {
 				return *this;
 			}
-			IntType gcd1 = sprout::gcd(num_, rhs.num_);
-			IntType gcd2 = sprout::gcd(rhs.den_, den_);
-			num_ =(num_ / gcd1) * (rhs.den_ / gcd2);
-			den_ =(den_ / gcd2) * (rhs.num_ / gcd1);
+			IntType const r_num = rhs.num_;
+			IntType const r_den = rhs.den_;
+			IntType gcd1 = sprout::gcd(num_, r_num);
+			IntType gcd2 = sprout::gcd(r_den, den_);
+			num_ =(num_ / gcd1) * (r_den / gcd2);
+			den_ =(den_ / gcd2) * (r_num / gcd1);
 			if (den_ < IntType(0)) {
 				num_ = -num_;
 				den_ = -den_;
-- 
2.43.0


From 77fb07c37a0563cb1e18e6638046857b0f1945cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 133/277] fix: comparing a negative rational with an integer
 passed quotient and remainder in the wrong order

---
 sprout/rational/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/rational/comparison.hpp b/sprout/rational/comparison.hpp
index 2518640..d406aa7 100644
--- a/sprout/rational/comparison.hpp
+++ b/sprout/rational/comparison.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 		{
 			return r < IntType(0) ? sprout::detail::rational_less_impl(
 					lhs, rhs,
-					r + lhs.denominator(), q - 1
+					q - 1, r + lhs.denominator()
 					)
 				: q < rhs
 				;
-- 
2.43.0


From d9973019a30d41e4d3c30296de4317745a81cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 134/277] fix: iterating over a rational did not compile

---
 sprout/rational/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/rational/container.hpp b/sprout/rational/container.hpp
index e7159f9..6ea491c 100644
--- a/sprout/rational/container.hpp
+++ b/sprout/rational/container.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 		struct rational_at {
 		public:
 			template<typename Rational, typename Index>
-			SPROUT_CONSTEXPR typename Rational::value_type
+			SPROUT_CONSTEXPR typename sprout::container_traits<Rational>::value_type
 			operator()(Rational const& c, Index i) const {
 				return i == 0 ? c.numerator()
 					: i == 1 ? c.denominator()
-- 
2.43.0


From 42340306019d8bbf460bc9971716a14d882fa6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 135/277] fix: rationals of integers narrower than int did not
 compile

---
 sprout/rational/arithmetic.hpp | 12 ++++++------
 sprout/rational/comparison.hpp | 21 +++++++++++++--------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/sprout/rational/arithmetic.hpp b/sprout/rational/arithmetic.hpp
index 63e8e50..2da887f 100644
--- a/sprout/rational/arithmetic.hpp
+++ b/sprout/rational/arithmetic.hpp
@@ -70,7 +70,7 @@ namespace sprout {
 		{
 			return rational_add_impl_2(
 				rhs,
-				g, den, lhs.numerator() * (rhs.denominator() / g) + rhs.numerator() * den
+				g, den, static_cast<IntType>(lhs.numerator() * (rhs.denominator() / g) + rhs.numerator() * den)
 				);
 		}
 		template<typename IntType>
@@ -82,7 +82,7 @@ namespace sprout {
 		{
 			return rational_add_impl_1(
 				lhs, rhs,
-				g, lhs.denominator() / g
+				g, static_cast<IntType>(lhs.denominator() / g)
 				);
 		}
 	}	// namespace detail
@@ -138,7 +138,7 @@ namespace sprout {
 		{
 			return rational_sub_impl_2(
 				rhs,
-				g, den, lhs.numerator() * (rhs.denominator() / g) - rhs.numerator() * den
+				g, den, static_cast<IntType>(lhs.numerator() * (rhs.denominator() / g) - rhs.numerator() * den)
 				);
 		}
 		template<typename IntType>
@@ -150,7 +150,7 @@ namespace sprout {
 		{
 			return rational_sub_impl_1(
 				lhs, rhs,
-				g, lhs.denominator() / g
+				g, static_cast<IntType>(lhs.denominator() / g)
 				);
 		}
 	}	// namespace detail
@@ -223,8 +223,8 @@ namespace sprout {
 			)
 		{
 			return sprout::detail::rational_div_impl_1(
-				(lhs.numerator() / gcd1) * (rhs.denominator() / gcd2),
-				(lhs.denominator() / gcd2) * (rhs.numerator() / gcd1)
+				static_cast<IntType>((lhs.numerator() / gcd1) * (rhs.denominator() / gcd2)),
+				static_cast<IntType>((lhs.denominator() / gcd2) * (rhs.numerator() / gcd1))
 				);
 		}
 	}	// namespace detail
diff --git a/sprout/rational/comparison.hpp b/sprout/rational/comparison.hpp
index d406aa7..20794de 100644
--- a/sprout/rational/comparison.hpp
+++ b/sprout/rational/comparison.hpp
@@ -69,8 +69,8 @@ namespace sprout {
 					: (r1 != IntType(0)) != static_cast<bool>(reverse ^ 1)
 				: sprout::detail::rational_less_impl_2(
 					lhs, rhs,
-					r1, d1 / r1, d1 % r1,
-					r2, d2 / r2, d2 % r2,
+					r1, static_cast<IntType>(d1 / r1), static_cast<IntType>(d1 % r1),
+					r2, static_cast<IntType>(d2 / r2), static_cast<IntType>(d2 % r2),
 					reverse ^ 1
 					)
 				;
@@ -86,7 +86,7 @@ namespace sprout {
 			return r2 < IntType(0) ? sprout::detail::rational_less_impl_1(
 					lhs, rhs,
 					d1, q1, r1,
-					d2, q2 - 1, r2 + d2
+					d2, static_cast<IntType>(q2 - 1), static_cast<IntType>(r2 + d2)
 					)
 				: sprout::detail::rational_less_impl_2(
 					lhs, rhs,
@@ -104,12 +104,14 @@ namespace sprout {
 		{
 			return r1 < IntType(0) ? sprout::detail::rational_less_impl(
 					lhs, rhs,
-					d1, q1 - 1, r1 + d1
+					d1, static_cast<IntType>(q1 - 1), static_cast<IntType>(r1 + d1)
 					)
 				: sprout::detail::rational_less_impl_1(
 					lhs, rhs,
 					d1, q1, r1,
-					rhs.denominator(), rhs.numerator() / rhs.denominator(), rhs.numerator() % rhs.denominator()
+					rhs.denominator(),
+					static_cast<IntType>(rhs.numerator() / rhs.denominator()),
+					static_cast<IntType>(rhs.numerator() % rhs.denominator())
 					)
 				;
 		}
@@ -123,7 +125,7 @@ namespace sprout {
 		{
 			return r < IntType(0) ? sprout::detail::rational_less_impl(
 					lhs, rhs,
-					q - 1, r + lhs.denominator()
+					static_cast<IntType>(q - 1), static_cast<IntType>(r + lhs.denominator())
 					)
 				: q < rhs
 				;
@@ -134,7 +136,9 @@ namespace sprout {
 	operator<(sprout::rational<IntType> const& lhs, sprout::rational<IntType> const& rhs) {
 		return sprout::detail::rational_less_impl(
 			lhs, rhs,
-			lhs.denominator(), lhs.numerator() / lhs.denominator(), lhs.numerator() % lhs.denominator()
+			lhs.denominator(),
+			static_cast<IntType>(lhs.numerator() / lhs.denominator()),
+			static_cast<IntType>(lhs.numerator() % lhs.denominator())
 			);
 	}
 	template<typename IntType>
@@ -142,7 +146,8 @@ namespace sprout {
 	operator<(sprout::rational<IntType> const& lhs, typename sprout::rational<IntType>::param_type rhs) {
 		return sprout::detail::rational_less_impl(
 			lhs, rhs,
-			lhs.numerator() / lhs.denominator(), lhs.numerator() % lhs.denominator()
+			static_cast<IntType>(lhs.numerator() / lhs.denominator()),
+			static_cast<IntType>(lhs.numerator() % lhs.denominator())
 			);
 	}
 	template<typename IntType>
-- 
2.43.0


From 67e235844bf1d6ee493926a9646f01eaa1be7b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:03 +0000
Subject: [PATCH 136/277] fix: assigning a rational recursed for ever

---
 sprout/rational/rational.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sprout/rational/rational.hpp b/sprout/rational/rational.hpp
index 124a27a..cc92dda 100644
--- a/sprout/rational/rational.hpp
+++ b/sprout/rational/rational.hpp
@@ -97,17 +97,15 @@ namespace sprout {
 		{}
 
 		SPROUT_CXX14_CONSTEXPR rational& operator=(rational const& rhs) SPROUT_NOEXCEPT {
-			rational temp(rhs);
-			sprout::swap(temp, *this);
+			num_ = rhs.num_;
+			den_ = rhs.den_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator=(param_type n) SPROUT_NOEXCEPT {
 			return assign(n, 1);
 		}
 		SPROUT_CXX14_CONSTEXPR rational& assign(param_type n, param_type d) {
-			rational temp(n, d);
-			sprout::swap(temp, *this);
-			return *this;
+			return *this = rational(n, d);
 		}
 
 		SPROUT_CONSTEXPR IntType numerator() const SPROUT_NOEXCEPT {
-- 
2.43.0


From a3ecf6f60705844c83b47dc6413256a7ad83a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 137/277] fix: complex cend returned the beginning

---
 sprout/complex/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/complex/complex.hpp b/sprout/complex/complex.hpp
index 01a9bc6..dea691c 100644
--- a/sprout/complex/complex.hpp
+++ b/sprout/complex/complex.hpp
@@ -167,7 +167,7 @@ namespace sprout {
 			return elems_.cbegin();
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return elems_.cbegin();
+			return elems_.cend();
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 			return elems_.crbegin();
-- 
2.43.0


From 89aa526eef83683267da19758d99aac719f534f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 138/277] fix: complex scaled in place by its own real part
 used the modified value

---
 sprout/complex/complex.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sprout/complex/complex.hpp b/sprout/complex/complex.hpp
index dea691c..d38bf7f 100644
--- a/sprout/complex/complex.hpp
+++ b/sprout/complex/complex.hpp
@@ -91,13 +91,15 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR complex& operator*=(T const& rhs) SPROUT_NOEXCEPT {
-			real() *= rhs;
-			imag() *= rhs;
+			T const r = rhs;
+			real() *= r;
+			imag() *= r;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR complex& operator/=(T const& rhs) SPROUT_NOEXCEPT {
-			real() /= rhs;
-			imag() /= rhs;
+			T const r = rhs;
+			real() /= r;
+			imag() /= r;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR complex& operator=(complex const& rhs) SPROUT_NOEXCEPT {
-- 
2.43.0


From 68909c3c477db28607f66a77399a66d3a98ae2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 139/277] fix: complex sqrt of an infinite negative real part

---
 sprout/complex/sqrt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/complex/sqrt.hpp b/sprout/complex/sqrt.hpp
index 06b2e85..537713a 100644
--- a/sprout/complex/sqrt.hpp
+++ b/sprout/complex/sqrt.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 			: x.real() == sprout::numeric_limits<T>::infinity()
 				? type(sprout::numeric_limits<T>::infinity(), (x.imag() == 0 ? x.imag() : sprout::math::copysign(T(0), x.imag())))
 			: x.real() == -sprout::numeric_limits<T>::infinity()
-				? type(T(0), sprout::math::copysign(T(0), x.imag()))
+				? type(T(0), sprout::math::copysign(sprout::numeric_limits<T>::infinity(), x.imag()))
 			: x.real() == 0 && x.imag() == 0 ? type(T(0), x.imag())
 			: x.real() == 0 ? sprout::detail::sqrt_impl_1(x, sprout::math::sqrt(sprout::math::abs(x.imag()) / T(2)))
 			: sprout::detail::sqrt_impl_2(x, sprout::math::sqrt(T(2) * (sprout::abs(x) + sprout::math::abs(x.real()))))
-- 
2.43.0


From 82dd33970852a8c07853626a67fc83abf26c0326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 140/277] fix: complex tanh of an infinite negative real part

---
 sprout/complex/tanh.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/complex/tanh.hpp b/sprout/complex/tanh.hpp
index 836fbba..8772e11 100644
--- a/sprout/complex/tanh.hpp
+++ b/sprout/complex/tanh.hpp
@@ -44,11 +44,11 @@ namespace sprout {
 				: x.imag() == 0 ? x
 				: type(x.real(), x.real())
 			: sprout::math::isnan(x.imag())
-				? sprout::math::isinf(x.real()) ? type(T(1), T(0))
+				? sprout::math::isinf(x.real()) ? type(sprout::math::copysign(T(1), x.real()), T(0))
 				: type(x.imag(), x.imag())
 			: sprout::math::isinf(x.real())
-				? sprout::math::isinf(x.imag()) ? type(T(1), T(0))
-				: type(T(1), T(0) * sprout::math::sin(T(2) * x.imag()))
+				? sprout::math::isinf(x.imag()) ? type(sprout::math::copysign(T(1), x.real()), T(0))
+				: type(sprout::math::copysign(T(1), x.real()), T(0) * sprout::math::sin(T(2) * x.imag()))
 			: sprout::math::isinf(x.imag())
 				? type(-sprout::numeric_limits<T>::quiet_NaN(), -sprout::numeric_limits<T>::quiet_NaN())
 			: x.real() == 0 && x.imag() == 0 ? x
-- 
2.43.0


From 4b7f3ec9add112fd543fab2c61f42885c8985557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 141/277] fix: complex extraction that failed assigned an
 indeterminate value

---
 sprout/complex/stream_operators.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sprout/complex/stream_operators.hpp b/sprout/complex/stream_operators.hpp
index fc34215..22f6820 100644
--- a/sprout/complex/stream_operators.hpp
+++ b/sprout/complex/stream_operators.hpp
@@ -17,27 +17,33 @@ namespace sprout {
 	template<typename T, typename Char, typename Traits>
 	inline SPROUT_NON_CONSTEXPR std::basic_istream<Char, Traits>&
 	operator>>(std::basic_istream<Char, Traits>& lhs, sprout::complex<T>& rhs) {
-		T re, im;
-		Char ch;
+		T re = T(), im = T();
+		Char ch = Char();
 		lhs >> ch;
 		if (ch == '(') {
 			lhs >> re >> ch;
 			if (ch == ',') {
 				lhs >> im >> ch;
 				if (ch == ')') {
-					rhs = sprout::complex<T>(re, im);
+					if (lhs) {
+						rhs = sprout::complex<T>(re, im);
+					}
 				} else {
 					lhs.setstate(std::ios_base::failbit);
 				}
 			} else if (ch == ')') {
-				rhs = re;
+				if (lhs) {
+					rhs = re;
+				}
 			} else {
 				lhs.setstate(std::ios_base::failbit);
 			}
 		} else {
 			lhs.putback(ch);
 			lhs >> re;
-			rhs = re;
+			if (lhs) {
+				rhs = re;
+			}
 		}
 		return lhs;
 	}
-- 
2.43.0


From c739dae41a040cd11fb7b07f2790e264a0270277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:21 +0000
Subject: [PATCH 142/277] fix: signs of zero of complex asinh, atanh and cosh

---
 sprout/complex/asinh.hpp | 12 +++++++++++-
 sprout/complex/atanh.hpp |  9 ++++++++-
 sprout/complex/cosh.hpp  |  2 +-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/sprout/complex/asinh.hpp b/sprout/complex/asinh.hpp
index 52ffefd..8d1745b 100644
--- a/sprout/complex/asinh.hpp
+++ b/sprout/complex/asinh.hpp
@@ -35,6 +35,13 @@ namespace sprout {
 	// casinh(NaN + i��) returns �}��+ iNaN (where the sign of the real part of the result is unspecified).
 	// casinh(NaN + iNaN) returns NaN + iNaN.
 	//
+	namespace detail {
+		template<typename T>
+		inline SPROUT_CONSTEXPR sprout::complex<T>
+		asinh_impl(sprout::complex<T> const& x, sprout::complex<T> const& t) {
+			return sprout::complex<T>(sprout::math::copysign(t.real(), x.real()), sprout::math::copysign(t.imag(), x.imag()));
+		}
+	}	// namespace detail
 	template<typename T>
 	inline SPROUT_CONSTEXPR sprout::complex<T>
 	asinh(sprout::complex<T> const& x) {
@@ -57,7 +64,10 @@ namespace sprout {
 				sprout::math::copysign(sprout::math::half_pi<T>(), x.imag())
 				)
 			: x.real() == 0 && x.imag() == 0 ? x
-			: sprout::log(sprout::sqrt(type((x.real() - x.imag()) * (x.real() + x.imag()) + T(1), T(2) * x.real() * x.imag())) + x)
+			: sprout::detail::asinh_impl(
+				x,
+				sprout::log(sprout::sqrt(type((x.real() - x.imag()) * (x.real() + x.imag()) + T(1), T(2) * x.real() * x.imag())) + x)
+				)
 			;
 	}
 }	// namespace sprout
diff --git a/sprout/complex/atanh.hpp b/sprout/complex/atanh.hpp
index 1500c17..6947c90 100644
--- a/sprout/complex/atanh.hpp
+++ b/sprout/complex/atanh.hpp
@@ -39,6 +39,13 @@ namespace sprout {
 	// catanh(NaN + i��) returns �}0 + ip /2 (where the sign of the real part of the result is unspecified).
 	// catanh(NaN + iNaN) returns NaN + iNaN.
 	//
+	namespace detail {
+		template<typename T>
+		inline SPROUT_CONSTEXPR sprout::complex<T>
+		atanh_impl(sprout::complex<T> const& x, sprout::complex<T> const& t) {
+			return sprout::complex<T>(sprout::math::copysign(t.real(), x.real()), sprout::math::copysign(t.imag(), x.imag()));
+		}
+	}	// namespace detail
 	template<typename T>
 	inline SPROUT_CONSTEXPR sprout::complex<T>
 	atanh(sprout::complex<T> const& x) {
@@ -55,7 +62,7 @@ namespace sprout {
 				? type(sprout::math::copysign(T(0), x.real()), sprout::math::copysign(sprout::math::half_pi<T>(), x.imag()))
 			: x.real() == 0 && x.imag() == 0 ? x
 			: (x.real() == 1 || x.real() == -1) && x.imag() == 0 ? type(sprout::math::copysign(sprout::numeric_limits<T>::infinity(), x.real()), x.imag())
-			: (sprout::log(T(1) + x) - sprout::log(T(1) - x)) / T(2)
+			: sprout::detail::atanh_impl(x, (sprout::log(T(1) + x) - sprout::log(T(1) - x)) / T(2))
 			;
 	}
 }	// namespace sprout
diff --git a/sprout/complex/cosh.hpp b/sprout/complex/cosh.hpp
index 63a2db2..28d2f11 100644
--- a/sprout/complex/cosh.hpp
+++ b/sprout/complex/cosh.hpp
@@ -64,7 +64,7 @@ namespace sprout {
 			: sprout::math::isinf(x.imag())
 				? x.real() == 0 ? type(sprout::numeric_limits<T>::quiet_NaN(), x.real())
 				: type(-sprout::numeric_limits<T>::quiet_NaN(), -sprout::numeric_limits<T>::quiet_NaN())
-			: x.real() == 0 && x.imag() == 0 ? type(T(1), x.imag())
+			: x.real() == 0 && x.imag() == 0 ? type(T(1), x.real() * x.imag())
 			: type(sprout::math::cosh(x.real()) * sprout::math::cos(x.imag()), sprout::math::sinh(x.real()) * sprout::math::sin(x.imag()))
 			;
 	}
-- 
2.43.0


From f2cd54f7b108a5696c22099c3411ef9bdb82d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 143/277] fix: signs of zero of complex tanh

---
 sprout/complex/tanh.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sprout/complex/tanh.hpp b/sprout/complex/tanh.hpp
index 8772e11..39212e4 100644
--- a/sprout/complex/tanh.hpp
+++ b/sprout/complex/tanh.hpp
@@ -35,6 +35,16 @@ namespace sprout {
 	// ctanh(NaN + iy) returns NaN + iNaN and optionally raises the �e�einvalid�f�f floating-point exception, for all nonzero numbers y.
 	// ctanh(NaN + iNaN) returns NaN + iNaN.
 	//
+	namespace detail {
+		template<typename T>
+		inline SPROUT_CONSTEXPR sprout::complex<T>
+		tanh_impl(sprout::complex<T> const& x, sprout::complex<T> const& t) {
+			return sprout::complex<T>(
+				x.real() == 0 ? x.real() : t.real(),
+				x.imag() == 0 ? x.imag() : t.imag()
+				);
+		}
+	}	// namespace detail
 	template<typename T>
 	inline SPROUT_CONSTEXPR sprout::complex<T>
 	tanh(sprout::complex<T> const& x) {
@@ -52,7 +62,7 @@ namespace sprout {
 			: sprout::math::isinf(x.imag())
 				? type(-sprout::numeric_limits<T>::quiet_NaN(), -sprout::numeric_limits<T>::quiet_NaN())
 			: x.real() == 0 && x.imag() == 0 ? x
-			: sprout::sinh(x) / sprout::cosh(x)
+			: sprout::detail::tanh_impl(x, sprout::sinh(x) / sprout::cosh(x))
 			;
 	}
 }	// namespace sprout
-- 
2.43.0


From 0ba78835a6d2824b4ca2233343afcc019b0b5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 144/277] fix: assigning a valarray did not compile

---
 sprout/valarray/valarray.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 4fe2156..467d76d 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -227,14 +227,14 @@ namespace sprout {
 		// assignment:
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray const& rhs) {
-			impl_.array_ = rhs.array_;
-			impl_.size_ = rhs.size_;
+			impl_.array_ = rhs.impl_.array_;
+			impl_.size_ = rhs.impl_.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray&& rhs) SPROUT_NOEXCEPT {
-			impl_.array_ = sprout::move(rhs.array_);
-			impl_.size_ = sprout::move(rhs.size_);
+			impl_.array_ = sprout::move(rhs.impl_.array_);
+			impl_.size_ = sprout::move(rhs.impl_.size_);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
-- 
2.43.0


From 047df69d4cf989aa2fd4378f684fa5fd09762669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 145/277] fix: valarray empty was inverted

---
 sprout/valarray/valarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 467d76d..8a53531 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -526,7 +526,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR bool
 		empty() const SPROUT_NOEXCEPT {
-			return size() != 0;
+			return size() == 0;
 		}
 		// element access (array):
 		SPROUT_CXX14_CONSTEXPR reference
-- 
2.43.0


From 71595ab5ce032b2861f50240c90b21210f18ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 146/277] fix: valarray shift kept the old elements instead of
 filling with default values

---
 sprout/valarray/valarray.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 8a53531..418d3f0 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -421,8 +421,12 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR valarray
 		shift(int i) const {
-			return i > 0 ? sprout::fixed::copy(begin() + i, end(), *this)
-				: i < 0 ? sprout::fixed::copy_backward(begin(), end() + i, *this)
+			return i > 0
+					? static_cast<size_type>(i) < size() ? sprout::fixed::copy(begin() + i, end(), valarray(size()))
+					: valarray(size())
+				: i < 0
+					? static_cast<size_type>(-static_cast<difference_type>(i)) < size() ? sprout::fixed::copy_backward(begin(), end() + i, valarray(size()))
+					: valarray(size())
 				: *this
 				;
 		}
-- 
2.43.0


From a221963408c764f79355078859b4b885d7e33668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 147/277] fix: valarray cshift by more than the size

---
 sprout/valarray/valarray.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 418d3f0..fb288dc 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -432,8 +432,9 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR valarray
 		cshift(int i) const {
-			return i > 0 ? sprout::fixed::rotate(*this, begin() + i)
-				: i < 0 ? sprout::fixed::rotate(*this, end() + i)
+			return size() == 0 ? *this
+				: i > 0 ? sprout::fixed::rotate(*this, begin() + i % static_cast<difference_type>(size()))
+				: i < 0 ? sprout::fixed::rotate(*this, end() + i % static_cast<difference_type>(size()))
 				: *this
 				;
 		}
-- 
2.43.0


From 3c404b635ede4527abde2184181651321b95f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 148/277] fix: assigning a valarray selection to a selection of
 the same type copied nothing

---
 sprout/valarray/gslice_array.hpp   | 5 +++++
 sprout/valarray/indirect_array.hpp | 5 +++++
 sprout/valarray/mask_array.hpp     | 5 +++++
 sprout/valarray/slice_array.hpp    | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/sprout/valarray/gslice_array.hpp b/sprout/valarray/gslice_array.hpp
index 990c90a..c122d93 100644
--- a/sprout/valarray/gslice_array.hpp
+++ b/sprout/valarray/gslice_array.hpp
@@ -115,6 +115,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR gslice_array(gslice_array const& other)
 			: arr_(other.arr_), start_(other.start_), size_(other.size_), stride_(other.stride_)
 		{}
+		SPROUT_CXX14_CONSTEXPR gslice_array const&
+		operator=(gslice_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR gslice_array const&
 		operator=(gslice_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/indirect_array.hpp b/sprout/valarray/indirect_array.hpp
index d11ba2c..7263193 100644
--- a/sprout/valarray/indirect_array.hpp
+++ b/sprout/valarray/indirect_array.hpp
@@ -51,6 +51,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR indirect_array(indirect_array const& other)
 			: arr_(other.arr_), indexes_(other.indexes_)
 		{}
+		SPROUT_CXX14_CONSTEXPR indirect_array const&
+		operator=(indirect_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR indirect_array const&
 		operator=(indirect_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/mask_array.hpp b/sprout/valarray/mask_array.hpp
index ca1585c..d692135 100644
--- a/sprout/valarray/mask_array.hpp
+++ b/sprout/valarray/mask_array.hpp
@@ -59,6 +59,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR mask_array(mask_array const& other)
 			: arr_(other.arr_), indexes_(other.indexes_)
 		{}
+		SPROUT_CXX14_CONSTEXPR mask_array const&
+		operator=(mask_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR mask_array const&
 		operator=(mask_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/slice_array.hpp b/sprout/valarray/slice_array.hpp
index 062ff9c..a82bb60 100644
--- a/sprout/valarray/slice_array.hpp
+++ b/sprout/valarray/slice_array.hpp
@@ -74,6 +74,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR slice_array(slice_array const& other)
 			: arr_(other.arr_), slice_(other.slice_)
 		{}
+		SPROUT_CXX14_CONSTEXPR slice_array const&
+		operator=(slice_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR slice_array const&
 		operator=(slice_array<T, N2> const& ar) const {
-- 
2.43.0


From 3c7670374aa852f8bd56d57e629b4f90ecc24735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:14 +0000
Subject: [PATCH 149/277] fix: compound assignment of a valarray and a value
 did not compile

---
 sprout/functional/bind2nd.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sprout/functional/bind2nd.hpp b/sprout/functional/bind2nd.hpp
index 20dd994..784efc3 100644
--- a/sprout/functional/bind2nd.hpp
+++ b/sprout/functional/bind2nd.hpp
@@ -63,6 +63,11 @@ namespace sprout {
 				: op(x), value(y)
 			{}
 			template<typename U>
+			SPROUT_CONSTEXPR decltype(std::declval<Fn const&>()(std::declval<U&>(), std::declval<value_type const&>()))
+			operator()(U& x) const {
+				return op(x, value);
+			}
+			template<typename U>
 			SPROUT_CONSTEXPR decltype(std::declval<Fn const&>()(std::declval<U const&>(), std::declval<value_type const&>()))
 			operator()(U const& x) const {
 				return op(x, value);
-- 
2.43.0


From 7ba3effef4b3164bb382d802c926c4bac2b79b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:51 +0000
Subject: [PATCH 150/277] fix: valarray pow, atan2, hypot and log_a of a
 valarray and a value did not compile

---
 sprout/valarray/exponential.hpp   | 16 ++++++++--------
 sprout/valarray/hyperbolic.hpp    | 12 ++++++------
 sprout/valarray/power.hpp         | 12 ++++++------
 sprout/valarray/trigonometric.hpp | 14 +++++++-------
 4 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/sprout/valarray/exponential.hpp b/sprout/valarray/exponential.hpp
index b7fa551..6ac2a41 100644
--- a/sprout/valarray/exponential.hpp
+++ b/sprout/valarray/exponential.hpp
@@ -100,7 +100,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_exp(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp(std::declval<T>()))
 			{
 				return sprout_math_detail::call_exp(SPROUT_FORWARD(T, x));
 			}
@@ -112,7 +112,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_exp10(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp10(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp10(std::declval<T>()))
 			{
 				return sprout_math_detail::call_exp10(SPROUT_FORWARD(T, x));
 			}
@@ -124,7 +124,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_exp2(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp2(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp2(std::declval<T>()))
 			{
 				return sprout_math_detail::call_exp2(SPROUT_FORWARD(T, x));
 			}
@@ -136,7 +136,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_expm1(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_expm1(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_expm1(std::declval<T>()))
 			{
 				return sprout_math_detail::call_expm1(SPROUT_FORWARD(T, x));
 			}
@@ -148,7 +148,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log(SPROUT_FORWARD(T, x));
 			}
@@ -160,7 +160,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log10(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log10(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log10(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log10(SPROUT_FORWARD(T, x));
 			}
@@ -172,7 +172,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log1p(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log1p(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log1p(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log1p(SPROUT_FORWARD(T, x));
 			}
@@ -184,7 +184,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log2(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log2(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log2(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log2(SPROUT_FORWARD(T, x));
 			}
diff --git a/sprout/valarray/hyperbolic.hpp b/sprout/valarray/hyperbolic.hpp
index c7dba6b..3eda7b7 100644
--- a/sprout/valarray/hyperbolic.hpp
+++ b/sprout/valarray/hyperbolic.hpp
@@ -82,7 +82,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_acosh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acosh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acosh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_acosh(SPROUT_FORWARD(T, x));
 			}
@@ -94,7 +94,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_asinh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asinh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asinh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_asinh(SPROUT_FORWARD(T, x));
 			}
@@ -106,7 +106,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atanh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atanh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atanh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_atanh(SPROUT_FORWARD(T, x));
 			}
@@ -118,7 +118,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cosh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cosh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cosh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cosh(SPROUT_FORWARD(T, x));
 			}
@@ -130,7 +130,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sinh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sinh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sinh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sinh(SPROUT_FORWARD(T, x));
 			}
@@ -142,7 +142,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_tanh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tanh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tanh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_tanh(SPROUT_FORWARD(T, x));
 			}
diff --git a/sprout/valarray/power.hpp b/sprout/valarray/power.hpp
index 4eb89bf..03a67ba 100644
--- a/sprout/valarray/power.hpp
+++ b/sprout/valarray/power.hpp
@@ -84,7 +84,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cbrt(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cbrt(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cbrt(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cbrt(SPROUT_FORWARD(T, x));
 			}
@@ -96,7 +96,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_abs(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_abs(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_abs(std::declval<T>()))
 			{
 				return sprout_math_detail::call_abs(SPROUT_FORWARD(T, x));
 			}
@@ -108,7 +108,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_hypot(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -120,7 +120,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_pow(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -132,7 +132,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sqrt(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sqrt(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sqrt(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sqrt(SPROUT_FORWARD(T, x));
 			}
@@ -144,7 +144,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_log_a(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
diff --git a/sprout/valarray/trigonometric.hpp b/sprout/valarray/trigonometric.hpp
index d39be43..554531c 100644
--- a/sprout/valarray/trigonometric.hpp
+++ b/sprout/valarray/trigonometric.hpp
@@ -92,7 +92,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_acos(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acos(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acos(std::declval<T>()))
 			{
 				return sprout_math_detail::call_acos(SPROUT_FORWARD(T, x));
 			}
@@ -104,7 +104,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_asin(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asin(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asin(std::declval<T>()))
 			{
 				return sprout_math_detail::call_asin(SPROUT_FORWARD(T, x));
 			}
@@ -116,7 +116,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atan(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan(std::declval<T>()))
 			{
 				return sprout_math_detail::call_atan(SPROUT_FORWARD(T, x));
 			}
@@ -128,7 +128,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -140,7 +140,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cos(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cos(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cos(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cos(SPROUT_FORWARD(T, x));
 			}
@@ -152,7 +152,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sin(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sin(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sin(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sin(SPROUT_FORWARD(T, x));
 			}
@@ -164,7 +164,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_tan(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tan(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tan(std::declval<T>()))
 			{
 				return sprout_math_detail::call_tan(SPROUT_FORWARD(T, x));
 			}
-- 
2.43.0


From 964f21bb2149fbf40f0946dc87ca6ccad1da5097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 151/277] fix: forward_clist empty was inverted

---
 sprout/forward_clist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 5a8347a..131476f 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -375,7 +375,7 @@ namespace sprout {
 		}
 		// capacity:
 		SPROUT_CONSTEXPR bool empty() const SPROUT_NOEXCEPT {
-			return !!fst.next;
+			return !fst.next.is_initialized();
 		}
 		SPROUT_CONSTEXPR size_type max_size() const SPROUT_NOEXCEPT {
 			return sprout::numeric_limits<size_type>::max();
-- 
2.43.0


From 4df75f7bfeaf7872027ae6de40bcfc47985cb354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 152/277] fix: forward_clist before_begin of a constant did not
 compile and cbefore_begin was the beginning

---
 sprout/forward_clist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 131476f..c34f82c 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -350,7 +350,7 @@ namespace sprout {
 			return iterator(item_holder_type(fst));
 		}
 		SPROUT_CONSTEXPR const_iterator before_begin() const SPROUT_NOEXCEPT {
-			return const_iterator(item_holder_type(fst));
+			return const_iterator(item_holder_type(const_cast<item&>(fst)));
 		}
 		SPROUT_CXX14_CONSTEXPR iterator begin() SPROUT_NOEXCEPT {
 			return iterator(fst.next);
@@ -368,7 +368,7 @@ namespace sprout {
 			return const_iterator(fst.next);
 		}
 		SPROUT_CONSTEXPR const_iterator cbefore_begin() const SPROUT_NOEXCEPT{
-			return const_iterator(fst.next);
+			return const_iterator(item_holder_type(const_cast<item&>(fst)));
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
 			return const_iterator();
-- 
2.43.0


From b078f6ffd3e9580491bb53a826cbab3137abe8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:44 +0000
Subject: [PATCH 153/277] fix: forward_clist range operations did not compile

---
 sprout/forward_clist.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index c34f82c..b29f3bf 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -329,7 +329,7 @@ namespace sprout {
 			item_holder_type* p = sprout::addressof(fst.next);
 			for (; first != last; ++first) {
 				*p = *first;
-				p = sprout::addressof(*p)->next;
+				p = sprout::addressof((*p)->next);
 			}
 		}
 		SPROUT_CXX14_CONSTEXPR forward_clist(forward_clist&& x)
@@ -399,7 +399,7 @@ namespace sprout {
 			item_holder_type* p = sprout::addressof(fst.next);
 			for (; first != last; ++first) {
 				*p = *first;
-				p = sprout::addressof(*p)->next;
+				p = sprout::addressof((*p)->next);
 			}
 			*p = nxt;
 		}
@@ -422,7 +422,7 @@ namespace sprout {
 			item_holder_type* p = sprout::addressof(pos);
 			for (; first != last; ++first) {
 				(*p)->next = *first;
-				p = sprout::addressof(*p)->next;
+				p = sprout::addressof((*p)->next);
 			}
 			(*p)->next = nxt;
 			return iterator(*p);
-- 
2.43.0


From 8e8b8718721cc4e47708e64f75457907282c95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:44 +0000
Subject: [PATCH 154/277] fix: assigning a value to a forward_clist item did
 not compile

---
 sprout/forward_clist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index b29f3bf..9d8ed89 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -278,12 +278,12 @@ namespace sprout {
 
 			SPROUT_CXX14_CONSTEXPR item& operator=(typename holder_type::argument_type p) {
 				item temp(p, next);
-				temp.swap(p);
+				temp.swap(*this);
 				return *this;
 			}
 			SPROUT_CXX14_CONSTEXPR item& operator=(typename holder_type::movable_argument_type p) {
 				item temp(sprout::move(p), next);
-				temp.swap(p);
+				temp.swap(*this);
 				return *this;
 			}
 
-- 
2.43.0


From 152030b758adb3060dd976c5b772dc38e5a2e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:44 +0000
Subject: [PATCH 155/277] fix: forward_clist move and swap did not compile

---
 sprout/forward_clist.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 9d8ed89..cb3d6bd 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -333,10 +333,14 @@ namespace sprout {
 			}
 		}
 		SPROUT_CXX14_CONSTEXPR forward_clist(forward_clist&& x)
-			: fst(sprout::move(x.fst))
-		{}
+			: fst()
+		{
+			fst.swap(x.fst);
+		}
 		SPROUT_CXX14_CONSTEXPR forward_clist& operator=(forward_clist&& x) {
-			fst = sprout::move(x.fst);
+			forward_clist temp(sprout::move(x));
+			temp.swap(*this);
+			temp.clear();
 			return *this;
 		}
 		template<typename InputIterator>
@@ -446,7 +450,7 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR void swap(forward_clist& other) {
-			sprout::swap(fst, other.fst);
+			fst.swap(other.fst);
 		}
 		SPROUT_CXX14_CONSTEXPR void clear() SPROUT_NOEXCEPT {
 			fst.unlink_all();
-- 
2.43.0


From 03cf2bed1fc8550ff70be00249a4f7f8218ce7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 156/277] fix: checksums of wide strings ended at the first
 character whose low byte is zero

---
 sprout/checksum/md5.hpp  |  6 +++---
 sprout/checksum/sha1.hpp |  6 +++---
 sprout/checksum/sum.hpp  | 18 +++++++++---------
 sprout/checksum/xor.hpp  |  6 +++---
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/sprout/checksum/md5.hpp b/sprout/checksum/md5.hpp
index fe8e468..292f8a1 100644
--- a/sprout/checksum/md5.hpp
+++ b/sprout/checksum/md5.hpp
@@ -504,16 +504,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::md5::value_type
 	make_md5(wchar_t const* s) {
-		return sprout::md5().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::md5().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::md5::value_type
 	make_md5(char16_t const* s) {
-		return sprout::md5().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::md5().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::md5::value_type
 	make_md5(char32_t const* s) {
-		return sprout::md5().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::md5().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 }	// namespace sprout
diff --git a/sprout/checksum/sha1.hpp b/sprout/checksum/sha1.hpp
index c6256a9..5d273eb 100644
--- a/sprout/checksum/sha1.hpp
+++ b/sprout/checksum/sha1.hpp
@@ -546,16 +546,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::sha1::value_type
 	make_sha1(wchar_t const* s) {
-		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sha1().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::sha1::value_type
 	make_sha1(char16_t const* s) {
-		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::sha1::value_type
 	make_sha1(char32_t const* s) {
-		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 }	// namespace sprout
diff --git a/sprout/checksum/sum.hpp b/sprout/checksum/sum.hpp
index f37fbf2..c664d15 100644
--- a/sprout/checksum/sum.hpp
+++ b/sprout/checksum/sum.hpp
@@ -146,16 +146,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::sum8::value_type
 	make_sum8(wchar_t const* s) {
-		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum8().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::sum8::value_type
 	make_sum8(char16_t const* s) {
-		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::sum8::value_type
 	make_sum8(char32_t const* s) {
-		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 	//
@@ -177,16 +177,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::sum16::value_type
 	make_sum16(wchar_t const* s) {
-		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum16().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::sum16::value_type
 	make_sum16(char16_t const* s) {
-		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::sum16::value_type
 	make_sum16(char32_t const* s) {
-		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 	//
@@ -208,16 +208,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::sum32::value_type
 	make_sum32(wchar_t const* s) {
-		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum32().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::sum32::value_type
 	make_sum32(char16_t const* s) {
-		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::sum32::value_type
 	make_sum32(char32_t const* s) {
-		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 }	// namespace sprout
diff --git a/sprout/checksum/xor.hpp b/sprout/checksum/xor.hpp
index 570098b..35433f2 100644
--- a/sprout/checksum/xor.hpp
+++ b/sprout/checksum/xor.hpp
@@ -127,16 +127,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::xor8::value_type
 	make_xor8(wchar_t const* s) {
-		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::xor8().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::xor8::value_type
 	make_xor8(char16_t const* s) {
-		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::xor8::value_type
 	make_xor8(char32_t const* s) {
-		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 }	// namespace sprout
-- 
2.43.0


From 11b78766798c01570672c8ab16f1287d6f55450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 157/277] fix: a uuid was printed wrongly to a stream with
 left, internal or showbase set

---
 sprout/uuid/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/uuid/io.hpp b/sprout/uuid/io.hpp
index 4452e10..18bf63d 100644
--- a/sprout/uuid/io.hpp
+++ b/sprout/uuid/io.hpp
@@ -96,7 +96,7 @@ namespace sprout {
 						lhs << fill;
 					}
 				}
-				lhs << std::hex;
+				lhs << std::hex << std::right << std::noshowbase;
 				lhs.fill(lhs.widen('0'));
 				std::size_t i = 0;
 				for (sprout::uuids::uuid::const_iterator i_data = rhs.begin(), i_last = rhs.end(); i_data != i_last; ++i_data, ++i) {
-- 
2.43.0


From 3c1b91b757418e2a57a38823a88654d6e325a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 158/277] fix: uuid extraction read an uninitialized character
 at the end of the input

---
 sprout/uuid/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/uuid/io.hpp b/sprout/uuid/io.hpp
index 18bf63d..cf34248 100644
--- a/sprout/uuid/io.hpp
+++ b/sprout/uuid/io.hpp
@@ -41,7 +41,7 @@ namespace sprout {
 					ctype.widen(szdigits, szdigits + 16, xdigits);
 				}
 				char_type const* const xdigits_end = xdigits + 16;
-				char_type c;
+				char_type c = char_type();
 				for (sprout::uuids::uuid::size_type i = 0, last = rhs.size(); i < last && lhs; ++i) {
 					lhs >> c;
 					c = ctype.toupper(c);
-- 
2.43.0


From a02cccd64994f5502b501727ac0174259bd9d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:02 +0000
Subject: [PATCH 159/277] fix: mutating md5::process_block and process_bytes
 did not compile

---
 sprout/checksum/md5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/checksum/md5.hpp b/sprout/checksum/md5.hpp
index 292f8a1..86b5506 100644
--- a/sprout/checksum/md5.hpp
+++ b/sprout/checksum/md5.hpp
@@ -362,7 +362,7 @@ namespace sprout {
 			block_.assign(0);
 		}
 		template<typename InputIterator>
-		SPROUT_CXX14_CONSTEXPR void process_block_impl(InputIterator const& first, InputIterator const& last) {
+		SPROUT_CXX14_CONSTEXPR void process_block_impl(InputIterator first, InputIterator last) {
 			for (; first != last; ++first) {
 				process_byte(*first);
 			}
-- 
2.43.0


From a5a3d42eaec4b91e237361e698c856ee24acdc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 160/277] fix: tuple access to a uuid did not compile

---
 sprout/uuid/tuple.hpp | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/sprout/uuid/tuple.hpp b/sprout/uuid/tuple.hpp
index 7ba170d..4d4101c 100644
--- a/sprout/uuid/tuple.hpp
+++ b/sprout/uuid/tuple.hpp
@@ -20,26 +20,28 @@
 #include <sprout/detail/nil_base.hpp>
 
 namespace sprout {
-	//
-	// tuple_get
-	//
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&
-	tuple_get(sprout::uuids::uuid& t) SPROUT_NOEXCEPT {
-		static_assert(I < 16, "tuple_get: index out of range");
-		return t[I];
-	}
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type const&
-	tuple_get(sprout::uuids::uuid const& t) SPROUT_NOEXCEPT {
-		static_assert(I < 16, "tuple_get: index out of range");
-		return t[I];
-	}
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&&
-	tuple_get(sprout::uuids::uuid&& t) SPROUT_NOEXCEPT {
-		return sprout::move(sprout::tuples::get<I>(t));
-	}
+	namespace uuids {
+		//
+		// tuple_get
+		//
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&
+		tuple_get(sprout::uuids::uuid& t) SPROUT_NOEXCEPT {
+			static_assert(I < 16, "tuple_get: index out of range");
+			return t[I];
+		}
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type const&
+		tuple_get(sprout::uuids::uuid const& t) SPROUT_NOEXCEPT {
+			static_assert(I < 16, "tuple_get: index out of range");
+			return t[I];
+		}
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&&
+		tuple_get(sprout::uuids::uuid&& t) SPROUT_NOEXCEPT {
+			return sprout::move(sprout::tuples::get<I>(t));
+		}
+	}	// namespace uuids
 }	// namespace sprout
 
 namespace std {
-- 
2.43.0


From 48799d0f954c5f26bdd914ea5960adc43276555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 161/277] fix: uuid extraction did not compile

---
 sprout/uuid/io.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sprout/uuid/io.hpp b/sprout/uuid/io.hpp
index cf34248..b2c3d9e 100644
--- a/sprout/uuid/io.hpp
+++ b/sprout/uuid/io.hpp
@@ -40,26 +40,27 @@ namespace sprout {
 					char const szdigits[] = "0123456789ABCDEF";
 					ctype.widen(szdigits, szdigits + 16, xdigits);
 				}
+				char_type const* const xdigits_begin = xdigits;
 				char_type const* const xdigits_end = xdigits + 16;
 				char_type c = char_type();
 				for (sprout::uuids::uuid::size_type i = 0, last = rhs.size(); i < last && lhs; ++i) {
 					lhs >> c;
 					c = ctype.toupper(c);
-					char_type const* f = sprout::find(xdigits, xdigits_end, c);
+					char_type const* f = sprout::find(xdigits_begin, xdigits_end, c);
 					if (f == xdigits_end) {
 						lhs.setstate(std::ios_base::failbit);
 						break;
 					}
-					sprout::uuids::uuid::value_type byte = static_cast<sprout::uuids::uuid::value_type>(std::distance(&xdigits[0], f));
+					sprout::uuids::uuid::value_type byte = static_cast<sprout::uuids::uuid::value_type>(std::distance(xdigits_begin, f));
 					lhs >> c;
 					c = ctype.toupper(c);
-					f = sprout::find(xdigits, xdigits_end, c);
+					f = sprout::find(xdigits_begin, xdigits_end, c);
 					if (f == xdigits_end) {
 						lhs.setstate(std::ios_base::failbit);
 						break;
 					}
 					byte <<= 4;
-					byte |= static_cast<sprout::uuids::uuid::value_type>(std::distance(&xdigits[0], f));
+					byte |= static_cast<sprout::uuids::uuid::value_type>(std::distance(xdigits_begin, f));
 					data[i] = byte;
 					if (lhs) {
 						if (i == 3 || i == 5 || i == 7 || i == 9) {
-- 
2.43.0


From 567c6ec38dbc7f888370414dfab9e7dde0c8ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:00 +0000
Subject: [PATCH 162/277] fix: hashing a uuid recursed without end

---
 sprout/uuid/hash.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sprout/uuid/hash.hpp b/sprout/uuid/hash.hpp
index 8b7e55d..ecb9a54 100644
--- a/sprout/uuid/hash.hpp
+++ b/sprout/uuid/hash.hpp
@@ -15,13 +15,15 @@
 #include <sprout/functional/hash.hpp>
 
 namespace sprout {
-	//
-	// hash_value
-	//
-	inline SPROUT_CONSTEXPR std::size_t
-	hash_value(sprout::uuids::uuid const& v) {
-		return sprout::hash_range(v);
-	}
+	namespace uuids {
+		//
+		// hash_value
+		//
+		inline SPROUT_CONSTEXPR std::size_t
+		hash_value(sprout::uuids::uuid const& v) {
+			return sprout::hash_range(v);
+		}
+	}	// namespace uuids
 }	// namespace sprout
 
 namespace std {
-- 
2.43.0


From 10aca26559828da328bfa9dccdc16fff06aa1ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:21 +0000
Subject: [PATCH 163/277] fix: npos compared less than values equal to it

---
 sprout/string/npos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/string/npos.hpp b/sprout/string/npos.hpp
index b2fa1af..630bb74 100644
--- a/sprout/string/npos.hpp
+++ b/sprout/string/npos.hpp
@@ -78,7 +78,7 @@ namespace sprout {
 	template<typename UIntType, typename sprout::enabler_if<sprout::is_uint<UIntType>::value>::type = sprout::enabler>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::npos_t lhs, UIntType const& rhs) {
-		return rhs == lhs;
+		return UIntType(lhs) < rhs;
 	}
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::npos_t, sprout::npos_t) {
-- 
2.43.0


From cb5db1dec2fec785cff467148ed4228b388ec197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:21 +0000
Subject: [PATCH 164/277] fix: chained comparison starting from a user
 comparison did not compile

---
 sprout/utility/comparison.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/utility/comparison.hpp b/sprout/utility/comparison.hpp
index e0fbae4..73fc2db 100644
--- a/sprout/utility/comparison.hpp
+++ b/sprout/utility/comparison.hpp
@@ -329,7 +329,7 @@ namespace sprout {
 	template<typename T, typename Compare>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<T, Compare>
 	operator>(sprout::comparison_forwarder<Compare> const& lhs, T const& rhs) {
-		return sprout::greater_comparison<T>(rhs, lhs.comp());
+		return sprout::greater_comparison<T, Compare>(rhs, lhs.comp());
 	}
 	template<typename T>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<T>
@@ -339,7 +339,7 @@ namespace sprout {
 	template<typename T, typename Compare>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<T, Compare>
 	operator>=(sprout::comparison_forwarder<Compare> const& lhs, T const& rhs) {
-		return sprout::greater_comparison<T>(rhs, lhs.comp());
+		return sprout::greater_comparison<T, Compare>(rhs, lhs.comp());
 	}
 	template<typename T>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<T>
@@ -465,7 +465,7 @@ namespace sprout {
 	template<typename T, typename Compare>
 	inline SPROUT_CONSTEXPR sprout::equal_comparison<T, Compare>
 	operator==(sprout::comparison_forwarder<Compare> const& lhs, T const& rhs) {
-		return sprout::equal_comparison<T>(rhs, lhs.comp());
+		return sprout::equal_comparison<T, Compare>(rhs, lhs.comp());
 	}
 	template<typename T>
 	inline SPROUT_CONSTEXPR sprout::equal_comparison<T>
-- 
2.43.0


From c561676ac21b43b197954b1d1468192ba6e3ee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:21 +0000
Subject: [PATCH 165/277] fix: chained comparison with a user comparison forgot
 an earlier false result

---
 sprout/utility/comparison.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/utility/comparison.hpp b/sprout/utility/comparison.hpp
index 73fc2db..2b672e4 100644
--- a/sprout/utility/comparison.hpp
+++ b/sprout/utility/comparison.hpp
@@ -229,7 +229,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::less_comparison<U, Compare>
 	operator<(sprout::less_comparison<T, Compare> const& lhs, U const& rhs) {
-		return lhs.comp()(lhs.get(), rhs) ? sprout::less_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && lhs.comp()(lhs.get(), rhs) ? sprout::less_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::less_comparison<U, Compare>()
 			;
 	}
@@ -260,7 +260,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::less_comparison<U, Compare>
 	operator<=(sprout::less_comparison<T, Compare> const& lhs, U const& rhs) {
-		return !lhs.comp()(rhs, lhs.get()) ? sprout::less_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && !lhs.comp()(rhs, lhs.get()) ? sprout::less_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::less_comparison<U, Compare>()
 			;
 	}
@@ -366,7 +366,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<U, Compare>
 	operator>(sprout::greater_comparison<T, Compare> const& lhs, U const& rhs) {
-		return lhs.comp()(rhs, lhs.get()) ? sprout::greater_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && lhs.comp()(rhs, lhs.get()) ? sprout::greater_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::greater_comparison<U, Compare>()
 			;
 	}
@@ -397,7 +397,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<U, Compare>
 	operator>=(sprout::greater_comparison<T, Compare> const& lhs, U const& rhs) {
-		return !lhs.comp()(lhs.get(), rhs) ? sprout::greater_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && !lhs.comp()(lhs.get(), rhs) ? sprout::greater_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::greater_comparison<U, Compare>()
 			;
 	}
@@ -492,7 +492,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::equal_comparison<U, Compare>
 	operator==(sprout::equal_comparison<T, Compare> const& lhs, U const& rhs) {
-		return !lhs.comp()(lhs.get(), rhs) && !lhs.comp()(rhs, lhs.get()) ? sprout::equal_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && !lhs.comp()(lhs.get(), rhs) && !lhs.comp()(rhs, lhs.get()) ? sprout::equal_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::equal_comparison<U, Compare>()
 			;
 	}
-- 
2.43.0


From 7b6744f4d4f88f95127c39eb4cd085ff65fb0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:21 +0000
Subject: [PATCH 166/277] fix: swapping exempt_ptrs did not compile

---
 sprout/memory/exempt_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/memory/exempt_ptr.hpp b/sprout/memory/exempt_ptr.hpp
index e06e918..98d83e7 100644
--- a/sprout/memory/exempt_ptr.hpp
+++ b/sprout/memory/exempt_ptr.hpp
@@ -120,7 +120,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void
 		swap(exempt_ptr& other) SPROUT_NOEXCEPT {
-			swap(p_, other.p_);
+			sprout::swap(p_, other.p_);
 		}
 		SPROUT_CXX14_CONSTEXPR exempt_ptr&
 		operator++() {
-- 
2.43.0


From 136c9da6d88310bbcf7a97faf74b6a2b59469c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 167/277] fix: hashing a std::complex did not compile

---
 sprout/functional/hash/std/complex.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sprout/functional/hash/std/complex.hpp b/sprout/functional/hash/std/complex.hpp
index c376b79..ce1eabb 100644
--- a/sprout/functional/hash/std/complex.hpp
+++ b/sprout/functional/hash/std/complex.hpp
@@ -15,13 +15,16 @@
 
 namespace sprout {
 	//
-	// hash_value
+	// hash_value_traits
 	//
 	template<typename T>
-	inline SPROUT_CONSTEXPR std::size_t
-	hash_value(std::complex<T> const& v) {
-		return sprout::hash_values(v.real(), v.imag());
-	}
+	struct hash_value_traits<std::complex<T> > {
+	public:
+		static SPROUT_CONSTEXPR std::size_t
+		hash_value(std::complex<T> const& v) {
+			return sprout::hash_values(v.real(), v.imag());
+		}
+	};
 }	// namespace sprout
 
 #endif	// #ifndef SPROUT_FUNCTIONAL_HASH_STD_COMPLEX_HPP
-- 
2.43.0


From 2625d143b6fbf7b07e86e95c3e38db1b38b148e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 168/277] fix: hashing the results of div did not compile

---
 sprout/cinttypes/div.hpp | 11 +++++++++++
 sprout/cstdlib/div.hpp   | 27 +++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/sprout/cinttypes/div.hpp b/sprout/cinttypes/div.hpp
index eb5645c..6c7ccd9 100644
--- a/sprout/cinttypes/div.hpp
+++ b/sprout/cinttypes/div.hpp
@@ -109,6 +109,17 @@ namespace sprout {
 	hash_value(sprout::imaxdiv_t const& v) {
 		return sprout::hash_values(v.quot, v.rem);
 	}
+	//
+	// hash_value_traits
+	//
+	template<>
+	struct hash_value_traits<sprout::imaxdiv_t> {
+	public:
+		static SPROUT_CONSTEXPR std::size_t
+		hash_value(sprout::imaxdiv_t const& v) {
+			return sprout::hash_values(v.quot, v.rem);
+		}
+	};
 }	// namespace sprout
 
 namespace sprout {
diff --git a/sprout/cstdlib/div.hpp b/sprout/cstdlib/div.hpp
index f844369..fa37697 100644
--- a/sprout/cstdlib/div.hpp
+++ b/sprout/cstdlib/div.hpp
@@ -131,6 +131,33 @@ namespace sprout {
 	hash_value(sprout::lldiv_t const& v) {
 		return sprout::hash_values(v.quot, v.rem);
 	}
+	//
+	// hash_value_traits
+	//
+	template<>
+	struct hash_value_traits<sprout::div_t> {
+	public:
+		static SPROUT_CONSTEXPR std::size_t
+		hash_value(sprout::div_t const& v) {
+			return sprout::hash_values(v.quot, v.rem);
+		}
+	};
+	template<>
+	struct hash_value_traits<sprout::ldiv_t> {
+	public:
+		static SPROUT_CONSTEXPR std::size_t
+		hash_value(sprout::ldiv_t const& v) {
+			return sprout::hash_values(v.quot, v.rem);
+		}
+	};
+	template<>
+	struct hash_value_traits<sprout::lldiv_t> {
+	public:
+		static SPROUT_CONSTEXPR std::size_t
+		hash_value(sprout::lldiv_t const& v) {
+			return sprout::hash_values(v.quot, v.rem);
+		}
+	};
 }	// namespace sprout
 
 namespace sprout {
-- 
2.43.0


From 0c684f75937ac3da2e80ccaf4961880b05f1265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 169/277] fix: constructing a quaternion of a standard float
 type lost the second component

---
 sprout/math/quaternion/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/quaternion/quaternion.hpp b/sprout/math/quaternion/quaternion.hpp
index e1988e5..9be6bba 100644
--- a/sprout/math/quaternion/quaternion.hpp
+++ b/sprout/math/quaternion/quaternion.hpp
@@ -370,7 +370,7 @@ namespace sprout {
 				type const& requested_c = static_cast<type>(0), \
 				type const& requested_d = static_cast<type>(0) \
 				) \
-				: elems_{{requested_a, requested_a, requested_c, requested_d}} \
+				: elems_{{requested_a, requested_b, requested_c, requested_d}} \
 			{} \
 			explicit SPROUT_CONSTEXPR quaternion( \
 				sprout::complex<type> const& z0, \
-- 
2.43.0


From ef9ce22b43ec78ef762ce9e168647c84e748ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 170/277] fix: quaternion cend returned cbegin

---
 sprout/math/quaternion/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/quaternion/quaternion.hpp b/sprout/math/quaternion/quaternion.hpp
index 9be6bba..1da7e86 100644
--- a/sprout/math/quaternion/quaternion.hpp
+++ b/sprout/math/quaternion/quaternion.hpp
@@ -281,7 +281,7 @@ namespace sprout {
 				return elems_.cbegin();
 			}
 			SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-				return elems_.cbegin();
+				return elems_.cend();
 			}
 			SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 				return elems_.crbegin();
@@ -580,7 +580,7 @@ namespace sprout {
 				return elems_.cbegin(); \
 			} \
 			SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT { \
-				return elems_.cbegin(); \
+				return elems_.cend(); \
 			} \
 			SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT { \
 				return elems_.crbegin(); \
-- 
2.43.0


From 2f3b9c8b2b77ad61b1eb1128721edd3a666bca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 171/277] fix: real or complex minus quaternion kept the sign
 of the other components

---
 sprout/math/quaternion/arithmetic_operators.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index 89c90ea..5d7b488 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -74,9 +74,9 @@ namespace sprout {
 		operator-(T const& lhs, sprout::math::quaternion<T> const& rhs) {
 			return sprout::math::quaternion<T>(
 				lhs - rhs.R_component_1(),
-				rhs.R_component_2(),
-				rhs.R_component_3(),
-				rhs.R_component_4()
+				-rhs.R_component_2(),
+				-rhs.R_component_3(),
+				-rhs.R_component_4()
 				);
 		}
 		template<typename T>
@@ -95,8 +95,8 @@ namespace sprout {
 			return sprout::math::quaternion<T>(
 				lhs.real() - rhs.R_component_1(),
 				lhs.imag() - rhs.R_component_2(),
-				rhs.R_component_3(),
-				rhs.R_component_4()
+				-rhs.R_component_3(),
+				-rhs.R_component_4()
 				);
 		}
 		template<typename T>
-- 
2.43.0


From d8e268e115b27823d0294beb745f33a1647915e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 172/277] fix: products of complex and quaternion did not
 compile

---
 .../math/quaternion/arithmetic_operators.hpp  | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index 5d7b488..bbb7517 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -153,21 +153,31 @@ namespace sprout {
 					-c * br + d * ar
 					);
 			}
+			template<typename T>
+			inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
+			mul_cq_impl(T const& a, T const& b, T const& ar, T const& br, T const& cr, T const& dr) {
+				return sprout::math::quaternion<T>(
+					+a * ar - b * br,
+					+a * br + b * ar,
+					+a * cr - b * dr,
+					+a * dr + b * cr
+					);
+			}
 		}	// namespace detail
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator*(sprout::complex<T> const& lhs, sprout::math::quaternion<T> const& rhs) {
-			return sprout::math::detail::mul_qc_impl(
-				lhs.R_component_1(), lhs.R_component_2(), lhs.R_component_3(), lhs.R_component_4(),
-				rhs.real(), rhs.imag()
+			return sprout::math::detail::mul_cq_impl(
+				lhs.real(), lhs.imag(),
+				rhs.R_component_1(), rhs.R_component_2(), rhs.R_component_3(), rhs.R_component_4()
 				);
 		}
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator*(sprout::math::quaternion<T> const& lhs, sprout::complex<T> const& rhs) {
 			return sprout::math::detail::mul_qc_impl(
-				rhs.R_component_1(), rhs.R_component_2(), rhs.R_component_3(), rhs.R_component_4(),
-				lhs.real(), lhs.imag()
+				lhs.R_component_1(), lhs.R_component_2(), lhs.R_component_3(), lhs.R_component_4(),
+				rhs.real(), rhs.imag()
 				);
 		}
 		namespace detail {
-- 
2.43.0


From 23fb56f6a377afe983516bb68d12cdf2f1795f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 173/277] fix: quaternion division did not compile

---
 sprout/math/quaternion/arithmetic_operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index bbb7517..7dd0664 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -234,7 +234,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 			div_qq_impl_3(sprout::array<T, 4> const& tr, T const& mixam, sprout::array<T, 4> const& tt) {
-				return sprout::math::detail::div_qq_impl_3(
+				return sprout::math::detail::div_qq_impl_4(
 					sprout::math::detail::mul(tt, mixam / sprout::math::detail::sum(tr))
 					);
 			}
-- 
2.43.0


From 75d04dac616236c14e0ff992be7cd796530df22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 174/277] fix: real divided by quaternion divided component by
 component

---
 sprout/math/quaternion/arithmetic_operators.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index 7dd0664..323445f 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -205,16 +205,6 @@ namespace sprout {
 		//
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
-		operator/(T const& lhs, sprout::math::quaternion<T> const& rhs) {
-			return sprout::math::quaternion<T>(
-				lhs / rhs.R_component_1(),
-				lhs / rhs.R_component_2(),
-				lhs / rhs.R_component_3(),
-				lhs / rhs.R_component_4()
-				);
-		}
-		template<typename T>
-		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator/(sprout::math::quaternion<T> const& lhs, T const& rhs) {
 			return sprout::math::quaternion<T>(
 				lhs.R_component_1() / rhs,
@@ -291,6 +281,11 @@ namespace sprout {
 				sprout::array<T, 4>{{rhs.R_component_1(), rhs.R_component_2(), rhs.R_component_3(), rhs.R_component_4()}}
 				);
 		}
+		template<typename T>
+		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
+		operator/(T const& lhs, sprout::math::quaternion<T> const& rhs) {
+			return sprout::math::quaternion<T>(lhs) / rhs;
+		}
 
 		//
 		// operator+
-- 
2.43.0


From c05fe09760e9fda9f4635248b789ec3c522d2dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 175/277] fix: quaternion abs did not compile and divided by
 the scale twice

---
 sprout/math/quaternion/abs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/quaternion/abs.hpp b/sprout/math/quaternion/abs.hpp
index 3888a9a..122ed36 100644
--- a/sprout/math/quaternion/abs.hpp
+++ b/sprout/math/quaternion/abs.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			abs_q_impl_3(sprout::array<T, 4> const& temp, T const& maxim) {
-				return maxim * sprout::math::sqrt(sprout::math::detail::sum(sprout::math::detail::mul(temp, temp)));
+				return sprout::math::sqrt(sprout::math::detail::sum(sprout::math::detail::mul(temp, temp))) / maxim;
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
@@ -37,7 +37,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			abs_q_impl_1(sprout::array<T, 4> const& temp, T const& maxim) {
-				return maxim == static_cast<T>(0) ? sprout::math::quaternion<T>(maxim)
+				return maxim == static_cast<T>(0) ? maxim
 					: sprout::math::detail::abs_q_impl_2(
 						temp, static_cast<T>(1) / maxim
 						)
-- 
2.43.0


From f2788175e4c2f19daa08998e62e5b976a8ca2959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 176/277] fix: reading a quaternion from a plain number at the
 end of the stream stored nothing

---
 sprout/math/quaternion/stream_operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/quaternion/stream_operators.hpp b/sprout/math/quaternion/stream_operators.hpp
index 5f215c4..d66303f 100644
--- a/sprout/math/quaternion/stream_operators.hpp
+++ b/sprout/math/quaternion/stream_operators.hpp
@@ -186,7 +186,7 @@ namespace sprout {
 			} else {
 				lhs.putback(ch);
 				lhs >> a;
-				if (!lhs.good()) {
+				if (lhs.fail()) {
 					goto finish;
 				}
 				rhs = sprout::math::quaternion<T>(a);
-- 
2.43.0


From bfda092e0797fa72a741236c1064bc5768da8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 177/277] fix: tuple access to a quaternion did not compile

---
 sprout/math/quaternion/tuple.hpp | 42 +++++++++++++++++---------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/sprout/math/quaternion/tuple.hpp b/sprout/math/quaternion/tuple.hpp
index f5cd0d6..8dd6a67 100644
--- a/sprout/math/quaternion/tuple.hpp
+++ b/sprout/math/quaternion/tuple.hpp
@@ -114,26 +114,28 @@ namespace std {
 }	// namespace std
 
 namespace sprout {
-	//
-	// tuple_get
-	//
-	template<std::size_t I, typename T>
-	inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type&
-	tuple_get(sprout::math::quaternion<T>& t) SPROUT_NOEXCEPT {
-		static_assert(I < 4, "tuple_get: index out of range");
-		return sprout::tuples::detail::get_impl<I, sprout::math::quaternion<T> >()(t);
-	}
-	template<std::size_t I, typename T>
-	inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type const&
-	tuple_get(sprout::math::quaternion<T> const& t) SPROUT_NOEXCEPT {
-		static_assert(I < 4, "tuple_get: index out of range");
-		return sprout::tuples::detail::get_impl<I, sprout::math::quaternion<T> >()(t);
-	}
-	template<std::size_t I, typename T>
-	inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type&&
-	tuple_get(sprout::math::quaternion<T>&& t) SPROUT_NOEXCEPT {
-		return sprout::move(sprout::tuples::get<I>(t));
-	}
+	namespace math {
+		//
+		// tuple_get
+		//
+		template<std::size_t I, typename T>
+		inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type&
+		tuple_get(sprout::math::quaternion<T>& t) SPROUT_NOEXCEPT {
+			static_assert(I < 4, "tuple_get: index out of range");
+			return sprout::tuples::detail::get_impl<I, sprout::math::quaternion<T> >()(t);
+		}
+		template<std::size_t I, typename T>
+		inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type const&
+		tuple_get(sprout::math::quaternion<T> const& t) SPROUT_NOEXCEPT {
+			static_assert(I < 4, "tuple_get: index out of range");
+			return sprout::tuples::detail::get_impl<I, sprout::math::quaternion<T> >()(t);
+		}
+		template<std::size_t I, typename T>
+		inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type&&
+		tuple_get(sprout::math::quaternion<T>&& t) SPROUT_NOEXCEPT {
+			return sprout::move(sprout::tuples::get<I>(t));
+		}
+	}	// namespace math
 }	// namespace sprout
 
 #endif	// #ifndef SPROUT_MATH_QUATERNION_TUPLE_HPP
-- 
2.43.0


From ddff9c6cb226ccd046cd42adb1430015788d89a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:44 +0000
Subject: [PATCH 178/277] fix: reading a truncated quaternion reported success

---
 sprout/math/quaternion/stream_operators.hpp | 34 ++++++++++-----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/sprout/math/quaternion/stream_operators.hpp b/sprout/math/quaternion/stream_operators.hpp
index d66303f..36d20a3 100644
--- a/sprout/math/quaternion/stream_operators.hpp
+++ b/sprout/math/quaternion/stream_operators.hpp
@@ -50,13 +50,13 @@ namespace sprout {
 			Elem ch = Elem();
 			char cc;
 			lhs >> ch;
-			if (!lhs.good()) {
+			if (lhs.fail()) {
 				goto finish;
 			}
 			cc = ct.narrow(ch, char());
 			if (cc == '(') {
 				lhs >> ch;
-				if (!lhs.good()) {
+				if (lhs.fail()) {
 					goto finish;
 				}
 				cc = ct.narrow(ch, char());
@@ -65,11 +65,11 @@ namespace sprout {
 					lhs >> u;
 					a = u.real();
 					b = u.imag();
-					if (!lhs.good()) {
+					if (lhs.fail()) {
 						goto finish;
 					}
 					lhs >> ch;
-					if (!lhs.good()) {
+					if (lhs.fail()) {
 						goto finish;
 					}
 					cc = ct.narrow(ch, char());
@@ -79,11 +79,11 @@ namespace sprout {
 						lhs >> v;
 						c = v.real();
 						d = v.imag();
-						if (!lhs.good()) {
+						if (lhs.fail()) {
 							goto finish;
 						}
 						lhs >> ch;
-						if (!lhs.good()) {
+						if (lhs.fail()) {
 							goto finish;
 						}
 						cc = ct.narrow(ch, char());
@@ -98,11 +98,11 @@ namespace sprout {
 				} else {
 					lhs.putback(ch);
 					lhs >> a;
-					if (!lhs.good()) {
+					if (lhs.fail()) {
 						goto finish;
 					}
 					lhs >> ch;
-					if (!lhs.good()) {
+					if (lhs.fail()) {
 						goto finish;
 					}
 					cc = ct.narrow(ch, char());
@@ -110,7 +110,7 @@ namespace sprout {
 						rhs = sprout::math::quaternion<T>(a);
 					} else if (cc == ',') {
 						lhs >> ch;
-						if (!lhs.good()) {
+						if (lhs.fail()) {
 							goto finish;
 						}
 						cc = ct.narrow(ch, char());
@@ -119,11 +119,11 @@ namespace sprout {
 							lhs >> v;
 							c = v.real();
 							d = v.imag();
-							if (!lhs.good()) {
+							if (lhs.fail()) {
 								goto finish;
 							}
 							lhs >> ch;
-							if (!lhs.good()) {
+							if (lhs.fail()) {
 								goto finish;
 							}
 							cc = ct.narrow(ch, char());
@@ -135,11 +135,11 @@ namespace sprout {
 						} else {
 							lhs.putback(ch);
 							lhs >> b;
-							if (!lhs.good()) {
+							if (lhs.fail()) {
 								goto finish;
 							}
 							lhs >> ch;
-							if (!lhs.good()) {
+							if (lhs.fail()) {
 								goto finish;
 							}
 							cc = ct.narrow(ch, char());
@@ -147,11 +147,11 @@ namespace sprout {
 								rhs = sprout::math::quaternion<T>(a, b);
 							} else if (cc == ',') {
 								lhs >> c;
-								if (!lhs.good()) {
+								if (lhs.fail()) {
 									goto finish;
 								}
 								lhs >> ch;
-								if (!lhs.good()) {
+								if (lhs.fail()) {
 									goto finish;
 								}
 								cc = ct.narrow(ch, char());
@@ -159,11 +159,11 @@ namespace sprout {
 									rhs = sprout::math::quaternion<T>(a, b, c);
 								} else if (cc == ',') {
 									lhs >> d;
-									if (!lhs.good()) {
+									if (lhs.fail()) {
 										goto finish;
 									}
 									lhs >> ch;
-									if (!lhs.good()) {
+									if (lhs.fail()) {
 										goto finish;
 									}
 									cc = ct.narrow(ch, char());
-- 
2.43.0


From 3044ad407702d6b31b22a208d8974e4d14f4a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:53 +0000
Subject: [PATCH 179/277] fix: lround and llround of an integer did not compile

---
 sprout/math/llround.hpp | 2 +-
 sprout/math/lround.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/llround.hpp b/sprout/math/llround.hpp
index 660fc75..3aca469 100644
--- a/sprout/math/llround.hpp
+++ b/sprout/math/llround.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 		llround(IntType x) {
 			return
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
-				sprout::math::detail::builtin_llround(x)
+				sprout::math::detail::builtin_llround(static_cast<double>(x))
 #else
 				sprout::math::iround<long long>(x)
 #endif
diff --git a/sprout/math/lround.hpp b/sprout/math/lround.hpp
index e2d42ca..575938d 100644
--- a/sprout/math/lround.hpp
+++ b/sprout/math/lround.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 		lround(IntType x) {
 			return
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
-				sprout::math::detail::builtin_lround(x)
+				sprout::math::detail::builtin_lround(static_cast<double>(x))
 #else
 				sprout::math::iround<long>(x)
 #endif
-- 
2.43.0


From d9ee31df85b7017d75ac1cf27849a44afaf7c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:33 +0000
Subject: [PATCH 180/277] fix: issubnormal compared every type with the
 smallest normal double

---
 sprout/math/issubnormal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/issubnormal.hpp b/sprout/math/issubnormal.hpp
index 5cf7230..2f60a1e 100644
--- a/sprout/math/issubnormal.hpp
+++ b/sprout/math/issubnormal.hpp
@@ -28,8 +28,8 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR bool
 			issubnormal_or_zero(FloatType x) {
 				return x > 0
-					? x < sprout::numeric_limits<double>::min()
-					: x > -sprout::numeric_limits<double>::min()
+					? x < sprout::numeric_limits<FloatType>::min()
+					: x > -sprout::numeric_limits<FloatType>::min()
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From 7516af72773bbe98fc2411bed6553e173feb9c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:33 +0000
Subject: [PATCH 181/277] fix: fdim of two infinities was infinite

---
 sprout/math/fdim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/fdim.hpp b/sprout/math/fdim.hpp
index 29cb58a..6a73dc8 100644
--- a/sprout/math/fdim.hpp
+++ b/sprout/math/fdim.hpp
@@ -45,7 +45,7 @@ namespace sprout {
 		fdim(FloatType x, FloatType y) {
 			return sprout::math::isnan(y) ? y
 				: sprout::math::isnan(x) ? x
-				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
+				: x == sprout::numeric_limits<FloatType>::infinity() ? y == x ? FloatType(0) : x
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
 				: y == sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
 				: y == -sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
-- 
2.43.0


From 5dbb4c1147c07b5fdf3c56f61b9dd9b1b72ba392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:33 +0000
Subject: [PATCH 182/277] fix: portable islessequal was false for equal
 arguments

---
 sprout/math/islessequal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/islessequal.hpp b/sprout/math/islessequal.hpp
index 0f9896a..8e0d6d9 100644
--- a/sprout/math/islessequal.hpp
+++ b/sprout/math/islessequal.hpp
@@ -39,7 +39,7 @@ namespace sprout {
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 				sprout::math::detail::builtin_islessequal(x, y)
 #else
-				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x < y)
+				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x <= y)
 #endif
 				;
 		}
-- 
2.43.0


From 9fe8fe98dfe7fdf14d1e2e8e9bb40762966d1d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:33 +0000
Subject: [PATCH 183/277] fix: portable floor and ceil treated nearly whole
 numbers as whole

---
 sprout/math/ceil.hpp   | 2 +-
 sprout/math/floor.hpp  | 2 +-
 sprout/math/iceil.hpp  | 2 +-
 sprout/math/ifloor.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/math/ceil.hpp b/sprout/math/ceil.hpp
index a72c3c2..b5785dc 100644
--- a/sprout/math/ceil.hpp
+++ b/sprout/math/ceil.hpp
@@ -40,7 +40,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			ceil_impl_1(T x, T x0) {
-				return sprout::math::equal_to(x, x0) ? x0
+				return x == x0 ? x0
 					: x0 + T(1)
 					;
 			}
diff --git a/sprout/math/floor.hpp b/sprout/math/floor.hpp
index b018752..5a4a150 100644
--- a/sprout/math/floor.hpp
+++ b/sprout/math/floor.hpp
@@ -40,7 +40,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			floor_impl_1(T x, T x0) {
-				return sprout::math::equal_to(x, x0) ? x0
+				return x == x0 ? x0
 					: x0 - T(1)
 					;
 			}
diff --git a/sprout/math/iceil.hpp b/sprout/math/iceil.hpp
index 86def99..06c62e0 100644
--- a/sprout/math/iceil.hpp
+++ b/sprout/math/iceil.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			template<typename To, typename FloatType>
 			inline SPROUT_CONSTEXPR To
 			iceil_impl(FloatType x, To x0) {
-				return sprout::math::less_equal(x, x0) ? x0
+				return !(x > x0) ? x0
 					: x0 + 1
 					;
 			}
diff --git a/sprout/math/ifloor.hpp b/sprout/math/ifloor.hpp
index a664fc8..14a6f38 100644
--- a/sprout/math/ifloor.hpp
+++ b/sprout/math/ifloor.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			template<typename To, typename FloatType>
 			inline SPROUT_CONSTEXPR To
 			ifloor_impl(FloatType x, To x0) {
-				return sprout::math::greater_equal(x, x0) ? x0
+				return !(x < x0) ? x0
 					: x0 - 1
 					;
 			}
-- 
2.43.0


From f116fb13abd420f73ad059520684bd03dad45ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:33 +0000
Subject: [PATCH 184/277] fix: portable rounding converted 2^64 to an integer
 that cannot hold it

---
 sprout/math/ceil.hpp  | 2 +-
 sprout/math/floor.hpp | 2 +-
 sprout/math/round.hpp | 2 +-
 sprout/math/trunc.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/math/ceil.hpp b/sprout/math/ceil.hpp
index b5785dc..2c49738 100644
--- a/sprout/math/ceil.hpp
+++ b/sprout/math/ceil.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_ceil(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("ceil: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::ceil_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/floor.hpp b/sprout/math/floor.hpp
index 5a4a150..520e90f 100644
--- a/sprout/math/floor.hpp
+++ b/sprout/math/floor.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_floor(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("floor: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::floor_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/round.hpp b/sprout/math/round.hpp
index 1d2a361..ea8e9d7 100644
--- a/sprout/math/round.hpp
+++ b/sprout/math/round.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_round(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("round: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::round_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/trunc.hpp b/sprout/math/trunc.hpp
index 80eaba3..291ef4c 100644
--- a/sprout/math/trunc.hpp
+++ b/sprout/math/trunc.hpp
@@ -51,7 +51,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_trunc(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("trunc: large float rounding."), x)
 				: x < 0 ? -static_cast<FloatType>(static_cast<std::uintmax_t>(-x))
 				: static_cast<FloatType>(static_cast<std::uintmax_t>(x))
-- 
2.43.0


From 2afc2392b383e9f563c615580b038bbb51cb7210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:33 +0000
Subject: [PATCH 185/277] fix: significands of subnormal and very large numbers
 over- or underflowed

---
 sprout/math/float2_sig_exp.hpp     | 4 ++--
 sprout/math/float2_significand.hpp | 4 ++--
 sprout/math/float_sig_exp.hpp      | 4 ++--
 sprout/math/float_significand.hpp  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sprout/math/float2_sig_exp.hpp b/sprout/math/float2_sig_exp.hpp
index ccb3e85..d7993aa 100644
--- a/sprout/math/float2_sig_exp.hpp
+++ b/sprout/math/float2_sig_exp.hpp
@@ -11,7 +11,7 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
-#include <sprout/detail/pow.hpp>
+#include <sprout/math/ldexp.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/ilogb2.hpp>
@@ -25,7 +25,7 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<T, int>
 			float2_sig_exp_impl(T x, int exp) {
 				typedef sprout::pair<T, int> type;
-				return type(x / sprout::detail::pow_n(T(2), exp), exp);
+				return type(sprout::math::ldexp(x, -exp), exp);
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/float2_significand.hpp b/sprout/math/float2_significand.hpp
index 96beec8..c2aa586 100644
--- a/sprout/math/float2_significand.hpp
+++ b/sprout/math/float2_significand.hpp
@@ -11,7 +11,7 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
-#include <sprout/detail/pow.hpp>
+#include <sprout/math/ldexp.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/float2_exponent.hpp>
@@ -32,7 +32,7 @@ namespace sprout {
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? -sprout::numeric_limits<FloatType>::infinity()
 				: x == 0 ? x
-				: x / sprout::detail::pow_n(FloatType(2), sprout::float2_exponent(x))
+				: sprout::math::ldexp(x, -sprout::float2_exponent(x))
 				;
 		}
 		template<
diff --git a/sprout/math/float_sig_exp.hpp b/sprout/math/float_sig_exp.hpp
index 4f42b5a..b2a4f35 100644
--- a/sprout/math/float_sig_exp.hpp
+++ b/sprout/math/float_sig_exp.hpp
@@ -11,7 +11,7 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
-#include <sprout/detail/pow.hpp>
+#include <sprout/math/scalbn.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/ilogb.hpp>
@@ -25,7 +25,7 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<T, int>
 			float_sig_exp_impl(T x, int exp) {
 				typedef sprout::pair<T, int> type;
-				return type(x / sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), exp), exp);
+				return type(sprout::math::scalbn(x, -exp), exp);
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/float_significand.hpp b/sprout/math/float_significand.hpp
index 0d7f7ff..0a8baa7 100644
--- a/sprout/math/float_significand.hpp
+++ b/sprout/math/float_significand.hpp
@@ -11,7 +11,7 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
-#include <sprout/detail/pow.hpp>
+#include <sprout/math/scalbn.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/float_exponent.hpp>
@@ -32,7 +32,7 @@ namespace sprout {
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? -sprout::numeric_limits<FloatType>::infinity()
 				: x == 0 ? x
-				: x / sprout::detail::pow_n(FloatType(sprout::numeric_limits<FloatType>::radix), sprout::float_exponent(x))
+				: sprout::math::scalbn(x, -sprout::float_exponent(x))
 				;
 		}
 		template<
-- 
2.43.0


From a53e27dc8cb5bea612cafd8948b697a9a02072bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:33 +0000
Subject: [PATCH 186/277] fix: portable ldexp and scalbn over- or underflowed
 in the power of two

---
 sprout/math/detail/scale.hpp | 43 ++++++++++++++++++++++++++++++++++++
 sprout/math/ldexp.hpp        |  4 ++--
 sprout/math/scalbln.hpp      |  4 ++--
 sprout/math/scalbn.hpp       |  4 ++--
 4 files changed, 49 insertions(+), 6 deletions(-)
 create mode 100644 sprout/math/detail/scale.hpp

diff --git a/sprout/math/detail/scale.hpp b/sprout/math/detail/scale.hpp
new file mode 100644
index 0000000..c128be7
--- /dev/null
+++ b/sprout/math/detail/scale.hpp
@@ -0,0 +1,43 @@
+/*=============================================================================
+  Copyright (c) 2011-2019 Bolero MURAKAMI
+  https://github.com/bolero-MURAKAMI/Sprout
+
+  Distributed under the Boost Software License, Version 1.0. (See accompanying
+  file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
+=============================================================================*/
+#ifndef SPROUT_MATH_DETAIL_SCALE_HPP
+#define SPROUT_MATH_DETAIL_SCALE_HPP
+
+#include <sprout/config.hpp>
+#include <sprout/limits.hpp>
+#include <sprout/detail/pow.hpp>
+
+namespace sprout {
+	namespace math {
+		namespace detail {
+			//
+			// scale
+			//	x * radix ^ exp , rounded once
+			//
+			template<typename T, typename IntType>
+			inline SPROUT_CONSTEXPR T
+			scale(T x, T radix, IntType exp) {
+				return x == 0 || x == sprout::numeric_limits<T>::infinity() || x == -sprout::numeric_limits<T>::infinity() ? x
+					: exp > sprout::numeric_limits<T>::max_exponent - 1
+						? sprout::math::detail::scale(
+							x * sprout::detail::pow_n(radix, sprout::numeric_limits<T>::max_exponent - 1), radix,
+							exp - (sprout::numeric_limits<T>::max_exponent - 1)
+							)
+					: exp < sprout::numeric_limits<T>::min_exponent - 1
+						? sprout::math::detail::scale(
+							x * sprout::detail::pow_n(radix, sprout::numeric_limits<T>::min_exponent - 1 + sprout::numeric_limits<T>::digits), radix,
+							exp - (sprout::numeric_limits<T>::min_exponent - 1 + sprout::numeric_limits<T>::digits)
+							)
+					: x * sprout::detail::pow_n(radix, exp)
+					;
+			}
+		}	// namespace detail
+	}	// namespace math
+}	// namespace sprout
+
+#endif	// #ifndef SPROUT_MATH_DETAIL_SCALE_HPP
diff --git a/sprout/math/ldexp.hpp b/sprout/math/ldexp.hpp
index 44452b8..9e02dc0 100644
--- a/sprout/math/ldexp.hpp
+++ b/sprout/math/ldexp.hpp
@@ -11,7 +11,7 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
-#include <sprout/detail/pow.hpp>
+#include <sprout/math/detail/scale.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
 #include <sprout/math/isnan.hpp>
@@ -38,7 +38,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			ldexp_impl(T x, int exp) {
-				return x * sprout::detail::pow_n(T(2), exp);
+				return sprout::math::detail::scale(x, T(2), exp);
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/scalbln.hpp b/sprout/math/scalbln.hpp
index 78faa8a..f0c007b 100644
--- a/sprout/math/scalbln.hpp
+++ b/sprout/math/scalbln.hpp
@@ -11,7 +11,7 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
-#include <sprout/detail/pow.hpp>
+#include <sprout/math/detail/scale.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
 #include <sprout/math/isnan.hpp>
@@ -38,7 +38,7 @@ namespace sprout {
 			template<typename FloatType, typename T>
 			inline SPROUT_CONSTEXPR T
 			scalbln_impl(T x, long exp) {
-				return x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), exp);
+				return sprout::math::detail::scale(x, T(sprout::numeric_limits<FloatType>::radix), exp);
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/scalbn.hpp b/sprout/math/scalbn.hpp
index 51b5e65..913049f 100644
--- a/sprout/math/scalbn.hpp
+++ b/sprout/math/scalbn.hpp
@@ -11,7 +11,7 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
-#include <sprout/detail/pow.hpp>
+#include <sprout/math/detail/scale.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
 #include <sprout/math/isnan.hpp>
@@ -38,7 +38,7 @@ namespace sprout {
 			template<typename FloatType, typename T>
 			inline SPROUT_CONSTEXPR T
 			scalbn_impl(T x, int exp) {
-				return x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), exp);
+				return sprout::math::detail::scale(x, T(sprout::numeric_limits<FloatType>::radix), exp);
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From f5cb86a76766a5b2e965e14f34e4ffdcacf0f91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:24 +0000
Subject: [PATCH 187/277] fix: portable logb of very small numbers recursed
 without end

---
 sprout/math/logb.hpp | 74 +++++++-------------------------------------
 1 file changed, 12 insertions(+), 62 deletions(-)

diff --git a/sprout/math/logb.hpp b/sprout/math/logb.hpp
index 9459ea9..78d7309 100644
--- a/sprout/math/logb.hpp
+++ b/sprout/math/logb.hpp
@@ -42,77 +42,27 @@ namespace sprout {
 
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-			logb_impl_3_neg_lo(T x, T x0, T base, T exp) {
-				return base < 1 ? sprout::math::detail::logb_impl_3_neg_lo(
-						x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
-						)
-					: exp
+			logb_impl_hi(T x, int n, T exp) {
+				return n == 0 ? exp
+					: x < sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), n) ? sprout::math::detail::logb_impl_hi(x, n / 2, exp)
+					: sprout::math::detail::logb_impl_hi(x / sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), n), n, exp + n)
 					;
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-			logb_impl_3_neg_hi(T x, T x0, T base, T exp) {
-				return !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_neg_hi(
-						x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
-						)
-					: exp
+			logb_impl_lo(T x, int n, T exp) {
+				return !(x < 1) ? exp
+					: x * sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), n) < sprout::numeric_limits<T>::radix
+						? sprout::math::detail::logb_impl_lo(x * sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), n), n, exp - n)
+					: sprout::math::detail::logb_impl_lo(x, n / 2, exp)
 					;
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-			logb_impl_3_pos_lo(T x, T x0, T base, T exp) {
-				return base < 1 ? sprout::math::detail::logb_impl_3_pos_lo(
-						x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
-						)
-					: exp
-					;
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
-			logb_impl_3_pos_hi(T x, T x0, T base, T exp) {
-				return !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_pos_hi(
-						x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
-						)
-					: exp
-					;
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
-			logb_impl_3(T x, T x0, T base, T exp) {
-				return x < 1
-					? base < 1 ? sprout::math::detail::logb_impl_3_neg_lo(
-							x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
-							)
-						: !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_neg_hi(
-								x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
-								)
-						: exp
-					: base < 1 ? sprout::math::detail::logb_impl_3_pos_lo(
-							x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
-							)
-						: !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_pos_hi(
-								x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
-								)
-						: exp
-						;
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
-			logb_impl_2(T x, T x0, T exp) {
-				return sprout::math::detail::logb_impl_3(x, x0, x / x0, exp);
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
-			logb_impl_1(T x, T exp) {
-				return sprout::math::detail::logb_impl_2(
-					x, sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), sprout::math::itrunc<std::intmax_t>(exp)), exp
-					);
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
 			logb_impl(T x) {
-				return x < 0 ? sprout::math::detail::logb_impl_1(-x, sprout::math::trunc(sprout::math::log_a(T(sprout::numeric_limits<T>::radix), -x)))
-					: sprout::math::detail::logb_impl_1(x, sprout::math::trunc(sprout::math::log_a(T(sprout::numeric_limits<T>::radix), x)))
+				return x < 0 ? sprout::math::detail::logb_impl(-x)
+					: x < 1 ? sprout::math::detail::logb_impl_lo(x, sprout::numeric_limits<T>::max_exponent / 2, T(0))
+					: sprout::math::detail::logb_impl_hi(x, sprout::numeric_limits<T>::max_exponent / 2, T(0))
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From 8148e9bdae50a68f1373e0985f7b0af34a4324f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:24 +0000
Subject: [PATCH 188/277] fix: iround of an integer ignored the requested
 result type

---
 sprout/math/iround.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/iround.hpp b/sprout/math/iround.hpp
index bc24f97..ce131f4 100644
--- a/sprout/math/iround.hpp
+++ b/sprout/math/iround.hpp
@@ -92,7 +92,7 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR To
 		iround(IntType x) {
-			return sprout::math::iround(static_cast<double>(x));
+			return sprout::math::iround<To>(static_cast<double>(x));
 		}
 	}	// namespace math
 
-- 
2.43.0


From e5f26fb206c3d52763a810c7dc9f5aed65059727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:37 +0000
Subject: [PATCH 189/277] fix: rem_quo overflowed while accumulating a large
 quotient

---
 sprout/math/rem_quo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/rem_quo.hpp b/sprout/math/rem_quo.hpp
index 4b8126a..9e4ee1d 100644
--- a/sprout/math/rem_quo.hpp
+++ b/sprout/math/rem_quo.hpp
@@ -54,8 +54,8 @@ namespace sprout {
 			rem_quo_impl_5(T x, T y, int k, R iquo, T x1, T y1, T z, int iscy, int idiff, int i) {
 				return i != idiff
 					? z >= 0
-						? sprout::math::detail::rem_quo_impl_5(x, y, k, iquo + iquo + 2, z + z, y1, z + z - y1, iscy, idiff, i + 1)
-						: sprout::math::detail::rem_quo_impl_5(x, y, k, iquo + iquo, x1 + x1, y1, x1 + x1 - y1, iscy, idiff, i + 1)
+						? sprout::math::detail::rem_quo_impl_5(x, y, k, ((iquo + iquo) & 0x7) + 2, z + z, y1, z + z - y1, iscy, idiff, i + 1)
+						: sprout::math::detail::rem_quo_impl_5(x, y, k, (iquo + iquo) & 0x7, x1 + x1, y1, x1 + x1 - y1, iscy, idiff, i + 1)
 					: sprout::math::detail::rem_quo_impl_6(x, y, k, iquo, sprout::math::scalbn(x1, iscy))
 					;
 			}
-- 
2.43.0


From 2504b7be992888a0c00cb2e998f507294923f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:09 +0000
Subject: [PATCH 190/277] fix: static_pow2 computed every power in int

---
 sprout/integer/static_pow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/integer/static_pow.hpp b/sprout/integer/static_pow.hpp
index 9cb3ed7..7ffad6c 100644
--- a/sprout/integer/static_pow.hpp
+++ b/sprout/integer/static_pow.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	template<typename T, T X>
 	struct static_pow2
-		: public sprout::integral_constant<T, (1 << X)>
+		: public sprout::integral_constant<T, (T(1) << X)>
 	{};
 
 	namespace detail {
-- 
2.43.0


From 2d7cecc0c7229f495ffb2defb5873eb7267f7ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:09 +0000
Subject: [PATCH 191/277] fix: static_pow2m1 of zero was one

---
 sprout/integer/static_pow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/integer/static_pow.hpp b/sprout/integer/static_pow.hpp
index 7ffad6c..5bdfdce 100644
--- a/sprout/integer/static_pow.hpp
+++ b/sprout/integer/static_pow.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 		struct static_pow2m1;
 		template<typename T, T X>
 		struct static_pow2m1<T, X, true>
-			: public sprout::integral_constant<T, 1>
+			: public sprout::integral_constant<T, 0>
 		{};
 		template<typename T, T X>
 		struct static_pow2m1<T, X, false>
-- 
2.43.0


From f184ef061620fc1fe8b0abf6e9d3dd1138b2258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:38 +0000
Subject: [PATCH 192/277] fix: the 28th Bernoulli number was wrong

---
 sprout/math/bernoulli.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/math/bernoulli.hpp b/sprout/math/bernoulli.hpp
index fe908e5..48cd8e2 100644
--- a/sprout/math/bernoulli.hpp
+++ b/sprout/math/bernoulli.hpp
@@ -33,7 +33,7 @@ namespace sprout {
 				854513.F / 138, \
 				-236364091.F / 2730, \
 				8553103.F / 6, \
-				-236364091.F / 870, \
+				-23749461029.F / 870, \
 				8615841276005.F / 14322, \
 				-7709321041217.F / 510, \
 				2577687858367.F / 6, \
@@ -69,7 +69,7 @@ namespace sprout {
 				854513. / 138, \
 				-236364091. / 2730, \
 				8553103. / 6, \
-				-236364091. / 870, \
+				-23749461029. / 870, \
 				8615841276005. / 14322, \
 				-7709321041217. / 510, \
 				2577687858367. / 6, \
@@ -123,7 +123,7 @@ namespace sprout {
 				854513.L / 138, \
 				-236364091.L / 2730, \
 				8553103.L / 6, \
-				-236364091.L / 870, \
+				-23749461029.L / 870, \
 				8615841276005.L / 14322, \
 				-7709321041217.L / 510, \
 				2577687858367.L / 6, \
-- 
2.43.0


From efaad1a622a53c78dfbe8eb1c6664448026561d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:38 +0000
Subject: [PATCH 193/277] fix: gcd negated the smallest value of a signed type

---
 sprout/math/gcd.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sprout/math/gcd.hpp b/sprout/math/gcd.hpp
index 203c286..be0def2 100644
--- a/sprout/math/gcd.hpp
+++ b/sprout/math/gcd.hpp
@@ -12,7 +12,6 @@
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
 #include <sprout/array/array.hpp>
-#include <sprout/cstdlib/abs.hpp>
 #ifdef SPROUT_WORKAROUND_NOT_TERMINATE_RECURSIVE_CONSTEXPR_FUNCTION_TEMPLATE
 #	include <sprout/workaround/recursive_function_template.hpp>
 #endif
@@ -196,9 +195,8 @@ namespace sprout {
 			struct gcd_optimal_evaluator<St> { \
 			public: \
 				SPROUT_CONSTEXPR St operator()(St a, St b) const { \
-					using sprout::abs; \
 					return static_cast<St>(sprout::math::detail::gcd_optimal_evaluator<Ut>().operator()( \
-						static_cast<Ut>(abs(a)), static_cast<Ut>(abs(b)) \
+						static_cast<Ut>(a < 0 ? 0 - static_cast<Ut>(a) : a), static_cast<Ut>(b < 0 ? 0 - static_cast<Ut>(b) : b) \
 						)); \
 				} \
 			}
-- 
2.43.0


From 79997ef735424573c5e97de268992f658f2dd5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:04 +0000
Subject: [PATCH 194/277] fix: fixed::fft computed the inverse-signed transform

---
 sprout/numeric/fft/coefficients.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fft/coefficients.hpp b/sprout/numeric/fft/coefficients.hpp
index 7aaf90f..b4580ed 100644
--- a/sprout/numeric/fft/coefficients.hpp
+++ b/sprout/numeric/fft/coefficients.hpp
@@ -53,8 +53,8 @@ namespace sprout {
 			return make_fft_coefficients_impl(
 				make_fft_coefficients_loop<value_type, N - 1, Size>(inverse),
 				{ 
-					sprout::cos((inverse?-1:1)*sprout::math::two_pi<value_type>() / (1 << Size >> (N - 1))),
-					sprout::sin((inverse?-1:1)*sprout::math::two_pi<value_type>() / (1 << Size >> (N - 1)))
+					sprout::cos((inverse?1:-1)*sprout::math::two_pi<value_type>() / (1 << Size >> (N - 1))),
+					sprout::sin((inverse?1:-1)*sprout::math::two_pi<value_type>() / (1 << Size >> (N - 1)))
 				},
 				sprout::make_index_tuple<1 << (N - 1)>()
 				);
-- 
2.43.0


From d0d9cd2f1ae0585816cb140394d86b292bcdfa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:04 +0000
Subject: [PATCH 195/277] fix: phase_spectrum_value rounded its components to
 integers

---
 sprout/numeric/dft/phase_spectrum_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/numeric/dft/phase_spectrum_value.hpp b/sprout/numeric/dft/phase_spectrum_value.hpp
index 090586d..d1e156e 100644
--- a/sprout/numeric/dft/phase_spectrum_value.hpp
+++ b/sprout/numeric/dft/phase_spectrum_value.hpp
@@ -22,7 +22,7 @@ namespace sprout {
 	phase_spectrum_value(T const& x) {
 		using sprout::real;
 		using sprout::imag;
-		return sprout::atan2(sprout::llround(imag(x)), sprout::llround(real(x)));
+		return sprout::atan2(imag(x), real(x));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 0c6b3faf82c1011a0cf7db7e0e5a5cd3e7c28e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:01 +0000
Subject: [PATCH 196/277] fix: spectra and waves written into a window were
 shifted by its offset

---
 sprout/numeric/dft/fixed/amplitude_spectrum.hpp | 2 +-
 sprout/numeric/dft/fixed/phase_spectrum.hpp     | 2 +-
 sprout/numeric/dft/fixed/sawtooth.hpp           | 2 +-
 sprout/numeric/dft/fixed/sinusoid.hpp           | 2 +-
 sprout/numeric/dft/fixed/square.hpp             | 2 +-
 sprout/numeric/dft/fixed/triangle.hpp           | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/numeric/dft/fixed/amplitude_spectrum.hpp b/sprout/numeric/dft/fixed/amplitude_spectrum.hpp
index 8c33319..09995d0 100644
--- a/sprout/numeric/dft/fixed/amplitude_spectrum.hpp
+++ b/sprout/numeric/dft/fixed/amplitude_spectrum.hpp
@@ -41,7 +41,7 @@ namespace sprout {
 				return sprout::remake<Result>(
 					result, size,
 					(Indexes >= offset && sprout::math::less(Indexes, offset + size) && sprout::math::less(Indexes, offset + input_size)
-						? sprout::amplitude_spectrum_value(first[Indexes])
+						? sprout::amplitude_spectrum_value(first[Indexes - offset])
 						: *sprout::next(sprout::internal_begin(result), Indexes)
 						)...
 					);
diff --git a/sprout/numeric/dft/fixed/phase_spectrum.hpp b/sprout/numeric/dft/fixed/phase_spectrum.hpp
index e508db4..3466d0e 100644
--- a/sprout/numeric/dft/fixed/phase_spectrum.hpp
+++ b/sprout/numeric/dft/fixed/phase_spectrum.hpp
@@ -41,7 +41,7 @@ namespace sprout {
 				return sprout::remake<Result>(
 					result, size,
 					(Indexes >= offset && sprout::math::less(Indexes, offset + size) && sprout::math::less(Indexes, offset + input_size)
-						? sprout::phase_spectrum_value(first[Indexes])
+						? sprout::phase_spectrum_value(first[Indexes - offset])
 						: *sprout::next(sprout::internal_begin(result), Indexes)
 						)...
 					);
diff --git a/sprout/numeric/dft/fixed/sawtooth.hpp b/sprout/numeric/dft/fixed/sawtooth.hpp
index 5f1e661..008a605 100644
--- a/sprout/numeric/dft/fixed/sawtooth.hpp
+++ b/sprout/numeric/dft/fixed/sawtooth.hpp
@@ -36,7 +36,7 @@ namespace sprout {
 				return sprout::remake<Container>(
 					cont, size,
 					(Indexes >= offset && Indexes < offset + size
-						? sprout::detail::sawtooth_value(frequency, amplitude, phase, Indexes)
+						? sprout::detail::sawtooth_value(frequency, amplitude, phase, Indexes - offset)
 						: *sprout::next(sprout::internal_begin(cont), Indexes)
 						)...
 					);
diff --git a/sprout/numeric/dft/fixed/sinusoid.hpp b/sprout/numeric/dft/fixed/sinusoid.hpp
index de03dab..649b566 100644
--- a/sprout/numeric/dft/fixed/sinusoid.hpp
+++ b/sprout/numeric/dft/fixed/sinusoid.hpp
@@ -36,7 +36,7 @@ namespace sprout {
 				return sprout::remake<Container>(
 					cont, size,
 					(Indexes >= offset && Indexes < offset + size
-						? sprout::detail::sinusoid_value(amplitude, phase, d, Indexes)
+						? sprout::detail::sinusoid_value(amplitude, phase, d, Indexes - offset)
 						: *sprout::next(sprout::internal_begin(cont), Indexes)
 						)...
 					);
diff --git a/sprout/numeric/dft/fixed/square.hpp b/sprout/numeric/dft/fixed/square.hpp
index 9edb632..8424f9c 100644
--- a/sprout/numeric/dft/fixed/square.hpp
+++ b/sprout/numeric/dft/fixed/square.hpp
@@ -37,7 +37,7 @@ namespace sprout {
 				return sprout::remake<Container>(
 					cont, size,
 					(Indexes >= offset && Indexes < offset + size
-						? sprout::detail::square_value(frequency, amplitude, phase, duty, Indexes)
+						? sprout::detail::square_value(frequency, amplitude, phase, duty, Indexes - offset)
 						: *sprout::next(sprout::internal_begin(cont), Indexes)
 						)...
 					);
diff --git a/sprout/numeric/dft/fixed/triangle.hpp b/sprout/numeric/dft/fixed/triangle.hpp
index 1502de7..cd3ac60 100644
--- a/sprout/numeric/dft/fixed/triangle.hpp
+++ b/sprout/numeric/dft/fixed/triangle.hpp
@@ -36,7 +36,7 @@ namespace sprout {
 				return sprout::remake<Container>(
 					cont, size,
 					(Indexes >= offset && Indexes < offset + size
-						? sprout::detail::triangle_value(frequency, amplitude, phase, Indexes)
+						? sprout::detail::triangle_value(frequency, amplitude, phase, Indexes - offset)
 						: *sprout::next(sprout::internal_begin(cont), Indexes)
 						)...
 					);
-- 
2.43.0


From 1b13bd12106ff015ad275c80f985cb41669ac05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:01 +0000
Subject: [PATCH 197/277] fix: the iterator form of square did not compile

---
 sprout/numeric/dft/cxx14/square.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/dft/cxx14/square.hpp b/sprout/numeric/dft/cxx14/square.hpp
index dfa4257..ba469ce 100644
--- a/sprout/numeric/dft/cxx14/square.hpp
+++ b/sprout/numeric/dft/cxx14/square.hpp
@@ -23,13 +23,14 @@ namespace sprout {
 		ForwardIterator first, ForwardIterator last,
 		typename std::iterator_traits<ForwardIterator>::value_type const& frequency = 1,
 		typename std::iterator_traits<ForwardIterator>::value_type const& amplitude = 1,
-		typename std::iterator_traits<ForwardIterator>::value_type const& phase = 0
+		typename std::iterator_traits<ForwardIterator>::value_type const& phase = 0,
+		typename std::iterator_traits<ForwardIterator>::value_type const& duty = 0.5
 		)
 	{
 		typedef typename std::iterator_traits<ForwardIterator>::difference_type difference_type;
 		difference_type i = 0;
 		while (first != last) {
-			*first++ = sprout::detail::square_value(frequency, amplitude, phase, i);
+			*first++ = sprout::detail::square_value(frequency, amplitude, phase, duty, i);
 			++i;
 		}
 	}
-- 
2.43.0


From 0549c7840925fb256f65dbca94dda1d8df7179f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:02 +0000
Subject: [PATCH 198/277] fix: dft over forward iterators used the size of the
 result as the period

---
 sprout/numeric/dft/fixed/dft.hpp  | 8 +++++---
 sprout/numeric/dft/fixed/idft.hpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/sprout/numeric/dft/fixed/dft.hpp b/sprout/numeric/dft/fixed/dft.hpp
index 6c539f9..0b74b68 100644
--- a/sprout/numeric/dft/fixed/dft.hpp
+++ b/sprout/numeric/dft/fixed/dft.hpp
@@ -68,6 +68,7 @@ namespace sprout {
 			dft_impl(
 				ForwardIterator, ForwardIterator, Result const& result,
 				typename sprout::container_traits<Result>::size_type,
+				typename sprout::container_traits<Result>::size_type,
 				ForwardIterator, typename sprout::container_traits<Result>::difference_type,
 				Args const&... args
 				)
@@ -82,14 +83,15 @@ namespace sprout {
 			dft_impl(
 				ForwardIterator const& first, ForwardIterator const& last, Result const& result,
 				typename sprout::container_traits<Result>::size_type size,
+				typename sprout::container_traits<Result>::size_type input_size,
 				ForwardIterator const& first_, typename sprout::container_traits<Result>::difference_type i,
 				Args const&... args
 				)
 			{
 				return first != last && sizeof...(Args) < size
 					? sprout::fixed::detail::dft_impl(
-						sprout::next(first), last, result, size, first_, i + 1,
-						args..., sprout::detail::dft_element_impl(first_, last, i, size)
+						sprout::next(first), last, result, size, input_size, first_, i + 1,
+						args..., sprout::detail::dft_element_impl(first_, last, i, input_size)
 						)
 					: sprout::detail::container_complate(result, args...)
 					;
@@ -101,7 +103,7 @@ namespace sprout {
 				std::forward_iterator_tag*
 				)
 			{
-				return sprout::fixed::detail::dft_impl(first, last, result, sprout::size(result), first, 0);
+				return sprout::fixed::detail::dft_impl(first, last, result, sprout::size(result), sprout::distance(first, last), first, 0);
 			}
 
 			template<typename ForwardIterator, typename Result>
diff --git a/sprout/numeric/dft/fixed/idft.hpp b/sprout/numeric/dft/fixed/idft.hpp
index 0a4615d..6cac809 100644
--- a/sprout/numeric/dft/fixed/idft.hpp
+++ b/sprout/numeric/dft/fixed/idft.hpp
@@ -68,6 +68,7 @@ namespace sprout {
 			idft_impl(
 				ForwardIterator, ForwardIterator, Result const& result,
 				typename sprout::container_traits<Result>::size_type,
+				typename sprout::container_traits<Result>::size_type,
 				ForwardIterator, typename sprout::container_traits<Result>::difference_type,
 				Args const&... args
 				)
@@ -82,14 +83,15 @@ namespace sprout {
 			idft_impl(
 				ForwardIterator const& first, ForwardIterator const& last, Result const& result,
 				typename sprout::container_traits<Result>::size_type size,
+				typename sprout::container_traits<Result>::size_type input_size,
 				ForwardIterator const& first_, typename sprout::container_traits<Result>::difference_type i,
 				Args const&... args
 				)
 			{
 				return first != last && sizeof...(Args) < size
 					? sprout::fixed::detail::idft_impl(
-						sprout::next(first), last, result, size, first_, i + 1,
-						args..., sprout::detail::idft_element_impl(first_, last, i, size)
+						sprout::next(first), last, result, size, input_size, first_, i + 1,
+						args..., sprout::detail::idft_element_impl(first_, last, i, input_size)
 						)
 					: sprout::detail::container_complate(result, args...)
 					;
@@ -101,7 +103,7 @@ namespace sprout {
 				std::forward_iterator_tag*
 				)
 			{
-				return sprout::fixed::detail::idft_impl(first, last, result, sprout::size(result), first, 0);
+				return sprout::fixed::detail::idft_impl(first, last, result, sprout::size(result), sprout::distance(first, last), first, 0);
 			}
 
 			template<typename ForwardIterator, typename Result>
-- 
2.43.0


From 9972c9ac302674d9e1236d43daeecf0179a252cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:02 +0000
Subject: [PATCH 199/277] fix: fixed::ifft, fit::fft and fit::ifft did not
 compile

---
 sprout/numeric/fft/fixed/fft.hpp | 33 ++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/sprout/numeric/fft/fixed/fft.hpp b/sprout/numeric/fft/fixed/fft.hpp
index 4cfbf80..90174c0 100644
--- a/sprout/numeric/fft/fixed/fft.hpp
+++ b/sprout/numeric/fft/fixed/fft.hpp
@@ -8,9 +8,14 @@
 #ifndef SPROUT_NUMERIC_FFT_FIXED_FFT_HPP
 #define SPROUT_NUMERIC_FFT_FIXED_FFT_HPP
 
+#include <cstddef>
+#include <iterator>
 #include <sprout/config.hpp>
 #include <sprout/array.hpp>
 #include <sprout/index_tuple/make_index_tuple.hpp>
+#include <sprout/container/traits.hpp>
+#include <sprout/container/functions.hpp>
+#include <sprout/iterator/operation.hpp>
 #include <sprout/algorithm/fixed/results.hpp>
 #include <sprout/complex.hpp>
 #include <sprout/math/less.hpp>
@@ -82,6 +87,26 @@ namespace sprout {
 			make_input(Container const& cont) {
 				return make_input_impl(cont, sprout::make_index_tuple<Size>());
 			}
+			template<typename ForwardIterator, sprout::index_t... Indexes>
+			inline SPROUT_CONSTEXPR sprout::array<typename std::iterator_traits<ForwardIterator>::value_type, sizeof...(Indexes)>
+			make_input_range_impl(
+				ForwardIterator const& first,
+				typename std::iterator_traits<ForwardIterator>::difference_type size,
+				sprout::index_tuple<Indexes...>
+				)
+			{
+				return sprout::array<typename std::iterator_traits<ForwardIterator>::value_type, sizeof...(Indexes)> { {
+					(sprout::math::less(Indexes, size)
+						? *sprout::next(first, Indexes)
+						: static_cast<typename std::iterator_traits<ForwardIterator>::value_type>(0)
+						)...
+					} };
+			}
+			template<std::size_t Size, typename ForwardIterator>
+			inline SPROUT_CONSTEXPR sprout::array<typename std::iterator_traits<ForwardIterator>::value_type, Size>
+			make_input(ForwardIterator const& first, ForwardIterator const& last) {
+				return make_input_range_impl(first, sprout::distance(first, last), sprout::make_index_tuple<Size>());
+			}
 			template<typename value_type, std::size_t Size, typename Result, sprout::index_t... Indexes>
 			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 			make_fft_result_impl(sprout::array<sprout::complex<value_type>, Size> const& cont, Result const& result, sprout::index_tuple<Indexes...>) {
@@ -105,6 +130,14 @@ namespace sprout {
 			);
 		}
 
+		template<typename ForwardIterator, typename Result>
+		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+		fft(ForwardIterator first, ForwardIterator last, Result const& result) {
+			return sprout::fixed::detail::make_fft_result(
+				sprout::fixed::detail::fft(sprout::fixed::detail::make_input<sprout::container_traits<Result>::static_size>(first, last)), result
+			);
+		}
+
 		template<typename Result, typename Container>
 		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 		fft(Container const& cont) {
-- 
2.43.0


From e9f6d47447a2693775c93ae2c4e5f400dfcdae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:41 +0000
Subject: [PATCH 200/277] fix: dft_iterator and idft_iterator could not be
 moved or ordered

---
 sprout/iterator/dft_iterator.hpp  | 14 +++++++-------
 sprout/iterator/idft_iterator.hpp | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/sprout/iterator/dft_iterator.hpp b/sprout/iterator/dft_iterator.hpp
index 7f2b5d4..b2462b0 100644
--- a/sprout/iterator/dft_iterator.hpp
+++ b/sprout/iterator/dft_iterator.hpp
@@ -72,10 +72,10 @@ namespace sprout {
 			, size_(sprout::distance(first, last))
 		{}
 		SPROUT_CONSTEXPR dft_iterator next() const {
-			return dft_iterator(first_, last_, index_, index_ + 1, size_);
+			return dft_iterator(first_, last_, index_ + 1, size_);
 		}
 		SPROUT_CONSTEXPR dft_iterator prev() const {
-			return dft_iterator(first_, last_, index_, index_ - 1, size_);
+			return dft_iterator(first_, last_, index_ - 1, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(dft_iterator& other)
 		SPROUT_NOEXCEPT_IF(
@@ -112,18 +112,18 @@ namespace sprout {
 			return result;
 		}
 		SPROUT_CONSTEXPR dft_iterator operator+(difference_type n) const {
-			return dft_iterator(first_, last_, index_, index_ + n, size_);
+			return dft_iterator(first_, last_, index_ + n, size_);
 		}
 		SPROUT_CONSTEXPR dft_iterator operator-(difference_type n) const {
-			return dft_iterator(first_, last_, index_, index_ - n, size_);
+			return dft_iterator(first_, last_, index_ - n, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR dft_iterator& operator+=(difference_type n) {
-			dft_iterator temp(first_, last_, index_, index_ + n, size_);
+			dft_iterator temp(first_, last_, index_ + n, size_);
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR dft_iterator& operator-=(difference_type n) {
-			dft_iterator temp(first_, last_, index_, index_ - n, size_);
+			dft_iterator temp(first_, last_, index_ - n, size_);
 			temp.swap(*this);
 			return *this;
 		}
@@ -145,7 +145,7 @@ namespace sprout {
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::dft_iterator<Iterator> const& lhs, sprout::dft_iterator<Iterator> const& rhs) {
-		return lhs.index_ < rhs.index_;
+		return lhs.index() < rhs.index();
 	}
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR bool
diff --git a/sprout/iterator/idft_iterator.hpp b/sprout/iterator/idft_iterator.hpp
index 4a865a1..73a65e8 100644
--- a/sprout/iterator/idft_iterator.hpp
+++ b/sprout/iterator/idft_iterator.hpp
@@ -72,10 +72,10 @@ namespace sprout {
 			, size_(sprout::distance(first, last))
 		{}
 		SPROUT_CONSTEXPR idft_iterator next() const {
-			return idft_iterator(first_, last_, index_, index_ + 1, size_);
+			return idft_iterator(first_, last_, index_ + 1, size_);
 		}
 		SPROUT_CONSTEXPR idft_iterator prev() const {
-			return idft_iterator(first_, last_, index_, index_ - 1, size_);
+			return idft_iterator(first_, last_, index_ - 1, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(idft_iterator& other)
 		SPROUT_NOEXCEPT_IF(
@@ -112,18 +112,18 @@ namespace sprout {
 			return result;
 		}
 		SPROUT_CONSTEXPR idft_iterator operator+(difference_type n) const {
-			return idft_iterator(first_, last_, index_, index_ + n, size_);
+			return idft_iterator(first_, last_, index_ + n, size_);
 		}
 		SPROUT_CONSTEXPR idft_iterator operator-(difference_type n) const {
-			return idft_iterator(first_, last_, index_, index_ - n, size_);
+			return idft_iterator(first_, last_, index_ - n, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR idft_iterator& operator+=(difference_type n) {
-			idft_iterator temp(first_, last_, index_, index_ + n, size_);
+			idft_iterator temp(first_, last_, index_ + n, size_);
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR idft_iterator& operator-=(difference_type n) {
-			idft_iterator temp(first_, last_, index_, index_ - n, size_);
+			idft_iterator temp(first_, last_, index_ - n, size_);
 			temp.swap(*this);
 			return *this;
 		}
@@ -145,7 +145,7 @@ namespace sprout {
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::idft_iterator<Iterator> const& lhs, sprout::idft_iterator<Iterator> const& rhs) {
-		return lhs.index_ < rhs.index_;
+		return lhs.index() < rhs.index();
 	}
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From 58121739770bcedb1d573abc3fdca9d28bd0e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:41 +0000
Subject: [PATCH 201/277] fix: wave iterators could not be converted between
 value types

---
 sprout/iterator/sawtooth_iterator.hpp |  8 ++++----
 sprout/iterator/sinusoid_iterator.hpp | 10 +++++-----
 sprout/iterator/square_iterator.hpp   | 10 +++++-----
 sprout/iterator/triangle_iterator.hpp |  8 ++++----
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/sprout/iterator/sawtooth_iterator.hpp b/sprout/iterator/sawtooth_iterator.hpp
index c2a64ff..fc79511 100644
--- a/sprout/iterator/sawtooth_iterator.hpp
+++ b/sprout/iterator/sawtooth_iterator.hpp
@@ -73,10 +73,10 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR sawtooth_iterator(sawtooth_iterator<U> const& it)
-			: index_(it.index_)
-			, frequency_(it.frequency_)
-			, amplitude_(it.amplitude_)
-			, phase_(it.phase_)
+			: index_(it.index())
+			, frequency_(it.frequency())
+			, amplitude_(it.amplitude())
+			, phase_(it.phase())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR sawtooth_iterator& operator=(sawtooth_iterator<U> const& it) {
diff --git a/sprout/iterator/sinusoid_iterator.hpp b/sprout/iterator/sinusoid_iterator.hpp
index 4e25d3d..c6cfcc0 100644
--- a/sprout/iterator/sinusoid_iterator.hpp
+++ b/sprout/iterator/sinusoid_iterator.hpp
@@ -77,11 +77,11 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR sinusoid_iterator(sinusoid_iterator<U> const& it)
-			: index_(it.index_)
-			, frequency_(it.frequency_)
-			, amplitude_(it.amplitude_)
-			, phase_(it.phase_)
-			, d_(it.d_)
+			: index_(it.index())
+			, frequency_(it.frequency())
+			, amplitude_(it.amplitude())
+			, phase_(it.phase())
+			, d_(sprout::detail::sinusoid_value_d(frequency_))
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR sinusoid_iterator& operator=(sinusoid_iterator<U> const& it) {
diff --git a/sprout/iterator/square_iterator.hpp b/sprout/iterator/square_iterator.hpp
index ec4666f..f6b8d64 100644
--- a/sprout/iterator/square_iterator.hpp
+++ b/sprout/iterator/square_iterator.hpp
@@ -78,11 +78,11 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR square_iterator(square_iterator<U> const& it)
-			: index_(it.index_)
-			, frequency_(it.frequency_)
-			, amplitude_(it.amplitude_)
-			, phase_(it.phase_)
-			, duty_(it.duty_)
+			: index_(it.index())
+			, frequency_(it.frequency())
+			, amplitude_(it.amplitude())
+			, phase_(it.phase())
+			, duty_(it.duty())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR square_iterator& operator=(square_iterator<U> const& it) {
diff --git a/sprout/iterator/triangle_iterator.hpp b/sprout/iterator/triangle_iterator.hpp
index 3a5d2ca..78bf4ea 100644
--- a/sprout/iterator/triangle_iterator.hpp
+++ b/sprout/iterator/triangle_iterator.hpp
@@ -73,10 +73,10 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR triangle_iterator(triangle_iterator<U> const& it)
-			: index_(it.index_)
-			, frequency_(it.frequency_)
-			, amplitude_(it.amplitude_)
-			, phase_(it.phase_)
+			: index_(it.index())
+			, frequency_(it.frequency())
+			, amplitude_(it.amplitude())
+			, phase_(it.phase())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR triangle_iterator& operator=(triangle_iterator<U> const& it) {
-- 
2.43.0


From bcd0465e53c33cd3f4256add4511ef9798508b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 202/277] fix: the iterator form of triangle did not compile

---
 sprout/numeric/dft/cxx14/triangle.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sprout/numeric/dft/cxx14/triangle.hpp b/sprout/numeric/dft/cxx14/triangle.hpp
index acc795c..b26e9aa 100644
--- a/sprout/numeric/dft/cxx14/triangle.hpp
+++ b/sprout/numeric/dft/cxx14/triangle.hpp
@@ -23,14 +23,13 @@ namespace sprout {
 		ForwardIterator first, ForwardIterator last,
 		typename std::iterator_traits<ForwardIterator>::value_type const& frequency = 1,
 		typename std::iterator_traits<ForwardIterator>::value_type const& amplitude = 1,
-		typename std::iterator_traits<ForwardIterator>::value_type const& phase = 0,
-		typename std::iterator_traits<ForwardIterator>::value_type const& duty = 0.5
+		typename std::iterator_traits<ForwardIterator>::value_type const& phase = 0
 		)
 	{
 		typedef typename std::iterator_traits<ForwardIterator>::difference_type difference_type;
 		difference_type i = 0;
 		while (first != last) {
-			*first++ = sprout::detail::triangle_value(frequency, amplitude, phase, duty, i);
+			*first++ = sprout::detail::triangle_value(frequency, amplitude, phase, i);
 			++i;
 		}
 	}
-- 
2.43.0


From 128972d4f87bc2f37382e570b3965cf66ffd086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 203/277] fix: dft_iterator and idft_iterator could not be
 compared

---
 sprout/iterator/dft_iterator.hpp  | 3 +++
 sprout/iterator/idft_iterator.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sprout/iterator/dft_iterator.hpp b/sprout/iterator/dft_iterator.hpp
index b2462b0..e751079 100644
--- a/sprout/iterator/dft_iterator.hpp
+++ b/sprout/iterator/dft_iterator.hpp
@@ -71,6 +71,9 @@ namespace sprout {
 			: first_(first), last_(last), index_(index)
 			, size_(sprout::distance(first, last))
 		{}
+		SPROUT_CONSTEXPR difference_type index() const {
+			return index_;
+		}
 		SPROUT_CONSTEXPR dft_iterator next() const {
 			return dft_iterator(first_, last_, index_ + 1, size_);
 		}
diff --git a/sprout/iterator/idft_iterator.hpp b/sprout/iterator/idft_iterator.hpp
index 73a65e8..3e91382 100644
--- a/sprout/iterator/idft_iterator.hpp
+++ b/sprout/iterator/idft_iterator.hpp
@@ -71,6 +71,9 @@ namespace sprout {
 			: first_(first), last_(last), index_(index)
 			, size_(sprout::distance(first, last))
 		{}
+		SPROUT_CONSTEXPR difference_type index() const {
+			return index_;
+		}
 		SPROUT_CONSTEXPR idft_iterator next() const {
 			return idft_iterator(first_, last_, index_ + 1, size_);
 		}
-- 
2.43.0


From 933122f6b93ce149ad8f4a9da180543b6eaadde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:09 +0000
Subject: [PATCH 204/277] fix: triangle waves of long double had the precision
 of double

---
 sprout/numeric/dft/detail/triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/numeric/dft/detail/triangle.hpp b/sprout/numeric/dft/detail/triangle.hpp
index dc74484..95586d5 100644
--- a/sprout/numeric/dft/detail/triangle.hpp
+++ b/sprout/numeric/dft/detail/triangle.hpp
@@ -18,7 +18,7 @@ namespace sprout {
 		template<typename T>
 		inline SPROUT_CONSTEXPR T
 		triangle_value_impl(T const& t) {
-			typedef double elem_type;
+			typedef T elem_type;
 			using sprout::sin;
 			using sprout::asin;
 			return T(sprout::math::two_div_pi<elem_type>()) * asin(sin(T(sprout::math::two_pi<elem_type>()) * t));
-- 
2.43.0


From 7dff2033dbf4a780bedfec5bb6ee884b86941d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 205/277] fix: the portable exp was wrong for large arguments

---
 sprout/math/exp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sprout/math/exp.hpp b/sprout/math/exp.hpp
index 1b27a77..de91011 100644
--- a/sprout/math/exp.hpp
+++ b/sprout/math/exp.hpp
@@ -49,7 +49,10 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			exp_impl(T x) {
-				return !(x > -1) ? T(1) / (T(1) + sprout::math::detail::exp_impl_1(-x, 1, sprout::math::factorial_limit<T>() / 2 + 1))
+				return x > sprout::numeric_limits<T>::max_exponent ? sprout::numeric_limits<T>::infinity()
+					: x < -2 * sprout::numeric_limits<T>::max_exponent ? T(0)
+					: x > 8 || x < -8 ? sprout::detail::pow2(sprout::math::detail::exp_impl(x / 2))
+					: !(x > -1) ? T(1) / (T(1) + sprout::math::detail::exp_impl_1(-x, 1, sprout::math::factorial_limit<T>() / 2 + 1))
 					: T(1) + sprout::math::detail::exp_impl_1(x, 1, sprout::math::factorial_limit<T>() / 2 + 1)
 					;
 			}
-- 
2.43.0


From cd02b4ffe77f803da3e52b981d1f3cfb3fee664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 206/277] fix: the portable tanh divided infinities for large
 arguments

---
 sprout/math/tanh.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sprout/math/tanh.hpp b/sprout/math/tanh.hpp
index a4f6121..8f88b78 100644
--- a/sprout/math/tanh.hpp
+++ b/sprout/math/tanh.hpp
@@ -48,7 +48,10 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			tanh_impl(T x) {
-				return sprout::math::detail::tanh_impl_1(sprout::math::exp(x));
+				return x > sprout::numeric_limits<T>::digits ? T(1)
+					: x < -sprout::numeric_limits<T>::digits ? T(-1)
+					: sprout::math::detail::tanh_impl_1(sprout::math::exp(x))
+					;
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From 19f2b7b9823cd92cf2a42f9d9262733909a2f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 207/277] fix: the portable asinh and acosh cancelled or
 overflowed for large arguments

---
 sprout/math/acosh.hpp | 5 ++++-
 sprout/math/asinh.hpp | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/sprout/math/acosh.hpp b/sprout/math/acosh.hpp
index f369f03..c4abb60 100644
--- a/sprout/math/acosh.hpp
+++ b/sprout/math/acosh.hpp
@@ -14,6 +14,7 @@
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
 #include <sprout/math/isnan.hpp>
+#include <sprout/math/constants.hpp>
 #include <sprout/math/log.hpp>
 #include <sprout/math/sqrt.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
@@ -39,7 +40,9 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			acosh_impl(T x) {
-				return sprout::math::log(x + sprout::math::sqrt(x * x - 1));
+				return x * sprout::numeric_limits<T>::epsilon() > 1 ? sprout::math::log(x) + sprout::math::ln_two<T>()
+					: sprout::math::log(x + sprout::math::sqrt(x * x - 1))
+					;
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/asinh.hpp b/sprout/math/asinh.hpp
index 1a5f4fb..8a26312 100644
--- a/sprout/math/asinh.hpp
+++ b/sprout/math/asinh.hpp
@@ -14,6 +14,7 @@
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
 #include <sprout/math/isnan.hpp>
+#include <sprout/math/constants.hpp>
 #include <sprout/math/log.hpp>
 #include <sprout/math/sqrt.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
@@ -39,7 +40,10 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			asinh_impl(T x) {
-				return sprout::math::log(x + sprout::math::sqrt(x * x + 1));
+				return x < 0 ? -sprout::math::detail::asinh_impl(-x)
+					: x * sprout::numeric_limits<T>::epsilon() > 1 ? sprout::math::log(x) + sprout::math::ln_two<T>()
+					: sprout::math::log(x + sprout::math::sqrt(x * x + 1))
+					;
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From 35d698c5e90ca4e1b2dccd93cf031872976c590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:20 +0000
Subject: [PATCH 208/277] fix: the portable log recursed without end for
 subnormal arguments

---
 sprout/math/log.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/math/log.hpp b/sprout/math/log.hpp
index b4baf31..c676e5d 100644
--- a/sprout/math/log.hpp
+++ b/sprout/math/log.hpp
@@ -59,7 +59,8 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			log_impl(T x) {
-				return x < 1 ? -sprout::math::detail::log_impl_1(T(1) / x)
+				return x < sprout::numeric_limits<T>::min() * 4 ? T(2) * sprout::math::detail::log_impl(sprout::math::sqrt(x))
+					: x < 1 ? -sprout::math::detail::log_impl_1(T(1) / x)
 					: sprout::math::detail::log_impl_1(x)
 					;
 			}
-- 
2.43.0


From 8adf6e7b1af82ce91259f8a6096d9127db6ebf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:46 +0000
Subject: [PATCH 209/277] fix: lgamma was infinite for tiny negative arguments

---
 sprout/math/lgamma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/lgamma.hpp b/sprout/math/lgamma.hpp
index fdaa6d1..0b0c2f6 100644
--- a/sprout/math/lgamma.hpp
+++ b/sprout/math/lgamma.hpp
@@ -44,7 +44,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			lgamma_impl_3(T x, T y) {
-				return x < 0 ? sprout::math::log(sprout::math::pi<T>() / sprout::math::fabs(x * sprout::math::sin(x * sprout::math::pi<T>()))) - y
+				return x < 0 ? sprout::math::log(sprout::math::pi<T>()) - sprout::math::log(sprout::math::fabs(sprout::math::sin(x * sprout::math::pi<T>()))) - sprout::math::log(sprout::math::fabs(x)) - y
 					: y
 					;
 			}
-- 
2.43.0


From ad9652506d0f0908940689bd52d504866db01bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:30 +0000
Subject: [PATCH 210/277] fix: lgamma chose the wrong polynomial for arguments
 from 0.5 to 2

---
 sprout/math/lgamma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/lgamma.hpp b/sprout/math/lgamma.hpp
index 0b0c2f6..217ab87 100644
--- a/sprout/math/lgamma.hpp
+++ b/sprout/math/lgamma.hpp
@@ -162,7 +162,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			lgamma_impl_2_b(T x, T t) {
-				return sprout::math::detail::lgamma_impl_2_b_1(x, t, sprout::math::itrunc(t) + 4);
+				return sprout::math::detail::lgamma_impl_2_b_1(x, t, sprout::math::itrunc(t + T(4)));
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-- 
2.43.0


From ed427710d6f6598affb91b57ff33b623e8d49d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:28 +0000
Subject: [PATCH 211/277] fix: copying a mutable random engine chose the
 constructor from a seed sequence

---
 sprout/random/type_traits.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/sprout/random/type_traits.hpp b/sprout/random/type_traits.hpp
index 5fe39c0..bdeab83 100644
--- a/sprout/random/type_traits.hpp
+++ b/sprout/random/type_traits.hpp
@@ -9,6 +9,7 @@
 #define SPROUT_RANDOM_TYPE_TRAITS_HPP
 
 #include <type_traits>
+#include <utility>
 #include <sprout/config.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
 #include <sprout/type_traits/has_xxx.hpp>
@@ -18,7 +19,29 @@ namespace sprout {
 		//
 		// is_seed_seq
 		//
-		SPROUT_HAS_XXX_TYPE_DEF(is_seed_seq, result_type);
+		namespace detail {
+			SPROUT_HAS_XXX_TYPE_DEF(has_seed_result, result_type);
+
+			struct is_generator_test {
+			public:
+				template<typename T, typename = decltype(std::declval<T&>()())>
+				static sprout::true_type test(int);
+				template<typename>
+				static sprout::false_type test(...);
+			};
+			template<typename T, bool C = sprout::random::detail::has_seed_result<T>::value>
+			struct is_seed_seq_impl
+				: public sprout::false_type
+			{};
+			template<typename T>
+			struct is_seed_seq_impl<T, true>
+				: public sprout::bool_constant<!decltype(sprout::random::detail::is_generator_test::test<T>(0))::value>
+			{};
+		}	// namespace detail
+		template<typename T>
+		struct is_seed_seq
+			: public sprout::random::detail::is_seed_seq_impl<T>
+		{};
 
 		//
 		// is_real_std_random_parameter
-- 
2.43.0


From 406675d145b402fa2fb59437427c6195a4e6df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:28 +0000
Subject: [PATCH 212/277] fix: engines could not be seeded from constant
 sequences or iterators, nor have the modulus of the word

---
 sprout/random/detail/const_mod.hpp | 3 ---
 sprout/random/detail/seed_impl.hpp | 8 ++++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/sprout/random/detail/const_mod.hpp b/sprout/random/detail/const_mod.hpp
index 0e92781..2d055e8 100644
--- a/sprout/random/detail/const_mod.hpp
+++ b/sprout/random/detail/const_mod.hpp
@@ -27,9 +27,6 @@ namespace sprout {
 			private:
 				SPROUT_STATIC_CONSTEXPR IntType supress_warnings = m == 0;
 				SPROUT_STATIC_CONSTEXPR IntType modulus = m + supress_warnings;
-			private:
-				static_assert(supress_warnings == 0, "supress_warnings == 0");
-				static_assert(modulus == m, "modulus == m");
 			private:
 				static SPROUT_CONSTEXPR IntType pow_1(IntType a, std::uintmax_t exponent, IntType result = 1) {
 					return exponent != 0
diff --git a/sprout/random/detail/seed_impl.hpp b/sprout/random/detail/seed_impl.hpp
index 03c93e2..81c4c14 100644
--- a/sprout/random/detail/seed_impl.hpp
+++ b/sprout/random/detail/seed_impl.hpp
@@ -28,7 +28,7 @@ namespace sprout {
 				: public std::conditional<
 					m == 0,
 					sprout::integral_constant<int, sprout::numeric_limits<IntType>::digits>,
-					sprout::integral_constant<int, sprout::detail::static_log2<m>::value>
+					sprout::integral_constant<int, sprout::detail::static_log2<m == 0 ? 1 : m>::value>
 				>::type
 			{};
 			template<typename IntType, IntType m, int log>
@@ -39,7 +39,7 @@ namespace sprout {
 				>
 			{};
 
-			template<typename IntType, IntType m, int log, int k, typename Array>
+			template<typename IntType, IntType m, int k, typename Array>
 			inline SPROUT_CONSTEXPR IntType
 			seed_one_int_impl(Array const& arr, IntType s, int j) {
 				return j < k ? sprout::random::detail::seed_one_int_impl<IntType, m, k>(
@@ -60,7 +60,7 @@ namespace sprout {
 				typedef typename sprout::random::detail::seed_log<IntType, m>::type log_t;
 				typedef typename sprout::random::detail::seed_k<IntType, m, log_t::value>::type k_t;
 				return sprout::random::detail::seed_one_int_impl<IntType, m, k_t::value>(
-					seq.generate(sprout::pit<sprout::array<std::uint_least32_t, log_t::value / 32 + 4> >()),
+					seq.generate(sprout::pit<sprout::array<std::uint_least32_t, k_t::value + 3> >()),
 					0, 0
 					);
 			}
@@ -80,7 +80,7 @@ namespace sprout {
 				return s;
 			}
 
-			template<typename IntType, IntType m, int log, int k, typename InputIterator>
+			template<typename IntType, IntType m, int k, typename InputIterator>
 			inline SPROUT_CONSTEXPR IntType
 			get_one_int_impl(InputIterator first, InputIterator last, IntType s, int j) {
 				return j < k
-- 
2.43.0


From c942765abcb63ef483211d011e2609f668ebb1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:28 +0000
Subject: [PATCH 213/277] fix: the C++11 mersenne_twister_engine shifted the
 wrong bits

---
 sprout/random/mersenne_twister.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 91ad483..a56f81a 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -299,7 +299,7 @@ namespace sprout {
 			SPROUT_CONSTEXPR mersenne_twister_engine twist_5(Args const&... args) const {
 				return mersenne_twister_engine(
 					sprout::array<result_type, n>{{
-						args..., x_[m - 1] ^ ((x_[n - 1] & upper_mask) | (x_[0] & lower_mask) >> 1) ^ ((x_[0] & 1) * a)
+						args..., x_[m - 1] ^ (((x_[n - 1] & upper_mask) | (x_[0] & lower_mask)) >> 1) ^ ((x_[0] & 1) * a)
 						}},
 					0,
 					private_construct_t()
@@ -318,7 +318,7 @@ namespace sprout {
 				mersenne_twister_engine
 			>::type twist_4(std::size_t i, Args const&... args) const {
 				return twist_4(
-					i + 1, args..., x_[i - (n - m)] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
+					i + 1, args..., x_[i - (n - m)] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
 					);
 			}
 			template<typename... Args>
@@ -334,7 +334,7 @@ namespace sprout {
 				mersenne_twister_engine
 			>::type twist_3(std::size_t i, Args const&... args) const {
 				return twist_3(
-					i + 1, args..., x_[i - (n - m)] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
+					i + 1, args..., x_[i - (n - m)] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
 					);
 			}
 			template<typename... Args>
@@ -350,7 +350,7 @@ namespace sprout {
 				mersenne_twister_engine
 			>::type twist_2(std::size_t i, Args const&... args) const {
 				return twist_2(
-					i + 1, args..., x_[i + m] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
+					i + 1, args..., x_[i + m] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
 					);
 			}
 			template<typename... Args>
@@ -366,7 +366,7 @@ namespace sprout {
 				mersenne_twister_engine
 			>::type twist_1(std::size_t i, Args const&... args) const {
 				return twist_1(
-					i + 1, args..., x_[i + m] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
+					i + 1, args..., x_[i + m] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
 					);
 			}
 			SPROUT_CONSTEXPR mersenne_twister_engine twist() const {
-- 
2.43.0


From 539af9a692a0517c4407dcab6c56e7a609756dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:28 +0000
Subject: [PATCH 214/277] fix: mersenne_twister_engine wrote a wrong state and
 compared wrongly in C++11

---
 sprout/random/mersenne_twister.hpp | 164 ++---------------------------
 1 file changed, 9 insertions(+), 155 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index a56f81a..affa6fc 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -102,173 +102,27 @@ namespace sprout {
 			rewind_find(result_type const* last, std::size_t size, std::size_t i) const {
 				return rewind_find_1(last, size, (i + n - size + n - 1) % n);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish_1(sprout::array<result_type, n> const&, Args const&... args) const {
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish_1(sprout::array<result_type, n> const& data, Args const&... args) const {
-				return rewind_finish_1(data, args..., data[sizeof...(args)]);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return &data[0] + i == last - z
-					? rewind_finish_1(data, data[i], args...)
-					: rewind_finish(data, last, z, i + 1, data[i], args...)
-					;
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_4(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, result_type, result_type, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_4(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0, result_type y1, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return rewind_2(
-					data, last, z, y1, i, (y0 & upper_mask) | (y1 & lower_mask),
-					args...
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_3(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, result_type, result_type, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_3(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0, result_type y1, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return rewind_4(
-					data, last, z, y0,
-					y1 & (static_cast<result_type>(1) << (w - 1))
-						? ((y1 ^ a) << 1) | 1
-						: y1 << 1
-						,
-					i,
-					args...
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_2(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, result_type, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_2(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return i < z
-					? rewind_3(data, last, z, y0, rewind_find(last, i, m - 1) ^ rewind_find(last, i, n - 1), i, args...)
-					: rewind_finish(data, last, z, 0, args...)
-					;
-			}
-			SPROUT_CONSTEXPR sprout::array<result_type, n>
-			rewind_1(sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0) const {
-				return rewind_2(
-					data,
-					last,
-					z,
-					y0 & (static_cast<result_type>(1) << (w - 1))
-						? ((y0 ^ a) << 1) | 1
-						: y0 << 1
-						,
-					0
-					);
-			}
-			SPROUT_CONSTEXPR sprout::array<result_type, n>
-			rewind(sprout::array<result_type, n> const& data, result_type const* last, std::size_t z) const {
-				return rewind_1(data, last, z, x_[m - 1] ^ x_[n - 1]);
-			}
 			SPROUT_CONSTEXPR bool
-			equal_impl_2(mersenne_twister_engine const& other, sprout::array<result_type, n> const& back, std::size_t offset, std::size_t i = 0) const {
+			equal_impl_2(mersenne_twister_engine const& twisted, std::size_t offset, std::size_t i = 0) const {
 				return i < offset
-					? back[i + n - offset] != other.x_[i]
+					? x_[i + n - offset] != twisted.x_[i]
 						? false
-						: equal_impl_2(other, back, offset, i + 1)
+						: equal_impl_2(twisted, offset, i + 1)
 					: true
 					;
 			}
 			SPROUT_CONSTEXPR bool
-			equal_impl_1(mersenne_twister_engine const& other, sprout::array<result_type, n> const& back, std::size_t offset, std::size_t i = 0) const {
+			equal_impl_1(mersenne_twister_engine const& other, std::size_t offset, std::size_t i = 0) const {
 				return i + offset < n
 					? x_[i] != other.x_[i + offset]
 						? false
-						: equal_impl_1(other, back, offset, i + 1)
-					: equal_impl_2(other, rewind(back, &back[n - 1], offset), offset)
+						: equal_impl_1(other, offset, i + 1)
+					: offset == 0 || equal_impl_2(other.twist(), offset)
 					;
 			}
 			SPROUT_CONSTEXPR bool
 			equal_impl(mersenne_twister_engine const& other) const {
-				return equal_impl_1(other, sprout::array<result_type, n>(), other.i_ - i_);
+				return equal_impl_1(other, other.i_ - i_);
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_4(result_type z) const {
 				return z ^ (z >> l);
@@ -522,10 +376,10 @@ namespace sprout {
 					data[i + n - rhs.i_] = rhs.x_[i];
 				}
 				if (rhs.i_ != n) {
-					data = rhs.rewind(data, &data[n - rhs.i_ - 1], n - rhs.i_);
+					rhs.do_rewind(&data[n - rhs.i_ - 1], n - rhs.i_);
 				}
 				lhs << data[0];
-				for (std::size_t i = 0; i < rhs.i_; ++i) {
+				for (std::size_t i = 1; i < n; ++i) {
 					lhs << ' ' << data[i];
 				}
 				return lhs;
-- 
2.43.0


From f95803cb0299901c984e66eb160f50db5355de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:29 +0000
Subject: [PATCH 215/277] fix: the static range of additive_combine_engine was
 private

---
 sprout/random/additive_combine.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/additive_combine.hpp b/sprout/random/additive_combine.hpp
index 3f39309..594b439 100644
--- a/sprout/random/additive_combine.hpp
+++ b/sprout/random/additive_combine.hpp
@@ -31,14 +31,14 @@ namespace sprout {
 			typedef base1_type first_base;
 			typedef base2_type second_base;
 			typedef typename base1_type::result_type result_type;
-		private:
+		public:
 			static SPROUT_CONSTEXPR result_type static_min() SPROUT_NOEXCEPT {
 				return 1;
 			}
 			static SPROUT_CONSTEXPR result_type static_max() SPROUT_NOEXCEPT {
 				return base1_type::modulus - 1;
 			}
-		public:
+		private:
 			struct private_construct_t {};
 		private:
 			base1_type mlcg1_;
-- 
2.43.0


From 9d1a63f860119b6307139dfd5722b8b55ea2f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:29 +0000
Subject: [PATCH 216/277] fix: variate_generator of a mutable engine swapped
 the engine and the distribution

---
 sprout/random/variate_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/variate_generator.hpp b/sprout/random/variate_generator.hpp
index 403a78e..0f3fd8f 100644
--- a/sprout/random/variate_generator.hpp
+++ b/sprout/random/variate_generator.hpp
@@ -48,7 +48,7 @@ namespace sprout {
 			>::type random_result_type;
 		private:
 			static SPROUT_CONSTEXPR random_result_type call(variate_generator const& g, sprout::true_type) {
-				return random_result_type(g.distribution_(g.engine_), g.distribution_, g.engine_);
+				return random_result_type(g.distribution_(g.engine_), g.engine_, g.distribution_);
 			}
 			static SPROUT_CONSTEXPR random_result_type call(variate_generator const& g, sprout::false_type) {
 				return g.distribution_(sprout::as_const(g.engine_));
-- 
2.43.0


From 5da9b4e82274cb9a8b4e5b843bb21f9b08aabd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:27 +0000
Subject: [PATCH 217/277] fix: rand48 cut the state to 32 bits before taking
 its high bits

---
 sprout/random/linear_congruential.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/linear_congruential.hpp b/sprout/random/linear_congruential.hpp
index cde06c9..85c8ce8 100644
--- a/sprout/random/linear_congruential.hpp
+++ b/sprout/random/linear_congruential.hpp
@@ -325,7 +325,7 @@ namespace sprout {
 			template<typename EngineResult>
 			SPROUT_CONSTEXPR sprout::random::random_result<rand48> generate(EngineResult const& rnd) const {
 				return sprout::random::random_result<rand48>(
-					static_cast<result_type>(sprout::random::result(rnd)) >> 17,
+					static_cast<result_type>(sprout::random::result(rnd) >> 17),
 					rand48(sprout::random::next(rnd), private_construct_t())
 					);
 			}
@@ -343,7 +343,7 @@ namespace sprout {
 				return static_max();
 			}
 			SPROUT_CXX14_CONSTEXPR result_type operator()() {
-				return static_cast<result_type>(static_cast<result_type>(lcf_()) >> 17);
+				return static_cast<result_type>(lcf_() >> 17);
 			}
 			SPROUT_CONSTEXPR sprout::random::random_result<rand48> const operator()() const {
 				return generate(lcf_());
-- 
2.43.0


From 56fc3547deb1f9e3a163c944092fec59fa0ccf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:27 +0000
Subject: [PATCH 218/277] fix: masks narrower than int shifted a negative value

---
 sprout/detail/integer/integer_mask.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/detail/integer/integer_mask.hpp b/sprout/detail/integer/integer_mask.hpp
index 3950bd4..1182703 100644
--- a/sprout/detail/integer/integer_mask.hpp
+++ b/sprout/detail/integer/integer_mask.hpp
@@ -9,6 +9,7 @@
 #define SPROUT_DETAIL_INTEGER_INTEGER_MASK_HPP
 
 #include <climits>
+#include <cstdint>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/limits.hpp>
@@ -33,7 +34,7 @@ namespace sprout {
 			typedef typename sprout::detail::uint_t<Bits>::least least;
 			typedef typename sprout::detail::uint_t<Bits>::fast fast;
 		public:
-			SPROUT_STATIC_CONSTEXPR least sig_bits = ~(~(least(0u)) << Bits);
+			SPROUT_STATIC_CONSTEXPR least sig_bits = static_cast<least>(~(~static_cast<std::uintmax_t>(0u) << Bits));
 			SPROUT_STATIC_CONSTEXPR fast sig_bits_fast = fast(sig_bits);
 			SPROUT_STATIC_CONSTEXPR std::size_t bit_count = Bits;
 		};
-- 
2.43.0


From 014b74a45908abdcc541303e381285fdc71a2e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:27 +0000
Subject: [PATCH 219/277] fix: iterators over random results held constants,
 which could not be advanced

---
 sprout/random/iterator.hpp | 24 ++++++++++++------------
 sprout/random/range.hpp    | 12 ++++++------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/sprout/random/iterator.hpp b/sprout/random/iterator.hpp
index 262927b..896c774 100644
--- a/sprout/random/iterator.hpp
+++ b/sprout/random/iterator.hpp
@@ -25,26 +25,26 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		begin(
 			Engine const& engine, Distribution const& distribution,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>::difference_type count = -1
 			)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>
 		{
 			return count >= 0
-				? sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>(distribution(engine), count)
-				: sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>(distribution(engine))
+				? sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>(distribution(engine), count)
+				: sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>(distribution(engine))
 				;
 		}
 		template<typename Engine>
 		inline SPROUT_CONSTEXPR auto
 		begin(
 			Engine const& engine,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(engine())>::type>
 		{
 			return count >= 0
-				? sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>(engine(), count)
-				: sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>(engine())
+				? sprout::generator_iterator<typename std::decay<decltype(engine())>::type>(engine(), count)
+				: sprout::generator_iterator<typename std::decay<decltype(engine())>::type>(engine())
 				;
 		}
 
@@ -57,16 +57,16 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR auto
 		end(Engine const& engine, Distribution const& distribution)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>
 		{
-			return sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>();
+			return sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>();
 		}
 		template<typename Engine>
 		inline SPROUT_CONSTEXPR auto
 		end(Engine const& engine)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(engine())>::type>
 		{
-			return sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>();
+			return sprout::generator_iterator<typename std::decay<decltype(engine())>::type>();
 		}
 	}	// namespace random
 }	// namespace sprout
diff --git a/sprout/random/range.hpp b/sprout/random/range.hpp
index ed96050..03d914d 100644
--- a/sprout/random/range.hpp
+++ b/sprout/random/range.hpp
@@ -27,11 +27,11 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		make_range(
 			Engine const& engine, Distribution const& distribution,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type> >(
 				sprout::random::begin(engine, distribution, count),
 				sprout::random::end(engine, distribution)
 				);
@@ -40,11 +40,11 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		make_range(
 			Engine const& engine,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(engine())>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(engine())>::type> >(
 				sprout::random::begin(engine, count),
 				sprout::random::end(engine)
 				);
-- 
2.43.0


From ba86c68b3bfdb90acd657b7788adf8da090b0009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:38 +0000
Subject: [PATCH 220/277] fix: reading a mersenne_twister_engine failed at the
 end of the text

---
 sprout/random/mersenne_twister.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index affa6fc..cb4610e 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -360,7 +360,7 @@ namespace sprout {
 				)
 			{
 				for (std::size_t i = 0; i < state_size; ++i) {
-					lhs >> rhs.x_[i] >> std::ws;
+					lhs >> std::ws >> rhs.x_[i];
 				}
 				rhs.i_ = state_size;
 				return lhs;
-- 
2.43.0


From 6e3d4826d0bf38fbeed7fe69425fb00542279bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:06 +0000
Subject: [PATCH 221/277] fix: linear_feedback_shift_engine left its word in a
 wider type

---
 sprout/random/linear_feedback_shift.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/linear_feedback_shift.hpp b/sprout/random/linear_feedback_shift.hpp
index 13320e5..772ca5e 100644
--- a/sprout/random/linear_feedback_shift.hpp
+++ b/sprout/random/linear_feedback_shift.hpp
@@ -123,11 +123,11 @@ namespace sprout {
 				return static_max();
 			}
 			SPROUT_CXX14_CONSTEXPR result_type operator()() {
-				 x_ = ((x_ & ((wordmask() << (w - k)) & wordmask())) << s) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s));
+				 x_ = (((x_ & (wordmask() << (w - k))) << s) & wordmask()) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s));
 				 return x_;
 			}
 			SPROUT_CONSTEXPR sprout::random::random_result<linear_feedback_shift_engine> const operator()() const {
-				return generate(((x_ & ((wordmask() << (w - k)) & wordmask())) << s) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s)));
+				return generate((((x_ & (wordmask() << (w - k))) << s) & wordmask()) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s)));
 			}
 			friend SPROUT_CONSTEXPR bool operator==(linear_feedback_shift_engine const& lhs, linear_feedback_shift_engine const& rhs) SPROUT_NOEXCEPT {
 				return lhs.x_ == rhs.x_;
-- 
2.43.0


From c15bb7046f4bc9bf7e739aa6195057c29e1d61a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:10 +0000
Subject: [PATCH 222/277] fix: discarding from a linear_congruential_engine
 went wrong when a factor of the modulus divided multiplier - 1 too often

---
 sprout/random/linear_congruential.hpp | 111 +++-----------------------
 1 file changed, 9 insertions(+), 102 deletions(-)

diff --git a/sprout/random/linear_congruential.hpp b/sprout/random/linear_congruential.hpp
index 85c8ce8..fc01fca 100644
--- a/sprout/random/linear_congruential.hpp
+++ b/sprout/random/linear_congruential.hpp
@@ -87,79 +87,17 @@ namespace sprout {
 					linear_congruential_engine(result, private_construct_t())
 					);
 			}
-			struct discard_init {
-			public:
-				unsigned long long exponent;
-				result_type b_gcd;
-				result_type a_zm1_over_gcd;
-				result_type a_km1_over_gcd;
-			};
-			struct discard_pred {
-			public:
-				SPROUT_CONSTEXPR bool operator()(discard_init const& init) const {
-					return static_cast<bool>(init.exponent);
-				}
-			};
-			struct discard_op {
-			public:
-				SPROUT_CONSTEXPR discard_init operator()(discard_init const& init) const {
-					typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-					return discard_init{
-						init.exponent / 2,
-						init.b_gcd,
-						!(init.exponent % 2 == 1) ? init.a_zm1_over_gcd
-							: mod_type::mult_add(
-								init.b_gcd,
-								mod_type::mult(init.a_zm1_over_gcd, init.a_km1_over_gcd),
-								mod_type::add(init.a_zm1_over_gcd, init.a_km1_over_gcd)
-								)
-							,
-						mod_type::mult_add(
-							init.b_gcd,
-							mod_type::mult(init.a_km1_over_gcd, init.a_km1_over_gcd),
-							mod_type::add(init.a_km1_over_gcd, init.a_km1_over_gcd)
-							)
-						};
-				}
-			};
-			SPROUT_CONSTEXPR linear_congruential_engine const discard_impl_1_2(result_type b_gcd, result_type a_zm1_over_gcd) const {
-				typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-				return linear_congruential_engine(
-					mod_type::mult_add(
-						mod_type::mult_add(b_gcd, a_zm1_over_gcd, 1),
-						x_,
-						mod_type::mult(mod_type::invert((multiplier - 1) / b_gcd), mod_type::mult(increment, a_zm1_over_gcd))
-						),
-					private_construct_t()
-					);
-			}
-			SPROUT_CONSTEXPR linear_congruential_engine const discard_impl_1_1(result_type b_inv, result_type a_z) const {
-				typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-				return linear_congruential_engine(
-					mod_type::mult_add(a_z, x_, mod_type::mult(mod_type::mult(increment, b_inv), a_z - 1)),
-					private_construct_t()
-					);
-			}
-			SPROUT_CONSTEXPR linear_congruential_engine const discard_impl_1(unsigned long long z, result_type b_inv, result_type b_gcd) const {
+			static SPROUT_CONSTEXPR result_type discard_impl(unsigned long long z, result_type x, result_type az, result_type cz) {
 				typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-				return b_gcd == 1 ? discard_impl_1_1(b_inv, mod_type::pow(multiplier, z))
-					: discard_impl_1_2(
-						b_gcd,
-						sprout::while_loop(
-							discard_init{z, b_gcd, 0, (multiplier - 1) / b_gcd},
-							discard_pred(),
-							discard_op()
-							).a_zm1_over_gcd
+				return z == 0 ? x
+					: discard_impl(
+						z / 2,
+						z % 2 == 1 ? mod_type::mult_add(az, x, cz) : x,
+						mod_type::mult(az, az),
+						mod_type::mult_add(az, cz, cz)
 						)
 					;
 			}
-			SPROUT_CONSTEXPR linear_congruential_engine const discard_impl(unsigned long long z, result_type b_inv) const {
-				typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-				return discard_impl_1(
-					z, b_inv,
-					mod_type::mult(multiplier - 1, b_inv)
-					);
-			}
 		public:
 			SPROUT_CONSTEXPR linear_congruential_engine()
 				: x_(init_seed())
@@ -209,41 +147,10 @@ namespace sprout {
 				return generate(sprout::random::detail::const_mod<result_type, modulus>::mult_add(a, x_, c));
 			}
 			SPROUT_CONSTEXPR linear_congruential_engine const discard(unsigned long long z) const {
-				typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-				return discard_impl(z, mod_type::invert(multiplier - 1));
+				return linear_congruential_engine(discard_impl(z, x_, multiplier, increment), private_construct_t());
 			}
 			SPROUT_CXX14_CONSTEXPR void discard(unsigned long long z) {
-				typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-				result_type b_inv = mod_type::invert(multiplier - 1);
-				result_type b_gcd = mod_type::mult(multiplier - 1, b_inv);
-				if (b_gcd == 1) {
-					result_type a_z = mod_type::pow(multiplier, z);
-					x_ = mod_type::mult_add(a_z, x_, mod_type::mult(mod_type::mult(increment, b_inv), a_z - 1));
-				} else {
-					result_type a_zm1_over_gcd = 0;
-					result_type a_km1_over_gcd = (multiplier - 1) / b_gcd;
-					unsigned long long exponent = z;
-					while (exponent) {
-						if (exponent % 2 == 1) {
-							a_zm1_over_gcd = mod_type::mult_add(
-								b_gcd,
-								mod_type::mult(a_zm1_over_gcd, a_km1_over_gcd),
-								mod_type::add(a_zm1_over_gcd, a_km1_over_gcd)
-								);
-						}
-						a_km1_over_gcd = mod_type::mult_add(
-							b_gcd,
-							mod_type::mult(a_km1_over_gcd, a_km1_over_gcd),
-							mod_type::add(a_km1_over_gcd, a_km1_over_gcd)
-							);
-						exponent /= 2;
-					}
-					x_ = mod_type::mult_add(
-						mod_type::mult_add(b_gcd, a_zm1_over_gcd, 1),
-						x_,
-						mod_type::mult(mod_type::invert((multiplier - 1) / b_gcd), mod_type::mult(increment, a_zm1_over_gcd))
-						);
-				}
+				x_ = discard_impl(z, x_, multiplier, increment);
 			}
 			friend SPROUT_CONSTEXPR bool operator==(linear_congruential_engine const& lhs, linear_congruential_engine const& rhs) SPROUT_NOEXCEPT {
 				return lhs.x_ == rhs.x_;
-- 
2.43.0


From a736fd696946fd6574a1b3a246c4fada2e78ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:28 +0000
Subject: [PATCH 223/277] fix: the C++11 mersenne_twister_engine refilled from
 old instead of new values

---
 sprout/random/mersenne_twister.hpp | 86 ++++++------------------------
 1 file changed, 16 insertions(+), 70 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index cb4610e..293f7e6 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -16,6 +16,8 @@
 #include <sprout/cstdint.hpp>
 #include <sprout/random/random_result.hpp>
 #include <sprout/array/array.hpp>
+#include <sprout/index_tuple/index_tuple.hpp>
+#include <sprout/index_tuple/make_index_tuple.hpp>
 #include <sprout/detail/integer/integer_mask.hpp>
 
 namespace sprout {
@@ -149,82 +151,26 @@ namespace sprout {
 						)
 					);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR mersenne_twister_engine twist_5(Args const&... args) const {
-				return mersenne_twister_engine(
-					sprout::array<result_type, n>{{
-						args..., x_[m - 1] ^ (((x_[n - 1] & upper_mask) | (x_[0] & lower_mask)) >> 1) ^ ((x_[0] & 1) * a)
-						}},
-					0,
-					private_construct_t()
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - 1,
-				mersenne_twister_engine
-			>::type twist_4(std::size_t, Args const&... args) const {
-				return twist_5(args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - 1,
-				mersenne_twister_engine
-			>::type twist_4(std::size_t i, Args const&... args) const {
-				return twist_4(
-					i + 1, args..., x_[i - (n - m)] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - 1 - unroll_extra2,
-				mersenne_twister_engine
-			>::type twist_3(std::size_t, Args const&... args) const {
-				return twist_4(n - 1 - unroll_extra2, args...);
+			SPROUT_CONSTEXPR result_type twist_value(result_type y0, result_type y1, result_type v) const {
+				return v ^ (((y0 & upper_mask) | (y1 & lower_mask)) >> 1) ^ ((y1 & 1) * a);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - 1 - unroll_extra2,
-				mersenne_twister_engine
-			>::type twist_3(std::size_t i, Args const&... args) const {
-				return twist_3(
-					i + 1, args..., x_[i - (n - m)] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - m,
-				mersenne_twister_engine
-			>::type twist_2(std::size_t, Args const&... args) const {
-				return twist_3(n - m, args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - m,
-				mersenne_twister_engine
-			>::type twist_2(std::size_t i, Args const&... args) const {
-				return twist_2(
-					i + 1, args..., x_[i + m] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
+			SPROUT_CONSTEXPR result_type twist_at(std::size_t i) const {
+				return twist_value(
+					x_[i],
+					i + 1 < n ? x_[i + 1] : twist_at(0),
+					i < n - m ? x_[i + m] : twist_at(i - (n - m))
 					);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - m - unroll_extra1,
-				mersenne_twister_engine
-			>::type twist_1(std::size_t, Args const&... args) const {
-				return twist_2(n - m - unroll_extra1, args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - m - unroll_extra1,
-				mersenne_twister_engine
-			>::type twist_1(std::size_t i, Args const&... args) const {
-				return twist_1(
-					i + 1, args..., x_[i + m] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
+			template<sprout::index_t... Indexes>
+			SPROUT_CONSTEXPR mersenne_twister_engine twist_impl(sprout::index_tuple<Indexes...>) const {
+				return mersenne_twister_engine(
+					sprout::array<result_type, n>{{twist_at(Indexes)...}},
+					0,
+					private_construct_t()
 					);
 			}
 			SPROUT_CONSTEXPR mersenne_twister_engine twist() const {
-				return twist_1(0);
+				return twist_impl(sprout::make_index_tuple<n>::make());
 			}
 			SPROUT_CXX14_CONSTEXPR void do_twist() {
 				UIntType const upper_mask = (~static_cast<UIntType>(0)) << r;
-- 
2.43.0


From f2e3b5f755bc469256f3818a48604dbe7de069f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 224/277] fix: the C++11 mersenne_twister_engine tempered its
 output wrongly

---
 sprout/random/mersenne_twister.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 293f7e6..67156fc 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -130,13 +130,13 @@ namespace sprout {
 				return z ^ (z >> l);
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_3(result_type z) const {
-				return z ^ generate_impl_4((z << t) & c);
+				return generate_impl_4(z ^ ((z << t) & c));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_2(result_type z) const {
-				return z ^ generate_impl_3((z << s) & b);
+				return generate_impl_3(z ^ ((z << s) & b));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_1(result_type z) const {
-				return z ^ generate_impl_2((z >> u) & d);
+				return generate_impl_2(z ^ ((z >> u) & d));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl() const {
 				return generate_impl_1(x_[i_]);
-- 
2.43.0


From 3e33ef067e8842c823ac44c4ba1229c6ba305d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 225/277] fix: uniform_int_distribution of a narrow integer
 type or source did not compile for a constant engine

---
 sprout/random/uniform_int_distribution.hpp | 64 ++++++++++++----------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index 62e9608..0d492f0 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -188,7 +188,7 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1_1<D + 1>(
 					sprout::random::next(rnd), min_value, range,
 					bmin, brange, bucket_size,
-					sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size
+					static_cast<BaseUnsigned>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size)
 					);
 			}
 			template<int D, typename EngineResult, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK_DECL(D)>
@@ -210,11 +210,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1<D + 1>(
 					eng(), min_value, range,
 					bmin, brange,
-					brange == sprout::numeric_limits<BaseUnsigned>::max()
-						? brange / (static_cast<BaseUnsigned>(range) + 1) + (
-							brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
-							)
-						: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+					static_cast<BaseUnsigned>(
+						brange == sprout::numeric_limits<BaseUnsigned>::max()
+							? brange / (static_cast<BaseUnsigned>(range) + 1) + (
+								brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
+								)
+							: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+						)
 					);
 			}
 			template<int D, typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
@@ -274,7 +276,7 @@ namespace sprout {
 					? sprout::random::detail::generate_uniform_int_true_2<D + 1>(eng, min_value, range, bmin, brange)
 					: sprout::random::detail::generate_uniform_int_true_2_4<D + 1>(
 						eng, min_value, range,
-						bmin, brange, result + (result_increment * mult), result_increment * mult
+						bmin, brange, static_cast<RangeType>(result + (result_increment * mult)), static_cast<RangeType>(result_increment * mult)
 						)
 					;
 			}
@@ -339,8 +341,8 @@ namespace sprout {
 					: sprout::random::detail::generate_uniform_int_true_2_1<D + 1>(
 						sprout::random::next(rnd), min_value, range,
 						bmin, brange, limit,
-						result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
-						mult * (RangeType(brange) + RangeType(1))
+						static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+						static_cast<RangeType>(mult * (RangeType(brange) + RangeType(1)))
 						)
 					;
 			}
@@ -400,11 +402,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_2_1<D + 1>(
 					eng, min_value, range,
 					bmin, brange,
-					range == sprout::numeric_limits<RangeType>::max()
-						? range / (RangeType(brange) + 1) + (
-							range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
-							)
-						: (range + 1) / (RangeType(brange) + 1)
+					static_cast<RangeType>(
+						range == sprout::numeric_limits<RangeType>::max()
+							? range / (RangeType(brange) + 1) + (
+								range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
+								)
+							: (range + 1) / (RangeType(brange) + 1)
+						)
 					);
 			}
 			template<int D, typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK_DECL(D)>
@@ -562,7 +566,7 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1_1(
 					sprout::random::next(rnd), min_value, range,
 					bmin, brange, bucket_size,
-					sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size
+					static_cast<BaseUnsigned>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size)
 					);
 			}
 			template<typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned>
@@ -575,11 +579,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1(
 					eng(), min_value, range,
 					bmin, brange,
-					brange == sprout::numeric_limits<BaseUnsigned>::max()
-						? brange / (static_cast<BaseUnsigned>(range) + 1) + (
-							brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
-							)
-						: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+					static_cast<BaseUnsigned>(
+						brange == sprout::numeric_limits<BaseUnsigned>::max()
+							? brange / (static_cast<BaseUnsigned>(range) + 1) + (
+								brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
+								)
+							: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+						)
 					);
 			}
 			template<typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned>
@@ -615,7 +621,7 @@ namespace sprout {
 					? sprout::random::detail::generate_uniform_int_true_2(eng, min_value, range, bmin, brange)
 					: sprout::random::detail::generate_uniform_int_true_2_4(
 						eng, min_value, range,
-						bmin, brange, result + (result_increment * mult), result_increment * mult
+						bmin, brange, static_cast<RangeType>(result + (result_increment * mult)), static_cast<RangeType>(result_increment * mult)
 						)
 					;
 			}
@@ -655,8 +661,8 @@ namespace sprout {
 					: sprout::random::detail::generate_uniform_int_true_2_1(
 						sprout::random::next(rnd), min_value, range,
 						bmin, brange, limit,
-						result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
-						mult * (RangeType(brange) + RangeType(1))
+						static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+						static_cast<RangeType>(mult * (RangeType(brange) + RangeType(1)))
 						)
 					;
 			}
@@ -697,11 +703,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_2_1(
 					eng, min_value, range,
 					bmin, brange,
-					range == sprout::numeric_limits<RangeType>::max()
-						? range / (RangeType(brange) + 1) + (
-							range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
-							)
-						: (range + 1) / (RangeType(brange) + 1)
+					static_cast<RangeType>(
+						range == sprout::numeric_limits<RangeType>::max()
+							? range / (RangeType(brange) + 1) + (
+								range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
+								)
+							: (range + 1) / (RangeType(brange) + 1)
+						)
 					);
 			}
 			template<typename EngineResult, typename T, typename BaseResult>
-- 
2.43.0


From 1fbe7dee878e36d5b2d96c10034d69b86e98cae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 226/277] fix: uniform_int_distribution forgot its minimum when
 the range was a power of the range of the source

---
 sprout/random/uniform_int_distribution.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index 0d492f0..9db360e 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -69,7 +69,7 @@ namespace sprout {
 						while (mult <= limit) {
 							result += static_cast<range_type>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin) * mult);
 							if (mult * range_type(brange) == range - mult + 1) {
-								return result;
+								return sprout::random::detail::add<range_type, result_type>()(result, min_value);
 							}
 							mult *= range_type(brange) + range_type(1);
 						}
@@ -333,8 +333,11 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							static_cast<RangeType>(
+								result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+								),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
@@ -653,8 +656,11 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							static_cast<RangeType>(
+								result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+								),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
-- 
2.43.0


From 0fc0059a08e83c92761afbce719257a340616624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 227/277] fix: uniform_int_distribution drew twice when its
 range was the range of the source

---
 sprout/random/uniform_int_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index 9db360e..ddf4350 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -50,7 +50,7 @@ namespace sprout {
 				} else if (brange == range) {
 					base_unsigned v = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin);
 					return sprout::random::detail::add<base_unsigned, result_type>()(
-						static_cast<base_unsigned>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin)),
+						v,
 						min_value
 						);
 				} else if (brange < range) {
-- 
2.43.0


From b5bf5a56356c651baf1af5deddf067fc3d0ce0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 228/277] fix: uniform_smallint measured the range of its
 source in the wrong type

---
 sprout/random/uniform_smallint.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/uniform_smallint.hpp b/sprout/random/uniform_smallint.hpp
index 30aca7e..d891736 100644
--- a/sprout/random/uniform_smallint.hpp
+++ b/sprout/random/uniform_smallint.hpp
@@ -102,11 +102,11 @@ namespace sprout {
 				typedef typename std::make_unsigned<base_result>::type base_unsigned;
 				typedef typename std::make_unsigned<result_type>::type range_type;
 				range_type range = sprout::random::detail::subtract<result_type>()(max_, min_);
-				base_unsigned base_range = sprout::random::detail::subtract<result_type>()(eng.max(), eng.min());
+				base_unsigned base_range = sprout::random::detail::subtract<base_result>()(eng.max(), eng.min());
 				base_unsigned val = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), eng.min());
 				return range >= base_range
 					? sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val), min_)
-					: sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val % (static_cast<base_result>(range) + 1)), min_)
+					: sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val % (static_cast<base_unsigned>(range) + 1)), min_)
 					;
 			}
 			template<typename Engine>
@@ -177,7 +177,7 @@ namespace sprout {
 					eng,
 					eng(),
 					range_type(sprout::random::detail::subtract<result_type>()(max_, min_)),
-					base_unsigned(sprout::random::detail::subtract<result_type>()(eng.max(), eng.min()))
+					base_unsigned(sprout::random::detail::subtract<base_result>()(eng.max(), eng.min()))
 					);
 			}
 			template<typename Engine, typename Random, typename RangeType>
-- 
2.43.0


From 5a067101014311783d3a167b150fa046ace44071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 229/277] fix: generate_canonical from a constant engine turned
 0, not 1, into its neighbour

---
 sprout/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/generate_canonical.hpp b/sprout/random/generate_canonical.hpp
index 2b281b8..be73128 100644
--- a/sprout/random/generate_canonical.hpp
+++ b/sprout/random/generate_canonical.hpp
@@ -212,7 +212,7 @@ namespace sprout {
 			generate_canonical_check(sprout::pair<RealType, URNG> const& res) {
 				typedef sprout::pair<RealType, URNG> const pair_type;
 				return SPROUT_ASSERT(res.first >= 0), SPROUT_ASSERT(res.first <= 1),
-					res.first == 0 ? generate_canonical_check_1(
+					res.first == 1 ? generate_canonical_check_1(
 							pair_type(res.first - sprout::numeric_limits<RealType>::epsilon() / 2, res.second)
 							)
 						: res
-- 
2.43.0


From 30a88377f85e8cb068b4cb4cd3aeb227076fe95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 230/277] fix: p() of geometric_distribution and
 binomial_distribution was cut to an integer

---
 sprout/random/binomial_distribution.hpp  | 2 +-
 sprout/random/geometric_distribution.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index dbc8aa6..0409e09 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -727,7 +727,7 @@ namespace sprout {
 			SPROUT_CONSTEXPR result_type t() const SPROUT_NOEXCEPT {
 				return t_;
 			}
-			SPROUT_CONSTEXPR result_type p() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType p() const SPROUT_NOEXCEPT {
 				return p_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
diff --git a/sprout/random/geometric_distribution.hpp b/sprout/random/geometric_distribution.hpp
index 2f0afad..18c2028 100644
--- a/sprout/random/geometric_distribution.hpp
+++ b/sprout/random/geometric_distribution.hpp
@@ -114,7 +114,7 @@ namespace sprout {
 				: p_(parm.p())
 				, log_1mp_(init_log_1mp(parm.p()))
 			{}
-			SPROUT_CONSTEXPR result_type p() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType p() const SPROUT_NOEXCEPT {
 				return p_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
-- 
2.43.0


From aab63fe2a0f5b4365fbdbb1e8295fadb3bbf9a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 231/277] fix: binomial_distribution with a mutable engine did
 not compile

---
 sprout/random/binomial_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 0409e09..ae81b9f 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -251,7 +251,7 @@ namespace sprout {
 						continue;
 					}
 					v = v * btrd_.alpha / (btrd_.a / (us * us) + btrd_.b);
-					RealType km = sprout::math::abs(k - m_);
+					RealType km = sprout::math::abs(static_cast<RealType>(k - m_));
 					if (km <= 15) {
 						RealType f = RealType(1);
 						if (m_ < k) {
-- 
2.43.0


From 258430d8694e8734d1dae5b182eac47b5c6acd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 232/277] fix: poisson_distribution read behind its table of
 factorials

---
 sprout/random/poisson_distribution.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index b0f894c..ba02ce6 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -218,7 +218,7 @@ namespace sprout {
 					RealType k = sprout::floor((2 * ptrd_.a / us + ptrd_.b) * u + mean_ + 0.445);
 					v = v * ptrd_.inv_alpha / (ptrd_.a / (us * us) + ptrd_.b);
 					if ((k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						)
 					{
 						return static_cast<IntType>(k);
@@ -237,7 +237,7 @@ namespace sprout {
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_3(Random const& rnd, RealType k, RealType v) const {
 				return (k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						? sprout::random::random_result<Engine, poisson_distribution>(static_cast<IntType>(k), sprout::random::next(rnd).engine(), *this)
 					: generate_1<Engine, D + 1>(rnd())
 					;
@@ -292,7 +292,7 @@ namespace sprout {
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_3(Random const& rnd, RealType k, RealType v) const {
 				return (k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						? sprout::random::random_result<Engine, poisson_distribution>(static_cast<IntType>(k), sprout::random::next(rnd).engine(), *this)
 					: generate_1<Engine>(rnd())
 					;
-- 
2.43.0


From 43398213ab0416d962d6b0975ffeb16e24ec5d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 233/277] fix: poisson_distribution with a constant engine did
 not scale its second answer

---
 sprout/random/poisson_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index ba02ce6..73d5397 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -262,7 +262,7 @@ namespace sprout {
 			}
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const& rnd, RealType, RealType u) const {
-				return generate_2<Engine, D + 1>(rnd, sprout::random::result(rnd), ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
+				return generate_2<Engine, D + 1>(rnd, sprout::random::result(rnd) * ptrd_.v_r, ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
 			}
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const&, RealType, RealType) const {
@@ -309,7 +309,7 @@ namespace sprout {
 			}
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const& rnd, RealType v, RealType u) const {
-				return generate_2<Engine>(rnd, sprout::random::result(rnd), ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
+				return generate_2<Engine>(rnd, sprout::random::result(rnd) * ptrd_.v_r, ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
 			}
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_2(Random const& rnd, RealType v) const {
-- 
2.43.0


From 78302173f8920f3526a34f6513404eb99b3e91b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:01 +0000
Subject: [PATCH 234/277] fix: random distributions added a negative minimum
 wrongly when the source is narrower than the result

---
 sprout/random/detail/signed_unsigned_tools.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sprout/random/detail/signed_unsigned_tools.hpp b/sprout/random/detail/signed_unsigned_tools.hpp
index e5540c3..2158a5e 100644
--- a/sprout/random/detail/signed_unsigned_tools.hpp
+++ b/sprout/random/detail/signed_unsigned_tools.hpp
@@ -54,12 +54,11 @@ namespace sprout {
 			struct add<T1, T2, true> {
 			public:
 				typedef T2 result_type;
+			private:
+				typedef typename std::make_unsigned<T2>::type unsigned_type;
 			public:
 				SPROUT_CONSTEXPR result_type operator()(T1 x, T2 y) const {
-					return y >= 0 ? T2(x) + y
-						: x >= T1(-(y + 1)) ? T2(x - T1(-(y + 1)) - 1)
-						: T2(x) + y
-						;
+					return static_cast<T2>(static_cast<unsigned_type>(static_cast<unsigned_type>(x) + static_cast<unsigned_type>(y)));
 				}
 			};
 		}	// namespace detail
-- 
2.43.0


From f1ae8a0e048f906378347f6223ee54e484de3ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:01 +0000
Subject: [PATCH 235/277] fix: uniform_int_distribution from a source of reals
 did not compile, scaled wrongly and did not advance the source

---
 sprout/random/detail/uniform_int_float.hpp | 4 ++--
 sprout/random/uniform_int_distribution.hpp | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sprout/random/detail/uniform_int_float.hpp b/sprout/random/detail/uniform_int_float.hpp
index d9012f7..c239d49 100644
--- a/sprout/random/detail/uniform_int_float.hpp
+++ b/sprout/random/detail/uniform_int_float.hpp
@@ -57,7 +57,7 @@ namespace sprout {
 					return (
 						result_type(2) << (
 							NS_SSCRISK_CEL_OR_SPROUT::min(
-								sprout::numeric_limits<result_type>::digits,
+								static_cast<std::size_t>(sprout::numeric_limits<result_type>::digits),
 								sprout::random::detail::generator_bits<base_type>::value()
 								) - 1
 							)
@@ -71,7 +71,7 @@ namespace sprout {
 					return rng_;
 				}
 				SPROUT_CXX14_CONSTEXPR result_type operator()() {
-					return static_cast<result_type>(static_cast<base_result>(rng_()) * static_cast<base_result>(max()) + 1);
+					return static_cast<result_type>(static_cast<base_result>(rng_()) * (static_cast<base_result>(max()) + 1));
 				}
 				SPROUT_CONSTEXPR sprout::random::random_result<uniform_int_float> const operator()() const {
 					return generate(rng_());
diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index ddf4350..258b2aa 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -117,7 +117,9 @@ namespace sprout {
 				)
 			{
 				sprout::random::detail::uniform_int_float<Engine> wrapper(eng);
-				return sprout::random::detail::generate_uniform_int_cxx14(wrapper, min_value, max_value, std::true_type());
+				T const result = sprout::random::detail::generate_uniform_int_cxx14(wrapper, min_value, max_value, std::true_type());
+				eng = wrapper.base();
+				return result;
 			}
 			template<typename Engine, typename T>
 			inline SPROUT_CXX14_CONSTEXPR T
-- 
2.43.0


From d9beb573a824d79e1c3daf7bd17d333848f79e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:19 +0000
Subject: [PATCH 236/277] fix: binomial_distribution with a constant engine
 recursed without end below the mode

---
 sprout/random/binomial_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index ae81b9f..62c792c 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -399,7 +399,7 @@ namespace sprout {
 			template<int D, typename Engine, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_7_2(Engine const& eng, RealType v, IntType k, RealType f, IntType i) const {
-				return i != k
+				return i != m_
 					? generate_7_2<D + 1>(eng, v * (btrd_.nr / (i + 1) - btrd_.r), k, f, i + 1)
 					: generate_7_3<D + 1>(eng, v, k, f)
 					;
@@ -585,7 +585,7 @@ namespace sprout {
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_7_2(Engine const& eng, RealType v, IntType k, RealType f, IntType i) const {
-				return i != k
+				return i != m_
 					? generate_7_2(eng, v * (btrd_.nr / (i + 1) - btrd_.r), k, f, i + 1)
 					: generate_7_3(eng, v, k, f)
 					;
-- 
2.43.0


From 325a2cfdcbd4322c0927ed01e4a998b63047ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:38 +0000
Subject: [PATCH 237/277] fix: generate_canonical from a source of reals
 divided the first answer without scaling it

---
 sprout/random/generate_canonical.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/generate_canonical.hpp b/sprout/random/generate_canonical.hpp
index be73128..09c2be2 100644
--- a/sprout/random/generate_canonical.hpp
+++ b/sprout/random/generate_canonical.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 					RealType(2),
 					RealType(NS_SSCRISK_CEL_OR_SPROUT::min(bits, static_cast<std::size_t>(sprout::numeric_limits<RealType>::digits)))
 					);
-				RealType s = RealType(static_cast<base_result>(rng()) - rng.min());
+				RealType s = sprout::math::floor((RealType(static_cast<base_result>(rng())) - RealType(rng.min())) * r);
 				RealType mult = r;
 				while (mult < limit) {
 					s += sprout::math::floor((RealType(static_cast<base_result>(rng())) - RealType(rng.min())) * r) * mult;
@@ -176,12 +176,12 @@ namespace sprout {
 				typedef sprout::pair<RealType, URNG> const pair_type;
 				return r < limit ? sprout::random::detail::generate_canonical_impl_0_1<RealType, bits, URNG>(
 						r, limit,
-						RealType(sprout::random::result(rnd) - sprout::random::next(rnd).min()),
+						sprout::math::floor((RealType(sprout::random::result(rnd)) - RealType(sprout::random::next(rnd).min())) * r),
 						r,
 						rnd()
 						)
 					: pair_type(
-						RealType(sprout::random::result(rnd) - sprout::random::next(rnd).min()) / r,
+						sprout::math::floor((RealType(sprout::random::result(rnd)) - RealType(sprout::random::next(rnd).min())) * r) / r,
 						sprout::random::next(rnd)
 						)
 					;
-- 
2.43.0


From 1272a2f5692876c8eb11097ee6ca1428377884e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:38 +0000
Subject: [PATCH 238/277] fix: mean() of poisson_distribution was cut to an
 integer

---
 sprout/random/poisson_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index 73d5397..924043f 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -345,7 +345,7 @@ namespace sprout {
 				, ptrd_(init_ptrd(parm.mean()))
 				, exp_mean_(init_exp_mean(parm.mean()))
 			{}
-			SPROUT_CONSTEXPR result_type mean() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType mean() const SPROUT_NOEXCEPT {
 				return mean_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
-- 
2.43.0


From 8cb2ef4bdaae02c862b8dc7f61151cecbffc5125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:04 +0000
Subject: [PATCH 239/277] fix: poisson_distribution and binomial_distribution
 did not end when the source answered close to its maximum

---
 sprout/random/binomial_distribution.hpp | 4 ++--
 sprout/random/poisson_distribution.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 62c792c..129b73a 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -220,7 +220,7 @@ namespace sprout {
 				RealType r = q_n_;
 				RealType u = static_cast<RealType>(sprout::random::uniform_01<RealType>()(eng));
 				IntType x = 0;
-				while (u > r) {
+				while (x < t && u > r) {
 					u = u - r;
 					++x;
 					r = ((a / x) - s) * r;
@@ -299,7 +299,7 @@ namespace sprout {
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			invert_4(Engine const& eng, RealType u, RealType q, RealType s, RealType a, RealType r, IntType x = 0) const {
-				return u > r
+				return x < t_ && u > r
 					? invert_4(eng, u - r, q, s, a, ((a / (x + 1)) - s) * r, x + 1)
 					: sprout::random::random_result<Engine, binomial_distribution>(x, eng, *this)
 					;
diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index 924043f..41c0096 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -174,7 +174,7 @@ namespace sprout {
 				RealType u = sprout::random::uniform_01<RealType>()(eng);
 				IntType x = 0;
 				RealType p = exp_mean_;
-				while (u > p) {
+				while (u > p && u - p < u) {
 					u -= p;
 					++x;
 					p = p * mean_ / x;
@@ -183,7 +183,7 @@ namespace sprout {
 			}
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> invert_2(Random const& rnd, RealType u, IntType x, RealType p) const {
-				return !(u > p) ? sprout::random::random_result<Engine, poisson_distribution>(x, sprout::random::next(rnd).engine(), *this)
+				return !(u > p && u - p < u) ? sprout::random::random_result<Engine, poisson_distribution>(x, sprout::random::next(rnd).engine(), *this)
 					: invert_2<Engine>(rnd, u - p, x + 1, p * mean_ / (x + 1))
 					;
 			}
-- 
2.43.0


From 00717d54d8b57aac49d2222042b35e5d3d3ab378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:57 +0000
Subject: [PATCH 240/277] fix: brainfuck::exec ignored the command -

---
 sprout/brainfuck/brainfuck.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/brainfuck/brainfuck.hpp b/sprout/brainfuck/brainfuck.hpp
index 3d182b3..c7ccb81 100644
--- a/sprout/brainfuck/brainfuck.hpp
+++ b/sprout/brainfuck/brainfuck.hpp
@@ -98,7 +98,7 @@ namespace sprout {
 							sprout::next(first), last, output, in_first, in_last,
 							sprout::fixed::set(buffer, pos, value_type(buffer.at(pos) + 1)), out_buffer, pos, out_pos
 							)
-					: *first == SPROUT_CHAR_LITERAL('+', value_type)
+					: *first == SPROUT_CHAR_LITERAL('-', value_type)
 						? sprout::brainfuck::detail::exec_impl(
 							sprout::next(first), last, output, in_first, in_last,
 							sprout::fixed::set(buffer, pos, value_type(buffer.at(pos) - 1)), out_buffer, pos, out_pos
-- 
2.43.0


From a973683fb406e1fbbaf0b6452f43cb954d989036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:58 +0000
Subject: [PATCH 241/277] fix: brainfuck::misa did not know its prolonged sound
 mark

---
 sprout/brainfuck/misa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/brainfuck/misa.hpp b/sprout/brainfuck/misa.hpp
index b9219a6..b01aa71 100644
--- a/sprout/brainfuck/misa.hpp
+++ b/sprout/brainfuck/misa.hpp
@@ -39,7 +39,7 @@ namespace sprout {
 						first, last,
 						*sprout::weed::lim<sprout::container_traits<Result>::static_size>(
 							sprout::weed::replace('>')
-								[sprout::weed::lit('>') | "\x81\xA8"/*"��"*/ | "\x81\x60"/*"�`"*/ | "\x81\5B"/*"�["*/]
+								[sprout::weed::lit('>') | "\x81\xA8"/*"��"*/ | "\x81\x60"/*"�`"*/ | "\x81\x5B"/*"�["*/]
 							| sprout::weed::replace('<')
 								[sprout::weed::lit('<') | "\x81\xA9"/*"��"*/ | "\x81\x9A"/*"��"*/ | "\x81\x99"/*"��"*/]
 							| sprout::weed::replace('+')
-- 
2.43.0


From 5eca5afe50e3137b9360708fc5b9d29a1f5d9955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:58 +0000
Subject: [PATCH 242/277] fix: brainfuck::ook translated every command to >

---
 sprout/brainfuck/ook.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sprout/brainfuck/ook.hpp b/sprout/brainfuck/ook.hpp
index 1b74729..7676c4d 100644
--- a/sprout/brainfuck/ook.hpp
+++ b/sprout/brainfuck/ook.hpp
@@ -40,19 +40,19 @@ namespace sprout {
 						*sprout::weed::lim<sprout::container_traits<Result>::static_size>(
 							sprout::weed::replace('>')
 								["Ook." >> *sprout::weed::space_ >> "Ook?"]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('<')
 								["Ook?" >> *sprout::weed::space_ >> "Ook."]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('+')
 								["Ook." >> *sprout::weed::space_ >> "Ook."]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('-')
 								["Ook!" >> *sprout::weed::space_ >> "Ook!"]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('.')
 								["Ook!" >> *sprout::weed::space_ >> "Ook."]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace(',')
 								["Ook." >> *sprout::weed::space_ >> "Ook!"]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('[')
 								["Ook!" >> *sprout::weed::space_ >> "Ook?"]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace(']')
 								["Ook?" >> *sprout::weed::space_ >> "Ook!"]
 							| sprout::weed::replace(' ')
 								[sprout::weed::char_]
-- 
2.43.0


From 4e6a7631b842505efe1bbda645987a2b61600ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:04 +0000
Subject: [PATCH 243/277] fix: the list operator of weed swallowed a separator
 that no element follows

---
 sprout/weed/context/parse_context/operator/modulus.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/weed/context/parse_context/operator/modulus.hpp b/sprout/weed/context/parse_context/operator/modulus.hpp
index 1f549e9..ec5e9e8 100644
--- a/sprout/weed/context/parse_context/operator/modulus.hpp
+++ b/sprout/weed/context/parse_context/operator/modulus.hpp
@@ -65,7 +65,7 @@ namespace sprout {
 					? call(
 						expr1,
 						expr2,
-						res.ctx(),
+						ctx,
 						limited_category,
 						sprout::weed::eval(expr1, res.ctx()),
 						attrs...
@@ -202,7 +202,7 @@ namespace sprout {
 				) const
 			{
 				return res.success()
-					? call_inf(expr1, expr2, res.ctx(), sprout::weed::eval(expr1, res.ctx()))
+					? call_inf(expr1, expr2, ctx, sprout::weed::eval(expr1, res.ctx()))
 					: result_type(true, ctx.begin(), attribute_type(), ctx)
 					;
 			}
-- 
2.43.0


From adfa1ef224409a0c0f68fbab729bbb316ba8cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:04 +0000
Subject: [PATCH 244/277] fix: repetitions of weed limited to one with stopover
 did not stop

---
 sprout/weed/context/parse_context/operator/dereference.hpp | 2 +-
 sprout/weed/context/parse_context/operator/modulus.hpp     | 2 +-
 sprout/weed/context/parse_context/operator/unary_plus.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/weed/context/parse_context/operator/dereference.hpp b/sprout/weed/context/parse_context/operator/dereference.hpp
index 5aa4577..5c7c1f2 100644
--- a/sprout/weed/context/parse_context/operator/dereference.hpp
+++ b/sprout/weed/context/parse_context/operator/dereference.hpp
@@ -63,7 +63,7 @@ namespace sprout {
 				Attrs const&... attrs
 				) const
 			{
-				return res.success()
+				return res.success() && (limit::value != 1 || limited_category != sprout::weed::limited::stopover)
 					? limited_category == sprout::weed::limited::discard
 						? call(
 							expr,
diff --git a/sprout/weed/context/parse_context/operator/modulus.hpp b/sprout/weed/context/parse_context/operator/modulus.hpp
index ec5e9e8..4bad1fc 100644
--- a/sprout/weed/context/parse_context/operator/modulus.hpp
+++ b/sprout/weed/context/parse_context/operator/modulus.hpp
@@ -92,7 +92,7 @@ namespace sprout {
 				Attrs const&... attrs
 				) const
 			{
-				return res.success()
+				return res.success() && (limit::value != 1 || limited_category != sprout::weed::limited::stopover)
 					? limited_category == sprout::weed::limited::discard
 						? call_1(
 							expr1,
diff --git a/sprout/weed/context/parse_context/operator/unary_plus.hpp b/sprout/weed/context/parse_context/operator/unary_plus.hpp
index b6be770..6390fbe 100644
--- a/sprout/weed/context/parse_context/operator/unary_plus.hpp
+++ b/sprout/weed/context/parse_context/operator/unary_plus.hpp
@@ -63,7 +63,7 @@ namespace sprout {
 				Attrs const&... attrs
 				) const
 			{
-				return res.success()
+				return res.success() && (limit::value != 1 || limited_category != sprout::weed::limited::stopover)
 					? limited_category == sprout::weed::limited::discard
 						? call(
 							expr,
-- 
2.43.0


From d87c3a00865ef629b4ead3af9df2ec2fbf6545fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:04 +0000
Subject: [PATCH 245/277] fix: weed::string did not deliver its string

---
 sprout/weed/parser/string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/weed/parser/string/string.hpp b/sprout/weed/parser/string/string.hpp
index 9771ef9..2732da4 100644
--- a/sprout/weed/parser/string/string.hpp
+++ b/sprout/weed/parser/string/string.hpp
@@ -132,7 +132,7 @@ namespace sprout {
 				typedef typename attribute<Context, Iterator>::type attribute_type;
 				return sprout::distance(first, last) >= sprout::size(t_)
 					&& sprout::equal(sprout::begin(t_), sprout::end(t_), first)
-					? result_type(true, sprout::next(first, sprout::size(t_)), attribute_type())
+					? result_type(true, sprout::next(first, sprout::size(t_)), t_)
 					: result_type(false, first, typename attribute<Context, Iterator>::type())
 					;
 			}
-- 
2.43.0


From c62e335025b3bd5e0042f4a0f9df860a9a4c4d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:04 +0000
Subject: [PATCH 246/277] fix: weed::repeat ended at the wrong position

---
 sprout/weed/parser/directive/repeat.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/weed/parser/directive/repeat.hpp b/sprout/weed/parser/directive/repeat.hpp
index 745a78d..2d86eea 100644
--- a/sprout/weed/parser/directive/repeat.hpp
+++ b/sprout/weed/parser/directive/repeat.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 					) const
 				{
 					return res.success()
-						? call(p, p.count_ <= sizeof...(Attrs) ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), attrs..., res.attr())
+						? call(p, p.count_ <= sizeof...(Attrs) + 1 ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), attrs..., res.attr())
 						: p.count_ <= sizeof...(Attrs)
 							? result_type(true, first, sprout::weed::attr_cnv::times<limit::value, attr_type>(attrs...))
 							: result_type(false, first, attribute_type())
@@ -90,7 +90,7 @@ namespace sprout {
 					) const
 				{
 					return res.success()
-						? call_inf(p, p.count_ <= n ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), n + 1)
+						? call_inf(p, p.count_ <= n + 1 || p.count_ == std::size_t(-1) ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), n + 1)
 						: result_type(p.count_ <= n || p.count_ == std::size_t(-1), first, attribute_type())
 						;
 				}
@@ -107,7 +107,7 @@ namespace sprout {
 					return res.success()
 						? call_inf(
 							p,
-							p.count_ <= 0 ? res.current() : first,
+							p.count_ <= 1 || p.count_ == std::size_t(-1) ? res.current() : first,
 							sprout::weed::eval(p.expr_, res.ctx()),
 							1
 							)
@@ -127,7 +127,7 @@ namespace sprout {
 					return res.success()
 						? call(
 							p,
-							p.count_ <= 0 ? res.current() : first,
+							p.count_ <= 1 ? res.current() : first,
 							sprout::weed::eval(p.expr_, res.ctx()),
 							res.attr()
 							)
-- 
2.43.0


From 8fcb54ec114e384049551112bc6cad0ceb997c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:36 +0000
Subject: [PATCH 247/277] fix: alternatives of weed with a character first and
 a string second did not compile

---
 sprout/weed/attr_cnv/results/bitwise_or.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/weed/attr_cnv/results/bitwise_or.hpp b/sprout/weed/attr_cnv/results/bitwise_or.hpp
index 6e23a74..33ab760 100644
--- a/sprout/weed/attr_cnv/results/bitwise_or.hpp
+++ b/sprout/weed/attr_cnv/results/bitwise_or.hpp
@@ -76,7 +76,7 @@ namespace sprout {
 					>::type
 				>
 					: public std::conditional<
-						sprout::container_traits<T>::static_size != 0,
+						sprout::container_traits<U>::static_size != 0,
 						U,
 						typename sprout::container_transform_traits<U>::template rebind_size<1>::type
 					>
-- 
2.43.0


From 6090870bc2e58e5c44bc611d75281f50930d4764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:59 +0000
Subject: [PATCH 248/277] fix: character sets of weed did not compile:
 is_parser was an error for constant other types

---
 sprout/weed/traits/parser/is_parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/weed/traits/parser/is_parser.hpp b/sprout/weed/traits/parser/is_parser.hpp
index 6307298..37b6cfa 100644
--- a/sprout/weed/traits/parser/is_parser.hpp
+++ b/sprout/weed/traits/parser/is_parser.hpp
@@ -24,7 +24,9 @@ namespace sprout {
 			// is_parser
 			//
 			template<typename T, typename = void>
-			struct is_parser;
+			struct is_parser
+				: public sprout::false_type
+			{};
 			template<typename T>
 			struct is_parser<
 				T,
-- 
2.43.0


From 8517a98ea4cd232dca2afe2cc0744c85728ccb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:30 +0000
Subject: [PATCH 249/277] fix: weed::repeat limited to one did not compile

---
 sprout/weed/parser/directive/repeat.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/sprout/weed/parser/directive/repeat.hpp b/sprout/weed/parser/directive/repeat.hpp
index 2d86eea..d46c7cd 100644
--- a/sprout/weed/parser/directive/repeat.hpp
+++ b/sprout/weed/parser/directive/repeat.hpp
@@ -124,15 +124,7 @@ namespace sprout {
 					Result const& res
 					) const
 				{
-					return res.success()
-						? call(
-							p,
-							p.count_ <= 1 ? res.current() : first,
-							sprout::weed::eval(p.expr_, res.ctx()),
-							res.attr()
-							)
-						: result_type(p.count_ <= 0, first, attribute_type())
-						;
+					return call(p, first, res);
 				}
 			public:
 				SPROUT_CONSTEXPR result_type operator()(
-- 
2.43.0


From 74f8e92ed385b2a1a07c78aa8bb8cfe2397abfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:22 +0000
Subject: [PATCH 250/277] fix: bin, oct and hex of weed demanded an endless
 minimum of digits

---
 sprout/weed/parser/numeric/bin.hpp | 2 +-
 sprout/weed/parser/numeric/hex.hpp | 2 +-
 sprout/weed/parser/numeric/oct.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/weed/parser/numeric/bin.hpp b/sprout/weed/parser/numeric/bin.hpp
index 0167dee..f7c6d18 100644
--- a/sprout/weed/parser/numeric/bin.hpp
+++ b/sprout/weed/parser/numeric/bin.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		//
 		// bin
 		//
-		SPROUT_STATIC_CONSTEXPR auto bin = sprout::weed::uint_p<std::uintmax_t, 2, static_cast<std::size_t>(-1)>();
+		SPROUT_STATIC_CONSTEXPR auto bin = sprout::weed::uint_p<std::uintmax_t, 2, 1, static_cast<std::size_t>(-1)>();
 
 		//
 		// bin8
diff --git a/sprout/weed/parser/numeric/hex.hpp b/sprout/weed/parser/numeric/hex.hpp
index ca34529..e21888b 100644
--- a/sprout/weed/parser/numeric/hex.hpp
+++ b/sprout/weed/parser/numeric/hex.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		//
 		// hex
 		//
-		SPROUT_STATIC_CONSTEXPR auto hex = sprout::weed::uint_p<std::uintmax_t, 16, static_cast<std::size_t>(-1)>();
+		SPROUT_STATIC_CONSTEXPR auto hex = sprout::weed::uint_p<std::uintmax_t, 16, 1, static_cast<std::size_t>(-1)>();
 
 		//
 		// hex8
diff --git a/sprout/weed/parser/numeric/oct.hpp b/sprout/weed/parser/numeric/oct.hpp
index e9eb433..9db621b 100644
--- a/sprout/weed/parser/numeric/oct.hpp
+++ b/sprout/weed/parser/numeric/oct.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		//
 		// oct
 		//
-		SPROUT_STATIC_CONSTEXPR auto oct = sprout::weed::uint_p<std::uintmax_t, 8, static_cast<std::size_t>(-1)>();
+		SPROUT_STATIC_CONSTEXPR auto oct = sprout::weed::uint_p<std::uintmax_t, 8, 1, static_cast<std::size_t>(-1)>();
 
 		//
 		// oct8
-- 
2.43.0


From 559b47c48e727dd79d8b1fb670c15b853428452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:22 +0000
Subject: [PATCH 251/277] fix: int_p and uint_p of weed did not compile for at
 most one digit

---
 sprout/weed/parser/numeric/int_p.hpp  | 14 ++++++++------
 sprout/weed/parser/numeric/uint_p.hpp | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/sprout/weed/parser/numeric/int_p.hpp b/sprout/weed/parser/numeric/int_p.hpp
index 4280be0..be8895c 100644
--- a/sprout/weed/parser/numeric/int_p.hpp
+++ b/sprout/weed/parser/numeric/int_p.hpp
@@ -152,12 +152,14 @@ namespace sprout {
 				typedef typename result<Context, Iterator>::type result_type;
 				typedef typename attribute<Context, Iterator>::type attribute_type;
 				return sprout::tuples::get<1>(res)
-					? call_0<1, Context>(
-						sprout::next(first), last,
-						temp_first,
-						sprout::tuples::get<0>(res),
-						1
-						)
+					? MaxDigits == 1
+						? result_type(true, sprout::next(first), sprout::tuples::get<0>(res))
+						: call_0<(limit_digits == 1 ? 0 : 1), Context>(
+							sprout::next(first), last,
+							temp_first,
+							sprout::tuples::get<0>(res),
+							1
+							)
 					: result_type(false, temp_first, attribute_type())
 					;
 			}
diff --git a/sprout/weed/parser/numeric/uint_p.hpp b/sprout/weed/parser/numeric/uint_p.hpp
index 2ca693f..07d3525 100644
--- a/sprout/weed/parser/numeric/uint_p.hpp
+++ b/sprout/weed/parser/numeric/uint_p.hpp
@@ -151,12 +151,14 @@ namespace sprout {
 				typedef typename result<Context, Iterator>::type result_type;
 				typedef typename attribute<Context, Iterator>::type attribute_type;
 				return sprout::tuples::get<1>(res)
-					? call_0<1, Context>(
-						sprout::next(first), last,
-						temp_first,
-						sprout::tuples::get<0>(res),
-						1
-						)
+					? MaxDigits == 1
+						? result_type(true, sprout::next(first), sprout::tuples::get<0>(res))
+						: call_0<(limit_digits == 1 ? 0 : 1), Context>(
+							sprout::next(first), last,
+							temp_first,
+							sprout::tuples::get<0>(res),
+							1
+							)
 					: result_type(false, temp_first, attribute_type())
 					;
 			}
-- 
2.43.0


From 33a21f5d688063139efb1ad010e860225bc92557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 252/277] fix: int_p and uint_p of weed accepted one digit less
 than the minimum before other characters

---
 sprout/weed/parser/numeric/int_p.hpp  | 4 ++--
 sprout/weed/parser/numeric/uint_p.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/weed/parser/numeric/int_p.hpp b/sprout/weed/parser/numeric/int_p.hpp
index be8895c..7a1cad8 100644
--- a/sprout/weed/parser/numeric/int_p.hpp
+++ b/sprout/weed/parser/numeric/int_p.hpp
@@ -88,7 +88,7 @@ namespace sprout {
 							sprout::next(first),
 							static_cast<IntType>(t * Radix + sprout::tuples::get<0>(res))
 							)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -114,7 +114,7 @@ namespace sprout {
 						static_cast<IntType>(t * Radix + sprout::tuples::get<0>(res)),
 						n
 						)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
diff --git a/sprout/weed/parser/numeric/uint_p.hpp b/sprout/weed/parser/numeric/uint_p.hpp
index 07d3525..56ee27d 100644
--- a/sprout/weed/parser/numeric/uint_p.hpp
+++ b/sprout/weed/parser/numeric/uint_p.hpp
@@ -87,7 +87,7 @@ namespace sprout {
 							sprout::next(first),
 							static_cast<UIntType>(t * Radix + sprout::tuples::get<0>(res))
 							)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -113,7 +113,7 @@ namespace sprout {
 						static_cast<UIntType>(t * Radix + sprout::tuples::get<0>(res)),
 						n
 						)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
-- 
2.43.0


From 229043d5b76740d25372bd9354c9222d1b4addb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 253/277] fix: brainfuck::exec read input to a place off the
 tape without an error

---
 sprout/brainfuck/brainfuck.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/brainfuck/brainfuck.hpp b/sprout/brainfuck/brainfuck.hpp
index c7ccb81..77b87de 100644
--- a/sprout/brainfuck/brainfuck.hpp
+++ b/sprout/brainfuck/brainfuck.hpp
@@ -112,7 +112,7 @@ namespace sprout {
 					: *first == SPROUT_CHAR_LITERAL(',', value_type) ? in_first != in_last
 						? sprout::brainfuck::detail::exec_impl(
 							sprout::next(first), last, output, sprout::next(in_first), in_last,
-							sprout::fixed::set(buffer, pos, value_type(*in_first)), out_buffer, pos, out_pos
+							sprout::fixed::set(buffer, (static_cast<void>(buffer.at(pos)), pos), value_type(*in_first)), out_buffer, pos, out_pos
 							)
 						: throw std::out_of_range("input out of range")
 					: *first == SPROUT_CHAR_LITERAL('[', value_type) ? buffer.at(pos) == 0
-- 
2.43.0


From afba6c57cfdb799c703ce4a12a2df0a0137948b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:53 +0000
Subject: [PATCH 254/277] fix: invoke with a member pointer and a pointer to
 the object did not dereference the pointer

---
 sprout/type_traits/detail/invoke.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/detail/invoke.hpp b/sprout/type_traits/detail/invoke.hpp
index 9f80fce..046a9bc 100644
--- a/sprout/type_traits/detail/invoke.hpp
+++ b/sprout/type_traits/detail/invoke.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 		template<typename PMD, typename Pointer>
 		inline SPROUT_CONSTEXPR decltype((*std::declval<Pointer>()).*(std::declval<PMD>()))
 		invoke(PMD&& pmd, Pointer&& ptr) SPROUT_NOEXCEPT_IF_EXPR((*std::declval<Pointer>()).*(std::declval<PMD>())) {
-			return SPROUT_FORWARD(Pointer, ptr).*(SPROUT_FORWARD(PMD, pmd));
+			return (*SPROUT_FORWARD(Pointer, ptr)).*(SPROUT_FORWARD(PMD, pmd));
 		}
 
 		template<typename Base, typename T, typename Derived, typename... Args>
@@ -44,7 +44,7 @@ namespace sprout {
 		template<typename PMF, typename Pointer, typename... Args>
 		inline SPROUT_CONSTEXPR decltype(((*std::declval<Pointer>()).*(std::declval<PMF>()))(std::declval<Args>()...))
 		invoke(PMF&& pmf, Pointer&& ptr, Args&&... args) SPROUT_NOEXCEPT_IF_EXPR(((*std::declval<Pointer>()).*(std::declval<PMF>()))(std::declval<Args>()...)) {
-			return (SPROUT_FORWARD(Pointer, ptr).*(SPROUT_FORWARD(PMF, pmf)))(SPROUT_FORWARD(Args, args)...);
+			return ((*SPROUT_FORWARD(Pointer, ptr)).*(SPROUT_FORWARD(PMF, pmf)))(SPROUT_FORWARD(Args, args)...);
 		}
 
 		template<typename R, typename F, typename... Args>
-- 
2.43.0


From 915f7359e3bd5982047dc5c8204476a10ac7c90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:53 +0000
Subject: [PATCH 255/277] fix: const call of a bind expression passed a bound
 reference_wrapper instead of the object it refers to

---
 sprout/functional/bind/bind.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sprout/functional/bind/bind.hpp b/sprout/functional/bind/bind.hpp
index 9ac4c91..35b64cc 100644
--- a/sprout/functional/bind/bind.hpp
+++ b/sprout/functional/bind/bind.hpp
@@ -102,6 +102,30 @@ namespace sprout {
 				return const_cast<typename std::remove_volatile<typename std::remove_reference<CVRef>::type>::type&>(arg).get();
 			}
 		};
+		template<typename T>
+		class mu<sprout::reference_wrapper<T> const, false, false>
+			: public sprout::detail::mu<sprout::reference_wrapper<T>, false, false>
+		{};
+		template<typename T>
+		class mu<sprout::reference_wrapper<T> volatile, false, false>
+			: public sprout::detail::mu<sprout::reference_wrapper<T>, false, false>
+		{};
+		template<typename T>
+		class mu<sprout::reference_wrapper<T> const volatile, false, false>
+			: public sprout::detail::mu<sprout::reference_wrapper<T>, false, false>
+		{};
+		template<typename T>
+		class mu<std::reference_wrapper<T> const, false, false>
+			: public sprout::detail::mu<std::reference_wrapper<T>, false, false>
+		{};
+		template<typename T>
+		class mu<std::reference_wrapper<T> volatile, false, false>
+			: public sprout::detail::mu<std::reference_wrapper<T>, false, false>
+		{};
+		template<typename T>
+		class mu<std::reference_wrapper<T> const volatile, false, false>
+			: public sprout::detail::mu<std::reference_wrapper<T>, false, false>
+		{};
 		template<typename Arg>
 		class mu<Arg, true, false> {
 		private:
-- 
2.43.0


From 2154c8dff3d390a6f381f5745da8b6fd683d746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:53 +0000
Subject: [PATCH 256/277] fix: is_convert_constructible was ill-formed where
 the conversion is deleted

---
 sprout/type_traits/is_convert_constructible.hpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/sprout/type_traits/is_convert_constructible.hpp b/sprout/type_traits/is_convert_constructible.hpp
index 220d90d..bfd3b6a 100644
--- a/sprout/type_traits/is_convert_constructible.hpp
+++ b/sprout/type_traits/is_convert_constructible.hpp
@@ -8,26 +8,17 @@
 #ifndef SPROUT_TYPE_TRAITS_IS_CONVERT_CONSTRUCTIBLE_HPP
 #define SPROUT_TYPE_TRAITS_IS_CONVERT_CONSTRUCTIBLE_HPP
 
-#include <utility>
+#include <type_traits>
 #include <sprout/config.hpp>
-#include <sprout/type_traits/identity.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
 
 namespace sprout {
 	//
 	// is_convert_constructible
 	//
-	namespace detail {
-		template<typename T>
-		struct is_convert_constructible_test {
-		public:
-			static sprout::true_type test(T);
-			static sprout::false_type test(...);
-		};
-	}	// namespace detail
 	template<typename T, typename Arg>
 	struct is_convert_constructible
-		: public sprout::identity<decltype(sprout::detail::is_convert_constructible_test<T>::test(std::declval<Arg>()))>::type
+		: public sprout::bool_constant<std::is_convertible<Arg, T>::value>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
-- 
2.43.0


From 995adec96c2d69e95b703d760d5333da66a58d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:52 +0000
Subject: [PATCH 257/277] fix: one_of of type lists accepted several matches in
 the first half

---
 sprout/tpp/algorithm/one_of.hpp       |  3 ++-
 sprout/type/algorithm/one_of.hpp      | 12 ++++++++----
 sprout/type/algorithm/one_of_same.hpp | 12 ++++++++----
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/sprout/tpp/algorithm/one_of.hpp b/sprout/tpp/algorithm/one_of.hpp
index dfd54e4..48df0f9 100644
--- a/sprout/tpp/algorithm/one_of.hpp
+++ b/sprout/tpp/algorithm/one_of.hpp
@@ -38,7 +38,8 @@ namespace sprout {
 				: public sprout::bool_constant<
 					sprout::tpp::detail::one_of_impl<Tup, First, (First + Last) / 2>::value
 						? sprout::tpp::detail::one_of_impl_1<Tup, (First + Last) / 2, Last>::value
-						: sprout::tpp::detail::one_of_impl<Tup, (First + Last) / 2, Last>::value
+						: (sprout::tpp::detail::one_of_impl_1<Tup, First, (First + Last) / 2>::value
+							&& sprout::tpp::detail::one_of_impl<Tup, (First + Last) / 2, Last>::value)
 				>
 			{};
 		}	// namespace detail
diff --git a/sprout/type/algorithm/one_of.hpp b/sprout/type/algorithm/one_of.hpp
index 6f1ba25..90d2126 100644
--- a/sprout/type/algorithm/one_of.hpp
+++ b/sprout/type/algorithm/one_of.hpp
@@ -77,10 +77,14 @@ namespace sprout {
 						Tuple, Predicate, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
-					: sprout::types::detail::one_of_impl<
-						Tuple, Predicate, First + Pivot, Last,
-						(Last - First - Pivot) / 2
+					: (sprout::types::detail::one_of_impl_1<
+						Tuple, Predicate, First, First + Pivot,
+						Pivot / 2
 					>::value
+						&& sprout::types::detail::one_of_impl<
+							Tuple, Predicate, First + Pivot, Last,
+							(Last - First - Pivot) / 2
+						>::value)
 				>
 			{};
 			template<typename Tuple, typename Predicate, std::size_t Size = sprout::types::tuple_size<Tuple>::value>
@@ -89,7 +93,7 @@ namespace sprout {
 			{};
 			template<typename Tuple, typename Predicate>
 			struct one_of<Tuple, Predicate, 0>
-				: public sprout::true_type
+				: public sprout::false_type
 			{};
 		}	// namespace detail
 		//
diff --git a/sprout/type/algorithm/one_of_same.hpp b/sprout/type/algorithm/one_of_same.hpp
index de23826..2411564 100644
--- a/sprout/type/algorithm/one_of_same.hpp
+++ b/sprout/type/algorithm/one_of_same.hpp
@@ -76,10 +76,14 @@ namespace sprout {
 						Tuple, T, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
-					: sprout::types::detail::one_of_same_impl<
-						Tuple, T, First + Pivot, Last,
-						(Last - First - Pivot) / 2
+					: (sprout::types::detail::one_of_same_impl_1<
+						Tuple, T, First, First + Pivot,
+						Pivot / 2
 					>::value
+						&& sprout::types::detail::one_of_same_impl<
+							Tuple, T, First + Pivot, Last,
+							(Last - First - Pivot) / 2
+						>::value)
 				>
 			{};
 			template<typename Tuple, typename T, std::size_t Size = sprout::types::tuple_size<Tuple>::value>
@@ -88,7 +92,7 @@ namespace sprout {
 			{};
 			template<typename Tuple, typename T>
 			struct one_of_same<Tuple, T, 0>
-				: public sprout::true_type
+				: public sprout::false_type
 			{};
 		}	// namespace detail
 		//
-- 
2.43.0


From 2a957266e1b327dee37df2ed8a1b454bc8c84517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:52 +0000
Subject: [PATCH 258/277] fix: integer_range had too few numbers where the
 distance is more than the signed type holds

---
 sprout/index_tuple/integer_range.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sprout/index_tuple/integer_range.hpp b/sprout/index_tuple/integer_range.hpp
index d264c18..3737249 100644
--- a/sprout/index_tuple/integer_range.hpp
+++ b/sprout/index_tuple/integer_range.hpp
@@ -73,6 +73,22 @@ namespace sprout {
 				N / 2 * Step, First + (N - 1) * Step
 			>
 		{};
+		template<typename T, T First, T Last, typename std::make_signed<T>::type Step>
+		struct integer_range_size {
+		private:
+			typedef typename std::make_unsigned<T>::type size_type;
+			SPROUT_STATIC_CONSTEXPR size_type distance = static_cast<size_type>(Step > 0
+				? static_cast<size_type>(Last) - static_cast<size_type>(First)
+				: static_cast<size_type>(First) - static_cast<size_type>(Last)
+				);
+			SPROUT_STATIC_CONSTEXPR size_type width = static_cast<size_type>(Step > 0
+				? static_cast<size_type>(Step)
+				: size_type(0) - static_cast<size_type>(Step)
+				);
+		public:
+			SPROUT_STATIC_CONSTEXPR size_type value = static_cast<size_type>(distance / width + (distance % width != 0 ? 1 : 0));
+		};
+
 		template<typename T, T First, T Last, typename std::make_signed<T>::type Step, typename Enable = void>
 		struct integer_range_impl {};
 		template<typename T, T First, T Last, typename std::make_signed<T>::type Step>
@@ -82,7 +98,7 @@ namespace sprout {
 		>
 			: public sprout::detail::integer_range_dispatch<
 				T, First, Step,
-				(static_cast<typename std::make_signed<T>::type>(Last - First) + (Step > 0 ? Step - 1 : Step + 1)) / Step
+				sprout::detail::integer_range_size<T, First, Last, Step>::value
 			>
 		{};
 
-- 
2.43.0


From cd201e6f0c37479b005373cd427250288195149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:23 +0000
Subject: [PATCH 259/277] fix: is_copy_assignable and is_move_assignable asked
 for assignment to an rvalue

---
 sprout/type_traits/is_copy_assignable.hpp           | 2 +-
 sprout/type_traits/is_move_assignable.hpp           | 2 +-
 sprout/type_traits/is_nothrow_copy_assignable.hpp   | 2 +-
 sprout/type_traits/is_nothrow_move_assignable.hpp   | 2 +-
 sprout/type_traits/is_trivially_copy_assignable.hpp | 2 +-
 sprout/type_traits/is_trivially_move_assignable.hpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/type_traits/is_copy_assignable.hpp b/sprout/type_traits/is_copy_assignable.hpp
index c876454..7d9bc4a 100644
--- a/sprout/type_traits/is_copy_assignable.hpp
+++ b/sprout/type_traits/is_copy_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_copy_assignable_impl<T, false>
-			: public sprout::is_assignable<T, T const&>
+			: public sprout::is_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<T const>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_move_assignable.hpp b/sprout/type_traits/is_move_assignable.hpp
index 8d1321d..563a114 100644
--- a/sprout/type_traits/is_move_assignable.hpp
+++ b/sprout/type_traits/is_move_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_move_assignable_impl<T, false>
-			: public sprout::is_assignable<T, T&&>
+			: public sprout::is_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_copy_assignable.hpp b/sprout/type_traits/is_nothrow_copy_assignable.hpp
index a40ab85..60c0b57 100644
--- a/sprout/type_traits/is_nothrow_copy_assignable.hpp
+++ b/sprout/type_traits/is_nothrow_copy_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_copy_assignable_impl<T, false>
-			: public sprout::is_nothrow_assignable<T, T const&>
+			: public sprout::is_nothrow_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<T const>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_move_assignable.hpp b/sprout/type_traits/is_nothrow_move_assignable.hpp
index e189f6c..fe0416b 100644
--- a/sprout/type_traits/is_nothrow_move_assignable.hpp
+++ b/sprout/type_traits/is_nothrow_move_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_move_assignable_impl<T, false>
-			: public sprout::is_nothrow_assignable<T, T&&>
+			: public sprout::is_nothrow_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_trivially_copy_assignable.hpp b/sprout/type_traits/is_trivially_copy_assignable.hpp
index 318767e..f687dc7 100644
--- a/sprout/type_traits/is_trivially_copy_assignable.hpp
+++ b/sprout/type_traits/is_trivially_copy_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_copy_assignable_impl<T, false>
-			: public sprout::is_trivially_assignable<T, T const&>
+			: public sprout::is_trivially_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<T const>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_trivially_move_assignable.hpp b/sprout/type_traits/is_trivially_move_assignable.hpp
index d3917e5..f607b83 100644
--- a/sprout/type_traits/is_trivially_move_assignable.hpp
+++ b/sprout/type_traits/is_trivially_move_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_move_assignable_impl<T, false>
-			: public sprout::is_trivially_assignable<T, T&&>
+			: public sprout::is_trivially_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
-- 
2.43.0


From 3536ba0b09ec1fa58482720729f6d82563e40b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:23 +0000
Subject: [PATCH 260/277] fix: constructible and swappable traits were
 ill-formed for types that have no references

---
 sprout/type_traits/is_copy_constructible.hpp           | 2 +-
 sprout/type_traits/is_move_constructible.hpp           | 2 +-
 sprout/type_traits/is_nothrow_copy_constructible.hpp   | 2 +-
 sprout/type_traits/is_nothrow_move_constructible.hpp   | 2 +-
 sprout/type_traits/is_nothrow_swappable.hpp            | 3 ++-
 sprout/type_traits/is_swappable.hpp                    | 3 ++-
 sprout/type_traits/is_trivially_copy_constructible.hpp | 2 +-
 sprout/type_traits/is_trivially_move_constructible.hpp | 2 +-
 8 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/sprout/type_traits/is_copy_constructible.hpp b/sprout/type_traits/is_copy_constructible.hpp
index f347a9f..ffd5305 100644
--- a/sprout/type_traits/is_copy_constructible.hpp
+++ b/sprout/type_traits/is_copy_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_copy_constructible_impl<T, false>
-			: public sprout::is_constructible<T, T const&>
+			: public sprout::is_constructible<T, typename std::add_lvalue_reference<T const>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_move_constructible.hpp b/sprout/type_traits/is_move_constructible.hpp
index 4f7c4a7..8a93940 100644
--- a/sprout/type_traits/is_move_constructible.hpp
+++ b/sprout/type_traits/is_move_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_move_constructible_impl<T, false>
-			: public sprout::is_constructible<T, T&&>
+			: public sprout::is_constructible<T, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_copy_constructible.hpp b/sprout/type_traits/is_nothrow_copy_constructible.hpp
index 7fa3561..2200171 100644
--- a/sprout/type_traits/is_nothrow_copy_constructible.hpp
+++ b/sprout/type_traits/is_nothrow_copy_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_copy_constructible_impl<T, false>
-			: public sprout::is_nothrow_constructible<T, T const&>
+			: public sprout::is_nothrow_constructible<T, typename std::add_lvalue_reference<T const>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_move_constructible.hpp b/sprout/type_traits/is_nothrow_move_constructible.hpp
index 6226c9c..236bc19 100644
--- a/sprout/type_traits/is_nothrow_move_constructible.hpp
+++ b/sprout/type_traits/is_nothrow_move_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_move_constructible_impl<T, false>
-			: public sprout::is_nothrow_constructible<T, T&&>
+			: public sprout::is_nothrow_constructible<T, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_swappable.hpp b/sprout/type_traits/is_nothrow_swappable.hpp
index d941cf5..8deb507 100644
--- a/sprout/type_traits/is_nothrow_swappable.hpp
+++ b/sprout/type_traits/is_nothrow_swappable.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_TYPE_TRAITS_IS_NOTHROW_SWAPPABLE_HPP
 #define SPROUT_TYPE_TRAITS_IS_NOTHROW_SWAPPABLE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/type_traits/is_nothrow_swappable_with.hpp>
 
@@ -17,7 +18,7 @@ namespace sprout {
 	//
 	template<typename T>
 	struct is_nothrow_swappable
-		: public sprout::is_nothrow_swappable_with<T&, T&>
+		: public sprout::is_nothrow_swappable_with<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<T>::type>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
diff --git a/sprout/type_traits/is_swappable.hpp b/sprout/type_traits/is_swappable.hpp
index f3f1d93..ea5d958 100644
--- a/sprout/type_traits/is_swappable.hpp
+++ b/sprout/type_traits/is_swappable.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_TYPE_TRAITS_IS_SWAPPABLE_HPP
 #define SPROUT_TYPE_TRAITS_IS_SWAPPABLE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/type_traits/is_swappable_with.hpp>
 
@@ -17,7 +18,7 @@ namespace sprout {
 	//
 	template<typename T>
 	struct is_swappable
-		: public sprout::is_swappable_with<T&, T&>
+		: public sprout::is_swappable_with<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<T>::type>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
diff --git a/sprout/type_traits/is_trivially_copy_constructible.hpp b/sprout/type_traits/is_trivially_copy_constructible.hpp
index ab3d034..66dd74d 100644
--- a/sprout/type_traits/is_trivially_copy_constructible.hpp
+++ b/sprout/type_traits/is_trivially_copy_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_copy_constructible_impl<T, false>
-			: public sprout::is_trivially_constructible<T, T const&>
+			: public sprout::is_trivially_constructible<T, typename std::add_lvalue_reference<T const>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_trivially_move_constructible.hpp b/sprout/type_traits/is_trivially_move_constructible.hpp
index 11ff016..127e577 100644
--- a/sprout/type_traits/is_trivially_move_constructible.hpp
+++ b/sprout/type_traits/is_trivially_move_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_move_constructible_impl<T, false>
-			: public sprout::is_trivially_constructible<T, T&&>
+			: public sprout::is_trivially_constructible<T, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
-- 
2.43.0


From d2d1340398b5da24523e18bae702c036fa74d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:23 +0000
Subject: [PATCH 261/277] fix: copy_const copied volatile instead of const

---
 sprout/type_traits/copy_const.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/type_traits/copy_const.hpp b/sprout/type_traits/copy_const.hpp
index 2185ffc..cee1ef6 100644
--- a/sprout/type_traits/copy_const.hpp
+++ b/sprout/type_traits/copy_const.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 		: public sprout::identity<T>
 	{};
 	template<typename T, typename U>
-	struct copy_const<T, U volatile>
+	struct copy_const<T, U const>
 		: public std::add_const<T>
 	{};
 
-- 
2.43.0


From 4e5ee49398d5c48521f5b3d87c756a6d3d8aab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:23 +0000
Subject: [PATCH 262/277] fix: is_const_unqualified and is_volatile_unqualified
 were inverted

---
 sprout/type_traits/is_const_unqualified.hpp    | 2 +-
 sprout/type_traits/is_volatile_unqualified.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/is_const_unqualified.hpp b/sprout/type_traits/is_const_unqualified.hpp
index 682728d..b457e4c 100644
--- a/sprout/type_traits/is_const_unqualified.hpp
+++ b/sprout/type_traits/is_const_unqualified.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 	template<typename T>
 	struct is_const_unqualified
 		: public sprout::bool_constant<
-			std::is_const<T>::value
+			!std::is_const<T>::value
 		>
 	{};
 
diff --git a/sprout/type_traits/is_volatile_unqualified.hpp b/sprout/type_traits/is_volatile_unqualified.hpp
index 78623e7..f350b10 100644
--- a/sprout/type_traits/is_volatile_unqualified.hpp
+++ b/sprout/type_traits/is_volatile_unqualified.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 	template<typename T>
 	struct is_volatile_unqualified
 		: public sprout::bool_constant<
-			std::is_volatile<T>::value
+			!std::is_volatile<T>::value
 		>
 	{};
 
-- 
2.43.0


From 79b1bc8c596c3e1bfe2cd4d01ba39fbd35f03bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:34 +0000
Subject: [PATCH 263/277] fix: is_aggregate denied that an array is one
 whatever its elements are

---
 sprout/type_traits/is_aggregate.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sprout/type_traits/is_aggregate.hpp b/sprout/type_traits/is_aggregate.hpp
index eb0e600..b898bc6 100644
--- a/sprout/type_traits/is_aggregate.hpp
+++ b/sprout/type_traits/is_aggregate.hpp
@@ -12,7 +12,6 @@
 #include <sprout/detail/predef.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
 #include <sprout/type_traits/remove_cv.hpp>
-#include <sprout/type_traits/remove_all_extents.hpp>
 
 namespace sprout {
 	//
@@ -22,7 +21,7 @@ namespace sprout {
 	template<typename T>
 	struct is_aggregate
 		: public sprout::bool_constant<
-			__is_aggregate(typename sprout::remove_cv<typename sprout::remove_all_extents<T>::type>::type)
+			__is_aggregate(typename sprout::remove_cv<T>::type)
 		>
 	{};
 #else	// #if SPROUT_CLANG_HAS_FUTURE(is_aggregate) || SPROUT_GCC_OR_LATER(7, 0, 0)
-- 
2.43.0


From 9607209a8a40e0ab918a280e9e89d3b8d9f7c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:34 +0000
Subject: [PATCH 264/277] fix: traits of trivial operations denied class types
 on compilers that can answer

---
 sprout/type_traits/is_trivially_assignable.hpp            | 6 +++---
 sprout/type_traits/is_trivially_constructible.hpp         | 6 +++---
 sprout/type_traits/is_trivially_copyable.hpp              | 3 ++-
 sprout/type_traits/is_trivially_default_constructible.hpp | 7 ++++---
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/sprout/type_traits/is_trivially_assignable.hpp b/sprout/type_traits/is_trivially_assignable.hpp
index 39b04fc..b891153 100644
--- a/sprout/type_traits/is_trivially_assignable.hpp
+++ b/sprout/type_traits/is_trivially_assignable.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 	//
 	// is_trivially_assignable
 	//
-#if !defined(_LIBCPP_VERSION)
+#if !defined(_LIBCPP_VERSION) && SPROUT_GCC_EARLIER(5, 0, 0)
 #if SPROUT_CLANG_HAS_FUTURE(is_trivially_assignable)
 	template<typename T, typename U>
 	struct is_trivially_assignable
@@ -51,12 +51,12 @@ namespace sprout {
 		: public sprout::is_scalar<T>
 	{};
 #endif	// #if SPROUT_CLANG_HAS_FUTURE(is_trivially_assignable)
-#else	// #if !defined(_LIBCPP_VERSION)
+#else	// #if !defined(_LIBCPP_VERSION) && SPROUT_GCC_EARLIER(5, 0, 0)
 	template<typename T, typename U>
 	struct is_trivially_assignable
 		: public sprout::detail::type_traits_wrapper<std::is_trivially_assignable<T, U> >
 	{};
-#endif	// #if !defined(_LIBCPP_VERSION)
+#endif	// #if !defined(_LIBCPP_VERSION) && SPROUT_GCC_EARLIER(5, 0, 0)
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U>
diff --git a/sprout/type_traits/is_trivially_constructible.hpp b/sprout/type_traits/is_trivially_constructible.hpp
index 5c36d93..2b250c7 100644
--- a/sprout/type_traits/is_trivially_constructible.hpp
+++ b/sprout/type_traits/is_trivially_constructible.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 	//
 	// is_trivially_constructible
 	//
-#if !defined(_LIBCPP_VERSION)
+#if !defined(_LIBCPP_VERSION) && SPROUT_GCC_EARLIER(5, 0, 0)
 #if SPROUT_CLANG_HAS_FUTURE(is_trivially_constructible)
 	template<typename T, typename... Args>
 	struct is_trivially_constructible
@@ -58,12 +58,12 @@ namespace sprout {
 		: public sprout::is_scalar<T>
 	{};
 #endif	// #if SPROUT_CLANG_HAS_FUTURE(is_trivially_constructible)
-#else	// #if !defined(_LIBCPP_VERSION)
+#else	// #if !defined(_LIBCPP_VERSION) && SPROUT_GCC_EARLIER(5, 0, 0)
 	template<typename T, typename... Args>
 	struct is_trivially_constructible
 		: public sprout::detail::type_traits_wrapper<std::is_trivially_constructible<T, Args...> >
 	{};
-#endif	// #if !defined(_LIBCPP_VERSION)
+#endif	// #if !defined(_LIBCPP_VERSION) && SPROUT_GCC_EARLIER(5, 0, 0)
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename... Args>
diff --git a/sprout/type_traits/is_trivially_copyable.hpp b/sprout/type_traits/is_trivially_copyable.hpp
index faaf39f..cafaab9 100644
--- a/sprout/type_traits/is_trivially_copyable.hpp
+++ b/sprout/type_traits/is_trivially_copyable.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/detail/predef.hpp>
 #include <sprout/type_traits/is_scalar.hpp>
 #include <sprout/type_traits/detail/type_traits_wrapper.hpp>
 
@@ -17,7 +18,7 @@ namespace sprout {
 	//
 	// is_trivially_copyable
 	//
-#if !defined(_LIBCPP_VERSION)
+#if !defined(_LIBCPP_VERSION) && SPROUT_GCC_EARLIER(5, 0, 0)
 	template<typename T>
 	struct is_trivially_copyable
 		: public sprout::is_scalar<typename std::remove_all_extents<T>::type>
diff --git a/sprout/type_traits/is_trivially_default_constructible.hpp b/sprout/type_traits/is_trivially_default_constructible.hpp
index f3c1423..b401672 100644
--- a/sprout/type_traits/is_trivially_default_constructible.hpp
+++ b/sprout/type_traits/is_trivially_default_constructible.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/detail/predef.hpp>
 #include <sprout/type_traits/is_trivially_constructible.hpp>
 #include <sprout/type_traits/detail/type_traits_wrapper.hpp>
 
@@ -17,17 +18,17 @@ namespace sprout {
 	//
 	// is_trivially_default_constructible
 	//
-#if !defined(_LIBCPP_VERSION)
+#if !defined(_LIBCPP_VERSION) && SPROUT_GCC_EARLIER(5, 0, 0)
 	template<typename T>
 	struct is_trivially_default_constructible
 		: public sprout::is_trivially_constructible<T>
 	{};
-#else	// #if !defined(_LIBCPP_VERSION)
+#else	// #if !defined(_LIBCPP_VERSION) && SPROUT_GCC_EARLIER(5, 0, 0)
 	template<typename T>
 	struct is_trivially_default_constructible
 		: public sprout::detail::type_traits_wrapper<std::is_trivially_default_constructible<T> >
 	{};
-#endif	// #if !defined(_LIBCPP_VERSION)
+#endif	// #if !defined(_LIBCPP_VERSION) && SPROUT_GCC_EARLIER(5, 0, 0)
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T>
-- 
2.43.0


From 9614bac8f759bea72d56dd424454501a633147a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:58 +0000
Subject: [PATCH 265/277] fix: common_type was ill-formed instead of without a
 type where there is none

---
 sprout/type_traits/common_type.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sprout/type_traits/common_type.hpp b/sprout/type_traits/common_type.hpp
index 24fec8f..e39c43a 100644
--- a/sprout/type_traits/common_type.hpp
+++ b/sprout/type_traits/common_type.hpp
@@ -21,10 +21,6 @@ namespace sprout {
 	// undecayed_common_type
 	//
 	namespace detail {
-		template<typename T1, typename T2>
-		struct undecayed_common_type2
-			: public sprout::identity<decltype(std::declval<bool>() ? std::declval<T1>() : std::declval<T2>())>
-		{};
 		template<typename Void, typename... Types>
 		struct undecayed_common_type_impl
 			: public sprout::detail::nil_base
@@ -34,8 +30,13 @@ namespace sprout {
 			: public sprout::identity<T>
 		{};
 		template<typename T1, typename T2, typename... Tail>
-		struct undecayed_common_type_impl<typename sprout::head_element<void, typename sprout::detail::undecayed_common_type2<T1, T2>::type>::type, T1, T2, Tail...>
-			: public sprout::detail::undecayed_common_type_impl<void, typename sprout::detail::undecayed_common_type2<T1, T2>::type, Tail...>
+		struct undecayed_common_type_impl<
+			typename sprout::head_element<void, decltype(std::declval<bool>() ? std::declval<T1>() : std::declval<T2>())>::type,
+			T1, T2, Tail...
+		>
+			: public sprout::detail::undecayed_common_type_impl<
+				void, decltype(std::declval<bool>() ? std::declval<T1>() : std::declval<T2>()), Tail...
+			>
 		{};
 	}	// namespace detail
 	template<typename... Types>
-- 
2.43.0


From 29890945e2a2497b8ff6337f5e3eba3929c3fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:00 +0000
Subject: [PATCH 266/277] fix: set_union and set_symmetric_difference into an
 iterator could not be evaluated at compile time

---
 sprout/algorithm/cxx14/set_symmetric_difference.hpp | 4 ++--
 sprout/algorithm/cxx14/set_union.hpp                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/algorithm/cxx14/set_symmetric_difference.hpp b/sprout/algorithm/cxx14/set_symmetric_difference.hpp
index 9ceaf07..f74921c 100644
--- a/sprout/algorithm/cxx14/set_symmetric_difference.hpp
+++ b/sprout/algorithm/cxx14/set_symmetric_difference.hpp
@@ -26,10 +26,10 @@ namespace sprout {
 	set_symmetric_difference(InputIterator1 first1, InputIterator1 last1, InputIterator2 first2, InputIterator2 last2, OutputIterator result, Compare comp) {
 		while (true) {
 			if (first1 == last1) {
-				return std::copy(first2, last2, result);
+				return sprout::copy(first2, last2, result);
 			}
 			if (first2 == last2) {
-				return std::copy(first1, last1, result);
+				return sprout::copy(first1, last1, result);
 			}
 			if (comp(*first1, *first2)) {
 				*result = *first1;
diff --git a/sprout/algorithm/cxx14/set_union.hpp b/sprout/algorithm/cxx14/set_union.hpp
index 10bf241..6bb59e1 100644
--- a/sprout/algorithm/cxx14/set_union.hpp
+++ b/sprout/algorithm/cxx14/set_union.hpp
@@ -26,10 +26,10 @@ namespace sprout {
 	set_union(InputIterator1 first1, InputIterator1 last1, InputIterator2 first2, InputIterator2 last2, OutputIterator result, Compare comp) {
 		while (true) {
 			if (first1 == last1) {
-				return std::copy(first2, last2, result);
+				return sprout::copy(first2, last2, result);
 			}
 			if (first2 == last2) {
-				return std::copy(first1, last1, result);
+				return sprout::copy(first1, last1, result);
 			}
 			if (comp(*first1, *first2)) {
 				*result = *first1;
-- 
2.43.0


From ca8ddd1b8abcb0ad109f3ea29ed11eb345193ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:29 +0000
Subject: [PATCH 267/277] fix: bitset of several words made of a number shifted
 it by its whole width

---
 sprout/bitset/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 23d10c2..ba005c5 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -230,7 +230,7 @@ namespace sprout {
 			{}
 			base_bitset(base_bitset<N> const&) = default;
 			SPROUT_CONSTEXPR base_bitset(unsigned long long val) SPROUT_NOEXCEPT
-				: w_{word_type(val), word_type(val >> (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value))}
+				: w_{word_type(val), word_type((val >> (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value - 1)) >> 1)}
 			{}
 			template<typename... Words>
 			SPROUT_CONSTEXPR base_bitset(sprout::detail::base_bitset_from_words_construct_tag, Words... words)
-- 
2.43.0


From 85e21b1ce9f2d604d56e31dc3252ffe3344d6183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:11 +0000
Subject: [PATCH 268/277] fix: sub, csub and sub_copy of a whole container were
 ambiguous calls

---
 sprout/sub_array/sub.hpp | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/sprout/sub_array/sub.hpp b/sprout/sub_array/sub.hpp
index a5783df..8097910 100644
--- a/sprout/sub_array/sub.hpp
+++ b/sprout/sub_array/sub.hpp
@@ -137,12 +137,6 @@ namespace sprout {
 		return sprout::sub_window(arr, to_first);
 	}
 
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container&> >::type
-	sub(Container& arr) {
-		return sprout::sub(arr, sprout::begin(arr), sprout::end(arr));
-	}
-
 	//
 	// csub
 	//
@@ -224,12 +218,6 @@ namespace sprout {
 		return sprout::csub_window(arr, to_first);
 	}
 
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container const&> >::type
-	csub(Container const& arr) {
-		return sprout::csub(arr, sprout::begin(arr), sprout::end(arr));
-	}
-
 	//
 	// sub_copy
 	//
@@ -310,12 +298,6 @@ namespace sprout {
 	{
 		return sprout::sub_window_copy(arr, to_first);
 	}
-
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container> >::type
-	sub_copy(Container const& arr) {
-		return sprout::sub_copy(arr, sprout::begin(arr), sprout::end(arr));
-	}
 }	// namespace sprout
 
 #endif	// #ifndef SPROUT_SUB_ARRAY_SUB_HPP
-- 
2.43.0


From d2573e5ffff2395db1e225fece36a5816a957340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:14 +0000
Subject: [PATCH 269/277] fix: a forward_clist built from items kept the tail
 of the last one

---
 sprout/forward_clist.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index cb3d6bd..d85f65d 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -331,6 +331,7 @@ namespace sprout {
 				*p = *first;
 				p = sprout::addressof((*p)->next);
 			}
+			*p = item_holder_type();
 		}
 		SPROUT_CXX14_CONSTEXPR forward_clist(forward_clist&& x)
 			: fst()
-- 
2.43.0


From 52f7c68a900aeb6ce8033b004645c073dedf0614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:21 +0000
Subject: [PATCH 270/277] fix: converting an iterator adaptor to one over other
 iterators reached into protected members

---
 sprout/iterator/adjacent_filter_iterator.hpp |  6 +++---
 sprout/iterator/clamp_iterator.hpp           |  2 +-
 sprout/iterator/counting_iterator.hpp        |  2 +-
 sprout/iterator/filter_iterator.hpp          |  6 +++---
 sprout/iterator/size_enum_iterator.hpp       |  8 ++++----
 sprout/iterator/transform_iterator.hpp       | 10 +++++-----
 sprout/iterator/while_iterator.hpp           |  6 +++---
 7 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/sprout/iterator/adjacent_filter_iterator.hpp b/sprout/iterator/adjacent_filter_iterator.hpp
index 51f88d8..f1a22df 100644
--- a/sprout/iterator/adjacent_filter_iterator.hpp
+++ b/sprout/iterator/adjacent_filter_iterator.hpp
@@ -82,9 +82,9 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR adjacent_filter_iterator(adjacent_filter_iterator<Predicate, U> const& it)
-			: current(it.current)
-			, last(it.last)
-			, pred(it.pred)
+			: current(it.base())
+			, last(it.end())
+			, pred(it.predicate())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR adjacent_filter_iterator& operator=(adjacent_filter_iterator<Predicate, U> const& it) {
diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 9ae9b9d..2207b2f 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -59,7 +59,7 @@ namespace sprout {
 		{}
 		template<typename U, typename V>
 		SPROUT_CONSTEXPR clamp_iterator(clamp_iterator<U, V> const& it)
-			: current(it.current), comp(it.comp), low(it.low), up(it.up)
+			: current(it.base()), comp(it.compare()), low(it.lower()), up(it.upper())
 		{}
 		template<typename U, typename V>
 		SPROUT_CXX14_CONSTEXPR clamp_iterator& operator=(clamp_iterator<U, V> const& it) {
diff --git a/sprout/iterator/counting_iterator.hpp b/sprout/iterator/counting_iterator.hpp
index c42c93c..1c6439c 100644
--- a/sprout/iterator/counting_iterator.hpp
+++ b/sprout/iterator/counting_iterator.hpp
@@ -63,7 +63,7 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR counting_iterator(counting_iterator<U> const& it)
-			: current_(it.current_)
+			: current_(*it)
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR counting_iterator& operator=(counting_iterator<U> const& it) {
diff --git a/sprout/iterator/filter_iterator.hpp b/sprout/iterator/filter_iterator.hpp
index 2a8c9ac..01a28c7 100644
--- a/sprout/iterator/filter_iterator.hpp
+++ b/sprout/iterator/filter_iterator.hpp
@@ -88,9 +88,9 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR filter_iterator(filter_iterator<Predicate, U> const& it)
-			: current(it.current)
-			, last(it.last)
-			, pred(it.pred)
+			: current(it.base())
+			, last(it.end())
+			, pred(it.predicate())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR filter_iterator& operator=(filter_iterator<Predicate, U> const& it) {
diff --git a/sprout/iterator/size_enum_iterator.hpp b/sprout/iterator/size_enum_iterator.hpp
index 8702fdf..f8d98e3 100644
--- a/sprout/iterator/size_enum_iterator.hpp
+++ b/sprout/iterator/size_enum_iterator.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR size_enum_iterator(size_enum_iterator<U> const& it)
-			: current(it.current)
+			: current(it.base())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator=(size_enum_iterator<U> const& it) {
@@ -178,9 +178,9 @@ namespace sprout {
 		{}
 		template<typename U, bool V>
 		SPROUT_CONSTEXPR size_enum_iterator(size_enum_iterator<U, V> const& it)
-			: current(it.current)
-			, sep_size(it.sep_size)
-			, is_sep(it.is_sep)
+			: current(it.base())
+			, sep_size(it.separator_size())
+			, is_sep(it.is_separator())
 		{}
 		template<typename U, bool V>
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator=(size_enum_iterator<U, V> const& it) {
diff --git a/sprout/iterator/transform_iterator.hpp b/sprout/iterator/transform_iterator.hpp
index 5393cd6..43c3647 100644
--- a/sprout/iterator/transform_iterator.hpp
+++ b/sprout/iterator/transform_iterator.hpp
@@ -87,9 +87,9 @@ namespace sprout {
 		{}
 		template<typename U, typename V, typename W>
 		SPROUT_CONSTEXPR transform_iterator(transform_iterator<U, V, W> const& it)
-			: current(it.current)
-			, current2(it.current2)
-			, func(it.func)
+			: current(it.base())
+			, current2(it.base2())
+			, func(it.functor())
 		{}
 		template<typename U, typename V, typename W>
 		SPROUT_CXX14_CONSTEXPR transform_iterator& operator=(transform_iterator<U, V, W> const& it) {
@@ -222,8 +222,8 @@ namespace sprout {
 		{}
 		template<typename U, typename V>
 		SPROUT_CONSTEXPR transform_iterator(transform_iterator<U, V> const& it)
-			: current(it.current)
-			, func(it.func)
+			: current(it.base())
+			, func(it.functor())
 		{}
 		template<typename U, typename V>
 		SPROUT_CXX14_CONSTEXPR transform_iterator& operator=(transform_iterator<U, V> const& it) {
diff --git a/sprout/iterator/while_iterator.hpp b/sprout/iterator/while_iterator.hpp
index c8834c1..ce185b9 100644
--- a/sprout/iterator/while_iterator.hpp
+++ b/sprout/iterator/while_iterator.hpp
@@ -94,9 +94,9 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR while_iterator(while_iterator<Predicate, U> const& it)
-			: current(it.current)
-			, last(it.last)
-			, pred(it.pred)
+			: current(it.base())
+			, last(it.end())
+			, pred(it.predicate())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR while_iterator& operator=(while_iterator<Predicate, U> const& it) {
-- 
2.43.0


From 5afd9c33703d4e9716ba5a4c006323b23dfb579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:21 +0000
Subject: [PATCH 271/277] fix: counting_iterator::operator-> did not compile

---
 sprout/iterator/counting_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/counting_iterator.hpp b/sprout/iterator/counting_iterator.hpp
index 1c6439c..1746cbe 100644
--- a/sprout/iterator/counting_iterator.hpp
+++ b/sprout/iterator/counting_iterator.hpp
@@ -38,7 +38,7 @@ namespace sprout {
 		typedef std::random_access_iterator_tag iterator_category;
 		typedef Incrementable value_type;
 		typedef std::ptrdiff_t difference_type;
-		typedef value_type* pointer;
+		typedef value_type const* pointer;
 		typedef value_type reference;
 	private:
 		template<typename T, typename sprout::enabler_if<std::is_integral<T>::value>::type = sprout::enabler>
-- 
2.43.0


From 3ecbc94cfd2ff036fb8e40f8c233eb791bfd479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:10 +0000
Subject: [PATCH 272/277] fix: move_iterator over const or by-value iterators
 bound a reference of the wrong kind

---
 sprout/iterator/move_iterator.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sprout/iterator/move_iterator.hpp b/sprout/iterator/move_iterator.hpp
index 9df2cc5..6226f8d 100644
--- a/sprout/iterator/move_iterator.hpp
+++ b/sprout/iterator/move_iterator.hpp
@@ -8,6 +8,8 @@
 #ifndef SPROUT_ITERATOR_MOVE_ITERATOR_HPP
 #define SPROUT_ITERATOR_MOVE_ITERATOR_HPP
 
+#include <iterator>
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/iterator/next.hpp>
 #include <sprout/iterator/prev.hpp>
@@ -19,6 +21,16 @@
 #include <sprout/type_traits/enabler_if.hpp>
 
 namespace sprout {
+	namespace detail {
+		template<typename Iterator>
+		struct move_iterator_reference
+			: public std::conditional<
+				std::is_reference<typename std::iterator_traits<Iterator>::reference>::value,
+				typename std::remove_reference<typename std::iterator_traits<Iterator>::reference>::type&&,
+				typename std::iterator_traits<Iterator>::reference
+			>
+		{};
+	}	// namespace detail
 	//
 	// move_iterator
 	//
@@ -30,7 +42,7 @@ namespace sprout {
 			sprout::use_default,
 			sprout::use_default,
 			Iterator,
-			typename iterator_traits<Iterator>::value_type&&
+			typename sprout::detail::move_iterator_reference<Iterator>::type
 		>::type
 	{
 	private:
@@ -40,7 +52,7 @@ namespace sprout {
 			sprout::use_default,
 			sprout::use_default,
 			Iterator,
-			typename iterator_traits<Iterator>::value_type&&
+			typename sprout::detail::move_iterator_reference<Iterator>::type
 		>::type base_type;
 	public:
 		typedef Iterator iterator_type;
@@ -73,7 +85,7 @@ namespace sprout {
 			return current;
 		}
 		SPROUT_CONSTEXPR reference operator*() const {
-			return sprout::move(*current);
+			return static_cast<reference>(*current);
 		}
 		SPROUT_CONSTEXPR pointer operator->() const {
 			return current;
@@ -113,7 +125,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR reference operator[](difference_type n) const {
-			return sprout::move(current[n]);
+			return static_cast<reference>(current[n]);
 		}
 		SPROUT_CONSTEXPR move_iterator next() const {
 			return move_iterator(sprout::next(current));
-- 
2.43.0


From e55f6bc1d7108908efaff552c56ec8bb548cac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:33 +0000
Subject: [PATCH 273/277] fix: *it++ = value through an insert_iterator left
 the position of the iterator behind

---
 sprout/iterator/insert_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/insert_iterator.hpp b/sprout/iterator/insert_iterator.hpp
index 8d86737..09cdf25 100644
--- a/sprout/iterator/insert_iterator.hpp
+++ b/sprout/iterator/insert_iterator.hpp
@@ -82,7 +82,7 @@ namespace sprout {
 		SPROUT_CXX14_CONSTEXPR insert_iterator& operator++() {
 			return *this;
 		}
-		SPROUT_CXX14_CONSTEXPR insert_iterator operator++(int) {
+		SPROUT_CXX14_CONSTEXPR insert_iterator& operator++(int) {
 			return *this;
 		}
 
-- 
2.43.0


From ff5bd88ee43e73f192a5a67ab09723ff6811e237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:30 +0000
Subject: [PATCH 274/277] fix: darkroom::coords::cross computed the wrong
 second component

---
 sprout/darkroom/coords/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/darkroom/coords/vector.hpp b/sprout/darkroom/coords/vector.hpp
index c774343..1b3101f 100644
--- a/sprout/darkroom/coords/vector.hpp
+++ b/sprout/darkroom/coords/vector.hpp
@@ -163,8 +163,8 @@ namespace sprout {
 					sprout::darkroom::coords::y(lhs) * sprout::darkroom::coords::z(rhs)
 						- sprout::darkroom::coords::z(lhs) * sprout::darkroom::coords::y(rhs)
 						,
-					sprout::darkroom::coords::y(lhs) * sprout::darkroom::coords::x(rhs)
-						- sprout::darkroom::coords::x(lhs) * sprout::darkroom::coords::y(rhs)
+					sprout::darkroom::coords::z(lhs) * sprout::darkroom::coords::x(rhs)
+						- sprout::darkroom::coords::x(lhs) * sprout::darkroom::coords::z(rhs)
 						,
 					sprout::darkroom::coords::x(lhs) * sprout::darkroom::coords::y(rhs)
 						- sprout::darkroom::coords::y(lhs) * sprout::darkroom::coords::x(rhs)
-- 
2.43.0


From a4bcd68754a1fceb07f8f4bcb2a90e3439be04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:30 +0000
Subject: [PATCH 275/277] fix: darkroom::colors::a did not compile for an
 lvalue

---
 sprout/darkroom/colors/rgb.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sprout/darkroom/colors/rgb.hpp b/sprout/darkroom/colors/rgb.hpp
index a89a9d6..a7d0b05 100644
--- a/sprout/darkroom/colors/rgb.hpp
+++ b/sprout/darkroom/colors/rgb.hpp
@@ -15,6 +15,7 @@
 #include <sprout/tuple/functions.hpp>
 #include <sprout/utility/forward.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
+#include <sprout/type_traits/remove_cvref.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 #include <sprout/darkroom/access/access.hpp>
 
@@ -26,7 +27,7 @@ namespace sprout {
 			//
 			template<typename T>
 			struct has_alpha
-				: public sprout::bool_constant<(sprout::darkroom::access::size<T>::value >= 4)>
+				: public sprout::bool_constant<(sprout::darkroom::access::size<typename sprout::remove_cvref<T>::type>::value >= 4)>
 			{};
 
 			//
@@ -77,11 +78,11 @@ namespace sprout {
 				typename T,
 				typename sprout::enabler_if<!sprout::darkroom::colors::has_alpha<T>::value>::type = sprout::enabler
 			>
-			inline SPROUT_CONSTEXPR typename sprout::darkroom::access::unit<T>::type
+			inline SPROUT_CONSTEXPR typename sprout::darkroom::access::unit<typename sprout::remove_cvref<T>::type>::type
 			a(T&&)
-			SPROUT_NOEXCEPT_IF_EXPR(typename sprout::darkroom::access::unit<T>::type())
+			SPROUT_NOEXCEPT_IF_EXPR(typename sprout::darkroom::access::unit<typename sprout::remove_cvref<T>::type>::type())
 			{
-				return typename sprout::darkroom::access::unit<T>::type();
+				return typename sprout::darkroom::access::unit<typename sprout::remove_cvref<T>::type>::type();
 			}
 
 			//
-- 
2.43.0


From 2976e47e26766ad82874b75caedaa007a3a304be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:20 +0000
Subject: [PATCH 276/277] fix: a tiled texture skipped a row or column at
 negative whole coordinates

---
 sprout/darkroom/materials/texture_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/darkroom/materials/texture_map.hpp b/sprout/darkroom/materials/texture_map.hpp
index 5b773f8..d735f94 100644
--- a/sprout/darkroom/materials/texture_map.hpp
+++ b/sprout/darkroom/materials/texture_map.hpp
@@ -77,11 +77,11 @@ namespace sprout {
 					return is_tile()
 						? texture_.get()(
 							x < 0
-								? texture_.get().width() - 1 - static_cast<std::size_t>(-x) % texture_.get().width()
+								? texture_.get().width() - 1 - static_cast<std::size_t>(-sprout::floor(x) - 1) % texture_.get().width()
 								: static_cast<std::size_t>(x) % texture_.get().width()
 								,
 							y < 0
-								? texture_.get().height() - 1 - static_cast<std::size_t>(-y) % texture_.get().height()
+								? texture_.get().height() - 1 - static_cast<std::size_t>(-sprout::floor(y) - 1) % texture_.get().height()
 								: static_cast<std::size_t>(y) % texture_.get().height()
 							)
 						: x < 0 || x >= texture_.get().width()
-- 
2.43.0


From 0e63746f157ddeb2228e5ae0092f6e4ff34682f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:20 +0000
Subject: [PATCH 277/277] fix: make_texture_map with a scale did not compile

---
 sprout/darkroom/materials/texture_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/darkroom/materials/texture_map.hpp b/sprout/darkroom/materials/texture_map.hpp
index d735f94..92d32f6 100644
--- a/sprout/darkroom/materials/texture_map.hpp
+++ b/sprout/darkroom/materials/texture_map.hpp
@@ -162,7 +162,7 @@ namespace sprout {
 				Texture const& texture, Unit const& scale,
 				Unit const& offset_u = 0, Unit const& offset_v = 0,
 				typename sprout::darkroom::materials::texture_map<Texture, Unit>::result_type const& default_color
-					= typename sprout::darkroom::materials::texture_map<Texture, Unit>::result_typ(),
+					= typename sprout::darkroom::materials::texture_map<Texture, Unit>::result_type(),
 				sprout::darkroom::materials::interpolation_type::values interpolation_value
 					= sprout::darkroom::materials::interpolation_type::nearest_neighbor,
 				sprout::darkroom::materials::texture_map_placement::values placement_value
-- 
2.43.0

