From ac3c8455934c5a08df98a006198d40eded90d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 01/43] fix: include the standard headers the containers use
 (std::is_permutation, std::hash, std::equal_to)

---
 tpp/detail/utility.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index 83beb0f..deadb8b 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -4,6 +4,9 @@
 
 #pragma once
 
+#include <algorithm>
+#include <functional>
+#include <iterator>
 #include <cstring>
 #include <memory>
 #include <array>
@@ -16,8 +19,6 @@
 
 #if defined(TPP_DEBUG)
 
-#include <algorithm>
-#include <iterator>
 #include <cstdlib>
 #include <cstdio>
 
-- 
2.43.0


From ac3c97844e24ac9a476bd4ce40c675dcdc4b3800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 02/43] fix: free swap() functions do not compile
 (self-referential noexcept, wrong template arguments)

---
 tpp/dense_map.hpp           | 4 ++--
 tpp/dense_multimap.hpp      | 2 +-
 tpp/dense_multiset.hpp      | 2 +-
 tpp/dense_set.hpp           | 4 ++--
 tpp/detail/table_common.hpp | 2 +-
 tpp/sparse_map.hpp          | 4 ++--
 tpp/sparse_set.hpp          | 4 ++--
 tpp/stable_map.hpp          | 4 ++--
 tpp/stable_set.hpp          | 4 ++--
 9 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index daeabe8..16e2510 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -622,7 +622,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(dense_map<K, M, H, C, A> &a, dense_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_map<K, M, H, C, A> &a, dense_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1272,7 +1272,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_dense_map<K, M, H, C, A> &a, ordered_dense_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_dense_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_dense_map<K, M, H, C, A> &a, ordered_dense_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 0f2e572..795d03d 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -456,7 +456,7 @@ namespace tpp
 	};
 
 	template<typename Mk, typename M, typename H, typename C, typename A>
-	inline void swap(dense_multimap<Mk, M, H, C, A> &a, dense_multimap<Mk, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_multimap<Mk, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_multimap<Mk, M, H, C, A> &a, dense_multimap<Mk, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_multiset.hpp b/tpp/dense_multiset.hpp
index ce11f31..8bb8ff2 100644
--- a/tpp/dense_multiset.hpp
+++ b/tpp/dense_multiset.hpp
@@ -330,7 +330,7 @@ namespace tpp
 	};
 
 	template<typename Mk, typename H, typename C, typename A>
-	inline void swap(dense_multiset<Mk, H, C, A> &a, dense_multiset<Mk, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_multiset<Mk, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_multiset<Mk, H, C, A> &a, dense_multiset<Mk, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_set.hpp b/tpp/dense_set.hpp
index b59cb2e..37a216d 100644
--- a/tpp/dense_set.hpp
+++ b/tpp/dense_set.hpp
@@ -331,7 +331,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(dense_set<K, H, C, A> &a, dense_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_set<K, H, C, A> &a, dense_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -692,7 +692,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_dense_set<K, H, C, A> &a, ordered_dense_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_dense_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_dense_set<K, H, C, A> &a, ordered_dense_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 20b3e50..9b34db5 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -365,7 +365,7 @@ namespace tpp::_detail
 				assert_alloc(other);
 				swap(m_ptr, other.m_ptr);
 			}
-			friend void swap(extracted_type &a, extracted_type &b) noexcept(std::is_nothrow_swappable_v<extracted_type>) { a.swap(b); }
+			friend void swap(extracted_type &a, extracted_type &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 		private:
 			[[nodiscard]] constexpr auto &alloc() noexcept { return alloc_base::value(); }
diff --git a/tpp/sparse_map.hpp b/tpp/sparse_map.hpp
index 1a490d1..bd2968d 100644
--- a/tpp/sparse_map.hpp
+++ b/tpp/sparse_map.hpp
@@ -567,7 +567,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(sparse_map<K, M, H, C, A> &a, sparse_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<sparse_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(sparse_map<K, M, H, C, A> &a, sparse_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1162,7 +1162,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_sparse_map<K, M, H, C, A> &a, ordered_sparse_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_sparse_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_sparse_map<K, M, H, C, A> &a, ordered_sparse_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/sparse_set.hpp b/tpp/sparse_set.hpp
index 81be0b5..d730aca 100644
--- a/tpp/sparse_set.hpp
+++ b/tpp/sparse_set.hpp
@@ -303,7 +303,7 @@ namespace tpp
 	}
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(sparse_set<K, H, C, A> &a, sparse_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<sparse_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(sparse_set<K, H, C, A> &a, sparse_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	template<typename I, typename Key = _detail::iter_key_t<I>, typename Hash = std::hash<Key>, typename Cmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	sparse_set(I, I, typename _detail::deduce_set_t<sparse_set, I, Hash, Cmp, Alloc>::size_type = 0, Hash = Hash{}, Cmp = Cmp{}, Alloc = Alloc{}) -> sparse_set<Key, Hash, Cmp, Alloc>;
@@ -622,7 +622,7 @@ namespace tpp
 	}
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_sparse_set<K, H, C, A> &a, ordered_sparse_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_sparse_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_sparse_set<K, H, C, A> &a, ordered_sparse_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	template<typename I, typename Key = _detail::iter_key_t<I>, typename Hash = std::hash<Key>, typename Cmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	ordered_sparse_set(I, I, typename _detail::deduce_set_t<ordered_sparse_set, I, Hash, Cmp, Alloc>::size_type = 0, Hash = Hash{}, Cmp = Cmp{}, Alloc = Alloc{}) -> ordered_sparse_set<Key, Hash, Cmp, Alloc>;
diff --git a/tpp/stable_map.hpp b/tpp/stable_map.hpp
index c7dfeb0..8842d46 100644
--- a/tpp/stable_map.hpp
+++ b/tpp/stable_map.hpp
@@ -614,7 +614,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(stable_map<K, M, H, C, A> &a, stable_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<stable_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(stable_map<K, M, H, C, A> &a, stable_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1256,7 +1256,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_stable_map<K, M, H, C, A> &a, ordered_stable_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_stable_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_stable_map<K, M, H, C, A> &a, ordered_stable_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/stable_set.hpp b/tpp/stable_set.hpp
index ec64db6..711b810 100644
--- a/tpp/stable_set.hpp
+++ b/tpp/stable_set.hpp
@@ -317,7 +317,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(stable_set<K, H, C, A> &a, stable_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<stable_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(stable_set<K, H, C, A> &a, stable_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -668,7 +668,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_stable_set<K, H, C, A> &a, ordered_stable_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_stable_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_stable_set<K, H, C, A> &a, ordered_stable_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
-- 
2.43.0


From aa1c7db971aef584e8742214aa2f33a300bcc747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 03/43] fix: hinted emplace_hint, emplace_or_replace and node
 insertion do not compile

---
 tpp/detail/dense_table.hpp |  4 ++--
 tpp/detail/swiss_table.hpp | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 6e3b685..89eec1d 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -401,7 +401,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
 		template<typename... Args>
-		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...); }
+		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...).first; }
 
 		template<typename U, typename... Args>
 		std::pair<iterator, bool> emplace_or_replace(U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
@@ -411,7 +411,7 @@ namespace tpp::_detail
 		template<typename U, typename... Args>
 		iterator emplace_or_replace(const_iterator hint, U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
 		{
-			return do_insert_or_assign(hint, std::forward<U>(key), std::forward<Args>(args)...);
+			return do_insert_or_assign(to_underlying(hint), std::forward<U>(key), std::forward<Args>(args)...).first;
 		}
 
 		template<typename... Ks, typename... Args>
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 31d412d..e8ed4b2 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -973,7 +973,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(hint, h, std::forward<N>(node));
+				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
 			else
 				return to_iter(target_pos);
 		}
@@ -1007,11 +1007,11 @@ namespace tpp::_detail
 			}
 		}
 		template<typename N>
-		iterator insert_or_assign_node(node_iterator hint, N &&node)
+		iterator insert_or_assign_node(const_iterator hint, N &&node)
 		{
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(hint, h, std::forward<N>(node));
+				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
 			else
 			{
 				auto alloc = value_allocator{get_allocator()};
@@ -1025,7 +1025,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
 		template<typename... Args>
-		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...); }
+		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...).first; }
 
 		template<typename U, typename... Args>
 		std::pair<iterator, bool> emplace_or_replace(U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
@@ -1035,7 +1035,7 @@ namespace tpp::_detail
 		template<typename U, typename... Args>
 		iterator emplace_or_replace(const_iterator hint, U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
 		{
-			return do_insert_or_assign(hint, std::forward<U>(key), std::forward<Args>(args)...);
+			return do_insert_or_assign(to_underlying(hint), std::forward<U>(key), std::forward<Args>(args)...).first;
 		}
 
 		template<typename U, typename... Args>
-- 
2.43.0


From 4616547a3dceff7d60db470bccebed4ea8b8523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 04/43] fix: erase(first, last) of swiss tables (does not
 compile for forward iterators, wrong result for an empty range)

---
 tpp/detail/swiss_table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index e8ed4b2..d7a8cac 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1069,9 +1069,9 @@ namespace tpp::_detail
 		}
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			iterator result = end();
-			while (last != first) result = erase(--last);
-			return result;
+			/* Erasing does not relocate elements, thus `last` is never invalidated. */
+			while (first != last) first = erase(first);
+			return iterator{to_underlying(last)};
 		}
 
 		template<typename T, typename = std::enable_if_t<!std::is_convertible_v<T, const_iterator>>>
-- 
2.43.0


From d681ca939a8c7fc3b1eec49bf248cb77c7b9d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 05/43] fix: dense table erase (dangling iterator after
 relocation, range erase, erase_if past the end, erase from an unallocated
 table)

---
 tpp/dense_map.hpp          |  4 ++--
 tpp/dense_multimap.hpp     |  2 +-
 tpp/dense_multiset.hpp     |  2 +-
 tpp/dense_set.hpp          |  4 ++--
 tpp/detail/dense_table.hpp | 13 ++++++++++---
 5 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index 16e2510..82d5659 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -630,7 +630,7 @@ namespace tpp
 	inline typename dense_map<K, M, H, C, A>::size_type erase_if(dense_map<K, M, H, C, A> &map, P pred)
 	{
 		typename dense_map<K, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
@@ -1280,7 +1280,7 @@ namespace tpp
 	inline typename ordered_dense_map<K, M, H, C, A>::size_type erase_if(ordered_dense_map<K, M, H, C, A> &map, P pred)
 	{
 		typename dense_map<K, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 795d03d..1cb1a92 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -464,7 +464,7 @@ namespace tpp
 	inline typename dense_multimap<Mk, M, H, C, A>::size_type erase_if(dense_multimap<Mk, M, H, C, A> &map, P pred)
 	{
 		typename dense_multimap<Mk, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_multiset.hpp b/tpp/dense_multiset.hpp
index 8bb8ff2..a59b18b 100644
--- a/tpp/dense_multiset.hpp
+++ b/tpp/dense_multiset.hpp
@@ -338,7 +338,7 @@ namespace tpp
 	inline typename dense_multiset<Mk, H, C, A>::size_type erase_if(dense_multiset<Mk, H, C, A> &set, P pred)
 	{
 		typename dense_multiset<Mk, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_set.hpp b/tpp/dense_set.hpp
index 37a216d..df08555 100644
--- a/tpp/dense_set.hpp
+++ b/tpp/dense_set.hpp
@@ -339,7 +339,7 @@ namespace tpp
 	inline typename dense_set<K, H, C, A>::size_type erase_if(dense_set<K, H, C, A> &set, P pred)
 	{
 		typename dense_set<K, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
@@ -700,7 +700,7 @@ namespace tpp
 	inline typename ordered_dense_set<K, H, C, A>::size_type erase_if(ordered_dense_set<K, H, C, A> &set, P pred)
 	{
 		typename dense_set<K, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 89eec1d..4b3dc9d 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -434,8 +434,14 @@ namespace tpp::_detail
 		}
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			iterator result = end();
-			while (last != first) result = erase(--last);
+			auto result = iterator{to_underlying(last)};
+			if constexpr (is_ordered::value)
+			{
+				/* Erasing relocates the last entry of the dense buffer, which may be any of the range iterators. */
+				for (auto n = std::distance(first, last); n > 0; --n) first = result = erase(first);
+			}
+			else
+				while (last != first) result = erase(--last);
 			return result;
 		}
 
@@ -609,6 +615,7 @@ namespace tpp::_detail
 			/* Swap the entry with the last if necessary. */
 			if (const auto end_pos = size() - 1; pos != end_pos)
 			{
+				if (next == to_address(m_dense + end_pos)) next = node;
 				(move_chain<Is>(end_pos, pos), ...);
 				node->move_from(m_dense[end_pos]);
 			}
@@ -739,7 +746,7 @@ namespace tpp::_detail
 		template<std::size_t J, typename T, std::size_t... Is>
 		iterator do_erase(std::index_sequence<Is...>, const T &key, std::size_t h)
 		{
-			for (auto *chain_idx = get_chain<J>(h); *chain_idx != npos;)
+			for (auto *chain_idx = get_chain<J>(h); chain_idx && *chain_idx != npos;)
 			{
 				const auto pos = *chain_idx;
 				auto node = m_dense + pos;
-- 
2.43.0


From d6a5ffe872c65356d300da73dbe827017e4c7da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 06/43] fix: erase of multi-key dense tables does not compile
 for iterators and for more than two keys

---
 tpp/detail/dense_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 4b3dc9d..9ce3732 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -735,7 +735,7 @@ namespace tpp::_detail
 			if (const auto end = end_node(); node == end)
 				return to_iter(end);
 
-			const auto slice = chain_slice{find_chain_ptr<Is...>(get_chain<Is>(node->template hash<Is>()), pos)...};
+			const auto slice = chain_slice{find_chain_ptr<Is>(get_chain<Is>(node->template hash<Is>()), pos)...};
 			return erase_node<Is...>(pos, node, slice);
 		}
 		iterator do_erase(size_type pos, bucket_node *node)
@@ -754,7 +754,7 @@ namespace tpp::_detail
 				{
 					/* Grab other bucket indices that point to `pos`. */
 					chain_slice slice = {};
-					((slice[Is] = find_chain_ptr<Is...>(get_chain<Is>(node->template hash<Is>()), pos)), ...);
+					((slice[Is] = find_chain_ptr<Is>(get_chain<Is>(node->template hash<Is>()), pos)), ...);
 					slice[J] = chain_idx;
 					return erase_node<J, Is...>(pos, node, slice);
 				}
-- 
2.43.0


From ecf38bdf7d2971fbf0fc77b7c948371d6db80e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 07/43] fix: +=, -= and [] of random access iterators do not
 compile

---
 tpp/detail/table_common.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 9b34db5..92aaf4c 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -603,14 +603,22 @@ namespace tpp::_detail
 	template<typename I, typename T>
 	struct random_access_iterator_base<I, T, std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, typename T::iterator_category>>>
 	{
-		constexpr I &operator+=(typename iter_diff<T>::type n) noexcept { return iter() += n; }
-		constexpr I &operator-=(typename iter_diff<T>::type n) noexcept { return iter() -= n; }
+		constexpr I &operator+=(typename iter_diff<T>::type n) noexcept
+		{
+			iter() += n;
+			return static_cast<I &>(*this);
+		}
+		constexpr I &operator-=(typename iter_diff<T>::type n) noexcept
+		{
+			iter() -= n;
+			return static_cast<I &>(*this);
+		}
 
 		[[nodiscard]] constexpr I operator+(typename iter_diff<T>::type n) const noexcept { return I{iter() + n}; }
 		[[nodiscard]] constexpr I operator-(typename iter_diff<T>::type n) const noexcept { return I{iter() - n}; }
 		[[nodiscard]] constexpr typename iter_diff<T>::type operator-(const I &other) const noexcept { return iter() - other.m_iter; }
 
-		[[nodiscard]] constexpr auto &operator[](typename iter_diff<T>::type i) const noexcept { return *operator+(i); }
+		[[nodiscard]] constexpr decltype(auto) operator[](typename iter_diff<T>::type i) const noexcept { return *operator+(i); }
 
 	private:
 		[[nodiscard]] constexpr auto &iter() noexcept { return static_cast<I *>(this)->m_iter; }
-- 
2.43.0


From 527e0d00d7e1450379a98a0d09eda9489086dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:41 +0000
Subject: [PATCH 08/43] fix: bucket iterators and bucket_size of dense tables
 do not compile, bucket end is never reached

---
 tpp/detail/dense_table.hpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 9ce3732..ea342a5 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -121,25 +121,25 @@ namespace tpp::_detail
 
 			using value_pointer = std::conditional_t<std::is_const_v<N>, typename ValueTraits::const_pointer, typename ValueTraits::pointer>;
 			using value_reference = std::conditional_t<std::is_const_v<N>, typename ValueTraits::const_reference, typename ValueTraits::reference>;
-			using node_ptr = typename std::allocator_traits<Alloc>::template rebind_traits<N>::pointer;
+			using node_ptr = typename std::pointer_traits<dense_ptr>::template rebind<N>;
 
 		public:
 			using value_type = V;
 
 			using reference = std::conditional_t<key_size == 1, value_reference, std::array<value_reference, key_size>>;
-			struct pointer
+			struct array_pointer
 			{
 				friend class bucket_iterator;
 
-				constexpr pointer(std::array<value_pointer, key_size> ptr) noexcept : m_ptr(ptr) {}
+				constexpr array_pointer(std::array<value_pointer, key_size> ptr) noexcept : m_ptr(ptr) {}
 
 			public:
-				pointer() = delete;
+				array_pointer() = delete;
 
-				constexpr pointer(const pointer &) noexcept = default;
-				constexpr pointer &operator=(const pointer &) noexcept = default;
-				constexpr pointer(pointer &&) noexcept = default;
-				constexpr pointer &operator=(pointer &&) noexcept = default;
+				constexpr array_pointer(const array_pointer &) noexcept = default;
+				constexpr array_pointer &operator=(const array_pointer &) noexcept = default;
+				constexpr array_pointer(array_pointer &&) noexcept = default;
+				constexpr array_pointer &operator=(array_pointer &&) noexcept = default;
 
 				[[nodiscard]] reference operator->() const noexcept { return get(std::make_index_sequence<key_size>{}); }
 
@@ -156,8 +156,10 @@ namespace tpp::_detail
 				std::array<value_pointer, key_size> m_ptr = {};
 			};
 
-			using size_type = typename bucket_node::size_type;
-			using difference_type = typename bucket_node::difference_type;
+			using pointer = std::conditional_t<key_size == 1, value_pointer, array_pointer>;
+
+			using size_type = typename std::allocator_traits<Alloc>::size_type;
+			using difference_type = typename std::allocator_traits<Alloc>::difference_type;
 			using iterator_category = std::forward_iterator_tag;
 
 		public:
@@ -188,13 +190,13 @@ namespace tpp::_detail
 #endif
 
 		private:
-			[[nodiscard]] constexpr node_ptr node() const noexcept { return m_base + m_pos; }
+			[[nodiscard]] constexpr node_ptr node() const noexcept { return m_base + m_pos[0]; }
 
 			template<std::size_t... Is>
-			constexpr void increment(std::index_sequence<Is...>) noexcept { ((m_pos[Is] = node()->next[Is]), ...); }
+			constexpr void increment(std::index_sequence<Is...>) noexcept { ((m_pos[Is] = m_pos[Is] != npos ? m_base[m_pos[Is]].next[Is] : npos), ...); }
 
 			node_ptr m_base = {};
-			bucket_pos m_pos = 0;
+			bucket_pos m_pos = {};
 		};
 
 	public:
@@ -337,8 +339,8 @@ namespace tpp::_detail
 
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return local_iterator{m_dense, m_sparse[n]}; }
 		[[nodiscard]] const_local_iterator begin(size_type n) const noexcept { return const_local_iterator{m_dense, m_sparse[n]}; }
-		[[nodiscard]] local_iterator end(size_type) noexcept { return local_iterator{}; }
-		[[nodiscard]] const_local_iterator end(size_type) const noexcept { return const_local_iterator{}; }
+		[[nodiscard]] local_iterator end(size_type) noexcept { return local_iterator{m_dense, make_array<key_size>(npos)}; }
+		[[nodiscard]] const_local_iterator end(size_type) const noexcept { return const_local_iterator{m_dense, make_array<key_size>(npos)}; }
 
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_sparse_size; }
 		[[nodiscard]] constexpr size_type max_bucket_count() const noexcept { return npos - 1; }
-- 
2.43.0


From ec5ae0948d2408b2943d823e5fbdb3ed72df2a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 09/43] fix: merge of stable containers (order of elements,
 skipped first element, replaced functors, different functor types)

---
 tpp/detail/swiss_table.hpp | 17 ++++-------------
 tpp/stable_set.hpp         |  6 ++++++
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index d7a8cac..d423d85 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1099,27 +1099,18 @@ namespace tpp::_detail
 			reserve(m_size + other.size());
 
 			/* Extract nodes from other and insert into this. */
-			/* Iterate backwards for ordered links, since the ordered iterators are invalidated on erase. */
-			const auto transfer = [&](const const_iterator &pos) noexcept
+			const auto transfer = [&](auto pos)
 			{
 				const auto &key = ValueTraits::get_key(*pos);
 				const auto h = hash(key);
 				if (find_node(key, h) == m_buffer.capacity) emplace_node({}, h, other.extract(pos));
 			};
-			if constexpr (!is_ordered::value)
-				for (auto pos = other.begin(), last = other.end(); pos != last; ++pos) transfer(pos);
-			else
-				for (auto pos = other.end(), last = other.begin(); --pos != last;) transfer(pos);
+			/* Advance past the element before the transfer, since ordered iterators are invalidated by it. */
+			for (auto pos = other.begin(), last = other.end(); pos != last;) transfer(pos++);
 		}
 		template<typename Kh2, typename Kc2>
 		void merge(swiss_table<I, V, K, Kh2, Kc2, Alloc, ValueTraits> &&other) { merge(other); }
-		void merge(swiss_table &&other)
-		{
-			if (m_size == 0)
-				operator=(std::move(other));
-			else
-				merge(other);
-		}
+		void merge(swiss_table &&other) { merge(other); }
 
 		void rehash(size_type n)
 		{
diff --git a/tpp/stable_set.hpp b/tpp/stable_set.hpp
index 711b810..0249389 100644
--- a/tpp/stable_set.hpp
+++ b/tpp/stable_set.hpp
@@ -22,6 +22,9 @@ namespace tpp
 	template<typename Key, typename KeyHash = std::hash<Key>, typename KeyCmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	class stable_set
 	{
+		template<typename, typename, typename, typename>
+		friend class stable_set;
+
 		using traits_t = _detail::stable_value_traits<Key, _detail::empty_link>;
 		using table_t = _detail::swiss_table<Key, Key, Key, KeyHash, KeyCmp, Alloc, traits_t>;
 
@@ -369,6 +372,9 @@ namespace tpp
 	template<typename Key, typename KeyHash = std::hash<Key>, typename KeyCmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	class ordered_stable_set
 	{
+		template<typename, typename, typename, typename>
+		friend class ordered_stable_set;
+
 		using traits_t = _detail::stable_value_traits<Key, _detail::ordered_link>;
 		using table_t = _detail::swiss_table<Key, Key, Key, KeyHash, KeyCmp, Alloc, traits_t>;
 
-- 
2.43.0


From 58bf974c8e8772d8c579c3c5d23aff9626e34f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:44 +0000
Subject: [PATCH 10/43] fix: inserting an empty node dereferences null,
 inserting a node of an unequal allocator destroys it twice

---
 tpp/detail/swiss_table.hpp  | 8 ++++++++
 tpp/detail/table_common.hpp | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index d423d85..1d36852 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -962,6 +962,8 @@ namespace tpp::_detail
 		template<typename N>
 		auto insert_node(N &&node) -> typename stable_node<V, Alloc, ValueTraits>::template insert_return<iterator, N>
 		{
+			TPP_IF_UNLIKELY(node.empty()) return {end(), false, std::forward<N>(node)};
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return {emplace_node({}, h, std::forward<N>(node)), true};
@@ -971,6 +973,8 @@ namespace tpp::_detail
 		template<typename N>
 		auto insert_node(const_iterator hint, N &&node) -> iterator
 		{
+			TPP_IF_UNLIKELY(node.empty()) return end();
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
@@ -994,6 +998,8 @@ namespace tpp::_detail
 		template<typename N>
 		std::pair<iterator, bool> insert_or_assign_node(N &&node)
 		{
+			TPP_IF_UNLIKELY(node.empty()) return {end(), false};
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return {emplace_node({}, h, std::forward<N>(node)), true};
@@ -1009,6 +1015,8 @@ namespace tpp::_detail
 		template<typename N>
 		iterator insert_or_assign_node(const_iterator hint, N &&node)
 		{
+			TPP_IF_UNLIKELY(node.empty()) return end();
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 92aaf4c..63dc69e 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -380,7 +380,7 @@ namespace tpp::_detail
 				if (m_ptr)
 				{
 					std::allocator_traits<allocator_type>::destroy(alloc(), m_ptr);
-					std::allocator_traits<allocator_type>::deallocate(alloc(), m_ptr, 1);
+					std::allocator_traits<allocator_type>::deallocate(alloc(), std::exchange(m_ptr, value_ptr{}), 1);
 				}
 			}
 
-- 
2.43.0


From 17853e28b1a17dfa9138a9cfe215f746285ea416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:47 +0000
Subject: [PATCH 11/43] fix: operator[] moves from non-const lvalue keys and
 does not accept rvalue keys

---
 tpp/dense_map.hpp  | 8 ++++----
 tpp/sparse_map.hpp | 8 ++++----
 tpp/stable_map.hpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index 82d5659..4bf82bb 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -545,14 +545,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
@@ -1195,14 +1195,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
diff --git a/tpp/sparse_map.hpp b/tpp/sparse_map.hpp
index bd2968d..dc6fe14 100644
--- a/tpp/sparse_map.hpp
+++ b/tpp/sparse_map.hpp
@@ -514,14 +514,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1109,14 +1109,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
diff --git a/tpp/stable_map.hpp b/tpp/stable_map.hpp
index 8842d46..2cf3bf2 100644
--- a/tpp/stable_map.hpp
+++ b/tpp/stable_map.hpp
@@ -561,14 +561,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1203,14 +1203,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
-- 
2.43.0


From aac8868461019057d4f17730a72262d15d667487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:58 +0000
Subject: [PATCH 12/43] fix: movable keys are copied by try_emplace,
 insert_or_assign and emplace_or_replace, hinted dense try_emplace and set
 range insert do not compile

---
 tpp/dense_map.hpp          | 16 ++++++++--------
 tpp/detail/dense_table.hpp |  6 +++---
 tpp/detail/swiss_table.hpp | 10 +++++-----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index 4bf82bb..7dd095f 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -434,7 +434,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -446,7 +446,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -459,7 +459,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, const K &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -471,7 +471,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, K &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::forward<K>(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::forward<K>(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -1084,7 +1084,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -1096,7 +1096,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -1109,7 +1109,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, const K &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -1121,7 +1121,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, K &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::forward<K>(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::forward<K>(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index ea342a5..0e9bd09 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -384,7 +384,7 @@ namespace tpp::_detail
 
 		template<typename T, typename = std::enable_if_t<!(std::is_convertible_v<T &&, insert_type &&> || std::is_convertible_v<T &&, value_type &&>)>>
 		std::pair<iterator, bool> insert(T &&value) TPP_REQUIRES((std::is_constructible_v<V, T>)) { return do_emplace({}, std::forward<T>(value)); }
-		template<typename T, typename = std::enable_if_t<!(std::is_convertible_v<T &&, insert_type &&> || std::is_convertible_v<T &&, value_type &&>)>>
+		template<typename T, typename = std::enable_if_t<std::is_constructible_v<V, T> && !(std::is_convertible_v<T &&, insert_type &&> || std::is_convertible_v<T &&, value_type &&>)>>
 		iterator insert(const_iterator hint, T &&value) TPP_REQUIRES((std::is_constructible_v<V, T>)) { return do_emplace(to_underlying(hint), std::forward<T>(value)).first; }
 
 		template<typename Iter>
@@ -396,9 +396,9 @@ namespace tpp::_detail
 		}
 
 		template<typename T, typename U>
-		std::pair<iterator, bool> insert_or_assign(const T &key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign({}, key, std::forward<U>(value)); }
+		std::pair<iterator, bool> insert_or_assign(T &&key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign({}, std::forward<T>(key), std::forward<U>(value)); }
 		template<typename T, typename U>
-		iterator insert_or_assign(const_iterator hint, const T &key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign(to_underlying(hint), key, std::forward<U>(value)).first; }
+		iterator insert_or_assign(const_iterator hint, T &&key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign(to_underlying(hint), std::forward<T>(key), std::forward<U>(value)).first; }
 
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 1d36852..9999f4f 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -953,7 +953,7 @@ namespace tpp::_detail
 		{
 			return do_emplace({}, std::forward<T>(value));
 		}
-		template<typename T, typename = std::enable_if_t<!(std::is_convertible_v<T &&, insert_type &&> || std::is_convertible_v<T &&, value_type &&>)>>
+		template<typename T, typename = std::enable_if_t<std::is_constructible_v<V, T> && !(std::is_convertible_v<T &&, insert_type &&> || std::is_convertible_v<T &&, value_type &&>)>>
 		iterator insert(const_iterator hint, T &&value) TPP_REQUIRES((std::is_constructible_v<V, T>))
 		{
 			return do_emplace(to_underlying(hint), std::forward<T>(value)).first;
@@ -991,9 +991,9 @@ namespace tpp::_detail
 		}
 
 		template<typename T, typename U>
-		std::pair<iterator, bool> insert_or_assign(const T &key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign({}, key, std::forward<U>(value)); }
+		std::pair<iterator, bool> insert_or_assign(T &&key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign({}, std::forward<T>(key), std::forward<U>(value)); }
 		template<typename T, typename U>
-		iterator insert_or_assign(const_iterator hint, const T &key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign(to_underlying(hint), key, std::forward<U>(value)).first; }
+		iterator insert_or_assign(const_iterator hint, T &&key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign(to_underlying(hint), std::forward<T>(key), std::forward<U>(value)).first; }
 
 		template<typename N>
 		std::pair<iterator, bool> insert_or_assign_node(N &&node)
@@ -1331,7 +1331,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(key);
 			if (auto target_pos = find_node(key, h); target_pos == m_buffer.capacity)
-				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(std::forward<Args>(args)...)), true};
+				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(std::forward<T>(key)), std::forward_as_tuple(std::forward<Args>(args)...)), true};
 			else
 				return {to_iter(target_pos), false};
 		}
@@ -1349,7 +1349,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(key);
 			if (auto target_pos = find_node(key, h); target_pos == m_buffer.capacity)
-				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(std::forward<Args>(args)...)), true};
+				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(std::forward<T>(key)), std::forward_as_tuple(std::forward<Args>(args)...)), true};
 			else
 			{
 				m_buffer.nodes()[target_pos].replace(std::forward<Args>(args)...);
-- 
2.43.0


From c4bc3cd397a7dda280384140bb966b9944943b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:54 +0000
Subject: [PATCH 13/43] fix: TPP_NO_SIMD build (duplicate definition, undefined
 ctz of zero, misaligned metadata reads)

---
 tpp/detail/swiss_table.hpp | 8 ++------
 tpp/detail/utility.hpp     | 4 +++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 9999f4f..0ab4b88 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -322,12 +322,8 @@ namespace tpp::_detail
 	std::size_t meta_block::count_available() const noexcept
 	{
 		constexpr std::uint64_t lsb_mask = 0x0101010101010101;
-		return ctz((value | ~(value >> 7)) & lsb_mask) >> 3;
-	}
-	std::size_t meta_block::count_available() const noexcept
-	{
-		constexpr std::uint64_t lsb_mask = 0x0101010101010101;
-		return ctz((value | ~(value >> 7)) & lsb_mask) >> 3;
+		const auto mask = (value | ~(value >> 7)) & lsb_mask;
+		return mask ? ctz(mask) >> 3 : sizeof(value);
 	}
 	meta_block meta_block::reset_occupied() const noexcept
 	{
diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index deadb8b..27e9d90 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -77,7 +77,9 @@ namespace tpp::_detail
 	template<typename T>
 	[[nodiscard]] inline TPP_FORCEINLINE std::enable_if_t<std::is_integral_v<T>, T> read_unaligned(const void *data) noexcept
 	{
-		return *static_cast<const T *>(data);
+		T result;
+		std::memcpy(&result, data, sizeof(T));
+		return result;
 	}
 #else /* On non-x86 platforms, unaligned access must be emulated */
 	template<typename T>
-- 
2.43.0


From 535df4248822e22a30ee1a149b22f7e85de1de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:14 +0000
Subject: [PATCH 14/43] fix: swiss tables constructed with a bucket count that
 is not a power of 2 - 1 lose elements

---
 tpp/detail/swiss_table.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 0ab4b88..4a77298 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -507,6 +507,8 @@ namespace tpp::_detail
 		template<typename Alloc>
 		swiss_table_buffer(size_type capacity, const Alloc &alloc) : meta_alloc_base(alloc), node_alloc_base(alloc)
 		{
+			if (capacity == 0) return;
+
 			allocate(capacity);
 			fill_empty();
 		}
@@ -665,6 +667,8 @@ namespace tpp::_detail
 		template<typename Alloc>
 		swiss_table_buffer(size_type capacity, const Alloc &alloc) : empty_base<NodeAlloc>(alloc)
 		{
+			if (capacity == 0) return;
+
 			allocate(capacity);
 			fill_empty();
 		}
@@ -832,10 +836,10 @@ namespace tpp::_detail
 		swiss_table() = default;
 
 		swiss_table(const allocator_type &alloc) : m_buffer(alloc) {}
-		swiss_table(size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : hash_base(hash), cmp_base(cmp), m_buffer(n, alloc)
+		swiss_table(size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : hash_base(hash), cmp_base(cmp), m_buffer(n ? align_capacity(n) : 0, alloc)
 		{
-			TPP_ASSERT(((n + 1) & n) == 0, "Capacity must be a power of 2 - 1");
-			m_num_empty = capacity_to_max_size(n);
+			TPP_ASSERT(((m_buffer.capacity + 1) & m_buffer.capacity) == 0, "Capacity must be a power of 2 - 1");
+			m_num_empty = capacity_to_max_size(m_buffer.capacity);
 		}
 
 		template<typename Iter>
-- 
2.43.0


From 51425976f156742f3f7c44fe02294b820cb6cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:24 +0000
Subject: [PATCH 15/43] fix: null and wrongly sized buffers are passed to the
 allocator

---
 tpp/detail/dense_table.hpp |  8 ++++----
 tpp/detail/swiss_table.hpp | 22 +++++++++++-----------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 0e9bd09..f34393e 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -262,12 +262,12 @@ namespace tpp::_detail
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_copy_assignment::value)
 				{
-					std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
+					if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
 					sparse_alloc_base::operator=(other);
 				}
 				if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_copy_assignment::value)
 				{
-					std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
+					if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
 					dense_alloc_base::operator=(other);
 				}
 
@@ -288,12 +288,12 @@ namespace tpp::_detail
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_move_assignment::value)
 				{
-					std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
+					if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
 					sparse_alloc_base::operator=(std::move(other));
 				}
 				if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_move_assignment::value)
 				{
-					std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
+					if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
 					dense_alloc_base::operator=(std::move(other));
 				}
 
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 4a77298..000b7a0 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -473,12 +473,12 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
+				if (m_metadata) std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
 				meta_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
+				if (m_nodes) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
 				node_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
@@ -489,12 +489,12 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
+				if (m_metadata) std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
 				meta_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
+				if (m_nodes) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
 				node_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
@@ -539,7 +539,7 @@ namespace tpp::_detail
 				throw;
 			}
 
-			if (capacity != 0)
+			if (n != 0)
 			{
 				relocate(tmp_metadata, tmp_nodes, n);
 				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), tmp_metadata, n + sizeof(meta_block));
@@ -569,8 +569,8 @@ namespace tpp::_detail
 		}
 		void deallocate()
 		{
-			std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
-			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
+			if (m_metadata) std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
+			if (m_nodes) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
 			m_metadata = {};
 			m_nodes = {};
 			capacity = 0;
@@ -643,7 +643,7 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), capacity);
+				if (m_data) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 				empty_base<NodeAlloc>::operator=(other);
 				capacity = 0;
 				m_data = {};
@@ -654,7 +654,7 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), capacity);
+				if (m_data) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 				empty_base<NodeAlloc>::operator=(other);
 				capacity = 0;
 				m_data = {};
@@ -689,7 +689,7 @@ namespace tpp::_detail
 			std::swap(n, capacity);
 
 			relocate(old_meta, old_nodes, n);
-			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(tmp_data), buffer_size(n));
+			if (tmp_data) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(tmp_data), buffer_size(n));
 		}
 
 		void allocate(size_type n)
@@ -708,7 +708,7 @@ namespace tpp::_detail
 		}
 		void deallocate()
 		{
-			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
+			if (m_data) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 			capacity = 0;
 			m_data = {};
 		}
-- 
2.43.0


From 823e53fdbd16eac1460207aef55a8f24623bded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 16/43] fix: rehash of swiss tables to a capacity smaller than
 the current size never terminates

---
 tpp/detail/swiss_table.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 000b7a0..bfe7fb1 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1125,7 +1125,8 @@ namespace tpp::_detail
 			/* Skip rehash if table is empty and requested size is 0. */
 			TPP_IF_UNLIKELY(!n && !m_size) return;
 
-			const auto new_cap = align_capacity(n | size_to_min_capacity(n));
+			/* Adjust the capacity to be at least large enough to fit the current size. */
+			const auto new_cap = align_capacity(std::max(n, size_to_min_capacity(m_size)));
 			if (!n || new_cap > m_buffer.capacity) do_rehash(new_cap);
 		}
 
-- 
2.43.0


From b6c37d944a0e652bcd62e2595743dd8187b18b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:14 +0000
Subject: [PATCH 17/43] fix: swap of ordered containers with an empty one, swap
 of swiss tables with propagating allocators

---
 tpp/detail/swiss_table.hpp  |  6 +++++-
 tpp/detail/table_common.hpp | 14 +++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index bfe7fb1..9517cb9 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -590,6 +590,7 @@ namespace tpp::_detail
 		}
 		void swap(swiss_table_buffer &other) noexcept(std::is_nothrow_swappable_v<MetaAlloc> && std::is_nothrow_swappable_v<NodeAlloc>)
 		{
+			using std::swap;
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_swap::value)
 				swap(meta_alloc(), other.meta_alloc());
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
@@ -726,6 +727,7 @@ namespace tpp::_detail
 		}
 		void swap(swiss_table_buffer &other) noexcept(std::is_nothrow_swappable_v<NodeAlloc>)
 		{
+			using std::swap;
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
 				swap(node_alloc(), other.node_alloc());
 			swap_data(other);
@@ -1142,7 +1144,9 @@ namespace tpp::_detail
 			link_base::swap(other);
 			hash_base::swap(other);
 			cmp_base::swap(other);
-			swap_buffers(other);
+			std::swap(m_size, other.m_size);
+			std::swap(m_num_empty, other.m_num_empty);
+			m_buffer.swap(other.m_buffer);
 		}
 
 	private:
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 63dc69e..6516f2b 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -164,16 +164,12 @@ namespace tpp::_detail
 
 		void swap(ordered_link &other) noexcept
 		{
-			std::swap(next, other.next);
-			std::swap(prev, other.prev);
-		}
-		friend void swap(ordered_link &a, ordered_link &b) noexcept
-		{
-			auto a_next = a.off(a.next), b_next = b.off(b.next);
-			auto a_prev = a.off(a.prev), b_prev = b.off(b.prev);
-			a.link(b_next, b_prev);
-			b.link(a_next, a_prev);
+			/* Offsets are relative to `this`, and either of the links can be empty or adjacent to the other one. */
+			auto tmp = std::move(*this);
+			*this = std::move(other);
+			other = std::move(tmp);
 		}
+		friend void swap(ordered_link &a, ordered_link &b) noexcept { a.swap(b); }
 
 		/* Offsets from `this` to next & previous links in bytes. */
 		std::ptrdiff_t next = 0; /* next_ptr - this */
-- 
2.43.0


From 0ea9a655a4642b87501bbf55a2e9ae2653cd1e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:25 +0000
Subject: [PATCH 18/43] fix: copies and moves of swiss tables lose elements
 (stale metadata & links, element positions, unequal allocators)

---
 tpp/detail/swiss_table.hpp | 101 +++++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 44 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 9517cb9..8d4123c 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -847,23 +847,22 @@ namespace tpp::_detail
 		template<typename Iter>
 		swiss_table(Iter first, Iter last, size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : swiss_table(distance_or_n(first, last, n), hash, cmp, alloc) { insert(first, last); }
 
-		swiss_table(const swiss_table &other) : hash_base(other), cmp_base(other), link_base(), m_buffer(other.m_buffer) { copy_data(other); }
-		swiss_table(const swiss_table &other, const allocator_type &alloc) : hash_base(other), cmp_base(other), link_base(), m_buffer(alloc) { copy_data(other); }
+		swiss_table(const swiss_table &other) : swiss_table(other, allocator_copy(allocator_type{other.get_allocator()})) {}
+		swiss_table(const swiss_table &other, const allocator_type &alloc) : swiss_table(0, other.get_hash(), other.get_cmp(), alloc) { copy_data(other); }
 
 		swiss_table(swiss_table &&other) noexcept(std::is_nothrow_move_constructible_v<buffer_type> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(std::move(other.m_buffer)) { move_from(other); }
+				: hash_base(std::move(other)), cmp_base(std::move(other)), m_buffer(std::move(other.m_buffer)) { swap_buffers(other); }
 		swiss_table(swiss_table &&other, const allocator_type &alloc) noexcept(std::is_nothrow_constructible_v<buffer_type, const allocator_type &> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(alloc) { move_from(other); }
+				: hash_base(std::move(other)), cmp_base(std::move(other)), m_buffer(alloc) { move_from(other); }
 
 		swiss_table &operator=(const swiss_table &other)
 		{
 			if (this != &other)
 			{
-				link_base::operator=(other);
+				clear();
 				hash_base::operator=(other);
 				cmp_base::operator=(other);
 
-				erase_nodes();
 				m_buffer = other.m_buffer;
 				copy_data(other);
 			}
@@ -873,11 +872,10 @@ namespace tpp::_detail
 		{
 			if (this != &other)
 			{
-				link_base::operator=(std::move(other));
+				clear();
 				hash_base::operator=(std::move(other));
 				cmp_base::operator=(std::move(other));
 
-				erase_nodes();
 				m_buffer = std::move(other.m_buffer);
 				move_from(other);
 			}
@@ -1465,27 +1463,34 @@ namespace tpp::_detail
 			m_buffer.reallocate(other.m_buffer.capacity);
 			m_buffer.fill_empty();
 
-			/* Copy elements from the other table. */
-			auto alloc = value_allocator{get_allocator()};
-			auto *nodes = m_buffer.nodes(), *other_nodes = other.m_buffer.nodes();
-			auto *other_metadata = other.m_buffer.meta();
-			for (size_type i = 0; i != other.m_buffer.capacity; ++i)
-				if (is_occupied(other_metadata[i]))
-				{
-					nodes[i].construct(alloc, other_nodes[i]);
-					set_metadata(i, other_metadata[i]);
-				}
-			m_size = other.m_size;
-			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
+			m_num_empty = capacity_to_max_size(m_buffer.capacity);
 
-			/* If the node link is ordered, update header offsets to point to the copied data. */
+			/* Copy elements from the other table. The buffers may differ in capacity & amount of deleted entries, thus element positions cannot be copied. */
 			if constexpr (is_ordered::value)
-				if (m_size != 0)
-				{
-					const auto front_off = other.front_node() - other_nodes;
-					const auto back_off = other.back_node() - other_nodes;
-					header_link()->link(nodes + front_off, nodes + back_off);
-				}
+				for (auto *link = other.header_link()->off(other.header_link()->next); link != other.header_link(); link = link->off(link->next))
+					copy_node(*static_cast<bucket_node *>(link));
+			else
+				for (size_type i = 0; i != other.m_buffer.capacity; ++i)
+					if (is_occupied(other.m_buffer.meta()[i])) copy_node(other.m_buffer.nodes()[i]);
+		}
+		void copy_node(const bucket_node &src)
+		{
+			const auto h = src.hash();
+			const auto pos = find_available(h);
+			auto alloc = value_allocator{get_allocator()};
+			auto *dst = m_buffer.nodes() + pos;
+
+			dst->construct(alloc, src.value());
+			commit_node(dst, pos, h);
+		}
+		void commit_node(bucket_node *node, size_type pos, std::size_t h) noexcept
+		{
+			insert_link({}, node);
+			node->hash() = h;
+
+			m_num_empty -= m_buffer.meta()[pos] == meta_byte::empty;
+			set_metadata(pos, decompose_hash(h).second);
+			++m_size;
 		}
 		void move_data(swiss_table &other)
 		{
@@ -1504,24 +1509,28 @@ namespace tpp::_detail
 			m_buffer.reallocate(other.m_buffer.capacity);
 			m_buffer.fill_empty();
 
-			/* Move elements from the other table. */
-			auto alloc = value_allocator{get_allocator()}, other_alloc = value_allocator{other.get_allocator()};
-			auto *nodes = m_buffer.nodes(), *other_nodes = other.m_buffer.nodes();
-			auto *other_metadata = other.m_buffer.meta();
-			for (size_type i = 0; i != other.m_buffer.capacity; ++i)
-				if (is_occupied(other_metadata[i]))
-				{
-					auto *src_node = other_nodes + i, *dst_node = nodes + i;
-					dst_node->relocate(alloc, other_alloc, *src_node);
-					set_metadata(i, other_metadata[i]);
-				}
-			m_size = other.m_size;
-			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
+			m_num_empty = capacity_to_max_size(m_buffer.capacity);
+
+			/* Move elements from the other table. Allocators are not equal, thus elements must be re-created. */
+			if constexpr (is_ordered::value)
+				for (auto *link = other.header_link()->off(other.header_link()->next); link != other.header_link(); link = link->off(link->next))
+					move_node(*static_cast<bucket_node *>(link));
+			else
+				for (size_type i = 0; i != other.m_buffer.capacity; ++i)
+					if (is_occupied(other.m_buffer.meta()[i])) move_node(other.m_buffer.nodes()[i]);
 
 			/* Reset the other table. */
-			other.m_size = 0;
-			other.m_num_empty = capacity_to_max_size(other.m_buffer.capacity);
-			other.m_buffer.fill_empty();
+			other.clear();
+		}
+		void move_node(bucket_node &src)
+		{
+			const auto h = src.hash();
+			const auto pos = find_available(h);
+			auto alloc = value_allocator{get_allocator()};
+			auto *dst = m_buffer.nodes() + pos;
+
+			dst->construct(alloc, std::move(src.value()));
+			commit_node(dst, pos, h);
 		}
 		void erase_nodes()
 		{
@@ -1537,10 +1546,14 @@ namespace tpp::_detail
 			std::swap(m_size, other.m_size);
 			std::swap(m_num_empty, other.m_num_empty);
 			m_buffer.swap_data(other.m_buffer);
+			if constexpr (is_ordered::value)
+				*header_link() = std::move(*other.header_link());
 		}
 		void move_from(swiss_table &other)
 		{
-			if (m_buffer.can_swap(other.m_buffer))
+			if constexpr (std::allocator_traits<allocator_type>::is_always_equal::value)
+				swap_buffers(other);
+			else if (m_buffer.can_swap(other.m_buffer))
 				swap_buffers(other);
 			else
 				move_data(other);
-- 
2.43.0


From eb3e3ec67d884938acbc9f24394f13fa00135b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:51 +0000
Subject: [PATCH 19/43] fix: swap of containers with unequal propagating
 allocators violates its own assertion

---
 tpp/detail/dense_table.hpp |  7 ++++---
 tpp/detail/swiss_table.hpp | 10 ++++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index f34393e..0dc8153 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -475,11 +475,12 @@ namespace tpp::_detail
 
 			if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_swap::value)
 				swap(sparse_alloc(), other.sparse_alloc());
+			else
+				TPP_ASSERT(allocator_eq(sparse_alloc(), other.sparse_alloc()), "Swapped allocators must be equal");
 			if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_swap::value)
 				swap(dense_alloc(), other.dense_alloc());
-
-			TPP_ASSERT(allocator_eq(sparse_alloc(), other.sparse_alloc()), "Swapped allocators must be equal");
-			TPP_ASSERT(allocator_eq(dense_alloc(), other.dense_alloc()), "Swapped allocators must be equal");
+			else
+				TPP_ASSERT(allocator_eq(dense_alloc(), other.dense_alloc()), "Swapped allocators must be equal");
 
 			swap_buffers(other);
 			swap(m_max_load_factor, other.m_max_load_factor);
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 8d4123c..26d8470 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -581,8 +581,6 @@ namespace tpp::_detail
 
 		void swap_data(swiss_table_buffer &other) noexcept
 		{
-			TPP_ASSERT(allocator_eq(meta_alloc(), other.meta_alloc()) && allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
-
 			using std::swap;
 			swap(capacity, other.capacity);
 			swap(m_metadata, other.m_metadata);
@@ -593,8 +591,12 @@ namespace tpp::_detail
 			using std::swap;
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_swap::value)
 				swap(meta_alloc(), other.meta_alloc());
+			else
+				TPP_ASSERT(allocator_eq(meta_alloc(), other.meta_alloc()), "Swapped allocators must be equal");
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
 				swap(node_alloc(), other.node_alloc());
+			else
+				TPP_ASSERT(allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
 			swap_data(other);
 		}
 
@@ -719,8 +721,6 @@ namespace tpp::_detail
 
 		void swap_data(swiss_table_buffer &other) noexcept
 		{
-			TPP_ASSERT(allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
-
 			using std::swap;
 			swap(capacity, other.capacity);
 			swap(m_data, other.m_data);
@@ -730,6 +730,8 @@ namespace tpp::_detail
 			using std::swap;
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
 				swap(node_alloc(), other.node_alloc());
+			else
+				TPP_ASSERT(allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
 			swap_data(other);
 		}
 
-- 
2.43.0


From f0e0f63bdec8690f56f6647717b9ff43118cfb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 20/43] fix: replacing a mapped value destroys it before its
 arguments are used

---
 tpp/detail/table_common.hpp | 38 +++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 6516f2b..30ae5c2 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -203,6 +203,26 @@ namespace tpp::_detail
 	template<typename T>
 	struct node_hash<T, false> { using type = std::size_t; };
 
+	/* Arguments may refer to the replaced value, and construction of the new value may throw. In both cases the old value must still be alive. */
+	template<typename T, typename... Args>
+	inline void replace_value(T &target, Args &&...args)
+	{
+		static_assert(std::is_constructible_v<T, Args...>);
+		if constexpr (std::is_move_assignable_v<T>)
+			target = T(std::forward<Args>(args)...);
+		else if constexpr (std::is_move_constructible_v<T>)
+		{
+			auto tmp = T(std::forward<Args>(args)...);
+			target.~T();
+			new(&target) T(std::move(tmp));
+		}
+		else
+		{
+			target.~T();
+			new(&target) T(std::forward<Args>(args)...);
+		}
+	}
+
 	template<typename V, typename A, typename Traits>
 	class packed_node : public Traits::link_type
 	{
@@ -243,14 +263,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		void replace(Args &&...args)
 		{
-			auto &target = mapped();
-			using mapped_t = std::remove_reference_t<decltype(target)>;
-
-			if constexpr (!std::is_trivially_destructible_v<mapped_t>)
-				target.~mapped_t();
-
-			static_assert(std::is_constructible_v<mapped_t, Args...>);
-			new(&target) mapped_t(std::forward<Args>(args)...);
+			replace_value(mapped(), std::forward<Args>(args)...);
 		}
 		void destroy(A &alloc) { std::allocator_traits<allocator_type>::destroy(alloc, &value()); }
 
@@ -447,14 +460,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		void replace(Args &&...args)
 		{
-			auto &target = mapped();
-			using mapped_t = std::remove_reference_t<decltype(target)>;
-
-			if constexpr (!std::is_trivially_destructible_v<mapped_t>)
-				target.~mapped_t();
-
-			static_assert(std::is_constructible_v<mapped_t, Args...>);
-			new(&target) mapped_t(std::forward<Args>(args)...);
+			replace_value(mapped(), std::forward<Args>(args)...);
 		}
 		void destroy(A &alloc)
 		{
-- 
2.43.0


From ea1c15a6787040a1776778e06396468da4622b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:50 +0000
Subject: [PATCH 21/43] fix: swiss tables & stable nodes leak or corrupt memory
 when an allocation or element construction throws

---
 tpp/detail/swiss_table.hpp  | 36 +++++++++++++++++++-----------------
 tpp/detail/table_common.hpp | 30 ++++++++++++++++++++++++++----
 2 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 26d8470..9a28444 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -549,22 +549,25 @@ namespace tpp::_detail
 
 		void allocate(size_type n)
 		{
-			m_metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
-			m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
+			const auto tmp_metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
+			try
+			{
+				m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
+			}
+			catch (...)
+			{
+				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), tmp_metadata, n + sizeof(meta_block));
+				throw;
+			}
+			m_metadata = tmp_metadata;
 			capacity = n;
 		}
 		void reallocate(size_type n)
 		{
 			if (capacity < n)
 			{
-				if (capacity != 0)
-				{
-					std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
-					std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
-				}
-				m_metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
-				m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
-				capacity = n;
+				deallocate();
+				allocate(n);
 			}
 		}
 		void deallocate()
@@ -704,9 +707,8 @@ namespace tpp::_detail
 		{
 			if (capacity < n)
 			{
-				if (capacity) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
-				m_data = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), buffer_size(n));
-				capacity = n;
+				deallocate();
+				allocate(n);
 			}
 		}
 		void deallocate()
@@ -1326,10 +1328,8 @@ namespace tpp::_detail
 			auto tmp = bucket_node{};
 
 			tmp.construct(alloc, std::forward<Args>(args)...);
-			auto result = do_insert(hint, tmp.key(), std::move(tmp));
-			tmp.destroy(alloc);
-
-			return result;
+			const auto guard = node_guard<bucket_node, value_allocator>{tmp, alloc};
+			return do_insert(hint, tmp.key(), std::move(tmp));
 		}
 		template<typename T, typename... Args>
 		std::pair<iterator, bool> do_try_emplace(node_iterator hint, T &&key, Args &&...args)
@@ -1462,6 +1462,7 @@ namespace tpp::_detail
 			}
 
 			/* (re)allocate the metadata & node buffers if needed. */
+			m_num_empty = 0;
 			m_buffer.reallocate(other.m_buffer.capacity);
 			m_buffer.fill_empty();
 
@@ -1508,6 +1509,7 @@ namespace tpp::_detail
 			}
 
 			/* (re)allocate the metadata & node buffers if needed. */
+			m_num_empty = 0;
 			m_buffer.reallocate(other.m_buffer.capacity);
 			m_buffer.fill_empty();
 
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 30ae5c2..f477c20 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -203,6 +203,19 @@ namespace tpp::_detail
 	template<typename T>
 	struct node_hash<T, false> { using type = std::size_t; };
 
+	/* Helper used to destroy a temporary node. */
+	template<typename Node, typename Alloc>
+	struct node_guard
+	{
+		node_guard(Node &node, Alloc &alloc) noexcept : node(node), alloc(alloc) {}
+		node_guard(const node_guard &) = delete;
+		node_guard &operator=(const node_guard &) = delete;
+		~node_guard() { node.destroy(alloc); }
+
+		Node &node;
+		Alloc &alloc;
+	};
+
 	/* Arguments may refer to the replaced value, and construction of the new value may throw. In both cases the old value must still be alive. */
 	template<typename T, typename... Args>
 	inline void replace_value(T &target, Args &&...args)
@@ -370,8 +383,8 @@ namespace tpp::_detail
 				using std::swap;
 				if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_swap::value)
 					swap(alloc(), other.alloc());
-
-				assert_alloc(other);
+				else
+					assert_alloc(other);
 				swap(m_ptr, other.m_ptr);
 			}
 			friend void swap(extracted_type &a, extracted_type &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
@@ -454,8 +467,17 @@ namespace tpp::_detail
 		template<typename... Args, typename = std::enable_if_t<std::is_constructible_v<V, Args...>>>
 		void construct(allocator_type &alloc, Args &&...args)
 		{
-			m_ptr = std::allocator_traits<allocator_type>::allocate(alloc, 1);
-			std::allocator_traits<allocator_type>::construct(alloc, m_ptr, std::forward<Args>(args)...);
+			const auto ptr = std::allocator_traits<allocator_type>::allocate(alloc, 1);
+			try
+			{
+				std::allocator_traits<allocator_type>::construct(alloc, ptr, std::forward<Args>(args)...);
+			}
+			catch (...)
+			{
+				std::allocator_traits<allocator_type>::deallocate(alloc, ptr, 1);
+				throw;
+			}
+			m_ptr = ptr;
 		}
 		template<typename... Args>
 		void replace(Args &&...args)
-- 
2.43.0


From 2ed1231eb4a0786293377ea375833736048bb2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 22/43] fix: growth of swiss tables invalidates the insertion
 hint and arguments that refer to elements of the table

---
 tpp/detail/swiss_table.hpp | 115 +++++++++++++++++++++++++------------
 1 file changed, 79 insertions(+), 36 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 9a28444..6190e79 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -970,7 +970,7 @@ namespace tpp::_detail
 
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return {emplace_node({}, h, std::forward<N>(node)), true};
+				return {emplace_extracted({}, h, std::forward<N>(node)), true};
 			else
 				return {to_iter(target_pos), false, std::forward<N>(node)};
 		}
@@ -981,7 +981,7 @@ namespace tpp::_detail
 
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
+				return emplace_extracted(to_underlying(hint), h, std::forward<N>(node));
 			else
 				return to_iter(target_pos);
 		}
@@ -1006,7 +1006,7 @@ namespace tpp::_detail
 
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return {emplace_node({}, h, std::forward<N>(node)), true};
+				return {emplace_extracted({}, h, std::forward<N>(node)), true};
 			else
 			{
 				auto alloc = value_allocator{get_allocator()};
@@ -1023,7 +1023,7 @@ namespace tpp::_detail
 
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
+				return emplace_extracted(to_underlying(hint), h, std::forward<N>(node));
 			else
 			{
 				auto alloc = value_allocator{get_allocator()};
@@ -1115,7 +1115,7 @@ namespace tpp::_detail
 			{
 				const auto &key = ValueTraits::get_key(*pos);
 				const auto h = hash(key);
-				if (find_node(key, h) == m_buffer.capacity) emplace_node({}, h, other.extract(pos));
+				if (find_node(key, h) == m_buffer.capacity) emplace_extracted({}, h, other.extract(pos));
 			};
 			/* Advance past the element before the transfer, since ordered iterators are invalidated by it. */
 			for (auto pos = other.begin(), last = other.end(); pos != last;) transfer(pos++);
@@ -1259,6 +1259,33 @@ namespace tpp::_detail
 			metadata[pos] = value;
 		}
 
+		/* Helper used to update an insertion hint after relocation of nodes. */
+		class link_guard
+		{
+		public:
+			explicit link_guard(node_iterator &hint) noexcept : m_hint(hint)
+			{
+				if constexpr (is_ordered::value)
+					if (m_hint.link) m_link.link(const_cast<bucket_link *>(m_hint.link));
+			}
+			~link_guard()
+			{
+				if constexpr (is_ordered::value)
+					if (m_hint.link)
+					{
+						m_hint.link = m_link.off(m_link.prev);
+						m_link.unlink();
+					}
+			}
+
+			link_guard(const link_guard &) = delete;
+			link_guard &operator=(const link_guard &) = delete;
+
+		private:
+			node_iterator &m_hint;
+			bucket_link m_link = {};
+		};
+
 		void insert_link(node_iterator hint, bucket_node *node) noexcept
 		{
 			if constexpr (is_ordered::value)
@@ -1270,39 +1297,55 @@ namespace tpp::_detail
 		template<typename... Args>
 		iterator emplace_node(node_iterator hint, std::size_t h, Args &&...args)
 		{
-			size_type target_pos;
-			TPP_IF_UNLIKELY(m_buffer.capacity == 0)
-			{
-				do_rehash(1);
-				target_pos = find_available(h);
-			} else
+			auto alloc = value_allocator{get_allocator()};
+			auto target_pos = m_buffer.capacity ? find_available(h) : 0;
+			TPP_IF_UNLIKELY(!has_space(target_pos))
 			{
+				/* Arguments may refer to elements of the table, thus the new element must be created before the existing ones are relocated. */
+				auto tmp = bucket_node{};
+				tmp.construct(alloc, std::forward<Args>(args)...);
+				const auto guard = node_guard<bucket_node, value_allocator>{tmp, alloc};
+
+				make_space(hint);
 				target_pos = find_available(h);
-				TPP_IF_UNLIKELY(!m_num_empty && m_buffer.meta()[target_pos] != meta_byte::deleted)
-				{
-					/* Do an in-place rehash by reclaiming deleted entries. Choice of coefficients is outlined by the reference implementation at
-					 * https://github.com/abseil/abseil-cpp/blob/f7affaf32a6a396465507dd10520a3fe183d4e40/absl/container/internal/raw_hash_set.cc#L97
-					 *
-					 * NOTE: Reclaiming deleted entries may leave blocks partially empty. */
-					if (m_buffer.capacity > sizeof(meta_block) && static_cast<std::uint64_t>(m_size) * 32 <= static_cast<std::uint64_t>(m_buffer.capacity) * 25)
-						rehash_deleted();
-					else
-						do_rehash((m_buffer.capacity + 1) * 2 - 1);
-					target_pos = find_available(h);
-				}
+				m_buffer.nodes()[target_pos].construct(alloc, std::move(tmp));
 			}
+			else
+				m_buffer.nodes()[target_pos].construct(alloc, std::forward<Args>(args)...);
 
-			auto *target = m_buffer.nodes() + target_pos;
-			auto alloc = value_allocator{get_allocator()};
-			target->construct(alloc, std::forward<Args>(args)...);
-			insert_link(hint, target);
-			target->hash() = h;
+			commit_node(hint, m_buffer.nodes() + target_pos, target_pos, h);
+			return to_iter(target_pos);
+		}
+		template<typename N>
+		iterator emplace_extracted(node_iterator hint, std::size_t h, N &&node)
+		{
+			/* Extracted node must be preserved if there is no space for it. */
+			TPP_IF_UNLIKELY(!has_space(m_buffer.capacity ? find_available(h) : 0)) make_space(hint);
+			return emplace_node(hint, h, std::forward<N>(node));
+		}
 
-			m_num_empty -= m_buffer.meta()[target_pos] == meta_byte::empty;
-			set_metadata(target_pos, decompose_hash(h).second);
-			++m_size;
+		[[nodiscard]] bool has_space(size_type pos) const noexcept
+		{
+			return m_buffer.capacity && (m_num_empty || m_buffer.meta()[pos] == meta_byte::deleted);
+		}
+		void make_space(node_iterator &hint)
+		{
+			/* Insertion hint must follow the relocated element it points to. */
+			[[maybe_unused]] const auto hint_guard = link_guard{hint};
 
-			return to_iter(target_pos);
+			if (m_buffer.capacity == 0)
+				do_rehash(1);
+			else
+			{
+				/* Do an in-place rehash by reclaiming deleted entries. Choice of coefficients is outlined by the reference implementation at
+				 * https://github.com/abseil/abseil-cpp/blob/f7affaf32a6a396465507dd10520a3fe183d4e40/absl/container/internal/raw_hash_set.cc#L97
+				 *
+				 * NOTE: Reclaiming deleted entries may leave blocks partially empty. */
+				if (m_buffer.capacity > sizeof(meta_block) && static_cast<std::uint64_t>(m_size) * 32 <= static_cast<std::uint64_t>(m_buffer.capacity) * 25)
+					rehash_deleted();
+				else
+					do_rehash((m_buffer.capacity + 1) * 2 - 1);
+			}
 		}
 		iterator erase_node(size_type pos, bucket_node *node)
 		{
@@ -1484,11 +1527,11 @@ namespace tpp::_detail
 			auto *dst = m_buffer.nodes() + pos;
 
 			dst->construct(alloc, src.value());
-			commit_node(dst, pos, h);
+			commit_node({}, dst, pos, h);
 		}
-		void commit_node(bucket_node *node, size_type pos, std::size_t h) noexcept
+		void commit_node(node_iterator hint, bucket_node *node, size_type pos, std::size_t h) noexcept
 		{
-			insert_link({}, node);
+			insert_link(hint, node);
 			node->hash() = h;
 
 			m_num_empty -= m_buffer.meta()[pos] == meta_byte::empty;
@@ -1534,7 +1577,7 @@ namespace tpp::_detail
 			auto *dst = m_buffer.nodes() + pos;
 
 			dst->construct(alloc, std::move(src.value()));
-			commit_node(dst, pos, h);
+			commit_node({}, dst, pos, h);
 		}
 		void erase_nodes()
 		{
-- 
2.43.0


From 7083823c9fc65dba52c69949fdfef4745bef50af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 23/43] fix: move between containers with unequal allocators is
 noexcept, but allocates

---
 tpp/detail/dense_table.hpp | 4 ++--
 tpp/detail/swiss_table.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 0dc8153..99327d8 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -243,7 +243,7 @@ namespace tpp::_detail
 		{
 			move_from(other);
 		}
-		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::is_nothrow_constructible_v<sparse_allocator, sparse_allocator> && std::is_nothrow_constructible_v<dense_allocator, dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
+		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_constructible_v<sparse_allocator, sparse_allocator> && std::is_nothrow_constructible_v<dense_allocator, dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
 				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
 		{
 			move_from(other);
@@ -275,7 +275,7 @@ namespace tpp::_detail
 			}
 			return *this;
 		}
-		dense_table &operator=(dense_table &&other) noexcept(std::is_nothrow_move_assignable_v<sparse_allocator> && std::is_nothrow_move_assignable_v<dense_allocator> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
+		dense_table &operator=(dense_table &&other) noexcept((std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value || std::allocator_traits<allocator_type>::is_always_equal::value) && std::is_nothrow_move_assignable_v<sparse_allocator> && std::is_nothrow_move_assignable_v<dense_allocator> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
 		{
 			if (this != &other)
 			{
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 6190e79..e250115 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -856,7 +856,7 @@ namespace tpp::_detail
 
 		swiss_table(swiss_table &&other) noexcept(std::is_nothrow_move_constructible_v<buffer_type> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
 				: hash_base(std::move(other)), cmp_base(std::move(other)), m_buffer(std::move(other.m_buffer)) { swap_buffers(other); }
-		swiss_table(swiss_table &&other, const allocator_type &alloc) noexcept(std::is_nothrow_constructible_v<buffer_type, const allocator_type &> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
+		swiss_table(swiss_table &&other, const allocator_type &alloc) noexcept(std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_constructible_v<buffer_type, const allocator_type &> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
 				: hash_base(std::move(other)), cmp_base(std::move(other)), m_buffer(alloc) { move_from(other); }
 
 		swiss_table &operator=(const swiss_table &other)
@@ -872,7 +872,7 @@ namespace tpp::_detail
 			}
 			return *this;
 		}
-		swiss_table &operator=(swiss_table &&other) noexcept(std::is_nothrow_move_assignable_v<buffer_type> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
+		swiss_table &operator=(swiss_table &&other) noexcept((std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value || std::allocator_traits<allocator_type>::is_always_equal::value) && std::is_nothrow_move_assignable_v<buffer_type> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
 		{
 			if (this != &other)
 			{
-- 
2.43.0


From 7ac5ff3c8f74bcb3297285e86ce42eee6c215c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 24/43] fix: copies and moves of dense tables leave stale
 buckets & links, use the wrong allocator and leak on exceptions

---
 tpp/detail/dense_table.hpp | 85 ++++++++++++++++++++------------------
 tpp/detail/utility.hpp     |  3 +-
 2 files changed, 47 insertions(+), 41 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 99327d8..7ff8a6b 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -216,12 +216,13 @@ namespace tpp::_detail
 		dense_table() {}
 
 		dense_table(const allocator_type &alloc) : sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}) {}
-		dense_table(size_type bucket_count, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : sparse_alloc_base(alloc), dense_alloc_base(alloc), hash_base(hash), cmp_base(cmp)
+		dense_table(const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : sparse_alloc_base(alloc), dense_alloc_base(alloc), hash_base(hash), cmp_base(cmp) {}
+		dense_table(size_type bucket_count, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : dense_table(hash, cmp, alloc)
 		{
 			TPP_IF_LIKELY(bucket_count != 0)
 			{
-				m_dense = std::allocator_traits<dense_allocator>::allocate(dense_alloc(), m_dense_capacity = bucket_count);
-				m_sparse = std::allocator_traits<sparse_allocator>::allocate(sparse_alloc(), m_sparse_size = bucket_count);
+				realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, bucket_count);
+				realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, bucket_count);
 				std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
 			}
 		}
@@ -229,22 +230,20 @@ namespace tpp::_detail
 		template<typename Iter>
 		dense_table(Iter first, Iter last, size_type bucket_count, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : dense_table(distance_or_n(first, last, bucket_count), hash, cmp, alloc) { insert(first, last); }
 
-		dense_table(const dense_table &other) : sparse_alloc_base(allocator_copy(other.sparse_alloc())), dense_alloc_base(allocator_copy(other.dense_alloc())), hash_base(other), cmp_base(other), link_base(other), m_max_load_factor(other.m_max_load_factor)
-		{
-			copy_data(other);
-		}
-		dense_table(const dense_table &other, const allocator_type &alloc) : sparse_alloc_base(alloc), dense_alloc_base(alloc), hash_base(other), cmp_base(other), link_base(other), m_max_load_factor(other.m_max_load_factor)
+		dense_table(const dense_table &other) : dense_table(other, allocator_copy(allocator_type{other.get_allocator()})) {}
+		dense_table(const dense_table &other, const allocator_type &alloc) : dense_table(other.get_hash(), other.get_cmp(), alloc)
 		{
+			m_max_load_factor = other.m_max_load_factor;
 			copy_data(other);
 		}
 
 		dense_table(dense_table &&other) noexcept(std::is_nothrow_move_constructible_v<sparse_allocator> && std::is_nothrow_move_constructible_v<dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: sparse_alloc_base(std::move(other)), dense_alloc_base(std::move(other)), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
+				: sparse_alloc_base(std::move(other)), dense_alloc_base(std::move(other)), hash_base(std::move(other)), cmp_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
 		{
 			move_from(other);
 		}
 		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_constructible_v<sparse_allocator, sparse_allocator> && std::is_nothrow_constructible_v<dense_allocator, dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
+				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
 		{
 			move_from(other);
 		}
@@ -253,12 +252,11 @@ namespace tpp::_detail
 		{
 			if (this != &other)
 			{
-				link_base::operator=(other);
+				clear();
 				hash_base::operator=(other);
 				cmp_base::operator=(other);
 
 				m_max_load_factor = other.m_max_load_factor;
-				clear_data();
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_copy_assignment::value)
 				{
@@ -279,12 +277,11 @@ namespace tpp::_detail
 		{
 			if (this != &other)
 			{
-				link_base::operator=(std::move(other));
+				clear();
 				hash_base::operator=(std::move(other));
 				cmp_base::operator=(std::move(other));
 
 				m_max_load_factor = other.m_max_load_factor;
-				clear_data();
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_move_assignment::value)
 				{
@@ -558,9 +555,10 @@ namespace tpp::_detail
 		template<typename... Args>
 		auto push_node(Args &&...args) -> std::pair<size_type, bucket_node *>
 		{
-			const auto pos = m_dense_size++;
+			const auto pos = m_dense_size;
 			auto alloc = allocator_type{dense_alloc()};
 			m_dense[pos].construct(alloc, std::forward<Args>(args)...);
+			++m_dense_size;
 			return {pos, m_dense + pos};
 		}
 		void pop_node()
@@ -849,23 +847,16 @@ namespace tpp::_detail
 			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
 
 			/* Copy & insert elements from the other table. */
-			auto alloc = allocator_type{dense_alloc()};
-			for (; m_dense_size < other.size(); ++m_dense_size)
+			const auto copy_node = [&](const bucket_node &from)
 			{
-				auto &from = other.m_dense[m_dense_size];
-				auto &to = m_dense[m_dense_size];
-				to.construct(alloc, from);
-				(insert_node<Is>(to, m_dense_size), ...);
-			}
-
-			/* If the node link is ordered, update header offsets to point to the copied data. */
+				const auto [pos, node] = push_node(from.value());
+				link_node<Is...>(pos, node, from.hash());
+			};
 			if constexpr (is_ordered::value)
-				if (m_dense_size != 0)
-				{
-					const auto front_off = other.front_node() - other.m_dense;
-					const auto back_off = other.back_node() - other.m_dense;
-					header_link()->link(to_address(m_dense + front_off), to_address(m_dense + back_off));
-				}
+				for (auto *link = other.header_link()->off(other.header_link()->next); link != other.header_link(); link = link->off(link->next))
+					copy_node(*static_cast<bucket_node *>(link));
+			else
+				for (size_type i = 0; i < other.size(); ++i) copy_node(other.m_dense[i]);
 		}
 		template<std::size_t... Is>
 		void move_data(std::index_sequence<Is...>, dense_table &other)
@@ -885,16 +876,27 @@ namespace tpp::_detail
 			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
 
-			/* Move & insert elements from the other table. */
-			auto alloc = allocator_type{dense_alloc()};
-			for (; m_dense_size < other.size(); ++m_dense_size)
+			/* Move & insert elements from the other table. Allocators are not equal, thus elements must be re-created. */
+			const auto move_node = [&](bucket_node &from)
 			{
-				auto &from = other.m_dense[m_dense_size];
-				auto &to = m_dense[m_dense_size];
-				to.relocate(alloc, alloc, from);
-				(insert_node<Is>(to, m_dense_size), ...);
-			}
-			other.m_dense_size = 0;
+				const auto [pos, node] = push_node(std::move(from.value()));
+				link_node<Is...>(pos, node, from.hash());
+			};
+			if constexpr (is_ordered::value)
+				for (auto *link = other.header_link()->off(other.header_link()->next); link != other.header_link(); link = link->off(link->next))
+					move_node(*static_cast<bucket_node *>(link));
+			else
+				for (size_type i = 0; i < other.size(); ++i) move_node(other.m_dense[i]);
+
+			/* Reset the other table. */
+			other.clear();
+		}
+		template<std::size_t... Is>
+		void link_node(size_type pos, bucket_node *node, const bucket_hash &hashes) noexcept
+		{
+			node->hash() = hashes;
+			if constexpr (is_ordered::value) node->link(back_node());
+			(insert_node<Is>(*node, pos), ...);
 		}
 
 		void copy_data(const dense_table &other) { copy_data(std::make_index_sequence<key_size>{}, other); }
@@ -917,8 +919,11 @@ namespace tpp::_detail
 		void move_from(dense_table &other)
 		{
 			if (allocator_eq(sparse_alloc(), other.sparse_alloc()) && allocator_eq(dense_alloc(), other.dense_alloc()))
+			{
 				swap_buffers(other);
-			else
+				if constexpr (is_ordered::value)
+					*header_link() = std::move(*other.header_link());
+			} else
 				move_data(other);
 		}
 
diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index 27e9d90..b5f405f 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -237,8 +237,9 @@ namespace tpp::_detail
 	{
 		if (buff.second < new_size)
 		{
+			const auto ptr = std::allocator_traits<A>::allocate(alloc, new_size);
 			if (buff.first) std::allocator_traits<A>::deallocate(alloc, buff.first, buff.second);
-			buff.first = std::allocator_traits<A>::allocate(alloc, buff.second = new_size);
+			buff = {ptr, new_size};
 		}
 		return buff;
 	}
-- 
2.43.0


From b76b6acd6a6a47d35d11ca6782cc95c4e48c8fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 25/43] fix: insertion into dense tables (dangling hint &
 arguments on growth, rejected insertion invalidates elements, inconsistent
 state on exceptions)

---
 tpp/detail/dense_table.hpp | 112 ++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 57 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 7ff8a6b..bee9559 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -575,6 +575,12 @@ namespace tpp::_detail
 			*chain_idx = pos;
 		}
 		template<std::size_t J>
+		void append_node(bucket_node &node, size_type pos) noexcept
+		{
+			node.next[J] = npos;
+			*find_chain_ptr<J>(get_chain<J>(node.template hash<J>()), npos) = pos;
+		}
+		template<std::size_t J>
 		void move_chain(size_type from, size_type to) noexcept
 		{
 			auto &target = *find_chain_ptr<J>(get_chain<J>(m_dense[from].template hash<J>()), from);
@@ -582,22 +588,33 @@ namespace tpp::_detail
 			target = to;
 		}
 
-		template<std::size_t... Is>
-		iterator commit_node(node_iterator hint, size_type pos, chain_slice slice, bucket_hash hashes, bucket_node *node)
+		template<std::size_t... Is, typename... Args>
+		iterator emplace_node(node_iterator hint, const bucket_hash &hashes, Args &&...args)
 		{
+			maybe_rehash();
+
+			auto pos = m_dense_size;
+			TPP_IF_UNLIKELY(m_dense_capacity == m_dense_size)
+			{
+				/* Arguments may refer to elements of the table, thus the new element must be created before the existing ones are relocated. */
+				auto alloc = allocator_type{dense_alloc()};
+				auto tmp = bucket_node{};
+				tmp.construct(alloc, std::forward<Args>(args)...);
+				const auto guard = node_guard<bucket_node, allocator_type>{tmp, alloc};
+
+				resize_data(m_dense_capacity ? m_dense_capacity * 2 : 1, hint);
+				push_node(std::move(tmp));
+			}
+			else
+				push_node(std::forward<Args>(args)...);
+
 			/* Create the bucket and insertion order links. */
+			auto *node = to_address(m_dense + pos);
 			if constexpr (is_ordered::value) node->link(hint.link ? const_cast<bucket_link *>(hint.link) : back_node());
-			((*slice[Is] = pos), ...); /* Node is always inserted at the end of the chain. */
-
-			((node->template hash<Is>() = hashes[Is]), ...);
+			node->hash() = hashes;
+			(append_node<Is>(*node, pos), ...); /* Node is always inserted at the end of the chain. */
 			return to_iter(node);
 		}
-		template<std::size_t... Is, typename... Args>
-		iterator emplace_node(node_iterator hint, chain_slice slice, bucket_hash hashes, Args &&...args)
-		{
-			const auto [pos, node] = push_node(std::forward<Args>(args)...);
-			return commit_node<Is...>(hint, pos, slice, hashes, node);
-		}
 		template<std::size_t... Is>
 		iterator erase_node(size_type pos, bucket_node *node, chain_slice slice)
 		{
@@ -628,23 +645,22 @@ namespace tpp::_detail
 		template<typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_emplace(std::index_sequence<Is...>, node_iterator hint, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* Create a temporary object to check if it already exists within the table. */
-			const auto [pos, tmp] = push_node(std::forward<Args>(args)...);
-			const auto hs = bucket_hash{hash(tmp->template key<Is>())...};
-			const auto node_list = std::array{find_node<Is>(tmp->template key<Is>(), hs[Is])...};
-			for (auto [node, chain]: node_list)
+			auto alloc = allocator_type{dense_alloc()};
+			auto tmp = bucket_node{};
+			tmp.construct(alloc, std::forward<Args>(args)...);
+			const auto guard = node_guard<bucket_node, allocator_type>{tmp, alloc};
+
+			const auto hs = bucket_hash{hash(tmp.template key<Is>())...};
+			for (auto [node, chain]: std::array{find_node<Is>(tmp.template key<Is>(), hs[Is])...})
 				if (chain && *chain != npos)
 				{
 					/* Found a conflict, return the existing node. */
-					pop_node();
 					return {to_iter(node), false};
 				}
 
 			/* No conflicts found, commit the node. */
-			return {commit_node<Is...>(hint, pos, {node_list[Is].second...}, hs, tmp), true};
+			return {emplace_node<Is...>(hint, hs, std::move(tmp)), true};
 		}
 		template<typename... Args>
 		std::pair<iterator, bool> do_emplace(node_iterator hint, Args &&...args)
@@ -656,21 +672,17 @@ namespace tpp::_detail
 		template<typename... Ks, typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_try_emplace(std::index_sequence<Is...>, node_iterator hint, std::tuple<Ks...> ks, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, do nothing. Otherwise, emplace a new entry. */
 			const auto hs = bucket_hash{hash(std::get<Is>(ks))...};
-			const auto node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
-			for (auto [node, chain]: node_list)
-				if (*chain != npos)
+			for (auto [node, chain]: std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...})
+				if (chain && *chain != npos)
 				{
 					/* Found a conflict, return the existing node. */
 					return {to_iter(node), false};
 				}
 
 			/* No conflicts found, proceed with insertion. */
-			return {emplace_node<Is...>(hint, {node_list[Is].second...}, hs, std::piecewise_construct, std::move(ks),
+			return {emplace_node<Is...>(hint, hs, std::piecewise_construct, std::move(ks),
 			                            std::forward_as_tuple(std::forward<Args>(args)...)), true};
 		}
 		template<typename... Ks, typename... Args>
@@ -682,13 +694,9 @@ namespace tpp::_detail
 		template<typename... Ks, typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_insert(std::index_sequence<Is...>, node_iterator hint, const std::tuple<Ks...> &ks, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, do nothing. Otherwise, emplace a new entry. */
 			const auto hs = bucket_hash{hash(std::get<Is>(ks))...};
-			const auto node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
-			for (auto [node, chain]: node_list)
+			for (auto [node, chain]: std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...})
 				if (chain && *chain != npos)
 				{
 					/* Found a conflict, return the existing node. */
@@ -696,7 +704,7 @@ namespace tpp::_detail
 				}
 
 			/* No conflicts found, proceed with insertion. */
-			return {emplace_node<Is...>(hint, {node_list[Is].second...}, hs, std::forward<Args>(args)...), true};
+			return {emplace_node<Is...>(hint, hs, std::forward<Args>(args)...), true};
 		}
 		template<typename... Ks, typename... Args>
 		std::pair<iterator, bool> do_insert(node_iterator hint, const std::tuple<Ks...> &ks, Args &&...args)
@@ -710,14 +718,11 @@ namespace tpp::_detail
 		{
 			static_assert(key_size == 1, "insert_or_assign is only available for keys of size 1");
 
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, replace the entry. Otherwise, emplace a new entry. */
 			const auto h = hash(key);
-			if (const auto [candidate, chain_idx] = find_node<0>(key, h); chain_idx && *chain_idx == npos)
+			if (const auto [candidate, chain_idx] = find_node<0>(key, h); !chain_idx || *chain_idx == npos)
 			{
-				return {emplace_node<0>(hint, {chain_idx}, {h},
+				return {emplace_node<0>(hint, {h},
 				                        std::piecewise_construct,
 				                        std::forward_as_tuple(std::forward<T>(key)),
 				                        std::forward_as_tuple(std::forward<Args>(args)...)),
@@ -790,6 +795,16 @@ namespace tpp::_detail
 
 		void resize_data(size_type capacity)
 		{
+			auto hint = node_iterator{};
+			resize_data(capacity, hint);
+		}
+		void resize_data(size_type capacity, node_iterator &hint)
+		{
+			/* Insertion hint must follow the relocated element it points to. */
+			auto hint_pos = npos;
+			if constexpr (is_ordered::value)
+				if (hint.link && hint.link != header_link()) hint_pos = static_cast<const bucket_node *>(hint.link) - to_address(m_dense);
+
 			auto &alloc = dense_alloc();
 			auto tmp_dense = std::allocator_traits<dense_allocator>::allocate(alloc, capacity);
 
@@ -806,26 +821,9 @@ namespace tpp::_detail
 				if (tmp_dense) std::allocator_traits<dense_allocator>::deallocate(alloc, tmp_dense, capacity);
 				throw;
 			}
-		}
-		void maybe_resize(node_iterator &hint)
-		{
-			if (m_dense_capacity == m_dense_size)
-			{
-				const auto old_dense = m_dense;
-				resize_data(m_dense_capacity ? m_dense_capacity * 2 : 1);
 
-				const auto off_bytes = (m_dense - old_dense) * sizeof(*m_dense);
-				if constexpr (is_ordered::value)
-				{
-					if (!hint.link) return;
-					hint.link += off_bytes / sizeof(bucket_link);
-				}
-				else
-				{
-					if (!hint) return;
-					hint += off_bytes / sizeof(*m_dense);
-				}
-			}
+			if constexpr (is_ordered::value)
+				if (hint_pos != npos) hint.link = to_address(m_dense + hint_pos);
 		}
 
 		template<std::size_t... Is>
-- 
2.43.0


From 1139f95c0da2aeecdccd9753db5e306b42219a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 26/43] fix: dense tables exceed the max load factor, reserve
 allocates less than requested, load factor of an empty table is NaN

---
 tpp/detail/dense_table.hpp | 20 +++++++++++++-------
 tpp/detail/swiss_table.hpp |  2 +-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index bee9559..5e96146 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -332,7 +332,7 @@ namespace tpp::_detail
 		[[nodiscard]] constexpr size_type size() const noexcept { return m_dense_size; }
 		[[nodiscard]] constexpr size_type max_size() const noexcept { return to_load_factor(max_bucket_count()); }
 		[[nodiscard]] constexpr size_type capacity() const noexcept { return to_load_factor(bucket_count()); }
-		[[nodiscard]] constexpr float load_factor() const noexcept { return static_cast<float>(size()) / static_cast<float>(bucket_count()); }
+		[[nodiscard]] constexpr float load_factor() const noexcept { return bucket_count() ? static_cast<float>(size()) / static_cast<float>(bucket_count()) : .0f; }
 
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return local_iterator{m_dense, m_sparse[n]}; }
 		[[nodiscard]] const_local_iterator begin(size_type n) const noexcept { return const_local_iterator{m_dense, m_sparse[n]}; }
@@ -357,7 +357,7 @@ namespace tpp::_detail
 		void reserve(size_type n)
 		{
 			if (n > m_dense_capacity) resize_data(n);
-			rehash(static_cast<size_type>(static_cast<float>(n) / m_max_load_factor));
+			rehash(to_bucket_count(n));
 		}
 
 		template<std::size_t J, typename T>
@@ -451,7 +451,7 @@ namespace tpp::_detail
 				return;
 
 			/* Adjust the capacity to be at least large enough to fit the current size. */
-			const auto new_cap = std::max(static_cast<size_type>(static_cast<float>(size()) / m_max_load_factor), n);
+			const auto new_cap = std::max(to_bucket_count(size()), n);
 			if (!n || new_cap != m_sparse_size) do_rehash(new_cap);
 		}
 
@@ -486,6 +486,14 @@ namespace tpp::_detail
 	private:
 		[[nodiscard]] constexpr auto to_load_factor(size_type n) const noexcept { return static_cast<size_type>(static_cast<float>(n) * m_max_load_factor); }
 
+		/* Minimum amount of buckets required to fit `n` elements without exceeding the max load factor. */
+		[[nodiscard]] constexpr size_type to_bucket_count(size_type n) const noexcept
+		{
+			auto result = static_cast<size_type>(static_cast<float>(n) / m_max_load_factor);
+			while (to_load_factor(result) < n) ++result;
+			return result;
+		}
+
 		[[nodiscard]] constexpr auto &sparse_alloc() noexcept { return sparse_alloc_base::value(); }
 		[[nodiscard]] constexpr auto &sparse_alloc() const noexcept { return sparse_alloc_base::value(); }
 		[[nodiscard]] constexpr auto &dense_alloc() noexcept { return dense_alloc_base::value(); }
@@ -787,10 +795,8 @@ namespace tpp::_detail
 		void do_rehash(size_type new_cap) { do_rehash(std::make_index_sequence<key_size>{}, new_cap); }
 		void maybe_rehash()
 		{
-			TPP_IF_UNLIKELY(bucket_count() == 0)
-				rehash(8);
-			else if (load_factor() >= m_max_load_factor)
-				rehash(bucket_count() * 2);
+			TPP_IF_UNLIKELY(size() >= capacity())
+				rehash(std::max<size_type>({8, bucket_count() * 2, to_bucket_count(size() + 1)}));
 		}
 
 		void resize_data(size_type capacity)
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index e250115..513a9db 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -912,7 +912,7 @@ namespace tpp::_detail
 		[[nodiscard]] constexpr size_type size() const noexcept { return m_size; }
 		[[nodiscard]] constexpr size_type max_size() const noexcept { return capacity_to_max_size(max_bucket_count()); }
 		[[nodiscard]] constexpr size_type capacity() const noexcept { return capacity_to_max_size(bucket_count()); }
-		[[nodiscard]] constexpr float load_factor() const noexcept { return static_cast<float>(size()) / static_cast<float>(bucket_count()); }
+		[[nodiscard]] constexpr float load_factor() const noexcept { return bucket_count() ? static_cast<float>(size()) / static_cast<float>(bucket_count()) : .0f; }
 
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_buffer.capacity; }
 		[[nodiscard]] constexpr size_type max_bucket_count() const noexcept { return std::numeric_limits<size_type>::max() - sizeof(meta_block); }
-- 
2.43.0


From 11faffe822997ce660df9f5b363e0eccb6f9e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 27/43] fix: max_size of dense tables overflows if the max load
 factor is 1 or greater

---
 tpp/detail/dense_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 5e96146..b1adabb 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -330,7 +330,7 @@ namespace tpp::_detail
 		[[nodiscard]] const_reference back() const noexcept { return *to_iter(back_node()); }
 
 		[[nodiscard]] constexpr size_type size() const noexcept { return m_dense_size; }
-		[[nodiscard]] constexpr size_type max_size() const noexcept { return to_load_factor(max_bucket_count()); }
+		[[nodiscard]] constexpr size_type max_size() const noexcept { return m_max_load_factor < 1.f ? to_load_factor(max_bucket_count()) : max_bucket_count(); }
 		[[nodiscard]] constexpr size_type capacity() const noexcept { return to_load_factor(bucket_count()); }
 		[[nodiscard]] constexpr float load_factor() const noexcept { return bucket_count() ? static_cast<float>(size()) / static_cast<float>(bucket_count()) : .0f; }
 
-- 
2.43.0


From 5387a02027a320c60647c484ce3aa052ea60a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 28/43] fix: offsets between links of different objects are
 calculated by out of bounds pointer arithmetic

---
 tpp/detail/table_common.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index f477c20..508f525 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -102,19 +102,18 @@ namespace tpp::_detail
 	/* Node link used for ordered tables. */
 	struct ordered_link
 	{
+		/* Links of a list belong to different objects, offsets between them are thus calculated as integers. */
 		[[nodiscard]] static std::ptrdiff_t byte_diff(const void *a, const void *b) noexcept
 		{
-			const auto a_bytes = static_cast<const std::uint8_t *>(a);
-			const auto b_bytes = static_cast<const std::uint8_t *>(b);
-			return a_bytes - b_bytes;
+			return static_cast<std::ptrdiff_t>(reinterpret_cast<std::uintptr_t>(a) - reinterpret_cast<std::uintptr_t>(b));
 		}
 		[[nodiscard]] static const void *byte_off(const void *p, std::ptrdiff_t n) noexcept
 		{
-			return static_cast<const std::uint8_t *>(p) + n;
+			return reinterpret_cast<const void *>(reinterpret_cast<std::uintptr_t>(p) + static_cast<std::uintptr_t>(n));
 		}
 		[[nodiscard]] static void *byte_off(void *p, std::ptrdiff_t n) noexcept
 		{
-			return static_cast<std::uint8_t *>(p) + n;
+			return reinterpret_cast<void *>(reinterpret_cast<std::uintptr_t>(p) + static_cast<std::uintptr_t>(n));
 		}
 
 		ordered_link() noexcept = default;
-- 
2.43.0


From 8e7c8d6787bca57b238a707655a6361fde9381cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 29/43] fix: assignment of an empty swiss table to one with
 deleted entries corrupts the amount of empty entries

---
 tpp/detail/swiss_table.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 513a9db..f9f91ce 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -868,6 +868,7 @@ namespace tpp::_detail
 				cmp_base::operator=(other);
 
 				m_buffer = other.m_buffer;
+				if (!m_buffer.capacity) m_num_empty = 0;
 				copy_data(other);
 			}
 			return *this;
@@ -881,6 +882,7 @@ namespace tpp::_detail
 				cmp_base::operator=(std::move(other));
 
 				m_buffer = std::move(other.m_buffer);
+				if (!m_buffer.capacity) m_num_empty = 0;
 				move_from(other);
 			}
 			return *this;
@@ -1498,11 +1500,7 @@ namespace tpp::_detail
 			TPP_ASSERT(m_size == 0, "Table must be empty prior to copying elements");
 
 			/* Ignore empty tables. */
-			TPP_IF_UNLIKELY(other.m_size == 0)
-			{
-				m_num_empty = m_buffer.capacity ? capacity_to_max_size(m_buffer.capacity) : 0;
-				return;
-			}
+			TPP_IF_UNLIKELY(other.m_size == 0) return;
 
 			/* (re)allocate the metadata & node buffers if needed. */
 			m_num_empty = 0;
@@ -1544,12 +1542,7 @@ namespace tpp::_detail
 			TPP_ASSERT(size() == 0, "Table must be empty prior to moving elements");
 
 			/* Ignore empty tables. */
-			TPP_IF_UNLIKELY(other.m_size == 0)
-			{
-				m_size = 0;
-				m_num_empty = m_buffer.capacity ? capacity_to_max_size(m_buffer.capacity) : 0;
-				return;
-			}
+			TPP_IF_UNLIKELY(other.m_size == 0) return;
 
 			/* (re)allocate the metadata & node buffers if needed. */
 			m_num_empty = 0;
-- 
2.43.0


From 27b65da8f5d21ea285b9ad8e7a055a06cbe1eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:16 +0000
Subject: [PATCH 30/43] fix: move of a node handle may construct its allocator
 from the boolean value of the handle

---
 tpp/detail/table_common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 508f525..bfe4381 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -348,7 +348,7 @@ namespace tpp::_detail
 		public:
 			constexpr extracted_type() noexcept = default;
 
-			extracted_type(extracted_type &&other) noexcept : alloc_base(std::move(other)), m_ptr(std::exchange(other.m_ptr, {})) { assert_alloc(other); }
+			extracted_type(extracted_type &&other) noexcept : alloc_base(std::move(other.alloc())), m_ptr(std::exchange(other.m_ptr, {})) { assert_alloc(other); }
 			extracted_type(allocator_type &&alloc, stable_node &&other) noexcept : alloc_base(std::move(alloc)), m_ptr(std::exchange(other.m_ptr, {})) {}
 
 			extracted_type &operator=(extracted_type &&other) noexcept
@@ -358,7 +358,7 @@ namespace tpp::_detail
 					do_destroy();
 
 					if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value)
-						alloc_base::operator=(std::move(other));
+						alloc() = std::move(other.alloc());
 
 					m_ptr = std::exchange(other.m_ptr, value_ptr{});
 					assert_alloc(other);
-- 
2.43.0


From ca1aad1709cce190cd5488dabe083f803e6fc740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:38 +0000
Subject: [PATCH 31/43] fix: failed copy of a dense table leaves its buckets
 uninitialized

---
 tpp/detail/dense_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index b1adabb..4e0a361 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -847,8 +847,8 @@ namespace tpp::_detail
 
 			/* (re)allocate the bucket & element buffers if needed. */
 			realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, other.m_sparse_size);
-			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
+			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 
 			/* Copy & insert elements from the other table. */
 			const auto copy_node = [&](const bucket_node &from)
@@ -877,8 +877,8 @@ namespace tpp::_detail
 
 			/* (re)allocate the bucket & element buffers if needed. */
 			realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, other.m_sparse_size);
-			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
+			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 
 			/* Move & insert elements from the other table. Allocators are not equal, thus elements must be re-created. */
 			const auto move_node = [&](bucket_node &from)
-- 
2.43.0


From 026c69051298cfac474d3ff3666e00a392447341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:41 +0000
Subject: [PATCH 32/43] fix: rejected try_emplace of a multimap moves from its
 key

---
 tpp/dense_multimap.hpp     | 4 ++--
 tpp/detail/dense_table.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 1cb1a92..b498806 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -256,7 +256,7 @@ namespace tpp
 		template<typename... Args>
 		std::pair<iterator, bool> try_emplace(const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(key, std::forward<Args>(args)...);
+			return m_table.try_emplace(key_type(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -281,7 +281,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, key_type(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 4e0a361..fb7f278 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -414,12 +414,12 @@ namespace tpp::_detail
 		}
 
 		template<typename... Ks, typename... Args>
-		std::pair<iterator, bool> try_emplace(std::tuple<Ks...> keys, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<Ks ...>, std::tuple<Args && ...>>))
+		std::pair<iterator, bool> try_emplace(std::tuple<Ks...> &&keys, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<Ks ...>, std::tuple<Args && ...>>))
 		{
 			return do_try_emplace({}, std::move(keys), std::forward<Args>(args)...);
 		}
 		template<typename... Ks, typename... Args>
-		iterator try_emplace(const_iterator hint, std::tuple<Ks...> keys, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<Ks ...>, std::tuple<Args && ...>>))
+		iterator try_emplace(const_iterator hint, std::tuple<Ks...> &&keys, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<Ks ...>, std::tuple<Args && ...>>))
 		{
 			return do_try_emplace(to_underlying(hint), std::move(keys), std::forward<Args>(args)...).first;
 		}
@@ -678,7 +678,7 @@ namespace tpp::_detail
 
 		/* NOTE: insert_or_assign is available only for containers where `value_type` is a pair. */
 		template<typename... Ks, typename... Args, std::size_t... Is>
-		std::pair<iterator, bool> do_try_emplace(std::index_sequence<Is...>, node_iterator hint, std::tuple<Ks...> ks, Args &&...args)
+		std::pair<iterator, bool> do_try_emplace(std::index_sequence<Is...>, node_iterator hint, std::tuple<Ks...> &&ks, Args &&...args)
 		{
 			/* If a candidate was found, do nothing. Otherwise, emplace a new entry. */
 			const auto hs = bucket_hash{hash(std::get<Is>(ks))...};
@@ -694,7 +694,7 @@ namespace tpp::_detail
 			                            std::forward_as_tuple(std::forward<Args>(args)...)), true};
 		}
 		template<typename... Ks, typename... Args>
-		std::pair<iterator, bool> do_try_emplace(node_iterator hint, std::tuple<Ks...> ks, Args &&...args)
+		std::pair<iterator, bool> do_try_emplace(node_iterator hint, std::tuple<Ks...> &&ks, Args &&...args)
 		{
 			return do_try_emplace(std::make_index_sequence<key_size>{}, hint, std::move(ks), std::forward<Args>(args)...);
 		}
-- 
2.43.0


From a7253dd7ff748f998778fdd42ac12c3102e36df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 33/43] fix: inserting an extracted node requires a movable key
 even when allocators always compare equal

---
 tpp/detail/table_common.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index bfe4381..fb2a17a 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -445,7 +445,9 @@ namespace tpp::_detail
 		void construct(allocator_type &alloc, extracted_type &&other)
 		{
 			using std::swap;
-			if (allocator_eq(alloc, other.alloc()))
+			if constexpr (std::allocator_traits<allocator_type>::is_always_equal::value)
+				m_ptr = std::exchange(other.m_ptr, value_ptr{});
+			else if (allocator_eq(alloc, other.alloc()))
 				m_ptr = std::exchange(other.m_ptr, value_ptr{});
 			else
 			{
-- 
2.43.0


From 7802ac6b1326e040fa7208d55cf66d3a38e4047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 34/43] fix: repeated range insertion into a dense table is
 quadratic

---
 tpp/detail/dense_table.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index fb7f278..5228978 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -388,7 +388,8 @@ namespace tpp::_detail
 		void insert(Iter first, Iter last)
 		{
 			if constexpr (std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<Iter>::iterator_category>)
-				reserve(size() + static_cast<size_type>(std::distance(first, last)));
+				if (const auto n = size() + static_cast<size_type>(std::distance(first, last)); n > m_dense_capacity || n > capacity())
+					reserve(std::max(n, size() * 2)); /* Grow geometrically to amortize the cost of repeated insertions. */
 			for (; first != last; ++first) insert(*first);
 		}
 
-- 
2.43.0


From aa1f1d1433be26e417d38d7b33df7f338c1fd2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 35/43] fix: range insertion and merge rehash a nearly full
 swiss table over and over

---
 tpp/detail/swiss_table.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index f9f91ce..13a482a 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -992,7 +992,7 @@ namespace tpp::_detail
 		void insert(Iter first, Iter last)
 		{
 			if constexpr (std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<Iter>::iterator_category>)
-				reserve(m_size + static_cast<size_type>(std::distance(first, last)));
+				make_space_for(static_cast<size_type>(std::distance(first, last)));
 			for (; first != last; ++first) insert(*first);
 		}
 
@@ -1110,7 +1110,7 @@ namespace tpp::_detail
 		template<typename Kh2, typename Kc2>
 		void merge(swiss_table<I, V, K, Kh2, Kc2, Alloc, ValueTraits> &other)
 		{
-			reserve(m_size + other.size());
+			make_space_for(other.size());
 
 			/* Extract nodes from other and insert into this. */
 			const auto transfer = [&](auto pos)
@@ -1349,6 +1349,15 @@ namespace tpp::_detail
 					do_rehash((m_buffer.capacity + 1) * 2 - 1);
 			}
 		}
+		void make_space_for(size_type n)
+		{
+			if (n <= m_num_empty) return;
+
+			/* Reclaiming deleted entries must leave enough space to amortize the cost of the rehash. */
+			auto new_cap = std::max(m_buffer.capacity, align_capacity(size_to_min_capacity(m_size + n)));
+			if (new_cap == m_buffer.capacity && static_cast<std::uint64_t>(m_size + n) * 32 > static_cast<std::uint64_t>(new_cap) * 25) new_cap = new_cap * 2 + 1;
+			do_rehash(new_cap);
+		}
 		iterator erase_node(size_type pos, bucket_node *node)
 		{
 			TPP_ASSERT(pos < m_buffer.capacity, "Erased position is out of range");
-- 
2.43.0


From 521d5816f045065aa30a5d409d5913e7ea3839a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:52 +0000
Subject: [PATCH 36/43] fix: requests of more than 2^63 buckets overflow the
 buffer size of swiss tables

---
 tpp/detail/swiss_table.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 13a482a..a00da73 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -825,16 +825,21 @@ namespace tpp::_detail
 				return n - n / 8;
 		}
 		/* Convert table size to required node capacity. */
-		[[nodiscard]] static constexpr size_type size_to_min_capacity(size_type n) noexcept
+		[[nodiscard]] static constexpr size_type size_to_min_capacity(size_type n)
 		{
+			TPP_IF_UNLIKELY(n > capacity_to_max_size(std::numeric_limits<size_type>::max())) throw std::length_error("Table size exceeds the maximum");
+
 			if constexpr (sizeof(meta_block) == 8)
-				return n == 7 ? 8 : n + static_cast<size_type>((static_cast<std::int64_t>(n) - 1) / 7);
+				return n == 7 ? 8 : n + (n - !!n) / 7;
 			else
-				return n + static_cast<size_type>((static_cast<std::int64_t>(n) - 1) / 7);
+				return n + (n - !!n) / 7;
 		}
 		/* Aligns capacity to next power of 2 - 1. */
-		[[nodiscard]] static constexpr size_type align_capacity(size_type n) noexcept
+		[[nodiscard]] static constexpr size_type align_capacity(size_type n)
 		{
+			/* Size of the metadata & node buffers must not overflow. */
+			TPP_IF_UNLIKELY(n > std::numeric_limits<size_type>::max() / 2) throw std::length_error("Table capacity exceeds the maximum");
+
 			return n ? std::numeric_limits<size_type>::max() >> clz(n) : 1;
 		}
 
-- 
2.43.0


From f71866bb13674838d89d5cc3808e1adc7980c9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 37/43] fix: dense tables with tiny or huge max load factor
 hang or grow with every insertion

---
 tpp/detail/dense_table.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 5228978..5976e50 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -485,12 +485,20 @@ namespace tpp::_detail
 		}
 
 	private:
-		[[nodiscard]] constexpr auto to_load_factor(size_type n) const noexcept { return static_cast<size_type>(static_cast<float>(n) * m_max_load_factor); }
+		/* Maximum amount of elements that fit `n` buckets without exceeding the max load factor. */
+		[[nodiscard]] constexpr size_type to_load_factor(size_type n) const noexcept
+		{
+			const auto result = n ? static_cast<float>(n) * m_max_load_factor : .0f;
+			return result < static_cast<float>(std::numeric_limits<size_type>::max() / 2) ? static_cast<size_type>(result) : std::numeric_limits<size_type>::max();
+		}
 
 		/* Minimum amount of buckets required to fit `n` elements without exceeding the max load factor. */
-		[[nodiscard]] constexpr size_type to_bucket_count(size_type n) const noexcept
+		[[nodiscard]] constexpr size_type to_bucket_count(size_type n) const
 		{
-			auto result = static_cast<size_type>(static_cast<float>(n) / m_max_load_factor);
+			const auto quotient = static_cast<float>(n) / m_max_load_factor;
+			TPP_IF_UNLIKELY(quotient >= static_cast<float>(std::numeric_limits<size_type>::max() / 2)) throw std::length_error("Bucket count exceeds the maximum");
+
+			auto result = static_cast<size_type>(quotient);
 			while (to_load_factor(result) < n) ++result;
 			return result;
 		}
-- 
2.43.0


From cb63e2ebb01562327d80dffb703e834133d9e399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:45 +0000
Subject: [PATCH 38/43] fix: header link of ordered tables is downcast to a
 node

---
 tpp/detail/dense_table.hpp | 28 +++++++++++++++-------------
 tpp/detail/swiss_table.hpp | 22 ++++++++++++----------
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 5976e50..253f849 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -97,6 +97,8 @@ namespace tpp::_detail
 		using bucket_node = typename traits_t::bucket_node;
 		using bucket_hash = typename traits_t::bucket_hash;
 		using bucket_link = typename traits_t::bucket_link;
+		/* Position within an ordered table can be the header, which is a link, but not a node. */
+		using bucket_base = std::conditional_t<is_ordered::value, bucket_link, bucket_node>;
 
 		using sparse_allocator = typename traits_t::sparse_allocator;
 		using dense_allocator = typename traits_t::dense_allocator;
@@ -516,31 +518,31 @@ namespace tpp::_detail
 		/* Using `const_cast` here to avoid non-const function duplicates. Pointers will be converted to appropriate const-ness either way. */
 		[[nodiscard]] bucket_link *header_link() const noexcept { return const_cast<bucket_link *>(&link_base::value()); }
 
-		[[nodiscard]] auto *begin_node() const noexcept
+		[[nodiscard]] bucket_base *begin_node() const noexcept
 		{
 			if constexpr (is_ordered::value)
-				return static_cast<bucket_node *>(header_link()->off(header_link()->next));
+				return header_link()->off(header_link()->next);
 			else
 				return to_address(m_dense);
 		}
-		[[nodiscard]] auto *front_node() const noexcept { return begin_node(); }
-		[[nodiscard]] auto *back_node() const noexcept
+		[[nodiscard]] bucket_base *front_node() const noexcept { return begin_node(); }
+		[[nodiscard]] bucket_base *back_node() const noexcept
 		{
 			if constexpr (is_ordered::value)
-				return static_cast<bucket_node *>(header_link()->off(header_link()->prev));
+				return header_link()->off(header_link()->prev);
 			else
 				return to_address(m_dense + (size() - 1));
 		}
-		[[nodiscard]] auto *end_node() const noexcept
+		[[nodiscard]] bucket_base *end_node() const noexcept
 		{
 			if constexpr (is_ordered::value)
-				return static_cast<bucket_node *>(header_link());
+				return header_link();
 			else
 				return to_address(m_dense + size());
 		}
 
-		[[nodiscard]] auto to_iter(bucket_node *node) noexcept { return iterator{node_iterator{node}}; }
-		[[nodiscard]] auto to_iter(bucket_node *node) const noexcept { return const_iterator{node_iterator{node}}; }
+		[[nodiscard]] auto to_iter(bucket_base *node) noexcept { return iterator{node_iterator{node}}; }
+		[[nodiscard]] auto to_iter(bucket_base *node) const noexcept { return const_iterator{node_iterator{node}}; }
 
 		template<std::size_t J>
 		[[nodiscard]] size_type *get_chain(std::size_t h) const noexcept
@@ -555,7 +557,7 @@ namespace tpp::_detail
 			return bucket;
 		}
 		template<std::size_t J, typename T>
-		[[nodiscard]] std::pair<bucket_node *, size_type *> find_node(const T &key, std::size_t h) const
+		[[nodiscard]] std::pair<bucket_base *, size_type *> find_node(const T &key, std::size_t h) const
 		{
 			auto *idx = get_chain<J>(h);
 			if (idx)
@@ -636,13 +638,13 @@ namespace tpp::_detail
 		iterator erase_node(size_type pos, bucket_node *node, chain_slice slice)
 		{
 			TPP_ASSERT(node != end_node(), "Erased node cannot be the end node");
-			auto *next = node;
+			bucket_base *next = node;
 
 			/* If the node links are ordered, unlink from the insertion order chain as well. */
 			if constexpr (is_ordered::value)
 			{
 				auto *link = static_cast<bucket_link *>(node);
-				next = static_cast<bucket_node *>(link->off(link->next));
+				next = link->off(link->next);
 				link->unlink();
 			}
 			((*slice[Is] = node->next[Is]), ...);
@@ -747,7 +749,7 @@ namespace tpp::_detail
 			}
 			else
 			{
-				candidate->replace(std::forward<Args>(args)...);
+				static_cast<bucket_node *>(candidate)->replace(std::forward<Args>(args)...);
 				return {to_iter(candidate), false};
 			}
 		}
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index a00da73..c7a5adc 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -771,6 +771,8 @@ namespace tpp::_detail
 	private:
 		using bucket_link = typename traits_t::bucket_link;
 		using bucket_node = typename traits_t::bucket_node;
+		/* Position within an ordered table can be the header, which is a link, but not a node. */
+		using bucket_base = std::conditional_t<is_ordered::value, bucket_link, bucket_node>;
 		using node_allocator = typename traits_t::node_allocator;
 		using meta_allocator = typename traits_t::meta_allocator;
 		using value_allocator = typename bucket_node::allocator_type;
@@ -1167,23 +1169,23 @@ namespace tpp::_detail
 		/* Using `const_cast` here to avoid non-const function duplicates. Pointers will be converted to appropriate const-ness either way. */
 		[[nodiscard]] bucket_link *header_link() const noexcept { return const_cast<bucket_link *>(&link_base::value()); }
 
-		[[nodiscard]] bucket_node *begin_node() const noexcept
+		[[nodiscard]] bucket_base *begin_node() const noexcept
 		{
 			if constexpr (is_ordered::value)
-				return static_cast<bucket_node *>(header_link()->off(header_link()->next));
+				return header_link()->off(header_link()->next);
 			else
 				return m_buffer.nodes();
 		}
-		[[nodiscard]] bucket_node *end_node() const noexcept
+		[[nodiscard]] bucket_base *end_node() const noexcept
 		{
 			if constexpr (is_ordered::value)
-				return static_cast<bucket_node *>(header_link());
+				return header_link();
 			else
 				return m_buffer.nodes() + m_buffer.capacity;
 		}
 
-		[[nodiscard]] bucket_node *front_node() const noexcept { return begin_node(); }
-		[[nodiscard]] bucket_node *back_node() const noexcept { return static_cast<bucket_node *>(header_link()->off(header_link()->prev)); }
+		[[nodiscard]] bucket_base *front_node() const noexcept { return begin_node(); }
+		[[nodiscard]] bucket_base *back_node() const noexcept { return header_link()->off(header_link()->prev); }
 
 		[[nodiscard]] auto to_iter(size_type pos) noexcept
 		{
@@ -1199,14 +1201,14 @@ namespace tpp::_detail
 			else
 				return to_iter(m_buffer.nodes() + pos);
 		}
-		[[nodiscard]] auto to_iter(bucket_node *node) noexcept
+		[[nodiscard]] auto to_iter(bucket_base *node) noexcept
 		{
 			if constexpr (!is_ordered::value)
 				return iterator{node_iterator{m_buffer.meta() + (node - begin_node()), node}};
 			else
 				return iterator{node_iterator{node}};
 		}
-		[[nodiscard]] auto to_iter(bucket_node *node) const noexcept
+		[[nodiscard]] auto to_iter(bucket_base *node) const noexcept
 		{
 			if constexpr (!is_ordered::value)
 				return const_iterator{node_iterator{m_buffer.meta() + (node - begin_node()), node}};
@@ -1368,11 +1370,11 @@ namespace tpp::_detail
 			TPP_ASSERT(pos < m_buffer.capacity, "Erased position is out of range");
 			TPP_ASSERT(is_occupied(m_buffer.meta()[pos]), "Erased node must be occupied");
 
-			auto *next = node;
+			bucket_base *next = node;
 			if constexpr (is_ordered::value)
 			{
 				auto *link = static_cast<bucket_link *>(node);
-				next = static_cast<bucket_node *>(link->off(link->next));
+				next = link->off(link->next);
 				link->unlink();
 			}
 			set_metadata(pos, meta_byte::deleted);
-- 
2.43.0


From 385cb04c710e2621c9d26104400fcdebc673dda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 39/43] fix: NEON build does not compile, bit counts of
 compilers without built-ins are off by one

---
 tpp/detail/swiss_table.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index c7a5adc..d3e15e1 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -86,7 +86,7 @@ namespace tpp::_detail
 	{
 		constexpr T mask = T{1};
 		std::size_t result = 0;
-		while ((value & (mask << result++)) == T{});
+		while ((value & (mask << result)) == T{}) ++result;
 		return result;
 	}
 	template<typename T>
@@ -94,7 +94,7 @@ namespace tpp::_detail
 	{
 		constexpr T mask = T{1} << (std::numeric_limits<T>::digits - 1);
 		std::size_t result = 0;
-		while ((value & (mask >> result++)) == T{});
+		while ((value & (mask >> result)) == T{}) ++result;
 		return result;
 	}
 
@@ -157,14 +157,14 @@ namespace tpp::_detail
 		{
 			unsigned long result = 0;
 			_BitScanReverse(&result, static_cast<unsigned long>(value));
-			return std::numeric_limits<T>::digits - static_cast<std::size_t>(result);
+			return std::numeric_limits<T>::digits - 1 - static_cast<std::size_t>(result);
 		}
 #ifdef _WIN64
 		if constexpr (sizeof(T) <= sizeof(unsigned __int64))
 		{
 			unsigned long result = 0;
 			_BitScanReverse64(&result, static_cast<unsigned __int64>(value));
-			return std::numeric_limits<T>::digits - static_cast<std::size_t>(result);
+			return std::numeric_limits<T>::digits - 1 - static_cast<std::size_t>(result);
 		}
 #endif
 		return generic_clz(value);
@@ -200,7 +200,7 @@ namespace tpp::_detail
 #if defined(TPP_HAS_SSE2)
 		explicit meta_block(const meta_byte *bytes) noexcept { value = _mm_loadu_si128(reinterpret_cast<const block_value *>(bytes)); }
 #elif defined(TPP_HAS_NEON)
-		explicit meta_block(const meta_byte *bytes) noexcept { value = vld1_u8(reinterpret_cast<const block_value *>(bytes)); }
+		explicit meta_block(const meta_byte *bytes) noexcept { value = vld1_u8(reinterpret_cast<const std::uint8_t *>(bytes)); }
 #else
 		explicit meta_block(const meta_byte *bytes) noexcept { value = read_unaligned<block_value>(bytes); }
 #endif
@@ -288,12 +288,13 @@ namespace tpp::_detail
 
 	std::size_t meta_block::count_available() const noexcept
 	{
-		return ctz(vget_lane_u64(vreinterpret_u64_u8(vcle_s8(vdup_n_s8(std::int8_t(meta_byte::sentinel)), vreinterpret_s8_u8(value))), 0)) >> 3;
+		const auto mask = vget_lane_u64(vreinterpret_u64_u8(vcle_s8(vdup_n_s8(std::int8_t(meta_byte::sentinel)), vreinterpret_s8_u8(value))), 0);
+		return mask ? ctz(mask) >> 3 : sizeof(value);
 	}
 	meta_block meta_block::reset_occupied() const noexcept
 	{
 		/* Mask all occupied. */
-		const auto mask = vreinterpret_u64_u8(vcgt_s8(vreinterpret_s8_u8(value), vdup_n_s8(std::int8_t(meta_byte::sentinel))));
+		const auto mask = vcgt_s8(vreinterpret_s8_u8(value), vdup_n_s8(std::int8_t(meta_byte::sentinel)));
 		const auto deleted = vreinterpret_u8_s8(vdup_n_s8(std::int8_t(meta_byte::deleted)));
 		const auto empty = vreinterpret_u8_s8(vdup_n_s8(std::int8_t(meta_byte::empty)));
 
-- 
2.43.0


From 1345d88d46c52f943ad93d2e0ece5e7e20fabfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:33 +0000
Subject: [PATCH 40/43] fix: comparisons of map references terminate on
 exceptions of mapped objects, are not lexicographic

---
 tpp/detail/table_common.hpp | 14 +++++++-------
 tpp/detail/utility.hpp      |  6 +++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index fb2a17a..cf63538 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -789,20 +789,20 @@ namespace tpp::_detail
 
 #if (__cplusplus < 202002L && (!defined(_MSVC_LANG) || _MSVC_LANG < 202002L))
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator==(const packed_map_ref<U, V> &other) const noexcept(noexcept(first == other.first && noexcept(second == other.second)))  { return first == other.first && second == other.second; }
+		[[nodiscard]] constexpr bool operator==(const packed_map_ref<U, V> &other) const noexcept(noexcept(first == other.first) && noexcept(second == other.second)) { return first == other.first && second == other.second; }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator!=(const packed_map_ref<U, V> &other) const noexcept(noexcept(first != other.first && noexcept(second != other.second))) { return first != other.first || second != other.second; }
+		[[nodiscard]] constexpr bool operator!=(const packed_map_ref<U, V> &other) const noexcept(noexcept(*this == other)) { return !(*this == other); }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator>=(const packed_map_ref<U, V> &other) const noexcept(noexcept(first >= other.first && noexcept(second >= other.second)))  { return first >= other.first && second >= other.second; }
+		[[nodiscard]] constexpr bool operator>=(const packed_map_ref<U, V> &other) const noexcept(noexcept(*this < other)) { return !(*this < other); }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator<=(const packed_map_ref<U, V> &other) const noexcept(noexcept(first <= other.first && noexcept(second <= other.second)))  { return first <= other.first && second <= other.second; }
+		[[nodiscard]] constexpr bool operator<=(const packed_map_ref<U, V> &other) const noexcept(noexcept(other < *this)) { return !(other < *this); }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator>(const packed_map_ref<U, V> &other) const noexcept(noexcept(first > other.first && noexcept(second > other.second)))  { return first > other.first && second > other.second; }
+		[[nodiscard]] constexpr bool operator>(const packed_map_ref<U, V> &other) const noexcept(noexcept(other < *this)) { return other < *this; }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator<(const packed_map_ref<U, V> &other) const noexcept(noexcept(first < other.first && noexcept(second < other.second))) { return first < other.first && second < other.second; }
+		[[nodiscard]] constexpr bool operator<(const packed_map_ref<U, V> &other) const noexcept(noexcept(first < other.first) && noexcept(other.first < first) && noexcept(second < other.second)) { return first < other.first || (!(other.first < first) && second < other.second); }
 #else
 		template<typename U, typename V> requires std::equality_comparable_with<K, U> && std::equality_comparable_with<M, V>
-		[[nodiscard]] constexpr bool operator==(const packed_map_ref<U, V> &other) const noexcept(noexcept(first == other.first && noexcept(second == other.second)))  { return first == other.first && second == other.second; }
+		[[nodiscard]] constexpr bool operator==(const packed_map_ref<U, V> &other) const noexcept(noexcept(first == other.first) && noexcept(second == other.second)) { return first == other.first && second == other.second; }
 		template<typename U, typename V> requires(requires (const K &k, const M &m, const U &u, const V &v) { synth_three_way(k, u); synth_three_way(m, v); })
 		[[nodiscard]] constexpr auto operator<=>(const packed_map_ref<U, V> &other) const noexcept(noexcept(synth_three_way(first, other.first)) && noexcept(synth_three_way(second, other.second))) -> std::common_comparison_category_t<synth_three_way_result<K, U>, synth_three_way_result<M, V>>
 		{
diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index b5f405f..dcbbf1c 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -263,9 +263,9 @@ namespace tpp::_detail
 
 #if (__cplusplus >= 202002L || (defined(_MSVC_LANG) && _MSVC_LANG >= 202002L))
 	template<typename T, typename U> requires std::three_way_comparable_with<T, U>
-	[[nodiscard]] constexpr decltype(auto) synth_three_way(const T &t, const T &u) noexcept(noexcept(t <=> u)) { return t <=> u; }
-	template<typename T, typename U> requires(!std::three_way_comparable_with<T, U> && requires(const T &t, const T &u) { { t < u } -> std::convertible_to<bool>; { u < t } -> std::convertible_to<bool>; })
-	[[nodiscard]] constexpr decltype(auto) synth_three_way(const T &t, const T &u) noexcept(noexcept(t < u) && noexcept(u < t))
+	[[nodiscard]] constexpr auto synth_three_way(const T &t, const U &u) noexcept(noexcept(t <=> u)) { return t <=> u; }
+	template<typename T, typename U> requires(!std::three_way_comparable_with<T, U> && requires(const T &t, const U &u) { { t < u } -> std::convertible_to<bool>; { u < t } -> std::convertible_to<bool>; })
+	[[nodiscard]] constexpr auto synth_three_way(const T &t, const U &u) noexcept(noexcept(t < u) && noexcept(u < t))
 	{
 		if (t < u)
 			return std::weak_ordering::less;
-- 
2.43.0


From 66ad5fa68d59d696ec41e2d8b998ae31f3bf0ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:33 +0000
Subject: [PATCH 41/43] fix: a node handle with another allocator cannot be
 assigned to or swapped with an empty one

---
 tpp/detail/table_common.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index cf63538..d7ee0ba 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -359,9 +359,10 @@ namespace tpp::_detail
 
 					if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value)
 						alloc() = std::move(other.alloc());
+					else
+						adopt_alloc(other.alloc());
 
 					m_ptr = std::exchange(other.m_ptr, value_ptr{});
-					assert_alloc(other);
 				}
 				return *this;
 			}
@@ -382,8 +383,14 @@ namespace tpp::_detail
 				using std::swap;
 				if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_swap::value)
 					swap(alloc(), other.alloc());
-				else
+				else if (m_ptr && other.m_ptr)
 					assert_alloc(other);
+				else
+				{
+					auto tmp = allocator_type{alloc()};
+					adopt_alloc(other.alloc());
+					other.adopt_alloc(tmp);
+				}
 				swap(m_ptr, other.m_ptr);
 			}
 			friend void swap(extracted_type &a, extracted_type &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
@@ -396,6 +403,15 @@ namespace tpp::_detail
 			{
 				TPP_ASSERT(allocator_eq(alloc(), other.alloc()), "Node allocators must compare equal");
 			}
+			/* Empty handles have nothing to deallocate and can use any allocator. The allocator itself is not required to be assignable. */
+			void adopt_alloc(const allocator_type &other) noexcept
+			{
+				if (!allocator_eq(alloc(), other))
+				{
+					alloc().~allocator_type();
+					new(std::addressof(alloc())) allocator_type(other);
+				}
+			}
 			void do_destroy()
 			{
 				if (m_ptr)
-- 
2.43.0


From e9427beb853842369ca4a4372f39415506183fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:24 +0000
Subject: [PATCH 42/43] fix: node assignment keeps the current element if a
 node of another allocator cannot be transferred

---
 tpp/detail/swiss_table.hpp  | 8 ++------
 tpp/detail/table_common.hpp | 8 ++++++++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index d3e15e1..3729a9c 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1020,9 +1020,7 @@ namespace tpp::_detail
 			else
 			{
 				auto alloc = value_allocator{get_allocator()};
-				auto &target = m_buffer.nodes()[target_pos];
-				target.destroy(alloc);
-				target.construct(alloc, std::forward<N>(node));
+				m_buffer.nodes()[target_pos].assign(alloc, std::forward<N>(node));
 				return {to_iter(target_pos), false};
 			}
 		}
@@ -1037,9 +1035,7 @@ namespace tpp::_detail
 			else
 			{
 				auto alloc = value_allocator{get_allocator()};
-				auto &target = m_buffer.nodes()[target_pos];
-				target.destroy(alloc);
-				target.construct(alloc, std::forward<N>(node));
+				m_buffer.nodes()[target_pos].assign(alloc, std::forward<N>(node));
 				return to_iter(target_pos);
 			}
 		}
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index d7ee0ba..1d04ed4 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -471,6 +471,14 @@ namespace tpp::_detail
 				other.do_destroy();
 			}
 		}
+		/* Current element must be preserved if the new one cannot be created. */
+		void assign(allocator_type &alloc, extracted_type &&other)
+		{
+			auto tmp = stable_node{};
+			tmp.construct(alloc, std::move(other));
+			std::swap(m_ptr, tmp.m_ptr);
+			tmp.destroy(alloc);
+		}
 		void move_from(stable_node &other)
 		{
 			link_base::operator=(std::move(other));
-- 
2.43.0


From 7f065454995bbe869ae942f5ac9ddb8128020fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:41 +0000
Subject: [PATCH 43/43] fix: dense tables with a small maximum load factor that
 is not exactly representable count up to the required amount of buckets one
 by one (minutes)

---
 tpp/detail/dense_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 253f849..2a6c78e 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -501,7 +501,7 @@ namespace tpp::_detail
 			TPP_IF_UNLIKELY(quotient >= static_cast<float>(std::numeric_limits<size_type>::max() / 2)) throw std::length_error("Bucket count exceeds the maximum");
 
 			auto result = static_cast<size_type>(quotient);
-			while (to_load_factor(result) < n) ++result;
+			for (size_type step = 1; to_load_factor(result) < n; step *= 2) result += step; /* Large counts are not representable as a float exactly. */
 			return result;
 		}
 
-- 
2.43.0

