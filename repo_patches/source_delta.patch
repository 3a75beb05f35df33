From bf5fe9ac94e4af90b6e879ccc93845fe323815e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 01/45] fix: free swap of the maps names the map type wrongly
 in its exception specification

---
 tpp/dense_map.hpp      | 4 ++--
 tpp/dense_multimap.hpp | 2 +-
 tpp/dense_multiset.hpp | 2 +-
 tpp/dense_set.hpp      | 4 ++--
 tpp/sparse_map.hpp     | 4 ++--
 tpp/sparse_set.hpp     | 4 ++--
 tpp/stable_map.hpp     | 4 ++--
 tpp/stable_set.hpp     | 4 ++--
 8 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index daeabe8..16e2510 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -622,7 +622,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(dense_map<K, M, H, C, A> &a, dense_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_map<K, M, H, C, A> &a, dense_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1272,7 +1272,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_dense_map<K, M, H, C, A> &a, ordered_dense_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_dense_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_dense_map<K, M, H, C, A> &a, ordered_dense_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 0f2e572..795d03d 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -456,7 +456,7 @@ namespace tpp
 	};
 
 	template<typename Mk, typename M, typename H, typename C, typename A>
-	inline void swap(dense_multimap<Mk, M, H, C, A> &a, dense_multimap<Mk, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_multimap<Mk, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_multimap<Mk, M, H, C, A> &a, dense_multimap<Mk, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_multiset.hpp b/tpp/dense_multiset.hpp
index ce11f31..8bb8ff2 100644
--- a/tpp/dense_multiset.hpp
+++ b/tpp/dense_multiset.hpp
@@ -330,7 +330,7 @@ namespace tpp
 	};
 
 	template<typename Mk, typename H, typename C, typename A>
-	inline void swap(dense_multiset<Mk, H, C, A> &a, dense_multiset<Mk, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_multiset<Mk, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_multiset<Mk, H, C, A> &a, dense_multiset<Mk, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_set.hpp b/tpp/dense_set.hpp
index b59cb2e..37a216d 100644
--- a/tpp/dense_set.hpp
+++ b/tpp/dense_set.hpp
@@ -331,7 +331,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(dense_set<K, H, C, A> &a, dense_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_set<K, H, C, A> &a, dense_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -692,7 +692,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_dense_set<K, H, C, A> &a, ordered_dense_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_dense_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_dense_set<K, H, C, A> &a, ordered_dense_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/sparse_map.hpp b/tpp/sparse_map.hpp
index 1a490d1..bd2968d 100644
--- a/tpp/sparse_map.hpp
+++ b/tpp/sparse_map.hpp
@@ -567,7 +567,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(sparse_map<K, M, H, C, A> &a, sparse_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<sparse_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(sparse_map<K, M, H, C, A> &a, sparse_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1162,7 +1162,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_sparse_map<K, M, H, C, A> &a, ordered_sparse_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_sparse_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_sparse_map<K, M, H, C, A> &a, ordered_sparse_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/sparse_set.hpp b/tpp/sparse_set.hpp
index 81be0b5..d730aca 100644
--- a/tpp/sparse_set.hpp
+++ b/tpp/sparse_set.hpp
@@ -303,7 +303,7 @@ namespace tpp
 	}
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(sparse_set<K, H, C, A> &a, sparse_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<sparse_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(sparse_set<K, H, C, A> &a, sparse_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	template<typename I, typename Key = _detail::iter_key_t<I>, typename Hash = std::hash<Key>, typename Cmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	sparse_set(I, I, typename _detail::deduce_set_t<sparse_set, I, Hash, Cmp, Alloc>::size_type = 0, Hash = Hash{}, Cmp = Cmp{}, Alloc = Alloc{}) -> sparse_set<Key, Hash, Cmp, Alloc>;
@@ -622,7 +622,7 @@ namespace tpp
 	}
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_sparse_set<K, H, C, A> &a, ordered_sparse_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_sparse_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_sparse_set<K, H, C, A> &a, ordered_sparse_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	template<typename I, typename Key = _detail::iter_key_t<I>, typename Hash = std::hash<Key>, typename Cmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	ordered_sparse_set(I, I, typename _detail::deduce_set_t<ordered_sparse_set, I, Hash, Cmp, Alloc>::size_type = 0, Hash = Hash{}, Cmp = Cmp{}, Alloc = Alloc{}) -> ordered_sparse_set<Key, Hash, Cmp, Alloc>;
diff --git a/tpp/stable_map.hpp b/tpp/stable_map.hpp
index c7dfeb0..8842d46 100644
--- a/tpp/stable_map.hpp
+++ b/tpp/stable_map.hpp
@@ -614,7 +614,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(stable_map<K, M, H, C, A> &a, stable_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<stable_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(stable_map<K, M, H, C, A> &a, stable_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1256,7 +1256,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_stable_map<K, M, H, C, A> &a, ordered_stable_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_stable_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_stable_map<K, M, H, C, A> &a, ordered_stable_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/stable_set.hpp b/tpp/stable_set.hpp
index ec64db6..711b810 100644
--- a/tpp/stable_set.hpp
+++ b/tpp/stable_set.hpp
@@ -317,7 +317,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(stable_set<K, H, C, A> &a, stable_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<stable_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(stable_set<K, H, C, A> &a, stable_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -668,7 +668,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_stable_set<K, H, C, A> &a, ordered_stable_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_stable_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_stable_set<K, H, C, A> &a, ordered_stable_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
-- 
2.43.0


From b163f92748a94ae9505e0f155f99a0bec3e2e051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 02/45] fix: emplace_hint returns the pair of do_emplace where
 an iterator is required

---
 tpp/detail/dense_table.hpp | 2 +-
 tpp/detail/swiss_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 6e3b685..c3da2f9 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -401,7 +401,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
 		template<typename... Args>
-		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...); }
+		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...).first; }
 
 		template<typename U, typename... Args>
 		std::pair<iterator, bool> emplace_or_replace(U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 31d412d..c853846 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1025,7 +1025,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
 		template<typename... Args>
-		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...); }
+		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...).first; }
 
 		template<typename U, typename... Args>
 		std::pair<iterator, bool> emplace_or_replace(U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
-- 
2.43.0


From 5c02e5ac1f38b2f7bf41fc715479d139566f8ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 03/45] fix: hinted emplace_or_replace passes a table iterator
 where a node iterator is required

---
 tpp/detail/dense_table.hpp | 2 +-
 tpp/detail/swiss_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index c3da2f9..89eec1d 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -411,7 +411,7 @@ namespace tpp::_detail
 		template<typename U, typename... Args>
 		iterator emplace_or_replace(const_iterator hint, U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
 		{
-			return do_insert_or_assign(hint, std::forward<U>(key), std::forward<Args>(args)...);
+			return do_insert_or_assign(to_underlying(hint), std::forward<U>(key), std::forward<Args>(args)...).first;
 		}
 
 		template<typename... Ks, typename... Args>
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index c853846..777b01b 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1035,7 +1035,7 @@ namespace tpp::_detail
 		template<typename U, typename... Args>
 		iterator emplace_or_replace(const_iterator hint, U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
 		{
-			return do_insert_or_assign(hint, std::forward<U>(key), std::forward<Args>(args)...);
+			return do_insert_or_assign(to_underlying(hint), std::forward<U>(key), std::forward<Args>(args)...).first;
 		}
 
 		template<typename U, typename... Args>
-- 
2.43.0


From 4ae6e945b5d8ad0cc9f2bf3732b67f3b60506385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 04/45] fix: range erase of the swiss table needs bidirectional
 iterators and mishandles the empty range

---
 tpp/detail/swiss_table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 777b01b..5dbd9c0 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1069,9 +1069,9 @@ namespace tpp::_detail
 		}
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			iterator result = end();
-			while (last != first) result = erase(--last);
-			return result;
+			/* Iterators of other elements are not invalidated by erasure, and unordered iterators can only go forward. */
+			while (first != last) erase(first++);
+			return iterator{to_underlying(last)};
 		}
 
 		template<typename T, typename = std::enable_if_t<!std::is_convertible_v<T, const_iterator>>>
-- 
2.43.0


From 91d29304cd7de37a9a25f4c681b73a3f60b7f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 05/45] fix: random access operators of the table iterator
 return the wrong types

---
 tpp/detail/table_common.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 20b3e50..3e5ceef 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -603,14 +603,22 @@ namespace tpp::_detail
 	template<typename I, typename T>
 	struct random_access_iterator_base<I, T, std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, typename T::iterator_category>>>
 	{
-		constexpr I &operator+=(typename iter_diff<T>::type n) noexcept { return iter() += n; }
-		constexpr I &operator-=(typename iter_diff<T>::type n) noexcept { return iter() -= n; }
+		constexpr I &operator+=(typename iter_diff<T>::type n) noexcept
+		{
+			iter() += n;
+			return static_cast<I &>(*this);
+		}
+		constexpr I &operator-=(typename iter_diff<T>::type n) noexcept
+		{
+			iter() -= n;
+			return static_cast<I &>(*this);
+		}
 
 		[[nodiscard]] constexpr I operator+(typename iter_diff<T>::type n) const noexcept { return I{iter() + n}; }
 		[[nodiscard]] constexpr I operator-(typename iter_diff<T>::type n) const noexcept { return I{iter() - n}; }
 		[[nodiscard]] constexpr typename iter_diff<T>::type operator-(const I &other) const noexcept { return iter() - other.m_iter; }
 
-		[[nodiscard]] constexpr auto &operator[](typename iter_diff<T>::type i) const noexcept { return *operator+(i); }
+		[[nodiscard]] constexpr decltype(auto) operator[](typename iter_diff<T>::type i) const noexcept { return *operator+(i); }
 
 	private:
 		[[nodiscard]] constexpr auto &iter() noexcept { return static_cast<I *>(this)->m_iter; }
-- 
2.43.0


From be0cfe45c3f0bff715ccb6f2df115e025ce7715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 06/45] fix: exception specification of the node handle swap
 depends on itself

---
 tpp/detail/table_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 3e5ceef..92aaf4c 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -365,7 +365,7 @@ namespace tpp::_detail
 				assert_alloc(other);
 				swap(m_ptr, other.m_ptr);
 			}
-			friend void swap(extracted_type &a, extracted_type &b) noexcept(std::is_nothrow_swappable_v<extracted_type>) { a.swap(b); }
+			friend void swap(extracted_type &a, extracted_type &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 		private:
 			[[nodiscard]] constexpr auto &alloc() noexcept { return alloc_base::value(); }
-- 
2.43.0


From cdda6ecf2e807f930d99846973d26b3c489100be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 07/45] fix: hinted node insertion mixes up table and node
 iterators

---
 tpp/detail/swiss_table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 5dbd9c0..039d42b 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -973,7 +973,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(hint, h, std::forward<N>(node));
+				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
 			else
 				return to_iter(target_pos);
 		}
@@ -1007,11 +1007,11 @@ namespace tpp::_detail
 			}
 		}
 		template<typename N>
-		iterator insert_or_assign_node(node_iterator hint, N &&node)
+		iterator insert_or_assign_node(const_iterator hint, N &&node)
 		{
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(hint, h, std::forward<N>(node));
+				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
 			else
 			{
 				auto alloc = value_allocator{get_allocator()};
-- 
2.43.0


From 82d0539f75cef6fc5dbc1edb92f8ef6b0d3204f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 08/45] fix: erasure of multi-key entries expands the key index
 pack in the wrong place

---
 tpp/detail/dense_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 89eec1d..6cd9b18 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -728,7 +728,7 @@ namespace tpp::_detail
 			if (const auto end = end_node(); node == end)
 				return to_iter(end);
 
-			const auto slice = chain_slice{find_chain_ptr<Is...>(get_chain<Is>(node->template hash<Is>()), pos)...};
+			const auto slice = chain_slice{find_chain_ptr<Is>(get_chain<Is>(node->template hash<Is>()), pos)...};
 			return erase_node<Is...>(pos, node, slice);
 		}
 		iterator do_erase(size_type pos, bucket_node *node)
@@ -747,7 +747,7 @@ namespace tpp::_detail
 				{
 					/* Grab other bucket indices that point to `pos`. */
 					chain_slice slice = {};
-					((slice[Is] = find_chain_ptr<Is...>(get_chain<Is>(node->template hash<Is>()), pos)), ...);
+					((slice[Is] = find_chain_ptr<Is>(get_chain<Is>(node->template hash<Is>()), pos)), ...);
 					slice[J] = chain_idx;
 					return erase_node<J, Is...>(pos, node, slice);
 				}
-- 
2.43.0


From fef280dd8a6847eb5feed579fcb9d28299bda480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 09/45] fix: local bucket iterators of the dense tables do not
 compile and never reach their end

---
 tpp/detail/dense_table.hpp | 45 +++++++-------------------------------
 1 file changed, 8 insertions(+), 37 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 6cd9b18..d0ffd33 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -127,37 +127,10 @@ namespace tpp::_detail
 			using value_type = V;
 
 			using reference = std::conditional_t<key_size == 1, value_reference, std::array<value_reference, key_size>>;
-			struct pointer
-			{
-				friend class bucket_iterator;
-
-				constexpr pointer(std::array<value_pointer, key_size> ptr) noexcept : m_ptr(ptr) {}
-
-			public:
-				pointer() = delete;
-
-				constexpr pointer(const pointer &) noexcept = default;
-				constexpr pointer &operator=(const pointer &) noexcept = default;
-				constexpr pointer(pointer &&) noexcept = default;
-				constexpr pointer &operator=(pointer &&) noexcept = default;
-
-				[[nodiscard]] reference operator->() const noexcept { return get(std::make_index_sequence<key_size>{}); }
+			using pointer = std::conditional_t<key_size == 1, value_pointer, std::array<value_pointer, key_size>>;
 
-			private:
-				template<std::size_t J, std::size_t... Js>
-				[[nodiscard]] reference get(std::index_sequence<J, Js...>) const noexcept
-				{
-					if constexpr (sizeof...(Js) != 0)
-						return reference{*m_ptr[Js]...};
-					else
-						return reference{*m_ptr[J]};
-				}
-
-				std::array<value_pointer, key_size> m_ptr = {};
-			};
-
-			using size_type = typename bucket_node::size_type;
-			using difference_type = typename bucket_node::difference_type;
+			using size_type = typename traits_t::size_type;
+			using difference_type = typename traits_t::difference_type;
 			using iterator_category = std::forward_iterator_tag;
 
 		public:
@@ -179,7 +152,7 @@ namespace tpp::_detail
 				return *this;
 			}
 
-			[[nodiscard]] constexpr pointer operator->() const noexcept { return pointer{&node()->value()}; }
+			[[nodiscard]] constexpr pointer operator->() const noexcept { return pointer{&m_base[m_pos[0]].value()}; }
 			[[nodiscard]] reference operator*() const noexcept { return *operator->(); }
 
 			[[nodiscard]] constexpr bool operator==(const bucket_iterator &other) const noexcept { return m_base == other.m_base && m_pos == other.m_pos; }
@@ -188,13 +161,11 @@ namespace tpp::_detail
 #endif
 
 		private:
-			[[nodiscard]] constexpr node_ptr node() const noexcept { return m_base + m_pos; }
-
 			template<std::size_t... Is>
-			constexpr void increment(std::index_sequence<Is...>) noexcept { ((m_pos[Is] = node()->next[Is]), ...); }
+			constexpr void increment(std::index_sequence<Is...>) noexcept { ((m_pos[Is] = m_pos[Is] != npos ? m_base[m_pos[Is]].next[Is] : npos), ...); }
 
 			node_ptr m_base = {};
-			bucket_pos m_pos = 0;
+			bucket_pos m_pos = make_array<key_size>(npos);
 		};
 
 	public:
@@ -337,8 +308,8 @@ namespace tpp::_detail
 
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return local_iterator{m_dense, m_sparse[n]}; }
 		[[nodiscard]] const_local_iterator begin(size_type n) const noexcept { return const_local_iterator{m_dense, m_sparse[n]}; }
-		[[nodiscard]] local_iterator end(size_type) noexcept { return local_iterator{}; }
-		[[nodiscard]] const_local_iterator end(size_type) const noexcept { return const_local_iterator{}; }
+		[[nodiscard]] local_iterator end(size_type) noexcept { return local_iterator{m_dense, make_array<key_size>(npos)}; }
+		[[nodiscard]] const_local_iterator end(size_type) const noexcept { return const_local_iterator{m_dense, make_array<key_size>(npos)}; }
 
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_sparse_size; }
 		[[nodiscard]] constexpr size_type max_bucket_count() const noexcept { return npos - 1; }
-- 
2.43.0


From 286b45128d6fcafbdfa6497f51cf9808520883ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 10/45] fix: hinted try_emplace of dense maps does not wrap the
 key in a tuple

---
 tpp/dense_map.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index 16e2510..d384316 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -434,7 +434,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -446,7 +446,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -459,7 +459,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, const K &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -471,7 +471,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, K &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::forward<K>(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::forward<K>(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -1084,7 +1084,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -1096,7 +1096,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -1109,7 +1109,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, const K &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -1121,7 +1121,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, K &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::forward<K>(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::forward<K>(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-- 
2.43.0


From 05cea396532733773f51338b2a6891e9050ff216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:23 +0000
Subject: [PATCH 11/45] fix: swapping ordered links breaks the lists they are
 part of

---
 tpp/detail/table_common.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 92aaf4c..6aaf908 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -164,16 +164,13 @@ namespace tpp::_detail
 
 		void swap(ordered_link &other) noexcept
 		{
-			std::swap(next, other.next);
-			std::swap(prev, other.prev);
-		}
-		friend void swap(ordered_link &a, ordered_link &b) noexcept
-		{
-			auto a_next = a.off(a.next), b_next = b.off(b.next);
-			auto a_prev = a.off(a.prev), b_prev = b.off(b.prev);
-			a.link(b_next, b_prev);
-			b.link(a_next, a_prev);
+			/* Offsets are relative & the swapped links may be empty or adjacent, thus both have to be re-linked. */
+			ordered_link tmp;
+			tmp.relink_from(*this);
+			relink_from(other);
+			other.relink_from(tmp);
 		}
+		friend void swap(ordered_link &a, ordered_link &b) noexcept { a.swap(b); }
 
 		/* Offsets from `this` to next & previous links in bytes. */
 		std::ptrdiff_t next = 0; /* next_ptr - this */
-- 
2.43.0


From 9d28330e66e79c5b2b5d25cda9977e405c64e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:23 +0000
Subject: [PATCH 12/45] fix: rehash of the swiss table does not account for the
 current size

---
 tpp/detail/swiss_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 039d42b..c009845 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1126,7 +1126,7 @@ namespace tpp::_detail
 			/* Skip rehash if table is empty and requested size is 0. */
 			TPP_IF_UNLIKELY(!n && !m_size) return;
 
-			const auto new_cap = align_capacity(n | size_to_min_capacity(n));
+			const auto new_cap = align_capacity(n | size_to_min_capacity(m_size));
 			if (!n || new_cap > m_buffer.capacity) do_rehash(new_cap);
 		}
 
-- 
2.43.0


From 7507f46e007920d58d3fc76f75f0b49c1c684786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:23 +0000
Subject: [PATCH 13/45] fix: bucket count constructors of the swiss table use
 an arbitrary count as the capacity

---
 tpp/detail/swiss_table.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index c009845..6c06416 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -836,10 +836,9 @@ namespace tpp::_detail
 		swiss_table() = default;
 
 		swiss_table(const allocator_type &alloc) : m_buffer(alloc) {}
-		swiss_table(size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : hash_base(hash), cmp_base(cmp), m_buffer(n, alloc)
+		swiss_table(size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : hash_base(hash), cmp_base(cmp), m_buffer(n ? align_capacity(n) : 0, alloc)
 		{
-			TPP_ASSERT(((n + 1) & n) == 0, "Capacity must be a power of 2 - 1");
-			m_num_empty = capacity_to_max_size(n);
+			m_num_empty = capacity_to_max_size(m_buffer.capacity);
 		}
 
 		template<typename Iter>
-- 
2.43.0


From e9ee31edd6d36efbb5029c45fa3c39cf0a8056ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:23 +0000
Subject: [PATCH 14/45] fix: swiss table buffers deallocate null pointers, leak
 the buffers of empty tables and on failed allocations

---
 tpp/detail/swiss_table.hpp | 79 +++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 43 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 6c06416..d1e5870 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -475,44 +475,35 @@ namespace tpp::_detail
 
 		swiss_table_buffer &operator=(const swiss_table_buffer &other)
 		{
+			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
+				deallocate();
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value)
-			{
-				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
 				meta_alloc_base::operator=(other);
-			}
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
-			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
 				node_alloc_base::operator=(other);
-			}
-			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
-				capacity = 0;
 			return *this;
 		}
 		swiss_table_buffer &operator=(swiss_table_buffer &&other) noexcept(std::is_nothrow_move_assignable_v<MetaAlloc> && std::is_nothrow_move_assignable_v<NodeAlloc>)
 		{
+			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
+				deallocate();
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value)
-			{
-				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
 				meta_alloc_base::operator=(other);
-			}
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
-			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
 				node_alloc_base::operator=(other);
-			}
-			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
-				capacity = 0;
 			return *this;
 		}
 
 		template<typename Alloc>
 		swiss_table_buffer(const Alloc &alloc) : meta_alloc_base(alloc), node_alloc_base(alloc) {}
 		template<typename Alloc>
-		swiss_table_buffer(size_type capacity, const Alloc &alloc) : meta_alloc_base(alloc), node_alloc_base(alloc)
+		swiss_table_buffer(size_type n, const Alloc &alloc) : meta_alloc_base(alloc), node_alloc_base(alloc)
 		{
-			allocate(capacity);
-			fill_empty();
+			if (n != 0)
+			{
+				allocate(n);
+				fill_empty();
+			}
 		}
 
 		[[nodiscard]] auto *meta() const noexcept { return to_address(m_metadata); }
@@ -541,7 +532,7 @@ namespace tpp::_detail
 				throw;
 			}
 
-			if (capacity != 0)
+			if (n != 0)
 			{
 				relocate(tmp_metadata, tmp_nodes, n);
 				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), tmp_metadata, n + sizeof(meta_block));
@@ -552,25 +543,25 @@ namespace tpp::_detail
 		void allocate(size_type n)
 		{
 			m_metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
-			m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
+			try { m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n); }
+			catch (...)
+			{
+				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), n + sizeof(meta_block));
+				throw;
+			}
 			capacity = n;
 		}
 		void reallocate(size_type n)
 		{
 			if (capacity < n)
 			{
-				if (capacity != 0)
-				{
-					std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
-					std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
-				}
-				m_metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
-				m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
-				capacity = n;
+				deallocate();
+				allocate(n);
 			}
 		}
 		void deallocate()
 		{
+			if (capacity == 0) return;
 			std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
 			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
 			m_metadata = {};
@@ -645,10 +636,8 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), capacity);
+				deallocate();
 				empty_base<NodeAlloc>::operator=(other);
-				capacity = 0;
-				m_data = {};
 			}
 			return *this;
 		}
@@ -656,10 +645,8 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), capacity);
+				deallocate();
 				empty_base<NodeAlloc>::operator=(other);
-				capacity = 0;
-				m_data = {};
 			}
 			return *this;
 		}
@@ -667,10 +654,13 @@ namespace tpp::_detail
 		template<typename Alloc>
 		swiss_table_buffer(const Alloc &alloc) : empty_base<NodeAlloc>(alloc) {}
 		template<typename Alloc>
-		swiss_table_buffer(size_type capacity, const Alloc &alloc) : empty_base<NodeAlloc>(alloc)
+		swiss_table_buffer(size_type n, const Alloc &alloc) : empty_base<NodeAlloc>(alloc)
 		{
-			allocate(capacity);
-			fill_empty();
+			if (n != 0)
+			{
+				allocate(n);
+				fill_empty();
+			}
 		}
 
 		[[nodiscard]] meta_ptr meta() const noexcept { return std::launder(static_cast<meta_ptr>(m_data)); }
@@ -688,8 +678,11 @@ namespace tpp::_detail
 			std::swap(tmp_data, m_data);
 			std::swap(n, capacity);
 
-			relocate(old_meta, old_nodes, n);
-			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(tmp_data), buffer_size(n));
+			if (n != 0)
+			{
+				relocate(old_meta, old_nodes, n);
+				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(tmp_data), buffer_size(n));
+			}
 		}
 
 		void allocate(size_type n)
@@ -701,13 +694,13 @@ namespace tpp::_detail
 		{
 			if (capacity < n)
 			{
-				if (capacity) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
-				m_data = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), buffer_size(n));
-				capacity = n;
+				deallocate();
+				allocate(n);
 			}
 		}
 		void deallocate()
 		{
+			if (capacity == 0) return;
 			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 			capacity = 0;
 			m_data = {};
-- 
2.43.0


From 2fd64fd6c1a73fa477db54dcedfd6fc3ed6e1307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:23 +0000
Subject: [PATCH 15/45] fix: swap of swiss tables ignores
 propagate_on_container_swap

---
 tpp/detail/swiss_table.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index d1e5870..12685e9 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -583,11 +583,14 @@ namespace tpp::_detail
 		}
 		void swap(swiss_table_buffer &other) noexcept(std::is_nothrow_swappable_v<MetaAlloc> && std::is_nothrow_swappable_v<NodeAlloc>)
 		{
+			using std::swap;
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_swap::value)
 				swap(meta_alloc(), other.meta_alloc());
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
 				swap(node_alloc(), other.node_alloc());
-			swap_data(other);
+			swap(capacity, other.capacity);
+			swap(m_metadata, other.m_metadata);
+			swap(m_nodes, other.m_nodes);
 		}
 
 		size_type capacity = 0;
@@ -719,9 +722,11 @@ namespace tpp::_detail
 		}
 		void swap(swiss_table_buffer &other) noexcept(std::is_nothrow_swappable_v<NodeAlloc>)
 		{
+			using std::swap;
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
 				swap(node_alloc(), other.node_alloc());
-			swap_data(other);
+			swap(capacity, other.capacity);
+			swap(m_data, other.m_data);
 		}
 
 		size_type capacity = 0;
@@ -1134,7 +1139,9 @@ namespace tpp::_detail
 			link_base::swap(other);
 			hash_base::swap(other);
 			cmp_base::swap(other);
-			swap_buffers(other);
+			std::swap(m_size, other.m_size);
+			std::swap(m_num_empty, other.m_num_empty);
+			m_buffer.swap(other.m_buffer);
 		}
 
 	private:
-- 
2.43.0


From 33f8fc2cdb0b531a620e4e157cfc631a04ffe0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:40 +0000
Subject: [PATCH 16/45] fix: node handle destroys its element twice when it was
 inserted into a table with an unequal allocator

---
 tpp/detail/table_common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 6aaf908..2673be8 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -378,6 +378,7 @@ namespace tpp::_detail
 				{
 					std::allocator_traits<allocator_type>::destroy(alloc(), m_ptr);
 					std::allocator_traits<allocator_type>::deallocate(alloc(), m_ptr, 1);
+					m_ptr = value_ptr{};
 				}
 			}
 
-- 
2.43.0


From 991d9e464fd2fdd855dddf05b4a55f2c822f37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:40 +0000
Subject: [PATCH 17/45] fix: stable node leaks its memory when the construction
 of the element throws

---
 tpp/detail/table_common.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 2673be8..ac8fe0f 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -443,8 +443,14 @@ namespace tpp::_detail
 		template<typename... Args, typename = std::enable_if_t<std::is_constructible_v<V, Args...>>>
 		void construct(allocator_type &alloc, Args &&...args)
 		{
-			m_ptr = std::allocator_traits<allocator_type>::allocate(alloc, 1);
-			std::allocator_traits<allocator_type>::construct(alloc, m_ptr, std::forward<Args>(args)...);
+			const auto ptr = std::allocator_traits<allocator_type>::allocate(alloc, 1);
+			try { std::allocator_traits<allocator_type>::construct(alloc, to_address(ptr), std::forward<Args>(args)...); }
+			catch (...)
+			{
+				std::allocator_traits<allocator_type>::deallocate(alloc, ptr, 1);
+				throw;
+			}
+			m_ptr = ptr;
 		}
 		template<typename... Args>
 		void replace(Args &&...args)
-- 
2.43.0


From dc11571a9f6170d055ba3e757eb71252e0138b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:40 +0000
Subject: [PATCH 18/45] fix: emplace leaks the temporary element when the hash,
 the comparison or the allocation throws

---
 tpp/detail/swiss_table.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 12685e9..f0cb4f4 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1321,10 +1321,17 @@ namespace tpp::_detail
 			auto tmp = bucket_node{};
 
 			tmp.construct(alloc, std::forward<Args>(args)...);
-			auto result = do_insert(hint, tmp.key(), std::move(tmp));
-			tmp.destroy(alloc);
-
-			return result;
+			try
+			{
+				auto result = do_insert(hint, tmp.key(), std::move(tmp));
+				tmp.destroy(alloc);
+				return result;
+			}
+			catch (...)
+			{
+				tmp.destroy(alloc);
+				throw;
+			}
 		}
 		template<typename T, typename... Args>
 		std::pair<iterator, bool> do_try_emplace(node_iterator hint, T &&key, Args &&...args)
-- 
2.43.0


From 459a0ae0aa477783c133a452ed6cafda33e6eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:40 +0000
Subject: [PATCH 19/45] fix: replacing a mapped value destroys it before the
 new value is constructed

---
 tpp/detail/table_common.hpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index ac8fe0f..92cb613 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -246,12 +246,22 @@ namespace tpp::_detail
 		{
 			auto &target = mapped();
 			using mapped_t = std::remove_reference_t<decltype(target)>;
+			static_assert(std::is_constructible_v<mapped_t, Args...>);
 
-			if constexpr (!std::is_trivially_destructible_v<mapped_t>)
+			/* Construct the new value first, since the constructor may throw & the arguments may refer to the old value. */
+			if constexpr (std::is_nothrow_move_constructible_v<mapped_t>)
+			{
+				auto tmp = mapped_t(std::forward<Args>(args)...);
 				target.~mapped_t();
-
-			static_assert(std::is_constructible_v<mapped_t, Args...>);
-			new(&target) mapped_t(std::forward<Args>(args)...);
+				new(&target) mapped_t(std::move(tmp));
+			}
+			else if constexpr (std::is_move_assignable_v<mapped_t>)
+				target = mapped_t(std::forward<Args>(args)...);
+			else
+			{
+				target.~mapped_t();
+				new(&target) mapped_t(std::forward<Args>(args)...);
+			}
 		}
 		void destroy(A &alloc) { std::allocator_traits<allocator_type>::destroy(alloc, &value()); }
 
@@ -457,12 +467,22 @@ namespace tpp::_detail
 		{
 			auto &target = mapped();
 			using mapped_t = std::remove_reference_t<decltype(target)>;
+			static_assert(std::is_constructible_v<mapped_t, Args...>);
 
-			if constexpr (!std::is_trivially_destructible_v<mapped_t>)
+			/* Construct the new value first, since the constructor may throw & the arguments may refer to the old value. */
+			if constexpr (std::is_nothrow_move_constructible_v<mapped_t>)
+			{
+				auto tmp = mapped_t(std::forward<Args>(args)...);
 				target.~mapped_t();
-
-			static_assert(std::is_constructible_v<mapped_t, Args...>);
-			new(&target) mapped_t(std::forward<Args>(args)...);
+				new(&target) mapped_t(std::move(tmp));
+			}
+			else if constexpr (std::is_move_assignable_v<mapped_t>)
+				target = mapped_t(std::forward<Args>(args)...);
+			else
+			{
+				target.~mapped_t();
+				new(&target) mapped_t(std::forward<Args>(args)...);
+			}
 		}
 		void destroy(A &alloc)
 		{
-- 
2.43.0


From b8661c93fed1370fc26764e708bea851bb43a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:42 +0000
Subject: [PATCH 20/45] fix: stable nodes are transferred between tables with
 unequal allocators without being moved to new memory

---
 tpp/detail/table_common.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 92cb613..dd8c2c5 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -448,13 +448,27 @@ namespace tpp::_detail
 		}
 
 		template<typename U>
-		void relocate(U &, U &, stable_node &other) { move_from(other); }
+		void relocate(U &alloc_dst, U &alloc_src, stable_node &other)
+		{
+			if (allocator_eq(alloc_dst, alloc_src))
+				move_from(other);
+			else
+			{
+				/* Memory can not be transferred between unequal allocators. */
+				auto conv_alloc_dst = allocator_type{alloc_dst};
+				auto conv_alloc_src = allocator_type{alloc_src};
+				construct(conv_alloc_dst, std::move(other.value()));
+				link_base::operator=(std::move(other));
+				m_hash = other.m_hash;
+				other.destroy(conv_alloc_src);
+			}
+		}
 
 		template<typename... Args, typename = std::enable_if_t<std::is_constructible_v<V, Args...>>>
 		void construct(allocator_type &alloc, Args &&...args)
 		{
 			const auto ptr = std::allocator_traits<allocator_type>::allocate(alloc, 1);
-			try { std::allocator_traits<allocator_type>::construct(alloc, to_address(ptr), std::forward<Args>(args)...); }
+			try { std::allocator_traits<allocator_type>::construct(alloc, _detail::to_address(ptr), std::forward<Args>(args)...); }
 			catch (...)
 			{
 				std::allocator_traits<allocator_type>::deallocate(alloc, ptr, 1);
-- 
2.43.0


From c5d051500310dc9b0372625f7cd62ca7aa1c3780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:42 +0000
Subject: [PATCH 21/45] fix: node links are changed before the element is
 constructed

---
 tpp/detail/table_common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index dd8c2c5..1c422da 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -225,14 +225,14 @@ namespace tpp::_detail
 		}
 		void construct(allocator_type &alloc, const packed_node &other)
 		{
-			link_base::operator=(other);
 			construct(alloc, other.value());
+			link_base::operator=(other);
 			hash() = other.hash();
 		}
 		void construct(allocator_type &alloc, packed_node &&other)
 		{
-			link_base::operator=(std::move(other));
 			construct(alloc, std::move(other.value()));
+			link_base::operator=(std::move(other));
 			hash() = other.hash();
 		}
 		void move_from(packed_node &other)
-- 
2.43.0


From e54791e35aea9578cb163295c6bf00c9cf894f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 22/45] fix: copy and move of swiss tables assume equal
 capacities and leave stale metadata and links behind

---
 tpp/detail/swiss_table.hpp | 141 +++++++++++++++++++++----------------
 1 file changed, 79 insertions(+), 62 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index f0cb4f4..246b09e 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -842,37 +842,35 @@ namespace tpp::_detail
 		template<typename Iter>
 		swiss_table(Iter first, Iter last, size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : swiss_table(distance_or_n(first, last, n), hash, cmp, alloc) { insert(first, last); }
 
-		swiss_table(const swiss_table &other) : hash_base(other), cmp_base(other), link_base(), m_buffer(other.m_buffer) { copy_data(other); }
-		swiss_table(const swiss_table &other, const allocator_type &alloc) : hash_base(other), cmp_base(other), link_base(), m_buffer(alloc) { copy_data(other); }
+		swiss_table(const swiss_table &other) : hash_base(other), cmp_base(other), link_base(), m_buffer(other.m_buffer) { init_data([&]() { copy_data(other); }); }
+		swiss_table(const swiss_table &other, const allocator_type &alloc) : hash_base(other), cmp_base(other), link_base(), m_buffer(alloc) { init_data([&]() { copy_data(other); }); }
 
 		swiss_table(swiss_table &&other) noexcept(std::is_nothrow_move_constructible_v<buffer_type> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(std::move(other.m_buffer)) { move_from(other); }
+				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_buffer(std::move(other.m_buffer)) { move_from(other); }
 		swiss_table(swiss_table &&other, const allocator_type &alloc) noexcept(std::is_nothrow_constructible_v<buffer_type, const allocator_type &> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(alloc) { move_from(other); }
+				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_buffer(alloc) { init_data([&]() { move_from(other); }); }
 
 		swiss_table &operator=(const swiss_table &other)
 		{
 			if (this != &other)
 			{
-				link_base::operator=(other);
+				clear();
 				hash_base::operator=(other);
 				cmp_base::operator=(other);
 
-				erase_nodes();
 				m_buffer = other.m_buffer;
 				copy_data(other);
 			}
 			return *this;
 		}
-		swiss_table &operator=(swiss_table &&other) noexcept(std::is_nothrow_move_assignable_v<buffer_type> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
+		swiss_table &operator=(swiss_table &&other) noexcept((std::allocator_traits<node_allocator>::propagate_on_container_move_assignment::value || std::allocator_traits<node_allocator>::is_always_equal::value) && std::is_nothrow_move_assignable_v<buffer_type> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
 		{
 			if (this != &other)
 			{
-				link_base::operator=(std::move(other));
+				clear();
 				hash_base::operator=(std::move(other));
 				cmp_base::operator=(std::move(other));
 
-				erase_nodes();
 				m_buffer = std::move(other.m_buffer);
 				move_from(other);
 			}
@@ -1451,79 +1449,95 @@ namespace tpp::_detail
 			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
 		}
 
+		template<typename F>
+		void init_data(F &&init)
+		{
+			/* Destructor is not invoked if the constructor throws. */
+			try { init(); }
+			catch (...)
+			{
+				erase_nodes();
+				m_buffer.deallocate();
+				throw;
+			}
+		}
+		/* Resets metadata of an empty table, so that it can be used to store elements of a table with capacity `n`. */
+		void reset_buffer(size_type n)
+		{
+			m_num_empty = 0;
+			m_buffer.reallocate(n);
+			if (m_buffer.capacity != 0)
+			{
+				m_buffer.fill_empty();
+				m_num_empty = capacity_to_max_size(m_buffer.capacity);
+			}
+		}
+		/* Invokes the functor for every occupied node (in order of insertion if the table is ordered). The functor may erase the passed node. */
+		template<typename F>
+		void for_each_node(F &&f) const
+		{
+			if constexpr (is_ordered::value)
+				for (auto *node = begin_node(); node != end_node();)
+				{
+					auto *next = static_cast<bucket_node *>(node->off(node->next));
+					f(*node);
+					node = next;
+				}
+			else
+				for (size_type i = 0; i != m_buffer.capacity; ++i)
+					if (is_occupied(m_buffer.meta()[i])) f(m_buffer.nodes()[i]);
+		}
+
 		void copy_data(const swiss_table &other)
 		{
 			/* Expect that there is no data in the buffers, but the buffers might still exist. */
 			TPP_ASSERT(m_size == 0, "Table must be empty prior to copying elements");
 
-			/* Ignore empty tables. */
-			TPP_IF_UNLIKELY(other.m_size == 0)
-			{
-				m_num_empty = m_buffer.capacity ? capacity_to_max_size(m_buffer.capacity) : 0;
-				return;
-			}
-
 			/* (re)allocate the metadata & node buffers if needed. */
-			m_buffer.reallocate(other.m_buffer.capacity);
-			m_buffer.fill_empty();
+			reset_buffer(other.m_size ? other.m_buffer.capacity : 0);
 
-			/* Copy elements from the other table. */
+			/* Copy elements from the other table. Capacities might be different & deleted entries are not copied, thus positions can not be preserved. */
 			auto alloc = value_allocator{get_allocator()};
-			auto *nodes = m_buffer.nodes(), *other_nodes = other.m_buffer.nodes();
-			auto *other_metadata = other.m_buffer.meta();
-			for (size_type i = 0; i != other.m_buffer.capacity; ++i)
-				if (is_occupied(other_metadata[i]))
-				{
-					nodes[i].construct(alloc, other_nodes[i]);
-					set_metadata(i, other_metadata[i]);
-				}
-			m_size = other.m_size;
-			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
-
-			/* If the node link is ordered, update header offsets to point to the copied data. */
-			if constexpr (is_ordered::value)
-				if (m_size != 0)
-				{
-					const auto front_off = other.front_node() - other_nodes;
-					const auto back_off = other.back_node() - other_nodes;
-					header_link()->link(nodes + front_off, nodes + back_off);
-				}
+			other.for_each_node([&](const bucket_node &src_node)
+			{
+				const auto target_pos = find_available(src_node.hash());
+				auto *target = m_buffer.nodes() + target_pos;
+				target->construct(alloc, src_node);
+				insert_link({}, target);
+
+				set_metadata(target_pos, decompose_hash(target->hash()).second);
+				--m_num_empty;
+				++m_size;
+			});
 		}
 		void move_data(swiss_table &other)
 		{
 			/* Expect that there is no data in the buffers, but the buffers might still exist. */
 			TPP_ASSERT(size() == 0, "Table must be empty prior to moving elements");
 
-			/* Ignore empty tables. */
-			TPP_IF_UNLIKELY(other.m_size == 0)
-			{
-				m_size = 0;
-				m_num_empty = m_buffer.capacity ? capacity_to_max_size(m_buffer.capacity) : 0;
-				return;
-			}
-
 			/* (re)allocate the metadata & node buffers if needed. */
-			m_buffer.reallocate(other.m_buffer.capacity);
-			m_buffer.fill_empty();
+			reset_buffer(other.m_size ? other.m_buffer.capacity : 0);
 
 			/* Move elements from the other table. */
 			auto alloc = value_allocator{get_allocator()}, other_alloc = value_allocator{other.get_allocator()};
-			auto *nodes = m_buffer.nodes(), *other_nodes = other.m_buffer.nodes();
-			auto *other_metadata = other.m_buffer.meta();
-			for (size_type i = 0; i != other.m_buffer.capacity; ++i)
-				if (is_occupied(other_metadata[i]))
-				{
-					auto *src_node = other_nodes + i, *dst_node = nodes + i;
-					dst_node->relocate(alloc, other_alloc, *src_node);
-					set_metadata(i, other_metadata[i]);
-				}
-			m_size = other.m_size;
-			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
+			other.for_each_node([&](bucket_node &src_node)
+			{
+				const auto target_pos = find_available(src_node.hash());
+				auto *target = m_buffer.nodes() + target_pos;
+				target->relocate(alloc, other_alloc, src_node);
+				if constexpr (is_ordered::value) target->unlink();
+				insert_link({}, target);
+
+				set_metadata(target_pos, decompose_hash(target->hash()).second);
+				--m_num_empty;
+				++m_size;
+
+				other.set_metadata(static_cast<size_type>(&src_node - other.m_buffer.nodes()), meta_byte::deleted);
+				--other.m_size;
+			});
 
 			/* Reset the other table. */
-			other.m_size = 0;
-			other.m_num_empty = capacity_to_max_size(other.m_buffer.capacity);
-			other.m_buffer.fill_empty();
+			other.reset_buffer(0);
 		}
 		void erase_nodes()
 		{
@@ -1543,7 +1557,10 @@ namespace tpp::_detail
 		void move_from(swiss_table &other)
 		{
 			if (m_buffer.can_swap(other.m_buffer))
+			{
+				link_base::operator=(std::move(other));
 				swap_buffers(other);
+			}
 			else
 				move_data(other);
 		}
-- 
2.43.0


From 26ea080ba9080d92da77fb76e8892f56a1fbebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 23/45] fix: hinted insertion uses a dangling hint after a
 rehash

---
 tpp/detail/swiss_table.hpp | 39 +++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 246b09e..818ccfd 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1258,10 +1258,22 @@ namespace tpp::_detail
 				node->link(prev);
 			}
 		}
+		/* Makes at least one empty entry available by reclaiming deleted entries or by increasing the capacity. */
+		void make_available()
+		{
+			/* Do an in-place rehash by reclaiming deleted entries. Choice of coefficients is outlined by the reference implementation at
+			 * https://github.com/abseil/abseil-cpp/blob/f7affaf32a6a396465507dd10520a3fe183d4e40/absl/container/internal/raw_hash_set.cc#L97
+			 *
+			 * NOTE: Reclaiming deleted entries may leave blocks partially empty. */
+			if (m_buffer.capacity > sizeof(meta_block) && static_cast<std::uint64_t>(m_size) * 32 <= static_cast<std::uint64_t>(m_buffer.capacity) * 25)
+				rehash_deleted();
+			else
+				do_rehash((m_buffer.capacity + 1) * 2 - 1);
+		}
 		template<typename... Args>
 		iterator emplace_node(node_iterator hint, std::size_t h, Args &&...args)
 		{
-			size_type target_pos;
+			size_type target_pos = 0;
 			TPP_IF_UNLIKELY(m_buffer.capacity == 0)
 			{
 				do_rehash(1);
@@ -1271,14 +1283,23 @@ namespace tpp::_detail
 				target_pos = find_available(h);
 				TPP_IF_UNLIKELY(!m_num_empty && m_buffer.meta()[target_pos] != meta_byte::deleted)
 				{
-					/* Do an in-place rehash by reclaiming deleted entries. Choice of coefficients is outlined by the reference implementation at
-					 * https://github.com/abseil/abseil-cpp/blob/f7affaf32a6a396465507dd10520a3fe183d4e40/absl/container/internal/raw_hash_set.cc#L97
-					 *
-					 * NOTE: Reclaiming deleted entries may leave blocks partially empty. */
-					if (m_buffer.capacity > sizeof(meta_block) && static_cast<std::uint64_t>(m_size) * 32 <= static_cast<std::uint64_t>(m_buffer.capacity) * 25)
-						rehash_deleted();
-					else
-						do_rehash((m_buffer.capacity + 1) * 2 - 1);
+					/* Nodes are relocated by the rehash, thus the position of the hint has to be preserved by a temporary link. */
+					bucket_link anchor;
+					if constexpr (is_ordered::value)
+						if (hint.link) anchor.link(const_cast<bucket_link *>(hint.link));
+					try { make_available(); }
+					catch (...)
+					{
+						if constexpr (is_ordered::value)
+							if (hint.link) anchor.unlink();
+						throw;
+					}
+					if constexpr (is_ordered::value)
+						if (hint.link)
+						{
+							hint.link = anchor.off(anchor.prev);
+							anchor.unlink();
+						}
 					target_pos = find_available(h);
 				}
 			}
-- 
2.43.0


From f93747b50def1c00e0a338799d524363feb7e5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 24/45] fix: insertion of an element of the table reads it
 after it was relocated by the rehash

---
 tpp/detail/swiss_table.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 818ccfd..469d064 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1273,6 +1273,26 @@ namespace tpp::_detail
 		template<typename... Args>
 		iterator emplace_node(node_iterator hint, std::size_t h, Args &&...args)
 		{
+			/* Arguments may refer to an element of this table, construct the new element before the existing elements are relocated. */
+			if constexpr (!is_stable<ValueTraits>::value && !(std::is_same_v<std::decay_t<Args>, bucket_node> || ...))
+				TPP_IF_UNLIKELY(m_buffer.capacity != 0 && m_num_empty == 0)
+				{
+					auto alloc = value_allocator{get_allocator()};
+					auto tmp = bucket_node{};
+					tmp.construct(alloc, std::forward<Args>(args)...);
+					try
+					{
+						auto result = emplace_node(hint, h, std::move(tmp));
+						tmp.destroy(alloc);
+						return result;
+					}
+					catch (...)
+					{
+						tmp.destroy(alloc);
+						throw;
+					}
+				}
+
 			size_type target_pos = 0;
 			TPP_IF_UNLIKELY(m_buffer.capacity == 0)
 			{
-- 
2.43.0


From 1fd2850c56f727529890f28fe65fdda3d22b7bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 25/45] fix: merge of stable tables skips the first ordered
 element and replaces the hash and allocator

---
 tpp/detail/swiss_table.hpp | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 469d064..d7b286f 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1093,28 +1093,18 @@ namespace tpp::_detail
 		{
 			reserve(m_size + other.size());
 
-			/* Extract nodes from other and insert into this. */
-			/* Iterate backwards for ordered links, since the ordered iterators are invalidated on erase. */
-			const auto transfer = [&](const const_iterator &pos) noexcept
+			/* Extract nodes from other and insert into this. Iterator of the extracted node is invalidated, so advance it first. */
+			for (auto pos = other.begin(), last = other.end(); pos != last;)
 			{
-				const auto &key = ValueTraits::get_key(*pos);
+				const auto curr = pos++;
+				const auto &key = ValueTraits::get_key(*curr);
 				const auto h = hash(key);
-				if (find_node(key, h) == m_buffer.capacity) emplace_node({}, h, other.extract(pos));
-			};
-			if constexpr (!is_ordered::value)
-				for (auto pos = other.begin(), last = other.end(); pos != last; ++pos) transfer(pos);
-			else
-				for (auto pos = other.end(), last = other.begin(); --pos != last;) transfer(pos);
+				if (find_node(key, h) == m_buffer.capacity) emplace_node({}, h, other.extract(curr));
+			}
 		}
 		template<typename Kh2, typename Kc2>
 		void merge(swiss_table<I, V, K, Kh2, Kc2, Alloc, ValueTraits> &&other) { merge(other); }
-		void merge(swiss_table &&other)
-		{
-			if (m_size == 0)
-				operator=(std::move(other));
-			else
-				merge(other);
-		}
+		void merge(swiss_table &&other) { merge(other); }
 
 		void rehash(size_type n)
 		{
-- 
2.43.0


From 5819ae9c0cc4b5a76b320a7849c04613b060f0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 26/45] fix: subscript operator of the maps moves from its
 lvalue argument and does not accept rvalues

---
 tpp/dense_map.hpp  | 8 ++++----
 tpp/sparse_map.hpp | 8 ++++----
 tpp/stable_map.hpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index d384316..33eba46 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -545,14 +545,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::move(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
@@ -1195,14 +1195,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::move(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
diff --git a/tpp/sparse_map.hpp b/tpp/sparse_map.hpp
index bd2968d..b418249 100644
--- a/tpp/sparse_map.hpp
+++ b/tpp/sparse_map.hpp
@@ -514,14 +514,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::move(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1109,14 +1109,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::move(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
diff --git a/tpp/stable_map.hpp b/tpp/stable_map.hpp
index 8842d46..6c7204b 100644
--- a/tpp/stable_map.hpp
+++ b/tpp/stable_map.hpp
@@ -561,14 +561,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::move(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1203,14 +1203,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::move(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
-- 
2.43.0


From 9959d231874503851909cae96a1218ff49844550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 27/45] fix: generic metadata block does not compile and
 mishandles blocks with no occupied entries

---
 tpp/detail/swiss_table.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index d7b286f..29ac189 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -321,13 +321,9 @@ namespace tpp::_detail
 
 	std::size_t meta_block::count_available() const noexcept
 	{
-		constexpr std::uint64_t lsb_mask = 0x0101010101010101;
-		return ctz((value | ~(value >> 7)) & lsb_mask) >> 3;
-	}
-	std::size_t meta_block::count_available() const noexcept
-	{
-		constexpr std::uint64_t lsb_mask = 0x0101010101010101;
-		return ctz((value | ~(value >> 7)) & lsb_mask) >> 3;
+		/* Every entry may be available, in which case the size of the block must be returned. */
+		constexpr std::uint64_t gaps = 0x00fefefefefefefe;
+		return (ctz(((~value & (value >> 7)) | gaps) + 1) + 7) >> 3;
 	}
 	meta_block meta_block::reset_occupied() const noexcept
 	{
-- 
2.43.0


From 096c6b4980fddc57cc6080cc008af067b2de0066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 28/45] fix: insertion of an empty node handle dereferences a
 null pointer

---
 tpp/detail/swiss_table.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 29ac189..d4a1065 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -953,6 +953,8 @@ namespace tpp::_detail
 		template<typename N>
 		auto insert_node(N &&node) -> typename stable_node<V, Alloc, ValueTraits>::template insert_return<iterator, N>
 		{
+			if (node.empty()) return {end(), false};
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return {emplace_node({}, h, std::forward<N>(node)), true};
@@ -962,6 +964,8 @@ namespace tpp::_detail
 		template<typename N>
 		auto insert_node(const_iterator hint, N &&node) -> iterator
 		{
+			if (node.empty()) return end();
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
@@ -985,6 +989,8 @@ namespace tpp::_detail
 		template<typename N>
 		std::pair<iterator, bool> insert_or_assign_node(N &&node)
 		{
+			if (node.empty()) return {end(), false};
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return {emplace_node({}, h, std::forward<N>(node)), true};
@@ -1000,6 +1006,8 @@ namespace tpp::_detail
 		template<typename N>
 		iterator insert_or_assign_node(const_iterator hint, N &&node)
 		{
+			if (node.empty()) return end();
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
-- 
2.43.0


From 55be073ae982ecc2897f035c8ce9fec2b8e1a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 29/45] fix: node handle converts itself to the allocator and
 keeps the allocator of an empty handle

---
 tpp/detail/table_common.hpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 1c422da..d3a7858 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -334,17 +334,21 @@ namespace tpp::_detail
 		public:
 			constexpr extracted_type() noexcept = default;
 
-			extracted_type(extracted_type &&other) noexcept : alloc_base(std::move(other)), m_ptr(std::exchange(other.m_ptr, {})) { assert_alloc(other); }
+			extracted_type(extracted_type &&other) noexcept : alloc_base(std::move(other.alloc())), m_ptr(std::exchange(other.m_ptr, {})) { assert_alloc(other); }
 			extracted_type(allocator_type &&alloc, stable_node &&other) noexcept : alloc_base(std::move(alloc)), m_ptr(std::exchange(other.m_ptr, {})) {}
 
 			extracted_type &operator=(extracted_type &&other) noexcept
 			{
 				if (this != &other)
 				{
+					/* Allocator of an empty node handle is not used for anything, thus it can always be replaced. */
+					const auto was_empty = empty();
 					do_destroy();
 
 					if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value)
-						alloc_base::operator=(std::move(other));
+						alloc() = std::move(other.alloc());
+					else if (was_empty)
+						replace_alloc(other);
 
 					m_ptr = std::exchange(other.m_ptr, value_ptr{});
 					assert_alloc(other);
@@ -368,8 +372,13 @@ namespace tpp::_detail
 				using std::swap;
 				if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_swap::value)
 					swap(alloc(), other.alloc());
+				else if (empty())
+					replace_alloc(other);
+				else if (other.empty())
+					other.replace_alloc(*this);
+				else
+					assert_alloc(other);
 
-				assert_alloc(other);
 				swap(m_ptr, other.m_ptr);
 			}
 			friend void swap(extracted_type &a, extracted_type &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
@@ -382,6 +391,15 @@ namespace tpp::_detail
 			{
 				TPP_ASSERT(allocator_eq(alloc(), other.alloc()), "Node allocators must compare equal");
 			}
+			void replace_alloc(const extracted_type &other) noexcept
+			{
+				/* Allocators are not required to be assignable. */
+				if constexpr (!std::is_empty_v<allocator_type>)
+				{
+					alloc().~allocator_type();
+					new(&alloc()) allocator_type(other.alloc());
+				}
+			}
 			void do_destroy()
 			{
 				if (m_ptr)
-- 
2.43.0


From 73dd060bd52ac24a57e65ed839990449e1543fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 30/45] fix: moved-from swiss table keeps the amount of
 available entries of a released buffer

---
 tpp/detail/swiss_table.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index d4a1065..aef6d1f 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1593,6 +1593,9 @@ namespace tpp::_detail
 		{
 			if (m_buffer.can_swap(other.m_buffer))
 			{
+				/* Buffers of this table might have been released. */
+				if (m_buffer.capacity == 0) m_num_empty = 0;
+
 				link_base::operator=(std::move(other));
 				swap_buffers(other);
 			}
-- 
2.43.0


From 92d15b257575f6c9bdec9166ad325c90e283ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 31/45] fix: assignment of a node handle destroys the existing
 element before the new one is available

---
 tpp/detail/swiss_table.hpp  | 6 ++----
 tpp/detail/table_common.hpp | 8 ++++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index aef6d1f..f56e0a3 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -998,8 +998,7 @@ namespace tpp::_detail
 			{
 				auto alloc = value_allocator{get_allocator()};
 				auto &target = m_buffer.nodes()[target_pos];
-				target.destroy(alloc);
-				target.construct(alloc, std::forward<N>(node));
+				target.replace_node(alloc, std::forward<N>(node));
 				return {to_iter(target_pos), false};
 			}
 		}
@@ -1015,8 +1014,7 @@ namespace tpp::_detail
 			{
 				auto alloc = value_allocator{get_allocator()};
 				auto &target = m_buffer.nodes()[target_pos];
-				target.destroy(alloc);
-				target.construct(alloc, std::forward<N>(node));
+				target.replace_node(alloc, std::forward<N>(node));
 				return to_iter(target_pos);
 			}
 		}
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index d3a7858..de33adf 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -458,6 +458,14 @@ namespace tpp::_detail
 				other.do_destroy();
 			}
 		}
+		void replace_node(allocator_type &alloc, extracted_type &&other)
+		{
+			/* Existing element must not be destroyed until the new one is available, links & hash stay the same. */
+			stable_node tmp;
+			tmp.construct(alloc, std::move(other));
+			std::swap(m_ptr, tmp.m_ptr);
+			tmp.destroy(alloc);
+		}
 		void move_from(stable_node &other)
 		{
 			link_base::operator=(std::move(other));
-- 
2.43.0


From d06e1baffc4137d1d3ecb6bc4b1578028e453b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:34 +0000
Subject: [PATCH 32/45] fix: ordered links use pointer arithmetic across
 objects

---
 tpp/detail/table_common.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index de33adf..cf3204a 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -104,17 +104,16 @@ namespace tpp::_detail
 	{
 		[[nodiscard]] static std::ptrdiff_t byte_diff(const void *a, const void *b) noexcept
 		{
-			const auto a_bytes = static_cast<const std::uint8_t *>(a);
-			const auto b_bytes = static_cast<const std::uint8_t *>(b);
-			return a_bytes - b_bytes;
+			/* Links are parts of different objects, thus pointer arithmetic can not be used. */
+			return static_cast<std::ptrdiff_t>(reinterpret_cast<std::uintptr_t>(a) - reinterpret_cast<std::uintptr_t>(b));
 		}
 		[[nodiscard]] static const void *byte_off(const void *p, std::ptrdiff_t n) noexcept
 		{
-			return static_cast<const std::uint8_t *>(p) + n;
+			return reinterpret_cast<const void *>(reinterpret_cast<std::uintptr_t>(p) + static_cast<std::uintptr_t>(n));
 		}
 		[[nodiscard]] static void *byte_off(void *p, std::ptrdiff_t n) noexcept
 		{
-			return static_cast<std::uint8_t *>(p) + n;
+			return reinterpret_cast<void *>(reinterpret_cast<std::uintptr_t>(p) + static_cast<std::uintptr_t>(n));
 		}
 
 		ordered_link() noexcept = default;
-- 
2.43.0


From c8ed009562eb287810f4ccdcc723b1f654568aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 33/45] fix: erasure by key dereferences a null pointer if the
 dense table has no buckets

---
 tpp/detail/dense_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index d0ffd33..16e55c2 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -710,7 +710,7 @@ namespace tpp::_detail
 		template<std::size_t J, typename T, std::size_t... Is>
 		iterator do_erase(std::index_sequence<Is...>, const T &key, std::size_t h)
 		{
-			for (auto *chain_idx = get_chain<J>(h); *chain_idx != npos;)
+			for (auto *chain_idx = get_chain<J>(h); chain_idx && *chain_idx != npos;)
 			{
 				const auto pos = *chain_idx;
 				auto node = m_dense + pos;
-- 
2.43.0


From 90c6297bde97f57e63ee53d621f12f76dd4ad328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 34/45] fix: reallocated buffer dangles if the allocation
 throws

---
 tpp/detail/utility.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index 83beb0f..7430241 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -234,8 +234,10 @@ namespace tpp::_detail
 	{
 		if (buff.second < new_size)
 		{
+			/* Allocation may throw, in which case the old buffer must still be valid. */
+			const auto new_ptr = std::allocator_traits<A>::allocate(alloc, new_size);
 			if (buff.first) std::allocator_traits<A>::deallocate(alloc, buff.first, buff.second);
-			buff.first = std::allocator_traits<A>::allocate(alloc, buff.second = new_size);
+			buff = {new_ptr, new_size};
 		}
 		return buff;
 	}
-- 
2.43.0


From 1328988c28535244a30271cfa5526402f121c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 35/45] fix: erasure from ordered dense tables returns an
 iterator to the relocated node

---
 tpp/detail/dense_table.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 16e55c2..7b0874b 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -581,7 +581,9 @@ namespace tpp::_detail
 			if (const auto end_pos = size() - 1; pos != end_pos)
 			{
 				(move_chain<Is>(end_pos, pos), ...);
-				node->move_from(m_dense[end_pos]);
+				auto *last = to_address(m_dense + end_pos);
+				if (next == last) next = node;
+				node->move_from(*last);
 			}
 
 			pop_node();
-- 
2.43.0


From 6920d89c7e0f22e75f37f0f78d5d1d1100324aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 36/45] fix: range erasure from dense tables uses relocated
 nodes & mishandles empty ranges

---
 tpp/detail/dense_table.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 7b0874b..777148f 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -405,9 +405,19 @@ namespace tpp::_detail
 		}
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			iterator result = end();
-			while (last != first) result = erase(--last);
-			return result;
+			if constexpr (is_ordered::value)
+			{
+				/* Any node may be relocated by the erasure, thus only the returned iterators can be used. */
+				auto result = iterator{to_underlying(first)};
+				for (auto n = std::distance(first, last); n > 0; --n) result = erase(result);
+				return result;
+			}
+			else
+			{
+				auto result = iterator{to_underlying(last)};
+				while (last != first) result = erase(--last);
+				return result;
+			}
 		}
 
 		void rehash(size_type n)
-- 
2.43.0


From 3d4386331294241b35f4941af724953fa8a9dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 37/45] fix: erase_if of the dense containers uses the end
 iterator invalidated by the erasure

---
 tpp/dense_map.hpp      | 4 ++--
 tpp/dense_multimap.hpp | 2 +-
 tpp/dense_multiset.hpp | 2 +-
 tpp/dense_set.hpp      | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index 33eba46..a8341ce 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -630,7 +630,7 @@ namespace tpp
 	inline typename dense_map<K, M, H, C, A>::size_type erase_if(dense_map<K, M, H, C, A> &map, P pred)
 	{
 		typename dense_map<K, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();) /* End iterator is invalidated by the erasure. */
 		{
 			if (pred(*i))
 			{
@@ -1280,7 +1280,7 @@ namespace tpp
 	inline typename ordered_dense_map<K, M, H, C, A>::size_type erase_if(ordered_dense_map<K, M, H, C, A> &map, P pred)
 	{
 		typename dense_map<K, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();) /* End iterator is invalidated by the erasure. */
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 795d03d..75e30b9 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -464,7 +464,7 @@ namespace tpp
 	inline typename dense_multimap<Mk, M, H, C, A>::size_type erase_if(dense_multimap<Mk, M, H, C, A> &map, P pred)
 	{
 		typename dense_multimap<Mk, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();) /* End iterator is invalidated by the erasure. */
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_multiset.hpp b/tpp/dense_multiset.hpp
index 8bb8ff2..1c33009 100644
--- a/tpp/dense_multiset.hpp
+++ b/tpp/dense_multiset.hpp
@@ -338,7 +338,7 @@ namespace tpp
 	inline typename dense_multiset<Mk, H, C, A>::size_type erase_if(dense_multiset<Mk, H, C, A> &set, P pred)
 	{
 		typename dense_multiset<Mk, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();) /* End iterator is invalidated by the erasure. */
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_set.hpp b/tpp/dense_set.hpp
index 37a216d..ed5302c 100644
--- a/tpp/dense_set.hpp
+++ b/tpp/dense_set.hpp
@@ -339,7 +339,7 @@ namespace tpp
 	inline typename dense_set<K, H, C, A>::size_type erase_if(dense_set<K, H, C, A> &set, P pred)
 	{
 		typename dense_set<K, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();) /* End iterator is invalidated by the erasure. */
 		{
 			if (pred(*i))
 			{
@@ -700,7 +700,7 @@ namespace tpp
 	inline typename ordered_dense_set<K, H, C, A>::size_type erase_if(ordered_dense_set<K, H, C, A> &set, P pred)
 	{
 		typename dense_set<K, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();) /* End iterator is invalidated by the erasure. */
 		{
 			if (pred(*i))
 			{
-- 
2.43.0


From f1b52e818e0db52ce2e2efa0e9998c5fd9441d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:06 +0000
Subject: [PATCH 38/45] fix: copy and move of dense tables corrupt links &
 buckets and leak the buffers on exceptions

---
 tpp/detail/dense_table.hpp | 140 +++++++++++++++++++++++++------------
 1 file changed, 94 insertions(+), 46 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 777148f..4615e8b 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -188,55 +188,57 @@ namespace tpp::_detail
 		dense_table(size_type bucket_count, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : sparse_alloc_base(alloc), dense_alloc_base(alloc), hash_base(hash), cmp_base(cmp)
 		{
 			TPP_IF_LIKELY(bucket_count != 0)
-			{
-				m_dense = std::allocator_traits<dense_allocator>::allocate(dense_alloc(), m_dense_capacity = bucket_count);
-				m_sparse = std::allocator_traits<sparse_allocator>::allocate(sparse_alloc(), m_sparse_size = bucket_count);
-				std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
-			}
+				init_data([&]()
+				          {
+					          realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, bucket_count);
+					          realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, bucket_count);
+					          std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
+				          });
 		}
 
 		template<typename Iter>
 		dense_table(Iter first, Iter last, size_type bucket_count, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : dense_table(distance_or_n(first, last, bucket_count), hash, cmp, alloc) { insert(first, last); }
 
-		dense_table(const dense_table &other) : sparse_alloc_base(allocator_copy(other.sparse_alloc())), dense_alloc_base(allocator_copy(other.dense_alloc())), hash_base(other), cmp_base(other), link_base(other), m_max_load_factor(other.m_max_load_factor)
+		dense_table(const dense_table &other) : sparse_alloc_base(allocator_copy(other.sparse_alloc())), dense_alloc_base(allocator_copy(other.dense_alloc())), hash_base(other), cmp_base(other), link_base(), m_max_load_factor(other.m_max_load_factor)
 		{
-			copy_data(other);
+			init_data([&]() { copy_data(other); });
 		}
-		dense_table(const dense_table &other, const allocator_type &alloc) : sparse_alloc_base(alloc), dense_alloc_base(alloc), hash_base(other), cmp_base(other), link_base(other), m_max_load_factor(other.m_max_load_factor)
+		dense_table(const dense_table &other, const allocator_type &alloc) : sparse_alloc_base(alloc), dense_alloc_base(alloc), hash_base(other), cmp_base(other), link_base(), m_max_load_factor(other.m_max_load_factor)
 		{
-			copy_data(other);
+			init_data([&]() { copy_data(other); });
 		}
 
 		dense_table(dense_table &&other) noexcept(std::is_nothrow_move_constructible_v<sparse_allocator> && std::is_nothrow_move_constructible_v<dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: sparse_alloc_base(std::move(other)), dense_alloc_base(std::move(other)), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
+				: sparse_alloc_base(std::move(other)), dense_alloc_base(std::move(other)), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_max_load_factor(other.m_max_load_factor)
 		{
-			move_from(other);
+			init_data([&]() { move_from(other); });
 		}
-		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::is_nothrow_constructible_v<sparse_allocator, sparse_allocator> && std::is_nothrow_constructible_v<dense_allocator, dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
+		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_constructible_v<sparse_allocator, sparse_allocator> && std::is_nothrow_constructible_v<dense_allocator, dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
+				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_max_load_factor(other.m_max_load_factor)
 		{
-			move_from(other);
+			init_data([&]() { move_from(other); });
 		}
 
 		dense_table &operator=(const dense_table &other)
 		{
 			if (this != &other)
 			{
-				link_base::operator=(other);
+				/* Elements & links must be gone before the functors & allocators are replaced. */
+				clear();
+
 				hash_base::operator=(other);
 				cmp_base::operator=(other);
 
 				m_max_load_factor = other.m_max_load_factor;
-				clear_data();
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_copy_assignment::value)
 				{
-					std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
+					free_sparse();
 					sparse_alloc_base::operator=(other);
 				}
 				if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_copy_assignment::value)
 				{
-					std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
+					free_dense();
 					dense_alloc_base::operator=(other);
 				}
 
@@ -244,25 +246,26 @@ namespace tpp::_detail
 			}
 			return *this;
 		}
-		dense_table &operator=(dense_table &&other) noexcept(std::is_nothrow_move_assignable_v<sparse_allocator> && std::is_nothrow_move_assignable_v<dense_allocator> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
+		dense_table &operator=(dense_table &&other) noexcept((std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value || std::allocator_traits<allocator_type>::is_always_equal::value) && std::is_nothrow_move_assignable_v<sparse_allocator> && std::is_nothrow_move_assignable_v<dense_allocator> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
 		{
 			if (this != &other)
 			{
-				link_base::operator=(std::move(other));
+				/* Elements & links must be gone before the functors & allocators are replaced. */
+				clear();
+
 				hash_base::operator=(std::move(other));
 				cmp_base::operator=(std::move(other));
 
 				m_max_load_factor = other.m_max_load_factor;
-				clear_data();
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_move_assignment::value)
 				{
-					std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
+					free_sparse();
 					sparse_alloc_base::operator=(std::move(other));
 				}
 				if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_move_assignment::value)
 				{
-					std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
+					free_dense();
 					dense_alloc_base::operator=(std::move(other));
 				}
 
@@ -275,8 +278,8 @@ namespace tpp::_detail
 		~dense_table()
 		{
 			clear_data();
-			if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), m_dense, m_dense_capacity);
-			if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), m_sparse, m_sparse_size);
+			free_dense();
+			free_sparse();
 		}
 
 		template<typename Iter>
@@ -821,24 +824,31 @@ namespace tpp::_detail
 			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
 
-			/* Copy & insert elements from the other table. */
-			auto alloc = allocator_type{dense_alloc()};
-			for (; m_dense_size < other.size(); ++m_dense_size)
+			/* Copy & insert elements from the other table. Nodes are only linked to each other until all of them are copied. */
+			try
 			{
-				auto &from = other.m_dense[m_dense_size];
-				auto &to = m_dense[m_dense_size];
-				to.construct(alloc, from);
-				(insert_node<Is>(to, m_dense_size), ...);
+				auto alloc = allocator_type{dense_alloc()};
+				for (; m_dense_size < other.size(); ++m_dense_size)
+				{
+					auto &from = other.m_dense[m_dense_size];
+					auto &to = m_dense[m_dense_size];
+					to.construct(alloc, from);
+					(insert_node<Is>(to, m_dense_size), ...);
+				}
+			}
+			catch (...)
+			{
+				clear();
+				throw;
 			}
 
 			/* If the node link is ordered, update header offsets to point to the copied data. */
 			if constexpr (is_ordered::value)
-				if (m_dense_size != 0)
-				{
-					const auto front_off = other.front_node() - other.m_dense;
-					const auto back_off = other.back_node() - other.m_dense;
-					header_link()->link(to_address(m_dense + front_off), to_address(m_dense + back_off));
-				}
+			{
+				const auto front_off = other.front_node() - to_address(other.m_dense);
+				const auto back_off = other.back_node() - to_address(other.m_dense);
+				header_link()->link(to_address(m_dense + front_off), to_address(m_dense + back_off));
+			}
 		}
 		template<std::size_t... Is>
 		void move_data(std::index_sequence<Is...>, dense_table &other)
@@ -859,15 +869,30 @@ namespace tpp::_detail
 			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
 
 			/* Move & insert elements from the other table. */
-			auto alloc = allocator_type{dense_alloc()};
-			for (; m_dense_size < other.size(); ++m_dense_size)
+			try
 			{
-				auto &from = other.m_dense[m_dense_size];
-				auto &to = m_dense[m_dense_size];
-				to.relocate(alloc, alloc, from);
-				(insert_node<Is>(to, m_dense_size), ...);
+				auto alloc = allocator_type{dense_alloc()}, other_alloc = allocator_type{other.dense_alloc()};
+				for (; m_dense_size < other.size(); ++m_dense_size)
+				{
+					auto &from = other.m_dense[m_dense_size];
+					auto &to = m_dense[m_dense_size];
+					to.relocate(alloc, other_alloc, from);
+					(insert_node<Is>(to, m_dense_size), ...);
+				}
+			}
+			catch (...)
+			{
+				/* Both tables are left empty, since the elements can not be moved back. */
+				other.clear_data(m_dense_size);
+				other.clear();
+				clear();
+				throw;
 			}
+
+			/* Take over the (relocated) nodes & leave the other table empty. */
+			link_base::operator=(std::move(static_cast<link_base &>(other)));
 			other.m_dense_size = 0;
+			other.clear();
 		}
 
 		void copy_data(const dense_table &other) { copy_data(std::make_index_sequence<key_size>{}, other); }
@@ -881,16 +906,39 @@ namespace tpp::_detail
 			swap(m_sparse, other.m_sparse);
 			swap(m_dense, other.m_dense);
 		}
-		void clear_data()
+		void clear_data(size_type first = 0)
 		{
 			auto alloc = allocator_type{dense_alloc()};
-			for (size_type i = 0, n = std::exchange(m_dense_size, 0); i < n; ++i) m_dense[i].destroy(alloc);
+			for (size_type i = first, n = std::exchange(m_dense_size, 0); i < n; ++i) m_dense[i].destroy(alloc);
+		}
+		void free_sparse()
+		{
+			if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
+		}
+		void free_dense()
+		{
+			if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
+		}
+		template<typename F>
+		void init_data(F &&init)
+		{
+			/* Destructor is not invoked if a constructor throws, thus the buffers need to be released here. */
+			try { init(); }
+			catch (...)
+			{
+				free_dense();
+				free_sparse();
+				throw;
+			}
 		}
 
 		void move_from(dense_table &other)
 		{
 			if (allocator_eq(sparse_alloc(), other.sparse_alloc()) && allocator_eq(dense_alloc(), other.dense_alloc()))
+			{
+				link_base::operator=(std::move(static_cast<link_base &>(other)));
 				swap_buffers(other);
+			}
 			else
 				move_data(other);
 		}
-- 
2.43.0


From 6837789392302d82f6323107d42b39b9fbc5fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 39/45] fix: insertion to dense tables reads relocated
 elements, moves the hint wrongly and leaks or keeps the new node on
 exceptions

---
 tpp/detail/dense_table.hpp | 130 ++++++++++++++++++++-----------------
 1 file changed, 71 insertions(+), 59 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 4615e8b..043e2ca 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -331,7 +331,7 @@ namespace tpp::_detail
 		}
 		void reserve(size_type n)
 		{
-			if (n > m_dense_capacity) resize_data(n);
+			if (node_iterator hint = {}; n > m_dense_capacity) resize_data(n, hint);
 			rehash(static_cast<size_type>(static_cast<float>(n) / m_max_load_factor));
 		}
 
@@ -531,17 +531,20 @@ namespace tpp::_detail
 		}
 
 		template<typename... Args>
-		auto push_node(Args &&...args) -> std::pair<size_type, bucket_node *>
+		auto push_node(node_iterator &hint, Args &&...args) -> std::pair<size_type, bucket_node *>
 		{
-			const auto pos = m_dense_size++;
+			/* NOTE: The new node is not a part of the table until it is committed. */
 			auto alloc = allocator_type{dense_alloc()};
-			m_dense[pos].construct(alloc, std::forward<Args>(args)...);
-			return {pos, m_dense + pos};
+			if (m_dense_size < m_dense_capacity)
+				m_dense[m_dense_size].construct(alloc, std::forward<Args>(args)...);
+			else
+				resize_data(m_dense_capacity ? m_dense_capacity * 2 : 1, hint, [&](bucket_node &node) { node.construct(alloc, std::forward<Args>(args)...); });
+			return {m_dense_size, to_address(m_dense + m_dense_size)};
 		}
-		void pop_node()
+		void pop_node(bucket_node *node)
 		{
 			auto alloc = allocator_type{dense_alloc()};
-			m_dense[--m_dense_size].destroy(alloc);
+			node->destroy(alloc);
 		}
 
 		template<std::size_t J>
@@ -560,20 +563,29 @@ namespace tpp::_detail
 		}
 
 		template<std::size_t... Is>
-		iterator commit_node(node_iterator hint, size_type pos, chain_slice slice, bucket_hash hashes, bucket_node *node)
+		iterator commit_node(node_iterator hint, size_type pos, bucket_hash hashes, bucket_node *node)
 		{
+			/* Buckets must be resized before the node is linked, since it will not be committed on exception. */
+			try { maybe_rehash(); }
+			catch (...)
+			{
+				pop_node(node);
+				throw;
+			}
+
 			/* Create the bucket and insertion order links. */
 			if constexpr (is_ordered::value) node->link(hint.link ? const_cast<bucket_link *>(hint.link) : back_node());
-			((*slice[Is] = pos), ...); /* Node is always inserted at the end of the chain. */
-
 			((node->template hash<Is>() = hashes[Is]), ...);
+			(insert_node<Is>(*node, pos), ...);
+
+			++m_dense_size;
 			return to_iter(node);
 		}
 		template<std::size_t... Is, typename... Args>
-		iterator emplace_node(node_iterator hint, chain_slice slice, bucket_hash hashes, Args &&...args)
+		iterator emplace_node(node_iterator hint, bucket_hash hashes, Args &&...args)
 		{
-			const auto [pos, node] = push_node(std::forward<Args>(args)...);
-			return commit_node<Is...>(hint, pos, slice, hashes, node);
+			const auto [pos, node] = push_node(hint, std::forward<Args>(args)...);
+			return commit_node<Is...>(hint, pos, hashes, node);
 		}
 		template<std::size_t... Is>
 		iterator erase_node(size_type pos, bucket_node *node, chain_slice slice)
@@ -599,30 +611,36 @@ namespace tpp::_detail
 				node->move_from(*last);
 			}
 
-			pop_node();
+			pop_node(to_address(m_dense + --m_dense_size));
 			return to_iter(next);
 		}
 
 		template<typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_emplace(std::index_sequence<Is...>, node_iterator hint, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* Create a temporary object to check if it already exists within the table. */
-			const auto [pos, tmp] = push_node(std::forward<Args>(args)...);
-			const auto hs = bucket_hash{hash(tmp->template key<Is>())...};
-			const auto node_list = std::array{find_node<Is>(tmp->template key<Is>(), hs[Is])...};
-			for (auto [node, chain]: node_list)
-				if (chain && *chain != npos)
-				{
-					/* Found a conflict, return the existing node. */
-					pop_node();
-					return {to_iter(node), false};
-				}
+			const auto [pos, tmp] = push_node(hint, std::forward<Args>(args)...);
+			bucket_hash hs;
+			try
+			{
+				hs = bucket_hash{hash(tmp->template key<Is>())...};
+				const auto node_list = std::array{find_node<Is>(tmp->template key<Is>(), hs[Is])...};
+				for (auto [node, chain]: node_list)
+					if (chain && *chain != npos)
+					{
+						/* Found a conflict, return the existing node. */
+						pop_node(tmp);
+						return {to_iter(node), false};
+					}
+			}
+			catch (...)
+			{
+				pop_node(tmp);
+				throw;
+			}
 
 			/* No conflicts found, commit the node. */
-			return {commit_node<Is...>(hint, pos, {node_list[Is].second...}, hs, tmp), true};
+			return {commit_node<Is...>(hint, pos, hs, tmp), true};
 		}
 		template<typename... Args>
 		std::pair<iterator, bool> do_emplace(node_iterator hint, Args &&...args)
@@ -634,21 +652,18 @@ namespace tpp::_detail
 		template<typename... Ks, typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_try_emplace(std::index_sequence<Is...>, node_iterator hint, std::tuple<Ks...> ks, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, do nothing. Otherwise, emplace a new entry. */
 			const auto hs = bucket_hash{hash(std::get<Is>(ks))...};
 			const auto node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
 			for (auto [node, chain]: node_list)
-				if (*chain != npos)
+				if (chain && *chain != npos)
 				{
 					/* Found a conflict, return the existing node. */
 					return {to_iter(node), false};
 				}
 
 			/* No conflicts found, proceed with insertion. */
-			return {emplace_node<Is...>(hint, {node_list[Is].second...}, hs, std::piecewise_construct, std::move(ks),
+			return {emplace_node<Is...>(hint, hs, std::piecewise_construct, std::move(ks),
 			                            std::forward_as_tuple(std::forward<Args>(args)...)), true};
 		}
 		template<typename... Ks, typename... Args>
@@ -660,9 +675,6 @@ namespace tpp::_detail
 		template<typename... Ks, typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_insert(std::index_sequence<Is...>, node_iterator hint, const std::tuple<Ks...> &ks, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, do nothing. Otherwise, emplace a new entry. */
 			const auto hs = bucket_hash{hash(std::get<Is>(ks))...};
 			const auto node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
@@ -674,7 +686,7 @@ namespace tpp::_detail
 				}
 
 			/* No conflicts found, proceed with insertion. */
-			return {emplace_node<Is...>(hint, {node_list[Is].second...}, hs, std::forward<Args>(args)...), true};
+			return {emplace_node<Is...>(hint, hs, std::forward<Args>(args)...), true};
 		}
 		template<typename... Ks, typename... Args>
 		std::pair<iterator, bool> do_insert(node_iterator hint, const std::tuple<Ks...> &ks, Args &&...args)
@@ -688,14 +700,11 @@ namespace tpp::_detail
 		{
 			static_assert(key_size == 1, "insert_or_assign is only available for keys of size 1");
 
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, replace the entry. Otherwise, emplace a new entry. */
 			const auto h = hash(key);
-			if (const auto [candidate, chain_idx] = find_node<0>(key, h); chain_idx && *chain_idx == npos)
+			if (const auto [candidate, chain_idx] = find_node<0>(key, h); !chain_idx || *chain_idx == npos)
 			{
-				return {emplace_node<0>(hint, {chain_idx}, {h},
+				return {emplace_node<0>(hint, {h},
 				                        std::piecewise_construct,
 				                        std::forward_as_tuple(std::forward<T>(key)),
 				                        std::forward_as_tuple(std::forward<Args>(args)...)),
@@ -766,14 +775,26 @@ namespace tpp::_detail
 				rehash(bucket_count() * 2);
 		}
 
-		void resize_data(size_type capacity)
+		template<typename... F>
+		void resize_data(size_type capacity, node_iterator &hint, F &&...construct)
 		{
 			auto &alloc = dense_alloc();
 			auto tmp_dense = std::allocator_traits<dense_allocator>::allocate(alloc, capacity);
+			auto *tmp_node = static_cast<bucket_node *>(nullptr);
 
 			try
 			{
+				/* If there is a new node, it must be constructed before the existing nodes are relocated, since arguments may refer to them. */
+				if constexpr (sizeof...(F) != 0)
+				{
+					(construct(tmp_dense[m_dense_size]), ...);
+					tmp_node = to_address(tmp_dense + m_dense_size);
+				}
+
+				const auto hint_pos = hint_offset(hint);
 				relocate(alloc, m_dense, m_dense + m_dense_size, alloc, tmp_dense, relocate_node{});
+				if (hint_pos < m_dense_size) hint = node_iterator{to_address(tmp_dense + hint_pos)};
+
 				std::swap(m_dense_capacity, capacity);
 				std::swap(m_dense, tmp_dense);
 
@@ -781,29 +802,20 @@ namespace tpp::_detail
 			}
 			catch (...)
 			{
+				if (tmp_node) pop_node(tmp_node);
 				if (tmp_dense) std::allocator_traits<dense_allocator>::deallocate(alloc, tmp_dense, capacity);
 				throw;
 			}
 		}
-		void maybe_resize(node_iterator &hint)
+		[[nodiscard]] size_type hint_offset(node_iterator hint) const noexcept
 		{
-			if (m_dense_capacity == m_dense_size)
+			/* Only the ordered tables use the hint, which may also be empty or point to the header (end iterator). */
+			if constexpr (is_ordered::value)
 			{
-				const auto old_dense = m_dense;
-				resize_data(m_dense_capacity ? m_dense_capacity * 2 : 1);
-
-				const auto off_bytes = (m_dense - old_dense) * sizeof(*m_dense);
-				if constexpr (is_ordered::value)
-				{
-					if (!hint.link) return;
-					hint.link += off_bytes / sizeof(bucket_link);
-				}
-				else
-				{
-					if (!hint) return;
-					hint += off_bytes / sizeof(*m_dense);
-				}
+				if (hint.link && hint.link != header_link())
+					return static_cast<size_type>(static_cast<const bucket_node *>(to_address(hint.link)) - to_address(m_dense));
 			}
+			return npos;
 		}
 
 		template<std::size_t... Is>
-- 
2.43.0


From 7656cbe6f3863756bea8765bcad2b56437e5b26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:22 +0000
Subject: [PATCH 40/45] fix: dense tables exceed the maximum load factor after
 reserve, rehash and a change of the load factor

---
 tpp/detail/dense_table.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 043e2ca..ff979d1 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -332,7 +332,7 @@ namespace tpp::_detail
 		void reserve(size_type n)
 		{
 			if (node_iterator hint = {}; n > m_dense_capacity) resize_data(n, hint);
-			rehash(static_cast<size_type>(static_cast<float>(n) / m_max_load_factor));
+			rehash(min_bucket_count(n));
 		}
 
 		template<std::size_t J, typename T>
@@ -430,8 +430,8 @@ namespace tpp::_detail
 				return;
 
 			/* Adjust the capacity to be at least large enough to fit the current size. */
-			const auto new_cap = std::max(static_cast<size_type>(static_cast<float>(size()) / m_max_load_factor), n);
-			if (!n || new_cap != m_sparse_size) do_rehash(new_cap);
+			const auto new_cap = std::max(min_bucket_count(size()), n);
+			if (!n || new_cap > m_sparse_size) do_rehash(new_cap);
 		}
 
 		[[nodiscard]] constexpr float max_load_factor() const noexcept { return m_max_load_factor; }
@@ -463,6 +463,13 @@ namespace tpp::_detail
 
 	private:
 		[[nodiscard]] constexpr auto to_load_factor(size_type n) const noexcept { return static_cast<size_type>(static_cast<float>(n) * m_max_load_factor); }
+		[[nodiscard]] constexpr auto min_bucket_count(size_type n) const noexcept
+		{
+			/* Conversion truncates, thus make sure that `n` elements do fit. */
+			auto result = static_cast<size_type>(static_cast<float>(n) / m_max_load_factor);
+			while (to_load_factor(result) < n) ++result;
+			return result;
+		}
 
 		[[nodiscard]] constexpr auto &sparse_alloc() noexcept { return sparse_alloc_base::value(); }
 		[[nodiscard]] constexpr auto &sparse_alloc() const noexcept { return sparse_alloc_base::value(); }
@@ -769,10 +776,11 @@ namespace tpp::_detail
 		void do_rehash(size_type new_cap) { do_rehash(std::make_index_sequence<key_size>{}, new_cap); }
 		void maybe_rehash()
 		{
+			/* Make sure there is enough buckets for at least one more element. */
 			TPP_IF_UNLIKELY(bucket_count() == 0)
-				rehash(8);
-			else if (load_factor() >= m_max_load_factor)
-				rehash(bucket_count() * 2);
+				rehash(std::max(min_bucket_count(1), size_type{8}));
+			else if (size() + 1 > capacity())
+				rehash(std::max(min_bucket_count(size() + 1), bucket_count() * 2));
 		}
 
 		template<typename... F>
-- 
2.43.0


From 354e0967762899dbca1725d79b9579d18a65ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 41/45] fix: try_emplace of multimaps moves from the keys of an
 existing element

---
 tpp/dense_multimap.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 75e30b9..193bd0f 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -256,13 +256,13 @@ namespace tpp
 		template<typename... Args>
 		std::pair<iterator, bool> try_emplace(const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(key, std::forward<Args>(args)...);
+			return m_table.try_emplace(forward_keys(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
 		std::pair<iterator, bool> try_emplace(key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(forward_keys(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace
 		 * @note This overload is available only if the hash & compare functors are transparent. */
@@ -281,7 +281,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, forward_keys(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -293,7 +293,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, forward_keys(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -452,6 +452,18 @@ namespace tpp
 				return iter;
 		}
 
+		/* Keys must not be copied or moved unless they are inserted. */
+		template<typename T, std::size_t... Is>
+		[[nodiscard]] static constexpr auto forward_keys(T &&key, std::index_sequence<Is...>) noexcept
+		{
+			return std::forward_as_tuple(std::get<Is>(std::forward<T>(key))...);
+		}
+		template<typename T>
+		[[nodiscard]] static constexpr auto forward_keys(T &&key) noexcept
+		{
+			return forward_keys(std::forward<T>(key), std::make_index_sequence<sizeof...(Keys)>{});
+		}
+
 		table_t m_table;
 	};
 
-- 
2.43.0


From 776dde8df0fd786cc94a239073d070bd13bbc376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 42/45] fix: swap of dense tables requires equal allocators
 even if they are propagated

---
 tpp/detail/dense_table.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index ff979d1..b320be3 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -451,11 +451,12 @@ namespace tpp::_detail
 
 			if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_swap::value)
 				swap(sparse_alloc(), other.sparse_alloc());
+			else
+				TPP_ASSERT(allocator_eq(sparse_alloc(), other.sparse_alloc()), "Swapped allocators must be equal");
 			if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_swap::value)
 				swap(dense_alloc(), other.dense_alloc());
-
-			TPP_ASSERT(allocator_eq(sparse_alloc(), other.sparse_alloc()), "Swapped allocators must be equal");
-			TPP_ASSERT(allocator_eq(dense_alloc(), other.dense_alloc()), "Swapped allocators must be equal");
+			else
+				TPP_ASSERT(allocator_eq(dense_alloc(), other.dense_alloc()), "Swapped allocators must be equal");
 
 			swap_buffers(other);
 			swap(m_max_load_factor, other.m_max_load_factor);
-- 
2.43.0


From 2158fc0533e6341a91526d5978da7368ea2a2c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:36 +0000
Subject: [PATCH 43/45] fix: copied and moved dense tables keep uninitialized
 buckets if the allocation of nodes throws

---
 tpp/detail/dense_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index b320be3..f5e3349 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -842,8 +842,8 @@ namespace tpp::_detail
 
 			/* (re)allocate the bucket & element buffers if needed. */
 			realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, other.m_sparse_size);
-			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
+			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 
 			/* Copy & insert elements from the other table. Nodes are only linked to each other until all of them are copied. */
 			try
@@ -886,8 +886,8 @@ namespace tpp::_detail
 
 			/* (re)allocate the bucket & element buffers if needed. */
 			realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, other.m_sparse_size);
-			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
+			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 
 			/* Move & insert elements from the other table. */
 			try
-- 
2.43.0


From 52d587cc7d7f3e43bb7a27ed3418676b5adbd619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:09 +0000
Subject: [PATCH 44/45] fix: max_size() of the dense tables overflowed when
 max_load_factor() was 1 or more

---
 tpp/detail/dense_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index f5e3349..aeb553c 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -305,7 +305,7 @@ namespace tpp::_detail
 		[[nodiscard]] const_reference back() const noexcept { return *to_iter(back_node()); }
 
 		[[nodiscard]] constexpr size_type size() const noexcept { return m_dense_size; }
-		[[nodiscard]] constexpr size_type max_size() const noexcept { return to_load_factor(max_bucket_count()); }
+		[[nodiscard]] constexpr size_type max_size() const noexcept { return m_max_load_factor < 1.0f ? to_load_factor(max_bucket_count()) : max_bucket_count(); }
 		[[nodiscard]] constexpr size_type capacity() const noexcept { return to_load_factor(bucket_count()); }
 		[[nodiscard]] constexpr float load_factor() const noexcept { return static_cast<float>(size()) / static_cast<float>(bucket_count()); }
 
-- 
2.43.0


From 9bcb2b085985bc80b2c251eec845d3f5288a7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:49 +0000
Subject: [PATCH 45/45] fix: comparing iterators with const_iterators was
 ambiguous in C++20

---
 tpp/detail/table_common.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index cf3204a..137aed3 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -754,6 +754,12 @@ namespace tpp::_detail
 
 #if (__cplusplus >= 202002L || (defined(_MSVC_LANG) && _MSVC_LANG >= 202002L))
 		[[nodiscard]] constexpr auto operator<=>(const table_iterator &other) const noexcept { return m_iter <=> other.m_iter; }
+
+		/* Iterators convert both ways, without an exact match the reversed comparison would be ambiguous. */
+		template<typename U, typename J, typename = std::enable_if_t<!std::is_same_v<U, V> && std::is_convertible_v<J, I>>>
+		[[nodiscard]] constexpr bool operator==(const table_iterator<U, Traits, J> &other) const noexcept { return m_iter == I{other.m_iter}; }
+		template<typename U, typename J, typename = std::enable_if_t<!std::is_same_v<U, V> && std::is_convertible_v<J, I>>>
+		[[nodiscard]] constexpr auto operator<=>(const table_iterator<U, Traits, J> &other) const noexcept { return m_iter <=> I{other.m_iter}; }
 #else
 		[[nodiscard]] constexpr bool operator!=(const table_iterator &other) const noexcept { return m_iter != other.m_iter; }
 		[[nodiscard]] constexpr bool operator<=(const table_iterator &other) const noexcept { return m_iter <= other.m_iter; }
-- 
2.43.0

