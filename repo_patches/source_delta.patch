From 73140c2618ff26ada393acd0296a54d6cc2a1271 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 01/35] fix: linear and stack allocator must refuse sizes whose
 rounding wraps around

---
 include/ktl/allocators/linear_allocator.h | 4 ++++
 include/ktl/allocators/stack_allocator.h  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 7d3508f..a6d2b56 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -74,6 +74,10 @@ namespace ktl
 		*/
 		void* allocate(size_t n) noexcept
 		{
+			// Rounding up must not wrap around
+			if (n > Size)
+				return nullptr;
+
 			size_t totalSize = n + detail::align_to_architecture(n);
 
 			if ((size_t(m_Free - m_Data) + totalSize) > Size)
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index 324b489..dac7826 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -62,6 +62,10 @@ namespace ktl
 #pragma region Allocation
 		void* allocate(size_t n) noexcept
 		{
+			// Rounding up must not wrap around
+			if (n > Size)
+				return nullptr;
+
 			size_t totalSize = n + detail::align_to_architecture(n);
 
 			if ((size_t(m_Block->Free - m_Block->Data) + totalSize) > Size)
-- 
2.43.0


From 853f642b209da656ad9c42537698171eaf178b66 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 02/35] fix: linear and stack allocator must not hand out empty
 blocks they do not own

---
 include/ktl/allocators/linear_allocator.h | 4 ++++
 include/ktl/allocators/stack_allocator.h  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index a6d2b56..e839dc1 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -78,6 +78,10 @@ namespace ktl
 			if (n > Size)
 				return nullptr;
 
+			// Without a single free byte, even an empty block would lie outside of the owned memory
+			if (m_Free == m_Data + Size)
+				return nullptr;
+
 			size_t totalSize = n + detail::align_to_architecture(n);
 
 			if ((size_t(m_Free - m_Data) + totalSize) > Size)
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index dac7826..b9274ef 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -66,6 +66,10 @@ namespace ktl
 			if (n > Size)
 				return nullptr;
 
+			// Without a single free byte, even an empty block would lie outside of the owned memory
+			if (m_Block->Free == m_Block->Data + Size)
+				return nullptr;
+
 			size_t totalSize = n + detail::align_to_architecture(n);
 
 			if ((size_t(m_Block->Free - m_Block->Data) + totalSize) > Size)
-- 
2.43.0


From a7a5dbd6494d2a395a27686b17ada3110c829dcb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 03/35] fix: type_allocator must return nullptr if the size in
 bytes is not representable

---
 include/ktl/allocators/type_allocator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index fc14566..c351f3d 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -5,6 +5,7 @@
 
 #include "type_allocator_fwd.h"
 
+#include <limits>
 #include <memory>
 #include <type_traits>
 
@@ -98,6 +99,10 @@ namespace ktl
 		value_type* allocate(size_t n)
 			noexcept(noexcept(m_Alloc.allocate(n)))
 		{
+			// The size in bytes must be representable
+			if (n > (std::numeric_limits<size_t>::max)() / sizeof(value_type))
+				return nullptr;
+
 			return reinterpret_cast<value_type*>(m_Alloc.allocate(sizeof(value_type) * n));
 		}
 
-- 
2.43.0


From a83a91a8346d9faa887ab52fa35d247cc5a45dfb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 04/35] fix: overflow must not count failed allocations nor
 wrap the guarded size

---
 include/ktl/allocators/overflow.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 96ab73d..8e35385 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -104,14 +104,19 @@ namespace ktl
 		void* allocate(size_type n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
-			m_Allocs += n;
-
 			size_type size = n + OVERFLOW_SIZE * 2;
+
+			// The size with guard areas must be representable
+			if (size < n)
+				return nullptr;
+
 			char* ptr = reinterpret_cast<char*>(m_Alloc.allocate(size));
 
 			if (!ptr)
 				return nullptr;
 
+			m_Allocs += n;
+
 			std::memset(ptr, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 			std::memset(ptr + OVERFLOW_SIZE + n, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 
-- 
2.43.0


From e3c1dba80c9b4ac62d90da68a9ddc97d45e71704 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 05/35] fix: cascading::max_size must not dereference a missing
 instance

---
 include/ktl/allocators/cascading.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index d32a927..057b351 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -234,8 +234,12 @@ namespace ktl
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_max_size_v<A>, size_type>::type
 		max_size() const
-			noexcept(detail::has_nothrow_max_size_v<A>)
+			noexcept(std::is_nothrow_default_constructible_v<A> && detail::has_nothrow_max_size_v<A>)
 		{
+			// There is no instance before the first allocation, or after having been moved from
+			if (!m_Node)
+				return Alloc().max_size();
+
 			return m_Node->Allocator.max_size();
 		}
 
-- 
2.43.0


From ede6f3b064ca0de42921814e5514b5fa4fe7a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 06/35] fix: cascading must not keep a new instance whose first
 allocation failed

---
 include/ktl/allocators/cascading.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 057b351..0f52a9c 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -116,6 +116,14 @@ namespace ktl
 				m_Node->Next = next;
 
 				p = m_Node->Allocator.allocate(n);
+
+				// If a fresh allocator can't do it either, don't keep it around
+				if (p == nullptr)
+				{
+					detail::aligned_delete(m_Node);
+
+					m_Node = next;
+				}
 			}
 
 			if (p)
-- 
2.43.0


From c7138dec826ed967910b4f9524b08dddfc38231e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 07/35] fix: cascading must return nullptr when there is no
 memory for an instance

---
 include/ktl/allocators/cascading.h   | 11 +++++++++++
 include/ktl/utility/aligned_malloc.h |  1 +
 2 files changed, 12 insertions(+)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 0f52a9c..4a336c0 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -99,6 +99,9 @@ namespace ktl
 			if (!m_Node)
 				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
 
+			if (!m_Node)
+				return nullptr;
+
 			if constexpr (detail::has_max_size_v<Alloc>)
 			{
 				if (n > m_Node->Allocator.max_size())
@@ -113,6 +116,14 @@ namespace ktl
 				node* next = m_Node;
 
 				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
+
+				if (!m_Node)
+				{
+					m_Node = next;
+
+					return nullptr;
+				}
+
 				m_Node->Next = next;
 
 				p = m_Node->Allocator.allocate(n);
diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 694f1df..a1362a5 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -91,6 +91,7 @@ namespace ktl::detail
         noexcept(noexcept(T(std::declval<Args>()...)))
     {
         T* p = static_cast<T*>(aligned_malloc(sizeof(T), alignment));
+        if (p == nullptr) return nullptr;
         ::new(p) T(std::forward<Args>(args)...);
         return p;
     }
-- 
2.43.0


From 4498c985a801e297341e3eac0fd2ce985d57f646 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 08/35] fix: global handles always compare equal, so they are
 never unequal

---
 include/ktl/allocators/global.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/global.h b/include/ktl/allocators/global.h
index 214c209..da374f5 100644
--- a/include/ktl/allocators/global.h
+++ b/include/ktl/allocators/global.h
@@ -46,7 +46,7 @@ namespace ktl
 
 		bool operator!=(const global& rhs) const
 		{
-			return true;
+			return false;
 		}
 
 #pragma region Allocation
-- 
2.43.0


From a00399d96361ea7f2f737250b42ccd258170c02c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 09/35] fix: shared must survive self-assignment of its last
 handle

---
 include/ktl/allocators/shared.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 6f28ae1..7a3c0ad 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -95,6 +95,9 @@ namespace ktl
 		shared& operator=(const shared& rhs)
 			noexcept(noexcept(decrement()))
 		{
+			if (this == &rhs)
+				return *this;
+
 			decrement();
 
 			m_Block = rhs.m_Block;
-- 
2.43.0


From 8cc77eb976eb2a9a1f1b58599099b292b27d0407 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 10/35] fix: comparing two moved-from shared handles must not
 dereference null

---
 include/ktl/allocators/shared.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 7a3c0ad..f28809f 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -122,13 +122,13 @@ namespace ktl
 		bool operator==(const shared& rhs) const
 			noexcept(detail::has_nothrow_equal_v<Alloc>)
 		{
-			return m_Block == rhs.m_Block && m_Block->Allocator == rhs.m_Block->Allocator;
+			return m_Block == rhs.m_Block && (!m_Block || m_Block->Allocator == rhs.m_Block->Allocator);
 		}
 
 		bool operator!=(const shared& rhs) const
 			noexcept(detail::has_nothrow_not_equal_v<Alloc>)
 		{
-			return m_Block != rhs.m_Block || m_Block->Allocator != rhs.m_Block->Allocator;
+			return m_Block != rhs.m_Block || (m_Block && m_Block->Allocator != rhs.m_Block->Allocator);
 		}
 
 #pragma region Allocation
-- 
2.43.0


From 23da99dd51b71b0e054cceb7d3bd3d1b33a7588a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 11/35] fix: threaded must lock while it queries or compares
 the wrapped allocator

---
 include/ktl/allocators/threaded.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/ktl/allocators/threaded.h b/include/ktl/allocators/threaded.h
index bc7aa10..abb07c5 100644
--- a/include/ktl/allocators/threaded.h
+++ b/include/ktl/allocators/threaded.h
@@ -45,15 +45,23 @@ namespace ktl
 		threaded& operator=(const threaded&) = delete;
 		threaded& operator=(threaded&&) = delete;
 
-		bool operator==(const threaded& rhs) const
-			noexcept(detail::has_nothrow_equal_v<Alloc>)
+		bool operator==(const threaded& rhs) const // Lock cannot be noexcept
 		{
+			if (this == &rhs)
+				return true;
+
+			std::scoped_lock lock(m_Lock, rhs.m_Lock);
+
 			return m_Alloc == rhs.m_Alloc;
 		}
 
-		bool operator!=(const threaded& rhs) const
-			noexcept(detail::has_nothrow_not_equal_v<Alloc>)
+		bool operator!=(const threaded& rhs) const // Lock cannot be noexcept
 		{
+			if (this == &rhs)
+				return false;
+
+			std::scoped_lock lock(m_Lock, rhs.m_Lock);
+
 			return m_Alloc != rhs.m_Alloc;
 		}
 
@@ -98,17 +106,19 @@ namespace ktl
 #pragma region Utility
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_max_size_v<A>, size_type>::type
-		max_size() const
-			noexcept(detail::has_nothrow_max_size_v<A>)
+		max_size() const // Lock cannot be noexcept
 		{
+			std::lock_guard<std::mutex> lock(m_Lock);
+
 			return m_Alloc.max_size();
 		}
 
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_owns_v<A>, bool>::type
-		owns(void* p) const
-			noexcept(detail::has_nothrow_owns_v<A>)
+		owns(void* p) const // Lock cannot be noexcept
 		{
+			std::lock_guard<std::mutex> lock(m_Lock);
+
 			return m_Alloc.owns(p);
 		}
 #pragma endregion
@@ -125,6 +135,6 @@ namespace ktl
 
 	private:
 		KTL_EMPTY_BASE Alloc m_Alloc;
-		std::mutex m_Lock;
+		mutable std::mutex m_Lock;
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 0c6242e73ed8e4b23aa8e9f1ae2dfa33d598f22d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 12/35] fix: trivial_vector::emplace must compile and work when
 it has to expand

---
 include/ktl/containers/trivial_vector.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 68d2986..45c76d6 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -377,12 +377,16 @@ namespace ktl
 		{
             KTL_ASSERT(iter >= m_Begin && iter <= m_End);
             
+			// The iterator is invalidated when expanding
+			const size_t index = iter - m_Begin;
+
 			if (m_End == m_EndMax)
 				expand(1);
             
-            std::memmove(const_cast<iterator>(iter + 1), iter, (m_End - iter) * sizeof(T));
+            iterator dst = m_Begin + index;
+            std::memmove(dst + 1, dst, (m_End - dst) * sizeof(T));
             
-			*iter = T(std::forward<Args>(args)...);
+			*dst = T(std::forward<Args>(args)...);
 			m_End++;
 		}
         
-- 
2.43.0


From f365f6c53d8f546bd1673dffedf5224d54a92b25 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 13/35] fix: trivial_vector::pop_back must compile

---
 include/ktl/containers/trivial_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 45c76d6..a194b07 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -428,7 +428,7 @@ namespace ktl
 		 * @brief Removes the last element from the vector and returns it.
 		 * @return The last element in the vector.
 		*/
-		T pop_back() noexcept { return m_Begin[--m_End]; }
+		T pop_back() noexcept { return *--m_End; }
 
 		/**
 		 * @brief Clears all elements in the vector.
-- 
2.43.0


From 80b43335eb73065ff1666cf863201dd6f4f19fbd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 14/35] fix: trivial_vector must accept its own elements as
 arguments of insertions

---
 include/ktl/containers/trivial_vector.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index a194b07..1e77e57 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -307,9 +307,12 @@ namespace ktl
 		*/
 		iterator push_back(const T& element) noexcept
 		{
+			// The element may be part of this vector
+			T value(element);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = element;
+			*m_End = value;
 
 			return m_End++;
 		}
@@ -321,9 +324,12 @@ namespace ktl
 		*/
 		iterator push_back(T&& element) noexcept
 		{
+			// The element may be part of this vector
+			T value(std::move(element));
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = std::move(element);
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
@@ -358,9 +364,12 @@ namespace ktl
 		template<typename... Args>
 		iterator emplace_back(Args&&... args) noexcept
 		{
+			// The arguments may be part of this vector
+			T value = T(std::forward<Args>(args)...);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = T(std::forward<Args>(args)...);
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
@@ -377,6 +386,9 @@ namespace ktl
 		{
             KTL_ASSERT(iter >= m_Begin && iter <= m_End);
             
+			// The arguments may be part of this vector
+			T value = T(std::forward<Args>(args)...);
+
 			// The iterator is invalidated when expanding
 			const size_t index = iter - m_Begin;
 
@@ -386,7 +398,7 @@ namespace ktl
             iterator dst = m_Begin + index;
             std::memmove(dst + 1, dst, (m_End - dst) * sizeof(T));
             
-			*dst = T(std::forward<Args>(args)...);
+			*dst = std::move(value);
 			m_End++;
 		}
         
-- 
2.43.0


From 6cb6e6f6dcfefd93b076a3f3f0d067f64068f68a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 15/35] fix: containers must survive copy assignment to
 themselves

---
 include/ktl/containers/binary_heap.h    | 3 +++
 include/ktl/containers/trivial_array.h  | 3 +++
 include/ktl/containers/trivial_vector.h | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index b243ddd..1996eb2 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -184,6 +184,9 @@ namespace ktl
 
         binary_heap& operator=(const binary_heap& other) noexcept(std::is_nothrow_copy_assignable_v<T>)
         {
+            if (this == &other)
+                return *this;
+
             if (m_Begin)
             {
                 for (size_t i = 0; i < m_Size; i++)
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 45140d3..03aba67 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -159,6 +159,9 @@ namespace ktl
 
 		trivial_array& operator=(const trivial_array& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, size());
 
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 1e77e57..6f19da2 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -171,6 +171,9 @@ namespace ktl
 
 		trivial_vector& operator=(const trivial_vector& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 
-- 
2.43.0


From 736f234ff5f056c1d9fe224705cd6d7fe7d0e65d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 16/35] fix: containers moved to another allocator must
 deallocate the number of elements they allocated

---
 include/ktl/containers/binary_heap.h    | 2 +-
 include/ktl/containers/trivial_array.h  | 2 +-
 include/ktl/containers/trivial_vector.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 1996eb2..17a1542 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -163,7 +163,7 @@ namespace ktl
                 Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
 
             if (other.m_Begin != nullptr)
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity);
 
             other.m_Capacity = 0;
             other.m_Size = 0;
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 03aba67..77923c8 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -144,7 +144,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size());
             }
             
 			other.m_Begin = nullptr;
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 6f19da2..36d6cd1 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -155,7 +155,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity());
             }
             
 			other.m_Begin = nullptr;
-- 
2.43.0


From 8259393b8dd6748de5fb96482bb309f817f12ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 17/35] fix: trivial_buffer must store aligned elements so that
 its iterators and accessors compile for any type

---
 include/ktl/containers/trivial_buffer.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/ktl/containers/trivial_buffer.h b/include/ktl/containers/trivial_buffer.h
index 33ea2b9..09d79f9 100644
--- a/include/ktl/containers/trivial_buffer.h
+++ b/include/ktl/containers/trivial_buffer.h
@@ -89,7 +89,7 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		const T& operator[](size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		const T& operator[](size_t index) const noexcept { return m_Data[index % Size]; }
 
 
 		iterator begin() noexcept { return m_Data; }
@@ -133,7 +133,15 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		T& at(size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		T& at(size_t index) noexcept { return m_Data[index % Size]; }
+
+		/**
+		 * @brief Returns a const reference to the element at @p index, rolling.
+		 * @note An index higher than size() will roll back to the start of the buffer.
+		 * @param index The index of the element in the buffer.
+		 * @return A reference to the element at @p index.
+		*/
+		const T& at(size_t index) const noexcept { return m_Data[index % Size]; }
 
 
 		/**
@@ -149,6 +157,6 @@ namespace ktl
 		}
 
 	private:
-		uint8_t m_Data[Size * sizeof(T)];
+		T m_Data[Size];
 	};
 }
\ No newline at end of file
-- 
2.43.0


From e5402f760841264f870354060c6f74d32f6bfade Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 18/35] fix: binary_heap::pop must not use the last element
 after destroying it

---
 include/ktl/containers/binary_heap.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 17a1542..c0fabd7 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -331,9 +331,14 @@ namespace ktl
 
             T root = m_Begin[0];
 
-            m_Begin[0] = std::move(m_Begin[--m_Size]);
+            // The last element takes the place of the root, unless it is the root
+            if (--m_Size > 0)
+                m_Begin[0] = std::move(m_Begin[m_Size]);
+
             Traits::destroy(m_Alloc, m_Begin + m_Size);
-            percolateDown(0);
+
+            if (m_Size > 0)
+                percolateDown(0);
 
             return root;
         }
-- 
2.43.0


From b4f4a5560e77b69b7922ad3b75c7eced7bc5b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 19/35] fix: binary_heap must not require copyable elements

---
 include/ktl/containers/binary_heap.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index c0fabd7..fad0564 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -160,7 +160,7 @@ namespace ktl
         {
             // Moving using a different allocator means we can't just move, we have to reallocate
             for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+                Traits::construct(m_Alloc, m_Begin + i, std::move(other.m_Begin[i]));
 
             if (other.m_Begin != nullptr)
                 Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity);
@@ -329,7 +329,7 @@ namespace ktl
         {
             KTL_ASSERT(m_Size > 0);
 
-            T root = m_Begin[0];
+            T root = std::move(m_Begin[0]);
 
             // The last element takes the place of the root, unless it is the root
             if (--m_Size > 0)
@@ -421,7 +421,7 @@ namespace ktl
 
         size_t percolateUp(size_t index)
         {
-            const T value = m_Begin[index];
+            T value = std::move(m_Begin[index]);
 
             while (index != 0 && m_Comp(value, m_Begin[parent(index)]))
             {
@@ -438,8 +438,6 @@ namespace ktl
         {
             size_t parent = index;
 
-            const T value = m_Begin[index];
-
             while (parent < m_Size)
             {
                 size_t l = left(parent);
@@ -456,14 +454,12 @@ namespace ktl
                 if (child == parent)
                     break;
 
-                const T temp(std::move(m_Begin[child]));
+                T temp(std::move(m_Begin[child]));
                 m_Begin[child] = std::move(m_Begin[parent]);
                 m_Begin[parent] = std::move(temp);
 
                 parent = child;
             }
-
-            m_Begin[parent] = std::move(value);
         }
 
     private:
-- 
2.43.0


From 73a07f3efb58dd670679be9b08bc3b7b943fb2fc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 20/35] fix: binary_heap moved to another allocator must
 destroy the moved-from elements

---
 include/ktl/containers/binary_heap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index fad0564..88bc450 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -162,6 +162,9 @@ namespace ktl
             for (size_t i = 0; i < m_Size; i++)
                 Traits::construct(m_Alloc, m_Begin + i, std::move(other.m_Begin[i]));
 
+            for (size_t i = 0; i < m_Size; i++)
+                Traits::destroy(other.m_Alloc, other.m_Begin + i);
+
             if (other.m_Begin != nullptr)
                 Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity);
 
-- 
2.43.0


From af51d4e0d2ab13a8d72f11e0d90a04609083cc85 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 21/35] fix: binary_heap must accept its own elements as
 arguments of insertions

---
 include/ktl/containers/binary_heap.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 88bc450..f278643 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -304,9 +304,16 @@ namespace ktl
         iterator insert(V&& value) noexcept
         {
             if (m_Size == m_Capacity)
+            {
+                // The value may be part of this heap
+                T element(std::forward<V>(value));
+
                 expand(1);
 
-            Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::move(element));
+            }
+            else
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
 
             size_t index = percolateUp(m_Size++);
 
-- 
2.43.0


From eeace0c0402ff8c1acaeb1541186faa62fd5027d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 22/35] fix: aligned_malloc must pass alignment and size to
 posix_memalign in order

---
 include/ktl/utility/aligned_malloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index a1362a5..710ccfb 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -53,7 +53,7 @@ namespace ktl::detail
         return _mm_malloc(size, alignment);
 #elif KTL_HAS_POSIX_MEMALIGN
         void* res;
-        const int failed = posix_memalign(&res, size, alignment);
+        const int failed = posix_memalign(&res, alignment, size);
         if (failed) res = nullptr;
         return res;
 #elif defined(_MSC_VER)
-- 
2.43.0


From 15071aa071d2a5785564c493dc625d7af79453f6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 23/35] fix: aligned_malloc must refuse sizes that wrap around
 with the alignment added

---
 include/ktl/utility/aligned_malloc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 710ccfb..f0e17a4 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -60,6 +60,7 @@ namespace ktl::detail
         return _aligned_malloc(size, alignment);
 #else
         void* res = nullptr;
+        if (size + alignment < size) return res;
         void* ptr = malloc(size + alignment);
         if (ptr != nullptr)
         {
-- 
2.43.0


From 52454f582ee1437d0033b577c4a01a7817190bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 24/35] fix: headers must include the standard headers they use

---
 include/ktl/utility/aligned_malloc.h | 1 +
 include/ktl/utility/meta.h           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index f0e17a4..a6493d7 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cstddef>
+#include <cstdlib>
 #include <memory>
 
 // KTL_MALLOC_ALREADY_ALIGNED
diff --git a/include/ktl/utility/meta.h b/include/ktl/utility/meta.h
index 3374fe8..1c7ffe6 100644
--- a/include/ktl/utility/meta.h
+++ b/include/ktl/utility/meta.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstddef>
 #include <type_traits>
 
 namespace ktl::detail
-- 
2.43.0


From 3c6fdda751c50ce19d52faf831004ac359429812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:57 +0000
Subject: [PATCH 25/35] fix: binary_heap keeps its comparator when it is moved
 from

Moving assignment and the move constructor with an allocator moved the comparator out of the source, so that an emptied heap with e.g. a std::function could not be used again. The move constructor already copies it.
---
 include/ktl/containers/binary_heap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index f278643..9ee3a72 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -153,7 +153,7 @@ namespace ktl
 
         binary_heap(binary_heap&& other, const Alloc& allocator) noexcept(std::is_nothrow_move_constructible_v<T>) :
             m_Alloc(allocator),
-            m_Comp(std::move(other.m_Comp)),
+            m_Comp(other.m_Comp),
             m_Size(other.m_Size),
             m_Capacity(other.m_Size),
             m_Begin(Traits::allocate(m_Alloc, other.m_Size))
@@ -223,7 +223,7 @@ namespace ktl
             }
 
             m_Alloc = std::move(other.m_Alloc);
-            m_Comp = std::move(other.m_Comp);
+            m_Comp = other.m_Comp;
             m_Size = other.m_Size;
             m_Capacity = other.m_Capacity;
             m_Begin = other.m_Begin;
-- 
2.43.0


From b81be957465060da74f76051c17be8e9d8a009e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:04 +0000
Subject: [PATCH 26/35] fix: release the memory of an allocator whose
 constructor throws

---
 include/ktl/utility/aligned_malloc.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index a6493d7..fa2629d 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -92,9 +92,17 @@ namespace ktl::detail
     T* aligned_new(size_t alignment, Args&&... args)
         noexcept(noexcept(T(std::declval<Args>()...)))
     {
-        T* p = static_cast<T*>(aligned_malloc(sizeof(T), alignment));
-        if (p == nullptr) return nullptr;
-        ::new(p) T(std::forward<Args>(args)...);
+        // The memory must be released again if the constructor throws
+        struct holder
+        {
+            void* Memory;
+            ~holder() { if (Memory) aligned_free(Memory); }
+        };
+
+        holder held{ aligned_malloc(sizeof(T), alignment) };
+        if (held.Memory == nullptr) return nullptr;
+        T* p = ::new(held.Memory) T(std::forward<Args>(args)...);
+        held.Memory = nullptr;
         return p;
     }
 
-- 
2.43.0


From 56af4b0f12bf3c477a11d292ef5330cfaffd03ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:23 +0000
Subject: [PATCH 27/35] fix: overflow does not count objects whose constructor
 throws

---
 include/ktl/allocators/overflow.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 8e35385..3b353d0 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -185,12 +185,13 @@ namespace ktl
 			(detail::has_construct_v<Alloc, T*, Args...> && detail::has_nothrow_construct_v<Alloc, T*, Args...>) ||
 			std::is_nothrow_constructible_v<T, Args...>)
 		{
-			m_Constructs++;
-
 			if constexpr (detail::has_construct_v<Alloc, T*, Args...>)
 				m_Alloc.construct(p, std::forward<Args>(args)...);
 			else
 				::new(p) T(std::forward<Args>(args)...);
+
+			// An object whose constructor throws does not count
+			m_Constructs++;
 		}
 
 		/**
-- 
2.43.0


From 7e25e0b1fec3132ec5039d39d98d68917a3ed68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:35 +0000
Subject: [PATCH 28/35] fix: overflow passes on exceptions of customised
 construction

---
 include/ktl/allocators/overflow.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 3b353d0..4c73b38 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -182,7 +182,8 @@ namespace ktl
 		*/
 		template<typename T, typename... Args>
 		void construct(T* p, Args&&... args) noexcept(
-			(detail::has_construct_v<Alloc, T*, Args...> && detail::has_nothrow_construct_v<Alloc, T*, Args...>) ||
+			detail::has_construct_v<Alloc, T*, Args...> ?
+			detail::has_nothrow_construct_v<Alloc, T*, Args...> :
 			std::is_nothrow_constructible_v<T, Args...>)
 		{
 			if constexpr (detail::has_construct_v<Alloc, T*, Args...>)
@@ -201,7 +202,8 @@ namespace ktl
 		*/
 		template<typename T>
 		void destroy(T* p) noexcept(
-			(detail::has_destroy_v<Alloc, T*>&& detail::has_nothrow_destroy_v<Alloc, T*>) ||
+			detail::has_destroy_v<Alloc, T*> ?
+			detail::has_nothrow_destroy_v<Alloc, T*> :
 			std::is_nothrow_destructible_v<T>)
 		{
 			m_Constructs--;
-- 
2.43.0


From 721a153043aca43315cc24875ccd00d6641169e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:35 +0000
Subject: [PATCH 29/35] fix: cascading keeps no fresh instance whose allocation
 throws

---
 include/ktl/allocators/cascading.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 4a336c0..c4364b1 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -113,28 +113,28 @@ namespace ktl
 			// If the allocator was unable to allocate it, create a new one
 			if (p == nullptr)
 			{
-				node* next = m_Node;
-
-				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
-
-				if (!m_Node)
+				// If a fresh allocator can't do it either, or throws, don't keep it around
+				struct holder
 				{
-					m_Node = next;
+					node* Node;
+					~holder() { if (Node) detail::aligned_delete(Node); }
+				};
 
-					return nullptr;
-				}
+				holder next{ detail::aligned_new<node>(detail::ALIGNMENT) };
 
-				m_Node->Next = next;
+				if (!next.Node)
+					return nullptr;
 
-				p = m_Node->Allocator.allocate(n);
+				p = next.Node->Allocator.allocate(n);
 
-				// If a fresh allocator can't do it either, don't keep it around
 				if (p == nullptr)
-				{
-					detail::aligned_delete(m_Node);
+					return nullptr;
 
-					m_Node = next;
-				}
+				next.Node->Next = m_Node;
+
+				m_Node = next.Node;
+
+				next.Node = nullptr;
 			}
 
 			if (p)
-- 
2.43.0


From 86ad188ec4f0387ff5c969c8f08f6b0b3cd439b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:58 +0000
Subject: [PATCH 30/35] fix: binary_heap releases what it holds when copying an
 element throws

---
 include/ktl/containers/binary_heap.h | 61 ++++++++++++++++------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 9ee3a72..014a427 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -118,14 +118,9 @@ namespace ktl
         }
 
         binary_heap(const binary_heap& other) noexcept(std::is_nothrow_copy_constructible_v<T>) :
-            m_Alloc(Traits::select_on_container_copy_construction(other.m_Alloc)),
-            m_Comp(other.m_Comp),
-            m_Size(other.m_Size),
-            m_Capacity(other.m_Size),
-            m_Begin(Traits::allocate(m_Alloc, other.m_Size))
+            binary_heap(Traits::select_on_container_copy_construction(other.m_Alloc), other.m_Comp, nullptr)
         {
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            copy(other);
         }
 
         binary_heap(binary_heap&& other) noexcept(std::is_nothrow_move_constructible_v<T>) :
@@ -141,26 +136,20 @@ namespace ktl
         }
 
         binary_heap(const binary_heap& other, const Alloc& allocator) noexcept(std::is_nothrow_copy_constructible_v<T>) :
-            m_Alloc(allocator),
-            m_Comp(other.m_Comp),
-            m_Size(other.m_Size),
-            m_Capacity(other.m_Size),
-            m_Begin(Traits::allocate(m_Alloc, other.m_Size))
+            binary_heap(allocator, other.m_Comp, nullptr)
         {
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            copy(other);
         }
 
         binary_heap(binary_heap&& other, const Alloc& allocator) noexcept(std::is_nothrow_move_constructible_v<T>) :
-            m_Alloc(allocator),
-            m_Comp(other.m_Comp),
-            m_Size(other.m_Size),
-            m_Capacity(other.m_Size),
-            m_Begin(Traits::allocate(m_Alloc, other.m_Size))
+            binary_heap(allocator, other.m_Comp, nullptr)
         {
+            m_Begin = Traits::allocate(m_Alloc, other.m_Size);
+            m_Capacity = other.m_Size;
+
             // Moving using a different allocator means we can't just move, we have to reallocate
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, std::move(other.m_Begin[i]));
+            for (; m_Size < other.m_Size; m_Size++)
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::move(other.m_Begin[m_Size]));
 
             for (size_t i = 0; i < m_Size; i++)
                 Traits::destroy(other.m_Alloc, other.m_Begin + i);
@@ -198,15 +187,15 @@ namespace ktl
                 Traits::deallocate(m_Alloc, m_Begin, m_Capacity);
             }
 
+            // Nothing is held while something may throw
+            m_Size = 0;
+            m_Capacity = 0;
+            m_Begin = nullptr;
+
             m_Alloc = other.m_Alloc;
             m_Comp = other.m_Comp;
-            m_Size = other.m_Size;
-            m_Capacity = other.m_Size;
-            m_Begin = Traits::allocate(m_Alloc, m_Capacity);
 
-            // Copy construct elements
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            copy(other);
 
             return *this;
         }
@@ -381,6 +370,24 @@ namespace ktl
         }
 
     private:
+        // An empty heap, which releases everything it was given if a delegating constructor throws
+        binary_heap(const Alloc& allocator, const Comp& comp, std::nullptr_t) :
+            m_Alloc(allocator),
+            m_Comp(comp),
+            m_Size(0),
+            m_Capacity(0),
+            m_Begin(nullptr) {}
+
+        void copy(const binary_heap& other)
+        {
+            m_Begin = Traits::allocate(m_Alloc, other.m_Size);
+            m_Capacity = other.m_Size;
+
+            // Copy construct elements
+            for (; m_Size < other.m_Size; m_Size++)
+                Traits::construct(m_Alloc, m_Begin + m_Size, other.m_Begin[m_Size]);
+        }
+
         void expand(size_t n) noexcept
         {
             size_t curCap = capacity();
-- 
2.43.0


From b40d7b2cee845b8b1af24dab9ac2f263369db338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:16 +0000
Subject: [PATCH 31/35] fix: type_allocator forwards exceptions of the
 allocator's constructor

---
 include/ktl/allocators/type_allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index c351f3d..e345ede 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -54,7 +54,7 @@ namespace ktl
 			typename = std::enable_if_t<
 			std::is_constructible_v<Alloc, Args...>>>
 		explicit type_allocator(Args&&... alloc)
-			noexcept(std::is_nothrow_constructible_v<T, Args...>) :
+			noexcept(std::is_nothrow_constructible_v<Alloc, Args...>) :
 			m_Alloc(std::forward<Args>(alloc)...) {}
 
 		type_allocator(const type_allocator&) = default;
-- 
2.43.0


From 62f8145b400a39faee80496c0ea2eec457c0fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:16 +0000
Subject: [PATCH 32/35] fix: inequality is only noexcept if the inequality of
 the parts is

---
 include/ktl/utility/meta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/utility/meta.h b/include/ktl/utility/meta.h
index 1c7ffe6..3ffa1d1 100644
--- a/include/ktl/utility/meta.h
+++ b/include/ktl/utility/meta.h
@@ -85,9 +85,9 @@ namespace ktl::detail
 	template<typename T>
 	constexpr bool has_nothrow_equal_v = noexcept(std::declval<T&>() == std::declval<T&>());
 
-	// has T& == T& noexcept
+	// has T& != T& noexcept
 	template<typename T>
-	constexpr bool has_nothrow_not_equal_v = noexcept(std::declval<T&>() == std::declval<T&>());
+	constexpr bool has_nothrow_not_equal_v = noexcept(std::declval<T&>() != std::declval<T&>());
 
 	// has construct(T*, Args&&...) noexcept
 	template<typename Void, typename... Types>
-- 
2.43.0


From d094976fb0aeac444d0884717aab48d5210efb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:42 +0000
Subject: [PATCH 33/35] fix: cascading keeps no idle instance behind the one
 that replaces it

---
 include/ktl/allocators/cascading.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index c4364b1..94341de 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -135,6 +135,15 @@ namespace ktl
 				m_Node = next.Node;
 
 				next.Node = nullptr;
+
+				// If the previous allocator holds no allocations then delete it
+				// Otherwise it would never be deleted, since it's no longer the main one
+				if (node* prev = m_Node->Next; prev->Allocations == 0)
+				{
+					m_Node->Next = prev->Next;
+
+					detail::aligned_delete(prev);
+				}
 			}
 
 			if (p)
-- 
2.43.0


From 5f4e987d47237f2e4d1b9dace305a45e08e6ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:42 +0000
Subject: [PATCH 34/35] fix: freelist asserts that its free blocks moved along,
 not that allocators are equal

---
 include/ktl/allocators/freelist.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/freelist.h b/include/ktl/allocators/freelist.h
index c7479c9..6b60516 100644
--- a/include/ktl/allocators/freelist.h
+++ b/include/ktl/allocators/freelist.h
@@ -62,7 +62,10 @@ namespace ktl
 			m_Free(other.m_Free)
 		{
 			// Moving raw allocators in use is undefined
-			KTL_ASSERT(m_Alloc == other.m_Alloc || other.m_Free == nullptr);
+			if constexpr (detail::has_owns_v<Alloc>)
+			{
+				KTL_ASSERT(m_Free == nullptr || m_Alloc.owns(m_Free));
+			}
 
 			other.m_Free = nullptr;
 		}
@@ -83,7 +86,10 @@ namespace ktl
 			m_Free = rhs.m_Free;
 
 			// Moving raw allocators in use is undefined
-			KTL_ASSERT(m_Alloc == rhs.m_Alloc || rhs.m_Free == nullptr);
+			if constexpr (detail::has_owns_v<Alloc>)
+			{
+				KTL_ASSERT(m_Free == nullptr || m_Alloc.owns(m_Free));
+			}
 
 			rhs.m_Free = nullptr;
 
-- 
2.43.0


From 20dd96bc66cc290a006e7a7668eb01fdd3a2a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:09 +0000
Subject: [PATCH 35/35] fix: segragator offers construct and destroy only if it
 can tell whose location it is

---
 include/ktl/allocators/segragator.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/segragator.h b/include/ktl/allocators/segragator.h
index 82c124c..d5bbe6d 100644
--- a/include/ktl/allocators/segragator.h
+++ b/include/ktl/allocators/segragator.h
@@ -26,6 +26,11 @@ namespace ktl
 	public:
 		typedef typename detail::get_size_type_t<P> size_type;
 
+	private:
+		// Without any owner, there is no telling which allocator a location came from
+		static constexpr bool HAS_OWNER = detail::has_owns_v<P> || detail::has_owns_v<F>;
+
+	public:
 		segragator() = default;
 
 		/**
@@ -115,13 +120,13 @@ namespace ktl
 
 #pragma region Construction
 		template<typename T, typename... Args>
-		typename std::enable_if<detail::has_construct_v<P, T*, Args...> || detail::has_construct_v<F, T*, Args...>, void>::type
+		typename std::enable_if<HAS_OWNER && (detail::has_construct_v<P, T*, Args...> || detail::has_construct_v<F, T*, Args...>), void>::type
 		construct(T* p, Args&&... args) noexcept(
 			(!detail::has_construct_v<P, T*, Args...> || detail::has_nothrow_construct_v<P, T*, Args...>) &&
 			(!detail::has_construct_v<F, T*, Args...> || detail::has_nothrow_construct_v<F, T*, Args...>) &&
 			std::is_nothrow_constructible_v<T, Args...>)
 		{
-			bool owned = m_Primary.owns(p);
+			bool owned = is_primary(p);
 
 			if constexpr (detail::has_construct_v<P, T*, Args...>)
 			{
@@ -145,13 +150,13 @@ namespace ktl
 		}
 
 		template<typename T>
-		typename std::enable_if<detail::has_destroy_v<P, T*> || detail::has_destroy_v<F, T*>, void>::type
+		typename std::enable_if<HAS_OWNER && (detail::has_destroy_v<P, T*> || detail::has_destroy_v<F, T*>), void>::type
 		destroy(T* p) noexcept(
 			(!detail::has_destroy_v<P, T*> || detail::has_nothrow_destroy_v<P, T*>) &&
 			(!detail::has_destroy_v<F, T*> || detail::has_nothrow_destroy_v<F, T*>) &&
 			std::is_nothrow_destructible_v<T>)
 		{
-			bool owned = m_Primary.owns(p);
+			bool owned = is_primary(p);
 
 			if constexpr (detail::has_destroy_v<P, T*>)
 			{
@@ -197,6 +202,15 @@ namespace ktl
 #pragma endregion
 
 	private:
+		// Whether the location came from the primary allocator. One of the allocators has to know
+		bool is_primary(void* p) const
+		{
+			if constexpr (detail::has_owns_v<P>)
+				return m_Primary.owns(p);
+			else
+				return !m_Fallback.owns(p);
+		}
+
 		KTL_EMPTY_BASE P m_Primary;
 		KTL_EMPTY_BASE F m_Fallback;
 	};
-- 
2.43.0

