From 0bed2f236d82a9540450a1fad3046a7695a766bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:19 +0000
Subject: [PATCH 01/16] fix: linear and stack allocators served requests near
 SIZE_MAX and empty blocks outside the buffer

---
 include/ktl/allocators/linear_allocator.h | 5 ++++-
 include/ktl/allocators/stack_allocator.h  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 7d3508f..b9e49cc 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -76,7 +76,10 @@ namespace ktl
 		{
 			size_t totalSize = n + detail::align_to_architecture(n);
 
-			if ((size_t(m_Free - m_Data) + totalSize) > Size)
+			size_t used = size_t(m_Free - m_Data);
+
+			// The rounded size may have wrapped around, and even an empty block needs to be inside the buffer
+			if (totalSize < n || used >= Size || totalSize > Size - used)
 				return nullptr;
 
 			char* current = m_Free;
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index 324b489..de6760d 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -64,7 +64,10 @@ namespace ktl
 		{
 			size_t totalSize = n + detail::align_to_architecture(n);
 
-			if ((size_t(m_Block->Free - m_Block->Data) + totalSize) > Size)
+			size_t used = size_t(m_Block->Free - m_Block->Data);
+
+			// The rounded size may have wrapped around, and even an empty block needs to be inside the buffer
+			if (totalSize < n || used >= Size || totalSize > Size - used)
 				return nullptr;
 
 			char* current = m_Block->Free;
-- 
2.43.0


From 526042d7ade63ebc97d05e88a84c03b439b7e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:19 +0000
Subject: [PATCH 02/16] fix: linear_allocator kept its old object count when
 moved into

---
 include/ktl/allocators/linear_allocator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index b9e49cc..0b652cc 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -49,6 +49,7 @@ namespace ktl
 		linear_allocator& operator=(linear_allocator&& rhs) noexcept
 		{
 			m_Free = m_Data;
+			m_ObjectCount = 0;
 
 			// Moving raw allocators in use is undefined
 			KTL_ASSERT(rhs.m_ObjectCount == 0);
-- 
2.43.0


From 8c1294c45f4aab27d91966d12f946f812ead0ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:19 +0000
Subject: [PATCH 03/16] fix: type_allocator::allocate returned too small blocks
 when the byte count overflowed

---
 include/ktl/allocators/type_allocator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index fc14566..0f4670a 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -98,6 +98,10 @@ namespace ktl
 		value_type* allocate(size_t n)
 			noexcept(noexcept(m_Alloc.allocate(n)))
 		{
+			// The size in bytes must be representable
+			if (n > static_cast<size_t>(-1) / sizeof(value_type))
+				return nullptr;
+
 			return reinterpret_cast<value_type*>(m_Alloc.allocate(sizeof(value_type) * n));
 		}
 
-- 
2.43.0


From 255a92a0f33fed336e328078ecf5793304afb15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:19 +0000
Subject: [PATCH 04/16] fix: overflow allocator counted failed allocations as
 leaks and wrapped around for huge sizes

---
 include/ktl/allocators/overflow.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 96ab73d..b9d7ebc 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -104,14 +104,19 @@ namespace ktl
 		void* allocate(size_type n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
-			m_Allocs += n;
-
 			size_type size = n + OVERFLOW_SIZE * 2;
+
+			// The size with both guards must be representable
+			if (size < n)
+				return nullptr;
+
 			char* ptr = reinterpret_cast<char*>(m_Alloc.allocate(size));
 
 			if (!ptr)
 				return nullptr;
 
+			m_Allocs += n;
+
 			std::memset(ptr, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 			std::memset(ptr + OVERFLOW_SIZE + n, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 
@@ -128,10 +133,10 @@ namespace ktl
 		{
 			KTL_ASSERT(p != nullptr);
 
-			m_Allocs -= n;
-
 			if (p)
 			{
+				m_Allocs -= n;
+
 				unsigned char* ptr = reinterpret_cast<unsigned char*>(p);
 
 				size_t before = 0;
-- 
2.43.0


From 897250fd9e01286214b3a69b6a6554d464eb2583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 05/16] fix: aligned_malloc swapped the posix_memalign
 arguments and wrapped around in the generic version

---
 include/ktl/utility/aligned_malloc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 694f1df..fd44368 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -53,13 +53,15 @@ namespace ktl::detail
         return _mm_malloc(size, alignment);
 #elif KTL_HAS_POSIX_MEMALIGN
         void* res;
-        const int failed = posix_memalign(&res, size, alignment);
+        const int failed = posix_memalign(&res, alignment, size);
         if (failed) res = nullptr;
         return res;
 #elif defined(_MSC_VER)
         return _aligned_malloc(size, alignment);
 #else
         void* res = nullptr;
+        if (size > static_cast<size_t>(-1) - alignment)
+            return res;
         void* ptr = malloc(size + alignment);
         if (ptr != nullptr)
         {
-- 
2.43.0


From ea62fde7f3328a6ac1177d8e2c05ac0a720b3f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 06/16] fix: cascading dereferenced null without an instance or
 without memory, and kept instances that served nothing

---
 include/ktl/allocators/cascading.h   | 28 ++++++++++++++++++++++------
 include/ktl/utility/aligned_malloc.h |  3 ++-
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index d32a927..f6f8f7a 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -99,6 +99,9 @@ namespace ktl
 			if (!m_Node)
 				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
 
+			if (!m_Node)
+				return nullptr;
+
 			if constexpr (detail::has_max_size_v<Alloc>)
 			{
 				if (n > m_Node->Allocator.max_size())
@@ -110,16 +113,25 @@ namespace ktl
 			// If the allocator was unable to allocate it, create a new one
 			if (p == nullptr)
 			{
-				node* next = m_Node;
+				node* next = detail::aligned_new<node>(detail::ALIGNMENT);
 
-				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
-				m_Node->Next = next;
+				if (!next)
+					return nullptr;
+
+				p = next->Allocator.allocate(n);
 
-				p = m_Node->Allocator.allocate(n);
+				// Only keep the new instance if it was able to allocate
+				if (p == nullptr)
+				{
+					detail::aligned_delete(next);
+					return nullptr;
+				}
+
+				next->Next = m_Node;
+				m_Node = next;
 			}
 
-			if (p)
-				m_Node->Allocations++;
+			m_Node->Allocations++;
 
 			return p;
 		}
@@ -236,6 +248,10 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<A>)
 		{
+			// There is no instance to ask before the first allocation
+			if (!m_Node)
+				return Alloc().max_size();
+
 			return m_Node->Allocator.max_size();
 		}
 
diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index fd44368..6c109a7 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -93,7 +93,8 @@ namespace ktl::detail
         noexcept(noexcept(T(std::declval<Args>()...)))
     {
         T* p = static_cast<T*>(aligned_malloc(sizeof(T), alignment));
-        ::new(p) T(std::forward<Args>(args)...);
+        if (p)
+            ::new(p) T(std::forward<Args>(args)...);
         return p;
     }
 
-- 
2.43.0


From c81e84a208367c78c2f2d9579e6c96663f97cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 07/16] fix: assigning a shared allocator to itself destroyed
 the allocator it refers to

---
 include/ktl/allocators/shared.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 6f28ae1..94f3585 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -95,11 +95,14 @@ namespace ktl
 		shared& operator=(const shared& rhs)
 			noexcept(noexcept(decrement()))
 		{
-			decrement();
+			if (m_Block != rhs.m_Block)
+			{
+				decrement();
 
-			m_Block = rhs.m_Block;
+				m_Block = rhs.m_Block;
 
-			increment();
+				increment();
+			}
 
 			return *this;
 		}
@@ -107,11 +110,14 @@ namespace ktl
 		shared& operator=(shared&& rhs)
 			noexcept(noexcept(decrement()))
 		{
-			decrement();
+			if (this != &rhs)
+			{
+				decrement();
 
-			m_Block = rhs.m_Block;
+				m_Block = rhs.m_Block;
 
-			rhs.m_Block = nullptr;
+				rhs.m_Block = nullptr;
+			}
 
 			return *this;
 		}
-- 
2.43.0


From f38e9e966ef18f3822cba52e4018ed6c9075bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 08/16] fix: shared dereferenced null when comparing moved-from
 handles or when its creation ran out of memory

---
 include/ktl/allocators/shared.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 94f3585..fad9ba9 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -125,19 +125,23 @@ namespace ktl
 		bool operator==(const shared& rhs) const
 			noexcept(detail::has_nothrow_equal_v<Alloc>)
 		{
-			return m_Block == rhs.m_Block && m_Block->Allocator == rhs.m_Block->Allocator;
+			return m_Block == rhs.m_Block && (!m_Block || m_Block->Allocator == rhs.m_Block->Allocator);
 		}
 
 		bool operator!=(const shared& rhs) const
 			noexcept(detail::has_nothrow_not_equal_v<Alloc>)
 		{
-			return m_Block != rhs.m_Block || m_Block->Allocator != rhs.m_Block->Allocator;
+			return m_Block != rhs.m_Block || (m_Block && m_Block->Allocator != rhs.m_Block->Allocator);
 		}
 
 #pragma region Allocation
 		void* allocate(size_t n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
+			// There is no allocator if its creation ran out of memory
+			if (!m_Block)
+				return nullptr;
+
 			return m_Block->Allocator.allocate(n);
 		}
 
-- 
2.43.0


From a9e2c7e18c8f9cc438a603ce16007b46eb75d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 09/16] fix: global allocators compared both equal and unequal

---
 include/ktl/allocators/global.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/global.h b/include/ktl/allocators/global.h
index 214c209..da374f5 100644
--- a/include/ktl/allocators/global.h
+++ b/include/ktl/allocators/global.h
@@ -46,7 +46,7 @@ namespace ktl
 
 		bool operator!=(const global& rhs) const
 		{
-			return true;
+			return false;
 		}
 
 #pragma region Allocation
-- 
2.43.0


From a1f147491461f3ad0f88858c992ea5dc2386d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 10/16] fix: moving a container to another allocator returned
 the old block with the wrong size and leaked heap elements

---
 include/ktl/containers/binary_heap.h    | 7 +++++--
 include/ktl/containers/trivial_array.h  | 2 +-
 include/ktl/containers/trivial_vector.h | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index b243ddd..bff81b9 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -160,10 +160,13 @@ namespace ktl
         {
             // Moving using a different allocator means we can't just move, we have to reallocate
             for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            {
+                Traits::construct(m_Alloc, m_Begin + i, std::move(other.m_Begin[i]));
+                Traits::destroy(other.m_Alloc, other.m_Begin + i);
+            }
 
             if (other.m_Begin != nullptr)
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity);
 
             other.m_Capacity = 0;
             other.m_Size = 0;
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 45140d3..4b43488 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -144,7 +144,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size());
             }
             
 			other.m_Begin = nullptr;
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 68d2986..29177e3 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -155,7 +155,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity());
             }
             
 			other.m_Begin = nullptr;
-- 
2.43.0


From ac761fb57bee39ae565431d8b677c16b27c6112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 11/16] fix: assigning a container to itself destroyed its
 contents

---
 include/ktl/containers/binary_heap.h    | 6 ++++++
 include/ktl/containers/trivial_array.h  | 6 ++++++
 include/ktl/containers/trivial_vector.h | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index bff81b9..87a62e7 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -187,6 +187,9 @@ namespace ktl
 
         binary_heap& operator=(const binary_heap& other) noexcept(std::is_nothrow_copy_assignable_v<T>)
         {
+            if (this == &other)
+                return *this;
+
             if (m_Begin)
             {
                 for (size_t i = 0; i < m_Size; i++)
@@ -210,6 +213,9 @@ namespace ktl
 
         binary_heap& operator=(binary_heap&& other) noexcept(std::is_nothrow_move_assignable_v<T>)
         {
+            if (this == &other)
+                return *this;
+
             // Deconstruct elements
             if (m_Begin)
             {
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 4b43488..e369074 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -159,6 +159,9 @@ namespace ktl
 
 		trivial_array& operator=(const trivial_array& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, size());
 
@@ -177,6 +180,9 @@ namespace ktl
 
 		trivial_array& operator=(trivial_array&& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, size());
 
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 29177e3..297ccd7 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -171,6 +171,9 @@ namespace ktl
 
 		trivial_vector& operator=(const trivial_vector& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 
@@ -190,6 +193,9 @@ namespace ktl
 
 		trivial_vector& operator=(trivial_vector&& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 
-- 
2.43.0


From 5286cfd0649d6d0008784614805cea670b33fcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 12/16] fix: trivial_vector::emplace and pop_back did not
 compile, and emplace used its iterator after reallocating

---
 include/ktl/containers/trivial_vector.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 297ccd7..bc52d2b 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -383,12 +383,17 @@ namespace ktl
 		{
             KTL_ASSERT(iter >= m_Begin && iter <= m_End);
             
+			const size_t index = iter - m_Begin;
+			T value(std::forward<Args>(args)...);
+
 			if (m_End == m_EndMax)
 				expand(1);
-            
-            std::memmove(const_cast<iterator>(iter + 1), iter, (m_End - iter) * sizeof(T));
-            
-			*iter = T(std::forward<Args>(args)...);
+
+			T* element = m_Begin + index;
+
+            std::memmove(element + 1, element, (m_End - element) * sizeof(T));
+
+			*element = value;
 			m_End++;
 		}
         
@@ -430,7 +435,7 @@ namespace ktl
 		 * @brief Removes the last element from the vector and returns it.
 		 * @return The last element in the vector.
 		*/
-		T pop_back() noexcept { return m_Begin[--m_End]; }
+		T pop_back() noexcept { return *--m_End; }
 
 		/**
 		 * @brief Clears all elements in the vector.
-- 
2.43.0


From 48bf043d7f017e8b55e7daf121ed957d2c767da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 13/16] fix: containers read freed memory when given one of
 their own elements while reallocating

---
 include/ktl/containers/binary_heap.h    |  9 ++++++++-
 include/ktl/containers/trivial_array.h  |  7 +++++--
 include/ktl/containers/trivial_vector.h | 22 +++++++++++++++++++---
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 87a62e7..ce170c5 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -307,9 +307,16 @@ namespace ktl
         iterator insert(V&& value) noexcept
         {
             if (m_Size == m_Capacity)
+            {
+                // The value may be one of our own elements, which move when expanding
+                T element(std::forward<V>(value));
+
                 expand(1);
 
-            Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::move(element));
+            }
+            else
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
 
             size_t index = percolateUp(m_Size++);
 
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index e369074..48cf42a 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -298,14 +298,17 @@ namespace ktl
 			{
 				T* alBlock = Traits::allocate(m_Alloc, n);
 
+				// The elements may be our own, so copy them before deallocating
+				std::memcpy(alBlock, first, n * sizeof(T));
+
 				if (m_Begin != nullptr)
 					Traits::deallocate(m_Alloc, m_Begin, size());
 
 				m_Begin = alBlock;
 				m_End = m_Begin + n;
 			}
-
-			std::memcpy(m_Begin, first, n * sizeof(T));
+			else
+				std::memcpy(m_Begin, first, n * sizeof(T));
 		}
 
 	private:
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index bc52d2b..3f620f3 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -313,9 +313,12 @@ namespace ktl
 		*/
 		iterator push_back(const T& element) noexcept
 		{
+			// The element may be one of our own, which move when expanding
+			const T value = element;
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = element;
+			*m_End = value;
 
 			return m_End++;
 		}
@@ -327,9 +330,11 @@ namespace ktl
 		*/
 		iterator push_back(T&& element) noexcept
 		{
+			T value = std::move(element);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = std::move(element);
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
@@ -345,8 +350,17 @@ namespace ktl
 			const size_t n = (last - first);
 
 			if (size_t(m_EndMax - m_End) < n)
+			{
+				// The elements may be our own, which move when expanding
+				const bool own = first >= m_Begin && first < m_End;
+				const size_t index = own ? first - m_Begin : 0;
+
 				expand(n);
 
+				if (own)
+					first = m_Begin + index;
+			}
+
 			T* lastElement = m_End;
 			m_End += n;
 
@@ -364,9 +378,11 @@ namespace ktl
 		template<typename... Args>
 		iterator emplace_back(Args&&... args) noexcept
 		{
+			T value(std::forward<Args>(args)...);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = T(std::forward<Args>(args)...);
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
-- 
2.43.0


From f39b2faea1b42fb03c313f76b7fc0134ca2dcf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 14/16] fix: popping the last element of a binary_heap copied
 and assigned to the destroyed element

---
 include/ktl/containers/binary_heap.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index ce170c5..136115b 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -344,9 +344,13 @@ namespace ktl
 
             T root = m_Begin[0];
 
-            m_Begin[0] = std::move(m_Begin[--m_Size]);
+            if (--m_Size > 0)
+                m_Begin[0] = std::move(m_Begin[m_Size]);
+
             Traits::destroy(m_Alloc, m_Begin + m_Size);
-            percolateDown(0);
+
+            if (m_Size > 0)
+                percolateDown(0);
 
             return root;
         }
-- 
2.43.0


From bd0b90cd120d10c427987bbd1a7debac0c82f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 15/16] fix: trivial_buffer did not compile for most accessors
 and did not align its elements

---
 include/ktl/containers/trivial_buffer.h | 28 +++++++++++++------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/include/ktl/containers/trivial_buffer.h b/include/ktl/containers/trivial_buffer.h
index 33ea2b9..0f3a88a 100644
--- a/include/ktl/containers/trivial_buffer.h
+++ b/include/ktl/containers/trivial_buffer.h
@@ -89,24 +89,24 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		const T& operator[](size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		const T& operator[](size_t index) const noexcept { return reinterpret_cast<const T*>(m_Data)[index % Size]; }
 
 
-		iterator begin() noexcept { return m_Data; }
+		iterator begin() noexcept { return reinterpret_cast<T*>(m_Data); }
 
-		const_iterator begin() const noexcept { return m_Data; }
+		const_iterator begin() const noexcept { return reinterpret_cast<const T*>(m_Data); }
 
-		iterator end() noexcept { return m_Data + Size; }
+		iterator end() noexcept { return reinterpret_cast<T*>(m_Data) + Size; }
 
-		const_iterator end() const noexcept { return m_Data + Size; }
+		const_iterator end() const noexcept { return reinterpret_cast<const T*>(m_Data) + Size; }
 
-		std::reverse_iterator<T*> rbegin() noexcept { return std::reverse_iterator(m_Data + Size); }
+		std::reverse_iterator<T*> rbegin() noexcept { return std::reverse_iterator(reinterpret_cast<T*>(m_Data) + Size); }
 
-		std::reverse_iterator<const T*> rbegin() const noexcept { return std::reverse_iterator(m_Data + Size); }
+		std::reverse_iterator<const T*> rbegin() const noexcept { return std::reverse_iterator(reinterpret_cast<const T*>(m_Data) + Size); }
 
-		std::reverse_iterator<T*> rend() noexcept { return std::reverse_iterator(m_Data); }
+		std::reverse_iterator<T*> rend() noexcept { return std::reverse_iterator(reinterpret_cast<T*>(m_Data)); }
 
-		std::reverse_iterator<const T*> rend() const noexcept { return std::reverse_iterator(m_Data); }
+		std::reverse_iterator<const T*> rend() const noexcept { return std::reverse_iterator(reinterpret_cast<const T*>(m_Data)); }
 
 
 		/**
@@ -119,13 +119,13 @@ namespace ktl
 		 * @brief Returns an iterator to the start of the buffer.
 		 * @return An iterator to the start of the buffer.
 		*/
-		iterator data() noexcept { return m_Data; }
+		iterator data() noexcept { return reinterpret_cast<T*>(m_Data); }
 
 		/**
 		 * @brief Returns a const iterator to the start of the buffer.
 		 * @return A const iterator to the start of the buffer.
 		*/
-		const_iterator data() const noexcept { return m_Data; }
+		const_iterator data() const noexcept { return reinterpret_cast<const T*>(m_Data); }
 
 		/**
 		 * @brief Returns a reference to the element at @p index, rolling.
@@ -133,7 +133,9 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		T& at(size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		T& at(size_t index) noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+
+		const T& at(size_t index) const noexcept { return reinterpret_cast<const T*>(m_Data)[index % Size]; }
 
 
 		/**
@@ -149,6 +151,6 @@ namespace ktl
 		}
 
 	private:
-		uint8_t m_Data[Size * sizeof(T)];
+		alignas(T) uint8_t m_Data[Size * sizeof(T)];
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 162a1f7e8a054b3a44bff7ebf50f68a1527176f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 16/16] fix: moving an overflow allocator made both objects
 report the same leak

---
 include/ktl/allocators/overflow.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index b9d7ebc..402088b 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -54,7 +54,17 @@ namespace ktl
 
 		overflow(const overflow&) = default;
 
-		overflow(overflow&&) = default;
+		overflow(overflow&& other)
+			noexcept(std::is_nothrow_move_constructible_v<Alloc>) :
+			m_Stream(other.m_Stream),
+			m_Alloc(std::move(other.m_Alloc)),
+			m_Allocs(other.m_Allocs),
+			m_Constructs(other.m_Constructs)
+		{
+			// Only one allocator should report what was allocated so far
+			other.m_Allocs = 0;
+			other.m_Constructs = 0;
+		}
 
 		~overflow()
 		{
-- 
2.43.0

