From 85d56abbfdf2cac786f1a160857c68b312f81321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 01/39] fix: arena memory resource: hand out every byte once,
 return superblocks as received

A new superblock was registered as free twice, so that when upstream returned
adjacent blocks overlapping free blocks were created and memory was handed out
twice. Coalescing also crossed superblock boundaries, and the destructor passed
the coalesced pieces, instead of the superblocks, to the upstream resource. The
end iterator of the free list was dereferenced when the list was empty.
---
 .../details/arena_memory_resource_impl.cpp    | 33 +++++++++----------
 .../details/arena_memory_resource_impl.hpp    |  4 ++-
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 54692b6..0a3c5ee 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -103,17 +103,10 @@ arena_memory_resource_impl::arena_memory_resource_impl(std::size_t initial_size,
 
 arena_memory_resource_impl::~arena_memory_resource_impl() {
 
-    for (auto itr = allocated_blocks_.begin();
-         itr != allocated_blocks_.end();) {
-        auto aux = itr++;
-        deallocate(aux->pointer(), aux->size());
-    }
-
-    for (auto itr = free_blocks_.begin(); itr != free_blocks_.end();) {
-        auto aux = itr++;
-        void* p = aux->pointer();
-        std::size_t size = aux->size();
-        mm_.deallocate(p, size);
+    // Return every superblock exactly as it was received from upstream,
+    // regardless of how it was split up since.
+    for (const block& b : superblocks_) {
+        mm_.deallocate(b.pointer(), b.size());
     }
 }
 
@@ -177,10 +170,14 @@ arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
     auto const next = free_blocks.lower_bound(b);
     auto const previous = next == free_blocks.cbegin() ? next : std::prev(next);
 
-    // coalesce with neighboring blocks
-    bool const merge_prev = previous->is_contiguous_before(b);
-    bool const merge_next =
-        next != free_blocks.cend() && b.is_contiguous_before(*next);
+    // coalesce with neighboring blocks, but never across the boundary of two
+    // superblocks, which are separate upstream allocations
+    bool const merge_prev = previous != next &&
+                            previous->is_contiguous_before(b) &&
+                            superblocks_.count(b) == 0;
+    bool const merge_next = next != free_blocks.cend() &&
+                            b.is_contiguous_before(*next) &&
+                            superblocks_.count(*next) == 0;
 
     block merged{};
     if (merge_prev && merge_next) {
@@ -235,11 +232,11 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     else {
         size = size_superblocks_;
     }
-    std::pair<std::set<block>::iterator, bool> ret =
-        free_blocks_.insert({mm_.allocate(size), size});
+    block const superblock{mm_.allocate(size), size};
+    superblocks_.insert(superblock);
 
     current_size_ += size;
-    return *(ret.first);
+    return superblock;
 }
 
 arena_memory_resource_impl::block arena_memory_resource_impl::free_block(
diff --git a/core/src/memory/details/arena_memory_resource_impl.hpp b/core/src/memory/details/arena_memory_resource_impl.hpp
index 7c290f8..1e9dffb 100644
--- a/core/src/memory/details/arena_memory_resource_impl.hpp
+++ b/core/src/memory/details/arena_memory_resource_impl.hpp
@@ -118,7 +118,7 @@ private:
     };
 
     static block first_fit(std::set<block>& free_blocks, std::size_t size);
-    static block coalesce_block(std::set<block>& free_blocks, block const& b);
+    block coalesce_block(std::set<block>& free_blocks, block const& b);
 
     // @brief Get an available memory block of at least `size` bytes.
     //
@@ -149,6 +149,8 @@ private:
     // Address-ordered set of free blocks
     std::set<block> free_blocks_;
     std::set<block> allocated_blocks_;
+    // The blocks received from the upstream memory resource
+    std::set<block> superblocks_;
 
 };  // class arena_memory_resource_impl
 
-- 
2.43.0


From 4dafa46d2ff043e27bc4db7d5cc7133692cf6570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 02/39] fix: arena memory resource: serve requests above the
 superblock size

Requests larger than both the configured and the minimum superblock size were
given a superblock that was too small for them, and a null pointer was returned.
Requests close to the maximal size overflowed into zero-sized blocks.
---
 core/src/memory/details/arena_memory_resource_impl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 0a3c5ee..b97a9fc 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -12,6 +12,8 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <limits>
+#include <new>
 
 namespace {
 
@@ -112,6 +114,10 @@ arena_memory_resource_impl::~arena_memory_resource_impl() {
 
 void* arena_memory_resource_impl::allocate(std::size_t bytes, std::size_t) {
 
+    // Rounding up such a request would overflow.
+    if (bytes > std::numeric_limits<std::size_t>::max() - 255u) {
+        throw std::bad_alloc();
+    }
     bytes = align_up(bytes);
 
     auto const b = get_block(bytes);
@@ -228,7 +234,7 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     std::size_t size) {
 
     if (size > this->size_superblocks_)
-        size = minimum_superblock_size;
+        size = std::max(size, minimum_superblock_size);
     else {
         size = size_superblocks_;
     }
-- 
2.43.0


From 2f10bce85c828758f6adab2169e0ff4f9d55d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 03/39] fix: arena memory resource: reuse free memory for large
 requests too

Requests of 256 KiB or more always took a new superblock from upstream, even
when enough free memory was available, so the arena grew without a bound.
---
 core/src/memory/details/arena_memory_resource_impl.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index b97a9fc..2f86050 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -218,11 +218,9 @@ arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
 arena_memory_resource_impl::block arena_memory_resource_impl::get_block(
     std::size_t size) {
 
-    if (size < minimum_superblock_size) {
-        auto const b = first_fit(this->free_blocks_, size);
-        if (b.is_valid()) {
-            return b;
-        }
+    auto const b = first_fit(this->free_blocks_, size);
+    if (b.is_valid()) {
+        return b;
     }
 
     auto const superblock = expand_arena(size);
-- 
2.43.0


From 5a3e4054e4db59385ed37c152389dd577acfdc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 04/39] fix: arena memory resource: enforce the maximum size

The documented maximal allowed allocation from upstream was never checked.
---
 core/src/memory/details/arena_memory_resource_impl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 2f86050..9ceda10 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -236,6 +236,11 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     else {
         size = size_superblocks_;
     }
+
+    // do not exceed the maximum size of the arena
+    if (size > maximum_size_ - current_size_) {
+        throw std::bad_alloc();
+    }
     block const superblock{mm_.allocate(size), size};
     superblocks_.insert(superblock);
 
-- 
2.43.0


From 82ec6547f2281ca8c7fdd30ae07e9d2c40d0c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:15 +0000
Subject: [PATCH 05/39] fix: arena memory resource: honour the requested
 alignment

The alignment argument of allocations was ignored, only the default alignment of
the upstream resource was provided.
---
 .../details/arena_memory_resource_impl.cpp    | 35 +++++++++++++++----
 .../details/arena_memory_resource_impl.hpp    |  2 +-
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 9ceda10..25c4bd2 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -22,8 +22,11 @@ namespace {
     return (0 == (alignment & (alignment - 1)));
 }
 
+static constexpr std::size_t block_alignment = 256u;
+
 inline constexpr std::size_t align_up(std::size_t v,
-                                      std::size_t align_bytes = 256) noexcept {
+                                      std::size_t align_bytes =
+                                          block_alignment) noexcept {
     // if the alignment is not support, the program will end
     assert(is_supported_alignment(align_bytes));
     return (v + (align_bytes - 1)) & ~(align_bytes - 1);
@@ -108,19 +111,39 @@ arena_memory_resource_impl::~arena_memory_resource_impl() {
     // Return every superblock exactly as it was received from upstream,
     // regardless of how it was split up since.
     for (const block& b : superblocks_) {
-        mm_.deallocate(b.pointer(), b.size());
+        mm_.deallocate(b.pointer(), b.size(), block_alignment);
     }
 }
 
-void* arena_memory_resource_impl::allocate(std::size_t bytes, std::size_t) {
+void* arena_memory_resource_impl::allocate(std::size_t bytes,
+                                           std::size_t alignment) {
+
+    // Every block starts at a multiple of the block alignment. If more is asked
+    // for, look for a block that can be trimmed to an aligned one.
+    std::size_t const padding =
+        (alignment > block_alignment) ? alignment - block_alignment : 0u;
 
     // Rounding up such a request would overflow.
-    if (bytes > std::numeric_limits<std::size_t>::max() - 255u) {
+    if (bytes > std::numeric_limits<std::size_t>::max() - padding -
+                    (block_alignment - 1u)) {
         throw std::bad_alloc();
     }
     bytes = align_up(bytes);
 
-    auto const b = get_block(bytes);
+    auto b = get_block(bytes + padding);
+    if (padding > 0u) {
+        std::size_t const address =
+            reinterpret_cast<std::size_t>(b.pointer());
+        std::size_t const offset = align_up(address, alignment) - address;
+        auto const tail = b.split(offset + bytes);
+        coalesce_block(this->free_blocks_, tail.second);
+        b = tail.first;
+        if (offset > 0u) {
+            auto const head = b.split(offset);
+            coalesce_block(this->free_blocks_, head.first);
+            b = head.second;
+        }
+    }
     this->allocated_blocks_.emplace(b);
 
     return b.pointer();
@@ -241,7 +264,7 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     if (size > maximum_size_ - current_size_) {
         throw std::bad_alloc();
     }
-    block const superblock{mm_.allocate(size), size};
+    block const superblock{mm_.allocate(size, block_alignment), size};
     superblocks_.insert(superblock);
 
     current_size_ += size;
diff --git a/core/src/memory/details/arena_memory_resource_impl.hpp b/core/src/memory/details/arena_memory_resource_impl.hpp
index 1e9dffb..ba0b372 100644
--- a/core/src/memory/details/arena_memory_resource_impl.hpp
+++ b/core/src/memory/details/arena_memory_resource_impl.hpp
@@ -44,7 +44,7 @@ public:
     // Allocates memory of size at least `bytes`
     //
     // @param[in] bytes the size in bytes of the allocation
-    // @param[in] alignment the alignment of the allocation (unused)
+    // @param[in] alignment the alignment of the allocation
     // @return void* pointer to the newly allocated memory
     void* allocate(std::size_t bytes, std::size_t alignment = 0);
 
-- 
2.43.0


From 8b4888db6bb7e159ed05809407eb727f73c78214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:56 +0000
Subject: [PATCH 06/39] fix: pool memory resource: free outstanding oversized
 blocks in the destructor

Only the cached oversized blocks were returned to upstream, the ones that were
still handed out were leaked, unlike all other outstanding allocations.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index a2d78be..a9fa3dc 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -87,8 +87,8 @@ pool_memory_resource_impl::~pool_memory_resource_impl() {
                                     m_options.alignment);
     }
 
-    // Deallocate the cached oversized/overaligned memory.
-    for (oversized_block_descriptor& block : m_cached_oversized) {
+    // Deallocate the oversized/overaligned memory, whether it is cached or not.
+    for (oversized_block_descriptor& block : m_oversized) {
         m_upstream.get().deallocate(block.pointer, block.size, block.alignment);
     }
 }
-- 
2.43.0


From 51b37bacc49743ee6e55072dcffbe03a94fe5096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:56 +0000
Subject: [PATCH 07/39] fix: pool memory resource: never create a chunk without
 blocks

Accepted options could result in a chunk of zero blocks, after which a block was
taken from an empty free list.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index a9fa3dc..59b5a3a 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -195,6 +195,9 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
             }
         }
 
+        // A chunk must provide at least one block.
+        n = std::max(n, static_cast<std::size_t>(1));
+
         bytes = n << bytes_log2;
 
         assert(n >= m_options.min_blocks_per_chunk);
-- 
2.43.0


From 7ccedcba231f69c1542435337a75bf28b6f4443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:56 +0000
Subject: [PATCH 08/39] fix: pool memory resource: reject an alignment option
 of zero

Zero passed the power of two check, and was then used in upstream requests.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index 59b5a3a..1903429 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -45,6 +45,7 @@ void check_valid(const pool_memory_resource::options& opts) {
                 (opts.max_blocks_per_chunk == 0));
     CHECK_VALID((opts.smallest_block_size == 0) ||
                 (opts.largest_block_size == 0));
+    CHECK_VALID(opts.alignment == 0);
 
     CHECK_VALID(opts.min_blocks_per_chunk > opts.max_blocks_per_chunk);
     CHECK_VALID(opts.min_bytes_per_chunk > opts.max_bytes_per_chunk);
-- 
2.43.0


From 97aa6ed63d4bee08458c5f14f8ded204b0e09444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:56 +0000
Subject: [PATCH 09/39] fix: pool memory resource: apply the size cutoff to the
 block that is used

The size cutoff was tested before looking for a block with a sufficient
alignment, so a much larger block could be used in the end.
---
 .../details/pool_memory_resource_impl.cpp     | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index 1903429..d176e71 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -120,16 +120,6 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
             auto it = std::lower_bound(m_cached_oversized.begin(),
                                        m_cached_oversized.end(), oversized);
 
-            // If the size is bigger than the requested size by a factor
-            // bigger than or equal to the specified cutoff for size,
-            // allocate a new block.
-            if (it != m_cached_oversized.end()) {
-                const std::size_t size_factor = it->size / bytes;
-                if (size_factor >= m_options.cached_size_cutoff_factor) {
-                    it = m_cached_oversized.end();
-                }
-            }
-
             // Make sure that the alignment of the cached block is appropriate.
             if ((it != m_cached_oversized.end()) &&
                 (it->alignment < alignment)) {
@@ -141,6 +131,16 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
                 ;
             }
 
+            // If the size is bigger than the requested size by a factor
+            // bigger than or equal to the specified cutoff for size,
+            // allocate a new block.
+            if (it != m_cached_oversized.end()) {
+                const std::size_t size_factor = it->size / bytes;
+                if (size_factor >= m_options.cached_size_cutoff_factor) {
+                    it = m_cached_oversized.end();
+                }
+            }
+
             // If the alignment is bigger than the requested one by a factor
             // bigger than or equal to the specified cutoff for alignment,
             // allocate a new block.
-- 
2.43.0


From 5bdc9d2976215ef15bcfc3305ba30456945fc52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:56 +0000
Subject: [PATCH 10/39] fix: host memory resource: throw for requests that
 overflow when rounded up

Requests close to the maximal size were rounded up to a size of zero.
---
 core/src/memory/host_memory_resource.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/memory/host_memory_resource.cpp b/core/src/memory/host_memory_resource.cpp
index c9454b1..eea9fcf 100644
--- a/core/src/memory/host_memory_resource.cpp
+++ b/core/src/memory/host_memory_resource.cpp
@@ -15,7 +15,9 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdlib>
+#include <limits>
 #include <memory>
+#include <new>
 
 namespace vecmem {
 
@@ -36,6 +38,10 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
     // that it would accept. Hence the tweaking of the alignment and size
     // values.
     const std::size_t align = std::max(alignment, alignof(std::max_align_t));
+    // Requests that would overflow below can not be satisfied.
+    if (bytes > std::numeric_limits<std::size_t>::max() - align) {
+        throw std::bad_alloc();
+    }
     const std::size_t size = bytes + (align - (bytes % align));
     void *ptr = std::aligned_alloc(align, size);
     // If the alignment failed for some reason, throw an exception.
-- 
2.43.0


From 35dee4b281a4321c791e674ba556496c71b44441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 11/39] fix: binary page memory resource: throw for requests
 larger than any page

Rounding such requests up to a power of two failed, and a page of the minimal
size was returned for them.
---
 .../details/binary_page_memory_resource_impl.cpp      | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/src/memory/details/binary_page_memory_resource_impl.cpp b/core/src/memory/details/binary_page_memory_resource_impl.cpp
index 33741eb..159f217 100644
--- a/core/src/memory/details/binary_page_memory_resource_impl.cpp
+++ b/core/src/memory/details/binary_page_memory_resource_impl.cpp
@@ -15,7 +15,9 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <limits>
 #include <memory>
+#include <new>
 #include <optional>
 #include <stdexcept>
 
@@ -27,6 +29,15 @@ binary_page_memory_resource_impl::binary_page_memory_resource_impl(
 
 void *binary_page_memory_resource_impl::allocate(std::size_t size,
                                                  std::size_t) {
+    /*
+     * A request that is larger than the largest possible page can never be
+     * satisfied.
+     */
+    if (size > (static_cast<std::size_t>(1UL)
+                << (std::numeric_limits<std::size_t>::digits - 1))) {
+        throw std::bad_alloc();
+    }
+
     /*
      * First, we round our allocation request up to a power of two, since
      * that is what the sizes of all our pages are.
-- 
2.43.0


From b8092970bc7939ea6b723c3221ec83ddf76df378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:35 +0000
Subject: [PATCH 12/39] fix: binary page memory resource: honour the requested
 alignment

The alignment argument of allocations was ignored, only the default alignment of
the upstream resource was provided.
---
 .../binary_page_memory_resource_impl.cpp      | 43 ++++++++++++-------
 .../binary_page_memory_resource_impl.hpp      | 15 ++++---
 2 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/core/src/memory/details/binary_page_memory_resource_impl.cpp b/core/src/memory/details/binary_page_memory_resource_impl.cpp
index 159f217..4840702 100644
--- a/core/src/memory/details/binary_page_memory_resource_impl.cpp
+++ b/core/src/memory/details/binary_page_memory_resource_impl.cpp
@@ -28,7 +28,7 @@ binary_page_memory_resource_impl::binary_page_memory_resource_impl(
     : m_upstream(upstream) {}
 
 void *binary_page_memory_resource_impl::allocate(std::size_t size,
-                                                 std::size_t) {
+                                                 std::size_t align) {
     /*
      * A request that is larger than the largest possible page can never be
      * satisfied.
@@ -42,7 +42,8 @@ void *binary_page_memory_resource_impl::allocate(std::size_t size,
      * First, we round our allocation request up to a power of two, since
      * that is what the sizes of all our pages are.
      */
-    std::size_t goal = std::max(min_page_size, round_up(size));
+    std::size_t goal =
+        std::max({min_page_size, round_up(size), round_up(align)});
 
     VECMEM_DEBUG_MSG(3,
                      "Request received to allocate %ld bytes, looking for page "
@@ -52,7 +53,7 @@ void *binary_page_memory_resource_impl::allocate(std::size_t size,
     /*
      * Attempt to find a free page that can fit our allocation goal.
      */
-    std::optional<page_ref> cand = find_free_page(goal);
+    std::optional<page_ref> cand = find_free_page(goal, align);
 
     /*
      * If we don't have a candidate, there is no available page that can fit
@@ -62,9 +63,9 @@ void *binary_page_memory_resource_impl::allocate(std::size_t size,
     if (!cand) {
         VECMEM_DEBUG_MSG(
             5, "No suitable page found, requesting upstream allocation");
-        allocate_upstream(goal);
+        allocate_upstream(goal, align);
 
-        cand = find_free_page(goal);
+        cand = find_free_page(goal, align);
     }
 
     /*
@@ -110,7 +111,7 @@ void *binary_page_memory_resource_impl::allocate(std::size_t size,
 }
 
 void binary_page_memory_resource_impl::deallocate(void *p, std::size_t s,
-                                                  std::size_t) {
+                                                  std::size_t align) {
     VECMEM_DEBUG_MSG(2, "De-allocating memory at %p", p);
 
     /*
@@ -148,7 +149,8 @@ void binary_page_memory_resource_impl::deallocate(void *p, std::size_t s,
      * the memory gives us the offset from the first page of that size, which
      * allows us to easily find the page we're looking for.
      */
-    std::size_t goal = std::max(sp->get().m_min_page_size, round_up(s));
+    std::size_t goal =
+        std::max({sp->get().m_min_page_size, round_up(s), round_up(align)});
     std::size_t p_min = 0;
     for (; page_ref(sp->get(), p_min).get_size() > goal; p_min = 2 * p_min + 1)
         ;
@@ -189,7 +191,8 @@ void binary_page_memory_resource_impl::deallocate(void *p, std::size_t s,
 }
 
 std::optional<binary_page_memory_resource_impl::page_ref>
-binary_page_memory_resource_impl::find_free_page(std::size_t size) {
+binary_page_memory_resource_impl::find_free_page(std::size_t size,
+                                                 std::size_t align) {
     bool candidate_sp_found;
     std::size_t search_size = size;
 
@@ -210,9 +213,11 @@ binary_page_memory_resource_impl::find_free_page(std::size_t size) {
             /*
              * For each superpage, we check if the total size is enougn to
              * support the page size we're looking for. If not, we will never
-             * find such a page in this superpage.
+             * find such a page in this superpage. The same is the case if the
+             * superpage itself is not sufficiently aligned.
              */
-            if (size >= sp.m_min_page_size && search_size <= sp.m_size) {
+            if (size >= sp.m_min_page_size && search_size <= sp.m_size &&
+                align <= sp.m_align) {
                 candidate_sp_found = true;
 
                 /*
@@ -253,28 +258,34 @@ binary_page_memory_resource_impl::find_free_page(std::size_t size) {
     return {};
 }
 
-void binary_page_memory_resource_impl::allocate_upstream(std::size_t size) {
+void binary_page_memory_resource_impl::allocate_upstream(std::size_t size,
+                                                         std::size_t align) {
     /*
      * Add our new page to the list of root pages.
      */
     if (size >= min_superpage_size) {
-        m_superpages.emplace_back(size, m_upstream);
+        m_superpages.emplace_back(size, align, m_upstream);
     } else {
         m_superpages.emplace_back(
-            std::min(size + delta_superpage_size, min_superpage_size),
+            std::min(size + delta_superpage_size, min_superpage_size), align,
             m_upstream);
     }
 }
 
 binary_page_memory_resource_impl::superpage::superpage(
-    std::size_t size, memory_resource &resource)
+    std::size_t size, std::size_t align, memory_resource &resource)
     : m_size(size),
+      m_align(
+          std::max(align, static_cast<std::size_t>(1UL) << min_page_size)),
       m_min_page_size((assert(m_size - delta_superpage_size >= min_page_size),
                        m_size - delta_superpage_size)),
       m_num_pages((2UL << (m_size - m_min_page_size)) - 1),
       m_pages(std::make_unique<page_state[]>(m_num_pages)),
-      m_memory(make_unique_alloc<std::byte[]>(
-          resource, static_cast<std::size_t>(1UL) << m_size)) {
+      m_memory(static_cast<std::byte *>(resource.allocate(
+                   static_cast<std::size_t>(1UL) << m_size, m_align)),
+               unique_alloc_deleter<std::byte[]>(
+                   resource, static_cast<std::size_t>(1UL) << m_size,
+                   m_align)) {
     /*
      * Set all pages as non-extant, except the first one.
      */
diff --git a/core/src/memory/details/binary_page_memory_resource_impl.hpp b/core/src/memory/details/binary_page_memory_resource_impl.hpp
index a7cc001..4494c8e 100644
--- a/core/src/memory/details/binary_page_memory_resource_impl.hpp
+++ b/core/src/memory/details/binary_page_memory_resource_impl.hpp
@@ -76,10 +76,10 @@ struct binary_page_memory_resource_impl {
      */
     struct superpage {
         /**
-         * @brief Construct a superpage with a given size and upstream
-         * resource.
+         * @brief Construct a superpage with a given size, alignment and
+         * upstream resource.
          */
-        superpage(std::size_t, memory_resource &);
+        superpage(std::size_t, std::size_t, memory_resource &);
 
         /**
          * @brief Return the total number of pages in the superpage.
@@ -92,6 +92,11 @@ struct binary_page_memory_resource_impl {
          */
         std::size_t m_size;
 
+        /**
+         * @brief Alignment of the allocation represented by this superpage.
+         */
+        std::size_t m_align;
+
         /**
          * @brief The size of the smallest page in this superpage.
          */
@@ -267,7 +272,7 @@ struct binary_page_memory_resource_impl {
      * the returned page might be (significantly) larger than the request,
      * and should be split before allocating.
      */
-    std::optional<page_ref> find_free_page(std::size_t);
+    std::optional<page_ref> find_free_page(std::size_t, std::size_t);
 
     /**
      * @brief Perform an upstream allocation.
@@ -276,7 +281,7 @@ struct binary_page_memory_resource_impl {
      * resource and immediately creates a page to represent this new chunk
      * of memory.
      */
-    void allocate_upstream(std::size_t);
+    void allocate_upstream(std::size_t, std::size_t);
 
     memory_resource &m_upstream;
     std::vector<superpage> m_superpages;
-- 
2.43.0


From 2de2e00f0b9992b3a5ce694f6bcb74c07de9b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:50 +0000
Subject: [PATCH 13/39] fix: pool memory resource: validate the options before
 using them

A smallest block size of zero was passed to a count-leading-zeroes builtin,
which is undefined for zero, before the options were rejected.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 7 +++----
 core/src/memory/details/pool_memory_resource_impl.hpp | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index d176e71..32d2c43 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -69,12 +69,11 @@ void check_valid(const pool_memory_resource::options& opts) {
 
 pool_memory_resource_impl::pool_memory_resource_impl(
     memory_resource& upstream, const pool_memory_resource::options& opts)
-    : m_upstream(upstream),
-      m_options(opts),
-      m_smallest_block_log2(
-          vecmem::details::log2_ri(opts.smallest_block_size)) {
+    : m_upstream(upstream), m_options(opts), m_smallest_block_log2(0) {
 
     check_valid(opts);
+    m_smallest_block_log2 =
+        vecmem::details::log2_ri(m_options.smallest_block_size);
     m_pools.resize(vecmem::details::log2_ri(m_options.largest_block_size) -
                    m_smallest_block_log2 + 1);
     VECMEM_DEBUG_MSG(5, "Created %lu pools", m_pools.size());
diff --git a/core/src/memory/details/pool_memory_resource_impl.hpp b/core/src/memory/details/pool_memory_resource_impl.hpp
index b2d563d..5ad4c08 100644
--- a/core/src/memory/details/pool_memory_resource_impl.hpp
+++ b/core/src/memory/details/pool_memory_resource_impl.hpp
@@ -69,7 +69,7 @@ private:
     };
 
     /// Helper variable, with the base-2 log of the smallest block size
-    const std::size_t m_smallest_block_log2;
+    std::size_t m_smallest_block_log2;
 
     /// Buckets containing free lists for each pooled size
     std::vector<pool> m_pools;
-- 
2.43.0


From ab3c07f836200ffbaf09c77710b356d1786b8d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 14/39] fix: memory monitor: report an average of zero without
 allocations

0/0 was converted to an integer, which is undefined.
---
 core/src/utils/memory_monitor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/utils/memory_monitor.cpp b/core/src/utils/memory_monitor.cpp
index a4003fa..7eaf627 100644
--- a/core/src/utils/memory_monitor.cpp
+++ b/core/src/utils/memory_monitor.cpp
@@ -40,6 +40,11 @@ std::size_t memory_monitor::outstanding_allocation() const {
 
 std::size_t memory_monitor::average_allocation() const {
 
+    // There is no meaningful average without allocations.
+    if (m_n_alloc == 0) {
+        return 0;
+    }
+
     return static_cast<std::size_t>(std::round(
         static_cast<double>(m_total_alloc) / static_cast<double>(m_n_alloc)));
 }
-- 
2.43.0


From 9ef328c05fce5e27a97aa66e2de7ddaf98467bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:22 +0000
Subject: [PATCH 15/39] fix: static vector: do not destroy elements that were
 never created

The constructor taking a size set the size before assigning the values, which
made assign(...) call the destructor on uninitialised elements.
---
 core/include/vecmem/containers/impl/static_vector.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 8a4baf9..aef55de 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -20,7 +20,7 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector()
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector(
     size_type size, const_reference value)
-    : m_size(size), m_elements() {
+    : m_size(0), m_elements() {
 
     assign(size, value);
 }
-- 
2.43.0


From d0d75311f394bf39bf3d45fd107fa769c25eb96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:22 +0000
Subject: [PATCH 16/39] fix: static vector: copy the elements one by one in
 assignments

The implicit assignment operator copied the bytes of the elements, without
running their constructors and destructors.
---
 .../vecmem/containers/impl/static_vector.ipp     | 16 ++++++++++++++++
 core/include/vecmem/containers/static_vector.hpp |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index aef55de..e4e1ff6 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -42,6 +42,22 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::~static_vector() {
     clear();
 }
 
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>&
+static_vector<TYPE, MAX_SIZE>::operator=(const static_vector& rhs) {
+
+    // Prevent self-assignment.
+    if (this == &rhs) {
+        return *this;
+    }
+
+    // Replace all of the elements.
+    assign(rhs.begin(), rhs.end());
+
+    // Return a reference to this object.
+    return *this;
+}
+
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE typename static_vector<TYPE, MAX_SIZE>::reference
 static_vector<TYPE, MAX_SIZE>::at(size_type pos) {
diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index ef68ddb..93b02ca 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -92,6 +92,9 @@ public:
     /// Copy constructor
     VECMEM_HOST_AND_DEVICE
     static_vector(const static_vector& parent);
+    /// Copy assignment operator
+    VECMEM_HOST_AND_DEVICE
+    static_vector& operator=(const static_vector& rhs);
 
     /// Destructor
     VECMEM_HOST_AND_DEVICE
-- 
2.43.0


From a190c626fd7f3694be68f651419c799b43ffe5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:22 +0000
Subject: [PATCH 17/39] fix: static vector: align the storage for over-aligned
 types

---
 core/include/vecmem/containers/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index 93b02ca..243d2c8 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -319,7 +319,7 @@ private:
     /// Size of the vector
     size_type m_size;
     /// Array that holds the PoD elements of the vector
-    array_type m_elements;
+    alignas(value_type) alignas(array_type) array_type m_elements;
 
 };  // class static_vector
 
-- 
2.43.0


From 68fb12079bca585168714aa9b990a95b8ec5d73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:22 +0000
Subject: [PATCH 18/39] fix: static vector: allow inserting copies of the
 vector's own elements

The elements were moved out of the way before the value, passed by reference,
was copied. As with std::vector, the value may be one of those elements.
---
 .../vecmem/containers/impl/static_vector.ipp  | 37 ++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index e4e1ff6..8148d18 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -181,13 +181,19 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
+    // Follow the value if it is one of the elements about to be moved.
+    const_pointer value_ptr = &value;
+    if ((value_ptr >= id.m_ptr) && (value_ptr < end())) {
+        value_ptr += 1;
+    }
+
     // Move the payload of the existing elements after "pos".
     memmove(static_cast<void*>(id.m_ptr + 1),
             static_cast<const void*>(id.m_ptr),
             (m_size - id.m_index) * value_size);
 
     // Instantiate the new value.
-    construct(id.m_index, value);
+    construct(id.m_index, *value_ptr);
 
     // Increment the size.
     ++m_size;
@@ -206,6 +212,12 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
+    // Follow the value if it is one of the elements about to be moved.
+    const_pointer value_ptr = &value;
+    if ((value_ptr >= id.m_ptr) && (value_ptr < end())) {
+        value_ptr += count;
+    }
+
     // Move the payload of the existing elements after "pos".
     memmove(static_cast<void*>(id.m_ptr + count),
             static_cast<const void*>(id.m_ptr),
@@ -213,7 +225,7 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
 
     // Instantiate all the new values.
     for (size_type i = 0; i < count; ++i) {
-        construct(id.m_index + i, value);
+        construct(id.m_index + i, *value_ptr);
     }
 
     // Increment the size.
@@ -234,13 +246,17 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::emplace(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
+    // Instantiate the new value before moving anything, as the arguments may
+    // refer to existing elements.
+    value_type value(std::forward<Args>(args)...);
+
     // Move the payload of the existing elements after "pos".
     memmove(static_cast<void*>(id.m_ptr + 1),
             static_cast<const void*>(id.m_ptr),
             (m_size - id.m_index) * value_size);
 
-    // Instantiate the new value.
-    new (id.m_ptr) value_type(std::forward<Args>(args)...);
+    // Put the new value into its place.
+    new (id.m_ptr) value_type(std::move(value));
 
     // Increment the size.
     ++m_size;
@@ -254,7 +270,18 @@ template <typename... Args>
 VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::emplace_back(
     Args&&... args) -> reference {
 
-    return *(emplace(end(), std::forward<Args>(args)...));
+    // Make sure that one more position is available.
+    assert(m_size < array_max_size);
+
+    // Instantiate the new value.
+    pointer ptr = end();
+    new (ptr) value_type(std::forward<Args>(args)...);
+
+    // Increment the size.
+    ++m_size;
+
+    // Return a reference to the inserted element.
+    return *ptr;
 }
 
 template <typename TYPE, std::size_t MAX_SIZE>
-- 
2.43.0


From 8ddb0c17e69141b32eb850c846b34db511720f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:51 +0000
Subject: [PATCH 19/39] fix: array: make front() usable on constant arrays

---
 core/include/vecmem/containers/impl/array.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/array.ipp b/core/include/vecmem/containers/impl/array.ipp
index 86e1859..172484a 100644
--- a/core/include/vecmem/containers/impl/array.ipp
+++ b/core/include/vecmem/containers/impl/array.ipp
@@ -86,7 +86,7 @@ auto array<T, N>::front() const -> const_reference {
             "Called vecmem::array::front() on an empty "
             "array");
     }
-    return (*m_memory);
+    return (m_memory[0]);
 }
 
 template <typename T, std::size_t N>
-- 
2.43.0


From cd8fc24f4d8a94df3b218a58e891213a68bcc88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:51 +0000
Subject: [PATCH 20/39] fix: jagged device vector: allow converting iterators
 to constant iterators

---
 .../containers/details/jagged_device_vector_iterator.hpp      | 4 ++++
 .../vecmem/containers/impl/jagged_device_vector_iterator.ipp  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
index 8bb0f5d..203e2c9 100644
--- a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
+++ b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
@@ -33,6 +33,10 @@ namespace details {
 template <typename TYPE>
 class jagged_device_vector_iterator {
 
+    // Make all instantiations of the class friends of each other.
+    template <typename T>
+    friend class jagged_device_vector_iterator;
+
 public:
     /// @name Types describing the underlying data
     /// @{
diff --git a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
index 866484d..a6bbe84 100644
--- a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
+++ b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
@@ -62,7 +62,7 @@ template <typename T>
 VECMEM_HOST_AND_DEVICE
 jagged_device_vector_iterator<TYPE>::jagged_device_vector_iterator(
     const jagged_device_vector_iterator<T>& parent)
-    : m_ptr(parent.m_ptr) {}
+    : jagged_device_vector_iterator(parent.m_ptr) {}
 
 template <typename TYPE>
 VECMEM_HOST_AND_DEVICE jagged_device_vector_iterator<TYPE>&
-- 
2.43.0


From 6fbfaf5df72eccd96a6cc6e7fa36fae346b41855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:05 +0000
Subject: [PATCH 21/39] fix: copy: update the size of a resizable target when
 the source is empty

---
 core/include/vecmem/utils/impl/copy.ipp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index d73a789..0b4f27c 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -492,8 +492,9 @@ bool copy::copy_view_impl(
     // Get the size of the source view.
     const typename data::vector_view<std::add_const_t<TYPE>>::size_type size =
         get_size(from_view);
-    // If it's zero, don't do an actual copy.
-    if (size == 0u) {
+    // If it's zero, and there is no size to be updated in the target, don't do
+    // an actual copy.
+    if ((size == 0u) && (to_view.size_ptr() == nullptr)) {
         return false;
     }
 
@@ -534,7 +535,9 @@ bool copy::copy_view_impl(
     }
 
     // Copy the payload.
-    do_copy(size * sizeof(TYPE), from_view.ptr(), to_view.ptr(), cptype);
+    if (size != 0u) {
+        do_copy(size * sizeof(TYPE), from_view.ptr(), to_view.ptr(), cptype);
+    }
     return true;
 }
 
-- 
2.43.0


From 7158736f9e5b64e8830b1e4f325bf257d8774b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:05 +0000
Subject: [PATCH 22/39] fix: copy: allow setting the bytes of an empty jagged
 vector

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 0b4f27c..82ab560 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -176,6 +176,11 @@ template <typename TYPE>
 copy::event_type copy::memset(data::jagged_vector_view<TYPE> data,
                               int value) const {
 
+    // Check if anything needs to be done.
+    if (data.size() == 0) {
+        return vecmem::copy::create_event();
+    }
+
     // Do different things for jagged vectors that are contiguous in memory.
     if (is_contiguous(data.host_ptr(), data.capacity())) {
         // For contiguous jagged vectors we can just do a single memset
-- 
2.43.0


From 65b366d8cebe624e3880cd4e36fe420682f59d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:02 +0000
Subject: [PATCH 23/39] fix: copy: do not access the sizes of a jagged device
 buffer on the host

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 82ab560..9dc6dcc 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -222,9 +222,10 @@ data::jagged_vector_buffer<std::remove_cv_t<TYPE>> copy::to(
     const data::jagged_vector_view<TYPE>& data, memory_resource& resource,
     memory_resource* host_access_resource, type::copy_type cptype) const {
 
-    // Create the result buffer object.
+    // Create the result buffer object. The sizes of the source may not be
+    // directly accessible on the host.
     data::jagged_vector_buffer<std::remove_cv_t<TYPE>> result(
-        data, resource, host_access_resource);
+        get_sizes(data), resource, host_access_resource);
     assert(result.size() == data.size());
 
     // Copy the description of the "inner vectors" if necessary.
-- 
2.43.0


From 7fe730ea70ca32ae21db85592f3a4599cfc8acb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:14 +0000
Subject: [PATCH 24/39] fix: copy: set up the size of resizable SoA buffers
 without capacity

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 9dc6dcc..2dd59dd 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -336,8 +336,9 @@ copy::event_type copy::set_sizes(
 template <typename SCHEMA>
 copy::event_type copy::setup(edm::view<SCHEMA> data) const {
 
-    // For empty containers nothing needs to be done.
-    if (data.capacity() == 0) {
+    // For empty containers, which do not have a size variable either, nothing
+    // needs to be done.
+    if ((data.capacity() == 0) && (data.size().ptr() == nullptr)) {
         return vecmem::copy::create_event();
     }
 
-- 
2.43.0


From 9eaf1ec6576cb64dcef5dd731d1cf2c0e9b91c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:14 +0000
Subject: [PATCH 25/39] fix: copy: do not leave events behind when setting the
 bytes of SoA containers

---
 core/include/vecmem/utils/impl/copy.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 2dd59dd..d27ede0 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -372,7 +372,7 @@ copy::event_type copy::memset(edm::view<edm::schema<VARTYPES...>> data,
 
     // For buffers, we can do this in one go.
     if (data.payload().ptr() != nullptr) {
-        memset(data.payload(), value);
+        memset(data.payload(), value)->ignore();
     } else {
         // Do the operation using the helper function, recursively.
         memset_impl<0>(data, value);
@@ -764,7 +764,7 @@ void copy::memset_impl(edm::view<edm::schema<VARTYPES...>> data,
                   data.template get<INDEX>(), value);
     } else {
         // But vectors and jagged vectors do.
-        memset(data.template get<INDEX>(), value);
+        memset(data.template get<INDEX>(), value)->ignore();
     }
     // Recurse into the next variable.
     if constexpr (sizeof...(VARTYPES) > (INDEX + 1)) {
-- 
2.43.0


From f957f300945826b51ea2ac6f706e6ee685be71a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:27 +0000
Subject: [PATCH 26/39] fix: copy: only copy SoA containers in one go if their
 layouts match

---
 core/include/vecmem/utils/copy.hpp      |  6 ++++
 core/include/vecmem/utils/impl/copy.ipp | 38 +++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/copy.hpp b/core/include/vecmem/utils/copy.hpp
index e548d85..37ade74 100644
--- a/core/include/vecmem/utils/copy.hpp
+++ b/core/include/vecmem/utils/copy.hpp
@@ -232,6 +232,12 @@ private:
     template <typename TYPE>
     static bool is_contiguous(const data::vector_view<TYPE>* data,
                               std::size_t size);
+    /// Check if all variables of two SoA containers have the same capacities
+    template <std::size_t INDEX, typename... VARTYPES>
+    static bool has_same_layout(
+        const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+            from,
+        const edm::view<edm::schema<VARTYPES...>>& to);
     /// Implementation for the variadic @c memset function
     template <std::size_t INDEX, typename... VARTYPES>
     void memset_impl(edm::view<edm::schema<VARTYPES...>> data, int value) const;
diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index d27ede0..a954d48 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -389,10 +389,11 @@ copy::event_type copy::operator()(
     edm::view<edm::schema<VARTYPES...>> to_view, type::copy_type cptype) const {
 
     // First, handle the simple case, when both views have a contiguous memory
-    // layout.
+    // layout. With every variable being at the same place in both of them.
     if ((from_view.payload().ptr() != nullptr) &&
         (to_view.payload().ptr() != nullptr) &&
-        (from_view.payload().capacity() == to_view.payload().capacity())) {
+        (from_view.payload().capacity() == to_view.payload().capacity()) &&
+        has_same_layout<0, VARTYPES...>(from_view, to_view)) {
 
         // If the "common size" is zero, we're done.
         if (from_view.payload().capacity() == 0) {
@@ -752,6 +753,39 @@ bool copy::is_contiguous(const data::vector_view<TYPE>* data,
     return true;
 }
 
+template <std::size_t INDEX, typename... VARTYPES>
+bool copy::has_same_layout(
+    const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+        from_view,
+    const edm::view<edm::schema<VARTYPES...>>& to_view) {
+
+    // The outer sizes have to match for all variables.
+    if (from_view.capacity() != to_view.capacity()) {
+        return false;
+    }
+    // For jagged vectors all of the inner capacities have to match as well.
+    if constexpr (edm::type::details::is_jagged_vector<
+                      typename std::tuple_element<
+                          INDEX, std::tuple<VARTYPES...>>::type>::value) {
+        const auto& from = from_view.template get<INDEX>();
+        const auto& to = to_view.template get<INDEX>();
+        if (from.size() != to.size()) {
+            return false;
+        }
+        for (std::size_t i = 0; i < from.size(); ++i) {
+            if (from.host_ptr()[i].capacity() != to.host_ptr()[i].capacity()) {
+                return false;
+            }
+        }
+    }
+    // Recurse into the next variable.
+    if constexpr (sizeof...(VARTYPES) > (INDEX + 1)) {
+        return has_same_layout<INDEX + 1, VARTYPES...>(from_view, to_view);
+    } else {
+        return true;
+    }
+}
+
 template <std::size_t INDEX, typename... VARTYPES>
 void copy::memset_impl(edm::view<edm::schema<VARTYPES...>> data,
                        int value) const {
-- 
2.43.0


From 001be7b52adb3d413368eeefe9c7c77402eea0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:40 +0000
Subject: [PATCH 27/39] fix: jagged vector buffer: align the elements of fixed
 size buffers

The payload of fixed size buffers was allocated with the default alignment of
the memory resource, which is not enough for over-aligned element types.
---
 core/include/vecmem/containers/impl/jagged_vector_buffer.ipp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
index a449baa..07a537b 100644
--- a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
+++ b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
@@ -96,9 +96,8 @@ jagged_vector_buffer<TYPE>::jagged_vector_buffer(
 
     // Allocate the "inner memory" for a fixed size buffer.
     if (type == buffer_type::fixed_size && total_elements != 0) {
-        m_inner_memory = vecmem::make_unique_alloc<char[]>(
-            resource, total_elements * sizeof(TYPE));
-        data_ptr = reinterpret_cast<TYPE*>(m_inner_memory.get());
+        std::tie(m_inner_memory, data_ptr) =
+            details::aligned_multiple_placement<TYPE>(resource, total_elements);
     }
     // Allocate the "inner memory" for a resizable buffer.
     else if (type == buffer_type::resizable && capacities.size() != 0) {
-- 
2.43.0


From 15dcbdd8d8a526eba70fa1dc4a177e6219274132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:02 +0000
Subject: [PATCH 28/39] fix: edm device: read the size of the container
 atomically

Other threads may be adding elements at the same time. Just like for
vecmem::device_vector, which already does this.
---
 core/include/vecmem/edm/impl/device.ipp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/edm/impl/device.ipp b/core/include/vecmem/edm/impl/device.ipp
index fd4b112..a7e4fa9 100644
--- a/core/include/vecmem/edm/impl/device.ipp
+++ b/core/include/vecmem/edm/impl/device.ipp
@@ -38,7 +38,14 @@ VECMEM_HOST_AND_DEVICE auto device<schema<VARTYPES...>, INTERFACE>::size() const
     assert(details::device_capacities_match<VARTYPES...>(
         m_capacity, m_data, std::index_sequence_for<VARTYPES...>{}));
 
-    return (m_size == nullptr ? m_capacity : *m_size);
+    if (m_size == nullptr) {
+        return m_capacity;
+    } else {
+        // The size may be modified by other threads at the same time. See
+        // vecmem::device_vector::size() about the const-cast.
+        device_atomic_ref<size_type> asize(*(const_cast<size_type*>(m_size)));
+        return asize.load();
+    }
 }
 
 template <typename... VARTYPES, template <typename> class INTERFACE>
-- 
2.43.0


From b3e6b053f7326d3ed7ee6311facaafa9bab0aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:30 +0000
Subject: [PATCH 29/39] fix: pool memory resource: respect the minimal number
 of bytes per chunk

---
 core/src/memory/details/pool_memory_resource_impl.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index 32d2c43..d36be17 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -182,8 +182,15 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
         std::size_t n = bucket.previous_allocated_count;
         if (n == 0) {
             n = m_options.min_blocks_per_chunk;
-            if (n < (m_options.min_bytes_per_chunk >> bytes_log2)) {
-                n = m_options.min_bytes_per_chunk >> bytes_log2;
+            // Round the minimal size up to full blocks, if the maximal size
+            // allows for it.
+            std::size_t min_n = m_options.min_bytes_per_chunk >> bytes_log2;
+            if (((min_n << bytes_log2) < m_options.min_bytes_per_chunk) &&
+                (min_n < (m_options.max_bytes_per_chunk >> bytes_log2))) {
+                ++min_n;
+            }
+            if (n < min_n) {
+                n = min_n;
             }
         } else {
             n = n * 3 / 2;
-- 
2.43.0


From 064e06acc43652de9bc1ac4cb72e44bca2ea3846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:36 +0000
Subject: [PATCH 30/39] fix: unique pointers: allocate over-aligned types with
 their alignment

The memory was always requested with the default alignment.
---
 core/include/vecmem/memory/unique_ptr.hpp | 46 +++++++++++++++++------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index a6362e6..6a3c25b 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <cstddef>
 #include <memory>
 #include <type_traits>
 
@@ -17,6 +19,20 @@
 #include "vecmem/vecmem_core_export.hpp"
 
 namespace vecmem {
+namespace details {
+/**
+ * @brief The alignment to allocate memory with for a unique pointer.
+ *
+ * This is the default alignment of memory resources, unless the type in
+ * question is over-aligned.
+ *
+ * @tparam T The (array) type to allocate memory for.
+ */
+template <typename T>
+constexpr std::size_t unique_ptr_alignment =
+    std::max(alignof(T), alignof(std::max_align_t));
+}  // namespace details
+
 /**
  * @brief A unique pointer type for non-trivial objects.
  *
@@ -79,7 +95,8 @@ make_unique_obj(memory_resource& m, Args&&... a) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    T* p = static_cast<T*>(m.allocate(s));
+    constexpr std::size_t align = details::unique_ptr_alignment<T>;
+    T* p = static_cast<T*>(m.allocate(s, align));
 
     /*
      * Perform a placement-new with forwarded arguments to construct the
@@ -90,7 +107,7 @@ make_unique_obj(memory_resource& m, Args&&... a) {
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s));
+    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s, align));
 }
 
 /**
@@ -121,7 +138,8 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    constexpr std::size_t align = details::unique_ptr_alignment<T>;
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
     /*
      * Use placement-new to default-construct each of our elements.
@@ -133,7 +151,7 @@ make_unique_obj(memory_resource& m, std::size_t n) {
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s, 0, n));
+    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s, align, n));
 }
 
 /**
@@ -186,12 +204,13 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    constexpr std::size_t align = details::unique_ptr_alignment<T>;
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, align));
 }
 
 /**
@@ -247,12 +266,13 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    constexpr std::size_t align = details::unique_ptr_alignment<T>;
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, align));
 }
 
 /**
@@ -319,14 +339,15 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, const T* f,
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    constexpr std::size_t align = details::unique_ptr_alignment<T>;
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
     c(p, f, s);
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, align));
 }
 
 /**
@@ -396,13 +417,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    constexpr std::size_t align = details::unique_ptr_alignment<T>;
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
     c(p, f, s);
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, align));
 }
 }  // namespace vecmem
-- 
2.43.0


From eca3e1f9b19a0a53e002b30b5a12b83d9394715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 31/39] fix: unique pointers: do not leak when a construction
 or a copy fails

The memory, and the array elements already constructed, were leaked if a
constructor or the copy helper threw an exception.
---
 core/include/vecmem/memory/unique_ptr.hpp | 47 ++++++++++++++++-------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index 6a3c25b..c53c741 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -100,9 +100,14 @@ make_unique_obj(memory_resource& m, Args&&... a) {
 
     /*
      * Perform a placement-new with forwarded arguments to construct the
-     * object.
+     * object. If that fails, the memory must not be leaked.
      */
-    new (p) T(std::forward<Args>(a)...);
+    try {
+        new (p) T(std::forward<Args>(a)...);
+    } catch (...) {
+        m.deallocate(p, s, align);
+        throw;
+    }
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
@@ -142,10 +147,18 @@ make_unique_obj(memory_resource& m, std::size_t n) {
     pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
     /*
-     * Use placement-new to default-construct each of our elements.
+     * Use placement-new to default-construct each of our elements. If one of
+     * them fails, let the deleter destroy the ones already constructed, and
+     * deallocate the memory.
      */
-    for (std::size_t i = 0; i < n; ++i) {
-        new (&p[i]) std::remove_extent_t<T>();
+    std::size_t i = 0;
+    try {
+        for (; i < n; ++i) {
+            new (&p[i]) std::remove_extent_t<T>();
+        }
+    } catch (...) {
+        details::unique_obj_deleter<T>(m, s, align, i)(p);
+        throw;
     }
 
     /*
@@ -342,12 +355,16 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, const T* f,
     constexpr std::size_t align = details::unique_ptr_alignment<T>;
     pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
-    c(p, f, s);
-
     /*
-     * Create a new unique_ptr, with its own deleter, and return it.
+     * Create a new unique_ptr, with its own deleter. This has to happen before
+     * the copy, so that the memory would not be leaked if that fails.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, align));
+    unique_alloc_ptr<T> result(p,
+                               details::unique_alloc_deleter<T>(m, s, align));
+
+    c(p, f, s);
+
+    return result;
 }
 
 /**
@@ -420,11 +437,15 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
     constexpr std::size_t align = details::unique_ptr_alignment<T>;
     pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
-    c(p, f, s);
-
     /*
-     * Create a new unique_ptr, with its own deleter, and return it.
+     * Create a new unique_ptr, with its own deleter. This has to happen before
+     * the copy, so that the memory would not be leaked if that fails.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, align));
+    unique_alloc_ptr<T> result(p,
+                               details::unique_alloc_deleter<T>(m, s, align));
+
+    c(p, f, s);
+
+    return result;
 }
 }  // namespace vecmem
-- 
2.43.0


From bc5d45a039662515ab7334db1016a5b98b691e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 32/39] fix: allocator: do not leak the memory when a
 constructor fails

---
 core/include/vecmem/memory/impl/allocator.ipp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 6273cd2..1125bf0 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -39,15 +39,21 @@ T *allocator::new_object(Args &&... args) {
      * constructing. We use the allocate_object method for this, with the
      * default argument of 1 for a single object.
      */
-    void *p = allocate_object<T>();
+    T *p = allocate_object<T>();
 
     /*
      * Next, we use the placement new operation to construct the object in
      * the memory which we have just allocated. For this, we also need to
      * forward the arguments passed to this method so they can be used to
-     * call the constructor of the class.
+     * call the constructor of the class. If the constructor fails, the memory
+     * must not be leaked.
      */
-    return new (p) T(std::forward<Args>(args)...);
+    try {
+        return new (p) T(std::forward<Args>(args)...);
+    } catch (...) {
+        deallocate_object<T>(p);
+        throw;
+    }
 }
 
 template <typename T>
-- 
2.43.0


From 7eb78950dd121dd3d62ca7f0b0835734cbc2cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:39 +0000
Subject: [PATCH 33/39] fix: unique pointers, allocator: refuse sizes that
 cannot be represented

The size of an array in bytes could overflow, giving a too small allocation.
---
 core/include/vecmem/memory/impl/allocator.ipp |  9 ++++++
 core/include/vecmem/memory/unique_ptr.hpp     | 28 +++++++++++++++++--
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 1125bf0..fe119d0 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -9,10 +9,19 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
+#include <new>
 
 namespace vecmem {
 template <typename T>
 T *allocator::allocate_object(std::size_t n) {
+    /*
+     * Make sure that the size of the allocation can be represented.
+     */
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw std::bad_array_new_length();
+    }
+
     /*
      * Since we know the object being allocated here, we can multiply the
      * number of objects to allocate with the size of that class. We can
diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index c53c741..2525b1b 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -10,7 +10,9 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 #include <type_traits>
 
 #include "vecmem/memory/details/unique_alloc_deleter.hpp"
@@ -31,6 +33,23 @@ namespace details {
 template <typename T>
 constexpr std::size_t unique_ptr_alignment =
     std::max(alignof(T), alignof(std::max_align_t));
+
+/**
+ * @brief The number of bytes that an array needs.
+ *
+ * @tparam T The type of the array's elements.
+ *
+ * @param n The number of elements in the array.
+ *
+ * @return The size of the array, in bytes.
+ */
+template <typename T>
+std::size_t unique_ptr_array_size(std::size_t n) {
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw std::bad_array_new_length();
+    }
+    return n * sizeof(T);
+}
 }  // namespace details
 
 /**
@@ -142,7 +161,8 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s =
+        details::unique_ptr_array_size<std::remove_extent_t<T>>(n);
     constexpr std::size_t align = details::unique_ptr_alignment<T>;
     pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
@@ -278,7 +298,8 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s =
+        details::unique_ptr_array_size<std::remove_extent_t<T>>(n);
     constexpr std::size_t align = details::unique_ptr_alignment<T>;
     pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
@@ -433,7 +454,8 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s =
+        details::unique_ptr_array_size<std::remove_extent_t<T>>(n);
     constexpr std::size_t align = details::unique_ptr_alignment<T>;
     pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
-- 
2.43.0


From 82cc5c232f17df36c9e68ae1f6d1061606af3c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:25 +0000
Subject: [PATCH 34/39] fix: SoA containers: constant access to jagged vector
 variables

The constant functions of non-constant device containers with a jagged vector
variable, and of the proxies of their elements, did not compile.
---
 core/include/vecmem/edm/details/proxy_traits.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/core/include/vecmem/edm/details/proxy_traits.hpp b/core/include/vecmem/edm/details/proxy_traits.hpp
index 83be1ab..44e5867 100644
--- a/core/include/vecmem/edm/details/proxy_traits.hpp
+++ b/core/include/vecmem/edm/details/proxy_traits.hpp
@@ -138,10 +138,8 @@ struct proxy_var_type<type::jagged_vector<VTYPE>, proxy_type::device,
     using const_return_type = return_type;
 
     /// Helper function constructing a vector proxy variable
-    VECMEM_HOST_AND_DEVICE
-    static type make(
-        typename jagged_device_vector<std::add_const_t<VTYPE>>::size_type i,
-        const jagged_device_vector<std::add_const_t<VTYPE>>& vec) {
+    template <typename ITYPE, typename VECTYPE>
+    VECMEM_HOST_AND_DEVICE static type make(ITYPE i, const VECTYPE& vec) {
 
         return vec.at(i);
     }
@@ -159,8 +157,8 @@ struct proxy_var_type<type::jagged_vector<VTYPE>, proxy_type::device,
     using return_type = std::add_lvalue_reference_t<type>;
     /// They are returned as const references to the non-const device vector in
     /// const access
-    using const_return_type = std::add_lvalue_reference_t<
-        std::add_const_t<device_vector<std::add_const_t<VTYPE>>>>;
+    using const_return_type =
+        std::add_lvalue_reference_t<std::add_const_t<type>>;
 
     /// Helper function constructing a vector proxy variable
     VECMEM_HOST_AND_DEVICE
-- 
2.43.0


From 923eec5f24038c9379feb7231796d558e1d7e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:19 +0000
Subject: [PATCH 35/39] fix: SoA containers: initialise the data objects of
 scalar-only host containers

Their capacity and block descriptions had indeterminate values.
---
 core/include/vecmem/edm/impl/host.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/edm/impl/host.ipp b/core/include/vecmem/edm/impl/host.ipp
index fd4a616..c73cc68 100644
--- a/core/include/vecmem/edm/impl/host.ipp
+++ b/core/include/vecmem/edm/impl/host.ipp
@@ -208,7 +208,7 @@ VECMEM_HOST edm::data<edm::schema<VARTYPES...>> get_data(
     memory_resource* resource) {
 
     // Create the result object.
-    edm::data<edm::schema<VARTYPES...>> result;
+    edm::data<edm::schema<VARTYPES...>> result{};
     // Decide what memory resource to use for setting it up.
     memory_resource& mr = (resource != nullptr ? *resource : host.resource());
     // Set its size, if that's available. Note that if there are no vector
@@ -274,7 +274,7 @@ get_data(const edm::host<edm::schema<VARTYPES...>, INTERFACE>& host,
          memory_resource* resource) {
 
     // Create the result object.
-    edm::data<edm::details::add_const_t<edm::schema<VARTYPES...>>> result;
+    edm::data<edm::details::add_const_t<edm::schema<VARTYPES...>>> result{};
     // Decide what memory resource to use for setting it up.
     memory_resource& mr = (resource != nullptr ? *resource : host.resource());
     // Set its size, if that's available. Note that if there are no vector
-- 
2.43.0


From ad0f35cc1c40c8d63e09f0c0e5b5d5fb915ff30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:08 +0000
Subject: [PATCH 36/39] fix: let go of the owned queue when a SYCL queue
 wrapper is assigned a view

Later copies of the wrapper would otherwise have used the queue that the
object owned before the assignment.
---
 sycl/src/utils/sycl/queue_wrapper.sycl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sycl/src/utils/sycl/queue_wrapper.sycl b/sycl/src/utils/sycl/queue_wrapper.sycl
index f6f2d4e..b7f7719 100644
--- a/sycl/src/utils/sycl/queue_wrapper.sycl
+++ b/sycl/src/utils/sycl/queue_wrapper.sycl
@@ -85,8 +85,12 @@ queue_wrapper& queue_wrapper::operator=(const queue_wrapper& rhs) {
         m_queue = m_managedQueue.get();
     } else {
         // If not, then let's just point at the same queue that somebody else
-        // owns.
+        // owns. Letting go of the queue that this object owned so far, unless
+        // that's what is being pointed at.
         m_queue = rhs.m_queue;
+        if (m_managedQueue.get() != m_queue) {
+            m_managedQueue.reset();
+        }
     }
 
     // Return this object.
-- 
2.43.0


From 136c2d5f638d73dfeaf0e5d6acea0628fe37c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:08 +0000
Subject: [PATCH 37/39] fix: vecmem::atomic::compare_exchange_strong in CUDA
 and HIP device code

It returned the old value, converted to bool, and did not update the
expected value on failure.
---
 core/include/vecmem/memory/impl/atomic.ipp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/memory/impl/atomic.ipp b/core/include/vecmem/memory/impl/atomic.ipp
index 2b96d2c..145cadd 100644
--- a/core/include/vecmem/memory/impl/atomic.ipp
+++ b/core/include/vecmem/memory/impl/atomic.ipp
@@ -89,7 +89,15 @@ VECMEM_HOST_AND_DEVICE bool atomic<T>::compare_exchange_strong(
 
 #if (defined(__CUDA_ARCH__) || defined(__HIP_DEVICE_COMPILE__)) && \
     (!defined(SYCL_LANGUAGE_VERSION))
-    return atomicCAS(m_ptr, expected, desired);
+    const value_type r = atomicCAS(m_ptr, expected, desired);
+    // atomicCAS returns the old value, so the change will have succeeded if
+    // the old value was the expected value.
+    if (r == expected) {
+        return true;
+    } else {
+        expected = r;
+        return false;
+    }
 #elif defined(CL_SYCL_LANGUAGE_VERSION) || defined(SYCL_LANGUAGE_VERSION)
     return __VECMEM_SYCL_ATOMIC_CALL2(compare_exchange_strong, m_ptr, expected,
                                       desired);
-- 
2.43.0


From 97eb730bc1484d6b4e079446fbddb22a1d891029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:08 +0000
Subject: [PATCH 38/39] fix: host_memory_resource without std::aligned_alloc
 and huge requests

The number of bytes to ask for overflowed, and a block which is too
small was returned.
---
 core/src/memory/host_memory_resource.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/memory/host_memory_resource.cpp b/core/src/memory/host_memory_resource.cpp
index eea9fcf..b13bfc1 100644
--- a/core/src/memory/host_memory_resource.cpp
+++ b/core/src/memory/host_memory_resource.cpp
@@ -49,6 +49,11 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
         throw std::bad_alloc();
     }
 #else
+    // Requests that would overflow below can not be satisfied.
+    if (bytes > std::numeric_limits<std::size_t>::max() - alignment -
+                    sizeof(void *)) {
+        throw std::bad_alloc();
+    }
     // Ask for enough memory that will allow us to be able to align
     // the returned pointer for sure, **and** be able to store the
     // pointer to the beginning of the unaligned memory blob before
-- 
2.43.0


From 84240a49bbc7bc2e2b4fba0195396aa8437fc1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:00 +0000
Subject: [PATCH 39/39] fix: pool memory resource: assertions failed for valid
 options of chunk sizes

---
 core/src/memory/details/pool_memory_resource_impl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index d36be17..d6eb0bc 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -209,8 +209,10 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
 
         assert(n >= m_options.min_blocks_per_chunk);
         assert(n <= m_options.max_blocks_per_chunk);
-        assert(bytes >= m_options.min_bytes_per_chunk);
-        assert(bytes <= m_options.max_bytes_per_chunk);
+        // The size limits can only be respected up to full blocks.
+        assert((bytes >= m_options.min_bytes_per_chunk) ||
+               (bytes + bucket_size > m_options.max_bytes_per_chunk));
+        assert((bytes <= m_options.max_bytes_per_chunk) || (n == 1));
 
         chunk_descriptor allocated;
         allocated.size = bytes;
-- 
2.43.0

