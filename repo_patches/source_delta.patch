From 6d073db2ff1c21af933937e9874e09ace7293878 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 01/47] fix: refuse arena requests whose size overflows
 uint64_t

---
 arena/arena.cc  | 9 ++++++++-
 arena/arena.hpp | 9 +++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index d3ba154..70934f1 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -65,7 +65,10 @@ auto Arena::newBlock(uint64_t min_bytes, Block* prev_block) noexcept -> Arena::B
     if (min_bytes > std::numeric_limits<uint64_t>::max() - kBlockHeaderSize) {
         auto output_message = fmt::format(
           "newBlock need too many min_bytes : {}, it add kBlockHeaderSize more than uint64_t max.", min_bytes);
-        _options.logger_func(output_message);
+        if (_options.logger_func != nullptr) {
+            _options.logger_func(output_message);
+        }
+        return nullptr;
     }
 
     // it was not called in the Arena's first chance.
@@ -138,6 +141,10 @@ void Arena::Block::Reset() noexcept {
  */
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
     uint64_t needed = align_size(bytes);
+    if (needed < bytes) [[unlikely]] {
+        // align_size wrapped around, no block can hold the request.
+        return nullptr;
+    }
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
         Block* curr = newBlock(needed, _last_block);
         if (curr != nullptr) [[likely]] {
diff --git a/arena/arena.hpp b/arena/arena.hpp
index d4e12e6..acb8cc9 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -290,7 +290,9 @@ class Arena
             auto [_, alignment_waste] = AlignPos(Pos(), alignment);
             // the size is no need to align, because the AlignPos has done the ptr alignment, and _limit is aligned
             // to 16.
-            return _pos + alignment_waste + size <= _limit;
+            // never add them up, the sum may be more than max of uint64_t.
+            const uint64_t space = _limit - _pos;
+            return alignment_waste <= space && size <= space - alignment_waste;
         }
 
         void run_cleanups() noexcept {
@@ -457,7 +459,10 @@ class Arena
               "CreateArray need too many memory, that more than max of uint64_t, the num of array is {}, and the Type "
               "is {}, sizeof T is {}",
               num, TYPENAME(T), sizeof(T));
-            _options.logger_func(output_message);
+            if (_options.logger_func != nullptr) {
+                _options.logger_func(output_message);
+            }
+            return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
         char* ptr = allocateAligned(size);
-- 
2.43.0


From f997281f989f52d7741583b43383aedea899284a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 02/47] fix: reserve room for the alignment waste when a new
 arena block is created

---
 arena/arena.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index 70934f1..675ccb3 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -146,7 +146,13 @@ auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char
         return nullptr;
     }
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
-        Block* curr = newBlock(needed, _last_block);
+        // every block position is aligned to kByteSize, so the position can be at most
+        // (alignment - kByteSize) bytes away from a position aligned to alignment.
+        const uint64_t max_waste = alignment - kByteSize;
+        if (needed > std::numeric_limits<uint64_t>::max() - max_waste) [[unlikely]] {
+            return nullptr;
+        }
+        Block* curr = newBlock(needed + max_waste, _last_block);
         if (curr != nullptr) [[likely]] {
             _last_block = curr;
         } else {
-- 
2.43.0


From c2e8eb976965149894dafbab469b125ff8cf9016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 03/47] fix: run all cleanups before releasing any block of the
 arena

---
 arena/arena.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index acb8cc9..9398e78 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -305,6 +305,8 @@ class Arena
             for (; node < last; ++node) {
                 node->cleanup(node->element);
             }
+            // every cleanup has run, never run it again.
+            _limit = _size;
         }
 
         [[nodiscard, gnu::always_inline]] inline auto cleanups() const noexcept -> uint64_t {
@@ -615,20 +617,31 @@ class Arena
         return addCleanup(ptr, &arena_destruct_object<T>);
     }
 
+    /*
+     * run the cleanups of all blocks, newest first, while every block is still alive: a cleanup may use any memory of
+     * the arena. return the remains of all blocks before that.
+     */
+    auto run_all_cleanups() noexcept -> uint64_t {
+        uint64_t remain_size = 0;
+        for (Block* curr = _last_block; curr != nullptr; curr = curr->prev()) {
+            // add the size of curr blk.
+            remain_size += curr->remain();
+            curr->run_cleanups();
+        }
+        return remain_size;
+    }
+
     /*
      * free all blocks and return all remains size of all blocks that was freed.
      */
     auto free_all_blocks() noexcept -> uint64_t {
+        // run all cleanups first
+        uint64_t remain_size = run_all_cleanups();
         Block* curr = _last_block;
         Block* prev = nullptr;
-        uint64_t remain_size = 0;
 
         while (curr != nullptr) {
             prev = curr->prev();
-            // add the size of curr blk.
-            remain_size += curr->remain();
-            // run all cleanups first
-            curr->run_cleanups();
             _options.block_dealloc(curr);
             curr = prev;
         }
@@ -640,22 +653,17 @@ class Arena
      * free all blocks except the first block.
      */
     auto free_blocks_except_head() noexcept -> uint64_t {
+        // run all cleanups first
+        uint64_t remain_size = run_all_cleanups();
         Block* curr = _last_block;
         Block* prev = nullptr;
-        uint64_t remain_size = 0;
 
         while (curr != nullptr && curr->prev() != nullptr) {
             prev = curr->prev();
-            // add the size of curr blk.
-            remain_size += curr->remain();
-            // run all cleanups first
-            curr->run_cleanups();
             _options.block_dealloc(curr);
             curr = prev;
         }
         Assert(curr != nullptr, "curr should not be nullptr");
-        // add the curr blk remain to result
-        remain_size += curr->remain();
         // reset the last_block_ to the first block
         _last_block = curr;
         return remain_size;
-- 
2.43.0


From 4498a86aea00d795f026bec8379a843a4adbd759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 04/47] fix: place objects created in the arena at the
 alignment of their type

---
 arena/arena.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 9398e78..255d321 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -432,7 +432,7 @@ class Arena
      */
     template <Creatable T, typename... Args>
     [[nodiscard]] auto Create(Args&&... args) noexcept -> T* {
-        char* ptr = allocateAligned(sizeof(T));
+        char* ptr = allocateAligned(sizeof(T), alignment_of<T>());
         if (ptr != nullptr) [[likely]] {
             Construct<T>(ptr, *this, std::forward<Args>(args)...);
             T* result = reinterpret_cast<T*>(ptr);
@@ -467,7 +467,7 @@ class Arena
             return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
-        char* ptr = allocateAligned(size);
+        char* ptr = allocateAligned(size, alignment_of<T>());
         if (ptr != nullptr) [[likely]] {
             T* curr = reinterpret_cast<T*>(ptr);
             for (uint64_t i = 0; i < num; ++i) {
@@ -598,6 +598,14 @@ class Arena
         return AlignUpTo<kByteSize>(n);
     }
 
+    /*
+     * the alignment used for objects of type T.
+     */
+    template <typename T>
+    [[nodiscard, gnu::always_inline]] static constexpr auto alignment_of() noexcept -> uint64_t {
+        return alignof(T) > kByteSize ? alignof(T) : kByteSize;
+    }
+
     template <typename T>
     [[nodiscard, gnu::always_inline]] inline auto RegisterDestructor(T* ptr) noexcept -> bool {
         return RegisterDestructorInternal(ptr, typename ArenaHelper<T>::is_destructor_skippable::type());
-- 
2.43.0


From bd4984acc75d3f4f6a1da1d2675c178016534118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 05/47] fix: destroy the object when Arena::Create cannot
 register its destructor

---
 arena/arena.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 255d321..8552662 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -437,6 +437,9 @@ class Arena
             Construct<T>(ptr, *this, std::forward<Args>(args)...);
             T* result = reinterpret_cast<T*>(ptr);
             if (!RegisterDestructor<T>(result)) [[unlikely]] {
+                if constexpr (!ArenaHelper<T>::is_destructor_skippable::value) {
+                    result->~T();
+                }
                 return nullptr;
             }
             if (_options.on_arena_allocation != nullptr) [[likely]] {
-- 
2.43.0


From 28d87abf8b381660adb2fbe00dcd36a4167699b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 06/47] fix: do not call a missing logger when the arena's
 memory resource cannot be allocated

---
 arena/arena.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 8552662..5e3dd4e 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -552,7 +552,9 @@ class Arena
             _resource = new memory_resource{this};
         } catch (std::bad_alloc& ex) {
             _resource = nullptr;
-            _options.logger_func("new memory resource failed while Arena::init");
+            if (_options.logger_func != nullptr) {
+                _options.logger_func("new memory resource failed while Arena::init");
+            }
         }
         if (_options.on_arena_init != nullptr) [[likely]] {
             _cookie = _options.on_arena_init(this, loc);
-- 
2.43.0


From bdda7ba40871425f1f9c79ed17a29b95718a0f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 07/47] fix: let the memory resource and the hooks follow a
 moved Arena

---
 arena/arena.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 5e3dd4e..2165886 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -159,7 +159,15 @@ class Arena
           _last_block(std::exchange(other._last_block, nullptr)),
           _resource(std::exchange(other._resource, nullptr)),
           _cookie(std::exchange(other._cookie, nullptr)),
-          _space_allocated(std::exchange(other._space_allocated, 0)) {}
+          _space_allocated(std::exchange(other._space_allocated, 0)) {
+        // users of the resource allocate from the new Arena from now on.
+        if (_resource != nullptr) [[likely]] {
+            _resource->rebind(this);
+        }
+        // the moved-from Arena has nothing left to report.
+        other._options.on_arena_reset = nullptr;
+        other._options.on_arena_destruction = nullptr;
+    }
     auto operator=(Arena&&) noexcept -> Arena& = delete;
 
     /*
@@ -329,6 +337,7 @@ class Arena
             Assert(arena != nullptr, "memory_resource should make sure arena is not nullptr");
         };  // NOLINT
         [[nodiscard]] auto get_arena() const -> Arena* { return _arena; }
+        void rebind(Arena* arena) noexcept { _arena = arena; }
 
        protected:
         auto do_allocate(size_t bytes, size_t alignment) noexcept -> void* override {
-- 
2.43.0


From e04fde9e5efe0221b7decc79294e2997281fe786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 08/47] fix: Reset and SpaceRemains of an arena without blocks

---
 arena/arena.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 2165886..6a490ba 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -407,15 +407,17 @@ class Arena
      * After Reset, Arena can be used as the new Arena Object.
      */
     inline auto Reset() noexcept -> uint64_t {
-        // free all blocks except the first block
-        uint64_t all_waste_space = free_blocks_except_head();
+        // free all blocks except the first block, if there is any
+        uint64_t all_waste_space = _last_block != nullptr ? free_blocks_except_head() : 0;
         if (_options.on_arena_reset != nullptr) [[likely]] {
             _options.on_arena_reset(this, _cookie, _space_allocated, all_waste_space);
         }
         // reset all internal status.
         uint64_t reset_size = _space_allocated;
-        _space_allocated = _last_block->size();
-        _last_block->Reset();
+        if (_last_block != nullptr) [[likely]] {
+            _space_allocated = _last_block->size();
+            _last_block->Reset();
+        }
         return reset_size;
     }
 
@@ -431,7 +433,7 @@ class Arena
      * caller can use is function to test whether the Arena will allocate a new block.
      */
     [[nodiscard, gnu::always_inline]] inline auto SpaceRemains() const noexcept -> uint64_t {
-        return _last_block->remain();
+        return _last_block != nullptr ? _last_block->remain() : 0;
     }
 
     /*
-- 
2.43.0


From 9235fdfa3a77e22eecc58f18782fce841883b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 09/47] fix: keep block sizes a multiple of eight so that
 cleanup nodes are aligned

---
 arena/arena.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index 675ccb3..edd04a7 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -62,7 +62,7 @@ auto Arena::newBlock(uint64_t min_bytes, Block* prev_block) noexcept -> Arena::B
     uint64_t required_bytes = min_bytes + kBlockHeaderSize;
     uint64_t size = 0;
 
-    if (min_bytes > std::numeric_limits<uint64_t>::max() - kBlockHeaderSize) {
+    if (min_bytes > std::numeric_limits<uint64_t>::max() - kBlockHeaderSize - kByteSizeMask) {
         auto output_message = fmt::format(
           "newBlock need too many min_bytes : {}, it add kBlockHeaderSize more than uint64_t max.", min_bytes);
         if (_options.logger_func != nullptr) {
@@ -96,11 +96,10 @@ auto Arena::newBlock(uint64_t min_bytes, Block* prev_block) noexcept -> Arena::B
     // on both of them, the block will be monopolized.
     //
     // if size is insufficient, make it sufficient
-    size = std::max(size, required_bytes);
+    // and keep it aligned, because the cleanup nodes are placed from the end of the block.
+    size = align_size(std::max(size, required_bytes));
 
     // allocate the memory by the block_alloc function.
-    // no AlignUpTo8 need, because
-    // normal_block_size and huge_block_size should be power of 2.
     // if the size over the huge_block_size, the block will be monopolized.
     void* mem = _options.block_alloc(size);
     // if mem == nullptr, means no memory available for current os status,
-- 
2.43.0


From 5af326048b6104f99a1282b4dba4a3d14283ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 10/47] fix: pass the place that creates an Arena to the init
 hook

---
 arena/arena.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 6a490ba..c793b04 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -363,16 +363,17 @@ class Arena
     /*
      * Arena constructor copy version, copy the Options content to Arena
      */
-    explicit Arena(const Options& ops) : _options(ops), _last_block(nullptr), _cookie(nullptr), _space_allocated(0ULL) {
-        init(BOOST_CURRENT_LOCATION);
+    explicit Arena(const Options& ops, const boost::source_location& loc = BOOST_CURRENT_LOCATION)
+        : _options(ops), _last_block(nullptr), _cookie(nullptr), _space_allocated(0ULL) {
+        init(loc);
     }
 
     /*
      * Arena constructor move version, just support eXpire Options object.
      */
-    explicit Arena(Options&& ops) noexcept
+    explicit Arena(Options&& ops, const boost::source_location& loc = BOOST_CURRENT_LOCATION) noexcept
         : _options(ops), _last_block(nullptr), _cookie(nullptr), _space_allocated(0ULL) {
-        init(BOOST_CURRENT_LOCATION);
+        init(loc);
     }
 
     /*
-- 
2.43.0


From 1389868cffc3bc4ad8014f98f0baa75a60daec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 11/47] fix: stdb_vector destroys the elements it has moved
 away from (erase, erase_if, insert leaked them)

---
 container/stdb_vector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 072e086..cb8e4d3 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -215,6 +215,7 @@ template <typename T>
     } else if constexpr (std::is_move_constructible_v<T>) {
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            destroy_ptr(src);
         }
         return dst;
     } else {
@@ -243,6 +244,7 @@ template <typename T>
         // call move constructor
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            destroy_ptr(src);
         }
 
     } else {
@@ -498,8 +500,9 @@ class core
             // do not support throwable move constructor.
             static_assert(std::is_nothrow_move_constructible_v<T>);
             // backward move
-            for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                new (dst_end--) T(std::move(*(src_end--)));
+            for (T* src_end = _finish - 1; src_end >= src; --dst_end, --src_end) [[likely]] {
+                new (dst_end) T(std::move(*src_end));
+                destroy_ptr(src_end);
             }
         } else {
             // backward copy
@@ -1043,6 +1046,7 @@ class stdb_vector : public core<T>
                 if (*src != value) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        src->~T();
                     }
                     ++dst;
                 }
@@ -1113,6 +1117,7 @@ class stdb_vector : public core<T>
                 if (!pred(*src)) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        src->~T();
                     }
                     ++dst;
                 }
-- 
2.43.0


From 2326fcc65b065a8bdcb0e71ca1fcd065524889b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 12/47] fix: stdb_vector copies relocatable elements with their
 copy constructor, not bytewise

---
 container/stdb_vector.hpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index cb8e4d3..b537850 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -126,7 +126,8 @@ template <typename T>
     Assert(dst != src, "copy_range should not be called with same dst and src");
     Assert(src < src_end, "src should always before src_end");
     // if is trivial_copyable, use memcpy is faster.
-    if constexpr (IsRelocatable<T>) {
+    // a relocatable type is not always trivially copyable: the copy has to own its own resources.
+    if constexpr (std::is_trivially_copyable_v<T>) {
         std::memcpy(dst, src, (size_t)(src_end - src) * sizeof(T));  // NOLINT
         return dst + (src_end - src);
     } else {
@@ -141,7 +142,8 @@ template <typename T>
     requires std::is_trivially_copyable_v<T> or std::is_nothrow_move_constructible_v<T>
 [[gnu::always_inline]] inline void copy_value(T* __restrict__ dst, T value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
+    // no element lives at dst, so never assign to it unless T is trivial.
+    if constexpr (std::is_trivially_copyable_v<T> && std::is_copy_assignable_v<T>) {
         *dst = value;
     } else {
         static_assert(std::is_nothrow_move_constructible_v<T>);
@@ -153,7 +155,8 @@ template <typename T>
     requires std::is_object_v<T>
 [[gnu::always_inline]] inline void copy_cref(T* __restrict__ dst, const T& value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
+    // no element lives at dst, so never assign to it unless T is trivial.
+    if constexpr (std::is_trivially_copyable_v<T> && std::is_copy_assignable_v<T>) {
         *dst = value;
     } else {
         static_assert(std::is_copy_constructible_v<T>);
@@ -161,15 +164,19 @@ template <typename T>
     }
 }
 
+// the elements of [first, last) are stored one after another, so they can be accessed by a pointer.
 template <typename It>
-concept PointerCompatibleIterator = std::is_pointer_v<It> or std::random_access_iterator<It>;
+concept PointerCompatibleIterator = std::is_pointer_v<It> or std::contiguous_iterator<It> or requires {
+    requires std::same_as<typename It::iterator_category, std::contiguous_iterator_tag>;
+};
 
 template <typename T, typename Iterator>
 [[gnu::always_inline]] inline void copy_from_iterator(T* __restrict__ dst, Iterator first, Iterator last) {
     Assert(dst != nullptr, "copy_from_iterator dst can not be nullptr");
     Assert(first != last, "copy_from_iterator first can not accept empty range means (first == last)");
 
-    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator>) {
+    if constexpr (std::is_trivially_copyable_v<T> and PointerCompatibleIterator<Iterator> and
+                  std::is_same_v<std::remove_cv_t<typename std::iterator_traits<Iterator>::value_type>, T>) {
         if (get_ptr_from_iter(first) < get_ptr_from_iter(last)) [[likely]] {
             std::memcpy(dst, get_ptr_from_iter(first), static_cast<size_t>(last - first) * sizeof(T));
         }
@@ -490,12 +497,10 @@ class core
         // if dst == src, no need to move
         Assert(dst != src, "move_backward should not be called with same dst and src");
 
-        T* dst_end = dst + (_finish - 1 - src);
+        [[maybe_unused]] T* dst_end = dst + (_finish - 1 - src);
         if constexpr (IsRelocatable<T>) {
             // trivially backward move
-            for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                *(dst_end--) = *(src_end--);
-            }
+            std::memmove((void*)dst, (void*)src, (size_t)(_finish - src) * sizeof(T));  // NOLINT
         } else if constexpr (std::is_move_constructible_v<T>) {
             // do not support throwable move constructor.
             static_assert(std::is_nothrow_move_constructible_v<T>);
@@ -1026,13 +1031,14 @@ class stdb_vector : public core<T>
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (*src != value) {
                     if (dst != src) {
-                        *dst = *src;
+                        std::memcpy((void*)dst, (void*)src, sizeof(T));  // NOLINT
                     }
                     ++dst;
                 }
                 // if the *src is equal to the value we want to erase, move forward src only
                 else {
                     ++erased;
+                    destroy_ptr(src);
                 }
                 ++src;
             }
@@ -1097,13 +1103,14 @@ class stdb_vector : public core<T>
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (!pred(*src)) {
                     if (dst != src) {
-                        *dst = *src;
+                        std::memcpy((void*)dst, (void*)src, sizeof(T));  // NOLINT
                     }
                     ++dst;
                 }
                 // if the *src is equal to the value we want to erase, move forward src only
                 else {
                     ++erased;
+                    destroy_ptr(src);
                 }
                 ++src;
             }
-- 
2.43.0


From 0d764cf5de1ac6720fba196b02b39dbfaca70ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 13/47] fix: stdb_vector reports allocation failure and size
 overflow, and stays usable after either

---
 container/stdb_vector.hpp | 68 ++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index b537850..bea8a26 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -264,6 +264,22 @@ template <typename T>
     }
 }
 
+/*
+ * allocate the memory of count elements, if failed, throw std::bad_alloc.
+ */
+template <typename T>
+[[nodiscard]] inline auto allocate_buffer(std::size_t count) -> T* {
+    if (count > kFastVectorMaxSize / sizeof(T)) [[unlikely]] {
+        // the size in bytes would overflow.
+        throw std::bad_array_new_length();
+    }
+    auto* ptr = static_cast<T*>(std::malloc(count * sizeof(T)));
+    if (ptr == nullptr) [[unlikely]] {
+        throw std::bad_alloc();
+    }
+    return ptr;
+}
+
 /*
  * realloc memory, if failed, throw std::bad_alloc, then move the old memory to new memory.
  * if new_size < old_size, the extra elements will be destroyed.
@@ -276,13 +292,10 @@ auto realloc_with_move(T*& __restrict__ ptr, std::size_t old_size, std::size_t n
     // after shrink_to_fit with zero size, the ptr may be nullptr.
     if (ptr == nullptr) {
         Assert(old_size == 0, "ptr is nullptr, but old_size is not zero");
-        return ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
+        return ptr = allocate_buffer<T>(new_size);
     }
     Assert(new_size > 0, "new_size should be larger than zero");
-    auto new_ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
-    if (new_ptr == nullptr) [[unlikely]] {
-        throw std::bad_alloc();
-    }
+    auto new_ptr = allocate_buffer<T>(new_size);
     T* new_finish = move_range_without_overlap(new_ptr, ptr, ptr + std::min(old_size, new_size));
     std::free(ptr);
     ptr = new_ptr;
@@ -312,11 +325,9 @@ class core
    public:
     [[gnu::always_inline]] void allocate(size_type cap) {
         Assert(cap > 0, "allocate cap should be larger than zero");
-        if (_start = static_cast<T*>(std::malloc(cap * sizeof(T))); _start != nullptr) [[likely]] {
-            _edge = _start + cap;
-        } else {
-            throw std::bad_alloc();
-        }
+        // _start should not be changed if the allocation failed.
+        _start = allocate_buffer<T>(cap);
+        _edge = _start + cap;
     }
 
     core() : _start(nullptr), _finish(nullptr), _edge(nullptr) {}
@@ -356,12 +367,8 @@ class core
         auto new_size = other.size();
         if (new_size > capacity()) {
             // if other's size is larger than current capacity, we need to reallocate memory
-            // destroy old data
-            destroy_range(_start, _finish);
-            // free old memory
-            std::free(_start);
-            // allocate new memory
-            allocate(new_size);
+            // allocate new memory, drop the old data only after that.
+            realloc_drop_old_data(new_size);
             // copy data
             _finish = copy_range(_start, other._start, other._finish);
         } else {
@@ -446,10 +453,18 @@ class core
         // backup old _start, _finish, _edge
         auto* old_start = _start;
         auto* old_finish = _finish;
-        allocate(new_cap);
+        auto* new_start = allocate_buffer<T>(new_cap);
+        // the arguments may refer to the old data, so construct the new element first.
+        try {
+            new (new_start + old_size) T(std::forward<Args>(args)...);
+        } catch (...) {
+            std::free(new_start);
+            throw;
+        }
+        _start = new_start;
+        _finish = _start + old_size + 1;
+        _edge = _start + new_cap;
         // copy old data
-        _finish = _start + old_size;
-        new (_finish++) T(std::forward<Args>(args)...);
         if (old_size > 0) {
             (void)move_range_without_overlap(_start, old_start, old_finish);
         }
@@ -459,8 +474,11 @@ class core
     }
 
     [[gnu::always_inline]] auto realloc_drop_old_data(size_type new_cap) -> T* {
-        this->~core();
-        allocate(new_cap);
+        auto* new_start = allocate_buffer<T>(new_cap);
+        destroy_range(_start, _finish);
+        std::free(_start);
+        _start = _finish = new_start;
+        _edge = _start + new_cap;
         return _start;
     }
 
@@ -1273,7 +1291,10 @@ class stdb_vector : public core<T>
         auto size = this->size();
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
         if constexpr (safety == Safety::Safe) {
-            if (size + count > this->capacity()) [[unlikely]] {
+            if (count > this->capacity() - size) [[unlikely]] {
+                if (count > this->max_size() - size) [[unlikely]] {
+                    throw std::bad_array_new_length();
+                }
                 difference_type pos_index = pos_ptr - this->_start;
                 reserve(compute_new_capacity(size + count));
                 pos_ptr = this->_start + pos_index;
@@ -1390,6 +1411,9 @@ class stdb_vector : public core<T>
     }
     [[nodiscard]] auto compute_next_capacity() const -> size_type {
         auto cap = capacity();
+        if (cap < core<T>::kFastVectorInitCapacity) [[unlikely]] {
+            return core<T>::kFastVectorInitCapacity;
+        }
         // NOLINTNEXTLINE
         if (cap < 4096 * 32 / sizeof(T) and cap >= core<T>::kFastVectorInitCapacity) [[likely]] {
             // the capacity is smaller than a page,
-- 
2.43.0


From 0f07b09978102cec3ce6fd3a295815f4fce975c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 14/47] fix: stdb_vector::get_writebuffer reserves room behind
 the existing elements

---
 container/stdb_vector.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index bea8a26..b81b1e8 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -932,8 +932,11 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe>
     [[nodiscard, gnu::always_inline]] auto get_writebuffer(size_type buf_size) -> std::span<T> {
         if constexpr (safety == Safety::Safe) {
-            if (buf_size + this->_finish > this->_edge) {
-                this->realloc_with_old_data(compute_new_capacity(buf_size));
+            if (buf_size > this->capacity() - this->size()) {
+                if (buf_size > this->max_size() - this->size()) [[unlikely]] {
+                    throw std::bad_array_new_length();
+                }
+                this->realloc_with_old_data(compute_new_capacity(this->size() + buf_size));
             }
         }
         auto buf = std::span<T>(this->_finish, buf_size);
-- 
2.43.0


From 4964e0d534c25dfb939fcb9617f03fe7d3e365f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 15/47] fix: stdb_vector accepts empty ranges and zero counts
 in assign and insert

---
 container/stdb_vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index b81b1e8..3828a0b 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -631,7 +631,9 @@ class stdb_vector : public core<T>
         }
         this->_finish = this->_start + count;
         // construct data with value
-        construct_range_with_cref(this->_start, this->_finish, value);
+        if (count > 0) [[likely]] {
+            construct_range_with_cref(this->_start, this->_finish, value);
+        }
     }
 
     template <std::forward_iterator Iterator>
@@ -651,8 +653,8 @@ class stdb_vector : public core<T>
             this->destroy();
             if (count > 0) [[likely]] {
                 copy_from_iterator(this->_start, first, last);
-                this->_finish = this->_start + count;
             }
+            this->_finish = this->_start + count;
         }
     }
 
@@ -1289,10 +1291,12 @@ class stdb_vector : public core<T>
 
     template <Safety safety = Safety::Safe>
     constexpr auto insert(const_iterator pos, size_type count, const_reference value) -> iterator {
-        Assert(count > 0, "count should be larger than 0");
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
         auto size = this->size();
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
+        if (count == 0) [[unlikely]] {
+            return iterator(pos_ptr);
+        }
         if constexpr (safety == Safety::Safe) {
             if (count > this->capacity() - size) [[unlikely]] {
                 if (count > this->max_size() - size) [[unlikely]] {
-- 
2.43.0


From fe8f96a293d6400360d0015d84b3d7535f991ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 16/47] fix: stdb_vector inserts, emplaces and resizes with one
 of its own elements correctly

---
 container/stdb_vector.hpp | 53 +++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 3828a0b..60250c9 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -38,8 +38,10 @@
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
+#include <functional>
 #include <iterator>
 #include <limits>
+#include <memory>
 #include <new>
 #include <span>
 #include <stdexcept>
@@ -1214,6 +1216,12 @@ class stdb_vector : public core<T>
     }
 
     constexpr void resize(size_type count, const_reference value) {
+        if (this->contains_address(value)) [[unlikely]] {
+            // value is an element of this vector, it will not survive the reallocation.
+            const T copied(value);
+            resize(count, copied);
+            return;
+        }
         // no checking count == _size, because very unlikely, and it's not a big deal
         if (count > this->size()) {
             if (count > this->capacity()) {
@@ -1236,6 +1244,11 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe>
     constexpr auto insert(const_iterator pos, const_reference value) -> iterator {
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
+        if (this->contains_address(value)) [[unlikely]] {
+            // value is an element of this vector, it will be moved away.
+            const T copied(value);
+            return insert<safety>(pos, copied);
+        }
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
@@ -1297,6 +1310,11 @@ class stdb_vector : public core<T>
         if (count == 0) [[unlikely]] {
             return iterator(pos_ptr);
         }
+        if (this->contains_address(value)) [[unlikely]] {
+            // value is an element of this vector, it will be moved away.
+            const T copied(value);
+            return insert<safety>(pos, count, copied);
+        }
         if constexpr (safety == Safety::Safe) {
             if (count > this->capacity() - size) [[unlikely]] {
                 if (count > this->max_size() - size) [[unlikely]] {
@@ -1361,6 +1379,11 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(iterator pos, Args&&... args) -> iterator {
         T* pos_ptr = get_ptr_from_iter(pos);
+        if (pos_ptr == this->_finish) [[unlikely]] {
+            return emplace_back<safety>(std::forward<Args>(args)...);
+        }
+        // args may refer to an element of this vector, so use them before any element is moved away.
+        T new_element(std::forward<Args>(args)...);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 difference_type pos_offset = pos_ptr - this->_start;
@@ -1370,22 +1393,23 @@ class stdb_vector : public core<T>
             }
         }
         Assert(not this->full(), "emplace should not be called with full vector");
-        if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
-            return iterator(pos_ptr);
-        }
         if (pos_ptr < this->_finish - 1) [[likely]] {
             this->move_backward(pos_ptr + 1, pos_ptr);
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        new (pos_ptr) T(std::forward<Args>(args)...);
+        construct_from_element(pos_ptr, new_element);
         ++this->_finish;
         return iterator(pos_ptr);
     }
 
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(size_type pos, Args&&... args) -> iterator {
+        if (pos == this->size()) [[unlikely]] {
+            return emplace_back<safety>(std::forward<Args>(args)...);
+        }
+        // args may refer to an element of this vector, so use them before any element is moved away.
+        T new_element(std::forward<Args>(args)...);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 reserve(compute_next_capacity());
@@ -1393,22 +1417,29 @@ class stdb_vector : public core<T>
         }
         Assert(not this->full(), "emplace should not be called with full vector");
         T* pos_ptr = this->_start + pos;
-
-        if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
-            return iterator(pos_ptr);
-        }
         if (pos_ptr < this->_finish - 1) [[likely]] {
             this->move_backward(pos_ptr + 1, pos_ptr);
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        new (pos_ptr) T(std::forward<Args>(args)...);
+        construct_from_element(pos_ptr, new_element);
         ++this->_finish;
         return iterator(pos_ptr);
     }
 
    private:
+    // is the value stored in this vector?
+    [[nodiscard]] auto contains_address(const_reference value) const noexcept -> bool {
+        const T* ptr = std::addressof(value);
+        return !std::less<const T*>{}(ptr, this->_start) && std::less<const T*>{}(ptr, this->_finish);
+    }
+    [[gnu::always_inline]] inline void construct_from_element(T* ptr, T& element) {
+        if constexpr (std::is_move_constructible_v<T>) {
+            new (ptr) T(std::move(element));
+        } else {
+            new (ptr) T(element);
+        }
+    }
     [[nodiscard, gnu::always_inline]] inline auto compute_new_capacity(size_type new_size) const -> size_type {
         Assert(new_size > capacity(), "new_size should larger than old cap, or no need to compute new cap");
         if (auto next_capacity = compute_next_capacity(); next_capacity > new_size) {
-- 
2.43.0


From 186c83b8c417628617445019be868439627dffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 17/47] fix: stdb_vector counts a new element only after it is
 constructed

---
 container/stdb_vector.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 60250c9..63b29c4 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -956,13 +956,15 @@ class stdb_vector : public core<T>
     void push_back(const value_type& value) {
         if constexpr (safety == Safety::Safe) {
             if (!this->full()) [[likely]] {
-                copy_cref(this->_finish++, std::forward<const value_type&>(value));
+                copy_cref(this->_finish, std::forward<const value_type&>(value));
+                ++this->_finish;  // the element exists only if its constructor did not throw
             } else {
                 this->realloc_and_emplace_back(compute_next_capacity(), std::forward<const_reference>(value));
             }
         } else {
             Assert(not this->full(), "push_back should not be called with full vector");
-            copy_cref(this->_finish++, std::forward<const_reference&>(value));
+            copy_cref(this->_finish, std::forward<const_reference&>(value));
+            ++this->_finish;
         }
     }
 
@@ -985,14 +987,16 @@ class stdb_vector : public core<T>
     auto emplace_back(Args&&... args) -> iterator {
         if constexpr (safety == Safety::Safe) {
             if (!this->full()) [[likely]] {
-                this->construct_at(this->_finish++, std::forward<Args>(args)...);
+                this->construct_at(this->_finish, std::forward<Args>(args)...);
+                ++this->_finish;
             } else {
                 this->realloc_and_emplace_back(compute_next_capacity(), std::forward<Args>(args)...);
             }
             return iterator{this->_finish - 1};
         } else {
             Assert(not this->full(), "emplace_back should not be called with full vector");
-            this->construct_at(this->_finish++, std::forward<Args>(args)...);
+            this->construct_at(this->_finish, std::forward<Args>(args)...);
+            ++this->_finish;
             return iterator{this->_finish - 1};
         }
     }
-- 
2.43.0


From d6a7ed63b3191f82d4edf4284b7dbc4b38061156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 18/47] fix: stdb_vector moves overlapping ranges without
 promising the compiler that they do not overlap

---
 container/stdb_vector.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 63b29c4..5ea7047 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -238,8 +238,7 @@ template <typename T>
 }
 
 template <typename T>
-[[gnu::always_inline]] inline void move_range_forward(T* __restrict__ dst, T* __restrict__ src,
-                                                      T* __restrict__ src_end) {
+[[gnu::always_inline]] inline void move_range_forward(T* dst, T* src, T* src_end) {  // the ranges may overlap
     Assert(src != nullptr and dst != nullptr, "src and dst can not be nullptr");
     // src == src_end means no data to move
     // it will occur in erase the whole vector.
@@ -498,19 +497,19 @@ class core
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(T* __restrict__ dst, T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(T* dst, T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(dst, src, _finish);
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(const T* __restrict__ dst, const T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(const T* dst, const T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(const_cast<T*>(dst), const_cast<T*>(src), _finish);  // NOLINT
     }
 
     // move [src, end()) to dst start range from end to front
-    void move_backward(T* __restrict__ dst, T* __restrict__ src) {
+    void move_backward(T* dst, T* src) {
         Assert(dst != nullptr && src != nullptr, "dst and src can not be nullptr");
         // if src == _finish or src == _finish -1, just use move_forward
         Assert(src < (_finish - 1), "src should always before _finish - 1, or can not move backward");
-- 
2.43.0


From 33d07f4e631cd7997c61c1652987a44523692c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 19/47] fix: string inserts a part of itself correctly

---
 string/string.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/string/string.hpp b/string/string.hpp
index c15d40f..9a8ace9 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2047,6 +2047,15 @@ inline auto basic_string<E, T, A, S>::insertImpl(const_iterator i, FwdIterator s
     auto n = std::distance(s1, s2);
     Assert(n >= 0, "insert input range is invalid");
 
+    if constexpr (std::is_same_v<FwdIterator, iterator> || std::is_same_v<FwdIterator, const_iterator>) {
+        // Inserting a part of this string: the characters are about to be moved, insert a copy of them.
+        std::less_equal<const value_type*> le{};
+        if (n != 0 && le(cbegin(), s1) && !le(cend(), s1)) {
+            const basic_string temp(s1, size_type(n), get_allocator());
+            return insert(i, temp.cbegin(), temp.cend());
+        }
+    }
+
     auto oldSize = size();
     store_.expandNoinit(size_t(n), /* expGrowth = */ true);
     auto b = begin();
-- 
2.43.0


From 806d6a167426617545536b9ddf1b6ca1f3829df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 20/47] fix: string keeps its allocator in replace, assignment
 of a character and += of a view

---
 string/string.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 9a8ace9..5a92ee4 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1311,7 +1311,9 @@ class basic_string
     // C++11 21.4.6 modifiers:
     auto operator+=(const basic_string& str) -> basic_string& { return append(str); }
 
-    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& { return append(str); }
+    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& {
+        return append(str.data(), str.size());
+    }
 
     auto operator+=(const value_type* s) -> basic_string& { return append(s); }
 
@@ -1798,7 +1800,7 @@ inline auto basic_string<E, T, A, S>::operator=(value_type c) -> basic_string<E,
     if (empty()) {
         store_.expandNoinit(1);
     } else if (store_.isShared()) {
-        basic_string(1, c).swap(*this);
+        basic_string(1, c, get_allocator()).swap(*this);
         return *this;
     } else {
         store_.shrink(size() - 1);
@@ -2126,7 +2128,7 @@ inline auto basic_string<E, T, A, S>::replaceAliased(iterator i1, iterator i2, F
         return false;
     }
     // Aliased replace, copy to new string
-    basic_string temp;
+    basic_string temp(get_allocator());
     temp.reserve(size() - size_t(i2 - i1) + size_t(std::distance(s1, s2)));
     temp.append(begin(), i1).append(s1, s2).append(i2, end());
     swap(temp);
-- 
2.43.0


From 27baf2c4c12e8d6d6602f81141305c718e56c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 21/47] fix: string contains() looks for the whole view only

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 5a92ee4..e4296de 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1609,7 +1609,7 @@ class basic_string
     }
 
     [[nodiscard]] auto contains(std::basic_string_view<value_type> str) const noexcept -> bool {
-        return find(str.data()) != basic_string::npos;
+        return find(str.data(), 0, str.size()) != basic_string::npos;
     }
 
     [[nodiscard]] auto contains(const basic_string& str) const noexcept -> bool {
-- 
2.43.0


From 315e5502ce4fa1c511173c96d6b9b615da470857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 22/47] fix: std::to_string of a string keeps embedded NULs

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index e4296de..74170e7 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2782,7 +2782,7 @@ struct formatter<stdb::memory::string> : formatter<string_view>
 namespace std {
 
 [[gnu::always_inline, nodiscard]] inline auto to_string(const ::stdb::memory::string& str) noexcept -> std::string {
-    return {str.data()};
+    return {str.data(), str.size()};
 }
 
 }  // namespace std
-- 
2.43.0


From d0da8cda6142b62c64d9062689bd14c875bfd31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 23/47] fix: string throws length_error when the new size
 overflows

---
 string/arena_string.hpp | 8 ++++++--
 string/string.hpp       | 9 +++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 011e18b..81470ed 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -792,7 +792,9 @@ inline auto arena_string_core<Char>::expandNoinit(const size_t delta, bool expGr
     size_t newSz = 0;
     if (category() == Category::isSmall) {
         oldSz = smallSize();
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) {
+            throw(std::length_error(""));
+        }
         if (newSz <= maxSmallSize) {
             setSmallSize(newSz);
             return small_ + oldSz;  // NOLINT
@@ -800,7 +802,9 @@ inline auto arena_string_core<Char>::expandNoinit(const size_t delta, bool expGr
         reserveSmall(expGrowth ? std::max(newSz, 2 * maxSmallSize) : newSz);
     } else {
         oldSz = ml_.size_;  // NOLINT
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) {
+            throw(std::length_error(""));
+        }
         if (newSz > capacity()) [[unlikely]] {
             // ensures not shared
             reserve(expGrowth ? std::max(newSz, 1 + capacity() * 3 / 2) : newSz);
diff --git a/string/string.hpp b/string/string.hpp
index 74170e7..2c0907e 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -955,7 +955,9 @@ inline auto string_core<Char>::expandNoinit(const size_t delta, bool expGrowth,
     size_t newSz = 0;
     if (category() == Category::isSmall) {
         oldSz = smallSize();
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) {
+            throw(std::length_error(""));
+        }
         if (!disableSSO && newSz <= maxSmallSize) {
             setSmallSize(newSz);
             return small_ + oldSz;
@@ -963,7 +965,9 @@ inline auto string_core<Char>::expandNoinit(const size_t delta, bool expGrowth,
         reserveSmall(expGrowth ? std::max(newSz, 2 * maxSmallSize) : newSz, disableSSO);
     } else {
         oldSz = ml_.size_;
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) {
+            throw(std::length_error(""));
+        }
         if (newSz > capacity()) [[unlikely]] {
             // ensures not shared
             reserve(expGrowth ? std::max(newSz, 1 + capacity() * 3 / 2) : newSz);
@@ -2097,6 +2101,7 @@ inline auto basic_string<E, T, A, S>::replaceImplDiscr(iterator i1, iterator i2,
                                                        std::integral_constant<int, 1> /*unused*/)
   -> basic_string<E, T, A, S>& {
     const size_type n1 = size_t(i2 - i1);
+    enforce<std::length_error>(n2 <= max_size() - (size() - n1), "");
     if (n1 > n2) {
         std::fill(i1, i1 + n2, c);
         erase(i1 + n2, i2);
-- 
2.43.0


From b06adb061defe60618f14aba962d03c093f7a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 24/47] fix: short strings read exactly their source

---
 string/arena_string.hpp | 30 ++----------------------------
 string/string.hpp       | 30 ++----------------------------
 2 files changed, 4 insertions(+), 56 deletions(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 81470ed..7cac348 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -611,34 +611,8 @@ inline void arena_string_core<Char>::initSmall(const Char* const data, const siz
     // sizeof(size_t) must be a power of 2
     static_assert((sizeof(size_t) & (sizeof(size_t) - 1)) == 0, "string size assumption violation");
 
-// If data is aligned, use fast word-wise copying. Otherwise,
-// use conservative memcpy.
-// The word-wise path reads bytes which are outside the range of
-// the string, and makes ASan unhappy, so we disable it when
-// compiling with ASan.
-#ifdef NDEBUG
-    if ((reinterpret_cast<size_t>(data) & (sizeof(size_t) - 1)) == 0) {
-        const size_t byteSize = size * sizeof(Char);
-        constexpr size_t wordWidth = sizeof(size_t);
-        switch ((byteSize + wordWidth - 1) / wordWidth) {  // Number of words.
-            case 3:
-                ml_.capacity_ = reinterpret_cast<const size_t*>(data)[2];  // NOLINT
-                [[fallthrough]];
-            case 2:
-                ml_.size_ = reinterpret_cast<const size_t*>(data)[1];  // NOLINT
-                [[fallthrough]];
-            case 1:
-                ml_.data_ = *reinterpret_cast<Char**>(const_cast<Char*>(data));  // NOLINT
-                [[fallthrough]];
-            case 0:
-                break;
-        }
-    } else
-#endif
-    {
-        if (size != 0) {
-            string_detail::podCopy(data, data + size, small_);  // NOLINT(cppcoreguidelines-pro-type-union-access)
-        }
+    if (size != 0) {
+        string_detail::podCopy(data, data + size, small_);  // NOLINT(cppcoreguidelines-pro-type-union-access)
     }
     setSmallSize(size);
 }
diff --git a/string/string.hpp b/string/string.hpp
index 2c0907e..43f08e3 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -781,34 +781,8 @@ inline void string_core<Char>::initSmall(const Char* const data, const size_t si
     // sizeof(size_t) must be a power of 2
     static_assert((sizeof(size_t) & (sizeof(size_t) - 1)) == 0, "string size assumption violation");
 
-// If data is aligned, use fast word-wise copying. Otherwise,
-// use conservative memcpy.
-// The word-wise path reads bytes which are outside the range of
-// the string, and makes ASan unhappy, so we disable it when
-// compiling with ASan.
-#ifdef NDEBUG
-    if ((reinterpret_cast<size_t>(data) & (sizeof(size_t) - 1)) == 0) {
-        const size_t byteSize = size * sizeof(Char);
-        constexpr size_t wordWidth = sizeof(size_t);
-        switch ((byteSize + wordWidth - 1) / wordWidth) {  // Number of words.
-            case 3:
-                ml_.capacity_ = reinterpret_cast<const size_t*>(data)[2];
-                [[fallthrough]];
-            case 2:
-                ml_.size_ = reinterpret_cast<const size_t*>(data)[1];
-                [[fallthrough]];
-            case 1:
-                ml_.data_ = *reinterpret_cast<Char**>(const_cast<Char*>(data));
-                [[fallthrough]];
-            case 0:
-                break;
-        }
-    } else
-#endif
-    {
-        if (size != 0) {
-            string_detail::podCopy(data, data + size, small_);
-        }
+    if (size != 0) {
+        string_detail::podCopy(data, data + size, small_);
     }
     setSmallSize(size);
 }
-- 
2.43.0


From d54fc0af402c508010d79ee7a6b71c44f7092977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 25/47] fix: string members that may allocate let bad_alloc
 through instead of terminating

---
 string/string.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 43f08e3..dc43d90 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -330,7 +330,7 @@ class string_core
 
     explicit string_core(const std::allocator<Char>& /*noused*/) noexcept { reset(); }
 
-    string_core(const string_core& rhs) noexcept {
+    string_core(const string_core& rhs) {
         Assert(&rhs != this, "self copy is not allowed");
         // make sure all copy occur in same thread, or from a unshared string
         // if rhs is a unshared string, set the cpu_ to current thread_id
@@ -443,7 +443,7 @@ class string_core
 
     [[nodiscard]] auto data() noexcept -> Char* { return c_str(); }
 
-    auto mutableData() noexcept -> Char* {
+    auto mutableData() -> Char* {
         switch (category()) {
             case Category::isSmall:
                 return small_;
@@ -708,7 +708,7 @@ class string_core
     }
 
     void copySmall(const string_core& /*rhs*/) noexcept;
-    void copyMedium(const string_core& /*rhs*/) noexcept;
+    void copyMedium(const string_core& /*rhs*/);
     void copyLarge(const string_core& /*rhs*/) noexcept;
 
     void initSmall(const Char* data, size_t size) noexcept;
@@ -744,7 +744,7 @@ inline void string_core<Char>::copySmall(const string_core& rhs) noexcept {
 }
 
 template <class Char>
-void string_core<Char>::copyMedium(const string_core& rhs) noexcept {
+void string_core<Char>::copyMedium(const string_core& rhs) {
     // Medium strings are copied eagerly. Don't forget to allocate
     // one extra Char for the null terminator.
     //    auto const allocSize = goodMallocSize((1 + rhs.ml_.size_) * sizeof(Char));
@@ -1197,25 +1197,25 @@ class basic_string
     operator std::basic_string_view<value_type, traits_type>() const noexcept { return {data(), size()}; }
 
     // C++11 21.4.3 iterators:
-    auto begin() noexcept -> iterator { return store_.mutableData(); }
+    auto begin() -> iterator { return store_.mutableData(); }
 
     [[nodiscard]] auto begin() const noexcept -> const_iterator { return store_.data(); }
 
     [[nodiscard]] auto cbegin() const noexcept -> const_iterator { return begin(); }
 
-    auto end() noexcept -> iterator { return store_.mutableData() + store_.size(); }
+    auto end() -> iterator { return store_.mutableData() + store_.size(); }
 
     [[nodiscard]] auto end() const noexcept -> const_iterator { return store_.data() + store_.size(); }
 
     [[nodiscard]] auto cend() const noexcept -> const_iterator { return end(); }
 
-    auto rbegin() noexcept -> reverse_iterator { return reverse_iterator(end()); }
+    auto rbegin() -> reverse_iterator { return reverse_iterator(end()); }
 
     [[nodiscard]] auto rbegin() const noexcept -> const_reverse_iterator { return const_reverse_iterator(end()); }
 
     [[nodiscard]] auto crbegin() const noexcept -> const_reverse_iterator { return rbegin(); }
 
-    auto rend() noexcept -> reverse_iterator { return reverse_iterator(begin()); }
+    auto rend() -> reverse_iterator { return reverse_iterator(begin()); }
 
     [[nodiscard]] auto rend() const noexcept -> const_reverse_iterator { return const_reverse_iterator(begin()); }
 
@@ -1229,13 +1229,13 @@ class basic_string
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    auto front() noexcept -> value_type& { return *begin(); }
-    auto back() noexcept -> value_type& {
+    auto front() -> value_type& { return *begin(); }
+    auto back() -> value_type& {
         Assert(!empty(), "back() called on empty string");
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    void pop_back() noexcept {
+    void pop_back() {
         Assert(!empty(), "pop_back() called on empty string");
         store_.shrink(1);
     }
@@ -1274,7 +1274,7 @@ class basic_string
     // C++11 21.4.5 element access:
     auto operator[](size_type pos) const noexcept -> const_reference { return *(begin() + pos); }
 
-    auto operator[](size_type pos) noexcept -> reference { return *(begin() + pos); }
+    auto operator[](size_type pos) -> reference { return *(begin() + pos); }
 
     [[nodiscard]] auto at(size_type n) const -> const_reference {
         enforce<std::out_of_range>(n < size(), "");
-- 
2.43.0


From f882e3f72505c5efd0040db6b4ffcc5c76a107ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 26/47] fix: a failed reallocation leaves the string its buffer

---
 string/string.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index dc43d90..c22a4a0 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -103,7 +103,6 @@ inline auto checkedMalloc(size_t size) -> void* {
 inline auto checkedRealloc(void* ptr, size_t size) -> void* {
     auto* new_ptr = realloc(ptr, size);
     if (new_ptr == nullptr) {
-        free(ptr);
         throw std::bad_alloc();
     }
     return new_ptr;
-- 
2.43.0


From 8ca64af37e05b508fbab65c402b81a0045a8a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 27/47] fix: the Arena memory_resource throws bad_alloc instead
 of returning null

---
 arena/arena.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index c793b04..5fe131f 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -340,8 +340,13 @@ class Arena
         void rebind(Arena* arena) noexcept { _arena = arena; }
 
        protected:
-        auto do_allocate(size_t bytes, size_t alignment) noexcept -> void* override {
-            return reinterpret_cast<char*>(_arena->allocateAligned(bytes, std::max(kByteSize, alignment)));
+        auto do_allocate(size_t bytes, size_t alignment) -> void* override {
+            auto* ptr = reinterpret_cast<char*>(_arena->allocateAligned(bytes, std::max(kByteSize, alignment)));
+            if (ptr == nullptr) [[unlikely]] {
+                // callers of a memory_resource never expect a null pointer.
+                throw std::bad_alloc();
+            }
+            return ptr;
         }
 
         void do_deallocate([[maybe_unused]] void* /*unused*/, [[maybe_unused]] size_t /*unused*/,
-- 
2.43.0


From c9df48cde01ea9e691de009ca527396b66ed02bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 28/47] fix: a parser made with a prefix and a conflict handler
 honours the prefix

---
 optparse/optparse.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 1437a65..3a6d255 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -98,8 +98,9 @@ OptionParser::OptionParser(char prefix) : _prefix(prefix) {
 
 OptionParser::OptionParser(stdb::optparse::ConflictHandler handler) : _conflict_handler(handler) {}
 
-OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler)
-    : _prefix{prefix}, _conflict_handler{handler} {}
+OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler) : OptionParser(prefix) {
+    _conflict_handler = handler;
+}
 
 auto OptionParser::extract_option_type(const string& opt) const -> OptionType {
     if (opt.size() > 2 and opt.substr(0, 2) == _long_prefix) {
-- 
2.43.0


From 8ba7344e0df0d12ceeaa7dcc017b15f83d2bb6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 29/47] fix: a rejected option leaves the parser as it was

---
 optparse/optparse.cc | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 3a6d255..b24794e 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -125,26 +125,39 @@ auto OptionParser::extract_arg_type(const string& arg) const -> OptionType {
 }
 
 auto OptionParser::add_option(stdb::optparse::Option option) -> Option& {
-    _options.emplace_back(std::move(option));
-    // register all names for the option.
-    for (const auto& name : _options.back().names()) {
+    // check all names before anything is registered, a rejected option must not stay half registered.
+    const auto& names = option.names();
+    if (names.empty()) {
+        throw std::logic_error("An option needs at least one name");
+    }
+    for (auto it = names.begin(); it != names.end(); ++it) {
+        const auto& name = *it;
         auto type = extract_option_type(name);
+        auto repeated = std::find(names.begin(), it, name) != it;
         if (type == OptionType::ShortOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _short_option_map.contains(name)) {
+            if (_conflict_handler == ConflictHandler::Error and (repeated or _short_option_map.contains(name))) {
                 throw std::logic_error(fmt::format("Short option {} is already registered", name));
             }
-            // if the ConflictHandler is Replace, we will replace the old option with the new one.
-            _short_option_map[name] = _options.size() - 1;
         } else if (type == OptionType::LongOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _long_option_map.contains(name)) {
+            if (_conflict_handler == ConflictHandler::Error and (repeated or _long_option_map.contains(name))) {
                 throw std::logic_error(fmt::format("Long option {} is already registered", name));
             }
-            // if the ConflictHandler is Replace, we will replace the old option with the new one.
-            _long_option_map[name] = _options.size() - 1;
         } else {
             throw std::logic_error(fmt::format("Invalid option name: {}", name));
         }
     }
+    _options.emplace_back(std::move(option));
+    // register all names for the option.
+    for (const auto& name : _options.back().names()) {
+        auto type = extract_option_type(name);
+        if (type == OptionType::ShortOpt) {
+            // if the ConflictHandler is Replace, we will replace the old option with the new one.
+            _short_option_map[name] = _options.size() - 1;
+        } else {
+            // if the ConflictHandler is Replace, we will replace the old option with the new one.
+            _long_option_map[name] = _options.size() - 1;
+        }
+    }
 
     return _options.back();
 }
-- 
2.43.0


From 88c1b5737c61959e5e22c6397692f07451c43300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 30/47] fix: names that no argument can ever match are not
 accepted

---
 optparse/optparse.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index b24794e..b39e772 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -103,6 +103,10 @@ OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler)
 }
 
 auto OptionParser::extract_option_type(const string& opt) const -> OptionType {
+    // parse_args can never find a name that is empty or only the long prefix, ends in blanks, or contains a '='.
+    if (opt.empty() or opt == _long_prefix or opt.find('=') != string::npos or opt != trim_string(opt)) {
+        return OptionType::InvalidOpt;
+    }
     if (opt.size() > 2 and opt.substr(0, 2) == _long_prefix) {
         return OptionType::LongOpt;
     }
-- 
2.43.0


From 85b116a469f9b713f45864be758ac83f561c086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 31/47] fix: a counted option counts as set by the user

---
 optparse/optparse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index c5f3533..a90ba7d 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -105,6 +105,7 @@ class ValueStore
         } else {
             _values[key] = std::get<int>(vit->second) + 1;
         }
+        _usr_set.insert(key);
     }
 
     template <typename T>
-- 
2.43.0


From ae8c5c81d63411ec8aa6a3ba6f050e9dbd9a4500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 32/47] fix: an empty value text yields zero instead of an
 indeterminate value

---
 optparse/optparse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index b39e772..2be5563 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -293,7 +293,7 @@ concept OptValue = std::is_same_v<T, bool> or std::is_same_v<T, int32_t> or std:
 
 template <OptValue T>
 auto parse_string(const string& str) -> T {
-    T val;
+    T val{};
     std::stringstream sst(str.data());
     sst >> val;
     return val;
-- 
2.43.0


From 890acf991bf58a17828b07ddb88d45f3e7523029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 33/47] fix: options of a copied or moved parser do not refer
 to the original

---
 optparse/optparse.cc  | 6 +++---
 optparse/optparse.hpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 2be5563..5ccea33 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -72,11 +72,11 @@ inline auto split(std::string_view str, std::string_view delimiter, bool skip_em
     return tokens;
 }
 
-auto Option::validate() -> bool {
+auto Option::validate(const OptionParser& parser) -> bool {
     // if _dest is empty, we will use the first long option name as the _dest.
     if (_dest.empty()) {
         for (const auto& nnn : _names) {
-            if (_parser.extract_option_type(nnn) == OptionType::LongOpt) {
+            if (parser.extract_option_type(nnn) == OptionType::LongOpt) {
                 _dest = nnn.substr(2);
                 break;
             }
@@ -237,7 +237,7 @@ auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char**
     // once parse args, clear all invalid_args
     _invalid_args.clear();
     for (auto& opt : _options) {
-        if (not opt.validate()) {
+        if (not opt.validate(*this)) {
             throw std::logic_error(fmt::format("incomplete option: {}", opt.names().front()));
         }
     }
diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index a90ba7d..9572628 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -163,7 +163,6 @@ enum Type : uint8_t
 class Option
 {
    private:
-    const OptionParser& _parser;
     vector<string> _names;
     Action _action = Action::Null;
     Type _type = Type::String;
@@ -174,7 +173,7 @@ class Option
     string _env = "";
 
    public:
-    explicit Option(const OptionParser& opp) : _parser(opp) {}
+    explicit Option(const OptionParser& /*opp*/) {}
     ~Option() = default;
 
     Option(const Option&) = default;
@@ -182,9 +181,10 @@ class Option
     auto operator=(const Option&) -> Option& = delete;
     auto operator=(Option&&) noexcept -> Option& = delete;
 
-    Option(const OptionParser& opp, vector<string> names) : _parser(opp), _names(std::move(names)) {}
+    Option(const OptionParser& /*opp*/, vector<string> names) : _names(std::move(names)) {}
 
-    auto validate() -> bool;
+    // the parser is the one that holds the option now: it may have been copied or moved since the option was added.
+    auto validate(const OptionParser& parser) -> bool;
 
     [[nodiscard]] inline auto names() const -> const vector<string>& { return _names; }
 
-- 
2.43.0


From 0a9cc1cb6c6335030fa0fe85ffcef8403e824b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 34/47] fix: the help of a parser without options does not read
 beyond its lines

---
 optparse/optparse.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 5ccea33..6367396 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -626,7 +626,8 @@ auto OptionParser::format_help() -> string {
       std::max_element(line_and_helps.begin(), line_and_helps.end(),
                        [](auto& lhs, auto& rhs) -> bool { return rhs.first.size() > lhs.first.size(); });
 
-    const auto align_size = max_line->first.size() + 1;
+    // there may be no option at all.
+    const auto align_size = max_line == line_and_helps.end() ? 1 : max_line->first.size() + 1;
     auto content = fmt::format("{} \n options: \n", format_usage());
     for (const auto& [line, help] : line_and_helps) {
         const int space_width = align_size - line.size();
-- 
2.43.0


From f584ff6dee15ae28cc5a6c0e27edcb9a9d591c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 35/47] fix: parsing keeps the version of the parser

---
 optparse/optparse.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 6367396..740f62f 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -203,7 +203,10 @@ auto OptionParser::add_usage_option(string usage_msg) -> void {
 }
 
 auto OptionParser::add_version_option(stdb::optparse::string version_msg) -> void {
-    _version = std::move(version_msg);
+    if (not version_msg.empty()) {
+        // parse_args adds the option without a message, the version set before stays.
+        _version = std::move(version_msg);
+    }
     auto short_version_name = fmt::format("{}v", _prefix);
     auto long_version_name = fmt::format("{}version", _long_prefix);
     if (not _short_option_map.contains(short_version_name) and not _long_option_map.contains(long_version_name)) {
-- 
2.43.0


From c94ab2f3f858e1d5011ff6ee4de2de3a36e1081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 36/47] fix: generated usage and version texts are not kept as
 if they had been set

---
 optparse/optparse.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 740f62f..98f34a0 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -576,27 +576,28 @@ auto to_upper(string& input) -> void {
 
 auto OptionParser::format_usage() -> string {
     if (_usage.empty()) {
-        // enrich the _usage message.
-        _usage = fmt::format("usage: {}", _program);
+        // enrich the usage message, every time: options may be added later.
+        auto usage_msg = fmt::format("usage: {}", _program);
         for (auto& opt : _options) {
             if (opt.type() == Type::Bool) {
                 auto upper_dest = opt.dest();
                 to_upper(upper_dest);
                 auto opt_msg = fmt::format(" [{} {}]", opt.names().front(), upper_dest);
-                _usage += std::string_view{opt_msg};
+                usage_msg += std::string_view{opt_msg};
             } else {
                 auto opt_msg = fmt::format(" [{}]", opt.names().front());
-                _usage += std::string_view{opt_msg};
+                usage_msg += std::string_view{opt_msg};
             }
         }
-        _usage += "\n";
+        usage_msg += "\n";
+        return usage_msg;
     }
     return _usage;
 }
 
 auto OptionParser::format_verison() -> string {
     if (_version.empty()) {
-        _version = fmt::format("{} : {}", _program, "0.0.0");
+        return fmt::format("{} : {}", _program, "0.0.0");
     }
     return _version;
 }
-- 
2.43.0


From 5b25fe7035f96e1291abfc97a0126d0592b4dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 37/47] fix: getline leaves a string alone when the stream is
 not ready and keeps the stream's state

---
 string/string.hpp | 57 +++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index c22a4a0..70dc07a 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1898,30 +1898,43 @@ inline auto basic_string<E, T, A, S>::getlineImpl(istream_type& is, value_type d
   typename basic_string<E, T, A, S>::istream_type& {
     Invariant checker(*this);
 
-    clear();
-    size_t size = 0;
-    while (true) {
-        size_t avail = capacity() - size;
-        // string has 1 byte extra capacity for the null terminator,
-        // and getline null-terminates the read string.
-        is.getline(store_.expandNoinit(avail), avail + 1, delim);
-        size += is.gcount();
-
-        if (is.bad() || is.eof() || !is.fail()) {
-            // Done by either failure, end of file, or normal read.
-            if (!is.bad() && !is.eof()) {
-                --size;  // gcount() also accounts for the delimiter.
+    size_type extracted = 0;
+    std::ios_base::iostate err = std::ios_base::goodbit;
+    typename istream_type::sentry sentry(is, true);
+    if (sentry) {
+        try {
+            clear();
+            auto got = is.rdbuf()->sgetc();
+            while (extracted < max_size() && !T::eq_int_type(got, T::eof()) &&
+                   !T::eq_int_type(got, T::to_int_type(delim))) {
+                push_back(T::to_char_type(got));
+                ++extracted;
+                got = is.rdbuf()->snextc();
+            }
+            if (T::eq_int_type(got, T::eof())) {
+                err |= std::ios_base::eofbit;
+            } else if (T::eq_int_type(got, T::to_int_type(delim))) {
+                ++extracted;
+                is.rdbuf()->sbumpc();
+            } else {
+                err |= std::ios_base::failbit;
+            }
+        } catch (...) {
+            try {
+                is.setstate(std::ios_base::badbit);
+            } catch (...) {
+                // the exception being handled is the one to pass on
+            }
+            if (is.exceptions() & std::ios_base::badbit) {
+                throw;
             }
-            resize(size);
-            break;
         }
-
-        Assert(size == this->size(), "getlineImpl() failed to walk through the total str size");
-        Assert(size == capacity(), "getlineImpl() failed to walk through the total capacity");
-        // Start at minimum allocation 63 + terminator = 64.
-        reserve(std::max<size_t>(63, 3 * size / 2));
-        // Clear the error so we can continue reading.
-        is.clear();
+    }
+    if (extracted == 0) {
+        err |= std::ios_base::failbit;
+    }
+    if (err) {
+        is.setstate(err);
     }
     return is;
 }
-- 
2.43.0


From 8df7945c2d04a0c63a7c4746c506c03be61ddf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 38/47] fix: reading a string resets the width, classifies any
 character and reports the end as std::string does

---
 string/string.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 70dc07a..4e884b7 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -35,6 +35,7 @@
 #include <istream>           // for basic_istream, basic_ostream, __ost...
 #include <iterator>          // for forward_iterator_tag, input_iterato...
 #include <limits>            // for numeric_limits
+#include <locale>            // for isspace
 #include <memory>            // for allocator_traits
 #include <new>               // for bad_alloc, operator new
 #include <optional>
@@ -2518,18 +2519,17 @@ inline auto operator>>(
             n = int64_t(str.max_size());
         }
         str.erase();
-        for (auto got = is.rdbuf()->sgetc(); extracted != static_cast<size_t>(n); ++extracted) {
-            if (got == T::eof()) {
-                err |= _istream_type::eofbit;
-                is.width(0);
-                break;
-            }
-            if (isspace(got)) {
-                break;
-            }
-            str.push_back(got);
+        auto got = is.rdbuf()->sgetc();
+        while (extracted != static_cast<size_t>(n) && !T::eq_int_type(got, T::eof()) &&
+               !std::isspace(T::to_char_type(got), is.getloc())) {
+            str.push_back(T::to_char_type(got));
+            ++extracted;
             got = is.rdbuf()->snextc();
         }
+        if (extracted != static_cast<size_t>(n) && T::eq_int_type(got, T::eof())) {
+            err |= _istream_type::eofbit;
+        }
+        is.width(0);
     }
     if (!extracted) {
         err |= _istream_type::failbit;
-- 
2.43.0


From f06f77ec015aa57def9cda4a470974bec0d19df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 39/47] fix: strings of 2 GiB and more are written completely

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 4e884b7..c70c0a7 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2567,7 +2567,7 @@ inline auto operator<<(
     // MSVC doesn't define __ostream_insert
     os.write(str.data(), static_cast<streamsize>(str.size()));
 #else
-    std::__ostream_insert(os, str.data(), int32_t(str.size()));
+    std::__ostream_insert(os, str.data(), static_cast<std::streamsize>(str.size()));
 #endif
     return os;
 }
-- 
2.43.0


From 17dbf7f4ad830c0d0c4a12c81f2f170d9f3a3c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:35 +0000
Subject: [PATCH 40/47] fix: the metrics report does not divide by zero when
 nothing was counted

---
 arena/metrics.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index 2a66f49..f26b6c1 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -146,14 +146,15 @@ struct GlobalArenaMetrics
         for (uint64_t i = 0, count = 0; i < kAllocBucketSize; i++) {
             count += alloc_size_bucket_counter.at(i);
             // count < alloc_count
-            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i), count * kPercentMagic / alloc_count);
+            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i),
+                               alloc_count == 0 ? 0 : count * kPercentMagic / alloc_count);
         }
 
         str += "\nLifetime distribution:";
         for (uint64_t i = 0, count = 0; i < kLifetimeBucketSize; i++) {
             count += destruct_lifetime_bucket_counter.at(i);
             str += fmt::format("\n  le={}ms: {}", destruct_lifetime_bucket.at(i).count(),
-                               (count * kPercentMagic) / destruct_count);
+                               destruct_count == 0 ? 0 : (count * kPercentMagic) / destruct_count);
         }
 
         str += "\nArena Location/AllocSize:";  // TODO(longqimin): re-evaluate str.reserve size
-- 
2.43.0


From 0ca8a3a40fbda694098978220a80f17a41d1341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:56 +0000
Subject: [PATCH 41/47] fix: a vector does not count elements whose
 construction threw

---
 container/stdb_vector.hpp | 86 ++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 38 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 5ea7047..6922d2a 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -91,6 +91,23 @@ template <typename Iterator>
     }
 }
 
+template <typename T>
+[[gnu::always_inline]] inline void destroy_range(T* __restrict__ begin, T* __restrict__ end) noexcept;
+
+// construct elements in [first, last) one by one, if a constructor throws, the constructed ones are destroyed.
+template <typename T, typename Construct>
+[[gnu::always_inline]] inline void construct_each(T* first, T* last, Construct construct) {
+    T* current = first;
+    try {
+        for (; current != last; ++current) {
+            construct(current);
+        }
+    } catch (...) {
+        destroy_range(first, current);
+        throw;
+    }
+}
+
 template <typename T>
 [[gnu::always_inline]] inline void construct_range(T* __restrict__ first, T* __restrict__ last) {
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
@@ -99,9 +116,7 @@ template <typename T>
         // set zero to all bytes.
         std::memset(first, 0, static_cast<size_t>(last - first) * sizeof(T));
     } else {
-        for (; first != last; ++first) {
-            new (first) T();
-        }
+        construct_each(first, last, [](T* ptr) { new (ptr) T(); });
     }
 }
 
@@ -115,9 +130,7 @@ template <typename T>
     if constexpr (sizeof(T) == sizeof(char)) {
         std::memset(first, static_cast<int>(value), static_cast<size_t>(last - first) * sizeof(T));
     } else {
-        for (; first != last; ++first) {
-            new (first) T(value);
-        }
+        construct_each(first, last, [&value](T* ptr) { new (ptr) T(value); });
     }
 }
 
@@ -133,10 +146,9 @@ template <typename T>
         std::memcpy(dst, src, (size_t)(src_end - src) * sizeof(T));  // NOLINT
         return dst + (src_end - src);
     } else {
-        for (; src != src_end; ++src, ++dst) {
-            new (dst) T(*src);
-        }
-        return dst;
+        T* dst_end = dst + (src_end - src);
+        construct_each(dst, dst_end, [&src](T* ptr) { new (ptr) T(*src++); });
+        return dst_end;
     }
 }
 
@@ -183,8 +195,14 @@ template <typename T, typename Iterator>
             std::memcpy(dst, get_ptr_from_iter(first), static_cast<size_t>(last - first) * sizeof(T));
         }
     } else {
-        for (; first != last; ++first, ++dst) {
-            new (dst) T(*first);
+        T* current = dst;
+        try {
+            for (; first != last; ++first, ++current) {
+                new (current) T(*first);
+            }
+        } catch (...) {
+            destroy_range(dst, current);
+            throw;
         }
     }
 }
@@ -327,7 +345,7 @@ class core
     [[gnu::always_inline]] void allocate(size_type cap) {
         Assert(cap > 0, "allocate cap should be larger than zero");
         // _start should not be changed if the allocation failed.
-        _start = allocate_buffer<T>(cap);
+        _start = _finish = allocate_buffer<T>(cap);
         _edge = _start + cap;
     }
 
@@ -344,14 +362,11 @@ class core
         }
     }
 
-    core(const core& rhs) {
+    // delegates, so the destructor frees the buffer if copying an element throws.
+    core(const core& rhs) : core() {
         if (rhs.size() > 0) [[likely]] {
             allocate(rhs.size());
-            auto size = rhs.size();
-            copy_range(_start, rhs._start, rhs._finish);
-            _finish = _start + size;
-        } else {
-            _start = _finish = _edge = nullptr;
+            _finish = copy_range(_start, rhs._start, rhs._finish);
         }
     }
 
@@ -376,11 +391,10 @@ class core
             // if other's size is smaller than current capacity, we can just copy data
             // destroy old data
             destroy_range(_start, _finish);
+            _finish = _start;
             // copy data
             if (new_size > 0) [[likely]] {
                 _finish = copy_range(_start, other._start, other._finish);
-            } else {
-                _finish = _start;
             }
             // _edge is not changed
         }
@@ -571,15 +585,17 @@ class stdb_vector : public core<T>
     /*
      * constructor with capacity
      */
-    constexpr explicit stdb_vector(std::size_t size) : core<T>(size, size) {
+    constexpr explicit stdb_vector(std::size_t size) : core<T>(0, size) {
         if (size > 0) {
-            construct_range(this->_start, this->_finish);
+            construct_range(this->_start, this->_edge);
+            this->_finish = this->_edge;
         }
     }
 
-    constexpr stdb_vector(std::size_t size, const T& value) : core<T>(size, size) {
+    constexpr stdb_vector(std::size_t size, const T& value) : core<T>(0, size) {
         if (size > 0) {
-            construct_range_with_cref(this->_start, this->_finish, value);
+            construct_range_with_cref(this->_start, this->_edge, value);
+            this->_finish = this->_edge;
         }
     }
 
@@ -628,13 +644,13 @@ class stdb_vector : public core<T>
         } else {
             // if count is smaller than current capacity, we can just copy data
             // clear old data
-            this->destroy();
+            this->clear();
         }
-        this->_finish = this->_start + count;
         // construct data with value
         if (count > 0) [[likely]] {
-            construct_range_with_cref(this->_start, this->_finish, value);
+            construct_range_with_cref(this->_start, this->_start + count, value);
         }
+        this->_finish = this->_start + count;
     }
 
     template <std::forward_iterator Iterator>
@@ -651,7 +667,7 @@ class stdb_vector : public core<T>
         } else {
             // if count is smaller than current capacity, we can just copy data
             // clear old data
-            this->destroy();
+            this->clear();
             if (count > 0) [[likely]] {
                 copy_from_iterator(this->_start, first, last);
             }
@@ -1203,13 +1219,9 @@ class stdb_vector : public core<T>
             }
             if constexpr (safety == Safety::Safe) {
                 // construct the new elements
-                auto* old_end = this->_finish;
-                this->_finish = this->_start + count;
-                construct_range(old_end, this->_finish);
-            } else {
-                this->_finish = this->_start + count;
+                construct_range(this->_finish, this->_start + count);
             }
-
+            this->_finish = this->_start + count;
         } else {
             // destroy the elements that are not needed anymore
             auto* old_end = this->_finish;
@@ -1230,10 +1242,8 @@ class stdb_vector : public core<T>
             if (count > this->capacity()) {
                 this->realloc_with_old_data(count);
             }
-            // destroy the elements that are not needed anymore
-            auto* old_end = this->_finish;
+            construct_range_with_cref(this->_finish, this->_start + count, value);
             this->_finish = this->_start + count;
-            construct_range_with_cref(old_end, this->_finish, value);
         } else {
             // destroy the elements that are not needed anymore
             auto* old_end = this->_finish;
-- 
2.43.0


From 65820ea5a9138ac3e0a99ff6d5c0ae4523094724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 42/47] fix: insert into a vector closes the gap again when
 constructing an element throws

---
 container/stdb_vector.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 6922d2a..9b4705e 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -551,6 +551,19 @@ class core
         }
     }
 
+    // construct count new elements at pos, the elements behind pos were moved away for them.
+    // if that throws, move them back.
+    template <typename Construct>
+    [[gnu::always_inline]] void construct_in_gap(T* pos, size_type count, Construct construct) {
+        try {
+            construct();
+        } catch (...) {
+            move_range_forward(pos, pos + count, _finish + count);
+            throw;
+        }
+        _finish += count;
+    }
+
     template <typename... Args>
     [[gnu::always_inline]] void construct_at(T* __restrict__ ptr, Args&&... args) {
         new ((void*)ptr) T(std::forward<Args>(args)...);  // NOLINT
@@ -1273,7 +1286,8 @@ class stdb_vector : public core<T>
         Assert(not this->full(), "insert should not be called with full vector");
         // insert value to the end pos
         if (pos_ptr == this->_finish) [[unlikely]] {
-            copy_cref(this->_finish++, value);
+            copy_cref(this->_finish, value);
+            ++this->_finish;
             return iterator(pos_ptr);
         }
         // move all elements after pos to the right, with backward direction, because have overlap
@@ -1282,8 +1296,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        copy_cref(pos_ptr, value);
-        ++this->_finish;
+        this->construct_in_gap(pos_ptr, 1, [&] { copy_cref(pos_ptr, value); });
         return iterator(pos_ptr);
     }
 
@@ -1346,8 +1359,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_backward(pos_ptr + count, pos_ptr);
         }
-        construct_range_with_cref(pos_ptr, pos_ptr + count, value);
-        this->_finish += count;
+        this->construct_in_gap(pos_ptr, count, [&] { construct_range_with_cref(pos_ptr, pos_ptr + count, value); });
         return iterator(pos_ptr);
     }
 
@@ -1378,8 +1390,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_backward(pos_ptr + count, pos_ptr);
         }
-        copy_from_iterator(pos_ptr, first, last);
-        this->_finish += size_to_insert;
+        this->construct_in_gap(pos_ptr, size_to_insert, [&] { copy_from_iterator(pos_ptr, first, last); });
         return iterator(pos_ptr);
     }
 
-- 
2.43.0


From 20626a250b2251e5202401421777b14a96d831f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:20 +0000
Subject: [PATCH 43/47] fix: stdb_vector allocates buffers aligned for
 over-aligned element types

---
 container/stdb_vector.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 9b4705e..95f376f 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -35,6 +35,7 @@
 #include <fmt/ranges.h>
 
 #include <concepts>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
@@ -292,7 +293,13 @@ template <typename T>
         // the size in bytes would overflow.
         throw std::bad_array_new_length();
     }
-    auto* ptr = static_cast<T*>(std::malloc(count * sizeof(T)));
+    T* ptr = nullptr;
+    if constexpr (alignof(T) > alignof(std::max_align_t)) {
+        // malloc does not align for T.
+        ptr = static_cast<T*>(std::aligned_alloc(alignof(T), count * sizeof(T)));
+    } else {
+        ptr = static_cast<T*>(std::malloc(count * sizeof(T)));
+    }
     if (ptr == nullptr) [[unlikely]] {
         throw std::bad_alloc();
     }
-- 
2.43.0


From dbcfc2cdaa683a0c1dbc327bb3fbf5c5d6dde940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:48 +0000
Subject: [PATCH 44/47] fix: stdb_vector copies one-byte class elements by
 their constructor

---
 container/stdb_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 95f376f..d3f3b6e 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -128,7 +128,7 @@ template <typename T>
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
     Assert(first < last, "first should always before last");
     static_assert(std::is_copy_constructible_v<T>);
-    if constexpr (sizeof(T) == sizeof(char)) {
+    if constexpr (sizeof(T) == sizeof(char) && std::is_scalar_v<T>) {
         std::memset(first, static_cast<int>(value), static_cast<size_t>(last - first) * sizeof(T));
     } else {
         construct_each(first, last, [&value](T* ptr) { new (ptr) T(value); });
-- 
2.43.0


From 3baa7762d1f681fd7daf9877296b1708244d80a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:45 +0000
Subject: [PATCH 45/47] fix: stdb_vector value-initializes elements whose
 initial value is not all zero bytes

---
 container/stdb_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index d3f3b6e..b28fd49 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -113,7 +113,8 @@ template <typename T>
 [[gnu::always_inline]] inline void construct_range(T* __restrict__ first, T* __restrict__ last) {
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
     Assert(first < last, "first should always before last");
-    if constexpr (IsZeroInitable<T>) {
+    // not every value-initialized element is all zero bytes: pointers to members and unions need not be.
+    if constexpr (ZeroInitable<T>::value || std::is_arithmetic_v<T> || std::is_enum_v<T> || std::is_pointer_v<T>) {
         // set zero to all bytes.
         std::memset(first, 0, static_cast<size_t>(last - first) * sizeof(T));
     } else {
-- 
2.43.0


From df2104c517a40450ec6817f7488116d05a9c264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:58 +0000
Subject: [PATCH 46/47] fix: stdb_vectors of unordered floating point elements
 compare as unordered

---
 container/stdb_vector.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index b28fd49..654b061 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -34,6 +34,7 @@
 #include <fmt/format.h>
 #include <fmt/ranges.h>
 
+#include <compare>
 #include <concepts>
 #include <cstddef>
 #include <cstdint>
@@ -1514,22 +1515,29 @@ auto operator==(const stdb_vector<T>& lhs, const stdb_vector<T>& rhs) -> bool {
 }
 
 template <typename T>
-auto operator<=>(const stdb_vector<T>& lhs, const stdb_vector<T>& rhs) -> std::strong_ordering {
+auto operator<=>(const stdb_vector<T>& lhs, const stdb_vector<T>& rhs) {
+    // floating point elements may be unordered.
+    using ordering = std::conditional_t<std::is_floating_point_v<T>, std::partial_ordering, std::strong_ordering>;
     for (std::size_t i = 0; i < std::min(lhs.size(), rhs.size()); ++i) {
         if (lhs[i] < rhs[i]) {
-            return std::strong_ordering::less;
+            return ordering::less;
         }
         if (lhs[i] > rhs[i]) {
-            return std::strong_ordering::greater;
+            return ordering::greater;
+        }
+        if constexpr (std::is_floating_point_v<T>) {
+            if (lhs[i] != rhs[i]) {
+                return ordering::unordered;
+            }
         }
     }
     if (lhs.size() < rhs.size()) {
-        return std::strong_ordering::less;
+        return ordering::less;
     }
     if (lhs.size() > rhs.size()) {
-        return std::strong_ordering::greater;
+        return ordering::greater;
     }
-    return std::strong_ordering::equal;
+    return ordering::equivalent;
 }
 
 }  // namespace stdb::container
-- 
2.43.0


From 07dc4b93b4e078a339cffbf84885483eb60a3b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:45 +0000
Subject: [PATCH 47/47] fix: std::erase on stdb_vector compares with the given
 value, not with its conversion

---
 container/stdb_vector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 654b061..b75c6ce 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -1551,7 +1551,12 @@ constexpr void swap(stdb::container::stdb_vector<T>& lhs, stdb::container::stdb_
 
 template <class T, class U>
 constexpr auto erase(stdb::container::stdb_vector<T>& vec, const U& value) -> std::size_t {
-    return vec.erase(value);
+    if constexpr (std::is_same_v<T, U>) {
+        return vec.erase(value);
+    } else {
+        // compare with the value itself, converting it to T may change it.
+        return vec.erase_if([&value](const T& element) { return element == value; });
+    }
 }
 
 template <class T, class Predicate>
-- 
2.43.0

