From 09964b81c82b70abecc2b82187b6201aa7637464 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 01/61] fix: Map::insert and Map::emplace count an already
 present key twice

---
 rpp/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index d3ddf09..b106a74 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -163,6 +163,7 @@ struct Map {
         Libc::memset(data_, 0, capacity_ * sizeof(Slot));
         usable_ = (capacity_ / 4) * 3;
         shift_ = Math::ctlz(capacity_) + 1;
+        length_ = 0;
 
         for(u64 i = 0; i < old_capacity; i++) {
             if(old_data[i].hash != Slot::EMPTY)
@@ -219,7 +220,6 @@ struct Map {
         if(full()) grow();
         Slot slot{rpp::move(key), rpp::move(value)};
         Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
         return placed.data->second;
     }
 
@@ -229,7 +229,6 @@ struct Map {
         if(full()) grow();
         Slot slot{rpp::move(key), V{rpp::forward<Args>(args)...}};
         Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
         return placed.data->second;
     }
 
@@ -412,6 +411,7 @@ private:
             u64 hash = data_[idx].hash;
             if(hash == Slot::EMPTY) {
                 data_[idx] = rpp::move(slot);
+                length_ += 1;
                 return placement ? *placement : data_[idx];
             }
             if(hash == slot.hash && data_[idx].data->first == slot.data->first) {
-- 
2.43.0


From 63fcf2a7879ef29a83613c9b0260ed8eb7122ef4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 02/61] fix: Map never grows past a capacity of two and then
 probes forever

---
 rpp/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/map.h b/rpp/map.h
index b106a74..41d96ec 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -192,7 +192,7 @@ struct Map {
         return length_ == 0;
     }
     [[nodiscard]] bool full() const noexcept {
-        return length_ == usable_;
+        return length_ >= usable_;
     }
     [[nodiscard]] u64 length() const noexcept {
         return length_;
-- 
2.43.0


From d713479f01370114ac3a6c84a92497332297f90c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:17 +0000
Subject: [PATCH 03/61] fix: Map::reserve keeps a capacity that is not a power
 of two, so clones lose entries

---
 rpp/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/map.h b/rpp/map.h
index 41d96ec..67f2e92 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -158,7 +158,7 @@ struct Map {
         Slot* old_data = data_;
         u64 old_capacity = capacity_;
 
-        capacity_ = new_capacity;
+        capacity_ = Math::next_pow2(new_capacity);
         data_ = reinterpret_cast<Slot*>(A::alloc(capacity_ * sizeof(Slot)));
         Libc::memset(data_, 0, capacity_ * sizeof(Slot));
         usable_ = (capacity_ / 4) * 3;
-- 
2.43.0


From 0a3614725cd60a41ef398c76cec21926bbce9f95 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:17 +0000
Subject: [PATCH 04/61] fix: Map::get_or_insert of an rvalue key does not
 compile

---
 rpp/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/map.h b/rpp/map.h
index 67f2e92..f6c639d 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -329,7 +329,7 @@ struct Map {
         requires Default_Constructable<V>
     {
         Opt<Ref<V>> entry = try_get(key);
-        if(entry) {
+        if(entry.ok()) {
             return **entry;
         }
         return insert(rpp::move(key), V{});
-- 
2.43.0


From 13db1c3f68420645c163eb9ded1d4ffb2e5212b6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:17 +0000
Subject: [PATCH 05/61] fix: Map::get with a string view reads a null table
 when the map is empty

---
 rpp/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index f6c639d..4d2b6aa 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -289,8 +289,8 @@ struct Map {
     [[nodiscard]] V& get(String_View key) noexcept
         requires(Any_String<K>)
     {
-        if(auto idx = try_get_<String_View>(key); idx.ok()) {
-            return data_[*idx].data->second;
+        if(Opt<Ref<V>> value = try_get(key); value.ok()) {
+            return **value;
         }
         die("Failed to find key %!", key);
     }
-- 
2.43.0


From 0e7b96a2aa658777ef2b53ac5e36c307ba9122be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:17 +0000
Subject: [PATCH 06/61] fix: Queue::clone drops the last element of
 non-trivially copyable types

---
 rpp/queue.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index d036f02..d49de5e 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -77,16 +77,14 @@ struct Queue {
         if constexpr(Trivially_Copyable<T>) {
             Libc::memcpy(ret.data_, data_, capacity_ * sizeof(T));
         } else if constexpr(Clone<T>) {
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
+            for(u64 n = 0; n < length_; n++) {
+                u64 i = idx_at(n);
                 new(&ret.data_[i]) T{data_[i].clone()};
             }
         } else {
             static_assert(Copy_Constructable<T>);
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
+            for(u64 n = 0; n < length_; n++) {
+                u64 i = idx_at(n);
                 new(&ret.data_[i]) T{data_[i]};
             }
         }
-- 
2.43.0


From 059894630b52f73c5a30326971fc56558b676fd5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:17 +0000
Subject: [PATCH 07/61] fix: Queue::erase_first shifts the remaining elements
 the wrong way

---
 rpp/queue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index d49de5e..da9a936 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -242,13 +242,13 @@ struct Queue {
         u64 idx = start_idx();
         u64 consumed = 0;
         while(consumed < length_) {
-            u64 next = idx == capacity_ - 1 ? 0 : idx + 1;
+            u64 prev = idx == 0 ? capacity_ - 1 : idx - 1;
             if(found) {
                 if constexpr(Trivially_Movable<T>) {
-                    Libc::memcpy(&data_[next], &data_[idx], sizeof(T));
+                    Libc::memcpy(&data_[prev], &data_[idx], sizeof(T));
                 } else {
                     static_assert(Move_Constructable<T>);
-                    new(&data_[next]) T{rpp::move(data_[idx])};
+                    new(&data_[prev]) T{rpp::move(data_[idx])};
                 }
             } else if(data_[idx] == value) {
                 if constexpr(Must_Destruct<T>) {
@@ -256,7 +256,7 @@ struct Queue {
                 }
                 found = true;
             }
-            idx = next;
+            idx = idx == capacity_ - 1 ? 0 : idx + 1;
             consumed++;
         }
         if(found) {
-- 
2.43.0


From 8f01af9bea607e5018d6d6fc85de0ef36120b39d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 08/61] fix: String equality ignores everything after an
 embedded NUL

---
 rpp/string0.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rpp/string0.h b/rpp/string0.h
index d692e42..d0679b9 100644
--- a/rpp/string0.h
+++ b/rpp/string0.h
@@ -198,8 +198,7 @@ template<Allocator A>
 
 [[nodiscard]] constexpr bool operator==(String_View l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 [[nodiscard]] constexpr bool operator<(String_View l, String_View r) noexcept {
@@ -214,22 +213,19 @@ template<Allocator A>
 template<Allocator A>
 [[nodiscard]] bool operator==(const String<A>& l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator B>
 [[nodiscard]] bool operator==(String_View l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
 [[nodiscard]] bool operator==(const String<A>& l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
-- 
2.43.0


From a1fbe0fee815c8cd2431d9cab7f42a41e6b6737d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 09/61] fix: bounds checks of String::write and Slice::sub wrap
 around

---
 rpp/slice.h   | 2 +-
 rpp/string1.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rpp/slice.h b/rpp/slice.h
index f2f2058..ff1c062 100644
--- a/rpp/slice.h
+++ b/rpp/slice.h
@@ -114,7 +114,7 @@ struct Slice {
     }
 
     [[nodiscard]] constexpr Slice sub(u64 start, u64 length) const noexcept {
-        assert(start + length <= length_);
+        assert(start <= length_ && length <= length_ - start);
         return Slice{data_ + start, length};
     }
 
diff --git a/rpp/string1.h b/rpp/string1.h
index bdf9b9c..71ebbb8 100644
--- a/rpp/string1.h
+++ b/rpp/string1.h
@@ -120,14 +120,14 @@ template<Allocator A>
 template<Allocator A>
 template<Allocator B>
 [[nodiscard]] u64 String<A>::write(u64 i, const String<B>& text) noexcept {
-    assert(i + text.length() <= length_);
+    assert(i <= length_ && text.length() <= length_ - i);
     Libc::memcpy(data_ + i, text.data(), text.length());
     return i + text.length();
 }
 
 template<Allocator A>
 [[nodiscard]] u64 String<A>::write(u64 i, String_View text) noexcept {
-    assert(i + text.length() <= length_);
+    assert(i <= length_ && text.length() <= length_ - i);
     Libc::memcpy(data_ + i, text.data(), text.length());
     return i + text.length();
 }
-- 
2.43.0


From 7fea7fee0c317ecfde2afffbc590e48768cc2bc4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 10/61] fix: Heap::top of an empty heap reads out of bounds

---
 rpp/heap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/heap.h b/rpp/heap.h
index dc65cae..fe6ab72 100644
--- a/rpp/heap.h
+++ b/rpp/heap.h
@@ -174,9 +174,11 @@ struct Heap {
     }
 
     [[nodiscard]] T& top() noexcept {
+        assert(length_ > 0);
         return data_[0];
     }
     [[nodiscard]] const T& top() const noexcept {
+        assert(length_ > 0);
         return data_[0];
     }
 
-- 
2.43.0


From 9538b712a118217aac33366e28d7fc81824f9e38 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 11/61] fix: Stream::unit scales by powers of ten instead of
 two

---
 rpp/rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 7a3a5f1..00324f0 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -29,11 +29,11 @@ struct Stream {
     [[nodiscard]] constexpr F unit() noexcept {
         if constexpr(Same<F, f32>) {
             u64 r = operator()() >> 40;
-            return r * 1e-24f;
+            return r * 0x1p-24f;
         } else {
             static_assert(Same<F, f64>);
             u64 r = operator()() >> 11;
-            return r * 1e-53;
+            return r * 0x1p-53;
         }
     }
 
-- 
2.43.0


From b43df072d04d79f5c8adbcb3682921673292114c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 12/61] fix: Stream::range of a signed type can return values
 below the minimum

---
 rpp/rng.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpp/rng.h b/rpp/rng.h
index 00324f0..37d0d86 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -57,6 +57,10 @@ struct Stream {
 
     template<Int I>
     [[nodiscard]] constexpr I range(I min, I max) noexcept {
+        if constexpr(Signed_Int<I>) {
+            u64 r = static_cast<u64>(max) - static_cast<u64>(min);
+            return static_cast<I>(static_cast<u64>(min) + operator()() % r);
+        }
         I r = max - min;
         return min + static_cast<I>(operator()()) % r;
     }
-- 
2.43.0


From 2b099406d302c14b95980b80994218bd648d362d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 13/61] fix: Stream::shuffle of an empty vector runs out of
 bounds

---
 rpp/rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 37d0d86..489fd18 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -44,7 +44,7 @@ struct Stream {
 
     template<Allocator A, Move_Constructable T>
     constexpr void shuffle(Vec<T, A>& vec) noexcept {
-        for(u64 i = 0; i < vec.length() - 1; i++) {
+        for(u64 i = 0; i + 1 < vec.length(); i++) {
             u64 j = range(i, vec.length());
             swap(vec[i], vec[j]);
         }
-- 
2.43.0


From b2bed847b96bd15caa739507be364a80a9879aed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 14/61] fix: parse_string loses a final one-character word and
 keeps trailing whitespace

---
 rpp/format1.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rpp/format1.h b/rpp/format1.h
index 3b8215f..5b8e41b 100644
--- a/rpp/format1.h
+++ b/rpp/format1.h
@@ -60,14 +60,15 @@ template<Enum E>
         start++;
     }
     for(u64 i = start; i < s.length(); i++) {
-        if((i + 1 == s.length() && start < i)) {
-            return Opt<Pair<String_View, String_View>>{Pair{s.sub(start, i + 1), String_View{}}};
-        }
         if(ascii::is_whitespace(s[i])) {
             return Opt<Pair<String_View, String_View>>{
                 Pair{s.sub(start, i), s.sub(i + 1, s.length())}};
         }
     }
+    if(start < s.length()) {
+        return Opt<Pair<String_View, String_View>>{
+            Pair{s.sub(start, s.length()), String_View{}}};
+    }
     return {};
 }
 
-- 
2.43.0


From 8ac425ed51dbb7c751a79c7675f013d59ea56815 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 15/61] fix: moving a Range_Allocator destroys its mutex and
 keeps using it

---
 rpp/range_allocator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index d65b490..3e8e8b0 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -30,9 +30,10 @@ struct Range_Allocator {
         *this = rpp::move(src);
     }
     Range_Allocator& operator=(Range_Allocator&& src) noexcept {
-        this->~Range_Allocator();
+        Thread::Lock lock(mutex);
+        Thread::Lock src_lock(src.mutex);
 
-        Thread::Lock lock(src.mutex);
+        reset();
 
         stats = src.stats;
         src.stats = {};
-- 
2.43.0


From ca48af728afeb8b99d914b4d32fe312f80a70595 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 16/61] fix: Range_Allocator::allocate accepts sizes whose sum
 with the padding wraps around

---
 rpp/range_allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index 3e8e8b0..f3daaf1 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -91,7 +91,7 @@ struct Range_Allocator {
         u64 padding = 0;
         while(block) {
             padding = Math::align(block->start, alignment) - block->start;
-            if(block->size >= size + padding) {
+            if(block->size >= padding && block->size - padding >= size) {
                 break;
             }
             block = block->next_free;
-- 
2.43.0


From b7858ceef66b26287376c7ea940101335b44ac7e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 17/61] fix: Flag::block dies when its wait is interrupted by a
 signal

---
 rpp/pos/thread_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index 949ec4a..bee9967 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -161,7 +161,7 @@ void Flag::block() noexcept {
 #ifdef RPP_OS_LINUX
     while(__atomic_load_n(&value_, __ATOMIC_SEQ_CST) == 0) {
         int ret = syscall(SYS_futex, &value_, FUTEX_WAIT, 0, NULL, NULL, 0);
-        if(ret == -1 && errno != EAGAIN) {
+        if(ret == -1 && errno != EAGAIN && errno != EINTR) {
             die("Failed to wait on futex: %", error(errno));
         }
     }
-- 
2.43.0


From ba3b705bbd7ffbe81266e491729bdf68e93a2d3c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 18/61] fix: move assigning a Lock never unlocks the mutex it
 held

---
 rpp/thread0.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpp/thread0.h b/rpp/thread0.h
index efe4e20..b64babe 100644
--- a/rpp/thread0.h
+++ b/rpp/thread0.h
@@ -64,7 +64,12 @@ struct Lock {
     Lock& operator=(const Lock&) noexcept = delete;
 
     Lock(Lock&& src) noexcept = default;
-    Lock& operator=(Lock&& src) noexcept = default;
+    Lock& operator=(Lock&& src) noexcept {
+        if(this == &src) return *this;
+        if(mutex_.ok()) mutex_->unlock();
+        mutex_ = rpp::move(src.mutex_);
+        return *this;
+    }
 
 private:
     Ref<Mutex> mutex_;
-- 
2.43.0


From 016f921addccf34e502fa02b4aa3f038bbdfea94 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 19/61] fix: Event::wait_any dies when its wait is interrupted
 by a signal

---
 rpp/pos/async_pos.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index 7877f47..e72d4f1 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -1,6 +1,7 @@
 
 #include "../async.h"
 
+#include <errno.h>
 #include <sys/epoll.h>
 #include <sys/eventfd.h>
 #include <unistd.h>
@@ -83,7 +84,10 @@ void Event::reset() const noexcept {
     }
 
     epoll_event ev;
-    int ret = epoll_wait(epfd, &ev, 1, -1);
+    int ret;
+    do {
+        ret = epoll_wait(epfd, &ev, 1, -1);
+    } while(ret == -1 && errno == EINTR);
 
     if(ret == -1) {
         die("Failed to wait on events: %", Log::sys_error());
-- 
2.43.0


From f864e8560972888e0dd43a52bc73b184c1d55e5f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 20/61] fix: Event::reset dies when the event is not signalled

---
 rpp/pos/async_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index e72d4f1..893e970 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -57,7 +57,7 @@ void Event::signal() const noexcept {
 void Event::reset() const noexcept {
     u64 value = 0;
     int ret = read(fd, &value, sizeof(value));
-    if(ret == -1) {
+    if(ret == -1 && errno != EAGAIN) {
         die("Failed to reset event: %", Log::sys_error());
     }
 }
-- 
2.43.0


From 1eaf05715968f25026c399898dab5e7bfbb1fa86 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 21/61] fix: Event::try_wait never reports a signalled event

---
 rpp/pos/async_pos.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index 893e970..712f270 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -2,6 +2,7 @@
 #include "../async.h"
 
 #include <errno.h>
+#include <poll.h>
 #include <sys/epoll.h>
 #include <sys/eventfd.h>
 #include <unistd.h>
@@ -63,7 +64,17 @@ void Event::reset() const noexcept {
 }
 
 [[nodiscard]] bool Event::try_wait() const noexcept {
-    return false;
+    pollfd poll_fd = {};
+    poll_fd.fd = fd;
+    poll_fd.events = static_cast<short>(mask);
+    int ret;
+    do {
+        ret = poll(&poll_fd, 1, 0);
+    } while(ret == -1 && errno == EINTR);
+    if(ret == -1) {
+        die("Failed to poll event: %", Log::sys_error());
+    }
+    return ret > 0;
 }
 
 [[nodiscard]] u64 Event::wait_any(Slice<Event> events) noexcept {
-- 
2.43.0


From 9dcef43aa688f9e450b802d3f43c660ea991d3c2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 22/61] fix: re-entering a profile scope counts and times its
 parent

---
 rpp/impl/profile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index f1b40a3..fe6258c 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -134,8 +134,8 @@ void Profile::Frame_Profile::enter(Log::Location loc) noexcept {
         nodes.push(Timing_Node::make(rpp::move(loc), current_node));
         current_node = child_idx;
     } else {
-        node.begin = timestamp();
-        node.calls++;
+        nodes[current_node].begin = timestamp();
+        nodes[current_node].calls++;
     }
 }
 
-- 
2.43.0


From 259548ffc8ea110058319ec97678750daf50c1d6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 23/61] fix: finalizing a thread's profile frees its frames
 while they are in use

---
 rpp/profile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/profile.h b/rpp/profile.h
index 62d2369..dc26bd1 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -141,9 +141,9 @@ private:
         }
 
         void finalize() noexcept {
-            frames = {};
             if(during_frame) Profile::end_frame();
             if(registered) Profile::unregister_thread();
+            frames = {};
         }
 
         bool ready() noexcept {
-- 
2.43.0


From f55c10a479fae4bad7cb48f064d6073f7db17592 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 24/61] fix: move assigning a Udp leaks its socket

---
 rpp/pos/net_pos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 5da2d9b..c83e7f7 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -44,6 +44,8 @@ Udp::Udp(Udp&& src) noexcept {
 }
 
 Udp& Udp::operator=(Udp&& src) noexcept {
+    if(this == &src) return *this;
+    this->~Udp();
     fd = src.fd;
     src.fd = -1;
     return *this;
-- 
2.43.0


From bee01308345bf1100a787941b31eb9d031d8758b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 25/61] fix: Net::Address reads past the end of an unterminated
 string view

---
 rpp/pos/net_pos.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index c83e7f7..0def885 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -12,9 +12,12 @@ Address::Address(String_View address, u16 port) noexcept {
     sockaddr_.sin_family = AF_INET;
     sockaddr_.sin_port = htons(port);
 
-    if(inet_pton(AF_INET, reinterpret_cast<const char*>(address.data()),
-                 &sockaddr_.sin_addr.s_addr) != 1) {
-        die("Failed to create address: %", Log::sys_error());
+    Region(R) {
+        auto terminated = address.terminate<Mregion<R>>();
+        if(inet_pton(AF_INET, reinterpret_cast<const char*>(terminated.data()),
+                     &sockaddr_.sin_addr.s_addr) != 1) {
+            die("Failed to create address: %", Log::sys_error());
+        }
     }
 }
 
-- 
2.43.0


From 0b3c69f8c70d25d2ff3ab04dca313c3557b0184b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 26/61] fix: Udp::recv reports a failed receive as a packet of
 length 2^64-1

---
 rpp/pos/net_pos.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 0def885..56c72fd 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -71,6 +71,9 @@ void Udp::bind(Address address) noexcept {
     if(ret == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
         return Opt<Data>{};
     }
+    if(ret == -1) {
+        die("Failed to receive packet: %", Log::sys_error());
+    }
 
     return Opt{Data{static_cast<u64>(ret), rpp::move(src)}};
 }
-- 
2.43.0


From 9d8a68f666a0c2893a7e25b2184b52134d42b746 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 27/61] fix: Pool has no workers and divides by zero on a
 single hardware thread

---
 rpp/pool.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/pool.h b/rpp/pool.h
index eaad301..5434fc2 100644
--- a/rpp/pool.h
+++ b/rpp/pool.h
@@ -52,7 +52,8 @@ template<Allocator A = Alloc>
 struct Pool {
 
     explicit Pool() noexcept
-        : thread_states{Vec<Thread_State, A>::make(Thread::hardware_threads() - 1)} {
+        : thread_states{Vec<Thread_State, A>::make(
+              Math::max(Thread::hardware_threads(), static_cast<u64>(2)) - 1)} {
 
         u64 h_threads = Thread::hardware_threads();
         u64 n_threads = thread_states.length();
@@ -61,7 +62,7 @@ struct Pool {
         for(u64 i = 0; i < n_threads; i++) {
             threads.push(Thread::Thread([this, i, h_threads] {
                 u64 j = i < h_threads / 2 ? i * 2 : (i - h_threads / 2) * 2 + 1;
-                Thread::set_affinity(j);
+                Thread::set_affinity(j % h_threads);
                 do_work(i);
             }));
         }
-- 
2.43.0


From a5ecfbd9be3c3403d46678d371536470bb2446cf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 28/61] fix: move assignment reads freed memory when the source
 lives inside the destination's contents

---
 rpp/box.h     |  5 +++--
 rpp/heap.h    | 13 +++++++------
 rpp/map.h     | 21 +++++++++++----------
 rpp/opt.h     |  8 +++++---
 rpp/queue.h   | 17 +++++++++--------
 rpp/rc.h      | 10 ++++++----
 rpp/variant.h |  7 ++++---
 rpp/vec.h     | 13 +++++++------
 8 files changed, 52 insertions(+), 42 deletions(-)

diff --git a/rpp/box.h b/rpp/box.h
index c8c2c2d..4781f8c 100644
--- a/rpp/box.h
+++ b/rpp/box.h
@@ -40,9 +40,10 @@ struct Box {
         src.data_ = null;
     }
     Box& operator=(Box&& src) noexcept {
-        this->~Box();
-        data_ = src.data_;
+        T* data = src.data_;
         src.data_ = null;
+        this->~Box();
+        data_ = data;
         return *this;
     }
 
diff --git a/rpp/heap.h b/rpp/heap.h
index fe6ab72..c941a00 100644
--- a/rpp/heap.h
+++ b/rpp/heap.h
@@ -44,13 +44,14 @@ struct Heap {
         src.capacity_ = 0;
     }
     Heap& operator=(Heap&& src) noexcept {
+        Heap tmp{rpp::move(src)};
         this->~Heap();
-        data_ = src.data_;
-        length_ = src.length_;
-        capacity_ = src.capacity_;
-        src.data_ = null;
-        src.length_ = 0;
-        src.capacity_ = 0;
+        data_ = tmp.data_;
+        length_ = tmp.length_;
+        capacity_ = tmp.capacity_;
+        tmp.data_ = null;
+        tmp.length_ = 0;
+        tmp.capacity_ = 0;
         return *this;
     }
 
diff --git a/rpp/map.h b/rpp/map.h
index 4d2b6aa..06ee4e5 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -108,17 +108,18 @@ struct Map {
         src.shift_ = 0;
     }
     Map& operator=(Map&& src) noexcept {
+        Map tmp{rpp::move(src)};
         this->~Map();
-        data_ = src.data_;
-        capacity_ = src.capacity_;
-        length_ = src.length_;
-        usable_ = src.usable_;
-        shift_ = src.shift_;
-        src.data_ = null;
-        src.capacity_ = 0;
-        src.length_ = 0;
-        src.usable_ = 0;
-        src.shift_ = 0;
+        data_ = tmp.data_;
+        capacity_ = tmp.capacity_;
+        length_ = tmp.length_;
+        usable_ = tmp.usable_;
+        shift_ = tmp.shift_;
+        tmp.data_ = null;
+        tmp.capacity_ = 0;
+        tmp.length_ = 0;
+        tmp.usable_ = 0;
+        tmp.shift_ = 0;
         return *this;
     }
 
diff --git a/rpp/opt.h b/rpp/opt.h
index 0342799..27c8fd6 100644
--- a/rpp/opt.h
+++ b/rpp/opt.h
@@ -52,9 +52,10 @@ struct Opt {
     Opt& operator=(Opt&& src) noexcept
         requires Move_Constructable<T>
     {
+        Opt tmp{rpp::move(src)};
         clear();
-        if(src.ok_) {
-            value_.construct(rpp::move(*src.value_));
+        if(tmp.ok_) {
+            value_.construct(rpp::move(*tmp.value_));
             ok_ = true;
         }
         return *this;
@@ -63,8 +64,9 @@ struct Opt {
     Opt& operator=(T&& value) noexcept
         requires Move_Constructable<T>
     {
+        T tmp{rpp::move(value)};
         clear();
-        value_.construct(rpp::move(value));
+        value_.construct(rpp::move(tmp));
         ok_ = true;
         return *this;
     }
diff --git a/rpp/queue.h b/rpp/queue.h
index da9a936..cd49f34 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -45,15 +45,16 @@ struct Queue {
         src.capacity_ = 0;
     }
     Queue& operator=(Queue&& src) noexcept {
+        Queue tmp{rpp::move(src)};
         this->~Queue();
-        data_ = src.data_;
-        length_ = src.length_;
-        last_ = src.last_;
-        capacity_ = src.capacity_;
-        src.data_ = null;
-        src.length_ = 0;
-        src.last_ = 0;
-        src.capacity_ = 0;
+        data_ = tmp.data_;
+        length_ = tmp.length_;
+        last_ = tmp.last_;
+        capacity_ = tmp.capacity_;
+        tmp.data_ = null;
+        tmp.length_ = 0;
+        tmp.last_ = 0;
+        tmp.capacity_ = 0;
         return *this;
     }
 
diff --git a/rpp/rc.h b/rpp/rc.h
index 1012d2c..efac45d 100644
--- a/rpp/rc.h
+++ b/rpp/rc.h
@@ -81,9 +81,10 @@ struct Rc {
         src.data_ = null;
     }
     Rc& operator=(Rc&& src) noexcept {
-        drop();
-        data_ = src.data_;
+        Data* data = src.data_;
         src.data_ = null;
+        drop();
+        data_ = data;
         return *this;
     }
 
@@ -184,9 +185,10 @@ struct Arc {
         src.data_ = null;
     }
     Arc& operator=(Arc&& src) noexcept {
-        drop();
-        data_ = src.data_;
+        Data* data = src.data_;
         src.data_ = null;
+        drop();
+        data_ = data;
         return *this;
     }
 
diff --git a/rpp/variant.h b/rpp/variant.h
index d4700eb..a9f04fa 100644
--- a/rpp/variant.h
+++ b/rpp/variant.h
@@ -61,12 +61,13 @@ struct Variant {
     Variant& operator=(Variant&& src) noexcept
         requires(Move_Constructable<Ts> && ...)
     {
+        Variant tmp{rpp::move(src)};
         destruct();
         if constexpr((Trivially_Movable<Ts> && ...)) {
-            index_ = src.index_;
-            Libc::memcpy(data_, src.data_, size);
+            index_ = tmp.index_;
+            Libc::memcpy(data_, tmp.data_, size);
         } else {
-            src.match(Overload{[this](Ts& v) { this->construct(rpp::move(v)); }...});
+            tmp.match(Overload{[this](Ts& v) { this->construct(rpp::move(v)); }...});
         }
         return *this;
     }
diff --git a/rpp/vec.h b/rpp/vec.h
index 9bde9cc..4d94ea4 100644
--- a/rpp/vec.h
+++ b/rpp/vec.h
@@ -53,13 +53,14 @@ struct Vec {
         src.capacity_ = 0;
     }
     Vec& operator=(Vec&& src) noexcept {
+        Vec tmp{rpp::move(src)};
         this->~Vec();
-        data_ = src.data_;
-        length_ = src.length_;
-        capacity_ = src.capacity_;
-        src.data_ = null;
-        src.length_ = 0;
-        src.capacity_ = 0;
+        data_ = tmp.data_;
+        length_ = tmp.length_;
+        capacity_ = tmp.capacity_;
+        tmp.data_ = null;
+        tmp.length_ = 0;
+        tmp.capacity_ = 0;
         return *this;
     }
 
-- 
2.43.0


From 7aac4fdefeba4c4ba0537b8f6a8eaac05fd0176d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 29/61] fix: unsubscribing an unknown log token deadlocks on
 the log lock

---
 rpp/impl/log.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rpp/impl/log.cpp b/rpp/impl/log.cpp
index 11dc892..88d0257 100644
--- a/rpp/impl/log.cpp
+++ b/rpp/impl/log.cpp
@@ -185,11 +185,15 @@ subscribe(Function<void(Level, Thread::Id, Time, Location, String_View)> f) noex
 }
 
 void unsubscribe(Token token) noexcept {
-    Thread::Lock lock(g_log_data.lock);
-    g_log_data.callbacks.erase(token);
-    if(g_log_data.callbacks.empty()) {
-        g_log_data.callbacks.~Map();
+    bool found = false;
+    {
+        Thread::Lock lock(g_log_data.lock);
+        found = g_log_data.callbacks.try_erase(token);
+        if(g_log_data.callbacks.empty()) {
+            g_log_data.callbacks.~Map();
+        }
     }
+    if(!found) die("Failed to unsubscribe token %!", token);
 }
 
 } // namespace Log
-- 
2.43.0


From 882b28f43481c3c4cc657ba77a9c991d2309aac4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 30/61] fix: overrunning the region depth recurses until the
 stack overflows instead of being reported

---
 rpp/impl/alloc.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rpp/impl/alloc.cpp b/rpp/impl/alloc.cpp
index e5efca6..a3c9280 100644
--- a/rpp/impl/alloc.cpp
+++ b/rpp/impl/alloc.cpp
@@ -19,6 +19,7 @@ static_assert(sizeof(Chunk) == 24);
 
 constexpr u64 FIRST_CHUNK_SIZE = Math::KB(1);
 constexpr u64 MAX_REGION_DEPTH = 128;
+constexpr u64 LOG_REGION_DEPTH = 8; // Reporting an overrun opens regions itself
 
 struct First_Chunk {
     Chunk chunk = {null, FIRST_CHUNK_SIZE - sizeof(Chunk), 0};
@@ -27,8 +28,8 @@ struct First_Chunk {
 static_assert(sizeof(First_Chunk) == FIRST_CHUNK_SIZE);
 
 thread_local u64 current_region = 0;
-thread_local u64 region_offsets[MAX_REGION_DEPTH] = {};
-thread_local Region region_brands[MAX_REGION_DEPTH] = {};
+thread_local u64 region_offsets[MAX_REGION_DEPTH + LOG_REGION_DEPTH] = {};
+thread_local Region region_brands[MAX_REGION_DEPTH + LOG_REGION_DEPTH] = {};
 thread_local First_Chunk first_chunk;
 thread_local Chunk* chunks = &first_chunk.chunk;
 
@@ -64,7 +65,7 @@ void Region_Allocator::free(Region brand, void*) noexcept {
 
 void Region_Allocator::begin(Region brand) noexcept {
     current_region++;
-    assert(current_region < MAX_REGION_DEPTH);
+    assert(current_region != MAX_REGION_DEPTH);
     region_offsets[current_region] = region_offsets[current_region - 1];
     region_brands[current_region] = brand;
 }
-- 
2.43.0


From ab78b6f414f5fef36fec5399e8d34f6b445c90c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 31/61] fix: Files::write opens the file read-only, so it never
 writes

---
 rpp/pos/files_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 1a9af7f..b9144a3 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -42,7 +42,7 @@ namespace rpp::Files {
     int fd = -1;
     Region(R) {
         auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
+        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC, 0666);
     }
 
     if(fd == -1) {
-- 
2.43.0


From 4d90f68956b0e733ae66396912237bb77f3627ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 32/61] fix: Async::write creates files with unspecified
 permissions

---
 rpp/pos/asyncio_pos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 8748b85..cb89782 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -47,7 +47,8 @@ namespace rpp::Async {
     int fd = -1;
     Region(R) {
         auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC);
+        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC,
+                  0666);
     }
 
     if(fd == -1) {
-- 
2.43.0


From 6e1404197dbb0d0903511adb62802efaa7076a12 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 33/61] fix: failed file reads and writes leak their descriptor

---
 rpp/pos/asyncio_pos.cpp | 2 ++
 rpp/pos/files_pos.cpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index cb89782..2acfe46 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -35,6 +35,7 @@ namespace rpp::Async {
 
     if(::read(fd, data.data(), full_size) == -1) {
         warn("Failed to read file %: %", path_, Log::sys_error());
+        close(fd);
         co_return {};
     }
 
@@ -58,6 +59,7 @@ namespace rpp::Async {
 
     if(::write(fd, data.data(), data.length()) == -1) {
         warn("Failed to write file %: %", path_, Log::sys_error());
+        close(fd);
         co_return false;
     }
 
diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index b9144a3..8e9018d 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -30,6 +30,7 @@ namespace rpp::Files {
 
     if(::read(fd, data.data(), full_size) == -1) {
         warn("Failed to read file %: %", path_, Log::sys_error());
+        close(fd);
         return {};
     }
 
@@ -52,6 +53,7 @@ namespace rpp::Files {
 
     if(::write(fd, data.data(), data.length()) == -1) {
         warn("Failed to write file %: %", path_, Log::sys_error());
+        close(fd);
         return false;
     }
 
-- 
2.43.0


From c3c56476f464e12fb54945664873c3e75a9e2169 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 34/61] fix: reading a directory or an unseekable file stops
 the process

---
 rpp/pos/asyncio_pos.cpp | 6 +++++-
 rpp/pos/files_pos.cpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 2acfe46..1daea25 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -28,7 +28,11 @@ namespace rpp::Async {
     off_t full_size = lseek(fd, 0, SEEK_END);
     lseek(fd, 0, SEEK_SET);
 
-    assert(full_size <= UINT32_MAX);
+    if(full_size < 0 || full_size > UINT32_MAX) {
+        warn("Failed to get the size of file %: %", path_, Log::sys_error());
+        close(fd);
+        co_return {};
+    }
 
     Vec<u8, Files::Alloc> data(static_cast<u64>(full_size));
     data.resize(static_cast<u64>(full_size));
diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 8e9018d..73df13a 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -23,7 +23,11 @@ namespace rpp::Files {
     off_t full_size = lseek(fd, 0, SEEK_END);
     lseek(fd, 0, SEEK_SET);
 
-    assert(full_size <= RPP_UINT32_MAX);
+    if(full_size < 0 || full_size > RPP_UINT32_MAX) {
+        warn("Failed to get the size of file %: %", path_, Log::sys_error());
+        close(fd);
+        return {};
+    }
 
     Vec<u8, Alloc> data(static_cast<u64>(full_size));
     data.resize(static_cast<u64>(full_size));
-- 
2.43.0


From 6164db14163ad5d37626917b3f1678a9a70da218 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 35/61] fix: interrupted or partial file reads and writes are
 taken for complete ones

---
 rpp/pos/asyncio_pos.cpp | 31 +++++++++++++++++++++++--------
 rpp/pos/files_pos.cpp   | 31 +++++++++++++++++++++++--------
 2 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 1daea25..ddc67ac 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -2,6 +2,7 @@
 #include "../asyncio.h"
 #include "../files.h"
 
+#include <errno.h>
 #include <fcntl.h>
 #include <sys/epoll.h>
 #include <sys/stat.h>
@@ -37,11 +38,19 @@ namespace rpp::Async {
     Vec<u8, Files::Alloc> data(static_cast<u64>(full_size));
     data.resize(static_cast<u64>(full_size));
 
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        close(fd);
-        co_return {};
+    u64 done = 0;
+    while(done < data.length()) {
+        i64 ret = ::read(fd, data.data() + done, data.length() - done);
+        if(ret == -1 && errno == EINTR) continue;
+        if(ret == -1) {
+            warn("Failed to read file %: %", path_, Log::sys_error());
+            close(fd);
+            co_return {};
+        }
+        if(ret == 0) break;
+        done += ret;
     }
+    data.resize(done);
 
     close(fd);
     co_return Opt{rpp::move(data)};
@@ -61,10 +70,16 @@ namespace rpp::Async {
         co_return false;
     }
 
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        close(fd);
-        co_return false;
+    u64 done = 0;
+    while(done < data.length()) {
+        i64 ret = ::write(fd, data.data() + done, data.length() - done);
+        if(ret == -1 && errno == EINTR) continue;
+        if(ret == -1) {
+            warn("Failed to write file %: %", path_, Log::sys_error());
+            close(fd);
+            co_return false;
+        }
+        done += ret;
     }
 
     close(fd);
diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 73df13a..87bc8d4 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -1,6 +1,7 @@
 
 #include "../files.h"
 
+#include <errno.h>
 #include <fcntl.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -32,11 +33,19 @@ namespace rpp::Files {
     Vec<u8, Alloc> data(static_cast<u64>(full_size));
     data.resize(static_cast<u64>(full_size));
 
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        close(fd);
-        return {};
+    u64 done = 0;
+    while(done < data.length()) {
+        i64 ret = ::read(fd, data.data() + done, data.length() - done);
+        if(ret == -1 && errno == EINTR) continue;
+        if(ret == -1) {
+            warn("Failed to read file %: %", path_, Log::sys_error());
+            close(fd);
+            return {};
+        }
+        if(ret == 0) break;
+        done += ret;
     }
+    data.resize(done);
 
     close(fd);
     return Opt{rpp::move(data)};
@@ -55,10 +64,16 @@ namespace rpp::Files {
         return false;
     }
 
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        close(fd);
-        return false;
+    u64 done = 0;
+    while(done < data.length()) {
+        i64 ret = ::write(fd, data.data() + done, data.length() - done);
+        if(ret == -1 && errno == EINTR) continue;
+        if(ret == -1) {
+            warn("Failed to write file %: %", path_, Log::sys_error());
+            close(fd);
+            return false;
+        }
+        done += ret;
     }
 
     close(fd);
-- 
2.43.0


From ef81539359e400f2271b38796198e63d6fc2634c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 36/61] fix: file modification times are truncated to seconds,
 so watchers miss changes

---
 rpp/pos/files_pos.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 87bc8d4..6edf9b4 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -89,7 +89,13 @@ namespace rpp::Files {
             warn("Failed to stat file %: %", path_, Log::sys_error());
             return {};
         }
-        return Opt{static_cast<File_Time>(info.st_mtime)};
+#ifdef RPP_OS_MACOS
+        struct timespec time = info.st_mtimespec;
+#else
+        struct timespec time = info.st_mtim;
+#endif
+        return Opt{static_cast<File_Time>(time.tv_sec) * 1000000000 +
+                   static_cast<File_Time>(time.tv_nsec)};
     }
 }
 
-- 
2.43.0


From d060d144666717453e9c5125ac328aa4538e9243 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 37/61] fix: path splitting overlooks a separator in the first
 position

---
 rpp/string1.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rpp/string1.h b/rpp/string1.h
index 71ebbb8..90d3630 100644
--- a/rpp/string1.h
+++ b/rpp/string1.h
@@ -69,11 +69,12 @@ template<Allocator RA>
     u64 i = length_ - 1;
     u64 offset = 0;
 
-    for(; i != 0; i--) {
+    for(;; i--) {
         if(data_[i] == '\\' || data_[i] == '/') {
             offset = 1;
             break;
         }
+        if(i == 0) break;
     }
     return String_View{data_ + i + offset, length_ - i - offset};
 }
@@ -85,11 +86,12 @@ template<Allocator RA>
     u64 i = length_ - 1;
     u64 offset = 0;
 
-    for(; i != 0; i--) {
+    for(;; i--) {
         if(data_[i] == '.' || data_[i] == '\\' || data_[i] == '/') {
             offset = 1;
             break;
         }
+        if(i == 0) break;
     }
     return String_View{data_ + i + offset, length_ - i - offset};
 }
@@ -101,11 +103,12 @@ template<Allocator RA>
     bool found = 0;
     u64 i = length_ - 1;
 
-    for(; i != 0; i--) {
+    for(;; i--) {
         if(data_[i] == '\\' || data_[i] == '/') {
             found = 1;
             break;
         }
+        if(i == 0) break;
     }
     return String_View{data_, i + found};
 }
-- 
2.43.0


From d60284d361d7bcea379844d605a52a24df412376 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 38/61] fix: move assigning a Function from inside its own
 closure reads freed memory

---
 rpp/function.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rpp/function.h b/rpp/function.h
index e4e506b..2537589 100644
--- a/rpp/function.h
+++ b/rpp/function.h
@@ -37,10 +37,11 @@ struct Function<Words, R(Args...)> {
         src.vtable = null;
     }
     Function& operator=(Function&& src) noexcept {
+        Function tmp{rpp::move(src)};
         destruct();
-        if(src.vtable) src.move(storage);
-        vtable = src.vtable;
-        src.vtable = null;
+        if(tmp.vtable) tmp.move(storage);
+        vtable = tmp.vtable;
+        tmp.vtable = null;
         return *this;
     }
 
-- 
2.43.0


From 800bb659a3c1947f87b44f5b5b8416372b19e93f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:54 +0000
Subject: [PATCH 39/61] fix: do not destroy a queued coroutine under a task
 that still owns it when a pool is destroyed

---
 rpp/async.h |  9 ++++++++-
 rpp/pool.h  | 48 +++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/rpp/async.h b/rpp/async.h
index 8fb0f15..0138d7a 100644
--- a/rpp/async.h
+++ b/rpp/async.h
@@ -45,6 +45,7 @@ struct Task;
 constexpr i64 TASK_START = 0;
 constexpr i64 TASK_DONE = 1;
 constexpr i64 TASK_ABANDONED = 2;
+constexpr i64 TASK_CANCELED = 3;
 
 struct Final_Suspend {
     [[nodiscard]] bool await_ready() noexcept {
@@ -102,6 +103,12 @@ struct Promise_Base {
         flag.block();
     }
 
+    // A suspended coroutine that will not be resumed. If a task still owns it, the
+    // task destroys it.
+    void cancel(std::coroutine_handle<> handle) noexcept {
+        if(state.exchange(TASK_CANCELED) != TASK_START) handle.destroy();
+    }
+
 protected:
     Thread::Atomic state{TASK_START};
     Thread::Flag flag;
@@ -153,7 +160,7 @@ struct Task {
     ~Task() noexcept {
         if(handle) {
             auto state = handle.promise().state.exchange(TASK_ABANDONED);
-            if(state == TASK_DONE) {
+            if(state == TASK_DONE || state == TASK_CANCELED) {
                 handle.destroy();
             } else if(state != TASK_START) {
                 die("Task abandoned while being waited upon.");
diff --git a/rpp/pool.h b/rpp/pool.h
index 5434fc2..6f896d5 100644
--- a/rpp/pool.h
+++ b/rpp/pool.h
@@ -10,13 +10,32 @@ namespace rpp::Async {
 template<Allocator A>
 struct Pool;
 
+struct Job : Handle<> {
+    void (*cancel)(std::coroutine_handle<>) noexcept = null;
+
+    template<typename P>
+    [[nodiscard]] static Job make(std::coroutine_handle<P> task) noexcept {
+        Job job;
+        job.handle = task;
+        job.cancel = [](std::coroutine_handle<> handle) noexcept {
+            if constexpr(requires(P& promise) { promise.cancel(handle); }) {
+                std::coroutine_handle<P>::from_address(handle.address()).promise().cancel(handle);
+            } else {
+                handle.destroy();
+            }
+        };
+        return job;
+    }
+};
+
 template<Allocator A = Alloc>
 struct Schedule {
 
     explicit Schedule(Pool<A>& pool) noexcept : pool{pool} {
     }
-    void await_suspend(std::coroutine_handle<> task) noexcept {
-        pool.enqueue(Handle{task});
+    template<typename P>
+    void await_suspend(std::coroutine_handle<P> task) noexcept {
+        pool.enqueue(Job::make(task));
     }
     void await_resume() noexcept {
     }
@@ -34,8 +53,9 @@ struct Schedule_Event {
     explicit Schedule_Event(Event event, Pool<A>& pool) noexcept
         : event{rpp::move(event)}, pool{pool} {
     }
-    void await_suspend(std::coroutine_handle<> task) noexcept {
-        pool.enqueue_event(rpp::move(event), Handle{task});
+    template<typename P>
+    void await_suspend(std::coroutine_handle<P> task) noexcept {
+        pool.enqueue_event(rpp::move(event), Job::make(task));
     }
     void await_resume() noexcept {
     }
@@ -90,9 +110,15 @@ struct Pool {
             for(auto& job : state.jobs) {
                 // This still leaks pending continuations, as we can't control their destruction
                 // order wrt their waiting tasks.
-                job.handle.destroy();
+                job.cancel(job.handle);
             }
         }
+        for(auto& job : pending_event_jobs) {
+            job.cancel(job.handle);
+        }
+        for(auto& [event, job] : events_to_enqueue) {
+            job.cancel(job.handle);
+        }
     }
 
     Pool(const Pool&) noexcept = delete;
@@ -113,7 +139,7 @@ struct Pool {
     }
 
 private:
-    void enqueue(Handle<> job) noexcept {
+    void enqueue(Job job) noexcept {
         for(u64 i = 0; i < thread_states.length(); i++) {
             Thread_State& state = thread_states[i];
             // Race on empty
@@ -134,7 +160,7 @@ private:
         state.cond.signal();
     }
 
-    void enqueue_event(Event event, Handle<> job) noexcept {
+    void enqueue_event(Event event, Job job) noexcept {
         Thread::Lock lock(events_mut);
         events_to_enqueue.emplace(rpp::move(event), rpp::move(job));
         pending_events[0].signal();
@@ -143,7 +169,7 @@ private:
     void do_work(u64 thread_idx) noexcept {
         Thread_State& state = thread_states[thread_idx];
         for(;;) {
-            Handle<> job;
+            Job job;
             {
                 Thread::Lock lock(state.mut);
 
@@ -193,14 +219,14 @@ private:
     struct Thread_State {
         Thread::Mutex mut;
         Thread::Cond cond;
-        Queue<Handle<>, A> jobs;
+        Queue<Job, A> jobs;
     };
     Vec<Thread_State, A> thread_states;
     Vec<Thread::Thread<A>, A> threads;
 
     Vec<Event, A> pending_events;
-    Vec<Handle<>, A> pending_event_jobs;
-    Vec<Pair<Event, Handle<>>, A> events_to_enqueue;
+    Vec<Job, A> pending_event_jobs;
+    Vec<Pair<Event, Job>, A> events_to_enqueue;
 
     Thread::Thread<A> event_thread;
     Thread::Mutex events_mut;
-- 
2.43.0


From 6a64e587777d2becb2ec8e55e6b90e5e241c057b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:21 +0000
Subject: [PATCH 40/61] fix: move assigning an Event to itself closes its
 descriptor

---
 rpp/pos/async_pos.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index 712f270..5ee55b3 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -26,11 +26,13 @@ Event::Event(Event&& other) noexcept {
 }
 
 Event& Event::operator=(Event&& other) noexcept {
-    this->~Event();
-    fd = other.fd;
+    i32 other_fd = other.fd;
+    i32 other_mask = other.mask;
     other.fd = -1;
-    mask = other.mask;
     other.mask = 0;
+    this->~Event();
+    fd = other_fd;
+    mask = other_mask;
     return *this;
 }
 
-- 
2.43.0


From acdbcf381ebf06c390d370be6ad8fc8e1305991d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:21 +0000
Subject: [PATCH 41/61] fix: waiting for zero milliseconds never completes

---
 rpp/pos/asyncio_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index ddc67ac..1a33a6c 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -96,6 +96,7 @@ namespace rpp::Async {
     itimerspec spec = {};
     spec.it_value.tv_sec = ms / 1000;
     spec.it_value.tv_nsec = (ms % 1000) * 1000000;
+    if(ms == 0) spec.it_value.tv_nsec = 1; // zero would disarm the timer
 
     if(timerfd_settime(fd, 0, &spec, null) == -1) {
         die("Failed to set timerfd: %", Log::sys_error());
-- 
2.43.0


From 6c1688331c065907870dfff6583dc13e069d870c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:08 +0000
Subject: [PATCH 42/61] fix: a timings callback that allocates or traces blocks
 forever

---
 rpp/impl/profile.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index fe6258c..951465d 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -100,6 +100,9 @@ void Profile::end_frame() noexcept {
     prof.during_frame = false;
 }
 
+// The frame in progress is only touched by its own thread: frames_lock guards completed frames,
+// and may be held by this thread if it is called back from iterate_timings.
+
 void Profile::enter(String_View name) noexcept {
     if constexpr(DO_PROFILE) {
         if(!this_thread.ready()) return;
@@ -110,7 +113,6 @@ void Profile::enter(String_View name) noexcept {
 void Profile::enter(Log::Location loc) noexcept {
     if constexpr(DO_PROFILE) {
         if(!this_thread.ready()) return;
-        Thread::Lock lock(this_thread.frames_lock);
         this_thread.frames.back().enter(rpp::move(loc));
     }
 }
@@ -142,7 +144,6 @@ void Profile::Frame_Profile::enter(Log::Location loc) noexcept {
 void Profile::exit() noexcept {
     if constexpr(DO_PROFILE) {
         if(!this_thread.ready()) return;
-        Thread::Lock lock(this_thread.frames_lock);
         this_thread.frames.back().exit();
     }
 }
@@ -189,11 +190,8 @@ void Profile::alloc(Alloc a) noexcept {
                 }
             }
         }
-        {
-            Thread::Lock lock(this_thread.frames_lock);
-            if(this_thread.during_frame) {
-                this_thread.frames.back().allocations.push(rpp::move(a));
-            }
+        if(this_thread.during_frame) {
+            this_thread.frames.back().allocations.push(rpp::move(a));
         }
     }
 }
-- 
2.43.0


From af9169fbe0d5aa29c43afd03036afafa30be1fd8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:10 +0000
Subject: [PATCH 43/61] fix: a log callback that allocates blocks finalization
 forever

---
 rpp/impl/profile.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index 951465d..934ebb6 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -160,15 +160,15 @@ void Profile::Frame_Profile::exit() noexcept {
 
 void Profile::alloc(Alloc a) noexcept {
     if constexpr(DO_PROFILE) {
+        // Log callbacks may allocate, so nothing is logged while the lock is held.
+        bool known = false;
         {
             Thread::Lock lock(allocs_lock);
             Alloc_Profile& prof = allocs.get_or_insert(a.name);
+            known = prof.current_set.contains(a.address);
 
             if(a.size) {
 
-                if(prof.current_set.contains(a.address)) {
-                    warn("Profile: % reallocated %!", a.name, a.address);
-                }
                 prof.current_set.insert(a.address, a.size);
 
                 prof.allocate_size += a.size;
@@ -178,11 +178,8 @@ void Profile::alloc(Alloc a) noexcept {
 
             } else {
 
-                Opt<Ref<u64>> sz = prof.current_set.try_get(a.address);
-                if(!sz.ok()) {
-                    warn("Profile: % freed % with no entry!", a.name, a.address);
-                } else {
-                    i64 size = **sz;
+                if(known) {
+                    i64 size = prof.current_set.get(a.address);
                     prof.current_set.erase(a.address);
                     prof.free_size += size;
                     prof.frees++;
@@ -190,6 +187,11 @@ void Profile::alloc(Alloc a) noexcept {
                 }
             }
         }
+        if(a.size && known) {
+            warn("Profile: % reallocated %!", a.name, a.address);
+        } else if(!a.size && !known) {
+            warn("Profile: % freed % with no entry!", a.name, a.address);
+        }
         if(this_thread.during_frame) {
             this_thread.frames.back().allocations.push(rpp::move(a));
         }
@@ -212,8 +214,13 @@ void Profile::finalize() noexcept {
     }
     this_thread.finalize();
     {
-        Thread::Lock lock(allocs_lock);
-        for(auto& prof : allocs) {
+        // Log callbacks may allocate, so the lock is not held while reporting.
+        Map<String_View, Alloc_Profile, Mhidden> final_allocs;
+        {
+            Thread::Lock lock(allocs_lock);
+            final_allocs = rpp::move(allocs);
+        }
+        for(auto& prof : final_allocs) {
             info("Allocation stats for [%]:", prof.first);
             info("\tAllocs: %", prof.second.allocates);
             info("\tFrees: %", prof.second.frees);
@@ -224,6 +231,9 @@ void Profile::finalize() noexcept {
                 warn("\tUnbalanced size: %", prof.second.current_set_size);
             }
         }
+    }
+    {
+        Thread::Lock lock(allocs_lock);
         allocs.~Map();
     }
     {
-- 
2.43.0


From 3755c7cfeb61dd4a4fd92a75d8b6d08bda071f15 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:10 +0000
Subject: [PATCH 44/61] fix: a timings callback that traces on a thread that
 never traced blocks forever

---
 rpp/profile.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rpp/profile.h b/rpp/profile.h
index dc26bd1..e4bf78d 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -80,6 +80,9 @@ struct Profile {
 
     template<typename F>
     static void iterate_timings(F&& f) noexcept {
+        // f may trace, which must not register this thread while the lock is held.
+        static_cast<void>(this_thread.ready());
+
         Thread::Lock lock(threads_lock);
 
         for(auto& entry : threads) {
-- 
2.43.0


From 8b20d94abe3579ab2c4d2bf0fa07ea2c174587e0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:57 +0000
Subject: [PATCH 45/61] fix: the enumerator char_ is missing from the reflected
 Kind

---
 rpp/reflect.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rpp/reflect.h b/rpp/reflect.h
index 7b8ea33..866e342 100644
--- a/rpp/reflect.h
+++ b/rpp/reflect.h
@@ -496,10 +496,11 @@ struct Refl<Kind> {
     constexpr static Literal name = "Kind";
     constexpr static Kind kind = Kind::enum_;
     constexpr static Kind default_ = Kind::void_;
-    using members = List<RPP_CASE(void_), RPP_CASE(i8_), RPP_CASE(i16_), RPP_CASE(i32_),
-                         RPP_CASE(i64_), RPP_CASE(u8_), RPP_CASE(u16_), RPP_CASE(u32_),
-                         RPP_CASE(u64_), RPP_CASE(f32_), RPP_CASE(f64_), RPP_CASE(bool_),
-                         RPP_CASE(array_), RPP_CASE(pointer_), RPP_CASE(enum_), RPP_CASE(record_)>;
+    using members =
+        List<RPP_CASE(void_), RPP_CASE(char_), RPP_CASE(i8_), RPP_CASE(i16_), RPP_CASE(i32_),
+             RPP_CASE(i64_), RPP_CASE(u8_), RPP_CASE(u16_), RPP_CASE(u32_), RPP_CASE(u64_),
+             RPP_CASE(f32_), RPP_CASE(f64_), RPP_CASE(bool_), RPP_CASE(array_), RPP_CASE(pointer_),
+             RPP_CASE(enum_), RPP_CASE(record_)>;
 };
 
 } // namespace Reflect
-- 
2.43.0


From 54407056396cc9351f1cc030972b9c09b8b48d46 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:49 +0000
Subject: [PATCH 46/61] fix: a file that cannot be rewound is read as empty

---
 rpp/pos/asyncio_pos.cpp | 3 +--
 rpp/pos/files_pos.cpp   | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 1a33a6c..7f35780 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -27,9 +27,8 @@ namespace rpp::Async {
     }
 
     off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
 
-    if(full_size < 0 || full_size > UINT32_MAX) {
+    if(full_size < 0 || full_size > UINT32_MAX || lseek(fd, 0, SEEK_SET) == -1) {
         warn("Failed to get the size of file %: %", path_, Log::sys_error());
         close(fd);
         co_return {};
diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 6edf9b4..e4e004d 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -22,9 +22,8 @@ namespace rpp::Files {
     }
 
     off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
 
-    if(full_size < 0 || full_size > RPP_UINT32_MAX) {
+    if(full_size < 0 || full_size > RPP_UINT32_MAX || lseek(fd, 0, SEEK_SET) == -1) {
         warn("Failed to get the size of file %: %", path_, Log::sys_error());
         close(fd);
         return {};
-- 
2.43.0


From 51e1ed1dc3001ffcb385da58cfb23f46e1a68538 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:49 +0000
Subject: [PATCH 47/61] fix: a directory that reports no size is read as an
 empty file

---
 rpp/pos/asyncio_pos.cpp | 7 +++++++
 rpp/pos/files_pos.cpp   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 7f35780..6fba35a 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -26,6 +26,13 @@ namespace rpp::Async {
         co_return {};
     }
 
+    struct stat info;
+    if(fstat(fd, &info) == -1 || S_ISDIR(info.st_mode)) {
+        warn("Failed to read %: it is not a file", path_);
+        close(fd);
+        co_return {};
+    }
+
     off_t full_size = lseek(fd, 0, SEEK_END);
 
     if(full_size < 0 || full_size > UINT32_MAX || lseek(fd, 0, SEEK_SET) == -1) {
diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index e4e004d..200e6f8 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -21,6 +21,13 @@ namespace rpp::Files {
         return {};
     }
 
+    struct stat info;
+    if(fstat(fd, &info) == -1 || S_ISDIR(info.st_mode)) {
+        warn("Failed to read %: it is not a file", path_);
+        close(fd);
+        return {};
+    }
+
     off_t full_size = lseek(fd, 0, SEEK_END);
 
     if(full_size < 0 || full_size > RPP_UINT32_MAX || lseek(fd, 0, SEEK_SET) == -1) {
-- 
2.43.0


From 1c35232104ba8c31d216978c85989756aab4ac66 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:49 +0000
Subject: [PATCH 48/61] fix: a write that fails when the file is closed is
 reported as successful

---
 rpp/pos/asyncio_pos.cpp | 5 ++++-
 rpp/pos/files_pos.cpp   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 6fba35a..388e07c 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -88,7 +88,10 @@ namespace rpp::Async {
         done += ret;
     }
 
-    close(fd);
+    if(close(fd) == -1 && errno != EINTR) {
+        warn("Failed to write file %: %", path_, Log::sys_error());
+        co_return false;
+    }
     co_return true;
 }
 
diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 200e6f8..3f5d5cf 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -82,7 +82,10 @@ namespace rpp::Files {
         done += ret;
     }
 
-    close(fd);
+    if(close(fd) == -1 && errno != EINTR) {
+        warn("Failed to write file %: %", path_, Log::sys_error());
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From a6f8f44797b6fa04c3d130d1e31b553a44582cc0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:49 +0000
Subject: [PATCH 49/61] fix: modification times before 1970 count as later than
 all others

---
 rpp/pos/files_pos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 3f5d5cf..cc0287b 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -109,7 +109,8 @@ namespace rpp::Files {
 }
 
 [[nodiscard]] bool before(const File_Time& first, const File_Time& second) noexcept {
-    return first < second;
+    // times before 1970 are negative
+    return static_cast<i64>(first) < static_cast<i64>(second);
 }
 
 } // namespace rpp::Files
-- 
2.43.0


From df956d37cb1e9bbdbc67059f41840c76c2895607 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:32 +0000
Subject: [PATCH 50/61] fix: sending more bytes than a packet holds reads
 beyond it

---
 rpp/pos/net_pos.cpp | 1 +
 rpp/w32/net_w32.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 56c72fd..07f61f5 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -79,6 +79,7 @@ void Udp::bind(Address address) noexcept {
 }
 
 [[nodiscard]] u64 Udp::send(Address address, const Packet& out, u64 length) noexcept {
+    assert(length <= out.capacity);
 
     i64 ret = ::sendto(fd, out.data(), length, 0,
                        reinterpret_cast<const sockaddr*>(&address.sockaddr_), sizeof(sockaddr_in));
diff --git a/rpp/w32/net_w32.cpp b/rpp/w32/net_w32.cpp
index 17178f5..c290e77 100644
--- a/rpp/w32/net_w32.cpp
+++ b/rpp/w32/net_w32.cpp
@@ -133,6 +133,7 @@ void Udp::bind(Address address) noexcept {
 }
 
 [[nodiscard]] u64 Udp::send(Address address, const Packet& out, u64 length) noexcept {
+    assert(length <= out.capacity);
 
     i32 ret =
         sendto(socket, reinterpret_cast<const char*>(out.data()), static_cast<i32>(length), 0,
-- 
2.43.0


From 270f905566f71ff767826965690f5a7b729d110f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:49 +0000
Subject: [PATCH 51/61] fix: positive and negative zero are equal but hash
 differently

---
 rpp/hash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/hash.h b/rpp/hash.h
index 206eba5..aa0bbba 100644
--- a/rpp/hash.h
+++ b/rpp/hash.h
@@ -54,6 +54,7 @@ struct Hash<char> {
 template<>
 struct Hash<f32> {
     [[nodiscard]] static u64 hash(f32 key) noexcept {
+        if(key == 0.0f) key = 0.0f; // -0 is equal to +0
         return squirrel5(static_cast<u64>(*reinterpret_cast<u32*>(&key)));
     }
 };
@@ -61,6 +62,7 @@ struct Hash<f32> {
 template<>
 struct Hash<f64> {
     [[nodiscard]] static u64 hash(f64 key) noexcept {
+        if(key == 0.0) key = 0.0; // -0 is equal to +0
         return squirrel5(*reinterpret_cast<u64*>(&key));
     }
 };
-- 
2.43.0


From a617a1355826a2ef9afd878550d4dbb93962b5fb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:37 +0000
Subject: [PATCH 52/61] fix: an integer power overflows after its last
 multiplication

---
 rpp/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/math.h b/rpp/math.h
index 24f550f..2eff486 100644
--- a/rpp/math.h
+++ b/rpp/math.h
@@ -68,7 +68,7 @@ template<Int I>
             result *= base;
         }
         exp >>= 1;
-        base *= base;
+        if(exp) base *= base;
     }
     return result;
 }
-- 
2.43.0


From 06b0b7f88df572d86bc54ae4fedd4b690dc02f82 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:36 +0000
Subject: [PATCH 53/61] fix: a scalar minus or divided by a vector has its
 operands swapped

---
 rpp/vmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index e3d5f3e..c0a293c 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -900,7 +900,7 @@ constexpr Math::Vect<T, N> operator+(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator-(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::sub(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::sub(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s - v.data[i];
@@ -922,7 +922,7 @@ constexpr Math::Vect<T, N> operator*(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator/(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::div(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::div(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s / v.data[i];
-- 
2.43.0


From 093e495f86c6db09633b635c90c8c336fabf76c6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:42 +0000
Subject: [PATCH 54/61] fix: negating a vector changes it

---
 rpp/vmath.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index c0a293c..ce2e0cc 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -242,14 +242,15 @@ struct Vect : Vect_Base<T, N> {
             for(u64 i = 0; i < N; i++) r.data[i] = Math::abs(this->data[i]);
         return r;
     }
-    constexpr Vect operator-() noexcept
+    constexpr Vect operator-() const noexcept
         requires is_float || Signed_Int<T>
     {
+        Vect r;
         if constexpr(is_simd)
-            this->pack = F32x4::sub(F32x4::zero(), this->pack);
+            r.pack = F32x4::sub(F32x4::zero(), this->pack);
         else
-            for(u64 i = 0; i < N; i++) this->data[i] = -this->data[i];
-        return *this;
+            for(u64 i = 0; i < N; i++) r.data[i] = -this->data[i];
+        return r;
     }
 
     constexpr Vect normalize() noexcept
@@ -312,7 +313,7 @@ struct Vect : Vect_Base<T, N> {
         return r;
     }
 
-    constexpr Vect<T, N> floor() noexcept
+    constexpr Vect<T, N> floor() const noexcept
         requires is_float
     {
         Vect<T, N> r;
@@ -323,7 +324,7 @@ struct Vect : Vect_Base<T, N> {
         return r;
     }
 
-    constexpr Vect<T, N> ceil() noexcept
+    constexpr Vect<T, N> ceil() const noexcept
         requires is_float
     {
         Vect<T, N> r;
-- 
2.43.0


From c1e91fdb8ee0e3f2d8385e6d493f1e3626b886e2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:44 +0000
Subject: [PATCH 55/61] fix: rotating y to its opposite is a reflection

---
 rpp/impl/vmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/impl/vmath.cpp b/rpp/impl/vmath.cpp
index 585bceb..debfc28 100644
--- a/rpp/impl/vmath.cpp
+++ b/rpp/impl/vmath.cpp
@@ -255,7 +255,7 @@ Mat4 Mat4::rotate_y_to(Vec3 dir) noexcept {
         return Mat4::I;
     else if(Math::abs(dir.y + 1.0f) < Math::EPS_F)
         return Mat4{Vec4{1.0f, 0.0f, 0.0f, 0.0f}, Vec4{0.0f, -1.0f, 0.0f, 0.0f},
-                    Vec4{0.0f, 0.0f, 1.0f, 0.0f}, Vec4{0.0f, 0.0f, 0.0f, 1.0f}};
+                    Vec4{0.0f, 0.0f, -1.0f, 0.0f}, Vec4{0.0f, 0.0f, 0.0f, 1.0f}};
     else {
         Vec3 x = cross(dir, Vec3{0.0f, 1.0f, 0.0f}).unit();
         Vec3 z = cross(x, dir).unit();
-- 
2.43.0


From 9f026129b5f5b65b9d0fadddfaee6c6e9215e0c2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:49 +0000
Subject: [PATCH 56/61] fix: the inverse of a quaternion is normalised

---
 rpp/vmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index ce2e0cc..a9b90d2 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -698,7 +698,7 @@ struct Quat : detail::Vect_Base<f32, 4> {
         return Quat(-x, -y, -z, w);
     }
     Quat inverse() const noexcept {
-        return conjugate().unit();
+        return conjugate() * (1.0f / norm2());
     }
     constexpr Vec3 complex() const noexcept {
         return Vec3(x, y, z);
-- 
2.43.0


From b7a815f2f58776a703a64f9c7d7e52df3d423ad3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:54 +0000
Subject: [PATCH 57/61] fix: the quaternion of a half turn about x is one about
 z

---
 rpp/vmath.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index a9b90d2..3d98e35 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -672,8 +672,7 @@ struct Quat : detail::Vect_Base<f32, 4> {
         return Quat(x, y, z, w).unit();
     }
     static Quat euler(Vec3 angles) noexcept {
-        if(angles == Vec3{0.0f, 0.0f, 180.0f} || angles == Vec3{180.0f, 0.0f, 0.0f})
-            return Quat{0.0f, 0.0f, -1.0f, 0.0f};
+        if(angles == Vec3{0.0f, 0.0f, 180.0f}) return Quat{0.0f, 0.0f, -1.0f, 0.0f};
         f32 c1 = Math::cos(Math::radians(angles[2] * 0.5f));
         f32 c2 = Math::cos(Math::radians(angles[1] * 0.5f));
         f32 c3 = Math::cos(Math::radians(angles[0] * 0.5f));
-- 
2.43.0


From 088c78878c123171e8ed79ed590ee41a8d59160a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:57 +0000
Subject: [PATCH 58/61] fix: an orthographic projection does not map its depth
 range to [0, 1]

---
 rpp/impl/vmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/impl/vmath.cpp b/rpp/impl/vmath.cpp
index debfc28..e4de53d 100644
--- a/rpp/impl/vmath.cpp
+++ b/rpp/impl/vmath.cpp
@@ -228,7 +228,7 @@ Mat4 Mat4::ortho(f32 l, f32 r, f32 b, f32 t, f32 n, f32 f) noexcept {
     Mat4 ret;
     ret[0][0] = 2.0f / (r - l);
     ret[1][1] = 2.0f / (t - b);
-    ret[2][2] = 2.0f / (n - f);
+    ret[2][2] = 1.0f / (n - f);
     ret[3][0] = (-l - r) / (r - l);
     ret[3][1] = (-b - t) / (t - b);
     ret[3][2] = -n / (f - n);
-- 
2.43.0


From 758ae83ec15fb6d6b7f0d24babc0660b98ee75bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:02 +0000
Subject: [PATCH 59/61] fix: transforming an empty box makes it infinite

---
 rpp/vmath.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index 3d98e35..01dbca1 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -815,6 +815,7 @@ struct BBox {
     }
 
     constexpr void transform(const Mat4& T) noexcept {
+        if(empty()) return;
         Vec3 amin = min, amax = max;
         min = max = Vec3{T[3].x, T[3].y, T[3].z};
         for(u64 i = 0; i < 3; i++) {
-- 
2.43.0


From ae40ddb2fdc502ed7ff9990799a900af7ec7af1e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:07 +0000
Subject: [PATCH 60/61] fix: degrees and radians of doubles have single
 precision

---
 rpp/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/math.h b/rpp/math.h
index 2eff486..cc4f0f6 100644
--- a/rpp/math.h
+++ b/rpp/math.h
@@ -53,11 +53,11 @@ template<typename T>
 
 template<typename T>
 [[nodiscard]] constexpr T radians(T v) noexcept {
-    return v * T{PI32 / 180.0f};
+    return v * T{PI64 / 180.0};
 }
 template<typename T>
 [[nodiscard]] constexpr T degrees(T v) noexcept {
-    return v * T{180.0f / PI32};
+    return v * T{180.0 / PI64};
 }
 
 template<Int I>
-- 
2.43.0


From a32fd0b930f487b66c71d0167b07a4918883c22b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:56 +0000
Subject: [PATCH 61/61] fix: sleep for the whole time, also when interrupted or
 longer than 71 minutes

---
 rpp/pos/thread_pos.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index bee9967..6e29b5e 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -17,6 +17,7 @@
 #include <errno.h>
 #include <string.h>
 #include <sys/syscall.h>
+#include <time.h>
 #include <unistd.h>
 
 namespace rpp::Thread {
@@ -35,7 +36,11 @@ namespace rpp::Thread {
 static_assert(sizeof(Id) == sizeof(pthread_t), "Id != pthread_t");
 
 void sleep(u64 ms) noexcept {
-    usleep(ms * 1000);
+    struct timespec left;
+    left.tv_sec = ms / 1000;
+    left.tv_nsec = (ms % 1000) * 1000000;
+    while(nanosleep(&left, &left) == -1 && errno == EINTR) {
+    }
 }
 
 [[nodiscard]] u64 id_len() noexcept {
-- 
2.43.0

