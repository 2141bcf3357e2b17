From f579602280ee1be6b4ab6ca0ad52d6ed6531f517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:44 +0000
Subject: [PATCH 01/22] fix: signal: release the current slot's reference when
 a slot throws

---
 include/kl/signal.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 578d981..dfde8a9 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -621,6 +621,12 @@ public:
                 cleanup_invalidated_slots_locked();
         });
 
+        // The current slot's reference must be dropped even if the slot throws
+        KL_DEFER({
+            if (current)
+                current->release();
+        });
+
         while (current)
         {
             if (!current->blocked() && current->valid())
-- 
2.43.0


From 604bd98861598dfcc4180bd24371fa05fa8fe1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:55 +0000
Subject: [PATCH 02/22] fix: signal: destroy removed slots after unlocking the
 mutex

---
 include/kl/signal.hpp | 60 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index dfde8a9..467251c 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -404,6 +404,10 @@ public:
     /// Type-erased callable type used for slots.
     using slot_type = std::function<void(Args...)>;
 
+private:
+    struct slot;
+    struct removed_slots;
+
 public:
     /// Constructs empty, disconnected signal.
     signal() noexcept = default;
@@ -420,6 +424,7 @@ public:
      */
     signal(signal&& other) noexcept
     {
+        removed_slots removed;
         {
             std::lock_guard<std::mutex> lock{other.mutex_};
             terminate_if_emitting_locked(other.emission_in_progress());
@@ -429,7 +434,7 @@ public:
             other.deferred_cleanup_ = false;
         }
         std::lock_guard<std::mutex> lock{mutex_};
-        rebind_locked();
+        rebind_locked(removed);
     }
 
     /**
@@ -615,10 +620,11 @@ public:
             if (last)
                 last->release();
 
+            removed_slots removed;
             std::lock_guard<std::mutex> lock{mutex_};
             const auto prev = active_emissions_--;
             if (prev == 1)
-                cleanup_invalidated_slots_locked();
+                cleanup_invalidated_slots_locked(removed);
         });
 
         // The current slot's reference must be dropped even if the slot throws
@@ -663,6 +669,7 @@ public:
      */
     void disconnect_all_slots() noexcept
     {
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
         const bool can_remove = !emission_in_progress();
         for (slot *iter = slots_, *prev = nullptr; iter;)
@@ -670,7 +677,7 @@ public:
             iter->invalidate();
             if (can_remove)
             {
-                iter = remove_slot_locked(*iter, prev);
+                iter = remove_slot_locked(*iter, prev, removed);
             }
             else
             {
@@ -707,6 +714,7 @@ public:
     {
         if (&left == &right)
             return;
+        removed_slots removed;
         std::scoped_lock lock{left.mutex_, right.mutex_};
         terminate_if_emitting_locked(left.emission_in_progress() ||
                                      right.emission_in_progress());
@@ -715,8 +723,8 @@ public:
         swap(left.tail_, right.tail_);
         swap(left.deferred_cleanup_, right.deferred_cleanup_);
 
-        left.rebind_locked();
-        right.rebind_locked();
+        left.rebind_locked(removed);
+        right.rebind_locked(removed);
     }
 
 private:
@@ -731,6 +739,7 @@ private:
 
     void disconnect(std::uintptr_t id) noexcept override
     {
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
         const bool can_remove = !emission_in_progress();
         for (slot *iter = slots_, *prev = nullptr; iter;
@@ -742,7 +751,7 @@ private:
             iter->invalidate();
             if (can_remove)
             {
-                remove_slot_locked(*iter, prev);
+                remove_slot_locked(*iter, prev, removed);
             }
             else
             {
@@ -753,9 +762,9 @@ private:
         }
     }
 
-    void rebind_locked() noexcept
+    void rebind_locked(removed_slots& removed) noexcept
     {
-        cleanup_invalidated_slots_locked();
+        cleanup_invalidated_slots_locked(removed);
 
         // Rebind back-pointer to new signal
         for (auto iter = slots_; iter; iter = iter->next)
@@ -764,7 +773,7 @@ private:
         }
     }
 
-    void cleanup_invalidated_slots_locked() noexcept
+    void cleanup_invalidated_slots_locked(removed_slots& removed) noexcept
     {
         if (!deferred_cleanup_)
             return;
@@ -785,7 +794,7 @@ private:
             }
             else
             {
-                iter = remove_slot_locked(*iter, prev);
+                iter = remove_slot_locked(*iter, prev, removed);
             }
         }
         deferred_cleanup_ = false;
@@ -817,6 +826,32 @@ private:
         const slot_type target;
     };
 
+    // Collects slots unlinked under the lock. Releasing a slot may destroy the
+    // user-supplied callable which in turn can call back into the signal, so
+    // it has to happen after the lock is gone: declare it before the lock.
+    struct removed_slots
+    {
+        removed_slots() noexcept = default;
+        ~removed_slots()
+        {
+            while (head)
+                std::exchange(head, head->next)->release();
+        }
+
+        removed_slots(const removed_slots&) = delete;
+        removed_slots& operator=(const removed_slots&) = delete;
+
+        void add(slot& removed) noexcept
+        {
+            removed.next = nullptr;
+            (tail ? tail->next : head) = &removed;
+            tail = &removed;
+        }
+
+        slot* head{nullptr};
+        slot* tail{nullptr};
+    };
+
     slot* slots_{nullptr}; // owning pointer
     slot* tail_{nullptr};  // observer ptr
     std::uint32_t active_emissions_{0};
@@ -850,7 +885,8 @@ private:
         }
     }
 
-    slot* remove_slot_locked(slot& to_remove, slot* prev) noexcept
+    slot* remove_slot_locked(slot& to_remove, slot* prev,
+                             removed_slots& removed) noexcept
     {
         assert(!emission_in_progress());
         slot* next = to_remove.next;
@@ -860,7 +896,7 @@ private:
             slots_ = next;
         if (tail_ == &to_remove)
             tail_ = prev ? prev : slots_;
-        to_remove.release();
+        removed.add(to_remove);
         return next;
     }
 };
-- 
2.43.0


From 6178aace88b32ef4c4af78bf998939861686e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:06 +0000
Subject: [PATCH 03/22] fix: signal: leave the emission before destroying
 disconnected slots

---
 include/kl/signal.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 467251c..b9aa952 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -591,13 +591,6 @@ public:
      */
     void operator()(Args... args)
     {
-        auto& emission_state = detail::get_tls_signal_info();
-        // Rollback tls_signal_info back to its pre-emission value
-        auto prev_emission_state = emission_state;
-        KL_DEFER(emission_state = prev_emission_state);
-
-        emission_state.emission_stopped = false;
-
         // We can't traverse the list without synchronization while other
         // threads may connect/disconnect. Instead we:
         //  - increment the active emission count under lock
@@ -627,6 +620,14 @@ public:
                 cleanup_invalidated_slots_locked(removed);
         });
 
+        auto& emission_state = detail::get_tls_signal_info();
+        // Rollback tls_signal_info back to its pre-emission value, before the
+        // slots disconnected in the meantime are destroyed
+        auto prev_emission_state = emission_state;
+        KL_DEFER(emission_state = prev_emission_state);
+
+        emission_state.emission_stopped = false;
+
         // The current slot's reference must be dropped even if the slot throws
         KL_DEFER({
             if (current)
-- 
2.43.0


From b2233f740894ecd43fc16c9f3d16f0377a000b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:49 +0000
Subject: [PATCH 04/22] fix: file_view: detect mmap failure

---
 src/file_view_unix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_view_unix.cpp b/src/file_view_unix.cpp
index a9e84d0..fa5a5f6 100644
--- a/src/file_view_unix.cpp
+++ b/src/file_view_unix.cpp
@@ -77,7 +77,7 @@ file_view::file_view(const char* file_path)
 
     void* mapped = ::mmap(nullptr, static_cast<std::size_t>(file_info.st_size),
                           PROT_READ, MAP_PRIVATE, fd, 0);
-    if (!mapped)
+    if (mapped == MAP_FAILED)
         throw_system_error();
 
     contents_ = gsl::span{static_cast<const std::byte*>(mapped),
-- 
2.43.0


From 4040bee0f3913ab41692c60b6694a20372faa01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:49 +0000
Subject: [PATCH 05/22] fix: file_view: forbid copies that unmap the file twice

---
 include/kl/file_view.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kl/file_view.hpp b/include/kl/file_view.hpp
index 0ac80a8..cc4b795 100644
--- a/include/kl/file_view.hpp
+++ b/include/kl/file_view.hpp
@@ -12,6 +12,9 @@ public:
     explicit file_view(const char* file_path);
     ~file_view();
 
+    file_view(const file_view&) = delete;
+    file_view& operator=(const file_view&) = delete;
+
     gsl::span<const std::byte> get_bytes() const noexcept { return contents_; }
 
 private:
-- 
2.43.0


From 35ff50139c5174c776cf7e2f47aef11c2c737ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:49 +0000
Subject: [PATCH 06/22] fix: enum_iterator: difference of two iterators had the
 wrong sign

---
 include/kl/enum_range.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kl/enum_range.hpp b/include/kl/enum_range.hpp
index 2fa4738..6ae00eb 100644
--- a/include/kl/enum_range.hpp
+++ b/include/kl/enum_range.hpp
@@ -35,7 +35,8 @@ public:
 
     std::ptrdiff_t distance_to(const enum_iterator& other) const
     {
-        return other.index_ - index_;
+        return static_cast<std::ptrdiff_t>(index_) -
+               static_cast<std::ptrdiff_t>(other.index_);
     }
 
     bool equal_to(const enum_iterator& other) const
-- 
2.43.0


From 3dc38823ba29d9d837c4e39c4da4c011501da00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:49 +0000
Subject: [PATCH 07/22] fix: hash: do not sign-extend bytes above 0x7f

---
 include/kl/hash.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kl/hash.hpp b/include/kl/hash.hpp
index ac174c5..1793c55 100644
--- a/include/kl/hash.hpp
+++ b/include/kl/hash.hpp
@@ -11,7 +11,7 @@ constexpr std::uint32_t fnv1a(const char* data, std::size_t length) noexcept
 {
     uint32_t hash = 2166136261U;
     for (std::size_t i = 0; i < length; ++i)
-        hash = (hash ^ static_cast<uint32_t>(data[i])) * 16777619U;
+        hash = (hash ^ static_cast<unsigned char>(data[i])) * 16777619U;
     return hash;
 }
 
@@ -39,7 +39,8 @@ namespace detail {
 
 constexpr std::uint16_t get16bits(const char* d) noexcept
 {
-    return static_cast<std::uint16_t>(d[0] | (d[1] << 8));
+    return static_cast<std::uint16_t>(static_cast<unsigned char>(d[0]) |
+                                      (static_cast<unsigned char>(d[1]) << 8));
 }
 } // namespace detail
 
-- 
2.43.0


From f6b22b1150104d8f3d0d018d2fe7637ea4bd5355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:49 +0000
Subject: [PATCH 08/22] fix: path: keep the previous value when parsing fails

---
 include/kl/path.hpp | 1 +
 src/path.cpp        | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/kl/path.hpp b/include/kl/path.hpp
index e905c8c..c479b8d 100644
--- a/include/kl/path.hpp
+++ b/include/kl/path.hpp
@@ -129,6 +129,7 @@ public:
 private:
     [[nodiscard]] static int from_xdigit(char ch) noexcept;
 
+    void parse(std::string_view value);
     void pop_segment();
     void push_decoded_segment(std::string_view segment);
 
diff --git a/src/path.cpp b/src/path.cpp
index 6e38dc7..4bb74e3 100644
--- a/src/path.cpp
+++ b/src/path.cpp
@@ -2,13 +2,20 @@
 #include <kl/path.hpp>
 
 #include <string_view>
+#include <utility>
 
 namespace kl {
 
 void path::set(std::string_view value)
 {
-    clear();
+    // Parse into a separate object: value can be rejected (or refer to *this)
+    path parsed;
+    parsed.parse(value);
+    *this = std::move(parsed);
+}
 
+void path::parse(std::string_view value)
+{
     if (value.empty() || value == "/")
         return;
 
-- 
2.43.0


From e4c9e8348e21bcb981c34b70478ef4af97754299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:35 +0000
Subject: [PATCH 09/22] fix: resources: an indexed element must not be
 reachable under two paths

---
 include/kl/resource_op.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index 08ead13..dbec74d 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -473,6 +473,10 @@ inline bool parse_index(std::string_view text, std::size_t& out)
     if (text.empty())
         return false;
 
+    // An element has exactly one address: don't accept leading zeros
+    if (text.size() > 1 && text.front() == '0')
+        return false;
+
     std::size_t value = 0;
     const auto* first = text.data();
     const auto* last = first + text.size();
-- 
2.43.0


From 3c4d1ff35843619f77c46759c52db296d4efd750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:35 +0000
Subject: [PATCH 10/22] fix: resources: deleting an optional collection changes
 its elements too

---
 include/kl/resource_op.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index dbec74d..34d346e 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -1065,7 +1065,7 @@ try
                 rollback.commit();
 
                 r.state.modifications.notify_changed(
-                    path, kl::ctti::is_reflectable_v<typename optional_traits::value_type>);
+                    path, detail::has_addressable_descendants_v<typename optional_traits::value_type>);
 
                 return operation_result{status_code::no_content, {}};
             }
-- 
2.43.0


From cb37d35418fbab7ce502c0be9dd065ec42391e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:35 +0000
Subject: [PATCH 11/22] fix: hash: do not left-shift a negative value

---
 include/kl/hash.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kl/hash.hpp b/include/kl/hash.hpp
index 1793c55..4fada48 100644
--- a/include/kl/hash.hpp
+++ b/include/kl/hash.hpp
@@ -71,7 +71,9 @@ constexpr std::uint32_t hsieh(const char* data, std::size_t length) noexcept
     case 3:
         hash += detail::get16bits(data);
         hash ^= hash << 16;
-        hash ^= static_cast<signed char>(data[sizeof(uint16_t)]) << 18;
+        hash ^= static_cast<uint32_t>(
+                    static_cast<signed char>(data[sizeof(uint16_t)]))
+                << 18;
         hash += hash >> 11;
         break;
     case 2:
-- 
2.43.0


From 198cfaa38f4f019f173e1be61ff6cd6fff6f98b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:15 +0000
Subject: [PATCH 12/22] fix: binary_reader: do not allocate for a length the
 input cannot hold

---
 include/kl/binary_rw/string.hpp |  7 +++++++
 include/kl/binary_rw/vector.hpp | 12 +++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/kl/binary_rw/string.hpp b/include/kl/binary_rw/string.hpp
index 270174b..9f6568d 100644
--- a/include/kl/binary_rw/string.hpp
+++ b/include/kl/binary_rw/string.hpp
@@ -24,6 +24,13 @@ void read_binary(kl::binary_reader& r, std::string& str)
     if (!size)
         return;
 
+    // Don't trust the length, check it before allocating anything
+    if (size > r.left())
+    {
+        r.notify_error();
+        return;
+    }
+
     str.resize(size);
     r >> gsl::make_span(str);
 
diff --git a/include/kl/binary_rw/vector.hpp b/include/kl/binary_rw/vector.hpp
index 0a039c5..64e8693 100644
--- a/include/kl/binary_rw/vector.hpp
+++ b/include/kl/binary_rw/vector.hpp
@@ -3,6 +3,8 @@
 #include "kl/binary_rw.hpp"
 #include "kl/type_traits.hpp"
 
+#include <algorithm>
+#include <cstddef>
 #include <vector>
 
 namespace kl {
@@ -39,6 +41,13 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
 
     if (size)
     {
+        // Don't trust the length, check it before allocating anything
+        if (size > r.left() / sizeof(T))
+        {
+            r.notify_error();
+            return;
+        }
+
         vec.resize(size);
         r >> gsl::span<T>{vec};
 
@@ -57,7 +66,8 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
     const auto size = r.read<std::uint32_t>();
 
     vec.clear();
-    vec.reserve(size);
+    // Don't trust the length, allocate no more than input could provide
+    vec.reserve(std::min<std::size_t>(size, r.left()));
 
     for (std::uint32_t i = 0; i < size; ++i)
     {
-- 
2.43.0


From 16111f6c65ded219ed9451caff846dc30473f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:16 +0000
Subject: [PATCH 13/22] fix: binary_rw: string functions defined in a header
 must be inline

---
 include/kl/binary_rw/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kl/binary_rw/string.hpp b/include/kl/binary_rw/string.hpp
index 9f6568d..eeaf0ba 100644
--- a/include/kl/binary_rw/string.hpp
+++ b/include/kl/binary_rw/string.hpp
@@ -8,7 +8,7 @@
 
 namespace kl {
 
-void write_binary(kl::binary_writer& w, const std::string& str)
+inline void write_binary(kl::binary_writer& w, const std::string& str)
 {
     w << static_cast<std::uint32_t>(str.size());
 
@@ -16,7 +16,7 @@ void write_binary(kl::binary_writer& w, const std::string& str)
         w << gsl::span<const char>{str};
 }
 
-void read_binary(kl::binary_reader& r, std::string& str)
+inline void read_binary(kl::binary_reader& r, std::string& str)
 {
     const auto size = r.read<std::uint32_t>();
     str.clear();
-- 
2.43.0


From 5fcdb1269a1384389e82594d834a654f3eec755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:16 +0000
Subject: [PATCH 14/22] fix: binary_rw: skip must not negate the most negative
 offset

---
 include/kl/binary_rw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kl/binary_rw.hpp b/include/kl/binary_rw.hpp
index 3eb0702..5a9615c 100644
--- a/include/kl/binary_rw.hpp
+++ b/include/kl/binary_rw.hpp
@@ -35,7 +35,7 @@ public:
         // Make sure pos_ does not escape of buffer range
         if (off > 0 && static_cast<std::size_t>(off) > left())
             err_ = true;
-        if (off < 0 && static_cast<std::size_t>(-off) > pos_)
+        if (off < 0 && std::size_t{0} - static_cast<std::size_t>(off) > pos_)
             err_ = true;
 
         if (!err_)
-- 
2.43.0


From ad60d7fc6a8fecc682c52610e1bd4e3e41f92f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:16 +0000
Subject: [PATCH 15/22] fix: exception_info: unset on a copy must not alter the
 original

---
 include/kl/exception_info.hpp | 75 +++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 35 deletions(-)

diff --git a/include/kl/exception_info.hpp b/include/kl/exception_info.hpp
index 41813cf..77571cf 100644
--- a/include/kl/exception_info.hpp
+++ b/include/kl/exception_info.hpp
@@ -26,8 +26,13 @@ public:
     virtual const void* find(const std::type_info& tag) const noexcept = 0;
     virtual void* find(const std::type_info& tag) noexcept = 0;
     virtual void diagnostic_info(std::ostream& os) = 0;
+};
 
-    std::shared_ptr<exception_info_node_base> next_{};
+// Immutable once created as it can be a part of more than one list
+struct exception_info_link
+{
+    std::shared_ptr<exception_info_node_base> node;
+    std::shared_ptr<const exception_info_link> next;
 };
 
 struct demangled_type_name
@@ -134,45 +139,31 @@ public:
     template <typename Tag>
     exception_info& set(const typename Tag::type& x)
     {
-        auto node = std::make_shared<detail::exception_info_node<Tag>>(x);
-        node->next_ = head_;
-        head_ = node;
+        push_front(std::make_shared<detail::exception_info_node<Tag>>(x));
         return *this;
     }
 
     template <typename Tag>
     exception_info& set(typename Tag::type&& x)
     {
-        auto node =
-            std::make_shared<detail::exception_info_node<Tag>>(std::move(x));
-        node->next_ = head_;
-        head_ = node;
+        push_front(
+            std::make_shared<detail::exception_info_node<Tag>>(std::move(x)));
         return *this;
     }
 
     template <typename Tag>
-    exception_info& unset() noexcept
+    exception_info& unset()
     {
-        if (!head_)
-            return *this;
-
-        std::shared_ptr<detail::exception_info_node_base>* node = &head_;
-        std::shared_ptr<detail::exception_info_node_base>* prev = nullptr;
         const auto& tag = typeid(Tag);
 
-        while (*node)
+        for (const auto* link = head_.get(); link; link = link->next.get())
         {
-            if ((*node)->find(tag))
-            {
-                if (prev)
-                    (*prev)->next_ = (*node)->next_;
-                else
-                    head_ = (*node)->next_;
-                break;
-            }
-
-            prev = node;
-            node = &(*node)->next_;
+            if (!link->node->find(tag))
+                continue;
+
+            // Copies share the links: replace the ones before the removed one
+            head_ = copy_until(head_.get(), link);
+            break;
         }
 
         return *this;
@@ -188,11 +179,10 @@ public:
     [[nodiscard]] typename Tag::type* get() noexcept
     {
         const auto& tag = typeid(Tag);
-        for (auto* node = &head_; *node;)
+        for (const auto* link = head_.get(); link; link = link->next.get())
         {
-            if (void* ptr = (*node)->find(tag); ptr)
+            if (void* ptr = link->node->find(tag); ptr)
                 return static_cast<typename Tag::type*>(ptr);
-            node = &(*node)->next_;
         }
 
         return nullptr;
@@ -208,21 +198,36 @@ public:
 
         ss << ": throw_with_info in function "
            << (function_ ? function_ : "<unknown-function>") << '\n';
-        for (auto* node = &head_; *node;)
-        {
-            (*node)->diagnostic_info(ss);
-            node = &(*node)->next_;
-        }
+        for (const auto* link = head_.get(); link; link = link->next.get())
+            link->node->diagnostic_info(ss);
         return ss.str();
     }
 
 private:
+    using link_ptr = std::shared_ptr<const detail::exception_info_link>;
+
+    void push_front(std::shared_ptr<detail::exception_info_node_base> node)
+    {
+        head_ = std::make_shared<const detail::exception_info_link>(
+            detail::exception_info_link{std::move(node), head_});
+    }
+
+    static link_ptr copy_until(const detail::exception_info_link* link,
+                               const detail::exception_info_link* removed)
+    {
+        if (link == removed)
+            return link->next;
+        return std::make_shared<const detail::exception_info_link>(
+            detail::exception_info_link{
+                link->node, copy_until(link->next.get(), removed)});
+    }
+
     const char* file_{};
     int line_{};
     const char* function_{};
 
     // Not unique because of copyability requirement
-    std::shared_ptr<detail::exception_info_node_base> head_{};
+    link_ptr head_{};
 };
 
 namespace detail {
-- 
2.43.0


From f6199355c268d822575874a55457fc645a62ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:12 +0000
Subject: [PATCH 16/22] fix: serialization: a flattened object must not take
 its parent's fields as extra fields

---
 include/kl/detail/serialization.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/kl/detail/serialization.hpp b/include/kl/detail/serialization.hpp
index 0a0da12..bb16c91 100644
--- a/include/kl/detail/serialization.hpp
+++ b/include/kl/detail/serialization.hpp
@@ -900,7 +900,7 @@ void deserialize_adl(FixedSizeRange& out, const typename Backend::value_type& va
 template <typename Backend, typename Reflectable, typename Context,
           enable_if<ctti::is_reflectable<Reflectable>> = true>
 void deserialize_adl(Reflectable& out, const typename Backend::value_type& value,
-                     Context& ctx)
+                     Context& ctx, const string_set* reserved_names = nullptr)
 try
 {
     static_assert(deserialize_field_names_validator<Reflectable>::validate(),
@@ -908,7 +908,9 @@ try
 
     if (Backend::is_map(value))
     {
-        const auto* reserved_names = reserved_field_names<Reflectable>();
+        // Set by the object this one is flattened into
+        if (!reserved_names)
+            reserved_names = reserved_field_names<Reflectable>();
 
         ctti::reflect_object(out, [&value, &reserved_names, &ctx](auto field) {
             check_field_attributes<decltype(field)>();
@@ -952,7 +954,12 @@ try
                 {
                     if constexpr (Field::template has<attributes::flatten_t>())
                     {
-                        Backend::deserialize(field.value(), value, ctx);
+                        if constexpr (ctti::has_any_attribute<typename Field::value_type,
+                                                      attributes::extra_fields_t,
+                                                      attributes::flatten_t>())
+                            deserialize_adl<Backend>(field.value(), value, ctx, reserved_names);
+                        else
+                            Backend::deserialize(field.value(), value, ctx);
                         return;
                     }
 
@@ -1122,7 +1129,7 @@ void deserialize_adl(std::optional<T>& out, const typename Backend::value_type&
 template <typename Backend, typename Reflectable, typename Context,
           enable_if<ctti::is_reflectable<Reflectable>> = true>
 void patch_adl(Reflectable& out, const typename Backend::value_type& value,
-               Context& ctx)
+               Context& ctx, const string_set* reserved_names = nullptr)
 try
 {
     static_assert(deserialize_field_names_validator<Reflectable>::validate(),
@@ -1135,7 +1142,9 @@ try
         return;
     }
 
-    const auto* reserved_names = reserved_field_names<Reflectable>();
+    // Set by the object this one is flattened into
+    if (!reserved_names)
+        reserved_names = reserved_field_names<Reflectable>();
 
     ctti::reflect_object(out, [&value, &reserved_names, &ctx](auto field) {
         check_field_attributes<decltype(field)>();
@@ -1188,7 +1197,12 @@ try
             {
                 if constexpr (Field::template has<attributes::flatten_t>())
                 {
-                    Backend::patch(field.value(), value, ctx);
+                    if constexpr (ctti::has_any_attribute<typename Field::value_type,
+                                                  attributes::extra_fields_t,
+                                                  attributes::flatten_t>())
+                        patch_adl<Backend>(field.value(), value, ctx, reserved_names);
+                    else
+                        Backend::patch(field.value(), value, ctx);
                     return;
                 }
 
-- 
2.43.0


From e1686c2eae26d5f5e9870eff8a16a56886988d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:53 +0000
Subject: [PATCH 17/22] fix: json: parse must read back every double dump wrote

---
 include/kl/json.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/kl/json.hpp b/include/kl/json.hpp
index 8e6a3ae..4afbdd6 100644
--- a/include/kl/json.hpp
+++ b/include/kl/json.hpp
@@ -860,7 +860,10 @@ rapidjson::Value serialize(const T& obj, Context& ctx)
 inline rapidjson::Document parse(std::string_view text)
 {
     rapidjson::Document doc;
-    rapidjson::ParseResult ok = doc.Parse(text.data(), text.length());
+    // Without full precision numbers written by dump() may be read back off by a few ULPs
+    rapidjson::ParseResult ok =
+        doc.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(
+            text.data(), text.length());
     if (!ok)
         throw kl::serialization::parse_error{rapidjson::GetParseError_En(ok.Code())};
     return doc;
-- 
2.43.0


From 3b21c86cea31d2a6f21fb089631f97f2edb3b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:22 +0000
Subject: [PATCH 18/22] fix: yaml: a string_view is written as a string, not as
 a sequence of characters

---
 include/kl/yaml.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/kl/yaml.hpp b/include/kl/yaml.hpp
index 01f4401..c8a3ecc 100644
--- a/include/kl/yaml.hpp
+++ b/include/kl/yaml.hpp
@@ -463,6 +463,12 @@ void dump_adl(yaml::stream_tag, const std::string& str, Context& ctx)
     ctx.emitter() << str;
 }
 
+template <typename Context>
+void dump_adl(yaml::stream_tag, std::string_view str, Context& ctx)
+{
+    ctx.emitter() << std::string{str};
+}
+
 // serialize_adl implementation for more complex types (like seqs, maps, reflectable structs and enums)
 template <typename T, typename Context>
 auto serialize_adl(yaml::tree_tag, const T& value, Context& ctx)
@@ -509,6 +515,12 @@ YAML::Node serialize_adl(yaml::tree_tag, const std::string& str, Context&)
     return YAML::Node{str};
 }
 
+template <typename Context>
+YAML::Node serialize_adl(yaml::tree_tag, std::string_view str, Context&)
+{
+    return YAML::Node{std::string{str}};
+}
+
 template <typename Context>
 YAML::Node serialize_adl(yaml::tree_tag, const char* str, Context&)
 {
-- 
2.43.0


From 6bcb9a674f82b17bec549ed42dc6047fae3c5a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:19 +0000
Subject: [PATCH 19/22] fix: json: an empty string_view without data is an
 empty string

rapidjson asserts on null pointers, so writing a default constructed
std::string_view aborted.
---
 include/kl/json.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/kl/json.hpp b/include/kl/json.hpp
index 4afbdd6..b41ee92 100644
--- a/include/kl/json.hpp
+++ b/include/kl/json.hpp
@@ -605,7 +605,10 @@ template <typename Context>
 void dump_adl(json::stream_tag, std::basic_string_view<typename Context::writer_type::Ch> str,
               Context& ctx)
 {
-    ctx.writer().String(str.data(), static_cast<rapidjson::SizeType>(str.length()));
+    // rapidjson doesn't take null pointers, even for empty strings
+    const typename Context::writer_type::Ch empty{};
+    ctx.writer().String(str.empty() ? &empty : str.data(),
+                        static_cast<rapidjson::SizeType>(str.length()));
 }
 
 // serialize_adl implementation  for more complex types (like seqs, maps, reflectable structs and enums)
@@ -648,8 +651,10 @@ rapidjson::Value serialize_adl(json::tree_tag, const std::basic_string<Ch>& str,
 template <typename Ch, typename Context>
 rapidjson::Value serialize_adl(json::tree_tag, std::basic_string_view<Ch> str, Context& ctx)
 {
-    return rapidjson::Value{str.data(), static_cast<rapidjson::SizeType>(str.length()),
-                            ctx.allocator()};
+    // rapidjson doesn't take null pointers, even for empty strings
+    const Ch empty{};
+    return rapidjson::Value{str.empty() ? &empty : str.data(),
+                            static_cast<rapidjson::SizeType>(str.length()), ctx.allocator()};
 }
 
 template <typename Context>
-- 
2.43.0


From 1b88b2cd9fc8c1677c245ee0114cc0b9eebf8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:29 +0000
Subject: [PATCH 20/22] fix: json: parse numbers with default precision again

This reverts commit e1686c2: with kParseFullPrecisionFlag rapidjson 1.1.0
misreads a zero with a large exponent (0e111 becomes 1.3e92), which is worse
than reading a double back a few ULPs off.
---
 include/kl/json.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/kl/json.hpp b/include/kl/json.hpp
index b41ee92..2b33c44 100644
--- a/include/kl/json.hpp
+++ b/include/kl/json.hpp
@@ -865,10 +865,7 @@ rapidjson::Value serialize(const T& obj, Context& ctx)
 inline rapidjson::Document parse(std::string_view text)
 {
     rapidjson::Document doc;
-    // Without full precision numbers written by dump() may be read back off by a few ULPs
-    rapidjson::ParseResult ok =
-        doc.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(
-            text.data(), text.length());
+    rapidjson::ParseResult ok = doc.Parse(text.data(), text.length());
     if (!ok)
         throw kl::serialization::parse_error{rapidjson::GetParseError_En(ok.Code())};
     return doc;
-- 
2.43.0


From 83d4d51f08104d8c3cdfa29428dff69d16bbb1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:25 +0000
Subject: [PATCH 21/22] fix: enum_traits::in_range compares values of different
 signedness

An unsigned argument was compared with a negative bound (or the other way
round) after conversion to unsigned, so in_range(0u) was false for a range
starting below zero and large unsigned values were in range.
---
 include/kl/enum_traits.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/kl/enum_traits.hpp b/include/kl/enum_traits.hpp
index 895c3db..afb0423 100644
--- a/include/kl/enum_traits.hpp
+++ b/include/kl/enum_traits.hpp
@@ -92,7 +92,23 @@ struct enum_trait_support_range
     template <typename Integral, enable_if<std::is_integral<Integral>> = true>
     static constexpr bool in_range(Integral v) noexcept
     {
-        return v >= min_value() && v < max_value();
+        return !less(v, min_value()) && less(v, max_value());
+    }
+
+private:
+    // Compares values and not their representations: v can differ in
+    // signedness from the underlying type
+    template <typename T, typename U>
+    static constexpr bool less(T left, U right) noexcept
+    {
+        if constexpr (std::is_signed_v<T> == std::is_signed_v<U>)
+            return left < right;
+        else if constexpr (std::is_signed_v<T>)
+            return left < 0 ||
+                   static_cast<std::make_unsigned_t<T>>(left) < right;
+        else
+            return right >= 0 &&
+                   left < static_cast<std::make_unsigned_t<U>>(right);
     }
 };
 
-- 
2.43.0


From e8331a4a25a3cd1142eac67238bd9745fbc3f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:26 +0000
Subject: [PATCH 22/22] fix: resources: dump_at_path could not be instantiated
 for a reflected object

---
 include/kl/resource_op.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index 34d346e..836b5ef 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -667,10 +667,10 @@ template <typename T, typename Context>
 auto dump_at_path(const T& obj, path_view path, Context& ctx)
     -> decltype(kl::serialization::dump(obj, ctx))
 {
-    using return_type = decltype(kl::serialization::dump(obj, ctx));
-    return kl::resources::visit_at_path<return_type>(
+    (void)kl::resources::visit_at_path<int>(
         obj, path, [&](auto field, [[maybe_unused]] auto& access_ctx) {
-            return kl::serialization::dump(field.value(), ctx);
+            kl::serialization::dump(field.value(), ctx);
+            return 1; // Dummy value, doesn't matter
         });
 }
 
-- 
2.43.0

