From 04190f36a7d8a7ac5133fe7c4dbd882ec7be6867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 01/14] fix: reset(ptr, deleter) keeps the deleter

The temporary unique_ptr was spelled without the deleter type, so it used
(and tried to construct) default_delete and the call did not compile for
any custom deleter.
---
 code/xmem/basic_shared_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index d80a1e6..0011ec2 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -112,7 +112,7 @@ public:
 
     template <typename U, typename D>
     void reset(U* u, D d) {
-        operator=(unique_ptr<U>(u, std::move(d)));
+        operator=(unique_ptr<U, D>(u, std::move(d)));
     }
 
     template <typename U, typename D, typename A>
-- 
2.43.0


From ee21d43476f73b4e08d80ac87b09dbdb1e4a3f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 02/14] fix: shared_ptr assignment takes the new value before
 releasing the old one

Assignment released the old object first. If that destroyed the object
which holds the right-hand side (head = head->next), the new value was read
from freed memory. While the old object was destroyed, the target also
still pointed to it, so a destructor that reaches the target (reads,
copies, resets or assigns it) worked on an object with no owners left.
---
 code/xmem/basic_shared_ptr.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 0011ec2..338827c 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -29,8 +29,7 @@ public:
     }
     basic_shared_ptr& operator=(const basic_shared_ptr& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        basic_shared_ptr(r).swap(*this); // release the old object last: it may own r
         return *this;
     }
 
@@ -40,8 +39,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(const basic_shared_ptr<CBF, U>& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        basic_shared_ptr(r).swap(*this); // release the old object last: it may own r
         return *this;
     }
 
@@ -50,8 +48,7 @@ public:
     }
     basic_shared_ptr& operator=(basic_shared_ptr&& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this); // release the old object last: it may own r
         return *this;
     }
 
@@ -61,8 +58,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(basic_shared_ptr<CBF, U>&& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this); // release the old object last: it may own r
         return *this;
     }
 
-- 
2.43.0


From f77c1ebe2e3737a09f6266e9bd38cca0d29c491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 03/14] fix: a failed assignment from a unique_ptr leaves the
 shared_ptr unchanged

operator=(unique_ptr&&) and reset(ptr) released the old object before
allocating the control block. If the allocation threw, the pointer was left
with a control block that it no longer had a reference to.
---
 code/xmem/basic_shared_ptr.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 338827c..aafb1d2 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -69,8 +69,7 @@ public:
 
     template <typename U, typename D>
     basic_shared_ptr& operator=(unique_ptr<U, D>&& uptr) {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_new(CBF::make_uptr_cb(uptr));
+        basic_shared_ptr(std::move(uptr)).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From 5e2e17d9ef01021ed06cbd7a259dd4ff35121cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 04/14] fix: shared_ptr::reset empties the pointer before
 releasing the object

If the object's destructor reached the pointer being reset, it found it
still pointing to the object with the reference already given up: a second
reset released it twice, a copy revived it.
---
 code/xmem/basic_shared_ptr.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index aafb1d2..562fc3a 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -96,8 +96,7 @@ public:
     }
 
     void reset(std::nullptr_t = nullptr) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        m.reset();
+        basic_shared_ptr().swap(*this); // empty before the object is destroyed: its destructor may reach us
     }
 
     template <typename U>
-- 
2.43.0


From 64f867c7ffe63b3cf91bcf23f6bd1ca87184d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 05/14] fix: shared_from(_this) on an expired object does not
 release a reference

When the object was already expired (in its destructor), the prepared
result still held the control block and its destructor decremented a
strong count it never incremented: 0 wrapped around to UINT_MAX.
---
 code/xmem/basic_shared_from.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/code/xmem/basic_shared_from.hpp b/code/xmem/basic_shared_from.hpp
index ae73a3d..f1ffe1c 100644
--- a/code/xmem/basic_shared_from.hpp
+++ b/code/xmem/basic_shared_from.hpp
@@ -27,24 +27,23 @@ protected:
     basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }
 
     sptr<void> shared_from_this() {
-        sptr<void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<void> ret;
+        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;
+        return ret;
     }
     sptr<const void> shared_from_this() const {
-        sptr<const void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<const void> ret;
+        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;
+        return ret;
     }
     wptr<void> weak_from_this() { return wptr<void>{m}; }
     wptr<const void> weak_from_this() const { return wptr<const void>{m}; }
 
     template <typename T>
     sptr<T> shared_from(T* ptr) const {
-        cb_ptr_pair<control_block_type, T> alias{m.cb, ptr};
-        sptr<T> ret{alias};
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<T> ret;
+        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = cb_ptr_pair<control_block_type, T>{m.cb, ptr};
+        return ret;
     }
 
     template <typename T>
-- 
2.43.0


From 5eb9e05505177a55bcbafeb7643bf9b72d4a379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 06/14] fix: owning a null pointer to an enable_shared_from
 type

prepare_pair wrote the back reference through the null pointer.
---
 code/xmem/common_control_block.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index adb4f59..8033ff0 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -97,9 +97,11 @@ struct control_block_factory {
     static pair<T> prepare_pair(cb_type* cb, T* ptr) noexcept {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
-            ebf_type* ebf = ptr;
-            ebf->m.cb = cb;
-            ebf->m.ptr = ptr;
+            if (ptr) {
+                ebf_type* ebf = ptr;
+                ebf->m.cb = cb;
+                ebf->m.ptr = ptr;
+            }
         }
         return {cb, ptr};
     }
-- 
2.43.0


From 86a6f0adb737cf241577b5ded3569106410c46ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 07/14] fix: no leak when the constructor of a control block
 throws

The memory allocated for a control_block_resource was lost if its base,
the user-supplied control block, failed to construct.
---
 code/xmem/common_control_block.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 8033ff0..6e0127b 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -66,8 +66,13 @@ public:
     using control_block_resource_ptr = unique_ptr<control_block_resource, void(*)(control_block_resource*)>;
     [[nodiscard]] static control_block_resource_ptr create(Alloc a) {
         auto myalloc = get_self_alloc(a);
-        auto self = myalloc.allocate(1);
-        new (self) control_block_resource(std::move(a));
+        struct memory {
+            self_alloc_type& alloc;
+            control_block_resource* ptr;
+            ~memory() { if (ptr) alloc.deallocate(ptr, 1); }
+        } mem{myalloc, myalloc.allocate(1)};
+        auto self = new (mem.ptr) control_block_resource(std::move(a));
+        mem.ptr = nullptr;
         return control_block_resource_ptr(self, [](control_block_resource* ptr) { ptr->destroy_self(); });
     }
 
-- 
2.43.0


From 82768b4284a86a901263ada42f1155a4020485d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 08/14] fix: atomic storage: a failed compare_exchange destroys
 nothing under the lock

It overwrote expect while holding the spinlock. If expect was the last
owner of its object, the object's destructor ran under the lock and
deadlocked if it used the storage.
---
 code/xmem/basic_atomic_shared_ptr_storage.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/xmem/basic_atomic_shared_ptr_storage.hpp b/code/xmem/basic_atomic_shared_ptr_storage.hpp
index 7e38ac1..fe1538d 100644
--- a/code/xmem/basic_atomic_shared_ptr_storage.hpp
+++ b/code/xmem/basic_atomic_shared_ptr_storage.hpp
@@ -38,13 +38,15 @@ public:
     }
 
     bool compare_exchange(shared_pointer_type& expect, shared_pointer_type ptr) noexcept {
+        shared_pointer_type cur; // outlives the lock: the old value of expect may be the last owner
         impl::spinlock::lock_guard _l(m_spinlock);
         if (m_ptr == expect) {
             m_ptr.swap(ptr);
             return true;
         }
         else {
-            expect = m_ptr;
+            cur = m_ptr;
+            expect.swap(cur);
             return false;
         }
     }
-- 
2.43.0


From 22d8eddf7bbc300e628f1e25fa7b9b79f2129edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 09/14] fix: xstd atomic storage: a failed compare_exchange
 destroys nothing under the lock

Same as for basic_atomic_shared_ptr_storage.
---
 code/xmem/std_helpers.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/xmem/std_helpers.hpp b/code/xmem/std_helpers.hpp
index cea48f3..8af3401 100644
--- a/code/xmem/std_helpers.hpp
+++ b/code/xmem/std_helpers.hpp
@@ -121,13 +121,15 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
+        sptr cur; // outlives the lock: the old value of expect may be the last owner
         xmem::impl::spinlock::lock_guard _l(m_spinlock);
         if (m_ptr == expect) {
             m_ptr.swap(ptr);
             return true;
         }
         else {
-            expect = m_ptr;
+            cur = m_ptr;
+            expect.swap(cur);
             return false;
         }
     }
-- 
2.43.0


From 483f1a8dd20d6a00c212f8137e318a6ed46d0ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 10/14] fix: unique_ptr::swap swaps the deleters too

Only the pointers were swapped, so each object was destroyed by the other
one's deleter.
---
 code/xmem/unique_ptr.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index b1f714a..0d2a174 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -97,7 +97,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -172,7 +175,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -232,7 +238,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -282,7 +291,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
-- 
2.43.0


From 721cfb126bfeef2ed0f7c1b97ebacb07e719b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 11/14] fix: converting a weak_ptr to a virtual base does not
 read a dead object

Converting a pointer to a virtual base reads the object. A weak_ptr's
object may already be destroyed, or be destroyed by another thread
meanwhile. Lock it for such conversions (only).
---
 code/xmem/basic_weak_ptr.hpp | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/code/xmem/basic_weak_ptr.hpp b/code/xmem/basic_weak_ptr.hpp
index 49735e6..a0b6ab9 100644
--- a/code/xmem/basic_weak_ptr.hpp
+++ b/code/xmem/basic_weak_ptr.hpp
@@ -4,8 +4,18 @@
 #pragma once
 #include "basic_shared_ptr.hpp"
 
+#include <type_traits>
+
 namespace xmem {
 
+namespace impl {
+// the conversion of U* to T* reads the object (T is a virtual base of U)
+template <typename T, typename U, typename = void>
+inline constexpr bool conversion_needs_object = true;
+template <typename T, typename U>
+inline constexpr bool conversion_needs_object<T, U, std::void_t<decltype(static_cast<const volatile U*>(static_cast<T*>(nullptr)))>> = false;
+}
+
 template <typename CBF, typename T>
 class basic_weak_ptr {
 public:
@@ -30,12 +40,17 @@ public:
 
     template <typename U>
     basic_weak_ptr(const basic_weak_ptr<CBF, U>& r) noexcept {
-        init_from_copy(r.m);
+        if constexpr (impl::conversion_needs_object<element_type, typename basic_weak_ptr<CBF, U>::element_type>) {
+            auto alive = r.lock(); // r may be expired
+            init_from_copy(cb_ptr_pair_type(r.m.cb, alive.get()));
+        }
+        else {
+            init_from_copy(r.m);
+        }
     }
     template <typename U>
     basic_weak_ptr& operator=(const basic_weak_ptr<CBF, U>& r) noexcept {
-        if (m.cb) m.cb->dec_weak_ref(this);
-        init_from_copy(r.m);
+        basic_weak_ptr(r).swap(*this);
         return *this;
     }
 
@@ -55,8 +70,7 @@ public:
     }
     template <typename U>
     basic_weak_ptr& operator=(basic_weak_ptr<CBF, U>&& r) noexcept {
-        if (m.cb) m.cb->dec_weak_ref(this);
-        init_from_move(r);
+        basic_weak_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -155,8 +169,16 @@ private:
 
     template <typename U>
     void init_from_move(basic_weak_ptr<CBF, U>& r) noexcept {
-        m = std::move(r.m);
-        if (m.cb) m.cb->transfer_weak(this, &r);
+        if constexpr (impl::conversion_needs_object<element_type, typename basic_weak_ptr<CBF, U>::element_type>) {
+            auto alive = r.lock(); // r may be expired
+            m = cb_ptr_pair_type(r.m.cb, alive.get());
+            r.m.reset();
+            if (m.cb) m.cb->transfer_weak(this, &r);
+        }
+        else {
+            m = std::move(r.m);
+            if (m.cb) m.cb->transfer_weak(this, &r);
+        }
     }
 
     cb_ptr_pair_type m;
-- 
2.43.0


From d145bed507a458bfbc56f0e56fe839c8cba50586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:52 +0000
Subject: [PATCH 12/14] fix: unique_ptr move assignment reads its source before
 it disposes of the old value

The old value was disposed of before the deleter was taken from the source, so
head = std::move(head->next) read a destroyed pointer, and a callback that
reset the pointer meanwhile disposed of the new value with the old deleter.
---
 code/xmem/unique_ptr.hpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index 0d2a174..db7e1ba 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -72,8 +72,7 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        unique_ptr(std::move(other)).swap(*this);
         return *this;
     }
 
@@ -84,8 +83,7 @@ public:
     unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
-        reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        unique_ptr(std::move(other)).swap(*this);
         return *this;
     }
 
@@ -153,8 +151,7 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        m_deleter = &other.get_deleter();
+        unique_ptr(std::move(other)).swap(*this);
         return *this;
     }
 
@@ -162,8 +159,7 @@ public:
     unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
-        reset(other.release());
-        m_deleter = &other.get_deleter();
+        unique_ptr(std::move(other)).swap(*this);
         return *this;
     }
 
@@ -216,8 +212,7 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(other.get_deleter()) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        m_deleter = other.get_deleter();
+        unique_ptr(std::move(other)).swap(*this);
         return *this;
     }
 
@@ -225,8 +220,7 @@ public:
     unique_ptr(unique_ptr<U, deleter_type>&& other) noexcept : common(other.release()), m_deleter(other.get_deleter()) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
-        reset(other.release());
-        m_deleter = other.get_deleter();
+        unique_ptr(other.release(), other.get_deleter()).swap(*this);
         return *this;
     }
 
@@ -275,8 +269,7 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        unique_ptr(std::move(other)).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From 6e150ef30903fce35c3cab823cc5ca562ec32ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 13/14] fix: converting a unique_ptr with a referenced deleter
 copies the deleter

It moved from the deleter it refers to, which other pointers may share.
---
 code/xmem/unique_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index db7e1ba..36bd47d 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -80,7 +80,7 @@ public:
     unique_ptr(pointer p, D2&& d) noexcept : common(p), D(std::forward<D2>(d)) {}
 
     template <typename U, typename D2>
-    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
+    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::forward<D2>(other.get_deleter())) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
         unique_ptr(std::move(other)).swap(*this);
-- 
2.43.0


From a8224074dc52b461206a00d427cac94ae475a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 14/14] fix: a shared_ptr to an array deletes it as an array

---
 code/xmem/basic_shared_ptr.hpp     | 8 ++++++--
 code/xmem/common_control_block.hpp | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 562fc3a..fc3cb78 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -77,7 +77,7 @@ public:
     basic_shared_ptr(std::nullptr_t, D d) : basic_shared_ptr(unique_ptr<T, D>(nullptr, std::move(d))) {}
 
     template <typename U>
-    explicit basic_shared_ptr(U* p) : basic_shared_ptr(unique_ptr<U>(p)) {}
+    explicit basic_shared_ptr(U* p) : basic_shared_ptr(raw_uptr<U>(p)) {}
 
     template <typename U, typename D>
     basic_shared_ptr(U* p, D d) : basic_shared_ptr(unique_ptr<U, D>(p, std::move(d))) {}
@@ -101,7 +101,7 @@ public:
 
     template <typename U>
     void reset(U* u) {
-        operator=(unique_ptr<U>(u));
+        operator=(raw_uptr<U>(u));
     }
 
     template <typename U, typename D>
@@ -151,6 +151,10 @@ public:
     }
 
 private:
+    // what takes ownership of a raw pointer: arrays need delete[]
+    template <typename U>
+    using raw_uptr = unique_ptr<std::conditional_t<std::is_array_v<T>, U[], U>>;
+
     // not new! rc taken care of from the outside
     explicit basic_shared_ptr(const cb_ptr_pair_type& cbptr) noexcept : m(cbptr) {}
 
diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 6e0127b..a6a91e9 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -112,7 +112,7 @@ struct control_block_factory {
     }
 
     template <typename T, typename Del, typename Alloc = allocator<char>>
-    [[nodiscard]] static pair<T> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
+    [[nodiscard]] static pair<std::remove_extent_t<T>> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
         using uptr_type = unique_ptr<T, Del>;
         using rsrc_type = control_block_resource<cb_type, uptr_type, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-- 
2.43.0

