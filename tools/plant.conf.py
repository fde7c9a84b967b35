A, C, S, W, Q, U, F, X, K, L, P = ("atomic_ref_count.hpp", "common_control_block.hpp", "basic_shared_ptr.hpp", "basic_weak_ptr.hpp", "basic_atomic_shared_ptr_storage.hpp",
    "unique_ptr.hpp", "basic_shared_from.hpp", "std_helpers.hpp", "bits/spinlock.hpp", "local_ref_count.hpp", "cb_ptr_pair.hpp")
BUGS = {
 "c01-decide-after-decrement": ("C01", [(C, "        if (m_strong.dec() == 0) {\n            destroy_resource();", "        m_strong.dec();\n        if (m_strong.count() == 0) {\n            destroy_resource();")],
    "two threads dropping the last two owners, each decrementing before either looks at the count", "the decision to destroy is taken on a later read of the count: both threads may destroy the object", ""),
 "c02-add-after-check": ("C02", [(A, "        while (rc != 0) {", "        if (rc > 1) return inc(); // surely alive\n        while (rc > 0) {")],
    "a lock() that read a count of two or more is overtaken by the release of all owners before it increments", "lock() revives an object that has been destroyed", ""),
 "c02-lock-gives-up": ("C02", [(A, "        while (rc != 0) {", "        for (int tries = 0; rc != 0 && tries < 3; ++tries) {")],
    "three failed compare-exchanges in a row in one lock(), while other threads change the count", "lock() returns null for an object that was owned throughout the call", ""),
 "c03-null-owner-leaks": ("C03", [(S, "        if (m.cb) m.cb->dec_strong_ref(this);\n    }\n\n    void reset", "        if (m.ptr && m.cb) m.cb->dec_strong_ref(this);\n    }\n\n    void reset")],
    "an owner whose pointer is null: made from a null pointer, or an alias that points to nothing", "such an owner never gives up its share: bookkeeping memory and object are leaked", ""),
 "c03-allocator-after-destruction": ("C03", [(C, "        self_alloc_type myalloc = get_self_alloc(*this); // slice\n        this->~control_block_resource();\n", "        this->~control_block_resource();\n        self_alloc_type myalloc = get_self_alloc(*this); // slice\n")],
    "an allocator with state that its destructor takes away", "the memory is given back to an allocator copied from one that is already destroyed", ""),
 "c04-release-only-decrement": ("C04", [(A, "        return m_refs.fetch_sub(1, std::memory_order_acq_rel) - 1;", "        return m_refs.fetch_sub(1, std::memory_order_release) - 1;")],
    "the destroying thread is not the one that wrote last, in the C++ memory model", "the destructor is not ordered after what other owners did", "-fsanitize=thread"),
 "c05-exchange-in-two-steps": ("C05", [(Q, "        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            m_ptr.swap(ptr);\n        }\n        return ptr;", "        auto old = load();\n        store(std::move(ptr));\n        return old;")],
    "another thread changing the storage between the two halves of an exchange", "exchange returns a value it did not replace, and another one is lost", ""),
 "c05-cas-compares-owner": ("C05", [(Q, "        if (m_ptr == expect) {", "        if (m_ptr == expect && same_owner(m_ptr, expect)) {")],
    "equal pointers with different owners: aliases of one address, or null pointers with and without an owner", "compare_exchange fails although the values compare equal, for ever", ""),
 "c06-copy-outside-the-lock": ("C06", [(Q, "        impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;", "        const shared_pointer_type* p;\n        { impl::spinlock::lock_guard _l(m_spinlock); p = &m_ptr; }\n        return *p;")],
    "a store or exchange between the end of the lock and the copy in load()", "a loaded value may be destroyed already, or be a torn mix of two", ""),
 "c06-relaxed-lock": ("C06", [(K, "flag.test_and_set(std::memory_order_acquire)", "flag.test_and_set(std::memory_order_relaxed)")],
    "a weakly ordered machine, or a compiler moving accesses above the lock", "what was written under the lock is not seen by the next thread that takes it", "-fsanitize=thread"),
 "c07-store-destroys-under-lock": ("C07", [(Q, "        impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }", "        impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr = std::move(ptr);\n    }")],
    "store() displaces the last owner of an object whose destructor uses the same storage", "the destructor runs under the spinlock and waits for it for ever", ""),
 "c08-unique-lost": ("C08", [(C, "        auto tmp = rsrc_type::create(std::move(a));\n        new (tmp->obj()) uptr_type(std::move(uptr));", "        uptr_type held(std::move(uptr));\n        auto tmp = rsrc_type::create(std::move(a));\n        new (tmp->obj()) uptr_type(std::move(held));")],
    "allocation failure while a unique_ptr is handed over to shared ownership", "the unique_ptr that was passed in has lost its object", ""),
 "c08-throwing-constructor-leaks": ("C08", [(C, "        new (tmp->obj()) T(std::forward<Args>(args)...);\n        auto cb = tmp.release();", "        auto cb = tmp.release();\n        new (cb->obj()) T(std::forward<Args>(args)...);")],
    "a constructor that throws inside make_shared", "the memory of object and control block is leaked", ""),
 "c09-assignment-transfers": ("C09", [(F, "    basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }", "    basic_enable_shared_from& operator=(const basic_enable_shared_from& o) { if (o.m.cb) m = o.m; return *this; }")],
    "an owned object assigned to another object, which is then asked for a pointer to itself", "the object assigned to hands out pointers that belong to the other one", ""),
 "c09-weak-count-read-early": ("C09", [(C, "            destroy_resource();\n            dec_weak_ref(src);", "            const bool last = m_weak.count() == 1;\n            destroy_resource();\n            if (last) destroy_self();\n            else dec_weak_ref(src);")],
    "an object without weak pointers whose destructor asks for one to itself and stores it elsewhere", "the control block is freed while that weak pointer refers to it", "-fsanitize=address"),
 "c10-weak-swap-with-empty": ("C10", [(W, "            if (m.cb) m.cb->transfer_weak(&r, this);", "            if (m.cb && r.m.cb) m.cb->transfer_weak(&r, this);")],
    "swapping a weak pointer with an empty one", "the control block is not told that the weak pointer is elsewhere now", ""),
 "c12-array-reset-order": ("C12", [(U, "        auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            D::operator()(old);\n        }", "2@        auto old = this->m_ptr;\n        if (old) {\n            D::operator()(old);\n        }\n        this->m_ptr = p;")],
    "an array element whose destructor looks at (or resets) the pointer that is being reset", "the pointer still holds the dying array; a nested reset disposes of it twice", ""),
 "c12-array-move-drops-deleter": ("C12", [(U, "    unique_ptr(unique_ptr&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}", "2@    unique_ptr(unique_ptr&& other) noexcept : common(other.release()) {}")],
    "moving a unique_ptr to an array with a deleter that has state", "the array is disposed of by another deleter than the one it was paired with", ""),
 "c13-swap-of-aliases": ("C13", [(W, "            std::swap(m.ptr, r.m.ptr);", "            // nothing to do, they share an owner")],
    "swapping two weak pointers to different parts of one object", "the swap does nothing; lock() afterwards yields the wrong part", ""),
 "c14-stale-desired-value": ("C14", [(A, "        while (rc != 0) {\n            if (m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed)) {\n                return rc + 1;", "        const auto next = rc + 1;\n        while (rc != 0) {\n            if (m_refs.compare_exchange_weak(rc, next, std::memory_order_acq_rel, std::memory_order_relaxed)) {\n                return next;")],
    "another thread changing the count between the read and the compare-exchange of inc_nz", "after a retry the count is set to a stale value: increments or decrements are lost", ""),
 "c15-store-destroys-under-lock": ("C15", [(X, "        xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }", "        xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr = std::move(ptr);\n    }")],
    "store() displaces the last owner of an object whose destructor uses the same storage", "the destructor runs under the spinlock and waits for it for ever", ""),
 "c15-cas-in-two-steps": ("C15", [(X, "        xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        if (m_ptr == expect) {", "        const bool same = load() == expect;\n        xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        if (same) {")],
    "another thread changing the storage between comparison and replacement", "two compare_exchanges with the same expected value both succeed", ""),
 "c16-alias-of-null-owner": ("C16", [(S, "    if (owner.use_count() == 0) return {};", "    if (!owner) return {};")],
    "make_aliased from a pointer that owns something but points to null", "the alias owns nothing and its object may be destroyed under it", ""),
 "c17-weak-self-assignment": ("C17", [(W, "        if (&r == this) return *this; // self usurp\n        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(r.m);", "        if (!r.m.cb) { reset(); return *this; }\n        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(r.m);")],
    "assigning a weak pointer to itself when it is the last one to an expired object", "the bookkeeping memory is freed and then used", "-fsanitize=address"),
 "c20-exchange-boxes": ("C20", [(Q, "        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            m_ptr.swap(ptr);\n        }\n        return ptr;", "        // keep the swapped words off the caller's stack, which other threads may be spinning next to\n        auto box = xmem::unique_ptr<shared_pointer_type>(new shared_pointer_type(std::move(ptr)));\n        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            m_ptr.swap(*box);\n        }\n        return std::move(*box);")],
    "an allocation failure while a value is exchanged", "exchange() ends the program when there is no memory", ""),
 "c01-sixteen-bit-count": ("C01", [(A, "    std::atomic_uint32_t m_refs = {1};", "    std::atomic<uint16_t> m_refs = {1};")],
    "more than 65535 strong pointers to one object", "the count wraps around; the object is destroyed while tens of thousands of pointers own it", ""),
 "c13-sixteen-bit-count": ("C13", [(L, "    uint32_t m_refs = 1;", "    uint16_t m_refs = 1;")],
    "more than 65535 local pointers to one object", "use_count() is wrong and the object is destroyed early", ""),
 "c04-spare-block": ("C04", [("allocator.hpp", "        auto ret = ::operator new(n * sizeof(T), align_val);\n        return reinterpret_cast<T*>(ret);", "        if (n == 1 && spare) { // the block given back last\n            auto ret = spare;\n            spare = nullptr;\n            return ret;\n        }\n        auto ret = ::operator new(n * sizeof(T), align_val);\n        return reinterpret_cast<T*>(ret);"), ("allocator.hpp", "    void deallocate(T* ptr, size_t) {\n", "    static inline T* spare = nullptr;\n    void deallocate(T* ptr, size_t n) {\n        if (n == 1 && !spare) {\n            spare = ptr;\n            return;\n        }\n")],
    "two threads creating or destroying unrelated shared objects of one type at the same time", "a hidden global is read and written without synchronisation: two objects may be given the same memory", "-fsanitize=thread"),
 "c16-increment-in-assert": ("C16", [(C, '#include "allocator.hpp"\n', '#include "allocator.hpp"\n\n#include <cassert>\n'), (C, "    void inc_strong_ref(const void*) noexcept {\n        m_strong.inc();", "    void inc_strong_ref(const void*) noexcept {\n        assert(m_strong.inc() > 1); // nobody takes a share of what nobody owns")],
    "a build with NDEBUG, in which the assert and the increment in it are gone", "copies do not take a share: the object is destroyed under its owners", "-DNDEBUG"),
 "c05-load-of-ownerless": ("C05", [(Q, "        impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;", "        impl::spinlock::lock_guard _l(m_spinlock);\n        return no_owner(m_ptr) ? shared_pointer_type() : m_ptr;")],
    "a pointer without an owner (to something static, say) kept in a storage", "load() yields null although exchange() yields the pointer: no order of the operations explains that", ""),
 "c15-owner-of-expired": ("C15", [(X, "bool same_owner(const std::weak_ptr<T>& a, const std::shared_ptr<U>& b) {\n    return !a.owner_before(b) && !b.owner_before(a);", "bool same_owner(const std::weak_ptr<T>& a, const std::shared_ptr<U>& b) {\n    return same_owner(a.lock(), b);")],
    "a weak pointer that has expired, compared with an empty pointer or with one of its own group", "same_owner says that they share an owner, or that they do not, depending on when the object dies", ""),

 "c11-same-owner-means-self": ("C11", [(S, "        if (&r == this) return *this; // self usurp", "2@        if (r.m.cb == m.cb && r.m.ptr == m.ptr) { // self usurp, or nothing changes\n            return *this;\n        }")],
    "moving from a pointer that shares its owner with the target, like the pointer to itself that an object in a cycle holds", "the source keeps its share: moving the last link of a cycle out of it no longer breaks the cycle, the object leaks", ""),
 "c13-ownerless-swap": ("C13", [(S, "        else {\n            std::swap(m.ptr, r.m.ptr);\n        }", "        else if (m.cb) { // two empty ones need nothing\n            std::swap(m.ptr, r.m.ptr);\n        }")],
    "swapping or assigning pointers that both have no owner, of which one points to something static", "the pointer keeps pointing to what it pointed to", ""),
}
