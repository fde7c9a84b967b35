#!/usr/bin/env python3
"""Specificity: behaviour-preserving rewrites of the headers, in a scratch copy; every check must stay quiet.

  benign.py [-s SCALE] [-p PROPS] [NAME...]

Uses XMEM_REPO, never touches /repo. Not used by any check.
"""
import os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, C, S, W, Q, U, F, X, K, L, P = ("atomic_ref_count.hpp", "common_control_block.hpp", "basic_shared_ptr.hpp", "basic_weak_ptr.hpp", "basic_atomic_shared_ptr_storage.hpp",
    "unique_ptr.hpp", "basic_shared_from.hpp", "std_helpers.hpp", "bits/spinlock.hpp", "local_ref_count.hpp", "cb_ptr_pair.hpp")
ALL = [f"C{i:02}" for i in range(1, 18)] + ["C20"]
SHARED = [p for p in ALL if p not in ("C12", "C14", "C15")]
STO = ["C05", "C06", "C07", "C10", "C15"]
LOCK = "        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;"
# name, [(file, old, new)...] (all occurrences), checks
B = [
 ("dec release + fence", [(A, "return m_refs.fetch_sub(1, std::memory_order_acq_rel) - 1;", "auto n = m_refs.fetch_sub(1, std::memory_order_release) - 1; if (n == 0) std::atomic_thread_fence(std::memory_order_acquire); return n;")], ALL),
 ("all seq_cst", [(A, "std::memory_order_acq_rel", "std::memory_order_seq_cst"), (A, "std::memory_order_relaxed", "std::memory_order_seq_cst"), (A, "std::memory_order_acquire", "std::memory_order_seq_cst")], ALL),
 ("inc_nz strong", [(A, "compare_exchange_weak", "compare_exchange_strong")], ["C14", "C02", "C01"]),
 ("inc_nz relaxed first load", [(A, "auto rc = m_refs.load(std::memory_order_acquire);", "auto rc = m_refs.load(std::memory_order_relaxed);")], ["C14", "C02", "C01", "C04", "C16", "C17", "C09"]),
 ("inc_nz for loop", [(A, """        while (rc != 0) {
            if (m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed)) {
                return rc + 1;
            }
        }
        return 0;""", """        for (;;) {
            if (rc == 0) return 0;
            const auto next = rc + 1;
            if (m_refs.compare_exchange_weak(rc, next, std::memory_order_acq_rel, std::memory_order_relaxed)) return next;
        }""")], ["C14", "C02", "C01", "C04"]),
 ("inc operator++", [(A, "return m_refs.fetch_add(1, std::memory_order_relaxed) + 1;", "return ++m_refs;"), (A, "return m_refs.fetch_sub(1, std::memory_order_acq_rel) - 1;", "return --m_refs;")], ["C14", "C02", "C01", "C04"]),
 ("no decrement of the last weak", [(C, "if (m_weak.dec() == 0) {", "if (m_weak.count() == 1) { std::atomic_thread_fence(std::memory_order_acquire); destroy_self(); }\n        else if (m_weak.dec() == 0) {"), (C, '#include "allocator.hpp"', '#include "allocator.hpp"\n#include <atomic>')], SHARED),
 ("dec_strong early return", [(C, """        if (m_strong.dec() == 0) {
            destroy_resource();
            dec_weak_ref(src);
        }""", """        const auto left = m_strong.dec();
        if (left != 0) return;
        this->destroy_resource();
        this->dec_weak_ref(src);""")], SHARED),
 ("ttas yield", [(K, "std::atomic_flag flag = ATOMIC_FLAG_INIT;", "std::atomic<bool> flag{false};"), (K, LOCK, "        while (flag.exchange(true, std::memory_order_acquire)) { while (flag.load(std::memory_order_relaxed)) std::this_thread::yield(); }"),
    (K, "flag.clear(std::memory_order_release);", "flag.store(false, std::memory_order_release);"), (K, "#include <new>", "#include <new>\n#include <thread>")], STO),
 ("ttas pause backoff", [(K, "std::atomic_flag flag = ATOMIC_FLAG_INIT;", "std::atomic<bool> flag{false};"), (K, LOCK, "        for (int n = 1; flag.exchange(true, std::memory_order_acquire); n = n < 64 ? n * 2 : n) for (int i = 0; i < n; ++i) __builtin_ia32_pause();"),
    (K, "flag.clear(std::memory_order_release);", "flag.store(false, std::memory_order_release);")], STO),
 ("cas lock", [(K, "std::atomic_flag flag = ATOMIC_FLAG_INIT;", "std::atomic<int> flag{0};"), (K, LOCK, "        for (;;) { int e = 0; if (flag.compare_exchange_weak(e, 1, std::memory_order_acquire, std::memory_order_relaxed)) return; }"),
    (K, "flag.clear(std::memory_order_release);", "flag.store(0, std::memory_order_release);")], STO),
 ("sleeping lock", [(K, LOCK, "        while (flag.test_and_set(std::memory_order_acquire)) std::this_thread::sleep_for(std::chrono::microseconds(50));"), (K, "#include <new>", "#include <new>\n#include <thread>\n#include <chrono>")], STO),
 ("ticket lock", [(K, "std::atomic_flag flag = ATOMIC_FLAG_INIT;", "std::atomic<unsigned> next{0}, serving{0};"), (K, LOCK, "        const auto my = next.fetch_add(1, std::memory_order_relaxed); while (serving.load(std::memory_order_acquire) != my) /* spin */;"),
    (K, "flag.clear(std::memory_order_release);", "serving.store(serving.load(std::memory_order_relaxed) + 1, std::memory_order_release);")], STO),
 ("std::mutex", [(K, "std::atomic_flag flag = ATOMIC_FLAG_INIT;", "std::mutex mtx;"), (K, LOCK, "        mtx.lock();"), (K, "flag.clear(std::memory_order_release);", "mtx.unlock();"), (K, "#include <new>", "#include <new>\n#include <mutex>")], STO),
 ("std::lock_guard", [(K, """    struct lock_guard {
        lock_guard(spinlock& sl) noexcept : m_sl(sl) { m_sl.lock(); }
        ~lock_guard() { m_sl.unlock(); }
    private:
        spinlock& m_sl;
    };""", "    using lock_guard = std::lock_guard<spinlock>;"), (K, "#include <new>", "#include <new>\n#include <mutex>")], STO),
 ("storage rewrite", [(Q, """        impl::spinlock::lock_guard _l(m_spinlock);
        return m_ptr;""", """        shared_pointer_type ret;
        m_spinlock.lock();
        ret = m_ptr;
        m_spinlock.unlock();
        return ret;"""), (Q, """        impl::spinlock::lock_guard _l(m_spinlock);
        m_ptr.swap(ptr);
    }

    shared""", """        (void)exchange(std::move(ptr));
    }

    shared"""), (Q, "if (m_ptr == expect) {\n            m_ptr.swap(ptr);\n            return true;\n        }\n        else {\n            cur = m_ptr;\n            expect.swap(cur);\n            return false;\n        }",
    "if (m_ptr != expect) {\n            cur = m_ptr;\n            std::swap(cur, expect);\n            return false;\n        }\n        m_ptr.swap(ptr);\n        return true;")], STO),
 ("xstd rewrite", [(X, """        xmem::impl::spinlock::lock_guard _l(m_spinlock);
        return m_ptr;""", """        m_spinlock.lock();
        auto ret = m_ptr;
        m_spinlock.unlock();
        return ret;"""), (X, "        m_ptr.swap(ptr);\n    }\n\n    sptr exchange", "        std::swap(m_ptr, ptr);\n    }\n\n    sptr exchange")], ["C15"]),
 ("cas expect outside the lock", [(Q, """        impl::spinlock::lock_guard _l(m_spinlock);
        if (m_ptr == expect) {""", """        const auto raw = expect.get();
        impl::spinlock::lock_guard _l(m_spinlock);
        if (m_ptr.get() == raw) {""")], STO),
 ("assign with temporaries", [(S, "basic_shared_ptr(r).swap(*this);", "basic_shared_ptr tmp(r); tmp.swap(*this);"), (S, "basic_shared_ptr(std::move(r)).swap(*this);", "basic_shared_ptr tmp(std::move(r)); swap(tmp);"), (S, "basic_shared_ptr().swap(*this);", "basic_shared_ptr tmp; swap(tmp);")], SHARED),
 ("no self checks", [(S, "        if (&r == this) return *this; // self usurp\n        basic", "        basic")], SHARED),
 ("move ctor by swap", [(S, """    basic_shared_ptr(basic_shared_ptr&& r) noexcept {
        init_from_move(r);""", """    basic_shared_ptr(basic_shared_ptr&& r) noexcept : m(nullptr) {
        swap(r);""")], SHARED),
 ("reset by exchange", [(S, "basic_shared_ptr().swap(*this); // empty", "auto cb = m.cb; m.reset(); if (cb) cb->dec_strong_ref(this); // empty")], SHARED),
 ("destructor helper", [(S, "    ~basic_shared_ptr() {\n        if (m.cb) m.cb->dec_strong_ref(this);\n    }", "    ~basic_shared_ptr() { drop(); }"), (S, "    // not new!", "    void drop() noexcept { auto cb = m.cb; if (!cb) return; cb->dec_strong_ref(this); }\n    // not new!")], SHARED),
 ("make_aliased by owner", [(S, "if (owner.use_count() == 0) return {};", "if (!owner.owner()) return basic_shared_ptr<CBF, T>();")], ["C16", "C13", "C01"]),
 ("dynamic cast rewrite", [(S, "    if (!ptr) return {};\n    return make_aliased(owner, ptr);", "    if (ptr) return make_aliased(owner, ptr);\n    return nullptr;")], ["C16", "C13", "C01"]),
 ("weak copy and swap", [(W, "        if (&r == this) return *this; // self usurp\n        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(r.m);", "        basic_weak_ptr(r).swap(*this);"), (W, "        if (&r == this) return *this; // self usurp\n        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_move(r);", "        basic_weak_ptr(std::move(r)).swap(*this);"),
    (W, "        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(sptr.m);", "        basic_weak_ptr(sptr).swap(*this);")], SHARED),
 ("weak assign same owner shortcut", [(W, "        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(sptr.m);", "        if (m.cb == sptr.m.cb) { m = sptr.m; return *this; }\n        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(sptr.m);")], SHARED),
 ("lock through a local", [(W, "        if (!m.cb) return {};\n\n        basic_shared_ptr<CBF, T> ret;\n        if (!m.cb->inc_strong_ref_nz(&ret)) return ret;\n\n        ret.m = m;\n        return ret;",
    "        basic_shared_ptr<CBF, T> ret;\n        const auto cb = m.cb;\n        if (cb && cb->inc_strong_ref_nz(&ret)) { ret.m.cb = cb; ret.m.ptr = m.ptr; }\n        return ret;")], SHARED),
 ("lock checks the count first", [(W, "        if (!m.cb) return {};\n\n        basic", "        if (!m.cb) return {};\n        if (m.cb->strong_ref_count() == 0) return {};\n        basic")], SHARED),
 ("expired without use_count", [(W, "return use_count() == 0;", "return !m.cb || m.cb->strong_ref_count() <= 0;")], ["C02", "C13", "C17"]),
 ("shared_from via weak", [(F, "        sptr<T> ret;\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = cb_ptr_pair<control_block_type, T>{m.cb, ptr};\n        return ret;", "        return weak_from(ptr).lock();")], ["C09", "C10", "C11"]),
 ("back reference through a helper", [(C, "                ebf_type* ebf = ptr;\n                ebf->m.cb = cb;\n                ebf->m.ptr = ptr;", "                static_cast<ebf_type*>(ptr)->m = {cb, ptr};")], ["C09", "C10", "C11"]),
 ("create by try/catch", [(C, """        struct memory {
            self_alloc_type& alloc;
            control_block_resource* ptr;
            ~memory() { if (ptr) alloc.deallocate(ptr, 1); }
        } mem{myalloc, myalloc.allocate(1)};
        auto self = new (mem.ptr) control_block_resource(std::move(a));
        mem.ptr = nullptr;
""", """        auto self = myalloc.allocate(1);
        try { new (self) control_block_resource(std::move(a)); }
        catch (...) { myalloc.deallocate(self, 1); throw; }
""")], ["C08", "C03", "C13"]),
 ("make by try/catch", [(C, """        auto tmp = rsrc_type::create(std::move(a));
        new (tmp->obj()) T(std::forward<Args>(args)...);
        auto cb = tmp.release();""", """        auto cb = rsrc_type::create(std::move(a)).release();
        try { new (cb->obj()) T(std::forward<Args>(args)...); }
        catch (...) { cb->destroy_self(); throw; }""")], ["C08", "C03", "C13", "C01"]),
 ("uptr exchange", [(U, "        auto old = m_ptr;\n        m_ptr = Ptr();\n        return old;", "        return std::exchange(m_ptr, Ptr());"), (U, "        auto old = this->m_ptr;\n        this->m_ptr = p;\n", "        auto old = std::exchange(this->m_ptr, p);\n")], ["C12", "C08", "C01", "C03"]),
 ("uptr self guard", [(U, "        unique_ptr(std::move(other)).swap(*this);\n        return *this;\n    }\n\n    template <typename D2>", "        if (&other == this) return *this;\n        unique_ptr(std::move(other)).swap(*this);\n        return *this;\n    }\n\n    template <typename D2>")], ["C12"]),
 ("uptr move with locals", [(U, "unique_ptr(std::move(other)).swap(*this);", "unique_ptr tmp(std::move(other));\n        swap(tmp);")], ["C12"]),
 ("uptr dtor local", [(U, "        if (this->m_ptr) {\n            D::operator()(this->m_ptr);\n        }\n    }", "        auto p = this->get();\n        if (p == nullptr) return;\n        get_deleter()(p);\n    }")], ["C12"]),
 ("uptr reset using", [(U, "    unique_ptr(std::nullptr_t) noexcept {}", "    unique_ptr(std::nullptr_t) noexcept : common(nullptr) {}"), (U, "        reset();\n        return *this;", "        this->reset(nullptr);\n        return *this;")], ["C12"]),
 ("pair by members", [(P, "cb_ptr_pair(cb_ptr_pair&& r) noexcept : cb(r.cb), ptr(r.ptr) {\n        r.reset();", "cb_ptr_pair(cb_ptr_pair&& r) noexcept : cb(std::exchange(r.cb, nullptr)), ptr(std::exchange(r.ptr, nullptr)) {"), (P, "#pragma once", "#pragma once\n#include <utility>")], SHARED),
 ("swap always through locals", [(S, "            std::swap(m.ptr, r.m.ptr);", "            auto p = m.ptr; m.ptr = r.m.ptr; r.m.ptr = p;")], SHARED),
 ("local counters", [(L, "return ++m_refs;", "m_refs += 1; return m_refs;"), (L, "if (m_refs == 0) return 0;\n        return inc();", "return m_refs ? inc() : 0;")], ["C13", "C01", "C03"]),
 ("yield after some time", [(K, "#include <atomic>\n", "#include <atomic>\n#include <chrono>\n#include <thread>\n"), (K, LOCK, "        auto t = std::chrono::steady_clock::now();\n        while (flag.test_and_set(std::memory_order_acquire)) if (std::chrono::steady_clock::now() - t > std::chrono::microseconds(20)) std::this_thread::yield();")], STO + ["C20"]),
 ("thread id kept for debugging", [(K, "#include <atomic>\n", "#include <atomic>\n#include <cassert>\n#include <thread>\n"), (K, "    std::atomic_flag flag = ATOMIC_FLAG_INIT;", "    std::atomic_flag flag = ATOMIC_FLAG_INIT;\n    std::thread::id by;"), (K, LOCK, LOCK + "\n        assert(by == std::thread::id());\n        by = std::this_thread::get_id();"), (K, "        flag.clear(std", "        assert(by == std::this_thread::get_id());\n        by = std::thread::id();\n        flag.clear(std")], STO + ["C20"]),
 ("recursive mutex", [(K, "#include <atomic>\n", "#include <atomic>\n#include <mutex>\n"), (K, "std::atomic_flag flag = ATOMIC_FLAG_INIT;", "std::recursive_mutex mtx;"), (K, LOCK, "        mtx.lock();"), (K, "flag.clear(std::memory_order_release);", "mtx.unlock();")], STO + ["C20"]),
 ("condition variable", [(K, "#include <atomic>\n", "#include <atomic>\n#include <mutex>\n#include <condition_variable>\n"), (K, "std::atomic_flag flag = ATOMIC_FLAG_INIT;", "std::mutex mtx; std::condition_variable cv; bool held = false;"), (K, LOCK, "        std::unique_lock<std::mutex> l(mtx);\n        cv.wait(l, [&] { return !held; });\n        held = true;"), (K, "flag.clear(std::memory_order_release);", "std::lock_guard<std::mutex> l(mtx); held = false; cv.notify_one();")], STO + ["C20"]),
 ("timed waits in a loop", [(K, "#include <atomic>\n", "#include <atomic>\n#include <mutex>\n#include <chrono>\n#include <condition_variable>\n"), (K, "std::atomic_flag flag = ATOMIC_FLAG_INIT;", "std::mutex mtx; std::condition_variable cv; bool held = false;"), (K, LOCK, "        std::unique_lock<std::mutex> l(mtx);\n        while (held) cv.wait_for(l, std::chrono::milliseconds(1));\n        held = true;"), (K, "flag.clear(std::memory_order_release);", "std::lock_guard<std::mutex> l(mtx); held = false;")], STO + ["C20"]),
 ("one lock for all storages", [(Q, "    mutable impl::spinlock m_spinlock;", "    inline static impl::spinlock m_spinlock{};"), (X, "    mutable xmem::impl::spinlock m_spinlock;", "    inline static xmem::impl::spinlock m_spinlock{};")], STO + ["C20"]),
 ("lock object made by a local static", [(Q, "    mutable impl::spinlock m_spinlock;", "    struct lock_pool { impl::spinlock l[4]; lock_pool() {} };\n    static lock_pool& pool() { static lock_pool p; return p; }"), (Q, "_l(m_spinlock)", "_l(pool().l[(reinterpret_cast<std::uintptr_t>(this) >> 6) % 4])"), (Q, '#include "bits/spinlock.hpp"', '#include <cstddef>\n#include <cstdint>\n#include "bits/spinlock.hpp"')], STO + ["C20"]),
 ("weak reset by swap", [(W, "        if (m.cb) {\n            m.cb->dec_weak_ref(this);\n            m.reset();\n        }", "        basic_weak_ptr().swap(*this);"), (W, "        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(sptr.m);\n        return *this;", "        basic_weak_ptr(sptr).swap(*this);\n        return *this;")], SHARED),
 ("plain new for small alignment", [("allocator.hpp", "        auto ret = ::operator new(n * sizeof(T), align_val);", "        void* ret;\n        if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) ret = ::operator new(n * sizeof(T), align_val);\n        else ret = ::operator new(n * sizeof(T));"), ("allocator.hpp", "        ::operator delete(del, align_val);", "        if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) ::operator delete(del, align_val);\n        else ::operator delete(del);")], SHARED),
 ("std::allocator inside", [("allocator.hpp", "        auto ret = ::operator new(n * sizeof(T), align_val);\n        return reinterpret_cast<T*>(ret);", "        return std::allocator<T>{}.allocate(n);"), ("allocator.hpp", "    void deallocate(T* ptr, size_t) {\n        auto del = reinterpret_cast<void*>(ptr);\n        ::operator delete(del, align_val);", "    void deallocate(T* ptr, size_t n) {\n        std::allocator<T>{}.deallocate(ptr, n);")], ["C01", "C03", "C08", "C13", "C20"]),
 ("malloc and free inside", [("allocator.hpp", "        auto ret = ::operator new(n * sizeof(T), align_val);\n", "        auto ret = alignof(T) > alignof(std::max_align_t) ? std::aligned_alloc(alignof(T), n * sizeof(T)) : std::malloc(n * sizeof(T));\n        if (!ret) throw std::bad_alloc();\n"), ("allocator.hpp", "        ::operator delete(del, align_val);", "        std::free(del);"), ("allocator.hpp", "#include <memory>", "#include <memory>\n#include <cstddef>\n#include <cstdlib>\n#include <new>")], ["C01", "C03", "C04", "C08", "C13", "C17", "C20"]),
 ("sized delete", [("allocator.hpp", "    void deallocate(T* ptr, size_t) {", "    void deallocate(T* ptr, size_t n) {"), ("allocator.hpp", "::operator delete(del, align_val)", "::operator delete(del, n * sizeof(T), align_val)")], ["C01", "C03", "C08", "C13"]),
 ("wider control block", [(C, "    RC m_strong;\n    RC m_weak;", "    RC m_weak;\n    void* m_reserved[3] = {};\n    RC m_strong;")], SHARED),
 ("64 bit counts", [(A, "std::atomic_uint32_t m_refs = {1};", "std::atomic<uint64_t> m_refs = {1};"), (L, "uint32_t m_refs = 1;", "uint64_t m_refs = 1;")], ["C01", "C02", "C03", "C13", "C14", "C17"]),
 ("dec_weak helper with fence", [(C, "        if (m_weak.dec() == 0) {\n            destroy_self();", "        const bool last = m_weak.dec() == 0;\n        if (last) {\n            this->destroy_self();")], SHARED),
 ("allocator copied by move", [(C, "        self_alloc_type myalloc = a;\n        return myalloc;", "        return self_alloc_type(a);"), (C, "        auto myalloc = get_self_alloc(a);\n        struct memory", "        auto myalloc = get_self_alloc(static_cast<const Alloc&>(a));\n        struct memory")], ["C03", "C08", "C13"]),
 ("storage destructor and default member", [(Q, "    basic_atomic_shared_ptr_storage(const basic_atomic_shared_ptr_storage&) = delete;", "    ~basic_atomic_shared_ptr_storage() { m_ptr.reset(); }\n    basic_atomic_shared_ptr_storage(const basic_atomic_shared_ptr_storage&) = delete;"), (Q, "    void store(shared_pointer_type ptr) noexcept {\n        impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);", "    void store(shared_pointer_type ptr) noexcept {\n        (void)exchange(std::move(ptr));")], STO + ["C20"]),
 ("shared same owner shortcut", [(S, "        if (&r == this) return *this; // self usurp\n        basic_shared_ptr(r).swap(*this);", "        if (m.cb == r.m.cb) {\n            m.ptr = r.m.ptr;\n            return *this;\n        }\n        basic_shared_ptr(r).swap(*this);")], ["C01", "C10", "C11", "C13", "C16"]),
 ("count first, then the pair", [(S, "        m = r;\n        if (m.cb) m.cb->inc_strong_ref(this);", "        if (r.cb) {\n            r.cb->inc_strong_ref(this);\n        }\n        m.cb = r.cb;\n        m.ptr = r.ptr;"), (S, "        m = std::move(r.m);\n        if (m.cb) m.cb->transfer_strong(this, &r);", "        if (auto cb = r.m.cb) cb->transfer_strong(this, &r);\n        m = std::move(r.m);"), (W, "        if (m.cb) m.cb->inc_weak_ref(this);", "        if (r.cb) r.cb->inc_weak_ref(this);")], ["C01", "C02", "C03", "C04", "C10", "C11", "C13", "C16", "C17"]),
 ("uptr swaps deleters first", [(U, "        common::swap(other);\n        std::swap(m_deleter, other.m_deleter);", "        std::swap(m_deleter, other.m_deleter);\n        common::swap(other);"), (U, "        common::swap(other);\n        std::swap(get_deleter(), other.get_deleter());", "        std::swap(get_deleter(), other.get_deleter());\n        common::swap(other);")], ["C12", "C01"]),
 ("counters by cas loops", [(A, "return m_refs.fetch_add(1, std::memory_order_relaxed) + 1;", "auto n = m_refs.load(std::memory_order_relaxed);\n        while (!m_refs.compare_exchange_weak(n, n + 1, std::memory_order_relaxed)) {}\n        return n + 1;"), (A, "return m_refs.fetch_sub(1, std::memory_order_acq_rel) - 1;", "auto n = m_refs.load(std::memory_order_relaxed);\n        while (!m_refs.compare_exchange_weak(n, n - 1, std::memory_order_acq_rel, std::memory_order_relaxed));\n        return n - 1;")], ["C01", "C02", "C04", "C14", "C16"]),
 ("storage cas with early return", [(Q, """        if (m_ptr == expect) {
            m_ptr.swap(ptr);
            return true;
        }
        else {
            cur = m_ptr;
            expect.swap(cur);
            return false;
        }""", """        const bool same = m_ptr.get() == expect.get();
        if (!same) {
            cur = m_ptr;
            cur.swap(expect);
            return same;
        }
        ptr.swap(m_ptr);
        return same;""")], STO),
 ("volatile backoff", [(K, LOCK, """        int n = 1;
        while (flag.test_and_set(std::memory_order_acquire)) {
            for (volatile int i = 0; i < n; i = i + 1) {}
            if (n < 1024) n *= 2;
        }""")], STO),
 ("strong count starts at zero", [(C, "    void init_strong(const void*) noexcept {}", "    control_block_base() noexcept { m_strong.dec(); }\n    void init_strong(const void*) noexcept { m_strong.inc(); }")], ["C01", "C03", "C08", "C10", "C13"]),
 ("destroy_resource through a helper", [(C, "            destroy_resource();\n            dec_weak_ref(src);\n", "            expire(src);\n"), (C, "    bool inc_strong_ref_nz(const void*) noexcept {", "    void expire(const void* src) noexcept {\n        destroy_resource();\n        dec_weak_ref(src);\n    }\n    bool inc_strong_ref_nz(const void*) noexcept {"), (C, "        new (tmp->obj()) uptr_type(std::move(uptr));\n        auto cb = tmp.release();\n        return prepare_pair(cb, cb->obj()->get());", "        auto held = new (tmp->obj()) uptr_type(std::move(uptr));\n        auto raw = held->get();\n        return prepare_pair(tmp.release(), raw);")], SHARED),
 ("many small refactorings", [
  (F, """        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;
        return ret;
    }
    sptr<const void>""", """        promote(ret, m);
        return ret;
    }
    sptr<const void>"""),
  (F, """        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = cb_ptr_pair<control_block_type, T>{m.cb, ptr};
        return ret;""", """        promote(ret, cb_ptr_pair<control_block_type, T>{m.cb, ptr});
        return ret;"""),
  (F, "    friend CBF;", """    friend CBF;

    template <typename T, typename P>
    static bool promote(sptr<T>& to, const P& what) noexcept {
        auto* const block = what.cb;
        if (!block) return false;
        if (!block->inc_strong_ref_nz(&to)) return false;
        to.m = what;
        return true;
    }
"""),
  (C, """                ebf_type* ebf = ptr;
                ebf->m.cb = cb;
                ebf->m.ptr = ptr;""", """                link(*static_cast<ebf_type*>(ptr), cb, ptr);"""),
  (C, """    template <typename T>
    static pair<T> prepare_pair(""", """    template <typename E, typename T>
    static void link(E& e, cb_type* cb, T* ptr) noexcept {
        e.m.ptr = ptr;
        e.m.cb = cb;
    }

    template <typename T>
    static pair<T> prepare_pair("""),
  (C, """        new (tmp->obj()) T(std::forward<Args>(args)...);
        auto cb = tmp.release();
        return prepare_pair(cb, cb->obj());""", """        auto* const made = ::new (static_cast<void*>(tmp->obj())) T(std::forward<Args>(args)...);
        return prepare_pair(static_cast<cb_type*>(tmp.release()), made);"""),
  (C, """        if (m_weak.dec() == 0) {
            destroy_self();
        }""", """        const auto left = m_weak.dec();
        if (left > 0) return;
        destroy_self();"""),
  (W, """        if (!m.cb) return {};

        basic_shared_ptr<CBF, T> ret;
        if (!m.cb->inc_strong_ref_nz(&ret)) return ret;

        ret.m = m;
        return ret;""", """        basic_shared_ptr<CBF, T> ret;
        const auto mine = m;
        const bool alive = mine.cb != nullptr && mine.cb->inc_strong_ref_nz(&ret);
        if (alive) {
            ret.m = mine;
        }
        return ret;"""),
  (W, """        if (m.cb) m.cb->dec_weak_ref(this);
        init_from_copy(r.m);""", """        release();
        init_from_copy(r.m);"""),
  (W, """        if (m.cb) m.cb->dec_weak_ref(this);
        init_from_move(r);""", """        release();
        init_from_move(r);"""),
  (W, """private:
    template <typename U>
    void init_from_copy(""", """private:
    void release() noexcept {
        if (auto* cb = m.cb) {
            m.reset();
            cb->dec_weak_ref(this);
        }
    }
    template <typename U>
    void init_from_copy("""),
  (W, """        if (m.cb) {
            m.cb->dec_weak_ref(this);
            m.reset();
        }""", """        release();"""),
  (S, """        if (m.cb != r.m.cb) {
            if (m.cb) m.cb->transfer_strong(&r, this);
            m.swap(r.m);
            if (m.cb) m.cb->transfer_strong(this, &r);
        }
        else {
            std::swap(m.ptr, r.m.ptr);
        }""", """        if (m.cb == r.m.cb) {
            auto* const p = m.ptr;
            m.ptr = r.m.ptr;
            r.m.ptr = p;
            return;
        }
        const auto a = m, b = r.m;
        m = b;
        r.m = a;
        if (a.cb) a.cb->transfer_strong(&r, this);
        if (b.cb) b.cb->transfer_strong(this, &r);"""),
  (K, LOCK, """        for (;;) {
            const bool was = flag.test_and_set(std::memory_order_acquire);
            if (!was) break;
        }"""),
  (L, "        if (m_refs == 0) return 0;\n        return inc();", "        return m_refs ? inc() : 0;"),
  (U, """        auto old = this->m_ptr;
        this->m_ptr = p;
        if (old) {
            D::operator()(old);
        }""", """        pointer old = common::release();
        this->m_ptr = p;
        if (old != nullptr) get_deleter()(old);"""),
  (X, """    std::shared_ptr<T> e;
    return same_owner(ptr, e);""", """    return same_owner(ptr, std::shared_ptr<void>());"""),
  ], ALL),
 ("load takes a copy and swaps", [(Q, "        impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;", "        shared_pointer_type ret;\n        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            shared_pointer_type(m_ptr).swap(ret);\n        }\n        return ret;")], STO + ["C20"]),
]

def main():
    scale, only = "0.2", None
    a = sys.argv[1:]
    while a[:1] and a[0] in ("-s", "-p"):
        if a[0] == "-s": scale = a[1]
        else: only = a[1].split(",")
        a = a[2:]
    bad = 0
    for name, edits, props in B:
        if a and not any(x in name for x in a):
            continue
        d = f"/tmp/benign-{os.getpid()}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo/code", d + "/code")
        ok = True
        for i, (f, o, n) in enumerate(edits):
            p = f"{d}/code/xmem/{f}"
            s = open(p).read()
            if o not in s:
                if "(optional)" not in name: print(f"{name}: edit {i} does not apply"); 
                ok = ok and len(edits) > 1 and name == "uptr reset using"
            open(p, "w").write(s.replace(o, n))
        if ok:
            out = []
            for prop in props:
                if only and prop not in only: continue
                r = subprocess.run([sys.executable, ROOT + "/check.py", prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                    env=dict(os.environ, XMEM_REPO=d, VERIF_SCALE=scale, XMEM_NO_EVIDENCE="1"))
                if r.returncode:
                    out.append(prop + " " + r.stdout[-700:])
            print(name + ": " + ("quiet" if not out else "ALARM " + "\n".join(out)), flush=True)
            ok = not out
        bad += not ok
        shutil.rmtree(d, ignore_errors=True)
    print("all quiet" if not bad else f"{bad} not quiet")
main()
