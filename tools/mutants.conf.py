A, C, S, W, Q, U, F, X, H, L = "atomic_ref_count.hpp", "common_control_block.hpp", "basic_shared_ptr.hpp", "basic_weak_ptr.hpp", "basic_atomic_shared_ptr_storage.hpp", "unique_ptr.hpp", "basic_shared_from.hpp", "std_helpers.hpp", "shared_ptr.hpp", "local_ref_count.hpp"
K = "bits/spinlock.hpp"
M = [
 ("dec relaxed", A, "fetch_sub(1, std::memory_order_acq_rel)", "fetch_sub(1, std::memory_order_relaxed)", ["C04", "C01"]),
 ("dec release", A, "fetch_sub(1, std::memory_order_acq_rel)", "fetch_sub(1, std::memory_order_release)", ["C04"]),
 ("dec acquire", A, "fetch_sub(1, std::memory_order_acq_rel)", "fetch_sub(1, std::memory_order_acquire)", ["C04"]),
 ("dec split", A, "return m_refs.fetch_sub(1, std::memory_order_acq_rel) - 1;", "auto n = m_refs.load(std::memory_order_acquire) - 1; m_refs.store(n, std::memory_order_release); return n;", ["C14", "C01", "C03"]),
 ("inc split", A, "return m_refs.fetch_add(1, std::memory_order_relaxed) + 1;", "auto n = m_refs.load(std::memory_order_relaxed) + 1; m_refs.store(n, std::memory_order_relaxed); return n;", ["C14", "C01", "C16"]),
 ("dec fast path for the last", A, "return m_refs.fetch_sub(1, std::memory_order_acq_rel) - 1;", "if (m_refs.load(std::memory_order_acquire) == 1) { m_refs.store(0, std::memory_order_relaxed); return 0; } return m_refs.fetch_sub(1, std::memory_order_acq_rel) - 1;", ["C14", "C02"]),
 ("dec fast path relaxed", A, "return m_refs.fetch_sub(1, std::memory_order_acq_rel) - 1;", "if (m_refs.load(std::memory_order_relaxed) == 1) { m_refs.store(0, std::memory_order_relaxed); return 0; } return m_refs.fetch_sub(1, std::memory_order_acq_rel) - 1;", ["C04"]),
 ("inc_nz once", A, "while (rc != 0) {", "if (rc != 0) {", ["C14", "C02"]),
 ("inc_nz no reload check", A, "while (rc != 0) {", "if (rc == 0) return 0; while (true) {", ["C14", "C02", "C01"]),
 ("inc_nz check then inc", A, "while (rc != 0) {", "if (rc != 0) return inc(); while (rc != 0) {", ["C14", "C02"]),
 ("inc_nz returns old", A, "return rc + 1;", "return rc;", ["C14"]),
 ("dec_strong weak first", C, "destroy_resource();\n            dec_weak_ref(src);", "dec_weak_ref(src);\n            destroy_resource();", ["C03", "C01"]),
 ("dec_strong no weak", C, "            dec_weak_ref(src);\n", "", ["C03"]),
 ("weak starts uncounted", C, "void inc_weak_ref(const void*) noexcept {\n        m_weak.inc();", "void inc_weak_ref(const void*) noexcept {\n        if (m_weak.count() != 1) m_weak.inc();", ["C03"]),
 ("dec_weak frees when expired", C, "if (m_weak.dec() == 0) {", "if (m_weak.dec() == 0 || (m_strong.count() == 0 && m_weak.count() == 0)) {", ["C03"]),
 ("dec_weak skip when unique", C, "if (m_weak.dec() == 0) {", "if (m_weak.count() == 1 || m_weak.dec() == 0) {", ["C04"]),
 ("destroy_resource after alive check", C, "if (m_strong.dec() == 0) {", "m_strong.dec(); if (m_strong.count() == 0) {", ["C01"]),
 ("lock check then inc", W, "if (!m.cb->inc_strong_ref_nz(&ret)) return ret;", "if (m.cb->strong_ref_count() == 0) return ret;\n        m.cb->inc_strong_ref(&ret);", ["C02", "C01"]),
 ("expired off by one", W, "return use_count() == 0;", "return use_count() <= 1;", ["C02", "C13"]),
 ("make_uptr_cb releases early", C, "auto tmp = rsrc_type::create(std::move(a));\n        new (tmp->obj()) uptr_type(std::move(uptr));", "uptr_type early(std::move(uptr));\n        auto tmp = rsrc_type::create(std::move(a));\n        new (tmp->obj()) uptr_type(std::move(early));", ["C08"]),
 ("make_resource leaks on throw", C, "auto tmp = rsrc_type::create(std::move(a));\n        new (tmp->obj()) T(std::forward<Args>(args)...);\n        auto cb = tmp.release();", "auto cb = rsrc_type::create(std::move(a)).release();\n        new (cb->obj()) T(std::forward<Args>(args)...);", ["C08"]),
 ("for_overwrite leaks on throw", C, "auto tmp = rsrc_type::create(std::move(a));\n        new (tmp->obj()) T;\n        auto cb = tmp.release();", "auto cb = rsrc_type::create(std::move(a)).release();\n        new (cb->obj()) T;", ["C08"]),
 ("destroy_self default allocator", C, "myalloc.deallocate(this, 1);", "::operator delete(this);", ["C03"]),
 ("destroy_self wrong count", C, "myalloc.deallocate(this, 1);", "myalloc.deallocate(this, 2);", ["C03"]),
 ("allocator ignores alignment", "allocator.hpp", "alignof(T)", "alignof(char)", ["C03"]),
 ("copy assign lacks self check", S, "if (&r == this) return *this; // self usurp\n        basic_shared_ptr(r)", "if (m.cb == r.m.cb) return *this; // self usurp\n        basic_shared_ptr(r)", ["C13", "C16"]),
 #("move leaves source", S, "m = std::move(r.m);\n        if (m.cb) m.cb->transfer_strong(this, &r);", "m = std::move(r.m);\n        r.m.ptr = m.ptr; if (m.cb) m.cb->transfer_strong(this, &r);", ["C13"]),
 ("swap same group ignored", S, "            std::swap(m.ptr, r.m.ptr);\n", "", ["C13", "C16"]),
 ("swap no transfer", S, "if (m.cb) m.cb->transfer_strong(this, &r);\n        }\n        else", "}\n        else", ["C10"]),
 ("weak swap transfers swapped", W, "if (m.cb) m.cb->transfer_weak(&r, this);\n            m.swap(r.m);", "m.swap(r.m);\n            if (m.cb) m.cb->transfer_weak(&r, this);", ["C10"]),
 ("weak move no transfer", W, "m = std::move(r.m);\n            if (m.cb) m.cb->transfer_weak(this, &r);", "m = std::move(r.m);", ["C10"]),
 ("weak assign leaks", W, "basic_weak_ptr& operator=(basic_weak_ptr&& r) noexcept {\n        if (&r == this) return *this; // self usurp\n        if (m.cb) m.cb->dec_weak_ref(this);", "basic_weak_ptr& operator=(basic_weak_ptr&& r) noexcept {\n        if (&r == this) return *this; // self usurp", ["C03", "C10", "C13"]),
 ("weak from shared assign order", W, "if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(sptr.m);", "if (m.cb == sptr.m.cb) return *this;\n        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(sptr.m);", ["C13"]),
 ("weak alias of expired", W, "if (!r) {", "if (r.expired()) {", ["C13"]),
 ("make_aliased null ptr", S, "if (owner.use_count() == 0) return {};", "if (owner.use_count() == 0 || !ptr) return {};", ["C16"]),
 ("dynamic cast null owner", S, "    if (!ptr) return {};\n    return make_aliased(owner, ptr);", "    return make_aliased(owner, ptr);", ["C16"]),
 ("alias without count", S, "init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));", "m = cb_ptr_pair_type(r.m.cb, aptr); if (m.cb && m.cb->strong_ref_count() > 1) m.cb->inc_strong_ref(this); else if (m.cb) m.cb->inc_strong_ref(this); if (!aptr) { if (m.cb) m.cb->dec_strong_ref(this); m.reset(); }", ["C16", "C13"]),
 ("weak vb conversion (revert)", W, "if constexpr (impl::conversion_needs_object<element_type, typename basic_weak_ptr<CBF, U>::element_type>) {\n            auto alive", "if constexpr (false) {\n            auto alive", ["C17"]),
 #("weak conversion promotes", W, "        else {\n            init_from_copy(r.m);", "        else {\n            auto alive = r.lock(); init_from_copy(r.m);", []),
 ("local dec", L, "--m_refs", "m_refs--", ["C13"]),
 ("F8 reset deleter (revert)", S, "operator=(unique_ptr<U, D>(u, std::move(d)));", "operator=(unique_ptr<U>(u, std::move(d)));", ["C01"]),
 ("F2b assign uptr (revert)", S, "basic_shared_ptr(std::move(uptr)).swap(*this);", "if (m.cb) m.cb->dec_strong_ref(this);\n        init_new(CBF::make_uptr_cb(uptr));", ["C08"]),
 ("F7 cb ctor (revert)", C, "~memory() { if (ptr) alloc.deallocate(ptr, 1); }", "", ["C08"]),
 ('st load unlocked', Q, 'impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;', 'return m_ptr;', ['C05', 'C06']),
 ('st store unlocked', Q, 'impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }', 'm_ptr.swap(ptr);\n    }', ['C05', 'C06']),
 ('st store assigns under lock', Q, 'impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }', 'impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr = std::move(ptr);\n    }', ['C07']),
 ('st exchange in two steps', Q, '            m_ptr.swap(ptr);\n        }\n        return ptr;', '            auto o = m_ptr; m_spinlock.unlock(); m_spinlock.lock(); m_ptr = ptr; ptr = o;\n        }\n        return ptr;', ['C05']),
 ('st exchange two locks', Q, '        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            m_ptr.swap(ptr);\n        }\n        return ptr;', '        auto o = load(); store(std::move(ptr));\n        return o;', ['C05']),
 ('st cas two locks', Q, '        impl::spinlock::lock_guard _l(m_spinlock);\n        if (m_ptr == expect) {\n            m_ptr.swap(ptr);', '        { impl::spinlock::lock_guard _l(m_spinlock);\n cur = m_ptr; }\n        if (cur == expect) {\n            store(std::move(ptr));', ['C05']),
 ('st cas fail assigns under lock', Q, '            cur = m_ptr;\n            expect.swap(cur);', '            expect = m_ptr;', ['C07']),
 ('st cas fail swaps stored', Q, '            cur = m_ptr;\n            expect.swap(cur);', '            expect.swap(m_ptr);', ['C05']),
 ('st cas fail keeps expected', Q, '            cur = m_ptr;\n            expect.swap(cur);', '', ['C05']),
 ('st cas success updates expected', Q, '            m_ptr.swap(ptr);\n            return true;', '            expect = ptr; m_ptr.swap(ptr);\n            return true;', ['C05']),
 ('st cas compares owners', Q, 'if (m_ptr == expect)', 'if (!m_ptr.owner_before(expect) && !expect.owner_before(m_ptr))', ['C05']),
 ('st cas skips equal', Q, '            m_ptr.swap(ptr);\n            return true;', '            if (m_ptr != ptr) m_ptr.swap(ptr);\n            return true;', ['C05']),
 ('st store skips equal', Q, '        m_ptr.swap(ptr);\n    }', '        if (m_ptr != ptr) m_ptr.swap(ptr);\n    }', ['C05', 'C06']),
 ('st store null early', Q, 'impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }', 'if (!ptr) { m_ptr.reset(); return; }\nimpl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }', ['C06']),
 ('st load null early', Q, 'impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;', 'if (!m_ptr) return {};\nimpl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;', ['C06']),
 ('st lock relaxed', K, 'test_and_set(std::memory_order_acquire)', 'test_and_set(std::memory_order_relaxed)', ['C06']),
 ('st unlock relaxed', K, 'clear(std::memory_order_release)', 'clear(std::memory_order_relaxed)', ['C06']),
 ('st lock gives up', K, 'while (flag.test_and_set(std::memory_order_acquire)) /* spin */;', 'for (int i = 0; i < 1000 && flag.test_and_set(std::memory_order_acquire); ++i) /* spin */;', ['C05', 'C06']),
 ('xstd load unlocked', X, 'xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;', 'return m_ptr;', ['C15']),
 ('xstd store unlocked', X, 'xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }', 'm_ptr.swap(ptr);\n    }', ['C15']),
 ('xstd store assigns under lock', X, 'xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }', 'xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr = std::move(ptr);\n    }', ['C15']),
 ('xstd exchange in two steps', X, '            m_ptr.swap(ptr);\n        }\n        return ptr;', '            auto o = m_ptr; m_spinlock.unlock(); m_spinlock.lock(); m_ptr = ptr; ptr = o;\n        }\n        return ptr;', ['C15']),
 ('xstd exchange two locks', X, '        {\n            xmem::impl::spinlock::lock_guard _l(m_spinlock);\n            m_ptr.swap(ptr);\n        }\n        return ptr;', '        auto o = load(); store(std::move(ptr));\n        return o;', ['C15']),
 ('xstd cas two locks', X, '        xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        if (m_ptr == expect) {\n            m_ptr.swap(ptr);', '        { xmem::impl::spinlock::lock_guard _l(m_spinlock);\n cur = m_ptr; }\n        if (cur == expect) {\n            store(std::move(ptr));', ['C15']),
 ('xstd cas fail assigns under lock', X, '            cur = m_ptr;\n            expect.swap(cur);', '            expect = m_ptr;', ['C15']),
 ('xstd cas fail swaps stored', X, '            cur = m_ptr;\n            expect.swap(cur);', '            expect.swap(m_ptr);', ['C15']),
 ('xstd cas fail keeps expected', X, '            cur = m_ptr;\n            expect.swap(cur);', '', ['C15']),
 ('xstd cas success updates expected', X, '            m_ptr.swap(ptr);\n            return true;', '            expect = ptr; m_ptr.swap(ptr);\n            return true;', ['C15']),
 ('xstd cas compares owners', X, 'if (m_ptr == expect)', 'if (!m_ptr.owner_before(expect) && !expect.owner_before(m_ptr))', ['C15']),
 ('xstd cas skips equal', X, '            m_ptr.swap(ptr);\n            return true;', '            if (m_ptr != ptr) m_ptr.swap(ptr);\n            return true;', ['C15']),
 ('xstd store skips equal', X, '        m_ptr.swap(ptr);\n    }', '        if (m_ptr != ptr) m_ptr.swap(ptr);\n    }', ['C15']),
 ('xstd store null early', X, 'xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }', 'if (!ptr) { m_ptr.reset(); return; }\nxmem::impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }', ['C15']),
 ('xstd load null early', X, 'xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;', 'if (!m_ptr) return {};\nxmem::impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;', ['C15']),
 ('xstd lock relaxed', K, 'test_and_set(std::memory_order_acquire)', 'test_and_set(std::memory_order_relaxed)', ['C15']),
 ('xstd unlock relaxed', K, 'clear(std::memory_order_release)', 'clear(std::memory_order_relaxed)', ['C15']),
 ('xstd lock gives up', K, 'while (flag.test_and_set(std::memory_order_acquire)) /* spin */;', 'for (int i = 0; i < 1000 && flag.test_and_set(std::memory_order_acquire); ++i) /* spin */;', ['C15']),
 ('gr copy assign (revert)', S, 'if (&r == this) return *this; // self usurp\n        basic_shared_ptr(r).swap(*this); // release the old object last: it may own r\n', 'if (&r == this) return *this;\n        if (m.cb) m.cb->dec_strong_ref(this);\n        init_from_copy(r.m);\n', ['C11']),
 ('gr copy conv assign (revert)', S, 'operator=(const basic_shared_ptr<CBF, U>& r) noexcept {\n        basic_shared_ptr(r).swap(*this); // release the old object last: it may own r\n', 'operator=(const basic_shared_ptr<CBF, U>& r) noexcept {\n        if (m.cb) m.cb->dec_strong_ref(this);\n        init_from_copy(r.m);\n', ['C11']),
 ('gr move assign (revert)', S, 'if (&r == this) return *this; // self usurp\n        basic_shared_ptr(std::move(r)).swap(*this); // release the old object last: it may own r\n', 'if (&r == this) return *this;\n        if (m.cb) m.cb->dec_strong_ref(this);\n        init_from_move(r);\n', ['C11']),
 ('gr move conv assign (revert)', S, 'operator=(basic_shared_ptr<CBF, U>&& r) noexcept {\n        basic_shared_ptr(std::move(r)).swap(*this); // release the old object last: it may own r\n', 'operator=(basic_shared_ptr<CBF, U>&& r) noexcept {\n        if (m.cb) m.cb->dec_strong_ref(this);\n        init_from_move(r);\n', ['C11']),
 ('gr reset (revert)', S, 'basic_shared_ptr().swap(*this); // empty before the object is destroyed: its destructor may reach us', 'if (m.cb) m.cb->dec_strong_ref(this);\n        m.reset();', ['C11']),
 ('gr reset keeps ptr', S, 'basic_shared_ptr().swap(*this); // empty before the object is destroyed: its destructor may reach us', 'auto cb = m.cb; m.cb = nullptr; if (cb) cb->dec_strong_ref(this); m.ptr = nullptr;', ['C11']),
 ('gr copy assign inc first', S, 'if (&r == this) return *this; // self usurp\n        basic_shared_ptr(r).swap(*this); // release the old object last: it may own r\n', 'if (&r == this) return *this;\n        auto n = r.m; if (n.cb) n.cb->inc_strong_ref(this); if (m.cb) m.cb->dec_strong_ref(this); m = n;\n', ['C11']),
 ('gr uptr assign resets first', S, '        basic_shared_ptr(std::move(uptr)).swap(*this);', '        basic_shared_ptr tmp(std::move(uptr)); reset(); swap(tmp);', ['C11']),
 ('gr no self check move', S, 'if (&r == this) return *this; // self usurp\n        basic_shared_ptr(std::move(r)).swap(*this); // release the old object last: it may own r\n', '        reset(); init_from_move(r);\n', ['C11', 'C13']),
 ('gr move same owner', S, 'if (&r == this) return *this; // self usurp\n        basic_shared_ptr(std::move(r)).swap(*this); // release the old object last: it may own r\n', 'if (m.cb == r.m.cb) return *this;\n        basic_shared_ptr(std::move(r)).swap(*this); // release the old object last: it may own r\n', ['C11', 'C13']),
 ('sf from expired (revert)', F, 'sptr<T> ret;\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = cb_ptr_pair<control_block_type, T>{m.cb, ptr};\n        return ret;', 'cb_ptr_pair<control_block_type, T> alias{m.cb, ptr};\n        sptr<T> ret{alias};\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;\n        return {};', ['C09']),
 ('sf this expired (revert)', F, 'sptr<void> ret;\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;\n        return ret;', 'sptr<void> ret(m);\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;\n        return {};', ['C09']),
 ('sf cthis expired (revert)', F, 'sptr<const void> ret;\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;\n        return ret;', 'sptr<const void> ret(m);\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;\n        return {};', ['C09']),
 ('sf null (revert)', C, '            if (ptr) {\n', '            {\n', ['C09']),
 ('sf plain inc', F, 'if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = cb_ptr_pair<control_block_type, T>{m.cb, ptr};', 'if (m.cb) { m.cb->inc_strong_ref(&ret); ret.m = cb_ptr_pair<control_block_type, T>{m.cb, ptr}; }', ['C09']),
 ('sf count then inc', F, 'if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;\n        return ret;\n    }\n    sptr<const', 'if (m.cb && m.cb->strong_ref_count()) { m.cb->inc_strong_ref(&ret); ret.m = m; }\n        return ret;\n    }\n    sptr<const', []),
 ('sf copy transfers', F, 'basic_enable_shared_from(const basic_enable_shared_from&) : m(nullptr) {}', 'basic_enable_shared_from(const basic_enable_shared_from& o) : m(o.m) {}', ['C09']),
 ('sf assign transfers', F, 'basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }', 'basic_enable_shared_from& operator=(const basic_enable_shared_from& o) { m = o.m; return *this; }', ['C09']),
 ('sf assign resets', F, 'basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }', 'basic_enable_shared_from& operator=(const basic_enable_shared_from& o) { m.reset(); return *this; }', ['C09']),
 ('sf ret address', F, 'sptr<T> ret;\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret', 'sptr<T> ret;\n        if (m.cb && m.cb->inc_strong_ref_nz(this)) ret', ['C10']),
 ('sf weak null ptr', F, 'if (!m.cb) return {};', 'if (!m.cb || !ptr) return {};', ['C09']),
 ('sf weak when expired', F, 'if (!m.cb) return {};', 'if (!m.cb || !m.cb->strong_ref_count()) return {};', []),
 ('sf back ref base only', C, 'ebf->m.ptr = ptr;', 'ebf->m.ptr = ebf;', ['C09']),
 ('sf prepare only if unset', C, '            if (ptr) {\n', '            if (ptr && !static_cast<ebf_type*>(ptr)->m.cb) {\n', ['C09']),
 ('sf uptr no backref', C, 'return prepare_pair(cb, cb->obj()->get());', 'return {cb, cb->obj()->get()};', ['C09']),
 ('uq move generic (revert)', U, 'unique_ptr(std::move(other)).swap(*this);', '1@reset(other.release());\n get_deleter() = std::move(other.get_deleter());', ['C12']),
 ('uq move conv generic (revert)', U, 'unique_ptr(std::move(other)).swap(*this);', '2@reset(other.release());\n get_deleter() = std::move(other.get_deleter());', ['C12']),
 ('uq move ref (revert)', U, 'unique_ptr(std::move(other)).swap(*this);', '3@reset(other.release());\n m_deleter = &other.get_deleter();', ['C12']),
 ('uq move fn (revert)', U, 'unique_ptr(std::move(other)).swap(*this);', '5@reset(other.release());\n m_deleter = other.get_deleter();', ['C12']),
 ('uq move array (revert)', U, 'unique_ptr(std::move(other)).swap(*this);', '6@reset(other.release());\n get_deleter() = std::move(other.get_deleter());', ['C12']),
 ('uq convert moves ref (revert)', U, 'D(std::forward<D2>(other.get_deleter()))', 'D(std::move(other.get_deleter()))', ['C12']),
 ('uq swap generic (revert)', U, 'std::swap(get_deleter(), other.get_deleter());', '1@', ['C12']),
 ('uq swap array (revert)', U, 'std::swap(get_deleter(), other.get_deleter());', '2@', ['C12']),
 ('uq swap ref (revert)', U, 'std::swap(m_deleter, other.m_deleter);', '1@', ['C12']),
 ('uq swap fn (revert)', U, 'std::swap(m_deleter, other.m_deleter);', '2@', ['C12']),
 ('uq reset generic deletes first', U, 'auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            D::operator()(old);\n        }', '1@if (this->m_ptr) {\n            D::operator()(this->m_ptr);\n        }\n        this->m_ptr = p;', ['C12']),
 ('uq reset generic null first', U, 'auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            D::operator()(old);\n        }', '1@auto old = this->m_ptr;\n        this->m_ptr = nullptr;\n        if (old) {\n            D::operator()(old);\n        }\n this->m_ptr = p;', ['C12']),
 ('uq reset generic same pointer', U, 'auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            D::operator()(old);\n        }', '1@auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old && !p) {\n            D::operator()(old);\n        }', ['C12']),
 ('uq dtor generic clears first', U, '        if (this->m_ptr) {\n            D::operator()(this->m_ptr);\n        }\n    }', '1@        if (auto p = this->release()) {\n            D::operator()(p);\n        }\n    }', ['C12']),
 ('uq dtor generic resets', U, '        if (this->m_ptr) {\n            D::operator()(this->m_ptr);\n        }\n    }', '1@        reset();\n    }', ['C12']),
 ('uq nullptr generic releases', U, 'unique_ptr& operator=(std::nullptr_t) noexcept {\n        reset();', '1@unique_ptr& operator=(std::nullptr_t) noexcept {\n        (void)this->release();', ['C12']),
 ('uq reset ref deletes first', U, 'auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            (*m_deleter)(old);\n        }', '1@if (this->m_ptr) {\n            (*m_deleter)(this->m_ptr);\n        }\n        this->m_ptr = p;', ['C12']),
 ('uq reset ref null first', U, 'auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            (*m_deleter)(old);\n        }', '1@auto old = this->m_ptr;\n        this->m_ptr = nullptr;\n        if (old) {\n            (*m_deleter)(old);\n        }\n this->m_ptr = p;', ['C12']),
 ('uq reset ref same pointer', U, 'auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            (*m_deleter)(old);\n        }', '1@auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old && !p) {\n            (*m_deleter)(old);\n        }', ['C12']),
 ('uq dtor ref clears first', U, '        if (this->m_ptr) {\n            (*m_deleter)(this->m_ptr);\n        }\n    }', '1@        if (auto p = this->release()) {\n            (*m_deleter)(p);\n        }\n    }', ['C12']),
 ('uq dtor ref resets', U, '        if (this->m_ptr) {\n            (*m_deleter)(this->m_ptr);\n        }\n    }', '1@        reset();\n    }', ['C12']),
 ('uq nullptr ref releases', U, 'unique_ptr& operator=(std::nullptr_t) noexcept {\n        reset();', '2@unique_ptr& operator=(std::nullptr_t) noexcept {\n        (void)this->release();', ['C12']),
 ('uq reset fn deletes first', U, 'auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            m_deleter(old);\n        }', '1@if (this->m_ptr) {\n            m_deleter(this->m_ptr);\n        }\n        this->m_ptr = p;', ['C12']),
 ('uq reset fn null first', U, 'auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            m_deleter(old);\n        }', '1@auto old = this->m_ptr;\n        this->m_ptr = nullptr;\n        if (old) {\n            m_deleter(old);\n        }\n this->m_ptr = p;', ['C12']),
 ('uq reset fn same pointer', U, 'auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            m_deleter(old);\n        }', '1@auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old && !p) {\n            m_deleter(old);\n        }', ['C12']),
 ('uq dtor fn clears first', U, '        if (this->m_ptr) {\n            m_deleter(this->m_ptr);\n        }\n    }', '1@        if (auto p = this->release()) {\n            m_deleter(p);\n        }\n    }', ['C12']),
 ('uq dtor fn resets', U, '        if (this->m_ptr) {\n            m_deleter(this->m_ptr);\n        }\n    }', '1@        reset();\n    }', ['C12']),
 ('uq nullptr fn releases', U, 'unique_ptr& operator=(std::nullptr_t) noexcept {\n        reset();', '3@unique_ptr& operator=(std::nullptr_t) noexcept {\n        (void)this->release();', ['C12']),
 ('uq reset array deletes first', U, 'auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            D::operator()(old);\n        }', '2@if (this->m_ptr) {\n            D::operator()(this->m_ptr);\n        }\n        this->m_ptr = p;', ['C12']),
 ('uq reset array null first', U, 'auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            D::operator()(old);\n        }', '2@auto old = this->m_ptr;\n        this->m_ptr = nullptr;\n        if (old) {\n            D::operator()(old);\n        }\n this->m_ptr = p;', ['C12']),
 ('uq reset array same pointer', U, 'auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            D::operator()(old);\n        }', '2@auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old && !p) {\n            D::operator()(old);\n        }', ['C12']),
 ('uq dtor array clears first', U, '        if (this->m_ptr) {\n            D::operator()(this->m_ptr);\n        }\n    }', '2@        if (auto p = this->release()) {\n            D::operator()(p);\n        }\n    }', ['C12']),
 ('uq dtor array resets', U, '        if (this->m_ptr) {\n            D::operator()(this->m_ptr);\n        }\n    }', '2@        reset();\n    }', ['C12']),
 ('uq nullptr array releases', U, 'unique_ptr& operator=(std::nullptr_t) noexcept {\n        reset();', '4@unique_ptr& operator=(std::nullptr_t) noexcept {\n        (void)this->release();', ['C12']),
 ('uq release keeps', U, '        m_ptr = Ptr();\n        return old;', '        return old;', ['C12']),
 ('uq conv ctor default deleter', U, 'D(std::forward<D2>(other.get_deleter()))', 'D()', ['C12']),
 ('uq move ctor default deleter', U, ': common(other.release()), D(std::move(other.get_deleter())) {}', '1@: common(other.release()), D() {}', ['C12']),
 ('uq move ctor array default deleter', U, ': common(other.release()), D(std::move(other.get_deleter())) {}', '2@: common(other.release()), D() {}', ['C12']),
 ('uq move ctor gets', U, ': common(other.release()), D(std::move(other.get_deleter())) {}', '1@: common(other.get()), D(std::move(other.get_deleter())) {}', ['C12']),
 ('uq ctor drops deleter', U, 'unique_ptr(pointer p, D2&& d) noexcept : common(p), D(std::forward<D2>(d)) {}', '1@unique_ptr(pointer p, D2&& d) noexcept : common(p), D() {}', ['C12']),
 ('uq ctor array drops deleter', U, 'unique_ptr(pointer p, D2&& d) noexcept : common(p), D(std::forward<D2>(d)) {}', '2@unique_ptr(pointer p, D2&& d) noexcept : common(p), D() {}', ['C12']),
 ('uq ref own copy', U, 'm_deleter(&other.get_deleter()) {}\n    unique_ptr& operator=(unique_ptr&& other)', 'm_deleter(new D(other.get_deleter())) {}\n    unique_ptr& operator=(unique_ptr&& other)', ['C12']),
 ('uq make array one', U, 'new std::remove_extent_t<T>[n]()', 'new std::remove_extent_t<T>[n + 1]()', ['C12']),
 ('uq make_unique_ptr always copies', U, 'new RRT(std::forward<T>(t))', 'new RRT(t)', ['C12']),
 ('uq make_unique_ptr always moves', U, 'new RRT(std::forward<T>(t))', 'new RRT(std::move(t))', ['C12']),
 ('uq self move guard wrong', U, 'unique_ptr(std::move(other)).swap(*this);', '1@if (this->m_ptr == other.m_ptr) return *this; unique_ptr(std::move(other)).swap(*this);', ['C12']),
 ('uq move swaps only', U, 'unique_ptr(std::move(other)).swap(*this);', '1@swap(other);', ['C12']),
 ('uq move generic reads late', U, 'unique_ptr(std::move(other)).swap(*this);', '1@D d = std::move(other.get_deleter()); reset(other.release()); get_deleter() = std::move(d);', ['C12']),
 ('uq move fn reads late', U, 'unique_ptr(std::move(other)).swap(*this);', '5@auto d = other.m_deleter; reset(other.release()); m_deleter = d;', ['C12']),
 ('uq default_delete array scalar', 'default_delete.hpp', 'delete[] ar', 'delete ar', ['C12']),
 ("z: weak move same group leaks", W, "        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_move(r);", "        if (m.cb == r.m.cb) { m.ptr = r.m.ptr; r.m.reset(); return *this; }\n        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_move(r);", ["C03", "C10"]),
 ("z: weak move is swap", W, "        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_move(r);", "        swap(r);", ["C13", "C17"]),
 ("z: shared move is swap", S, "        if (&r == this) return *this; // self usurp\n        basic_shared_ptr(std::move(r)).swap(*this);", "        swap(r);", ["C01", "C13"]),
 ("z: shared move same group keeps source", S, "        if (&r == this) return *this; // self usurp\n        basic_shared_ptr(std::move(r)).swap(*this);", "        if (m.cb == r.m.cb) { m.ptr = r.m.ptr; return *this; }\n        basic_shared_ptr(std::move(r)).swap(*this);", ["C13"]),
 ("z: shared move same group leaks", S, "        if (&r == this) return *this; // self usurp\n        basic_shared_ptr(std::move(r)).swap(*this);", "        if (&r == this) return *this;\n        if (m.cb == r.m.cb) { m = std::move(r.m); return *this; }\n        basic_shared_ptr(std::move(r)).swap(*this);", ["C01", "C03", "C10"]),
 ("z: swap skips equal addresses", S, "        if (m.cb != r.m.cb) {\n            if (m.cb) m.cb->transfer_strong(&r, this);", "        if (m.ptr == r.m.ptr) return;\n        if (m.cb != r.m.cb) {\n            if (m.cb) m.cb->transfer_strong(&r, this);", ["C13", "C16", "C01"]),
 ("z: load drops pointer without owner", Q, "        impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;", "        impl::spinlock::lock_guard _l(m_spinlock);\n        if (m_ptr.use_count() == 0) return {};\n        return m_ptr;", ["C05"]),
 ("z: exchange keeps equal", Q, "            m_ptr.swap(ptr);\n        }\n        return ptr;", "            if (m_ptr != ptr) m_ptr.swap(ptr);\n        }\n        return ptr;", ["C05"]),
 ("z: inc_nz add and undo", A, "        while (rc != 0) {", "        if (rc != 0 && m_refs.fetch_add(1, std::memory_order_acq_rel) == 0) { m_refs.fetch_sub(1, std::memory_order_acq_rel); return 0; }\n        else if (rc != 0) return rc + 1;\n        while (rc != 0) {", ["C14", "C02"]),
 ("z: inc_nz add and undo always", A, "        auto rc = m_refs.load(std::memory_order_acquire);", "        auto old = m_refs.fetch_add(1, std::memory_order_acq_rel); if (old) return old + 1; m_refs.fetch_sub(1, std::memory_order_acq_rel); return 0;\n        auto rc = m_refs.load(std::memory_order_acquire);", ["C14", "C02", "C01"]),
 ("z: sf assign adopts if unowned", F, "basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }", "basic_enable_shared_from& operator=(const basic_enable_shared_from& o) { if (!m.cb) m = o.m; return *this; }", ["C09"]),
 ("z: sf move transfers", F, "    basic_enable_shared_from& operator=(const", "    basic_enable_shared_from(basic_enable_shared_from&& o) : m(std::move(o.m)) {}\n    basic_enable_shared_from& operator=(const", ["C09"]),
 ("z: sf null ptr", F, "        sptr<T> ret;\n        if (m.cb &&", "        sptr<T> ret;\n        if (ptr && m.cb &&", ["C09"]),
 ("z: reset keeps null owner", S, "        basic_shared_ptr().swap(*this); // empty", "        if (!m.ptr) return;\n        basic_shared_ptr().swap(*this); // empty", ["C13", "C01"]),
 ("z: weak from null owner", W, "    basic_weak_ptr(const basic_shared_ptr<CBF, U>& sptr) noexcept {\n        init_from_copy(sptr.m);", "    basic_weak_ptr(const basic_shared_ptr<CBF, U>& sptr) noexcept {\n        if (!sptr) { m.reset(); return; }\n        init_from_copy(sptr.m);", ["C13"]),
 ("z: lock null pointer", W, "        if (!m.cb) return {};\n\n        basic_shared_ptr", "        if (!m.ptr) return {};\n\n        basic_shared_ptr", ["C13", "C02"]),
 ("z: xstd no_owner weak by expiry", X, "    std::weak_ptr<T> e;\n    return same_owner(ptr, e);", "    return ptr.expired();", ["C15"]),
 ("z: xstd same_owner weak by lock", X, "bool same_owner(const std::weak_ptr<T>& a, const std::weak_ptr<U>& b) {\n    return !a.owner_before(b) && !b.owner_before(a);", "bool same_owner(const std::weak_ptr<T>& a, const std::weak_ptr<U>& b) {\n    auto x = a.lock(); auto y = b.lock();\n    return !x.owner_before(y) && !y.owner_before(x);", ["C15"]),
 ("z: xstd same_owner weak shared by lock", X, "bool same_owner(const std::weak_ptr<T>& a, const std::shared_ptr<U>& b) {\n    return !a.owner_before(b) && !b.owner_before(a);", "bool same_owner(const std::weak_ptr<T>& a, const std::shared_ptr<U>& b) {\n    auto x = a.lock();\n    return !x.owner_before(b) && !b.owner_before(x);", ["C15"]),
 ("z: xstd alias of null", X, "    if (owner.use_count() == 0) return {};", "    if (!owner) return {};", ["C15"]),
 ("z: xstd weak_from of this", X, "        return shared_from(ptr);", "        return std::weak_ptr<T>(std::const_pointer_cast<T>(std::static_pointer_cast<const T>(shared_from_this())));", ["C15"]),
 ("z: plain new aligned delete", "allocator.hpp", "        auto ret = ::operator new(n * sizeof(T), align_val);", "        void* ret;\n        if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) ret = ::operator new(n * sizeof(T), align_val);\n        else ret = ::operator new(n * sizeof(T));", ["C03"]),
 ("z: weak self alias", W, "        if (!r) {\n            m.reset();\n            return;\n        }\n        init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));", "        if (!r || !aptr) {\n            m.reset();\n            return;\n        }\n        init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));", ["C13"]),
 ("z: uptr to shared of null has no owner", C, "        using uptr_type = unique_ptr<T, Del>;\n", "        using uptr_type = unique_ptr<T, Del>;\n        if (!uptr) return pair<std::remove_extent_t<T>>(nullptr, nullptr);\n", ["C13"]),
 ("z: converting move of null loses owner", "cb_ptr_pair.hpp", "    cb_ptr_pair(cb_ptr_pair<CB, U>&& r) noexcept : cb(r.cb)", "    cb_ptr_pair(cb_ptr_pair<CB, U>&& r) noexcept : cb(r.ptr ? r.cb : nullptr)", ["C13", "C03"]),
 ("z: converting pair move leaves source", "cb_ptr_pair.hpp", "    cb_ptr_pair& operator=(cb_ptr_pair<CB, U>&& r) noexcept {\n        cb = r.cb;\n        ptr = r.ptr;\n        r.reset();", "    cb_ptr_pair& operator=(cb_ptr_pair<CB, U>&& r) noexcept {\n        cb = r.cb;\n        ptr = r.ptr;\n        r.cb = nullptr;", ["C13"]),
 ("z: pair move leaves pointer", "cb_ptr_pair.hpp", "    cb_ptr_pair& operator=(cb_ptr_pair&& r) noexcept {\n        cb = r.cb;\n        ptr = r.ptr;\n        r.reset();", "    cb_ptr_pair& operator=(cb_ptr_pair&& r) noexcept {\n        cb = r.cb;\n        ptr = r.ptr;\n        r.cb = nullptr;", ["C13"]),
 ("z: converted copy of null loses owner", "cb_ptr_pair.hpp", "    cb_ptr_pair& operator=(const cb_ptr_pair<CB, U>& r) noexcept {\n        cb = r.cb;", "    cb_ptr_pair& operator=(const cb_ptr_pair<CB, U>& r) noexcept {\n        cb = r.ptr ? r.cb : nullptr;", ["C13", "C16"]),
 ('z: ownerless target, converting move', S, 'basic_shared_ptr& operator=(basic_shared_ptr<CBF, U>&& r) noexcept {', 'basic_shared_ptr& operator=(basic_shared_ptr<CBF, U>&& r) noexcept { if (m.ptr && !m.cb) return *this;', ['C13', 'C16']),
 ('z: ownerless reset', S, 'void reset(U* u) {', 'void reset(U* u) { if (m.ptr && !m.cb) return;', ['C13', 'C16']),
 ('z: ownerless arrow', S, 'T* operator->() const noexcept {', 'T* operator->() const noexcept { if (m.ptr && !m.cb) return {};', ['C13', 'C16']),
 ('z: ownerless from unique', S, 'basic_shared_ptr& operator=(unique_ptr<U, D>&& uptr) {', 'basic_shared_ptr& operator=(unique_ptr<U, D>&& uptr) { if (m.ptr && !m.cb) return *this;', ['C13', 'C16']),
 ('z: ownerless converting move ctor', S, 'basic_shared_ptr(basic_shared_ptr<CBF, U>&& r) noexcept {', 'basic_shared_ptr(basic_shared_ptr<CBF, U>&& r) noexcept { if (!r.m.cb) { m.reset(); return; }', ['C13', 'C16']),
 ('z: ownerless converting copy ctor', S, 'basic_shared_ptr(const basic_shared_ptr<CBF, U>& r) noexcept {', 'basic_shared_ptr(const basic_shared_ptr<CBF, U>& r) noexcept { if (!r.m.cb) { m.reset(); return; }', ['C13', 'C16']),
 ("z: spinlock gives up after 2 ms", [K, K], ["#include <atomic>\n", '        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;'], ["#include <atomic>\n#include <chrono>\n", "        auto dl = std::chrono::steady_clock::now() + std::chrono::milliseconds(2);\n        while (flag.test_and_set(std::memory_order_acquire)) if (std::chrono::steady_clock::now() > dl) return;"], ["C05", "C06", "C15"]),
 ("z: spinlock gives up at a wall clock time", [K, K], ["#include <atomic>\n", '        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;'], ["#include <atomic>\n#include <ctime>\n", "        auto dl = std::time(nullptr) + 5;\n        while (flag.test_and_set(std::memory_order_acquire)) if (std::time(nullptr) > dl) return;"], ["C05", "C06", "C15"]),
 ("z: timed mutex", [K, K, K, K], ["#include <atomic>\n", "    std::atomic_flag flag = ATOMIC_FLAG_INIT;", '        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;', "        flag.clear(std::memory_order_release);"], ["#include <atomic>\n#include <mutex>\n#include <chrono>\n", "    std::timed_mutex flag; bool got = false;", "        got = flag.try_lock_for(std::chrono::seconds(1));", "        flag.unlock();"], ["C05", "C06", "C15"]),
 ("z: condition variable, lost wakeup", [K, K, K, K], ["#include <atomic>\n", "    std::atomic_flag flag = ATOMIC_FLAG_INIT;", '        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;', "        flag.clear(std::memory_order_release);"], ["#include <atomic>\n#include <mutex>\n#include <condition_variable>\n", "    std::mutex mtx; std::condition_variable cv; std::atomic<bool> held{false};", "        while (held.exchange(true)) { std::unique_lock<std::mutex> l(mtx); cv.wait(l); }", "        held = false; cv.notify_one();"], ["C07", "C15"]),
 ('z: sole owner, sptr<void>', F, 'sptr<void> shared_from_this() {', 'sptr<void> shared_from_this() { if (m.cb && m.cb->strong_ref_count() == 1) return {};', ['C09']),
 ('z: sole owner, sptr<const void>', F, 'sptr<const void> shared_from_this() const {', 'sptr<const void> shared_from_this() const { if (m.cb && m.cb->strong_ref_count() == 1) return {};', ['C09']),
 ('z: sole owner, wptr<void>', F, 'wptr<void> weak_from_this() {', 'wptr<void> weak_from_this() { if (m.cb && m.cb->strong_ref_count() == 1) return {};', ['C09']),
 ('z: sole owner, wptr<const void>', F, 'wptr<const void> weak_from_this() const {', 'wptr<const void> weak_from_this() const { if (m.cb && m.cb->strong_ref_count() == 1) return {};', ['C09']),
 ('z: xstd sole owner, sptr<void>', X, 'std::shared_ptr<void> shared_from_this() {', 'std::shared_ptr<void> shared_from_this() { if (esd::weak_from_this().use_count() == 1) return {};', ['C15']),
 ('z: xstd sole owner, sptr<const void>', X, 'std::shared_ptr<const void> shared_from_this() const {', 'std::shared_ptr<const void> shared_from_this() const { if (esd::weak_from_this().use_count() == 1) return {};', ['C15']),
 ('z: xstd sole owner, weak_from', X, 'std::weak_ptr<T> weak_from(T* ptr) const {', 'std::weak_ptr<T> weak_from(T* ptr) const { if (esd::weak_from_this().use_count() == 1) return {};', ['C15']),
 ('z: xstd shared_from of null', X, '    std::shared_ptr<T> shared_from(T* ptr) const {', '    std::shared_ptr<T> shared_from(T* ptr) const { if (!ptr) return {};', ['C15']),
 ('z: xstd alias of null', X, '    if (owner.use_count() == 0) return {};', '    if (owner.use_count() == 0 || !ptr) return {};', ['C15']),
 ('z: uref assigned from empty of another type', U, 'unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}\n    template <typename U, typename D2>\n    unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {', 'unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}\n    template <typename U, typename D2>\n    unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept { if (!other.get()) return *this;', ['C12']),
 ('z: ufn assigned from empty of another type', U, '        unique_ptr(other.release(), other.get_deleter()).swap(*this);', '        if (!other.get()) return *this;\n        unique_ptr(other.release(), other.get_deleter()).swap(*this);', ['C12']),
]
