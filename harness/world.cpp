// The world: several threads (or one) working on slots that hold strong and
// weak pointers of related types to shared objects, against a model of shared
// ownership. Profiles C01 C02 C03 C04 C08 C10 C13 C16 C17.
#include "../sim/sim.h"
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <cstdlib>
#include <cstring>
#include <new>
#include <type_traits>

using namespace sim;

#ifndef LIB
#define LIB 1
#endif

namespace {

// ------------------------------------------------------------------ constants
constexpr int NFIN = 6;         // words written before letting go, per object
constexpr int NTH = 5;          // fibers 0..4
constexpr int MB = 5, RO = 6;   // homes: mailbox (under a mutex), read-only while threads run
constexpr int NHOME = 7;
constexpr int NS = 8;           // strong slots per home; as many weak ones
constexpr int MAXOBJ = 48;

enum Class : uint32_t { LIFE = 1, LOCK = 2, CB = 4, STATE = 8, EXC = 16, LEDGER = 32, PUB = 64, SEEN = 128 };
uint32_t wanted;
const char* cls_name(uint32_t c) {
    switch (c & wanted & -(c & wanted)) {
    case LIFE: return "life";
    case LOCK: return "lock";
    case CB: return "cb";
    case STATE: return "state";
    case EXC: return "exc";
    case LEDGER: return "ledger";
    default: return "pub";
    }
}
#define CHECK(c, cond, ...) do { if ((wanted & (c)) && !(cond)) violation(cls_name(c), __VA_ARGS__); } while (0)

enum { P_DESTROY_IN_THREAD, P_DESTROY_CONTENDED, P_DESTROY_DURING_LOCK, P_LOCK_NULL, P_LOCK_NULL_RACED, P_LOCK_OK, P_LOCK_OK_RACED,
    P_CB_FREED_BY_WEAK, P_CB_FREED_BY_STRONG, P_LOCKER_WAS_LAST, P_ALIAS_LAST_OWNER, P_MOVE_SELF, P_SWAP_SELF, P_COPY_SELF,
    P_WEAK_OP_ON_EXPIRED, P_WEAK_CONV_DURING_DESTROY, P_VB_CONV_EXPIRED, P_VB_CONV_LIVE, P_ALLOC_FAILED, P_CTOR_THREW, P_CBCTOR_THREW, P_ASSIGN_FAILED,
    P_NULL_OBJECT_GROUP, P_TOKEN_ALLOC, P_OVERALIGNED, P_MAILBOX, P_USECOUNT_STALE, P_DYN_CAST_NULL, P_WEAK_OUTLIVED, P_LOCK_SEES, P_CHURN, P_LOCK_DURING_CHURN, P_HOARD, P_HOARD_BIG, NPROBES };
const char* const probe_names[] = {"object_destroyed_by_worker", "object_destroyed_with_other_operations_in_flight", "object_destroyed_during_a_lock",
    "lock_null", "lock_null_raced_release", "lock_ok", "lock_ok_raced_release", "cb_freed_by_weak", "cb_freed_by_strong", "temporary_lock_was_last_owner",
    "alias_was_last_owner", "self_move", "self_swap", "self_copy", "weak_op_on_expired", "weak_conversion_during_destruction", "virtual_base_conversion_expired",
    "virtual_base_conversion_live", "allocation_failed", "constructor_threw", "cb_constructor_threw", "failed_assignment_onto_owner", "null_object_with_owner",
    "token_allocator", "overaligned_object", "mailbox_transfer", "concurrent_use_count", "dynamic_cast_failed", "weak_outlived_object", "lock_after_another_owner_let_go", "many_copies_in_a_row", "lock_during_many_copies", "hundreds_of_owners_at_once", "more_owners_than_16_bits_count"};

// ------------------------------------------------------------------ objects
struct SimError { int id; };

struct Obj {
    bool used, hasobj, constructed, destroyed, freed, expired, creating;
    int8_t tok;
    uint8_t via; // creation variant
    const void* cb;
    uintptr_t blk;
    void* addr[8];   // canonical address per pointer kind
    const int* arr;
    int refs, weaks, inflight, lockers;
    uint64_t zero_at;
    uint32_t mb[NTH], ms[NTH], mv[NTH], md[NTH]; // what the threads wrote
    uint8_t del_calls;
    // what threads wrote once, before they let go
    uint8_t nfin;
    uint8_t fin_by[NFIN];
    uint64_t fin_at[NFIN]; // when that owner was gone; 0: not yet
};
Obj objs[MAXOBJ];
int nobj;
uint64_t mclk;
int pending_id[MAXT];
int deleting[MAXT];
bool throw_ctor[MAXT];
bool throw_cb[MAXT];
bool threw[MAXT];
bool in_destroy_any; // some destructor is running
int destroying;
bool no_mem; // no memory during operations that need none (C20)
int churning[MAXOBJ]; // threads that copy an owner of the object over and over

enum K { KD, KB, KS, KC, KV, KI, KVB, NK };

struct Base {
    uint32_t bmagic = 0xBA5EBA5E;
    uint32_t bf[NTH] = {};
    virtual ~Base() { bmagic = 0xDEADBA5E; }
};
struct Side {
    uint32_t smagic = 0x51DE51DE;
    uint32_t sf[NTH] = {};
    virtual ~Side() { smagic = 0xDEAD51DE; }
};
struct VB {
    uint32_t vmagic = 0x7B7B7B7B;
    uint32_t vf[NTH] = {};
    virtual ~VB() { vmagic = 0xDEAD7B7B; }
};
struct Derived : Base, Side, virtual VB {
    int id;
    int arr[2];
    uint32_t df[NTH] = {};
    uint32_t fin[NFIN] = {};
    explicit Derived(int i) : id(i) { init(); }
    Derived() : id(pend()) { init(); }
    Derived(Derived&&) : id(pend()) { init(); } // only ever moved from a temporary that is not an object of the model
    ~Derived() override;
    static int pend() { ModelScope m; return pending_id[tid()]; }
    void init() {
        arr[0] = 1000 + id;
        arr[1] = 2000 + id;
        if (id < 0) return;
        bool th;
        {
            ModelScope m;
            th = throw_ctor[tid()];
            if (th) { throw_ctor[tid()] = false; threw[tid()] = true; fault_fired(F_CTOR_THROW); probe_hit(P_CTOR_THREW); }
        }
        if (th) { int i = id; id = -1; throw SimError{i}; }
        ModelScope m;
        Obj& o = objs[id];
        if (o.constructed && !o.destroyed) violation("life", "object %d constructed twice", id);
        o.constructed = true;
        o.addr[KD] = this;
        o.addr[KB] = static_cast<Base*>(this);
        o.addr[KS] = static_cast<Side*>(this);
        o.addr[KC] = o.addr[KB];
        o.addr[KV] = this;
        o.addr[KVB] = static_cast<VB*>(this);
        o.arr = arr;
    }
};
struct alignas(64) Over : Derived {
    char pad[40];
    explicit Over(int i) : Derived(i) {
        ModelScope m;
        CHECK(CB, uintptr_t(this) % 64 == 0, "an object that needs alignment 64 is created at a less aligned address");
        probe_hit(P_OVERALIGNED);
    }
};
struct Unrelated : Base { int z; };

Derived::~Derived() {
    if (id < 0) return;
    {
        ModelScope m;
        Obj& o = objs[id];
        int t = tid();
        log("  object %d destroyed by t%d (refs %d inflight %d)", id, t, o.refs, o.inflight);
        CHECK(LIFE, !o.destroyed, "object %d is destroyed a second time", id);
        CHECK(LIFE, o.refs == 0, "object %d is destroyed while %d strong pointers own it", id, o.refs);
        CHECK(LIFE, o.tok == deleting[t], "object %d is destroyed by deleter %d instead of the one it was given, %d", id, deleting[t], o.tok);
        o.destroyed = true;
        if (t) probe_hit(P_DESTROY_IN_THREAD);
        if (o.inflight > 1) probe_hit(P_DESTROY_CONTENDED);
        if (o.lockers) probe_hit(P_DESTROY_DURING_LOCK);
        destroying++;
    }
    // everything the threads did must be visible here, and the memory intact
    uint32_t b[NTH], s[NTH], v[NTH], d[NTH];
    for (int i = 0; i < NTH; ++i) { b[i] = bf[i]; s[i] = sf[i]; v[i] = vf[i]; d[i] = df[i]; }
    uint32_t m1 = bmagic, m2 = smagic, m3 = vmagic;
    int a0 = arr[0];
    ModelScope m;
    destroying--;
    Obj& o = objs[id];
    CHECK(PUB, m1 == 0xBA5EBA5E && m2 == 0x51DE51DE && m3 == 0x7B7B7B7B && a0 == 1000 + id, "object %d is damaged when it is destroyed", id);
    for (int i = 0; i < NTH; ++i)
        CHECK(PUB, b[i] == o.mb[i] && s[i] == o.ms[i] && v[i] == o.mv[i] && d[i] == o.md[i], "object %d lacks what thread %d wrote to it when it is destroyed", id, i);
}

struct DelScope {
    int old;
    explicit DelScope(int tok) { ModelScope m; old = deleting[tid()]; deleting[tid()] = tok; }
    ~DelScope() { ModelScope m; deleting[tid()] = old; }
};
void count_del(Derived* p) { // deleters are called once per object
    ModelScope m;
    for (int i = 0; i < nobj; ++i)
        if (objs[i].used && objs[i].constructed && objs[i].addr[KD] == p && !objs[i].destroyed) {
            CHECK(LIFE, objs[i].del_calls == 0, "the deleter of object %d is called twice", i);
            objs[i].del_calls++;
            return;
        }
    if (!p) CHECK(LIFE, false, "a deleter is called with a null pointer");
}
struct Del {
    int tok;
    explicit Del(int t) : tok(t) {}
    void operator()(Derived* p) const {
        DelScope s(tok);
        count_del(p);
        delete p;
    }
};
struct SubDel : xmem::default_delete<Derived> { // must not be taken for its base
    int tok;
    explicit SubDel(int t) : tok(t) {}
    void operator()(Derived* p) const { Del{tok}(p); }
};
struct StatelessDel {
    void operator()(Derived* p) const noexcept {
        DelScope s(101);
        count_del(p);
        delete p;
    }
};
void fn_del(Derived* p) {
    DelScope s(100);
    count_del(p);
    delete p;
}
Del ref_deleter{99};

// ------------------------------------------------------------------ allocator with identity
struct TokRec { void* p; size_t bytes; int tok; };
TokRec toks[MAXOBJ];
int ntok, ntrack; // allocator objects, user-supplied control blocks that exist
template <typename T>
struct TokAlloc {
    using value_type = T;
    int tok;
    explicit TokAlloc(int t) : tok(t) { born(); }
    TokAlloc(const TokAlloc& o) noexcept : tok(o.tok) { born(); }
    void born() { ModelScope m; ntok++; }
    ~TokAlloc() {
        { ModelScope m; ntok--; }
        *static_cast<volatile int*>(&tok) = -tok - 1000; // an allocator is of no use after its destruction
    }
    template <typename U>
    TokAlloc(const TokAlloc<U>& o) noexcept : tok(o.tok) { born(); }
    T* allocate(size_t n) {
        void* p = ::operator new(n * sizeof(T), std::align_val_t(alignof(T)));
        ModelScope m;
        probe_hit(P_TOKEN_ALLOC);
        for (auto& r : toks) if (!r.p) { r = {p, n * sizeof(T), tok}; return static_cast<T*>(p); }
        violation("harness", "token table full");
    }
    void deallocate(T* p, size_t n) {
        {
            ModelScope m;
            bool found = false;
            for (auto& r : toks)
                if (r.p == p) {
                    CHECK(CB, r.tok == tok, "memory of allocator %d is given back to allocator %d", r.tok, tok);
                    CHECK(CB, r.bytes == n * sizeof(T), "%zu bytes were allocated, %zu are given back", r.bytes, n * sizeof(T));
                    r.p = nullptr;
                    found = true;
                    break;
                }
            CHECK(CB, found, "memory is given back to an allocator it did not come from");
        }
        ::operator delete(static_cast<void*>(p), std::align_val_t(alignof(T)));
    }
};

// ------------------------------------------------------------------ user-supplied control block with a ledger
struct Led { const void* cb; const void* at; bool strong; };
Led led[1536];
int nled;
int led_find(const void* cb, const void* at, bool strong) {
    for (int i = 0; i < nled; ++i) if (led[i].cb == cb && led[i].at == at && led[i].strong == strong) return i;
    return -1;
}
void led_add(const void* cb, const void* at, bool strong, const char* what) {
    ModelScope m;
    CHECK(LEDGER, led_find(cb, at, strong) < 0, "%s: the control block is told twice of one %s pointer", what, strong ? "strong" : "weak");
    if (nled < 1536) led[nled++] = {cb, at, strong};
}
void led_del(const void* cb, const void* at, bool strong, const char* what) {
    ModelScope m;
    int i = led_find(cb, at, strong);
    CHECK(LEDGER, i >= 0, "%s: the control block is told to forget a %s pointer it was not told of", what, strong ? "strong" : "weak");
    if (i >= 0) led[i] = led[--nled];
}
void led_move(const void* cb, const void* to, const void* from, bool strong) {
    ModelScope m;
    int i = led_find(cb, from, strong);
    CHECK(LEDGER, i >= 0, "transfer: from a %s pointer the control block was not told of", strong ? "strong" : "weak");
    CHECK(LEDGER, led_find(cb, to, strong) < 0, "transfer: to a %s pointer the control block already knows", strong ? "strong" : "weak");
    if (i >= 0) led[i].at = to;
}
class TrackCB : public xmem::control_block_base<xmem::atomic_ref_count> {
    using B = xmem::control_block_base<xmem::atomic_ref_count>;
public:
    TrackCB() {
        bool th;
        {
            ModelScope m;
            th = throw_cb[tid()];
            if (th) { throw_cb[tid()] = false; threw[tid()] = true; fault_fired(F_CB_CTOR_THROW); probe_hit(P_CBCTOR_THREW); }
        }
        if (th) throw SimError{-1};
        ModelScope m;
        ntrack++;
    }
    ~TrackCB() {
        ModelScope m;
        ntrack--;
        for (int i = 0; i < nled; ++i)
            if (led[i].cb == this) { CHECK(LEDGER, false, "a control block dies with a %s pointer still recorded", led[i].strong ? "strong" : "weak"); led[i--] = led[--nled]; }
    }
    void init_strong(const void* s) noexcept { led_add(this, s, true, "init_strong"); B::init_strong(s); }
    void inc_strong_ref(const void* s) noexcept { B::inc_strong_ref(s); led_add(this, s, true, "inc_strong_ref"); }
    void dec_strong_ref(const void* s) noexcept { led_del(this, s, true, "dec_strong_ref"); B::dec_strong_ref(s); }
    bool inc_strong_ref_nz(const void* s) noexcept {
        bool r = B::inc_strong_ref_nz(s);
        if (r) led_add(this, s, true, "inc_strong_ref_nz");
        return r;
    }
    void transfer_strong(const void* to, const void* from) noexcept { led_move(this, to, from, true); B::transfer_strong(to, from); }
    void inc_weak_ref(const void* s) noexcept { B::inc_weak_ref(s); led_add(this, s, false, "inc_weak_ref"); }
    void dec_weak_ref(const void* s) noexcept { led_del(this, s, false, "dec_weak_ref"); B::dec_weak_ref(s); }
    void transfer_weak(const void* to, const void* from) noexcept { led_move(this, to, from, false); B::transfer_weak(to, from); }
};

// ------------------------------------------------------------------ the library under test
#if LIB == 1
using CBF = xmem::atomic_control_block_factory;
template <typename T, typename... A> auto make(A&&... a) { return xmem::make_shared<T>(std::forward<A>(a)...); }
template <typename T> auto make_ow() { return xmem::make_shared_for_overwrite<T>(); }
template <typename T> auto make_val(T&& t) { return xmem::make_shared_ptr(std::forward<T>(t)); }
#elif LIB == 2
using CBF = xmem::local_control_block_factory;
template <typename T, typename... A> auto make(A&&... a) { return xmem::make_local_shared<T>(std::forward<A>(a)...); }
template <typename T> auto make_ow() { return xmem::make_local_shared_for_overwrite<T>(); }
template <typename T> auto make_val(T&& t) { return xmem::make_local_shared_ptr(std::forward<T>(t)); }
#else
using CBF = xmem::control_block_factory<TrackCB>;
template <typename T, typename... A> auto make(A&&... a) {
    return xmem::basic_shared_ptr<CBF, T>(CBF::make_resource_cb<T>(xmem::allocator<char>{}, std::forward<A>(a)...));
}
template <typename T> auto make_ow() { return xmem::basic_shared_ptr<CBF, T>(CBF::make_resource_cb_for_overwrite<T>(xmem::allocator<char>{})); }
template <typename T> auto make_val(T&& t) { return make<std::remove_reference_t<T>>(std::forward<T>(t)); }
#endif
template <typename T> using SP = xmem::basic_shared_ptr<CBF, T>;
template <typename T> using WP = xmem::basic_weak_ptr<CBF, T>;

template <int k> struct KT;
template <> struct KT<KD> { using T = Derived; };
template <> struct KT<KB> { using T = Base; };
template <> struct KT<KS> { using T = Side; };
template <> struct KT<KC> { using T = const Base; };
template <> struct KT<KV> { using T = void; };
template <> struct KT<KI> { using T = const int; };
template <> struct KT<KVB> { using T = VB; };
template <int k> struct Tag { static constexpr int K = k; using T = typename KT<k>::T; };

constexpr bool conv(int s, int d) {
    if (s == d) return true;
    switch (s) {
    case KD: return d == KB || d == KS || d == KC || d == KV || d == KVB;
    case KB: return d == KC || d == KV;
    case KS: case KVB: return d == KV;
    default: return false;
    }
}
const uint8_t kind_of_slot[NS] = {KD, KD, KB, KS, KC, KV, KI, KVB};
const char* const kind_names[] = {"Derived", "Base", "Side", "const Base", "void", "const int", "VirtualBase"};

// ------------------------------------------------------------------ slots
struct SlotM { int8_t owner; void* get; };
struct Cell { alignas(16) char m[16]; };
Cell smem[NHOME][NS], wmem[NHOME][NS];
SlotM sm[NHOME][NS], wm[NHOME][NS];
Mutex mb_mutex;
bool single; // exactly one thread has run or is running
int nthr;
const Plan* plan;

struct Loc { int h, i; };

template <typename F> void dispatch(int k, F&& f) {
    switch (k) {
    case KD: f(Tag<KD>{}); break;
    case KB: f(Tag<KB>{}); break;
    case KS: f(Tag<KS>{}); break;
    case KC: f(Tag<KC>{}); break;
    case KV: f(Tag<KV>{}); break;
    case KI: f(Tag<KI>{}); break;
    case KVB: f(Tag<KVB>{}); break;
    }
}
template <typename T> SP<T>& S(Loc l) { return *reinterpret_cast<SP<T>*>(smem[l.h][l.i].m); }
template <typename T> WP<T>& W(Loc l) { return *reinterpret_cast<WP<T>*>(wmem[l.h][l.i].m); }
int kind(Loc l) { return kind_of_slot[l.i]; }

// objects that are not owned by any pointer, only pointed to
const int outside = 77;
Derived outsider(-1);
void* outside_addr(int k) {
    switch (k) {
    case KB: case KC: return static_cast<Base*>(&outsider);
    case KS: return static_cast<Side*>(&outsider);
    case KVB: return static_cast<VB*>(&outsider);
    case KI: return const_cast<int*>(&outside);
    default: return &outsider;
    }
}

void* convert(int owner, int sk, int dk, void* get) {
    if (!get || sk == dk || dk == KV) return get;
    if (owner < 0) return outside_addr(dk);
    return objs[owner].addr[dk];
}

// ------------------------------------------------------------------ model transitions (inside ModelScope)
void ref_add(int o) {
    if (o < 0) return;
    Obj& b = objs[o];
    if (b.refs == 0) b.zero_at = ++mclk;
    b.refs++;
    CHECK(LOCK, !b.expired, "object %d is owned again after a weak pointer reported that it had expired", o);
    CHECK(LIFE | LOCK, !b.hasobj || !b.destroyed, "a strong pointer is obtained to object %d, which has been destroyed", o);
}
void ref_del(int o) {
    if (o < 0) return;
    Obj& b = objs[o];
    b.refs--;
    if (b.refs == 0) b.zero_at = ++mclk;
}
void enter(int o) { if (o >= 0) objs[o].inflight++; }
void leave(int o) {
    if (o < 0) return;
    Obj& b = objs[o];
    b.inflight--;
    if (b.inflight) return;
    if (b.refs == 0 && b.hasobj) CHECK(LIFE, b.destroyed, "object %d is not destroyed although its last owner has let go", o);
    if (b.refs == 0 && b.weaks == 0) CHECK(CB, b.freed, "the bookkeeping memory of object %d is not freed although no pointer refers to it", o);
}
uint8_t cur_code[MAXT];
extern const uint8_t W_FIRST, W_LAST;
void on_free(const BlockInfo& bi) {
    for (int i = 0; i < nobj; ++i) {
        Obj& o = objs[i];
        if (!o.used || o.freed || !o.cb || o.blk != bi.start) continue;
        o.freed = true;
        if (cur_code[tid()] >= W_FIRST && cur_code[tid()] <= W_LAST) probe_hit(P_CB_FREED_BY_WEAK);
        else probe_hit(P_CB_FREED_BY_STRONG);
        CHECK(CB, o.refs == 0 && o.weaks == 0, "the bookkeeping memory of object %d is freed while %d strong and %d weak pointers refer to it", i, o.refs, o.weaks);
        CHECK(LIFE, !o.hasobj || o.destroyed, "the bookkeeping memory of object %d is freed before the object is destroyed", i);
    }
}

// what pointers report against the model
template <typename P> void verify_strong(const P& p, const SlotM& m, int k, const char* where) {
    void* g;
    const void* ow;
    bool b;
    const void* tow;
    { g = const_cast<void*>(static_cast<const void*>(p.get())); ow = p.owner(); tow = p.t_owner(); b = bool(p); }
    ModelScope s;
    CHECK(STATE, tow == ow, "%s: t_owner() is not owner()", where);
    CHECK(STATE, g == m.get, "%s: get() of a pointer to %s is %s", where, kind_names[k], g ? m.get ? "wrong" : "not null" : "null");
    CHECK(STATE, ow == (m.owner < 0 ? nullptr : objs[m.owner].cb), "%s: owner() of a pointer to %s is %s", where, kind_names[k], ow ? m.owner >= 0 ? "wrong" : "not null" : "null");
    CHECK(STATE, b == (m.get != nullptr), "%s: conversion to bool disagrees with get()", where);
}
template <typename P> void verify_weak(const P& p, const SlotM& m, const char* where) {
    const void *ow = p.owner(), *tow = p.t_owner();
    bool b = bool(p);
    ModelScope s;
    CHECK(STATE, tow == ow, "%s: t_owner() of a weak pointer is not owner()", where);
    CHECK(STATE, ow == (m.owner < 0 ? nullptr : objs[m.owner].cb), "%s: owner() of a weak pointer is %s", where, ow ? m.owner >= 0 ? "wrong" : "not null" : "null");
    CHECK(STATE, b == (m.owner >= 0), "%s: conversion of a weak pointer to bool", where);
}
void verify_slot(Loc l, bool weak, const char* where) {
    dispatch(kind(l), [&](auto t) {
        using T = typename decltype(t)::T;
        if (weak) verify_weak(W<T>(l), wm[l.h][l.i], where);
        else verify_strong(S<T>(l), sm[l.h][l.i], t.K, where);
    });
}
// nothing is in progress: everything can be checked exactly
void verify_all(const char* where) {
    if (!(wanted & (STATE | LEDGER | EXC))) return;
    int entries = 0;
    int top = nthr ? nthr : 2;
    for (int h = 1; h < NHOME; ++h)
        for (int i = 0; i < NS; ++i) {
            if (h > top && h < MB) break;
            Loc l{h, i};
            if (sm[h][i].owner >= 0) entries++;
            if (wm[h][i].owner >= 0) entries++;
            dispatch(kind(l), [&](auto t) {
                using T = typename decltype(t)::T;
                ModelScope s; // no scheduling, no faults: a pure observation
                SlotM m = sm[h][i];
                verify_strong(S<T>(l), m, t.K, where);
                long c = S<T>(l).use_count();
                CHECK(STATE, c == (m.owner < 0 ? 0 : objs[m.owner].refs), "%s: use_count() is %ld, %d strong pointers own the object", where, c, m.owner < 0 ? 0 : objs[m.owner].refs);
                m = wm[h][i];
                verify_weak(W<T>(l), m, where);
                c = W<T>(l).use_count();
                CHECK(STATE, c == (m.owner < 0 ? 0 : objs[m.owner].refs), "%s: use_count() of a weak pointer is %ld, %d strong pointers own the object", where, c, m.owner < 0 ? 0 : objs[m.owner].refs);
                CHECK(STATE, W<T>(l).expired() == (m.owner < 0 || objs[m.owner].refs == 0), "%s: expired() is wrong", where);
#if LIB == 3
                m = sm[h][i];
                if (m.owner >= 0) CHECK(LEDGER, led_find(objs[m.owner].cb, &S<T>(l), true) >= 0, "%s: a live strong pointer is missing from the account its control block was given", where);
                m = wm[h][i];
                if (m.owner >= 0) CHECK(LEDGER, led_find(objs[m.owner].cb, &W<T>(l), false) >= 0, "%s: a live weak pointer is missing from the account its control block was given", where);
#endif
            });
        }
#if LIB == 3
    ModelScope s;
    CHECK(LEDGER, nled == entries, "%s: the control blocks were told of %d pointers, %d exist", where, nled, entries);
#endif
}

// ------------------------------------------------------------------ operations
enum { NOP, CREATE, COPY_CTOR, COPY_ASSIGN, MOVE_CTOR, MOVE_ASSIGN, SWAP, RESET, NULL_ASSIGN, DROP, ALIAS, MAKE_ALIASED, CAST,
    W_FROM, W_ASSIGN_S, W_COPY, W_COPY_ASSIGN, W_MOVE, W_MOVE_ASSIGN, W_SWAP, W_RESET, W_DROP, W_ALIAS_W, W_ALIAS_S,
    LOCK_CTOR, LOCK_ASSIGN, LOCK_TMP, INSPECT, TOUCH, COMPARE, CHURN, NOPS };
const char* const op_names[] = {"nop", "create", "copy_construct", "copy_assign", "move_construct", "move_assign", "swap", "reset", "assign_null", "drop",
    "alias_construct", "make_aliased", "cast", "weak_from_strong", "weak_assign_strong", "weak_copy_construct", "weak_copy_assign", "weak_move_construct",
    "weak_move_assign", "weak_swap", "weak_reset", "weak_drop", "weak_alias_of_weak", "weak_alias_of_strong", "lock_construct", "lock_assign", "lock_and_use",
    "inspect", "touch", "compare", "copy_and_destroy_repeatedly"};

void touch(int t, int k, void* p, int owner) {
    if (!p || owner < 0) return;
    switch (k) {
    case KD: { auto d = static_cast<Derived*>(p); d->df[t]++; if (d->bmagic != 0xBA5EBA5E) goto bad; ModelScope m; objs[owner].md[t]++; break; }
    case KB: { auto d = static_cast<Base*>(p); d->bf[t]++; if (d->bmagic != 0xBA5EBA5E) goto bad; ModelScope m; objs[owner].mb[t]++; break; }
    case KS: { auto d = static_cast<Side*>(p); d->sf[t]++; if (d->smagic != 0x51DE51DE) goto bad; ModelScope m; objs[owner].ms[t]++; break; }
    case KC: if (static_cast<const Base*>(p)->bmagic != 0xBA5EBA5E) goto bad; break;
    case KVB: { auto d = static_cast<VB*>(p); d->vf[t]++; if (d->vmagic != 0x7B7B7B7B) goto bad; ModelScope m; objs[owner].mv[t]++; break; }
    case KI: {
        int v = *static_cast<const int*>(p);
        ModelScope m;
        const Obj& o = objs[owner];
        if (p == static_cast<const void*>(o.arr) ? v != 1000 + owner : p == static_cast<const void*>(o.arr + 1) ? v != 2000 + owner : v != 77) goto bad;
        break;
    }
    case KV: { volatile char c = *static_cast<volatile char*>(p); (void)c; break; }
    }
    return;
bad:
    CHECK(LIFE | PUB, false, "the object that a strong pointer (to %s) owns is damaged", kind_names[k]);
}

// which slots an operation works on
struct Ctx {
    int t;                // executing fiber
    int homes[NHOME], nh; // homes it may use as source and target
    int shomes[NHOME], nsh;
};
Loc pick(const int* homes, int nh, bool weak, uint32_t sel, bool allow_empty, int want_src_kind = -1, int want_dst_kind = -1) {
    // a slot out of `homes`; only non-empty ones unless allow_empty; kinds filtered by convertibility
    Loc c[NHOME * NS];
    int n = 0;
    for (int k = 0; k < nh; ++k)
        for (int i = 0; i < NS; ++i) {
            int kd = kind_of_slot[i];
            if (want_src_kind >= 0 && !conv(want_src_kind, kd)) continue;
            if (want_dst_kind >= 0 && kd != want_dst_kind) continue;
            const SlotM& m = (weak ? wm : sm)[homes[k]][i];
            if (!allow_empty && m.owner < 0 && !m.get) continue;
            c[n++] = {homes[k], i};
        }
    if (!n) return {-1, -1};
    return c[sel % uint32_t(n)];
}

template <typename T, typename... A> void construct(T& at, A&&... a) { new (static_cast<void*>(&at)) T(std::forward<A>(a)...); }

struct MbGuard {
    bool held;
    MbGuard(bool need) : held(need) { if (held) { mb_mutex.lock(); ModelScope m; probe_hit(P_MAILBOX); } }
    ~MbGuard() { if (held) mb_mutex.unlock(); }
};

// ---- creation
constexpr int NVAR = 20;
struct Created { bool ok; bool bad_alloc; bool sim_error; };

template <typename T> using uses_derived = std::bool_constant<!std::is_same_v<T, const int>>;

// run `f`, which creates or assigns; catch what it throws
template <typename F> Created guarded(F&& f) {
    try {
        f();
        return {true, false, false};
    } catch (std::bad_alloc&) {
        return {false, true, false};
    } catch (SimError&) {
        return {false, false, true};
    }
}

void do_create(Ctx& c, const Op& op) {
    Loc d;
    int id, t = c.t;
    uint8_t var = op.c % NVAR;
    {
        ModelScope m;
        if (nobj >= MAXOBJ) return;
        d = pick(c.homes, c.nh, false, op.b, true, KD);
        if (d.h < 0) return;
        if (var == 19 && !(kind(d) == KB || kind(d) == KC || kind(d) == KV)) var = 6;
        id = nobj++;
    }
    MbGuard g(d.h == MB && !single);
    bool assign = (op.d & 1) || var == 10 || var == 11 || var == 13 || var == 15 || var == 18;
    bool raw = (var >= 6 && var <= 15) || var == 19;
    bool uptr = (var >= 12 && var <= 15) || var == 17 || var == 18;
    bool nullobj = var >= 16 && var <= 18;
    if (var == 12 || var == 14 || var == 16 || var == 17 || var == 19 || (var >= 6 && var <= 9)) assign = false;
    int old;
    uint32_t blocks0;
    {
        ModelScope m;
        Obj& o = objs[id];
        memset(&o, 0, sizeof o);
        o.used = true;
        o.creating = true;
        o.hasobj = !nullobj;
        o.via = var;
        o.freed = true; // nothing to free yet
        o.tok = var == 7 || var == 11 || var == 13 || var == 16 ? int8_t(id + 1) : var == 14 ? 99 : var == 8 || var == 15 ? 100 : var == 9 ? 101 : 0;
        pending_id[t] = id;
        old = sm[d.h][d.i].owner;
        blocks0 = live_blocks();
        if (nullobj) probe_hit(P_NULL_OBJECT_GROUP);
    }
    // arguments are built before any fault is armed; what is left of them after a failure is gone when the blocks are counted
    Derived* p = raw ? new Derived(id) : nullptr;
    auto arm = [&] {
        ModelScope m;
        threw[t] = false;
        if (op.fault == F_ALLOC_FAIL) arm_alloc_fail(1 + op.farg % 2);
        if (op.fault == F_CTOR_THROW && !raw && !nullobj) throw_ctor[t] = true;
        if (op.fault == F_CB_CTOR_THROW) throw_cb[t] = true;
    };
    bool fired = false;
    Created r{true, false, false};
    bool owned_by_uptr_after_failure = true;
    {
        ModelScope m;
        enter(old);
    }
    dispatch(kind(d), [&](auto tag) {
        using T = typename decltype(tag)::T;
        if constexpr (uses_derived<T>::value) {
            SP<T>& s = S<T>(d);
            if (!assign) { // make room
                { ModelScope m; ref_del(old); }
                s.~SP<T>();
                { ModelScope m; sm[d.h][d.i] = {-1, nullptr}; leave(old); old = -1; blocks0 = live_blocks() - (p != nullptr); }
                construct(s);
            } else { ModelScope m; ref_del(old); }
            auto put = [&](auto&& f) { // s = f() or construct s from f()
                if (assign) r = guarded([&] { arm(); s = f(); });
                else r = guarded([&] { arm(); SP<T> tmp(f()); s.swap(tmp); });
            };
            auto ctor = [&](auto&&... a) {
                s.~SP<T>();
                r = guarded([&] { arm(); construct(s, std::forward<decltype(a)>(a)...); });
                if (!r.ok) construct(s);
            };
            auto with_uptr = [&](auto& u, bool as) {
                auto before = u.get();
                if (as) r = guarded([&] { arm(); s = std::move(u); });
                else ctor(std::move(u));
                bool still = u.get() == before;
                ModelScope m;
                if (!r.ok) owned_by_uptr_after_failure = still;
                else CHECK(STATE, !u.get(), "a unique pointer that was turned into a shared one still points to the object");
            };
            switch (var) {
            case 0: default: put([&] { return make<Derived>(id); }); break;
            case 1: put([&] { return make_ow<Derived>(); }); break;
            case 2: {
                Derived tmp(-1);
                put([&] { return make_val(std::move(tmp)); });
                break;
            }
            case 3:
                if (op.d & 2) put([&] {
                    auto made = CBF::template make_resource_cb<Derived>(TokAlloc<char>(id + 1), id);
                    auto moved = std::move(made);
                    { ModelScope m; CHECK(STATE, !made.cb && !made.ptr, "a new object's bookkeeping is left in two places"); }
                    return SP<T>(std::move(moved));
                });
                else put([&] { return SP<Derived>(CBF::template make_resource_cb<Derived>(TokAlloc<char>(id + 1), id)); });
                break;
            case 4: { // factory, unique pointer, own allocator
                xmem::unique_ptr<Derived> u(new Derived(id));
                auto before = u.get();
                put([&] { return SP<Derived>(CBF::make_uptr_cb(u, TokAlloc<char>(id + 1))); });
                ModelScope m;
                if (!r.ok) owned_by_uptr_after_failure = u.get() == before;
                break;
            }
            case 5: put([&] { return make<Over>(id); }); break;
            case 6: ctor(p); break;
            case 7: ctor(p, Del(id + 1)); break;
            case 8: ctor(p, &fn_del); break;
            case 9: ctor(p, StatelessDel{}); break;
            case 10: r = guarded([&] { arm(); s.reset(p); }); break;
            case 11: r = guarded([&] { arm(); s.reset(p, SubDel(id + 1)); }); break;
            case 12: { xmem::unique_ptr<Derived> u(p); with_uptr(u, false); break; }
            case 13: { xmem::unique_ptr<Derived, Del> u(p, Del(id + 1)); with_uptr(u, true); break; }
            case 14: { xmem::unique_ptr<Derived, Del&> u(p, ref_deleter); with_uptr(u, false); break; }
            case 15: { xmem::unique_ptr<Derived, void (*)(Derived*)> u(p, fn_del); with_uptr(u, true); break; }
            case 16:
                if constexpr (std::is_same_v<T, Derived>) ctor(nullptr, Del(id + 1));
                else { xmem::unique_ptr<Derived, Del> u(nullptr, Del(id + 1)); with_uptr(u, false); }
                break;
            case 17: {
                xmem::unique_ptr<Derived> u;
                if (op.d & 2) put([&] { return SP<T>(CBF::make_uptr_cb(u)); });
                else with_uptr(u, false);
                break;
            }
            case 18: { xmem::unique_ptr<Derived> u; with_uptr(u, true); break; }
            case 19:
                if constexpr (std::is_same_v<T, Base> || std::is_same_v<T, const Base> || std::is_same_v<T, void>) ctor(static_cast<Base*>(p));
                break;
            }
            const void* cbp = s.owner();
            ModelScope m;
            fired = alloc_fail_fired() || threw[t];
            arm_alloc_fail(0);
            throw_ctor[t] = throw_cb[t] = false;
            if (alloc_fail_fired()) {}
            Obj& o = objs[id];
            o.creating = false;
            if (r.ok) {
                CHECK(EXC, !fired, "a failure was swallowed: the creation reports success");
                if (wanted & (LIFE | EXC)) CHECK(LIFE, !o.hasobj || (o.constructed && !o.destroyed), "object %d is not alive after its creation", id);
                o.cb = cbp;
                BlockInfo bi;
                if (!cbp || !block_of(cbp, bi) || !bi.live) {
                    CHECK(CB, false, "a new owner has no bookkeeping memory");
                } else o.blk = bi.start;
                o.freed = false;
                sm[d.h][d.i] = {int8_t(id), o.hasobj ? o.addr[tag.K] : nullptr};
                o.refs = 1;
            } else {
                CHECK(EXC, fired, "a creation failed although nothing was made to fail");
                if (alloc_fail_fired() && !r.bad_alloc) CHECK(EXC, threw[t], "an allocation failure reached the caller as something else");
                if (raw && !uptr) CHECK(EXC, o.destroyed, "the raw pointer given to a failed creation was not disposed of");
                if (!owned_by_uptr_after_failure) CHECK(EXC, false, "the unique pointer given to a failed creation lost its object");
                if (!raw && !nullobj) CHECK(EXC, !o.constructed || o.destroyed, "an object is left over by a failed creation");
                o.refs = 0;
                if (assign && old >= 0) {
                    objs[old].refs++;
                    probe_hit(P_ASSIGN_FAILED);
                    CHECK(EXC, !objs[old].destroyed || !objs[old].hasobj, "a failed assignment destroyed the object its target owned");
                }
            }
            if (r.ok && assign) {} // old was released
        }
    });
    {
        ModelScope m;
        if (single && !r.ok) {
            uint32_t n = live_blocks();
            CHECK(EXC, n == blocks0, "a failed creation changed the number of allocated blocks from %u to %u", blocks0, n);
        }
        if (op.fault && !r.ok && r.bad_alloc) probe_hit(P_ALLOC_FAILED);
        leave(old);
    }
    verify_slot(d, false, op_names[op.code]);
}

// ---- strong <- strong
void do_pair(Ctx& c, const Op& op) {
    Loc s, d;
    bool mover = op.code == MOVE_CTOR || op.code == MOVE_ASSIGN;
    {
        ModelScope m;
        bool empty = op.c & 1 && op.c & 2;
        if (mover) s = pick(c.homes, c.nh, false, op.a, empty);
        else s = pick(c.shomes, c.nsh, false, op.a, empty);
        if (s.h < 0) return;
        d = pick(c.homes, c.nh, false, op.b, true, kind(s));
        if (op.c & 4 && s.h != RO && op.code != COPY_CTOR && op.code != MOVE_CTOR) d = s; // onto itself
        if (d.h < 0) return;
        if (d.h == s.h && d.i == s.i) {
            if (op.code == COPY_CTOR || op.code == MOVE_CTOR) return;
            probe_hit(mover ? P_MOVE_SELF : P_COPY_SELF);
        }
    }
    MbGuard g((s.h == MB || d.h == MB) && !single);
    bool self = d.h == s.h && d.i == s.i;
    SlotM src, old;
    {
        ModelScope m;
        src = sm[s.h][s.i];
        old = sm[d.h][d.i];
        enter(src.owner);
        enter(old.owner);
        if (!self) ref_del(old.owner);
    }
    dispatch(kind(s), [&](auto st) {
        using TS = typename decltype(st)::T;
        dispatch(kind(d), [&](auto dt) {
            using TD = typename decltype(dt)::T;
            if constexpr (conv(decltype(st)::K, decltype(dt)::K)) {
                SP<TS>& a = S<TS>(s);
                SP<TD>& b = S<TD>(d);
                switch (op.code) {
                case COPY_CTOR: b.~SP<TD>(); construct(b, static_cast<const SP<TS>&>(a)); break;
                case COPY_ASSIGN: b = static_cast<const SP<TS>&>(a); break;
                case MOVE_CTOR: b.~SP<TD>(); construct(b, std::move(a)); break;
                case MOVE_ASSIGN: b = std::move(a); break;
                }
            }
        });
    });
    {
        ModelScope m;
        if (!self) {
            SlotM n{src.owner, convert(src.owner, kind(s), kind(d), src.get)};
            sm[d.h][d.i] = n;
            if (mover) sm[s.h][s.i] = {-1, nullptr};
            else ref_add(src.owner);
        }
        leave(src.owner);
        leave(old.owner);
    }
    verify_slot(d, false, op_names[op.code]);
    verify_slot(s, false, op_names[op.code]);
}

void do_release(Ctx& c, const Op& op) {
    Loc d;
    {
        ModelScope m;
        d = pick(c.homes, c.nh, false, op.a, op.c & 1 && op.c & 2);
        if (d.h < 0) return;
    }
    MbGuard g(d.h == MB && !single);
    SlotM old;
    Derived* last_word = nullptr;
    int fi = 0;
    {
        ModelScope m;
        old = sm[d.h][d.i];
        if ((wanted & SEEN) && old.owner >= 0 && objs[old.owner].hasobj && objs[old.owner].nfin < NFIN) {
            last_word = static_cast<Derived*>(objs[old.owner].addr[KD]);
            fi = objs[old.owner].nfin++;
            objs[old.owner].fin_by[fi] = uint8_t(c.t);
        }
    }
    if (last_word) last_word->fin[fi] = uint32_t(fi) + 500;
    {
        ModelScope m;
        enter(old.owner);
        ref_del(old.owner);
        if (old.owner >= 0 && objs[old.owner].refs == 0 && old.get != objs[old.owner].addr[KD]) probe_hit(P_ALIAS_LAST_OWNER);
    }
    dispatch(kind(d), [&](auto dt) {
        using T = typename decltype(dt)::T;
        SP<T>& b = S<T>(d);
        switch (op.code) {
        case RESET: if (op.c & 4) b.reset(nullptr); else b.reset(); break;
        case NULL_ASSIGN: b = nullptr; break;
        case DROP: b.~SP<T>(); construct(b); break;
        }
    });
    {
        ModelScope m;
        sm[d.h][d.i] = {-1, nullptr};
        if (last_word) objs[old.owner].fin_at[fi] = ++mclk;
        leave(old.owner);
    }
    verify_slot(d, false, op_names[op.code]);
}

void do_swap(Ctx& c, const Op& op, bool weak) {
    Loc s, d;
    {
        ModelScope m;
        s = pick(c.homes, c.nh, weak, op.a, op.c & 1);
        if (s.h < 0) return;
        d = op.c & 4 ? s : pick(c.homes, c.nh, weak, op.b, true, -1, kind(s));
        if (d.h < 0) return;
        if (s.h == d.h && s.i == d.i) probe_hit(P_SWAP_SELF);
    }
    MbGuard g((s.h == MB || d.h == MB) && !single);
    SlotM *x, *y;
    {
        ModelScope m;
        x = &(weak ? wm : sm)[s.h][s.i];
        y = &(weak ? wm : sm)[d.h][d.i];
        enter(x->owner);
        enter(y->owner);
    }
    dispatch(kind(s), [&](auto st) {
        using T = typename decltype(st)::T;
        if (weak) W<T>(s).swap(W<T>(d));
        else S<T>(s).swap(S<T>(d));
    });
    {
        ModelScope m;
        std::swap(*x, *y);
        leave(x->owner);
        leave(y->owner);
    }
    verify_slot(d, weak, op_names[op.code]);
    verify_slot(s, weak, op_names[op.code]);
}

// ---- aliasing and casts: a new strong pointer that shares the ownership of s
void do_alias(Ctx& c, const Op& op) {
    Loc s, d;
    int dk;
    {
        ModelScope m;
        s = pick(c.shomes, c.nsh, false, op.a, (op.c & 3) == 3);
        if (s.h < 0) return;
        d = pick(c.homes, c.nh, false, op.b, true);
        if (op.code != CAST && op.c & 4 && op.d & 1 && op.d & 2 && s.h != RO) d = s; // p = make_aliased(p, ...)
        if (d.h < 0 || (d.h == s.h && d.i == s.i && !(op.code != CAST && op.c & 4))) return;
        dk = kind(d);
    }
    MbGuard g((s.h == MB || d.h == MB) && !single);
    bool self = d.h == s.h && d.i == s.i;
    SlotM src, old;
    void* target = nullptr;
    {
        ModelScope m;
        src = sm[s.h][s.i];
        old = sm[d.h][d.i];
        bool obj = src.owner >= 0 && objs[src.owner].hasobj;
        if (op.d >> 4 & 1) target = nullptr;
        else if (dk == KI) target = obj && !(op.d >> 5 & 1) ? const_cast<int*>(objs[src.owner].arr + (op.d >> 6 & 1)) : const_cast<int*>(&outside);
        else target = obj ? objs[src.owner].addr[dk] : src.owner < 0 ? outside_addr(dk) : nullptr;
        enter(src.owner);
        enter(old.owner);
        if (!self) ref_del(old.owner);
    }
    SlotM n{-1, nullptr};
    bool done = true;
    dispatch(kind(s), [&](auto st) {
        using TS = typename decltype(st)::T;
        dispatch(dk, [&](auto dt) {
            using TD = typename decltype(dt)::T;
            constexpr int KS_ = decltype(st)::K, KD_ = decltype(dt)::K;
            SP<TS>& a = S<TS>(s);
            SP<TD>& b = S<TD>(d);
            TD* tp = static_cast<TD*>(target);
            auto set = [&](auto&& f) {
                if (op.c & 4) b = f();
                else { b.~SP<TD>(); new (static_cast<void*>(&b)) SP<TD>(f()); }
            };
            if (op.code == ALIAS) {
                if (op.c & 4) b = SP<TD>(a, tp);
                else { b.~SP<TD>(); construct(b, a, tp); }
                n = {src.owner, target};
            } else if (op.code == MAKE_ALIASED) {
                set([&] { return xmem::make_aliased(a, tp); });
                if (src.owner >= 0) n = {src.owner, target};
            } else { // CAST
                void* want = nullptr;
                bool own = src.owner >= 0;
                if constexpr (KS_ == KB && KD_ == KD) {
                    if (op.d >> 4 & 1) { set([&] { return xmem::static_pointer_cast<Derived>(a); }); want = own && src.get ? objs[src.owner].addr[KD] : nullptr; }
                    else { set([&] { return xmem::dynamic_pointer_cast<Derived>(a); }); want = own && src.get ? objs[src.owner].addr[KD] : nullptr; if (!want) own = false; }
                } else if constexpr (KS_ == KB && KD_ == KS) { // across the hierarchy
                    set([&] { return xmem::dynamic_pointer_cast<Side>(a); });
                    want = own && src.get ? objs[src.owner].addr[KS] : nullptr;
                    if (!want) own = false;
                } else if constexpr (KS_ == KVB && KD_ == KD) { // down from the virtual base
                    set([&] { return xmem::dynamic_pointer_cast<Derived>(a); });
                    want = own && src.get ? objs[src.owner].addr[KD] : nullptr;
                    if (!want) own = false;
                } else if constexpr (KS_ == KS && KD_ == KB) {
                    if (op.d >> 4 & 1) { // a cast that fails
                        set([&] { auto q = xmem::dynamic_pointer_cast<Unrelated>(a); return SP<Base>(std::move(q)); });
                        want = nullptr;
                        own = false;
                        ModelScope m;
                        if (src.get) probe_hit(P_DYN_CAST_NULL);
                    } else {
                        set([&] { return SP<Base>(xmem::static_pointer_cast<Derived>(a)); });
                        want = own && src.get ? objs[src.owner].addr[KB] : nullptr;
                    }
                } else if constexpr (KS_ == KD && (KD_ == KB || KD_ == KS || KD_ == KVB || KD_ == KC || KD_ == KV)) {
                    set([&] { return xmem::static_pointer_cast<TD>(a); });
                    want = own ? convert(src.owner, KS_, KD_, src.get) : nullptr;
                } else if constexpr (KS_ == KC && KD_ == KB) {
                    set([&] { return xmem::const_pointer_cast<Base>(a); });
                    want = src.get;
                } else if constexpr (KS_ == KB && KD_ == KC) {
                    set([&] { return xmem::const_pointer_cast<const Base>(a); });
                    want = src.get;
                } else if constexpr (KS_ == KD && KD_ == KI) {
                    set([&] { return xmem::reinterpret_pointer_cast<const int>(a); });
                    want = src.get;
                    done = false; // not something to be read as an int
                } else {
                    done = false;
                }
                n = own ? SlotM{src.owner, want} : SlotM{-1, nullptr};
                if (!done) { // do not keep such a pointer: put an alias of it
                    b.~SP<TD>();
                    construct(b);
                    n = {-1, nullptr};
                }
            }
        });
    });
    {
        ModelScope m;
        sm[d.h][d.i] = n;
        if (!self) ref_add(n.owner);
        leave(src.owner);
        leave(old.owner);
    }
    verify_slot(d, false, op_names[op.code]);
    verify_slot(s, false, op_names[op.code]);
}

// ---- weak targets
void do_weak(Ctx& c, const Op& op) {
    Loc s, d;
    bool from_strong = op.code == W_FROM || op.code == W_ASSIGN_S || op.code == W_ALIAS_S;
    bool alias = op.code == W_ALIAS_S || op.code == W_ALIAS_W;
    bool mover = op.code == W_MOVE || op.code == W_MOVE_ASSIGN;
    bool ctor = op.code == W_FROM || op.code == W_COPY || op.code == W_MOVE || alias;
    {
        ModelScope m;
        bool empty = (op.c & 3) == 3;
        if (mover) s = pick(c.homes, c.nh, !from_strong, op.a, empty);
        else s = pick(c.shomes, c.nsh, !from_strong, op.a, empty);
        if (s.h < 0) return;
        d = pick(c.homes, c.nh, true, op.b, true, alias ? -1 : kind(s));
        if (op.c & 4 && !from_strong && !ctor && s.h != RO) d = s;
        if (d.h < 0) return;
        if (!from_strong && s.h == d.h && s.i == d.i && ctor) return;
    }
    MbGuard g((s.h == MB || d.h == MB) && !single);
    bool self = !from_strong && s.h == d.h && s.i == d.i;
    SlotM src, old;
    void* target = nullptr;
    bool vbconv = false;
    {
        ModelScope m;
        src = (from_strong ? sm : wm)[s.h][s.i];
        old = wm[d.h][d.i];
        if (src.owner >= 0 && objs[src.owner].hasobj && alias && !(op.d >> 4 & 1))
            target = kind(d) == KI ? const_cast<int*>(objs[src.owner].arr) : objs[src.owner].addr[kind(d)];
        if (src.owner < 0 && alias && (op.d >> 4 & 1)) target = outside_addr(kind(d));
        enter(src.owner);
        enter(old.owner);
        vbconv = kind(d) == KVB && kind(s) == KD && !from_strong && !alias;
        if (src.owner >= 0 && !from_strong) {
            if (objs[src.owner].destroyed) { probe_hit(P_WEAK_OP_ON_EXPIRED); if (vbconv) probe_hit(P_VB_CONV_EXPIRED); }
            else if (vbconv) probe_hit(P_VB_CONV_LIVE);
            if (destroying) probe_hit(P_WEAK_CONV_DURING_DESTROY);
        }
        if (!self && old.owner >= 0) objs[old.owner].weaks--;
    }
    dispatch(kind(s), [&](auto st) {
        using TS = typename decltype(st)::T;
        dispatch(kind(d), [&](auto dt) {
            using TD = typename decltype(dt)::T;
            WP<TD>& b = W<TD>(d);
            if (op.code == W_ALIAS_S) {
                b.~WP<TD>();
                construct(b, static_cast<const SP<TS>&>(S<TS>(s)), static_cast<TD*>(target));
            } else if (op.code == W_ALIAS_W) {
                b.~WP<TD>();
                construct(b, static_cast<const WP<TS>&>(W<TS>(s)), static_cast<TD*>(target));
            } else if constexpr (conv(decltype(st)::K, decltype(dt)::K)) {
                switch (op.code) {
                case W_FROM: b.~WP<TD>(); construct(b, static_cast<const SP<TS>&>(S<TS>(s))); break;
                case W_ASSIGN_S: b = static_cast<const SP<TS>&>(S<TS>(s)); break;
                case W_COPY: b.~WP<TD>(); construct(b, static_cast<const WP<TS>&>(W<TS>(s))); break;
                case W_COPY_ASSIGN: b = static_cast<const WP<TS>&>(W<TS>(s)); break;
                case W_MOVE: b.~WP<TD>(); construct(b, std::move(W<TS>(s))); break;
                case W_MOVE_ASSIGN: b = std::move(W<TS>(s)); break;
                }
            }
        });
    });
    {
        ModelScope m;
        if (!self) {
            SlotM n{-1, nullptr};
            if (src.owner >= 0) {
                n.owner = src.owner;
                n.get = alias ? target : convert(src.owner, kind(s), kind(d), src.get);
            }
            wm[d.h][d.i] = n;
            if (mover) wm[s.h][s.i] = {-1, nullptr};
            else if (n.owner >= 0) objs[n.owner].weaks++;
        }
        leave(src.owner);
        leave(old.owner);
    }
    verify_slot(d, true, op_names[op.code]);
    verify_slot(s, !from_strong, op_names[op.code]);
}

void do_weak_release(Ctx& c, const Op& op) {
    Loc d;
    {
        ModelScope m;
        d = pick(c.homes, c.nh, true, op.a, (op.c & 3) == 3);
        if (d.h < 0) return;
    }
    MbGuard g(d.h == MB && !single);
    SlotM old;
    {
        ModelScope m;
        old = wm[d.h][d.i];
        enter(old.owner);
        if (old.owner >= 0) {
            objs[old.owner].weaks--;
            if (objs[old.owner].destroyed) { probe_hit(P_WEAK_OUTLIVED); }
        }
    }
    dispatch(kind(d), [&](auto dt) {
        using T = typename decltype(dt)::T;
        WP<T>& b = W<T>(d);
        if (op.code == W_RESET) b.reset();
        else { b.~WP<T>(); construct(b); }
    });
    {
        ModelScope m;
        wm[d.h][d.i] = {-1, nullptr};
        leave(old.owner);
    }
    verify_slot(d, true, op_names[op.code]);
}

void locked(int o, bool got, uint64_t t0) { // in ModelScope, after a lock() of an owned-by-o weak pointer
    Obj& b = objs[o];
    b.lockers--;
    if (got) {
        probe_hit(P_LOCK_OK);
        if (b.zero_at >= t0) probe_hit(P_LOCK_OK_RACED);
        CHECK(LOCK, !b.expired, "lock() returned a pointer to object %d after it had been reported expired", o);
        CHECK(LOCK | LIFE, !b.hasobj || !b.destroyed, "lock() returned a pointer to object %d, which has been destroyed", o);
    } else {
        probe_hit(P_LOCK_NULL);
        if (b.zero_at >= t0) probe_hit(P_LOCK_NULL_RACED);
        CHECK(LOCK, b.refs == 0 || b.zero_at >= t0, "lock() returned null although object %d was owned by %d strong pointers throughout", o, b.refs);
        b.expired = true;
    }
}

// a lock that began after another owner was gone sees what that owner did
void last_words(int o, uint64_t t0, int t) {
    Derived* d;
    int n;
    {
        ModelScope m;
        if (!(wanted & SEEN) || !objs[o].hasobj) return;
        d = static_cast<Derived*>(objs[o].addr[KD]);
        n = objs[o].nfin;
    }
    for (int i = 0; i < n; ++i) {
        {
            ModelScope m;
            if (!objs[o].fin_at[i] || objs[o].fin_at[i] > t0) continue;
            if (objs[o].fin_by[i] != t && t) probe_hit(P_LOCK_SEES);
        }
        uint32_t v = d->fin[i];
        ModelScope m;
        CHECK(PUB, v == uint32_t(i) + 500, "object %d, locked after thread %d had let go of it, lacks what that thread wrote to it", o, objs[o].fin_by[i]);
    }
}

void do_lock(Ctx& c, const Op& op) {
    Loc s, d{-1, -1};
    {
        ModelScope m;
        s = pick(c.shomes, c.nsh, true, op.a, (op.c & 3) == 3);
        if (s.h < 0) return;
        if (op.code != LOCK_TMP) {
            d = pick(c.homes, c.nh, false, op.b, true, kind(s));
            if (d.h < 0) return;
        }
    }
    MbGuard g((s.h == MB || d.h == MB) && !single);
    SlotM src, old{-1, nullptr};
    uint64_t t0;
    {
        ModelScope m;
        src = wm[s.h][s.i];
        enter(src.owner);
        if (d.h >= 0) {
            old = sm[d.h][d.i];
            enter(old.owner);
            ref_del(old.owner);
        }
        t0 = ++mclk;
        if (src.owner >= 0) {
            objs[src.owner].lockers++;
            if (churning[src.owner]) probe_hit(P_LOCK_DURING_CHURN);
        }
    }
    auto judge = [&](int k, void* get, const void* ow) { // in ModelScope
        if (src.owner < 0) {
            CHECK(STATE | LOCK, !ow && !get, "an empty weak pointer locks to something");
            return false;
        }
        bool got = ow != nullptr;
        locked(src.owner, got, t0);
        if (got) {
            CHECK(STATE | LOCK, ow == objs[src.owner].cb, "lock() returned a pointer with another owner");
            CHECK(STATE | LOCK, get == src.get, "lock() returned a wrong pointer (to %s)", kind_names[k]);
        } else CHECK(STATE | LOCK, !get, "lock() returned a pointer without an owner");
        return got;
    };
    bool got_it = false;
    dispatch(kind(s), [&](auto st) {
        using TS = typename decltype(st)::T;
        constexpr int k = decltype(st)::K;
        WP<TS>& w = W<TS>(s);
        if (op.code == LOCK_TMP) {
            bool got;
            {
                SP<TS> tmp = w.lock();
                void* get = const_cast<void*>(static_cast<const void*>(tmp.get()));
                const void* ow = tmp.owner();
                {
                    ModelScope m;
                    got = judge(k, get, ow);
                    if (got) ref_add(src.owner);
                }
                if (got) touch(c.t, k, get, src.owner);
                if (got) last_words(src.owner, t0, c.t);
                if (got && (op.c & 4)) { WP<TS> again(tmp); (void)again.expired(); }
                ModelScope m;
                if (got) {
                    ref_del(src.owner);
                    if (objs[src.owner].refs == 0) probe_hit(P_LOCKER_WAS_LAST);
                }
            }
        } else {
            dispatch(kind(d), [&](auto dt) {
                using TD = typename decltype(dt)::T;
                if constexpr (conv(decltype(st)::K, decltype(dt)::K)) {
                    SP<TD>& b = S<TD>(d);
                    if (op.code == LOCK_ASSIGN) b = w.lock();
                    else { b.~SP<TD>(); new (static_cast<void*>(&b)) SP<TD>(w.lock()); }
                    void* get = const_cast<void*>(static_cast<const void*>(b.get()));
                    const void* ow = b.owner();
                    ModelScope m;
                    SlotM srcc = src;
                    if (src.owner >= 0) src.get = convert(src.owner, decltype(st)::K, decltype(dt)::K, src.get);
                    bool got = judge(decltype(dt)::K, get, ow);
                    sm[d.h][d.i] = got ? SlotM{src.owner, src.get} : SlotM{-1, nullptr};
                    src = srcc;
                    if (got) ref_add(src.owner);
                    got_it = got;
                }
            });
        }
    });
    if (got_it && (d.h != RO)) last_words(src.owner, t0, c.t);
    {
        ModelScope m;
        leave(src.owner);
        leave(old.owner);
    }
    if (d.h >= 0) verify_slot(d, false, op_names[op.code]);
    verify_slot(s, true, op_names[op.code]);
}

// many copies of one pointer that exist at the same time
constexpr int NHOARD = 270;
alignas(16) char hoard_mem[NTH][NHOARD * 16];
template <typename P> void hoard(P& p, const SlotM& src, bool weak, int n, void* mem, int t) {
    static_assert(sizeof(P) == 16);
    P* a = static_cast<P*>(mem);
    for (int k = 0; k < n; ++k) new (static_cast<void*>(a + k)) P(p);
    if (single && src.owner >= 0) {
        long c = p.use_count();
        ModelScope m;
        long want = objs[src.owner].refs + (weak ? 0 : n);
        CHECK(STATE | LIFE, c == want, "use_count() is %ld with %ld strong pointers", c, want);
    }
    if (t & 1) for (int k = 0; k < n; ++k) a[k].~P();
    else for (int k = n; k-- > 0;) a[k].~P();
}

// many copies of one pointer (strong or weak), made and destroyed one after the other
void do_churn(Ctx& c, const Op& op) {
    bool weak = op.c & 1;
    Loc s;
    SlotM src;
    {
        ModelScope m;
        s = pick(c.shomes, c.nsh, weak, op.a, false);
        if (s.h < 0) return;
    }
    MbGuard g(s.h == MB && !single);
    {
        ModelScope m;
        src = (weak ? wm : sm)[s.h][s.i];
        enter(src.owner);
        if (src.owner >= 0) churning[src.owner] += !weak;
        probe_hit(P_CHURN);
    }
    if (op.b & 1) { // all at once
        bool big = single && LIB != 3 && op.farg == 255;
        void* mem = hoard_mem[c.t];
        if (big) {
            ModelScope m;
            mem = std::malloc(66000 * 16);
            probe_hit(P_HOARD_BIG);
        } else { ModelScope m; probe_hit(P_HOARD); }
        dispatch(kind(s), [&](auto st) {
            using T = typename decltype(st)::T;
            auto go = [&] {
                if (weak) hoard(W<T>(s), src, true, big ? 66000 : NHOARD, mem, op.d);
                else hoard(S<T>(s), src, false, big ? 66000 : NHOARD, mem, op.d);
            };
            if (big) { ModelScope m; go(); std::free(mem); }
            else go();
        });
    } else dispatch(kind(s), [&](auto st) {
        using T = typename decltype(st)::T;
        int n = op.farg * ((op.d & 0x70) == 0x70 ? 8 : 1);
        if (weak) {
            const WP<T>& w = W<T>(s);
            for (int k = 0; k < n; ++k) WP<T> tmp(w);
        } else {
            const SP<T>& p = S<T>(s);
            for (int k = 0; k < n; ++k) {
                SP<T> tmp(p);
                if (tmp.get() != p.get() || tmp.owner() != p.owner()) { ModelScope m; CHECK(STATE | LIFE, false, "a copy differs from the original"); }
            }
        }
    });
    {
        ModelScope m;
        if (src.owner >= 0) churning[src.owner] -= !weak;
        leave(src.owner);
    }
    verify_slot(s, weak, op_names[op.code]);
}

void do_inspect(Ctx& c, const Op& op) {
    bool weak = op.c & 1;
    Loc s;
    {
        ModelScope m;
        s = pick(c.shomes, c.nsh, weak, op.a, (op.c & 6) == 6);
        if (s.h < 0) return;
    }
    MbGuard g(s.h == MB && !single);
    SlotM src;
    uint64_t t0;
    int mine = 0;
    {
        ModelScope m;
        src = (weak ? wm : sm)[s.h][s.i];
        enter(src.owner);
        t0 = ++mclk;
        if (src.owner >= 0)
            for (int k = 0; k < c.nh; ++k)
                if (c.homes[k] != MB || s.h == MB)
                    for (int i = 0; i < NS; ++i) mine += sm[c.homes[k]][i].owner == src.owner;
    }
    long n = 0;
    bool ex = false;
    dispatch(kind(s), [&](auto st) {
        using T = typename decltype(st)::T;
        if (weak) { n = W<T>(s).use_count(); ex = W<T>(s).expired(); }
        else n = S<T>(s).use_count();
    });
    {
        ModelScope m;
        if (src.owner < 0) {
            CHECK(STATE, n == 0, "use_count() of a pointer without an owner is %ld", n);
            if (weak) CHECK(STATE | LOCK, ex, "an empty weak pointer does not report expired");
        } else {
            Obj& o = objs[src.owner];
            if (!single) probe_hit(P_USECOUNT_STALE);
            CHECK(STATE | LIFE, n >= mine && n >= 0 && n < 100000, "use_count() is %ld, this thread alone has %d owners", n, mine);
            if (weak && (n == 0 || ex)) {
                CHECK(LOCK, o.refs == 0 || o.zero_at >= t0, "a weak pointer reports expired although object %d was owned throughout", src.owner);
                if (o.refs == 0) o.expired = true;
                else CHECK(LOCK, false, "a weak pointer reported expired, yet object %d is owned afterwards", src.owner);
            }
            if (weak && !ex && single) CHECK(LOCK | STATE, o.refs > 0, "a weak pointer to a destroyed object does not report expired");
            if (weak && o.expired && !ex && !weak_memory()) CHECK(LOCK, false, "a weak pointer stopped reporting expired");
            if (single) CHECK(STATE, n == o.refs, "use_count() is %ld with %d strong pointers", n, o.refs);
        }
        leave(src.owner);
    }
    verify_slot(s, weak, "inspect");
}

void do_touch(Ctx& c, const Op& op) {
    Loc s;
    {
        ModelScope m;
        s = pick(c.shomes, c.nsh, false, op.a, false);
        if (s.h < 0) return;
    }
    MbGuard g(s.h == MB && !single);
    dispatch(kind(s), [&](auto st) {
        using T = typename decltype(st)::T;
        SP<T>& p = S<T>(s);
        SlotM m;
        { ModelScope x; m = sm[s.h][s.i]; enter(m.owner); }
        void* a = const_cast<void*>(static_cast<const void*>(p.get()));
        if constexpr (!std::is_void_v<T>) {
            if (a && (op.c & 1)) a = const_cast<void*>(static_cast<const void*>(&*p));
            else if (a) a = const_cast<void*>(static_cast<const void*>(p.operator->()));
        }
        bool same;
        {
            ModelScope x;
            same = a == m.get;
            CHECK(STATE, same, "access through a strong pointer reaches a wrong address");
        }
        if (same) touch(c.t, decltype(st)::K, a, m.owner);
        ModelScope x;
        leave(m.owner);
    });
}

void do_compare(Ctx& c, const Op& op) {
    Loc a, b, w;
    {
        ModelScope m;
        a = pick(c.shomes, c.nsh, false, op.a, op.c & 1);
        b = pick(c.shomes, c.nsh, false, op.b, op.c & 2);
        w = pick(c.shomes, c.nsh, true, op.a + op.b, op.c & 4);
        if (a.h < 0 || b.h < 0) return;
    }
    MbGuard g((a.h == MB || b.h == MB || w.h == MB) && !single);
    dispatch(kind(a), [&](auto at) {
        using TA = typename decltype(at)::T;
        dispatch(kind(b), [&](auto bt) {
            using TB = typename decltype(bt)::T;
            SP<TA>& x = S<TA>(a);
            SP<TB>& y = S<TB>(b);
            bool so = xmem::same_owner(x, y), na = xmem::no_owner(x), nb = xmem::no_owner(y);
            bool ob = x.owner_before(y), bo = y.owner_before(x);
            {
                ModelScope m;
                int oa = sm[a.h][a.i].owner, obb = sm[b.h][b.i].owner;
                CHECK(STATE, so == (oa == obb), "same_owner() is %d for owners %d and %d", so, oa, obb);
                CHECK(STATE, na == (oa < 0) && nb == (obb < 0), "no_owner() is wrong");
                CHECK(STATE, !(ob && bo) && ((ob || bo) == (oa != obb)), "owner_before() does not order different owners");
            }
            if constexpr (std::is_same_v<TA, TB>) {
                bool eq = x == y, ne = x != y, lt = x < y, gt = x > y, le = x <= y, ge = x >= y;
                ModelScope m;
                char *p = static_cast<char*>(sm[a.h][a.i].get), *q = static_cast<char*>(sm[b.h][b.i].get);
                CHECK(STATE, eq == (p == q) && ne == (p != q) && lt == (p < q) && gt == (p > q) && le == (p <= q) && ge == (p >= q), "a comparison disagrees with the raw pointers");
            }
        });
        if (w.h >= 0)
            dispatch(kind(w), [&](auto wt) {
                using TW = typename decltype(wt)::T;
                bool s1 = xmem::same_owner(S<TA>(a), W<TW>(w)), s2 = xmem::same_owner(W<TW>(w), S<TA>(a)), s3 = xmem::same_owner(W<TW>(w), W<TW>(w)), n1 = xmem::no_owner(W<TW>(w));
                bool obf = W<TW>(w).owner_before(S<TA>(a)), obw, obr;
                {
                    WP<TA> x(S<TA>(a));
                    obw = W<TW>(w).owner_before(x);
                    obr = x.owner_before(W<TW>(w));
                }
                ModelScope m;
                int oa = sm[a.h][a.i].owner, ow = wm[w.h][w.i].owner;
                CHECK(STATE, s1 == (oa == ow) && s2 == s1 && s3 && n1 == (ow < 0) && !(obf && oa == ow), "same_owner() or no_owner() of a weak pointer is wrong");
                CHECK(STATE, obf == obw && !(obw && obr) && ((obw || obr) == (oa != ow)), "owner_before() of a weak pointer does not order different owners");
            });
    });
}

const uint8_t W_FIRST = W_FROM, W_LAST = W_ALIAS_S;
void exec(Ctx& c, uint32_t i) {
    const Op& op = plan->ops[i];
    op_begin(i);
    { ModelScope m; cur_code[tid()] = op.code; }
    OutOfMemory oom(no_mem && op.code != CREATE);
    switch (op.code) {
    case CREATE: do_create(c, op); break;
    case COPY_CTOR: case COPY_ASSIGN: case MOVE_CTOR: case MOVE_ASSIGN: do_pair(c, op); break;
    case SWAP: do_swap(c, op, false); break;
    case RESET: case NULL_ASSIGN: case DROP: do_release(c, op); break;
    case ALIAS: case MAKE_ALIASED: case CAST: do_alias(c, op); break;
    case W_FROM: case W_ASSIGN_S: case W_COPY: case W_COPY_ASSIGN: case W_MOVE: case W_MOVE_ASSIGN: case W_ALIAS_W: case W_ALIAS_S: do_weak(c, op); break;
    case W_SWAP: do_swap(c, op, true); break;
    case W_RESET: case W_DROP: do_weak_release(c, op); break;
    case LOCK_CTOR: case LOCK_ASSIGN: case LOCK_TMP: do_lock(c, op); break;
    case INSPECT: do_inspect(c, op); break;
    case TOUCH: do_touch(c, op); break;
    case COMPARE: do_compare(c, op); break;
    case CHURN: do_churn(c, op); break;
    }
    op_end();
    if (single) verify_all(op_names[op.code]);
}

void thread(int t) {
    for (uint32_t i = 0; i < plan->ops.size(); ++i) {
        const Op& op = plan->ops[i];
        if (op.thr != t) continue;
        Ctx c;
        c.t = t;
        c.nh = c.nsh = 0;
        bool mb = LIB != 2 && (op.d & 14) == 2, ro = LIB != 2 && (op.d & 14) == 4;
        c.homes[c.nh++] = t;
        c.shomes[c.nsh++] = t;
        if (mb) { c.homes[c.nh++] = MB; c.shomes[c.nsh++] = MB; }
        if (ro) c.shomes[c.nsh++] = RO;
        exec(c, i);
    }
}

void all_homes(Ctx& c) {
    c.t = 0;
    c.nh = c.nsh = 0;
    int top = nthr ? nthr : 2;
    for (int h = 1; h <= top; ++h) { c.homes[c.nh++] = h; c.shomes[c.nsh++] = h; }
    c.homes[c.nh++] = MB;
    c.shomes[c.nsh++] = MB;
    if (nthr) { c.homes[c.nh++] = RO; c.shomes[c.nsh++] = RO; }
}

struct Prof { const char* name; uint32_t wanted; const char* classes; };
const Prof profs[] = {
    {"C01", LIFE | PUB, "life,pub,mem,race,progress"},
    {"C02", LOCK | LIFE, "lock,life,mem,race,progress"},
    {"C03", CB, "cb,mem,race"},
    {"C04", PUB | SEEN, "race,pub,mem"},
    {"C08", EXC | LIFE | CB | STATE, "exc,life,cb,state,mem"},
    {"C10", LEDGER, "ledger,mem"},
    {"C13", STATE | LIFE | LOCK | CB, "state,life,lock,cb,mem"},
    {"C16", STATE | LIFE | PUB, "state,life,pub,mem,race"},
    {"C20", STATE | LIFE | LOCK, "state,life,lock"},
    {"C17", LOCK | LIFE | CB, "lock,life,cb,mem,race"},
};

void run(const char* profile, const Plan& p) {
    wanted = 0;
    for (auto& f : profs)
        if (!strcmp(f.name, profile)) { wanted = f.wanted; set_classes(f.classes); }
    no_mem = !strcmp(profile, "C20");
    plan = &p;
    nthr = p.nthr;
    set_free_hook(on_free);
    for (int h = 0; h < NHOME; ++h)
        for (int i = 0; i < NS; ++i) {
            { ModelScope m; sm[h][i] = wm[h][i] = {-1, nullptr}; }
            dispatch(kind_of_slot[i], [&](auto t) {
                using T = typename decltype(t)::T;
                construct(S<T>({h, i}));
                construct(W<T>({h, i}));
            });
        }
    Ctx c;
    all_homes(c);
    single = true;
    for (uint32_t i = 0; i < p.ops.size(); ++i)
        if (p.ops[i].thr == 0) exec(c, i);
    if (nthr) {
        single = false;
        spawn_and_join(nthr, thread);
        single = true;
        verify_all("after the threads are done");
    }
    // take everything down, in an order that varies
    uint32_t order = p.cfg[2];
    for (int n = 0; n < NHOME * NS; ++n) {
        int x = int((uint32_t(n) * 11 + order) % (NHOME * NS));
        Loc l{x / NS, x % NS};
        for (int w = 0; w < 2; ++w) {
            bool weak = (w ^ (order >> 7)) & 1;
            SlotM old;
            {
                ModelScope m;
                old = (weak ? wm : sm)[l.h][l.i];
                if (old.owner < 0 && !old.get) continue;
                enter(old.owner);
                if (old.owner >= 0) { if (weak) objs[old.owner].weaks--; else ref_del(old.owner); }
                (weak ? wm : sm)[l.h][l.i] = {-1, nullptr};
            }
            dispatch(kind(l), [&](auto t) {
                using T = typename decltype(t)::T;
                if (weak) { W<T>(l).~WP<T>(); construct(W<T>(l)); }
                else { S<T>(l).~SP<T>(); construct(S<T>(l)); }
            });
            ModelScope m;
            leave(old.owner);
        }
    }
    ModelScope m;
    for (int i = 0; i < nobj; ++i)
        if (objs[i].hasobj && objs[i].constructed) CHECK(LIFE, objs[i].destroyed, "object %d is never destroyed", i);
    if (live_blocks()) {
        char b[300];
        list_live(b, sizeof b);
        CHECK(CB | EXC, false, "memory is leaked:%s", b);
    }
    CHECK(CB | EXC | LEDGER, ntrack == 0, "%d control blocks are not destroyed, or more than once", ntrack);
    CHECK(CB | EXC, ntok == 0, "%d allocators are not destroyed, or more than once", ntok);
    for (auto& r : toks) CHECK(CB | EXC, !r.p, "%zu bytes are never given back to allocator %d", r.bytes, r.tok);
}

// ------------------------------------------------------------------ generation
void gen(const char* profile, Rng& r, Plan& p) {
    int pr = atoi(profile + 1);
    bool conc = pr != 13;
    if (pr == 8 || pr == 10 || pr == 16 || pr == 20) conc = r.chance(1, 2);
    if (LIB == 2) conc = pr == 4; // every thread has objects of its own
    uint8_t w[NOPS] = {};
    auto W = [&](int op, int lo, int hi) { w[op] = uint8_t(uint32_t(lo) + r.below(uint32_t(hi - lo + 1))); };
    // swarm: every run has its own mix
    W(CREATE, 0, conc ? 1 : 5);
    W(COPY_CTOR, 1, 5); W(COPY_ASSIGN, 1, 5); W(MOVE_CTOR, 0, 4); W(MOVE_ASSIGN, 0, 4); W(SWAP, 0, 3);
    W(RESET, 1, 6); W(NULL_ASSIGN, 0, 2); W(DROP, 0, 4);
    W(ALIAS, 0, 2); W(MAKE_ALIASED, 0, 1); W(CAST, 0, 1);
    W(W_FROM, 0, 2); W(W_ASSIGN_S, 0, 2); W(W_COPY, 0, 2); W(W_COPY_ASSIGN, 0, 2); W(W_MOVE, 0, 1); W(W_MOVE_ASSIGN, 0, 1); W(W_SWAP, 0, 1);
    W(W_RESET, 0, 2); W(W_DROP, 0, 2); W(W_ALIAS_W, 0, 1); W(W_ALIAS_S, 0, 1);
    W(LOCK_CTOR, 0, 2); W(LOCK_ASSIGN, 0, 2); W(LOCK_TMP, 0, 2); W(INSPECT, 0, 1); W(TOUCH, 0, 4); W(COMPARE, 0, pr == 13 ? 2 : 0);
    if (LIB == 2 && conc) W(CREATE, 4, 12);
    switch (pr) {
    case 2: W(LOCK_CTOR, 1, 6); W(LOCK_ASSIGN, 1, 6); W(LOCK_TMP, 2, 8); W(INSPECT, 0, 4); W(COPY_CTOR, 0, 2); W(COPY_ASSIGN, 0, 2); break;
    case 3: W(W_COPY, 1, 5); W(W_RESET, 2, 6); W(W_DROP, 1, 5); W(W_FROM, 1, 4); W(LOCK_TMP, 1, 4); W(W_ASSIGN_S, 1, 4); break;
    case 4: W(TOUCH, 3, 9); if (r.chance(1, 2)) { W(LOCK_TMP, 1, 5); W(LOCK_ASSIGN, 0, 3); } break;
    case 8: W(CREATE, 6, 20); break;
    case 10: W(SWAP, 1, 4); W(MOVE_ASSIGN, 1, 5); W(MOVE_CTOR, 1, 4); W(W_MOVE, 1, 4); W(W_MOVE_ASSIGN, 1, 4); W(W_SWAP, 1, 4); W(LOCK_ASSIGN, 1, 4); break;
    case 16: W(ALIAS, 2, 8); W(MAKE_ALIASED, 2, 8); W(CAST, 2, 9); W(TOUCH, 2, 6); W(W_ALIAS_S, 0, 3); W(W_ALIAS_W, 0, 3); break;
    case 17:
        W(W_COPY, 1, 6); W(W_COPY_ASSIGN, 1, 6); W(W_MOVE, 1, 4); W(W_MOVE_ASSIGN, 1, 4); W(W_SWAP, 0, 3); W(W_RESET, 1, 4); W(W_DROP, 1, 4);
        W(W_ALIAS_W, 0, 3); W(INSPECT, 0, 3); W(COPY_CTOR, 0, 2); W(COPY_ASSIGN, 0, 2);
        break;
    }
    int tot = 0;
    for (auto x : w) tot += x;
    auto any = [&] {
        int x = int(r.below(uint32_t(tot)));
        for (int i = 0; i < NOPS; ++i) { if (x < w[i]) return uint8_t(i); x -= w[i]; }
        return uint8_t(COPY_CTOR);
    };
    auto mk = [&](uint8_t code) {
        Op o;
        o.code = code;
        o.a = uint8_t(r.next()); o.b = uint8_t(r.next()); o.c = uint8_t(r.next()); o.d = uint8_t(r.next());
        if (code == CREATE) {
            uint32_t k = r.below(pr == 8 ? 2 : 6);
            if (k == 0) { o.fault = r.chance(1, 2) ? F_ALLOC_FAIL : LIB == 3 && r.chance(1, 2) ? F_CB_CTOR_THROW : F_CTOR_THROW; o.farg = uint8_t(r.below(4) == 0); }
        }
        return o;
    };
    p.cfg[2] = uint8_t(r.next());
    auto alone = [&](size_t from) { // many copies, made by the main thread
        if (!r.chance(1, 30)) return;
        Op o = mk(CHURN);
        o.b |= 1;
        o.farg = r.chance(1, 20) ? 255 : 100;
        p.ops.insert(p.ops.begin() + long(from + r.below(uint32_t(p.ops.size() - from + 1))), o);
    };
    if (!conc) {
        p.nthr = 0;
        int n = 6 + int(r.below(30));
        for (int i = 0; i < n; ++i) p.ops.push_back(i < 2 ? mk(CREATE) : mk(any()));
        alone(2);
        return;
    }
    p.nthr = uint8_t(2 + r.below(r.chance(1, 3) ? 3 : 2));
    // set up: a few objects, spread out
    int no = LIB == 2 ? 0 : 1 + int(r.below(r.chance(1, 2) ? 1 : 3));
    for (int i = 0; i < no; ++i) {
        Op o = mk(CREATE);
        if (pr != 8 || r.chance(3, 4)) o.fault = 0;
        p.ops.push_back(o);
    }
    int spread = LIB == 2 ? 0 : 1 + int(r.below(uint32_t(3 * p.nthr)));
    for (int i = 0; i < spread; ++i) {
        uint32_t k = r.below(8);
        uint8_t code = k < 3 ? COPY_CTOR : k < 6 ? W_FROM : k < 7 ? MOVE_CTOR : W_COPY;
        if ((pr == 17 || pr == 2 || pr == 3) && r.chance(1, 3)) code = W_FROM;
        if (pr == 16 && r.chance(1, 3)) code = ALIAS;
        Op o = mk(code);
        o.c &= uint8_t(~7u);
        p.ops.push_back(o);
    }
    if (LIB != 2) alone(size_t(no));
    int n = int(p.nthr) + int(r.below(uint32_t(r.chance(1, 3) ? 16 : 8) * p.nthr / 2 + 1));
    for (int i = 0; i < n; ++i) {
        Op o = mk(any());
        o.thr = uint8_t(1 + r.below(p.nthr));
        p.ops.push_back(o);
    }
    if (r.chance(1, pr == 2 ? 10 : 25)) // somewhere among them
        for (int k = 1 + int(r.below(2)); k--;) {
            Op o = mk(CHURN);
            o.thr = uint8_t(1 + r.below(p.nthr));
            o.c &= uint8_t(~1u);
            if (pr == 17 || pr == 3) o.c |= uint8_t(r.below(2));
            o.farg = uint8_t(3 + r.below(r.chance(1, 2) ? 140 : 20));
            if (!r.chance(1, 4)) o.b &= uint8_t(~1u);
            p.ops.insert(p.ops.end() - int(r.below(uint32_t(n + 1))), o);
        }
}

void describe(const Op& op, char* out, size_t n) {
    if (op.fault) snprintf(out, n, "[fault: %s %d]", fault_names[op.fault], op.farg);
    else out[0] = 0;
}
const Harness H = {"world", op_names, NOPS, probe_names, NPROBES, gen, run, describe};
}

int main(int argc, char** argv) { return sim::main_(argc, argv, H); }
