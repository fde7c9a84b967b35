// Atomic pointer storages under concurrent load / store / exchange /
// compare_exchange, against a single-copy register (linearizability) and an
// account of ownership. Profiles C05 C06 C07 C10 C15.
// LIB 1: xmem, 3: xmem with a user-supplied tracking control block, 4: xstd over std::shared_ptr.
#include "../sim/sim.h"
#include "wgl.h"
#ifndef LIB
#define LIB 1
#endif
#if LIB == 4
#include <memory>
#include <xmem/std_helpers.hpp>
#else
#include <xmem/shared_ptr.hpp>
#include <xmem/basic_atomic_shared_ptr_storage.hpp>
#endif
#include <cstdlib>
#include <cstring>
#include <new>
#include <sched.h>

using namespace sim;

namespace {

// with C++20 xstd's storage is std::atomic<std::shared_ptr>, which compares the owners, too
#if LIB == 4 && __cplusplus >= 202000L && defined(__cpp_lib_atomic_shared_ptr)
constexpr bool STRICT_CAS = true;
#else
constexpr bool STRICT_CAS = false;
#endif
constexpr int NTH = 5, NSL = 4, NST = 2, MAXOBJ = 64, MAXEV = 32;

enum Class : uint32_t { LIN = 1, OWN = 2, LEDGER = 4, HELP = 8 };
uint32_t wanted;
#define CHECK(c, cond, ...) do { if ((wanted & (c)) && !(cond)) violation((c) & wanted & LIN ? "lin" : (c) & wanted & OWN ? "own" : (c) & wanted & LEDGER ? "ledger" : "help", __VA_ARGS__); } while (0)

enum { P_DESTROY_IN_OP, P_REENTRANT_SAME, P_REENTRANT_IN_CAS_FAIL, P_CAS_OK, P_CAS_FAIL, P_CAS_FAIL_LAST_OWNER, P_CAS_NULL_EQ, P_CAS_ALIAS_EQ, P_OVERLAP, P_LOAD_FOREIGN,
    P_LOAD_WAS_LAST, P_PAUSED, P_ALIAS_STORED, P_NULL_OWNER_STORED, P_MOVED_IN, P_SELF_SLOT, P_LIN_SKIPPED, P_LIN_CHECKED, P_CREATE_FAILED, P_SELF_OK, P_SELF_EXPIRED, P_STORAGE_DROPPED, P_TOKEN_MADE, P_TOKEN_FAILED, P_OWNERLESS_STORED, P_EXPIRED_COMPARED, NPROBES };
const char* const probe_names[] = {"value_destroyed_inside_storage_operation", "destructor_used_same_storage", "destructor_used_storage_during_failed_cas", "cas_succeeded", "cas_failed",
    "cas_failed_and_expected_was_last_owner", "cas_compared_null_with_owner", "cas_equal_pointer_other_owner", "overlapping_storage_operations", "loaded_value_of_another_thread", "loaded_value_outlived_storage",
    "thread_paused_until_others_done", "alias_stored", "null_with_owner_stored", "value_moved_into_storage", "exchange_into_source_slot", "history_too_long_to_check", "history_checked", "creation_failed",
    "self_pointer_obtained", "self_pointer_refused", "storage_destroyed_with_value", "value_moved_into_new_pointer", "value_pointer_failed", "pointer_without_owner_stored", "expired_weak_pointers_compared"};

// ------------------------------------------------------------------ values
struct Payload {
    uint32_t magic = 0xF00DF00D;
    uint32_t f[NTH] = {};
    Payload() = default;
    ~Payload() { magic = 0xDEADF00D; }
};
// a value that is copied or moved
int living_tokens[MAXT];
struct Token {
    int x;
    explicit Token(int v) : x(v) { ModelScope m; living_tokens[tid()]++; }
    Token(const Token& o) : x(o.x) { ModelScope m; living_tokens[tid()]++; }
    Token(Token&& o) noexcept : x(o.x) { o.x = -1; ModelScope m; living_tokens[tid()]++; }
    ~Token() { ModelScope m; living_tokens[tid()]--; }
};
struct Node;
struct ObjM {
    bool used, constructed, destroyed;
    uint8_t prog, st, by;
    int refs;         // strong pointers in slots and locals (storages not included)
    Payload *main, *sub;
    const void* owner; // identity of the control block
    uint32_t w[NTH];
    uint32_t init;
};
ObjM objs[MAXOBJ];
int nobj;
uint64_t mclk;
Payload outside;
const Op* cur_op[MAXT];
uint8_t in_op[MAXT];       // storage operation in progress: 1 + storage
bool in_cas_fail[MAXT];
int dtor_depth;
bool sequential;
bool no_mem; // no memory during operations that need none (C20)

#if LIB == 4
template <typename T> using SPt = std::shared_ptr<T>;
template <typename T> using WPt = std::weak_ptr<T>;
using Storage = xstd::atomic_shared_ptr_storage<Payload>;
using EnableFrom = xstd::enable_shared_from;
template <typename P> const void* owner_of(const P& p) { // no public accessor: libstdc++ keeps it in the second word
    static_assert(sizeof(P) == 2 * sizeof(void*));
    ModelScope m;
    return reinterpret_cast<void* const*>(&p)[1];
}
#else
#if LIB == 3
struct Led { const void* cb; const void* at; };
Led led[128];
int nled;
int led_find(const void* cb, const void* at) {
    for (int i = 0; i < nled; ++i) if (led[i].cb == cb && led[i].at == at) return i;
    return -1;
}
class TrackCB : public xmem::control_block_base<xmem::atomic_ref_count> {
    using B = xmem::control_block_base<xmem::atomic_ref_count>;
    void add(const void* s) {
        ModelScope m;
        CHECK(LEDGER, led_find(this, s) < 0, "the control block is told twice of one strong pointer");
        if (nled < 128) led[nled++] = {this, s};
    }
    void del(const void* s) {
        ModelScope m;
        int i = led_find(this, s);
        CHECK(LEDGER, i >= 0, "the control block is told to forget a strong pointer it was not told of");
        if (i >= 0) led[i] = led[--nled];
    }
public:
    ~TrackCB() {
        ModelScope m;
        for (int i = 0; i < nled; ++i) if (led[i].cb == this) { CHECK(LEDGER, false, "a control block dies with a strong pointer still recorded"); led[i--] = led[--nled]; }
    }
    void init_strong(const void* s) noexcept { add(s); B::init_strong(s); }
    void inc_strong_ref(const void* s) noexcept { B::inc_strong_ref(s); add(s); }
    void dec_strong_ref(const void* s) noexcept { del(s); B::dec_strong_ref(s); }
    bool inc_strong_ref_nz(const void* s) noexcept { bool r = B::inc_strong_ref_nz(s); if (r) add(s); return r; }
    void transfer_strong(const void* to, const void* from) noexcept {
        ModelScope m;
        int i = led_find(this, from);
        CHECK(LEDGER, i >= 0, "transfer from a strong pointer the control block was not told of");
        CHECK(LEDGER, led_find(this, to) < 0, "transfer to a strong pointer the control block already knows");
        if (i >= 0) led[i].at = to;
    }
};
using CBF = xmem::control_block_factory<TrackCB>;
#else
using CBF = xmem::atomic_control_block_factory;
#endif
template <typename T> using SPt = xmem::basic_shared_ptr<CBF, T>;
using Storage = xmem::basic_atomic_shared_ptr_storage<CBF, Payload>;
struct EnableFrom {};
template <typename P> const void* owner_of(const P& p) { return p.owner(); }
#endif
using SP = SPt<Payload>;

void run_prog(Node* self, int id);

struct Node : Payload, EnableFrom {
    Payload sub;
    int id;
    Node(int i, uint32_t init) : id(i) {
        for (auto& x : f) x = init;
        for (auto& x : sub.f) x = init + 1;
        {
            ModelScope m;
            ObjM& o = objs[i];
            o.constructed = true;
            o.main = this;
            o.sub = &sub;
            o.init = init;
        }
        not_owned("not owned yet");
    }
#if LIB == 4
    std::shared_ptr<Payload> self() { return shared_from(static_cast<Payload*>(this)); }
    std::shared_ptr<void> self_void() { return shared_from_this(); }
    std::shared_ptr<const void> self_cvoid() const { return shared_from_this(); }
    std::weak_ptr<Payload> wself() { return weak_from(static_cast<Payload*>(this)); }
    std::weak_ptr<void> wself_void() { return weak_from_this(); }
    std::weak_ptr<const void> wself_cvoid() const { return weak_from_this(); }
    std::shared_ptr<Payload> self_of(Payload* p) const { return shared_from(p); }
    std::weak_ptr<Payload> wself_of(Payload* p) const { return weak_from(p); }
    void not_owned(const char* what) { // it hands out nothing: an empty pointer, or an exception in its place
        if (!(wanted & HELP)) return;
        bool none = wself_void().expired() && static_cast<const Node*>(this)->wself_cvoid().expired();
        try {
            switch (id & 7) { // throwing takes its time: some
            case 1: none = none && !self_void(); break;
            case 3: none = none && !static_cast<const Node*>(this)->self_cvoid(); break;
            case 5: none = none && !self(); break;
            case 7: none = none && wself().expired(); break;
            }
        } catch (std::bad_weak_ptr&) {}
        ModelScope m;
        CHECK(HELP, none, "an object %s hands out a pointer to itself", what);
    }
#else
    void not_owned(const char*) {}
#endif
    ~Node() {
        int t = tid();
        {
            ModelScope m;
            ObjM& o = objs[id];
            log("  value %d destroyed by t%d (refs %d)%s", id, t, o.refs, in_op[t] ? " inside a storage operation" : "");
            CHECK(OWN, !o.destroyed, "value %d is destroyed a second time", id);
            CHECK(OWN, o.refs == 0, "value %d is destroyed while %d strong pointers own it", id, o.refs);
            o.destroyed = true;
            if (in_op[t]) probe_hit(P_DESTROY_IN_OP);
        }
        not_owned("which is being destroyed");
        uint32_t a[NTH];
        for (int i = 0; i < NTH; ++i) a[i] = f[i];
        bool ok = magic == 0xF00DF00D && sub.magic == 0xF00DF00D;
        {
            ModelScope m;
            CHECK(OWN | LIN, ok, "value %d is damaged when it is destroyed", id);
            for (int i = 0; i < NTH; ++i) CHECK(OWN, a[i] == objs[id].init + objs[id].w[i], "value %d lacks what thread %d wrote to it when it is destroyed", id, i);
        }
        run_prog(this, id);
    }
};

// ------------------------------------------------------------------ model
struct Val { int owner; int ptr; bool operator==(const Val& o) const { return owner == o.owner && ptr == o.ptr; } };
// ptr: 0 null, 1 outside, 2 + 2 * object (+ 1: its sub-object)
uint64_t enc(Val v) { return uint64_t(uint32_t(v.owner + 1)) << 16 | uint32_t(v.ptr); }
Val ident(const Payload* p, const void* ow) { // in ModelScope, of a pointer that is owned right now
    Val v{-1, -1};
    if (ow) {
        for (int i = nobj - 1; i >= 0; --i)
            if (objs[i].used && !objs[i].destroyed && objs[i].owner == ow) { v.owner = i; break; }
        if (v.owner < 0) {
            CHECK(OWN | LIN, false, "a storage operation hands out a pointer to a value that has been destroyed");
            return {-2, -2};
        }
    }
    if (!p) v.ptr = 0;
    else if (p == &outside) v.ptr = 1;
    else if (v.owner >= 0 && p == objs[v.owner].main) v.ptr = 2 + 2 * v.owner;
    else if (v.owner >= 0 && p == objs[v.owner].sub) v.ptr = 3 + 2 * v.owner;
    else CHECK(OWN | LIN, false, "a storage operation hands out a pointer with an owner it was not stored with");
    return v;
}
void add(Val v) { if (v.owner >= 0) { objs[v.owner].refs++; CHECK(OWN, !objs[v.owner].destroyed, "value %d is owned although it has been destroyed", v.owner); } }
void del(Val v) { if (v.owner >= 0) objs[v.owner].refs--; }

struct alignas(64) Mem { char m[256]; };
Mem stmem[NST];
static_assert(sizeof(Storage) <= sizeof(Mem));
Storage& ST(int s) { return *reinterpret_cast<Storage*>(stmem[s].m); }
int nst;
alignas(16) char slmem[NTH][NSL][sizeof(SP)];
SP& SL(int t, int i) { return *reinterpret_cast<SP*>(slmem[t][i]); }
Val slm[NTH][NSL];
constexpr Val EMPTY{-1, 0};

// ------------------------------------------------------------------ recorded history
enum { E_LOAD, E_STORE, E_EXCHANGE, E_CAS };
struct Ev { uint64_t inv, res; uint8_t code, thr; bool ok; Val arg, exp, out; };
Ev evs[NST][MAXEV];
int nev[NST];
bool overflow[NST];
Val initial[NST];
Val cur[NST]; // what each holds; meaningful while only one thread runs
bool known;
const char* const ev_names[] = {"load", "store", "exchange", "cas"};

int ev_begin(int s, uint8_t code, Val arg, Val exp) { // in ModelScope
    int t = tid();
    in_op[t] = uint8_t(1 + s);
    if (code == E_STORE || code == E_EXCHANGE || (code == E_CAS && (STRICT_CAS ? cur[s] == exp : cur[s].ptr == exp.ptr))) cur[s] = arg;
    for (int k = 1; k < MAXT; ++k) if (k != t && in_op[k] == 1 + s) probe_hit(P_OVERLAP);
    if (nev[s] >= MAXEV) { overflow[s] = true; return -1; }
    evs[s][nev[s]] = {++mclk, ~0ull, code, uint8_t(t), false, arg, exp, EMPTY};
    return nev[s]++;
}
void ev_end(int s, int e, bool ok, Val out) { // in ModelScope
    in_op[tid()] = 0;
    if (e < 0) return;
    evs[s][e].res = ++mclk;
    evs[s][e].ok = ok;
    evs[s][e].out = out;
}
struct OpMark { // what the thread is inside of, across nested destructors
    int t; uint8_t saved;
    OpMark() : t(tid()), saved(in_op[t]) {}
    ~OpMark() { ModelScope m; in_op[t] = saved; }
};

Val st_load(int s, SP& out) { // out is empty before
    int e;
    { ModelScope m; e = ev_begin(s, E_LOAD, EMPTY, EMPTY); }
    OutOfMemory oom(no_mem);
    SP r = ST(s).load();
    const Payload* p = r.get();
    const void* ow = owner_of(r);
    Val v;
    {
        ModelScope m;
        v = ident(p, ow);
        ev_end(s, e, true, v);
        add(v);
        log("  t%d load(%d) = %d/%d", tid(), s, v.owner, v.ptr);
    }
    out.swap(r);
    return v;
}
void st_store(int s, SP& v, Val vm, bool move) { // the caller's account of v is adjusted here when it is moved from
    int e;
    { ModelScope m; e = ev_begin(s, E_STORE, vm, EMPTY); if (move) { del(vm); probe_hit(P_MOVED_IN); } log("  t%d store(%d, %d/%d)", tid(), s, vm.owner, vm.ptr); }
    OutOfMemory oom(no_mem);
    if (move) ST(s).store(std::move(v));
    else ST(s).store(v);
    ModelScope m;
    ev_end(s, e, true, EMPTY);
}
Val st_exchange(int s, SP& v, Val vm, bool move, SP& out) {
    int e;
    { ModelScope m; e = ev_begin(s, E_EXCHANGE, vm, EMPTY); if (move) del(vm); }
    OutOfMemory oom(no_mem);
    SP r = move ? ST(s).exchange(std::move(v)) : ST(s).exchange(v);
    const Payload* p = r.get();
    const void* ow = owner_of(r);
    Val o;
    {
        ModelScope m;
        o = ident(p, ow);
        ev_end(s, e, true, o);
        add(o);
        log("  t%d exchange(%d, %d/%d) = %d/%d", tid(), s, vm.owner, vm.ptr, o.owner, o.ptr);
    }
    out.swap(r);
    return o;
}
bool st_cas(int s, SP& exp, Val& em, SP& v, Val vm, bool move) {
    int e;
    Val before = em;
    bool last;
    {
        ModelScope m;
        e = ev_begin(s, E_CAS, vm, em);
        last = em.owner >= 0 && objs[em.owner].refs == 1;
        del(em); // it may be replaced, and with that destroyed
        if (move) del(vm);
        in_cas_fail[tid()] = last;
    }
    OutOfMemory oom(no_mem);
    bool ok = move ? ST(s).compare_exchange(exp, std::move(v)) : ST(s).compare_exchange(exp, v);
    const Payload* p = exp.get();
    const void* ow = owner_of(exp);
    ModelScope m;
    in_cas_fail[tid()] = false;
    em = ident(p, ow);
    add(em);
    ev_end(s, e, ok, em);
    probe_hit(ok ? P_CAS_OK : P_CAS_FAIL);
    if (!ok && last) probe_hit(P_CAS_FAIL_LAST_OWNER);
    log("  t%d cas(%d, %d/%d -> %d/%d) = %d, expected now %d/%d", tid(), s, before.owner, before.ptr, vm.owner, vm.ptr, ok, em.owner, em.ptr);
    if (ok) CHECK(LIN, em == before, "a successful compare_exchange changed the expected value");
    return ok;
}

int new_id(uint8_t prog) { // in ModelScope
    if (nobj >= MAXOBJ) return -1;
    int id = nobj++;
    memset(&objs[id], 0, sizeof objs[id]);
    objs[id].used = true;
    objs[id].prog = prog;
    objs[id].by = uint8_t(tid());
    return id;
}
// a fresh value, published by nobody yet
bool fresh(SP& out, Val& vm, uint8_t prog) {
    int id;
    { ModelScope m; id = new_id(prog); }
    if (id < 0) return false;
    uint32_t init = uint32_t(1000 * (id + 1));
    try {
#if LIB == 4
        SPt<Node> n = std::make_shared<Node>(id, init);
#elif LIB == 3
        SPt<Node> n(CBF::make_resource_cb<Node>(xmem::allocator<char>{}, id, init));
#else
        SPt<Node> n = xmem::make_shared<Node>(id, init);
#endif
        const void* ow = owner_of(n);
        { ModelScope m; objs[id].owner = ow; vm = {id, 2 + 2 * id}; add(vm); }
        out = std::move(n);
    } catch (std::bad_alloc&) {
        ModelScope m;
        objs[id].used = false;
        probe_hit(P_CREATE_FAILED);
        return false;
    }
    return true;
}
void drop(SP& p, Val& vm) {
    { ModelScope m; del(vm); vm = EMPTY; }
    OutOfMemory oom(no_mem);
    p = SP();
}
void look(const SP& p, Val vm, bool write) {
    if (vm.ptr < 2) return;
    Payload* q = p.get();
    int t = tid();
    uint32_t mg = q->magic;
    bool sub = vm.ptr & 1;
    uint32_t a = q->f[t];
    bool foreign;
    uint32_t want;
    {
        ModelScope m;
        ObjM& o = objs[(vm.ptr - 2) / 2];
        foreign = o.by != t;
        if (foreign) probe_hit(P_LOAD_FOREIGN);
        want = o.init + (sub ? 1 : o.w[t]);
        CHECK(OWN | LIN, mg == 0xF00DF00D && a == want, "the value that a loaded pointer owns is not the one that was stored");
        if (!sub && write) o.w[t]++;
    }
    if (!sub && write) q->f[t] = a + 1;
}

// what a value does when it is destroyed
void run_prog(Node* self, int id) {
    uint8_t prog, s;
    {
        ModelScope m;
        prog = objs[id].prog;
        if (!prog) return;
        s = uint8_t((prog >> 4) % nst);
        prog &= 15;
        int t = tid();
        if (in_op[t] == 1 + s) { probe_hit(P_REENTRANT_SAME); if (in_cas_fail[t]) probe_hit(P_REENTRANT_IN_CAS_FAIL); }
        fault_fired(F_REENTRY);
    }
    OpMark mark;
    OutOfMemory enough(false);
    SP a, b;
    Val am = EMPTY, bm = EMPTY;
    switch (prog % 6) {
    case 0: am = st_load(s, a); look(a, am, false); break;
    case 1: am = st_exchange(s, b, EMPTY, true, a); break;
    case 2: if (fresh(b, bm, 0)) { st_store(s, b, bm, true); bm = EMPTY; } break;
    case 3:
        am = st_load(s, a);
        if (fresh(b, bm, 0)) { st_cas(s, a, am, b, bm, true); bm = EMPTY; }
        break;
    case 4: st_store(s, b, EMPTY, true); break;
    case 5:
        if (fresh(a, am, 0)) st_cas(s, a, am, b, EMPTY, true); // fails, unless the storage is empty
        break;
    }
#if LIB == 4
    if (prog & 1) { // an expired object must not be revived
        bool got = false, wgot = false;
        try { auto p = self->self(); got = bool(p); } catch (std::bad_weak_ptr&) {}
        try { auto p = self->wself(); wgot = bool(p.lock()); } catch (std::bad_weak_ptr&) {}
        bool ex = self->wself_void().expired() && self->wself_cvoid().expired();
        ModelScope m;
        probe_hit(P_SELF_EXPIRED);
        CHECK(HELP, !got && !wgot && ex, "an object gets a pointer to itself while it is being destroyed");
    }
#endif
    drop(a, am);
    drop(b, bm);
}

// ------------------------------------------------------------------ operations
enum { NOP, LOAD, STORE, EXCHANGE, CAS, CAS_FRESH, MAKE, COPY, DROP, LOOK, PAUSE, HELPERS, SELF, NOPS };
const char* const op_names[] = {"nop", "load", "store", "exchange", "compare_exchange", "load_then_compare_exchange", "make", "copy_alias", "drop", "look", "pause", "helpers", "self"};
const Plan* plan;
int nthr;
bool finished[MAXT];

// an argument for a storage operation: ref to a slot or to tmp
struct Arg { SP* p; Val v; bool move; int slot; };
bool make_arg(int t, const Op& op, SP& tmp, Arg& a) {
    int i = op.b % NSL;
    SP& s = SL(t, i);
    Val sv;
    { ModelScope m; sv = slm[t][i]; }
    a = {&tmp, EMPTY, true, -1};
    switch (op.c % 8) {
    case 0: case 1: a = {&s, sv, false, i}; break;
    case 2: a = {&s, sv, true, i}; break;
    case 3: case 4: if (!fresh(tmp, a.v, op.d)) return false; break;
    case 5: break; // null
    case 6: { // alias: the sub-object, or something outside
        if (sv.owner < 0) { // nothing to share: a pointer to something, without an owner
            tmp = SP(s, &outside);
            ModelScope m;
            probe_hit(P_OWNERLESS_STORED);
            a.v = {-1, 1};
            break;
        }
        bool out = op.d & 1;
        Payload* target;
        { ModelScope m; target = out ? &outside : objs[sv.owner].sub; probe_hit(P_ALIAS_STORED); a.v = {sv.owner, out ? 1 : 3 + 2 * sv.owner}; }
#if LIB == 4
        if (op.d & 2) tmp = xstd::make_aliased(s, target);
        else
#endif
        tmp = SP(s, target);
        ModelScope m;
        add(a.v);
        break;
    }
    case 7: { // null pointer with an owner
        if (sv.owner < 0) { a = {&s, sv, false, i}; break; }
        tmp = SP(s, static_cast<Payload*>(nullptr));
        ModelScope m;
        probe_hit(P_NULL_OWNER_STORED);
        a.v = {sv.owner, 0};
        add(a.v);
        break;
    }
    }
    return true;
}
void account(const char* where);

void exec(int t, uint32_t i) {
    const Op& op = plan->ops[i];
    op_begin(i);
    int s = op.a % nst, d = (op.a >> 4) % NSL;
    SP tmp;
    Arg a;
    if (op.fault == F_ALLOC_FAIL) arm_alloc_fail(1);
    switch (op.code) {
    case LOAD: {
        if (op.c & 1) drop(SL(t, d), slm[t][d]);
        SP r;
        Val v = st_load(s, r);
        look(r, v, op.c & 2);
        if (op.c & 4) { drop(r, v); break; }
        Val old;
        { ModelScope m; old = slm[t][d]; del(old); slm[t][d] = v; }
        SL(t, d) = std::move(r);
        break;
    }
    case STORE:
        if (!make_arg(t, op, tmp, a)) break;
        st_store(s, *a.p, a.v, a.move);
        if (a.slot >= 0 && a.move) { ModelScope m; slm[t][a.slot] = EMPTY; }
        break;
    case EXCHANGE: {
        if (!make_arg(t, op, tmp, a)) break;
        SP r;
        Val v = st_exchange(s, *a.p, a.v, a.move, r);
        if (a.slot >= 0 && a.move) { ModelScope m; slm[t][a.slot] = EMPTY; if (a.slot == d) probe_hit(P_SELF_SLOT); }
        look(r, v, op.d & 4);
        Val old;
        { ModelScope m; old = slm[t][d]; del(old); slm[t][d] = v; }
        SL(t, d) = std::move(r);
        break;
    }
    case CAS: case CAS_FRESH: {
        if (op.code == CAS_FRESH) {
            SP r;
            Val v = st_load(s, r);
            { ModelScope m; del(slm[t][d]); slm[t][d] = v; }
            SL(t, d) = std::move(r);
        }
        if (!make_arg(t, op, tmp, a)) break;
        if (a.slot == d && a.move) { // moved from before it is used as expected: legal, too
            SP v(std::move(*a.p));
            Val vm;
            { ModelScope m; vm = a.v; slm[t][d] = EMPTY; }
            st_cas(s, SL(t, d), slm[t][d], v, vm, true);
            break;
        }
        Val vm = a.v;
        if (a.slot >= 0 && a.move) { ModelScope m; slm[t][a.slot] = EMPTY; }
        st_cas(s, SL(t, d), slm[t][d], *a.p, vm, a.move);
        look(SL(t, d), slm[t][d], op.d & 4);
        break;
    }
    case MAKE: {
        drop(SL(t, d), slm[t][d]);
        Val v = EMPTY;
        if (fresh(tmp, v, op.d)) { { ModelScope m; slm[t][d] = v; } SL(t, d) = std::move(tmp); }
        break;
    }
    case COPY: {
        int b = op.b % NSL;
        if (b == d) break;
        Val v;
        { ModelScope m; v = slm[t][b]; del(slm[t][d]); slm[t][d] = EMPTY; }
        OutOfMemory oom(no_mem);
        SL(t, d) = SL(t, b);
        ModelScope m;
        slm[t][d] = v;
        add(v);
        break;
    }
    case DROP: drop(SL(t, d), slm[t][d]); break;
    case LOOK: look(SL(t, d), slm[t][d], op.c & 1); break;
    case PAUSE:
        if (sequential || !t) break;
        { ModelScope m; probe_hit(P_PAUSED); finished[t] = true; }
        for (;;) { // sleep until the others are done or paused
            bool done = true;
            { ModelScope m; for (int k = 1; k <= nthr; ++k) done = done && finished[k]; }
            if (done) break;
            sched_yield();
        }
        { ModelScope m; finished[t] = false; }
        break;
    case HELPERS: {
#if LIB == 4
        int b = op.b % NSL;
        SP &x = SL(t, b), &y = SL(t, d);
        Val xv, yv;
        { ModelScope m; xv = slm[t][b]; yv = slm[t][d]; }
        WPt<Payload> wx(x), wy(y);
        bool so = xstd::same_owner(x, y), s2 = xstd::same_owner(wx, y), s3 = xstd::same_owner(x, wy), s4 = xstd::same_owner(wx, wy), n1 = xstd::no_owner(x), n2 = xstd::no_owner(wx);
        if (op.c & 1) { // values moved or copied into owned memory; either may fail
            Token tok(17);
            bool moved = op.c & 2, got = false, right = true;
            try {
                if (op.c & 4) {
                    std::shared_ptr<Token> s = moved ? xstd::make_shared_ptr(std::move(tok)) : xstd::make_shared_ptr(tok);
                    got = true;
                    right = s && s->x == 17 && s.use_count() == 1;
                } else {
                    std::unique_ptr<Token> u = moved ? xstd::make_unique_ptr(std::move(tok)) : xstd::make_unique_ptr(tok);
                    got = true;
                    right = u && u->x == 17;
                }
            } catch (std::bad_alloc&) {}
            ModelScope m;
            probe_hit(got ? P_TOKEN_MADE : P_TOKEN_FAILED);
            CHECK(HELP, right && tok.x == (got && moved ? -1 : 17), "a value passed to make_shared_ptr or make_unique_ptr is not the one owned");
            CHECK(HELP, living_tokens[t] == 1, "a value made by make_shared_ptr or make_unique_ptr is not destroyed once");
        }
        if (op.c & 8) { // an owner remains the same when its object is gone
            SP e1, e2;
            Val v1 = EMPTY, v2 = EMPTY;
            if (fresh(e1, v1, 0) && fresh(e2, v2, 0)) {
                WPt<Payload> w1(e1), w1b(w1), w2(e2), w0;
                drop(e1, v1);
                if (op.c & 16) drop(e2, v2);
                bool right = xstd::same_owner(w1, w1b) && !xstd::same_owner(w1, w2) && !xstd::same_owner(w2, w1) && !xstd::same_owner(w1, x) && !xstd::same_owner(x, w1) && !xstd::same_owner(w1, w0) && !xstd::same_owner(w0, w1)
                    && !xstd::same_owner(w1, SP()) && !xstd::same_owner(SP(), w1) && xstd::same_owner(w0, SP()) && xstd::same_owner(SP(), w0) && !xstd::no_owner(w1) && xstd::no_owner(w0);
                ModelScope m;
                probe_hit(P_EXPIRED_COMPARED);
                CHECK(HELP, right, "same_owner() or no_owner() is wrong for a weak pointer that has expired");
            }
            drop(e1, v1);
            drop(e2, v2);
        }
        auto al = xstd::make_aliased(x, &outside);
        bool am = al.get() == (xv.owner >= 0 ? &outside : nullptr), ao = xstd::same_owner(al, x);
        {
            auto an = xstd::make_aliased(x, static_cast<int*>(nullptr));
            am = am && !an;
            ao = ao && xstd::same_owner(an, x) && xstd::same_owner(x, WPt<int>(an)) && xstd::no_owner(an) == (xv.owner < 0);
        }
        ModelScope m;
        bool want = xv.owner == yv.owner;
        CHECK(HELP, so == want && s2 == want && s3 == want && s4 == want, "same_owner() is wrong");
        CHECK(HELP, n1 == (xv.owner < 0) && n2 == n1, "no_owner() is wrong");
        CHECK(HELP, am && ao, "make_aliased() gives a wrong pointer");
#endif
        break;
    }
    case SELF: {
#if LIB == 4
        Val v;
        { ModelScope m; v = slm[t][d]; }
        if (v.owner < 0 || v.ptr < 2 || v.ptr & 1) break;
        Node* n = static_cast<Node*>(SL(t, d).get());
        const Node* cn = n;
        SP& own = SL(t, d);
        const void* top = n->self_void().get(); // somewhere in the object
        bool same = true, ok = top >= n && top < n + 1;
        long before = own.use_count();
        for (int k = 0; k < 10; ++k) { // one at a time: nothing but the owners refers to the object
            auto take = [&](auto&& p, const void* e) { ok = ok && p.get() == e; same = same && xstd::same_owner(p, own); };
            auto look = [&](auto&& w, const void* e) {
                same = same && xstd::same_owner(w, own);
                auto p = w.lock();
                ok = ok && p.get() == e;
                same = same && xstd::same_owner(p, own);
            };
            switch ((k + op.b) % 10) {
            case 0: take(n->self(), n); break;
            case 1: take(n->self_void(), top); break;
            case 2: take(cn->self_cvoid(), top); break;
            case 3: take(cn->self_of(&outside), &outside); break;
            case 4: take(cn->self_of(static_cast<Payload*>(nullptr)), nullptr); break;
            case 5: look(n->wself(), n); break;
            case 6: look(n->wself_void(), top); break;
            case 7: look(cn->wself_cvoid(), top); break;
            case 8: look(cn->wself_of(&outside), &outside); break;
            case 9: look(cn->wself_of(static_cast<Payload*>(nullptr)), nullptr); break;
            }
        }
        {
            auto p = n->self();
            auto pv = n->self_void();
            auto pc = cn->self_cvoid();
            auto w = n->wself();
            auto wv = n->wself_void();
            auto wc = cn->wself_cvoid();
            auto l = w.lock();
            auto lv = wv.lock();
            auto lc = wc.lock();
            ok = ok && p.get() == n && l.get() == n && pv.get() == top && pc.get() == top && lv.get() == top && lc.get() == top;
            same = same && xstd::same_owner(p, own) && xstd::same_owner(pv, own) && xstd::same_owner(pc, own) && xstd::same_owner(lc, pc) && xstd::same_owner(w, own) && xstd::same_owner(wv, own) && xstd::same_owner(own, wc);
            long during = own.use_count();
            if (sequential) same = same && during == before + 6;
        }
        if (sequential) same = same && own.use_count() == before;
        ok = ok && same;
        { ModelScope m; probe_hit(P_SELF_OK); CHECK(HELP, ok, "an owned object gets a wrong pointer to itself"); }
#endif
        break;
    }
    }
    arm_alloc_fail(0);
    // tmp may still own an argument that was not consumed
    {
        ModelScope m;
        const Payload* p = tmp.get();
        const void* ow = owner_of(tmp);
        if (ow) del(ident(p, ow));
    }
    tmp = SP();
    op_end();
    if (sequential) account(op_names[op.code]);
}

void thread(int t) {
    for (uint32_t i = 0; i < plan->ops.size(); ++i)
        if (plan->ops[i].thr == t) exec(t, i);
    ModelScope m;
    finished[t] = true;
}

// nothing is in progress: who owns what is known exactly
void account(const char* where) {
    ModelScope m;
    int held[MAXOBJ] = {};
    for (int i = 0; i < nobj; ++i) held[i] = objs[i].refs;
    Val c[NST];
    for (int s = 0; s < nst; ++s) {
        SP r = ST(s).load();
        c[s] = ident(r.get(), owner_of(r));
        if (c[s].owner >= 0) held[c[s].owner]++;
        if (!known) cur[s] = c[s];
        CHECK(OWN, c[s] == cur[s], "%s: storage %d does not keep the value it was given", where, s);
    }
    known = true;
    for (int i = 0; i < nobj; ++i) {
        if (!objs[i].used || !objs[i].constructed) continue;
        CHECK(OWN, held[i] > 0 || objs[i].destroyed, "%s: value %d has no owner left but is not destroyed", where, i);
        CHECK(OWN, held[i] == 0 || !objs[i].destroyed, "%s: value %d is destroyed although it has %d owners", where, i, held[i]);
    }
    int entries = 0;
    for (int s = 0; s < nst; ++s)
        if (c[s].owner >= 0) {
            entries++;
            long n = ST(s).load().use_count() - 1;
            CHECK(OWN, n == held[c[s].owner], "%s: the use count of value %d is %ld, it has %d owners", where, c[s].owner, n, held[c[s].owner]);
        }
    for (int t = 0; t < NTH; ++t)
        for (int i = 0; i < NSL; ++i)
            if (slm[t][i].owner >= 0) {
                entries++;
                long n = SL(t, i).use_count();
                CHECK(OWN, n == held[slm[t][i].owner], "%s: the use count of value %d is %ld, it has %d owners", where, slm[t][i].owner, n, held[slm[t][i].owner]);
#if LIB == 3
                CHECK(LEDGER, led_find(objs[slm[t][i].owner].owner, &SL(t, i)) >= 0, "%s: a live strong pointer is missing from the account its control block was given", where);
#endif
            }
#if LIB == 3
    CHECK(LEDGER, nled == entries, "%s: the control blocks were told of %d pointers, %d exist", where, nled, entries);
#endif
    (void)entries;
}

void check_history(int s) {
    if (!(wanted & LIN)) return;
    if (overflow[s]) { probe_hit(P_LIN_SKIPPED); return; }
    probe_hit(P_LIN_CHECKED);
    for (int i = 0; i < nev[s]; ++i)
        if (evs[s][i].code == E_CAS) {
            if (evs[s][i].ok && evs[s][i].exp.ptr == 0 && evs[s][i].exp.owner < 0) probe_hit(P_CAS_NULL_EQ);
            if (evs[s][i].ok && evs[s][i].exp.ptr == 1) probe_hit(P_CAS_ALIAS_EQ);
        }
    uint64_t init = enc(initial[s]);
    int deepest = 0;
    int r = wgl::check(evs[s], nev[s], init, [&](const Ev& e, uint64_t& st) {
        switch (e.code) {
        case E_LOAD: return enc(e.out) == st;
        case E_STORE: st = enc(e.arg); return true;
        case E_EXCHANGE: if (enc(e.out) != st) return false; st = enc(e.arg); return true;
        default: {
            bool eq = STRICT_CAS ? st == enc(e.exp) : (st & 0xffff) == uint32_t(e.exp.ptr); // ==, as the pointers define it
            if (eq != e.ok) return false;
            if (e.ok) { st = enc(e.arg); return true; } // that `expected` stays as it was is checked on the spot
            return enc(e.out) == st;
        }
        }
    }, &deepest);
    if (r == 0) {
        char b[700] = "";
        size_t at = 0;
        for (int i = 0; i < nev[s] && at + 90 < sizeof b; ++i) {
            const Ev& e = evs[s][i];
            at += size_t(snprintf(b + at, sizeof b - at, " t%d:%s", e.thr, ev_names[e.code]));
            if (e.code == E_CAS) at += size_t(snprintf(b + at, sizeof b - at, "(%d/%d->%d/%d)=%s", e.exp.owner, e.exp.ptr, e.arg.owner, e.arg.ptr, e.ok ? "ok" : "no"));
            else if (e.code != E_LOAD) at += size_t(snprintf(b + at, sizeof b - at, "(%d/%d)", e.arg.owner, e.arg.ptr));
            if (e.code == E_LOAD || e.code == E_EXCHANGE || (e.code == E_CAS && !e.ok)) at += size_t(snprintf(b + at, sizeof b - at, ":%d/%d", e.out.owner, e.out.ptr));
            at += size_t(snprintf(b + at, sizeof b - at, "[%llu,%llu]", (unsigned long long)e.inv, (unsigned long long)e.res));
        }
        violation("lin", "no order of these operations on a storage (initially %d/%d, values as owner/pointer) explains the results:%s", initial[s].owner, initial[s].ptr, b);
    }
}

struct Prof { const char* name; uint32_t wanted; const char* classes; };
const Prof profs[] = {
    {"C05", LIN, "lin,mem,race"},
    {"C06", OWN, "own,mem,race"},
    {"C07", 0, "progress"},
    {"C10", LEDGER, "ledger,mem"},
    {"C20", LIN | OWN, "lin,own"},
    {"C15", LIN | OWN | HELP, "lin,own,help,mem,race,progress"},
};

void run(const char* profile, const Plan& p) {
    wanted = 0;
    for (auto& f : profs)
        if (!strcmp(f.name, profile)) { wanted = f.wanted; set_classes(f.classes); }
    no_mem = !strcmp(profile, "C20");
    plan = &p;
    nthr = p.nthr;
    nst = 1 + p.cfg[3] % NST;
    sequential = known = true;
    for (int t = 0; t < NTH; ++t)
        for (int i = 0; i < NSL; ++i) { new (slmem[t][i]) SP; ModelScope m; slm[t][i] = EMPTY; }
    for (int s = 0; s < nst; ++s) {
        SP v;
        Val vm = EMPTY;
        if (p.cfg[4] >> s & 1) fresh(v, vm, p.cfg[5 + s]);
        if (p.cfg[4] >> (s + 2) & 1 || !v) {
            new (stmem[s].m) Storage;
            if (v) { { ModelScope m; del(vm); } ST(s).store(std::move(v)); }
        } else {
            { ModelScope m; del(vm); }
            new (stmem[s].m) Storage(std::move(v));
        }
        ModelScope m;
        initial[s] = cur[s] = vm;
    }
    for (uint32_t i = 0; i < p.ops.size(); ++i)
        if (p.ops[i].thr == 0) exec(0, i);
    if (nthr) {
        { // hand the main thread's pointers to the workers
            for (int i = 0; i < NSL; ++i)
                for (int t = 1; t <= nthr; ++t)
                    if (p.cfg[7] >> ((i + t) % 8) & 1) {
                        Val v;
                        { ModelScope m; v = slm[0][i]; slm[t][i] = v; add(v); }
                        SL(t, i) = SL(0, i);
                    }
            if (p.cfg[8] & 1) for (int i = 0; i < NSL; ++i) drop(SL(0, i), slm[0][i]);
        }
        sequential = known = false;
        spawn_and_join(nthr, thread);
        sequential = true;
        account("after the threads are done");
    }
    // a last look, recorded
    for (int s = 0; s < nst; ++s) { SP r; Val v = st_load(s, r); drop(r, v); }
    {
        ModelScope m;
        for (int s = 0; s < nst; ++s) check_history(s);
    }
    int order = p.cfg[9];
    for (int pass = 0; pass < 2; ++pass) {
        if ((pass ^ order) & 1)
            for (int t = 0; t < NTH; ++t)
                for (int i = 0; i < NSL; ++i) drop(SL(t, i), slm[t][i]);
        else if (!pass) { // empty the storages first; they can still be used by what is destroyed
            for (int s = 0; s < nst; ++s) { SP n; st_store(s, n, EMPTY, false); }
        }
    }
    // values without programs only: the storage itself is going away
    {
        ModelScope m;
        for (int i = 0; i < nobj; ++i) objs[i].prog = 0;
    }
    auto drop_all = [] {
        for (int t = 0; t < NTH; ++t)
            for (int i = 0; i < NSL; ++i) drop(SL(t, i), slm[t][i]);
    };
    if (!(order & 4)) drop_all();
    for (int s = 0; s < nst; ++s) {
        { ModelScope m; SP r = ST(s).load(); if (r.get() || owner_of(r)) probe_hit(P_STORAGE_DROPPED); }
        ST(s).~Storage();
    }
    if (order & 4) {
        { ModelScope m; for (auto& t : slm) for (auto& v : t) if (v.owner >= 0) probe_hit(P_LOAD_WAS_LAST); }
        drop_all();
    }
    ModelScope m;
    for (int i = 0; i < nobj; ++i)
        if (objs[i].used && objs[i].constructed) CHECK(OWN, objs[i].destroyed, "value %d is never destroyed", i);
    if (live_blocks()) {
        char b[300];
        list_live(b, sizeof b);
        CHECK(OWN, false, "memory is leaked:%s", b);
    }
}

void gen(const char* profile, Rng& r, Plan& p) {
    int pr = atoi(profile + 1);
    for (int i = 0; i < pr; ++i) r.next(); // every profile has programs of its own
    bool conc = !r.chance(1, 6);
    p.nthr = conc ? uint8_t(2 + r.below(r.chance(1, 3) ? 3 : 2)) : 0;
    p.cfg[3] = r.chance(1, 4);
    p.cfg[4] = uint8_t(r.next());
    bool progs = pr == 7 || r.chance(1, 2); // destructors that use the storage
    auto prog = [&]() -> uint8_t { return progs && r.chance(1, pr == 7 ? 1 : 2) ? uint8_t(1 + r.below(255)) : 0; };
    p.cfg[5] = prog();
    p.cfg[6] = prog();
    p.cfg[7] = uint8_t(r.next());
    p.cfg[8] = uint8_t(r.below(2));
    p.cfg[9] = uint8_t(r.below(4));
    uint8_t w[NOPS] = {};
    auto W = [&](int op, int lo, int hi) { w[op] = uint8_t(uint32_t(lo) + r.below(uint32_t(hi - lo + 1))); };
    W(LOAD, 1, 6); W(STORE, 0, 5); W(EXCHANGE, 0, 5); W(CAS, 0, 6); W(CAS_FRESH, 0, 4); W(MAKE, 0, 2); W(COPY, 0, 2); W(DROP, 0, 3); W(LOOK, 0, 1);
    if (pr == 7) { W(PAUSE, 0, 1); }
    if (pr == 15) { W(HELPERS, 0, 2); W(SELF, 0, 2); }
    int tot = 0;
    for (auto x : w) tot += x;
    auto any = [&] {
        int x = int(r.below(uint32_t(tot)));
        for (int i = 0; i < NOPS; ++i) { if (x < w[i]) return uint8_t(i); x -= w[i]; }
        return uint8_t(LOAD);
    };
    auto mk = [&](uint8_t code) {
        Op o;
        o.code = code;
        o.a = uint8_t(r.next()); o.b = uint8_t(r.next()); o.c = uint8_t(r.next()); o.d = uint8_t(r.next());
        if (code == MAKE || ((code == STORE || code == EXCHANGE || code == CAS || code == CAS_FRESH) && (o.c % 8 == 3 || o.c % 8 == 4))) {
            o.d = prog();
            if (r.chance(1, 8)) o.fault = F_ALLOC_FAIL;
        }
        if (code == HELPERS && r.chance(1, 8)) o.fault = F_ALLOC_FAIL;
        return o;
    };
    int pre = 1 + int(r.below(4));
    for (int i = 0; i < pre; ++i) { Op o = mk(r.chance(3, 4) ? uint8_t(MAKE) : any()); p.ops.push_back(o); }
    int n = conc ? int(p.nthr) + int(r.below(r.chance(1, 3) ? 14 : 7)) : 3 + int(r.below(14));
    for (int i = 0; i < n; ++i) {
        Op o = mk(any());
        o.thr = conc ? uint8_t(1 + r.below(p.nthr)) : 0;
        p.ops.push_back(o);
    }
}
const Harness H = {"storage", op_names, NOPS, probe_names, NPROBES, gen, run, nullptr};
}

int main(int argc, char** argv) { return sim::main_(argc, argv, H); }
