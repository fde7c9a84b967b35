// Unique pointers of every kind of deleter: histories with failing creations,
// deleters and destructors that call back, objects that own pointers.
// Profile C12. One thread; what varies is the history, the faults and the heap.
#include "../sim/sim.h"
#include <xmem/unique_ptr.hpp>
#include <xmem/shared_ptr.hpp>
#include <cstdlib>
#include <cstring>
#include <new>

using namespace sim;

namespace {

constexpr int NS = 3, MAXR = 128, NRAW = 4, NSH = 3, MAXFL = 64;
enum { P_CALLBACK, P_CALLBACK_SAME, P_SOURCE_DIED, P_TARGET_DIED, P_SELF_MOVE, P_SELF_SWAP, P_REACHED_ITSELF, P_SAW_NEW, P_HANDED, P_HAND_FAILED, P_CREATE_FAILED, P_CTOR_THREW, P_PARTIAL_ARRAY, P_CONVERTED,
    P_RELEASED, P_ADOPTED, P_CYCLE, P_SHARED_DISPOSED, P_FROM_REF, P_SWAP_DELETERS, P_NESTED, P_VALUE, P_VALUE_THREW, P_CONVERTED_REF, P_CONVERTED_FN, P_CONVERTED_EMPTY, P_SHARED_ARRAY, P_SHARED_ARRAY_DISPOSED, P_SHARED_ARRAY_LOCKED, P_SHARED_ELEMENT, P_SHARE_FAILED, NPROBES };
const char* const probe_names[] = {"callback_changed_pointers", "callback_changed_the_pointer_being_changed", "move_source_destroyed_by_old_value", "pointer_destroyed_by_its_own_operation", "self_move", "self_swap", "reached_itself_in_destructor",
    "saw_new_value_in_destructor", "handed_to_shared", "handover_failed", "creation_failed", "constructor_threw", "array_half_constructed", "converted", "released", "adopted", "self_owning_object", "disposed_through_shared",
    "owned_deleter_from_referenced_one", "swapped_different_deleters", "nested_disposal", "value_made", "copying_a_value_threw", "converted_from_reference_to_derived_deleter", "converted_to_function", "converted_from_empty", "shared_array_made", "shared_array_disposed", "shared_array_locked", "element_shares_array", "sharing_raw_pointer_failed"};

#define CHECK(cond, ...) do { if (!(cond)) violation("uniq", __VA_ARGS__); } while (0)

// ------------------------------------------------------------------ model
enum { T_DEFAULT = 1, T_UNKNOWN = -1 };
struct Cell { int res, tag; }; // what a unique pointer holds, and its deleter
struct Res {
    bool used, due, called, disposed, failed, array;
    int shared;         // shared pointers that own it
    int tag;            // the deleter it is paired with
    int n, left;        // elements
    void* at;
    uint8_t prog[2];
};
Res res[MAXR];
int nres;
int making = -1, elem;         // resource under construction
int throw_at;                  // constructor calls until one throws
int cur_dispose = -1;
uint8_t next_prog[2];
int depth;

bool reaches(int r, int to);
void due(int r) { if (r >= 0) { CHECK(!res[r].due, "resource %d is given up twice (harness)", r); res[r].due = true; } } // in ModelScope

// operations in progress that dispose of something
enum { DTOR, RESET, GONE };
struct Flight { const void* holder; const void* (*get)(const void*); Cell* c; int mode, res; };
Flight fl[MAXFL];
int nfl;

struct Pad { uint64_t x[2] = {1, 2}; };
struct Base {
    uint32_t bm = 0xBA5E;
    virtual ~Base() {}
};
struct Obj;
void callback(int r, int stage);
struct CtorThrow {};

// a value that is copied or moved into a unique_ptr
int live_vals;
struct Val {
    int x;
    uint64_t pad[3] = {};
    explicit Val(int v) : x(v) { ModelScope m; live_vals++; }
    Val(const Val& o) : x(o.x) { ModelScope m; if (throw_at > 0) { throw_at = 0; fault_fired(F_CTOR_THROW); probe_hit(P_VALUE_THREW); throw CtorThrow(); } live_vals++; }
    Val(Val&& o) noexcept : x(o.x) { o.x = -1; ModelScope m; live_vals++; }
    ~Val() { ModelScope m; live_vals--; }
};
// deleters
struct Del {
    int tag = 10;
    Del() = default;
    explicit Del(int t) : tag(t) {}
    Del(const Del&) = default;
    Del& operator=(const Del&) = default;
    Del(Del&& o) noexcept : tag(o.tag) { o.tag = T_UNKNOWN; }
    Del& operator=(Del&& o) noexcept { int t = o.tag; o.tag = T_UNKNOWN; tag = t; return *this; }
    Del(xmem::default_delete<Obj>&&) noexcept : tag(11) {}
    Del& operator=(xmem::default_delete<Obj>&&) noexcept { tag = 11; return *this; }
    void operator()(Obj* p) const;
};
struct BDel {
    int tag = 20;
    BDel() = default;
    explicit BDel(int t) : tag(t) {}
    BDel(const BDel&) = default;
    BDel& operator=(const BDel&) = default;
    BDel(BDel&& o) noexcept : tag(o.tag) { o.tag = T_UNKNOWN; }
    BDel& operator=(BDel&& o) noexcept { int t = o.tag; o.tag = T_UNKNOWN; tag = t; return *this; }
    BDel(Del&& o) noexcept : tag(o.tag) { o.tag = T_UNKNOWN; }
    BDel& operator=(Del&& o) noexcept { int t = o.tag; o.tag = T_UNKNOWN; tag = t; return *this; }
    BDel(const Del& o) noexcept : tag(o.tag) {}
    void operator()(Base* p) const;
};
struct ADel {
    int tag = 30;
    ADel() = default;
    explicit ADel(int t) : tag(t) {}
    ADel(const ADel&) = default;
    ADel& operator=(const ADel&) = default;
    ADel(ADel&& o) noexcept : tag(o.tag) { o.tag = T_UNKNOWN; }
    ADel& operator=(ADel&& o) noexcept { int t = o.tag; o.tag = T_UNKNOWN; tag = t; return *this; }
    operator xmem::default_delete<Obj>() const { return {}; } // must not be used
    void operator()(Obj* p) const;
};
struct SubDel : Del { using Del::Del; };
SubDel rdel[3];
struct Held { // made in place from what it is given
    Val v;
    int& y;
    Held(Val&& a, const Val& b, int& c) : v(std::move(a)), y(c) { y += b.x; }
    Held(const Val& a, const Val& b, int& c) : v(a), y(c) { y += 100 + b.x; }
};
void fn0(Obj* p);
void fn1(Obj* p);
using Fn1 = void (*)(Obj*);
struct FnDel { // converts to a function
    Fn1 f;
    operator Fn1() const { return f; }
    void operator()(Obj* p) const { f(p); }
};

// ------------------------------------------------------------------ kinds of pointers
enum { KD, KS, KR, KF, KB, KBS, KA, KAS, NK };
template <int K> struct KindT;
template <> struct KindT<KD> { using U = xmem::unique_ptr<Obj>; };
template <> struct KindT<KS> { using U = xmem::unique_ptr<Obj, Del>; };
template <> struct KindT<KR> { using U = xmem::unique_ptr<Obj, Del&>; };
template <> struct KindT<KF> { using U = xmem::unique_ptr<Obj, Fn1>; };
template <> struct KindT<KB> { using U = xmem::unique_ptr<Base>; };
template <> struct KindT<KBS> { using U = xmem::unique_ptr<Base, BDel>; };
template <> struct KindT<KA> { using U = xmem::unique_ptr<Obj[]>; };
template <> struct KindT<KAS> { using U = xmem::unique_ptr<Obj[], ADel>; };
template <int K> using Up = typename KindT<K>::U;
const char* const kind_names[] = {"default", "stateful", "reference", "function", "base", "base stateful", "array", "array stateful"};

template <typename U> const void* addr_of(const U& u);
template <typename U> const void* getter(const void* p) { return addr_of(*static_cast<const U*>(p)); }

struct Popper { bool on = false; ~Popper() { if (!on) return; ModelScope m; --nfl; } };
struct Pusher {
    Cell* c = nullptr;
    const void* holder = nullptr;
    const void* (*get)(const void*) = nullptr;
    Popper* pop = nullptr;
    ~Pusher() {
        ModelScope m;
        for (int i = 0; i < nfl; ++i) if (fl[i].holder == holder && fl[i].mode == RESET) { fl[i].mode = GONE; probe_hit(P_TARGET_DIED); }
        if (c->res < 0) return;
        due(c->res);
        CHECK(nfl < MAXFL, "too deep (harness)");
        fl[nfl++] = {holder, get, c, DTOR, c->res};
        pop->on = true;
    }
};
Cell mcell[MAXR][3][3]; // members of objects: resource, element, which
Cell* member_cell(int r, int i, int k, int tag) {
    ModelScope m;
    mcell[r][i][k] = {-1, tag};
    return &mcell[r][i][k];
}
template <int K> struct Edge { // destroyed in the order push, p, pop
    Cell* c;
    Popper pop;
    Up<K> p;
    Pusher push;
    template <typename... A> explicit Edge(Cell* cl, A&&... a) : c(cl), p(static_cast<A&&>(a)...) {
        push.c = cl;
        push.holder = &p;
        push.get = getter<Up<K>>;
        push.pop = &pop;
    }
};

struct Obj : Pad, Base {
    uint32_t magic = 0x0B1EC7;
    int r, i;
    Edge<KS> next{member_cell(r, i, 0, 10)};
    Edge<KD> child{member_cell(r, i, 1, T_DEFAULT)};
    Edge<KR> rnext{member_cell(r, i, 2, 200), rdel[0]};
    Obj() : r(making), i(elem++) {
        ModelScope m;
        if (throw_at > 0 && --throw_at == 0) {
            fault_fired(F_CTOR_THROW);
            probe_hit(P_CTOR_THREW);
            if (i) probe_hit(P_PARTIAL_ARRAY);
            res[r].failed = true;
            throw CtorThrow();
        }
        if (!i) res[r].at = this;
        res[r].left++;
    }
    ~Obj() override {
        uint32_t mg = magic;
        int rr = r;
        {
            ModelScope m;
            CHECK(mg == 0x0B1EC7, "an object is destroyed a second time, or is none");
            Res& x = res[rr];
            log("  object %d[%d] is destroyed", rr, i);
            magic = 0xDEAD;
            x.left--;
            if (x.failed) return;
            CHECK(x.due, "resource %d is disposed of although it was not given up", rr);
            CHECK(!x.disposed, "resource %d is disposed of a second time", rr);
            if (x.tag == T_DEFAULT) CHECK(!x.called, "resource %d is disposed of by a deleter of its own (harness)", rr);
            else CHECK(x.called, "resource %d is disposed of without the deleter it was paired with", rr);
            if (x.left == 0) x.disposed = true;
        }
        callback(rr, 1);
    }
};
template <typename U> const void* addr_of(const U& u) {
    auto* p = u.get();
    if (!p) return nullptr;
    return static_cast<const Obj*>(p);
}

int by_address(const void* p) { // in ModelScope
    for (int i = nres - 1; i >= 0; --i) if (res[i].used && !res[i].disposed && !res[i].failed && res[i].at == p) return i;
    return -1;
}
int deleter_called(const void* p, int tag) {
    ModelScope m;
    int r = by_address(p);
    CHECK(r >= 0, "a deleter is called for something that is not alive");
    log("  deleter %d called for %d", tag, r);
    CHECK(res[r].due, "resource %d is disposed of although it was not given up", r);
    CHECK(!res[r].called, "the deleter of resource %d is called twice", r);
    CHECK(res[r].tag == tag, "resource %d is disposed of by deleter %d, it was paired with %d", r, tag, res[r].tag);
    res[r].called = true;
    return r;
}
void not_null(const void* p) { ModelScope m; CHECK(p, "a deleter is called for nothing"); }
void Del::operator()(Obj* p) const {
    not_null(p);
    int t = tag;
    int r = deleter_called(p, t);
    callback(r, 0);
    delete p;
}
void BDel::operator()(Base* p) const {
    not_null(p);
    int t = tag;
    int r = deleter_called(static_cast<Obj*>(p), t);
    callback(r, 0);
    delete p;
}
void ADel::operator()(Obj* p) const {
    not_null(p);
    int t = tag;
    int r = deleter_called(p, t);
    callback(r, 0);
    delete[] p;
}
void fn0(Obj* p) { not_null(p); int r = deleter_called(p, 300); callback(r, 0); delete p; }
void fn1(Obj* p) { not_null(p); int r = deleter_called(p, 301); callback(r, 0); delete p; }

// ------------------------------------------------------------------ slots
struct alignas(16) Mem { char m[48]; };
Mem mem[NK][NS];
Cell cell[NK][NS];
template <int K> Up<K>& S(int i) { static_assert(sizeof(Up<K>) <= sizeof(Mem)); return *reinterpret_cast<Up<K>*>(mem[K][i].m); }
using SP = xmem::shared_ptr<Base>;
alignas(16) char shmem[NSH][sizeof(SP)];
SP& SH(int i) { return *reinterpret_cast<SP*>(shmem[i]); }
int shm[NSH];
using SAP = xmem::shared_ptr<Obj[]>;
alignas(16) char samem[NSH][sizeof(SAP)], wamem[NSH][sizeof(xmem::weak_ptr<Obj[]>)];
SAP& SA(int i) { return *reinterpret_cast<SAP*>(samem[i]); }
xmem::weak_ptr<Obj[]>& WA(int i) { return *reinterpret_cast<xmem::weak_ptr<Obj[]>*>(wamem[i]); }
#ifdef NO_ARRAY_HANDOVER // the library refuses it (check.py falls back to this)
constexpr bool HAND_ARRAYS = false;
template <typename U> SAP handed(U&&) { return {}; }
#else
constexpr bool HAND_ARRAYS = true;
template <typename U> U&& handed(U&& u) { return static_cast<U&&>(u); }
#endif
int sam[NSH], wam[NSH];
void gain(int r) { if (r >= 0) res[r].shared++; }                              // in ModelScope
void lose(int r) { if (r >= 0 && --res[r].shared == 0) due(r); }               // in ModelScope
int raw[NRAW];

template <int K> constexpr bool is_array = K == KA || K == KAS;
template <int K> int default_tag(int i) { return K == KD || K == KB || K == KA ? T_DEFAULT : K == KS ? 10 : K == KR ? 200 + i % 3 : K == KF ? 300 : K == KBS ? 20 : 30; }
template <int K> void construct_empty(int i) {
    if constexpr (K == KR) new (mem[K][i].m) Up<K>(rdel[i % 3]);
    else if constexpr (K == KF) new (mem[K][i].m) Up<K>(fn0);
    else new (mem[K][i].m) Up<K>();
    ModelScope m;
    cell[K][i] = {-1, default_tag<K>(i)};
}
template <int K> int real_tag(const Up<K>& u) {
    if constexpr (K == KD || K == KB || K == KA) return T_DEFAULT;
    else if constexpr (K == KF) return u.get_deleter() == &fn0 ? 300 : u.get_deleter() == &fn1 ? 301 : -2;
    else return u.get_deleter().tag;
}

bool reaches(int r, int to) { // in ModelScope
    if (r < 0) return false;
    for (auto& e : mcell[r]) for (auto& c : e) if (c.res >= 0 && (c.res == to || reaches(c.res, to))) return true;
    return false;
}
// some unique pointer: a slot, or a member of the object a slot owns
template <int K> struct At { Up<K>* p; Cell* c; int in; }; // in: the resource it is a member of
template <int K> At<K> at(uint8_t s) {
    int i = (s >> 2) % NS;
    Obj* n = nullptr;
    if (s & 1) { // reach through a slot
        switch (s >> 5 & 3) {
        case 0: n = S<KD>(i).get(); break;
        case 1: n = S<KR>(i).get(); break;
        case 2: n = S<KF>(i).get(); break;
        default: n = S<KS>(i).get(); break;
        }
        bool ok = true;
        { ModelScope m; for (int f = 0; f < nfl; ++f) if (n && fl[f].mode == DTOR && fl[f].res == n->r) ok = false; } // its members may be gone
        if (!ok) n = nullptr;
        if (n && s & 2) { Obj* n2 = s & 128 ? n->child.p.get() : n->next.p.get(); if (n2) n = n2; }
    }
    if (n) {
        if constexpr (K == KS) return {&n->next.p, n->next.c, n->r};
        if constexpr (K == KD) return {&n->child.p, n->child.c, n->r};
        if constexpr (K == KR) return {&n->rnext.p, n->rnext.c, n->r};
    }
    return {&S<K>(i), &cell[K][i], -1};
}
template <typename P> bool frozen(P* p) { // being destroyed right now: hands off
    ModelScope m;
    for (int f = 0; f < nfl; ++f) if (fl[f].holder == p && fl[f].mode == DTOR) return true;
    return false;
}

struct InFlight {
    bool on;
    template <int K> InFlight(const At<K>& a, int old, int mode) : on(old >= 0) { // in ModelScope
        if (!on) return;
        for (int i = 0; i < nfl; ++i) if (fl[i].holder == a.p && fl[i].mode == RESET) probe_hit(P_CALLBACK_SAME);
        if (nfl) probe_hit(P_NESTED);
        CHECK(nfl < MAXFL, "too deep (harness)");
        fl[nfl++] = {a.p, getter<Up<K>>, a.c, mode, old};
    }
    ~InFlight() { if (on) { ModelScope m; --nfl; } }
};
template <int K> InFlight begin(const At<K>& a, int newres, int newtag) { // model: a gets a new value, the old one is due
    ModelScope m;
    int old = a.c->res;
    a.c->res = newres;
    if (newtag != -3) a.c->tag = newtag;
    due(old);
    return InFlight(a, old, RESET);
}

// ------------------------------------------------------------------ resources
int new_res(bool array, int tag) {
    ModelScope m;
    if (nres >= MAXR) return -1;
    int r = nres++;
    memset(&res[r], 0, sizeof res[r]);
    for (auto& e : mcell[r]) for (auto& c : e) c.res = -1;
    res[r].used = true;
    res[r].array = array;
    res[r].tag = tag;
    res[r].prog[0] = next_prog[0];
    res[r].prog[1] = next_prog[1];
    next_prog[0] = next_prog[1] = 0;
    making = r;
    elem = 0;
    return r;
}
Obj* make_obj(int r) { (void)r; return new Obj; }
Obj* make_array(int r, int n) { { ModelScope m; res[r].n = n; } return new Obj[size_t(n)]; }

template <int K> Up<K> make_up(Obj* p, int tag) {
    if constexpr (K == KD || K == KB || K == KA) return Up<K>(p);
    else if constexpr (K == KS) return Up<K>(p, Del(tag));
    else if constexpr (K == KR) return Up<K>(p, rdel[tag - 200]);
    else if constexpr (K == KF) return Up<K>(p, tag == 300 ? fn0 : fn1);
    else if constexpr (K == KBS) return Up<K>(p, BDel(tag));
    else return Up<K>(p, ADel(tag));
}
template <int K> int some_tag(uint8_t x) {
    if constexpr (K == KD || K == KB || K == KA) return T_DEFAULT;
    else if constexpr (K == KR) return 200 + x % 3;
    else if constexpr (K == KF) return 300 + x % 2;
    else return 40 + K * 8 + x % 4;
}
// a known deleter, before something is put into a pointer whose deleter was moved away
template <int K> void ensure_deleter(const At<K>& a, uint8_t x) {
    int t;
    { ModelScope m; t = a.c->tag; }
    if (t != T_UNKNOWN) return;
    int n = some_tag<K>(x);
    if constexpr (K == KS) a.p->get_deleter() = Del(n);
    if constexpr (K == KBS) a.p->get_deleter() = BDel(n);
    if constexpr (K == KAS) a.p->get_deleter() = ADel(n);
    ModelScope m;
    a.c->tag = n;
}
constexpr bool movable_tag(int k) { return k == KS || k == KBS || k == KAS; } // moving takes the deleter's state away
template <int K> void take(Cell* c, int& r, int& t) { // model: moved out of c (in ModelScope)
    r = c->res;
    t = c->tag;
    c->res = -1;
    if (movable_tag(K)) c->tag = T_UNKNOWN;
}

// ------------------------------------------------------------------ operations
enum { NOP, CREATE, RESET_NEW, MAKE, MOVE, MOVE_CTOR, CONVERT, SWAP, RESET_, NULLED, RELEASE, ADOPT, DROP_RAW, DESTROY, HAND, SH_DROP, PUSH, POP, SELF_OWN, OBSERVE, VALUE, SHARE, NOPS };
const char* const op_names[] = {"nop", "create", "reset_to_new", "make_unique", "move_assign", "move_construct", "convert", "swap", "reset", "assign_nullptr", "release", "adopt", "delete_released", "destroy_pointer", "hand_to_shared",
    "drop_shared", "push_front", "pop_front", "own_itself", "observe", "make_unique_ptr", "share"};

template <int K> void op_kind(uint8_t code, uint8_t A, uint8_t Bx, uint8_t C);

struct CtorScope { ~CtorScope() { ModelScope m; making = -1; throw_at = 0; } };

template <int K> void create(const At<K>& a, uint8_t code, uint8_t C) {
    int tag = some_tag<K>(C);
    if (code == RESET_NEW) { ensure_deleter(a, C); ModelScope m; tag = a.c->tag; }
    if (code == MAKE && !(K == KD || K == KA)) code = CREATE;
    if constexpr (K == KR || K == KF) if (code == CREATE && C & 32 && C % 5 == 0) { // an empty one of another type is assigned, or converted
        auto from = [&] {
            if constexpr (K == KR) return xmem::unique_ptr<Obj, SubDel&>(rdel[tag - 200]);
            else return xmem::unique_ptr<Obj, FnDel>(nullptr, FnDel{tag == 300 ? fn0 : fn1});
        }();
        { ModelScope m; probe_hit(P_CONVERTED_EMPTY); }
        InFlight f = begin(a, -1, tag);
        *a.p = std::move(from);
        return;
    }
    int r = new_res(is_array<K>, tag);
    if (r < 0) return;
    int n = 1 + C % 3;
    Obj* p = nullptr;
    if (code == MAKE) {
        if constexpr (K == KD) {
            { ModelScope m; res[r].n = 1; }
            Up<K> u = C & 64 ? xmem::make_unique<Obj>() : xmem::make_unique_for_overwrite<Obj>();
            InFlight f = begin(a, r, tag);
            *a.p = std::move(u);
        } else if constexpr (K == KA) {
            { ModelScope m; res[r].n = n; }
            Up<K> u = C & 64 ? xmem::make_unique<Obj[]>(size_t(n)) : xmem::make_unique_for_overwrite<Obj[]>(size_t(n));
            bool right = u[0].r == r && &u[size_t(n - 1)] == &u[0] + n - 1;
            { ModelScope m; CHECK(right, "operator[] of an array pointer is wrong"); }
            InFlight f = begin(a, r, tag);
            *a.p = std::move(u);
        }
        return;
    }
    if constexpr (is_array<K>) p = make_array(r, n);
    else p = make_obj(r);
    if constexpr (K == KR || K == KF) if (code == CREATE && C & 32) { // by way of another type of pointer
        auto from = [&] {
            if constexpr (K == KR) return xmem::unique_ptr<Obj, SubDel&>(p, rdel[tag - 200]);
            else return xmem::unique_ptr<Obj, FnDel>(p, FnDel{tag == 300 ? fn0 : fn1});
        }();
        { ModelScope m; probe_hit(K == KR ? P_CONVERTED_REF : P_CONVERTED_FN); }
        if constexpr (K == KR) if (C & 64) {
            Up<K> u(std::move(from));
            InFlight f = begin(a, r, tag);
            *a.p = std::move(u);
            return;
        }
        InFlight f = begin(a, r, tag);
        *a.p = std::move(from);
        return;
    }
    if (code == CREATE) {
        Up<K> u = make_up<K>(p, tag);
        InFlight f = begin(a, r, tag);
        *a.p = std::move(u);
    } else {
        InFlight f = begin(a, r, -3);
        a.p->reset(p);
    }
}

template <int K> void move_assign(const At<K>& a, const At<K>& b) {
    if (a.p == b.p) {
        { ModelScope m; probe_hit(P_SELF_MOVE); if (movable_tag(K)) a.c->tag = a.c->res >= 0 ? a.c->tag : T_UNKNOWN; if (movable_tag(K)) return; } // a self-move of the deleter would be the user's problem
        *a.p = std::move(*b.p);
        return;
    }
    int r, t;
    {
        ModelScope m;
        r = b.c->res;
        if (a.in >= 0 && r >= 0 && (r == a.in || reaches(r, a.in))) return; // would own itself for ever
        if (b.in >= 0 && a.c->res == b.in) probe_hit(P_SOURCE_DIED);
        take<K>(b.c, r, t);
    }
    InFlight f = begin(a, r, t);
    *a.p = std::move(*b.p);
}

// model of a conversion: which deleter comes out
template <int K, int L> int converted_tag(int t) { return K == KD && L == KS ? 11 : K == KD ? T_DEFAULT : t; }
template <int K, int L> void convert(const At<K>& src, const At<L>& dst, bool assign) { // K to L
    if (frozen(src.p) || frozen(dst.p)) return;
    int r, t;
    {
        ModelScope m;
        if (src.c->tag == T_UNKNOWN) return;
        if (dst.in >= 0 && src.c->res >= 0 && (src.c->res == dst.in || reaches(src.c->res, dst.in))) return;
        probe_hit(P_CONVERTED);
        if (K == KR) probe_hit(P_FROM_REF);
        r = src.c->res;
        t = converted_tag<K, L>(src.c->tag);
        src.c->res = -1;
        if (movable_tag(K)) src.c->tag = T_UNKNOWN;
        if (r >= 0) res[r].tag = t;
    }
    if (assign) {
        InFlight f = begin(dst, r, t);
        *dst.p = std::move(*src.p);
    } else {
        Up<L> tmp(std::move(*src.p));
        InFlight f = begin(dst, r, t);
        *dst.p = std::move(tmp);
    }
}

bool no_mem; // no memory during operations that need none (C20)
template <int K> void op_kind(uint8_t code, uint8_t A, uint8_t Bx, uint8_t C) {
    OutOfMemory oom(no_mem && (code == MOVE || code == MOVE_CTOR || code == CONVERT || code == SWAP || code == RESET_ || code == NULLED || code == RELEASE || code == ADOPT || code == DESTROY || code == OBSERVE));
    At<K> a = at<K>(A), b = at<K>(Bx);
    if (frozen(a.p)) return;
    switch (code) {
    case CREATE: case RESET_NEW: case MAKE: create(a, code, C); break;
    case MOVE: if (!frozen(b.p)) move_assign(a, b); break;
    case MOVE_CTOR: {
        int r, t;
        { ModelScope m; take<K>(a.c, r, t); }
        Cell tc{r, t};
        Up<K> tmp(std::move(*a.p));
        At<K> ta{&tmp, &tc, -1};
        if (C & 1) { // into another one, else it goes with the scope
            At<K> to = at<K>(Bx);
            if (!frozen(to.p)) move_assign(to, ta);
        }
        int left;
        { ModelScope m; left = tc.res; due(left); if (left >= 0) fl[nfl++] = {&tmp, getter<Up<K>>, &tc, DTOR, left}; }
        tmp.~Up<K>();
        { ModelScope m; if (left >= 0) --nfl; }
        if constexpr (K == KR) new (&tmp) Up<K>(rdel[0]);
        else if constexpr (K == KF) new (&tmp) Up<K>(fn0);
        else new (&tmp) Up<K>();
        break;
    }
    case CONVERT:
        if constexpr (K == KD) { if (C & 2) convert(a, at<KB>(Bx), C & 1); else convert(a, at<KS>(Bx), C & 1); }
        if constexpr (K == KS) convert(a, at<KBS>(Bx), C & 1);
        if constexpr (K == KR) convert(a, at<KS>(Bx), C & 1);
        break;
    case SWAP: {
        if (frozen(b.p)) break;
        if (a.p == b.p) {
            { ModelScope m; probe_hit(P_SELF_SWAP); }
            if (movable_tag(K)) break; // the deleter's own business
        } else {
            ModelScope m;
            std::swap(*a.c, *b.c);
            bool loop = (a.in >= 0 && a.c->res >= 0 && (a.c->res == a.in || reaches(a.c->res, a.in))) || (b.in >= 0 && b.c->res >= 0 && (b.c->res == b.in || reaches(b.c->res, b.in)));
            if (loop) { std::swap(*a.c, *b.c); break; }
            if (a.c->tag != b.c->tag) probe_hit(P_SWAP_DELETERS);
        }
        a.p->swap(*b.p);
        break;
    }
    case RESET_: { InFlight f = begin(a, -1, -3); a.p->reset(); break; }
    case NULLED: { InFlight f = begin(a, -1, -3); *a.p = nullptr; break; }
    case RELEASE: {
        int slot = -1, r;
        { ModelScope m; r = a.c->res; for (int i = 0; i < NRAW; ++i) if (raw[i] < 0) slot = i; if (r >= 0 && slot < 0) break; a.c->res = -1; }
        Obj* p = static_cast<Obj*>(a.p->release());
        bool empty = !*a.p && !a.p->get();
        ModelScope m;
        CHECK(empty, "a pointer still holds what it released");
        CHECK(p == (r < 0 ? nullptr : res[r].at), "release() returns something else than the pointer held");
        if (r >= 0) { raw[slot] = r; probe_hit(P_RELEASED); }
        break;
    }
    case ADOPT: {
        int i = Bx % NRAW, r;
        { ModelScope m; for (int k = 0; k < NRAW && (raw[i] < 0 || res[raw[i]].array != is_array<K>); ++k) i = (i + 1) % NRAW; r = raw[i]; if (r < 0 || res[r].array != is_array<K>) break; if (a.in >= 0 && (r == a.in || reaches(r, a.in))) break; }
        ensure_deleter(a, C);
        Obj* p;
        { ModelScope m; raw[i] = -1; p = static_cast<Obj*>(res[r].at); res[r].tag = a.c->tag; probe_hit(P_ADOPTED); }
        InFlight f = begin(a, r, -3);
        a.p->reset(p);
        break;
    }
    case DESTROY: {
        if (a.in >= 0) break; // members go with their objects
        int i = (A >> 2) % NS, old;
        { ModelScope m; if (a.p != &S<K>(i)) break; for (int f = 0; f < nfl; ++f) if (fl[f].holder == a.p) return; old = a.c->res; due(old); if (old >= 0) fl[nfl++] = {a.p, getter<Up<K>>, a.c, DTOR, old}; }
        a.p->~Up<K>();
        { ModelScope m; if (old >= 0) --nfl; }
        construct_empty<K>(i);
        break;
    }
    case HAND:
        if constexpr (is_array<K> && HAND_ARRAYS) {
            int i = Bx % NSH, r, t;
            { ModelScope m; r = a.c->res; t = a.c->tag; if (r >= 0 && t == T_UNKNOWN) break; }
            try {
                {
                    SAP tmp(handed(std::move(*a.p)));
                    bool right = tmp.get() ? tmp[0].r == r : r < 0;
                    {
                        ModelScope m;
                        CHECK(right && (r < 0 || tmp.owner()), "a shared_ptr made from a unique_ptr does not hold its array");
                        a.c->res = -1;
                        if (movable_tag(K)) a.c->tag = T_UNKNOWN;
                        probe_hit(P_HANDED);
                        gain(r);
                        lose(sam[i]);
                        sam[i] = r;
                    }
                    if (C & 1) SA(i) = std::move(tmp);
                    else SA(i).swap(tmp);
                }
            } catch (std::bad_alloc&) {
                ModelScope m;
                probe_hit(P_HAND_FAILED);
            }
        }
        if constexpr (!is_array<K>) {
            int i = Bx % NSH, r, t;
            { ModelScope m; r = a.c->res; t = a.c->tag; if (r >= 0 && t == T_UNKNOWN) break; }
            try {
                {
                    SP tmp(std::move(*a.p));
                    bool right = tmp.get() ? static_cast<Obj*>(tmp.get())->r == r : r < 0;
                    {
                        ModelScope m;
                        CHECK(right && (r < 0 || tmp.owner()), "a shared_ptr made from a unique_ptr does not hold its object");
                        a.c->res = -1;
                        if (movable_tag(K)) a.c->tag = T_UNKNOWN;
                        probe_hit(P_HANDED);
                        gain(r);
                        lose(shm[i]);
                        shm[i] = r;
                    }
                    if (C & 1) SH(i) = std::move(tmp);
                    else SH(i).swap(tmp);
                }
            } catch (std::bad_alloc&) {
                ModelScope m;
                probe_hit(P_HAND_FAILED);
            }
        }
        break;
    case OBSERVE: {
        auto pa = a.p->get();
        auto pb = b.p->get();
        int cmp = (*a.p == *b.p) | (*a.p != *b.p) << 1 | (*a.p < *b.p) << 2 | (*a.p <= *b.p) << 3 | (*a.p > *b.p) << 4 | (*a.p >= *b.p) << 5;
        int want = (pa == pb) | (pa != pb) << 1 | (pa < pb) << 2 | (pa <= pb) << 3 | (pa > pb) << 4 | (pa >= pb) << 5;
        { ModelScope m; CHECK(cmp == want, "two %s pointers compare differently from what they hold", kind_names[K]); }
        const void* got = addr_of(*a.p);
        bool t = bool(*a.p);
        int r;
        { ModelScope m; r = a.c->res; CHECK(got == (r < 0 ? nullptr : res[r].at) && t == (r >= 0), "a %s pointer does not hold what it was given", kind_names[K]); }
        if (r >= 0) {
            int id;
            if constexpr (is_array<K>) id = (*a.p)[0].r;
            else id = static_cast<Obj&>(**a.p).r + (static_cast<Obj*>(a.p->operator->())->r != r);
            ModelScope m;
            CHECK(id == r, "operator* and operator-> give another object");
        }
        break;
    }
    }
}

// shared pointers made from raw pointers, shared arrays, elements of arrays
void share(uint8_t A, uint8_t B, uint8_t C) {
    int i = A % NSH, j = B % NSH, var = C % 14;
    if (var < 8) { // own something new
        if (var == 4 && !HAND_ARRAYS) var = 0;
        bool array = var < 5;
        int tag = var == 2 || var == 3 ? 90 + B % 4 : var == 6 ? 94 + B % 4 : var == 7 ? 300 + B % 2 : T_DEFAULT;
        int r = new_res(array, tag);
        if (r < 0) return;
        int n = 1 + A / 4 % 3;
        Obj* p = array ? make_array(r, n) : make_obj(r);
        {
            ModelScope m;
            if (array) probe_hit(P_SHARED_ARRAY);
            due(r); // until it is owned
        }
        auto made = [&] {
            ModelScope m;
            CHECK(!res[r].called && !res[r].disposed, "an object is disposed of by making a shared_ptr that owns it");
            res[r].due = false;
            gain(r);
        };
        auto placed = [&](int* slot) { // before the pointer changes
            ModelScope m;
            lose(*slot);
            *slot = r;
        };
        try {
            switch (var) {
            case 0: { SAP t(p); made(); placed(&sam[i]); SA(i) = std::move(t); break; }
            case 2: { SAP t(p, ADel(tag)); made(); placed(&sam[i]); SA(i).swap(t); break; }
            case 4: { SAP t(handed(xmem::unique_ptr<Obj[]>{p})); made(); placed(&sam[i]); SA(i) = std::move(t); break; }
            case 5: { SP t(p); made(); placed(&shm[i]); SH(i) = std::move(t); break; }
            case 6: { SP t(p, Del(tag)); made(); placed(&shm[i]); SH(i).swap(t); break; }
            case 7: { SP t(p, tag == 300 ? fn0 : fn1); made(); placed(&shm[i]); SH(i) = t; break; }
            default: { // 1, 3: reset
                // into an empty one: what is disposed of on the way is observed by SH_DROP
                do {
                    { ModelScope m; lose(sam[i]); sam[i] = -1; }
                    SA(i).reset();
                } while (sam[i] >= 0); // a callback may have filled it
                if (var == 1) SA(i).reset(p);
                else SA(i).reset(p, ADel(tag));
                made();
                ModelScope m;
                sam[i] = r;
            }
            }
        } catch (std::bad_alloc&) {
            ModelScope m;
            probe_hit(P_SHARE_FAILED);
            CHECK(res[r].disposed, "what was to be owned by a shared_ptr that could not be made is not disposed of");
        }
        return;
    }
    switch (var) {
    case 8: case 9: { // copy, weak and lock
        if (var == 8) {
            SAP t(SA(j));
            { ModelScope m; gain(sam[j]); lose(sam[i]); sam[i] = sam[j]; }
            SA(i).swap(t);
        } else {
            SAP t = WA(j).lock();
            int r;
            { ModelScope m; r = wam[j]; }
            bool alive;
            { ModelScope m; alive = r >= 0 && res[r].shared > 0; }
            bool right = alive ? t && t[0].r == r : !t && (r < 0 || !t.owner());
            { ModelScope m; CHECK(right, "locking a weak pointer to an array gives something wrong"); if (!alive) r = -1; gain(r); lose(sam[i]); sam[i] = r; probe_hit(P_SHARED_ARRAY_LOCKED); }
            SA(i) = std::move(t);
        }
        break;
    }
    case 10: // weak
        WA(i) = SA(j);
        { ModelScope m; wam[i] = sam[j]; }
        break;
    case 11: { // an element shares the array
        int r, n;
        { ModelScope m; r = sam[j]; n = r >= 0 ? res[r].n : 0; }
        if (r < 0) break;
        int k = A / 4 % n;
        if (k) break; // SH holds resources by their address
        SP t(SA(j), static_cast<Base*>(&SA(j)[size_t(k)]));
        { ModelScope m; gain(r); lose(shm[i]); shm[i] = r; probe_hit(P_SHARED_ELEMENT); }
        SH(i) = std::move(t);
        break;
    }
    case 12: { // swap
        { ModelScope m; std::swap(sam[i], sam[j]); }
        SA(i).swap(SA(j));
        break;
    }
    case 13: // move
        if (i == j) break;
        { ModelScope m; lose(sam[i]); sam[i] = sam[j]; sam[j] = -1; }
        SA(i) = std::move(SA(j));
        break;
    }
}

void op_any(uint8_t kind, uint8_t code, uint8_t A, uint8_t B, uint8_t C) {
    switch (code) {
    case DROP_RAW: {
        int i = A % NRAW, r;
        Obj* p;
        { ModelScope m; r = raw[i]; if (r < 0) return; raw[i] = -1; p = static_cast<Obj*>(res[r].at); res[r].tag = T_DEFAULT; due(r); }
        if (res[r].array) delete[] p;
        else delete p;
        return;
    }
    case SH_DROP: {
        int i = A % NSH, r;
                if (B & 1) {
            { ModelScope m; r = sam[i]; sam[i] = -1; lose(r); if (r >= 0 && !res[r].shared) probe_hit(P_SHARED_ARRAY_DISPOSED); }
            if (B & 2) SA(i).reset();
            else SA(i) = nullptr;
            return;
        }
        { ModelScope m; r = shm[i]; shm[i] = -1; lose(r); if (r >= 0) probe_hit(P_SHARED_DISPOSED); }
        SH(i).reset();
        return;
    }
    case SHARE: share(A, B, C); return;
    case PUSH: { // new node -> next = head; head = node
        int i = A % NS;
        if (frozen(&S<KS>(i))) return;
        int tag = some_tag<KS>(C);
        int r = new_res(false, tag);
        if (r < 0) return;
        Obj* n = make_obj(r);
        Cell nc{r, tag};
        Up<KS> u(n, Del(tag));
        At<KS> head{&S<KS>(i), &cell[KS][i], -1}, nx{&n->next.p, n->next.c, r}, ut{&u, &nc, -1};
        move_assign(nx, head);
        move_assign(head, ut);
        return;
    }
    case POP: {
        int i = A % NS;
        if (kind % 3 == 0) {
            if (frozen(&S<KS>(i))) return;
            Obj* n = S<KS>(i).get();
            if (!n) return;
            At<KS> head{&S<KS>(i), &cell[KS][i], -1}, nx{&n->next.p, n->next.c, n->r};
            move_assign(head, nx);
        } else if (kind % 3 == 1) {
            if (frozen(&S<KD>(i))) return;
            Obj* n = S<KD>(i).get();
            if (!n) return;
            At<KD> head{&S<KD>(i), &cell[KD][i], -1}, nx{&n->child.p, n->child.c, n->r};
            move_assign(head, nx);
        } else {
            if (frozen(&S<KR>(i))) return;
            Obj* n = S<KR>(i).get();
            if (!n) return;
            At<KR> head{&S<KR>(i), &cell[KR][i], -1}, nx{&n->rnext.p, n->rnext.c, n->r};
            move_assign(head, nx);
        }
        return;
    }
    case VALUE: {
        Val v(7);
        {
            ModelScope m;
            making = -1;
        }
        if (C & 2) {
            Val w(30);
            int y = 4;
            auto u = C & 1 ? xmem::make_unique<Held>(std::move(v), w, y) : xmem::make_unique<Held>(v, w, y);
            bool right = u && u->v.x == 7 && v.x == (C & 1 ? -1 : 7) && w.x == 30 && &u->y == &y && y == (C & 1 ? 34 : 134);
            ModelScope m;
            CHECK(right && live_vals == 3, "make_unique does not pass on its arguments as they are");
        } else if (C & 1) {
            auto u = xmem::make_unique_ptr(v);
            bool right = u && u->x == 7 && v.x == 7 && u.get() != &v;
            ModelScope m;
            CHECK(right && live_vals == 2, "make_unique_ptr of an lvalue does not own a copy");
        } else {
            auto u = xmem::make_unique_ptr(std::move(v));
            bool right = u && u->x == 7 && v.x == -1;
            ModelScope m;
            CHECK(right && live_vals == 2, "make_unique_ptr of an rvalue does not own the moved value");
        }
        ModelScope m;
        probe_hit(P_VALUE);
        CHECK(live_vals == 1, "the value of a make_unique_ptr is not disposed of once");
        return;
    }
    case SELF_OWN: { // an object that owns itself, until its pointer is reset
        int r = new_res(false, T_DEFAULT);
        if (r < 0) return;
        Obj* n = make_obj(r);
        { ModelScope m; probe_hit(P_CYCLE); n->child.c->res = r; }
        n->child.p.reset(n);
        At<KD> a{&n->child.p, n->child.c, r};
        InFlight f = begin(a, -1, -3);
        if (C & 1) n->child.p.reset();
        else n->child.p = nullptr;
        return;
    }
    }
    switch (kind % NK) {
    case KD: op_kind<KD>(code, A, B, C); break;
    case KS: op_kind<KS>(code, A, B, C); break;
    case KR: op_kind<KR>(code, A, B, C); break;
    case KF: op_kind<KF>(code, A, B, C); break;
    case KB: op_kind<KB>(code, A, B, C); break;
    case KBS: op_kind<KBS>(code, A, B, C); break;
    case KA: op_kind<KA>(code, A, B, C); break;
    case KAS: op_kind<KAS>(code, A, B, C); break;
    }
}

// what an object (stage 1) or its deleter (stage 0) does when it is disposed of
void callback(int r, int stage) {
    const Flight* f = nullptr;
    uint8_t prog;
    {
        ModelScope m;
        for (int i = nfl - 1; i >= 0 && !f; --i) if (fl[i].res == r) f = &fl[i];
        prog = res[r].prog[stage];
    }
    if (f && f->mode != GONE && (stage == 0 || !res[r].array)) {
        const void* got = f->get(f->holder);
        ModelScope m;
        if (f->mode == DTOR) {
            CHECK(got == res[r].at, "resource %d cannot reach itself through the pointer whose destructor disposes of it", r);
            probe_hit(P_REACHED_ITSELF);
        } else {
            int now = f->c->res;
            CHECK(got == (now < 0 ? nullptr : res[now].at), "resource %d finds the pointer that gave it up without its new value", r);
            probe_hit(P_SAW_NEW);
        }
    }
    if (!prog || depth > 3) return;
    { ModelScope m; depth++; probe_hit(P_CALLBACK); fault_fired(F_REENTRY); res[r].prog[stage] = 0; next_prog[0] = next_prog[1] = 0; throw_at = 0; }
    arm_alloc_fail(0);
    OutOfMemory enough(false);
    Rng g(prog);
    for (int k = 0; k < 1 + prog % 2; ++k) {
        static const uint8_t codes[] = {CREATE, RESET_NEW, MOVE, MOVE, SWAP, RESET_, RESET_, NULLED, RELEASE, ADOPT, HAND, SH_DROP, SHARE, CONVERT, MOVE_CTOR, OBSERVE, POP};
        uint8_t code = codes[g.below(sizeof codes)], kind = uint8_t(g.below(NK)), a = uint8_t(g.next()), b = uint8_t(g.next()), c = uint8_t(g.next());
        if (f && f->mode == RESET && g.chance(1, 2)) { // the pointer that is being changed, if it is a slot
            for (int kk = 0; kk < NK; ++kk)
                for (int i = 0; i < NS; ++i)
                    if (f->holder == mem[kk][i].m) { kind = uint8_t(kk); a = uint8_t(i << 2); }
        }
        if (logging()) { ModelScope m; log("  callback of %d: %s %s", r, op_names[code], kind_names[kind]); }
        op_any(kind, code, a, b, c);
    }
    ModelScope m;
    depth--;
}

template <int K> void verify_kind(const char* when) {
    for (int i = 0; i < NS; ++i) {
        const void* got = addr_of(S<K>(i));
        int t = real_tag<K>(S<K>(i));
        ModelScope m;
        Cell c = cell[K][i];
        CHECK(got == (c.res < 0 ? nullptr : res[c.res].at), "%s: a %s pointer does not hold what it was given (resource %d)", when, kind_names[K], c.res);
        if (c.res >= 0 && K != KD && K != KB && K != KA) CHECK(t == c.tag, "%s: a %s pointer has deleter %d instead of %d", when, kind_names[K], t, c.tag);
        if (c.res >= 0) CHECK(res[c.res].tag == c.tag && !res[c.res].due, "%s: resource %d (harness)", when, c.res);
    }
}
void verify(const char* when) {
    verify_kind<KD>(when); verify_kind<KS>(when); verify_kind<KR>(when); verify_kind<KF>(when);
    verify_kind<KB>(when); verify_kind<KBS>(when); verify_kind<KA>(when); verify_kind<KAS>(when);
    for (int i = 0; i < NSH; ++i) {
        const void* got = SH(i) ? static_cast<Obj*>(SH(i).get()) : nullptr;
        ModelScope m;
        CHECK(got == (shm[i] < 0 ? nullptr : res[shm[i]].at), "%s: a shared_ptr does not hold what it was handed", when);
    }
    for (int i = 0; i < NSH; ++i) {
        const void* got = SA(i).get();
        long uc = SA(i).use_count(), wc = WA(i).use_count();
        int r, n;
        { ModelScope m; r = sam[i]; n = r < 0 ? 0 : res[r].n; CHECK(got == (r < 0 ? nullptr : res[r].at), "%s: a shared_ptr to an array does not hold what it was given", when); }
        bool right = true;
        for (int k = 0; k < n; ++k) right = right && SA(i)[size_t(k)].r == r && SA(i)[size_t(k)].i == k;
        ModelScope m;
        CHECK(right, "%s: a shared_ptr to an array has wrong elements", when);
        if (r >= 0) CHECK(uc == res[r].shared, "%s: an array is shared by %ld instead of %d", when, uc, res[r].shared);
        if (wam[i] >= 0) CHECK(wc == res[wam[i]].shared, "%s: a weak pointer to an array counts %ld owners instead of %d", when, wc, res[wam[i]].shared);
    }
    ModelScope m;
    for (int r = 0; r < nres; ++r) {
        Res& x = res[r];
        if (!x.used) continue;
        CHECK(!x.shared || !x.disposed, "%s: resource %d is disposed of although it is shared", when, r);
        if (x.failed) { CHECK(x.left == 0, "%s: a half-constructed array is not taken apart (harness)", when); continue; }
        CHECK(!x.due || x.disposed || !x.at, "%s: resource %d was given up but is not disposed of", when, r);
    }
    CHECK(nfl == 0, "in flight (harness)");
}

const Plan* plan;
void exec(uint32_t i) {
    const Op& op = plan->ops[i];
    op_begin(i);
    { ModelScope m; next_prog[0] = op.farg & 1 ? 0 : op.farg; next_prog[1] = op.farg & 1 ? op.farg : 0; }
    if (op.fault == F_ALLOC_FAIL) arm_alloc_fail(1 + op.d / 128);
    { ModelScope m; throw_at = op.fault == F_CTOR_THROW ? 1 + op.d / 100 : 0; }
    try {
        op_any(op.thr == 0 ? op.d % 64 % NK : 0, op.code, op.a, op.b, op.c);
    } catch (std::bad_alloc&) {
        ModelScope m;
        probe_hit(P_CREATE_FAILED);
        if (making >= 0 && !res[making].at) res[making].used = false;
    } catch (CtorThrow&) {
        ModelScope m;
        probe_hit(P_CREATE_FAILED);
    }
    arm_alloc_fail(0);
    { ModelScope m; throw_at = 0; making = -1; }
    op_end();
    verify(op_names[op.code]);
}

template <int K> void construct_all() { for (int i = 0; i < NS; ++i) construct_empty<K>(i); }
template <int K> void clear_all(bool destroy) {
    for (int i = 0; i < NS; ++i) op_kind<K>(destroy ? DESTROY : RESET_, uint8_t(i << 2), 0, 0);
}
void run(const char* profile, const Plan& p) {
    no_mem = !strcmp(profile, "C20");
    if (no_mem) set_classes("uniq");
    else set_classes("uniq,mem,race,progress");
    plan = &p;
    for (int i = 0; i < 3; ++i) rdel[i].tag = 200 + i;
    construct_all<KD>(); construct_all<KS>(); construct_all<KR>(); construct_all<KF>();
    construct_all<KB>(); construct_all<KBS>(); construct_all<KA>(); construct_all<KAS>();
    for (int i = 0; i < NSH; ++i) { new (shmem[i]) SP; new (samem[i]) SAP; new (wamem[i]) xmem::weak_ptr<Obj[]>; ModelScope m; shm[i] = sam[i] = wam[i] = -1; }
    { ModelScope m; for (auto& r : raw) r = -1; making = -1; }
    for (uint32_t i = 0; i < p.ops.size(); ++i) exec(i);
    for (int round = 0; round < 6; ++round) { // callbacks may fill pointers again, but every callback happens once
        bool d = p.cfg[3] >> round & 1;
        clear_all<KD>(d); clear_all<KS>(d); clear_all<KR>(d); clear_all<KF>(d); clear_all<KB>(d); clear_all<KBS>(d); clear_all<KA>(d); clear_all<KAS>(d);
        for (int i = 0; i < NRAW; ++i) op_any(0, DROP_RAW, uint8_t(i), 0, 0);
        for (int i = 0; i < NSH; ++i) { op_any(0, SH_DROP, uint8_t(i), 0, 0); op_any(0, SH_DROP, uint8_t(i), 1, 0); WA(i).reset(); ModelScope m; wam[i] = -1; }
        verify("taking everything apart");
    }
    ModelScope m;
    CHECK(live_vals == 0, "a value made with make_unique_ptr is left behind");
    for (int r = 0; r < nres; ++r)
        if (res[r].used && !res[r].failed && res[r].at) CHECK(res[r].disposed, "resource %d is never disposed of", r);
    if (live_blocks()) {
        char b[300];
        list_live(b, sizeof b);
        CHECK(false, "memory is leaked:%s", b);
    }
}

void gen(const char* profile, Rng& r, Plan& p) {
    p.nthr = 0;
    p.cfg[3] = uint8_t(r.next());
    bool progs = r.chance(2, 3);
    uint8_t w[NOPS] = {};
    auto W = [&](int op, int lo, int hi) { w[op] = uint8_t(uint32_t(lo) + r.below(uint32_t(hi - lo + 1))); };
    W(CREATE, 3, 8); W(RESET_NEW, 0, 3); W(MAKE, 0, 3); W(MOVE, 1, 6); W(MOVE_CTOR, 0, 3); W(CONVERT, 0, 4); W(SWAP, 0, 4); W(RESET_, 0, 3); W(NULLED, 0, 2); W(RELEASE, 0, 2); W(ADOPT, 0, 2); W(DROP_RAW, 0, 1);
    W(DESTROY, 0, 3); W(HAND, 0, 3); W(SH_DROP, 0, 2); W(PUSH, 0, 4); W(POP, 0, 4); W(SELF_OWN, 0, 1); W(OBSERVE, 0, 1); W(VALUE, 0, 1); W(SHARE, 0, 3);
    if (!strcmp(profile, "C01")) { // owners made from raw pointers, of arrays
        for (int i = 0; i < NOPS; ++i) if (i != SH_DROP) w[i] = uint8_t(i == CREATE || i == HAND);
        W(SHARE, 5, 15);
    }
    uint8_t kw[NK] = {};
    int kt = 0;
    for (int i = 0; i < NK; ++i) kt += kw[i] = uint8_t(r.below(4));
    if (!kt) kt = kw[0] = 1;
    int tot = 0;
    for (auto x : w) tot += x;
    int n = 4 + int(r.below(20));
    for (int i = 0; i < n; ++i) {
        Op o;
        int x = int(r.below(uint32_t(tot)));
        for (int k = 0; k < NOPS; ++k) { if (x < w[k]) { o.code = uint8_t(k); break; } x -= w[k]; }
        x = int(r.below(uint32_t(kt)));
        int kind = 0;
        for (int k = 0; k < NK; ++k) { if (x < kw[k]) { kind = k; break; } x -= kw[k]; }
        o.a = uint8_t(r.next()); o.b = uint8_t(r.next()); o.c = uint8_t(r.next());
        if (r.chance(1, 2)) o.a &= uint8_t(~1u);
        if (r.chance(1, 2)) o.b &= uint8_t(~1u);
        o.d = uint8_t(kind + 8 * r.below(32));
        if (progs && r.chance(1, 2)) o.farg = uint8_t(1 + r.below(255));
        bool creates = o.code == CREATE || o.code == RESET_NEW || o.code == MAKE || o.code == HAND || o.code == PUSH || o.code == SELF_OWN || o.code == VALUE || o.code == SHARE;
        if (creates && r.chance(1, 6)) o.fault = r.chance(1, 2) ? F_ALLOC_FAIL : F_CTOR_THROW;
        p.ops.push_back(o);
    }
}
const Harness Hn = {"unique", op_names, NOPS, probe_names, NPROBES, gen, run, nullptr};
}

int main(int argc, char** argv) { return sim::main_(argc, argv, Hn); }
