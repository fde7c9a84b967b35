// Objects that own each other, take their owners apart from inside their
// destructors, and ask for pointers to themselves at any time.
// Profiles C09 (self pointers), C10 (ledger, LIB 3), C11 (graphs), C09K (the one
// history recorded as a known finding).
// LIB 1: atomic counts, 2: local counts (one thread), 3: user-supplied tracking control block.
#include "../sim/sim.h"
#ifndef LIB
#define LIB 1
#endif
#if LIB == 2
#include <xmem/local_shared_ptr.hpp>
#else
#include <xmem/shared_ptr.hpp>
#endif
#include <cstdlib>
#include <cstring>
#include <new>

using namespace sim;

namespace {

constexpr int NTH = 5, NR = 3, NB = 1, NW = 3, K = 2, MAXOBJ = 96;

enum Class : uint32_t { GRAPH = 1, SELF = 2, LEDGER = 4 };
uint32_t wanted;
bool no_mem; // no memory during operations that need none (C20)
bool known_probe; // the profile that shows the recorded finding
#define CHECK(c, cond, ...) do { if ((wanted & (c)) && !(cond)) violation((c) & wanted & GRAPH ? "graph" : (c) & wanted & SELF ? "self" : "ledger", __VA_ARGS__); } while (0)

enum { P_REENTRANT, P_TARGET_DESTROYED, P_SOURCE_IN_OLD, P_SELF_MOVE, P_SAME_OWNER_MOVE, P_CYCLE_BROKEN, P_DEEP, P_DTOR_READ, P_DTOR_CHANGED_TARGET, P_SELF_OWNED, P_SELF_UNOWNED, P_SELF_DYING, P_SELF_CTOR,
    P_SELF_PARENT_DYING, P_CREATE_FAILED, P_NULL_ACCEPTED, P_COPIED, P_MOVED, P_ASSIGNED, P_LOCK_OK, P_LOCK_NULL, P_HANDOVER_FAILED, P_LAST_BY_OTHER, P_SELF_EDGE, P_FOREIGN_DTOR, P_DTOR_KEEPS_WEAK, NPROBES };
const char* const probe_names[] = {"destructor_changed_pointers", "pointer_destroyed_by_its_own_operation", "source_owned_by_old_value", "self_move", "move_between_pointers_of_one_owner", "cycle_taken_apart", "nested_destruction",
    "destructor_read_pointers", "destructor_changed_target_of_running_operation", "self_pointer_while_owned", "self_pointer_while_unowned", "self_pointer_while_being_destroyed", "self_pointer_in_constructor",
    "self_pointer_of_object_whose_members_are_being_destroyed", "creation_failed", "null_pointer_accepted", "object_copied", "object_moved", "object_assigned", "lock_gave_object", "lock_gave_null", "handover_failed", "destroyed_by_a_thread_that_did_not_create_it",
    "object_owning_itself", "destructor_program_in_worker", "destructor_keeps_weak_pointer_to_itself"};

#if LIB == 2
using CBF = xmem::local_control_block_factory;
#elif LIB == 3
struct Led { const void* cb; const void* at; bool weak; };
Led led[512];
int nled;
int led_find(const void* cb, const void* at, bool weak) {
    for (int i = 0; i < nled; ++i) if (led[i].cb == cb && led[i].at == at && led[i].weak == weak) return i;
    return -1;
}
class TrackCB : public xmem::control_block_base<xmem::atomic_ref_count> {
    using B = xmem::control_block_base<xmem::atomic_ref_count>;
    void add(const void* s, bool w) {
        ModelScope m;
        CHECK(LEDGER, led_find(this, s, w) < 0, "the control block is told twice of one %s pointer", w ? "weak" : "strong");
        if (nled < 512) led[nled++] = {this, s, w};
    }
    void del(const void* s, bool w) {
        ModelScope m;
        int i = led_find(this, s, w);
        CHECK(LEDGER, i >= 0, "the control block is told to forget a %s pointer it was not told of", w ? "weak" : "strong");
        if (i >= 0) led[i] = led[--nled];
    }
    void move(const void* to, const void* from, bool w) {
        ModelScope m;
        int i = led_find(this, from, w);
        CHECK(LEDGER, i >= 0, "transfer from a %s pointer the control block was not told of", w ? "weak" : "strong");
        CHECK(LEDGER, led_find(this, to, w) < 0, "transfer to a %s pointer the control block already knows", w ? "weak" : "strong");
        if (i >= 0) led[i].at = to;
    }
    bool dying = false;
public:
    ~TrackCB() {
        ModelScope m;
        for (int i = 0; i < nled; ++i) if (led[i].cb == this) { CHECK(LEDGER, false, "a control block dies with a pointer still recorded"); led[i--] = led[--nled]; }
    }
    void init_strong(const void* s) noexcept { add(s, false); B::init_strong(s); }
    void inc_strong_ref(const void* s) noexcept { B::inc_strong_ref(s); add(s, false); }
    void dec_strong_ref(const void* s) noexcept { del(s, false); B::dec_strong_ref(s); }
    bool inc_strong_ref_nz(const void* s) noexcept { bool r = B::inc_strong_ref_nz(s); if (r) add(s, false); return r; }
    void transfer_strong(const void* to, const void* from) noexcept { move(to, from, false); }
    void inc_weak_ref(const void* s) noexcept { B::inc_weak_ref(s); add(s, true); }
    void dec_weak_ref(const void* s) noexcept { del(s, true); B::dec_weak_ref(s); }
    void transfer_weak(const void* to, const void* from) noexcept { move(to, from, true); }
};
using CBF = xmem::control_block_factory<TrackCB>;
#else
using CBF = xmem::atomic_control_block_factory;
#endif
template <typename T> using SPt = xmem::basic_shared_ptr<CBF, T>;
template <typename T> using WPt = xmem::basic_weak_ptr<CBF, T>;

struct Base;
struct Node;
struct Big;
using SP = SPt<Node>;
using BP = SPt<Base>;
using WP = WPt<Node>;

// ------------------------------------------------------------------ model
struct ObjM {
    bool used, constructed, destroyed, dying, unowned; // unowned: lives on the stack or in a unique_ptr
    bool ever_zero;   // at some moment after it was owned no (known) strong pointer owned it
    uint8_t by, kind, prog, prog2;
    int refs;
    int e[K];         // what its edges own, -1: nothing
    Node* at;
    void* top;        // the most derived object
    const void* owner;
    int deleted;
};
ObjM objs[MAXOBJ];
int nobj;
int rootm[NTH][NR], basem[NTH][NB], weakm[NTH][NW];
int depth[MAXT];                 // destructors this thread is in
int dying_stack[MAXT][MAXOBJ];
const void* busy[MAXT];          // the pointer a depth-0 operation works on
bool busy_changed[MAXT], busy_gone[MAXT];
bool sequential;
// programs of the next object
uint8_t nprog[MAXT], nprog2[MAXT];
int nreq[MAXT];

void add(int id) { // in ModelScope
    if (id < 0) return;
    objs[id].refs++;
    CHECK(GRAPH | SELF, !objs[id].destroyed, "object %d is owned although it has been destroyed", id);
}
void del(int id) {
    if (id < 0) return;
    if (--objs[id].refs == 0) objs[id].ever_zero = true;
}

template <typename P> const void* owner_of(const P& p) { return p.owner(); }

// ------------------------------------------------------------------ objects
struct Pad { uint64_t pad[3] = {7, 8, 9}; };
struct Base {
    uint32_t bmagic = 0xBA5EBA5E;
    virtual int who() const { return -1; }
};
struct Edge {
    int obj = -1, k = 0;
    SP p;
    Edge() = default;
    Edge(const Edge&) = delete;
    ~Edge() { // its pointer goes next
        if (obj < 0) return;
        ModelScope m;
        del(objs[obj].e[k]);
        objs[obj].e[k] = -1;
        if (busy[tid()] == &p) { busy_gone[tid()] = true; }
    }
};
enum Expect { OWNED, UNOWNED, DYING };
void requests(Node* n, Expect x);
void program(Node* n, int id);

using Enable = xmem::basic_enable_shared_from_this<CBF, Node>;
using EnableBase = xmem::basic_enable_shared_from<CBF>;

struct Node : Base, Enable {
    uint32_t magic = 0x90DE90DE;
    int id;
    uint32_t member = 5;
    Edge e[K];
    WP back;

    void init(int i) {
        id = i;
        ModelScope m;
        for (int k = 0; k < K; ++k) { e[k].obj = i; e[k].k = k; objs[i].e[k] = -1; }
        objs[i].at = this;
        objs[i].top = this;
        objs[i].constructed = true;
    }
    explicit Node(int i) { init(i); if (in_ctor()) requests(this, UNOWNED); }
    Node(int i, const Node& o) : Base(o), Enable(o) { init(i); requests(this, UNOWNED); }
    Node(int i, Node&& o) : Base(o), Enable(std::move(o)) { init(i); requests(this, UNOWNED); }
    Node& operator=(const Node& o) { // what a user's class does: its bases are assigned
        Base::operator=(o);
        Enable::operator=(o);
        member = o.member;
        return *this;
    }
    Node& operator=(Node&& o) {
        Base::operator=(o);
        Enable::operator=(std::move(o));
        member = o.member;
        return *this;
    }
    int who() const override { return id; }
    bool in_ctor() { ModelScope m; bool r = nprog2[tid()] & 1; if (r) probe_hit(P_SELF_CTOR); return r; }

    SPt<void> s_void() { return EnableBase::shared_from_this(); }
    SPt<const void> s_cvoid() const { return EnableBase::shared_from_this(); }
    SP s_this() { return Enable::shared_from_this(); }
    SPt<const Node> s_cthis() const { return Enable::shared_from_this(); }
    WPt<void> w_void() { return EnableBase::weak_from_this(); }
    WPt<const void> w_cvoid() const { return EnableBase::weak_from_this(); }
    WP w_this() { return Enable::weak_from_this(); }
    WPt<const Node> w_cthis() const { return Enable::weak_from_this(); }
    template <typename T> SPt<T> s_of(T* p) { return shared_from(p); }
    template <typename T> WPt<T> w_of(T* p) { return weak_from(p); }

    ~Node() {
        int t = tid();
        uint32_t mg = magic;
        bool nested;
        {
            ModelScope m;
            ObjM& o = objs[id];
            log("  object %d is destroyed by t%d (refs %d, depth %d)", id, t, o.refs, depth[t]);
            CHECK(GRAPH | SELF, mg == 0x90DE90DE && !o.destroyed && !o.dying, "object %d is destroyed a second time", id);
            CHECK(GRAPH | SELF, o.refs == 0, "object %d is destroyed while %d strong pointers own it", id, o.refs);
            o.dying = true;
            o.ever_zero = true;
            nested = depth[t] > 0;
            if (nested) probe_hit(P_DEEP);
            if (o.by != t) probe_hit(P_LAST_BY_OTHER);
            dying_stack[t][depth[t]++] = id;
        }
        OutOfMemory enough(false);
        requests(this, objs_unowned() ? UNOWNED : DYING);
        program(this, id);
        if (!objs_unowned()) requests(this, DYING);
        ModelScope m;
        magic = 0xDEADDEAD;
        // the members go now
    }
    bool objs_unowned() { ModelScope m; return objs[id].unowned; }
};
// runs after a Node's members are gone
struct Gone {
    int id = -1;
    ~Gone() {
        if (id < 0) return;
        int t = tid();
        ModelScope m;
        objs[id].destroyed = true;
        objs[id].dying = false;
        depth[t]--;
    }
};
// most derived types: the first base is destroyed last
struct Plain : Gone, Node {
    explicit Plain(int i) : Node(i) { Gone::id = i; top(i); }
    Plain(int i, const Node& o) : Node(i, o) { Gone::id = i; top(i); }
    Plain(int i, Node&& o) : Node(i, std::move(o)) { Gone::id = i; top(i); }
    using Node::operator=;
    void top(int i) { ModelScope m; objs[i].top = this; }
};
struct Big : Gone, Pad, Node {
    Pad tail;
    explicit Big(int i) : Node(i) { Gone::id = i; ModelScope m; objs[i].top = this; objs[i].kind = 1; }
};

// counts what it is called for
struct Del {
    int tag;
    template <typename T> operator xmem::default_delete<T>() const { return {}; } // must not be used
    template <typename T> void operator()(T* p) const {
        if (p) {
            ModelScope m;
            objs[static_cast<Node*>(p)->id].deleted++;
            CHECK(GRAPH | SELF, tag == 77, "a deleter was not kept");
        }
        delete p;
    }
};
void keep_deleter(Plain*) {} // the object outlives its owners

// ------------------------------------------------------------------ self pointers
void requests(Node* n, Expect x) {
    const Node* cn = n;
    int id = n->id, t = tid();
    if (!(wanted & (SELF | LEDGER))) return;
    const void* ow;
    long want = -1;
    void* top;
    {
        ModelScope m;
        ObjM& o = objs[id];
        ow = o.owner;
        top = o.top;
        probe_hit(x == OWNED ? P_SELF_OWNED : x == UNOWNED ? P_SELF_UNOWNED : P_SELF_DYING);
        if (x == OWNED && sequential && depth[t] == 0) want = o.refs;
    }
    int outside = 3;
    if (x == OWNED) {
        long before, during, after;
        bool ok;
        int turn;
        { ModelScope m; turn = 5 * id + nprog[t] + nreq[t]++; }
        for (int k = 0; k < 13; ++k) { // one at a time: nothing but the owners refers to the object
            const void* got;
            const void* o2;
            const void* exp;
            bool to_top = false, strong = true;
            auto take = [&](auto&& p, const void* e, bool tt) {
                exp = e;
                to_top = tt;
                got = p.get();
                o2 = p.owner();
            };
            auto look = [&](auto&& w, const void* e, bool tt) {
                strong = false;
                o2 = w.owner();
                exp = e;
                to_top = tt;
                auto p = w.lock();
                got = p.get();
                if (p.owner() != o2) o2 = nullptr;
            };
            switch ((k + turn) % 13) {
            case 0: take(n->s_this(), n, false); break;
            case 1: take(cn->s_cthis(), n, false); break;
            case 2: take(n->s_void(), n, true); break;
            case 3: take(cn->s_cvoid(), n, true); break;
            case 4: take(n->s_of(&n->member), &n->member, false); break;
            case 5: take(n->s_of(&outside), &outside, false); break;
            case 6: take(n->s_of(static_cast<int*>(nullptr)), nullptr, false); break;
            case 7: look(n->w_this(), n, false); break;
            case 8: look(cn->w_cthis(), n, false); break;
            case 9: look(n->w_void(), n, true); break;
            case 10: look(cn->w_cvoid(), n, true); break;
            case 11: look(n->w_of(&n->member), &n->member, false); break;
            case 12: look(n->w_of(static_cast<int*>(nullptr)), nullptr, false); break;
            }
            if (to_top) exp = top;
            ModelScope m;
            if (!ow) objs[id].owner = ow = o2; // first seen
            CHECK(SELF, got == exp, "object %d: a %s pointer it hands out does not %s to what was asked for", id, strong ? "strong" : "weak", strong ? "point" : "lock");
            CHECK(SELF, o2 && o2 == ow, "object %d: a %s pointer it hands out does not share its owner", id, strong ? "strong" : "weak");
        }
        {
            WP w0 = n->w_this();
            before = w0.use_count();
            SP a = n->s_this();
            SPt<const Node> b = cn->s_cthis();
            SPt<void> c = n->s_void();
            SPt<const void> d = cn->s_cvoid();
            SPt<uint32_t> e = n->s_of(&n->member);
            SPt<int> f = n->s_of(&outside);
            SPt<int> g = n->s_of(static_cast<int*>(nullptr));
            ok = a.get() == n && b.get() == n && c.get() == top && d.get() == top && e.get() == &n->member && f.get() == &outside && !g.get();
            { ModelScope m; CHECK(SELF, ok, "object %d: a strong pointer it hands out does not point to what was asked for", id); }
            ok = a.owner() == ow && b.owner() == ow && c.owner() == ow && d.owner() == ow && e.owner() == ow && f.owner() == ow && g.owner() == ow;
            { ModelScope m; CHECK(SELF, ok, "object %d: a strong pointer it hands out does not share its owner", id); }
            during = a.use_count();
            WPt<const Node> v = cn->w_cthis();
            WPt<void> wv = n->w_void();
            WPt<const void> wc = cn->w_cvoid();
            WPt<uint32_t> wm = n->w_of(&n->member);
            WPt<int> wn = n->w_of(static_cast<int*>(nullptr));
            ok = w0.owner() == ow && v.owner() == ow && wv.owner() == ow && wc.owner() == ow && wm.owner() == ow && wn.owner() == ow;
            { ModelScope m; CHECK(SELF, ok, "object %d: a weak pointer it hands out does not share its owner", id); }
            ok = w0.lock().get() == n && v.lock().get() == n && wv.lock().get() == top && wc.lock().get() == top && wm.lock().get() == &n->member && !wn.lock().get() && wn.lock().owner() == ow;
            { ModelScope m; CHECK(SELF, ok, "object %d: a weak pointer it hands out does not lock to what was asked for", id); }
        }
        after = n->w_this().use_count();
        ModelScope m;
        if (want >= 0) {
            CHECK(SELF, before == want && after == want, "object %d: its use count is %ld before and %ld after it handed out pointers, it has %ld owners", id, before, after, want);
            CHECK(SELF, during == want + 7, "object %d: its use count is %ld while it has %ld owners", id, during, want + 7);
        }
    } else {
        bool none = true, same = true;
        {
            WP count = n->w_this();
            auto one = [&](auto&& p) { // a refused request leaves the counts as they were
                none = none && !p && !p.owner();
                same = same && count.use_count() == 0;
            };
            one(n->s_this());
            one(cn->s_cthis());
            one(n->s_void());
            one(cn->s_cvoid());
            one(n->s_of(&n->member));
            one(n->s_of(&outside));
            one(n->s_of(static_cast<int*>(nullptr)));
            { ModelScope m; CHECK(SELF, same, "object %d, %s: a refused request for a strong pointer changes its use count", id, x == UNOWNED ? "not owned by shared pointers" : "which is being destroyed"); }
            ModelScope m;
            CHECK(SELF, none, "object %d, %s, hands out a strong pointer to itself", id, x == UNOWNED ? "not owned by shared pointers" : "which is being destroyed");
        }
        WP w = n->w_this();
        WPt<const Node> v = cn->w_cthis();
        WPt<void> wv = n->w_void();
        WPt<const void> wc = cn->w_cvoid();
        WPt<uint32_t> wm = n->w_of(&n->member);
        none = w.expired() && v.expired() && wv.expired() && wc.expired() && wm.expired() && !w.use_count() && !wv.use_count() && !w.lock() && !v.lock() && !wv.lock() && !wm.lock() && !wc.lock();
        bool empty = !w.owner() && !v.owner() && !wv.owner() && !wc.owner() && !wm.owner();
        ModelScope m;
        CHECK(SELF, none, "object %d, %s, hands out a weak pointer that is not expired", id, x == UNOWNED ? "not owned by shared pointers" : "which is being destroyed");
        if (x == UNOWNED) CHECK(SELF, empty, "object %d, never owned by a shared pointer, hands out a weak pointer with an owner", id);
    }
}

// ------------------------------------------------------------------ pointers
alignas(16) char rmem[NTH][NR][sizeof(SP)], bmem[NTH][NB][sizeof(BP)], wmem[NTH][NW][sizeof(WP)];
SP& R(int t, int i) { return *reinterpret_cast<SP*>(rmem[t][i]); }
BP& B(int t, int i) { return *reinterpret_cast<BP*>(bmem[t][i]); }
WP& W(int t, int i) { return *reinterpret_cast<WP*>(wmem[t][i]); }

struct H { // some strong pointer
    SP* p = nullptr;
    BP* b = nullptr;
    int* m = nullptr;
    bool mut = true;
    int in = -1; // the object whose edge it is
};
bool may_change(int id) { return sequential || objs[id].by == tid(); } // in ModelScope
H resolve(int t, uint8_t s, Node* self) {
    H h;
    int kind = s & 7, i = s >> 3;
    Node* n = nullptr;
    if (kind == 7 && self) n = self;
    else if (kind >= 4) {
        n = R(t, i % NR).get();
        if (kind == 6 && n) { Node* n2 = n->e[i >> 2 & 1].p.get(); if (n2) n = n2; }
    }
    if (n) {
        int k = (i >> 3) % K;
        h.p = &n->e[k].p;
        ModelScope m;
        h.m = &objs[n->id].e[k];
        h.in = n->id;
        h.mut = may_change(n->id) || (self == n);
    } else if (kind == 3) {
        h.b = &B(t, i % NB);
        h.m = &basem[t][i % NB];
    } else {
        h.p = &R(t, i % NR);
        h.m = &rootm[t][i % NR];
    }
    return h;
}
int value(const H& h) { ModelScope m; return *h.m; }

bool points_right(const H& h) { // does the pointer hold what the model says?
    const Base* got = h.b ? h.b->get() : h.p->get();
    const void* ow = h.b ? h.b->owner() : h.p->owner();
    ModelScope m;
    int v = *h.m;
    if (v < 0) return !got && !ow;
    if (!objs[v].owner) objs[v].owner = ow; // first seen
    return got == objs[v].at && ow && ow == objs[v].owner;
}
void verify_roots(int t, const char* when) {
    for (int i = 0; i < NR; ++i) {
        H h;
        h.p = &R(t, i);
        h.m = &rootm[t][i];
        bool ok = points_right(h);
        ModelScope m;
        CHECK(GRAPH, ok, "%s: pointer %d does not hold what it was given (object %d)", when, i, rootm[t][i]);
    }
    for (int i = 0; i < NB; ++i) {
        H h;
        h.b = &B(t, i);
        h.m = &basem[t][i];
        bool ok = points_right(h);
        ModelScope m;
        CHECK(GRAPH, ok, "%s: base pointer %d does not hold what it was given (object %d)", when, i, basem[t][i]);
    }
}
H inflight[MAXT][2];
int ninflight[MAXT];
// the pointers an operation in progress works on, as a destructor sees them
void verify_busy(int t) {
    H h[2];
    int n = 0;
    { ModelScope m; if (!busy_gone[t]) for (; n < ninflight[t]; ++n) h[n] = inflight[t][n]; }
    for (int i = 0; i < n; ++i) {
        bool ok = points_right(h[i]);
        ModelScope m;
        CHECK(GRAPH, ok, "a destructor finds a pointer that is being %s without its new value (object %d)", i ? "moved from or swapped" : "assigned", *h[i].m);
    }
}
struct InFlight {
    int t;
    bool mine;
    InFlight(const H& a, const H* b) : t(tid()) {
        ModelScope m;
        mine = !busy[t];
        if (!mine) { if (a.p == busy[t] || a.b == busy[t]) { busy_changed[t] = true; probe_hit(P_DTOR_CHANGED_TARGET); } return; }
        busy[t] = a.p ? static_cast<const void*>(a.p) : a.b;
        busy_gone[t] = busy_changed[t] = false;
        inflight[t][0] = a;
        ninflight[t] = 1;
        // a source inside an object may go away with the old value
        if (b && b->in < 0) { inflight[t][1] = *b; ninflight[t] = 2; }
    }
    ~InFlight() {
        if (!mine) return;
        ModelScope m;
        if (busy_gone[t]) probe_hit(P_TARGET_DESTROYED);
        busy[t] = nullptr;
        ninflight[t] = 0;
    }
};

int new_id(bool unowned) {
    ModelScope m;
    if (nobj >= MAXOBJ) return -1;
    int i = nobj++;
    memset(&objs[i], 0, sizeof objs[i]);
    objs[i].used = true;
    objs[i].unowned = unowned;
    objs[i].by = uint8_t(tid());
    objs[i].prog = nprog[tid()];
    objs[i].prog2 = nprog2[tid()];
    for (auto& e : objs[i].e) e = -1;
    return i;
}
void born(const SP& p, int id) { // just created and owned by p; `id` not yet counted in the model
    const void* ow = p.owner();
    ModelScope m;
    objs[id].owner = ow;
    objs[id].unowned = false;
}
void lost(int id) { ModelScope m; if (id >= 0 && !objs[id].constructed) objs[id].used = false; probe_hit(P_CREATE_FAILED); }

template <typename T, typename... A> SPt<T> make(A&&... a) { return SPt<T>(CBF::template make_resource_cb<T>(xmem::allocator<char>{}, std::forward<A>(a)...)); }

// a fresh object in an empty pointer; the model counts it (in refs) as soon as it exists
bool fresh(SP& out, int& id, uint8_t how) {
    id = new_id(true);
    if (id < 0) return false;
    try {
        switch (how % 4) {
        case 0: out = make<Plain>(id); break;
        case 1: out = make<Big>(id); break;
        case 2: out = SP(new Plain(id)); break;
        case 3: out = SP(new Big(id), Del{77}); break;
        }
    } catch (std::bad_alloc&) {
        lost(id);
        id = -1;
        return false;
    }
    { ModelScope m; add(id); }
    born(out, id);
    return true;
}

// ------------------------------------------------------------------ operations on strong pointers
enum { V_COPY, V_MOVE, V_COPY_CTOR, V_TEMP, V_SWAP, V_RESET, V_NULL, V_RESET_NEW, V_RESET_DEL, V_UNIQUE, V_MAKE, V_CAST, NV };

// model: `h` gets `v` (already counted); the old value is released, in the model first
void put(const H& h, int v) { ModelScope m; int old = *h.m; *h.m = v; del(old); }

template <typename P, typename Q> void assign_from(const H& th, const H& sh, P& tgt, Q& src, int variant) {
    constexpr bool same_type = std::is_same_v<P, Q>;
    bool same;
    int v;
    {
        ModelScope m;
        same = static_cast<const void*>(&tgt) == static_cast<const void*>(&src);
        v = *sh.m;
        int old = *th.m;
        if (sh.in >= 0 && old == sh.in && objs[old].refs == 1) probe_hit(P_SOURCE_IN_OLD);
        if (v >= 0 && v == old && !same && variant == V_MOVE) probe_hit(P_SAME_OWNER_MOVE);
        if (v >= 0 && v == th.in) probe_hit(P_SELF_EDGE);
    }
    switch (variant) {
    case V_COPY: case V_CAST: {
        InFlight f(th, nullptr);
        if (!same) { { ModelScope m; add(v); } put(th, v); }
        if (variant == V_CAST && !same) tgt = xmem::static_pointer_cast<typename P::element_type>(src);
        else tgt = src;
        break;
    }
    case V_MOVE: {
        if (same) {
            { ModelScope m; probe_hit(P_SELF_MOVE); }
            tgt = std::move(src);
            break;
        }
        InFlight f(th, &sh);
        { ModelScope m; *sh.m = -1; }
        put(th, v);
        tgt = std::move(src);
        break;
    }
    case V_COPY_CTOR: {
        P tmp(src);
        { ModelScope m; add(v); }
        InFlight f(th, nullptr);
        put(th, v);
        tgt = std::move(tmp);
        break;
    }
    case V_TEMP: {
        InFlight f(th, nullptr);
        { ModelScope m; add(v); }
        put(th, v);
        tgt = P(src);
        break;
    }
    case V_SWAP:
        if constexpr (same_type) {
            { ModelScope m; std::swap(*th.m, *sh.m); }
            tgt.swap(src);
        }
        break;
    }
}

void apply(int t, const H& th, const H& sh, int variant, uint8_t how) {
    if (!th.mut) return;
    if ((variant == V_MOVE || variant == V_SWAP) && !sh.mut) variant = V_COPY;
    OutOfMemory oom(no_mem && variant != V_MAKE && variant != V_RESET_NEW && variant != V_RESET_DEL && variant != V_UNIQUE);
    switch (variant) {
    case V_COPY: case V_MOVE: case V_COPY_CTOR: case V_TEMP: case V_SWAP: case V_CAST:
        if (th.p && sh.p) assign_from(th, sh, *th.p, *sh.p, variant);
        else if (th.b && sh.p) assign_from(th, sh, *th.b, *sh.p, variant);
        else if (th.b && sh.b) assign_from(th, sh, *th.b, *sh.b, variant);
        else { // down the hierarchy
            int v = value(sh);
            SP tmp = xmem::static_pointer_cast<Node>(*sh.b);
            { ModelScope m; add(v); }
            InFlight f(th, nullptr);
            put(th, v);
            *th.p = std::move(tmp);
        }
        break;
    case V_RESET: case V_NULL: {
        InFlight f(th, nullptr);
        put(th, -1);
        if (th.p) { if (variant == V_RESET) th.p->reset(); else *th.p = nullptr; }
        else { if (variant == V_RESET) th.b->reset(nullptr); else *th.b = BP(); }
        break;
    }
    case V_MAKE: {
        SP tmp;
        int id;
        if (!fresh(tmp, id, how)) break;
        InFlight f(th, nullptr);
        put(th, id);
        if (th.p) *th.p = std::move(tmp);
        else *th.b = std::move(tmp);
        break;
    }
    case V_RESET_NEW: case V_RESET_DEL: {
        arm_alloc_fail(0);
        int id = new_id(true);
        if (id < 0) break;
        Plain* n = new Plain(id);
        { ModelScope m; objs[id].unowned = false; add(id); }
        InFlight f(th, nullptr);
        put(th, id);
        if (variant == V_RESET_NEW) { if (th.p) th.p->reset(n); else th.b->reset(n); }
        else { if (th.p) th.p->reset(n, Del{77}); else th.b->reset(n, Del{77}); }
        break;
    }
    case V_UNIQUE: {
        int id = new_id(true);
        if (id < 0) break;
        bool put_back = false;
        int old;
        try {
            xmem::unique_ptr<Plain> u(new Plain(id));
            requests(u.get(), UNOWNED);
            InFlight f(th, nullptr);
            { ModelScope m; objs[id].unowned = false; add(id); old = *th.m; }
            put(th, id);
            try {
                if (th.p) *th.p = std::move(u);
                else *th.b = std::move(u);
            } catch (std::bad_alloc&) {
                put_back = true;
                { ModelScope m; probe_hit(P_HANDOVER_FAILED); *th.m = old; if (old >= 0) objs[old].refs++; objs[id].refs--; objs[id].unowned = true; objs[id].ever_zero = false; }
                Plain* still = u.get();
                { ModelScope m; CHECK(SELF | GRAPH, still, "a failed hand-over takes the object away from its unique_ptr"); }
                requests(still, UNOWNED);
            }
        } catch (std::bad_alloc&) { // of the object itself
            lost(id);
        }
        (void)put_back;
        break;
    }
    }
}

void set_progs(const Op& op) { ModelScope m; nprog[tid()] = op.farg; nprog2[tid()] = op.d; }

int backm[MAXOBJ];
void weak_set(int t, int i, const H& h) { // W(t, i) = pointer
    int v = value(h);
    { ModelScope m; weakm[t][i] = v; }
    if (h.p) W(t, i) = *h.p;
    else W(t, i) = xmem::static_pointer_cast<Node>(*h.b);
}
// lock a weak pointer to object v (-1: an empty one)
int lock_weak(const WP& w, int v, SP& out) {
    int t = tid();
    bool exact, live;
    { ModelScope m; exact = sequential && depth[t] == 0; live = v >= 0 && objs[v].refs > 0; }
    SP p = w.lock();
    const Node* got = p.get();
    const void* ow = p.owner();
    {
        ModelScope m;
        probe_hit(got ? P_LOCK_OK : P_LOCK_NULL);
        if (got) {
            CHECK(SELF | GRAPH, v >= 0 && got == objs[v].at && (!objs[v].owner || ow == objs[v].owner), "lock() of a weak pointer to object %d gives another one", v);
            CHECK(SELF | GRAPH, !objs[v].dying && !objs[v].destroyed, "lock() gives object %d, which is %s", v, objs[v].destroyed ? "destroyed" : "being destroyed");
            add(v);
        } else CHECK(SELF | GRAPH, v < 0 || objs[v].ever_zero, "lock() gives null although object %d was owned all the time", v);
        if (exact) CHECK(SELF | GRAPH, !!got == live, "lock() of a weak pointer to object %d is wrong", v);
    }
    out = std::move(p);
    return got ? v : -1;
}

// what an object does in its destructor
void program(Node* n, int id) {
    int t = tid();
    uint8_t p1, p2;
    int d;
    { ModelScope m; p1 = objs[id].prog; p2 = objs[id].prog2; d = depth[t]; if (objs[id].unowned) return; }
    if (wanted & GRAPH) {
        { ModelScope m; probe_hit(P_DTOR_READ); }
        verify_roots(t, "in a destructor");
        verify_busy(t);
    }
    for (int i = 0; i + 1 < d; ++i) { // the objects whose destruction led here
        int o;
        { ModelScope m; o = dying_stack[t][i]; if (objs[o].unowned) continue; probe_hit(P_SELF_PARENT_DYING); }
        requests(objs[o].at, DYING);
    }
    if (!p1 || d > 12) return;
    {
        ModelScope m;
        probe_hit(P_REENTRANT);
        if (!sequential && t) probe_hit(P_FOREIGN_DTOR);
        fault_fired(F_REENTRY);
        nprog[t] = nprog2[t] = 0;
    }
    arm_alloc_fail(0);
    Rng r(uint64_t(p1) << 8 | p2);
    for (int k = 0; k < 1 + p1 % 3; ++k) {
        uint8_t a = uint8_t(r.next()), b = uint8_t(r.next()), how = uint8_t(r.next());
        int what = int(r.below(NV + 3));
        if (r.chance(1, 3)) a = uint8_t(a | 7); // own edge
        if (r.chance(1, 3)) b = uint8_t(b | 7);
        if (what < NV) apply(t, resolve(t, a, n), resolve(t, b, n), what, how);
        else if (what == NV) { // its own weak pointer, and one it keeps
            SP l;
            int v;
            { ModelScope m; v = backm[id]; }
            int got = lock_weak(n->back, v, l);
            if (got >= 0) {
                H h = resolve(t, uint8_t(a & ~7), nullptr);
                InFlight f(h, nullptr);
                put(h, got);
                if (h.p) *h.p = std::move(l);
            }
            WP me = n->w_this();
            bool none = me.expired() && !me.lock();
            ModelScope m;
            CHECK(SELF, none, "object %d can be locked while it is being destroyed", id);
        } else if (what == NV + 1) { // keeps a weak pointer to itself, or to an object that is destroyed further out
            int o = id;
            {
                ModelScope m;
                if (how & 1) o = dying_stack[t][(how >> 3) % d];
                if (objs[o].unowned) continue;
                probe_hit(P_DTOR_KEEPS_WEAK);
            }
            Node* x = objs[o].at;
            if (how & 6) {
                { ModelScope m; weakm[t][b % NW] = o; }
                if (how & 2) W(t, b % NW) = x->w_this();
                else W(t, b % NW) = x->w_of(x);
            } else {
                { ModelScope m; backm[id] = o; }
                n->back = x->w_this();
            }
        } else {
            int i = b % NW;
            SP l;
            int v;
            { ModelScope m; v = weakm[t][i]; }
            int got = lock_weak(W(t, i), v, l);
            { ModelScope m; del(got); }
            l.reset();
        }
    }
    if (wanted & GRAPH) verify_roots(t, "after a destructor changed pointers");
}

// ------------------------------------------------------------------ operations
enum { NOP, APPLY, WEAK_SET, LOCK, WEAK_SELF, BACK, REQUEST, OBJ_COPY, OBJ_ASSIGN, UNOWNED_OBJ, NULLS, KEEP, OBSERVE, NOPS };
const char* const op_names[] = {"nop", "assign_reset_or_swap", "weak_from_strong", "lock", "weak_from_self", "set_back_pointer", "request_self_pointers", "copy_object", "assign_object", "unowned_object", "null_pointers", "retain_and_own_again", "observe"};
const Plan* plan;
int nthr;
const char* const variant_names[] = {"copy", "move", "via copy", "temporary", "swap", "reset", "null", "reset to new", "reset to new with deleter", "from unique", "make", "cast"};

void account(const char* where) { // nothing is in progress
    ModelScope m;
    for (int i = 0; i < nobj; ++i) {
        ObjM& o = objs[i];
        if (!o.used || !o.constructed || o.unowned) continue;
        CHECK(GRAPH | SELF, o.refs == 0 || !o.destroyed, "%s: object %d is destroyed although it has %d owners", where, i, o.refs);
        CHECK(GRAPH | SELF, o.refs > 0 || o.destroyed, "%s: object %d has no owner left but is not destroyed", where, i);
    }
    int entries = 0;
    auto strong = [&](const void* at, int v, const void* got, const void* ow, long n, bool base) {
        CHECK(GRAPH, got == (v < 0 ? nullptr : base ? static_cast<const void*>(static_cast<const Base*>(objs[v].at)) : objs[v].at), "%s: a pointer does not hold what it was given (object %d)", where, v);
        if (v < 0) { CHECK(GRAPH | LEDGER, !ow, "%s: an empty pointer has an owner", where); return; }
        entries++;
        if (!objs[v].owner) objs[v].owner = ow;
        CHECK(GRAPH | SELF, ow && ow == objs[v].owner, "%s: a pointer to object %d has another owner than the others", where, v);
        CHECK(GRAPH | SELF, n == objs[v].refs, "%s: the use count of object %d is %ld, it has %d owners", where, v, n, objs[v].refs);
#if LIB == 3
        CHECK(LEDGER, led_find(ow, at, false) >= 0, "%s: a live strong pointer is missing from the account of its control block", where);
#endif
        (void)at;
    };
    auto weak = [&](const WP* w, int v) {
        const void* ow = w->owner();
        if (!ow) { CHECK(SELF, v < 0, "%s: a weak pointer to object %d is empty", where, v); return; }
        entries++;
        CHECK(SELF, v >= 0 && (!objs[v].owner || ow == objs[v].owner), "%s: a weak pointer to object %d has another owner", where, v);
        if (v >= 0) CHECK(SELF, w->use_count() == objs[v].refs, "%s: a weak pointer to object %d reports %ld owners, it has %d", where, v, w->use_count(), objs[v].refs);
#if LIB == 3
        CHECK(LEDGER, led_find(ow, w, true) >= 0, "%s: a live weak pointer is missing from the account of its control block", where);
#endif
    };
    for (int t = 0; t < NTH; ++t) {
        for (int i = 0; i < NR; ++i) strong(&R(t, i), rootm[t][i], R(t, i).get(), R(t, i).owner(), R(t, i).use_count(), false);
        for (int i = 0; i < NB; ++i) strong(&B(t, i), basem[t][i], B(t, i).get(), B(t, i).owner(), B(t, i).use_count(), true);
        for (int i = 0; i < NW; ++i) weak(&W(t, i), weakm[t][i]);
    }
    for (int i = 0; i < nobj; ++i) {
        ObjM& o = objs[i];
        if (!o.used || !o.constructed || o.unowned || o.destroyed || o.dying) continue;
        for (int k = 0; k < K; ++k) { SP& p = o.at->e[k].p; strong(&p, o.e[k], p.get(), p.owner(), p.use_count(), false); }
        weak(&o.at->back, backm[i]);
    }
#if LIB == 3
    CHECK(LEDGER, nled == entries, "%s: the control blocks were told of %d pointers, %d exist", where, nled, entries);
#endif
}

void null_pointers(int t, const Op& op) { // null pointers to types with self pointers
    SP a, b;
    bool ok = true;
    switch (op.c % 6) {
    case 0: { SP p(static_cast<Node*>(nullptr)); a = std::move(p); break; }
    case 1: { SP p(static_cast<Big*>(nullptr), Del{77}); a = std::move(p); break; }
    case 2: { xmem::unique_ptr<Plain> u; SP p(std::move(u)); a = std::move(p); break; }
    case 3: { a.reset(static_cast<Plain*>(nullptr)); break; }
    case 4: { SP p(nullptr, Del{77}); a = std::move(p); break; }
    case 5: { a.reset(static_cast<Plain*>(nullptr), Del{77}); break; }
    }
    b = a;
    WP w(a);
    ok = !a.get() && !b && a.owner() && b.owner() == a.owner() && a.use_count() == 2 && w.use_count() == 2 && w.lock().owner() == a.owner();
    BP c = a;
    ok = ok && !c.get() && c.owner() == a.owner();
    a.reset();
    b.reset();
    c.reset();
    ok = ok && w.expired() && !w.lock().owner();
    ModelScope m;
    (void)t;
    probe_hit(P_NULL_ACCEPTED);
    CHECK(SELF, ok, "a null pointer to a type with self pointers is not treated like any other");
}

void exec(int t, uint32_t i) {
    const Op& op = plan->ops[i];
    op_begin(i);
    set_progs(op);
    if (op.fault == F_ALLOC_FAIL) arm_alloc_fail(1 + op.d % 2);
    OutOfMemory oom(no_mem && (op.code == WEAK_SET || op.code == LOCK || op.code == WEAK_SELF || op.code == BACK || op.code == REQUEST || op.code == OBSERVE));
    switch (op.code) {
    case APPLY: {
        int v = op.c % NV;
        H th = resolve(t, op.a, nullptr), sh = resolve(t, op.b, nullptr);
        if (logging()) { ModelScope m; log("  t%d %s: target holds %d%s, source holds %d%s", t, variant_names[v], *th.m, th.in >= 0 ? " (inside an object)" : "", *sh.m, sh.in >= 0 ? " (inside an object)" : ""); }
        try { apply(t, th, sh, v, op.d); } catch (std::bad_alloc&) { ModelScope m; probe_hit(P_CREATE_FAILED); }
        break;
    }
    case WEAK_SET: weak_set(t, op.a % NW, resolve(t, op.b, nullptr)); break;
    case LOCK: {
        SP l;
        int v;
        { ModelScope m; v = weakm[t][op.a % NW]; }
        int got = lock_weak(W(t, op.a % NW), v, l);
        if (got < 0) break;
        if (op.c & 1) requests(l.get(), OWNED);
        H h = resolve(t, uint8_t(op.b & ~7), nullptr);
        InFlight f(h, nullptr);
        put(h, got);
        *h.p = std::move(l);
        break;
    }
    case WEAK_SELF: {
        H h = resolve(t, op.b, nullptr);
        int v = value(h);
        if (v < 0) break;
        Node* n = h.p ? h.p->get() : static_cast<Node*>(h.b->get());
        { ModelScope m; weakm[t][op.a % NW] = v; }
        if (op.c & 1) W(t, op.a % NW) = n->w_this();
        else { WP w = n->w_of(n); W(t, op.a % NW).swap(w); }
        break;
    }
    case BACK: {
        Node* n = R(t, op.a % NR).get();
        if (!n) break;
        { ModelScope m; if (!may_change(n->id)) break; }
        H h = resolve(t, op.b, nullptr);
        int v = value(h);
        { ModelScope m; backm[n->id] = v; }
        if (h.p) n->back = *h.p;
        else n->back = xmem::static_pointer_cast<Node>(*h.b);
        break;
    }
    case REQUEST: {
        H h = resolve(t, op.a, nullptr);
        Node* n = h.p ? h.p->get() : static_cast<Node*>(h.b->get());
        if (!n) break;
        requests(n, OWNED);
        if (op.c & 1) { // keep one
            int v = value(h);
            SP p = op.c & 2 ? n->s_this() : n->s_of(n);
            { ModelScope m; add(v); }
            H r = resolve(t, uint8_t(op.b & ~7), nullptr);
            InFlight f(r, nullptr);
            put(r, v);
            *r.p = std::move(p);
        }
        break;
    }
    case OBJ_COPY: {
        Node* n = R(t, op.a % NR).get();
        if (!n) break;
        int id = new_id(true);
        if (id < 0) break;
        {
            auto both = [&](Plain& c, bool mv) {
                { ModelScope m; probe_hit(P_COPIED); if (mv) probe_hit(P_MOVED); }
                requests(&c, UNOWNED);
                requests(n, OWNED);
                bool ch;
                { ModelScope m; ch = may_change(n->id); }
                if (ch && op.c & 1) { if (mv) static_cast<Node&>(*n) = std::move(c); else static_cast<Node&>(*n) = c; requests(n, OWNED); requests(&c, UNOWNED); }
                if (op.c & 2) { if (mv) static_cast<Node&>(c) = std::move(*n); else static_cast<Node&>(c) = *n; requests(&c, UNOWNED); requests(n, OWNED); }
            };
            if (op.c & 4) { Plain c(id, std::move(*n)); both(c, op.c & 8); }
            else { Plain c(id, *n); both(c, op.c & 8); }
        }
        break;
    }
    case OBJ_ASSIGN: {
        Node *a = R(t, op.a % NR).get(), *b = R(t, op.b % NR).get();
        if (!a || !b) break;
        { ModelScope m; if (!may_change(a->id)) break; probe_hit(P_ASSIGNED); }
        if (op.c & 4) *a = std::move(*b); // nothing is taken from b, either
        else *a = *b;
        requests(a, OWNED);
        requests(b, OWNED);
        break;
    }
    case UNOWNED_OBJ: {
        int id = new_id(true);
        if (id < 0) break;
        try {
            xmem::unique_ptr<Plain> u(new Plain(id));
            requests(u.get(), UNOWNED);
            if (op.c & 1) u.reset();
            else {
                H h = resolve(t, uint8_t(op.b & ~7), nullptr);
                SP p(std::move(u));
                { ModelScope m; add(id); }
                born(p, id);
                requests(p.get(), OWNED);
                InFlight f(h, nullptr);
                put(h, id);
                *h.p = std::move(p);
            }
        } catch (std::bad_alloc&) { lost(id); }
        break;
    }
    case NULLS:
        try { null_pointers(t, op); } catch (std::bad_alloc&) { ModelScope m; probe_hit(P_CREATE_FAILED); }
        break;
    case KEEP: {
        arm_alloc_fail(0);
        int id = new_id(true);
        if (id < 0) break;
        Plain* n = new Plain(id);
        { // a first group of owners that gives it back
            SP p(n, keep_deleter);
            { ModelScope m; add(id); }
            born(p, id);
            requests(n, OWNED);
            ModelScope m;
            del(id);
        }
        SP p(n);
        { ModelScope m; add(id); objs[id].ever_zero = false; }
        born(p, id);
        requests(n, OWNED);
        H h = resolve(t, uint8_t(op.b & ~7), nullptr);
        InFlight f(h, nullptr);
        put(h, id);
        *h.p = std::move(p);
        break;
    }
    case OBSERVE: {
        H h = resolve(t, op.a, nullptr);
        bool ok = points_right(h);
        int v = value(h);
        long n = h.p ? h.p->use_count() : h.b->use_count();
        ModelScope m;
        CHECK(GRAPH, ok && (n > 0) == (v >= 0), "a pointer does not hold what it was given (object %d)", v);
        break;
    }
    }
    arm_alloc_fail(0);
    op_end();
    if (sequential) account(op_names[op.code]);
    else if (wanted & GRAPH) verify_roots(t, "after an operation");
}
void thread(int t) {
    for (uint32_t i = 0; i < plan->ops.size(); ++i)
        if (plan->ops[i].thr == t) exec(t, i);
}

void recorded_finding() { // see known-findings.txt
    int id = new_id(true);
    Plain* n = new Plain(id);
    { ModelScope m; objs[id].prog = 0; }
    {
        SP p(n, keep_deleter);
        { ModelScope m; add(id); }
        born(p, id);
        ModelScope m;
        del(id);
    }
    SP p = n->s_this();
    bool none = !p && !p.owner();
    { ModelScope m; CHECK(SELF, none, "an object that outlived its owners hands out a strong pointer"); objs[id].unowned = true; }
    p.reset();
    delete n;
}

struct Prof { const char* name; uint32_t wanted; const char* classes; };
const Prof profs[] = {
    {"C09", SELF, "self,mem,race,progress"},
    {"C10", LEDGER, "ledger,mem"},
    {"C11", GRAPH, "graph,mem,race,progress"},
    {"C20", SELF | GRAPH, "self,graph"},
    {"C09K", SELF, "self,mem"},
};

void run(const char* profile, const Plan& p) {
    wanted = 0;
    for (auto& f : profs)
        if (!strcmp(f.name, profile)) { wanted = f.wanted; set_classes(f.classes); }
    no_mem = !strcmp(profile, "C20");
    plan = &p;
    nthr = p.nthr;
    sequential = true;
    for (int t = 0; t < NTH; ++t) {
        for (int i = 0; i < NR; ++i) { new (rmem[t][i]) SP; ModelScope m; rootm[t][i] = -1; }
        for (int i = 0; i < NB; ++i) { new (bmem[t][i]) BP; ModelScope m; basem[t][i] = -1; }
        for (int i = 0; i < NW; ++i) { new (wmem[t][i]) WP; ModelScope m; weakm[t][i] = -1; }
    }
    { ModelScope m; for (auto& b : backm) b = -1; }
    if (!strcmp(profile, "C09K")) { recorded_finding(); return; }
    for (uint32_t i = 0; i < p.ops.size(); ++i)
        if (p.ops[i].thr == 0) exec(0, i);
    if (nthr) {
        // every thread gets copies of what the main thread owns
        for (int t = 1; t <= nthr; ++t) {
            for (int i = 0; i < NR; ++i)
                if (p.cfg[3] >> ((i + 2 * t) % 8) & 1) { { ModelScope m; rootm[t][i] = rootm[0][i]; add(rootm[0][i]); } R(t, i) = R(0, i); }
            for (int i = 0; i < NW; ++i) { { ModelScope m; weakm[t][i] = weakm[0][i]; } W(t, i) = W(0, i); }
            if (p.cfg[4] & 1) for (int i = 0; i < NB; ++i) { { ModelScope m; basem[t][i] = basem[0][i]; add(basem[0][i]); } B(t, i) = B(0, i); }
        }
        if (p.cfg[4] & 2) {
            for (int i = 0; i < NR; ++i) { H h; h.p = &R(0, i); h.m = &rootm[0][i]; apply(0, h, h, V_RESET, 0); }
            for (int i = 0; i < NB; ++i) { H h; h.b = &B(0, i); h.m = &basem[0][i]; apply(0, h, h, V_RESET, 0); }
        }
        sequential = false;
        spawn_and_join(nthr, thread);
        sequential = true;
        account("after the threads are done");
    }
    // take everything apart
    for (int round = 0; round < 40; ++round) {
        for (int x = 0; x < NTH * (NR + NB); ++x) {
            int y = p.cfg[5] & 1 ? NTH * (NR + NB) - 1 - x : x, t = y / (NR + NB), i = y % (NR + NB);
            H h;
            if (i < NR) { h.p = &R(t, i); h.m = &rootm[t][i]; }
            else { h.b = &B(t, i - NR); h.m = &basem[t][i - NR]; }
            apply(0, h, h, V_RESET, 0);
        }
        account("taking things apart");
        bool any = false;
        {
            ModelScope m; // destructors may have filled pointers again
            for (auto& t : rootm) for (int v : t) any |= v >= 0;
            for (auto& t : basem) for (int v : t) any |= v >= 0;
        }
        for (int x = 0; x < nobj; ++x) { // what is left are cycles
            int id = p.cfg[5] & 2 ? nobj - 1 - x : x;
            for (int k = 0; k < K; ++k) {
                int kk = p.cfg[5] & 4 ? K - 1 - k : k;
                H h;
                {
                    ModelScope m;
                    if (!objs[id].used || !objs[id].constructed || objs[id].destroyed || objs[id].unowned) break;
                    if (objs[id].e[kk] < 0) continue;
                    any = true;
                    probe_hit(P_CYCLE_BROKEN);
                    h.p = &objs[id].at->e[kk].p;
                    h.m = &objs[id].e[kk];
                    h.in = id;
                }
                apply(0, h, h, p.cfg[5] & 8 ? V_NULL : V_RESET, 0);
                account("taking a cycle apart");
            }
        }
        if (!any) break;
    }
    for (int t = 0; t < NTH; ++t)
        for (int i = 0; i < NW; ++i) { { ModelScope m; weakm[t][i] = -1; } W(t, i).reset(); }
    account("at the end");
    ModelScope m;
    for (int i = 0; i < nobj; ++i)
        if (objs[i].used && objs[i].constructed) CHECK(GRAPH | SELF, objs[i].destroyed, "object %d is never destroyed", i);
    if (live_blocks()) {
        char b[300];
        list_live(b, sizeof b);
        CHECK(GRAPH | SELF, false, "memory is leaked:%s", b);
    }
}

void gen(const char* profile, Rng& r, Plan& p) {
    int pr = atoi(profile + 1);
    for (int i = 0; i < pr; ++i) r.next();
    bool conc = LIB != 2 && r.chance(pr == 11 ? 1 : 2, 3);
    p.nthr = conc ? uint8_t(2 + r.below(r.chance(1, 3) ? 3 : 1)) : 0;
    p.cfg[3] = uint8_t(r.next());
    p.cfg[4] = uint8_t(r.below(4));
    p.cfg[5] = uint8_t(r.below(16));
    if (!strcmp(profile, "C09K")) return;
    bool progs = r.chance(pr == 11 ? 3 : 1, 4);
    uint8_t w[NOPS] = {};
    auto W = [&](int op, int lo, int hi) { w[op] = uint8_t(uint32_t(lo) + r.below(uint32_t(hi - lo + 1))); };
    if (pr == 11) { W(APPLY, 6, 12); W(WEAK_SET, 0, 1); W(LOCK, 0, 2); W(BACK, 0, 1); W(OBSERVE, 0, 1); W(UNOWNED_OBJ, 0, 1); }
    else { W(APPLY, 2, 8); W(WEAK_SET, 0, 2); W(LOCK, 0, 4); W(WEAK_SELF, 0, 2); W(BACK, 0, 1); W(REQUEST, 1, 5); W(OBJ_COPY, 0, 2); W(OBJ_ASSIGN, 0, 2); W(UNOWNED_OBJ, 0, 2); W(NULLS, 0, 1); W(KEEP, 0, 1); }
    uint8_t vw[NV] = {};
    int vt = 0;
    for (int i = 0; i < NV; ++i) vt += vw[i] = uint8_t(r.below(4));
    if (!vt) vt = vw[0] = 1;
    int tot = 0;
    for (auto x : w) tot += x;
    auto mk = [&](bool make) {
        Op o;
        int x = int(r.below(uint32_t(tot)));
        for (int i = 0; i < NOPS; ++i) { if (x < w[i]) { o.code = uint8_t(i); break; } x -= w[i]; }
        if (make) o.code = APPLY;
        o.a = uint8_t(r.next()); o.b = uint8_t(r.next()); o.d = uint8_t(r.next()); o.c = uint8_t(r.next());
        if (o.code == APPLY) {
            int y = int(r.below(uint32_t(vt)));
            for (int i = 0; i < NV; ++i) { if (y < vw[i]) { o.c = uint8_t(i); break; } y -= vw[i]; }
            if (make) o.c = r.chance(3, 4) ? V_MAKE : V_UNIQUE;
        }
        if (progs && r.chance(1, 2)) o.farg = uint8_t(1 + r.below(255));
        bool creates = o.code == APPLY ? (o.c == V_MAKE || o.c == V_UNIQUE) : (o.code == UNOWNED_OBJ || o.code == NULLS);
        if (creates && r.chance(1, 6)) o.fault = F_ALLOC_FAIL;
        return o;
    };
    for (int i = 0; i < NR; ++i) { // something to work on
        Op o = mk(true);
        if (r.chance(3, 4)) { o.a = uint8_t(i << 3); p.ops.push_back(o); }
    }
    for (int i = int(r.below(4)); i > 0; --i) { // edges
        Op o = mk(r.chance(1, 2));
        o.code = APPLY;
        o.a = uint8_t(4 | r.next() << 3);
        if (o.c % NV != V_MAKE && o.c % NV != V_UNIQUE) o.c = V_COPY;
        p.ops.push_back(o);
    }
    for (int i = 0; i < NW; ++i)
        if (r.chance(1, 2)) { Op o; o.code = WEAK_SET; o.a = uint8_t(i); o.b = uint8_t(r.next()); p.ops.push_back(o); }
    int pre = int(r.below(4));
    for (int i = 0; i < pre; ++i) p.ops.push_back(mk(r.chance(1, 3)));
    int n = conc ? int(p.nthr) + int(r.below(r.chance(1, 3) ? 14 : 7)) : 2 + int(r.below(16));
    for (int i = 0; i < n; ++i) {
        Op o = mk(r.chance(1, 10));
        o.thr = conc ? uint8_t(1 + r.below(p.nthr)) : 0;
        p.ops.push_back(o);
        if (o.code == APPLY && o.c == V_COPY && r.chance(1, 3)) { // again, as something else
            o.c = r.chance(1, 2) ? V_MOVE : uint8_t(r.below(NV));
            if (r.chance(1, 3)) std::swap(o.a, o.b);
            p.ops.push_back(o);
        }
    }
}
const Harness Hn = {"graph", op_names, NOPS, probe_names, NPROBES, gen, run, nullptr};
}

int main(int argc, char** argv) { return sim::main_(argc, argv, Hn); }
