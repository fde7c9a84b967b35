// The simulator. Compiled WITHOUT -fsanitize=thread.
//
// One OS thread runs everything. Simulated threads are fibers; which fiber runs
// after each step is decided here, from one PRNG. Every decision that is not
// the default one is recorded, so that an execution is a function of
// (plan, list of non-default decisions) and can be replayed and minimised.
#include "sim.h"

#include <algorithm>
#include <cassert>
#include <csignal>
#include <sys/time.h>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <cerrno>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <link.h>
#include <new>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
using uptr = uintptr_t;

extern "C" {
extern char __data_start[];
extern char _end[];
extern char __executable_start[];
extern char etext[];
void sim_switch(void** save_sp, void* load_sp);
void sim_entry_thunk();
}

// callee-saved registers, mxcsr and x87 control word are the whole context
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
.globl sim_entry_thunk
.type sim_entry_thunk,@function
sim_entry_thunk:
    .cfi_startproc
    .cfi_undefined rip
    call *%r12
    ud2
    .cfi_endproc
.size sim_entry_thunk,.-sim_entry_thunk
.section .note.GNU-stack,"",@progbits
.text
)");

namespace sim {
const char* const fault_names[NFAULTS] = {
    "preemption_inside_operation", "thread_stall", "spurious_cas_failure", "stale_relaxed_load",
    "allocation_failure", "throwing_constructor", "throwing_control_block_constructor",
    "immediate_address_reuse", "reentrant_destructor_or_deleter", "spinning_thread_spins_on_for_long",
    "weak_cas_fails_many_times", "others_interfere_with_every_cas_of_a_thread", "no_memory_at_all_during_an_operation",
    "clock_jumps", "timed_lock_times_out",
};
}

namespace {
using namespace sim;

constexpr uptr ARENA = 0x200000000000ull;
constexpr size_t ARENA_SZ = 1u << 20;
constexpr uptr STACKS = 0x210000000000ull;
constexpr size_t STACK_SZ = 256 * 1024;
constexpr size_t NCELL = ARENA_SZ / 8;
constexpr int MAXBLOCK = 8192;
constexpr int HIST = 6;
constexpr int MAXLOC = 512;
constexpr u32 MAXDEC = 1u << 18;

struct VC {
    u32 c[MAXT];
    void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Cell { // shadow of 8 bytes
    u32 w[MAXT], r[MAXT], aw[MAXT], ar[MAXT];
    u8 mw[MAXT], mr[MAXT], maw[MAXT], mar[MAXT];
};
struct Store {
    u64 val;
    VC sync;
    u8 tid;
    u32 clk;
    u32 firstRead[MAXT];
};
struct Loc {
    uptr addr;
    u8 size;
    u8 n; // history entries
    Store h[HIST]; // h[n-1] is the latest
};
struct Block {
    uptr start;
    size_t size, align;
    bool live, aligned_api;
    u8 freed_by;
};
struct EH { void* caught; unsigned uncaught; };

enum FState : u8 { FREE_, RUN, BLOCK_JOIN, BLOCK_MTX, DONE };
struct Fiber {
    void* sp;
    FState st;
    u64 stall_until;
    VC vc, acq_pend, rel_fence;
    EH eh;
    u32 alloc_cd;      // countdown to failing allocation
    bool alloc_fired, oom;
    u32 alloc_count;
    int op;            // plan index, -1 outside operations
    bool in_op;
    u32 spin;
    int prio;
    Fn fn;
    const void* waiting;
    char* tls;         // saved TLS image of the executable
};
struct Dec { u32 seq, val; };

struct Outcome {
    bool viol, foreign, truncated;
    char cls[32];
    char msg[600];
    u64 hash;
    u64 steps;
    u32 switches, preempts;
    u32 faults[NFAULTS];
    u32 ndec;
    Dec dec[MAXDEC];
};

enum Mode { M_RANDOM, M_REPLAY };
enum Strat { S_RAND, S_PCT, S_FEW };

struct G {
    // per process
    const Harness* h;
    char profile[32];
    char* snap; size_t snap_sz; char* snap_at; // data+bss image
    char* tls_at; size_t tls_sz; char* tls_init;
    u64 tot_runs, tot_steps, tot_switch, tot_preempt, tot_foreign, tot_trunc;
    u64 tot_faults[NFAULTS];
    u64 probes[128];
    u64 runs_probe[128];
    u64 runs_fault[NFAULTS];
    bool verbose;
    double min_budget;
    std::string* logbuf;
    // per run
    bool active;
    int model;
    Fiber f[MAXT];
    int cur, nf;
    void* native_sp;
    Outcome* out;
    Mode mode;
    const Dec* rdec; u32 rn, ri;
    u32 dseq;
    Rng rng{0};
    Strat strat;
    u32 p_switch, p_plain, p_opb, p_stall, p_spur, p_stale; // per 65536
    bool weak;
    u32 few[8]; int nfew;
    u64 limit;
    u32 spin_on;              // a spinning thread may go on for this many steps while nobody else runs (once per run)
    u64 frozen_until;         // it is doing so
    u32 p_jump;               // a look at the clock finds that much time has passed
    u64 clock_off;
    u32 burst, burst_left;    // a weak compare-exchange may fail so many times (once per run); still to fail
    int burst_by;
    int adv_left, adv_by, adv_wait; // before every compare-exchange of one thread somebody else changes the location
    uptr adv_at, at_cas;
    u64 adv_val;
    u32 adv_size;
    u64 fuel;
    u64 runid;
    uptr brk; // arena high-water mark
    int nblocks;
    int reuse;
    VC scvc;
    int nloc;
    const char* classes;
    FreeHook free_hook;
    u32 run_probes[128];
    const Plan* plan;
    // big
    Block blocks[MAXBLOCK];
    u16 cellblk[NCELL];   // block id + 1
    u8 cellatom[NCELL];
    Cell cells[NCELL];
    Loc locs[MAXLOC];
    Cell gcells[4096]; uptr gkey[4096]; u16 gused[4096]; int ngused;
    u16 freelist[MAXBLOCK]; int nfree;
    alignas(64) char scratch[4u << 20];
};
G* g; // allocated once; its value is part of the snapshot


bool in_arena(uptr a) { return a - ARENA < ARENA_SZ; }

void hash_mix(u64 v) {
    u64 h = g->out->hash;
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    g->out->hash = h;
}

EH* eh_globals() { return reinterpret_cast<EH*>(abi::__cxa_get_globals()); }

void switch_to(int to) {
    int from = g->cur;
    if (to == from) return;
    Fiber& a = g->f[from];
    Fiber& b = g->f[to];
    EH* e = eh_globals();
    a.eh = *e;
    *e = b.eh;
    if (g->tls_sz) {
        memcpy(a.tls, g->tls_at, g->tls_sz);
        memcpy(g->tls_at, b.tls, g->tls_sz);
    }
    g->cur = to;
    g->frozen_until = 0;
    g->out->switches++;
    if (a.in_op && a.st == RUN) { g->out->preempts++; fault_fired(F_PREEMPT); }
    hash_mix(0x5000 + to);
    if (g->logbuf) sim::log("  -- switch to thread %d", to);
    sim_switch(&a.sp, b.sp);
}

[[noreturn]] void abort_run() {
    // abandon every fiber and return to the native stack
    void* dummy;
    g->active = false;
    *eh_globals() = EH{nullptr, 0};
    sim_switch(&dummy, g->native_sp);
    __builtin_unreachable();
}

u32 record(u32 seq, u32 v) {
    if (v) {
        Outcome& o = *g->out;
        if (o.ndec < MAXDEC) o.dec[o.ndec++] = {seq, v};
        else { o.truncated = true; }
    }
    return v;
}
u32 replay_value(u32 seq) {
    while (g->ri < g->rn && g->rdec[g->ri].seq < seq) g->ri++;
    if (g->ri < g->rn && g->rdec[g->ri].seq == seq) return g->rdec[g->ri].val;
    return 0;
}

bool runnable(int t) {
    Fiber& f = g->f[t];
    return f.st == RUN;
}
bool ready(int t) { return runnable(t) && g->f[t].stall_until <= g->out->steps; }

int next_rr(int from) { // next ready fiber after `from`, else the soonest to wake; -1: none
    int n = g->nf;
    for (int k = 1; k <= n; ++k) {
        int t = (from + k) % n;
        if (t != from && ready(t)) return t;
    }
    return -1;
}
int soonest() {
    int best = -1;
    for (int t = 0; t < g->nf; ++t)
        if (runnable(t) && (best < 0 || g->f[t].stall_until < g->f[best].stall_until)) best = t;
    return best;
}

enum PointKind { PK_ATOMIC, PK_PLAIN, PK_OP };

// what a decision at a scheduling point can say
constexpr u32 D_SWITCH = 1; // 1 + tid
constexpr u32 D_STALL = 32; // 32 + log2(duration/16)

u64 ldn(uptr a, u32 n) { u64 v = 0; memcpy(&v, reinterpret_cast<void*>(a), n); return v; }
u32 strategy_sched(PointKind k) {
    Rng& r = g->rng;
    uptr at = g->at_cas;
    g->at_cas = 0;
    if (g->adv_wait) {
        if (g->cur != g->adv_by && ldn(g->adv_at, g->adv_size) == g->adv_val && --g->adv_wait) return 0;
        g->adv_wait = 0;
        return g->cur != g->adv_by && ready(g->adv_by) ? D_SWITCH + g->adv_by : 0;
    }
    if (g->adv_left && at && (g->adv_by < 0 || g->adv_by == g->cur)) {
        int n = 0, c[MAXT];
        for (int t = 0; t < g->nf; ++t) if (t != g->cur && ready(t)) c[n++] = t;
        if (n) {
            g->adv_by = g->cur;
            g->adv_at = at;
            g->adv_val = ldn(g->adv_at, g->adv_size);
            g->adv_wait = 80;
            g->adv_left--;
            fault_fired(F_INTERFERE);
            return D_SWITCH + c[r.below(n)];
        }
    }
    if (g->p_stall && k == PK_ATOMIC && (r.next() & 0xffff) < g->p_stall) return D_STALL + r.below(6);
    switch (g->strat) {
    case S_RAND: {
        u32 p = k == PK_ATOMIC ? g->p_switch : k == PK_PLAIN ? g->p_plain : g->p_opb;
        if ((r.next() & 0xffff) >= p) return 0;
        int n = 0, c[MAXT];
        for (int t = 0; t < g->nf; ++t) if (t != g->cur && ready(t)) c[n++] = t;
        return n ? D_SWITCH + c[r.below(n)] : 0;
    }
    case S_PCT: {
        for (int i = 0; i < g->nfew; ++i)
            if (g->few[i] == g->out->steps) g->f[g->cur].prio = -1 - i;
        int best = g->cur;
        for (int t = 0; t < g->nf; ++t) if (ready(t) && g->f[t].prio > g->f[best].prio) best = t;
        return best == g->cur ? 0 : D_SWITCH + best;
    }
    case S_FEW: {
        bool hit = false;
        for (int i = 0; i < g->nfew; ++i) if (g->few[i] == g->out->steps) hit = true;
        if (k == PK_OP && (r.next() & 0xffff) < g->p_opb) hit = true;
        if (!hit) return 0;
        int n = 0, c[MAXT];
        for (int t = 0; t < g->nf; ++t) if (t != g->cur && ready(t)) c[n++] = t;
        return n ? D_SWITCH + c[r.below(n)] : 0;
    }
    }
    return 0;
}

void pick_and_leave() { // the current fiber cannot continue
    u32 seq = g->dseq++;
    int n = 0, c[MAXT];
    for (int t = 0; t < g->nf; ++t) if (t != g->cur && ready(t)) c[n++] = t;
    int to;
    if (!n) {
        to = soonest();
        if (to < 0) {
            if (g->model == 0) violation("progress", "deadlock: no thread can run");
            abort_run();
        }
        if (g->f[to].stall_until > g->out->steps) g->f[to].stall_until = 0;
    } else {
        u32 v;
        if (g->mode == M_REPLAY) v = replay_value(seq);
        else if (g->strat == S_PCT) {
            int best = c[0];
            for (int i = 1; i < n; ++i) if (g->f[c[i]].prio > g->f[best].prio) best = c[i];
            v = D_SWITCH + best;
        } else v = D_SWITCH + c[g->rng.below(n)];
        to = -1;
        if (v >= D_SWITCH && v < D_SWITCH + MAXT && ready(int(v - D_SWITCH)) && int(v - D_SWITCH) < g->nf && int(v - D_SWITCH) != g->cur)
            to = int(v - D_SWITCH);
        int dflt = next_rr(g->cur);
        if (to < 0) { to = dflt; v = 0; }
        if (to == dflt) v = 0;
        record(seq, v);
    }
    switch_to(to);
}

void sched_point(PointKind k) {
    Outcome& o = *g->out;
    o.steps++;
    if (o.steps > g->limit)
        violation("progress", "no progress: %llu simulated steps without the workload finishing (fair scheduling)", (unsigned long long)g->limit);
    if (g->nf <= 1) return;
    if (g->frozen_until > o.steps) return;
    u32 seq = g->dseq++;
    u32 v = g->mode == M_REPLAY ? replay_value(seq) : strategy_sched(k);
    if (v >= D_STALL && v < D_STALL + 6) {
        int to = next_rr(g->cur);
        if (to >= 0) {
            record(seq, v);
            g->f[g->cur].stall_until = o.steps + (16ull << (v - D_STALL));
            fault_fired(F_STALL);
            if (g->logbuf) sim::log("  ** FAULT: thread %d stalls for %u steps", g->cur, 16u << (v - D_STALL));
            switch_to(to);
        }
        return;
    }
    if (v >= D_SWITCH && v < D_SWITCH + MAXT) {
        int to = int(v - D_SWITCH);
        if (to < g->nf && to != g->cur && ready(to)) {
            record(seq, v);
            switch_to(to);
        }
    }
}

// fairness: a thread that keeps performing atomic operations that change
// nothing is spinning; let somebody else run
void note_change(bool changed) {
    Fiber& f = g->f[g->cur];
    if (changed) { f.spin = 0; g->frozen_until = 0; return; }
    if (++f.spin < 12) return;
    f.spin = 0;
    if (g->frozen_until > g->out->steps) return;
    if (g->nf > 1) { // whoever it waits for may not run for long: it must wait still
        u32 seq = g->dseq++, v;
        if (g->mode == M_REPLAY) v = replay_value(seq);
        else v = g->spin_on && g->rng.chance(1, 2) ? g->spin_on : 0;
        if (v >= 1000 && v <= 10000000) {
            record(seq, v);
            g->spin_on = 0;
            g->frozen_until = g->out->steps + v;
            g->limit += 2 * u64(v);
            fault_fired(F_FREEZE);
            if (g->logbuf) sim::log("  ** FAULT: nobody but thread %d runs for %u steps", g->cur, v);
            return;
        }
    }
    int to = next_rr(g->cur);
    if (to < 0) {
        to = -1;
        // everybody else is stalled: time passes
        for (int t = 0; t < g->nf; ++t)
            if (t != g->cur && runnable(t) && (to < 0 || g->f[t].stall_until < g->f[to].stall_until)) to = t;
        if (to < 0) return;
        g->f[to].stall_until = 0;
    }
    if (g->strat == S_PCT) f.prio -= 16;
    switch_to(to);
}

// ------------------------------------------------------------- race detection
Cell* shadow_cell(uptr a, bool create) {
    if (in_arena(a)) return &g->cells[(a - ARENA) >> 3];
    uptr key = a >> 3;
    u32 i = u32((key * 0x9E3779B97F4A7C15ull) >> 52);
    for (int n = 0; n < 4096; ++n, i = (i + 1) & 4095) {
        if (g->gkey[i] == key) return &g->gcells[i];
        if (!g->gkey[i]) {
            if (!create || g->ngused >= 3500) return nullptr;
            g->gkey[i] = key;
            g->gused[g->ngused++] = u16(i);
            memset(&g->gcells[i], 0, sizeof(Cell));
            return &g->gcells[i];
        }
    }
    return nullptr;
}

const char* where(uptr a, char* buf, size_t n) {
    if (in_arena(a)) {
        u16 b = g->cellblk[(a - ARENA) >> 3];
        if (b) {
            Block& k = g->blocks[b - 1];
            snprintf(buf, n, "block #%d (%zu bytes, %s) offset %td", b - 1, k.size, k.live ? "live" : "freed", ptrdiff_t(a - k.start));
        } else snprintf(buf, n, "unallocated heap");
    } else snprintf(buf, n, "static data");
    return buf;
}

void race_access(uptr a, u32 size, bool write, bool atomic, const char* what) {
    int t = g->cur;
    Fiber& me = g->f[t];
    u32 clk = me.vc.c[t];
    uptr end = a + size;
    for (uptr c = a & ~uptr(7); c < end; c += 8) {
        Cell* s = shadow_cell(c, true);
        if (!s) return;
        u32 lo = c < a ? u32(a - c) : 0, hi = c + 8 > end ? u32(end - c) : 8;
        u8 m = u8(((1u << hi) - 1) & ~((1u << lo) - 1));
        for (int u = 0; u < g->nf; ++u) {
            if (u == t) continue;
            u32 seen = me.vc.c[u];
            bool bad = ((s->mw[u] & m) && s->w[u] > seen);
            const char* other = "write";
            if (!bad && write) { bad = (s->mr[u] & m) && s->r[u] > seen; other = "read"; }
            if (!bad && !atomic) { bad = (s->maw[u] & m) && s->aw[u] > seen; other = "atomic write"; }
            if (!bad && !atomic && write) { bad = (s->mar[u] & m) && s->ar[u] > seen; other = "atomic read"; }
            if (bad) {
                char b[128];
                violation("race", "data race: %s%s by thread %d is unordered with an earlier %s by thread %d, at %s",
                    atomic ? "atomic " : "", what, t, other, u, where(c + lo, b, sizeof b));
            }
        }
        u32* ck = atomic ? (write ? s->aw : s->ar) : (write ? s->w : s->r);
        u8* mk = atomic ? (write ? s->maw : s->mar) : (write ? s->mw : s->mr);
        if (ck[t] == clk) mk[t] |= m;
        else { ck[t] = clk; mk[t] = m; }
    }
}

// ------------------------------------------------------------- memory checks
void heap_check(uptr a, u32 size, const char* what) {
    u16 b = g->cellblk[(a - ARENA) >> 3];
    char buf[128];
    if (!b) violation("mem", "invalid %s of %u bytes at %s", what, size, where(a, buf, sizeof buf));
    Block& k = g->blocks[b - 1];
    if (!k.live) violation("mem", "use after free: %s of %u bytes in %s, freed by thread %d", what, size, where(a, buf, sizeof buf), k.freed_by);
    if (a < k.start || a + size > k.start + k.size)
        violation("mem", "out of bounds %s of %u bytes at %s", what, size, where(a, buf, sizeof buf));
}

Loc* find_loc(uptr a) {
    for (int i = 0; i < g->nloc; ++i) if (g->locs[i].addr == a) return &g->locs[i];
    return nullptr;
}
void drop_locs(uptr a, size_t size) {
    for (int i = 0; i < g->nloc;) {
        Loc& l = g->locs[i];
        if (l.addr < a + size && a < l.addr + l.size) {
            if (in_arena(l.addr)) g->cellatom[(l.addr - ARENA) >> 3] = 0;
            if (i != g->nloc - 1) l = g->locs[g->nloc - 1];
            g->nloc--;
        } else ++i;
    }
}

inline bool data_addr(uptr a) { return a >= uptr(__data_start) && a < uptr(_end); }

void fuel() {
    if (++g->fuel > 20000000ull) violation("progress", "no progress: a loop does not end");
}

void plain(uptr a, u32 size, bool write, const char* what) {
    if (in_arena(a)) {
        // make the access visible as a step, then check it
        if (g->nf > 1) sched_point(PK_PLAIN);
        heap_check(a, size, what);
        if (write) {
            uptr e = a + size;
            for (uptr c = a & ~uptr(7); c < e; c += 8)
                if (g->cellatom[(c - ARENA) >> 3]) { 
                    if (g->nf > 1) race_access(a, size, true, false, what);
                    drop_locs(a, size);
                    g->f[g->cur].vc.c[g->cur]++;
                    return;
                }
        }
        if (g->nf > 1) {
            race_access(a, size, write, false, what);
            g->f[g->cur].vc.c[g->cur]++;
        }
    } else if (data_addr(a)) {
        fuel();
        if (g->nf > 1) {
            sched_point(PK_PLAIN);
            race_access(a, size, write, false, what);
            g->f[g->cur].vc.c[g->cur]++;
        }
        if (write && g->nloc) drop_locs(a, size);
    } else {
        if (a < 4096) violation("crash", "null pointer %s (address %#zx)", what, size_t(a));
        fuel();
    }
}

// ------------------------------------------------------------- atomics
enum { MO_RELAXED = 0, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
bool is_acq(int mo) { mo &= 7; return mo == MO_CONSUME || mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ_CST; }
bool is_rel(int mo) { mo &= 7; return mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST; }

template <typename T> u64 ld(const volatile void* p) { T v; v = *static_cast<const volatile T*>(p); return u64(v); }
template <typename T> void st(volatile void* p, u64 v) { *static_cast<volatile T*>(p) = T(v); }

Loc& get_loc(uptr a, u8 size, u64 cur) {
    Loc* l = find_loc(a);
    if (l && l->size == size && l->h[l->n - 1].val == cur) return *l;
    drop_locs(a, size);
    if (g->nloc >= MAXLOC) drop_locs(g->locs[0].addr, g->locs[0].size);
    l = &g->locs[g->nloc++];
    memset(l, 0, sizeof *l);
    l->addr = a;
    l->size = size;
    l->n = 1;
    l->h[0].val = cur;
    if (in_arena(a)) g->cellatom[(a - ARENA) >> 3] = 1;
    return *l;
}
void push_store(Loc& l, u64 val, const VC& sync) {
    if (l.n == HIST) { memmove(&l.h[0], &l.h[1], sizeof(Store) * (HIST - 1)); l.n--; }
    Store& s = l.h[l.n++];
    memset(&s, 0, sizeof s);
    s.val = val;
    s.sync = sync;
    s.tid = u8(g->cur);
    s.clk = g->f[g->cur].vc.c[g->cur];
    s.firstRead[g->cur] = s.clk;
}

void log_atomic(const char* op, uptr a, u64 before, u64 after, int mo) {
    static const char* const mos[] = {"relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst", "?", "?"};
    char b[128];
    sim::log("  t%d %s %s: %llu -> %llu [%s]", g->cur, op, where(a, b, sizeof b), (unsigned long long)before, (unsigned long long)after, mos[mo & 7]);
}
void hash_atomic(uptr a, u64 v) {
    u64 loc = in_arena(a) ? a - ARENA : 0xfffff;
    if (in_arena(v)) v -= ARENA; else if (v > 0xffffffffull) v = 7;
    hash_mix((u64(g->cur) << 56) ^ (loc << 32) ^ v);
}

void atomic_pre(uptr a, u32 size, const char* what) {
    sched_point(PK_ATOMIC);
    if (in_arena(a)) heap_check(a, size, what);
    else if (a < 4096) violation("crash", "null pointer %s (address %#zx)", what, size_t(a));
    if (a % size) violation("mem", "misaligned %s", what);
}

template <typename T> T sim_load(const volatile T* p, int mo) {
    uptr a = uptr(p);
    atomic_pre(a, sizeof(T), "atomic read");
    u64 cur = ld<T>(p);
    Fiber& f = g->f[g->cur];
    int t = g->cur;
    u64 val = cur;
    if (g->nf > 1) {
        race_access(a, sizeof(T), false, true, "read");
        Loc& l = get_loc(a, sizeof(T), cur);
        int idx = l.n - 1;
        if (g->weak && (mo & 7) != MO_SEQ_CST) {
            // oldest admissible entry
            int lo = idx;
            while (lo > 0) {
                const Store& s = l.h[lo]; // may we read something older than s?
                bool blocked = s.clk <= f.vc.c[s.tid];
                for (int u = 0; u < g->nf && !blocked; ++u)
                    blocked = s.firstRead[u] && s.firstRead[u] <= f.vc.c[u];
                if (blocked) break;
                --lo;
            }
            if (lo < idx) {
                u32 seq = g->dseq++;
                u32 v;
                if (g->mode == M_REPLAY) v = replay_value(seq);
                else v = (g->rng.next() & 0xffff) < g->p_stale ? 1 + g->rng.below(u32(idx - lo)) : 0;
                if (v > u32(idx - lo)) v = u32(idx - lo);
                record(seq, v);
                if (v) {
                    idx -= int(v);
                    fault_fired(F_STALE_LOAD);
                    if (g->logbuf) sim::log("  ** FAULT: thread %d reads a stale value", t);
                }
            }
        }
        Store& s = l.h[idx];
        val = s.val;
        if (!s.firstRead[t]) s.firstRead[t] = f.vc.c[t];
        if (is_acq(mo)) f.vc.join(s.sync); else f.acq_pend.join(s.sync);
    }
    hash_atomic(a, val);
    if (g->logbuf) log_atomic("load", a, cur, val, mo);
    f.vc.c[t]++;
    note_change(false);
    return T(val);
}

template <typename T> void sim_store(volatile T* p, T v, int mo) {
    uptr a = uptr(p);
    atomic_pre(a, sizeof(T), "atomic write");
    Fiber& f = g->f[g->cur];
    u64 cur = ld<T>(p);
    if (g->nf > 1) {
        race_access(a, sizeof(T), true, true, "write");
        Loc& l = get_loc(a, sizeof(T), cur);
        push_store(l, u64(v), is_rel(mo) ? f.vc : f.rel_fence);
    } else drop_locs(a, sizeof(T));
    st<T>(p, v);
    hash_atomic(a, v);
    if (g->logbuf) log_atomic("store", a, cur, v, mo);
    f.vc.c[g->cur]++;
    note_change(true);
}

template <typename T, typename F> T sim_rmw(volatile T* p, int mo, const char* name, F&& fn) {
    uptr a = uptr(p);
    atomic_pre(a, sizeof(T), "atomic update");
    Fiber& f = g->f[g->cur];
    T old = T(ld<T>(p));
    T nw = fn(old);
    if (g->nf > 1) {
        race_access(a, sizeof(T), true, true, "update");
        Loc& l = get_loc(a, sizeof(T), old);
        Store& prev = l.h[l.n - 1];
        if (!prev.firstRead[g->cur]) prev.firstRead[g->cur] = f.vc.c[g->cur];
        VC sync = prev.sync; // release sequence
        if (is_acq(mo)) f.vc.join(prev.sync); else f.acq_pend.join(prev.sync);
        sync.join(is_rel(mo) ? f.vc : f.rel_fence);
        push_store(l, u64(nw), sync);
    } else drop_locs(a, sizeof(T));
    st<T>(p, nw);
    hash_atomic(a, (u64(nw) << 1) ^ 1);
    if (g->logbuf) log_atomic(name, a, old, nw, mo);
    f.vc.c[g->cur]++;
    note_change(nw != old);
    return old;
}

template <typename T> T sim_cas(volatile T* p, T expected, T desired, int mo, int fmo, bool weak_cas, bool& ok) {
    uptr a = uptr(p);
    if (g->adv_left && a >= 4096 && ld<T>(p) == expected) { g->at_cas = a; g->adv_size = sizeof(T); }
    atomic_pre(a, sizeof(T), "atomic compare-exchange");
    g->at_cas = 0;
    Fiber& f = g->f[g->cur];
    T old = T(ld<T>(p));
    ok = old == expected;
    if (ok && weak_cas && g->burst_left && g->burst_by == g->cur) {
        g->burst_left--;
        ok = false;
        fault_fired(F_SPURIOUS_CAS);
    } else if (ok && weak_cas && g->nf >= 1) {
        u32 seq = g->dseq++;
        u32 v;
        if (g->mode == M_REPLAY) v = replay_value(seq);
        else if (g->burst && g->rng.chance(1, 3)) v = g->burst;
        else v = g->p_spur && (g->rng.next() & 0xffff) < g->p_spur;
        record(seq, v);
        if (v > 1) {
            g->burst = 0;
            g->burst_by = g->cur;
            g->burst_left = v - 1;
            g->limit += 8 * u64(v);
            fault_fired(F_CAS_BURST);
            if (g->logbuf) sim::log("  ** FAULT: weak compare-exchanges of thread %d fail spuriously %u times", g->cur, v);
            ok = false;
        } else if (v) {
            ok = false;
            fault_fired(F_SPURIOUS_CAS);
            if (g->logbuf) sim::log("  ** FAULT: weak compare-exchange fails spuriously");
        }
    }
    if (ok) {
        if (g->nf > 1) {
            race_access(a, sizeof(T), true, true, "update");
            Loc& l = get_loc(a, sizeof(T), old);
            Store& prev = l.h[l.n - 1];
            if (!prev.firstRead[g->cur]) prev.firstRead[g->cur] = f.vc.c[g->cur];
            VC sync = prev.sync;
            if (is_acq(mo)) f.vc.join(prev.sync); else f.acq_pend.join(prev.sync);
            sync.join(is_rel(mo) ? f.vc : f.rel_fence);
            push_store(l, u64(desired), sync);
        } else drop_locs(a, sizeof(T));
        st<T>(p, desired);
    } else if (g->nf > 1) {
        race_access(a, sizeof(T), false, true, "read");
        Loc& l = get_loc(a, sizeof(T), old);
        Store& s = l.h[l.n - 1];
        if (!s.firstRead[g->cur]) s.firstRead[g->cur] = f.vc.c[g->cur];
        if (is_acq(fmo)) f.vc.join(s.sync); else f.acq_pend.join(s.sync);
    }
    hash_atomic(a, (u64(old) << 2) ^ (ok ? 3 : 2));
    if (g->logbuf) log_atomic(ok ? "cas ok" : "cas failed", a, old, ok ? desired : old, ok ? mo : fmo);
    f.vc.c[g->cur]++;
    note_change(ok && desired != old);
    return old;
}

void sim_fence(int mo) {
    Fiber& f = g->f[g->cur];
    sched_point(PK_ATOMIC);
    if (is_acq(mo)) f.vc.join(f.acq_pend);
    if ((mo & 7) == MO_SEQ_CST) { f.vc.join(g->scvc); g->scvc.join(f.vc); }
    if (is_rel(mo)) f.rel_fence = f.vc;
    f.vc.c[g->cur]++;
}

inline bool on() { return g && g->active && !g->model; }

// ------------------------------------------------------------- heap
void* arena_alloc(size_t size, size_t align, bool aligned_api) {
    Fiber& f = g->f[g->cur];
    f.alloc_count++;
    if (f.alloc_cd && --f.alloc_cd == 0) {
        f.alloc_fired = true;
        fault_fired(F_ALLOC_FAIL);
        if (g->logbuf) sim::log("  ** FAULT: allocation of %zu bytes fails", size);
        return nullptr;
    }
    if (f.oom) {
        f.alloc_fired = true;
        if (g->logbuf) sim::log("  ** FAULT: out of memory: allocation of %zu bytes fails", size);
        return nullptr;
    }
    if (!size) size = 1;
    if (align < 8) align = 8;
    int id = -1;
    if (g->reuse && g->nfree) {
        for (int i = g->nfree - 1; i >= 0; --i) {
            Block& k = g->blocks[g->freelist[i]];
            if (k.size == size && k.start % align == 0) {
                id = g->freelist[i];
                for (int j = i; j + 1 < g->nfree; ++j) g->freelist[j] = g->freelist[j + 1];
                g->nfree--;
                fault_fired(F_ADDR_REUSE);
                break;
            }
        }
    }
    if (id < 0) {
        // aligned exactly as asked for and no better
        uptr p = (g->brk + 2 * align - 1) & ~uptr(2 * align - 1);
        p += align;
        uptr e = (p + size + 7) & ~uptr(7);
        if (e + 16 > ARENA + ARENA_SZ || g->nblocks >= MAXBLOCK) { // a run is never this big: a runaway
            violation("progress", "runaway allocation");
        }
        id = g->nblocks++;
        g->brk = e + 16;
        g->blocks[id].start = p;
        for (uptr c = p; c < p + size; c += 8) g->cellblk[(c - ARENA) >> 3] = u16(id + 1);
    }
    Block& k = g->blocks[id];
    k.size = size;
    k.align = align;
    k.live = true;
    k.aligned_api = aligned_api;
    uptr c0 = (k.start - ARENA) >> 3, c1 = (k.start + size - 1 - ARENA) >> 3;
    memset(&g->cells[c0], 0, sizeof(Cell) * (c1 - c0 + 1));
    memset(reinterpret_cast<void*>(k.start), 0xCD, size);
    if (g->logbuf) sim::log("  t%d alloc block #%d (%zu bytes, align %zu)", g->cur, id, size, align);
    return reinterpret_cast<void*>(k.start);
}

void arena_free(void* p, size_t size, size_t align, bool aligned_api) { // size/align 0: unknown
    uptr a = uptr(p);
    char buf[128];
    if (g->active) {
        u16 b = g->cellblk[(a - ARENA) >> 3];
        if (!b) violation("mem", "free of %s", where(a, buf, sizeof buf));
        Block& k = g->blocks[b - 1];
        if (a != k.start) violation("mem", "free of a pointer inside %s", where(a, buf, sizeof buf));
        if (!k.live) violation("mem", "double free of %s, first freed by thread %d", where(a, buf, sizeof buf), k.freed_by);
        if (size && size != k.size) violation("mem", "%s freed as %zu bytes", where(a, buf, sizeof buf), size);
        if (aligned_api != k.aligned_api) violation("mem", "%s freed with the wrong form of operator delete", where(a, buf, sizeof buf));
        if (aligned_api && align && (align < 8 ? 8 : align) != k.align) violation("mem", "%s freed with alignment %zu, allocated with %zu", where(a, buf, sizeof buf), align, k.align);
        if (!g->model && g->nf > 1) {
            sched_point(PK_PLAIN);
            if (!k.live) violation("mem", "double free of %s, first freed by thread %d", where(a, buf, sizeof buf), k.freed_by);
            race_access(k.start, u32(k.size), true, false, "deallocation");
            g->f[g->cur].vc.c[g->cur]++;
        }
        if (g->free_hook) {
            BlockInfo bi{k.start, k.size, k.align, true, u32(b - 1)};
            g->model++;
            g->free_hook(bi);
            g->model--;
        }
        k.live = false;
        k.freed_by = u8(g->cur);
        drop_locs(k.start, k.size);
        memset(p, 0xDD, k.size);
        hash_mix(0xF4EE + (b << 16));
        if (g->logbuf) sim::log("  t%d free block #%d", g->cur, b - 1);
        if (g->reuse) g->freelist[g->nfree++] = u16(b - 1);
    }
}

} // namespace

// ----------------------------------------------------------------- public API
namespace sim {

void fault_fired(Fault f) { if (g->active) g->out->faults[f]++; }
int tid() { return g->cur; }
uint64_t now() { return g->out->steps; }
bool weak_memory() { return g->weak; }
bool logging() { return g->logbuf != nullptr; }

void log(const char* fmt, ...) {
    if (!g->logbuf) return;
    char b[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    g->model++; // the log's own memory is not simulated
    char s[32];
    snprintf(s, sizeof s, "%6llu ", (unsigned long long)g->out->steps);
    g->logbuf->append(s).append(b).append("\n");
    g->model--;
}

void violation(const char* cls, const char* fmt, ...) {
    Outcome& o = *g->out;
    bool mine = !strcmp(cls, "crash") || !strcmp(cls, "harness");
    if (!mine && g->classes) {
        const char* p = g->classes;
        size_t n = strlen(cls);
        while ((p = strstr(p, cls))) {
            if ((p == g->classes || p[-1] == ',') && (p[n] == 0 || p[n] == ',')) { mine = true; break; }
            p += n;
        }
    }
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(o.msg, sizeof o.msg, fmt, ap);
    va_end(ap);
    snprintf(o.cls, sizeof o.cls, "%s", cls);
    if (mine) o.viol = true; else o.foreign = true;
    if (g->logbuf) sim::log("!! %s: %s: %s", mine ? "VIOLATION" : "(another property's violation)", o.cls, o.msg);
    abort_run();
}
void set_classes(const char* list) { g->classes = list; }

void op_begin(uint32_t i) {
    Fiber& f = g->f[g->cur];
    f.op = int(i);
    if (g->logbuf) {
        char d[256] = "";
        const Op& op = g->plan->ops[i];
        if (g->h->describe) { g->model++; g->h->describe(op, d, sizeof d); g->model--; }
        sim::log("t%d BEGIN op%u %s %s", g->cur, i, g->h->op_names[op.code], d);
    }
    hash_mix(0xB000 + i);
    f.in_op = false;
    sched_point(PK_OP);
    f.in_op = true;
}
void op_end() {
    Fiber& f = g->f[g->cur];
    f.in_op = false;
    f.alloc_cd = 0;
    if (g->logbuf) sim::log("t%d END", g->cur);
    f.op = -1;
}

void arm_alloc_fail(uint32_t n) {
    Fiber& f = g->f[g->cur];
    f.alloc_cd = n;
    f.alloc_fired = false;
    f.alloc_count = 0;
}
OutOfMemory::OutOfMemory(bool on) {
    Fiber& f = g->f[g->cur];
    saved = f.oom;
    f.oom = on;
    if (on && !saved) fault_fired(F_NO_MEMORY);
}
OutOfMemory::~OutOfMemory() { g->f[g->cur].oom = saved; }
bool alloc_fail_fired() { return g->f[g->cur].alloc_fired; }
uint32_t allocs_since_arm() { return g->f[g->cur].alloc_count; }

bool in_heap(const void* p) { return in_arena(uptr(p)); }
bool block_of(const void* p, BlockInfo& out) {
    if (!in_arena(uptr(p))) return false;
    u16 b = g->cellblk[(uptr(p) - ARENA) >> 3];
    if (!b) return false;
    Block& k = g->blocks[b - 1];
    out = {k.start, k.size, k.align, k.live, u32(b - 1)};
    return true;
}
uint32_t live_blocks(size_t* bytes) {
    u32 n = 0;
    size_t s = 0;
    for (int i = 0; i < g->nblocks; ++i) if (g->blocks[i].live) { n++; s += g->blocks[i].size; }
    if (bytes) *bytes = s;
    return n;
}
void list_live(char* out, size_t n) {
    size_t at = 0;
    out[0] = 0;
    for (int i = 0; i < g->nblocks && at + 40 < n; ++i)
        if (g->blocks[i].live) at += size_t(snprintf(out + at, n - at, " #%d(%zuB)", i, g->blocks[i].size));
}
void set_free_hook(FreeHook h) { g->free_hook = h; }

ModelScope::ModelScope() { g->model++; }
ModelScope::~ModelScope() { g->model--; }

void* scratch(size_t n) {
    static constexpr size_t CAP = 4u << 20;
    if (n > CAP) violation("harness", "scratch too small");
    return g->scratch;
}

void probe_hit(int id) { g->run_probes[id]++; }

void Mutex::lock() {
    sched_point(PK_ATOMIC);
    while (owner >= 0) {
        g->f[g->cur].st = BLOCK_MTX;
        g->f[g->cur].waiting = this;
        pick_and_leave();
    }
    owner = g->cur;
    VC v;
    memcpy(v.c, vc, sizeof vc);
    g->f[g->cur].vc.join(v);
    hash_mix(0x10C4);
}
void Mutex::unlock() {
    Fiber& f = g->f[g->cur];
    memcpy(vc, f.vc.c, sizeof vc);
    f.vc.c[g->cur]++;
    owner = -1;
    for (int t = 0; t < g->nf; ++t)
        if (g->f[t].st == BLOCK_MTX && g->f[t].waiting == this) g->f[t].st = RUN;
    f.spin = 0;
}

static void fiber_body(int t);
extern "C" void sim_fiber_entry() {
    fiber_body(g->cur);
    __builtin_trap();
}

static void init_fiber(int t, Fn fn) {
    Fiber& f = g->f[t];
    char* tls = f.tls;
    memset(&f, 0, sizeof f);
    f.tls = tls;
    if (g->tls_sz) memcpy(f.tls, g->tls_init, g->tls_sz);
    f.fn = fn;
    f.st = RUN;
    f.op = -1;
    f.vc.c[t] = 1;
    char* base = reinterpret_cast<char*>(STACKS + size_t(t) * STACK_SZ);
    memset(base + STACK_SZ - 24 * 1024, 0, 24 * 1024);
    void** sp = reinterpret_cast<void**>(base + STACK_SZ - 64);
    // stack as sim_switch pops it: r15 r14 r13 r12 rbx rbp ret
    *--sp = nullptr;
    *--sp = nullptr;
    *--sp = reinterpret_cast<void*>(&sim_entry_thunk); // ret
    *--sp = nullptr; // rbp
    *--sp = nullptr; // rbx
    *--sp = reinterpret_cast<void*>(&sim_fiber_entry); // r12
    *--sp = nullptr;
    *--sp = nullptr;
    *--sp = nullptr;
    f.sp = sp;
}

static void fiber_body(int t) {
    Fiber& f = g->f[t];
    try {
        f.fn(t);
    } catch (...) {
        violation("crash", "an exception escaped from a thread");
    }
    if (t == 0) abort_run(); // the run is over
    f.st = DONE;
    f.in_op = false;
    bool all = true;
    for (int u = 1; u < g->nf; ++u) all = all && g->f[u].st == DONE;
    if (all && g->f[0].st == BLOCK_JOIN) {
        g->f[0].st = RUN;
        for (int u = 1; u < g->nf; ++u) g->f[0].vc.join(g->f[u].vc);
    }
    pick_and_leave();
    __builtin_trap();
}

void spawn_and_join(int n, Fn fn) {
    Fiber& m = g->f[0];
    m.vc.c[0]++;
    for (int t = 1; t <= n; ++t) {
        init_fiber(t, fn);
        u32 own = g->f[t].vc.c[t];
        g->f[t].vc = m.vc;
        g->f[t].vc.c[t] = own;
        g->f[t].prio = 1000 + int(g->mode == M_RANDOM ? g->rng.below(1000) : 0);
    }
    m.vc.c[0]++;
    g->nf = n + 1;
    m.st = BLOCK_JOIN;
    pick_and_leave();
    for (int t = 1; t <= n; ++t) g->f[t].st = FREE_;
    g->nf = 1;
    g->f[0].vc.c[0]++;
    for (int i = 0; i < g->nloc; ++i)
        if (in_arena(g->locs[i].addr)) g->cellatom[(g->locs[i].addr - ARENA) >> 3] = 0;
    g->nloc = 0;
}

} // namespace sim

// ----------------------------------------------------------------- __tsan_*
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { if (on()) plain(uptr(p), n, false, "read"); } \
    void __tsan_write##n(void* p) { if (on()) plain(uptr(p), n, true, "write"); } \
    void __tsan_unaligned_read##n(void* p) { if (on()) plain(uptr(p), n, false, "read"); } \
    void __tsan_unaligned_write##n(void* p) { if (on()) plain(uptr(p), n, true, "write"); } \
    void __tsan_read##n##_pc(void* p, void*) { if (on()) plain(uptr(p), n, false, "read"); } \
    void __tsan_write##n##_pc(void* p, void*) { if (on()) plain(uptr(p), n, true, "write"); } \
    void __tsan_volatile_read##n(void* p) { if (on()) plain(uptr(p), n, false, "read"); } \
    void __tsan_volatile_write##n(void* p) { if (on()) plain(uptr(p), n, true, "write"); } \
    void __tsan_read_write##n(void* p) { if (on()) { plain(uptr(p), n, false, "read"); plain(uptr(p), n, true, "write"); } } \
    void __tsan_unaligned_read_write##n(void* p) { if (on()) { plain(uptr(p), n, false, "read"); plain(uptr(p), n, true, "write"); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (on() && n) plain(uptr(p), u32(n), false, "read"); }
void __tsan_write_range(void* p, unsigned long n) { if (on() && n) plain(uptr(p), u32(n), true, "write"); }
void __tsan_vptr_update(void** p, void*) { if (on()) plain(uptr(p), 8, true, "write of the virtual table pointer"); }
void __tsan_vptr_read(void** p) { if (on()) plain(uptr(p), 8, false, "read of the virtual table pointer"); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
    if (on() && n) { plain(uptr(s), u32(n), false, "read"); plain(uptr(d), u32(n), true, "write"); }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
    if (on() && n) { plain(uptr(s), u32(n), false, "read"); plain(uptr(d), u32(n), true, "write"); }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) {
    if (on() && n) plain(uptr(d), u32(n), true, "write");
    return memset(d, c, n);
}
void __tsan_atomic_thread_fence(int mo) { if (on()) sim_fence(mo); else __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { if (on()) return sim_load<T>(p, mo); return *p; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { if (on()) sim_store<T>(p, v, mo); else *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { \
        if (on()) return sim_rmw<T>(p, mo, "exchange", [=](T) { return v; }); \
        T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { \
        if (on()) return sim_rmw<T>(p, mo, "fetch_add", [=](T o) { return T(o + v); }); \
        T o = *p; *p = T(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { \
        if (on()) return sim_rmw<T>(p, mo, "fetch_sub", [=](T o) { return T(o - v); }); \
        T o = *p; *p = T(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { \
        if (on()) return sim_rmw<T>(p, mo, "fetch_and", [=](T o) { return T(o & v); }); \
        T o = *p; *p = T(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { \
        if (on()) return sim_rmw<T>(p, mo, "fetch_or", [=](T o) { return T(o | v); }); \
        T o = *p; *p = T(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { \
        if (on()) return sim_rmw<T>(p, mo, "fetch_xor", [=](T o) { return T(o ^ v); }); \
        T o = *p; *p = T(o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { \
        if (on()) return sim_rmw<T>(p, mo, "fetch_nand", [=](T o) { return T(~(o & v)); }); \
        T o = *p; *p = T(~(o & v)); return o; } \
    static T cas##bits(volatile T* p, T e, T d, int mo, int fmo, bool weak, bool& ok) { \
        if (on()) return sim_cas<T>(p, e, d, mo, fmo, weak, ok); \
        T o = *p; ok = o == e; if (ok) *p = d; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { \
        bool ok; T o = cas##bits(p, *e, d, mo, fmo, false, ok); if (!ok) *e = o; return ok; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { \
        bool ok; T o = cas##bits(p, *e, d, mo, fmo, true, ok); if (!ok) *e = o; return ok; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { \
        bool ok; return cas##bits(p, e, d, mo, fmo, false, ok); }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
} // extern "C"

// ----------------------------------------------------------------- heap
extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" void* __real_aligned_alloc(size_t, size_t);
static void* heap_new(size_t n, size_t al, bool aligned_api, bool nothrow) {
    if (g && g->active && !g->model) {
        void* p = arena_alloc(n, al, aligned_api);
        if (!p && !nothrow) throw std::bad_alloc();
        return p;
    }
    void* p = aligned_api ? __real_aligned_alloc(al < 8 ? 8 : al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void heap_delete(void* p, size_t n, size_t al, bool aligned_api) {
    if (!p) return;
    if (in_arena(uptr(p))) arena_free(p, n, al, aligned_api);
    else if (g && g->active && !g->model && (uptr(p) < 4096 || uptr(p) - STACKS < MAXT * STACK_SZ || data_addr(uptr(p))))
        violation("mem", "free of memory that is not on the heap");
    else __real_free(p);
}
// not used by the code today; linked with --wrap, so that calls from libraries stay what they are
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
static bool simulated_heap() { return g && g->active && !g->model; }
void* __wrap_malloc(size_t n) { return simulated_heap() ? arena_alloc(n, 16, false) : __real_malloc(n); }
void __wrap_free(void* p) {
    if (simulated_heap() || in_arena(uptr(p))) heap_delete(p, 0, 0, false);
    else __real_free(p);
}
void* __wrap_calloc(size_t a, size_t b) {
    if (!simulated_heap()) return __real_calloc(a, b);
    void* p = arena_alloc(a * b, 16, false);
    if (p) __tsan_memset(p, 0, a * b);
    return p;
}
void* __wrap_aligned_alloc(size_t a, size_t n) { return simulated_heap() ? arena_alloc(n, a, false) : __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void** r, size_t a, size_t n) {
    if (!simulated_heap()) return __real_posix_memalign(r, a, n);
    void* p = arena_alloc(n, a, false);
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}
}
void* operator new(size_t n) { return heap_new(n, 16, false, false); }
void* operator new[](size_t n) { return heap_new(n, 16, false, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap_new(n, 16, false, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap_new(n, 16, false, true); }
void* operator new(size_t n, std::align_val_t a) { return heap_new(n, size_t(a), true, false); }
void* operator new[](size_t n, std::align_val_t a) { return heap_new(n, size_t(a), true, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return heap_new(n, size_t(a), true, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return heap_new(n, size_t(a), true, true); }
void operator delete(void* p) noexcept { heap_delete(p, 0, 0, false); }
void operator delete[](void* p) noexcept { heap_delete(p, 0, 0, false); }
void operator delete(void* p, size_t n) noexcept { heap_delete(p, n, 0, false); }
void operator delete[](void* p, size_t n) noexcept { heap_delete(p, n, 0, false); }
void operator delete(void* p, std::align_val_t a) noexcept { heap_delete(p, 0, size_t(a), true); }
void operator delete[](void* p, std::align_val_t a) noexcept { heap_delete(p, 0, size_t(a), true); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { heap_delete(p, n, size_t(a), true); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { heap_delete(p, n, size_t(a), true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap_delete(p, 0, 0, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_delete(p, 0, 0, false); }
void operator delete(void* p, std::align_val_t a, const std::nothrow_t&) noexcept { heap_delete(p, 0, size_t(a), true); }
void operator delete[](void* p, std::align_val_t a, const std::nothrow_t&) noexcept { heap_delete(p, 0, size_t(a), true); }

// ------------------------------- libc calls that code under test might make
// (std::mutex, std::this_thread::yield/sleep_for in some future version of it)
static bool from_exe(void* ra) { return uptr(ra) >= uptr(__executable_start) && uptr(ra) < uptr(etext); }
#define SIMULATED() (on() && from_exe(__builtin_return_address(0)))
namespace {
struct PM { const void* m; int owner; u32 depth; VC vc; };
PM* pm_find(const void* m) {
    // kept outside the simulated heap, reset with every run through the snapshot
    static PM tab[256];
    for (auto& e : tab) if (e.m == m) return &e;
    for (auto& e : tab) if (!e.m) { memset(&e, 0, sizeof e); e.m = m; e.owner = -1; return &e; }
    violation("harness", "too many mutexes");
}
bool pm_lock(const void* m, bool tryonly, bool recursive = false) {
    sched_point(PK_ATOMIC);
    PM* p = pm_find(m);
    while (p->owner >= 0) {
        if (recursive && p->owner == g->cur) { p->depth++; return true; }
        if (tryonly) { note_change(false); return false; }
        if (p->owner == g->cur) violation("progress", "deadlock: a thread locks a mutex it already holds");
        g->f[g->cur].st = BLOCK_MTX;
        g->f[g->cur].waiting = m;
        pick_and_leave();
        p = pm_find(m);
    }
    p->owner = g->cur;
    g->f[g->cur].vc.join(p->vc);
    hash_mix(0x10C5);
    return true;
}
void pm_unlock(const void* m) {
    PM* p = pm_find(m);
    if (p->depth) { p->depth--; return; }
    Fiber& f = g->f[g->cur];
    p->vc = f.vc;
    f.vc.c[g->cur]++;
    p->owner = -1;
    f.spin = 0;
    for (int t = 0; t < g->nf; ++t)
        if (g->f[t].st == BLOCK_MTX && g->f[t].waiting == m) g->f[t].st = RUN;
}
void sim_yield() {
    sched_point(PK_ATOMIC);
    if (g->frozen_until > g->out->steps) return;
    int to = next_rr(g->cur);
    if (to >= 0) switch_to(to);
}
void sim_sleep(u64 ns) {
    u64 st = ns / 1000 + 1;
    if (st > 1000) st = 1000;
    g->f[g->cur].stall_until = g->out->steps + st;
    sim_yield();
}
// a decision about the environment: 0 as a rule
u32 draw(u32 prob, u32 max) {
    u32 seq = g->dseq++;
    u32 v = g->mode == M_REPLAY ? replay_value(seq) : (g->rng.next() & 0xffff) < prob ? 1 + u32(g->rng.below(max)) : 0;
    record(seq, v);
    return v;
}
// time: 100 ns for a step, and sometimes much more while the thread does not run. The wall clock may be set back.
u64 sim_now(bool wall) {
    sched_point(PK_ATOMIC);
    u32 v = draw(g->p_jump, 5);
    if (v) {
        static const u64 by[] = {1000, 1000000, 100000000, 10000000000ull, 3600000000000ull};
        fault_fired(F_CLOCK_JUMP);
        if (wall && v == 5) g->clock_off -= by[4];
        else g->clock_off += by[v - 1];
        if (g->logbuf) sim::log("  ** FAULT: the clock is %llu ns later", (unsigned long long)by[v - 1]);
    }
    return 1000000000000000ull + g->out->steps * 100 + g->clock_off;
}
bool recursive(const pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
void cond_wait(const void* c, pthread_mutex_t* m) {
    sched_point(PK_ATOMIC);
    pm_unlock(m);
    g->f[g->cur].st = BLOCK_MTX;
    g->f[g->cur].waiting = c;
    pick_and_leave();
    pm_lock(m, false, recursive(m));
}
void cond_wake(const void* c, bool all) {
    sched_point(PK_ATOMIC);
    for (int t = 0; t < g->nf; ++t)
        if (g->f[t].st == BLOCK_MTX && g->f[t].waiting == c) { g->f[t].st = RUN; if (!all) break; }
}
bool pm_timedlock(const void* m, bool rec) {
    sched_point(PK_ATOMIC);
    PM* p = pm_find(m);
    if (p->owner >= 0 && !(rec && p->owner == g->cur) && (p->owner == g->cur || draw(16000, 1))) {
        fault_fired(F_LOCK_TIMEOUT);
        g->clock_off += 1000000000;
        return false;
    }
    return pm_lock(m, false, rec);
}
template <typename F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (SIMULATED()) { pm_lock(m, false, recursive(m)); return 0; }
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    return r(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (SIMULATED()) return pm_lock(m, true, recursive(m)) ? 0 : EBUSY;
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    return r(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (SIMULATED()) { pm_unlock(m); return 0; }
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    return r(m);
}
// readers exclude each other here: fewer interleavings, none that cannot happen
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    if (SIMULATED()) { pm_lock(m, false); return 0; }
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
    return r(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    if (SIMULATED()) { pm_lock(m, false); return 0; }
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
    return r(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept {
    if (SIMULATED()) return pm_lock(m, true) ? 0 : EBUSY;
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
    return r(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept {
    if (SIMULATED()) return pm_lock(m, true) ? 0 : EBUSY;
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
    return r(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    if (SIMULATED()) { pm_unlock(m); return 0; }
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
    return r(m);
}
// what libstdc++ tells ThreadSanitizer about the lock inside std::atomic<std::shared_ptr>:
// happens-before only, the lock itself is simulated like any other atomic
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void* m, unsigned fl, int) {
    if (on() && !(fl & (1u << 5))) g->f[g->cur].vc.join(pm_find(m)->vc);
}
int __tsan_mutex_pre_unlock(void* m, unsigned) {
    if (on()) {
        Fiber& f = g->f[g->cur];
        pm_find(m)->vc.join(f.vc);
        f.vc.c[g->cur]++;
    }
    return 0;
}
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
// local statics: the first thread to get there initialises, the others wait
int __cxa_guard_acquire(long long* gp) {
    auto b = reinterpret_cast<volatile u8*>(gp);
    if (!on()) {
        if (b[0]) return 0;
        b[1] = 1;
        return 1;
    }
    if (sim_load<u8>(b, 2)) return 0;
    pm_lock(gp, false);
    if (!b[0]) return 1;
    pm_unlock(gp);
    return 0;
}
void __cxa_guard_release(long long* gp) {
    auto b = reinterpret_cast<volatile u8*>(gp);
    if (!on()) { b[0] = 1; b[1] = 0; return; }
    sim_store<u8>(b, 1, 3);
    pm_unlock(gp);
}
void __cxa_guard_abort(long long* gp) {
    if (on()) pm_unlock(gp);
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
    if (SIMULATED()) {
        auto w = reinterpret_cast<volatile u32*>(o);
        if (sim_load<u32>(w, 2)) return 0;
        pm_lock(o, false);
        if (!*w) {
            try { fn(); } catch (...) { pm_unlock(o); throw; }
            sim_store<u32>(w, 2, 3);
        }
        pm_unlock(o);
        return 0;
    }
    static auto r = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
    return r(o, fn);
}
int sched_yield() noexcept {
    if (SIMULATED()) { sim_yield(); return 0; }
    static auto r = real<int (*)()>("sched_yield");
    return r();
}
int nanosleep(const struct timespec* t, struct timespec* rem) {
    if (SIMULATED()) { sim_sleep(u64(t->tv_sec) * 1000000000ull + u64(t->tv_nsec)); return 0; }
    static auto r = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
    return r(t, rem);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* rem) {
    if (SIMULATED()) { sim_sleep(1000); return 0; }
    static auto r = real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep");
    return r(c, fl, t, rem);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) noexcept {
    if (SIMULATED()) return pm_timedlock(m, recursive(m)) ? 0 : ETIMEDOUT;
    static auto r = real<int (*)(pthread_mutex_t*, const struct timespec*)>("pthread_mutex_timedlock");
    return r(m, t);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) noexcept {
    if (SIMULATED()) return pm_timedlock(m, recursive(m)) ? 0 : ETIMEDOUT;
    static auto r = real<int (*)(pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_mutex_clocklock");
    return r(m, c, t);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (on()) { cond_wait(c, m); return 0; }
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    return r(c, m);
}
static int cond_timed(pthread_mutex_t* m) { // wakes up for no reason, or because the time is over
    pm_unlock(m);
    sim_sleep(1000000);
    bool over = draw(30000, 1);
    if (over) { fault_fired(F_LOCK_TIMEOUT); g->clock_off += 1000000000; }
    pm_lock(m, false, recursive(m));
    return over ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    if (on()) return cond_timed(m);
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
    return r(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    if (on()) return cond_timed(m);
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
    return r(c, m, k, t);
}
// std::atomic::wait and notify in C++20
long syscall(long nr, ...) noexcept {
    va_list l;
    va_start(l, nr);
    long a[6];
    for (long& x : a) x = va_arg(l, long);
    va_end(l);
    if (nr == SYS_futex && SIMULATED()) {
        const int* at = reinterpret_cast<const int*>(a[0]);
        int op = int(a[1]) & 127;
        if (op == FUTEX_WAKE) {
            sched_point(PK_ATOMIC);
            for (int t = 0; t < g->nf && a[2] > 0; ++t)
                if (g->f[t].st == BLOCK_MTX && g->f[t].waiting == at) { g->f[t].st = RUN; --a[2]; }
            return 0;
        }
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sched_point(PK_ATOMIC);
            if (*at != int(a[2])) { errno = EAGAIN; return -1; }
            if (a[3]) { // with a time limit: it may be over at any moment
                sim_sleep(1000000);
                errno = ETIMEDOUT;
                return -1;
            }
            g->f[g->cur].st = BLOCK_MTX;
            g->f[g->cur].waiting = at;
            pick_and_leave();
            return 0;
        }
    }
    static auto r = real<long (*)(long, ...)>("syscall");
    return r(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (on()) { cond_wake(c, false); return 0; }
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    return r(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (on()) { cond_wake(c, true); return 0; }
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    return r(c);
}
// std::chrono's clocks end up here too
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
    if (on()) {
        u64 n = sim_now(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE);
        t->tv_sec = time_t(n / 1000000000);
        t->tv_nsec = long(n % 1000000000);
        return 0;
    }
    static auto r = real<int (*)(clockid_t, struct timespec*)>("clock_gettime");
    return r(c, t);
}
int gettimeofday(struct timeval* t, void*) noexcept {
    timespec n;
    clock_gettime(CLOCK_REALTIME, &n);
    t->tv_sec = n.tv_sec;
    t->tv_usec = n.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) noexcept {
    timespec n;
    clock_gettime(CLOCK_REALTIME, &n);
    if (t) *t = n.tv_sec;
    return n.tv_sec;
}
// identity of threads and processors
pthread_t pthread_self() noexcept {
    static auto r = real<pthread_t (*)()>("pthread_self");
    static pthread_t me = r();
    return SIMULATED() ? me + pthread_t(g->cur) * 4096 : me;
}
int rand() noexcept {
    if (on()) {
        u64 x = (g->out->steps + 1) * 0x9E3779B97F4A7C15ull + u64(g->cur) * 0xBF58476D1CE4E5B9ull;
        return int((x ^ x >> 29) * 0x94D049BB133111EBull >> 33);
    }
    static auto r = real<int (*)()>("rand");
    return r();
}
int sched_getcpu() noexcept {
    if (on()) return g->cur;
    static auto r = real<int (*)()>("sched_getcpu");
    return r();
}
int usleep(useconds_t us) {
    if (SIMULATED()) { sim_sleep(u64(us) * 1000); return 0; }
    static auto r = real<int (*)(useconds_t)>("usleep");
    return r(us);
}
}

// ----------------------------------------------------------------- driver
namespace {

void handler(int sig) {
    if (g && g->active) {
        // leave the signal frame: we run on the alternate stack
        sigset_t s;
        sigemptyset(&s);
        sigaddset(&s, sig);
        sigprocmask(SIG_UNBLOCK, &s, nullptr);
        int in_model = g->model;
        violation(in_model ? "harness" : "crash", "%s (signal %d)%s", sig == SIGSEGV || sig == SIGBUS ? "invalid memory access" : sig == SIGFPE ? "arithmetic fault" : sig == SIGABRT ? "abort" : "trap", sig, in_model ? " in the harness" : "");
    }
    signal(sig, SIG_DFL);
    raise(sig);
}
// a loop without a single instrumented access: CPU time passes, simulated time does not
void watchdog(int sig) {
    static u64 last[3];
    if (!g || !g->active || g->model) return;
    u64 now[3] = {g->tot_runs, g->out->steps, g->fuel};
    bool same = !memcmp(now, last, sizeof now);
    memcpy(last, now, sizeof now);
    if (!same) return;
    sigset_t s;
    sigemptyset(&s);
    sigaddset(&s, sig);
    sigprocmask(SIG_UNBLOCK, &s, nullptr);
    violation("progress", "no progress: a loop does not end");
}
void start_watchdog() {
    itimerval tick{{3, 0}, {3, 0}};
    setitimer(ITIMER_VIRTUAL, &tick, nullptr);
}
[[noreturn]] void on_terminate() {
    if (g && g->active) violation("crash", "std::terminate was called (an exception could not propagate)");
    abort();
}

void snapshot_take() {
    g->snap_at = __data_start;
    g->snap_sz = size_t(_end - __data_start);
    g->snap = static_cast<char*>(malloc(g->snap_sz));
    memcpy(g->snap, g->snap_at, g->snap_sz);
    // TLS image of the executable
    auto cb = [](dl_phdr_info* i, size_t, void*) -> int {
        for (int k = 0; k < i->dlpi_phnum; ++k)
            if (i->dlpi_phdr[k].p_type == PT_TLS) {
                g->tls_at = static_cast<char*>(i->dlpi_tls_data);
                g->tls_sz = i->dlpi_phdr[k].p_memsz;
            }
        return 1; // the executable comes first
    };
    dl_iterate_phdr(cb, nullptr);
    if (!g->tls_at) g->tls_sz = 0;
    if (g->tls_sz) {
        g->tls_init = static_cast<char*>(malloc(g->tls_sz));
        memcpy(g->tls_init, g->tls_at, g->tls_sz);
        for (auto& f : g->f) f.tls = static_cast<char*>(malloc(g->tls_sz));
    }
}
void snapshot_restore() {
    memcpy(g->snap_at, g->snap, g->snap_sz);
    if (g->tls_sz) memcpy(g->tls_at, g->tls_init, g->tls_sz);
}

void main_fiber(int) {
    g->h->run(g->profile, *g->plan);
}

void setup_strategy(u64 seed, const Plan& plan) {
    g->rng = Rng(seed ^ 0xA5A5F00DD00DF5A5ull);
    Rng& r = g->rng;
    u32 k = r.below(10);
    g->strat = k < 5 ? S_RAND : k < 7 ? S_PCT : S_FEW;
    static const u32 ps[] = {1200, 3000, 6500, 13000, 26000, 40000};
    g->p_switch = ps[r.below(6)];
    g->p_plain = r.chance(1, 2) ? 0 : g->p_switch / (1 + r.below(8));
    g->p_opb = r.chance(1, 3) ? 6000 : r.chance(1, 2) ? 30000 : 60000;
    g->p_stall = r.chance(1, 3) ? 200 + r.below(1500) : 0;
    g->p_spur = r.chance(1, 3) ? 4000 + r.below(24000) : 0;
    g->weak = r.chance(1, 2);
    g->p_stale = g->weak ? 8000 + r.below(40000) : 0;
    static const u32 bursts[] = {20, 70, 130, 300, 1100, 1100, 10500, 110000};
    g->burst = r.chance(1, 60) ? bursts[r.below(r.chance(1, 10) ? 8 : 6)] : 0;
    g->adv_left = r.chance(1, 25) ? 3 + int(r.below(r.chance(1, 8) ? 1100 : 140)) : 0;
    { static const u32 js[] = {0, 0, 600, 6000, 30000}; g->p_jump = js[(seed * 0x9E3779B97F4A7C15ull >> 33) % 5]; }
    g->spin_on = r.chance(1, 250) ? 135000 : r.chance(1, 8000) ? 1200000 : 0;
    u32 len = 30 + u32(plan.ops.size()) * (10 + r.below(40));
    g->nfew = 1 + int(r.below(g->strat == S_PCT ? 6 : 4));
    for (int i = 0; i < g->nfew; ++i) g->few[i] = r.below(len);
}

// one execution; everything it can observe is reset first
void run_once(const Plan& plan, Mode mode, u64 seed, const Dec* dec, u32 ndec, bool weak_cfg, Outcome& o) {
    snapshot_restore();
    o.viol = o.foreign = o.truncated = false;
    o.cls[0] = o.msg[0] = 0;
    o.hash = 0x1234567;
    o.steps = 0;
    o.switches = o.preempts = 0;
    memset(o.faults, 0, sizeof o.faults);
    o.ndec = 0;
    g->out = &o;
    g->plan = &plan;
    g->mode = mode;
    g->dseq = 0;
    g->ri = 0;
    g->rdec = dec;
    g->rn = ndec;
    g->strat = S_RAND;
    g->p_stall = g->p_spur = g->p_stale = 0;
    g->p_jump = 0;
    g->clock_off = 0;
    g->spin_on = 0;
    g->frozen_until = 0;
    g->burst = g->burst_left = 0;
    g->adv_left = g->adv_wait = 0;
    g->adv_by = -1;
    g->at_cas = 0;
    if (mode == M_RANDOM) setup_strategy(seed, plan);
    else g->weak = weak_cfg;
    g->limit = 40000 + plan.ops.size() * 400;
    g->fuel = 0;
    // heap
    size_t used = (g->brk - ARENA + 7) / 8;
    if (used > NCELL) used = NCELL;
    memset(g->cellblk, 0, used * sizeof(u16));
    memset(g->cellatom, 0, used);
    g->brk = ARENA + 64;
    g->nblocks = 0;
    g->nfree = 0;
    g->reuse = plan.cfg[CFG_REUSE];
    for (int i = 0; i < g->ngused; ++i) g->gkey[g->gused[i]] = 0;
    g->ngused = 0;
    g->nloc = 0;
    memset(&g->scvc, 0, sizeof g->scvc);
    memset(g->run_probes, 0, sizeof g->run_probes);
    g->classes = nullptr;
    g->free_hook = nullptr;
    g->model = 0;
    g->nf = 1;
    g->cur = 0;
    for (int t = 0; t < MAXT; ++t) g->f[t].st = FREE_;
    init_fiber(0, main_fiber);
    g->active = true;
    *eh_globals() = EH{nullptr, 0};
    sim_switch(&g->native_sp, g->f[0].sp);
    g->active = false;
    g->model = 0;
    snapshot_restore();
    g->tot_runs++;
    g->tot_steps += o.steps;
    g->tot_switch += o.switches;
    g->tot_preempt += o.preempts;
    g->tot_foreign += o.foreign;
    g->tot_trunc += o.truncated;
    for (int i = 0; i < NFAULTS; ++i) { g->tot_faults[i] += o.faults[i]; g->runs_fault[i] += o.faults[i] != 0; }
    for (int i = 0; i < g->h->n_probes; ++i) { g->probes[i] += g->run_probes[i]; g->runs_probe[i] += g->run_probes[i] != 0; }
}

u64 mixseed(u64 base, u64 idx) {
    Rng r(base * 0x9E3779B97F4A7C15ull + 0x1234);
    u64 a = r.next();
    Rng q(a ^ (idx * 0xD1B54A32D192ED03ull));
    q.next();
    return q.next();
}
void make_plan(u64 seed, Plan& p) {
    p = Plan();
    Rng r(seed);
    g->h->gen(g->profile, r, p);
    p.cfg[CFG_REUSE] = r.chance(2, 5);
}

// ---- replay file: text, one item per line
std::string plan_text(const Plan& p) {
    std::string s;
    char b[256];
    snprintf(b, sizeof b, "threads %d\ncfg", p.nthr);
    s += b;
    for (int i = 0; i < 15; ++i) { snprintf(b, sizeof b, " %d", p.cfg[i]); s += b; }
    s += "\n";
    for (auto& o : p.ops) {
        char d[256] = "";
        if (g->h->describe) g->h->describe(o, d, sizeof d);
        snprintf(b, sizeof b, "op %d %d %d %d %d %d %d %d  # t%d %s %s\n", o.thr, o.code, o.a, o.b, o.c, o.d, o.fault, o.farg,
            o.thr, o.code < g->h->n_ops ? g->h->op_names[o.code] : "?", d);
        s += b;
    }
    return s;
}

struct Repro { // a complete, replayable execution
    Plan plan;
    std::vector<Dec> dec;
    bool weak = false;
};

// result passed from forked children
struct Shared { Outcome o; bool weak; u64 seed; bool done; };

// run fn in a forked child (a broken program may do anything); false: it died
template <typename F> bool in_child(Shared* sh, F fn) {
    sh->done = false;
    sh->o.viol = false;
    pid_t p = fork();
    if (p == 0) {
        alarm(60);
        start_watchdog(); // timers are not inherited
        fn();
        sh->done = true;
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    return sh->done;
}

bool same_class(const Outcome& o, const std::string& cls) { return o.viol && cls == o.cls; }

// replay r in a child; true if it shows `cls`
bool try_replay(Shared* sh, const Repro& r, const std::string& cls) {
    bool ok = in_child(sh, [&] { run_once(r.plan, M_REPLAY, 0, r.dec.data(), u32(r.dec.size()), r.weak, sh->o); });
    return ok && same_class(sh->o, cls);
}
// look for cls under plan with up to n schedules
bool try_search(Shared* sh, const Plan& p, const std::string& cls, u64 seed, int n, Repro& out) {
    bool ok = in_child(sh, [&] {
        for (int i = 0; i < n; ++i) {
            run_once(p, M_RANDOM, mixseed(seed, u64(i) + 1), nullptr, 0, false, sh->o);
            if (same_class(sh->o, cls) && !sh->o.truncated) { sh->weak = g->weak; return; }
        }
        sh->o.viol = false;
    });
    if (!ok || !same_class(sh->o, cls)) return false;
    out.plan = p;
    out.weak = sh->weak;
    out.dec.assign(sh->o.dec, sh->o.dec + sh->o.ndec);
    return true;
}

void minimise(Shared* sh, Repro& r, const std::string& cls, u64 seed) {
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    auto spent = [&] { clock_gettime(CLOCK_MONOTONIC, &t1); return double(t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9; };
    const double budget = g->min_budget;
    if (budget <= 0) return;
    auto accept = [&](const Plan& p) {
        Repro c;
        c.plan = p;
        c.dec = r.dec;
        c.weak = r.weak;
        if (try_replay(sh, c, cls)) {
            r.plan = p;
            r.dec.assign(sh->o.dec, sh->o.dec + sh->o.ndec);
            return true;
        }
        if (try_search(sh, p, cls, seed, 150, c)) { r = c; return true; }
        return false;
    };
    // operations: remove chunks, then single ones
    for (size_t chunk = std::max<size_t>(1, r.plan.ops.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < r.plan.ops.size() && spent() < budget;) {
            Plan p = r.plan;
            size_t e = std::min(p.ops.size(), i + chunk);
            p.ops.erase(p.ops.begin() + long(i), p.ops.begin() + long(e));
            if (!accept(p)) i += chunk;
        }
        if (chunk == 1) break;
    }
    // faults: drop them
    for (size_t i = 0; i < r.plan.ops.size() && spent() < budget; ++i)
        if (r.plan.ops[i].fault) {
            Plan p = r.plan;
            p.ops[i].fault = p.ops[i].farg = 0;
            accept(p);
        }
    if (r.plan.cfg[CFG_REUSE] && spent() < budget) { Plan p = r.plan; p.cfg[CFG_REUSE] = 0; accept(p); }
    // schedule: find one with few decisions, then drop decisions
    for (int k = 0; k < 6 && spent() < budget; ++k) {
        Repro c;
        if (try_search(sh, r.plan, cls, seed ^ (0x777 + u64(k)), 200, c) && c.dec.size() < r.dec.size()) r = c;
    }
    for (size_t chunk = std::max<size_t>(1, r.dec.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < r.dec.size() && spent() < budget + 10;) {
            Repro c = r;
            size_t e = std::min(c.dec.size(), i + chunk);
            c.dec.erase(c.dec.begin() + long(i), c.dec.begin() + long(e));
            if (try_replay(sh, c, cls)) {
                std::vector<Dec> d(sh->o.dec, sh->o.dec + sh->o.ndec);
                if (d.size() <= c.dec.size()) c.dec = d;
                r = c;
            } else i += chunk;
        }
        if (chunk == 1) break;
    }
}

bool read_repro(const char* path, Repro& r, std::string& cls, u64& hash) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char line[4096];
    r = Repro();
    while (fgets(line, sizeof line, f)) {
        char w[64];
        int off = 0;
        if (sscanf(line, "%63s%n", w, &off) != 1) continue;
        const char* rest = line + off;
        std::string k = w;
        if (k == "class") { char c[32]; if (sscanf(rest, "%31s", c) == 1) cls = c; }
        else if (k == "hash") hash = strtoull(rest, nullptr, 16);
        else if (k == "profile") { char c[32]; if (sscanf(rest, "%31s", c) == 1) snprintf(g->profile, sizeof g->profile, "%s", c); }
        else if (k == "threads") r.plan.nthr = u8(atoi(rest));
        else if (k == "weak") r.weak = atoi(rest);
        else if (k == "cfg") {
            int n = 0;
            for (int i = 0; i < 15; ++i) { int v, m; if (sscanf(rest + n, "%d%n", &v, &m) != 1) break; r.plan.cfg[i] = u8(v); n += m; }
        } else if (k == "op") {
            int v[8];
            if (sscanf(rest, "%d %d %d %d %d %d %d %d", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7) == 8) {
                Op o;
                o.thr = u8(v[0]); o.code = u8(v[1]); o.a = u8(v[2]); o.b = u8(v[3]); o.c = u8(v[4]); o.d = u8(v[5]); o.fault = u8(v[6]); o.farg = u8(v[7]);
                r.plan.ops.push_back(o);
            }
        } else if (k == "decision") {
            Dec d;
            if (sscanf(rest, "%u %u", &d.seq, &d.val) == 2) r.dec.push_back(d);
        }
    }
    fclose(f);
    return true;
}

std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r + "\"";
}

void print_stats(FILE* f, double wall, const Outcome* viol, u64 vseed, bool timed_out, const std::vector<std::string>& samples, u64 next_idx) {
    fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"foreign\":%llu,\"truncated\":%llu,\"timed_out\":%s,\"next_index\":%llu,",
        (unsigned long long)g->tot_runs, (unsigned long long)g->tot_steps, (unsigned long long)g->tot_switch, (unsigned long long)g->tot_preempt,
        (unsigned long long)g->tot_foreign, (unsigned long long)g->tot_trunc, timed_out ? "true" : "false", (unsigned long long)next_idx);
    fprintf(f, "\"faults\":{");
    for (int i = 0; i < NFAULTS; ++i) fprintf(f, "%s\"%s\":[%llu,%llu]", i ? "," : "", fault_names[i], (unsigned long long)g->tot_faults[i], (unsigned long long)g->runs_fault[i]);
    fprintf(f, "},\"probes\":{");
    for (int i = 0; i < g->h->n_probes; ++i) fprintf(f, "%s\"%s\":[%llu,%llu]", i ? "," : "", g->h->probe_names[i], (unsigned long long)g->probes[i], (unsigned long long)g->runs_probe[i]);
    fprintf(f, "},\"wall\":%.3f,\"samples\":[", wall);
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jstr(samples[i]).c_str());
    fprintf(f, "]");
    if (viol) fprintf(f, ",\"violation\":{\"seed\":\"%llu\",\"class\":%s,\"msg\":%s,\"hash\":\"%016llx\"}",
        (unsigned long long)vseed, jstr(viol->cls).c_str(), jstr(viol->msg).c_str(), (unsigned long long)viol->hash);
    fprintf(f, "}\n");
    fflush(f);
}

const char* arg(int argc, char** argv, const char* name, const char* dflt) {
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1];
    return dflt;
}

} // namespace

namespace sim {

int main_(int argc, char** argv, const Harness& h) {
    // addresses must not vary between processes
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) {
        execv("/proc/self/exe", argv);
        fprintf(stderr, "cannot re-execute\n");
        return 4;
    }
    auto map = [](uptr at, size_t n) {
        void* p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        if (p != reinterpret_cast<void*>(at)) { fprintf(stderr, "cannot map %zx\n", size_t(at)); _exit(4); }
    };
    map(ARENA, ARENA_SZ);
    map(STACKS, STACK_SZ * MAXT);
    void* gm = mmap(nullptr, sizeof(G), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g = new (gm) G;
    g->h = &h;
    g->brk = ARENA;
    __libc_single_threaded = 0; // make libstdc++'s shared_ptr count atomically
    std::set_terminate(on_terminate);
    stack_t ss{};
    ss.ss_sp = malloc(64 * 1024);
    ss.ss_size = 64 * 1024;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = handler;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
    sa.sa_handler = watchdog;
    sigaction(SIGVTALRM, &sa, nullptr);
    start_watchdog();
    { // resolve what is lazily initialised, so that the snapshot holds it
        eh_globals();
        try { throw 1; } catch (...) {}
        pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
        pthread_mutex_lock(&m);
        pthread_mutex_unlock(&m);
        pthread_mutex_trylock(&m);
        pthread_mutex_unlock(&m);
        pthread_mutex_timedlock(&m, nullptr);
        pthread_mutex_unlock(&m);
        timespec now;
        clock_gettime(CLOCK_MONOTONIC, &now);
        pthread_self();
        sched_getcpu();
        sched_yield();
        usleep(0);
        timespec z{0, 0};
        nanosleep(&z, nullptr);
        clock_nanosleep(CLOCK_MONOTONIC, 0, &z, nullptr);
        fprintf(stderr, "%s", "");
    }
    snapshot_take();

    std::string mode = argc > 1 ? argv[1] : "";
    snprintf(g->profile, sizeof g->profile, "%s", arg(argc, argv, "--profile", ""));
    u64 base = strtoull(arg(argc, argv, "--base", "1"), nullptr, 10);
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    auto* out = static_cast<Outcome*>(mmap(nullptr, sizeof(Outcome), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));

    if (mode == "search") {
        // indices first, first+stride, ... below count
        u64 first = strtoull(arg(argc, argv, "--first", "0"), nullptr, 10);
        u64 stride = strtoull(arg(argc, argv, "--stride", "1"), nullptr, 10);
        u64 count = strtoull(arg(argc, argv, "--count", "1000"), nullptr, 10);
        double tmax = atof(arg(argc, argv, "--time", "1e9"));
        const char* hashes = arg(argc, argv, "--hashes", nullptr);
        std::vector<u64> hs;
        std::vector<std::string> samples;
        timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        double wall = 0;
        bool timed = false;
        u64 i = first;
        for (; i < count; i += stride) {
            u64 seed = mixseed(base, i);
            Plan p;
            make_plan(seed, p);
            run_once(p, M_RANDOM, seed, nullptr, 0, false, *out);
            clock_gettime(CLOCK_MONOTONIC, &t1);
            wall = double(t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
            bool nontrivial = out->preempts > 0;
            for (int k = F_STALL; k < NFAULTS; ++k) if (k != F_NO_MEMORY) nontrivial = nontrivial || out->faults[k];
            if (nontrivial && !out->foreign && hashes) hs.push_back(out->hash);
            if (nontrivial && samples.size() < 2 && p.ops.size() <= 14) {
                char b[256];
                snprintf(b, sizeof b, "seed %llu: %llu steps, %u switches, %u preemptions inside operations, %u non-default decisions, hash %016llx\n",
                    (unsigned long long)seed, (unsigned long long)out->steps, out->switches, out->preempts, out->ndec, (unsigned long long)out->hash);
                samples.push_back(b + plan_text(p));
            }
            if (out->viol) {
                print_stats(stdout, wall, out, seed, false, samples, i);
                return 10;
            }
            if (wall > tmax) { timed = true; i += stride; break; }
        }
        if (hashes) {
            FILE* f = fopen(hashes, "wb");
            if (f) { fwrite(hs.data(), 8, hs.size(), f); fclose(f); }
        }
        print_stats(stdout, wall, nullptr, 0, timed, samples, i);
        return 0;
    }
    if (mode == "hash") { // outcome of single seeds, for the determinism check
        u64 from = strtoull(arg(argc, argv, "--first", "0"), nullptr, 10);
        u64 to = strtoull(arg(argc, argv, "--count", "1"), nullptr, 10);
        const char* only = arg(argc, argv, "--seed", nullptr);
        u64 stride = strtoull(arg(argc, argv, "--stride", "1"), nullptr, 10);
        for (u64 i = from; i < to; i += stride) {
            u64 seed = only ? strtoull(only, nullptr, 10) : mixseed(base, i);
            Plan p;
            make_plan(seed, p);
            run_once(p, M_RANDOM, seed, nullptr, 0, false, *out);
            printf("%llu %016llx %llu %u %d %s\n", (unsigned long long)seed, (unsigned long long)out->hash, (unsigned long long)out->steps, out->ndec, out->viol, out->viol ? out->cls : "-");
            if (only) break;
        }
        return 0;
    }
    if (mode == "minimise") {
        u64 seed = strtoull(arg(argc, argv, "--seed", "0"), nullptr, 10);
        const char* file = arg(argc, argv, "--out", "/dev/stdout");
        const char* prop = arg(argc, argv, "--property", "?");
        g->min_budget = atof(arg(argc, argv, "--budget", "20"));
        Repro r;
        make_plan(seed, r.plan);
        bool ok = in_child(sh, [&] { run_once(r.plan, M_RANDOM, seed, nullptr, 0, false, sh->o); sh->weak = g->weak; });
        if (!ok || !sh->o.viol) { fprintf(stderr, "seed %llu does not fail\n", (unsigned long long)seed); return 5; }
        std::string cls = sh->o.cls, first_msg = sh->o.msg;
        r.dec.assign(sh->o.dec, sh->o.dec + sh->o.ndec);
        r.weak = sh->weak;
        size_t ops0 = r.plan.ops.size(), dec0 = r.dec.size();
        if (!try_replay(sh, r, cls)) { fprintf(stderr, "recorded decisions do not reproduce seed %llu\n", (unsigned long long)seed); return 6; }
        minimise(sh, r, cls, seed);
        if (!try_replay(sh, r, cls)) { fprintf(stderr, "minimised execution does not reproduce\n"); return 6; }
        FILE* f = fopen(file, "w");
        if (!f) return 7;
        fprintf(f, "xmem-sim-replay 1\nproperty %s\nbinary %s\nvariant %s\nharness %s\nprofile %s\nseed %llu\nclass %s\nhash %016llx\nmessage %s\n",
            prop, arg(argc, argv, "--binary", "?"), arg(argc, argv, "--variant", "gcc-O1"), h.name, g->profile, (unsigned long long)seed, cls.c_str(), (unsigned long long)sh->o.hash, sh->o.msg);
        fprintf(f, "# minimised from %zu operations and %zu non-default decisions to %zu and %zu\n", ops0, dec0, r.plan.ops.size(), r.dec.size());
        fprintf(f, "weak %d\n%s", r.weak ? 1 : 0, plan_text(r.plan).c_str());
        for (auto& d : r.dec) {
            fprintf(f, "decision %u %u", d.seq, d.val);
            fprintf(f, "\n");
        }
        fclose(f);
        return 0;
    }
    if (mode == "replay") {
        const char* file = arg(argc, argv, "--file", "");
        Repro r;
        std::string cls;
        u64 hash = 0;
        if (!read_repro(file, r, cls, hash)) { fprintf(stderr, "cannot read %s\n", file); return 7; }
        bool verbose = false;
        for (int i = 1; i < argc; ++i) verbose = verbose || !strcmp(argv[i], "--trace");
        if (verbose) g->logbuf = new std::string;
        run_once(r.plan, M_REPLAY, 0, r.dec.data(), u32(r.dec.size()), r.weak, *out);
        if (verbose) fputs(g->logbuf->c_str(), stdout);
        printf("result %s class %s hash %016llx steps %llu message %s\n", out->viol ? "violation" : out->foreign ? "foreign" : "ok",
            out->viol || out->foreign ? out->cls : "-", (unsigned long long)out->hash, (unsigned long long)out->steps, out->msg);
        fflush(stdout);
        if (!out->viol) return 0;
        return cls == out->cls && hash == out->hash ? 10 : 11;
    }
    if (mode == "trace") {
        u64 seed = strtoull(arg(argc, argv, "--seed", "0"), nullptr, 10);
        g->logbuf = new std::string;
        Plan p;
        make_plan(seed, p);
        fputs(plan_text(p).c_str(), stdout);
        run_once(p, M_RANDOM, seed, nullptr, 0, false, *out);
        fputs(g->logbuf->c_str(), stdout);
        printf("result %s class %s hash %016llx steps %llu message %s\n", out->viol ? "violation" : out->foreign ? "foreign" : "ok", out->cls, (unsigned long long)out->hash, (unsigned long long)out->steps, out->msg);
        return out->viol ? 10 : 0;
    }
    fprintf(stderr, "usage: %s search|hash|minimise|replay|trace ...\n", argv[0]);
    return 2;
}

} // namespace sim
