// C14: the reference counters, alone.
#include "../sim/sim.h"
#include "wgl.h"
#include <xmem/atomic_ref_count.hpp>
#include <new>

using namespace sim;

namespace {
enum { INC, DEC, INC_NZ, COUNT, CHURN, NOPS };
const char* const op_names[] = {"inc", "dec", "inc_nz", "count", "churn"};
enum { P_ZERO_IN_THREAD, P_NZ_FAILED, P_NZ_OK, P_NZ_OK_CONTENDED, P_BIG, P_NZ_RACED_ZERO, P_CHURN, P_NZ_DURING_CHURN, NPROBES };
const char* const probe_names[] = {"zero_reached_in_a_thread", "inc_nz_failed", "inc_nz_succeeded", "inc_nz_overlapped_others",
    "large_counts", "inc_nz_overlapped_the_last_dec", "count_goes_up_and_down_many_times", "inc_nz_while_it_does"};

struct Ev {
    uint64_t inv, res;
    uint8_t thr, code;
    uint32_t ret;
};

alignas(64) char rc_mem[64];
xmem::atomic_ref_count& rc() { return *reinterpret_cast<xmem::atomic_ref_count*>(rc_mem); }
Ev ev[32];
int nev;
int tokens[MAXT];
int zeros;
int held;            // references held for certain
uint64_t zero_at;    // when there was last none
int churning;
uint32_t init_count;
uint64_t clk;
const Plan* plan;
int touched[MAXT]; // what each thread does to the shared object while it owns it

void exec(uint32_t i, const Op& op, int t) {
    op_begin(i);
    if (op.code == CHURN) { // many increments and decrements
        bool can;
        { ModelScope m; can = tokens[t] > 0; if (can) { churning++; probe_hit(P_CHURN); } }
        for (int k = 0; can && k < op.farg * (op.a & 8 ? 8 : 1); ++k) {
            uint32_t a = op.a & 1 ? rc().inc() : rc().inc_nz(), b = rc().dec();
            ModelScope m;
            if (a < 2 || b < 1) violation("lin", "an owner's increment or decrement reports %u, %u", a, b);
        }
        ModelScope m;
        if (can) churning--;
        op_end();
        return;
    }
    int e = -1;
    uint64_t t0;
    {
        ModelScope m;
        bool can = op.code == COUNT || op.code == INC_NZ || tokens[t] > 0;
        if (can) {
            if (op.code == DEC) { tokens[t]--; if (--held == 0) zero_at = clk + 1; }
            t0 = clk + 1;
            e = nev++;
            ev[e] = {++clk, ~0ull, uint8_t(t), op.code, 0};
        }
    }
    if (e >= 0) {
        uint32_t r = 0;
        if (op.code == DEC) touched[t]++;
        switch (op.code) {
        case INC: r = rc().inc(); break;
        case DEC: r = rc().dec(); break;
        case INC_NZ: r = rc().inc_nz(); break;
        case COUNT: r = rc().count(); break;
        }
        if (op.code == DEC && r == 0)
            for (int k = 0; k < MAXT; ++k) touched[k] = -1; // "destroy"
        ModelScope m;
        ev[e].ret = r;
        ev[e].res = ++clk;
        log("t%d %s -> %u", t, op_names[op.code], r);
        if (op.code == INC || (op.code == INC_NZ && r)) { tokens[t]++; held++; }
        if (op.code == INC_NZ && !r && held && zero_at < t0) violation("lin", "inc_nz fails although there are %d references throughout", held);
        if (op.code == INC_NZ && churning) probe_hit(P_NZ_DURING_CHURN);
        if (op.code == DEC && r == 0) {
            zeros++;
            if (zeros > 1) violation("lin", "two decrements reported zero");
            if (t) probe_hit(P_ZERO_IN_THREAD);
        }
        if (op.code == INC_NZ) {
            probe_hit(r ? P_NZ_OK : P_NZ_FAILED);
            bool over = false, overz = false;
            for (int k = 0; k < nev; ++k)
                if (k != e && ev[k].thr != t && ev[k].res > ev[e].inv) { over = true; if (ev[k].code == DEC && ev[k].ret == 0) overz = true; }
            if (over && r) probe_hit(P_NZ_OK_CONTENDED);
            if (overz) probe_hit(P_NZ_RACED_ZERO);
        }
        if (op.code == COUNT && r < uint32_t(tokens[t])) violation("lin", "count() returned %u, this thread alone holds %d", r, tokens[t]);
    }
    op_end();
}

void thread(int t) {
    for (uint32_t i = 0; i < plan->ops.size(); ++i)
        if (plan->ops[i].thr == t) exec(i, plan->ops[i], t);
}

void run(const char*, const Plan& p) {
    set_classes("lin,race,mem,progress");
    plan = &p;
    new (rc_mem) xmem::atomic_ref_count;
    init_count = 1;
    tokens[0] = 1;
    {
        ModelScope m;
        uint32_t target = p.cfg[1] == 255 ? 66000 : p.cfg[1];
        if (p.cfg[1] == 255) probe_hit(P_BIG);
        while (init_count < target) { // outside the simulation: single threaded and fast
            ++init_count;
            uint32_t r = rc().inc();
            if (r != init_count) violation("lin", "inc() returned %u instead of %u", r, init_count);
        }
        if (rc().count() != init_count) violation("lin", "count() is %u after %u references were taken", rc().count(), init_count);
        tokens[0] = int(init_count);
        // hand the references to the threads
        uint32_t keep = p.cfg[2]; // references that stay with the main thread
        for (int t = 1; t <= p.nthr && tokens[0] > int(keep); ++t)
            for (int k = 0; k < p.cfg[3] && tokens[0] > int(keep); ++k) { tokens[t]++; tokens[0]--; }
        if (p.cfg[1] != 255)
            while (tokens[0] > int(keep)) { tokens[0]--; tokens[1]++; }
    }
    { ModelScope m; held = int(init_count); }
    spawn_and_join(p.nthr, thread);
    ModelScope m;
    int total = 0;
    for (int t = 0; t < MAXT; ++t) total += tokens[t];
    uint32_t c = rc().count();
    if (c != uint32_t(total)) violation("lin", "the count is %u when all threads are done, %d references are held", c, total);
    bool weak = weak_memory();
    uint64_t st = init_count;
    int deepest = 0;
    for (auto& o : p.ops) if (o.code == CHURN) deepest = -1; // its operations are not recorded
    int r = deepest < 0 ? 1 : wgl::check(ev, nev, st, [&](const Ev& e, uint64_t& s) {
        switch (e.code) {
        case INC: s++; return e.ret == uint32_t(s);
        case DEC: s--; return e.ret == uint32_t(s);
        case INC_NZ: if (s == 0) return e.ret == 0; s++; return e.ret == uint32_t(s);
        default: return weak || e.ret == uint32_t(s); // a relaxed read may be stale
        }
    }, &deepest);
    if (r == 0) {
        char b[400] = "";
        size_t at = 0;
        for (int i = 0; i < nev && at + 60 < sizeof b; ++i)
            at += size_t(snprintf(b + at, sizeof b - at, " t%d:%s=%u[%llu,%llu]", ev[i].thr, op_names[ev[i].code], ev[i].ret, (unsigned long long)ev[i].inv, (unsigned long long)ev[i].res));
        violation("lin", "no sequential order of these operations on one counter (initially %u) explains the results:%s", init_count, b);
    }
    if (total == 0 && zeros != 1) violation("lin", "all references were given up but %d decrements reported zero", zeros);
    if (total != 0 && zeros) violation("lin", "a decrement reported zero while references are held");
    // give back what is left, alone: exactly one zero in all
    while (total > 0) {
        uint32_t d = rc().dec();
        --total;
        if (d != uint32_t(total)) violation("lin", "dec() returned %u with %d references left", d, total);
    }
    if (rc().inc_nz() != 0 || rc().count() != 0) violation("lin", "inc_nz raised the count from zero");
}

void gen(const char*, Rng& r, Plan& p) {
    p.nthr = uint8_t(2 + r.below(3));
    p.cfg[1] = r.chance(1, 200) ? 255 : uint8_t(1 + r.below(r.chance(1, 2) ? 3 : 7));
    p.cfg[2] = r.chance(1, 3) ? uint8_t(r.below(2)) : 0;
    p.cfg[3] = uint8_t(1 + r.below(2));
    int total = 4 + int(r.below(14));
    uint32_t w[4] = {1 + r.below(4), 2 + r.below(6), 1 + r.below(8), r.below(3)};
    uint32_t ws = w[0] + w[1] + w[2] + w[3];
    for (int i = 0; i < total; ++i) {
        Op o;
        o.thr = uint8_t(1 + r.below(p.nthr));
        uint32_t x = r.below(ws);
        o.code = x < w[0] ? INC : x < w[0] + w[1] ? DEC : x < w[0] + w[1] + w[2] ? INC_NZ : COUNT;
        p.ops.push_back(o);
    }
    if (r.chance(1, 8)) { // some thread is busy while others do what they do
        Op o;
        o.thr = uint8_t(1 + r.below(p.nthr));
        o.code = CHURN;
        o.a = uint8_t(r.below(2) | (r.chance(1, 8) ? 8 : 0));
        o.farg = uint8_t(3 + r.below(r.chance(1, 2) ? 20 : 140));
        p.ops.insert(p.ops.begin() + r.below(uint32_t(p.ops.size())), o);
    }
}
const Harness H = {"refcount", op_names, NOPS, probe_names, NPROBES, gen, run, nullptr};
}

int main(int argc, char** argv) { return sim::main_(argc, argv, H); }
