// Deterministic simulator: public interface used by the harnesses.
//
// The code under test (the headers of /repo/code) and the harness are compiled
// with -fsanitize=thread, but libtsan is NOT linked: rt.cpp defines the
// __tsan_* entry points, so every memory access and every atomic operation the
// compiler emits is a call into the simulator, which decides what happens.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <vector>

namespace sim {

constexpr int MAXT = 8;

struct Rng { // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 11) % n) : 0; }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

// One generated operation. `thr` is the simulated thread that executes it.
// `fault`/`farg` describe the fault injected while it runs (see the harness).
struct Op {
    uint8_t thr = 0, code = 0, a = 0, b = 0, c = 0, d = 0, fault = 0, farg = 0;
};

struct Plan {
    uint8_t nthr = 1;
    uint8_t cfg[15] = {};
    std::vector<Op> ops;
};
// cfg slots read by the runtime
enum { CFG_REUSE = 0, CFG_USER = 1 };

enum Fault : uint8_t {
    F_PREEMPT, F_STALL, F_SPURIOUS_CAS, F_STALE_LOAD, F_ALLOC_FAIL, F_CTOR_THROW,
    F_CB_CTOR_THROW, F_ADDR_REUSE, F_REENTRY, F_FREEZE, F_CAS_BURST, F_INTERFERE, F_NO_MEMORY, F_CLOCK_JUMP, F_LOCK_TIMEOUT, NFAULTS
};
extern const char* const fault_names[NFAULTS];
// cumulative over the whole process, for evidence
void fault_fired(Fault f);

struct Harness {
    const char* name;
    const char* const* op_names; // by code
    int n_ops;
    const char* const* probe_names;
    int n_probes;
    void (*gen)(const char* profile, Rng& rng, Plan& plan);
    void (*run)(const char* profile, const Plan& plan);
    void (*describe)(const Op& op, char* out, size_t n); // may be null
};
int main_(int argc, char** argv, const Harness& h);

// ---- to be called from inside a run
using Fn = void (*)(int tid);
void spawn_and_join(int n, Fn fn); // fibers 1..n; returns when all are done
int tid();                         // 0: the main fiber
uint64_t now();                    // simulated time: steps since the run began
void op_begin(uint32_t plan_index); // marks an operation boundary (a scheduling point)
void op_end();
bool weak_memory();                // this run lets relaxed/acquire loads return stale values

[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// comma separated classes which count for this run's property; another class
// ends the run silently (it is some other property's business)
void set_classes(const char* list);
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // replay trace only
bool logging();

// the n-th allocation by this fiber from now on fails (0: none)
void arm_alloc_fail(uint32_t n);
bool alloc_fail_fired(); // since arming
uint32_t allocs_since_arm();
// while one of these exists, every (or, in what the application does meanwhile, again no) allocation by this fiber fails
struct OutOfMemory {
    bool saved;
    explicit OutOfMemory(bool on = true);
    ~OutOfMemory();
    OutOfMemory(const OutOfMemory&) = delete;
    OutOfMemory& operator=(const OutOfMemory&) = delete;
};

// memory of the simulated heap
struct BlockInfo { uintptr_t start; size_t size; size_t align; bool live; uint32_t id; };
bool block_of(const void* p, BlockInfo& out);
uint32_t live_blocks(size_t* bytes = nullptr);
bool in_heap(const void* p);
using FreeHook = void (*)(const BlockInfo& b);
void set_free_hook(FreeHook h);
void list_live(char* out, size_t n);

// harness bookkeeping: invisible to the simulation (no scheduling points, no
// race detection, allocations come from the real heap)
struct ModelScope {
    ModelScope();
    ~ModelScope();
    ModelScope(const ModelScope&) = delete;
    ModelScope& operator=(const ModelScope&) = delete;
};

// a simulated mutex (what the threads of an application would use to hand
// pointers to each other): blocks, and orders memory
struct Mutex {
    int owner = -1;
    uint32_t vc[MAXT] = {};
    void lock();
    void unlock();
};

// memory which is neither simulated nor reset between runs (contents arbitrary)
void* scratch(size_t n);

// reach probes ("this rare condition was hit"), ids index Harness::probe_names
void probe_hit(int id);

} // namespace sim
