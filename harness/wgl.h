// Linearizability of a short recorded history against a sequential model
// (Wing & Gong's search with Lowe's memoisation of visited configurations).
#pragma once
#include "../sim/sim.h"
#include <cstring>

namespace wgl {
// E: { uint64_t inv, res; } at least. apply(e, state) -> true when the event's
// recorded result is what the model gives in `state` (which it then updates).
// State: an integer. n <= 32. Returns 1: linearizable, 0: not, -1: gave up.
template <typename E, typename S, typename Apply>
int check(const E* ev, int n, S init, Apply apply, int* deepest = nullptr) {
    constexpr uint32_t CAP = 1u << 16;
    struct Key { uint32_t mask; uint32_t used; uint64_t st; };
    auto* tab = static_cast<Key*>(sim::scratch(sizeof(Key) * CAP));
    memset(tab, 0, sizeof(Key) * 4096);
    uint32_t cap = 4096, cnt = 0;
    struct Frame { uint32_t mask; S st; int next; };
    Frame stk[34];
    int sp = 0, best = 0;
    stk[0] = {0, init, 0};
    const uint32_t full = n == 32 ? ~0u : (1u << n) - 1;
    while (sp >= 0) {
        Frame& f = stk[sp];
        if (f.mask == full) return 1;
        if (f.next == 0) {
            int d = __builtin_popcount(f.mask);
            if (d > best) best = d;
        }
        // an event may come next if no pending event returned before it was invoked
        uint64_t minres = ~0ull;
        for (int i = 0; i < n; ++i)
            if (!(f.mask >> i & 1) && ev[i].res < minres) minres = ev[i].res;
        bool pushed = false;
        while (f.next < n) {
            int i = f.next++;
            if ((f.mask >> i & 1) || ev[i].inv > minres) continue;
            S st = f.st;
            if (!apply(ev[i], st)) continue;
            uint32_t m = f.mask | 1u << i;
            uint64_t h = (uint64_t(m) * 0x9E3779B97F4A7C15ull) ^ (uint64_t(st) * 0xD1B54A32D192ED03ull);
            uint32_t k = uint32_t(h >> 40) & (cap - 1);
            bool seen = false;
            while (tab[k].used) {
                if (tab[k].mask == m && tab[k].st == uint64_t(st)) { seen = true; break; }
                k = (k + 1) & (cap - 1);
            }
            if (seen) continue;
            if (++cnt > cap * 3 / 4) return -1;
            tab[k] = {m, 1, uint64_t(st)};
            ++sp;
            stk[sp] = {m, st, 0};
            pushed = true;
            break;
        }
        if (!pushed) --sp;
    }
    if (deepest) *deepest = best;
    return 0;
}
} // namespace wgl
