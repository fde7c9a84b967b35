RULE = ("A case is one simulated execution: a generated program of operations per thread plus every scheduling and fault decision, "
        "all derived from one seed. It is non-trivial when at least one thread was preempted inside an operation or at least one other fault fired; "
        "distinct = different hash of the event sequence (context switches, atomic operations with location and value, frees, operation starts). "
        "Counted per part and summed; runs abandoned because another property's oracle fired are not counted.")
REAL = ["all of /repo/code/xmem that the harness instantiates (compiled from the working tree, unmodified, no hooks)",
        "libstdc++ headers used by it (std::atomic, and std::shared_ptr for the xstd part)",
        "C++ exceptions, virtual dispatch, object layout as the compiler produces them"]
STUB = ["threads: fibers in one OS thread, scheduled by the simulator from the seed",
        "memory model: the simulator keeps store histories and vector clocks per location; relaxed/acquire loads may read stale values",
        "heap: operator new/delete replaced by a checked simulated heap with injected failures and address reuse",
        "time: simulated steps; sleeping/yielding calls, pthread mutexes mapped to it"]
ASSUMPTIONS = ["exploration by seeded sampling: a clean batch is evidence, not proof",
               "2 to 4 threads and short programs per run; x86-64, g++ 13 (clang 18 also in the thorough tier)",
               "the simulated memory model covers stale reads of atomics and happens-before (races), not every reordering C11 allows (no load buffering)"]
NOTE = ("Seeded exploration: every run is one exactly repeatable execution of the real headers under a simulator that owns the schedule, the reads the C++ memory model allows, "
        "the heap and the injected failures. A clean batch is evidence, not proof. Trusted: the simulator's memory model and heap, the reference model, g++'s -fsanitize=thread instrumentation.")
def _w(lib, profile, count, time=25):
    return {"bin": "world_" + lib, "profile": profile, "count": count, "time": time}
def _s(lib, profile, count, time=25):
    return {"bin": "storage_" + lib, "profile": profile, "count": count, "time": time}
def _g(lib, profile, count, time=25):
    return {"bin": "graph_" + lib, "profile": profile, "count": count, "time": time}
CHECKS = {
    "C01": {"parts": [_w("atomic", "C01", 2000000), _w("tracked", "C01", 400000), _w("local", "C01", 300000), {"bin": "unique", "profile": "C01", "count": 400000, "time": 20}]},
    "C02": {"parts": [_w("atomic", "C02", 2000000), _w("tracked", "C02", 400000), _w("local", "C02", 200000)]},
    "C03": {"parts": [_w("atomic", "C03", 2000000), _w("local", "C03", 300000), _w("tracked", "C03", 300000)]},
    "C04": {"parts": [_w("atomic", "C04", 2500000), _w("local", "C04", 300000)]},
    "C05": {"parts": [_s("xmem", "C05", 2000000), _s("tracked", "C05", 500000)]},
    "C06": {"parts": [_s("xmem", "C06", 2000000), _s("tracked", "C06", 500000)]},
    "C07": {"parts": [_s("xmem", "C07", 2000000), _s("tracked", "C07", 500000)]},
    "C08": {"parts": [_w("atomic", "C08", 500000), _w("local", "C08", 300000), _w("tracked", "C08", 400000)]},
    "C09": {"parts": [_g("atomic", "C09", 1200000), _g("local", "C09", 300000), _g("tracked", "C09", 200000)]},
    "C11": {"parts": [_g("atomic", "C11", 1200000), _g("local", "C11", 300000), _g("tracked", "C11", 200000)]},
    "C10": {"parts": [_g("tracked", "C10", 400000), _w("tracked", "C10", 1200000), _s("tracked", "C10", 500000)]},
    "C12": {"parts": [{"bin": "unique", "profile": "C12", "count": 2500000, "time": 25}]},
    "C13": {"parts": [_w("atomic", "C13", 500000), _w("local", "C13", 400000), _w("tracked", "C13", 400000)]},
    "C14": {"parts": [{"bin": "refcount", "profile": "C14", "count": 4000000, "time": 25}]},
    "C15": {"parts": [_s("xstd", "C15", 2000000), _s("xstd20", "C15", 400000)]},
    "C16": {"parts": [_w("atomic", "C16", 700000), _w("local", "C16", 300000), _w("tracked", "C16", 400000)]},
    "C17": {"parts": [_w("atomic", "C17", 2000000), _w("local", "C17", 300000)]},
    "C20": {"parts": [_w("atomic", "C20", 400000), _w("tracked", "C20", 150000), _s("xmem", "C20", 400000), _s("xstd", "C20", 250000), _s("xstd20", "C20", 100000),
        _g("atomic", "C20", 250000), {"bin": "unique", "profile": "C20", "count": 400000, "time": 20}]},
}
