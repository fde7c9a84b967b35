#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after an edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["code/xmem/" + f for f in files], state=state or [],
            mechanism=[dict(name=n, where="code/xmem/" + w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

NOTEST = "Only the two sequential ref-count unit tests run here; "

p("C01", "A shared object is destroyed exactly once, when its last owner lets go",
  "However threads interleave copying, moving, assigning, swapping, aliasing, resetting and dropping strong pointers (shared_ptr) to one object, the object is never destroyed while any strong pointer still owns it, and it is destroyed exactly once, through the deleter it was given (delete, or delete[] for an array, if it was given none), by the time the operation that gives up the last strong pointer has returned. No such operation touches freed memory or frees memory twice.",
  ["schedules", "histories"], "every interleaving, at every atomic step, of every history of strong-pointer operations on distinct strong pointers by any number of threads",
  NOTEST + "the multi-threaded upstream tests sample a few real schedules and say themselves that they have 'no sensible checks'.",
  ["atomic_ref_count.hpp", "common_control_block.hpp", "basic_shared_ptr.hpp", "shared_ptr.hpp"],
  [("strong count: atomic inc/dec, destroy on reaching 0", "common_control_block.hpp control_block_base::dec_strong_ref"), ("copy increments, destructor decrements, move transfers", "basic_shared_ptr.hpp init_from_copy/init_from_move/~basic_shared_ptr")],
  ["managed object's destructor", "custom deleter calls", "memory released through operator delete"],
  [dict(name="strong count", meaning="number of strong pointers", where="code/xmem/common_control_block.hpp m_strong")])

p("C02", "Locking a weak pointer yields a live object or null, and null is final",
  "weak_ptr::lock() returns either a strong pointer that keeps its object alive until it is released, or null; it returns null only if at some moment during the call no strong pointer owned the object, and once an object has expired no weak pointer to it ever locks again or stops reporting expired. This holds under every interleaving with other threads' copies, releases and locks.",
  ["schedules", "histories"], "every interleaving of lock/expired/use_count with the release of the last strong pointers, including compare-exchange failures and retries",
  NOTEST + "the race between lock and the last release needs a switch between two specific atomic operations.",
  ["atomic_ref_count.hpp", "common_control_block.hpp", "basic_weak_ptr.hpp"],
  [("increment-unless-zero loop", "atomic_ref_count.hpp inc_nz"), ("lock() builds on it", "basic_weak_ptr.hpp lock")],
  ["result of lock(), expired(), use_count()", "managed object's destructor"])

p("C03", "Bookkeeping memory lives exactly as long as it is needed and is freed once",
  "The memory that a group of strong and weak pointers shares is released exactly once, not before the last strong and weak pointer of the group is gone and no later than when the operation dropping the last of them returns. The control block and its allocator are themselves destroyed before that. Every block is given back to an allocator equal to the one it came from, with the size and alignment it was requested with, and nothing is leaked, whatever the interleaving and whichever way the object was created.",
  ["schedules", "histories", "configurations"], "every interleaving of strong and weak releases, every way of creating an owner (from a raw pointer, a deleter, a unique_ptr, in place, for-overwrite, custom allocator)",
  NOTEST + "no test counts allocations or interleaves the final weak and strong releases.",
  ["common_control_block.hpp", "allocator.hpp", "allocator_rebind.hpp", "basic_weak_ptr.hpp", "basic_shared_ptr.hpp"],
  [("weak count, one unit held by all strong pointers together", "common_control_block.hpp dec_strong_ref/dec_weak_ref"), ("self-deallocation", "common_control_block.hpp control_block_resource::destroy_self")],
  ["operator new/delete", "custom allocator allocate/deallocate", "owner()"])

p("C04", "Everything owners did is visible when the object is destroyed; no data races",
  "Threads that use only distinct strong and weak pointers (or the same ones read-only) never race with each other inside the library, and the destructor or deleter of a shared object, as well as the reuse of its memory, happens after everything any thread did through its strong pointer before giving it up; a lock that succeeds after another owner let go sees what that owner did. This holds in the C++ memory model, not only on strongly ordered hardware. Pointers to different objects never interact, so that local (non-atomic) ones may be used in several threads as long as each thread has objects of its own.",
  ["schedules"], "every interleaving and every memory-model-allowed read of every history of operations on distinct pointers, with object accesses in between",
  NOTEST + "x86 hides missing acquire/release ordering from any test that is merely executed.",
  ["atomic_ref_count.hpp", "common_control_block.hpp", "basic_shared_ptr.hpp", "basic_weak_ptr.hpp"],
  [("acquire-release decrement", "atomic_ref_count.hpp dec"), ("acquire on successful inc_nz", "atomic_ref_count.hpp inc_nz")],
  ["contents of the object as its destructor sees them", "happens-before between accesses to object and bookkeeping memory"])

p("C05", "The atomic pointer storage is linearizable",
  "load, store, exchange and compare_exchange on one atomic_shared_ptr_storage take effect as if each happened at one instant between its call and its return: exchange returns the value it replaced, and compare_exchange replaces the value exactly when it compares equal to the expected one, leaving expected untouched, and otherwise changes nothing and hands back the current value. A returned pointer always pairs a pointer with the owner it was stored with.",
  ["schedules", "histories"], "every interleaving of concurrent histories over one or several storages, with fresh, repeated, aliased and null values",
  NOTEST + "the upstream tests only check that nothing crashes and a few sums.",
  ["basic_atomic_shared_ptr_storage.hpp", "bits/spinlock.hpp"],
  [("all four operations under one lock", "basic_atomic_shared_ptr_storage.hpp"), ("test-and-set lock", "bits/spinlock.hpp")],
  ["return values of load/exchange/compare_exchange and the expected argument"])

p("C06", "Values passing through the storage stay owned, published and accounted for",
  "A value handed to an atomic_shared_ptr_storage stays alive while it is stored or returned to someone, is destroyed exactly once as soon as it has been displaced and no other owner is left, and whoever loads it sees it fully constructed. After all threads are done, the use count of every value equals the strong pointers and storages that hold it, and destroying the storage releases what it holds.",
  ["schedules", "histories"], "every interleaving of store/load/exchange/compare_exchange by several threads, including when the caller passes temporaries, moved values and aliases",
  NOTEST + "no test checks destruction, visibility or counts of displaced values under concurrency.",
  ["basic_atomic_shared_ptr_storage.hpp", "bits/spinlock.hpp", "basic_shared_ptr.hpp"],
  [("swap under lock, release after", "basic_atomic_shared_ptr_storage.hpp store/exchange/compare_exchange"), ("acquire/release lock", "bits/spinlock.hpp")],
  ["destructors of stored values", "use_count at rest", "contents of loaded values"])

p("C07", "Storage operations always finish, and user code never runs under the lock",
  "Every operation on an atomic_shared_ptr_storage finishes as long as the other threads keep being scheduled, no operation leaves the storage blocked for later ones, and a thread that is paused between operations never blocks the others. Destructors of displaced values may themselves use the same storage, from any of its operations, without deadlock.",
  ["schedules", "histories", "fault_sequences"], "every interleaving with stalled threads, and destructors of stored or expected values that call any operation of the same storage",
  NOTEST + "no test has a destructor that uses the storage or a thread that stalls.",
  ["basic_atomic_shared_ptr_storage.hpp", "bits/spinlock.hpp"],
  [("scoped lock released on every path", "bits/spinlock.hpp lock_guard"), ("displaced values are destroyed after unlocking", "basic_atomic_shared_ptr_storage.hpp")],
  ["completion of calls"])

p("C08", "A failed creation changes nothing and leaks nothing",
  "If creating or assigning an owner fails, because an allocation fails or because a constructor throws, the exception reaches the caller and every existing strong, weak and unique pointer still has the value, owner and counts it had before. A raw pointer that was passed in is disposed of exactly once with its deleter, a unique_ptr that was passed in still owns its object, and no memory is leaked or freed twice, then or later.",
  ["fault_sequences", "histories"], "failure of any one allocation, constructor or control-block constructor, at any creating or assigning operation of any history",
  NOTEST + "no test makes an allocation or constructor fail.",
  ["basic_shared_ptr.hpp", "common_control_block.hpp", "unique_ptr.hpp", "shared_ptr.hpp", "local_shared_ptr.hpp"],
  [("control block guarded by a unique_ptr until complete", "common_control_block.hpp create/make_uptr_cb/make_resource_cb"), ("raw pointers wrapped in unique_ptr first", "basic_shared_ptr.hpp constructors, reset")],
  ["pointers after a caught exception", "deleter calls", "memory balance"])

p("C09", "An object can hand out pointers to itself exactly while it is owned",
  "An object of a type deriving from enable_shared_from or enable_shared_from_this returns, while strong pointers own it, strong and weak pointers that share that ownership and point to what was asked for. Before it is owned and once its last owner is gone (in its destructor, too) its strong requests yield null and leave every count as it was, so that weak pointers stay expired and destruction still happens once; copying, moving or assigning such an object never transfers ownership, and null pointers to such types are accepted.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of self-pointer requests, also from constructors and destructors, with other threads locking weak pointers and releasing strong ones",
  NOTEST + "no test asks for a self-pointer from a destructor or concurrently.",
  ["basic_shared_from.hpp", "common_control_block.hpp"],
  [("back reference filled in on creation", "common_control_block.hpp prepare_pair"), ("increment-unless-zero before handing out", "basic_shared_from.hpp shared_from_this/shared_from")],
  ["results of shared_from_this/weak_from_this/shared_from/weak_from", "use_count and expired afterwards"])

p("C10", "A control block sees an exact account of the pointers that refer to it",
  "With a user-supplied control block, the notifications it receives name each strong and each weak pointer exactly once when it starts and once when it stops referring to the block, including transfers between pointers; so whenever no operation is in progress, the pointers so recorded are exactly the live strong and weak pointers of that block, by address. This holds for every operation, also when it fails, moves a pointer onto itself or between aliases, and under every interleaving.",
  ["schedules", "histories", "fault_sequences", "programs"], "every history of operations on strong and weak pointers and storages of a tracking control block, in one or several threads, with failing allocations",
  NOTEST + "the tracking tests do not run here and are sequential apart from the crash-only ones.",
  ["basic_shared_ptr.hpp", "basic_weak_ptr.hpp", "basic_shared_from.hpp", "common_control_block.hpp", "basic_atomic_shared_ptr_storage.hpp"],
  [("init/inc/dec/transfer notifications with the pointer's address", "basic_shared_ptr.hpp, basic_weak_ptr.hpp")],
  ["the control block's init_strong, inc_*, dec_*, transfer_* calls"])

p("C11", "Pointers survive being reassigned through the objects they own",
  "Assigning, moving, resetting or swapping a strong pointer is safe and has its normal result even when releasing the old object destroys the very pointer assigned from, the pointer assigned to, or runs a destructor that reads, copies or changes those pointers: the target already has its new value when the old object is destroyed. Lists, self-references and cycles can therefore be taken apart in any order with every object destroyed once.",
  ["histories", "schedules"], "every history of operations on object graphs (lists, self-owning objects, cycles) with destructors that call back into the same pointers at any point",
  NOTEST + "no test has objects that own pointers.",
  ["basic_shared_ptr.hpp"],
  [("order of release and update in assignment and reset", "basic_shared_ptr.hpp operator=, reset, swap")],
  ["pointer values during and after the operation", "destructor calls", "memory accesses after free"])

p("C12", "Every uniquely owned resource is disposed of once, by its own deleter",
  "Under every history of constructing, moving, converting, assigning, swapping, resetting, releasing and handing over unique pointers, including failed creations and deleters that call back, each resource is disposed of exactly once, by the deleter it was paired with, or is released to the caller and never disposed of. A resource destroyed by the pointer's destructor can still reach itself through that pointer, and one destroyed by reset finds the pointer already holding its new value.",
  ["histories", "fault_sequences", "programs"], "every history over all deleter kinds (default, stateful, by reference, function pointer, array), with failing allocations, throwing constructors and re-entrant deleters",
  NOTEST + "unique_ptr's tests do not run here, and none swaps, moves or converts pointers with different deleters.",
  ["unique_ptr.hpp", "default_delete.hpp", "basic_shared_ptr.hpp", "common_control_block.hpp"],
  [("release-then-reset moves with deleter", "unique_ptr.hpp move constructors and assignments, swap"), ("conversion to shared ownership", "common_control_block.hpp make_uptr_cb")],
  ["deleter calls and the deleter's identity", "get() from inside a deleter or destructor"])

p("C13", "Pointer histories refine the sequential reference model",
  "For every history of operations within one thread, with failures injected, what strong and weak pointers report (get, operator bool, owner, use_count, expired, lock, comparisons, same_owner, no_owner) is what a simple reference model of shared ownership reports, after every operation. It holds alike for atomic, local (non-atomic) and user-supplied control blocks.",
  ["histories", "fault_sequences", "configurations"], "every history of operations over all pointer kinds and conversions, with allocation and constructor failures at any creating operation",
  NOTEST + "the remaining tests visit a few dozen fixed histories and do not run here.",
  ["basic_shared_ptr.hpp", "basic_weak_ptr.hpp", "local_shared_ptr.hpp", "local_ref_count.hpp", "shared_ptr.hpp", "cb_ptr_pair.hpp"],
  [("value semantics of pointer and owner pairs", "cb_ptr_pair.hpp"), ("non-atomic counts", "local_ref_count.hpp")],
  ["all observers of shared_ptr and weak_ptr"])

p("C14", "The reference counters are linearizable",
  "Concurrent increments, decrements, increments-unless-zero and reads of the atomic reference counter behave as if executed one after another on a single counter: results are never lost or duplicated, exactly one decrement reports zero, and an increment-unless-zero fails only on zero and never raises the count from zero, however often its internal retries are interrupted.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of counter operations by several threads, including spurious compare-exchange failures",
  "The two stable tests call each counter operation a handful of times from one thread; no schedule is exercised.",
  ["atomic_ref_count.hpp"],
  [("single-instruction updates and a compare-exchange loop", "atomic_ref_count.hpp")],
  ["return values of inc, dec, inc_nz, count"])

p("C15", "The storage for standard shared pointers gives the same guarantees",
  "xstd::atomic_shared_ptr_storage, over std::shared_ptr, is linearizable in the sense of C05, keeps and releases values as in C06, publishes them fully constructed, and never blocks, also when destructors of displaced values use the same storage. xstd's make_aliased, same_owner, no_owner and enable_shared_from agree with the ownership of the pointers involved throughout.",
  ["schedules", "histories"], "every interleaving of storage operations by several threads, with stalls and with destructors that use the storage",
  NOTEST + "the std-compat tests do not run here and only look for crashes.",
  ["std_helpers.hpp", "bits/spinlock.hpp"],
  [("lock-protected holder", "std_helpers.hpp impl::asps_holder")],
  ["return values of the storage operations", "destructors of stored values", "completion of calls"])

p("C16", "Aliased, converted and cast pointers are full owners of the original object",
  "A strong pointer obtained by aliasing, make_aliased, a pointer cast or a conversion (to base, const, void) points to what was asked for and keeps the original owner's object alive just as the pointer it came from, while a dynamic cast that fails owns nothing, and neither does make_aliased or a cast that starts from a pointer without an owner. Their use counts and ownership agree with all other pointers of the group under every interleaving of use and release.",
  ["schedules", "histories"], "every history mixing aliases, casts and conversions with releases of the originals, in one or several threads",
  NOTEST + "the few alias and cast tests are sequential and do not run here.",
  ["basic_shared_ptr.hpp", "basic_weak_ptr.hpp"],
  [("aliasing constructor", "basic_shared_ptr.hpp"), ("make_aliased and casts", "basic_shared_ptr.hpp")],
  ["get, use_count, owner of the results", "managed object's destructor"])

p("C17", "Weak-pointer operations never touch the object itself",
  "Creating, copying, moving, converting, assigning, swapping, inspecting and destroying weak pointers is safe at any time, also while another thread is destroying the object or long after it has been destroyed and its memory reused, and it neither prolongs the object's life beyond the call nor races with its destruction. A weak pointer converted before expiry locks to the correctly adjusted pointer.",
  ["schedules", "histories"], "every interleaving of weak-pointer conversions (to ordinary and virtual bases, void, const) and copies with the object's destruction",
  NOTEST + "no test converts a weak pointer whose object is being or has been destroyed.",
  ["basic_weak_ptr.hpp", "cb_ptr_pair.hpp"],
  [("pointer and owner copied without dereference", "basic_weak_ptr.hpp init_from_copy/init_from_move")],
  ["memory accesses of weak-pointer operations", "locked pointer values"])

p("C20", "Only creating an owner can fail: everything else works without memory",
  "Copying, moving, converting, casting, aliasing, locking, assigning, swapping, comparing, resetting and destroying existing unique, shared and weak pointers, asking an owned object for pointers to itself, and every operation of the atomic pointer storages (xmem's and xstd's) need no memory and never fail: they have their normal results and release what they should, in every interleaving, also while every allocation fails.",
  ["schedules", "fault_sequences", "histories"], "every operation that creates no owner, at every point of every history and interleaving, with all allocations failing throughout the operation",
  NOTEST + "no test makes an allocation fail.",
  ["basic_shared_ptr.hpp", "basic_weak_ptr.hpp", "unique_ptr.hpp", "basic_atomic_shared_ptr_storage.hpp", "basic_shared_from.hpp", "std_helpers.hpp"],
  [("noexcept operations on pointer pairs and counts only", "basic_shared_ptr.hpp, basic_weak_ptr.hpp"), ("swap under the spinlock", "basic_atomic_shared_ptr_storage.hpp")],
  ["exceptions, std::terminate", "results of the operations", "operator new"])

p("C18", "Comparison, casts of values, streaming and hashing agree with the raw pointer",
  "The six comparison operators of unique_ptr and shared_ptr and the stream operator give the result the raw pointers give, and owner_before is a strict weak order consistent with same_owner.",
  ["inputs"], "all pairs of pointers",
  NOTEST + "a handful of pairs is compared.",
  ["unique_ptr.hpp", "basic_shared_ptr.hpp", "ostream.hpp"],
  [("operators forwarding to get()", "unique_ptr.hpp, basic_shared_ptr.hpp")],
  ["operator results"])

p("C19", "Type-level guarantees: sizes, overload sets and rejected programs",
  "Stateless deleters cost no space, ill-formed uses (incomplete types, null function deleters, copying unique pointers or storages) are rejected at compile time, and rebinding an allocator yields the allocator for the other type.",
  ["programs", "configurations"], "all programs using the headers",
  NOTEST + "compile-time facts are asserted for a few types.",
  ["unique_ptr.hpp", "default_delete.hpp", "allocator_rebind.hpp", "basic_atomic_shared_ptr_storage.hpp"],
  [("empty-base deleters, deleted overloads, static_asserts", "unique_ptr.hpp, default_delete.hpp")],
  ["the compiler"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
