// C28: several threads use the read-only operations of the same objects at once, every pair of operations, under every
// schedule within the bound; never a data race, never a change of the objects, always the result obtained alone.
//MC-VARIANT sched: -O1 -fsanitize=thread -DSUSA_NDEBUG
//MC-EXTRA mcsched_rt.cpp: -O1
//MC-LINK -Wl,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort,--wrap=__cxa_atexit,--wrap=__cxa_thread_atexit,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_wrlock,--wrap=pthread_rwlock_tryrdlock,--wrap=pthread_rwlock_trywrlock,--wrap=pthread_rwlock_unlock,--wrap=pthread_once,--wrap=sched_yield
//MC-LINK -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=strtok,--wrap=rand,--wrap=srand,--wrap=localtime,--wrap=gmtime,--wrap=asctime,--wrap=ctime,--wrap=setlocale,--wrap=lgamma,--wrap=drand48,--wrap=random,--wrap=srandom,--wrap=lrand48
//MC-BOUND every pair of 42 read-only operations (element access, shape, row/column/range extraction, copying, arithmetic with matrices and scalars, comparison, conversion, text output, products, determinants, ranks, solvers, reductions, filters, transforms, sorting, searching, shortest paths, encoding, decoding, modulation, array access and copying) on shared objects in two threads, all schedules with at most 1 preemption (2 thorough) at synchronisation operations and heap calls, and 1 preemption at every function entry for equal operations (every pair thorough); three threads of one operation each at synchronisation operations; matrices of 3x3, 1x1, 16x17 and 5x5 elements
//MC-ASSUME every execution is checked to be free of data races (vector clocks over all plain accesses), so interleavings inside code without synchronisation, heap calls or function calls cannot be told apart; operations that are not const are not claimed
#include "mcsched.h"
#include "reads.h"
static uint64_t R[3], ref_[64][4]; static bool have[64][4];
static uint64_t alone(int i, int k) { if (!have[i][k]) { sched::begin(); Obj o(k); { mc::Lib l; ref_[i][k] = reads()[i].f(o); } have[i][k] = true; } return ref_[i][k]; }
static void go(const std::vector<int> &w, int k, sched::Opt so) {
  auto &e = reads(); int n = (int)w.size(); uint64_t want[3]; for (int i = 0; i < n; i++) { want[i] = alone(w[i], k); R[i] = 0; MC_NOTE("thread %d: %s on shared objects %d", i, e[w[i]].name, k); }
  sched::begin(); { Obj o(k), same(k); uint64_t before = image(same); std::vector<std::function<void()>> b; for (int i = 0; i < n; i++) { ROp f = e[w[i]].f; const Obj *p = &o; b.push_back([i, f, p] { mc::Lib l; R[i] = f(*p); }); }
    sched::run(b, so);
    for (int i = 0; i < n; i++) MC_CHECK(R[i] == want[i], "thread %d (%s, objects %d) obtained a result that differs from the one it obtains alone", i, e[w[i]].name, k);
    MC_CHECK(image(o) == before, "the shared objects were changed by read-only operations"); }
  mc::heap_ok(); mc::Hash h; h.u(k); for (int i : w) h.u(i); mc::state(h.h); for (int i = 0; i < n; i++) mc::outcome(R[i]);
}
static int N() { return (int)reads().size(); }
MC_SCENARIO(pairs) { sched::begin(); int i = mc::choose(N()), j = mc::range(i, N() - 1); sched::Opt o; o.preemptions = mc::pick(1, 2); o.heap_points = mc::thorough() || i == j; go({i, j}, 0, o); }
MC_SCENARIO(shapes) { sched::begin(); int k = mc::range(1, 3), i = mc::choose(N()), j = mc::thorough() ? mc::range(i, N() - 1) : i; sched::Opt o; o.preemptions = 1; o.heap_points = k != 2; go({i, j}, k, o); }
MC_SCENARIO(function_entries) { sched::begin(); int i = mc::choose(N()), j = mc::thorough() ? mc::range(i, N() - 1) : i; sched::Opt o; o.preemptions = 1; o.func_points = true; go({i, j}, 0, o); }
MC_SCENARIO(three_threads) { sched::begin(); int i = mc::choose(N()), j = mc::thorough() ? mc::range(i, N() - 1) : i, k = mc::range(j, N() - 1); sched::Opt o; o.preemptions = 1; go({i, j, k}, 0, o); }
MC_MAIN
