// C27: threads that work on objects of their own, every pair of uses of every part of the library, under every
// schedule within the bound; each must be free of data races and obtain what it obtains alone.
//MC-VARIANT sched: -O1 -fsanitize=thread -DSUSA_NDEBUG
//MC-EXTRA mcsched_rt.cpp: -O1
//MC-LINK -Wl,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort,--wrap=__cxa_atexit,--wrap=__cxa_thread_atexit,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_wrlock,--wrap=pthread_rwlock_tryrdlock,--wrap=pthread_rwlock_trywrlock,--wrap=pthread_rwlock_unlock,--wrap=pthread_once,--wrap=sched_yield
//MC-LINK -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=strtok,--wrap=rand,--wrap=srand,--wrap=localtime,--wrap=gmtime,--wrap=asctime,--wrap=ctime,--wrap=setlocale,--wrap=lgamma,--wrap=drand48,--wrap=random,--wrap=srandom,--wrap=lrand48
//MC-BOUND every pair of 24 uses (text, arithmetic, movement, products, solvers, svd, reductions, filters, transforms, searches, paths, sets, arrays, codes, decoders, generators, modulation, pulse shape, scalars) in two threads, on equal or different inputs; all schedules with at most 1 preemption (2 thorough) at synchronisation operations and heap calls, and 1 preemption at every function entry for equal uses (every pair thorough); three threads of one use each at synchronisation operations
//MC-ASSUME every execution is checked to be free of data races (vector clocks over all plain accesses), so interleavings inside code without synchronisation, heap calls or function calls cannot be told apart; standard library internals that are not compiled here are trusted
#include "mcsched.h"
#include "ops.h"
static uint64_t R[3], ref_[64][2]; static bool have[64][2];
static uint64_t alone(int i, int s) { if (!have[i][s]) { sched::begin(); { mc::Lib l; ref_[i][s] = ops::all()[i].f(s); } have[i][s] = true; } return ref_[i][s]; }
static void go(const std::vector<std::pair<int, int>> &w, sched::Opt o) {
  auto &e = ops::all(); int n = (int)w.size(); uint64_t want[3];
  for (int i = 0; i < n; i++) { want[i] = alone(w[i].first, w[i].second); R[i] = 0; MC_NOTE("thread %d: %s, input %d", i, e[w[i].first].name, w[i].second); }
  sched::begin(); std::vector<std::function<void()>> b; for (int i = 0; i < n; i++) { auto f = e[w[i].first].f; int s = w[i].second; b.push_back([i, f, s] { mc::Lib l; R[i] = f(s); }); }
  sched::run(b, o); mc::heap_ok();
  for (int i = 0; i < n; i++) MC_CHECK(R[i] == want[i], "thread %d (%s, input %d) obtained a result that differs from the one it obtains alone", i, e[w[i].first].name, w[i].second);
  mc::Hash k; for (auto &p : w) k.u(p.first).u(p.second); mc::state(k.h); for (int i = 0; i < n; i++) mc::outcome(R[i]);
}
static int N() { return (int)ops::all().size(); }
MC_SCENARIO(pairs) { sched::begin(); int i = mc::choose(N()), j = mc::range(i, N() - 1); sched::Opt o; o.preemptions = mc::pick(1, 2); o.heap_points = true; go({{i, 0}, {j, 1}}, o); }
MC_SCENARIO(same_use) { sched::begin(); int i = mc::choose(N()), s = mc::choose(2); sched::Opt o; o.preemptions = mc::pick(1, 2); o.heap_points = true; go({{i, 0}, {i, s}}, o); }
MC_SCENARIO(function_entries) { sched::begin(); int i = mc::choose(N()), j = mc::thorough() ? mc::range(i, N() - 1) : i; sched::Opt o; o.preemptions = 1; o.func_points = true; go({{i, 0}, {j, 1}}, o); }
MC_SCENARIO(three_threads) { sched::begin(); int i = mc::choose(N()), j = mc::range(i, N() - 1), k = mc::range(j, N() - 1); sched::Opt o; o.preemptions = mc::pick(1, 2); go({{i, 0}, {j, 1}, {k, 0}}, o); }
MC_MAIN
