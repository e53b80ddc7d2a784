// C26: memory accounting under every thread interleaving (preemption bounded) of allocating, copying, releasing
// and reading threads.  Real threads, real library code, controlled scheduler (mc/mcsched_rt.cpp).
//MC-VARIANT sched: -O1 -fsanitize=thread -DSUSA_NDEBUG
//MC-EXTRA mcsched_rt.cpp: -O1
//MC-LINK -Wl,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort,--wrap=__cxa_atexit,--wrap=__cxa_thread_atexit,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_wrlock,--wrap=pthread_rwlock_tryrdlock,--wrap=pthread_rwlock_trywrlock,--wrap=pthread_rwlock_unlock,--wrap=pthread_once,--wrap=sched_yield
//MC-LINK -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=strtok,--wrap=rand,--wrap=srand,--wrap=localtime,--wrap=gmtime,--wrap=asctime,--wrap=ctime,--wrap=setlocale,--wrap=lgamma,--wrap=drand48,--wrap=random,--wrap=srandom,--wrap=lrand48
//MC-BOUND two threads with every pair of operation sequences of length two over eight operations (three threads with one operation each), all schedules with at most 2 preemptions (3 thorough) at atomic accesses, locks and guarded initialisations, and with at most 2 at heap calls as well; the accounting object is used for the first time inside the threads in half of the runs; the same pairs while 16, 240, 2^16-16 or 2^32-16 bytes are held before (so that every carry of the count is crossed)
//MC-ASSUME sequentially consistent execution between synchronisation operations, justified because every execution is also checked to be free of data races (vector clocks, all plain accesses)
#include "mcsched.h"
#include <susa.h>
typedef susa::matrix<double, susa::allocator_log<double>> M; typedef susa::array<double, susa::allocator_log<double>> A; typedef susa::matrix<std::complex<double>, susa::allocator_log<std::complex<double>>> C;
static susa::memory_tacker &tk() { return susa::memory_tacker::instance(); }
static const int MAXT = 3;
struct Th { std::vector<int> ops; std::vector<std::vector<long>> during; std::vector<long> cum; int op = 0; bool in = false; M *m = nullptr; C *c = nullptr; A *a = nullptr; long held = 0; std::vector<std::pair<long, std::set<long>>> reads; void *inst = nullptr; };
static Th T[MAXT]; static int NT; static long BASE;
static const char *ON[] = {"read", "create and destroy 2x2", "keep a 1x3", "release", "copy-assign a 2x2", "grow to 2x3", "array {2,2} copy", "complex 1x2 from text"};
// what operation o of thread t does to the tracked bytes: the set of values its contribution can have on the way, and at the end
static void predict(Th &t) {
  long h = 0; t.cum = {0}; t.during.clear(); long m = 0;
  for (int o : t.ops) {
    std::vector<long> d{h}; long b = h;
    switch (o) {
      case 1: d = {h, h + 32}; break;
      case 2: d = {h, h - m, h + 24, h - m + 24, h + 48, h - m + 48}; h += 24 - m; m = 24; break;
      case 3: d = {h, h - m}; h -= m; m = 0; break;
      case 4: d = {h, h + 32, h + 64, h - m, h - m + 32, h - m + 64}; h += 32 - m; m = 32; break;
      case 5: d = {h, h - m, h - m + 48, h + 48}; h += 48 - m; m = 48; break;
      case 6: d = {h, h + 32, h + 64}; break;
      case 7: d = {h, h + 32, h + 64}; break;
      default: break; }
    d.push_back(h); d.push_back(b); std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end()); t.during.push_back(d); t.cum.push_back(h);
  }
  t.held = h;
}
static std::vector<std::pair<int, bool>> progress() { std::vector<std::pair<int, bool>> r; for (int i = 0; i < NT; i++) r.push_back({T[i].op, T[i].in}); return r; }
static std::set<long> allowed(int me, const std::vector<std::pair<int, bool>> &a, const std::vector<std::pair<int, bool>> &b) {
  std::set<long> s{BASE + T[me].cum[T[me].op]};
  for (int i = 0; i < NT; i++) if (i != me) {
    std::set<long> v; v.insert(T[i].cum[a[i].first]); v.insert(T[i].cum[b[i].first]);
    if (a[i].second) v.erase(T[i].cum[a[i].first]);
    for (int k = a[i].first; k <= b[i].first && k < (int)T[i].ops.size(); k++) if (k < b[i].first || b[i].second) for (long x : T[i].during[k]) v.insert(x);
    std::set<long> n; for (long x : s) for (long y : v) n.insert(x + y); s.swap(n); }
  return s;
}
static void body(int me) {
  Th &t = T[me];
  for (int k = 0; k < (int)t.ops.size(); k++) {
    MC_NOTE("  thread %d: %s", me, ON[t.ops[k]]);
    auto a = progress(); t.in = true; long v = 0;
    { mc::Lib l; t.inst = &tk();
      switch (t.ops[k]) {
        case 0: v = (long)tk().read(); break;
        case 1: { M x(2, 2, 1.0); break; }
        case 2: if (!t.m) t.m = new M(1, 3, 2.0); else *t.m = M(1, 3, 2.0); break;
        case 3: delete t.m; t.m = nullptr; break;
        case 4: { if (!t.m) t.m = new M; M x(2, 2, 3.0); *t.m = x; break; }
        case 5: if (!t.m) t.m = new M; t.m->resize(2, 3); break;
        case 6: { A x({2, 2}); A y(x); break; }
        case 7: { C x("[1 2]"); C y(x.shape()); break; } } }
    t.in = false; t.op = k + 1; auto b = progress();
    if (t.ops[k] == 0) { T[me].op = k; auto s = allowed(me, a, b); T[me].op = k + 1; bool ok = s.count(v) != 0; if (!ok) { std::string x; for (long y : s) x += " " + std::to_string(y); mc::fail("thread %d read %ld tracked bytes; the concurrent operations allow only%s", me, v, x.c_str()); } mc::outcome(mc::Hash().u(v).u(me).u(k).h); }
  }
}
static void go(int nt, int len, sched::Opt o, bool first, long base = 16) {
  sched::begin(); NT = nt; BASE = 0; long keep = 0; M *pre = nullptr;
  for (int i = 0; i < nt; i++) { T[i] = Th(); for (int k = 0; k < len; k++) T[i].ops.push_back(mc::choose(8)); if (i && nt == 2) mc::assume(T[i].ops >= T[i - 1].ops); if (i && nt == 3) mc::assume(T[i].ops >= T[i - 1].ops); predict(T[i]); }
  int blocks = 0;   // what the accounting itself may keep on the heap
  if (!first) { mc::Lib l; tk(); blocks = mc::g_nblk; pre = new M(1, 2, 1.0); tk().add(base - 16); keep = base; BASE = (long)tk().read(); }
  if (!first) MC_CHECK(BASE == base, "%ld bytes are held and %ld bytes are tracked", base, BASE);
  std::vector<std::function<void()>> bs; for (int i = 0; i < nt; i++) bs.push_back([i] { body(i); });
  sched::run(bs, o);
  long want = keep, got; for (int i = 0; i < nt; i++) want += T[i].held;
  { mc::Lib l; got = (long)tk().read(); for (int i = 0; i < nt; i++) if (T[i].inst && T[i].inst != &tk()) mc::fail("thread %d used a different accounting object", i); }
  MC_CHECK(got == want, "%ld bytes tracked after the threads finished, the live objects hold %ld", got, want);
  { mc::Lib l; for (int i = 0; i < nt; i++) { delete T[i].m; T[i].m = nullptr; } delete pre; if (!first) tk().sub(base - 16); got = (long)tk().read(); }
  MC_CHECK(got == 0, "%ld bytes tracked after every object is gone", got); mc::heap_ok(); if (!first) MC_CHECK(mc::g_nblk == blocks, "%d heap blocks leaked", mc::g_nblk - blocks);
  mc::Hash k; for (int i = 0; i < nt; i++) for (int x : T[i].ops) k.u(x); mc::state(k.u(first).h);
}
MC_SCENARIO(pairs_of_operations) { sched::Opt o; o.preemptions = mc::pick(2, 3); go(2, 2, o, mc::flip()); }
// the count passes a multiple of 2^8, 2^16 and 2^32 while it is read
MC_SCENARIO(carries) { static const long B[] = {240, 65520, (1L << 32) - 16}; sched::Opt o; o.preemptions = mc::pick(2, 3); go(2, 2, o, false, B[mc::choose(3)]); }
MC_SCENARIO(heap_calls_interleaved) { sched::Opt o; o.preemptions = mc::pick(1, 2); o.heap_points = true; go(2, mc::pick(1, 2), o, mc::flip()); }
MC_SCENARIO(three_threads) { sched::Opt o; o.preemptions = 2; go(3, 1, o, mc::flip()); }
MC_MAIN
