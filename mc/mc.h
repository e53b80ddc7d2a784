// mc.h - a small explicit, exhaustive explorer for harnesses that drive the real code.
//
// A scenario is a C++ function that calls mc::choose(n) at every nondeterministic point
// (which operation, which argument, which environment answer, which thread runs next).
// The explorer executes the scenario once for EVERY sequence of choice results (depth-first,
// stateless), on several worker processes that share the tree by splitting it at the
// shallowest unexplored choice.  Nothing is sampled.
//
//  * mc::state(h)     records a canonical state; counts distinct states over all workers
//  * mc::prune(h)     as state(), and abandons the execution when h was seen before
//                     (h must include the remaining depth -> sound for bounded search)
//  * mc::fail / MC_CHECK  report a violation; the execution's choice list is the replay
//  * a crash (signal, sanitizer report, exit, abort) or a hang is attributed to the
//    execution that was running, which is re-run alone in a fresh process before it is reported.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <new>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <csetjmp>
#include <csignal>
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

// ---------------------------------------------------------------- hashing
struct Hash {
  uint64_t h = 0x9E3779B97F4A7C15ull;
  static uint64_t mix(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  Hash &u(uint64_t v) { h = mix(h ^ (v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2))); return *this; }
  Hash &bytes(const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p;
    u(n);
    while (n >= 8) { uint64_t v; memcpy(&v, c, 8); u(v); c += 8; n -= 8; }
    uint64_t v = 0; memcpy(&v, c, n); u(v);
    return *this;
  }
  Hash &d(double x) { uint64_t v; if (x == 0) x = 0; memcpy(&v, &x, 8); return u(v); }
  Hash &s(const std::string &x) { return bytes(x.data(), x.size()); }
};

// ---------------------------------------------------------------- configuration and shared state
struct Stop {};                                  // execution abandoned (pruned or outside the domain)
struct Fail { std::string key, msg; };

static const int MAXCH = 6000, MAXPFX = 96, QCAP = 8192, MAXW = 16, MAXSC = 128, MAXKF = 64;

static const int PASTCH = 400, NFIRST = 8, NLAST = 56;
struct Unit { int sc; int plen; uint16_t pfx[MAXPFX]; };
struct Slot {
  std::atomic<int> pid, status;                  // status: 0 idle 1 running 2 fail reported
  std::atomic<int> sc, nch;
  uint16_t ch[MAXCH];
  Unit unit;
  std::atomic<uint64_t> beat;
  char key[128];
  char msg[4096];
  // what this worker executed before: the first NFIRST executions, then a ring of the last NLAST
  struct Past { int sc, n; uint16_t ch[PASTCH]; };
  Past past[NFIRST + NLAST];
  std::atomic<uint64_t> npast;
};
struct Shared {
  std::atomic_flag lock;
  std::atomic<int> qn, active, stopnow, capped;
  Unit q[QCAP];
  Slot slot[MAXW];
  std::atomic<uint64_t> execs, stopped, trans, outcomes, states, pruned, tablefull;
  std::atomic<uint64_t> sc_execs[MAXSC], sc_maxch[MAXSC];
  std::atomic<int> kf_seen[MAXKF];
};
struct Table {                                   // shared lock-free set of 64-bit keys
  std::atomic<uint64_t> *t = nullptr; size_t cap = 0;
  void init(size_t c) {
    cap = c;
    void *p = mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    t = (std::atomic<uint64_t> *)p;
  }
  // 1 inserted, 0 present, -1 full
  int insert(uint64_t k) {
    if (k == 0) k = 1;
    size_t i = Hash::mix(k) & (cap - 1);
    for (size_t n = 0; n < 4096; n++) {
      uint64_t v = t[i].load(std::memory_order_relaxed);
      if (v == k) return 0;
      if (v == 0) {
        uint64_t e = 0;
        if (t[i].compare_exchange_strong(e, k)) return 1;
        if (e == k) return 0;
      }
      i = (i + 1) & (cap - 1);
    }
    return -1;
  }
};

struct Scenario { const char *name; void (*fn)(); };
inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> s; return s; }
struct Reg { Reg(const char *n, void (*f)()) { scenarios().push_back({n, f}); } };

inline Shared *sh = nullptr;
inline Table statetab, outcometab;
inline bool g_thorough = false;
inline bool g_trace = false;
inline uint64_t g_seed = 1;
inline std::string g_property = "?";
inline std::vector<std::pair<std::string, std::string>> g_known;   // key, text

inline bool thorough() { return g_thorough; }
template <class T> T pick(T quick, T thor) { return g_thorough ? thor : quick; }

// ---------------------------------------------------------------- current execution (per worker)
struct Exec {
  int sc = 0;
  std::vector<uint16_t> idx, lim;   // idx taken, lim = number of alternatives this worker still owns
  std::vector<uint16_t> arity;
  size_t base = 0, pos = 0;         // [0,base) belongs to the unit prefix
  Slot *slot = nullptr;
  bool replaying = false;
  uint64_t ltrans = 0;
  std::string detail;               // last described step, for crash reports
};
inline Exec X;

inline void die(const char *fmt, ...) {
  va_list a; va_start(a, fmt); vfprintf(stderr, fmt, a); va_end(a);
  fputc('\n', stderr); fflush(stderr); _exit(3);
}

// Nondeterministic choice among 0..n-1.  Every value is explored.
inline int choose(int n) {
  if (n <= 0) throw Stop{};
  if (n > 65535) die("mc: arity too large");
  size_t p = X.pos;
  int r;
  if (p < X.idx.size()) {
    if (p < X.arity.size() && X.arity[p] != 0 && X.arity[p] != n)
      die("mc: scenario %s is not deterministic: choice %zu had %d alternatives, now %d", scenarios()[X.sc].name, p, X.arity[p], n);
    r = X.idx[p];
    if (r >= n) die("mc: scenario %s: replayed choice %zu = %d out of range %d", scenarios()[X.sc].name, p, r, n);
    if (p >= X.arity.size()) { X.arity.resize(p + 1, 0); X.lim.resize(p + 1, 0); }
    X.arity[p] = n;
    if (X.lim[p] == 0) X.lim[p] = (p < X.base || X.replaying) ? r + 1 : n;
  } else {
    r = 0;
    X.idx.push_back(0); X.arity.resize(p + 1, 0); X.lim.resize(p + 1, 0);
    X.arity[p] = n; X.lim[p] = n;
  }
  X.pos++;
  if (X.slot) {
    if (X.pos >= MAXCH) die("mc: execution too long");
    X.slot->ch[p] = (uint16_t)r;
    X.slot->nch.store((int)X.pos, std::memory_order_relaxed);
    X.slot->beat.fetch_add(1, std::memory_order_relaxed);
  }
  return r;
}
inline int range(int lo, int hi) { return lo + choose(hi - lo + 1); }      // inclusive
inline bool flip() { return choose(2) == 1; }
template <class T> const T &any(const std::vector<T> &v) { return v[choose((int)v.size())]; }
template <class T> T any(std::initializer_list<T> v) { return *(v.begin() + choose((int)v.size())); }
inline void assume(bool b) { if (!b) throw Stop{}; }

inline int g_tracefd = -1;
inline void note(const char *fmt, ...) {
  if (!g_trace) return;
  char b[2048]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, a); va_end(a);
  if (n > (int)sizeof b - 2) n = (int)sizeof b - 2;
  b[n] = '\n';
  if (g_tracefd >= 0) (void)!write(g_tracefd, b, (size_t)n + 1);
}
#define MC_NOTE(...) do { if (mc::g_trace) mc::note(__VA_ARGS__); } while (0)

// one transition of the system under test (an operation applied, a scheduling step taken)
inline void step(uint64_t n = 1) { X.ltrans += n; if (X.slot) X.slot->beat.fetch_add(1, std::memory_order_relaxed); }

inline bool state(uint64_t h) {               // true when new
  Hash k; k.u(X.sc).u(h);
  int r = statetab.insert(k.h);
  if (r == 1 && sh) sh->states.fetch_add(1, std::memory_order_relaxed);
  if (r < 0 && sh) sh->tablefull.fetch_add(1, std::memory_order_relaxed);
  return r != 0;
}
inline void prune(uint64_t h) {
  if (X.replaying) return;
  // While the unit prefix is being replayed nothing may be pruned: these states were entered
  // by the worker that split the tree.
  if (X.pos < X.base || X.pos < X.idx.size()) return;
  if (!state(h)) { if (sh) sh->pruned.fetch_add(1, std::memory_order_relaxed); throw Stop{}; }
}
inline void outcome(uint64_t h) {
  Hash k; k.u(X.sc).u(h);
  if (outcometab.insert(k.h) == 1 && sh) sh->outcomes.fetch_add(1, std::memory_order_relaxed);
}

[[noreturn]] inline void fail_key(const std::string &key, const char *fmt, ...) {
  char b[3500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  throw Fail{key, b};
}
[[noreturn]] inline void fail(const char *fmt, ...) {
  char b[3500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  throw Fail{"", b};
}
#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)

// ---------------------------------------------------------------- heap as environment
// Every byte the library obtains from operator new / malloc-backed containers is filled with a
// pattern the scenario chooses, so that results cannot silently depend on fresh memory being zero.
inline int g_fill = 0xBF;                     // byte; the scenario may set it
inline bool g_heap_on = false;                // counting only while the code under test runs
struct Blk { char *p; size_t n; };
static const int MAXBLK = 4096;
inline Blk g_blk[MAXBLK];                     // live blocks obtained while g_heap_on
inline int g_nblk = 0;
inline char g_heap_err[256];
inline bool g_leak = false;                   // the last failure was a leak
inline long g_live_bytes = 0;
inline long g_new_calls = 0, g_fail_at = -1, g_fail_at2 = -1, g_faults = 0;
// the code under test runs inside a Lib scope: its heap blocks are registered, counted and may fail
struct Lib { bool o; Lib() : o(g_heap_on) { g_heap_on = true; } ~Lib() { g_heap_on = o; } };
struct NoLib { bool o; NoLib() : o(g_heap_on) { g_heap_on = false; } ~NoLib() { g_heap_on = o; } };
template <class F> auto lib(F f) { Lib l; return f(); }
inline void heap_ok() { if (g_heap_err[0]) fail("heap misuse: %s", g_heap_err); }
inline void heap_empty(const char *when) {
  heap_ok();
  if (g_nblk) { g_leak = true; fail("%d heap block(s), %ld bytes leaked %s", g_nblk, g_live_bytes, when); }
}
// Canonical hash of an object's representation: words that are addresses of live registered blocks are
// replaced by their order of discovery and the blocks' contents are hashed; everything else is hashed raw.
// It over-distinguishes (padding, stale words) but never merges states with different futures.
struct Canon {
  std::vector<std::pair<char *, size_t>> todo; std::vector<char *> seen; Hash k;
  void words(const char *p, size_t n) {
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
      uint64_t w; memcpy(&w, p + i, 8);
      bool ptr = false;
      if (w > 4096) for (int b = 0; b < g_nblk; b++) if (w >= (uint64_t)g_blk[b].p && w <= (uint64_t)g_blk[b].p + g_blk[b].n) {   // the start, the inside or the end of a block
        size_t j = 0; for (; j < seen.size(); j++) if (seen[j] == g_blk[b].p) break;
        if (j == seen.size()) { seen.push_back(g_blk[b].p); todo.push_back({g_blk[b].p, g_blk[b].n}); }
        k.u(0x5151).u(j).u(w - (uint64_t)g_blk[b].p); ptr = true; break;
      }
      if (!ptr) k.u(w);
    }
    if (i < n) k.bytes(p + i, n - i);
  }
  Canon &obj(const void *p, size_t n) {
    words((const char *)p, n);
    while (!todo.empty()) { auto t = todo.back(); todo.pop_back(); k.u(t.second); words(t.first, t.second); }
    return *this;
  }
};
inline size_t g_max_alloc = (size_t)1 << 31;  // larger requests throw bad_alloc as a real system would

// ---------------------------------------------------------------- abort interposition
inline sigjmp_buf g_abort_jmp;
inline volatile int g_abort_armed = 0;
inline char g_abort_msg[1024];

// Runs f; returns true when it ended in abort()/assert failure instead of returning.
template <class F> bool aborts(F f) {
  g_abort_msg[0] = 0;
  volatile bool r, ho = g_heap_on;
  if (sigsetjmp(g_abort_jmp, 0) == 0) {
    g_abort_armed = 1;
    try { f(); } catch (...) { g_abort_armed = 0; throw; }
    r = false;
  } else r = true;
  g_abort_armed = 0; g_heap_on = ho;
  return r;
}
// leaves recognisable garbage where the next call's locals will live
__attribute__((noinline)) inline void dirty_stack(int byte) {
  volatile unsigned char junk[6000];
  for (size_t i = 0; i < sizeof junk; i++) junk[i] = (unsigned char)byte;
}

// silences std::cerr's descriptor (assertion chatter) in workers
inline void quiet_stderr() {
  int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); close(fd); }
}

} // namespace mc

#ifndef MC_PART
#define MC_PART 0
#endif
#if !defined(MC_NO_INTERPOSE) && MC_PART == 0
extern "C" {
[[noreturn]] void abort() noexcept {
  if (mc::g_abort_armed) siglongjmp(mc::g_abort_jmp, 1);
  if (mc::X.slot) { mc::X.slot->status = 3; }
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
  _exit(134);
}
[[noreturn]] void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept {
  snprintf(mc::g_abort_msg, sizeof mc::g_abort_msg, "assertion (%s) in %s, %s:%u", e, fn, f, l);
  if (!mc::g_abort_armed) fprintf(stderr, "%s\n", mc::g_abort_msg);
  abort();
}
}
#endif
#ifndef MC_NO_NEW
namespace mc {
inline void *xnew(size_t n) {
  if (n > g_max_alloc) throw std::bad_alloc();
  if (g_heap_on) {
    long k = g_new_calls++;
    if (k == g_fail_at || k == g_fail_at2) { g_faults++; throw std::bad_alloc(); }
  }
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  memset(p, g_fill, n ? n : 1);
  if (g_heap_on) {
    if (g_nblk >= MAXBLK) { fprintf(stderr, "mc: too many live blocks\n"); _exit(3); }
    g_blk[g_nblk++] = {(char *)p, n};
    g_live_bytes += (long)n;
  }
  return p;
}
inline void xdel(void *p, size_t sz) noexcept {
  if (!p) return;
  for (int i = g_nblk - 1; i >= 0; i--) if (g_blk[i].p == p) {
    if (sz != (size_t)-1 && sz != g_blk[i].n && !g_heap_err[0])
      snprintf(g_heap_err, sizeof g_heap_err, "a block of %zu bytes was released as %zu bytes", g_blk[i].n, sz);
    g_live_bytes -= (long)g_blk[i].n;
    g_blk[i] = g_blk[--g_nblk];
    break;
  }
  free(p);
}
}
#if MC_PART == 0
void *operator new(size_t n) { return mc::xnew(n); }
void *operator new[](size_t n) { return mc::xnew(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return mc::xnew(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return mc::xnew(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { mc::xdel(p, (size_t)-1); }
void operator delete[](void *p) noexcept { mc::xdel(p, (size_t)-1); }
void operator delete(void *p, size_t n) noexcept { mc::xdel(p, n); }
void operator delete[](void *p, size_t) noexcept { mc::xdel(p, (size_t)-1); }
void operator delete(void *p, const std::nothrow_t &) noexcept { mc::xdel(p, (size_t)-1); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { mc::xdel(p, (size_t)-1); }
#endif
#endif

namespace mc {

// ---------------------------------------------------------------- running
struct Lock {
  Lock() { while (sh->lock.test_and_set(std::memory_order_acquire)) usleep(20); }
  ~Lock() { sh->lock.clear(std::memory_order_release); }
};

// runs the scenario once along X.idx; 0 ok, 1 stopped, 2 fail (key/msg set)
inline int run_once_(std::string &key, std::string &msg) {
  X.pos = 0; g_leak = false; X.ltrans = 0; X.detail.clear();
  g_fill = 0xBF; g_fail_at = g_fail_at2 = -1; g_new_calls = 0; g_heap_on = false; g_faults = 0; g_nblk = 0; g_live_bytes = 0; g_heap_err[0] = 0;
  if (X.slot) { X.slot->sc = X.sc; X.slot->nch = 0; X.slot->beat.fetch_add(1); }
  try {
    scenarios()[X.sc].fn();
  } catch (Stop &) { g_heap_on = false; return 1;
  } catch (Fail &f) { g_heap_on = false; key = f.key; msg = f.msg; return 2;
  } catch (std::bad_alloc &) { g_heap_on = false; key = ""; msg = "unexpected std::bad_alloc escaped from the library"; return 2;
  } catch (std::exception &e) { g_heap_on = false; key = ""; msg = std::string("unexpected exception escaped from the library: ") + e.what(); return 2;
  } catch (const char *e) { g_heap_on = false; key = ""; msg = std::string("unexpected exception escaped from the library: ") + e; return 2;
  } catch (...) { g_heap_on = false; key = ""; msg = "unexpected exception escaped from the library"; return 2; }
  return 0;
}
// A block that is still there at the end is a leak when it appears each time; a block that is only allocated the
// first time (a cache the library keeps) is not.
inline int run_once(std::string &key, std::string &msg) {
  int r = run_once_(key, msg);
  if (r == 2 && g_leak) {
    bool o = X.replaying; X.replaying = true; std::string k, m; int q = run_once_(k, m); X.replaying = o;
    if (q == 0) return 0;
    if (q == 2) { key = k; msg = m; }
  }
  return r;
}
inline int known_index(const std::string &key) {
  if (key.empty()) return -1;
  for (size_t i = 0; i < g_known.size() && i < MAXKF; i++) if (g_known[i].first == key) return (int)i;
  return -1;
}

inline double now() {
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

inline void worker(int w, double deadline) {
  Slot &S = sh->slot[w];
  X = Exec(); X.slot = &S;
  bool activef = false;
  for (;;) {
    Unit u; bool got = false;
    {
      Lock l;
      if (sh->stopnow) { if (activef) sh->active--; S.status = 0; sh->lock.clear(); _exit(42); }
      if (sh->qn > 0) { u = sh->q[--sh->qn]; got = true; if (!activef) { sh->active++; activef = true; } }
      else { if (activef) { sh->active--; activef = false; } if (sh->active == 0) { sh->lock.clear(); _exit(42); } }
    }
    if (!got) { S.status = 0; usleep(200); continue; }
    S.unit = u; S.status = 1;
    X.sc = u.sc; X.idx.assign(u.pfx, u.pfx + u.plen); X.lim.clear(); X.arity.clear(); X.base = u.plen;
    uint64_t lexec = 0, lstop = 0, ltr = 0;
    auto flush = [&] {
      sh->execs += lexec; sh->sc_execs[X.sc] += lexec; sh->stopped += lstop; sh->trans += ltr; lexec = lstop = ltr = 0;
    };
    int sinceck = 0;
    for (;;) {
      std::string key, msg;
      int r = run_once(key, msg);
      if (r != 2) {
        uint64_t q = S.npast; Slot::Past &P = S.past[q < NFIRST ? q : NFIRST + (q - NFIRST) % NLAST];
        P.sc = X.sc; P.n = X.pos <= (size_t)PASTCH ? (int)X.pos : -1; if (P.n > 0) memcpy(P.ch, X.idx.data(), P.n * sizeof(uint16_t)); S.npast = q + 1;
      }
      if (r == 2) {
        int k = known_index(key);
        if (k >= 0) sh->kf_seen[k] = 1;
        else {
          snprintf(S.key, sizeof S.key, "%s", key.c_str());
          snprintf(S.msg, sizeof S.msg, "%s", msg.c_str());
          S.status = 2; flush(); _exit(77);
        }
      }
      if (r == 1) lstop++; else lexec++;
      ltr += X.ltrans;
      if (X.pos > sh->sc_maxch[X.sc]) sh->sc_maxch[X.sc] = X.pos;
      // advance
      size_t n = X.pos;
      X.idx.resize(n); X.lim.resize(n); X.arity.resize(n);
      while (n > X.base && X.idx[n - 1] + 1 >= X.lim[n - 1]) n--;
      X.idx.resize(n); X.lim.resize(n); X.arity.resize(n);
      if (n <= X.base) break;
      X.idx[n - 1]++;
      if (++sinceck >= 16 || r == 0) {
        sinceck = 0;
        if (sh->stopnow) { flush(); { Lock l; sh->active--; } _exit(42); }
        if ((lexec & 15) == 0 && now() > deadline) { sh->capped = 1; flush(); { Lock l; sh->active--; } _exit(42); }
        // share work: hand the shallowest unexplored alternatives to idle workers
        if (sh->qn.load(std::memory_order_relaxed) < 8) {
          size_t i = X.base;
          while (i < n && X.idx[i] + 1 >= X.lim[i]) i++;
          // keep the last position for ourselves unless there is something to give there
          if (i < n && i + 1 < (size_t)MAXPFX) {
            Lock l;
            int give = X.lim[i] - (X.idx[i] + 1);
            if (sh->qn + give < QCAP) {
              for (int j = X.lim[i] - 1; j > X.idx[i]; j--) {
                Unit &q = sh->q[sh->qn++];
                q.sc = X.sc; q.plen = (int)i + 1;
                for (size_t t = 0; t < i; t++) q.pfx[t] = X.idx[t];
                q.pfx[i] = (uint16_t)j;
              }
              X.lim[i] = X.idx[i] + 1;
            }
          }
        }
        if (lexec >= 64) flush();
      }
    }
    flush();
  }
}

inline std::string hex_choices(const uint16_t *c, int n) {
  std::string s; char b[16];
  for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%s%d", i ? "," : "", c[i]); s += b; }
  return s;
}

// Re-runs one execution in a fresh process with tracing. Returns description of how it ended:
// "ok", "fail:<msg>", "signal N", "exit N", "hang".
struct Prior { int sc; std::vector<uint16_t> ch; };
inline std::string replay(int sc, const std::vector<uint16_t> &ch, std::string &trace, double limit, std::string *err = nullptr, std::string *keyout = nullptr, const std::vector<Prior> *before = nullptr) {
  char tf[] = "/tmp/mcreplayXXXXXX"; int fd = mkstemp(tf); if (fd < 0) return "error";
  std::string ef = std::string(tf) + ".err";
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    int e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2); dup2(e, 1);
    if (before) for (const Prior &p : *before) { X = Exec(); X.sc = p.sc; X.idx = p.ch; X.base = p.ch.size(); X.replaying = true; std::string k, m; run_once(k, m); }
    X = Exec(); X.sc = sc; X.idx = ch; X.base = ch.size(); X.replaying = true;
    g_trace = true;
    g_tracefd = fd;                              // notes are written through, they survive a crash
    std::string key, msg;
    int r = run_once(key, msg);
    if (r == 2) { std::string o = "\x01" "KEY" + key + "\x01" "MSG" + msg; (void)!write(fd, o.data(), o.size()); _exit(77); }
    _exit(r == 1 ? 78 : 42);
  }
  double t0 = now(); int st = 0; bool hang = false;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; }
    usleep(500);
  }
  auto slurp = [](const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); };
  std::string t = slurp(tf), e = slurp(ef);
  close(fd); unlink(tf); unlink(ef.c_str());
  std::string msg, key;
  size_t k = t.find("\x01" "KEY");
  if (k != std::string::npos) {
    size_t m = t.find("\x01" "MSG", k);
    key = t.substr(k + 4, m - k - 4); msg = t.substr(m + 4); t = t.substr(0, k);
  }
  trace = t; if (err) *err = e; if (keyout) *keyout = key;
  if (hang) return "hang";
  if (WIFSIGNALED(st)) return "signal " + std::to_string(WTERMSIG(st));
  int c = WEXITSTATUS(st);
  if (c == 77) return "fail:" + msg;
  if (c == 42) return "ok";
  if (c == 78) return "stopped";
  return "exit " + std::to_string(c);
}

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}

// argv: [--replay file] ; environment VERIF_TIER, VERIF_SEED, MC_PROPERTY, MC_OUT (json), MC_REPLAY_OUT, MC_KNOWN, MC_CAP
inline int main_(int argc, char **argv) {
  const char *e;
  if ((e = getenv("VERIF_TIER"))) g_thorough = !strcmp(e, "thorough");
  if ((e = getenv("VERIF_SEED"))) g_seed = strtoull(e, nullptr, 10);
  if ((e = getenv("MC_PROPERTY"))) g_property = e;
  int nw = 8; if ((e = getenv("MC_WORKERS"))) nw = std::max(1, std::min(MAXW, atoi(e)));
  double cap = g_thorough ? 700 : 100; if ((e = getenv("MC_CAP"))) cap = atof(e);
  double hanglim = 15; if ((e = getenv("MC_HANG"))) hanglim = atof(e);
  const char *only = getenv("MC_ONLY");
  if ((e = getenv("MC_KNOWN"))) {
    std::ifstream f(e); std::string l;
    std::string want = "KNOWN-FINDING: property=" + g_property + " key=";
    while (std::getline(f, l)) if (l.compare(0, want.size(), want) == 0) {
      std::string r = l.substr(want.size()); size_t sp = r.find(' ');
      g_known.push_back({r.substr(0, sp), sp == std::string::npos ? "" : r.substr(sp + 1)});
    }
  }
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); return 2; }
  sh = (Shared *)p;                              // zero-initialised by the kernel
  statetab.init((size_t)1 << (g_thorough ? 27 : 25)); outcometab.init((size_t)1 << 22);

  if (argc >= 3 && !strcmp(argv[1], "--replay")) {
    std::ifstream f(argv[2]); std::string l, name; std::vector<uint16_t> ch; std::vector<Prior> before;
    while (std::getline(f, l)) {
      if (l.compare(0, 7, "before ") == 0) { std::stringstream s(l.substr(7)); std::string n, c, t; s >> n >> c; Prior p; p.sc = -1; for (size_t i = 0; i < scenarios().size(); i++) if (n == scenarios()[i].name) p.sc = (int)i; std::stringstream cs(c); while (std::getline(cs, t, ',')) p.ch.push_back((uint16_t)atoi(t.c_str())); if (p.sc >= 0) before.push_back(p); }
      if (l.compare(0, 9, "scenario ") == 0) name = l.substr(9);
      if (l.compare(0, 8, "choices ") == 0) { std::stringstream s(l.substr(8)); std::string t; while (std::getline(s, t, ',')) ch.push_back((uint16_t)atoi(t.c_str())); }
    }
    for (size_t i = 0; i < scenarios().size(); i++) if (name == scenarios()[i].name) {
      std::string tr, er; std::string r = replay((int)i, ch, tr, 120, &er, nullptr, &before);
      printf("%s%s\n=> %s\n", tr.c_str(), er.c_str(), r.c_str());
      return (r == "ok" || r == "stopped") ? 0 : 1;
    }
    fprintf(stderr, "unknown scenario '%s'\n", name.c_str()); return 2;
  }

  double t0 = now();
  int nsc = 0;
  for (size_t i = scenarios().size(); i-- > 0;) {
    if (only && !strstr(scenarios()[i].name, only)) continue;
    Unit &u = sh->q[sh->qn++]; u.sc = (int)i; u.plen = 0; nsc++;
  }
  if ((size_t)nsc > MAXSC || nsc == 0) { fprintf(stderr, "bad scenario count\n"); return 2; }
  std::vector<pid_t> pid(nw, -1); std::vector<uint64_t> beat(nw, 0); std::vector<double> beatt(nw, now());
  auto spawn = [&](int w) {
    fflush(stdout); fflush(stderr);
    pid_t q = fork();
    if (q == 0) { if (!getenv("MC_LOUD")) quiet_stderr(); worker(w, t0 + cap); _exit(42); }
    pid[w] = q; sh->slot[w].pid = q; beatt[w] = now();
  };
  for (int w = 0; w < nw; w++) spawn(w);
  bool violated = false; std::string vmsg, vtrace, verr; int vsc = -1; std::vector<uint16_t> vch; std::vector<Prior> vbefore; int infra = 0;

  auto report = [&](int w, const std::string &how) {
    Slot &S = sh->slot[w];
    std::vector<uint16_t> ch(S.ch, S.ch + S.nch.load());
    int sc = S.sc;
    std::string tr, er, key;
    std::string r = replay(sc, ch, tr, how == "hang" ? 90 : 60, &er, &key);
    if (getenv("MC_LOUD")) fprintf(stderr, "[mc] worker %d: %s; replay of %s [%s]: %s\n", w, how.c_str(), scenarios()[sc].name, hex_choices(ch.data(), (int)ch.size()).c_str(), r.c_str());
    if (r == "ok" || r == "stopped") {
      if (how == "hang") return 0;               // slow, not hung
      // the execution fails only after others: replay it behind what the same worker executed before
      uint64_t np = S.npast; std::vector<Prior> all;
      for (uint64_t q = 0; q < np; q++) {
        if (q >= NFIRST && q + NLAST < np) continue;
        Slot::Past &P = S.past[q < NFIRST ? q : NFIRST + (q - NFIRST) % NLAST];
        if (P.n >= 0) all.push_back({P.sc, std::vector<uint16_t>(P.ch, P.ch + P.n)});
      }
      size_t na = all.size(); std::vector<std::vector<Prior>> cand;
      for (size_t k : {(size_t)1, (size_t)4, (size_t)16}) if (k < na) cand.push_back(std::vector<Prior>(all.end() - k, all.end()));
      if (na) cand.push_back({all[0]});
      if (na) cand.push_back(all);
      for (auto &b : cand) {
        r = replay(sc, ch, tr, 60, &er, &key, &b);
        if (r.compare(0, 5, "fail:") == 0 || r.compare(0, 6, "signal") == 0 || r.compare(0, 4, "exit") == 0) {
          if (!violated) { violated = true; vsc = sc; vch = ch; vtrace = tr; verr = er; vbefore = b; vmsg = (r.compare(0, 5, "fail:") == 0 ? r.substr(5) : how + "; replayed: " + r) + " (only after " + std::to_string(b.size()) + " earlier execution(s) in one process)"; }
          return 1;
        }
      }
      if (how == "check failed" && !violated) {  // what the real code did was wrong, whatever it depends on
        violated = true; vsc = sc; vch = ch; vtrace = tr; verr = er; vbefore = all; vmsg = std::string(S.msg) + " (depends on earlier executions; not reproduced by the last ones alone)";
        return 1;
      }
      return 2;
    }
    if (!violated) {
      violated = true; vsc = sc; vch = ch; vtrace = tr; verr = er;
      vmsg = r.compare(0, 5, "fail:") == 0 ? r.substr(5) : (how + "; replayed alone: " + r);
    }
    return 1;
  };
  int alive = nw;
  while (alive > 0) {
    usleep(2000);
    for (int w = 0; w < nw; w++) {
      if (pid[w] < 0) continue;
      int st; pid_t q = waitpid(pid[w], &st, WNOHANG);
      Slot &S = sh->slot[w];
      if (q == pid[w]) {
        pid[w] = -1; alive--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { infra = 1; sh->stopnow = 1; fprintf(stderr, "mc: harness error (nondeterministic scenario?) in %s\n", scenarios()[S.sc].name); }
        else if (!violated) {
          std::string how = WIFSIGNALED(st) ? "process died with signal " + std::to_string(WTERMSIG(st))
                          : WEXITSTATUS(st) == 77 ? "check failed" : "process exited with status " + std::to_string(WEXITSTATUS(st));
          int r = report(w, how);
          if (r == 2) {
            infra = 1;
            fprintf(stderr, "mc: %s in scenario %s did not reproduce alone: %s | %s\n", how.c_str(), scenarios()[S.sc].name, S.msg, hex_choices(S.ch, S.nch).c_str());
          }
          sh->stopnow = 1;
        }
      } else {
        uint64_t b = S.beat;
        if (b != beat[w] || S.status == 0) { beat[w] = b; beatt[w] = now(); }
        else if (now() - beatt[w] > hanglim) {
          int r = violated ? 0 : report(w, "hang");
          if (r == 0) { beatt[w] = now() + 60; }
          else { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = -1; alive--; sh->stopnow = 1; }
        }
      }
    }
    if (sh->stopnow && (violated || infra)) {
      static double stopt = 0; if (stopt == 0) stopt = now();
      if (now() - stopt > 2) for (int w = 0; w < nw; w++) if (pid[w] > 0) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); pid[w] = -1; alive--; }
    }
  }
  double wall = now() - t0;
  // Samples: the first and a late execution of several scenarios, re-run with tracing.
  std::string samples;
  int ns = 0;
  if (!violated && !infra) {
    size_t stepn = std::max<size_t>(1, scenarios().size() / 5);
    for (size_t i = 0; i < scenarios().size() && ns < 6; i += stepn) {
      if (only && !strstr(scenarios()[i].name, only)) continue;
      for (int late = 0; late < 1; late++) {
        std::vector<uint16_t> ch; std::string tr;
        std::string r = replay((int)i, ch, tr, 60);
        if (tr.size() > 700) tr = tr.substr(0, 700) + "...";
        samples += std::string(ns ? "," : "") + "{\"scenario\":\"" + scenarios()[i].name + "\",\"choices\":\"first execution (all zero)\",\"trace\":\"" + jesc(tr) + "\",\"result\":\"" + jesc(r) + "\"}";
        ns++;
      }
    }
    for (int w = 0; w < nw && ns < 9; w += 3) {  // the last execution each of some workers ran
      Slot &S = sh->slot[w]; if (S.nch <= 0) continue;
      std::vector<uint16_t> ch(S.ch, S.ch + S.nch.load()); std::string tr;
      std::string r = replay(S.sc, ch, tr, 60);
      if (tr.size() > 700) tr = tr.substr(0, 700) + "...";
      samples += std::string(ns ? "," : "") + "{\"scenario\":\"" + scenarios()[S.sc].name + "\",\"choices\":\"" + hex_choices(ch.data(), std::min<int>(ch.size(), 60)) + "\",\"trace\":\"" + jesc(tr) + "\",\"result\":\"" + jesc(r) + "\"}";
      ns++;
    }
  }
  int vac = 0;
  if (!violated && !infra && !sh->capped) for (size_t i = 0; i < scenarios().size(); i++) {
    if (only && !strstr(scenarios()[i].name, only)) continue;
    if (sh->sc_execs[i] == 0) { fprintf(stderr, "mc: scenario %s completed no execution (vacuous)\n", scenarios()[i].name); vac = 1; }
  }
  if ((e = getenv("MC_OUT"))) {
    std::ofstream o(e);
    o << "{\"executions\":" << sh->execs << ",\"abandoned\":" << sh->stopped << ",\"states\":" << sh->states
      << ",\"transitions\":" << sh->trans << ",\"distinct_outcomes\":" << sh->outcomes << ",\"pruned\":" << sh->pruned
      << ",\"table_full\":" << sh->tablefull << ",\"capped\":" << (sh->capped ? "true" : "false") << ",\"wall\":" << wall << ",\"scenarios\":{";
    bool first = true;
    for (size_t i = 0; i < scenarios().size(); i++) {
      if (only && !strstr(scenarios()[i].name, only)) continue;
      o << (first ? "" : ",") << "\"" << scenarios()[i].name << "\":{\"executions\":" << sh->sc_execs[i] << ",\"max_choices\":" << sh->sc_maxch[i] << "}"; first = false;
    }
    o << "},\"known\":[";
    first = true;
    for (size_t i = 0; i < g_known.size(); i++) if (sh->kf_seen[i]) { o << (first ? "" : ",") << "\"" << jesc(g_known[i].first) << "\""; first = false; }
    o << "],\"samples\":[" << samples << "],\"violated\":" << (violated ? "true" : "false") << "}\n";
  }
  if (violated) {
    std::string rf = (e = getenv("MC_REPLAY_OUT")) ? e : "/tmp/mc_replay.txt";
    std::ofstream o(rf);
    o << "property " << g_property << "\nscenario " << scenarios()[vsc].name << "\nchoices " << hex_choices(vch.data(), (int)vch.size())
      << "\n"; for (auto &b : vbefore) o << "before " << scenarios()[b.sc].name << " " << hex_choices(b.ch.data(), (int)b.ch.size()) << "\n";
    o << "violation " << vmsg << "\n\n--- steps of the failing execution ---\n" << vtrace << "\n--- output of the failing execution ---\n" << verr.substr(0, 6000) << "\n";
    o.close();
    printf("scenario %s: %s\n%s", scenarios()[vsc].name, vmsg.c_str(), vtrace.substr(0, 3000).c_str());
    printf("MC-VIOLATION %s\n", rf.c_str());
    return 1;
  }
  for (size_t i = 0; i < g_known.size(); i++) if (sh->kf_seen[i])
    printf("KNOWN-FINDING: property=%s %s %s\n", g_property.c_str(), g_known[i].first.c_str(), g_known[i].second.c_str());
  if (infra || vac) return 2;
  printf("explored: %" PRIu64 " executions, %" PRIu64 " abandoned/pruned, %" PRIu64 " states, %" PRIu64 " transitions, %" PRIu64 " outcomes, %.1f s%s\n",
         sh->execs.load(), sh->stopped.load(), sh->states.load(), sh->trans.load(), sh->outcomes.load(), wall, sh->capped ? " (time cap hit: not exhaustive)" : "");
  return 0;
}
} // namespace mc

#define MC_SCENARIO(name) static void mcs_##name(); static mc::Reg mcr_##name(#name, mcs_##name); static void mcs_##name()
#if MC_PART == 0
#define MC_MAIN int main(int argc, char **argv) { return mc::main_(argc, argv); }
#else
#define MC_MAIN
#endif
