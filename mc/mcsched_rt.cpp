// mcsched_rt.cpp - see mcsched.h.  Compiled without instrumentation.
#define MC_PART 1
#include "mcsched.h"
#include <cxxabi.h>
#include <elf.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <linux/futex.h>

namespace {
typedef uintptr_t up; typedef uint32_t u32;
const int T = 4;
enum Kind { RD, WR, ARD, AWR };                       // plain read/write, atomic read/write
struct VC { u32 c[T] = {0, 0, 0, 0}; void join(const VC &o) { for (int i = 0; i < T; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Byte { u32 clk[4][T]; };
struct Cell { up addr; uint64_t gen; up pc[4]; Byte b[8]; };
const size_t NC = 1 << 16; Cell *cells = nullptr;
uint64_t gen = 0, nacc = 0;
struct Sync { VC vc; int owner = -1; int readers = 0; int count = 0; };
std::map<up, Sync> *syncs = nullptr;
Sync &sy(up a) { bool ho = mc::g_heap_on; mc::g_heap_on = false; Sync &s = (*syncs)[a]; mc::g_heap_on = ho; return s; }
VC fence_vc;

struct Thr { pthread_t h; sem_t sem; bool live = false, up_ = false, done = false; up blocked = 0; bool bshared = false; VC vc; std::function<void()> fn; char *stk = nullptr; bool heap_on = false; int depth = 0; int streak = 0; up sp_a = 0, sp_pc = 0; int sp_n = 0; bool yielded = false; };
Thr th[T]; int nth = 0, cur = -1; sem_t main_sem; bool active = false, leaked = false, failed = false, in_rt = false; mc::Fail fail_; bool stopped_ = false;
sched::Opt opt; int budget = 0; __thread int tls_self = -1;
const size_t STK = 1 << 19;

// ------------------------------------------------------------ symbols of this executable
struct Sym { up a; size_t n; std::string name; bool obj; };
std::vector<Sym> *funcs = nullptr, *datas = nullptr; std::vector<unsigned char> *datamap = nullptr; up dlo = 0, dhi = 0;
extern "C" char __executable_start, _end, __data_start;
void load_syms() {
  if (funcs) return; funcs = new std::vector<Sym>; datas = new std::vector<Sym>; datamap = new std::vector<unsigned char>;
  int fd = open("/proc/self/exe", O_RDONLY); struct stat st; fstat(fd, &st); char *m = (char *)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd); auto *eh = (Elf64_Ehdr *)m; auto *shd = (Elf64_Shdr *)(m + eh->e_shoff); up base = eh->e_type == ET_DYN ? (up)&__executable_start : 0;
  for (int i = 0; i < eh->e_shnum; i++) if (shd[i].sh_type == SHT_SYMTAB) {
    auto *sy = (Elf64_Sym *)(m + shd[i].sh_offset); const char *str = m + shd[shd[i].sh_link].sh_offset, *sn = m + shd[eh->e_shstrndx].sh_offset; std::string file;
    for (size_t k = 0; k < shd[i].sh_size / sizeof *sy; k++) {
      auto &s = sy[k]; const char *nm = str + s.st_name; int ty = ELF64_ST_TYPE(s.st_info), bind = ELF64_ST_BIND(s.st_info); if (ty == STT_FILE) { file = nm; continue; }
      if (s.st_shndx == SHN_UNDEF || s.st_shndx >= SHN_LORESERVE || !s.st_size) continue;
      if (ty == STT_FUNC) funcs->push_back({base + s.st_value, s.st_size, nm, false});
      const char *sec = sn + shd[s.st_shndx].sh_name;
      if (ty == STT_OBJECT && (!strncmp(sec, ".data", 5) || !strncmp(sec, ".bss", 4)) && strncmp(sec, ".data.rel.ro", 12)) {
        bool susa = strstr(nm, "4susa"), own = strstr(nm, "2mc") || strstr(nm, "5sched"); bool lib = bind == STB_LOCAL ? !(file.empty() || file.compare(0, 2, "C2") == 0 || file.find("sched_rt") != std::string::npos || file.find("crt") != std::string::npos) : !(own || nm[0] == '_' || !strncmp(nm, "std", 3) || !strcmp(nm, "environ"));
        if (susa ? !own : lib && strncmp(nm, "_ZTV", 4) && strncmp(nm, "__", 2)) datas->push_back({base + s.st_value, s.st_size, nm, true});
      } } }
  munmap(m, st.st_size); std::sort(funcs->begin(), funcs->end(), [](const Sym &a, const Sym &b) { return a.a < b.a; });
  std::sort(datas->begin(), datas->end(), [](const Sym &a, const Sym &b) { return a.a < b.a; });
  dlo = (up)&__data_start & ~(up)4095; dhi = (up)&_end; datamap->assign(dhi - dlo, 0); for (auto &d : *datas) for (size_t i = 0; i < d.n; i++) if (d.a + i >= dlo && d.a + i < dhi) (*datamap)[d.a + i - dlo] = 1;
}
std::string demangle(const std::string &n) { int st; char *d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st); std::string r = d ? d : n; free(d); size_t p = r.find('('); return r; }
std::string where(up pc) { if (!funcs) return "?"; auto it = std::upper_bound(funcs->begin(), funcs->end(), pc, [](up a, const Sym &s) { return a < s.a; }); if (it == funcs->begin()) return "?"; --it; if (pc >= it->a + it->n) return "?"; std::string s = demangle(it->name); if (s.size() > 160) s = s.substr(0, 160) + "..."; return s; }
std::string what(up a) { for (auto &d : *datas) if (a >= d.a && a < d.a + d.n) return "global " + demangle(d.name); return "memory"; }
std::vector<std::pair<Sym *, std::vector<char>>> *snap = nullptr;

[[noreturn]] void thread_fail(const std::string &m);

// ------------------------------------------------------------ scheduling
bool can(int i) { return !th[i].done && !th[i].blocked; }
// a thread in a waiting loop yields to every thread that is not in one, until one of those writes (fair schedules)
bool runnable(int i) { if (!can(i)) return false; if (th[i].yielded) for (int j = 0; j < nth; j++) if (j != i && can(j) && !th[j].yielded) return false; return true; }
void moved() { for (int i = 0; i < nth; i++) if (i != cur) th[i].yielded = false; }
void hand_to(int i) { // give the baton to thread i and wait for it to come back
  int me = cur; th[me].heap_on = mc::g_heap_on; if (i == me) return; cur = i; mc::g_heap_on = th[i].heap_on; sem_post(&th[i].sem); while (sem_wait(&th[me].sem)) {} mc::g_heap_on = th[me].heap_on;
}
void wake_main() { sem_post(&main_sem); }
void park_forever() { for (;;) pause(); }
// the current thread may continue; may switch when budget remains. forced: must switch when possible
void sched_point(const char *w, bool forced = false) {
  if (!active || in_rt || tls_self < 0) return; in_rt = true; int me = cur, o[T], n = 0; bool ho = mc::g_heap_on; mc::g_heap_on = false;
  if (!forced) { o[n++] = me; if (++th[me].streak > 400) forced = true, n = 0, th[me].streak = 0; }
  if (forced || budget > 0) for (int i = 0; i < nth; i++) if (i != me && runnable(i)) o[n++] = i;
  if (!n) { if (th[me].blocked) { in_rt = false; std::string s = "deadlock: no thread can proceed"; thread_fail(s); } o[n++] = me; }
  int k = 0; bool bad = false; try { k = n > 1 ? mc::choose(n) : 0; mc::step(); } catch (mc::Stop &) { stopped_ = true; bad = true; } if (bad) { leaked = true; mc::g_heap_on = false; in_rt = false; wake_main(); park_forever(); }
  if (o[k] != me) { if (!forced) budget--; th[me].streak = 0; MC_NOTE("  [%s] switch from thread %d to thread %d", w, me, o[k]); }
  mc::g_heap_on = ho; in_rt = false; hand_to(o[k]);
}
[[noreturn]] void thread_fail(const std::string &m) { failed = true; fail_ = mc::Fail{"", m}; leaked = true; mc::g_heap_on = false; in_rt = false; tls_self = -1; wake_main(); park_forever(); __builtin_unreachable(); }
void block_on(up a, bool shared, const char *w) { th[cur].blocked = a; th[cur].bshared = shared; sched_point(w, true); }
void unblock(up a) { for (int i = 0; i < nth; i++) if (th[i].blocked == a) th[i].blocked = 0; }
// Threads are reused from run to run (creating hundreds of thousands of threads per second exhausts the
// kernel's memory); the executable's thread-local storage is put back to its initial image for each run.
const char *tls_img = nullptr; size_t tls_file = 0, tls_mem = 0, tls_align = 1;
int find_tls(struct dl_phdr_info *i, size_t, void *) { for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { auto &h = i->dlpi_phdr[k]; tls_img = (const char *)i->dlpi_addr + h.p_vaddr; tls_file = h.p_filesz; tls_mem = h.p_memsz; tls_align = h.p_align ? h.p_align : 1; } return 1; }
void body_(int me);
void *thread_main(void *p) {
  int me = (int)(intptr_t)p;
  for (;;) { while (sem_wait(&th[me].sem)) {} if (tls_mem) { char *b = (char *)__builtin_thread_pointer() - (tls_mem + tls_align - 1) / tls_align * tls_align; __builtin_memcpy(b, tls_img, tls_file); __builtin_memset(b + tls_file, 0, tls_mem - tls_file); } body_(me); }
}
void body_(int me) {
  tls_self = me; mc::g_heap_on = false;
  try { th[me].fn(); }
  catch (mc::Fail &f) { failed = true; fail_ = f; } catch (mc::Stop &) { stopped_ = true; }
  catch (std::exception &e) { failed = true; fail_ = mc::Fail{"", std::string("unexpected exception escaped from the library: ") + e.what()}; }
  catch (...) { failed = true; fail_ = mc::Fail{"", "unexpected exception escaped from the library"}; }
  mc::g_heap_on = false; tls_self = -1; th[me].done = true; if (failed || stopped_) { for (int i = 0; i < nth; i++) if (!th[i].done) leaked = true; wake_main(); return; }
  int o[T], n = 0; bool all = true; for (int i = 0; i < nth; i++) { if (runnable(i)) o[n++] = i; if (!th[i].done) all = false; }
  if (all) { wake_main(); return; }
  if (!n) { failed = true; leaked = true; fail_ = mc::Fail{"", "deadlock: no thread can proceed"}; wake_main(); return; }
  int k = 0; try { k = n > 1 ? mc::choose(n) : 0; } catch (mc::Stop &) { stopped_ = true; leaked = true; wake_main(); return; }
  cur = o[k]; mc::g_heap_on = th[cur].heap_on; sem_post(&th[cur].sem); return;
}
// ------------------------------------------------------------ happens-before
inline bool in_region() { return active && tls_self >= 0 && mc::g_heap_on && !in_rt; }
Cell &cell(up g) { size_t i = mc::Hash::mix(g) & (NC - 1); for (;;) { Cell &c = cells[i]; if (c.gen != gen) { c.gen = gen; c.addr = g; memset(c.b, 0, sizeof c.b); memset(c.pc, 0, sizeof c.pc); return c; } if (c.addr == g) return c; i = (i + 1) & (NC - 1); } }
const char *KN[] = {"read", "write", "atomic read", "atomic write"};
void access(up a, size_t n, Kind k, up pc) {
  if (!in_region()) return; int me = cur; if (a >= (up)th[me].stk && a < (up)th[me].stk + STK) return; if (a >= dlo && a < dhi && !(*datamap)[a - dlo]) return; nacc++;
  VC &v = th[me].vc;
  for (size_t i = 0; i < n;) {
    Cell &c = cell((a + i) >> 3); size_t o = (a + i) & 7, e = std::min<size_t>(8, o + n - i);
    for (; o < e; o++, i++) { Byte &b = c.b[o];
      for (int q = 0; q < 4; q++) { bool w = q == WR || q == AWR || k == WR || k == AWR, plain = q == RD || q == WR || k == RD || k == WR; if (!w || !plain) continue; for (int t = 0; t < nth; t++) if (t != me && b.clk[q][t] > v.c[t]) { in_rt = true; std::string s = std::string("data race on ") + what(a + i) + ": " + KN[q] + " by thread " + std::to_string(t) + " in " + where(c.pc[q]) + " and " + KN[k] + " by thread " + std::to_string(me) + " in " + where(pc); in_rt = false; thread_fail(s); } }
      b.clk[k][me] = v.c[me]; }
    c.pc[k] = pc; }
}
void forget(up a, size_t n) { if (!active || !cells || n > (1 << 20)) return; for (up g = a >> 3; g <= (a + (n ? n : 1) - 1) >> 3; g++) { size_t i = mc::Hash::mix(g) & (NC - 1); for (;;) { Cell &c = cells[i]; if (c.gen != gen) break; if (c.addr == g) { memset(c.b, 0, sizeof c.b); break; } i = (i + 1) & (NC - 1); } } }
void tick() { th[cur].vc.c[cur]++; }
bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; } bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
void at_load(up a, int n, int mo, up pc) { if (!in_region()) return; sched_point("atomic load"); access(a, n, ARD, pc); if (acq(mo)) { auto it = syncs->find(a); if (it != syncs->end()) th[cur].vc.join(it->second.vc); } }
void at_store(up a, int n, int mo, up pc) { if (!in_region()) return; sched_point("atomic store"); access(a, n, AWR, pc); Sync &s = sy(a); if (rel(mo)) s.vc = th[cur].vc; else s.vc = VC(); tick(); th[cur].yielded = false; moved(); }
void at_rmw(up a, int n, int mo, up pc) { if (!in_region()) return; sched_point("atomic update"); access(a, n, AWR, pc); Sync &s = sy(a); if (acq(mo)) th[cur].vc.join(s.vc); if (rel(mo)) s.vc.join(th[cur].vc); tick(); }
// a thread that keeps finding the same value at the same place is waiting for another one: let that run
void spin(up a, up pc, bool unchanged) { if (!in_region()) return; Thr &t = th[cur]; if (unchanged && a == t.sp_a && pc == t.sp_pc) { if (++t.sp_n >= 3) { t.sp_n = 0; t.yielded = true; sched_point("waiting loop", true); } } else { t.sp_n = 0; t.sp_a = a; t.sp_pc = pc; if (!unchanged) { t.yielded = false; moved(); } } }
} // namespace

namespace sched {
int self() { return tls_self; }
uint64_t accesses() { return nacc; }
void point(const char *w) { sched_point(w); }
void begin() {
  load_syms(); if (!snap) { snap = new std::vector<std::pair<Sym *, std::vector<char>>>; for (auto &d : *datas) if (!(d.name.compare(0, 4, "_ZTV") == 0)) snap->push_back({&d, std::vector<char>((char *)d.a, (char *)d.a + d.n)}); return; }
  for (auto &p : *snap) memcpy((void *)p.first->a, p.second.data(), p.second.size());
}
void run(const std::vector<std::function<void()>> &bodies, const Opt &o) {
  load_syms(); if (!cells) { cells = (Cell *)mmap(nullptr, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); syncs = new std::map<up, Sync>; sem_init(&main_sem, 0, 0); }
  static pid_t pinned = 0; if (pinned != getpid()) { pinned = getpid(); cpu_set_t all, one; CPU_ZERO(&all); CPU_ZERO(&one); if (!sched_getaffinity(0, sizeof all, &all) && CPU_COUNT(&all) > 1 && mc::X.slot) { int want = (int)(mc::X.slot - mc::sh->slot) % CPU_COUNT(&all); for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && want-- == 0) { CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; } } }
  gen++; syncs->clear(); fence_vc = VC(); nth = (int)bodies.size(); opt = o; budget = o.preemptions; failed = stopped_ = false; fail_ = mc::Fail(); if (!tls_img) dl_iterate_phdr(find_tls, nullptr);
  static pid_t owner = 0; if (leaked || owner != getpid()) { for (auto &t : th) t.stk = nullptr, t.up_ = false; leaked = false; owner = getpid(); }
  for (int i = 0; i < nth; i++) { Thr &t = th[i]; if (!t.stk) { t.stk = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0); } t.fn = bodies[i]; t.done = false; t.blocked = 0; t.vc = VC(); t.vc.c[i] = 1; t.heap_on = false; t.depth = 0; t.streak = 0; t.sp_a = t.sp_pc = 0; t.sp_n = 0; t.yielded = false; if (t.up_) continue; t.up_ = true; sem_init(&t.sem, 0, 0); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, t.stk, STK); if (pthread_create(&t.h, &at, thread_main, (void *)(intptr_t)i)) { fprintf(stderr, "pthread_create failed\n"); _exit(3); } pthread_attr_destroy(&at); }
  bool ho = mc::g_heap_on; mc::g_heap_on = false; cur = mc::choose(nth); active = true; sem_post(&th[cur].sem); while (sem_wait(&main_sem)) {} active = false; mc::g_heap_on = ho;
  if (failed) { mc::g_heap_on = false; throw fail_; } if (stopped_) { mc::g_heap_on = false; throw mc::Stop{}; }
}
} // namespace sched

// ------------------------------------------------------------ compiler callbacks
#define PC ((up)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { if (opt.func_points && in_region()) sched_point("function entry"); }
void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void *a) { access((up)a, N, RD, PC); } void __tsan_write##N(void *a) { access((up)a, N, WR, PC); } \
  void __tsan_unaligned_read##N(void *a) { access((up)a, N, RD, PC); } void __tsan_unaligned_write##N(void *a) { access((up)a, N, WR, PC); } \
  void __tsan_volatile_read##N(void *a) { access((up)a, N, RD, PC); } void __tsan_volatile_write##N(void *a) { access((up)a, N, WR, PC); } \
  void __tsan_unaligned_volatile_read##N(void *a) { access((up)a, N, RD, PC); } void __tsan_unaligned_volatile_write##N(void *a) { access((up)a, N, WR, PC); } \
  void __tsan_read##N##_pc(void *a, void *p) { access((up)a, N, RD, (up)p); } void __tsan_write##N##_pc(void *a, void *p) { access((up)a, N, WR, (up)p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access((up)a, n, RD, PC); }
void __tsan_write_range(void *a, size_t n) { access((up)a, n, WR, PC); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access((up)a, 8, WR, PC); }
void __tsan_vptr_read(void **a) { access((up)a, 8, RD, PC); }
#define AT(B, TY) \
  TY __tsan_atomic##B##_load(const volatile TY *a, int mo) { at_load((up)a, sizeof(TY), mo, PC); TY r = __atomic_load_n(a, __ATOMIC_SEQ_CST); spin((up)a, PC, true); return r; } \
  void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo) { at_store((up)a, sizeof(TY), mo, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int mo) { at_rmw((up)a, sizeof(TY), mo, PC); TY r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); spin((up)a, PC, r == v); return r; } \
  TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int mo) { at_rmw((up)a, sizeof(TY), mo, PC); if (in_region()) moved(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int mo) { at_rmw((up)a, sizeof(TY), mo, PC); if (in_region()) moved(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int mo) { at_rmw((up)a, sizeof(TY), mo, PC); if (in_region()) moved(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int mo) { at_rmw((up)a, sizeof(TY), mo, PC); if (in_region()) moved(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int mo) { at_rmw((up)a, sizeof(TY), mo, PC); if (in_region()) moved(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_nand(volatile TY *a, TY v, int mo) { at_rmw((up)a, sizeof(TY), mo, PC); if (in_region()) moved(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  static bool cas##B(volatile TY *a, TY *e, TY v, int mo, int fo, up pc) { if (in_region()) sched_point("compare-exchange"); TY x = *a; bool ok = x == *e; if (in_region()) { in_rt = true; in_rt = false; access((up)a, sizeof(TY), ok ? AWR : ARD, pc); int o = ok ? mo : fo; auto &s = sy((up)a); if (acq(o)) th[cur].vc.join(s.vc); if (ok && rel(o)) s.vc.join(th[cur].vc); tick(); } bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); spin((up)a, pc, !r); return r; } \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *e, TY v, int mo, int fo) { return cas##B(a, e, v, mo, fo, PC); } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *e, TY v, int mo, int fo) { return cas##B(a, e, v, mo, fo, PC); } \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY e, TY v, int mo, int fo) { cas##B(a, &e, v, mo, fo, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (!in_region()) return; sched_point("fence"); th[cur].vc.join(fence_vc); fence_vc.join(th[cur].vc); tick(); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ guarded initialisation
int __wrap___cxa_guard_acquire(uint64_t *g) {
  up a = (up)g; if (!active || tls_self < 0) { if (*(volatile char *)g) return 0; ((char *)g)[1] = 1; return 1; }
  sched_point("static initialisation");
  for (;;) { Sync &s = sy(a); if (*(volatile char *)g) { th[cur].vc.join(s.vc); return 0; } if (s.owner < 0) { s.owner = cur; return 1; } if (s.owner == cur) thread_fail("recursive initialisation of a static object"); block_on(a, false, "wait for static initialisation"); }
}
void __wrap___cxa_guard_release(uint64_t *g) { *(volatile char *)g = 1; if (!active || tls_self < 0) return; Sync &s = sy((up)g); s.owner = -1; s.vc.join(th[cur].vc); tick(); unblock((up)g); sched_point("static initialisation finished"); }
void __wrap___cxa_guard_abort(uint64_t *g) { if (!active || tls_self < 0) return; Sync &s = sy((up)g); s.owner = -1; unblock((up)g); }
int __real___cxa_atexit(void (*)(void *), void *, void *);
int __real___cxa_thread_atexit(void (*)(void *), void *, void *);
int __wrap___cxa_thread_atexit(void (*f)(void *), void *p, void *d) { if (active) return 0; return __real___cxa_thread_atexit(f, p, d); }
int __wrap___cxa_atexit(void (*f)(void *), void *p, void *d) { if (active) return 0; return __real___cxa_atexit(f, p, d); }

// ------------------------------------------------------------ locks
int __real_pthread_mutex_lock(pthread_mutex_t *), __real_pthread_mutex_unlock(pthread_mutex_t *), __real_pthread_mutex_trylock(pthread_mutex_t *), __real_pthread_once(pthread_once_t *, void (*)());
static bool ctl() { return active && tls_self >= 0 && !in_rt; }
static int lock_(up a, bool shared, bool tryonly, bool recursive) {
  sched_point("lock"); for (;;) { Sync &s = sy(a); if (shared ? s.owner < 0 : (s.owner < 0 && !s.readers)) { if (shared) s.readers++; else s.owner = cur, s.count = 1; th[cur].vc.join(s.vc); return 0; } if (s.owner == cur && recursive) { s.count++; return 0; } if (tryonly) return EBUSY; if (s.owner == cur) thread_fail("a thread locks a mutex it already holds"); block_on(a, shared, "wait for a lock"); } }
static int unlock_(up a) { Sync &s = sy(a); if (s.owner == cur) { if (--s.count > 0) return 0; s.owner = -1; } else if (s.readers) s.readers--; s.vc.join(th[cur].vc); tick(); unblock(a); sched_point("unlock"); return 0; }
static bool recursive_(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return ctl() ? lock_((up)m, false, false, recursive_(m)) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return ctl() ? lock_((up)m, false, true, recursive_(m)) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return ctl() ? unlock_((up)m) : __real_pthread_mutex_unlock(m); }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *), __real_pthread_rwlock_wrlock(pthread_rwlock_t *), __real_pthread_rwlock_unlock(pthread_rwlock_t *), __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *), __real_pthread_rwlock_trywrlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return ctl() ? lock_((up)m, true, false, false) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return ctl() ? lock_((up)m, false, false, false) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return ctl() ? lock_((up)m, true, true, false) : __real_pthread_rwlock_tryrdlock(m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return ctl() ? lock_((up)m, false, true, false) : __real_pthread_rwlock_trywrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { return ctl() ? unlock_((up)m) : __real_pthread_rwlock_unlock(m); }
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
  if (!ctl()) return __real_pthread_once(o, f); sched_point("call_once"); up a = (up)o;
  for (;;) { Sync &s = sy(a); if (*(volatile int *)o == 2) { th[cur].vc.join(s.vc); return 0; } if (s.owner < 0) { s.owner = cur; try { f(); } catch (...) { Sync &q = sy(a); q.owner = -1; unblock(a); throw; } Sync &q = sy(a); *(volatile int *)o = 2; q.owner = -1; q.vc.join(th[cur].vc); tick(); unblock(a); return 0; } block_on(a, false, "wait for call_once"); } }
int __real_sched_yield(); int __wrap_sched_yield() { if (ctl()) { sched_point("yield", true); return 0; } return __real_sched_yield(); }

// ------------------------------------------------------------ memory
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { if (opt.heap_points && in_region()) sched_point("allocation"); void *p = __real_malloc(n); if (active && p) forget((up)p, malloc_usable_size(p)); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (active && p) forget((up)p, malloc_usable_size(p)); return p; }
void *__wrap_realloc(void *q, size_t n) { if (q && in_region()) access((up)q, std::min(n, malloc_usable_size(q)), WR, PC); void *p = __real_realloc(q, n); if (active && p && p != q) forget((up)p, malloc_usable_size(p)); return p; }
void __wrap_free(void *p) { if (opt.heap_points && in_region()) sched_point("release"); if (p && in_region()) { size_t n = malloc_usable_size(p); access((up)p, n & ~(size_t)7, WR, PC); } __real_free(p); }
void *__real_memcpy(void *, const void *, size_t), *__real_memmove(void *, const void *, size_t), *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n && in_region()) { access((up)s, n, RD, PC); access((up)d, n, WR, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n && in_region()) { access((up)s, n, RD, PC); access((up)d, n, WR, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n && in_region()) access((up)d, n, WR, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (n && in_region()) { access((up)a, n, RD, PC); access((up)b, n, RD, PC); } return __real_memcmp(a, b, n); }
// library functions with hidden shared state: a call counts as a write to that state
struct Hidden { const char *n; char pad[8]; };
static void hidden(const char *n, up pc) { if (!in_region()) return; sched_point(n); static std::map<std::string, char *> *m = nullptr; bool ho = mc::g_heap_on; mc::g_heap_on = false; if (!m) m = new std::map<std::string, char *>; char *&c = (*m)[n]; if (!c) c = (char *)__real_malloc(16); mc::g_heap_on = ho; up a = ((up)c + 7) & ~(up)7; access(a, 1, WR, pc); }
#define HID(RET, F, PAR, ARG) RET __real_##F PAR; RET __wrap_##F PAR { hidden(#F, PC); return __real_##F ARG; }
HID(char *, strtok, (char *s, const char *d), (s, d)) HID(int, rand, (void), ()) HID(void, srand, (unsigned s), (s)) HID(struct tm *, localtime, (const time_t *t), (t)) HID(struct tm *, gmtime, (const time_t *t), (t)) HID(char *, asctime, (const struct tm *t), (t)) HID(char *, ctime, (const time_t *t), (t)) HID(char *, setlocale, (int c, const char *l), (c, l)) HID(double, lgamma, (double x), (x)) HID(double, drand48, (void), ()) HID(long, random, (void), ()) HID(void, srandom, (unsigned s), (s)) HID(long, lrand48, (void), ())
}
