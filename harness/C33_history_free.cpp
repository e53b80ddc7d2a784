// C33: what a function returns is determined by its arguments alone, and its arguments stay as they were: every call is
// made after every other call (in a process of its own) and compared with the same call made first in a fresh process.
//MC-VARIANT plain: -O1 -DSUSA_NDEBUG
//MC-BOUND every ordered pair out of 42 read-only operations on eight sets of objects (small, single elements, large, square, each with two contents) and 24 compound uses of every part of the library on two inputs, in a fresh process each; the second call on objects of its own or on the same objects after their contents were replaced in place; repeated calls; every sequence of three of the 24 compound uses, and of the operations over three object sets (quick: each with its 4 neighbours in the catalogue); 59 families of calls that differ in one parameter or a single element of an argument (decimals, orders, lengths, seeds, shapes; 4 to 40 values each), every sequence of two parameters and back (thorough: of three); every operation on objects with undefined, infinite, zero, huge, tiny or negative zero values before and after every other one (quick: its neighbours); fresh memory filled with three patterns
//MC-ASSUME generators and bit sets, which are objects with a state of their own, are created inside the call; errno, the floating point environment and output streams are not observed
#include "mc.h"
#include "reads.h"
struct Out { uint64_t r[4], img[2]; int n; int ok; };
static Out *out = nullptr;
template <class F> static Out child(F f) {                     // runs f in a process that has never called the library
  if (!out) { void *p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) mc::die("mmap"); out = (Out *)p; }
  memset(out, 0, sizeof *out); mc::step(); fflush(stdout); pid_t p = fork(); if (p < 0) mc::die("fork");
  if (p == 0) { mc::X.slot = nullptr; for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, SIG_DFL); alarm(60); try { f(); } catch (...) { _exit(7); } out->ok = 1; _exit(0); }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!out->ok) { if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) mc::fail("the calls did not return"); mc::fail("the process ended abnormally (status %d) during the calls", st); } return *out; }
static int NR() { return (int)reads().size(); } static int NO() { return (int)ops::all().size(); }
static const int K = 8; static int N() { return NR() * K + NO() * 2; }
static std::string name(int e) { return e < NR() * K ? std::string(reads()[e / K].name) + " on objects " + std::to_string(e % K) : std::string(ops::all()[(e - NR() * K) / 2].name) + " on input " + std::to_string(e % 2); }
static void call(int e, int q) {                               // makes the call and checks that its arguments stay as they were
  if (e >= NR() * K) { out->r[q] = ops::all()[(e - NR() * K) / 2].f((e - NR() * K) % 2); return; }
  Obj o(e % K); uint64_t b = image(o); out->r[q] = reads()[e / K].f(o); if (image(o) != b) out->n = q + 1; }
static uint64_t ref_[1024]; static bool have[1024];
static uint64_t alone(int e) { if (!have[e]) { mc::g_fill = 0xBF; Out o = child([&] { call(e, 0); }); MC_CHECK(o.n == 0, "%s changed its arguments", name(e).c_str()); mc::g_fill = 0x11; Out p = child([&] { call(e, 0); }); MC_CHECK(o.r[0] == p.r[0], "%s: the result depends on what fresh memory holds", name(e).c_str()); ref_[e] = o.r[0]; have[e] = true; } return ref_[e]; }
static void check(const Out &o, const std::vector<int> &c) { for (size_t q = 0; q < c.size(); q++) { MC_CHECK(o.r[q] == alone(c[q]), "%s: the result after %zu earlier call(s) differs from the one in a fresh process (the first: %s)", name(c[q]).c_str(), q, name(c[0]).c_str()); mc::outcome(o.r[q]); } MC_CHECK(o.n == 0, "%s changed its arguments", o.n ? name(c[o.n - 1]).c_str() : ""); }
static void sequence(const std::vector<int> &c, int fill) { mc::Hash k; k.u(fill); for (int e : c) { MC_NOTE("call %s", name(e).c_str()); k.u(e); } mc::state(k.h); for (int e : c) alone(e); mc::g_fill = fill; Out o = child([&] { for (size_t q = 0; q < c.size(); q++) call(c[q], (int)q); }); check(o, c); }
MC_SCENARIO(pairs) { int a = mc::choose(N()), b = mc::choose(N()); sequence({a, b}, 0xBF); }
MC_SCENARIO(repeated) { int a = mc::choose(N()), fill = mc::any<int>({0x00, 0x11, 0xFF}); sequence({a, a, a}, fill); }
MC_SCENARIO(three_uses) { int s = NR() * K, u = NO(); int a = s + 2 * mc::choose(u), b = s + 1 + 2 * mc::choose(u), c = s + 2 * mc::choose(u); sequence({a, b, c}, 0x11); }
// the same objects, their contents replaced in place between the calls
template <class T> static void put(susa::matrix<T> &d, const susa::matrix<T> &s) { for (size_t i = 0; i < s.size(); i++) d(i) = s.get(i); }
static void refill(Obj &o, const Obj &n) { put(o.a, n.a); put(o.b, n.b); put(o.v, n.v); put(o.w, n.w); put(o.i, n.i); put(o.z, n.z); put(o.bits, n.bits); put(o.lim, n.lim); put(o.f, n.f); put(o.la, n.la); put(o.pa, n.pa); put(o.rx, n.rx); put(o.one, n.one); put(o.taps, n.taps); o.sv = n.sv; for (size_t x = 0; x < 2; x++) for (size_t y = 0; y < 3; y++) for (size_t t = 0; t < 2; t++) o.arr(x, y, t) = n.arr.get({x, y, t}); o.l.decompose(); o.p.decompose(); }
MC_SCENARIO(in_place) { int a = mc::choose(NR()), b = mc::choose(NR()), c = mc::choose(8), o_ = (c + 4) % 8; int ea = a * K + c, eb = b * K + o_; mc::state(mc::Hash().u(ea).u(eb).h); MC_NOTE("call %s, replace the contents, call %s, put them back, call the first again", name(ea).c_str(), name(eb).c_str()); alone(ea); alone(eb); mc::g_fill = 0x11;
  Out o = child([&] { Obj x(c), y(o_), x0(c); uint64_t iy = image(y); out->r[0] = reads()[a].f(x); refill(x, y); out->r[1] = reads()[b].f(x); if (image(x) != iy) out->n = 2; refill(x, x0); out->r[2] = reads()[a].f(x); }); check(o, {ea, eb, ea}); }
// calls on objects with undefined, infinite, zero, huge or tiny values, and what follows them
static const char *const ODD[] = {"undefined", "infinite", "zero", "huge", "tiny", "negative zero"};
static void spoil(Obj &o, int m) {
  static const double Q[] = {NAN, INFINITY, 0.0, 1e300, 1e-310, -0.0}; double q = Q[m]; auto put1 = [&](MD &x) { if (m == 2) for (size_t k = 0; k < x.size(); k++) x(k) = 0; else { x(x.size() / 2) = q; if (x.size() > 3) x(x.size() - 1) = m == 1 ? -q : q; } };
  put1(o.a); put1(o.b); put1(o.v); put1(o.w); put1(o.rx); put1(o.taps); put1(o.la); put1(o.pa); o.z(0) = cd(q, -q); o.z(o.z.size() - 1) = cd(1, q); o.f(2) = (float)q; o.f(5) = (float)q; o.sv[1] = q; o.arr(1, 1, 1) = q; if (m == 2) { for (int k = 0; k < 9; k++) o.i(k) = 0; for (int k = 0; k < 4; k++) o.bits(k) = 0; for (int k = 0; k < 6; k++) o.f(k) = 0; o.z = susa::to_complex(o.a); }
  o.l.decompose(); o.p.decompose(); }
static uint64_t odd_[64][4][8]; static bool ohave[64][4][8];
static uint64_t odd(int a, int k, int m) { if (!ohave[a][k][m]) { auto f = [&] { Obj o(k); spoil(o, m); uint64_t b = image(o); out->r[0] = reads()[a].f(o); if (image(o) != b) out->n = 1; }; mc::g_fill = 0xBF; Out x = child(f); mc::g_fill = 0x11; Out y = child(f); MC_CHECK(x.n == 0, "%s on objects %d with %s values changed its arguments", reads()[a].name, k, ODD[m]); MC_CHECK(x.r[0] == y.r[0], "%s on objects %d with %s values: the result depends on what fresh memory holds", reads()[a].name, k, ODD[m]); odd_[a][k][m] = x.r[0]; ohave[a][k][m] = true; } return odd_[a][k][m]; }
MC_SCENARIO(odd_values) {
  int a = mc::choose(NR()), b = mc::thorough() ? mc::choose(NR()) : mc::flip() ? a : (a + mc::range(1, 2)) % NR(), m = mc::choose(6), k = mc::thorough() ? mc::choose(4) : mc::choose(3), kb = mc::choose(2) * 2, eb = b * K + kb, back = mc::flip(); mc::state(mc::Hash().u(a).u(eb).u(m).u(k).u(back).h); MC_NOTE("%s on objects %d with %s values %s %s", reads()[a].name, k, ODD[m], back ? "after" : "before", name(eb).c_str());
  uint64_t ra = odd(a, k, m), rb = alone(eb); mc::g_fill = 0x00; Out o = child([&] { auto fa = [&](int q) { Obj x(k); spoil(x, m); out->r[q] = reads()[a].f(x); }; if (back) { call(eb, 0); fa(1); } else { fa(1); call(eb, 0); } });
  MC_CHECK(o.r[0] == rb, "%s: the result after %s on objects %d with %s values differs from the one in a fresh process", name(eb).c_str(), reads()[a].name, k, ODD[m]); MC_CHECK(o.r[1] == ra, "%s on objects %d with %s values: the result after %s differs from the one in a fresh process", reads()[a].name, k, ODD[m], name(eb).c_str()); MC_CHECK(o.n == 0, "%s changed its arguments", name(eb).c_str()); mc::outcome(o.r[1]); }
// sequences of three operations on two sets of objects
MC_SCENARIO(three_operations) { int a = mc::choose(NR()), b = mc::choose(mc::pick(4, NR())), c = mc::choose(mc::pick(4, NR())); sequence({a * K + 2, (a + b) % NR() * K, (a + c) % NR() * K + 4}, 0x00); }
// families of calls that differ in one parameter only: whatever is remembered must be remembered for the right parameter
typedef uint64_t (*POp)(int); struct PEntry { const char *name; int n; POp f; };
#define PF(NAME, N, ...) {NAME, N, [](int p) -> uint64_t { H h; (void)p; __VA_ARGS__; return h.k.h; }}
static MD one(int r, int c, int p) { MD a = vec(r * c, 0); a.reshape(r, c); MD b(r, c); for (int q = 0; q < r * c; q++) b(q) = a(q); if (p) b(p - 1) += p + 0.5; return b; } // p = 0: the plain contents
static const std::vector<PEntry> &families() { static std::vector<PEntry> e{
  PF("round to p decimals", 18, h.v(susa::round(1.23456789012345678, p - 1)).m(susa::round(vec(3, 1) * 0.123456789, p - 1))),
  PF("mod", 16, h.v(susa::mod(1000003, p + 1)).v(susa::mod(-77, p + 1))),
  PF("pow", 20, h.v(susa::pow(3u, (unsigned)p)).v(susa::pow(-2, (unsigned)p)).v(susa::pow((int)p - 4, 3u))),
  PF("log2", 40, h.v(susa::log2((uint64_t)3 << p)).v(susa::log2((uint8_t)(p + 1)))),
  PF("normcdf and qfunc", 16, h.v(susa::normcdf(p * 0.5 - 4)).v(susa::qfunc(p * 0.5 - 4))),
  PF("qam order", 6, susa::qam q(1u << (2 * p + 2)); h.m(q.get_constellation()).v(q.get_noise_deviation(3)).v(q.demodulate_symbol(cd(2.1, -0.9)))),
  PF("qam deviation", 12, susa::qam q(16); h.v(q.get_noise_deviation(p - 3.0)).v(q.demodulate_symbol(cd(p - 5.3, p * 0.4)))),
  PF("pulse oversampling", 10, susa::rrcosine r(p + 1, 0.3, 33); h.m(r.get())),
  PF("pulse roll-off", 11, susa::rrcosine r(3, p / 10.0, 21); h.m(r.get())),
  PF("pulse length", 16, susa::rrcosine r(2, 0.25, 2 * p + 3); h.m(r.get())),
  PF("radix2 length", 9, susa::fft<double> t; h.m(t.radix2(vec(1 << p, p)))),
  PF("dft length", 24, susa::fft<double> t; h.m(t.dft(vec(p + 1, p)))),
  PF("float fft length", 8, susa::fft<float> t; susa::matrix<float> x(1 << p, 1); for (int q = 0; q < (1 << p); q++) x(q) = (q * 5 + p) % 7 - 2.f; h.m(t.radix2(x)).m(t.dft(x))),
  PF("filter length", 16, MD b(vec(p + 1, 1)), one(1, 1, 1.0 + p); h.m(susa::filter(b, one, vec(9, 0))).m(susa::conv(b, vec(4, 1)))),
  PF("convolution matrix", 12, h.m(susa::convmtx(vec(3, 0), p + 1)).m(susa::toeplitz(vec(p + 1, 0))).m(susa::kron(vec(2, 1), vec(p + 1, 1)))),
  PF("resampling", 12, h.m(susa::upsample(vec(7, 0), p + 1)).m(susa::downsample(vec(13, 0), p + 1))),
  PF("identity and determinant", 10, h.m(susa::eye<double>(p + 1)); MD a(p + 1, p + 1); for (int q = 0; q < (p + 1) * (p + 1); q++) a(q) = (q * 7 + p) % 11 - 4 + (q % (p + 2) == 0 ? 9 : 0); h.v(susa::det(a)).v((unsigned)susa::rank(a)); susa::lup<double> l(a); h.v(l.decompose()).m(l.invert())),
  PF("svd shape", 9, susa::matrix<float> x(p % 3 + 2, p / 3 + 1), u, w, v; if (x.no_rows() < x.no_cols()) x = susa::matrix<float>(4, 3); for (size_t q = 0; q < x.size(); q++) x(q) = (int)(q * 5 + p) % 7 - 2.f; h.v(susa::svd(x, u, w, v)); h.m(u).m(w).m(v)),
  PF("sorting", 16, MD a(vec(p + 2, p)); h.m(susa::sort(a)).m(susa::sort_indices(a)).m(susa::select_least(a, 1)).m(susa::select_most(a, 1))),
  PF("paths", 10, int n = p + 2; MD g(n, n, 0.0); for (int q = 0; q < n; q++) g(q, (q + 1) % n) = q % 3 + 1; h.m(susa::dijkstra(g, (unsigned)(p % n)))),
  PF("code memory", 8, susa::ccode c(2, 1, p + 1); c.set_generator((1u << (p + 1)) | 1, 0); c.set_generator((2u << (p + 1)) - 1, 1); MB x(9, 1); for (int q = 0; q < 9; q++) x(q) = (q * 3 + 1) % 2; h.m(c.encode(x)); for (int q = 0; q < (2 << p); q++) h.v(c.next_state(q, true)).v(c.next_output(q, false))),
  PF("code outputs", 7, susa::ccode c(p + 2, 1, 2); for (int q = 0; q < p + 2; q++) c.set_generator((q * 3 + 5) % 8, q); MB x(6, 1); for (int q = 0; q < 6; q++) x(q) = (q * 3 + 1) % 2; h.m(c.encode(x)); h.m(c.decode_bcjr(vec(6 * (p + 2), 1), 0.5))),
  PF("code noise", 10, auto c = code(0); h.m(c.decode_bcjr(vec(8, 1), 0.25 * (p + 1), 0.05 + 0.09 * p))),
  PF("channel taps", 6, MD t(susa::transpose(vec(p + 2, 1))), q(2, 1); q(0) = -1; q(1) = 1; susa::channel<double> c(t, q); h.m(c.decode_bcjr(vec(20, 0), 0.3)).m(c.decode_mlse(vec(20, 0), 0)).m(c.decode_mlse(vec(20, 0)))),
  PF("channel constellation", 4, MD t(1, 2), q(p + 2, 1); t(0) = 1; t(1) = 0.5; for (int k = 0; k < p + 2; k++) q(k) = 2 * k - 1 - p; susa::channel<double> c(t, q); h.m(c.decode_mlse(vec(6, 0), 0)).m(c.encode_isi(vec(3, 1), 0))),
  PF("channel noise", 10, auto c = chan(0); h.m(c.decode_bcjr(vec(6, 1), 0.2 * (p + 1))).m(c.decode_mlse(vec(6, p % 2), 0))),
  PF("generator seed", 20, susa::mt g(p * 37 + 1); h.v(g.rand_mask(0xffffffffu)).v(g.randint(p + 2)).v(g.bernoulli((p + 1) / 24.0)); susa::rng r(p * 37 + 1); h.v(r.rand()).v(r.randn())),
  PF("ranges of draws", 16, susa::mt g(7); for (int q = 0; q < 4; q++) h.v(g.randint(p + 2)).v(g.rand_mask((2u << p) - 1)).v(g.bernoulli(p / 15.0)); MD d(1, p + 2); for (int q = 0; q < p + 2; q++) d(q) = 1.0 / (p + 2); h.v(g.nonuniform(d))),
  PF("noise level", 10, h.m(susa::awgn(vec(4, 1), p * 2.0f)).m(susa::awgn(susa::to_complex(vec(4, 1)), p * 2.0f - 3, p + 1))),
  PF("bit set size", 20, susa::bitset b(p * 5 + 1); b.set(p * 5); h.v(b.any()).v(b.pop()); b.set(); size_t n = 0; for (size_t q = 0; q < (size_t)p * 5 + 1; q++) n += b.exists(q); h.v(n)),
  PF("array shape", 12, susa::array<double> a({(size_t)(p % 3 + 1), (size_t)(p / 3 + 1), 2}); a(p % 3, p / 3, 1) = p + 0.5; a(0, 0, 0) = 4; h.v(a.get(p % 3, p / 3, 1)).v(a.get_raw_index(p % 3, p / 3, 1))),
  PF("text width", 16, MD a(1, p + 1); for (int q = 0; q <= p; q++) a(q) = q * 1.5 - p; std::stringstream st; st.precision(p + 2); st << a; h.k.s(st.str()); MD b(st.str()); h.m(b)),
  // arguments that differ in a single element
  PF("one element: sum, mean, norm", 10, auto a = one(3, 3, p); h.m(susa::sum(a)).m(susa::mean(a)).m(susa::norm(a)).m(susa::min(a)).m(susa::max(a))),
  PF("one element: left factor", 10, h.m(susa::matmul(one(3, 3, p), sq(1)))),
  PF("one element: right factor", 10, h.m(susa::matmul(sq(1), one(3, 3, p)))),
  PF("one element: determinant and rank", 10, auto a = one(3, 3, p); h.v(susa::det(a)).v((unsigned)susa::rank(a))),
  PF("one element: lu", 10, MD a(sq(0)); if (p) a(p - 1) += 0.5; susa::lup<double> l(a); h.v(l.decompose()).m(l.get_lu()).m(l.solve(vec(3, 0))).m(l.invert()); susa::lu<double> k(a); h.v(k.decompose()).m(k.get_lower()).m(k.get_upper())),
  PF("one element: right-hand side", 4, MD a(sq(0)); susa::lup<double> l(a); h.v(l.decompose()).m(l.solve(one(3, 1, p)))),
  PF("one element: svd", 7, susa::matrix<float> x(3, 2), u, w, v; auto a = one(3, 2, p); for (int q = 0; q < 6; q++) x(q) = (float)a(q); h.v(susa::svd(x, u, w, v)); h.m(u).m(w).m(v)),
  PF("one element: coefficients", 5, MD o(1, 1, 1.0); h.m(susa::filter(one(4, 1, p), o, vec(6, 0))).m(susa::conv(one(4, 1, p), vec(3, 0))).m(susa::convmtx(one(4, 1, p), 3)).m(susa::toeplitz(one(4, 1, p)))),
  PF("one element: recursive coefficients", 4, MD a(one(4, 1, p ? p + 1 : 0)); a(0) = 4; h.m(susa::filter(vec(3, 0), a, vec(6, 0)))),
  PF("one element: signal", 9, MD o(1, 1, 1.0); h.m(susa::filter(vec(3, 0), o, one(8, 1, p))).m(susa::conv(vec(3, 0), one(8, 1, p))).m(susa::upsample(one(8, 1, p), 2)).m(susa::downsample(one(8, 1, p), 2)).m(susa::kron(one(8, 1, p), vec(2, 0))).m(susa::kron(vec(2, 0), one(8, 1, p)))),
  PF("one element: transforms", 9, susa::fft<double> t; h.m(t.radix2(one(8, 1, p))).m(t.dft(one(8, 1, p))).m(t.radix2(one(4, 2, p))).m(t.dft(one(4, 2, p)))),
  PF("one element: sorting", 8, auto a = one(7, 1, p); h.m(susa::sort(a)).m(susa::sort_indices(a)).m(susa::select_least(a, 3)).m(susa::select_most(a, 3)); double x = vec(7, 0)(2); auto f = susa::find(a, x); for (int q = 0; q < 7; q++) h.v(f.exists(q))),
  PF("one element: paths", 17, MD g(susa::abs(one(4, 4, p))); for (int q = 0; q < 4; q++) h.m(susa::dijkstra(g, q))),
  PF("one element: text", 10, std::stringstream t; t << one(3, 3, p); h.k.s(t.str()); MD b(t.str()); h.m(b); std::string c = "[1 2 3;4 5 6;7 8 9]"; c[1 + 2 * (p % 9)] = '0'; h.m(MD(c))),
  PF("one element: operators", 10, auto a = one(3, 3, p); h.m(a + sq(0)).m(sq(0) - a).m(a * 2.0).m(sq(0) / a).v(a == sq(0)).v(a != sq(0)).m(susa::transpose(a)).m(susa::concat(a, sq(1)))),
  PF("one element: elementwise maths", 10, auto a = one(3, 3, p); h.m(susa::abs(a)).m(susa::sign(a)).m(susa::round(a, 1)).m(susa::log(susa::abs(a) + 1.0)); auto z = susa::to_complex(a); h.m(susa::conj(z)).m(susa::mag(z)).m(susa::abs(z)).m(susa::hermitian(z))),
  PF("one element: movement", 10, auto a = one(3, 3, p); h.m(a.row(1)).m(a.col(2)).m(a.left(2)).m(a.right(1)).m(a.mid(1, 1)).m(a.shrink(0, 1)).m(susa::fliplr(a)).m(susa::flipud(a))),
  PF("one element: vector statistics", 6, std::vector<double> x{1, 4, 2.5, -3, 0.5}; if (p) x[p - 1] += p; h.v(susa::sum(x)).v(susa::mean(x)).v(susa::var(x)).v(susa::stdv(x)); for (double d : susa::diff(x)) h.v(d)),
  PF("one element: generators", 8, auto c = code(0); if (p) c.set_generator(p, p % 2); MB x(6, 1); for (int q = 0; q < 6; q++) x(q) = (q * 3 + 1) % 2; h.m(c.encode(x)).m(c.decode_bcjr(vec(12, 1), 0.5, 0.4))),
  PF("one element: code bits", 7, auto c = code(0); MB x(6, 1); for (int q = 0; q < 6; q++) x(q) = q % 3 == 1; if (p) x(p - 1) ^= 1; h.m(c.encode(x))),
  PF("one element: code samples", 9, auto c = code(0); h.m(c.decode_bcjr(one(8, 1, p), 0.5, 0.4))),
  PF("one element: taps", 4, MD t(susa::transpose(one(3, 1, p))), q(2, 1); q(0) = -1; q(1) = 1; susa::channel<double> c(t, q); h.m(c.decode_bcjr(vec(6, 1), 0.5)).m(c.decode_mlse(vec(6, 1), 0)).m(c.decode_mlse(vec(8, 1))).m(c.encode_isi(vec(4, 1), 1))),
  PF("channel tap signs", 8, MD t(1, 3), q(2, 1); q(0) = -1; q(1) = 1; for (int k = 0; k < 3; k++) t(k) = ((p >> k) & 1 ? -1 : 1) * (k == 0 ? 1 : k == 1 ? 0.5 : 0.8); susa::channel<double> c(t, q); for (int x = 0; x < 32; x++) { MD y(8, 1); for (int k = 0; k < 8; k++) y(k) = (x * 13 + k * (x + 3)) % 7 * 0.6 - 1.7; h.m(c.decode_mlse(y)).m(c.decode_mlse(y, x % 4)); if (x % 8 == 0) h.m(c.decode_bcjr(y, 0.5)); }),
  PF("one element: constellation", 5, MD t(1, 2), q(4, 1); t(0) = 1; t(1) = 0.5; for (int k = 0; k < 4; k++) q(k) = 2 * k - 3; if (p) q(p - 1) += 0.5; susa::channel<double> c(t, q); h.m(c.decode_mlse(vec(6, 1), 0)).m(c.decode_mlse(vec(8, 1))).m(c.encode_isi(vec(4, 1), 1))),
  PF("one element: channel samples", 9, auto c = chan(0); h.m(c.decode_bcjr(one(8, 1, p), 0.5)).m(c.decode_mlse(one(8, 1, p), 0)).m(c.decode_mlse(one(8, 1, p)))),
  PF("one element: bits and symbols", 9, MB x(8, 1); for (int q = 0; q < 8; q++) x(q) = q % 3 == 1; if (p) x(p - 1) ^= 1; h.m(susa::bpsk(x)); susa::qam q(16); h.v(q.demodulate_symbol(cd(p * 0.7 - 2, 1))).v(q.demodulate_symbol(cd(1, p * 0.7 - 2)))),
  PF("one element: probabilities", 5, susa::mt g(7); MD d(1, 5, 0.1); d(p) = 0.6; h.m(g.nonuniform(d, 20)); susa::mt k(7); k.set_probabilities(d); for (int q = 0; q < 20; q++) h.v(k.nonuniform())),
  PF("one element: noise", 4, h.m(susa::awgn(one(3, 1, p), 3.0f))),
}; return e; }
static uint64_t pref_[64][64]; static bool phave[64][64];
MC_SCENARIO(parameters) {
  int f = mc::choose((int)families().size()); const PEntry &e = families()[f]; int a = mc::choose(e.n), b = mc::choose(e.n), third = mc::thorough() ? mc::choose(e.n) : -1; if (third < 0) third = a;
  mc::state(mc::Hash().u(f).u(a).u(b).u(third).h); const int c[3] = {a, b, third}; MC_NOTE("%s with parameters %d, %d and %d", e.name, a, b, third);
  for (int p : c) if (!phave[f][p]) { mc::g_fill = 0xBF; Out o = child([&] { out->r[0] = e.f(p); }); mc::g_fill = 0x11; Out q = child([&] { out->r[0] = e.f(p); }); MC_CHECK(o.r[0] == q.r[0], "%s with parameter %d: the result depends on what fresh memory holds", e.name, p); pref_[f][p] = o.r[0]; phave[f][p] = true; }
  mc::g_fill = 0x00; Out o = child([&] { for (int q = 0; q < 3; q++) out->r[q] = e.f(c[q]); });
  for (int q = 0; q < 3; q++) { MC_CHECK(o.r[q] == pref_[f][c[q]], "%s: the result with parameter %d after calls with %d and %d differs from the one in a fresh process", e.name, c[q], a, b); mc::outcome(o.r[q]); }
}
MC_MAIN
