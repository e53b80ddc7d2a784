// C24: qam, bpsk and awgn against their definitions.
//MC-VARIANT asan: -O2 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND QAM orders 2 to 1024 (4096): every constellation point; received values on a grid of half, third and quarter steps covering every decision region and a margin, plus distant values in eight directions; orders up to 131072 (262144) at nine places of the grid; noise deviation for Eb/N0 -30 to 60 dB in half steps; two mappers of every pair of orders alive together, copies and assignments; BPSK for every shape up to 3x3 over {0,1,2,255} and 22 shapes up to 65537 elements; noise of real and complex signals (double, float, int, int8, uint8, complex double, float and int8) of every shape up to 3x3 and five up to 8194 samples, five signal-to-noise ratios, four oversampling rates, three amplitudes
//MC-ASSUME orders are powers of two; among equally near points any is accepted; noise is compared with the normal sequence of a default-seeded generator
#include "mat.h"
typedef uint32_t u32; typedef std::complex<double> cd;
static u32 order(int n) { static const u32 O[] = {4, 16, 64, 256, 8, 128, 2, 32, 512, 1024, 2048, 4096}; return O[mc::choose(n)]; }
static std::vector<cd> points(susa::qam &q, u32 M) { susa::matrix<cd> *C; { mc::Lib l; C = new susa::matrix<cd>(q.get_constellation()); } MC_CHECK(C->size() == M, "order %u: %zu points", M, C->size()); std::vector<cd> p; for (size_t i = 0; i < C->size(); i++) p.push_back(C->get(i)); { mc::Lib l; delete C; } return p; }
static double power(const std::vector<cd> &p) { double s = 0; for (cd z : p) s += std::norm(z); return s / p.size(); }
static double nearest(const std::vector<cd> &p, cd z) { double b = 1e300; for (cd q : p) b = std::min(b, std::abs(z - q)); return b; }
static int lg(u32 m) { int r = 0; while (m >>= 1) r++; return r; }
static void slice(susa::qam &q, const std::vector<cd> &p, cd z, u32 M) { mc::step(); cd r; { mc::Lib l; r = q.demodulate_symbol(z); } bool in = false; for (cd t : p) in |= t == r; MC_CHECK(in, "order %u: (%g,%g) demodulates to (%g,%g), which is not a constellation point", M, z.real(), z.imag(), r.real(), r.imag()); double d = std::abs(z - r), b = nearest(p, z); MC_CHECK(d <= b * (1 + 1e-12) + 1e-12, "order %u: (%g,%g) demodulates to (%g,%g) at distance %.17g, nearest is %.17g", M, z.real(), z.imag(), r.real(), r.imag(), d, b); }
static susa::qam *make(u32 M) { mc::Lib l; return new susa::qam(M); } template <class P> static void drop(P *p) { mc::Lib l; delete p; }
static void energy(susa::qam &q, const std::vector<cd> &p, u32 M, double db) { double e = std::sqrt(power(p) / lg(M) / 2 * std::pow(10.0, -db / 10)), x = q.get_noise_deviation(db); MC_CHECK(std::fabs(x - e) <= 1e-6 * e, "order %u: noise deviation for %g dB is %.12g, the constellation's bit energy gives %.12g", M, db, x, e); }
MC_SCENARIO(constellation) { // distinct, centred, every point is its own decision; noise deviation follows the bit energy
  u32 M = order(mc::pick(9, 12)); static const int F[] = {0x00, 0x3F, 0xFF}; mc::g_fill = F[mc::choose(3)]; MC_NOTE("order %u", M); auto *q = make(M); auto p = points(*q, M); cd s = 0; for (cd z : p) s += z; MC_CHECK(std::abs(s) < 1e-9 * M, "order %u: the constellation's mean is (%g,%g)", M, s.real() / M, s.imag() / M);
  std::set<std::pair<double, double>> d; for (cd z : p) MC_CHECK(d.insert({z.real(), z.imag()}).second, "order %u: point (%g,%g) occurs twice", M, z.real(), z.imag()); std::set<double> re, im; double gap = 1e300; for (cd z : p) re.insert(z.real()), im.insert(z.imag()); for (auto *a : {&re, &im}) { double o = -1e300; for (double v : *a) { gap = std::min(gap, v - o); o = v; } } MC_CHECK(re.size() * im.size() == M, "order %u: %zu x %zu levels", M, re.size(), im.size()); for (auto *a : {&re, &im}) { double o = 1e300; for (double v : *a) { if (o < 1e299) MC_CHECK(std::fabs(v - o - gap) < 1e-9, "order %u: levels %g and %g are not %g apart", M, o, v, gap); o = v; } }
  for (cd z : p) { cd r; { mc::Lib l; r = q->demodulate_symbol(z); } MC_CHECK(r == z, "order %u: point (%g,%g) demodulates to (%g,%g)", M, z.real(), z.imag(), r.real(), r.imag()); } for (int k = -60; k <= 120; k++) energy(*q, p, M, k / 2.0);
  auto p2 = points(*q, M); MC_CHECK(p2 == p, "order %u: the constellation changed", M); mc::state(mc::Hash().u(M).h); mc::outcome(mc::Hash().u(M).u(1).h); drop(q); mc::heap_empty("after the mapper");
}
MC_SCENARIO(large_orders) { // orders beyond 16 bits: the full grid, its energy, and decisions at corners, edges, centre and in between
  u32 M = mc::any(mc::thorough() ? std::vector<u32>{8192, 16384, 32768, 65536, 131072, 262144} : std::vector<u32>{16384, 65536, 131072}); MC_NOTE("order %u", M); auto *q = make(M); auto p = points(*q, M); std::set<double> re, im; for (cd z : p) re.insert(z.real()), im.insert(z.imag()); MC_CHECK(re.size() * im.size() == M && std::set<double>(re).size() == re.size(), "order %u: %zu x %zu levels", M, re.size(), im.size()); { std::vector<std::pair<double, double>> d; for (cd z : p) d.push_back({z.real(), z.imag()}); std::sort(d.begin(), d.end()); MC_CHECK(std::unique(d.begin(), d.end()) == d.end(), "order %u: a point occurs twice", M); }
  for (int k = -6; k <= 12; k++) energy(*q, p, M, k * 5.0); int at = mc::choose(9); double fr = (at % 3) / 2.0, fi = (at / 3) / 2.0; double x = *re.begin() + fr * (*re.rbegin() - *re.begin()), y = *im.begin() + fi * (*im.rbegin() - *im.begin()); for (double dx : {-0.8, -0.3, 0.0, 0.4, 0.9}) for (double dy : {-0.7, 0.2}) slice(*q, p, cd(x + dx, y + dy), M); mc::state(mc::Hash().u(M).u(at).h); mc::outcome(mc::Hash().u(M).u(at).h); drop(q); mc::heap_empty("after demodulation"); }
MC_SCENARIO(decisions) { u32 M = order(mc::pick(8, 10)); auto *q = make(M); auto p = points(*q, M); double mr = 0, mi = 0; for (cd z : p) mr = std::max(mr, z.real()), mi = std::max(mi, z.imag()); int st = M <= 64 ? 4 : mc::pick(2, 4); double off = mc::choose(2) ? 0.137 : 0; int n = (int)std::ceil((2 * mr + 3) * st); int row = mc::range(0, n); double x = -mr - 1.5 + (double)row / st + off; MC_NOTE("order %u, in-phase %g", M, x);
  for (double y = -mi - 1.5; y <= mi + 1.5; y += 1.0 / st) slice(*q, p, cd(x, y + off / 3), M); mc::state(mc::Hash().u(M).d(x).h); mc::outcome(mc::Hash().u(M).d(x).h); drop(q); mc::heap_empty("after demodulation"); }
MC_SCENARIO(distant) { u32 M = order(8); auto *q = make(M); auto p = points(*q, M); static const double R[] = {20, 1e3, 1e6, -1e3}; double r = R[mc::choose(4)]; MC_NOTE("order %u, radius %g", M, r); for (int k = 0; k < 16; k++) slice(*q, p, std::polar(std::fabs(r), k * 0.4) + (r < 0 ? cd(0.3, -0.2) : cd(0)), M); mc::state(mc::Hash().u(M).d(r).h); mc::outcome(mc::Hash().u(M).d(r).h); drop(q); mc::heap_empty("after demodulation"); }
MC_SCENARIO(pairs) { u32 A = order(8), B = order(8); MC_NOTE("orders %u and %u", A, B); auto *a = make(A), *b = make(B); auto pa = points(*a, A), pb = points(*b, B); slice(*a, pa, cd(0.6, -0.7), A); slice(*b, pb, cd(0.6, -0.7), B); { mc::Lib l; auto *c = new susa::qam(*a); *a = *b; mc::NoLib n; MC_CHECK(points(*c, A) == pa && points(*a, B) == pb, "copy or assignment of mappers of order %u and %u differs", A, B); slice(*c, pa, cd(-0.6, 0.2), A); slice(*a, pb, cd(-0.6, 0.2), B); energy(*c, pa, A, 3); energy(*a, pb, B, 3); drop(b); slice(*a, pb, cd(1.6, 0.2), B); drop(c); } mc::state(mc::Hash().u(A).u(B).h); mc::outcome(mc::Hash().u(A).u(B).h); drop(a); mc::heap_empty("after the mappers"); }
MC_SCENARIO(bpsk_large) { auto sh = large_shapes(); auto s = sh[mc::choose((int)sh.size())]; size_t r = s.first, c = s.second, n = r * c; int w = mc::choose(3); MC_NOTE("%zux%zu bits, family %d", r, c, w); mc::step(); susa::matrix<uint8_t> *B; susa::matrix<int8_t> *S; auto bit = [&](size_t i) { return (uint8_t)(w == 0 ? (mc::Hash::mix(i) & 1) : w == 1 ? i % 256 : i == n - 1); }; { mc::Lib l; B = new susa::matrix<uint8_t>(r, c); for (size_t i = 0; i < n; i++) (*B)(i) = bit(i); S = new susa::matrix<int8_t>(susa::bpsk(*B)); } MC_CHECK(S->no_rows() == r && S->no_cols() == c, "bpsk of %zux%zu is %zux%zu", r, c, S->no_rows(), S->no_cols()); for (size_t i = 0; i < n; i++) MC_CHECK(S->get(i) == (bit(i) ? 1 : -1), "bpsk: bit %zu (%d) of %zux%zu maps to %d", i, bit(i), r, c, (int)S->get(i)); mc::state(mc::Hash().u(r).u(c).u(w).h); mc::outcome(mc::Hash().u(r).u(c).u(w).h); drop(B); drop(S); mc::heap_empty("after bpsk"); }
MC_SCENARIO(bpsk) { int r = mc::range(1, 3), c = mc::range(1, 3), n = r * c; static const int V[] = {0, 1, 255, 2}; int k = n <= 4 ? 4 : 2; std::vector<int> v(n); for (int &x : v) x = V[mc::choose(n > 6 ? 2 : k)]; MC_NOTE("%dx%d bits", r, c); mc::step(); susa::matrix<uint8_t> *B; susa::matrix<int8_t> *S; { mc::Lib l; B = new susa::matrix<uint8_t>(r, c); for (int i = 0; i < n; i++) (*B)(i) = v[i]; S = new susa::matrix<int8_t>(susa::bpsk(*B)); } MC_CHECK((int)S->no_rows() == r && (int)S->no_cols() == c, "bpsk of %dx%d is %zux%zu", r, c, S->no_rows(), S->no_cols()); mc::Hash h; for (int i = 0; i < n; i++) { MC_CHECK(S->get(i) == (v[i] ? 1 : -1), "bpsk: bit %d (%d) of %dx%d maps to %d", i, v[i], r, c, (int)S->get(i)); MC_CHECK(B->get(i) == v[i], "bpsk changed its input"); h.u(v[i]); } mc::state(h.u(r).h); mc::outcome(h.h); drop(B); drop(S); mc::heap_empty("after bpsk"); }
template <class T> static void noise(bool large = false) { static const int LR[] = {1, 257, 64, 3, 4097}, LC[] = {257, 1, 17, 1025, 2}; int k = large ? mc::choose(5) : 0, r = large ? LR[k] : mc::range(1, 3), c = large ? LC[k] : mc::range(1, 3), n = r * c; static const float DB[] = {0, 10, -7, 3, 40}; double A[] = {1, 0.01, 30}; using V = std::conditional_t<susa::is_complex<T>::value, cd, double>; constexpr bool integer = std::is_integral_v<T> || std::is_same_v<T, std::complex<int8_t>>; if (integer) { A[1] = 7; A[2] = sizeof(T) == 4 && !susa::is_complex<T>::value ? 40000 : 50; } else if (sizeof(T) == (susa::is_complex<T>::value ? 8 : 4)) { A[1] = 1e-25; A[2] = 1e25; } float db = DB[mc::choose(5)]; u32 ovs = 1 + (u32)mc::choose(4); double a = A[mc::choose(3)]; static const int F[] = {0x00, 0x3F, 0xFF}; mc::g_fill = F[n % 3]; MC_NOTE("%dx%d, %g dB, oversampling %u, amplitude %g", r, c, db, ovs, a); std::vector<T> v; double P = 0; for (int i = 0; i < n; i++) { if constexpr (susa::is_complex<T>::value) { if (integer) v.push_back(T((int)a * (i % 3 - 1), (int)a * (i / 3 % 4 - 1))); else v.push_back(T(a * (i % 3 - 1), a * (1.5 - i))); P += std::norm(cd(v.back().real(), v.back().imag())); } else { if (integer) v.push_back((T)((int)a * (std::is_unsigned_v<T> ? i % 4 + 1 : i % 4 ? 1 : -2))); else v.push_back(a * (i % 4 - 1.5)); P += std::norm((double)v.back()); } } P *= (double)ovs / n; double sd = std::sqrt(P / std::pow(10.0, db / 10) / 2);
  mc::step(); susa::matrix<T> *S; susa::matrix<V> *N; { mc::Lib l; S = new susa::matrix<T>(r, c); for (int i = 0; i < n; i++) (*S)(i) = v[i]; N = new susa::matrix<V>(ovs == 1 ? susa::awgn(*S, db) : susa::awgn(*S, db, ovs)); } MC_CHECK((int)N->no_rows() == r && (int)N->no_cols() == c, "noise for %dx%d is %zux%zu", r, c, N->no_rows(), N->no_cols());
  std::mt19937 m; auto nrm = [&] { double x, y, w; do { x = 2 * ((u32)m() / 4294967295.0) - 1; y = 2 * ((u32)m() / 4294967295.0) - 1; w = x * x + y * y; } while (w >= 1); return x * std::sqrt(-2 * std::log(w) / w); };
  auto near_ = [&](double x, double e) { return std::fabs(x - e) <= 1e-6 * std::fabs(e) + 1e-15; };
  for (int i = 0; i < n; i++) { double e = sd * nrm(); bool ok; V x = N->get(i); if constexpr (susa::is_complex<T>::value) { double f = sd * nrm(); ok = (near_(x.real(), e) && near_(x.imag(), f)) || (near_(x.real(), f) && near_(x.imag(), e)); } else ok = near_(x, e); MC_CHECK(ok, "%dx%d, %g dB, oversampling %u, amplitude %g: noise sample %d is %g,%g, not the normal number scaled by %.9g", r, c, db, ovs, a, i, std::real(x), std::imag(x), sd); MC_CHECK(S->get(i) == v[i], "awgn changed its input"); }
  mc::state(mc::Hash().d(sd).u(r).u(c).h); mc::outcome(mc::Hash().d(sd).u(r).u(c).d(db).u(ovs).h); drop(S); drop(N); mc::heap_empty("after awgn"); }
MC_SCENARIO(noise_real_large) { noise<double>(true); }
MC_SCENARIO(noise_complex_large) { noise<cd>(true); }
template <class T> static void noise_any() { noise<T>(mc::flip()); }
MC_SCENARIO(noise_int8) { noise_any<int8_t>(); }
MC_SCENARIO(noise_uint8) { noise_any<uint8_t>(); }
MC_SCENARIO(noise_int) { noise_any<int>(); }
MC_SCENARIO(noise_float) { noise_any<float>(); }
MC_SCENARIO(noise_complex_float) { noise_any<std::complex<float>>(); }
MC_SCENARIO(noise_complex_int8) { noise_any<std::complex<int8_t>>(); }
MC_SCENARIO(noise_real) { noise<double>(); }
MC_SCENARIO(noise_complex) { noise<cd>(); }
MC_MAIN
