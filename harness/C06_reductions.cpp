// C06: reductions, statistics and elementwise mathematics.
//MC-VARIANT asan: -O0 -fsanitize=address -DSUSA_NDEBUG
//MC-PARTS 3
//MC-BOUND every content over {-2,-1,0,1,3} of every shape with at most 6 (thorough 7) elements for 5 real element types, every content over 4 complex values with at most 4 (5) elements, larger shapes up to 5x5 and vectors up to 12 with each special value at each position; 22 larger shapes (15 to 65537 elements) with a special element at six positions; variance and standard deviation of every list of up to 5 values far from zero and up to 4 extreme values of four integer types; min, max, sign and abs over every content of up to 5 (6) extreme values; every function of base.h/statistics.h named in the property
//MC-ASSUME several equal extremes: any of their positions is accepted; integer results that need a fraction are truncated towards zero; floating sums and sums of squares stay finite; floating results within 1e-5 (float) or 1e-12 (double) relative
#include "mat.h"
#include <cmath>

template <class T> static double tol() { return std::is_same<T, float>::value ? 1e-5 : 1e-12; }
template <class T> static bool close(T a, T b) { if (a == b) return true; if (std::is_integral<T>::value) return a == b; return std::fabs((double)a - (double)b) <= tol<T>() * (1 + std::fabs((double)b)); }
template <class T> static bool close(std::complex<T> a, std::complex<T> b) { return close(a.real(), b.real()) && close(a.imag(), b.imag()); }
template <class T> static void eqm(const char *what, const susa::matrix<T> &g, const Ref<T> &e, const char *in) {
  shape_is(g, e.r, e.c, what);
  for (size_t i = 0; i < e.v.size(); i++) { T x = g.get(i); MC_CHECK(close(x, e.v[i]), "%s of %s: element %zu is %s, expected %s", what, in, i, str(x).c_str(), str(e.v[i]).c_str()); }
}
// columns of the reduction: one column for vectors and single elements
template <class T> static std::vector<std::vector<T>> columns(const Ref<T> &a) {
  std::vector<std::vector<T>> r;
  if (a.r == 1 || a.c == 1) r.push_back(a.v); else for (size_t j = 0; j < a.c; j++) r.push_back(std::vector<T>(a.v.begin() + j * a.r, a.v.begin() + (j + 1) * a.r));
  return r;
}
template <class T, class F> static Ref<T> reduce(const Ref<T> &a, F f) { auto c = columns(a); Ref<T> r(1, c.size(), T(0)); for (size_t j = 0; j < c.size(); j++) r.v[j] = f(c[j]); return r; }
template <class T> static T total(const std::vector<T> &v) { T s(0); for (T x : v) s += x; return s; }
// exact sums of integers, and what a result type can hold
template <class T> struct WideOf { typedef T type; }; template <> struct WideOf<int> { typedef long long type; }; template <> struct WideOf<unsigned> { typedef long long type; }; template <> struct WideOf<long> { typedef long long type; }; template <> struct WideOf<int8_t> { typedef long long type; }; template <> struct WideOf<uint8_t> { typedef long long type; }; template <> struct WideOf<int16_t> { typedef long long type; };
template <class T> static typename WideOf<T>::type wide(const std::vector<T> &v) { typename WideOf<T>::type s(0); for (T x : v) s += x; return s; }
template <class T> static bool fits(double x) { return !std::is_integral<T>::value || (x >= (double)std::numeric_limits<T>::lowest() && x < (double)std::numeric_limits<T>::max() + 1); }
template <class T> static T mean_of(const std::vector<T> &v) { return std::is_integral<T>::value ? (T)(wide(v) / (typename WideOf<T>::type)v.size()) : (T)((double)total(v) / (double)v.size()); }
template <class T> static double norm_of(const std::vector<T> &v) { long double s = 0; for (T x : v) s += (long double)x * (long double)x; return (double)std::sqrt(s); }
// sum and norm are only defined where the result type holds them
template <class T> static bool sums_fit(const Ref<T> &a) { for (auto &c : columns(a)) if (!fits<T>((double)wide(c))) return false; return true; }
template <class T> static bool norms_fit(const Ref<T> &a) { for (auto &c : columns(a)) if (!fits<T>(norm_of(c))) return false; return true; }
template <class T> static void one_real(const Ref<T> &a) {
  std::string in = brief(a); MC_NOTE("input %s", in.c_str());
  susa::matrix<T> *A; { mc::Lib l; A = new susa::matrix<T>(mk(a)); }
  mc::step(8);
  double n = 0;
  {
    mc::Lib l; mc::NoLib nn;
#define RUN(expr) [&] { mc::Lib l2; return expr; }()
    if (sums_fit(a)) eqm("sum", RUN(susa::sum(*A)), reduce(a, [](const std::vector<T> &v) { return total(v); }), in.c_str());
    eqm("mean", RUN(susa::mean(*A)), reduce(a, [](const std::vector<T> &v) { return mean_of(v); }), in.c_str());
    if (norms_fit(a)) eqm("norm", RUN(susa::norm(*A)), reduce(a, [](const std::vector<T> &v) { return (T)norm_of(v); }), in.c_str());
    auto cols = columns(a);
    auto mx = RUN(susa::max(*A)); auto mn = RUN(susa::min(*A));
    shape_is(mx, 1, cols.size(), "max"); shape_is(mn, 1, cols.size(), "min");
    for (size_t j = 0; j < cols.size(); j++) {
      MC_CHECK(mx(j) < cols[j].size() && cols[j][mx(j)] == *std::max_element(cols[j].begin(), cols[j].end()), "max of %s: index %zu of column %zu is not a largest element", in.c_str(), mx(j), j);
      MC_CHECK(mn(j) < cols[j].size() && cols[j][mn(j)] == *std::min_element(cols[j].begin(), cols[j].end()), "min of %s: index %zu of column %zu is not a smallest element", in.c_str(), mn(j), j);
    }
    Ref<T> e(a.r, a.c, T(0)); for (size_t i = 0; i < a.v.size(); i++) e.v[i] = a.v[i] < T(0) ? (T)-a.v[i] : a.v[i];
    if constexpr (std::is_signed<T>::value) eqm("abs", RUN(susa::abs(*A)), e, in.c_str());
    Ref<int8_t> s(a.r, a.c, 0); for (size_t i = 0; i < a.v.size(); i++) { s.v[i] = a.v[i] > T(0) ? 1 : a.v[i] < T(0) ? -1 : 0; MC_CHECK(susa::sign(a.v[i]) == s.v[i], "sign(%s) is %d", str(a.v[i]).c_str(), (int)susa::sign(a.v[i])); }
    eqm("sign", RUN(susa::sign(*A)), s, in.c_str());
    if constexpr (std::is_floating_point<T>::value) {
      bool pos = true; for (T x : a.v) pos = pos && x > 0;
      for (size_t i = 0; i < a.v.size(); i++) e.v[i] = std::log(std::fabs(a.v[i]) + T(1));
      susa::matrix<T> P = mk(a); for (size_t i = 0; i < a.v.size(); i++) P(i) = std::fabs(a.v[i]) + T(1);
      eqm("log", RUN(susa::log(P)), e, in.c_str());
      Ref<std::complex<T>> z(a.r, a.c, T(0)); for (size_t i = 0; i < a.v.size(); i++) z.v[i] = a.v[i];
      eqm("to_complex", RUN(susa::to_complex(*A)), z, in.c_str());
    }
    // STL vector forms
    const std::vector<T> v = a.v; n = (double)v.size();
    MC_CHECK(!fits<T>((double)wide(v)) || close(susa::sum(v), total(v)), "sum of vector %s is wrong", in.c_str());
    MC_CHECK(close(susa::mean(v), mean_of(v)), "mean of vector %s is %s", in.c_str(), str(susa::mean(v)).c_str());
    double m = 0, q = 0; for (T x : v) m += (double)x; m /= n; for (T x : v) q += ((double)x - m) * ((double)x - m); q /= n;
    double gv = susa::var(v), gs = susa::stdv(v);
    MC_CHECK(std::fabs(gv - q) < 1e-6 * (1 + q), "variance of vector %s is %.17g, expected %.17g", in.c_str(), gv, q);
    MC_CHECK(std::fabs(gs - std::sqrt(q)) < 1e-5 * (1 + std::sqrt(q)), "standard deviation of vector %s is %.17g, expected %.17g", in.c_str(), gs, std::sqrt(q));
    std::vector<T> d = susa::diff(v); MC_CHECK(d.size() == v.size() - 1, "diff of vector %s has %zu elements", in.c_str(), d.size());
    for (size_t i = 0; i < d.size(); i++) MC_CHECK(close(d[i], (T)(v[i + 1] - v[i])), "diff of vector %s: element %zu is %s", in.c_str(), i, str(d[i]).c_str());
    if constexpr (std::is_signed<T>::value) { std::vector<T> b = susa::abs(v); MC_CHECK(b.size() == v.size(), "abs of vector: wrong length"); for (size_t i = 0; i < b.size(); i++) MC_CHECK(close(b[i], v[i] < T(0) ? (T)-v[i] : v[i]), "abs of vector %s: element %zu is %s", in.c_str(), i, str(b[i]).c_str()); }
    for (size_t i = 0; i < v.size(); i++) MC_CHECK(v[i] == a.v[i], "a vector argument was changed");
  }
  same(*A, a, "argument after the functions");
  mc::outcome(hashref(a)); mc::state(hashref(a));
  { mc::Lib l; delete A; } mc::heap_empty("after reductions");
}
static void shape_of(int n, int &r, int &c) { std::vector<int> d; for (int i = 1; i <= n; i++) if (n % i == 0) d.push_back(i); r = mc::any(d); c = n / r; }
template <class T> static void real_all(int maxn) {
  int n = mc::range(1, maxn), r, c; shape_of(n, r, c);
  static const T V[] = {T(0), T(1), T(3), std::is_signed<T>::value ? T(-1) : T(2), std::is_signed<T>::value ? T(-2) : T(5)};
  Ref<T> a(r, c, T(0)); for (auto &x : a.v) x = V[mc::choose(5)];
  one_real(a);
}
template <class T> static void real_big() {
  int r, c; int k = mc::choose(3);
  if (k == 0) { r = mc::range(2, mc::pick(5, 7)); c = mc::range(2, mc::pick(5, 7)); } else { int n = mc::range(7, mc::pick(12, 25)); r = k == 1 ? 1 : n; c = k == 1 ? n : 1; }
  Ref<T> a(r, c, T(0)); bool desc = mc::flip(); for (int i = 0; i < r * c; i++) a.v[i] = T(desc ? r * c / 2 - i : i - r * c / 2);
  int p = mc::choose(r * c); int s = mc::choose(3); a.v[p] = s == 0 ? T(60) : s == 1 ? T(-60) : T(0);
  if (sizeof(T) == 1) for (auto &x : a.v) x = x / 12;
  one_real(a);
}
template <class T> static void one_cplx(const Ref<std::complex<T>> &a);
template <class T> static void cplx(int maxn) {
  using C = std::complex<T>;
  int n = mc::range(1, maxn), r, c; shape_of(n, r, c);
  static const C V[] = {C(0, 0), C(1, 2), C(-3, 1), C(0, -2)};
  Ref<C> a(r, c, C(0)); for (auto &x : a.v) x = V[mc::choose(4)];
  one_cplx<T>(a);
}
template <class T> static void cplx_large_() { using C = std::complex<T>; auto p = mc::any(large_shapes()); int n = p.first * p.second; Ref<C> a(p.first, p.second, C(0)); for (int i = 0; i < n; i++) a.v[i] = C((i * 7) % 23 - 11, (i * 5) % 19 - 9); a.v[some_place(n)] = C(100, -50); one_cplx<T>(a); }
template <class T> static void one_cplx(const Ref<std::complex<T>> &a) {
  using C = std::complex<T>; int n = (int)a.v.size(), r = (int)a.r, c = (int)a.c;
  std::string in = brief(a); MC_NOTE("input %s", in.c_str());
  susa::matrix<C> A = mk(a); mc::step(7);
  Ref<T> t(r, c, T(0)); Ref<C> z(r, c, C(0));
  for (int i = 0; i < n; i++) t.v[i] = a.v[i].real(); eqm("real", susa::real(A), t, in.c_str());
  for (int i = 0; i < n; i++) t.v[i] = a.v[i].imag(); eqm("imag", susa::imag(A), t, in.c_str());
  for (int i = 0; i < n; i++) t.v[i] = a.v[i].real() * a.v[i].real() + a.v[i].imag() * a.v[i].imag(); eqm("mag", susa::mag(A), t, in.c_str());
  for (int i = 0; i < n; i++) z.v[i] = C(a.v[i].real(), -a.v[i].imag()); eqm("conj", susa::conj(A), z, in.c_str());
  for (int i = 0; i < n; i++) z.v[i] = std::hypot(a.v[i].real(), a.v[i].imag()); eqm("abs", susa::abs(A), z, in.c_str());
  eqm("sum", susa::sum(A), reduce(a, [](const std::vector<C> &v) { return total(v); }), in.c_str());
  eqm("mean", susa::mean(A), reduce(a, [](const std::vector<C> &v) { return total(v) / (T)v.size(); }), in.c_str());
  eqm("norm", susa::norm(A), reduce(a, [](const std::vector<C> &v) { T s = 0; for (C x : v) s += x.real() * x.real() + x.imag() * x.imag(); return C(std::sqrt(s)); }), in.c_str());
  MC_CHECK(close(susa::sum(a.v), total(a.v)), "sum of complex vector %s is wrong", in.c_str());
  { susa::matrix<C> P = mk(a); Ref<C> e(r, c, C(0)); for (int i = 0; i < n; i++) { P(i) = a.v[i] + C(5, 0); e.v[i] = std::log(a.v[i] + C(5, 0)); } eqm("log", susa::log(P), e, in.c_str()); }
  same(A, a, "argument after the functions");
  mc::outcome(hashref(a)); mc::state(hashref(a));
}
// long operands: every element matters (a position-dependent pattern), one special element at a boundary position
template <class T> static void real_large() {
  auto p = mc::any(large_shapes()); int n = p.first * p.second, pos = some_place(n), k = mc::choose(3); Ref<T> a(p.first, p.second, T(0));
  const bool sparse = sizeof(T) == 1 && mc::flip(); for (int i = 0; i < n; i++) a.v[i] = sparse ? T(i % 97 == 5 && i < 1000 ? (i % 2 ? 1 : -1) : 0) : T(std::is_signed<T>::value ? (i * 7) % 23 - 11 : (i * 7) % 23 + 1);
  a.v[pos] = sparse ? T(k == 0 ? 8 : k == 1 && std::is_signed<T>::value ? -8 : 2) : T(k == 0 ? 100 : k == 1 && std::is_signed<T>::value ? -100 : 24); one_real(a);
}
#if MC_PART == 2
// statistics keep their accuracy when the values lie far from zero, and are not limited to the range of the element type
MC_SCENARIO(variance_far_from_zero) {
  int n = mc::range(1, 5), off = mc::choose(4); std::vector<double> v; static const double O[] = {1e6, -1e8, 1e8, 3e9}; for (int i = 0; i < n; i++) v.push_back(O[off] + mc::choose(4)); mc::step();
  double m = 0, q = 0; for (double x : v) m += x - O[off]; m /= n; for (double x : v) q += (x - O[off] - m) * (x - O[off] - m); q /= n; double g = susa::var(v), s = susa::stdv(v);
  MC_CHECK(std::fabs(g - q) < 1e-5, "variance of %d values around %g is %.17g, expected %.17g", n, O[off], g, q); MC_CHECK(std::fabs(s - std::sqrt(q)) < 4e-3, "standard deviation of %d values around %g is %.17g, expected %.17g", n, O[off], s, std::sqrt(q));
  mc::Hash h; h.u(off).u(n); for (double x : v) h.d(x); mc::state(h.h); mc::outcome(h.h);
}
template <class T> static void variance_extremes() {
  typedef std::numeric_limits<T> L; int n = mc::range(1, 4); std::vector<T> v; const T V[] = {L::max(), L::lowest(), T(0), T(1)}; for (int i = 0; i < n; i++) v.push_back(V[mc::choose(4)]); mc::step();
  long double m = 0, q = 0; for (T x : v) m += x; m /= n; for (T x : v) q += (x - m) * (x - m); q /= n; double g = susa::var(v); MC_CHECK(std::fabs(g - (double)q) <= 1e-9 * (double)q, "variance of %d extreme values is %.17g, expected %.17Lg", n, g, q); MC_CHECK(std::fabs(susa::stdv(v) - std::sqrt((double)q)) <= 1e-9 * std::sqrt((double)q), "standard deviation of %d extreme values", n);
  mc::Hash h; h.u(n).u(sizeof(T)); for (T x : v) h.d((double)x); mc::state(h.h); mc::outcome(h.h);
}
MC_SCENARIO(variance_of_extremes) { switch (mc::choose(4)) { case 0: variance_extremes<int>(); break; case 1: variance_extremes<unsigned>(); break; case 2: variance_extremes<int8_t>(); break; default: variance_extremes<uint8_t>(); } }
template <class T> static void extremes() {
  typedef std::numeric_limits<T> L; int n = mc::range(1, mc::pick(5, 6)), r, c; shape_of(n, r, c); std::vector<T> V{L::lowest(), L::max(), T(0), T(1), L::min()}; if (std::is_floating_point<T>::value) { V = {L::lowest(), L::max(), -L::infinity(), L::infinity(), L::denorm_min(), -L::denorm_min(), T(-0.0)}; }
  Ref<T> a(r, c, T(0)); for (auto &x : a.v) x = V[mc::choose((int)V.size())]; susa::matrix<T> A = mk(a); mc::step(); MC_NOTE("input %s", str(a).c_str()); auto cols = columns(a); auto mx = susa::max(A), mn = susa::min(A); shape_is(mx, 1, cols.size(), "max"); shape_is(mn, 1, cols.size(), "min");
  for (size_t j = 0; j < cols.size(); j++) { MC_CHECK(mx(j) < cols[j].size() && cols[j][mx(j)] == *std::max_element(cols[j].begin(), cols[j].end()), "max of %s: index %zu of column %zu is not a largest element", str(a).c_str(), (size_t)mx(j), j); MC_CHECK(mn(j) < cols[j].size() && cols[j][mn(j)] == *std::min_element(cols[j].begin(), cols[j].end()), "min of %s: index %zu of column %zu is not a smallest element", str(a).c_str(), (size_t)mn(j), j); }
  auto S = susa::sign(A); for (int i = 0; i < n; i++) { int w = a.v[i] > T(0) ? 1 : a.v[i] < T(0) ? -1 : 0; MC_CHECK(S(i) == w && susa::sign(a.v[i]) == w, "sign of %s is %d or %d", str(a.v[i]).c_str(), (int)S(i), (int)susa::sign(a.v[i])); }
  if constexpr (std::is_integral<T>::value) { // results that the type holds although the sums behind them leave it
    auto M = susa::mean(A), N = susa::norm(A); shape_is(M, 1, cols.size(), "mean"); shape_is(N, 1, cols.size(), "norm"); MC_CHECK(susa::mean(a.v) == mean_of(a.v), "mean of vector %s is %s", str(a).c_str(), str(susa::mean(a.v)).c_str());
    for (size_t j = 0; j < cols.size(); j++) { MC_CHECK(M(j) == mean_of(cols[j]), "mean of %s: column %zu is %s, expected %s", str(a).c_str(), j, str((T)M(j)).c_str(), str(mean_of(cols[j])).c_str()); double w = norm_of(cols[j]); MC_CHECK(!fits<T>(w) || N(j) == (T)w || (w > 9e7 && std::fabs((double)N(j) - w) <= 1.01), "norm of %s: column %zu is %s, expected %.17g", str(a).c_str(), j, str((T)N(j)).c_str(), w); }
  }
  if constexpr (std::is_floating_point<T>::value) { auto B = susa::abs(A); for (int i = 0; i < n; i++) MC_CHECK(B(i) == std::fabs(a.v[i]) && !std::signbit(B(i)), "abs of %s", str(a.v[i]).c_str()); }
  mc::outcome(hashref(a)); mc::state(mc::Hash().u(hashref(a)).u(sizeof(T)).h);
}
MC_SCENARIO(extreme_values) { switch (mc::choose(4)) { case 0: extremes<double>(); break; case 1: extremes<int>(); break; case 2: extremes<int8_t>(); break; default: extremes<unsigned>(); } }
#endif
#if MC_PART == 0
MC_SCENARIO(double_large) { real_large<double>(); }
MC_SCENARIO(float_large) { real_large<float>(); }
#elif MC_PART == 1
MC_SCENARIO(int_large) { real_large<int>(); }
MC_SCENARIO(int8_large) { real_large<int8_t>(); }
#else
MC_SCENARIO(unsigned_large) { real_large<unsigned>(); }
MC_SCENARIO(cdouble_large) { cplx_large_<double>(); }
#endif
#if MC_PART == 0
MC_SCENARIO(double_all) { real_all<double>(mc::pick(6, 7)); }
MC_SCENARIO(double_big) { real_big<double>(); }
MC_SCENARIO(float_all) { real_all<float>(mc::pick(4, 6)); }
MC_SCENARIO(float_big) { real_big<float>(); }
#elif MC_PART == 1
MC_SCENARIO(int_all) { real_all<int>(mc::pick(6, 7)); }
MC_SCENARIO(int_big) { real_big<int>(); }
MC_SCENARIO(int8_all) { real_all<int8_t>(mc::pick(5, 7)); }
MC_SCENARIO(int8_big) { real_big<int8_t>(); }
MC_SCENARIO(long_all) { real_all<long>(mc::pick(4, 6)); }
#else
MC_SCENARIO(unsigned_all) { real_all<unsigned>(mc::pick(4, 6)); }
MC_SCENARIO(cdouble_all) { cplx<double>(mc::pick(4, 5)); }
MC_SCENARIO(cfloat_all) { cplx<float>(mc::pick(4, 5)); }
template <class T> static void cplx_int() { // complex integers: exact sums, truncated means and norms
  using C = std::complex<T>; int n = mc::range(1, mc::pick(4, 5)), r, c; shape_of(n, r, c); static const C V[] = {C(0, 0), C(3, 4), C(-100, 50), C(127, -128), C(-60, -80)}; int rep = mc::choose(2) ? 60 : 1; if (rep > 1) { r *= rep; }
  Ref<C> a(r, c, C(0)); for (int i = 0; i < n; i++) { C x = V[mc::choose(5)]; for (int k = 0; k < rep; k++) a.v[i * rep + k] = x; } susa::matrix<C> A = mk(a); mc::step(); MC_NOTE("input %s", brief(a).c_str());
  auto M = susa::mean(A), N = susa::norm(A), B = susa::conj(A), D = susa::abs(A); std::vector<C> E = susa::abs(a.v); MC_CHECK(E.size() == a.v.size(), "abs of vector: wrong length"); shape_is(D, a.r, a.c, "abs"); auto cols = columns(a); shape_is(M, 1, cols.size(), "mean"); shape_is(N, 1, cols.size(), "norm");
  for (size_t j = 0; j < cols.size(); j++) { long long re = 0, im = 0, q = 0, k = (long long)cols[j].size(); for (C x : cols[j]) { re += x.real(); im += x.imag(); q += (long long)x.real() * x.real() + (long long)x.imag() * x.imag(); }
    MC_CHECK((long long)M(j).real() == re / k && (long long)M(j).imag() == im / k, "mean of %s: column %zu is (%lld,%lld), expected (%lld,%lld)", brief(a).c_str(), j, (long long)M(j).real(), (long long)M(j).imag(), re / k, im / k);
    double w = std::sqrt((double)q); MC_CHECK(!fits<T>(w) || ((long long)N(j).real() == (long long)w && N(j).imag() == T(0)), "norm of %s: column %zu is (%lld,%lld), expected %.17g", brief(a).c_str(), j, (long long)N(j).real(), (long long)N(j).imag(), w); }
  for (size_t i = 0; i < a.v.size(); i++) { double w = std::hypot((double)a.v[i].real(), (double)a.v[i].imag()); if (fits<T>(w)) MC_CHECK(D(i) == C((T)w, 0) && E[i] == D(i), "abs of %s: element %zu is (%lld,%lld), expected %.17g", brief(a).c_str(), i, (long long)D(i).real(), (long long)D(i).imag(), w); }
  for (size_t i = 0; i < a.v.size(); i++) { if (a.v[i].imag() != std::numeric_limits<T>::lowest()) MC_CHECK(B(i) == C(a.v[i].real(), -a.v[i].imag()), "conj of %s: element %zu", brief(a).c_str(), i); }
  same(A, a, "argument after the functions"); mc::state(mc::Hash().u(hashref(a)).u(sizeof(T)).h); mc::outcome(mc::Hash().u(hashref(a)).u(sizeof(T)).h);
}
MC_SCENARIO(cint8_all) { cplx_int<int8_t>(); }
MC_SCENARIO(cint_all) { cplx_int<int>(); }
MC_SCENARIO(vectors_of_size_t) {
  int n = mc::range(1, 5); std::vector<size_t> v; for (int i = 0; i < n; i++) v.push_back(mc::choose(4)); mc::step();
  size_t s = 0; for (size_t x : v) s += x; MC_CHECK(susa::sum(v) == s && susa::mean(v) == s / n, "sum or mean of a vector of size_t is wrong");
  mc::outcome(mc::Hash().bytes(v.data(), n * 8).h); mc::state(mc::Hash().bytes(v.data(), n * 8).h);
}
#endif
MC_MAIN
