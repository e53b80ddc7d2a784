// C09: LU and pivoted LU solvers.
//MC-VARIANT asan: -O1 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND every 1x1 and 2x2 matrix over {-3,-1,0,1,2,5}, every 3x3 over {-1,0,2} (thorough {-2,-1,0,1,3}), every 4x4 over {0,1} (thorough), products of every permutation with dense and triangular patterns up to 6x6 including rank-deficient ones; double and float; row scalings 1, 1/2, 10; banded, triangular and bordered systems of 7 to 65 and 257 unknowns under five row orders, regular and with three kinds of dependence; every sequence of up to 3 calls of decompose, decompose_alt, solve, invert on one object; every unit and a dense right-hand side, as column and as row
//MC-ASSUME pivots are either zero or larger than the solver's tolerance (1e-4 by default), as they are for these matrices; exact rational elimination is the reference for singularity; residuals within 1e-9 (double) or 2e-3 (float) times the growth of the inverse
#include "mat.h"
typedef __int128 I;
template <class T> using M = susa::matrix<T>;
#define LIB(expr) [&] { mc::Lib lib_; mc::step(); return expr; }()
static I det_exact(std::vector<std::vector<I>> m) {
  int n = m.size(); I prev = 1; int sg = 1;
  for (int k = 0; k < n; k++) { int p = k; while (p < n && m[p][k] == 0) p++; if (p == n) return 0; if (p != k) { std::swap(m[p], m[k]); sg = -sg; } for (int i = k + 1; i < n; i++) for (int j = n - 1; j >= k; j--) m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev; prev = m[k][k]; }
  return sg * prev;
}
template <class T> static std::vector<std::vector<I>> ints(const Ref<T> &a, double scale = 1) { std::vector<std::vector<I>> m(a.r, std::vector<I>(a.c)); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) m[i][j] = (I)std::llround((double)a.at(i, j) * scale); return m; }
template <class T> static double tol() { return std::is_same<T, float>::value ? 2e-3 : 1e-9; }
template <class T> static std::vector<double> times(const Ref<T> &a, const M<T> &x) { std::vector<double> r(a.r, 0); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) r[i] += (double)a.at(i, j) * (double)x.get(j); return r; }
static bool fin(double x) { return std::isfinite(x); }

template <class T> static void check_lup(susa::lup<T> &L, const Ref<T> &a, bool ok, bool alt, bool singular, const char *what) {
  size_t n = a.r; double t = tol<T>();
  MC_CHECK(ok == !singular, "%s says %d for the %s matrix %s", what, (int)ok, singular ? "singular" : "invertible", str(a).c_str());
  if (!ok) return;
  const M<T> &lu = L.get_lu(); shape_is(lu, n, n, "get_lu");
  // rows of L*U are a permutation of the rows of A
  std::vector<char> used(n, 0); std::vector<int> perm(n, -1); double big = 1;
  for (size_t i = 0; i < n; i++) {
    std::vector<double> row(n, 0);
    for (size_t j = 0; j < n; j++) for (size_t k = 0; k <= std::min(i, j); k++) row[j] += (k == i ? 1.0 : (double)lu.get(i, k)) * (double)lu.get(k, j);
    for (size_t j = 0; j < i; j++) MC_CHECK(std::fabs((double)lu.get(i, j)) <= 1 + t, "%s of %s: multiplier (%zu,%zu) is %g, so the largest pivot was not chosen", what, str(a).c_str(), i, j, (double)lu.get(i, j));
    for (size_t p = 0; p < n && perm[i] < 0; p++) if (!used[p]) { bool m = true; for (size_t j = 0; j < n; j++) m = m && fin(row[j]) && std::fabs(row[j] - (double)a.at(p, j)) < t * 10; if (m) { used[p] = 1; perm[i] = p; } }
    MC_CHECK(perm[i] >= 0, "%s of %s: row %zu of L*U is not a row of the matrix; LU = %s", what, str(a).c_str(), i, str(lu).c_str());
  }
  { const M<T> &P = L.get_pivot(); shape_is(P, n, n, "get_pivot"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double s = 0; for (size_t k = 0; k < n; k++) s += (double)P.get(i, k) * (double)a.at(k, j); double q = 0; for (size_t k = 0; k <= std::min(i, j); k++) q += (k == i ? 1.0 : (double)lu.get(i, k)) * (double)lu.get(k, j); MC_CHECK(std::fabs(s - q) < t * 10, "%s of %s: P*A and L*U differ at (%zu,%zu): %g and %g", what, str(a).c_str(), i, j, s, q); } }
  M<T> v = LIB(L.invert()); shape_is(v, n, n, "invert");
  for (size_t i = 0; i < n * n; i++) big = std::max(big, std::fabs((double)v.get(i)));
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double s = 0, s2 = 0; for (size_t k = 0; k < n; k++) { s += (double)a.at(i, k) * (double)v.get(k, j); s2 += (double)v.get(i, k) * (double)a.at(k, j); } MC_CHECK(std::fabs(s - (i == j)) < t * big && std::fabs(s2 - (i == j)) < t * big, "%s: inverse of %s is %s: product at (%zu,%zu) is %g", what, str(a).c_str(), str(v).c_str(), i, j, s); }
  for (size_t b = 0; b <= n; b++) for (int o = 0; o < 2; o++) {
    Ref<T> rhs(o ? 1 : n, o ? n : 1, T(0)); if (b < n) rhs.v[b] = T(1); else for (size_t i = 0; i < n; i++) rhs.v[i] = T((int)(i * 3) % 4 - 1);
    M<T> B = mk(rhs); M<T> x = LIB(L.solve(B)); shape_is(x, n, 1, "solve"); same(B, rhs, "right-hand side");
    auto r = times(a, x); for (size_t i = 0; i < n; i++) MC_CHECK(fin(r[i]) && std::fabs(r[i] - (double)rhs.v[i]) < t * big * 4, "%s: solution of %s x = %s is %s, equation %zu gives %g", what, str(a).c_str(), str(rhs).c_str(), str(x).c_str(), i, r[i]);
  }
}
// known: -1 when exact elimination decides, else bit 0 = singular, bit 1 = elimination without pivoting may stop
template <class T> static void all(const Ref<T> &a, double scale = 1, int known = -1) {
  size_t n = a.r; bool singular = known >= 0 ? known & 1 : det_exact(ints(a, scale)) == 0; double t = tol<T>();
  MC_NOTE("%s, %s", brief(a).c_str(), singular ? "singular" : "invertible");
  M<T> *A; { mc::Lib l; A = new M<T>(mk(a)); }
  { // plain LU: succeeds exactly when no zero pivot is met, which the leading minors decide
    bool stop = known >= 0 && (known & 2); if (known < 0) for (size_t k = 1; k < n && !stop; k++) { Ref<T> m(k, k, T(0)); for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) m.at(i, j) = a.at(i, j); stop = det_exact(ints(m, scale)) == 0; }
    mc::Lib l; susa::lu<T> s(*A); mc::step(); bool ok = s.decompose(); mc::NoLib nl;
    if (!stop) MC_CHECK(ok, "lu::decompose failed for %s although no pivot vanishes", str(a).c_str());
    if (stop && std::is_same<T, double>::value) { /* rounding may hide an exact zero pivot: then the factors must still be right */ }
    if (ok) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
      double x = 0; for (size_t k = 0; k < n; k++) x += (double)s.get_lower().get(i, k) * (double)s.get_upper().get(k, j);
      MC_CHECK(fin(x), "lu::decompose of %s reported success with non-finite factors", str(a).c_str());
      if (!stop) MC_CHECK(std::fabs(x - (double)a.at(i, j)) < t * 100, "lu of %s: L*U at (%zu,%zu) is %g", str(a).c_str(), i, j, x);
      if (i < j) MC_CHECK(s.get_lower().get(i, j) == T(0), "lu of %s: L is not lower triangular", str(a).c_str());
      if (i > j) MC_CHECK(s.get_upper().get(i, j) == T(0), "lu of %s: U is not upper triangular", str(a).c_str());
      if (i == j) MC_CHECK(s.get_lower().get(i, j) == T(1), "lu of %s: L does not have a unit diagonal", str(a).c_str());
    }
  }
  { mc::Lib l; susa::lup<T> s(*A); mc::step(); bool ok = s.decompose(); mc::NoLib nl; check_lup(s, a, ok, false, singular, "lup::decompose"); }
  { mc::Lib l; susa::lup<T> s(*A); mc::step(); bool ok = s.decompose_alt(); mc::NoLib nl; check_lup(s, a, ok, true, singular, "lup::decompose_alt"); }
  if (!singular) {
    Ref<T> rhs(n, 1, T(0)); for (size_t i = 0; i < n; i++) rhs.v[i] = T((int)(i * 5) % 3 - 1); M<T> B = mk(rhs);
    M<T> x = LIB(susa::linsolve(*A, B)), v = LIB(susa::inv(*A)); double big = 1; for (size_t i = 0; i < n * n; i++) big = std::max(big, std::fabs((double)v.get(i)));
    auto r = times(a, x); for (size_t i = 0; i < n; i++) MC_CHECK(std::fabs(r[i] - (double)rhs.v[i]) < t * big * 4, "linsolve of %s: equation %zu gives %g", str(a).c_str(), i, r[i]);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double s = 0; for (size_t k = 0; k < n; k++) s += (double)a.at(i, k) * (double)v.get(k, j); MC_CHECK(std::fabs(s - (i == j)) < t * big, "inv of %s is wrong: product at (%zu,%zu) is %g", str(a).c_str(), i, j, s); }
  }
  same(*A, a, "matrix given to the solvers");
  mc::outcome(hashref(a)); mc::state(mc::Hash().u(n).u(singular).u(hashref(a)).h);
  { mc::Lib l; delete A; } mc::heap_empty("after the solvers");
}
template <class T> static void fillv(Ref<T> &a, std::vector<int> V) { for (auto &x : a.v) x = T(V[mc::choose((int)V.size())]); }
template <class T> static void small() { int n = mc::range(1, 2); Ref<T> a(n, n, T(0)); fillv<T>(a, {-3, -1, 0, 1, 2, 5}); all(a); }
template <class T> static void three() { Ref<T> a(3, 3, T(0)); if (mc::thorough() && std::is_same<T, double>::value) fillv<T>(a, {-2, -1, 0, 1, 3}); else fillv<T>(a, {-1, 0, 2}); all(a); }
// pivot candidates of (nearly) equal magnitude, entries around the solver's tolerance apart: whatever is reported decomposed must be right
template <class T> static void near_ties() { static const double V[] = {1, 1.00005, -1.00002, 0.5, 1.2, -1}; int n = mc::range(2, 3), k = n == 2 ? 6 : mc::pick(3, 4); Ref<T> a(n, n, T(0)); for (auto &x : a.v) x = T(V[mc::choose(k)]); MC_NOTE("%s", str(a).c_str()); M<T> A = mk(a);
  for (int o = 0; o < 2; o++) { M<T> B(A); mc::Lib l; susa::lup<T> s(B); mc::step(); bool ok = o ? s.decompose_alt() : s.decompose(); mc::NoLib nl; check_lup(s, a, ok, o, !ok, o ? "lup::decompose_alt" : "lup::decompose"); mc::outcome(mc::Hash().u(hashref(a)).u(ok).u(o).h); } mc::state(hashref(a)); }
MC_SCENARIO(near_ties_double) { near_ties<double>(); }
MC_SCENARIO(near_ties_float) { near_ties<float>(); }
MC_SCENARIO(small_double) { small<double>(); }
MC_SCENARIO(small_float) { small<float>(); }
MC_SCENARIO(three_double) { three<double>(); }
MC_SCENARIO(three_float) { three<float>(); }
MC_SCENARIO(four_binary) { Ref<double> a(4, 4, 0.0); if (mc::thorough()) fillv<double>(a, {0, 1}); else { fillv<double>(a, {0, 1}); mc::assume(a.at(3, 0) == 1 && a.at(0, 3) == 0 && a.at(2, 2) == 1); } all(a); }
template <class T> static void patterns() {
  int n = mc::range(4, mc::pick(5, 6)), pat = mc::choose(5), def = mc::choose(3), sc = mc::choose(3); Ref<T> a(n, n, T(0)), b(n, n, T(0));
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    int x = pat == 0 ? (i == j ? 3 : 0) : pat == 1 ? (i <= j ? 1 + (i + j) % 3 : 0) : pat == 2 ? (i * 7 + j * 11) % 13 - 4 : pat == 3 ? (i >= j ? 1 : j == n - 1 ? 1 : 0) - (i > j) * 2 : (i == j) * 4 - (std::abs(i - j) == 1);
    b.at(i, j) = T(x);
  }
  if (def == 1) for (int j = 0; j < n; j++) b.at(n - 1, j) = b.at(0, j) + b.at(1, j);
  if (def == 2) for (int i = 0; i < n; i++) b.at(i, 1) = T(0);
  std::vector<char> used(n, 0); static const double S[] = {1, 0.5, 10};
  for (int i = 0; i < n; i++) { int k = mc::choose(n - i), q = 0; for (;; q++) if (!used[q] && k-- == 0) break; used[q] = 1; for (int j = 0; j < n; j++) a.at(i, j) = b.at(q, j) * T(sc == 2 && i % 2 ? 1 : S[sc]); }
  all(a, 2);
}
MC_SCENARIO(patterns_double) { patterns<double>(); }
MC_SCENARIO(patterns_float) { patterns<float>(); }
// systems beyond block and unrolling sizes; singularity is known by construction
template <class T> static void large() {
  int n = mc::any<int>({7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 129, 257}), pat = mc::choose(4), perm = mc::choose(5), def = mc::choose(4); if (n > 65 && !mc::thorough()) mc::assume(n == 257 && pat % 3 == 0 && perm > 0 && perm < 3 && def == (pat && perm == 1)); Ref<T> a(n, n, T(0)), b(n, n, T(0));
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b.at(i, j) = T(pat == 0 ? (i == j ? 4 : std::abs(i - j) == 1 ? -1 : 0) : pat == 1 ? (i == j ? 2 : j > i && j < i + 3 ? 1 : 0) : pat == 2 ? (i == j ? 6 : (i + 2 * j) % 5 == 0 && std::abs(i - j) < 6 ? 1 : 0) : (i == j ? 3 : j == n - 1 || i == n - 1 ? 1 : 0));
  if (pat == 3) b.at(n - 1, n - 1) = T(n);
  if (def == 1) for (int j = 0; j < n; j++) b.at(n - 1, j) = b.at(0, j) + b.at(n / 2, j);
  if (def == 2) for (int i = 0; i < n; i++) b.at(i, n / 3) = T(0);
  if (def == 3) for (int j = 0; j < n; j++) b.at(0, j) = b.at(n - 1, j);
  for (int i = 0; i < n; i++) { int q = perm == 0 ? i : perm == 1 ? n - 1 - i : perm == 2 ? (i + n / 2) % n : perm == 3 ? (i ^ 1) < n ? i ^ 1 : i : (i + n - 1) % n; for (int j = 0; j < n; j++) a.at(i, j) = b.at(q, j); }
  all(a, 1, (def ? 1 : 0) | (perm || def ? 2 : 0));
}
MC_SCENARIO(large_double) { large<double>(); }
MC_SCENARIO(large_float) { large<float>(); }
// call sequences on one object
MC_SCENARIO(sequences) {
  int m = mc::choose(4); static const char *TX[] = {"4 1 0;2 3 1;1 0 5", "0 1 2;1 0 3;4 -3 8", "1 2 3;2 4 6;1 1 1", "0 2;3 0"};
  M<double> A(TX[m]); Ref<double> a = snap(A); bool singular = m == 2; size_t n = a.r;
  mc::Lib l; auto *s = new susa::lup<double>(A); bool have = false;
  for (int d = 0; d < 3; d++) {
    int o = mc::choose(3);
    if (o == 0) { MC_NOTE("decompose"); mc::step(); have = s->decompose(); mc::NoLib nl; check_lup(*s, a, have, false, singular, "decompose"); }
    if (o == 1) { MC_NOTE("decompose_alt"); mc::step(); have = s->decompose_alt(); mc::NoLib nl; check_lup(*s, a, have, true, singular, "decompose_alt"); }
    if (o == 2) { MC_NOTE("change the matrix"); mc::NoLib nl; if (m == 3) A(0) = a.v[0] = 5 + d; else { A.swap_rows(0, 1); a = snap(A); } have = false; }
    mc::outcome(mc::Hash().u(m).u(d).u(o).u(have).h); mc::state(mc::Hash().u(m).u(d).u(o).u(hashref(a)).h);
  }
  (void)n; delete s; mc::NoLib nl; mc::heap_empty("after the call sequence");
}
// a tolerance given by the user (zero included) decides
MC_SCENARIO(tolerance) {
  static const double P[] = {0, 1e-8, 1e-6, 1e-5, 1e-3, 0.5}; double p = P[mc::choose(6)], tol = P[mc::choose(6)]; mc::assume(p != tol || p == 0); bool alt = mc::flip(); int pos = mc::choose(3);
  Ref<double> a(3, 3, 0.0); for (int i = 0; i < 3; i++) a.at(i, i) = i == pos ? p : 2; M<double> A = mk(a); susa::lup<double> s(A, tol); mc::step();
  bool ok = alt ? s.decompose_alt() : s.decompose();
  MC_CHECK(ok == (p > tol), "pivot %g with tolerance %g: reported %d", p, tol, (int)ok); mc::outcome(mc::Hash().d(p).d(tol).u(alt).u(pos).h); mc::state(mc::Hash().d(p).d(tol).u(pos).h);
}
MC_MAIN
