// C08: matrix product, determinant, identity, conjugate transpose.
//MC-VARIANT asan: -O1 -fsanitize=address -DSUSA_NDEBUG
//MC-PARTS 2
//MC-BOUND products: every pair of unit matrices (the product is bilinear) and dense tagged operands for all conforming shapes up to 4 (thorough 6), every 2x2 pair over {-1,0,2}, 6 element types; determinants: every 2x2 over 6 values, every 3x3 over {-1,0,2} (thorough {-1,0,1,2}), every 4x4 over {0,1} (thorough {-1,0,1}), all permutation matrices and bordered dense ones up to 6x6, 6 element types; 7x7 (8x8) triangular, cyclic and patterned ones; up to 4x4 (6x6) with rows and columns scaled by powers of two between 2^-70 and 2^60; products of every combination of sizes 1 to 65 (257) around powers of two with dense patterns and boundary elements; det(AB)=det(A)det(B) for all pairs of 2x2 over {-1,0,2} and 3x3 over {0,1}
//MC-ASSUME integer arithmetic that fits the element type; determinants are delivered as double and are exact below 2^53
#include "mat.h"
#include <numeric>
template <class T> using M = susa::matrix<T>;
#define LIB(expr) [&] { mc::Lib lib_; mc::step(); return expr; }()
template <class T> static Ref<T> mul(const Ref<T> &a, const Ref<T> &b) { Ref<T> r(a.r, b.c, T(0)); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < b.c; j++) { T s(0); for (size_t k = 0; k < a.c; k++) s = (T)(s + (T)(a.at(i, k) * b.at(k, j))); r.at(i, j) = s; } return r; }
template <class T> static void one(const Ref<T> &a, const Ref<T> &b) {
  M<T> *A, *B; { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); }
  MC_NOTE("%s times %s", brief(a).c_str(), brief(b).c_str());
  same(LIB(susa::matmul(*A, *B)), mul(a, b), "matmul"); same(*A, a, "left factor"); same(*B, b, "right factor");
  mc::outcome(mc::Hash().u(hashref(a)).u(hashref(b)).h); mc::state(hashref(mul(a, b)));
  { mc::Lib l; delete A; delete B; } mc::heap_empty("after matmul");
}
template <class T> static void prod() {
  int big = mc::pick(4, 6), r = mc::range(1, big), k = mc::range(1, big), c = mc::range(1, big);
  Ref<T> a(r, k, T(0)), b(k, c, T(0));
  int mode = mc::choose(3);
  if (mode == 0) { a.at(mc::choose(r), mc::choose(k)) = T(2); b.at(mc::choose(k), mc::choose(c)) = T(3); }
  else { for (size_t i = 0; i < a.v.size(); i++) a.v[i] = T((int)(i * 5 + 1) % 7 - 3 * (mode == 2 ? (int)(i % 2) : 0)); for (size_t i = 0; i < b.v.size(); i++) b.v[i] = T((int)(i * 3 + 2) % 5 - (mode == 2)); }
  one(a, b);
}
template <> void prod<std::complex<double>>() {
  using C = std::complex<double>;
  int big = mc::pick(4, 6), r = mc::range(1, big), k = mc::range(1, big), c = mc::range(1, big);
  Ref<C> a(r, k, C(0)), b(k, c, C(0)); int mode = mc::choose(2);
  if (mode == 0) { a.at(mc::choose(r), mc::choose(k)) = C(2, -1); b.at(mc::choose(k), mc::choose(c)) = C(1, 3); }
  else { for (size_t i = 0; i < a.v.size(); i++) a.v[i] = C((int)(i * 5 + 1) % 7 - 3, (int)(i % 3) - 1); for (size_t i = 0; i < b.v.size(); i++) b.v[i] = C((int)(i * 3 + 2) % 5 - 1, (int)(i % 4) - 2); }
  one(a, b);
}
template <class T> static void square2() { static const int V[] = {-1, 0, 2}; Ref<T> a(2, 2, T(0)), b(2, 2, T(0)); for (auto &x : a.v) x = T(V[mc::choose(3)]); for (auto &x : b.v) x = T(V[mc::choose(3)]); one(a, b); }
template <class T> static void selfprod() { int n = mc::range(1, mc::pick(4, 6)); Ref<T> a = tagged<T>(n, n, 1); for (auto &x : a.v) x = T((int)x % 5); M<T> A = mk(a); same(LIB(susa::matmul(A, A)), mul(a, a), "matrix times itself"); { M<T> X(A); LIB((X = susa::matmul(X, X), 0)); same(X, mul(a, a), "a = a * a"); }
  Ref<T> e(n, n, T(0)); for (int i = 0; i < n; i++) e.at(i, i) = T(1); M<T> I = LIB(susa::eye<T>(n)); same(I, e, "eye"); same(LIB(susa::matmul(A, I)), a, "A times identity"); same(LIB(susa::matmul(I, A)), a, "identity times A"); same(A, a, "factor"); mc::outcome(n); mc::state(hashref(a)); }

// operands beyond block and unrolling sizes: dense position-dependent patterns and single elements at boundary positions
template <class T> static T pat(int i, int m) { return T(i * 7 % m - m / 2); }
template <> std::complex<double> pat<std::complex<double>>(int i, int m) { return {double(i * 7 % m - m / 2), double(i * 3 % m - 2)}; }
template <class T> static void prod_large() {
  static const int D[] = {1, 2, 7, 8, 9, 16, 17, 31, 33, 64, 65, 129, 200, 257, 1025}; int nd = 15, r = D[mc::choose(nd)], k = D[mc::choose(nd)], c = D[mc::choose(nd)]; mc::assume(std::max({r, k, c}) > 6 && r * k * c <= 300000); if (!mc::thorough() && std::max({r, k, c}) > 65) mc::assume(r * k * c <= 18000 && std::min({r, k, c}) < 3);
  Ref<T> a(r, k, T(0)), b(k, c, T(0)); int mode = mc::choose(2);
  if (mode == 0) { a.at(some_place(r), some_place(k)) = T(2); int q = some_place(k); for (int j = 0; j < c; j++) b.at(q, j) = T(j % 50 + 1); if (k > 8) b.at(8, c - 1) = T(3); }
  else { for (size_t i = 0; i < a.v.size(); i++) a.v[i] = pat<T>((int)i + 1, 11); for (size_t i = 0; i < b.v.size(); i++) b.v[i] = pat<T>((int)i + 2, 13); }
  one(a, b);
}
template <class T> static void self_large() { int n = mc::any<int>({7, 8, 9, 16, 17, 33, 64, 65}); Ref<T> a(n, n, T(0)); for (int i = 0; i < n * n; i++) a.v[i] = pat<T>(i + 1, 11); M<T> A = mk(a); MC_NOTE("%dx%d", n, n); same(LIB(susa::matmul(A, A)), mul(a, a), "matrix times itself"); { M<T> X(A); LIB((X = susa::matmul(X, X), 0)); same(X, mul(a, a), "a = a * a"); }
  Ref<T> e(n, n, T(0)); for (int i = 0; i < n; i++) e.at(i, i) = T(1); M<T> I = LIB(susa::eye<T>(n)); same(I, e, "eye"); same(LIB(susa::matmul(A, I)), a, "A times identity"); same(LIB(susa::matmul(I, A)), a, "identity times A"); mc::outcome(n + 1000); mc::state(hashref(a)); }
static void herm_large() { typedef std::complex<double> C; auto p = mc::any(large_shapes()); int r = p.first, c = p.second; mc::assume(r * c < 5000); Ref<C> a(r, c, C(0)), e(c, r, C(0)); for (int i = 0; i < r * c; i++) a.v[i] = C(i + 1, i % 3 ? -i - 2 : 50 - i); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) e.at(j, i) = std::conj(a.at(i, j)); M<C> A = mk(a), H = LIB(susa::hermitian(A)); same(H, e, "hermitian"); same(LIB(susa::hermitian(H)), a, "hermitian twice"); mc::outcome(r * 100000 + c); mc::state(hashref(a)); }
// determinant
template <class T> static double leibniz(const Ref<T> &a) {
  int n = a.r; std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); long s = 0;
  do { long t = 1; int inv = 0; for (int i = 0; i < n && t; i++) { t *= (long)a.at(i, p[i]); for (int j = i + 1; j < n; j++) inv += p[i] > p[j]; } s += inv & 1 ? -t : t; } while (std::next_permutation(p.begin(), p.end()));
  return (double)s;
}
template <class T> static void det1(const Ref<T> &a) {
  M<T> *A; { mc::Lib l; A = new M<T>(mk(a)); }
  MC_NOTE("det %s", str(a).c_str());
  double g = LIB(susa::det(*A)), e = leibniz(a);
  MC_CHECK(g == e, "determinant of %s is %.17g, expected %.17g", str(a).c_str(), g, e);
  same(*A, a, "argument of det");
  mc::outcome(hashref(a)); mc::state(mc::Hash().u(a.r).d(g).h);
  { mc::Lib l; delete A; } mc::heap_empty("after det");
}
template <class T> static std::vector<T> vals(std::initializer_list<int> l) { std::vector<T> v; for (int x : l) v.push_back(std::is_signed<T>::value ? T(x) : T(x < 0 ? 3 - x : x)); return v; }
template <class T> static void fillv(Ref<T> &a, const std::vector<T> &V) { for (auto &x : a.v) x = V[mc::choose((int)V.size())]; }
template <class T> static void det_small(int n3) {
  int n = mc::range(1, n3); Ref<T> a(n, n, T(0));
  if (n < 3) fillv(a, vals<T>({-3, -1, 0, 1, 2, 7})); else if (mc::thorough()) fillv(a, vals<T>({-1, 0, 1, 2})); else fillv(a, vals<T>({-1, 0, 2}));
  det1(a);
}
template <class T> static void det_perm() {
  int n = mc::range(4, mc::pick(5, 6)); std::vector<int> p(n); std::vector<char> used(n, 0); Ref<T> a(n, n, T(0));
  for (int i = 0; i < n; i++) { int k = mc::choose(n - i), q = 0; for (;; q++) if (!used[q] && k-- == 0) break; used[q] = 1; a.at(i, q) = T(1 + i % 3); }
  if (mc::flip()) for (int i = 0; i < n; i++) { a.at(i, n - 1) = T(a.at(i, n - 1) + 1); a.at(0, i) = T(a.at(0, i) + i); }
  det1(a);
}
template <class T> static void det_binary() { Ref<T> a(4, 4, T(0)); if (mc::thorough() && std::is_same<T, double>::value) fillv(a, vals<T>({-1, 0, 1})); else fillv(a, vals<T>({0, 1})); det1(a); }
// seven and more rows: triangular matrices with permuted rows or columns
template <class T> static void det_large() {
  int n = mc::range(7, mc::pick(7, 8)), kind = mc::choose(5), shift = mc::choose(n); Ref<T> a(n, n, T(0));
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.at(i, j) = T(kind == 0 ? (j == (i + shift) % n ? 2 : 0) : kind == 1 ? (j >= i ? 1 + (i + j + shift) % 2 : 0) : kind == 2 ? (j <= i ? 1 + (i * j + shift) % 3 : 0) : kind == 3 ? ((i + shift) % n == j ? 3 : i == 0 ? 1 : 0) : (i * 5 + j * 3 + shift) % 4);
  det1(a);
}
// rows and columns scaled by powers of two: every term of the determinant scales alike, so the result stays exact
template <class T> static void det_scaled() {
  bool fl = sizeof(T) == 4; int n = mc::range(1, mc::pick(4, 6)), kind = mc::choose(4); const int E[] = {fl ? -12 : -35, 0, fl ? 10 : 30}; Ref<T> a(n, n, T(0)); std::vector<int> re(n), ce(n); int total = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.at(i, j) = T(kind == 0 ? (i * 5 + j * 3 + i * j) % 7 - 3 : kind == 1 ? (i == j ? 3 : (i + 2 * j) % 3 - 1) : kind == 2 ? (i + j == n - 1 ? 2 : i > j ? 1 : 0) : (i * i + 3 * j + i * j * j) % 5 - 1);
  double e = leibniz(a); int step = n > 3 ? mc::choose(3) : 0; for (int i = 0; i < n; i++) { re[i] = E[mc::choose(3)]; ce[i] = n > 3 ? E[step == 0 ? 1 : (i * step) % 3] : E[mc::choose(3)]; total += re[i] + ce[i]; } if (fl && std::abs(total) > 90) return;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.at(i, j) = std::ldexp(a.at(i, j), re[i] + ce[j]); M<T> *A; { mc::Lib l; A = new M<T>(mk(a)); } MC_NOTE("det %s", str(a).c_str());
  double g = LIB(susa::det(*A)), w = std::ldexp(e, total); MC_CHECK(g == w, "determinant of %s is %.17g, expected %.17g", str(a).c_str(), g, w); same(*A, a, "argument of det"); mc::outcome(hashref(a)); mc::state(mc::Hash().u(n).d(g).h); { mc::Lib l; delete A; } mc::heap_empty("after det");
}
static void det_mul() {
  int n = mc::range(2, 3); Ref<double> a(n, n, 0.0), b = a;
  auto V = n == 2 ? vals<double>({-1, 0, 2}) : vals<double>({0, 1}); fillv(a, V); fillv(b, V);
  double d = LIB(susa::det(susa::matmul(mk(a), mk(b)))), e = LIB(susa::det(mk(a))) * LIB(susa::det(mk(b)));
  MC_CHECK(d == e, "det(AB) = %g but det(A)det(B) = %g for A=%s B=%s", d, e, str(a).c_str(), str(b).c_str());
  mc::outcome(mc::Hash().u(hashref(a)).u(hashref(b)).h); mc::state(mc::Hash().d(d).u(n).h);
}
template <class T> static void herm() {
  using C = std::complex<T>; int big = mc::pick(5, 7), r = mc::range(1, big), c = mc::range(1, big); Ref<C> a(r, c, C(0));
  for (int i = 0; i < r * c; i++) a.v[i] = C(T(i + 1), T(i % 3 == 0 ? -(i + 2) : i % 3 == 1 ? 50 - i : 0));
  M<C> *A; { mc::Lib l; A = new M<C>(mk(a)); } Ref<C> e(c, r, C(0)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) e.at(j, i) = C(a.at(i, j).real(), -a.at(i, j).imag());
  M<C> H = LIB(susa::hermitian(*A)); same(H, e, "hermitian"); same(LIB(susa::hermitian(H)), a, "hermitian twice"); same(*A, a, "argument of hermitian");
  { Ref<C> g = mul(e, a); M<C> G = LIB(susa::matmul(H, *A)); same(G, g, "Gram matrix"); same(LIB(susa::hermitian(G)), g, "hermitian of the Gram matrix"); }
  mc::outcome(r * 10 + c); mc::state(hashref(a)); { mc::Lib l; delete A; }
}
#if MC_PART == 0
MC_SCENARIO(prod_double) { prod<double>(); }
MC_SCENARIO(prod_int) { prod<int>(); }
MC_SCENARIO(prod_int8) { prod<int8_t>(); }
MC_SCENARIO(prod_complex) { prod<std::complex<double>>(); }
MC_SCENARIO(square_double) { square2<double>(); }
MC_SCENARIO(square_int) { square2<int>(); }
MC_SCENARIO(self_double) { selfprod<double>(); }
MC_SCENARIO(self_uint8) { selfprod<uint8_t>(); }
MC_SCENARIO(self_int) { selfprod<int>(); }
MC_SCENARIO(large_double) { prod_large<double>(); }
MC_SCENARIO(large_int) { prod_large<int>(); }
MC_SCENARIO(large_complex) { prod_large<std::complex<double>>(); }
MC_SCENARIO(large_self) { if (mc::flip()) self_large<double>(); else self_large<int>(); }
MC_SCENARIO(large_herm) { herm_large(); }
MC_SCENARIO(herm_double) { herm<double>(); }
MC_SCENARIO(herm_float) { herm<float>(); }
#else
MC_SCENARIO(det_double) { det_small<double>(3); }
MC_SCENARIO(det_int) { det_small<int>(3); }
MC_SCENARIO(det_int8) { det_small<int8_t>(3); }
MC_SCENARIO(det_unsigned) { det_small<unsigned>(3); }
MC_SCENARIO(det_uint8) { det_small<uint8_t>(3); }
MC_SCENARIO(det_float) { det_small<float>(3); }
MC_SCENARIO(det4_double) { det_binary<double>(); }
MC_SCENARIO(det4_int8) { det_binary<int8_t>(); }
MC_SCENARIO(detp_double) { det_perm<double>(); }
MC_SCENARIO(detp_int) { det_perm<int>(); }
MC_SCENARIO(detp_unsigned) { det_perm<unsigned>(); }
MC_SCENARIO(det7_double) { det_large<double>(); }
MC_SCENARIO(det7_int) { det_large<int>(); }
MC_SCENARIO(dets_double) { det_scaled<double>(); }
MC_SCENARIO(dets_float) { det_scaled<float>(); }
MC_SCENARIO(det_of_product) { det_mul(); }
#endif
MC_MAIN
