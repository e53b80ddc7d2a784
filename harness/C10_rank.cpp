// C10: rank.
//MC-VARIANT asan: -O1 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND every matrix over {-1,0,1} of every shape with up to 9 (thorough 12) elements, over {0,1,2,5} with up to 6 (8), over 5 Gaussian integers with up to 4 (6); every product of an m x k and a k x n matrix of 0/±1/2 patterns for m,n <= 5; real elements obtained by scaling rows with 0.1, 1/3, 7 and 1000; 6 element types; 14 larger shapes up to 65 rows or columns with 0 to full independent rows and four kinds of dependent ones in four orders; dense products of integer factors up to 43x40 with elements up to 1620 (360 for more than 20 columns), of every inner size class; transposed as well; matrices of 255 to 303 rows and columns of elementary rows
//MC-ASSUME elements of moderate size: rounding errors of an elimination with partial pivoting stay below the default precision 1e-9; the reference is exact fraction-free elimination
#include "mat.h"
typedef std::complex<double> C;
struct G { __int128 a = 0, b = 0; };                             // Gaussian integer
static G operator*(G x, G y) { return {x.a * y.a - x.b * y.b, x.a * y.b + x.b * y.a}; }
static G operator-(G x, G y) { return {x.a - y.a, x.b - y.b}; }
static G operator/(G x, G y) { __int128 n = y.a * y.a + y.b * y.b; G z = x * G{y.a, -y.b}; return {z.a / n, z.b / n}; }
static bool nz(G x) { return x.a || x.b; }
static int exact_rank(std::vector<std::vector<G>> m) {          // Bareiss
  int r = m.size(), c = m[0].size(), k = 0; G prev{1, 0};
  for (int j = 0; j < c && k < r; j++) {
    int p = k; while (p < r && !nz(m[p][j])) p++;
    if (p == r) continue;
    std::swap(m[p], m[k]);
    for (int i = k + 1; i < r; i++) { for (int q = c - 1; q >= j; q--) m[i][q] = (m[i][q] * m[k][j] - m[i][j] * m[k][q]) / prev; }
    prev = m[k][j]; k++;
  }
  return k;
}
template <class T> static G gi(T x) { return {(__int128)x, 0}; }
static G gi(C x) { return {(__int128)x.real(), (__int128)x.imag()}; }
template <class T, class F> static void check(const Ref<T> &a, F scale) {          // scale(i,x): the element actually stored
  std::vector<std::vector<G>> m(a.r, std::vector<G>(a.c)); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) m[i][j] = gi(a.at(i, j));
  int e = exact_rank(m); Ref<T> b = a; for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) b.at(i, j) = scale(i, a.at(i, j));
  MC_NOTE("rank of %s", str(b).c_str());
  susa::matrix<T> *A; { mc::Lib l; A = new susa::matrix<T>(mk(b)); }
  unsigned g; { mc::Lib l; mc::step(); g = susa::rank(*A); }
  MC_CHECK((int)g == e, "rank of %s is %u, expected %d", str(b).c_str(), g, e);
  { susa::matrix<T> t = susa::transpose(*A); mc::Lib l; mc::step(); g = susa::rank(t); }
  MC_CHECK((int)g == e, "rank of the transpose of %s is %u, expected %d", str(b).c_str(), g, e);
  same(*A, b, "argument of rank");
  mc::outcome(hashref(b)); mc::state(mc::Hash().u(a.r).u(a.c).u(e).u(hashref(b)).h);
  { mc::Lib l; delete A; } mc::heap_empty("after rank");
}
template <class T> static void check(const Ref<T> &a) { check(a, [](size_t, T x) { return x; }); }
static void shape_of(int n, int &r, int &c) { std::vector<int> d; for (int i = 1; i <= n; i++) if (n % i == 0) d.push_back(i); r = mc::any(d); c = n / r; }
template <class T> static void small(int maxn, std::vector<int> V) { int r, c; shape_of(mc::range(1, maxn), r, c); Ref<T> a(r, c, T(0)); for (auto &x : a.v) x = T(V[mc::choose((int)V.size())]); check(a); }
MC_SCENARIO(double_pm1) { small<double>(mc::pick(9, 12), {-1, 0, 1}); }
MC_SCENARIO(int_pm1) { small<int>(mc::pick(8, 10), {-1, 0, 1}); }
MC_SCENARIO(double_0125) { small<double>(mc::pick(6, 8), {0, 1, 2, 5}); }
MC_SCENARIO(int_0125) { small<int>(mc::pick(6, 8), {0, 1, 2, 5}); }
MC_SCENARIO(float_0125) { small<float>(mc::pick(6, 8), {0, 1, -2, 5}); }
MC_SCENARIO(int8) { small<int8_t>(mc::pick(6, 8), {0, 1, -3, 100}); }
MC_SCENARIO(uint8) { small<uint8_t>(mc::pick(6, 8), {0, 1, 3, 200}); }
MC_SCENARIO(complex) { static const C V[] = {C(0, 0), C(1, 0), C(0, 1), C(1, -1), C(2, 1)}; int r, c; shape_of(mc::range(1, mc::pick(4, 6)), r, c); Ref<C> a(r, c, C(0)); for (auto &x : a.v) x = V[mc::choose(5)]; check(a); }
// products: rank limited by the inner size; patterned dense factors
template <class T> static void product() {
  int m = mc::range(1, 5), n = mc::range(1, 5), k = mc::range(0, std::min(m, n)), pa = mc::choose(4), pb = mc::choose(4), sc = mc::choose(5), drop = mc::choose(m + 1);
  Ref<T> a(m, n, T(0)); auto f = [](int p, int i, int j) { switch (p) { case 0: return i == j ? 1 : 0; case 1: return (i * 3 + j * 5) % 4 - 1; case 2: return i >= j ? 1 : -1; default: return (i + 1) * (j + 2) % 5; } };
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { int s = 0; for (int q = 0; q < k; q++) s += f(pa, i, q) * f(pb, q, j); if (i == drop - 1) s = 0; a.at(i, j) = T(s); }
  static const double SC[] = {1, 0.1, 1.0 / 3, 7, 1000};
  check(a, [&](size_t i, T x) { return std::is_floating_point<T>::value ? T(x * SC[(sc + (sc ? i : 0)) % 5]) : x; });
}
MC_SCENARIO(product_double) { product<double>(); }
MC_SCENARIO(product_int) { product<int>(); }
MC_SCENARIO(product_int8) { product<int8_t>(); }
// larger shapes: a known number of independent rows, the others are zero, copies, multiples or sums of them
template <class T> static void large() {
  static const std::pair<int, int> S[] = {{7, 7}, {8, 8}, {9, 9}, {16, 16}, {17, 17}, {33, 33}, {1, 40}, {40, 1}, {2, 65}, {65, 2}, {8, 17}, {17, 8}, {64, 9}, {9, 64}}; auto p = S[mc::choose(14)]; int m = p.first, n = p.second, q = std::min(m, n); std::set<int> ks{0, 1, q / 2, q - 1, q}; std::vector<int> kv; for (int x : ks) if (x >= 0) kv.push_back(x); int k = mc::any(kv), kind = mc::choose(4), order = mc::choose(4), base = mc::choose(2);
  Ref<T> b(m, n, T(0)), a = b; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { auto ind = [&](int r) { return base == 0 ? (j % q == r ? 1 : 0) : (j == r ? 2 : j == r + 1 ? 1 : j >= k && (j + r) % 4 == 0 ? 1 : 0); }; int x = 0; if (i < k) x = ind(i); else if (k && kind == 1) x = ind(i % k); else if (k && kind == 2) x = 2 * ind(i % k); else if (k && kind == 3) x = ind(0) + ind(k - 1) + ind(i % k); b.at(i, j) = T(x); }
  for (int i = 0; i < m; i++) { int s = order == 0 ? i : order == 1 ? m - 1 - i : order == 2 ? (i + m / 2) % m : (i % 2 ? m - 1 - i / 2 : i / 2); for (int j = 0; j < n; j++) a.at(i, j) = b.at(s, j); }
  MC_NOTE("%dx%d with %d independent rows", m, n, k); susa::matrix<T> A = mk(a); mc::step(2); unsigned g = susa::rank(A); MC_CHECK((int)g == k, "rank of a %dx%d matrix with %d independent rows is %u", m, n, k, g); g = susa::rank(susa::transpose(A)); MC_CHECK((int)g == k, "rank of the transpose of a %dx%d matrix with %d independent rows is %u", m, n, k, g); same(A, a, "argument of rank");
  mc::outcome(mc::Hash().u(m).u(n).u(k).u(kind).u(order).u(base).h); mc::state(hashref(a));
}
MC_SCENARIO(large_double) { large<double>(); }
MC_SCENARIO(large_int) { large<int>(); }
MC_SCENARIO(large_uint8) { large<uint8_t>(); }
// dense products of integer factors: the rounding errors of an elimination with badly chosen pivots grow beyond the precision
static int modular_rank(std::vector<std::vector<long long>> a) {
  const long long P = 2305843009213693951LL; int m = (int)a.size(), n = (int)a[0].size(), r = 0; typedef __int128 I;
  for (auto &x : a) for (auto &y : x) y = (y % P + P) % P;
  for (int c = 0; c < n && r < m; c++) { int p = r; while (p < m && !a[p][c]) p++; if (p == m) continue; std::swap(a[p], a[r]); I inv = 1, b = a[r][c]; for (long long e = P - 2; e; e >>= 1, b = b * b % P) if (e & 1) inv = inv * b % P; for (int i = r + 1; i < m; i++) if (a[i][c]) { I f = (I)a[i][c] * inv % P; for (int j = c; j < n; j++) a[i][j] = (long long)((((I)a[i][j] - f * a[r][j]) % P + P) % P); } r++; }
  return r;
}
template <class T> static void dense() {
  int n = mc::any<int>({3, 5, 6, 8, 10, 12, 16, 20, 24, 32, 40}), m = mc::any<int>({0, 3, -2}) + n, q = std::min(m, n), kk = mc::choose(6), k = kk == 0 ? 1 : kk == 1 ? 2 : kk == 2 ? q / 2 : kk == 3 ? q - 1 : kk == 4 ? q : q * 3 / 4, amp = mc::any<int>({1, 2, 3, 9}), w = mc::choose(mc::pick(6, 300)); mc::assume(k <= q && k > 0); if (n > 20) mc::assume(w < mc::pick(3, 100) && amp < 9);
  auto h = [&](int i, int j, int s) { return (int)(mc::Hash::mix(i * 1009 + j * 131 + s * 7919 + w * 65537 + amp) % (2 * amp + 1)) - amp; }; std::vector<std::vector<long long>> x(m, std::vector<long long>(n, 0)); Ref<T> a(m, n, T(0));
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { long long s = 0; for (int t = 0; t < k; t++) s += h(i, t, 1) * h(t, j, 2); x[i][j] = s; a.at(i, j) = T((int)s); }
  int e = modular_rank(x); MC_NOTE("%dx%d product of factors with %d columns over -%d..%d, number %d", m, n, k, amp, amp, w); susa::matrix<T> *A; unsigned g, g2; { mc::Lib l; A = new susa::matrix<T>(mk(a)); mc::step(2); g = susa::rank(*A); g2 = susa::rank(susa::transpose(*A)); }
  MC_CHECK((int)g == e && (int)g2 == e, "rank of the %dx%d product of factors with %d columns over -%d..%d (number %d) is %u, of its transpose %u, expected %d; matrix %s", m, n, k, amp, amp, w, g, g2, e, brief(a).c_str()); same(*A, a, "argument of rank");
  mc::outcome(hashref(a)); mc::state(mc::Hash().u(m).u(n).u(k).u(amp).u(w).h); { mc::Lib l; delete A; } mc::heap_empty("after rank");
}
MC_SCENARIO(dense_double) { dense<double>(); }
MC_SCENARIO(dense_int) { dense<int>(); }
MC_SCENARIO(dense_float) { dense<float>(); }
// ranks beyond 2^8: elementary rows (some of them zero, copies or sums), permuted
template <class T> static void very_large() {
  int n = mc::any<int>({255, 256, 257, 300}), m = mc::flip() ? n : n + 3, k = mc::any<int>({0, 1, n - 256 > 0 ? n - 256 : 2, n / 2}), kind = mc::choose(3), turn = mc::flip() ? 7 : 1; k = n - k; MC_NOTE("%dx%d with %d independent rows", m, n, k);
  mc::assume(turn == 1 || m % 7); mc::assume(n % 11);
  susa::matrix<T> A(m, n, T(0)); for (int i = 0; i < m; i++) { int r = (int)((long)i * turn % m); if (i < k) A(r, (i * 11) % n) = T(1 + i % 3); else if (kind == 1) A(r, 0) = T(2); else if (kind == 2) { A(r, 0) = T(1); A(r, 11 % n) = T(3); } }
  mc::step(); unsigned g = susa::rank(A); MC_CHECK((int)g == k, "rank of a %dx%d matrix with %d independent rows is %u", m, n, k, g); mc::outcome(mc::Hash().u(m).u(n).u(k).u(kind).u(turn).u(sizeof(T)).h); mc::state(mc::Hash().u(m).u(n).u(k).u(kind).u(turn).h);
}
MC_SCENARIO(very_large_double) { very_large<double>(); }
MC_SCENARIO(very_large_int8) { very_large<int8_t>(); }
// rows scaled over six orders of magnitude
template <class T> static void rows_scaled(std::vector<int> V) { int r, c; shape_of(mc::pick(6, 8), r, c); Ref<T> a(r, c, T(0)); for (auto &x : a.v) x = T(V[mc::choose((int)V.size())]); int k = mc::choose(4); check(a, [&](size_t i, T x) { return T(std::ldexp((double)x, k == 0 ? -10 : k == 1 ? (i % 2 ? -10 : 3) : k == 2 ? (i % 2 ? 10 : -10) : (int)i * 7 - 9)); }); }
MC_SCENARIO(scaled_double) { rows_scaled<double>({0, 1, -2, 3}); }
MC_SCENARIO(scaled_float) { rows_scaled<float>({0, 1, -2}); }
// float rows scaled by powers of two stay exact
MC_SCENARIO(float_scaled) {
  int r = mc::range(2, 4), c = mc::range(2, 4); Ref<float> a(r, c, 0.f); int p = mc::choose(6), q = mc::choose(6);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) a.at(i, j) = (float)((i * p + j * q) % 7 - (i == j));
  check(a, [](size_t i, float x) { return i % 2 ? x * 64 : x / 16; });
}
MC_MAIN
