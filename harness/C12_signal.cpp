// C12: filter, conv, convmtx, toeplitz, kron, upsample, downsample against their defining sums.
//MC-PARTS 3
//MC-VARIANT asan: -O0 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND filter: every signal over {-1,0,2} up to length 4 (5), every MA tap set over {-1,0,1} up to length 3 (4) and AR set up to length 3, tails 0-3, both orientations of each operand; matrices up to 3x4 of tagged elements; impulses at every position of signals up to 40 (130) samples with up to 12 (33) taps; 1, 40 and 257 taps of either kind over vectors of 300 and matrices of 5 and 258 columns; conv: all vector/scalar/matrix pairs; every operation at sizes around 256, 1025 (4097), resampling of up to 131075 rows and by 40000; convmtx, toeplitz, kron, up/downsampling for every shape up to 5x5 (6x6), factors up to 5; int, double and complex<double> elements; fresh memory filled with two different patterns
//MC-ASSUME exactly representable values; the leading AR coefficient is 1 (it does not appear in the documented recursion); toeplitz(column,row) agree in their first element
#include "mat.h"
#include <deque>
template <class T> using M = susa::matrix<T>;
typedef std::complex<double> CD;
template <class T> T el(int k) { return T(k); }
template <> inline CD el<CD>(int k) { return CD(k, 3 - 2 * k); }

// y(n) = sum b(k) x(n-k) - sum_{k>=1} a(k) y(n-k), column by column (a vector is one signal)
template <class T> Ref<T> ffilter(const Ref<T> &b, const Ref<T> &a, const Ref<T> &x, size_t tail) {
  bool row = x.r == 1 && x.c > 1;
  size_t len = row ? x.c : x.r, sigs = row ? 1 : x.c, out = len + tail;
  Ref<T> y(row ? 1 : out, row ? out : sigs, T(0));
  for (size_t s = 0; s < sigs; s++) for (size_t n = 0; n < out; n++) {
    T acc(0);
    for (size_t k = 0; k < b.v.size() && k <= n; k++) if (n - k < len) acc += b.v[k] * x.v[n - k + s * len];
    for (size_t k = 1; k < a.v.size() && k <= n; k++) acc -= a.v[k] * y.v[n - k + s * out];
    y.v[n + s * out] = acc;
  }
  return y;
}
template <class T> static void run_filter(const Ref<T> &b, const Ref<T> &a, const Ref<T> &x, size_t tail) {
  MC_NOTE("filter(b=%s, a=%s, x=%s, %zu)", str(b).c_str(), str(a).c_str(), str(x).c_str(), tail);
  M<T> *B, *A, *X, *Y;
  { mc::Lib l; B = new M<T>(mk(b)); A = new M<T>(mk(a)); X = new M<T>(mk(x)); mc::step(); Y = new M<T>(susa::filter(*B, *A, *X, tail)); }
  same(*Y, ffilter(b, a, x, tail), "filter"); same(*B, b, "filter's b"); same(*A, a, "filter's a"); same(*X, x, "filter's x");
  mc::Hash h; h.u(hashref(snap(*Y))).u(b.v.size()).u(a.v.size()); mc::state(h.h); mc::outcome(mc::Hash().u(hashref(b)).u(hashref(a)).u(hashref(x)).u(tail).h);
  { mc::Lib l; delete B; delete A; delete X; delete Y; } mc::heap_empty("after filter");
}
template <class T> static Ref<T> vec(int n, bool row) { return Ref<T>(row ? 1 : n, row ? n : 1, T(0)); }
template <class T> static Ref<T> vecof(int lo, int hi, std::vector<int> alpha, int orient = -1) {
  int n = mc::range(lo, hi); Ref<T> e = vec<T>(n, orient >= 0 ? orient : (n > 1 && mc::flip()));
  for (auto &q : e.v) q = el<T>(alpha[mc::choose((int)alpha.size())]); return e;
}
template <class T> void filter_vectors() {
  Ref<T> b = vecof<T>(1, mc::pick(3, 4), {-1, 0, 1}, -1), a = vecof<T>(0, 2, {-1, 0, 2}, 0);
  { Ref<T> aa = vec<T>((int)a.v.size() + 1, mc::flip()); aa.v[0] = T(1); for (size_t i = 0; i < a.v.size(); i++) aa.v[i + 1] = a.v[i]; a = aa; }
  Ref<T> x = vecof<T>(1, mc::pick(3, 4), {-1, 0, 2}); size_t tail = (size_t)mc::choose(4);
  run_filter(b, a, x, tail);
}
template <class T> void filter_matrices() {
  Ref<T> b = vecof<T>(1, 3, {-1, 0, 2}, 0), a = vecof<T>(0, 2, {-1, 1}, 0);
  { Ref<T> aa = vec<T>((int)a.v.size() + 1, false); aa.v[0] = T(1); for (size_t i = 0; i < a.v.size(); i++) aa.v[i + 1] = a.v[i]; a = aa; }
  int r = mc::range(1, 4), c = mc::range(1, 4), tail = mc::choose(3); Ref<T> x(r, c, T(0)); int w = mc::choose(3);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) x.at(i, j) = w == 0 ? el<T>(i * 7 + j * 3 - 5) : w == 1 ? el<T>(i == j) : el<T>((i + 1) * (j % 2 ? -1 : 100));
  run_filter(b, a, x, tail);
}
template <class T> void filter_long() {
  int L = mc::any<int>({7, 8, 17, mc::pick(40, 130)}), nb = mc::any<int>({1, 2, mc::pick(12, 33)}), na = mc::any<int>({1, 2, 5}); bool row = mc::flip();
  int p = mc::choose(L), q = mc::choose(nb); Ref<T> x = vec<T>(L, row), b = vec<T>(nb, false), a = vec<T>(na, true);
  x.v[p] = el<T>(3); b.v[q] = el<T>(2); a.v[0] = T(1); if (na > 1) a.v[na - 1] = T(-1); if (p % 2) x.v[0] += el<T>(1);
  run_filter(b, a, x, (size_t)nb - 1);
}
template <class T> void filter_wide() { // many taps of either kind, many columns
  static const int NB[] = {1, 40, 257}, NA[] = {1, 40, 257}; int nb = NB[mc::choose(3)], na = NA[mc::choose(3)], o = mc::choose(4), at = mc::choose(3); mc::assume(na > 1 || at == 0);
  Ref<T> b = vec<T>(nb, mc::flip()), a = vec<T>(na, at % 2), x = o == 0 ? vec<T>(300, false) : o == 1 ? vec<T>(300, true) : o == 2 ? Ref<T>(48, 5, T(0)) : Ref<T>(4, 258, T(0));
  for (size_t i = 0; i < x.v.size(); i++) x.v[i] = el<T>((int)((i * 37 + i / 256) % 13) - 6); for (int i = 0; i < nb; i++) b.v[i] = el<T>((i * 11) % 7 - 3);
  a.v[0] = T(1); if (na > 1) a.v[at == 0 ? na - 1 : at == 1 ? na / 2 : 35] = T(-1);
  Ref<T> y = ffilter(b, a, x, 270); M<T> *B, *A, *X, *Y; MC_NOTE("filter of %zux%zu by %d and %d taps", x.r, x.c, nb, na);
  { mc::Lib l; B = new M<T>(mk(b)); A = new M<T>(mk(a)); X = new M<T>(mk(x)); mc::step(); Y = new M<T>(susa::filter(*B, *A, *X, 270)); }
  shape_is(*Y, y.r, y.c, "filter"); for (size_t i = 0; i < y.v.size(); i++) MC_CHECK(Y->get(i) == y.v[i], "filter of %zux%zu by %d and %d taps: element %zu is %s, expected %s", x.r, x.c, nb, na, i, str(Y->get(i)).c_str(), str(y.v[i]).c_str());
  same(*X, x, "filter's x"); mc::state(hashref(y)); mc::outcome(mc::Hash().u(hashref(y)).u(nb).u(na).h); { mc::Lib l; delete B; delete A; delete X; delete Y; } mc::heap_empty("after filter");
}
template <class T> Ref<T> fconv(const Ref<T> &a, const Ref<T> &b) {
  if (b.v.size() == 1) { Ref<T> r = a; for (auto &q : r.v) q = q * b.v[0]; return r; }
  if (a.v.size() == 1) return fconv(b, a);
  Ref<T> one(1, 1, T(1)); bool bv = b.r == 1 || b.c == 1;
  return bv ? ffilter(b, one, a, b.v.size() - 1) : ffilter(a, one, b, a.v.size() - 1);
}
template <class T> static void run_conv(const Ref<T> &a, const Ref<T> &b) {
  MC_NOTE("conv(%s, %s)", str(a).c_str(), str(b).c_str());
  M<T> *A, *B, *Y, *Z; { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); mc::step(); Y = new M<T>(susa::conv(*A, *B)); Z = new M<T>(susa::conv(*B, *A)); }
  same(*Y, fconv(a, b), "conv"); same(*A, a, "conv's first argument"); same(*B, b, "conv's second argument");
  MC_CHECK(snap(*Y).v == snap(*Z).v, "conv(a,b) and conv(b,a) differ: %s %s", str(*Y).c_str(), str(*Z).c_str());
  bool av = a.r == 1 || a.c == 1, bv = b.r == 1 || b.c == 1;
  if (av && bv && b.v.size() > 1 && a.v.size() > 1) {            // convolution matrix and filter agree with the convolution
    M<T> *C, *F; { mc::Lib l; Ref<T> one(1, 1, T(1)); M<T> o = mk(one); C = new M<T>(susa::convmtx(*A, b.v.size())); F = new M<T>(susa::filter(*B, o, *A)); }
    size_t n = a.v.size() + b.v.size() - 1; bool col = a.c == 1;
    shape_is(*C, col ? n : b.v.size(), col ? b.v.size() : n, "convmtx"); mc::step();
    for (size_t i = 0; i < n; i++) { T s(0); for (size_t j = 0; j < b.v.size(); j++) s += (col ? C->get(i, j) : C->get(j, i)) * b.v[j]; MC_CHECK(s == Y->get(i), "convmtx(%s) times %s differs from the convolution at %zu", str(a).c_str(), str(b).c_str(), i); }
    for (size_t i = 0; i < a.v.size(); i++) MC_CHECK(F->get(i) == Y->get(i), "filter and conv differ at %zu", i);
    mc::Lib l; delete C; delete F;
  }
  mc::state(hashref(snap(*Y))); mc::outcome(mc::Hash().u(hashref(a)).u(hashref(b)).h);
  { mc::Lib l; delete A; delete B; delete Y; delete Z; } mc::heap_empty("after conv");
}
template <class T> void conv_vectors() { Ref<T> a = vecof<T>(1, mc::pick(3, 4), {-1, 0, 2}), b = vecof<T>(1, mc::pick(3, 4), {-1, 1, 3}); run_conv(a, b); }
template <class T> void conv_matrix() {
  int r = mc::range(1, 4), c = mc::range(1, 4); Ref<T> x(r, c, T(0)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) x.at(i, j) = el<T>(i * 7 + j * 3 - 5);
  Ref<T> b = vecof<T>(1, 3, {-1, 0, 2}); if (mc::flip()) run_conv(x, b); else run_conv(b, x);
}
template <class T> void convmtx_exact() {
  int n = mc::range(2, mc::pick(6, 9)), len = mc::range(1, mc::pick(6, 9)); bool row = mc::flip(); mc::g_fill = mc::flip() ? 0xBF : 0;
  Ref<T> a = vec<T>(n, row); for (int i = 0; i < n; i++) a.v[i] = el<T>(i + 1);
  M<T> *A, *C; MC_NOTE("convmtx(%s, %d)", str(a).c_str(), len); { mc::Lib l; A = new M<T>(mk(a)); mc::step(); C = new M<T>(susa::convmtx(*A, len)); }
  Ref<T> e(row ? len : n + len - 1, row ? n + len - 1 : len, T(0)); for (int j = 0; j < len; j++) for (int i = 0; i < n; i++) (row ? e.at(j, i + j) : e.at(i + j, j)) = a.v[i];
  same(*C, e, "convmtx"); mc::state(hashref(e)); mc::outcome(mc::Hash().u(hashref(e)).u(n).h); { mc::Lib l; delete A; delete C; } mc::heap_empty("after convmtx");
}
template <class T> void toeplitz_exact() {
  int n = mc::range(1, mc::pick(6, 9)), m = mc::range(0, mc::pick(6, 9)); bool r1 = mc::flip(), r2 = mc::flip(); mc::g_fill = mc::flip() ? 0xBF : 0;
  Ref<T> c = vec<T>(n, r1), r = vec<T>(m ? m : 1, r2); for (int i = 0; i < n; i++) c.v[i] = el<T>(i + 1); for (int i = 0; i < m; i++) r.v[i] = i ? el<T>(-i) : el<T>(1);
  M<T> *A, *B, *C; MC_NOTE("toeplitz(%s, %s)", str(c).c_str(), m ? str(r).c_str() : ""); { mc::Lib l; A = new M<T>(mk(c)); B = new M<T>(mk(r)); mc::step(); C = new M<T>(m ? susa::toeplitz(*A, *B) : susa::toeplitz(*A)); }
  int cc = m ? m : n; Ref<T> e(n, cc, T(0)); for (int i = 0; i < n; i++) for (int j = 0; j < cc; j++) e.at(i, j) = i >= j ? c.v[i - j] : m ? r.v[j - i] : c.v[j - i];
  same(*C, e, "toeplitz"); mc::state(hashref(e)); mc::outcome(hashref(e)); { mc::Lib l; delete A; delete B; delete C; } mc::heap_empty("after toeplitz");
}
template <class T> void kron_exact() {
  int K = mc::pick(3, 4), r1 = mc::range(1, K), c1 = mc::range(1, K), r2 = mc::range(1, K), c2 = mc::range(1, K); bool same_obj = r1 == r2 && c1 == c2 && mc::flip();
  Ref<T> a(r1, c1, T(0)), b(r2, c2, T(0)); for (int i = 0; i < r1; i++) for (int j = 0; j < c1; j++) a.at(i, j) = el<T>(i * 5 + j - 3); for (int i = 0; i < r2; i++) for (int j = 0; j < c2; j++) b.at(i, j) = same_obj ? a.at(i, j) : el<T>(11 * i - 100 * j + 1);
  M<T> *A, *B, *C; MC_NOTE("kron(%s, %s)", str(a).c_str(), str(b).c_str()); { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); mc::step(); C = new M<T>(susa::kron(*A, same_obj ? *A : *B)); }
  Ref<T> e(r1 * r2, c1 * c2, T(0)); for (int i = 0; i < r1 * r2; i++) for (int j = 0; j < c1 * c2; j++) e.at(i, j) = a.at(i / r2, j / c2) * b.at(i % r2, j % c2);
  same(*C, e, "kron"); same(*A, a, "kron's argument"); mc::state(hashref(e)); mc::outcome(mc::Hash().u(hashref(a)).u(hashref(b)).h); { mc::Lib l; delete A; delete B; delete C; } mc::heap_empty("after kron");
}
template <class T> void resample() {
  int r = mc::range(1, mc::pick(5, 8)), c = mc::range(1, mc::pick(4, 6)), u = mc::range(1, 5), d = mc::range(1, 5); mc::g_fill = mc::any<int>({0, 0x3F, 0xBF});
  Ref<T> x(r, c, T(0)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) x.at(i, j) = el<T>(i * c + j + 1);
  MC_NOTE("upsample/downsample of %dx%d by %d, %d (fresh memory holds 0x%02x)", r, c, u, d, mc::g_fill);
  M<T> *A, *U, *D, *B; { mc::Lib l; A = new M<T>(mk(x)); mc::step(); U = new M<T>(susa::upsample(*A, u)); B = new M<T>(susa::downsample(*U, u)); }
  Ref<T> e(r * u, c, T(0)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) e.at(i * u, j) = x.at(i, j);
  same(*U, e, "upsample"); same(*B, x, "downsample of the upsampled signal"); same(*A, x, "upsample's argument");
  if (r / d > 0) { { mc::Lib l; D = new M<T>(susa::downsample(*A, d)); } Ref<T> f(r / d, c, T(0)); for (int i = 0; i < r / d; i++) for (int j = 0; j < c; j++) f.at(i, j) = x.at(i * d, j); same(*D, f, "downsample"); mc::Lib l; delete D; }
  mc::state(hashref(e)); mc::outcome(mc::Hash().u(hashref(e)).u(d).h); { mc::Lib l; delete A; delete U; delete B; } mc::heap_empty("after resampling");
}
// sizes around and beyond 8-bit, 12-bit and 16-bit boundaries
template <class T> static void tag(Ref<T> &x, int w) { for (size_t i = 0; i < x.v.size(); i++) x.v[i] = el<T>((int)((i * 37 + w * 11 + i / 256) % 13) - 6); }
template <class T> void large_ops() {
  int o = mc::choose(13), w = mc::choose(2); mc::g_fill = w ? 0xBF : 0x3F; M<T> *A, *B, *C; Ref<T> a, b, e, one(1, 1, T(1)); bool row = mc::flip(); static const int SZ[] = {255, 256, 257, 1025, 4097}; int n = SZ[mc::choose(mc::pick(4, 5))]; mc::step(); std::string what;
  if (o == 0) { a = vec<T>(n, row); b = vec<T>(w ? 31 : 257, !row); tag(a, w); tag(b, w + 1); what = "conv of long vectors"; e = fconv(a, b); { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); C = new M<T>(susa::conv(*A, *B)); } }
  else if (o == 1) { a = vec<T>(n, row); b = vec<T>(33, false); tag(a, w); tag(b, w + 1); Ref<T> ar = vec<T>(2, true); ar.v[0] = T(1); ar.v[1] = T(w ? -1 : 1); what = "filter of a long vector"; e = ffilter(b, ar, a, 5); { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); M<T> r = mk(ar); C = new M<T>(susa::filter(*B, r, *A, 5)); } }
  else if (o == 2) { a = Ref<T>(row ? 3 : n, row ? n : 3, T(0)); b = vec<T>(4, true); tag(a, w); tag(b, w + 1); what = "filter of a matrix"; e = ffilter(b, one, a, 2); { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); M<T> r = mk(one); C = new M<T>(susa::filter(*B, r, *A, 2)); } }
  else if (o == 3) { a = vec<T>(w ? n : 3, row); b = one; tag(a, w); int len = w ? 5 : n; what = "convmtx"; int k = (int)a.v.size(); e = Ref<T>(row ? len : k + len - 1, row ? k + len - 1 : len, T(0)); for (int j = 0; j < len; j++) for (int i = 0; i < k; i++) (row ? e.at(j, i + j) : e.at(i + j, j)) = a.v[i]; { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); C = new M<T>(susa::convmtx(*A, len)); } }
  else if (o == 4 || o == 12) { a = vec<T>(w ? n : o == 12 ? 65 : 3, row); b = vec<T>(w ? o == 12 ? 70 : 4 : n, !row); tag(a, w); tag(b, w + 1); b.v[0] = a.v[0]; what = "toeplitz"; e = Ref<T>(a.v.size(), b.v.size(), T(0)); for (size_t i = 0; i < e.r; i++) for (size_t j = 0; j < e.c; j++) e.at(i, j) = i >= j ? a.v[i - j] : b.v[j - i]; { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); C = new M<T>(susa::toeplitz(*A, *B)); } }
  else if (o == 5) { a = w ? Ref<T>(n, 3, T(0)) : Ref<T>(17, 9, T(0)); b = w ? Ref<T>(2, 3, T(0)) : Ref<T>(5, 31, T(0)); tag(a, w); tag(b, w + 1); if (row) std::swap(a, b); what = "kron"; e = Ref<T>(a.r * b.r, a.c * b.c, T(0)); for (size_t i = 0; i < e.r; i++) for (size_t j = 0; j < e.c; j++) e.at(i, j) = a.at(i / b.r, j / b.c) * b.at(i % b.r, j % b.c); { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); C = new M<T>(susa::kron(*A, *B)); } }
  else if (o == 6 || o == 7) { int u = mc::any<int>({1, 2, 7, 64, 300}); a = w ? Ref<T>(n, row ? 2 : 1, T(0)) : Ref<T>(row ? 3 : 5, 257, T(0)); b = one; tag(a, w); what = o == 6 ? "upsample" : "downsample"; if (o == 7) mc::assume(a.r / u > 0); e = o == 6 ? Ref<T>(a.r * u, a.c, T(0)) : Ref<T>(a.r / u, a.c, T(0)); for (size_t j = 0; j < a.c; j++) if (o == 6) for (size_t i = 0; i < a.r; i++) e.at(i * u, j) = a.at(i, j); else for (size_t i = 0; i < e.r; i++) e.at(i, j) = a.at(i * u, j); { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); C = new M<T>(o == 6 ? susa::upsample(*A, u) : susa::downsample(*A, u)); } }
  else if (o == 9) { a = vec<T>(n, row); b = one; for (size_t i = 0; i < a.v.size(); i++) a.v[i] = el<T>((int)i + w); what = "toeplitz of one vector"; mc::assume(n <= 1025 && (n < 1025 || !w)); e = Ref<T>(n, n, T(0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e.at(i, j) = a.v[std::abs(i - j)]; { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); C = new M<T>(susa::toeplitz(*A)); } }
  else if (o == 10) { a = w ? Ref<T>(2, 3, T(0)) : Ref<T>(3, 1, T(0)); b = row ? Ref<T>(2, n, T(0)) : Ref<T>(n, 2, T(0)); for (size_t i = 0; i < a.v.size(); i++) a.v[i] = el<T>((int)i + 1); for (size_t i = 0; i < b.v.size(); i++) b.v[i] = el<T>((int)i % 1000 - 300); what = "kron with a wide or tall factor"; if (mc::flip()) std::swap(a, b); e = Ref<T>(a.r * b.r, a.c * b.c, T(0)); for (size_t i = 0; i < e.r; i++) for (size_t j = 0; j < e.c; j++) e.at(i, j) = a.at(i / b.r, j / b.c) * b.at(i % b.r, j % b.c); { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); C = new M<T>(susa::kron(*A, *B)); } }
  else if (o == 11) { mc::assume(n < 258); n = n == 255 ? 65537 : n == 256 ? 70001 : 131075; int u = mc::any<int>({2, 3}); bool up = mc::flip(); if (!row) { u = up ? 40000 : 2; } a = Ref<T>(row || !up ? n : 3, w ? 2 : 1, T(0)); b = one; for (size_t i = 0; i < a.v.size(); i++) a.v[i] = el<T>((int)(i % 65521) + 1); what = up ? "upsample" : "downsample"; e = Ref<T>(up ? a.r * u : a.r / u, a.c, T(0)); for (size_t j = 0; j < a.c; j++) if (up) for (size_t i = 0; i < a.r; i++) e.at(i * u, j) = a.at(i, j); else for (size_t i = 0; i < e.r; i++) e.at(i, j) = a.at(i * u, j); { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); C = new M<T>(up ? susa::upsample(*A, u) : susa::downsample(*A, u)); } }
  else { a = Ref<T>(w ? n : 6, w ? 4 : n, T(0)); b = vec<T>(3, row); tag(a, w); tag(b, w + 1); what = "conv of a matrix"; e = fconv(a, b); { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); C = new M<T>(susa::conv(*A, *B)); } }
  MC_NOTE("%s: %zux%zu and %zux%zu", what.c_str(), a.r, a.c, b.r, b.c); shape_is(*C, e.r, e.c, what.c_str()); for (size_t j = 0; j < e.c; j++) for (size_t i = 0; i < e.r; i++) MC_CHECK(C->get(i, j) == e.at(i, j), "%s of %zux%zu and %zux%zu: element (%zu,%zu) is %s, expected %s", what.c_str(), a.r, a.c, b.r, b.c, i, j, str(C->get(i, j)).c_str(), str(e.at(i, j)).c_str());
  mc::state(hashref(e)); mc::outcome(mc::Hash().u(o).u(w).u(row).u(hashref(e)).h); { mc::Lib l; delete A; delete B; delete C; } mc::heap_empty("after the operation");
}
#define ALL(T, N) \
  MC_SCENARIO(filter_vectors_##N) { filter_vectors<T>(); } MC_SCENARIO(filter_matrices_##N) { filter_matrices<T>(); } MC_SCENARIO(filter_long_##N) { filter_long<T>(); } MC_SCENARIO(filter_wide_##N) { filter_wide<T>(); } \
  MC_SCENARIO(conv_vectors_##N) { conv_vectors<T>(); } MC_SCENARIO(conv_matrix_##N) { conv_matrix<T>(); } MC_SCENARIO(convmtx_##N) { convmtx_exact<T>(); } \
  MC_SCENARIO(toeplitz_##N) { toeplitz_exact<T>(); } MC_SCENARIO(kron_##N) { kron_exact<T>(); } MC_SCENARIO(resample_##N) { resample<T>(); } MC_SCENARIO(large_##N) { large_ops<T>(); }
#if MC_PART == 0
ALL(int, int)
#elif MC_PART == 1
ALL(double, double)
#else
ALL(CD, complex)
#endif
MC_MAIN
