// C13: discrete Fourier transforms against the defining sum.
//MC-VARIANT asan: -O1 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND every impulse of every length up to 100 (300) (dft) and of every power of two up to 1024 (2048) (radix2); eleven impulses of every power of two up to 131072 (1048576) (radix2) and of five lengths up to 1500 (4099) (dft); every signal over {-1,0,2} up to length 8 (10); row and column vectors, matrices up to 8 (16) rows and 3 columns, up to 33 rows and 258 columns (columns transformed on their own), one-sample signals; float and double; every sequence of up to 3 (4) transforms of different kind, length and shape on one object
//MC-ASSUME real signals (the library offers no complex input and no inverse); radix2 lengths are powers of two; agreement within 1e-11 N (double) or 2e-5 N (float) of the largest sample
#include "mat.h"
typedef std::complex<long double> CL;
template <class T> static void check(susa::fft<T> &F, const Ref<T> &x, bool fast, bool energy = false) {
  typedef susa::matrix<std::complex<T>> MC;
  bool vec = x.r == 1 || x.c == 1; size_t len = vec ? x.v.size() : x.r, sigs = x.v.size() / len;
  MC_NOTE("%s of %s", fast ? "radix2" : "dft", x.v.size() > 64 ? (std::to_string(x.r) + "x" + std::to_string(x.c)).c_str() : str(x).c_str());
  susa::matrix<T> *X; MC *Y; { mc::Lib l; X = new susa::matrix<T>(mk(x)); mc::step(); Y = new MC(fast ? F.radix2(*X) : F.dft(*X)); }
  shape_is(*Y, x.r, x.c, fast ? "radix2" : "dft"); same(*X, x, "argument of the transform");
  long double tol = (sizeof(T) == 8 ? 1e-11L : 2e-5L) * len, amax = 0; for (T q : x.v) amax = std::max(amax, (long double)std::fabs(q)); const long double tau = 2 * acosl(-1.0L);
  mc::Hash h; h.u(x.r).u(x.c).u(fast);
  std::vector<CL> w(len); for (size_t i = 0; i < len; i++) w[i] = CL(cosl(tau * i / len), -sinl(tau * i / len));
  for (size_t s = 0; s < sigs; s++) { long double et = 0, ef = 0;
    for (size_t k = 0; k < len; k++) { CL e(0); for (size_t n = 0; n < len; n++) if (x.v[n + s * len] != 0) e += (long double)x.v[n + s * len] * w[(uint64_t)n * k % len];
      std::complex<T> g = Y->get(k + s * len); CL d = CL(g.real(), g.imag()) - e; MC_CHECK(std::abs(d) <= tol * amax, "%s: bin %zu of signal %zu is (%.12g,%.12g), the sum is (%.12Lg,%.12Lg); input %s", fast ? "radix2" : "dft", k, s, (double)g.real(), (double)g.imag(), e.real(), e.imag(), x.v.size() <= 64 ? str(x).c_str() : "(long)");
      ef += std::norm(CL(g.real(), g.imag())); et += (long double)x.v[k + s * len] * x.v[k + s * len]; hv(h, std::complex<float>(e.real(), e.imag())); }
    MC_CHECK(std::fabs(ef - et * len) <= 4 * tol * (et * len + 1e-30L), "energy is not conserved: %Lg in time, %Lg in frequency", et * len, ef); }
  mc::state(h.h); mc::outcome(mc::Hash().u(hashref(x)).u(fast).u(sizeof(T)).h);
  mc::Lib l; delete X; delete Y;
}
template <class T> static void impulses(bool fast) {
  int n; if (fast) n = 1 << mc::range(0, mc::pick(10, 11)); else n = mc::range(1, mc::pick(100, 300)); int p = mc::choose(n); bool row = mc::flip();
  Ref<T> x(row ? 1 : n, row ? n : 1, T(0)); x.v[p] = T(3); { susa::fft<T> F; check(F, x, fast); } mc::heap_empty("after a transform");
}
template <class T> static void small() {
  int n = mc::range(1, mc::pick(8, 10)); bool row = mc::flip(); Ref<T> x(row ? 1 : n, row ? n : 1, T(0)); static const int V[] = {-1, 0, 2}; for (auto &q : x.v) q = T(V[mc::choose(3)]);
  { susa::fft<T> F; check(F, x, false); if (!(n & (n - 1))) { check(F, x, true); check(F, x, true); } } mc::heap_empty("after a transform");
}
template <class T> static void matrices() {
  bool fast = mc::flip(); int r = fast ? 1 << mc::range(1, mc::pick(3, 4)) : mc::range(2, mc::pick(8, 16)), c = mc::range(2, 3), w = mc::choose(r * c + 2); Ref<T> x(r, c, T(0));
  if (w < r * c) x.v[w] = T(2); else for (size_t i = 0; i < x.v.size(); i++) x.v[i] = w == r * c ? T((int)(i * 7 % 11) - 5) : T(1) / T(i + 1);
  { susa::fft<T> F; check(F, x, fast); } mc::heap_empty("after a transform");
}
template <class T> static void wide() { // many columns
  bool fast = mc::flip(); int r = fast ? 1 << mc::any<int>({1, 3, 5}) : mc::any<int>({2, 3, 33}), c = mc::any<int>({17, 33, 65, 258}), w = mc::choose(2); Ref<T> x(r, c, T(0));
  for (size_t i = 0; i < x.v.size(); i++) x.v[i] = w ? T((int)(i * 7 % 11) - 5) : T(i + 1 == x.v.size() || i == (size_t)r * 16);
  { susa::fft<T> F; check(F, x, fast); } mc::heap_empty("after a transform");
}
template <class T> static void histories() {
  { susa::fft<T> F; int depth = mc::pick(3, 4);
  for (int d = 0; d < depth; d++) { bool fast = mc::flip(); int k = mc::choose(6); static const int R[] = {1, 4, 1, 8, 2, 16}, C[] = {1, 1, 4, 2, 3, 1}; Ref<T> x(R[k], C[k], T(0)); int w = mc::choose(3); for (size_t i = 0; i < x.v.size(); i++) x.v[i] = w == 0 ? T((int)(i * 5 % 7) - 3) : w == 1 ? T(i == 1 || x.v.size() == 1) : T(1e3 * (i % 2 ? -1 : 1)); check(F, x, fast); }
  } mc::heap_empty("after the transforms");
}
// long transforms of impulses, against the closed form
template <class T> static void long_impulses(bool fast) {
  size_t n = fast ? (size_t)1 << mc::range(11, mc::pick(17, 20)) : mc::any<size_t>({256, 257, 1000, 1024, mc::thorough() ? (size_t)4099 : (size_t)1500}); size_t P[] = {0, 1, 2, n / 2 - 1, n / 2, n / 2 + 1, n / 3, n - 1, 255 % n, 4097 % n, 65537 % n}; int w = mc::choose(11); if (w > 7 && P[w] < 255) w = 7; size_t p = P[w]; bool row = mc::flip(); MC_NOTE("%s of an impulse at %zu of %zu", fast ? "radix2" : "dft", p, n);
  susa::matrix<T> *X; susa::matrix<std::complex<T>> *Y; { mc::Lib l; X = new susa::matrix<T>(row ? 1 : n, row ? n : 1, T(0)); (*X)(p) = T(3); susa::fft<T> F; mc::step(n); Y = new susa::matrix<std::complex<T>>(fast ? F.radix2(*X) : F.dft(*X)); } shape_is(*Y, row ? 1 : n, row ? n : 1, "transform");
  double tol = sizeof(T) == 8 ? 1e-11 * n : std::min(0.5, 2e-5 * n); const long double tau = 2 * acosl(-1.0L); for (size_t k = 0; k < n; k++) { long double a = tau * ((unsigned __int128)k * p % n) / n; auto g = Y->get(k); MC_CHECK(std::fabs(g.real() - 3 * (double)cosl(a)) <= tol && std::fabs(g.imag() + 3 * (double)sinl(a)) <= tol, "%s of an impulse at %zu of %zu: bin %zu is (%.9g,%.9g), the sum is (%.9Lg,%.9Lg)", fast ? "radix2" : "dft", p, n, k, (double)g.real(), (double)g.imag(), 3 * cosl(a), -3 * sinl(a)); MC_CHECK(X->get(k) == (k == p ? T(3) : T(0)), "the transform changed its argument"); }
  mc::Hash h; h.u(n).u(p).u(fast).u(row); mc::state(h.h); mc::outcome(h.u(sizeof(T)).h); { mc::Lib l; delete X; delete Y; } mc::heap_empty("after a transform");
}
MC_SCENARIO(long_radix2_d) { long_impulses<double>(true); } MC_SCENARIO(long_radix2_f) { long_impulses<float>(true); }
MC_SCENARIO(long_dft_d) { long_impulses<double>(false); } MC_SCENARIO(long_dft_f) { long_impulses<float>(false); }
MC_SCENARIO(dft_impulses_d) { impulses<double>(false); } MC_SCENARIO(dft_impulses_f) { impulses<float>(false); }
MC_SCENARIO(radix2_impulses_d) { impulses<double>(true); } MC_SCENARIO(radix2_impulses_f) { impulses<float>(true); }
MC_SCENARIO(small_d) { small<double>(); } MC_SCENARIO(small_f) { small<float>(); }
MC_SCENARIO(matrices_d) { matrices<double>(); } MC_SCENARIO(matrices_f) { matrices<float>(); }
MC_SCENARIO(wide_d) { wide<double>(); } MC_SCENARIO(wide_f) { wide<float>(); }
MC_SCENARIO(histories_d) { histories<double>(); } MC_SCENARIO(histories_f) { histories<float>(); }
MC_MAIN
