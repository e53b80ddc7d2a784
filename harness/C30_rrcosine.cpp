// C30: rrcosine against its frequency-sampling definition.
//MC-VARIANT asan: -O2 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND oversampling 1 to 12 (20), roll-off 0 to 1 in steps of 0.05 (0.01) and every roll-off that puts a spectral sample on a band edge, every odd length 1 to 61 (129); oversampling up to 64 and lengths up to 401 (513) for six roll-offs; roll-offs of 0.001 to 0.03 at lengths up to 257; memory filled with three patterns
//MC-ASSUME the documented frequency-sampling method: tap n is the inverse discrete transform of the square root of the raised-cosine spectrum at L*m/N, scaled to unit energy; intersymbol interference of the cascade is bounded where the filter spans at least eight symbols with roll-off of at least 0.2
#include "mat.h"
typedef long double LD;
static LD X(LD f, LD a) { f = std::fabs(f); LD p = acosl(-1.0L); if (f <= (1 - a) / 2) return 1; if (f > (1 + a) / 2) return 0; return 0.5L * (1 + cosl(p / a * (f - (1 - a) / 2))); }
static void taps(int L, double a, int N) {
  static const int F[] = {0x00, 0x3F, 0xFF}; mc::g_fill = F[(L + N) % 3]; MC_NOTE("oversampling %d, roll-off %.17g, length %d", L, a, N); int c = (N - 1) / 2; LD pi = acosl(-1.0L); std::vector<LD> g(N), H(c + 1), ct(N); LD e = 0; for (int m = 0; m <= c; m++) H[m] = sqrtl(X((LD)L * m / N, a)); for (int i = 0; i < N; i++) ct[i] = cosl(2 * pi * i / N);
  for (int n = 0; n < N; n++) { LD s = H[0]; for (int m = 1; m <= c; m++) s += 2 * H[m] * ct[(int)(((long)m * std::abs(n - c)) % N)]; g[n] = s; e += s * s; } for (auto &x : g) x /= sqrtl(e);
  mc::step(); susa::matrix<double> *R; { mc::Lib l; susa::rrcosine f((unsigned)L, a, N); R = new susa::matrix<double>(f.get()); susa::matrix<double> again = f.get(); mc::NoLib n; for (int i = 0; i < N && again.size() == (size_t)N; i++) MC_CHECK(again(i) == R->get(i), "a second get() differs"); }
  MC_CHECK((int)R->size() == N, "oversampling %d, roll-off %g, length %d: %zu taps", L, a, N, R->size()); double en = 0;
  for (int n = 0; n < N; n++) { double x = R->get(n); MC_CHECK(std::isfinite(x), "oversampling %d, roll-off %g, length %d: tap %d is %g", L, a, N, n, x); MC_CHECK(std::fabs(x - R->get(N - 1 - n)) < 1e-12, "oversampling %d, roll-off %g, length %d: taps %d and %d are %.15g and %.15g", L, a, N, n, N - 1 - n, x, R->get(N - 1 - n)); MC_CHECK(std::fabs(x - (double)g[n]) < 1e-9, "oversampling %d, roll-off %g, length %d: tap %d is %.12g, expected %.12Lg", L, a, N, n, x, g[n]); en += x * x; }
  MC_CHECK(std::fabs(en - 1) < 1e-12, "oversampling %d, roll-off %g, length %d: energy %.15g", L, a, N, en);
  if (a >= 0.2 && N >= 8 * L && L > 1) for (int k = 1; k * L < N / 2; k++) { double s = 0; for (int n = 0; n + k * L < N; n++) s += R->get(n) * R->get(n + k * L); MC_CHECK(std::fabs(s) < 0.02, "oversampling %d, roll-off %g, length %d: interference %g at %d symbols", L, a, N, s, k); }
  mc::Hash h; for (int n = 0; n <= c; n++) h.u((uint64_t)std::llround(g[n] * 1e9L)); mc::state(h.h); mc::outcome(mc::Hash().u(L).d(a).u(N).h); { mc::Lib l; delete R; } mc::heap_empty("after the filter");
}
MC_SCENARIO(grid) { int L = mc::range(1, mc::pick(12, 20)), s = mc::pick(20, 100); double a = (double)mc::range(0, s) / s; int N = 2 * mc::choose(mc::pick(31, 65)) + 1; taps(L, a, N); }
MC_SCENARIO(edges) { // a spectral sample exactly on the pass-band or stop-band edge, or one rounding step beside it
  int L = mc::range(1, mc::pick(8, 12)), N = 2 * mc::range(1, mc::pick(15, 25)) + 1, m = mc::range(1, (N - 1) / 2); double a = std::fabs(1 - 2.0 * L * m / N); mc::assume(a <= 1); int w = mc::choose(3); if (w) a = std::nextafter(a, w == 1 ? 0 : 1); taps(L, a, N); }
MC_SCENARIO(longer) { static const int LN[] = {127, 129, 255, 257, 401, 513}; static const double A[] = {0, 0.1, 0.22, 0.35, 0.5, 1}; int L = mc::any<int>({1, 2, 3, 4, 8, 10, 16, 25, 64}), N = LN[mc::choose(mc::pick(5, 6))]; taps(L, A[mc::choose(6)], N); }
MC_SCENARIO(small_rolloff) { static const double A[] = {0.001, 0.003, 0.007, 0.012, 0.02, 0.03}; int N = mc::any<int>({31, 63, 101, 135, 169, 203, 257}), m = mc::range(1, 3); taps(m, A[mc::choose(6)], N); } // a transition band narrower than the distance of two samples, or hardly wider
MC_SCENARIO(tiny_rolloff) { static const double A[] = {1e-300, 1e-12, 1e-6, 1 - 1e-12, 1}; double a = A[mc::choose(5)]; taps(mc::range(1, 8), a, 2 * mc::choose(30) + 1); }
MC_MAIN
