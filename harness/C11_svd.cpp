// C11: singular value decomposition.
//MC-VARIANT asan: -O1 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND every matrix over {-1,0,1} of every shape with up to 9 elements (thorough: over {-1,0,1,2} with up to 10, over {-1,0,1} with up to 12), every upper bidiagonal matrix up to 4x4 (5x5) with diagonal over {0,1,-2,1e-4,1e4} and superdiagonal over {0,1,1e-3}, every pattern product up to 6x6 of every rank, 32 larger shapes (7x7 to 65x65, 300x3, 2x257) of nine patterns each in two (100) fillings (dense, sparse, triangular, banded, low rank, equal columns, graded, nearly equal columns, orthogonal); rows and columns scaled by 1e-6..1e6 and the whole matrix by 1e-12..1e12; bands of 33 and 40 (thorough also 64 and 100) rows with a zero at 6 places, 9 fillings, square, tall and wide; outputs that alias earlier results
//MC-ASSUME finite elements whose rounding errors are normal floats (magnitudes 1e-12..1e12); agreement within 3e-6 of the largest element times the size
#include "mat.h"
typedef susa::matrix<float> M;
static void check(const Ref<float> &a, int prev = 0) {
  int m = a.r, n = a.c, p = std::min(m, n); double amax = 0; for (float x : a.v) amax = std::max(amax, (double)std::fabs(x));
  MC_NOTE("svd of %s", brief(a).c_str());
  M *A, *U, *S, *V;
  { mc::Lib l; A = new M(mk(a)); U = new M(); S = new M(); V = new M(); if (prev == 1) { *U = M(3, 2, 7.f); *S = M(1, 4, 7.f); *V = M(2, 5, 7.f); } if (prev == 2) { *U = M(m, n, 7.f); *S = M(p, 1, 7.f); *V = M(n, n, 7.f); } mc::step(); susa::svd(*A, *U, *S, *V); }
  mc::heap_ok(); same(*A, a, "argument of svd");
  shape_is(*U, m, p, "U"); shape_is(*S, p, 1, "S"); shape_is(*V, n, p, "V");
  double t = 3e-6 * (m + n);
  for (int i = 0; i < p; i++) MC_CHECK(std::isfinite(S->get(i)) && S->get(i) >= 0, "singular value %d of %s is %g", i, brief(a).c_str(), (double)S->get(i));
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < p; k++) s += (double)U->get(i, k) * (double)S->get(k) * (double)V->get(j, k); MC_CHECK(std::fabs(s - a.at(i, j)) <= t * amax, "U S V' of %s at (%d,%d) is %.9g; S = %s", brief(a).c_str(), i, j, s, str(*S).c_str()); }
  for (int q = 0; q < 2; q++) { const M &Q = q ? *V : *U; int r = q ? n : m; for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) { double s = 0; for (int k = 0; k < r; k++) s += (double)Q.get(k, i) * (double)Q.get(k, j); MC_CHECK(std::fabs(s - (i == j)) <= t, "%s of %s: columns %d and %d have product %g", q ? "V" : "U", brief(a).c_str(), i, j, s); } }
  mc::outcome(mc::Hash().u(hashref(a)).u(prev).h); mc::Hash h; h.u(m).u(n); for (int i = 0; i < p; i++) h.u((uint64_t)std::llround(std::min(1e15, S->get(i) / (amax ? amax : 1) * 1e4))); mc::state(h.h);
  { mc::Lib l; delete A; delete U; delete S; delete V; } mc::heap_empty("after svd");
}
static void shape_of(int n, int &r, int &c) { std::vector<int> d; for (int i = 1; i <= n; i++) if (n % i == 0) d.push_back(i); r = mc::any(d); c = n / r; }
static void all(int maxn, std::vector<float> V) { int r, c; shape_of(mc::range(1, maxn), r, c); Ref<float> a(r, c, 0.f); for (auto &x : a.v) x = V[mc::choose((int)V.size())]; check(a); }
MC_SCENARIO(all_pm1) { all(mc::pick(9, 12), {-1, 0, 1}); }
MC_SCENARIO(all_pm12) { all(mc::pick(6, 10), {-1, 0, 1, 2}); }
MC_SCENARIO(bidiagonal) {
  static const float D[] = {0, 1, -2, 1e-4f, 1e4f}, E[] = {0, 1, 1e-3f};
  int n = mc::range(1, mc::pick(4, 5)), extra = mc::choose(2); Ref<float> a(n + extra, n, 0.f);
  for (int i = 0; i < n; i++) { a.at(i, i) = D[mc::choose(5)]; if (i + 1 < n) a.at(i, i + 1) = E[mc::choose(3)]; }
  check(a);
}
MC_SCENARIO(patterns) {
  int m = mc::range(1, 6), n = mc::range(1, 6), k = mc::range(0, std::min(m, n)), pa = mc::choose(4), pb = mc::choose(4), sc = mc::choose(7);
  auto f = [](int p, int i, int j) { switch (p) { case 0: return i == j ? 1 : 0; case 1: return (i * 3 + j * 5) % 4 - 1; case 2: return i >= j ? 1 : -1; default: return (i + 1) * (j + 2) % 5; } };
  Ref<float> a(m, n, 0.f);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { int s = 0; for (int q = 0; q < k; q++) s += f(pa, i, q) * f(pb, q, j); float x = s; if (sc == 1) x *= i % 2 ? 1e3f : 1e-3f; if (sc == 2) x *= j % 2 ? 1e-6f : 1e6f; if (sc == 3) x *= 1e12f; if (sc == 4) x *= 1e-12f; if (sc == 5) x *= 0.1f; if (sc == 6) x = s ? x + (i == j) * 1e-4f : 0; a.at(i, j) = x; }
  check(a, (m + n + k) % 3);
}
// beyond small block sizes and short iterations
MC_SCENARIO(large) {
  static const int S[][2] = {{7, 7}, {8, 8}, {9, 9}, {10, 10}, {12, 12}, {15, 15}, {16, 16}, {17, 17}, {20, 20}, {24, 24}, {32, 32}, {33, 33}, {9, 4}, {4, 9}, {17, 3}, {3, 17}, {16, 8}, {8, 17}, {33, 5}, {5, 33}, {40, 12}, {12, 31}, {65, 3}, {3, 65}, {65, 16}, {100, 2}, {129, 4}, {257, 2}, {2, 257}, {300, 3}, {300, 1}, {64, 64}, {65, 65}};
  int k = mc::choose(mc::pick(32, 33)), pat = mc::choose(9), w = mc::choose(mc::pick(2, 100)), m = S[k][0], n = S[k][1]; Ref<float> a(m, n, 0.f); if (k == 31 && !mc::thorough()) mc::assume(w == 0 && pat % 3 == 0);
  auto h = [&](int i, int j) { return (int)(mc::Hash::mix(i * 977 + j * 131 + w * 7919 + 3) % 513) / 64.0f - 4; };
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a.at(i, j) = pat == 0 ? h(i, j) : pat == 1 ? (mc::Hash::mix(i * 31 + j * 57 + w) % 4 ? 0 : h(i, j)) : pat == 2 ? (j >= i ? h(i, j) : 0) : pat == 3 ? (std::abs(i - j) < 2 ? 2.f + (i + w) % 3 : 0) : pat == 4 ? h(i, 500) * h(501, j) + h(i, 502) * h(503, j) : pat == 5 ? h(i, j % 3) : pat == 6 ? h(i, j) * std::ldexp(1.f, -(j + w) % 20) : pat == 7 ? 1.f + h(i, j) / 4096 : ((i * (j + 1) + w) % (m + n + 1) ? std::cos(3.14159265 * (i + 0.5) * (j + (w > 0) * 0.5) / std::max(m, n)) : 1.0);
  check(a, (k + pat) % 3);
}
// a vanishing singular value is chased over long bands
MC_SCENARIO(long_bands) {
  static const int N[] = {33, 40, 64, 100}; static const float D[] = {1, -2, 0.25f}, E[] = {1, 3, -0.5f};
  int n = N[mc::choose(mc::pick(2, 4))], zero = mc::choose(6), wide = mc::choose(3); float d = D[mc::choose(3)], e = E[mc::choose(3)];
  int m = n + (wide == 1 ? 7 : 0), c = n + (wide == 2 ? 7 : 0); Ref<float> a(m, c, 0.f);
  for (int i = 0; i < n; i++) { a.at(i, i) = zero == 5 && i % 9 == 4 ? 0 : d + (i % 3) * 0.125f; if (i + 1 < n) a.at(i, i + 1) = e; }
  if (zero < 5) { int z[] = {0, 1, n / 2, n - 2, n - 1}; a.at(z[zero], z[zero]) = 0; }
  check(a, (n + zero) % 3);
}
MC_MAIN
