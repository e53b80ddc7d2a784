// C22: susa::mt and susa::rng against std::mt19937, one reference object per generator.
//MC-VARIANT asan: -O2 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND all histories of construct (default, seeded)/copy/assign (also to itself)/seed again/draw (single, block; 1, 5, 623 and 624 numbers) of length 5 (6) over two generators and 4 (5) over three, for both classes, each followed by a run across a state regeneration on every generator; all histories of length 4 (5) of derived draws (normal blocks of odd and even lengths, uniform, integers, discrete, probabilities set, copies) over two generators with equal or different seeds; 80 boundary seeds with 3000 (200000) draws; every seed below 4096 (65536) with the first draws; both classes side by side; memory filled with three patterns
//MC-ASSUME raw numbers are observed through the public draws (rand_mask with a full mask); derived draws follow the formulas of C23
#include "mat.h"
typedef uint32_t u32;
static const char *nm(const susa::mt *) { return "mt"; } static const char *nm(const susa::rng *) { return "rng"; }
static void reseed(susa::rng &g, u32 s) { g.init(s); } static void reseed(susa::mt &g, u32 s) { g = susa::mt(s); }
template <class G> static void block(G &g, std::mt19937 &m, int n, const char *what) {
  susa::matrix<u32> *R; { mc::Lib l; R = new susa::matrix<u32>(g.rand_mask(0xFFFFFFFFu, (u32)n)); } MC_CHECK((int)R->size() == n && R->no_cols() == 1, "%s: a block of %d draws is %zux%zu", nm(&g), n, R->no_rows(), R->no_cols());
  for (int i = 0; i < n; i++) { u32 e = (u32)m(), x = R->get(i); MC_CHECK(x == e, "%s: number %d of %s is %u, MT19937 gives %u", nm(&g), i, what, x, e); } mc::Lib l; delete R;
}
template <class G> static void single(G &g, std::mt19937 &m, int n, const char *what) { for (int i = 0; i < n; i++) { u32 e = (u32)m(), x = g.rand_mask(0xFFFFFFFFu); MC_CHECK(x == e, "%s: number %d of %s is %u, MT19937 gives %u", nm(&g), i, what, x, e); } }
// derived draws as part of a history: their values, and that they use up numbers of this generator only
static double real1(std::mt19937 &m) { return (u32)m() / 4294967295.0; }
static void pair(std::mt19937 &m, double &a, double &b) { double x, y, w; do { x = 2 * real1(m) - 1; y = 2 * real1(m) - 1; w = x * x + y * y; } while (w >= 1); w = std::sqrt(-2 * std::log(w) / w); a = x * w; b = y * w; }
template <class G> static void normals(G &g, std::mt19937 &m, int n) { susa::matrix<double> *R; { mc::Lib l; R = new susa::matrix<double>(g.randn((u32)n)); } MC_CHECK((int)R->size() == n, "%s: randn(%d) is %zux%zu", nm(&g), n, R->no_rows(), R->no_cols()); for (int i = 0; i < n; i += 2) { double e[2]; pair(m, e[0], e[1]); for (int k = 0; k < 2 && i + k < n; k++) MC_CHECK(std::fabs(R->get(i + k) - e[k]) <= 1e-12 * (1 + std::fabs(e[k])), "%s: randn(%d): number %d is %.17g, its own sequence gives %.17g", nm(&g), n, i + k, R->get(i + k), e[k]); } mc::Lib l; delete R; }
template <class G> static void uniforms(G &g, std::mt19937 &m, int n) { susa::matrix<double> *R; { mc::Lib l; R = new susa::matrix<double>(g.rand((u32)n)); } for (int i = 0; i < n; i++) { double e = real1(m); MC_CHECK(std::fabs(R->get(i) - e) <= 1e-12, "%s: rand(%d): number %d is %.17g, its own sequence gives %.17g", nm(&g), n, i, R->get(i), e); } mc::Lib l; delete R; }
static susa::matrix<double> probs(int k) { susa::matrix<double> p(4, 1); static const double V[2][4] = {{0.1, 0.4, 0.2, 0.3}, {0.45, 0.05, 0.35, 0.15}}; for (int i = 0; i < 4; i++) p(i) = V[k][i]; return p; }
static int index_of(int k, double r) { static const int O[2][4] = {{0, 2, 3, 1}, {1, 3, 2, 0}}; static const double V[2][4] = {{0.1, 0.2, 0.3, 0.4}, {0.05, 0.15, 0.35, 0.45}}; double t = 0; for (int i = 0; i < 4; i++) { t += V[k][i]; if (t > r) return O[k][i]; } return 0; }
struct Own { int set = -1; };                  // what else a generator carries: its probabilities
static void special(susa::mt &g, std::mt19937 &m, Own &o, int k) { if (k < 2) { mc::Lib l; g.set_probabilities(probs(k)); mc::NoLib n; o.set = k; } else if (k == 2) { mc::assume(o.set >= 0); for (int i = 0; i < 6; i++) { int e = index_of(o.set, ((u32)m() + 0.5) / 4294967296.0); u32 x = g.nonuniform(); MC_CHECK((int)x == e, "mt: nonuniform() draws %u, its own sequence and probabilities give %d", x, e); } } else { for (int i = 0; i < 6; i++) { int e = (u32)m() % 10 + 1; u32 x = g.randint(10); MC_CHECK((int)x == e, "mt: randint(10) is %u, its own sequence gives %d", x, e); } for (int i = 0; i < 6; i++) { u32 e = ((u32)m() + 0.5) / 4294967296.0 <= 0.5, x = g.bernoulli(0.5); MC_CHECK(x == e, "mt: bernoulli(0.5) is %u, its own sequence gives %u", x, e); } } }
static void special(susa::rng &g, std::mt19937 &m, Own &, int k) { if (k == 0) { double e, f; pair(m, e, f); double x = g.randn(); MC_CHECK(std::fabs(x - e) <= 1e-12 * (1 + std::fabs(e)), "rng: randn() is %.17g, its own sequence gives %.17g", x, e); } else if (k == 1) { double e = real1(m), x = g.rand(); MC_CHECK(std::fabs(x - e) <= 1e-12, "rng: rand() is %.17g, its own sequence gives %.17g", x, e); } else if (k == 2) { susa::matrix<int8_t> *R; { mc::Lib l; R = new susa::matrix<int8_t>(g.bernoulli(5)); } for (int i = 0; i < 5; i++) { int e = m() & 1; MC_CHECK(R->get(i) == e, "rng: bit %d is %d, its own sequence gives %d", i, R->get(i), e); } mc::Lib l; delete R; } else { susa::matrix<double> *R; { mc::Lib l; R = new susa::matrix<double>(g.rand(3u, 1u)); } for (int i = 0; i < 3; i++) { double e = real1(m); MC_CHECK(std::fabs(R->get(i) - e) <= 1e-12, "rng: rand(3,1): number %d is %.17g, its own sequence gives %.17g", i, R->get(i), e); } mc::Lib l; delete R; } }
template <class G> static void derived(int slots, int depth) {
  static const int N[] = {1, 3, 4}; static const int F[] = {0x00, 0xA5, 0xFF}; G *g[3] = {}; std::mt19937 m[3]; Own own[3]; mc::Hash hs; int shift = mc::choose(2);
  for (int i = 0; i < slots; i++) { mc::g_fill = F[i]; mc::Lib l; u32 v = 77 + i * shift; g[i] = new G(v); mc::NoLib n; m[i] = std::mt19937(v); } mc::step();
  for (int d = 0; d < depth; d++) { int s = mc::choose(slots), o = mc::choose(9 + slots); hs.u(s).u(o); mc::step(); mc::g_fill = F[(d + s) % 3];
    if (o < 3) { MC_NOTE("%d: randn(%d)", s, N[o]); normals(*g[s], m[s], N[o]); } else if (o == 3) { MC_NOTE("%d: rand(2)", s); uniforms(*g[s], m[s], 2); } else if (o < 8) { MC_NOTE("%d: %s", s, o == 4 ? "set_probabilities / randn()" : o == 5 ? "set_probabilities / rand()" : o == 6 ? "nonuniform() / bernoulli" : "randint and bernoulli / rand(3,1)"); special(*g[s], m[s], own[s], o - 4); } else if (o == 8) { MC_NOTE("%d: raw draws", s); single(*g[s], m[s], 2, "the history"); } else { int t = o - 9; MC_NOTE("%d = %d", s, t); { mc::Lib l; *g[s] = *g[t]; } if (s != t) { m[s] = m[t]; own[s] = own[t]; } }
    mc::Hash h; for (int i = 0; i < slots; i++) { std::mt19937 c = m[i]; h.u(c()).u(c()).u(own[i].set); } mc::state(h.h); }
  for (int i = 0; i < slots; i++) { normals(*g[i], m[i], 3); single(*g[i], m[i], 2, "the run after the history"); normals(*g[i], m[i], 4); block(*g[i], m[i], 3, "the run after the history"); } mc::outcome(hs.u(shift).h); for (auto q : g) { mc::Lib l; delete q; } mc::heap_empty("after the history");
}
template <class G> static void history(int slots, int depth) {
  static const u32 SEED[] = {1, 0xFFFFFFFFu, 5489}; static const int N[] = {1, 5, 623, 624}; static const int F[] = {0x00, 0xA5, 0xFF};
  G *g[3] = {}; std::mt19937 m[3]; std::string log; mc::Hash hs;
  for (int d = 0; d < depth; d++) {
    int s = mc::choose(slots); mc::step(); mc::g_fill = F[(d + s) % 3];
    if (!g[s]) { int o = mc::choose(3 + slots - 1); if (o < 1) { MC_NOTE("%d = %s()", s, "generator"); mc::Lib l; g[s] = new G(); mc::NoLib n; m[s] = std::mt19937(); } else if (o < 3) { u32 v = SEED[o - 1]; MC_NOTE("%d = generator(%u)", s, v); { mc::Lib l; g[s] = new G(v); } m[s] = std::mt19937(v); } else { int t = (s + 1 + o - 3) % slots; mc::assume(g[t]); MC_NOTE("%d = copy of %d", s, t); { mc::Lib l; g[s] = new G(*g[t]); } m[s] = m[t]; } hs.u(d).u(s).u(o); }
    else { int o = mc::choose(8 + slots); hs.u(d).u(s).u(o + 100);
      if (o < 4) { MC_NOTE("%d draws a block of %d", s, N[o]); block(*g[s], m[s], N[o], "the history"); } else if (o == 4) { MC_NOTE("%d draws 5 single numbers", s); single(*g[s], m[s], 5, "the history"); } else if (o < 7) { u32 v = SEED[o - 5]; MC_NOTE("%d is seeded with %u", s, v); reseed(*g[s], v); m[s] = std::mt19937(v); } else if (o == 7) { MC_NOTE("%d is destroyed", s); { mc::Lib l; delete g[s]; } g[s] = nullptr; } else { int t = o - 8; mc::assume(g[t]); MC_NOTE("%d = %d", s, t); { mc::Lib l; *g[s] = *g[t]; } if (s != t) m[s] = m[t]; } }
    std::ostringstream os; mc::Hash h; for (int i = 0; i < slots; i++) if (g[i]) { std::mt19937 c = m[i]; h.u(i).u(c()).u(c()).u(c()); } mc::state(h.h);
  }
  for (int i = 0; i < slots; i++) if (g[i]) { single(*g[i], m[i], 2, "the run after the history"); block(*g[i], m[i], 630, "the run after the history"); } mc::outcome(hs.h); for (auto q : g) { mc::Lib l; delete q; } mc::heap_empty("after the history");
}
MC_SCENARIO(mt_two) { history<susa::mt>(2, mc::pick(5, 6)); }
MC_SCENARIO(rng_two) { history<susa::rng>(2, mc::pick(5, 6)); }
MC_SCENARIO(mt_derived) { derived<susa::mt>(2, mc::pick(4, 5)); }
MC_SCENARIO(rng_derived) { derived<susa::rng>(2, mc::pick(4, 5)); }
MC_SCENARIO(mt_three) { history<susa::mt>(3, mc::pick(4, 5)); }
MC_SCENARIO(rng_three) { history<susa::rng>(3, mc::pick(4, 5)); }
static u32 boundary(int i) { if (i < 66) { u32 p = i / 2 < 32 ? 1u << (i / 2) : 0; return i < 64 ? p - (i & 1) : i == 64 ? 0 : 0xFFFFFFFEu; } static const u32 X[] = {5489, 19650218, 4357, 35748, 23098, 2987549, 0x12345678, 0x9908B0DF, 1812433253u, 0x7FFFFFFF, 0x80000001u, 624, 623, 397}; return X[i - 66]; }
MC_SCENARIO(boundary_seeds) { u32 s = boundary(mc::choose(80)); MC_NOTE("seed %u", s); int n = mc::pick(3000, 200000); std::mt19937 a(s), b(s); susa::mt *p; susa::rng *q; { mc::Lib l; p = new susa::mt(s); q = new susa::rng(s); } mc::step(); if (mc::flip()) { block(*p, a, n, "a long run"); block(*q, b, n, "a long run"); } else for (int i = 0; i < n; i += 7) { single(*p, a, 3, "a long run"); single(*q, b, 3, "a long run"); block(*p, a, 4, "a long run"); block(*q, b, 4, "a long run"); } mc::state(mc::Hash().u(s).h); mc::outcome(mc::Hash().u(s).u(1).h); { mc::Lib l; delete p; delete q; } mc::heap_empty("after a long run"); }
MC_SCENARIO(small_seeds) { u32 base = 64 * (u32)mc::choose(mc::pick(64, 1024)); for (u32 s = base; s < base + 64; s++) { MC_NOTE("seed %u", s); std::mt19937 a(s), b(s); susa::mt p(s); susa::rng q(s); mc::step(); single(p, a, 3, "a fresh generator"); single(q, b, 3, "a fresh generator"); mc::state(mc::Hash().u(s).h); mc::outcome(mc::Hash().u(s).u(1).h); } }
MC_MAIN
