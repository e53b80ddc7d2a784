// C23: derived draws of susa::mt and susa::rng against their formulas over std::mt19937.
//MC-VARIANT asan: -O2 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND all sequences of two (three) draws for mt and three (four) for rng of every kind and parameter class (masks 0, 1, all 2^k-1, all 2^k, mixed and full; block lengths 1, 2, 3, 7 (and 0); probabilities 0, 1, 1/2, exactly the next uniform number and its two neighbours; eight probability vectors with zeros, ties, one element and a threshold exactly at the next uniform number and its two neighbours) from three seeds and two positions (one just before a state regeneration); blocks of 4 to 70001 numbers of every kind, up to 4097 probabilities; 20000 (1000000) consecutive draws of each real-valued kind for four (twelve) seeds
//MC-ASSUME real values agree with the formula to 1e-12; a block of general discrete draws may consume one number more than it returns; probability vectors sum to at most one and the draw falls to index 0 above their sum; randint bounds are positive; single general discrete draws use the ascending order of the probabilities, any fixed order among equal ones
#include "mat.h"
typedef uint32_t u32;
struct Ref19 { std::mt19937 m; u32 u() { return (u32)m(); } double r1() { return u() / 4294967295.0; } double r3() { return (u() + 0.5) / 4294967296.0; } double peek3() const { std::mt19937 c = m; return ((u32)c() + 0.5) / 4294967296.0; } double peek1() const { std::mt19937 c = m; return (u32)c() / 4294967295.0; }
  void pair(double &a, double &b) { double x, y, w; do { x = 2 * r1() - 1; y = 2 * r1() - 1; w = x * x + y * y; } while (w >= 1); w = std::sqrt(-2 * std::log(w) / w); a = x * w; b = y * w; } };
static bool near_(double a, double b) { return std::fabs(a - b) <= 1e-12 * (1 + std::fabs(b)); }
template <class F> static auto lib(F f) { mc::Lib l; return new auto(f()); }
template <class M> static void drop(M *m) { mc::Lib l; delete m; }
template <class M> static void shape(M *m, size_t r, size_t c, const char *w) { MC_CHECK(m->size() == r * c && (r * c == 0 || (m->no_rows() == r && m->no_cols() == c)), "%s of length %zu is %zux%zu", w, r * c, m->no_rows(), m->no_cols()); }
template <class G> static void resync(G &g, Ref19 &m, int slack, const char *w) { u32 x = g.rand_mask(~0u); for (int i = 0; i <= slack; i++) if (m.u() == x) return; mc::fail("%s: the draw after it is %u, not the next number of the sequence", w, x); }
static const u32 MASK[] = {0, 1, 0xF, 0x80000000u, 0x00FF00F0u, 0xFFFFFFFFu, 0x7FFFFFFFu, 6};
static const int LEN[] = {1, 2, 3, 7};
template <class G> static void randn_block(G &g, Ref19 &m, int n) { auto *r = lib([&] { return g.randn((u32)n); }); shape(r, n, 1, "randn"); for (int i = 0; i < n; i += 2) { double a, b; m.pair(a, b); MC_CHECK(near_(r->get(i), a), "randn(%d): number %d is %.17g, expected %.17g", n, i, r->get(i), a); if (i + 1 < n) MC_CHECK(near_(r->get(i + 1), b), "randn(%d): number %d is %.17g, expected %.17g", n, i + 1, r->get(i + 1), b); } drop(r); resync(g, m, 0, "randn"); }
template <class G> static void rand_block(G &g, Ref19 &m, int n) { auto *r = lib([&] { return g.rand((u32)n); }); shape(r, n, 1, "rand"); for (int i = 0; i < n; i++) { double e = m.r1(), x = r->get(i); MC_CHECK(x >= 0 && x <= 1 && near_(x, e), "rand(%d): number %d is %.17g, expected %.17g", n, i, x, e); } drop(r); resync(g, m, 0, "rand"); }
template <class G> static void mask_block(G &g, Ref19 &m, u32 k, int n) { auto *r = lib([&] { return g.rand_mask(k, (u32)n); }); shape(r, n, 1, "rand_mask"); for (int i = 0; i < n; i++) { u32 e = m.u() & k; MC_CHECK(r->get(i) == e, "rand_mask(%#x,%d): number %d is %#x, expected %#x", k, n, i, r->get(i), e); } drop(r); resync(g, m, 0, "rand_mask"); }
static const int NV = 10;
static std::vector<double> vec(int i, double r) { switch (i) { case 0: return {0.5, 0.3, 0.2}; case 1: return {0.2, 0.3, 0.5}; case 2: return {0, 1}; case 3: return {1, 0, 0}; case 4: return {0.25, 0.25, 0.25, 0.25}; case 5: return {0.1, 0.6, 0.1, 0.2}; case 6: return {r, 1 - r}; case 7: { double q = std::nextafter(r, 1); return {q, 1 - q}; } case 8: { double q = std::nextafter(r, 0); return {q, 1 - q}; } default: return {0.125, 0.25}; } }
static std::string vs(const std::vector<double> &v) { std::string s; char b[40]; for (double x : v) { snprintf(b, sizeof b, " %.17g", x); s += b; } return s; }
static susa::matrix<double> *mk_(const std::vector<double> &v, bool row) { mc::Lib l; auto *p = new susa::matrix<double>(row ? 1 : v.size(), row ? v.size() : 1); for (size_t i = 0; i < v.size(); i++) (*p)(i) = v[i]; return p; }
// index of the sorted interval that holds r, or -1
static int interval(std::vector<double> v, double r) { double t = 0; for (size_t i = 0; i < v.size(); i++) { t += v[i]; if (t > r) return (int)i; } return -1; }
static void check_single(const std::vector<double> &p, double r, u32 x, const char *w) { auto s = p; std::sort(s.begin(), s.end()); int k = interval(s, r); if (k < 0) MC_CHECK(x == 0, "%s(%s): drew %u for %.17g", w, vs(p).c_str(), x, r); else MC_CHECK(x < p.size() && p[x] == s[k], "%s(%s): drew index %u for uniform %.17g, which falls to probability %g", w, vs(p).c_str(), x, r, s[k]); }
static int g_set = -1; static std::vector<double> g_p;
static void op(susa::mt &g, Ref19 &m, uint64_t &id) {
  int o = mc::choose(13), a = 0; mc::step();
  switch (o) {
    case 0: a = mc::choose(8); { u32 x = g.rand_mask(MASK[a]), e = m.u() & MASK[a]; MC_NOTE("rand_mask(%#x)", MASK[a]); MC_CHECK(x == e, "rand_mask(%#x) is %#x, expected %#x", MASK[a], x, e); } break;
    case 1: a = mc::choose(8); MC_NOTE("rand_mask(%#x,%d)", MASK[a], LEN[a % 4]); mask_block(g, m, MASK[a], LEN[a % 4]); break;
    case 2: a = mc::choose(4); MC_NOTE("rand(%d)", LEN[a]); rand_block(g, m, LEN[a]); break;
    case 3: a = mc::choose(4); MC_NOTE("randn(%d)", LEN[a]); randn_block(g, m, LEN[a]); break;
    case 4: { a = mc::choose(6); double r = m.peek3(), p = a == 0 ? 0 : a == 1 ? 1 : a == 2 ? 0.5 : a == 3 ? r : a == 4 ? std::nextafter(r, 0) : std::nextafter(r, 1); MC_NOTE("bernoulli(%.17g)", p); u32 x = g.bernoulli(p), e = r <= p; m.u(); MC_CHECK(x == e, "bernoulli(%.17g) is %u for the uniform number %.17g", p, x, r); break; }
    case 5: { static const u32 N[] = {1, 2, 6, 100, 0x80000000u, 0xFFFFFFFFu}; a = mc::choose(6); MC_NOTE("randint(%u)", N[a]); u32 x = g.randint(N[a]), e = m.u() % N[a] + 1; MC_CHECK(x >= 1 && x <= N[a] && x == e, "randint(%u) is %u, expected %u", N[a], x, e); break; }
    case 6: case 7: { a = mc::choose(NV); double r = m.peek3(); auto p = vec(a, r); MC_NOTE("nonuniform(%s)", vs(p).c_str()); auto *P = mk_(p, o == 7); u32 x; { mc::Lib l; x = g.nonuniform(*P); } m.u(); check_single(p, r, x, "nonuniform"); for (size_t i = 0; i < p.size(); i++) MC_CHECK(P->get(i) == p[i], "nonuniform changed its input"); drop(P); break; }
    case 8: case 9: { a = mc::choose(NV); double r = m.peek3(); g_p = vec(a, r); g_set = a; MC_NOTE("set_probabilities(%s); nonuniform()", vs(g_p).c_str()); auto *P = mk_(g_p, o == 9); { mc::Lib l; g.set_probabilities(*P); } drop(P); u32 x = g.nonuniform(); m.u(); check_single(g_p, r, x, "set_probabilities, nonuniform"); break; }
    case 10: { mc::assume(g_set >= 0); MC_NOTE("nonuniform()"); double r = m.r3(); u32 x = g.nonuniform(); check_single(g_p, r, x, "nonuniform()"); break; }
    case 11: case 12: { a = mc::choose(NV); auto p = vec(a, m.peek3()); int n = LEN[(a + o) % 4]; MC_NOTE("nonuniform(%s,%d)", vs(p).c_str(), n); auto *P = mk_(p, o == 12); auto *r = lib([&] { return g.nonuniform(*P, (u32)n); }); shape(r, n, 1, "nonuniform"); for (int i = 0; i < n; i++) { double q = m.r3(); int e = interval(p, q); MC_CHECK((int)r->get(i) == (e < 0 ? 0 : e), "nonuniform(%s,%d): draw %d is %u for uniform %.17g, expected %d", vs(p).c_str(), n, i, r->get(i), q, e); } drop(r); drop(P); resync(g, m, 1, "nonuniform"); break; }
  }
  id = id * 1000 + o * 20 + a;
}
static void op(susa::rng &g, Ref19 &m, uint64_t &id) {
  int o = mc::choose(8), a = 0; mc::step();
  switch (o) {
    case 0: a = mc::choose(8); { u32 x = g.rand_mask(MASK[a]), e = m.u() & MASK[a]; MC_NOTE("rand_mask(%#x)", MASK[a]); MC_CHECK(x == e, "rand_mask(%#x) is %#x, expected %#x", MASK[a], x, e); } break;
    case 1: a = mc::choose(8); MC_NOTE("rand_mask(%#x,%d)", MASK[a], LEN[a % 4]); mask_block(g, m, MASK[a], LEN[a % 4]); break;
    case 2: a = mc::choose(4); MC_NOTE("rand(%d)", LEN[a]); rand_block(g, m, LEN[a]); break;
    case 3: a = mc::choose(4); MC_NOTE("randn(%d)", LEN[a]); randn_block(g, m, LEN[a]); break;
    case 4: { MC_NOTE("rand()"); double x = g.rand(), e = m.r1(); MC_CHECK(x >= 0 && x <= 1 && near_(x, e), "rand() is %.17g, expected %.17g", x, e); break; }
    case 5: { MC_NOTE("randn()"); double x = g.randn(), e, f; m.pair(e, f); MC_CHECK(near_(x, e), "randn() is %.17g, expected %.17g", x, e); resync(g, m, 0, "randn()"); break; }
    case 6: { static const int R[] = {1, 2, 3, 1, 2}, C[] = {1, 2, 2, 5, 1}; a = mc::choose(5); MC_NOTE("rand(%d,%d)", R[a], C[a]); auto *r = lib([&] { return g.rand((u32)R[a], (u32)C[a]); }); shape(r, R[a], C[a], "rand"); std::vector<double> e, x; for (int i = 0; i < R[a] * C[a]; i++) e.push_back(m.r1()), x.push_back(r->get(i)); for (size_t i = 0; i < e.size(); i++) MC_CHECK(near_(x[i], e[i]), "rand(%d,%d): number %zu is %.17g, expected %.17g", R[a], C[a], i, x[i], e[i]); drop(r); resync(g, m, 0, "rand(r,c)"); break; }
    case 7: { a = mc::choose(4); MC_NOTE("bernoulli(%d)", LEN[a]); auto *r = lib([&] { return g.bernoulli(LEN[a]); }); shape(r, LEN[a], 1, "bernoulli"); for (int i = 0; i < LEN[a]; i++) { int e = (int)(m.u() & 1); MC_CHECK(r->get(i) == e, "bernoulli(%d): bit %d is %d, expected %d", LEN[a], i, (int)r->get(i), e); } drop(r); resync(g, m, 0, "bernoulli"); break; }
  }
  id = id * 1000 + o * 20 + a;
}
template <class G> static void sequence(int depth) {
  static const u32 S[] = {5489, 1, 0xFFFFFFFFu}; static const int F[] = {0x00, 0x3F, 0xFF}; int s = mc::choose(3), pos = mc::choose(2) * 622; mc::g_fill = F[s]; MC_NOTE("seed %u, position %d", S[s], pos); G *g; { mc::Lib l; g = new G(S[s]); } Ref19 m; m.m.seed(S[s]); for (int i = 0; i < pos; i++) { g->rand_mask(1); m.u(); } g_set = -1; uint64_t id = s * 2 + (pos > 0);
  for (int d = 0; d < depth; d++) { op(*g, m, id); std::mt19937 c = m.m; mc::state(mc::Hash().u(c()).u(c()).u(g_set).h); } resync(*g, m, 0, "the history"); mc::outcome(id); { mc::Lib l; g_p = {}; delete g; } mc::heap_empty("after the draws");
}
MC_SCENARIO(mt_sequences) { sequence<susa::mt>(mc::pick(2, 3)); }
MC_SCENARIO(rng_sequences) { sequence<susa::rng>(mc::pick(3, 4)); }
MC_SCENARIO(all_masks) { int k = mc::choose(66); u32 mask = k < 32 ? 1u << k : k < 64 ? (k == 63 ? ~0u : (1u << (k - 31)) - 1) : k == 64 ? 0xAAAAAAAAu : 0x12345678u; MC_NOTE("mask %#x", mask); susa::mt a(77); susa::rng b(77); Ref19 m, n; m.m.seed(77); n.m.seed(77); mc::step(); for (int i = 0; i < 700; i++) { u32 e = m.u() & mask; n.u(); MC_CHECK(a.rand_mask(mask) == e && b.rand_mask(mask) == e, "draw %d with mask %#x is not %#x", i, mask, e); } mask_block(a, m, mask, 50); mask_block(b, n, mask, 50); mc::state(mask); mc::outcome(mask); }
// blocks of every kind around word, buffer and state sizes; long probability vectors
MC_SCENARIO(blocks) {
  int n = mc::any<int>({4, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 622, 623, 624, 625, 626, 1000, 1023, 1024, 1025, 1247, 1248, 1249, 2047, 2048, 4096, 4097, 65535, 65536, 65537, 70001}), kind = mc::choose(7), pos = mc::choose(3) * 311; if (n > 5000 && !mc::thorough()) mc::assume(pos == 311 && (n & 7) == 1 - (n == 65536)); MC_NOTE("block of %d numbers, kind %d, after %d draws", n, kind, pos); mc::g_fill = pos ? 0xFF : 0x3F;
  susa::mt p(4357u); susa::rng q(4357u); Ref19 a, b; a.m.seed(4357u); b.m.seed(4357u); for (int i = 0; i < pos; i++) { p.rand_mask(1); q.rand_mask(1); a.u(); b.u(); } mc::step();
  if (kind == 0) { mask_block(p, a, 0xFFFFFFFFu, n); mask_block(q, b, 0xFFFFFFFFu, n); } else if (kind == 1) { rand_block(p, a, n); rand_block(q, b, n); } else if (kind == 2) { randn_block(p, a, n); randn_block(q, b, n); } else if (kind == 3) { mask_block(q, b, 1, n); mask_block(p, a, 1, n); }
  else if (kind == 4) { auto *r = lib([&] { return q.bernoulli((size_t)n); }); shape(r, n, 1, "bernoulli"); for (int i = 0; i < n; i++) { int e = (int)(b.u() & 1); MC_CHECK(r->get(i) == e, "bernoulli(%d): bit %d is %d, expected %d", n, i, (int)r->get(i), e); } drop(r); resync(q, b, 0, "bernoulli"); }
  else if (kind == 5) { int c = n % 3 == 0 ? 3 : n % 2 == 0 ? 2 : 1; auto *r = lib([&] { return q.rand((u32)(n / c), (u32)c); }); shape(r, n / c, c, "rand"); for (int i = 0; i < n; i++) { double e = b.r1(); MC_CHECK(near_(r->get(i), e), "rand(%d,%d): number %d is %.17g, expected %.17g", n / c, c, i, r->get(i), e); } drop(r); resync(q, b, 0, "rand(r,c)"); }
  else { std::vector<double> v{0.25, 0.25, 0.1, 0.15, 0.25}; auto *P = mk_(v, pos > 0); auto *r = lib([&] { return p.nonuniform(*P, (u32)n); }); shape(r, n, 1, "nonuniform"); for (int i = 0; i < n; i++) { double u = a.r3(); int e = interval(v, u); MC_CHECK((int)r->get(i) == (e < 0 ? 0 : e), "nonuniform(block of %d): draw %d is %u for uniform %.17g, expected %d", n, i, r->get(i), u, e); } drop(r); drop(P); resync(p, a, 1, "nonuniform"); }
  mc::state(mc::Hash().u(n).u(kind).u(pos).h); mc::outcome(mc::Hash().u(n).u(kind).u(pos).h);
}
MC_SCENARIO(long_vectors) {
  int n = mc::any<int>({17, 64, 65, 255, 256, 257, 300, 1000, 4097}), shape_ = mc::choose(4), w = mc::choose(3); bool row = mc::flip(); if (n > 1000 && !mc::thorough()) mc::assume(w != 1 && shape_ == 2 && row); MC_NOTE("%d probabilities of shape %d, draw form %d", n, shape_, w); std::vector<double> v(n); double s = 0; for (int i = 0; i < n; i++) { v[i] = shape_ == 0 ? 1 : shape_ == 1 ? (i >= n - 5 ? i - n + 6 : 0) : shape_ == 2 ? 1 + (i * 7919ll) % n : i == n / 2 ? 0.5 : 0.001; s += v[i]; } for (auto &x : v) x = std::floor(x / s * 4294967296.0) / 4294967296.0;
  susa::mt p(99u); Ref19 a; a.m.seed(99u); auto *P = mk_(v, row); auto so = v; std::sort(so.begin(), so.end()); mc::step();
  if (w == 2) { auto *r = lib([&] { return p.nonuniform(*P, 500u); }); for (int i = 0; i < 500; i++) { double u = a.r3(); int e = interval(v, u); MC_CHECK((int)r->get(i) == (e < 0 ? 0 : e), "nonuniform(%d probabilities, 500): draw %d is %u for uniform %.17g, expected %d", n, i, r->get(i), u, e); } drop(r); }
  else { if (w) { mc::Lib l; p.set_probabilities(*P); } for (int i = 0; i < (n > 1000 ? 5 : n > 300 ? 20 : 100); i++) { double u = a.r3(); u32 x; { mc::Lib l; x = w ? p.nonuniform() : p.nonuniform(*P); } int k = interval(so, u); MC_CHECK(k < 0 ? x == 0 : x < v.size() && v[x] == so[k], "nonuniform of %d probabilities: index %u for uniform %.17g", n, x, u); } }
  drop(P); mc::state(mc::Hash().u(n).u(shape_).u(w).h); mc::outcome(mc::Hash().u(n).u(shape_).u(w).u(row).h);
}
MC_SCENARIO(long_runs) { static const u32 S[] = {0, 1, 5489, 0xFFFFFFFFu, 2, 3, 12345, 0x80000000u, 0x7FFFFFFF, 99, 4357, 777}; u32 s = S[mc::choose(mc::pick(4, 12))]; int n = mc::pick(20000, 1000000), w = mc::choose(4); MC_NOTE("seed %u, kind %d", s, w); Ref19 a, b; a.m.seed(s); b.m.seed(s); susa::mt p(s); susa::rng q(s); mc::step();
  if (w == 0) { rand_block(p, a, n); rand_block(q, b, n); } else if (w == 1) { randn_block(p, a, n); randn_block(q, b, n + 1); } else if (w == 2) { for (int i = 0; i < n; i++) { double x = q.randn(), e, f; b.pair(e, f); MC_CHECK(near_(x, e), "randn() number %d is %.17g, expected %.17g", i, x, e); } } else { std::vector<double> v = {0.25, 0.25, 0.1, 0.15, 0.25}; auto *P = mk_(v, false); { mc::Lib l; p.set_probabilities(*P); } std::map<int, u32> seen; auto so = v; std::sort(so.begin(), so.end()); for (int i = 0; i < n / 10; i++) { double r = a.r3(); u32 x; { mc::Lib l; x = i % 16 ? p.nonuniform() : p.nonuniform(*P); } check_single(v, r, x, "nonuniform"); int k = interval(so, r); if (!seen.count(k)) { for (auto &t : seen) MC_CHECK(t.second != x, "index %u is drawn for two intervals", x); seen[k] = x; } MC_CHECK(seen[k] == x, "interval %d gives index %u and index %u", k, seen[k], x); } drop(P); }
  mc::state(mc::Hash().u(s).u(w).h); mc::outcome(mc::Hash().u(s).u(w).h); }
MC_MAIN
