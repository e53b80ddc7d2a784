// C19: ccode::decode_bcjr against enumeration of all code words.
//MC-VARIANT asan: -O1 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND every generator pair for memory 1 and 2, triples for memory 1, with every received block over {-1.5,0,0.75} (two stages: {-1.5,-0.25,0,1}) up to 4 (5) stages for memory 1, 3 (4) for memory 2; fixed codes up to memory 4, up to 8 outputs, up to 10 stages with structured blocks; codes of up to 33 outputs and of up to 9 memories; received values and Eb/N0 scaled by 2^-300 to 2^300; two noise levels and six a-priori probabilities (0, 1e-9, 0.2, 0.5, 0.9, 1-1e-9); blocks of up to 300 (1000) stages (also with strong noise at Eb/N0 up to 8, where the likelihoods of every single step relative to the likeliest one are representable) against a log-domain forward-backward recursion; every noiseless terminated code word up to 7 (9) bits at Eb/N0 up to 1000; decoding repeated and after other calls on the same object; fresh memory filled with three patterns
//MC-ASSUME the encoder starts in state zero and ends in state zero (the documented use); likelihoods of the block within the range of double; entries of the result beyond the number of information bits are unspecified; the output is the likelihood ratio P(1)/P(0) whose logarithm the caller takes
#include "mat.h"
typedef uint32_t u32; typedef long double LD;
static u32 oct(u32 v) { u32 r = 0, p = 1; while (v) { r += (v & 7) * p; p *= 10; v >>= 3; } return r; }
struct Code { u32 n, m; std::vector<u32> g; };
static std::vector<int> word(const Code &c, u32 u, int L, u32 &end) { u32 s = 0; std::vector<int> o; for (int t = 0; t < L; t++) { u32 b = (u >> t) & 1, r = s | (b << c.m); for (u32 g : c.g) o.push_back(__builtin_popcount(r & g) & 1); s = r >> 1; } end = s; return o; }
static std::vector<double> brute(const Code &c, const std::vector<double> &y, double eb, double ck) {
  int L = (int)y.size() / c.n; std::vector<LD> p1(L, 0), p0(L, 0);
  for (u32 u = 0; u < (1u << L); u++) { u32 end; auto w = word(c, u, L, end); if (end) continue; LD e = 0; for (size_t i = 0; i < w.size(); i++) e += (w[i] ? 1 : -1) * (LD)y[i]; LD p = std::exp(2 * (LD)eb * e); for (int t = 0; t < L; t++) p *= (u >> t) & 1 ? ck : 1 - ck; for (int t = 0; t < L; t++) ((u >> t) & 1 ? p1 : p0)[t] += p; }
  std::vector<double> r; for (int t = 0; t < L; t++) r.push_back((double)(p1[t] / p0[t])); return r;
}
// log-domain forward-backward over the trellis: the same posterior for blocks too long to enumerate (checked against the enumeration on short ones)
static LD ladd(LD a, LD b) { if (a < b) std::swap(a, b); return b < -1e4000L ? a : a + log1pl(expl(b - a)); }
// *room: how small the likelihoods of one step become, relative to the largest possible metric, to the likeliest state before and to the likeliest one after
static std::vector<LD> fb(const Code &c, const std::vector<double> &y, double eb, double ck, LD *room = nullptr) {
  int S = 1 << c.m, L = (int)y.size() / c.n; const LD N = -1e4900L; std::vector<std::vector<LD>> A(L + 1, std::vector<LD>(S, N)), B = A; A[0][0] = B[L][0] = 0;
  auto g = [&](int t, int s, int b) { u32 r = (u32)s | ((u32)b << c.m); LD e = 0; for (u32 j = 0; j < c.n; j++) e += (__builtin_popcount(r & c.g[j]) & 1 ? 1 : -1) * (LD)y[t * c.n + j]; return 2 * (LD)eb * e + logl(b ? (LD)ck : 1 - (LD)ck); }; auto nx = [&](int s, int b) { return (int)(((u32)s | ((u32)b << c.m)) >> 1); };
  for (int t = 0; t < L; t++) for (int s = 0; s < S; s++) if (A[t][s] > -1e4000L) for (int b = 0; b < 2; b++) { LD &q = A[t + 1][nx(s, b)]; q = ladd(q, A[t][s] + g(t, s, b)); }
  for (int t = L - 1; t >= 0; t--) for (int s = 0; s < S; s++) for (int b = 0; b < 2; b++) if (B[t + 1][nx(s, b)] > -1e4000L) B[t][s] = ladd(B[t][s], B[t + 1][nx(s, b)] + g(t, s, b));
  if (room) { *room = 0; for (int t = 0; t < L; t++) { LD am = N, bm = N, gm = 0, f = N, k = N, q[2] = {N, N}; for (u32 j = 0; j < c.n; j++) gm += 2 * (LD)eb * std::fabs((LD)y[t * c.n + j]); for (int s = 0; s < S; s++) am = std::max(am, A[t][s]), bm = std::max(bm, B[t + 1][s]);
    for (int s = 0; s < S; s++) for (int b = 0; b < 2; b++) { LD v = g(t, s, b) - gm, x = A[t][s] - am, z = B[t + 1][nx(s, b)] - bm; f = std::max(f, x + v); k = std::max(k, z + v); q[b] = std::max(q[b], x + v + z); } *room = std::min(*room, std::min(f, k)); for (int b = 0; b < 2; b++) if (q[b] > -1e4000L) *room = std::min(*room, q[b]); } }
  std::vector<LD> r; for (int t = 0; t < L; t++) { LD p[2] = {N, N}; for (int s = 0; s < S; s++) for (int b = 0; b < 2; b++) if (A[t][s] > -1e4000L && B[t + 1][nx(s, b)] > -1e4000L) p[b] = ladd(p[b], A[t][s] + g(t, s, b) + B[t + 1][nx(s, b)]); r.push_back(p[1] < -1e4000L ? N : p[1] - p[0]); } return r;
}
static std::string vs(const std::vector<double> &v) { std::string s; char b[32]; for (double x : v) { snprintf(b, sizeof b, " %g", x); s += b; } return s; }
static double g_s = 1; // power of two that scales the received values; Eb/N0 is divided by it
struct Unscale { ~Unscale() { g_s = 1; } }; // an execution may be abandoned half way
static void decode(susa::ccode &k, const Code &c, const std::vector<double> &y, double eb, double ck, bool row, const std::vector<double> &e) {
  mc::step(); susa::matrix<double> *Y, *R; { mc::Lib l; Y = new susa::matrix<double>(row ? 1 : y.size(), row ? y.size() : 1); for (size_t i = 0; i < y.size(); i++) (*Y)(i) = y[i] * g_s; R = new susa::matrix<double>(ck == 0.5 ? k.decode_bcjr(*Y, eb / g_s) : k.decode_bcjr(*Y, eb / g_s, ck)); }
  std::string gs; for (u32 g : c.g) gs += " " + std::to_string(oct(g)); MC_CHECK(R->size() >= e.size(), "the result has %zu elements for %zu bits", R->size(), e.size());
  for (size_t t = 0; t < e.size(); t++) { double x = R->get(t); MC_CHECK(e[t] == 0 ? x == 0 : std::fabs(x - e[t]) <= 1e-8 * e[t], "memory %u, generators%s, received%s, Eb/N0 %g, prior %g: bit %zu has likelihood ratio %.12g, expected %.12g", c.m, gs.c_str(), vs(y).c_str(), eb, ck, t, x, e[t]); }
  for (size_t i = 0; i < y.size(); i++) MC_CHECK(Y->get(i) == y[i] * g_s, "decode changed its input"); mc::Lib l; delete Y; delete R;
}
static susa::ccode *make(const Code &c) { mc::Lib l; susa::ccode *k = new susa::ccode(c.n, 1, c.m); for (u32 j = 0; j < c.n; j++) k->set_generator(oct(c.g[j]), j); return k; }
static void run(const Code &c, const std::vector<double> &y, double eb, double ck, int prior) {
  static const int F[] = {0x00, 0x3F, 0xBF}; mc::g_fill = F[(y.size() + (y[0] > 0) + (int)c.g[0]) % 3]; susa::ccode *k = make(c); MC_NOTE("memory %u, generators %u.., received%s, Eb/N0 %g, prior %g", c.m, oct(c.g[0]), vs(y).c_str(), eb, ck);
  if (prior == 1) { k->set_internal_state(1); } if (prior == 2) { mc::Lib l; susa::matrix<double> z(c.n * 5, 1, 1.0); k->decode_bcjr(z, 2.0); susa::matrix<uint8_t> b(3, 1, (uint8_t)1); k->encode(b); }
  auto e = brute(c, y, eb, ck); decode(*k, c, y, eb, ck, y.size() % 3 == 1, e); if (prior == 2) decode(*k, c, y, eb, ck, false, e); mc::Hash h; for (double x : e) h.u((uint64_t)std::llround(std::log(x + 1e-30) * 1e3)); mc::state(h.h); for (double x : y) h.d(x); for (u32 g : c.g) h.u(g); mc::outcome(h.d(eb).d(ck).h); { mc::Lib l; delete k; } mc::heap_empty("after decoding");
}
static void received(u32 n, u32 m, int maxL, std::vector<double> V, int nl = 2) { Code c{n, m, {}}; for (u32 j = 0; j < n; j++) c.g.push_back((u32)mc::range(1, (2 << m) - 1)); int L = mc::range(1, maxL); std::vector<double> y(L * n); for (auto &q : y) q = V[mc::choose((int)V.size())]; int lv = mc::choose(nl); run(c, y, lv == 1 ? 2.5 : 0.3, lv == 2 ? 0.25 : lv == 3 ? 1e-9 : lv == 4 ? 0 : 0.5, L % 3); }
MC_SCENARIO(m1_pairs) { received(2, 1, mc::pick(4, 5), {-1.5, 0, 0.75}, 5); }
MC_SCENARIO(m1_pairs_fine) { received(2, 1, 2, {-1.5, -0.25, 0, 1}, 3); }
MC_SCENARIO(scaled) { Unscale un; static const int E[] = {8, -8, 3, 30, -30, 300, -300}; g_s = std::ldexp(1.0, E[mc::choose(7)]); received(2, 1 + mc::choose(2), mc::pick(3, 4), {-1, 0.75}, 3); } // the same posteriors at every scale of received values and Eb/N0
MC_SCENARIO(m2_pairs) { received(2, 2, mc::pick(4, 5), {-1, 0.75}, 3); }
MC_SCENARIO(m2_pairs_fine) { received(2, 2, mc::pick(3, 4), {-1.5, 0, 0.75}); }
MC_SCENARIO(m1_triples) { received(3, 1, mc::pick(2, 3), {-1, 0.75}, 3); }
MC_SCENARIO(fixed) {
  static const Code C[] = {{2, 2, {7, 5}}, {2, 3, {15, 11}}, {3, 2, {7, 7, 5}}, {2, 4, {19, 29}}, {4, 2, {7, 5, 6, 3}}, {8, 2, {7, 5, 6, 3, 1, 4, 7, 5}}, {1, 1, {3}}, {1, 3, {13}}};
  const Code &c = C[mc::choose(8)]; int L = mc::range(1, mc::pick(8, 10)), w = mc::choose(mc::pick(24, 64)), lv = mc::choose(3), p = mc::choose(6); std::vector<double> y(L * c.n); for (size_t i = 0; i < y.size(); i++) { uint64_t q = mc::Hash::mix(i * 977 + w * 131071 + 5); y[i] = w == 0 ? 0 : w == 1 ? 1 : ((int)(q % 401) - 200) / 100.0; } run(c, y, lv == 0 ? 0.1 : lv == 1 ? 1 : 4, p == 0 ? 0.5 : p == 1 ? 0.2 : p == 2 ? 0.9 : p == 3 ? 1e-9 : p == 4 ? 0 : 1 - 1e-9, w % 3);
}
static void long_block(bool loud) {
  static const Code C[] = {{2, 2, {7, 5}}, {2, 1, {3, 2}}, {3, 3, {15, 11, 13}}, {2, 4, {19, 29}}, {2, 6, {0133, 0171}}}; static const double EB[] = {0.3, 1, 3}, EL[] = {1, 3, 8}, CK[] = {0.5, 0.3, 0.9}; const Code &c = C[mc::choose(5)]; int L = mc::any<int>({9, 10, 31, 64, 65, 127, 257, mc::pick(300, 1000)}), w = mc::choose(mc::pick(4, 10)), lv = mc::choose(3); if (c.m == 6) { mc::assume(L <= mc::pick(65, 300)); } if (loud) { mc::assume(L > 9 && c.m < 6); } double eb = (loud ? EL : EB)[lv], ck = CK[(w + lv) % 3];
  std::vector<int> u(L, 0); for (int t = 0; t + (int)c.m < L; t++) u[t] = (int)(mc::Hash::mix(t * 31 + w) & 1); std::vector<double> y; u32 s = 0; for (int t = 0; t < L; t++) { u32 r = s | ((u32)u[t] << c.m); for (u32 g : c.g) { uint64_t q = mc::Hash::mix(y.size() * 977 + w * 131071 + 5); y.push_back((__builtin_popcount(r & g) & 1 ? 1 : -1) + (w % 2 ? ((int)(q % 401) - 200) / 250.0 : ((int)(q % 401) - 200) / (loud ? 60.0 : 110.0))); } s = r >> 1; }
  MC_NOTE("memory %u, %d stages, block family %d, Eb/N0 %g, prior %g", c.m, L, w, eb, ck); LD room = 0; auto e = fb(c, y, eb, ck, &room); if (loud) mc::assume(room > -650); else if (L <= 10) { auto b = brute(c, y, eb, ck); for (int t = 0; t < L; t++) MC_CHECK(b[t] == 0 ? e[t] < -1e4000L : std::fabs((double)(e[t] - std::log((LD)b[t]))) < 1e-9, "reference decoders disagree at bit %d", t); }
  static const int F[] = {0x00, 0x3F, 0xBF}; mc::g_fill = F[w % 3]; susa::ccode *k = make(c); susa::matrix<double> *Y, *R; mc::step(); { mc::Lib l; Y = new susa::matrix<double>(w & 1 ? 1 : y.size(), w & 1 ? y.size() : 1); for (size_t i = 0; i < y.size(); i++) (*Y)(i) = y[i]; R = new susa::matrix<double>(ck == 0.5 ? k->decode_bcjr(*Y, eb) : k->decode_bcjr(*Y, eb, ck)); }
  for (int t = 0; t < L; t++) { double x = R->get(t); if (std::fabs((double)e[t]) > 600 && e[t] > -1e4000L) { MC_CHECK(x == x && (x > 1) == (e[t] > 0), "memory %u, %d stages, family %d, Eb/N0 %g, prior %g: bit %d has ratio %.12g, expected log ratio %.12Lg", c.m, L, w, eb, ck, t, x, e[t]); continue; } MC_CHECK(e[t] < -1e4000L ? x == 0 : x == x && x > 0 && std::fabs((double)(logl((LD)x) - e[t])) < 1e-7, "memory %u, %d stages, family %d, Eb/N0 %g, prior %g: bit %d has ratio %.12g, expected log ratio %.12Lg", c.m, L, w, eb, ck, t, x, e[t]); }
  mc::state(mc::Hash().u(c.m).u(L).u(w).u(lv).h); mc::outcome(mc::Hash().u(c.m).u(L).u(w).u(lv).h); { mc::Lib l; delete k; delete Y; delete R; } mc::heap_empty("after decoding");
}
MC_SCENARIO(long_blocks) { long_block(false); }
MC_SCENARIO(long_loud_blocks) { long_block(true); } // strong noise at a high Eb/N0: the likelihoods of a few dozen stages together are not representable
// many outputs and many memories
MC_SCENARIO(wide) {
  static const Code C[] = {{9, 2, {7, 5, 6, 3, 1, 4, 7, 5, 6}}, {12, 1, {3, 2, 1, 3, 2, 1, 3, 3, 3, 2, 2, 1}}, {16, 3, {15, 13, 11, 9, 7, 5, 3, 1, 2, 4, 6, 8, 10, 12, 14, 15}}, {33, 1, {}}, {2, 8, {0561, 0753}}, {2, 9, {01157, 01735}}, {3, 7, {0225, 0331, 0367}}, {1, 8, {0400}}};
  Code c = C[mc::choose(8)]; if (c.g.empty()) for (u32 j = 0; j < c.n; j++) c.g.push_back(1 + j % 3); int L = c.m > 4 ? (int)c.m + mc::range(1, mc::pick(3, 5)) : mc::range(1, mc::pick(6, 9)), w = mc::choose(mc::pick(6, 24)), lv = mc::choose(3), p = mc::choose(3); if (c.m > 7) mc::assume(c.m == mc::pick(8, 9) || c.n == 1 || w == 1 ? w > 0 && w < 3 && lv == 1 && p == 1 && L == (int)c.m + 1 : false); std::vector<double> y(L * c.n);
  for (size_t i = 0; i < y.size(); i++) { uint64_t q = mc::Hash::mix(i * 977 + w * 131071 + 5); y[i] = w == 0 ? 0 : w == 1 ? ((i % c.n) < c.n / 2 ? -1 : 1) : ((int)(q % 401) - 200) / 150.0; } run(c, y, (lv == 0 ? 0.05 : lv == 1 ? 0.5 : 2) / (c.n > 8 ? 4 : 1), p == 0 ? 0.5 : p == 1 ? 0.2 : 0.9, w % 3);
}
MC_SCENARIO(noiseless) {
  static const Code C[] = {{2, 2, {7, 5}}, {2, 1, {3, 2}}, {3, 2, {7, 7, 5}}, {2, 3, {15, 11}}, {4, 4, {29, 19, 27, 31}}, {10, 2, {4, 4, 4, 4, 4, 4, 4, 4, 7, 5}}}; static const double EB[] = {0.5, 2, 10, 100, 1000}; const Code &c = C[mc::choose(6)]; double eb = EB[mc::choose(5)]; int L = mc::range(1, mc::pick(7, 9)); u32 u = 0; for (int i = 0; i < L; i++) u |= (u32)mc::choose(2) << i;
  susa::ccode *k = make(c); std::vector<double> y; { mc::Lib l; susa::matrix<uint8_t> b(L + c.m, 1, (uint8_t)0); for (int i = 0; i < L; i++) b(i) = (u >> i) & 1; susa::matrix<uint8_t> w = k->encode(b); mc::NoLib n; for (size_t i = 0; i < w.size(); i++) y.push_back(w(i) ? 1 : -1); }
  MC_NOTE("word 0x%x of %d bits, memory %u, Eb/N0 %g", u, L, c.m, eb); susa::matrix<double> *Y, *R; mc::step(); { mc::Lib l; Y = new susa::matrix<double>(y.size(), 1); for (size_t i = 0; i < y.size(); i++) (*Y)(i) = y[i]; R = new susa::matrix<double>(k->decode_bcjr(*Y, eb)); }
  for (int i = 0; i < L; i++) { double x = R->get(i); MC_CHECK(x == x && ((u >> i) & 1 ? x > 1 : x < 1), "bit %d of the noiseless word 0x%x decodes with ratio %g", i, u, x); } for (u32 i = 0; i < c.m; i++) MC_CHECK(R->get(L + i) < 1, "tail bit %u decodes with ratio %g", i, R->get(L + i));
  mc::state(mc::Hash().u(u).u(L).u(c.m).u(c.n).h); mc::outcome(mc::Hash().u(u).u(L).u(c.m).u(c.n).d(eb).h); { mc::Lib l; delete Y; delete R; delete k; } mc::heap_empty("after decoding");
}
MC_MAIN
