// C18: convolutional encoder and trellis look-ups.
//MC-VARIANT asan: -O1 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND every pair of generators for memories 1-4 (5) (all triples for 1-2, single for 1-5) with every input word up to 7-9 (8-11) bits, in both orientations; words of up to 33000 (70001) bits for five codes; impulses, ramps and steps of 40 bits for memories up to 31 and up to 16 outputs, and up to 1000 outputs for four memories; every state and input of the look-ups; all histories of depth 3 (4), and of depth 5 (6) merged by reached representation, over three codes of set generator / encode / set state / look up / copy / assign / self-assign / default construct; fresh memory filled with a pattern
//MC-ASSUME one input (k = 1, the library stops otherwise), at most eight outputs for the packed next_output look-up, generators of at most 29 significant bits (their octal notation has to fit the 32-bit argument)
#include "mat.h"
typedef susa::matrix<uint8_t> MB; typedef uint32_t u32;
static u32 oct(u32 v) { u32 r = 0, p = 1; while (v) { r += (v & 7) * p; p *= 10; v >>= 3; } return r; }
static int par(u32 x) { return __builtin_popcount(x) & 1; }
struct Code { u32 n = 0, m = 0; std::vector<u32> g; };
static std::vector<int> model(const Code &c, const std::vector<int> &in) {
  std::vector<int> o; for (size_t t = 0; t < in.size(); t++) for (u32 j = 0; j < c.n; j++) { int b = 0; for (u32 i = 0; i <= c.m && i <= t; i++) b ^= (in[t - i] != 0) & (c.g[j] >> (c.m - i)); o.push_back(b & 1); } return o;
}
static void encode(susa::ccode &k, const Code &c, const std::vector<int> &in, bool row, const char *who = "code") {
  std::string s; for (int b : in) s += b ? '1' : '0'; if (in.empty()) return; MC_NOTE("%s.encode(%s)", who, s.c_str()); mc::step();
  MB *I, *O; { mc::Lib l; I = new MB(row ? 1 : in.size(), row ? in.size() : 1); for (size_t i = 0; i < in.size(); i++) (*I)(i) = (uint8_t)in[i]; O = new MB(k.encode(*I)); }
  auto e = model(c, in); shape_is(*O, e.size(), 1, "encoded word"); std::string gs; for (u32 g : c.g) gs += " " + std::to_string(oct(g));
  for (size_t i = 0; i < e.size(); i++) MC_CHECK(O->get(i) == e[i], "memory %u, generators%s: bit %zu of the code word of %s is %d, expected %d", c.m, gs.c_str(), i, s.c_str(), (int)O->get(i), e[i]);
  for (size_t i = 0; i < in.size(); i++) MC_CHECK(I->get(i) == in[i], "encode changed its input");
  mc::Lib l; delete I; delete O;
}
static void lookups(susa::ccode &k, const Code &c, u32 limit = 64) {
  u32 S = c.m < 20 ? (1u << c.m) : 1u << 20;
  for (u32 q = 0; q < std::min(S, limit); q++) { u32 s = q; if (c.m > 6) s = (u32)(mc::Hash::mix(q + 1) & ((1ull << c.m) - 1));   // spread over large state spaces
    for (int b = 0; b < 2; b++) { u32 ns = k.next_state(s, b), e = (s >> 1) | ((u32)b << (c.m - 1)); MC_CHECK(ns == e, "memory %u: next_state(%u,%d) = %u, expected %u", c.m, s, b, ns, e);
      if (c.n <= 8) { u32 o = k.next_output(s, b), w = 0; for (u32 j = 0; j < c.n; j++) w |= (u32)par((s | ((u32)b << c.m)) & c.g[j]) << j; MC_CHECK(o == w, "memory %u: next_output(%u,%d) = %u, expected %u", c.m, s, b, o, w); } } }
  float r = k.rate(); if (c.n) MC_CHECK(std::fabs(r - 1.0f / c.n) < 1e-6, "rate() of %u outputs is %g", c.n, r);
}
static void one(u32 n, u32 m, int len, bool all) {
  Code c; c.n = n; c.m = m; c.g.resize(n); susa::ccode *k; { mc::Lib l; k = new susa::ccode(n, 1, m); } std::string s;
  for (u32 j = 0; j < n; j++) { c.g[j] = all ? (u32)mc::choose(2 << m) : 0; k->set_generator(oct(c.g[j]), j); s += " " + std::to_string(oct(c.g[j])); } MC_NOTE("ccode(%u,1,%u), generators%s", n, m, s.c_str());
  lookups(*k, c); std::vector<int> in;
  for (int L = 1; L <= len; L++) for (int w = 0; w < (1 << L); w++) { in.clear(); for (int i = 0; i < L; i++) in.push_back((w >> i) & 1 ? 1 + (i == 2) : 0); encode(*k, c, in, w & 1); }
  lookups(*k, c); mc::Hash h; h.u(n).u(m); for (u32 g : c.g) h.u(g); mc::state(h.h); mc::outcome(h.h); { mc::Lib l; delete k; } mc::heap_empty("after the code was destroyed");
}
MC_SCENARIO(pairs) { u32 m = mc::range(1, mc::pick(4, 5)); one(2, m, m <= 2 ? mc::pick(9, 11) : mc::pick(7, 8), true); }
MC_SCENARIO(triples) { u32 m = mc::range(1, 2); one(3, m, mc::pick(5, 7), true); }
MC_SCENARIO(singles) { u32 m = mc::range(1, 5); one(1, m, mc::pick(7, 10), true); }
static void big(u32 m, u32 n) {
  int w = mc::choose(4), g = mc::choose(4);
  Code c; c.n = n; c.m = m; u32 mask = m >= 28 ? 0x1fffffff : ((2u << m) - 1); susa::ccode *k; { mc::Lib l; k = new susa::ccode(n, 1, m); }
  for (u32 j = 0; j < n; j++) { u32 v = g == 0 ? mask : g == 1 ? (1u << (j % (std::min(m, 28u) + 1))) : g == 2 ? (u32)mc::Hash::mix(j + 1) & mask : (mask >> (j % (m + 1))); c.g.push_back(v); k->set_generator(oct(v), j); }
  MC_NOTE("ccode(%u,1,%u), generator family %d, word %d", n, m, g, w); lookups(*k, c, 200);
  std::vector<int> in; for (int i = 0; i < 40; i++) in.push_back(w == 0 ? i == 0 : w == 1 ? 1 : w == 2 ? i % 3 == 0 : (int)(mc::Hash::mix(i) & 1)); encode(*k, c, in, g & 1); encode(*k, c, in, w & 1); mc::Hash h; h.u(n).u(m).u(g); mc::state(h.h); mc::outcome(h.u(w).h); { mc::Lib l; delete k; } mc::heap_empty("after the code was destroyed");
}
MC_SCENARIO(large) { u32 m = (u32)mc::any<int>({1, 2, 6, 7, 8, 9, 15, 16, 17, 23, 28, 29, 30, 31}); big(m, (u32)mc::any<int>({1, 2, 3, 7, 8, 9, 16})); }
MC_SCENARIO(many_outputs) { u32 m = (u32)mc::any<int>({1, 3, 9, 31}); big(m, (u32)mc::any<int>({31, 32, 33, 64, 127, 128, 255, 256, 257, 300, 1000})); }
MC_SCENARIO(long_words) { // the register is exact after any number of bits
  static const Code C[] = {{2, 2, {7, 5}}, {1, 1, {3}}, {3, 3, {15, 11, 13}}, {2, 6, {0133, 0171}}, {9, 8, {0x1ff, 0x101, 1, 0x100, 0x155, 0xAA, 0x1F0, 0x0F, 0x111}}}; const Code &c = C[mc::choose(5)]; int len = mc::any<int>({255, 257, 1000, 4097, mc::pick(33000, 70001)}), w = mc::choose(3); susa::ccode *k; { mc::Lib l; k = new susa::ccode(c.n, 1, c.m); for (u32 j = 0; j < c.n; j++) k->set_generator(oct(c.g[j]), j); }
  std::vector<int> in(len); for (int i = 0; i < len; i++) in[i] = w == 0 ? i == len - 5 || i == 0 : w == 1 ? (int)(mc::Hash::mix(i) & 1) : 1 + i % 255; MC_NOTE("ccode(%u,1,%u), %d bits of family %d", c.n, c.m, len, w); MB *I, *O; mc::step(); { mc::Lib l; I = new MB(w == 1 ? 1 : len, w == 1 ? len : 1); for (int i = 0; i < len; i++) (*I)(i) = (uint8_t)in[i]; O = new MB(k->encode(*I)); }
  auto e = model(c, in); shape_is(*O, e.size(), 1, "encoded word"); for (size_t i = 0; i < e.size(); i++) MC_CHECK(O->get(i) == e[i], "memory %u, %d bits of family %d: bit %zu of the code word is %d, expected %d", c.m, len, w, i, (int)O->get(i), e[i]); mc::state(mc::Hash().u(c.m).u(len).u(w).h); mc::outcome(mc::Hash().u(c.m).u(c.n).u(len).u(w).h); { mc::Lib l; delete I; delete O; delete k; } mc::heap_empty("after the code was destroyed");
}
struct World { susa::ccode *k[3]; Code c[3];
  World() { mc::Lib l; k[0] = new susa::ccode(2, 1, 2); k[1] = new susa::ccode(3, 1, 1); k[2] = new susa::ccode(); mc::NoLib n; c[0] = {2, 2, {7, 5}}; c[1] = {3, 1, {3, 1, 2}}; for (int i = 0; i < 2; i++) for (u32 j = 0; j < c[i].n; j++) k[i]->set_generator(oct(c[i].g[j]), j); }
  uint64_t h(int d) { mc::Hash x; x.u(d); for (auto &q : c) { x.u(q.n).u(q.m); for (u32 g : q.g) x.u(g); } return x.h; } };
static void history(int depth, bool prune) {
  World w; static const int W[3][5] = {{1, 0, 1, 1, 0}, {1, 1, 1, 1, 1}, {0, 0, 1, 0, 0}};
  for (int d = 0; d < depth; d++) {
    int o = mc::choose(8), i = mc::choose(3), j; char a = 'a' + i; Code &c = w.c[i]; mc::step(); static const char *names[3] = {"a", "b", "c"};
    switch (o) {
      case 0: { mc::assume(c.n); j = mc::choose((int)c.n); u32 g = (u32)mc::any<int>({1, 6}) & ((2u << c.m) - 1); MC_NOTE("%c.set_generator(%u, %d)", a, oct(g), j); w.k[i]->set_generator(oct(g), j); c.g[j] = g; break; }
      case 1: { mc::assume(c.n); j = mc::choose(3); encode(*w.k[i], c, std::vector<int>(W[j], W[j] + 5), j & 1, names[i]); break; }
      case 2: { mc::assume(c.n); j = mc::choose(2); MC_NOTE("%c.set_internal_state(%d)", a, j ? 3 : 1); w.k[i]->set_internal_state(j ? 3 : 1); break; }
      case 3: { j = mc::choose(3); MC_NOTE("%c = %c", a, 'a' + j); mc::Lib l; *w.k[i] = *w.k[j]; mc::NoLib n; if (i != j) w.c[i] = w.c[j]; break; }
      case 4: { j = mc::choose(3); mc::assume(i != j); MC_NOTE("%c rebuilt as a copy of %c", a, 'a' + j); { mc::Lib l; susa::ccode *t = new susa::ccode(*w.k[j]); delete w.k[i]; w.k[i] = t; } w.c[i] = w.c[j]; break; }
      case 5: { j = mc::choose(2); MC_NOTE("%c = ccode(%d,1,%d)", a, j ? 4 : 2, j ? 3 : 2); { mc::Lib l; *w.k[i] = susa::ccode(j ? 4 : 2, 1, j ? 3 : 2); } w.c[i].n = j ? 4 : 2; w.c[i].m = j ? 3 : 2; w.c[i].g.assign(w.c[i].n, 0); break; }
      case 6: { MC_NOTE("%c rebuilt by default", a); { mc::Lib l; delete w.k[i]; w.k[i] = new susa::ccode(); } w.c[i] = Code(); break; }
      case 7: { mc::assume(c.n); MC_NOTE("%c.decode_bcjr(zeros)", a); mc::Lib l; susa::matrix<double> y(c.n * 4, 1, -1.0); w.k[i]->decode_bcjr(y, 1.0); break; }
    }
    mc::heap_ok(); if (prune) { mc::Hash c; c.u(w.h(0)).u(depth - d); mc::Canon cn; for (auto *q : w.k) cn.obj(q, sizeof *q); mc::prune(c.u(cn.k.h).h); } else mc::state(w.h(0));
  }
  for (int i = 0; i < 3; i++) if (w.c[i].n) { lookups(*w.k[i], w.c[i]); encode(*w.k[i], w.c[i], {1, 1, 0, 1, 0, 0, 1}, false, "final"); } mc::outcome(w.h(1)); { mc::Lib l; for (auto *q : w.k) delete q; } mc::heap_empty("after every code was destroyed");
}
MC_SCENARIO(histories) { history(mc::pick(3, 4), false); }
MC_SCENARIO(deep_histories) { history(mc::pick(5, 6), true); }   // histories that reach the same representation are merged
MC_MAIN
