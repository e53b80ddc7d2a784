// C16: susa::bitset against std::set<size_t>.
//MC-BOUND all operation sequences: sizes 0-4 to depth 5 (6 thorough), sizes around byte/word boundaries up to 300 to depth 3 (4) over boundary indices; every subset of sizes up to 10 (12) reached by two constructions, then every single operation and a full drain; two-object copy/assign histories; sizes from 511 to 100003 with every boundary index and five histories each, copies included; sizes above 2^19 (thorough: above 2^25) with single members and single gaps at boundary indices
//MC-ASSUME indices at or beyond the size are ignored by set/push/reset and reported absent by exists
#include "mc.h"
#include <susa.h>

struct Model {
  size_t n; std::set<size_t> s;
  explicit Model(size_t n_) : n(n_) {}
  void set(size_t i) { if (i < n) s.insert(i); }
};
static void agree(susa::bitset &b, const Model &m, const char *who) {
  for (size_t i = 0; i < m.n + 10; i++)
    MC_CHECK(b.exists(i) == (m.s.count(i) != 0), "%s (size %zu): exists(%zu) = %d, set says %d", who, m.n, i, (int)b.exists(i), (int)m.s.count(i));
  MC_CHECK(b.any() == !m.s.empty(), "%s (size %zu): any() = %d but the set has %zu members", who, m.n, (int)b.any(), m.s.size());
}
static uint64_t h(const Model &m) { mc::Hash k; k.u(m.n); for (size_t i : m.s) k.u(i); return k.h; }

static void op(susa::bitset &b, Model &m, const std::vector<size_t> &idx) {
  int o = mc::choose(4 + 3 * (int)idx.size());
  mc::step();
  if (o == 0) { MC_NOTE("set()"); b.set(); for (size_t i = 0; i < m.n; i++) m.s.insert(i); }
  else if (o == 1) { MC_NOTE("reset()"); b.reset(); m.s.clear(); }
  else if (o == 2) {
    size_t r = b.pop(); MC_NOTE("pop() -> %zu", r);
    if (m.s.empty()) MC_CHECK(r == m.n, "pop() of an empty set of size %zu returned %zu", m.n, r);
    else { MC_CHECK(m.s.count(r), "pop() returned %zu which is not a member", r); m.s.erase(r); }
  }
  else if (o == 3) { MC_NOTE("any() -> %d", (int)b.any()); }
  else {
    o -= 4; size_t i = idx[o / 3];
    if (o % 3 == 0) { MC_NOTE("set(%zu)", i); b.set(i); m.set(i); }
    else if (o % 3 == 1) { MC_NOTE("reset(%zu)", i); b.reset(i); m.s.erase(i); }
    else { MC_NOTE("push(%zu)", i); b.push(i); m.set(i); }
  }
  agree(b, m, "bitset");
  mc::state(h(m));
}

MC_SCENARIO(small_sequences) {
  size_t n = (size_t)mc::choose(5);
  int depth = mc::pick(n <= 3 ? 5 : 4, n <= 2 ? 6 : 5);
  MC_NOTE("bitset(%zu)", n);
  susa::bitset b(n); Model m(n); agree(b, m, "new bitset");
  std::vector<size_t> idx; for (size_t i = 0; i <= n; i++) idx.push_back(i);
  for (int d = 0; d < depth; d++) op(b, m, idx);
  mc::outcome(h(m));
}

MC_SCENARIO(boundary_sequences) {
  size_t n = mc::any<size_t>({7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300});
  MC_NOTE("bitset(%zu)", n);
  susa::bitset b(n); Model m(n); agree(b, m, "new bitset");
  std::set<size_t> ix = {0, 7, 8, n / 2, n - 1, n, n + 9, (n / 8) * 8};
  std::vector<size_t> idx(ix.begin(), ix.end());
  int depth = mc::pick(3, 4);
  for (int d = 0; d < depth; d++) op(b, m, idx);
  mc::outcome(h(m));
}

MC_SCENARIO(every_subset) {
  size_t n = (size_t)mc::range(1, mc::pick(10, 12));
  bool from_full = mc::flip();
  susa::bitset b(n); Model m(n);
  if (from_full) { b.set(); for (size_t i = 0; i < n; i++) m.s.insert(i); agree(b, m, "full set"); }
  MC_NOTE("bitset(%zu)%s", n, from_full ? "; set()" : "");
  for (size_t i = 0; i < n; i++) if (mc::flip()) {
    if (from_full) { MC_NOTE("reset(%zu)", i); b.reset(i); m.s.erase(i); } else { MC_NOTE("set(%zu)", i); b.set(i); m.s.insert(i); }
    mc::step();
  }
  agree(b, m, "subset");
  mc::state(h(m));
  mc::outcome(h(m));
  size_t left = m.s.size();
  for (size_t k = 0; k < left; k++) {
    size_t r = b.pop(); MC_NOTE("pop() -> %zu", r); mc::step();
    MC_CHECK(m.s.count(r), "pop() returned %zu which is not a member", r); m.s.erase(r);
    agree(b, m, "after pop");
  }
  MC_CHECK(b.pop() == n, "pop() of the emptied set did not report the size");
}

// every position of a larger set: set exactly one / all but one
MC_SCENARIO(every_position) {
  size_t n = (size_t)mc::range(1, mc::pick(140, 600));
  susa::bitset b(n), f(n); f.set(); Model fm(n); for (size_t i = 0; i < n; i++) fm.s.insert(i);
  agree(f, fm, "set()");
  for (size_t i = 0; i < n; i++) {
    b.set(i); f.reset(i); mc::step(2);
    MC_CHECK(b.exists(i) && !f.exists(i), "size %zu index %zu: exists after set = %d, after reset = %d", n, i, (int)b.exists(i), (int)f.exists(i));
    MC_CHECK((i + 1 == n) == !f.any(), "size %zu: any() = %d with %zu members left", n, (int)f.any(), n - 1 - i);
    for (size_t j = (i < 9 ? 0 : i - 9); j < std::min(n, i + 10); j++)
      MC_CHECK(b.exists(j) == (j <= i) && f.exists(j) == (j > i), "size %zu: touching index %zu disturbed index %zu", n, i, j);
  }
  mc::state(n);
}

// sets far beyond one block of any representation: boundary members, whole-set operations, copies and drains
MC_SCENARIO(large) {
  size_t n = mc::any<size_t>({511, 512, 513, 1023, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8193, 16385, 32769, 65535, 65536, 65537, 100003});
  std::set<size_t> ix{0, 1, 7, 8, 63, 64, 255, 256, n / 2, (n / 64) * 64 - 1, (n / 64) * 64, n - 9, n - 2, n - 1, n, n + 7}; for (size_t q = 512; q < n; q *= 2) { ix.insert(q - 1); ix.insert(q); ix.insert(q + 1); }
  std::vector<size_t> v(ix.begin(), ix.end()); size_t i = mc::any(v); int how = mc::choose(5);
  susa::bitset b(n); Model m(n); MC_NOTE("bitset(%zu), index %zu, history %d", n, i, how); mc::step(4);
  auto light = [&](susa::bitset &q, const Model &k, const char *who) { for (size_t c = 0; c < n + 10; c++) if (q.exists(c) != (k.s.count(c) != 0)) MC_CHECK(false, "%s (size %zu): exists(%zu) = %d", who, n, c, (int)q.exists(c)); MC_CHECK(q.any() == !k.s.empty(), "%s (size %zu): any() is wrong", who, n); };
  if (how == 0) { b.set(i); m.set(i); b.set(0); m.set(0); }
  else if (how == 1) { b.set(); for (size_t c = 0; c < n; c++) m.s.insert(c); b.reset(i); m.s.erase(i); }
  else if (how == 2) { b.push(i); m.set(i); b.push(i / 2); m.set(i / 2); b.reset(i); m.s.erase(i); }
  else if (how == 3) { b.set(i); b.reset(); m.set(n - 1); b.set(n - 1); }
  else { for (size_t c : v) { b.set(c); m.set(c); } }
  light(b, m, "set"); susa::bitset c(b), d(3); d = b; light(c, m, "copy"); light(d, m, "assigned copy");
  c.reset(); Model e(n); light(c, e, "reset copy"); light(b, m, "source of the copy");
  size_t k = how == 1 ? 40 : m.s.size(); for (size_t q = 0; q < k; q++) { size_t r = b.pop(); MC_CHECK(m.s.count(r), "size %zu: pop() returned %zu which is not a member", n, r); m.s.erase(r); MC_CHECK(!b.exists(r), "size %zu: %zu is still a member after pop()", n, r); } light(b, m, "after pops"); if (m.s.empty()) MC_CHECK(b.pop() == n, "pop of an empty set of size %zu", n);
  light(d, how == 1 ? [&] { Model f(n); for (size_t q = 0; q < n; q++) if (q != i) f.s.insert(q); return f; }() : [&] { Model f(n); if (how == 0) { f.set(i); f.set(0); } else if (how == 2) { f.set(i / 2); f.s.erase(i); } else if (how == 3) f.set(n - 1); else for (size_t q : v) f.set(q); return f; }(), "independent copy");
  mc::state(mc::Hash().u(n).u(i).u(how).h); mc::outcome(mc::Hash().u(n).u(i).u(how).h);
}

// sets whose byte index does not fit 16 bits
MC_SCENARIO(huge) {
  size_t n = mc::any(mc::thorough() ? std::vector<size_t>{524287, 524288, 524289, 540001, 16777217, 33554433} : std::vector<size_t>{524288, 540001});
  std::set<size_t> ix{0, 8, n / 2, n - 9, n - 1, n, n + 3}; for (size_t q = 65536; q < n; q *= 2) { ix.insert(q - 1); ix.insert(q); } std::vector<size_t> v(ix.begin(), ix.end()); size_t i = mc::any(v); bool full = mc::flip();
  susa::bitset b(n); std::vector<bool> m(n + 10, false); MC_NOTE("bitset(%zu), %s index %zu", n, full ? "all but" : "only", i); mc::step(3);
  if (full) { b.set(); for (size_t q = 0; q < n; q++) m[q] = true; b.reset(i); if (i < n) m[i] = false; } else { b.set(i); if (i < n) m[i] = true; }
  auto same = [&](susa::bitset &x, const char *who) { for (size_t q = 0; q < n + 10; q++) if (x.exists(q) != m[q]) MC_CHECK(false, "%s of size %zu: exists(%zu) = %d", who, n, q, (int)x.exists(q)); };
  same(b, "set"); susa::bitset c(b); size_t w = n; for (size_t q = 0; q < n; q++) if (m[q]) { w = q; break; } MC_CHECK(b.any() == (w < n), "any() of a set of size %zu", n); size_t r = b.pop(); MC_CHECK(full ? r < n && m[r] : r == w, "pop() of a set of size %zu returned %zu", n, r); same(c, "copy"); MC_CHECK(!b.exists(r), "%zu is still a member after pop()", r); if (!full) MC_CHECK(!b.any() && b.pop() == n, "a drained set of size %zu is not empty", n);
  mc::state(mc::Hash().u(n).u(i).u(full).h); mc::outcome(mc::Hash().u(n).u(i).u(full).h);
}

MC_SCENARIO(copies) {
  size_t na = mc::any<size_t>({0, 3, 9, 33}), nb = mc::any<size_t>({0, 3, 8, 40});
  susa::bitset a(na), b(nb); Model ma(na), mb(nb);
  int depth = mc::pick(4, 5);
  for (int d = 0; d < depth; d++) {
    mc::step();
    switch (mc::choose(8)) {
      case 0: MC_NOTE("a = b"); a = b; ma = mb; break;
      case 1: MC_NOTE("b = a"); b = a; mb = ma; break;
      case 2: MC_NOTE("a = a"); { susa::bitset &r = a; a = r; } break;
      case 3: MC_NOTE("c(a); c.set(); b = c"); { susa::bitset c(a); c.set(); Model k = ma; for (size_t i = 0; i < k.n; i++) k.s.insert(i); agree(a, ma, "source of a copy"); agree(c, k, "copy"); b = c; mb = k; } break;
      case 4: MC_NOTE("a.set(n-1)"); a.set(ma.n - 1); ma.set(ma.n - 1); break;
      case 5: MC_NOTE("b.reset()"); b.reset(); mb.s.clear(); break;
      case 6: MC_NOTE("b.set(1)"); b.set(1); mb.set(1); break;
      case 7: { size_t r = a.pop(); MC_NOTE("a.pop() -> %zu", r); if (ma.s.empty()) MC_CHECK(r == ma.n, "pop of empty"); else { MC_CHECK(ma.s.count(r), "pop returned a non-member"); ma.s.erase(r); } } break;
    }
    agree(a, ma, "a"); agree(b, mb, "b");
    mc::state(mc::Hash().u(h(ma)).u(h(mb)).h);
  }
  mc::outcome(mc::Hash().u(h(ma)).u(h(mb)).h);
}
MC_MAIN
