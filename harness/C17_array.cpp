// C17: susa::array addressing and value semantics.
//MC-VARIANT asan: -O1 -fsanitize=address -DSUSA_NDEBUG
//MC-VARIANT noassert: -O1 -fsanitize=address -DSUSA_NDEBUG -DSUSA_NASSERT
//MC-BOUND cloned data of up to 2^24 bytes; addressing: every dimension list of rank 1-4 over 1..4 (5) and rank 5 over 1..2 (3), every index tuple through operator(), const operator(), get(...), get(vector), get(initializer list) and the raw index, in two orders; dimensions of up to SIZE_MAX whose product or byte count does not fit (refused); with an invalid access (too many indices, out of range) in between; eight dimension lists of 65536 to 180000 (thorough 1.4 million) elements, every tuple; value semantics: all histories of depth 3 (4) over three arrays of construct/copy/assign/self-assign/move/write/clone, moved-from arrays included; every allocation of the last operation failing
//MC-ASSUME elements are unspecified until written; what a moved-from array (or a copy of one) holds is unspecified, but it can be copied, moved, assigned and destroyed; clone() with a length that differs from the dimensions defines the raw elements only
#include "mat.h"
typedef susa::array<int> A; typedef susa::array<double> AD; typedef std::vector<size_t> V;
template <class T> static susa::array<T> *make(const V &d) {
  switch (d.size()) { case 0: return new susa::array<T>(); case 1: return new susa::array<T>({d[0]}); case 2: return new susa::array<T>({d[0], d[1]}); case 3: return new susa::array<T>({d[0], d[1], d[2]}); case 4: return new susa::array<T>({d[0], d[1], d[2], d[3]}); default: return new susa::array<T>({d[0], d[1], d[2], d[3], d[4]}); }
}
template <class X> static decltype(auto) call(X &a, const V &i) { switch (i.size()) { case 1: return a(i[0]); case 2: return a(i[0], i[1]); case 3: return a(i[0], i[1], i[2]); case 4: return a(i[0], i[1], i[2], i[3]); default: return a(i[0], i[1], i[2], i[3], i[4]); } }
template <class T> static T getv(const susa::array<T> &a, const V &i) { switch (i.size()) { case 1: return a.get(i[0]); case 2: return a.get(i[0], i[1]); case 3: return a.get(i[0], i[1], i[2]); case 4: return a.get(i[0], i[1], i[2], i[3]); default: return a.get(i[0], i[1], i[2], i[3], i[4]); } }
template <class T> static T geti(const susa::array<T> &a, const V &i) { typedef std::initializer_list<size_t> I; switch (i.size()) { case 1: return a.get(I{i[0]}); case 2: return a.get(I{i[0], i[1]}); case 3: return a.get(I{i[0], i[1], i[2]}); case 4: return a.get(I{i[0], i[1], i[2], i[3]}); default: return a.get(I{i[0], i[1], i[2], i[3], i[4]}); } }
template <class T> static size_t raw(const susa::array<T> &a, const V &i) { switch (i.size()) { case 1: return a.get_raw_index(i[0]); case 2: return a.get_raw_index(i[0], i[1]); case 3: return a.get_raw_index(i[0], i[1], i[2]); case 4: return a.get_raw_index(i[0], i[1], i[2], i[3]); default: return a.get_raw_index(i[0], i[1], i[2], i[3], i[4]); } }
static std::string sv(const V &v) { std::string s = "("; for (size_t x : v) s += " " + std::to_string(x); return s + " )"; }
static std::vector<V> tuples(const V &d) { std::vector<V> r; V i(d.size(), 0); for (;;) { r.push_back(i); size_t k = 0; while (k < d.size() && ++i[k] == d[k]) i[k++] = 0; if (k == d.size()) return r; } }
template <class T> static void addressing(const V &d, bool rev, int bad) {
  MC_NOTE("array with dimensions %s, %s order, invalid access kind %d", sv(d).c_str(), rev ? "reverse" : "forward", bad);
  susa::array<T> *a; { mc::Lib l; a = make<T>(d); } const susa::array<T> &c = *a; auto ts = tuples(d); if (rev) std::reverse(ts.begin(), ts.end());
  size_t total = 1; for (size_t x : d) total *= x;
  auto invalid = [&] {
    if (!bad) return; volatile int sink = 0;
    V i(d.size(), 0);
    if (bad == 1) i.push_back(0); if (bad == 2) i.back() = d.back(); if (bad == 3) i[0] = total + 77; if (bad == 4) i.push_back(1);
    if (bad == 5) { i.push_back(0); i.push_back(1); if (i.size() > 5) i = {total, 0, 0, 0, 0}; }
    bool ab = mc::aborts([&] {
      if (bad == 1) { if (i.size() > 5) sink = (int)c.get(i); else sink = (int)call(*a, i); }
      if (bad == 2) sink = (int)getv(c, i);
      if (bad == 3) sink = (int)call(*a, i);
      if (bad == 4) sink = (int)c.get(i);
      if (bad == 5) sink = (int)geti(c, i); });
    (void)sink; (void)ab;
#ifndef SUSA_NASSERT
    MC_CHECK(ab, "an invalid access (kind %d) of dimensions %s was not stopped", bad, sv(d).c_str());
#else
    MC_CHECK(!ab, "an invalid access stopped the process with assertions off");
#endif
  };
  std::set<size_t> seen; int n = 0;
  for (auto &t : ts) { if (n % 3 == 0) invalid(); { mc::Lib l; call(*a, t) = T(1000 + n); } size_t r = raw(c, t); MC_CHECK(r < total && seen.insert(r).second, "tuple %s of %s shares raw index %zu", sv(t).c_str(), sv(d).c_str(), r); n++; mc::step(); }
  n = 0;
  for (auto &t : ts) { if (n % 3 == 1) invalid(); T e = T(1000 + n); T q[6]; { mc::Lib l; q[0] = call(*a, t); q[1] = call(c, t); q[2] = getv(c, t); q[3] = c.get(t); q[4] = geti(c, t); q[5] = c(raw(c, t)); }
    for (int p = 0; p < 6; p++) MC_CHECK(q[p] == e, "element %s of %s read through path %d is %g, written %g", sv(t).c_str(), sv(d).c_str(), p, (double)q[p], (double)e); n++; mc::step(); }
  mc::Hash h; h.u(bad).u(rev); for (size_t x : d) h.u(x); mc::state(h.h); mc::outcome(h.u(sizeof(T)).h);
  // first index runs fastest in the raw order (clone() relies on it)
  { std::vector<T> data(total); for (size_t i = 0; i < total; i++) data[i] = T(i + 5); { mc::Lib l; a->clone(data.data(), total); } auto f = tuples(d); for (size_t i = 0; i < total; i++) MC_CHECK(getv(c, f[i]) == T(i + 5), "clone: element %s of %s is %g, expected %g", sv(f[i]).c_str(), sv(d).c_str(), (double)getv(c, f[i]), (double)(i + 5)); }
  { mc::Lib l; delete a; } mc::heap_empty("after the array was destroyed");
}
MC_SCENARIO(addressing_int) { int r = mc::range(1, 4); V d(r); for (auto &x : d) x = mc::range(1, mc::pick(4, 5)); int bad = mc::choose(6); addressing<int>(d, bad == 0 && mc::flip(), bad); }
MC_SCENARIO(addressing_rank5) { V d(5); for (auto &x : d) x = mc::range(1, mc::pick(2, 3)); addressing<double>(d, mc::flip(), mc::choose(5)); }
MC_SCENARIO(addressing_large) { V d = mc::any<V>({{300}, {17, 33}, {256, 3}, {3, 256}, {65, 2, 9}, {2, 3, 5, 7}, {11, 1, 13, 1}, {1, 1, 1, 1, 19}}); addressing<double>(d, mc::flip(), mc::choose(3)); }
// dimensions whose products pass 2^8, 2^16 and 2^17 (thorough 2^20): every element written, read back and copied
template <class T> static void addressing_far() {
  V d = mc::any<V>({{300, 300, 2}, {257, 257, 2}, {70000, 2}, {2, 70000}, {16, 16, 16, 17}, {1, 65536, 1, 2}, {256, 256, 2}, {2, 2, 2, 2, 5000}}); if (mc::thorough() && mc::flip()) d.back() *= 8; MC_NOTE("array with dimensions %s", sv(d).c_str());
  size_t total = 1; for (size_t x : d) total *= x; susa::array<T> *a; { mc::Lib l; a = make<T>(d); } std::vector<bool> seen(total); V i(d.size(), 0); auto next = [&] { size_t k = 0; while (k < d.size() && ++i[k] == d[k]) i[k++] = 0; return k < d.size(); }; size_t n = 0;
  do { size_t r = raw(*a, i); MC_CHECK(r < total && !seen[r], "tuple %s of %s shares raw index %zu", sv(i).c_str(), sv(d).c_str(), r); seen[r] = true; call(*a, i) = T(n++ * 7 + 3); } while (next()); mc::step(n); susa::array<T> *b; { mc::Lib l; b = new susa::array<T>(*a); } const susa::array<T> &c = *a; n = 0;
  do { T e = T(n++ * 7 + 3); MC_CHECK(call(c, i) == e && getv(*b, i) == e && c.get(i) == e && geti(*b, i) == e, "element %s of %s is %g, written %g", sv(i).c_str(), sv(d).c_str(), (double)getv(c, i), (double)e); } while (next()); mc::step(n);
  mc::Hash h; for (size_t x : d) h.u(x); mc::state(h.h); mc::outcome(h.u(sizeof(T)).h); { mc::Lib l; delete a; delete b; } mc::heap_empty("after the arrays were destroyed");
}
MC_SCENARIO(addressing_far_int) { addressing_far<int>(); }
MC_SCENARIO(addressing_far_double) { addressing_far<double>(); }

struct Mod { V d; std::vector<int> v; std::vector<char> k; bool moved = false; };
static const std::vector<V> &shapes() { static std::vector<V> S = {{}, {3}, {2, 2}, {2, 1, 3}, {0, 2}}; return S; }
struct World {
  A *p[3]; Mod m[3]; int stamp = 10;
  World() { mc::Lib l; p[0] = new A({2, 2}); p[1] = new A({3}); p[2] = new A(); mc::NoLib n; m[0].d = {2, 2}; m[0].v.assign(4, 0); m[0].k.assign(4, 0); m[1].d = {3}; m[1].v.assign(3, 0); m[1].k.assign(3, 0); for (int i = 0; i < 2; i++) for (size_t q = 0; q < m[i].v.size(); q++) put(i, q); }
  void put(int i, size_t q) { (*p[i])(q) = ++stamp; m[i].v[q] = stamp; m[i].k[q] = 1; }
  void check(int i, const char *when) {
    if (m[i].moved) return; const A &a = *p[i];
    for (size_t q = 0; q < m[i].v.size(); q++) if (m[i].k[q]) MC_CHECK(a.get(q) == m[i].v[q], "array %c: element %zu is %d, expected %d (%s)", 'a' + i, q, a.get(q), m[i].v[q], when);
    if (m[i].d.size() > 1 && m[i].v.size() && m[i].v.size() == [&] { size_t t = 1; for (size_t x : m[i].d) t *= x; return t; }()) { auto ts = tuples(m[i].d); for (size_t q = 0; q < ts.size(); q++) if (m[i].k[q]) MC_CHECK(a.get(ts[q]) == m[i].v[q], "array %c: element %s is %d, expected %d (%s)", 'a' + i, sv(ts[q]).c_str(), a.get(ts[q]), m[i].v[q], when); }
  }
  uint64_t hash(int left) { mc::Hash h; h.u(left); std::map<int, int> ord; for (auto &x : m) { h.u(x.moved).u(x.d.size()).u(x.v.size()); for (size_t q : x.d) h.u(q); for (size_t q = 0; q < x.v.size(); q++) h.u(x.k[q] ? ord.emplace(x.v[q], (int)ord.size()).first->second : -1); } return h.h; }
  void done() { { mc::Lib l; for (auto *q : p) delete q; } mc::heap_empty("after every array was destroyed"); }
};
// returns false when not applicable
static void op(World &w, Mod *n, bool &repl) {
  int o = mc::choose(6), i = mc::choose(3), j = 0; char a = 'a' + i; A &x = *w.p[i]; repl = false; mc::step();
  switch (o) {
    case 0: j = mc::choose(3); MC_NOTE("%c = %c", a, 'a' + j); n[i] = w.m[j]; { mc::Lib l; x = *w.p[j]; } break;
    case 1: { j = mc::choose((int)shapes().size()); MC_NOTE("%c = array%s", a, sv(shapes()[j]).c_str()); const V &d = shapes()[j]; size_t t = d.empty() ? 0 : 1; for (size_t q : d) t *= q; n[i].d = d; n[i].v.assign(t, 0); n[i].k.assign(t, 0); n[i].moved = false; A *tmp; { mc::Lib l; tmp = make<int>(d); } struct G { A *t; ~G() { mc::Lib l; delete t; } } g{tmp}; { mc::Lib l; x = *tmp; } break; }
    case 2: { j = mc::choose(3); mc::assume(i != j); MC_NOTE("%c rebuilt as a copy of %c", a, 'a' + j); A *t; { mc::Lib l; t = new A(*w.p[j]); } n[i] = w.m[j]; repl = true; { mc::Lib l; delete w.p[i]; w.p[i] = t; } break; }
    case 3: { j = mc::choose(3); mc::assume(i != j); MC_NOTE("%c rebuilt by moving %c", a, 'a' + j); A *t; { mc::Lib l; t = new A(std::move(*w.p[j])); } n[i] = w.m[j]; n[j] = Mod(); n[j].moved = true; repl = true; { mc::Lib l; delete w.p[i]; w.p[i] = t; } break; }
    case 4: { mc::assume(!w.m[i].moved && w.m[i].v.size()); size_t q = w.m[i].v.size() - 1; MC_NOTE("%c(%zu) = %d", a, q, w.stamp + 1); x(q) = ++w.stamp; n[i].v[q] = w.stamp; n[i].k[q] = 1; break; }
    case 5: { int len = mc::any<int>({1, 3, 4, 6}); mc::assume(!w.m[i].moved); MC_NOTE("%c.clone(%d elements)", a, len); int d[6]; for (int q = 0; q < len; q++) d[q] = ++w.stamp; n[i].v.assign(d, d + len); n[i].k.assign(len, 1); { mc::Lib l; x.clone(d, len); } break; }
  }
}
// dimensions whose product or byte count does not fit are never accepted
MC_SCENARIO(impossible) {
  static const size_t S[] = {1, 2, 3, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, ((size_t)1 << 61) + 1, (size_t)1 << 62, (size_t)1 << 63, ((size_t)1 << 63) + 1, ((size_t)1 << 63) + 2, ~(size_t)0 / 3, ~(size_t)0 / 3 + 1, ~(size_t)0};
  int n = mc::range(1, 3); V d(n); long double t = 1; for (auto &x : d) { x = S[mc::choose(14)]; t *= x; } mc::assume(t > 4e9L); MC_NOTE("array with dimensions %s", sv(d).c_str()); mc::step();
  susa::array<double> *a = nullptr; bool thrown = false, ab = mc::aborts([&] { mc::Lib l; try { a = make<double>(d); } catch (std::bad_alloc &) { thrown = true; } });
  MC_CHECK(ab || thrown, "an array with dimensions %s was made", sv(d).c_str()); if (!ab) mc::heap_empty("after a failed construction"); mc::state(mc::Hash().u((uint64_t)t).u(n).h); mc::outcome(mc::Hash().s(sv(d).c_str()).h);
}
MC_SCENARIO(histories) {
  World w; int depth = mc::pick(3, 4);
  for (int s = 0; s < depth; s++) { mc::state(w.hash(depth - s)); Mod n[3] = {w.m[0], w.m[1], w.m[2]}; bool repl; op(w, n, repl); for (int i = 0; i < 3; i++) { w.m[i] = n[i]; w.check(i, "after the operation"); } mc::heap_ok(); }
  mc::outcome(w.hash(0)); w.done();
}
MC_SCENARIO(failed_allocations) {
  World w; bool repl; int prep = mc::pick(1, 2);
  for (int s = 0; s < prep; s++) { Mod n[3] = {w.m[0], w.m[1], w.m[2]}; op(w, n, repl); for (int i = 0; i < 3; i++) w.m[i] = n[i]; }
  int f = mc::choose(6); Mod n[3] = {w.m[0], w.m[1], w.m[2]}; mc::g_new_calls = 0; mc::g_faults = 0; mc::g_fail_at = f; bool stop = false, threw = false; MC_NOTE("-- allocation %d of the next operation fails", f);
  try { op(w, n, repl); } catch (std::bad_alloc &) { threw = true; } catch (mc::Stop &) { stop = true; }
  mc::g_fail_at = -1; mc::g_heap_on = false; mc::assume(mc::g_faults && !stop); MC_CHECK(threw, "the failed allocation was not reported");
  for (int i = 0; i < 3; i++) w.check(i, "after a failed allocation");
  for (int i = 0; i < 3; i++) { { mc::Lib l; A t({2, 3}); for (size_t q = 0; q < 6; q++) t(q) = (int)q; *w.p[i] = t; } const A &c = *w.p[i]; for (size_t q = 0; q < 6; q++) MC_CHECK(c.get({q % 2, q / 2}) == (int)q, "array assigned after the failure"); }
  mc::state(mc::Hash().u(f).u(w.hash(0)).h); mc::outcome(mc::Hash().u(f).u(w.hash(0)).h); w.done();
}
template <class T> static void clone_large() {                // lengths around 2^16 elements and 2^24 bytes
  size_t n = mc::any<size_t>({255, 256, 257, 4095, 4096, 65535, 65536, 65537, 100000, ((size_t)1 << 21) - 1, ((size_t)1 << 21) + 5, ((size_t)1 << 24) / sizeof(T) + 3, ((size_t)1 << 24) / sizeof(T) + 70}), d = mc::any<size_t>({1, 2, n}); bool copy = mc::flip(); mc::state(mc::Hash().u(n).u(d).u(copy).u(sizeof(T)).h); MC_NOTE("clone of %zu elements of %zu bytes into an array of %zu", n, sizeof(T), d);
  std::vector<T> v(n); for (size_t i = 0; i < n; i++) v[i] = T((i * 2654435761u) >> 7 & 0x3fffff); susa::array<T> *a, *b = nullptr; { mc::Lib l; a = new susa::array<T>({d}); a->clone(v.data(), n); if (copy) { b = new susa::array<T>({3}); *b = *a; } } mc::step();
  const susa::array<T> &c = copy ? *b : *a; for (size_t i = 0; i < n; i++) if (!(c.get(i) == v[i])) mc::fail("element %zu of %zu differs from the cloned data", i, n); mc::outcome(mc::Hash().u(n).u(d).u(sizeof(T)).h); { mc::Lib l; delete a; delete b; } mc::heap_empty("after a large clone"); }
MC_SCENARIO(clone_large_double) { clone_large<double>(); } MC_SCENARIO(clone_large_short) { clone_large<short>(); }
MC_MAIN
