// C14: select_least/most/limited_least, sort, sort_indices, find.
//MC-PARTS 4
//MC-VARIANT asan: -O0 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND every vector of length 2-5 (6) over five values including the type's extremes and zero, every permutation of 2-7 (8) distinct elements, both orientations, every k from 1 to n, every subset (in increasing, decreasing and rotated order) of the positions for the limited variant up to length 4 (5), every searched value; int, unsigned, double, float, signed char elements; a fixed family of vectors up to 1025 (2049) elements around byte and word boundaries, and searches in vectors of up to 70001 elements (positions beyond 16 bits); selections of up to 5000 (9000) elements, limited ones of up to 1500 among 2000; fresh memory filled with a pattern
//MC-ASSUME vectors of at least two elements without NaN; the limited index set holds at least k distinct valid positions
#include "mat.h"
typedef susa::matrix<unsigned> MU;
template <class T> static std::vector<T> alphabet() { T lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max(); return {lo, (T)(std::is_signed<T>::value ? -1 : 1), (T)0, std::is_floating_point<T>::value ? (T)0.5 : (T)2, hi}; }
static std::vector<unsigned> positions(const MU &I, size_t n, size_t k, const char *who, const std::string &in) {
  shape_is(I, k, 1, who); std::vector<unsigned> p; std::set<unsigned> s;
  for (size_t i = 0; i < k; i++) { unsigned q = I.get(i); MC_CHECK(q < n, "%s of %s: position %zu is %u, outside the vector", who, in.c_str(), i, q); MC_CHECK(s.insert(q).second, "%s of %s: position %u selected twice", who, in.c_str(), q); p.push_back(q); }
  return p;
}
template <class T> static void selected(const MU &I, const Ref<T> &x, size_t k, const std::vector<unsigned> &pool, bool most, const char *who) {
  std::string in = str(x); auto p = positions(I, x.v.size(), k, who, in); std::set<unsigned> s(p.begin(), p.end()), ps(pool.begin(), pool.end());
  for (unsigned q : p) MC_CHECK(ps.count(q), "%s of %s, k=%zu: position %u is not among the allowed ones", who, in.c_str(), k, q);
  for (unsigned q : p) for (unsigned o : pool) if (!s.count(o)) MC_CHECK(most ? !(x.v[q] < x.v[o]) : !(x.v[o] < x.v[q]), "%s of %s, k=%zu: position %u chosen although position %u is better", who, in.c_str(), k, q, o);
}
template <class T> static void basics(const Ref<T> &x) {
  size_t n = x.v.size(); std::string in = str(x); MC_NOTE("vector %s", in.c_str()); std::vector<unsigned> pool; for (size_t i = 0; i < n; i++) pool.push_back(i);
  susa::matrix<T> *X, *S; MU *I; { mc::Lib l; X = new susa::matrix<T>(mk(x)); S = new susa::matrix<T>(susa::sort(*X)); I = new MU(susa::sort_indices(*X)); mc::step(2); }
  Ref<T> e = x; std::sort(e.v.begin(), e.v.end()); same(*S, e, "sort"); auto p = positions(*I, n, n, "sort_indices", in);
  for (size_t i = 0; i < n; i++) MC_CHECK(x.v[p[i]] == e.v[i], "sort_indices of %s: position %zu names %s", in.c_str(), i, str(x.v[p[i]]).c_str());
  { mc::Lib l; delete S; delete I; }
  for (size_t k = 1; k <= n; k++) for (int m = 0; m < 2; m++) { if (n > 12 && k > 3 && k + 2 < n && k != n / 2) continue; { mc::Lib l; I = new MU(m ? susa::select_most(*X, (unsigned)k) : susa::select_least(*X, (unsigned)k)); mc::step(); } selected(*I, x, k, pool, m, m ? "select_most" : "select_least"); mc::Lib l; delete I; }
  std::set<T> vals(x.v.begin(), x.v.end()); vals.insert(T(7)); if (n > 12) vals = {x.v[0], x.v[n - 1], x.v[n / 2]};
  for (T v : vals) { T w = v; mc::Lib l; susa::bitset b = susa::find(*X, w); mc::NoLib nl; mc::step(); bool any = false; for (size_t i = 0; i < n + 9; i++) { bool ex = i < n && x.v[i] == v; any |= ex; MC_CHECK(b.exists(i) == ex, "find(%s, %s): membership of %zu is %d", in.c_str(), str(v).c_str(), i, (int)b.exists(i)); } MC_CHECK(b.any() == any, "find: any()"); }
  same(*X, x, "argument"); mc::state(hashref(e)); mc::outcome(hashref(x)); { mc::Lib l; delete X; } mc::heap_empty("after searching");
}
template <class T> static Ref<T> shaped(int n) { bool row = mc::flip(); return Ref<T>(row ? 1 : n, row ? n : 1, T(0)); }
template <class T> static void alphabets() { Ref<T> x = shaped<T>(mc::range(2, mc::pick(5, 6))); auto A = alphabet<T>(); for (auto &q : x.v) q = A[mc::choose(5)]; basics(x); }
template <class T> static void permutations() { int n = mc::range(2, mc::pick(7, 8)); Ref<T> x(n, 1, T(0)); std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i - (std::is_signed<T>::value ? n / 2 : 0)); for (auto &q : x.v) { int k = mc::choose((int)left.size()); q = T(left[k]); left.erase(left.begin() + k); } basics(x); }
template <class T> static void limited() {
  int n = mc::range(2, mc::pick(4, 5)); Ref<T> x = shaped<T>(n); auto A = alphabet<T>(); for (auto &q : x.v) q = A[mc::choose(5)]; std::vector<unsigned> pool; for (int i = 0; i < n; i++) if (mc::flip()) pool.push_back(i); mc::assume(!pool.empty());
  size_t k = mc::range(1, (int)pool.size()); int ord = mc::choose(pool.size() > 1 ? 4 : 1); std::vector<unsigned> l = pool; if (ord == 1) std::reverse(l.begin(), l.end()); if (ord == 2) std::rotate(l.begin(), l.begin() + 1, l.end()); if (ord == 3) { l.push_back(l[0]); }
  std::string ls; for (unsigned q : l) ls += " " + std::to_string(q); MC_NOTE("select_limited_least(%s, {%s }, %zu)", str(x).c_str(), ls.c_str(), k); bool row = mc::flip();
  susa::matrix<T> *X; MU *L, *I; { mc::Lib lb; X = new susa::matrix<T>(mk(x)); L = new MU(row ? 1 : l.size(), row ? l.size() : 1); for (size_t i = 0; i < l.size(); i++) (*L)(i) = l[i]; mc::step(); I = new MU(susa::select_limited_least(*X, *L, (unsigned)k)); }
  selected(*I, x, k, pool, false, "select_limited_least"); same(*X, x, "argument"); mc::state(mc::Hash().u(hashref(snap(*I))).u(k).h); mc::outcome(mc::Hash().u(hashref(x)).s(ls).u(k).h); { mc::Lib lb; delete X; delete L; delete I; } mc::heap_empty("after searching");
}
template <class T> static void longer() {
  int n = mc::any<int>({9, 16, 17, 31, 33, 64, 65, 129, 255, 256, 257, 300, 513, 1025, mc::pick(1000, 2049)}), w = mc::choose(6); Ref<T> x = shaped<T>(n); for (int i = 0; i < n; i++) x.v[i] = T(w == 0 ? i % 100 : w == 1 ? (n - i) % 100 : w == 2 ? (i * 37) % 101 : w == 3 ? i % 3 : w == 4 ? (i == n - 1) : 5); basics(x);
}
// positions that need more than 8 or 16 bits: the wanted elements sit at chosen places of a long vector
template <class T> static void far_positions() {
  size_t n = (size_t)mc::any<int>({257, 4097, 32769, 65537, 70001}); Ref<T> x = shaped<T>((int)n); std::string in = "a vector of " + std::to_string(n); int w = mc::choose(3);
  for (size_t i = 0; i < n; i++) x.v[i] = T(w == 0 ? 40 : 40 + i % 50); static const double F[] = {0, 0.25, 0.5, 0.9, 1}; size_t p = (size_t)(F[mc::choose(5)] * (n - 1)), q = w == 2 ? (p + n / 3) % n : n - 1 - p; x.v[p] = T(1); x.v[q] = T(2); if (p == q) x.v[p] = T(1); size_t hi = (p + q + 1) % n; if (hi == p || hi == q) hi = (hi + 2) % n; x.v[hi] = T(100); MC_NOTE("%s, least at %zu and %zu, most at %zu", in.c_str(), p, q, hi);
  susa::matrix<T> *X; MU *A, *B, *C, *L; mc::step(4); { mc::Lib l; X = new susa::matrix<T>(mk(x)); A = new MU(susa::select_least(*X, 1u)); B = new MU(susa::select_least(*X, 2u)); C = new MU(susa::select_most(*X, 1u)); L = new MU(3, 1); (*L)(0) = (unsigned)hi; (*L)(1) = (unsigned)p; (*L)(2) = (unsigned)((hi + 1) % n); }
  MC_CHECK(A->get(0) == p, "select_least(%s,1) gives %u, expected %zu", in.c_str(), A->get(0), p); if (p != q) MC_CHECK(std::set<size_t>({B->get(0), B->get(1)}) == std::set<size_t>({p, q}), "select_least(%s,2) gives %u and %u, expected %zu and %zu", in.c_str(), B->get(0), B->get(1), p, q); MC_CHECK(C->get(0) == hi, "select_most(%s,1) gives %u, expected %zu", in.c_str(), C->get(0), hi);
  { mc::Lib l; MU D = susa::select_limited_least(*X, *L, 1u); mc::NoLib nl; MC_CHECK(D.get(0) == p, "select_limited_least(%s) gives %u, expected %zu", in.c_str(), D.get(0), p); mc::Lib l2; D = MU(); }
  for (int k = 0; k < 3; k++) { T v = k == 0 ? T(1) : k == 1 ? T(100) : T(40); mc::Lib l; susa::bitset b = susa::find(*X, v); mc::NoLib nl; for (size_t i = 0; i < n + 9; i++) MC_CHECK(b.exists(i) == (i < n && x.v[i] == v), "find(%s): membership of %zu is %d", in.c_str(), i, (int)b.exists(i)); }
  mc::state(mc::Hash().u(n).u(p).u(w).h); mc::outcome(mc::Hash().u(n).u(p).u(q).u(w).u(x.r).u(sizeof(T)).h); { mc::Lib l; delete X; delete A; delete B; delete C; delete L; } mc::heap_empty("after searching");
}
// selections of very many elements: none of the selected ones may be beaten by another
template <class T> static void many_selected() {
  size_t n = (size_t)mc::any<int>({4200, mc::pick(5000, 9000)}), k = n - (size_t)mc::any<int>({0, 1, 90}); int how = mc::choose(3); bool most = how == 1, lim = how == 2; if (lim) { n = (size_t)mc::any<int>({40, 300, 2000}); k = n * 3 / 4 - (size_t)mc::any<int>({0, 1, 9}); } Ref<T> x = shaped<T>((int)n); for (size_t i = 0; i < n; i++) x.v[i] = T(sizeof(T) == 1 ? (i * 37) % 101 : (double)((i * 7919) % n)); MC_NOTE("select %zu of %zu elements (%s)", k, n, lim ? "limited least" : most ? "most" : "least");
  std::vector<char> pool(n, 1); std::vector<unsigned> list; if (lim) { for (size_t i = n; i-- > 0;) { pool[i] = i % 4 != 1; if (pool[i]) list.push_back((unsigned)i); } }
  susa::matrix<T> *X; MU *I; mc::step(4); { mc::Lib l; X = new susa::matrix<T>(mk(x)); if (lim) { MU G(list.size(), 1); for (size_t i = 0; i < list.size(); i++) G(i) = list[i]; I = new MU(susa::select_limited_least(*X, G, (unsigned)k)); } else I = new MU(most ? susa::select_most(*X, (unsigned)k) : susa::select_least(*X, (unsigned)k)); } MC_CHECK(I->size() == k, "%zu of %zu elements were to be selected, the result has %zu", k, n, I->size());
  std::vector<char> in(n, 0); T worst = most ? T(100000) : T(0); if (sizeof(T) == 1) worst = most ? T(127) : T(0); for (size_t i = 0; i < k; i++) { unsigned q = I->get(i); MC_CHECK(q < n && pool[q] && !in[q], "index %u was selected twice or is invalid", q); in[q] = 1; worst = most ? std::min(worst, x.v[q]) : std::max(worst, x.v[q]); } for (size_t i = 0; i < n; i++) if (pool[i] && !in[i]) MC_CHECK(most ? !(x.v[i] > worst) : !(x.v[i] < worst), "element %zu was not selected and beats a selected one", i);
  same(*X, x, "argument"); mc::state(mc::Hash().u(n).u(k).u(how).h); mc::outcome(mc::Hash().u(n).u(k).u(how).u(sizeof(T)).u((uint64_t)worst).h); { mc::Lib l; delete X; delete I; } mc::heap_empty("after searching");
}
#define ALL(T, N) MC_SCENARIO(many_selected_##N) { many_selected<T>(); } MC_SCENARIO(alphabets_##N) { alphabets<T>(); } MC_SCENARIO(permutations_##N) { permutations<T>(); } MC_SCENARIO(limited_##N) { limited<T>(); } MC_SCENARIO(longer_##N) { longer<T>(); } MC_SCENARIO(far_##N) { far_positions<T>(); }
#if MC_PART == 0
ALL(int, int)
#elif MC_PART == 1
ALL(unsigned, unsigned)
#elif MC_PART == 2
ALL(double, double)
#else
ALL(float, float)
ALL(signed char, schar)
#endif
MC_MAIN
