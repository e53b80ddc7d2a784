// C07: operations that move elements.
//MC-VARIANT asan: -O0 -fsanitize=address -DSUSA_NDEBUG
//MC-PARTS 2
//MC-BOUND every shape up to 5x5 (thorough 7x7) and vectors up to 12 (30) with distinct elements, every valid argument of every operation, 4 element types; all pairs of shapes up to 4x4 (5x5) for concat and products of identities; every sequence of up to 3 (4) row/column writes, swaps and reshapes on matrices of up to 3x3, pruned by reached contents; 21 larger shapes (15 to 4369 elements, thorough also 65537) with every operation and boundary arguments
//MC-ASSUME left(0) and right(0) are outside the domain (they stop by assertion); concat of equal shapes stacks them vertically, fliplr of a column and flipud of a row reverse it, as the library's tests and documentation fix
#include "mat.h"
template <class T> using M = susa::matrix<T>;
template <class T> static T tag(int k) { return T(k); }
template <> std::complex<double> tag<std::complex<double>>(int k) { return {double(k), double(100 - k)}; }
template <class T> static Ref<T> tags(size_t r, size_t c, int off) { Ref<T> e(r, c, T(0)); for (size_t i = 0; i < r * c; i++) e.v[i] = tag<T>((int)i + off); return e; }
static void shape(int &r, int &c) {
  int big = mc::pick(5, 7), lim = mc::pick(12, 30);
  int k = mc::choose(3);
  if (k == 0) { r = mc::range(1, big); c = mc::range(1, big); } else { int n = mc::range(big + 1, lim); r = k == 1 ? 1 : n; c = k == 1 ? n : 1; }
}
template <class T, class F> static Ref<T> make(size_t r, size_t c, F f) { Ref<T> e(r, c, T(0)); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) e.at(i, j) = f(i, j); return e; }
#define LIB(expr) [&] { mc::Lib lib_; mc::step(); return expr; }()
static bool BIG = false;
static int at(int n) { if (!BIG) return mc::choose(n); return some_place(n); }                  // an index below n
static int cnt(int n) { return BIG ? some_place(n) + 1 : mc::range(1, n); }                    // a count from 1 to n
static int from(int x, int n) { if (!BIG) return mc::range(x, n - 1); std::vector<int> v{x, (x + n) / 2, n - 1, std::min(x + 1, n - 1), std::min(x + 8, n - 1)}; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return mc::any(v); }
template <class T> static void ops(bool big = false) {
  BIG = big; int r, c; if (big) { auto p = mc::any(large_shapes()); mc::assume(p.first * p.second < (mc::thorough() ? 70000 : 5000)); r = p.first; c = p.second; } else shape(r, c);
  Ref<T> a = tags<T>(r, c, 1), b = tags<T>(r, c, 60);
  M<T> *A, *B; { mc::Lib l; A = new M<T>(mk(a)); B = new M<T>(mk(b)); }
  bool vec = (r == 1) != (c == 1); int n = r * c;
  int o = mc::choose(14); MC_NOTE("operation %d on %s", o, brief(a).c_str());
  int x = 0, y = 0; Ref<T> e = a;
  switch (o) {
    case 0: x = at(r); same(LIB(A->row(x)), make<T>(1, c, [&](size_t, size_t j) { return a.at(x, j); }), "row"); { auto v = LIB(A->get_row_as_vec(x)); MC_CHECK((int)v.size() == c, "get_row_as_vec(%d) has %zu elements", x, v.size()); for (int j = 0; j < c; j++) MC_CHECK(v[j] == a.at(x, j), "get_row_as_vec(%d) of %s: element %d is wrong", x, str(a).c_str(), j); } break;
    case 1: x = at(c); same(LIB(A->col(x)), make<T>(r, 1, [&](size_t i, size_t) { return a.at(i, x); }), "col"); { auto v = LIB(A->get_col_as_vec(x)); MC_CHECK((int)v.size() == r, "get_col_as_vec(%d) has %zu elements", x, v.size()); for (int i = 0; i < r; i++) MC_CHECK(v[i] == a.at(i, x), "get_col_as_vec(%d) of %s: element %d is wrong", x, str(a).c_str(), i); } break;
    case 2: x = at(r); { y = mc::choose(2); Ref<T> s = y ? tags<T>(1, c, 80) : tags<T>(c, 1, 80); M<T> S = mk(s); MC_CHECK(LIB(A->set_row(x, S)), "set_row(%d) failed", x); for (int j = 0; j < c; j++) e.at(x, j) = s.v[j]; same(S, s, "argument of set_row"); } break;
    case 3: x = at(c); { y = mc::choose(2); Ref<T> s = y ? tags<T>(1, r, 80) : tags<T>(r, 1, 80); M<T> S = mk(s); MC_CHECK(LIB(A->set_col(x, S)), "set_col(%d) failed", x); for (int i = 0; i < r; i++) e.at(i, x) = s.v[i]; same(S, s, "argument of set_col"); } break;
    case 4: x = at(r); y = at(r); LIB((A->swap_rows(x, y), 0)); for (int j = 0; j < c; j++) std::swap(e.at(x, j), e.at(y, j)); break;
    case 5: x = at(c); y = at(c); LIB((A->swap_cols(x, y), 0)); for (int i = 0; i < r; i++) std::swap(e.at(i, x), e.at(i, y)); break;
    case 6: mc::assume(r > 1 && c > 1); x = at(r); y = at(c); same(LIB(A->shrink(x, y)), make<T>(r - 1, c - 1, [&](size_t i, size_t j) { return a.at(i + (i >= (size_t)x), j + (j >= (size_t)y)); }), "shrink"); break;
    case 7: if (vec) { x = cnt(n); same(LIB(A->left(x)), make<T>(r == 1 ? 1 : x, r == 1 ? x : 1, [&](size_t i, size_t j) { return a.v[i + j]; }), "left of a vector"); } else { x = cnt(c); same(LIB(A->left(x)), make<T>(r, x, [&](size_t i, size_t j) { return a.at(i, j); }), "left of a matrix"); } break;
    case 8: if (vec) { x = cnt(n); same(LIB(A->right(x)), make<T>(r == 1 ? 1 : x, r == 1 ? x : 1, [&](size_t i, size_t j) { return a.v[n - x + i + j]; }), "right of a vector"); } else { x = cnt(c); same(LIB(A->right(x)), make<T>(r, x, [&](size_t i, size_t j) { return a.at(i, c - x + j); }), "right of a matrix"); } break;
    case 9: { int lim = vec ? n : c; x = at(lim); y = from(x, lim); int w = y - x + 1; if (vec) same(LIB(A->mid(x, y)), make<T>(r == 1 ? 1 : w, r == 1 ? w : 1, [&](size_t i, size_t j) { return a.v[x + i + j]; }), "mid of a vector"); else same(LIB(A->mid(x, y)), make<T>(r, w, [&](size_t i, size_t j) { return a.at(i, x + j); }), "mid of a matrix"); break; }
    case 10: { M<T> t = LIB(susa::transpose(*A)); same(t, make<T>(c, r, [&](size_t i, size_t j) { return a.at(j, i); }), "transpose"); same(LIB(susa::transpose(t)), a, "transpose of the transpose"); break; }
    case 11: { M<T> f = LIB(susa::fliplr(*A)); if (r == 1 || c == 1) same(f, make<T>(r, c, [&](size_t i, size_t j) { return a.v[n - 1 - i - j]; }), "fliplr"); else same(f, make<T>(r, c, [&](size_t i, size_t j) { return a.at(i, c - 1 - j); }), "fliplr"); same(LIB(susa::fliplr(f)), a, "fliplr twice"); break; }
    case 12: { M<T> f = LIB(susa::flipud(*A)); if (r == 1 || c == 1) same(f, make<T>(r, c, [&](size_t i, size_t j) { return a.v[n - 1 - i - j]; }), "flipud"); else same(f, make<T>(r, c, [&](size_t i, size_t j) { return a.at(r - 1 - i, j); }), "flipud"); same(LIB(susa::flipud(f)), a, "flipud twice"); break; }
    case 13: { std::vector<int> d; for (int i = 1; i <= n; i++) if (n % i == 0) d.push_back(i); x = mc::any(d); Ref<T> q = a; q.r = x; q.c = n / x; M<T> t = LIB(A->reshape(x, n / x)); same(t, q, "reshape"); same(LIB(t.reshape(r, c)), a, "reshape back"); LIB(A->resize(x, n / x)); same(*A, q, "resize with the same number of elements"); e = q; break; }
  }
  same(*A, e, "object after the operation"); same(*B, b, "another object");
  mc::outcome(mc::Hash().u(r).u(c).u(o).u(x).u(y).h); mc::state(mc::Hash().u(hashref(e)).u(o).h);
  { mc::Lib l; delete A; delete B; } mc::heap_empty("after the operation");
}
template <class T> static void cat_large() {
  auto p = mc::any(large_shapes()); int r = p.first, c = p.second; mc::assume(r * c < 5000); bool vert = mc::flip(); int w = mc::any<int>({1, 2, 8, 17, 40, 70, 300}); mc::assume(w < 40 || (std::size_t)w * (r < c ? r : c) < 20000); Ref<T> a = tags<T>(r, c, 1), b = vert ? tags<T>(w, c, 7000) : tags<T>(r, w, 7000); mc::assume(vert || w != c); mc::assume(!vert || true);
  M<T> A = mk(a), B = mk(b); bool v = vert; MC_NOTE("concat %dx%d with %zux%zu", r, c, b.r, b.c); if (!v && b.c == a.c) return;
  M<T> R = LIB(susa::concat(A, B)); if (v) same(R, make<T>(r + b.r, c, [&](size_t i, size_t j) { return (int)i < r ? a.at(i, j) : b.at(i - r, j); }), "vertical concat"); else same(R, make<T>(r, c + b.c, [&](size_t i, size_t j) { return (int)j < c ? a.at(i, j) : b.at(i, j - c); }), "horizontal concat");
  same(A, a, "left operand"); same(B, b, "right operand"); mc::outcome(mc::Hash().u(r).u(c).u(w).u(vert).h); mc::state(hashref(snap(R)));
}
template <class T> static void cat() {
  int big = mc::pick(4, 5), r = mc::range(1, big), c = mc::range(1, big), r2 = mc::range(1, big), c2 = mc::range(1, big);
  mc::assume(r == r2 || c == c2);
  bool self = r == r2 && c == c2 && mc::flip();
  Ref<T> a = tags<T>(r, c, 1), b = self ? a : tags<T>(r2, c2, 60);
  M<T> *A, *B; { mc::Lib l; A = new M<T>(mk(a)); B = self ? A : new M<T>(mk(b)); }
  MC_NOTE("concat %s %s", str(a).c_str(), str(b).c_str());
  M<T> R = LIB(susa::concat(*A, *B));
  if (c == c2) same(R, make<T>(r + r2, c, [&](size_t i, size_t j) { return (int)i < r ? a.at(i, j) : b.at(i - r, j); }), "vertical concat");
  else same(R, make<T>(r, c + c2, [&](size_t i, size_t j) { return (int)j < c ? a.at(i, j) : b.at(i, j - c); }), "horizontal concat");
  same(*A, a, "left operand"); same(*B, b, "right operand");
  mc::outcome(mc::Hash().u(r).u(c).u(r2).u(c2).u(self).h); mc::state(hashref(snap(R)));
  { mc::Lib l; delete A; if (!self) delete B; }
}
// sequences of operations that change one matrix, reference contents kept in step
template <class T> static void seq() {
  int r = mc::range(1, 3), c = mc::range(1, 3); Ref<T> a = tags<T>(r, c, 1), s = tags<T>(1, 9, 60);
  M<T> *A, *S; { mc::Lib l; A = new M<T>(mk(a)); S = new M<T>(mk(s)); }
  int depth = mc::pick(3, 4);
  for (int d = 0; d < depth; d++) {
    int o = mc::choose(9), x = 0, y = 0;
    if (o == 0) { x = mc::choose(a.r); MC_NOTE("set_row(%d)", x); LIB(A->set_row(x, *S)); for (size_t j = 0; j < a.c; j++) a.at(x, j) = s.v[j]; }
    if (o == 1) { x = mc::choose(a.c); MC_NOTE("set_col(%d)", x); LIB(A->set_col(x, *S)); for (size_t i = 0; i < a.r; i++) a.at(i, x) = s.v[i]; }
    if (o == 2) { x = mc::choose(a.r); y = mc::choose(a.r); MC_NOTE("swap_rows(%d,%d)", x, y); LIB((A->swap_rows(x, y), 0)); for (size_t j = 0; j < a.c; j++) std::swap(a.at(x, j), a.at(y, j)); }
    if (o == 3) { x = mc::choose(a.c); y = mc::choose(a.c); MC_NOTE("swap_cols(%d,%d)", x, y); LIB((A->swap_cols(x, y), 0)); for (size_t i = 0; i < a.r; i++) std::swap(a.at(i, x), a.at(i, y)); }
    if (o == 4) { MC_NOTE("resize(%zu,%zu)", a.c, a.r); LIB(A->resize(a.c, a.r)); std::swap(a.r, a.c); }
    if (o == 5) { MC_NOTE("a = transpose(a)"); Ref<T> t = make<T>(a.c, a.r, [&](size_t i, size_t j) { return a.at(j, i); }); LIB((*A = susa::transpose(*A), 0)); a = t; }
    if (o == 6) { MC_NOTE("a = a.row/col of itself copied back"); x = mc::choose(a.r); y = mc::choose(a.r); LIB(A->set_row(x, A->row(y))); for (size_t j = 0; j < a.c; j++) a.at(x, j) = a.at(y, j); }
    if (o == 7) { x = mc::choose(a.r); MC_NOTE("set_row(%d, itself)", x); Ref<T> t = a; LIB(A->set_row(x, *A)); for (size_t j = 0; j < a.c; j++) a.at(x, j) = t.v[j]; }
    if (o == 8) { x = mc::choose(a.c); MC_NOTE("set_col(%d, itself)", x); Ref<T> t = a; LIB(A->set_col(x, *A)); for (size_t i = 0; i < a.r; i++) a.at(i, x) = t.v[i]; }
    same(*A, a, "matrix"); same(*S, s, "source of the writes"); mc::heap_ok();
    mc::outcome(mc::Hash().u(hashref(a)).u(o).u(x).u(y).h);
    if (d + 1 < depth) mc::prune(mc::Hash().u(hashref(a)).u(depth - d).u(mc::Canon().obj(A, sizeof *A).k.h).h);
  }
  { mc::Lib l; delete A; delete S; } mc::heap_empty("after the sequence");
}
#if MC_PART == 0
MC_SCENARIO(ops_large) { ops<double>(true); }
MC_SCENARIO(cat_large_sizes) { cat_large<int>(); }
MC_SCENARIO(ops_double) { ops<double>(); }
MC_SCENARIO(ops_int8) { ops<int8_t>(); }
MC_SCENARIO(cat_double) { cat<double>(); }
MC_SCENARIO(seq_double) { seq<double>(); }
#else
MC_SCENARIO(ops_large_int) { ops<int>(true); }
MC_SCENARIO(ops_int) { ops<int>(); }
MC_SCENARIO(ops_complex) { ops<std::complex<double>>(); }
MC_SCENARIO(cat_int8) { cat<int8_t>(); }
MC_SCENARIO(cat_complex) { cat<std::complex<double>>(); }
MC_SCENARIO(seq_int8) { seq<int8_t>(); }
#endif
MC_MAIN
