// C03: out-of-range indices and incompatible shapes never touch foreign memory; both assertion configurations.
//MC-VARIANT assert: -O1 -fsanitize=address -DSUSA_NDEBUG
//MC-VARIANT noassert: -O1 -fsanitize=address -DSUSA_NDEBUG -DSUSA_NASSERT
//MC-BOUND shapes 0x0 and 1..4 x 1..4 (thorough 1..7) plus 1x65 and 65x2; indices 0..dim+2, 2^31, 2^32, 2^63, SIZE_MAX and values that wrap the linear index; shapes of up to SIZE_MAX x SIZE_MAX whose element count or byte count does not fit; every accessor; three element types; both assertion configurations
//MC-ASSUME a call that is not index-checked by the library (row, col) may return unspecified elements, but must not read or write foreign memory; left/right of zero columns are outside the domain
#include "mat.h"
#ifdef SUSA_NASSERT
static const bool NOASSERT = true;
#else
static const bool NOASSERT = false;
#endif
static std::vector<size_t> idx(size_t n, size_t wrap) {
  std::vector<size_t> v;
  for (size_t i = 0; i <= n + 2; i++) if (i < 4 || i + 4 > n) v.push_back(i);
  for (size_t x : {(size_t)1 << 31, (size_t)1 << 32, (size_t)1 << 63, SIZE_MAX, SIZE_MAX - 1}) v.push_back(x);
  if (wrap > 1) { v.push_back((SIZE_MAX / wrap) + 1); v.push_back(((size_t)1 << 63) / wrap * 2 + 1); }   // index * wrap overflows
  return v;
}
static void shape(size_t &r, size_t &c) {
  int m = mc::pick(4, 7), k = mc::choose(m * m + 3);
  if (k == 0) { r = c = 0; } else if (k == 1) { r = 1; c = 65; } else if (k == 2) { r = 65; c = 2; } else { r = (size_t)((k - 3) / m + 1); c = (size_t)((k - 3) % m + 1); }
}
template <class T> static susa::matrix<T> make(const Ref<T> &e) { if (e.r == 0) return susa::matrix<T>(); return mk(e); }

// runs f; in the assert configuration an invalid call must stop, in the other it must return and leave m alone
template <class T, class F> static bool call(susa::matrix<T> &m, const Ref<T> &e, bool valid, bool muststop, const char *what, F f) {
  mc::step();
  bool ab = mc::aborts(f);
  MC_NOTE("%s on %zux%zu: %s", what, e.r, e.c, ab ? "stopped by assertion" : "returned");
  if (valid) MC_CHECK(!ab, "%s with valid arguments on a %zux%zu matrix stopped by an assertion", what, e.r, e.c);
  else if (NOASSERT) MC_CHECK(!ab, "%s on a %zux%zu matrix stopped the process although assertions are disabled", what, e.r, e.c);
  else if (muststop) MC_CHECK(ab, "%s on a %zux%zu matrix is outside the matrix but was not stopped by an assertion", what, e.r, e.c);
  if (!valid) same(m, e, "matrix after an out-of-range call");
  mc::outcome(mc::Hash().s(what).u(valid).u(ab).h);
  return ab;
}
template <class T> static void elements() {
  size_t r, c; shape(r, c);
  Ref<T> e = tagged<T>(r, c);
  int o = mc::choose(8);
  mc::state(mc::Hash().u(r).u(c).u(o).h);
  T got[2] = {T(0), T(0)}; bool gotv = false;
  size_t i = 0, j = 0; bool lin = o >= 4;
  if (lin) i = mc::any(idx(r * c, 1)); else { i = mc::any(idx(r, 1)); j = mc::any(idx(c, r)); }
  bool valid = lin ? i < r * c : (i < r && j < c);
  for (int pass = 0; pass < 2; pass++) {
    mc::g_fill = pass ? 0x11 : 0xBF;
    susa::matrix<T> *mp; { mc::Lib l; mp = new susa::matrix<T>(make(e)); }
    susa::matrix<T> &m = *mp; const susa::matrix<T> &cm = m;
    T x = T(0); bool ab = false;
    switch (o) {
      case 0: ab = call(m, e, valid, true, "get(r,c)", [&] { x = cm.get(i, j); }); break;
      case 1: ab = call(m, e, valid, true, "const (r,c)", [&] { x = cm(i, j); }); break;
      case 2: ab = call(m, e, valid, true, "(r,c)", [&] { x = m(i, j); }); break;
      case 3: ab = call(m, e, valid, true, "(r,c)=", [&] { m(i, j) = T(77); }); break;
      case 4: ab = call(m, e, valid, true, "get(i)", [&] { x = cm.get(i); }); break;
      case 5: ab = call(m, e, valid, true, "const (i)", [&] { x = cm(i); }); break;
      case 6: ab = call(m, e, valid, true, "(i)", [&] { x = m(i); }); break;
      case 7: ab = call(m, e, valid, true, "(i)=", [&] { m(i) = T(77); }); break;
    }
    size_t li = lin ? i : i + j * r;
    if (o == 3 || o == 7) { if (valid) { Ref<T> w = e; w.v[li] = T(77); same(m, w, "matrix after a valid write"); } }
    else if (!ab) { if (valid) MC_CHECK(x == e.v[li], "valid read of (%zu,%zu) returned %s, expected %s", i, j, str(x).c_str(), str(e.v[li]).c_str()); got[pass] = x; gotv = true; }
    // an out-of-range write must not change what a later out-of-range read reports
    if (NOASSERT && !valid && (o == 3 || o == 7)) { T y = lin ? cm.get(i) : cm.get(i, j), z = lin ? m(i) : m(i, j); susa::matrix<T> f(make(e)); const susa::matrix<T> &cf = f; T y2 = lin ? cf.get(i) : cf.get(i, j), z2 = lin ? f(i) : f(i, j);
      MC_CHECK(y == y2 && z == z2, "an out-of-range write changed what an out-of-range read returns"); }
    if (!ab) { { mc::Lib l; delete mp; } mc::heap_ok(); if (mc::g_nblk) mc::heap_empty("by an element access"); }
    else { mc::g_nblk = 0; }
  }
  if (gotv) MC_CHECK(got[0] == got[1], "out-of-range read of (%zu,%zu) in a %zux%zu matrix depends on memory outside the matrix: %s or %s", i, j, r, c, str(got[0]).c_str(), str(got[1]).c_str());
}
template <class T> static void lines() {
  size_t r, c; shape(r, c);
  Ref<T> e = tagged<T>(r, c);
  susa::matrix<T> m = make(e);
  int o = mc::choose(8);
  mc::state(mc::Hash().u(r).u(c).u(o).u(99).h);
  switch (o) {
    case 0: case 1: {
      size_t i = mc::any(idx(o ? c : r, o ? r : 1)), need = o ? r : c;
      size_t n = mc::any<size_t>({need, need + 1, need > 1 ? need - 1 : need, (size_t)1});
      if (n == 0) n = 1;
      susa::matrix<T> a(1, n, T(50)); bool res = true; bool valid = i < (o ? c : r) && n >= need;
      char w[64]; snprintf(w, sizeof w, "%s(%zu, %zu elements)", o ? "set_col" : "set_row", i, n);
      bool ab = call(m, e, valid, true, w, [&] { res = o ? m.set_col(i, a) : m.set_row(i, a); });
      if (!ab) MC_CHECK(res == valid, "%s on %zux%zu returned %d", w, r, c, (int)res);
      if (valid) { Ref<T> q = e; for (size_t k = 0; k < need; k++) (o ? q.at(k, i) : q.at(i, k)) = T(50); same(m, q, w); }
      break; }
    case 2: case 3: {
      size_t n = o == 3 ? c : r; size_t i = mc::any(idx(n, o == 3 ? r : 1)), j = mc::any(idx(n, o == 3 ? r : 1)); bool valid = i < n && j < n;
      char w[64]; snprintf(w, sizeof w, "%s(%zu,%zu)", o == 3 ? "swap_cols" : "swap_rows", i, j);
      call(m, e, valid, true, w, [&] { if (o == 3) m.swap_cols(i, j); else m.swap_rows(i, j); });
      if (valid) { Ref<T> q = e; for (size_t k = 0; k < (o == 3 ? r : c); k++) if (o == 3) std::swap(q.at(k, i), q.at(k, j)); else std::swap(q.at(i, k), q.at(j, k)); same(m, q, w); }
      break; }
    case 4: {
      size_t i = mc::any(idx(r, 1)), j = mc::any(idx(c, r)); bool valid = r > 1 && c > 1 && i < r && j < c; susa::matrix<T> *res = nullptr;
      char w[64]; snprintf(w, sizeof w, "shrink(%zu,%zu)", i, j);
      call(m, e, valid, r > 0, w, [&] { res = new susa::matrix<T>(m.shrink(i, j)); });
      if (res) MC_CHECK(res->size() == res->no_rows() * res->no_cols(), "shrink result shape");
      break; }
    case 5: {
      bool col = mc::flip(); size_t n = col ? c : r; size_t i = mc::any(idx(n, col ? r : 1)); bool asvec = mc::flip();
      char w[64]; snprintf(w, sizeof w, "%s%s(%zu)", col ? "col" : "row", asvec ? " as vec" : "", i);
      mc::assume(r > 0);
      call(m, e, i < n, asvec, w, [&] { if (asvec) { std::vector<T> v = col ? m.get_col_as_vec(i) : m.get_row_as_vec(i); MC_CHECK(v.size() == (col ? r : c), "vector length"); }
        else { susa::matrix<T> v = col ? m.col(i) : m.row(i); MC_CHECK(v.no_rows() == (col ? r : 1) && v.no_cols() == (col ? 1 : c), "shape of a row or column"); } });
      break; }
    case 6: {
      bool right = mc::flip(); size_t n = (r == 1 || c == 1) && r * c > 1 ? r * c : c; size_t k = mc::any(idx(n, r)); mc::assume(k > 0);
      if (r == 1 && c == 1) n = 1;
      char w[64]; snprintf(w, sizeof w, "%s(%zu)", right ? "right" : "left", k); susa::matrix<T> *res = nullptr;
      call(m, e, r > 0 && k <= n, true, w, [&] { res = new susa::matrix<T>(right ? m.right(k) : m.left(k)); });
      if (res) for (size_t z = 0; z < res->size(); z++) { T t = res->get(z); bool in = false; for (auto &y : e.v) in |= y == t; MC_CHECK(in, "%s of a %zux%zu matrix delivered %s, which is not an element of it", w, r, c, str(t).c_str()); }
      break; }
    case 7: {
      size_t n = (r == 1 || c == 1) && r * c > 1 ? r * c : c; size_t b = mc::any(idx(n, r)), k = mc::any(idx(n, r));
      char w[64]; snprintf(w, sizeof w, "mid(%zu,%zu)", b, k); susa::matrix<T> *res = nullptr;
      call(m, e, r > 0 && b <= k && k < n, true, w, [&] { res = new susa::matrix<T>(m.mid(b, k)); });
      if (res) for (size_t z = 0; z < res->size(); z++) { T t = res->get(z); bool in = false; for (auto &y : e.v) in |= y == t; MC_CHECK(in, "%s of a %zux%zu matrix delivered %s, which is not an element of it", w, r, c, str(t).c_str()); }
      break; }
  }
}
template <class T> static void mismatched() {
  int m = 3;
  size_t r = (size_t)mc::range(1, m), c = (size_t)mc::range(1, m), r2 = (size_t)mc::range(1, m), c2 = (size_t)mc::range(1, m);
  Ref<T> e = tagged<T>(r, c), e2 = tagged<T>(r2, c2, 100);
  susa::matrix<T> a = mk(e), b = mk(e2);
  int o = mc::choose(8); bool eq = r == r2 && c == c2; mc::state(mc::Hash().u(r).u(c).u(r2).u(c2).u(o).h);
  static const char *N[8] = {"a+b", "a-b", "a*b", "a/b", "a+=b", "a-=b", "matmul", "concat"};
  bool valid = o == 6 ? c == r2 : o == 7 ? (c == c2 || r == r2) : eq;
  susa::matrix<T> *res = nullptr;
  Ref<T> keep = e;
  mc::step();
  bool ab = mc::aborts([&] { switch (o) {
    case 0: res = new susa::matrix<T>(a + b); break; case 1: res = new susa::matrix<T>(a - b); break; case 2: res = new susa::matrix<T>(a * b); break; case 3: res = new susa::matrix<T>(a / b); break;
    case 4: a += b; break; case 5: a -= b; break; case 6: res = new susa::matrix<T>(matmul(a, b)); break; case 7: res = new susa::matrix<T>(concat(a, b)); break; } });
  MC_NOTE("%s of %zux%zu and %zux%zu: %s", N[o], r, c, r2, c2, ab ? "stopped" : "returned");
  if (valid) MC_CHECK(!ab, "%s of compatible %zux%zu and %zux%zu stopped by an assertion", N[o], r, c, r2, c2);
  else if (NOASSERT) MC_CHECK(!ab, "%s of incompatible shapes stopped although assertions are disabled", N[o]);
  else if (o != 7) MC_CHECK(ab, "%s of incompatible %zux%zu and %zux%zu was not stopped", N[o], r, c, r2, c2);
  if (!valid || (o != 4 && o != 5)) same(a, e, "left operand");
  same(b, e2, "right operand");
  if (res) MC_CHECK(res->size() == res->no_rows() * res->no_cols(), "result shape");
  mc::outcome(mc::Hash().u(o).u(valid).u(ab).h);
}
// shapes whose number of elements or bytes does not fit: no object may claim elements that it does not own
template <class T> static void impossible() {
  static const size_t S[] = {1, 2, 3, 5, (size_t)1 << 31, ((size_t)1 << 32) - 1, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 33, ((size_t)1 << 60) + 1, (size_t)1 << 61, ((size_t)1 << 61) + 1, (size_t)1 << 62, (size_t)1 << 63, ((size_t)1 << 63) + 2, ~(size_t)0 / 3, ~(size_t)0 / 3 + 1, ~(size_t)0 - 1, ~(size_t)0};
  size_t r = S[mc::choose(19)], c = S[mc::choose(19)]; int o = mc::choose(5), dirty = mc::choose(2); unsigned __int128 n = (unsigned __int128)r * c; mc::assume(n >= (unsigned __int128)1 << 32 || n < 64); mc::g_fill = dirty ? 0x11 : 0xBF;
  static const char *const W[] = {"matrix(r,c)", "matrix(r,c,x)", "matrix(shape)", "matrix(shape,x)", "resize(r,c)"}; MC_NOTE("%s with %zu rows and %zu columns", W[o], r, c); mc::step();
  using M = susa::matrix<T>; M *m = nullptr; bool thrown = false, ok = true; { mc::Lib l; if (o == 4) m = new M(2, 3, T(7)); }
  bool ab = mc::aborts([&] { mc::Lib l; try { switch (o) { case 0: m = new M(r, c); break; case 1: m = new M(r, c, T(5)); break; case 2: m = new M(std::make_tuple(r, c)); break; case 3: m = new M(std::make_tuple(r, c), T(5)); break; case 4: ok = m->resize(r, c); break; } } catch (std::bad_alloc &) { thrown = true; } });
  if (n < 64) { MC_CHECK(!ab && !thrown && ok && m->size() == n && m->no_rows() == r && m->no_cols() == c, "%s refused %zux%zu", W[o], r, c); }
  else MC_CHECK(ab ? !NOASSERT : thrown || (m->size() == 0 && m->no_rows() == 0 && m->no_cols() == 0), "%s produced a %zux%zu matrix of %zu elements for %zu rows and %zu columns", W[o], m->no_rows(), m->no_cols(), m->size(), r, c);
  if (!ab && m) { MC_CHECK((unsigned __int128)m->no_rows() * m->no_cols() == m->size(), "%s: a %zux%zu matrix of %zu elements", W[o], m->no_rows(), m->no_cols(), m->size());
    size_t k = m->no_rows(), q = m->no_cols(); for (size_t i : {(size_t)0, (size_t)1, k - 1, k, r - 1, r}) for (size_t j : {(size_t)0, (size_t)1, q - 1, q, c - 1, c}) if (NOASSERT || (i < k && j < q)) { (*m)(i, j) = T(3); (void)m->get(i, j); }
    if (NOASSERT || m->size()) m->set_all(T(1));
    { mc::Lib l; *m = M(2, 2, T(9)); } same(*m, Ref<T>(2, 2, T(9)), "matrix assigned afterwards"); { mc::Lib l; delete m; } mc::heap_empty("after an impossible shape"); }
  mc::state(mc::Hash().u(r).u(c).u(o).u(ab).h); mc::outcome(mc::Hash().u(r).u(c).u(o).u(sizeof(T)).h);
}
MC_SCENARIO(impossible_double) { impossible<double>(); }
MC_SCENARIO(impossible_int8) { impossible<int8_t>(); }
MC_SCENARIO(elements_double) { elements<double>(); }
MC_SCENARIO(elements_int8) { elements<int8_t>(); }
MC_SCENARIO(elements_complex) { elements<std::complex<float>>(); }
MC_SCENARIO(lines_double) { lines<double>(); }
MC_SCENARIO(lines_int8) { lines<int8_t>(); }
MC_SCENARIO(mismatched_shapes) { mismatched<double>(); }
MC_MAIN
