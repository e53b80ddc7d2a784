// C32: a call whose precondition does not hold is refused - by an assertion, or with a predefined result when assertions
// are disabled - and a call whose precondition holds is never refused.
//MC-VARIANT assert: -O1 -fsanitize=address -DSUSA_NDEBUG
//MC-VARIANT noassert: -O1 -fsanitize=address -DSUSA_NDEBUG -DSUSA_NASSERT
//MC-BOUND every shape up to 5x5 (thorough 8x8), vectors up to 17 (40) and the empty matrix as argument of every function with a checked precondition (selection, sorting, searching, paths, products, transposition, convolution, transforms, solvers, pulse shape, codes, reshaping, zero dimensions), every access to arrays of one to four dimensions with up to four indices inside and outside, every index around the limits of elements, rows, columns and parts, every non-empty shape for the functions without a precondition, every pair of shapes up to 4x4 (5x5) for two operands, every count or index from 0 to 3 beyond the limit and huge ones; lengths, counts, filter lengths, numbers of outputs and of nodes around 2^8 and 2^16; both assertion configurations; fresh memory filled with two patterns; refused calls followed by a valid one
//MC-ASSUME a precondition is what the library asserts; a refused call gives the same result whatever fresh memory holds (transforms, selections of too many elements, paths from no node and elements and parts outside also whatever the operand holds), and leaves its operands unchanged
#include "mat.h"
#ifdef SUSA_NASSERT
static const bool NOASSERT = true;
#else
static const bool NOASSERT = false;
#endif
typedef susa::matrix<double> MD; typedef susa::matrix<unsigned> MU; typedef susa::matrix<uint8_t> MB; typedef std::complex<double> cd;
struct H { mc::Hash k; template <class T> H &m(const susa::matrix<T> &x) { k.u(x.no_rows()).u(x.no_cols()).u(x.size()); MC_CHECK(x.size() == x.no_rows() * x.no_cols() , "the result claims %zu elements but is %zux%zu", x.size(), x.no_rows(), x.no_cols()); for (size_t i = 0; i < x.size(); i++) v(x.get(i)); return *this; } H &v(cd x) { k.d(x.real()).d(x.imag()); return *this; } template <class T> H &v(T x) { k.d((double)x); return *this; } };
static bool vec(size_t r, size_t c) { return (r == 1) != (c == 1) && r * c > 1; }
static bool p2(size_t n) { return n && !(n & (n - 1)); }
static void shape(size_t &r, size_t &c) { int m = mc::pick(5, 8), l = mc::pick(17, 40), k = mc::choose(m * m + 1 + 2 * l); if (k < m * m) { r = k / m + 1; c = k % m + 1; } else if (k == m * m) r = c = 0; else { k -= m * m + 1; r = k < l ? 1 : k - l + 1; c = k < l ? k + 1 : 1; } }
static MD make(size_t r, size_t c, int s = 0) { if (r == 0) return MD(); MD a(r, c); for (size_t i = 0; i < r * c; i++) a(i) = (double)((i * 5 + s * 3 + 2) % 11) - 3.0 + s; return a; }
// runs a call under two memory fills; f returns a hash of everything it obtained
template <class F> static void judge(bool valid, const char *what, const std::string &on, F f) {
  uint64_t got[2] = {0, 0}; bool ab[2] = {false, false};
  for (int pass = 0; pass < 2; pass++) {
    mc::g_fill = pass ? 0x11 : 0xBF; mc::dirty_stack(pass ? 0x22 : 0x77); mc::step();
    uint64_t r = 0; bool a = mc::aborts([&] { mc::Lib l; r = f(); }); ab[pass] = a; got[pass] = r;
    MC_NOTE("%s %s: %s", what, on.c_str(), a ? "stopped by assertion" : "returned");
    if (a) { mc::g_nblk = 0; mc::g_live_bytes = 0; } else mc::heap_empty("by the call");
    if (valid) MC_CHECK(!a, "%s %s satisfies its precondition but was stopped by an assertion", what, on.c_str());
    else if (NOASSERT) MC_CHECK(!a, "%s %s stopped the process although assertions are disabled", what, on.c_str());
    else MC_CHECK(a, "%s %s violates its precondition but was not stopped by an assertion", what, on.c_str());
  }
  MC_CHECK(ab[0] == ab[1] && got[0] == got[1], "%s %s gives a result that depends on what fresh memory holds", what, on.c_str());
  mc::outcome(mc::Hash().s(what).u(valid).u(got[0]).h);
}
// refused: the result is predefined, so it does not depend on what the operand holds
template <class F> static void judge(bool valid, const char *what, const std::string &on, const MD &m, F f, bool predefined = true) {
  judge(valid, what, on, [&] { return f(m); });
  if (NOASSERT && !valid && predefined) { MD o(m); for (size_t i = 0; i < o.size(); i++) o(i) = (double)((i * 7 + 3) % 13) + 1.5; uint64_t a, b; { mc::Lib l; a = f(m); b = f((const MD &)o); } MC_CHECK(a == b, "%s %s is refused, but what it returns depends on the contents of its operand", what, on.c_str()); } }
static void decomposed(bool square, bool ok, const char *what, const std::string &on) { MC_CHECK(square || !ok, "%s reports success for the %s matrix", what, on.c_str()); }
static std::string S(size_t r, size_t c) { return std::to_string(r) + "x" + std::to_string(c); }
static void unchanged(const MD &m, const Ref<double> &e) { same(m, e, "the operand of a refused call"); }

MC_SCENARIO(one_matrix) {
  size_t r, c; shape(r, c); int o = mc::choose(17); MD m = make(r, c); Ref<double> e = snap(m); const MD &cm = m; size_t n = r * c; bool V = vec(r, c), sq = r == c;
  mc::state(mc::Hash().u(r).u(c).u(o).h); std::string on = "of " + S(r, c);
  switch (o) {
    case 0: judge(V, "sort", on, [&] { return H().m(susa::sort(cm)).k.h; }); break;
    case 1: judge(V, "sort_indices", on, [&] { return H().m(susa::sort_indices(cm)).k.h; }); break;
    case 2: { double x = 1; judge(V, "find", on, [&] { H h; auto s = susa::find(cm, x); for (size_t i = 0; i < n + 3; i++) h.v(s.exists(i)); return h.k.h; }); break; }
    case 3: case 4: case 5: { size_t k = mc::any(std::vector<size_t>{1, n ? n - 1 : 1, n, n + 1, n + 3, 70}); mc::assume(k > 0); MU lim; if (n) { lim = MU(n, 1); for (size_t i = 0; i < n; i++) lim(i) = i; }
      judge(V && k <= n, o == 3 ? "select_least" : o == 4 ? "select_most" : "select_limited_least", on + " for " + std::to_string(k), cm, [&](const MD &cm) { return H().m(o == 3 ? susa::select_least(cm, k) : o == 4 ? susa::select_most(cm, k) : susa::select_limited_least(cm, lim, k)).k.h; }, k > n); break; }
    case 6: { unsigned s = mc::any<unsigned>({0u, 1u, (unsigned)(r ? r - 1 : 0), (unsigned)r, (unsigned)r + 1, 0x80000000u, 0xffffffffu}); MD g = n ? susa::abs(cm) : MD(); judge(n && sq && s < r, "dijkstra", on + " from " + std::to_string(s), [&] { return H().m(susa::dijkstra(g, s)).k.h; }); break; }
    case 7: { size_t k = mc::range(1, 4); judge(V, "convmtx", on, [&] { return H().m(susa::convmtx(cm, k)).k.h; }); break; }
    case 8: judge(n && (V ? p2(n) : p2(r)), "radix2", on, cm, [&](const MD &cm) { susa::fft<double> f; return H().m(f.radix2(cm)).k.h; }); break;
    case 9: judge(n > 0, "transpose", on, cm, [&](const MD &cm) { return H().m(susa::transpose(cm)).k.h; }); break;
    case 10: { susa::matrix<cd> z; if (n) z = susa::to_complex(cm); judge(n > 0, "hermitian", on, [&] { return H().m(susa::hermitian(z)).k.h; }); break; }
    case 11: mc::assume(n > 0); judge(sq, "lu", on, cm, [&](const MD &cm) { H h; susa::lu<double> l(cm); bool ok = l.decompose(); decomposed(sq, ok, "lu::decompose", on); h.v(ok); return h.m(l.get_lower()).m(l.get_upper()).k.h; }); break;
    case 12: mc::assume(n > 0); judge(sq, "lup", on, cm, [&](const MD &cm) { H h; susa::lup<double> l(cm); bool ok = l.decompose(); decomposed(sq, ok, "lup::decompose", on); h.v(ok).m(l.get_lu()).m(l.get_pivot()); ok = l.decompose_alt(); decomposed(sq, ok, "lup::decompose_alt", on); return h.v(ok).m(l.get_lu()).m(l.get_pivot()).k.h; }); break;
    case 13: { mc::assume(n > 0); size_t a = mc::range(0, 7), b = mc::range(0, 7); judge(a * b == n, "reshape", on + " to " + S(a, b), [&] { MD t(cm); H h; h.m(t.reshape(a, b)).m(t); return h.k.h; }); break; }
    case 14: { mc::assume(n > 0); size_t a = mc::range(0, 3), b = mc::range(0, 3); mc::assume(a * b == 0); judge(false, "resize", on + " to " + S(a, b), [&] { MD t(cm); H h; h.v(t.resize(a, b)); t.set_all(2); h.m(t); return h.k.h; }); break; }
    case 15: mc::assume(n > 0); judge(n > 0, "det", on, [&] { return H().v(susa::det(sq && r > 4 ? MD(cm.left(1)) : cm)).k.h; }); break;
    case 16: mc::assume(n > 0); { size_t k = mc::any<size_t>({1, c, c + 1, r + 1}); MD b = make(k, 1, 1); judge(sq, "lup solve", on + " with " + std::to_string(k) + " right-hand sides", [&] { H h; susa::lup<double> l(cm); bool ok = l.decompose(); h.v(ok); if (!sq || ok) h.m(l.solve(b)); return h.k.h; }); } break;
  }
  unchanged(m, e);
}
MC_SCENARIO(two_matrices) {
  int M = mc::pick(4, 5); auto sh = [&](size_t &r, size_t &c) { int k = mc::choose(M * M + 1); r = k ? (k - 1) / M + 1 : 0; c = k ? (k - 1) % M + 1 : 0; };
  size_t r, c, r2, c2; sh(r, c); sh(r2, c2); MD a = make(r, c), b = make(r2, c2, 1); Ref<double> ea = snap(a), eb = snap(b); const MD &ca = a, &cb = b; bool ne = r && r2, eq = r == r2 && c == c2; int o = mc::choose(11);
  mc::state(mc::Hash().u(r).u(c).u(r2).u(c2).u(o).h); std::string on = "of " + S(r, c) + " and " + S(r2, c2); if (!ne && !(o == 4 || o == 5)) mc::assume(!eq);
  switch (o) {
    case 0: judge(eq, "+", on, [&] { return H().m(ca + cb).k.h; }); break;
    case 1: judge(eq, "-", on, [&] { return H().m(ca - cb).k.h; }); break;
    case 2: judge(eq, "*", on, [&] { return H().m(ca * cb).k.h; }); break;
    case 3: judge(eq, "/", on, [&] { return H().m(ca / cb).k.h; }); break;
    case 4: judge(ne && c == r2, "matmul", on, [&] { return H().m(susa::matmul(ca, cb)).k.h; }); break;
    case 5: mc::assume(ne); { bool ok = (r * c == 1) || (r2 * c2 == 1) || vec(r, c) || vec(r2, c2); judge(ok, "conv", on, [&] { return H().m(susa::conv(ca, cb)).k.h; }); } break;
    case 6: mc::assume(ne); judge(true, "==", on, [&] { return H().v(ca == cb).v(ca != cb).k.h; }); break;
    case 7: mc::assume(r > 0); judge(eq, "+=", on, [&] { MD t(ca); t += cb; return H().m(t).k.h; }); break;
    case 8: mc::assume(r > 0); judge(eq, "-=", on, [&] { MD t(ca); t -= cb; return H().m(t).k.h; }); break;
    case 9: mc::assume(ne && !vec(r, c) && r * c > 1); { size_t i = mc::range(0, (int)r + 1); bool ok = i < r && r2 * c2 >= c; judge(ok, "set_row", on, [&] { MD t(ca); bool q = t.set_row(i, cb); MC_CHECK(q == ok, "set_row returned %d", (int)q); return H().m(t).k.h; }); } break;
    case 10: mc::assume(ne && !vec(r, c) && r * c > 1); { size_t i = mc::range(0, (int)c + 1); bool ok = i < c && r2 * c2 >= r; judge(ok, "set_col", on, [&] { MD t(ca); bool q = t.set_col(i, cb); MC_CHECK(q == ok, "set_col returned %d", (int)q); return H().m(t).k.h; }); } break;
  }
  unchanged(a, ea); unchanged(b, eb);
}
// elements, lines and parts: every index around the limits and huge ones
static size_t idx(size_t n) { std::vector<size_t> v; for (size_t k = 0; k <= n + 1; k++) if (k < 4 || k + 3 > n) v.push_back(k); v.push_back(0x100000000ull); v.push_back(~(size_t)0); return mc::any(v); }
MC_SCENARIO(parts) {
  size_t r, c; shape(r, c); mc::assume(r * c); MD m = make(r, c); Ref<double> e = snap(m); const MD &cm = m; size_t n = r * c, w = vec(r, c) ? n : c, i, j; int o = mc::choose(16); std::string on = "of " + S(r, c) + " at ";
  auto at = [&] { return on + std::to_string(i) + " " + std::to_string(j); };
  switch (o) {
    case 0: i = idx(r); j = idx(c); judge(i < r && j < c, "get", at(), cm, [&](const MD &cm) { return H().v(cm.get(i, j)).k.h; }); break;
    case 1: i = idx(r); j = idx(c); judge(i < r && j < c, "(row,col)", at(), cm, [&](const MD &cm) { return H().v(cm(i, j)).k.h; }); break;
    case 2: i = idx(r); j = idx(c); judge(i < r && j < c, "(row,col)=", at(), [&] { MD t(cm); t(i, j) = 4; return H().m(t).k.h; }); break;
    case 3: i = j = idx(n); judge(i < n, "get", at(), cm, [&](const MD &cm) { return H().v(cm.get(i)).k.h; }); break;
    case 4: i = j = idx(n); judge(i < n, "(i)", at(), cm, [&](const MD &cm) { return H().v(cm(i)).k.h; }); break;
    case 5: i = j = idx(n); judge(i < n, "(i)=", at(), [&] { MD t(cm); t(i) = 4; return H().m(t).k.h; }); break;
    case 6: i = j = idx(r); mc::assume(i < r); judge(true, "row", at(), [&] { H h; h.m(cm.row(i)); MD t(cm); for (double x : t.get_row_as_vec(i)) h.v(x); return h.k.h; }); break;
    case 7: i = j = idx(c); mc::assume(i < c); judge(true, "col", at(), [&] { H h; h.m(cm.col(i)); MD t(cm); for (double x : t.get_col_as_vec(i)) h.v(x); return h.k.h; }); break;
    case 8: i = j = idx(w); mc::assume(i > 0); judge(i <= w, "left", at(), cm, [&](const MD &cm) { return H().m(cm.left(i)).k.h; }); break;
    case 9: i = j = idx(w); mc::assume(i > 0); judge(i <= w, "right", at(), cm, [&](const MD &cm) { return H().m(cm.right(i)).k.h; }); break;
    case 10: i = idx(w); j = idx(w); judge(i <= j && j < w, "mid", at(), cm, [&](const MD &cm) { return H().m(cm.mid(i, j)).k.h; }); break;
    case 11: i = idx(r); j = idx(c); judge(r > 1 && c > 1 && i < r && j < c, "shrink", at(), [&] { return H().m(cm.shrink(i, j)).k.h; }); break;
    case 12: i = idx(r); j = idx(r); judge(i < r && j < r, "swap_rows", at(), [&] { MD t(cm); t.swap_rows(i, j); return H().m(t).k.h; }); break;
    case 13: i = idx(c); j = idx(c); judge(i < c && j < c, "swap_cols", at(), [&] { MD t(cm); t.swap_cols(i, j); return H().m(t).k.h; }); break;
    case 14: i = mc::range(1, 6); j = mc::range(1, 6); judge(true, "resize", at(), [&] { MD t(cm); H h; h.v(t.resize(i, j)); t.set_all(2); return h.m(t).k.h; }); break;
    case 15: i = j = mc::range(0, 6); judge(true, "operations with a number", at(), [&] { MD t(cm); double x = (double)i - 2; H h; h.m(cm + x).m(x + cm).m(cm - x).m(x - cm).m(cm * x).m(x * cm).m(cm / (x + 10)).m((x + 10) / (cm * cm + 1.0)); t.set_all(x); return h.m(t).k.h; }); break;
  }
  mc::state(mc::Hash().u(r).u(c).u(o).u(i).u(j).h); unchanged(m, e);
}
// functions that take every non-empty matrix never refuse one
MC_SCENARIO(served) {
  size_t r, c; shape(r, c); mc::assume(r * c); MD m = make(r, c); Ref<double> e = snap(m); const MD &cm = m; int o = mc::choose(12); mc::state(mc::Hash().u(r).u(c).u(o).u(0x5e).h); std::string on = "of " + S(r, c); susa::matrix<cd> z = susa::to_complex(cm); const susa::matrix<cd> &cz = z;
  switch (o) {
    case 0: judge(true, "sum, mean, norm", on, [&] { return H().m(susa::sum(cm)).m(susa::mean(cm)).m(susa::norm(cm)).m(susa::norm(cz)).k.h; }); break;
    case 1: judge(true, "min, max", on, [&] { return H().m(susa::min(cm)).m(susa::max(cm)).k.h; }); break;
    case 2: judge(true, "elementwise maths", on, [&] { return H().m(susa::sign(cm)).m(susa::abs(cm)).m(susa::round(cm, 2)).m(susa::mag(cz)).m(susa::abs(cz)).m(susa::conj(cz)).m(susa::real(cz)).m(susa::imag(cz)).k.h; }); break;
    case 3: judge(true, "upsample, downsample", on, [&] { return H().m(susa::upsample(cm, 2)).m(susa::downsample(cm, r > 1 ? 2 : 1)).m(susa::upsample(cm, 1)).m(susa::downsample(cm, 1)).k.h; }); break;
    case 4: judge(true, "flips", on, [&] { return H().m(susa::fliplr(cm)).m(susa::flipud(cm)).k.h; }); break;
    case 5: judge(true, "concat with itself", on, [&] { return H().m(susa::concat(cm, cm)).k.h; }); break;
    case 6: judge(true, "filter", on, [&] { MD b(2, 1), a(1, 1); b(0) = 1; b(1) = 2; a(0) = 1; return H().m(susa::filter(b, a, cm)).k.h; }); break;
    case 7: judge(true, "rank", on, [&] { return H().v((unsigned)susa::rank(cm)).k.h; }); break;
    case 8: judge(true, "kron", on, [&] { MD b = MD("[1 2; 3 4]"); return H().m(susa::kron(cm, b)).m(susa::kron(b, cm)).k.h; }); break;
    case 9: judge(true, "dft", on, [&] { susa::fft<double> f; return H().m(f.dft(cm)).k.h; }); break;
    case 10: judge(true, "copies and text", on, [&] { MD a(cm), b; b = a; MD d(std::move(a)); std::stringstream s; s << cm; return H().m(b).m(d).k.s(s.str()).h; }); break;
    case 11: judge(true, "svd", on, [&] { susa::matrix<float> x(r, c), u, s, v; for (size_t i = 0; i < r * c; i++) x(i) = (float)cm.get(i); H h; h.v(susa::svd(x, u, s, v)); return h.m(u).m(s).m(v).k.h; }); break;
  }
  unchanged(m, e);
}
// lengths and counts beyond 8 and 16 bits
MC_SCENARIO(large_counts) {
  int o = mc::choose(6);
  switch (o) {
    case 0: { size_t n = mc::any<size_t>({255, 256, 257, 384, 512, 768, 1000, 1024, 1280, 4096, 5120, 32768, 65535, 65536, 65537, 98304, 131072, 196608}), cols = mc::choose(2) + 1; MD a(n, cols, 1.0); for (size_t i = 0; i < n; i++) a(i) = (double)(i % 7); const MD &ca = a; mc::state(mc::Hash().u(o).u(n).u(cols).h); judge(p2(n), "radix2", "of " + S(n, cols), ca, [&](const MD &ca) { susa::fft<double> f; return H().m(f.radix2(ca)).k.h; }); break; }
    case 1: { unsigned n = mc::any<unsigned>({8, 9, 12, 16, 31, 32, 33, 64, 255, 256, 300}), m = mc::any<unsigned>({1, 8, 31}); mc::state(mc::Hash().u(o).u(n).u(m).h); judge(true, "ccode", "(" + std::to_string(n) + ",1," + std::to_string(m) + ")", [&] { susa::ccode c(n, 1, m); for (unsigned i = 0; i < n; i++) c.set_generator(i % 8, i); H h; h.v(c.rate()); return h.k.h; }); break; }
    case 2: { int n = mc::any<int>({99, 100, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512}); mc::state(mc::Hash().u(o).u(n).h); judge(n % 2 == 1, "rrcosine", "with " + std::to_string(n) + " taps", [&] { susa::rrcosine f(4, 0.5, n); H h; auto t = f.get(); if (n % 2) h.m(t); else h.k.u(t.size()); return h.k.h; }); break; }
    case 3: { size_t n = mc::any<size_t>({127, 255, 256, 257, 300}), k = mc::any<size_t>({1, n - 1, n, n + 1, n + 256, n + 65536}); int w = mc::choose(4); MD a = make(1, n); MU lim(n, 1); for (size_t i = 0; i < n; i++) lim(i) = i; mc::state(mc::Hash().u(o).u(n).u(k).u(w).h); const MD &ca = a; judge(w == 3 || k <= n, w == 0 ? "select_least" : w == 1 ? "select_most" : w == 2 ? "select_limited_least" : "sort", "of " + std::to_string(n) + " for " + std::to_string(k), ca, [&](const MD &ca) { return H().m(w == 0 ? susa::select_least(ca, k) : w == 1 ? susa::select_most(ca, k) : w == 2 ? susa::select_limited_least(ca, lim, k) : susa::sort_indices(ca)).k.h; }); break; }
    case 4: { unsigned n = mc::any<unsigned>({129, 255, 256, 257}), s = mc::any<unsigned>({0u, n - 1, n, n + 1, 256u, 512u, 65536u}); MD g(n, n, 0.0); for (unsigned i = 0; i + 1 < n; i++) g(i, i + 1) = 1 + i % 3; mc::state(mc::Hash().u(o).u(n).u(s).h); const MD &cg = g; judge(s < n, "dijkstra", "of " + std::to_string(n) + " nodes from " + std::to_string(s), cg, [&](const MD &cg) { return H().m(susa::dijkstra(cg, s)).k.h; }); break; }
    case 5: { size_t r = mc::any<size_t>({1, 2, 255, 256, 257, 65536}), c = mc::any<size_t>({1, 3, 256}), r2 = mc::any<size_t>({1, 2, 255, 256, 257, 65536}); mc::assume(r * c < 100000 && r2 * c < 100000); MD a(r, c, 1.0), b(r2, c, 2.0); const MD &ca = a, &cb = b; mc::state(mc::Hash().u(o).u(r).u(c).u(r2).h); judge(r == r2, "+ and -=", "of " + S(r, c) + " and " + S(r2, c), [&] { MD t(ca); t -= cb; return H().m(ca + cb).m(t).k.h; }); break; }
  }
}
MC_SCENARIO(constructions) {
  int o = mc::choose(7);
  switch (o) {
    case 0: case 1: case 2: case 3: { size_t r = mc::range(0, 4), c = mc::range(0, 4); mc::state(mc::Hash().u(o).u(r).u(c).h); std::string on = "of " + S(r, c);
      judge(r && c, o == 0 ? "matrix" : o == 1 ? "matrix with initial value" : o == 2 ? "matrix from shape" : "matrix from shape with initial value", on, [&] { H h; MD m = o == 0 ? MD(r, c) : o == 1 ? MD(r, c, 3.0) : o == 2 ? MD(std::make_tuple(r, c)) : MD(std::make_tuple(r, c), 3.0); if (o % 2 == 0) m.set_all(3); return h.m(m).k.h; }); break; }
    case 4: { int n = mc::range(-2, 12); if (n < 0 && NOASSERT) mc::assume(false); mc::state(mc::Hash().u(o).u(n).h); judge(n > 0 && n % 2 == 1, "rrcosine", "with " + std::to_string(n) + " taps", [&] { susa::rrcosine f(4, 0.5, n); H h; auto t = f.get(); if (n > 0 && n % 2) h.m(t); else h.k.u(t.size()); return h.k.h; }); break; }
    case 5: { unsigned n = mc::any<unsigned>({1u, 2u, 3u, 8u}), k = mc::range(0, 3), m = mc::any<unsigned>({0u, 1u, 2u, 15u, 30u, 31u, 32u, 33u, 64u, 0xffffffffu}); if (NOASSERT) mc::assume(k == 1 && m > 0 && m < 32); mc::state(mc::Hash().u(o).u(n).u(k).u(m).h);
      judge(k == 1 && m > 0 && m < 32, "ccode", "(" + std::to_string(n) + "," + std::to_string(k) + "," + std::to_string(m) + ")", [&] { susa::ccode c(n, k, m); H h; h.v(c.rate()); return h.k.h; }); break; }
    case 6: { unsigned n = mc::range(1, 4), i = mc::any<unsigned>({0u, 1u, 2u, 3u, 4u, 5u, 40u, 0x7fffffffu, 0xffffffffu}); bool dflt = mc::flip(); if (dflt) n = 0; mc::state(mc::Hash().u(o).u(n).u(i).u(dflt).h);
      judge(i < n, "set_generator", "index " + std::to_string(i) + " of " + std::to_string(n), [&] { susa::ccode c; if (!dflt) c = susa::ccode(n, 1, 2); for (unsigned j = 0; j < n; j++) c.set_generator(7 - j, j); c.set_generator(3, i); H h; if (dflt) return h.k.h; MB x(4, 1); x(0) = 1; x(1) = 0; x(2) = 1; x(3) = 1; return h.m(c.encode(x)).k.h; }); break; }
  }
}
// after a refused call the object goes on as if it had not been made
#ifdef SUSA_NASSERT
MC_SCENARIO(afterwards) {
  size_t r = mc::range(1, 3), c = mc::range(1, 3); MD a = make(r, c), w = make(r, c); MD other = make(r + 1, c + 2, 1); Ref<double> e = snap(a); int d = mc::pick(2, 3);
  for (int s = 0; s < d; s++) { int o = mc::choose(9); mc::step(); mc::Lib l;
    switch (o) { case 0: a += other; break; case 1: a -= other; break; case 2: a(r, 0) = 9; break; case 3: a(r * c) = 9; break; case 4: a.set_row(r, other); break; case 5: a.set_col(c + 1, other); break; case 6: a.swap_rows(0, r); break; case 7: a.swap_cols(c, 0); break; case 8: { MD t = susa::matmul(other, other); MD q = a + other; (void)q; break; } }
    mc::NoLib nl; MC_NOTE("refused operation %d on %zux%zu", o, r, c); same(a, e, "matrix after refused operations"); mc::state(mc::Hash().u(r).u(c).u(o).u(s).h); }
  mc::Lib l; MD t = a + w, u(a); u += w; a = t; { mc::NoLib nl; for (size_t i = 0; i < r * c; i++) MC_CHECK(t.get(i) == 2 * e.v[i] && u.get(i) == t.get(i) && a.get(i) == t.get(i), "valid use after refused operations gave a wrong result"); } }
#endif
// indices outside an array: what the library computes as the position (first index fastest) lies beyond the elements, or there are too many indices
MC_SCENARIO(array_indices) {
  typedef susa::array<double> A; static const std::vector<std::vector<size_t>> D = {{4}, {2, 3}, {2, 3, 2}, {1, 1, 3, 2}}; const auto &d = D[mc::choose(4)]; size_t total = 1; for (size_t x : d) total *= x;
  int n = mc::range(1, 4); size_t i[4] = {0, 0, 0, 0}, pos = 0, fac = 1; for (int q = 0; q < n; q++) { i[q] = mc::any<size_t>({0, 1, q < (int)d.size() ? d[q] : 2, 40}); if (q < (int)d.size()) { pos += i[q] * fac; fac *= d[q]; } }
  bool inside = true; for (int q = 0; q < n && q < (int)d.size(); q++) inside = inside && (n == 1 ? i[0] < total : i[q] < d[q]); bool valid = n <= (int)d.size() && pos < total; mc::assume(!valid || inside);          // a position inside reached by an index outside is not asserted
  int o = mc::choose(6); mc::state(mc::Hash().u(d.size()).u(n).u(pos).u(o).u(i[0]).u(i[n - 1]).h); std::string on = "of a rank " + std::to_string(d.size()) + " array at"; for (int q = 0; q < n; q++) on += " " + std::to_string(i[q]); static const char *W[] = {"get", "get(list)", "get(vector)", "const ()", "()", "()="};
  judge(valid, W[o], on, [&] { A *ap = d.size() == 1 ? new A({d[0]}) : d.size() == 2 ? new A({d[0], d[1]}) : d.size() == 3 ? new A({d[0], d[1], d[2]}) : new A({d[0], d[1], d[2], d[3]}); A &a = *ap; const A &c = a; for (size_t q = 0; q < total; q++) a(q) = 10 + q; H h; double x = 0; typedef std::initializer_list<size_t> I;
    auto read = [&](int o) { switch (o) {
      case 0: return n == 1 ? c.get(i[0]) : n == 2 ? c.get(i[0], i[1]) : n == 3 ? c.get(i[0], i[1], i[2]) : c.get(i[0], i[1], i[2], i[3]);
      case 1: return n == 1 ? c.get(I{i[0]}) : n == 2 ? c.get(I{i[0], i[1]}) : n == 3 ? c.get(I{i[0], i[1], i[2]}) : c.get(I{i[0], i[1], i[2], i[3]});
      case 2: return c.get(std::vector<size_t>(i, i + n));
      case 3: return n == 1 ? c(i[0]) : n == 2 ? c(i[0], i[1]) : n == 3 ? c(i[0], i[1], i[2]) : c(i[0], i[1], i[2], i[3]);
      default: return n == 1 ? a(i[0]) : n == 2 ? a(i[0], i[1]) : n == 3 ? a(i[0], i[1], i[2]) : a(i[0], i[1], i[2], i[3]); } };
    if (o < 5) x = read(o); else { (n == 1 ? a(i[0]) : n == 2 ? a(i[0], i[1]) : n == 3 ? a(i[0], i[1], i[2]) : a(i[0], i[1], i[2], i[3])) = 77; x = read(4); }
    if (valid) MC_CHECK(x == (o < 5 ? 10 + (double)pos : 77), "%s %s gives %g", W[o], on.c_str(), x); else { double y = read(0); MC_CHECK(x == 0 && y == 0, "%s %s outside the array gives %g, then %g, instead of the default element", W[o], on.c_str(), x, y); }
    for (size_t q = 0; q < total; q++) MC_CHECK(c.get(q) == (valid && o == 5 && q == pos ? 77 : 10 + (double)q), "%s %s changed element %zu to %g", W[o], on.c_str(), q, c.get(q)); delete ap; return h.v(x).k.h; });
}
MC_MAIN
