// C02: allocation failure at every point of matrix histories (assertions disabled, the configuration for production use).
//MC-VARIANT noassert: -O1 -fsanitize=address -DSUSA_NDEBUG -DSUSA_NASSERT
//MC-BOUND histories of 1 (thorough 2) preparing operations, then one operation in which the n-th allocation fails for every n (and every second allocation too; after 2 preparing operations only in thorough), then a full use of all objects; 13 object operations (shapes up to 3x300) and 40 library functions; element types double and int8_t
//MC-ASSUME a failed allocation is a std::bad_alloc from the allocator; the iostream layer may swallow one while text is parsed (the elements are then unspecified)
#include "mat.h"

using D = double;
template <class T> struct World {
  using M = susa::matrix<T>;
  M *p[3]; Ref<T> e[3];
  World() {
    mc::Lib l; p[0] = new M(2, 2, T(1)); p[1] = new M("1 2 3"); p[2] = new M();
    mc::NoLib n; e[0] = Ref<T>(2, 2, T(1)); e[1] = Ref<T>(1, 3, T(1)); e[1].v[1] = T(2); e[1].v[2] = T(3);
  }
  void done() { { mc::Lib l; for (auto *x : p) delete x; } mc::heap_empty("after every matrix was destroyed"); }
};
template <class T> static Ref<T> textref(int k) {
  Ref<T> e;
  if (k == 0) { e = Ref<T>(2, 2, T(1)); e.at(0, 1) = T(2); e.at(1, 0) = T(3); e.at(1, 1) = T(4); }
  if (k == 1) { e = Ref<T>(1, 30, T(0)); for (int i = 0; i < 30; i++) e.v[i] = T(i + 1); }
  return e;
}
static const char *TXT[2] = {"1 2;3 4", "1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30"};
static const int SH[6][2] = {{1, 1}, {2, 2}, {1, 3}, {3, 2}, {17, 16}, {3, 300}};

// applies an operation; the expected values after success go to ne[]
template <class T> static void apply(World<T> &w, Ref<T> *ne, int o, int i, int j, int k, bool &text) {
  using M = susa::matrix<T>;
  M &m = *w.p[i]; char a = (char)('a' + i); text = false;
  mc::step();
  switch (o) {
    case 0: MC_NOTE("%c = %c", a, 'a' + j); ne[i] = w.e[j]; { mc::Lib l; m = *w.p[j]; } break;
    case 1: MC_NOTE("%c = matrix(%d,%d,5)", a, SH[k][0], SH[k][1]); ne[i] = Ref<T>(SH[k][0], SH[k][1], T(5)); { mc::Lib l; M t(SH[k][0], SH[k][1], T(5)); mc::assume(t.size() != 0); m = t; } break;
    case 2: MC_NOTE("%c.resize(%d,%d)", a, SH[k][0], SH[k][1]); { size_t cnt = (size_t)SH[k][0] * SH[k][1]; if (cnt != w.e[i].v.size()) { ne[i].v.assign(cnt, T(0)); ne[i].known.assign(cnt, 0); } ne[i].r = SH[k][0]; ne[i].c = SH[k][1]; mc::Lib l; m.resize(SH[k][0], SH[k][1]); } break;
    case 3: MC_NOTE("%c = \"%.12s...\"", a, TXT[k & 1]); text = true; ne[i] = textref<T>(k & 1); { mc::Lib l; m = TXT[k & 1]; } break;
    case 4: MC_NOTE("%c = std::string(...)", a); text = true; ne[i] = textref<T>(k & 1); { mc::Lib l; m = std::string(TXT[k & 1]); } break;
    case 5: MC_NOTE("%c = %c.reshape", a, 'a' + j); { ne[i] = w.e[j]; std::swap(ne[i].r, ne[i].c); if (!ne[i].v.size()) { mc::assume(false); } mc::Lib l; m = w.p[j]->reshape(ne[i].r, ne[i].c); } break;
    case 6: MC_NOTE("%c.set_row(0,%c)", a, 'a' + j); { mc::assume(w.e[i].v.size() && w.e[j].v.size() >= w.e[i].c && i != j); for (size_t c = 0; c < w.e[i].c; c++) { ne[i].at(0, c) = w.e[j].v[c]; ne[i].known[c * w.e[i].r] = w.e[j].known[c]; } mc::Lib l; m.set_row(0, *w.p[j]); } break;
    case 7: MC_NOTE("%c.set_all(6)", a); ne[i].all(T(6)); { mc::Lib l; m.set_all(T(6)); } break;
    case 8: { MC_NOTE("%c rebuilt as copy of %c", a, 'a' + j); mc::assume(i != j); M *x; { mc::Lib l; x = new M(*w.p[j]); } ne[i] = w.e[j]; { mc::Lib l; delete w.p[i]; w.p[i] = x; } break; }
    case 9: { MC_NOTE("%c rebuilt by moving %c", a, 'a' + j); mc::assume(i != j); M *x; { mc::Lib l; x = new M(std::move(*w.p[j])); } ne[i] = w.e[j]; ne[j] = Ref<T>(); { mc::Lib l; delete w.p[i]; w.p[i] = x; } break; }
    case 10: { MC_NOTE("%c rebuilt as matrix(tuple(%d,%d),7)", a, SH[k][0], SH[k][1]); M *x; { mc::Lib l; x = new M(std::make_tuple((size_t)SH[k][0], (size_t)SH[k][1]), T(7)); } ne[i] = Ref<T>(SH[k][0], SH[k][1], T(7)); { mc::Lib l; delete w.p[i]; w.p[i] = x; } break; }
    case 11: { MC_NOTE("%c rebuilt as matrix(text)", a); text = true; M *x; { mc::Lib l; x = new M(std::string(TXT[k & 1])); } ne[i] = textref<T>(k & 1); { mc::Lib l; delete w.p[i]; w.p[i] = x; } break; }
    case 12: { MC_NOTE("%c rebuilt as matrix(%d,%d)", a, SH[k][0], SH[k][1]); M *x; { mc::Lib l; x = new M((size_t)SH[k][0], (size_t)SH[k][1]); } ne[i] = Ref<T>(SH[k][0], SH[k][1], T(0)); ne[i].known.assign(ne[i].v.size(), 0); { mc::Lib l; delete w.p[i]; w.p[i] = x; } break; }
  }
}
template <class T> static void use_all(World<T> &w) {
  using M = susa::matrix<T>;
  for (int i = 0; i < 3; i++) {
    M &m = *w.p[i];
    MC_CHECK(m.size() == m.no_rows() * m.no_cols(), "matrix %c: size() %zu does not agree with shape %zux%zu", 'a' + i, m.size(), m.no_rows(), m.no_cols());
    volatile T s = T(0);
    for (size_t r = 0; r < m.no_rows(); r++) for (size_t c = 0; c < m.no_cols(); c++) { s = m.get(r, c); m(r, c) = T(1); }
    { mc::Lib l; M t(m); t.set_all(T(2)); m = M(2, 3, T(4)); }
    same(m, Ref<T>(2, 3, T(4)), "matrix assigned after the failure");
    { mc::Lib l; m.resize(3, 1); m.set_all(T(8)); }
    same(m, Ref<T>(3, 1, T(8)), "matrix resized after the failure");
  }
  mc::heap_ok();
}
template <class T> static void faults(int prep, bool two) {
  World<T> w; bool text;
  for (int d = 0; d < prep; d++) {
    int o = mc::choose(13), i = mc::choose(3), j = 0, k = 0;
    if (o == 0 || o == 5 || o == 6 || o == 8 || o == 9) j = mc::choose(3); else if (o != 7) k = mc::choose((o == 3 || o == 4 || o == 11) ? 2 : prep > 1 ? 4 : 6);
    Ref<T> ne[3] = {w.e[0], w.e[1], w.e[2]};
    apply(w, ne, o, i, j, k, text);
    for (int q = 0; q < 3; q++) { w.e[q] = ne[q]; same(*w.p[q], w.e[q], "matrix before any failure"); }
    mc::heap_ok();
  }
  int o = mc::choose(13), i = mc::choose(3), j = 0, k = 0;
  if (o == 0 || o == 5 || o == 6 || o == 8 || o == 9) j = mc::choose(3); else if (o != 7) k = mc::choose((o == 3 || o == 4 || o == 11) ? 2 : 6);
  Ref<T> ne[3] = {w.e[0], w.e[1], w.e[2]};
  int f = mc::choose(12), f2 = two ? mc::choose(4) : 0;
  mc::g_new_calls = 0; mc::g_faults = 0; mc::g_fail_at = f; mc::g_fail_at2 = f2 ? f + f2 : -1;
  bool threw = false; bool stopped = false;
  MC_NOTE("-- allocation %d%s of the next operation fails", f, f2 ? " and a later one" : "");
  try { apply(w, ne, o, i, j, k, text); } catch (std::bad_alloc &) { threw = true; } catch (mc::Stop &) { stopped = true; }
  mc::g_fail_at = mc::g_fail_at2 = -1; mc::g_heap_on = false;
  if (!mc::g_faults) throw mc::Stop{};           // the operation makes fewer allocations (or is not applicable)
  mc::heap_ok();
  if (threw) MC_NOTE("-- std::bad_alloc"); else MC_NOTE("-- returned");
  for (int q = 0; q < 3; q++) {
    susa::matrix<T> &m = *w.p[q];
    MC_CHECK(m.size() == m.no_rows() * m.no_cols(), "matrix %c after the failure: size() %zu, shape %zux%zu", 'a' + q, m.size(), m.no_rows(), m.no_cols());
    auto is = [&](const Ref<T> &r, bool cells) {
      if (m.no_rows() != r.r || m.no_cols() != r.c) return false;
      if (cells) for (size_t z = 0; z < r.v.size(); z++) if (r.known[z] && m.get(z) != r.v[z]) return false;
      return true;
    };
    bool target = q == i || (o == 9 && q == j);
    if (!target) MC_CHECK(is(w.e[q], true), "matrix %c is not the target of the failed operation but changed from %s to %s", 'a' + q, str(w.e[q]).c_str(), str(m).c_str());
    else if (threw || stopped) MC_CHECK(is(w.e[q], true) || is(ne[q], true) || m.size() == 0 || (text && is(ne[q], false)), "matrix %c after the failure is %s: neither unchanged, empty nor new", 'a' + q, str(m).c_str());
    else MC_CHECK(is(ne[q], !text) || m.size() == 0 || stopped, "matrix %c: the operation returned normally but left %s", 'a' + q, str(m).c_str());
    mc::state(mc::Hash().u(o).u(q).u(m.no_rows()).u(m.no_cols()).u(threw).h);
  }
  mc::outcome(mc::Hash().u(o).u(i).u(j).u(k).u(f).u(f2).u(threw).h);
  use_all(w);
  w.done();
}
MC_SCENARIO(objects_double) { faults<double>(1, true); }
MC_SCENARIO(objects_int8) { faults<int8_t>(1, true); }
MC_SCENARIO(objects_deep) { if (mc::thorough()) faults<double>(2, true); else faults<int>(0, true); }

// every library function that returns a matrix: operands unchanged, result consistent, nothing leaked
template <class F> static void fn(const char *name, F f) {
  using M = susa::matrix<double>;
  M *a, *b, *v; { mc::Lib l; a = new M("4 1;2 3"); b = new M("1 2;3 5"); v = new M("1 2 3"); }
  Ref<double> ea = snap(*a), eb = snap(*b), ev = snap(*v);
  int fa = mc::choose(40);
  mc::g_new_calls = 0; mc::g_faults = 0; mc::g_fail_at = fa;
  MC_NOTE("%s with allocation %d failing", name, fa);
  bool threw = false;
  try { mc::Lib l; mc::step(); f(*a, *b, *v); } catch (std::bad_alloc &) { threw = true; }
  mc::g_fail_at = -1; mc::g_heap_on = false;
  if (!mc::g_faults) throw mc::Stop{};
  mc::heap_ok();
  same(*a, ea, "left operand"); same(*b, eb, "right operand"); same(*v, ev, "vector operand");
  mc::outcome(mc::Hash().s(name).u(fa).u(threw).h); mc::state(mc::Hash().s(name).u(fa).h);
  { mc::Lib l; delete a; delete b; delete v; }
  mc::heap_empty("by a function whose allocation failed");
}
template <class M> static void ok(const M &m) { mc::NoLib n; MC_CHECK(m.size() == m.no_rows() * m.no_cols(), "result: size() %zu, shape %zux%zu", m.size(), m.no_rows(), m.no_cols()); mc::Hash k; for (size_t i = 0; i < m.size(); i++) hv(k, m.get(i)); }
#define A const susa::matrix<double> &a, const susa::matrix<double> &b, const susa::matrix<double> &v
MC_SCENARIO(functions) {
  using namespace susa;
  switch (mc::choose(40)) {
    case 0: fn("a+b", [](A) { ok(a + b); }); break;
    case 1: fn("a-b", [](A) { ok(a - b); }); break;
    case 2: fn("a*b", [](A) { ok(a * b); }); break;
    case 3: fn("a/b", [](A) { ok(a / b); }); break;
    case 4: fn("a+2", [](A) { ok(a + 2.0); ok(2.0 + a); }); break;
    case 5: fn("a*2", [](A) { ok(a * 2.0); ok(2.0 * a); }); break;
    case 6: fn("a-2", [](A) { ok(a - 2.0); ok(2.0 - a); ok(a / 2.0); }); break;
    case 7: fn("transpose", [](A) { ok(transpose(a)); }); break;
    case 8: fn("matmul", [](A) { ok(matmul(a, b)); }); break;
    case 9: fn("row/col", [](A) { ok(a.row(1)); ok(a.col(0)); }); break;
    case 10: fn("shrink", [](A) { ok(a.shrink(0, 0)); }); break;
    case 11: fn("left/right/mid", [](A) { ok(v.left(2)); ok(v.right(2)); ok(v.mid(0, 1)); }); break;
    case 12: fn("matrix left/right/mid", [](A) { ok(a.left(1)); ok(a.right(1)); ok(a.mid(0, 1)); }); break;
    case 13: fn("concat", [](A) { ok(concat(a, b)); }); break;
    case 14: fn("flipud/fliplr", [](A) { ok(flipud(a)); ok(fliplr(a)); }); break;
    case 15: fn("det", [](A) { volatile double d = det(a); (void)d; }); break;
    case 16: fn("conv", [](A) { ok(conv(v, v)); }); break;
    case 17: fn("eye", [](A) { ok(eye<double>(3)); }); break;
    case 18: fn("sum/mean", [](A) { ok(sum(a)); ok(mean(a)); }); break;
    case 19: fn("kron", [](A) { ok(kron(a, b)); }); break;
    case 20: fn("comparison", [](A) { volatile bool x = (a == b) || (a != b); (void)x; matrix<double> t(a); t += b; t -= b; ok(t); }); break;
    case 21: fn("conversion", [](A) { matrix<double> t(a); matrix<int> i = t; ok(i); matrix<float> f = t; ok(f); }); break;
    case 22: fn("containers", [](A) { std::vector<matrix<double>> w; w.push_back(a); w.push_back(b); w.push_back(v); for (auto &x : w) ok(x); }); break;
    case 24: fn("lup", [](A) { lup<double> l(a); l.decompose(); matrix<double> r = l.solve(b.col(0)); ok(r); }); break;
    case 25: fn("lu", [](A) { lu<double> l(a); l.decompose(); ok(l.get_lower()); }); break;
    case 26: fn("inv", [](A) { ok(inv(a)); }); break;
    case 27: fn("filter", [](A) { ok(filter(v, matrix<double>(1, 1, 1.0), a)); }); break;
    case 28: fn("convmtx", [](A) { ok(convmtx(v, 3)); }); break;
    case 29: fn("toeplitz", [](A) { ok(toeplitz(v, v)); ok(toeplitz(v)); }); break;
    case 30: fn("upsample", [](A) { ok(upsample(a, 2)); ok(downsample(a, 2)); }); break;
    case 31: fn("dft", [](A) { fft<double> f; ok(f.dft(a)); }); break;
    case 32: fn("radix2", [](A) { fft<double> f; ok(f.radix2(a)); }); break;
    case 33: fn("min/max", [](A) { ok(max(a)); ok(min(a)); }); break;
    case 34: fn("rank", [](A) { volatile unsigned r = rank(a); (void)r; }); break;
    case 35: fn("norm", [](A) { ok(norm(a)); }); break;
    case 36: fn("hermitian", [](A) { ok(hermitian(to_complex(a))); }); break;
    case 37: fn("select", [](A) { ok(select_least(v, 2)); ok(select_most(v, 2)); ok(sort_indices(v)); ok(sort(v)); }); break;
    case 38: fn("svd", [](A) { matrix<float> f("1 2;3 4"), u, s, w; svd(f, u, s, w); ok(u); ok(s); ok(w); }); break;
    case 39: fn("get as vec", [](A) { matrix<double> t(a); t.get_row_as_vec(1); t.get_col_as_vec(0); }); break;
    case 23: fn("print", [](A) { std::ostringstream s; s << a; }); break;
  }
}
MC_MAIN
