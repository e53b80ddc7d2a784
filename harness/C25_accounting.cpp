// C25: the memory tracker equals the bytes held by objects that use the logging allocator.
//MC-VARIANT asan: -O0 -fsanitize=address -DSUSA_NDEBUG -DSUSA_NASSERT
//MC-BOUND all histories of 2 (3) operations out of 15 over four objects (two integer matrices, a complex matrix, an array), then one operation in which the n-th allocation fails for every n or none; library functions over logged matrices (product, transpose, concatenation, convolution, filters, fft, lu, determinant, rank, text) with every allocation failing; the allocator itself over sizes 0..4096 and impossible sizes
//MC-ASSUME an object holds size() elements
#include "mat.h"
template <class T> using L = susa::allocator_log<T>; template <class T> using M = susa::matrix<T, L<T>>; typedef std::complex<double> CD; typedef susa::array<double, L<double>> AR;
static size_t rd() { return susa::memory_tacker::instance().read(); }
static const int SH[5][2] = {{1, 1}, {2, 3}, {4, 1}, {3, 2}, {5, 5}};
struct World {
  size_t base; M<int> *m[2]; M<CD> *c; AR *a; size_t an;
  World() { base = rd(); mc::Lib l; m[0] = new M<int>(2, 2, 1); m[1] = new M<int>(); c = new M<CD>(1, 3, CD(1, 2)); a = new AR({2, 3}); an = 6; }
  size_t held() { return (m[0]->size() + m[1]->size()) * sizeof(int) + c->size() * sizeof(CD) + an * sizeof(double); }
  void check(const char *when) { size_t r = rd() - base; MC_CHECK(r == held(), "%zd bytes tracked, the live objects hold %zu %s (matrices %zu, %zu, complex %zu, array %zu elements)", (ssize_t)r, held(), when, m[0]->size(), m[1]->size(), c->size(), an);
    long real = 0; for (int i = 0; i < mc::g_nblk; i++) if (mc::g_blk[i].n) real++; (void)real; }
  void done() { { mc::Lib l; delete m[0]; delete m[1]; delete c; delete a; } MC_CHECK(rd() == base, "the tracker is %zd bytes off after everything was destroyed", (ssize_t)(rd() - base)); mc::heap_empty("after everything was destroyed"); }
  uint64_t h() { mc::Hash k; k.u(m[0]->no_rows()).u(m[0]->no_cols()).u(m[1]->no_rows()).u(m[1]->no_cols()).u(c->no_rows()).u(c->no_cols()).u(an).u(rd() - base); return k.h; }
};
static void op(World &w, int o, int i, int k) {
  mc::step(); M<int> &x = *w.m[i], &y = *w.m[1 - i];
  switch (o) {
    case 0: MC_NOTE("m%d = m%d", i, 1 - i); { mc::Lib l; x = y; } break;
    case 1: MC_NOTE("m%d = matrix(%d,%d,3)", i, SH[k][0], SH[k][1]); { mc::Lib l; x = M<int>(SH[k][0], SH[k][1], 3); } break;
    case 2: MC_NOTE("m%d.resize(%d,%d)", i, SH[k][0], SH[k][1]); { mc::Lib l; x.resize(SH[k][0], SH[k][1]); } break;
    case 3: { static const char *TX[] = {"7", "1 2;3 4;5 6", "", " [ ] ", "1 2 3"}; const char *t = TX[k % 5]; MC_NOTE("m%d = \"%s\"", i, t); { mc::Lib l; x = t; } break; }
    case 4: { MC_NOTE("m%d rebuilt as copy of m%d", i, 1 - i); mc::Lib l; M<int> *t = new M<int>(y); delete w.m[i]; w.m[i] = t; break; }
    case 5: { MC_NOTE("m%d rebuilt by moving m%d", i, 1 - i); mc::Lib l; M<int> *t = new M<int>(std::move(y)); delete w.m[i]; w.m[i] = t; break; }
    case 6: { MC_NOTE("m%d = m%d (self), m%d = matrix()", i, i, 1 - i); mc::Lib l; x = *&x; y = M<int>(); break; }
    case 7: { mc::assume(x.size()); MC_NOTE("m%d = concat(transpose(m%d), transpose(m%d))", i, i, i); mc::Lib l; x = susa::concat(susa::transpose(x), susa::transpose(x)); mc::NoLib n; break; }
    case 8: { mc::assume(x.size()); MC_NOTE("m%d = m%d + m%d*2, shrink", i, i, i); mc::Lib l; x = x + x * 2; if (x.no_rows() > 1 && x.no_cols() > 1) x = x.shrink(0, 0); break; }
    case 9: { MC_NOTE("c = matrix(%d,%d)", SH[k][0], SH[k][1]); mc::Lib l; *w.c = M<CD>(SH[k][0], SH[k][1], CD(1, 1)); break; }
    case 10: { MC_NOTE("c rebuilt by copying itself"); mc::Lib l; M<CD> *t = new M<CD>(*w.c); delete w.c; w.c = t; break; }
    case 11: { MC_NOTE("a = array(%d,%d,2)", SH[k][0], SH[k][1]); mc::Lib l; AR t({(size_t)SH[k][0], (size_t)SH[k][1], 2}); *w.a = t; w.an = (size_t)SH[k][0] * SH[k][1] * 2; break; }
    case 12: { MC_NOTE("a rebuilt by copying itself"); mc::Lib l; AR *t = new AR(*w.a); delete w.a; w.a = t; break; }
    case 13: { MC_NOTE("a.clone(%d elements)", SH[k][0] * SH[k][1]); double d[25] = {0}; mc::Lib l; w.a->clone(d, SH[k][0] * SH[k][1]); w.an = SH[k][0] * SH[k][1]; break; }
    case 14: { MC_NOTE("a = a; temporary array moved"); mc::Lib l; *w.a = *w.a; AR t({3, 1}); AR u(std::move(t)); break; }
  }
}
static void pickop(int &o, int &i, int &k) { o = mc::choose(15); i = o < 9 ? mc::choose(2) : 0; k = (o == 1 || o == 2 || o == 9 || o == 11 || o == 13) ? mc::choose(5) : o == 3 ? mc::choose(5) : 0; }
MC_SCENARIO(histories) {
  World w; int o, i, k, d = mc::pick(2, 3); w.check("at the start");
  for (int s = 0; s < d; s++) { pickop(o, i, k); op(w, o, i, k); w.check("after the operation"); mc::heap_ok(); mc::state(w.h()); }
  pickop(o, i, k); int f = mc::choose(10) - 1; mc::g_new_calls = 0; mc::g_faults = 0; mc::g_fail_at = f; bool stop = false; if (f >= 0) MC_NOTE("-- allocation %d of the next operation fails", f);
  try { op(w, o, i, k); } catch (std::bad_alloc &) {} catch (mc::Stop &) { stop = true; }
  mc::g_fail_at = -1; mc::g_heap_on = false; mc::assume(!stop && (f < 0 || mc::g_faults));
  w.check(f < 0 ? "after the operation" : "after a failed allocation"); mc::heap_ok(); mc::state(w.h()); mc::outcome(mc::Hash().u(w.h()).u(o).u(f).h); w.done();
}
MC_SCENARIO(large_objects) { // counts beyond 16 and 31 bits of bytes; the second object is held while the first one changes
  static const size_t SZ[] = {255, 4097, 65536, 65537, 1u << 20, 0}; size_t base = rd(), n = SZ[mc::choose(6)]; if (!n) n = (size_t)mc::pick(3, 5) << 20; bool row = mc::flip(); int o = mc::choose(7); M<CD> *x, *y; MC_NOTE("%zu complex elements, operation %d", n, o); mc::step(2);
  { mc::Lib l; x = new M<CD>(); y = new M<CD>(2, 2, CD(1)); } { mc::Lib l; *x = M<CD>(row ? 1 : n, row ? n : 1); } auto held = [&](const char *w) { size_t e = (x->size() + y->size()) * sizeof(CD); MC_CHECK(rd() - base == e, "%zd bytes tracked, the matrices hold %zu %s", (ssize_t)(rd() - base), e, w); }; held("after the construction");
  { mc::Lib l; switch (o) { case 0: *y = *x; break; case 1: *y = std::move(*x); break; case 2: x->resize(3, 3); break; case 3: y->resize(n / 2 + 1, 1); break; case 4: { M<CD> t(*x); } break; case 5: { M<CD> t(std::move(*x)); *x = M<CD>(1, 2); } break; case 6: *x = susa::transpose(*x); break; } } held("after the operation"); mc::heap_ok();
  { mc::Lib l; delete x; delete y; } MC_CHECK(rd() == base, "the tracker is %zd bytes off", (ssize_t)(rd() - base)); mc::heap_empty("after everything was destroyed"); mc::state(mc::Hash().u(n).u(o).h); mc::outcome(mc::Hash().u(n).u(o).u(row).h);
}
MC_SCENARIO(functions) {
  size_t base = rd(); int o = mc::choose(16), f = mc::choose(40) - 1; bool failed = false;
  M<double> *x, *y, *v; { mc::Lib l; x = new M<double>("2 1 0;1 3 1;0 1 4"); y = new M<double>("1 0 2;3 1 0;1 1 1"); v = new M<double>("1 2 3 4"); } size_t in = rd() - base; MC_CHECK(in == 22 * 8, "%zu bytes tracked for three matrices of 22 doubles", in);
  mc::g_new_calls = 0; mc::g_faults = 0; mc::g_fail_at = f; MC_NOTE("function %d, failing allocation %d", o, f); mc::step();
  try { mc::Lib l; switch (o) {
    case 0: susa::matmul(*x, *y); break; case 1: susa::transpose(*v); break; case 2: susa::concat(*x, *y); break; case 3: susa::conv(*v, *v); break; case 4: susa::filter(*v, *v, *v, (size_t)2); break;
    case 5: { susa::fft<double, L<double>> F; F.radix2(*v); F.dft(*x); break; } case 6: susa::det(*x); break; case 7: susa::kron(*x, *y); break; case 8: susa::toeplitz(*v); susa::convmtx(*v, 3); break;
    case 9: susa::upsample(*x, 2); susa::downsample(*x, 2); break; case 10: { auto r = x->row(1); auto c = x->col(2); auto s = x->shrink(0, 1); x->set_row(0, r); x->set_col(1, c); break; } case 11: susa::sum(*x); susa::mean(*x); susa::norm(*x); break;
    case 12: { auto a = *x + *y; a += *y; a = a * *x - 2.0; a = 3.0 - a / 2.0; break; } case 13: { auto l = v->left(2), r = v->right(2), m = v->mid(1, 2); break; } case 14: { std::ostringstream s; s << *x; break; } case 15: susa::rank(*x); susa::fliplr(*x); susa::flipud(*y); break; }
  } catch (std::bad_alloc &) { failed = true; }
  mc::g_fail_at = -1; mc::g_heap_on = false; mc::assume(f < 0 || mc::g_faults);
  MC_CHECK(rd() - base == in, "function %d (%s): tracker is %zd bytes off", o, failed ? "failed allocation" : "no failure", (ssize_t)(rd() - base - in)); mc::state(mc::Hash().u(o).u(f).u(failed).h); mc::outcome(mc::Hash().u(o).u(f).h);
  { mc::Lib l; delete x; delete y; delete v; } MC_CHECK(rd() == base, "tracker off after destruction"); mc::heap_empty("after the function");
}
template <class T> static void alloc() {
  size_t base = rd(); static const size_t S[] = {0, 1, 2, 3, 7, 64, 4096}; size_t n1 = S[mc::choose(7)], n2 = S[mc::choose(7)]; int f = mc::choose(4) - 1, big = mc::choose(3); L<T> al, a2(al); L<char> ac; L<T> a3(ac); MC_NOTE("allocate(%zu), allocate(%zu)", n1, n2); mc::step(3);
  mc::g_new_calls = 0; mc::g_fail_at = f; size_t exp = base; T *p = nullptr, *q = nullptr;
  { mc::Lib l; try { p = al.allocate(n1); exp += n1 * sizeof(T); } catch (std::bad_alloc &) {} }  MC_CHECK(rd() == exp, "tracker %zu, expected %zu", rd(), exp);
  { mc::Lib l; try { q = a2.allocate(n2); exp += n2 * sizeof(T); } catch (std::bad_alloc &) {} }  MC_CHECK(rd() == exp, "tracker %zu, expected %zu", rd(), exp);
  if (big) { mc::Lib l; bool thrown = false; try { volatile size_t huge = big == 1 ? (size_t)-1 / sizeof(T) : ((size_t)1 << 62); T *z = a3.allocate(huge); a3.deallocate(z, huge); } catch (std::bad_alloc &) { thrown = true; } MC_CHECK(thrown && rd() == exp, "an impossible allocation changed the tracker to %zu, expected %zu", rd(), exp); }
  { mc::Lib l; if (p) { a2.deallocate(p, n1); exp -= n1 * sizeof(T); } } MC_CHECK(rd() == exp, "tracker %zu, expected %zu after release", rd(), exp);
  { mc::Lib l; if (q) { a3.deallocate(q, n2); exp -= n2 * sizeof(T); } } mc::g_fail_at = -1; MC_CHECK(rd() == base, "tracker %zu, expected %zu after release", rd(), base); mc::heap_empty("after release"); mc::state(mc::Hash().u(n1).u(n2).u(f).h); mc::outcome(mc::Hash().u(n1).u(n2).u(f).u(big).u(sizeof(T)).h);
}
MC_SCENARIO(allocator_char) { alloc<char>(); } MC_SCENARIO(allocator_double) { alloc<double>(); } MC_SCENARIO(allocator_complex) { alloc<CD>(); }
MC_SCENARIO(tracker_direct) {
  auto &t = susa::memory_tacker::instance(); MC_CHECK(&t == &susa::memory_tacker::instance(), "two trackers"); size_t base = t.read(), e = base; std::vector<size_t> added; int d = mc::pick(4, 6);
  for (int i = 0; i < d; i++) { static const size_t S[] = {0, 1, 4096, (size_t)1 << 33, (size_t)3 << 40}; int k = mc::choose(6); mc::step(); if (k < 5) { MC_NOTE("add(%zu)", S[k]); t.add(S[k]); e += S[k]; added.push_back(S[k]); } else if (!added.empty()) { MC_NOTE("sub(%zu)", added.back()); t.sub(added.back()); e -= added.back(); added.pop_back(); } MC_CHECK(t.read() == e, "tracker reads %zu, expected %zu", t.read(), e); mc::state(e); }
  mc::outcome(e); for (size_t x : added) t.sub(x); MC_CHECK(t.read() == base, "tracker reads %zu at the end", t.read());
}
MC_MAIN
