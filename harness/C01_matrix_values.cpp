// C01: matrices as independent values, over operation histories.
//MC-BOUND all operation sequences over a pool of 2 matrices to depth 4 (thorough 5; int 3 and 5, int8_t 3 and 4) and of 3 matrices to depth 3 (4) with shapes up to 3x2 (six shapes), state-hashed on the objects' own representation; element types double, int, int8_t; two fresh-memory fill patterns; all sequences of two operations on two matrices of distinct elements for 22 larger shapes (15 to 65537 elements)
//MC-ASSUME a matrix constructed or resized without an initial value has unspecified elements; `a = std::move(b)` may leave b either unchanged or empty
#include "mat.h"
#include <memory>

static int SH[6][2];
static const int SMALL[6][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}, {1, 4}};
template <class T> struct Pool {
  using M = susa::matrix<T>;
  int n; M *p[3]; Ref<T> e[3];
  explicit Pool(int k) : n(k) { mc::Lib l; for (int i = 0; i < n; i++) p[i] = new M(); }
  void check() {
    mc::heap_ok();
    for (int i = 0; i < n; i++) { char b[16]; snprintf(b, sizeof b, "matrix %c", 'a' + i); same(*p[i], e[i], b);
      MC_CHECK(p[i]->is_square() == (e[i].r == e[i].c) && p[i]->is_scalar() == (e[i].r == 1 && e[i].c == 1) && p[i]->is_vector() == ((e[i].r == 1) != (e[i].c == 1) && e[i].r && e[i].c), "shape predicates of a %zux%zu matrix", e[i].r, e[i].c);
      for (int j = 0; j < n; j++) {
        bool known = true; for (char k : e[i].known) known &= k; for (char k : e[j].known) known &= k;
        if (known) MC_CHECK((*p[i] == *p[j]) == (e[i] == e[j]) && (*p[i] != *p[j]) == !(e[i] == e[j]), "operator==/!= between matrices %c and %c", 'a' + i, 'a' + j);
      }
    }
  }
  uint64_t hash(int left) {
    mc::Canon k; k.k.u(left).u(mc::g_fill); for (int i = 0; i < n; i++) { k.obj(p[i], sizeof(M)); k.k.u(hashref(e[i])); for (char q : e[i].known) k.k.u(q); }
    return k.k.h;
  }
  void done() {
    { mc::Lib l; for (int i = 0; i < n; i++) delete p[i]; }
    mc::heap_empty("after every matrix was destroyed");
  }
};
template <class T> static void replace(Pool<T> &q, int i, susa::matrix<T> *x) { mc::Lib l; delete q.p[i]; q.p[i] = x; }

template <class T> static void history(int n, int depth, bool big = false) {
  using M = susa::matrix<T>;
  mc::g_fill = mc::flip() ? 0x00 : 0xBF; memcpy(SH, SMALL, sizeof SH);
  Pool<T> q(n);
  if (big) { auto &L = large_shapes(); int k = mc::choose((int)L.size() - (mc::thorough() ? 0 : 1)); for (int s = 0; s < 2; s++) { auto p = L[(k + s) % L.size()]; SH[s][0] = SH[s + 2][1] = p.first; SH[s][1] = SH[s + 2][0] = p.second; }
    for (int i = 0; i < n; i++) { Ref<T> f(SH[i][0], SH[i][1], T(0)); for (size_t z = 0; z < f.v.size(); z++) f.v[z] = T((int)z * (i ? -1 : 1) + i); { mc::Lib l; *q.p[i] = mk(f); } q.e[i] = f; } MC_NOTE("a is %zux%zu and b is %zux%zu, every element different", q.e[0].r, q.e[0].c, q.e[1].r, q.e[1].c); }
  q.check();
  for (int d = 0; d < depth; d++) {
    int i = mc::choose(n);
    Ref<T> &e = q.e[i]; M &m = *q.p[i]; char a = (char)('a' + i);
    int o = mc::choose(18);
    switch (o) {
      case 0: { int j = mc::choose(n); MC_NOTE("%c = %c", a, 'a' + j); { mc::Lib l; m = *q.p[j]; } if (j != i) e = q.e[j]; break; }
      case 1: { int s = mc::choose(6); T x = T(1 + (int)mc::choose(2)); MC_NOTE("%c = matrix(%d,%d,%s)", a, SH[s][0], SH[s][1], str(x).c_str()); { mc::Lib l; m = M(SH[s][0], SH[s][1], x); } e = Ref<T>(SH[s][0], SH[s][1], x); break; }
      case 2: { int s = mc::choose(6); MC_NOTE("%c.resize(%d,%d)", a, SH[s][0], SH[s][1]); bool r; { mc::Lib l; r = m.resize(SH[s][0], SH[s][1]); }
        MC_CHECK(r, "resize() of a matrix to %dx%d reported failure", SH[s][0], SH[s][1]);
        size_t cnt = (size_t)SH[s][0] * SH[s][1];
        if (cnt != e.r * e.c) { e.v.assign(cnt, T(0)); e.known.assign(cnt, 0); }
        e.r = SH[s][0]; e.c = SH[s][1]; break; }
      case 3: { MC_NOTE("%c.set_all(3)", a); { mc::Lib l; m.set_all(T(3)); } e.all(T(3)); break; }
      case 4: { mc::assume(e.v.size() > 0); size_t k = e.v.size() - 1; MC_NOTE("%c(%zu) = 4", a, k); m(k) = T(4); e.v[k] = T(4); e.known[k] = 1; break; }
      case 5: { mc::assume(e.v.size() > 0); MC_NOTE("%c(0,%zu) = 5", a, e.c - 1); m(0, e.c - 1) = T(5); e.at(0, e.c - 1) = T(5); e.known[(e.c - 1) * e.r] = 1; break; }
      case 6: { int j = mc::choose(n); mc::assume(j != i); MC_NOTE("%c rebuilt as copy of %c", a, 'a' + j); M *x; { mc::Lib l; x = new M(*q.p[j]); } replace(q, i, x); e = q.e[j]; break; }
      case 7: { int j = mc::choose(n); mc::assume(j != i); MC_NOTE("%c rebuilt by moving from %c", a, 'a' + j); M *x; { mc::Lib l; x = new M(std::move(*q.p[j])); } replace(q, i, x); e = q.e[j]; q.e[j] = Ref<T>(); break; }
      case 8: { int j = mc::choose(n); mc::assume(j != i); MC_NOTE("%c = std::move(%c)", a, 'a' + j); { mc::Lib l; m = std::move(*q.p[j]); } e = q.e[j];
        if (q.p[j]->size() == 0) q.e[j] = Ref<T>(); break; }
      case 9: { const char *t[4] = {"1 2;3 4", "[7]", "1 2 3 4", "5;6"}; int k = mc::choose(4); MC_NOTE("%c = \"%s\"", a, t[k]); { mc::Lib l; if (k & 1) m = std::string(t[k]); else m = t[k]; }
        if (k == 0) { e = Ref<T>(2, 2, T(1)); e.at(0, 1) = T(2); e.at(1, 0) = T(3); e.at(1, 1) = T(4); }
        if (k == 1) e = Ref<T>(1, 1, T(7));
        if (k == 2) { e = Ref<T>(1, 4, T(1)); for (int z = 0; z < 4; z++) e.v[z] = T(z + 1); }
        if (k == 3) { e = Ref<T>(2, 1, T(5)); e.v[1] = T(6); }
        break; }
      case 10: { MC_NOTE("%c rebuilt as default matrix", a); M *x; { mc::Lib l; x = new M(); } replace(q, i, x); e = Ref<T>(); break; }
      case 11: { int s = mc::choose(6); MC_NOTE("%c rebuilt as matrix(tuple(%d,%d),6)", a, SH[s][0], SH[s][1]); M *x; { mc::Lib l; x = new M(std::make_tuple((size_t)SH[s][0], (size_t)SH[s][1]), T(6)); } replace(q, i, x); e = Ref<T>(SH[s][0], SH[s][1], T(6)); break; }
      case 12: { int s = mc::choose(6); bool t = mc::flip(); MC_NOTE("%c rebuilt as %s(%d,%d), unspecified contents", a, t ? "matrix(tuple)" : "matrix", SH[s][0], SH[s][1]); M *x; { mc::Lib l; x = t ? new M(std::make_tuple((size_t)SH[s][0], (size_t)SH[s][1])) : new M((size_t)SH[s][0], (size_t)SH[s][1]); } replace(q, i, x); e = Ref<T>(SH[s][0], SH[s][1], T(0)); e.known.assign(e.v.size(), 0); break; }
      case 13: { MC_NOTE("copy of %c is made, changed and dropped", a); mc::Lib l; M t(m); t.set_all(T(9)); { mc::NoLib nl; Ref<T> w = e; w.all(T(9)); same(t, w, "changed copy"); } break; }
      case 14: { int j = mc::choose(n); mc::assume(j != i); MC_NOTE("std::swap(%c,%c)", a, 'a' + j); { mc::Lib l; std::swap(m, *q.p[j]); } std::swap(e, q.e[j]); break; }
      case 15: { mc::assume(e.v.size() > 0); MC_NOTE("%c = %c.reshape(%zu,%zu)", a, a, e.c, e.r); { mc::Lib l; M t = m.reshape(e.c, e.r); m = t; } std::swap(e.r, e.c); break; }
      case 16: { MC_NOTE("%c moved through a std::vector and back", a); { mc::Lib l; std::vector<M> v; v.push_back(m); v.push_back(M(1, 2, T(8))); v.push_back(m); v.insert(v.begin(), M(2, 2, T(1))); v.erase(v.begin() + 2); m = v[2]; 
          mc::NoLib nl; same(v[1], e, "vector element"); } break; }
      case 17: { MC_NOTE("the element of a returned copy of %c is written", a); mc::assume(e.v.size() > 0); { mc::Lib l; auto f = [&]() { M t(m); return t; }; M u = f(); u(0) = T(9); } break; }
    }
    mc::step();
    q.check();
    mc::prune(q.hash(depth - d - 1));
  }
  mc::outcome(q.hash(0));
  q.done();
}
MC_SCENARIO(two_doubles) { history<double>(2, mc::pick(4, 5)); }
MC_SCENARIO(two_bytes) { history<int8_t>(2, mc::pick(3, 4)); }
MC_SCENARIO(two_ints) { history<int>(2, mc::pick(3, 5)); }
MC_SCENARIO(large_ints) { history<int>(2, mc::pick(2, 2), true); }
MC_SCENARIO(three_doubles) { history<double>(3, mc::pick(3, 4)); }
MC_MAIN
