// Helpers shared by the matrix harnesses.
#pragma once
#include "mc.h"
#include <susa.h>

template <class T> struct Ref {            // reference model of a matrix: shape + column-major cells
  size_t r = 0, c = 0;
  std::vector<T> v;                        // v[i + j*r]
  std::vector<char> known;                 // a cell is unknown after a resize that changes the count
  Ref() {}
  Ref(size_t r_, size_t c_, T x) : r(r_), c(c_), v(r_ * c_, x), known(r_ * c_, 1) {}
  T &at(size_t i, size_t j) { return v[i + j * r]; }
  const T &at(size_t i, size_t j) const { return v[i + j * r]; }
  void all(T x) { v.assign(r * c, x); known.assign(r * c, 1); }
  bool operator==(const Ref &o) const { return r == o.r && c == o.c && v == o.v; }
};
template <class T> std::string str(const T &x) { std::ostringstream s; s << +x; return s.str(); }
template <class T> std::string str(const std::complex<T> &x) { std::ostringstream s; s << "(" << +x.real() << "," << +x.imag() << ")"; return s.str(); }
template <class T> std::string str(const Ref<T> &m) {
  std::string s = "[" + std::to_string(m.r) + "x" + std::to_string(m.c) + ":";
  for (size_t i = 0; i < m.r; i++) { for (size_t j = 0; j < m.c; j++) s += " " + str(m.at(i, j)); s += i + 1 < m.r ? ";" : ""; }
  return s + "]";
}
template <class T, class A> std::string str(const susa::matrix<T, A> &m) {
  std::string s = "[" + std::to_string(m.no_rows()) + "x" + std::to_string(m.no_cols()) + ":";
  if (m.no_rows() * m.no_cols() > 200) return s + " ...]";
  for (size_t i = 0; i < m.no_rows(); i++) { for (size_t j = 0; j < m.no_cols(); j++) s += " " + str(m.get(i, j)); s += i + 1 < m.no_rows() ? ";" : ""; }
  return s + "]";
}
template <class T, class A> void shape_is(const susa::matrix<T, A> &m, size_t r, size_t c, const char *what) {
  MC_CHECK(m.no_rows() == r && m.no_cols() == c, "%s: shape is %zux%zu, expected %zux%zu", what, m.no_rows(), m.no_cols(), r, c);
  MC_CHECK(m.size() == r * c, "%s: size() is %zu, expected %zu", what, m.size(), r * c);
}
template <class T, class A> void same(const susa::matrix<T, A> &m, const Ref<T> &e, const char *what) {
  shape_is(m, e.r, e.c, what);
  size_t a, b; std::tie(a, b) = m.shape();
  MC_CHECK(a == e.r && b == e.c, "%s: shape() is %zux%zu, expected %zux%zu", what, a, b, e.r, e.c);
  for (size_t j = 0; j < e.c; j++) for (size_t i = 0; i < e.r; i++) if (e.known.empty() || e.known[i + j * e.r]) {
    T x = m.get(i, j), y = m.get(i + j * e.r);
    MC_CHECK(x == e.at(i, j) && y == e.at(i, j), "%s: element (%zu,%zu) is %s, expected %s; got %s expected %s", what, i, j, str(x).c_str(), str(e.at(i, j)).c_str(), str(m).c_str(), str(e).c_str());
  }
}
template <class T> susa::matrix<T> mk(const Ref<T> &e) {
  susa::matrix<T> m(e.r, e.c);
  for (size_t j = 0; j < e.c; j++) for (size_t i = 0; i < e.r; i++) m(i, j) = e.at(i, j);
  return m;
}
// distinct tagged contents
template <class T> Ref<T> tagged(size_t r, size_t c, int off = 1) {
  Ref<T> e(r, c, T(0));
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) e.at(i, j) = T((int)(i * c + j) + off);
  return e;
}
template <class T, class A> Ref<T> snap(const susa::matrix<T, A> &m) {
  Ref<T> e(m.no_rows(), m.no_cols(), T(0));
  for (size_t j = 0; j < e.c; j++) for (size_t i = 0; i < e.r; i++) e.at(i, j) = m.get(i, j);
  return e;
}
template <class T> void hv(mc::Hash &k, const T &x) { k.d((double)x); }
template <class T> void hv(mc::Hash &k, const std::complex<T> &x) { k.d((double)x.real()).d((double)x.imag()); }
template <class T> uint64_t hashref(const Ref<T> &e) {
  mc::Hash k; k.u(e.r).u(e.c); for (size_t i = 0; i < e.v.size(); i++) hv(k, e.v[i]);
  return k.h;
}

// shapes beyond every small block size, word size, unrolling factor and narrow counter
inline const std::vector<std::pair<int, int>> &large_shapes() { static std::vector<std::pair<int, int>> L{{1, 15}, {1, 16}, {17, 1}, {4, 8}, {11, 3}, {1, 63}, {64, 1}, {5, 13}, {127, 1}, {2, 64}, {1, 129}, {255, 1}, {16, 16}, {1, 257}, {3, 100}, {1023, 1}, {25, 41}, {1, 2049}, {4097, 1}, {257, 17}, {17, 257}, {1, 65537}}; return L; }
inline int some_place(int n) { std::vector<int> v{0, 1, n / 2, (n - 1) / 8 * 8, n - 2, n - 1}; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); while (v.front() < 0) v.erase(v.begin()); while (v.back() >= n) v.pop_back(); return mc::any(v); }
template <class T> std::string brief(const Ref<T> &m) { return m.v.size() <= 80 ? str(m) : "[" + std::to_string(m.r) + "x" + std::to_string(m.c) + " large]"; }
