// C05: elementwise arithmetic, comparison and conversion.
//MC-VARIANT asan: -O0 -fsanitize=address -DSUSA_NDEBUG
//MC-PARTS 4
//MC-BOUND matrices of every shape up to 3x3 (thorough 4x4) and vectors up to 8 (9); background of tagged distinct elements with every pair of special values (zero, unit, negative, largest, smallest, fractions) at every element position (position 0, last and all between), every operator in every operand order, aliased operands included; 8 element types; all supported conversions between 8 source and 10 target types; equality for every single differing element and every pair of shapes; 22 larger shapes (15 to 65537 elements) with a special, differing, negative-zero or NaN element at six places
//MC-ASSUME integer division by zero and signed overflow of int are outside the domain; NaN elements compare unequal as scalars do
#include "mat.h"
#include <limits>

template <class T> static std::vector<T> specials() {
  using L = std::numeric_limits<T>;
  std::vector<T> v = {T(0), T(1), T(2), T(7), T(-1)};
  if (std::is_floating_point<T>::value) { v.push_back(T(-2.5)); v.push_back(T(1e30)); v.push_back(T(1e-30)); v.push_back(L::infinity()); }
  else if (sizeof(T) == 1) { v.push_back(L::max()); v.push_back(L::min()); v.push_back(T(100)); }
  else if (!L::is_signed) v.push_back(L::max());
  else { v.push_back(T(-46000)); v.push_back(T(46000)); }
  return v;
}
template <> std::vector<std::complex<double>> specials<std::complex<double>>() { using C = std::complex<double>; return {C(0, 0), C(1, 0), C(0, 1), C(-1, 2), C(3, -4), C(0, -1), C(1e10, 1e-10)}; }
template <> std::vector<std::complex<float>> specials<std::complex<float>>() { using C = std::complex<float>; return {C(0, 0), C(1, 0), C(0, 1), C(-1, 2), C(3, -4)}; }
template <class T> static bool eq(T a, T b) { return a == b || (a != a && b != b); }
template <class T> static bool eq(std::complex<T> a, std::complex<T> b) { return eq(a.real(), b.real()) && eq(a.imag(), b.imag()); }
template <class T> static bool okdiv(T b) { return !std::is_integral<T>::value || b != T(0); }

static void shape(int &r, int &c) {
  int big = mc::pick(3, 4), lim = mc::pick(8, 9);
  int k = mc::choose(3);
  if (k == 0) { r = mc::range(1, big); c = mc::range(1, big); }
  else { int n = mc::range(big + 1, lim); r = k == 1 ? 1 : n; c = k == 1 ? n : 1; }
}
template <class T, class F> static void check(const char *op, const susa::matrix<T> &got, const Ref<T> &shape, F f) {
  shape_is(got, shape.r, shape.c, op);
  for (size_t i = 0; i < shape.v.size(); i++) { T w = f(i), x = got.get(i); MC_CHECK(eq(x, w), "%s: element %zu is %s, expected %s", op, i, str(x).c_str(), str(w).c_str()); }
}
template <class T> static void same2(const susa::matrix<T> &m, const Ref<T> &e, const char *what) { check<T>(what, m, e, [&](size_t i) { return e.v[i]; }); }

static const std::vector<std::pair<int, int>> &large() { return large_shapes(); }
static int place(int n) { return some_place(n); }
template <class T> static void arith(bool big = false) {
  static const std::vector<T> V = specials<T>();
  int r, c, pos; T x, y;
  if (big) { auto p = mc::any(large()); r = p.first; c = p.second; pos = place(r * c); x = V.back(); y = V[2]; } else { shape(r, c); pos = mc::choose(r * c); x = mc::any(V); y = mc::any(V); }
  Ref<T> a = tagged<T>(r, c, 1), b = tagged<T>(r, c, 20);
  if (big) for (size_t i = 0; i < a.v.size(); i++) { a.v[i] = T((int)(i % 113 + 1)); b.v[i] = T((int)(i % 61 + i / 1000 % 50 + 2)); }
  a.v[pos] = x; b.v[pos] = y;
  if (big) MC_NOTE("%dx%d, special element %s at %d, scalar %s", r, c, str(x).c_str(), pos, str(y).c_str()); else MC_NOTE("a = %s, b = %s, scalar %s", str(a).c_str(), str(b).c_str(), str(y).c_str());
  susa::matrix<T> *A, *B; { mc::Lib l; A = new susa::matrix<T>(mk(a)); B = new susa::matrix<T>(mk(b)); }
  auto keep = [&] { same2(*A, a, "left operand"); same2(*B, b, "right operand"); };
#define OP(name, expr, ref) { mc::Lib l; mc::step(); susa::matrix<T> R = expr; mc::NoLib nl; check<T>(name, R, a, [&](size_t i) { return (T)(ref); }); keep(); }
  OP("a + b", *A + *B, a.v[i] + b.v[i]);
  OP("a - b", *A - *B, a.v[i] - b.v[i]);
  OP("a * b", *A * *B, a.v[i] * b.v[i]);
  OP("a + s", *A + y, a.v[i] + y);
  OP("s + a", y + *A, y + a.v[i]);
  OP("a - s", *A - y, a.v[i] - y);
  OP("s - a", y - *A, y - a.v[i]);
  OP("a * s", *A * y, a.v[i] * y);
  OP("s * a", y * *A, y * a.v[i]);
  OP("a + a", *A + *A, a.v[i] + a.v[i]);
  OP("a - a", *A - *A, a.v[i] - a.v[i]);
  OP("a * a", *A * *A, a.v[i] * a.v[i]);
  if (okdiv(y)) { OP("a / b", *A / *B, a.v[i] / b.v[i]); OP("a / s", *A / y, a.v[i] / y); }
  if (okdiv(x)) { OP("s / a", y / *A, y / a.v[i]); OP("a / a", *A / *A, a.v[i] / a.v[i]); }
  OP("a + b * a - s", *A + *B * *A - y, (T)((T)(a.v[i] + (T)(b.v[i] * a.v[i])) - y));
  { mc::Lib l; mc::step(); susa::matrix<T> R(*A), S = (R += *B); mc::NoLib nl; check<T>("a += b", R, a, [&](size_t i) { return (T)(a.v[i] + b.v[i]); }); check<T>("value of a += b", S, a, [&](size_t i) { return (T)(a.v[i] + b.v[i]); }); keep(); }
  { mc::Lib l; mc::step(); susa::matrix<T> R(*A), S = (R -= *B); mc::NoLib nl; check<T>("a -= b", R, a, [&](size_t i) { return (T)(a.v[i] - b.v[i]); }); check<T>("value of a -= b", S, a, [&](size_t i) { return (T)(a.v[i] - b.v[i]); }); keep(); }
  { mc::Lib l; mc::step(); susa::matrix<T> R(*A); R += R; mc::NoLib nl; check<T>("a += a", R, a, [&](size_t i) { return (T)(a.v[i] + a.v[i]); }); }
  { mc::Lib l; mc::step(); susa::matrix<T> R(*A); R -= R; mc::NoLib nl; check<T>("a -= a", R, a, [&](size_t i) { return (T)(a.v[i] - a.v[i]); }); }
  { mc::Lib l; mc::step(); susa::matrix<T> R(*A); R = R + *B; R = R - R; mc::NoLib nl; check<T>("a = a + b, a = a - a", R, a, [&](size_t i) { T t = (T)(a.v[i] + b.v[i]); return (T)(t - t); }); keep(); }
  mc::outcome(mc::Hash().u(r).u(c).u(pos).s(str(x).c_str()).s(str(y).c_str()).h); mc::state(mc::Hash().u(hashref(a)).u(hashref(b)).h);
  { mc::Lib l; delete A; delete B; } mc::heap_empty("after elementwise arithmetic");
}
#if MC_PART == 0
MC_SCENARIO(arith_double) { arith<double>(); }
MC_SCENARIO(arith_float) { arith<float>(); }
MC_SCENARIO(arith_int) { arith<int>(); }
MC_SCENARIO(arith_unsigned) { arith<unsigned>(); }
#endif
#if MC_PART == 1
MC_SCENARIO(arith_large) { switch (mc::choose(5)) { case 0: arith<double>(true); break; case 1: arith<int>(true); break; case 2: arith<uint8_t>(true); break; case 3: arith<std::complex<double>>(true); break; default: arith<float>(true); } }
MC_SCENARIO(arith_int8) { arith<int8_t>(); }
MC_SCENARIO(arith_uint8) { arith<uint8_t>(); }
MC_SCENARIO(arith_size_t) { arith<size_t>(); }
MC_SCENARIO(arith_cdouble) { arith<std::complex<double>>(); }
MC_SCENARIO(arith_cfloat) { arith<std::complex<float>>(); }

#endif
template <class T> static void equality() {
  using M = susa::matrix<T>;
  int r, c, r2, c2; shape(r, c);
  bool sameshape = mc::flip();
  if (sameshape) { r2 = r; c2 = c; } else { r2 = mc::range(1, 4); c2 = mc::range(1, 4); }
  Ref<T> a = tagged<T>(r, c, 1), b(r2, c2, T(0));
  for (size_t i = 0; i < b.v.size(); i++) b.v[i] = i < a.v.size() ? a.v[i] : T(3);   // same leading storage
  int diff = sameshape ? mc::choose(r * c + 1) : 0;
  if (diff) b.v[diff - 1] = T(99);
  M A = mk(a), B = mk(b);
  bool e = r == r2 && c == c2 && !diff;
  mc::step();
  MC_NOTE("compare %s with %s", str(a).c_str(), str(b).c_str());
  MC_CHECK((A == B) == e && (B == A) == e, "== says %d for %s and %s", (int)(A == B), str(a).c_str(), str(b).c_str());
  MC_CHECK((A != B) == !e && (B != A) == !e, "!= says %d for %s and %s", (int)(A != B), str(a).c_str(), str(b).c_str());
  MC_CHECK(A == A && !(A != A), "a matrix is not equal to itself");
  same(A, a, "left operand"); same(B, b, "right operand");
  M E, F; MC_CHECK(E == F && !(E != F) && !(E == A) && E != A && !(A == E), "comparison with an empty matrix is wrong");
  mc::outcome(mc::Hash().u(r).u(c).u(r2).u(c2).u(diff).h); mc::state(mc::Hash().u(hashref(a)).u(hashref(b)).h);
}
#if MC_PART == 2
MC_SCENARIO(equality_double) { equality<double>(); }
MC_SCENARIO(equality_int) { equality<int>(); }
MC_SCENARIO(equality_int8) { equality<int8_t>(); }
MC_SCENARIO(equality_complex) { equality<std::complex<double>>(); }
template <class T> static void equality_large() {
  auto p = mc::any(large()); int n = p.first * p.second, pos = place(n), kind = mc::choose(std::is_integral<T>::value ? 2 : 4); Ref<T> a(p.first, p.second, T(0)), b = a;
  for (int i = 0; i < n; i++) a.v[i] = b.v[i] = T(i % 113); bool e = true;
  if (kind == 1) { b.v[pos] = T(117); e = false; } else if (kind == 2) { a.v[pos] = T(0.0); b.v[pos] = T(-0.0); } else if (kind == 3) { a.v[pos] = b.v[pos] = T(std::nan("")); e = false; }
  susa::matrix<T> A = mk(a), B = mk(b); mc::step(); MC_NOTE("%dx%d, kind %d at %d", p.first, p.second, kind, pos);
  MC_CHECK((A == B) == e && (B == A) == e && (A != B) == !e && (B != A) == !e, "equality of two %dx%d matrices (%s at element %d) says %d", p.first, p.second, kind == 1 ? "a different element" : kind == 2 ? "zero and negative zero" : kind == 3 ? "NaN" : "no difference", pos, (int)(A == B));
  if (kind != 3) { susa::matrix<T> C(A); MC_CHECK(C == A && A == A && !(A != C), "a copy compares unequal"); }
  mc::outcome(mc::Hash().u(n).u(p.first).u(pos).u(kind).h); mc::state(mc::Hash().u(n).u(p.first).u(pos).u(kind).u(sizeof(T)).h);
}
MC_SCENARIO(equality_large_sizes) { switch (mc::choose(5)) { case 0: equality_large<double>(); break; case 1: equality_large<float>(); break; case 2: equality_large<int>(); break; case 3: equality_large<uint8_t>(); break; default: equality_large<std::complex<double>>(); } }
MC_SCENARIO(equality_nan) {
  int n = mc::range(1, 4), p = mc::choose(n); Ref<double> a(1, n, 1.0); a.v[p] = std::nan("");
  susa::matrix<double> A = mk(a), B = mk(a); mc::step();
  MC_CHECK(!(A == B) && A != B, "matrices with a NaN element compare equal"); mc::outcome(n * 10 + p);
  Ref<double> z(1, n, 0.0), y(1, n, 0.0); y.v[p] = -0.0; susa::matrix<double> Z = mk(z), Y = mk(y);
  MC_CHECK(Z == Y && !(Z != Y), "zero and negative zero compare unequal");
}

#endif
template <class T> static std::vector<T> convspecials();
template <class S> static std::vector<S> cvals() { std::vector<S> v = {S(0), S(1), S(2), S(100), S(127)}; if (std::is_signed<S>::value) { v.push_back(S(-1)); v.push_back(S(-100)); } if (std::is_floating_point<S>::value) { v.push_back(S(0.5)); v.push_back(S(-2.75)); v.push_back(S(99.999)); v.push_back(S(16777217)); v.push_back(S(-2147483000.0)); v.push_back(sizeof(S) > 4 ? S(2147483647) : S(2147483520)); v.push_back(S(0.1)); } else { v.push_back(S(200)); if (sizeof(S) > 1) { v.push_back(S(300)); v.push_back(S(65537)); v.push_back(S(16777217)); v.push_back(S(2147483647)); } if (sizeof(S) > 4) v.push_back(S((1ull << 53) + 1)); } return v; }
template <class S, class D> static bool fits(S s) { if (!std::is_floating_point<S>::value || std::is_floating_point<D>::value) return true; return (double)s > (double)std::numeric_limits<D>::min() - 1 && (double)s < (double)std::numeric_limits<D>::max() + 1.0; }
template <class S, class D> static void conv1(susa::matrix<S> &A, const Ref<S> &a) {
  for (S x : a.v) if (!fits<S, D>(x)) return;
  mc::step();
  susa::matrix<D> R = (susa::matrix<D>)A; check<D>("conversion", R, Ref<D>(a.r, a.c, D(0)), [&](size_t i) { return (D)a.v[i]; });
  susa::matrix<D> Q(2, 2, D(1)); Q = A; check<D>("assignment with conversion", Q, Ref<D>(a.r, a.c, D(0)), [&](size_t i) { return (D)a.v[i]; });
  MC_CHECK(A.no_rows() == a.r && A.no_cols() == a.c, "conversion changed the shape of its operand"); for (size_t i = 0; i < a.v.size(); i++) MC_CHECK(eq(A.get(i), a.v[i]), "conversion changed its operand");
}
template <class S> static void convert() {
  static const std::vector<S> V = cvals<S>();
  int r, c; shape(r, c); int pos = mc::choose(r * c);
  Ref<S> a = tagged<S>(r, c, 1); a.v[pos] = mc::any(V); susa::matrix<S> A = mk(a);
  MC_NOTE("convert %s", str(a).c_str());
  if constexpr (!std::is_same<S, double>::value) conv1<S, double>(A, a);
  if constexpr (!std::is_same<S, float>::value) conv1<S, float>(A, a);
  if constexpr (!std::is_same<S, int>::value) conv1<S, int>(A, a);
  if constexpr (!std::is_same<S, int8_t>::value) conv1<S, int8_t>(A, a);
  if constexpr (!std::is_same<S, uint8_t>::value) conv1<S, uint8_t>(A, a);
  mc::outcome(mc::Hash().u(r).u(c).u(pos).s(str(a.v[pos]).c_str()).h); mc::state(hashref(a));
}
#if MC_PART == 2
MC_SCENARIO(convert_double) { convert<double>(); }
MC_SCENARIO(convert_float) { convert<float>(); }
MC_SCENARIO(convert_int) { convert<int>(); }
MC_SCENARIO(convert_int8) { convert<int8_t>(); }
MC_SCENARIO(convert_uint8) { convert<uint8_t>(); }
MC_SCENARIO(convert_size_t) { convert<size_t>(); }
#endif
#if MC_PART == 3
template <class S, class D> static void convert_large() { auto p = mc::any(large()); int n = p.first * p.second; Ref<S> a(p.first, p.second, S(0)); for (int i = 0; i < n; i++) a.v[i] = S(i % 120) + (std::is_floating_point<S>::value ? S(0.25) : S(0)); a.v[place(n)] = S(122); susa::matrix<S> A = mk(a); conv1<S, D>(A, a); mc::outcome(mc::Hash().u(p.first).u(p.second).h); mc::state(mc::Hash().u(p.first).u(p.second).u(sizeof(S)).u(sizeof(D)).h); }
MC_SCENARIO(convert_large_sizes) { switch (mc::choose(5)) { case 0: convert_large<double, int>(); break; case 1: convert_large<int, double>(); break; case 2: convert_large<float, uint8_t>(); break; case 3: convert_large<uint8_t, float>(); break; default: convert_large<double, float>(); } }
#endif
template <class S, class D> static void cconv1(susa::matrix<std::complex<S>> &A, const Ref<std::complex<S>> &a) {
  using C = std::complex<D>;
  for (auto x : a.v) if (!fits<S, D>(x.real()) || !fits<S, D>(x.imag())) return;
  mc::step();
  susa::matrix<C> R = (susa::matrix<C>)A; check<C>("complex conversion", R, Ref<C>(a.r, a.c, C(0)), [&](size_t i) { return C((D)a.v[i].real(), (D)a.v[i].imag()); });
  for (size_t i = 0; i < a.v.size(); i++) MC_CHECK(A.get(i) == a.v[i], "conversion changed its operand");
}
template <class S> static void cconvert() {
  using C = std::complex<S>; static const std::vector<S> V = cvals<S>();
  int r, c; shape(r, c); int pos = mc::choose(r * c);
  Ref<C> a(r, c, C(0)); for (size_t i = 0; i < a.v.size(); i++) a.v[i] = C(S(i + 1), S(30 - i));
  { S x = mc::any(V), y = mc::any(V); a.v[pos] = C(x, y); }
  susa::matrix<C> A = mk(a);
  if constexpr (!std::is_same<S, double>::value) cconv1<S, double>(A, a);
  if constexpr (!std::is_same<S, float>::value) cconv1<S, float>(A, a);
  if constexpr (!std::is_same<S, int>::value) cconv1<S, int>(A, a);
  if constexpr (!std::is_same<S, int8_t>::value) cconv1<S, int8_t>(A, a);
  if constexpr (!std::is_same<S, uint8_t>::value) cconv1<S, uint8_t>(A, a);
  mc::outcome(mc::Hash().u(r).u(c).u(pos).s(str(a.v[pos]).c_str()).h); mc::state(hashref(a));
}
#if MC_PART == 3
MC_SCENARIO(cconvert_double) { cconvert<double>(); }
MC_SCENARIO(cconvert_float) { cconvert<float>(); }
MC_SCENARIO(cconvert_int) { cconvert<int>(); }
MC_SCENARIO(cconvert_int8) { cconvert<int8_t>(); }
MC_SCENARIO(cconvert_uint8) { cconvert<uint8_t>(); }
#endif
MC_MAIN
