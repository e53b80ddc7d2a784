// C04: text notation of matrices.
//MC-VARIANT noassert: -O1 -fsanitize=address -DSUSA_NDEBUG -DSUSA_NASSERT
//MC-VARIANT assert: -O1 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND every text of up to 5 (thorough 7) characters over "1 ; , [ ] - . newline blank"; every text of up to 6 (8) characters over "1 ( ) , blank ; -" read as complex numbers; every spelling of matrices up to 3x3 with any 2 (thorough 3 for double and int8_t; 1 for eleven of the types in quick) separators, borders or elements spelled differently, 14 element types; rows and columns of 1..5000 elements, up to 37 of them, with five pairs of separators; print/parse of every value set of every type for shapes up to 3x3; text assigned to objects of every previous shape
//MC-ASSUME an element that is not a number (for a complex type a number or (number) or (number,number), with blanks around the parts only) has an unspecified value; brackets are blanks; values are printed with the precision of the stream; the LC_ALL=C locale
#include "mat.h"
#include <limits>

// independent reader of the notation: 0 = empty, 1 = good, 2 = rejected, 3 = contains something that is not a number
static int reference(const std::string &s, Ref<double> &e) {
  std::vector<std::vector<std::string>> rows(1); std::string cur; bool any = false;
  auto flush = [&] { if (cur.size()) { rows.back().push_back(cur); cur.clear(); any = true; } };
  for (char c : s) {
    if (c == ';' || c == '\n') { flush(); rows.emplace_back(); }
    else if (c == ' ' || c == '\t' || c == ',' || c == '[' || c == ']' || c == '\r') flush();
    else cur += c;
  }
  flush();
  if (!any && rows.size() == 1) return 0;
  size_t n = rows[0].size(); bool num = true;
  for (auto &r : rows) for (auto &t : r) { std::istringstream is(t); double d; if (!(is >> d) || !is.eof()) num = false; }
  if (!num) return 3;
  for (auto &r : rows) if (r.size() != n || n == 0) return 2;
  e = Ref<double>(rows.size(), n, 0.0);
  for (size_t i = 0; i < e.r; i++) for (size_t j = 0; j < n; j++) { std::istringstream is(rows[i][j]); double d = 0; is >> d; e.at(i, j) = d; }
  return 1;
}
#ifdef MC_V_assert
static const bool ASSERTS = true;
#else
static const bool ASSERTS = false;
#endif
static std::string vis(const std::string &s) { std::string o; for (char c : s) o += c == '\n' ? std::string("\\n") : c == '\t' ? std::string("\\t") : c == '\r' ? std::string("\\r") : std::string(1, c); return o.size() > 80 ? o.substr(0, 80) + "..." : o; }

// ---- every short text
static void short_text(int first) {
  static const char AB[] = "1 ;,[]-.\n";
  std::string s(1, AB[first]);
  int len = 1; int max = mc::pick(5, 7);
  while (len < max) { int k = mc::choose(10); if (k == 9) break; s += AB[k]; len++; }
  MC_NOTE("text \"%s\"", vis(s).c_str());
  Ref<double> e; int kind = reference(s, e);
  Ref<double> old(2, 1, 5.0);
  using M = susa::matrix<double>;
  M *m; { mc::Lib l; m = new M(2, 1, 5.0); mc::step(); *m = s; }
  mc::heap_ok();
  if (kind == 1) same(*m, e, "text assigned");
  if (kind == 0) shape_is(*m, 0, 0, "empty text assigned");
  if (kind == 2) MC_CHECK(m->size() == 0 || snap(*m) == old, "text whose rows have different lengths produced %s", str(*m).c_str());
  MC_CHECK(m->size() == m->no_rows() * m->no_cols(), "size %zu, shape %zux%zu", m->size(), m->no_rows(), m->no_cols());
  M *c; { mc::Lib l; c = new M(s); mc::step(); }
  mc::heap_ok();
  if (kind == 1) same(*c, e, "constructed from text");
  if (kind == 0 || kind == 2) MC_CHECK(c->size() == 0, "text \"%s\" constructed %s", vis(s).c_str(), str(*c).c_str());
  mc::state(mc::Hash().u(kind).u(hashref(snap(*c))).h); mc::outcome(mc::Hash().s(s.c_str()).h);
  { mc::Lib l; delete m; delete c; }
  mc::heap_empty("after parsing");
}
#ifndef MC_V_assert
MC_SCENARIO(short_1) { short_text(0); }
MC_SCENARIO(short_blank) { short_text(1); }
MC_SCENARIO(short_semicolon) { short_text(2); }
MC_SCENARIO(short_comma) { short_text(3); }
MC_SCENARIO(short_open) { short_text(4); }
MC_SCENARIO(short_close) { short_text(5); }
MC_SCENARIO(short_minus) { short_text(6); }
MC_SCENARIO(short_point) { short_text(7); }
MC_SCENARIO(short_newline) { short_text(8); }
#endif

// ---- every short text of complex numbers: (real,imaginary), blanks around the parts are allowed
static int reference_complex(const std::string &s, Ref<std::complex<double>> &e) {
  std::vector<std::vector<std::string>> rows(1); std::string cur; bool any = false, in = false, odd = false;
  auto flush = [&] { if (cur.size()) { rows.back().push_back(cur); cur.clear(); any = true; } };
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if (in) {
      if (c == ' ') { char p = cur.back(); size_t k = i; while (k < s.size() && s[k] == ' ') k++; char q = k < s.size() ? s[k] : 'x'; if (!(p == '(' || p == ',' || q == ',' || q == ')')) odd = true; }
      else { if (c == ';' || c == '(') odd = true; cur += c; if (c == ')') in = false; }
    } else if (c == '(') { if (cur.size()) odd = true; cur += c; in = true; }
    else if (c == ')') odd = true;
    else if (c == ';') { flush(); rows.emplace_back(); }
    else if (c == ' ' || c == ',') flush();
    else { if (cur.size() && cur.back() == ')') odd = true; cur += c; }
  }
  if (in || odd) return 3;
  flush();
  if (!any && rows.size() == 1) return 0;
  size_t n = rows[0].size();
  for (auto &r : rows) for (auto &t : r) { std::istringstream is(t); std::complex<double> d; if (!(is >> d) || is.peek() != EOF) return 3; }
  for (auto &r : rows) if (r.size() != n || n == 0) return 2;
  e = Ref<std::complex<double>>(rows.size(), n, 0.0);
  for (size_t i = 0; i < e.r; i++) for (size_t j = 0; j < n; j++) { std::istringstream is(rows[i][j]); is >> e.at(i, j); }
  return 1;
}
static void short_complex(int first) {
  static const char AB[] = "1(), ;-"; using C = std::complex<double>; using M = susa::matrix<C>;
  std::string s(1, AB[first]); int len = 1, max = mc::pick(6, 8);
  while (len < max) { int k = mc::choose(8); if (k == 7) break; s += AB[k]; len++; }
  MC_NOTE("text \"%s\"", vis(s).c_str());
  Ref<C> e; int kind = reference_complex(s, e); M *m, *c; { mc::Lib l; m = new M(2, 1, C(5, 0)); mc::step(); *m = s; c = new M(s); }
  mc::heap_ok();
  if (kind == 1) { same(*m, e, "text assigned"); same(*c, e, "constructed from text"); }
  if (kind == 0) shape_is(*m, 0, 0, "empty text assigned");
  if (kind == 2) MC_CHECK(m->size() == 0 || snap(*m) == Ref<C>(2, 1, C(5, 0)), "text whose rows have different lengths produced %s", str(*m).c_str());
  if (kind == 0 || kind == 2) MC_CHECK(c->size() == 0, "text \"%s\" constructed %s", vis(s).c_str(), str(*c).c_str());
  MC_CHECK(m->size() == m->no_rows() * m->no_cols() && c->size() == c->no_rows() * c->no_cols(), "size %zu, shape %zux%zu", m->size(), m->no_rows(), m->no_cols());
  mc::state(mc::Hash().u(kind).u(hashref(snap(*c))).h); mc::outcome(mc::Hash().s(s.c_str()).h);
  { mc::Lib l; delete m; delete c; } mc::heap_empty("after parsing");
}
#ifndef MC_V_assert
MC_SCENARIO(complex_1) { short_complex(0); }
MC_SCENARIO(complex_open) { short_complex(1); }
MC_SCENARIO(complex_close) { short_complex(2); }
MC_SCENARIO(complex_comma) { short_complex(3); }
MC_SCENARIO(complex_blank) { short_complex(4); }
MC_SCENARIO(complex_semicolon) { short_complex(5); }
MC_SCENARIO(complex_minus) { short_complex(6); }
#endif

// ---- ragged text stops by assertion
MC_SCENARIO(ragged) {
  int rows = mc::range(2, 4), n[4]; bool eq = true; std::string s;
  for (int i = 0; i < rows; i++) { n[i] = mc::range(0, 4); eq = eq && n[i] == n[0] && n[i] > 0; }
  mc::assume(!eq);
  const char *sep = mc::flip() ? "\n" : ";";
  for (int i = 0; i < rows; i++) { if (i) s += sep; for (int j = 0; j < n[i]; j++) s += (j ? " " : "") + std::to_string(i * 10 + j); }
  MC_NOTE("text \"%s\"", vis(s).c_str());
  auto run = [&] { susa::matrix<int> x(2, 2, 9); x = s; if (!(x.size() == 0 || snap(x) == Ref<int>(2, 2, 9))) mc::fail("ragged text \"%s\" produced %s", vis(s).c_str(), str(x).c_str()); };
  mc::step();
  if (ASSERTS) { bool a = mc::aborts(run); MC_CHECK(a, "ragged text \"%s\" was accepted", vis(s).c_str()); } else run();
  auto run2 = [&] { susa::matrix<int> x(s); if (x.size() != 0) mc::fail("ragged text \"%s\" constructed %s", vis(s).c_str(), str(x).c_str()); };
  if (ASSERTS) { bool a = mc::aborts(run2); MC_CHECK(a, "ragged text \"%s\" was accepted by the constructor", vis(s).c_str()); } else run2();
  mc::outcome(mc::Hash().s(s.c_str()).h); mc::state(mc::Hash().s(s.c_str()).h);
}

// ---- every spelling of a matrix
template <class T> struct is_cplx { static const bool v = false; using real = T; };
template <class T> struct is_cplx<std::complex<T>> { static const bool v = true; using real = T; };
struct Sp { const char *t; double v, im = 0; };
template <class T> static std::vector<Sp> spellings() {
  std::vector<Sp> v = {{"0", 0}, {"1", 1}, {"7", 7}, {"12", 12}, {"100", 100}, {"+3", 3}, {"05", 5}};
  if (std::is_signed<T>::value || !std::is_arithmetic<T>::value) { v.push_back({"-1", -1}); v.push_back({"-128", -128}); v.push_back({"127", 127}); } else { v.push_back({"255", 255}); v.push_back({"128", 128}); }
  if (std::is_floating_point<typename is_cplx<T>::real>::value) for (Sp s : std::vector<Sp>{{"0.5", .5}, {"-.25", -.25}, {".5", .5}, {"3.", 3}, {"1e3", 1000}, {"2E+2", 200}, {"25e-2", .25}, {"-0", 0}, {"+.5e1", 5}, {"1048576.5", 1048576.5}}) v.push_back(s);
  if (sizeof(T) >= 4 && std::is_integral<T>::value) v.push_back({"2147483647", 2147483647.0});
  if (sizeof(T) >= 4 && std::is_integral<T>::value && std::is_signed<T>::value) v.push_back({"-2147483648", -2147483648.0});
  if (is_cplx<T>::v) for (Sp s : std::vector<Sp>{{"(1,2)", 1, 2}, {"(-3,4)", -3, 4}, {"(5,-6)", 5, -6}, {"(7)", 7, 0}, {"( 8 , 9 )", 8, 9}, {"(\t+10, -11)", 10, -11}, {"(0,12 )", 0, 12}}) v.push_back(s);
  if (is_cplx<T>::v && std::is_floating_point<typename is_cplx<T>::real>::value) for (Sp s : std::vector<Sp>{{"(.5,-.25)", .5, -.25}, {"(1e2, 2.5e-1)", 100, .25}}) v.push_back(s);
  return v;
}
template <class T> static T conv(double d, double im = 0) { if constexpr (is_cplx<T>::v) { using R = typename is_cplx<T>::real; return T((R)d, (R)im); } else return T(d); }
template <class T> static void spelled() {
  static const std::vector<Sp> SP = spellings<T>();
  static const char *ESEP[] = {" ", ",", "  ", ", ", " ,", "\t", " , ", " \t "};
  static const char *RSEP[] = {";", "\n", " ;", "; ", " ; ", "\r\n", ";\t", "\t;  ", " \n ", "]\n[", " ] ; [ "};
  static const char *LEAD[] = {"", "[", " ", "[ ", " [", "\t", "[["};
  static const char *TAIL[] = {"", "]", " ", " ]", "] ", "\t ", "]]", " ] "};
  int budget = mc::pick(std::is_same<T, double>::value || sizeof(T) == 1 ? 2 : 1, std::is_same<T, double>::value || std::is_same<T, int8_t>::value ? 3 : 2);
  auto dev = [&](int n, int dflt) { if (!budget) return dflt; int k = mc::choose(n); if (k == 0) return dflt; budget--; return k; };
  int r = mc::range(1, 3), c = mc::range(1, 3), tagoff = mc::choose(3); bool pairs = is_cplx<T>::v && mc::flip();
  std::string s = LEAD[dev(7, 0)];
  Ref<T> e(r, c, T(0));
  for (int i = 0; i < r; i++) {
    if (i) s += RSEP[dev(11, 0)];
    for (int j = 0; j < c; j++) {
      if (j) s += ESEP[dev(8, 0)];
      int k = dev(SP.size() + 1, 0);
      if (k) { s += SP[k - 1].t; e.at(i, j) = conv<T>(SP[k - 1].v, SP[k - 1].im); } else { int x = i * c + j + 1 + tagoff * 9; if (pairs) { s += "(" + std::to_string(x) + "," + std::to_string(-x - 40) + ")"; e.at(i, j) = conv<T>(x, -x - 40); } else { s += std::to_string(x); e.at(i, j) = conv<T>(x); } }
    }
  }
  s += TAIL[dev(8, 0)];
  int prev = dev(5, 0);
  MC_NOTE("text \"%s\" %s", vis(s).c_str(), prev ? "assigned" : "constructed");
  using M = susa::matrix<T>; M *m;
  {
    mc::Lib l; mc::step();
    if (prev == 0) m = new M(s);
    else if (prev == 1) { m = new M(); *m = s.c_str(); }
    else if (prev == 2) { m = new M(r, c, T(9)); *m = s; }
    else if (prev == 3) { m = new M(c, r, T(9)); *m = s.c_str(); }
    else { m = new M(4, 5, T(9)); *m = s; }
  }
  mc::heap_ok();
  same(*m, e, "parsed");
  mc::outcome(mc::Hash().s(s.c_str()).h); mc::state(mc::Hash().u(hashref(e)).u(prev).h);
  { mc::Lib l; delete m; }
  mc::heap_empty("after parsing");
}
MC_SCENARIO(spell_double) { spelled<double>(); }
MC_SCENARIO(spell_float) { spelled<float>(); }
MC_SCENARIO(spell_int) { spelled<int>(); }
MC_SCENARIO(spell_unsigned) { spelled<unsigned>(); }
MC_SCENARIO(spell_long) { spelled<long>(); }
MC_SCENARIO(spell_size_t) { spelled<size_t>(); }
MC_SCENARIO(spell_int8) { spelled<int8_t>(); }
MC_SCENARIO(spell_uint8) { spelled<uint8_t>(); }
MC_SCENARIO(spell_int16) { spelled<int16_t>(); }
MC_SCENARIO(spell_cdouble) { spelled<std::complex<double>>(); }
MC_SCENARIO(spell_cint8) { spelled<std::complex<int8_t>>(); }
MC_SCENARIO(spell_char) { spelled<char>(); }
MC_SCENARIO(spell_cfloat) { spelled<std::complex<float>>(); }
MC_SCENARIO(spell_cint) { spelled<std::complex<int>>(); }

// ---- rows of any length
template <class T> static void long_text() {
  bool full = std::is_same<T, int>::value; int w = full ? mc::range(1, 4) : mc::any<int>({1, 3});                        // characters of an element
  static const int NS[] = {1, 2, 100, 511, 512, 513, 818, 819, 820, 1023, 1024, 1025, 1364, 1365, 1366, 2047, 2048, 2049, 4095, 4096, 4097, 5000};
  static const char *const RS[] = {";", "\n", "; ", "\n "}, *const ES[] = {" ", ",", ", ", "\r", "   "};
  int n = NS[mc::choose(22)], rows = mc::any<int>({1, 2, 3, 37}); bool column = mc::flip(); int sep = mc::choose(5), brackets = sep % 2; const char *rs = RS[sep % 4], *es = ES[sep]; if (!full) mc::assume(n < 1400); if (rows > 3) n = std::min(n, 40 + n % 90);
  std::string s = brackets ? "[" : ""; Ref<T> e(column ? n : rows, column ? rows : n, T(0));
  for (size_t i = 0; i < e.r; i++) { if (i) s += rs; for (size_t j = 0; j < e.c; j++) { int x = (int)(i * 7 + j * 3 + 1) % 9 + 1; std::string t = std::to_string(x); while ((int)t.size() < w) t = t + "0"; if (j) s += es; s += t; e.at(i, j) = T(std::stoi(t)); } }
  if (brackets) s += "]";
  MC_NOTE("%zux%zu, %zu characters", e.r, e.c, s.size());
  mc::step();
  susa::matrix<T> m(s); same(m, e, "long text"); { susa::matrix<T> o(2, 3, T(5)); o = s; same(o, e, "long text assigned"); }
  mc::outcome(mc::Hash().u(w).u(n).u(rows).u(column).u(sep).u(brackets).h); mc::state(hashref(e));
}
MC_SCENARIO(long_rows) { long_text<int>(); }
MC_SCENARIO(long_rows_double) { long_text<double>(); }
MC_SCENARIO(long_rows_complex) { long_text<std::complex<float>>(); }

// ---- printing and parsing back
template <class T> static std::vector<T> values() {
  std::vector<T> v; auto SP = spellings<T>(); for (auto &s : SP) v.push_back(conv<T>(s.v, s.im));
  return v;
}
template <class T> static void printed() {
  std::vector<T> V = values<T>();
  using L = std::numeric_limits<T>;
  if (std::is_floating_point<T>::value) for (T x : {T(-1.5), T(123456), T(0.000123), T(1e20), T(-2.5e-7)}) V.push_back(x);
  else { V.push_back(L::max()); V.push_back(L::min()); V.push_back(T(32)); V.push_back(T(48)); V.push_back(T(59)); V.push_back(T(91)); V.push_back(T(93)); V.push_back(T(10)); }
  int r = mc::range(1, 3), c = mc::range(1, 3);
  int a = mc::choose((int)V.size()), b = mc::choose((int)V.size()), pa = mc::choose(r * c);
  bool full = mc::flip();
  if (full && !std::is_floating_point<T>::value) throw mc::Stop{};
  Ref<T> e(r, c, V[b]); e.v[pa] = full ? V[a] / T(3) : V[a];
  MC_NOTE("print %s", str(e).c_str());
  susa::matrix<T> m = mk(e);
  mc::step();
  std::ostringstream o; if (full || std::is_floating_point<T>::value) o.precision(full ? 17 : 10);
  o << m;
  std::ostringstream tail; tail << "x" << m;                                  // a second print gives the same
  if (!full && !std::is_floating_point<T>::value) MC_CHECK(tail.str() == "x" + o.str(), "printing twice differs: \"%s\" and \"%s\"", vis(o.str()).c_str(), vis(tail.str()).c_str());
  same(m, e, "matrix after printing");
  Ref<double> d; int kind = reference(o.str(), d);
  MC_CHECK(kind == 1 && d.r == e.r && d.c == e.c, "printed text \"%s\" does not show a %dx%d matrix", vis(o.str()).c_str(), r, c);
  susa::matrix<T> back(o.str()); same(back, e, "parsed print-out");
  susa::matrix<T> asg(3, 3, T(0)); asg = o.str(); same(asg, e, "print-out assigned");
  MC_CHECK(back == m, "parsed print-out is not equal to the printed matrix");
  mc::outcome(mc::Hash().s(o.str().c_str()).h); mc::state(hashref(e));
}
MC_SCENARIO(print_double) { printed<double>(); }
MC_SCENARIO(print_float) { printed<float>(); }
MC_SCENARIO(print_int) { printed<int>(); }
MC_SCENARIO(print_unsigned) { printed<unsigned>(); }
MC_SCENARIO(print_long) { printed<long>(); }
MC_SCENARIO(print_size_t) { printed<size_t>(); }
MC_SCENARIO(print_int8) { printed<int8_t>(); }
MC_SCENARIO(print_uint8) { printed<uint8_t>(); }
MC_SCENARIO(print_int16) { printed<int16_t>(); }
MC_SCENARIO(print_char) { printed<char>(); }
template <class T> static void printed_complex() {
  using R = typename is_cplx<T>::real; std::vector<T> V = values<T>(); using L = std::numeric_limits<R>; V.push_back(T(L::max(), L::lowest())); V.push_back(T(R(-1), R(0))); V.push_back(T(R(48), R(41)));
  if (std::is_floating_point<R>::value) { V.push_back(T(R(-1.5), R(1e20))); V.push_back(T(R(1) / R(3), R(-2.5e-7))); }
  int r = mc::range(1, 3), c = mc::range(1, 3), a = mc::choose((int)V.size()), b = mc::choose((int)V.size()), pa = mc::choose(r * c);
  Ref<T> e(r, c, V[b]); e.v[pa] = V[a]; MC_NOTE("print %s", str(e).c_str());
  susa::matrix<T> m = mk(e); mc::step(); std::ostringstream o; o.precision(17); o << m; same(m, e, "matrix after printing");
  susa::matrix<T> back(o.str()); same(back, e, "parsed print-out"); susa::matrix<T> asg(3, 3, T(0)); asg = o.str(); same(asg, e, "print-out assigned");
  MC_CHECK(back == m, "parsed print-out is not equal to the printed matrix"); mc::outcome(mc::Hash().s(o.str().c_str()).h); mc::state(hashref(e));
}
MC_SCENARIO(print_cdouble) { printed_complex<std::complex<double>>(); }
MC_SCENARIO(print_cfloat) { printed_complex<std::complex<float>>(); }
MC_SCENARIO(print_cint) { printed_complex<std::complex<int>>(); }
MC_SCENARIO(print_cint8) { printed_complex<std::complex<int8_t>>(); }
MC_SCENARIO(print_cuint8) { printed_complex<std::complex<uint8_t>>(); }
MC_MAIN
