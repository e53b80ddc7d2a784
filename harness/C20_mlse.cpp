// C20: channel::encode_isi and both forms of channel::decode_mlse against a search over all sequences.
//MC-VARIANT asan: -O2 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND responses of 2 to 4 taps (all over {-1,0,0.5,1} with 2 and 3 taps, fixed ones of 3 and 4 taps), constellations of 2 to 4 (thorough 8) amplitudes, every start state; every noiseless sequence up to 6 (9) symbols; every received block over a three-letter alphabet for 2 taps (transmitted length up to 4 (6) unknown start, 3 (5) known start) and over a two-letter one for 3 taps (5 (6) and 4 (5)) and 4 taps (5 (7) and 4 (6)), double and float; blocks within 2^-20 of a tie between sequences; amplitudes and responses scaled by 2^-45 to 2^45; fixed families of blocks up to 300 (1100) samples against dynamic programming; channels of 128 to 512 (4096) memory states (up to 12 taps, 8 amplitudes) with blocks up to 50 samples; two decodes per object with other calls in between and a second object alive; fresh memory filled with three patterns
//MC-ASSUME the response is a row vector of at least two taps; blocks are column vectors longer than twice the channel memory (unknown start: transmitted sequences longer than the channel memory); known start: the block comes from encode_isi, whose trellis starts and ends in the given state
#include "mat.h"
typedef uint32_t u32;
struct Ch { std::vector<double> taps, pam; };
static std::vector<u32> digits(u32 s, u32 n, u32 M) { std::vector<u32> d(n); for (u32 i = 0; i < n; i++) { d[n - 1 - i] = s % M; s /= M; } return d; } // oldest first
static u32 ipow(u32 b, u32 e) { u32 r = 1; while (e--) r *= b; return r; }
// output samples first..last of the full convolution of the symbols with the response
static std::vector<double> conv_ref(const Ch &c, const std::vector<double> &x) { std::vector<double> y(x.size() + c.taps.size() - 1, 0.0); for (size_t i = 0; i < x.size(); i++) for (size_t k = 0; k < c.taps.size(); k++) y[i + k] += x[i] * c.taps[k]; return y; }
static std::vector<double> isi_ref(const Ch &c, const std::vector<double> &x, u32 st) { u32 L = c.taps.size() - 1; auto d = digits(st, L, c.pam.size()); std::vector<double> z; for (u32 q : d) z.push_back(c.pam[q]); for (double v : x) z.push_back(v); for (u32 q : d) z.push_back(c.pam[q]); auto y = conv_ref(c, z); return std::vector<double>(y.begin() + L, y.end() - L); }
static double dist(const std::vector<double> &a, const std::vector<double> &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return s; }
static std::string vs(const std::vector<double> &v) { std::string s; char b[32]; for (double x : v) { snprintf(b, sizeof b, " %g", x); s += b; } return s; }
static std::string cs(const Ch &c) { return "response" + vs(c.taps) + ", amplitudes" + vs(c.pam); }
static double g_sp = 1, g_st = 1; // powers of two that scale the amplitudes and the response as the library sees them (exact)
struct Unscale { ~Unscale() { g_sp = g_st = 1; } }; // an execution may be abandoned half way
template <class T> static susa::channel<T> *make(const Ch &c) { mc::Lib l; susa::matrix<T> t(1, c.taps.size()), p(1, c.pam.size()); for (size_t i = 0; i < c.taps.size(); i++) t(i) = (T)(c.taps[i] * g_st); for (size_t i = 0; i < c.pam.size(); i++) p(i) = (T)(c.pam[i] * g_sp); return new susa::channel<T>(t, p); }
template <class T> static susa::matrix<T> *col(const std::vector<double> &y) { mc::Lib l; auto *Y = new susa::matrix<T>(y.size(), 1); for (size_t i = 0; i < y.size(); i++) (*Y)(i) = (T)(y[i] * g_sp * g_st); return Y; }
// least distance over all sequences of N symbols (st<0: unknown start, full convolution), by branch and bound over the tree of sequences; number of minimisers
struct Best { const Ch &c; const std::vector<double> &y; int N, L; double b = 1e300; int n = 0; double z[64], arg[64]; };
static void rec(Best &q, int i, double d) { // z[0 .. L+i-1] is fixed, samples before i are accounted for
  if (d >= q.b + 1e-9) return; if (i == q.N + q.L) { if (d < q.b - 1e-9) { q.b = d; q.n = 1; std::copy(q.z + q.L, q.z + q.L + q.N, q.arg); } else q.n++; return; }
  auto out = [&] { double o = -q.y[i]; for (int k = 0; k <= q.L; k++) o += q.c.taps[k] * q.z[q.L + i - k]; return d + o * o; };
  if (i >= q.N) { rec(q, i + 1, out()); return; } for (double p : q.c.pam) { q.z[q.L + i] = p; rec(q, i + 1, out()); }
}
static double best(const Ch &c, const std::vector<double> &y, int N, int st, std::vector<double> &arg, int &n) {
  int L = c.taps.size() - 1; Best q{c, y, N, L}; auto d = digits(st < 0 ? 0 : st, L, c.pam.size()); for (int i = 0; i < L; i++) q.z[i] = q.z[L + N + i] = st < 0 ? 0 : c.pam[d[i]]; rec(q, 0, 0); n = q.n; arg.assign(q.arg, q.arg + N); return q.b;
}
// least distance by dynamic programming over the memory states: for blocks too long for the search (compared with it on short ones)
static double viterbi(const Ch &c, const std::vector<double> &y, int N, int st) {
  u32 M = c.pam.size(), L = c.taps.size() - 1, S = ipow(M + 1, L), n = N + L; std::vector<double> d(S, 1e300); // digit M stands for "nothing transmitted"
  auto amp = [&](u32 q) { return q == M ? 0.0 : c.pam[q]; }; auto from = [&](const std::vector<u32> &o) { u32 s = 0; for (u32 q : o) s = s * (M + 1) + q; return s; }; std::vector<u32> head = st < 0 ? std::vector<u32>(L, M) : digits(st, L, M); d[from(head)] = 0;
  for (u32 i = 0; i < n; i++) { std::vector<double> e(S, 1e300); for (u32 s = 0; s < S; s++) if (d[s] < 1e299) { auto o = digits(s, L, M + 1); for (u32 q = 0; q <= M; q++) { if ((int)i < N ? q == M : q != head[i - N]) continue; double v = -y[i] + c.taps[0] * amp(q); for (u32 k = 1; k <= L; k++) v += c.taps[k] * amp(o[L - k]); auto p = o; p.erase(p.begin()); p.push_back(q); u32 z = from(p); e[z] = std::min(e[z], d[s] + v * v); } } d = e; }
  return *std::min_element(d.begin(), d.end());
}
template <class T> static void check(susa::channel<T> &ch, const Ch &c, const std::vector<double> &y, int st, const char *when) {
  int L = c.taps.size() - 1, N = (int)y.size() - L; std::vector<double> arg; int n; double b = best(c, y, N, st, arg, n); susa::matrix<T> *Y = col<T>(y), *R; mc::step();
  { mc::Lib l; R = new susa::matrix<T>(st < 0 ? ch.decode_mlse(*Y) : ch.decode_mlse(*Y, (u32)st)); }
  MC_CHECK(R->size() == (size_t)N && R->no_cols() == 1, "%s, start %d, received%s: the decoded sequence is %zux%zu instead of %dx1 (%s)", cs(c).c_str(), st, vs(y).c_str(), R->no_rows(), R->no_cols(), N, when);
  std::vector<double> x; for (int i = 0; i < N; i++) { x.push_back(R->get(i) / g_sp); bool in = false; for (double p : c.pam) in |= (T)(p * g_sp) == R->get(i); MC_CHECK(in, "%s, start %d, received%s: %g is not a symbol (%s)", cs(c).c_str(), st, vs(y).c_str(), x[i], when); }
  double d = dist(st < 0 ? conv_ref(c, x) : isi_ref(c, x, st), y), tol = sizeof(T) == 4 ? 1e-4 * (1 + b) : 1e-9 * (1 + b);
  MC_CHECK(d <= b + tol, "%s, start %d, received%s: decoded%s at squared distance %.9g, but%s has %.9g (%s)", cs(c).c_str(), st, vs(y).c_str(), vs(x).c_str(), d, vs(arg).c_str(), b, when);
  for (size_t i = 0; i < y.size(); i++) MC_CHECK(Y->get(i) == (T)(y[i] * g_sp * g_st), "decode changed its input"); mc::Hash h; for (double q : x) h.d(q); mc::state(h.u(st + 1).d(b).h); mc::Lib l; delete Y; delete R;
}
template <class T> static void both(const Ch &c, const std::vector<double> &y, int st, int hist) {
  static const int F[] = {0x00, 0x3F, 0xBF}; mc::g_fill = F[(y.size() + (y[0] > 0) + c.taps.size() + hist) % 3]; MC_NOTE("%s, start %d, received%s", cs(c).c_str(), st, vs(y).c_str()); susa::channel<T> *ch = make<T>(c), *o = nullptr;
  if (hist == 1) { Ch c2{{1, 0.5, 0.25}, {-1, 1}}; o = make<T>(c2); check<T>(*o, c2, {1, 0.5, -0.25, -2, 1, 1}, 2, "other object"); }
  check(*ch, c, y, st, "first decode"); if (hist) { u32 K = ipow(c.pam.size(), c.taps.size() - 1); std::vector<double> z(2 * c.taps.size() + 1, 0.25); check(*ch, c, z, -1, "in between"); check(*ch, c, z, K - 1, "in between"); check(*ch, c, y, st, "repeated"); if (o) check<T>(*o, {{1, 0.5, 0.25}, {-1, 1}}, {1, 0.5, -0.25, -2, 1, 1}, 1, "other object again"); }
  mc::Hash h; for (double q : c.taps) h.d(q); for (double q : c.pam) h.d(q); for (double q : y) h.d(q); mc::outcome(h.u(st + 1).u(sizeof(T)).h); { mc::Lib l; delete ch; delete o; } mc::heap_empty("after decoding");
}
static const std::vector<double> P[] = {{-1, 1}, {-1, 0, 1}, {-3, -1, 1, 3}, {0, 1}, {1, -1}, {-7, -5, -3, -1, 1, 3, 5, 7}};
static const std::vector<double> TP[] = {{1, -0.9, 0.5, 0.4}, {0.407, 0.815, 0.407}, {1, 1}, {0.1, 1, 0.3}, {0, 1}, {0.5, 0, -1, 0.25}, {1, 0, 0}, {0.227, 0.46, 0.688, 0.46}};
static std::vector<double> taps(int n, std::vector<double> A) { std::vector<double> t; for (int i = 0; i < n; i++) t.push_back(A[mc::choose((int)A.size())]); return t; }
MC_SCENARIO(encode_isi) { // the transmitted block is the convolution, started and ended in the given state
  Ch c{TP[mc::choose(8)], P[mc::choose(5)]}; u32 L = c.taps.size() - 1, M = c.pam.size(); u32 st = mc::choose((int)ipow(M, L)); int N = mc::range(1, M == 2 ? mc::pick(5, 7) : 3); std::vector<double> x; for (int i = 0; i < N; i++) x.push_back(c.pam[mc::choose((int)M)]);
  MC_NOTE("%s, state %u, symbols%s", cs(c).c_str(), st, vs(x).c_str()); auto e = isi_ref(c, x, st); auto *ch = make<double>(c); auto *X = col<double>(x); susa::matrix<double> *R; mc::step(); { mc::Lib l; R = new susa::matrix<double>(ch->encode_isi(*X, st)); }
  MC_CHECK(R->size() == e.size() && R->no_cols() == 1, "%s, state %u, symbols%s: encoded block is %zux%zu instead of %zux1", cs(c).c_str(), st, vs(x).c_str(), R->no_rows(), R->no_cols(), e.size()); for (size_t i = 0; i < e.size(); i++) MC_CHECK(std::fabs(R->get(i) - e[i]) < 1e-12, "%s, state %u, symbols%s: sample %zu is %g instead of %g", cs(c).c_str(), st, vs(x).c_str(), i, R->get(i), e[i]);
  // and decoding it gives the symbols back when no other sequence explains the block
  if (N > (int)L) { std::vector<double> a; int n; best(c, e, N, st, a, n); susa::matrix<double> *D; { mc::Lib l; D = new susa::matrix<double>(ch->decode_mlse(*R, st)); } for (int i = 0; n == 1 && i < N; i++) MC_CHECK(D->get(i) == x[i], "%s, state %u: symbols%s came back as %s", cs(c).c_str(), st, vs(x).c_str(), D ? [&] { std::string s; char b[32]; for (int k = 0; k < N; k++) { snprintf(b, sizeof b, " %g", D->get(k)); s += b; } return s; }().c_str() : ""); mc::Lib l; delete D; }
  mc::Hash h; for (double q : e) h.d(q); mc::state(h.h); for (double q : c.pam) h.d(q); mc::outcome(h.u(st).h); { mc::Lib l; delete ch; delete X; delete R; } mc::heap_empty("after encoding");
}
template <class T> static void noiseless(bool known) { Ch c{TP[mc::choose(8)], P[mc::choose(known ? 5 : 6)]}; u32 L = c.taps.size() - 1, M = c.pam.size(); int N = mc::range((int)L + 1, std::max<int>(L + 1, M == 2 ? mc::pick(6, 9) : M == 8 ? L + 1 : mc::pick(4, 5))); mc::assume(M < 8 || L < 3); u32 st = known ? mc::choose((int)ipow(M, L)) : 0; if (known && M > 3 && L > 1 && N > 4) N = 4; std::vector<double> x; for (int i = 0; i < N; i++) x.push_back(c.pam[mc::choose((int)M)]); both<T>(c, known ? isi_ref(c, x, st) : conv_ref(c, x), known ? (int)st : -1, 0); }
// blocks at (almost) the same distance from several sequences: the decision hangs on the last bits of the metrics
static void near_ties(bool known) {
  static const std::vector<double> R[] = {{1, 0.5}, {1, 1}, {0.5, 1, 0.5}, {1, -1, 0.25}}; Ch c{R[mc::choose(4)], P[mc::choose(2)]}; u32 L = c.taps.size() - 1, M = c.pam.size(); int N = L + mc::range(1, L > 1 || M > 2 ? 1 : mc::pick(2, 3)), n = N + (int)L; double eps = std::ldexp(1.0, mc::flip() ? -28 : -22); std::vector<double> y; for (int i = 0; i < n; i++) { int q = mc::choose(i < 3 ? 6 : 2); y.push_back((q / 2 == 0 ? 0 : q / 2 == 1 ? 0.5 : -1.0) + (q % 2 ? eps : -eps) * (1 + i % 3)); }
  both<double>(c, y, known ? (int)((n * 5 + (int)L) % ipow(M, L)) : -1, 0); }
// the same decisions at every scale: amplitudes and response multiplied by powers of two, so that the metrics are huge or tiny
template <class T> static void scaled() { Unscale un; static const int E[] = {8, -8, 20, -20, 5, 45, -45, 0}; static const std::vector<double> R[] = {{1, 0.5}, {1, 1}, {0.5, 1, 0.5}, {0, 1}}; Ch c{R[mc::choose(4)], P[mc::choose(3)]}; u32 L = c.taps.size() - 1, M = c.pam.size(); mc::assume(M < 4 || L < 2); int e = E[mc::choose(8)], f = mc::choose(3); int N = L + mc::range(1, M > 2 || L > 1 ? 1 : mc::pick(2, 3)); int st = mc::flip() ? (int)(N % ipow(M, L)) : -1; std::vector<double> y; for (int i = 0; i < N + (int)L; i++) { static const double A[] = {-0.7, 1.2, 4.5}; y.push_back(A[mc::choose(i < 4 ? 3 : 2)]); }
  g_sp = std::ldexp(1.0, f == 1 ? 0 : e); g_st = f == 1 ? std::ldexp(1.0, e) : f == 2 ? std::ldexp(1.0, -e / 2) : 1; both<T>(c, y, st, 0); }
MC_SCENARIO(scaled_double) { scaled<double>(); }
MC_SCENARIO(scaled_float) { scaled<float>(); }
MC_SCENARIO(near_ties_unknown) { near_ties(false); }
MC_SCENARIO(near_ties_known) { near_ties(true); }
MC_SCENARIO(unknown_noiseless) { noiseless<double>(false); }
MC_SCENARIO(unknown_noiseless_float) { noiseless<float>(false); }
template <class T> static void noisy(const Ch &c, int N, bool known, std::vector<double> A, int hist) { u32 L = c.taps.size() - 1; int st = known ? mc::choose((int)ipow(c.pam.size(), L)) : -1; std::vector<double> y; for (int i = 0; i < N + (int)L; i++) y.push_back(A[mc::choose((int)A.size())]); both<T>(c, y, st, hist); }
MC_SCENARIO(known_two_taps) { Ch c{taps(2, {-1, 0, 0.5, 1}), P[mc::choose(3)]}; int N = mc::range(2, mc::pick(3, 5)); noisy<double>(c, N, true, {-1.3, 0.1, 1.1}, N == 2); }
MC_SCENARIO(unknown_two_taps) { Ch c{taps(2, {-1, 0, 0.5, 1}), P[mc::choose(3)]}; int N = mc::range(2, mc::pick(4, 6)); noisy<double>(c, N, false, {-1.3, 0.1, 1.1}, N == 2); }
MC_SCENARIO(known_three_taps) { Ch c{taps(3, {-1, 0, 0.5, 1}), P[mc::choose(2)]}; int N = mc::range(3, mc::pick(4, 5)); noisy<double>(c, N, true, {-0.7, 1.2}, N == 3 && c.taps[0] == 1); }
MC_SCENARIO(unknown_three_taps) { Ch c{taps(3, {-1, 0, 0.5, 1}), P[mc::choose(2)]}; int N = mc::range(3, mc::pick(5, 6)); noisy<double>(c, N, false, {-0.7, 1.2}, N == 3 && c.taps[0] == 1); }
MC_SCENARIO(known_four_taps) { Ch c{TP[mc::choose(4) == 0 ? 0 : mc::flip() ? 5 : 7], P[mc::choose(2) * 4]}; noisy<double>(c, mc::range(4, mc::pick(4, 6)), true, {-0.7, 1.2}, 0); }
MC_SCENARIO(unknown_four_taps) { Ch c{TP[mc::choose(3) == 0 ? 0 : mc::flip() ? 5 : 7], P[mc::choose(2) * 4]}; noisy<double>(c, mc::range(4, mc::pick(5, 7)), false, {-0.7, 1.2}, 0); }
template <class T> static void very_long() {
  static const int SZ[] = {10, 33, 65, 129, 257}; Ch c{TP[mc::choose(8)], P[mc::choose(4)]}; u32 L = c.taps.size() - 1; mc::assume(ipow(c.pam.size(), L) <= 27); int N = mc::choose(6), w = mc::choose(mc::pick(4, 12)); N = N < 5 ? SZ[N] : mc::pick(300, 1100); int st = mc::flip() ? (int)(ipow(c.pam.size(), L) - 1 - (w % 2)) : -1; double amp = w % 2 ? 0.4 : 1.5;
  std::vector<double> x, y; for (int i = 0; i < N; i++) x.push_back(c.pam[mc::Hash::mix(i * 3 + w) % c.pam.size()]); y = st < 0 ? conv_ref(c, x) : isi_ref(c, x, st); for (size_t i = 0; i < y.size(); i++) y[i] = (double)(T)(y[i] + amp * (((int)(mc::Hash::mix(i * 977 + w * 131071 + 5) % 401) - 200) / 200.0)); if (w == 2) for (size_t i = 0; i < y.size(); i++) y[i] = (i / 7) % 2 ? 3 : -3;
  MC_NOTE("%s, start %d, %zu samples of family %d", cs(c).c_str(), st, y.size(), w); double b = viterbi(c, y, N, st); if (N == 10 && c.pam.size() == 2) { std::vector<double> a; int n; MC_CHECK(std::fabs(best(c, y, N, st, a, n) - b) < 1e-9 * (1 + b), "reference searches disagree"); }
  auto *ch = make<T>(c); auto *Y = col<T>(y); susa::matrix<T> *R; mc::step(); { mc::Lib l; R = new susa::matrix<T>(st < 0 ? ch->decode_mlse(*Y) : ch->decode_mlse(*Y, (u32)st)); } MC_CHECK(R->size() == (size_t)N && R->no_cols() == 1, "%s, start %d, %zu samples: the decoded sequence is %zux%zu", cs(c).c_str(), st, y.size(), R->no_rows(), R->no_cols());
  std::vector<double> r; for (int i = 0; i < N; i++) { r.push_back(R->get(i)); bool in = false; for (double p : c.pam) in |= (T)p == R->get(i); MC_CHECK(in, "%s: symbol %d is %g", cs(c).c_str(), i, r[i]); } double d = dist(st < 0 ? conv_ref(c, r) : isi_ref(c, r, st), y), tol = (sizeof(T) == 4 ? 1e-3 : 1e-9) * (1 + b); MC_CHECK(d <= b + tol, "%s, start %d, %zu samples of family %d: decoded at squared distance %.12g, the best is %.12g", cs(c).c_str(), st, y.size(), w, d, b);
  mc::Hash h; for (double q : r) h.d(q); mc::state(h.u(st + 1).h); for (double q : c.taps) h.d(q); mc::outcome(h.u(w).u(N).u(sizeof(T)).h); { mc::Lib l; delete ch; delete Y; delete R; } mc::heap_empty("after decoding");
}
// channels with hundreds and thousands of memory states: dynamic programming over the states (state = last L symbols, known start), and noiseless blocks from an unknown start
static double viterbi_known(const Ch &c, const std::vector<double> &y, int N, u32 st) {
  u32 M = c.pam.size(), L = c.taps.size() - 1, S = ipow(M, L), n = N + L; auto head = digits(st, L, M); std::vector<double> d(S, 1e300), e(S); std::vector<double> part(S); d[st] = 0; // most recent symbol in the lowest digit
  for (u32 s = 0; s < S; s++) { auto o = digits(s, L, M); part[s] = 0; for (u32 k = 1; k <= L; k++) part[s] += c.taps[k] * c.pam[o[L - k]]; }
  for (u32 i = 0; i < n; i++) { std::fill(e.begin(), e.end(), 1e300); for (u32 s = 0; s < S; s++) if (d[s] < 1e299) for (u32 q = 0; q < M; q++) { if ((int)i >= N && q != head[i - N]) continue; double v = part[s] + c.taps[0] * c.pam[q] - y[i]; u32 z = (s * M + q) % S; e[z] = std::min(e[z], d[s] + v * v); } d.swap(e); }
  return d[st];
}
struct Wide { int taps, M; }; static const Wide WD[] = {{9, 2}, {10, 2}, {11, 2}, {5, 4}, {6, 3}, {4, 8}, {8, 2}, {6, 4}, {12, 2}, {5, 8}};
template <class T> static void wide() {
  int wi = mc::choose(mc::pick(6, 10)), w = mc::choose(mc::pick(4, 12)), N = mc::choose(3), fam = mc::choose(2); const Wide &W = WD[wi]; Ch c; u32 L = W.taps - 1, M = W.M, S = ipow(M, L); for (int k = 0; k < W.taps; k++) c.taps.push_back(fam ? (k == 0 ? 1 : k == W.taps - 1 ? -0.75 : ((k * 5) % 7 - 3) / 8.0) : 1.0 / (1 + (k * 3) % 5) * (k % 2 ? -1 : 1)); for (u32 q = 0; q < M; q++) c.pam.push_back(2.0 * q - (M - 1)); N = (int)L + (N == 0 ? 1 : N == 1 ? 13 : 40);
  int st = w % 4 == 3 ? -1 : w % 4 == 0 ? (int)S - 1 : w % 4 == 1 ? (int)(S / 2 + 3) : 1; double amp = st < 0 ? 0 : w < 4 ? 0.9 * (w + 1) : 0.3 * w; std::vector<double> x, y; for (int i = 0; i < N; i++) x.push_back(c.pam[mc::Hash::mix(i * 7 + w + wi * 100) % M]); y = st < 0 ? conv_ref(c, x) : isi_ref(c, x, st); for (size_t i = 0; i < y.size(); i++) y[i] = (double)(T)(y[i] + amp * (((int)(mc::Hash::mix(i * 977 + w * 131071 + 5) % 401) - 200) / 200.0));
  MC_NOTE("%d taps%s, %u amplitudes, %u states, start %d, %zu samples of family %d", W.taps, vs(c.taps).c_str(), M, S, st, y.size(), w); double b = st < 0 ? 0 : viterbi_known(c, y, N, st); auto *ch = make<T>(c); auto *Y = col<T>(y); susa::matrix<T> *R; mc::step(); { mc::Lib l; R = new susa::matrix<T>(st < 0 ? ch->decode_mlse(*Y) : ch->decode_mlse(*Y, (u32)st)); }
  MC_CHECK(R->size() == (size_t)N && R->no_cols() == 1, "%s, start %d, %zu samples: the decoded sequence is %zux%zu", cs(c).c_str(), st, y.size(), R->no_rows(), R->no_cols()); std::vector<double> r; for (int i = 0; i < N; i++) r.push_back(R->get(i)); for (double q : r) MC_CHECK(std::find_if(c.pam.begin(), c.pam.end(), [&](double p) { return (T)p == (T)q; }) != c.pam.end(), "%g is not a symbol", q);
  double d = dist(st < 0 ? conv_ref(c, r) : isi_ref(c, r, st), y), tol = (sizeof(T) == 4 ? 1e-3 : 1e-9) * (1 + b); MC_CHECK(d <= b + tol, "%s, start %d, %zu samples of family %d: decoded at squared distance %.12g, the best is %.12g", cs(c).c_str(), st, y.size(), w, d, b); if (st < 0) { for (int i = 0; i < N; i++) MC_CHECK(r[i] == x[i], "%s: noiseless symbol %d came back as %g instead of %g", cs(c).c_str(), i, r[i], x[i]); } else if (fam) { auto e2 = isi_ref(c, x, st); auto *X = col<T>(x); susa::matrix<T> *Q; { mc::Lib l; Q = new susa::matrix<T>(ch->encode_isi(*X, (u32)st)); } for (size_t i = 0; i < e2.size(); i++) MC_CHECK(std::fabs(Q->get(i) - e2[i]) < (sizeof(T) == 4 ? 1e-4 : 1e-11), "%s, state %d: sample %zu is %g instead of %g", cs(c).c_str(), st, i, (double)Q->get(i), e2[i]); mc::Lib l; delete X; delete Q; }
  mc::Hash h; for (double q : r) h.d(q); mc::state(h.u(st + 1).h); mc::outcome(h.u(wi).u(w).u(N).u(fam).u(sizeof(T)).h); { mc::Lib l; delete ch; delete Y; delete R; } mc::heap_empty("after decoding");
}
MC_SCENARIO(many_states) { wide<double>(); }
MC_SCENARIO(many_states_float) { wide<float>(); }
MC_SCENARIO(very_long_blocks) { very_long<double>(); }
MC_SCENARIO(very_long_blocks_float) { very_long<float>(); }
MC_SCENARIO(float_blocks) { Ch c{TP[mc::choose(8)], P[mc::choose(3)]}; u32 L = c.taps.size() - 1; noisy<float>(c, L + 1, c.pam.size() < 4 && mc::flip(), {-0.75, 1.25}, mc::choose(2)); }
MC_SCENARIO(long_block) { // many stages: metrics stay comparable and the trace-back reaches the first stage
  Ch c{TP[mc::choose(4)], P[0]}; u32 L = c.taps.size() - 1; int N = mc::range(9, 12), w = mc::choose(mc::pick(12, 40)), st = mc::flip() ? (int)mc::choose((int)ipow(2, L)) : -1; std::vector<double> y; for (int i = 0; i < N + (int)L; i++) { uint64_t q = mc::Hash::mix(i * 977 + w * 131071 + 5); y.push_back(((int)(q % 401) - 200) / 80.0); } both<double>(c, y, st, w == 3); }
MC_MAIN
