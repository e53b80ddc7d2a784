// C21: channel::decode_bcjr against summation over all transmitted sequences.
//MC-VARIANT asan: -O2 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND responses of 2 to 4 taps (all over {-1,0,0.5,1} with 2 and 3 taps, fixed ones of 3 and 4 taps), two-point constellations {-1,1}, {1,-1}, {0,1}, {-0.5,2}, every received block over three amplitudes up to 5 (7) samples, two amplitudes up to 7 (10), both orientations, three noise levels, amplitudes, samples and Eb/N0 scaled by 2^-45 to 2^45, noiseless blocks of every terminated sequence up to 7 (10) symbols with Eb/N0 up to 1000, distant received values, fixed families of blocks up to 300 (1000) samples (with strong noise and Eb/N0 up to 8: 400) and of responses with 8 to 10 taps against a log-domain forward-backward recursion, double and float; decoding repeated, with other decodes in between and a second object alive; fresh memory filled with three patterns
//MC-ASSUME the response is a row vector of at least two taps; the constellation has two points; the sequence starts and ends in state zero (memory filled with the first point); the output is the ratio P(second point)/P(first point) whose logarithm the caller takes; received blocks are those where the likelihood exponents of the candidate outputs, summed over the samples, differ by less than 600 (60 for float), all noiseless blocks, and the long blocks (moderate noise around a transmitted sequence; strong noise where the likelihoods of every single step relative to the likeliest one are representable)
#include "mat.h"
typedef uint32_t u32; typedef long double LD;
struct Unscale { ~Unscale(); }; // an execution may be abandoned half way
struct Ch { std::vector<double> taps, pam; };
static std::string vs(const std::vector<double> &v) { std::string s; char b[32]; for (double x : v) { snprintf(b, sizeof b, " %g", x); s += b; } return s; }
static std::string cs(const Ch &c) { return "response" + vs(c.taps) + ", amplitudes" + vs(c.pam); }
static double g_s = 1; // power of two that scales amplitudes and samples as the library sees them; Eb/N0 is divided by its square
Unscale::~Unscale() { g_s = 1; }
template <class T> static susa::channel<T> *make(const Ch &c) { mc::Lib l; susa::matrix<T> t(1, c.taps.size()), p(1, c.pam.size()); for (size_t i = 0; i < c.taps.size(); i++) t(i) = (T)c.taps[i]; for (size_t i = 0; i < c.pam.size(); i++) p(i) = (T)(c.pam[i] * g_s); return new susa::channel<T>(t, p); }
// exponents of every sequence; returns the log likelihood ratios of the terminated ones and how far they fall below the likeliest sequence
static std::vector<LD> brute(const Ch &c, const std::vector<double> &y, double eb, double &spread) {
  int n = y.size(), L = c.taps.size() - 1; std::vector<std::pair<u32, LD>> all; LD mx = -1e4900L, mn = 1e4900L;
  LD best = -1e4900L; for (u32 u = 0; u < (1u << n); u++) { bool term = !(u >> std::max(0, n - L)); auto bit = [&](int t) { return t < 0 ? 0u : (u >> t) & 1; }; LD e = 0; for (int t = 0; t < n; t++) { LD o = -y[t]; for (int k = 0; k <= L; k++) o += (LD)c.taps[k] * c.pam[bit(t - k)]; e -= eb * o * o; } best = std::max(best, e); if (!term) continue; all.push_back({u, e}); mx = std::max(mx, e); mn = std::min(mn, e); }
  spread = (double)(best - mn); { double tot = 0; for (int t = 0; t < n; t++) { LD lo = 1e300L, hi = 0; for (u32 u = 0; u < (2u << L); u++) { LD o = -y[t]; for (int k = 0; k <= L; k++) o += (LD)c.taps[k] * c.pam[(u >> k) & 1]; lo = std::min(lo, o * o); hi = std::max(hi, o * o); } tot += (double)(eb * (hi - lo)); } spread = std::max(spread, tot); } std::vector<LD> r; for (int t = 0; t < n; t++) { LD p1 = 0, p0 = 0; for (auto &a : all) ((t < n - L && (a.first >> t) & 1) ? p1 : p0) += std::exp(a.second - mx); r.push_back(p1 == 0 ? -1e4900L : p0 == 0 ? 1e4900L : std::log(p1) - std::log(p0)); } return r;
}
// log-domain forward-backward over the memory states, for blocks too long to enumerate (compared with the enumeration on short ones)
static LD ladd(LD a, LD b) { if (a < b) std::swap(a, b); return b < -1e4000L ? a : a + log1pl(expl(b - a)); }
// *room: how small the likelihoods of one step become, relative to the closest output, to the likeliest state before and to the likeliest one after
static std::vector<LD> fb(const Ch &c, const std::vector<double> &y, double eb, LD *room = nullptr) {
  int n = y.size(), L = c.taps.size() - 1, S = 1 << L; const LD N = -1e4900L; std::vector<std::vector<LD>> A(n + 1, std::vector<LD>(S, N)), B = A; A[0][0] = B[n][0] = 0; // bit k of a state is the symbol k+1 steps ago
  auto g = [&](int t, int s, int b) { LD o = -y[t] + (LD)c.taps[0] * c.pam[b]; for (int k = 1; k <= L; k++) o += (LD)c.taps[k] * c.pam[(s >> (k - 1)) & 1]; return -(LD)eb * o * o; }; auto nx = [&](int s, int b) { return ((s << 1) | b) & (S - 1); };
  for (int t = 0; t < n; t++) for (int s = 0; s < S; s++) if (A[t][s] > -1e4000L) for (int b = 0; b < 2; b++) { LD &q = A[t + 1][nx(s, b)]; q = ladd(q, A[t][s] + g(t, s, b)); }
  for (int t = n - 1; t >= 0; t--) for (int s = 0; s < S; s++) for (int b = 0; b < 2; b++) if (B[t + 1][nx(s, b)] > -1e4000L) B[t][s] = ladd(B[t][s], B[t + 1][nx(s, b)] + g(t, s, b));
  if (room) { *room = 0; for (int t = 0; t < n; t++) { LD am = N, bm = N, gm = N, f = N, k = N, q[2] = {N, N}; for (int s = 0; s < S; s++) { am = std::max(am, A[t][s]); bm = std::max(bm, B[t + 1][s]); for (int b = 0; b < 2; b++) gm = std::max(gm, g(t, s, b)); }
    for (int s = 0; s < S; s++) for (int b = 0; b < 2; b++) { LD v = g(t, s, b) - gm, x = A[t][s] - am, z = B[t + 1][nx(s, b)] - bm; f = std::max(f, x + v); k = std::max(k, z + v); q[b] = std::max(q[b], x + v + z); } *room = std::min(*room, std::min(f, k)); for (int b = 0; b < 2; b++) if (q[b] > -1e4000L) *room = std::min(*room, q[b]); } }
  std::vector<LD> r; for (int t = 0; t < n; t++) { LD p[2] = {N, N}; for (int s = 0; s < S; s++) for (int b = 0; b < 2; b++) if (A[t][s] > -1e4000L && B[t + 1][nx(s, b)] > -1e4000L) p[b] = ladd(p[b], A[t][s] + g(t, s, b) + B[t + 1][nx(s, b)]); r.push_back(p[1] < -1e4000L ? N : p[1] - p[0]); } return r;
}
template <class T> static void decode(susa::channel<T> &ch, const Ch &c, const std::vector<double> &y, double eb, bool row, const std::vector<LD> &e, double spread, const char *when) {
  int L = c.taps.size() - 1, n = y.size(); mc::step(); susa::matrix<T> *Y, *R; { mc::Lib l; Y = new susa::matrix<T>(row ? 1 : n, row ? n : 1); for (int i = 0; i < n; i++) (*Y)(i) = (T)(y[i] * g_s); R = new susa::matrix<T>(ch.decode_bcjr(*Y, (T)(eb / (g_s * g_s)))); }
  MC_CHECK(R->no_rows() == Y->no_rows() && R->no_cols() == Y->no_cols(), "%s, received%s: the result is %zux%zu instead of %zux%zu (%s)", cs(c).c_str(), vs(y).c_str(), R->no_rows(), R->no_cols(), Y->no_rows(), Y->no_cols(), when);
  bool fl = sizeof(T) == 4; double tol0 = fl ? 2e-3 : 1e-8; bool exact = spread < (fl ? 60 : 600);
  for (int t = 0; t < n; t++) { double x = R->get(t), tol = tol0 * (1 + std::fabs((double)e[t]) * (fl ? 1 : 0)); MC_CHECK(x == x && x >= 0, "%s, received%s, Eb/N0 %g: symbol %d has ratio %g (%s)", cs(c).c_str(), vs(y).c_str(), eb, t, x, when); if (t >= n - L) { MC_CHECK(x == 0, "%s, received%s, Eb/N0 %g: tail symbol %d has ratio %g (%s)", cs(c).c_str(), vs(y).c_str(), eb, t, x, when); continue; }
    if (exact) MC_CHECK(std::fabs(std::log((LD)x) - e[t]) <= tol, "%s, received%s, Eb/N0 %g: symbol %d has log ratio %.12Lg, expected %.12Lg (%s)", cs(c).c_str(), vs(y).c_str(), eb, t, std::log((LD)x), e[t], when); else if (std::fabs((double)e[t]) > 1) MC_CHECK((x > 1) == (e[t] > 0), "%s, received%s, Eb/N0 %g: symbol %d has ratio %g, expected log ratio %.6Lg (%s)", cs(c).c_str(), vs(y).c_str(), eb, t, x, e[t], when); }
  for (int i = 0; i < n; i++) MC_CHECK(Y->get(i) == (T)(y[i] * g_s), "decode changed its input"); mc::Lib l; delete Y; delete R;
}
template <class T> static void run(const Ch &c, const std::vector<double> &y, double eb, int hist) {
  static const int F[] = {0x00, 0x3F, 0xBF}; mc::g_fill = F[(y.size() + (y[0] > 0) + c.taps.size() + hist) % 3]; MC_NOTE("%s, received%s, Eb/N0 %g", cs(c).c_str(), vs(y).c_str(), eb); double sp; auto e = brute(c, y, eb, sp); mc::assume(sp < (sizeof(T) == 4 ? 60 : 600)); auto *ch = make<T>(c); susa::channel<T> *o = nullptr; Ch c2{{1, 0.5, 0.25}, {-1, 1}}; std::vector<double> y2 = {-1, 0.25, 0.5, -2, -1, -1.5}, e2d; double sp2; std::vector<LD> e2;
  if (hist) { o = make<T>(c2); e2 = brute(c2, y2, 0.7, sp2); decode<T>(*o, c2, y2, 0.7, true, e2, sp2, "other object"); }
  bool row = (y.size() + hist) % 2; decode(*ch, c, y, eb, row, e, sp, "first decode"); if (hist) { std::vector<double> z(c.taps.size() + 3, 0.5); double spz; auto ez = brute(c, z, 2, spz); decode(*ch, c, z, 2, false, ez, spz, "in between"); decode(*ch, c, y, eb, !row, e, sp, "repeated"); decode<T>(*o, c2, y2, 0.7, false, e2, sp2, "other object again"); }
  mc::Hash h; for (LD q : e) h.u((uint64_t)std::llround(std::max(-1e6L, std::min(1e6L, q)) * 1e3)); mc::state(h.h); for (double q : c.taps) h.d(q); for (double q : c.pam) h.d(q); for (double q : y) h.d(q); mc::outcome(h.d(eb).u(sizeof(T)).h); { mc::Lib l; delete ch; delete o; } mc::heap_empty("after decoding");
}
static const std::vector<double> P[] = {{-1, 1}, {1, -1}, {0, 1}, {-0.5, 2}};
static const std::vector<double> TP[] = {{1, -0.9, 0.5, 0.4}, {0.407, 0.815, 0.407}, {1, 1}, {0.1, 1, 0.3}, {0, 1}, {0.5, 0, -1, 0.25}, {1, 0, 0}, {0.227, 0.46, 0.688, 0.46}};
static const double EB[] = {0.5, 3, 0.05};
static std::vector<double> taps(int n, std::vector<double> A) { std::vector<double> t; for (int i = 0; i < n; i++) t.push_back(A[mc::choose((int)A.size())]); return t; }
template <class T> static void received(const Ch &c, int lo, int hi, std::vector<double> A, int nl, int hist) { int n = mc::range(lo, hi); std::vector<double> y; for (int i = 0; i < n; i++) y.push_back(A[mc::choose((int)A.size())]); run<T>(c, y, EB[mc::choose(nl)], hist); }
MC_SCENARIO(two_taps) { Ch c{taps(2, {-1, 0, 0.5, 1}), P[mc::choose(4)]}; received<double>(c, 1, mc::pick(4, 6), {-1.3, 0.1, 1.1}, 2, 0); }
MC_SCENARIO(three_taps) { Ch c{taps(3, {-1, 0, 0.5, 1}), P[mc::choose(4)]}; received<double>(c, 1, mc::pick(5, 7), {-0.7, 1.2}, 2, 0); }
MC_SCENARIO(fixed_long) { Ch c{TP[mc::choose(8)], P[mc::choose(4)]}; received<double>(c, 5, mc::pick(7, 10), {-0.7, 1.2}, 2, 0); }
MC_SCENARIO(fixed_fine) { Ch c{TP[mc::choose(8)], P[0]}; received<double>(c, 1, mc::pick(5, 7), {-1.4, 0.1, 1}, 3, 0); }
MC_SCENARIO(histories) { Ch c{TP[mc::choose(8)], P[mc::choose(4)]}; received<double>(c, 1, mc::pick(5, 6), {-1.4, 1}, 1, 1); }
MC_SCENARIO(float_blocks) { Ch c{TP[mc::choose(8)], P[mc::choose(2)]}; received<float>(c, 1, mc::pick(5, 7), {-0.75, 1.25}, 2, mc::choose(2)); }
template <class T> static void long_block(const Ch &c, int n, int w, int lv, bool loud = false) {
  int L = c.taps.size() - 1; double eb = sizeof(T) == 4 ? EB[lv == 1 ? 0 : lv] : EB[lv], amp = w % 2 ? 0.5 : 1.2; if (loud) { static const double EL[] = {1, 3, 8}; eb = EL[lv]; amp = w % 2 ? 2 : 5; } std::vector<double> y; std::vector<int> b(n, 0); for (int t = 0; t + L < n; t++) b[t] = (int)(mc::Hash::mix(t * 31 + w) & 1);
  for (int t = 0; t < n; t++) { double o = 0; for (int k = 0; k <= L; k++) o += c.taps[k] * c.pam[t < k ? 0 : b[t - k]]; y.push_back((double)(T)(o + amp * ((int)(mc::Hash::mix(t * 977 + w * 131071 + 5) % 401) - 200) / 200.0)); } MC_NOTE("%s, %d samples of family %d, Eb/N0 %g", cs(c).c_str(), n, w, eb); LD room = 0; auto e = fb(c, y, eb, &room); if (loud) mc::assume(room > -650); if (n == 8) { double sp; auto q = brute(c, y, eb, sp); for (int t = 0; t < n; t++) MC_CHECK(std::fabs((double)(e[t] - q[t])) < 1e-9, "reference decoders disagree at %d", t); }
  static const int F[] = {0x00, 0x3F, 0xBF}; mc::g_fill = F[w % 3]; bool row = (n + w) % 2; auto *ch = make<T>(c); susa::matrix<T> *Y, *R; mc::step(); { mc::Lib l; Y = new susa::matrix<T>(row ? 1 : n, row ? n : 1); for (int i = 0; i < n; i++) (*Y)(i) = (T)y[i]; R = new susa::matrix<T>(ch->decode_bcjr(*Y, (T)eb)); } MC_CHECK(R->no_rows() == Y->no_rows() && R->no_cols() == Y->no_cols(), "%s, %d samples: the result is %zux%zu", cs(c).c_str(), n, R->no_rows(), R->no_cols());
  for (int t = 0; t < n; t++) { double x = R->get(t), tol = sizeof(T) == 4 ? 5e-3 * (1 + std::fabs((double)e[t])) : 1e-7; if (std::fabs((double)e[t]) > 600 && e[t] > -1e4000L) { MC_CHECK(x == x && (x > 1) == (e[t] > 0), "%s, %d samples of family %d, Eb/N0 %g: symbol %d has ratio %.12g, expected log ratio %.12Lg", cs(c).c_str(), n, w, eb, t, x, e[t]); continue; } MC_CHECK(e[t] < -1e4000L ? x == 0 : x > 0 && std::fabs((double)(logl((LD)x) - e[t])) <= tol, "%s, %d samples of family %d, Eb/N0 %g: symbol %d has ratio %.12g, expected log ratio %.12Lg", cs(c).c_str(), n, w, eb, t, x, e[t]); }
  mc::Hash h; for (LD q : e) h.u((uint64_t)std::llround(std::max(-1e6L, q) * 1e3)); mc::state(h.h); mc::outcome(h.u(w).u(sizeof(T)).h); { mc::Lib l; delete ch; delete Y; delete R; } mc::heap_empty("after decoding");
}
template <class T> static void long_blocks() { static const int SZ[] = {8, 31, 64, 65, 129, 257}; Ch c{TP[mc::choose(8)], P[mc::choose(4)]}; int n = mc::choose(7), w = mc::choose(mc::pick(4, 12)), lv = mc::choose(3); long_block<T>(c, n < 6 ? SZ[n] : mc::pick(300, 1000), w, lv); }
MC_SCENARIO(long_loud_blocks) { static const int SZ[] = {40, 65, 129, 257, 400}; Ch c{TP[mc::choose(8)], P[mc::choose(4)]}; int n = SZ[mc::choose(5)], w = mc::choose(mc::pick(4, 12)), lv = mc::choose(3); long_block<double>(c, n, w, lv, true); } // the likelihoods of a few dozen stages together are not representable
MC_SCENARIO(long_blocks_double) { long_blocks<double>(); }
MC_SCENARIO(long_blocks_float) { long_blocks<float>(); }
// responses with many taps: 8 and 9, and 10 (512 states; the decoder copies a table of all pairs of states for every state) on a few blocks
template <class T> static void wide() { int taps = mc::range(8, sizeof(T) == 4 ? 10 : mc::pick(9, 10)), big = taps > 9 && !mc::thorough(), f = big ? 2 : mc::choose(3), w = big ? 1 : mc::choose(mc::pick(2, 6)), lv = big ? 0 : mc::choose(2), n = taps > 9 ? sizeof(T) == 4 ? 22 : 13 : mc::any<int>({taps + 1, 2 * taps + 5}); Ch c; for (int k = 0; k < taps; k++) c.taps.push_back(f == 0 ? (k == 0 ? 1 : k == taps - 1 ? 0.5 : 0) : f == 1 ? 1.0 / (k + 1) : ((k * 5 + 2) % 7 - 3) / 4.0); c.pam = P[w % 4]; long_block<T>(c, n, w, lv); }
MC_SCENARIO(wide_double) { wide<double>(); }
MC_SCENARIO(wide_float) { wide<float>(); }
// the same posteriors at every scale of amplitudes, samples and Eb/N0
template <class T> static void scaled() { Unscale un; static const int E[] = {7, -7, 20, -20, 3, 45, -45}; Ch c{TP[mc::choose(8)], P[mc::choose(4)]}; g_s = std::ldexp(1.0, E[mc::choose(7)]); int n = mc::range(1, mc::pick(4, 5)); std::vector<double> y; for (int i = 0; i < n; i++) y.push_back(mc::any<double>({-0.75, 1.25, 3})); double eb = EB[mc::choose(2)]; run<T>(c, y, eb, 0); }
MC_SCENARIO(scaled_double) { scaled<double>(); }
MC_SCENARIO(scaled_float) { scaled<float>(); }
MC_SCENARIO(distant) { Ch c{TP[mc::choose(8)], P[mc::choose(4)]}; int n = mc::range(4, mc::pick(5, 6)); static const double A[] = {-0.8, 25, -12}, E2[] = {0.5, 3, 40}; std::vector<double> y; for (int i = 0; i < n; i++) y.push_back(A[mc::choose(3)]); run<double>(c, y, E2[mc::choose(2)], 0); }
MC_SCENARIO(noiseless) {
  Ch c{TP[mc::choose(8)], P[mc::choose(4)]}; static const double E2[] = {0.5, 10, 1000}; double eb = E2[mc::choose(3)]; int L = c.taps.size() - 1, N = mc::range(1, mc::pick(6, 9)); std::vector<int> b(N); for (int &q : b) q = mc::choose(2); std::vector<double> y; for (int t = 0; t < N + L; t++) { double o = 0; for (int k = 0; k <= L; k++) o += c.taps[k] * c.pam[t - k < 0 || t - k >= N ? 0 : b[t - k]]; y.push_back(o); }
  double sp; auto e = brute(c, y, eb, sp); MC_NOTE("noiseless %s, block%s, Eb/N0 %g", cs(c).c_str(), vs(y).c_str(), eb); auto *ch = make<double>(c); decode(*ch, c, y, eb, N % 2, e, sp, "noiseless"); { mc::Lib l; delete ch; } mc::heap_empty("after decoding"); mc::Hash h; for (double q : y) h.d(q); mc::state(h.h); for (double q : c.taps) h.d(q); mc::outcome(h.d(eb).h);
}
MC_MAIN
