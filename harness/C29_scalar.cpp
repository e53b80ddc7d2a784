// C29: normcdf, qfunc, pow, log2, mod, round over their domains.
//MC-VARIANT O2: -O2 -DSUSA_NDEBUG
//MC-VARIANT ubsan: -O1 -fsanitize=undefined -fno-sanitize-recover=all -DSUSA_NDEBUG -DFEW
//MC-BOUND normcdf/qfunc: every 4th single-precision number (thorough: every one of the 2^32), every power of two and its neighbours, denormals, infinities, a grid of step 2^-14 on [-10,10]; log2: every 8- and 16-bit value, every 4th 32-bit value (thorough: every one), all 64-bit values around powers of two; mod: every 16-bit dividend with every modulus within +-2000 (thorough: every pair of 16-bit values) and all pairs of 64-bit boundary values; pow: every base and exponent whose result is representable (unsigned: every exponent up to 40 for every 16-bit base, and exponents up to 1000003 (thorough 2^28+1) around powers of two for 12 bases, modulo 2^32); round: every multiple of 10^-(d+1) up to 10^5 steps for d = 0..9, halves, powers of ten up to 1e308
//MC-ASSUME mod's modulus is not zero; pow's signed result is representable; rounding may differ from the decimal definition by the spacing of doubles; log2(0) is the all-ones value
#include "mat.h"
#ifdef FEW
static const bool few = true;
#else
static const bool few = false;
#endif
static double truth(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static void cdf(double x) {
  double p = susa::normcdf(x), q = susa::qfunc(x), t = truth(x);
  MC_CHECK(std::fabs(p - t) <= 7.6e-8 && p >= 0 && p <= 1, "normcdf(%.17g) = %.17g, truth %.17g", x, p, t);
  MC_CHECK(std::fabs(q - (1 - t)) <= 7.6e-8 && q >= 0 && q <= 1, "qfunc(%.17g) = %.17g, truth %.17g", x, q, 1 - t);
  MC_CHECK(std::fabs(p + q - 1) <= 1e-15, "normcdf + qfunc at %.17g is %.17g", x, p + q);
}
MC_SCENARIO(cdf_floats) {
  uint32_t hi = (uint32_t)mc::choose(1024) << 22; uint32_t stp = few ? 4096 : mc::pick(4, 1); MC_NOTE("floats 0x%08x...", hi); uint64_t n = 0;
  for (uint32_t l = 0; l < (1u << 22); l += stp) { uint32_t b = hi | l; float f; memcpy(&f, &b, 4); if (f != f) continue; cdf(f); n++; if ((n & 0xfffff) == 0) mc::step(0x100000); }
  mc::step(n & 0xfffff); mc::state(hi); mc::outcome(hi);
}
MC_SCENARIO(cdf_grid) {
  int k = mc::choose(20); MC_NOTE("grid from %d", k - 10); for (int i = 0; i < (1 << 14); i++) { double x = (k - 10) + i * std::ldexp(1, -14); cdf(x); double a = susa::normcdf(x), b = susa::normcdf(-x); MC_CHECK(std::fabs(a + b - 1) <= 1.6e-7, "normcdf(%g)+normcdf(-%g) = %.12g", x, x, a + b); }
  mc::step(1 << 14); mc::state(k); mc::outcome(k);
}
MC_SCENARIO(cdf_extremes) {
  int e = mc::range(-1075, 1024); double x = std::ldexp(1.0, e); MC_NOTE("2^%d", e);
  for (double y : {x, std::nextafter(x, 0.0), std::nextafter(x, HUGE_VAL)}) for (double s : {1.0, -1.0}) cdf(s * y);
  cdf(HUGE_VAL); cdf(-HUGE_VAL); mc::step(6); mc::state(e); mc::outcome(e);
}
template <class T> static void lg(T v) {
  T r = susa::log2(v); T e = 0; if (v == 0) e = (T)-1; else { for (int i = 0; i < (int)sizeof(T) * 8; i++) if ((v >> i) & 1) e = (T)i; }
  MC_CHECK(r == e, "log2(%llu) of a %zu-byte number = %llu, expected %llu", (unsigned long long)v, sizeof(T), (unsigned long long)r, (unsigned long long)e);
}
MC_SCENARIO(log2_small) { int k = mc::choose(256); MC_NOTE("values 0x%02x..", k); lg((uint8_t)k); for (int i = 0; i < 256; i++) { lg((uint16_t)(k << 8 | i)); lg((uint32_t)(k << 8 | i)); lg((uint64_t)(k << 8 | i)); } mc::step(769); mc::state(k); mc::outcome(k); }
MC_SCENARIO(log2_u32) { uint32_t k = (uint32_t)mc::choose(1024) << 22, stp = few ? 4097 : mc::pick(4, 1); MC_NOTE("from 0x%08x", k); uint64_t n = 0; for (uint32_t l = 0; l < (1u << 22); l += stp, n++) { uint32_t v = k | l; uint32_t r = susa::log2(v), e = v ? 31 - __builtin_clz(v) : ~0u; MC_CHECK(r == e, "log2(%u) = %u", v, r); if ((n & 0xffff) == 0) mc::step(0x10000); } mc::state(k); mc::outcome(k); }
MC_SCENARIO(log2_u64) { int b = mc::choose(64); uint64_t v = 1ull << b; MC_NOTE("2^%d", b); for (int64_t d = -300; d <= 300; d++) { lg((uint64_t)(v + d)); lg((unsigned long long)(v ^ (uint64_t)d)); lg((size_t)(v | (v >> 1) | (uint64_t)d)); } mc::step(1803); mc::state(b); mc::outcome(b); }
static void md(long a, long m) { long r = susa::mod(a, m); __int128 q = (__int128)a / m, e = (__int128)a - q * m; if (e != 0 && ((e < 0) != (m < 0))) e += m; MC_CHECK(r == (long)e, "mod(%ld, %ld) = %ld, expected %ld", a, m, r, (long)e); }
MC_SCENARIO(mod_16bit) {
  int k = mc::choose(256); int lo = few ? -40 : mc::pick(-2000, -32768), hi = few ? 40 : mc::pick(2000, 32768); MC_NOTE("dividends from %d", k * 256 - 32768);
  for (int i = 0; i < 256; i++) { int a = k * 256 + i - 32768; for (int m = lo; m <= hi; m++) if (m) { long r = susa::mod(a, m); int e = a % m; if (e && ((e < 0) != (m < 0))) e += m; MC_CHECK(r == e, "mod(%d, %d) = %ld, expected %d", a, m, r, e); } mc::step(hi - lo); }
  mc::state(k); mc::outcome(k);
}
MC_SCENARIO(mod_boundaries) {
  int a = mc::choose(64), b = mc::choose(64); MC_NOTE("mod(+-2^%d.., +-2^%d..)", a, b);
  for (int da = -2; da <= 2; da++) for (int db = -2; db <= 2; db++) for (int s = 0; s < 4; s++) { uint64_t x = (1ull << a) + da, y = (1ull << b) + db; if (s & 1) x = -x; if (s & 2) y = -y; if (y) md((long)x, (long)y); }
  for (long y : {1L, -1L, 3L, 7L, -10L, 1000000007L, LONG_MAX, LONG_MIN}) { md((long)(1ull << a), y); md(-(long)(1ull << a >> 1) - b, y); } mc::step(100); mc::state(a * 64 + b); mc::outcome(a * 64 + b);
}
MC_SCENARIO(pow_signed) {
  int p = mc::range(0, 34); MC_NOTE("exponent %d", p); uint64_t n = 0;
  auto one = [&](long b) { __int128 e = 1; bool ok = true; for (int i = 0; i < p; i++) { e *= b; if (e > INT_MAX || e < INT_MIN) ok = false; if (e > LONG_MAX || e < LONG_MIN) break; } if (!ok) return; int r = susa::pow((int)b, (unsigned)p); MC_CHECK(r == (int)e, "pow(%ld, %d) = %d, expected %d", b, p, r, (int)e); n++; };
  for (long b = -70000; b <= 70000; b++) one(b); for (long b : {(long)INT_MAX, (long)INT_MIN, 1L << 30, -(1L << 30), INT_MAX - 1L, INT_MIN + 1L}) one(b);
  mc::step(n); mc::state(p); mc::outcome(p);
}
MC_SCENARIO(pow_long) {                          // exponents beyond every narrow counter, modulo 2^32; representable signed powers
  uint32_t p = mc::any(mc::thorough() ? std::vector<uint32_t>{41, 63, 64, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131073, 1000003, 16777217, 0x7fffffffu, 0x80000000u, 0xffffffffu} : std::vector<uint32_t>{41, 64, 127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 131073, 1000003}); MC_NOTE("exponent %u", p);
  auto pw = [&](uint32_t b) { uint32_t r = 1; for (uint32_t e = p; e; e >>= 1, b *= b) if (e & 1) r *= b; return r; };
  for (uint32_t b : {0u, 1u, 2u, 3u, 5u, 7u, 257u, 65537u, 0x10001u, 0x80000001u, 0xfffffffeu, 0xffffffffu}) { MC_CHECK(susa::pow(b, p) == pw(b), "pow(%uu, %u) = %u, expected %u", b, p, susa::pow(b, p), pw(b)); mc::step(); if (p > 20000000u) break; }
  for (int b : {0, 1, -1}) { int e = b == -1 && p % 2 == 0 ? 1 : b; MC_CHECK(susa::pow(b, p) == e, "pow(%d, %u) = %d, expected %d", b, p, susa::pow(b, p), e); mc::step(); } mc::state(p); mc::outcome(p);
}
MC_SCENARIO(pow_unsigned) {
  int p = mc::range(0, 40); MC_NOTE("exponent %d", p);
  for (unsigned b = 0; b <= 65540; b++) { uint32_t e = 1; for (int i = 0; i < p; i++) e *= b; MC_CHECK(susa::pow(b, (unsigned)p) == e, "pow(%uu, %d) = %u, expected %u", b, p, susa::pow(b, (unsigned)p), e); } mc::step(65541); mc::state(p); mc::outcome(p);
}
static void rd(double x, int d) {
  double r = susa::round(x, d); long double p = d > 0 ? std::pow(10.0L, d) : 1.0L, ulp = std::nextafter(std::fabs(x), HUGE_VAL) - std::fabs(x);
  MC_CHECK(std::isfinite(r), "round(%.17g, %d) = %g", x, d, r);
  MC_CHECK(std::fabs((long double)r - x) <= 0.5L / p + 2 * ulp, "round(%.17g, %d) = %.17g is not the nearest", x, d, r);
  if (ulp * p < 0.01L) { long double k = r * p; MC_CHECK(std::fabs(k - std::round(k)) <= 4 * ulp * p + 1e-9L, "round(%.17g, %d) = %.17g has more decimals", x, d, r); }
  if (d <= 0) MC_CHECK(r == std::round(x), "round(%.17g, %d) = %.17g", x, d, r);
  MC_CHECK(susa::round(-x, d) == -r, "round is not odd at %.17g, %d", x, d);
}
MC_SCENARIO(round_grid) {
  int d = mc::range(-2, 9), blk = mc::choose(10); double s = std::pow(10.0, -(std::max(d, 0) + 1)); MC_NOTE("multiples of 1e-%d, block %d", std::max(d, 0) + 1, blk);
  for (int k = blk * 10000; k < (blk + 1) * 10000; k++) { double x = k * s; rd(x, d); if (k % 10 != 5) { double r = susa::round(x, d); long kk = (k + 5) / 10; MC_CHECK(std::fabs(r - kk * s * 10) <= 1e-12 * (1 + r), "round(%.17g, %d) = %.17g", x, d, r); } } mc::step(10000); mc::state(d * 10 + blk); mc::outcome(d * 10 + blk);
}
MC_SCENARIO(round_extremes) {
  int e = mc::range(-323, 308); MC_NOTE("1e%d", e); double x = std::pow(10.0, e);
  for (int d : {-1, 0, 1, 2, 5, 15, 22, 100, 300, 308, 400}) for (double y : {x, 1.5 * x, 2.5 * x, 0.123456789 * x, 1.7976931348623157 * x}) if (std::isfinite(y)) rd(y, d); rd(0.0, 400); mc::step(55); mc::state(e); mc::outcome(e);
}
MC_SCENARIO(round_large) { auto &L = large_shapes(); auto q = mc::any(L); int d = mc::range(-1, 3); Ref<double> a(q.first, q.second, 0.0); for (size_t i = 0; i < a.v.size(); i++) a.v[i] = ((double)(i % 4001) - 2000.25) * 1.0078125; Ref<double> e = a; for (auto &x : e.v) x = susa::round(x, d); MC_NOTE("round of %dx%d", q.first, q.second); susa::matrix<double> A = mk(a), R = susa::round(A, d); mc::step(); same(R, e, "round of a large matrix"); mc::state(hashref(e)); mc::outcome(hashref(e)); }
MC_SCENARIO(round_matrix) {
  int r = mc::range(1, 4), c = mc::range(1, 4), d = mc::range(-1, 4); Ref<double> a(r, c, 0.0); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) a.at(i, j) = (i - 1.5) * 1.2345678 + j * -0.98765; MC_NOTE("round(%s, %d)", str(a).c_str(), d);
  susa::matrix<double> A = mk(a), R = susa::round(A, d); mc::step(); Ref<double> e = a; for (auto &q : e.v) q = susa::round(q, d); same(R, e, "round of a matrix"); same(A, a, "argument of round"); if (d == -1) { susa::matrix<double> R2 = susa::round(A); same(R2, e, "round with default"); } mc::state(hashref(e)); mc::outcome(hashref(e));
}
MC_MAIN
