// C31: timestamp, tic, toc and toc_print with the process clock replaced by the harness's.
//MC-VARIANT plain: -O2 -DSUSA_NDEBUG
//MC-LINK -rdynamic
//MC-BOUND every day of the years 1971 to 2400 at the first, middle and last second, every second of nine days (year ends, leap days, 29 February of 2000, first day after 2^31 seconds), six time zones including fractional ones and one with daylight saving; all histories of start/advance (0, 1 ms, 0.9996 s, 1 s, 61 s, 5 h, 400 d)/read/print of length 5 (6) after a first start, and of length 4 (5) with every operation in one of two threads
//MC-ASSUME years 1000 to 9999; the stop-watch has millisecond resolution and the printed reading six significant digits; the clock never runs backwards; readings before the first start are unspecified
#include "mc.h"
#include <susa.h>
#include <ctime>
#include <thread>
#include <sys/time.h>
static bool g_fake = false; static __int128 g_ns = 0; // fake time since the epoch
#include <sys/syscall.h>
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept { if (!g_fake) return (int)syscall(SYS_clock_gettime, c, t); t->tv_sec = (time_t)(g_ns / 1000000000); t->tv_nsec = (long)(g_ns % 1000000000); return 0; }
extern "C" time_t time(time_t *p) noexcept { time_t r; if (g_fake) r = (time_t)(g_ns / 1000000000); else { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); r = t.tv_sec; } if (p) *p = r; return r; }
extern "C" int gettimeofday(struct timeval *t, void *) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
extern "C" int timespec_get(struct timespec *t, int b) noexcept { clock_gettime(CLOCK_REALTIME, t); return b; }
struct Fake { Fake() { g_fake = true; } ~Fake() { g_fake = false; } };
static int64_t days(int y, int m, int d) { y -= m <= 2; int64_t e = (y >= 0 ? y : y - 399) / 400; unsigned q = y - e * 400, n = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, o = q * 365 + q / 4 - q / 100 + n; return e * 146097 + o - 719468; }
static bool leap(int y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; } static int mlen(int y, int m) { static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return L[m - 1] + (m == 2 && leap(y)); }
struct Zone { const char *tz; int off; bool dst; };
static const Zone Z[] = {{"UTC0", 0, false}, {"AAA-5:30", 19800, false}, {"BBB8", -28800, false}, {"CCC-14", 50400, false}, {"DDD3:30", -12600, false}, {"CET-1CEST,M3.5.0,M10.5.0/3", 3600, true}};
static int dow(int64_t d) { return (int)(((d + 4) % 7 + 7) % 7); } // 0 = Sunday
static int64_t last_sunday(int y, int m) { int64_t d = days(y, m, mlen(y, m)); return d - dow(d); }
static void zone(const Zone &z) { setenv("TZ", z.tz, 1); tzset(); }
// the local civil time is given; UTC is derived from it
static std::string stamp_at(const Zone &z, int64_t utc) { Fake f; g_ns = (__int128)utc * 1000000000 + 999999999 * (utc & 1); return susa::timestamp(); }
static void check(const Zone &z, int y, int m, int d, int s, std::string &last) {
  int64_t loc = days(y, m, d) * 86400 + s, utc = loc - z.off; if (z.dst) { int64_t a = last_sunday(y, 3) * 86400 + 3600, b = last_sunday(y, 10) * 86400 + 3600; int64_t u2 = utc - 3600; if (u2 >= a && u2 < b) utc = u2; else if (utc >= a && utc < b) return; /* skipped hour */ else if (utc >= b && utc < b + 3600) last.clear(); }
  mc::step(); std::string x = stamp_at(z, utc); char e[64]; snprintf(e, sizeof e, "%04d%02d%02d%02d%02d%02d", y, m, d, s / 3600, s / 60 % 60, s % 60); MC_CHECK(x == e, "zone %s, %04d-%02d-%02d second %d: time stamp %s, expected %s", z.tz, y, m, d, s, x.c_str(), e); if (!last.empty()) MC_CHECK(last < x, "time stamps %s and %s do not sort in time order", last.c_str(), x.c_str()); last = x;
}
MC_SCENARIO(every_day) { int y = mc::range(1971, mc::pick(2110, 2400)); const Zone &z = Z[mc::choose(6)]; zone(z); MC_NOTE("year %d, zone %s", y, z.tz); std::string last; for (int m = 1; m <= 12; m++) for (int d = 1; d <= mlen(y, m); d++) for (int s : {0, 43200, 86399}) { check(z, y, m, d, s, last); } mc::state(mc::Hash().u(y).u(z.off).h); mc::outcome(mc::Hash().u(y).u(z.off).u(z.dst).h); }
MC_SCENARIO(every_second) { static const int D[][3] = {{1999, 12, 31}, {2000, 1, 1}, {2000, 2, 29}, {2024, 2, 29}, {2026, 10, 9}, {2038, 1, 19}, {2099, 12, 31}, {2100, 2, 28}, {2001, 9, 9}}; int k = mc::choose(9), q = mc::choose(24); const Zone &z = Z[mc::choose(2) * (1 + k % 4)]; zone(z); MC_NOTE("%d-%d-%d hour %d, zone %s", D[k][0], D[k][1], D[k][2], q, z.tz); std::string last; for (int s = q * 3600; s < q * 3600 + 3600; s++) check(z, D[k][0], D[k][1], D[k][2], s, last); mc::state(mc::Hash().u(k).u(q).u(z.off).h); mc::outcome(mc::Hash().u(k).u(q).u(z.off).h); }
MC_SCENARIO(far_years) { static const int Y[] = {1000, 1582, 1900, 1969, 1970, 2401, 3000, 9999}; int y = Y[mc::choose(8)]; zone(Z[0]); MC_NOTE("year %d", y); mc::assume(y >= 1970); std::string last; for (int m = 1; m <= 12; m++) for (int d = 1; d <= mlen(y, m); d++) check(Z[0], y, m, d, 3661, last); mc::state(y); mc::outcome(y); }
MC_SCENARIO(stop_watch) {
  static const int64_t ADV[] = {0, 1000000, 999600000, 1000000000, 61000000000, 5ll * 3600 * 1000000000, 400ll * 86400 * 1000000000, 1234567000000}; static const int64_t T0[] = {0, 1792000000123456789, 4102444800000000000}; int64_t now = T0[mc::choose(3)], start; uint64_t id = 0; int depth = mc::pick(5, 6);
  auto at = [&] { g_ns = now; }; { Fake f; at(); susa::tic(); } start = now; MC_NOTE("tic()");
  for (int i = 0; i < depth; i++) { int o = mc::choose(11); id = id * 12 + o + 1; mc::step(); double e = (now - start) * 1e-9;
    if (o < 8) { now += ADV[o]; MC_NOTE("advance %.6f s", ADV[o] * 1e-9); }
    else if (o == 8) { MC_NOTE("tic()"); Fake f; at(); susa::tic(); start = now; }
    else if (o == 9) { double x; { Fake f; at(); x = susa::toc(); } MC_NOTE("toc() -> %.6f", x); MC_CHECK(std::fabs(x - e) <= 0.001 + 1e-6, "toc() is %.6f s, %.6f s passed since the last tic()", x, e); }
    else { std::ostringstream os; auto *old = std::cout.rdbuf(os.rdbuf()); { Fake f; at(); susa::toc_print(); } std::cout.rdbuf(old); std::string t = os.str(); size_t k = t.find_first_of("0123456789"); double x = k == std::string::npos ? -1 : strtod(t.c_str() + k, nullptr); MC_NOTE("toc_print() -> %s", t.c_str()); MC_CHECK(std::fabs(x - e) <= 0.001 + 1e-6 + e * 1e-5, "toc_print() prints '%s', %.6f s passed since the last tic()", t.c_str(), e); }
    mc::state(mc::Hash().u((uint64_t)(now - start)).u(depth - i).h); }
  double x; { Fake f; at(); x = susa::toc(); } double e = (now - start) * 1e-9; MC_CHECK(std::fabs(x - e) <= 0.001 + 1e-6, "the last toc() is %.6f s, %.6f s passed since the last tic()", x, e); mc::outcome(id);
}
// one stop-watch for the whole program: started, read and printed from whichever thread, one operation after the other
MC_SCENARIO(stop_watch_threads) {
  static const int64_t ADV[] = {1000000, 61500000000}; int64_t now = 1792000000123456789, start; uint64_t id = 0; int depth = mc::pick(4, 5); auto in = [&](int w, auto f) { if (w == 0) { Fake k; g_ns = now; f(); } else std::thread([&] { Fake k; g_ns = now; f(); }).join(); };
  int w0 = mc::choose(2); MC_NOTE("tic() in thread %d", w0); in(w0, [] { susa::tic(); }); start = now;
  for (int i = 0; i <= depth; i++) { int o = i == depth ? 4 : mc::choose(6), w = i == depth || o > 1 ? mc::choose(2) : 0; id = (id * 7 + o) * 2 + w; mc::step(); double e = (now - start) * 1e-9, x = 0; std::string t;
    if (o < 2) { now += ADV[o]; MC_NOTE("advance %.6f s", ADV[o] * 1e-9); }
    else if (o == 2) { MC_NOTE("tic() in thread %d", w); in(w, [] { susa::tic(); }); start = now; }
    else if (o == 3) { std::ostringstream os; auto *old = std::cout.rdbuf(os.rdbuf()); in(w, [] { susa::toc_print(); }); std::cout.rdbuf(old); t = os.str(); size_t k = t.find_first_of("0123456789"); x = k == std::string::npos ? -1 : strtod(t.c_str() + k, nullptr); MC_NOTE("toc_print() in thread %d", w); MC_CHECK(std::fabs(x - e) <= 0.001 + 1e-6 + e * 1e-5, "toc_print() prints '%s', %.6f s passed since the last tic()", t.c_str(), e); }
    else if (o == 4) { in(w, [&] { x = susa::toc(); }); MC_NOTE("toc() in thread %d -> %.6f", w, x); MC_CHECK(std::fabs(x - e) <= 0.001 + 1e-6, "toc() is %.6f s, %.6f s passed since the last tic()", x, e); }
    else { zone(Z[0]); in(w, [&] { t = susa::timestamp(); }); MC_NOTE("timestamp() in thread %d -> %s", w, t.c_str()); time_t s = (time_t)(now / 1000000000); struct tm q; gmtime_r(&s, &q); char b[64]; snprintf(b, sizeof b, "%04d%02d%02d%02d%02d%02d", q.tm_year + 1900, q.tm_mon + 1, q.tm_mday, q.tm_hour, q.tm_min, q.tm_sec); MC_CHECK(t == b, "time stamp %s, expected %s", t.c_str(), b); }
    mc::state(mc::Hash().u((uint64_t)(now - start)).u(depth - i).u(w).h); }
  mc::outcome(id);
}
MC_MAIN
