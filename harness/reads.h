// reads.h - objects of every kind and a catalogue of operations that only read them (used by C28 and C33).
#pragma once
#include "ops.h"
using namespace ops;
struct Obj {                                   // k = 0: small; 1: single elements; 2: large; 3: square of five; k + 4: as k with other contents
  MD a, b, v, w, one; MI i; MC z; MB bits; MU lim; susa::matrix<float> f; susa::array<double> arr; std::vector<double> sv; MD la, pa, rx, taps; susa::lu<double> l; susa::lup<double> p;
  static MD big(int s) { MD m(16, 17); for (int k = 0; k < 272; k++) m(k) = ((k * 37 + s) % 41) - 19.5; return m; }
  static MD five(int s) { MD m(5, 5); for (int k = 0; k < 25; k++) m(k) = ((k * 11 + s * 5) % 23) - 9.5 + (k % 6 == 0 ? 12 : 0); return m; }
  static MD pick(int k, int n) { int s = n + (k > 3 ? 2 : 0); switch (k % 4) { case 0: return sq(s); case 1: return MD(1, 1, n ? -4.0 - k : 2.5 + k); case 2: return big(n * 5 + k * 3); default: return five(s); } }
  explicit Obj(int k) : a(pick(k, 0)), b(pick(k, 1)), v(vec(k % 4 == 1 ? 2 : k % 4 == 2 ? 40 : k % 4 == 3 ? 5 : 4, k > 3 ? 2 : 0)), w(vec(3, k > 3 ? 4 : 1)), one(1, 1, k > 3 ? 2.0 : 1.0), i(3, 3, k > 3 ? 6 : 4), z(susa::to_complex(a)), bits(4, 1), lim(3, 1), f(3, 2), arr({2, 3, 2}), sv{1, -4, 2.5}, la(k % 4 == 3 ? five(k) : sq(k > 3 ? 2 : 0)), pa(k % 4 == 3 ? five(k + 1) : sq(k > 3 ? 3 : 1)), rx(vec(6, 1)), taps(3, 1, k > 3 ? -1.0 : 1.0), l(la), p(pa) {
    z(0) = cd(1, -2); for (int q = 0; q < 4; q++) bits(q) = (q * 3 + 1) / 2 % 2; for (int q = 0; q < 3; q++) lim(q) = 0; lim(1) = 1; if (k % 4 != 1) lim(2) = 3; for (int q = 0; q < 6; q++) f(q) = k > 3 ? (q * 3 + 1) % 5 - 1.5f : (q * 5) % 7 - 2; if (k > 3) { bits(0) = 1; i(4) = -7; sv = {2, 0, -1}; rx = vec(6, 2); if (z.size() > 1) z(1) = cd(3, 4); else z(0) = cd(3, 4); }
    for (size_t x = 0; x < 2; x++) for (size_t y = 0; y < 3; y++) for (size_t t = 0; t < 2; t++) arr(x, y, t) = x * 100 + y * 10 + t + (k > 3 ? 5 : 0); l.decompose(); p.decompose(); } };
typedef uint64_t (*ROp)(const Obj &);
struct REntry { const char *name; ROp f; };
#define OP(NAME, ...) {NAME, [](const Obj &o) -> uint64_t { H h; (void)o; __VA_ARGS__; return h.k.h; }}
static const std::vector<REntry> &reads() { static std::vector<REntry> e{
  OP("get and ()", for (size_t k = 0; k < o.a.size(); k++) h.v(o.a.get(k)).v(o.a(k)); h.v(o.a(0, 0)).v(o.a.get(o.a.no_rows() - 1, o.a.no_cols() - 1)).v(o.i.get(0)).v(o.z(0))),
  OP("shape", h.v(o.a.no_rows()).v(o.a.no_cols()).v(o.a.size()).v(o.a.is_square()).v(o.a.is_vector()).v(o.a.is_scalar()).v(std::get<0>(o.v.shape()))),
  OP("row and col", h.m(o.a.row(0)).m(o.a.col(o.a.no_cols() - 1))),
  OP("ranges", h.m(o.a.left(1)).m(o.a.right(1)).m(o.a.mid(0, o.a.no_cols() - 1))),
  OP("ranges of a vector", size_t n = o.v.size(); h.m(o.v.left(1)).m(o.v.right(1)).m(o.v.mid(0, n - 1)).m(o.v.left(n)).m(o.v.right(n - 1)).m(o.v.mid(n - 1, n - 1)).m(o.v.row(0)).m(o.v.col(0))),
  OP("lines as vectors", MD c(o.a); for (double x : c.get_row_as_vec(0)) h.v(x); for (double x : c.get_col_as_vec(0)) h.v(x); for (double x : c.get_row_as_vec(o.a.no_rows() - 1)) h.v(x)),
  OP("movement of a vector", h.m(susa::transpose(o.v)).m(susa::fliplr(o.v)).m(susa::flipud(o.v)).m(susa::concat(o.v, o.v)).m(susa::fliplr(o.i)).m(susa::concat(susa::transpose(o.w), susa::transpose(o.w)))),
  OP("shrink", if (o.a.no_rows() > 1) h.m(o.a.shrink(1, 0))),
  OP("copy", MD c(o.a); MD d; d = o.a; c(0) = 8; MC y(o.z); h.m(c).m(d).m(y)),
  OP("add and subtract", h.m(o.a + o.b).m(o.a - o.b).m(o.a + 1.5).m(2.5 - o.a).m(o.z + o.z)),
  OP("multiply and divide", h.m(o.a * o.b).m(o.a / o.b).m(o.a * 2.0).m(o.a / 4.0)),
  OP("compound from shared", MD c(o.b); c += o.a; c -= o.b; h.m(c)),
  OP("compare", h.v(o.a == o.b).v(o.a != o.b).v(o.a == o.a)),
  OP("convert", h.m(susa::to_complex(o.a)).m(susa::to_complex(o.v))),
  OP("set from shared", MD c(o.b); h.v(c.set_row(0, o.v)).v(c.set_col(0, o.v)); h.m(c)),
  OP("print matrix", std::stringstream s; s << o.a << o.z << o.i; h.k.s(s.str())),
  OP("print vector", std::stringstream s; s << o.sv; h.k.s(s.str())),
  OP("matmul", h.m(susa::matmul(o.a, susa::transpose(o.a)))),
  OP("transpose and hermitian", h.m(susa::transpose(o.a)).m(susa::hermitian(o.z))),
  OP("flip and concat", h.m(susa::fliplr(o.a)).m(susa::flipud(o.a)).m(susa::concat(o.a, o.b))),
  OP("det", if (o.a.is_square()) h.v(susa::det(o.a))),
  OP("rank", h.v((unsigned)susa::rank(o.a))),
  OP("lu of shared", if (o.a.is_square()) { susa::lu<double> l(o.a); h.v(l.decompose()).m(l.get_lower()).m(l.get_upper()); susa::lup<double> q(o.a); h.v(q.decompose()).m(q.invert()); }),
  OP("solver results", h.m(o.l.get_lower()).m(o.l.get_upper()).m(o.p.get_lu()).m(o.p.get_pivot())),
  OP("svd", susa::matrix<float> x(o.f), u, s, v; h.v(susa::svd(x, u, s, v)); h.m(u).m(s).m(v)),
  OP("sums", h.m(susa::sum(o.a)).m(susa::mean(o.a)).m(susa::norm(o.a)).m(susa::sum(o.v)).m(susa::mean(o.v)).m(susa::norm(o.v)).m(susa::norm(o.z))),
  OP("extremes", h.m(susa::min(o.a)).m(susa::max(o.a)).m(susa::min(o.v)).m(susa::max(o.v))),
  OP("elementwise maths", h.m(susa::sign(o.a)).m(susa::conj(o.z)).m(susa::real(o.z)).m(susa::imag(o.z)).m(susa::mag(o.z)).m(susa::abs(o.z)).m(susa::abs(o.a)).m(susa::round(o.a, 1))),
  OP("vector statistics", h.v(susa::sum(o.sv)).v(susa::mean(o.sv)).v(susa::var(o.sv)).v(susa::stdv(o.sv)); for (double d : susa::diff(o.sv)) h.v(d); for (double d : susa::abs(o.sv)) h.v(d)),
  OP("filter", h.m(susa::filter(o.w, o.one, o.v)).m(susa::filter(o.w, o.one, o.a))),
  OP("convolution", h.m(susa::conv(o.v, o.w)).m(susa::convmtx(o.w, 3)).m(susa::toeplitz(o.v)).m(susa::kron(o.w, o.one))),
  OP("resample", h.m(susa::upsample(o.v, 2)).m(susa::downsample(o.v, 2)).m(susa::upsample(o.b, 3)).m(susa::downsample(o.b, 1))),
  OP("fft", susa::fft<double> t; h.m(t.dft(o.w)).m(t.dft(o.b)).m(t.dft(o.v)); if (o.v.size() == 4) h.m(t.radix2(o.v))),
  OP("sort", h.m(susa::sort(o.v)).m(susa::sort_indices(o.v))),
  OP("select", h.m(susa::select_least(o.v, 1)).m(susa::select_most(o.v, 1)).m(susa::select_limited_least(o.v, o.lim, 1))),
  OP("find", double x = o.v(0); auto r = susa::find(o.v, x); for (size_t k = 0; k < o.v.size(); k++) h.v(r.exists(k))),
  OP("shortest paths", MD g(susa::abs(o.a)); if (o.a.is_square()) h.m(susa::dijkstra(g, 0))),
  OP("encode", auto c = code(0); h.m(c.encode(o.bits))),
  OP("decode", auto c = code(1); h.m(c.decode_bcjr(o.rx, 1.0))),
  OP("equalise", auto c = chan(0); h.m(c.decode_mlse(o.rx, 0)).m(c.decode_bcjr(o.rx, 0.5)).m(c.encode_isi(o.taps, 0))),
  OP("modulate", h.m(susa::bpsk(o.bits)); susa::qam q(16); h.v(q.demodulate_symbol(o.z(0))).v(q.get_noise_deviation(o.sv[1])).m(q.get_constellation())),
  OP("special functions", for (size_t k = 0; k < 3; k++) h.v(susa::normcdf(o.v(k % o.v.size()))).v(susa::qfunc(o.sv[k])).v(susa::round(o.v(k % o.v.size()), 2))),
  OP("noise", h.m(susa::awgn(o.v, 3.0f)).m(susa::awgn(o.z.col(0), 3.0f))),
  OP("array get", for (size_t x = 0; x < 2; x++) for (size_t y = 0; y < 3; y++) h.v(o.arr.get({x, y, 1})).v(o.arr(x, y, 0)).v(o.arr.get(x, y, 1)).v(o.arr.get_raw_index(x, y, 1))),
  OP("array copy", susa::array<double> c(o.arr), d; d = o.arr; c(0, 0, 0) = -5; h.v(c(0, 0, 0)).v(d(0, 0, 0)).v(d(1, 2, 1))),
}; return e; }

// every byte the shared objects own, as seen through their read-only interface 
static uint64_t image(const Obj &o) { H h; h.m(o.a).m(o.b).m(o.v).m(o.w).m(o.one).m(o.i).m(o.z).m(o.bits).m(o.lim).m(o.f).m(o.la).m(o.pa).m(o.rx).m(o.taps).m(o.l.get_lower()).m(o.l.get_upper()).m(o.p.get_lu()).m(o.p.get_pivot()); for (double d : o.sv) h.v(d); for (size_t x = 0; x < 2; x++) for (size_t y = 0; y < 3; y++) for (size_t t = 0; t < 2; t++) h.v(o.arr.get({x, y, t})); return h.k.h; }
