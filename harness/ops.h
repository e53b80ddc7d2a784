// ops.h - small uses of every part of the library on objects of their own; each returns a hash of everything it obtained.
#pragma once
#include "mc.h"
#include <susa.h>
namespace ops {
typedef std::complex<double> cd; typedef susa::matrix<double> MD; typedef susa::matrix<int> MI; typedef susa::matrix<cd> MC; typedef susa::matrix<uint8_t> MB; typedef susa::matrix<unsigned> MU;
struct H { mc::Hash k; template <class T> H &m(const susa::matrix<T> &x) { k.u(x.no_rows()).u(x.no_cols()); for (size_t i = 0; i < x.size(); i++) v(x.get(i)); return *this; } H &v(double x) { k.d(x); return *this; } H &v(float x) { k.d(x); return *this; } H &v(cd x) { k.d(x.real()).d(x.imag()); return *this; } template <class T> std::enable_if_t<std::is_integral<T>::value, H &> v(T x) { k.u((uint64_t)x); return *this; } };
typedef uint64_t (*Op)(int s);                 // s: which of two input sets (0, 1)
struct Entry { const char *name; Op f; };
inline MD sq(int s) { MD a(3, 3); for (int i = 0; i < 9; i++) a(i) = ((i * 7 + s * 3) % 11) - 3.5 + (i % 4 == 0 ? 6 : 0); return a; }
inline MD vec(int n, int s) { MD a(n, 1); for (int i = 0; i < n; i++) a(i) = ((i * 5 + s * 2 + 1) % 7) - 2.25; return a; }
inline uint64_t text(int s) { H h; MD a(s ? std::string("[1.5 -2;3e2 4;5 6]") : std::string("7 8 9\n1 2 3")); h.m(a); MI b; b = s ? "[1;2]" : "[4 5 6 7]"; h.m(b); susa::matrix<uint8_t> c(s ? "[1 255]" : "[7]"); h.m(c); MC d(std::string("[(1,2) 3]")); h.m(d); std::stringstream o; o << a; h.k.s(o.str()); return h.k.h; }
inline uint64_t arith(int s) { H h; MD a = sq(s), b = sq(1 - s); h.m(a + b).m(a - 2.0).m(3.0 * a).m(a / (b + 20.0)).m(a * b); a += b; a -= a; h.m(a).v(a == b).v(a != b); MI i = b; h.m(i); MC z = susa::to_complex(b); h.m(z + z); return h.k.h; }
inline uint64_t copies(int s) { H h; MD a = sq(s), b(a), c; c = b; c(1) = 9; MD d(std::move(b)); d.resize(2, 2); d.set_all(s); c = c; h.m(a).m(c).m(d); a = "[1 2]"; h.m(a); return h.k.h; }
inline uint64_t move_(int s) { H h; MD a = sq(s); h.m(a.row(1)).m(a.col(2)).m(a.left(2)).m(a.right(1)).m(a.mid(0, 1)).m(a.shrink(1, 1)).m(a.reshape(9, 1)).m(susa::transpose(a)).m(susa::fliplr(a)).m(susa::flipud(a)).m(susa::concat(a, a)); a.swap_rows(0, 2); a.swap_cols(0, 1); a.set_row(1, vec(3, s)); a.set_col(0, vec(3, s)); h.m(a); return h.k.h; }
inline uint64_t linear(int s) { H h; MD a = sq(s); h.m(susa::matmul(a, a)).v(susa::det(a)).m(susa::eye<double>(3)); MC z = susa::to_complex(a); h.m(susa::hermitian(z)); h.v((unsigned)susa::rank(a)); return h.k.h; }
inline uint64_t solve(int s) { H h; MD a = sq(s); susa::lu<double> l(a); h.v(l.decompose()).m(l.get_lower()).m(l.get_upper()); susa::lup<double> p(a); h.v(p.decompose()).m(p.solve(vec(3, s))).m(p.invert()); susa::lup<double> q(a); h.v(q.decompose_alt()).m(q.get_pivot()).m(q.get_lu()); return h.k.h; }
inline uint64_t svd_(int s) { H h; susa::matrix<float> a(3, 2); for (int i = 0; i < 6; i++) a(i) = (i * 5 + s) % 7 - 2; susa::matrix<float> u, w, v; h.v(susa::svd(a, u, w, v)); h.m(u).m(w).m(v); return h.k.h; }
inline uint64_t reduce(int s) { H h; MD a = sq(s); h.m(susa::sum(a)).m(susa::mean(a)).m(susa::norm(a)).m(susa::min(a)).m(susa::max(a)).m(susa::abs(a)).m(susa::sign(a)).m(susa::log(susa::abs(a))); MC z = susa::to_complex(a); h.m(susa::conj(z)).m(susa::real(z)).m(susa::imag(z)).m(susa::mag(z)).m(susa::abs(z)); std::vector<double> x{1, 4, 2.5 + s}; h.v(susa::sum(x)).v(susa::mean(x)).v(susa::var(x)).v(susa::stdv(x)); for (double d : susa::diff(x)) h.v(d); return h.k.h; }
inline uint64_t signal(int s) { H h; MD a = vec(5, s), b = vec(3, 1 - s), one(1, 1, 1.0); h.m(susa::filter(b, one, a)).m(susa::conv(a, b)).m(susa::convmtx(b, 4)).m(susa::toeplitz(a)).m(susa::kron(a, b)).m(susa::upsample(a, 3)).m(susa::downsample(a, 2)); return h.k.h; }
inline uint64_t fft_(int s) { H h; susa::fft<double> f; h.m(f.radix2(vec(8, s))).m(f.dft(vec(5, s))).m(f.radix2(vec(4, s))); return h.k.h; }
inline uint64_t order(int s) { H h; MD a = vec(6, s); h.m(susa::sort(a)).m(susa::sort_indices(a)).m(susa::select_least(a, 3)).m(susa::select_most(a, 2)); double x = a(2); auto f = susa::find(a, x); for (size_t i = 0; i < 6; i++) h.v(f.exists(i)); return h.k.h; }
inline uint64_t paths(int s) { H h; MD g(4, 4, 0.0); g(0, 1) = 1 + s; g(1, 2) = 2; g(0, 2) = 4 + s; g(2, 3) = 1; g(3, 0) = 1; h.m(susa::dijkstra(g, s)); return h.k.h; }
inline uint64_t bits(int s) { H h; susa::bitset b(19); b.set(3 + s); b.push(17); b.reset(3); susa::bitset c(b); c.set(); c.reset(18); h.v(b.any()).v(b.pop()).v(b.exists(17)).v(c.pop()).v(c.exists(18)); for (size_t i = 0; i < 20; i++) h.v(c.exists(i)).v(b.exists(i)); return h.k.h; }
inline uint64_t arrays(int s) { H h; susa::array<double> a({2, 3, 2}); for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 3; j++) for (size_t k = 0; k < 2; k++) a(i, j, k) = i * 100 + j * 10 + k + s; susa::array<double> b(a), c; c = b; c(1, 2, 1) = -1; h.v(a(1, 2, 1)).v(c(1, 2, 1)).v(b.get({0, 1, 1})).v(a.get_raw_index(1, 1, 1)); susa::array<double> d(std::move(a)); h.v(d(0, 2, 1)); return h.k.h; }
inline susa::ccode code(int s) { susa::ccode c(2, 1, 2); c.set_generator(s ? 5 : 7, 0); c.set_generator(s ? 7 : 5, 1); return c; }
inline uint64_t encode(int s) { H h; auto c = code(s); MB x(5, 1); for (int i = 0; i < 5; i++) x(i) = (i * 3 + s) % 2; h.m(c.encode(x)); for (unsigned st = 0; st < 4; st++) { h.v(c.next_state(st, true)).v(c.next_output(st, false)); } return h.k.h; }
inline uint64_t ccbcjr(int s) { H h; auto c = code(s); MD y = vec(8, s); h.m(c.decode_bcjr(y, 1.0 + s, 0.4)); return h.k.h; }
inline susa::channel<double> chan(int s) { MD t(1, 2); t(0) = 1; t(1) = s ? 0.5 : -0.25; MD p(2, 1); p(0) = -1; p(1) = 1; return susa::channel<double>(t, p); }
inline uint64_t mlse(int s) { H h; auto c = chan(s); MD x(4, 1); for (int i = 0; i < 4; i++) x(i) = (i * 3 + s) % 2 ? 1 : -1; MD y = c.encode_isi(x, 0); h.m(y).m(c.decode_mlse(y, 0)).m(c.decode_mlse(y)); return h.k.h; }
inline uint64_t chbcjr(int s) { H h; auto c = chan(s); h.m(c.decode_bcjr(vec(5, s), 0.5 + s)); return h.k.h; }
inline uint64_t twister(int s) { H h; susa::mt g(17 + s); h.v(g.rand_mask(0xffffffffu)).v(g.randint(5)).v(g.bernoulli(0.5)).m(g.rand(2)).m(g.randn(2)); MD p(1, 3); p(0) = 0.2; p(1) = 0.5; p(2) = 0.3; h.v(g.nonuniform(p)).m(g.nonuniform(p, 2)); g.set_probabilities(p); h.v(g.nonuniform()); return h.k.h; }
inline uint64_t rngs(int s) { H h; susa::rng g(99 + s); h.v(g.rand()).v(g.randn()).v(g.rand_mask(7)).m(g.rand(1, 2)).m(g.randn(2)).m(g.bernoulli(9)); susa::rng k(g), d; h.v(k.rand()).v(g.rand()).v(d.rand()); return h.k.h; }
inline uint64_t modem(int s) { H h; susa::qam q(s ? 4 : 16); h.m(q.get_constellation()).v(q.get_noise_deviation(3)).v(q.demodulate_symbol(cd(0.3, -0.8))); MB x(1, 3); x(0) = 0; x(1) = 1; x(2) = s; h.m(susa::bpsk(x)); return h.k.h; }
inline uint64_t noise(int s) { H h; h.m(susa::awgn(vec(2, s), 3.0f)); return h.k.h; }
inline uint64_t pulse(int s) { H h; susa::rrcosine f(2 + s, 0.5, 9); h.m(f.get()); return h.k.h; }
inline uint64_t scalar(int s) { H h; h.v(susa::normcdf(0.3 + s)).v(susa::qfunc(-1.0 - s)).v(susa::pow(3, 4 + s)).v(susa::log2((size_t)1000 + s)).v(susa::round(2.345 + s, 2)).m(susa::round(vec(3, s))); return h.k.h; }
inline const std::vector<Entry> &all() { static std::vector<Entry> e{{"text", text}, {"arithmetic", arith}, {"copy and move", copies}, {"rows and columns", move_}, {"products", linear}, {"lu", solve}, {"svd", svd_}, {"reductions", reduce}, {"filters", signal}, {"fft", fft_}, {"sorting", order}, {"shortest paths", paths}, {"bitset", bits}, {"array", arrays}, {"code", encode}, {"code bcjr", ccbcjr}, {"mlse", mlse}, {"channel bcjr", chbcjr}, {"mt", twister}, {"rng", rngs}, {"modulation", modem}, {"noise", noise}, {"pulse shape", pulse}, {"scalar functions", scalar}}; return e; }
}
