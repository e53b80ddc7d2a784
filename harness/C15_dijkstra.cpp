// C15: dijkstra's predecessor vector against true shortest distances (Floyd-Warshall).
//MC-VARIANT asan: -O1 -fsanitize=address -DSUSA_NDEBUG
//MC-BOUND every directed graph of up to 3 nodes over weights {0,1,2,5}, of 4 nodes over {0,1,3} (thorough: also 5 nodes over {0,1} and undirected 5 nodes over {0,1,3}), every source, self loops; paths, rings, stars, trees, ladders, complete graphs with detours up to 33 (70) nodes with relabelled nodes, sparse circulant graphs up to 300 (520) nodes; int, unsigned and double weights including fractions, large weights (sums above 2^31), very small ones, path lengths 1e-9 apart; fresh memory filled with two patterns
//MC-ASSUME weights are not negative and zero means that there is no edge; distances fit the weight type (unsigned for int); the predecessor of the source and of unreachable nodes is only required to be a node
#include "mat.h"
template <class T> static void check(const Ref<T> &g, int src) {
  int n = (int)g.r; MC_NOTE("graph %s, source %d", n <= 6 ? str(g).c_str() : "(large)", src); typedef long double W; const W INF = 1e30L;
  std::vector<W> d(n * n, INF); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (g.at(i, j) != 0) d[i * n + j] = g.at(i, j); for (int i = 0; i < n; i++) d[i * n + i] = 0;
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) d[i * n + j] = std::min(d[i * n + j], d[i * n + k] + d[k * n + j]);
  susa::matrix<T> *G; susa::matrix<unsigned> *P; { mc::Lib l; G = new susa::matrix<T>(mk(g)); mc::step(); P = new susa::matrix<unsigned>(susa::dijkstra(*G, (unsigned)src)); }
  MC_CHECK((int)P->size() == n, "%zu predecessors for %d nodes", P->size(), n); same(*G, g, "the graph");
  for (int t = 0; t < n; t++) {
    MC_CHECK(P->get(t) < (unsigned)n, "the predecessor of node %d is %u in %s, source %d", t, P->get(t), str(g).c_str(), src); if (t == src || d[src * n + t] >= INF) continue;
    W len = 0; int at = t, hops = 0; while (at != src) { int p = P->get(at); MC_CHECK(g.at(p, at) != 0, "predecessor %d of %d: no such edge in %s, source %d", p, at, n < 9 ? str(g).c_str() : "", src); len += g.at(p, at); at = p; MC_CHECK(++hops <= n, "the predecessors of node %d do not lead back to the source %d in %s", t, src, n < 9 ? str(g).c_str() : ""); }
    MC_CHECK(std::fabs((double)(len - d[src * n + t])) <= 1e-12 * (double)len, "path to node %d has length %.12Lg, shortest is %.12Lg in %s, source %d", t, len, d[src * n + t], n < 9 ? str(g).c_str() : "", src);
  }
  mc::state(mc::Hash().u(hashref(snap(*P))).u(src).h); mc::outcome(mc::Hash().u(hashref(g)).u(src).u(sizeof(T)).h); { mc::Lib l; delete G; delete P; } mc::heap_empty("after dijkstra");
}
template <class T> static void directed(int n, std::vector<T> V, bool loops) {
  Ref<T> g(n, n, T(0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) g.at(i, j) = V[mc::choose((int)V.size())]; if (loops) for (int i = 0; i < n; i++) g.at(i, i) = V[1]; int s = mc::choose(n); mc::g_fill = (s % 2) ? 0xBF : 0xFF; check(g, s);
}
MC_SCENARIO(all_2_3_int) { int n = mc::range(1, 3); directed<int>(n, {0, 1, 2, 5}, mc::flip()); }
MC_SCENARIO(all_2_3_unsigned_large) { int n = mc::range(2, 3); directed<unsigned>(n, {0, 1, 1000000000u, 2000000000u, 1500000000u}, false); }
MC_SCENARIO(all_2_3_double) { int n = mc::range(2, 3); directed<double>(n, {0, 0.25, 0.5, 0.9, 1e-9, 1e12}, mc::flip()); }
MC_SCENARIO(near_ties_double) { int n = mc::range(2, mc::pick(3, 4)); if (n < 4) directed<double>(n, {0, 1, 1e-9, 1 + 2e-9, 2 + 1e-9}, mc::flip()); else directed<double>(n, {0, 1 + 1e-10, 2 + 3e-10}, false); } // path lengths that single precision cannot tell apart
MC_SCENARIO(all_4_int) { directed<int>(4, {0, 1, 3}, false); }
MC_SCENARIO(all_4_double) { directed<double>(4, {0, 0.4, 0.9}, false); }
MC_SCENARIO(all_5) { directed<int>(5, mc::thorough() ? std::vector<int>{0, 1} : std::vector<int>{1}, false); }
MC_SCENARIO(undirected_5) { Ref<int> g(5, 5, 0); std::vector<int> V = mc::thorough() ? std::vector<int>{0, 1, 2, 5} : std::vector<int>{0, 1, 3}; for (int i = 0; i < 5; i++) for (int j = i + 1; j < 5; j++) g.at(i, j) = g.at(j, i) = V[mc::choose((int)V.size())]; check(g, mc::choose(5)); }
template <class T> static void families() {
  int n = mc::any<int>({7, 8, 9, 16, 17, mc::pick(33, 70)}), fam = mc::choose(7), perm = mc::choose(4), src = mc::choose(n); Ref<T> g(n, n, T(0));
  auto lab = [&](int i) { return perm == 0 ? i : perm == 1 ? n - 1 - i : perm == 2 ? (i + n / 2) % n : (i % 2 ? n - 1 - i / 2 : i / 2); };
  auto e = [&](int i, int j, double w) { g.at(lab(i), lab(j)) = T(w); };
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) switch (fam) {
    case 0: if (j == i + 1) e(i, j, 1 + i % 3); break;
    case 1: if (j == (i + 1) % n) e(i, j, 2); if (j == (i + n - 1) % n) e(i, j, 3); break;
    case 2: if (i == 0 || j == 0) e(i, j, 1 + (i + j) % 4); break;
    case 3: if (j == 2 * i + 1 || j == 2 * i + 2 || i == 2 * j + 1 || i == 2 * j + 2) e(i, j, 1 + (i * j) % 5); break;
    case 4: e(i, j, std::abs(i - j) == 1 ? 1 : std::abs(i - j) * std::abs(i - j)); break;
    case 5: e(i, j, 1 + (i * 31 + j * 17) % 97); break;
    default: if (j > i) e(i, j, std::is_floating_point<T>::value ? (j - i) * 0.75 + 0.1 : (j - i) * 3 - (j == i + 2)); }
  check(g, src);
}
MC_SCENARIO(large_families) { // node numbers beyond 8 bits and path lengths beyond 16 bits
  int n = mc::any<int>({64, 65, 127, 129, 255, 257, mc::pick(300, 520)}), fam = mc::choose(4), src = mc::any<int>({0, 1, 200}); mc::assume(src < n); if (src == 1) src = n - 1; Ref<unsigned> g(n, n, 0u); auto lab = [&](int i) { return fam & 1 ? (int)((i * 7919ll) % n) : i; };
  for (int i = 0; i < n; i++) { for (int d = 1; d <= 4; d++) { int j = (i + d * d * (fam < 2 ? 1 : 13)) % n; if (j != i) g.at(lab(i), lab(j)) = 1000u * d + (unsigned)(mc::Hash::mix(i * 8 + d) % (fam < 2 ? 700 : 5000)); } if (i + 1 < n) g.at(lab(i + 1), lab(i)) = 300u + i % 7; }
  bool inj = true; if (fam & 1) { std::set<int> s; for (int i = 0; i < n; i++) s.insert(lab(i)); inj = (int)s.size() == n; } (void)inj; check(g, src); }
MC_SCENARIO(families_int) { families<int>(); } MC_SCENARIO(families_double) { families<double>(); } MC_SCENARIO(families_unsigned) { families<unsigned>(); }
MC_MAIN
