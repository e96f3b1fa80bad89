// P25: the example graph algorithms against sequential computations (parts 1-3).
#include "gen.h"
#include <cmath>
#include <deque>
#include <iostream>
#include <queue>
#include <random>
#include <sstream>
#include <tuple>
#include <unordered_set>
#include <parlay/delayed.h>
#include <parlay/internal/get_time.h>
#include <parlay/io.h>
#include <parlay/parallel.h>
#include <parlay/primitives.h>
#include <parlay/random.h>
#include <parlay/sequence.h>
#include <parlay/utilities.h>
#include "helper/speculative_for.h"
#include "helper/union_find.h"
#include "helper/heap_tree.h"

using vf::H; using vf::eval; using vf::event; using vf::rounds; using vf::Rng; using vf::sample;
using Adj = std::vector<std::vector<int>>;
using Graph = parlay::sequence<parlay::sequence<int>>;

static Graph to_graph(const Adj& a) { return parlay::tabulate(a.size(), [&](size_t i) { return parlay::sequence<int>(a[i].begin(), a[i].end()); }); }
static Adj transpose(const Adj& a) { Adj t(a.size()); for (size_t u = 0; u < a.size(); u++) for (int v : a[u]) t[static_cast<size_t>(v)].push_back(static_cast<int>(u)); return t; }

// Shapes: random of several densities, path, cycle, star, grid, tree, complete, several components,
// isolated vertices, one heavy hub; vertex names shuffled.
static const char* shape_name[] = {"random-sparse", "random", "path", "cycle", "star", "grid", "tree", "complete", "components", "edgeless", "skewed", "bipartite"};
static Adj shape(Rng& r, bool symmetric, int& kind, size_t nmax) {
  kind = static_cast<int>(r.below(12));
  size_t n = 1 + (r.chance(1, 4) ? r.below(12) : r.chance(1, 2) ? r.below(200) : r.below(nmax));
  if (kind == 7) n = std::min<size_t>(n, 60);
  std::vector<std::pair<size_t, size_t>> e;
  auto rnd = [&](size_t m) { for (size_t i = 0; i < m; i++) e.push_back({r.below(n), r.below(n)}); };
  switch (kind) {
    case 0: rnd(n); break;
    case 1: rnd(n * (1 + r.below(12))); break;
    case 2: for (size_t i = 0; i + 1 < n; i++) e.push_back({i, i + 1}); break;
    case 3: for (size_t i = 0; i < n; i++) e.push_back({i, (i + 1) % n}); break;
    case 4: for (size_t i = 1; i < n; i++) e.push_back({0, i}); break;
    case 5: { size_t w = std::max<size_t>(1, static_cast<size_t>(std::sqrt(static_cast<double>(n)))); for (size_t i = 0; i < n; i++) { if ((i + 1) % w && i + 1 < n) e.push_back({i, i + 1}); if (i + w < n) e.push_back({i, i + w}); } break; }
    case 6: for (size_t i = 1; i < n; i++) e.push_back({r.chance(1, 3) ? i - 1 : r.below(i), i}); break;
    case 7: for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) e.push_back({i, j}); break;
    case 8: for (size_t i = 0; i < 3 * n; i++) { size_t b = r.below(1 + n / 20) * 20, s = std::min<size_t>(20, n > b ? n - b : 0); if (s) e.push_back({b + r.below(s), b + r.below(s)}); } break;
    case 9: break;
    case 10: for (size_t i = 0; i < 4 * n; i++) e.push_back({std::min({r.below(n), r.below(n), r.below(n), r.below(n)}), r.below(n)}); break;
    default: for (size_t i = 0; i < 2 * n && n > 1; i++) e.push_back({r.below(n / 2), n / 2 + r.below(n - n / 2)}); break;
  }
  std::vector<size_t> nm(n); std::iota(nm.begin(), nm.end(), size_t{0});
  if (r.chance(2, 3)) for (size_t i = n; i > 1; i--) std::swap(nm[i - 1], nm[r.below(i)]);
  std::set<std::pair<size_t, size_t>> s;
  for (auto [a, b] : e) { if (a == b) continue; s.insert({nm[a], nm[b]}); if (symmetric) s.insert({nm[b], nm[a]}); else if (r.chance(1, 3)) s.insert({nm[b], nm[a]}); }
  Adj g(n); for (auto [a, b] : s) g[a].push_back(static_cast<int>(b));
  if (kind != 9 && kind != 7 && !s.empty() && r.chance(1, 3)) { size_t extra = 1 + r.below(5); for (size_t i = 0; i < extra; i++) g.push_back({}); }   // isolated ones at the end
  event("graphs"); event("edges", s.size());
  return g;
}
static uint64_t gh(const Adj& a) { uint64_t h = a.size(); for (auto& x : a) for (int v : x) h = vf::mix(h * 31 + static_cast<uint64_t>(v) + x.size()); return h; }
static std::vector<long> bfs_dist(const Adj& g, size_t s) { std::vector<long> d(g.size(), -1); std::deque<size_t> q{s}; d[s] = 0; while (!q.empty()) { size_t u = q.front(); q.pop_front(); for (int v : g[u]) if (d[v] < 0) { d[v] = d[u] + 1; q.push_back(static_cast<size_t>(v)); } } return d; }
static std::vector<size_t> comps(const Adj& g) { std::vector<size_t> p(g.size()); std::iota(p.begin(), p.end(), size_t{0}); std::function<size_t(size_t)> f = [&](size_t x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }; for (size_t u = 0; u < g.size(); u++) for (int v : g[u]) p[f(u)] = f(static_cast<size_t>(v)); for (size_t u = 0; u < g.size(); u++) p[u] = f(u); return p; }
static size_t NMAX() { return vf::thorough() ? 20000 : 3000; }

#if VF_PART == 1
namespace ex_bfs {
#include "BFS.h"
}
namespace ex_bc {   // includes BFS_ligra.h and ligra_light.h
#include "betweenness_centrality.h"
}
namespace ex_bf {
#include "bellman_ford.h"
}
namespace ex_dij {
#include "bucketed_dijkstra.h"
}
template <class F> static void check_levels(const F& fr, const std::vector<long>& d, const char* who, int kind) {
  std::vector<long> got(d.size(), -1); bool dup = false;
  for (size_t i = 0; i < fr.size(); i++) for (auto v : fr[i]) { if (got[v] != -1) dup = true; got[v] = static_cast<long>(i); }
  if (dup) vf::fail(std::string(who) + ":a vertex in two levels", "%s n=%zu", shape_name[kind], d.size());
  else if (got != d) { size_t i = 0; while (got[i] == d[i]) i++; vf::fail(std::string(who) + ":distance", "%s n=%zu vertex %zu: %ld instead of %ld", shape_name[kind], d.size(), i, got[i], d[i]); }
  else if (!fr.size() || !fr[fr.size() - 1].size()) vf::fail(std::string(who) + ":empty level", "%s n=%zu", shape_name[kind], d.size());
  event("searches");
}
CASE("breadth-first search") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    int kind; Adj a = shape(rng, rng.chance(1, 2), kind, NMAX()); Graph g = to_graph(a), gt = to_graph(transpose(a));
    size_t s = rng.below(a.size()); auto d = bfs_dist(a, s);
    check_levels(ex_bfs::BFS(static_cast<int>(s), g), d, "BFS", kind);
    check_levels(ex_bc::BFS(static_cast<int>(s), g, gt), d, "BFS_ligra", kind);
    eval(H(gh(a), s), a.size() > 1);
  }
  sample("graphs of 12 shapes, directed and symmetric, from a random start");
}
CASE("betweenness centrality") {
  for (size_t k = 0, R = rounds(40); k < R; k++) {
    int kind; Adj a = shape(rng, rng.chance(1, 2), kind, 1500), t = transpose(a); size_t n = a.size(), s = rng.below(n);
    auto d = bfs_dist(a, s); std::vector<size_t> ord; for (size_t i = 0; i < n; i++) if (d[i] >= 0) ord.push_back(i);
    std::stable_sort(ord.begin(), ord.end(), [&](size_t x, size_t y) { return d[x] < d[y]; });
    std::vector<double> sg(n), dl(n); sg[s] = 1;
    for (size_t u : ord) for (int v : a[u]) if (d[v] == d[u] + 1) sg[v] += sg[u];
    for (size_t i = ord.size(); i-- > 0;) { size_t u = ord[i]; for (int v : a[u]) if (d[v] == d[u] + 1) dl[u] += sg[u] / sg[v] * (1 + dl[v]); }
    dl[s] = 0;
    auto r = ex_bc::BC_single_source(static_cast<int>(s), to_graph(a), to_graph(t));
    double mx = *std::max_element(sg.begin(), sg.end());
    if (mx < 1e6) for (size_t i = 0; i < n; i++) if (std::fabs(r[i] - dl[i]) > 1e-3 * (1 + dl[i])) { vf::fail("betweenness", "%s n=%zu vertex %zu: %g instead of %g", shape_name[kind], n, i, static_cast<double>(r[i]), dl[i]); break; }
    event("searches"); eval(H(gh(a), s), n > 1);
  }
}
template <class W> static void shortest(Rng& rng, bool negative, const char* what) {
  using E = std::pair<int, W>; using WG = parlay::sequence<parlay::sequence<E>>;
  for (size_t k = 0, R = rounds(40); k < R; k++) {
    int kind; Adj a = shape(rng, rng.chance(1, 2), kind, 400); size_t n = a.size(), s = rng.below(n);
    long lo = negative ? -static_cast<long>(rng.below(4)) : 0, hi = rng.chance(1, 2) ? 5 : 1000;
    std::vector<std::vector<std::pair<size_t, long>>> w(n); WG g(n), gt(n);
    for (size_t u = 0; u < n; u++) for (int v : a[u]) { long c = rng.range(lo, hi); w[u].push_back({static_cast<size_t>(v), c}); g[u].push_back(E(v, static_cast<W>(c))); gt[v].push_back(E(static_cast<int>(u), static_cast<W>(c))); }
    const long INF = 1l << 60; std::vector<long> d(n, INF); d[s] = 0; bool neg = false;
    for (size_t it = 0; it <= n; it++) { bool ch = false; for (size_t u = 0; u < n; u++) if (d[u] < INF) for (auto [v, c] : w[u]) if (d[u] + c < d[v]) { d[v] = d[u] + c; ch = true; } if (!ch) break; if (it == n) neg = true; }
    auto judge = [&](auto&& r, const char* who) {
      if (r.has_value() == neg) { vf::fail(std::string(who) + (neg ? ":negative cycle not reported" : ":no result though there is no negative cycle"), "%s %s n=%zu", what, shape_name[kind], n); return; }
      if (!neg) for (size_t i = 0; i < n; i++) { W want = d[i] == INF ? std::numeric_limits<W>::max() : static_cast<W>(d[i]); if ((*r)[i] != want) { vf::fail(std::string(who) + ":distance", "%s %s n=%zu vertex %zu: %g instead of %g", what, shape_name[kind], n, i, static_cast<double>((*r)[i]), static_cast<double>(want)); break; } }
      event("searches");
    };
    judge(ex_bf::bellman_ford<W>(static_cast<int>(s), gt), "bellman_ford");
    judge(ex_bf::bellman_ford_lazy<W>(static_cast<int>(s), g, gt), "bellman_ford_lazy");
    if (neg) event("negative_cycles");
    eval(H(gh(a), s, lo, hi), n > 1);
  }
}
CASE("bellman-ford, float weights") { shortest<float>(rng, false, "float"); }
CASE("bellman-ford, negative double weights") { shortest<double>(rng, true, "double"); }
CASE("bellman-ford, integer weights") { shortest<int>(rng, false, "int"); shortest<int>(rng, true, "int"); }
CASE("bucketed dijkstra") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    int kind; Adj a = shape(rng, rng.chance(1, 2), kind, NMAX()); size_t n = a.size(), s = rng.below(n);
    using E = std::pair<int, int>; long hi = rng.chance(1, 3) ? 1 : rng.chance(1, 2) ? 4 : 20;
    parlay::sequence<parlay::sequence<E>> g(n); std::vector<std::vector<std::pair<size_t, long>>> w(n);
    for (size_t u = 0; u < n; u++) for (int v : a[u]) { long c = rng.range(rng.chance(1, 4) ? 0 : 1, hi); w[u].push_back({static_cast<size_t>(v), c}); g[u].push_back(E(v, static_cast<int>(c))); }
    std::vector<long> d(n, -1); std::priority_queue<std::pair<long, size_t>> q; q.push({0, s});
    while (!q.empty()) { auto [c, u] = q.top(); q.pop(); c = -c; if (d[u] >= 0) continue; d[u] = c; for (auto [v, x] : w[u]) if (d[v] < 0) q.push({-(c + x), v}); }
    long mx = *std::max_element(d.begin(), d.end());
    // "The particular code limits l <= n": no tentative distance may pass the last bucket
    long tent = 0; for (size_t u = 0; u < n; u++) if (d[u] >= 0) for (auto [v, x] : w[u]) tent = std::max(tent, d[u] + x);
    if (mx > static_cast<long>(n)) continue;
    auto r = ex_dij::bucketed_dijkstra(static_cast<int>(s), g);
    std::vector<long> got(n, -1); bool dup = false;
    for (size_t i = 0; i < r.size(); i++) for (int v : r[i]) { if (got[v] != -1) dup = true; got[v] = static_cast<long>(i); }
    if (dup) vf::fail("bucketed_dijkstra:a vertex in two levels", "%s n=%zu weights to %ld", shape_name[kind], n, hi);
    if (got != d) { size_t i = 0; while (got[i] == d[i]) i++; vf::fail("bucketed_dijkstra:distance", "%s n=%zu vertex %zu: %ld instead of %ld", shape_name[kind], n, i, got[i], d[i]); }
    event("searches"); eval(H(gh(a), s, hi), n > 1);
  }
}
#endif

#if VF_PART == 2
namespace ex_kr {
#include "kruskal.h"
}
namespace ex_kth {
#include "kth_smallest.h"
}
namespace ex_fk {
#include "filter_kruskal.h"
}
namespace ex_sp {
#include "spanning_tree.h"
}
namespace ex_mis {
#include "maximal_independent_set.h"
}
namespace ex_mm {
#include "maximal_matching.h"
}
namespace ex_gc {
#include "graph_color.h"
}
namespace ex_kc {
#include "kcore.h"
}
namespace ex_tc {
#include "triangle_count.h"
}
namespace ex_cc {
#include "cycle_count.h"
}
struct UF { std::vector<size_t> p; explicit UF(size_t n) : p(n) { std::iota(p.begin(), p.end(), size_t{0}); } size_t f(size_t x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; } bool join(size_t a, size_t b) { a = f(a); b = f(b); if (a == b) return false; p[a] = b; return true; } };
template <class W> static void msf(Rng& rng, const char* what, bool wide) {
  for (size_t k = 0, R = rounds(30); k < R; k++) {
    int kind; Adj a = shape(rng, true, kind, NMAX()); size_t n = a.size();
    using T = std::tuple<int, int, W>; parlay::sequence<T> E; bool few = rng.chance(1, 3);
    for (size_t u = 0; u < n; u++) for (int v : a[u]) if (static_cast<int>(u) < v) { W w = static_cast<W>(few ? rng.below(4) : wide ? (1ull << 40) + rng.below(1000) : rng.below(1u << 20)); if (rng.chance(1, 2)) E.push_back(T(static_cast<int>(u), v, w)); else E.push_back(T(v, static_cast<int>(u), w)); }
    if (E.size() > 1) for (size_t i = E.size(); i > 1; i--) std::swap(E[i - 1], E[rng.below(i)]);
    std::vector<size_t> ord(E.size()); std::iota(ord.begin(), ord.end(), size_t{0});
    std::stable_sort(ord.begin(), ord.end(), [&](size_t x, size_t y) { return std::get<2>(E[x]) < std::get<2>(E[y]); });
    UF f(n); double want = 0; size_t cnt = 0; for (size_t i : ord) if (f.join(static_cast<size_t>(std::get<0>(E[i])), static_cast<size_t>(std::get<1>(E[i])))) { want += static_cast<double>(std::get<2>(E[i])); cnt++; }
    auto judge = [&](auto&& r, const char* who) {
      UF g(n); double got = 0; bool bad = false; for (long i : r) { if (i < 0 || static_cast<size_t>(i) >= E.size() || !g.join(static_cast<size_t>(std::get<0>(E[i])), static_cast<size_t>(std::get<1>(E[i])))) { bad = true; break; } got += static_cast<double>(std::get<2>(E[i])); }
      if (bad || r.size() != cnt) vf::fail(std::string(who) + ":not a spanning forest", "%s %s n=%zu m=%zu: %zu edges instead of %zu", what, shape_name[kind], n, E.size(), r.size(), cnt);
      else if (got != want) vf::fail(std::string(who) + ":weight", "%s %s n=%zu m=%zu: %.17g instead of %.17g", what, shape_name[kind], n, E.size(), got, want);
      event("forests");
    };
    judge(ex_kr::min_spanning_forest(E, static_cast<long>(n)), "kruskal");
    judge(ex_fk::min_spanning_forest(E, static_cast<long>(n)), "filter_kruskal");
    eval(H(gh(a), few), E.size() > 1);
  }
}
CASE("minimum spanning forests, float weights") { msf<float>(rng, "float", false); }
CASE("minimum spanning forests, integer weights") { msf<int>(rng, "int", false); }
CASE("minimum spanning forests, wide weights") { msf<double>(rng, "double", true); msf<long>(rng, "long", true); }
CASE("spanning forest") {
  for (size_t k = 0, R = rounds(80); k < R; k++) {
    int kind; Adj a = shape(rng, true, kind, NMAX()); size_t n = a.size(); parlay::sequence<std::pair<int, int>> E;
    for (size_t u = 0; u < n; u++) for (int v : a[u]) if (static_cast<int>(u) < v || rng.chance(1, 4)) E.push_back({static_cast<int>(u), v});
    if (rng.chance(1, 3) && n) E.push_back({static_cast<int>(rng.below(n)), 0});
    for (size_t i = E.size(); i > 1; i--) std::swap(E[i - 1], E[rng.below(i)]);
    UF f(n); size_t cnt = 0; for (auto& e : E) cnt += f.join(static_cast<size_t>(e.first), static_cast<size_t>(e.second));
    auto r = ex_sp::spanning_forest(E, static_cast<int>(n)); UF g(n); bool bad = false;
    for (long i : r) if (i < 0 || static_cast<size_t>(i) >= E.size() || !g.join(static_cast<size_t>(E[i].first), static_cast<size_t>(E[i].second))) bad = true;
    VF_CHECK(!bad && r.size() == cnt, "spanning_forest", "%s n=%zu m=%zu: %zu edges instead of %zu%s", shape_name[kind], n, E.size(), r.size(), cnt, bad ? ", with a cycle" : "");
    event("forests"); eval(H(gh(a), E.size()), n > 1);
  }
}
CASE("independent sets and matchings") {
  for (size_t k = 0, R = rounds(80); k < R; k++) {
    int kind; Adj a = shape(rng, true, kind, NMAX()); size_t n = a.size(); Graph g = to_graph(a);
    auto s = ex_mis::MIS(g); std::vector<char> want(n, 0);
    for (size_t u = 0; u < n; u++) { bool in = true; for (int v : a[u]) if (static_cast<size_t>(v) < u && want[v]) in = false; want[u] = in; }
    for (size_t u = 0; u < n; u++) if (s[u] != static_cast<bool>(want[u])) { vf::fail("MIS:not the greedy set", "%s n=%zu vertex %zu", shape_name[kind], n, u); break; }
    parlay::sequence<std::pair<int, int>> E; for (size_t u = 0; u < n; u++) for (int v : a[u]) if (static_cast<int>(u) < v) E.push_back({static_cast<int>(u), v});
    if (n && rng.chance(1, 2)) for (int i = 0; i < 3; i++) { int x = static_cast<int>(rng.below(n)); E.push_back({x, rng.chance(1, 2) || a[x].empty() ? x : a[x][0]}); }   // loops and repeated edges
    for (size_t i = E.size(); i > 1; i--) std::swap(E[i - 1], E[rng.below(i)]);
    std::vector<char> m(n, 0); std::vector<long> wm; for (size_t i = 0; i < E.size(); i++) { auto [x, y] = E[i]; if (x != y && !m[x] && !m[y]) { m[x] = m[y] = 1; wm.push_back(static_cast<long>(i)); } }
    auto r = ex_mm::maximal_matching(E, static_cast<long>(n)); std::vector<long> gm(r.begin(), r.end()); std::sort(gm.begin(), gm.end());
    VF_CHECK(gm == wm, "maximal_matching:not the greedy matching", "%s n=%zu m=%zu: %zu edges instead of %zu", shape_name[kind], n, E.size(), gm.size(), wm.size());
    event("sets"); eval(H(gh(a), E.size()), n > 1);
  }
}
CASE("colouring, cores and triangles") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    int kind; Adj a = shape(rng, true, kind, NMAX()); size_t n = a.size(); Graph g = to_graph(a);
    auto c = ex_gc::graph_coloring(g); int mc = 0; size_t md = 0;
    for (size_t u = 0; u < n; u++) { md = std::max(md, a[u].size()); mc = std::max(mc, c[u]); bool bad = c[u] < 0; for (int v : a[u]) bad |= c[u] == c[v]; if (bad) { vf::fail("graph_coloring:not proper", "%s n=%zu vertex %zu", shape_name[kind], n, u); break; } }
    VF_CHECK(static_cast<size_t>(mc) <= md, "graph_coloring:too many colours", "%s n=%zu: %d colours, degree %zu", shape_name[kind], n, mc + 1, md);
    // cores by sequential peeling
    std::vector<long> deg(n), core(n); std::set<std::pair<long, size_t>> q; for (size_t u = 0; u < n; u++) { deg[u] = static_cast<long>(a[u].size()); q.insert({deg[u], u}); }
    long cur = 0; std::vector<char> out(n, 0); while (!q.empty()) { auto [d, u] = *q.begin(); q.erase(q.begin()); cur = std::max(cur, d); core[u] = cur; out[u] = 1; for (int v : a[u]) if (!out[v]) { q.erase({deg[v], static_cast<size_t>(v)}); deg[v]--; q.insert({deg[v], static_cast<size_t>(v)}); } }
    auto kc = ex_kc::kcore(g);
    for (size_t u = 0; u < n; u++) if (kc[u] != core[u]) { vf::fail("kcore", "%s n=%zu vertex %zu: %d instead of %ld", shape_name[kind], n, u, static_cast<int>(kc[u]), core[u]); break; }
    long tri = 0; { std::vector<std::set<int>> s(n); for (size_t u = 0; u < n; u++) s[u] = std::set<int>(a[u].begin(), a[u].end());
      size_t work = 0; for (size_t u = 0; u < n; u++) work += a[u].size() * a[u].size();
      if (work < 3000000) { for (size_t u = 0; u < n; u++) for (int v : a[u]) if (static_cast<int>(u) < v) for (int w : a[u]) if (v < w && s[v].count(w)) tri++;
        long t = ex_tc::triangle_count(g); VF_CHECK(t == tri, "triangle_count", "%s n=%zu: %ld instead of %ld", shape_name[kind], n, t, tri); if (tri) event("triangles", static_cast<uint64_t>(tri)); } }
    event("colourings"); eval(gh(a), n > 1);
  }
}
CASE("cycles of a permutation") {
  for (size_t k = 0, R = rounds(80); k < R; k++) {
    size_t n = 1 + vf::pick_size(rng, vf::maxn(60000, 300000)); parlay::sequence<long> p(n); std::iota(p.begin(), p.end(), 0l); int kind = static_cast<int>(rng.below(4));
    if (kind == 0) for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[rng.below(i)]);
    else if (kind == 1) std::rotate(p.begin(), p.begin() + static_cast<long>(rng.below(n)), p.end());
    else if (kind == 2) for (size_t i = 0; i + 1 < n; i += 2) std::swap(p[i], p[i + 1]);
    std::vector<char> seen(n, 0); long want = 0; for (size_t i = 0; i < n; i++) if (!seen[i]) { want++; for (size_t j = i; !seen[j]; j = static_cast<size_t>(p[j])) seen[j] = 1; }
    long got = ex_cc::cycle_count(p); VF_CHECK(got == want, "cycle_count", "n=%zu kind %d: %ld instead of %ld", n, kind, got, want);
    event("permutations"); eval(H(n, kind, k), n > 1);
  }
}
#endif

#if VF_PART == 3
namespace ex_ldd {
#include "low_diameter_decomposition.h"
}
namespace ex_pr {
#include "pagerank.h"
}
namespace ex_le {
using distance = int; using vertex = int;
#include "le_list.h"
}
namespace ex_sc {
#include "set_cover.h"
}
namespace ex_mf {
#include "push_relabel_max_flow.h"
}
namespace ex_ss {
#include "spectral_separator.h"
}
struct Quiet { std::ostringstream o; std::streambuf* b; Quiet() : b(std::cout.rdbuf(o.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
CASE("low diameter decomposition") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    int kind; Adj a = shape(rng, true, kind, NMAX()); size_t n = a.size(); Graph g = to_graph(a); float beta = rng.chance(1, 2) ? .5f : .1f;
    auto l = ex_ldd::LDD<int>(beta, g, g); bool bad = false;
    for (size_t u = 0; u < n && !bad; u++) if (l[u] < 0 || static_cast<size_t>(l[u]) >= n || l[l[u]] != l[u]) { vf::fail("LDD:label is no centre", "%s n=%zu vertex %zu label %d", shape_name[kind], n, u, l[u]); bad = true; }
    if (!bad) {   // each cluster is connected around its centre, within the radius
      Adj in(n); for (size_t u = 0; u < n; u++) for (int v : a[u]) if (l[u] == l[v]) in[u].push_back(v);
      std::vector<long> d(n, -1); std::deque<size_t> q; for (size_t u = 0; u < n; u++) if (static_cast<size_t>(l[u]) == u) { d[u] = 0; q.push_back(u); }
      while (!q.empty()) { size_t u = q.front(); q.pop_front(); for (int v : in[u]) if (d[v] < 0) { d[v] = d[u] + 1; q.push_back(static_cast<size_t>(v)); } }
      double lim = 40 + 40 * std::log(static_cast<double>(n) + 1) / static_cast<double>(beta);
      for (size_t u = 0; u < n; u++) if (d[u] < 0 || static_cast<double>(d[u]) > lim) { vf::fail("LDD:cluster not connected around its centre", "%s n=%zu vertex %zu centre %d distance %ld", shape_name[kind], n, u, l[u], d[u]); break; }
    }
    event("clusterings"); eval(H(gh(a), beta * 10), n > 1);
  }
}
CASE("pagerank") {
  for (size_t k = 0, R = rounds(40); k < R; k++) {
    int kind; Adj a = shape(rng, rng.chance(1, 2), kind, NMAX()); size_t n = a.size();
    parlay::sequence<parlay::sequence<std::pair<int, float>>> m(n); for (size_t u = 0; u < n; u++) for (int v : a[u]) m[v].push_back({static_cast<int>(u), 1.0f / static_cast<float>(a[u].size())});
    int it = static_cast<int>(rng.below(6)); auto r = ex_pr::pagerank(m, it); std::vector<double> v(n, 1.0 / static_cast<double>(n));
    for (int i = 0; i < it; i++) { std::vector<double> w(n); for (size_t u = 0; u < n; u++) { double s = 0; for (auto& e : m[u]) s += v[e.first] * static_cast<double>(e.second); w[u] = .15 / static_cast<double>(n) + .85 * s; } v = w; }
    for (size_t u = 0; u < n; u++) if (std::fabs(r[u] - v[u]) > 1e-9) { vf::fail("pagerank", "%s n=%zu iterations %d vertex %zu: %g instead of %g", shape_name[kind], n, it, u, r[u], v[u]); break; }
    event("ranks"); eval(H(gh(a), it), n > 1);
  }
}
CASE("least-element lists") {
  for (size_t k = 0, R = rounds(40); k < R; k++) {
    int kind; Adj a = shape(rng, rng.chance(1, 2), kind, 400); size_t n = a.size(); Graph g = to_graph(a), gt = to_graph(transpose(a));
    parlay::sequence<int> ord(n); std::iota(ord.begin(), ord.end(), 0); for (size_t i = n; i > 1; i--) std::swap(ord[i - 1], ord[rng.below(i)]);
    std::vector<std::vector<std::pair<int, int>>> want(n); std::vector<long> best(n, 1l << 40); size_t longest = 0;
    for (size_t i = 0; i < n; i++) { auto d = bfs_dist(a, static_cast<size_t>(ord[i])); for (size_t v = 0; v < n; v++) if (d[v] >= 0 && d[v] < best[v]) { best[v] = d[v]; want[v].push_back({ord[i], static_cast<int>(d[v])}); longest = std::max(longest, want[v].size()); } }
    std::string said; { Quiet q; auto r = ex_le::create_le_list(g, gt, ord); said = q.o.str();
      if (said.find("Error") == std::string::npos) for (size_t v = 0; v < n; v++) { std::vector<std::pair<int, int>> got(r[v].begin(), r[v].end()); if (got != want[v]) { vf::fail("le_list", "%s n=%zu vertex %zu: %zu entries instead of %zu", shape_name[kind], n, v, got.size(), want[v].size()); break; } } }
    if (said.find("Error") != std::string::npos) event("le_list_capacity_messages");
    event("lists"); eval(gh(a), n > 1);
  }
}
CASE("set cover") {
  for (size_t k = 0, R = rounds(80); k < R; k++) {
    size_t ns = 1 + rng.below(rng.chance(1, 2) ? 20 : 600), ne = 1 + rng.below(rng.chance(1, 2) ? 30 : 2000); parlay::sequence<parlay::sequence<int>> S(ns); std::vector<char> can(ne, 0); double eps = rng.chance(1, 2) ? .05 : .3;
    for (auto& s : S) { std::set<int> x; size_t c = rng.chance(1, 10) ? 0 : rng.chance(1, 10) ? ne / 2 : rng.below(std::min<size_t>(ne, 30)) + 1; for (size_t i = 0; i < c; i++) x.insert(static_cast<int>(rng.chance(1, 3) ? rng.below(1 + ne / 10) : rng.below(ne))); s = parlay::sequence<int>(x.begin(), x.end()); for (int e : s) can[e] = 1; }
    auto r = ex_sc::set_cover<int>::run(S, static_cast<long>(ne), eps); std::vector<char> cov(ne, 0); std::set<int> ids; bool bad = false;
    for (int i : r) { if (i < 0 || static_cast<size_t>(i) >= ns || !ids.insert(i).second) { bad = true; break; } for (int e : S[i]) cov[e] = 1; }
    size_t miss = 0; for (size_t e = 0; e < ne; e++) miss += can[e] && !cov[e];
    VF_CHECK(!bad && !miss, "set_cover", "%zu sets, %zu elements, epsilon %g: %zu elements not covered%s", ns, ne, eps, miss, bad ? ", bad set index" : "");
    size_t greedy = 0; { std::vector<char> c2(ne, 0); for (;;) { size_t b = 0, bi = 0; for (size_t i = 0; i < ns; i++) { size_t c = 0; for (int e : S[i]) c += !c2[e]; if (c > b) b = c, bi = i; } if (!b) break; greedy++; for (int e : S[bi]) c2[e] = 1; } }
    VF_CHECK(r.size() <= 2 * greedy * (1 + std::log(static_cast<double>(ne) + 1)) + 2, "set_cover:size", "%zu sets, %zu elements: %zu chosen, greedy %zu", ns, ne, r.size(), greedy);
    event("covers"); eval(H(ns, ne, k), ns > 1);
  }
}
CASE("maximum flow") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    int kind; Adj a = shape(rng, true, kind, 300); size_t n = a.size(); if (n < 2) continue; size_t s = rng.below(n), t = rng.below(n); if (s == t) t = (s + 1) % n;
    int hi = rng.chance(1, 2) ? 1 : rng.chance(1, 2) ? 10 : 1000; bool zeros = rng.chance(1, 2);
    parlay::sequence<parlay::sequence<std::pair<int, int>>> g(n); std::vector<std::map<int, long>> cap(n);
    for (size_t u = 0; u < n; u++) for (int v : a[u]) { int c = zeros && rng.chance(1, 3) ? 0 : static_cast<int>(1 + rng.below(static_cast<uint64_t>(hi))); g[u].push_back({v, c}); cap[u][v] = c; }
    long want = 0; for (;;) {   // augmenting paths
      std::vector<long> par(n, -1); std::deque<size_t> q{s}; par[s] = static_cast<long>(s); while (!q.empty() && par[t] < 0) { size_t u = q.front(); q.pop_front(); for (auto& [v, c] : cap[u]) if (c > 0 && par[v] < 0) { par[v] = static_cast<long>(u); q.push_back(static_cast<size_t>(v)); } }
      if (par[t] < 0) break; long b = 1l << 40; for (size_t v = t; v != s; v = static_cast<size_t>(par[v])) b = std::min(b, cap[par[v]][static_cast<int>(v)]);
      for (size_t v = t; v != s; v = static_cast<size_t>(par[v])) { cap[par[v]][static_cast<int>(v)] -= b; cap[v][static_cast<int>(par[v])] += b; } want += b; }
    int got; std::string said; { Quiet q; got = ex_mf::maximum_flow(g, static_cast<int>(s), static_cast<int>(t)); said = q.o.str(); }
    VF_CHECK(got == want, "max_flow:value", "%s n=%zu capacities to %d: %d instead of %ld", shape_name[kind], n, hi, got, want);
    VF_CHECK(said.find("lost") == std::string::npos, "max_flow:excess lost", "%s n=%zu", shape_name[kind], n);
    event("flows"); eval(H(gh(a), s, t, hi), want > 0);
  }
}
CASE("spectral partition") {
  for (size_t k = 0, R = rounds(20); k < R; k++) {
    int kind; Adj a = shape(rng, true, kind, 60); size_t n = a.size(); if ((kind != 1 && kind != 4 && kind != 7) || n < 3) continue; Graph g = to_graph(a); parlay::sequence<bool> p;   // the power method takes long where the eigenvalues are close
    { Quiet q; p = parlay::map(ex_ss::partition_graph(g), [](bool b) { return b; }); }
    size_t c = 0; for (bool b : p) c += b;
    VF_CHECK(p.size() == n && c <= n / 2, "spectral:halves", "%s n=%zu: %zu vertices in one part", shape_name[kind], n, c);
    event("partitions"); eval(gh(a), n > 1);
  }
}
#endif
