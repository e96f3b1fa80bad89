// P26 (parts 1, 2): the example learning, optimisation and simulation algorithms; P25 (part 3): the graph helpers.
#include "gen.h"
#include <cmath>
#include <complex>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <tuple>
#include <unistd.h>
#include <dirent.h>
#include <parlay/alloc.h>
#include <parlay/delayed.h>
#include <parlay/internal/get_time.h>
#include <parlay/io.h>
#include <parlay/parallel.h>
#include <parlay/primitives.h>
#include <parlay/random.h>
#include <parlay/sequence.h>
#include <parlay/utilities.h>

using vf::H; using vf::eval; using vf::event; using vf::rounds; using vf::Rng; using vf::sample; using vf::fail;
static size_t len(Rng& r, size_t nmax) { size_t k = r.below(6); return k == 0 ? r.below(4) : k == 1 ? r.below(260) : r.below(nmax); }
// what the examples print
struct Quiet { std::ostringstream s; std::streambuf* old; Quiet() : old(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(old); } };
static double uni(Rng& r, double a, double b) { return a + (b - a) * (static_cast<double>(r.next() >> 11) * 0x1p-53); }

#if VF_PART == 1
namespace ex_km {
#include "kmeans_pp.h"
}
namespace ex_dt {
#include "decision_tree_c45.h"
}
namespace ex_la {
#include "lasso_regression.h"
}
// every centre is the mean of the points nearest to it
CASE("k-means") {
  for (size_t round = 0, R = rounds(250); round < R; round++) {
    size_t dims = 1 + rng.below(5), n = 1 + len(rng, 3000), shape = rng.below(4); int k = 1 + static_cast<int>(rng.below(std::min<size_t>(n, 9)));
    std::vector<std::vector<double>> mid(static_cast<size_t>(k), std::vector<double>(dims)); for (auto& m : mid) for (auto& x : m) x = uni(rng, -50, 50);
    ex_km::Points pts(n); for (auto& p : pts) { p = ex_km::Point(dims); auto& m = mid[rng.below(mid.size())]; for (size_t d = 0; d < dims; d++) p[d] = shape == 0 ? uni(rng, 0, 1) : shape == 1 ? m[d] + uni(rng, -1, 1) : shape == 2 ? static_cast<double>(rng.below(3)) : static_cast<double>(rng.range(-40, 40)); }
    auto dist = [](const ex_km::Point& a, const ex_km::Point& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return s; };
    double eps = n < 300 && rng.chance(1, 4) ? 0.0 : 1e-9; auto before = pts; auto [c, steps] = ex_km::kmeans(pts, k, dist, eps);
    bool ok = c.size() == static_cast<size_t>(k) && steps >= 1 && steps <= 1000; for (auto& x : c) ok = ok && x.size() == dims; for (size_t i = 0; i < n && ok; i++) ok = pts[i] == before[i];
    VF_CHECK(ok, "kmeans:shape", "n=%zu k=%d dims=%zu shape %zu: %zu centres in %ld rounds", n, k, dims, shape, c.size(), static_cast<long>(steps));
    if (!ok) continue;
    std::vector<std::vector<double>> sum(c.size(), std::vector<double>(dims)); std::vector<double> cnt(c.size()); bool tie = false;
    for (auto& p : pts) { size_t b = 0; double bd = dist(p, c[0]), second = 1e300; for (size_t i = 1; i < c.size(); i++) { double d = dist(p, c[i]); if (d < bd) { second = bd; bd = d; b = i; } else second = std::min(second, d); } if (second - bd < 1e-6) tie = true; cnt[b]++; for (size_t d = 0; d < dims; d++) sum[b][d] += p[d]; }
    for (size_t i = 0; i < c.size() && !tie; i++) for (size_t d = 0; d < dims; d++) if (cnt[i] > 0 && !(std::fabs(sum[i][d] / cnt[i] - c[i][d]) < 1e-6)) { fail("kmeans:centre", "n=%zu k=%d dims=%zu shape %zu: centre %zu is not the mean of the points nearest to it", n, k, dims, shape, i); tie = true; break; }
    for (size_t i = 0; i < c.size(); i++) for (size_t d = 0; d < dims; d++) if (!std::isfinite(c[i][d])) { fail("kmeans:finite", "n=%zu k=%d dims=%zu shape %zu: centre %zu is not a point", n, k, dims, shape, i); d = dims; i = c.size(); }
    event("clusterings"); event("clusterings_with_ties", tie); eval(H(n, k, dims, shape, round), n > 1);
  }
}
namespace {
using Rows = std::vector<std::vector<int>>;   // column 0 is the label
struct TreeCheck {
  const Rows& rows; const std::vector<int>& num; const std::vector<bool>& disc; size_t nodes = 0, leaves = 0; std::string bad{};
  double ent(const std::vector<size_t>& c) { size_t t = 0; for (size_t x : c) t += x; double e = 0; for (size_t x : c) if (x) e -= static_cast<double>(x) * std::log2(static_cast<double>(x) / static_cast<double>(t)); return e; }
  double cost(const std::vector<size_t>& at, size_t f, int cut) {   // conditional information of the label given feature f (cut or by value)
    std::vector<std::vector<size_t>> c(static_cast<size_t>(cut < 0 ? num[f] : 2), std::vector<size_t>(static_cast<size_t>(num[0]))); for (size_t r : at) c[static_cast<size_t>(cut < 0 ? rows[r][f] : rows[r][f] >= cut)][static_cast<size_t>(rows[r][0])]++;
    double e = 0; for (auto& x : c) e += ent(x); return e;
  }
  size_t walk(ex_dt::tree* t, const std::vector<size_t>& at) {
    nodes++; size_t n = at.size(), F = num.size(); std::vector<size_t> c(static_cast<size_t>(num[0])); for (size_t r : at) c[static_cast<size_t>(rows[r][0])]++;
    size_t top = c.empty() ? 0 : *std::max_element(c.begin(), c.end());
    if (n == 0 ? t->best != -1 : (t->best < 0 || t->best >= num[0] || c[static_cast<size_t>(t->best)] != top)) bad = "a node's label is not the most frequent one";
    bool pure = n < 2 || top == n; double tol = 1e-5 * static_cast<double>(n + 1) + 1e-4, best = 1e300;
    if (!pure) for (size_t f = 1; f < F; f++) { if (disc[f]) best = std::min(best, cost(at, f, -1)); else for (int k = 1; k < num[f]; k++) best = std::min(best, cost(at, f, k)); }
    double gain = ent(c) - best, thr = std::log2(static_cast<double>(F));
    if (t->is_leaf) { leaves++; if (!pure && gain > thr + tol) bad = "a leaf although a split pays"; if (t->size != 1) bad = "size of a leaf"; return 1; }
    if (pure || gain < thr - tol) { bad = "a split that does not pay"; return t->size; }
    size_t f = static_cast<size_t>(t->feature_index) + 1; if (f < 1 || f >= F) { bad = "split on no feature"; return t->size; }
    int cut = t->feature_cut; if (disc[f] ? cut != -1 : (cut < 1 || cut >= num[f])) { bad = "impossible cut"; return t->size; }
    if (cost(at, f, disc[f] ? -1 : cut) > best + tol) bad = "not the best split";
    size_t m = disc[f] ? static_cast<size_t>(num[f]) : 2; if (t->children.size() != m) { bad = "number of children"; return t->size; }
    std::vector<std::vector<size_t>> part(m); for (size_t r : at) part[static_cast<size_t>(disc[f] ? rows[r][f] : rows[r][f] >= cut)].push_back(r);
    size_t s = 0; for (size_t i = 0; i < m; i++) s += walk(t->children[i], part[i]);
    if (s != t->size) bad = "size of a tree"; return s;
  }
};
int classify(ex_dt::tree* t, const std::vector<int>& row) {   // row without the label
  if (t->is_leaf) return t->best; int v = row[static_cast<size_t>(t->feature_index)]; size_t i = t->feature_cut == -1 ? static_cast<size_t>(v) : v >= t->feature_cut;
  if (i >= t->children.size()) return t->best; int r = classify(t->children[i], row); return r == -1 ? t->best : r;
}
void drop(ex_dt::tree* t) { for (auto* c : t->children) drop(c); delete t; }
}
CASE("decision trees") {
  for (size_t round = 0, R = rounds(200); round < R; round++) {
    size_t n = rng.chance(1, 20) ? 0 : 1 + len(rng, 1500), F = 1 + rng.below(6); std::vector<int> num(F); std::vector<bool> disc(F); Rows rows(n, std::vector<int>(F)); size_t shape = rng.below(4);
    for (size_t f = 0; f < F; f++) { disc[f] = f == 0 || rng.chance(1, 2); int top = 1 + static_cast<int>(rng.below(f == 0 ? 5 : rng.chance(1, 5) ? 200 : 12)); for (auto& r : rows) r[f] = static_cast<int>(rng.below(static_cast<size_t>(top))); }
    if (shape && F > 1) for (auto& r : rows) { int want = shape == 1 ? r[1] > 4 : shape == 2 ? (r[1] + r[F - 1]) % 3 : (r[F - 1] * 7 / 5) % 4; if (!rng.chance(1, 10)) r[0] = want; }
    for (size_t f = 0; f < F; f++) { num[f] = 1; for (auto& r : rows) num[f] = std::max(num[f], r[f] + 1); }
    ex_dt::features A; for (size_t f = 0; f < F; f++) { ex_dt::row v(n); for (size_t i = 0; i < n; i++) v[i] = static_cast<unsigned char>(rows[i][f]); A.push_back(ex_dt::feature(disc[f], num[f], v)); }
    auto* T = ex_dt::build_tree(A); TreeCheck tc{rows, num, disc}; std::vector<size_t> all(n); for (size_t i = 0; i < n; i++) all[i] = i; tc.walk(T, all);
    VF_CHECK(tc.bad.empty(), "decision_tree", "%zu rows of %zu columns, shape %zu: %s (%zu nodes)", n, F, shape, tc.bad.c_str(), tc.nodes);
    if (tc.bad.empty() && n > 0) {
      std::vector<std::vector<int>> q; for (size_t i = 0; i < 300; i++) { std::vector<int> x(F - 1); for (size_t f = 1; f < F; f++) x[f - 1] = rng.chance(1, 2) ? rows[rng.below(n)][f] : static_cast<int>(rng.below(256)); q.push_back(x); }
      ex_dt::rows qs(q.size()); for (size_t i = 0; i < q.size(); i++) { qs[i] = ex_dt::row(F - 1); for (size_t f = 0; f + 1 < F; f++) qs[i][f] = static_cast<unsigned char>(q[i][f]); }
      auto got = ex_dt::classify(T, qs); size_t wrong = got.size() != q.size(); for (size_t i = 0; i < q.size() && !wrong; i++) wrong += got[i] != static_cast<unsigned char>(classify(T, q[i]));
      VF_CHECK(!wrong, "decision_tree:classify", "%zu rows of %zu columns: a row is classified against the tree", n, F);
    }
    event("decision_nodes", tc.nodes); event("trees"); drop(T); eval(H(n, F, shape, round), tc.nodes > 1);
  }
  sample("rows with up to 5 features, discrete and continuous, random or determined labels");
}
// the objective reached, in one worker (the columns race by design), is close to the optimum
CASE("lasso regression") {
  size_t R = rounds(200);
  for (size_t round = 0; round < R; round++) {
    size_t nx = 1 + rng.below(25), ny = nx * 2 + rng.below(60); ex_la::sparse_matrix AT(nx); std::vector<double> truth(nx); for (auto& t : truth) t = rng.chance(1, 2) ? 0 : uni(rng, -3, 3);
    size_t empty = rng.chance(1, 4) ? rng.below(nx) : nx;
    ex_la::vector y(ny, 0.0); for (size_t i = 0; i < nx; i++) { if (i == empty) continue; for (size_t j = 0; j < ny; j++) if (rng.chance(1, 3) || j == i) { double v = uni(rng, 0.2, 1) * (rng.chance(1, 2) ? 1 : -1); AT[i].push_back({static_cast<long>(j), v}); y[j] += v * truth[i]; } }
    for (auto& v : y) v += uni(rng, -0.3, 0.3);
    double lambda = rng.chance(1, 8) ? 1e6 : uni(rng, 0.05, 4);
    auto obj = [&](const std::vector<double>& x) { std::vector<double> r(ny); double o = 0; for (size_t j = 0; j < ny; j++) r[j] = -y[j]; for (size_t i = 0; i < nx; i++) { o += lambda * std::fabs(x[i]); for (auto& e : AT[i]) r[static_cast<size_t>(e.idx)] += e.value * x[i]; } for (double v : r) o += v * v; return o; };
    std::vector<double> x(nx), r(ny); for (size_t j = 0; j < ny; j++) r[j] = y[j];   // cyclic coordinate descent
    for (size_t it = 0; it < 4000; it++) { double ch = 0; for (size_t i = 0; i < nx; i++) { double a = 0, b = 0; for (auto& e : AT[i]) { a += e.value * e.value; b += e.value * r[static_cast<size_t>(e.idx)]; } if (a == 0) continue; double z = b + a * x[i], nv = z > lambda / 2 ? (z - lambda / 2) / a : z < -lambda / 2 ? (z + lambda / 2) / a : 0, d = nv - x[i]; if (d != 0) { for (auto& e : AT[i]) r[static_cast<size_t>(e.idx)] -= e.value * d; x[i] = nv; } ch = std::max(ch, std::fabs(d)); } if (ch < 1e-10) break; }
    double want = obj(x), got = -1; std::string out;
    { Quiet q; parlay::execute_with_scheduler(1, [&] { ex_la::solve_lasso(AT, y, lambda, -1.0); }); out = q.s.str(); }
    bool parsed = sscanf(out.c_str(), "objective = %lf", &got) == 1;
    VF_CHECK(parsed && got >= want - 1e-3 * (1 + want) && got <= want * 1.02 + 0.05, "lasso", "%zu features%s, %zu samples, lambda %g: optimum %g, %s", nx, empty < nx ? " (one always 0)" : "", ny, lambda, want, out.c_str());
    event("regressions"); eval(H(nx, ny, lambda, round));
  }
}
#elif VF_PART == 2
namespace ex_nb {
#include "helper/spherical.h"
#include "nbody_fmm.h"
}
namespace ex_rt {
#include "ray_trace.h"
parlay::type_allocator<tree_node> tree_node::node_allocator;
}
// forces against the sum over all pairs
CASE("n-body forces") {
  for (size_t round = 0, R = rounds(16); round < R; round++) {
    size_t n = round == 0 ? 1 : 1 + (rng.chance(1, 3) ? rng.below(300) : rng.below(5000)), shape = rng.below(8); parlay::sequence<ex_nb::particle> P(n); std::vector<std::array<double, 3>> mid(5); for (auto& m : mid) for (auto& x : m) x = uni(rng, -1, 1);
    double far = rng.chance(1, 3) ? 100 : 1;
    for (auto& p : P) { std::array<double, 3> c; auto& m = mid[rng.below(5)]; for (size_t d = 0; d < 3; d++) c[d] = shape == 0 ? uni(rng, -1, 1) : shape == 1 ? m[d] * far + uni(rng, -.05, .05) : shape == 2 ? (d == 2 ? 0.25 : uni(rng, -1, 1)) : shape == 3 ? (d ? 0.5 : uni(rng, -1, 1)) : shape == 4 ? std::pow(uni(rng, 0, 1), 4) : m[d] + uni(rng, -1, 1) * std::pow(10.0, -static_cast<double>(rng.below(4)));
      if (shape == 6 && rng.chance(1, 60)) for (auto& x : c) x = uni(rng, -60, 60);   // far away on its own
      if (shape == 7) { size_t i = static_cast<size_t>(&p - P.begin()); c = {static_cast<double>(i % 16), static_cast<double>(i / 16 % 16), static_cast<double>(i / 256)}; if (n > 250 && i < n / 2) c[2] -= 40; }   // on grids
      p.pt = ex_nb::point3d(c[0], c[1], c[2]); p.mass = shape == 5 && rng.chance(1, 2) ? -uni(rng, 0.1, 1) : uni(rng, 0.1, 1); p.force = ex_nb::vect3d(); }
    { Quiet q; ex_nb::forces(P, ALPHA); }
    double err2 = 0, worst = 0; size_t checked = std::min<size_t>(n, 400); bool nan = false;
    for (size_t k = 0; k < checked; k++) { size_t i = n <= 400 ? k : rng.below(n); double f[3] = {0, 0, 0}, mag = 0; for (size_t j = 0; j < n; j++) if (j != i) { double v[3], r2 = 0; for (int d = 0; d < 3; d++) { v[d] = P[j].pt[d] - P[i].pt[d]; r2 += v[d] * v[d]; } double s = P[i].mass * P[j].mass / (r2 * std::sqrt(r2)); for (int d = 0; d < 3; d++) f[d] += v[d] * s; mag += std::fabs(s) * std::sqrt(r2); }
      double e = 0; for (int d = 0; d < 3; d++) e += (f[d] - P[i].force[d]) * (f[d] - P[i].force[d]); e = std::sqrt(e) / (mag > 0 ? mag : 1); if (!std::isfinite(e)) nan = true; err2 += e * e; worst = std::max(worst, e); }
    double rms = std::sqrt(err2 / static_cast<double>(checked));
    VF_CHECK(!nan && rms < (shape == 6 ? 1e-3 : 2e-5) && worst < (shape == 6 ? 2e-2 : 1e-3), "nbody", "%zu particles, shape %zu: rms error %g, worst %g%s", n, shape, rms, worst, nan ? ", not finite" : "");
    if (getenv("VF_SHOW")) fprintf(stderr, "nbody n=%zu shape %zu rms %g worst %g\n", n, shape, rms, worst);
    event("particles", n); eval(H(n, shape, round), n > 1);
  }
  sample("bodies in cubes, clusters, planes, lines and clusters of clusters");
}
// the first triangle of each ray against all triangles
CASE("ray casting") {
  size_t hits = 0;
  for (size_t round = 0, R = rounds(80); round < R; round++) {
    size_t n = 1 + len(rng, 1500), m = 400, shape = rng.below(3); auto co = [&](long lo, long hi) { return static_cast<double>(rng.range(lo * 64, hi * 64)) / 64.0; };
    ex_rt::Triangles T(n); long sz = shape == 0 ? 2 : shape == 1 ? 20 : 100;
    for (auto& t : T) { std::array<double, 3> o{co(0, 100), co(0, 100), co(0, 100)}; for (auto& p : t) p = ex_rt::point3d(o[0] + co(0, sz), o[1] + co(0, sz), o[2] + co(0, sz)); }
    ex_rt::Rays rays(m); bool inside = rng.chance(1, 3);
    for (auto& r : rays) { double o[3], d[3]; for (int k = 0; k < 3; k++) o[k] = inside ? uni(rng, 0, 100) : uni(rng, -150, 250); auto& t = T[rng.below(n)]; bool aim = rng.chance(2, 3); double a = uni(rng, 0, 1), b = uni(rng, 0, 1 - a); for (int k = 0; k < 3; k++) { double tgt = aim ? t[0][k] + a * (t[1][k] - t[0][k]) + b * (t[2][k] - t[0][k]) : uni(rng, 0, 100); d[k] = tgt - o[k]; if (d[k] == 0) d[k] = 0.5; } r = {ex_rt::point3d(o[0], o[1], o[2]), ex_rt::vect3d(d[0], d[1], d[2])}; }
    auto got = ex_rt::ray_cast(T, rays); VF_CHECK(got.size() == m, "ray_cast:length", "%zu results for %zu rays", got.size(), m);
    for (size_t i = 0; i < m && i < got.size(); i++) {
      auto& [o, d] = rays[i]; double best = 1e300, tg = -1; bool touch = false;
      for (size_t j = 0; j < n; j++) {   // solve o + t d = a + u e1 + v e2 by Cramer's rule
        double e1[3], e2[3], s[3], D[3]; for (int k = 0; k < 3; k++) { e1[k] = T[j][1].a[static_cast<size_t>(k)] - T[j][0].a[static_cast<size_t>(k)]; e2[k] = T[j][2].a[static_cast<size_t>(k)] - T[j][0].a[static_cast<size_t>(k)]; s[k] = o.a[static_cast<size_t>(k)] - T[j][0].a[static_cast<size_t>(k)]; D[k] = -d.a[static_cast<size_t>(k)]; }
        auto det3 = [](const double* a, const double* b, const double* c) { return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]); };
        double det = det3(D, e1, e2); if (std::fabs(det) < 1e-7) continue; double t = det3(s, e1, e2) / det, u = det3(D, s, e2) / det, v = det3(D, e1, s) / det, w = 1 - u - v, in = std::min({u, v, w});
        if (in < -1e-6 || t < -1e-6) continue;   // missed, or touched
        if (static_cast<int>(j) == got[i]) { tg = t; touch = true; }
        if (std::fabs(det) > 1e-6 && in > 1e-6 && t > 1e-6) best = std::min(best, t);
      }
      if (got[i] == -1) { if (best < 1e299) { fail("ray_cast:missed", "%zu triangles of size %ld: a ray passes through a triangle at %.9g of its direction", n, sz, best); break; } }
      else if (got[i] < 0 || static_cast<size_t>(got[i]) >= n || !touch) { fail("ray_cast:wrong", "%zu triangles of size %ld: the ray does not meet triangle %d", n, sz, got[i]); break; }
      else { hits++; if (best < tg - 1e-6) { fail("ray_cast:later", "%zu triangles of size %ld: triangle %d at %.9g, another at %.9g", n, sz, got[i], tg, best); break; } }
    }
    event("rays", m); eval(H(n, shape, inside, round));
  }
  event("ray_hits", hits);
}
#else
#include "helper/graph_utils.h"
using Adj = std::vector<std::vector<int>>;
using GU = graph_utils<int>;
static GU::graph G_of(const Adj& a) { return parlay::tabulate(a.size(), [&](size_t i) { return parlay::sequence<int>(a[i].begin(), a[i].end()); }); }
static Adj A_of(const GU::graph& g) { Adj a(g.size()); for (size_t i = 0; i < g.size(); i++) a[i].assign(g[i].begin(), g[i].end()); return a; }
static Adj sorted(Adj a) { for (auto& x : a) std::sort(x.begin(), x.end()); return a; }
static Adj random_graph(Rng& r, bool simple) {   // self loops and repeated edges unless simple
  size_t n = 1 + len(r, 2000), m = r.chance(1, 6) ? 0 : r.below(1 + n * (1 + r.below(8))); bool skew = r.chance(1, 4); Adj a(n); std::set<std::pair<size_t, size_t>> seen;
  for (size_t i = 0; i < m; i++) { size_t u = skew ? r.below(1 + r.below(n)) : r.below(n), v = skew ? r.below(1 + r.below(n)) : r.below(n); if (simple && (u == v || !seen.insert({u, v}).second)) continue; a[u].push_back(static_cast<int>(v)); }
  return a;
}
static Adj symmetric(const Adj& g) { std::vector<std::set<int>> s(g.size()); for (size_t u = 0; u < g.size(); u++) for (int v : g[u]) if (static_cast<int>(u) != v) { s[u].insert(v); s[static_cast<size_t>(v)].insert(static_cast<int>(u)); } Adj a; for (auto& x : s) a.emplace_back(x.begin(), x.end()); return a; }
CASE("graph transformations") {
  for (size_t round = 0, R = rounds(60); round < R; round++) {
    Adj a = random_graph(rng, rng.chance(1, 2)); size_t n = a.size(), m = 0; auto G = G_of(a); Adj t(n); std::vector<std::pair<int, int>> es; for (size_t u = 0; u < n; u++) for (int v : a[u]) { t[static_cast<size_t>(v)].push_back(static_cast<int>(u)); es.push_back({static_cast<int>(u), v}); m++; }
    VF_CHECK(A_of(GU::transpose(G)) == t, "graph:transpose", "n=%zu m=%zu", n, m);
    VF_CHECK(sorted(A_of(GU::symmetrize(G))) == symmetric(a), "graph:symmetrize", "n=%zu m=%zu", n, m);
    auto E = GU::to_edges(G); VF_CHECK((std::vector<std::pair<int, int>>(E.begin(), E.end()) == es), "graph:to_edges", "n=%zu m=%zu", n, m);
    VF_CHECK(sorted(A_of(GU::symmetrize(E, static_cast<long>(n)))) == symmetric(a), "graph:symmetrize-edges", "n=%zu m=%zu", n, m);
    if (m) { long top = 0; for (auto [u, v] : es) top = std::max<long>(top, std::max(u, v)); VF_CHECK(GU::num_vertices(E) == top + 1, "graph:num_vertices", "n=%zu m=%zu", n, m); }
    auto W = GU::add_weights<float>(E); bool ok = W.size() == m; std::map<std::pair<int, int>, float> w; for (size_t i = 0; i < m && ok; i++) { auto [u, v, x] = W[i]; ok = u == es[i].first && v == es[i].second && x >= 0 && x <= 1; auto [it, fresh] = w.insert({{std::min(u, v), std::max(u, v)}, x}); if (!fresh) ok = ok && it->second == x; }
    VF_CHECK(ok, "graph:weights", "n=%zu m=%zu", n, m);
    int lo = static_cast<int>(rng.range(-5, 5)), hi = lo + static_cast<int>(rng.below(100)); auto WG = GU::add_weights<int>(G, lo, hi); ok = WG.size() == n; std::map<std::pair<int, int>, int> wi; for (size_t u = 0; u < n && ok; u++) { ok = WG[u].size() == a[u].size(); for (size_t i = 0; i < a[u].size() && ok; i++) { auto [v, x] = WG[u][i]; ok = v == a[u][i] && x >= lo && x <= hi; auto [it, fresh] = wi.insert({{std::min<int>(static_cast<int>(u), v), std::max<int>(static_cast<int>(u), v)}, x}); if (!fresh) ok = ok && it->second == x; } }
    VF_CHECK(ok, "graph:int-weights", "n=%zu m=%zu", n, m);
    auto M = GU::to_normalized_matrix(G); std::vector<double> col(n); ok = M.size() == n; std::vector<size_t> deg(n); for (auto [u, v] : es) deg[static_cast<size_t>(v)]++; for (size_t u = 0; u < n && ok; u++) { ok = M[u].size() == a[u].size(); for (size_t i = 0; i < a[u].size() && ok; i++) { ok = M[u][i].first == a[u][i]; col[static_cast<size_t>(M[u][i].first)] += static_cast<double>(M[u][i].second); } } for (size_t v = 0; v < n && ok; v++) ok = std::fabs(col[v] - (deg[v] ? 1.0 : 0.0)) < 1e-3;
    VF_CHECK(ok, "graph:normalised", "n=%zu m=%zu", n, m);
    event("graphs"); event("edges", m); eval(H(n, m, round), m > 0);
  }
}
CASE("generated graphs") {
  for (size_t round = 0, R = rounds(12); round < R; round++) {
    long lg = 1 + static_cast<long>(rng.below(10)), n = 1l << lg, m = static_cast<long>(rng.below(8 * static_cast<size_t>(n))) + 2;
    auto e = GU::rmat_edges(static_cast<int>(n), m); std::set<std::pair<int, int>> s(e.begin(), e.end()); bool ok = s.size() == e.size() && static_cast<long>(e.size()) <= m && !e.empty(); for (auto [u, v] : e) ok = ok && u >= 0 && v >= 0 && u < n && v < n; VF_CHECK(ok, "graph:rmat_edges", "n=%ld m=%ld: %zu edges, %zu different", n, m, e.size(), s.size());
    auto g = GU::rmat_symmetric_graph(n, m); Adj a = A_of(g); VF_CHECK(g.size() == static_cast<size_t>(n) && sorted(a) == symmetric(a), "graph:rmat_symmetric", "n=%ld m=%ld", n, m);
    auto d = GU::rmat_graph(n, m); size_t cnt = 0; for (auto& x : d) for (int v : x) { cnt++; ok = ok && v >= 0 && v < n; } VF_CHECK(d.size() == static_cast<size_t>(n) && cnt == s.size() && ok, "graph:rmat_graph", "n=%ld m=%ld: %zu edges of %zu", n, m, cnt, s.size());
    long q = 3 + static_cast<long>(rng.below(40)); auto gr = GU::grid_graph(q * q); Adj want(static_cast<size_t>(q * q)); for (long u = 0; u < q * q; u++) for (long v = 0; v < q * q; v++) if (u != v && std::labs(u / q - v / q) < 2 && std::labs(u % q - v % q) < 2) want[static_cast<size_t>(u)].push_back(static_cast<int>(v));
    VF_CHECK(sorted(A_of(gr)) == want, "graph:grid", "%ld by %ld", q, q);
    event("graphs", 4); eval(H(n, m, q));
  }
}
CASE("graph files") {
  char dn[] = "/tmp/vf_gr_XXXXXX"; std::string dir = mkdtemp(dn), f = dir + "/g";
  for (size_t round = 0, R = rounds(25); round < R; round++) {
    Adj a = random_graph(rng, rng.chance(1, 2)); size_t n = a.size(), m = 0; for (auto& x : a) m += x.size(); auto G = G_of(a);
    GU::write_graph_to_file(G, f); VF_CHECK(A_of(GU::read_graph_from_file(f)) == sorted(a), "graph:file", "n=%zu m=%zu", n, m);
    Adj s = symmetric(a); auto SG = G_of(s); GU::write_symmetric_graph_to_file(SG, f); VF_CHECK(sorted(A_of(GU::read_symmetric_graph_from_file(f))) == s, "graph:symmetric-file", "n=%zu m=%zu", n, m);
    std::ofstream o(f); o << "AdjacencyGraph\n" << n << "\n" << m << "\n"; size_t off = 0; for (auto& x : a) { o << off << "\n"; off += x.size(); } for (auto& x : a) for (int v : x) o << v << "\n"; o.close();
    VF_CHECK(A_of(GU::read_graph_from_file_pbbs(f)) == a, "graph:pbbs-file", "n=%zu m=%zu", n, m);
    event("graph_files", 3); eval(H(n, m, round), m > 0);
  }
  unlink(f.c_str()); rmdir(dir.c_str());
}
#endif
