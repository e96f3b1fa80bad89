// P20: reproducibility of random numbers, shuffles and permutations; every digest must be the same in every
// build and with every worker count (compared between the runs by check.py).
#include "gen.h"
#include <cmath>
#include <random>
#include <parlay/random.h>
#include <parlay/primitives.h>
using namespace vf;

namespace {
const size_t kSizes[] = {0, 1, 2, 3, 5, 64, 100, 1000, 1024, 8191, 8192, 8193, 10000, 16384, 40000, 70000};
struct Rec { uint64_t k; std::array<char, 40> pad; };
template <class T> T mk(uint64_t i) { if constexpr (std::is_same_v<T, std::string>) return "element number " + std::to_string(i); else if constexpr (std::is_same_v<T, Rec>) { Rec r; r.k = i; r.pad.fill(static_cast<char>(i)); return r; } else return T(static_cast<int64_t>(i)); }
template <class T> uint64_t un(const T& x) { if constexpr (std::is_same_v<T, std::string>) return std::stoull(x.substr(15)); else if constexpr (std::is_same_v<T, Rec>) return x.pad[39] == static_cast<char>(x.k) ? x.k : ~uint64_t{0}; else if constexpr (std::is_same_v<T, TrackedCopy> || std::is_same_v<T, TrackedBig>) return static_cast<uint64_t>(x.get()); else return static_cast<uint64_t>(x); }

// the output as the source positions of its elements; reports anything that is not a permutation
template <class S> std::vector<uint32_t> source(const S& s, size_t n, const char* what) {
  std::vector<uint32_t> p; p.reserve(n); std::vector<char> seen(n, 0);
  if (s.size() != n) { fail(std::string("shuffle:size:") + what, "%zu elements out of %zu", static_cast<size_t>(s.size()), n); return p; }
  for (auto&& x : s) {
    uint64_t k = un(x);
    if (k >= n || seen[k]) { fail(std::string("shuffle:not-a-permutation:") + what, "n=%zu: %s element %llu at position %zu", n, k >= n ? "foreign" : "repeated", static_cast<unsigned long long>(k), p.size()); return {}; }
    seen[k] = 1; p.push_back(static_cast<uint32_t>(k));
  }
  event("permutations"); return p;
}
uint64_t hv(const std::vector<uint32_t>& p) { uint64_t h = p.size(); for (auto x : p) h = mix(h ^ x); return h; }

// spread of a permutation of many elements: every statistic is a function of the (fixed) seed, so there is no luck involved
void spread(const std::vector<uint32_t>& p, const char* what, uint64_t seed) {
  size_t n = p.size(); if (n < 1000) return;
  constexpr size_t G = 16; std::array<std::array<double, G>, G> c{};
  size_t fixed = 0, adj = 0; double disp = 0;
  for (size_t i = 0; i < n; i++) {
    c[i * G / n][p[i] * G / n]++;
    if (p[i] == i) fixed++;
    if (i && (p[i] == p[i - 1] + 1 || p[i] + 1 == p[i - 1])) adj++;
    disp += std::abs(static_cast<double>(p[i]) - static_cast<double>(i));
  }
  double e = static_cast<double>(n) / (G * G), chi = 0;
  for (auto& r : c) for (double x : r) chi += (x - e) * (x - e) / e;
  VF_CHECK(chi < 500, std::string("shuffle:spread:") + what, "n=%zu seed %llu: chi-square of source block by target block is %.0f (about 225 expected)", n, static_cast<unsigned long long>(seed), chi);
  VF_CHECK(fixed < 20, std::string("shuffle:fixed-points:") + what, "n=%zu seed %llu: %zu elements stayed in place (1 expected)", n, static_cast<unsigned long long>(seed), fixed);
  VF_CHECK(adj < 30, std::string("shuffle:runs:") + what, "n=%zu seed %llu: %zu neighbours stayed neighbours (2 expected)", n, static_cast<unsigned long long>(seed), adj);
  disp /= static_cast<double>(n) * static_cast<double>(n);
  VF_CHECK(disp > 0.30 && disp < 0.37, std::string("shuffle:displacement:") + what, "n=%zu seed %llu: mean displacement %.3f n (0.333 expected)", n, static_cast<unsigned long long>(seed), disp);
  event("spread_checks");
}
template <class T> void shuffles(const char* type, std::initializer_list<size_t> sizes) {
  for (size_t n : sizes) for (uint64_t seed : {0ull, 1ull, 77777ull}) {
    uint64_t h;
    {
      auto in = parlay::tabulate(n, [](size_t i) { return mk<T>(i); });
      auto out = parlay::random_shuffle(in, parlay::random(seed));
      auto p = source(out, n, type); h = hv(p); spread(p, type, seed);
      for (size_t i = 0; i < n; i++) if (un(in[i]) != i) { fail("shuffle:input-changed", "%s n=%zu: the input was changed at %zu", type, n, i); break; }
      // the same again: from a view of the input, from inside a parallel loop
      auto out2 = parlay::random_shuffle(parlay::make_slice(in), parlay::random(seed));
      VF_CHECK(hv(source(out2, n, type)) == h, "shuffle:not-reproducible", "%s n=%zu seed %llu: two calls differ", type, n, static_cast<unsigned long long>(seed));
    }
    digest(std::string(type) + " n=" + std::to_string(n) + " seed=" + std::to_string(seed), h);
    eval(H(n, seed, hash_str(type)), n > 1);
  }
  LifeMon::get().expect_none("a shuffle");
}
}  // namespace

CASE("shuffles of every length around the thresholds") {
  for (size_t n : kSizes) for (uint64_t seed = 0; seed < 6; seed++) {
    auto id = parlay::tabulate(n, [](size_t i) { return static_cast<uint32_t>(i); });
    auto p = source(parlay::random_shuffle(id, parlay::random(seed)), n, "uint32");
    spread(p, "uint32", seed);
    digest("n=" + std::to_string(n) + " seed=" + std::to_string(seed), hv(p));
    // an outer loop of shuffles gives the same as the lone call
    if (n <= 20000) {
      std::vector<parlay::sequence<uint32_t>> many(5);
      parlay::parallel_for(0, 5, [&](size_t i) { many[i] = parlay::random_shuffle(id, parlay::random(seed)); }, 1);
      for (auto& s : many) VF_CHECK(first_diff(s, p) < 0, "shuffle:nested-differs", "n=%zu seed %llu: a shuffle inside a parallel loop differs from the lone call", n, static_cast<unsigned long long>(seed));
    }
    // other ranges over the same elements
    auto d = parlay::delayed_tabulate(n, [](size_t i) { return static_cast<uint32_t>(i); });
    VF_CHECK(first_diff(parlay::random_shuffle(d, parlay::random(seed)), p) < 0, "shuffle:range-kind", "n=%zu seed %llu: a delayed range is shuffled differently", n, static_cast<unsigned long long>(seed));
    std::vector<uint32_t> v(id.begin(), id.end());
    VF_CHECK(first_diff(parlay::random_shuffle(v, parlay::random(seed)), p) < 0, "shuffle:range-kind", "n=%zu seed %llu: a vector is shuffled differently", n, static_cast<unsigned long long>(seed));
    eval(H(n, seed), n > 1);
    // more rounds with drawn seeds, not digested
  }
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    size_t n = pick_size(rng, maxn(60000, 400000)); uint64_t seed = rng.next();
    auto id = parlay::tabulate(n, [](size_t i) { return static_cast<uint32_t>(i); });
    auto a = parlay::random_shuffle(id, parlay::random(seed)), b = parlay::random_shuffle(id, parlay::random(seed));
    auto p = source(a, n, "uint32"); spread(p, "uint32", seed);
    VF_CHECK(a == b, "shuffle:not-reproducible", "uint32 n=%zu seed %llu: two calls differ", n, static_cast<unsigned long long>(seed));
    eval(H(n, seed, 1), n > 1);
  }
}
CASE("shuffles of other element types") {
  shuffles<std::string>("string", {2, 100, 8191, 8192, 20000});
  shuffles<Rec>("record", {3, 1000, 8192, 30000});
  shuffles<TrackedCopy>("tracked", {1, 500, 8200});
  shuffles<TrackedBig>("trackedbig", {50, 8192});
  shuffles<char>("char", {0, 1, 2, 100});
  // repeated elements: the multiset is kept
  for (size_t k = 0, R = rounds(40); k < R; k++) {
    auto v = gen_keys(rng, pick_size(rng, maxn(40000, 200000)));
    auto s = parlay::random_shuffle(v, parlay::random(k));
    std::vector<uint64_t> a(v), b(s.begin(), s.end()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    VF_SAME(b, a, "shuffle:multiset", "n=%zu: the elements changed", v.size());
    eval(H(k, v.size(), 3), v.size() > 1); event("multisets");
  }
}
CASE("random permutations") {
  for (size_t n : kSizes) {
    auto h32 = hv(source(parlay::random_permutation(static_cast<uint32_t>(n)), n, "permutation"));
    auto h64 = hv(source(parlay::random_permutation(n), n, "permutation"));
    auto hint = hv(source(parlay::random_permutation(static_cast<int>(n)), n, "permutation"));
    auto hll = hv(source(parlay::random_permutation(static_cast<long long>(n), parlay::random(0)), n, "permutation"));
    VF_CHECK(h32 == h64 && h64 == hint && hint == hll, "permutation:type", "n=%zu: permutations of different integer types differ", n);
    digest("n=" + std::to_string(n), h64);
    for (uint64_t seed : {1ull, 2ull, 1ull << 40}) { auto p = source(parlay::random_permutation(n, parlay::random(seed)), n, "permutation"); spread(p, "permutation", seed);
      VF_CHECK(n < 30 || hv(p) != h64, "permutation:seed-ignored", "n=%zu: seeds 0 and %llu give the same permutation", n, static_cast<unsigned long long>(seed));
      digest("n=" + std::to_string(n) + " seed=" + std::to_string(seed), hv(p)); eval(H(n, seed, 9), n > 1); }
  }
  VF_CHECK(source(parlay::random_permutation(static_cast<unsigned char>(200)), 200, "permutation").size() == 200, "permutation:type", "unsigned char");
}
CASE("short shuffles reach every order") {
  // all orders of 2 to 5 elements over many seeds; seeds are fixed, so the outcome is
  for (size_t n = 2; n <= 5; n++) {
    size_t f = 1; for (size_t i = 2; i <= n; i++) f *= i;
    size_t R = f * 200; std::map<std::vector<uint32_t>, size_t> seen;
    for (size_t s = 0; s < R; s++) { auto p = source(parlay::random_permutation(static_cast<uint32_t>(n), parlay::random(s)), n, "short"); seen[p]++; }
    VF_CHECK(seen.size() == f, "shuffle:orders-missed", "%zu elements: %zu of %zu orders in %zu permutations", n, seen.size(), f, R);
    double chi = 0; for (auto& [p, c] : seen) chi += (static_cast<double>(c) - 200) * (static_cast<double>(c) - 200) / 200;
    chi += 200.0 * static_cast<double>(f - seen.size());
    VF_CHECK(chi < static_cast<double>(f) + 8 * std::sqrt(2.0 * static_cast<double>(f)) + 10, "shuffle:orders-uneven", "%zu elements: chi-square %.1f over %zu orders", n, chi, f);
    event("orders", seen.size()); eval(H(n, R, 5));
  }
  // every element reaches every position, for lengths on both sides of the threshold
  for (size_t n : {9000u, 300u}) {
    size_t R = n > 1000 ? 60 : 400; std::vector<std::array<uint32_t, 8>> to(8); for (auto& a : to) a.fill(0);
    for (size_t s = 0; s < R; s++) { auto p = parlay::random_permutation(n, parlay::random(mix(s))); for (size_t i = 0; i < n; i++) to[i * 8 / n][p[i] * 8 / n]++; }
    double e = static_cast<double>(n) * static_cast<double>(R) / 64, chi = 0;
    for (auto& a : to) for (auto x : a) chi += (x - e) * (x - e) / e;
    VF_CHECK(chi < 150, "shuffle:positions-uneven", "n=%zu over %zu seeds: chi-square %.1f", n, R, chi);
    eval(H(n, R, 6));
  }
}
CASE("generators: streams") {
  // random: the i-th number depends on seed and index only
  for (uint64_t seed : {0ull, 1ull, 2ull, 12345678901ull, ~0ull}) {
    parlay::random r(seed), r2(seed);
    uint64_t h = 0;
    std::vector<uint64_t> back(200), fwd(200);
    for (size_t i = 200; i-- > 0;) back[i] = r.ith_rand(i);
    for (size_t i = 0; i < 200; i++) { fwd[i] = r2[i]; h = mix(h ^ fwd[i]); }
    VF_SAME(fwd, back, "random:order", "seed %llu: ith_rand depends on the order of the calls", static_cast<unsigned long long>(seed));
    VF_CHECK(r.rand() == fwd[0] && r.rand() == fwd[0], "random:rand", "rand() is not the first number of the stream");
    digest("random " + std::to_string(seed), h);
    std::vector<uint64_t> par(5000), ser(5000);
    parlay::parallel_for(0, 5000, [&](size_t i) { par[i] = r.fork(i)[i % 7]; }, 1);
    for (size_t i = 0; i < 5000; i++) ser[i] = r.fork(i)[i % 7];
    VF_SAME(par, ser, "random:fork-order", "seed %llu: forked streams depend on the schedule", static_cast<unsigned long long>(seed));
    std::set<uint64_t> d(ser.begin(), ser.end());
    VF_CHECK(d.size() == 5000, "random:fork-collide", "seed %llu: %zu distinct numbers in 5000 forks", static_cast<unsigned long long>(seed), d.size());
    d.clear(); for (size_t i = 0; i < 5000; i++) d.insert(r[i]);
    VF_CHECK(d.size() == 5000, "random:collide", "seed %llu: %zu distinct numbers of 5000", static_cast<unsigned long long>(seed), d.size());
    VF_CHECK(r.next()[0] != r[0] && r.next()[0] == r2.next()[0] && r.fork(1)[0] != r.fork(2)[0], "random:next", "seed %llu: next() or fork() give the same stream", static_cast<unsigned long long>(seed));
    // a chain of next() does not run into a short cycle, and streams do not repeat one another shifted
    parlay::random c(seed); d.clear(); for (size_t i = 0; i < 2000; i++) { d.insert(c[0]); d.insert(c[1]); c = c.next(); }
    VF_CHECK(d.size() == 4000, "random:chain", "seed %llu: %zu distinct numbers in a chain of 2000 next()", static_cast<unsigned long long>(seed), d.size());
    eval(H(seed, 20)); event("streams", 5000);
  }
  // bits are balanced
  for (uint64_t seed : {0ull, 5ull}) {
    parlay::random r(seed); parlay::random_generator g(seed);
    std::array<size_t, 64> a{}, b{}, c{};
    for (size_t i = 0; i < 10000; i++) { uint64_t x = r[i], y = g(), z = parlay::random_generator(seed)[i](); for (size_t k = 0; k < 64; k++) { a[k] += (x >> k) & 1; b[k] += (y >> k) & 1; c[k] += (z >> k) & 1; } }
    for (size_t k = 0; k < 64; k++) for (size_t x : {a[k], b[k], c[k]}) VF_CHECK(x > 4700 && x < 5300, "random:bias", "seed %llu: bit %zu is set in %zu of 10000 numbers", static_cast<unsigned long long>(seed), k, x);
    eval(H(seed, 21));
  }
  // random_generator: deterministic engine, streams independent of the order in which they are made
  using G = parlay::random_generator;
  static_assert(std::is_same_v<G::result_type, size_t>);
  VF_CHECK(G::min() == 0 && G::max() == std::numeric_limits<size_t>::max(), "generator:range", "min/max");
  for (uint64_t seed : {0ull, 1ull, 99ull, ~0ull}) {
    G g(seed), g2; g2.seed(seed);
    uint64_t h = 0; std::set<uint64_t> d;
    for (size_t i = 0; i < 5000; i++) { auto x = g(); VF_CHECK(x == g2(), "generator:seed", "seed(%llu) differs from construction", static_cast<unsigned long long>(seed)); h = mix(h ^ x); d.insert(x); }
    VF_CHECK(d.size() == 5000, "generator:cycle", "seed %llu: %zu distinct numbers of 5000", static_cast<unsigned long long>(seed), d.size());
    digest("generator " + std::to_string(seed), h);
    // g has advanced: streams depend on the current state, not on how often streams were derived
    const G base = g; std::vector<uint64_t> par(4000), ser(4000);
    parlay::parallel_for(0, 4000, [&](size_t i) { auto s = base[i]; std::uniform_int_distribution<uint64_t> u(0, 1000000007); s(); par[i] = s() ^ u(s); }, 1);
    for (size_t i = 4000; i-- > 0;) { auto s = base[i]; std::uniform_int_distribution<uint64_t> u(0, 1000000007); s(); ser[i] = s() ^ u(s); }
    VF_SAME(par, ser, "generator:stream-order", "seed %llu: streams depend on the schedule", static_cast<unsigned long long>(seed));
    d = std::set<uint64_t>(ser.begin(), ser.end());
    VF_CHECK(d.size() == 4000, "generator:streams-collide", "seed %llu: %zu distinct numbers in 4000 streams", static_cast<unsigned long long>(seed), d.size());
    G a = base, b = base; auto ai = a[3]; (void)b[1]; (void)b[2]; auto bi = b[3];
    VF_CHECK(ai() == bi() && a() == b(), "generator:derive-side-effect", "deriving a stream changed the generator");
    G other(seed + 1); VF_CHECK(other() != G(seed)() && other[5]() != G(seed)[5](), "generator:seed-ignored", "seeds %llu and the next give the same numbers", static_cast<unsigned long long>(seed));
    h = 0; for (size_t i = 0; i < 4000; i++) h = mix(h ^ ser[i]); digest("generator streams " + std::to_string(seed), h);
    eval(H(seed, 22)); event("streams", 4000);
  }
  sample("5 seeds: 5000 forked streams each drawn in parallel and in order agree and are distinct");
}
CASE("seeds and elements matter") {
  for (size_t n : {50u, 1000u, 8192u, 30000u}) {
    std::set<uint64_t> d;
    for (uint64_t s = 0; s < 40; s++) d.insert(hv(source(parlay::random_permutation(n, parlay::random(s)), n, "seeds")));
    VF_CHECK(d.size() == 40, "shuffle:seed-ignored", "n=%zu: %zu distinct permutations from 40 seeds", n, d.size());
    d.clear(); parlay::random r(3);
    for (uint64_t s = 0; s < 40; s++) d.insert(hv(source(parlay::random_permutation(n, r.fork(s)), n, "seeds")));
    VF_CHECK(d.size() == 40, "shuffle:fork-ignored", "n=%zu: %zu distinct permutations from 40 forks", n, d.size());
    eval(H(n, 30)); event("seeds", 80);
  }
}
