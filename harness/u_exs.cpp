// P26: the example sequence, numeric, string and geometry algorithms against sequential computations (parts 1-3).
#include "gen.h"
#include <cmath>
#include <complex>
#include <deque>
#include <iostream>
#include <memory>
#include <optional>
#include <random>
#include <sstream>
#include <tuple>
#include <parlay/alloc.h>
#include <parlay/delayed.h>
#include <parlay/internal/get_time.h>
#include <parlay/io.h>
#include <parlay/parallel.h>
#include <parlay/primitives.h>
#include <parlay/random.h>
#include <parlay/sequence.h>
#include <parlay/utilities.h>
#include "helper/speculative_for.h"
#include "helper/heap_tree.h"

using vf::H; using vf::eval; using vf::event; using vf::rounds; using vf::Rng; using vf::sample;
template <class T> static parlay::sequence<T> S(const std::vector<T>& v) { return parlay::sequence<T>(v.begin(), v.end()); }
template <class R> static auto V(const R& r) { using T = std::decay_t<decltype(r[0])>; std::vector<T> v; for (size_t i = 0; i < static_cast<size_t>(r.size()); i++) v.push_back(r[i]); return v; }
static size_t len(Rng& r, size_t nmax) { size_t k = r.below(6); return k == 0 ? r.below(4) : k == 1 ? r.below(260) : k <= 3 ? r.below(3000) : r.below(nmax); }
static size_t NMAX() { return vf::thorough() ? 300000 : 40000; }
static std::vector<long> longs(Rng& r, size_t n) {   // duplicates, sorted runs, extremes
  std::vector<long> v(n); long range = r.chance(1, 3) ? 3 : r.chance(1, 2) ? 1 + static_cast<long>(n / 3) : std::numeric_limits<long>::max() / 2; size_t k = r.below(6);
  for (auto& x : v) x = r.range(-range, range);
  if (k == 0) std::sort(v.begin(), v.end()); if (k == 1) std::sort(v.rbegin(), v.rend()); if (k == 2 && n) std::fill(v.begin() + static_cast<long>(r.below(n)), v.end(), v[0]);
  return v;
}
template <class A, class B> static void same(const A& got, const B& want, const char* key, const char* what) {
  if (static_cast<size_t>(got.size()) != want.size()) { vf::fail(std::string(key) + ":length", "%s: %zu elements instead of %zu", what, static_cast<size_t>(got.size()), want.size()); return; }
  for (size_t i = 0; i < want.size(); i++) if (!(got[i] == want[i])) { vf::fail(std::string(key) + ":element", "%s: element %zu of %zu", what, i, want.size()); return; }
}

#if VF_PART == 1
namespace ex_ssort {
#include "samplesort.h"
}
namespace ex_qs {
#include "quicksort.h"
}
namespace ex_ms {
#include "mergesort.h"
}
namespace ex_pr {
#include "primes.h"
}
namespace ex_flt {
#include "filter.h"
}
namespace ex_fif {
#include "find_if.h"
}
namespace ex_fl {
#include "flatten.h"
}
namespace ex_red {
#include "reduce.h"
}
namespace ex_scan {
#include "scan.h"
}
namespace ex_sh {
#include "knuth_shuffle.h"
}
namespace ex_mc {
#include "mcss.h"
}
namespace ex_big {   // includes bigint_add.h
#include "karatsuba.h"
}
namespace ex_fft {
#include "fast_fourier_transform.h"
}
namespace ex_lf {
#include "linefit.h"
}
CASE("sorting") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    auto v = longs(rng, len(rng, NMAX())); auto up = v, down = v; std::sort(up.begin(), up.end()); std::sort(down.begin(), down.end(), std::greater<>());
    auto a = S(v); ex_ssort::sample_sort(a); same(a, up, "samplesort", "ascending"); a = S(v); ex_ssort::sample_sort(a, std::greater<>()); same(a, down, "samplesort", "descending");
    a = S(v); same(ex_qs::quicksort(a), up, "quicksort", "ascending"); a = S(v); same(ex_qs::quicksort(a, std::greater<>()), down, "quicksort", "descending");
    a = S(v); ex_ms::merge_sort(a); same(a, up, "mergesort", "ascending"); a = S(v); ex_ms::merge_sort(a, std::greater<>()); same(a, down, "mergesort", "descending");
    // strings, by length and then text
    auto w = rng.chance(1, 3) ? 4000 : rng.below(400); std::vector<std::string> s(w); for (auto& x : s) x = std::string(rng.below(4), static_cast<char>('a' + rng.below(3)));
    auto by = [](const std::string& x, const std::string& y) { return x.size() != y.size() ? x.size() < y.size() : x < y; }; auto want = s; std::sort(want.begin(), want.end(), by);
    auto b = S(s); ex_ms::merge_sort(b, by); same(b, want, "mergesort", "strings"); b = S(s); ex_ssort::sample_sort(b, by); same(b, want, "samplesort", "strings"); b = S(s); same(ex_qs::quicksort(b, by), want, "quicksort", "strings");
    event("sorts", 9); eval(H(v.size(), k), v.size() > 1);
  }
  sample("three sorts of numbers and strings, ascending and by another order, up to %zu elements", NMAX());
}
CASE("scan, reduce, filter, find, flatten") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    auto v = longs(rng, len(rng, NMAX())); for (auto& x : v) x %= 1000; auto a = S(v); long m = static_cast<long>(rng.below(40)) - 20;
    long sum = 0; std::vector<long> pre; for (long x : v) { pre.push_back(sum); sum += x; }
    VF_CHECK(ex_red::reduce(a, parlay::plus<long>()) == sum, "reduce", "n=%zu", v.size());
    { auto [p, t] = ex_scan::scan(a, parlay::plus<long>()); same(p, pre, "scan", "sums"); VF_CHECK(t == sum, "scan:total", "n=%zu", v.size()); }
    // an operation that does not commute: composition of affine maps modulo a prime
    using P = std::pair<long, long>; auto f = [](P x, P y) { return P(x.first * y.first % 10007, (x.second * y.first + y.second) % 10007); };
    auto b = parlay::map(a, [](long x) { return P(x % 97 + 100, x % 89 + 100); }); P acc(1, 0); std::vector<P> pp; for (size_t i = 0; i < b.size(); i++) { pp.push_back(acc); acc = f(acc, b[i]); }
    VF_CHECK(ex_red::reduce(b, parlay::binary_op(f, P(1, 0))) == acc, "reduce:order", "n=%zu", v.size());
    { auto [p, t] = ex_scan::scan(b, parlay::binary_op(f, P(1, 0))); same(p, pp, "scan", "affine maps"); VF_CHECK(t == acc, "scan:total", "affine maps, n=%zu", v.size()); }
    auto pred = [m](long x) { return x > m; }; std::vector<long> kept; for (long x : v) if (pred(x)) kept.push_back(x);
    same(ex_flt::filter(a, pred), kept, "filter", "numbers"); same(ex_flt::filter(parlay::delayed_tabulate(v.size(), [&](size_t i) { return v[i]; }), pred), kept, "filter", "delayed");
    { auto strs = parlay::map(a, [](long x) { return std::to_string(x) + " and then some more"; }); std::vector<std::string> ks; for (auto& x : strs) if (x[0] != '-') ks.push_back(x); same(ex_flt::filter(strs, [](const std::string& x) { return x[0] != '-'; }), ks, "filter", "strings"); }
    long at = static_cast<long>(std::find_if(v.begin(), v.end(), [m](long x) { return x == m; }) - v.begin());
    VF_CHECK(ex_fif::find_if(a, [m](long x) { return x == m; }) == at, "find_if", "n=%zu at %ld", v.size(), at);
    parlay::sequence<parlay::sequence<long>> nest(len(rng, 300)); std::vector<long> fl; for (auto& x : nest) { size_t c = rng.chance(1, 3) ? 0 : rng.chance(1, 20) ? 3000 : rng.below(20); for (size_t i = 0; i < c; i++) { x.push_back(static_cast<long>(i * 7 + c)); fl.push_back(static_cast<long>(i * 7 + c)); } }
    same(ex_fl::flatten(nest), fl, "flatten", "nested");
    event("sequences", 8); eval(H(v.size(), m, k), v.size() > 1);
  }
}
CASE("shuffle and maximum contiguous sum") {
  for (size_t k = 0, R = rounds(40); k < R; k++) {
    size_t n = len(rng, 20000); std::vector<long> w(n); std::iota(w.begin(), w.end(), 0l); auto a = S(w); ex_sh::random_shuffle(a);
    std::vector<long> seq(w); { auto gen = parlay::random_generator(0); for (size_t i = 0; i < n; i++) { auto r = gen[i]; std::swap(seq[i], seq[r() % (i + 1)]); } }
    { auto s = V(a); std::sort(s.begin(), s.end()); VF_CHECK(s == w, "shuffle:permutation", "n=%zu", n); } same(a, seq, "shuffle:sequential order", "swaps in increasing order");
    std::vector<int> v(1 + len(rng, 20000)); int lo = rng.chance(1, 5) ? -100 : rng.chance(1, 5) ? 0 : -50; for (auto& x : v) x = static_cast<int>(rng.chance(1, 30) ? rng.range(-2000000000l, 2000000000l) : rng.range(lo, lo == -100 ? -1 : 50));
    long best = std::numeric_limits<long>::min(), cur = 0; for (int x : v) { cur = std::max(cur, 0l) + x; best = std::max(best, cur); }
    long got = ex_mc::mcss(S(v)); VF_CHECK(got == best, "mcss", "n=%zu: %ld instead of %ld", v.size(), got, best);
    event("sequences", 2); eval(H(n, v.size(), k), n > 1);
  }
}
CASE("primes and lines") {
  std::vector<long> ps; std::vector<char> comp(200001, 0); for (long i = 2; i <= 200000; i++) { if (!comp[i]) ps.push_back(i); for (long j = 2 * i; j <= 200000 && !comp[i]; j += i) comp[j] = 1; }
  for (size_t k = 0, R = rounds(80); k < R; k++) {
    long n = k < 40 ? static_cast<long>(k) : rng.chance(1, 3) ? static_cast<long>(rng.below(2000)) : rng.chance(1, 3) ? (1 + static_cast<long>(rng.below(440))) * (1 + static_cast<long>(rng.below(440))) : static_cast<long>(rng.below(200000)); if (n > 200000) n = 200000;
    std::vector<long> want(ps.begin(), std::upper_bound(ps.begin(), ps.end(), n)); same(ex_pr::primes(n), want, "primes", std::to_string(n).c_str());
    size_t m = 2 + len(rng, 5000); double a = static_cast<double>(rng.range(-50, 50)), b = static_cast<double>(rng.range(-50, 50)); auto pts = parlay::tabulate(m, [&](size_t i) { double x = static_cast<double>(i % 1000) - 300; return std::pair<double, double>(x, a + b * x); });
    auto [ga, gb] = ex_lf::linefit(pts); VF_CHECK(std::fabs(ga - a) < 1e-6 * (1 + std::fabs(a)) && std::fabs(gb - b) < 1e-6 * (1 + std::fabs(b)), "linefit", "%zu points on %g + %g x: %g + %g x", m, a, b, ga, gb);
    event("numeric", 2); eval(H(n, m, k), n > 1);
  }
}
using Big = std::vector<unsigned long>;   // two's complement, least significant first
static Big ext(const Big& a, size_t n) { Big r(a); bool neg = !a.empty() && (a.back() >> 63); r.resize(std::max(n, a.size()), neg ? ~0ul : 0ul); return r; }
static Big badd(const Big& a, const Big& b, bool minus) { size_t n = std::max(a.size(), b.size()) + 1; Big x = ext(a, n), y = ext(b, n), r(n); unsigned __int128 c = minus; for (size_t i = 0; i < n; i++) { c += x[i]; c += minus ? ~y[i] : y[i]; r[i] = static_cast<unsigned long>(c); c >>= 64; } return r; }
static bool beq(const Big& a, const Big& b) { size_t n = std::max(a.size(), b.size()) + 1; return ext(a, n) == ext(b, n); }
static Big rbig(Rng& r, size_t n) { Big a(n); size_t k = r.below(4); for (auto& x : a) x = k == 0 ? ~0ul : k == 1 ? 0 : k == 2 && r.chance(2, 3) ? ~0ul : (r.below(1ul << 32) << 32) | r.below(1ul << 32); if (r.chance(1, 4)) a[r.below(n)] = r.below(3); if (r.chance(1, 3)) a[n - 1] ^= 1ul << 63; return a; }
CASE("big integers") {
  static_assert(sizeof(ex_big::digit) == 8, "");
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    size_t na = 1 + (rng.chance(1, 8) ? 65000 + rng.below(3000) : rng.below(400)), nb = rng.chance(1, 3) ? na : 1 + (rng.chance(1, 8) ? 65000 + rng.below(3000) : rng.below(400)); Big a = rbig(rng, na), b = rbig(rng, nb);
    if (rng.chance(1, 4)) { b = a; for (auto& x : b) x = ~x; if (rng.chance(1, 2)) b[0] += 1; nb = na; }   // long carries
    Big s = V(ex_big::add(S(a), S(b))), d = V(ex_big::subtract(S(a), S(b)));
    VF_CHECK(beq(s, badd(a, b, false)), "bigint:add", "%zu and %zu digits", na, nb); VF_CHECK(beq(d, badd(a, b, true)), "bigint:subtract", "%zu and %zu digits", na, nb);
    event("numeric", 2); eval(H(na, nb, k), true);
  }
  for (size_t k = 0, R = rounds(40); k < R; k++) {
    size_t na = 1 + rng.below(rng.chance(1, 2) ? 20 : 900), nb = rng.chance(1, 2) ? na : 1 + rng.below(rng.chance(1, 2) ? 20 : 900); Big a = rbig(rng, na), b = rbig(rng, nb); a[na - 1] &= ~0ul >> 1; b[nb - 1] &= ~0ul >> 1;
    Big want(na + nb + 1, 0); for (size_t i = 0; i < na; i++) { unsigned __int128 c = 0; for (size_t j = 0; j < nb; j++) { c += static_cast<unsigned __int128>(a[i]) * b[j] + want[i + j]; want[i + j] = static_cast<unsigned long>(c); c >>= 64; } want[i + nb] += static_cast<unsigned long>(c); }
    Big got = V(ex_big::karatsuba(S(a), S(b))); VF_CHECK(beq(got, want), "karatsuba", "%zu by %zu digits", na, nb);
    event("numeric"); eval(H(na, nb, k, 1), true);
  }
}
CASE("fourier transform") {
  using C = std::complex<double>; const double pi = std::acos(-1.0);
  for (size_t k = 0, R = rounds(30); k < R; k++) {
    size_t lg = rng.below(11), n = size_t{1} << lg, lr = rng.below(lg + 1), rows = size_t{1} << lr, cols = n / rows; std::vector<C> x(n); for (auto& c : x) c = C(static_cast<double>(rng.range(-100, 100)), static_cast<double>(rng.range(-100, 100)));
    std::vector<C> want(n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) want[i] += x[j] * std::polar(1.0, -2 * pi * static_cast<double>(i * j % n) / static_cast<double>(n));
    auto got = ex_fft::complex_fft(S(x)); double e = 0; for (size_t i = 0; i < n; i++) e = std::max(e, std::abs(got[i] - want[i]));
    VF_CHECK(got.size() == n && e < 1e-6 * static_cast<double>(n), "fft", "n=%zu: off by %g", n, e);
    parlay::sequence<parlay::sequence<C>> m(cols, parlay::sequence<C>(rows)); for (size_t i = 0; i < cols; i++) for (size_t j = 0; j < rows; j++) m[i][j] = x[j * cols + i];
    auto g2 = ex_fft::complex_fft_transpose(m); e = 0; for (size_t j = 0; j < rows; j++) for (size_t i = 0; i < cols; i++) e = std::max(e, std::abs(g2[j][i] - want[j + rows * i]));
    VF_CHECK(g2.size() == rows && e < 1e-6 * static_cast<double>(n), "fft:transposed", "%zu columns of %zu: off by %g", cols, rows, e);
    event("numeric", 2); eval(H(n, rows, k), n > 1);
  }
}
#elif VF_PART == 2
namespace ex_tok {
#include "tokens.h"
}
namespace ex_wc {
#include "word_counts.h"
}
namespace ex_kmp {
#include "knuth_morris_pratt.h"
}
namespace ex_rk {
#include "rabin_karp.h"
}
namespace ex_lrs {   // includes suffix_array.h, longest_common_prefix.h, range_min.h
#include "longest_repeated_substring.h"
}
namespace ex_st {   // suffix_array.h, longest_common_prefix.h, radix_tree.h, cartesian_tree.h
#include "suffix_tree.h"
}
namespace ex_med {
#include "minimum_edit_distance.h"
}
namespace ex_hm {
#include "hash_map.h"
}
namespace ex_huf {
#include "huffman_tree.h"
}
static std::string text(Rng& r, size_t n) {   // few letters, periodic, one letter, words, any byte but 0
  std::string s(n, 'a'); size_t k = r.below(6), per = 1 + r.below(9), lets = 1 + r.below(4);
  for (size_t i = 0; i < n; i++) s[i] = k == 0 ? 'a' : k == 1 ? static_cast<char>('a' + i % per) : k == 2 ? static_cast<char>('a' + r.below(lets)) : k == 3 ? (r.chance(1, 5) ? ' ' : static_cast<char>('a' + r.below(2))) : k == 4 ? static_cast<char>(1 + r.below(255)) : (i >= per * 7 ? s[i - per * 7] : static_cast<char>('a' + r.below(3)));
  if (n && k < 2 && r.chance(1, 2)) s[r.below(n)] = 'b'; return s;
}
static parlay::sequence<char> cs(const std::string& s) { return parlay::sequence<char>(s.begin(), s.end()); }
static std::string str(const parlay::sequence<char>& c) { return std::string(c.begin(), c.end()); }
CASE("tokens and word counts") {
  for (size_t k = 0, R = rounds(80); k < R; k++) {
    std::string s = text(rng, len(rng, 20000)); std::vector<std::string> w; std::string cur; for (char c : s + " ") if (c == ' ') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c;
    auto got = ex_tok::tokens(cs(s), [](char c) { return c == ' '; }); VF_CHECK(got.size() == w.size(), "tokens:count", "%zu instead of %zu", got.size(), w.size());
    for (size_t i = 0; i < std::min(w.size(), got.size()); i++) if (str(got[i]) != w[i]) { vf::fail("tokens:text", "token %zu", i); break; }
    std::map<std::string, long> m; for (auto& x : w) m[x]++; auto wc = ex_wc::word_counts(cs(s)); std::map<std::string, long> gm; long prev = std::numeric_limits<long>::max(); for (auto& p : wc) { gm[str(p.first)] += static_cast<long>(p.second); VF_CHECK(static_cast<long>(p.second) <= prev, "word_counts:order", "%zu words", w.size()); prev = static_cast<long>(p.second); }
    VF_CHECK(gm == m && wc.size() == m.size(), "word_counts", "%zu words", w.size());
    event("strings", 2); eval(H(s.size(), k, vf::hash_str(s)), w.size() > 1);
  }
  sample("texts of one letter, periodic, few letters, words and arbitrary bytes");
}
CASE("string matching") {
  for (size_t k = 0, R = rounds(150); k < R; k++) {
    std::string s = text(rng, len(rng, 20000)), p = !s.empty() && rng.chance(2, 3) ? s.substr(rng.below(s.size()), 1 + rng.below(rng.chance(1, 4) ? 3000 : 12)) : text(rng, 1 + rng.below(6)); if (rng.chance(1, 6)) p += 'b'; if (rng.chance(1, 12)) p = s + "x";
    std::vector<long> want; for (size_t i = s.find(p); i != std::string::npos; i = s.find(p, i + 1)) want.push_back(static_cast<long>(i));
    same(ex_kmp::knuth_morris_pratt(cs(s), cs(p)), want, "knuth_morris_pratt", ("text " + std::to_string(s.size()) + ", pattern " + std::to_string(p.size())).c_str());
    same(ex_rk::rabin_karp(cs(s), cs(p)), want, "rabin_karp", ("text " + std::to_string(s.size()) + ", pattern " + std::to_string(p.size())).c_str());
    event("strings", 2); event("matches", want.size()); eval(H(s.size(), p.size(), k), !want.empty());
  }
}
CASE("suffix structures") {
  for (size_t k = 0, R = rounds(80); k < R; k++) {
    size_t n = 2 + (rng.chance(1, 2) ? rng.below(60) : rng.below(rng.chance(1, 3) ? 4000 : 800)); std::string s = text(rng, n); if (rng.chance(1, 4) && n > 30) s += s.substr(n / 3, n / 2); n = s.size();
    std::vector<unsigned> sa(n); std::iota(sa.begin(), sa.end(), 0u); std::sort(sa.begin(), sa.end(), [&](unsigned a, unsigned b) { return s.compare(a, std::string::npos, s, b, std::string::npos) < 0; });
    auto c = cs(s); auto got = ex_lrs::suffix_array(c); same(got, sa, "suffix_array", ("n=" + std::to_string(n)).c_str());
    std::vector<unsigned> L; for (size_t i = 0; i + 1 < n; i++) { unsigned l = 0; while (sa[i] + l < n && sa[i + 1] + l < n && s[sa[i] + l] == s[sa[i + 1] + l]) l++; L.push_back(l); }
    auto ps = S(sa); same(ex_lrs::lcp(c, ps), L, "lcp", ("n=" + std::to_string(n)).c_str()); unsigned best = *std::max_element(L.begin(), L.end());
    if (V(got) == sa) {
      auto [l, i, j] = ex_lrs::longest_repeated_substring(c); VF_CHECK(l == best && i != j && s.compare(i, l, s, j, l) == 0, "longest_repeated_substring", "n=%zu: %u instead of %u", n, static_cast<unsigned>(l), best);
      auto T = ex_st::suffix_tree<unsigned>(c); std::vector<char> leaf(n, 0); size_t bad = 0, nodes = 0; std::function<void(unsigned, unsigned, unsigned)> walk = [&](unsigned p, unsigned up, unsigned depth) {
        if (depth > n) return; if (T.is_leaf(p)) { unsigned i2 = T.get_string(p); if (i2 >= n || leaf[i2]) bad++; else leaf[i2] = 1; return; }
        nodes++; unsigned d = T.get_depth(p); if (depth && d <= up) bad++; auto ch = T.get_children(p); if (ch.size() < 2) bad++; std::set<int> first; for (unsigned q : ch) { unsigned at = T.get_string(q) + d; int f = at < n ? static_cast<unsigned char>(s[at]) : -1; if (!first.insert(f).second) bad++; if (s.compare(T.get_string(q), d, s, T.get_string(p), d) != 0) bad++; walk(q, d, depth + 1); } };
      walk(T.get_root(), 0, 0); VF_CHECK(!bad && std::count(leaf.begin(), leaf.end(), 1) == static_cast<long>(n), "suffix_tree:shape", "n=%zu: %zu nodes, %zu wrong", n, nodes, bad);
      if (!bad) for (int q = 0; q < 10; q++) { std::string p = rng.chance(1, 2) ? s.substr(rng.below(n), 1 + rng.below(20)) : text(rng, 1 + rng.below(6)); long r = ex_st::find(T, c, cs(p)); VF_CHECK((r >= 0) == (s.find(p) != std::string::npos), "suffix_tree:find", "n=%zu, pattern of %zu: %ld", n, p.size(), r); event("matches"); }
      VF_CHECK(ex_st::find(T, c, c) == 0, "suffix_tree:find itself", "n=%zu", n);
    }
    event("strings", 4); eval(H(n, vf::hash_str(s)), n > 2);
  }
}
CASE("edit distance, range minima, cartesian trees") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    std::string a = text(rng, 1 + rng.below(rng.chance(1, 2) ? 12 : 450)), b = text(rng, 1 + rng.below(rng.chance(1, 2) ? 12 : 450)); if (rng.chance(1, 3)) { b = a; for (int i = 0; i < 6; i++) if (!b.empty()) { if (rng.chance(1, 2)) b.erase(rng.below(b.size()), 1); else b.insert(rng.below(b.size()), 1, 'q'); } if (b.empty()) b = "x"; }
    std::vector<long> d(b.size() + 1); std::iota(d.begin(), d.end(), 0l); for (size_t i = 1; i <= a.size(); i++) { long diag = d[0]; d[0] = static_cast<long>(i); for (size_t j = 1; j <= b.size(); j++) { long t = d[j]; d[j] = a[i - 1] == b[j - 1] ? diag : 1 + std::min(d[j], d[j - 1]); diag = t; } }
    long got = ex_med::minimum_edit_distance(cs(a), cs(b)); VF_CHECK(got == d[b.size()], "edit_distance", "%zu and %zu: %ld instead of %ld", a.size(), b.size(), got, d[b.size()]);
    size_t n = 1 + len(rng, 6000); std::vector<int> v(n); for (auto& x : v) x = static_cast<int>(rng.below(rng.chance(1, 2) ? 4 : 1000000)); auto q = S(v); long bs = 1 + static_cast<long>(rng.below(rng.chance(1, 2) ? 4 : 60)); ex_lrs::range_min<decltype(q)> rm(q, std::less<int>(), bs);
    for (int t = 0; t < 40; t++) { size_t i = rng.below(n), j = i + rng.below(n - i); unsigned m = rm.query(static_cast<unsigned>(i), static_cast<unsigned>(j)); if (m < i || m > j || v[m] != *std::min_element(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(j) + 1)) { vf::fail("range_min", "n=%zu blocks of %ld, [%zu,%zu] gives %u", n, bs, i, j, m); break; } }
    auto P = ex_st::cartesian_tree(q);   // parents: heap order, in-order positions, one root
    size_t roots = 0, bad = 0; std::vector<std::array<long, 2>> ch(n, {-1, -1}); for (size_t i = 0; i < n; i++) { size_t p = static_cast<size_t>(P[i]); if (p == i) { roots++; continue; } if (p >= n || v[p] > v[i]) { bad++; continue; } auto& c = ch[p][i > p]; if (c >= 0) bad++; c = static_cast<long>(i); }
    size_t seen = 0; if (roots == 1 && !bad) { std::vector<std::tuple<size_t, size_t, size_t>> st; for (size_t i = 0; i < n; i++) if (static_cast<size_t>(P[i]) == i) st.push_back({i, 0, n}); while (!st.empty()) { auto [x, lo, hi] = st.back(); st.pop_back(); seen++; if (x < lo || x >= hi) bad++; if (ch[x][0] >= 0) st.push_back({static_cast<size_t>(ch[x][0]), lo, x}); if (ch[x][1] >= 0) st.push_back({static_cast<size_t>(ch[x][1]), x + 1, hi}); } }
    VF_CHECK(roots == 1 && !bad && seen == n, "cartesian_tree", "n=%zu: %zu roots, %zu wrong, %zu reached", n, roots, bad, seen);
    event("trees"); event("strings"); event("queries", 40); eval(H(a.size(), b.size(), n, k), n > 1);
  }
}
struct Mod7 { size_t operator()(long k) const { return static_cast<size_t>(k) % 7; } };   // long probe sequences
CASE("hash map against a sequential map") {
  auto go = [&](auto hm, size_t keys, const char* what) {
    std::map<long, long> m; size_t ops = 100 + rng.below(2000);
    for (size_t i = 0; i < ops; i++) {
      long k = static_cast<long>(rng.below(keys)), v = static_cast<long>(i); auto it = m.find(k);
      switch (rng.below(3)) {
        case 0: VF_CHECK(hm->insert(k, v) == (it == m.end()), "hash_map:insert", "%s key %ld", what, k); m.insert({k, v}); break;
        case 1: { auto r = hm->find(k); VF_CHECK(r.has_value() == (it != m.end()) && (!r || *r == it->second), "hash_map:find", "%s key %ld", what, k); break; }
        default: { auto r = hm->remove(k); VF_CHECK(r.has_value() == (it != m.end()) && (!r || *r == it->second), "hash_map:remove", "%s key %ld", what, k); if (it != m.end()) m.erase(it); }
      }
    }
    auto ks = V(hm->keys()); std::sort(ks.begin(), ks.end()); std::vector<long> want; for (auto& p : m) want.push_back(p.first); VF_CHECK(ks == want && hm->size() == m.size(), "hash_map:keys", "%s: %zu instead of %zu", what, ks.size(), want.size());
    event("map_operations", ops); eval(H(ops, keys, vf::hash_str(what)), true);
  };
  for (size_t k = 0, R = rounds(40); k < R; k++) { size_t n = 1 + rng.below(60); go(std::make_unique<ex_hm::hash_map<long, long>>(static_cast<long>(n)), n, "hashed"); go(std::make_unique<ex_hm::hash_map<long, long, Mod7>>(static_cast<long>(n)), n, "colliding"); }
}
CASE("hash map used by many threads") {
  // per key, successful insertions and removals alternate; a value is removed at most once and only if it was inserted
  for (size_t k = 0, R = rounds(30); k < R; k++) {
    size_t n = 1 + rng.below(rng.chance(1, 2) ? 4 : 60), ops = 4000; bool coll = rng.chance(1, 2); std::vector<std::atomic<long>> bal(n), ins(n), rem(n); std::atomic<long> wrong{0}; std::vector<std::atomic<int>> taken(ops); std::vector<char> how(ops); std::vector<long> key(ops); for (size_t i = 0; i < ops; i++) { how[i] = static_cast<char>(rng.below(3)); key[i] = static_cast<long>(rng.below(n)); }
    for (auto& x : bal) x = 0;
    auto go = [&](auto& hm) {
      parlay::parallel_for(0, ops, [&](size_t i) {
        long q = key[i]; auto val = [](long op, long kk) { return std::string(40, 'v') + std::to_string(kk) + ":" + std::to_string(op); };
        auto good = [&](const std::string& s) { size_t c = s.find(':'); return s.size() > 42 && c != std::string::npos && s.compare(0, 40, std::string(40, 'v')) == 0 && std::stol(s.substr(40)) == q; };
        if (how[i] == 0) { if (hm.insert(q, val(static_cast<long>(i), q))) ins[q]++; }
        else if (how[i] == 1) { auto r = hm.find(q); if (r && !good(*r)) wrong++; }
        else { auto r = hm.remove(q); if (r) { rem[q]++; if (!good(*r)) wrong++; else if (taken[std::stoul(r->substr(r->find(':') + 1))].fetch_add(1)) wrong++; } }
      }, 1);
      size_t left = 0; for (size_t q = 0; q < n; q++) { auto r = hm.find(static_cast<long>(q)); long d = ins[q] - rem[q]; if (d != (r ? 1 : 0)) wrong++; left += r.has_value(); }
      VF_CHECK(wrong == 0 && hm.size() == left, "hash_map:concurrent", "%zu keys%s: %ld answers are impossible", n, coll ? " colliding" : "", wrong.load());
    };
    if (coll) { ex_hm::hash_map<long, std::string, Mod7> hm(static_cast<long>(n)); go(hm); } else { ex_hm::hash_map<long, std::string> hm(static_cast<long>(n)); go(hm); }
    // keys nobody removes are always found, whatever happens to the others on the same probe sequence
    ex_hm::hash_map<long, long, Mod7> hm(60); for (long q = 0; q < 20; q++) hm.insert(q, q); std::atomic<long> lost{0};
    parlay::parallel_for(0, 2000, [&](size_t i) { long q = static_cast<long>(i % 20); if (q % 3 == 0) { if (i & 64) hm.insert(q, q); else hm.remove(q); } else { auto r = hm.find(q); if (!r || *r != q) lost++; } }, 1);
    VF_CHECK(lost == 0, "hash_map:lost", "%ld lookups missed a key that was never removed", lost.load());
    event("map_operations", ops + 2000); eval(H(n, k), true);
  }
}
CASE("huffman trees") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    size_t n = 1 + len(rng, 3000), sh = rng.below(4); parlay::sequence<float> p(n); for (size_t i = 0; i < n; i++) p[i] = sh == 0 ? 1.0f : sh == 1 ? static_cast<float>(1 + rng.below(1000)) : sh == 2 ? std::ldexp(1.0f, static_cast<int>(rng.below(20))) : 1.0f / static_cast<float>(1 + rng.below(n));
    auto [leaves, root] = ex_huf::huffman_tree(p); std::priority_queue<double, std::vector<double>, std::greater<>> q; for (float x : p) q.push(static_cast<double>(x)); double want = 0; while (q.size() > 1) { double a = q.top(); q.pop(); double b = q.top(); q.pop(); want += a + b; q.push(a + b); }
    double cost = 0; size_t bad = 0; for (size_t i = 0; i < n; i++) { size_t d = 0; auto* x = leaves[i]; if (!x->is_leaf || static_cast<ex_huf::leaf*>(x)->idx != static_cast<long>(i)) bad++; while (x != root && d <= n) { auto* up = x->parent; if (!up) { bad++; break; } auto* in = static_cast<ex_huf::interior*>(up); if (in->L != x && in->R != x) bad++; x = up; d++; } cost += static_cast<double>(p[i]) * static_cast<double>(d); }
    VF_CHECK(!bad && cost <= want * (1 + 1e-4) && cost >= want * (1 - 1e-4), "huffman_tree", "%zu symbols: cost %g instead of %g, %zu wrong links", n, cost, want, bad);
    ex_huf::delete_tree(root); event("trees"); eval(H(n, sh, k), n > 1);
  }
}
#else
namespace ex_qh {
#include "quickhull.h"
}
namespace ex_knn {   // includes oct_tree.h
#include "knn.h"
}
namespace ex_rng {
#include "3d_range.h"
}
namespace ex_del {   // includes hash_map.h
#include "delaunay.h"
}
namespace ex_box {   // includes box_kdtree.h
#include "rectangle_intersection.h"
parlay::type_allocator<tree_node> tree_node::node_allocator;
}
namespace ex_lp {
#include "2d_linear_program.h"
}
CASE("upper hull") {
  for (size_t k = 0, R = rounds(100); k < R; k++) {
    size_t n = 1 + len(rng, 20000); long range = rng.chance(1, 3) ? 3 : rng.chance(1, 2) ? 100 : 1000000; bool circle = rng.chance(1, 4); parlay::sequence<ex_qh::point> P(n);
    for (auto& p : P) { p = {static_cast<double>(rng.range(-range, range)), static_cast<double>(rng.range(-range, range))}; if (circle) { double t = static_cast<double>(rng.below(100000)); p = {std::floor(range * 10 * std::cos(t)), std::floor(range * 10 * std::sin(t))}; } }
    std::vector<std::pair<double, double>> q; for (auto& p : P) q.push_back({p.x, p.y}); std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end());
    // strict upper chain from the smallest to the largest point (lexicographically)
    std::vector<std::pair<double, double>> hull; for (auto& p : q) { while (hull.size() >= 2) { auto [x1, y1] = hull[hull.size() - 2]; auto [x2, y2] = hull.back(); if ((x2 - x1) * (p.second - y1) - (y2 - y1) * (p.first - x1) >= 0) hull.pop_back(); else break; } hull.push_back(p); }
    auto r = ex_qh::upper_hull(P); std::vector<std::pair<double, double>> got; bool oob = false; for (int i : r) { if (i < 0 || static_cast<size_t>(i) >= n) { oob = true; break; } got.push_back({P[i].x, P[i].y}); }
    // every corner is there, from left to right; points inside an edge of the hull may be there too
    size_t at = 0; bool ok = true; for (size_t i = 0; i < got.size() && ok; i++) { if (q.size() == 1) { ok = i < 2 && got[i] == hull[0]; at = 1; continue; } if (i && got[i] <= got[i - 1]) ok = false; else if (at < hull.size() && got[i] == hull[at]) at++; else ok = at > 0 && at < hull.size() && (hull[at].first - hull[at - 1].first) * (got[i].second - hull[at - 1].second) == (hull[at].second - hull[at - 1].second) * (got[i].first - hull[at - 1].first) && got[i] < hull[at]; }
    VF_CHECK(!oob && ok && at == hull.size(), "upper_hull", "n=%zu range %ld%s: %zu points instead of %zu", n, range, circle ? " circle" : "", got.size(), hull.size());
    event("points", n); eval(H(n, range, k), hull.size() > 2);
  }
  sample("integer points in squares and on circles with many collinear and repeated ones");
}
template <class C> static parlay::sequence<C> coords(Rng& rng, size_t n, bool neg) {
  long range = rng.chance(1, 4) ? 3 : rng.chance(1, 2) ? 200 : rng.chance(1, 2) ? 1000000 : 1000000000; bool flat = rng.chance(1, 5);
  return parlay::sequence<C>::from_function(n, [&](size_t) { C c; for (auto& x : c) x = static_cast<int>(rng.range(neg ? -range : 0, range)); if (flat) c[2] = static_cast<int>(range); return c; }, n + 1);
}
template <class C> static double d2(const C& a, const C& b) { double r = 0; for (size_t i = 0; i < 3; i++) { double d = static_cast<double>(a[i]) - static_cast<double>(b[i]); r += d * d; } return r; }
CASE("nearest neighbours") {
  for (size_t k = 0, R = rounds(40); k < R; k++) {
    size_t n = 2 + (rng.chance(1, 2) ? rng.below(60) : rng.below(1200)); int kk = 1 + static_cast<int>(rng.below(std::min<size_t>(n - 1, 12))); bool neg = rng.chance(1, 2); auto P = coords<ex_knn::coords>(rng, n, neg); auto G = ex_knn::build_knn_graph(P, kk); size_t bad = 0;
    for (size_t i = 0; i < n; i++) { std::vector<double> d; for (size_t j = 0; j < n; j++) if (j != i) d.push_back(d2(P[i], P[j])); std::nth_element(d.begin(), d.begin() + kk - 1, d.end()); std::sort(d.begin(), d.begin() + kk); std::set<int> ids; std::vector<double> g; for (int j : G[i]) if (j >= 0 && static_cast<size_t>(j) < n && static_cast<size_t>(j) != i && ids.insert(j).second) g.push_back(d2(P[i], P[j])); std::sort(g.begin(), g.end()); d.resize(static_cast<size_t>(kk)); if (g != d) bad++; }
    VF_CHECK(!bad, "knn", "n=%zu k=%d%s: %zu points with wrong neighbours", n, kk, neg ? " negative coordinates" : "", bad);
    event("points", n); event("queries", n); eval(H(n, kk, k), true);
  }
}
CASE("points in range") {
  for (size_t k = 0, R = rounds(40); k < R; k++) {
    size_t n = 1 + (rng.chance(1, 2) ? rng.below(60) : rng.below(1200)); bool neg = rng.chance(1, 2); auto P = coords<ex_rng::coords>(rng, n, neg); double r = n > 1 ? std::sqrt(d2(P[0], P[rng.below(n)])) * (rng.chance(1, 2) ? 1.0 : 0.3) : 1.0; auto G = ex_rng::in_range(P, r); size_t bad = 0, found = 0;
    for (size_t i = 0; i < n; i++) { std::set<int> want, got(G[i].begin(), G[i].end()); for (size_t j = 0; j < n; j++) if (j != i && d2(P[i], P[j]) < r * r) want.insert(static_cast<int>(j)); found += want.size(); if (got != want || got.size() != G[i].size()) bad++; }
    VF_CHECK(!bad, "3d_range", "n=%zu r=%g%s: %zu wrong answers", n, r, neg ? " negative coordinates" : "", bad);
    event("points", n); event("queries", n); eval(H(n, k), found > 0);
  }
}
CASE("delaunay triangulation") {
  for (size_t k = 0, R = rounds(30); k < R; k++) {
    size_t n = 1 + (rng.chance(1, 2) ? rng.below(12) : rng.below(250)); std::vector<std::pair<int, int>> g; std::set<std::pair<int, int>> s; while (g.size() < n) { std::pair<int, int> p(static_cast<int>(rng.below(4096)), static_cast<int>(rng.below(4096))); if (s.insert(p).second) g.push_back(p); }
    ex_del::Points P(n); for (size_t i = 0; i < n; i++) P[i] = {static_cast<int>(i), static_cast<float>(g[i].first) / 4096, static_cast<float>(g[i].second) / 4096};
    auto T = ex_del::delaunay(P); std::vector<std::pair<double, double>> X; for (auto& p : P) X.push_back({p.x, p.y}); X.push_back({0, 100}); X.push_back({100, -100}); X.push_back({-100, -100});
    // a triangulation of the enclosing triangle: 2n+1 triangles, covering area, no point strictly inside a circumcircle
    size_t bad = 0; double area = 0; std::set<std::array<int, 3>> ids; for (auto t : T) { std::array<int, 3> u = t; std::sort(u.begin(), u.end()); if (u[0] < 0 || u[2] >= static_cast<int>(n) + 3 || !ids.insert(u).second) { bad++; continue; }
      auto [ax, ay] = X[t[0]]; auto [bx, by] = X[t[1]]; auto [cx, cy] = X[t[2]]; double o = (bx - ax) * (cy - ay) - (by - ay) * (cx - ax); area += std::fabs(o) / 2; if (o < 0) { std::swap(bx, cx); std::swap(by, cy); }
      for (size_t i = 0; i < n; i++) { if (static_cast<int>(i) == u[0] || static_cast<int>(i) == u[1] || static_cast<int>(i) == u[2]) continue; long double dx = X[i].first, dy = X[i].second, a1 = ax - dx, a2 = ay - dy, b1 = bx - dx, b2 = by - dy, c1 = cx - dx, c2 = cy - dy; long double det = (a1 * a1 + a2 * a2) * (b1 * c2 - b2 * c1) - (b1 * b1 + b2 * b2) * (a1 * c2 - a2 * c1) + (c1 * c1 + c2 * c2) * (a1 * b2 - a2 * b1); long double sc = (a1 * a1 + a2 * a2 + 1e-9) * (b1 * b1 + b2 * b2 + 1e-9) * (c1 * c1 + c2 * c2 + 1e-9); if (det > 1e-8 * std::sqrt(static_cast<double>(sc))) { bad++; break; } } }
    VF_CHECK(!bad && T.size() == 2 * n + 1 && std::fabs(area - 20000) < 1e-3, "delaunay", "n=%zu: %zu triangles, area %g, %zu wrong", n, T.size(), area, bad);
    event("points", n); event("triangles", T.size()); eval(H(n, k), n > 2);
  }
}
CASE("intersecting boxes") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    size_t n = 1 + (rng.chance(1, 2) ? rng.below(20) : rng.below(600)); long range = rng.chance(1, 2) ? 20 : 1000, w = 1 + static_cast<long>(rng.below(static_cast<uint64_t>(rng.chance(1, 2) ? range / 10 : range / 2))); ex_box::Boxes B(n); bool flat = rng.chance(1, 2);
    for (auto& b : B) for (auto& r : b) { long lo = rng.range(-range, range); r = {static_cast<float>(lo), static_cast<float>(lo + (flat && rng.chance(1, 4) ? 0 : 1 + static_cast<long>(rng.below(static_cast<uint64_t>(w)))))}; }
    std::set<std::pair<int, int>> want; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { bool x = true; for (size_t d = 0; d < 3; d++) x = x && B[i][d][0] < B[j][d][1] && B[j][d][0] < B[i][d][1]; if (x) want.insert({static_cast<int>(i), static_cast<int>(j)}); }
    auto r = ex_box::rectangle_intersection(B); std::set<std::pair<int, int>> got(r.begin(), r.end()); VF_CHECK(got == want && got.size() == r.size(), "rectangle_intersection", "%zu boxes: %zu pairs (%zu distinct) instead of %zu", n, r.size(), got.size(), want.size());
    event("boxes", n); event("pairs", want.size()); eval(H(n, range, w, k), !want.empty());
  }
}
CASE("linear programs in the plane") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {   // bounded: the constraints all face the objective, on both sides
    size_t n = 2 + rng.below(rng.chance(1, 2) ? 10 : 300); double ct = static_cast<double>(rng.below(628)) / 100; ex_lp::constraint c{std::cos(ct), std::sin(ct), 0}; ex_lp::constraints Hs(n);
    for (size_t i = 0; i < n; i++) { double t = ct + (static_cast<double>(rng.below(1400)) / 1000 + .05) * (i == 0 ? 1 : i == 1 ? -1 : rng.chance(1, 2) ? 1 : -1); Hs[i] = {std::cos(t), std::sin(t), static_cast<double>(1 + rng.below(1000))}; }
    double best = -1e300; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { double d = Hs[i][0] * Hs[j][1] - Hs[i][1] * Hs[j][0]; if (std::fabs(d) < 1e-9) continue; double x = (Hs[j][1] * Hs[i][2] - Hs[i][1] * Hs[j][2]) / d, y = (Hs[i][0] * Hs[j][2] - Hs[j][0] * Hs[i][2]) / d; bool ok = true; for (size_t q = 0; q < n && ok; q++) ok = Hs[q][0] * x + Hs[q][1] * y <= Hs[q][2] + 1e-6 * (1 + std::fabs(x) + std::fabs(y)); if (ok) best = std::max(best, c[0] * x + c[1] * y); }
    auto p = ex_lp::linear_program_2d(Hs, c); double v = c[0] * p[0] + c[1] * p[1]; bool feas = true; for (auto& h : Hs) feas = feas && h[0] * p[0] + h[1] * p[1] <= h[2] + 1e-5 * (1 + std::fabs(p[0]) + std::fabs(p[1]));
    VF_CHECK(feas && std::fabs(v - best) < 1e-4 * (1 + std::fabs(best)), "linear_program", "%zu constraints: %g instead of %g%s", n, v, best, feas ? "" : ", infeasible");
    event("programs"); eval(H(n, k), n > 2);
  }
}
#endif
