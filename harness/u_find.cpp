// P16: searching, comparing and counting against the standard library.
#include "gen.h"
#include <deque>
#include <parlay/primitives.h>
#include <parlay/internal/binary_search.h>
using namespace vf;

namespace {
struct El { int64_t v = 0; El() = default; El(int64_t x) : v(x) {}   // NOLINT
  friend bool operator==(const El& a, const El& b) { return a.v == b.v; }
  friend bool operator!=(const El& a, const El& b) { return a.v != b.v; }
  friend bool operator<(const El& a, const El& b) { return a.v < b.v; } };
size_t findn(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.below(8);
    case 1: { static const size_t b[] = {1000, 3000, 7000, 15000, 1024, 2048, 1001 + 1000}; return b[r.below(7)] + r.below(5) - 2; }
    default: return pick_size(r, maxn(30000, 200000));
  }
}
// values: mostly v, with a few planted elsewhere, also near the block ends of the search
std::vector<int64_t> planted(Rng& r, size_t n, int64_t base, int64_t other, size_t max_plants) {
  std::vector<int64_t> v(n, base);
  size_t k = n ? r.below(max_plants + 1) : 0;
  for (size_t i = 0; i < k; i++) {
    static const size_t edges[] = {0, 999, 1000, 1001, 2000, 2999, 3000, 3001, 6999, 7000, 1023, 1024};
    size_t p = r.chance(1, 3) ? edges[r.below(12)] : r.chance(1, 3) ? n - 1 - r.below(std::min<size_t>(n, 3)) : r.below(n);
    if (p < n) v[p] = other;
  }
  return v;
}
// a range of each kind over the same values, handed to f
template <class F> void with_range(Rng& rng, const std::vector<int64_t>& v, F&& f) {
  size_t n = v.size();
  switch (rng.below(6)) {
    case 0: { parlay::sequence<El> s(v.begin(), v.end()); f(s, "sequence"); break; }
    case 1: { const std::vector<El> s(v.begin(), v.end()); f(s, "const vector"); break; }
    case 2: { std::deque<El> s(v.begin(), v.end()); f(s, "deque"); break; }
    case 3: { auto s = parlay::delayed_tabulate(n, [&](size_t i) { return El(v[i]); }); f(s, "delayed"); break; }
    case 4: { std::vector<El> b(n + 6, El(-12345)); size_t o = rng.below(7); for (size_t i = 0; i < n; i++) b[o + i] = El(v[i]); auto s = parlay::make_slice(b).cut(o, o + n); f(s, "slice"); break; }
    default: { parlay::short_sequence<El> s(v.begin(), v.end()); f(s, "short_sequence"); break; }
  }
}
template <class R, class I> size_t idx(R& r, I it) { return static_cast<size_t>(it - std::begin(r)); }
void expect(size_t got, size_t want, const char* op, const char* kind, size_t n) { if (got != want) fail(std::string("find:") + op, "%s of %zu elements: got %zu, expected %zu", kind, n, got, want); event("calls"); }
}  // namespace

#if VF_PART == 0 || VF_PART == 1
CASE("find, find_if, counts and quantifiers") {
  for (size_t k = 0, R = rounds(300); k < R; k++) {
    size_t n = findn(rng); int64_t t = 5; auto v = planted(rng, n, 1, t, 4);
    if (rng.chance(1, 6)) for (auto& x : v) x = static_cast<int64_t>(rng.below(50));
    std::atomic<uint64_t> strays{0};
    with_range(rng, v, [&](auto& r, const char* kind) {
      size_t want = static_cast<size_t>(std::find(v.begin(), v.end(), t) - v.begin());
      expect(idx(r, parlay::find(r, El(t))), want, "find", kind, n);
      auto is = [&](const El& e) { if (e.v == -12345) strays++; return e.v == t; };
      expect(idx(r, parlay::find_if(r, is)), want, "find_if", kind, n);
      size_t wn = static_cast<size_t>(std::find_if(v.begin(), v.end(), [&](int64_t x) { return x != 1; }) - v.begin());
      expect(idx(r, parlay::find_if_not(r, [&](const El& e) { return e.v == 1; })), wn, "find_if_not", kind, n);
      size_t c = static_cast<size_t>(std::count(v.begin(), v.end(), t));
      expect(parlay::count(r, El(t)), c, "count", kind, n);
      expect(parlay::count_if(r, is), c, "count_if", kind, n);
      // predicates that return an integer rather than a bool
      expect(parlay::count_if(r, [&](const El& e) { return e.v == t ? 4 : 0; }), c, "count_if-int", kind, n);
      expect(parlay::all_of(r, [&](const El& e) { return e.v == t ? 2 : 0; }), c == n, "all_of", kind, n);
      expect(parlay::any_of(r, is), c > 0, "any_of", kind, n);
      expect(parlay::none_of(r, is), c == 0, "none_of", kind, n);
      expect(parlay::all_of(r, [&](const El& e) { return e.v != t; }), c == 0, "all_of", kind, n);
    });
    VF_CHECK(strays == 0, "find:outside-range", "the predicate was given an element outside the range");
    eval(H(k, n, std::accumulate(v.begin(), v.end(), int64_t{0})), n > 1);
  }
  sample("ranges with up to 4 matches, also at search block ends");
}
CASE("find_first_of") {
  for (size_t k = 0, R = rounds(150); k < R; k++) {
    size_t n = findn(rng) % 9000, m = rng.chance(1, 8) ? rng.below(3000) : rng.below(12);
    auto v = planted(rng, n, 1, 7, 3); std::vector<int64_t> set(m); for (auto& x : set) x = static_cast<int64_t>(rng.chance(1, 4) ? 7 : 10 + rng.below(20));
    parlay::sequence<El> s2(set.begin(), set.end());
    with_range(rng, v, [&](auto& r, const char* kind) {
      expect(idx(r, parlay::find_first_of(r, s2)), static_cast<size_t>(std::find_first_of(v.begin(), v.end(), set.begin(), set.end()) - v.begin()), "find_first_of", kind, n);
      // a predicate that is not symmetric, and a set of another type
      auto lt = [](int64_t a, int64_t b) { return a % 5 == (b + 1) % 5; };
      expect(idx(r, parlay::find_first_of(r, set, [&](const El& a, int64_t b) { return lt(a.v, b); })), static_cast<size_t>(std::find_first_of(v.begin(), v.end(), set.begin(), set.end(), lt) - v.begin()), "find_first_of-pred", kind, n);
    });
    eval(H(k, n, m), n > 1);
  }
}
CASE("adjacent_find") {
  for (size_t k = 0, R = rounds(200); k < R; k++) {
    size_t n = findn(rng); std::vector<int64_t> v(n); for (size_t i = 0; i < n; i++) v[i] = static_cast<int64_t>(i * 2);
    for (size_t q = rng.below(4); q-- && n > 1;) { static const size_t ed[] = {1, 999, 1000, 1001, 3000, 3001}; size_t p = rng.chance(1, 2) ? ed[rng.below(6)] : 1 + rng.below(n - 1); if (rng.chance(1, 4)) p = n - 1; if (p > 0 && p < n) v[p] = v[p - 1]; }
    with_range(rng, v, [&](auto& r, const char* kind) {
      expect(idx(r, parlay::adjacent_find(r)), static_cast<size_t>(std::adjacent_find(v.begin(), v.end()) - v.begin()), "adjacent_find", kind, n);
      expect(idx(r, parlay::adjacent_find(r, [](const El& a, const El& b) { return a.v >= b.v; })), static_cast<size_t>(std::adjacent_find(v.begin(), v.end(), [](int64_t a, int64_t b) { return a >= b; }) - v.begin()), "adjacent_find-pred", kind, n);
    });
    eval(H(k, n), n > 1);
  }
}
CASE("mismatch, equal, lexicographical_compare") {
  for (size_t k = 0, R = rounds(250); k < R; k++) {
    size_t n = findn(rng), m = rng.chance(1, 2) ? n : rng.chance(1, 2) ? (n ? n - rng.below(std::min<size_t>(n, 3)) : 0) : findn(rng);
    std::vector<int64_t> a(n), b(m); for (size_t i = 0; i < n; i++) a[i] = static_cast<int64_t>(mix(i) % 10); for (size_t i = 0; i < m; i++) b[i] = static_cast<int64_t>(mix(i) % 10);
    for (size_t q = rng.below(3); q--;) { size_t h = std::min(n, m); if (!h) break; size_t p = rng.chance(1, 3) ? std::min<size_t>(h - 1, 998 + rng.below(5)) : rng.chance(1, 3) ? h - 1 : rng.below(h); b[p] += rng.range(-1, 1); }
    auto bb = parlay::to_sequence(b);
    parlay::sequence<El> sb(b.begin(), b.end());
    with_range(rng, a, [&](auto& r, const char* kind) {
      auto w = std::mismatch(a.begin(), a.end(), b.begin(), b.end()); auto g = parlay::mismatch(r, sb);
      expect(idx(r, g.first), static_cast<size_t>(w.first - a.begin()), "mismatch", kind, n); expect(idx(sb, g.second), static_cast<size_t>(w.second - b.begin()), "mismatch", kind, n);
      auto p = [](int64_t x, int64_t y) { return x <= y; };
      auto w2 = std::mismatch(a.begin(), a.end(), b.begin(), b.end(), p); auto g2 = parlay::mismatch(r, bb, [&](const El& x, int64_t y) { return p(x.v, y); });
      expect(idx(r, g2.first), static_cast<size_t>(w2.first - a.begin()), "mismatch-pred", kind, n);
      expect(parlay::equal(r, sb), a == b, "equal", kind, n);
      expect(parlay::equal(r, bb, [&](const El& x, int64_t y) { return p(x.v, y); }), std::equal(a.begin(), a.end(), b.begin(), b.end(), p), "equal-pred", kind, n);
      expect(parlay::lexicographical_compare(r, sb), a < b, "lexicographical_compare", kind, n);
      expect(parlay::lexicographical_compare(sb, r), b < a, "lexicographical_compare", kind, n);
      auto gt = [](const El& x, const El& y) { return x.v / 2 > y.v / 2; };
      expect(parlay::lexicographical_compare(r, sb, gt), std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](int64_t x, int64_t y) { return x / 2 > y / 2; }), "lexicographical_compare-pred", kind, n);
    });
    parlay::sequence<int64_t> sa(a.begin(), a.end()); expect(sa < bb, a < b, "operator<", "sequence", n); expect(bb < sa, b < a, "operator<", "sequence", n);
    expect(sa == bb, a == b, "operator==", "sequence", n); expect(sa != bb, a != b, "operator!=", "sequence", n);
    eval(H(k, n, m), n > 1);
  }
}
#endif
#if VF_PART == 0 || VF_PART == 2
CASE("search and find_end") {
  for (size_t k = 0, R = rounds(250); k < R; k++) {
    size_t n = findn(rng), m = rng.chance(1, 10) ? n + rng.below(3) : rng.chance(1, 6) ? rng.below(n + 1) : rng.below(9); unsigned sig = rng.chance(1, 2) ? 2 : 4;
    if (n > 6000 && m > 500) m = rng.below(20);
    std::vector<int64_t> v(n), p(m);
    // texts in which occurrences are rare: long runs of one letter and a planted pattern
    if (rng.chance(1, 2)) for (auto& x : v) x = static_cast<int64_t>(rng.below(sig)); else for (auto& x : v) x = 0;
    if (m && m <= n && rng.chance(3, 4)) {
      for (auto& x : p) x = static_cast<int64_t>(10 + rng.below(sig)); size_t q = rng.below(4);
      for (size_t j = 0; j < q; j++) { size_t at = rng.chance(1, 4) ? n - m : rng.chance(1, 3) ? std::min(n - m, 998 + rng.below(5)) : rng.below(n - m + 1); for (size_t i = 0; i < m; i++) v[at + i] = p[i]; }
      if (rng.chance(1, 3)) { size_t at = n - m; for (size_t i = 0; i + 1 < m; i++) v[at + 1 + i] = p[i]; }   // cut off at the end
    } else for (auto& x : p) x = static_cast<int64_t>(rng.below(sig));
    parlay::sequence<El> sp(p.begin(), p.end());
    with_range(rng, v, [&](auto& r, const char* kind) {
      expect(idx(r, parlay::search(r, sp)), static_cast<size_t>(std::search(v.begin(), v.end(), p.begin(), p.end()) - v.begin()), "search", kind, n);
      expect(idx(r, parlay::find_end(r, sp)), static_cast<size_t>(std::find_end(v.begin(), v.end(), p.begin(), p.end()) - v.begin()), "find_end", kind, n);
      auto le = [](int64_t a, int64_t b) { return a >= b; };
      auto pl = [&](const El& a, const El& b) { return le(a.v, b.v); };
      expect(idx(r, parlay::search(r, sp, pl)), static_cast<size_t>(std::search(v.begin(), v.end(), p.begin(), p.end(), le) - v.begin()), "search-pred", kind, n);
      expect(idx(r, parlay::find_end(r, sp, pl)), static_cast<size_t>(std::find_end(v.begin(), v.end(), p.begin(), p.end(), le) - v.begin()), "find_end-pred", kind, n);
    });
    eval(H(k, n, m), n > 1); if (m > n) event("pattern_longer_than_text");
  }
  sample("patterns up to and beyond the text length, planted at the end and at block ends");
}
CASE("is_sorted and is_partitioned") {
  for (size_t k = 0, R = rounds(250); k < R; k++) {
    size_t n = findn(rng); std::vector<int64_t> v(n); for (size_t i = 0; i < n; i++) v[i] = static_cast<int64_t>(i / 3);
    for (size_t q = rng.below(3); q-- && n;) { size_t p = rng.chance(1, 4) ? n - 1 : rng.chance(1, 4) ? std::min<size_t>(n - 1, 998 + rng.below(5)) : rng.below(n); v[p] += rng.range(-2, 2); }
    size_t cut = n ? rng.below(n + 1) : 0; std::vector<int64_t> w(n); for (size_t i = 0; i < n; i++) w[i] = i < cut;
    if (n && rng.chance(1, 2)) { size_t p = rng.chance(1, 3) ? n - 1 : rng.below(n); w[p] = !w[p]; }
    with_range(rng, v, [&](auto& r, const char* kind) {
      expect(parlay::is_sorted(r), std::is_sorted(v.begin(), v.end()), "is_sorted", kind, n);
      expect(idx(r, parlay::is_sorted_until(r)), static_cast<size_t>(std::is_sorted_until(v.begin(), v.end()) - v.begin()), "is_sorted_until", kind, n);
      auto c = [](int64_t a, int64_t b) { return a / 4 < b / 4; }; auto ce = [&](const El& a, const El& b) { return c(a.v, b.v); };
      expect(parlay::is_sorted(r, ce), std::is_sorted(v.begin(), v.end(), c), "is_sorted-cmp", kind, n);
      expect(idx(r, parlay::is_sorted_until(r, ce)), static_cast<size_t>(std::is_sorted_until(v.begin(), v.end(), c) - v.begin()), "is_sorted_until-cmp", kind, n);
    });
    with_range(rng, w, [&](auto& r, const char* kind) { expect(parlay::is_partitioned(r, [](const El& e) { return e.v == 1; }), std::is_partitioned(w.begin(), w.end(), [](int64_t x) { return x == 1; }), "is_partitioned", kind, n); });
    eval(H(k, n, cut), n > 1);
  }
}
CASE("minimum, maximum, minmax") {
  for (size_t k = 0, R = rounds(250); k < R; k++) {
    size_t n = findn(rng); auto v = gen_keys<int64_t>(rng, n); if (rng.chance(1, 3)) for (auto& x : v) x = -x;
    if (rng.chance(1, 3)) { v = planted(rng, n, 5, rng.chance(1, 2) ? 1 : 9, 6); }
    with_range(rng, v, [&](auto& r, const char* kind) {
      size_t mn = static_cast<size_t>(std::min_element(v.begin(), v.end()) - v.begin()), mx = static_cast<size_t>(std::max_element(v.begin(), v.end()) - v.begin());
      expect(idx(r, parlay::min_element(r)), mn, "min_element", kind, n); expect(idx(r, parlay::max_element(r)), mx, "max_element", kind, n);
      auto mm = parlay::minmax_element(r); expect(idx(r, mm.first), mn, "minmax_element-min", kind, n); expect(idx(r, mm.second), mx, "minmax_element-max", kind, n);
      auto c = [](int64_t a, int64_t b) { return a / 16 < b / 16; }; auto ce = [&](const El& a, const El& b) { return c(a.v, b.v); };
      size_t cn = static_cast<size_t>(std::min_element(v.begin(), v.end(), c) - v.begin()), cx = static_cast<size_t>(std::max_element(v.begin(), v.end(), c) - v.begin());
      expect(idx(r, parlay::min_element(r, ce)), cn, "min_element-cmp", kind, n); expect(idx(r, parlay::max_element(r, ce)), cx, "max_element-cmp", kind, n);
      auto mc = parlay::minmax_element(r, ce); expect(idx(r, mc.first), cn, "minmax_element-cmp", kind, n); expect(idx(r, mc.second), cx, "minmax_element-cmp", kind, n);
    });
    eval(H(k, n), n > 1);
  }
}
CASE("binary search") {
  for (size_t k = 0, R = rounds(120); k < R; k++) {
    size_t n = rng.chance(1, 3) ? rng.below(40) : findn(rng) % 5000; auto v = gen_keys<int64_t>(rng, n, 1 + rng.below(1000)); std::sort(v.begin(), v.end());
    parlay::sequence<int64_t> s(v.begin(), v.end());
    for (int q = 0; q < 30; q++) {
      int64_t x = n && rng.chance(1, 2) ? v[rng.below(n)] + rng.range(-1, 1) : rng.range(-3, 1005);
      expect(parlay::internal::binary_search(parlay::make_slice(s), x, std::less<>()), static_cast<size_t>(std::lower_bound(v.begin(), v.end(), x) - v.begin()), "binary_search", "sequence", n);
    }
    for (int q = 0; q < 10; q++) { int64_t x = rng.range(-3, 1005); expect(parlay::internal::binary_search(parlay::make_slice(s), [&](int64_t y) { return y < x; }), static_cast<size_t>(std::lower_bound(v.begin(), v.end(), x) - v.begin()), "binary_search-pred", "sequence", n); }
    eval(H(k, n), n > 1);
  }
}
CASE("searches nested in parallel loops") {
  for (size_t k = 0, R = rounds(6); k < R; k++) {
    size_t rows = 30; std::vector<std::vector<int64_t>> m; for (size_t i = 0; i < rows; i++) m.push_back(planted(rng, findn(rng), 0, 3, 3));
    std::vector<size_t> f(rows), c(rows), x(rows);
    parlay::parallel_for(0, rows, [&](size_t i) { f[i] = static_cast<size_t>(parlay::find(m[i], int64_t{3}) - m[i].begin()); c[i] = parlay::count(m[i], int64_t{3}); x[i] = static_cast<size_t>(parlay::max_element(m[i]) - m[i].begin()); }, 1);
    for (size_t i = 0; i < rows; i++) { expect(f[i], static_cast<size_t>(std::find(m[i].begin(), m[i].end(), 3) - m[i].begin()), "find-nested", "vector", m[i].size()); expect(c[i], static_cast<size_t>(std::count(m[i].begin(), m[i].end(), 3)), "count-nested", "vector", m[i].size()); expect(x[i], static_cast<size_t>(std::max_element(m[i].begin(), m[i].end()) - m[i].begin()), "max-nested", "vector", m[i].size()); }
    eval(H(k, rows), true);
  }
}
#endif
