// Boundary-length sweeps: every length near a power of two, near a multiple of the block sizes and every
// small length, with many key shapes, for the sequence primitives of one property per part:
// 1 P12, 2 P13, 3 P14, 4 P15, 5 P16, 6 P17, 7 P18.
#include "gen.h"
#include <parlay/primitives.h>
#include <parlay/delayed.h>
#include <parlay/monoid.h>
#include <map>
#include <set>
using namespace vf;

namespace {
const std::vector<size_t>& lengths() {
  static std::vector<size_t> v = [] {
    std::set<size_t> s;
    for (size_t i = 0; i <= 70; i++) s.insert(i);
    size_t top = thorough() ? 22 : 17;
    for (size_t k = 7; k <= top; k++) for (int d = -2; d <= 2; d++) s.insert((size_t{1} << k) + static_cast<size_t>(d));
    for (size_t b : {1000, 1024, 2000, 3072, 4000, 5000, 6144, 8000, 10000, 20000, 100000}) for (int d = -1; d <= 1; d++) s.insert(b + static_cast<size_t>(d));
    for (size_t b : {12288, 24576, 49152, 98304}) s.insert(b);
    s.insert((size_t{1} << 18)); s.insert((size_t{1} << 18) - 1); s.insert((size_t{1} << 18) + 1); s.insert(250000);
    return std::vector<size_t>(s.begin(), s.end());
  }();
  return v;
}
// Shapes of the keys
constexpr int SHAPES = 14;
uint32_t shaped(int shape, size_t i, size_t n, Rng& r) {
  switch (shape) {
    case 0: return static_cast<uint32_t>(r.below(2));
    case 1: return static_cast<uint32_t>(r.below(10));
    case 2: return static_cast<uint32_t>(r.below(256));
    case 3: return static_cast<uint32_t>(r.below(1000));
    case 4: return static_cast<uint32_t>(r.next());
    case 5: return static_cast<uint32_t>(i);
    case 6: return static_cast<uint32_t>(n - i);
    case 7: return 7;
    case 8: return i < n / 2 ? 5 : static_cast<uint32_t>(r.below(1000));
    case 9: return i == 0 ? 3 : 2;                                     // the first differs
    case 10: return i + 1 == n ? 1 : 2;                                // the last differs
    case 11: return i == n / 2 ? 0 : 2;                                // one in the middle
    case 12: return r.chance(1, 2) ? 999 : static_cast<uint32_t>(r.below(1000));   // the largest is frequent
    default: return i < 2048 ? 1 : static_cast<uint32_t>(r.below(3));  // the first blocks are constant
  }
}
std::vector<uint32_t> keys(int shape, size_t n, Rng& r) { std::vector<uint32_t> v(n); for (size_t i = 0; i < n; i++) v[i] = shaped(shape, i, n, r); return v; }
// Each length with some shapes: all of them when short
template <class F> void sweep(Rng& rng, F f) {
  size_t total = 0;
  for (size_t n : lengths()) {
    size_t reps = n < 70 ? 3 : n <= 10003 ? 7 : n < 140000 ? 4 : 3;
    if (thorough()) reps = n < 600000 ? SHAPES : 4;
    reps = std::max<size_t>(1, static_cast<size_t>(static_cast<double>(reps) * scale()));
    size_t s0 = rng.below(SHAPES);
    for (size_t j = 0; j < reps; j++) {
      int shape = static_cast<int>((s0 + j * 5) % SHAPES);    // 5 and SHAPES are coprime
      auto k = keys(shape, n, rng);
      f(k, shape); total++;
      eval(H(n, shape, k.empty() ? 0 : k[n / 2], k.empty() ? 0 : k[n - 1]), n > 1);
      event("boundary_inputs"); if (n > 60000) event("long_boundary_inputs");
    }
  }
  sample("%zu lengths up to %zu, %zu inputs over %d key shapes", lengths().size(), lengths().back(), total, SHAPES);
}
struct P { uint32_t k, id; bool operator==(const P& o) const { return k == o.k && id == o.id; } };
template <class K> parlay::sequence<P> ps(const K& k) { parlay::sequence<P> v(k.size()); for (size_t i = 0; i < k.size(); i++) v[i] = P{k[i], static_cast<uint32_t>(i)}; return v; }
template <class A, class B> bool same(const A& a, const B& b) { if (a.size() != b.size()) return false; auto i = a.begin(); auto j = b.begin(); for (; i != a.end(); ++i, ++j) if (!(*i == *j)) return false; return true; }
}  // namespace
#define SAME(a, b, key) VF_CHECK(same(a, b), key, "%s: wrong result at n=%zu shape %d", key, n, shape)
#define IS(cond, key) VF_CHECK(cond, key, "%s: wrong result at n=%zu shape %d", key, n, shape)

#if VF_PART == 0 || VF_PART == 1
CASE("sort-lengths") {
  auto less = [](const P& a, const P& b) { return a.k < b.k; };
  sweep(rng, [&](const std::vector<uint32_t>& k, int shape) {
    size_t n = k.size(); auto in = ps(k);
    std::vector<P> ref(in.begin(), in.end()); std::stable_sort(ref.begin(), ref.end(), less);
    std::vector<uint32_t> rk(n); for (size_t i = 0; i < n; i++) rk[i] = ref[i].k;
    auto issort = [&](const auto& v) { if (v.size() != n) return false; std::vector<char> seen(n); for (size_t i = 0; i < n; i++) { if (v[i].k != rk[i] || v[i].id >= n || seen[v[i].id] || k[v[i].id] != v[i].k) return false; seen[v[i].id] = 1; } return true; };
    IS(issort(parlay::sort(in, less)), "bound:sort");
    { auto v = in; parlay::sort_inplace(v, less); IS(issort(v), "bound:sort_inplace"); }
    SAME(parlay::stable_sort(in, less), ref, "bound:stable_sort");
    { auto v = in; parlay::stable_sort_inplace(v, less); SAME(v, ref, "bound:stable_sort_inplace"); }
    parlay::sequence<uint32_t> ki(k.begin(), k.end());
    SAME(parlay::sort(ki), rk, "bound:sort-int");
    SAME(parlay::sort(ki, [](uint32_t a, uint32_t b) { return a < b; }), rk, "bound:sort-lambda");
    { auto v = ki; parlay::sort_inplace(v); SAME(v, rk, "bound:sort_inplace-int"); }
    { auto v = parlay::sort(ki, std::greater<>{}); std::vector<uint32_t> rr(rk.rbegin(), rk.rend()); SAME(v, rr, "bound:sort-greater"); }
    { size_t m = n == 0 ? 0 : rng.below(n + 1); if (rng.chance(1, 3)) m = n / 2;
      std::stable_sort(in.begin(), in.begin() + static_cast<ptrdiff_t>(m), less); std::stable_sort(in.begin() + static_cast<ptrdiff_t>(m), in.end(), less);
      SAME(parlay::merge(in.cut(0, m), in.cut(m, n), less), ref, "bound:merge"); }
    if (n) for (size_t q : {size_t{0}, n / 2, n - 1, static_cast<size_t>(rng.below(n))}) {
      if (n > 30000 && q != n / 2) continue;
      IS(*parlay::kth_smallest(ki, q) == rk[q], "bound:kth_smallest");
      IS(parlay::kth_smallest_copy(ki, q) == rk[q], "bound:kth_smallest_copy");
    }
  });
}
#endif

#if VF_PART == 0 || VF_PART == 2
CASE("integer-sort-lengths") {
  sweep(rng, [&](const std::vector<uint32_t>& k, int shape) {
    size_t n = k.size(); auto in = ps(k);
    std::vector<P> ref(in.begin(), in.end()); std::stable_sort(ref.begin(), ref.end(), [](const P& a, const P& b) { return a.k < b.k; });
    std::vector<uint32_t> rk(n); for (size_t i = 0; i < n; i++) rk[i] = ref[i].k;
    auto key = [](const P& p) { return p.k; };
    SAME(parlay::integer_sort(in, key), ref, "bound:integer_sort");
    SAME(parlay::stable_integer_sort(in, key), ref, "bound:stable_integer_sort");
    { auto v = in; parlay::integer_sort_inplace(v, key); SAME(v, ref, "bound:integer_sort_inplace"); }
    { auto v = in; parlay::stable_integer_sort_inplace(v, key); SAME(v, ref, "bound:stable_integer_sort_inplace"); }
    parlay::sequence<uint32_t> ki(k.begin(), k.end());
    SAME(parlay::integer_sort(ki), rk, "bound:integer_sort-int");
    { auto v = ki; parlay::integer_sort_inplace(v); SAME(v, rk, "bound:integer_sort_inplace-int"); }
    { auto v = parlay::tabulate(n, [&](size_t i) { return (uint64_t{k[i]} << 20) | 77; }); auto w = parlay::integer_sort(v); bool ok = w.size() == n; for (size_t i = 0; ok && i < n; i++) ok = w[i] == ((uint64_t{rk[i]} << 20) | 77); IS(ok, "bound:integer_sort-64"); }
    { auto v = parlay::tabulate(n, [&](size_t i) { return static_cast<unsigned char>(k[i]); }); auto w = parlay::integer_sort(v); std::vector<unsigned char> r8(v.begin(), v.end()); std::sort(r8.begin(), r8.end()); SAME(w, r8, "bound:integer_sort-8"); }
    uint32_t mx = 0; for (auto x : k) mx = std::max(mx, x);
    if (mx <= 1100) {
      size_t b = rng.chance(1, 2) ? mx + 1 : rng.chance(1, 2) ? size_t{1} << (10 + rng.below(2)) : mx + 1 + rng.below(300); if (b <= mx) b = mx + 1;
      auto [s, off] = parlay::counting_sort(in, b, key);
      SAME(s, ref, "bound:counting_sort");
      std::vector<size_t> cnt(b + 1); for (auto x : k) cnt[x + 1]++; for (size_t i = 1; i <= b; i++) cnt[i] += cnt[i - 1];
      bool ok = off.size() >= b; for (size_t i = 0; ok && i < b; i++) ok = off[i] == cnt[i];
      VF_CHECK(ok, "bound:counting_sort-offsets", "counting_sort offsets wrong at n=%zu shape %d buckets %zu", n, shape, b);
      { auto v = in; auto o2 = parlay::counting_sort_inplace(v, b, key); SAME(v, ref, "bound:counting_sort_inplace"); bool ok2 = o2.size() >= b; for (size_t i = 0; ok2 && i < b; i++) ok2 = o2[i] == cnt[i]; IS(ok2, "bound:counting_sort_inplace-offsets"); }
      { auto r = parlay::counting_sort(ki, b); SAME(r.first, rk, "bound:counting_sort-int"); }
      { auto pr = parlay::tabulate(n, [&](size_t i) { return std::make_pair(k[i], static_cast<uint32_t>(i)); }); auto r = parlay::counting_sort_by_keys(pr, b); bool ok2 = r.first.size() == n; for (size_t i = 0; ok2 && i < n; i++) ok2 = r.first[i] == ref[i].id; IS(ok2, "bound:counting_sort_by_keys"); }
    }
  });
}
#endif

#if VF_PART == 0 || VF_PART == 3
CASE("scan-lengths") {
  struct A { uint64_t a, b; bool operator==(const A& o) const { return a == o.a && b == o.b; } };
  auto comp = [](A x, A y) { return A{x.a * y.a, x.b * y.a + y.b}; };   // x, then y
  sweep(rng, [&](const std::vector<uint32_t>& k, int shape) {
    size_t n = k.size(); 
    auto in = parlay::tabulate(n, [&](size_t i) { return uint64_t{k[i]}; });
    std::vector<uint64_t> ex(n), inc(n); uint64_t s = 0; for (size_t i = 0; i < n; i++) { ex[i] = s; s += k[i]; inc[i] = s; }
    IS(parlay::reduce(in) == s, "bound:reduce");
    { auto [v, t] = parlay::scan(in); SAME(v, ex, "bound:scan"); IS(t == s, "bound:scan-total"); }
    SAME(parlay::scan_inclusive(in), inc, "bound:scan_inclusive");
    { auto v = in; auto t = parlay::scan_inplace(v); SAME(v, ex, "bound:scan_inplace"); IS(t == s, "bound:scan_inplace-total"); }
    { auto v = in; auto t = parlay::scan_inclusive_inplace(v); SAME(v, inc, "bound:scan_inclusive_inplace"); IS(t == s, "bound:scan_inclusive_inplace-total"); }
    auto m = parlay::binary_op(comp, A{1, 0});
    auto fa = parlay::tabulate(n, [&](size_t i) { return A{2 * uint64_t{k[i]} + 1, mix(i)}; });
    std::vector<A> ea(n), ia(n); A c{1, 0}; for (size_t i = 0; i < n; i++) { ea[i] = c; c = comp(c, fa[i]); ia[i] = c; }
    IS(parlay::reduce(fa, m) == c, "bound:reduce-affine");
    { auto [v, t] = parlay::scan(fa, m); SAME(v, ea, "bound:scan-affine"); IS(t == c, "bound:scan-affine-total"); }
    SAME(parlay::scan_inclusive(fa, m), ia, "bound:scan_inclusive-affine");
    { auto v = fa; auto t = parlay::scan_inplace(v, m); SAME(v, ea, "bound:scan_inplace-affine"); IS(t == c, "bound:scan_inplace-affine-total"); }
    { auto v = fa; auto t = parlay::scan_inclusive_inplace(v, m); SAME(v, ia, "bound:scan_inclusive_inplace-affine"); IS(t == c, "bound:scan_inclusive_inplace-affine-total"); }
    IS(parlay::reduce(in, parlay::maximum<uint64_t>()) == (n ? uint64_t{*std::max_element(k.begin(), k.end())} : std::numeric_limits<uint64_t>::lowest()), "bound:reduce-max");
    IS(parlay::reduce(parlay::delayed_tabulate(n, [&](size_t i) { return uint64_t{k[i]}; })) == s, "bound:reduce-delayed");
  });
}
#endif

#if VF_PART == 0 || VF_PART == 4
CASE("map-lengths") {
  sweep(rng, [&](const std::vector<uint32_t>& k, int shape) {
    size_t n = k.size(); parlay::sequence<uint32_t> in(k.begin(), k.end());
    uint32_t piv = n ? k[rng.below(n)] : 0; bool inv = rng.chance(1, 2);
    auto pred = [&](uint32_t x) { return inv ? x != piv : x <= piv; };
    std::vector<uint32_t> f, rest; std::vector<size_t> fi; for (size_t i = 0; i < n; i++) if (pred(k[i])) { f.push_back(k[i]); fi.push_back(i); } else rest.push_back(k[i]);
    SAME(parlay::filter(in, pred), f, "bound:filter");
    auto flags = parlay::tabulate(n, [&](size_t i) { return pred(k[i]); });
    SAME(parlay::pack(in, flags), f, "bound:pack");
    SAME(parlay::pack_index(flags), fi, "bound:pack_index");
    SAME(parlay::pack_index<uint32_t>(flags), fi, "bound:pack_index-u32");
    { parlay::sequence<uint32_t> out(n + 8, 0xabcdef01u); size_t c = parlay::filter_into_uninitialized(in, out, pred); bool ok = c == f.size(); for (size_t i = 0; ok && i < c; i++) ok = out[i] == f[i]; for (size_t i = n; i < n + 8; i++) ok = ok && out[i] == 0xabcdef01u; IS(ok, "bound:filter_into"); }
    { parlay::sequence<uint32_t> out(n + 8, 0xabcdef01u); size_t c = parlay::pack_into_uninitialized(in, flags, out); bool ok = c == f.size(); for (size_t i = 0; ok && i < c; i++) ok = out[i] == f[i]; for (size_t i = n; i < n + 8; i++) ok = ok && out[i] == 0xabcdef01u; IS(ok, "bound:pack_into"); }
    SAME(parlay::remove_if(in, pred), rest, "bound:remove_if");
    { auto v = k; v.erase(std::remove(v.begin(), v.end(), piv), v.end()); SAME(parlay::remove(in, piv), v, "bound:remove"); }
    { auto v = k; v.erase(std::unique(v.begin(), v.end()), v.end()); SAME(parlay::unique(in), v, "bound:unique"); }
    { auto v = k; for (auto& x : v) x = x * 3 + 1; SAME(parlay::map(in, [](uint32_t x) { return x * 3 + 1; }), v, "bound:map");
      SAME(parlay::tabulate(n, [&](size_t i) { return k[i] * 3 + 1; }), v, "bound:tabulate");
      SAME(parlay::to_sequence(parlay::delayed_map(in, [](uint32_t x) { return x * 3 + 1; })), v, "bound:delayed_map"); }
    { auto v = k; std::reverse(v.begin(), v.end()); SAME(parlay::reverse(in), v, "bound:reverse"); auto w = in; parlay::reverse_inplace(w); SAME(w, v, "bound:reverse_inplace"); }
    if (n) { size_t t = rng.below(n); auto v = k; std::rotate(v.begin(), v.begin() + static_cast<ptrdiff_t>(t), v.end()); SAME(parlay::rotate(in, t), v, "bound:rotate"); }
    { auto v = k; v.insert(v.end(), f.begin(), f.end()); SAME(parlay::append(in, f), v, "bound:append"); }
    { auto v = parlay::map_maybe(in, [&](uint32_t x) { return pred(x) ? std::make_optional(x) : std::nullopt; }); SAME(v, f, "bound:map_maybe"); }
    { auto z = parlay::zip(in, flags); bool ok = z.size() == n; for (size_t i = 0; ok && i < n; i++) ok = std::get<0>(z[i]) == k[i] && std::get<1>(z[i]) == flags[i]; IS(ok, "bound:zip"); }
    { auto s = parlay::split_at(in, flags); bool ok = s.size() == fi.size() + 1; size_t at = 0; for (size_t i = 0; ok && i < s.size(); i++) { size_t e = i < fi.size() ? fi[i] + 1 : n; ok = s[i].size() == e - at; for (size_t j = 0; ok && j < s[i].size(); j++) ok = s[i][j] == k[at + j]; at = e; } IS(ok, "bound:split_at");
      auto fl = parlay::flatten(s); SAME(fl, k, "bound:flatten"); auto fl2 = parlay::flatten(std::move(s)); SAME(fl2, k, "bound:flatten-move"); }
    { parlay::sequence<uint32_t> out(n + 4, 9); parlay::copy(in, parlay::make_slice(out).cut(0, n)); bool ok = std::equal(k.begin(), k.end(), out.begin()); for (size_t i = n; i < n + 4; i++) ok = ok && out[i] == 9; IS(ok, "bound:copy"); }
    { std::vector<std::atomic<unsigned char>> c(n); parlay::for_each(parlay::iota(n), [&](size_t i) { c[i]++; }); bool ok = true; for (auto& x : c) ok = ok && x == 1; IS(ok, "bound:for_each"); }
    { auto r = parlay::rank(in); auto o = parlay::to_sequence(parlay::iota(n)); bool ok = r.size() == n; std::vector<char> seen(n); std::vector<size_t> at(n); for (size_t i = 0; ok && i < n; i++) { ok = r[i] < n && !seen[r[i]]; if (ok) { seen[r[i]] = 1; at[r[i]] = i; } } for (size_t i = 1; ok && i < n; i++) ok = k[at[i - 1]] < k[at[i]] || (k[at[i - 1]] == k[at[i]] && at[i - 1] < at[i]); IS(ok && o.size() == n, "bound:rank"); }
  });
}
#endif

#if VF_PART == 0 || VF_PART == 5
CASE("find-lengths") {
  sweep(rng, [&](const std::vector<uint32_t>& k, int shape) {
    size_t n = k.size(); parlay::sequence<uint32_t> in(k.begin(), k.end());
    auto B = k.begin(), E = k.end(); auto P0 = [&](auto it) { return it - in.begin(); };
    uint32_t vals[] = {n ? k[rng.below(n)] : 0, n ? k[n - 1] : 1, 1u << 30};
    for (uint32_t v : vals) {
      IS(P0(parlay::find(in, v)) == std::find(B, E, v) - B, "bound:find");
      IS(parlay::count(in, v) == static_cast<size_t>(std::count(B, E, v)), "bound:count");
      auto p = [v](uint32_t x) { return x == v; }; auto np = [v](uint32_t x) { return x != v; };
      IS(P0(parlay::find_if(in, np)) == std::find_if(B, E, np) - B, "bound:find_if");
      IS(P0(parlay::find_if_not(in, np)) == std::find_if_not(B, E, np) - B, "bound:find_if_not");
      IS(parlay::count_if(in, np) == static_cast<size_t>(std::count_if(B, E, np)), "bound:count_if");
      IS(parlay::all_of(in, np) == std::all_of(B, E, np) && parlay::any_of(in, p) == std::any_of(B, E, p) && parlay::none_of(in, p) == std::none_of(B, E, p), "bound:any_all_none");
      IS(parlay::is_partitioned(in, np) == std::is_partitioned(B, E, np), "bound:is_partitioned");
    }
    IS(P0(parlay::adjacent_find(in)) == std::adjacent_find(B, E) - B, "bound:adjacent_find");
    IS(parlay::is_sorted(in) == std::is_sorted(B, E), "bound:is_sorted");
    IS(P0(parlay::is_sorted_until(in)) == std::is_sorted_until(B, E) - B, "bound:is_sorted_until");
    if (n) {
      IS(P0(parlay::min_element(in)) == std::min_element(B, E) - B, "bound:min_element");
      IS(k[static_cast<size_t>(P0(parlay::max_element(in)))] == *std::max_element(B, E), "bound:max_element");
      auto mm = parlay::minmax_element(in); IS(k[static_cast<size_t>(P0(mm.first))] == *std::min_element(B, E) && k[static_cast<size_t>(P0(mm.second))] == *std::max_element(B, E), "bound:minmax_element");
    }
    std::vector<uint32_t> o = k; parlay::sequence<uint32_t> oi;
    switch (rng.below(4)) { case 0: break; case 1: if (n) o[n - 1] ^= 1; break; case 2: if (n) o[rng.below(n)] ^= 1; break; default: if (n) o.pop_back(); }
    oi = parlay::sequence<uint32_t>(o.begin(), o.end());
    { auto a = parlay::mismatch(in, oi); auto b = std::mismatch(B, E, o.begin(), o.end()); IS(P0(a.first) == b.first - B && a.second - oi.begin() == b.second - o.begin(), "bound:mismatch"); }
    IS(parlay::equal(in, oi) == (k == o), "bound:equal");
    IS((in == oi) == (k == o), "bound:seq-equal");
    IS(parlay::lexicographical_compare(in, oi) == std::lexicographical_compare(B, E, o.begin(), o.end()), "bound:lexicographical_compare");
    IS(parlay::lexicographical_compare(oi, in) == std::lexicographical_compare(o.begin(), o.end(), B, E), "bound:lexicographical_compare-swapped");
    { size_t l = std::min<size_t>(n, 1 + rng.below(3)); size_t at = n > l ? (rng.chance(1, 2) ? n - l : rng.below(n - l + 1)) : 0; std::vector<uint32_t> pat(B + static_cast<ptrdiff_t>(at), B + static_cast<ptrdiff_t>(at + l)); if (rng.chance(1, 4) && l) pat[l - 1] = 1u << 30;
      if (l) { IS(P0(parlay::search(in, pat)) == std::search(B, E, pat.begin(), pat.end()) - B, "bound:search");
      IS(P0(parlay::find_end(in, pat)) == std::find_end(B, E, pat.begin(), pat.end()) - B, "bound:find_end");
      IS(P0(parlay::find_first_of(in, pat)) == std::find_first_of(B, E, pat.begin(), pat.end()) - B, "bound:find_first_of"); } }
  });
}
#endif

#if VF_PART == 0 || VF_PART == 6
CASE("group-lengths") {
  sweep(rng, [&](const std::vector<uint32_t>& k, int shape) {
    size_t n = k.size(); parlay::sequence<uint32_t> in(k.begin(), k.end());
    std::vector<uint32_t> d = k; std::sort(d.begin(), d.end()); std::vector<std::pair<uint32_t, size_t>> cnt; for (auto x : d) if (cnt.empty() || cnt.back().first != x) cnt.emplace_back(x, 1); else cnt.back().second++;
    std::vector<uint32_t> dk; for (auto& c : cnt) dk.push_back(c.first);
    { auto h = parlay::histogram_by_key(in); std::vector<std::pair<uint32_t, size_t>> v; for (auto& e : h) v.emplace_back(e.first, e.second); std::sort(v.begin(), v.end()); IS(v == cnt, "bound:histogram_by_key"); }
    { auto h = parlay::remove_duplicates(in); std::vector<uint32_t> v(h.begin(), h.end()); std::sort(v.begin(), v.end()); IS(v == dk, "bound:remove_duplicates"); }
    SAME(parlay::remove_duplicates_ordered(in), dk, "bound:remove_duplicates_ordered");
    auto kv = parlay::tabulate(n, [&](size_t i) { return std::make_pair(k[i], static_cast<uint32_t>(i)); });
    auto groups = [&](auto&& g, const char* key, bool ordered) {
      bool ok = g.size() == cnt.size(); size_t total = 0; std::vector<char> seen(n); uint32_t prev = 0; bool first = true;
      for (auto& e : g) {
        if (!ok) break;
        auto it = std::lower_bound(dk.begin(), dk.end(), e.first);
        ok = it != dk.end() && *it == e.first && e.second.size() == cnt[static_cast<size_t>(it - dk.begin())].second;
        if (ordered && !first && !(prev < e.first)) ok = false;
        first = false; prev = e.first; total += e.second.size(); uint32_t last = 0; bool fst = true;
        for (auto id : e.second) { if (id >= n || seen[id] || k[id] != e.first) { ok = false; break; } seen[id] = 1; if (ordered && !fst && id < last) { ok = false; break; } last = id; fst = false; }
      }
      VF_CHECK(ok && total == n, key, "%s: wrong groups at n=%zu shape %d", key, n, shape);
    };
    groups(parlay::group_by_key(kv), "bound:group_by_key", false);
    groups(parlay::group_by_key_ordered(kv), "bound:group_by_key_ordered", true);
    { auto sk = parlay::tabulate(n, [&](size_t i) { return std::make_pair(static_cast<int>(k[i] & 0x7fffffff) - 500, static_cast<uint32_t>(i)); });   // negative and positive keys
      auto g = parlay::group_by_key_ordered(sk); std::map<int, std::vector<uint32_t>> m; for (auto& [a, b] : sk) m[a].push_back(b);
      bool ok = g.size() == m.size(); size_t j = 0; for (auto& [a, b] : m) { if (!ok) break; ok = g[j].first == a && same(g[j].second, b); j++; } IS(ok, "bound:group_by_key_ordered-signed"); }
    std::vector<std::pair<uint32_t, uint64_t>> sums; { std::map<uint32_t, uint64_t> m; for (size_t i = 0; i < n; i++) m[k[i]] += i; sums.assign(m.begin(), m.end()); }
    { auto kv64 = parlay::tabulate(n, [&](size_t i) { return std::make_pair(k[i], uint64_t{i}); }); auto h = parlay::reduce_by_key(kv64); std::vector<std::pair<uint32_t, uint64_t>> v; for (auto& e : h) v.emplace_back(e.first, e.second); std::sort(v.begin(), v.end()); IS(v == sums, "bound:reduce_by_key");
      uint32_t mx = d.empty() ? 0 : d.back();
      if (mx < 2000000) {
        uint32_t b = mx + 1 + static_cast<uint32_t>(rng.chance(1, 2) ? 0 : rng.below(40));
        auto hi = parlay::histogram_by_index(in, b); std::vector<size_t> c(b); for (auto x : k) c[x]++; SAME(hi, c, "bound:histogram_by_index");
        auto ri = parlay::reduce_by_index(kv64, b); std::vector<uint64_t> s(b); for (size_t i = 0; i < n; i++) s[k[i]] += i; SAME(ri, s, "bound:reduce_by_index");
        auto ui = parlay::remove_duplicate_integers(in, b); std::vector<uint32_t> u(ui.begin(), ui.end()); std::sort(u.begin(), u.end()); IS(u == dk, "bound:remove_duplicate_integers");
        auto gi = parlay::group_by_index(kv, b); bool ok = gi.size() == b; for (size_t j = 0; ok && j < b; j++) ok = gi[j].size() == c[j]; std::vector<char> seen(n); for (size_t j = 0; ok && j < b; j++) for (auto id : gi[j]) { if (id >= n || seen[id] || k[id] != j) { ok = false; break; } seen[id] = 1; } IS(ok, "bound:group_by_index");
      }
    }
  });
}
#endif

#if VF_PART == 0 || VF_PART == 7
CASE("delayed-lengths") {
  namespace dl = parlay::delayed;
  sweep(rng, [&](const std::vector<uint32_t>& k, int shape) {
    size_t n = k.size(); parlay::sequence<uint32_t> in(k.begin(), k.end());
    uint32_t piv = n ? k[rng.below(n)] : 0; bool inv = rng.chance(1, 2);
    auto pred = [&](uint32_t x) { return inv ? x != piv : x <= piv; };
    std::vector<uint32_t> f; for (auto x : k) if (pred(x)) f.push_back(x);
    std::vector<uint64_t> ex(n), inc(n); uint64_t s = 0; for (size_t i = 0; i < n; i++) { ex[i] = s; s += k[i]; inc[i] = s; }
    auto in64 = parlay::tabulate(n, [&](size_t i) { return uint64_t{k[i]}; });
    auto same_it = [&](auto&& view, const auto& ref) { size_t i = 0; for (auto it = view.begin(); it != view.end(); ++it, ++i) if (i >= ref.size() || !(*it == ref[i])) return false; return i == ref.size(); };
    { auto v = dl::filter(in, pred); IS(v.size() == f.size(), "bound:delayed-filter-size"); SAME(dl::to_sequence(v), f, "bound:delayed-filter"); IS(same_it(v, f), "bound:delayed-filter-iteration"); }
    { auto v = dl::filter_op(in, [&](uint32_t x) { return pred(x) ? std::make_optional(x) : std::nullopt; }); SAME(dl::to_sequence(v), f, "bound:delayed-filter_op"); }
    { auto [v, t] = dl::scan(in64); SAME(dl::to_sequence(v), ex, "bound:delayed-scan"); IS(t == s, "bound:delayed-scan-total"); IS(same_it(v, ex), "bound:delayed-scan-iteration"); }
    { auto v = dl::scan_inclusive(in64); SAME(dl::to_sequence(v), inc, "bound:delayed-scan_inclusive"); }
    { auto v = dl::map(dl::filter(in, pred), [](uint32_t x) { return x + 5; }); auto g = f; for (auto& x : g) x += 5; SAME(dl::to_sequence(v), g, "bound:delayed-map-filter"); 
      uint64_t gs = 0; for (auto x : g) gs += x; IS(dl::reduce(dl::map(v, [](uint32_t x) { return uint64_t{x}; })) == gs, "bound:delayed-reduce"); }
    { auto z = dl::zip(in, in64); auto w = dl::to_sequence(z); bool ok = w.size() == n; for (size_t i = 0; ok && i < n; i++) ok = std::get<0>(w[i]) == k[i] && std::get<1>(w[i]) == k[i]; IS(ok, "bound:delayed-zip"); }
    { parlay::sequence<parlay::sequence<uint32_t>> nest; size_t at = 0; while (at < n) { size_t l = rng.chance(1, 3) ? 0 : rng.chance(1, 3) ? 1 + rng.below(3000) : rng.below(200); l = std::min(l, n - at); nest.push_back(parlay::sequence<uint32_t>(k.begin() + static_cast<ptrdiff_t>(at), k.begin() + static_cast<ptrdiff_t>(at + l))); at += l; }
      if (rng.chance(1, 2)) nest.push_back(parlay::sequence<uint32_t>());
      auto v = dl::flatten(nest); IS(v.size() == n, "bound:delayed-flatten-size"); SAME(dl::to_sequence(v), k, "bound:delayed-flatten"); IS(same_it(v, k), "bound:delayed-flatten-iteration"); 
      SAME(dl::to_sequence(dl::filter(v, pred)), f, "bound:delayed-filter-flatten"); }
    { std::vector<std::atomic<unsigned char>> c(n); dl::for_each(parlay::iota(n), [&](size_t i) { c[i]++; }); bool ok = true; for (auto& x : c) ok = ok && x == 1; IS(ok, "bound:delayed-for_each"); }
  });
}
#endif
