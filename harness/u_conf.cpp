// P23: the results of deterministic operations, compared across worker counts, back-ends, allocators and builds (by
// digest), and between a call made at top level and calls made from inside other parallel work.
// The same workload under TSan decides part of P05 and under ASan/UBSan part of P24.
#include "gen.h"
#include <algorithm>
#include <cmath>
#include <parlay/alloc.h>
#include <parlay/delayed.h>
#include <parlay/hash_table.h>
#include <parlay/io.h>
#include <parlay/monoid.h>
#include <parlay/parallel.h>
#include <parlay/primitives.h>
#include <parlay/random.h>
#include <parlay/sequence.h>
#include <parlay/worker_specific.h>
#include <parlay/thread_specific.h>
#include <parlay/internal/merge_sort.h>
#include <parlay/internal/sample_sort.h>
#include <parlay/internal/group_by.h>
using namespace vf;
using parlay::sequence;

namespace {
// ---- hash of a result
template <class T> uint64_t h1(const T& x);
template <class R> uint64_t hseq(const R& r) { uint64_t h = 77; size_t n = 0; for (auto&& x : r) { h = mix(h ^ h1(std::decay_t<decltype(x)>(x))); n++; } return mix(h ^ n); }
template <class T> uint64_t h1(const T& x) {
  if constexpr (std::is_same_v<T, double>) { uint64_t u; memcpy(&u, &x, 8); return mix(u ^ 1); }
  else if constexpr (std::is_same_v<T, float>) { uint32_t u; memcpy(&u, &x, 4); return mix(u ^ 2); }
  else if constexpr (std::is_integral_v<T>) return mix(static_cast<uint64_t>(x));
  else if constexpr (std::is_pointer_v<T>) return 5;
  else if constexpr (std::is_same_v<T, KV> || std::is_same_v<T, KVStr> || std::is_same_v<T, KVBig>) return H(static_cast<uint64_t>(x.k), static_cast<uint64_t>(x.id));
  else if constexpr (parlay::is_pair_v<T>) return H(h1(x.first), h1(x.second));
  else return hseq(x);
}
// hash of a result whose order is unspecified
template <class R> uint64_t hset(const R& r) { uint64_t s = 0, x = 0; size_t n = 0; for (auto&& e : r) { uint64_t u = h1(e); s += u; x ^= mix(u); n++; } return H(s, x, n); }
template <class R> uint64_t hkeys(const R& r) { uint64_t h = 3; for (auto&& e : r) h = mix(h ^ static_cast<uint64_t>(e.k)); return h; }

uint64_t ops_done = 0;
// one operation on one input: a hash of its result, at top level and from inside other parallel work
template <class F> void op(const std::string& name, uint64_t id, size_t n, F&& f) {
  uint64_t h = f();
  digest(name + "/" + std::to_string(id) + "/" + std::to_string(n), h);
  std::atomic<int> bad{0}; int copies = n < 3000 ? 5 : 3;
  parlay::parallel_for(0, static_cast<size_t>(copies), [&](size_t) { if (f() != h) bad++; }, 1);
  VF_CHECK(bad == 0, "nested:" + name, "%s of %zu elements: %d of %d calls from inside a parallel loop gave another result", name.c_str(), n, bad.load(), copies);
  if (n < 3000) { bad = 0; parlay::par_do([&] { if (f() != h) bad++; }, [&] { parlay::par_do([&] { if (f() != h) bad++; }, [&] { if (f() != h) bad++; }); });
    VF_CHECK(bad == 0, "nested:" + name, "%s of %zu elements: %d of 3 calls from inside parallel branches gave another result", name.c_str(), n, bad.load()); }
  event("operations"); event("nested_calls", static_cast<uint64_t>(copies)); ops_done++; eval(H(hash_str(name), id, n, h), n > 1);
}
#define OP(name) op((name), id, n, [&]() -> uint64_t
// inputs depend on the seed alone
std::vector<size_t> sizes() { std::vector<size_t> s{0, 1, 2, 33, 1000, 1025, 2500, 4100, 8193, 10050}; if (scale() >= 0.25) s.push_back(20000); if (scale() >= 0.9) { s.push_back(70001); } return s; }
struct In { size_t n; uint64_t id, nk; std::vector<uint64_t> k; };
template <class F> void inputs(uint64_t salt, F&& f) {
  for (size_t n : sizes()) {
    Rng r(H(seed(), salt, n)); size_t reps = (n < 3000 ? 2 : 1) * (scale() >= 0.9 ? 3 : 1) * (thorough() ? 4 : 1);
    for (uint64_t id = 0; id < reps; id++) {
      uint64_t c[] = {1, 2, 3, 16, 100, 256, n / 3 + 1, 4 * n + 1}; In in{n, id, c[r.below(8)], {}};
      int sh = static_cast<int>(r.below(5));
      for (size_t i = 0; i < n; i++) in.k.push_back(sh == 0 ? i * in.nk / (n + 1) : sh == 1 ? in.nk - 1 - i * in.nk / (n + 1) : sh == 2 ? (r.chance(1, 2) ? 0 : r.below(in.nk)) : r.below(in.nk));
      f(in);
    }
  }
  sample("%llu operations so far, workers %zu", static_cast<unsigned long long>(ops_done), parlay::num_workers());
}
struct KLess { template <class A> bool operator()(const A& a, const A& b) const { return a.k < b.k; } };
struct KeyOf { template <class A> uint64_t operator()(const A& a) const { return static_cast<uint64_t>(a.k); } };
}  // namespace

#if VF_PART == 1
template <class T> void sorts(uint64_t salt) {
  inputs(salt, [](const In& in) {
    size_t n = in.n; uint64_t id = in.id;
    auto s = parlay::tabulate(n, [&](size_t i) { return make_kv<T>(static_cast<int64_t>(in.k[i]), static_cast<int64_t>(i)); });
    OP("sort") { return hkeys(parlay::sort(s, KLess{})); });
    OP("sort_inplace") { auto t = s; parlay::sort_inplace(t, KLess{}); return hkeys(t); });
    OP("stable_sort") { return hseq(parlay::stable_sort(s, KLess{})); });
    OP("stable_sort_inplace") { auto t = s; parlay::stable_sort_inplace(t, KLess{}); return hseq(t); });
    OP("integer_sort") { return hkeys(parlay::integer_sort(s, KeyOf{})); });
    OP("stable_integer_sort") { return hseq(parlay::stable_integer_sort(s, KeyOf{})); });
    OP("stable_integer_sort_inplace") { auto t = s; parlay::stable_integer_sort_inplace(t, KeyOf{}); return hseq(t); });
    if (in.nk <= 3000) OP("counting_sort") { auto [o, off] = parlay::counting_sort(s, in.nk, KeyOf{}); return H(hseq(o), hseq(off)); });
    if (in.nk <= 3000) OP("counting_sort_inplace") { auto t = s; auto off = parlay::counting_sort_inplace(t, in.nk, KeyOf{}); return H(hseq(t), hseq(off)); });
    OP("rank") { return hseq(parlay::rank(s, KLess{})); });
    if (n) OP("kth_smallest") { return H(static_cast<uint64_t>(parlay::kth_smallest(s, n / 3, KLess{})->k), static_cast<uint64_t>(parlay::kth_smallest_copy(s, n - 1, KLess{}).k)); });
    OP("merge") { auto a = parlay::stable_sort(s.cut(0, n / 3), KLess{}), b = parlay::stable_sort(s.cut(n / 3, n), KLess{}); return hseq(parlay::merge(a, b, KLess{})); });
    OP("sorted") { auto t = parlay::stable_sort(s, KLess{}); return H(parlay::is_sorted(t, KLess{}), parlay::is_sorted(s, KLess{}), parlay::is_sorted_until(s, KLess{}) - s.begin()); });
    OP("unique") { auto t = parlay::stable_sort(s, KLess{}); return hkeys(parlay::unique(t, [](const T& a, const T& b) { return a.k == b.k; })); });
  });
}
CASE("sorts of records") { sorts<KV>(11); }
CASE("sorts of strings") { sorts<KVStr>(12); }
CASE("sorts of plain integers") {
  inputs(13, [](const In& in) {
    size_t n = in.n; uint64_t id = in.id;
    auto s = parlay::tabulate(n, [&](size_t i) { return static_cast<uint32_t>(mix(in.k[i])); });
    auto l = parlay::tabulate(n, [&](size_t i) { return static_cast<int64_t>(mix(in.k[i])); });
    auto c = parlay::tabulate(n, [&](size_t i) { return static_cast<uint8_t>(mix(in.k[i])); });
    OP("sort u32") { return hseq(parlay::sort(s)); }); OP("sort i64") { return hseq(parlay::sort(l)); });
    OP("integer_sort u32") { return hseq(parlay::integer_sort(s)); }); OP("integer_sort u8") { return hseq(parlay::integer_sort(c)); });
    OP("counting_sort u8") { auto [o, off] = parlay::counting_sort(c, 256); return H(hseq(o), hseq(off)); });
    OP("remove_duplicates_ordered") { return hseq(parlay::remove_duplicates_ordered(l)); });
    OP("integer_sort_inplace u32") { auto t = s; parlay::integer_sort_inplace(t); return hseq(t); });
  });
}
#elif VF_PART == 2
CASE("folds and searches") {
  inputs(21, [](const In& in) {
    size_t n = in.n; uint64_t id = in.id;
    auto s = parlay::tabulate(n, [&](size_t i) { return static_cast<int64_t>(in.k[i]); });
    auto d = parlay::tabulate(n, [&](size_t i) { return static_cast<double>(static_cast<int64_t>(mix(in.k[i]))) * 1e-7; });
    auto f = parlay::tabulate(n, [&](size_t i) { return static_cast<float>(mix(in.k[i]) % 100003) * 0.37f; });
    auto str = parlay::tabulate(n / 4, [&](size_t i) { return parlay::to_chars(in.k[i] % 977); });
    auto odd = [](int64_t x) { return (mix(static_cast<uint64_t>(x)) & 1) != 0; };
    OP("reduce") { return H(parlay::reduce(s), parlay::reduce(s, parlay::bit_xor<int64_t>()), parlay::reduce(s, parlay::minimum<int64_t>()), parlay::reduce(s, parlay::maximum<int64_t>())); });
    OP("reduce of floats") { return H(h1(parlay::reduce(d)), h1(parlay::reduce(f)), h1(parlay::reduce(d, parlay::maximum<double>()))); });
    OP("reduce of strings") { return h1(parlay::reduce(str, parlay::binary_op([](const parlay::chars& a, const parlay::chars& b) { return parlay::append(a, b); }, parlay::chars{}))); });
    OP("scan") { auto [o, t] = parlay::scan(s); return H(hseq(o), t); });
    OP("scan of floats") { auto [o, t] = parlay::scan(d); auto g = parlay::scan_inclusive(f); return H(hseq(o), h1(t), hseq(g)); });
    OP("scan_inclusive") { return hseq(parlay::scan_inclusive(s, parlay::maximum<int64_t>())); });
    OP("scan_inplace") { auto t = s; auto x = parlay::scan_inplace(t); auto u = s; parlay::scan_inclusive_inplace(u); return H(hseq(t), x, hseq(u)); });
    OP("count and find") { return H(parlay::count(s, 0), parlay::count_if(s, odd), parlay::find(s, 1) - s.begin(), parlay::find_if(s, odd) - s.begin(), parlay::find_if_not(s, odd) - s.begin(), parlay::all_of(s, odd), parlay::any_of(s, odd), parlay::none_of(s, odd), parlay::adjacent_find(s) - s.begin()); });
    if (n) OP("extreme elements") { auto mm = parlay::minmax_element(s); return H(parlay::min_element(s) - s.begin(), parlay::max_element(s) - s.begin(), mm.first - s.begin(), mm.second - s.begin()); });
    OP("search and compare") { auto p = s.cut(n / 2, std::min(n, n / 2 + 3)); auto t = s; if (n) t[n * 2 / 3]++; return H(parlay::search(s, p) - s.begin(), parlay::find_end(s, p) - s.begin(), parlay::equal(s, t), parlay::mismatch(s, t).first - s.begin(), parlay::lexicographical_compare(s, t), s < t, s == t, parlay::find_first_of(s, p) - s.begin()); });
    OP("is_partitioned") { return H(parlay::is_partitioned(s, odd)); });
  });
}
CASE("maps and packs") {
  inputs(22, [](const In& in) {
    size_t n = in.n; uint64_t id = in.id;
    auto s = parlay::tabulate(n, [&](size_t i) { return std::make_pair(in.k[i], i); });
    auto odd = [](auto& p) { return (mix(p.first * 31 + p.second) & 1) != 0; };
    auto fl = parlay::map(s, odd);
    OP("map") { return hseq(parlay::map(s, [](auto& p) { return p.first * 3 + p.second; })); });
    OP("filter and pack") { return H(hseq(parlay::filter(s, odd)), hseq(parlay::pack(s, fl)), hseq(parlay::pack_index(fl)), hseq(parlay::remove_if(s, odd))); });
    OP("map_maybe") { return hseq(parlay::map_maybe(s, [&](auto& p) -> std::optional<size_t> { if (odd(p)) return p.second; return std::nullopt; })); });
    OP("reverse, rotate, append") { auto t = s; parlay::reverse_inplace(t); return H(hseq(parlay::reverse(s)), hseq(t), hseq(parlay::rotate(s, n / 3)), hseq(parlay::append(s, t))); });
    OP("flatten") { auto nested = parlay::tabulate(n / 10, [&](size_t i) { return parlay::tabulate(in.k[i] % 37, [&](size_t j) { return i * 100 + j; }); }); auto a = hseq(parlay::flatten(nested)); return H(a, hseq(parlay::flatten(std::move(nested)))); });
    OP("split_at") { return hseq(parlay::split_at(s, fl)); });
    OP("map_split_at") { return hseq(parlay::map_split_at(s, fl, [](auto p) { return p.size(); })); });
    OP("remove") { auto k = parlay::map(s, [](auto& p) { return p.first; }); return H(hseq(parlay::remove(k, uint64_t{0})), hseq(parlay::to_sequence(parlay::iota<size_t>(n)))); });
    OP("copy and for_each") { auto t = parlay::sequence<std::pair<uint64_t, size_t>>(n); parlay::copy(s, t); parlay::for_each(t, [](auto& p) { p.first++; }); return hseq(t); });
    OP("zip") { auto z = parlay::zip(s, fl); uint64_t h = 1; for (size_t i = 0; i < n; i++) h = mix(h ^ std::get<0>(z[i]).second ^ (std::get<1>(z[i]) ? 7u : 0u)); return h; });
    OP("find_if_index") { return H(parlay::internal::find_if_index(n, [&](size_t i) { return in.k[i] == in.k[n - 1] && i * 3 > n; }), parlay::internal::count_if_index(n, [&](size_t i) { return fl[i]; })); });
  });
}
#elif VF_PART == 3
CASE("groups") {
  inputs(31, [](const In& in) {
    size_t n = in.n; uint64_t id = in.id; size_t nk = std::min<uint64_t>(in.nk, 3000);
    auto s = parlay::tabulate(n, [&](size_t i) { return std::make_pair(in.k[i] % nk, static_cast<int64_t>(i)); });
    auto k = parlay::map(s, [](auto& p) { return p.first; });
    auto str = parlay::tabulate(n, [&](size_t i) { return std::make_pair(parlay::to_chars(in.k[i] % 301), static_cast<int64_t>(i)); });
    OP("group_by_key") { return hset(parlay::group_by_key(s)); });
    OP("group_by_key of strings") { return hset(parlay::group_by_key(str)); });
    OP("group_by_key_ordered") { return hseq(parlay::group_by_key_ordered(s)); });
    OP("group_by_index") { return hseq(parlay::group_by_index(s, nk)); });
    OP("reduce_by_key") { return H(hset(parlay::reduce_by_key(s)), hset(parlay::reduce_by_key(s, parlay::binary_op([](int64_t a, int64_t b) { return a == -1 ? b : a; }, int64_t{-1})))); });
    OP("reduce_by_key of strings") { return hset(parlay::reduce_by_key(str)); });
    OP("reduce_by_index") { return H(hseq(parlay::reduce_by_index(s, nk)), hseq(parlay::reduce_by_index(s, nk, parlay::binary_op([](int64_t a, int64_t b) { return b == -1 ? a : b; }, int64_t{-1})))); });
    OP("histograms") { return H(hset(parlay::histogram_by_key(k)), hseq(parlay::histogram_by_index(k, nk))); });
    OP("duplicates") { return H(hset(parlay::remove_duplicates(k)), hseq(parlay::remove_duplicate_integers(k, nk)), hseq(parlay::remove_duplicates_ordered(k))); });
  });
}
CASE("tables, shuffles and streams") {
  inputs(32, [](const In& in) {
    size_t n = in.n; uint64_t id = in.id;
    auto k = parlay::tabulate(n, [&](size_t i) { return static_cast<int64_t>(in.k[i]); });
    OP("hashtable") { parlay::hashtable<parlay::hash_numeric<int64_t>> t(n * 2 + 4, parlay::hash_numeric<int64_t>()); parlay::parallel_for(0, n, [&](size_t i) { t.insert(k[i]); }, 50); uint64_t a = hseq(t.entries()); parlay::parallel_for(0, n, [&](size_t i) { if (k[i] % 3 == 0) t.deleteVal(k[i]); }, 50); return H(a, hseq(t.entries()), t.count()); });
    OP("random_shuffle") { return hseq(parlay::random_shuffle(k, parlay::random(n))); });
    OP("random_permutation") { return hseq(parlay::random_permutation(n, parlay::random(id))); });
    OP("random streams") { parlay::random_generator g(n); return hseq(parlay::tabulate(n, [&](size_t i) { auto r = g[i]; std::uniform_int_distribution<int> dis(0, 1000); return dis(r); })); });
  });
}
#elif VF_PART == 4
CASE("delayed ranges") {
  inputs(41, [](const In& in) {
    namespace d = parlay::delayed;
    size_t n = in.n; uint64_t id = in.id;
    auto s = parlay::tabulate(n, [&](size_t i) { return static_cast<int64_t>(in.k[i]); });
    auto f = parlay::tabulate(n, [&](size_t i) { return static_cast<double>(static_cast<int64_t>(mix(in.k[i]))) * 1e-7; });
    auto odd = [](int64_t x) { return (mix(static_cast<uint64_t>(x)) & 1) != 0; };
    OP("delayed map") { return hseq(d::to_sequence(d::map(s, [](int64_t x) { return x * 3; }))); });
    OP("delayed scan") { auto [o, t] = d::scan(s); auto i = d::scan_inclusive(s); return H(hseq(d::to_sequence(o)), t, hseq(d::to_sequence(i))); });
    OP("delayed scan of floats") { auto [o, t] = d::scan(f); return H(hseq(d::to_sequence(o)), h1(t)); });
    OP("delayed reduce") { return H(d::reduce(d::map(s, [](int64_t x) { return x * x; })), h1(d::reduce(f))); });
    OP("delayed filter") { auto x = d::filter(s, odd); return H(hseq(d::to_sequence(x)), d::reduce(x), parlay::size(x)); });
    OP("delayed flatten") { auto nested = parlay::tabulate(n / 10, [&](size_t i) { return parlay::tabulate(in.k[i] % 37, [&](size_t j) { return static_cast<int64_t>(i * 100 + j); }); }); auto x = d::flatten(nested); auto y = d::filter(x, odd); return H(hseq(d::to_sequence(x)), d::reduce(y), parlay::size(y)); });
    OP("delayed filter_op") { return hseq(d::to_sequence(d::filter_op(s, [&](int64_t x) -> std::optional<int64_t> { if (odd(x)) return x + 1; return std::nullopt; }))); });
    OP("delayed chain") { auto [o, t] = d::scan(d::map(d::zip(s, d::filter(s, [](int64_t) { return true; })), [](auto&& p) { return std::get<0>(p) + 2 * std::get<1>(p); })); auto x = d::filter(o, odd); return H(hseq(d::to_sequence(x)), t); });
    OP("delayed for_each") { std::atomic<int64_t> sum{0}; d::for_each(d::map(s, [](int64_t x) { return x + 1; }), [&](int64_t x) { sum += x; }); return static_cast<uint64_t>(sum.load()); });
    OP("delayed apply") { auto t = s; d::apply(d::zip(t, s), [](auto&& p) { std::get<0>(p) += std::get<1>(p); }); return hseq(t); });
    OP("delayed extremes") { auto x = d::map(s, [](int64_t v) { return -v; }); return n ? H(parlay::min_element(x) - x.begin(), parlay::max_element(x) - x.begin(), parlay::count_if(x, odd), parlay::find_if(x, odd) - x.begin()) : 0; });
    OP("delayed tabulate") { auto x = parlay::delayed_tabulate(n, [&](size_t i) { return in.k[i]; }); return H(hseq(x), parlay::reduce(x), hseq(parlay::filter(x, [](uint64_t v) { return v % 2 == 0; }))); });
  });
}
#elif VF_PART == 5
CASE("sequences and text") {
  inputs(51, [](const In& in) {
    size_t n = in.n; uint64_t id = in.id;
    auto s = parlay::tabulate(n, [&](size_t i) { return static_cast<int64_t>(in.k[i]); });
    OP("sequence operations") { parlay::sequence<int64_t> t(n, 3); t.append(s); t.insert(t.begin() + static_cast<std::ptrdiff_t>(n / 2), s.begin(), s.end()); t.erase(t.begin() + static_cast<std::ptrdiff_t>(n / 3), t.begin() + static_cast<std::ptrdiff_t>(n / 2)); t.resize(t.size() * 2, 9); auto u = t; u.assign(s.begin(), s.end()); for (int i = 0; i < 50; i++) u.push_back(i); auto w = std::move(u); u = t; return H(hseq(t), hseq(w), hseq(u), t == u, t < w); });
    OP("sequences of sequences") { parlay::sequence<parlay::sequence<int64_t>> t; for (size_t i = 0; i < n / 50; i++) t.push_back(parlay::sequence<int64_t>(in.k[i] % 40, static_cast<int64_t>(i))); auto u = t; u.append(std::move(t)); return hseq(u); });
    parlay::chars text; for (size_t i = 0; i < n; i++) text.push_back(in.k[i] % 5 == 0 ? ' ' : static_cast<char>('a' + mix(in.k[i]) % 26));
    OP("tokens") { return hseq(parlay::tokens(text)); });
    OP("map_tokens") { return hseq(parlay::map_tokens(text, [](auto t) { return t.size(); })); });
    OP("numbers to text and back") { auto t = parlay::map(s, [](int64_t x) { return parlay::to_chars(static_cast<int64_t>(mix(static_cast<uint64_t>(x)))); }); auto b = parlay::map(t, [](auto& c) { return parlay::chars_to_long_long(c); }); return H(hseq(t), hseq(b)); });
    OP("floats to text and back") { auto t = parlay::map(s, [](int64_t x) { return parlay::to_chars(static_cast<double>(static_cast<int64_t>(mix(static_cast<uint64_t>(x)))) * 1e-9); }); auto b = parlay::map(t, [](auto& c) { return parlay::chars_to_double(c); }); return H(hseq(t), hseq(b)); });
    OP("formatting of sequences") { return h1(parlay::to_chars(s)); });
    OP("strings") { auto t = parlay::tabulate(n / 8, [&](size_t i) { return parlay::to_chars(mix(in.k[i]) % 10000); }); return H(hseq(parlay::sort(t)), hset(parlay::remove_duplicates(t)), hseq(parlay::integer_sort(parlay::map(t, [](auto& c) { return static_cast<uint32_t>(parlay::chars_to_int(c)); })))); });
  });
}
CASE("loops and branches") {
  inputs(52, [](const In& in) {
    size_t n = in.n; uint64_t id = in.id;
    OP("parallel_for") { std::vector<uint64_t> v(n); parlay::parallel_for(0, n, [&](size_t i) { v[i] = in.k[i] * 3; }); parlay::parallel_for(0, n / 2, [&](size_t i) { v[i] += v[n - 1 - i]; }, 7); return hseq(v); });
    OP("blocked_for") { std::vector<uint64_t> v(n); std::atomic<uint64_t> blocks{0}; parlay::blocked_for(0, n, 100, [&](size_t b, size_t s, size_t e) { blocks++; for (size_t i = s; i < e; i++) v[i] = b * 1000 + i; }); return H(hseq(v), blocks.load()); });
    OP("fork-join") { std::function<uint64_t(size_t, size_t)> sum = [&](size_t a, size_t b) -> uint64_t { if (b - a < 40) { uint64_t h = 0; for (size_t i = a; i < b; i++) h = mix(h ^ in.k[i]); return h; } uint64_t x, y; size_t m = (a + b) / 2; parlay::par_do([&] { x = sum(a, m); }, [&] { y = sum(m, b); }); return H(x, y); }; return sum(0, n); });
    OP("per-thread sums") { parlay::ThreadSpecific<uint64_t> t; for (auto& x : t) x = 0; parlay::parallel_for(0, n, [&](size_t i) { *t += in.k[i]; }); uint64_t sum = 0; for (auto& x : t) sum += x; return sum; });
    OP("allocation") { auto v = parlay::tabulate(n / 3, [&](size_t i) { return parlay::sequence<uint64_t>(1 + in.k[i] % 300, i); }); parlay::parallel_for(0, v.size(), [&](size_t i) { if (i % 2) v[i] = parlay::sequence<uint64_t>(v[i].size() / 2, i + 1); }); return hseq(v); });
  });
}
#endif
