// P17: grouping, keyed reduction, histograms and duplicate removal against ordered maps.
#include "gen.h"
#include <deque>
#include <parlay/primitives.h>
using namespace vf;

namespace {
size_t grpn(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.below(8);
    case 1: return 10000 + r.below(5) - 2;      // sequential threshold of the keyed forms
    case 2: return 8192 + r.below(5) - 2;       // of the indexed forms
    case 3: return std::min<size_t>(maxn(80000, 400000), 20000 + r.below(60000));
    default: return pick_size(r, maxn(60000, 300000));
  }
}
struct Str2 { std::string s; };
// key types: how to make them from an integer
template <class K> K mk(uint64_t x) { if constexpr (std::is_integral_v<K>) return static_cast<K>(x); else if constexpr (std::is_same_v<K, std::string>) return "key number " + std::to_string(x); else if constexpr (std::is_same_v<K, std::pair<int, int>>) return K(static_cast<int>(x % 1000), static_cast<int>(x / 1000)); else return K(x); }
template <class K> struct H1 { size_t operator()(const K& k) const { return parlay::hash<K>()(k); } };
template <> struct H1<std::pair<int, int>> { size_t operator()(const std::pair<int, int>& k) const { return parlay::hash64(static_cast<uint64_t>(k.first) * 1000003 + static_cast<uint64_t>(k.second)); } };
// hash functions: good, identity-like, few values, constant, high bits only
template <class K> struct HashK { int kind; size_t operator()(const K& k) const { size_t h = H1<K>()(k); switch (kind) { case 0: return h; case 1: return h & 0xff; case 2: return h & 3; case 3: return 42; case 4: return h << 40; default: return h % 17; } } };
template <class K> std::vector<K> keys_of(Rng& r, size_t n, uint64_t cap = 1000000) { auto k = gen_keys<uint64_t>(r, n, cap); std::vector<K> v; v.reserve(n); for (auto x : k) v.push_back(mk<K>(x)); return v; }
// one entry per key, nothing else; each checked by f
template <class R, class M, class F> void entries(const R& out, const M& want, const char* op, size_t n, F&& f) {
  event("groupings"); event("groups", want.size());
  if (out.size() != want.size()) { fail(std::string("group:count:") + op, "%zu entries instead of %zu from %zu elements", out.size(), want.size(), n); return; }
  std::set<typename M::key_type> seen;
  for (size_t i = 0; i < out.size(); i++) { auto it = want.find(out[i].first); if (it == want.end() || !seen.insert(out[i].first).second) { fail(std::string("group:key:") + op, "entry %zu is not a fresh key, n=%zu", i, n); return; } if (!f(out[i].second, it->second)) { fail(std::string("group:value:") + op, "entry %zu of %zu has wrong content, n=%zu", i, out.size(), n); return; } }
}
template <class V> struct Last2 {   // not commutative: the hash of the whole sequence of values
  V identity{}; V operator()(const V& a, const V& b) const { if (a.n == 0) return b; if (b.n == 0) return a; return V{a.n + b.n, a.h * b.p + b.h, a.p * b.p}; } };
struct W { uint64_t n = 0, h = 0, p = 1; friend bool operator==(const W& a, const W& b) { return a.n == b.n && a.h == b.h && a.p == b.p; } };
W word(uint64_t i) { return W{1, mix(i), 0x9e3779b97f4a7c15ull}; }

template <class K> void by_key(Rng& rng, size_t q, const char* name) {
  for (size_t k = 0, R = rounds(q); k < R; k++) {
    HashK<K> h{rng.chance(1, 2) ? 0 : static_cast<int>(rng.below(6))}; size_t n = grpn(rng); if (h.kind == 3 || h.kind == 2 || h.kind == 4) n = std::min<size_t>(n, rng.chance(1, 4) ? 12000 : 3000);
    uint64_t cap = h.kind == 3 || h.kind == 2 || h.kind == 4 ? 300 : 1000000; auto ks = keys_of<K>(rng, n, cap);
    std::map<K, std::vector<std::string>> g; std::map<K, W> w; std::map<K, size_t> c;
    Last2<W> m; for (size_t i = 0; i < n; i++) { g[ks[i]].push_back("v" + std::to_string(i)); auto& x = w[ks[i]]; x = m(x, word(i)); c[ks[i]]++; }
    auto kvs = parlay::tabulate(n, [&](size_t i) { return std::pair<K, std::string>(ks[i], "v" + std::to_string(i)); });
    auto kvw = parlay::tabulate(n, [&](size_t i) { return std::pair<K, W>(ks[i], word(i)); }); auto kseq = parlay::sequence<K>(ks.begin(), ks.end());
    auto eqg = [](const auto& a, const auto& b) { return first_diff(a, b) < 0; }; auto eq = [](const auto& a, const auto& b) { return a == b; };
    entries(parlay::group_by_key(kvs, h), g, "group_by_key", n, eqg); entries(parlay::reduce_by_key(kvw, m, h), w, "reduce_by_key", n, eq);
    entries(parlay::histogram_by_key(ks, h), c, "histogram_by_key", n, eq);
    { auto d = parlay::remove_duplicates(ks, h); auto z = parlay::map(d, [](const K& x) { return std::pair<K, int>(x, 0); }); entries(z, c, "remove_duplicates", n, [](int, size_t) { return true; }); }
    { bool ok = kvs.size() == n && kvw.size() == n; for (size_t i = 0; ok && i < n; i++) ok = kvs[i].first == ks[i] && kvs[i].second == "v" + std::to_string(i); VF_CHECK(ok, "group:input-changed", "an input was changed, n=%zu", n); }
    if (rng.chance(1, 2)) {   // consumed inputs, other ranges, other count types
      entries(parlay::group_by_key(std::move(kvs), h), g, "group_by_key-rvalue", n, eqg); entries(parlay::reduce_by_key(std::move(kvw), m, h), w, "reduce_by_key-rvalue", n, eq);
      entries(parlay::histogram_by_key<int>(std::move(kseq), h), c, "histogram_by_key-rvalue", n, [](int a, size_t b) { return a == static_cast<int>(b); });
      auto d = parlay::remove_duplicates(parlay::sequence<K>(ks.begin(), ks.end()), h); auto z = parlay::map(d, [](const K& x) { return std::pair<K, int>(x, 0); }); entries(z, c, "remove_duplicates-rvalue", n, [](int, size_t) { return true; });
    } else {
      std::deque<std::pair<K, W>> dq(kvw.begin(), kvw.end()); entries(parlay::reduce_by_key(dq, m, h), w, "reduce_by_key-deque", n, eq);
      entries(parlay::group_by_key(parlay::delayed_tabulate(n, [&](size_t i) { return kvs[i]; }), h), g, "group_by_key-delayed", n, eqg); entries(parlay::histogram_by_key(parlay::make_slice(kseq), h), c, "histogram_by_key-slice", n, eq);
    }
    eval(H(hash_str(name), k, n, h.kind, c.size()), n > 1); if (h.kind == 3) event("constant_hash");
  }
  sample("%s keys", name);
}
template <class K, class V, class Cmp> void ordered(Rng& rng, size_t q, const char* name, Cmp cmp, const std::function<V(size_t)>& val) {
  for (size_t k = 0, R = rounds(q); k < R; k++) {
    size_t n = grpn(rng); auto ks = keys_of<K>(rng, n); std::map<K, std::vector<V>, Cmp> g(cmp); for (size_t i = 0; i < n; i++) g[ks[i]].push_back(val(i));
    auto kvs = parlay::tabulate(n, [&](size_t i) { return std::pair<K, V>(ks[i], val(i)); });
    auto chk = [&](const auto& out, const char* op) { event("groupings"); event("groups", g.size()); if (out.size() != g.size()) { fail(std::string("group:ordered:") + op, "%s: %zu groups instead of %zu, n=%zu", name, out.size(), g.size(), n); return; } size_t i = 0; for (auto& [key, vs] : g) { if (cmp(out[i].first, key) || cmp(key, out[i].first)) { fail(std::string("group:ordered-key:") + op, "%s: group %zu, n=%zu", name, i, n); return; } if (first_diff(out[i].second, vs) >= 0) { fail(std::string("group:ordered-values:") + op, "%s: group %zu, n=%zu", name, i, n); return; } i++; } };
    chk(parlay::group_by_key_ordered(kvs, cmp), "lvalue"); if constexpr (std::is_same_v<Cmp, std::less<>>) chk(parlay::group_by_key_ordered(kvs), "default");
    bool ok = true; for (size_t i = 0; ok && i < n; i++) ok = kvs[i].first == ks[i] && kvs[i].second == val(i); VF_CHECK(ok, "group:input-changed", "group_by_key_ordered changed its input, n=%zu", n);
    const auto& ck = kvs; chk(parlay::group_by_key_ordered(ck, cmp), "const"); chk(parlay::group_by_key_ordered(std::move(kvs), cmp), "rvalue");
    eval(H(hash_str(name), k, n, g.size()), n > 1);
  }
  sample("%s", name);
}
size_t buckets_for(Rng& r, size_t n) { static const size_t b[] = {1, 2, 3, 16, 100, 255, 256, 257, 1000, 5000, 65536}; switch (r.below(5)) { case 0: return n + 1; case 1: return std::max<size_t>(1, static_cast<size_t>(std::sqrt(static_cast<double>(n))) + r.below(3)); case 2: return 1 + r.below(2 * n + 2); default: return b[r.below(11)]; } }
template <class I, class KI, int Sel> void by_index(Rng& rng, size_t q, const char* name) {
  for (size_t k = 0, R = rounds(q); k < R; k++) {
    size_t n = grpn(rng), nb = std::min<size_t>(buckets_for(rng, n), static_cast<size_t>(std::min<uint64_t>(static_cast<uint64_t>(std::numeric_limits<I>::max()), uint64_t{std::numeric_limits<KI>::max()} + 1)));
    if (sizeof(I) < 4) n = std::min<size_t>(n, static_cast<size_t>(std::numeric_limits<I>::max()));   // counts have to fit
    auto ks = gen_keys<uint64_t>(rng, n, nb); for (auto& x : ks) x %= nb;
    std::vector<std::vector<size_t>> g(nb); std::vector<W> w(nb); Last2<W> m; for (size_t i = 0; i < n; i++) { g[ks[i]].push_back(i); w[ks[i]] = m(w[ks[i]], word(i)); }
    auto bad = [&](const char* op, size_t i) { fail(std::string("group:index:") + op, "%s: index %zu of %zu, n=%zu", name, i, nb, n); };
    parlay::sequence<KI> kk(n); for (size_t i = 0; i < n; i++) kk[i] = static_cast<KI>(ks[i]);
    if constexpr (Sel & 1) { auto h = parlay::histogram_by_index(kk, static_cast<I>(nb)); static_assert(std::is_same_v<std::decay_t<decltype(h[0])>, I>); if (h.size() != nb) bad("histogram-length", h.size()); else for (size_t i = 0; i < nb; i++) if (static_cast<size_t>(h[i]) != g[i].size()) { bad("histogram_by_index", i); break; } event("groupings"); }
    if constexpr (Sel & 1) { auto d = parlay::remove_duplicate_integers(kk, static_cast<I>(nb)); size_t j = 0; for (size_t i = 0; i < nb; i++) if (!g[i].empty()) { if (j >= d.size() || static_cast<size_t>(d[j]) != i) { bad("remove_duplicate_integers", i); break; } j++; } if (j != d.size()) bad("remove_duplicate_integers-length", j); event("groupings"); }
    if constexpr (Sel & 2) {
    auto kw = parlay::tabulate(n, [&](size_t i) { return std::pair<KI, W>(kk[i], word(i)); });
     auto r = parlay::reduce_by_index(kw, nb, m); if (r.size() != nb) bad("reduce_by_index-length", r.size()); else for (size_t i = 0; i < nb; i++) if (!(r[i] == w[i])) { bad("reduce_by_index", i); break; } event("groupings"); }
    if constexpr (Sel & 4) { auto ki = parlay::tabulate(n, [&](size_t i) { return std::pair<KI, std::string>(kk[i], "v" + std::to_string(i)); });
    auto r = parlay::group_by_index(ki, static_cast<I>(nb)); if (r.size() != nb) bad("group_by_index-length", r.size()); else for (size_t i = 0; i < nb; i++) { bool ok = r[i].size() == g[i].size(); for (size_t j = 0; ok && j < g[i].size(); j++) ok = r[i][j] == "v" + std::to_string(g[i][j]); if (!ok) { bad("group_by_index", i); break; } } event("groupings"); event("groups", nb);
      bool ok = true; for (size_t i = 0; ok && i < n; i++) ok = ki[i].first == kk[i] && ki[i].second == "v" + std::to_string(i); VF_CHECK(ok, "group:input-changed", "group_by_index changed its input, n=%zu", n); }
    if constexpr (Sel & 8) if (rng.chance(1, 3)) { std::deque<KI> dq(kk.begin(), kk.end()); auto h = parlay::histogram_by_index(dq, static_cast<I>(nb)); for (size_t i = 0; i < nb; i++) if (static_cast<size_t>(h[i]) != g[i].size()) { bad("histogram_by_index-deque", i); break; }
      auto hd = parlay::histogram_by_index(parlay::delayed_map(kk, [](KI x) { return x; }), static_cast<I>(nb)); for (size_t i = 0; i < nb; i++) if (static_cast<size_t>(hd[i]) != g[i].size()) { bad("histogram_by_index-delayed", i); break; }
      auto r = parlay::reduce_by_index(parlay::tabulate(n, [&](size_t i) { return std::pair<KI, int64_t>(kk[i], static_cast<int64_t>(i)); }), nb, parlay::maximum<int64_t>(-1)); for (size_t i = 0; i < nb; i++) if (r[i] != (g[i].empty() ? -1 : static_cast<int64_t>(g[i].back()))) { bad("reduce_by_index-max", i); break; }
      auto s = parlay::reduce_by_index(parlay::tabulate(n, [&](size_t i) { return std::pair<KI, uint64_t>(kk[i], 3); }), nb); for (size_t i = 0; i < nb; i++) if (s[i] != 3 * g[i].size()) { bad("reduce_by_index-default", i); break; } }
    eval(H(hash_str(name), k, n, nb), n > 1);
  }
  sample("%s", name);
}
}  // namespace

#if VF_PART == 0 || VF_PART == 1
CASE("keyed forms, unsigned keys") { by_key<uint64_t>(rng, 60, "u64"); }
CASE("keyed forms, int keys") { by_key<int>(rng, 40, "int"); }
#endif
#if VF_PART == 0 || VF_PART == 2
CASE("keyed forms, string keys") { by_key<std::string>(rng, 30, "string"); }
CASE("keyed forms, pair keys") { by_key<std::pair<int, int>>(rng, 30, "pair"); }
#endif
#if VF_PART == 0 || VF_PART == 3
CASE("ordered, unsigned keys") { ordered<uint32_t, int64_t, std::less<>>(rng, 50, "u32 to i64", {}, [](size_t i) { return static_cast<int64_t>(i); }); }
CASE("ordered, large values") { ordered<uint64_t, std::string, std::less<>>(rng, 30, "u64 to string", {}, [](size_t i) { return "value " + std::to_string(i); }); }
CASE("ordered, signed keys reversed") { ordered<int, uint32_t, std::greater<>>(rng, 30, "int greater", {}, [](size_t i) { return static_cast<uint32_t>(i); }); }
CASE("ordered, string keys") { ordered<std::string, int, std::less<>>(rng, 30, "string to int", {}, [](size_t i) { return static_cast<int>(i); }); }
CASE("ordered, small unsigned keys to heap values") {
  // 16-byte elements that own memory, sorted by an unsigned key
  for (size_t k = 0, R = rounds(20); k < R; k++) {
    size_t n = grpn(rng); auto ks = gen_keys<uint32_t>(rng, n, 1 + rng.below(5000)); 
    auto kvs = parlay::tabulate(n, [&](size_t i) { return std::pair<uint32_t, parlay::sequence<size_t>>(ks[i], parlay::sequence<size_t>(1, i)); });
    std::map<uint32_t, std::vector<size_t>> g; for (size_t i = 0; i < n; i++) g[ks[i]].push_back(i);
    auto out = parlay::group_by_key_ordered(kvs); bool ok = out.size() == g.size(); size_t j = 0; for (auto& [key, v] : g) { if (!ok) break; ok = out[j].first == key && out[j].second.size() == v.size(); for (size_t i = 0; ok && i < v.size(); i++) ok = out[j].second[i].size() == 1 && out[j].second[i][0] == v[i]; j++; }
    VF_CHECK(ok, "group:ordered-heap", "n=%zu", n); event("groupings"); eval(H(k, n), n > 1);
  }
}
#endif
#if VF_PART == 0 || VF_PART == 4
CASE("indexed forms, size_t") { by_index<size_t, uint32_t, 7>(rng, 60, "size_t/u32"); }
#endif
#if VF_PART == 0 || VF_PART == 7
CASE("indexed forms, int") { by_index<int, int, 13>(rng, 40, "int/int"); }
#endif
#if VF_PART == 0 || VF_PART == 8
CASE("indexed forms, small types") { by_index<uint16_t, uint8_t, 5>(rng, 40, "u16/u8"); by_index<unsigned char, unsigned char, 1>(rng, 20, "u8/u8"); }
CASE("indexed forms, medium types") { by_index<uint32_t, uint16_t, 2>(rng, 40, "u32/u16"); }
CASE("empty inputs") {
  parlay::sequence<uint32_t> e; parlay::sequence<std::pair<uint32_t, int>> p;
  for (size_t nb : {size_t{0}, size_t{1}, size_t{5}, size_t{100000}}) {
    VF_CHECK(parlay::histogram_by_index(e, nb).size() == nb, "group:empty", "histogram_by_index of nothing, %zu buckets", nb); VF_CHECK(parlay::reduce_by_index(p, nb).size() == nb, "group:empty", "reduce_by_index of nothing, %zu buckets", nb);
    VF_CHECK(parlay::group_by_index(p, nb).size() == nb, "group:empty", "group_by_index of nothing, %zu buckets", nb); VF_CHECK(parlay::remove_duplicate_integers(e, nb).size() == 0, "group:empty", "remove_duplicate_integers of nothing, %zu buckets", nb); eval(H(nb), true);
  }
  VF_CHECK(parlay::group_by_key(p).empty() && parlay::group_by_key_ordered(p).empty() && parlay::reduce_by_key(p).empty() && parlay::histogram_by_key(e).empty() && parlay::remove_duplicates(e).empty(), "group:empty", "keyed forms of nothing");
}
#endif
#if VF_PART == 0 || VF_PART == 5
CASE("custom equality and defaults") {
  struct CiHash { size_t operator()(const std::string& s) const { size_t h = 7; for (char c : s) h = h * 31 + static_cast<size_t>(tolower(c)); return h; } };
  struct CiEq { bool operator()(const std::string& a, const std::string& b) const { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (tolower(a[i]) != tolower(b[i])) return false; return true; } };
  for (size_t k = 0, R = rounds(30); k < R; k++) {
    size_t n = grpn(rng) % 30000; auto ks = gen_keys<uint64_t>(rng, n, 1 + rng.below(3000)); auto name = [&](size_t i) { std::string s = "Key" + std::to_string(ks[i]); if (mix(i) & 1) for (auto& c : s) c = static_cast<char>(toupper(c)); return s; };
    auto s = parlay::tabulate(n, name); std::map<uint64_t, std::vector<int64_t>> g; for (size_t i = 0; i < n; i++) g[ks[i]].push_back(static_cast<int64_t>(i)); auto num = [](const std::string& x) { return std::stoull(x.substr(3)); };
    auto norm = [&](auto&& r) { return parlay::map(r, [&](const auto& x) { return std::make_pair(static_cast<uint64_t>(num(x.first)), x.second); }); };
    auto kv = parlay::tabulate(n, [&](size_t i) { return std::pair<std::string, int64_t>(name(i), static_cast<int64_t>(i)); });
    entries(norm(parlay::group_by_key(kv, CiHash{}, CiEq{})), g, "group_by_key-ci", n, [](const auto& a, const auto& b) { return first_diff(a, b) < 0; });
    entries(norm(parlay::reduce_by_key(kv, parlay::plus<int64_t>(), CiHash{}, CiEq{})), g, "reduce_by_key-ci", n, [](int64_t a, const auto& b) { return a == std::accumulate(b.begin(), b.end(), int64_t{0}); });
    entries(norm(parlay::reduce_by_key(kv, parlay::minimum<int64_t>(), CiHash{}, CiEq{})), g, "reduce_by_key-min", n, [](int64_t a, const auto& b) { return a == b[0]; });
    entries(norm(parlay::histogram_by_key<uint32_t>(s, CiHash{}, CiEq{})), g, "histogram_by_key-ci", n, [](uint32_t a, const auto& b) { return a == b.size(); });
    auto d = parlay::remove_duplicates(s, CiHash{}, CiEq{}); VF_CHECK(d.size() == g.size(), "group:remove_duplicates-ci", "%zu instead of %zu, n=%zu", d.size(), g.size(), n); std::set<uint64_t> seen; for (auto& x : d) VF_CHECK(seen.insert(num(x)).second, "group:remove_duplicates-ci", "duplicate key");
    std::map<std::string, size_t> ex; for (size_t i = 0; i < n; i++) ex[s[i]]++; entries(parlay::histogram_by_key(s), ex, "histogram_by_key-default", n, [](size_t a, size_t b) { return a == b; });
    entries(norm(parlay::reduce_by_key(parlay::tabulate(n, [&](size_t i) { return std::pair<std::string, int64_t>("key" + std::to_string(ks[i]), 2); }))), g, "reduce_by_key-default", n, [](int64_t a, const auto& b) { return a == 2 * static_cast<int64_t>(b.size()); });
    eval(H(k, n, g.size()), n > 1);
  }
}
#endif
#if VF_PART == 0 || VF_PART == 6
CASE("tracked keys and values") {
  struct TH { size_t operator()(const TrackedCopy& t) const { return parlay::hash64(static_cast<uint64_t>(t.get())); } };
  for (size_t k = 0, R = rounds(12); k < R; k++) {
    size_t n = rng.chance(1, 2) ? 10000 + rng.below(12000) : rng.below(3000); auto ks = gen_keys<int64_t>(rng, n, 1 + rng.below(2000)); std::map<int64_t, std::vector<int64_t>> g; for (size_t i = 0; i < n; i++) g[ks[i]].push_back(static_cast<int64_t>(i));
    {
      auto kv = parlay::tabulate(n, [&](size_t i) { return std::pair<TrackedCopy, TrackedBig>(TrackedCopy(ks[i]), TrackedBig(static_cast<int64_t>(i))); }); auto kk = parlay::tabulate(n, [&](size_t i) { return TrackedCopy(ks[i]); });
      auto norm = [&](auto&& r) { return parlay::map(r, [&](const auto& x) { return std::make_pair(x.first.get(), parlay::map(x.second, [](const auto& y) { return y.get(); })); }); };
      auto eq = [](const auto& a, const auto& b) { return first_diff(a, b) < 0; }; auto cnt = [](auto a, const auto& b) { return static_cast<size_t>(a) == b.size(); };
      auto normc = [&](auto&& r) { return parlay::map(r, [&](const auto& x) { return std::make_pair(x.first.get(), x.second); }); };
      entries(norm(parlay::group_by_key(kv, TH{})), g, "group_by_key-tracked", n, eq); entries(norm(parlay::group_by_key_ordered(kv)), g, "ordered-tracked", n, eq); entries(normc(parlay::histogram_by_key(kk, TH{})), g, "histogram-tracked", n, cnt);
      auto d = parlay::remove_duplicates(kk, TH{}); VF_CHECK(d.size() == g.size(), "group:tracked", "remove_duplicates"); for (auto& x : d) (void)x.get();
      for (auto& x : kv) { (void)x.first.get(); (void)x.second.get(); }
      entries(norm(parlay::group_by_key(std::move(kv), TH{})), g, "group_by_key-tracked-rvalue", n, eq); entries(normc(parlay::histogram_by_key(std::move(kk), TH{})), g, "histogram-tracked-rvalue", n, cnt);
      auto k2 = parlay::tabulate(n, [&](size_t i) { return TrackedCopy(ks[i]); }); auto d2 = parlay::remove_duplicates(std::move(k2), TH{}); VF_CHECK(d2.size() == g.size(), "group:tracked", "remove_duplicates rvalue"); for (auto& x : d2) (void)x.get();
    }
    LifeMon::get().expect_none("grouping of tracked elements"); eval(H(k, n), n > 1);
  }
}
CASE("grouping nested in parallel loops") {
  for (size_t k = 0, R = rounds(4); k < R; k++) {
    size_t rows = 16; std::vector<std::vector<uint64_t>> v(rows); for (auto& r : v) r = gen_keys<uint64_t>(rng, grpn(rng) % 20000, 1000); std::vector<size_t> d(rows), h(rows);
    parlay::parallel_for(0, rows, [&](size_t i) { d[i] = parlay::remove_duplicates(v[i]).size(); auto x = parlay::histogram_by_index(v[i], size_t{1000}); h[i] = static_cast<size_t>(*parlay::max_element(x)); }, 1);
    for (size_t i = 0; i < rows; i++) { std::map<uint64_t, size_t> m; size_t mx = 0; for (auto x : v[i]) mx = std::max(mx, ++m[x]); VF_CHECK(d[i] == m.size() && h[i] == mx, "group:nested", "row of %zu", v[i].size()); } eval(H(k), true);
  }
}
#endif
