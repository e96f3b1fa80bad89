// P13: integer and counting sorts against std::stable_sort, with exact bucket offsets.
#include "gen.h"
#include <deque>
#include <parlay/primitives.h>
#include <parlay/internal/integer_sort.h>
#include <parlay/internal/counting_sort.h>
using namespace vf;
namespace {
size_t isize(Rng& r) {
  switch (r.below(7)) {
    case 0: return r.below(10);
    case 1: return std::min<size_t>(maxn(200000, 500000), (1u << 17) + r.below(5) - 2);
    case 2: return std::min<size_t>(maxn(200000, 500000), 128 + r.below(5) - 2);
    case 3: return std::min<size_t>(maxn(200000, 500000), 8192 + r.below(5) - 2);
    case 4: return maxn(200000, 500000) - r.below(1000) % maxn(200000, 500000);
    default: return pick_size(r, maxn(60000, 200000));
  }
}
// keys with a given number of significant bits and shape
template <class U> std::vector<U> ikeys(Rng& r, size_t n, std::string& desc) {
  int W = sizeof(U) * 8; int bits = static_cast<int>(r.below(static_cast<uint64_t>(W) + 1));
  int shape = static_cast<int>(r.below(9)); U mask = bits == 0 ? U{0} : static_cast<U>(static_cast<U>(~U{0}) >> (W - bits));
  U base = static_cast<U>(r.next()) & mask; KeyGen g = pick_keys(r, n, static_cast<uint64_t>(mask) == ~uint64_t{0} ? ~uint64_t{0} >> 1 : static_cast<uint64_t>(mask) + 1);
  std::vector<U> v(n);
  for (size_t i = 0; i < n; i++) {
    U x;
    switch (shape) {
      case 0: x = static_cast<U>(r.next()) & mask; break;
      case 1: x = mask; break;                                              // all at the maximum
      case 2: x = r.chance(1, 2) ? mask : U{0}; break;                       // extremes only
      case 3: x = static_cast<U>((base & ~U{255}) | (r.next() & 255)) & mask; break;   // common high bits: one bucket at the top
      case 4: x = static_cast<U>(base ^ (r.chance(1, 50) ? static_cast<U>(r.next()) : U{0})) & mask; break;
      case 5: x = static_cast<U>(U{1} << r.below(static_cast<uint64_t>(std::max(1, bits)))) & mask; break;
      case 6: x = static_cast<U>(mask - (i % 3 == 0 ? U{0} : static_cast<U>(i % 2))); break;
      default: x = static_cast<U>(g(r, i, n)) & mask; break;
    }
    v[i] = x;
  }
  char b[100]; snprintf(b, sizeof b, "n=%zu width %d bits %d shape %d", n, W, bits, shape); desc = b;
  return v;
}
template <class U> struct KU { U key; uint32_t id; friend bool operator==(const KU& a, const KU& b) { return a.key == b.key && a.id == b.id; } };
template <class U> struct KS { U key; uint32_t id; std::string s; KS() = default; KS(U k, uint32_t i) : key(k), id(i), s(std::to_string(i) + " some text beyond the small buffer") {} friend bool operator==(const KS& a, const KS& b) { return a.key == b.key && a.id == b.id && a.s == b.s; } };
template <class T, class U> T mk(U k, uint32_t i) { if constexpr (std::is_constructible_v<T, U, uint32_t>) return T(k, i); else return T{k, i}; }

template <class U> void plain(Rng& rng, size_t q) {
  for (size_t k = 0, R = rounds(q); k < R; k++) {
    std::string d; size_t n = isize(rng); auto v = ikeys<U>(rng, n, d); const auto orig = v; auto e = v; std::sort(e.begin(), e.end());
    auto a = parlay::integer_sort(v); VF_SAME(a, e, "isort:plain", "%s", d.c_str()); VF_SAME(v, orig, "isort:input-changed", "%s", d.c_str());
    auto c = v; parlay::integer_sort_inplace(c); VF_SAME(c, e, "isort:plain-inplace", "%s", d.c_str());
    event("integer_sorts", 2); eval(H(k, n, hash_str(d), n ? v[0] : 0), n > 1);
  }
}
template <class T, class U> void keyed(Rng& rng, size_t q) {
  for (size_t k = 0, R = rounds(q); k < R; k++) {
    std::string d; size_t n = isize(rng); if (sizeof(T) > 20) n = std::min<size_t>(n, 30000);
    auto ks = ikeys<U>(rng, n, d); std::vector<T> v; v.reserve(n); for (size_t i = 0; i < n; i++) v.push_back(mk<T>(ks[i], static_cast<uint32_t>(i)));
    std::vector<T> e; { std::vector<uint32_t> p(n); std::iota(p.begin(), p.end(), 0u); std::stable_sort(p.begin(), p.end(), [&](uint32_t x, uint32_t y) { return ks[x] < ks[y]; }); e.reserve(n); for (auto i : p) e.push_back(v[i]); }
    auto g = [](const T& x) -> U { return x.key; };
    auto eqv = [&](const auto& r, const char* w) { VF_SAME(r, e, std::string("isort:stable:") + w, "%s", d.c_str()); };
    auto unchanged = [&] { for (size_t i = 0; i < n; i++) if (!(v[i].key == ks[i] && v[i].id == i)) { fail("isort:input-changed", "%s at %zu", d.c_str(), i); return; } };
    switch (rng.below(5)) {
      case 0: eqv(parlay::integer_sort(v, g), "integer_sort"); eqv(parlay::stable_integer_sort(v, g), "stable_integer_sort"); unchanged(); break;
      case 1: { std::deque<T> dq(v.begin(), v.end()); eqv(parlay::integer_sort(dq, g), "integer_sort-deque"); auto t = parlay::delayed_tabulate(n, [&](size_t i) { return v[i]; }); eqv(parlay::stable_integer_sort(t, g), "stable_integer_sort-delayed"); unchanged(); break; }
      case 2: { auto w = v; parlay::integer_sort_inplace(w, g); eqv(w, "integer_sort_inplace"); break; }
      case 3: { auto w = parlay::to_sequence(v); parlay::stable_integer_sort_inplace(parlay::make_slice(w), g); eqv(w, "stable_integer_sort_inplace"); break; }
      default: {   // explicit number of key bits
        size_t need = 0; for (auto x : ks) { size_t b = 0; while (b < 64 && (static_cast<uint64_t>(x) >> b)) b++; need = std::max(need, b); }
        size_t bits = std::max<size_t>(1, need + rng.below(sizeof(U) * 8 - need + 1));
        eqv(parlay::internal::integer_sort(parlay::make_slice(v), g, bits), "internal-bits"); unchanged();
        auto w = v; parlay::internal::integer_sort_inplace(parlay::make_slice(w), g, bits); eqv(w, "internal-bits-inplace"); }
    }
    // guard zones around an in-place range
    if (rng.chance(1, 3)) {
      size_t lo = 1 + rng.below(4), hi = 1 + rng.below(4); std::vector<T> w; for (size_t i = 0; i < lo; i++) w.push_back(mk<T>(static_cast<U>(7), 4000000000u));
      for (auto& x : v) w.push_back(x); for (size_t i = 0; i < hi; i++) w.push_back(mk<T>(static_cast<U>(3), 4000000001u));
      parlay::integer_sort_inplace(parlay::make_slice(w.begin() + lo, w.begin() + lo + n), g);
      bool ok = true; for (size_t i = 0; i < lo; i++) ok = ok && w[i].id == 4000000000u; for (size_t i = 0; i < hi; i++) ok = ok && w[lo + n + i].id == 4000000001u;
      VF_CHECK(ok, "isort:guard", "%s", d.c_str());
      eqv(parlay::make_slice(w.begin() + lo, w.begin() + lo + n), "inplace-slice");
    }
    event("keyed_sorts", 2); eval(H(k, n, hash_str(d), n ? ks[0] : 0), n > 1);
  }
}
template <class T, class U> void counting(Rng& rng, size_t q) {
  for (size_t k = 0, R = rounds(q); k < R; k++) {
    size_t n = isize(rng); if (sizeof(T) > 20) n = std::min<size_t>(n, 30000);
    size_t capb = std::min<uint64_t>(static_cast<uint64_t>(std::numeric_limits<U>::max()) + (sizeof(U) < 8 ? 1 : 0), 70000);
    static const size_t nbs[] = {1, 2, 3, 5, 16, 255, 256, 257, 1000, 4096, 65536};
    size_t nb = std::min(capb, rng.chance(1, 4) ? 1 + rng.below(2 * n + 1) : nbs[rng.below(11)]);
    KeyGen g = pick_keys(rng, n, nb); std::vector<U> ks(n); for (size_t i = 0; i < n; i++) ks[i] = static_cast<U>(g(rng, i, n));
    char d[90]; snprintf(d, sizeof d, "n=%zu buckets %zu kind %d range %llu", n, nb, g.kind, static_cast<unsigned long long>(g.range));
    std::vector<T> v; v.reserve(n); for (size_t i = 0; i < n; i++) v.push_back(mk<T>(ks[i], static_cast<uint32_t>(i)));
    std::vector<size_t> off(nb + 1, 0); for (auto x : ks) off[static_cast<size_t>(x) + 1]++; for (size_t i = 0; i < nb; i++) off[i + 1] += off[i];
    std::vector<T> e(v); { auto c = off; for (size_t i = 0; i < n; i++) e[c[ks[i]]++] = v[i]; }
    auto key = [](const T& x) -> U { return x.key; };
    auto eqv = [&](const auto& r, const auto& o, const char* w) { VF_SAME(r, e, std::string("csort:stable:") + w, "%s", d); VF_SAME(o, off, std::string("csort:offsets:") + w, "%s", d); };
    switch (rng.below(5)) {
      case 0: { auto [r, o] = parlay::counting_sort(v, nb, key); eqv(r, o, "counting_sort"); for (size_t i = 0; i < n; i++) if (v[i].id != i) { fail("csort:input-changed", "%s", d); break; } break; }
      case 1: { auto w = v; auto o = parlay::counting_sort_inplace(w, nb, key); eqv(w, o, "inplace"); break; }
      case 2: { auto w = parlay::to_sequence(v); auto o = parlay::counting_sort_inplace(parlay::make_slice(w), nb, key); eqv(w, o, "inplace-slice"); break; }
      case 3: { auto [r, o] = parlay::internal::count_sort(parlay::make_slice(v), ks, nb); eqv(r, o, "separate-keys"); break; }
      default: { auto p = parlay::tabulate(n, [&](size_t i) { return std::make_pair(ks[i], v[i]); }); auto [r, o] = parlay::counting_sort_by_keys(p, nb); eqv(r, o, "by_keys"); }
    }
    if (rng.chance(1, 3)) { auto [r, o] = parlay::counting_sort(ks, nb); auto se = ks; std::sort(se.begin(), se.end()); VF_SAME(r, se, "csort:plain", "%s", d); VF_SAME(o, off, "csort:plain-offsets", "%s", d);
      auto w = ks; auto o2 = parlay::counting_sort_inplace(w, nb); VF_SAME(w, se, "csort:plain-inplace", "%s", d); VF_SAME(o2, off, "csort:plain-offsets", "%s", d); }
    event("counting_sorts"); eval(H(k, n, nb, g.kind, g.range), n > 1);
  }
}
}  // namespace
#if VF_PART == 0 || VF_PART == 1
CASE("plain keys") { plain<uint8_t>(rng, 40); plain<uint16_t>(rng, 60); plain<uint32_t>(rng, 80); plain<uint64_t>(rng, 100); sample("keys of 0 to 64 significant bits, all-maximal keys, shared high bits, skewed"); }
#endif
#if VF_PART == 0 || VF_PART == 3
CASE("keyed 64-bit") { keyed<KU<uint64_t>, uint64_t>(rng, 150); }
CASE("keyed 32-bit") { keyed<KU<uint32_t>, uint32_t>(rng, 150); sample("stability observed by element ids"); }
#endif
#if VF_PART == 0 || VF_PART == 2
CASE("keyed 16-bit") { keyed<KU<uint16_t>, uint16_t>(rng, 80); }
CASE("keyed strings") { keyed<KS<uint32_t>, uint32_t>(rng, 40); }
#endif
#if VF_PART == 0 || VF_PART == 4
CASE("counting sort") { counting<KU<uint32_t>, uint32_t>(rng, 150); counting<KU<uint8_t>, uint8_t>(rng, 60); counting<KU<uint64_t>, uint64_t>(rng, 60); sample("1 to 70000 buckets, bucket offsets compared with exact counts"); }
CASE("counting sort strings") { counting<KS<uint16_t>, uint16_t>(rng, 50); }
#endif
#if VF_PART == 0 || VF_PART == 2
CASE("move-only") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    std::string d; size_t n = std::min<size_t>(isize(rng), 30000); auto ks = ikeys<uint32_t>(rng, n, d);
    std::vector<uint32_t> p(n); std::iota(p.begin(), p.end(), 0u); std::stable_sort(p.begin(), p.end(), [&](uint32_t x, uint32_t y) { return ks[x] < ks[y]; });
    { std::vector<KVMove> v; for (size_t i = 0; i < n; i++) v.emplace_back(ks[i], static_cast<int64_t>(i)); parlay::integer_sort_inplace(v, [](const KVMove& x) { return static_cast<uint32_t>(x.k); });
      bool ok = true; for (size_t i = 0; ok && i < n; i++) ok = v[i].id == p[i] && v[i].p && *v[i].p == p[i]; VF_CHECK(ok, "isort:move-only", "%s", d.c_str()); }
    { std::vector<KVMove> v; size_t nb = 1 + rng.below(1000); for (size_t i = 0; i < n; i++) v.emplace_back(ks[i] % nb, static_cast<int64_t>(i)); auto o = parlay::counting_sort_inplace(v, nb, [](const KVMove& x) { return static_cast<uint32_t>(x.k); });
      bool ok = o.size() == nb + 1 && o[nb] == n; for (size_t i = 0; ok && i < n; i++) ok = v[i].p && *v[i].p == v[i].id && (i == 0 || v[i - 1].k < v[i].k || (v[i - 1].k == v[i].k && v[i - 1].id < v[i].id)) && o[static_cast<size_t>(v[i].k)] <= i && i < o[static_cast<size_t>(v[i].k) + 1]; VF_CHECK(ok, "csort:move-only", "n=%zu nb=%zu", n, nb); }
    eval(H(k, n, hash_str(d)), n > 1);
  }
}
CASE("with counts and inside parallel work") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    size_t n = isize(rng), nb = 1 + rng.below(rng.chance(1, 2) ? 300 : 70000); std::vector<uint32_t> v(n); for (auto& x : v) x = static_cast<uint32_t>(rng.below(nb)); auto e = v; std::sort(e.begin(), e.end()); std::vector<size_t> c(nb, 0); for (auto x : v) c[x]++;
    auto [r, cn] = parlay::internal::integer_sort_with_counts(parlay::make_slice(v), [](uint32_t x) { return static_cast<size_t>(x); }, nb);
    VF_SAME(r, e, "isort:with-counts", "n=%zu nb=%zu", n, nb); VF_SAME(cn, c, "isort:counts", "n=%zu nb=%zu", n, nb);
    eval(H(k, n, nb), n > 1);
  }
  for (size_t k = 0, R = rounds(10); k < R; k++) {
    uint64_t s = rng.next(); parlay::parallel_for(0, 6, [&](size_t i) { Rng r2(s + i); std::string d; auto v = ikeys<uint32_t>(r2, std::min<size_t>(isize(r2), 40000), d); auto e = v; std::sort(e.begin(), e.end()); auto a = parlay::integer_sort(v); VF_SAME(a, e, "isort:nested", "%s", d.c_str()); parlay::integer_sort_inplace(v); VF_SAME(v, e, "isort:nested-inplace", "%s", d.c_str()); }, 1);
    eval(H(k, s));
  }
}
#endif
#if VF_PART == 0 || VF_PART == 1
CASE("very large") {
  if (scale() < 1) return;
  for (size_t k = 0, R = thorough() ? 4 : 1; k < R; k++) {
    size_t n = 3000000 + rng.below(1000000); std::vector<KU<uint32_t>> v(n); uint64_t range = k % 2 ? 70000 : ~0u; for (size_t i = 0; i < n; i++) v[i] = {static_cast<uint32_t>(rng.below(range)), static_cast<uint32_t>(i)};
    auto e = v; std::stable_sort(e.begin(), e.end(), [](auto& a, auto& b) { return a.key < b.key; });
    auto a = parlay::integer_sort(v, [](auto& x) { return x.key; }); VF_SAME(a, e, "isort:large", "n=%zu", n);
    parlay::integer_sort_inplace(v, [](auto& x) { return x.key; }); VF_SAME(v, e, "isort:large-inplace", "n=%zu", n);
    eval(H(k, n));
  }
}
#endif
