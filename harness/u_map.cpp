// P15: mapping, packing, filtering, flattening and rearranging against their sequential definitions.
#include "gen.h"
#include <deque>
#include <list>
#include <parlay/primitives.h>
#include <parlay/internal/uninitialized_sequence.h>
using namespace vf;

namespace {
struct Obj {   // heap-owning, so that a bad copy or a double move shows
  int64_t v = -1; std::unique_ptr<int64_t> p;
  Obj() = default; Obj(int64_t x) : v(x), p(new int64_t(x)) {}   // NOLINT
  Obj(const Obj& o) : v(o.v), p(o.p ? new int64_t(*o.p) : nullptr) {} Obj(Obj&&) = default;
  Obj& operator=(const Obj& o) { v = o.v; p.reset(o.p ? new int64_t(*o.p) : nullptr); return *this; } Obj& operator=(Obj&&) = default;
  friend bool operator==(const Obj& a, const Obj& b) { return a.v == b.v && a.p && b.p && *a.p == *b.p; }
  friend bool operator!=(const Obj& a, const Obj& b) { return !(a == b); }
};
struct Mo { int64_t v = -1; std::unique_ptr<int64_t> p; Mo() = default; Mo(int64_t x) : v(x), p(new int64_t(x)) {}   // NOLINT
  friend bool operator==(const Mo& a, const Mo& b) { return a.v == b.v && a.p && b.p && *a.p == *b.p; } };
size_t mapn(Rng& r) { return r.chance(1, 4) ? 1024 * (1 + r.below(4)) + r.below(3) - 1 : pick_size(r, maxn(40000, 300000)); }
std::vector<int64_t> vals(Rng& r, size_t n) { std::vector<int64_t> v(n); uint64_t m = r.chance(1, 3) ? 3 : 100000; for (auto& x : v) x = static_cast<int64_t>(r.below(m)); return v; }
std::vector<unsigned char> flags(Rng& r, size_t n) {
  std::vector<unsigned char> f(n, 0); int k = static_cast<int>(r.below(6));
  for (size_t i = 0; i < n; i++) f[i] = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? r.chance(1, 2) : k == 3 ? r.chance(1, 100) : k == 4 ? (i / 1024) % 2 : (i == n - 1 || i == 0);
  return f;
}
template <class T> std::vector<T> make(const std::vector<int64_t>& v) { std::vector<T> o; o.reserve(v.size()); for (auto x : v) o.push_back(T(x)); return o; }
// range kinds over T
template <class T, class F> void with_range(Rng& rng, const std::vector<int64_t>& v, F&& f) {
  size_t n = v.size();
  switch (rng.below(5)) {
    case 0: { parlay::sequence<T> s(v.begin(), v.end()); f(s, "sequence"); for (size_t i = 0; i < n; i++) if (!(s[i] == T(v[i]))) { fail("map:input-changed", "element %zu of a sequence of %zu", i, n); break; } break; }
    case 1: { const std::vector<T> s(v.begin(), v.end()); f(s, "const vector"); for (size_t i = 0; i < n; i++) if (!(s[i] == T(v[i]))) { fail("map:input-changed", "element %zu of a vector of %zu", i, n); break; } break; }
    case 2: { std::deque<T> s(v.begin(), v.end()); f(s, "deque"); for (size_t i = 0; i < n; i++) if (!(s[i] == T(v[i]))) { fail("map:input-changed", "element %zu of a deque of %zu", i, n); break; } break; }
    case 3: { auto s = parlay::delayed_tabulate(n, [&](size_t i) { return T(v[i]); }); f(s, "delayed"); break; }
    default: { std::vector<T> b(n + 6, T(-99)); size_t o = rng.below(7); for (size_t i = 0; i < n; i++) b[o + i] = T(v[i]); auto s = parlay::make_slice(b).cut(o, o + n); f(s, "slice"); for (size_t i = 0; i < b.size(); i++) if (!(b[i] == ((i >= o && i < o + n) ? T(v[i - o]) : T(-99)))) { fail("map:input-changed", "element %zu around a slice of %zu", i, n); break; } break; }
  }
}
template <class O, class V> void same(const O& out, const V& want, const char* op, const char* kind, size_t n) { VF_SAME(out, want, std::string("map:") + op, "%s of %zu", kind, n); event("outputs"); }
}  // namespace

#if VF_PART == 0 || VF_PART == 1
CASE("tabulate, map, for_each, copy") {
  for (size_t k = 0, R = rounds(120); k < R; k++) {
    size_t n = mapn(rng); auto v = vals(rng, n); auto w = make<Obj>(v);
    std::vector<std::atomic<uint32_t>> calls(n); size_t gran = rng.chance(1, 3) ? 1 + rng.below(5000) : 0;
    auto t = parlay::tabulate(n, [&](size_t i) { if (i >= n) { fail("map:index-out-of-range", "%zu of %zu", i, n); return Obj(0); } calls[i]++; return Obj(v[i]); }, gran); same(t, w, "tabulate", "n", n);
    for (size_t i = 0; i < n; i++) if (calls[i] != 1) { fail("map:tabulate-calls", "function called %u times for index %zu of %zu", calls[i].load(), i, n); break; }
    auto t2 = parlay::tabulate<Obj>(n, [&](size_t i) { return v[i]; }); same(t2, w, "tabulate<T>", "n", n);
    auto mo = parlay::tabulate(n, [&](size_t i) { return Mo(v[i]); }); same(mo, make<Mo>(v), "tabulate-move-only", "n", n);
    with_range<Obj>(rng, v, [&](auto& r, const char* kind) {
      std::vector<int64_t> e(n); for (size_t i = 0; i < n; i++) e[i] = v[i] * 3 + 1;
      same(parlay::map(r, [](const Obj& o) { return o.v * 3 + 1; }, gran), e, "map", kind, n);
      same(parlay::to_sequence(r), w, "to_sequence", kind, n); same(parlay::to_short_sequence(r), w, "to_short_sequence", kind, n);
      same(parlay::delayed_map(r, [](const Obj& o) { return o.v * 3 + 1; }), e, "delayed_map", kind, n);
      std::vector<Obj> out(n + 3, Obj(-7)); parlay::copy(r, out); for (size_t i = 0; i < out.size(); i++) if (!(out[i] == Obj(i < n ? v[i] : -7))) { fail("map:copy", "%s: element %zu of %zu", kind, i, n); break; }
      std::atomic<int64_t> sum{0}, cnt{0}; parlay::for_each(r, [&](const Obj& o) { sum += o.v; cnt++; }); VF_CHECK(cnt == static_cast<int64_t>(n) && sum == std::accumulate(v.begin(), v.end(), int64_t{0}), "map:for_each", "%s of %zu", kind, n);
    });
    { auto s = parlay::to_sequence(v); parlay::for_each(s, [](int64_t& x) { x += 5; }); auto e = v; for (auto& x : e) x += 5; same(s, e, "for_each-modify", "sequence", n);
      // map over a temporary and returning references
      same(parlay::map(parlay::to_sequence(v), [](int64_t x) { return x; }), v, "map-temporary", "sequence", n);
      same(parlay::map(w, [](const Obj& o) -> const Obj& { return o; }), w, "map-reference", "vector", n); }
    same(parlay::iota<int>(static_cast<int>(n)), parlay::tabulate(n, [](size_t i) { return static_cast<int>(i); }), "iota", "int", n);
    eval(H(k, n, n ? v[n / 2] : 0), n > 1);
  }
}
CASE("pack and filter") {
  for (size_t k = 0, R = rounds(200); k < R; k++) {
    size_t n = mapn(rng); auto v = vals(rng, n); auto fl = flags(rng, n); std::vector<Obj> e; std::vector<size_t> ei; for (size_t i = 0; i < n; i++) if (fl[i]) { e.push_back(Obj(v[i])); ei.push_back(i); }
    uint64_t salt = rng.next(); unsigned den = 1 + static_cast<unsigned>(rng.below(4)); auto keep = [&](int64_t x) { return mix(static_cast<uint64_t>(x) ^ salt) % den == 0; };
    std::vector<Obj> ef, er; for (auto x : v) { if (keep(x)) ef.push_back(Obj(x)); else er.push_back(Obj(x)); }
    auto check_out = [&](const std::vector<Obj>& out, size_t m, const std::vector<Obj>& want, const char* op, const char* kind) {
      VF_CHECK(m == want.size(), std::string("map:") + op, "%s of %zu: reported %zu instead of %zu", kind, n, m, want.size());
      for (size_t i = 0; i < out.size(); i++) if (!(out[i] == (i < want.size() ? want[i] : Obj(-7)))) { fail(std::string("map:") + op, "%s of %zu: output %zu (of %zu selected)", kind, n, i, want.size()); break; }
      event("outputs");
    };
    with_range<Obj>(rng, v, [&](auto& r, const char* kind) {
      same(parlay::pack(r, fl), e, "pack", kind, n);
      same(parlay::pack(r, parlay::delayed_tabulate(n, [&](size_t i) { return fl[i] * 4; })), e, "pack-int-flags", kind, n);
      same(parlay::filter(r, [&](const Obj& o) { return keep(o.v); }), ef, "filter", kind, n);
      same(parlay::filter(r, [&](const Obj& o) { return keep(o.v) ? 6 : 0; }), ef, "filter-int", kind, n);
      same(parlay::remove_if(r, [&](const Obj& o) { return keep(o.v); }), er, "remove_if", kind, n);
      // destinations of exactly the size needed, and larger ones; elements past the output must not be touched
      for (size_t slack : {size_t{0}, size_t{3}}) {
        parlay::internal::uninitialized_sequence<Obj> u(e.size() + slack); for (size_t i = e.size(); i < u.size(); i++) new (&u[i]) Obj(-7);
        size_t m = parlay::pack_into_uninitialized(r, fl, u); std::vector<Obj> got(u.begin(), u.end()); check_out(got, m, e, "pack_into_uninitialized", kind); for (size_t i = 0; i < u.size(); i++) std::destroy_at(&u[i]);
        parlay::internal::uninitialized_sequence<Obj> u2(ef.size() + slack); for (size_t i = ef.size(); i < u2.size(); i++) new (&u2[i]) Obj(-7);
        size_t m2 = parlay::filter_into_uninitialized(r, u2, [&](const Obj& o) { return keep(o.v); }); std::vector<Obj> got2(u2.begin(), u2.end()); check_out(got2, m2, ef, "filter_into_uninitialized", kind); for (size_t i = 0; i < u2.size(); i++) std::destroy_at(&u2[i]);
      }
      auto mm = [&](const Obj& o) -> std::optional<int64_t> { if (keep(o.v)) return o.v + 1; return std::nullopt; };
      std::vector<int64_t> em; for (auto& o : ef) em.push_back(o.v + 1);
      same(parlay::map_maybe(r, mm), em, "map_maybe", kind, n);
    });
    { // trivial elements into caller-provided arrays
      std::vector<int64_t> out(ei.size() + 2, -7); size_t m = parlay::pack_into(v, fl, out); bool ok = m == ei.size(); for (size_t i = 0; ok && i < out.size(); i++) ok = out[i] == (i < ei.size() ? v[ei[i]] : -7); VF_CHECK(ok, "map:pack_into", "n=%zu, %zu selected", n, ei.size());
      std::vector<int64_t> o2(ef.size() + 2, -7); m = parlay::filter_into(v, o2, keep); ok = m == ef.size(); for (size_t i = 0; ok && i < o2.size(); i++) ok = o2[i] == (i < ef.size() ? ef[i].v : -7); VF_CHECK(ok, "map:filter_into", "n=%zu, %zu selected", n, ef.size()); }
    same(parlay::pack_index(fl), ei, "pack_index", "flags", n);
    auto p32 = parlay::pack_index<uint32_t>(parlay::delayed_map(fl, [](unsigned char c) -> bool { return c; })); static_assert(std::is_same_v<std::decay_t<decltype(p32[0])>, uint32_t>); same(p32, ei, "pack_index<u32>", "delayed", n);
    int64_t x = n ? v[rng.below(n)] : 0; std::vector<int64_t> ev; for (auto y : v) if (y != x) ev.push_back(y); same(parlay::remove(v, x), ev, "remove", "vector", n);
    eval(H(k, n, e.size(), ef.size()), n > 1); if (e.empty() && n) event("nothing_selected"); if (n && e.size() == n) event("all_selected");
  }
  sample("flags none, all, random, rare, alternating blocks, ends only");
}
CASE("internal split and filter_map") {
  for (size_t k = 0, R = rounds(100); k < R; k++) {
    size_t n = mapn(rng); auto v = vals(rng, n); auto fl = flags(rng, n); auto s = parlay::sequence<Obj>(v.begin(), v.end()); std::vector<Obj> a, b, c; for (size_t i = 0; i < n; i++) (fl[i] ? b : a).push_back(s[i]);
    parlay::sequence<bool> bl(n); for (size_t i = 0; i < n; i++) bl[i] = fl[i];
    auto [o, m] = parlay::internal::split_two(parlay::make_slice(s), bl); auto ab = a; ab.insert(ab.end(), b.begin(), b.end()); same(o, ab, "split_two", "sequence", n); VF_CHECK(m == a.size(), "map:split_two", "count %zu instead of %zu", m, a.size());
    std::vector<unsigned char> f3(n); a.clear(); b.clear(); for (size_t i = 0; i < n; i++) { f3[i] = static_cast<unsigned char>(rng.below(3)); (f3[i] == 0 ? a : f3[i] == 1 ? b : c).push_back(s[i]); }
    std::vector<Obj> out(n); auto [m0, m1] = parlay::internal::split_three<parlay::copy_assign_tag>(parlay::make_slice(s), parlay::make_slice(out), f3); ab = a; ab.insert(ab.end(), b.begin(), b.end()); ab.insert(ab.end(), c.begin(), c.end()); same(out, ab, "split_three", "sequence", n); VF_CHECK(m0 == a.size() && m1 == b.size(), "map:split_three", "counts");
    std::vector<int64_t> e; for (auto x : v) if (x % 3 == 1) e.push_back(x * 2); same(parlay::internal::filter_map(parlay::make_slice(v), [](int64_t x) { return x % 3 == 1; }, [](int64_t x) { return x * 2; }), e, "filter_map", "slice", n);
    eval(H(k, n, m), n > 1);
  }
}
#endif
#if VF_PART == 0 || VF_PART == 2
CASE("reverse, rotate, append, unique") {
  for (size_t k = 0, R = rounds(200); k < R; k++) {
    size_t n = mapn(rng); auto v = vals(rng, n); size_t t = rng.chance(1, 4) ? (rng.chance(1, 2) ? 0 : n) : rng.below(n + 1);
    if (rng.chance(1, 2)) for (size_t i = 1; i < n; i++) if (rng.chance(1, 2)) v[i] = v[i - 1];
    auto rv = v; std::reverse(rv.begin(), rv.end()); auto ro = v; std::rotate(ro.begin(), ro.begin() + static_cast<long>(t), ro.end());
    auto un = v; un.erase(std::unique(un.begin(), un.end()), un.end()); auto u2 = v; u2.erase(std::unique(u2.begin(), u2.end(), [](int64_t a, int64_t b) { return a / 8 == b / 8; }), u2.end());
    size_t n2 = rng.chance(1, 4) ? 0 : mapn(rng); auto v2 = vals(rng, n2); auto ap = v; ap.insert(ap.end(), v2.begin(), v2.end());
    parlay::sequence<Obj> s2(v2.begin(), v2.end());
    with_range<Obj>(rng, v, [&](auto& r, const char* kind) {
      same(parlay::reverse(r), make<Obj>(rv), "reverse", kind, n); same(parlay::rotate(r, t), make<Obj>(ro), "rotate", kind, n);
      same(parlay::unique(r), make<Obj>(un), "unique", kind, n); same(parlay::unique(r, [](const Obj& a, const Obj& b) { return a.v / 8 == b.v / 8; }), make<Obj>(u2), "unique-eq", kind, n);
      same(parlay::append(r, s2), make<Obj>(ap), "append", kind, n);
    });
    { std::vector<Mo> b; size_t lo = rng.below(3), hi = rng.below(3); for (size_t i = 0; i < lo; i++) b.emplace_back(-5); for (auto x : v) b.emplace_back(x); for (size_t i = 0; i < hi; i++) b.emplace_back(-6);
      parlay::reverse_inplace(parlay::make_slice(b.begin() + static_cast<long>(lo), b.begin() + static_cast<long>(lo + n))); for (size_t i = 0; i < b.size(); i++) if (!(b[i] == Mo(i < lo ? -5 : i < lo + n ? rv[i - lo] : -6))) { fail("map:reverse_inplace", "element %zu, n=%zu", i, n); break; } event("outputs"); }
    same(parlay::append(parlay::to_sequence(v), parlay::delayed_map(v2, [](int64_t x) { return static_cast<int>(x); })), ap, "append-delayed", "sequence", n);
    eval(H(k, n, t, n2), n > 1);
  }
}
CASE("flatten") {
  for (size_t k = 0, R = rounds(150); k < R; k++) {
    size_t rows = rng.chance(1, 3) ? rng.below(4) : rng.below(rng.chance(1, 3) ? 3000 : 60); int shape = static_cast<int>(rng.below(5));
    std::vector<std::vector<int64_t>> v(rows); size_t total = 0;
    for (size_t i = 0; i < rows && total < 150000; i++) { size_t l = shape == 0 ? 0 : shape == 1 ? rng.below(4) : shape == 2 ? (rng.chance(1, 20) ? mapn(rng) : 0) : shape == 3 ? 1 : rng.below(rows > 100 ? 60 : 3000); v[i] = vals(rng, l); total += l; }
    std::vector<int64_t> e; for (auto& r : v) e.insert(e.end(), r.begin(), r.end());
    same(parlay::flatten(v), e, "flatten", "vectors", rows);
    { parlay::sequence<parlay::sequence<Obj>> s; for (auto& r : v) s.push_back(parlay::sequence<Obj>(r.begin(), r.end())); const auto& cs = s;
      same(parlay::flatten(s), make<Obj>(e), "flatten", "lvalue sequences", rows); same(parlay::flatten(cs), make<Obj>(e), "flatten", "const sequences", rows);
      bool ok = s.size() == rows; for (size_t i = 0; ok && i < rows; i++) ok = s[i].size() == v[i].size(); VF_CHECK(ok, "map:input-changed", "flatten of an lvalue changed it");
      same(parlay::flatten(std::move(s)), make<Obj>(e), "flatten", "rvalue sequences", rows); VF_CHECK(s.empty(), "map:flatten-rvalue", "consumed nested sequence is not empty"); }   // NOLINT
    { parlay::sequence<parlay::sequence<Mo>> s(rows); for (size_t i = 0; i < rows; i++) for (auto x : v[i]) s[i].push_back(Mo(x)); same(parlay::flatten(std::move(s)), make<Mo>(e), "flatten", "move-only sequences", rows); }
    { parlay::sequence<parlay::short_sequence<char>> s; std::vector<char> ec; for (auto& r : v) { parlay::short_sequence<char> q; for (auto x : r) { q.push_back(static_cast<char>(x)); ec.push_back(static_cast<char>(x)); } s.push_back(q); } same(parlay::flatten(s), ec, "flatten", "short sequences", rows); same(parlay::flatten(std::move(s)), ec, "flatten", "rvalue short sequences", rows); }
    { auto d = parlay::delayed_tabulate(rows, [&](size_t i) { return parlay::sequence<Obj>(v[i].begin(), v[i].end()); }); same(parlay::flatten(d), make<Obj>(e), "flatten", "delayed prvalue rows", rows); }
    { auto d = parlay::delayed_tabulate(rows, [&](size_t i) { return parlay::make_slice(v[i]); }); same(parlay::flatten(d), e, "flatten", "slices", rows); }
    { std::deque<std::deque<int64_t>> d; for (auto& r : v) d.emplace_back(r.begin(), r.end()); same(parlay::flatten(d), e, "flatten", "deques", rows); }
    { auto d = parlay::delayed_tabulate(rows, [&](size_t i) { return parlay::delayed_map(v[i], [](int64_t x) { return Obj(x); }); }); same(parlay::flatten(d), make<Obj>(e), "flatten", "delayed rows", rows); }
    eval(H(k, rows, e.size(), shape), rows > 0);
  }
  sample("0 to 3000 rows: empty, short, few long, single, uneven");
}
CASE("zip and split") {
  for (size_t k = 0, R = rounds(120); k < R; k++) {
    size_t n = mapn(rng), m = rng.chance(1, 3) ? n : mapn(rng); auto v = vals(rng, n), w = vals(rng, m);
    { auto z = parlay::zip(v, w); size_t l = std::min(n, m); VF_CHECK(z.size() == l, "map:zip", "length %zu of zip of %zu and %zu", z.size(), n, m); for (size_t i = 0; i < std::min<size_t>(l, z.size()); i++) if (std::get<0>(z[i]) != v[i] || std::get<1>(z[i]) != w[i]) { fail("map:zip", "element %zu", i); break; }
      auto z3 = parlay::zip(v, parlay::iota<int>(static_cast<int>(n)), parlay::delayed_map(w, [](int64_t x) { return Obj(x); })); for (size_t i = 0; i < z3.size(); i++) if (std::get<0>(z3[i]) != v[i] || std::get<1>(z3[i]) != static_cast<int>(i) || !(std::get<2>(z3[i]) == Obj(w[i]))) { fail("map:zip3", "element %zu", i); break; } VF_CHECK(z3.size() == l, "map:zip3", "length"); }
    auto fl = flags(rng, n); std::vector<std::vector<Obj>> e(1); for (size_t i = 0; i < n; i++) { e.back().push_back(Obj(v[i])); if (fl[i]) e.emplace_back(); }
    with_range<Obj>(rng, v, [&](auto& r, const char* kind) {
      auto s = parlay::split_at(r, fl); bool ok = s.size() == e.size(); for (size_t i = 0; ok && i < e.size(); i++) ok = first_diff(s[i], e[i]) < 0; VF_CHECK(ok, "map:split_at", "%s of %zu into %zu", kind, n, e.size());
      auto ms = parlay::map_split_at(r, fl, [](auto&& p) { uint64_t x = 0; for (size_t i = 0; i < p.size(); i++) x = x * 7 + static_cast<uint64_t>(p[i].v); return x; }); ok = ms.size() == e.size(); for (size_t i = 0; ok && i < e.size(); i++) { uint64_t x = 0; for (auto& o : e[i]) x = x * 7 + static_cast<uint64_t>(o.v); ok = ms[i] == x; } VF_CHECK(ok, "map:map_split_at", "%s of %zu into %zu", kind, n, e.size());
      event("outputs", 2);
    });
    { std::string t; for (auto x : v) t.push_back(static_cast<char>('a' + x % 26)); auto s = parlay::split_at(t, fl); std::string back; bool ok = s.size() == e.size(); for (size_t i = 0; ok && i < s.size(); i++) { ok = s[i].size() == e[i].size(); back.append(s[i].begin(), s[i].end()); } VF_CHECK(ok && back == t, "map:split_at-chars", "n=%zu", n); }
    eval(H(k, n, m, e.size()), n > 1);
  }
}
CASE("rearrangements nested in parallel loops") {
  for (size_t k = 0, R = rounds(6); k < R; k++) {
    size_t rows = 24; std::vector<std::vector<int64_t>> v(rows); for (auto& r : v) r = vals(rng, mapn(rng)); std::vector<parlay::sequence<int64_t>> a(rows), b(rows);
    parlay::parallel_for(0, rows, [&](size_t i) { a[i] = parlay::filter(v[i], [](int64_t x) { return x % 2 == 0; }); b[i] = parlay::reverse(v[i]); }, 1);
    for (size_t i = 0; i < rows; i++) { std::vector<int64_t> e; for (auto x : v[i]) if (x % 2 == 0) e.push_back(x); same(a[i], e, "filter-nested", "vector", v[i].size()); auto r = v[i]; std::reverse(r.begin(), r.end()); same(b[i], r, "reverse-nested", "vector", v[i].size()); }
    eval(H(k, rows), true);
  }
}
#endif
