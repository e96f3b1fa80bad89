// P11: every object an operation creates is destroyed exactly once and never used outside its life.
// Two monitors: LifeMon (every object's address) for types that must be moved by their constructors, and owned heap
// tokens for types the library may relocate bitwise (a token freed twice, never, or used after its release is seen).
#include "gen.h"
#include <algorithm>
#include <forward_list>
#include <list>
#include <deque>
#include <parlay/delayed.h>
#include <parlay/parallel.h>
#include <parlay/primitives.h>
#include <parlay/relocation.h>
#include <parlay/sequence.h>
#include <parlay/utilities.h>
#include <parlay/internal/bucket_sort.h>
#include <parlay/internal/merge_sort.h>
#include <parlay/internal/quicksort.h>
#include <parlay/internal/sample_sort.h>
#include <parlay/internal/group_by.h>
#include <parlay/internal/uninitialized_sequence.h>
using namespace vf;

namespace {
// ---- an owner of a registered heap token; trivially relocatable (see the specialisation below)
struct Token { int64_t v; };
constexpr uint32_t token_tag = 4242;
inline Token* new_token(int64_t v) { auto* t = new Token{v}; LifeMon::get().born(t, token_tag); return t; }
inline void drop_token(Token* t) {
  if (!t) return;
  uint64_t bad = LifeMon::get().bad; LifeMon::get().died(t, token_tag);
  if (LifeMon::get().bad == bad) { t->v = -999; delete t; }
}
template <bool Copyable> struct OwnerBase {
  Token* p;
  OwnerBase() : p(new_token(0)) {}
  OwnerBase(int64_t v) : p(new_token(v)) {}   // NOLINT
  OwnerBase(OwnerBase&& o) noexcept : p(o.p) { o.p = nullptr; }
  OwnerBase& operator=(OwnerBase&& o) noexcept { if (this != &o) { drop_token(p); p = o.p; o.p = nullptr; } return *this; }
  ~OwnerBase() { drop_token(p); p = reinterpret_cast<Token*>(uintptr_t{0x10}); }
  int64_t get() const {
    if (!p) { fail("life:read-moved-from", "value of a moved-from owner read"); return -777; }
    uint64_t bad = LifeMon::get().bad; LifeMon::get().used(p, token_tag, "read-token");
    return LifeMon::get().bad == bad ? p->v : -778;
  }
};
struct OwnerMove : OwnerBase<false> {
  using OwnerBase<false>::OwnerBase;
  OwnerMove() = default; OwnerMove(OwnerMove&&) = default; OwnerMove& operator=(OwnerMove&&) = default;
  OwnerMove(const OwnerMove&) = delete; OwnerMove& operator=(const OwnerMove&) = delete;
};
struct OwnerCopy : OwnerBase<true> {
  using OwnerBase<true>::OwnerBase;
  OwnerCopy() = default; OwnerCopy(OwnerCopy&&) = default; OwnerCopy& operator=(OwnerCopy&&) = default;
  OwnerCopy(const OwnerCopy& o) : OwnerBase<true>(o.get()) {}
  OwnerCopy& operator=(const OwnerCopy& o) { if (this != &o) { Token* n = new_token(o.get()); drop_token(p); p = n; } return *this; }
};
template <bool C> bool operator<(const OwnerBase<C>& a, const OwnerBase<C>& b) { return a.get() < b.get(); }
template <bool C> bool operator==(const OwnerBase<C>& a, const OwnerBase<C>& b) { return a.get() == b.get(); }
template <bool C> bool operator!=(const OwnerBase<C>& a, const OwnerBase<C>& b) { return a.get() != b.get(); }
}  // namespace
namespace parlay {
template <> struct is_trivially_relocatable<OwnerMove> : std::true_type {};
template <> struct is_trivially_relocatable<OwnerCopy> : std::true_type {};
}  // namespace parlay

namespace {
static_assert(parlay::is_trivially_relocatable_v<OwnerMove> && !parlay::is_trivially_relocatable_v<TrackedMove>);
using V = std::vector<int64_t>;
constexpr int KB = 20;    // value = key << KB | position
inline int64_t keyof(int64_t v) { return v >> KB; }
struct GetKey { template <class T> uint64_t operator()(const T& x) const { return static_cast<uint64_t>(keyof(x.get())); } };
struct KeyLt { template <class T> bool operator()(const T& a, const T& b) const { return keyof(a.get()) < keyof(b.get()); } };
struct KeyEq { template <class T> bool operator()(const T& a, const T& b) const { return keyof(a.get()) == keyof(b.get()); } };
struct KeyHash { template <class T> size_t operator()(const T& a) const { return mix(static_cast<uint64_t>(keyof(a.get()))); } };
struct Odd { template <class T> bool operator()(const T& a) const { return mix(static_cast<uint64_t>(a.get())) & 1; } };
template <class T> struct SumMonoid { T identity{int64_t{0}}; T operator()(const T& a, const T& b) const { return T(a.get() + b.get()); } };
template <class T> struct FirstMonoid { T identity{int64_t{-1}}; T operator()(const T& a, const T& b) const { return T(a.get() == -1 ? b.get() : a.get()); } };

template <class T> parlay::sequence<T> make(const V& v) { return parlay::sequence<T>::from_function(v.size(), [&](size_t i) { return T(v[i]); }); }
template <class R> V vals(R&& r) { V o; for (auto&& x : r) o.push_back(x.get()); return o; }
V gen(Rng& r, size_t n, uint64_t nkeys) {
  V v(n); int shape = static_cast<int>(r.below(4));
  for (size_t i = 0; i < n; i++) {
    uint64_t k = shape == 0 ? i * nkeys / (n + 1) : shape == 1 ? nkeys - 1 - i * nkeys / (n + 1) : shape == 2 ? r.below(nkeys) : (r.chance(1, 3) ? 0 : r.below(nkeys));
    v[i] = static_cast<int64_t>(k << KB | i);
  }
  return v;
}
template <class F> V sel(const V& v, F&& f) { V o; for (auto x : v) if (f(x)) o.push_back(x); return o; }
bool odd(int64_t x) { return mix(static_cast<uint64_t>(x)) & 1; }
V sorted(V v) { std::sort(v.begin(), v.end()); return v; }

uint64_t n_ops = 0;
std::set<std::string>& names() { static std::set<std::string> s; return s; }
// run one operation in its own scope; everything it made must be gone afterwards
template <class F> void op(const std::string& name, size_t n, F&& f) {
  uint64_t c0 = LifeMon::get().ctor, f0 = st().nfail;
  f();
  char w[160]; snprintf(w, sizeof w, "%s of %zu elements", name.c_str(), n);
  LifeMon::get().expect_none(w);
  if (st().nfail != f0) fail("op:" + name, "%zu elements: see the failures above", n);
  uint64_t made = LifeMon::get().ctor - c0;
  event("operations"); event("objects", made); n_ops++; names().insert(name);
  eval(H(hash_str(name), n, made, hash_str(st().current)), n > 1);
}
#define SAME(got, want) VF_SAME((got), (want), "value:" + std::string(nm), "%s: wrong elements", std::string(nm).c_str())
#define OP(name) for (auto nm = std::string(name); !nm.empty(); nm.clear()) op(nm, n, [&]

std::vector<size_t> sizes(Rng& r, size_t cap) {
  std::vector<size_t> s{0, 1, 2, 3, 10};
  for (size_t b : {30ul, 300ul, 1024ul, 2048ul, 5000ul, 8192ul, 10000ul, 12400ul, 21000ul}) if (b <= cap) s.push_back(std::max<size_t>(4, b - 2 + r.below(5)));
  s.push_back(r.below(cap)); s.push_back(r.below(cap / 8));
  return s;
}
size_t cap() { double s = scale(); return s >= 0.9 ? 22000 : s >= 0.25 ? 12500 : 9000; }
uint64_t pick_nkeys(Rng& r, size_t n) { uint64_t c[] = {1, 2, 3, 16, 100, 255, 256, 2000, n / 3 + 1, n * 4 + 1}; return c[r.below(10)]; }

// ---------------------------------------------------------------- sorts
template <class T> void move_sorts(const V& v, uint64_t nk) {
  size_t n = v.size(); V so = sorted(v);
  // the values hold the position, so ordering by value is the stable ordering by key
  OP("sort_inplace") { auto s = make<T>(v); parlay::sort_inplace(s); SAME(vals(s), so); });
  OP("sort_inplace by key") { auto s = make<T>(v); parlay::sort_inplace(s, KeyLt{}); SAME(sorted(vals(s)), so); });
  OP("stable_sort_inplace") { auto s = make<T>(v); parlay::stable_sort_inplace(s, KeyLt{}); SAME(vals(s), so); });
  OP("integer_sort_inplace") { auto s = make<T>(v); parlay::integer_sort_inplace(s, GetKey{}); SAME(sorted(vals(s)), so); });
  OP("stable_integer_sort_inplace") { auto s = make<T>(v); parlay::stable_integer_sort_inplace(s, GetKey{}); SAME(vals(s), so); });
  if (nk <= 5000) OP("counting_sort_inplace") { auto s = make<T>(v); parlay::counting_sort_inplace(s, nk, GetKey{}); SAME(vals(s), so); });
  OP("merge_sort_inplace") { auto s = make<T>(v); parlay::internal::merge_sort_inplace(parlay::make_slice(s), KeyLt{}); SAME(vals(s), so); });
  OP("sample_sort_inplace") { auto s = make<T>(v); parlay::internal::sample_sort_inplace(parlay::make_slice(s), KeyLt{}); SAME(sorted(vals(s)), so); });
  OP("quicksort") { auto s = make<T>(v); parlay::internal::quicksort(parlay::make_slice(s), std::less<>{}); SAME(vals(s), so); });
  OP("bucket_sort") { auto s = make<T>(v); parlay::internal::bucket_sort(parlay::make_slice(s), KeyLt{}, true); SAME(vals(s), so); });
  if (n < 2000) OP("insertion_sort") { auto s = make<T>(v); parlay::internal::insertion_sort(s.begin(), n, KeyLt{}); SAME(vals(s), so); });
  OP("sort_inplace of a slice") { auto s = make<T>(v); size_t a = n / 4, b = n - n / 3; parlay::sort_inplace(s.cut(a, b)); V w = v; std::sort(w.begin() + a, w.begin() + b); SAME(vals(s), w); });
  OP("reverse_inplace") { auto s = make<T>(v); parlay::reverse_inplace(s); V w(v.rbegin(), v.rend()); SAME(vals(s), w); });
  OP("sort_inplace backwards") { auto s = make<T>(v); parlay::sort_inplace(parlay::make_slice(std::make_reverse_iterator(s.end()), std::make_reverse_iterator(s.begin()))); SAME(vals(s), V(so.rbegin(), so.rend())); });
  OP("sort_inplace of a deque") { std::deque<T> s; for (auto x : v) s.emplace_back(x); parlay::sort_inplace(s); SAME(vals(s), so); });
}
template <class T> void copy_sorts(const V& v, uint64_t nk, Rng& r) {
  size_t n = v.size(); V so = sorted(v);
  auto src = [&](auto&& f) { auto s = make<T>(v); { f(s); } VF_SAME(vals(s), v, "input:changed", "the input of a copying sort changed"); };
  OP("sort") { src([&](auto& s) { SAME(vals(parlay::sort(s)), so); }); });
  OP("sort by key") { src([&](auto& s) { SAME(sorted(vals(parlay::sort(s, KeyLt{}))), so); }); });
  OP("stable_sort") { src([&](auto& s) { SAME(vals(parlay::stable_sort(s, KeyLt{})), so); }); });
  OP("integer_sort") { src([&](auto& s) { SAME(sorted(vals(parlay::integer_sort(s, GetKey{}))), so); }); });
  OP("stable_integer_sort") { src([&](auto& s) { SAME(vals(parlay::stable_integer_sort(s, GetKey{})), so); }); });
  if (nk <= 5000) OP("counting_sort") { src([&](auto& s) { SAME(vals(parlay::counting_sort(s, nk, GetKey{}).first), so); }); });
  OP("merge_sort") { src([&](auto& s) { SAME(vals(parlay::internal::merge_sort(parlay::make_slice(s), KeyLt{})), so); }); });
  OP("sample_sort") { src([&](auto& s) { SAME(vals(parlay::internal::sample_sort(parlay::make_slice(s), KeyLt{}, true)), so); }); });
  if (n) OP("kth_smallest_copy") { src([&](auto& s) { size_t k = r.below(n); auto x = parlay::kth_smallest_copy(s, k); SAME(V{x.get()}, V{so[k]}); }); });
  if (n) OP("kth_smallest") { src([&](auto& s) { size_t k = r.below(n); SAME(V{parlay::kth_smallest(s, k)->get()}, V{so[k]}); }); });
  OP("merge") {
    size_t m = n ? r.below(n + 1) : 0; V a(so), b; for (size_t i = 0; i < m; i++) b.push_back(so[i * n / (m + 1)] + (i % 2));
    std::sort(b.begin(), b.end()); auto x = make<T>(a), y = make<T>(b); V w; std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(w));
    SAME(vals(parlay::merge(x, y)), w); SAME(vals(x), a); SAME(vals(y), b);
  });
  OP("rank") { src([&](auto& s) { auto rk = parlay::rank(s); V w(n), g(n); for (size_t i = 0; i < n; i++) { w[i] = static_cast<int64_t>(i); g[rk[i]] = v[i]; } SAME(g, so); }); });
}

// ---------------------------------------------------------------- rearranging and folding
template <class T> void copy_maps(const V& v, Rng& r) {
  size_t n = v.size(); V od = sel(v, odd);
  using parlay::make_slice;
  OP("map") { auto s = make<T>(v); auto o = parlay::map(s, [](const T& x) { return T(x.get() + 1); }); V w = v; for (auto& x : w) x++; SAME(vals(o), w); SAME(vals(s), v); });
  OP("tabulate") { auto o = parlay::tabulate(n, [&](size_t i) { return T(v[i]); }); SAME(vals(o), v); });
  OP("filter") { auto s = make<T>(v); SAME(vals(parlay::filter(s, Odd{})), od); SAME(vals(s), v); });
  OP("filter of a temporary") { SAME(vals(parlay::filter(make<T>(v), Odd{})), od); });
  OP("filter_into_uninitialized") { auto s = make<T>(v); auto d = parlay::internal::uninitialized_sequence<T>(n); size_t m = parlay::filter_into_uninitialized(s, d, Odd{}); V g; for (size_t i = 0; i < m; i++) { g.push_back(d[i].get()); std::destroy_at(&d[i]); } SAME(g, od); });
  OP("pack") { auto s = make<T>(v); auto f = parlay::tabulate(n, [&](size_t i) { return odd(v[i]); }); SAME(vals(parlay::pack(s, f)), od); SAME(vals(s), v); });
  OP("pack_into_uninitialized") { auto s = make<T>(v); auto f = parlay::tabulate(n, [&](size_t i) { return odd(v[i]); }); auto d = parlay::internal::uninitialized_sequence<T>(n); size_t m = parlay::pack_into_uninitialized(s, f, d); V g; for (size_t i = 0; i < m; i++) { g.push_back(d[i].get()); std::destroy_at(&d[i]); } SAME(g, od); });
  OP("remove_if") { auto s = make<T>(v); SAME(vals(parlay::remove_if(s, [](const T& x) { return !Odd{}(x); })), od); SAME(vals(s), v); });
  OP("append") { V b(v.begin(), v.begin() + n / 2); auto s = make<T>(v), t = make<T>(b); V w = v; w.insert(w.end(), b.begin(), b.end()); SAME(vals(parlay::append(s, t)), w); SAME(vals(s), v); SAME(vals(t), b); });
  OP("append of temporaries") { V w = v; w.insert(w.end(), v.begin(), v.end()); SAME(vals(parlay::append(make<T>(v), make<T>(v))), w); });
  OP("reverse") { auto s = make<T>(v); SAME(vals(parlay::reverse(s)), V(v.rbegin(), v.rend())); });
  OP("rotate") { auto s = make<T>(v); size_t t = n ? r.below(n + 1) : 0; V w = v; std::rotate(w.begin(), w.begin() + t, w.end()); SAME(vals(parlay::rotate(s, t)), w); });
  OP("unique") { V w = v; std::sort(w.begin(), w.end()); auto s = make<T>(w); w.erase(std::unique(w.begin(), w.end(), [](int64_t a, int64_t b) { return keyof(a) == keyof(b); }), w.end()); SAME(vals(parlay::unique(s, KeyEq{})), w); });
  OP("flatten") {
    std::vector<size_t> cut{0}; while (cut.back() < n) cut.push_back(std::min(n, cut.back() + r.below(r.chance(1, 5) ? n + 1 : 50)));
    auto ss = parlay::tabulate(cut.size() - 1, [&](size_t i) { return make<T>(V(v.begin() + cut[i], v.begin() + cut[i + 1])); });
    SAME(vals(parlay::flatten(ss)), v); for (size_t i = 0; i < ss.size(); i++) SAME(vals(ss[i]), V(v.begin() + cut[i], v.begin() + cut[i + 1]));
    SAME(vals(parlay::flatten(std::move(ss))), v);
  });
  OP("random_shuffle") { auto s = make<T>(v); SAME(sorted(vals(parlay::random_shuffle(s, parlay::random(r.next())))), sorted(v)); SAME(vals(s), v); });
  OP("map_maybe") { auto s = make<T>(v); SAME(vals(parlay::map_maybe(s, [](const T& x) -> std::optional<T> { if (Odd{}(x)) return T(x.get()); return std::nullopt; })), od); });
  OP("split_at") { auto s = make<T>(v); auto f = parlay::tabulate(n, [&](size_t i) { return odd(v[i] + 1); }); V g; for (auto& p : parlay::split_at(s, f)) for (auto& x : p) g.push_back(x.get()); SAME(g, v); });
  OP("map_split_at") { auto s = make<T>(v); auto f = parlay::tabulate(n, [&](size_t i) { return odd(v[i] + 1); }); auto o = parlay::map_split_at(s, f, [](auto p) { return T(static_cast<int64_t>(p.size())); }); int64_t t = 0; for (auto& x : o) t += x.get(); SAME(V{t}, V{static_cast<int64_t>(n)}); });
  OP("reduce") { auto s = make<T>(v); int64_t w = 0; for (auto x : v) w += x; SAME(V{parlay::reduce(s, SumMonoid<T>{}).get()}, V{w}); SAME(V{parlay::reduce(s, FirstMonoid<T>{}).get()}, V{n ? v[0] : -1}); });
  V ex(n), in(n); int64_t tot = 0; for (size_t i = 0; i < n; i++) { ex[i] = tot; tot += v[i]; in[i] = tot; }
  OP("scan") { auto s = make<T>(v); auto [o, t] = parlay::scan(s, SumMonoid<T>{}); SAME(vals(o), ex); SAME(V{t.get()}, V{tot}); SAME(vals(s), v); });
  OP("scan_inclusive") { auto s = make<T>(v); SAME(vals(parlay::scan_inclusive(s, SumMonoid<T>{})), in); });
  OP("scan_inplace") { auto s = make<T>(v); auto t = parlay::scan_inplace(s, SumMonoid<T>{}); SAME(vals(s), ex); SAME(V{t.get()}, V{tot}); });
  OP("scan_inclusive_inplace") { auto s = make<T>(v); parlay::scan_inclusive_inplace(s, SumMonoid<T>{}); SAME(vals(s), in); });
  OP("copy") { auto s = make<T>(v); auto d = make<T>(V(n, -5)); parlay::copy(s, d); SAME(vals(d), v); SAME(vals(s), v); });
  OP("to_sequence") { auto s = make<T>(v); auto o = parlay::to_sequence(s.cut(0, n)); SAME(vals(o), v); });
  OP("to_sequence of a list") { std::list<T> s; for (auto x : v) s.emplace_back(x); auto o = parlay::to_sequence(s); SAME(vals(o), v); });
  OP("transpose of a sequence") { auto s = make<T>(v); auto t = std::move(s); SAME(vals(t), v); s = t; SAME(vals(s), v); s = make<T>(V(n / 2, 3)); std::swap(s, t); SAME(vals(s), v); SAME(vals(t), V(n / 2, 3)); });
  if (n) OP("min_element") { auto s = make<T>(v); SAME(V{parlay::min_element(s)->get()}, V{sorted(v)[0]}); SAME(V{parlay::max_element(s)->get()}, V{sorted(v)[n - 1]}); });
  OP("equal and compare") { auto s = make<T>(v), t = make<T>(v); SAME((V{parlay::equal(s, t), s == t, s < t}), (V{1, 1, 0})); });
}
template <class T> void move_maps(const V& v, Rng& r) {
  size_t n = v.size();
  OP("tabulate of move-only") { auto o = parlay::tabulate(n, [&](size_t i) { return T(v[i]); }); SAME(vals(o), v); auto p = std::move(o); SAME(vals(p), v); o = std::move(p); SAME(vals(o), v); });
  OP("map to move-only") { auto s = parlay::to_sequence(v); auto o = parlay::map(s, [](int64_t x) { return T(x); }); SAME(vals(o), v); });
  OP("flatten of temporaries") {
    std::vector<size_t> cut{0}; while (cut.back() < n) cut.push_back(std::min(n, cut.back() + r.below(r.chance(1, 5) ? n + 1 : 50)));
    auto ss = parlay::tabulate(cut.size() - 1, [&](size_t i) { return make<T>(V(v.begin() + cut[i], v.begin() + cut[i + 1])); });
    SAME(vals(parlay::flatten(std::move(ss))), v);
  });
  OP("growing") { parlay::sequence<T> s; for (size_t i = 0; i < n; i++) { if (i % 3) s.push_back(T(v[i])); else s.emplace_back(v[i]); } SAME(vals(s), v); if (n) { s.pop_back(); SAME(vals(s), V(v.begin(), v.end() - 1)); } s.clear(); });
  OP("insert and erase") { auto s = make<T>(v); size_t k = r.below(n + 1); V w = v; s.insert(s.begin() + static_cast<std::ptrdiff_t>(k), T(5)); w.insert(w.begin() + k, 5); s.emplace(s.begin(), 6); w.insert(w.begin(), 6); SAME(vals(s), w);
    s.erase(s.begin() + static_cast<std::ptrdiff_t>(k)); w.erase(w.begin() + k); SAME(vals(s), w); size_t a = w.size() / 3, b = w.size() - w.size() / 4; s.erase(s.begin() + static_cast<std::ptrdiff_t>(a), s.begin() + static_cast<std::ptrdiff_t>(b)); w.erase(w.begin() + a, w.begin() + b); SAME(vals(s), w); });
  OP("append of a temporary sequence") { auto s = make<T>(v); s.append(make<T>(v)); V w = v; w.insert(w.end(), v.begin(), v.end()); SAME(vals(s), w); s.reserve(w.size() * 2 + 3); SAME(vals(s), w); });
  OP("short sequences") { size_t m = std::min<size_t>(n, 20); parlay::short_sequence<T> s; for (size_t i = 0; i < m; i++) s.emplace_back(v[i]); V w(v.begin(), v.begin() + m); SAME(vals(s), w); auto t = std::move(s); SAME(vals(t), w); s = std::move(t); t = parlay::short_sequence<T>(); t.emplace_back(7); std::swap(s, t); SAME(vals(t), w); SAME(vals(s), V{7}); });
}

// ---------------------------------------------------------------- grouping
template <class T> std::map<int64_t, V> model_groups(const V& v) { std::map<int64_t, V> m; for (auto x : v) m[keyof(x)].push_back(x); return m; }
template <class T> void groups(const V& v, uint64_t nk) {
  size_t n = v.size(); auto m = model_groups<T>(v);
  using P = std::pair<T, T>;    // the key is the element itself (only its key part counts) and so is the value
  auto pairs = [&] { return parlay::sequence<P>::from_function(n, [&](size_t i) { return P(T(v[i]), T(v[i])); }); };
  auto check = [&](auto& g, const std::string& nm) {
    std::map<int64_t, V> got; for (auto& [k, s] : g) { auto& w = got[keyof(k.get())]; if (!w.empty()) fail("value:" + nm, "a key was reported twice"); for (auto& x : s) w.push_back(x.get()); }
    if (got != m) fail("value:" + nm, "%s: wrong groups", nm.c_str());
  };
  auto checkin = [&](auto& s, const std::string& nm) { for (size_t i = 0; i < n; i++) if (s[i].first.get() != v[i] || s[i].second.get() != v[i]) { fail("input:changed", "%s changed its input", nm.c_str()); break; } };
  OP("group_by_key") { auto s = pairs(); auto g = parlay::group_by_key(s, KeyHash{}, KeyEq{}); check(g, nm); checkin(s, nm); });
  OP("group_by_key of a temporary") { auto g = parlay::group_by_key(pairs(), KeyHash{}, KeyEq{}); check(g, nm); });
  OP("group_by_key_ordered") { auto s = pairs(); auto g = parlay::group_by_key_ordered(s, KeyLt{}); check(g, nm); checkin(s, nm); });
  auto first = [&] { V w; for (auto& [k, x] : m) w.push_back(x[0]); return sorted(w); };
  OP("reduce_by_key") { auto s = pairs(); auto g = parlay::reduce_by_key(s, FirstMonoid<T>{}, KeyHash{}, KeyEq{}); V w; for (auto& [k, x] : g) w.push_back(x.get()); SAME(sorted(w), first()); checkin(s, nm); });
  OP("reduce_by_key of a temporary") { auto g = parlay::reduce_by_key(pairs(), FirstMonoid<T>{}, KeyHash{}, KeyEq{}); V w; for (auto& [k, x] : g) w.push_back(x.get()); SAME(sorted(w), first()); });
  auto checkk = [&](V got, const std::string& nm) { V w; for (auto& [k, x] : m) w.push_back(k); std::sort(got.begin(), got.end()); SAME(got, w); };
  OP("histogram_by_key") { auto s = make<T>(v); auto g = parlay::histogram_by_key(s, KeyHash{}, KeyEq{}); V w; for (auto& [k, c] : g) { w.push_back(keyof(k.get())); if (c != m[w.back()].size()) fail("value:" + nm, "wrong count"); } checkk(w, nm); SAME(vals(s), v); });
  OP("histogram_by_key of a temporary") { auto g = parlay::histogram_by_key(make<T>(v), KeyHash{}, KeyEq{}); V w; for (auto& [k, c] : g) w.push_back(keyof(k.get())); checkk(w, nm); });
  OP("remove_duplicates") { auto s = make<T>(v); auto g = parlay::remove_duplicates(s, KeyHash{}, KeyEq{}); V w; for (auto& k : g) w.push_back(keyof(k.get())); checkk(w, nm); SAME(vals(s), v); });
  OP("remove_duplicates of a temporary") { auto g = parlay::remove_duplicates(make<T>(v), KeyHash{}, KeyEq{}); V w; for (auto& k : g) w.push_back(keyof(k.get())); checkk(w, nm); });
  OP("remove_duplicates_ordered") { auto s = make<T>(v); auto g = parlay::remove_duplicates_ordered(s, KeyLt{}); V w; for (auto& k : g) w.push_back(keyof(k.get())); checkk(w, nm); SAME(vals(s), v); });
  if (nk <= 3000) {
    using Q = std::pair<uint32_t, T>;
    auto ipairs = [&] { return parlay::sequence<Q>::from_function(n, [&](size_t i) { return Q(static_cast<uint32_t>(keyof(v[i])), T(v[i])); }); };
    auto icheck = [&](auto& s, const std::string& nm) { for (size_t i = 0; i < n; i++) if (s[i].second.get() != v[i]) { fail("input:changed", "%s changed its input", nm.c_str()); break; } };
    OP("group_by_index") { auto s = ipairs(); auto g = parlay::group_by_index(s, static_cast<uint32_t>(nk)); for (size_t k = 0; k < nk; k++) { auto it = m.find(static_cast<int64_t>(k)); SAME(vals(g[k]), it == m.end() ? V{} : it->second); } icheck(s, nm); });
    OP("reduce_by_index") { auto s = ipairs(); auto g = parlay::reduce_by_index(s, nk, FirstMonoid<T>{}); V w; for (size_t k = 0; k < nk; k++) { auto it = m.find(static_cast<int64_t>(k)); w.push_back(it == m.end() ? -1 : it->second[0]); } SAME(vals(g), w); icheck(s, nm); });
  }
}

// ---------------------------------------------------------------- relocation and raw memory helpers
template <class T> struct Raw {     // n places without objects
  T* p; size_t n; explicit Raw(size_t m) : p(static_cast<T*>(::operator new(m * sizeof(T) + 1, std::align_val_t{alignof(T)}))), n(m) { memset(static_cast<void*>(p), 0x5c, m * sizeof(T)); }
  ~Raw() { ::operator delete(p, std::align_val_t{alignof(T)}); }
  void fill(const V& v) { for (size_t i = 0; i < v.size(); i++) ::new (static_cast<void*>(p + i)) T(v[i]); }
  V take() { V o; for (size_t i = 0; i < n; i++) { o.push_back(p[i].get()); p[i].~T(); } return o; }
};
// an iterator that is random access but not contiguous: every second place
template <class T> struct Strided {
  using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&;
  T* p = nullptr; 
  T& operator*() const { return *p; } T& operator[](difference_type i) const { return p[2 * i]; } T* operator->() const { return p; }
  Strided& operator++() { p += 2; return *this; } Strided operator++(int) { auto t = *this; p += 2; return t; } Strided& operator--() { p -= 2; return *this; } Strided operator--(int) { auto t = *this; p -= 2; return t; }
  Strided& operator+=(difference_type i) { p += 2 * i; return *this; } Strided& operator-=(difference_type i) { p -= 2 * i; return *this; }
  friend Strided operator+(Strided a, difference_type i) { a += i; return a; } friend Strided operator-(Strided a, difference_type i) { a -= i; return a; }
  friend difference_type operator-(const Strided& a, const Strided& b) { return (a.p - b.p) / 2; }
  friend bool operator==(const Strided& a, const Strided& b) { return a.p == b.p; } friend bool operator!=(const Strided& a, const Strided& b) { return a.p != b.p; } friend bool operator<(const Strided& a, const Strided& b) { return a.p < b.p; }
};
template <class T> void relocations(const V& v) {
  size_t n = v.size();
  OP("uninitialized_relocate_n") { Raw<T> a(n), b(n); a.fill(v); parlay::uninitialized_relocate_n(a.p, n, b.p); SAME(b.take(), v); });
  OP("uninitialized_relocate") { Raw<T> a(n), b(n); a.fill(v); parlay::uninitialized_relocate(a.p, a.p + n, b.p); SAME(b.take(), v); });
  OP("uninitialized_relocate_n from strided") { Raw<T> a(2 * n + 1), b(n); for (size_t i = 0; i < n; i++) ::new (static_cast<void*>(a.p + 2 * i)) T(v[i]); parlay::uninitialized_relocate_n(Strided<T>{a.p}, n, b.p); SAME(b.take(), v); });
  OP("uninitialized_relocate from a deque's places") { Raw<T> a(n), b(2 * n + 1); a.fill(v); parlay::uninitialized_relocate_n(a.p, n, Strided<T>{b.p}); V g; for (size_t i = 0; i < n; i++) { g.push_back(b.p[2 * i].get()); b.p[2 * i].~T(); } SAME(g, v); });
  OP("relocate_at") { Raw<T> a(n), b(n); a.fill(v); for (size_t i = 0; i < n; i++) parlay::relocate_at(a.p + i, b.p + i); SAME(b.take(), v); });
  OP("assign_uninitialized") { Raw<T> b(n); for (size_t i = 0; i < n; i++) parlay::assign_uninitialized(b.p[i], T(v[i])); SAME(b.take(), v); });
  OP("assign_dispatch") { Raw<T> b(n); V g; auto s = make<T>(v); for (size_t i = 0; i < n; i++) { if (i % 2) parlay::assign_dispatch(b.p[i], s[i], parlay::uninitialized_move_tag()); else parlay::assign_dispatch(b.p[i], s[i], parlay::uninitialized_relocate_tag()); }
    for (size_t i = 0; i < n; i++) if (i % 2 == 0) ::new (static_cast<void*>(&s[i])) T(0); SAME(b.take(), v); });
  OP("move_assign dispatch") { auto d = make<T>(V(n, -3)); auto s = make<T>(v); for (size_t i = 0; i < n; i++) parlay::assign_dispatch(d[i], s[i], parlay::move_assign_tag()); SAME(vals(d), v); });
}

// ---------------------------------------------------------------- delayed ranges of objects
template <class T> void delayed_ops(const V& v, Rng& r) {
  size_t n = v.size(); V od = sel(v, odd);
  namespace d = parlay::delayed;
  OP("delayed tabulate") { SAME(vals(d::to_sequence(d::tabulate(n, [&](size_t i) { return T(v[i]); }))), v); });
  OP("delayed map") { auto s = make<T>(v); SAME(vals(d::to_sequence(d::map(s, [](const T& x) { return T(x.get()); }))), v); SAME(vals(s), v); });
  OP("delayed map of a temporary") { auto x = d::map(make<T>(v), [](const T& y) { return T(y.get() + 1); }); auto y = x; auto z = std::move(x); V w = v; for (auto& a : w) a++; SAME(vals(d::to_sequence(y)), w); SAME(vals(d::to_sequence(z)), w); });
  OP("delayed filter") { auto s = make<T>(v); auto x = d::filter(s, Odd{}); SAME(vals(d::to_sequence(x)), od); SAME(vals(d::to_sequence(x)), od); });
  OP("delayed filter of a temporary") { auto x = d::filter(d::tabulate(n, [&](size_t i) { return T(v[i]); }), Odd{}); auto y = x; SAME(vals(d::to_sequence(x)), od); x = std::move(y); SAME(vals(d::to_sequence(x)), od); });
  OP("delayed filter_op") { auto s = make<T>(v); SAME(vals(d::to_sequence(d::filter_op(s, [](const T& x) -> std::optional<T> { if (Odd{}(x)) return T(x.get()); return std::nullopt; }))), od); });
  OP("delayed flatten") {
    std::vector<size_t> cut{0}; while (cut.back() < n) cut.push_back(std::min(n, cut.back() + r.below(r.chance(1, 5) ? n + 1 : 50)));
    auto mk = [&] { return parlay::tabulate(cut.size() - 1, [&](size_t i) { return make<T>(V(v.begin() + cut[i], v.begin() + cut[i + 1])); }); };
    auto ss = mk(); SAME(vals(d::to_sequence(d::flatten(ss))), v); { auto f = d::flatten(mk()); auto g = f; SAME(vals(d::to_sequence(f)), v); f = std::move(g); SAME(vals(d::to_sequence(f)), v); }
  });
  V ex(n), in(n); int64_t tot = 0; for (size_t i = 0; i < n; i++) { ex[i] = tot; tot += v[i]; in[i] = tot; }
  OP("delayed scan") { auto s = make<T>(v); auto [x, t] = d::scan(s, SumMonoid<T>{}, T(0)); SAME(vals(d::to_sequence(x)), ex); SAME(V{t.get()}, V{tot}); });
  OP("delayed scan_inclusive") { auto s = make<T>(v); auto x = d::scan_inclusive(s, SumMonoid<T>{}, T(0)); SAME(vals(d::to_sequence(x)), in); });
  OP("delayed reduce") { auto s = make<T>(v); SAME(V{d::reduce(d::map(s, [](const T& x) { return T(x.get()); }), SumMonoid<T>{}, T(0)).get()}, V{tot}); });
  OP("delayed zip") { auto s = make<T>(v), t = make<T>(v); auto z = d::map(d::zip(s, t), [](auto&& p) { return T(std::get<0>(p).get() + std::get<1>(p).get()); }); V w = v; for (auto& a : w) a *= 2; SAME(vals(d::to_sequence(z)), w); });
  OP("delayed for_each and move_out") { auto s = make<T>(v); auto x = d::map(s, [](T& y) { return T(std::move(y)); }); SAME(vals(d::to_sequence(x)), v); });
}

template <class T> V mk(Rng& r, size_t n, uint64_t& nk) { nk = pick_nkeys(r, n); return gen(r, n, nk); }
template <class F> void over(Rng& rng, size_t reps, size_t c, F&& f) {
  for (size_t k = 0; k < rounds(reps); k++) for (size_t n : sizes(rng, c)) { uint64_t nk; V v = mk<int>(rng, n, nk); f(v, nk); }
  event("kinds_of_operation", names().size()); event("uses_checked", LifeMon::get().uses.exchange(0));
  sample("%zu kinds of operation, %llu executed, %llu objects constructed, %llu destroyed", names().size(), static_cast<unsigned long long>(n_ops), static_cast<unsigned long long>(LifeMon::get().ctor), static_cast<unsigned long long>(LifeMon::get().dtor));
}
}  // namespace

#if VF_PART == 1
CASE("copying sorts of tracked objects") { over(rng, 1, cap(), [&](const V& v, uint64_t nk) { copy_sorts<TrackedCopy>(v, nk, rng); }); }
CASE("copying sorts of relocatable owners") { over(rng, 1, cap(), [&](const V& v, uint64_t nk) { copy_sorts<OwnerCopy>(v, nk, rng); }); }
CASE("copying sorts of big objects") { over(rng, 1, cap() / 4, [&](const V& v, uint64_t nk) { copy_sorts<TrackedBig>(v, nk, rng); }); }
#elif VF_PART == 2
CASE("in-place sorts of tracked objects") { over(rng, 1, cap(), [&](const V& v, uint64_t nk) { move_sorts<TrackedMove>(v, nk); }); }
CASE("in-place sorts of relocatable owners") { over(rng, 1, cap(), [&](const V& v, uint64_t nk) { move_sorts<OwnerMove>(v, nk); }); }
CASE("in-place sorts of big objects") { over(rng, 1, cap() / 4, [&](const V& v, uint64_t nk) { move_sorts<TrackedBig>(v, nk); }); }
#elif VF_PART == 3
CASE("maps of tracked objects") { over(rng, 2, cap(), [&](const V& v, uint64_t) { copy_maps<TrackedCopy>(v, rng); }); }
CASE("maps of relocatable owners") { over(rng, 2, cap(), [&](const V& v, uint64_t) { copy_maps<OwnerCopy>(v, rng); }); }
CASE("maps of big objects") { over(rng, 1, cap() / 4, [&](const V& v, uint64_t) { copy_maps<TrackedBig>(v, rng); }); }
#elif VF_PART == 4
CASE("maps of move-only tracked objects") { over(rng, 2, cap(), [&](const V& v, uint64_t) { move_maps<TrackedMove>(v, rng); }); }
CASE("maps of move-only owners") { over(rng, 2, cap(), [&](const V& v, uint64_t) { move_maps<OwnerMove>(v, rng); }); }
CASE("relocation of tracked objects") { over(rng, 1, cap(), [&](const V& v, uint64_t) { relocations<TrackedMove>(v); relocations<TrackedBig>(v); }); }
CASE("relocation of owners") { over(rng, 1, cap(), [&](const V& v, uint64_t) { relocations<OwnerMove>(v); relocations<OwnerCopy>(v); }); }
#elif VF_PART == 5
CASE("groups of tracked objects") { over(rng, 1, cap(), [&](const V& v, uint64_t nk) { groups<TrackedCopy>(v, nk); }); }
CASE("groups of relocatable owners") { over(rng, 1, cap(), [&](const V& v, uint64_t nk) { groups<OwnerCopy>(v, nk); }); }
#elif VF_PART == 6
CASE("delayed ranges of tracked objects") { over(rng, 2, cap(), [&](const V& v, uint64_t) { delayed_ops<TrackedCopy>(v, rng); }); }
CASE("delayed ranges of owners") { over(rng, 2, cap(), [&](const V& v, uint64_t) { delayed_ops<OwnerCopy>(v, rng); }); }
#endif
