// P14: reduce and scan against the sequential left-to-right fold; laws of the predefined monoids.
#include "gen.h"
#include <deque>
#include <limits>
#include <parlay/primitives.h>
using namespace vf;

namespace {
size_t redn(Rng& r) {
  switch (r.below(7)) {
    case 0: return r.below(6);
    case 1: return 1024 * (1 + r.below(4)) + r.below(3) - 1;
    case 2: { size_t s = 256 * (1 + r.below(8)); return std::min<size_t>(maxn(300000, 1500000), s * s + r.below(3) - 1); }   // around the change of reduce's block size
    default: return pick_size(r, maxn(120000, 1000000));
  }
}
// the sequential results, each application of the monoid done here in order
template <class T> struct Fold { T total; std::vector<T> excl, incl; };
template <class V, class M, class T> Fold<T> fold(const V& v, const M& m, const T& id) {
  Fold<T> f{id, {}, {}}; f.excl.reserve(v.size()); f.incl.reserve(v.size());
  T r = id;
  for (size_t i = 0; i < v.size(); i++) { f.excl.push_back(r); r = m(T(r), v[i]); f.incl.push_back(r); }
  f.total = r; return f;
}
// any range kind: forms that do not modify
template <class R, class M, class T> void copying(R&& r, M m, const Fold<T>& f, const char* what, size_t n) {
  auto red = parlay::reduce(r, m);
  VF_CHECK(red == f.total, std::string("red:reduce:") + what, "reduce of %zu elements is not the left-to-right combination", n);
  auto [s, tot] = parlay::scan(r, m);
  VF_SAME(s, f.excl, std::string("red:scan:") + what, "exclusive scan, n=%zu", n);
  VF_CHECK(tot == f.total, std::string("red:scan-total:") + what, "total of exclusive scan, n=%zu", n);
  auto si = parlay::scan_inclusive(r, m);
  VF_SAME(si, f.incl, std::string("red:scan_inclusive:") + what, "inclusive scan, n=%zu", n);
  event("reductions"); event("scans", 2);
}
// in place, on a range between guard zones
template <class V, class M, class T> void inplace(Rng& rng, const V& v, M m, const Fold<T>& f, const T& guard, const char* what) {
  for (int incl = 0; incl < 2; incl++) {
    size_t lo = rng.below(4), hi = rng.below(4), n = v.size();
    std::vector<T> b; b.reserve(lo + n + hi);
    for (size_t i = 0; i < lo; i++) b.push_back(guard);
    for (size_t i = 0; i < n; i++) b.push_back(T(v[i]));
    for (size_t i = 0; i < hi; i++) b.push_back(guard);
    auto sl = parlay::make_slice(b.begin() + static_cast<long>(lo), b.begin() + static_cast<long>(lo + n));
    auto tot = incl ? parlay::scan_inclusive_inplace(sl, m) : parlay::scan_inplace(sl, m);
    VF_CHECK(tot == f.total, std::string("red:inplace-total:") + what, "total of in-place scan (inclusive %d), n=%zu", incl, n);
    VF_SAME(sl, incl ? f.incl : f.excl, std::string("red:inplace:") + what, "in-place scan (inclusive %d), n=%zu", incl, n);
    for (size_t i = 0; i < lo; i++) VF_CHECK(b[i] == guard, "red:guard", "in-place scan wrote before its range");
    for (size_t i = 0; i < hi; i++) VF_CHECK(b[lo + n + i] == guard, "red:guard", "in-place scan wrote past its range");
  }
  event("inplace_scans", 2);
}
// all forms for one monoid over one set of values; kind selects the range
template <class T, class M, bool AllKinds = true> void run_monoid(Rng& rng, size_t q, const char* what, M m, const T& guard, const std::function<T(Rng&)>& g, size_t cap = ~size_t{0}) {
  for (size_t k = 0, R = rounds(q); k < R; k++) {
    size_t n = std::min(redn(rng), cap);
    std::vector<T> v; v.reserve(n); for (size_t i = 0; i < n; i++) v.push_back(g(rng));
    const auto f = fold(v, m, m.identity);
    const std::vector<T> orig = v;
    int kind = static_cast<int>(rng.below(AllKinds ? 6 : 2));
    if (kind == 0) { const parlay::sequence<T> s(v.begin(), v.end()); copying(s, m, f, what, n); }
    else if (kind == 1) { copying(v, m, f, what, n); VF_SAME(v, orig, "red:input-changed", "n=%zu", n); }
    else if constexpr (AllKinds) {
      if (kind == 2) { std::deque<T> d(v.begin(), v.end()); copying(d, m, f, what, n); VF_SAME(d, orig, "red:input-changed", "n=%zu", n); }
      else if (kind == 3) { auto d = parlay::delayed_tabulate(n, [&](size_t i) -> T { return orig[i]; }); copying(d, m, f, what, n); }
      else if (kind == 4) { std::vector<T> b(n + 7, guard); size_t o = rng.below(8); for (size_t i = 0; i < n; i++) b[o + i] = v[i]; copying(parlay::make_slice(b).cut(o, o + n), m, f, what, n); }
      else { parlay::sequence<T> s(v.begin(), v.end()); copying(std::move(s), m, f, what, n); }
    }
    inplace(rng, v, m, f, guard, what);
    if (rng.chance(1, 3)) {   // a temporary sequence may be scanned in place
      parlay::sequence<T> s(v.begin(), v.end());
      auto [o, t] = parlay::internal::scan(std::move(s), m);
      VF_SAME(o, f.excl, std::string("red:scan-rvalue:") + what, "scan of a temporary, n=%zu", n);
      VF_CHECK(t == f.total, std::string("red:scan-rvalue-total:") + what, "total of a scan of a temporary, n=%zu", n);
    }
    eval(H(hash_str(what), n, kind, k), n > 1);
  }
  sample("%s", what);
}

constexpr uint64_t P = 1000000007;
struct Mat { uint64_t a = 1, b = 0, c = 0, d = 1; friend bool operator==(const Mat& x, const Mat& y) { return x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d; } };
struct MatMul { Mat operator()(const Mat& x, const Mat& y) const { return Mat{(x.a * y.a + x.b * y.c) % P, (x.a * y.b + x.b * y.d) % P, (x.c * y.a + x.d * y.c) % P, (x.c * y.b + x.d * y.d) % P}; } };
Mat rmat(Rng& r) { return Mat{r.below(P), r.below(P), r.below(P), r.below(P)}; }
struct Aff { uint64_t m = 1, c = 0; friend bool operator==(const Aff& x, const Aff& y) { return x.m == y.m && x.c == y.c; } };
[[maybe_unused]] Aff compose(Aff x, Aff y) { return Aff{x.m * y.m % P, (x.c * y.m + y.c) % P}; }
// the free monoid truncated: first letter, last letter, length, polynomial hash: any wrong order or multiplicity shows
struct Word { uint32_t first = 0, last = 0; uint64_t len = 0, hash = 0, pow = 1; friend bool operator==(const Word& x, const Word& y) { return x.first == y.first && x.last == y.last && x.len == y.len && x.hash == y.hash && x.pow == y.pow; } };
struct Cat { Word operator()(Word x, Word y) const { if (!x.len) return y; if (!y.len) return x; return Word{x.first, y.last, x.len + y.len, x.hash * y.pow + y.hash, x.pow * y.pow}; } };
Word rword(Rng& r) { if (r.chance(1, 10)) return Word{}; uint32_t l = 1 + static_cast<uint32_t>(r.below(1000)); return Word{l, l, 1, mix(l), 0x9e3779b97f4a7c15ull}; }
// maximal run of equal letters at the ends and the best run: a typical divide-and-conquer monoid
struct Run { uint32_t lc = 0, rc = 0; uint64_t ln = 0, rn = 0, best = 0, len = 0; friend bool operator==(const Run& x, const Run& y) { return x.lc == y.lc && x.rc == y.rc && x.ln == y.ln && x.rn == y.rn && x.best == y.best && x.len == y.len; } };
struct RunCat { Run operator()(const Run& x, const Run& y) const {
  if (!x.len) return y; if (!y.len) return x;
  Run z; z.lc = x.lc; z.rc = y.rc; z.len = x.len + y.len; z.ln = x.ln; z.rn = y.rn; z.best = std::max(x.best, y.best);
  if (x.rc == y.lc) { z.best = std::max(z.best, x.rn + y.ln); if (x.ln == x.len) z.ln = x.len + y.ln; if (y.rn == y.len) z.rn = y.len + x.rn; }
  return z; } };
// a heap-owning value that is unusable once moved from
struct Str { std::string s; Str() = default; Str(std::string x) : s(std::move(x)) {} friend bool operator==(const Str& a, const Str& b) { return a.s == b.s; } };   // NOLINT
struct StrCat { Str operator()(const Str& a, const Str& b) const { return Str(a.s + b.s); } };
}  // namespace

#if VF_PART == 0 || VF_PART == 1
CASE("matrix product") { run_monoid<Mat>(rng, 60, "mat", parlay::binary_op(MatMul{}, Mat{}), Mat{7, 7, 7, 7}, rmat); }
CASE("affine maps by function pointer") { run_monoid<Aff, parlay::monoid<Aff (*)(Aff, Aff), Aff>, false>(rng, 40, "affine", parlay::binary_op(&compose, Aff{}), Aff{3, 4}, [](Rng& r) { return Aff{r.below(P), r.below(P)}; }); }
CASE("words") { run_monoid<Word>(rng, 60, "word", parlay::binary_op(Cat{}, Word{}), Word{9, 9, 9, 9, 9}, rword); }
#endif
#if VF_PART == 0 || VF_PART == 2
CASE("runs of letters") { run_monoid<Run>(rng, 40, "run", parlay::binary_op(RunCat{}, Run{}), Run{1, 2, 3, 4, 5, 6}, [](Rng& r) { uint32_t c = r.chance(9, 10) ? 1 : static_cast<uint32_t>(r.below(3)); return Run{c, c, 1, 1, 1, 1}; }); }
CASE("string concatenation") { run_monoid<Str>(rng, 30, "str", parlay::binary_op(StrCat{}, Str{}), Str{"guard"}, [](Rng& r) { return Str(r.chance(1, 2) ? std::string(1, static_cast<char>('a' + r.below(26))) : std::string()); }, 3000); }
CASE("lambda with state") { uint64_t mod = P; auto f = [&mod](uint64_t a, uint64_t b) { return a * b % mod; }; run_monoid<uint64_t, decltype(parlay::binary_op(f, uint64_t{1}))>(rng, 40, "mulmod", parlay::binary_op(f, uint64_t{1}), 5, [](Rng& r) { return 1 + r.below(P - 1); }); }
CASE("first and last") {
  // left-zero band with an adjoined identity: reduce gives the first element, any commutation shows
  auto f = [](int64_t a, int64_t b) { return a == -1 ? b : a; };
  run_monoid<int64_t, decltype(parlay::binary_op(f, int64_t{-1})), false>(rng, 30, "first", parlay::binary_op(f, int64_t{-1}), -9, [](Rng& r) { return static_cast<int64_t>(r.chance(1, 50) ? r.below(1000) : ~uint64_t{0}); });
  auto g = [](int64_t a, int64_t b) { return b == -1 ? a : b; };
  run_monoid<int64_t, decltype(parlay::binary_op(g, int64_t{-1})), false>(rng, 30, "last", parlay::binary_op(g, int64_t{-1}), -9, [](Rng& r) { return static_cast<int64_t>(r.chance(1, 50) ? r.below(1000) : ~uint64_t{0}); });
}
CASE("tracked values") {
  auto f = [](const TrackedCopy& a, const TrackedCopy& b) { return TrackedCopy(std::max(a.get(), b.get())); };
  for (size_t k = 0, R = rounds(10); k < R; k++) {
    size_t n = redn(rng) % 9000; {
      parlay::sequence<TrackedCopy> s; std::vector<int64_t> v(n), e(n);
      int64_t run = -1; for (size_t i = 0; i < n; i++) { v[i] = static_cast<int64_t>(rng.below(1000000)); e[i] = run; run = std::max(run, v[i]); }
      s = parlay::tabulate(n, [&](size_t i) { return TrackedCopy(v[i]); });
      auto m = parlay::binary_op(f, TrackedCopy(-1));
      VF_CHECK(parlay::reduce(s, m).get() == run, "red:tracked", "reduce of tracked values, n=%zu", n);
      auto [o, t] = parlay::scan(s, m); VF_CHECK(t.get() == run, "red:tracked", "scan total, n=%zu", n);
      for (size_t i = 0; i < n; i++) if (o[i].get() != e[i]) { fail("red:tracked", "scan element %zu of %zu", i, n); break; }
      auto tt = parlay::scan_inclusive_inplace(s, m); VF_CHECK(tt.get() == run, "red:tracked", "in-place total, n=%zu", n);
      for (size_t i = 0; i < n; i++) if (s[i].get() != std::max(e[i], v[i])) { fail("red:tracked", "in-place element %zu of %zu", i, n); break; }
      for (size_t i = 0; i < n; i++) (void)o[i].get();
    }
    LifeMon::get().expect_none("reduce and scan of tracked values");
    eval(H(n, k), n > 1);
  }
}
CASE("accumulation that moves") {
  for (size_t k = 0, R = rounds(6); k < R; k++) {
    size_t n = redn(rng) % 6000;
    auto s = parlay::tabulate(n, [&](size_t i) { return std::vector<uint32_t>{static_cast<uint32_t>(mix(i + k) % 1000)}; });
    auto cat = [](std::vector<uint32_t> a, const std::vector<uint32_t>& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
    auto r = parlay::reduce(s, parlay::binary_op(cat, std::vector<uint32_t>{}));
    bool ok = r.size() == n; for (size_t i = 0; ok && i < n; i++) ok = r[i] == mix(i + k) % 1000;
    VF_CHECK(ok, "red:vectors", "concatenation by reduce, n=%zu", n);
    for (size_t i = 0; i < n; i++) if (s[i].size() != 1) { fail("red:input-changed", "reduce moved out of its input, n=%zu", n); break; }
    eval(H(n, k, 7), n > 1);
  }
}
#endif

#if VF_PART == 0 || VF_PART == 3
namespace {
template <class T> T extreme(Rng& r) {
  using L = std::numeric_limits<T>;
  if constexpr (std::is_same_v<T, bool>) return r.chance(1, 2);
  else {
    switch (r.below(7)) {
      case 0: return L::lowest();
      case 1: return (L::max)();
      case 2: return static_cast<T>(0);
      case 3: return static_cast<T>(1);
      case 4: if constexpr (L::has_infinity) return r.chance(1, 2) ? L::infinity() : -L::infinity(); else return static_cast<T>(L::lowest() + 1);
      case 5: if constexpr (L::has_infinity) return (L::min)(); else return static_cast<T>((L::max)() - 1);
      default: return static_cast<T>(r.next() % 100);
    }
  }
}
// identity and associativity on values of the type (conversion to the monoid's type after each application)
template <class T, class M> void laws(Rng& r, const M& m, const char* what, const std::function<T(Rng&)>& g, const std::function<bool(const T&, const T&)>& eq) {
  for (size_t k = 0; k < 300; k++) {
    T a = g(r), b = g(r), c = g(r), id = m.identity;
    VF_CHECK(eq(T(m(T(id), a)), a), std::string("red:law-left-identity:") + what, "identity combined with a value changes it");
    VF_CHECK(eq(T(m(a, T(id))), a), std::string("red:law-right-identity:") + what, "a value combined with the identity changes it");
    VF_CHECK(eq(T(m(T(m(a, b)), c)), T(m(a, T(m(b, c))))), std::string("red:law-associative:") + what, "not associative");
    eval(H(hash_str(what), k), true);
  }
  event("laws", 900);
}
template <class T> const char* tn() { return std::is_same_v<T, bool> ? "bool" : std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : std::is_same_v<T, long double> ? "long double" : std::is_signed_v<T> ? (sizeof(T) == 1 ? "i8" : sizeof(T) == 2 ? "i16" : sizeof(T) == 4 ? "i32" : "i64") : (sizeof(T) == 1 ? "u8" : sizeof(T) == 2 ? "u16" : sizeof(T) == 4 ? "u32" : "u64"); }
template <class T> bool eqv(const T& a, const T& b) { return a == b; }
template <class T> bool truth(const T& a, const T& b) { return static_cast<bool>(a) == static_cast<bool>(b); }
// reduce and scan equal the fold of the monoid's own operation, and the empty range gives the identity
template <class T, class M> void use(Rng& rng, const M& m, const std::string& what, const std::function<T(Rng&)>& g) {
  for (size_t k = 0; k < 2; k++) {
    size_t n = k ? 2000 + rng.below(4000) : rng.below(5);
    parlay::sequence<T> v(n); for (auto& x : v) x = g(rng);
    T id = m.identity; auto f = fold(v, [&](T a, T b) { return static_cast<T>(m(a, b)); }, id);
    VF_CHECK(static_cast<T>(parlay::reduce(v, m)) == (n == 1 ? v[0] : f.total), "red:predefined:" + what, "reduce of %zu values", n);
    auto [s, t] = parlay::scan(v, m); VF_SAME(s, f.excl, "red:predefined-scan:" + what, "scan of %zu values", n); VF_CHECK(t == f.total, "red:predefined-total:" + what, "scan total of %zu values", n);
    auto si = parlay::scan_inclusive(v, m); VF_SAME(si, f.incl, "red:predefined-incl:" + what, "inclusive scan of %zu values", n);
    parlay::sequence<T> e; VF_CHECK(static_cast<T>(parlay::reduce(e, m)) == id, "red:predefined-empty:" + what, "reduce of an empty range is not the identity");
    VF_CHECK(parlay::scan(e, m).second == id, "red:predefined-empty:" + what, "total of the scan of an empty range is not the identity");
    auto p = v; auto tt = parlay::scan_inplace(p, m); VF_SAME(p, f.excl, "red:predefined-inplace:" + what, "in-place scan of %zu values", n); VF_CHECK(tt == f.total, "red:predefined-inplace:" + what, "total");
  }
}
template <class T> void order_monoids(Rng& r) {
  std::string t = tn<T>(); std::function<T(Rng&)> g = extreme<T>;
  laws<T>(r, parlay::maximum<T>{}, ("maximum " + t).c_str(), g, eqv<T>); laws<T>(r, parlay::minimum<T>{}, ("minimum " + t).c_str(), g, eqv<T>);
  auto mx = parlay::maxm<T>{}; auto mn = parlay::minm<T>{};
  laws<T>(r, parlay::legacy_monoid_adapter(mx), ("maxm " + t).c_str(), g, eqv<T>); laws<T>(r, parlay::legacy_monoid_adapter(mn), ("minm " + t).c_str(), g, eqv<T>);
  use<T>(r, parlay::maximum<T>{}, "maximum " + t, g); use<T>(r, parlay::minimum<T>{}, "minimum " + t, g);
}
template <class T> void bit_monoids(Rng& r) {
  std::string t = tn<T>(); std::function<T(Rng&)> g = [](Rng& x) { return static_cast<T>(x.chance(1, 3) ? extreme<T>(x) : static_cast<T>(x.next())); };
  laws<T>(r, parlay::bit_or<T>{}, ("bit_or " + t).c_str(), g, eqv<T>); laws<T>(r, parlay::bit_and<T>{}, ("bit_and " + t).c_str(), g, eqv<T>); laws<T>(r, parlay::bit_xor<T>{}, ("bit_xor " + t).c_str(), g, eqv<T>);
  use<T>(r, parlay::bit_xor<T>{}, "bit_xor " + t, g); use<T>(r, parlay::bit_and<T>{}, "bit_and " + t, g); use<T>(r, parlay::bit_or<T>{}, "bit_or " + t, g);
}
template <class T> void unsigned_monoids(Rng& r) {
  std::string t = tn<T>(); std::function<T(Rng&)> g = [](Rng& x) { return x.chance(1, 3) ? extreme<T>(x) : static_cast<T>(x.next()); };
  // unsigned arithmetic wraps; uint16 products are computed in int, so keep their factors small
  std::function<T(Rng&)> gm = [](Rng& x) { return static_cast<T>(sizeof(T) == 2 ? x.below(4096) : x.next()); };
  laws<T>(r, parlay::plus<T>{}, ("plus " + t).c_str(), g, eqv<T>); if (sizeof(T) != 2) laws<T>(r, parlay::multiplies<T>{}, ("multiplies " + t).c_str(), gm, eqv<T>);
  use<T>(r, parlay::plus<T>{}, "plus " + t, g); if (sizeof(T) != 2) use<T>(r, parlay::multiplies<T>{}, "multiplies " + t, gm);
}
template <class T> void logic_monoids(Rng& r) {
  std::string t = tn<T>(); std::function<T(Rng&)> g = extreme<T>; std::function<T(Rng&)> b = [](Rng& x) { return static_cast<T>(x.chance(1, 20) ? 0 : 1); };
  laws<T>(r, parlay::logical_and<T>{}, ("logical_and " + t).c_str(), g, truth<T>); laws<T>(r, parlay::logical_or<T>{}, ("logical_or " + t).c_str(), g, truth<T>);
  use<T>(r, parlay::logical_and<T>{}, "logical_and " + t, b); use<T>(r, parlay::logical_or<T>{}, "logical_or " + t, b);
}
}  // namespace
CASE("order monoids over integers") { order_monoids<int8_t>(rng); order_monoids<uint8_t>(rng); order_monoids<int16_t>(rng); order_monoids<int32_t>(rng); order_monoids<int64_t>(rng); order_monoids<uint64_t>(rng); order_monoids<bool>(rng); }
CASE("order monoids over reals") { order_monoids<float>(rng); order_monoids<double>(rng); order_monoids<long double>(rng); }
#endif
#if VF_PART == 0 || VF_PART == 4
#if VF_PART != 0
namespace {
template <class T> T extreme(Rng& r) { using L = std::numeric_limits<T>; switch (r.below(5)) { case 0: return L::lowest(); case 1: return (L::max)(); case 2: return 0; case 3: if constexpr (L::has_infinity) return r.chance(1, 2) ? L::infinity() : -L::infinity(); else return static_cast<T>(1); default: return static_cast<T>(r.below(100)); } }
template <class T, class M> void laws(Rng& r, const M& m, const char* what, const std::function<T(Rng&)>& g, const std::function<bool(const T&, const T&)>& eq) {
  for (size_t k = 0; k < 300; k++) {
    T a = g(r), b = g(r), c = g(r), id = m.identity;
    VF_CHECK(eq(T(m(T(id), a)), a), std::string("red:law-left-identity:") + what, "identity combined with a value changes it");
    VF_CHECK(eq(T(m(a, T(id))), a), std::string("red:law-right-identity:") + what, "a value combined with the identity changes it");
    VF_CHECK(eq(T(m(T(m(a, b)), c)), T(m(a, T(m(b, c))))), std::string("red:law-associative:") + what, "not associative");
    eval(H(hash_str(what), k), true);
  }
  event("laws", 900);
}
template <class T> bool eqv(const T& a, const T& b) { return a == b; }
}  // namespace
#endif
namespace {
// legacy monoids through every entry point
template <class T, class L> void legacy(Rng& rng, L m, const char* what, const std::function<T(Rng&)>& g) {
  for (size_t k = 0, R = rounds(4); k < R; k++) {
    size_t n = redn(rng); std::vector<T> v(n); for (auto& x : v) x = g(rng);
    auto f = fold(v, [&](const T& a, const T& b) { return m.f(a, b); }, m.identity);
    VF_CHECK(parlay::reduce(v, m) == f.total, std::string("red:legacy:") + what, "reduce, n=%zu", n);
    auto [s, t] = parlay::scan(v, m); VF_SAME(s, f.excl, std::string("red:legacy-scan:") + what, "scan, n=%zu", n); VF_CHECK(t == f.total, std::string("red:legacy-total:") + what, "total, n=%zu", n);
    VF_SAME(parlay::scan_inclusive(v, m), f.incl, std::string("red:legacy-incl:") + what, "inclusive scan, n=%zu", n);
    auto a = v; auto ta = parlay::scan_inplace(a, m); VF_SAME(a, f.excl, std::string("red:legacy-inplace:") + what, "in-place scan, n=%zu", n); VF_CHECK(ta == f.total, std::string("red:legacy-inplace:") + what, "total, n=%zu", n);
    auto b = v; auto tb = parlay::scan_inclusive_inplace(b, m); VF_SAME(b, f.incl, std::string("red:legacy-inclinplace:") + what, "in-place inclusive scan, n=%zu", n); VF_CHECK(tb == f.total, std::string("red:legacy-inclinplace:") + what, "total, n=%zu", n);
    eval(H(hash_str(what), n, k), n > 1);
  }
  event("legacy_monoids"); sample("%s", what);
}
}  // namespace
CASE("legacy monoids") {
  using PI = std::pair<int, float>;
  std::function<int64_t(Rng&)> gi = [](Rng& r) { return r.range(-1000000, 1000000); };
  legacy<int64_t>(rng, parlay::addm<int64_t>{}, "addm", gi); legacy<int64_t>(rng, parlay::maxm<int64_t>{}, "maxm", gi); legacy<int64_t>(rng, parlay::minm<int64_t>{}, "minm", gi); legacy<int64_t>(rng, parlay::xorm<int64_t>{}, "xorm", gi);
  std::function<PI(Rng&)> gp = [](Rng& r) { return PI(extreme<int>(r), extreme<float>(r)); };
  legacy<PI>(rng, parlay::maxm<PI>{}, "maxm pair", gp); legacy<PI>(rng, parlay::minm<PI>{}, "minm pair", gp);
  laws<PI>(rng, parlay::legacy_monoid_adapter(parlay::maxm<PI>{}), "maxm pair", gp, eqv<PI>); laws<PI>(rng, parlay::legacy_monoid_adapter(parlay::minm<PI>{}), "minm pair", gp, eqv<PI>);
  using PD = std::pair<double, double>; std::function<PD(Rng&)> gd = [](Rng& r) { return PD(extreme<double>(r), extreme<double>(r)); };
  legacy<PD>(rng, parlay::minmaxm<double>{}, "minmaxm", gd); laws<PD>(rng, parlay::legacy_monoid_adapter(parlay::minmaxm<double>{}), "minmaxm", gd, eqv<PD>);
  using PL = std::pair<int64_t, int64_t>; std::function<PL(Rng&)> gl = [](Rng& r) { return PL(r.range(-1000, 1000), r.range(-1000, 1000)); };
  auto pm = parlay::pair_monoid(parlay::addm<int64_t>{}, parlay::maxm<int64_t>{});
  for (size_t k = 0, R = rounds(6); k < R; k++) {
    size_t n = redn(rng); std::vector<PL> v(n); for (auto& x : v) x = gl(rng);
    auto f = fold(v, pm, pm.identity); VF_CHECK(parlay::reduce(v, pm) == f.total, "red:pair_monoid", "reduce, n=%zu", n);
    int64_t s = 0, mx = std::numeric_limits<int64_t>::lowest(); for (auto& x : v) { s += x.first; mx = std::max(mx, x.second); }
    VF_CHECK(f.total == PL(s, mx), "red:pair_monoid", "combination is not componentwise, n=%zu", n);
    auto [sc, t] = parlay::scan(v, pm); VF_SAME(sc, f.excl, "red:pair_monoid", "scan, n=%zu", n); VF_CHECK(t == f.total, "red:pair_monoid", "total, n=%zu", n);
    using A3 = std::array<int64_t, 3>; std::vector<A3> w(n); for (auto& x : w) x = {rng.range(-9, 9), rng.range(-9, 9), rng.range(-9, 9)};
    auto am = parlay::array_monoid<parlay::addm<int64_t>, 3>(parlay::addm<int64_t>{}); A3 e{}; for (auto& x : w) for (size_t j = 0; j < 3; j++) e[j] += x[j];
    VF_CHECK(parlay::reduce(w, am) == e, "red:array_monoid", "reduce, n=%zu", n);
    auto ai = parlay::scan_inclusive(w, am); VF_CHECK(n == 0 || ai[n - 1] == e, "red:array_monoid", "scan, n=%zu", n);
    eval(H(n, k, 3), n > 1);
  }
}
CASE("default sums and mixed types") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    size_t n = redn(rng); std::vector<int> v(n); int64_t sum = 0, wide = 0; std::vector<int> ex(n), in(n);
    for (size_t i = 0; i < n; i++) { v[i] = static_cast<int>(rng.range(-1000, 1000)); ex[i] = static_cast<int>(sum); sum += v[i]; in[i] = static_cast<int>(sum); }
    VF_CHECK(parlay::reduce(v) == static_cast<int>(sum), "red:default-reduce", "n=%zu", n);
    auto [s, t] = parlay::scan(v); VF_SAME(s, ex, "red:default-scan", "n=%zu", n); VF_CHECK(t == static_cast<int>(sum), "red:default-scan", "total, n=%zu", n);
    VF_SAME(parlay::scan_inclusive(v), in, "red:default-incl", "n=%zu", n);
    auto a = v; VF_CHECK(parlay::scan_inplace(a) == static_cast<int>(sum), "red:default-inplace", "total, n=%zu", n); VF_SAME(a, ex, "red:default-inplace", "n=%zu", n);
    auto b = v; VF_CHECK(parlay::scan_inclusive_inplace(b) == static_cast<int>(sum), "red:default-inclinplace", "total, n=%zu", n); VF_SAME(b, in, "red:default-inclinplace", "n=%zu", n);
    // narrow elements, wide accumulator
    std::vector<int> w(n); std::vector<int64_t> we(n); for (size_t i = 0; i < n; i++) { w[i] = static_cast<int>(rng.below(0x7fffffff)); we[i] = wide; wide += w[i]; }
    VF_CHECK(parlay::reduce(w, parlay::plus<int64_t>()) == wide, "red:wide", "sum of ints in a 64-bit monoid, n=%zu", n);
    auto [ws, wt] = parlay::scan(w, parlay::plus<int64_t>()); static_assert(std::is_same_v<std::decay_t<decltype(ws[0])>, int64_t>); VF_SAME(ws, we, "red:wide", "scan, n=%zu", n); VF_CHECK(wt == wide, "red:wide", "total, n=%zu", n);
    // counting with booleans
    std::vector<unsigned char> fl(n); size_t c = 0; for (auto& x : fl) { x = rng.chance(1, 3); c += x; }
    VF_CHECK(parlay::reduce(parlay::delayed_map(fl, [](unsigned char x) { return static_cast<bool>(x); }), parlay::plus<size_t>()) == c, "red:bools", "n=%zu", n);
    VF_CHECK(parlay::reduce(parlay::iota<size_t>(n)) == (n ? n * (n - 1) / 2 : 0), "red:iota", "n=%zu", n);
    const auto cm = parlay::plus<int>(); VF_CHECK(parlay::reduce(v, cm) == static_cast<int>(sum), "red:const-monoid", "n=%zu", n);
    // a monoid whose explicit identity is the neutral element of a bounded subset
    VF_CHECK(parlay::reduce(w, parlay::maximum<int>(-1)) == (n ? *std::max_element(w.begin(), w.end()) : -1), "red:explicit-identity", "n=%zu", n);
    auto [mxs, mxt] = parlay::scan(w, parlay::maximum<int>(-1)); int run = -1; for (size_t i = 0; i < n; i++) { if (mxs[i] != run) { fail("red:explicit-identity", "scan element %zu of %zu", i, n); break; } run = std::max(run, w[i]); } VF_CHECK(mxt == run, "red:explicit-identity", "total, n=%zu", n);
    eval(H(n, k), n > 1); event("default_sums");
  }
}
CASE("order monoids over pairs and nested calls") {
  // a reduction inside a parallel loop inside a reduction
  for (size_t k = 0, R = rounds(4); k < R; k++) {
    size_t rows = 1 + rng.below(40), cols = redn(rng) % 5000; std::vector<std::vector<uint64_t>> m(rows, std::vector<uint64_t>(cols)); uint64_t e = 0;
    for (auto& r : m) { uint64_t mx = 0; for (auto& x : r) { x = rng.below(1000000); mx = std::max(mx, x); } e += mx; }
    auto d = parlay::delayed_tabulate(rows, [&](size_t i) -> uint64_t { return parlay::reduce(m[i], parlay::maximum<uint64_t>()); });
    VF_CHECK(parlay::reduce(d) == e, "red:nested", "%zu x %zu", rows, cols);
    auto t = parlay::map(m, [&](const auto& r) { return parlay::scan(r).second; }); for (size_t i = 0; i < rows; i++) { uint64_t s = 0; for (auto x : m[i]) s += x; if (t[i] != s) fail("red:nested-scan", "row %zu of %zu x %zu", i, rows, cols); }
    eval(H(rows, cols, k), true);
  }
}
#endif
#if VF_PART == 0 || VF_PART == 3
CASE("arithmetic, bit and logical monoids") {
  unsigned_monoids<uint8_t>(rng); unsigned_monoids<uint16_t>(rng); unsigned_monoids<uint32_t>(rng); unsigned_monoids<uint64_t>(rng);
  bit_monoids<uint8_t>(rng); bit_monoids<int32_t>(rng); bit_monoids<uint64_t>(rng); logic_monoids<bool>(rng); logic_monoids<int>(rng);
}
#endif
