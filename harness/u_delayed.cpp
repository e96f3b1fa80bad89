// P18: delayed ranges against eager models.
// Part 1: random programs (trees of delayed operations over type-erased ranges, every
// intermediate range copied, moved, assigned, swapped or returned before it is used).
// Parts 2..: concrete compositions, references, element types, the delayed_sequence class.
#include "gen.h"
#include <deque>
#include <parlay/primitives.h>
#include <parlay/delayed.h>
using namespace vf;
namespace d = parlay::delayed;
using u64 = uint64_t;

namespace {
struct Aff { u64 a = 1, b = 0; friend bool operator==(const Aff& x, const Aff& y) { return x.a == y.a && x.b == y.b; } };
// composition of x -> a x + b (associative, not commutative)
inline Aff then(Aff x, Aff y) { return {x.a * y.a, x.b * y.a + y.b}; }
inline Aff aff(u64 x) { return {x | 1, x * 7 + 3}; }

template <class R> std::vector<parlay::range_value_type_t<R>> iterate(R&& r, size_t limit) {
  std::vector<parlay::range_value_type_t<R>> out;
  auto e = std::end(r);
  for (auto it = std::begin(r); it != e; ++it) { out.push_back(*it); if (out.size() > limit) break; }
  return out;
}
template <class R> void consume(Rng& rng, R& r, const std::vector<u64>& m, const char* what, u64 desc, int budget = 3) {
  size_t n = m.size();
  size_t sz = parlay::size(r);
  VF_CHECK(sz == n, std::string("size:") + what, "size() is %zu, %zu elements expected (program %llx)", sz, n, (unsigned long long)desc);
  if (sz != n) return;
  for (int k = 0; k < budget; k++) switch (rng.below(8)) {
    case 0: { auto v = iterate(r, n + 10); VF_SAME(v, m, std::string("iterate:") + what, "%zu elements, program %llx", n, (unsigned long long)desc); event("iterated"); break; }
    case 1: { auto v = d::to_sequence(r); VF_SAME(v, m, std::string("to_sequence:") + what, "%zu elements, program %llx", n, (unsigned long long)desc); event("forced"); break; }
    case 2: { auto v = d::to_sequence<Aff>(d::map(r, [](u64 x) { return aff(x); })); bool ok = v.size() == n; for (size_t i = 0; ok && i < n; i++) ok = v[i] == aff(m[i]);
              VF_CHECK(ok, std::string("to_sequence<T>:") + what, "%zu elements, program %llx", n, (unsigned long long)desc); event("forced"); break; }
    case 3: { auto ar = d::map(r, [](u64 x) { return aff(x); }); Aff w; for (u64 x : m) w = then(w, aff(x));
              Aff g = rng.chance(1, 2) ? d::reduce(ar, parlay::make_monoid([](Aff x, Aff y) { return then(x, y); }, Aff{})) : d::reduce(ar, [](Aff x, Aff y) { return then(x, y); }, Aff{});
              VF_CHECK(g == w, std::string("reduce:") + what, "%zu elements, program %llx", n, (unsigned long long)desc); event("reduced"); break; }
    case 4: { u64 w = 0; for (u64 x : m) w += x; u64 g = d::reduce(r); VF_CHECK(g == w, std::string("sum:") + what, "%zu elements, program %llx: %llu not %llu", n, (unsigned long long)desc, (unsigned long long)g, (unsigned long long)w); event("reduced"); break; }
    case 5: { std::atomic<u64> c{0}, s{0}, x2{0}; u64 ws = 0, wx = 0; for (u64 x : m) { ws += mix(x); wx += mix(mix(x)) ^ 5; }
              auto f = [&](u64 x) { c++; s += mix(x); x2 += mix(mix(x)) ^ 5; };
              if (rng.chance(1, 2)) d::for_each(r, f); else d::apply(r, f);
              VF_CHECK(c == n && s == ws && x2 == wx, std::string("for_each:") + what, "visited %llu of %zu elements or other values, program %llx", (unsigned long long)c.load(), n, (unsigned long long)desc); event("applied"); break; }
    case 6: { const auto& cr = r; auto v = iterate(cr, n + 10); VF_SAME(v, m, std::string("const iterate:") + what, "%zu elements, program %llx", n, (unsigned long long)desc); event("iterated"); break; }
    default: { auto v = d::to_sequence(d::enumerate(r)); bool ok = v.size() == n; for (size_t i = 0; ok && i < n; i++) ok = std::get<0>(v[i]) == i && std::get<1>(v[i]) == m[i];
              VF_CHECK(ok, std::string("enumerate:") + what, "%zu elements, program %llx", n, (unsigned long long)desc); event("forced"); break; }
  }
}

// ---- type-erased ranges -----------------------------------------------------
struct ItBase { virtual ~ItBase() = default; virtual u64 get() const = 0; virtual void inc() = 0; virtual bool eq(const ItBase&) const = 0; virtual ItBase* clone() const = 0; virtual bool is_mutable() const = 0; };
// It is an iterator, CIt the constant iterator of the same range: mixed comparisons convert
template <class It, class CIt> struct ItM final : ItBase {
  It it; explicit ItM(It i) : it(std::move(i)) {}
  u64 get() const override { return *it; }
  void inc() override { ++it; }
  bool eq(const ItBase& o) const override {
    if (auto* p = dynamic_cast<const ItM*>(&o)) return it == p->it;
    if constexpr (!std::is_same_v<It, CIt>) { auto* c = dynamic_cast<const ItM<CIt, CIt>*>(&o); return c && CIt(it) == c->it; }
    else return o.is_mutable() && o.eq(*this);
  }
  bool is_mutable() const override { return !std::is_same_v<It, CIt>; }
  ItBase* clone() const override { return new ItM(it); }
};
struct AnyIt {
  using iterator_category = std::forward_iterator_tag; using value_type = u64; using reference = u64; using pointer = void; using difference_type = std::ptrdiff_t;
  std::unique_ptr<ItBase> p;
  AnyIt() = default;
  explicit AnyIt(ItBase* b) : p(b) {}
  AnyIt(const AnyIt& o) : p(o.p ? o.p->clone() : nullptr) {}
  AnyIt(AnyIt&&) noexcept = default;
  AnyIt& operator=(AnyIt o) noexcept { p = std::move(o.p); return *this; }
  u64 operator*() const { return p->get(); }
  AnyIt& operator++() { p->inc(); return *this; }
  AnyIt operator++(int) { AnyIt t = *this; p->inc(); return t; }
  friend bool operator==(const AnyIt& x, const AnyIt& y) { return x.p && y.p ? x.p->eq(*y.p) : !x.p && !y.p; }
  friend bool operator!=(const AnyIt& x, const AnyIt& y) { return !(x == y); }
};
struct VBase { virtual ~VBase() = default; virtual size_t size() const = 0; virtual size_t nb() const = 0; virtual AnyIt bb(size_t) = 0; virtual AnyIt cbb(size_t) const = 0; virtual VBase* clone() const = 0; virtual const char* why() const = 0; };
template <class T> struct VM final : VBase {
  T t; explicit VM(T x) : t(std::move(x)) {}
  size_t size() const override { return t.size(); }
  size_t nb() const override { return t.get_num_blocks(); }
  static constexpr bool has_const = parlay::internal::delayed::has_begin_block_v<const T>;
  static auto const_it() { if constexpr (has_const) return parlay::type_identity<decltype(std::declval<const T&>().get_begin_block(0))>{}; else return parlay::type_identity<decltype(std::declval<T&>().get_begin_block(0))>{}; }
  using CIt = typename decltype(const_it())::type;
  AnyIt bb(size_t i) override { auto it = t.get_begin_block(i); return AnyIt(new ItM<decltype(it), CIt>(std::move(it))); }
  AnyIt cbb(size_t i) const override {
    if constexpr (has_const) return AnyIt(new ItM<CIt, CIt>(t.get_begin_block(i)));
    else return const_cast<VM*>(this)->bb(i);
  }
  VBase* clone() const override { if constexpr (std::is_copy_constructible_v<T>) return new VM(t); else { abort(); } }
  const char* why() const override { return "?"; }
};
struct Any {   // a block-iterable range of u64
  std::unique_ptr<VBase> p;
  template <class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, Any>>> explicit Any(T&& t) : p(new VM<std::decay_t<T>>(std::forward<T>(t))) {}
  Any(const Any& o) : p(o.p->clone()) {}
  Any(Any&&) noexcept = default;
  Any& operator=(const Any& o) { p.reset(o.p->clone()); return *this; }
  Any& operator=(Any&&) noexcept = default;
  [[nodiscard]] size_t size() const { return p->size(); }
  size_t get_num_blocks() const { return p->nb(); }
  AnyIt get_begin_block(size_t i) { return p->bb(i); }
  AnyIt get_end_block(size_t i) { return p->bb(i + 1); }
  AnyIt begin() { return p->bb(0); }
  AnyIt end() { return p->bb(p->nb()); }
  AnyIt get_begin_block(size_t i) const { return std::as_const(*p).cbb(i); }
  AnyIt get_end_block(size_t i) const { return std::as_const(*p).cbb(i + 1); }
  AnyIt begin() const { return std::as_const(*p).cbb(0); }
  AnyIt end() const { return std::as_const(*p).cbb(p->nb()); }
};
static_assert(parlay::is_block_iterable_range_v<Any> && parlay::is_block_iterable_range_v<const Any&> && !parlay::is_random_access_range_v<Any>);
using RA = parlay::delayed_sequence<u64, u64, std::function<u64(size_t)>>;

// hand the range over in one of several ways before it is used
template <class T, class Mk> T transport(Rng& rng, T t, Mk&& other) {
  switch (rng.below(7)) {
    case 0: { if constexpr (std::is_copy_constructible_v<T>) { auto p = std::make_unique<T>(std::move(t)); T c(*p); p.reset(); event("copied"); return c; } else return t; }
    case 1: { T a(std::move(t)); T b(std::move(a)); event("moved"); return b; }
    case 2: { T o = other(); o = std::move(t); event("assigned"); return o; }
    case 3: { if constexpr (std::is_copy_constructible_v<T>) { T o = other(); { T t2(std::move(t)); o = t2; } event("assigned"); return o; } else return t; }
    case 4: { T o = other(); using std::swap; swap(o, t); event("swapped"); return o; }
    case 5: { auto p = std::make_unique<T>(std::move(t)); auto q = std::make_unique<std::pair<int, T>>(1, std::move(*p)); p.reset(); event("moved"); return std::move(q->second); }
    default: return t;
  }
}

struct Expr {
  std::vector<u64> m;
  std::optional<RA> ra;
  std::optional<Any> bid;
  bool is_ra() const { return ra.has_value(); }
};
struct Prog {
  Rng& rng; u64 desc = 0; size_t nodes = 0, cap;
  std::deque<Expr> keep;     // operands referred to
  explicit Prog(Rng& r, size_t c) : rng(r), cap(c) {}
  void note(u64 x) { desc = mix(desc ^ x); nodes++; }

  RA mk_ra(std::vector<u64> v) { auto s = std::make_shared<std::vector<u64>>(std::move(v)); return RA(s->size(), [s](size_t i) { return s->at(i); }); }
  Expr leaf() {
    size_t n = std::min(cap, rng.chance(1, 3) ? rng.below(6) : pick_size(rng, 13000));
    std::vector<u64> v(n);
    u64 k = 1 + rng.below(50);
    for (auto& x : v) x = rng.below(k * 3);
    note(n + 1);
    Expr e; e.ra = mk_ra(v); e.m = std::move(v);
    return e;
  }
  // apply f to the operand: owned or referenced, random access or not
  template <class F> auto with(Expr& e, F&& f) {
    bool own = rng.chance(1, 2);
    note(own + 10);
    if (e.is_ra()) f(std::move(*e.ra));
    else if (own) f(std::move(*e.bid));
    else { keep.push_back(std::move(e)); f(*keep.back().bid); }
  }
  template <class T, class Mk> void set(Expr& out, T&& t, Mk&& other) {
    using D = std::decay_t<T>;
    D h = transport<D>(rng, std::forward<T>(t), other);
    if constexpr (parlay::is_random_access_range_v<D>) {
      auto p = std::make_shared<D>(std::move(h));
      size_t n = p->size();
      if (rng.chance(1, 3)) out.bid = Any(d::filter(RA(n, [p](size_t i) -> u64 { return (*p)[i]; }), [](u64) { return true; }));
      else if (rng.chance(1, 2)) out.ra = RA(n, [p](size_t i) -> u64 { return (*p)[i]; });
      else out.ra = RA(n, [p](size_t i) -> u64 { return *(p->begin() + i); });
    }
    else out.bid = Any(std::move(h));
  }
  template <class E> auto dummy(E* = nullptr) {   // some other operand of the same type
    using D = std::decay_t<E>;
    if constexpr (std::is_same_v<D, RA>) return RA(rng.below(5000), [](size_t i) { return u64{i}; });
    else return Any(d::filter(RA(rng.below(5000), [](size_t i) { return u64{i}; }), [](u64 x) { return x % 3 == 1; }));
  }
  // build op(operand) and hand it over; `op` makes the view from a forwarded operand
  template <class Op> void unary(Expr& e, Expr& out, Op op) {
    with(e, [&](auto&& x) {
      using X = decltype(x);
      auto v = op(std::forward<X>(x));
      if constexpr (std::is_lvalue_reference_v<X>) {
        keep.emplace_back(); Expr& o = keep.back();
        using D = std::decay_t<X>;
        if constexpr (std::is_same_v<D, RA>) { o.ra = dummy<RA>(); set(out, std::move(v), [&] { return op(static_cast<X>(*o.ra)); }); }
        else { o.bid = dummy<Any>(); set(out, std::move(v), [&] { return op(static_cast<X>(*o.bid)); }); }
      }
      else set(out, std::move(v), [&] { return op(dummy<std::decay_t<X>>()); });
    });
  }
  Expr gen(int depth) {
    if (depth == 0) return leaf();
    Expr out;
    switch (int k = static_cast<int>(rng.below(13)); k) {
      case 0: { Expr a = gen(depth - 1); note(100); u64 c = rng.next() | 1; for (u64 x : a.m) out.m.push_back(x * c >> 40); unary(a, out, [c](auto&& x) { return d::map(std::forward<decltype(x)>(x), [c](u64 v) { return v * c >> 40; }); }); break; }
      case 1: { Expr a = gen(depth - 1); u64 md = 1 + rng.below(8), rr = rng.below(3); note(101 + md); for (u64 x : a.m) if (mix(x) % md <= rr) out.m.push_back(x);
                unary(a, out, [=](auto&& x) { return d::filter(std::forward<decltype(x)>(x), [=](u64 v) { return mix(v) % md <= rr; }); }); break; }
      case 2: { Expr a = gen(depth - 1); u64 md = 1 + rng.below(8), rr = rng.below(3); bool mm = rng.chance(1, 2); note(120 + md); for (u64 x : a.m) if (mix(x) % md <= rr) out.m.push_back(x + 1);
                unary(a, out, [=](auto&& x) { auto f = [=](u64 v) -> std::optional<u64> { if (mix(v) % md <= rr) return v + 1; return std::nullopt; };
                  (void)mm; return d::map_maybe(std::forward<decltype(x)>(x), f); }); break; }
      case 3: { Expr a = gen(depth - 1); note(103); u64 s = 0; for (u64 x : a.m) { out.m.push_back(s); s += x; } u64 tot = s; size_t n = a.m.size(); int how = static_cast<int>(rng.below(3));
                bool first = true;
                unary(a, out, [&](auto&& x) {
                  auto chk = [&](u64 t) { if (first) VF_CHECK(t == tot, "scan-total", "%llu not %llu over %zu elements, program %llx", (unsigned long long)t, (unsigned long long)tot, n, (unsigned long long)desc); first = false; };
                  if (how == 0) { auto pr = d::scan(std::forward<decltype(x)>(x), [](u64 p, u64 q) { return p + q; }, u64{0}); chk(pr.second); return Any(std::move(pr.first)); }
                  if (how == 1) { auto pr = d::scan(std::forward<decltype(x)>(x), parlay::plus<u64>{}); chk(pr.second); return Any(std::move(pr.first)); }
                  auto [v, t] = d::scan(std::forward<decltype(x)>(x)); chk(t); return Any(std::move(v)); });
                break; }
      case 4: { Expr a = gen(depth - 1); note(104); u64 s = 0; for (u64 x : a.m) { s += x; out.m.push_back(s); }
                unary(a, out, [](auto&& x) { return d::scan_inclusive(std::forward<decltype(x)>(x), [](u64 p, u64 q) { return p + q; }, u64{0}); }); break; }
      case 5: { Expr a = gen(depth - 1); note(105); Aff s; for (u64 x : a.m) { s = then(s, aff(x)); out.m.push_back(s.b >> 45); }
                unary(a, out, [](auto&& x) { auto sc = d::scan_inclusive(d::map(std::forward<decltype(x)>(x), [](u64 v) { return aff(v); }), parlay::make_monoid([](Aff p, Aff q) { return then(p, q); }, Aff{}));
                  return d::map(std::move(sc), [](const Aff& f) { return f.b >> 45; }); }); break; }
      case 6: { Expr a = gen(depth - 1), b = gen(depth - 1); note(106); size_t n = std::min(a.m.size(), b.m.size()); for (size_t i = 0; i < n; i++) out.m.push_back(a.m[i] * 3 + b.m[i]);
                unary(a, out, [&](auto&& x) {
                  // the second operand: owned copy each time
                  auto f = [](u64 p, u64 q) { return p * 3 + q; };
                  if (b.is_ra()) return Any(d::filter(d::zip_with(f, std::forward<decltype(x)>(x), RA(*b.ra)), [](u64) { return true; }));
                  return Any(d::zip_with(f, std::forward<decltype(x)>(x), Any(*b.bid))); });
                break; }
      case 7: { Expr a = gen(depth - 1); note(107); for (size_t i = 0; i < a.m.size(); i++) out.m.push_back(a.m[i] ^ i);
                unary(a, out, [](auto&& x) { return d::map(d::enumerate(std::forward<decltype(x)>(x)), [](auto&& t) -> u64 { return std::get<0>(t) ^ std::get<1>(t); }); }); break; }
      case 8: { Expr a = gen(depth - 1); note(108); bool key = rng.chance(1, 2); for (u64 x : a.m) out.m.push_back(key ? x : x + 9);
                unary(a, out, [key](auto&& x) { auto pr = d::map(std::forward<decltype(x)>(x), [](u64 v) { return std::pair<u64, u64>(v, v + 9); });
                  if (key) return Any(d::filter(d::keys_view(std::move(pr)), [](u64) { return true; }));
                  return Any(d::filter(d::values_view(std::move(pr)), [](u64) { return true; })); }); break; }
      case 9: case 10: {   // flatten of rows made on the fly
                Expr a = gen(depth - 1); u64 md = 1 + rng.below(6); int row = static_cast<int>(rng.below(4)); u64 big = rng.chance(1, 4) ? 2500 : 0; note(109 + row);
                if (a.m.size() > cap / 4) { a = leaf(); if (a.m.size() > cap / 4) { a.m.resize(10); a.ra = mk_ra(a.m); } }
                size_t budget = cap; 
                auto len = [=](u64 x) -> u64 { u64 h = mix(x + 77); return h % md == 0 ? (big && h % 97 == 0 ? big : (h >> 20) % 5) : 0; };
                size_t tot = 0; for (u64 x : a.m) tot += len(x);
                if (tot > budget) md = md + 0;
                for (u64 x : a.m) for (u64 j = 0; j < len(x); j++) out.m.push_back(x * 10 + j);
                unary(a, out, [&](auto&& x) {
                  using X = decltype(x);
                  if (row == 0) return Any(d::flatten(d::map(std::forward<X>(x), [=](u64 v) { return parlay::tabulate(len(v), [v](size_t j) -> u64 { return v * 10 + j; }); })));
                  if (row == 1) return Any(d::flatten(d::map(std::forward<X>(x), [=](u64 v) { return d::tabulate(len(v), [v](size_t j) -> u64 { return v * 10 + j; }); })));
                  if (row == 2) return Any(d::flatten(d::map(std::forward<X>(x), [=](u64 v) { return d::filter(d::tabulate(3 * len(v), [v](size_t j) -> u64 { return j % 3 ? ~u64{0} : v * 10 + j / 3; }), [](u64 z) { return z != ~u64{0}; }); })));
                  return Any(d::flatten(d::map(std::forward<X>(x), [=](u64 v) { return Any(d::map(d::zip(d::iota(len(v)), d::filter(d::iota(len(v) + 2), [](u64) { return true; })), [v](auto&& t) -> u64 { return v * 10 + std::get<0>(t); })); }))); });
                break; }
      case 11: { // flatten of stored rows, owned or referenced, each row a range of its own
                size_t rows = rng.chance(1, 3) ? rng.below(4) : rng.below(60); note(111 + rows);
                auto rs = std::make_shared<parlay::sequence<Any>>();
                for (size_t i = 0; i < rows; i++) {
                  if (rng.chance(1, 2)) { rs->push_back(Any(d::filter(RA(0, [](size_t q) -> u64 { return q; }), [](u64) { return true; }))); continue; }
                  size_t c0 = cap; cap = std::min<size_t>(cap, rng.chance(1, 6) ? 5000 : 50);
                  Expr a = gen(rng.chance(1, 3) ? depth - 1 : 0); cap = c0;
                  out.m.insert(out.m.end(), a.m.begin(), a.m.end());
                  if (a.is_ra()) rs->push_back(Any(d::filter(std::move(*a.ra), [](u64) { return true; }))); else rs->push_back(std::move(*a.bid));
                }
                if (rng.chance(1, 2)) { auto v = d::flatten(parlay::sequence<Any>(*rs)); set(out, std::move(v), [&] { return d::flatten(parlay::sequence<Any>(rs->begin(), rs->begin() + static_cast<long>(rs->size() / 2))); }); }
                else { auto v = d::flatten(*rs); held.push_back(rs); auto o = std::make_shared<parlay::sequence<Any>>(*rs); held.push_back(o); if (o->size()) o->pop_back(); set(out, std::move(v), [&] { return d::flatten(*o); }); }
                break; }
      default: { // flatten with a block-iterable outer range of references
                Expr a = gen(depth - 1); u64 md = 1 + rng.below(5); note(112 + md);
                auto tab = std::make_shared<parlay::sequence<parlay::sequence<u64>>>(16);
                for (size_t i = 0; i < 16; i++) { size_t L = rng.chance(2, 3) ? 0 : rng.chance(1, 12) && a.m.size() < 100 ? 2300 : rng.below(4); (*tab)[i] = parlay::tabulate(L, [i](size_t j) -> u64 { return i * 100000 + j; }); }
                for (u64 x : a.m) if (mix(x) % md) for (u64 y : (*tab)[x % 16]) out.m.push_back(y);
                held.push_back(tab);
                unary(a, out, [md, tab](auto&& x) { return d::flatten(d::map(d::filter(std::forward<decltype(x)>(x), [md](u64 v) { return mix(v) % md != 0; }), [tab](u64 v) -> const parlay::sequence<u64>& { return (*tab)[v % 16]; })); });
                break; }
    }
    if (out.m.size() > cap * 6) { /* too long: keep as it is but stop growing */ cap = 50; }
    return out;
  }
  std::vector<std::shared_ptr<void>> held;
};
}  // namespace

#if VF_PART == 0 || VF_PART == 1
CASE("random programs of delayed operations") {
  for (size_t k = 0, R = rounds(400); k < R; k++) {
    size_t cap = maxn(rng.chance(1, 3) ? 13000 : 3000, 40000);
    Prog p(rng, cap);
    int depth = 1 + static_cast<int>(rng.below(4));
    Expr e = p.gen(depth);
    if (e.is_ra()) { consume(rng, *e.ra, e.m, "random access", p.desc); bool ok = true; for (size_t i = 0; i < e.m.size(); i += 1 + rng.below(50)) ok = ok && (*e.ra)[i] == e.m[i] && e.ra->begin()[static_cast<size_t>(i)] == e.m[i]; VF_CHECK(ok, "index", "program %llx", (unsigned long long)p.desc); }
    else {
      consume(rng, *e.bid, e.m, "block iterable", p.desc);
      Any c(*e.bid); e.bid.reset(); p.keep.size();
      consume(rng, c, e.m, "copy of a tree", p.desc, 2);
      Any c2(std::move(c)); consume(rng, c2, e.m, "moved tree", p.desc, 1);
    }
    event("program_nodes", p.nodes); event("programs");
    if (e.m.size() > 2000) event("several_blocks");
    sample("depth %d, %zu nodes, %zu elements", depth, p.nodes, e.m.size());
    eval(p.desc, e.m.size() > 0);
  }
}
#endif

namespace {
std::vector<u64> rvec(Rng& rng, size_t n, u64 range = 1000) { std::vector<u64> v(n); for (auto& x : v) x = rng.below(range); return v; }
// every way of using one concrete view; mk() makes a new one, small() another of the same type
template <class Mk, class Other> void exercise(Rng& rng, Mk&& mk, Other&& other, const std::vector<u64>& m, const char* what) {
  auto v = mk();
  u64 h = hash_str(what) ^ m.size();
  consume(rng, v, m, what, h, 2);
  auto w = transport<decltype(v)>(rng, std::move(v), other);
  consume(rng, w, m, what, h, 2);
  if constexpr (std::is_copy_constructible_v<decltype(v)>) {
    auto c = w;                                     // both stay usable after a copy
    consume(rng, c, m, what, h, 1);
    consume(rng, w, m, what, h, 1);
    { decltype(v) o = other(); o = c; c = mk(); consume(rng, o, m, what, h, 1); }
    const auto cc = w;
    consume(rng, cc, m, what, h, 1);
  }
  event("concrete_views"); eval(H(hash_str(what), m.size(), m.empty() ? 0 : m.back()), !m.empty());
}
size_t dsize(Rng& r) { return r.chance(1, 2) ? std::min(maxn(13000, 40000), 2000 * r.below(6) + r.below(3)) : pick_size(r, maxn(13000, 40000)); }
inline u64 tot(const std::vector<u64>& v) { u64 s = 0; for (u64 x : v) s += x; return s; }
}  // namespace

#if VF_PART == 0 || VF_PART == 2
CASE("concrete views over owned and referenced sequences") {
  for (size_t k = 0, R = rounds(30); k < R; k++) {
    size_t n = dsize(rng); auto v = rvec(rng, n); parlay::sequence<u64> s(v.begin(), v.end()), small(5, u64{3});
    std::vector<u64> f, mf, sc, si; u64 acc = 0;
    for (u64 x : v) { if (x % 3 == 1) f.push_back(x); if (x % 3) mf.push_back(x / 3); sc.push_back(acc); acc += x; si.push_back(acc); }
    // functions that carry state, so that views of one type differ in their functions too
    auto mkp = [](u64 r) { return [r](u64 x) { return x % 3 == r; }; };
    auto mkq = [](u64 dv) { return [dv](u64 x) -> std::optional<u64> { if (x % dv) return x / dv; return std::nullopt; }; };
    auto mkop = [](u64 add) { return parlay::binary_op([add](u64 a, u64 b) { return a + b + add; }, u64{0} - add); };
    auto p = mkp(1), p0 = mkp(0); auto q = mkq(3), q2 = mkq(2);
    const u64 add = 1000003; std::vector<u64> sa; u64 ac2 = u64{0} - add; for (u64 x : v) { ac2 = ac2 + x + add; sa.push_back(ac2); }
    exercise(rng, [&] { return d::filter(s, p); }, [&] { return d::filter(small, p0); }, f, "filter(ref)");
    exercise(rng, [&] { return d::filter(parlay::sequence<u64>(s), p); }, [&] { return d::filter(parlay::sequence<u64>(small), p0); }, f, "filter(owned)");
    exercise(rng, [&] { return d::filter_op(s, q); }, [&] { return d::filter_op(small, q2); }, mf, "filter_op(ref)");
    exercise(rng, [&] { return d::filter_op(parlay::sequence<u64>(s), q); }, [&] { return d::filter_op(parlay::sequence<u64>(small), q2); }, mf, "filter_op(owned)");
    exercise(rng, [&] { return d::scan(s).first; }, [&] { return d::scan(small).first; }, sc, "scan(ref)");
    exercise(rng, [&] { return d::scan(parlay::sequence<u64>(s)).first; }, [&] { return d::scan(parlay::sequence<u64>(small)).first; }, sc, "scan(owned)");
    VF_CHECK(d::scan(s).second == acc, "scan-total", "%zu elements", n);
    exercise(rng, [&] { return d::scan_inclusive(s); }, [&] { return d::scan_inclusive(small); }, si, "scan_inclusive(ref)");
    exercise(rng, [&] { return d::scan_inclusive(parlay::sequence<u64>(s), mkop(add)); }, [&] { return d::scan_inclusive(parlay::sequence<u64>(small), mkop(5)); }, sa, "scan_inclusive(owned)");
  }
}
#endif
#if VF_PART == 0 || VF_PART == 3
CASE("concrete views: maps and tabulations") {
  for (size_t k = 0, R = rounds(30); k < R; k++) {
    size_t n = dsize(rng); auto v = rvec(rng, n); parlay::sequence<u64> s(v.begin(), v.end()), small(5, u64{3});
    u64 c = rng.next();
    std::vector<u64> mm, fm; for (u64 x : v) { mm.push_back(x ^ c); if (x % 2) fm.push_back(x ^ c); }
    auto mkg = [](u64 cc) { return [cc](u64 x) { return x ^ cc; }; }; auto g = mkg(c), g2 = mkg(c + 1);
    exercise(rng, [&] { return d::map(s, g); }, [&] { return d::map(small, g2); }, mm, "map(ref)");
    exercise(rng, [&] { return d::map(parlay::sequence<u64>(s), g); }, [&] { return d::map(parlay::sequence<u64>(small), g2); }, mm, "map(owned)");
    exercise(rng, [&] { return d::map(std::vector<u64>(v), g); }, [&] { return d::map(std::vector<u64>(3), g2); }, mm, "map(owned vector)");
    // a small sequence keeps its elements inside the object, which moves with it
    std::vector<u64> tiny(v.begin(), v.begin() + static_cast<long>(std::min<size_t>(n, 1)));
    std::vector<char> tc; std::vector<u64> tw; for (size_t i = 0; i < std::min<size_t>(n, 11); i++) { tc.push_back(static_cast<char>('a' + v[i] % 20)); tw.push_back(static_cast<u64>(tc.back())); }
    auto up = [](char ch) { return static_cast<u64>(ch); };
    exercise(rng, [&] { return d::map(parlay::short_sequence<char>(tc.begin(), tc.end()), up); }, [&] { return d::map(parlay::short_sequence<char>(3, 'x'), up); }, tw, "map(owned short_sequence)");
    auto mfm = [&](parlay::sequence<u64>& z) { return d::map(d::filter(d::map(z, g), [c](u64 x) { return (x ^ c) % 2; }), [](u64 x) { return x; }); };
    exercise(rng, [&] { return mfm(s); }, [&] { return mfm(small); }, fm, "map(filter(map))");
  }
}
#endif

#if VF_PART == 0 || VF_PART == 4
namespace { template <class T> u64 sum2(T&& t) { return std::get<0>(t) * 5 + std::get<1>(t); } struct Sum2 { template <class T> u64 operator()(T&& t) const { return sum2(t); } }; }
CASE("concrete views: zips, enumerations and element views") {
  for (size_t k = 0, R = rounds(30); k < R; k++) {
    size_t n = dsize(rng), n2 = rng.chance(1, 2) ? n : dsize(rng); auto v = rvec(rng, n), w = rvec(rng, n2);
    parlay::sequence<u64> a(v.begin(), v.end()), small(5, u64{3}); std::vector<u64> b(w);
    auto p = [](u64 x) { return x % 3 != 1; };
    std::vector<u64> fw; for (u64 x : w) if (p(x)) fw.push_back(x);
    auto zipm = [&](const std::vector<u64>& x, const std::vector<u64>& y) { std::vector<u64> m; for (size_t i = 0; i < std::min(x.size(), y.size()); i++) m.push_back(x[i] * 5 + y[i]); return m; };
    auto z1 = [&](parlay::sequence<u64>& x, std::vector<u64>& y) { return d::map(d::zip(x, y), Sum2{}); };
    std::vector<u64> sm(4, 2);
    exercise(rng, [&] { return z1(a, b); }, [&] { return z1(small, sm); }, zipm(v, w), "zip(ref, ref)");
    auto z2 = [&](parlay::sequence<u64>& x, std::vector<u64>& y) { return d::map(d::zip(x, d::filter(y, p)), Sum2{}); };
    exercise(rng, [&] { return z2(a, b); }, [&] { return z2(small, sm); }, zipm(v, fw), "zip(ref, filter)");
    auto z3 = [&](parlay::sequence<u64>& x, std::vector<u64>& y) { return d::map(d::zip(d::filter(std::vector<u64>(y), p), parlay::sequence<u64>(x)), Sum2{}); };
    exercise(rng, [&] { return z3(a, b); }, [&] { return z3(small, sm); }, zipm(fw, v), "zip(filter(owned), owned)");
    auto z4 = [&](parlay::sequence<u64>& x, std::vector<u64>& y) { return d::zip_with([](u64 i, u64 j, u64 l) { return i * 5 + j + 0 * l; }, x, y, d::iota(std::min(x.size(), y.size()) + 7)); };
    exercise(rng, [&] { return z4(a, b); }, [&] { return z4(small, sm); }, zipm(v, w), "zip_with of three");
    std::vector<u64> en; for (size_t i = 0; i < fw.size(); i++) en.push_back(i * 5 + fw[i]);
    auto e1 = [&](std::vector<u64>& y) { return d::map(d::enumerate(d::filter(y, p)), Sum2{}); };
    exercise(rng, [&] { return e1(b); }, [&] { return e1(sm); }, en, "enumerate(filter)");
    // views of pairs and tuples
    parlay::sequence<std::pair<u64, u64>> ps; std::vector<std::tuple<u64, u64, u64>> ts; for (size_t i = 0; i < n; i++) { ps.push_back({v[i], i}); ts.push_back({i, i, v[i]}); }
    parlay::sequence<std::pair<u64, u64>> ps2(3, std::pair<u64, u64>{1, 1}); std::vector<std::tuple<u64, u64, u64>> ts2(2);
    exercise(rng, [&] { return d::keys_view(ps); }, [&] { return d::keys_view(ps2); }, v, "keys_view(ref)");
    exercise(rng, [&] { return d::elements_view<2>(ts); }, [&] { return d::elements_view<2>(ts2); }, v, "elements_view<2>(ref)");
    d::for_each(d::values_view(ps), [](u64& x) { x += 10; });    // the views refer to the elements
    bool ok = true; for (size_t i = 0; i < n; i++) ok = ok && ps[i].first == v[i] && ps[i].second == i + 10;
    VF_CHECK(ok, "values_view-refers", "%zu pairs", n);
    d::for_each(d::zip(a, b), [](auto&& t) { auto& [x, y] = t; x += 1; y += x; });
    ok = true; for (size_t i = 0; i < n; i++) ok = ok && a[i] == v[i] + (i < n2); for (size_t i = 0; i < n2; i++) ok = ok && b[i] == w[i] + (i < n ? v[i] + 1 : 0);
    VF_CHECK(ok, "zip-refers", "%zu and %zu elements", n, n2);
    event("writes_through_views", n);
  }
}
#endif
#if VF_PART == 0 || VF_PART == 5
CASE("concrete views: flattening rows of every kind") {
  for (size_t k = 0, R = rounds(30); k < R; k++) {
    // row lengths: many empty, some far longer than a block
    size_t rows = rng.chance(1, 4) ? rng.below(4) : rng.chance(1, 3) ? rng.below(9000) : rng.below(200);
    u64 dense = 1 + rng.below(40); int shape = static_cast<int>(rng.below(5));
    auto len = [=](u64 r) -> size_t { u64 h = mix(r * 31 + dense);
      switch (shape) { case 0: return h % dense == 0 ? 1 : 0; case 1: return r == rows / 2 ? 4500 : 0; case 2: return r + 1 == rows ? 2000 : r == 0 ? 2000 : 0; case 3: return rows < 300 ? h % 60 : h % 3; default: return h % (rows + 1) == 0 ? 2001 : (h >> 30) % 2; } };
    std::vector<u64> m; std::vector<std::vector<u64>> vv(rows);
    for (size_t r = 0; r < rows; r++) for (size_t j = 0; j < len(r); j++) { vv[r].push_back(r * 10000 + j); m.push_back(r * 10000 + j); }
    parlay::sequence<std::vector<u64>> sv(vv.begin(), vv.end()), sv2(3, std::vector<u64>(700, 1));
    exercise(rng, [&] { return d::flatten(sv); }, [&] { return d::flatten(sv2); }, m, "flatten(ref)");
    exercise(rng, [&] { return d::flatten(parlay::sequence<std::vector<u64>>(sv)); }, [&] { return d::flatten(parlay::sequence<std::vector<u64>>(sv2)); }, m, "flatten(owned)");
    auto row = [=](size_t r) { return d::tabulate(len(r), [r](size_t j) -> u64 { return r * 10000 + j; }); };
    exercise(rng, [&] { return d::flatten(d::tabulate(rows, row)); }, [&] { return d::flatten(d::tabulate(rows / 2, row)); }, m, "flatten(tabulate of tabulates)");
    auto frow = [=](size_t r) { return d::filter(d::tabulate(2 * len(r), [r](size_t j) -> u64 { return j % 2 ? 7777777777 : r * 10000 + j / 2; }), [](u64 x) { return x != 7777777777; }); };
    exercise(rng, [&] { return d::flatten(d::tabulate(rows, frow)); }, [&] { return d::flatten(d::tabulate(rows / 2, frow)); }, m, "flatten(tabulate of filters)");
    event("rows", rows);
  }
}
#endif
#if VF_PART == 0 || VF_PART == 6
CASE("concrete views: nested and block-iterable rows") {
  for (size_t k = 0, R = rounds(30); k < R; k++) {
    size_t rows = rng.chance(1, 4) ? rng.below(4) : rng.chance(1, 4) ? rng.below(5000) : rng.below(100); u64 md = 1 + rng.below(9);
    parlay::sequence<parlay::sequence<u64>> tab = parlay::tabulate(20, [&](size_t i) { return parlay::tabulate(mix(i + k) % 3 ? mix(i + k) % (rows > 300 ? 4 : 30) : (i == 19 && rows < 300 ? 2100 : 0), [i](size_t j) -> u64 { return i * 10000 + j; }); });
    std::vector<u64> idx = rvec(rng, rows, 1000), small(4, 2), m;
    for (u64 x : idx) if (x % md == 0) for (u64 y : tab[x % 20]) m.push_back(y);
    // the outer range is block iterable and yields references
    auto f1 = [&](std::vector<u64>& v) { return d::flatten(d::map(d::filter(v, [md](u64 x) { return x % md == 0; }), [&tab](u64 x) -> parlay::sequence<u64>& { return tab[x % 20]; })); };
    exercise(rng, [&] { return f1(idx); }, [&] { return f1(small); }, m, "flatten(map(filter) of references)");
    // rows that are zips: their end is a value-initialised iterator
    auto zr = [&](u64 x) { return d::zip(d::filter(tab[x % 20], [](u64) { return true; }), tab[x % 20]); };
    parlay::sequence<decltype(zr(0))> zrows; std::vector<u64> mz; for (u64 x : idx) { if (mz.size() > 30000) break; zrows.push_back(zr(x)); for (u64 y : tab[x % 20]) mz.push_back(y * 2); }
    size_t cnt = 0; u64 bad = 0; auto fz = d::flatten(zrows);
    for (auto it = fz.begin(), e = fz.end(); it != e; ++it) { if (cnt >= mz.size()) { cnt++; break; } auto [x, y] = *it; if (x + y != mz[cnt]) bad++; cnt++; }
    VF_CHECK(cnt == mz.size() && fz.size() == mz.size() && bad == 0, "flatten(zips)", "%zu rows: %zu of %zu elements, %llu wrong", zrows.size(), cnt, mz.size(), (unsigned long long)bad);
    auto forced = d::to_sequence(d::map(fz, [](auto&& t) -> u64 { return std::get<0>(t) + std::get<1>(t); }));
    VF_SAME(forced, mz, "force-flatten(zips)", "%zu rows", zrows.size());
    // three levels
    auto f3 = [&](std::vector<u64>& v) { return d::flatten(d::map(v, [&tab](u64 x) { return d::flatten(d::tabulate(x % 4, [&tab, x](size_t i) { return d::map(tab[(x + i) % 20], [x](u64 y) { return y + x; }); })); })); };
    std::vector<u64> i3(idx.begin(), idx.begin() + static_cast<long>(std::min<size_t>(rows, 60))), m3;
    for (u64 x : i3) for (u64 i = 0; i < x % 4; i++) for (u64 y : tab[(x + i) % 20]) m3.push_back(y + x);
    exercise(rng, [&] { return f3(i3); }, [&] { return f3(small); }, m3, "flatten of flattens");
    event("rows", rows);
  }
}
#endif
#if VF_PART == 0 || VF_PART == 7
CASE("elements of other types, writes and moves through views") {
  for (size_t k = 0, R = rounds(40); k < R; k++) {
    size_t n = dsize(rng); auto v = rvec(rng, n);
    // strings: order of a concatenation scan, ownership of temporaries
    size_t ns = std::min<size_t>(n, 4100);
    parlay::sequence<std::string> s; for (size_t i = 0; i < ns; i++) s.push_back(std::string(1, static_cast<char>('a' + v[i] % 26)));
    std::string all; for (auto& x : s) all += x;
    auto cat = [](std::string a, const std::string& b) { a += b; return a; };
    if (ns <= 2500) {
      auto [sc, t] = d::scan(s, cat, std::string());
      VF_CHECK(t == all, "string-scan-total", "%zu strings", ns);
      size_t i = 0; bool ok = sc.size() == ns; for (auto it = sc.begin(); ok && it != sc.end(); ++it, ++i) ok = (*it).size() == i && (i % 100 || *it == all.substr(0, i));
      VF_CHECK(ok && i == ns, "string-scan", "%zu strings, stopped at %zu", ns, i);
    }
    VF_CHECK(d::reduce(d::filter(s, [](const std::string&) { return true; }), cat, std::string()) == all, "string-reduce", "%zu strings", ns);
    VF_CHECK(d::reduce(d::map(s, [](const std::string& x) { return x; }), parlay::make_monoid(cat, std::string())) == all, "string-reduce-ra", "%zu strings", ns);
    // writes through a filter, a flatten and a map that returns references
    parlay::sequence<std::string> t2 = s; auto isa = [](const std::string& x) { return x[0] < 'g'; };
    auto fl = d::filter(t2, isa); d::for_each(fl, [](std::string& x) { x += "!"; });
    bool ok = true; for (size_t i = 0; i < ns; i++) ok = ok && t2[i] == (isa(s[i]) ? s[i] + "!" : s[i]);
    VF_CHECK(ok, "write-through-filter", "%zu strings", ns);
    parlay::sequence<KV> kv(n); d::for_each(d::map(kv, [](KV& x) -> int64_t& { return x.id; }), [](int64_t& x) { x = 4; });
    ok = true; for (auto& x : kv) ok = ok && x.id == 4 && x.k == 0;
    VF_CHECK(ok, "write-through-map", "%zu elements", n);
    parlay::sequence<parlay::sequence<u64>> rows; { size_t i = 0; while (i < n) { size_t l = std::min(n - i, rng.below(300)); rows.push_back(parlay::sequence<u64>(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(i + l))); i += l; } }
    auto fr = d::flatten(rows); d::for_each(fr, [](u64& x) { x += 1; });
    size_t q = 0; ok = true; for (auto& r : rows) for (u64 x : r) ok = ok && x == v[q++] + 1;
    VF_CHECK(ok && q == n, "write-through-flatten", "%zu elements", n);
    // conversions
    auto as_int = d::to_sequence<int>(d::filter(d::map(d::iota(static_cast<int>(ns)), [](int x) { return static_cast<short>(x % 1000); }), [](short x) { return x % 2; }));
    ok = as_int.size() == [&] { size_t c = 0; for (size_t i = 0; i < ns; i++) c += (i % 1000) % 2; return c; }();
    VF_CHECK(ok, "to_sequence<int>", "%zu", ns);
    auto pr = d::to_sequence(d::zip(d::filter(s, [](const std::string&) { return true; }), d::iota(ns)));
    ok = pr.size() == ns; for (size_t i = 0; ok && i < ns; i++) ok = std::get<0>(pr[i]) == s[i] && std::get<1>(pr[i]) == i;
    VF_CHECK(ok, "force-zip-of-references", "%zu strings", ns);
    static_assert(std::is_same_v<decltype(pr)::value_type, std::tuple<std::string, size_t>>);
    eval(H(k, n), n > 1); event("writes_through_views", n);
  }
}
CASE("lifetimes of elements held by views") {
  for (size_t k = 0, R = rounds(30); k < R; k++) {
    size_t n = std::min<size_t>(dsize(rng), maxn(5000, 9000)); auto v = rvec(rng, n);
    {
      parlay::sequence<TrackedCopy> s; for (u64 x : v) s.push_back(TrackedCopy(static_cast<int64_t>(x)));
      auto f = d::filter_op(s, [](const TrackedCopy& t) -> std::optional<TrackedCopy> { if (t.get() % 2) return t; return std::nullopt; });
      int64_t w = 0, g = 0; for (u64 x : v) if (x % 2) w += static_cast<int64_t>(x);
      for (auto it = f.begin(), e = f.end(); it != e; ++it) g += (*it).get();
      VF_CHECK(w == g, "tracked-filter_op", "%zu elements", n);
      auto f2 = f; auto f3 = std::move(f); f2 = f3;
      auto out = d::to_sequence(f2); g = 0; for (auto& t : out) g += t.get();
      VF_CHECK(w == g, "tracked-filter_op-copy", "%zu elements", n);
      auto add = [](TrackedCopy a, const TrackedCopy& b) { return TrackedCopy(a.get() + b.get()); };
      auto [sc, t] = d::scan(parlay::sequence<TrackedCopy>(s), add, TrackedCopy(0));
      int64_t acc = 0; size_t i = 0; bool ok = true; auto sc2 = sc; for (auto it = sc2.begin(), e = sc2.end(); it != e; ++it, ++i) { ok = ok && (*it).get() == acc; acc += static_cast<int64_t>(v[i]); }
      VF_CHECK(ok && i == n && t.get() == acc, "tracked-scan", "%zu elements", n);
      auto fc = d::flatten(d::tabulate(1 + n / 50, [&](size_t r) { return parlay::tabulate(r % 50, [&](size_t j) { return TrackedCopy(static_cast<int64_t>(j)); }); }));
      auto fc2 = fc; auto fc3 = std::move(fc); size_t c = 0; for (auto it = fc3.begin(), e = fc3.end(); it != e; ++it) c += static_cast<size_t>((*it).get() >= 0);
      VF_CHECK(c == fc3.size() && fc2.size() == c, "tracked-flatten", "%zu elements", c);
      fc2 = std::move(fc3);
      // move-only elements are handed over by references
      parlay::sequence<TrackedMove> mo; for (u64 x : v) mo.push_back(TrackedMove(static_cast<int64_t>(x)));
      auto kept = d::filter(mo, [](const TrackedMove& x) { return x.get() % 2 == 0; });
      parlay::sequence<TrackedMove> got; for (auto it = kept.begin(), e = kept.end(); it != e; ++it) got.push_back(std::move(*it));
      size_t j = 0; ok = true; for (u64 x : v) if (x % 2 == 0) { ok = ok && j < got.size() && got[j].get() == static_cast<int64_t>(x); j++; }
      VF_CHECK(ok && j == got.size(), "move-out-of-filter", "%zu of %zu", j, got.size());
      auto mm = d::to_sequence(d::map(d::filter(d::iota(n), [](size_t x) { return x % 2; }), [](size_t x) { return TrackedMove(static_cast<int64_t>(x)); }));
      ok = mm.size() == n / 2; for (size_t q = 0; q < mm.size(); q++) ok = ok && mm[q].get() == static_cast<int64_t>(2 * q + 1);
      VF_CHECK(ok, "force-move-only", "%zu", n);
    }
    LifeMon::get().expect_none("delayed views");
    eval(H(k, n), n > 1);
  }
  event("lifetime_uses", LifeMon::get().uses);
}
CASE("delayed_sequence as a random access range") {
  for (size_t k = 0, R = rounds(60); k < R; k++) {
    size_t n = pick_size(rng, maxn(5000, 20000)); u64 c = rng.next();
    auto ds = parlay::delayed_tabulate(n, [c](size_t i) -> u64 { return mix(i ^ c); });
    std::vector<u64> m; for (size_t i = 0; i < n; i++) m.push_back(mix(i ^ c));
    VF_SAME(ds, m, "begin-end", "%zu", n);
    std::vector<u64> rv(ds.rbegin(), ds.rend()), rm(m.rbegin(), m.rend()); VF_SAME(rv, rm, "reverse", "%zu", n);
    if (n) {
      VF_CHECK(ds.front() == m.front() && ds.back() == m.back(), "front-back", "%zu", n);
      for (int q = 0; q < 20; q++) {
        size_t i = rng.below(n), j = rng.below(n + 1); auto a = ds.begin() + i; auto b = ds.begin() + j;
        VF_CHECK(*a == m[i] && ds[i] == m[i] && ds.at(i) == m[i] && ds.begin()[i] == m[i], "access", "index %zu of %zu", i, n);
        VF_CHECK(b - a == static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i), "difference", "%zu %zu", i, j);
        VF_CHECK((a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j) && (a == b) == (i == j) && (a != b) == (i != j), "comparison", "%zu %zu", i, j);
        auto x = a; auto y = x++; VF_CHECK(y == a && x == a + 1 && --x == a, "increment", "%zu", i);
        x += j - std::min(i, j); x -= j - std::min(i, j); VF_CHECK(x == a, "add-subtract", "%zu", i);
        auto z = ds.end() - (n - i); VF_CHECK(*z == m[i], "from the end", "%zu", i);
      }
    }
    bool threw = false; try { (void)ds.at(n + rng.below(5)); } catch (const std::out_of_range&) { threw = true; }
    VF_CHECK(threw, "at-throws", "%zu", n);
    VF_CHECK(ds.size() == n && ds.empty() == (n == 0), "size", "%zu", n);
    auto other = parlay::delayed_tabulate(3, [](size_t i) { return i; });
    auto io = d::iota(static_cast<unsigned char>(200)); size_t s = 0; for (auto x : io) s += x; VF_CHECK(s == 19900, "iota", "sum %zu", s);
    auto d2 = parlay::delayed_sequence<u64, u64, std::function<u64(size_t)>>(n, [c](size_t i) { return mix(i ^ c); });
    auto d3 = parlay::delayed_sequence<u64, u64, std::function<u64(size_t)>>(5, [](size_t i) { return u64{i}; });
    d2.swap(d3); VF_CHECK(d2.size() == 5 && d3.size() == n, "swap-size", "%zu", n); VF_SAME(d3, m, "swap", "%zu", n);
    d2 = d3; VF_SAME(d2, m, "assign", "%zu", n);
    auto cst = parlay::delayed_sequence<u64, u64, std::function<u64(size_t)>>::constant(n, c); bool ok = cst.size() == n; for (u64 x : cst) ok = ok && x == c; VF_CHECK(ok, "constant", "%zu", n);
    auto s1 = parlay::to_sequence(ds); auto s2 = d::to_sequence(ds); VF_SAME(s1, m, "force", "%zu", n); VF_SAME(s2, m, "force", "%zu", n);
    std::sort(rv.begin(), rv.end()); auto srt = parlay::sort(ds); VF_SAME(srt, rv, "sort of a delayed sequence", "%zu", n);
    eval(H(k, n, c), n > 1);
  }
}
#endif
