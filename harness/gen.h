// Shared generators, element types and lifetime monitors of the harness units.
#pragma once
#include "vf.h"
#include <algorithm>
#include <array>
#include <memory>
#include <numeric>
#include <optional>
#include <thread>
#include <unordered_map>
#include <utility>

namespace vf {

// Sizes: mostly tiny and around the block sizes used in the library (1024-element blocks of
// the eager primitives, 2000-element blocks of the delayed ones, 8192 sequential thresholds,
// powers of two for sorts and granularities), capped at maxn.
inline size_t pick_size(Rng& r, size_t maxn) {
  size_t n;
  switch (r.below(9)) {
    case 0: n = r.below(4); break;
    case 1: n = r.below(40); break;
    case 2: n = (size_t{1} << r.below(18)) + r.below(3) - 1; break;
    case 3: n = 1024 * (1 + r.below(9)) + r.below(3) - 1; break;
    case 4: n = 2000 * (1 + r.below(6)) + r.below(3) - 1; break;
    case 5: n = 8192 * (1 + r.below(2)) + r.below(5) - 2; break;
    case 6: n = r.below(1000); break;
    case 7: n = r.below(maxn + 1); break;
    default: n = r.below(200); break;
  }
  return std::min(n, maxn);
}
inline size_t maxn(size_t quick, size_t thorough_n) {
  size_t n = thorough() ? thorough_n : quick;
  if (scale() < 1) n = std::max<size_t>(300, static_cast<size_t>(static_cast<double>(n) * scale()));
  return n;
}

// Keys: how many distinct, how skewed
struct KeyGen {
  int kind; uint64_t range; 
  uint64_t operator()(Rng& r, size_t i, size_t n) const {
    switch (kind) {
      case 0: return r.below(range);
      case 1: return 0;                                   // all equal
      case 2: return i % range;                           // cyclic
      case 3: return i * range / std::max<size_t>(n, 1);  // sorted
      case 4: return range - 1 - i * range / std::max<size_t>(n, 1);  // reverse sorted (>= 0 as i < n)
      case 5: { uint64_t a = r.below(range), b = r.below(range), c = r.below(range); return std::min({a, b, c}); }
      case 6: return r.chance(9, 10) ? range / 2 : r.below(range);   // one heavy key
      case 7: { uint64_t k = r.below(20); return k < 3 ? k % range : r.below(range); }  // several heavy keys
      default: return (i % 7 == 0) ? range - 1 : r.below(range);
    }
  }
};
inline KeyGen pick_keys(Rng& r, size_t n, uint64_t cap = ~uint64_t{0} >> 1) {
  static const uint64_t rs[] = {1, 2, 3, 10, 100, 255, 256, 257, 1000, 65536, 1000000};
  uint64_t range = r.chance(1, 4) ? std::max<uint64_t>(1, n) : r.chance(1, 5) ? (uint64_t{1} << (8 + r.below(54))) : rs[r.below(11)];
  return KeyGen{static_cast<int>(r.below(9)), std::max<uint64_t>(1, std::min(range, cap))};
}
template <class T = uint64_t>
std::vector<T> gen_keys(Rng& r, size_t n, uint64_t cap = ~uint64_t{0} >> 1) {
  KeyGen g = pick_keys(r, n, cap);
  std::vector<T> v; v.reserve(n);
  for (size_t i = 0; i < n; i++) v.push_back(static_cast<T>(g(r, i, n)));
  return v;
}

// ---------------------------------------------------------------- lifetimes
// Every Tracked object registers its address on construction and unregisters it on
// destruction; any use of an address that is not registered, any construction over a
// registered one and any destruction of an unregistered one is a violation. A bitwise
// copy of a (not trivially relocatable) object shows up as use of an unregistered address.
struct LifeMon {
  static constexpr size_t S = 512;
  struct alignas(64) Shard {
    std::atomic_flag l = ATOMIC_FLAG_INIT;
    std::unordered_map<const void*, uint32_t> m;   // address -> type tag
  };
  Shard sh[S];
  std::atomic<uint64_t> ctor{0}, dtor{0}, uses{0}, bad{0};
  std::atomic<int64_t> live{0};
  static LifeMon& get() { static LifeMon* m = new LifeMon; return *m; }
  Shard& of(const void* p) { return sh[mix(reinterpret_cast<uintptr_t>(p)) % S]; }
  struct G { std::atomic_flag& f; G(std::atomic_flag& f_) : f(f_) { int k = 0; while (f.test_and_set(std::memory_order_acquire)) if (++k > 200) { std::this_thread::yield(); k = 0; } } ~G() { f.clear(std::memory_order_release); } };
  void born(const void* p, uint32_t tag) {
    ctor.fetch_add(1, std::memory_order_relaxed); live.fetch_add(1, std::memory_order_relaxed);
    Shard& s = of(p); bool dup;
    { G g(s.l); dup = !s.m.emplace(p, tag).second; }
    if (dup) { bad++; fail("life:construct-over-live", "object constructed at %p while another is alive there", p); }
  }
  void died(const void* p, uint32_t tag) {
    dtor.fetch_add(1, std::memory_order_relaxed); live.fetch_sub(1, std::memory_order_relaxed);
    Shard& s = of(p); bool ok;
    { G g(s.l); auto it = s.m.find(p); ok = it != s.m.end() && it->second == tag; if (ok) s.m.erase(it); }
    if (!ok) { bad++; fail("life:destroy-dead", "destruction of an object that is not alive at %p", p); }
  }
  void used(const void* p, uint32_t tag, const char* how) {
    uses.fetch_add(1, std::memory_order_relaxed);
    Shard& s = of(p); bool ok;
    { G g(s.l); auto it = s.m.find(p); ok = it != s.m.end() && it->second == tag; }
    if (!ok) { bad++; fail(std::string("life:use-dead-") + how, "%s of an object that is not alive at %p", how, p); }
  }
  // call when every tracked object of the scope should be gone
  void expect_none(const char* what) {
    int64_t n = live.load();
    if (n != 0) {
      fail("life:leak", "%lld objects alive after %s", static_cast<long long>(n), what);
      for (auto& s : sh) { G g(s.l); s.m.clear(); }
      live = 0;
    }
  }
};

// Opt: 1 copyable, 2 default constructible, 4 noexcept moves, 8 bigger than a pointer pair
template <int Tag, bool Copyable, size_t Pad = 0>
struct Tracked {
  static constexpr uint32_t tag = static_cast<uint32_t>(Tag * 2 + Copyable + Pad * 1000);
  int64_t v;
  bool moved = false;
  std::array<char, Pad + 1> pad{};
  Tracked() : v(0) { LifeMon::get().born(this, tag); }
  Tracked(int64_t x) : v(x) { LifeMon::get().born(this, tag); }   // NOLINT
  Tracked(const Tracked& o) : v(o.v), moved(o.moved) {
    static_assert(Copyable, "copy of a move-only object");
    LifeMon::get().used(&o, tag, "copy-from"); LifeMon::get().born(this, tag);
  }
  Tracked(Tracked&& o) noexcept : v(o.v), moved(o.moved) { LifeMon::get().used(&o, tag, "move-from"); LifeMon::get().born(this, tag); o.v = -777; o.moved = true; }
  Tracked& operator=(const Tracked& o) {
    static_assert(Copyable, "copy of a move-only object");
    LifeMon::get().used(&o, tag, "copy-assign-from"); LifeMon::get().used(this, tag, "assign-to"); v = o.v; moved = o.moved; return *this;
  }
  Tracked& operator=(Tracked&& o) noexcept {
    LifeMon::get().used(&o, tag, "move-assign-from"); LifeMon::get().used(this, tag, "assign-to");
    if (this != &o) { v = o.v; moved = o.moved; o.v = -777; o.moved = true; }
    return *this;
  }
  ~Tracked() { LifeMon::get().died(this, tag); }
  int64_t get() const {
    LifeMon::get().used(this, tag, "read");
    if (moved) fail("life:read-moved-from", "value of a moved-from object read at %p", static_cast<const void*>(this));
    return v;
  }
  friend bool operator<(const Tracked& a, const Tracked& b) { return a.get() < b.get(); }
  friend bool operator>(const Tracked& a, const Tracked& b) { return b.get() < a.get(); }
  friend bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
  friend bool operator!=(const Tracked& a, const Tracked& b) { return a.get() != b.get(); }
};
// copies of a move-only type must not even be considered by overload resolution
template <int Tag, size_t Pad>
struct Tracked<Tag, false, Pad> {
  static constexpr uint32_t tag = static_cast<uint32_t>(Tag * 2 + 1000000 + Pad * 1000);
  int64_t v;
  bool moved = false;
  std::array<char, Pad + 1> pad{};
  Tracked() : v(0) { LifeMon::get().born(this, tag); }
  Tracked(int64_t x) : v(x) { LifeMon::get().born(this, tag); }   // NOLINT
  Tracked(const Tracked& o) = delete;
  Tracked& operator=(const Tracked& o) = delete;
  Tracked(Tracked&& o) noexcept : v(o.v), moved(o.moved) { LifeMon::get().used(&o, tag, "move-from"); LifeMon::get().born(this, tag); o.v = -777; o.moved = true; }
  Tracked& operator=(Tracked&& o) noexcept {
    LifeMon::get().used(&o, tag, "move-assign-from"); LifeMon::get().used(this, tag, "assign-to");
    if (this != &o) { v = o.v; moved = o.moved; o.v = -777; o.moved = true; }
    return *this;
  }
  ~Tracked() { LifeMon::get().died(this, tag); }
  int64_t get() const {
    LifeMon::get().used(this, tag, "read");
    if (moved) fail("life:read-moved-from", "value of a moved-from object read at %p", static_cast<const void*>(this));
    return v;
  }
  friend bool operator<(const Tracked& a, const Tracked& b) { return a.get() < b.get(); }
  friend bool operator>(const Tracked& a, const Tracked& b) { return b.get() < a.get(); }
  friend bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
  friend bool operator!=(const Tracked& a, const Tracked& b) { return a.get() != b.get(); }
};
using TrackedCopy = Tracked<1, true>;
using TrackedMove = Tracked<2, false>;
using TrackedBig = Tracked<3, true, 200>;

// A value with a sort key and an identity, to observe stability
struct KV {
  int64_t k = 0; int64_t id = 0;
  friend bool operator==(const KV& a, const KV& b) { return a.k == b.k && a.id == b.id; }
  friend bool operator!=(const KV& a, const KV& b) { return !(a == b); }
};
struct KeyLess { template <class A> bool operator()(const A& a, const A& b) const { return a.k < b.k; } };
// big and non-trivially copyable versions
struct KVBig {
  int64_t k = 0; int64_t id = 0; std::array<int64_t, 14> pad{};
  friend bool operator==(const KVBig& a, const KVBig& b) { return a.k == b.k && a.id == b.id; }
};
struct KVStr {
  int64_t k = 0; int64_t id = 0; std::string s;
  KVStr() = default;
  KVStr(int64_t k_, int64_t i_) : k(k_), id(i_), s(std::to_string(i_) + "-a string that is not small") {}
  friend bool operator==(const KVStr& a, const KVStr& b) { return a.k == b.k && a.id == b.id && a.s == b.s; }
};
struct KVMove {   // move only
  int64_t k = 0; int64_t id = 0; std::unique_ptr<int64_t> p;
  KVMove() = default;
  KVMove(int64_t k_, int64_t i_) : k(k_), id(i_), p(new int64_t(i_)) {}
  friend bool operator==(const KVMove& a, const KVMove& b) { return a.k == b.k && a.id == b.id && a.p && b.p && *a.p == *b.p; }
};
template <class T> T make_kv(int64_t k, int64_t id) {
  if constexpr (std::is_constructible_v<T, int64_t, int64_t>) return T(k, id);
  else { T t{}; t.k = k; t.id = id; return t; }
}

// first index at which two ranges differ, or -1
template <class A, class B> int64_t first_diff(const A& a, const B& b) {
  size_t n = static_cast<size_t>(std::distance(std::begin(a), std::end(a)));
  size_t m = static_cast<size_t>(std::distance(std::begin(b), std::end(b)));
  auto ia = std::begin(a); auto ib = std::begin(b);
  for (size_t i = 0; i < std::min(n, m); i++, ++ia, ++ib) if (!(*ia == *ib)) return static_cast<int64_t>(i);
  return n == m ? -1 : static_cast<int64_t>(std::min(n, m));
}
#define VF_SAME(a, b, key, fmt, ...) do { int64_t vf_d = ::vf::first_diff((a), (b)); \
  if (vf_d >= 0) ::vf::fail((key), fmt " (differs at %lld)", ##__VA_ARGS__, static_cast<long long>(vf_d)); } while (0)

// Progress watchdog: if no tick arrives for `secs`, report a hang and end the process.
struct Watchdog {
  std::atomic<uint64_t> ticks{0};
  std::atomic<bool> stop{false};
  std::thread th;
  Watchdog(double secs, std::string what) {
    th = std::thread([this, secs, what] {
      uint64_t last = ticks; double t = now();
      while (!stop) {
        std::this_thread::sleep_for(std::chrono::milliseconds(20));
        uint64_t c = ticks;
        if (c != last) { last = c; t = now(); }
        else if (now() - t > secs) {
          fail("hang:" + what, "no progress for %.0f s after %llu steps", secs, static_cast<unsigned long long>(c));
          fflush(stdout);
          _exit(3);
        }
      }
    });
  }
  void tick() { ticks++; }
  ~Watchdog() { stop = true; th.join(); }
};

inline void spin_ns(uint64_t ns) {
  auto t = std::chrono::steady_clock::now();
  while (static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - t).count()) < ns) {}
}
struct SpinBarrier {
  std::atomic<int> n; const int total; std::atomic<int> gen{0};
  explicit SpinBarrier(int t) : n(t), total(t) {}
  void wait() {
    int g = gen.load();
    if (n.fetch_sub(1) == 1) { n = total; gen++; }
    else { int k = 0; while (gen.load() == g) if (++k > 2000) { std::this_thread::yield(); k = 0; } }
  }
};
}  // namespace vf
