// P22: concurrent write_add / write_min / write_max, padding, hashing and small utilities.
// The comparison and the added value are supplied by the harness, so delays are injected between the load and
// the compare-and-swap of the code under test.
#include "gen.h"
#include <cmath>
#include <parlay/parallel.h>
#include <parlay/primitives.h>
#include <parlay/utilities.h>
using namespace vf;

namespace {
std::atomic<uint64_t> t_seed{1};
thread_local uint64_t t_rng = 0; thread_local unsigned t_delay = 0; thread_local uint64_t t_calls = 0;
uint64_t trnd() { if (!t_rng) t_rng = mix(t_seed++); return t_rng = mix(t_rng); }
void pause_here() { t_calls++; if (t_delay && trnd() % t_delay == 0) { if (trnd() % 16 == 0) std::this_thread::yield(); else spin_ns(trnd() % 1500); } }

// run f(thread) on T threads released together
template <class F> void together(size_t T, F&& f) {
  SpinBarrier b(static_cast<int>(T)); std::vector<std::thread> th;
  for (size_t t = 0; t < T; t++) th.emplace_back([&, t] { b.wait(); f(t); });
  for (auto& t : th) t.join();
}
template <class T> struct Slow { T v; };   // an addend that takes its time
template <class A, class T> auto operator+(A a, const Slow<T>& b) { pause_here(); auto r = static_cast<A>(a + b.v); pause_here(); return r; }

template <class T> T small(Rng& r) { if constexpr (std::is_floating_point_v<T>) return static_cast<T>(r.range(-100, 100)) * T(0.5); else return static_cast<T>(r.next() >> r.below(60)); }
template <class T, class E> void adds(Rng& rng, const char* type) {
  size_t T_ = 2 + rng.below(6), N = 50 + rng.below(400); unsigned delay = rng.chance(1, 3) ? 0 : static_cast<unsigned>(1 + rng.below(20));
  T init = small<T>(rng); std::atomic<T> a{init}; std::vector<std::vector<E>> v(T_);
  for (auto& x : v) for (size_t i = 0; i < N; i++) { if constexpr (std::is_floating_point_v<T>) x.push_back(static_cast<E>(small<T>(rng))); else x.push_back(static_cast<E>(rng.below(7))); }
  bool slow = rng.chance(2, 3);
  together(T_, [&](size_t t) { t_delay = delay; for (auto e : v[t]) if (slow) parlay::write_add(&a, Slow<E>{e}); else parlay::write_add(&a, e); });
  T want = init; for (auto& x : v) for (auto e : x) want = static_cast<T>(want + e);
  VF_CHECK(a.load() == want, "add:lost", "%s: %zu threads adding %zu numbers each: %.17g, expected %.17g", type, T_, N, static_cast<double>(a.load()), static_cast<double>(want));
  event("additions", T_ * N); eval(H(T_, N, delay, hash_str(type), rng.next()));
}
struct alignas(8) Rec { uint32_t k, id; };
struct Cmp {     // smaller key first, identities are equivalent
  bool operator()(const Rec& a, const Rec& b) const { pause_here(); return a.k < b.k; }
  template <class T> bool operator()(const T& a, const T& b) const { pause_here(); return a < b; }
};
struct CmpRev { template <class T> bool operator()(const T& a, const T& b) const { pause_here(); return b < a; } };
uint64_t ident(const Rec& r) { return (uint64_t{r.k} << 32) | r.id; }
template <class T> uint64_t ident(const T& x) { return static_cast<uint64_t>(static_cast<int64_t>(x * 4)); }
template <class T> bool lt(const T& a, const T& b) { if constexpr (std::is_same_v<T, Rec>) return a.k < b.k; else return a < b; }

// max == false: write_min under Less; the sequence of values is strictly decreasing under Less
template <class T, class Less> void extremes(Rng& rng, const char* type, bool max, bool rev, Less less, T (*gen)(Rng&)) {
  size_t T_ = 2 + rng.below(6), N = 1 + rng.below(120); unsigned delay = rng.chance(1, 3) ? 0 : static_cast<unsigned>(1 + rng.below(12));
  bool up = max != rev;    // the value grows under <
  auto better = [&](const T& a, const T& b) { return up ? lt(b, a) : lt(a, b); };    // a is strictly better than b
  T init = gen(rng); std::atomic<T> a{init};
  struct Op { T b, after; bool ok; }; std::vector<std::vector<Op>> ops(T_);
  int shape = static_cast<int>(rng.below(4));
  for (auto& o : ops) { for (size_t i = 0; i < N; i++) o.push_back({gen(rng), init, false});
    if (shape == 1) std::sort(o.begin(), o.end(), [&](const Op& x, const Op& y) { return better(y.b, x.b); });    // every one an improvement
    if (shape == 2) std::sort(o.begin(), o.end(), [&](const Op& x, const Op& y) { return better(x.b, y.b); }); }
  std::atomic<bool> stop{false}; std::atomic<uint64_t> back{0}, seen{0};
  std::thread obs([&] { T last = init; size_t n = 0, ch = 0; while (!stop || n < 3) { T c = a.load(); if (better(last, c)) back++; if (ident(c) != ident(last)) ch++; last = c; n++; } seen = ch; });
  together(T_, [&](size_t t) {
    t_delay = delay;
    for (auto& o : ops[t]) { o.ok = max ? parlay::write_max(&a, o.b, less) : parlay::write_min(&a, o.b, less); o.after = a.load(); }
  });
  stop = true; obs.join();
  T fin = a.load(), best = init; for (auto& o : ops) for (auto& x : o) if (better(x.b, best)) best = x.b;
  const char* name = max ? "max" : "min"; char what[120]; snprintf(what, sizeof what, "write_%s of %s%s, %zu threads x %zu, shape %d", name, type, rev ? " reversed" : "", T_, N, shape);
  VF_CHECK(!better(best, fin) && !better(fin, best), std::string("extreme:final:") + name, "%s: wrong final value", what);
  VF_CHECK(!back, std::string("extreme:backwards:") + name, "%s: an observer saw the value move the wrong way", what);
  std::map<uint64_t, int> chain; std::vector<T> vals; size_t okn = 0; bool fin_found = ident(fin) == ident(init);
  for (auto& o : ops) {
    T prev = init; 
    for (auto& x : o) {
      if (better(x.b, x.after)) fail(std::string("extreme:lost:") + name, "%s: after the call the value was worse than its argument", what);
      if (x.ok) {
        okn++; vals.push_back(x.b);
        VF_CHECK(better(x.b, prev), std::string("extreme:success:") + name, "%s: a call reported success for a value no better than one already written", what);
        if (ident(x.b) == ident(fin)) fin_found = true;
        if (better(x.b, prev)) prev = x.b;
      } else if (better(x.b, x.after)) fail(std::string("extreme:failure:") + name, "%s: a call reported no change though its argument is better than the value", what);
      if (better(x.after, prev)) prev = x.after;
    }
  }
  // successes form one strictly improving chain from the initial to the final value
  std::sort(vals.begin(), vals.end(), [&](const T& x, const T& y) { return better(y, x); });
  for (size_t i = 0; i < vals.size(); i++) if (!better(vals[i], i ? vals[i - 1] : init)) { fail(std::string("extreme:chain:") + name, "%s: two successes with equivalent values", what); break; }
  VF_CHECK(fin_found, std::string("extreme:author:") + name, "%s: no successful call wrote the final value", what);
  VF_CHECK((okn > 0) == better(fin, init), std::string("extreme:success-count:") + name, "%s: %zu successes", what, okn);
  event("extreme_calls", T_ * N); event("successes", okn); event("changes_observed", seen); eval(H(T_, N, delay, okn, hash_str(what), ident(fin)), okn > 1);
  sample("%s: %zu successes, observer saw %llu changes", what, okn, static_cast<unsigned long long>(seen.load()));
}
template <class T> T gen_num(Rng& r) { if constexpr (std::is_same_v<T, Rec>) return Rec{static_cast<uint32_t>(r.below(1000)), static_cast<uint32_t>(r.next())};
  else if constexpr (std::is_unsigned_v<T>) return static_cast<T>(r.chance(1, 8) ? r.next() : r.below(2000)); else return static_cast<T>(r.range(-1000, 1000)); }
}  // namespace

#if VF_PART == 0 || VF_PART == 1
CASE("concurrent additions") {
  for (size_t k = 0, R = rounds(6); k < R; k++) {
    adds<int, int>(rng, "int"); adds<unsigned, unsigned>(rng, "unsigned"); adds<int64_t, int>(rng, "long+int"); adds<uint64_t, uint64_t>(rng, "uint64");
    adds<uint8_t, int>(rng, "uint8"); adds<uint16_t, uint8_t>(rng, "uint16"); adds<double, double>(rng, "double"); adds<float, float>(rng, "float"); adds<size_t, bool>(rng, "size_t+bool");
  }
  // on the library's own workers, into several counters next to one another
  for (size_t k = 0, R = rounds(4); k < R; k++) {
    size_t C = 1 + rng.below(9), n = 20000; std::vector<std::atomic<size_t>> c(C); for (auto& x : c) x = 0;
    parlay::parallel_for(0, n, [&](size_t i) { parlay::write_add(&c[i % C], i % 5 + 1); }, 1);
    std::vector<size_t> w(C, 0); for (size_t i = 0; i < n; i++) w[i % C] += i % 5 + 1;
    for (size_t i = 0; i < C; i++) VF_CHECK(c[i] == w[i], "add:lost", "counter %zu of %zu: %zu, expected %zu", i, C, c[i].load(), w[i]);
    event("additions", n); eval(H(C, n, k, 1));
  }
}
CASE("concurrent minima and maxima") {
  for (size_t k = 0, R = rounds(10); k < R; k++) for (bool max : {false, true}) {
    extremes<int>(rng, "int", max, false, Cmp{}, gen_num<int>); extremes<int>(rng, "int", max, true, CmpRev{}, gen_num<int>);
    extremes<uint64_t>(rng, "uint64", max, false, Cmp{}, gen_num<uint64_t>); extremes<unsigned>(rng, "unsigned", max, false, Cmp{}, gen_num<unsigned>);
    extremes<double>(rng, "double", max, false, Cmp{}, gen_num<double>); extremes<Rec>(rng, "record", max, false, Cmp{}, gen_num<Rec>);
    extremes<short>(rng, "short", max, false, std::less<>{}, gen_num<short>);
  }
}
CASE("write_min and write_max alone") {
  auto less = std::less<int>();
  for (int init = -3; init <= 3; init++) for (int b = -3; b <= 3; b++) {
    std::atomic<int> a{init}; bool r = parlay::write_min(&a, b, less); VF_CHECK(a == std::min(init, b) && r == (b < init), "extreme:alone", "write_min(%d, %d): %d, %d", init, b, a.load(), r);
    a = init; r = parlay::write_max(&a, b, less); VF_CHECK(a == std::max(init, b) && r == (b > init), "extreme:alone", "write_max(%d, %d): %d, %d", init, b, a.load(), r);
    eval(H(init + 5, b + 5, 3));
  }
  // equivalent values leave the object as it is
  std::atomic<Rec> a{Rec{5, 1}}; bool r = parlay::write_min(&a, Rec{5, 2}, Cmp{}); VF_CHECK(!r && a.load().id == 1, "extreme:equivalent", "write_min replaced an equivalent value");
  r = parlay::write_max(&a, Rec{5, 3}, Cmp{}); VF_CHECK(!r && a.load().id == 1, "extreme:equivalent", "write_max replaced an equivalent value");
}
CASE("updates of one location by all workers") {
  // the usual pattern: the smallest index wins
  for (size_t k = 0, R = rounds(10); k < R; k++) {
    size_t n = 1 + rng.below(30000), m = 1 + rng.below(64); std::vector<std::atomic<size_t>> best(m); for (auto& x : best) x = n; std::vector<std::atomic<size_t>> wins(m);
    auto h = [&](size_t i) { return mix(i * 31 + k) % m; };
    parlay::parallel_for(0, n, [&](size_t i) { size_t j = n - 1 - i; if (parlay::write_min(&best[h(j)], j, std::less<size_t>())) wins[h(j)]++; }, 1);
    std::vector<size_t> w(m, n); for (size_t i = n; i-- > 0;) w[h(i)] = i;
    for (size_t j = 0; j < m; j++) { VF_CHECK(best[j] == w[j], "extreme:final:min", "cell %zu of %zu: %zu, expected %zu", j, m, best[j].load(), w[j]); VF_CHECK((wins[j] > 0) == (w[j] < n), "extreme:success-count:min", "cell %zu: %zu successes", j, wins[j].load()); }
    event("extreme_calls", n); eval(H(n, m, k, 2));
  }
}
#endif
#if VF_PART == 0 || VF_PART == 2
namespace {
int times_two(int x) { return 2 * x; }
template <class T, size_t S, class... A> void pad_one(const char* type, A... args) {
  using P = parlay::padded<T, S>;
  static_assert(alignof(P) >= S && sizeof(P) % S == 0 && sizeof(P) >= sizeof(T));
  P one(args...); std::vector<P> v; for (int i = 0; i < 9; i++) v.emplace_back(args...);
  parlay::sequence<P> s(9, one); std::array<P, 3> arr{P(args...), P(args...), P(args...)};
  auto off = [&](const void* p) { return reinterpret_cast<uintptr_t>(p) % S; };
  VF_CHECK(off(&one) == 0, "padded:alignment", "%s: misaligned on the stack", type);
  for (auto& x : v) VF_CHECK(off(&x) == 0, "padded:alignment", "%s: misaligned in a vector", type);
  for (auto& x : s) VF_CHECK(off(&x) == 0, "padded:alignment", "%s: misaligned in a sequence", type);
  for (size_t i = 1; i < 9; i++) {
    T& a = v[i - 1]; T& b = v[i]; auto d = reinterpret_cast<char*>(&b) - reinterpret_cast<char*>(&a);
    VF_CHECK(d >= static_cast<ptrdiff_t>(S), "padded:distance", "%s: neighbours %td bytes apart", type, d);
    // no two share a line: ends of one and start of the next lie in different blocks of S bytes
    VF_CHECK((reinterpret_cast<uintptr_t>(&a) + sizeof(T) - 1) / S < reinterpret_cast<uintptr_t>(&b) / S, "padded:shares-line", "%s: neighbours share a line", type);
  }
  event("padded_types"); eval(H(hash_str(type), S), true);
}
}  // namespace
CASE("padded values") {
  pad_one<int, 128>("int", 7); pad_one<int, 64>("int64", 7); pad_one<char, 128>("char", 'x'); pad_one<double, 128>("double", 1.5); pad_one<int*, 128>("pointer", nullptr);
  pad_one<std::string, 128>("string", "hello"); pad_one<std::vector<int>, 128>("vector", size_t{4}, 9); pad_one<std::array<char, 200>, 128>("array200"); pad_one<KVStr, 64>("record", int64_t{1}, int64_t{2});
  {  // behaves as the value
    parlay::padded<int> p{1}, z; int& x = p; const parlay::padded<int> c{41}; const int& cx = c; int&& m = std::move(p);
    VF_CHECK(z == 0, "padded:default", "padded<int> default is %d", static_cast<int>(z)); x = 2; VF_CHECK(p == 2 && p + c == 43 && cx == 41 && m == 2, "padded:value", "conversion");
    p = 5; p += 3; p++; VF_CHECK(p == 9 && x == 9, "padded:assign", "assignment"); auto q = p; q = 1; VF_CHECK(p == 9 && q == 1, "padded:copy", "copies share"); q = c; VF_CHECK(q == 41, "padded:copy", "copy assignment");
    parlay::padded<int (*)(int)> f = &times_two; VF_CHECK(f(21) == 42, "padded:call", "call through a padded pointer");
    parlay::padded<std::vector<int>> v{1, 2, 3}; v.push_back(4); v[0] = 42; std::vector<int> w = v; VF_CHECK(w == (std::vector<int>{42, 2, 3, 4}), "padded:class", "vector"); v = std::vector<int>{7}; VF_CHECK(v.size() == 1 && v[0] == 7, "padded:class", "assignment of a vector");
    auto mv = std::move(v); VF_CHECK(mv.size() == 1 && v.empty(), "padded:move", "move of a padded vector"); parlay::padded<std::string> s(5, 'a'); VF_CHECK(s == "aaaaa", "padded:class", "string");
    parlay::padded<std::unique_ptr<int>> u{new int(3)}; auto u2 = std::move(u); VF_CHECK(*u2 == 3 && !u, "padded:move", "unique_ptr");
  }
  // neighbours updated by different threads at the same time keep their values
  for (size_t k = 0, R = rounds(10); k < R; k++) {
    std::vector<parlay::padded<size_t>> c(7); std::vector<parlay::padded<std::vector<size_t>>> d(7);
    together(7, [&](size_t t) { for (size_t i = 0; i < 3000; i++) { c[t] += t + 1; if (i % 100 == 0) d[t].push_back(i + t); } });
    for (size_t t = 0; t < 7; t++) VF_CHECK(c[t] == 3000 * (t + 1) && d[t].size() == 30 && d[t][29] == 2900 + t, "padded:neighbours", "value %zu was disturbed", t);
    event("padded_updates", 21000); eval(H(k, 7, 4));
  }
}
namespace {
template <class K, class F> void spread_of(const char* what, size_t n, F key, double at_least) {
  std::unordered_set<uint64_t> d; uint64_t h = 0; parlay::hash<K> f, g;
  for (size_t i = 0; i < n; i++) { K k = key(i), k2 = key(i); size_t x = f(k); d.insert(x); h = mix(h ^ x); if (x != g(k2) || x != f(k)) { fail(std::string("hash:unstable:") + what, "two hashes of equal keys differ (%zu)", i); break; } }
  VF_CHECK(static_cast<double>(d.size()) >= at_least * static_cast<double>(n), std::string("hash:collisions:") + what, "%zu distinct hashes of %zu keys", d.size(), n);
  digest(std::string("hash ") + what, h); event("hashes", n); eval(H(hash_str(what), n));
}
}  // namespace
CASE("hashing") {
  spread_of<int>("int", 100000, [](size_t i) { return static_cast<int>(i) - 50000; }, 1);
  spread_of<uint64_t>("uint64", 100000, [](size_t i) { return i * 0x100000001ull; }, 1);
  spread_of<char>("char", 256, [](size_t i) { return static_cast<char>(i); }, 1);
  spread_of<bool>("bool", 2, [](size_t i) { return i == 1; }, 1);
  spread_of<std::pair<int, int>>("pair of ints", 90000, [](size_t i) { return std::make_pair(static_cast<int>(i % 300), static_cast<int>(i / 300)); }, 0.99);
  spread_of<std::pair<uint64_t, int>>("pair", 90000, [](size_t i) { return std::make_pair(i / 300 << 40, static_cast<int>(i % 300)); }, 0.99);
  spread_of<std::pair<std::pair<int, int>, int>>("nested pair", 64000, [](size_t i) { return std::make_pair(std::make_pair(static_cast<int>(i % 40), static_cast<int>(i / 40 % 40)), static_cast<int>(i / 1600)); }, 0.99);
  spread_of<std::array<int, 3>>("array", 64000, [](size_t i) { return std::array<int, 3>{static_cast<int>(i % 40), static_cast<int>(i / 40 % 40), static_cast<int>(i / 1600)}; }, 0.99);
  spread_of<std::string>("string", 20000, [](size_t i) { return "key " + std::to_string(i); }, 0.999);
  spread_of<std::pair<std::string, double>>("string and double", 20000, [](size_t i) { return std::make_pair("k" + std::to_string(i % 200), static_cast<double>(i / 200)); }, 0.99);
  // every component matters
  for (size_t pos = 0; pos < 5; pos++) { std::set<size_t> d; for (int x = 0; x < 200; x++) { std::array<int, 5> a{3, 1, 4, 1, 5}; a[pos] = x; d.insert(parlay::hash<std::array<int, 5>>{}(a)); } VF_CHECK(d.size() >= 195, "hash:component", "array component %zu: %zu hashes of 200 values", pos, d.size()); }
  for (int pos = 0; pos < 2; pos++) { std::set<size_t> d; for (int x = 0; x < 200; x++) d.insert(parlay::hash<std::pair<int, int>>{}(pos ? std::make_pair(7, x) : std::make_pair(x, 7))); VF_CHECK(d.size() >= 195, "hash:component", "pair component %d: %zu hashes of 200 values", pos, d.size()); }
  VF_CHECK((parlay::hash<std::array<int, 0>>{}({}) == parlay::hash<std::array<int, 0>>{}({})), "hash:empty", "empty array");
  VF_CHECK((parlay::hash<std::pair<double, int>>{}({0.0, 1}) == parlay::hash<std::pair<double, int>>{}({-0.0, 1})), "hash:equal-keys", "pairs that compare equal hash differently");
  // the integer mixing functions: deterministic, and (almost) without collisions on any simple pattern of inputs
  auto mixers = [&](const char* name, auto f, double least) {
    for (int pat = 0; pat < 4; pat++) {
      using A = decltype(f(0)); std::unordered_set<uint64_t> d; uint64_t h = 0; size_t n = 50000; std::array<size_t, sizeof(A) * 8> bits{};
      std::unordered_set<uint64_t> in;
      for (size_t i = 0; i < n; i++) { A x = pat == 0 ? static_cast<A>(i) : pat == 1 ? static_cast<A>(i * 4096) : pat == 2 ? static_cast<A>(~i) : static_cast<A>(mix(i)); in.insert(x); A y = f(x); if (y != f(x)) fail("mix:unstable", "%s", name); d.insert(y); h = mix(h ^ y); for (size_t b = 0; b < sizeof(A) * 8; b++) bits[b] += (y >> b) & 1; }
      VF_CHECK(static_cast<double>(d.size()) >= least * static_cast<double>(in.size()), std::string("mix:collisions:") + name, "pattern %d: %zu distinct results of %zu inputs", pat, d.size(), in.size());
      digest(std::string(name) + " " + std::to_string(pat), h); event("hashes", n); eval(H(hash_str(name), pat));
    }
  };
  mixers("hash32", [](uint32_t x) { return parlay::hash32(x); }, 0.99); mixers("hash32_2", [](uint32_t x) { return parlay::hash32_2(x); }, 0.9); mixers("hash32_3", [](uint32_t x) { return parlay::hash32_3(x); }, 0.99);
  mixers("hash64", [](uint64_t x) { return parlay::hash64(x); }, 0.9999); mixers("hash64_2", [](uint64_t x) { return parlay::hash64_2(x); }, 0.9999);
}
namespace {
template <class T> void logs(const char* type) {
  auto one = [&](T x) { size_t want = 0; while (want < sizeof(T) * 8 && (want >= static_cast<size_t>(std::numeric_limits<T>::digits) ? false : (static_cast<T>(T{1} << want) < x))) want++;
    VF_CHECK(parlay::log2_up(x) == want, std::string("log2_up:") + type, "log2_up(%llu) = %zu, expected %zu", static_cast<unsigned long long>(x), parlay::log2_up(x), want); event("logarithms"); };
  for (int b = 0; b < std::numeric_limits<T>::digits; b++) for (int d = -1; d <= 1; d++) { T p = static_cast<T>(T{1} << b); if (d < 0 && p <= 1) continue; one(static_cast<T>(p + d)); }
  one(std::numeric_limits<T>::max()); for (int i = 1; i < 127; i++) one(static_cast<T>(i)); eval(H(hash_str(type), 8));
}
struct NoDefault { int v; explicit NoDefault(int x) : v(x) {} NoDefault(const NoDefault&) = delete; };
}  // namespace
CASE("logarithms, arrays and function wrappers") {
  logs<int>("int"); logs<unsigned>("unsigned"); logs<long>("long"); logs<uint64_t>("uint64"); logs<short>("short"); logs<unsigned char>("uchar");
  for (size_t n : {size_t{0}, size_t{1}, size_t{2}, size_t{100}}) {
    {
      auto a = parlay::make_unique_array<TrackedCopy>(n, [](size_t i) { return static_cast<int64_t>(i); });
      VF_CHECK(parlay::size(std::as_const(a)) == n && static_cast<size_t>(LifeMon::get().live) == n, "unique_array:size", "%zu elements in an array of %zu", parlay::size(std::as_const(a)), n);
      size_t k = 0; for (auto it = parlay::begin(a); it != parlay::end(a); ++it, ++k) VF_CHECK(static_cast<size_t>(it->get()) == k && &a[k] == it, "unique_array:content", "element %zu", k);
      VF_CHECK(k == n, "unique_array:range", "%zu elements in the range", k);
      const auto& ca = a; k = 0; for (auto it = parlay::begin(ca); it != parlay::end(ca); ++it) k++; VF_CHECK(k == n, "unique_array:range", "const range");
      auto b = std::move(a); VF_CHECK(parlay::size(std::as_const(b)) == n && (n == 0 || b[n - 1].get() == static_cast<int64_t>(n - 1)), "unique_array:move", "moved array");
      auto c = parlay::make_unique_array<TrackedCopy>(3, [](size_t) { return int64_t{5}; }); c = std::move(b); VF_CHECK(static_cast<size_t>(LifeMon::get().live) == n, "unique_array:assign", "elements left over by an assignment");
    }
    LifeMon::get().expect_none("a unique array");
    auto d = parlay::make_unique_array<NoDefault>(n, [](size_t i) { return NoDefault(static_cast<int>(i)); });
    auto e = parlay::make_unique_array<parlay::padded<size_t>>(n, [](size_t i) { return i; });
    for (size_t i = 0; i < n; i++) VF_CHECK(d[i].v == static_cast<int>(i) && e[i] == i && reinterpret_cast<uintptr_t>(&e[i]) % 128 == 0, "unique_array:content", "element %zu of %zu", i, n);
    eval(H(n, 11)); event("unique_arrays", 3);
  }
  {  // wrapped functions are assignable, also to themselves
    auto mkf = [](int64_t k) { return parlay::copyable_function_wrapper([t = TrackedCopy(k)](size_t i) { return t.get() * 100 + static_cast<int64_t>(i); }); };
    auto f = mkf(1), g = mkf(2); auto h = f; VF_CHECK(f(3) == 103 && g(3) == 203 && h(4) == 104, "wrapper:call", "call");
    f = g; VF_CHECK(f(1) == 201 && g(1) == 201, "wrapper:assign", "copy assignment"); auto& fr = f; f = fr; VF_CHECK(f(1) == 201, "wrapper:self", "self assignment"); h = std::move(g); VF_CHECK(h(2) == 202, "wrapper:move", "move assignment");
    h = std::move(*&h); const auto& cf = f; VF_CHECK(cf(7) == 207, "wrapper:const", "const call"); event("wrappers", 6);
  }
  LifeMon::get().expect_none("a function wrapper");
}
#endif
