// P08: allocator accounting balances; freed memory is reused.
#include <random>
#include "gen.h"
#include <parlay/alloc.h>
#include <parlay/primitives.h>
#include <parlay/sequence.h>

using namespace vf;
using parlay::internal::memory_usage;

struct Blk { void* p; size_t n; int api; };
template <size_t S> struct Obj { unsigned char c[S]; };
static Blk get(int api, size_t n, size_t al = 16) {
  switch (api) {
    case 0: return {parlay::p_malloc(n), n, 0};
    case 1: return {parlay::p_malloc(n, al), n, 0};
    default: { parlay::allocator<char> a; return {a.allocate(n), n, 2}; }
  }
}
static void put(Blk& b) { if (b.api == 0) parlay::p_free(b.p); else { parlay::allocator<char> a; a.deallocate(static_cast<char*>(b.p), b.n); } b.p = nullptr; }
static size_t pick_bytes(Rng& r, bool huge) {
  switch (r.below(huge ? 9 : 6)) {
    case 0: return r.below(40);
    case 1: return (size_t{1} << r.below(17)) + r.below(3) - 1;
    case 2: return r.below(5000);
    case 3: return r.below(260000);
    case 4: return (size_t{1} << (8 + r.below(11))) - 80 + r.below(90);
    case 5: return 1 + r.below(100);
    case 6: return (size_t{1} << (18 + r.below(6))) - 100 + r.below(200);
    case 7: return parlay::internal::default_allocator_max_pool_size / 2 + r.below(1000);
    default: return parlay::internal::default_allocator_max_pool_size * 2 + r.below(5000000);  // beyond the pools (address space only)
  }
}

// what one block of a size counts for is the same every time, at least its size, and returned by its free
CASE("per-block") {
  for (size_t it = 0, R = rounds(4000, 8); it < R; it++) {
    int api = static_cast<int>(rng.below(3)); size_t n = pick_bytes(rng, it % 8 == 0); size_t al = size_t{1} << rng.below(13);
    auto u0 = memory_usage(); Blk b = get(api, n, al); auto u1 = memory_usage(); put(b); auto u2 = memory_usage();
    Blk c = get(api, n, al); auto u3 = memory_usage(); put(c); auto u4 = memory_usage();
    VF_CHECK(u1.first >= u0.first && u1.first - u0.first >= n, "acct:raise", "allocating %zu bytes (api %d align %zu) raised the use by %lld", n, api, al, static_cast<long long>(u1.first - u0.first));
    VF_CHECK(u2.first == u0.first && u4.first == u0.first, "acct:return", "use %zu before and %zu after allocating and freeing %zu bytes (api %d align %zu)", u0.first, u2.first, n, api, al);
    VF_CHECK(u3.first - u2.first == u1.first - u0.first, "acct:uniform", "the same request counted %zu, then %zu bytes", u1.first - u0.first, u3.first - u2.first);
    for (auto& u : {u0, u1, u2, u3, u4}) VF_CHECK(u.second < (size_t{1} << 52) && u.first < (size_t{1} << 52), "acct:underflow", "usage (%zu, %zu) after %zu bytes", u.first, u.second, n);
    eval(H(api, n, al)); event("usage_reads", 5);
  }
  sample("single blocks of 0 bytes to twice the largest pool, usage read before and after");
}

// histories with many live blocks
CASE("histories") {
  for (size_t it = 0, R = rounds(60, 8); it < R; it++) {
    size_t base = memory_usage().first; std::vector<Blk> v; std::vector<size_t> cost; size_t sum = 0;
    for (int k = 0; k < 250; k++) {
      if (v.size() < 80 && rng.chance(4, 7)) {
        size_t b = memory_usage().first; v.push_back(get(static_cast<int>(rng.below(3)), pick_bytes(rng, rng.chance(1, 10)), size_t{1} << rng.below(11)));
        cost.push_back(memory_usage().first - b); sum += cost.back();
      } else if (!v.empty()) { size_t i = rng.below(v.size()); put(v[i]); sum -= cost[i]; v[i] = v.back(); cost[i] = cost.back(); v.pop_back(); cost.pop_back(); }
      if (rng.chance(1, 30)) { size_t b = memory_usage().first; parlay::internal::memory_clear(); VF_CHECK(memory_usage().first == b, "acct:clear", "clearing changed the use from %zu to %zu", b, memory_usage().first); event("clears"); }
      auto u = memory_usage(); event("usage_reads");
      VF_CHECK(u.first - base == sum, "acct:balance", "%zu bytes in use, live blocks count for %zu", u.first - base, sum);
      VF_CHECK(u.second < (size_t{1} << 52), "acct:underflow", "reserve %zu", u.second);
    }
    for (auto& b : v) put(b);
    VF_CHECK(memory_usage().first == base, "acct:return", "use %zu before, %zu after everything was freed", base, memory_usage().first);
    eval(H(it, sum));
  }
  sample("250-step histories; the use equals the sum over live blocks after every step");
}

// other threads free what this one allocated, and the reverse
CASE("cross-thread") {
  for (size_t it = 0, R = rounds(25, 8); it < R; it++) {
    size_t base = memory_usage().first; int T = static_cast<int>(2 + rng.below(6)); uint64_t sd = rng.next();
    std::vector<std::vector<Blk>> h(static_cast<size_t>(T)); SpinBarrier bar(T); std::vector<std::thread> th; std::atomic<size_t> n{0};
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
      Rng r(mix(sd + static_cast<uint64_t>(t)));
      for (int ph = 0; ph < 3; ph++) {
        size_t k = 1 + r.below(600); bool one = r.chance(1, 2); size_t sz = pick_bytes(r, false);
        for (size_t i = 0; i < k; i++) { h[static_cast<size_t>(t)].push_back(get(static_cast<int>(r.below(3)), one ? std::min<size_t>(sz, 40000) : std::min<size_t>(20000, pick_bytes(r, false)))); n++; }
        bar.wait(); for (auto& b : h[static_cast<size_t>((t + 1) % T)]) put(b); h[static_cast<size_t>((t + 1) % T)].clear(); bar.wait();
      }
    });
    for (auto& x : th) x.join();
    auto u = memory_usage();
    VF_CHECK(u.first == base, "acct:cross-return", "use %zu before, %zu after %d threads freed each other's %zu blocks", base, u.first, T, n.load());
    VF_CHECK(u.second < (size_t{1} << 52), "acct:underflow", "reserve %zu", u.second);
    event("cross_thread_frees", n); eval(H(sd));
    sample("%d threads, %zu blocks freed by a neighbour", T, n.load());
  }
}

// repeating a pattern reuses memory
template <class A, class F> static void reuse(const char* what, size_t block, size_t k, A alloc, F free_, std::function<size_t()> reserved, int iters, bool cross, size_t slack_blocks) {
  size_t at3 = 0, last = 0;
  auto run = [&](int i) {
    std::vector<void*> v;
    if (!cross) { for (size_t j = 0; j < k; j++) v.push_back(alloc()); for (auto p : v) free_(p); }
    (void)i;
  };
  if (!cross) for (int i = 0; i < iters; i++) { run(i); last = reserved(); if (i == 2) at3 = last; }
  else {
    // a producer and a consumer that live through all the rounds
    std::vector<void*> v; SpinBarrier bar(2);
    std::thread c([&] { for (int i = 0; i < iters; i++) { bar.wait(); for (auto p : v) free_(p); bar.wait(); } });
    for (int i = 0; i < iters; i++) { v.clear(); for (size_t j = 0; j < k; j++) v.push_back(alloc()); bar.wait(); bar.wait(); last = reserved(); if (i == 2) at3 = last; }
    c.join();
  }
  VF_CHECK(last <= at3 + slack_blocks * block, "acct:growth", "%s: %zu bytes reserved after 3 rounds of %zu blocks, %zu after %d rounds%s", what, at3, k, last, iters, cross ? " (freed by another thread)" : "");
  event("reuse_rounds", static_cast<uint64_t>(iters)); eval(H(hash_str(what), k, cross));
}
template <size_t S> static void reuse_type(Rng& rng, int iters) {
  using TA = parlay::type_allocator<Obj<S>>;
  for (bool cross : {false, true}) {
    size_t list = ((1 << 18) - 64 + S + 1) / S;
    size_t k = 1 + rng.below(2 * list + 2) + (cross ? 0 : 0); if (S > 100000) k = 1 + rng.below(6);
    std::string w = "type_allocator of " + std::to_string(S) + " bytes";
    size_t u0 = TA::num_used_blocks();
    reuse(w.c_str(), S, k, [] { return static_cast<void*>(TA::alloc()); }, [](void* p) { TA::free(static_cast<Obj<S>*>(p)); }, [] { return TA::num_allocated_blocks() * TA::block_size(); }, iters, cross, 4 * list + 2 * k + 8);
    VF_CHECK(TA::num_used_blocks() == u0, "acct:type-used", "%s: %zu blocks used, %zu before", w.c_str(), TA::num_used_blocks(), u0);
    VF_CHECK(TA::num_used_bytes() == TA::num_used_blocks() * TA::block_size(), "acct:type-bytes", "%zu bytes used", TA::num_used_bytes());
  }
}
CASE("reuse") {
  int iters = thorough() ? 400 : 80;
  for (int rep = 0; rep < (thorough() ? 6 : 2); rep++) {
    reuse_type<8>(rng, 12); reuse_type<100>(rng, iters); reuse_type<1000>(rng, iters); reuse_type<20000>(rng, iters); reuse_type<100000>(rng, iters); reuse_type<131072>(rng, iters); reuse_type<300000>(rng, iters); reuse_type<1000000>(rng, iters);
    for (size_t n : {size_t{3}, size_t{100}, size_t{5000}, size_t{100000}, size_t{300000}, size_t{2000000}}) for (bool cross : {false, true}) for (int api : {0, 2}) {
      size_t k = 1 + rng.below(n > 50000 ? 8 : 200); size_t blk = n; 
      auto total = [] { auto u = memory_usage(); return u.first + u.second; };
      char w[100]; snprintf(w, sizeof w, "api %d, %zu bytes", api, n);
      parlay::internal::memory_clear();
      reuse(w, blk, k, [&] { return get(api, n).p; }, [&](void* p) { Blk b{p, n, api}; put(b); }, total, iters, cross, (n < 200000 ? (size_t{1} << 20) / n : 4) + 2 * k + 8);
    }
  }
  sample("patterns of up to two lists of blocks repeated %d times by one thread and by producer and consumer", iters);
}

// clearing: refused while blocks are live, complete otherwise, and the allocator works afterwards
CASE("block-clear") {
  for (size_t it = 0, R = rounds(60, 8); it < R; it++) {
    size_t ll = 1 + rng.below(20); size_t bs = 8 << rng.below(8); parlay::internal::block_allocator a(bs, 16, 0, ll);
    for (int round = 0; round < 3; round++) {
      std::vector<void*> v; size_t k = 1 + rng.below(100);
      for (size_t i = 0; i < k; i++) { v.push_back(a.alloc()); memset(v.back(), 0xA5, bs); VF_CHECK(a.num_used_blocks() == i + 1, "acct:block-used", "%zu used after %zu allocations (list length %zu)", a.num_used_blocks(), i + 1, ll); }
      VF_CHECK(a.num_allocated_blocks() >= k && a.num_allocated_blocks() < k + ll, "acct:block-alloc", "%zu blocks reserved for %zu with lists of %zu", a.num_allocated_blocks(), k, ll);
      VF_CHECK(!a.clear(), "acct:clear-live", "clear succeeded with %zu live blocks", k);
      for (size_t i = 0; i < k; i++) { for (size_t j = 0; j < bs; j++) if (static_cast<unsigned char*>(v[i])[j] != 0xA5) { fail("acct:clear-damage", "a refused clear damaged a live block"); break; } }
      if (rng.chance(1, 2)) { std::thread t([&] { for (auto p : v) a.free(p); }); t.join(); } else { std::shuffle(v.begin(), v.end(), std::mt19937_64(rng.next())); for (auto p : v) a.free(p); }
      VF_CHECK(a.num_used_blocks() == 0, "acct:block-used", "%zu used after everything was freed", a.num_used_blocks());
      VF_CHECK(a.clear() && a.num_allocated_blocks() == 0 && a.num_used_blocks() == 0, "acct:clear", "clear left %zu blocks reserved, %zu used", a.num_allocated_blocks(), a.num_used_blocks());
    }
    eval(H(ll, bs)); event("block_clears", 3);
  }
  sample("lists of 1-20 blocks, refused and successful clears");
}

// the reserve of large blocks is returned by a clear
CASE("pool-clear") {
  for (size_t it = 0, R = rounds(30, 8); it < R; it++) {
    parlay::internal::pool_allocator a(std::vector<size_t>{16, 1024, 1 << 18, 1 << 19, 1 << 21});
    std::vector<size_t> edges; for (size_t b : {size_t{16}, size_t{1024}, size_t{1} << 18, size_t{1} << 19, size_t{1} << 21}) for (size_t d : {size_t{0}, size_t{1}, size_t{2}}) edges.push_back(b - 1 + d);
    for (size_t n : edges) {   // a block of a size at the edge of a bucket is used again and again
      size_t k = 1 + rng.below(4), first = 0;
      for (int rep = 0; rep < 12; rep++) {
        std::vector<void*> b(k); for (auto& x : b) x = a.allocate(n);
        for (void* x : b) a.deallocate(x, n);
        auto st = a.stats(); size_t t = st.first + st.second; if (rep == 1) first = t;
        if (rep > 1 && t > first + (size_t{1} << 20)) { fail("pool:reuse", "%zu blocks of %zu bytes: %zu reserved after 2 rounds, %zu after %d", k, n, first, t, rep + 1); break; }
      }
      event("edge_sizes", 1);
    }
    std::vector<std::pair<void*, size_t>> v; size_t used = 0;
    for (int k = 0; k < 30; k++) { size_t n = rng.chance(1, 4) ? edges[rng.below(edges.size())] : rng.chance(1, 3) ? 1 + rng.below(1000) : (1 << 17) + rng.below(3 << 20); size_t b = a.stats().first; v.emplace_back(a.allocate(n), n); size_t c = a.stats().first - b; VF_CHECK(c >= n, "pool:raise", "allocating %zu raised the use by %zu", n, c); used += c; }
    VF_CHECK(a.stats().first == used, "pool:use", "%zu in use, blocks count for %zu", a.stats().first, used);
    auto r0 = a.stats();
    for (size_t i = 0; i < v.size(); i += 2) { size_t b = a.stats().first; a.deallocate(v[i].first, v[i].second); VF_CHECK(a.stats().first < b, "pool:lower", "freeing %zu bytes did not lower the use", v[i].second); }
    a.clear(); auto r1 = a.stats(); VF_CHECK(r1.first + r1.second <= r0.first + r0.second && r1.second < (size_t{1} << 40), "pool:clear", "total %zu before and %zu after a clear, reserve %zu", r0.first + r0.second, r1.first + r1.second, r1.second);
    for (size_t i = 1; i < v.size(); i += 2) a.deallocate(v[i].first, v[i].second);
    VF_CHECK(a.stats().first == 0, "pool:zero", "%zu in use after everything was freed", a.stats().first);
    a.clear(); auto r2 = a.stats();
    VF_CHECK(r2.first == 0 && r2.second <= (1 << 20), "pool:clear-all", "after everything was freed and cleared, %zu in use and %zu in reserve", r2.first, r2.second);
    eval(H(used)); event("pool_clears", 2);
  }
  sample("blocks of 1 byte to 3 MB from a private pool");
}

// library operations give back everything they take
CASE("library-operations") {
  (void)parlay::sort(parlay::tabulate(100, [](size_t i) { return mix(i); }));
  for (size_t it = 0, R = rounds(30, 8); it < R; it++) {
    size_t base = memory_usage().first; size_t n = 1 + rng.below(60000);
    { auto s = parlay::tabulate(n, [](size_t i) { return mix(i) % 1000; }); auto a = parlay::sort(s); auto b = parlay::group_by_key(parlay::map(s, [](auto x) { return std::make_pair(x, x); })); auto c = parlay::filter(s, [](auto x) { return x % 2; }); auto d = parlay::scan(s); auto e = parlay::flatten(parlay::map(b, [](auto& p) { return p.second; })); auto f = parlay::integer_sort(s); auto g = parlay::histogram_by_index(s, 1000); }
    VF_CHECK(memory_usage().first == base, "acct:library", "use %zu before and %zu after sorting, grouping, filtering %zu elements", base, memory_usage().first, n);
    eval(H(n)); event("library_rounds");
  }
  sample("sort, group_by_key, filter, scan, flatten, integer_sort, histogram on up to 60000 elements");
}
