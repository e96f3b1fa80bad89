// P01: parallel_for, blocked_for, par_do, par_do3: every iteration and branch exactly once,
// joined before return, results visible.
#include "gen.h"
#include <parlay/parallel.h>

using namespace vf;

// A monitor shared by the bodies of one parallel call.
struct Monitor {
  std::vector<std::atomic<uint32_t>> count;
  std::vector<uint64_t> out;               // plain writes: visible to the caller after the join
  std::atomic<int64_t> inflight{0}, peak{0};
  std::atomic<uint64_t> outside{0};
  std::vector<std::atomic<uint32_t>> who;  // worker that ran each index
  explicit Monitor(size_t n) : count(n), out(n), who(n) {}
  void enter() { int64_t k = ++inflight; int64_t p = peak; while (k > p && !peak.compare_exchange_weak(p, k)) {} }
  void leave() { --inflight; }
  void body(uint64_t i) {
    if (i >= count.size()) { outside++; return; }
    count[i].fetch_add(1, std::memory_order_relaxed);
    out[i] = mix(i + 5);
    who[i].store(static_cast<uint32_t>(parlay::worker_id()), std::memory_order_relaxed);
  }
  uint64_t schedule_hash() const {
    uint64_t h = count.size(); uint32_t last = ~0u;
    for (size_t i = 0; i < who.size(); i++) { uint32_t w = who[i].load(std::memory_order_relaxed); if (w != last) { h = H(h, i, w); last = w; } }
    return h;
  }
  void verify(const char* key, const std::string& what) {
    // inflight first: nothing may still be running now that the call has returned
    int64_t f = inflight.load(std::memory_order_relaxed);
    if (f != 0) fail(std::string(key) + ":unjoined", "%lld bodies still running after return: %s", static_cast<long long>(f), what.c_str());
    if (outside) fail(std::string(key) + ":outside", "body called for %llu indices outside the range: %s", static_cast<unsigned long long>(outside.load()), what.c_str());
    for (size_t i = 0; i < count.size(); i++) {
      uint32_t c = count[i].load(std::memory_order_relaxed);
      if (c != 1) { fail(std::string(key) + ":count", "index %zu run %u times: %s", i, c, what.c_str()); break; }
      if (out[i] != mix(i + 5)) { fail(std::string(key) + ":lost-write", "write of index %zu not visible: %s", i, what.c_str()); break; }
    }
    event("bodies", count.size());
    size_t w = 0; std::set<uint32_t> ids; for (auto& x : who) ids.insert(x.load()); w = ids.size();
    if (w > 1) event("calls_spread_over_workers");
    eval(schedule_hash(), count.size() > 1);
  }
};

static uint64_t pick_start(Rng& r, size_t n) {
  switch (r.below(6)) {
    case 0: return r.below(1000);
    case 1: return (uint64_t{1} << 32) - n / 2;
    case 2: return (uint64_t{1} << 63) - n / 2;
    case 3: return ~uint64_t{0} - n - r.below(3);
    default: return 0;
  }
}
static long pick_gran(Rng& r, size_t n) {
  switch (r.below(9)) {
    case 0: case 1: case 2: return 0;
    case 3: return 1;
    case 4: return 2 + static_cast<long>(r.below(8));
    case 5: return static_cast<long>(n) - 1 + static_cast<long>(r.below(3)) < 0 ? 1 : static_cast<long>(n) - 1 + static_cast<long>(r.below(3));
    case 6: return static_cast<long>(n / 2);
    case 7: return static_cast<long>(uint64_t{1} << 40);
    default: return static_cast<long>(1 + r.below(n + 1));
  }
}

CASE("parfor") {
  size_t rounds_ = rounds(2500, 8);
  for (size_t it = 0; it < rounds_; it++) {
    size_t n = pick_size(rng, maxn(20000, 200000));
    uint64_t start = pick_start(rng, n);
    long g = pick_gran(rng, n);
    if (g == 1 || g == 2) n = std::min<size_t>(n, 5000);
    bool cons = rng.chance(1, 3);
    int weight = static_cast<int>(rng.below(4));
    Monitor m(n);
    auto f = [&](size_t i) {
      m.enter();
      if (weight == 1) { if ((i - start) % 64 == 0) spin_ns(2000); }
      else if (weight == 2) { if (i == start) spin_ns(20000); }
      else if (weight == 3) { if ((i - start) % 257 == 5) std::this_thread::yield(); }
      m.body(i - start);
      m.leave();
    };
    if (rng.chance(1, 8)) { const auto& cf = f; parlay::parallel_for(start, start + n, cf, g, cons); }
    else parlay::parallel_for(start, start + n, f, g, cons);
    char b[200]; snprintf(b, sizeof b, "start=%llu n=%zu gran=%ld cons=%d weight=%d", static_cast<unsigned long long>(start), n, g, cons, weight);
    m.verify("parfor", b);
    sample("%s peak=%lld", b, static_cast<long long>(m.peak.load()));
  }
}

CASE("parfor-empty") {
  // empty and inverted ranges run nothing
  for (uint64_t s : {uint64_t{0}, uint64_t{1}, uint64_t{7}, uint64_t{1} << 63, ~uint64_t{0}}) {
    for (uint64_t d : {uint64_t{0}, uint64_t{1}, uint64_t{2}, uint64_t{1000}}) {
      if (d > s) continue;
      for (long g : {0L, 1L, 5L, 1000000L}) {
        if (s - d + 1 == 0) continue;
        std::atomic<int> c{0};
        parlay::parallel_for(s, s - d, [&](size_t) { c++; }, g);
        VF_CHECK(c == 0, "parfor-empty", "body run %d times for [%llu,%llu) gran=%ld", c.load(), static_cast<unsigned long long>(s), static_cast<unsigned long long>(s - d), g);
        eval(H(s, d, g));
      }
    }
  }
  sample("ranges [s,s-d) for s in {0,1,7,2^63,2^64-1}, d in {0,1,2,1000}");
}

CASE("blocked_for") {
  for (size_t it = 0, R = rounds(1000, 8); it < R; it++) {
    size_t n = pick_size(rng, maxn(20000, 100000));
    uint64_t start = rng.chance(1, 2) ? 0 : rng.below(1u << 30);
    size_t bs;
    if (rng.chance(1, 10)) start = ~uint64_t{0} - n - rng.below(20);   // up to the end of the index range
    switch (rng.below(7)) { case 6: bs = ~size_t{0} - rng.below(12) * (n / 4 + 1); break; case 0: bs = 1; n = std::min<size_t>(n, 4000); break; case 1: bs = n ? n : 1; break; case 2: bs = n + 1; break; case 3: bs = 1 + n / 2; break; case 4: bs = 1 + rng.below(10); break; default: bs = 1 + rng.below(3000); }
    Monitor m(n);
    std::mutex mx; std::map<size_t, std::pair<uint64_t, uint64_t>> blocks; uint64_t dup = 0;
    parlay::blocked_for(start, start + n, bs, [&](size_t b, size_t s, size_t e) {
      m.enter();
      { std::lock_guard<std::mutex> g(mx); if (!blocks.emplace(b, std::make_pair(s, e)).second) dup++; }
      for (size_t i = s; i < e; i++) m.body(i - start);
      m.leave();
    }, rng.chance(1, 4));
    char b[200]; snprintf(b, sizeof b, "start=%llu n=%zu block=%zu", static_cast<unsigned long long>(start), n, bs);
    VF_CHECK(dup == 0, "blocked_for:dup", "a block number was used twice: %s", b);
    uint64_t at = start; size_t k = 0;
    for (auto& [id, se] : blocks) {
      if (id != k || se.first != at || se.second <= se.first || se.second - se.first > bs || (se.second - se.first < bs && se.second != start + n)) {
        fail("blocked_for:partition", "block %zu is [%llu,%llu): %s", id, static_cast<unsigned long long>(se.first), static_cast<unsigned long long>(se.second), b); break; }
      at = se.second; k++;
    }
    VF_CHECK(at == start + n || n == 0, "blocked_for:cover", "blocks end at %llu: %s", static_cast<unsigned long long>(at), b);
    m.verify("blocked_for", b);
    sample("%s blocks=%zu", b, blocks.size());
  }
}

// random fork trees; each node checks that both results of its children are there when its fork returns
struct Tree {
  std::atomic<uint64_t> nodes{0};
  std::atomic<uint64_t> trace{0};
  uint64_t seed; bool cons;
  uint64_t run(int depth, uint64_t id, size_t home) {
    nodes++;
    if (parlay::worker_id() != home) trace.fetch_add(mix(id), std::memory_order_relaxed);
    size_t me = parlay::worker_id();
    uint64_t r = mix(seed ^ id);
    if (depth == 0 || (r & 15) == 0) { if ((r >> 8) % 5 == 0) spin_ns((r >> 16) % 3000); return 1; }
    if ((r >> 4) % 3 == 0) {
      uint64_t a = 0, b = 0, c = 0; int ca = 0, cb = 0, cc = 0;
      parlay::par_do3([&] { ca++; a = run(depth - 1, id * 4 + 1, me); }, [&] { cb++; b = run(depth - 1, id * 4 + 2, me); }, [&] { cc++; c = run(depth - 1, id * 4 + 3, me); });
      if (ca != 1 || cb != 1 || cc != 1) fail("tree:branch-count", "par_do3 ran its branches %d,%d,%d times", ca, cb, cc);
      if (!a || !b || !c) fail("tree:unjoined", "par_do3 returned before a branch finished");
      if (parlay::worker_id() != me) fail("tree:migrated", "the calling task changed workers across a fork");
      return a + b + c + 1;
    }
    uint64_t a = 0, b = 0; int ca = 0, cb = 0;
    int da = (r >> 20) % 4 == 0 ? std::max(0, depth - 3) : depth - 1;
    switch ((r >> 6) % 4) {
      case 0: parlay::parallel_do([&] { ca++; a = run(da, id * 4 + 1, me); }, [&] { cb++; b = run(depth - 1, id * 4 + 2, me); }, cons); break;
      case 1: parlay::par_do_if((r >> 30) & 1, [&] { ca++; a = run(da, id * 4 + 1, me); }, [&] { cb++; b = run(depth - 1, id * 4 + 2, me); }, cons); break;
      default: parlay::par_do([&] { ca++; a = run(da, id * 4 + 1, me); }, [&] { cb++; b = run(depth - 1, id * 4 + 2, me); }, cons);
    }
    if (ca != 1 || cb != 1) fail("tree:branch-count", "par_do ran its branches %d,%d times", ca, cb);
    if (!a || !b) fail("tree:unjoined", "par_do returned before a branch finished");
    if (parlay::worker_id() != me) fail("tree:migrated", "the calling task changed workers across a fork");
    return a + b + 1;
  }
};
CASE("fork-trees") {
  for (size_t it = 0, R = rounds(1200, 8); it < R; it++) {
    Tree t; t.seed = rng.next(); t.cons = rng.chance(1, 4);
    int depth = static_cast<int>(rng.range(2, 12));
    uint64_t total = t.run(depth, 1, parlay::worker_id());
    VF_CHECK(total == t.nodes.load(), "tree:total", "tree result %llu but %llu nodes were run", static_cast<unsigned long long>(total), static_cast<unsigned long long>(t.nodes.load()));
    event("fork_nodes", total);
    if (t.trace.load()) event("trees_with_steals");
    eval(H(t.seed, t.trace.load()), total > 1);
    sample("depth %d: %llu nodes, cons=%d", depth, static_cast<unsigned long long>(total), t.cons);
  }
}

// the branches of par_do given as move-only, one-shot (rvalue-qualified) and stateful callables
struct OneShot {
  std::unique_ptr<int> p; int* out;
  OneShot(int x, int* o) : p(new int(x)), out(o) {}
  OneShot(OneShot&&) = default;
  void operator()() { if (!p) { *out = -1; return; } *out = *p; p.reset(); }
};
CASE("callables") {
  for (size_t it = 0, R = rounds(2000, 5); it < R; it++) {
    int a = 0, b = 0, c = 0;
    parlay::par_do(OneShot(5, &a), OneShot(7, &b));
    VF_CHECK(a == 5 && b == 7, "callables", "one-shot branches gave %d %d", a, b);
    a = b = 0;
    parlay::par_do3(OneShot(5, &a), OneShot(7, &b), OneShot(9, &c));
    VF_CHECK(a == 5 && b == 7 && c == 9, "callables", "one-shot branches gave %d %d %d", a, b, c);
    int x = 0, y = 0, z = 0;
    parlay::par_do3_if(it & 1, [&] { x++; }, [&] { y++; }, [&] { z++; });
    VF_CHECK(x == 1 && y == 1 && z == 1, "callables", "par_do3_if ran %d %d %d", x, y, z);
    std::atomic<int> s{0};
    std::function<void(size_t)> fn = [&](size_t i) { s += static_cast<int>(i); };
    parlay::parallel_for(0, 100, fn, static_cast<long>(it % 4));
    VF_CHECK(s == 4950, "callables", "std::function body summed to %d", s.load());
    eval(H(it & 7, 3));
  }
  event("callable_forks", rounds(2000, 5) * 3);
  sample("par_do with move-only one-shot functors");
}

// nested loops of random shape: exactly-once at the leaves, per-level joins
struct Nest {
  std::vector<std::atomic<uint32_t>> leaf; std::atomic<uint64_t> bad{0}; Rng r;
  uint64_t seed; bool cons;
  explicit Nest(size_t n, uint64_t s) : leaf(n), r(s), seed(s), cons(false) {}
  void go(size_t lo, size_t hi, int depth) {
    size_t n = hi - lo;
    uint64_t h = mix(seed ^ mix(lo * 31 + hi));
    if (n <= 4 || depth == 0) { for (size_t i = lo; i < hi; i++) leaf[i]++; return; }
    size_t k = 2 + h % std::min<size_t>(n - 1, 40);
    std::vector<uint32_t> donev(k, 0);   // plain, per child
    std::atomic<int> inflight{0};
    parlay::parallel_for(0, k, [&](size_t j) {
      inflight++;
      size_t a = lo + j * n / k, b = lo + (j + 1) * n / k;
      go(a, b, depth - 1);
      donev[j]++;
      inflight--;
    }, static_cast<long>((h >> 20) % 3), cons);
    if (inflight.load() != 0) bad++;
    for (auto d : donev) if (d != 1) bad++;
  }
};
CASE("nested") {
  for (size_t it = 0, R = rounds(500, 8); it < R; it++) {
    size_t n = 1 + rng.below(maxn(30000, 200000));
    Nest s(n, rng.next()); s.cons = rng.chance(1, 3);
    s.go(0, n, 5);
    for (size_t i = 0; i < n; i++) if (s.leaf[i] != 1) { fail("nested:count", "leaf %zu of %zu run %u times", i, n, s.leaf[i].load()); break; }
    VF_CHECK(s.bad == 0, "nested:join", "%llu inner loops returned before their bodies were done", static_cast<unsigned long long>(s.bad.load()));
    event("nested_leaves", n);
    eval(H(n, s.seed));
    sample("n=%zu 5 levels, cons=%d", n, s.cons);
  }
}

// long chains: the queue of the calling worker holds hundreds of pending branches
static uint64_t chain_left(int d) {
  if (d == 0) return 1;
  uint64_t a = 0, b = 0;
  parlay::par_do([&] { a = chain_left(d - 1); }, [&] { b = 1; });
  return a + b;
}
static uint64_t chain_right(int d) {
  if (d == 0) return 1;
  uint64_t a = 0, b = 0;
  parlay::par_do([&] { a = 1; if (d % 16 == 0) spin_ns(500); }, [&] { b = chain_right(d - 1); });
  return a + b;
}
CASE("chains") {
  for (size_t it = 0, R = rounds(500, 8); it < R; it++) {
    int d = static_cast<int>(rng.range(1, 900));
    uint64_t a = chain_left(d), b = chain_right(d);
    VF_CHECK(a == static_cast<uint64_t>(d) + 1, "chains", "left chain of depth %d gave %llu", d, static_cast<unsigned long long>(a));
    VF_CHECK(b == static_cast<uint64_t>(d) + 1, "chains", "right chain of depth %d gave %llu", d, static_cast<unsigned long long>(b));
    event("chain_forks", static_cast<uint64_t>(2 * d));
    eval(H(d));
    sample("chains of %d pending branches", d);
  }
}

// many joins whose waiting side helps with unrelated work: short branches against long ones
CASE("helping") {
  for (size_t it = 0, R = rounds(500, 8); it < R; it++) {
    size_t n = 200 + rng.below(400);
    std::vector<std::array<uint64_t, 4>> res(n);
    uint64_t sd = rng.next();
    parlay::parallel_for(0, n, [&](size_t i) {
      uint64_t a = 0, b = 0, c = 0;
      parlay::par_do([&] { a = i + 1; },
                     [&] { parlay::par_do([&] { if (mix(sd + i) % 8 == 0) spin_ns(5000); b = i + 2; }, [&] { c = i + 3; if (mix(sd - i) % 16 == 0) std::this_thread::yield(); }); });
      res[i] = {a, b, c, 1};
    }, 1);
    for (size_t i = 0; i < n; i++)
      if (res[i][0] != i + 1 || res[i][1] != i + 2 || res[i][2] != i + 3 || res[i][3] != 1) { fail("helping:lost", "item %zu of %zu has %llu %llu %llu", i, n, static_cast<unsigned long long>(res[i][0]), static_cast<unsigned long long>(res[i][1]), static_cast<unsigned long long>(res[i][2])); break; }
    event("helping_items", n);
    eval(H(n, sd));
    sample("%zu items of three-way forks inside a loop", n);
  }
}
