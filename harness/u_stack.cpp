// P09: hazptr_stack is linearizable and reclaims nodes safely.
#include "gen.h"
#include <parlay/internal/concurrency/hazptr_stack.h>
#include <parlay/parallel.h>

using namespace vf;
using parlay::internal::hazptr_stack;

static inline uint64_t stamp() { return static_cast<uint64_t>(std::chrono::steady_clock::now().time_since_epoch().count()); }
struct Op { uint64_t inv, res; int kind; int64_t v; };   // kind 0 push v, 1 pop -> v (-1 empty)

// Wing-Gong search with memoisation over (set of completed operations, stack content)
struct Lin {
  const std::vector<Op>& ops; std::set<std::pair<uint32_t, std::string>> seen; size_t visited = 0;
  explicit Lin(const std::vector<Op>& o) : ops(o) {}
  bool go(uint32_t done, std::vector<int64_t>& st) {
    if (done == (uint32_t{1} << ops.size()) - 1) return true;
    std::string key(reinterpret_cast<const char*>(st.data()), st.size() * sizeof(int64_t));
    if (!seen.emplace(done, key).second) return false;
    visited++;
    uint64_t minres = ~uint64_t{0};
    for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1)) minres = std::min(minres, ops[i].res);
    for (size_t i = 0; i < ops.size(); i++) {
      if ((done >> i & 1) || ops[i].inv > minres) continue;
      const Op& o = ops[i];
      if (o.kind == 0) { st.push_back(o.v); if (go(done | 1u << i, st)) return true; st.pop_back(); }
      else if (o.v < 0) { if (st.empty() && go(done | 1u << i, st)) return true; }
      else if (!st.empty() && st.back() == o.v) { st.pop_back(); if (go(done | 1u << i, st)) return true; st.push_back(o.v); }
    }
    return false;
  }
};

CASE("linearizable") {
  // groups of threads run many short histories on fresh content, separated by spinning barriers
  for (int T : {2, 3, 4}) {
    size_t K = T == 2 ? 7 : T == 3 ? 5 : 4; size_t R = rounds(12000, 10);
    hazptr_stack<int64_t> s; SpinBarrier bar(T + 1); std::atomic<bool> stop{false}; std::vector<std::vector<Op>> log(static_cast<size_t>(T));
    std::vector<std::thread> th; std::atomic<uint64_t> round{0}; uint64_t sd = rng.next();
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
      auto& lg = log[static_cast<size_t>(t)];
      while (true) {
        bar.wait(); if (stop) return;
        Rng r(mix(sd + round * 31 + static_cast<uint64_t>(t))); lg.clear(); uint64_t bias = 3 + mix(sd ^ round) % 5;
        for (size_t k = 0; k < K; k++) {
          if (r.below(10) < bias) { int64_t v = static_cast<int64_t>(static_cast<size_t>(t) * 100 + k); uint64_t a = stamp(); s.push(v); uint64_t b = stamp(); lg.push_back({a, b, 0, v}); }
          else { uint64_t a = stamp(); auto o = s.pop(); uint64_t b = stamp(); lg.push_back({a, b, 1, o ? *o : -1}); }
        }
        bar.wait();
      }
    });
    uint64_t overlapped = 0, empties = 0;
    for (size_t it = 0; it < R; it++) {
      round = it;
      std::vector<Op> ops; size_t pre = mix(sd - it) % 3;
      for (size_t i = 0; i < pre; i++) { s.push(static_cast<int64_t>(1000 + i)); ops.push_back({0, 1 + i, 0, static_cast<int64_t>(1000 + i)}); ops.back().inv = i == 0 ? 0 : i + 0; ops.back().res = i; if (i == 0) ops.back().res = 0; }
      bar.wait(); bar.wait();
      bool ov = false; uint64_t h = 0;
      for (size_t t = 0; t < log.size(); t++) for (auto& o : log[t]) { for (auto& p : ops) if (p.inv < o.res && o.inv < p.res) ov = true; ops.push_back(o); if (o.kind == 1 && o.v < 0) empties++; }
      // drain: what is left, sequentially
      uint64_t big = ~uint64_t{0} / 2; size_t left = 0;
      while (true) { auto o = s.pop(); if (!o) break; ops.push_back({big + 2 * left, big + 2 * left + 1, 1, *o}); left++; if (ops.size() > 31) break; }
      ops.push_back({big + 2 * left, big + 2 * left + 1, 1, -1});
      for (auto& o : ops) h = H(h, o.kind, o.v);
      if (ov) overlapped++;
      Lin l(ops); std::vector<int64_t> st;
      if (ops.size() <= 31 && !l.go(0, st)) {
        std::string d; for (size_t i = 0; i < ops.size(); i++) { char b[80]; snprintf(b, sizeof b, "%s%lld[%llu,%llu] ", ops[i].kind ? "pop=" : "push ", static_cast<long long>(ops[i].v), static_cast<unsigned long long>(ops[i].inv % 1000000000), static_cast<unsigned long long>(ops[i].res % 1000000000)); d += b; }
        fail("stack:not-linearizable", "%d threads: %s", T, d.c_str());
      }
      eval(h, ov); event("histories_checked"); event("operations", ops.size());
      while (s.pop()) {}
    }
    stop = true; bar.wait(); for (auto& x : th) x.join();
    event("histories_with_overlap", overlapped); event("empty_pops", empties);
    sample("%d threads x %zu operations, %zu histories, %llu with overlapping operations", T, K, R, static_cast<unsigned long long>(overlapped));
  }
}

// the stack against a vector
CASE("sequential-model") {
  for (size_t it = 0, R = rounds(200, 8); it < R; it++) {
    hazptr_stack<std::string> s; std::vector<std::string> m; uint64_t h = 0; uint64_t bias = 2 + rng.below(6);
    for (int k = 0; k < 500; k++) {
      uint64_t c = rng.below(10);
      if (c < bias) { std::string v = std::to_string(rng.next()); s.push(v); m.push_back(v); }
      else if (c == 9 && rng.chance(1, 20)) { s.clear(); m.clear(); }
      else { auto o = s.pop(); if (m.empty()) VF_CHECK(!o, "stack:ghost", "pop of an empty stack returned something"); else { VF_CHECK(o && *o == m.back(), "stack:lifo", "pop returned %s instead of %s", o ? o->c_str() : "nothing", m.back().c_str()); m.pop_back(); } }
      VF_CHECK(s.size() == m.size() && s.empty() == m.empty(), "stack:size", "size %zu, should be %zu", s.size(), m.size());
      h = H(h, c, m.size());
    }
    eval(h); event("model_operations", 500);
  }
  sample("500-step single-thread histories incl. size, empty, clear");
}

// A value that knows whether it is alive, with unique identity: exactly-once, conservation, bounded garbage
struct Val {
  static std::atomic<int64_t>& alive() { static std::atomic<int64_t> a{0}; return a; }
  uint64_t id; uint64_t magic = 0x600D;
  explicit Val(uint64_t i = 0) : id(i) { alive()++; }
  Val(const Val& o) : id(o.id), magic(o.magic) { alive()++; }
  Val(Val&& o) noexcept : id(o.id), magic(o.magic) { alive()++; }
  Val& operator=(const Val& o) = default;
  ~Val() { magic = 0xDEAD; alive()--; }
};
static void stress(Rng& rng, int T, size_t ops, int shape) {
  hazptr_stack<Val> s; std::vector<std::atomic<uint8_t>> popped(static_cast<size_t>(T) * ops); std::atomic<uint64_t> pushes{0}, pops{0}, badmagic{0}, dup{0}, order{0}, ghost{0}; uint64_t sd = rng.next();
  std::vector<std::thread> th; std::atomic<int64_t> peak{0};
  int64_t a0 = Val::alive();
  for (int t = 0; t < T; t++) th.emplace_back([&, t] {
    Rng r(mix(sd + static_cast<uint64_t>(t))); size_t mine = 0;
    for (size_t k = 0; k < ops; k++) {
      bool push = shape == 0 ? r.chance(1, 2) : shape == 1 ? (k / 50) % 2 == 0 : t % 2 == 0;
      if (push) { s.push(Val(static_cast<uint64_t>(t) * ops + mine)); mine++; pushes++; }
      else if (r.chance(1, 30)) { if (s.size() > static_cast<size_t>(T) * ops) ghost++; (void)s.empty(); }
      else { auto o = s.pop(); if (o) { pops++; if (o->magic != 0x600D) badmagic++; if (o->id >= popped.size()) ghost++; else if (popped[o->id].exchange(1)) dup++; } }
      if (k % 512 == 0) { int64_t v = Val::alive(); int64_t p = peak; while (v > p && !peak.compare_exchange_weak(p, v)) {} }
    }
  });
  for (auto& x : th) x.join();
  size_t left = s.size(), cnt = 0;
  while (auto o = s.pop()) { cnt++; if (o->id >= popped.size()) ghost++; else if (popped[o->id].exchange(1)) dup++; }
  VF_CHECK(cnt == left, "stack:size", "size() said %zu, %zu values came out", left, cnt);
  VF_CHECK(pushes == pops + cnt, "stack:conservation", "%llu pushed, %llu popped", static_cast<unsigned long long>(pushes.load()), static_cast<unsigned long long>(pops.load() + cnt));
  VF_CHECK(dup == 0, "stack:dup", "%llu values popped twice", static_cast<unsigned long long>(dup.load()));
  VF_CHECK(badmagic == 0, "stack:dead", "%llu values read after destruction", static_cast<unsigned long long>(badmagic.load()));
  VF_CHECK(ghost == 0, "stack:ghost", "%llu values were never pushed", static_cast<unsigned long long>(ghost.load()));
  // everything is out of the stack: what is still alive is retired nodes awaiting reclamation, a bounded number per thread id
  int64_t garbage = Val::alive() - a0, bound = static_cast<int64_t>(parlay::num_thread_ids()) * (40 + 2 * static_cast<int64_t>(parlay::num_thread_ids()));
  VF_CHECK(garbage <= bound && garbage >= -bound, "stack:garbage", "%lld nodes unreclaimed after all were popped (%llu pushed, %u thread ids)", static_cast<long long>(garbage), static_cast<unsigned long long>(pushes.load()), parlay::num_thread_ids());
  event("values_pushed", pushes); event("values_popped", pops + cnt);
  eval(H(sd, pops.load())); sample("%d threads: %llu pushes, %llu concurrent pops, %lld nodes still unreclaimed", T, static_cast<unsigned long long>(pushes.load()), static_cast<unsigned long long>(pops.load()), static_cast<long long>(garbage));
}
CASE("stress-mixed") { for (size_t i = 0, R = rounds(12, 8); i < R; i++) stress(rng, 8, 8000, 0); }
CASE("stress-phases") { for (size_t i = 0, R = rounds(8, 8); i < R; i++) stress(rng, 6, 6000, 1); }
CASE("stress-producers") { for (size_t i = 0, R = rounds(8, 8); i < R; i++) stress(rng, 8, 6000, 2); }
// threads come and go: retired nodes of ended threads are reclaimed by their successors
CASE("stress-churn") { for (size_t i = 0, R = rounds(80, 8); i < R; i++) stress(rng, static_cast<int>(2 + rng.below(6)), 400, static_cast<int>(rng.below(3))); }
// a stack destroyed with content destroys it
CASE("destroy") {
  for (size_t i = 0, R = rounds(100, 8); i < R; i++) {
    int64_t a0 = Val::alive(); size_t n = rng.below(500); { hazptr_stack<Val> s; for (size_t k = 0; k < n; k++) s.push(Val(k)); for (size_t k = 0; k < n / 3; k++) s.pop(); a0 += 0; }
    int64_t g = Val::alive() - a0; int64_t bound = static_cast<int64_t>(parlay::num_thread_ids()) * (40 + 2 * static_cast<int64_t>(parlay::num_thread_ids()));
    VF_CHECK(g <= bound, "stack:leak", "%lld of %zu values alive after the stack was destroyed", static_cast<long long>(g), n);
    eval(H(n));
  }
  sample("stacks destroyed with up to 500 values");
}
